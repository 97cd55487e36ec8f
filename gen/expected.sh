#!/bin/sh
# Writes contracts/expected.json: the statements every lemma reaches on the current tree (vacuity guard).
set -e
here=$(cd "$(dirname "$0")/.." && pwd)
"$here/check.sh" -build
out=$(mktemp -d)
grep -oE "^func gvcLemma[A-Za-z0-9_]+" "$here/contracts/zz_gvc_lemmas.go" | sed 's/func //' |
  xargs -P 8 -I{} "$here/.build/gvc" -repo /repo -dir "$here" -lemma {} -exact -json "$out/{}" >/dev/null 2>&1
python3 - "$out" "$here" <<'P'
import json, os, sys
out, here = sys.argv[1:]
m = {}
for f in sorted(os.listdir(out)):
    r = json.load(open(os.path.join(out, f)))
    r = r if isinstance(r, dict) else r[0]
    s = set()
    for o in r['obligations']:
        n = o['name']
        if ':ensures' in n and o['count'] > 0:
            n = n[n.index('/')+1:]
            s.add(n[n[:n.index(':ensures')].rindex('.')+1:])
        if o.get('failed'):
            print('FAILED', f, n)
    m[f] = sorted(s)
json.dump(m, open(os.path.join(here, 'contracts', 'expected.json'), 'w'), indent=1, sort_keys=True)
open(os.path.join(here, 'contracts', 'expected.json'), 'a').write('\n')
print(len(m), 'lemmas', sum(map(len, m.values())), 'statements')
P
rm -rf "$out"
