#!/usr/bin/env python3
# writes MANIFEST.json
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, 'properties.jsonl'))]
CLAIMED = open(os.path.join(here, 'gen', 'claimed')).read().split()
NOTE = ("Every obligation generated from /repo's current source by the verifier in gvc/ is discharged, for all inputs and "
        "iterations: %s Trusted: the condition generator, go/ssa, z3, the assumed contracts of the standard library functions the "
        "evidence lists, and the statements in contracts/. Machine integers are mathematical with overflow obligations; "
        "inputs are at most 2^48 bytes.")
EXTRA = json.load(open(os.path.join(here, 'gen', 'notes.json')))
checks, na = [], []
for p in props:
    i = p['id']
    if i in CLAIMED:
        checks.append({
            'property': i,
            'quick_cmd': './check.sh %s quick' % i,
            'thorough_cmd': './check.sh %s thorough' % i,
            'evidence_file': 'evidence/%s.json' % i,
            'technique': 'contract-based deductive verification of the Go source (own SSA condition generator, z3)',
            'level': 'proof',
            'level_note': NOTE % EXTRA.get(i, ''),
            'theorems': [],
        })
        th = []
        for l in open(os.path.join(here, 'contracts', 'zz_gvc_lemmas.go')):
            if l.startswith('func gvcLemma%s_' % i):
                th.append(l[5:].split('(')[0])
        checks[-1]['theorems'] = th
    else:
        na.append({'property': i, 'reason': 'the contracts are written but not all their obligations are discharged yet'})
m = {'version': 1, 'setup_cmd': './check.sh -build', 'checks': checks, 'not_applicable': na}
json.dump(m, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(here, 'MANIFEST.json'), 'a').write('\n')
