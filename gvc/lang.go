package main

// The language of a parsing mode with its marked positions: bounds and byte sets of the pieces of an
// accepted text, and running one mode's automaton over a text built from pieces of an accepted one.

import (
	"fmt"
	"sort"
	"strings"
)

// lang is the set of accepted texts that set exactly the given tags: the mode's automaton, restricted.
type lang struct {
	m     *ModeSpec
	sig   string
	tags  []string // in the order of the text
	final *gState  // bounds over {0, N, tags...}
	eps   [][]langEps
	edge  [][]langEdge
	start int
	end   map[int]bool
	sets  [][]Set256 // per interval between consecutive tags: byte sets per position if its length is fixed, else one set
	fixed []bool
}
type langEps struct {
	tag string
	to  int
}
type langEdge struct {
	set Set256
	to  int
}

func tagSig[T any](tags map[string]T) string {
	var ks []string
	for k := range tags {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return strings.Join(ks, ",")
}

// langs returns the accepted languages of the mode by tag signature, and the error rules that can apply.
func (m *ModeSpec) langs() map[string]*lang {
	if m.lang != nil {
		return m.lang
	}
	m.lang = map[string]*lang{}
	for _, s := range m.g.states {
		if !s.eof.acc || s.ub == nil {
			continue
		}
		sig := tagSig(s.eof.tags)
		l := m.lang[sig]
		names := strings.Split(sig, ",")
		if sig == "" {
			names = nil
		}
		idx := func(k int) int { // index over {0, N, tags (sorted)} to index in s
			if k < 2 {
				return k
			}
			if r := s.eof.tags[names[k-2]]; r >= 0 {
				return 2 + r
			}
			return 1
		}
		n := 2 + len(names)
		if l == nil {
			l = m.buildLang(sig, names)
			m.lang[sig] = l
			l.final = &gState{id: 100000 + len(m.lang), nregs: len(names)}
			l.final.eof = &gEnd{acc: true, tags: map[string]int{}}
			for i, t := range names {
				l.final.eof.tags[t] = i
			}
			l.final.ub = make([][]int64, n)
			for a := range l.final.ub {
				l.final.ub[a] = make([]int64, n)
				for b := range l.final.ub[a] {
					l.final.ub[a][b] = s.ub[idx(a)][idx(b)]
				}
			}
			l.final.last, l.final.lastOK = s.last, s.lastOK
			continue
		}
		for a := 0; a < n; a++ {
			for b := 0; b < n; b++ {
				if u := s.ub[idx(a)][idx(b)]; u > l.final.ub[a][b] {
					l.final.ub[a][b] = u
				}
			}
		}
		for k := range s.last {
			l.final.last[k] = l.final.last[k].or(s.last[k])
			l.final.lastOK[k] = l.final.lastOK[k] && s.lastOK[k]
		}
	}
	for _, l := range m.lang {
		l.pieces()
	}
	return m.lang
}

func (m *ModeSpec) langOf(sig string) *lang { return m.langs()[sig] }

func (m *ModeSpec) sigs() []string {
	var ks []string
	for k := range m.langs() {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// classes are the error rules that some text gets.
func (m *ModeSpec) classes() []int {
	seen := map[int]bool{}
	for _, s := range m.g.states {
		for i := range s.succ {
			if s.succ[i].to == nil {
				seen[s.succ[i].cls] = true
			}
		}
		if !s.eof.acc {
			seen[s.eof.cls] = true
		}
	}
	var cs []int
	for c := range seen {
		cs = append(cs, c)
	}
	sort.Ints(cs)
	return cs
}

func (m *ModeSpec) buildLang(sig string, names []string) *lang {
	l := &lang{m: m, sig: sig, end: map[int]bool{}}
	want := map[string]bool{}
	for _, n := range names {
		want[n] = true
	}
	n := m.nfa
	type key struct {
		st   int
		seen string
	}
	ids := map[key]int{}
	var ks []key
	get := func(k key) int {
		if i, ok := ids[k]; ok {
			return i
		}
		ids[k] = len(ks)
		ks = append(ks, k)
		l.eps = append(l.eps, nil)
		l.edge = append(l.edge, nil)
		return len(ks) - 1
	}
	addTag := func(s, t string) string {
		p := strings.Split(s, ",")
		if s == "" {
			p = nil
		}
		p = append(p, t)
		sort.Strings(p)
		return strings.Join(p, ",")
	}
	l.start = get(key{n.start, ""})
	for i := 0; i < len(ks); i++ {
		k := ks[i]
		if k.st == n.final && k.seen == sig {
			l.end[i] = true
		}
		for _, e := range n.edges[k.st] {
			if !n.useful[e.to] {
				continue
			}
			if !e.eps {
				t := get(key{e.to, k.seen})
				l.edge[i] = append(l.edge[i], langEdge{e.set, t})
				continue
			}
			s := k.seen
			if e.tag != "" {
				if !want[e.tag] {
					continue
				}
				s = addTag(s, e.tag)
			}
			t := get(key{e.to, s})
			l.eps[i] = append(l.eps[i], langEps{e.tag, t})
		}
	}
	// keep what can reach the end
	good := map[int]bool{}
	for ch := true; ch; {
		ch = false
		for i := range ks {
			if good[i] {
				continue
			}
			ok := l.end[i]
			for _, e := range l.eps[i] {
				ok = ok || good[e.to]
			}
			for _, e := range l.edge[i] {
				ok = ok || good[e.to]
			}
			if ok {
				good[i] = true
				ch = true
			}
		}
	}
	for i := range ks {
		var es []langEps
		for _, e := range l.eps[i] {
			if good[e.to] {
				es = append(es, e)
			}
		}
		l.eps[i] = es
		var bs []langEdge
		for _, e := range l.edge[i] {
			if good[e.to] {
				bs = append(bs, e)
			}
		}
		l.edge[i] = bs
	}
	return l
}

// closure: the nodes reachable without consuming, with the tags crossed.
func (l *lang) closure(from []int, stop string) (inside []int, crossed []int) {
	seen := map[int]bool{}
	cr := map[int]bool{}
	var walk func(i int)
	walk = func(i int) {
		if seen[i] {
			return
		}
		seen[i] = true
		inside = append(inside, i)
		for _, e := range l.eps[i] {
			if e.tag != "" && e.tag == stop {
				if !cr[e.to] {
					cr[e.to] = true
					crossed = append(crossed, e.to)
				}
				continue
			}
			walk(e.to)
		}
	}
	for _, i := range from {
		walk(i)
	}
	return
}

// at returns the nodes right after crossing the tag, starting anywhere.
func (l *lang) at(tag string) []int {
	seen := map[int]bool{}
	var out []int
	reach := l.reachable([]int{l.start})
	for i := range l.eps {
		if !reach[i] {
			continue
		}
		for _, e := range l.eps[i] {
			if e.tag == tag && !seen[e.to] {
				seen[e.to] = true
				out = append(out, e.to)
			}
		}
	}
	sort.Ints(out)
	return out
}

func (l *lang) reachable(from []int) map[int]bool {
	seen := map[int]bool{}
	var walk func(i int)
	walk = func(i int) {
		if seen[i] {
			return
		}
		seen[i] = true
		for _, e := range l.eps[i] {
			walk(e.to)
		}
		for _, e := range l.edge[i] {
			walk(e.to)
		}
	}
	for _, i := range from {
		walk(i)
	}
	return seen
}

// pieces computes the order of the tags and the byte sets between them.
func (l *lang) pieces() {
	// order: the order in which a walk crosses them (the same for all walks of the restricted automaton)
	before := map[[2]string]bool{}
	for t := range l.final.eof.tags {
		r := l.reachable(l.at(t))
		for u := range l.final.eof.tags {
			if u == t {
				continue
			}
			for i := range r {
				for _, e := range l.eps[i] {
					if e.tag == u {
						before[[2]string{t, u}] = true
					}
				}
			}
		}
	}
	for t := range l.final.eof.tags {
		l.tags = append(l.tags, t)
	}
	sort.Slice(l.tags, func(i, j int) bool {
		a, b := l.tags[i], l.tags[j]
		if before[[2]string{a, b}] != before[[2]string{b, a}] {
			return before[[2]string{a, b}]
		}
		return a < b
	})
	for i := range l.tags {
		for j := i + 1; j < len(l.tags); j++ {
			if before[[2]string{l.tags[j], l.tags[i]}] {
				panic("spec: tags of " + l.m.Name + " are not ordered")
			}
		}
	}
	for i := 0; i+1 < len(l.tags); i++ {
		a, b := l.tags[i], l.tags[i+1]
		ia, ib := 2+l.final.eof.tags[a], 2+l.final.eof.tags[b]
		n := l.final.ub[ib][ia]
		cur := l.at(a)
		if n <= 64 && l.final.ub[ia][ib] == -n {
			var sets []Set256
			for k := int64(0); k < n; k++ {
				in, _ := l.closure(cur, b)
				var s Set256
				next := map[int]bool{}
				for _, x := range in {
					for _, e := range l.edge[x] {
						s = s.or(e.set)
						next[e.to] = true
					}
				}
				sets = append(sets, s)
				cur = nil
				for x := range next {
					cur = append(cur, x)
				}
				sort.Ints(cur)
			}
			l.sets = append(l.sets, sets)
			l.fixed = append(l.fixed, true)
			continue
		}
		var s Set256
		seen := map[int]bool{}
		work := cur
		for len(work) > 0 {
			in, _ := l.closure(work, b)
			work = nil
			for _, x := range in {
				if seen[x] {
					continue
				}
				seen[x] = true
				for _, e := range l.edge[x] {
					s = s.or(e.set)
					work = append(work, e.to)
				}
			}
		}
		l.sets = append(l.sets, []Set256{s})
		l.fixed = append(l.fixed, false)
	}
}

// positions gives terms for the tags of a text of n bytes: constants and sums where the bounds are tight.
func (l *lang) positions(st *State, n *Term, name string) map[string]*Term {
	tags := map[string]*Term{}
	val := []*Term{zero, n}
	for range l.tags {
		val = append(val, nil)
	}
	for _, t := range l.tags {
		i := 2 + l.final.eof.tags[t]
		var v *Term
		for j, o := range val {
			if o == nil {
				continue
			}
			if u := l.final.ub[i][j]; u < ginf && l.final.ub[j][i] == -u {
				v = AddC(o, u)
				break
			}
		}
		if v == nil {
			v = Fresh(name+t, SInt)
		}
		val[i] = v
		tags[t] = v
	}
	for _, e := range l.final.tight() {
		st.pc.assume(Le(Sub(val[e[0]], val[e[1]]), Int(l.final.ub[e[0]][e[1]])))
	}
	return tags
}

// facts says what the bytes of an accepted text are.
func (l *lang) facts(st *State, D *Term, tags map[string]*Term) {
	for i := 0; i+1 < len(l.tags); i++ {
		a, b := tags[l.tags[i]], tags[l.tags[i+1]]
		if l.fixed[i] {
			for k, s := range l.sets[i] {
				st.pc.assume(In(Sel(D, AddC(a, int64(k))), s))
			}
			continue
		}
		if a == b {
			continue
		}
		st.pc.q = append(st.pc.q, QFact{lo: a, hi: b, body: In(Sel(D, kappa), l.sets[i][0]), note: l.tags[i]})
	}
}

// ---- running a mode's automaton over a text made of pieces

type runLabel struct { // position: start of segment seg + k, or the source's tag + k in segment seg
	seg int
	tag string
	k   int
}

func (r runLabel) String() string { return fmt.Sprintf("%d%s+%d", r.seg, r.tag, r.k) }

type runSeg struct {
	lit  string
	l    *lang // nil: literal
	acc  *Accepted
	from string // tag
	to   string // tag, "" for the end of the text
	fn   string // "", lower, upper, norm
}

type runEnd struct {
	acc  bool
	sig  string
	cls  int
	tags map[string]map[runLabel]bool
	pos  map[runLabel]bool
}

const maxLabelK = 3

type runCfg struct {
	q      *gState
	regs   []string // sorted labels, joined
	src    map[string]int
	here   string // labels of the current position
	win    int    // bytes since the last percent sign in the piece (norm)
	litPos int
}

type labelSet = map[runLabel]bool

// run returns the possible outcomes of the mode on the concatenation of the segments.
func (m *ModeSpec) run(segs []runSeg) ([]*runEnd, bool) {
	type cfg struct {
		q    int
		regs string // per register: id of label set
		node int    // position in the source automaton of the current segment
		last string // positions of the source automata of earlier segments: acc key -> node
		here string
		win  int
	}
	// label sets are interned
	tab := map[string]int{}
	var sets []labelSet
	intern := func(s labelSet) int {
		var ks []string
		for k := range s {
			ks = append(ks, k.String())
		}
		sort.Strings(ks)
		k := strings.Join(ks, " ")
		if i, ok := tab[k]; ok {
			return i
		}
		tab[k] = len(sets)
		sets = append(sets, s)
		return len(sets) - 1
	}
	merge := func(a, b labelSet) labelSet {
		n := labelSet{}
		for k := range a {
			n[k] = true
		}
		for k := range b {
			n[k] = true
		}
		return n
	}
	step := func(s labelSet) labelSet { // the position moves one byte
		n := labelSet{}
		for k := range s {
			if k.k < maxLabelK {
				k.k++
				n[k] = true
			}
		}
		return n
	}
	ends := map[string]*runEnd{}
	var order []*runEnd
	note := func(e *gEnd, q *gState, regs []int, pos int) {
		var r *runEnd
		if e.acc {
			r = &runEnd{acc: true, sig: tagSig(e.tags)}
		} else {
			r = &runEnd{cls: e.cls}
		}
		k := fmt.Sprintf("%v%s%d", r.acc, r.sig, r.cls)
		o := ends[k]
		if o == nil {
			ends[k] = r
			order = append(order, r)
			if e.acc {
				r.tags = map[string]labelSet{}
				for t, i := range e.tags {
					if i >= 0 {
						r.tags[t] = sets[regs[i]]
					} else {
						r.tags[t] = sets[pos]
					}
				}
			} else {
				r.pos = sets[pos]
			}
			return
		}
		meet := func(a, b labelSet) labelSet {
			n := labelSet{}
			for k := range a {
				if b[k] {
					n[k] = true
				}
			}
			return n
		}
		if e.acc {
			for t, i := range e.tags {
				if i >= 0 {
					o.tags[t] = meet(o.tags[t], sets[regs[i]])
				} else {
					o.tags[t] = meet(o.tags[t], sets[pos])
				}
			}
		} else {
			o.pos = meet(o.pos, sets[pos])
		}
	}
	enc := func(r []int) string {
		var b strings.Builder
		for _, x := range r {
			fmt.Fprintf(&b, "%d,", x)
		}
		return b.String()
	}
	dec := func(s string) []int {
		var r []int
		for _, p := range strings.Split(strings.TrimSuffix(s, ","), ",") {
			if p != "" {
				n := 0
				fmt.Sscan(p, &n)
				r = append(r, n)
			}
		}
		return r
	}
	// the configurations at a segment boundary
	type bound struct {
		q    int
		regs string
		here int
		last string // "acckey@node;"
	}
	cur := map[bound]bool{{q: 0, here: intern(labelSet{{0, "", 0}: true})}: true}
	limit := 0
	consume := func(q int, regs []int, here int, b byte) (int, []int, bool) {
		s := m.g.states[q]
		for i := range s.succ {
			sc := &s.succ[i]
			if !sc.set.has(b) {
				continue
			}
			if sc.to == nil {
				note(&gEnd{cls: sc.cls}, nil, nil, here)
				return 0, nil, false
			}
			var nr []int
			for _, o := range sc.regs {
				if o >= 0 {
					nr = append(nr, regs[o])
				} else {
					nr = append(nr, here)
				}
			}
			return sc.to.id, nr, true
		}
		panic("ghost")
	}
	for si := range segs {
		sg := &segs[si]
		next := map[bound]bool{}
		add := func(q int, regs []int, here labelSet, last string) {
			next[bound{q, enc(regs), intern(merge(here, labelSet{{si + 1, "", 0}: true})), last}] = true
		}
		if sg.l == nil {
			for b := range cur {
				q, regs, here := b.q, dec(b.regs), b.here
				ok := true
				for k := 0; k < len(sg.lit) && ok; k++ {
					q, regs, ok = consume(q, regs, here, sg.lit[k])
					here = intern(step(sets[here]))
				}
				if ok {
					add(q, regs, sets[here], b.last)
				}
			}
			cur = next
			continue
		}
		l := sg.l
		type inner struct {
			q    int
			regs string
			here int
			node int
			win  int
			last string
		}
		seen := map[inner]bool{}
		var work []inner
		push := func(c inner) {
			if !seen[c] {
				seen[c] = true
				work = append(work, c)
				limit++
			}
		}
		key := fmt.Sprintf("%s@%d.%d.%s", l.m.Name, sg.acc.D.id, sg.acc.N.id, l.sig)
		atTag := l.at(sg.from)
		for b := range cur {
			// where the source automaton can be
			starts := atTag
			rest := ""
			for _, p := range strings.Split(b.last, ";") {
				if p == "" {
					continue
				}
				kv := strings.SplitN(p, "#", 2)
				if kv[0] != key {
					rest += p + ";"
					continue
				}
				n := 0
				fmt.Sscan(kv[1], &n)
				r := l.reachable([]int{n})
				var s []int
				for i := range r {
					for _, e := range l.eps[i] {
						if e.tag == sg.from {
							s = append(s, e.to)
						}
					}
				}
				// n itself may have been reached by crossing the tag
				for _, i := range atTag {
					if i == n {
						s = append(s, i)
					}
				}
				if len(s) > 0 {
					starts = s
				}
			}
			here := intern(merge(sets[b.here], labelSet{{si, sg.from, 0}: true}))
			for _, n := range starts {
				push(inner{b.q, b.regs, here, n, 9, rest})
			}
		}
		for len(work) > 0 {
			c := work[len(work)-1]
			work = work[:len(work)-1]
			if limit > 400000 {
				return nil, false
			}
			// cross tags
			for _, e := range l.eps[c.node] {
				if e.tag != "" && e.tag == sg.to {
					add(c.q, dec(c.regs), sets[c.here], c.last+fmt.Sprintf("%s#%d;", key, e.to))
					continue
				}
				d := c
				d.node = e.to
				if e.tag != "" {
					d.here = intern(merge(sets[c.here], labelSet{{si, e.tag, 0}: true}))
				}
				push(d)
			}
			if sg.to == "" && l.end[c.node] {
				add(c.q, dec(c.regs), sets[c.here], c.last+fmt.Sprintf("%s#%d;", key, c.node))
			}
			if len(l.edge[c.node]) == 0 {
				continue
			}
			regs := dec(c.regs)
			nhere := -1
			for _, e := range l.edge[c.node] {
				done := map[string]bool{}
				for bi := 0; bi < 256; bi++ {
					by := byte(bi)
					if !e.set.has(by) {
						continue
					}
					win := c.win
					if win < 9 {
						win++
					}
					out := by
					switch sg.fn {
					case "lower":
						out = lowerByte(by)
					case "upper":
						out = upperByte(by)
					case "norm":
						if c.win < 2 {
							out = lowerByte(by)
						}
						if win > 2 {
							win = 9
						}
						if by == '%' {
							win = 0
						}
					}
					if sg.fn != "norm" {
						win = 9
					}
					// bytes of the same effect
					s := m.g.states[c.q]
					ci := 0
					for i := range s.succ {
						if s.succ[i].set.has(out) {
							ci = i
						}
					}
					dk := fmt.Sprintf("%d.%d", ci, win)
					if done[dk] {
						continue
					}
					done[dk] = true
					q, nr, ok := consume(c.q, regs, c.here, out)
					if !ok {
						continue
					}
					if nhere < 0 {
						nhere = intern(step(sets[c.here]))
					}
					push(inner{q, enc(nr), nhere, e.to, win, c.last})
				}
			}
		}
		cur = next
	}
	for b := range cur {
		q := m.g.states[b.q]
		note(q.eof, q, dec(b.regs), b.here)
	}
	sort.Slice(order, func(i, j int) bool {
		a, b := order[i], order[j]
		if a.acc != b.acc {
			return a.acc
		}
		if a.sig != b.sig {
			return a.sig < b.sig
		}
		return a.cls < b.cls
	})
	return order, true
}
