package main

// Path conditions: ground facts, byte-set facts and quantified facts
// (∀κ∈[lo,hi). body), with entailment by byte sets, difference bounds and z3.

import (
	"sort"
)

type QFact struct {
	lo, hi *Term
	body   *Term // Bool, mentions κ
	note   string
}

type PC struct {
	facts []*Term
	known map[*Term]bool // atom -> truth
	sets  map[*Term]Set256
	q     []QFact
	dead  bool
	dl    *dlCache
	plain map[string]bool // texts that are their own normal form
}

// setPlain records that norm(r) is r.
func (p *PC) setPlain(r Rope) {
	m := map[string]bool{r.key(): true}
	for k := range p.plain {
		m[k] = true
	}
	p.plain = m
}

// canon replaces norm(r) by r where that is known to be the same.
func (p *PC) canon(r Rope) Rope {
	if len(p.plain) == 0 {
		return r
	}
	var out Rope
	for i := range r {
		if s := &r[i]; s.kind == SegApp && s.fn == "norm" && p.plain[s.args[0].key()] {
			out = concatR(out, s.args[0])
		} else {
			out = concatR(out, r[i:i+1])
		}
	}
	return out
}

func newPC() *PC { return &PC{known: map[*Term]bool{}, sets: map[*Term]Set256{}} }

func (p *PC) clone() *PC {
	n := &PC{dl: p.dl, plain: p.plain, facts: p.facts[:len(p.facts):len(p.facts)], q: p.q[:len(p.q):len(p.q)], dead: p.dead}
	n.known = make(map[*Term]bool, len(p.known)+4)
	for k, v := range p.known {
		n.known[k] = v
	}
	n.sets = make(map[*Term]Set256, len(p.sets)+2)
	for k, v := range p.sets {
		n.sets[k] = v
	}
	return n
}

// simp simplifies a boolean term under the known facts.
func (p *PC) simp(t *Term) *Term { return p.simpM(t, nil) }

func (p *PC) simpM(t *Term, memo map[*Term]*Term) *Term {
	switch t.op {
	case OpTrue, OpFalse:
		return t
	case OpAnd, OpOr:
		if r, ok := memo[t]; ok {
			return r
		}
		if memo == nil {
			memo = map[*Term]*Term{}
		}
		as := make([]*Term, len(t.args))
		for i, a := range t.args {
			as[i] = p.simpM(a, memo)
		}
		r := nary(t.op, as)
		memo[t] = r
		return r
	case OpIn:
		if s, ok := p.sets[t.args[0]]; ok {
			if s.sub(t.set) {
				return tTrue
			}
			if s.and(t.set).empty() {
				return tFalse
			}
		}
		// a byte at an index that is provably equal to another one
		return t
	case OpNot:
		if v, ok := p.known[t.args[0]]; ok {
			return Bool(!v)
		}
		return t
	}
	if v, ok := p.known[t]; ok {
		return Bool(v)
	}
	return t
}

// assume adds a fact; it returns false when the path became infeasible.
func (p *PC) assume(t *Term) bool {
	if p.dead {
		return false
	}
	t = p.simp(t)
	switch t.op {
	case OpTrue:
		return true
	case OpFalse:
		p.dead = true
		return false
	case OpAnd:
		for _, a := range t.args {
			if !p.assume(a) {
				return false
			}
		}
		return true
	case OpIn:
		b := t.args[0]
		s := t.set
		if o, ok := p.sets[b]; ok {
			s = s.and(o)
		}
		if s.empty() {
			p.dead = true
			return false
		}
		p.sets[b] = s
		if b.op == OpSel && !p.mergeSel(b) {
			p.dead = true
			return false
		}
		return true
	case OpNot:
		p.known[t.args[0]] = false
		p.facts = append(p.facts, t)
		return true
	}
	p.known[t] = true
	p.facts = append(p.facts, t)
	if t.op == OpLe0 || t.op == OpEq0 {
		if p.dlUnsat() {
			p.dead = true
			return false
		}
	}
	// unit propagation over disjunctions
	for _, f := range p.facts {
		if f.op == OpOr {
			g := p.simp(f)
			if g.isFalse() {
				p.dead = true
				return false
			}
			if g.op != OpOr && !g.isTrue() && g != f {
				if !p.assume(g) {
					return false
				}
			}
		}
	}
	return true
}

// mergeSel intersects the sets of select atoms on the same array whose indices are provably equal.
func (p *PC) mergeSel(b *Term) bool {
	for o, s := range p.sets {
		if o != b && o.op == OpSel && o.args[0] == b.args[0] {
			if q := p.quick(EqI(o.args[1], b.args[1])); q == 1 {
				n := s.and(p.sets[b])
				if n.empty() {
					return false
				}
				p.sets[o], p.sets[b] = n, n
			}
		}
	}
	return true
}

// ---- difference logic

type dlEdge struct {
	from, to *Term // to - from <= w
	w        int64
}

func dlOf(t *Term, add func(x, y *Term, w int64)) {
	// t <= 0
	switch {
	case t.op == OpLin && len(t.args) == 1 && (t.coef[0] == 1 || t.coef[0] == -1):
		if t.coef[0] == 1 { // a + k <= 0 : a - 0 <= -k
			add(nil, t.args[0], -t.k)
		} else { // -a + k <= 0 : 0 - a <= -k
			add(t.args[0], nil, -t.k)
		}
	case t.op == OpLin && len(t.args) == 2 && t.coef[0]+t.coef[1] == 0 && (t.coef[0] == 1 || t.coef[0] == -1):
		if t.coef[0] == 1 { // a - b + k <= 0
			add(t.args[1], t.args[0], -t.k)
		} else {
			add(t.args[0], t.args[1], -t.k)
		}
	case t.op != OpLin && t.op != OpInt:
		add(nil, t, 0)
	}
}

// dlCache is what is computed from the difference bounds among the first n facts. Facts are only ever
// appended, and a path condition shares the cache with the one it was cloned from until one of them does.
type dlCache struct {
	n    int
	es   []dlEdge
	b2i  map[*Term]bool
	dist map[*Term]distRes
}

type distRes struct {
	d   map[*Term]int64
	neg bool
}

func (p *PC) bounds() *dlCache {
	c := p.dl
	if c != nil && c.n == len(p.facts) {
		return c
	}
	n := &dlCache{n: len(p.facts), dist: map[*Term]distRes{}}
	from := 0
	if c != nil {
		from = c.n
		n.es = c.es[:len(c.es):len(c.es)]
		n.b2i = c.b2i
	}
	var atoms []*Term
	add := func(x, y *Term, w int64) {
		if w < dlBig && w > -dlBig { // the ranges of 64-bit variables are left to the solver
			n.es = append(n.es, dlEdge{x, y, w})
			for _, a := range []*Term{x, y} {
				if a != nil && a.op == OpB2I && !n.b2i[a] {
					atoms = append(atoms, a)
				}
			}
		}
	}
	for _, f := range p.facts[from:] {
		switch f.op {
		case OpLe0:
			dlOf(f.args[0], add)
		case OpEq0:
			dlOf(f.args[0], add)
			dlOf(Neg(f.args[0]), add)
		}
	}
	if len(atoms) > 0 {
		m := map[*Term]bool{}
		for a := range n.b2i {
			m[a] = true
		}
		for _, a := range atoms {
			if !m[a] {
				m[a] = true
				n.es = append(n.es, dlEdge{a, nil, 0}, dlEdge{nil, a, 255})
			}
		}
		n.b2i = m
	}
	if c != nil && len(c.es) == len(n.es) {
		n.dist = c.dist // nothing new
	}
	p.dl = n
	return n
}

func (c *dlCache) from(x *Term) (map[*Term]int64, bool) {
	if r, ok := c.dist[x]; ok {
		return r.d, r.neg
	}
	d, neg := dist(c.es, x)
	c.dist[x] = distRes{d, neg}
	return d, neg
}

// value is the number the bounds pin the term down to.
func (p *PC) value(t *Term) (int64, bool) {
	if t.isConst() {
		return t.k, true
	}
	k := int64(0)
	if t.op == OpLin && len(t.args) == 1 && t.coef[0] == 1 {
		k, t = t.k, t.args[0]
	}
	c := p.bounds()
	up, _ := c.from(nil)
	lo, _ := c.from(t)
	u, ok := up[t]
	l, ok2 := lo[nil]
	return u + k, ok && ok2 && u == -l
}

// upper is the best known bound on t - s.
func (p *PC) upper(t, s *Term) (int64, bool) {
	split := func(t *Term) (*Term, int64) {
		if t.isConst() {
			return nil, t.k
		}
		if t.op == OpLin && len(t.args) == 1 && t.coef[0] == 1 {
			return t.args[0], t.k
		}
		return t, 0
	}
	a, i := split(t)
	b, j := split(s)
	d, neg := p.bounds().from(b)
	u, ok := d[a]
	return u + i - j, ok && !neg
}

const dlBig = int64(1) << 52

// satAdd adds with a floor, which only weakens a bound.
func satAdd(a, b int64) int64 {
	if s := a + b; s > -(1 << 60) {
		return s
	}
	return -(1 << 60)
}

// dist returns the shortest distance from x to y (bound on y - x), and whether a negative cycle exists.
func dist(es []dlEdge, x *Term) (map[*Term]int64, bool) {
	d := map[*Term]int64{x: 0}
	for it := 0; ; it++ {
		ch := false
		for _, e := range es {
			if df, ok := d[e.from]; ok {
				if dt, ok := d[e.to]; !ok || satAdd(df, e.w) < dt {
					d[e.to] = satAdd(df, e.w)
					ch = true
				}
			}
		}
		if !ch {
			return d, false
		}
		if it > len(es)+2 {
			return d, true
		}
	}
}

// dlUnsat reports whether the bounds contradict each other.
func (p *PC) dlUnsat() bool {
	old := p.dl
	c := p.bounds()
	if old == nil || old == c {
		// all-sources: start every node at 0
		d := map[*Term]int64{}
		for _, e := range c.es {
			d[e.from], d[e.to] = 0, 0
		}
		for it := 0; ; it++ {
			ch := false
			for _, e := range c.es {
				if v := satAdd(d[e.from], e.w); v < d[e.to] {
					d[e.to] = v
					ch = true
				}
			}
			if !ch {
				return false
			}
			if it > len(d)+1 {
				return true
			}
		}
	}
	// the old bounds were consistent: a negative cycle goes through a new edge
	for _, e := range c.es[len(old.es):] {
		d, neg := c.from(e.to)
		if neg {
			return true
		}
		if v, ok := d[e.from]; ok && v+e.w < 0 {
			return true
		}
	}
	return false
}

// quick decides a boolean without a solver: 1 true, 0 false, -1 unknown.
func (p *PC) quick(t *Term) int {
	if p.dead {
		return 1
	}
	return p.quickM(p.simp(t), nil)
}

func (p *PC) quickM(t *Term, memo map[*Term]int) (res int) {
	if t.op == OpAnd || t.op == OpOr {
		if r, ok := memo[t]; ok {
			return r
		}
		if memo == nil {
			memo = map[*Term]int{}
		}
		defer func() { memo[t] = res }()
	}
	switch t.op {
	case OpTrue:
		return 1
	case OpFalse:
		return 0
	case OpAnd:
		r := 1
		for _, a := range t.args {
			switch p.quickM(a, memo) {
			case 0:
				return 0
			case -1:
				r = -1
			}
		}
		return r
	case OpOr:
		r := 0
		for _, a := range t.args {
			switch p.quickM(a, memo) {
			case 1:
				return 1
			case -1:
				r = -1
			}
		}
		return r
	case OpNot:
		if q := p.quickM(t.args[0], memo); q >= 0 {
			return 1 - q
		}
		return -1
	case OpLe0:
		if p.dlEntails(t.args[0]) {
			return 1
		}
		if p.dlEntails(AddC(Neg(t.args[0]), 1)) {
			return 0
		}
	case OpEq0:
		a, b := p.dlEntails(t.args[0]), p.dlEntails(Neg(t.args[0]))
		if a && b {
			return 1
		}
		if p.dlEntails(AddC(t.args[0], 1)) || p.dlEntails(AddC(Neg(t.args[0]), 1)) {
			return 0
		}
		if a && p.known[EqI(t.args[0], zero)] {
			return 1
		}
	case OpIn:
		if b := t.args[0]; b.op == OpSel {
			// same array, provably equal index
			for o, s := range p.sets {
				if o != b && o.op == OpSel && o.args[0] == b.args[0] {
					if s.sub(t.set) || s.and(t.set).empty() {
						if p.quick(EqI(o.args[1], b.args[1])) == 1 {
							if s.sub(t.set) {
								return 1
							}
							return 0
						}
					}
				}
			}
			// range facts
			for _, q := range p.q {
				if q.body.op == OpIn && q.body.args[0].op == OpSel && q.body.args[0].args[0] == b.args[0] {
					if q.body.set.sub(t.set) || q.body.set.and(t.set).empty() {
						c, r, ok := splitKappa(q.body.args[0].args[1])
						if !ok || c != 1 {
							continue
						}
						k := Sub(b.args[1], r)
						if p.quick(And(Le(q.lo, k), Lt(k, q.hi))) == 1 {
							if q.body.set.sub(t.set) {
								return 1
							}
							return 0
						}
					}
				}
			}
		}
	}
	return -1
}

// dlEntails decides t <= 0 by difference bounds.
func (p *PC) dlEntails(t *Term) bool {
	if t.op == OpInt {
		return t.k <= 0
	}
	var from, to *Term
	var w int64
	ok := false
	dlOf(t, func(x, y *Term, ww int64) { from, to, w, ok = x, y, ww, true })
	if !ok {
		return false
	}
	d, neg := p.bounds().from(from)
	if neg {
		return true
	}
	dd, has := d[to]
	return has && dd <= w
}

// ---- solver queries

func collectSels(t *Term, seen map[*Term]bool, out *[]*Term) {
	if seen[t] {
		return
	}
	seen[t] = true
	if t.op == OpSel && !t.kap {
		*out = append(*out, t)
	}
	for _, a := range t.args {
		collectSels(a, seen, out)
	}
}

// kSels returns the (array, offset) pairs of selects in body whose index is κ+offset.
func kSels(body *Term) [][2]*Term {
	var out [][2]*Term
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] || !t.kap {
			return
		}
		seen[t] = true
		if t.op == OpSel {
			if c, r, ok := splitKappa(t.args[1]); ok && c == 1 {
				out = append(out, [2]*Term{t.args[0], r})
			}
		}
		for _, a := range t.args {
			walk(a)
		}
	}
	walk(body)
	return out
}

// allFacts returns the ground facts of the path with the quantified ones instantiated for goal.
func (p *PC) allFacts(goal *Term) []*Term {
	var fs []*Term
	fs = append(fs, p.facts...)
	var bs []*Term
	for b := range p.sets {
		bs = append(bs, b)
	}
	sort.Slice(bs, func(i, j int) bool { return bs[i].id < bs[j].id })
	for _, b := range bs {
		fs = append(fs, In(b, p.sets[b]))
	}
	if len(p.q) == 0 {
		return fs
	}
	done := map[[2]int]bool{}
	seen := map[*Term]bool{}
	var sels []*Term
	collectSels(goal, seen, &sels)
	for _, f := range fs {
		collectSels(f, seen, &sels)
	}
	pats := make([][][2]*Term, len(p.q))
	for i, q := range p.q {
		pats[i] = kSels(q.body)
	}
	next := 0
	for round := 0; round < 3 && next < len(sels); round++ {
		cur := sels[next:]
		next = len(sels)
		for _, s := range cur {
			for i, q := range p.q {
				for _, pt := range pats[i] {
					if rootArr(s.args[0]) != rootArr(pt[0]) {
						continue
					}
					k := Sub(s.args[1], pt[1])
					key := [2]int{i, k.id}
					if done[key] || len(done) > 400 {
						continue
					}
					done[key] = true
					inst := Implies(And(Le(q.lo, k), Lt(k, q.hi)), substKappa(q.body, k))
					fs = append(fs, inst)
					collectSels(inst, seen, &sels)
				}
			}
		}
	}
	return fs
}

func rootArr(a *Term) *Term {
	for a.op == OpStore {
		a = a.args[0]
	}
	return a
}

// relevant keeps the facts connected to the goal through shared variables.
func relevant(fs []*Term, goal *Term) []*Term {
	vars := func(t *Term) map[*Term]bool {
		m := map[*Term]bool{}
		seen := map[*Term]bool{}
		var walk func(t *Term)
		walk = func(t *Term) {
			if seen[t] {
				return
			}
			seen[t] = true
			if t.op == OpVar {
				m[t] = true
			}
			for _, a := range t.args {
				walk(a)
			}
		}
		walk(t)
		return m
	}
	cur := vars(goal)
	used := make([]bool, len(fs))
	fv := make([]map[*Term]bool, len(fs))
	for i, f := range fs {
		fv[i] = vars(f)
	}
	for ch := true; ch; {
		ch = false
		for i := range fs {
			if used[i] {
				continue
			}
			hit := len(fv[i]) == 0
			for v := range fv[i] {
				if cur[v] {
					hit = true
					break
				}
			}
			if hit {
				used[i] = true
				ch = true
				for v := range fv[i] {
					cur[v] = true
				}
			}
		}
	}
	var out []*Term
	for i, f := range fs {
		if used[i] {
			out = append(out, f)
		}
	}
	return out
}

// query builds the solver script for "path entails goal".
func (p *PC) query(goal *Term) string {
	return smtQuery(p.allFacts(goal), goal)
}

// entails decides whether the path entails t, with the solver if needed.
func (p *PC) entails(t *Term) bool {
	if q := p.quick(t); q == 1 {
		return true
	}
	return z3pool.Check(p.query(p.simp(t))) == "unsat"
}

// feasible reports whether t can hold on this path (conservatively true).
func (p *PC) feasible(t *Term) bool {
	switch p.quick(t) {
	case 0:
		return false
	}
	return z3pool.Check(p.query(Not(p.simp(t)))) != "unsat"
}
