package main

// Loops: a cyclic region is cut at one block; the states arriving there are generalised into nodes
// (absn.go) until nothing changes, and then every arrival is checked against the nodes.

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strconv"

	"golang.org/x/tools/go/ssa"
)

var debugLoop = os.Getenv("GVC_DEBUG") != ""

type loopEdge struct {
	from, to *node
	inc      []int8 // per hole: 1 strictly up, 0 not down, -1 strictly down, ... see rank
	info     []holeMove
}

type holeMove struct {
	path                 string
	ge, gt, le, lt       bool
	boundedUp, boundedDn bool
}

func (x *Exec) loop(pl Place, reg *region) []Place {
	var res []Place
	sts := x.syncGhost(pl.st)
	for i, st := range sts {
		p := pl
		p.st = st
		if i < len(sts)-1 {
			p.fr = pl.fr.clone()
		}
		res = append(res, x.loop1(p, reg)...)
	}
	return res
}

func (x *Exec) loop1(pl Place, reg *region) []Place {
	x.loops++
	if debugLoop {
		fmt.Fprintf(os.Stderr, "enter loop in %s block %d (%d blocks, %d cuts) ghost %v\n", reg.fn, pl.b.Index, len(reg.blocks), len(reg.cuts), pl.st.ghost != nil && pl.st.ghost.st != nil)
	}
	if outs, ok := x.unroll(pl, reg); ok {
		return outs
	}
	c := &absCtx{x: x, entry: pl.st.clone(), mod: map[ObjID]bool{}, tmpl: map[string]bool{}, what: reg.fn.String()}
	c.taint = x.taintOf(reg)
	c.mark = len(termList)
	c.setup(pl)
	emit := x.emit
	for try := 0; ; try++ {
		if try > 40 {
			panic(unsupported("loop in %s: no stable description", reg.fn))
		}
		res, ok := x.tryLoop(c, pl, reg, emit)
		x.emit = emit
		if ok {
			return res
		}
	}
}

// setup collects the fixed integers, texts and lists known at loop entry.
func (c *absCtx) setup(pl Place) {
	seen := map[*Term]bool{}
	addI := func(t *Term) {
		if t != nil && !t.isConst() && !seen[t] && len(c.invs) < 12 && t.sort == SInt {
			seen[t] = true
			c.invs = append(c.invs, t)
		}
	}
	if g := c.entry.ghost; g != nil {
		addI(g.N)
	}
	seenR := map[string]bool{}
	addR := func(r Rope) {
		if len(r) > 0 && !seenR[r.key()] && len(c.sources) < 8 {
			seenR[r.key()] = true
			c.sources = append(c.sources, r)
			addI(r.length())
		}
	}
	seenL := map[string]bool{}
	addObj := func(id ObjID) {
		o := c.entry.get(id)
		if o == nil {
			return
		}
		switch o.kind {
		case kInts:
			if l, ok := pickList(o); ok && !l.empty() && !seenL[l.key()] {
				seenL[l.key()] = true
				c.lists = append(c.lists, l)
				addI(o.listLen(c.entry))
			}
		case kBytes:
			addR(o.content())
		}
	}
	var names []ssa.Value
	for v := range pl.fr.env {
		names = append(names, v)
	}
	sort.Slice(names, func(i, j int) bool { return names[i].Name() < names[j].Name() })
	for _, v := range names {
		switch t := pl.fr.env[v].(type) {
		case *Term:
			if !t.isConst() && t.sort == SInt {
				addI(t)
			}
		case Rope:
			addR(t)
		case SliceV:
			addI(t.ln)
			if t.obj != 0 {
				addObj(t.obj)
			}
		}
	}
}

func (x *Exec) tryLoop(c *absCtx, pl Place, reg *region, emit bool) (res []Place, ok bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, is := r.(restartAbs); is {
				ok = false
				return
			}
			panic(r)
		}
	}()
	x.emit = false
	c.nodes = map[string]*node{}
	c.order = nil
	c.shapes = map[string]map[string]bool{}
	// entries: run from the entry place to the cut or out of the region
	start := func() []Place {
		p := Place{st: pl.st.clone(), fr: pl.fr.clone(), b: pl.b, prev: pl.prev}
		return x.run([]Place{p}, reg)
	}
	var work []*node
	handle := func(pls []Place) {
		for _, p := range pls {
			if p.done || !reg.cuts[p.b] {
				continue
			}
			for _, a := range x.arrivals(c, p, reg) {
				n := c.nodes[a.key]
				if n == nil {
					n = c.newNode(a, a.sh.tagPlace(p))
					if debugLoop && os.Getenv("GVC_NODES") != "" {
						fmt.Fprintf(os.Stderr, "NODE %d from %d key %s\n%s", n.id, c.cur, a.key, a.sh.st.dump())
					}
					if len(c.order) > 4000 {
						panic(unsupported("loop in %s: too many cases", reg.fn))
					}
					work = append(work, n)
					n.queued = true
					continue
				}
				if c.merge(n, a) && !n.queued {
					work = append(work, n)
					n.queued = true
				}
			}
		}
	}
	c.cur = -1
	handle(start())
	steps := 0
	process := func(n *node) {
		n.queued = false
		n.visits++
		steps++
		c.cur = n.id
		c.heads = n.heads()
		if steps > 60000 {
			panic(unsupported("loop in %s: no stable description", reg.fn))
		}
		handle(x.iterate(c, n, reg, pl.fr))
	}
	for {
		for len(work) > 0 {
			n := work[0]
			work = work[1:]
			process(n)
		}
		// everything must be stable when all nodes are processed once more
		c.cur = -1
		handle(start())
		for i := 0; i < len(c.order); i++ {
			process(c.order[i])
		}
		if len(work) == 0 {
			break
		}
	}
	if debugLoop {
		fmt.Fprintf(os.Stderr, "loop in %s: %d nodes, %d steps\n", reg.fn, len(c.order), steps)
	}
	x.nodes += len(c.order)
	// final pass: obligations and exits
	x.emit = emit
	var edges []loopEdge
	final := func(from *node, g0 *Ghost, vals []*Term, pls []Place) {
		for _, p := range pls {
			if p.done || !reg.cuts[p.b] {
				res = append(res, p)
				continue
			}
			for _, a := range x.arrivals(c, p, reg) {
				n := c.nodes[a.key]
				if n == nil {
					x.fail(a.sh.st, "invariant", "case", p.b.Instrs[0])
					continue
				}
				x.checkArrival(c, n, a, p)
				if from != nil && emit && !advanced(g0, a.sh.st.ghost) {
					edges = append(edges, x.edge(c, from, vals, n, a))
				}
			}
		}
	}
	final(nil, nil, nil, start())
	for _, n := range c.order {
		st, roots, vals := c.instantiate(n)
		final(n, st.ghost, vals, x.enter(n, st, roots, reg, pl.fr))
	}
	if emit {
		x.terminates(c, pl.st, reg, edges)
	}
	return res, true
}

func (s shape) tagPlace(p Place) any { return p.b }

// cutRoots are the values of the region that are live at the cut block.
func (x *Exec) cutRoots(fr *Frame, b *ssa.BasicBlock, reg *region) []ssa.Value {
	var vs []ssa.Value
	for v := range fr.in.liveIn(b) {
		if in, ok := v.(ssa.Instruction); ok && reg.blocks[in.Block()] {
			if _, has := fr.env[v]; has {
				vs = append(vs, v)
			}
		}
	}
	sort.Slice(vs, func(i, j int) bool { return vs[i].Name() < vs[j].Name() })
	return vs
}

func (x *Exec) iterate(c *absCtx, n *node, reg *region, fr0 *Frame) []Place {
	st, roots, _ := c.instantiate(n)
	return x.enter(n, st, roots, reg, fr0)
}

func (x *Exec) enter(n *node, st *State, roots []root, reg *region, fr0 *Frame) []Place {
	fr := fr0.clone()
	for i, r := range roots {
		fr.env[n.proto.roots[i].key.(ssa.Value)] = r.v
	}
	if st.pc.dead {
		return nil
	}
	b := n.tag.(*ssa.BasicBlock)
	k := 0
	for _, in := range b.Instrs {
		if _, ok := in.(*ssa.Phi); !ok {
			break
		}
		k++
	}
	return x.run(x.instrs(Place{st: st, fr: fr, b: b}, k), reg)
}

// arrivals prepares a place at the cut block: phis, ghost steps, decided truth values.
func (x *Exec) arrivals(c *absCtx, p Place, reg *region) []*arrival {
	if p.st.pc.dead {
		return nil
	}
	pp := p
	pp.fr = p.fr.clone()
	x.phis(&pp)
	vs := x.cutRoots(pp.fr, p.b, reg)
	var out []*arrival
	shapeOf := func(st *State) shape {
		sh := shape{st: st}
		for _, v := range vs {
			sh.roots = append(sh.roots, root{name: v.Name(), v: pp.fr.env[v], t: v.Type(), data: c.isData(v, pp.fr.env[v]), key: v})
		}
		return sh
	}
	for _, st := range x.settle(c, pp.st, shapeOf) {
		sh := shape{st: st}
		for _, v := range vs {
			sh.roots = append(sh.roots, root{name: v.Name(), v: pp.fr.env[v], t: v.Type(), data: c.isData(v, pp.fr.env[v]), key: v})
		}
		for _, s2 := range x.decide(c, sh) {
			for _, r := range s2.roots {
				if b, ok := r.v.(*Term); ok && b.sort == SBool {
					c.near = true
				}
			}
			c.normLists(s2)
			out = append(out, c.collect(s2, "b"+strconv.Itoa(p.b.Index)))
		}
	}
	return out
}

// normLists gives the empty lists of integers in reach of the loop an object of their own, so
// that what is known about a list under construction is kept from its start.
func (c *absCtx) normLists(sh shape) {
	if !c.ghostIn {
		return
	}
	st := sh.st
	var walk func(v Val, t types.Type) Val
	walk = func(v Val, t types.Type) Val {
		switch v := v.(type) {
		case SliceV:
			if t == nil || v.byteElem || v.ln != zero || v.cp != zero {
				return v
			}
			sl, ok := t.Underlying().(*types.Slice)
			if !ok || !isIntT(sl.Elem()) {
				return v
			}
			if v.obj != 0 && st.get(v.obj).kind != kCell {
				return v
			}
			o := st.alloc(Obj{kind: kInts, typ: t, listOK: true})
			return SliceV{obj: o.id, off: zero, ln: zero, cp: zero, maybe: v.obj == 0}
		case StructV:
			if t == nil {
				return v
			}
			var n StructV
			for i, e := range v {
				var et types.Type
				switch u := t.Underlying().(type) {
				case *types.Struct:
					et = u.Field(i).Type()
				case *types.Array:
					et = u.Elem()
				}
				switch e.(type) {
				case SliceV, StructV:
				default:
					continue
				}
				if ne := walk(e, et); !sameVal(e, ne) {
					if n == nil {
						n = append(n, v...)
					}
					n[i] = ne
				}
			}
			if n != nil {
				return n
			}
			return v
		}
		return v
	}
	for i, r := range sh.roots {
		sh.roots[i].v = walk(r.v, r.t)
	}
	for _, id := range st.ids() {
		o := st.heap[id]
		if o.kind == kCell && o.typ != nil && (id > c.entry.next || o != c.entry.get(id)) {
			if nv := walk(o.cell, o.typ); !sameVal(o.cell, nv) {
				no := *o
				no.cell = nv
				st.put(&no)
			}
		}
	}
}

func sameVal(a, b Val) bool {
	switch a := a.(type) {
	case SliceV:
		return a == b.(SliceV)
	case StructV:
		q := b.(StructV)
		return len(a) == len(q) && (len(a) == 0 || &a[0] == &q[0])
	}
	return true
}

// settle brings the ghost state up to date, splitting the state where needed, including
// on whether a position examined belongs to a list under construction.
func (x *Exec) settle(c *absCtx, st *State, shapeOf func(*State) shape) []*State {
	var out []*State
	for _, s := range x.syncUpTo(st, c.reach(st, shapeOf)) {
		out = append(out, x.splitMarks(c, s)...)
	}
	return out
}

func (x *Exec) splitMarks(c *absCtx, st *State) []*State {
	g := st.ghost
	if g == nil || g.I == nil || st.pc.dead {
		if st.pc.dead {
			return nil
		}
		return []*State{st}
	}
	for _, id := range st.ids() {
		o := st.heap[id]
		if o.kind != kInts || !o.listOK || (id <= c.entry.next && o == c.entry.get(id)) {
			continue
		}
		for _, l := range o.lists {
			if l.empty() {
				continue
			}
			d := Sub(g.I, l.hi)
			if !d.isConst() || d.k <= 0 || d.k > 16 {
				continue
			}
			for j := int64(0); j < d.k; j++ {
				m := mark(l.arr, l.base, AddC(l.hi, j))
				if st.pc.quick(m) < 0 {
					n := st.clone()
					var out []*State
					if x.assumeCond(st, m) {
						out = append(out, x.splitMarks(c, st)...)
					}
					if x.assumeCond(n, Not(m)) {
						out = append(out, x.splitMarks(c, n)...)
					}
					return out
				}
			}
		}
	}
	return []*State{st}
}

// decide splits the state until all loop-carried truth values are known.
func (x *Exec) decide(c *absCtx, sh shape) []shape {
	var b *Term
	var find func(v Val)
	find = func(v Val) {
		switch v := v.(type) {
		case *Term:
			if v.sort == SBool && !v.isTrue() && !v.isFalse() && b == nil && !c.fixed(v) {
				b = v
			}
		case StructV:
			for _, e := range v {
				find(e)
			}
		case TupleV:
			find(StructV(v))
		case IfaceV:
			find(v.v)
		}
	}
	for _, r := range sh.roots {
		find(r.v)
	}
	for _, id := range sh.st.ids() {
		o := sh.st.heap[id]
		if o.kind == kCell && (id > c.entry.next || o != c.entry.get(id)) {
			find(o.cell)
		}
	}
	if b == nil {
		return []shape{sh}
	}
	var out []shape
	n := sh.st.clone()
	for i, s := range []*State{sh.st, n} {
		cond := b
		if i == 1 {
			cond = Not(b)
		}
		if !x.assumeCond(s, cond) {
			continue
		}
		m := map[*Term]*Term{b: Bool(i == 0)}
		s2 := shape{st: s}
		for _, r := range sh.roots {
			r.v = substVal(r.v, m)
			s2.roots = append(s2.roots, r)
		}
		for _, id := range s.ids() {
			o := s.heap[id]
			if o.kind == kCell && (id > c.entry.next || o != c.entry.get(id)) {
				nv := substVal(o.cell, m)
				no := *o
				no.cell = nv
				s.put(&no)
			}
		}
		out = append(out, x.decide(c, s2)...)
	}
	return out
}

// substVal replaces boolean leaves.
func substVal(v Val, m map[*Term]*Term) Val {
	switch v := v.(type) {
	case *Term:
		if v.sort == SBool {
			return Subst(v, m)
		}
	case StructV:
		n := make(StructV, len(v))
		for i := range v {
			n[i] = substVal(v[i], m)
		}
		return n
	case TupleV:
		return TupleV(substVal(StructV(v), m).(StructV))
	case IfaceV:
		v.v = substVal(v.v, m)
		return v
	}
	return v
}

// isData says that the value is to be generalised, rather than told apart.
func (c *absCtx) isData(v ssa.Value, now Val) bool {
	t := c.taint
	if !t.vals[v] || !t.small[v] || t.wide[v] {
		return t.vals[v]
	}
	if k, ok := now.(*Term); !ok || !k.isConst() || k.k < -4 || k.k > 4 {
		t.wide[v] = true
		panic(restartAbs{})
	}
	c.near = true
	return false
}

// checkArrival emits the obligations that the arrival satisfies what the node claims.
func (x *Exec) checkArrival(c *absCtx, n *node, a *arrival, p Place) {
	var at ssa.Instruction
	if p.b != nil {
		at = p.b.Instrs[len(p.b.Instrs)-1]
	}
	st := a.sh.st
	var eqs []*Term
	for i := range n.holes {
		h := &n.holes[i]
		v := a.w.vals[i]
		if !h.top {
			for _, cd := range h.cands {
				if t := cd.value(a.anc); t != nil {
					eqs = append(eqs, eqTerm(v, t))
				}
			}
			continue
		}
		for _, b := range h.bounds {
			t := b.c.value(a.anc)
			if b.up {
				eqs = append(eqs, Le(v, t))
			} else {
				eqs = append(eqs, Le(t, v))
			}
		}
	}
	for _, e := range n.eqs {
		eqs = append(eqs, e.formula(a.anc))
	}
	x.oblige(st, "invariant", "integers", And(eqs...), at)
	for _, f := range n.ahead {
		g := st.ghost
		x.oblige(st, "invariant", "lookahead", g.aheadFormula(f), at)
	}
	for _, f := range n.near {
		x.oblige(st, "invariant", "bytes just read", f.formula(a.w.vals[f.hole]), at)
	}
	for i := range n.lists {
		o := st.get(a.w.lists[i])
		for _, lc := range n.lists[i].cands {
			x.oblige(st, "invariant", "positions", Bool(c.listMatch(a, o, lc)), at)
		}
		if n.lists[i].upI {
			x.oblige(st, "invariant", "list length", Le(o.listLen(st), a.anc["I"]), at)
		}
	}
	for _, i := range n.unmarkI {
		x.oblige(st, "invariant", "nothing to lower", a.w.texts[i].unmarkedGoal(st), at)
	}
	if n.plain {
		x.oblige(st, "invariant", "nothing to lower", st.plainGoal(), at)
	}
	for i := range n.curs {
		if cu := &n.curs[i]; !cu.dead {
			j := c.cursor(a, cu)
			if j == nil {
				x.oblige(st, "invariant", "cursor", tFalse, at)
			} else {
				x.oblige(st, "invariant", "cursor", And(Le(cu.l.lo, j), Le(j, cu.l.hi)), at)
			}
		}
	}
	for i := range n.tmpls {
		if len(n.tmpls[i].cands) > 0 {
			x.oblige(st, "invariant", "content", Bool(c.tmplMatch(a, n, i, n.tmpls[i].cands[0])), at)
		}
	}
}

// ---- the ghost state

// reach is how far the ghost state may move: not past what the code's own positions have reached, so that
// bytes it merely looked ahead at wait until it gets there.
func (c *absCtx) reach(st *State, shapeOf func(*State) shape) *Term {
	g := st.ghost
	if g == nil || g.st == nil || st.pc.dead {
		return nil
	}
	if _, ok := st.pc.sets[Sel(g.D, AddC(g.I, 1))]; !ok {
		return nil
	}
	a := c.collect(shapeOf(st), "")
	var far *Term
	best := int64(0)
	for _, v := range a.w.vals {
		if v.sort != SInt {
			continue
		}
		if d := Sub(v, g.I); d.isConst() && d.k >= -2 && d.k < 64 && (far == nil || d.k+1 > best) {
			best = d.k + 1
			far = AddC(v, 1)
		}
	}
	if far != nil && best < 0 {
		far = g.I
	}
	return far
}

// syncGhost steps the ghost automaton over every byte the path has examined.
func (x *Exec) syncGhost(st *State) []*State { return x.syncUpTo(st, nil) }

func (x *Exec) syncUpTo(st *State, far *Term) []*State {
	g := st.ghost
	if g == nil || g.st == nil {
		return []*State{st}
	}
	if st.pc.dead {
		return nil
	}
	b := Sel(g.D, g.I)
	set, ok := st.pc.sets[b]
	if far != nil && ok && !set.full() {
		if d := Sub(far, g.I); d.isConst() && d.k <= 0 {
			return []*State{st}
		}
	}
	if !ok || set.full() {
		if st.pc.quick(EqI(g.I, g.N)) == 1 {
			ng := *g
			ng.end, ng.at, ng.st = g.st.eof, g.st, nil
			if ng.end.acc {
				ng.I = g.N
			} else {
				ng.pos, ng.I, ng.regs = g.N, nil, nil
			}
			st.ghost = &ng
		}
		return []*State{st}
	}
	if st.pc.quick(Lt(g.I, g.N)) != 1 {
		return []*State{st}
	}
	var todo []*gSucc
	for i := range g.st.succ {
		if !g.st.succ[i].set.and(set).empty() {
			todo = append(todo, &g.st.succ[i])
		}
	}
	var out []*State
	for i, sc := range todo {
		s := st
		if i < len(todo)-1 {
			s = st.clone()
		}
		if len(todo) > 1 && !s.pc.assume(In(b, sc.set)) {
			continue
		}
		ng := &Ghost{m: g.m, D: g.D, N: g.N}
		if sc.to == nil {
			ng.end = &gEnd{cls: sc.cls}
			ng.pos = g.I
			s.ghost = ng
			out = append(out, s)
			continue
		}
		ng.st = sc.to
		ng.I = AddC(g.I, 1)
		for _, o := range sc.regs {
			if o >= 0 {
				ng.regs = append(ng.regs, g.regs[o])
			} else {
				ng.regs = append(ng.regs, g.I)
			}
		}
		s.ghost = ng
		out = append(out, x.syncUpTo(s, far)...)
	}
	return out
}

// ---- termination

// advanced: the ghost position moved forward, or the outcome became known.
func advanced(g, h *Ghost) bool {
	if g == nil || g.st == nil {
		return false
	}
	if h.st == nil {
		return true
	}
	d := Sub(h.I, g.I)
	return d.isConst() && d.k >= 1
}

func (x *Exec) edge(c *absCtx, from *node, vals []*Term, to *node, a *arrival) loopEdge {
	e := loopEdge{from: from, to: to}
	pos := map[string]int{}
	for i := range to.holes {
		pos[to.holes[i].path] = i
	}
	st := a.sh.st
	for i := range from.holes {
		j, ok := pos[from.holes[i].path]
		if !ok || vals[i].sort != SInt || a.w.vals[j].sort != SInt {
			continue
		}
		d := Sub(a.w.vals[j], vals[i])
		if d == zero {
			e.info = append(e.info, holeMove{path: from.holes[i].path, ge: true, le: true})
			continue
		}
		m := holeMove{path: from.holes[i].path}
		v := a.w.vals[j]
		if c.holds(st, Le(one, d)) {
			m.gt, m.ge = true, true
			for _, t := range c.invs {
				if c.holds(st, Le(v, AddC(t, 1))) {
					m.boundedUp = true
					break
				}
			}
		} else if c.holds(st, Le(zero, d)) {
			m.ge = true
		}
		if !m.ge {
			if c.holds(st, Le(d, Int(-1))) {
				m.lt, m.le = true, true
				if c.holds(st, Le(Int(-2), v)) {
					m.boundedDn = true
				}
			} else if c.holds(st, Le(d, zero)) {
				m.le = true
			}
		}
		e.info = append(e.info, m)
	}
	return e
}

func (x *Exec) terminates(c *absCtx, st *State, reg *region, edges []loopEdge) {
	var at ssa.Instruction
	for b := range reg.cuts {
		at = b.Instrs[len(b.Instrs)-1]
	}
	ok := rankEdges(edges)
	x.oblige(st.clone(), "terminates", "", Bool(ok), at)
}

// rankEdges decides whether the edges admit a ranking: every cycle strictly increases a bounded integer
// that no edge of the cycle's component decreases (or the other way round), recursively.
func rankEdges(edges []loopEdge) bool {
	adj := map[*node][]int{}
	for i, e := range edges {
		adj[e.from] = append(adj[e.from], i)
	}
	comp := map[*node]int{}
	idx, low := map[*node]int{}, map[*node]int{}
	var stack []*node
	n, nc := 0, 0
	var dfs func(v *node)
	dfs = func(v *node) {
		n++
		idx[v], low[v] = n, n
		stack = append(stack, v)
		for _, i := range adj[v] {
			w := edges[i].to
			if idx[w] == 0 {
				dfs(w)
				if low[w] < low[v] {
					low[v] = low[w]
				}
			} else if _, done := comp[w]; !done && idx[w] < low[v] {
				low[v] = idx[w]
			}
		}
		if low[v] == idx[v] {
			for {
				w := stack[len(stack)-1]
				stack = stack[:len(stack)-1]
				comp[w] = nc
				if w == v {
					break
				}
			}
			nc++
		}
	}
	for _, e := range edges {
		if idx[e.from] == 0 {
			dfs(e.from)
		}
	}
	by := map[int][]loopEdge{}
	for _, e := range edges {
		c1, ok1 := comp[e.from]
		c2, ok2 := comp[e.to]
		if ok1 && ok2 && c1 == c2 {
			by[c1] = append(by[c1], e)
		}
	}
	for _, es := range by {
		found := false
		cnt := map[string]int{}
		for _, m := range es[0].info {
			cnt[m.path] = 1
		}
		for p := range cnt {
			for _, up := range []bool{true, false} {
				var rest []loopEdge
				good := true
				for _, e := range es {
					var mv *holeMove
					for i := range e.info {
						if e.info[i].path == p {
							mv = &e.info[i]
						}
					}
					if mv == nil || (up && !mv.ge) || (!up && !mv.le) {
						good = false
						break
					}
					strict := up && mv.gt && mv.boundedUp || !up && mv.lt && mv.boundedDn
					if !strict {
						rest = append(rest, e)
					}
				}
				if good && len(rest) < len(es) && rankEdges(rest) {
					found = true
				}
			}
		}
		if !found {
			return false
		}
	}
	return true
}

// ---- loops that simply run out

// unroll executes the loop as it is when it ends after a few iterations on every path.
func (x *Exec) unroll(pl Place, reg *region) (res []Place, ok bool) {
	if g := pl.st.ghost; g != nil && g.st != nil && x.touchesGhost(pl, reg) {
		return nil, false
	}
	emit := x.emit
	x.emit = false
	_, ok = x.unrollTry(pl, reg)
	x.emit = emit
	if !ok {
		return nil, false
	}
	return x.unrollTry(pl, reg)
}

func (x *Exec) unrollTry(pl Place, reg *region) (res []Place, ok bool) {
	p := Place{st: pl.st.clone(), fr: pl.fr.clone(), b: pl.b, prev: pl.prev}
	type item struct {
		p Place
		d int
	}
	work := []item{}
	for _, q := range x.run([]Place{p}, reg) {
		work = append(work, item{q, 0})
	}
	n := 0
	terms := len(termList)
	for len(work) > 0 {
		if len(termList)-terms > 20000 {
			return nil, false
		}
		it := work[len(work)-1]
		work = work[:len(work)-1]
		if it.p.done || !reg.cuts[it.p.b] {
			res = append(res, it.p)
			continue
		}
		if it.p.st.pc.dead {
			continue
		}
		n++
		if n > 80 || it.d > 24 {
			return nil, false
		}
		for _, q := range x.run(x.block(it.p), reg) {
			work = append(work, item{q, it.d + 1})
		}
	}
	return res, true
}

// touchesGhost: the loop's function reads the text the ghost state follows.
func (x *Exec) touchesGhost(pl Place, reg *region) bool {
	for b := range reg.blocks {
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.IndexAddr:
				if isByteSeq(in.X.Type()) {
					return true
				}
			case *ssa.Lookup:
				if isStringT(in.X.Type()) {
					return true
				}
			}
		}
	}
	return false
}

func isByteSeq(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return isByteT(u.Elem())
	case *types.Pointer:
		if a, ok := u.Elem().Underlying().(*types.Array); ok {
			return isByteT(a.Elem())
		}
	}
	return isStringT(t)
}
