package main

// Static facts about a function: its cyclic regions with the blocks that cut their cycles,
// liveness, and which integers are computed with (as opposed to picked from constants).

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

type region struct {
	fn     *ssa.Function
	blocks map[*ssa.BasicBlock]bool
	cuts   map[*ssa.BasicBlock]bool
	subOf  map[*ssa.BasicBlock]*region
	taint  *taintInfo
}

type fnInfo struct {
	fn   *ssa.Function
	top  *region
	live map[*ssa.BasicBlock]map[ssa.Value]bool
}

// sccs returns the non-trivial strongly connected components of the blocks, not following edges into cuts.
func sccs(blocks map[*ssa.BasicBlock]bool, cuts map[*ssa.BasicBlock]bool) [][]*ssa.BasicBlock {
	index := map[*ssa.BasicBlock]int{}
	low := map[*ssa.BasicBlock]int{}
	on := map[*ssa.BasicBlock]bool{}
	var stack []*ssa.BasicBlock
	var out [][]*ssa.BasicBlock
	n := 0
	type fr struct {
		b *ssa.BasicBlock
		i int
	}
	var order []*ssa.BasicBlock
	for b := range blocks {
		order = append(order, b)
	}
	sort.Slice(order, func(i, j int) bool { return order[i].Index < order[j].Index })
	for _, root := range order {
		if _, ok := index[root]; ok {
			continue
		}
		st := []fr{{root, 0}}
		index[root], low[root] = n, n
		n++
		stack = append(stack, root)
		on[root] = true
		for len(st) > 0 {
			f := &st[len(st)-1]
			if f.i < len(f.b.Succs) {
				s := f.b.Succs[f.i]
				f.i++
				if !blocks[s] || cuts[s] {
					continue
				}
				if _, ok := index[s]; !ok {
					index[s], low[s] = n, n
					n++
					stack = append(stack, s)
					on[s] = true
					st = append(st, fr{s, 0})
				} else if on[s] && index[s] < low[f.b] {
					low[f.b] = index[s]
				}
				continue
			}
			b := f.b
			st = st[:len(st)-1]
			if len(st) > 0 {
				p := st[len(st)-1].b
				if low[b] < low[p] {
					low[p] = low[b]
				}
			}
			if low[b] == index[b] {
				var c []*ssa.BasicBlock
				for {
					x := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					on[x] = false
					c = append(c, x)
					if x == b {
						break
					}
				}
				if len(c) > 1 {
					out = append(out, c)
				} else {
					for _, s := range b.Succs {
						if s == b && !cuts[b] {
							out = append(out, c)
							break
						}
					}
				}
			}
		}
	}
	return out
}

func newRegion(fn *ssa.Function, blocks map[*ssa.BasicBlock]bool, cuts map[*ssa.BasicBlock]bool) *region {
	r := &region{fn: fn, blocks: blocks, cuts: cuts, subOf: map[*ssa.BasicBlock]*region{}}
	for _, c := range sccs(blocks, cuts) {
		sub := map[*ssa.BasicBlock]bool{}
		for _, b := range c {
			sub[b] = true
		}
		rg := newRegion(fn, sub, map[*ssa.BasicBlock]bool{chooseCut(sub): true})
		for b := range sub {
			r.subOf[b] = rg
		}
	}
	return r
}

// chooseCut picks the block at which the component's cycles are cut: the only entry if there is one,
// otherwise the block whose removal leaves the fewest blocks on cycles.
func chooseCut(sub map[*ssa.BasicBlock]bool) *ssa.BasicBlock {
	var entries, all []*ssa.BasicBlock
	for b := range sub {
		all = append(all, b)
		for _, p := range b.Preds {
			if !sub[p] {
				entries = append(entries, b)
				break
			}
		}
	}
	if len(entries) == 1 {
		return entries[0]
	}
	sort.Slice(all, func(i, j int) bool { return all[i].Index < all[j].Index })
	var best *ssa.BasicBlock
	bestN := 1 << 30
	for _, b := range all {
		if len(b.Preds) < 2 {
			continue
		}
		n := 0
		for _, c := range sccs(sub, map[*ssa.BasicBlock]bool{b: true}) {
			n += len(c)
		}
		if n < bestN {
			best, bestN = b, n
		}
	}
	if best == nil {
		best = all[0]
	}
	return best
}

func analyseFn(fn *ssa.Function) *fnInfo {
	all := map[*ssa.BasicBlock]bool{}
	for _, b := range fn.Blocks {
		all[b] = true
	}
	return &fnInfo{fn: fn, top: newRegion(fn, all, map[*ssa.BasicBlock]bool{})}
}

// liveIn returns the values live after the phis of the block (its own phis included when used).
func (fi *fnInfo) liveIn(b *ssa.BasicBlock) map[ssa.Value]bool {
	if fi.live == nil {
		fi.computeLive()
	}
	return fi.live[b]
}

func tracked(v ssa.Value) bool {
	switch v.(type) {
	case *ssa.Const, *ssa.Function, *ssa.Global, *ssa.Builtin:
		return false
	}
	return v != nil
}

func (fi *fnInfo) computeLive() {
	fi.live = map[*ssa.BasicBlock]map[ssa.Value]bool{}
	for _, b := range fi.fn.Blocks {
		fi.live[b] = map[ssa.Value]bool{}
	}
	for ch := true; ch; {
		ch = false
		for i := len(fi.fn.Blocks) - 1; i >= 0; i-- {
			b := fi.fn.Blocks[i]
			cur := map[ssa.Value]bool{}
			for _, s := range b.Succs {
				k := -1
				for j, p := range s.Preds {
					if p == b {
						k = j
					}
				}
				for v := range fi.live[s] {
					if ph, ok := v.(*ssa.Phi); ok && ph.Block() == s {
						continue
					}
					cur[v] = true
				}
				for _, in := range s.Instrs {
					ph, ok := in.(*ssa.Phi)
					if !ok {
						break
					}
					if e := ph.Edges[k]; tracked(e) {
						cur[e] = true
					}
				}
			}
			for j := len(b.Instrs) - 1; j >= 0; j-- {
				in := b.Instrs[j]
				if _, ok := in.(*ssa.Phi); ok {
					continue
				}
				if v, ok := in.(ssa.Value); ok {
					delete(cur, v)
				}
				for _, op := range in.Operands(nil) {
					if *op != nil && tracked(*op) {
						cur[*op] = true
					}
				}
			}
			l := fi.live[b]
			for v := range cur {
				if !l[v] {
					l[v] = true
					ch = true
				}
			}
		}
	}
}

// ---- which integers take part in arithmetic

type fieldKey struct {
	typ string
	i   int
}

type taintInfo struct {
	vals   map[ssa.Value]bool
	fields map[fieldKey]bool
	cells  bool // some plain integer cell
	rets   map[*ssa.Function]map[int]bool
	small  map[ssa.Value]bool // counters that are set back to a constant inside the region
	wide   map[ssa.Value]bool // small ones that turned out to take too many values
}

func (x *Exec) taintOf(r *region) *taintInfo {
	if r.taint != nil {
		return r.taint
	}
	t := &taintInfo{vals: map[ssa.Value]bool{}, fields: map[fieldKey]bool{}, rets: map[*ssa.Function]map[int]bool{}}
	var instrs []ssa.Instruction
	seen := map[*ssa.Function]bool{}
	var addFn func(f *ssa.Function)
	addBlock := func(b *ssa.BasicBlock) {
		for _, in := range b.Instrs {
			instrs = append(instrs, in)
			if c, ok := in.(ssa.CallInstruction); ok {
				if f := c.Common().StaticCallee(); f != nil && x.p.hasSource(f) {
					addFn(f)
				}
			}
			if mc, ok := in.(*ssa.MakeClosure); ok {
				addFn(mc.Fn.(*ssa.Function))
			}
		}
	}
	addFn = func(f *ssa.Function) {
		if seen[f] {
			return
		}
		seen[f] = true
		for _, b := range f.Blocks {
			addBlock(b)
		}
	}
	for _, b := range r.fn.Blocks {
		if r.blocks[b] {
			addBlock(b)
		}
	}
	intTyp := func(ty types.Type) bool { return isIntT(ty) || isByteT(ty) }
	is := func(v ssa.Value) bool { return t.vals[v] }
	loadT := func(a ssa.Value) bool {
		switch a := a.(type) {
		case *ssa.FieldAddr:
			st := a.X.Type().Underlying().(*types.Pointer).Elem()
			return t.fields[fieldKey{st.String(), a.Field}]
		case *ssa.Alloc, *ssa.FreeVar:
			return t.vals[a.(ssa.Value)]
		}
		return false
	}
	for ch := true; ch; {
		ch = false
		mark := func(v ssa.Value) {
			if !t.vals[v] {
				t.vals[v] = true
				ch = true
			}
		}
		for _, in := range instrs {
			switch in := in.(type) {
			case *ssa.BinOp:
				if intTyp(in.Type()) {
					mark(in)
				}
			case *ssa.UnOp:
				if in.Op == token.MUL {
					if loadT(in.X) {
						mark(in)
					}
					if _, ok := in.X.(*ssa.IndexAddr); ok {
						mark(in)
					}
				} else if intTyp(in.Type()) {
					mark(in)
				}
			case *ssa.Convert:
				if intTyp(in.Type()) {
					if is(in.X) || !isIntT(in.X.Type()) {
						mark(in)
					}
				}
			case *ssa.ChangeType:
				if is(in.X) {
					mark(in)
				}
			case *ssa.Phi:
				for _, e := range in.Edges {
					if is(e) {
						mark(in)
					}
				}
			case *ssa.Next, *ssa.Lookup, *ssa.Index:
				mark(in.(ssa.Value))
			case *ssa.Extract:
				if c, ok := in.Tuple.(*ssa.Call); ok {
					if f := c.Call.StaticCallee(); f != nil && x.p.hasSource(f) {
						if t.rets[f][in.Index] {
							mark(in)
						}
						continue
					}
					mark(in)
				} else if is(in.Tuple) {
					mark(in)
				}
			case *ssa.Field:
				if st := in.X.Type(); t.fields[fieldKey{st.String(), in.Field}] {
					mark(in)
				}
			case *ssa.Call:
				f := in.Call.StaticCallee()
				if f != nil && x.p.hasSource(f) {
					for i, a := range in.Call.Args {
						if is(a) && i < len(f.Params) {
							mark(f.Params[i])
						}
					}
					if t.rets[f][0] {
						mark(in)
					}
				} else {
					mark(in)
				}
			case *ssa.Return:
				f := in.Parent()
				for i, a := range in.Results {
					if is(a) && !t.rets[f][i] {
						if t.rets[f] == nil {
							t.rets[f] = map[int]bool{}
						}
						t.rets[f][i] = true
						ch = true
					}
				}
			case *ssa.Store:
				if is(in.Val) {
					switch a := in.Addr.(type) {
					case *ssa.FieldAddr:
						st := a.X.Type().Underlying().(*types.Pointer).Elem()
						k := fieldKey{st.String(), a.Field}
						if !t.fields[k] {
							t.fields[k] = true
							ch = true
						}
					case *ssa.Alloc:
						mark(a)
						t.cells = true
					default:
						if v, ok := in.Addr.(ssa.Value); ok {
							mark(v)
						}
						t.cells = true
					}
				}
			case *ssa.MakeClosure:
				f := in.Fn.(*ssa.Function)
				for i, b := range in.Bindings {
					if is(b) {
						mark(f.FreeVars[i])
					}
					if is(f.FreeVars[i]) {
						mark(b)
					}
				}
			}
		}
	}
	t.small, t.wide = smallCounters(r), map[ssa.Value]bool{}
	r.taint = t
	return t
}

// smallCounters finds the integers that only move by constants and are set to a constant inside the region:
// they may well take a few values only, and are then told apart like truth values.
func smallCounters(r *region) map[ssa.Value]bool {
	small := map[ssa.Value]bool{}
	const1 := func(v ssa.Value) bool { _, ok := v.(*ssa.Const); return ok }
	var all []ssa.Value
	for _, b := range r.fn.Blocks {
		if !r.blocks[b] {
			continue
		}
		for _, in := range b.Instrs {
			if p, ok := in.(*ssa.Phi); ok && isIntT(p.Type()) {
				small[p] = true
				all = append(all, p)
			}
			if p, ok := in.(*ssa.BinOp); ok && isIntT(p.Type()) && (p.Op == token.ADD || p.Op == token.SUB) && (const1(p.X) || const1(p.Y)) {
				small[p] = true
				all = append(all, p)
			}
		}
	}
	ok := func(v ssa.Value) bool { return const1(v) || small[v] }
	for ch := true; ch; {
		ch = false
		for _, v := range all {
			good := small[v]
			switch v := v.(type) {
			case *ssa.Phi:
				for i, e := range v.Edges {
					if r.blocks[v.Block().Preds[i]] {
						good = good && ok(e)
					}
				}
			case *ssa.BinOp:
				good = good && ok(v.X) && ok(v.Y)
			}
			if !good && small[v] {
				small[v] = false
				ch = true
			}
		}
	}
	// those connected to a reset
	set := map[ssa.Value]bool{}
	for ch := true; ch; {
		ch = false
		link := func(a, b ssa.Value) {
			if small[a] && small[b] && set[a] != set[b] {
				set[a], set[b] = true, true
				ch = true
			}
		}
		for _, v := range all {
			switch v := v.(type) {
			case *ssa.Phi:
				for i, e := range v.Edges {
					if const1(e) && r.blocks[v.Block().Preds[i]] && small[v] && !set[v] {
						set[v] = true
						ch = true
					}
					link(v, e)
				}
			case *ssa.BinOp:
				link(v, v.X)
				link(v, v.Y)
			}
		}
	}
	return set
}

func (r *region) String() string {
	return fmt.Sprintf("region of %s: %d blocks, cuts %v", r.fn, len(r.blocks), r.cuts)
}
