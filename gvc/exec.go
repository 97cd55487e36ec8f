package main

// Symbolic execution of SSA functions. Paths fork at branches; repeated blocks are handled by
// loop.go; calls into the repository are executed in the callee's own body or replaced by the
// callee's verified contract; calls out of it use the models in models.go.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Oblig struct {
	Name     string
	Kind     string
	Fn       string
	Label    string
	Count    int
	Simple   int // discharged by byte sets and difference bounds
	Solver   int // discharged by the solver
	Failed   int
	Cross    int // confirmed by the second solver
	Detail   string
	Query    string
	Mode     string
	priority int
}

type Exec struct {
	kept      map[*ssa.Function]*keptInfo
	reused    map[int]bool // fields with a buffer the machine keeps between calls and writes again
	p         *Prog
	specs     map[string]*ModeSpec
	obl       map[string]*Oblig
	order     []string
	emit      bool
	depth     int
	fns       map[string]bool // functions executed
	contracts map[*ssa.Function]func(x *Exec, st *State, args []Val, call ssa.Instruction) []Out
	infos     map[*ssa.Function]*fnInfo
	globals   map[*ssa.Global]ObjID
	gstate    *State // state after package initialisation
	label     string // what is being verified
	paths     int
	steps     int64
	models    map[string]bool
	notes     []string
	loops     int
	nodes     int
	cvc5      bool
	deadline  time.Time
	failedAt  time.Time
	loopLimit int
	curFn     []string
	sums      map[string]*summary
	returns   map[string]int
	written   map[*ssa.Function]map[int]bool
	inits     int
}

type Out struct {
	st  *State
	ret []Val
}

type Frame struct {
	fn  *ssa.Function
	env map[ssa.Value]Val
	in  *fnInfo
}

func (f *Frame) clone() *Frame {
	n := &Frame{fn: f.fn, in: f.in, env: make(map[ssa.Value]Val, len(f.env)+8)}
	for k, v := range f.env {
		n.env[k] = v
	}
	return n
}

// pos is a place in execution: about to enter block b coming from prev.
type Place struct {
	st   *State
	fr   *Frame
	b    *ssa.BasicBlock
	prev *ssa.BasicBlock
	ret  []Val
	done bool // returned
}

// oblige records the obligation that c holds on the path, and goes on assuming it.
func (x *Exec) oblige(st *State, kind, label string, c *Term, at ssa.Instruction) bool {
	if st.pc.dead {
		return true
	}
	fn := ""
	pos := ""
	if at != nil && at.Parent() != nil {
		fn = at.Parent().RelString(nil)
		if p := at.Pos(); p.IsValid() {
			pos = fmt.Sprint(x.p.fset.Position(p).Line)
		}
	}
	q := st.pc.quick(c)
	if !x.emit {
		if q == 0 && kind != "frame" && kind != "ensures" {
			st.pc.dead = true
			return false
		}
		st.pc.assume(c)
		return !st.pc.dead
	}
	name := x.label + "/" + fn + ":" + kind
	if label != "" {
		name += ":" + label
	}
	if kind != "ensures" && pos != "" {
		name += "@" + pos
	}
	o := x.obl[name]
	if o == nil {
		o = &Oblig{Name: name, Kind: kind, Fn: fn, Label: label}
		x.obl[name] = o
		x.order = append(x.order, name)
	}
	o.Count++
	if q == 1 {
		o.Simple++
		st.pc.assume(c)
		return !st.pc.dead
	}
	x.checkTime()
	if o.Failed >= 3 {
		o.Failed++
		st.pc.assume(c)
		return !st.pc.dead
	}
	query := st.pc.query(st.pc.simp(c))
	r := z3pool.Check(query)
	if r == "unsat" {
		o.Solver++
		if x.cvc5 {
			x.crossq(o, query)
		}
		st.pc.assume(c)
		return !st.pc.dead
	}
	o.Failed++
	if o.Detail == "" {
		o.Detail = fmt.Sprintf("solver: %s\ngoal: %v\npath: %s\n%s", r, st.pc.simp(c), strings.Join(st.trace, " "), st.dump())
		o.Query = query
	}
	st.pc.assume(c)
	return !st.pc.dead
}

// checkTime gives up when the time is over, and soon after an obligation has failed.
func (x *Exec) checkTime() {
	if x.deadline.IsZero() {
		return
	}
	if x.failedAt.IsZero() {
		for _, o := range x.obl {
			if o.Failed > 0 {
				x.failedAt = time.Now()
			}
		}
	}
	now := time.Now()
	if now.After(x.deadline) {
		panic(stopErr("not verified within the time limit"))
	}
	if !x.failedAt.IsZero() && now.After(x.failedAt.Add(40*time.Second)) {
		panic(stopErr("stopped after a failed obligation"))
	}
}

func (x *Exec) fail(st *State, kind, label string, at ssa.Instruction) {
	x.oblige(st, kind, label, tFalse, at)
	st.pc.dead = true
}

// ---- running a function

func (x *Exec) info(fn *ssa.Function) *fnInfo {
	if i, ok := x.infos[fn]; ok {
		return i
	}
	i := analyseFn(fn)
	x.infos[fn] = i
	return i
}

const maxDepth = 60

func (x *Exec) call(st *State, fn *ssa.Function, args []Val, free []Val, at ssa.Instruction) []Out {
	if fn.Blocks == nil {
		panic(unsupported("function %s has no body", fn))
	}
	if x.depth > maxDepth {
		panic(unsupported("recursion through %s", fn))
	}
	x.depth++
	x.curFn = append(x.curFn, fn.RelString(nil))
	defer func() { x.depth--; x.curFn = x.curFn[:len(x.curFn)-1] }()
	x.fns[fn.RelString(nil)] = true
	fr := &Frame{fn: fn, env: map[ssa.Value]Val{}, in: x.info(fn)}
	for i, p := range fn.Params {
		fr.env[p] = args[i]
	}
	for i, f := range fn.FreeVars {
		fr.env[f] = free[i]
	}
	var outs []Out
	for _, pl := range x.run([]Place{{st: st, fr: fr, b: fn.Blocks[0]}}, fr.in.top) {
		if pl.done {
			outs = append(outs, Out{pl.st, pl.ret})
		} else {
			panic(unsupported("control flow of %s", fn))
		}
	}
	return outs
}

// run executes from the places until return or until a block outside the region's acyclic part is reached:
// blocks of a nested cyclic region are handed to loop; cut blocks of the region itself stop the path.
func (x *Exec) run(work []Place, reg *region) []Place {
	var out []Place
	for len(work) > 0 {
		pl := work[len(work)-1]
		work = work[:len(work)-1]
		if pl.done {
			out = append(out, pl)
			continue
		}
		if pl.st.pc.dead {
			continue
		}
		if reg.cuts[pl.b] || !reg.blocks[pl.b] {
			out = append(out, pl)
			continue
		}
		if sub := reg.subOf[pl.b]; sub != nil {
			work = append(work, x.loop(pl, sub)...)
			continue
		}
		work = append(work, x.block(pl)...)
	}
	return out
}

func (x *Exec) phis(pl *Place) int {
	// evaluate phis in parallel
	n := 0
	var vals []Val
	for _, in := range pl.b.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		n++
		var e ssa.Value
		for i, p := range pl.b.Preds {
			if p == pl.prev {
				e = ph.Edges[i]
				break
			}
		}
		vals = append(vals, x.val(pl.st, pl.fr, e))
	}
	for i := 0; i < n; i++ {
		pl.fr.env[pl.b.Instrs[i].(*ssa.Phi)] = vals[i]
	}
	return n
}

// block executes one basic block.
func (x *Exec) block(pl Place) []Place {
	n := 0
	if pl.prev != nil || pl.b.Index == 0 {
		n = x.phis(&pl)
	} else {
		for _, in := range pl.b.Instrs {
			if _, ok := in.(*ssa.Phi); !ok {
				break
			}
			n++
		}
	}
	return x.instrs(pl, n)
}

func (x *Exec) instrs(pl Place, i int) []Place {
	st, fr := pl.st, pl.fr
	for ; i < len(pl.b.Instrs); i++ {
		x.steps++
		if x.steps&1023 == 0 {
			x.checkTime()
		}
		if x.steps > 40_000_000 {
			panic(unsupported("symbolic execution too long"))
		}
		if st.pc.dead {
			return nil
		}
		switch in := pl.b.Instrs[i].(type) {
		case *ssa.If:
			return x.branch(pl, in)
		case *ssa.Jump:
			return []Place{{st: st, fr: fr, b: pl.b.Succs[0], prev: pl.b}}
		case *ssa.Return:
			var ret []Val
			for _, r := range in.Results {
				ret = append(ret, x.val(st, fr, r))
			}
			return []Place{{st: st, fr: fr, ret: ret, done: true}}
		case *ssa.Panic:
			x.fail(st, "nopanic", "", in)
			return nil
		case *ssa.Call:
			outs := x.callInstr(st, fr, in)
			if len(outs) == 1 && outs[0].st == st {
				x.setCall(fr, in, outs[0].ret)
				continue
			}
			var res []Place
			for k, o := range outs {
				if o.st.pc.dead {
					continue
				}
				f := fr
				if k < len(outs)-1 {
					f = fr.clone()
				}
				x.setCall(f, in, o.ret)
				res = append(res, x.instrs(Place{st: o.st, fr: f, b: pl.b, prev: pl.prev}, i+1)...)
			}
			return res
		default:
			outs := x.alternatives(st, fr, in)
			if outs == nil {
				x.instr(st, fr, in)
				continue
			}
			var res []Place
			for _, o := range outs {
				if o.st.pc.dead {
					continue
				}
				f := fr.clone()
				if v, ok := in.(ssa.Value); ok && len(o.ret) > 0 {
					f.env[v] = o.ret[0]
				}
				res = append(res, x.instrs(Place{st: o.st, fr: f, b: pl.b, prev: pl.prev}, i+1)...)
			}
			return res
		}
	}
	panic("block without terminator")
}

func (x *Exec) setCall(fr *Frame, in *ssa.Call, ret []Val) {
	if t, ok := in.Type().(*types.Tuple); ok {
		_ = t
		fr.env[in] = TupleV(ret)
	} else if len(ret) > 0 {
		fr.env[in] = ret[0]
	}
}

func (x *Exec) branch(pl Place, in *ssa.If) []Place {
	c := x.val(pl.st, pl.fr, in.Cond).(*Term)
	c = pl.st.pc.simp(c)
	if q := pl.st.pc.quick(c); q >= 0 {
		c = Bool(q == 1)
	}
	t, f := pl.b.Succs[0], pl.b.Succs[1]
	if c.isTrue() {
		return []Place{{st: pl.st, fr: pl.fr, b: t, prev: pl.b}}
	}
	if c.isFalse() {
		return []Place{{st: pl.st, fr: pl.fr, b: f, prev: pl.b}}
	}
	x.paths++
	var res []Place
	st2, fr2 := pl.st.clone(), pl.fr.clone()
	if x.assumeCond(pl.st, c) {
		res = append(res, Place{st: pl.st, fr: pl.fr, b: t, prev: pl.b})
	}
	if x.assumeCond(st2, Not(c)) {
		res = append(res, Place{st: st2, fr: fr2, b: f, prev: pl.b})
	}
	return res
}

// assumeCond assumes a branch condition, with what it says about lists being walked through.
func (x *Exec) assumeCond(st *State, c *Term) bool {
	if !st.pc.assume(c) {
		return false
	}
	x.listFacts(st)
	emptyLists(st, c)
	return !st.pc.dead
}

// fork splits the state on a condition: f runs for both sides that are possible.
func (x *Exec) fork(st *State, c *Term) (yes, no *State) {
	c = st.pc.simp(c)
	switch st.pc.quick(c) {
	case 1:
		return st, nil
	case 0:
		return nil, st
	}
	n := st.clone()
	if x.assumeCond(st, c) {
		yes = st
	}
	if x.assumeCond(n, Not(c)) {
		no = n
	}
	return
}

// ---- values of operands

func (x *Exec) val(st *State, fr *Frame, v ssa.Value) Val {
	switch c := v.(type) {
	case *ssa.Const:
		return constVal(c)
	case *ssa.Function:
		return &FuncV{fn: c}
	case *ssa.Global:
		return Ptr{obj: x.global(c)}
	case *ssa.Builtin:
		return nil
	}
	r, ok := fr.env[v]
	if !ok {
		panic(fmt.Sprintf("no value for %s = %s in %s", v.Name(), v, fr.fn))
	}
	return r
}

func constVal(c *ssa.Const) Val {
	if c.Value == nil {
		return zeroVal(c.Type())
	}
	switch u := c.Type().Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return Bool(constant.BoolVal(c.Value))
		case u.Kind() == types.Uint8:
			return Byte(byte(c.Int64()))
		case u.Info()&types.IsInteger != 0:
			if u.Info()&types.IsUnsigned != 0 && c.Uint64() > 1<<62 {
				panic(unsupported("constant %v", c))
			}
			return Int(c.Int64())
		case u.Info()&types.IsString != 0:
			return Lit(constant.StringVal(c.Value))
		}
	}
	panic(unsupported("constant %v", c))
}

func (x *Exec) global(g *ssa.Global) ObjID {
	if id, ok := x.globals[g]; ok {
		return id
	}
	id := ObjID(-1 - len(x.globals))
	x.globals[g] = id
	et := g.Type().(*types.Pointer).Elem()
	o := &Obj{id: id, typ: et, what: "package variable " + g.Name()}
	if g.Pkg != nil && x.p.repo[g.Pkg.Pkg.Path()] {
		o.cell = zeroVal(et)
	} else {
		o.cell = nil // unknown
	}
	x.gstate.base[id] = o
	return id
}

func intRange(t types.Type) (lo, hi *Term, ok bool) {
	b, isB := t.Underlying().(*types.Basic)
	if !isB {
		return nil, nil, false
	}
	p := func(n uint) *Term { return addScaled(Int(int64(1)<<(n-1)), Int(int64(1)<<(n-1)), 1) }
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt:
		// kept well inside 64 bits so that the term constants themselves cannot overflow
		return Int(-(1 << 62)), Int(1 << 62), true
	case types.Int32, types.UntypedRune:
		return Int(-(1 << 31)), Int(1<<31 - 1), true
	case types.Int16:
		return Int(-(1 << 15)), Int(1<<15 - 1), true
	case types.Int8:
		return Int(-128), Int(127), true
	case types.Uint, types.Uint64, types.Uintptr:
		return zero, Int(1 << 62), true
	case types.Uint32:
		return zero, AddC(p(32), -1), true
	case types.Uint16:
		return zero, Int(1<<16 - 1), true
	}
	return nil, nil, false
}

func (x *Exec) checkRange(st *State, r *Term, t types.Type, at ssa.Instruction) {
	if r.isConst() {
		if lo, hi, ok := intRange(t); ok && r.k >= lo.k && r.k <= hi.k {
			return
		}
	}
	if lo, hi, ok := intRange(t); ok {
		x.oblige(st, "nooverflow", "", And(Le(lo, r), Le(r, hi)), at)
	}
}

func (x *Exec) instr(st *State, fr *Frame, in ssa.Instruction) {
	set := func(v ssa.Value, r Val) { fr.env[v] = r }
	switch in := in.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		et := in.Type().(*types.Pointer).Elem()
		o := st.alloc(Obj{typ: et, cell: zeroVal(et)})
		set(in, Ptr{obj: o.id})
	case *ssa.Store:
		x.store(st, x.val(st, fr, in.Addr), x.val(st, fr, in.Val), in)
	case *ssa.UnOp:
		v := x.val(st, fr, in.X)
		switch in.Op {
		case token.MUL:
			set(in, x.load(st, v, in.Type(), in))
		case token.NOT:
			set(in, Not(v.(*Term)))
		case token.SUB:
			t := v.(*Term)
			if t.sort == SByte {
				set(in, BFnF(t, func(b byte) byte { return -b }))
			} else {
				r := Neg(t)
				x.checkRange(st, r, in.Type(), in)
				set(in, r)
			}
		case token.XOR:
			t := v.(*Term)
			if t.sort == SByte {
				set(in, BFnF(t, func(b byte) byte { return ^b }))
			} else {
				set(in, AddC(Neg(t), -1))
			}
		default:
			panic(unsupported("operation %s", in))
		}
	case *ssa.BinOp:
		set(in, x.binop(st, in, x.val(st, fr, in.X), x.val(st, fr, in.Y)))
	case *ssa.ChangeType:
		set(in, x.val(st, fr, in.X))
	case *ssa.ChangeInterface:
		set(in, x.val(st, fr, in.X))
	case *ssa.MakeInterface:
		set(in, IfaceV{t: in.X.Type(), v: x.val(st, fr, in.X)})
	case *ssa.Convert:
		set(in, x.convert(st, x.val(st, fr, in.X), in.X.Type(), in.Type(), in))
	case *ssa.Extract:
		set(in, x.val(st, fr, in.Tuple).(TupleV)[in.Index])
	case *ssa.Field:
		set(in, x.val(st, fr, in.X).(StructV)[in.Field])
	case *ssa.FieldAddr:
		p := x.val(st, fr, in.X).(Ptr)
		x.oblige(st, "nonnil", "", Bool(p.obj != 0), in)
		if p.obj == 0 {
			st.pc.dead = true
			return
		}
		if p.idx != nil {
			panic(unsupported("field of an element with a symbolic index"))
		}
		set(in, Ptr{obj: p.obj, path: p.path + string(rune(in.Field))})
	case *ssa.IndexAddr:
		set(in, x.indexAddr(st, x.val(st, fr, in.X), x.val(st, fr, in.Index).(*Term), in))
	case *ssa.Index:
		set(in, x.index(st, x.val(st, fr, in.X), x.val(st, fr, in.Index).(*Term), in))
	case *ssa.Lookup:
		set(in, x.lookup(st, x.val(st, fr, in.X), x.val(st, fr, in.Index), in))
	case *ssa.Slice:
		set(in, x.slice(st, fr, in))
	case *ssa.MakeSlice:
		set(in, x.makeSlice(st, in, x.val(st, fr, in.Len).(*Term), x.val(st, fr, in.Cap).(*Term)))
	case *ssa.MakeClosure:
		var bs []Val
		for _, b := range in.Bindings {
			bs = append(bs, x.val(st, fr, b))
		}
		set(in, &FuncV{fn: in.Fn.(*ssa.Function), binds: bs})
	case *ssa.TypeAssert:
		x.typeAssert(st, fr, in)
	case *ssa.RunDefers:
	case *ssa.MakeMap:
		o := st.alloc(Obj{kind: kMap, typ: in.Type()})
		set(in, Ptr{obj: o.id})
	case *ssa.Range:
		v := x.val(st, fr, in.X)
		if m, ok := v.(Ptr); ok { // a map: what is left of it
			var left StructV
			if m.obj != 0 {
				left = append(left, st.get(m.obj).keys...)
			}
			o := st.alloc(Obj{kind: kIter, cell: StructV{m, left}})
			set(in, Ptr{obj: o.id})
			return
		}
		r, ok := v.(Rope)
		if !ok {
			panic(unsupported("range over %v", in.X.Type()))
		}
		o := st.alloc(Obj{kind: kIter, cell: StructV{r, zero}})
		set(in, Ptr{obj: o.id})
	case *ssa.Next:
		x.next(st, fr, in)
	default:
		panic(unsupported("instruction %T in %s", in, fr.fn))
	}
}

// maxSplit is the number of elements up to which a symbolic index or key is resolved by cases.
const maxSplit = 40

// alternatives executes the instructions that need a case distinction; nil: in is not one of them.
func (x *Exec) alternatives(st *State, fr *Frame, in ssa.Instruction) []Out {
	// pick explores each condition (and, with rest, none of them)
	pick := func(n int, cond func(st *State, i int) *Term, then func(st *State, i int) []Val, rest func(st *State) []Val) []Out {
		outs := []Out{}
		for i := 0; i < n; i++ {
			c := cond(st, i)
			if c.isFalse() {
				continue
			}
			if c.isTrue() {
				return append(outs, Out{st, then(st, i)})
			}
			s := st.clone()
			if x.assumeCond(s, c) {
				outs = append(outs, Out{s, then(s, i)})
			}
			if !x.assumeCond(st, Not(c)) {
				return outs
			}
		}
		if rest != nil {
			return append(outs, Out{st, rest(st)})
		}
		return outs
	}
	index := func(s StructV, i *Term, n ssa.Instruction, val func(k int) Val) []Out {
		if len(s) == 0 || i.isConst() {
			return nil
		}
		if _, ok := s[0].(*Term); ok {
			return nil
		}
		if len(s) > maxSplit {
			panic(unsupported("symbolic index into %d elements", len(s)))
		}
		if i.sort == SByte {
			i = B2I(i)
		}
		if !x.oblige(st, "index", "", And(Le(zero, i), Lt(i, Int(int64(len(s))))), n) {
			return nil
		}
		x.assumeCond(st, And(Le(zero, i), Lt(i, Int(int64(len(s))))))
		return pick(len(s), func(_ *State, k int) *Term { return EqI(i, Int(int64(k))) },
			func(_ *State, k int) []Val { return []Val{val(k)} }, nil)
	}
	switch in := in.(type) {
	case *ssa.Index:
		if s, ok := x.val(st, fr, in.X).(StructV); ok {
			return index(s, x.val(st, fr, in.Index).(*Term), in, func(k int) Val { return s[k] })
		}
	case *ssa.IndexAddr:
		i := x.val(st, fr, in.Index).(*Term)
		switch v := x.val(st, fr, in.X).(type) {
		case Ptr:
			if v.obj == 0 || v.idx != nil || st.get(v.obj).kind != kCell {
				return nil
			}
			if s, ok := getPath(st.get(v.obj).cell, v.path).(StructV); ok {
				return index(s, i, in, func(k int) Val { return Ptr{obj: v.obj, path: v.path + string(rune(k))} })
			}
		case SliceV:
			if v.obj == 0 || st.get(v.obj).kind != kCell || !v.off.isConst() || !v.ln.isConst() {
				return nil
			}
			if s, ok := st.get(v.obj).cell.(StructV); ok && v.off.k+v.ln.k <= int64(len(s)) {
				return index(s[v.off.k:v.off.k+v.ln.k], i, in, func(k int) Val {
					return Ptr{obj: v.obj, path: string(rune(v.off.k + int64(k)))}
				})
			}
		}
	case *ssa.Lookup:
		m, ok := x.val(st, fr, in.X).(Ptr)
		if !ok {
			return nil
		}
		k := x.val(st, fr, in.Index)
		res := func(v Val, found bool) []Val {
			if in.CommaOk {
				return []Val{TupleV{v, Bool(found)}}
			}
			return []Val{v}
		}
		et := in.X.Type().Underlying().(*types.Map).Elem()
		if m.obj == 0 {
			return []Out{{st, res(zeroVal(et), false)}}
		}
		o := st.get(m.obj)
		if len(o.keys) > maxSplit {
			panic(unsupported("lookup in a map of %d keys", len(o.keys)))
		}
		return pick(len(o.keys), func(s *State, i int) *Term { return x.equal(s, k, o.keys[i], in) },
			func(_ *State, i int) []Val { return res(o.vals[i], true) },
			func(*State) []Val { return res(zeroVal(et), false) })
	case *ssa.MapUpdate:
		m := x.val(st, fr, in.Map).(Ptr)
		x.oblige(st, "nonnil", "", Bool(m.obj != 0), in)
		if m.obj == 0 {
			st.pc.dead = true
			return []Out{}
		}
		k, v := x.val(st, fr, in.Key), x.val(st, fr, in.Value)
		o := st.get(m.obj)
		x.frame(st, o, in)
		if len(o.keys) > 4*maxSplit {
			panic(unsupported("map of %d keys", len(o.keys)))
		}
		return pick(len(o.keys), func(s *State, i int) *Term { return x.equal(s, k, o.keys[i], in) },
			func(s *State, i int) []Val {
				n := *s.get(m.obj)
				n.vals = append([]Val{}, n.vals...)
				n.vals[i] = v
				s.put(&n)
				return nil
			},
			func(s *State) []Val {
				n := *s.get(m.obj)
				n.keys = append(append([]Val{}, n.keys...), k)
				n.vals = append(append([]Val{}, n.vals...), v)
				s.put(&n)
				return nil
			})
	case *ssa.Next:
		if in.IsString {
			return nil
		}
		p := x.val(st, fr, in.Iter).(Ptr)
		it := st.get(p.obj).cell.(StructV)
		m, left := it[0].(Ptr), it[1].(StructV)
		mt := in.Iter.(*ssa.Range).X.Type().Underlying().(*types.Map)
		if len(left) == 0 {
			return []Out{{st, []Val{TupleV{tFalse, zeroVal(mt.Key()), zeroVal(mt.Elem())}}}}
		}
		if len(left) > 4 {
			panic(unsupported("range over a map of more than 4 keys"))
		}
		o := st.get(m.obj)
		if len(o.keys) < len(left) {
			panic(unsupported("range over a map that changes"))
		}
		outs := []Out{}
		for i, k := range left { // in any order
			v, n := Val(nil), 0
			for j := range o.keys {
				if x.equal(st, k, o.keys[j], in).isTrue() {
					v, n = o.vals[j], n+1
				}
			}
			if n != 1 {
				panic(unsupported("range over a map that changes"))
			}
			s := st.clone()
			c := *s.get(p.obj)
			c.cell = StructV{m, append(append(StructV{}, left[:i]...), left[i+1:]...)}
			s.put(&c)
			outs = append(outs, Out{s, []Val{TupleV{tTrue, k, v}}})
		}
		return outs
	}
	return nil
}

// next advances a range over a string; every byte must be ASCII.
func (x *Exec) next(st *State, fr *Frame, in *ssa.Next) {
	p := x.val(st, fr, in.Iter).(Ptr)
	o := *st.get(p.obj)
	s := o.cell.(StructV)
	r, i := s[0].(Rope), s[1].(*Term)
	more := Lt(i, r.length())
	c := r.char(i)
	x.oblige(st, "ascii", "range over a string", Implies(more, In(c, setRange(0, 127))), in)
	o.cell = StructV{r, Ite(more, AddC(i, 1), i)}
	if q := st.pc.quick(more); q == 1 {
		o.cell = StructV{r, AddC(i, 1)}
	} else if q == 0 {
		o.cell = StructV{r, i}
	}
	st.put(&o)
	fr.env[in] = TupleV{more, i, B2I(c)}
}

func (x *Exec) binop(st *State, in *ssa.BinOp, a, b Val) Val {
	switch in.Op {
	case token.EQL:
		return x.equal(st, a, b, in)
	case token.NEQ:
		return Not(x.equal(st, a, b, in))
	}
	if r, ok := a.(Rope); ok {
		switch in.Op {
		case token.ADD:
			return concatR(r, b.(Rope))
		}
		if s, ok := r.isLit(); ok {
			if t, ok := b.(Rope).isLit(); ok {
				switch in.Op {
				case token.LSS:
					return Bool(s < t)
				case token.LEQ:
					return Bool(s <= t)
				case token.GTR:
					return Bool(s > t)
				case token.GEQ:
					return Bool(s >= t)
				}
			}
		}
		k := in.Op.String() + r.key() + "|" + b.(Rope).key()
		return EqI(Var("strcmp:"+k, SInt), zero)
	}
	p, q := a.(*Term), b.(*Term)
	if p.sort == SByte {
		switch in.Op {
		case token.LSS, token.LEQ, token.GTR, token.GEQ:
			p, q = B2I(p), B2I(q)
		case token.SHL, token.SHR:
			if q.sort == SInt {
				if !q.isConst() {
					panic(unsupported("shift by %v", q))
				}
				k := q.k
				return BFnF(p, func(b byte) byte {
					if in.Op == token.SHL {
						return b << uint(k)
					}
					return b >> uint(k)
				})
			}
			return BBin(in.Op.String(), p, q)
		default:
			if in.Op == token.QUO || in.Op == token.REM {
				x.oblige(st, "nonzero", "divisor", Not(EqB(q, Byte(0))), in)
			}
			return BBin(in.Op.String(), p, q)
		}
	}
	switch in.Op {
	case token.LSS:
		return Lt(p, q)
	case token.LEQ:
		return Le(p, q)
	case token.GTR:
		return Lt(q, p)
	case token.GEQ:
		return Le(q, p)
	}
	if p.sort == SBool {
		switch in.Op {
		case token.AND, token.LAND:
			return And(p, q)
		case token.OR, token.LOR:
			return Or(p, q)
		}
	}
	if q.sort == SByte {
		q = B2I(q)
	}
	var r *Term
	switch in.Op {
	case token.ADD:
		r = Add(p, q)
	case token.SUB:
		r = Sub(p, q)
	case token.MUL:
		r = Mul(p, q)
	case token.QUO, token.REM:
		x.oblige(st, "nonzero", "divisor", Not(EqI(q, zero)), in)
		x.oblige(st, "nonnegative", "division", And(Le(zero, p), Lt(zero, q)), in)
		if in.Op == token.QUO {
			r = Div(p, q)
		} else {
			r = Mod(p, q)
		}
		if !r.isConst() {
			st.pc.assume(Le(zero, r))
			if in.Op == token.REM {
				st.pc.assume(Lt(r, q))
			} else {
				st.pc.assume(Le(r, p))
			}
		}
	case token.AND, token.OR, token.XOR, token.AND_NOT, token.SHL, token.SHR:
		r = x.bitop(st, in, p, q)
	default:
		panic(unsupported("operation %s", in))
	}
	x.checkRange(st, r, in.Type(), in)
	return r
}

// bitop on integers: on constants, and on a single byte widened to an integer.
func (x *Exec) bitop(st *State, in *ssa.BinOp, p, q *Term) *Term {
	f := func(a, b int64) int64 {
		switch in.Op {
		case token.AND:
			return a & b
		case token.OR:
			return a | b
		case token.XOR:
			return a ^ b
		case token.AND_NOT:
			return a &^ b
		case token.SHL:
			return a << uint(b)
		}
		return a >> uint(b)
	}
	if p.isConst() && q.isConst() {
		return Int(f(p.k, q.k))
	}
	byteVal := func(t, k *Term, swap bool) *Term {
		var base *Term
		var c, d int64
		switch {
		case t.op == OpB2I:
			base, c = t.args[0], 1
		case t.op == OpLin && len(t.args) == 1 && t.args[0].op == OpB2I:
			base, c, d = t.args[0].args[0], t.coef[0], t.k
		default:
			return nil
		}
		var tab [256]byte
		for i := 0; i < 256; i++ {
			v := c*int64(i) + d
			var r int64
			if swap {
				r = f(k.k, v)
			} else {
				r = f(v, k.k)
			}
			if r < 0 || r > 255 {
				return nil
			}
			tab[i] = byte(r)
		}
		return B2I(BFn(base, &tab))
	}
	if q.isConst() {
		if r := byteVal(p, q, false); r != nil {
			return r
		}
	}
	if p.isConst() {
		if r := byteVal(q, p, true); r != nil {
			return r
		}
	}
	r := Fresh("bits", SInt)
	if in.Op == token.AND && q.isConst() && q.k >= 0 {
		st.pc.assume(Le(zero, r))
		st.pc.assume(Le(r, q))
	}
	return r
}

func (x *Exec) equal(st *State, a, b Val, at ssa.Instruction) *Term {
	switch p := a.(type) {
	case *Term:
		q := b.(*Term)
		switch p.sort {
		case SBool:
			return Iff(p, q)
		case SByte:
			return EqB(p, q)
		}
		return EqI(p, q)
	case Rope:
		return condEq(st.pc, p, b.(Rope))
	case Ptr:
		q := b.(Ptr)
		if p.idx != nil && q.idx != nil && p.obj == q.obj {
			return EqI(p.idx, q.idx)
		}
		return Bool(p.obj == q.obj && p.path == q.path)
	case SliceV:
		q := b.(SliceV)
		if q.obj == 0 {
			p, q = q, p
		}
		if q.maybe && q.obj != 0 {
			return And(EqI(q.ln, zero), Fresh("nil", SBool))
		}
		return Bool(q.obj == 0 || q.null)
	case IfaceV:
		q, ok := b.(IfaceV)
		if !ok {
			panic(unsupported("comparison of interface and concrete value"))
		}
		if p.t == nil || q.t == nil {
			return Bool(p.t == nil && q.t == nil)
		}
		if !types.Identical(p.t, q.t) {
			return tFalse
		}
		return x.equal(st, p.v, q.v, at)
	case *FuncV:
		q := b.(*FuncV)
		if p == nil || q == nil {
			return Bool(p == nil && q == nil)
		}
		panic(unsupported("comparison of functions"))
	case StructV:
		q := b.(StructV)
		var cs []*Term
		for i := range p {
			cs = append(cs, x.equal(st, p[i], q[i], at))
		}
		return And(cs...)
	}
	panic(unsupported("comparison of %T", a))
}

// ---- memory

func (x *Exec) load(st *State, a Val, t types.Type, at ssa.Instruction) Val {
	p, ok := a.(Ptr)
	if !ok {
		panic(unsupported("load through %T", a))
	}
	x.oblige(st, "nonnil", "", Bool(p.obj != 0), at)
	if p.obj == 0 {
		st.pc.dead = true
		return zeroVal(t)
	}
	o := st.get(p.obj)
	switch o.kind {
	case kBytes:
		if p.idx == nil {
			panic(unsupported("load of a byte object"))
		}
		return o.byteAt(p.idx)
	case kInts:
		return x.listElem(st, o, p.idx, at)
	}
	if p.idx != nil { // symbolic element of a concrete array
		return tableAt(st, getPath(o.cell, p.path).(StructV), p.idx)
	}
	if o.cell == nil {
		panic(unsupported("value of %s", o.what))
	}
	return getPath(o.cell, p.path)
}

// tableAt is element idx of a table of constants (or of terms).
func tableAt(st *State, s StructV, idx *Term) Val {
	if idx.isConst() {
		return s[idx.k]
	}
	if len(s) == 0 {
		panic(unsupported("index into an empty table"))
	}
	if base, _, ok := byteSetOf(idx, func(int64) bool { return true }); ok {
		var c, k int64 = 1, 0
		if idx.op == OpLin {
			c, k = idx.coef[0], idx.k
		}
		at := func(b int) Val {
			v := c*int64(b) + k
			if v < 0 || v >= int64(len(s)) {
				return nil
			}
			return s[v]
		}
		switch first := s[0].(type) {
		case *Term:
			if first.sort == SBool {
				var set Set256
				good := true
				for i := 0; i < 256; i++ {
					if v := at(i); v == nil || v.(*Term).isFalse() {
						continue
					} else if v.(*Term).isTrue() {
						set.add(byte(i))
					} else {
						good = false
					}
				}
				if good {
					return In(base, set)
				}
			}
			if first.sort == SByte {
				var tab [256]byte
				good := true
				for i := 0; i < 256; i++ {
					if v := at(i); v != nil {
						if t := v.(*Term); t.isByteC() {
							tab[i] = byte(t.k)
						} else {
							good = false
						}
					}
				}
				if good {
					return BFn(base, &tab)
				}
			}
			if first.sort == SInt {
				by := map[*Term]Set256{}
				var ks []*Term
				for i := 0; i < 256; i++ {
					if v := at(i); v != nil {
						t := v.(*Term)
						if _, ok := by[t]; !ok {
							ks = append(ks, t)
						}
						u := by[t]
						u.add(byte(i))
						by[t] = u
					}
				}
				r := ks[0]
				for _, t := range ks[1:] {
					r = Ite(In(base, by[t]), t, r)
				}
				return r
			}
		}
	}
	if first, ok := s[0].(*Term); ok && len(s) <= 256 {
		r := first
		for i := 1; i < len(s); i++ {
			r = Ite(EqI(idx, Int(int64(i))), s[i].(*Term), r)
		}
		return r
	}
	panic(unsupported("symbolic index into a table of %T", s[0]))
}

func (x *Exec) frame(st *State, o *Obj, at ssa.Instruction) {
	if st.top > 0 && (o.id <= st.top) && !st.allow[o.id] {
		x.oblige(st, "frame", o.what, tFalse, at)
		st.pc.dead = false
	} else if st.top > 0 && x.emit {
		x.oblige(st, "frame", "", tTrue, at)
	}
}

func (x *Exec) store(st *State, a Val, v Val, at ssa.Instruction) {
	p, ok := a.(Ptr)
	if !ok {
		panic(unsupported("store through %T", a))
	}
	x.oblige(st, "nonnil", "", Bool(p.obj != 0), at)
	if p.obj == 0 {
		st.pc.dead = true
		return
	}
	o := *st.get(p.obj)
	prot := st.top > 0 && o.id <= st.top && !st.allow[o.id]
	x.frame(st, &o, at)
	if prot {
		// report only: go on as if the write were allowed
		st.pc.dead = false
	}
	if o.moved {
		panic(unsupported("write through a slice that append may have left behind"))
	}
	switch o.kind {
	case kBytes:
		if p.idx == nil {
			panic(unsupported("store to a byte object"))
		}
		var upd []Upd
		for _, u := range o.upd {
			if u.idx != p.idx {
				upd = append(upd, u)
			}
		}
		o.upd = append(upd, Upd{p.idx, v.(*Term)})
	case kInts:
		panic(unsupported("store into a list of integers"))
	default:
		if p.idx != nil {
			arr := getPath(o.cell, p.path).(StructV)
			c := make(StructV, len(arr))
			for i := range arr {
				c[i] = mergeVal(EqI(p.idx, Int(int64(i))), v, arr[i])
			}
			v = c
		}
		if o.cell == nil {
			if p.path != "" {
				panic(unsupported("partial store to %s", o.what))
			}
			o.cell = v
		} else {
			o.cell = setPath(o.cell, []rune(p.path), v)
		}
	}
	st.put(&o)
}

func mergeVal(c *Term, a, b Val) Val {
	if c.isTrue() {
		return a
	}
	if c.isFalse() {
		return b
	}
	if t, ok := a.(*Term); ok {
		return Ite(c, t, b.(*Term))
	}
	panic(unsupported("symbolic element of %T", a))
}

func (x *Exec) indexAddr(st *State, v Val, i *Term, in *ssa.IndexAddr) Val {
	if i.sort == SByte {
		i = B2I(i)
	}
	switch s := v.(type) {
	case SliceV:
		if !x.oblige(st, "index", "", And(Le(zero, i), Lt(i, s.ln)), in) || s.obj == 0 {
			st.pc.dead = true
			return Ptr{}
		}
		o := st.get(s.obj)
		k := Add(s.off, i)
		if o.kind == kBytes || o.kind == kInts {
			return Ptr{obj: s.obj, idx: k}
		}
		if k.isConst() {
			return Ptr{obj: s.obj, path: string(rune(k.k))}
		}
		return Ptr{obj: s.obj, idx: k}
	case Ptr: // pointer to array
		x.oblige(st, "nonnil", "", Bool(s.obj != 0), in)
		if s.obj == 0 {
			st.pc.dead = true
			return Ptr{}
		}
		n := in.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
		if !x.oblige(st, "index", "", And(Le(zero, i), Lt(i, Int(n))), in) {
			return Ptr{}
		}
		if i.isConst() {
			return Ptr{obj: s.obj, path: s.path + string(rune(i.k))}
		}
		return Ptr{obj: s.obj, path: s.path, idx: i}
	}
	panic(unsupported("index of %T", v))
}

func (x *Exec) index(st *State, v Val, i *Term, in *ssa.Index) Val {
	if i.sort == SByte {
		i = B2I(i)
	}
	switch s := v.(type) {
	case Rope:
		if !x.oblige(st, "index", "", And(Le(zero, i), Lt(i, s.length())), in) {
			return Byte(0)
		}
		return s.char(i)
	case StructV:
		if !x.oblige(st, "index", "", And(Le(zero, i), Lt(i, Int(int64(len(s))))), in) {
			return zeroVal(in.Type())
		}
		return tableAt(st, s, i)
	}
	panic(unsupported("index of %T", v))
}

func (x *Exec) lookup(st *State, m, k Val, in *ssa.Lookup) Val {
	if s, ok := m.(Rope); ok {
		i := k.(*Term)
		if i.sort == SByte {
			i = B2I(i)
		}
		if !x.oblige(st, "index", "", And(Le(zero, i), Lt(i, s.length())), in) {
			return Byte(0)
		}
		return s.char(i)
	}
	panic(unsupported("map lookup"))
}

func (x *Exec) slice(st *State, fr *Frame, in *ssa.Slice) Val {
	v := x.val(st, fr, in.X)
	lo := zero
	var hi, mx *Term
	get := func(e ssa.Value) *Term {
		t := x.val(st, fr, e).(*Term)
		if t.sort == SByte {
			t = B2I(t)
		}
		return t
	}
	if in.Low != nil {
		lo = get(in.Low)
	}
	if in.High != nil {
		hi = get(in.High)
	}
	if in.Max != nil {
		mx = get(in.Max)
	}
	switch s := v.(type) {
	case Rope:
		n := s.length()
		if hi == nil {
			hi = n
		}
		if !x.oblige(st, "slice", "", And(Le(zero, lo), Le(lo, hi), Le(hi, n)), in) {
			return Rope(nil)
		}
		return s.slice(st.pc, lo, hi)
	case SliceV:
		if hi == nil {
			hi = s.ln
		}
		if mx == nil {
			mx = s.cp
		}
		if !x.oblige(st, "slice", "", And(Le(zero, lo), Le(lo, hi), Le(hi, mx), Le(mx, s.cp)), in) {
			return s
		}
		return SliceV{obj: s.obj, off: Add(s.off, lo), ln: Sub(hi, lo), cp: Sub(mx, lo), byteElem: s.byteElem, null: s.null, maybe: s.maybe}
	case Ptr: // array
		x.oblige(st, "nonnil", "", Bool(s.obj != 0), in)
		at := in.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
		if hi == nil {
			hi = Int(at.Len())
		}
		if mx == nil {
			mx = Int(at.Len())
		}
		if s.path != "" {
			panic(unsupported("slice of an array inside a struct"))
		}
		if !x.oblige(st, "slice", "", And(Le(zero, lo), Le(lo, hi), Le(hi, mx), Le(mx, Int(at.Len()))), in) {
			return SliceV{off: zero, ln: zero, cp: zero}
		}
		return SliceV{obj: s.obj, off: lo, ln: Sub(hi, lo), cp: Sub(mx, lo), byteElem: isByteT(at.Elem())}
	}
	if u, ok := v.(Unknown); ok && u.field > 0 && lo == zero && hi == zero && mx == nil {
		// a buffer kept from an earlier call, used again from its start; as nothing else holds it (checked when
		// the call returns) this is the same as a new one
		et := in.Type().Underlying().(*types.Slice).Elem()
		if isByteT(et) || isIntT(et) {
			r := map[int]bool{u.field - 1: true}
			for i := range x.reused {
				r[i] = true
			}
			x.reused = r
			o := st.alloc(Obj{typ: types.NewArray(et, 0), cell: StructV{}})
			return SliceV{obj: o.id, off: zero, ln: zero, cp: zero, byteElem: isByteT(et)}
		}
	}
	panic(unsupported("slice of %T", v))
}

func (x *Exec) makeSlice(st *State, in *ssa.MakeSlice, n, c *Term) Val {
	et := in.Type().Underlying().(*types.Slice).Elem()
	x.oblige(st, "makelen", "", And(Le(zero, n), Le(n, c), Le(c, Int(1<<52))), in)
	switch {
	case isByteT(et):
		o := st.alloc(Obj{kind: kBytes, typ: in.Type(), bytes: GenR(n, Byte(0))})
		if n.isConst() && n.k <= 4096 {
			o.bytes = Lit(strings.Repeat("\x00", int(n.k)))
		}
		return SliceV{obj: o.id, off: zero, ln: n, cp: c, byteElem: true}
	case isIntT(et) && n == zero:
		o := st.alloc(Obj{kind: kInts, typ: in.Type(), listOK: true})
		return SliceV{obj: o.id, off: zero, ln: zero, cp: c}
	}
	if n.isConst() && n.k <= 4096 {
		s := make(StructV, n.k)
		for i := range s {
			s[i] = zeroVal(et)
		}
		o := st.alloc(Obj{typ: types.NewArray(et, n.k), cell: s})
		return SliceV{obj: o.id, off: zero, ln: n, cp: c}
	}
	panic(unsupported("make of %v", in.Type()))
}

// sliceRope is the content of a byte slice.
func (x *Exec) sliceRope(st *State, s SliceV) Rope {
	if s.obj == 0 || s.ln == zero {
		return nil
	}
	o := st.get(s.obj)
	if o.kind == kBytes {
		c := o.content()
		if s.off == zero && s.ln == c.length() {
			if o.tm != nil && len(c) == 1 && c[0].kind == SegGen {
				// the whole text has been mapped: name the result
				f := applyFn(o.tm.fn, o.tm.base)
				if fl := f.length(); fl == s.ln || st.pc.quick(EqI(fl, s.ln)) == 1 {
					sk := Fresh("sk", SInt)
					if st.pc.entails(Implies(And(Le(zero, sk), Lt(sk, s.ln)), EqB(c.char(sk), f.char(sk)))) {
						return f
					}
				}
			}
			return c
		}
		return c.slice(st.pc, s.off, Add(s.off, s.ln))
	}
	if s.off.isConst() && s.ln.isConst() {
		a := o.cell.(StructV)
		var r Rope
		for i := s.off.k; i < s.off.k+s.ln.k; i++ {
			t := a[i].(*Term)
			if t.isByteC() {
				r = concatR(r, Lit(string([]byte{byte(t.k)})))
			} else {
				r = concatR(r, GenR(one, t))
			}
		}
		return r
	}
	panic(unsupported("content of a slice"))
}

func (x *Exec) convert(st *State, v Val, from, to types.Type, at ssa.Instruction) Val {
	switch {
	case isStringT(to):
		switch s := v.(type) {
		case SliceV:
			if !s.byteElem {
				panic(unsupported("conversion %v to string", from))
			}
			return x.sliceRope(st, s)
		case Rope:
			return s
		case *Term:
			// rune or byte to string
			if s.sort == SByte {
				s = B2I(s)
			}
			if s.isConst() {
				return Lit(string(rune(s.k)))
			}
			b := I2B(s)
			x.oblige(st, "ascii", "conversion to string", And(Le(zero, s), Lt(s, Int(128))), at)
			return GenR(one, b)
		}
	case isStringT(from):
		if sl, ok := to.Underlying().(*types.Slice); ok && isByteT(sl.Elem()) {
			r := v.(Rope)
			o := st.alloc(Obj{kind: kBytes, typ: to, bytes: r})
			n := r.length()
			for _, f := range r.lenFacts() {
				st.pc.assume(f)
			}
			c := Fresh("cap", SInt)
			st.pc.assume(Le(n, c))
			return SliceV{obj: o.id, off: zero, ln: n, cp: c, byteElem: true}
		}
	case isByteT(to):
		t := v.(*Term)
		if t.sort == SByte {
			return t
		}
		return I2B(t)
	case isIntT(to):
		t := v.(*Term)
		if t.sort == SByte {
			t = B2I(t)
		}
		x.checkRange(st, t, to, at)
		return t
	}
	if types.Identical(from.Underlying(), to.Underlying()) {
		return v
	}
	panic(unsupported("conversion from %v to %v", from, to))
}

func (x *Exec) typeAssert(st *State, fr *Frame, in *ssa.TypeAssert) {
	v := x.val(st, fr, in.X).(IfaceV)
	ok := false
	var r Val
	if it, isI := in.AssertedType.Underlying().(*types.Interface); isI {
		ok = v.t != nil && types.Implements(v.t, it)
		r = v
		if !ok {
			r = IfaceV{}
		}
	} else {
		ok = v.t != nil && types.Identical(v.t, in.AssertedType)
		if ok {
			r = v.v
		} else {
			r = zeroVal(in.AssertedType)
		}
	}
	if in.CommaOk {
		fr.env[in] = TupleV{r, Bool(ok)}
		return
	}
	if !ok {
		x.fail(st, "typeassert", "", in)
	}
	fr.env[in] = r
}

// ---- lists of positions

// pickList chooses a description of the list for reading.
func pickList(o *Obj) (ListT, bool) {
	if !o.listOK {
		return ListT{}, false
	}
	if len(o.lists) == 0 {
		return ListT{}, true
	}
	for _, l := range o.lists {
		if l.empty() {
			return l, true
		}
	}
	return o.lists[0], true
}

func (x *Exec) listElem(st *State, o *Obj, i *Term, at ssa.Instruction) Val {
	l, ok := pickList(o)
	if !ok {
		return Fresh("elem", SInt)
	}
	n := zero
	if !l.empty() {
		n = l.count()
	}
	if d := Sub(i, n); d.isConst() && d.k >= 0 && d.k < int64(len(o.elems)) {
		return o.elems[d.k]
	}
	if l.empty() {
		panic(unsupported("symbolic index into a list of integers"))
	}
	if len(o.elems) > 0 && st.pc.quick(Lt(i, n)) != 1 {
		panic(unsupported("index into a list of integers"))
	}
	// walking through the list in order
	key := [2]int{listID(l), i.id}
	if j, ok := st.cur[[2]int{-listID(l) - 1, i.id}]; ok {
		return Sub(j, l.off) // read again
	}
	fr, ok := st.cur[key]
	if !ok {
		if i == zero {
			fr = l.lo
		} else {
			return x.listElemBack(st, l, i)
		}
	}
	j := Fresh("j", SInt)
	st.pc.assume(Le(fr, j))
	st.pc.assume(Lt(j, l.hi))
	st.pc.assume(l.pred(j))
	st.pc.q = append(st.pc.q, QFact{lo: fr, hi: j, body: Not(l.pred(kappa)), note: "between list elements"})
	if st.cur == nil {
		st.cur = map[[2]int]*Term{}
	}
	st.cur[key] = fr
	st.cur[[2]int{-listID(l) - 1, i.id}] = j
	st.cur[[2]int{listID(l), AddC(i, 1).id}] = AddC(j, 1)
	return Sub(j, l.off)
}

// listElemBack reads element i where only the place element i+1 starts from is known, or nothing.
func (x *Exec) listElemBack(st *State, l ListT, i *Term) Val {
	next := AddC(i, 1)
	to, ok := st.cur[[2]int{listID(l), next.id}]
	if !ok && next == l.count() {
		to, ok = l.hi, true
	}
	j := Fresh("j", SInt)
	st.pc.assume(Le(l.lo, j))
	st.pc.assume(Lt(j, l.hi))
	st.pc.assume(l.pred(j))
	if st.cur == nil {
		st.cur = map[[2]int]*Term{}
	}
	st.cur[[2]int{-listID(l) - 1, i.id}] = j
	if ok {
		st.pc.assume(Lt(j, to))
		st.pc.q = append(st.pc.q, QFact{lo: AddC(j, 1), hi: to, body: Not(l.pred(kappa)), note: "between list elements"})
		st.cur[[2]int{listID(l), i.id}] = j
	}
	return Sub(j, l.off)
}

var listIDs = map[string]int{}
var listByID = map[int]ListT{}

func listID(l ListT) int {
	k := l.key()
	if n, ok := listIDs[k]; ok {
		return n
	}
	n := len(listIDs) + 1
	listIDs[k] = n
	listByID[n] = l
	return n
}

var countList = map[*Term]ListT{}

// emptyLists adds, for every list that a condition shows to be empty, that nothing is marked.
func emptyLists(st *State, c *Term) {
	if len(countList) == 0 || c.sort != SBool {
		return
	}
	var cs []*Term
	collectCounts(c, &cs)
	for _, v := range cs {
		if st.pc.quick(Le(v, zero)) == 1 {
			l := countList[v]
			st.pc.q = append(st.pc.q, QFact{lo: l.lo, hi: l.hi, body: Not(l.pred(kappa)), note: "empty list"})
		}
	}
}

// listFacts adds, for every list walked to its end on this path, that nothing is left of it.
func (x *Exec) listFacts(st *State) {
	if len(st.cur) == 0 {
		return
	}
	var keys [][2]int
	for k := range st.cur {
		if k[0] > 0 {
			keys = append(keys, k)
		}
	}
	sort.Slice(keys, func(a, b int) bool {
		return keys[a][0] < keys[b][0] || keys[a][0] == keys[b][0] && keys[a][1] < keys[b][1]
	})
	for _, k := range keys {
		l := listByID[k[0]]
		if st.pc.quick(Le(l.count(), termList[k[1]])) == 1 {
			fr := st.cur[k]
			delete(st.cur, k)
			st.pc.q = append(st.pc.q, QFact{lo: fr, hi: l.hi, body: Not(l.pred(kappa)), note: "end of list"})
		} else if st.pc.quick(Le(termList[k[1]], zero)) == 1 {
			fr := st.cur[k]
			delete(st.cur, k)
			st.pc.q = append(st.pc.q, QFact{lo: l.lo, hi: fr, body: Not(l.pred(kappa)), note: "start of list"})
		}
	}
}

// collectCounts finds the list lengths in a comparison.
func collectCounts(c *Term, out *[]*Term) {
	switch c.op {
	case OpNot, OpLe0, OpEq0, OpLin, OpAnd:
		for _, a := range c.args {
			collectCounts(a, out)
		}
	case OpVar:
		if _, ok := countList[c]; ok {
			*out = append(*out, c)
		}
	}
}
