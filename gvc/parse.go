package main

// The parser under contract: what Parse does on an arbitrary text in a given mode is explored once
// from an arbitrary machine; its returns are generalised per outcome of the mode's grammar, and
// callers use that summary.

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Outcome is what a grammar says about a text.
type Outcome struct {
	m    *ModeSpec
	rope Rope
	acc  bool
	tags map[string]*Term // positions in rope
	cls  int
	pos  *Term
	src  *Accepted
}

func outKey(m *ModeSpec, r Rope) string { return m.Name + "|" + r.key() }

func (st *State) setOutcome(o *Outcome) {
	n := map[string]*Outcome{}
	for k, v := range st.outs {
		n[k] = v
	}
	n[outKey(o.m, o.rope)] = o
	st.outs = n
}

type judged struct {
	st *State
	o  *Outcome
}

// isRaw: the text is a whole arbitrary input.
func (st *State) isRaw(r Rope) (D, N *Term, ok bool) {
	if len(r) == 1 && r[0].kind == SegSub && r[0].lo == zero {
		if n := st.raws[r[0].arr]; n != nil && n == r[0].hi {
			return r[0].arr, n, true
		}
	}
	return nil, nil, false
}

// outcome splits the state by what the grammar says about the text.
func (x *Exec) outcome(st *State, m *ModeSpec, r Rope) []judged {
	if len(r) == 0 {
		// the empty text
		e := m.g.states[0].eof
		if e.acc {
			panic(unsupported("grammar accepting the empty text"))
		}
		return []judged{{st, &Outcome{m: m, cls: e.cls, pos: zero}}}
	}
	if o := st.outs[outKey(m, r)]; o != nil {
		return []judged{{st, o}}
	}
	D, N, raw := st.isRaw(r)
	if raw {
		known := false
		for _, o := range st.outs {
			if o.acc && o.src.D == D {
				known = true
			}
		}
		if !known {
			return x.anyOutcome(st, m, r, D)
		}
	}
	_ = N
	segs, ok := x.runSegs(st, r)
	if ok {
		if ends, ok := m.run(segs); ok {
			return x.runOutcomes(st, m, r, segs, ends)
		}
	}
	return x.anyOutcome(st, m, r, nil)
}

func (x *Exec) accepted(st *State, m *ModeSpec, r Rope, tags map[string]*Term) *Outcome {
	o := &Outcome{m: m, rope: r, acc: true, tags: tags}
	if D, N, ok := st.isRaw(r); ok {
		o.src = &Accepted{m: m, D: D, N: N, tags: tags}
	} else {
		o.src = &Accepted{m: m, tags: tags}
	}
	return o
}

// anyOutcome considers every outcome the grammar has.
func (x *Exec) anyOutcome(st *State, m *ModeSpec, r Rope, D *Term) []judged {
	var out []judged
	n := r.length()
	for _, sig := range m.sigs() {
		s := st.clone()
		l := m.lang[sig]
		tags := l.positions(s, n, "")
		if D != nil {
			l.facts(s, D, tags)
		}
		if s.pc.dead {
			continue
		}
		o := x.accepted(s, m, r, tags)
		s.setOutcome(o)
		s.trace = append(s.trace, m.Name+":accepted("+sig+")")
		out = append(out, judged{s, o})
	}
	for _, c := range m.classes() {
		s := st.clone()
		p := Fresh("pos", SInt)
		s.pc.assume(Le(zero, p))
		s.pc.assume(Le(p, n))
		if s.pc.dead {
			continue
		}
		o := &Outcome{m: m, rope: r, cls: c, pos: p}
		s.setOutcome(o)
		s.trace = append(s.trace, fmt.Sprintf("%s:error%d", m.Name, c))
		out = append(out, judged{s, o})
	}
	return out
}

// runSegs describes the text by pieces of accepted texts.
func (x *Exec) runSegs(st *State, r Rope) ([]runSeg, bool) {
	var accs []*Outcome
	var ks []string
	for k := range st.outs {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		if o := st.outs[k]; o.acc && o.src.D != nil {
			accs = append(accs, o)
		}
	}
	var segs []runSeg
	for i := range r {
		s := &r[i]
		fn := ""
		if s.transparent() {
			if len(s.args[0]) != 1 {
				return nil, false
			}
			fn = s.fn
			s = &s.args[0][0]
		}
		switch s.kind {
		case SegLit:
			if fn != "" {
				return nil, false
			}
			segs = append(segs, runSeg{lit: s.lit})
		case SegSub:
			found := false
			for _, o := range accs {
				if o.src.D != s.arr {
					continue
				}
				l := o.m.langOf(tagSig(o.tags))
				from, to := "", ""
				okTo := s.hi == o.src.N
				for _, t := range l.tags {
					if o.tags[t] == s.lo && from == "" {
						from = t
					}
				}
				for _, t := range l.tags {
					if o.tags[t] == s.hi && to == "" && t != from && l.before(from, t) {
						to = t
						okTo = true
					}
				}
				if from == "" || !okTo {
					continue
				}
				segs = append(segs, runSeg{l: l, acc: o.src, from: from, to: to, fn: fn})
				found = true
				break
			}
			if !found {
				return nil, false
			}
		default:
			return nil, false
		}
	}
	return segs, true
}

func (l *lang) before(a, b string) bool {
	for _, t := range l.tags {
		if t == a {
			return true
		}
		if t == b {
			return false
		}
	}
	return false
}

func (x *Exec) runOutcomes(st *State, m *ModeSpec, r Rope, segs []runSeg, ends []*runEnd) []judged {
	n := r.length()
	start := []*Term{zero}
	for i := range r {
		start = append(start, Add(start[i], r[i].length()))
	}
	at := func(s *State, ls map[runLabel]bool, name string) *Term {
		var best *runLabel
		for l := range ls {
			l := l
			better := best == nil
			if best != nil {
				switch {
				case (l.tag == "") != (best.tag == ""):
					better = l.tag == ""
				case l.k != best.k:
					better = l.k < best.k
				case l.seg != best.seg:
					better = l.seg < best.seg
				default:
					better = l.tag < best.tag
				}
			}
			if better {
				best = &l
			}
		}
		if best == nil {
			p := Fresh(name, SInt)
			s.pc.assume(Le(zero, p))
			s.pc.assume(Le(p, n))
			return p
		}
		t := AddC(start[best.seg], int64(best.k))
		if best.tag != "" {
			sg := segs[best.seg]
			t = Add(t, Sub(sg.acc.tags[best.tag], sg.acc.tags[sg.from]))
		}
		return t
	}
	var out []judged
	for i, e := range ends {
		s := st
		if i < len(ends)-1 {
			s = st.clone()
		}
		var o *Outcome
		if e.acc {
			tags := map[string]*Term{}
			for t, ls := range e.tags {
				tags[t] = at(s, ls, t)
			}
			o = x.accepted(s, m, r, tags)
			l := m.lang[e.sig]
			val := []*Term{zero, n}
			for _, t := range strings.Split(e.sig, ",") {
				val = append(val, tags[t])
			}
			for _, g := range l.final.tight() {
				s.pc.assume(Le(Sub(val[g[0]], val[g[1]]), Int(l.final.ub[g[0]][g[1]])))
			}
			if D, _, ok := s.isRaw(r); ok {
				l.facts(s, D, tags)
			}
			s.trace = append(s.trace, m.Name+":accepted("+e.sig+")")
		} else {
			o = &Outcome{m: m, rope: r, cls: e.cls, pos: at(s, e.pos, "pos")}
			s.trace = append(s.trace, fmt.Sprintf("%s:error%d", m.Name, e.cls))
		}
		if s.pc.dead {
			continue
		}
		s.setOutcome(o)
		out = append(out, judged{s, o})
	}
	return out
}

// ---- the summary of Parse

type summary struct {
	c     *absCtx
	key   string
	nodes []*node
	mach  ObjID
	D, N  *Term
	old   map[ObjID]int // errors a machine may have had before, by field
	wr    map[int]bool
	fresh ObjID // objects older than this exist before the call
	input ObjID
}

// machineFields: which fields of the receiver Parse (or anything it calls) may write.
func (x *Exec) writtenFields(f *ssa.Function, t types.Type) map[int]bool {
	w := map[int]bool{}
	seen := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		if f == nil || seen[f] || !x.p.hasSource(f) {
			return
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.FieldAddr:
					pt, ok := in.X.Type().Underlying().(*types.Pointer)
					if !ok || !types.Identical(pt.Elem(), t) {
						continue
					}
					if al, ok := in.X.(*ssa.Alloc); ok && !al.Heap {
						continue // another machine: a local copy
					}
					for _, r := range *in.Referrers() {
						switch r := r.(type) {
						case *ssa.UnOp, *ssa.DebugRef:
						case *ssa.Store:
							if r.Addr != in || !readsField(r.Val, in.X, in.Field, 0) {
								w[in.Field] = true
							}
						default:
							w[in.Field] = true
						}
					}
				case *ssa.Store:
					if types.Identical(in.Val.Type(), t) { // whole struct written
						if st, ok := t.Underlying().(*types.Struct); ok {
							if al, ok := in.Addr.(*ssa.Alloc); !ok || al.Heap {
								for i := 0; i < st.NumFields(); i++ {
									if !keepsField(in.Val, in.Addr, i, 0) {
										w[i] = true
									}
								}
							}
						}
					}
				case ssa.CallInstruction:
					visit(in.Common().StaticCallee())
				}
				for _, op := range in.Operands(nil) {
					if op == nil || *op == nil {
						continue
					}
					if mc, ok := (*op).(*ssa.MakeClosure); ok {
						visit(mc.Fn.(*ssa.Function))
					}
					if g, ok := (*op).(*ssa.Function); ok {
						visit(g)
					}
				}
			}
		}
	}
	visit(f)
	return w
}

// readsField: v is what field i of *x held (every write of the field stores such a value, so it never changes).
func readsField(v, x ssa.Value, i, depth int) bool {
	if depth > 4 {
		return false
	}
	switch v := v.(type) {
	case *ssa.UnOp:
		fa, ok := v.X.(*ssa.FieldAddr)
		if !ok || v.Op != token.MUL || fa.Field != i {
			return false
		}
		if fa.X == x {
			return true
		}
		a, ok := fa.X.(*ssa.Alloc)
		return ok && localKeeps(a, x, i, depth+1)
	case *ssa.Field:
		return v.Field == i && keepsField(v.X, x, i, depth+1)
	}
	return false
}

// keepsField: field i of the struct value v is what field i of *x held.
func keepsField(v, x ssa.Value, i, depth int) bool {
	u, ok := v.(*ssa.UnOp)
	if depth > 4 || !ok || u.Op != token.MUL {
		return false
	}
	if u.X == x {
		return true
	}
	a, ok := u.X.(*ssa.Alloc)
	return ok && localKeeps(a, x, i, depth+1)
}

// localKeeps: everything ever stored in field i of the local struct a is what field i of *x held.
func localKeeps(a *ssa.Alloc, x ssa.Value, i, depth int) bool {
	if a.Heap || depth > 4 {
		return false
	}
	n := 0
	for _, r := range *a.Referrers() {
		switch r := r.(type) {
		case *ssa.UnOp, *ssa.DebugRef:
		case *ssa.Store:
			if r.Addr != a || !keepsField(r.Val, x, i, depth+1) {
				return false
			}
			n++
		case *ssa.FieldAddr:
			for _, rr := range *r.Referrers() {
				switch rr := rr.(type) {
				case *ssa.UnOp, *ssa.DebugRef:
				case *ssa.Store:
					if rr.Addr != r || r.Field == i && !readsField(rr.Val, x, i, depth+1) {
						return false
					}
					if r.Field == i {
						n++
					}
				default:
					return false
				}
			}
		default:
			return false
		}
	}
	return n > 0
}

// havoc is an arbitrary value of the type, as far as that is possible.
func (x *Exec) havoc(st *State, t types.Type, old Val) Val {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return Fresh("old", SBool)
		case u.Kind() == types.Uint8:
			return Fresh("old", SByte)
		case u.Info()&types.IsInteger != 0:
			v := Fresh("old", SInt)
			if lo, hi, ok := intRange(t); ok {
				st.pc.assume(Le(lo, v))
				st.pc.assume(Le(v, hi))
			}
			return v
		}
	case *types.Interface:
		if i, ok := old.(IfaceV); ok && i.t == nil {
			return i
		}
		if u.NumMethods() > 0 {
			return x.newError(st, AppR("previous error"))
		}
	case *types.Struct:
		s := make(StructV, u.NumFields())
		for i := range s {
			var o Val
			if os, ok := old.(StructV); ok {
				o = os[i]
			}
			s[i] = x.havoc(st, u.Field(i).Type(), o)
		}
		return s
	}
	return Unknown{why: "left by an earlier call"}
}

// resetFirst: f stores into field i of its receiver before it can look at it.
func resetFirst(f *ssa.Function, i int) bool {
	if len(f.Blocks) == 0 || len(f.Blocks[0].Preds) > 0 {
		return false
	}
	recv := f.Params[0]
	for _, in := range f.Blocks[0].Instrs {
		switch in := in.(type) {
		case *ssa.FieldAddr:
			if in.X == recv {
				continue
			}
		case *ssa.Store:
			if fa, ok := in.Addr.(*ssa.FieldAddr); ok && fa.X == recv && in.Val != recv {
				if fa.Field == i {
					return true
				}
				continue
			}
		case *ssa.UnOp:
			if fa, ok := in.X.(*ssa.FieldAddr); ok && fa.X == recv && fa.Field == i {
				return false
			}
			if in.X == recv {
				return false
			}
			continue
		case ssa.CallInstruction:
			if _, ok := in.Common().Value.(*ssa.Builtin); !ok {
				return false
			}
		}
		for _, op := range in.Operands(nil) {
			if *op == recv {
				return false
			}
		}
	}
	return false
}

func (x *Exec) isParse(f *ssa.Function) bool {
	sig := f.Signature
	if f.Name() != "Parse" || sig.Recv() == nil || !x.p.inRepo(f) || f.Synthetic != "" {
		return false
	}
	if sig.Params().Len() != 1 || sig.Results().Len() != 2 {
		return false
	}
	s, ok := sig.Params().At(0).Type().Underlying().(*types.Slice)
	if !ok || !isByteT(s.Elem()) {
		return false
	}
	_, isP := sig.Recv().Type().Underlying().(*types.Pointer)
	return isP
}

func (x *Exec) parseContract(f *ssa.Function) func(x *Exec, st *State, args []Val, in ssa.Instruction) []Out {
	return func(x *Exec, st *State, args []Val, in ssa.Instruction) []Out {
		m := st.mode
		if m == nil {
			panic(unsupported("call of %s with no grammar to judge by", f))
		}
		recv := args[0].(Ptr)
		x.oblige(st, "nonnil", "", Bool(recv.obj != 0), in)
		if recv.obj == 0 {
			st.pc.dead = true
			return nil
		}
		input := args[1].(SliceV)
		sum := x.summarise(st, f, m, recv, input)
		var outs []Out
		for _, j := range x.outcome(st, m, x.sliceRope(st, input)) {
			outs = append(outs, x.applySummary(j.st, sum, j.o, recv, input)...)
		}
		return outs
	}
}

func (x *Exec) summarise(st *State, f *ssa.Function, m *ModeSpec, recv Ptr, input SliceV) *summary {
	mt := f.Signature.Recv().Type().Underlying().(*types.Pointer).Elem()
	wr := x.written[f]
	if wr == nil {
		wr = x.writtenFields(f, mt)
		x.written[f] = wr
	}
	o := st.get(recv.obj)
	if recv.path != "" || o.kind != kCell || !types.Identical(o.typ, mt) {
		panic(unsupported("receiver of %s", f))
	}
	fields := o.cell.(StructV)
	key := m.Name + "|" + f.String()
	if input.obj == 0 {
		key += "|nil"
	}
	for i, v := range fields {
		if !wr[i] {
			if t, ok := v.(*Term); ok && (t.isConst() || t.isTrue() || t.isFalse()) {
				key += fmt.Sprintf("|%d=%v", i, t)
				continue
			}
			if _, ok := v.(SliceV); !ok {
				panic(unsupported("configuration field %d of the machine: %s", i, valString(v)))
			}
			panic(unsupported("configuration field %d of the machine", i))
		} else if e, ok := v.(IfaceV); ok && resetFirst(f, i) {
			fields = append(StructV{}, fields...)
			fields[i] = IfaceV{} // whatever it was
		} else if ok {
			key += fmt.Sprintf("|%d:%v", i, e.t == nil)
		}
	}
	if s := x.sums[key]; s != nil {
		return s
	}
	s := x.newSummary(st, f, m, key, fields, wr, mt, input.obj == 0)
	x.sums[key] = s
	return s
}

func (x *Exec) newSummary(st0 *State, f *ssa.Function, m *ModeSpec, key string, fields StructV, wr map[int]bool, mt types.Type, nilInput bool) *summary {
	emit, label, allow := x.emit, x.label, x.depth
	defer func() { x.emit, x.label, x.depth = emit, label, allow }()
	x.depth = 0
	x.label = "Parse[" + m.Name + "]"
	x.emit = true
	st := x.gstate.clone()
	st.mode = m
	s := &summary{key: key, wr: wr, old: map[ObjID]int{}}
	s.D, s.N = Fresh("D", SBArr), Fresh("N", SInt)
	st.pc.assume(Le(zero, s.N))
	st.pc.assume(Le(s.N, Int(maxInput)))
	ms := make(StructV, len(fields))
	ft := mt.Underlying().(*types.Struct)
	for i := range ms {
		if wr[i] {
			ms[i] = x.havoc(st, ft.Field(i).Type(), fields[i])
			if e, ok := ms[i].(IfaceV); ok && e.t != nil {
				if p, ok := e.v.(Ptr); ok {
					s.old[p.obj] = i
				}
			}
			if u, ok := ms[i].(Unknown); ok {
				u.field = i + 1
				ms[i] = u
			}
		} else {
			ms[i] = fields[i]
		}
	}
	in := SliceV{off: zero, ln: zero, cp: zero, byteElem: true}
	if !nilInput {
		o := st.alloc(Obj{kind: kBytes, bytes: SubR(s.D, zero, s.N), what: "the input", typ: types.NewSlice(types.Typ[types.Uint8])})
		in = SliceV{obj: o.id, off: zero, ln: s.N, cp: Fresh("cap", SInt), byteElem: true}
		st.pc.assume(Le(s.N, in.cp))
		s.input = o.id
	} else {
		st.pc.assume(EqI(s.N, zero))
	}
	mo := st.alloc(Obj{typ: mt, cell: ms, what: "the machine"})
	s.mach = mo.id
	s.fresh = st.next
	st.raw(s.D, s.N)
	st.top = st.next
	st.allow = map[ObjID]bool{mo.id: true}
	st.ghost = &Ghost{m: m, D: s.D, N: s.N, st: m.g.states[0], I: zero}
	entry := st.clone()
	if debugLoop {
		fmt.Fprintln(os.Stderr, "summary entry", key, "\n", st.dump())
	}
	reused := x.reused
	x.reused = nil
	outs := x.call(st, f, []Val{Ptr{obj: mo.id}, in}, nil, nil)
	if debugLoop {
		fmt.Fprintf(os.Stderr, "summary %s: %d returns\n", key, len(outs))
	}
	if debugLoop && len(outs) < 5 {
		for _, o := range outs {
			fmt.Fprintln(os.Stderr, "return", valString(TupleV(o.ret)), "\n", o.st.dump())
		}
	}
	// generalise
	x.emit = true
	defer func() { x.reused = reused }()
	var arr []shape
	var ready []Out
	for _, o := range outs {
		for _, e := range x.finish(o.st, 6) {
			ready = append(ready, Out{e, o.ret})
		}
	}
	for _, o := range ready {
		if o.st.pc.dead {
			continue
		}
		kept := x.kept[f]
		if kept == nil {
			kept = &keptInfo{reused: map[int]bool{}, foreign: map[int]bool{}}
			x.kept[f] = kept
		}
		for i := range x.reused {
			kept.reused[i] = true
		}
		for i := 0; i < 2; i++ {
			kept.shared[i] = kept.shared[i] || holdsSlice(o.st, TupleV(o.ret), i == 1)
		}
		for i, v := range o.st.get(s.mach).cell.(StructV) {
			if _, isS := ft.Field(i).Type().Underlying().(*types.Slice); isS && !ownSlice(o.st, v, i) {
				kept.foreign[i] = true
			}
		}
		for i := range kept.reused {
			k := 0
			if isByteSeq(ft.Field(i).Type()) {
				k = 1
			}
			x.oblige(o.st, "frame", "a buffer written again is the machine's own", Bool(!kept.foreign[i] && !kept.shared[k]), nil)
		}
		// the machine's scratch fields are forgotten
		mo := *o.st.get(s.mach)
		cell := append(StructV{}, mo.cell.(StructV)...)
		for i := range cell {
			if a, ok := cell[i].(*Term); ok && !wr[i] {
				if b, ok := fields[i].(*Term); !ok || a != b {
					panic(unsupported("%s: a configuration field changes", f))
				}
			}
			if _, isI := ft.Field(i).Type().Underlying().(*types.Interface); wr[i] && !isI {
				cell[i] = Unknown{why: "scratch field of the machine"}
			}
		}
		mo.cell = cell
		o.st.put(&mo)
		nameTexts(o.st, s.fresh)
		if o.st.pc.dead {
			continue
		}
		o.st.cur = nil
		sh := shape{st: o.st}
		for i, r := range o.ret {
			sh.roots = append(sh.roots, root{name: fmt.Sprintf("ret%d", i), v: r, t: f.Signature.Results().At(i).Type(), key: i})
		}
		arr = append(arr, sh)
	}
	c := &absCtx{x: x, entry: entry, mod: map[ObjID]bool{}, tmpl: map[string]bool{}, what: f.String(), returns: true}
	c.mark = len(termList)
	// nothing made after the entry state counts as fixed
	c.mark = entryMark(s)
	c.taint = &taintInfo{fields: map[fieldKey]bool{}}
	for try := 0; ; try++ {
		if try > 40 {
			panic(unsupported("returns of %s cannot be described", f))
		}
		if x.generalise(c, arr) {
			break
		}
	}
	if debugLoop {
		fmt.Fprintf(os.Stderr, "summary %s: %d cases\n", key, len(c.order))
	}
	s.c = c
	s.nodes = c.order
	return s
}

// nameTexts writes the computed texts in reach as pieces of the accepted input, where that is what they are.
func nameTexts(st *State, old ObjID) {
	g := st.ghost
	if g == nil || g.st != nil || !g.end.acc {
		return
	}
	at := map[string]*Term{}
	for i, t := range strings.Split(tagSig(g.end.tags), ",") {
		if i < len(g.regs) {
			at[t] = g.regs[i]
		}
	}
	var cands []Rope
	for t, lo := range at {
		if hi := at[strings.TrimSuffix(t, "0")+"1"]; strings.HasSuffix(t, "0") && hi != nil {
			cands = append(cands, SubR(g.D, lo, hi))
		}
	}
	sort.Slice(cands, func(i, j int) bool { return cands[i].key() < cands[j].key() })
	memo := map[string]Rope{}
	text := func(r Rope) Rope {
		gen := false
		for i := range r {
			gen = gen || r[i].kind == SegGen
		}
		if !gen {
			return r
		}
		if n, ok := memo[r.key()]; ok {
			return n
		}
		if len(memo) == 0 && st.pc.entails(tFalse) {
			st.pc.dead = true // everything would be named
		}
		res := r
		memo[r.key()] = res
		if st.pc.dead {
			return r
		}
		for _, c := range cands {
			if st.pc.quick(EqI(c.length(), r.length())) == 0 {
				continue
			}
			for _, fn := range []string{"", "norm", "lower"} {
				d := c
				switch fn {
				case "norm":
					d = normR(c)
				case "lower":
					d = mapRope("lower", c)
				}
				if f, _ := eqRope(st.pc, r, d); st.pc.entails(f) {
					res = d
					break
				}
			}
		}
		memo[r.key()] = res
		return res
	}
	var val func(v Val) Val
	val = func(v Val) Val {
		switch v := v.(type) {
		case Rope:
			return text(v)
		case StructV:
			n := make(StructV, len(v))
			for i := range v {
				n[i] = val(v[i])
			}
			return n
		}
		return v
	}
	for _, id := range st.ids() {
		if id <= old {
			continue
		}
		o := *st.heap[id]
		switch {
		case o.kind == kCell && o.cell != nil:
			o.cell = val(o.cell)
		case o.kind == kBytes && len(o.upd) == 0:
			o.bytes = text(o.bytes)
		default:
			continue
		}
		st.put(&o)
	}
}

func entryMark(s *summary) int {
	if s.N.id > s.D.id {
		return s.N.id + 1
	}
	return s.D.id + 1
}

func (x *Exec) generalise(c *absCtx, arr []shape) (ok bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, is := r.(restartAbs); is {
				ok = false
				return
			}
			panic(r)
		}
	}()
	c.nodes = map[string]*node{}
	c.order = nil
	c.shapes = nil
	var as []*arrival
	for _, sh := range arr {
		for _, s2 := range x.decide(c, shape{st: sh.st.clone(), roots: sh.roots}) {
			as = append(as, c.collect(s2, "return"))
		}
	}
	for ch := true; ch; {
		ch = false
		for _, a := range as {
			n := c.nodes[a.key]
			if n == nil {
				c.newNode(a, nil)
				ch = true
				if debugLoop && os.Getenv("GVC_NODES") != "" {
					fmt.Fprintf(os.Stderr, "RETURN case %s\n%s", a.key, a.sh.st.dump())
				}
				continue
			}
			if c.merge(n, a) {
				ch = true
			}
		}
	}
	for _, a := range as {
		x.checkArrival(c, c.nodes[a.key], a, Place{st: a.sh.st})
	}
	return true
}

// finish runs the ghost automaton on over the rest of the text when a path returned early.
func (x *Exec) finish(st *State, depth int) []*State {
	var out []*State
	for _, s := range x.syncGhost(st) {
		if s.pc.dead {
			continue
		}
		g := s.ghost
		if g == nil || g.st == nil {
			x.closeGhost(s)
			out = append(out, s)
			continue
		}
		if depth == 0 {
			out = append(out, s)
			continue
		}
		// one more byte, or the end
		e := s.clone()
		if e.pc.assume(EqI(g.I, g.N)) {
			out = append(out, x.finish(e, depth)...)
		}
		if s.pc.assume(Lt(g.I, g.N)) {
			for i := range g.st.succ {
				sc := &g.st.succ[i]
				t := s.clone()
				if t.pc.assume(In(Sel(g.D, g.I), sc.set)) {
					if sc.set.full() {
						t.pc.sets[Sel(g.D, g.I)] = sc.set
					}
					out = append(out, x.finish(t, depth-1)...)
				}
			}
		}
	}
	return out
}

// closeGhost brings an accepting outcome into its standard form.
func (x *Exec) closeGhost(st *State) {
	g := st.ghost
	if g == nil || g.end == nil || !g.end.acc {
		return
	}
	l := g.m.langOf(tagSig(g.end.tags))
	ng := *g
	ng.regs = nil
	for _, t := range strings.Split(l.sig, ",") {
		if r := g.end.tags[t]; r >= 0 {
			ng.regs = append(ng.regs, g.regs[r])
		} else {
			ng.regs = append(ng.regs, g.N)
		}
	}
	ng.at = l.final
	ng.end = l.final.eof
	ng.I = g.N
	st.ghost = &ng
}

// applySummary gives the possible returns of the call for the outcome.
func (x *Exec) applySummary(st *State, s *summary, o *Outcome, recv Ptr, input SliceV) []Out {
	var outs []Out
	for _, n := range s.nodes {
		g := n.proto.st.ghost
		if !matches(g, o) {
			continue
		}
		t := st.clone()
		ret, ok := x.transplant(t, s, n, o, recv, input)
		if ok {
			outs = append(outs, Out{t, ret})
		}
	}
	return outs
}

func matches(g *Ghost, o *Outcome) bool {
	if g.st != nil {
		return g.st.canEnd(o)
	}
	if g.end.acc != o.acc {
		return false
	}
	if g.end.acc {
		return tagSig(g.end.tags) == tagSig(o.tags)
	}
	return g.end.cls == o.cls
}

// canEnd: some continuation from the ghost state has that outcome.
func (s *gState) canEnd(o *Outcome) bool {
	seen := map[*gState]bool{}
	var walk func(s *gState) bool
	walk = func(s *gState) bool {
		if seen[s] {
			return false
		}
		seen[s] = true
		if s.eof.acc == o.acc {
			if o.acc && tagSig(s.eof.tags) == tagSig(o.tags) || !o.acc && s.eof.cls == o.cls {
				return true
			}
		}
		for i := range s.succ {
			sc := &s.succ[i]
			if sc.to == nil {
				if !o.acc && sc.cls == o.cls {
					return true
				}
				continue
			}
			if walk(sc.to) {
				return true
			}
		}
		return false
	}
	return walk(s)
}

// transplant instantiates a case of the summary in the caller's state.
func (x *Exec) transplant(st *State, s *summary, n *node, o *Outcome, recv Ptr, input SliceV) ([]Val, bool) {
	c := s.c
	tmp, roots, _ := c.instantiate(n)
	if tmp.pc.dead {
		return nil, false
	}
	text := o.rope
	m := map[*Term]*Term{s.N: text.length()}
	g := tmp.ghost
	if g.st == nil {
		if g.end.acc {
			names := strings.Split(tagSig(g.end.tags), ",")
			for i, t := range names {
				m[g.regs[i]] = o.tags[t]
			}
		} else {
			m[g.pos] = o.pos
		}
	}
	tr := &transplanter{x: x, st: st, tmp: tmp, s: s, m: m, text: text, before: st.get(recv.obj).cell.(StructV), memo: map[*Term]*Term{}, ids: map[ObjID]ObjID{s.mach: recv.obj, s.input: input.obj}}
	base := map[*Term]bool{}
	for _, f := range c.entry.pc.facts {
		base[f] = true
	}
	for _, f := range tmp.pc.facts {
		if !base[f] {
			if !st.pc.assume(tr.term(f)) {
				return nil, false
			}
		}
	}
	if n.plain && o.tags["ss0"] != nil && o.tags["ss1"] != nil {
		ss := text.slice(st.pc, o.tags["ss0"], o.tags["ss1"])
		st.pc.setPlain(ss)
		if len(ss) == 1 && ss[0].kind == SegSub {
			st.pc.q = append(st.pc.q, QFact{lo: ss[0].lo, hi: ss[0].hi, body: Not(mark(ss[0].arr, ss[0].lo, kappa)), note: "own normal form"})
		}
	}
	var ret []Val
	for _, r := range roots {
		ret = append(ret, tr.val(r.v))
	}
	// the machine
	mo := *tmp.get(s.mach)
	old := *st.get(recv.obj)
	x.frame(st, &old, nil)
	cell := tr.val(mo.cell).(StructV)
	oc := append(StructV{}, old.cell.(StructV)...)
	ft := old.typ.Underlying().(*types.Struct)
	for i := range oc {
		if !s.wr[i] {
			continue
		}
		if _, isI := ft.Field(i).Type().Underlying().(*types.Interface); isI {
			oc[i] = cell[i]
		} else {
			oc[i] = x.havoc(st, ft.Field(i).Type(), nil)
		}
	}
	old.cell = oc
	st.put(&old)
	return ret, !st.pc.dead
}

type transplanter struct {
	x      *Exec
	st     *State
	tmp    *State
	s      *summary
	m      map[*Term]*Term
	text   Rope
	before StructV // the machine as it was
	memo   map[*Term]*Term
	ids    map[ObjID]ObjID
}

func (t *transplanter) term(a *Term) *Term {
	if a == nil {
		return nil
	}
	if r, ok := t.m[a]; ok {
		return r
	}
	if len(a.args) == 0 {
		return a
	}
	if r, ok := t.memo[a]; ok {
		return r
	}
	var r *Term
	if a.op == OpSel && a.args[0] == t.s.D {
		r = t.text.char(t.term(a.args[1]))
	} else {
		as := make([]*Term, len(a.args))
		ch := false
		for i := range a.args {
			as[i] = t.term(a.args[i])
			ch = ch || as[i] != a.args[i]
		}
		r = a
		if ch {
			r = rebuild(a, as)
		}
	}
	t.memo[a] = r
	return r
}

func (t *transplanter) rope(r Rope) Rope {
	var out Rope
	for i := range r {
		s := r[i]
		switch s.kind {
		case SegSub:
			lo, hi := t.term(s.lo), t.term(s.hi)
			if s.arr == t.s.D {
				out = concatR(out, t.text.slice(t.st.pc, lo, hi))
				continue
			}
			s.lo, s.hi = lo, hi
		case SegGen:
			out = concatR(out, GenR(t.term(s.n), t.term(s.body)))
			continue
		case SegItoa:
			out = concatR(out, ItoaR(t.term(s.it)))
			continue
		case SegApp:
			as := make([]Rope, len(s.args))
			for j, a := range s.args {
				as[j] = t.rope(a)
			}
			s.args = as
			switch {
			case s.fn == "norm":
				out = concatR(out, normR2(t.st.pc, as[0]))
				continue
			case s.transparent():
				out = concatR(out, mapRope(s.fn, as[0]))
				continue
			}
		}
		out = concatR(out, Rope{s})
	}
	return out
}

func (t *transplanter) obj(id ObjID) ObjID {
	if id == 0 {
		return 0
	}
	if n, ok := t.ids[id]; ok {
		return n
	}
	if id < 0 {
		return id
	}
	if id <= t.s.fresh {
		// made by package initialisation: the same object
		return id
	}
	o := *t.tmp.get(id)
	n := t.st.alloc(Obj{})
	t.ids[id] = n.id
	nid := n.id
	switch o.kind {
	case kInts:
		ln := Fresh("llen", SInt)
		t.st.pc.assume(Le(zero, ln))
		t.st.pc.assume(Le(ln, Int(1<<51)))
		o.lists, o.listOK, o.llen, o.elems = nil, false, ln, nil
	case kBytes:
		o.bytes = t.rope(o.content())
		o.upd, o.tm = nil, nil
	case kMap:
		for i := range o.vals {
			o.vals[i] = t.val(o.vals[i])
		}
	default:
		o.cell = t.val(o.cell)
	}
	o.id = nid
	c := new(Obj)
	*c = o
	t.st.put(c)
	return nid
}

func (t *transplanter) val(v Val) Val {
	switch v := v.(type) {
	case nil:
		return nil
	case *Term:
		return t.term(v)
	case Rope:
		return t.rope(v)
	case Ptr:
		return Ptr{obj: t.obj(v.obj), path: v.path, idx: t.term(v.idx)}
	case SliceV:
		if v.obj == 0 {
			return v
		}
		id := t.obj(v.obj)
		o := t.st.get(id)
		if o.kind == kInts {
			c := Fresh("cap", SInt)
			n := o.listLen(t.st)
			t.st.pc.assume(Le(n, c))
			return SliceV{obj: id, off: zero, ln: n, cp: c}
		}
		return SliceV{obj: id, off: t.term(v.off), ln: t.term(v.ln), cp: t.term(v.cp), byteElem: v.byteElem}
	case IfaceV:
		if v.t == nil {
			return v
		}
		if p, ok := v.v.(Ptr); ok {
			if i, ok := t.s.old[p.obj]; ok {
				return t.before[i]
			}
		}
		return IfaceV{t: v.t, v: t.val(v.v)}
	case *FuncV:
		if v == nil {
			return v
		}
		n := &FuncV{fn: v.fn}
		for _, b := range v.binds {
			n.binds = append(n.binds, t.val(b))
		}
		return n
	case StructV:
		n := make(StructV, len(v))
		for i := range v {
			n[i] = t.val(v[i])
		}
		return n
	case TupleV:
		return TupleV(t.val(StructV(v)).(StructV))
	case Unknown:
		return v
	}
	panic(fmt.Sprintf("transplant %T", v))
}

// normR2 is norm(r), with the pieces taken apart where no percent sign can reach across.
func normR2(p *PC, r Rope) Rope { return normR(r) }

// keptInfo is what the calls of a function, in any configuration, do with the slices a machine keeps between calls.
type keptInfo struct {
	reused, foreign map[int]bool // written again; may hold memory the call did not make
	shared          [2]bool      // a result holds a slice of: other things, bytes
}

// ownSlice: the value is a slice of memory made in this call, or nil.
func ownSlice(st *State, v Val, field int) bool {
	switch v := v.(type) {
	case SliceV:
		return v.obj == 0 || v.obj > st.top
	case Unknown:
		return v.field == field+1
	}
	return false
}

// holdsSlice tells whether a slice (of bytes, of other things) can be reached from the value.
func holdsSlice(st *State, v Val, bytes bool) bool {
	seen := map[ObjID]bool{}
	var val func(v Val) bool
	obj := func(id ObjID) bool {
		if id == 0 || seen[id] {
			return false
		}
		seen[id] = true
		o := st.get(id)
		if o.kind == kErr {
			return false
		}
		return o.kind == kMap || o.cell != nil && val(o.cell)
	}
	val = func(v Val) bool {
		switch v := v.(type) {
		case Ptr:
			return obj(v.obj)
		case SliceV:
			return v.obj != 0 && (v.byteElem == bytes || obj(v.obj))
		case IfaceV:
			return v.v != nil && val(v.v)
		case *FuncV:
			return v != nil
		case StructV:
			for _, e := range v {
				if val(e) {
					return true
				}
			}
		case TupleV:
			return val(StructV(v))
		case Unknown:
			return true
		}
		return false
	}
	return val(v)
}
