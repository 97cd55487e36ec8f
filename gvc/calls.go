package main

// Calls: into the repository (executed or by contract), builtins, and the assumed behaviour of the
// standard library functions the repository uses.

import (
	"fmt"
	"go/token"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (x *Exec) callInstr(st *State, fr *Frame, in *ssa.Call) []Out {
	c := in.Common()
	var args []Val
	for _, a := range c.Args {
		args = append(args, x.val(st, fr, a))
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return []Out{{st, x.builtin(st, b, args, in)}}
	}
	if c.IsInvoke() {
		recv := x.val(st, fr, c.Value).(IfaceV)
		return x.invoke(st, recv, c.Method, args, in)
	}
	if f := c.StaticCallee(); f != nil {
		var free []Val
		if mc, ok := c.Value.(*ssa.MakeClosure); ok {
			for _, b := range mc.Bindings {
				free = append(free, x.val(st, fr, b))
			}
		}
		return x.callFn(st, f, args, free, in)
	}
	fv, ok := x.val(st, fr, c.Value).(*FuncV)
	if !ok {
		panic(unsupported("call of %T", x.val(st, fr, c.Value)))
	}
	x.oblige(st, "nonnil", "function", Bool(fv != nil), in)
	if fv == nil {
		st.pc.dead = true
		return nil
	}
	return x.callFn(st, fv.fn, args, fv.binds, in)
}

func (x *Exec) invoke(st *State, recv IfaceV, m *types.Func, args []Val, in ssa.Instruction) []Out {
	x.oblige(st, "nonnil", "interface", Bool(recv.t != nil), in)
	if recv.t == nil {
		st.pc.dead = true
		return nil
	}
	if types.Identical(recv.t, extErr) {
		if m.Name() == "Error" {
			o := st.get(recv.v.(Ptr).obj)
			return []Out{{st, []Val{o.cell.(StructV)[0]}}}
		}
		panic(unsupported("method %s of an external error", m.Name()))
	}
	f := x.p.prog.LookupMethod(recv.t, m.Pkg(), m.Name())
	if f == nil {
		panic(unsupported("method %s of %v", m.Name(), recv.t))
	}
	return x.callFn(st, f, append([]Val{recv.v}, args...), nil, in)
}

func (x *Exec) callFn(st *State, f *ssa.Function, args, free []Val, in ssa.Instruction) []Out {
	if h := x.contracts[f]; h != nil {
		return h(x, st, args, in)
	}
	if f.Pkg != nil && f.Pkg == x.p.root && strings.HasPrefix(f.Name(), "gvc") && f.Parent() == nil && f.Signature.Recv() == nil {
		if h := intrinsics[f.Name()]; h != nil {
			return h(x, st, args, in)
		}
	}
	if x.p.hasSource(f) && (x.p.inRepo(f) || f.Name() != "init") {
		return x.call(st, f, args, free, in)
	}
	return x.model(st, f, args, in)
}

// extErr is the dynamic type of errors made by the standard library.
var extErr types.Type = types.NewPointer(types.NewNamed(types.NewTypeName(token.NoPos, nil, "stdError", nil), types.NewStruct(nil, nil), nil))

func (x *Exec) newError(st *State, msg Rope) Val {
	o := st.alloc(Obj{kind: kErr, cell: StructV{msg}})
	return IfaceV{t: extErr, v: Ptr{obj: o.id}}
}

var nilErr = IfaceV{}

// ---- builtins

func (x *Exec) builtin(st *State, b *ssa.Builtin, args []Val, in *ssa.Call) []Val {
	switch b.Name() {
	case "len", "cap":
		switch v := args[0].(type) {
		case Rope:
			for _, f := range v.lenFacts() {
				st.pc.assume(f)
			}
			return []Val{v.length()}
		case SliceV:
			if b.Name() == "cap" {
				if len(x.reused) > 0 {
					panic(unsupported("capacity of a slice, where buffers are used again"))
				}
				return []Val{v.cp}
			}
			return []Val{v.ln}
		case StructV:
			return []Val{Int(int64(len(v)))}
		case Ptr:
			if p, ok := in.Call.Args[0].Type().Underlying().(*types.Pointer); ok {
				return []Val{Int(p.Elem().Underlying().(*types.Array).Len())}
			}
			if v.obj == 0 {
				return []Val{zero}
			}
			return []Val{Int(int64(len(st.get(v.obj).keys)))}
		}
	case "append":
		return []Val{x.appendTo(st, args, in)}
	case "copy":
		return []Val{x.copyTo(st, args[0].(SliceV), args[1], in)}
	case "min", "max":
		r := args[0].(*Term)
		for _, a := range args[1:] {
			t := a.(*Term)
			if b.Name() == "min" {
				r = Ite(Le(t, r), t, r)
			} else {
				r = Ite(Le(r, t), t, r)
			}
		}
		return []Val{r}
	case "ssa:wrapnilchk":
		x.oblige(st, "nonnil", "", Bool(args[0].(Ptr).obj != 0), in)
		return []Val{args[0]}
	case "print", "println":
		return nil
	}
	panic(unsupported("builtin %s", b.Name()))
}

func (x *Exec) appendTo(st *State, args []Val, in *ssa.Call) Val {
	s := args[0].(SliceV)
	et := in.Type().Underlying().(*types.Slice).Elem()
	var addLen *Term
	var addRope Rope
	switch t := args[1].(type) {
	case Rope:
		addRope, addLen = t, t.length()
	case SliceV:
		addLen = t.ln
		if t.obj == 0 || t.ln == zero {
			return s
		}
		if isByteT(et) {
			addRope = x.sliceRope(st, t)
		}
	}
	if s.obj != 0 {
		x.retire(st, s, addLen, in)
	}
	total := Add(s.ln, addLen)
	cp := Fresh("cap", SInt)
	st.pc.assume(Le(total, cp))
	st.pc.assume(Le(cp, Int(1<<60)))
	x.oblige(st, "makelen", "append", Le(total, Int(1<<52)), in)
	if isByteT(et) {
		o := st.alloc(Obj{kind: kBytes, typ: in.Type(), bytes: concatR(x.sliceRope(st, s), addRope)})
		return SliceV{obj: o.id, off: zero, ln: total, cp: cp, byteElem: true}
	}
	t := args[1].(SliceV)
	to := st.get(t.obj)
	if isIntT(et) {
		var elems []*Term
		if to.kind == kCell && t.off.isConst() && t.ln.isConst() {
			for _, e := range to.cell.(StructV)[t.off.k : t.off.k+t.ln.k] {
				elems = append(elems, e.(*Term))
			}
		} else {
			panic(unsupported("append of one list to another"))
		}
		n := Obj{kind: kInts, typ: in.Type(), listOK: true}
		so := st.get(s.obj)
		if s.obj != 0 && (s.ln != zero || so.kind == kInts) {
			switch {
			case so.kind == kInts && s.off == zero && s.ln == so.listLen(st):
				n.lists, n.listOK, n.llen = so.lists, so.listOK, so.llen
				n.elems = append(so.elems[:len(so.elems):len(so.elems)], elems...)
			case so.kind == kCell && s.off.isConst() && s.ln.isConst():
				for _, e := range so.cell.(StructV)[s.off.k : s.off.k+s.ln.k] {
					n.elems = append(n.elems, e.(*Term))
				}
				n.elems = append(n.elems, elems...)
			default:
				panic(unsupported("append to part of a list"))
			}
		} else {
			n.elems = elems
		}
		o := st.alloc(n)
		return SliceV{obj: o.id, off: zero, ln: o.listLen(st), cp: cp}
	}
	var es StructV
	for _, v := range []SliceV{s, t} {
		if v.obj == 0 || v.ln == zero {
			continue
		}
		if !v.off.isConst() || !v.ln.isConst() {
			panic(unsupported("append to a slice of %v", et))
		}
		es = append(es, st.get(v.obj).cell.(StructV)[v.off.k:v.off.k+v.ln.k]...)
	}
	o := st.alloc(Obj{typ: types.NewArray(et, int64(len(es))), cell: es})
	return SliceV{obj: o.id, off: zero, ln: Int(int64(len(es))), cp: cp}
}

// retire handles what append may do to the old backing array: when there is room, it is written to.
func (x *Exec) retire(st *State, s SliceV, add *Term, in ssa.Instruction) {
	o := *st.get(s.obj)
	if o.moved {
		panic(unsupported("append to a slice that was already extended"))
	}
	if s.cp == zero || st.pc.quick(EqI(s.cp, s.ln)) == 1 {
		if s.ln == zero || st.pc.quick(Lt(zero, add)) == 1 {
			return // always reallocated (or nothing to share)
		}
	}
	if st.top > 0 && o.id <= st.top && !st.allow[o.id] {
		x.oblige(st, "frame", "append in place", Or(Le(s.cp, s.ln), Le(add, zero)), in)
		return
	}
	full := false
	switch o.kind {
	case kBytes:
		e := EqI(o.bytes.length(), Add(s.off, s.ln))
		full = st.pc.quick(e) == 1 || st.pc.entails(e)
	case kInts:
		full = s.off == zero && s.ln == o.listLen(st)
	case kCell:
		if a, ok := o.cell.(StructV); ok {
			full = Add(s.off, s.ln) == Int(int64(len(a)))
		}
	}
	if !full {
		panic(unsupported("append over the elements of a longer slice"))
	}
	o.moved = true
	st.put(&o)
}

func (x *Exec) copyTo(st *State, d SliceV, src Val, in ssa.Instruction) Val {
	var r Rope
	switch s := src.(type) {
	case Rope:
		r = s
	case SliceV:
		if s.obj == 0 || s.ln == zero {
			return zero
		}
		if !s.byteElem {
			panic(unsupported("copy of a slice"))
		}
		r = x.sliceRope(st, s)
	}
	if d.obj == 0 || d.ln == zero {
		return zero
	}
	n := r.length()
	if n != d.ln && st.pc.quick(EqI(n, d.ln)) != 1 {
		if st.pc.entails(Le(n, d.ln)) {
		} else if st.pc.entails(Le(d.ln, n)) {
			r = r.slice(st.pc, zero, d.ln)
			n = d.ln
		} else {
			panic(unsupported("copy between slices of unrelated lengths"))
		}
	}
	o := *st.get(d.obj)
	if o.kind != kBytes {
		panic(unsupported("copy into an array"))
	}
	x.frame(st, &o, in)
	if o.moved {
		panic(unsupported("copy into a slice that append may have left behind"))
	}
	old := o.content()
	o.bytes = concatR(old.slice(st.pc, zero, d.off), r, old.slice(st.pc, Add(d.off, n), old.length()))
	o.upd, o.tm = nil, nil
	st.put(&o)
	return n
}

// ---- the standard library

func (x *Exec) model(st *State, f *ssa.Function, args []Val, in ssa.Instruction) []Out {
	name := f.RelString(nil)
	if name == "init" || f.Synthetic == "package initializer" {
		return []Out{{st, nil}}
	}
	x.models[name] = true
	one := func(v Val) []Out { return []Out{{st, []Val{v}}} }
	rope := func(i int) Rope {
		switch a := args[i].(type) {
		case Rope:
			return a
		case SliceV:
			return x.sliceRope(st, a)
		}
		panic(unsupported("argument of %s", name))
	}
	bytesOf := func(r Rope) Val {
		o := st.alloc(Obj{kind: kBytes, typ: types.NewSlice(types.Typ[types.Uint8]), bytes: r})
		n := r.length()
		for _, f := range r.lenFacts() {
			st.pc.assume(f)
		}
		c := Fresh("cap", SInt)
		st.pc.assume(Le(n, c))
		return SliceV{obj: o.id, off: zero, ln: n, cp: c, byteElem: true}
	}
	if outs, ok := x.searchFn(st, name, args, in, rope); ok {
		return outs
	}
	switch name {
	case "fmt.Errorf":
		r := x.format(st, args[0], args[1], in)
		var outs []Out
		for _, o := range r {
			outs = append(outs, Out{o.st, []Val{x.newError(o.st, o.ret[0].(Rope))}})
		}
		return outs
	case "fmt.Sprintf":
		return x.format(st, args[0], args[1], in)
	case "fmt.Fprintf", "fmt.Fprint":
		w, p, ok := writer(args[0])
		if !ok {
			break
		}
		var outs []Out
		if name == "fmt.Fprintf" {
			outs = x.format(st, args[1], args[2], in)
		} else if r, ok := x.sprint(st, args[1].(SliceV)); ok {
			outs = one(r)
		} else {
			break
		}
		for i, o := range outs {
			r := o.ret[0].(Rope)
			x.builderAdd(o.st, w, r, in)
			outs[i].ret = []Val{r.length(), nilErr}
		}
		x.models[p] = true
		return outs
	case "io.WriteString":
		w, p, ok := writer(args[0])
		if !ok {
			break
		}
		r := rope(1)
		x.builderAdd(st, w, r, in)
		x.models[p] = true
		return []Out{{st, []Val{r.length(), nilErr}}}
	case "fmt.Sprint":
		if r, ok := x.sprint(st, args[0].(SliceV)); ok {
			return one(r)
		}
	case "errors.New":
		return one(x.newError(st, rope(0)))
	case "strings.ToLower", "strings.ToUpper":
		fn := "lower"
		if name == "strings.ToUpper" {
			fn = "upper"
		}
		r := rope(0)
		if s, ok := r.isLit(); ok {
			if fn == "lower" {
				return one(Lit(strings.ToLower(s)))
			}
			return one(Lit(strings.ToUpper(s)))
		}
		if x.ascii(st, r) {
			return one(mapRope(fn, r))
		}
		return one(caseR(st, name, r))
	case "bytes.ToLower", "bytes.ToUpper":
		fn := strings.ToLower(strings.TrimPrefix(name, "bytes.To"))
		r := rope(0)
		if x.ascii(st, r) {
			return one(bytesOf(mapRope(fn, r)))
		}
		return one(bytesOf(caseR(st, strings.Replace(name, "bytes", "strings", 1), r)))
	case "strings.EqualFold", "bytes.EqualFold":
		a, b := rope(0), rope(1)
		if x.ascii(st, a) && x.ascii(st, b) {
			return one(condEq(st.pc, mapRope("lower", a), mapRope("lower", b)))
		}
		return one(condEq(st.pc, AppR("fold", a), AppR("fold", b)))
	case "bytes.Equal":
		return one(condEq(st.pc, rope(0), rope(1)))
	case "bytes.Clone":
		return one(bytesOf(rope(0)))
	case "strings.Clone":
		return one(rope(0))
	case "strings.HasPrefix", "strings.HasSuffix", "bytes.HasPrefix", "bytes.HasSuffix":
		return x.hasAffix(st, rope(0), rope(1), strings.HasSuffix(name, "Prefix"), func(s *State, b bool) []Val { return []Val{Bool(b)} })
	case "strings.TrimPrefix", "strings.TrimSuffix":
		a, b := rope(0), rope(1)
		pre := name == "strings.TrimPrefix"
		return x.hasAffix(st, a, b, pre, func(s *State, ok bool) []Val {
			switch {
			case !ok:
				return []Val{a}
			case pre:
				return []Val{a.slice(s.pc, b.length(), a.length())}
			}
			return []Val{a.slice(s.pc, zero, Sub(a.length(), b.length()))}
		})
	case "strings.Join":
		s := args[0].(SliceV)
		sep := rope(1)
		if s.obj == 0 {
			return one(Rope(nil))
		}
		o := st.get(s.obj)
		if a, ok := o.cell.(StructV); ok && s.off.isConst() && s.ln.isConst() {
			var r Rope
			for i := int64(0); i < s.ln.k; i++ {
				if i > 0 {
					r = concatR(r, sep)
				}
				r = concatR(r, a[s.off.k+i].(Rope))
			}
			return one(r)
		}
	case "strings.IndexByte", "bytes.IndexByte", "strings.Index", "bytes.Index", "strings.IndexRune", "strings.LastIndexByte", "strings.LastIndex", "strings.IndexAny":
		// a search for something not fixed: only the range of the result
		r := Fresh("index", SInt)
		st.pc.assume(Le(Int(-1), r))
		st.pc.assume(Le(r, rope(0).length()))
		return one(r)
	case "strings.Count":
		r := Fresh("count", SInt)
		st.pc.assume(Le(zero, r))
		st.pc.assume(Le(r, AddC(rope(0).length(), 1)))
		return one(r)
	case "strings.Compare":
		a, b := rope(0), rope(1)
		y, n := x.fork(st, condEq(st.pc, a, b))
		var outs []Out
		if y != nil {
			outs = append(outs, Out{y, []Val{zero}})
		}
		if n != nil {
			r := Fresh("cmp", SInt)
			n.pc.assume(Or(EqI(r, Int(-1)), EqI(r, one2(1))))
			outs = append(outs, Out{n, []Val{r}})
		}
		return outs
	case "strconv.Itoa":
		return one(ItoaR(args[0].(*Term)))
	case "strconv.Quote":
		return one(AppR("quote", rope(0)))
	case "(*strings.Builder).WriteString", "(*strings.Builder).Write", "(*bytes.Buffer).WriteString", "(*bytes.Buffer).Write":
		r := rope(1)
		x.builderAdd(st, args[0], r, in)
		return []Out{{st, []Val{r.length(), nilErr}}}
	case "(*strings.Builder).WriteByte", "(*bytes.Buffer).WriteByte":
		b := args[1].(*Term)
		x.builderAdd(st, args[0], byteRope(b), in)
		return []Out{{st, []Val{nilErr}}}
	case "(*strings.Builder).WriteRune", "(*bytes.Buffer).WriteRune":
		b := args[1].(*Term)
		x.oblige(st, "ascii", "WriteRune", And(Le(zero, b), Lt(b, Int(128))), in)
		x.builderAdd(st, args[0], byteRope(I2B(b)), in)
		return []Out{{st, []Val{one2(1), nilErr}}}
	case "(*strings.Builder).Grow", "(*bytes.Buffer).Grow":
		x.oblige(st, "makelen", "Grow", And(Le(zero, args[1].(*Term)), Le(args[1].(*Term), Int(1<<52))), in)
		return []Out{{st, nil}}
	case "(*strings.Builder).Reset", "(*bytes.Buffer).Reset":
		x.builderSet(st, args[0], nil, in)
		return []Out{{st, nil}}
	case "(*strings.Builder).Len", "(*bytes.Buffer).Len":
		return one(x.builderGet(st, args[0], in).length())
	case "(*strings.Builder).String", "(*bytes.Buffer).String":
		return one(x.builderGet(st, args[0], in))
	case "(*bytes.Buffer).Bytes":
		return one(bytesOf(x.builderGet(st, args[0], in)))
	case "encoding/json.Marshal":
		v := args[0].(IfaceV)
		if r, ok := v.v.(Rope); ok {
			return []Out{{st, []Val{bytesOf(AppR("json", r)), nilErr}}}
		}
	case "encoding/json.Unmarshal":
		return x.unmarshal(st, args, in)
	}
	panic(unsupported("call of %s", name))
}

// writer is the builder behind an io.Writer.
func writer(v Val) (Val, string, bool) {
	i, ok := v.(IfaceV)
	if !ok || i.t == nil {
		return nil, "", false
	}
	switch t := i.t.String(); t {
	case "*strings.Builder", "*bytes.Buffer":
		return i.v, "(" + t + ").WriteString", true
	}
	return nil, "", false
}

func one2(k int64) *Term { return Int(k) }

func byteRope(b *Term) Rope {
	if b.isByteC() {
		return Lit(string([]byte{byte(b.k)}))
	}
	if b.op == OpSel {
		return SubR(b.args[0], b.args[1], AddC(b.args[1], 1))
	}
	return GenR(one, b)
}

// ascii: every byte of the text is below 128.
// caseR is strings.ToLower or strings.ToUpper of an arbitrary text: of it, only that the result is
// empty exactly for the empty text and that lowering twice changes nothing more is used.
func caseR(st *State, name string, r Rope) Rope {
	if len(r) == 1 && r[0].kind == SegApp && r[0].fn == name && name == "strings.ToLower" {
		return r
	}
	if len(r) == 1 && r[0].kind == SegApp && r[0].fn == "lower" && name == "strings.ToLower" {
		return r
	}
	a := AppR(name, r)
	n := a.length()
	st.pc.assume(Le(zero, n))
	st.pc.assume(Iff(EqI(n, zero), EqI(r.length(), zero)))
	st.pc.assume(Le(n, Scale(r.length(), 3))) // an invalid byte becomes U+FFFD
	return a
}

func (x *Exec) ascii(st *State, r Rope) bool {
	as := setRange(0, 127)
	for i := range r {
		s := &r[i]
		switch s.kind {
		case SegLit:
			for j := 0; j < len(s.lit); j++ {
				if s.lit[j] > 127 {
					return false
				}
			}
		case SegItoa:
		case SegApp:
			if (s.fn == "norm" || s.fn == "lower" || s.fn == "upper") && x.ascii(st, s.args[0]) {
				continue
			}
			return false
		default:
			sk := Fresh("sk", SInt)
			n := s.length()
			if !st.pc.entails(Implies(And(Le(zero, sk), Lt(sk, n)), In(s.char(sk), as))) {
				return false
			}
		}
	}
	return true
}

func (x *Exec) hasAffix(st *State, a, b Rope, pre bool, f func(s *State, b bool) []Val) []Out {
	la, lb := a.length(), b.length()
	fits := Le(lb, la)
	yes, no := x.fork(st, fits)
	var outs []Out
	if yes != nil {
		var part Rope
		if pre {
			part = a.slice(yes.pc, zero, lb)
		} else {
			part = a.slice(yes.pc, Sub(la, lb), la)
		}
		y, n := x.fork(yes, condEq(yes.pc, part, b))
		if y != nil {
			outs = append(outs, Out{y, f(y, true)})
		}
		if n != nil {
			outs = append(outs, Out{n, f(n, false)})
		}
	}
	if no != nil {
		outs = append(outs, Out{no, f(no, false)})
	}
	return outs
}

// ---- builders: struct cells whose byte slice field holds the content

func (x *Exec) builderField(st *State, v Val, in ssa.Instruction) (Ptr, SliceV) {
	p := v.(Ptr)
	x.oblige(st, "nonnil", "", Bool(p.obj != 0), in)
	if p.obj == 0 {
		panic(unsupported("nil builder"))
	}
	s := getPath(st.get(p.obj).cell, p.path).(StructV)
	for i := range s {
		if b, ok := s[i].(SliceV); ok {
			p.path += string(rune(i))
			return p, b
		}
	}
	panic(unsupported("builder"))
}

func (x *Exec) builderGet(st *State, v Val, in ssa.Instruction) Rope {
	_, s := x.builderField(st, v, in)
	return x.sliceRope(st, s)
}

func (x *Exec) builderSet(st *State, v Val, r Rope, in ssa.Instruction) {
	p, _ := x.builderField(st, v, in)
	if len(r) == 0 {
		x.store(st, p, SliceV{off: zero, ln: zero, cp: zero, byteElem: true}, in)
		return
	}
	o := st.alloc(Obj{kind: kBytes, typ: types.NewSlice(types.Typ[types.Uint8]), bytes: r})
	n := r.length()
	x.store(st, p, SliceV{obj: o.id, off: zero, ln: n, cp: n, byteElem: true}, in)
}

func (x *Exec) builderAdd(st *State, v Val, r Rope, in ssa.Instruction) {
	x.builderSet(st, v, concatR(x.builderGet(st, v, in), r), in)
}

// ---- formatting

func (x *Exec) sprint(st *State, a SliceV) (Rope, bool) {
	if a.obj == 0 {
		return nil, true
	}
	var r Rope
	for _, e := range st.get(a.obj).cell.(StructV) {
		s, ok := e.(IfaceV).v.(Rope)
		if !ok {
			return nil, false
		}
		r = concatR(r, s)
	}
	return r, true
}

func (x *Exec) format(st *State, format, argv Val, in ssa.Instruction) []Out {
	f, ok := format.(Rope).isLit()
	if !ok {
		var as []Rope
		as = append(as, format.(Rope))
		return []Out{{st, []Val{AppR("sprintf", as...)}}}
	}
	var args []IfaceV
	if a := argv.(SliceV); a.obj != 0 {
		for i := int64(0); i < a.ln.k; i++ {
			args = append(args, st.get(a.obj).cell.(StructV)[a.off.k+i].(IfaceV))
		}
	}
	type part struct {
		st *State
		r  Rope
	}
	cur := []part{{st, nil}}
	add := func(g func(s *State) []Out) {
		var next []part
		for _, p := range cur {
			for _, o := range g(p.st) {
				next = append(next, part{o.st, concatR(p.r, o.ret[0].(Rope))})
			}
		}
		cur = next
	}
	lit := func(s string) { add(func(st *State) []Out { return []Out{{st, []Val{Lit(s)}}} }) }
	n := 0
	for i := 0; i < len(f); i++ {
		j := strings.IndexByte(f[i:], '%')
		if j < 0 {
			lit(f[i:])
			break
		}
		if j > 0 {
			lit(f[i : i+j])
		}
		i += j + 1
		if i >= len(f) {
			lit("%!(NOVERB)")
			break
		}
		verb := f[i]
		if verb == '%' {
			lit("%")
			continue
		}
		if n >= len(args) {
			lit("%!" + string(verb) + "(MISSING)")
			continue
		}
		a := args[n]
		n++
		switch {
		case (verb == 'd' || verb == 'v') && a.t != nil && isIntT(a.t) && !hasMethod(a.t, "String") && !hasMethod(a.t, "Error"):
			add(func(s *State) []Out { return []Out{{s, []Val{ItoaR(a.v.(*Term))}}} })
		case verb == 'd' && a.t != nil && isIntT(a.t):
			add(func(s *State) []Out { return []Out{{s, []Val{ItoaR(a.v.(*Term))}}} })
		case (verb == 's' || verb == 'v') && a.t != nil:
			add(func(s *State) []Out { return x.stringOf(s, a, in) })
		case verb == 'q' && a.t != nil && isStringT(a.t):
			add(func(s *State) []Out { return []Out{{s, []Val{AppR("quote", a.v.(Rope))}}} })
		default:
			add(func(s *State) []Out {
				return []Out{{s, []Val{AppR("fmt" + string(verb) + strconv.Itoa(len(termList)))}}}
			})
		}
	}
	if n < len(args) {
		add(func(s *State) []Out { return []Out{{s, []Val{AppR("extra")}}} })
	}
	var outs []Out
	for _, p := range cur {
		outs = append(outs, Out{p.st, []Val{p.r}})
	}
	return outs
}

func hasMethod(t types.Type, name string) bool {
	o, _, _ := types.LookupFieldOrMethod(t, false, nil, name)
	_, ok := o.(*types.Func)
	return ok
}

func (x *Exec) stringOf(st *State, a IfaceV, in ssa.Instruction) []Out {
	if types.Identical(a.t, extErr) {
		return []Out{{st, []Val{st.get(a.v.(Ptr).obj).cell.(StructV)[0]}}}
	}
	for _, m := range []string{"Error", "String"} {
		if hasMethod(a.t, m) {
			ms := x.p.prog.MethodSets.MethodSet(a.t)
			if sel := ms.Lookup(nil, m); sel != nil {
				f := x.p.prog.MethodValue(sel)
				return x.callFn(st, f, []Val{a.v}, nil, in)
			}
		}
	}
	switch v := a.v.(type) {
	case Rope:
		return []Out{{st, []Val{v}}}
	case SliceV:
		if v.byteElem {
			return []Out{{st, []Val{x.sliceRope(st, v)}}}
		}
	}
	return []Out{{st, []Val{AppR("fmts" + strconv.Itoa(len(termList)))}}}
}

// ---- JSON: Marshal of a string is injective and Unmarshal inverts it; anything else is an error
// or some string, and an error leaves the target alone.

func (x *Exec) unmarshal(st *State, args []Val, in ssa.Instruction) []Out {
	dst := args[1].(IfaceV)
	p, ok := dst.v.(Ptr)
	if !ok {
		panic(unsupported("json.Unmarshal into %v", dst.t))
	}
	pt := dst.t.Underlying().(*types.Pointer).Elem()
	if !isStringT(pt) || hasMethod(dst.t, "UnmarshalJSON") {
		panic(unsupported("json.Unmarshal into %v", dst.t))
	}
	data := x.sliceRope(st, args[0].(SliceV))
	if len(data) == 1 && data[0].kind == SegApp && data[0].fn == "json" {
		x.store(st, p, data[0].args[0], in)
		return []Out{{st, []Val{nilErr}}}
	}
	if k := data.key(); st.json == nil || st.json[k] == 0 {
		bad := st.clone()
		bad.setJSON(k, -1, nil)
		st.setJSON(k, 1, nil)
		return []Out{x.jsonOut(bad, k, p, in), x.jsonOut(st, k, p, in)}
	}
	return []Out{x.jsonOut(st, data.key(), p, in)}
}

func (s *State) setJSON(k string, v int, _ Rope) {
	n := map[string]int{}
	for a, b := range s.json {
		n[a] = b
	}
	n[k] = v
	s.json = n
}

func (x *Exec) jsonOut(st *State, k string, p Ptr, in ssa.Instruction) Out {
	if st.json[k] < 0 {
		return Out{st, []Val{x.newError(st, AppR("jsonerror:"+k))}}
	}
	arr, n := Var("unjson:"+k, SBArr), Var("unjsonlen:"+k, SInt)
	st.pc.assume(Le(zero, n))
	st.pc.assume(Le(n, Int(maxInput)))
	st.raw(arr, n)
	x.store(st, p, SubR(arr, zero, n), in)
	return Out{st, []Val{nilErr}}
}

const maxInput = 1 << 48

func describe(v Val) string { return fmt.Sprint(valString(v)) }

// mapRope applies a byte-wise function segment by segment.
func mapRope(fn string, r Rope) Rope {
	var out Rope
	for i := range r {
		s := r[i]
		if s.kind == SegLit {
			t := strings.ToLower(s.lit)
			if fn == "upper" {
				t = strings.ToUpper(s.lit)
			}
			out = concatR(out, Lit(t))
			continue
		}
		if s.kind == SegApp && s.fn == fn {
			out = concatR(out, Rope{s})
			continue
		}
		if s.kind == SegItoa {
			out = concatR(out, Rope{s})
			continue
		}
		out = append(out, AppR(fn, Rope{s})...)
	}
	return out
}
