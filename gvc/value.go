package main

// Values, heap objects and symbolic states.

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Val is one of: *Term, Rope (string), Ptr, SliceV, IfaceV, *FuncV, StructV (structs, arrays), TupleV.
type Val any

type ObjID int

type Ptr struct {
	obj  ObjID
	path string // field/element numbers, one rune each
	idx  *Term  // element of a byte or int sequence
}

type SliceV struct {
	obj         ObjID
	off, ln, cp *Term
	byteElem    bool
	null        bool // still the nil slice, although it has an (empty) object
	maybe       bool // may be the nil slice
}

type IfaceV struct {
	t types.Type
	v Val
}

type FuncV struct {
	fn    *ssa.Function
	binds []Val
}

type StructV []Val
type TupleV []Val

type ObjKind uint8

const (
	kCell ObjKind = iota
	kBytes
	kInts
	kErr
	kIter
	kMap
)

// ListT describes the list of the positions j-off, lo <= j < hi, with mark(arr, base, j) true, in order.
type ListT struct {
	arr, base   *Term
	lo, hi, off *Term
}

type Upd struct{ idx, val *Term }

type Obj struct {
	id    ObjID
	kind  ObjKind
	typ   types.Type
	cell  Val
	bytes Rope  // kBytes: content
	upd   []Upd // kBytes: later point updates
	// kInts: one of the alternative descriptions in lists (nil: unknown list), followed by elems
	lists  []ListT
	listOK bool // lists describes the start of the list; with no lists: it starts empty
	llen   *Term
	elems  []*Term
	moved  bool // has been extended by append: must not be written or extended again through the old slice
	what   string
	tm     *Tmpl
	keys   []Val // kMap
	vals   []Val
}

type Ghost struct {
	m    *ModeSpec
	D, N *Term
	st   *gState // nil when the outcome is known
	I    *Term
	regs []*Term
	end  *gEnd   // outcome
	pos  *Term   // position of the offending symbol, for an error
	at   *gState // where the input ended
}

type Accepted struct { // a text known to be accepted, with the positions of its pieces
	m    *ModeSpec
	D, N *Term
	tags map[string]*Term
}

type State struct {
	pc     *PC
	heap   map[ObjID]*Obj
	base   map[ObjID]*Obj // globals
	next   ObjID
	ghost  *Ghost
	top    ObjID // objects up to top are protected against writes
	allow  map[ObjID]bool
	acc    []*Accepted
	cur    map[[2]int]*Term // (list key, index term) -> frontier
	trace  []string
	parsed []string
	json   map[string]int      // outcome of decoding a text that is not known to be an encoding
	raws   map[*Term]*Term     // arrays that stand for a whole arbitrary input, with its length
	outs   map[string]*Outcome // what is known about texts
	mode   *ModeSpec           // the grammar texts are judged by
}

func (s *State) clone() *State {
	n := *s
	n.pc = s.pc.clone()
	n.heap = make(map[ObjID]*Obj, len(s.heap)+2)
	for k, v := range s.heap {
		n.heap[k] = v
	}
	if s.cur != nil {
		n.cur = make(map[[2]int]*Term, len(s.cur))
		for k, v := range s.cur {
			n.cur[k] = v
		}
	}
	n.acc = s.acc[:len(s.acc):len(s.acc)]
	n.trace = s.trace[:len(s.trace):len(s.trace)]
	n.parsed = s.parsed[:len(s.parsed):len(s.parsed)]
	return &n
}

// raw records that arr is an arbitrary text of n bytes.
func (s *State) raw(arr, n *Term) {
	m := map[*Term]*Term{arr: n}
	for k, v := range s.raws {
		m[k] = v
	}
	s.raws = m
}

func (s *State) get(id ObjID) *Obj {
	if o, ok := s.heap[id]; ok {
		return o
	}
	return s.base[id]
}
func (s *State) put(o *Obj) { s.heap[o.id] = o }
func (s *State) alloc(o Obj) *Obj {
	s.next++
	o.id = s.next
	n := new(Obj)
	*n = o
	s.heap[o.id] = n
	return n
}

func (s *State) ids() []ObjID {
	r := make([]ObjID, 0, len(s.heap))
	for id := range s.heap {
		r = append(r, id)
	}
	sort.Slice(r, func(i, j int) bool { return r[i] < r[j] })
	return r
}

func zeroVal(t types.Type) Val {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return tFalse
		case u.Kind() == types.Uint8:
			return Byte(0)
		case u.Info()&types.IsInteger != 0:
			return zero
		case u.Info()&types.IsString != 0:
			return Rope(nil)
		case u.Kind() == types.UnsafePointer || u.Kind() == types.UntypedNil:
			return Ptr{}
		}
	case *types.Pointer:
		return Ptr{}
	case *types.Slice:
		return SliceV{off: zero, ln: zero, cp: zero, byteElem: isByteT(u.Elem())}
	case *types.Interface:
		return IfaceV{}
	case *types.Signature:
		return (*FuncV)(nil)
	case *types.Struct:
		s := make(StructV, u.NumFields())
		for i := range s {
			s[i] = zeroVal(u.Field(i).Type())
		}
		return s
	case *types.Array:
		if u.Len() > 4096 {
			panic(unsupported("array of %d elements", u.Len()))
		}
		s := make(StructV, u.Len())
		for i := range s {
			s[i] = zeroVal(u.Elem())
		}
		return s
	case *types.Tuple:
		s := make(TupleV, u.Len())
		for i := range s {
			s[i] = zeroVal(u.At(i).Type())
		}
		return s
	case *types.Map, *types.Chan:
		return Ptr{}
	}
	panic(unsupported("zero value of %v", t))
}

var bytesT = types.NewSlice(types.Typ[types.Uint8])

func isByteT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}
func isIntT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0 && b.Kind() != types.Uint8
}
func isStringT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

type unsupportedErr string

// stopErr ends the verification of a lemma early.
type stopErr string

func (u unsupportedErr) Error() string { return string(u) }
func unsupported(f string, a ...any) unsupportedErr {
	return unsupportedErr("outside the verifier's reach: " + fmt.Sprintf(f, a...))
}

// ---- paths into cells

func getPath(v Val, path string) Val {
	for _, r := range path {
		v = v.(StructV)[int(r)]
	}
	return v
}

func setPath(v Val, path []rune, n Val) Val {
	if len(path) == 0 {
		return n
	}
	s := v.(StructV)
	c := make(StructV, len(s))
	copy(c, s)
	c[int(path[0])] = setPath(s[int(path[0])], path[1:], n)
	return c
}

// ---- contents of byte objects

func (o *Obj) byteAt(k *Term) *Term {
	// latest update wins
	r := o.bytes.charAt(k)
	for _, u := range o.upd {
		r = Ite(EqI(k, u.idx), u.val, r)
	}
	return r
}

// content is the whole sequence as a rope.
func (o *Obj) content() Rope {
	if len(o.upd) == 0 {
		return o.bytes
	}
	if s, ok := o.bytes.isLit(); ok {
		b := []byte(s)
		good := true
		for _, u := range o.upd {
			if u.idx.isConst() && u.val.isByteC() && u.idx.k >= 0 && u.idx.k < int64(len(b)) {
				b[u.idx.k] = byte(u.val.k)
			} else {
				good = false
			}
		}
		if good {
			return Lit(string(b))
		}
	}
	return GenR(o.bytes.length(), o.byteAt(kappa))
}

func (r Rope) charAt(k *Term) *Term {
	if k.kap || len(r) != 1 {
		return r.char(k)
	}
	return r[0].char(k)
}

// mark says whether position j of the text is a letter to be lowered: an upper-case letter at
// most two places after a percent sign, where the text starts at base.
func mark(arr, base, j *Term) *Term {
	pct := setOf('%')
	return And(In(Sel(arr, j), setRange('A', 'Z')),
		Or(And(Le(base, AddC(j, -1)), In(Sel(arr, AddC(j, -1)), pct)),
			And(Le(base, AddC(j, -2)), In(Sel(arr, AddC(j, -2)), pct))))
}

func (l ListT) key() string {
	return fmt.Sprintf("%d.%d.%d.%d.%d", l.arr.id, l.base.id, l.lo.id, l.hi.id, l.off.id)
}

func (l ListT) empty() bool { return l.arr == nil }

// count is the length of the list.
func (l ListT) count() *Term {
	v := Var("count:"+l.key(), SInt)
	if _, ok := countList[v]; !ok {
		countList[v] = l
	}
	return v
}
func (l ListT) pred(j *Term) *Term {
	return mark(l.arr, l.base, j)
}

func (o *Obj) listLen(st *State) *Term {
	n := Int(int64(len(o.elems)))
	if !o.listOK {
		if o.llen == nil {
			panic("list length")
		}
		return Add(n, o.llen)
	}
	if len(o.lists) == 0 {
		return n
	}
	for _, l := range o.lists {
		if l.empty() {
			return n
		}
	}
	c := o.lists[0].count()
	st.pc.assume(Le(zero, c))
	st.pc.assume(Le(c, Sub(o.lists[0].hi, o.lists[0].lo)))
	if st.pc.quick(Le(zero, o.lists[0].lo)) == 1 {
		st.pc.assume(Le(c, o.lists[0].hi)) // a consequence, but a difference of two
	}
	return Add(n, c)
}

func valString(v Val) string {
	switch x := v.(type) {
	case nil:
		return "<none>"
	case *Term:
		return x.String()
	case Rope:
		return x.String()
	case Ptr:
		if x.obj == 0 {
			return "nil"
		}
		return fmt.Sprintf("&%d%v%v", x.obj, []rune(x.path), x.idx)
	case SliceV:
		return fmt.Sprintf("slice(%d,%v,%v,%v)", x.obj, x.off, x.ln, x.cp)
	case IfaceV:
		return fmt.Sprintf("iface(%v,%s)", x.t, valString(x.v))
	case *FuncV:
		if x == nil {
			return "nilfunc"
		}
		return x.fn.String()
	case StructV:
		var p []string
		if len(x) > 16 {
			return "{...}"
		}
		for _, e := range x {
			p = append(p, valString(e))
		}
		return "{" + strings.Join(p, ", ") + "}"
	case TupleV:
		return valString(StructV(x))
	}
	return fmt.Sprintf("%T", v)
}

func (s *State) dump() string {
	var b strings.Builder
	var ids []int
	for id := range s.heap {
		ids = append(ids, int(id))
	}
	sort.Ints(ids)
	for _, id := range ids {
		o := s.heap[ObjID(id)]
		fmt.Fprintf(&b, "  obj %d %v %v", id, o.typ, o.kind)
		switch o.kind {
		case kCell, kErr:
			fmt.Fprintf(&b, " %s", valString(o.cell))
		case kBytes:
			fmt.Fprintf(&b, " %v upd %v", o.bytes, o.upd)
		case kInts:
			fmt.Fprintf(&b, " lists %v ok %v elems %v", o.lists, o.listOK, o.elems)
		}
		b.WriteByte('\n')
	}
	for _, f := range s.pc.facts {
		fmt.Fprintf(&b, "  fact %v\n", f)
	}
	for t, f := range s.pc.sets {
		fmt.Fprintf(&b, "  %v in %v\n", t, f)
	}
	if g := s.ghost; g != nil {
		if g.st != nil {
			fmt.Fprintf(&b, "  ghost %d after %q I=%v regs=%v\n", g.st.id, g.st.word, g.I, g.regs)
		} else {
			fmt.Fprintf(&b, "  ghost end %+v pos %v I=%v\n", *g.end, g.pos, g.I)
		}
	}
	return b.String()
}
