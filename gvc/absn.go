package main

// Generalised states. A node stands for all states that reach a cut point with the same shape (the
// same control values, objects, text structure and ghost state); its integers are holes, each
// described by equalities with the ghost position and registers, or by bounds. What a node claims
// is guessed from the first arrival, weakened by later ones, and checked on every arrival at the end.

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strconv"
	"strings"
)

type root struct {
	name string
	v    Val
	t    types.Type
	data bool
	key  any
}

type shape struct {
	st    *State
	roots []root
}

// absCtx is what all nodes of one generalisation share.
type absCtx struct {
	cur     int
	heads   []tmplCand // what cur claimed when its step began
	x       *Exec
	entry   *State
	mark    int            // terms older than this are fixed
	mod     map[ObjID]bool // older objects that change
	taint   *taintInfo
	tmpl    map[string]bool // leaves described by content templates
	invs    []*Term         // fixed integers used as bounds
	sources []Rope          // fixed texts used in content templates
	lists   []ListT         // fixed lists that may be walked through
	near    bool            // small state is carried: what it says of the last bytes matters
	ghostIn bool            // the ghost state moves
	returns bool            // describing the returns of Parse
	shapes  map[string]map[string]bool
	nodes   map[string]*node
	order   []*node
	what    string
}

type restartAbs struct{}

type cand struct {
	anchor string // "" for a fixed term
	k      int64
	t      *Term
}

type bound struct {
	up bool
	c  cand
}

type hole struct {
	path   string
	sort   Sort
	cands  []cand
	bounds []bound
	top    bool
	dead   bool // nothing is known
}

type listLeaf struct {
	cands []listCand
	upI   bool // no longer than the position reached
}
type listCand struct {
	empty         bool
	arr           *Term
	base, lo, off cand
	hi            cand
}

type curLeaf struct {
	l    ListT
	hole int
	d    int64
	dead bool
}

type tmplLeaf struct {
	path  string
	base  Rope // content at the start, for in-place changes
	inpl  bool
	cands []tmplCand
}
type tmplCand struct {
	fn   string
	src  int // -1: base
	hole int // >=0: hole; <0: cursor -1-hole
	k    int64
	down bool
	pct  bool // up to the reach of the percent signs seen
}

type node struct {
	id      int
	key     string
	tag     any
	proto   shape
	holes   []hole
	lists   []listLeaf
	tmpls   []tmplLeaf
	curs    []curLeaf
	ahead   []aheadFact
	near    []nearFact
	eqs     []ghostEq
	unmark  []textLeaf // texts with nothing to lower (by index in unmarkI)
	unmarkI []int
	plain   bool // the specific string is its own normal form (returns of Parse)
	queued  bool
	visits  int
}

// ghostEq says that two of the marked positions, or one and a fixed term, are the same number of places apart
// in all arrivals (returns of Parse only).
type ghostEq struct {
	a, b string // b "": the fixed term t
	t    *Term
	k    int64
}

func (e ghostEq) formula(anc map[string]*Term) *Term {
	t := e.t
	if e.b != "" {
		t = anc[e.b]
	}
	return EqI(anc[e.a], AddC(t, e.k))
}

func (c *absCtx) ghostEqs(a *arrival) (out []ghostEq) {
	for i, n := range a.anch {
		v := a.anc[n]
		if k, ok := a.sh.st.pc.value(v); ok {
			out = append(out, ghostEq{a: n, t: Int(k)})
			continue
		}
		if g := a.sh.st.ghost; v != g.N {
			if d := Sub(v, g.N); d.isConst() && d.k >= -64 && d.k <= 64 {
				out = append(out, ghostEq{a: n, t: g.N, k: d.k})
			} else if a.sh.st.pc.quick(EqI(d, zero)) == 1 {
				out = append(out, ghostEq{a: n, t: g.N})
			}
		}
		for _, m := range a.anch[:i] {
			if d := Sub(v, a.anc[m]); d.isConst() && d.k >= -64 && d.k <= 64 {
				out = append(out, ghostEq{a: n, b: m, k: d.k})
			} else if a.sh.st.pc.quick(EqI(d, zero)) == 1 {
				out = append(out, ghostEq{a: n, b: m})
			}
		}
	}
	return
}

// aheadFact says that the byte k places from the ghost position exists and lies in set; with the empty set,
// that there is no byte there.
type aheadFact struct {
	k   int64
	set Set256
}

// from is where the bytes ahead are counted from: the position of a running ghost state, or of the error.
func (g *Ghost) from() *Term {
	if g.st != nil {
		return g.I
	}
	return g.pos
}

// ahead lists what the path knows of the bytes the ghost state has not consumed.
func (g *Ghost) ahead(st *State) []aheadFact {
	p := g.from()
	if p == nil {
		return nil
	}
	var out []aheadFact
	lo := int64(0)
	if g.st == nil {
		lo = -6
	}
	for k := lo; k <= 8; k++ {
		if s, ok := st.pc.sets[Sel(g.D, AddC(p, k))]; ok && !s.full() && st.pc.quick(Lt(AddC(p, k), g.N)) == 1 {
			out = append(out, aheadFact{k, s})
		}
	}
	if g.st != nil {
		// the input ends within reach of a lookahead
		if d, ok := st.pc.upper(g.N, p); ok && d >= 1 && d <= 4 {
			out = append(out, aheadFact{d, Set256{}})
		}
	}
	return out
}

func (g *Ghost) aheadFormula(f aheadFact) *Term {
	i := AddC(g.from(), f.k)
	if f.set == (Set256{}) {
		return Le(g.N, i)
	}
	return And(Lt(i, g.N), In(Sel(g.D, i), f.set))
}

func (g *Ghost) assumeAhead(st *State, as []aheadFact) {
	for _, a := range as {
		if a.set == (Set256{}) {
			st.pc.assume(g.aheadFormula(a))
			continue
		}
		st.pc.assume(Lt(AddC(g.from(), a.k), g.N))
		st.pc.assume(In(Sel(g.D, AddC(g.from(), a.k)), a.set))
	}
}

// joinAhead weakens the facts to what also holds of the arrival.
func joinAhead(n, a []aheadFact) (out []aheadFact, changed bool) {
	for _, f := range n {
		ok := false
		for _, h := range a {
			if h.k == f.k && (h.set == Set256{}) == (f.set == Set256{}) {
				u := f.set.or(h.set)
				if u != f.set {
					changed = true
				}
				if !u.full() {
					out = append(out, aheadFact{f.k, u})
				}
				ok = true
			}
		}
		if !ok {
			changed = true
		}
	}
	return
}

// nearFact says that the byte k places from an index into a fixed text, if there is one, lies in set.
type nearFact struct {
	hole int
	seg  Seg
	k    int64
	set  Set256
}

func (f nearFact) at(v *Term) *Term { return AddC(v, f.k) }

func (f nearFact) byteAt(v *Term) *Term { return Sel(f.seg.arr, Add(f.seg.lo, f.at(v))) }

func (f nearFact) formula(v *Term) *Term {
	out := Lt(f.at(v), zero)
	if f.set == (Set256{}) {
		return out
	}
	return Or(out, In(f.byteAt(v), f.set))
}

// nearFacts lists what an arrival knows of the bytes just before its indices.
func (c *absCtx) nearFacts(a *arrival) (out []nearFact) {
	if !c.near || c.ghostIn || c.returns {
		return nil
	}
	for i, v := range a.w.vals {
		if v.sort != SInt || strings.ContainsAny(a.w.paths[i], ".[/") {
			continue
		}
		for _, r := range c.sources {
			if len(r) != 1 || r[0].kind != SegSub {
				continue
			}
			for k := int64(-1); k >= -3; k-- {
				f, ok := (nearFact{hole: i, seg: r[0], k: k}).of(a)
				if ok {
					out = append(out, f)
					continue
				}
				for _, f.set = range c.nearTries(f) {
					if a.sh.st.pc.entails(f.formula(v)) {
						out = append(out, f)
						break
					}
				}
			}
		}
	}
	return
}

// nearTries: what the node being left says of the byte before.
func (c *absCtx) nearTries(f nearFact) (out []Set256) {
	if c.cur < 0 || c.cur >= len(c.order) {
		return
	}
	for _, g := range c.order[c.cur].near {
		if g.seg.arr == f.seg.arr && g.k == f.k+1 {
			out = append(out, g.set)
		}
	}
	return
}

func (f nearFact) of(a *arrival) (nearFact, bool) {
	v, st := a.w.vals[f.hole], a.sh.st
	if st.pc.quick(Lt(f.at(v), zero)) == 1 {
		f.set = Set256{}
		return f, true
	}
	s, ok := st.pc.sets[f.byteAt(v)]
	f.set = s
	return f, ok && !s.full()
}

// joinNear weakens the facts to what also holds of the arrival.
func (c *absCtx) joinNear(n *node, a *arrival) (out []nearFact, ch bool) {
	for _, f := range n.near {
		v := a.w.vals[f.hole]
		if a.sh.st.pc.quick(f.formula(v)) == 1 || a.sh.st.pc.entails(f.formula(v)) {
			out = append(out, f)
			continue
		}
		ch = true
		if debugLoop {
			fmt.Fprintf(os.Stderr, "NEAR node %d from %d loses %s\n", n.id, c.cur, f.formula(v))
		}
		tries := c.nearTries(f)
		for i := range tries {
			tries[i] = tries[i].or(f.set)
		}
		if g, ok := f.of(a); ok {
			tries = append(tries, f.set.or(g.set))
		}
		for _, g := range n.near {
			if g.hole == f.hole && g.seg.arr == f.seg.arr && g.k == f.k+1 {
				tries = append(tries, f.set.or(g.set))
			}
		}
		for _, s := range tries {
			f.set = s
			if !s.full() && a.sh.st.pc.entails(f.formula(v)) {
				out = append(out, f)
				break
			}
		}
	}
	return
}

// walk state
type walker struct {
	c     *absCtx
	st    *State
	key   strings.Builder
	ids   map[ObjID]ObjID // new objects: canonical number (collecting) or new id (instantiating)
	queue []ObjID
	// collecting
	vals  []*Term
	paths []string
	lists []ObjID
	texts []textLeaf
	tms   []tmVal
	// instantiating
	inst    bool
	out     *State
	holeVal func(i int) *Term
	nh      int
	nl      int
	nt      int
	listVal func(i int, old *Obj) *Obj
	tmVal   func(i int, old Rope) (Rope, *Tmpl)
}

// textLeaf is a text in reach that is a piece of an array; its ends are the holes from hole on.
type textLeaf struct {
	hole   int
	arr    *Term
	lo, hi *Term
}

// unmarked lists the repeated pieces of the input (a field and its normal form) with nothing to lower in them.
func (a *arrival) unmarked(only []int) (out []int) {
	st := a.sh.st
	if st.ghost == nil || len(st.pc.q) == 0 {
		return nil
	}
	memo := map[[2]*Term]bool{}
	for i, t := range a.w.texts {
		if t.arr != st.ghost.D || !hasInt(only, i) && only != nil {
			continue
		}
		if only == nil {
			dup := false
			for _, s := range a.w.texts[:i] {
				dup = dup || s.arr == t.arr && s.lo == t.lo && s.hi == t.hi
			}
			for _, q := range st.pc.q {
				dup = dup || q.note == "nothing to lower" && q.lo == t.lo && q.hi == t.hi
			}
			if !dup {
				continue
			}
		}
		k := [2]*Term{t.lo, t.hi}
		ok, seen := memo[k]
		if !seen {
			ok = st.pc.entails(t.unmarkedGoal(st))
			memo[k] = ok
		}
		if ok {
			out = append(out, i)
		}
	}
	return
}

func (t textLeaf) unmarkedGoal(st *State) *Term {
	body := Not(mark(t.arr, t.lo, kappa))
	for _, q := range st.pc.q {
		if q.lo == t.lo && q.hi == t.hi && q.body == body {
			return tTrue // that is the fact itself
		}
	}
	k := Fresh("sk", SInt)
	return Or(Lt(k, t.lo), Le(t.hi, k), Not(mark(t.arr, t.lo, k)))
}

func hasInt(l []int, i int) bool {
	for _, j := range l {
		if i == j {
			return true
		}
	}
	return false
}

type tmVal struct {
	path string
	st   *State
	obj  *Obj
	rope Rope
	inpl bool
	base Rope
}

// Tmpl records that the content is fn(base) on one side of J and base on the other.
type Tmpl struct {
	fn   string
	base Rope
}

func (w *walker) k(s string, a ...any) {
	if w.inst {
		return
	}
	if len(a) == 0 {
		w.key.WriteString(s)
	} else {
		fmt.Fprintf(&w.key, s, a...)
	}
}

func (w *walker) hole(path string, v *Term) *Term {
	if w.inst {
		w.nh++
		return w.holeVal(w.nh - 1)
	}
	w.k("#")
	w.vals = append(w.vals, v)
	w.paths = append(w.paths, path)
	return v
}

func (c *absCtx) fixed(t *Term) bool {
	if t.id < c.mark {
		return true
	}
	if t.op == OpVar {
		return false
	}
	for _, a := range t.args {
		if !c.fixed(a) {
			return false
		}
	}
	return true
}

func (w *walker) ref(id ObjID) ObjID {
	if id == 0 {
		w.k("0")
		return 0
	}
	if id <= w.c.entry.next {
		w.k("o%d", id)
		return id
	}
	if n, ok := w.ids[id]; ok {
		w.k("n%d", n)
		return n
	}
	w.queue = append(w.queue, id)
	if w.inst {
		o := w.out.alloc(Obj{})
		w.ids[id] = o.id
		return o.id
	}
	n := ObjID(len(w.ids))
	w.ids[id] = n
	w.k("n%d", n)
	return id
}

func (w *walker) val(v Val, t types.Type, path string, data bool) Val {
	switch v := v.(type) {
	case nil:
		w.k("~")
		return nil
	case *Term:
		switch v.sort {
		case SBool:
			if !v.isTrue() && !v.isFalse() {
				if w.c.fixed(v) {
					w.k("b%d", v.id)
					return v
				}
				panic(unsupported("undecided truth value at a cut point (%s)", path))
			}
			w.k("%v", v.isTrue())
			return v
		case SByte:
			if v.isByteC() && !data {
				w.k("c%d", v.k)
				return v
			}
			return w.hole(path, v)
		case SInt:
			if v.isConst() && !data {
				w.k("%d", v.k)
				return v
			}
			return w.hole(path, v)
		}
		w.k("t%d", v.id)
		return v
	case Rope:
		return w.rope(v, path)
	case Ptr:
		w.k("*")
		p := Ptr{obj: w.ref(v.obj), path: v.path}
		w.k("/%q", v.path)
		if v.idx != nil {
			p.idx = w.hole(path+".idx", v.idx)
		}
		return p
	case SliceV:
		w.k("[")
		s := SliceV{obj: w.ref(v.obj), byteElem: v.byteElem, null: v.null, maybe: v.maybe}
		if v.obj == 0 {
			w.k("]")
			s.off, s.ln, s.cp = zero, zero, zero
			return s
		}
		o := w.st.get(v.obj)
		if v.null {
			if o.kind != kInts || v.cp != zero {
				panic(unsupported("nil slice"))
			}
			s.off, s.cp = zero, zero
			w.k("L0")
			return s
		}
		one := func(p string, t *Term) *Term {
			if o.kind == kCell && t.isConst() {
				w.k(",%d", t.k)
				return t
			}
			return w.hole(path+p, t)
		}
		if o.kind == kInts && v.off == zero && v.ln == o.listLen(w.st) {
			w.k("L")
			s.maybe = s.maybe || o.listOK // states that differ in this only are not told apart
			s.off = zero
			s.ln = nil // set once the list is there
			s.cp = one(".cap", v.cp)
			return s
		}
		if o.kind == kBytes && v.obj > w.c.entry.next && v.off == zero && len(o.upd) == 0 && (v.ln == o.bytes.length() || w.st.pc.quick(EqI(v.ln, o.bytes.length())) == 1) {
			// all of a text made on the way
			w.k("L")
			s.off = zero
			s.ln = nil // set once the text is there
			s.cp = one(".cap", v.cp)
			return s
		}
		s.off, s.ln, s.cp = one(".off", v.off), one(".len", v.ln), one(".cap", v.cp)
		w.k("]")
		return s
	case IfaceV:
		if v.t == nil {
			w.k("N")
			return v
		}
		w.k("I%s:", v.t.String())
		return IfaceV{t: v.t, v: w.val(v.v, v.t, path, data)}
	case *FuncV:
		if v == nil {
			w.k("F0")
			return v
		}
		w.k("F%s(", v.fn)
		n := &FuncV{fn: v.fn}
		for i, b := range v.binds {
			var bt types.Type
			if i < len(v.fn.FreeVars) {
				bt = v.fn.FreeVars[i].Type()
			}
			n.binds = append(n.binds, w.val(b, bt, path+".bind"+strconv.Itoa(i), true))
		}
		w.k(")")
		return n
	case StructV:
		w.k("{")
		n := make(StructV, len(v))
		var ft func(i int) (types.Type, bool)
		ft = func(int) (types.Type, bool) { return nil, true }
		if t != nil {
			switch u := t.Underlying().(type) {
			case *types.Struct:
				ts := t.String()
				ft = func(i int) (types.Type, bool) {
					return u.Field(i).Type(), w.c.taint == nil || w.c.taint.fields[fieldKey{ts, i}]
				}
			case *types.Array:
				ft = func(int) (types.Type, bool) { return u.Elem(), true }
			}
		}
		for i := range v {
			et, d := ft(i)
			n[i] = w.val(v[i], et, path+"."+strconv.Itoa(i), d)
			w.k(",")
		}
		w.k("}")
		return n
	case TupleV:
		return TupleV(w.val(StructV(v), nil, path, data).(StructV))
	case Unknown:
		w.k("?")
		return v
	}
	panic(fmt.Sprintf("walk %T", v))
}

// Unknown is a value nothing is known about and that must not be used.
type Unknown struct {
	why   string
	field int // of the machine, plus 1
}

func (w *walker) rope(r Rope, path string) Rope {
	if w.c.tmpl[path] {
		n, _ := w.template(nil, r, path)
		return n
	}
	start := w.key.Len()
	n := make(Rope, len(r))
	w.k("<")
	for i := range r {
		s := r[i]
		switch s.kind {
		case SegLit:
			w.k("%q", s.lit)
		case SegSub:
			if !w.inst && !w.c.fixed(s.arr) {
				w.k("S?")
				w.hole(path, s.length())
				break
			}
			if !w.c.fixed(s.arr) {
				l := w.hole(path, nil)
				s = Seg{kind: SegSub, arr: Fresh("text", SBArr), lo: zero, hi: l}
				break
			}
			w.k("S%d", s.arr.id)
			if !w.inst {
				w.texts = append(w.texts, textLeaf{len(w.vals), s.arr, s.lo, s.hi})
			}
			s.lo, s.hi = w.hole(path+".lo", s.lo), w.hole(path+".hi", s.hi)
		case SegItoa:
			w.k("I")
			s.it = w.hole(path+".itoa", s.it)
		case SegGen:
			if w.c.fixed(s.n) && w.c.fixed(s.body) {
				w.k("G%d.%d", s.n.id, s.body.id)
				break
			}
			w.k("G?")
			l := w.hole(path, s.n)
			if w.inst {
				s = Seg{kind: SegSub, arr: Fresh("text", SBArr), lo: zero, hi: l}
			}
		case SegApp:
			w.k("A%s(", s.fn)
			as := make([]Rope, len(s.args))
			for j, a := range s.args {
				as[j] = w.rope(a, path+".a")
				w.k("|")
			}
			s.args = as
			w.k(")")
		}
		n[i] = s
	}
	w.k(">")
	if !w.inst && !w.c.ghostIn && w.c.shapes != nil {
		k := w.key.String()[start:]
		m := w.c.shapes[path]
		if m == nil {
			m = map[string]bool{}
			w.c.shapes[path] = m
		}
		m[k] = true
		if len(m) > 8 && !w.c.tmpl[path] {
			w.c.tmpl[path] = true
			panic(restartAbs{})
		}
	}
	return n
}

func (w *walker) template(o *Obj, r Rope, path string) (Rope, *Tmpl) {
	if w.inst {
		w.nt++
		return w.tmVal(w.nt-1, r)
	}
	w.k("T")
	t := tmVal{path: path, st: w.st, rope: r, obj: o}
	if o != nil && o.id <= w.c.entry.next {
		t.inpl = true
		t.base = w.c.entry.get(o.id).content()
	}
	w.tms = append(w.tms, t)
	return r, nil
}

func (w *walker) object(id ObjID, path string) {
	o := w.st.get(id)
	var n Obj
	if w.inst {
		n = *o
		if m, ok := w.ids[id]; ok {
			n.id = m
		} else {
			n.id = id
		}
	}
	w.k("\n@%d:%d", len(w.ids), o.kind)
	if o.moved {
		w.k("m")
	}
	switch o.kind {
	case kCell, kErr, kIter:
		if o.typ != nil {
			w.k("%s", o.typ.String())
		}
		n.cell = w.val(o.cell, o.typ, path, true)
	case kBytes:
		if len(o.upd) > 0 && !w.c.tmpl[path] {
			w.c.tmpl[path] = true
			panic(restartAbs{})
		}
		if w.c.tmpl[path] {
			n.bytes, n.tm = w.template(o, o.bytes, path)
			n.upd = nil
		} else {
			n.tm = nil
			n.bytes = w.rope(o.bytes, path)
		}
	case kInts:
		w.k("l")
		if w.inst {
			w.nl++
			no := w.listVal(w.nl-1, o)
			no.id, no.kind, no.typ, no.moved, no.what = n.id, kInts, o.typ, o.moved, o.what
			n = *no
		} else {
			w.lists = append(w.lists, id)
		}
	case kMap:
		w.k("map%d", len(o.keys))
		for i := range o.keys {
			w.val(o.keys[i], nil, path, true)
			w.val(o.vals[i], nil, path, true)
		}
	}
	if w.inst {
		c := new(Obj)
		*c = n
		w.out.put(c)
	}
}

// run walks roots, then changed objects, then the new objects reached.
func (w *walker) run(roots []root) []root {
	w.ids = map[ObjID]ObjID{}
	res := make([]root, len(roots))
	for i, r := range roots {
		w.k("\n%s=", r.name)
		res[i] = r
		res[i].v = w.val(r.v, r.t, r.name, r.data)
	}
	var ms []ObjID
	for id := range w.c.mod {
		ms = append(ms, id)
	}
	sort.Slice(ms, func(i, j int) bool { return ms[i] < ms[j] })
	for _, id := range ms {
		w.object(id, "o"+strconv.Itoa(int(id)))
	}
	for i := 0; i < len(w.queue); i++ {
		w.object(w.queue[i], "new"+strconv.Itoa(i))
	}
	if w.inst {
		for i := range res {
			res[i].v = w.fixLens(res[i].v)
		}
		for id, o := range w.out.heap {
			if o.kind == kCell && (id > w.c.entry.next || w.c.mod[id]) {
				if needsLen(o.cell) {
					n := *o
					n.cell = w.fixLens(o.cell)
					w.out.put(&n)
				}
			}
		}
	}
	return res
}

func needsLen(v Val) bool {
	switch v := v.(type) {
	case SliceV:
		return v.ln == nil
	case StructV:
		for _, e := range v {
			if needsLen(e) {
				return true
			}
		}
	case TupleV:
		return needsLen(StructV(v))
	case IfaceV:
		return needsLen(v.v)
	}
	return false
}

func (w *walker) fixLens(v Val) Val {
	if !needsLen(v) {
		return v
	}
	switch v := v.(type) {
	case SliceV:
		if o := w.out.get(v.obj); o.kind == kBytes {
			v.ln = o.bytes.length()
		} else {
			v.ln = o.listLen(w.out)
		}
		w.out.pc.assume(Le(v.ln, v.cp))
		return v
	case StructV:
		n := make(StructV, len(v))
		for i := range v {
			n[i] = w.fixLens(v[i])
		}
		return n
	case TupleV:
		return TupleV(w.fixLens(StructV(v)).(StructV))
	case IfaceV:
		v.v = w.fixLens(v.v)
		return v
	}
	return v
}

// findMods looks for older objects that changed since entry; it restarts when there is a new one.
func (c *absCtx) findMods(st *State) {
	ch := false
	for id, o := range st.heap {
		if id <= c.entry.next && !c.mod[id] && o != c.entry.get(id) {
			c.mod[id] = true
			ch = true
		}
	}
	if ch {
		panic(restartAbs{})
	}
}

type arrival struct {
	sh   shape
	w    *walker
	key  string
	anc  map[string]*Term
	anch []string
}

func (c *absCtx) collect(sh shape, tag string) *arrival {
	c.findMods(sh.st)
	w := &walker{c: c, st: sh.st}
	a := &arrival{sh: sh, w: w}
	w.k("%s", tag)
	a.anc = map[string]*Term{}
	add := func(n string, t *Term) { a.anc[n] = t; a.anch = append(a.anch, n) }
	if g := sh.st.ghost; g != nil {
		w.k(" ghost %s %s", g.m.Name, g.sig())
		if c.ghostIn {
			switch {
			case g.st != nil || g.end.acc:
				if g.st != nil {
					for _, f := range g.ahead(sh.st) {
						w.k(" +%d:%v", f.k, f.set)
					}
				}
				add("I", g.I)
				for i, r := range g.regs {
					add("r"+strconv.Itoa(i), r)
				}
			default:
				add("pos", g.pos)
			}
		} else if c.entry.ghost == nil || g.key() != c.entry.ghost.key() {
			c.ghostIn = true
			panic(restartAbs{})
		}
	}
	w.run(sh.roots)
	if g := sh.st.ghost; g != nil && c.ghostIn && g.st == nil && !g.end.acc {
		// the code may still be behind the position of the error
		for i, v := range w.vals {
			if v.sort == SInt {
				if d := Sub(g.pos, v); d.isConst() && d.k >= 0 && d.k <= 6 {
					w.k(" %d=pos-%d", i, d.k)
				}
			}
		}
	}
	// which list cursors exist is checked per leaf; the key does not depend on them
	a.key = w.key.String()
	for i, v := range w.vals {
		a.anc["h"+strconv.Itoa(i)] = v
	}
	return a
}

func (g *Ghost) sig() string {
	if g.st != nil {
		return fmt.Sprintf("q%d", g.st.id)
	}
	if g.end.acc {
		var ks []string
		for k, v := range g.end.tags {
			ks = append(ks, fmt.Sprintf("%s=%d", k, v))
		}
		sort.Strings(ks)
		at := ""
		if g.at != nil {
			at = strconv.Itoa(g.at.id) + ":"
		}
		return "A" + at + strings.Join(ks, ",")
	}
	return fmt.Sprintf("E%d", g.end.cls)
}

func (g *Ghost) key() string {
	s := g.sig() + "@"
	for _, t := range append([]*Term{g.I, g.pos}, g.regs...) {
		if t != nil {
			s += fmt.Sprintf("%d,", t.id)
		} else {
			s += "-,"
		}
	}
	return s
}

func (cd cand) value(anc map[string]*Term) *Term {
	if cd.anchor == "" {
		return cd.t
	}
	t := anc[cd.anchor]
	if t == nil {
		return nil
	}
	return AddC(t, cd.k)
}

func (cd cand) String() string {
	if cd.anchor == "" {
		return cd.t.String()
	}
	return fmt.Sprintf("%s%+d", cd.anchor, cd.k)
}

func holeNo(anchor string) int {
	if strings.HasPrefix(anchor, "h") {
		n, _ := strconv.Atoi(anchor[1:])
		return n
	}
	return -1
}

func eqTerm(a, b *Term) *Term {
	if a.sort == SByte {
		return EqB(a, b)
	}
	return EqI(a, b)
}

func (c *absCtx) holds(st *State, t *Term) bool {
	switch st.pc.quick(t) {
	case 1:
		return true
	case 0:
		return false
	}
	if c.ghostIn {
		return false
	}
	return st.pc.entails(t)
}

// initial candidates of a hole
func (c *absCtx) cands(a *arrival, i int) []cand {
	v := a.w.vals[i]
	var cs []cand
	if v.sort == SByte {
		if c.fixed(v) {
			cs = append(cs, cand{t: v})
		}
		return cs
	}
	if c.fixed(v) {
		cs = append(cs, cand{t: v})
	}
	for _, n := range a.anch {
		if d := Sub(v, a.anc[n]); d.isConst() && d.k >= -64 && d.k <= 64 {
			cs = append(cs, cand{anchor: n, k: d.k})
		}
	}
	if g := a.sh.st.ghost; g != nil && v.isConst() && c.fixed(g.N) {
		if k, ok := a.sh.st.pc.value(g.N); ok && k == v.k {
			cs = append(cs, cand{t: g.N})
		}
	}
	if c.returns {
		for _, n := range a.anch {
			if d := Sub(v, a.anc[n]); !d.isConst() && a.sh.st.pc.quick(EqI(d, zero)) != 0 && a.sh.st.pc.entails(EqI(d, zero)) {
				cs = append(cs, cand{anchor: n})
			}
		}
	}
	for j := 0; j < i; j++ {
		if a.w.vals[j].sort != SInt {
			continue
		}
		if d := Sub(v, a.w.vals[j]); d.isConst() && d.k >= -64 && d.k <= 64 && !c.ghostIn {
			cs = append(cs, cand{anchor: "h" + strconv.Itoa(j), k: d.k})
		}
	}
	return cs
}

// pinned says that the bounds pin the length of the input down to v.
func (c *absCtx) pinned(a *arrival, v, t *Term) bool {
	g := a.sh.st.ghost
	if g == nil || t != g.N || !v.isConst() {
		return false
	}
	k, ok := a.sh.st.pc.value(t)
	return ok && k == v.k
}

func (c *absCtx) boundCands(a *arrival, i int) []bound {
	v := a.w.vals[i]
	if v.sort != SInt {
		return nil
	}
	var bs []bound
	try := func(cd cand, up bool) bool {
		t := cd.value(a.anc)
		if t == nil {
			return false
		}
		f := Le(t, v)
		if up {
			f = Le(v, t)
		}
		if c.holds(a.sh.st, f) {
			bs = append(bs, bound{up, cd})
			return true
		}
		return false
	}
	lows := []int64{1, 0, -1, -2}
	if c.near {
		lows = []int64{3, 2, 1, 0, -1, -2}
	}
	for _, k := range lows {
		if try(cand{t: Int(k)}, false) {
			break
		}
	}
	for _, t := range c.invs {
		for _, k := range []int64{-1, 0, 1} {
			if try(cand{t: AddC(t, k)}, true) {
				break
			}
		}
		try(cand{t: t}, false)
	}
	for _, n := range a.anch {
		for _, k := range []int64{-1, 0, 1} {
			if try(cand{anchor: n, k: k}, true) {
				break
			}
		}
		for _, k := range []int64{0, -1} {
			if try(cand{anchor: n, k: k}, false) {
				break
			}
		}
	}
	if !c.ghostIn {
		for j := 0; j < i; j++ {
			if a.w.vals[j].sort == SInt {
				n := "h" + strconv.Itoa(j)
				try(cand{anchor: n}, true)
				try(cand{anchor: n}, false)
			}
		}
	}
	return bs
}

// merge weakens the node so that the arrival is covered; it reports whether it changed.
func (c *absCtx) merge(n *node, a *arrival) bool {
	if len(n.holes) != len(a.w.vals) {
		panic("node shape")
	}
	ch := false
	for i := range n.holes {
		h := &n.holes[i]
		v := a.w.vals[i]
		if !h.top {
			var keep []cand
			for _, cd := range h.cands {
				t := cd.value(a.anc)
				if t != nil && t.sort == v.sort && (t == v || a.sh.st.pc.quick(eqTerm(v, t)) == 1 || c.pinned(a, v, t) || c.returns && a.sh.st.pc.entails(eqTerm(v, t))) {
					keep = append(keep, cd)
				}
			}
			if len(keep) == 0 {
				for _, cd := range h.cands {
					if t := cd.value(a.anc); t != nil && t.sort == v.sort && a.sh.st.pc.entails(eqTerm(v, t)) {
						keep = append(keep, cd)
					}
				}
			}
			if len(keep) != len(h.cands) {
				ch = true
				h.cands = keep
			}
			if len(keep) == 0 {
				h.top = true
				h.bounds = c.boundCands(a, i)
			}
			continue
		}
		var keep []bound
		for _, b := range h.bounds {
			t := b.c.value(a.anc)
			f := Le(t, v)
			if b.up {
				f = Le(v, t)
			}
			if c.holds(a.sh.st, f) {
				keep = append(keep, b)
			} else {
				// a slightly weaker bound may do
				k := int64(1)
				if !b.up {
					k = -1
				}
				if b.c.anchor == "" && b.c.t.isConst() && !b.up {
					for q := b.c.t.k - 1; q >= -2; q-- {
						if c.holds(a.sh.st, Le(Int(q), v)) {
							keep = append(keep, bound{false, cand{t: Int(q)}})
							break
						}
					}
				}
				if b.c.anchor != "" && b.c.k*k < 1 {
					w := b
					w.c.k += k
					t = w.c.value(a.anc)
					f = Le(t, v)
					if w.up {
						f = Le(v, t)
					}
					if c.holds(a.sh.st, f) {
						keep = append(keep, w)
					}
				}
				ch = true
			}
		}
		h.bounds = keep
	}
	if len(n.ahead) > 0 && a.sh.st.ghost != nil {
		as, changed := joinAhead(n.ahead, a.sh.st.ghost.ahead(a.sh.st))
		if changed {
			n.ahead = as
			ch = true
		}
	}
	if len(n.near) > 0 {
		fs, changed := c.joinNear(n, a)
		if changed {
			n.near = fs
			ch = true
		}
	}
	for i := range n.lists {
		l := &n.lists[i]
		o := a.sh.st.get(a.w.lists[i])
		var keep []listCand
		for _, lc := range l.cands {
			if c.listMatch(a, o, lc) {
				keep = append(keep, lc)
			}
		}
		if len(keep) != len(l.cands) {
			if len(keep) == 0 && debugLoop && os.Getenv("GVC_NODES") != "" {
				fmt.Fprintf(os.Stderr, "LOST list of node %d had %+v from %d\n%s", n.id, l.cands, c.cur, a.sh.st.dump())
			}
			ch = true
			l.cands = keep
		}
		if l.upI && !c.listUp(a, o) {
			ch = true
			l.upI = false
		}
	}
	var eqs []ghostEq
	for _, e := range n.eqs {
		if f := e.formula(a.anc); a.sh.st.pc.quick(f) == 1 || a.sh.st.pc.entails(f) {
			eqs = append(eqs, e)
		} else if debugLoop && os.Getenv("GVC_NODES") != "" {
			fmt.Fprintf(os.Stderr, "LOST eq of node %d: %s\n%s%s", n.id, f, a.key, a.sh.st.dump())
		}
	}
	if len(eqs) != len(n.eqs) {
		ch = true
		n.eqs = eqs
	}
	if len(n.unmarkI) > 0 {
		if u := a.unmarked(n.unmarkI); len(u) != len(n.unmarkI) {
			if debugLoop {
				fmt.Fprintf(os.Stderr, "LOST UNMARKED node %d %v from %d\n%s", n.id, u, c.cur, a.sh.st.dump())
			}
			n.unmarkI = u
			ch = true
		}
	}
	if n.plain && !a.plain() {
		n.plain = false
		ch = true
	}
	for i := range n.curs {
		cu := &n.curs[i]
		if !cu.dead && c.cursor(a, cu) == nil {
			cu.dead = true
			ch = true
		}
	}
	for i := range n.tmpls {
		t := &n.tmpls[i]
		for len(t.cands) > 0 && !c.stale() && !c.tmplMatch(a, n, i, t.cands[0]) {
			t.cands = t.cands[1:]
			ch = true
		}
	}
	return ch
}

// heads are the templates a node claims at present.
func (n *node) heads() []tmplCand {
	var out []tmplCand
	for i := range n.tmpls {
		tc := tmplCand{hole: -1000}
		if t := &n.tmpls[i]; len(t.cands) > 0 {
			tc = t.cands[0]
		}
		out = append(out, tc)
	}
	return out
}

// stale says that the step being looked at started from templates that have been given up since: what it
// arrives with says nothing about the next candidates. (The node is waiting to be processed again.)
func (c *absCtx) stale() bool {
	if c.cur < 0 || c.cur >= len(c.order) {
		return false
	}
	h := c.order[c.cur].heads()
	for i := range h {
		if i >= len(c.heads) || h[i] != c.heads[i] {
			return true
		}
	}
	return false
}

func (c *absCtx) cursor(a *arrival, cu *curLeaf) *Term {
	idx := AddC(a.w.vals[cu.hole], cu.d)
	if j, ok := a.sh.st.cur[[2]int{listID(cu.l), idx.id}]; ok {
		return j
	}
	if idx == zero {
		return cu.l.lo
	}
	if idx == cu.l.count() {
		return cu.l.hi
	}
	return nil
}

// newNode makes a node from its first arrival.
func (c *absCtx) newNode(a *arrival, tag any) *node {
	n := &node{id: len(c.order), key: a.key, proto: a.sh, tag: tag}
	n.proto.st = a.sh.st.clone()
	for i := range a.w.vals {
		h := hole{path: a.w.paths[i], sort: a.w.vals[i].sort, cands: c.cands(a, i)}
		if len(h.cands) == 0 {
			h.top = true
			h.bounds = c.boundCands(a, i)
		}
		n.holes = append(n.holes, h)
	}
	for _, id := range a.w.lists {
		o := a.sh.st.get(id)
		n.lists = append(n.lists, listLeaf{cands: c.listCands(a, o), upI: c.listUp(a, o)})
	}
	for _, l := range c.lists {
		for i := range a.w.vals {
			if a.w.vals[i].sort != SInt {
				continue
			}
			for d := int64(0); d <= 1; d++ {
				cu := curLeaf{l: l, hole: i, d: d}
				if c.cursor(a, &cu) != nil {
					n.curs = append(n.curs, cu)
				}
			}
		}
	}
	for i := range a.w.tms {
		tv := a.w.tms[i]
		t := tmplLeaf{path: tv.path, base: tv.base, inpl: tv.inpl}
		n.tmpls = append(n.tmpls, t)
		for _, tc := range c.tmplCands(a, n, &t) {
			if c.tmplMatch(a, n, i, tc) {
				n.tmpls[i].cands = append(n.tmpls[i].cands, tc)
			}
		}
	}
	if g := a.sh.st.ghost; g != nil && c.ghostIn {
		n.ahead = g.ahead(a.sh.st)
	}
	n.near = c.nearFacts(a)
	if debugLoop {
		for _, f := range n.near {
			fmt.Fprintf(os.Stderr, "NEAR node %d from %d has %s\n", n.id, c.cur, f.formula(a.w.vals[f.hole]))
		}
	}
	n.plain = c.returns && a.plain()
	if debugLoop && c.returns {
		fmt.Fprintf(os.Stderr, "PLAIN node %d %v\n", n.id, n.plain)
	}
	if !c.returns {
		n.unmark = a.w.texts
		n.unmarkI = a.unmarked(nil)
		if debugLoop && len(n.unmarkI) > 0 {
			fmt.Fprintf(os.Stderr, "UNMARKED node %d %v\n", n.id, n.unmarkI)
		}
	}
	if g := a.sh.st.ghost; c.returns || g != nil && g.st == nil && c.ghostIn {
		n.eqs = c.ghostEqs(a)
		if debugLoop {
			fmt.Fprintf(os.Stderr, "EQS node %d %v anch %v\n", n.id, n.eqs, a.anch)
		}
	}
	c.nodes[a.key] = n
	c.order = append(c.order, n)
	return n
}

// instantiate gives the node's generic state.
func (c *absCtx) instantiate(n *node) (*State, []root, []*Term) {
	st := c.entry.clone()
	anc := map[string]*Term{}
	g0 := n.proto.st.ghost
	if g0 != nil && c.ghostIn {
		st.ghost = g0.generic(st, anc, n.fixedPos("I"), n.fixedPos("pos"))
		st.ghost.assumeAhead(st, n.ahead)
	}
	vals := make([]*Term, len(n.holes))
	for i := range n.holes {
		h := &n.holes[i]
		var v *Term
		if !h.top {
			for _, cd := range h.cands {
				t := cd.value(anc)
				if t == nil {
					continue
				}
				if v == nil {
					v = t
				} else if t != v {
					st.pc.assume(eqTerm(v, t))
				}
			}
		}
		if v == nil {
			v = Fresh("h", h.sort)
		}
		vals[i] = v
		anc["h"+strconv.Itoa(i)] = v
		if h.top {
			for _, b := range h.bounds {
				t := b.c.value(anc)
				if b.up {
					st.pc.assume(Le(v, t))
				} else {
					st.pc.assume(Le(t, v))
				}
			}
		}
	}
	for _, f := range n.near {
		st.pc.assume(f.formula(vals[f.hole]))
	}
	for _, e := range n.eqs {
		st.pc.assume(e.formula(anc))
	}
	for _, i := range n.unmarkI {
		t := n.unmark[i]
		st.pc.q = append(st.pc.q, QFact{lo: vals[t.hole], hi: vals[t.hole+1], body: Not(mark(t.arr, vals[t.hole], kappa)), note: "nothing to lower"})
	}
	st.acc = n.proto.st.acc
	curs := make([]*Term, len(n.curs))
	for i, cu := range n.curs {
		if cu.dead {
			continue
		}
		j := Fresh("J", SInt)
		st.pc.assume(Le(cu.l.lo, j))
		st.pc.assume(Le(j, cu.l.hi))
		if st.cur == nil {
			st.cur = map[[2]int]*Term{}
		}
		st.cur[[2]int{listID(cu.l), AddC(vals[cu.hole], cu.d).id}] = j
		curs[i] = j
	}
	w := &walker{c: c, st: n.proto.st, inst: true, out: st}
	w.holeVal = func(i int) *Term { return vals[i] }
	w.listVal = func(i int, old *Obj) *Obj {
		o := &Obj{}
		for _, lc := range n.lists[i].cands {
			if lc.empty {
				o.lists = append(o.lists, ListT{})
				continue
			}
			o.lists = append(o.lists, ListT{arr: lc.arr, base: lc.base.value(anc), lo: lc.lo.value(anc), hi: lc.hi.value(anc), off: lc.off.value(anc)})
		}
		o.listOK = len(o.lists) > 0
		noMarks(st, o)
		if !o.listOK {
			o.llen = Fresh("llen", SInt)
			st.pc.assume(Le(zero, o.llen))
			st.pc.assume(Le(o.llen, Int(1<<51)))
			if n.lists[i].upI {
				st.pc.assume(Le(o.llen, anc["I"]))
			}
		}
		return o
	}
	w.tmVal = func(i int, old Rope) (Rope, *Tmpl) {
		t := &n.tmpls[i]
		if len(t.cands) == 0 {
			var ln *Term
			if t.inpl {
				ln = t.base.length()
			} else {
				ln = Fresh("n", SInt)
				st.pc.assume(Le(zero, ln))
				st.pc.assume(Le(ln, Int(1<<51)))
			}
			return SubR(Fresh("text", SBArr), zero, ln), nil
		}
		tc := t.cands[0]
		return c.tmplRope(t, tc, func(h int) *Term {
			if h >= 0 {
				return vals[h]
			}
			return Sub(curs[-1-h], n.curs[-1-h].l.off)
		}), &Tmpl{fn: tc.fn, base: c.tmplBase(t, tc)}
	}
	roots := w.run(n.proto.roots)
	return st, roots, vals
}

// fixedPos is the ghost position when the node ties it to a fixed term.
func (n *node) fixedPos(anchor string) *Term {
	for i := range n.holes {
		if h := &n.holes[i]; !h.top {
			var t *Term
			var k int64
			ok := false
			for _, cd := range h.cands {
				if cd.anchor == "" {
					t = cd.t
				} else if cd.anchor == anchor {
					k, ok = cd.k, true
				}
			}
			if t != nil && ok {
				return AddC(t, -k)
			}
		}
	}
	return nil
}

// generic makes the ghost state with fresh position and registers.
func (g *Ghost) generic(st *State, anc map[string]*Term, at, pos *Term) *Ghost {
	n := &Ghost{m: g.m, D: g.D, N: g.N, st: g.st, end: g.end}
	vals := map[int]*Term{}
	rel := func(k int, name string) *Term { return Fresh(name, SInt) }
	if s := g.st; s != nil {
		// exact differences are built into the terms
		rel = func(k int, name string) *Term {
			for j := 0; j < len(s.ub); j++ {
				if v := vals[j]; v != nil && s.ub[k][j] < ginf && s.ub[k][j] == -s.ub[j][k] {
					return AddC(v, s.ub[k][j])
				}
			}
			return Fresh(name, SInt)
		}
		vals[0] = zero
	}
	switch {
	case g.st != nil:
		if n.I = at; at == nil {
			n.I = rel(1, "I")
		}
		vals[1] = n.I
		anc["I"] = n.I
		st.pc.assume(Le(n.I, n.N))
	case g.end.acc:
		n.I = n.N
		anc["I"] = n.N
	default:
		if n.pos = pos; pos == nil {
			n.pos = Fresh("pos", SInt)
		}
		anc["pos"] = n.pos
		st.pc.assume(Le(zero, n.pos))
		st.pc.assume(Le(n.pos, n.N))
		return n
	}
	for i := range g.regs {
		r := rel(i+2, "r")
		vals[i+2] = r
		n.regs = append(n.regs, r)
		anc["r"+strconv.Itoa(i)] = r
	}
	if g.st != nil {
		n.facts(st, g.st)
	} else if g.at != nil {
		n.facts(st, g.at)
		n.at = g.at
	}
	return n
}

// facts adds what the ghost state says about its position, registers and the last bytes.
func (g *Ghost) facts(st *State, s *gState) {
	at := func(k int) *Term {
		switch k {
		case 0:
			return zero
		case 1:
			return g.I
		}
		return g.regs[k-2]
	}
	for _, e := range s.tight() {
		st.pc.assume(Le(Sub(at(e[0]), at(e[1])), Int(s.ub[e[0]][e[1]])))
	}
	for k := range s.last {
		if s.lastOK[k] && !s.last[k].full() {
			st.pc.sets[Sel(g.D, AddC(g.I, -int64(k)-1))] = s.last[k]
		}
	}
}

// ---- lists of positions

func (c *absCtx) listCands(a *arrival, o *Obj) []listCand {
	var out []listCand
	try := func(lc listCand) {
		if c.listMatch(a, o, lc) {
			out = append(out, lc)
		}
	}
	try(listCand{empty: true})
	g := a.sh.st.ghost
	if g == nil || !c.ghostIn {
		return out
	}
	var los []string
	for _, n := range a.anch {
		if n[0] == 'r' {
			los = append(los, n)
		}
	}
	for _, lo := range los {
		for _, hi := range a.anch {
			if hi == lo || hi == "pos" {
				continue
			}
			cd := cand{anchor: lo}
			try(listCand{arr: g.D, base: cd, lo: cd, off: cd, hi: cand{anchor: hi}})
		}
	}
	return out
}

// plain reports whether nothing in the specific string of the accepted text is to be lowered.
func (a *arrival) plain() bool {
	t := a.sh.st.plainGoal()
	return t != nil && a.sh.st.pc.entails(t)
}

func (s *State) plainGoal() *Term {
	g := s.ghost
	if g == nil || g.st != nil || !g.end.acc || len(g.regs) == 0 {
		return nil
	}
	var lo, hi *Term
	for i, t := range strings.Split(tagSig(g.end.tags), ",") {
		switch t {
		case "ss0":
			lo = g.regs[i]
		case "ss1":
			hi = g.regs[i]
		}
	}
	if lo == nil || hi == nil {
		return nil
	}
	k := Fresh("sk", SInt)
	return Or(Lt(k, lo), Le(hi, k), Not(mark(g.D, lo, k)))
}

// noMarks adds what it means that a list is both empty and the list of the marks in a range.
func noMarks(st *State, o *Obj) {
	if len(o.elems) > 0 {
		return
	}
	empty := len(o.lists) == 0
	for _, l := range o.lists {
		empty = empty || l.empty()
	}
	if !empty {
		return
	}
	for _, l := range o.lists {
		if !l.empty() {
			st.pc.q = append(st.pc.q, QFact{lo: l.lo, hi: l.hi, body: Not(l.pred(kappa)), note: "no list elements"})
		}
	}
}

func (c *absCtx) listUp(a *arrival, o *Obj) bool {
	i := a.anc["I"]
	return i != nil && c.holds(a.sh.st, Le(o.listLen(a.sh.st), i))
}

// listMatch reports whether the list is described by the candidate.
func (c *absCtx) listMatch(a *arrival, o *Obj, lc listCand) bool {
	if !o.listOK {
		return false
	}
	st := a.sh.st
	descs := o.lists
	if len(descs) == 0 {
		descs = []ListT{{}}
	}
	for _, d := range descs {
		if lc.empty {
			if d.empty() && len(o.elems) == 0 {
				return true
			}
			continue
		}
		base, lo, hi, off := lc.base.value(a.anc), lc.lo.value(a.anc), lc.hi.value(a.anc), lc.off.value(a.anc)
		if base == nil || lo == nil || hi == nil || off == nil {
			return false
		}
		from := lo
		if !d.empty() {
			eq := func(x, y *Term) bool { return x == y || st.pc.quick(EqI(x, y)) == 1 }
			if d.arr != lc.arr || !eq(d.base, base) || !eq(d.lo, lo) || !eq(d.off, off) {
				continue
			}
			from = d.hi
		}
		if diff := Sub(hi, from); diff.isConst() && diff.k >= -8 && diff.k <= 16 {
			el := o.elems
			ok := true
			for j := int64(0); j < diff.k && ok; j++ {
				p := AddC(from, j)
				switch st.pc.quick(mark(lc.arr, base, p)) {
				case 1:
					if len(el) == 0 || st.pc.quick(EqI(el[0], Sub(p, off))) != 1 {
						ok = false
					} else {
						el = el[1:]
					}
				case 0:
				default:
					ok = false
				}
			}
			for j := diff.k; j < 0 && ok; j++ {
				if st.pc.quick(mark(lc.arr, base, AddC(from, j))) != 0 {
					ok = false
				}
			}
			if ok && len(el) == 0 {
				return true
			}
		}
	}
	return false
}

// ---- content templates

func (c *absCtx) tmplCands(a *arrival, n *node, t *tmplLeaf) []tmplCand {
	var out []tmplCand
	try := func(s int, fns []string, pct bool) {
		for _, f := range fns {
			for i := range n.curs {
				if !n.curs[i].dead {
					out = append(out, tmplCand{fn: f, src: s, hole: -1 - i})
					if t.inpl {
						out = append(out, tmplCand{fn: f, src: s, hole: -1 - i, down: true})
					}
				}
			}
			for i := range n.holes {
				if n.holes[i].sort != SInt {
					continue
				}
				for _, k := range []int64{0, 1, -1, 2} {
					out = append(out, tmplCand{fn: f, src: s, hole: i, k: k})
					if t.inpl {
						out = append(out, tmplCand{fn: f, src: s, hole: i, k: k, down: true})
					}
					if pct && f == "norm" {
						out = append(out, tmplCand{fn: f, src: s, hole: i, k: k, pct: true})
					}
				}
			}
		}
	}
	if t.inpl {
		try(-1, []string{"norm", "lower", "upper"}, true)
	}
	for i := range c.sources {
		if t.inpl && c.sources[i].key() == t.base.key() {
			continue
		}
		try(i, []string{"", "norm", "lower", "upper"}, false)
	}
	return out
}

func (c *absCtx) tmplBase(t *tmplLeaf, tc tmplCand) Rope {
	if tc.src < 0 {
		return t.base
	}
	return c.sources[tc.src]
}

func applyFn(fn string, b Rope) Rope {
	if fn == "" {
		return b
	}
	if fn == "norm" {
		return normR(b)
	}
	return mapRope(fn, b)
}

func (c *absCtx) tmplRope(t *tmplLeaf, tc tmplCand, at func(int) *Term) Rope {
	b := c.tmplBase(t, tc)
	f := applyFn(tc.fn, b)
	j := AddC(at(tc.hole), tc.k)
	if !t.inpl {
		if j == zero {
			return nil
		}
		return Rope{{kind: SegGen, n: j, body: f.char(kappa)}}
	}
	cond := Lt(kappa, j)
	if tc.down {
		cond = Le(j, kappa)
	}
	rest := t.base.char(kappa)
	if tc.pct {
		// percent signs before j have been seen: their digits reach to j+1
		seen := And(EqI(kappa, AddC(j, 1)), Le(one, j), In(b.char(AddC(j, -1)), setOf('%')))
		cond = Le(kappa, j)
		rest = Ite(seen, mapRope("lower", b).char(kappa), rest)
	}
	return Rope{{kind: SegGen, n: t.base.length(), body: Ite(cond, f.char(kappa), rest)}}
}

func (c *absCtx) tmplMatch(a *arrival, n *node, i int, tc tmplCand) bool {
	t := &n.tmpls[i]
	tv := a.w.tms[i]
	var bad bool
	want := c.tmplRope(t, tc, func(h int) *Term {
		if h >= 0 {
			return a.w.vals[h]
		}
		cu := &n.curs[-1-h]
		if cu.dead {
			bad = true
			return zero
		}
		j := c.cursor(a, cu)
		if j == nil {
			bad = true
			return zero
		}
		return Sub(j, cu.l.off)
	})
	if bad {
		return false
	}
	st := a.sh.st
	got := tv.rope
	char := func(k *Term) *Term { return got.char(k) }
	if tv.obj != nil {
		got = tv.obj.bytes
		char = tv.obj.byteAt
	}
	gl, wl := got.length(), want.length()
	if gl != wl && !st.pc.entails(EqI(gl, wl)) {
		return false
	}
	sk := Fresh("sk", SInt)
	ok := st.pc.entails(Implies(And(Le(zero, sk), Lt(sk, wl)), EqB(char(sk), want.char(sk))))
	if debugTmpl && !ok {
		fmt.Fprintf(os.Stderr, "TMPL %d %s %v fails: %v\n  against %v\n", i, t.path, tc, char(sk), want.char(sk))
		for _, f := range st.pc.facts {
			fmt.Fprintf(os.Stderr, "    %v\n", f)
		}
	}
	return ok
}

var debugTmpl = os.Getenv("GVC_TMPL") != ""
