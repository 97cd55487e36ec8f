package main

// Terms: hash-consed expressions over mathematical integers, booleans, bytes
// (8-bit vectors) and arrays. Integer terms are kept in linear normal form;
// functions of one byte are kept as 256-entry tables, so that conditions on
// one byte of the input are sets of byte values.

import (
	"fmt"
	"sort"
	"strconv"
	"strings"
)

type Sort uint8

const (
	SInt Sort = iota
	SBool
	SByte
	SBArr // Int -> Byte
	SIArr // Int -> Int
)

type Op uint8

const (
	OpVar Op = iota
	OpInt
	OpLin // sum coef[i]*args[i] + k
	OpMul // non-linear
	OpDiv
	OpMod
	OpSel
	OpStore
	OpB2I
	OpI2B
	OpByte
	OpBFn  // table applied to a byte
	OpBBin // binary byte op (name)
	OpIte
	OpTrue
	OpFalse
	OpNot
	OpAnd
	OpOr
	OpLe0 // args[0] <= 0
	OpEq0 // args[0] == 0
	OpIn  // args[0] in set
	OpEqB // bytes equal
)

type Set256 [4]uint64

func (s *Set256) has(b byte) bool { return s[b>>6]>>(b&63)&1 == 1 }
func (s *Set256) add(b byte)      { s[b>>6] |= 1 << (b & 63) }
func (s Set256) and(t Set256) Set256 {
	for i := range s {
		s[i] &= t[i]
	}
	return s
}
func (s Set256) or(t Set256) Set256 {
	for i := range s {
		s[i] |= t[i]
	}
	return s
}
func (s Set256) not() Set256 {
	for i := range s {
		s[i] = ^s[i]
	}
	return s
}
func (s Set256) empty() bool { return s == Set256{} }
func (s Set256) full() bool {
	return s == Set256{^uint64(0), ^uint64(0), ^uint64(0), ^uint64(0)}
}
func (s Set256) sub(t Set256) bool { return s.and(t) == s }
func (s Set256) count() int {
	n := 0
	for i := 0; i < 256; i++ {
		if s.has(byte(i)) {
			n++
		}
	}
	return n
}
func (s Set256) first() byte {
	for i := 0; i < 256; i++ {
		if s.has(byte(i)) {
			return byte(i)
		}
	}
	return 0
}

// ranges returns the maximal intervals of the set.
func (s Set256) ranges() [][2]int {
	var r [][2]int
	for i := 0; i < 256; i++ {
		if s.has(byte(i)) {
			j := i
			for j < 255 && s.has(byte(j+1)) {
				j++
			}
			r = append(r, [2]int{i, j})
			i = j
		}
	}
	return r
}
func (s Set256) String() string {
	var b strings.Builder
	for _, r := range s.ranges() {
		if r[0] == r[1] {
			fmt.Fprintf(&b, "%q ", rune(r[0]))
		} else {
			fmt.Fprintf(&b, "%q-%q ", rune(r[0]), rune(r[1]))
		}
	}
	return "{" + strings.TrimSpace(b.String()) + "}"
}

func fullSet() Set256 { return Set256{}.not() }
func setOf(bs ...byte) Set256 {
	var s Set256
	for _, b := range bs {
		s.add(b)
	}
	return s
}
func setRange(a, b byte) Set256 {
	var s Set256
	for i := int(a); i <= int(b); i++ {
		s.add(byte(i))
	}
	return s
}

type Term struct {
	id   int
	op   Op
	sort Sort
	args []*Term
	coef []int64
	k    int64
	name string
	tab  *[256]byte
	set  Set256
	kap  bool // mentions the bound variable
}

var (
	termTab  = map[string]*Term{}
	termList []*Term
)

func mk(t Term) *Term {
	var sb strings.Builder
	sb.Grow(64)
	sb.WriteByte(byte(t.op) + 'A')
	sb.WriteByte(byte(t.sort) + 'a')
	var buf [24]byte
	for i, a := range t.args {
		if t.coef != nil {
			sb.Write(strconv.AppendInt(buf[:0], t.coef[i], 36))
			sb.WriteByte('*')
		}
		sb.Write(strconv.AppendInt(buf[:0], int64(a.id), 36))
		sb.WriteByte(',')
	}
	sb.WriteByte(';')
	sb.Write(strconv.AppendInt(buf[:0], t.k, 36))
	sb.WriteByte(';')
	sb.WriteString(t.name)
	if t.tab != nil {
		sb.Write(t.tab[:])
	}
	if t.op == OpIn {
		for _, w := range t.set {
			sb.Write(strconv.AppendUint(buf[:0], w, 36))
			sb.WriteByte('.')
		}
	}
	key := sb.String()
	if x, ok := termTab[key]; ok {
		return x
	}
	n := new(Term)
	*n = t
	n.id = len(termList)
	for _, a := range t.args {
		if a.kap {
			n.kap = true
		}
	}
	termList = append(termList, n)
	termTab[key] = n
	return n
}

var freshN = map[string]int{}

func Var(name string, s Sort) *Term { return mk(Term{op: OpVar, sort: s, name: name}) }
func Fresh(name string, s Sort) *Term {
	freshN[name]++
	return Var(fmt.Sprintf("%s!%d", name, freshN[name]), s)
}

var kappa = func() *Term {
	t := mk(Term{op: OpVar, sort: SInt, name: "κ"})
	t.kap = true
	return t
}()

var (
	tTrue  = mk(Term{op: OpTrue, sort: SBool})
	tFalse = mk(Term{op: OpFalse, sort: SBool})
	zero   = Int(0)
	one    = Int(1)
)

func Int(k int64) *Term { return mk(Term{op: OpInt, sort: SInt, k: k}) }
func Bool(b bool) *Term {
	if b {
		return tTrue
	}
	return tFalse
}
func Byte(b byte) *Term       { return mk(Term{op: OpByte, sort: SByte, k: int64(b)}) }
func (t *Term) isConst() bool { return t.op == OpInt }
func (t *Term) isByteC() bool { return t.op == OpByte }
func (t *Term) isTrue() bool  { return t == tTrue }
func (t *Term) isFalse() bool { return t == tFalse }
func (t *Term) val() int64    { return t.k }

// linear combination helpers

type lin struct {
	m map[*Term]int64
	k int64
}

func toLin(t *Term) lin {
	switch t.op {
	case OpInt:
		return lin{nil, t.k}
	case OpLin:
		m := make(map[*Term]int64, len(t.args))
		for i, a := range t.args {
			m[a] = t.coef[i]
		}
		return lin{m, t.k}
	}
	return lin{map[*Term]int64{t: 1}, 0}
}

func fromLin(l lin) *Term {
	var as []*Term
	for a, c := range l.m {
		if c != 0 {
			as = append(as, a)
		}
	}
	if len(as) == 0 {
		return Int(l.k)
	}
	sort.Slice(as, func(i, j int) bool { return as[i].id < as[j].id })
	if len(as) == 1 && l.m[as[0]] == 1 && l.k == 0 {
		return as[0]
	}
	cs := make([]int64, len(as))
	for i, a := range as {
		cs[i] = l.m[a]
	}
	return mk(Term{op: OpLin, sort: SInt, args: as, coef: cs, k: l.k})
}

func addScaled(a, b *Term, s int64) *Term {
	if b.op == OpInt {
		if a.op == OpInt {
			return Int(a.k + s*b.k)
		}
		if b.k == 0 {
			return a
		}
	}
	x, y := toLin(a), toLin(b)
	m := make(map[*Term]int64, len(x.m)+len(y.m))
	for t, c := range x.m {
		m[t] = c
	}
	for t, c := range y.m {
		m[t] += s * c
	}
	return fromLin(lin{m, x.k + s*y.k})
}

func Add(a, b *Term) *Term         { return addScaled(a, b, 1) }
func Sub(a, b *Term) *Term         { return addScaled(a, b, -1) }
func AddC(a *Term, k int64) *Term  { return addScaled(a, Int(k), 1) }
func Scale(a *Term, s int64) *Term { return addScaled(zero, a, s) }
func Neg(a *Term) *Term            { return Scale(a, -1) }

func Mul(a, b *Term) *Term {
	if a.op == OpInt {
		return Scale(b, a.k)
	}
	if b.op == OpInt {
		return Scale(a, b.k)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk(Term{op: OpMul, sort: SInt, args: []*Term{a, b}})
}

// splitKappa returns c, rest with t == c*κ + rest; ok is false when t is not linear in κ.
func splitKappa(t *Term) (int64, *Term, bool) {
	if !t.kap {
		return 0, t, true
	}
	l := toLin(t)
	c := l.m[kappa]
	delete(l.m, kappa)
	r := fromLin(l)
	if r.kap {
		return 0, nil, false
	}
	return c, r, true
}

func Sel(arr, idx *Term) *Term {
	s := SByte
	if arr.sort == SIArr {
		s = SInt
	}
	for arr.op == OpStore {
		d := Sub(idx, arr.args[1])
		if d.op == OpInt {
			if d.k == 0 {
				return arr.args[2]
			}
			arr = arr.args[0]
			continue
		}
		break
	}
	return mk(Term{op: OpSel, sort: s, args: []*Term{arr, idx}})
}

func Store(arr, idx, v *Term) *Term {
	return mk(Term{op: OpStore, sort: arr.sort, args: []*Term{arr, idx, v}})
}

func BFn(t *Term, tab *[256]byte) *Term {
	if t.op == OpIte {
		return bfnIte(t, tab, map[*Term]*Term{})
	}
	switch t.op {
	case OpByte:
		return Byte(tab[byte(t.k)])
	case OpBFn:
		var nt [256]byte
		for i := range nt {
			nt[i] = tab[t.tab[i]]
		}
		return BFn(t.args[0], &nt)
	}
	id, cst := true, true
	for i := range tab {
		if tab[i] != byte(i) {
			id = false
		}
		if tab[i] != tab[0] {
			cst = false
		}
	}
	if id {
		return t
	}
	if cst {
		return Byte(tab[0])
	}
	cp := *tab
	return mk(Term{op: OpBFn, sort: SByte, args: []*Term{t}, tab: &cp})
}

func bfnIte(t *Term, tab *[256]byte, memo map[*Term]*Term) *Term {
	if t.op != OpIte {
		return BFn(t, tab)
	}
	r, ok := memo[t]
	if !ok {
		r = Ite(t.args[0], bfnIte(t.args[1], tab, memo), bfnIte(t.args[2], tab, memo))
		memo[t] = r
	}
	return r
}

func BFnF(t *Term, f func(b byte) byte) *Term {
	var tab [256]byte
	for i := range tab {
		tab[i] = f(byte(i))
	}
	return BFn(t, &tab)
}

// byteBase splits a byte term into table and base.
func byteBase(t *Term) (*Term, func(byte) byte) {
	if t.op == OpBFn {
		tab := t.tab
		return t.args[0], func(b byte) byte { return tab[b] }
	}
	return t, func(b byte) byte { return b }
}

type inKey struct {
	t *Term
	s Set256
}

var inMemo = map[inKey]*Term{}

func In(t *Term, s Set256) *Term {
	switch t.op {
	case OpByte:
		return Bool(s.has(byte(t.k)))
	case OpBFn:
		var n Set256
		for i := 0; i < 256; i++ {
			if s.has(t.tab[i]) {
				n.add(byte(i))
			}
		}
		return In(t.args[0], n)
	}
	if s.empty() {
		return tFalse
	}
	if s.full() {
		return tTrue
	}
	if t.op == OpIte {
		k := inKey{t, s}
		r, ok := inMemo[k]
		if !ok {
			r = Or(And(t.args[0], In(t.args[1], s)), And(Not(t.args[0]), In(t.args[2], s)))
			inMemo[k] = r
		}
		return r
	}
	return mk(Term{op: OpIn, sort: SBool, args: []*Term{t}, set: s})
}

func EqB(a, b *Term) *Term {
	if a == b {
		return tTrue
	}
	if a.op == OpByte {
		return In(b, setOf(byte(a.k)))
	}
	if b.op == OpByte {
		return In(a, setOf(byte(b.k)))
	}
	if a.op == OpIte {
		return Or(And(a.args[0], EqB(a.args[1], b)), And(Not(a.args[0]), EqB(a.args[2], b)))
	}
	if b.op == OpIte {
		return EqB(b, a)
	}
	x, f := byteBase(a)
	y, g := byteBase(b)
	if x == y {
		var s Set256
		for i := 0; i < 256; i++ {
			if f(byte(i)) == g(byte(i)) {
				s.add(byte(i))
			}
		}
		return In(x, s)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk(Term{op: OpEqB, sort: SBool, args: []*Term{a, b}})
}

func BBin(op string, a, b *Term) *Term {
	f := func(x, y byte) byte {
		switch op {
		case "+":
			return x + y
		case "-":
			return x - y
		case "*":
			return x * y
		case "&":
			return x & y
		case "|":
			return x | y
		case "^":
			return x ^ y
		case "&^":
			return x &^ y
		case "<<":
			return x << y
		case ">>":
			return x >> y
		case "/":
			if y == 0 {
				return 0
			}
			return x / y
		case "%":
			if y == 0 {
				return 0
			}
			return x % y
		}
		panic("BBin " + op)
	}
	if b.op == OpByte {
		return BFnF(a, func(x byte) byte { return f(x, byte(b.k)) })
	}
	if a.op == OpByte {
		return BFnF(b, func(y byte) byte { return f(byte(a.k), y) })
	}
	x, g := byteBase(a)
	y, h := byteBase(b)
	if x == y {
		return BFnF(x, func(v byte) byte { return f(g(v), h(v)) })
	}
	return mk(Term{op: OpBBin, sort: SByte, name: op, args: []*Term{a, b}})
}

func B2I(t *Term) *Term {
	if t.op == OpByte {
		return Int(t.k)
	}
	if t.op == OpI2B {
		// value not known to be in range: keep opaque
	}
	return mk(Term{op: OpB2I, sort: SInt, args: []*Term{t}})
}

// byteSetOf returns the atom and set equivalent to (c*B2I(atom)+k) satisfying pred, when t has that form.
func byteSetOf(t *Term, pred func(int64) bool) (*Term, Set256, bool) {
	var base *Term
	var c, k int64
	switch {
	case t.op == OpB2I:
		base, c, k = t.args[0], 1, 0
	case t.op == OpLin && len(t.args) == 1 && t.args[0].op == OpB2I:
		base, c, k = t.args[0].args[0], t.coef[0], t.k
	default:
		return nil, Set256{}, false
	}
	var s Set256
	for i := 0; i < 256; i++ {
		if pred(c*int64(i) + k) {
			s.add(byte(i))
		}
	}
	return base, s, true
}

func I2B(t *Term) *Term {
	if t.op == OpInt {
		return Byte(byte(t.k))
	}
	if t.op == OpB2I {
		return t.args[0]
	}
	if t.op == OpLin && len(t.args) == 1 && t.args[0].op == OpB2I {
		c, k := t.coef[0], t.k
		return BFnF(t.args[0].args[0], func(b byte) byte { return byte(c*int64(b) + k) })
	}
	return mk(Term{op: OpI2B, sort: SByte, args: []*Term{t}})
}

func Ite(c, a, b *Term) *Term {
	if c.isTrue() || a == b {
		return a
	}
	if c.isFalse() {
		return b
	}
	if a.sort == SBool {
		return Or(And(c, a), And(Not(c), b))
	}
	if c.op == OpNot {
		return Ite(c.args[0], b, a)
	}
	return mk(Term{op: OpIte, sort: a.sort, args: []*Term{c, a, b}})
}

func Le0(t *Term) *Term {
	if t.op == OpInt {
		return Bool(t.k <= 0)
	}
	if b, s, ok := byteSetOf(t, func(v int64) bool { return v <= 0 }); ok {
		return In(b, s)
	}
	if t.op == OpIte {
		return Or(And(t.args[0], Le0(t.args[1])), And(Not(t.args[0]), Le0(t.args[2])))
	}
	if t.op == OpLin {
		// divide by gcd, rounding the constant
		g := int64(0)
		for _, c := range t.coef {
			g = gcd(g, c)
		}
		if g > 1 {
			l := toLin(t)
			for a := range l.m {
				l.m[a] /= g
			}
			l.k = -floorDiv(-l.k, g)
			t = fromLin(l)
		}
	}
	return mk(Term{op: OpLe0, sort: SBool, args: []*Term{t}})
}

func gcd(a, b int64) int64 {
	if a < 0 {
		a = -a
	}
	if b < 0 {
		b = -b
	}
	for b != 0 {
		a, b = b, a%b
	}
	return a
}
func floorDiv(a, b int64) int64 {
	q := a / b
	if a%b != 0 && (a < 0) != (b < 0) {
		q--
	}
	return q
}

func Le(a, b *Term) *Term { return Le0(Sub(a, b)) }
func Lt(a, b *Term) *Term { return Le0(AddC(Sub(a, b), 1)) }
func EqI(a, b *Term) *Term {
	d := Sub(a, b)
	if d.op == OpInt {
		return Bool(d.k == 0)
	}
	if x, s, ok := byteSetOf(d, func(v int64) bool { return v == 0 }); ok {
		return In(x, s)
	}
	if a.op == OpIte {
		return Or(And(a.args[0], EqI(a.args[1], b)), And(Not(a.args[0]), EqI(a.args[2], b)))
	}
	if b.op == OpIte {
		return EqI(b, a)
	}
	// int(b1) == int(b2)
	if d.op == OpLin && len(d.args) == 2 && d.k == 0 && d.args[0].op == OpB2I && d.args[1].op == OpB2I && d.coef[0]+d.coef[1] == 0 {
		return EqB(d.args[0].args[0], d.args[1].args[0])
	}
	if d.op == OpLin && d.coef[0] < 0 {
		d = Neg(d)
	}
	return mk(Term{op: OpEq0, sort: SBool, args: []*Term{d}})
}

func Not(t *Term) *Term {
	switch t.op {
	case OpTrue:
		return tFalse
	case OpFalse:
		return tTrue
	case OpNot:
		return t.args[0]
	case OpIn:
		return In(t.args[0], t.set.not())
	case OpLe0: // not (x<=0) == x>=1 == 1-x<=0
		return Le0(AddC(Neg(t.args[0]), 1))
	case OpAnd, OpOr:
		as := make([]*Term, len(t.args))
		for i, a := range t.args {
			as[i] = Not(a)
		}
		if t.op == OpAnd {
			return Or(as...)
		}
		return And(as...)
	}
	return mk(Term{op: OpNot, sort: SBool, args: []*Term{t}})
}

func And(ts ...*Term) *Term { return nary(OpAnd, ts) }
func Or(ts ...*Term) *Term  { return nary(OpOr, ts) }

func nary(op Op, ts []*Term) *Term {
	abs, unit := tFalse, tTrue
	if op == OpOr {
		abs, unit = tTrue, tFalse
	}
	seen := map[*Term]bool{}
	ins := map[*Term]Set256{}
	var as []*Term
	var walk func(t *Term) bool
	walk = func(t *Term) bool {
		if t == abs {
			return false
		}
		if t == unit {
			return true
		}
		if t.op == op {
			for _, a := range t.args {
				if !walk(a) {
					return false
				}
			}
			return true
		}
		if t.op == OpIn {
			b := t.args[0]
			if s, ok := ins[b]; ok {
				if op == OpAnd {
					ins[b] = s.and(t.set)
				} else {
					ins[b] = s.or(t.set)
				}
			} else {
				ins[b] = t.set
			}
			return true
		}
		if seen[t] {
			return true
		}
		if t.op != OpAnd && t.op != OpOr && seen[Not(t)] {
			return false
		}
		seen[t] = true
		as = append(as, t)
		return true
	}
	for _, t := range ts {
		if !walk(t) {
			return abs
		}
	}
	for b, s := range ins {
		x := In(b, s)
		if x == abs {
			return abs
		}
		if x != unit {
			as = append(as, x)
		}
	}
	if len(as) == 0 {
		return unit
	}
	if len(as) == 1 {
		return as[0]
	}
	sort.Slice(as, func(i, j int) bool { return as[i].id < as[j].id })
	return mk(Term{op: op, sort: SBool, args: as})
}

func Implies(a, b *Term) *Term { return Or(Not(a), b) }
func Iff(a, b *Term) *Term {
	if a == b {
		return tTrue
	}
	return And(Implies(a, b), Implies(b, a))
}

func Div(a, b *Term) *Term {
	if a.op == OpInt && b.op == OpInt && b.k != 0 {
		return Int(a.k / b.k)
	}
	return mk(Term{op: OpDiv, sort: SInt, args: []*Term{a, b}})
}
func Mod(a, b *Term) *Term {
	if a.op == OpInt && b.op == OpInt && b.k != 0 {
		return Int(a.k % b.k)
	}
	return mk(Term{op: OpMod, sort: SInt, args: []*Term{a, b}})
}

// Subst replaces subterms.
func Subst(t *Term, m map[*Term]*Term) *Term {
	if len(m) == 0 {
		return t
	}
	memo := map[*Term]*Term{}
	return substRec(t, m, memo)
}

func substRec(t *Term, m, memo map[*Term]*Term) *Term {
	if r, ok := m[t]; ok {
		return r
	}
	if len(t.args) == 0 {
		return t
	}
	if r, ok := memo[t]; ok {
		return r
	}
	as := make([]*Term, len(t.args))
	ch := false
	for i, a := range t.args {
		as[i] = substRec(a, m, memo)
		if as[i] != a {
			ch = true
		}
	}
	r := t
	if ch {
		r = rebuild(t, as)
	}
	memo[t] = r
	return r
}

func rebuild(t *Term, as []*Term) *Term {
	switch t.op {
	case OpLin:
		r := Int(t.k)
		for i, a := range as {
			r = addScaled(r, a, t.coef[i])
		}
		return r
	case OpMul:
		return Mul(as[0], as[1])
	case OpDiv:
		return Div(as[0], as[1])
	case OpMod:
		return Mod(as[0], as[1])
	case OpSel:
		return Sel(as[0], as[1])
	case OpStore:
		return Store(as[0], as[1], as[2])
	case OpB2I:
		return B2I(as[0])
	case OpI2B:
		return I2B(as[0])
	case OpBFn:
		return BFn(as[0], t.tab)
	case OpBBin:
		return BBin(t.name, as[0], as[1])
	case OpIte:
		return Ite(as[0], as[1], as[2])
	case OpNot:
		return Not(as[0])
	case OpAnd:
		return And(as...)
	case OpOr:
		return Or(as...)
	case OpLe0:
		return Le0(as[0])
	case OpEq0:
		return EqI(as[0], zero)
	case OpIn:
		return In(as[0], t.set)
	case OpEqB:
		return EqB(as[0], as[1])
	}
	panic("rebuild")
}

func substKappa(t, by *Term) *Term {
	if !t.kap {
		return t
	}
	return Subst(t, map[*Term]*Term{kappa: by})
}

func (t *Term) String() string {
	switch t.op {
	case OpVar:
		return t.name
	case OpInt:
		return fmt.Sprint(t.k)
	case OpByte:
		return fmt.Sprintf("%q", rune(t.k))
	case OpLin:
		var b strings.Builder
		for i, a := range t.args {
			c := t.coef[i]
			if i > 0 && c > 0 {
				b.WriteByte('+')
			}
			if c == -1 {
				b.WriteByte('-')
			} else if c != 1 {
				fmt.Fprintf(&b, "%d*", c)
			}
			b.WriteString(a.String())
		}
		if t.k != 0 {
			fmt.Fprintf(&b, "%+d", t.k)
		}
		return b.String()
	case OpSel:
		return fmt.Sprintf("%v[%v]", t.args[0], t.args[1])
	case OpStore:
		return fmt.Sprintf("%v{%v:=%v}", t.args[0], t.args[1], t.args[2])
	case OpTrue:
		return "true"
	case OpFalse:
		return "false"
	case OpIn:
		return fmt.Sprintf("%v∈%v", t.args[0], t.set)
	case OpLe0:
		return fmt.Sprintf("(%v<=0)", t.args[0])
	case OpEq0:
		return fmt.Sprintf("(%v==0)", t.args[0])
	case OpBFn:
		return fmt.Sprintf("f%x(%v)", hashTab(t.tab)&0xffff, t.args[0])
	}
	names := map[Op]string{OpMul: "mul", OpDiv: "div", OpMod: "mod", OpB2I: "int", OpI2B: "byte", OpIte: "ite", OpNot: "not", OpAnd: "and", OpOr: "or", OpEqB: "eqb", OpBBin: "b" + t.name}
	var as []string
	for _, a := range t.args {
		as = append(as, a.String())
	}
	return names[t.op] + "(" + strings.Join(as, ", ") + ")"
}

func hashTab(t *[256]byte) uint32 {
	h := uint32(2166136261)
	for _, b := range t {
		h = (h ^ uint32(b)) * 16777619
	}
	return h
}
