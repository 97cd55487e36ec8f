package main

// Ropes: symbolic byte sequences, used for strings and for the content of byte slices.

import (
	"fmt"
	"strconv"
	"strings"
)

type SegKind uint8

const (
	SegLit  SegKind = iota
	SegSub          // arr[lo:hi)
	SegGen          // n bytes, body(κ)
	SegItoa         // decimal of it
	SegApp          // uninterpreted function of ropes
)

type Seg struct {
	kind   SegKind
	lit    string
	arr    *Term
	lo, hi *Term
	n      *Term
	body   *Term
	it     *Term
	fn     string
	args   []Rope
}

type Rope []Seg

func Lit(s string) Rope {
	if s == "" {
		return nil
	}
	return Rope{{kind: SegLit, lit: s}}
}
func SubR(arr, lo, hi *Term) Rope {
	if lo == hi {
		return nil
	}
	return Rope{{kind: SegSub, arr: arr, lo: lo, hi: hi}}
}

// GenR builds a comprehension, recognising plain copies.
func GenR(n, body *Term) Rope {
	if n == zero {
		return nil
	}
	if body.op == OpSel && !body.args[0].kap {
		if c, r, ok := splitKappa(body.args[1]); ok && c == 1 {
			return Rope{{kind: SegSub, arr: body.args[0], lo: r, hi: Add(r, n)}}
		}
	}
	return Rope{{kind: SegGen, n: n, body: body}}
}
func ItoaR(t *Term) Rope {
	if t.isConst() {
		return Lit(strconv.FormatInt(t.k, 10))
	}
	return Rope{{kind: SegItoa, it: t}}
}
func AppR(fn string, args ...Rope) Rope {
	return Rope{{kind: SegApp, fn: fn, args: args}}
}

func (s *Seg) key() string {
	switch s.kind {
	case SegLit:
		return "L" + strconv.Quote(s.lit)
	case SegSub:
		return fmt.Sprintf("S%d.%d.%d", s.arr.id, s.lo.id, s.hi.id)
	case SegGen:
		return fmt.Sprintf("G%d.%d", s.n.id, s.body.id)
	case SegItoa:
		return fmt.Sprintf("I%d", s.it.id)
	}
	var as []string
	for _, a := range s.args {
		as = append(as, a.key())
	}
	return "A" + s.fn + "(" + strings.Join(as, "|") + ")"
}

func (r Rope) key() string {
	var b strings.Builder
	for i := range r {
		b.WriteString(r[i].key())
		b.WriteByte(' ')
	}
	return b.String()
}

func (s *Seg) String() string {
	switch s.kind {
	case SegLit:
		return strconv.Quote(s.lit)
	case SegSub:
		return fmt.Sprintf("%v[%v:%v]", s.arr, s.lo, s.hi)
	case SegGen:
		return fmt.Sprintf("⟨%v|κ<%v⟩", s.body, s.n)
	case SegItoa:
		return fmt.Sprintf("itoa(%v)", s.it)
	}
	return fmt.Sprintf("%s(%v)", s.fn, s.args)
}
func (r Rope) String() string {
	var p []string
	for i := range r {
		p = append(p, r[i].String())
	}
	return "‹" + strings.Join(p, " ") + "›"
}

func (s *Seg) length() *Term {
	switch s.kind {
	case SegLit:
		return Int(int64(len(s.lit)))
	case SegSub:
		return Sub(s.hi, s.lo)
	case SegGen:
		return s.n
	case SegApp:
		if s.transparent() {
			return s.args[0].length()
		}
	}
	return Var("len:"+s.key(), SInt) // facts about it are added by lenFacts
}

func (r Rope) length() *Term {
	n := zero
	for i := range r {
		n = Add(n, r[i].length())
	}
	return n
}

// lenFacts returns what is known about opaque segment lengths.
func (r Rope) lenFacts() []*Term {
	var fs []*Term
	for i := range r {
		switch r[i].kind {
		case SegItoa:
			fs = append(fs, Le(one, r[i].length()), Le(r[i].length(), Int(20)))
		case SegApp:
			if r[i].transparent() {
				fs = append(fs, r[i].args[0].lenFacts()...)
				continue
			}
			fs = append(fs, Le(r[i].minLen(), r[i].length()), Le(r[i].length(), Int(1<<58)))
		}
	}
	return fs
}

// minLen is a lower bound of the length of an opaque segment.
func (s *Seg) minLen() *Term {
	if s.kind == SegItoa || s.kind == SegApp && strings.HasPrefix(s.fn, "jsonerror:") { // error messages of encoding/json are not empty
		return one
	}
	return zero
}

func (r Rope) isLit() (string, bool) {
	if len(r) == 0 {
		return "", true
	}
	if len(r) == 1 && r[0].kind == SegLit {
		return r[0].lit, true
	}
	return "", false
}

func concatR(rs ...Rope) Rope {
	var out Rope
	for _, r := range rs {
		for _, s := range r {
			if n := s.length(); n == zero {
				continue
			}
			if k := len(out); k > 0 {
				p := &out[k-1]
				if p.kind == SegLit && s.kind == SegLit {
					out = append(out[:k-1:k-1], Seg{kind: SegLit, lit: p.lit + s.lit})
					continue
				}
				if p.kind == SegSub && s.kind == SegSub && p.arr == s.arr && p.hi == s.lo {
					out = append(out[:k-1:k-1], Seg{kind: SegSub, arr: p.arr, lo: p.lo, hi: s.hi})
					continue
				}
			}
			out = append(out[:len(out):len(out)], s)
		}
	}
	return out
}

// char returns the byte at index k of the segment.
func (s *Seg) char(k *Term) *Term {
	switch s.kind {
	case SegLit:
		if k.isConst() && k.k >= 0 && k.k < int64(len(s.lit)) {
			return Byte(s.lit[k.k])
		}
		r := Byte(s.lit[len(s.lit)-1])
		for i := len(s.lit) - 2; i >= 0; i-- {
			r = Ite(Le(k, Int(int64(i))), Byte(s.lit[i]), r)
		}
		return r
	case SegSub:
		return Sel(s.arr, Add(s.lo, k))
	case SegGen:
		return substKappa(s.body, k)
	case SegApp:
		if s.transparent() {
			return s.mapped(k)
		}
	}
	return Sel(Var("chars:"+s.key(), SBArr), k)
}

// transparent segments are byte-wise images of their argument.
func (s *Seg) transparent() bool {
	return s.kind == SegApp && (s.fn == "lower" || s.fn == "upper" || s.fn == "norm")
}

func (s *Seg) opaque() bool { return s.kind == SegItoa || s.kind == SegApp && !s.transparent() }

func lowerByte(b byte) byte {
	if 'A' <= b && b <= 'Z' {
		return b + 32
	}
	return b
}

func upperByte(b byte) byte {
	if 'a' <= b && b <= 'z' {
		return b - 32
	}
	return b
}

// mapped is byte k of a transparent segment. norm lowercases letters at most two places after a
// percent sign.
func (s *Seg) mapped(k *Term) *Term {
	r := s.args[0]
	c := r.char(k)
	switch s.fn {
	case "lower":
		return BFnF(c, lowerByte)
	case "upper":
		return BFnF(c, upperByte)
	}
	pct := setOf('%')
	near := func(d int64) *Term {
		if k.isConst() && k.k < d {
			return tFalse
		}
		return And(Le(Int(d), k), In(r.char(AddC(k, -d)), pct))
	}
	return Ite(And(In(c, setRange('A', 'Z')), Or(near(1), near(2))), BFnF(c, lowerByte), c)
}

func (s *Seg) asGen() Seg {
	return Seg{kind: SegGen, n: s.length(), body: s.mapped(kappa)}
}

func normString(s string) string {
	b := []byte(s)
	for i := range b {
		if i >= 1 && s[i-1] == '%' || i >= 2 && s[i-2] == '%' {
			b[i] = lowerByte(b[i])
		}
	}
	return string(b)
}

// normR is norm(r), evaluated where the text is known.
func normR(r Rope) Rope {
	if s, ok := r.isLit(); ok {
		return Lit(normString(s))
	}
	if len(r) == 1 && r[0].kind == SegApp && r[0].fn == "norm" {
		return r // norm is idempotent
	}
	return AppR("norm", r)
}

func (r Rope) char(k *Term) *Term {
	if len(r) == 0 {
		return Byte(0)
	}
	if len(r) == 1 {
		return r[0].char(k)
	}
	n := r[0].length()
	return Ite(Lt(k, n), r[0].char(k), r[1:].char(Sub(k, n)))
}

func (s *Seg) split(at *Term) (Seg, Seg, bool) {
	switch s.kind {
	case SegLit:
		if !at.isConst() {
			return Seg{}, Seg{}, false
		}
		return Seg{kind: SegLit, lit: s.lit[:at.k]}, Seg{kind: SegLit, lit: s.lit[at.k:]}, true
	case SegSub:
		m := Add(s.lo, at)
		return Seg{kind: SegSub, arr: s.arr, lo: s.lo, hi: m}, Seg{kind: SegSub, arr: s.arr, lo: m, hi: s.hi}, true
	case SegGen:
		return Seg{kind: SegGen, n: at, body: s.body}, Seg{kind: SegGen, n: Sub(s.n, at), body: substKappa(s.body, Add(kappa, at))}, true
	case SegApp:
		if !s.transparent() {
			break
		}
		if s.fn != "norm" && len(s.args[0]) == 1 {
			if a, b, ok := s.args[0][0].split(at); ok {
				return AppR(s.fn, Rope{a})[0], AppR(s.fn, Rope{b})[0], true
			}
		}
		g := s.asGen()
		return g.split(at)
	}
	return Seg{}, Seg{}, false
}

// splitAt divides the rope at position at.
func (r Rope) splitAt(p *PC, at *Term) (Rope, Rope, bool) {
	rest := at
	var left Rope
	for i := range r {
		if rest == zero || p.quick(EqI(rest, zero)) == 1 {
			return left, r[i:], true
		}
		n := r[i].length()
		if rest == n || p.quick(Le(n, rest)) == 1 {
			left = concatR(left, r[i:i+1])
			rest = Sub(rest, n)
			continue
		}
		if p.quick(And(Le(zero, rest), Le(rest, n))) == 1 || p.entails(And(Le(zero, rest), Le(rest, n))) {
			a, b, ok := r[i].split(rest)
			if !ok {
				return nil, nil, false
			}
			return concatR(left, Rope{a}), concatR(Rope{b}, r[i+1:]), true
		}
		return nil, nil, false
	}
	if rest == zero || p.entails(EqI(rest, zero)) {
		return left, nil, true
	}
	return nil, nil, false
}

func (r Rope) slice(p *PC, lo, hi *Term) Rope {
	if lo == hi {
		return nil
	}
	if _, b, ok := r.splitAt(p, lo); ok {
		if a, _, ok := b.splitAt(p, Sub(hi, lo)); ok {
			return a
		}
	}
	return GenR(Sub(hi, lo), r.char(Add(kappa, lo)))
}

func dropEmpty(p *PC, r Rope) Rope {
	for len(r) > 0 {
		n := r[0].length()
		if n == zero || p.quick(EqI(n, zero)) == 1 {
			r = r[1:]
			continue
		}
		break
	}
	return r
}

// eqRope returns a formula for a == b; exact is false when the formula only implies equality
// (it then contains universally read skolem constants).
func eqRope(p *PC, a, b Rope) (f *Term, exact bool) {
	exact = true
	var conj []*Term
	a, b = append(Rope{}, p.canon(a)...), append(Rope{}, p.canon(b)...)
	for {
		a, b = dropEmpty(p, a), dropEmpty(p, b)
		if len(a) == 0 && len(b) == 0 {
			return And(conj...), exact
		}
		if len(a) == 0 || len(b) == 0 {
			r := concatR(a, b)
			for i := range r {
				if k := r[i].kind; k == SegItoa || k == SegLit || r[i].minLen() != zero {
					return tFalse, true
				}
			}
			return And(append(conj, EqI(r.length(), zero))...), exact
		}
		x, y := &a[0], &b[0]
		if x.key() == y.key() {
			a, b = a[1:], b[1:]
			continue
		}
		if x.kind == SegLit && y.kind == SegLit {
			n := len(x.lit)
			if len(y.lit) < n {
				n = len(y.lit)
			}
			if x.lit[:n] != y.lit[:n] {
				return tFalse, true
			}
			a = concatR(Lit(x.lit[n:]), a[1:])
			b = concatR(Lit(y.lit[n:]), b[1:])
			continue
		}
		if x.kind == SegItoa && y.kind == SegItoa {
			if d := Sub(x.it, y.it); d == zero || p.quick(EqI(d, zero)) == 1 || (len(a) == 1 && len(b) == 1) {
				conj = append(conj, EqI(x.it, y.it))
				a, b = a[1:], b[1:]
				continue
			}
			// decimals followed by a literal that does not start with a digit determine the number
			if len(a) > 1 && len(b) > 1 && a[1].kind == SegLit && b[1].kind == SegLit && !isDigit(a[1].lit[0]) && !isDigit(b[1].lit[0]) {
				conj = append(conj, EqI(x.it, y.it))
				a, b = a[1:], b[1:]
				continue
			}
			return opaqueEq(a, b, conj)
		}
		if x.kind == SegLit && y.kind == SegItoa {
			a, b = b, a
			continue
		}
		if x.kind == SegItoa && y.kind == SegLit && (len(a) == 1 || a[1].kind == SegLit && !isDigit(a[1].lit[0])) {
			// the number is what the literal's digits say
			n := 0
			if y.lit[0] == '-' {
				n = 1
			}
			for n < len(y.lit) && isDigit(y.lit[n]) {
				n++
			}
			if n < len(y.lit) || len(b) == 1 {
				v, err := strconv.ParseInt(y.lit[:n], 10, 62)
				if err != nil || strconv.FormatInt(v, 10) != y.lit[:n] {
					return tFalse, true
				}
				conj = append(conj, EqI(x.it, Int(v)))
				a = a[1:]
				b = concatR(Lit(y.lit[n:]), b[1:])
				continue
			}
		}
		if x.kind == SegApp && y.kind == SegApp && x.fn == y.fn && len(x.args) == len(y.args) {
			var cs []*Term
			for i := range x.args {
				g, _ := eqRope(p, x.args[i], y.args[i])
				cs = append(cs, g)
			}
			if p.quick(And(cs...)) == 1 {
				a, b = a[1:], b[1:]
				continue
			}
			if !x.transparent() {
				conj = append(conj, cs...)
				exact = false
				a, b = a[1:], b[1:]
				continue
			}
		}
		if x.opaque() || y.opaque() {
			return opaqueEq(a, b, conj)
		}
		lx, ly := x.length(), y.length()
		switch {
		case lx == ly || p.quick(EqI(lx, ly)) == 1:
			n := lx
			if ly.isConst() {
				n = ly
			}
			g, ex := pairEq(p, x, y, n)
			conj = append(conj, g)
			exact = exact && ex
			a, b = a[1:], b[1:]
			continue
		case len(a) == 1 && len(b) == 1:
			lenEq := EqI(lx, ly)
			if p.quick(lenEq) == 0 {
				return tFalse, true
			}
			// compare under the assumption that the lengths agree
			q := p.clone()
			if !q.assume(lenEq) {
				return tFalse, true
			}
			n := lx
			if ly.isConst() {
				n = ly
			}
			g, ex := pairEq(q, x, y, n)
			return And(append(conj, lenEq, g)...), exact && ex
		case p.entails(Le(lx, ly)):
			if y1, y2, ok := y.split(lx); ok {
				g, ex := pairEq(p, x, &y1, lx)
				conj = append(conj, g)
				exact = exact && ex
				a = a[1:]
				b = append(Rope{y2}, b[1:]...)
				continue
			}
		case p.entails(Le(ly, lx)):
			if x1, x2, ok := x.split(ly); ok {
				g, ex := pairEq(p, &x1, y, ly)
				conj = append(conj, g)
				exact = exact && ex
				b = b[1:]
				a = append(Rope{x2}, a[1:]...)
				continue
			}
		}
		return opaqueEq(a, b, conj)
	}
}

func isDigit(b byte) bool { return '0' <= b && b <= '9' }

func pairEq(p *PC, x, y *Seg, n *Term) (*Term, bool) {
	if x.key() == y.key() {
		return tTrue, true
	}
	if x.kind == SegSub && y.kind == SegSub && x.arr == y.arr {
		if d := Sub(x.lo, y.lo); d == zero || p.quick(EqI(d, zero)) == 1 {
			return tTrue, true
		}
	}
	if n.isConst() && n.k <= 64 {
		var cs []*Term
		for i := int64(0); i < n.k; i++ {
			cs = append(cs, EqB(x.char(Int(i)), y.char(Int(i))))
		}
		return And(cs...), true
	}
	s := Fresh("sk", SInt)
	return Implies(And(Le(zero, s), Lt(s, n)), EqB(x.char(s), y.char(s))), false
}

// ---- opaque equalities: an unknown string has an identity number determined by its content

func opaqueEq(a, b Rope, conj []*Term) (*Term, bool) {
	return And(append(conj, streqAtom(a, b))...), false
}

func strID(a Rope) *Term { return Var("sid:"+a.key(), SInt) }

func streqAtom(a, b Rope) *Term { return EqI(strID(a), strID(b)) }

// condEq is a == b as a branch condition (always exact).
func condEq(p *PC, a, b Rope) *Term {
	a, b = p.canon(a), p.canon(b)
	f, exact := eqRope(p, a, b)
	if exact {
		return f
	}
	if p.quick(f) == 1 {
		return tTrue
	}
	return streqAtom(p.canon(a), p.canon(b))
}
