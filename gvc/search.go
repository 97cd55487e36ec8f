package main

// Contracts of the searching functions of packages strings, bytes, unicode and slices.

import (
	"strings"

	"golang.org/x/tools/go/ssa"
)

// match is what a search looks for: positions k with every char(k+i) in sets[i].
type match []Set256

func (m match) at(r Rope, k *Term) *Term {
	var cs []*Term
	for i, s := range m {
		cs = append(cs, In(r.charAt(AddC(k, int64(i))), s))
	}
	return And(cs...)
}

func matchLit(s string) match {
	var m match
	for i := 0; i < len(s); i++ {
		m = append(m, setOf(s[i]))
	}
	return m
}

// search splits on whether r has a match; found gets the first (or last) position.
func (x *Exec) search(st *State, r Rope, m match, last bool, f func(s *State, pos *Term) []Val) []Out {
	n := r.length()
	for _, t := range r.lenFacts() {
		st.pc.assume(t)
	}
	if len(m) == 0 {
		if last {
			return []Out{{st, f(st, n)}}
		}
		return []Out{{st, f(st, zero)}}
	}
	end := AddC(n, 1-int64(len(m))) // one past the last position that can match
	var outs []Out
	no := st.clone()
	pos := Fresh("pos", SInt)
	if x.assumeCond(st, And(Le(zero, pos), Lt(pos, end))) && x.assumeCond(st, m.at(r, pos)) {
		lo, hi := zero, pos
		if last {
			lo, hi = AddC(pos, 1), end
		}
		st.pc.q = append(st.pc.q, QFact{lo: lo, hi: hi, body: Not(m.at(r, kappa)), note: "search"})
		outs = append(outs, Out{st, f(st, pos)})
	}
	no.pc.q = append(no.pc.q, QFact{lo: zero, hi: end, body: Not(m.at(r, kappa)), note: "search"})
	if len(m) == 1 && m[0].has('%') {
		no.pc.setPlain(r) // nothing to lower without a percent sign
	}
	// a known position that matches contradicts this case
	if k := AddC(n, 0); k.isConst() && k.k <= 16 {
		for i := int64(0); i < k.k+1-int64(len(m)); i++ {
			if !x.assumeCond(no, Not(m.at(r, Int(i)))) {
				return outs
			}
		}
	}
	return append(outs, Out{no, f(no, nil)})
}

// searchFn models name if it is one of the searching functions.
func (x *Exec) searchFn(st *State, name string, args []Val, in ssa.Instruction, rope func(int) Rope) ([]Out, bool) {
	pkg, fn, ok := strings.Cut(name, ".")
	if !ok {
		return nil, false
	}
	index := func(_ *State, p *Term) []Val {
		if p == nil {
			p = Int(-1)
		}
		return []Val{p}
	}
	has := func(_ *State, p *Term) []Val { return []Val{Bool(p != nil)} }
	if pkg == "unicode" {
		c, ok := args[0].(*Term)
		if !ok || c.sort != SInt {
			return nil, false
		}
		if !st.pc.entails(And(Le(zero, c), Lt(c, Int(128)))) {
			return nil, false
		}
		b := I2B(c)
		in := func(rs string) ([]Out, bool) {
			var s Set256
			for i := 0; i+1 < len(rs); i += 2 {
				s = s.or(setRange(rs[i], rs[i+1]))
			}
			return []Out{{st, []Val{In(b, s)}}}, true
		}
		switch fn {
		case "IsUpper":
			return in("AZ")
		case "IsLower":
			return in("az")
		case "IsLetter":
			return in("AZaz")
		case "IsDigit", "IsNumber":
			return in("09")
		case "ToLower":
			return []Out{{st, []Val{B2I(BFnF(b, lowerByte))}}}, true
		case "ToUpper":
			return []Out{{st, []Val{B2I(BFnF(b, upperByte))}}}, true
		}
		return nil, false
	}
	if pkg != "strings" && pkg != "bytes" {
		return nil, false
	}
	last := strings.HasPrefix(fn, "Last")
	kind := strings.TrimPrefix(fn, "Last")
	switch kind {
	case "Index", "Contains", "Cut":
		sub, lit := rope(1).isLit()
		if !lit || len(sub) > 8 {
			return nil, false
		}
		m := matchLit(sub)
		switch kind {
		case "Index":
			return x.search(st, rope(0), m, last, index), true
		case "Contains":
			return x.search(st, rope(0), m, false, has), true
		}
		if pkg != "strings" {
			return nil, false
		}
		r := rope(0)
		return x.search(st, r, m, false, func(s *State, p *Term) []Val {
			if p == nil {
				return []Val{r, Rope(nil), tFalse}
			}
			return []Val{r.slice(s.pc, zero, p), r.slice(s.pc, AddC(p, int64(len(sub))), r.length()), tTrue}
		}), true
	case "IndexAny", "ContainsAny":
		cs, lit := rope(1).isLit()
		if !lit {
			return nil, false
		}
		var s Set256
		for i := 0; i < len(cs); i++ {
			if cs[i] > 127 {
				return nil, false
			}
			s.add(cs[i])
		}
		if kind == "IndexAny" {
			return x.search(st, rope(0), match{s}, last, index), true
		}
		return x.search(st, rope(0), match{s}, false, has), true
	case "IndexByte", "IndexRune", "ContainsRune":
		c, ok := args[1].(*Term)
		if !ok {
			return nil, false
		}
		var b byte
		switch {
		case c.isByteC():
			b = byte(c.k)
		case c.isConst() && c.k >= 0 && c.k < 128:
			b = byte(c.k)
		default:
			return nil, false
		}
		if kind == "ContainsRune" {
			return x.search(st, rope(0), match{setOf(b)}, false, has), true
		}
		return x.search(st, rope(0), match{setOf(b)}, last, index), true
	}
	return nil, false
}
