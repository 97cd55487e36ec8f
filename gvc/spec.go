package main

// Spec files: regular expressions with position tags for the accepted texts, and ordered
// error rules over (longest viable prefix, offending symbol). They are compiled to a ghost
// automaton with position registers.

import (
	"fmt"
	"os"
	"sort"
	"strconv"
	"strings"
)

// ---- regular expressions (hash-consed), alphabet 0..255 and EOF

type rx struct {
	op   byte // 0 empty, 1 eps, s set, . cat, | alt, & and, ~ not, * star, < tag
	set  Set256
	eof  bool
	a    []*rx
	tag  string
	id   int
	null bool
	tags bool
	dm   map[int]*rx
}

var rxTab = map[string]*rx{}
var rxList []*rx

func mkrx(r rx) *rx {
	var b strings.Builder
	b.WriteByte(r.op)
	fmt.Fprintf(&b, "%x%v%s", r.set, r.eof, r.tag)
	for _, x := range r.a {
		fmt.Fprintf(&b, ",%d", x.id)
		r.tags = r.tags || x.tags
	}
	if r.op == '<' {
		r.tags = true
	}
	if x, ok := rxTab[b.String()]; ok {
		return x
	}
	switch r.op {
	case 1, '*', '<':
		r.null = true
	case '.', '&':
		r.null = true
		for _, x := range r.a {
			r.null = r.null && x.null
		}
	case '|':
		for _, x := range r.a {
			r.null = r.null || x.null
		}
	case '~':
		r.null = !r.a[0].null
	}
	n := new(rx)
	*n = r
	n.id = len(rxList)
	n.dm = map[int]*rx{}
	rxList = append(rxList, n)
	rxTab[b.String()] = n
	return n
}

var (
	rxEmpty = mkrx(rx{op: 0})
	rxEps   = mkrx(rx{op: 1})
	rxAll   = mkrx(rx{op: '~', a: []*rx{rxEmpty}})
)

func rxSet(s Set256, eof bool) *rx {
	if s.empty() && !eof {
		return rxEmpty
	}
	return mkrx(rx{op: 's', set: s, eof: eof})
}
func rxCat(as ...*rx) *rx {
	var out []*rx
	for _, a := range as {
		if a == rxEmpty {
			return rxEmpty
		}
		if a == rxEps {
			continue
		}
		if a.op == '.' {
			out = append(out, a.a...)
		} else {
			out = append(out, a)
		}
	}
	if len(out) == 0 {
		return rxEps
	}
	if len(out) == 1 {
		return out[0]
	}
	// right-nested for stable derivatives
	r := out[len(out)-1]
	for i := len(out) - 2; i >= 0; i-- {
		r = mkrx(rx{op: '.', a: []*rx{out[i], r}})
	}
	return r
}
func rxNary(op byte, as []*rx) *rx {
	unit, abs := rxEmpty, rxAll
	if op == '&' {
		unit, abs = rxAll, rxEmpty
	}
	m := map[*rx]bool{}
	var out []*rx
	var set Set256
	eof, hasSet := false, false
	var add func(x *rx) bool
	add = func(x *rx) bool {
		if x == abs && !x.tags {
			return false
		}
		if x == unit {
			return true
		}
		if x.op == op {
			for _, y := range x.a {
				if !add(y) {
					return false
				}
			}
			return true
		}
		if op == '|' && x.op == 's' {
			set = set.or(x.set)
			eof = eof || x.eof
			hasSet = true
			return true
		}
		if !m[x] {
			m[x] = true
			out = append(out, x)
		}
		return true
	}
	for _, x := range as {
		if !add(x) {
			return abs
		}
	}
	if hasSet {
		if s := rxSet(set, eof); s != rxEmpty {
			out = append(out, s)
		}
	}
	if len(out) == 0 {
		return unit
	}
	if len(out) == 1 {
		return out[0]
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return mkrx(rx{op: op, a: out})
}
func rxAlt(as ...*rx) *rx { return rxNary('|', as) }
func rxAnd(as ...*rx) *rx { return rxNary('&', as) }
func rxNot(a *rx) *rx {
	if a.op == '~' {
		return a.a[0]
	}
	return mkrx(rx{op: '~', a: []*rx{a}})
}
func rxStar(a *rx) *rx {
	if a == rxEmpty || a == rxEps {
		return rxEps
	}
	if a.op == '*' {
		return a
	}
	return mkrx(rx{op: '*', a: []*rx{a}})
}

const symEOF = 256

func (r *rx) deriv(c int) *rx {
	if d, ok := r.dm[c]; ok {
		return d
	}
	var d *rx
	switch r.op {
	case 0, 1, '<':
		d = rxEmpty
	case 's':
		d = rxEmpty
		if c == symEOF && r.eof || c < 256 && r.set.has(byte(c)) {
			d = rxEps
		}
	case '.':
		d = rxCat(r.a[0].deriv(c), r.a[1])
		if r.a[0].null {
			d = rxAlt(d, r.a[1].deriv(c))
		}
	case '|', '&':
		var as []*rx
		for _, x := range r.a {
			as = append(as, x.deriv(c))
		}
		d = rxNary(r.op, as)
	case '~':
		d = rxNot(r.a[0].deriv(c))
	case '*':
		d = rxCat(r.a[0].deriv(c), r)
	}
	r.dm[c] = d
	return d
}

// ---- spec parser

type ErrRule struct {
	Text string // with %d for the column
	Off  int
	Pat  *rx
}

type ModeSpec struct {
	Name   string
	Accept *rx
	Also   *rx // further texts whose prefixes count as viable
	Errs   []ErrRule
	nfa    *nfa
	g      *ghostAut
	lang   map[string]*lang
}

type specParser struct {
	s    string
	i    int
	lets map[string]*rx
}

func (p *specParser) fail(f string, a ...any) {
	line := 1 + strings.Count(p.s[:p.i], "\n")
	panic(fmt.Sprintf("spec line %d: %s", line, fmt.Sprintf(f, a...)))
}
func (p *specParser) ws() {
	for p.i < len(p.s) {
		c := p.s[p.i]
		if c == '#' && (p.i == 0 || p.s[p.i-1] == '\n' || p.s[p.i-1] == ' ' || p.s[p.i-1] == '\t') {
			for p.i < len(p.s) && p.s[p.i] != '\n' {
				p.i++
			}
			continue
		}
		if c == ' ' || c == '\t' || c == '\n' || c == '\r' {
			p.i++
			continue
		}
		return
	}
}
func (p *specParser) peek() byte {
	p.ws()
	if p.i < len(p.s) {
		return p.s[p.i]
	}
	return 0
}
func (p *specParser) eat(c byte) bool {
	if p.peek() == c {
		p.i++
		return true
	}
	return false
}
func isIdent(c byte) bool {
	return c == '_' || 'a' <= c && c <= 'z' || 'A' <= c && c <= 'Z' || '0' <= c && c <= '9'
}
func (p *specParser) ident() string {
	p.ws()
	j := p.i
	for p.i < len(p.s) && isIdent(p.s[p.i]) {
		p.i++
	}
	if j == p.i {
		p.fail("identifier expected")
	}
	return p.s[j:p.i]
}
func (p *specParser) str() string {
	p.ws()
	j := p.i
	if p.peek() != '"' {
		p.fail("string expected")
	}
	p.i++
	for p.i < len(p.s) && p.s[p.i] != '"' {
		if p.s[p.i] == '\\' {
			p.i++
		}
		p.i++
	}
	p.i++
	r, err := strconv.Unquote(p.s[j:p.i])
	if err != nil {
		p.fail("bad string %s", p.s[j:p.i])
	}
	return r
}
func (p *specParser) num() int {
	p.ws()
	j := p.i
	for p.i < len(p.s) && (isDigit(p.s[p.i]) || p.i == j && (p.s[p.i] == '-' || p.s[p.i] == '+')) {
		p.i++
	}
	n, err := strconv.Atoi(p.s[j:p.i])
	if err != nil {
		p.fail("number expected")
	}
	return n
}
func (p *specParser) alt() *rx {
	r := p.and()
	for p.eat('|') {
		r = rxAlt(r, p.and())
	}
	return r
}
func (p *specParser) and() *rx {
	r := p.cat()
	for p.eat('&') {
		r = rxAnd(r, p.cat())
	}
	return r
}
func (p *specParser) cat() *rx {
	var as []*rx
	for {
		c := p.peek()
		if c == 0 || c == '|' || c == ')' || c == '&' || c == ';' {
			return rxCat(as...)
		}
		as = append(as, p.post())
	}
}
func (p *specParser) post() *rx {
	if p.eat('~') {
		return rxNot(p.post())
	}
	r := p.atom()
	for {
		if p.i >= len(p.s) {
			return r
		}
		switch p.s[p.i] {
		case '*':
			p.i++
			r = rxStar(r)
		case '+':
			p.i++
			r = rxCat(r, rxStar(r))
		case '?':
			p.i++
			r = rxAlt(r, rxEps)
		case '^': // prefixes
			p.i++
			r = rxPrefixes(r)
		case '{':
			p.i++
			m := p.num()
			if !p.eat(',') {
				p.fail("expected ,")
			}
			n := p.num()
			if !p.eat('}') {
				p.fail("expected }")
			}
			t := rxEps
			for i := m; i < n; i++ {
				t = rxAlt(rxCat(r, t), rxEps)
			}
			for i := 0; i < m; i++ {
				t = rxCat(r, t)
			}
			r = t
		default:
			return r
		}
	}
}
func (p *specParser) atom() *rx {
	switch c := p.peek(); {
	case c == '(':
		p.i++
		r := p.alt()
		if !p.eat(')') {
			p.fail("expected )")
		}
		return r
	case c == '"':
		s := p.str()
		var as []*rx
		for i := 0; i < len(s); i++ {
			as = append(as, rxSet(setOf(s[i]), false))
		}
		return rxCat(as...)
	case c == '.':
		p.i++
		return rxSet(fullSet(), false)
	case c == '$':
		p.i++
		return rxSet(Set256{}, true)
	case c == '_' && !(p.i+1 < len(p.s) && isIdent(p.s[p.i+1])):
		p.i++
		return rxSet(fullSet(), true)
	case c == '<':
		p.i++
		t := p.ident()
		if !p.eat('>') {
			p.fail("expected >")
		}
		return mkrx(rx{op: '<', tag: t})
	case c == '[':
		p.i++
		neg := false
		if p.s[p.i] == '^' {
			neg = true
			p.i++
		}
		var s Set256
		get := func() byte {
			if p.s[p.i] == '\\' {
				p.i++
			}
			b := p.s[p.i]
			p.i++
			return b
		}
		for p.s[p.i] != ']' {
			a := get()
			if p.s[p.i] == '-' && p.s[p.i+1] != ']' {
				p.i++
				s = s.or(setRange(a, get()))
			} else {
				s.add(a)
			}
		}
		p.i++
		if neg {
			s = s.not()
		}
		return rxSet(s, false)
	case isIdent(c):
		n := p.ident()
		r, ok := p.lets[n]
		if !ok {
			p.fail("undefined %s", n)
		}
		return r
	default:
		p.fail("unexpected %q", c)
	}
	return nil
}

// rxPrefixes is the set of prefixes of the words of an expression without & and ~.
func rxPrefixes(r *rx) *rx {
	switch r.op {
	case 0, 1:
		return r
	case 's':
		return rxAlt(rxEps, r)
	case '.':
		return rxAlt(rxPrefixes(r.a[0]), rxCat(r.a[0], rxPrefixes(r.a[1])))
	case '|':
		var as []*rx
		for _, x := range r.a {
			as = append(as, rxPrefixes(x))
		}
		return rxAlt(as...)
	case '*':
		return rxCat(r, rxPrefixes(r.a[0]))
	}
	panic("prefix operator: unsupported expression")
}

func parseSpec(file string) (modes []*ModeSpec, err error) {
	b, err := os.ReadFile(file)
	if err != nil {
		return nil, err
	}
	p := &specParser{s: string(b), lets: map[string]*rx{}}
	defer func() {
		if x := recover(); x != nil {
			err = fmt.Errorf("%s: %v", file, x)
		}
	}()
	var cur *ModeSpec
	for p.peek() != 0 {
		switch w := p.ident(); w {
		case "let":
			n := p.ident()
			if !p.eat('=') {
				p.fail("expected =")
			}
			p.lets[n] = p.alt()
		case "mode":
			cur = &ModeSpec{Name: p.ident()}
			modes = append(modes, cur)
		case "accept":
			if !p.eat('=') {
				p.fail("expected =")
			}
			cur.Accept = p.alt()
		case "viable":
			if !p.eat('=') {
				p.fail("expected =")
			}
			cur.Also = p.alt()
		case "error":
			r := ErrRule{Text: p.str(), Off: p.num()}
			if !p.eat('=') {
				p.fail("expected =")
			}
			r.Pat = p.alt()
			cur.Errs = append(cur.Errs, r)
		default:
			p.fail("unexpected %s", w)
		}
		if !p.eat(';') {
			p.fail("expected ;")
		}
	}
	for _, m := range modes {
		m.nfa = buildNFA(m.Accept, m.Also)
		m.g = newGhost(m)
	}
	return modes, nil
}

// ---- tagged NFA

type nfaEdge struct {
	set Set256
	tag string
	eps bool
	to  int
}
type nfa struct {
	edges  [][]nfaEdge
	start  int
	final  int
	useful []bool
}

func (n *nfa) add() int { n.edges = append(n.edges, nil); return len(n.edges) - 1 }
func (n *nfa) eps(a, b int, tag string) {
	n.edges[a] = append(n.edges[a], nfaEdge{eps: true, tag: tag, to: b})
}

func buildNFA(r, also *rx) *nfa {
	n := &nfa{}
	n.start = n.add()
	n.final = n.add()
	fin2 := n.add()
	n.build(r, n.start, n.final)
	if also != nil {
		a := n.add()
		n.eps(n.start, a, "")
		n.build(also, a, fin2)
	}
	// useful states: can reach final
	rev := make([][]int, len(n.edges))
	for a, es := range n.edges {
		for _, e := range es {
			rev[e.to] = append(rev[e.to], a)
		}
	}
	n.useful = make([]bool, len(n.edges))
	st := []int{n.final, fin2}
	n.useful[n.final], n.useful[fin2] = true, true
	for len(st) > 0 {
		x := st[len(st)-1]
		st = st[:len(st)-1]
		for _, y := range rev[x] {
			if !n.useful[y] {
				n.useful[y] = true
				st = append(st, y)
			}
		}
	}
	return n
}

func hasBool(r *rx) bool {
	if r.op == '&' || r.op == '~' {
		return true
	}
	for _, x := range r.a {
		if hasBool(x) {
			return true
		}
	}
	return false
}

func (n *nfa) build(r *rx, from, to int) {
	if !r.tags && hasBoolTop(r) {
		n.buildDFA(r, from, to)
		return
	}
	switch r.op {
	case 0:
	case 1:
		n.eps(from, to, "")
	case '<':
		n.eps(from, to, r.tag)
	case 's':
		n.edges[from] = append(n.edges[from], nfaEdge{set: r.set, to: to})
	case '.':
		m := n.add()
		n.build(r.a[0], from, m)
		n.build(r.a[1], m, to)
	case '|':
		for _, x := range r.a {
			// own entry and exit keep stars inside alternatives apart
			a, b := n.add(), n.add()
			n.eps(from, a, "")
			n.eps(b, to, "")
			n.build(x, a, b)
		}
	case '*':
		m := n.add()
		n.eps(from, m, "")
		n.build(r.a[0], m, m)
		n.eps(m, to, "")
	default:
		panic("spec: tags under & or ~")
	}
}

func hasBoolTop(r *rx) bool { return r.op == '&' || r.op == '~' }

// buildDFA embeds the derivative automaton of an untagged expression.
func (n *nfa) buildDFA(r *rx, from, to int) {
	states := map[*rx]int{}
	var order []*rx
	get := func(x *rx) int {
		if s, ok := states[x]; ok {
			return s
		}
		s := n.add()
		states[x] = s
		order = append(order, x)
		return s
	}
	n.eps(from, get(r), "")
	for i := 0; i < len(order); i++ {
		x := order[i]
		s := states[x]
		if x.null {
			n.eps(s, to, "")
		}
		by := map[*rx]Set256{}
		var ks []*rx
		for c := 0; c < 256; c++ {
			d := x.deriv(c)
			if d == rxEmpty {
				continue
			}
			if _, ok := by[d]; !ok {
				ks = append(ks, d)
			}
			v := by[d]
			v.add(byte(c))
			by[d] = v
		}
		for _, d := range ks {
			t := get(d)
			n.edges[s] = append(n.edges[s], nfaEdge{set: by[d], to: t})
		}
	}
}

// closure lists the states reachable by ε from s with the tags crossed on the way.
type clos struct {
	st   int
	tags []string
}

func (n *nfa) closure(s int) []clos {
	var out []clos
	seen := map[int][]string{}
	var walk func(s int, tags []string)
	walk = func(s int, tags []string) {
		if !n.useful[s] {
			return
		}
		if o, ok := seen[s]; ok {
			if strings.Join(o, ",") != strings.Join(tags, ",") {
				panic(fmt.Sprintf("spec: ambiguous tags %v / %v", o, tags))
			}
			return
		}
		seen[s] = tags
		out = append(out, clos{s, tags})
		for _, e := range n.edges[s] {
			if e.eps {
				t := tags
				if e.tag != "" {
					t = append(tags[:len(tags):len(tags)], e.tag)
				}
				walk(e.to, t)
			}
		}
	}
	walk(s, nil)
	return out
}

// ---- ghost automaton: determinised tagged NFA with registers, in step with the error rules

type gThread struct {
	st   int            // NFA state (after consuming)
	tags map[string]int // tag -> register
}

type gState struct {
	id      int
	threads []gThread
	nregs   int
	errs    []*rx
	key     string
	succ    []gSucc // by byte class
	eof     *gEnd
	last    [lastK]Set256 // possible values of the last bytes
	lastOK  [lastK]bool
	// ub[a][b]: upper bound of a-b over {zero, I, regs...}
	ub     [][]int64
	visit  int
	tightE [][2]int
	word   []byte // a shortest input reaching the state
}

// gEnd is an outcome: acceptance with tag registers (-1: position N) or an error.
type gEnd struct {
	acc  bool
	tags map[string]int
	cls  int
}

type gSucc struct {
	set  Set256
	to   *gState // nil: error
	regs []int   // new register -> old register, or -1 for I
	cls  int
}

type ghostAut struct {
	m      *ModeSpec
	states []*gState
	tab    map[string]*gState
}

func newGhost(m *ModeSpec) *ghostAut {
	g := &ghostAut{m: m, tab: map[string]*gState{}}
	var es []*rx
	for _, e := range m.Errs {
		es = append(es, e.Pat)
	}
	q0 := g.intern([]gThread{{st: m.nfa.start, tags: map[string]int{}}}, 0, es, nil)
	for i := 0; i < len(g.states); i++ {
		g.expand(g.states[i])
		if len(g.states) > 5000 {
			panic("spec: too many states")
		}
	}
	g.analyse(q0)
	return g
}

func (g *ghostAut) intern(ts []gThread, nregs int, es []*rx, word []byte) *gState {
	var b strings.Builder
	for _, t := range ts {
		fmt.Fprintf(&b, "%d:", t.st)
		var ks []string
		for k := range t.tags {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			fmt.Fprintf(&b, "%s=%d,", k, t.tags[k])
		}
		b.WriteByte(';')
	}
	for _, e := range es {
		fmt.Fprintf(&b, "/%d", e.id)
	}
	k := b.String()
	if s, ok := g.tab[k]; ok {
		return s
	}
	s := &gState{id: len(g.states), threads: ts, nregs: nregs, errs: es, key: k, word: word}
	g.states = append(g.states, s)
	g.tab[k] = s
	return s
}

func (g *ghostAut) class(es []*rx, c int) int {
	for i, e := range es {
		if e.deriv(c).null {
			return i
		}
	}
	return -1
}

func (g *ghostAut) expand(s *gState) {
	n := g.m.nfa
	type cand struct {
		t    gThread
		tags map[string]int // -1: I
		st   int
	}
	var cl []cand
	for _, t := range s.threads {
		for _, c := range n.closure(t.st) {
			m := map[string]int{}
			for k, v := range t.tags {
				m[k] = v
			}
			for _, tg := range c.tags {
				if _, dup := m[tg]; dup {
					panic("spec: tag set twice: " + tg)
				}
				m[tg] = -1
			}
			cl = append(cl, cand{t, m, c.st})
		}
	}
	// end of input
	var acc []map[string]int
	for _, c := range cl {
		if c.st == n.final {
			acc = append(acc, c.tags)
		}
	}
	if len(acc) > 1 {
		panic(fmt.Sprintf("spec %s: ambiguous acceptance after %q", g.m.Name, s.word))
	}
	if len(acc) == 1 {
		s.eof = &gEnd{acc: true, tags: acc[0]}
	} else {
		s.eof = &gEnd{cls: g.class(s.errs, symEOF)}
	}
	// byte classes
	sig := func(c int) string {
		var b strings.Builder
		for i, x := range cl {
			for j, e := range n.edges[x.st] {
				if !e.eps && n.useful[e.to] && e.set.has(byte(c)) {
					fmt.Fprintf(&b, "%d.%d ", i, j)
				}
			}
		}
		if b.Len() == 0 {
			return fmt.Sprintf("E%d", g.class(s.errs, c))
		}
		for _, e := range s.errs {
			fmt.Fprintf(&b, "/%d", e.deriv(c).id)
		}
		return b.String()
	}
	by := map[string]int{}
	for c := 0; c < 256; c++ {
		k := sig(c)
		if i, ok := by[k]; ok {
			s.succ[i].set.add(byte(c))
			continue
		}
		by[k] = len(s.succ)
		s.succ = append(s.succ, gSucc{set: setOf(byte(c))})
		sc := &s.succ[len(s.succ)-1]
		if k[0] == 'E' {
			sc.cls = g.class(s.errs, c)
			continue
		}
		type nt struct {
			st   int
			tags map[string]int
		}
		var nts []nt
		for _, x := range cl {
			for _, e := range n.edges[x.st] {
				if !e.eps && n.useful[e.to] && e.set.has(byte(c)) {
					nts = append(nts, nt{e.to, x.tags})
				}
			}
		}
		sort.SliceStable(nts, func(i, j int) bool { return nts[i].st < nts[j].st })
		// number registers by first use, in tag order
		regOf := map[int]int{}
		var regs []int
		var ts []gThread
		for _, x := range nts {
			var ks []string
			for k := range x.tags {
				ks = append(ks, k)
			}
			sort.Strings(ks)
			m := map[string]int{}
			for _, k := range ks {
				src := x.tags[k]
				r, ok := regOf[src]
				if !ok {
					r = len(regs)
					regOf[src] = r
					regs = append(regs, src)
				}
				m[k] = r
			}
			if l := len(ts); l > 0 && ts[l-1].st == x.st {
				if fmt.Sprint(ts[l-1].tags) != fmt.Sprint(m) {
					panic(fmt.Sprintf("spec %s: ambiguous after %q %q", g.m.Name, s.word, rune(c)))
				}
				continue
			}
			ts = append(ts, gThread{x.st, m})
		}
		var es []*rx
		for _, e := range s.errs {
			es = append(es, e.deriv(c))
		}
		w := append(s.word[:len(s.word):len(s.word)], byte(c))
		sc.to = g.intern(ts, len(regs), es, w)
		sc.regs = regs
	}
}

const ginf = int64(1) << 50

// lastK is how many of the last bytes a ghost state remembers something about.
const lastK = 24

// tight returns the pairs (a, b) whose bounds imply all others.
func (s *gState) tight() [][2]int {
	if s.tightE != nil {
		return s.tightE
	}
	n := len(s.ub)
	keep := map[[2]int]bool{}
	for a := 0; a < n; a++ {
		for b := 0; b < n; b++ {
			if a != b && s.ub[a][b] < ginf {
				keep[[2]int{a, b}] = true
			}
		}
	}
	// drop a bound when the remaining ones still give it
	for a := 0; a < n; a++ {
		for b := 0; b < n; b++ {
			e := [2]int{a, b}
			if !keep[e] {
				continue
			}
			delete(keep, e)
			// shortest path from b to a: a-b <= sum
			d := make([]int64, n)
			for i := range d {
				d[i] = ginf
			}
			d[b] = 0
			for it := 0; it < n; it++ {
				for f := range keep { // x-y <= w: edge y->x
					if d[f[1]] < ginf && d[f[1]]+s.ub[f[0]][f[1]] < d[f[0]] {
						d[f[0]] = d[f[1]] + s.ub[f[0]][f[1]]
					}
				}
			}
			if d[a] > s.ub[a][b] {
				keep[e] = true
			}
		}
	}
	s.tightE = [][2]int{}
	for a := 0; a < n; a++ {
		for b := 0; b < n; b++ {
			if keep[[2]int{a, b}] {
				s.tightE = append(s.tightE, [2]int{a, b})
			}
		}
	}
	return s.tightE
}

// analyse computes difference bounds between 0, the position and the registers, and the last bytes, per state.
func (g *ghostAut) analyse(q0 *gState) {
	newM := func(n int, v int64) [][]int64 {
		m := make([][]int64, n)
		for i := range m {
			m[i] = make([]int64, n)
			for j := range m[i] {
				if i != j {
					m[i][j] = v
				}
			}
		}
		return m
	}
	q0.ub = newM(2, 0)
	work := []*gState{q0}
	inq := map[*gState]bool{q0: true}
	for len(work) > 0 {
		s := work[0]
		work = work[1:]
		inq[s] = false
		s.visit++
		for i := range s.succ {
			sc := &s.succ[i]
			if sc.to == nil {
				continue
			}
			t := sc.to
			n := 2 + t.nregs
			src := func(k int) (int, int64) { // index in s and offset
				switch {
				case k == 0:
					return 0, 0
				case k == 1:
					return 1, 1
				}
				if o := sc.regs[k-2]; o >= 0 {
					return 2 + o, 0
				}
				return 1, 0
			}
			m := newM(n, ginf)
			for a := 0; a < n; a++ {
				for b := 0; b < n; b++ {
					sa, oa := src(a)
					sb, ob := src(b)
					u := s.ub[sa][sb]
					if u < ginf {
						u += oa - ob
					}
					if a == b {
						u = 0
					}
					m[a][b] = u
				}
			}
			var last [lastK]Set256
			var ok [lastK]bool
			last[0], ok[0] = sc.set, true
			for k := 1; k < lastK; k++ {
				last[k], ok[k] = s.last[k-1], s.lastOK[k-1]
			}
			ch := false
			if t.ub == nil {
				t.ub = m
				t.last, t.lastOK = last, ok
				ch = true
			} else {
				for a := range m {
					for b := range m {
						if m[a][b] > t.ub[a][b] {
							if t.visit > 2 || m[a][b] >= ginf {
								t.ub[a][b] = ginf
							} else {
								t.ub[a][b] = m[a][b]
							}
							ch = true
						}
					}
				}
				for k := range last {
					u := t.last[k].or(last[k])
					o := t.lastOK[k] && ok[k]
					if u != t.last[k] || o != t.lastOK[k] {
						t.last[k], t.lastOK[k] = u, o
						ch = true
					}
				}
			}
			if ch && !inq[t] {
				inq[t] = true
				work = append(work, t)
			}
		}
	}
}

func (m *ModeSpec) errText(cls int) string {
	if cls < 0 {
		return "<no rule>"
	}
	return m.Errs[cls].Text
}
func (m *ModeSpec) errOff(cls int) int64 {
	if cls < 0 {
		return 0
	}
	return int64(m.Errs[cls].Off)
}

// run is the concrete meaning of the spec: it returns the outcome on a word.
type specResult struct {
	Acc  bool
	Tags map[string]int
	Cls  int
	Col  int
}

func (g *ghostAut) run(w []byte) specResult {
	s := g.states[0]
	var regs []int
	for i := 0; i < len(w); i++ {
		var sc *gSucc
		for k := range s.succ {
			if s.succ[k].set.has(w[i]) {
				sc = &s.succ[k]
			}
		}
		if sc.to == nil {
			return specResult{Cls: sc.cls, Col: i + int(g.m.errOff(sc.cls))}
		}
		nr := make([]int, len(sc.regs))
		for j, o := range sc.regs {
			if o >= 0 {
				nr[j] = regs[o]
			} else {
				nr[j] = i
			}
		}
		regs, s = nr, sc.to
	}
	if s.eof.acc {
		r := specResult{Acc: true, Tags: map[string]int{}}
		for k, v := range s.eof.tags {
			if v >= 0 {
				r.Tags[k] = regs[v]
			} else {
				r.Tags[k] = len(w)
			}
		}
		return r
	}
	return specResult{Cls: s.eof.cls, Col: len(w) + int(g.m.errOff(s.eof.cls))}
}
