package urn

// Compiled meaning of the gvc functions: the same lemmas, run on the real code with concrete values,
// to look for an input behind a failed obligation and to replay it. Used through go test -overlay.

import (
	"bytes"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"reflect"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"
)

// ---- the grammars

type gvcState struct {
	To   [256]int       `json:"to"`
	Cls  [256]int       `json:"cls"`
	Sel  [256]int       `json:"sel"`
	Regs [][]int        `json:"regs"`
	Acc  bool           `json:"acc"`
	Tags map[string]int `json:"tags"`
	Eof  int            `json:"eof"`
	Word []byte         `json:"word"`
	done []byte         // a shortest completion to an accepted text
	live bool
}

type gvcMode struct {
	Name   string      `json:"name"`
	States []*gvcState `json:"states"`
	Errs   []struct {
		Text string `json:"text"`
		Off  int    `json:"off"`
	} `json:"errs"`
}

type gvcResult struct {
	acc  bool
	tags map[string]int
	cls  int
	pos  int
}

func (m *gvcMode) run(w []byte) gvcResult {
	s := m.States[0]
	var regs []int
	for i, b := range w {
		if s.To[b] < 0 {
			return gvcResult{cls: s.Cls[b], pos: i}
		}
		mv := s.Regs[s.Sel[b]]
		nr := make([]int, len(mv))
		for j, o := range mv {
			nr[j] = i
			if o >= 0 {
				nr[j] = regs[o]
			}
		}
		regs, s = nr, m.States[s.To[b]]
	}
	if !s.Acc {
		return gvcResult{cls: s.Eof, pos: len(w)}
	}
	r := gvcResult{acc: true, tags: map[string]int{}}
	for k, v := range s.Tags {
		r.tags[k] = len(w)
		if v >= 0 {
			r.tags[k] = regs[v]
		}
	}
	return r
}

func (m *gvcMode) complete() {
	type back struct {
		from int
		b    byte
	}
	rev := map[int][]back{}
	var queue []int
	for i, s := range m.States {
		seen := map[int]bool{}
		for b := 255; b >= 0; b-- { // letters first
			c := byte(b)
			if t := s.To[c]; t >= 0 && !seen[t*64+s.Sel[c]] {
				seen[t*64+s.Sel[c]] = true
				rev[t] = append(rev[t], back{i, c})
			}
		}
		if s.Acc {
			s.live = true
			queue = append(queue, i)
		}
	}
	for len(queue) > 0 {
		i := queue[0]
		queue = queue[1:]
		for _, e := range rev[i] {
			if s := m.States[e.from]; !s.live {
				s.live = true
				s.done = append([]byte{e.b}, m.States[i].done...)
				queue = append(queue, e.from)
			}
		}
	}
}

// ---- the run

type gvcBuf struct {
	mem []byte // whole pages
	b   []byte
	was []byte
}

type gvcRun struct {
	modes map[string]*gvcMode
	order []string
	cover []string
	sys   []string // every byte at every state, completed
	dict  []string
	hint  []string

	rnd     *rand.Rand
	iter    int
	replay  map[string]string // values by name
	used    map[string]string // values by name, of this run
	strs    []string
	bufs    []*gvcBuf
	watch   []any
	snap    []string
	fail    string
	ensured int
}

var gvc gvcRun

type gvcSkip struct{}
type gvcStop struct{}

func (g *gvcRun) load() {
	b, err := os.ReadFile(os.Getenv("GVC_TABLES"))
	if err != nil {
		panic(err)
	}
	var ms []*gvcMode
	if err := json.Unmarshal(b, &ms); err != nil {
		panic(err)
	}
	g.modes = map[string]*gvcMode{}
	for _, m := range ms {
		m.complete()
		g.modes[m.Name] = m
		g.order = append(g.order, m.Name)
	}
	if b, err := os.ReadFile(os.Getenv("GVC_DICT")); err == nil {
		json.Unmarshal(b, &g.dict)
	}
}

// words: every transition of a mode's automaton, cut off there, completed, and followed by odd bytes.
func (g *gvcRun) words(name string) {
	m := g.modes[name]
	seen := map[string]bool{}
	add := func(p ...[]byte) {
		w := string(bytes.Join(p, nil))
		if !seen[w] {
			seen[w] = true
			g.cover = append(g.cover, w)
		}
	}
	for _, s := range m.States {
		add(s.Word)
		add(s.Word, s.done)
		done := map[string]bool{}
		for b := 0; b < 256; b++ {
			c := byte(b)
			k := fmt.Sprint(s.To[c], s.Cls[c], s.Sel[c])
			if done[k] && !(b >= 0x20 && b < 0x7f && (b < '0' || strings.IndexByte("0179AFUZafrnuz", c) >= 0)) && b != 0x80 && b != 0xff && b != 0x7f && b != 0 {
				continue
			}
			done[k] = true
			add(s.Word, []byte{c})
			if t := s.To[c]; t >= 0 {
				add(s.Word, []byte{c}, m.States[t].done)
				for _, q := range []byte("a?#%/-") {
					if m.States[t].To[q] >= 0 {
						add(s.Word, []byte{c, q}, m.States[m.States[t].To[q]].done)
					}
				}
			} else {
				add(s.Word, []byte{c}, []byte("a"))
			}
		}
	}
}

// sweep: every byte that leaves the language at every state, followed by what would complete another byte
// there; by the shortest way to the state, then by another way through each state before it.
func (g *gvcRun) sweep(name string) {
	m := g.modes[name]
	seen := map[string]bool{}
	for _, all := range []bool{false, true} {
		var sys []string
		for i, s := range m.States {
			ways := [][]byte{s.Word}
			if all {
				ways = nil
				for _, f := range m.States {
					for b := 0; b < 256; b++ {
						if f.To[b] == i {
							ways = append(ways, append(append([]byte(nil), f.Word...), byte(b)))
							break
						}
					}
				}
			}
			tails := map[string]bool{string(s.done): true}
			for b := 255; b >= 0; b-- {
				if t := s.To[b]; t >= 0 && m.States[t].live && len(tails) < 3 {
					tails[string(m.States[t].done)] = true
				}
			}
			for _, way := range ways {
				for b := 0; b < 256; b++ {
					if s.To[b] >= 0 {
						continue
					}
					for t := range tails {
						w := string(way) + string([]byte{byte(b)}) + t
						if !seen[w] {
							seen[w] = true
							sys = append(sys, w)
						}
					}
				}
			}
		}
		sort.Strings(sys)
		rand.New(rand.NewSource(1)).Shuffle(len(sys), func(i, j int) { sys[i], sys[j] = sys[j], sys[i] })
		g.sys = append(g.sys, sys...)
	}
}

func (g *gvcRun) pick(ss []string) string { return ss[g.rnd.Intn(len(ss))] }

// accepted is a random walk to an accepted text.
func (g *gvcRun) walk(m *gvcMode, n int) []byte {
	var w []byte
	s := m.States[0]
	for len(w) < n {
		var c byte
		ok := false
		for try := 0; try < 20 && !ok; try++ {
			if r := g.rnd.Intn(12); r < 3 {
				c = byte(g.rnd.Intn(256))
			} else if r < 6 {
				c = "0123456789abcdefXYZ-%:?+=#/.~"[g.rnd.Intn(29)]
			} else if len(s.done) > 0 && r < 9 {
				c = s.done[0]
			} else {
				c = byte(0x20 + g.rnd.Intn(0x5f))
			}
			ok = s.To[c] >= 0 && m.States[s.To[c]].live
		}
		if !ok {
			break
		}
		w = append(w, c)
		s = m.States[s.To[c]]
	}
	return append(w, s.done...)
}

func (g *gvcRun) mutate(w []byte) []byte {
	w = append([]byte(nil), w...)
	for k := g.rnd.Intn(4); k >= 0; k-- {
		i, j := 0, 0
		if len(w) > 0 {
			i = g.rnd.Intn(len(w) + 1)
			j = i + g.rnd.Intn(len(w)+1-i)
		}
		switch g.rnd.Intn(9) {
		case 0: // case
			for x := range w {
				if c := w[x] | 0x20; c >= 'a' && c <= 'z' && g.rnd.Intn(2) == 0 {
					w[x] ^= 0x20
				}
			}
		case 1: // drop
			if j-i < 4 {
				w = append(w[:i:i], w[j:]...)
			}
		case 2: // repeat
			n := 1 + g.rnd.Intn(4)
			if g.rnd.Intn(8) == 0 {
				n = g.rnd.Intn(300)
			}
			if j-i > 6 {
				j = i + 1 + g.rnd.Intn(6)
			}
			w = append(w[:j:j], append(bytes.Repeat(w[i:j], n), w[j:]...)...)
		case 3: // odd byte
			w = append(w[:i:i], append([]byte{byte(g.rnd.Intn(256))}, w[i:]...)...)
		case 4: // plausible piece
			p := g.pick([]string{"%2f", "%2F", "%aA", "%Zz", "%", "-", ":", "?+", "?=", "?", "#", "/", "~", "&", "a", "0", "Z", "urn", "urn:", "URN-", "urn-0", "urn-7", "//", "?+a", "?=b", "#c", "\x00", "\xff", "\xe2\x84\xaa", "\xc4\xb0"})
			w = append(w[:i:i], append([]byte(p), w[i:]...)...)
		case 5:
			if len(g.dict) > 0 {
				w = append(w[:i:i], append([]byte(g.pick(g.dict)), w[i:]...)...)
			}
		case 6: // replace
			if i < len(w) {
				w[i] = "abzAZ09-%:?+=#/.~&'!*()$,;@_ \x00\x7f\x80\xff\n\""[g.rnd.Intn(34)]
			}
		case 7: // splice
			v := g.cover[g.rnd.Intn(len(g.cover))]
			if len(v) > 0 {
				x := g.rnd.Intn(len(v))
				w = append(w[:i:i], v[x:]...)
			}
		case 8:
			if j-i > 0 {
				w = append(w[:i:i], append(bytes.ToUpper(w[i:j]), w[j:]...)...)
			}
		}
	}
	return w
}

// probe is any byte after the shortest way to any state, followed by what would complete another byte there.
func (g *gvcRun) probe(m *gvcMode) []byte {
	s := m.States[g.rnd.Intn(len(m.States))]
	w := append([]byte(nil), s.Word...)
	if g.rnd.Intn(4) == 0 { // later: once more from here
		if t := s.To['a']; t >= 0 {
			w, s = append(w, 'a'), m.States[t]
		}
	}
	var next []int
	for b := 0; b < 256; b++ {
		if t := s.To[b]; t >= 0 && m.States[t].live {
			next = append(next, t)
		}
	}
	w = append(w, byte(g.rnd.Intn(256)))
	if len(next) > 0 && g.rnd.Intn(4) > 0 {
		t := m.States[next[g.rnd.Intn(len(next))]]
		w = append(w, t.done...)
	} else {
		w = append(w, s.done...)
	}
	return w
}

func (g *gvcRun) word() []byte {
	m := g.modes[g.pick(g.hint)]
	switch g.rnd.Intn(9) {
	case 6, 7, 8:
		return g.probe(m)
	case 0:
		return []byte(g.cover[g.rnd.Intn(len(g.cover))])
	case 1, 2:
		return g.walk(m, g.rnd.Intn(40))
	case 3:
		return g.mutate(g.walk(m, g.rnd.Intn(90)))
	default:
		return g.mutate([]byte(g.cover[g.rnd.Intn(len(g.cover))]))
	}
}

func (g *gvcRun) text(name string) string {
	if strings.HasSuffix(name, "type") || strings.HasSuffix(name, "Type") {
		switch g.rnd.Intn(3) {
		case 0:
			return g.pick([]string{"schemas", "api", "param", "", "Schemas", "API", "params", "schema", "ap", "apii", "PARAM"})
		case 1:
			return string(g.mutate([]byte(g.pick([]string{"schemas", "api", "param"}))))
		}
	}
	if len(g.strs) > 0 && g.rnd.Intn(2) == 0 { // related to an earlier one
		s := []byte(g.pick(g.strs))
		switch g.rnd.Intn(4) {
		case 0:
		case 1:
			for x := range s {
				if c := s[x] | 0x20; c >= 'a' && c <= 'z' && g.rnd.Intn(2) == 0 {
					s[x] ^= 0x20
				}
			}
		case 2:
			s = []byte(gvcNorm(string(s)))
		default:
			s = g.mutate(s)
		}
		return string(s)
	}
	switch g.rnd.Intn(8) {
	case 0:
		return ""
	case 1:
		return g.pick([]string{"a", "A", "urn", "%2F", "%2f", "a%Zzb", "%", "%a", "x%aB%Cdy", "%%2F", "%2F%", "\u212a", "\u0130", "\xff", "a:b", "urn-7", "\"", "\\", "<&>", "\u2028"})
	default:
		w := string(g.word())
		p := strings.SplitN(w, ":", 3)
		return p[g.rnd.Intn(len(p))]
	}
}

func (g *gvcRun) json() []byte {
	w := g.word()
	switch g.rnd.Intn(8) {
	case 0:
		return []byte(g.pick([]string{"null", "0", "{}", "[]", "true", "\"\"", "", "\"", "\"urn:a:b", "urn:a:b", " \"urn:a:b\" ", "\"urn:a:b\"x", "[\"urn:a:b\"]", "\"\\ud800\"", "\"\x00\""}))
	case 1:
		return append(append([]byte{'"'}, w...), '"')
	case 2:
		var b bytes.Buffer
		b.WriteByte('"')
		for _, c := range w {
			if g.rnd.Intn(3) == 0 || c < 0x20 || c == '"' || c == '\\' {
				fmt.Fprintf(&b, "\\u%04x", c)
			} else {
				b.WriteByte(c)
			}
		}
		b.WriteByte('"')
		return b.Bytes()
	case 3:
		b, _ := json.Marshal(string(w))
		return g.mutate(b)
	default:
		b, _ := json.Marshal(string(w))
		return b
	}
}

func (g *gvcRun) value(name, kind string, gen func() string) string {
	for n, k := name, 2; ; k++ {
		if _, ok := g.used[n]; !ok {
			name = n
			break
		}
		n = fmt.Sprintf("%s/%d", name, k)
	}
	v, ok := g.replay[name]
	if !ok {
		v = gen()
	}
	g.used[name] = v
	return v
}

// ---- the intrinsics

func gvcBytes(name string) []byte {
	g := &gvc
	v := g.value(name, "bytes", func() string {
		if strings.HasPrefix(name, "json") {
			return string(g.json())
		}
		first := len(g.bufs) == 0
		if first && g.iter < len(g.cover) {
			return g.cover[g.iter]
		}
		if k := g.iter - len(g.cover); first && k%2 == 0 && k/2 < len(g.sys) {
			return g.sys[k/2]
		}
		if g.rnd.Intn(200) == 0 {
			return "\x00nil"
		}
		if !first && g.rnd.Intn(3) == 0 && len(g.bufs) > 0 {
			return string(g.mutate(g.bufs[len(g.bufs)-1].was))
		}
		return string(g.word())
	})
	if v == "\x00nil" {
		g.bufs = append(g.bufs, &gvcBuf{})
		return nil
	}
	page := os.Getpagesize()
	n := (len(v) + 64 + page - 1) / page * page
	mem := gvcPages(n)
	for i := len(v); i < n; i++ {
		mem[i] = 'k'
	}
	copy(mem, v)
	syscall.Mprotect(mem, syscall.PROT_READ)
	b := &gvcBuf{mem: mem, b: mem[:len(v):n], was: []byte(v)}
	g.bufs = append(g.bufs, b)
	return b.b
}

var gvcPool = map[int][][]byte{}

func gvcPages(n int) []byte {
	if p := gvcPool[n]; len(p) > 0 {
		gvcPool[n] = p[:len(p)-1]
		syscall.Mprotect(p[len(p)-1], syscall.PROT_READ|syscall.PROT_WRITE)
		return p[len(p)-1]
	}
	mem, err := syscall.Mmap(-1, 0, n, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_ANON|syscall.MAP_PRIVATE)
	if err != nil {
		panic(err)
	}
	return mem
}

func gvcString(name string) string {
	s := gvc.value(name, "string", func() string { return gvc.text(name) })
	gvc.strs = append(gvc.strs, s)
	return s
}

func gvcInt(name string) int {
	v := gvc.value(name, "int", func() string {
		if gvc.rnd.Intn(10) == 0 {
			return strconv.Itoa(gvc.rnd.Intn(1<<40) - 1<<39)
		}
		return strconv.Itoa(gvc.rnd.Intn(15) - 2)
	})
	n, _ := strconv.Atoi(v)
	return n
}

// gvcSetKind sets the fields of type Kind, whatever they are called.
func gvcSetKind(u *URN, kind int) {
	v := reflect.ValueOf(u).Elem()
	for i := 0; i < v.NumField(); i++ {
		if f := v.Field(i); f.Type() == reflect.TypeOf(Kind(0)) {
			*(*Kind)(f.Addr().UnsafePointer()) = Kind(kind)
		}
	}
}

// gvcStoredField is the text field of URN that is no piece of the text, whatever it is called.
func gvcStoredField(u *URN) *string {
	var res *string
	v := reflect.ValueOf(u).Elem()
	for i := 0; i < v.NumField(); i++ {
		f := v.Field(i)
		if f.Kind() != reflect.String {
			continue
		}
		switch n := v.Type().Field(i).Name; n {
		case "prefix", "ID", "SS", "rComponent", "qComponent", "fComponent":
		default:
			if p := (*string)(f.Addr().UnsafePointer()); res == nil || n == "norm" {
				res = p
			}
		}
	}
	return res
}

func gvcStore(u *URN, norm string) {
	if p := gvcStoredField(u); p != nil {
		*p = norm
	}
}

func gvcStored(u *URN) string {
	if p := gvcStoredField(u); p != nil {
		return *p
	}
	return ""
}

func gvcViewField(u *URN) **SCIM {
	v := reflect.ValueOf(u).Elem()
	for i := 0; i < v.NumField(); i++ {
		if f := v.Field(i); f.Type() == reflect.TypeOf((*SCIM)(nil)) {
			return (**SCIM)(f.Addr().UnsafePointer())
		}
	}
	return nil
}

func gvcSetView(u *URN, s *SCIM) {
	if p := gvcViewField(u); p != nil {
		*p = s
	}
}

func gvcHeldView(u *URN) *SCIM {
	if p := gvcViewField(u); p != nil {
		return *p
	}
	return nil
}

func gvcBool(name string) bool {
	return gvc.value(name, "bool", func() string { return strconv.FormatBool(gvc.rnd.Intn(2) == 0) }) == "true"
}

func gvcRequire(c bool) {
	if !c {
		panic(gvcSkip{})
	}
}

func (g *gvcRun) failed(f string, a ...any) {
	g.fail = fmt.Sprintf(f, a...)
	panic(gvcStop{})
}

func gvcEnsure(label string, c bool) {
	gvc.ensured++
	if !c {
		gvc.failed("%s does not hold", label)
	}
}

func gvcEqual(label string, a, b string) {
	gvc.ensured++
	if a != b {
		gvc.failed("%s: got %q, want %q", label, a, b)
	}
}

func gvcSpec(mode string) {}
func gvcAccepts(mode string, in []byte) bool {
	return gvc.modes[mode].run(in).acc
}
func gvcPiece(mode string, in []byte, a, b string) string {
	r := gvc.modes[mode].run(in)
	if !r.acc {
		return ""
	}
	lo, ok := r.tags[a]
	hi, ok2 := r.tags[b]
	if !ok || !ok2 {
		return ""
	}
	return string(in[lo:hi])
}
func gvcHas(mode string, in []byte, tag string) bool {
	_, ok := gvc.modes[mode].run(in).tags[tag]
	return ok
}
func gvcErr(mode string, in []byte) string {
	m := gvc.modes[mode]
	r := m.run(in)
	if r.acc {
		return ""
	}
	return strings.Replace(m.Errs[r.cls].Text, "%d", strconv.Itoa(r.pos+m.Errs[r.cls].Off), 1)
}
func gvcLower(s string) string { return strings.ToLower(s) }

// gvcNorm lowers the letters at most two places after a %.
func gvcNorm(s string) string {
	b := []byte(s)
	for i, c := range b {
		if c >= 'A' && c <= 'Z' && (i > 0 && b[i-1] == '%' || i > 1 && b[i-2] == '%') {
			b[i] += 32
		}
	}
	return string(b)
}
func gvcSame(a, b string) bool { return a == b }

func gvcShow(v any) string {
	var b strings.Builder
	var show func(v reflect.Value, d int)
	show = func(v reflect.Value, d int) {
		if d > 6 {
			return
		}
		switch v.Kind() {
		case reflect.Pointer, reflect.Interface:
			if v.IsNil() {
				b.WriteString("nil")
				return
			}
			show(v.Elem(), d+1)
		case reflect.Struct:
			b.WriteString(v.Type().Name() + "{")
			for i := 0; i < v.NumField(); i++ {
				b.WriteString(v.Type().Field(i).Name + ":")
				show(v.Field(i), d+1)
				b.WriteString(" ")
			}
			b.WriteString("}")
		case reflect.String:
			fmt.Fprintf(&b, "%q", v.String())
		case reflect.Bool:
			fmt.Fprint(&b, v.Bool())
		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
			fmt.Fprint(&b, v.Int())
		case reflect.Slice:
			if v.Type().Elem().Kind() == reflect.Uint8 {
				fmt.Fprintf(&b, "%q", v.Bytes())
				return
			}
			for i := 0; i < v.Len(); i++ {
				show(v.Index(i), d+1)
				b.WriteString(" ")
			}
		default:
			b.WriteString(v.Type().String())
		}
	}
	show(reflect.ValueOf(v), 0)
	return b.String()
}

// gvcWatch: what the value shows must not change while the state is protected.
func gvcWatch(v any) { gvc.watch = append(gvc.watch, v) }

func (g *gvcRun) settle() {
	for i, s := range g.snap {
		if t := gvcShow(g.watch[i]); t != s {
			g.failed("frame: changed from %s to %s", s, t)
		}
	}
	for _, b := range g.bufs {
		if !bytes.Equal(b.b, b.was) {
			g.failed("frame: input changed from %q to %q", b.was, b.b)
		}
	}
}

func gvcProtect() {
	gvc.settle()
	gvc.snap = nil
	for _, w := range gvc.watch {
		gvc.snap = append(gvc.snap, gvcShow(w))
	}
}
func gvcUnprotect() {
	gvc.settle()
	gvc.snap = nil
}
func gvcAllow(v any) {}

// gvcFresh: overwriting the inputs and other calls leave the value alone.
func gvcFresh(label string, v any) {
	g := &gvc
	was := gvcShow(v)
	for _, b := range g.bufs {
		if b.mem == nil {
			continue
		}
		syscall.Mprotect(b.mem, syscall.PROT_READ|syscall.PROT_WRITE)
		for i := range b.b {
			b.b[i] ^= 0x15
		}
	}
	now := gvcShow(v)
	for _, b := range g.bufs {
		if b.mem != nil {
			copy(b.b, b.was)
			syscall.Mprotect(b.mem, syscall.PROT_READ)
		}
	}
	if now != was {
		g.failed("%s: overwriting the input changed the result from %s to %s", label, was, now)
	}
	for _, w := range []string{"urn:zz:yy%AB", "UrN:q7:%cDx?+rr?=qq#ff", "urn:ietf:params:scim:api:nn:oo%Ef", "urn:"} {
		for _, k := range []ParsingMode{RFC2141Only, RFC8141Only, RFC7643Only} {
			if u, _ := NewMachine(WithParsingMode(k)).Parse([]byte(w)); u != nil {
				_ = u.Normalize().String()
			}
		}
	}
	if now := gvcShow(v); now != was {
		g.failed("%s: other parses changed the result from %s to %s", label, was, now)
	}
}

// ---- driver

func (g *gvcRun) one(f func(), iter int, seed int64) (fail string) {
	g.iter = iter
	g.rnd = rand.New(rand.NewSource(seed*1000003 + int64(iter)))
	g.used = map[string]string{}
	g.strs, g.watch, g.snap, g.fail = nil, nil, nil, ""
	defer func() {
		for _, b := range g.bufs {
			if b.mem != nil {
				gvcPool[len(b.mem)] = append(gvcPool[len(b.mem)], b.mem)
			}
		}
		g.bufs = nil
	}()
	defer func() {
		switch r := recover().(type) {
		case nil:
		case gvcSkip:
		case gvcStop:
			fail = g.fail
		default:
			st := strings.Split(string(debug.Stack()), "\n")
			var at []string
			for _, l := range st {
				if strings.Contains(l, ".go:") && !strings.Contains(l, "/runtime/") && !strings.Contains(l, "zz_gvc") && !strings.Contains(l, "conc.go") && !strings.Contains(l, "debug/stack.go") {
					at = append(at, strings.TrimSpace(l))
				}
				if len(at) == 4 {
					break
				}
			}
			fail = fmt.Sprintf("panic: %v (%s)", r, strings.Join(at, " < "))
		}
	}()
	debug.SetPanicOnFault(true)
	f()
	g.settle()
	return ""
}

type gvcReport struct {
	Lemma  string            `json:"lemma"`
	Fail   string            `json:"fail"`
	Values map[string]string `json:"values"`
	Runs   int               `json:"runs"`
	Seed   int64             `json:"seed"`
}

func TestGVC(t *testing.T) {
	name := os.Getenv("GVC_LEMMA")
	f := gvcLemmas[name]
	if f == nil {
		t.Fatalf("no lemma %q", name)
	}
	g := &gvc
	g.load()
	for _, m := range []string{"RFC2141Only", "RFC8141Only", "RFC7643Only"} {
		if strings.Contains(name, m[3:7]) {
			g.hint = []string{m, m, m}
		}
	}
	g.hint = append(g.hint, "RFC2141Only", "RFC8141Only", "RFC7643Only")
	done := map[string]bool{}
	for _, m := range append(g.hint, g.order...) {
		if !done[m] {
			done[m] = true
			g.words(m)
			g.sweep(m)
		}
	}
	secs, _ := strconv.ParseFloat(os.Getenv("GVC_SECS"), 64)
	if secs == 0 {
		secs = 20
	}
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	rep := gvcReport{Lemma: name, Seed: seed}
	out := func() {
		vals := map[string]string{}
		for k, v := range rep.Values {
			vals[k] = base64.StdEncoding.EncodeToString([]byte(v))
			fmt.Printf("  %s = %q\n", k, v)
		}
		rep.Values = vals
		b, _ := json.MarshalIndent(rep, "", " ")
		if p := os.Getenv("GVC_OUT"); p != "" {
			os.WriteFile(p, b, 0o644)
		}
	}
	if p := os.Getenv("GVC_REPLAY"); p != "" {
		b, err := os.ReadFile(p)
		if err != nil {
			t.Fatal(err)
		}
		var r gvcReport
		if err := json.Unmarshal(b, &r); err != nil {
			t.Fatal(err)
		}
		g.replay = map[string]string{}
		for k, v := range r.Values {
			d, _ := base64.StdEncoding.DecodeString(v)
			g.replay[k] = string(d)
		}
		secs = 0
	}
	var mu sync.Mutex
	tick := time.Now()
	go func() { // a run that does not end
		for {
			time.Sleep(time.Second)
			mu.Lock()
			if time.Since(tick) > 10*time.Second {
				rep.Fail = "does not terminate"
				rep.Values = g.used
				out()
				fmt.Println("GVC-FAIL", name, rep.Fail)
				os.Exit(3)
			}
			mu.Unlock()
		}
	}()
	end := time.Now().Add(time.Duration(secs * float64(time.Second)))
	part, parts := 0, 1
	fmt.Sscanf(os.Getenv("GVC_PART"), "%d/%d", &part, &parts)
	for i := part; ; i += parts {
		mu.Lock()
		tick = time.Now()
		mu.Unlock()
		rep.Runs++
		if fail := g.one(f, i, seed); fail != "" {
			rep.Fail, rep.Values = fail, g.used
			out()
			fmt.Println("GVC-FAIL", name, fail)
			t.Fatal(fail)
		}
		if time.Now().After(end) {
			break
		}
	}
	out()
	fmt.Println("GVC-OK", name, rep.Runs, "runs", g.ensured, "comparisons", len(g.cover), "cover", len(g.sys), "sweep")
}

// TestGVCRace runs parses on separate machines, and reads of shared results, from several goroutines;
// with the race detector this shows shared mutable state.
func TestGVCRace(t *testing.T) {
	g := &gvc
	g.load()
	g.hint = []string{"RFC2141Only", "RFC8141Only", "RFC7643Only"}
	for _, m := range g.hint {
		g.words(m)
	}
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	g.rnd = rand.New(rand.NewSource(seed))
	modes := []ParsingMode{RFC2141Only, RFC8141Only, RFC7643Only}
	secs, _ := strconv.ParseFloat(os.Getenv("GVC_SECS"), 64)
	end := time.Now().Add(time.Duration(secs * float64(time.Second)))
	n := 0
	for time.Now().Before(end) {
		var words [][]byte
		var urns []*URN
		for i := 0; i < 8; i++ {
			var w []byte
			for try := 0; try < 20; try++ {
				w = g.walk(g.modes[g.hint[i%3]], g.rnd.Intn(40))
				if g.rnd.Intn(4) == 0 {
					w = g.word()
				}
				if g.modes[g.hint[i%3]].run(w).acc {
					break
				}
			}
			words = append(words, w)
			if u, err := NewMachine(WithParsingMode(modes[i%3])).Parse(w); err == nil {
				urns = append(urns, u)
			}
			p := strings.SplitN(string(w), ":", 3)
			urns = append(urns, &URN{ID: p[0], SS: p[len(p)-1]})
		}
		var wg sync.WaitGroup
		for i := 0; i < 6; i++ {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				for k := range words {
					w := words[(i+k)%len(words)]
					u, err := NewMachine(WithParsingMode(modes[(i+k)%3])).Parse(w)
					if err == nil {
						_ = u.Normalize().String()
					} else {
						_ = err.Error()
					}
					_, _ = Parse(w, WithParsingMode(modes[k%3]))
					u = urns[(i+k)%len(urns)]
					gvcUse(u)
					_ = u.Equal(urns[k%len(urns)])
					b, _ := json.Marshal(string(w))
					var v URN
					_ = v.UnmarshalJSON(b)
					var x URN8141
					_ = x.UnmarshalJSON(b)
					var s SCIM
					_ = s.UnmarshalJSON(b)
				}
			}(i)
		}
		wg.Wait()
		n++
	}
	fmt.Println("GVC-OK race", n, "runs")
}
