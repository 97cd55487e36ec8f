package main

// SMT-LIB printing of terms and a pool of solver processes.

import (
	"bufio"
	"fmt"
	"io"
	"os/exec"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type smtPrinter struct {
	vars map[*Term]bool
	arrs map[*Term]bool
}

func (p *smtPrinter) name(t *Term) string { return "v" + strconv.Itoa(t.id) }

func bv(b byte) string { return fmt.Sprintf("#x%02x", b) }

func (p *smtPrinter) w(b *strings.Builder, t *Term) {
	list := func(op string, as ...*Term) {
		b.WriteString("(" + op)
		for _, a := range as {
			b.WriteByte(' ')
			p.w(b, a)
		}
		b.WriteByte(')')
	}
	switch t.op {
	case OpVar:
		p.vars[t] = true
		b.WriteString(p.name(t))
	case OpInt:
		if t.k < 0 {
			fmt.Fprintf(b, "(- %d)", -t.k)
		} else {
			fmt.Fprintf(b, "%d", t.k)
		}
	case OpLin:
		b.WriteString("(+")
		for i, a := range t.args {
			b.WriteByte(' ')
			switch c := t.coef[i]; {
			case c == 1:
				p.w(b, a)
			case c < 0:
				fmt.Fprintf(b, "(* (- %d) ", -c)
				p.w(b, a)
				b.WriteByte(')')
			default:
				fmt.Fprintf(b, "(* %d ", c)
				p.w(b, a)
				b.WriteByte(')')
			}
		}
		b.WriteByte(' ')
		p.w(b, Int(t.k))
		b.WriteByte(')')
	case OpMul:
		list("*", t.args...)
	case OpDiv:
		list("div", t.args...) // only emitted for provably non-negative operands
	case OpMod:
		list("mod", t.args...)
	case OpSel:
		list("select", t.args...)
	case OpStore:
		list("store", t.args...)
	case OpB2I:
		list("bv2nat", t.args...)
	case OpI2B:
		list("(_ int2bv 8)", t.args...)
	case OpByte:
		b.WriteString(bv(byte(t.k)))
	case OpBFn:
		// runs of constant difference
		type run struct {
			lo, hi int
			d      byte
		}
		var rs []run
		cnt := map[byte]int{}
		for i := 0; i < 256; i++ {
			d := t.tab[i] - byte(i)
			cnt[d]++
			if n := len(rs); n > 0 && rs[n-1].d == d {
				rs[n-1].hi = i
			} else {
				rs = append(rs, run{i, i, d})
			}
		}
		def := byte(0)
		best := -1
		for d := 0; d < 256; d++ {
			if cnt[byte(d)] > best {
				best = cnt[byte(d)]
				def = byte(d)
			}
		}
		var as strings.Builder
		p.w(&as, t.args[0])
		arg := as.String()
		val := func(d byte) string {
			if d == 0 {
				return arg
			}
			return "(bvadd " + arg + " " + bv(d) + ")"
		}
		n := 0
		for _, r := range rs {
			if r.d == def {
				continue
			}
			fmt.Fprintf(b, "(ite (and (bvuge %s %s) (bvule %s %s)) %s ", arg, bv(byte(r.lo)), arg, bv(byte(r.hi)), val(r.d))
			n++
		}
		b.WriteString(val(def))
		b.WriteString(strings.Repeat(")", n))
	case OpBBin:
		m := map[string]string{"+": "bvadd", "-": "bvsub", "*": "bvmul", "&": "bvand", "|": "bvor", "^": "bvxor", "<<": "bvshl", ">>": "bvlshr", "/": "bvudiv", "%": "bvurem"}
		if t.name == "&^" {
			b.WriteString("(bvand ")
			p.w(b, t.args[0])
			b.WriteString(" (bvnot ")
			p.w(b, t.args[1])
			b.WriteString("))")
			return
		}
		list(m[t.name], t.args...)
	case OpIte:
		list("ite", t.args...)
	case OpTrue:
		b.WriteString("true")
	case OpFalse:
		b.WriteString("false")
	case OpNot:
		list("not", t.args...)
	case OpAnd:
		list("and", t.args...)
	case OpOr:
		list("or", t.args...)
	case OpLe0:
		b.WriteString("(<= ")
		p.w(b, t.args[0])
		b.WriteString(" 0)")
	case OpEq0:
		b.WriteString("(= ")
		p.w(b, t.args[0])
		b.WriteString(" 0)")
	case OpIn:
		var as strings.Builder
		p.w(&as, t.args[0])
		arg := as.String()
		set, neg := t.set, false
		if len(set.not().ranges()) < len(set.ranges()) {
			set, neg = set.not(), true
		}
		if neg {
			b.WriteString("(not ")
		}
		b.WriteString("(or false")
		for _, r := range set.ranges() {
			if r[0] == r[1] {
				fmt.Fprintf(b, " (= %s %s)", arg, bv(byte(r[0])))
			} else {
				fmt.Fprintf(b, " (and (bvuge %s %s) (bvule %s %s))", arg, bv(byte(r[0])), arg, bv(byte(r[1])))
			}
		}
		b.WriteString(")")
		if neg {
			b.WriteString(")")
		}
	case OpEqB:
		list("=", t.args...)
	default:
		panic("smt op")
	}
}

var sortName = map[Sort]string{SInt: "Int", SBool: "Bool", SByte: "(_ BitVec 8)", SBArr: "(Array Int (_ BitVec 8))", SIArr: "(Array Int Int)"}

// smtQuery is the script asking whether facts and the negation of goal are unsatisfiable.
func smtQuery(facts []*Term, goal *Term) string {
	p := &smtPrinter{vars: map[*Term]bool{}}
	var b strings.Builder
	for _, f := range facts {
		b.WriteString("(assert ")
		p.w(&b, f)
		b.WriteString(")\n")
	}
	b.WriteString("(assert (not ")
	p.w(&b, goal)
	b.WriteString("))\n")
	var vs []*Term
	for v := range p.vars {
		vs = append(vs, v)
	}
	sort.Slice(vs, func(i, j int) bool { return vs[i].id < vs[j].id })
	var d strings.Builder
	for _, v := range vs {
		fmt.Fprintf(&d, "(declare-const %s %s)\n", p.name(v), sortName[v.sort])
	}
	return d.String() + b.String()
}

type solverProc struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	out *bufio.Reader
}

type solverPool struct {
	name    string
	argv    []string
	pre     string
	sem     chan *solverProc
	mu      sync.Mutex
	queries int64
	ns      int64
	cache   map[string]string
}

func newPool(name string, n int, pre string, argv ...string) *solverPool {
	p := &solverPool{name: name, argv: argv, pre: pre, sem: make(chan *solverProc, n), cache: map[string]string{}}
	for i := 0; i < n; i++ {
		p.sem <- nil
	}
	return p
}

func (p *solverPool) start() (*solverProc, error) {
	cmd := exec.Command(p.argv[0], p.argv[1:]...)
	in, err := cmd.StdinPipe()
	if err != nil {
		return nil, err
	}
	out, err := cmd.StdoutPipe()
	if err != nil {
		return nil, err
	}
	if err := cmd.Start(); err != nil {
		return nil, err
	}
	io.WriteString(in, p.pre)
	return &solverProc{cmd, in, bufio.NewReader(out)}, nil
}

// Check returns "unsat", "sat", "unknown" or an error text.
func (p *solverPool) Check(q string) string {
	p.mu.Lock()
	if r, ok := p.cache[q]; ok {
		p.mu.Unlock()
		return r
	}
	p.mu.Unlock()
	sp := <-p.sem
	t0 := time.Now()
	r := "unknown"
	for try := 0; try < 2; try++ {
		if sp == nil {
			var err error
			if sp, err = p.start(); err != nil {
				r = "error: " + err.Error()
				sp = nil
				continue
			}
		}
		_, err := io.WriteString(sp.in, "(push 1)\n"+q+"(check-sat)\n(pop 1)\n")
		if err == nil {
			var line string
			line, err = sp.out.ReadString('\n')
			if err == nil {
				r = strings.TrimSpace(line)
				if strings.HasPrefix(r, "(error") {
					// resynchronise by restarting
					sp.in.Close()
					sp.cmd.Process.Kill()
					sp.cmd.Wait()
					sp = nil
				}
				break
			}
		}
		sp.cmd.Process.Kill()
		sp.cmd.Wait()
		sp = nil
	}
	p.sem <- sp
	atomic.AddInt64(&p.queries, 1)
	atomic.AddInt64(&p.ns, int64(time.Since(t0)))
	p.mu.Lock()
	p.cache[q] = r
	p.mu.Unlock()
	return r
}

// Model returns the solver's model text for a satisfiable query.
func (p *solverPool) Model(q string) string {
	cmd := exec.Command(p.argv[0], p.argv[1:]...)
	cmd.Stdin = strings.NewReader(p.pre + q + "(check-sat)\n(get-model)\n")
	out, _ := cmd.CombinedOutput()
	return string(out)
}

func (p *solverPool) close() {
	for i := 0; i < cap(p.sem); i++ {
		if sp := <-p.sem; sp != nil {
			sp.in.Close()
			sp.cmd.Process.Kill()
			sp.cmd.Wait()
		}
	}
}

const z3Prelude = "(set-option :print-success false)\n(set-option :timeout 20000)\n"
const cvc5Prelude = "(set-logic ALL)\n"
