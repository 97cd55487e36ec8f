package main

// gvc check: decides one property. Every lemma of the property is verified in its own process; when an
// obligation is left undischarged the same lemmas are run, compiled, on the real code to look for a failing
// input to report with it.

import (
	"bytes"
	"context"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type jOblig struct {
	Name   string `json:"name"`
	Count  int    `json:"count"`
	Simple int    `json:"simple"`
	Solver int    `json:"solver"`
	Cross  int    `json:"cross,omitempty"`
	Failed int    `json:"failed"`
	Detail string `json:"detail,omitempty"`
}

type lemmaResult struct {
	Lemma    string   `json:"lemma"`
	Error    string   `json:"error,omitempty"`
	Returns  int      `json:"returns"`
	Obligs   []jOblig `json:"obligations"`
	Fns      []string `json:"functions"`
	Models   []string `json:"models"`
	Loops    int      `json:"loops"`
	Nodes    int      `json:"nodes"`
	Paths    int      `json:"paths"`
	Steps    int64    `json:"steps"`
	Queries  int64    `json:"queries"`
	SolverS  float64  `json:"solver_s"`
	Queries2 int64    `json:"queries2"`
	Solver2S float64  `json:"solver2_s"`
	Wall     float64  `json:"wall"`
}

func (x *Exec) result(name string, err error, wall time.Duration) *lemmaResult {
	r := &lemmaResult{Lemma: name, Returns: x.returns[name], Loops: x.loops, Nodes: x.nodes, Paths: x.paths, Steps: x.steps, Wall: wall.Seconds()}
	if err != nil {
		r.Error = err.Error()
	}
	for _, n := range x.order {
		o := x.obl[n]
		d := o.Detail
		if len(d) > 20000 {
			d = d[:20000]
		}
		r.Obligs = append(r.Obligs, jOblig{n, o.Count, o.Simple, o.Solver, o.Cross, o.Failed, d})
	}
	for f := range x.fns {
		if !strings.Contains(f, ".gvc") {
			r.Fns = append(r.Fns, f)
		}
	}
	for f := range x.models {
		r.Models = append(r.Models, f)
	}
	sort.Strings(r.Fns)
	sort.Strings(r.Models)
	if z3pool != nil {
		r.Queries, r.SolverS = atomic.LoadInt64(&z3pool.queries), float64(atomic.LoadInt64(&z3pool.ns))/1e9
	}
	if cvc5pool != nil {
		r.Queries2, r.Solver2S = atomic.LoadInt64(&cvc5pool.queries), float64(atomic.LoadInt64(&cvc5pool.ns))/1e9
	}
	return r
}

type checker struct {
	id, repo, dir, tier string
	seed                int
	tmp                 string
	lemmas              []string
	labels              map[string][]string
	t0                  time.Time
	mu                  sync.Mutex
	results             map[string]*lemmaResult
	running             map[string]context.CancelFunc
}

// property lemmas and the labels each states, from the contract file
func (c *checker) readLemmas() error {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, filepath.Join(c.dir, "contracts", "zz_gvc_lemmas.go"), nil, 0)
	if err != nil {
		return err
	}
	for _, d := range f.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if ok && strings.HasPrefix(fd.Name.Name, "gvcLemma"+c.id+"_") {
			c.lemmas = append(c.lemmas, fd.Name.Name)
		}
	}
	// heavy ones first
	w := func(s string) int {
		for i, k := range []string{"8141", "Both", "Again", "7643", "SCIM", "View"} {
			if strings.Contains(s, k) {
				return i
			}
		}
		return 9
	}
	sort.SliceStable(c.lemmas, func(i, j int) bool { return w(c.lemmas[i]) < w(c.lemmas[j]) })
	if len(c.lemmas) == 0 {
		return fmt.Errorf("no lemmas for %s", c.id)
	}
	return nil
}

func (c *checker) limit(quick, thorough int) time.Duration {
	if c.tier == "thorough" {
		return time.Duration(thorough) * time.Second
	}
	return time.Duration(quick) * time.Second
}

func (c *checker) work(name string) *lemmaResult {
	// all lemmas together stay within the time a check has
	lim := c.limit(480, 3400)
	if rest := c.limit(600, 12000) - time.Since(c.t0); rest < lim {
		lim = rest
	}
	if lim < 5*time.Second {
		lim = 5 * time.Second
	}
	ctx, cancel := context.WithTimeout(context.Background(), lim+lim/8)
	defer cancel()
	c.mu.Lock()
	c.running[name] = cancel
	c.mu.Unlock()
	out := filepath.Join(c.tmp, name+".json")
	args := []string{"-repo", c.repo, "-dir", c.dir, "-lemma", name, "-exact", "-json", out, "-limit", strconv.Itoa(int(lim.Seconds()))}
	if c.tier == "thorough" {
		args = append(args, "-cvc5")
	}
	self, _ := os.Executable()
	cmd := exec.CommandContext(ctx, self, args...)
	cmd.Env = append(os.Environ(), "GOMEMLIMIT=3GiB")
	var buf bytes.Buffer
	cmd.Stdout, cmd.Stderr = &buf, &buf
	t := time.Now()
	err := cmd.Run()
	r := &lemmaResult{Lemma: name}
	if b, e := os.ReadFile(out); e == nil {
		if e := json.Unmarshal(b, r); e != nil {
			r.Error = e.Error()
		}
	} else {
		s := buf.String()
		if len(s) > 4000 {
			s = s[:4000]
		}
		r.Error = fmt.Sprintf("%v: %s", err, s)
	}
	r.Wall = time.Since(t).Seconds()
	c.mu.Lock()
	delete(c.running, name)
	c.results[name] = r
	c.mu.Unlock()
	return r
}

// expected is the committed list of statements each lemma must have reached.
func (c *checker) expected() map[string][]string {
	m := map[string][]string{}
	b, err := os.ReadFile(filepath.Join(c.dir, "contracts", "expected.json"))
	if err == nil {
		json.Unmarshal(b, &m)
	}
	return m
}

func stated(r *lemmaResult) map[string]bool {
	m := map[string]bool{}
	for _, o := range r.Obligs {
		if i := strings.Index(o.Name, ":ensures"); i >= 0 && o.Count > 0 {
			n := o.Name[strings.Index(o.Name, "/")+1:]
			m[n[strings.LastIndex(n[:strings.Index(n, ":ensures")], ".")+1:]] = true
		}
	}
	return m
}

// undischarged returns the names of what is not proved in the lemma, with the verifier's output.
func (c *checker) undischarged(r *lemmaResult, exp []string) (names []string, detail string) {
	for _, o := range r.Obligs {
		if o.Failed > 0 {
			names = append(names, o.Name)
			detail += fmt.Sprintf("obligation %s: %d of %d instances not discharged\n%s\n\n", o.Name, o.Failed, o.Count, o.Detail)
		}
	}
	if r.Error != "" {
		names = append(names, r.Lemma+":verified")
		detail += fmt.Sprintf("obligation %s:verified: %s\n\n", r.Lemma, r.Error)
	}
	if len(names) == 0 {
		if r.Returns == 0 {
			names = append(names, r.Lemma+":reachable")
			detail += "no execution of the lemma returns\n"
		}
		st := stated(r)
		for _, e := range exp {
			if !st[e] {
				names = append(names, r.Lemma+":stated:"+e)
				detail += fmt.Sprintf("the statement %s was never reached\n", e)
			}
		}
	}
	return
}

func goEnv() []string {
	return append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOSUMDB=off", "GOTOOLCHAIN=local", "GOWORK=off")
}

// buildReplayer compiles the lemmas with the package under test.
func (c *checker) buildReplayer() (string, error) {
	ov := map[string]string{}
	old, _ := filepath.Glob(filepath.Join(c.repo, "*_test.go"))
	for _, f := range old {
		ov[f] = ""
	}
	reg := "package urn\n\nvar gvcLemmas = map[string]func(){\n"
	for _, l := range c.lemmas {
		reg += fmt.Sprintf("\t%q: %s,\n", l, l)
	}
	reg += "}\n"
	regf := filepath.Join(c.tmp, "reg.go")
	if err := os.WriteFile(regf, []byte(reg), 0o644); err != nil {
		return "", err
	}
	ov[filepath.Join(c.repo, "zz_gvc_reg_test.go")] = regf
	ov[filepath.Join(c.repo, "zz_gvc_lemmas_test.go")] = filepath.Join(c.dir, "contracts", "zz_gvc_lemmas.go")
	ov[filepath.Join(c.repo, "zz_gvc_conc_test.go")] = filepath.Join(c.dir, "contracts", "conc", "conc.go")
	b, _ := json.Marshal(map[string]any{"Replace": ov})
	ovf := filepath.Join(c.tmp, "overlay.json")
	if err := os.WriteFile(ovf, b, 0o644); err != nil {
		return "", err
	}
	modes, err := parseSpec(filepath.Join(c.dir, "contracts", "urn.spec"))
	if err != nil {
		return "", err
	}
	if err := dumpSpec(modes, filepath.Join(c.tmp, "tables.json")); err != nil {
		return "", err
	}
	d, _ := json.Marshal(c.dictionary())
	os.WriteFile(filepath.Join(c.tmp, "dict.json"), d, 0o644)
	bin := filepath.Join(c.tmp, "replay.test")
	args := []string{"test", "-c", "-vet=off", "-overlay", ovf, "-o", bin}
	if c.id == "C15" {
		args = append(args, "-race")
	}
	cmd := exec.Command("go", append(args, ".")...)
	cmd.Dir = c.repo
	cmd.Env = goEnv()
	out, err := cmd.CombinedOutput()
	if err != nil {
		return "", fmt.Errorf("%v: %s", err, out)
	}
	return bin, nil
}

// dictionary: the literals of the code under test.
func (c *checker) dictionary() []string {
	seen := map[string]bool{}
	files, _ := filepath.Glob(filepath.Join(c.repo, "*.go"))
	more, _ := filepath.Glob(filepath.Join(c.repo, "scim", "*", "*.go"))
	for _, f := range append(files, more...) {
		if strings.HasSuffix(f, "_test.go") {
			continue
		}
		fs := token.NewFileSet()
		p, err := parser.ParseFile(fs, f, nil, 0)
		if err != nil {
			continue
		}
		ast.Inspect(p, func(n ast.Node) bool {
			if l, ok := n.(*ast.BasicLit); ok {
				switch l.Kind {
				case token.STRING:
					if s, err := strconv.Unquote(l.Value); err == nil && len(s) > 0 && len(s) <= 24 {
						seen[s] = true
					}
				case token.CHAR:
					if s, err := strconv.Unquote(l.Value); err == nil {
						seen[s] = true
					}
				case token.INT:
					if v, err := strconv.ParseInt(l.Value, 0, 32); err == nil && v > 2 && v < 2000 && v != 32 {
						if len(seen) < 1500 {
							seen[strings.Repeat("a", int(v))] = v < 300
							if v < 256 {
								seen[string([]byte{byte(v)})] = true
							}
						}
					}
				}
			}
			return true
		})
	}
	var out []string
	for s, ok := range seen {
		if ok {
			out = append(out, s)
		}
	}
	sort.Strings(out)
	return out
}

type witness struct {
	lemma, file, fail string
	runs              int
}

// search runs the compiled lemma, as several processes; it returns a witness or nil, and the number of runs.
func (c *checker) search(bin, lemma string, secs float64, test string) (*witness, int, string) {
	parts := 3
	if test != "TestGVC" || os.Getenv("GVC_REPLAY") != "" {
		parts = 1
	}
	ctx, cancel := context.WithTimeout(context.Background(), time.Duration(secs+40)*time.Second)
	defer cancel()
	var mu sync.Mutex
	var wg sync.WaitGroup
	var wit *witness
	total, log := 0, ""
	for p := 0; p < parts; p++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			w, runs, l := c.searchPart(ctx, bin, lemma, secs, test, p, parts)
			mu.Lock()
			defer mu.Unlock()
			total += runs
			if w != nil && wit == nil {
				wit, log = w, l
				cancel()
			} else if wit == nil && ctx.Err() == nil && l != "" {
				log = l
			}
		}()
	}
	wg.Wait()
	return wit, total, log
}

func (c *checker) searchPart(ctx context.Context, bin, lemma string, secs float64, test string, part, parts int) (*witness, int, string) {
	out := filepath.Join(c.tmp, fmt.Sprintf("%s.%s.witness%d.json", lemma, test, part))
	cmd := exec.CommandContext(ctx, bin, "-test.run", "^"+test+"$", "-test.count=1", "-test.timeout", fmt.Sprintf("%ds", int(secs)+35))
	cmd.Dir = c.tmp
	cmd.Env = append(os.Environ(), "GVC_TABLES="+filepath.Join(c.tmp, "tables.json"), "GVC_DICT="+filepath.Join(c.tmp, "dict.json"),
		"GVC_LEMMA="+lemma, "GVC_OUT="+out, fmt.Sprintf("GVC_SECS=%g", secs), fmt.Sprintf("VERIF_SEED=%d", c.seed), fmt.Sprintf("GVC_PART=%d/%d", part, parts), "GOMAXPROCS=4", "GORACE=halt_on_error=1")
	b, err := cmd.CombinedOutput()
	s := string(b)
	runs := 0
	if m := regexp.MustCompile(`GVC-OK \S+ (\d+) runs`).FindStringSubmatch(s); m != nil {
		runs, _ = strconv.Atoi(m[1])
	}
	if err == nil {
		return nil, runs, ""
	}
	if m := regexp.MustCompile(`GVC-FAIL \S+ (.*)`).FindStringSubmatch(s); m != nil {
		return &witness{lemma: lemma, file: out, fail: m[1]}, runs, s
	}
	if strings.Contains(s, "WARNING: DATA RACE") {
		os.WriteFile(out, []byte("{}"), 0o644)
		return &witness{lemma: lemma, file: out, fail: "data race"}, runs, s
	}
	return nil, runs, s
}

func (c *checker) run() int {
	c.t0 = time.Now()
	c.results = map[string]*lemmaResult{}
	c.running = map[string]context.CancelFunc{}
	var err error
	if c.tmp, err = os.MkdirTemp("", "gvc-"+c.id+"-"); err != nil {
		fmt.Println(err)
		return 2
	}
	defer os.RemoveAll(c.tmp)
	if err := c.readLemmas(); err != nil {
		fmt.Println(err)
		return 2
	}
	exp := c.expected()
	jobs := make(chan string, len(c.lemmas))
	for _, l := range c.lemmas {
		jobs <- l
	}
	close(jobs)
	found := make(chan *witness, 1)
	var binOnce sync.Once
	var bin string
	var binErr error
	var wit *witness
	var witLog []string
	totalRuns := 0
	n := 8
	if v, _ := strconv.Atoi(os.Getenv("GVC_JOBS")); v > 0 {
		n = v
	}
	_ = found
	var wg sync.WaitGroup
	bad := map[string][]string{}
	details := map[string]string{}
	stop := false
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for l := range jobs {
				c.mu.Lock()
				s := stop
				c.mu.Unlock()
				if s {
					return
				}
				r := c.work(l)
				names, det := c.undischarged(r, exp[l])
				if len(names) == 0 {
					continue
				}
				c.mu.Lock()
				if stop { // cancelled
					c.mu.Unlock()
					return
				}
				bad[l] = names
				details[l] = det
				c.mu.Unlock()
				binOnce.Do(func() { bin, binErr = c.buildReplayer() })
				if binErr != nil {
					continue
				}
				tests := []string{"TestGVC"}
				if c.id == "C15" {
					tests = append(tests, "TestGVCRace")
				}
				for _, t := range tests {
					w, runs, log := c.search(bin, l, c.limit(25, 300).Seconds(), t)
					c.mu.Lock()
					totalRuns += runs
					if log != "" {
						witLog = append(witLog, log)
					}
					if w != nil && !stop {
						wit = w
						stop = true
						for _, f := range c.running {
							f()
						}
					}
					c.mu.Unlock()
				}
			}
		}()
	}
	wg.Wait()
	// the rest of the lemmas may show it where the failed ones did not
	if len(bad) > 0 && wit == nil && binErr == nil {
		var wg sync.WaitGroup
		sem := make(chan bool, 4)
		for _, l := range c.lemmas {
			if bad[l] != nil {
				continue
			}
			wg.Add(1)
			go func(l string) {
				defer wg.Done()
				sem <- true
				defer func() { <-sem }()
				c.mu.Lock()
				s := wit != nil
				c.mu.Unlock()
				if s {
					return
				}
				w, runs, log := c.search(bin, l, c.limit(10, 120).Seconds(), "TestGVC")
				c.mu.Lock()
				totalRuns += runs
				if log != "" {
					witLog = append(witLog, log)
				}
				if w != nil && wit == nil {
					wit = w
				}
				c.mu.Unlock()
			}(l)
		}
		wg.Wait()
	}
	c.evidence(bad, wit, totalRuns)
	if len(bad) == 0 {
		return 0
	}
	// report
	var names []string
	for _, l := range c.lemmas {
		names = append(names, bad[l]...)
	}
	replay := filepath.Join(c.dir, "evidence", "replay-"+c.id+".json")
	rep := map[string]any{"property": c.id, "obligations": names}
	var det []string
	for _, l := range c.lemmas {
		if d := details[l]; d != "" {
			det = append(det, d)
		}
	}
	rep["verifier"] = det
	if wit != nil {
		var w struct {
			Lemma  string            `json:"lemma"`
			Fail   string            `json:"fail"`
			Values map[string]string `json:"values"`
		}
		b, _ := os.ReadFile(wit.file)
		json.Unmarshal(b, &w)
		rep["lemma"], rep["fail"], rep["values"] = wit.lemma, wit.fail, w.Values
		show := map[string]string{}
		for k, v := range w.Values {
			d, _ := base64.StdEncoding.DecodeString(v)
			show[k] = strconv.Quote(string(d))
		}
		rep["inputs"] = show
		rep["how"] = fmt.Sprintf("GVC_REPLAY=<this file> ./check.sh -replay %s", c.id)
	} else {
		rep["search"] = fmt.Sprintf("%d runs of the compiled lemmas found no failing input", totalRuns)
		if binErr != nil {
			rep["search"] = "the lemmas could not be compiled: " + binErr.Error()
		}
	}
	if len(witLog) > 0 {
		l := witLog[len(witLog)-1]
		if len(l) > 6000 {
			l = l[:6000]
		}
		rep["log"] = l
	}
	b, _ := json.MarshalIndent(rep, "", " ")
	os.MkdirAll(filepath.Dir(replay), 0o755)
	os.WriteFile(replay, b, 0o644)
	for i, n := range names {
		if i == 12 {
			fmt.Printf("  and %d more\n", len(names)-i)
			break
		}
		fmt.Println("not discharged:", n)
	}
	if wit != nil {
		fmt.Printf("failing input (%s): %s\n", wit.lemma, wit.fail)
		if in, ok := rep["inputs"].(map[string]string); ok {
			var ks []string
			for k := range in {
				ks = append(ks, k)
			}
			sort.Strings(ks)
			for _, k := range ks {
				fmt.Printf("  %s = %s\n", k, in[k])
			}
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", c.id, replay)
	} else {
		fmt.Println(rep["search"])
		fmt.Printf("VIOLATION property=%s replay=%s no-failing-input-found\n", c.id, replay)
	}
	return 1
}

func (c *checker) evidence(bad map[string][]string, wit *witness, runs int) {
	fns, models := map[string]bool{}, map[string]bool{}
	tot, ok, inst, simple, solver, cross := 0, 0, 0, 0, 0, 0
	kinds := map[string]int{}
	var loops, nodes int
	var steps, queries, queries2 int64
	var ss, ss2 float64
	var per []map[string]any
	var samples []string
	for _, l := range c.lemmas {
		r := c.results[l]
		if r == nil {
			continue
		}
		n, d := 0, 0
		for _, o := range r.Obligs {
			n++
			if o.Failed == 0 {
				d++
			}
			inst += o.Count
			simple += o.Simple
			solver += o.Solver
			cross += o.Cross
			k := o.Name[strings.LastIndex(o.Name, "/")+1:]
			k = regexp.MustCompile(`:([a-z]+)(:|@|$)`).FindString(k)
			kinds[strings.Trim(k, ":@")]++
			if strings.Contains(o.Name, ":ensures") && len(samples) < 40 {
				samples = append(samples, o.Name)
			}
		}
		tot += n
		ok += d
		loops += r.Loops
		nodes += r.Nodes
		steps += r.Steps
		queries += r.Queries
		queries2 += r.Queries2
		ss += r.SolverS
		ss2 += r.Solver2S
		for _, f := range r.Fns {
			fns[f] = true
		}
		for _, f := range r.Models {
			models[f] = true
		}
		per = append(per, map[string]any{"lemma": l, "obligations": n, "discharged": d, "returns": r.Returns, "wall_s": r.Wall, "error": r.Error})
	}
	list := func(m map[string]bool) []string {
		out := []string{}
		for k := range m {
			out = append(out, k)
		}
		sort.Strings(out)
		return out
	}
	trusted := []string{
		"gvc itself: the condition generator, its byte-set and difference-bound simplifier, and the loop abstraction (invariants it infers are checked, the checking code is trusted)",
		"go/types and x/tools/go/ssa (the SSA form verified is built from /repo's current source), the Go compiler and runtime",
		"z3 (back end for what the simplifier does not decide)",
		"contracts/urn.spec and contracts/zz_gvc_lemmas.go: the statements themselves",
	}
	for f := range models {
		trusted = append(trusted, "assumed contract of "+f)
	}
	sort.Strings(trusted[4:])
	nbad := 0
	for _, b := range bad {
		nbad += len(b)
	}
	violations := 0
	if nbad > 0 {
		violations = 1
	}
	ev := map[string]any{
		"property": c.id, "tier": c.tier, "seed": c.seed, "level": "proof", "wall_s": time.Since(c.t0).Seconds(), "violations": violations,
		"assumptions": []string{
			"inputs are at most 2^48 bytes (and arbitrary kind, mode and type numbers within 2^61 of zero), so that machine integers do not overflow where they count positions; integers are otherwise mathematical with range obligations where narrowed",
			"no unsafe aliasing of strings by the caller, no concurrent writes to the input by the caller",
		},
		"coverage": map[string]any{
			"obligations": tot, "discharged": ok, "instances": inst,
			"discharged_by_simplifier": simple, "discharged_by_z3": solver, "confirmed_by_cvc5": cross,
			"kinds": kinds, "functions_under_contract": list(fns), "loops_cut_at_invariants": loops, "invariant_nodes": nodes, "instructions_executed": steps,
			"z3_queries": queries, "z3_s": ss, "cvc5_queries": queries2, "cvc5_s": ss2,
			"lemmas": per, "samples": samples,
			"checker_cmd":  fmt.Sprintf("gvc -check %s -tier %s -repo %s -dir %s", c.id, c.tier, c.repo, c.dir),
			"trusted_base": trusted,
		},
	}
	if nbad > 0 {
		ev["coverage"].(map[string]any)["search_runs"] = runs
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(c.dir, "evidence"), 0o755)
	os.WriteFile(filepath.Join(c.dir, "evidence", c.id+".json"), append(b, '\n'), 0o644)
}

// replayOne runs the failing input of the last report on the current code: exit 1 if it still fails.
func replayOne(id, repo, dir string) int {
	c := &checker{id: id, repo: repo, dir: dir, tier: "quick"}
	file := filepath.Join(dir, "evidence", "replay-"+id+".json")
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	var r struct {
		Lemma string `json:"lemma"`
	}
	json.Unmarshal(b, &r)
	if r.Lemma == "" {
		fmt.Println("the report has no failing input")
		return 2
	}
	if c.tmp, err = os.MkdirTemp("", "gvc-replay-"); err != nil {
		fmt.Println(err)
		return 2
	}
	defer os.RemoveAll(c.tmp)
	if err := c.readLemmas(); err != nil {
		fmt.Println(err)
		return 2
	}
	bin, err := c.buildReplayer()
	if err != nil {
		fmt.Println(err)
		return 2
	}
	os.Setenv("GVC_REPLAY", file)
	w, _, log := c.search(bin, r.Lemma, 5, "TestGVC")
	fmt.Print(log)
	if w != nil {
		return 1
	}
	return 0
}

func sampleAll(prefix, repo, dir string, secs float64) int {
	bad := 0
	for i := 1; i <= 16; i++ {
		c := &checker{id: fmt.Sprintf("C%02d", i), repo: repo, dir: dir, tier: "quick"}
		if !strings.HasPrefix("gvcLemma"+c.id, prefix) && !strings.HasPrefix(prefix, "gvcLemma"+c.id) {
			continue
		}
		c.tmp, _ = os.MkdirTemp("", "gvc-sample-")
		c.readLemmas()
		bin, err := c.buildReplayer()
		if err != nil {
			fmt.Println(err)
			return 2
		}
		var wg sync.WaitGroup
		sem := make(chan bool, 4)
		for _, l := range c.lemmas {
			if !strings.HasPrefix(l, prefix) {
				continue
			}
			wg.Add(1)
			go func(l string) {
				defer wg.Done()
				sem <- true
				defer func() { <-sem }()
				w, runs, log := c.search(bin, l, secs, "TestGVC")
				fmt.Println(l, runs, log)
				if w != nil {
					bad = 1
				}
			}(l)
		}
		wg.Wait()
		if c.id == "C15" {
			w, runs, log := c.search(bin, "race", secs, "TestGVCRace")
			fmt.Println("race", runs, log)
			if w != nil {
				bad = 1
			}
		}
		os.RemoveAll(c.tmp)
	}
	return bad
}
