package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime/pprof"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

var z3pool, cvc5pool *solverPool

func newExec(p *Prog, modes []*ModeSpec) *Exec {
	x := &Exec{p: p, specs: map[string]*ModeSpec{}, obl: map[string]*Oblig{}, fns: map[string]bool{},
		contracts: map[*ssa.Function]func(x *Exec, st *State, args []Val, call ssa.Instruction) []Out{},
		infos:     map[*ssa.Function]*fnInfo{}, globals: map[*ssa.Global]ObjID{}, models: map[string]bool{},
		sums: map[string]*summary{}, kept: map[*ssa.Function]*keptInfo{}, written: map[*ssa.Function]map[int]bool{}, returns: map[string]int{}}
	for _, m := range modes {
		x.specs[m.Name] = m
	}
	x.gstate = &State{pc: newPC(), heap: map[ObjID]*Obj{}, base: map[ObjID]*Obj{}}
	return x
}

// initPackages executes package initialisation.
func (x *Exec) initPackages() (err error) {
	defer func() {
		if r := recover(); r != nil {
			if u, ok := r.(unsupportedErr); ok {
				err = u
				return
			}
			panic(r)
		}
	}()
	x.label = "init"
	x.emit = true
	outs := x.call(x.gstate, x.p.root.Func("init"), nil, nil, nil)
	if len(outs) != 1 {
		return fmt.Errorf("package initialisation has %d outcomes", len(outs))
	}
	st := outs[0].st
	// globals written during initialisation become the base
	for id, o := range st.heap {
		if id < 0 {
			st.base[id] = o
			delete(st.heap, id)
		}
	}
	x.gstate = st
	return nil
}

func main() {
	var repo, dir, only, prof string
	var verbose bool
	flag.StringVar(&repo, "repo", "/repo", "repository")
	flag.StringVar(&dir, "dir", "/verif", "directory of the contracts")
	flag.StringVar(&only, "lemma", "", "only lemmas with this prefix")
	flag.StringVar(&prof, "prof", "", "cpu profile")
	flag.BoolVar(&verbose, "v", false, "verbose")
	exact := flag.Bool("exact", false, "only the lemma with exactly this name")
	jsonOut := flag.String("json", "", "write the result of the lemma here")
	limit := flag.Int("limit", 0, "seconds after which to give up")
	cross := flag.Bool("cvc5", false, "confirm with cvc5")
	check := flag.String("check", "", "decide this property")
	replay := flag.String("replay", "", "run the failing input of this property's last report again")
	sample := flag.String("sample", "", "run the compiled lemmas with this prefix, without the verifier")
	secs := flag.Float64("secs", 5, "seconds per lemma for -sample")
	tier := flag.String("tier", "quick", "quick or thorough")
	dump := flag.String("dump", "", "write the tables of the grammars")
	flag.Parse()
	if *replay != "" {
		os.Exit(replayOne(*replay, repo, dir))
	}
	if *sample != "" {
		os.Exit(sampleAll(*sample, repo, dir, *secs))
	}
	if *check != "" {
		seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
		c := &checker{id: *check, repo: repo, dir: dir, tier: *tier, seed: seed}
		os.Exit(c.run())
	}
	if prof != "" {
		f, _ := os.Create(prof)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	modes, err := parseSpec(filepath.Join(dir, "contracts", "urn.spec"))
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	if *dump != "" {
		dumpSpec(modes, *dump)
		return
	}
	ov := map[string][]byte{}
	fs, _ := filepath.Glob(filepath.Join(dir, "contracts", "zz_gvc_*.go"))
	for _, f := range fs {
		b, err := os.ReadFile(f)
		if err != nil {
			panic(err)
		}
		ov[filepath.Base(f)] = b
	}
	t0 := time.Now()
	p, err := loadRepo(repo, ov)
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	if *cross {
		cvc5pool = newPool("cvc5", 1, cvc5Prelude, "cvc5", "--incremental", "--tlimit-per=20000")
		defer cvc5pool.close()
	}
	z3pool = newPool("z3", 1, z3Prelude, "z3-new", "-in")
	defer z3pool.close()
	x := newExec(p, modes)
	x.cvc5 = *cross
	if *limit > 0 {
		x.deadline = t0.Add(time.Duration(*limit) * time.Second)
	}
	fmt.Println("loaded", time.Since(t0))
	if err := x.initPackages(); err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	for f := range ssautil.AllFunctions(p.prog) {
		if x.isParse(f) {
			x.contracts[f] = x.parseContract(f)
		}
	}
	for _, f := range p.lemmas() {
		if !strings.HasPrefix(f.Name(), only) || *exact && f.Name() != only {
			continue
		}
		t1 := time.Now()
		err := x.runLemma(f)
		fmt.Println(f.Name(), time.Since(t1), "returns", x.returns[f.Name()], err)
		if *jsonOut != "" {
			b, _ := json.Marshal(x.result(f.Name(), err, time.Since(t1)))
			if err := os.WriteFile(*jsonOut, b, 0o644); err != nil {
				fmt.Println(err)
				os.Exit(2)
			}
		}
	}
	bad := 0
	for _, n := range x.order {
		o := x.obl[n]
		if o.Failed > 0 {
			bad++
			fmt.Printf("FAILED %s (%d of %d)\n", n, o.Failed, o.Count)
			if verbose {
				fmt.Println(o.Detail)
			}
		}
	}
	tot, simple, solver := 0, 0, 0
	for _, o := range x.obl {
		tot += o.Count
		simple += o.Simple
		solver += o.Solver
	}
	fmt.Printf("%d obligations (%d instances, %d simple, %d solver), %d failed, loops %d nodes %d paths %d steps %d, %v\n", len(x.order), tot, simple, solver, bad, x.loops, x.nodes, x.paths, x.steps, time.Since(t0))
}
