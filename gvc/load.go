package main

// Loading of the repository's current source and its SSA form.

import (
	"fmt"
	"go/token"
	"os"
	"path/filepath"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type Prog struct {
	fset *token.FileSet
	prog *ssa.Program
	root *ssa.Package // package urn
	pkgs []*ssa.Package
	repo map[string]bool // import paths of the repository
}

func loadRepo(repo string, overlay map[string][]byte) (*Prog, error) {
	ov := map[string][]byte{}
	for k, v := range overlay {
		ov[filepath.Join(repo, k)] = v
	}
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedTypes | packages.NeedTypesSizes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedDeps | packages.NeedModule,
		Dir:     repo,
		Overlay: ov,
		Env:     append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOSUMDB=off", "GOTOOLCHAIN=local", "GOWORK=off", "CGO_ENABLED=0"),
	}
	all, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	var pkgs []*packages.Package
	for _, p := range all {
		if p.Name != "main" { // tools
			pkgs = append(pkgs, p)
		}
	}
	var msgs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			msgs = append(msgs, e.Error())
		}
	})
	if len(msgs) > 0 {
		return nil, fmt.Errorf("%s", strings.Join(msgs, "\n"))
	}
	p := &Prog{repo: map[string]bool{}}
	prog, sp := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	p.prog = prog
	p.fset = prog.Fset
	for _, k := range prog.AllPackages() {
		if fromSource[k.Pkg.Path()] {
			k.Build()
		}
	}
	for _, k := range sp {
		if k != nil {
			k.Build()
		}
	}
	mod := ""
	for i, pk := range pkgs {
		if pk.Module != nil {
			mod = pk.Module.Path
		}
		p.pkgs = append(p.pkgs, sp[i])
		p.repo[pk.PkgPath] = true
		if pk.PkgPath == mod {
			p.root = sp[i]
		}
	}
	if p.root == nil {
		return nil, fmt.Errorf("root package not found")
	}
	return p, nil
}

// fromSource: the packages of the standard library whose functions are verified from their source like the repository's.
var fromSource = map[string]bool{"slices": true, "maps": true, "cmp": true, "iter": true}

// hasSource tells whether the function is executed from its own body.
func (p *Prog) hasSource(f *ssa.Function) bool {
	if p.inRepo(f) {
		return true
	}
	for f.Parent() != nil {
		f = f.Parent()
	}
	if f.Origin() != nil {
		f = f.Origin()
	}
	return f.Pkg != nil && fromSource[f.Pkg.Pkg.Path()]
}

func (p *Prog) inRepo(f *ssa.Function) bool {
	if f.Pkg != nil {
		return p.repo[f.Pkg.Pkg.Path()]
	}
	if f.Parent() != nil {
		return p.inRepo(f.Parent())
	}
	if f.Synthetic != "" && f.Blocks != nil {
		// wrappers, bound methods, instantiations
		if o := f.Object(); o != nil && o.Pkg() != nil {
			return p.repo[o.Pkg().Path()]
		}
		if o := f.Origin(); o != nil {
			return p.inRepo(o)
		}
	}
	return false
}
