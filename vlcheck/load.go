package main

import (
	"fmt"
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const module = "github.com/VolantMQ/vlapi"

type Program struct {
	prog *ssa.Program
	pkgs map[string]*ssa.Package // module packages by last path element
	all  []*packages.Package
}

func repoDir() string {
	if d := os.Getenv("VLCHECK_REPO"); d != "" {
		return d
	}
	return "/repo"
}

func loadProgram(more ...string) (*Program, error) {
	cfg := &packages.Config{
		Mode: packages.LoadAllSyntax,
		Dir:  repoDir(),
		Env: append(os.Environ(), "GOTOOLCHAIN=local", "GOPROXY=off", "GOFLAGS=-mod=readonly", "GO111MODULE=on", "CGO_ENABLED=0",
			"GOPATH=/root/go", "GOMODCACHE=/root/go/pkg/mod", "HOME=/root"),
	}
	pkgs := []string{module + "/mqttp", module + "/vlauth", module + "/vlmonitoring", module + "/vlpersistence", module + "/vltypes", module + "/vlsubscriber"}
	for _, x := range more {
		pkgs = append(pkgs, module+"/"+x)
	}
	ps, err := packages.Load(cfg, pkgs...)
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(ps, nil, func(p *packages.Package) {
		if strings.HasPrefix(p.PkgPath, module) {
			for _, e := range p.Errors {
				errs = append(errs, e.Error())
			}
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("packages do not load: %s", strings.Join(errs, "; "))
	}
	prog, _ := ssautil.AllPackages(ps, ssa.InstantiateGenerics)
	prog.Build()
	p := &Program{prog: prog, pkgs: map[string]*ssa.Package{}, all: ps}
	for _, x := range ps {
		sp := prog.Package(x.Types)
		p.pkgs[x.PkgPath[len(module)+1:]] = sp
	}
	return p, nil
}

func newInterp(p *Program) *Interp {
	return &Interp{
		prog: p.prog, fset: p.prog.Fset, modPath: module,
		base: map[int]*Obj{}, globals: map[*ssa.Global]int{}, globObj: map[int]string{},
		symtab: map[string]*Sym{}, valtab: map[string]Val{}, info: map[*ssa.Function]*fnInfo{}, ptrKeys: map[string]int{},
		unroll: 70, leafK: 6, override: map[string]func(*Interp, *State, []Val, ssa.Instruction) []Outcome{},
		maxSteps: 60000000, funcs: map[*ssa.Function]bool{}, calls: map[ssa.Instruction]bool{},
		loopRep: map[string]*loopReport{}, scanFail: map[*ssa.BasicBlock]int{}, panics: map[string]int{},
	}
}

// initPackage runs a package's initialiser abstractly and keeps the resulting package data.
func (in *Interp) initPackage(p *ssa.Package) {
	in.initMode = true
	defer func() { in.initMode = false }()
	st := newState(in)
	save := in.unroll
	in.unroll = 5000
	outs := in.exec(p.Func("init"), nil, nil, st)
	in.unroll = save
	if len(outs) != 1 || outs[0].panicked {
		undecided("package %s does not initialise deterministically (%d outcomes)", p.Pkg.Path(), len(outs))
	}
	for id, o := range outs[0].st.heap {
		in.base[id] = o
	}
}

func (in *Interp) fn(p *ssa.Package, name string) *ssa.Function {
	if f := p.Func(name); f != nil {
		return f
	}
	undecided("function %s.%s not found", p.Pkg.Name(), name)
	return nil
}

// method finds a (possibly promoted) method of *T.
func (in *Interp) method(p *ssa.Package, typ, name string) *ssa.Function {
	o := p.Pkg.Scope().Lookup(typ)
	if o == nil {
		undecided("type %s.%s not found", p.Pkg.Name(), typ)
	}
	f := in.prog.LookupMethod(types.NewPointer(o.Type()), p.Pkg, name)
	if f == nil {
		undecided("method %s.%s not found", typ, name)
	}
	return f
}
