package main

import (
	"fmt"
	"go/types"
	"os"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "blichmann.eu/code/btrfscue"

type Program struct {
	mu    sync.Mutex
	prog  *ssa.Program
	pkgs  map[string]*ssa.Package
	funcs map[string]*ssa.Function // canonical name -> function
	repo  string
	errs  []string
}

func goEnv() []string {
	env := []string{}
	for _, e := range os.Environ() {
		k := strings.SplitN(e, "=", 2)[0]
		switch k {
		case "GOFLAGS", "GOPROXY", "GOTOOLCHAIN", "GOWORK", "GO111MODULE":
			continue
		}
		env = append(env, e)
	}
	return append(env, "GOFLAGS=-mod=mod -buildvcs=false", "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off")
}

func loadProgram(repo string) (*Program, error) {
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: repo, Env: goEnv(), Tests: false}
	initial, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	p := &Program{pkgs: map[string]*ssa.Package{}, funcs: map[string]*ssa.Function{}, repo: repo}
	for _, pk := range initial {
		for _, e := range pk.Errors {
			p.errs = append(p.errs, e.Error())
		}
	}
	if len(p.errs) > 0 {
		return nil, fmt.Errorf("the code does not compile: %s", strings.Join(p.errs, "; "))
	}
	prog, _ := ssautil.AllPackages(initial, ssa.GlobalDebug|ssa.InstantiateGenerics)
	p.prog = prog
	for _, pk := range prog.AllPackages() {
		p.pkgs[pk.Pkg.Path()] = pk
	}
	for _, pk := range initial {
		sp := prog.Package(pk.Types)
		if sp == nil {
			continue
		}
		sp.Build()
		p.index(sp)
	}
	return p, nil
}

func (p *Program) index(sp *ssa.Package) {
	for _, m := range sp.Members {
		switch m := m.(type) {
		case *ssa.Function:
			p.funcs[funcName(m)] = m
		case *ssa.Type:
			for _, t := range []types.Type{m.Type(), types.NewPointer(m.Type())} {
				ms := p.prog.MethodSets.MethodSet(t)
				for i := 0; i < ms.Len(); i++ {
					f := p.prog.MethodValue(ms.At(i))
					if f != nil && f.Synthetic == "" {
						p.funcs[funcName(f)] = f
					}
				}
			}
		}
	}
}

// funcName is the canonical name: "pkg/path.F", "pkg/path.(T).M", "pkg/path.(*T).M".
func funcName(f *ssa.Function) string {
	if f.Parent() != nil {
		return funcName(f.Parent()) + "$" + strings.TrimPrefix(f.Name(), f.Parent().Name()+"$")
	}
	pk := ""
	if f.Pkg != nil {
		pk = f.Pkg.Pkg.Path()
	} else if f.Object() != nil && f.Object().Pkg() != nil {
		pk = f.Object().Pkg().Path()
	}
	if recv := f.Signature.Recv(); recv != nil {
		t := recv.Type()
		if pt, ok := t.(*types.Pointer); ok {
			return fmt.Sprintf("%s.(*%s).%s", pk, typeBase(pt.Elem()), f.Name())
		}
		return fmt.Sprintf("%s.(%s).%s", pk, typeBase(t), f.Name())
	}
	n := f.Name()
	if f.Origin() != nil {
		n = f.Origin().Name()
	}
	return pk + "." + n
}
func typeBase(t types.Type) string {
	switch n := types.Unalias(t).(type) {
	case *types.Named:
		return n.Obj().Name()
	}
	return t.String()
}

// lookup finds a function by canonical name, also outside the module.
func (p *Program) lookup(n string) *ssa.Function {
	p.mu.Lock()
	defer p.mu.Unlock()
	if f := p.funcs[n]; f != nil {
		return f
	}
	i := strings.Index(n, ".(")
	if i >= 0 {
		pk := p.pkgs[n[:i]]
		if pk != nil {
			pk.Build()
			p.index(pk)
		}
	} else if i = strings.LastIndex(n, "."); i > 0 {
		if pk := p.pkgs[n[:i]]; pk != nil {
			pk.Build()
			p.index(pk)
		}
	}
	return p.funcs[n]
}

func inModule(f *ssa.Function) bool {
	for f.Parent() != nil {
		f = f.Parent()
	}
	if f.Pkg == nil {
		return false
	}
	pp := f.Pkg.Pkg.Path()
	return pp == modPath || strings.HasPrefix(pp, modPath+"/")
}

func (p *Program) ensureBuilt(f *ssa.Function) {
	g := f
	for g.Parent() != nil {
		g = g.Parent()
	}
	if g.Pkg != nil {
		g.Pkg.Build()
	}
}
func shortName(n string) string {
	return strings.TrimPrefix(strings.TrimPrefix(n, modPath), "/")
}

func (p *Program) get(n string) *ssa.Function {
	p.mu.Lock()
	defer p.mu.Unlock()
	return p.funcs[n]
}

func (p *Program) all() []*ssa.Function {
	p.mu.Lock()
	defer p.mu.Unlock()
	var out []*ssa.Function
	for _, n := range sortedKeys(p.funcs) {
		out = append(out, p.funcs[n])
	}
	return out
}
