// Package gossa is the Go front end: it loads packages of the current source
// tree, builds SSA and translates functions to vm code.
package gossa

import (
	"fmt"
	"go/types"
	"os"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type Config struct {
	Dir     string // module directory (/repo)
	GOARCH  string
	Tags    string
	Cgo     bool
	Overlay map[string][]byte
	Env     []string
	Pkgs    []string
}

type Prog struct {
	Cfg     Config
	Prog    *ssa.Program
	Pkgs    map[string]*ssa.Package // by import path
	Sizes   types.Sizes
	Module  string
	PtrSize int
	mu      sync.Mutex
	built   map[*ssa.Package]bool
	order   []*packages.Package
}

func Load(cfg Config) (*Prog, error) {
	cg := "0"
	if cfg.Cgo {
		cg = "1"
	}
	env := append(os.Environ(), cfg.Env...)
	env = append(env, "GOOS=linux", "GOARCH="+cfg.GOARCH, "CGO_ENABLED="+cg)
	pc := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedDeps |
			packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir: cfg.Dir, Env: env, Overlay: cfg.Overlay,
	}
	if cfg.Tags != "" {
		pc.BuildFlags = []string{"-tags=" + cfg.Tags}
	}
	pkgs, err := packages.Load(pc, cfg.Pkgs...)
	if err != nil {
		return nil, err
	}
	var errs []string
	p := &Prog{Cfg: cfg, Pkgs: map[string]*ssa.Package{}, built: map[*ssa.Package]bool{}}
	packages.Visit(pkgs, nil, func(pk *packages.Package) {
		for _, e := range pk.Errors {
			errs = append(errs, e.Error())
		}
		if pk.Module != nil && pk.Module.Main {
			p.Module = pk.Module.Path
			p.order = append(p.order, pk)
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("load: %s", strings.Join(errs, "; "))
	}
	p.Prog, _ = ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	for _, sp := range p.Prog.AllPackages() {
		p.Pkgs[sp.Pkg.Path()] = sp
	}
	p.Sizes = types.SizesFor("gc", cfg.GOARCH)
	p.PtrSize = int(p.Sizes.Sizeof(types.Typ[types.Uintptr]))
	return p, nil
}

// build makes sure the package of fn has bodies.
func (p *Prog) build(fn *ssa.Function) {
	pk := fn.Package()
	if pk == nil && fn.Origin() != nil {
		pk = fn.Origin().Package()
	}
	if pk == nil {
		return
	}
	p.mu.Lock()
	defer p.mu.Unlock()
	if !p.built[pk] {
		pk.Build()
		p.built[pk] = true
	}
}

func (p *Prog) Func(pkg, name string) *ssa.Function {
	sp := p.Pkgs[pkg]
	if sp == nil {
		return nil
	}
	p.mu.Lock()
	if !p.built[sp] {
		sp.Build()
		p.built[sp] = true
	}
	p.mu.Unlock()
	return sp.Func(name)
}
