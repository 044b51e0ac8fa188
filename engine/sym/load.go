package sym

import (
	"fmt"
	"go/types"
	"os"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Program is the loaded code: harness, repository and everything they import.
type Program struct {
	prog   *ssa.Program
	byPath map[string]*ssa.Package
	rtErr  types.Type
	mu     sync.Mutex
	mvals  map[*types.Selection]*ssa.Function
}

// Load type-checks and converts the packages to SSA form, from source.
func Load(dir string, env []string, overlay map[string][]byte, patterns ...string) (*Program, error) {
	cfg := &packages.Config{
		Mode:    packages.LoadAllSyntax,
		Dir:     dir,
		Env:     append(os.Environ(), env...),
		Overlay: overlay,
	}
	pkgs, err := packages.Load(cfg, patterns...)
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("loading: %s", strings.Join(errs, "\n"))
	}
	prog, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics|ssa.SanityCheckFunctions&0)
	pr := &Program{prog: prog, byPath: map[string]*ssa.Package{}, mvals: map[*types.Selection]*ssa.Function{}}
	for _, p := range prog.AllPackages() {
		pr.byPath[p.Pkg.Path()] = p
	}
	if rt := pr.byPath["runtime"]; rt != nil {
		if o := rt.Pkg.Scope().Lookup("plainError"); o != nil {
			pr.rtErr = o.Type()
		}
	}
	return pr, nil
}

func (pr *Program) methodValue(sel *types.Selection) *ssa.Function {
	return pr.prog.MethodValue(sel)
}

// Package returns a loaded package, built.
func (pr *Program) Package(path string) *ssa.Package {
	p := pr.byPath[path]
	if p != nil {
		p.Build()
	}
	return p
}

// Funcs lists the functions of a package whose name has the prefix.
func (pr *Program) Funcs(path string) []string {
	var r []string
	if p := pr.byPath[path]; p != nil {
		for n, m := range p.Members {
			if _, ok := m.(*ssa.Function); ok {
				r = append(r, n)
			}
		}
	}
	return r
}
