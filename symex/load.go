package main

import (
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
	"golang.org/x/tools/go/types/typeutil"
)

var errw = os.Stderr

// Engine holds the program under test in SSA form and its compiled functions.
type Engine struct {
	prog    *ssa.Program
	sizes   types.Sizes
	modPath string
	repo    string
	pkgs    []*ssa.Package
	target  *ssa.Package // the package that contains the harnesses

	mu     sync.Mutex
	funcs  map[*ssa.Function]*Func
	rtypes typeutil.Map

	rtMu   sync.RWMutex
	rtFast map[types.Type]*RType

	implMu sync.RWMutex
	impl   map[any]bool
	meths  map[any]*Func

	rtErr   *RType // *errors.errorString
	rtStr   *RType
	rtBytes *RType
	rtInt   *RType
	rtRune  *RType
}

const modPath = "github.com/cnsgfk/xbnf"

func goEnv() []string {
	env := os.Environ()
	out := env[:0:0]
	for _, e := range env {
		if strings.HasPrefix(e, "GOFLAGS=") || strings.HasPrefix(e, "GOWORK=") || strings.HasPrefix(e, "CGO_ENABLED=") {
			continue
		}
		out = append(out, e)
	}
	return append(out, "GOTOOLCHAIN=local", "GOPROXY=off", "GOSUMDB=off", "GOFLAGS=-mod=mod", "GOWORK=off", "CGO_ENABLED=0")
}

// loadEngine loads the package in dir (relative to the repository) with extra files overlaid.
func loadEngine(repo, sub string, overlay map[string][]byte, tests bool) (*Engine, error) {
	cfg := &packages.Config{
		Mode:    packages.LoadAllSyntax,
		Dir:     filepath.Join(repo, sub),
		Env:     goEnv(),
		Overlay: overlay,
		Tests:   tests,
	}
	initial, err := packages.Load(cfg, ".")
	if err != nil {
		return nil, err
	}
	nerr := 0
	var first string
	packages.Visit(initial, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			if nerr == 0 {
				first = e.Error()
			}
			nerr++
		}
	})
	if nerr > 0 {
		return nil, fmt.Errorf("the package does not type-check: %s", first)
	}
	prog, pkgs := ssautil.AllPackages(initial, ssa.InstantiateGenerics)
	e := &Engine{prog: prog, modPath: modPath, repo: repo, pkgs: pkgs,
		funcs: map[*ssa.Function]*Func{}, impl: map[any]bool{}, meths: map[any]*Func{}, rtFast: map[types.Type]*RType{}}
	e.sizes = types.SizesFor("gc", "amd64")
	for i, p := range pkgs {
		if p == nil {
			continue
		}
		if tests {
			if strings.Contains(initial[i].ID, ".test]") && !strings.HasSuffix(p.Pkg.Path(), "_test") {
				e.target = p
			}
		} else if e.target == nil {
			e.target = p
		}
	}
	if e.target == nil {
		return nil, fmt.Errorf("no package found")
	}
	for _, p := range prog.AllPackages() {
		if e.isTarget(p.Pkg.Path()) {
			p.Build()
		}
	}
	ep := prog.ImportedPackage("errors")
	if ep == nil {
		return nil, fmt.Errorf("package errors is not imported")
	}
	e.rtErr = e.rtypeL(types.NewPointer(ep.Type("errorString").Type()))
	e.rtStr = e.rtypeL(types.Typ[types.String])
	e.rtInt = e.rtypeL(types.Typ[types.Int])
	e.rtRune = e.rtypeL(types.Typ[types.Int32])
	e.rtBytes = e.rtypeL(types.NewSlice(types.Typ[types.Uint8]))
	return e, nil
}

func (e *Engine) isTarget(path string) bool {
	return path == e.modPath || strings.HasPrefix(path, e.modPath+"/") || path == "main" || path == "command-line-arguments"
}

func (e *Engine) perPath(p *ssa.Package) bool {
	return e.isTarget(p.Pkg.Path()) || p.Pkg.Path() == "flag"
}

// initOnly reports whether a call must be skipped because it is another package's initialiser
// (packages are initialised lazily).
func (e *Engine) initOnly(f *Func) bool {
	return f.fn != nil && f.fn.Name() == "init" && f.fn.Synthetic == "package initializer"
}

// rtypeL is rtype for use at run time.
func (e *Engine) rtypeL(t types.Type) *RType {
	e.rtMu.RLock()
	r := e.rtFast[t]
	e.rtMu.RUnlock()
	if r != nil {
		return r
	}
	r = e.rtype(t)
	e.rtMu.Lock()
	e.rtFast[t] = r
	e.rtMu.Unlock()
	return r
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

// newError returns an error value with the given message.
func (e *Engine) newError(msg Value) Value {
	p := new(Value)
	p.ref = &Agg{f: []Value{msg}}
	return Value{ref: &Iface{rt: e.rtErr, v: Value{ref: p}}}
}
