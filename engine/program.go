package main

import (
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const repoPkg = "github.com/amarin/query"

// Program is the shared, immutable encoding source: SSA of harness, repository and standard library.
type Program struct {
	prog       *ssa.Program
	repoDir    string
	harnPkg    *ssa.Package
	pkgs       []*ssa.Package
	rtErrType  types.Type
	rtypeType  types.Type
	errorIface *types.Interface
	mu         sync.Mutex
	meth       map[methKey]*ssa.Function
	skipIntr   map[*ssa.Function]bool
	repoFiles  map[string]bool
}

func loadProgram(harnessDir, repoDir, modfile string) (*Program, error) {
	flags := []string{"-mod=mod"}
	if modfile != "" {
		flags = append(flags, "-modfile="+modfile)
	}
	cfg := &packages.Config{
		Mode:       packages.LoadAllSyntax,
		Dir:        harnessDir,
		Env:        append(os.Environ(), "GOFLAGS=", "GOWORK=off", "GOPROXY=off", "GOSUMDB=off", "CGO_ENABLED=0"),
		BuildFlags: flags,
	}
	initial, err := packages.Load(cfg, "./h")
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(initial, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("load: %s", strings.Join(errs, "\n"))
	}
	prog, pkgs := ssautil.AllPackages(initial, ssa.InstantiateGenerics)
	prog.Build()
	p := &Program{prog: prog, repoDir: repoDir, harnPkg: pkgs[0], meth: map[methKey]*ssa.Function{}, skipIntr: map[*ssa.Function]bool{}}
	for _, pk := range prog.AllPackages() {
		p.pkgs = append(p.pkgs, pk)
	}
	rt := prog.ImportedPackage("runtime")
	if rt == nil || rt.Type("errorString") == nil {
		return nil, fmt.Errorf("runtime package not loaded")
	}
	p.rtErrType = canon(rt.Type("errorString").Type())
	p.errorIface = types.Universe.Lookup("error").Type().Underlying().(*types.Interface)
	if r := prog.ImportedPackage("reflect"); r != nil {
		p.rtypeType = canon(types.NewPointer(r.Type("rtype").Type()))
	} else {
		p.rtypeType = canon(types.NewPointer(types.Typ[types.Int]))
	}
	return p, nil
}

func (p *Program) fn(pkg, name string) *ssa.Function {
	pk := p.prog.ImportedPackage(pkg)
	if pk == nil {
		return nil
	}
	return pk.Func(name)
}

func (p *Program) isRepoFn(fn *ssa.Function) bool {
	for f := fn; f != nil; f = f.Parent() {
		if f.Pkg != nil {
			return f.Pkg.Pkg.Path() == repoPkg && f.Synthetic == ""
		}
		if o := f.Origin(); o != nil && o.Pkg != nil {
			return o.Pkg.Pkg.Path() == repoPkg
		}
	}
	return false
}

var initDeny = []string{"runtime", "internal/", "os", "syscall", "reflect", "sync", "time", "io/fs", "path", "context", "log", "math/rand", "unique", "crypto", "net", "vendor", "iter", "weak"}

func (p *Program) intrinsicFor(fn *ssa.Function) intrinsic {
	p.mu.Lock()
	defer p.mu.Unlock()
	if p.skipIntr[fn] {
		return nil
	}
	if fn.Synthetic == "package initializer" {
		path := fn.Pkg.Pkg.Path()
		for _, d := range initDeny {
			if path == d || strings.HasPrefix(path, d) && (strings.HasSuffix(d, "/") || strings.HasPrefix(path, d+"/")) {
				return func(in *Interp, fn *ssa.Function, args []Value) Value { return nil }
			}
		}
		return nil
	}
	name := fn.String()
	if o := fn.Origin(); o != nil {
		name = o.String()
	}
	if f, ok := intrinsics[name]; ok {
		return f
	}
	return nil
}

func (p *Program) noIntr(fn *ssa.Function, f func()) {
	p.mu.Lock()
	p.skipIntr[fn] = true
	p.mu.Unlock()
	f()
	p.mu.Lock()
	delete(p.skipIntr, fn)
	p.mu.Unlock()
}

// lookupMethod finds the function implementing method name of t (nil if it has none).
func (p *Program) lookupMethod(t types.Type, pkg *types.Package, name string) *ssa.Function {
	p.mu.Lock()
	defer p.mu.Unlock()
	k := methKey{t, name, nil}
	if pkg != nil && name[0] >= 'a' && name[0] <= 'z' {
		k.p = pkg
	}
	if f, ok := p.meth[k]; ok {
		return f
	}
	var f *ssa.Function
	if !types.IsInterface(t) {
		if sel := p.prog.MethodSets.MethodSet(t).Lookup(k.p, name); sel != nil {
			f = p.prog.MethodValue(sel)
		}
	}
	p.meth[k] = f
	return f
}

// harnesses lists the harness functions of a property (H_<id>_...).
func (p *Program) harnesses(prop string) []*ssa.Function {
	var fs []*ssa.Function
	for n, m := range p.harnPkg.Members {
		if f, ok := m.(*ssa.Function); ok && strings.HasPrefix(n, "H_") {
			if prop == "" || strings.HasPrefix(n, "H_"+prop+"_") {
				fs = append(fs, f)
			}
		}
	}
	sort.Slice(fs, func(i, j int) bool { return fs[i].Name() < fs[j].Name() })
	return fs
}

// repoFuncs lists every function of the repository (generic instances under their own name).
func (p *Program) repoFuncs() []*ssa.Function {
	var r []*ssa.Function
	for f := range ssautil.AllFunctions(p.prog) {
		if p.isRepoFn(f) && f.Blocks != nil && f.Synthetic == "" {
			r = append(r, f)
		}
	}
	sort.Slice(r, func(i, j int) bool { return r[i].String() < r[j].String() })
	return r
}

func newInterp(p *Program, solverArgv []string, timeoutMS int, tier string, maxStep int64) (*Interp, error) {
	in := &Interp{P: p, st: NewStore(), global: map[*ssa.Global]*Cell{}, code: map[*ssa.Function]*fnCode{},
		imeth: map[methKey]*ssa.Function{}, stats: newStats(), covered: map[*ssa.BasicBlock]bool{}, bounds: map[string]string{}, tier: tier, maxStep: 1 << 40}
	sol, err := NewSolver(in.st, solverArgv, timeoutMS)
	if err != nil {
		return nil, err
	}
	in.sol = sol
	in.model = Model{}
	in.pcSet = map[int32]bool{}
	in.epoch = 0
	err = func() (err error) {
		defer func() {
			if r := recover(); r != nil {
				if tp, ok := r.(*targetPanic); ok {
					err = fmt.Errorf("init panicked: %s %v at %s", tp.msg, tp.v.v, in.stack())
					return
				}
				err = fmt.Errorf("init: %v at %s", r, in.stack())
			}
		}()
		in.callFn(p.harnPkg.Func("init"), nil, nil)
		return nil
	}()
	in.epoch = 1
	in.maxStep = maxStep
	in.covered = map[*ssa.BasicBlock]bool{}
	for _, c := range in.code {
		for _, b := range c.blocks {
			b.cov = false
		}
	}
	return in, err
}

func absPath(s string) string {
	a, err := filepath.Abs(s)
	if err != nil {
		return s
	}
	return a
}
