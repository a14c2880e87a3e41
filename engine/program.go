package main

import (
	"fmt"
	"go/types"
	"os"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

func fatalf(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "gosym: "+f+"\n", a...)
	os.Exit(2)
}

type pkgInfo struct {
	pkg     *ssa.Package
	globals []int
	initFn  *ssa.Function
	perPath bool // repo and harness packages: globals are fresh on every path
	repo    bool
	idx     int
	// packages whose init functions set globals of this one
	injectors []*pkgInfo
}

type program struct {
	prog    *ssa.Program
	all     map[string]*ssa.Package
	mu      sync.Mutex
	ssaMu   sync.Mutex
	funcs   map[*ssa.Function]*Func
	gidx    map[*ssa.Global]int
	glist   []*ssa.Global
	gpkg    []*pkgInfo
	gtype   []*RType
	pkgs    map[*ssa.Package]*pkgInfo
	pkgList []*pkgInfo
	replace map[string]*ssa.Function
	replPkg map[string]bool

	rtErrStr  *RType // runtime.errorString
	rtypePtr  *RType // *reflect.rtype
	reflValue *RType
	rlRtype   *RType
	errIface  *types.Interface
	osPathErr *RType
}

const repoMod = "github.com/wujiu2020/strip"

// loadProgram loads /repo (with overlay) and builds SSA for everything.
func loadProgram(dir string, overlay map[string][]byte, modfile string, patterns []string, tags string) (*program, error) {
	flags := []string{"-mod=mod", "-tags=" + tags}
	if modfile != "" {
		flags = append(flags, "-modfile="+modfile)
	}
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: dir, Overlay: overlay, BuildFlags: flags,
		Env: append(os.Environ(), "GOTOOLCHAIN=local", "GOPROXY=off", "GOFLAGS=", "CGO_ENABLED=0", "GO111MODULE=on", "GOWORK=off")}
	pk, err := packages.Load(cfg, patterns...)
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(pk, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		if len(errs) > 10 {
			errs = errs[:10]
		}
		return nil, fmt.Errorf("load errors:\n%s", strings.Join(errs, "\n"))
	}
	prog, _ := ssautil.AllPackages(pk, ssa.InstantiateGenerics)
	prog.Build()
	p := &program{prog: prog, all: map[string]*ssa.Package{}, funcs: map[*ssa.Function]*Func{}, gidx: map[*ssa.Global]int{},
		pkgs: map[*ssa.Package]*pkgInfo{}, replace: map[string]*ssa.Function{}}
	for _, sp := range prog.AllPackages() {
		p.all[sp.Pkg.Path()] = sp
		inf := &pkgInfo{pkg: sp, initFn: sp.Func("init"), idx: len(p.pkgList)}
		path := sp.Pkg.Path()
		inf.repo = path == repoMod || strings.HasPrefix(path, repoMod+"/")
		inf.perPath = inf.repo || strings.HasPrefix(path, "verifstub")
		p.pkgs[sp] = inf
		p.pkgList = append(p.pkgList, inf)
		for _, mem := range sp.Members {
			if g, ok := mem.(*ssa.Global); ok {
				p.gidx[g] = len(p.glist)
				inf.globals = append(inf.globals, len(p.glist))
				p.glist = append(p.glist, g)
				p.gpkg = append(p.gpkg, inf)
				p.gtype = append(p.gtype, rtypeOf(g.Type().Underlying().(*types.Pointer).Elem()))
			}
		}
	}
	// packages whose init functions set globals of other packages run along with those
	for _, inf := range p.pkgList {
		if inf.repo {
			continue
		}
		for name, mem := range inf.pkg.Members {
			fn, ok := mem.(*ssa.Function)
			if !ok || !strings.HasPrefix(name, "init#") {
				continue
			}
			for _, b := range fn.Blocks {
				for _, ins := range b.Instrs {
					st, ok := ins.(*ssa.Store)
					if !ok {
						continue
					}
					if g, ok := st.Addr.(*ssa.Global); ok && g.Pkg != inf.pkg {
						if t := p.pkgs[g.Pkg]; t != nil {
							t.injectors = append(t.injectors, inf)
						}
					}
				}
			}
		}
	}
	look := func(pkg, name string) types.Type {
		sp := p.all[pkg]
		if sp == nil {
			return nil
		}
		o := sp.Pkg.Scope().Lookup(name)
		if o == nil {
			fatalf("type %s.%s not found", pkg, name)
		}
		return o.Type()
	}
	p.rtErrStr = rtypeOf(look("runtime", "errorString"))
	if t := look("reflect", "rtype"); t != nil {
		p.rtypePtr = rtypeOf(types.NewPointer(t))
		p.reflValue = rtypeOf(look("reflect", "Value"))
	}
	if t := look("internal/reflectlite", "rtype"); t != nil {
		p.rlRtype = rtypeOf(t)
	}
	p.errIface = types.Universe.Lookup("error").Type().Underlying().(*types.Interface)
	return p, nil
}

func isTestOrHarness(path string) bool { return strings.HasPrefix(path, repoMod+"/zz_verif") }

// repoFunc: function of the code under test
func (p *program) isRepo(fn *ssa.Function) bool {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if o := fn.Origin(); o != nil {
		fn = o
	}
	pk := fn.Package()
	if pk == nil {
		if fn.Object() != nil && fn.Object().Pkg() != nil {
			path := fn.Object().Pkg().Path()
			return (path == repoMod || strings.HasPrefix(path, repoMod+"/")) && !isTestOrHarness(path)
		}
		return false
	}
	path := pk.Pkg.Path()
	return (path == repoMod || strings.HasPrefix(path, repoMod+"/")) && !isTestOrHarness(path)
}

func (p *program) funcOf(fn *ssa.Function) *Func {
	p.mu.Lock()
	defer p.mu.Unlock()
	return p.funcLocked(fn)
}

func (p *program) funcLocked(fn *ssa.Function) *Func {
	if f := p.funcs[fn]; f != nil {
		return f
	}
	f := &Func{fn: fn, p: p, name: fn.String()}
	key := f.name
	if o := fn.Origin(); o != nil {
		key = o.String()
	}
	f.key = key
	if r := p.replace[key]; r != nil {
		f.repl = r
	}
	if f.repl == nil {
		f.intr = intrinsics[key]
		f.try = tries[key]
	}
	if key == "reflect.TypeFor" && len(fn.TypeArgs()) == 1 {
		rt := rtypeOf(fn.TypeArgs()[0])
		f.intr = func(m *machine, fr *frame, a []Value) Value { return m.rtypeVal(rt) }
	}
	if key == "reflect.TypeAssert" && len(fn.TypeArgs()) == 1 {
		at := rtypeOf(fn.TypeArgs()[0])
		it, isIface := at.t.Underlying().(*types.Interface)
		vi := intrinsics["(reflect.Value).Interface"]
		f.intr = func(m *machine, fr *frame, a []Value) Value {
			v := vi(m, fr, a)
			if i, _ := v.P.(*Iface); i != nil {
				if isIface && m.implements(i.t, at, it) {
					return mkTuple(v, mkBool(true))
				}
				if !isIface && i.t == at {
					return mkTuple(i.v, mkBool(true))
				}
			}
			return mkTuple(zero(at), mkBool(false))
		}
	}
	if f.intr == nil && f.repl == nil {
		if pk := fnPkg(fn); pk != "" {
			switch pk {
			case "reflect", "internal/reflectlite":
				if !reflectPure(key) {
					f.unsupported = true
				}
			case "runtime", "internal/runtime/atomic", "syscall", "internal/poll", "internal/syscall/unix", "internal/runtime/maps", "runtime/debug":
				if fn.Name() != "init" && !runtimePure(key) {
					f.unsupported = true
				}
			}
		}
	}
	f.clo = &Closure{fn: f}
	f.isRepo = p.isRepo(fn)
	p.funcs[fn] = f
	return f
}

func fnPkg(fn *ssa.Function) string {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if fn.Package() != nil {
		return fn.Package().Pkg.Path()
	}
	if o := fn.Origin(); o != nil && o.Package() != nil {
		return o.Package().Pkg.Path()
	}
	if fn.Object() != nil && fn.Object().Pkg() != nil {
		return fn.Object().Pkg().Path()
	}
	return ""
}

// lookupFunc finds a package-level function or method by its String() form.
func (p *program) lookupFunc(pkg, name string) *ssa.Function {
	sp := p.all[pkg]
	if sp == nil {
		return nil
	}
	return sp.Func(name)
}
