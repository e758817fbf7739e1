package main

import (
	"fmt"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const repoPkg = "github.com/wI2L/jettison"

// goroot is the toolchain whose standard library is executed symbolically: the one the
// repository is built and tested with.
const goroot = "/opt/veriftools/go1.23.12"

func goEnv() []string {
	var env []string
	for _, e := range os.Environ() {
		k := e[:strings.IndexByte(e, '=')]
		switch k {
		case "GOROOT", "PATH", "GOTOOLCHAIN", "GOPROXY", "GOFLAGS", "CGO_ENABLED", "GOOS", "GOARCH":
			continue
		}
		env = append(env, e)
	}
	return append(env, "GOROOT="+goroot, "PATH="+goroot+"/bin:/usr/local/bin:/usr/bin:/bin", "GOTOOLCHAIN=local", "GOPROXY=off",
		"GOFLAGS=-mod=mod -buildvcs=false", "CGO_ENABLED=0")
}

func loadProgram(dir string) (*Program, error) {
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: dir, Env: goEnv()}
	pkgs, err := packages.Load(cfg, ".")
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("loading: %s", strings.Join(errs, "; "))
	}
	prog, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	P := &Program{prog: prog, pkgs: map[string]*ssa.Package{}, linkname: map[string]string{}, funcByStr: map[string]*ssa.Function{}}
	for _, p := range prog.AllPackages() {
		P.pkgs[p.Pkg.Path()] = p
		for _, mb := range p.Members {
			if f, ok := mb.(*ssa.Function); ok {
				P.funcByStr[f.String()] = f
			}
		}
	}
	push := map[string]string{}
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, f := range p.Syntax {
			for _, cg := range f.Comments {
				for _, c := range cg.List {
					if !strings.HasPrefix(c.Text, "//go:linkname ") {
						continue
					}
					fs := strings.Fields(c.Text)
					if len(fs) != 3 {
						continue
					}
					local := p.PkgPath + "." + fs[1]
					lf := P.funcByStr[local]
					if lf == nil {
						continue
					}
					if lf.Blocks == nil {
						P.linkname[local] = fs[2]
					} else {
						push[fs[2]] = local
					}
				}
			}
		}
	})
	for t, local := range push {
		if f := P.funcByStr[t]; f == nil || f.Blocks == nil {
			if _, ok := P.linkname[t]; !ok {
				P.linkname[t] = local
			}
		}
	}
	return P, nil
}

func (P *Program) lookup(name string) *ssa.Function { return P.funcByStr[name] }

// initSkip lists packages whose initialisation talks to the operating system or the
// runtime; nothing the harnesses call depends on it.
func initSkip(path string) bool {
	switch path {
	case "os", "syscall", "io/fs", "internal/godebug", "internal/cpu", "internal/poll", "internal/testlog", "runtime/debug", "log", "os/signal":
		return true
	case "internal/abi", "internal/bytealg", "internal/reflectlite", "internal/itoa", "internal/oserror", "internal/fmtsort", "internal/saferio":
		return false
	}
	return path == "runtime" || strings.HasPrefix(path, "runtime/") || strings.HasPrefix(path, "internal/") || strings.HasPrefix(path, "vendor/")
}

// boot runs the package initialisers concretely.
func (m *Machine) boot(mainPkg *ssa.Package) (err error) {
	m.booting = true
	for _, p := range m.P.prog.AllPackages() {
		if initSkip(p.Pkg.Path()) {
			if f := p.Func("init"); f != nil {
				m.cfs[f] = &CFunc{fn: f, recov: -1, name: f.String(), intr: func(m *Machine, fn *ssa.Function, a []Value) Value { return Value{} }}
			}
		}
	}
	m.pools = map[Addr][]Value{}
	m.chans = map[Addr]*chanState{}
	m.setModel(make(Model, 0))
	g := &Gor{}
	m.gors = []*Gor{g}
	m.cur = 0
	ms := m.maxStep
	m.maxStep = 200_000_000
	m.pushFrame(g, m.cfunc(mainPkg.Func("init")), nil, 0)
	kind, id, msg := m.runGuard()
	if kind != "end" {
		return fmt.Errorf("initialisation: %s %s %s at %s", kind, id, msg, strings.Join(m.trace(), " > "))
	}
	m.maxStep = ms
	m.basePools = m.pools
	m.baseChans = m.chans
	m.booting = false
	m.gors = nil
	m.trail = m.trail[:0]
	return nil
}

func newBooted(P *Program, mainPkg *ssa.Package) (*Machine, error) {
	m := NewMachine(P)
	t0 := time.Now()
	if err := m.boot(mainPkg); err != nil {
		return nil, err
	}
	if os.Getenv("ENGINE_DEBUG") != "" {
		fmt.Fprintf(os.Stderr, "boot: %d steps %v, %d static %d dyn objects\n", m.steps, time.Since(t0), len(m.static), len(m.dyn))
	}
	return m, nil
}

// harnesses returns the entry points of a property in name order.
func harnesses(pkg *ssa.Package, prop string, thorough bool) []*ssa.Function {
	var out []*ssa.Function
	for n, mb := range pkg.Members {
		f, ok := mb.(*ssa.Function)
		if !ok {
			continue
		}
		if strings.HasPrefix(n, "Q_"+prop+"_") || thorough && strings.HasPrefix(n, "T_"+prop+"_") {
			out = append(out, f)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Name() < out[j].Name() })
	return out
}
