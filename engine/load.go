package main

import (
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/yeqown/go-qrcode/v2"

// Program is the loaded source (shared by all machines).
type Program struct {
	prog    *ssa.Program
	pkgs    map[string]*ssa.Package
	errType types.Type
	errors  []string
	mu      sync.Mutex
	infos   map[*ssa.Function]*fnInfo
	intr    map[string]intrin
	fmtM    map[types.Type]bool
	overlay []string
}

type fnInfo struct {
	v          bool
	intr       intrin
	interp     bool
	effectFree bool
}

// packages of the standard library (and dependencies) whose bodies are executed
var interpStd = map[string]bool{
	"unicode/utf8": true, "strings": true, "sort": true, "slices": true, "cmp": true, "math": true,
	"math/bits": true, "bytes": true, "maps": true, "iter": true, "image": true, "image/color": true,
	"unicode": true, "errors": true, "internal/stringslite": true, "internal/bytealg": false,
	"github.com/yeqown/reedsolomon": true, "github.com/yeqown/reedsolomon/binary": true,
}

// packages whose initialisers are executed
var initStd = []string{"unicode/utf8", "image", "image/color", "github.com/yeqown/reedsolomon", "github.com/yeqown/reedsolomon/binary"}

func isRepoPkg(path string) bool {
	return strings.HasPrefix(path, "github.com/yeqown/go-qrcode/")
}

func loadProgram(dir string, overlay map[string][]byte, patterns ...string) (*Program, error) {
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: dir, Overlay: overlay,
		Env: append(os.Environ(), "GOFLAGS=", "GOPROXY=off")}
	pkgs, err := packages.Load(cfg, patterns...)
	if err != nil {
		return nil, err
	}
	P := &Program{pkgs: map[string]*ssa.Package{}, infos: map[*ssa.Function]*fnInfo{}, intr: map[string]intrin{}, fmtM: map[types.Type]bool{}}
	for _, p := range pkgs {
		for _, e := range p.Errors {
			P.errors = append(P.errors, e.Error())
		}
	}
	if len(P.errors) > 0 {
		return P, nil
	}
	prog, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	P.prog = prog
	for _, p := range prog.AllPackages() {
		P.pkgs[p.Pkg.Path()] = p
	}
	if e := P.pkgs["errors"]; e != nil {
		P.errType = types.NewPointer(e.Type("errorString").Type())
	}
	stdIntrinsics(P.intr)
	ropeIntrinsics(P.intr)
	extIntrinsics(P.intr)
	return P, nil
}

func (P *Program) fnInfo(fn *ssa.Function) *fnInfo {
	P.mu.Lock()
	defer P.mu.Unlock()
	if i, ok := P.infos[fn]; ok {
		return i
	}
	i := &fnInfo{}
	P.infos[fn] = i
	name := fn.String()
	if o := fn.Origin(); o != nil {
		name = o.String()
	}
	i.v = strings.HasPrefix(fn.Name(), "v_")
	i.intr = P.intr[name]
	path := ""
	switch {
	case fn.Pkg != nil:
		path = fn.Pkg.Pkg.Path()
	case fn.Origin() != nil && fn.Origin().Pkg != nil:
		path = fn.Origin().Pkg.Pkg.Path()
	case fn.Object() != nil && fn.Object().Pkg() != nil:
		path = fn.Object().Pkg().Path()
	case fn.Parent() != nil:
		p := fn.Parent()
		for p.Parent() != nil {
			p = p.Parent()
		}
		if p.Pkg != nil {
			path = p.Pkg.Pkg.Path()
		} else if p.Origin() != nil && p.Origin().Pkg != nil {
			path = p.Origin().Pkg.Pkg.Path()
		}
	default:
		path = "" // synthetic wrappers
		i.interp = true
	}
	if isRepoPkg(path) || interpStd[path] {
		i.interp = true
	}
	if !i.interp && fn.Name() != "init" {
		i.effectFree = opaquePkg(path)
	}
	return i
}

func (P *Program) method(t types.Type, m *types.Func) *ssa.Function {
	return P.prog.LookupMethod(t, m.Pkg(), m.Name())
}

func (P *Program) hasFmtMethod(t types.Type) bool {
	P.mu.Lock()
	defer P.mu.Unlock()
	if r, ok := P.fmtM[t]; ok {
		return r
	}
	ms := types.NewMethodSet(t)
	r := ms.Lookup(nil, "String") != nil || ms.Lookup(nil, "Error") != nil || ms.Lookup(nil, "Format") != nil
	P.fmtM[t] = r
	return r
}

func newX(P *Program, redir map[*ssa.Function]*ssa.Function) *X {
	m := NewM()
	x := &X{m: m, prog: P.prog, P: P, fis: map[*ssa.Function]*FI{}, tinfos: map[types.Type]*tinfo{},
		globals: map[*ssa.Global]int32{}, globalOf: map[int32]*ssa.Global{},
		ropes: map[ropeKey]*Rope{}, maxSteps: 1 << 60, inv: map[int32]*Node{}, nodeMux: map[uint32]*Mux{},
		sumUsed: map[string]int{}, fnUsed: map[*ssa.Function]int64{}, obls: map[string]*Obl{},
		assumes: map[string]bool{}, bounded: map[string]bool{}, smtCache: map[uint64]bool{}, redir: map[*ssa.Function]*ssa.Function{}}
	m.tick = x.tick
	x.fiCache = map[*ssa.Function]*fnInfo{}
	x.emptyRope = &Rope{}
	x.emptyStr = concStr("")
	x.nilSlice = &Slice{isNil: true, esz: 1}
	x.nilIface = &Iface{}
	x.nilFunc = &Clo{}
	x.nextObj = maxGlobals
	// initialisers run with the contracts of functions outside the repository
	for f, g := range redir {
		if f.Pkg != nil && !isRepoPkg(f.Pkg.Pkg.Path()) {
			x.redir[f] = g
		}
	}
	x.initPackages()
	x.redir = redir
	return x
}

const maxGlobals = 4096

// initPackages executes the package initialisers (the real ones) to obtain the
// initial values of the package variables.
func (x *X) initPackages() {
	st := &State{own: 1, pc: x.m.T}
	x.own = 1
	var order []*ssa.Package
	seen := map[*types.Package]bool{}
	want := map[string]bool{}
	for _, p := range initStd {
		want[p] = true
	}
	var visit func(p *types.Package)
	visit = func(p *types.Package) {
		if seen[p] {
			return
		}
		seen[p] = true
		for _, q := range p.Imports() {
			visit(q)
		}
		if isRepoPkg(p.Path()) || want[p.Path()] {
			if sp := x.prog.Package(p); sp != nil {
				order = append(order, sp)
			}
		}
	}
	for _, p := range x.prog.AllPackages() {
		if isRepoPkg(p.Pkg.Path()) {
			visit(p.Pkg)
		}
	}
	for _, sp := range order {
		for _, m := range sp.Members {
			if g, ok := m.(*ssa.Global); ok {
				id := x.globalObj(g)
				t := g.Type().(*types.Pointer).Elem()
				func() {
					defer func() {
						if r := recover(); r != nil {
							if _, ok := r.(engineLimit); !ok {
								panic(r)
							}
						}
					}()
					st.setObj(id, &Obj{own: st.own, c: x.zeroCells(t), t: t})
				}()
			}
		}
	}
	// errors of the standard library: distinct values
	for _, n := range [][2]string{{"os", "ErrClosed"}, {"os", "ErrExist"}, {"os", "ErrNotExist"}, {"io", "EOF"}, {"io", "ErrShortWrite"}, {"io", "ErrClosedPipe"}} {
		if p := x.P.pkgs[n[0]]; p != nil && x.P.errType != nil {
			if g := p.Var(n[1]); g != nil {
				t := g.Type().(*types.Pointer).Elem()
				e := &Iface{x.P.errType, Ptr{x.newObj(st, []V{concStr(n[0] + "." + n[1])}, nil), 0}}
				st.setObj(x.globalObj(g), &Obj{own: st.own, c: []V{e}, t: t})
			}
		}
	}
	for _, sp := range order {
		fn := sp.Func("init")
		if fn == nil {
			continue
		}
		x.inInit = true
		n := len(x.initErrs)
		x.runInit(fn, st)
		x.inInit = false
		if len(x.initErrs) > n {
			for _, m := range sp.Members {
				if g, ok := m.(*ssa.Global); ok {
					st.setObj(x.globalObj(g), nil)
				}
			}
			if os.Getenv("QDBG") != "" {
				fmt.Println("INIT", x.initErrs[n:])
			}
		}
	}
	x.base = st
	x.baseObj = x.nextObj
}

// runInit executes an initialiser; statements outside the engine's reach leave
// the variable unknown (loading it later is an engine limit).
func (x *X) runInit(fn *ssa.Function, st *State) {
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(engineLimit); ok {
				x.initErrs = append(x.initErrs, fn.String()+": "+e.msg)
				return
			}
			panic(r)
		}
	}()
	outs := x.callFn(fn, nil, nil, st)
	if len(outs) != 1 || outs[0].pan != nil {
		x.initErrs = append(x.initErrs, fmt.Sprintf("%s: %d outcomes", fn, len(outs)))
		return
	}
	*st = *outs[0].st
}

func overlayFor(repo, srcDir string, sub map[string]string) (map[string][]byte, error) {
	ov := map[string][]byte{}
	for name, pkg := range sub {
		b, err := os.ReadFile(filepath.Join(srcDir, name))
		if err != nil {
			return nil, err
		}
		ov[filepath.Join(repo, pkg, "zz_verif_"+strings.TrimSuffix(name, ".txt"))] = b
	}
	return ov, nil
}
