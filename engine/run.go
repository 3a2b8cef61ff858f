package main

import (
	"fmt"
	"go/types"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Theorem: a specification function run over a set of concrete cases.
type Theorem struct {
	Fn    string   // function in the overlay
	Pkg   string   // package path
	Redir []string // contract summaries used: "target=summary"
	Cases [][]int64
	Known map[string]string // obligations of the list of known findings
}

type CaseRes struct {
	key   string
	limit string
	fails int
	dur   time.Duration
	steps int64
}

type RunRes struct {
	Obls    map[string]*Obl
	Limits  map[string][]string // message -> cases
	Cases   int
	Done    int
	Steps   int64
	Smt     SmtStats
	FnUsed  map[string]int64
	SumUsed map[string]int
	Assumes map[string]bool
	Bounded map[string]bool
	Unbound []string
	Wall    time.Duration
}

func newRunRes() *RunRes {
	return &RunRes{Obls: map[string]*Obl{}, Limits: map[string][]string{}, FnUsed: map[string]int64{}, SumUsed: map[string]int{}, Assumes: map[string]bool{}, Bounded: map[string]bool{}}
}

// findFunc resolves "pkg.Func", "(*pkg.T).M" names in the program.
func (P *Program) findFunc(name string) *ssa.Function {
	if strings.HasPrefix(name, "(") {
		end := strings.Index(name, ")")
		tn := strings.TrimPrefix(name[1:end], "*")
		meth := name[end+2:]
		dot := strings.LastIndex(tn, ".")
		pkg := P.pkgs[tn[:dot]]
		if pkg == nil {
			return nil
		}
		t := pkg.Type(tn[dot+1:])
		if t == nil {
			return nil
		}
		ms := P.prog.MethodSets.MethodSet(types.NewPointer(t.Type()))
		for i := 0; i < ms.Len(); i++ {
			if ms.At(i).Obj().Name() == meth {
				fn := P.prog.MethodValue(ms.At(i))
				if f := P.prog.FuncValue(ms.At(i).Obj().(*types.Func)); f != nil {
					return f
				}
				return fn
			}
		}
		return nil
	}
	dot := strings.LastIndex(name, ".")
	pkg := P.pkgs[name[:dot]]
	if pkg == nil {
		return nil
	}
	return pkg.Func(name[dot+1:])
}

func (x *X) runCase(th *Theorem, fn *ssa.Function, c []int64) (res CaseRes) {
	t0 := time.Now()
	s0 := x.steps
	res.key = fmt.Sprintf("%s%v", th.Fn, c)
	x.curCase = res.key
	x.nextObj = x.baseObj
	x.inv = map[int32]*Node{}
	x.races = nil
	x.anyOrder = false
	x.gorDepth = 0
	x.caseUnknown = 0
	x.roughOK = false
	x.depth = 0
	f0 := x.nfail
	defer func() {
		if r := recover(); r != nil {
			switch e := r.(type) {
			case engineLimit:
				res.limit = e.msg
			case goPanic:
				x.obl("no panic").Fails = append(x.obl("no panic").Fails, &Fail{Case: res.key, Name: "no panic", Note: e.msg})
				x.obl("no panic").Failed++
				x.nfail++
			default:
				if dbgPanics {
					panic(r)
				}
				res.limit = fmt.Sprintf("internal error: %v\n%s", r, shortStack())
			}
		}
		res.fails = x.nfail - f0
		res.dur = time.Since(t0)
		res.steps = x.steps - s0
	}()
	st := x.fork(x.base)
	args := make([]V, len(c))
	for i, v := range c {
		args[i] = x.m.Int(v)
	}
	outs := x.callFn(fn, args, nil, st)
	o := x.obl("no panic")
	bad := false
	for _, r := range outs {
		if r.pan != nil {
			bad = true
			res2, md := "sat", Model(nil)
			if x.hasTheory(r.st.pc) || len(x.inv) > 0 {
				res2, md = x.smtCheck(r.st, r.st.pc, true)
			} else {
				md = x.bddModel(r.st.pc)
			}
			if res2 == "unsat" {
				continue
			}
			x.nfail++
			if res2 != "sat" {
				x.nopen++
			}
			o.Failed++
			o.Fails = append(o.Fails, &Fail{Case: res.key, Name: "no panic", At: -1, Model: md, Note: r.msg, Open: res2 != "sat"})
			if len(o.Fails) > 5 {
				o.Fails = o.Fails[:5]
			}
		}
	}
	if !bad {
		o.N++
	}
	return
}

var dbgPanics bool

func shortStack() string {
	ls := strings.Split(string(debug.Stack()), "\n")
	var out []string
	for _, l := range ls {
		if strings.Contains(l, "/engine/") {
			out = append(out, strings.TrimSpace(l))
		}
		if len(out) > 8 {
			break
		}
	}
	return strings.Join(out, " | ")
}

// failGrace: how long a theorem goes on after the first refuted obligation.
const failGrace = 30 * time.Second

// runTheorem discharges a theorem on all its cases with nw workers.
func runTheorem(P *Program, th *Theorem, nw int, verbose bool, deadline time.Time) *RunRes {
	R := newRunRes()
	t0 := time.Now()
	fn := P.pkgs[th.Pkg].Func(th.Fn)
	if fn == nil {
		R.Unbound = append(R.Unbound, th.Fn)
		return R
	}
	redir := map[*ssa.Function]*ssa.Function{}
	for _, r := range th.Redir {
		r, opt := strings.CutPrefix(r, "?") // optional: the code may do without the function
		p := strings.SplitN(r, "=", 2)
		f, g := P.findFunc(p[0]), P.pkgs[th.Pkg].Func(p[1])
		if f == nil && g != nil && opt {
			continue
		}
		if f == nil || g == nil || f.TypeParams().Len() == 0 && !sameShape(f, g) {
			R.Unbound = append(R.Unbound, r)
			continue
		}
		redir[f] = g
	}
	R.Cases = len(th.Cases)
	ch := make(chan []int64)
	var stopAt atomic.Int64
	var wg sync.WaitGroup
	var mu sync.Mutex
	for w := 0; w < nw; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			var x *X
			flush := func() {
				if x == nil {
					return
				}
				mu.Lock()
				R.absorb(x)
				mu.Unlock()
				x.smtStop()
				x = nil
			}
			for c := range ch {
				if x != nil && x.m.count > 4_000_000 {
					flush()
				}
				if x == nil {
					x = newX(P, redir)
					x.deadline = deadline
					x.stopAt = &stopAt
					x.known = th.Known
				}
				r := x.runCase(th, fn, c)
				mu.Lock()
				R.Done++
				R.Steps += r.steps
				if r.limit != "" {
					R.Limits[r.limit] = append(R.Limits[r.limit], r.key)
				}
				if verbose {
					fmt.Printf("  %-24s %8.2fs %10d steps, %d failures, nodes %d %s\n", r.key, r.dur.Seconds(), r.steps, r.fails, x.m.count, r.limit)
				}
				mu.Unlock()
				if r.limit != "" || r.fails > 0 {
					flush() // a fresh machine after an aborted case
				}
			}
			flush()
		}()
	}
	for _, c := range th.Cases {
		if !deadline.IsZero() && time.Now().After(deadline) {
			break
		}
		if t := stopAt.Load(); t != 0 && time.Now().UnixNano() > t {
			break
		}
		ch <- c
	}
	close(ch)
	wg.Wait()
	R.Wall = time.Since(t0)
	return R
}

func (R *RunRes) absorb(x *X) {
	for k, o := range x.obls {
		p := R.Obls[k]
		if p == nil {
			p = &Obl{Name: k}
			R.Obls[k] = p
		}
		p.N += o.N
		p.Smt += o.Smt
		p.Fails = append(p.Fails, o.Fails...)
		p.Failed += o.Failed
	}
	R.Smt.queries += x.smtStats.queries
	R.Smt.dl += x.smtStats.dl
	R.Smt.sat += x.smtStats.sat
	R.Smt.unsat += x.smtStats.unsat
	R.Smt.unknown += x.smtStats.unknown
	R.Smt.time += x.smtStats.time
	for f, n := range x.fnUsed {
		R.FnUsed[f.String()] += n
	}
	for f, n := range x.sumUsed {
		R.SumUsed[f] += n
	}
	for a := range x.bounded {
		R.Bounded[a] = true
	}
	for a := range x.assumes {
		R.Assumes[a] = true
	}
}

func (R *RunRes) names() []string {
	var r []string
	for k := range R.Obls {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

// sameShape: a contract summary takes the parameters (and receiver) of its target.
func sameShape(f, g *ssa.Function) bool {
	if len(f.Params) != len(g.Params) || f.Signature.Results().Len() != g.Signature.Results().Len() {
		return false
	}
	for i := range f.Params {
		if !types.Identical(f.Params[i].Type(), g.Params[i].Type()) {
			return false
		}
	}
	for i := 0; i < f.Signature.Results().Len(); i++ {
		if !types.Identical(f.Signature.Results().At(i).Type(), g.Signature.Results().At(i).Type()) {
			return false
		}
	}
	return true
}

func (x *X) tick() {
	now := time.Now()
	if !x.deadline.IsZero() && now.After(x.deadline) {
		panic(engineLimit{"time limit"})
	}
	if x.stopAt != nil {
		if x.nfail > x.nopen {
			x.stopAt.CompareAndSwap(0, now.Add(failGrace).UnixNano())
		}
		if t := x.stopAt.Load(); t != 0 && now.UnixNano() > t {
			panic(engineLimit{"stopped after the first refuted obligations"})
		}
	}
}
