package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"strconv"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

// X is one verifier machine (one decision-diagram manager, one program image).
type X struct {
	m           *M
	prog        *ssa.Program
	P           *Program
	fis         map[*ssa.Function]*FI
	tinfos      map[types.Type]*tinfo
	globals     map[*ssa.Global]int32
	globalOf    map[int32]*ssa.Global
	nextGlobal  int32
	nextObj     int32
	baseObj     int32
	own         int32
	base        *State
	emptyStr    *Str
	nilSlice    *Slice
	nilIface    *Iface
	nilFunc     *Clo
	emptyRope   *Rope
	opaques     map[string]*Rope
	ropes       map[ropeKey]*Rope
	ropeN       int
	steps       int64
	maxSteps    int64
	deadline    time.Time
	stopAt      *atomic.Int64
	known       map[string]string
	caseUnknown int
	nopen       int // failures that are undecided
	depth       int
	inv         map[int32]*Node                 // variable -> type invariant of its group
	redir       map[*ssa.Function]*ssa.Function // callee -> contract summary
	noRedir     *ssa.Function
	gorDepth    int
	anyOrder    bool // concurrent channel values arrive in any order
	nodeMux     map[uint32]*Mux
	fiCache     map[*ssa.Function]*fnInfo
	sumUsed     map[string]int
	fnUsed      map[*ssa.Function]int64
	obls        map[string]*Obl
	nfail       int
	smt         *smtProc
	smtStats    SmtStats
	inInit      bool
	initErrs    []string
	fresh       int
	extInit     map[string]bool
	trace       bool
	texts       map[string]*Text
	curCase     string
	assumes     map[string]bool
	covered     map[string]bool
	smtCache    map[uint64]bool
	races       []string
	textAtom    map[*Atom]bool
	thModels    []map[*Atom]int64 // integer assignments found so far
	wantAtoms   bool
	roughOK     bool
	gotAtoms    map[*Atom]int64
	noCtl       bool
	bounded     map[string]bool // bounded explorations standing in for proofs
	dbgPos      ssa.Instruction
	overlap     *Node // non-deterministic states being merged: both sides possible
}

type Out struct {
	st  *State
	ret V
	pan V // non-nil: panic value
	msg string
}

type deferEnt struct {
	prev *deferEnt
	fn   V
	args []V
	in   *Ins
}

type item struct {
	b   *BI
	ip  int
	env []V
	st  *State
	def *deferEnt
	its int
}

type frame struct {
	fi   *FI
	base int
	outs []Out
	pend pendQ
	rets []retItem
	cur  *item
	// sub-run that ends when the receive stopAt finds the channel stopObj empty
	stopAt  *Ins
	stopObj int32
	stopped []*item
	texts   map[*Ins]*textSnap
}

// pendQ: pending items by rank of their block
type pendQ []pendE

type pendE struct {
	r int
	l []*item
}

func (q *pendQ) at(r int) *[]*item {
	for i := range *q {
		if (*q)[i].r == r {
			return &(*q)[i].l
		}
	}
	*q = append(*q, pendE{r: r})
	return &(*q)[len(*q)-1].l
}

type retItem struct {
	st  *State
	ret V
}

type splitReq struct{ mx *Mux }

func posOf(in ssa.Instruction) string {
	if in == nil || in.Parent() == nil {
		return "?"
	}
	p := in.Parent().Prog.Fset.Position(in.Pos())
	return fmt.Sprintf("%s:%d", p.Filename, p.Line)
}

func (x *X) limit(format string, a ...interface{}) {
	panic(engineLimit{fmt.Sprintf(format, a...)})
}

// callFn runs a function body symbolically and returns its outcomes.
func (x *X) callFn(fn *ssa.Function, args []V, binds []V, st *State) []Out {
	if fn.Blocks == nil {
		x.limit("no body: %s", fn)
	}
	x.depth++
	if x.depth > 200 {
		x.depth = 0
		x.limit("call depth exceeded in %s", fn)
	}
	defer func() { x.depth-- }()
	fi := x.compile(fn)
	x.fnUsed[fn]++
	fr := &frame{fi: fi, base: len(st.stk)}
	env := make([]V, fi.nslot)
	if len(args) != len(fi.params) {
		x.limit("argument count mismatch calling %s", fn)
	}
	for i, p := range fi.params {
		env[p] = args[i]
	}
	for i, p := range fi.free {
		env[p] = binds[i]
	}
	for i := 0; i < fi.nalloc; i++ {
		st.stk = append(st.stk, nil)
	}
	it := &item{b: &fi.bs[0], env: env, st: st}
	for it != nil {
		x.runItem(fr, it)
		it = x.nextItem(fr)
	}
	// outcomes
	for _, r := range fr.rets {
		r.st.stk = r.st.stk[:fr.base]
		fr.outs = append(fr.outs, Out{st: r.st, ret: r.ret})
	}
	return fr.outs
}

func (x *X) nextItem(fr *frame) *item {
	// innermost first: a loop head waits until the bodies of the running
	// iteration have all come back to it
	best := -1
	lo := -1
	for {
		best = -1
		for i := range fr.pend {
			e := &fr.pend[i]
			if len(e.l) > 0 && e.r > lo && (best < 0 || e.r < best) {
				best = e.r
			}
		}
		if best < 0 {
			best = lo
			break
		}
		h := (*fr.pend.at(best))[0].b
		if !h.head {
			break
		}
		inside := false
		for i := range fr.pend {
			e := &fr.pend[i]
			if len(e.l) > 0 && e.r > best && e.r <= h.compEnd {
				inside = true
			}
		}
		if !inside {
			break
		}
		lo = best
	}
	if best < 0 {
		return nil
	}
	lp := fr.pend.at(best)
	l := *lp
	bi := 0
	if len(l) > 1 && l[0].b.head {
		for i := 1; i < len(l); i++ {
			if lessCtl(l[i], l[bi]) {
				bi = i
			}
		}
	}
	it := l[bi]
	l[bi] = l[len(l)-1]
	l[len(l)-1] = nil
	*lp = l[:len(l)-1]
	return it
}

func lessCtl(a, b *item) bool {
	for _, i := range a.b.ctl {
		d := a.b.phis[i].dst
		p, ok1 := a.env[d].(*Node)
		q, ok2 := b.env[d].(*Node)
		if ok1 && ok2 && p != q && p.isConst() && q.isConst() {
			return p.leaf.c < q.leaf.c
		}
	}
	return a.its < b.its
}

// enter moves an item along a control-flow edge, joining it with a pending item.
func (x *X) enter(fr *frame, it *item, from, to *ssa.BasicBlock, edge int) {
	B := &fr.fi.bs[to.Index]
	if len(B.phis) > 0 {
		pi := -1
		cnt := 0
		for i, p := range to.Preds {
			if p == from {
				if cnt == edge || pi < 0 {
					pi = i
				}
				cnt++
			}
		}
		var tmp [8]V
		vals := tmp[:0]
		for i := range B.phis {
			vals = append(vals, x.val(fr.fi, it, B.phis[i].src[pi]))
		}
		for i := range B.phis {
			it.env[B.phis[i].dst] = vals[i]
		}
	}
	it.b = B
	it.ip = 0
	lp := fr.pend.at(B.rank)
	l := *lp
	for i, o := range l {
		if m := x.joinItems(fr, o, it); m != nil {
			l[i] = m
			return
		}
	}
	*lp = append(l, it)
}

func (x *X) joinItems(fr *frame, a, b *item) *item {
	if a.b != b.b || a.def != b.def {
		return nil
	}
	B := a.b
	if B.head && !x.noCtl {
		for i := range B.phis {
			ph := &B.phis[i]
			if !ph.ctl {
				continue
			}
			p, ok1 := a.env[ph.dst].(*Node)
			q, ok2 := b.env[ph.dst].(*Node)
			if ok1 && ok2 && p != q && p.isLeaf() && q.isLeaf() {
				return nil
			}
		}
	}
	g := x.mergeGuard(a.st, b.st)
	defer func() { x.overlap, x.m.care = nil, nil }()
	if g == nil {
		return nil
	}
	env := make([]V, len(a.env))
	for _, s := range B.live {
		va, vb := a.env[s], b.env[s]
		if sameV(va, vb) {
			env[s] = va
			continue
		}
		v, ok := x.mergeV(g, va, vb, fr.fi.accSlot[s])
		if !ok {
			return nil
		}
		env[s] = v
	}
	// phi results are defined on entry even when not in the live set
	st := x.mergeStates(a.st, b.st, g)
	if st == nil {
		return nil
	}
	for i := range B.phis {
		d := B.phis[i].dst
		if env[d] == nil {
			if v, ok := x.mergeV(g, a.env[d], b.env[d], B.phis[i].acc); ok {
				env[d] = v
			}
		}
	}
	st.pc = x.simpPC(st.pc)
	its := a.its
	if b.its > its {
		its = b.its
	}
	return &item{b: B, env: env, st: st, def: a.def, its: its}
}

// mergeGuard: condition under which the merged state is a (else b).
func (x *X) mergeGuard(a, b *State) *Node {
	if a.nd != b.nd || a.tr != b.tr || !bndEq(a, b) {
		return nil
	}
	x.overlap = nil
	if x.anyOrder {
		// states of different schedules may describe the same inputs: they are
		// merged only where their values provably agree (see mergeV)
		if o := x.m.And(a.pc, b.pc); o != x.m.F && x.smtSat(a, o) {
			x.overlap = o
		}
	}
	u := x.m.Or(a.pc, b.pc)
	x.m.care = u
	if u == x.m.T {
		return a.pc
	}
	return x.m.Restrict(a.pc, u)
}

// agree: a and b are equal whenever the overlap condition holds.
func (x *X) agree(a, b V) (ok bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, lim := r.(engineLimit); !lim {
				panic(r)
			}
			ok = false
		}
	}()
	if a == nil || b == nil {
		return true
	}
	bad := x.m.AndNot(x.overlap, x.refEq(nil, a, b))
	if bad == x.m.F {
		return true
	}
	if !x.hasTheory(bad) {
		return false
	}
	res, _ := x.smtCheck(nil, bad, false)
	return res == "unsat"
}

func (x *X) val(fi *FI, it *item, o int32) V {
	if o >= 0 {
		return it.env[o]
	}
	return fi.consts[-o-1]
}

// invOf: conjunction of the type invariants of n's variables.
func (x *X) invOf(n *Node) *Node {
	r := x.m.T
	if len(x.inv) == 0 {
		return r
	}
	for _, v := range x.m.Support(n) {
		if c, ok := x.inv[v]; ok {
			r = x.m.And(r, c)
		}
	}
	return r
}

func (x *X) simpPC(pc *Node) *Node {
	if pc.isLeaf() || len(x.inv) == 0 {
		return pc
	}
	c := x.invOf(pc)
	if c == x.m.T {
		return pc
	}
	if x.m.And(pc, c) == x.m.F {
		return x.m.F
	}
	return x.m.Restrict(pc, c)
}

// simp simplifies a condition under the state's interval facts and type invariants.
func (x *X) simp(st *State, n *Node) *Node {
	if n.isLeaf() {
		return n
	}
	sup := x.m.Support(n)
	inv := x.m.T
	for _, v := range sup {
		if c, ok := x.inv[v]; ok {
			inv = x.m.And(inv, c)
		}
		vi := &x.m.vars[v]
		if st.bnd != nil && vi.isBit() {
			if l := x.pinned(st, vi.args[0]); l != vi.args[0] {
				i, _ := strconv.Atoi(vi.name[3:])
				if b := x.m.linBit(x.m.leafLin(l), i); b == x.m.T {
					n = x.m.Restrict(n, vi.node)
				} else if b == x.m.F {
					n = x.m.Restrict(n, x.m.Not(vi.node))
				}
			}
		}
		if vi.kind == vkCmp && st.bnd != nil {
			lo, hi := linBounds(vi.lin, func(a *Atom) (int64, int64) {
				return st.bound(a)
			})
			if hi <= 0 {
				n = x.m.Restrict(n, vi.node)
			} else if lo > 0 {
				n = x.m.Restrict(n, x.m.Not(vi.node))
			}
		}
	}
	if inv != x.m.T {
		if x.m.And(n, inv) == x.m.F {
			return x.m.F
		}
		n = x.m.Restrict(n, inv)
	}
	return n
}

// splitVar finds a comparison on a case-split atom the state does not decide.
func (x *X) splitVar(st *State, n *Node) *VarInfo {
	if n.isLeaf() {
		return nil
	}
	for _, v := range x.m.Support(n) {
		vi := &x.m.vars[v]
		if vi.kind == vkCmp && len(vi.lin.ts) == 1 && vi.lin.ts[0].a.split {
			lo, hi := linBounds(vi.lin, st.bound)
			if lo <= 0 && hi > 0 {
				return vi
			}
		}
	}
	return nil
}

// boundSplit returns the two states deciding vi (first: lin<=0).
func (x *X) boundSplit(st *State, vi *VarInfo) (*State, *State) {
	t := vi.lin.ts[0]
	lo, hi := st.bound(t.a)
	a := x.fork(st)
	b := x.fork(st)
	prev := st.bnd
	for prev != nil && prev.a == t.a {
		prev = prev.prev
	}
	if t.k > 0 {
		q := floorDiv(-vi.lin.c, t.k)
		a.bnd = &bndEnt{prev, t.a, lo, q}
		b.bnd = &bndEnt{prev, t.a, q + 1, hi}
	} else {
		// c - k'a <= 0  <=>  a >= ceil(c/k')
		q := -floorDiv(-vi.lin.c, -t.k)
		a.bnd = &bndEnt{prev, t.a, q, hi}
		b.bnd = &bndEnt{prev, t.a, lo, q - 1}
	}
	return a, b
}

// pinned replaces case-split atoms fixed by the state's intervals.
func (x *X) pinned(st *State, n *Node) *Node {
	if st.bnd == nil || n.isConst() {
		return n
	}
	if n.isLeaf() && n.leaf.kind == lkLin {
		l := n.leaf.lin
		for _, t := range l.ts {
			if lo, hi := st.bound(t.a); lo == hi {
				l = x.m.linComb(l, 1, x.m.mkLin(lo, nil), t.k)
				l = x.m.linComb(l, 1, x.m.mkLin(0, []LT{{t.a, 1}}), -t.k)
			}
		}
		return x.m.linNode(l)
	}
	return n
}

func (x *X) panicOut(fr *frame, it *item, v V, msg string) {
	if it.st.pc == x.m.F {
		return
	}
	outs := []Out{{st: it.st, pan: v, msg: msg}}
	for d := it.def; d != nil; d = d.prev {
		var nx []Out
		for _, o := range outs {
			o.st.pan = &panInfo{v: o.pan, msg: o.msg, active: o.pan != nil}
			for _, r := range x.callDeferred(d, o.st) {
				if r.pan == nil {
					if r.st.pan != nil && !r.st.pan.active {
						r.pan, r.msg = nil, ""
					} else {
						r.pan, r.msg = o.pan, o.msg
					}
				}
				r.st.pan = nil
				nx = append(nx, r)
			}
		}
		outs = nx
	}
	for _, o := range outs {
		if o.pan == nil && it.def != nil {
			// recovered: return the named results through the recover block
			rb := fr.fi.fn.Recover
			if rb == nil {
				o.st.stk = o.st.stk[:fr.base]
				fr.outs = append(fr.outs, Out{st: o.st, ret: x.zeroResults(fr.fi.fn)})
				continue
			}
			lp := fr.pend.at(1 << 29)
			*lp = append(*lp, &item{b: &fr.fi.bs[rb.Index], env: append([]V(nil), it.env...), st: o.st})
			continue
		}
		o.st.stk = o.st.stk[:fr.base]
		fr.outs = append(fr.outs, o)
	}
}

func (x *X) zeroResults(fn *ssa.Function) V {
	r := fn.Signature.Results()
	switch r.Len() {
	case 0:
		return nil
	case 1:
		return x.zero(r.At(0).Type())
	}
	return x.zero(r)
}

func (x *X) callDeferred(d *deferEnt, st *State) []Out {
	return x.callAny(d.fn, d.args, st, d.in)
}

// runItem executes from it until every continuation is pending or finished.
func (x *X) runItem(fr *frame, it *item) {
	work := []*item{it}
	for len(work) > 0 {
		it := work[len(work)-1]
		work = work[:len(work)-1]
		more := x.runSafe(fr, it)
		work = append(work, more...)
	}
}

func (x *X) runSafe(fr *frame, it0 *item) (more []*item) {
	fr.cur = it0
	defer func() {
		if r := recover(); r != nil {
			it := fr.cur
			switch e := r.(type) {
			case reSplit:
				a, b := x.boundSplit(it.st, e.vi)
				more = append(more,
					&item{b: it.b, ip: it.ip, env: append([]V(nil), it.env...), st: b, def: it.def, its: it.its},
					&item{b: it.b, ip: it.ip, env: append([]V(nil), it.env...), st: a, def: it.def, its: it.its})
			case splitReq:
				for i, v := range e.mx.v {
					_ = v
					g := x.m.And(it.st.pc, e.mx.g[i])
					if g == x.m.F || x.simpPC(g) == x.m.F {
						continue
					}
					st := x.fork(it.st)
					st.pc = g
					st.res = &resEnt{it.st.res, e.mx, i}
					more = append(more, &item{b: it.b, ip: it.ip, env: append([]V(nil), it.env...), st: st, def: it.def, its: it.its})
				}
			case goPanic:
				in := it.b.ins[it.ip].in
				x.panicOut(fr, it, &Iface{types.Typ[types.String], concStr(e.msg)}, e.msg+" at "+posOf(in))
			case engineLimit:
				panic(e)
			default:
				panic(r)
			}
		}
	}()
	return x.run(fr, it0)
}

// force resolves merged references by case split.
func (x *X) force(st *State, v V) V {
	mx, ok := v.(*Mux)
	if !ok {
		return v
	}
	for e := st.res; e != nil; e = e.prev {
		if e.mux == mx {
			return mx.v[e.alt]
		}
	}
	panic(splitReq{mx})
}

// forceInt resolves an integer to a constant by case split.
func (x *X) forceInt(st *State, v V, k types.BasicKind) int64 {
	n := x.nodeOf(v, k)
	if n.isConst() {
		return n.leaf.c
	}
	n = x.pinned(st, n)
	if n.isConst() {
		return n.leaf.c
	}
	if n.isLeaf() {
		x.limit("symbolic integer %s where a constant is needed", x.m.str(n, 2))
	}
	mx := x.muxOf(n)
	for e := st.res; e != nil; e = e.prev {
		if e.mux == mx {
			l := mx.v[e.alt].(*Node)
			if !l.isConst() {
				l = x.pinned(st, l)
			}
			if !l.isConst() {
				x.limit("symbolic integer %s where a constant is needed", x.m.str(l, 2))
			}
			return l.leaf.c
		}
	}
	panic(splitReq{mx})
}

func (x *X) muxOf(n *Node) *Mux {
	if mx, ok := x.nodeMux[n.id]; ok {
		return mx
	}
	ls := x.m.Leaves(n)
	if len(ls) > 300 {
		x.limit("case split on %d values", len(ls))
	}
	mx := &Mux{}
	for _, l := range ls {
		mx.g = append(mx.g, x.m.When(n, l))
		mx.v = append(mx.v, l)
	}
	x.nodeMux[n.id] = mx
	return mx
}

func (x *X) nodeOf(v V, k types.BasicKind) *Node { return x.m.nodeOf(v, k) }

// guard splits off a panicking path; it keeps it.st on the surviving path.
// It reports false when the whole path panics.
func (x *X) guard(fr *frame, it *item, bad *Node, msg string) bool {
	bad = x.simp(it.st, bad)
	if bad == x.m.F {
		return true
	}
	if vi := x.splitVar(it.st, bad); vi != nil {
		panic(reSplit{vi})
	}
	c := x.m.And(it.st.pc, bad)
	if c == x.m.F || x.simpPC(c) == x.m.F {
		return true
	}
	ok := x.m.AndNot(it.st.pc, bad)
	if !c.isConst() && !x.smtSat(it.st, c) {
		it.st.pc = ok
		return true
	}
	in := it.b.ins[it.ip].in
	ps := x.fork(it.st)
	ps.pc = c
	x.panicOut(fr, &item{b: it.b, ip: it.ip, env: append([]V(nil), it.env...), st: ps, def: it.def}, &Iface{types.Typ[types.String], concStr(msg)}, msg+" at "+posOf(in))
	it.st.pc = ok
	return ok != x.m.F
}

func (x *X) run(fr *frame, it *item) []*item {
	fi := fr.fi
	for {
		fr.cur = it
		B := it.b
		for it.ip < len(B.ins) {
			I := &B.ins[it.ip]
			x.steps++
			if x.steps&0xfff == 0 {
				x.tick()
			}
			if x.steps > x.maxSteps {
				x.limit("instruction budget exceeded")
			}
			switch in := I.in.(type) {
			case *ssa.Alloc:
				cells := x.zeroCells(I.t)
				if in.Heap {
					it.env[I.dst] = Ptr{x.newObj(it.st, cells, I.t), 0}
				} else {
					idx := fr.base + int(I.off)
					it.st.stk[idx] = &Obj{own: it.st.own, c: cells, t: I.t}
					it.env[I.dst] = Ptr{int32(-idx - 1), 0}
				}
			case *ssa.BinOp:
				a, b := x.val(fi, it, I.a), x.val(fi, it, I.b)
				if !x.binop(fr, it, I, a, b) {
					return nil
				}
			case *ssa.UnOp:
				a := x.val(fi, it, I.a)
				switch I.tok {
				case token.MUL:
					it.env[I.dst] = x.load(it.st, a, I.t)
				case token.NOT:
					it.env[I.dst] = x.m.Not(a.(*Node))
				case token.SUB:
					if isFloat(I.k) {
						n := x.nodeOf(a, I.k)
						it.env[I.dst] = x.m.map1(x.m.opID("fneg"), n, func(l *Node) *Node {
							if l.leaf.kind == lkFloat {
								return x.m.Float(-l.leaf.f)
							}
							return x.m.TermNode("fneg", l)
						})
					} else if bv, ok := a.(*BV); ok {
						z := &BV{make([]*Node, len(bv.b))}
						for i := range z.b {
							z.b[i] = x.m.F
						}
						it.env[I.dst] = x.m.bvOp(token.SUB, I.k, z, bv)
					} else {
						it.env[I.dst] = x.m.Op2(token.SUB, I.k, x.m.F, x.nodeOf(a, I.k))
					}
				case token.XOR:
					ones := x.m.Int(wrapC(I.k, -1))
					if bv, ok := a.(*BV); ok {
						it.env[I.dst] = x.m.bvOp(token.XOR, I.k, bv, ones)
					} else {
						it.env[I.dst] = x.m.Op2(token.XOR, I.k, x.nodeOf(a, I.k), ones)
					}
				case token.ARROW:
					items := x.recv(fr, it, I, x.force(it.st, a))
					if items != nil {
						return items
					}
				default:
					x.limit("unary operator %s", I.tok)
				}
			case *ssa.Call:
				conts, done := x.callIns(fr, it, I, &in.Call)
				if !done {
					return conts
				}
			case *ssa.Go:
				conts := x.goIns(fr, it, I, &in.Call)
				if conts != nil {
					return conts
				}
			case *ssa.Defer:
				f, args := x.calleeOf(it, fi, I, &in.Call)
				it.def = &deferEnt{it.def, f, args, I}
			case *ssa.RunDefers:
				if it.def != nil {
					sts := []*State{it.st}
					for d := it.def; d != nil; d = d.prev {
						var nx []*State
						for _, s := range sts {
							for _, o := range x.callDeferred(d, s) {
								if o.pan != nil {
									x.panicOut(fr, &item{b: it.b, ip: it.ip, env: it.env, st: o.st, def: d.prev}, o.pan, o.msg)
									continue
								}
								nx = append(nx, o.st)
							}
						}
						sts = nx
					}
					it.def = nil
					if len(sts) == 1 {
						it.st = sts[0]
						break
					}
					var conts []*item
					for _, s := range sts {
						conts = append(conts, &item{b: it.b, ip: it.ip + 1, env: append([]V(nil), it.env...), st: s, its: it.its})
					}
					return conts
				}
			case *ssa.ChangeInterface, *ssa.ChangeType:
				it.env[I.dst] = x.val(fi, it, I.a)
			case *ssa.Convert:
				it.env[I.dst] = x.convert(it.st, x.val(fi, it, I.a), in.X.Type(), in.Type(), I)
			case *ssa.MultiConvert:
				it.env[I.dst] = x.convert(it.st, x.val(fi, it, I.a), in.X.Type(), in.Type(), I)
			case *ssa.Extract:
				v := x.val(fi, it, I.a)
				if mx, ok := v.(*Mux); ok {
					v = x.force(it.st, mx)
				}
				it.env[I.dst] = v.(Tuple)[I.n]
			case *ssa.Field:
				a, ok := x.force(it.st, x.val(fi, it, I.a)).(*Agg)
				if !ok {
					x.limit("field of an opaque value")
				}
				if I.agg {
					it.env[I.dst] = &Agg{a.c[I.off : int(I.off)+I.n : int(I.off)+I.n]}
				} else {
					it.env[I.dst] = a.c[I.off]
				}
			case *ssa.FieldAddr:
				it.env[I.dst] = x.fieldAddr(it.st, x.val(fi, it, I.a), I.off)
			case *ssa.If:
				cv := x.val(fi, it, I.a)
				c, okc := cv.(*Node)
				if !okc {
					x.limit("branch on %T", cv)
				}
				from := B.b
				if !c.isConst() {
					c = x.simp(it.st, c)
				}
				if c.isConst() {
					e := 0
					if c == x.m.F {
						e = 1
					}
					if it = x.goTo(fr, it, from, e); it == nil {
						return nil
					}
					goto nextBlock
				}
				if vi := x.splitVar(it.st, c); vi != nil {
					panic(reSplit{vi})
				}
				x.dbgPos = in
				t, f := x.branch(it.st, c)
				if t == nil && f == nil {
					return nil
				}
				if t == nil || f == nil {
					e := 0
					it.st = t
					if t == nil {
						e = 1
						it.st = f
					}
					if it = x.goTo(fr, it, from, e); it == nil {
						return nil
					}
					goto nextBlock
				}
				i2 := &item{env: append([]V(nil), it.env...), st: f, def: it.def, its: it.its}
				it.st = t
				x.enter(fr, it, from, from.Succs[0], 0)
				x.enter(fr, i2, from, from.Succs[1], edgeNo(from, 1))
				return nil
			case *ssa.Jump:
				if it = x.goTo(fr, it, B.b, 0); it == nil {
					return nil
				}
				goto nextBlock
			case *ssa.Index:
				if !x.indexVal(fr, it, I, in) {
					return nil
				}
			case *ssa.IndexAddr:
				if !x.indexAddr(fr, it, I) {
					return nil
				}
			case *ssa.Lookup:
				if !x.lookup(fr, it, I, in) {
					return nil
				}
			case *ssa.MakeChan:
				n := x.forceInt(it.st, x.val(fi, it, I.a), types.Int)
				id := x.newObj(it.st, nil, nil)
				it.st.wobj(id).ext = &ChanData{cap: int(n)}
				it.env[I.dst] = ChanV{id}
			case *ssa.MakeClosure:
				binds := make([]V, len(I.args))
				for i, a := range I.args {
					binds[i] = x.val(fi, it, a)
				}
				it.env[I.dst] = &Clo{fn: in.Fn.(*ssa.Function), binds: binds}
			case *ssa.MakeInterface:
				v := x.val(fi, it, I.a)
				it.env[I.dst] = &Iface{I.t, v}
			case *ssa.MakeMap:
				id := x.newObj(it.st, nil, nil)
				it.st.wobj(id).ext = &MapData{idx: map[string]int{}}
				it.env[I.dst] = MapV{id}
			case *ssa.MakeSlice:
				ln := x.forceInt(it.st, x.val(fi, it, I.a), types.Int)
				cp := x.forceInt(it.st, x.val(fi, it, I.b), types.Int)
				if ln < 0 || cp < ln {
					panic(goPanic{it.st.pc, "makeslice: len out of range"})
				}
				it.env[I.dst] = x.makeSlice(it.st, I.t, int(ln), int(cp))
			case *ssa.MapUpdate:
				mv := x.force(it.st, x.val(fi, it, I.a))
				k := x.val(fi, it, I.b)
				v := x.val(fi, it, I.args[0])
				m, ok := mv.(MapV)
				if !ok {
					x.limit("map update on %T", mv)
				}
				if m.obj == 0 {
					panic(goPanic{it.st.pc, "assignment to entry in nil map"})
				}
				key := x.mapKey(it.st, k)
				o := it.st.wobj(m.obj)
				md := o.ext.(*MapData)
				if i, ok := md.idx[key]; ok {
					md.vals[i] = v
				} else {
					md.idx[key] = len(md.keys)
					md.keys = append(md.keys, k)
					md.vals = append(md.vals, v)
				}
			case *ssa.Next:
				items := x.next(fr, it, I, in)
				if items != nil {
					return items
				}
			case *ssa.Panic:
				v := x.val(fi, it, I.a)
				x.panicOut(fr, it, v, "panic at "+posOf(in))
				return nil
			case *ssa.Range:
				it.env[I.dst] = x.rangeOver(it.st, x.force(it.st, x.val(fi, it, I.a)), I)
			case *ssa.Return:
				var ret V
				switch len(I.args) {
				case 0:
				case 1:
					ret = x.val(fi, it, I.args[0])
				default:
					tp := make(Tuple, len(I.args))
					for i, a := range I.args {
						tp[i] = x.val(fi, it, a)
					}
					ret = tp
				}
				x.addRet(fr, it.st, ret, len(I.args) == 1 && I.args[0] >= 0 && fi.accSlot[I.args[0]])
				return nil
			case *ssa.Send:
				cv := x.force(it.st, x.val(fi, it, I.a))
				c, ok := cv.(ChanV)
				if !ok || c.obj == 0 {
					x.limit("send on %T", cv)
				}
				cd := it.st.wobj(c.obj).ext.(*ChanData)
				if cd.closed {
					panic(goPanic{it.st.pc, "send on closed channel"})
				}
				cd.q = append(cd.q, x.val(fi, it, I.b))
				cd.ids = append(cd.ids, cd.seq)
				cd.seq++
				if x.gorDepth > 0 {
					cd.conc = true
					if it.st.gor != nil && it.st.gor.late {
						x.race(it.st, "value sent after WaitGroup.Done")
					}
				} else if cd.cap > 0 && len(cd.q) > cd.cap || cd.cap == 0 {
					panic(goPanic{it.st.pc, "deadlock: send on a full channel nobody receives from"})
				}
			case *ssa.Slice:
				if !x.sliceIns(fr, it, I) {
					return nil
				}
			case *ssa.Store:
				x.store(it.st, x.val(fi, it, I.a), x.val(fi, it, I.b))
			case *ssa.TypeAssert:
				if !x.typeAssert(fr, it, I) {
					return nil
				}
			default:
				x.limit("unsupported instruction %T at %s", in, posOf(in))
			}
			it.ip++
		}
		x.limit("block without terminator")
	nextBlock:
	}
}

func edgeNo(from *ssa.BasicBlock, i int) int {
	if i == 1 && from.Succs[0] == from.Succs[1] {
		return 1
	}
	return 0
}

// goTo follows a single successor; it continues directly when nothing else is
// pending, otherwise the item is queued (nil is returned).
func (x *X) goTo(fr *frame, it *item, from *ssa.BasicBlock, e int) *item {
	to := from.Succs[e]
	B := &fr.fi.bs[to.Index]
	if B.head {
		it.its++
		if it.its > 4_000_000 {
			x.limit("loop iteration limit in %s", fr.fi.fn)
		}
	}
	for i := range fr.pend {
		if len(fr.pend[i].l) > 0 {
			x.enter(fr, it, from, to, edgeNo(from, e))
			return nil
		}
	}
	if len(B.phis) > 0 {
		x.enter(fr, it, from, to, edgeNo(from, e))
		lp := fr.pend.at(B.rank)
		l := *lp
		it = l[len(l)-1]
		*lp = l[:0]
		return it
	}
	it.b = B
	it.ip = 0
	return it
}

// branch splits a state on a condition, dropping impossible sides.
func (x *X) branch(st *State, c *Node) (*State, *State) {
	t := x.m.And(st.pc, c)
	f := x.m.AndNot(st.pc, c)
	if len(x.inv) > 0 {
		if t != x.m.F && x.simpPC(t) == x.m.F {
			t = x.m.F
		}
		if f != x.m.F && x.simpPC(f) == x.m.F {
			f = x.m.F
		}
	}
	if t != x.m.F && f != x.m.F && x.hasTheory(c) {
		if !x.smtSat(st, t) {
			t, f = x.m.F, st.pc
		} else if !x.smtSat(st, f) {
			t, f = st.pc, x.m.F
		}
	}
	var a, b *State
	if t != x.m.F && f != x.m.F {
		b = x.fork(st)
		a = st
		a.pc, b.pc = t, f
		return a, b
	}
	if t != x.m.F {
		st.pc = t
		return st, nil
	}
	if f != x.m.F {
		st.pc = f
		return nil, st
	}
	return nil, nil
}

func (x *X) hasTheory(n *Node) bool {
	for _, v := range x.m.Support(n) {
		if vi := &x.m.vars[v]; vi.kind == vkCmp || vi.isBit() {
			return true
		}
	}
	return false
}

func (x *X) addRet(fr *frame, st *State, ret V, acc bool) {
	for i := range fr.rets {
		r := &fr.rets[i]
		g := x.mergeGuard(r.st, st)
		if g == nil {
			continue
		}
		v, ok := x.mergeV(g, r.ret, ret, acc)
		if !ok {
			x.overlap, x.m.care = nil, nil
			continue
		}
		// callee-local cells are dead now
		for j := fr.base; j < len(r.st.stk) && j < len(st.stk); j++ {
			r.st.stk[j], st.stk[j] = nil, nil
		}
		ms := x.mergeStates(r.st, st, g)
		x.overlap, x.m.care = nil, nil
		if ms == nil {
			continue
		}
		ms.pc = x.simpPC(ms.pc)
		r.st, r.ret = ms, v
		return
	}
	fr.rets = append(fr.rets, retItem{st, ret})
}

func (x *X) makeSlice(st *State, elem types.Type, ln, cp int) *Slice {
	n := x.cellsOf(elem)
	if cp*n > 1<<24 {
		x.limit("slice too large")
	}
	cells := make([]V, cp*n)
	if n == 1 && !isAgg(elem) {
		z := x.zeroCell(elem)
		for i := range cells {
			cells[i] = z
		}
	} else {
		for i := 0; i < cp; i++ {
			copy(cells[i*n:], x.zeroCells(elem))
		}
	}
	return &Slice{obj: x.newObj(st, cells, elem), ln: int32(ln), cp: int32(cp), esz: n}
}

func (x *X) fieldAddr(st *State, p V, off int32) V {
	switch q := p.(type) {
	case Ptr:
		if q.obj == 0 {
			panic(goPanic{st.pc, "nil pointer dereference"})
		}
		return Ptr{q.obj, q.off + off}
	case *Mux:
		for _, v := range q.v {
			if pp, ok := v.(Ptr); !ok || pp.obj == 0 {
				return x.fieldAddr(st, x.force(st, q), off)
			}
		}
		r := &Mux{g: q.g, v: make([]V, len(q.v))}
		for i, v := range q.v {
			pp := v.(Ptr)
			r.v[i] = Ptr{pp.obj, pp.off + off}
		}
		return r
	case *Ext:
		return &Ext{name: fmt.Sprintf("%s.field%d", q.name, off), id: q.id, args: q.args}
	}
	panic(engineLimit{fmt.Sprintf("field address of %T", p)})
}

// symIndex describes an index that is not constant.
func (x *X) indexAddr(fr *frame, it *item, I *Ins) bool {
	fi := fr.fi
	av := x.val(fi, it, I.a)
	iv := x.val(fi, it, I.b)
	idx := x.nodeOf(iv, I.k2)
	if I.agg { // pointer to array
		if mx, ok := av.(*Mux); ok {
			av = x.force(it.st, mx)
		}
		p, ok := av.(Ptr)
		if !ok {
			x.limit("index through %T", av)
		}
		if p.obj == 0 {
			panic(goPanic{it.st.pc, "nil pointer dereference"})
		}
		return x.elemAddr(fr, it, I, p, int64(I.off), nil, idx)
	}
	s := x.force(it.st, av)
	sl, ok := s.(*Slice)
	if !ok {
		x.limit("index of %T at %s", s, posOf(I.in))
	}
	return x.elemAddr(fr, it, I, Ptr{sl.obj, sl.off}, int64(sl.ln), sl.sym, idx)
}

func (x *X) elemAddr(fr *frame, it *item, I *Ins, base Ptr, n int64, sym *Node, idx *Node) bool {
	if !idx.isConst() {
		idx = x.pinned(it.st, idx)
	}
	if idx.isConst() {
		c := idx.leaf.c
		if sym != nil {
			bad := x.m.Op2(token.GEQ, types.Int, idx, sym)
			if c < 0 {
				panic(goPanic{it.st.pc, "index out of range"})
			}
			if !x.guard(fr, it, bad, fmt.Sprintf("index out of range [%d]", c)) {
				return false
			}
			x.growLazy(it.st, base.obj, int(base.off)+int(c+1)*I.n)
		} else if c < 0 || c >= n {
			panic(goPanic{it.st.pc, fmt.Sprintf("index out of range [%d] with length %d", c, n)})
		}
		it.env[I.dst] = Ptr{base.obj, base.off + int32(c)*int32(I.n)}
		return true
	}
	if sym != nil {
		x.limit("symbolic index into a symbolic-length slice")
	}
	lo := x.m.Op2(token.LSS, types.Int, idx, x.m.F)
	hi := x.m.Op2(token.GEQ, types.Int, idx, x.m.Int(n))
	if !x.guard(fr, it, x.m.Or(lo, hi), fmt.Sprintf("index out of range with length %d", n)) {
		return false
	}
	if idx.isLeaf() {
		// symbolic linear index: enumerate its possible values
		l := x.m.leafLin(idx)
		blo, bhi := linBounds(l, it.st.bound)
		if blo < 0 {
			blo = 0
		}
		if bhi > n-1 {
			bhi = n - 1
		}
		if bhi-blo > 512 {
			x.limit("symbolic index with %d candidates", bhi-blo+1)
		}
		mx := &Mux{}
		for c := blo; c <= bhi; c++ {
			g := x.m.leafEQ(idx, x.m.Int(c))
			if x.m.And(it.st.pc, g) == x.m.F {
				continue
			}
			mx.g = append(mx.g, g)
			mx.v = append(mx.v, Ptr{base.obj, base.off + int32(c)*int32(I.n)})
		}
		it.env[I.dst] = mx
		return true
	}
	mx := &Mux{}
	for _, l := range x.m.Leaves(idx) {
		if !l.isConst() {
			x.limit("symbolic index leaf %s", x.m.str(l, 2))
		}
		if l.leaf.c < 0 || l.leaf.c >= n {
			continue
		}
		g := x.m.When(idx, l)
		if x.m.And(it.st.pc, g) == x.m.F {
			continue
		}
		mx.g = append(mx.g, g)
		mx.v = append(mx.v, Ptr{base.obj, base.off + int32(l.leaf.c)*int32(I.n)})
	}
	if len(mx.v) == 0 {
		return false
	}
	if len(mx.v) == 1 {
		it.env[I.dst] = mx.v[0]
	} else {
		it.env[I.dst] = mx
	}
	return true
}

// reSplit: the current instruction needs vi decided (interval case split).
type reSplit struct{ vi *VarInfo }

func (x *X) growLazy(st *State, obj int32, n int) {
	o := st.obj(obj)
	lz, ok := o.ext.(*LazyData)
	if !ok || len(o.c) >= n {
		if len(o.c) < n {
			x.limit("access beyond the modelled part of a slice")
		}
		return
	}
	w := st.wobj(obj)
	for len(w.c) < n {
		w.c = append(w.c, lz.gen(len(w.c)))
	}
}

type LazyData struct {
	gen  func(i int) V
	orig *Str
}

func (x *X) indexVal(fr *frame, it *item, I *Ins, in *ssa.Index) bool {
	v := x.force(it.st, x.val(fr.fi, it, I.a))
	idx := x.pinned(it.st, x.nodeOf(x.val(fr.fi, it, I.b), I.k2))
	switch a := v.(type) {
	case *Agg:
		n := len(a.c) / max(1, I.n)
		if !idx.isConst() {
			bad := x.m.Or(x.m.Op2(token.LSS, types.Int, idx, x.m.F), x.m.Op2(token.GEQ, types.Int, idx, x.m.Int(int64(n))))
			if !x.guard(fr, it, bad, "index out of range") {
				return false
			}
			idx = x.m.Int(x.forceInt(it.st, idx, types.Int))
		}
		c := idx.leaf.c
		if c < 0 || int(c) >= n {
			panic(goPanic{it.st.pc, "index out of range"})
		}
		if I.agg {
			it.env[I.dst] = &Agg{a.c[int(c)*I.n : (int(c)+1)*I.n]}
		} else {
			it.env[I.dst] = a.c[c]
		}
		return true
	case *Str:
		return x.strIndex(fr, it, I, a, idx)
	}
	x.limit("index of %T", v)
	return false
}

func (x *X) binop(fr *frame, it *item, I *Ins, a, b V) bool {
	st := it.st
	if na, ok := a.(*Node); ok {
		if nb, ok := b.(*Node); ok {
			switch I.tok {
			case token.QUO, token.REM:
				if !isFloat(I.k) {
					if nb.isConst() {
						if nb.leaf.c == 0 {
							panic(goPanic{st.pc, "integer divide by zero"})
						}
					} else if !x.guard(fr, it, x.m.Op2(token.EQL, I.k, nb, x.m.F), "integer divide by zero") {
						return false
					}
				}
			case token.SHL, token.SHR:
				if !nb.isConst() {
					if nb = x.pinned(st, nb); !nb.isConst() {
						if _, sg := kindBits(I.k2); sg {
							if !x.guard(fr, it, x.m.Op2(token.LSS, I.k2, nb, x.m.F), "negative shift amount") {
								return false
							}
						}
					}
				} else if nb.leaf.c < 0 {
					panic(goPanic{st.pc, "negative shift amount"})
				}
			}
			if x.wantBV(I, na, nb) {
				w, _ := kindBits(I.k)
				p, q := x.constBV(na, int(w)), x.constBV(nb, int(w))
				if p != nil && q != nil {
					it.env[I.dst] = x.m.bvOp(I.tok, I.k, p, q)
					return true
				}
			}
			it.env[I.dst] = x.m.Op2(I.tok, I.k, na, nb)
			return true
		}
	}
	switch a.(type) {
	case *BV:
	default:
		if _, ok := b.(*BV); !ok {
			r, cont := x.refOp(fr, it, I, a, b)
			if !cont {
				return false
			}
			it.env[I.dst] = r
			return true
		}
	}
	if I.tok == token.QUO || I.tok == token.REM {
		bz := x.m.bvOp(token.EQL, I.k, x.m.bvOf(b, I.k), x.m.F).(*Node)
		if !x.guard(fr, it, bz, "integer divide by zero") {
			return false
		}
	}
	it.env[I.dst] = x.m.bvOp(I.tok, I.k, a, b)
	return true
}

// wantBV: arithmetic on two wide unsigned diagrams is done bit-wise.
func (x *X) wantBV(I *Ins, a, b *Node) bool {
	if a.isLeaf() && b.isLeaf() {
		return false
	}
	_, s := kindBits(I.k)
	if s || I.k == types.Bool || isFloat(I.k) {
		return false
	}
	switch I.tok {
	case token.ADD, token.SUB, token.OR, token.XOR, token.AND:
		return !a.isLeaf() && !b.isLeaf() && !x.m.sizeAtMost(a, 16) && !x.m.sizeAtMost(b, 16)
	}
	return false
}

// refOp: comparisons of references and strings, string concatenation.
func (x *X) refOp(fr *frame, it *item, I *Ins, a, b V) (V, bool) {
	st := it.st
	if I.tok == token.ADD {
		if basicKind(I.t) == types.String {
			return x.strConcat(st, x.force(st, a), x.force(st, b)), true
		}
		x.limit("+ on %T, %T", a, b)
	}
	if basicKind(I.t) == types.String {
		sa, sb := x.force(st, a), x.force(st, b)
		return x.strCmp(st, I.tok, sa.(*Str), sb.(*Str)), true
	}
	if I.tok != token.EQL && I.tok != token.NEQ {
		x.limit("operator %s on %T", I.tok, a)
	}
	r := x.refEq(st, a, b)
	if I.tok == token.NEQ {
		r = x.m.Not(r)
	}
	return r, true
}

func (x *X) refEq(st *State, a, b V) *Node {
	if ma, ok := a.(*Mux); ok {
		r := x.m.F
		for i, v := range ma.v {
			r = x.m.Or(r, x.m.And(ma.g[i], x.refEq(st, v, b)))
		}
		return r
	}
	if mb, ok := b.(*Mux); ok {
		return x.refEq(st, mb, a)
	}
	switch p := a.(type) {
	case *Node:
		if q, ok := b.(*Node); ok {
			return x.m.Op2(token.EQL, types.Int, p, q)
		}
		if q, ok := b.(*BV); ok {
			return x.m.bvEq(x.m.bvOf(p, types.Uint64).trunc(len(q.b)), q)
		}
	case *BV:
		if q, ok := b.(*BV); ok && len(p.b) == len(q.b) {
			return x.m.bvEq(p, q)
		}
		if _, ok := b.(*Node); ok {
			return x.refEq(st, b, a)
		}
	case Ptr:
		switch q := b.(type) {
		case Ptr:
			return x.m.Bool(p == q)
		case *Ext:
			return x.m.F
		}
	case *Slice:
		if q, ok := b.(*Slice); ok {
			if p.isNil || q.isNil {
				return x.m.Bool(p.isNil && q.isNil)
			}
		}
	case MapV:
		if q, ok := b.(MapV); ok {
			return x.m.Bool(p == q)
		}
	case ChanV:
		if q, ok := b.(ChanV); ok {
			return x.m.Bool(p == q)
		}
	case *Clo:
		if q, ok := b.(*Clo); ok {
			pn, qn := p == x.nilFunc, q == x.nilFunc
			if pn || qn {
				return x.m.Bool(pn && qn)
			}
		}
	case *Iface:
		switch q := b.(type) {
		case *Iface:
			if p.t == nil || q.t == nil {
				return x.m.Bool(p.t == nil && q.t == nil)
			}
			if !types.Identical(p.t, q.t) {
				return x.m.F
			}
			return x.refEq(st, p.v, q.v)
		case *Ext:
			return x.m.F
		}
	case *Ext:
		switch q := b.(type) {
		case *Ext:
			if sameV(p, q) {
				return x.m.T
			}
			return x.m.F
		case Ptr, *Iface:
			return x.m.F
		}
	case *Str:
		if q, ok := b.(*Str); ok {
			return x.strCmp(st, token.EQL, p, q)
		}
	case *Agg:
		if q, ok := b.(*Agg); ok && len(p.c) == len(q.c) {
			r := x.m.T
			for i := range p.c {
				r = x.m.And(r, x.refEq(st, p.c[i], q.c[i]))
			}
			return r
		}
	}
	panic(engineLimit{fmt.Sprintf("comparison of %T and %T", a, b)})
}

func (b *BV) trunc(n int) *BV { return &BV{b.b[:n]} }

func (x *X) lookup(fr *frame, it *item, I *Ins, in *ssa.Lookup) bool {
	v := x.force(it.st, x.val(fr.fi, it, I.a))
	if s, ok := v.(*Str); ok {
		return x.strIndex(fr, it, I, s, x.pinned(it.st, x.nodeOf(x.val(fr.fi, it, I.b), types.Int)))
	}
	mv, ok := v.(MapV)
	if !ok {
		x.limit("lookup in %T", v)
	}
	mt := in.X.Type().Underlying().(*types.Map)
	zero := x.zero(mt.Elem())
	kv := x.val(fr.fi, it, I.b)
	ret := func(v V, ok *Node) {
		if I.agg {
			it.env[I.dst] = Tuple{v, ok}
		} else {
			it.env[I.dst] = v
		}
	}
	if mv.obj == 0 {
		ret(zero, x.m.F)
		return true
	}
	if it.st.gor != nil {
		it.st.gor.read(Ptr{mv.obj, 0}, 1)
	}
	o := it.st.obj(mv.obj)
	if o == nil {
		x.limit("lookup in an uninitialised map")
	}
	md := o.ext.(*MapData)
	// symbolic scalar key: merge over the entries
	if n, ok := kv.(*Node); ok && !n.isConst() {
		r, found := zero, x.m.F
		for i, k := range md.keys {
			kn, ok := k.(*Node)
			if !ok {
				x.limit("symbolic key in a map with %T keys", k)
			}
			g := x.m.Op2(token.EQL, basicKind(mt.Key()), n, kn)
			if g == x.m.F {
				continue
			}
			var mok bool
			r, mok = x.mergeV(g, md.vals[i], r, false)
			if !mok {
				x.limit("unmergeable map values")
			}
			found = x.m.Or(found, g)
		}
		ret(r, found)
		return true
	}
	key := x.mapKey(it.st, kv)
	if i, ok := md.idx[key]; ok {
		ret(md.vals[i], x.m.T)
	} else {
		ret(zero, x.m.F)
	}
	return true
}

func (x *X) mapKey(st *State, k V) string {
	switch q := k.(type) {
	case *Node:
		if q.isConst() {
			return fmt.Sprintf("i%d", q.leaf.c)
		}
		if q.isLeaf() && q.leaf.kind == lkFloat {
			return fmt.Sprintf("f%v", q.leaf.f)
		}
		return x.mapKey(st, x.m.Int(x.forceInt(st, q, types.Int)))
	case *Str:
		if q.conc {
			return "s" + q.s
		}
	case Ptr:
		return fmt.Sprintf("p%d.%d", q.obj, q.off)
	case *Agg:
		s := "a"
		for _, c := range q.c {
			s += x.mapKey(st, c) + ";"
		}
		return s
	case *Iface:
		if q.t == nil {
			return "nil"
		}
		return "I" + q.t.String() + x.mapKey(st, q.v)
	case *Mux:
		return x.mapKey(st, x.force(st, q))
	}
	panic(engineLimit{fmt.Sprintf("map key %T", k)})
}

func (x *X) sliceIns(fr *frame, it *item, I *Ins) bool {
	st := it.st
	v := x.force(st, x.val(fr.fi, it, I.a))
	get := func(o int32, def int64) int64 {
		if o == -1<<30 {
			return def
		}
		return x.forceInt(st, x.val(fr.fi, it, o), types.Int)
	}
	lowO, highO, maxO := I.args[0], I.args[1], I.args[2]
	switch s := v.(type) {
	case *Str:
		r, ok := x.strSlice(fr, it, I, s)
		if !ok {
			return false
		}
		it.env[I.dst] = r
		return true
	case *Slice:
		if s.sym != nil {
			if highO == -1<<30 && maxO == -1<<30 {
				lo := get(lowO, 0)
				if lo == 0 {
					it.env[I.dst] = s
					return true
				}
			}
			x.limit("slicing a symbolic-length slice")
		}
		lo := get(lowO, 0)
		hi := get(highO, int64(s.ln))
		mx := get(maxO, int64(s.cp))
		if lo < 0 || hi < lo || mx < hi || mx > int64(s.cp) {
			panic(goPanic{st.pc, fmt.Sprintf("slice bounds out of range [%d:%d] with capacity %d", lo, hi, s.cp)})
		}
		if s.isNil {
			it.env[I.dst] = s
			return true
		}
		it.env[I.dst] = &Slice{obj: s.obj, off: s.off + int32(lo)*int32(s.esz), ln: int32(hi - lo), cp: int32(mx - lo), esz: s.esz}
		return true
	case Ptr:
		ar := I.t.Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
		n := ar.Len()
		if s.obj == 0 {
			panic(goPanic{st.pc, "nil pointer dereference"})
		}
		lo := get(lowO, 0)
		hi := get(highO, n)
		mx := get(maxO, n)
		if lo < 0 || hi < lo || mx < hi || mx > n {
			panic(goPanic{st.pc, "slice bounds out of range"})
		}
		esz := x.cellsOf(ar.Elem())
		it.env[I.dst] = &Slice{obj: s.obj, off: s.off + int32(lo)*int32(esz), ln: int32(hi - lo), cp: int32(mx - lo), esz: esz}
		return true
	}
	x.limit("slice of %T", v)
	return false
}

func (x *X) typeAssert(fr *frame, it *item, I *Ins) bool {
	st := it.st
	v := x.force(st, x.val(fr.fi, it, I.a))
	set := func(v V, ok *Node) {
		if I.agg {
			it.env[I.dst] = Tuple{v, ok}
		} else {
			it.env[I.dst] = v
		}
	}
	_, toIface := I.t.Underlying().(*types.Interface)
	switch f := v.(type) {
	case *Iface:
		ok := false
		if f.t != nil {
			if toIface {
				ok = types.Implements(f.t, I.t.Underlying().(*types.Interface))
			} else {
				ok = types.Identical(f.t, I.t)
			}
		}
		if !ok {
			if !I.agg {
				panic(goPanic{st.pc, "interface conversion failed"})
			}
			set(x.zero(I.t), x.m.F)
			return true
		}
		if toIface {
			set(f, x.m.T)
		} else {
			set(f.v, x.m.T)
		}
		return true
	case *Ext:
		if f.dyn != nil {
			ok := false
			if toIface {
				ok = types.Implements(f.dyn, I.t.Underlying().(*types.Interface))
			} else {
				ok = types.Identical(f.dyn, I.t)
			}
			if ok {
				set(f, x.m.T)
			} else if I.agg {
				set(x.zero(I.t), x.m.F)
			} else {
				panic(goPanic{st.pc, "interface conversion failed"})
			}
			return true
		}
	}
	x.limit("type assertion on %T", v)
	return false
}

const _ = math.MaxInt64
