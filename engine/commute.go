package main

import (
	"fmt"
	"go/types"
	"math/rand"
	"os"
	"strconv"

	"golang.org/x/tools/go/ssa"
)

// Free arrival order of the values of a buffered channel. The receive loop is
// verified in arrival order 0,1,...,n-1 only, once it is proved that its body
// commutes: from an arbitrary value of everything the body assigns, receiving
// value i then value j leaves the same state as j then i, for every pair. All
// arrival orders are products of adjacent exchanges, so all give the same
// result. When that cannot be shown, sampled orders are explored (bounded).

type cellRef struct {
	obj int32
	off int32
}

type havocSet struct {
	cells map[cellRef]bool
	slots map[int32]bool
}

func (x *X) receiveOrders(fr *frame, it *item, I *Ins, c ChanV) []*item {
	ok := x.commutes(fr, it, I, c)
	name := "every arrival order of the values gives the same result (commuting receives)"
	if ok {
		x.obl(name).N++
		return nil
	}
	x.bounded["arrival orders of the values of a channel: sampled, the receive loop was not shown to commute"] = true
	n := len(it.st.obj(c.obj).ext.(*ChanData).q)
	var out []*item
	rng := rand.New(rand.NewSource(1))
	for k := 0; k < 4; k++ {
		perm := make([]int, n)
		for i := range perm {
			switch k {
			case 0:
				perm[i] = i
			case 1:
				perm[i] = n - 1 - i
			default:
				perm = rng.Perm(n)
			}
		}
		st := x.fork(it.st)
		w := st.wobj(c.obj).ext.(*ChanData)
		q := append([]V(nil), w.q...)
		for i, p := range perm {
			w.q[i] = q[p]
		}
		w.conc = false
		st.nd = st.nd + ndKey("", c.obj, perm)
		out = append(out, &item{b: it.b, ip: it.ip, env: append([]V(nil), it.env...), st: st, def: it.def, its: it.its})
	}
	return out
}

func (x *X) commutes(fr *frame, it *item, I *Ins, c ChanV) (ok bool) {
	saved := x.anyOrder
	x.anyOrder = false
	depth, nobj := x.depth, x.nextObj
	defer func() {
		x.anyOrder = saved
		if r := recover(); r != nil {
			switch r.(type) {
			case engineLimit, goPanic, splitReq, reSplit:
				x.depth = depth
				ok = false
			default:
				panic(r)
			}
		}
		if x.nextObj < nobj {
			x.nextObj = nobj
		}
	}()
	cd := it.st.obj(c.obj).ext.(*ChanData)
	n := len(cd.q)
	h := &havocSet{cells: map[cellRef]bool{}, slots: map[int32]bool{}}
	// what the body assigns, found by running it once per value
	for i := 0; i < n; i++ {
		a := x.runReceives(fr, it, I, c, []V{cd.q[i]})
		if a == nil || !x.addChanges(fr, it, a, c, h) {
			dbgc(1)
			return false
		}
	}
	for round := 0; ; round++ {
		if round > 3 {
			dbgc(2)
			return false
		}
		g := x.havoc(fr, it, h)
		if g == nil {
			dbgc(3)
			return false
		}
		grown := false
		for i := 0; i < n; i++ {
			for j := i + 1; j < n; j++ {
				a := x.runReceives(fr, g, I, c, []V{cd.q[i], cd.q[j]})
				b := x.runReceives(fr, g, I, c, []V{cd.q[j], cd.q[i]})
				if a == nil || b == nil {
					dbgc(4)
					return false
				}
				k := len(h.cells) + len(h.slots)
				if !x.addChanges(fr, g, a, c, h) || !x.addChanges(fr, g, b, c, h) {
					dbgc(5)
					return false
				}
				if len(h.cells)+len(h.slots) > k {
					grown = true
					continue
				}
				if !grown && !x.sameOutcome(fr, g, a, b, h) {
					dbgc(6)
					return false
				}
			}
		}
		if !grown {
			return true
		}
	}
}

// runReceives runs from the receive at it until vals are consumed and the
// receive is reached again.
func (x *X) runReceives(fr *frame, it *item, I *Ins, c ChanV, vals []V) *item {
	st := x.fork(it.st)
	w := st.wobj(c.obj).ext.(*ChanData)
	w.q = append([]V(nil), vals...)
	w.ids = nil
	w.conc = false
	f2 := &frame{fi: fr.fi, base: fr.base, stopAt: I, stopObj: c.obj}
	cur := &item{b: it.b, ip: it.ip, env: append([]V(nil), it.env...), st: st, def: it.def, its: it.its}
	for cur != nil {
		x.runItem(f2, cur)
		cur = x.nextItem(f2)
	}
	if len(f2.outs) > 0 || len(f2.rets) > 0 || len(f2.stopped) == 0 {
		return nil
	}
	r := f2.stopped[0]
	x.noCtl = true
	defer func() { x.noCtl = false }()
	for _, s := range f2.stopped[1:] {
		if r = x.joinItems(f2, r, s); r == nil {
			return nil
		}
		r.ip = f2.stopped[0].ip
	}
	if r.b != it.b || r.ip != it.ip || r.st.tr != it.st.tr || r.def != it.def {
		return nil
	}
	return r
}

func liveAt(it *item) []int32 {
	r := append([]int32(nil), it.b.live...)
	for i := range it.b.phis {
		r = append(r, it.b.phis[i].dst)
	}
	return r
}

// addChanges adds everything that differs between two states of the same point.
func (x *X) addChanges(fr *frame, a, b *item, c ChanV, h *havocSet) bool {
	for _, s := range liveAt(a) {
		if !sameV(a.env[s], b.env[s]) {
			h.slots[s] = true
		}
	}
	diff := func(id int32, oa, ob *Obj) bool {
		if oa == ob || oa == nil || id == c.obj {
			return true
		}
		if ob == nil || len(oa.c) != len(ob.c) || oa.ext != ob.ext {
			dbgc(7)
			return false
		}
		for i := range oa.c {
			if !sameV(oa.c[i], ob.c[i]) {
				h.cells[cellRef{id, int32(i)}] = true
			}
		}
		return true
	}
	for i := range a.st.stk {
		if i < len(b.st.stk) && !diff(int32(-i-1), a.st.stk[i], b.st.stk[i]) {
			dbgc(8)
			return false
		}
	}
	for p := range a.st.tbl {
		pa, pb := a.st.tbl[p], b.st.tbl[p]
		if pa == pb || pa == nil {
			continue
		}
		for i := range pa.o {
			if !diff(int32(p<<pageBits+i), pa.o[i], pb.o[i]) {
				dbgc(9)
				return false
			}
		}
	}
	return true
}

func (x *X) freshOf(t types.Type) V {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return nil
	}
	x.fresh++
	name := "any" + strconv.Itoa(x.fresh)
	switch {
	case b.Info()&types.IsBoolean != 0:
		return x.m.NewBit(name)
	case b.Info()&types.IsInteger != 0:
		lo, hi := kindRange(basicKind(t))
		return x.m.IntVar(name, lo, hi, false)
	}
	return nil
}

// havoc replaces everything in h by fresh unknowns (nil: not possible).
func (x *X) havoc(fr *frame, it *item, h *havocSet) *item {
	st := x.fork(it.st)
	r := &item{b: it.b, ip: it.ip, env: append([]V(nil), it.env...), st: st, def: it.def, its: it.its}
	for s := range h.slots {
		var t types.Type
		for i := range it.b.phis {
			if it.b.phis[i].dst == s {
				t = it.b.phis[i].typ
			}
		}
		if t == nil {
			return nil
		}
		v := x.freshOf(t)
		if v == nil {
			return nil
		}
		r.env[s] = v
	}
	for c := range h.cells {
		o := st.wobj(c.obj)
		if o.t == nil {
			return nil
		}
		t := o.t
		if isAgg(t) {
			ti := x.ti(t)
			t = ti.cells[int(c.off)%ti.n]
		}
		v := x.freshOf(t)
		if v == nil {
			return nil
		}
		o.c[c.off] = v
	}
	return r
}

func (x *X) sameOutcome(fr *frame, g, a, b *item, h *havocSet) bool {
	x.overlap = x.m.And(a.st.pc, b.st.pc)
	defer func() { x.overlap = nil }()
	// both must cover every input of the start state
	if a.st.pc != g.st.pc || b.st.pc != g.st.pc {
		for _, s := range []*State{a.st, b.st} {
			lost := x.m.AndNot(g.st.pc, s.pc)
			if lost == x.m.F {
				continue
			}
			if res, _ := x.smtCheck(nil, lost, false); res != "unsat" {
				dbgc(10)
				return false
			}
		}
	}
	if x.overlap == x.m.F {
		dbgc(11)
		return false
	}
	for s := range h.slots {
		if !x.agree(a.env[s], b.env[s]) {
			dbgc(12)
			return false
		}
	}
	for c := range h.cells {
		if x.deadCell(fr, g, a, b, c, h) {
			continue
		}
		if !x.agree(a.st.obj(c.obj).c[c.off], b.st.obj(c.obj).c[c.off]) {
			dbgc(13)
			return false
		}
	}
	return true
}

// deadCell: a local of this function used only inside the loop, whose value at
// the receive influences nothing that is compared.
func (x *X) deadCell(fr *frame, g, a, b *item, c cellRef, h *havocSet) bool {
	idx := int(-c.obj-1) - fr.base
	if c.obj >= 0 || idx < 0 {
		return false
	}
	H := g.b
	var al *ssa.Alloc
	for bi := range fr.fi.bs {
		for i := range fr.fi.bs[bi].ins {
			I := &fr.fi.bs[bi].ins[i]
			if v, ok := I.in.(*ssa.Alloc); ok && !v.Heap && int(I.off) == idx {
				al = v
			}
		}
	}
	if al == nil {
		return false
	}
	inLoop := func(in ssa.Instruction) bool {
		r := fr.fi.bs[in.Block().Index].rank
		return r >= H.rank && r <= H.compEnd
	}
	var uses func(v ssa.Value) bool
	uses = func(v ssa.Value) bool {
		for _, r := range *v.Referrers() {
			if !inLoop(r) {
				return false
			}
			switch u := r.(type) {
			case *ssa.FieldAddr:
				if !uses(u) {
					return false
				}
			case *ssa.IndexAddr:
				if u.X != v || !uses(u) {
					return false
				}
			case *ssa.UnOp, *ssa.DebugRef:
			case *ssa.Store:
				if u.Val == v {
					return false
				}
			default:
				return false
			}
		}
		return true
	}
	if !uses(al) {
		return false
	}
	n, ok := g.st.obj(c.obj).c[c.off].(*Node)
	if !ok {
		return false
	}
	for _, it := range []*item{a, b} {
		if x.occurs(n, it.st.pc) {
			return false
		}
		for s := range h.slots {
			if x.occurs(n, it.env[s]) {
				return false
			}
		}
		for d := range h.cells {
			if x.occurs(n, it.st.obj(d.obj).c[d.off]) {
				return false
			}
		}
	}
	return true
}

// occurs: the unknown u (a fresh variable) appears in v.
func (x *X) occurs(u *Node, v V) bool {
	n, ok := v.(*Node)
	if !ok {
		return true
	}
	var at *Atom
	var bit int32 = -1
	if u.isLeaf() {
		l := x.m.leafLin(u)
		if len(l.ts) != 1 {
			return true
		}
		at = l.ts[0].a
	} else {
		bit = u.v
	}
	inLin := func(l *Lin) bool {
		for _, t := range l.ts {
			if t.a == at || t.a.kind != "var" {
				return true
			}
		}
		return false
	}
	for _, s := range x.m.Support(n) {
		vi := &x.m.vars[s]
		if s == bit || vi.kind == vkCmp && inLin(vi.lin) {
			return true
		}
	}
	for _, l := range x.m.Leaves(n) {
		if l.isConst() {
			continue
		}
		if l.leaf.kind != lkLin || inLin(l.leaf.lin) {
			return true
		}
	}
	return false
}

func dbgc(i int) {
	if os.Getenv("QDBG") != "" {
		fmt.Println("not commuting", i)
	}
}

var _ ssa.Instruction
