package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// Ins is one pre-decoded SSA instruction. Operands: >=0 environment slot, <0 constant.
type Ins struct {
	in   ssa.Instruction
	dst  int32
	a, b int32
	args []int32
	t    types.Type      // operand/result type as needed
	k    types.BasicKind // scalar kind
	k2   types.BasicKind
	off  int32 // field offset / alloc slot
	n    int   // cell count
	tok  token.Token
	agg  bool
}

type Phi struct {
	dst  int32
	src  []int32 // per predecessor
	acc  bool    // accumulator: merge by adding indicator terms
	ctl  bool    // controls the loop or an index: keep iterations apart
	mono bool
	k    types.BasicKind
	name string
	typ  types.Type
}

type BI struct {
	b       *ssa.BasicBlock
	phis    []Phi
	ins     []Ins
	live    []int32 // slots live on entry (including phi results)
	rank    int
	compEnd int // last rank of the loop this block heads
	head    bool
	ctl     []int // indexes of ctl phis, monotone first
}

type FI struct {
	fn      *ssa.Function
	nslot   int
	params  []int32
	free    []int32
	bs      []BI
	consts  []V
	nalloc  int
	hasDef  bool
	accPhi  map[*ssa.Phi]bool
	accSlot []bool
}

func (x *X) compile(fn *ssa.Function) *FI {
	if f, ok := x.fis[fn]; ok {
		return f
	}
	f := &FI{fn: fn}
	x.fis[fn] = f
	slot := map[ssa.Value]int32{}
	next := int32(0)
	add := func(v ssa.Value) int32 {
		s := next
		slot[v] = s
		next++
		return s
	}
	for _, p := range fn.Params {
		f.params = append(f.params, add(p))
	}
	for _, p := range fn.FreeVars {
		f.free = append(f.free, add(p))
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				add(v)
			}
		}
	}
	f.nslot = int(next)
	cidx := map[ssa.Value]int32{}
	opnd := func(v ssa.Value) int32 {
		if v == nil {
			return -1 << 30
		}
		if s, ok := slot[v]; ok {
			return s
		}
		if c, ok := cidx[v]; ok {
			return c
		}
		var val V
		switch c := v.(type) {
		case *ssa.Const:
			val = x.constV(c)
		case *ssa.Global:
			val = Ptr{x.globalObj(c), 0}
		case *ssa.Function:
			val = &Clo{fn: c}
		case *ssa.Builtin:
			val = &Clo{builtin: c.Name()}
		default:
			panic(engineLimit{fmt.Sprintf("operand %T", v)})
		}
		f.consts = append(f.consts, val)
		id := int32(-len(f.consts))
		cidx[v] = id
		return id
	}
	ranks, heads, sizes := wto(fn)
	f.bs = make([]BI, len(fn.Blocks))
	for bi, b := range fn.Blocks {
		B := &f.bs[bi]
		B.b = b
		B.rank = ranks[bi]
		B.compEnd = ranks[bi] + sizes[bi]
		B.head = heads[bi]
		for _, in := range b.Instrs {
			if p, ok := in.(*ssa.Phi); ok {
				ph := Phi{dst: slot[p], k: basicKind(p.Type()), name: p.Comment, typ: p.Type()}
				for _, e := range p.Edges {
					ph.src = append(ph.src, opnd(e))
				}
				B.phis = append(B.phis, ph)
				continue
			}
			if _, ok := in.(*ssa.DebugRef); ok {
				continue
			}
			I := Ins{in: in, dst: -1}
			if v, ok := in.(ssa.Value); ok {
				I.dst = slot[v]
				I.t = v.Type()
			}
			switch i := in.(type) {
			case *ssa.Alloc:
				I.t = i.Type().Underlying().(*types.Pointer).Elem()
				if !i.Heap {
					I.off = int32(f.nalloc)
					f.nalloc++
				}
			case *ssa.BinOp:
				I.a, I.b = opnd(i.X), opnd(i.Y)
				I.tok = i.Op
				I.t = i.X.Type()
				I.k = basicKind(i.X.Type())
				I.k2 = basicKind(i.Y.Type())
			case *ssa.UnOp:
				I.a = opnd(i.X)
				I.tok = i.Op
				I.k = basicKind(i.X.Type())
				if i.Op == token.MUL {
					I.agg = isAgg(i.Type())
				}
			case *ssa.Call:
				x.callOps(&I, &i.Call, opnd)
			case *ssa.Go:
				x.callOps(&I, &i.Call, opnd)
			case *ssa.Defer:
				x.callOps(&I, &i.Call, opnd)
				f.hasDef = true
			case *ssa.ChangeInterface:
				I.a = opnd(i.X)
			case *ssa.ChangeType:
				I.a = opnd(i.X)
			case *ssa.Convert:
				I.a = opnd(i.X)
				I.k, I.k2 = basicKind(i.X.Type()), basicKind(i.Type())
			case *ssa.MultiConvert:
				I.a = opnd(i.X)
			case *ssa.Extract:
				I.a = opnd(i.Tuple)
				I.n = i.Index
			case *ssa.Field:
				I.a = opnd(i.X)
				ti := x.ti(i.X.Type())
				I.off = int32(ti.foff[i.Field])
				I.agg = isAgg(i.Type())
				I.n = x.cellsOf(i.Type())
			case *ssa.FieldAddr:
				I.a = opnd(i.X)
				st := i.X.Type().Underlying().(*types.Pointer).Elem()
				I.off = int32(x.ti(st).foff[i.Field])
			case *ssa.If:
				I.a = opnd(i.Cond)
			case *ssa.Index:
				I.a, I.b = opnd(i.X), opnd(i.Index)
				I.t = i.X.Type()
				I.agg = isAgg(i.Type())
				I.n = x.cellsOf(i.Type())
				I.k2 = basicKind(i.Index.Type())
			case *ssa.IndexAddr:
				I.a, I.b = opnd(i.X), opnd(i.Index)
				I.t = i.X.Type()
				I.k2 = basicKind(i.Index.Type())
				switch u := i.X.Type().Underlying().(type) {
				case *types.Slice:
					I.n = x.cellsOf(u.Elem())
				case *types.Pointer:
					ar := u.Elem().Underlying().(*types.Array)
					I.n = x.cellsOf(ar.Elem())
					I.off = int32(ar.Len())
					I.agg = true
				}
			case *ssa.Jump, *ssa.RunDefers:
			case *ssa.Lookup:
				I.a, I.b = opnd(i.X), opnd(i.Index)
				I.t = i.X.Type()
				I.agg = i.CommaOk
			case *ssa.MakeChan:
				I.a = opnd(i.Size)
			case *ssa.MakeClosure:
				I.a = opnd(i.Fn)
				for _, b := range i.Bindings {
					I.args = append(I.args, opnd(b))
				}
			case *ssa.MakeInterface:
				I.a = opnd(i.X)
				I.t = i.X.Type()
			case *ssa.MakeMap:
			case *ssa.MakeSlice:
				I.a, I.b = opnd(i.Len), opnd(i.Cap)
				I.t = i.Type().Underlying().(*types.Slice).Elem()
			case *ssa.MapUpdate:
				I.a, I.b = opnd(i.Map), opnd(i.Key)
				I.args = []int32{opnd(i.Value)}
			case *ssa.Next:
				I.a = opnd(i.Iter)
				I.agg = i.IsString
			case *ssa.Panic:
				I.a = opnd(i.X)
			case *ssa.Range:
				I.a = opnd(i.X)
				I.t = i.X.Type()
			case *ssa.Return:
				for _, r := range i.Results {
					I.args = append(I.args, opnd(r))
				}
			case *ssa.Send:
				I.a, I.b = opnd(i.Chan), opnd(i.X)
			case *ssa.Slice:
				I.a = opnd(i.X)
				I.args = []int32{opnd(i.Low), opnd(i.High), opnd(i.Max)}
				I.t = i.X.Type()
			case *ssa.SliceToArrayPointer:
				I.a = opnd(i.X)
			case *ssa.Store:
				I.a, I.b = opnd(i.Addr), opnd(i.Val)
			case *ssa.TypeAssert:
				I.a = opnd(i.X)
				I.t = i.AssertedType
				I.agg = i.CommaOk
			default:
				I.t = nil // unsupported: reported when reached
			}
			B.ins = append(B.ins, I)
		}
	}
	x.liveness(f)
	x.classifyPhis(f, slot)
	f.accSlot = make([]bool, f.nslot+1)
	for i := range f.bs {
		for _, p := range f.bs[i].phis {
			if p.acc {
				f.accSlot[p.dst] = true
			}
		}
	}
	return f
}

func (x *X) callOps(I *Ins, c *ssa.CallCommon, opnd func(ssa.Value) int32) {
	I.a = opnd(c.Value)
	for _, a := range c.Args {
		I.args = append(I.args, opnd(a))
	}
}

func (x *X) constV(c *ssa.Const) V {
	t := c.Type()
	if c.Value == nil {
		return x.zero(t)
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return x.m.Bool(constant.BoolVal(c.Value))
		case u.Info()&types.IsString != 0:
			return concStr(constant.StringVal(c.Value))
		case u.Info()&types.IsFloat != 0:
			f, _ := constant.Float64Val(constant.ToFloat(c.Value))
			return x.m.Float(f)
		case u.Info()&types.IsInteger != 0:
			v := constant.ToInt(c.Value)
			if i, ok := constant.Int64Val(v); ok {
				return x.m.Int(wrapC(basicKind(t), i))
			}
			if i, ok := constant.Uint64Val(v); ok {
				return x.m.Int(int64(i))
			}
		}
	}
	return &Ext{name: "const " + c.String()}
}

func (x *X) globalObj(g *ssa.Global) int32 {
	if id, ok := x.globals[g]; ok {
		return id
	}
	x.nextGlobal++
	id := x.nextGlobal
	x.globals[g] = id
	x.globalOf[id] = g
	return id
}

// ---------------------------------------------------------------- control flow

// wto computes Bourdoncle's weak topological order: the rank of every block
// (all blocks of a loop before the blocks after it) and the loop heads.
func wto(fn *ssa.Function) (rank []int, head []bool, size []int) {
	n := len(fn.Blocks)
	size = make([]int, n)
	rank = make([]int, n)
	head = make([]bool, n)
	dfn := make([]int, n)
	num := 0
	var stack []int
	var order []int // reversed
	var visit func(v int, part *[]int) int
	var component func(v int, part *[]int)
	component = func(v int, part *[]int) {
		var p []int
		for _, s := range fn.Blocks[v].Succs {
			if dfn[s.Index] == 0 {
				visit(s.Index, &p)
			}
		}
		head[v] = true
		size[v] = len(p)
		p = append(p, v)
		*part = append(*part, p...)
	}
	const inf = 1 << 30
	visit = func(v int, part *[]int) int {
		stack = append(stack, v)
		num++
		dfn[v] = num
		h := num
		loop := false
		for _, s := range fn.Blocks[v].Succs {
			var m int
			if dfn[s.Index] == 0 {
				m = visit(s.Index, part)
			} else {
				m = dfn[s.Index]
			}
			if m <= h {
				h = m
				loop = true
			}
		}
		if h == dfn[v] {
			dfn[v] = inf
			e := stack[len(stack)-1]
			stack = stack[:len(stack)-1]
			if loop {
				for e != v {
					dfn[e] = 0
					e = stack[len(stack)-1]
					stack = stack[:len(stack)-1]
				}
				component(v, part)
			} else {
				*part = append(*part, v)
			}
		}
		return h
	}
	if n > 0 {
		visit(0, &order)
	}
	if fn.Recover != nil && dfn[fn.Recover.Index] == 0 {
		visit(fn.Recover.Index, &order)
	}
	for i, v := range order {
		rank[v] = len(order) - i
	}
	return
}

func eachUse(I *Ins, f func(int32)) {
	switch I.in.(type) {
	case *ssa.BinOp, *ssa.Index, *ssa.IndexAddr, *ssa.Lookup, *ssa.MakeSlice, *ssa.MapUpdate, *ssa.Send, *ssa.Store:
		f(I.a)
		f(I.b)
	case *ssa.Alloc, *ssa.Jump, *ssa.RunDefers, *ssa.MakeMap, *ssa.Return:
	default:
		f(I.a)
	}
	for _, a := range I.args {
		f(a)
	}
}

func (x *X) liveness(f *FI) {
	n := len(f.bs)
	live := make([]map[int32]bool, n)
	for i := range live {
		live[i] = map[int32]bool{}
	}
	for changed := true; changed; {
		changed = false
		for i := n - 1; i >= 0; i-- {
			B := &f.bs[i]
			cur := map[int32]bool{}
			for _, s := range B.b.Succs {
				S := &f.bs[s.Index]
				phid := map[int32]bool{}
				for _, p := range S.phis {
					phid[p.dst] = true
				}
				for v := range live[s.Index] {
					if !phid[v] {
						cur[v] = true
					}
				}
				for pi, p := range s.Preds {
					if p == B.b {
						for _, ph := range S.phis {
							if ph.src[pi] >= 0 {
								cur[ph.src[pi]] = true
							}
						}
					}
				}
			}
			for j := len(B.ins) - 1; j >= 0; j-- {
				I := &B.ins[j]
				if I.dst >= 0 {
					delete(cur, I.dst)
				}
				eachUse(I, func(s int32) {
					if s >= 0 {
						cur[s] = true
					}
				})
			}
			if f.hasDef {
				// named results are read by deferred functions through memory only
			}
			for v := range cur {
				if !live[i][v] {
					live[i][v] = true
					changed = true
				}
			}
		}
	}
	for i := range f.bs {
		for v := range live[i] {
			f.bs[i].live = append(f.bs[i].live, v)
		}
		sort.Slice(f.bs[i].live, func(a, b int) bool { return f.bs[i].live[a] < f.bs[i].live[b] })
	}
}

// classifyPhis finds accumulators (values only added to inside their loop) and
// control variables (flowing into indexes, loop exits or calls).
func (x *X) classifyPhis(f *FI, slot map[ssa.Value]int32) {
	fn := f.fn
	for bi := range f.bs {
		B := &f.bs[bi]
		loop := naturalLoop(fn.Blocks[bi])
		pi := 0
		for _, in := range fn.Blocks[bi].Instrs {
			p, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			ph := &B.phis[pi]
			pi++
			if b, ok := p.Type().Underlying().(*types.Basic); !ok || b.Info()&types.IsInteger == 0 {
				continue
			}
			web := map[ssa.Value]bool{p: true}
			work := []ssa.Value{p}
			acc, ctl, grows := true, false, false
			for len(work) > 0 {
				v := work[len(work)-1]
				work = work[:len(work)-1]
				refs := v.Referrers()
				if refs == nil {
					continue
				}
				for _, r := range *refs {
					inLoop := B.head && loop[r.Block()]
					push := func(nv ssa.Value) {
						if !web[nv] {
							web[nv] = true
							work = append(work, nv)
						}
					}
					switch i := r.(type) {
					case *ssa.Phi:
						push(i)
					case *ssa.BinOp:
						switch i.Op {
						case token.ADD, token.SUB:
							if inLoop || !B.head {
								if B.head {
									grows = true
								}
								push(i)
								if i.X == v && web[i.Y] && i.Y != v {
									// sum of two web values: still additive
								}
							}
						case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
							if inLoop || !B.head {
								acc = false
								if B.head && comparesExit(i, loop) {
									ctl = true
								}
							}
						default:
							if inLoop || !B.head {
								acc = false
								push(i)
							}
						}
					case *ssa.IndexAddr, *ssa.Index, *ssa.Slice, *ssa.Lookup:
						if inLoop || !B.head {
							acc = false
							ctl = true
						}
					case *ssa.Convert, *ssa.ChangeType:
						if inLoop || !B.head {
							push(i.(ssa.Value))
							if _, ok := i.(*ssa.Convert); ok {
								acc = false
							}
						}
					case *ssa.Return, *ssa.DebugRef:
					case *ssa.Call, *ssa.MakeInterface, *ssa.Store:
						if inLoop {
							acc = false
						}
					default:
						if inLoop || !B.head {
							acc = false
						}
					}
				}
			}
			if B.head {
				ph.acc = acc && grows
				ph.ctl = ctl && !ph.acc
			} else {
				ph.acc = f.accPhi[p] // decided by the loop head web
				ph.ctl = false
			}
			if ph.acc {
				// every phi of the web inside the loop merges additively
				for v := range web {
					if q, ok := v.(*ssa.Phi); ok && (loop[q.Block()] || q == p) {
						x.markAcc(f, q)
					}
				}
			}
			ph.mono = monotone(p, loop)
		}
		for i := range B.phis {
			if B.phis[i].ctl && B.phis[i].mono {
				B.ctl = append(B.ctl, i)
			}
		}
		for i := range B.phis {
			if B.phis[i].ctl && !B.phis[i].mono {
				B.ctl = append(B.ctl, i)
			}
		}
	}
}

func (x *X) markAcc(f *FI, q *ssa.Phi) {
	if f.accPhi == nil {
		f.accPhi = map[*ssa.Phi]bool{}
	}
	f.accPhi[q] = true
	B := &f.bs[q.Block().Index]
	i := 0
	for _, in := range q.Block().Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if p == q {
			B.phis[i].acc = true
			B.phis[i].ctl = false
		}
		i++
	}
}

func comparesExit(c ssa.Value, loop map[*ssa.BasicBlock]bool) bool {
	seen := map[ssa.Value]bool{}
	var rec func(v ssa.Value) bool
	rec = func(v ssa.Value) bool {
		if seen[v] {
			return false
		}
		seen[v] = true
		refs := v.Referrers()
		if refs == nil {
			return false
		}
		for _, r := range *refs {
			switch i := r.(type) {
			case *ssa.If:
				b := i.Block()
				if loop[b] && (!loop[b.Succs[0]] || !loop[b.Succs[1]]) {
					return true
				}
			case *ssa.Phi:
				if rec(i) {
					return true
				}
			case *ssa.UnOp:
				if rec(i) {
					return true
				}
			case *ssa.BinOp:
				if rec(i) {
					return true
				}
			}
		}
		return false
	}
	return rec(c)
}

// naturalLoop returns the blocks of the loop headed by h (blocks that reach h
// and are reachable from h while dominated by h).
func naturalLoop(h *ssa.BasicBlock) map[*ssa.BasicBlock]bool {
	loop := map[*ssa.BasicBlock]bool{}
	var work []*ssa.BasicBlock
	for _, p := range h.Preds {
		if h.Dominates(p) {
			if !loop[p] {
				loop[p] = true
				work = append(work, p)
			}
		}
	}
	if len(work) == 0 {
		return loop
	}
	loop[h] = true
	for len(work) > 0 {
		b := work[len(work)-1]
		work = work[:len(work)-1]
		if b == h {
			continue
		}
		for _, p := range b.Preds {
			if !loop[p] {
				loop[p] = true
				work = append(work, p)
			}
		}
	}
	return loop
}

func monotone(p *ssa.Phi, loop map[*ssa.BasicBlock]bool) bool {
	seen := map[ssa.Value]bool{p: true}
	var ok func(v ssa.Value) bool
	ok = func(v ssa.Value) bool {
		if seen[v] {
			return true
		}
		seen[v] = true
		switch i := v.(type) {
		case *ssa.Phi:
			if !loop[i.Block()] {
				return false
			}
			for _, e := range i.Edges {
				if !ok(e) {
					return false
				}
			}
			return true
		case *ssa.BinOp:
			if i.Op == token.ADD {
				if c, isC := i.Y.(*ssa.Const); isC && c.Value != nil && constant.Sign(c.Value) >= 0 {
					return ok(i.X)
				}
			}
		}
		return false
	}
	for i, e := range p.Edges {
		if loop[p.Block().Preds[i]] && !ok(e) {
			return false
		}
	}
	return true
}
