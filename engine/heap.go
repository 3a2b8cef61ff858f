package main

import (
	"fmt"
	"go/types"
	"sort"
)

// Obj is one allocated object: its content flattened to scalar/reference cells.
type Obj struct {
	own   int32
	c     []V
	ext   interface{} // *MapData, *ChanData
	t     types.Type  // element type (diagnostics)
	ghost string
}

const pageBits = 6

type page struct {
	own int32
	o   [1 << pageBits]*Obj
}

type Event struct {
	prev *Event
	n    int
	name string
	args []V
}

type resEnt struct {
	prev *resEnt
	mux  *Mux
	alt  int
}

// State is a symbolic machine state. It is copy-on-write: fork shares everything.
type State struct {
	own  int32
	tbl  []*page
	tblO bool // table slice owned exclusively
	stk  []*Obj
	pc   *Node
	tr   *Event
	res  *resEnt
	nd   string // nondeterministic-choice key (states of different choices never merge)
	gor  *gorCtx
	gors []*gorCtx
	bnd  *bndEnt
	pan  *panInfo
}

type panInfo struct {
	v      V
	msg    string
	active bool
}

// bndEnt: interval facts about case-split integer atoms.
type bndEnt struct {
	prev   *bndEnt
	a      *Atom
	lo, hi int64
}

func (s *State) bound(a *Atom) (int64, int64) {
	for e := s.bnd; e != nil; e = e.prev {
		if e.a == a {
			return e.lo, e.hi
		}
	}
	return a.lo, a.hi
}

func bndEq(a, b *State) bool {
	if a.bnd == b.bnd {
		return true
	}
	for _, s := range [2]*State{a, b} {
		if e := s.bnd; e != nil {
			l1, h1 := a.bound(e.a)
			l2, h2 := b.bound(e.a)
			if l1 != l2 || h1 != h2 {
				return false
			}
		}
	}
	seen := map[*Atom]bool{}
	for _, s := range []*State{a, b} {
		for e := s.bnd; e != nil; e = e.prev {
			if seen[e.a] {
				continue
			}
			seen[e.a] = true
			l1, h1 := a.bound(e.a)
			l2, h2 := b.bound(e.a)
			if l1 != l2 || h1 != h2 {
				return false
			}
		}
	}
	return true
}

func (x *X) fork(s *State) *State {
	c := *s
	x.own++
	s.own = x.own
	x.own++
	c.own = x.own
	s.tblO, c.tblO = false, false
	c.stk = append([]*Obj(nil), s.stk...)
	return &c
}

func (s *State) obj(id int32) *Obj {
	if id < 0 {
		return s.stk[-id-1]
	}
	p := int(id >> pageBits)
	if p >= len(s.tbl) || s.tbl[p] == nil {
		return nil
	}
	return s.tbl[p].o[id&(1<<pageBits-1)]
}

func (s *State) setObj(id int32, o *Obj) {
	if id < 0 {
		s.stk[-id-1] = o
		return
	}
	p := int(id >> pageBits)
	if !s.tblO {
		n := len(s.tbl)
		if p >= n {
			n = p + 1
		}
		t := make([]*page, n, n+n/4+4)
		copy(t, s.tbl)
		s.tbl = t
		s.tblO = true
	}
	for p >= len(s.tbl) {
		s.tbl = append(s.tbl, nil)
	}
	pg := s.tbl[p]
	if pg == nil {
		pg = &page{own: s.own}
		s.tbl[p] = pg
	} else if pg.own != s.own {
		np := *pg
		np.own = s.own
		pg = &np
		s.tbl[p] = pg
	}
	pg.o[id&(1<<pageBits-1)] = o
}

// wobj returns the object for writing.
func (s *State) wobj(id int32) *Obj {
	o := s.obj(id)
	if o == nil {
		panic(engineLimit{"write to an unknown object"})
	}
	if o.own == s.own {
		return o
	}
	n := &Obj{own: s.own, c: append([]V(nil), o.c...), t: o.t, ghost: o.ghost}
	switch e := o.ext.(type) {
	case *MapData:
		n.ext = e.clone()
	case *ChanData:
		n.ext = e.clone()
	default:
		n.ext = o.ext
	}
	s.setObj(id, n)
	return n
}

func (x *X) newObj(s *State, cells []V, t types.Type) int32 {
	id := x.nextObj
	x.nextObj++
	s.setObj(id, &Obj{own: s.own, c: cells, t: t})
	return id
}

type MapData struct {
	keys []V
	vals []V
	idx  map[string]int
}

func (m *MapData) clone() *MapData {
	n := &MapData{keys: append([]V(nil), m.keys...), vals: append([]V(nil), m.vals...), idx: make(map[string]int, len(m.idx))}
	for k, v := range m.idx {
		n.idx[k] = v
	}
	return n
}

type ChanData struct {
	q      []V
	ids    []int // arrival numbers (free arrival order)
	seq    int
	conc   bool // values were sent by concurrent goroutines
	cap    int
	closed bool
}

func (c *ChanData) clone() *ChanData {
	return &ChanData{q: append([]V(nil), c.q...), ids: append([]int(nil), c.ids...), seq: c.seq, conc: c.conc, cap: c.cap, closed: c.closed}
}

// ---------------------------------------------------------------- types to cells

type tinfo struct {
	n     int
	cells []types.Type // leaf types (nil when too many)
	foff  []int        // struct field offsets
}

func (x *X) ti(t types.Type) *tinfo {
	if r, ok := x.tinfos[t]; ok {
		return r
	}
	r := &tinfo{}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			r.foff = append(r.foff, r.n)
			f := x.ti(u.Field(i).Type())
			r.n += f.n
			r.cells = append(r.cells, f.cells...)
		}
	case *types.Array:
		e := x.ti(u.Elem())
		n := int(u.Len())
		if n > 1<<20 {
			panic(engineLimit{"array too large"})
		}
		r.n = n * e.n
		for i := 0; i < n; i++ {
			r.cells = append(r.cells, e.cells...)
		}
	default:
		r.n = 1
		r.cells = []types.Type{t}
	}
	x.tinfos[t] = r
	return r
}

func isAgg(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Struct, *types.Array:
		return true
	}
	return false
}

func (x *X) zeroCell(t types.Type) V {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Kind() == types.String || u.Kind() == types.UntypedString:
			return x.emptyStr
		case u.Info()&types.IsFloat != 0:
			return x.m.Float(0)
		case u.Kind() == types.UnsafePointer:
			return nilPtr
		case u.Info()&types.IsComplex != 0:
			panic(engineLimit{"complex numbers"})
		}
		return x.m.F
	case *types.Pointer:
		return nilPtr
	case *types.Slice:
		return x.nilSlice
	case *types.Interface:
		return x.nilIface
	case *types.Signature:
		return x.nilFunc
	case *types.Map:
		return MapV{}
	case *types.Chan:
		return ChanV{}
	case *types.TypeParam:
		panic(engineLimit{"type parameter"})
	}
	panic(engineLimit{"zero value of " + t.String()})
}

func (x *X) zeroCells(t types.Type) []V {
	if isBinaryStruct(t) {
		return []V{x.emptyRope, x.m.F}
	}
	ti := x.ti(t)
	r := make([]V, ti.n)
	for i, ct := range ti.cells {
		r[i] = x.zeroCell(ct)
	}
	if ti.n > 2 {
		x.fixRopes(t, r)
	}
	return r
}

// fixRopes puts empty ropes into embedded binary.Binary values.
func (x *X) fixRopes(t types.Type, r []V) {
	if isBinaryStruct(t) {
		r[0] = x.emptyRope
		return
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		ti := x.ti(t)
		for i := 0; i < u.NumFields(); i++ {
			ft := u.Field(i).Type()
			if isAgg(ft) {
				x.fixRopes(ft, r[ti.foff[i]:ti.foff[i]+x.ti(ft).n])
			}
		}
	case *types.Array:
		if isAgg(u.Elem()) {
			n := x.ti(u.Elem()).n
			for i := 0; i < int(u.Len()); i++ {
				x.fixRopes(u.Elem(), r[i*n:(i+1)*n])
			}
		}
	}
}

func (x *X) zero(t types.Type) V {
	if isAgg(t) {
		return &Agg{x.zeroCells(t)}
	}
	if tt, ok := t.(*types.Tuple); ok {
		r := make(Tuple, tt.Len())
		for i := range r {
			r[i] = x.zero(tt.At(i).Type())
		}
		return r
	}
	return x.zeroCell(t)
}

// ---------------------------------------------------------------- load / store

func (x *X) nilDeref(st *State) { panic(goPanic{st.pc, "nil pointer dereference"}) }

// goPanic: the executed code panics on the whole current path.
type goPanic struct {
	cond *Node
	msg  string
}

func (x *X) load(st *State, p V, t types.Type) V {
	switch q := p.(type) {
	case Ptr:
		if q.obj == 0 {
			x.nilDeref(st)
		}
		o := st.obj(q.obj)
		if o == nil {
			return x.loadExternal(st, q, t)
		}
		if st.gor != nil {
			st.gor.read(q, x.cellsOf(t))
		}
		if isAgg(t) {
			n := x.ti(t).n
			return &Agg{append([]V(nil), o.c[q.off:int(q.off)+n]...)}
		}
		return o.c[q.off]
	case *Mux:
		var r V
		for i := len(q.v) - 1; i >= 0; i-- {
			if pp, ok := q.v[i].(Ptr); ok && pp.obj == 0 {
				panic(engineLimit{"possibly-nil merged pointer"})
			}
			v := x.load(st, q.v[i], t)
			if r == nil {
				r = v
				continue
			}
			var ok bool
			r, ok = x.mergeV(q.g[i], v, r, false)
			if !ok {
				panic(engineLimit{"unmergeable values behind a merged pointer"})
			}
		}
		return r
	case *Ext:
		return &Ext{name: q.name + ".*", id: q.id, args: q.args}
	}
	panic(engineLimit{fmt.Sprintf("load through %T", p)})
}

func (x *X) cellsOf(t types.Type) int {
	if isAgg(t) {
		return x.ti(t).n
	}
	return 1
}

func (x *X) store(st *State, p V, v V) {
	switch q := p.(type) {
	case Ptr:
		if q.obj == 0 {
			x.nilDeref(st)
		}
		if st.gor != nil {
			n := 1
			if a, ok := v.(*Agg); ok {
				n = len(a.c)
			}
			st.gor.write(q, n)
		}
		o := st.wobj(q.obj)
		if a, ok := v.(*Agg); ok {
			copy(o.c[q.off:], a.c)
			return
		}
		o.c[q.off] = v
	case *Mux:
		for i, alt := range q.v {
			g := q.g[i]
			if x.m.And(st.pc, g) == x.m.F {
				continue
			}
			pp, ok := alt.(Ptr)
			if !ok || pp.obj == 0 {
				panic(engineLimit{"store through a merged pointer"})
			}
			if a, ok := v.(*Agg); ok {
				for j, c := range a.c {
					x.condStore(st, Ptr{pp.obj, pp.off + int32(j)}, g, c)
				}
			} else {
				x.condStore(st, pp, g, v)
			}
		}
	default:
		panic(engineLimit{fmt.Sprintf("store through %T", p)})
	}
}

func (x *X) condStore(st *State, p Ptr, g *Node, v V) {
	if st.gor != nil {
		st.gor.write(p, 1)
	}
	o := st.wobj(p.obj)
	r, ok := x.mergeV(g, v, o.c[p.off], false)
	if !ok {
		panic(engineLimit{"unmergeable conditional store"})
	}
	o.c[p.off] = r
}

// ---------------------------------------------------------------- equality of values

func sameV(a, b V) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	switch x := a.(type) {
	case *Node:
		y, ok := b.(*Node)
		return ok && x == y
	case Ptr:
		y, ok := b.(Ptr)
		return ok && x == y
	case *BV:
		y, ok := b.(*BV)
		if !ok || len(x.b) != len(y.b) {
			return false
		}
		if x == y {
			return true
		}
		for i := range x.b {
			if x.b[i] != y.b[i] {
				return false
			}
		}
		return true
	case *Str:
		y, ok := b.(*Str)
		if !ok {
			return false
		}
		if x == y {
			return true
		}
		if x.conc != y.conc || x.s != y.s || len(x.bytes) != len(y.bytes) || x.text != y.text || x.sym != y.sym || x.term != y.term || !sameV(x.runeN, y.runeN) {
			return false
		}
		for i := range x.bytes {
			if !sameV(x.bytes[i], y.bytes[i]) {
				return false
			}
		}
		return true
	case *Slice:
		y, ok := b.(*Slice)
		return ok && *x == *y
	case *Agg:
		y, ok := b.(*Agg)
		if !ok || len(x.c) != len(y.c) {
			return false
		}
		if x == y {
			return true
		}
		for i := range x.c {
			if !sameV(x.c[i], y.c[i]) {
				return false
			}
		}
		return true
	case Tuple:
		y, ok := b.(Tuple)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !sameV(x[i], y[i]) {
				return false
			}
		}
		return true
	case *Iface:
		y, ok := b.(*Iface)
		if !ok {
			return false
		}
		if x.t == nil || y.t == nil {
			return x.t == nil && y.t == nil
		}
		return types.Identical(x.t, y.t) && sameV(x.v, y.v)
	case *Clo:
		y, ok := b.(*Clo)
		if !ok {
			return false
		}
		if x == y {
			return true
		}
		if x.fn != y.fn || x.builtin != y.builtin || len(x.binds) != len(y.binds) || x.native != nil || y.native != nil {
			return false
		}
		for i := range x.binds {
			if !sameV(x.binds[i], y.binds[i]) {
				return false
			}
		}
		return true
	case MapV:
		y, ok := b.(MapV)
		return ok && x == y
	case ChanV:
		y, ok := b.(ChanV)
		return ok && x == y
	case *Ext:
		y, ok := b.(*Ext)
		return ok && (x == y || (x.name == y.name && x.id == y.id && len(x.args) == 0 && len(y.args) == 0))
	case *Rope:
		y, ok := b.(*Rope)
		return ok && x == y
	case *Mux:
		y, ok := b.(*Mux)
		if !ok || len(x.v) != len(y.v) {
			return false
		}
		if x == y {
			return true
		}
		for i := range x.v {
			if x.g[i] != y.g[i] || !sameV(x.v[i], y.v[i]) {
				return false
			}
		}
		return true
	case *Iter:
		y, ok := b.(*Iter)
		if !ok || x.pos != y.pos || x.str != y.str || x.isStr != y.isStr || x.text != y.text || x.seen != y.seen || len(x.keys) != len(y.keys) || len(x.bytes) != len(y.bytes) {
			return false
		}
		for i := range x.keys {
			if !sameV(x.keys[i], y.keys[i]) || !sameV(x.vals[i], y.vals[i]) {
				return false
			}
		}
		for i := range x.bytes {
			if !sameV(x.bytes[i], y.bytes[i]) {
				return false
			}
		}
		return true
	}
	return false
}

// ---------------------------------------------------------------- merging

// mergeV: value that is a when g holds and b otherwise.
func (x *X) mergeV(g *Node, a, b V, acc bool) (V, bool) {
	if sameV(a, b) {
		return a, true
	}
	if x.overlap == nil {
		if g == x.m.T {
			return a, true
		}
		if g == x.m.F {
			return b, true
		}
	}
	if a == nil || b == nil {
		return nil, true // dead value
	}
	if x.overlap != nil {
		switch a.(type) {
		case *Agg, Tuple, *Iface: // element-wise below
		default:
			if !x.agree(a, b) {
				return nil, false
			}
		}
	}
	switch p := a.(type) {
	case *Node:
		switch q := b.(type) {
		case *Node:
			if acc || (p.isLeaf() && q.isLeaf() && (p.leaf.kind == lkAcc || q.leaf.kind == lkAcc || p.leaf.kind == lkLin && len(p.leaf.lin.ts) > 3)) {
				if r := x.m.accMerge(g, p, q); r != nil {
					return r, true
				}
			}
			return x.m.ITE(g, p, q), true
		case *BV:
			pb := x.constBV(p, len(q.b))
			if pb == nil {
				return nil, false
			}
			return x.mergeV(g, pb, b, acc)
		}
	case *BV:
		q, ok := b.(*BV)
		if !ok {
			n, ok2 := b.(*Node)
			if !ok2 {
				return nil, false
			}
			q = x.constBV(n, len(p.b))
			if q == nil {
				return nil, false
			}
		}
		if len(q.b) != len(p.b) {
			return nil, false
		}
		r := make([]*Node, len(p.b))
		for i := range r {
			r[i] = x.m.ITE(g, p.b[i], q.b[i])
		}
		return &BV{r}, true
	case *Agg:
		q, ok := b.(*Agg)
		if !ok || len(q.c) != len(p.c) {
			return nil, false
		}
		r := make([]V, len(p.c))
		for i := range r {
			v, ok := x.mergeV(g, p.c[i], q.c[i], false)
			if !ok {
				return nil, false
			}
			r[i] = v
		}
		return &Agg{r}, true
	case Tuple:
		q, ok := b.(Tuple)
		if !ok || len(q) != len(p) {
			return nil, false
		}
		r := make(Tuple, len(p))
		for i := range r {
			v, ok := x.mergeV(g, p[i], q[i], false)
			if !ok {
				return nil, false
			}
			r[i] = v
		}
		return r, true
	case *Iface:
		if q, ok := b.(*Iface); ok && p.t != nil && q.t != nil && types.Identical(p.t, q.t) {
			v, ok := x.mergeV(g, p.v, q.v, false)
			if ok {
				return &Iface{p.t, v}, true
			}
		}
	case *Rope, *Iter:
		return nil, false
	case *Str:
		if q, ok := b.(*Str); ok && len(p.bytes) > 0 && len(p.bytes) == len(q.bytes) && p.text == nil && q.text == nil && !p.conc && !q.conc {
			r := &Str{bytes: make([]V, len(p.bytes))}
			for i := range r.bytes {
				v, ok := x.mergeV(g, p.bytes[i], q.bytes[i], false)
				if !ok {
					return nil, false
				}
				r.bytes[i] = v
			}
			return r, true
		}
	}
	if _, ok := b.(*Rope); ok {
		return nil, false
	}
	// references: guarded alternatives
	r := &Mux{}
	add := func(gg *Node, v V) {
		if gg == x.m.F {
			return
		}
		for i := range r.v {
			if sameV(r.v[i], v) {
				r.g[i] = x.m.Or(r.g[i], gg)
				return
			}
		}
		r.g = append(r.g, gg)
		r.v = append(r.v, v)
	}
	each := func(gg *Node, v V) {
		if mx, ok := v.(*Mux); ok {
			for i := range mx.v {
				add(x.m.And(gg, mx.g[i]), mx.v[i])
			}
			return
		}
		add(gg, v)
	}
	each(g, a)
	each(x.m.Not(g), b)
	if len(r.v) == 1 {
		return r.v[0], true
	}
	if len(r.v) > 64 {
		return nil, false
	}
	return r, true
}

func (x *X) constBV(n *Node, w int) *BV {
	ok := true
	var chk func(*Node)
	seen := map[uint32]bool{}
	chk = func(n *Node) {
		if seen[n.id] {
			return
		}
		seen[n.id] = true
		if n.isLeaf() {
			if !n.isConst() {
				ok = false
			}
			return
		}
		chk(n.lo)
		chk(n.hi)
	}
	chk(n)
	if !ok {
		return nil
	}
	b := make([]*Node, w)
	for i := range b {
		i := i
		b[i] = x.m.map1(x.m.bitOp(i), n, func(l *Node) *Node { return x.m.Int(l.leaf.c >> uint(i) & 1) })
	}
	return &BV{b}
}

// mergeStates merges b into a (returns a fresh state), or nil.
func (x *X) mergeStates(a, b *State, g *Node) *State {
	if a.tr != b.tr || a.nd != b.nd || a.gor != b.gor || len(a.stk) != len(b.stk) || !bndEq(a, b) {
		return nil
	}
	r := x.fork(a)
	r.pc = x.m.Or(a.pc, b.pc)
	if a.res != b.res {
		r.res = commonRes(a.res, b.res)
	}
	for i := range a.stk {
		oa, ob := a.stk[i], b.stk[i]
		if oa == ob {
			continue
		}
		if oa == nil || ob == nil {
			r.stk[i] = nil
			continue
		}
		o := x.mergeObj(r, oa, ob, g)
		if o == nil {
			return nil
		}
		r.stk[i] = o
	}
	n := len(b.tbl)
	for p := 0; p < n; p++ {
		pb := b.tbl[p]
		var pa *page
		if p < len(a.tbl) {
			pa = a.tbl[p]
		}
		if pa == pb || pb == nil {
			continue
		}
		for i := range pb.o {
			ob := pb.o[i]
			var oa *Obj
			if pa != nil {
				oa = pa.o[i]
			}
			if oa == ob || ob == nil {
				continue
			}
			id := int32(p<<pageBits + i)
			if oa == nil {
				r.setObj(id, ob)
				continue
			}
			o := x.mergeObj(r, oa, ob, g)
			if o == nil {
				return nil
			}
			r.setObj(id, o)
		}
	}
	return r
}

func commonRes(a, b *resEnt) *resEnt {
	in := map[*resEnt]bool{}
	for e := a; e != nil; e = e.prev {
		in[e] = true
	}
	for e := b; e != nil; e = e.prev {
		if in[e] {
			return e
		}
	}
	return nil
}

func (x *X) mergeObj(r *State, oa, ob *Obj, g *Node) *Obj {
	if len(oa.c) != len(ob.c) {
		return nil
	}
	o := &Obj{own: r.own, c: make([]V, len(oa.c)), t: oa.t, ext: oa.ext, ghost: oa.ghost}
	for i := range oa.c {
		v, ok := x.mergeV(g, oa.c[i], ob.c[i], false)
		if !ok {
			return nil
		}
		o.c[i] = v
	}
	if oa.ext != ob.ext {
		switch ea := oa.ext.(type) {
		case *MapData:
			eb, ok := ob.ext.(*MapData)
			if !ok || len(ea.keys) != len(eb.keys) {
				return nil
			}
			n := ea.clone()
			for k, i := range ea.idx {
				j, ok := eb.idx[k]
				if !ok {
					return nil
				}
				v, ok := x.mergeV(g, ea.vals[i], eb.vals[j], false)
				if !ok {
					return nil
				}
				n.vals[i] = v
			}
			o.ext = n
		case *ChanData:
			eb, ok := ob.ext.(*ChanData)
			if !ok || len(ea.q) != len(eb.q) || ea.closed != eb.closed {
				return nil
			}
			n := ea.clone()
			for i := range n.q {
				v, ok := x.mergeV(g, ea.q[i], eb.q[i], false)
				if !ok {
					return nil
				}
				n.q[i] = v
			}
			o.ext = n
		default:
			return nil
		}
	}
	return o
}

// ---------------------------------------------------------------- goroutine footprints

type gorCtx struct {
	rd, wr map[int32][]uint64
	lastR  int32
	lastRB []uint64
	locks  int
	late   bool    // accesses after WaitGroup.Done
	before *gorCtx // the same goroutine before Done
	first  int32   // objects allocated from here on are private
}

func (g *gorCtx) mark(m map[int32][]uint64, p Ptr, n int) []uint64 {
	b := m[p.obj]
	need := (int(p.off) + n + 63) / 64
	if len(b) < need {
		nb := make([]uint64, need+2)
		copy(nb, b)
		b = nb
		m[p.obj] = b
	}
	for i := int(p.off); i < int(p.off)+n; i++ {
		b[i>>6] |= 1 << uint(i&63)
	}
	return b
}

func (g *gorCtx) read(p Ptr, n int) {
	if p.obj < 0 || g.locks > 0 {
		return
	}
	if g.lastR == p.obj && int(p.off)+n <= len(g.lastRB)*64 {
		for i := int(p.off); i < int(p.off)+n; i++ {
			g.lastRB[i>>6] |= 1 << uint(i&63)
		}
		return
	}
	g.lastRB = g.mark(g.rd, p, n)
	g.lastR = p.obj
}

func (g *gorCtx) write(p Ptr, n int) {
	if p.obj < 0 || g.locks > 0 {
		return
	}
	g.mark(g.wr, p, n)
}

// conflict returns an object/cell both footprints touch, one of them writing.
func (g *gorCtx) conflict(h *gorCtx) (Ptr, bool) {
	chk := func(a, b map[int32][]uint64) (Ptr, bool) {
		for o, x := range a {
			y := b[o]
			for i := 0; i < len(x) && i < len(y); i++ {
				if v := x[i] & y[i]; v != 0 {
					for k := 0; k < 64; k++ {
						if v>>uint(k)&1 == 1 {
							return Ptr{o, int32(i*64 + k)}, true
						}
					}
				}
			}
		}
		return Ptr{}, false
	}
	if p, ok := chk(g.wr, h.wr); ok {
		return p, ok
	}
	if p, ok := chk(g.wr, h.rd); ok {
		return p, ok
	}
	return chk(g.rd, h.wr)
}

func sortedInts(m map[int]bool) []int {
	r := make([]int, 0, len(m))
	for k := range m {
		r = append(r, k)
	}
	sort.Ints(r)
	return r
}
