package main

// Scalar terms. Every scalar value of the verifier (bool, integer, float) is a
// hash-consed decision diagram: inner nodes branch on boolean variables (input
// bits or theory atoms such as "n - 17 <= 0"), leaves are constants or canonical
// symbolic expressions (linear integer forms, opaque terms). Boolean values are
// diagrams with leaves 0/1, so propositional reasoning is canonical.

import (
	"fmt"
	"math"
	"math/bits"
	"sort"
	"strconv"
	"strings"
)

const leafVar = math.MaxInt32

type leafKind uint8

const (
	lkConst leafKind = iota
	lkLin
	lkFloat
	lkTerm
	lkAcc
)

type Leaf struct {
	kind leafKind
	c    int64
	f    float64
	lin  *Lin
	term *Term
	acc  *Acc // lkAcc: acc + c
}

type Node struct {
	id     uint32
	v      int32
	lo, hi *Node
	leaf   *Leaf
	next   *Node
}

func (n *Node) isLeaf() bool  { return n.v == leafVar }
func (n *Node) isConst() bool { return n.v == leafVar && n.leaf.kind == lkConst }

// Term: opaque (uninterpreted) non-integer value, e.g. a symbolic float.
type Term struct {
	id   int
	op   string
	args []*Node
	key  string
}

// Atom: an integer-valued indivisible term inside linear forms.
type Atom struct {
	id     int
	kind   string // var, ind, div, mod, mul, uf, wrap, sum, f2i
	name   string
	args   []*Node // nodes (ind: the bool node; uf: args)
	lin    *Lin    // div/mod/sum/wrap operand
	lin2   *Lin
	k      int64 // div/mod divisor
	lo, hi int64 // static bounds (minInf/maxInf when unknown)
	split  bool  // comparisons on this variable are decided by interval case split
}

const (
	minInf = math.MinInt64
	maxInf = math.MaxInt64
)

type LT struct {
	a *Atom
	k int64
}

type Lin struct {
	id int
	c  int64
	ts []LT
}

type varKind uint8

const (
	vkBit  varKind = iota
	vkCmp          // lin <= 0
	vkPred         // uninterpreted predicate
)

type VarInfo struct {
	kind varKind
	name string
	lin  *Lin    // vkCmp
	args []*Node // vkPred
	node *Node
}

type opKey struct {
	op   uint32
	a, b uint32
}

type M struct {
	bvCache map[[2]uint32]*BV
	nextID  uint32
	table   []*Node
	mask    uint32
	count   int
	small   [4096]*Node // consts -1024..3071
	consts  map[int64]*Node
	floats  map[uint64]*Node
	vars    []VarInfo
	varIdx  map[string]int32

	iteCache []iteEnt
	opCache  []opEnt
	lins     map[string]*Lin
	linNodes map[int]*Node
	atoms    map[string]*Atom
	atomList []*Atom
	terms    map[string]*Term
	tnodes   map[int]*Node
	T, F     *Node
	ops      int64
	supCache map[uint32][]int32
	maxNodes int
	tick     func() // called now and then: time limit
	sumDiags map[int]*Node
	sumFails map[int]int
	care     *Node // union of the path conditions being merged
	accs     map[accKey]*Acc
	accNodes map[[2]int64]*Node
	accLins  map[uint32]*Lin
	bitOps   [64]uint32
	tokOps   [128][32]uint32
}

type iteEnt struct {
	f, g, h uint32
	r       *Node
}
type opEnt struct {
	k opKey
	r *Node
}

func NewM() *M {
	m := &M{}
	m.table = make([]*Node, 1<<16)
	m.mask = 1<<16 - 1
	m.consts = map[int64]*Node{}
	m.floats = map[uint64]*Node{}
	m.varIdx = map[string]int32{}
	m.iteCache = make([]iteEnt, 1<<17)
	m.opCache = make([]opEnt, 1<<17)
	m.lins = map[string]*Lin{}
	m.linNodes = map[int]*Node{}
	m.atoms = map[string]*Atom{}
	m.terms = map[string]*Term{}
	m.tnodes = map[int]*Node{}
	m.supCache = map[uint32][]int32{}
	m.sumDiags = map[int]*Node{}
	m.sumFails = map[int]int{}
	m.accs = map[accKey]*Acc{}
	m.accNodes = map[[2]int64]*Node{}
	m.accLins = map[uint32]*Lin{}
	m.nextID = 1
	m.maxNodes = 60_000_000
	m.F = m.Int(0)
	m.T = m.Int(1)
	return m
}

func (m *M) newLeaf(l *Leaf) *Node {
	m.nextID++
	return &Node{id: m.nextID, v: leafVar, leaf: l}
}

func (m *M) Int(c int64) *Node {
	if c >= -1024 && c < 3072 {
		n := m.small[c+1024]
		if n == nil {
			n = m.newLeaf(&Leaf{kind: lkConst, c: c})
			m.small[c+1024] = n
		}
		return n
	}
	n := m.consts[c]
	if n == nil {
		n = m.newLeaf(&Leaf{kind: lkConst, c: c})
		m.consts[c] = n
	}
	return n
}

func (m *M) Bool(b bool) *Node {
	if b {
		return m.T
	}
	return m.F
}

func (m *M) Float(f float64) *Node {
	k := math.Float64bits(f)
	n := m.floats[k]
	if n == nil {
		n = m.newLeaf(&Leaf{kind: lkFloat, f: f})
		m.floats[k] = n
	}
	return n
}

func (m *M) TermNode(op string, args ...*Node) *Node {
	var sb strings.Builder
	sb.WriteString(op)
	for _, a := range args {
		sb.WriteByte(',')
		sb.WriteString(strconv.Itoa(int(a.id)))
	}
	k := sb.String()
	t := m.terms[k]
	if t == nil {
		t = &Term{id: len(m.terms), op: op, args: append([]*Node(nil), args...), key: k}
		m.terms[k] = t
		m.tnodes[t.id] = m.newLeaf(&Leaf{kind: lkTerm, term: t})
	}
	return m.tnodes[t.id]
}

type engineLimit struct{ msg string }

func (e engineLimit) Error() string { return e.msg }

func (m *M) mk(v int32, lo, hi *Node) *Node {
	if lo == hi {
		return lo
	}
	h := (uint32(v)*0x9E3779B1 ^ lo.id*0x85EBCA6B ^ hi.id*0xC2B2AE35)
	h ^= h >> 15
	i := h & m.mask
	for n := m.table[i]; n != nil; n = n.next {
		if n.v == v && n.lo == lo && n.hi == hi {
			return n
		}
	}
	m.nextID++
	n := &Node{id: m.nextID, v: v, lo: lo, hi: hi, next: m.table[i]}
	m.table[i] = n
	m.count++
	if m.count > len(m.table)*2 {
		m.grow()
	}
	if m.count&0x3ffff == 0 && m.tick != nil {
		m.tick()
	}
	if m.count > m.maxNodes {
		panic(engineLimit{fmt.Sprintf("decision diagram limit (%d nodes) exceeded", m.maxNodes)})
	}
	return n
}

func (m *M) grow() {
	old := m.table
	m.table = make([]*Node, len(old)*4)
	m.mask = uint32(len(m.table) - 1)
	for _, n := range old {
		for n != nil {
			nx := n.next
			h := (uint32(n.v)*0x9E3779B1 ^ n.lo.id*0x85EBCA6B ^ n.hi.id*0xC2B2AE35)
			h ^= h >> 15
			i := h & m.mask
			n.next = m.table[i]
			m.table[i] = n
			n = nx
		}
	}
}

// NewBit creates (or returns) the boolean input variable called name.
func (m *M) NewBit(name string) *Node {
	return m.varNode("b:"+name, VarInfo{kind: vkBit, name: name})
}

func (m *M) varNode(key string, vi VarInfo) *Node {
	if i, ok := m.varIdx[key]; ok {
		return m.vars[i].node
	}
	i := int32(len(m.vars))
	vi.node = m.mk(i, m.F, m.T)
	m.vars = append(m.vars, vi)
	m.varIdx[key] = i
	return vi.node
}

// Pred is an uninterpreted predicate atom.
func (m *M) Pred(name string, args ...*Node) *Node {
	k := "p:" + name
	for _, a := range args {
		k += "," + strconv.Itoa(int(a.id))
	}
	return m.varNode(k, VarInfo{kind: vkPred, name: name, args: append([]*Node(nil), args...)})
}

func (m *M) ITE(f, g, h *Node) *Node {
	if f == m.T {
		return g
	}
	if f == m.F {
		return h
	}
	if g == h {
		return g
	}
	if g == m.T && h == m.F {
		return f
	}
	if f == g {
		g = m.T
	} else if f == h {
		h = m.F
	}
	if g == h {
		return g
	}
	if g == m.T && h == m.F {
		return f
	}
	x := (f.id*0x9E3779B1 ^ g.id*0x85EBCA6B ^ h.id*0xC2B2AE35)
	x ^= x >> 13
	e := &m.iteCache[x&uint32(len(m.iteCache)-1)]
	if e.r != nil && e.f == f.id && e.g == g.id && e.h == h.id {
		return e.r
	}
	m.ops++
	v := f.v
	if g.v < v {
		v = g.v
	}
	if h.v < v {
		v = h.v
	}
	if v == leafVar {
		panic(engineLimit{"ITE on a non-boolean condition leaf"})
	}
	f0, f1 := f, f
	if f.v == v {
		f0, f1 = f.lo, f.hi
	}
	g0, g1 := g, g
	if g.v == v {
		g0, g1 = g.lo, g.hi
	}
	h0, h1 := h, h
	if h.v == v {
		h0, h1 = h.lo, h.hi
	}
	lo := m.ITE(f0, g0, h0)
	hi := m.ITE(f1, g1, h1)
	r := m.mk(v, lo, hi)
	*e = iteEnt{f.id, g.id, h.id, r}
	return r
}

func (m *M) Not(a *Node) *Node       { return m.ITE(a, m.F, m.T) }
func (m *M) And(a, b *Node) *Node    { return m.ITE(a, b, m.F) }
func (m *M) Or(a, b *Node) *Node     { return m.ITE(a, m.T, b) }
func (m *M) Xor(a, b *Node) *Node    { return m.ITE(a, m.Not(b), b) }
func (m *M) Iff(a, b *Node) *Node    { return m.ITE(a, b, m.Not(b)) }
func (m *M) Impl(a, b *Node) *Node   { return m.ITE(a, b, m.T) }
func (m *M) AndNot(a, b *Node) *Node { return m.ITE(b, m.F, a) }

// Restrict simplifies f using the care set c (result agrees with f wherever c holds).
func (m *M) Restrict(f, c *Node) *Node {
	if c == m.F || c == m.T || f.isLeaf() {
		return f
	}
	memo := map[[2]uint32]*Node{}
	var rec func(f, c *Node) *Node
	rec = func(f, c *Node) *Node {
		if c == m.T || f.isLeaf() {
			return f
		}
		k := [2]uint32{f.id, c.id}
		if r, ok := memo[k]; ok {
			return r
		}
		var r *Node
		if c.v < f.v {
			r = rec(f, m.Or(c.lo, c.hi))
		} else {
			c0, c1 := c, c
			if c.v == f.v {
				c0, c1 = c.lo, c.hi
			}
			if c0 == m.F {
				r = rec(f.hi, c1)
			} else if c1 == m.F {
				r = rec(f.lo, c0)
			} else {
				r = m.mk(f.v, rec(f.lo, c0), rec(f.hi, c1))
			}
		}
		memo[k] = r
		return r
	}
	return rec(f, c)
}

// map1 applies fn to every leaf of a; memoised under op.
func (m *M) map1(op uint32, a *Node, fn func(*Node) *Node) *Node {
	if a.isLeaf() {
		return fn(a)
	}
	k := opKey{op, a.id, 0}
	e := m.opEnt(k)
	if e.r != nil && e.k == k {
		return e.r
	}
	lo := m.map1(op, a.lo, fn)
	hi := m.map1(op, a.hi, fn)
	r := m.join(a.v, lo, hi)
	e = m.opEnt(k)
	*e = opEnt{k, r}
	return r
}

func (m *M) opEnt(k opKey) *opEnt {
	x := k.op*0x9E3779B1 ^ k.a*0x85EBCA6B ^ k.b*0xC2B2AE35
	x ^= x >> 14
	return &m.opCache[x&uint32(len(m.opCache)-1)]
}

// join builds "if v then hi else lo" when the branches may contain variables above v.
func (m *M) join(v int32, lo, hi *Node) *Node {
	if lo.v > v && hi.v > v {
		return m.mk(v, lo, hi)
	}
	return m.ITE(m.vars[v].node, hi, lo)
}

func (m *M) map2(op uint32, a, b *Node, fn func(a, b *Node) *Node) *Node {
	if a.isLeaf() && b.isLeaf() {
		return fn(a, b)
	}
	k := opKey{op, a.id, b.id}
	e := m.opEnt(k)
	if e.r != nil && e.k == k {
		return e.r
	}
	m.ops++
	v := a.v
	if b.v < v {
		v = b.v
	}
	a0, a1 := a, a
	if a.v == v {
		a0, a1 = a.lo, a.hi
	}
	b0, b1 := b, b
	if b.v == v {
		b0, b1 = b.lo, b.hi
	}
	lo := m.map2(op, a0, b0, fn)
	hi := m.map2(op, a1, b1, fn)
	r := m.join(v, lo, hi)
	e = m.opEnt(k)
	*e = opEnt{k, r}
	return r
}

// Support returns the sorted variable indexes n depends on.
func (m *M) Support(n *Node) []int32 {
	if n.isLeaf() {
		return nil
	}
	if s, ok := m.supCache[n.id]; ok {
		return s
	}
	seen := map[uint32]bool{}
	vs := map[int32]bool{}
	var rec func(*Node)
	rec = func(n *Node) {
		if n.isLeaf() || seen[n.id] {
			return
		}
		seen[n.id] = true
		vs[n.v] = true
		rec(n.lo)
		rec(n.hi)
	}
	rec(n)
	out := make([]int32, 0, len(vs))
	for v := range vs {
		out = append(out, v)
	}
	sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
	if len(seen) > 8 {
		m.supCache[n.id] = out
	}
	return out
}

func (m *M) Size(n *Node) int {
	seen := map[uint32]bool{}
	var rec func(*Node)
	rec = func(n *Node) {
		if seen[n.id] {
			return
		}
		seen[n.id] = true
		if !n.isLeaf() {
			rec(n.lo)
			rec(n.hi)
		}
	}
	rec(n)
	return len(seen)
}

// sizeAtMost reports whether n has at most k nodes (cheap early exit).
func (m *M) sizeAtMost(n *Node, k int) bool {
	seen := map[uint32]bool{}
	var rec func(*Node) bool
	rec = func(n *Node) bool {
		if seen[n.id] {
			return true
		}
		seen[n.id] = true
		if len(seen) > k {
			return false
		}
		if !n.isLeaf() {
			return rec(n.lo) && rec(n.hi)
		}
		return true
	}
	return rec(n)
}

// Leaves lists the distinct leaves of n.
func (m *M) Leaves(n *Node) []*Node {
	seen := map[uint32]bool{}
	var out []*Node
	var rec func(*Node)
	rec = func(n *Node) {
		if seen[n.id] {
			return
		}
		seen[n.id] = true
		if n.isLeaf() {
			out = append(out, n)
			return
		}
		rec(n.lo)
		rec(n.hi)
	}
	rec(n)
	return out
}

// When returns the condition under which n has leaf l.
func (m *M) When(n, l *Node) *Node {
	memo := map[uint32]*Node{}
	var rec func(*Node) *Node
	rec = func(x *Node) *Node {
		if x.isLeaf() {
			return m.Bool(x == l)
		}
		if r, ok := memo[x.id]; ok {
			return r
		}
		r := m.mk(x.v, rec(x.lo), rec(x.hi))
		memo[x.id] = r
		return r
	}
	return rec(n)
}

// ---------------------------------------------------------------- linear forms

func (m *M) mkLin(c int64, ts []LT) *Lin {
	// ts sorted by atom id, no zero coefs
	var buf [256]byte
	b := strconv.AppendInt(buf[:0], c, 36)
	for _, t := range ts {
		b = append(b, ',')
		b = strconv.AppendInt(b, int64(t.a.id), 36)
		b = append(b, '*')
		b = strconv.AppendInt(b, t.k, 36)
	}
	if l, ok := m.lins[string(b)]; ok {
		return l
	}
	l := &Lin{id: len(m.lins), c: c, ts: append([]LT(nil), ts...)}
	m.lins[string(b)] = l
	return l
}

func (m *M) linNode(l *Lin) *Node {
	if len(l.ts) == 0 {
		return m.Int(l.c)
	}
	n := m.linNodes[l.id]
	if n == nil {
		n = m.newLeaf(&Leaf{kind: lkLin, lin: l})
		m.linNodes[l.id] = n
	}
	return n
}

func (m *M) leafLin(n *Node) *Lin {
	switch n.leaf.kind {
	case lkConst:
		return m.mkLin(n.leaf.c, nil)
	case lkLin:
		return n.leaf.lin
	case lkAcc:
		return m.accLin(n)
	}
	panic(engineLimit{"integer operation on a non-integer term"})
}

func (m *M) linComb(a *Lin, ka int64, b *Lin, kb int64) *Lin {
	var ts []LT
	i, j := 0, 0
	for i < len(a.ts) || j < len(b.ts) {
		switch {
		case j >= len(b.ts) || (i < len(a.ts) && a.ts[i].a.id < b.ts[j].a.id):
			if k := a.ts[i].k * ka; k != 0 {
				ts = append(ts, LT{a.ts[i].a, k})
			}
			i++
		case i >= len(a.ts) || b.ts[j].a.id < a.ts[i].a.id:
			if k := b.ts[j].k * kb; k != 0 {
				ts = append(ts, LT{b.ts[j].a, k})
			}
			j++
		default:
			if k := a.ts[i].k*ka + b.ts[j].k*kb; k != 0 {
				ts = append(ts, LT{a.ts[i].a, k})
			}
			i++
			j++
		}
	}
	return m.mkLin(a.c*ka+b.c*kb, ts)
}

func satMul(a, b int64) int64 {
	if a == 0 || b == 0 {
		return 0
	}
	if a == minInf || a == maxInf || b == minInf || b == maxInf {
		if (a < 0) == (b < 0) {
			return maxInf
		}
		return minInf
	}
	hi, lo := bits.Mul64(uint64(abs64(a)), uint64(abs64(b)))
	if hi != 0 || lo > math.MaxInt64 {
		if (a < 0) == (b < 0) {
			return maxInf
		}
		return minInf
	}
	return a * b
}

func abs64(a int64) int64 {
	if a < 0 {
		return -a
	}
	return a
}

func satAdd(a, b int64) int64 {
	if a == minInf || b == minInf {
		return minInf
	}
	if a == maxInf || b == maxInf {
		return maxInf
	}
	s := a + b
	if a > 0 && b > 0 && s < 0 {
		return maxInf
	}
	if a < 0 && b < 0 && s >= 0 {
		return minInf
	}
	return s
}

type boundsFn func(*Atom) (int64, int64)

func staticBounds(a *Atom) (int64, int64) { return a.lo, a.hi }

func linBounds(l *Lin, bf boundsFn) (lo, hi int64) {
	lo, hi = l.c, l.c
	for _, t := range l.ts {
		al, ah := bf(t.a)
		if t.k > 0 {
			lo = satAdd(lo, satMul(al, t.k))
			hi = satAdd(hi, satMul(ah, t.k))
		} else {
			lo = satAdd(lo, satMul(ah, t.k))
			hi = satAdd(hi, satMul(al, t.k))
		}
	}
	return
}

func (m *M) atom(key string, mk func() *Atom) *Atom {
	a := m.atoms[key]
	if a == nil {
		a = mk()
		a.id = len(m.atomList)
		m.atoms[key] = a
		m.atomList = append(m.atomList, a)
	}
	return a
}

func (m *M) atomNode(a *Atom) *Node { return m.linNode(m.mkLin(0, []LT{{a, 1}})) }

// IntVar is an integer input variable with static bounds.
func (m *M) IntVar(name string, lo, hi int64, split bool) *Node {
	return m.atomNode(m.atom(fmt.Sprintf("v:%s:%d:%d:%v", name, lo, hi, split), func() *Atom {
		return &Atom{kind: "var", name: name, lo: lo, hi: hi, split: split}
	}))
}

// UF is an uninterpreted integer function application.
func (m *M) UF(name string, lo, hi int64, args ...*Node) *Node {
	k := "u:" + name
	for _, a := range args {
		k += "," + strconv.Itoa(int(a.id))
	}
	return m.atomNode(m.atom(k, func() *Atom {
		return &Atom{kind: "uf", name: name, args: append([]*Node(nil), args...), lo: lo, hi: hi}
	}))
}

// Ind is the 0/1 integer value of a boolean node, kept as a linear atom.
func (m *M) Ind(b *Node) *Node {
	if b == m.T || b == m.F {
		return b
	}
	return m.atomNode(m.atom("i:"+strconv.Itoa(int(b.id)), func() *Atom {
		return &Atom{kind: "ind", args: []*Node{b}, lo: 0, hi: 1}
	}))
}

func gcd64(a, b int64) int64 {
	a, b = abs64(a), abs64(b)
	for b != 0 {
		a, b = b, a%b
	}
	return a
}

// cutSum replaces a long linear form by one atom (so that non-linear operators
// applied to it by code and by specification meet in the same term).
func (m *M) cutSum(l *Lin) *Lin {
	if len(l.ts) <= 4 {
		return l
	}
	g := int64(0)
	for _, t := range l.ts {
		g = gcd64(g, t.k)
	}
	if l.ts[0].k < 0 {
		g = -g
	}
	ts := make([]LT, len(l.ts))
	for i, t := range l.ts {
		ts[i] = LT{t.a, t.k / g}
	}
	base := m.mkLin(0, ts)
	lo, hi := linBounds(base, staticBounds)
	a := m.atom("s:"+strconv.Itoa(base.id), func() *Atom {
		return &Atom{kind: "sum", lin: base, lo: lo, hi: hi}
	})
	return m.mkLin(l.c, []LT{{a, g}})
}

func floorDiv(a, b int64) int64 {
	q := a / b
	if a%b != 0 && (a < 0) != (b < 0) {
		q--
	}
	return q
}

// divLin: Go truncated division of a linear form by a positive constant.
func (m *M) divLin(l *Lin, k int64) *Node {
	if k == 1 {
		return m.linNode(l)
	}
	l = m.cutSum(l)
	if l.c%k == 0 {
		exact := true
		for _, t := range l.ts {
			exact = exact && t.k%k == 0
		}
		if exact {
			q := make([]LT, len(l.ts))
			for i, t := range l.ts {
				q[i] = LT{t.a, t.k / k}
			}
			return m.linNode(m.mkLin(l.c/k, q))
		}
	}
	lo, _ := linBounds(l, staticBounds)
	if lo >= 0 {
		// pull out multiples of k (valid for floor division; the rest must stay >= 0)
		var q, r []LT
		for _, t := range l.ts {
			qq := floorDiv(t.k, k)
			if t.k-qq*k != 0 {
				r = append(r, LT{t.a, t.k - qq*k})
			}
			if qq != 0 {
				q = append(q, LT{t.a, qq})
			}
		}
		qc := floorDiv(l.c, k)
		rest := m.mkLin(l.c-qc*k, r)
		whole := m.mkLin(qc, q)
		rl, rh := linBounds(rest, staticBounds)
		if s := floorDiv(rl, k); s > 0 && rl < 1<<60 {
			// the constant part may carry whole multiples as well
			rest = m.linComb(rest, 1, m.mkLin(s*k, nil), -1)
			whole = m.linComb(whole, 1, m.mkLin(s, nil), 1)
			rl, rh = linBounds(rest, staticBounds)
		}
		if rl >= 0 {
			if rh < k {
				return m.linNode(whole)
			}
			a := m.atom(fmt.Sprintf("d:%d:%d", rest.id, k), func() *Atom {
				h := int64(maxInf)
				if rh != maxInf {
					h = rh / k
				}
				return &Atom{kind: "div", lin: rest, k: k, lo: 0, hi: h}
			})
			return m.linNode(m.linComb(whole, 1, m.mkLin(0, []LT{{a, 1}}), 1))
		}
	}
	a := m.atom(fmt.Sprintf("td:%d:%d", l.id, k), func() *Atom {
		bl, bh := linBounds(l, staticBounds)
		lo2, hi2 := int64(minInf), int64(maxInf)
		if bl != minInf {
			lo2 = bl / k
		}
		if bh != maxInf {
			hi2 = bh / k
		}
		return &Atom{kind: "tdiv", lin: l, k: k, lo: lo2, hi: hi2}
	})
	return m.atomNode(a)
}

// ---------------------------------------------------------------- comparisons

// leZero: boolean node for l <= 0.
func (m *M) leZero(l *Lin) *Node {
	if len(l.ts) == 0 {
		return m.Bool(l.c <= 0)
	}
	lo, hi := linBounds(l, staticBounds)
	if hi <= 0 {
		return m.T
	}
	if lo > 0 {
		return m.F
	}
	if len(l.ts) > 64 {
		l = m.cutSum(l)
	}
	g := int64(0)
	for _, t := range l.ts {
		g = gcd64(g, t.k)
	}
	if g > 1 {
		ts := make([]LT, len(l.ts))
		for i, t := range l.ts {
			ts[i] = LT{t.a, t.k / g}
		}
		// sum ts <= floor(-c/g)
		l = m.mkLin(-floorDiv(-l.c, g), ts)
	}
	if l.ts[0].k < 0 {
		// not( -l + 1 <= 0 )
		nl := m.linComb(l, -1, m.mkLin(1, nil), 1)
		return m.Not(m.cmpVar(nl))
	}
	return m.cmpVar(l)
}

func (m *M) cmpVar(l *Lin) *Node {
	return m.varNode("c:"+strconv.Itoa(l.id), VarInfo{kind: vkCmp, name: "cmp", lin: l})
}

func (m *M) leafLE(a, b *Node) *Node { // a <= b
	return m.leZero(m.linComb(m.leafLin(a), 1, m.leafLin(b), -1))
}

func (m *M) leafEQ(a, b *Node) *Node {
	if a == b {
		return m.T
	}
	if a.leaf.kind == lkTerm || b.leaf.kind == lkTerm || a.leaf.kind == lkFloat || b.leaf.kind == lkFloat {
		if a.leaf.kind == lkFloat && b.leaf.kind == lkFloat {
			return m.Bool(a.leaf.f == b.leaf.f)
		}
		if a.id > b.id {
			a, b = b, a
		}
		return m.Pred("feq", a, b)
	}
	d := m.linComb(m.leafLin(a), 1, m.leafLin(b), -1)
	if len(d.ts) == 0 {
		return m.Bool(d.c == 0)
	}
	g := int64(0)
	for _, t := range d.ts {
		g = gcd64(g, t.k)
	}
	if g > 1 && d.c%g != 0 {
		return m.F
	}
	lo, hi := linBounds(d, staticBounds)
	if lo > 0 || hi < 0 {
		return m.F
	}
	if s := m.sumDiag(d, 20000); s != nil {
		return m.map1(m.opID("zero?"), s, func(l *Node) *Node { return m.Bool(l.leaf.c == 0) })
	}
	return m.And(m.leZero(d), m.leZero(m.linComb(d, -1, m.mkLin(0, nil), 0)))
}

func (m *M) linStr(l *Lin) string {
	var sb strings.Builder
	fmt.Fprintf(&sb, "%d", l.c)
	for i, t := range l.ts {
		if i > 12 {
			fmt.Fprintf(&sb, " + ...(%d terms)", len(l.ts))
			break
		}
		fmt.Fprintf(&sb, " + %d*%s", t.k, m.atomStr(t.a))
	}
	return sb.String()
}

func (m *M) atomStr(a *Atom) string {
	switch a.kind {
	case "var":
		return a.name
	case "ind":
		return "[" + m.str(a.args[0], 3) + "]"
	case "div", "mod", "sum", "wrap", "tdiv", "tmod":
		return a.kind + "(" + m.linStr(a.lin) + "," + strconv.FormatInt(a.k, 10) + ")"
	case "mul":
		return "(" + m.linStr(a.lin) + ")*(" + m.linStr(a.lin2) + ")"
	}
	s := a.name + "("
	for i, x := range a.args {
		if i > 0 {
			s += ","
		}
		s += m.str(x, 2)
	}
	return s + ")"
}

func (m *M) str(n *Node, depth int) string {
	if n.isLeaf() {
		switch n.leaf.kind {
		case lkConst:
			return strconv.FormatInt(n.leaf.c, 10)
		case lkLin:
			return m.linStr(n.leaf.lin)
		case lkAcc:
			return "acc " + m.linStr(m.accLin(n))
		case lkFloat:
			return strconv.FormatFloat(n.leaf.f, 'g', -1, 64)
		default:
			s := n.leaf.term.op + "("
			for i, x := range n.leaf.term.args {
				if i > 0 {
					s += ","
				}
				s += m.str(x, depth-1)
			}
			return s + ")"
		}
	}
	if depth <= 0 {
		return fmt.Sprintf("#%d", n.id)
	}
	return "(" + m.varStr(n.v) + " ? " + m.str(n.hi, depth-1) + " : " + m.str(n.lo, depth-1) + ")"
}

func (m *M) varStr(v int32) string {
	vi := m.vars[v]
	switch vi.kind {
	case vkBit:
		return vi.name
	case vkCmp:
		return m.linStr(vi.lin) + "<=0"
	}
	s := vi.name + "("
	for i, x := range vi.args {
		if i > 0 {
			s += ","
		}
		s += m.str(x, 2)
	}
	return s + ")"
}

// ---------------------------------------------------------------- accumulators

// Acc is a long integer sum kept as a hash-consed snoc list (no cost for
// re-sorting at every addition); it is put in canonical order when compared.
type Acc struct {
	id   int64
	prev *Acc
	a    *Atom
	k    int64
	n    int
}

type accKey struct {
	prev int64
	atom int
	k    int64
}

func (m *M) accSnoc(p *Acc, a *Atom, k int64) *Acc {
	if k == 0 {
		return p
	}
	key := accKey{0, a.id, k}
	n := 1
	if p != nil {
		key.prev = p.id
		n = p.n + 1
	}
	r := m.accs[key]
	if r == nil {
		r = &Acc{id: int64(len(m.accs)) + 1, prev: p, a: a, k: k, n: n}
		m.accs[key] = r
	}
	return r
}

func (m *M) accNode(a *Acc, c int64) *Node {
	if a == nil {
		return m.Int(c)
	}
	k := [2]int64{a.id, c}
	n := m.accNodes[k]
	if n == nil {
		n = m.newLeaf(&Leaf{kind: lkAcc, acc: a, c: c})
		m.accNodes[k] = n
	}
	return n
}

func (m *M) accOf(n *Node) (*Acc, int64) {
	switch n.leaf.kind {
	case lkConst:
		return nil, n.leaf.c
	case lkAcc:
		return n.leaf.acc, n.leaf.c
	case lkLin:
		var a *Acc
		for _, t := range n.leaf.lin.ts {
			a = m.accSnoc(a, t.a, t.k)
		}
		return a, n.leaf.lin.c
	}
	panic(engineLimit{"integer operation on a non-integer term"})
}

func (a *Acc) terms() []LT {
	if a == nil {
		return nil
	}
	r := make([]LT, a.n)
	for i := a.n - 1; a != nil; a, i = a.prev, i-1 {
		r[i] = LT{a.a, a.k}
	}
	return r
}

func normTerms(ts []LT) []LT {
	sort.SliceStable(ts, func(i, j int) bool { return ts[i].a.id < ts[j].a.id })
	out := ts[:0]
	for _, t := range ts {
		if len(out) > 0 && out[len(out)-1].a == t.a {
			out[len(out)-1].k += t.k
			continue
		}
		if len(out) > 0 && out[len(out)-1].k == 0 {
			out = out[:len(out)-1]
		}
		out = append(out, t)
	}
	if len(out) > 0 && out[len(out)-1].k == 0 {
		out = out[:len(out)-1]
	}
	return out
}

func (m *M) accLin(n *Node) *Lin {
	if l, ok := m.accLins[n.id]; ok {
		return l
	}
	l := m.mkLin(n.leaf.c, normTerms(n.leaf.acc.terms()))
	m.accLins[n.id] = l
	return l
}

func (m *M) accAdd(p, q *Node, sub bool) *Node {
	pa, pc := m.accOf(p)
	qa, qc := m.accOf(q)
	s := int64(1)
	if sub {
		s = -1
	}
	if !sub && pa != nil && qa != nil && qa.n > pa.n || pa == nil && !sub {
		pa, qa = qa, pa
	}
	for _, t := range qa.terms() {
		pa = m.accSnoc(pa, t.a, s*t.k)
	}
	return m.accNode(pa, pc+s*qc)
}

func (m *M) accMul(p *Node, c int64) *Node {
	pa, pc := m.accOf(p)
	var r *Acc
	for _, t := range pa.terms() {
		r = m.accSnoc(r, t.a, t.k*c)
	}
	return m.accNode(r, pc*c)
}

// snocInd adds k*[b], written with the negation of b where b holds for all inputs zero:
// equal sums get equal terms.
func (m *M) snocInd(r *Acc, c *int64, b *Node, k int64) *Acc {
	n := b
	for !n.isLeaf() {
		n = n.lo
	}
	if n == m.T {
		*c += k
		b, k = m.Not(b), -k
	}
	return m.accSnoc(r, m.indAtom(b), k)
}

func (m *M) indAtom(b *Node) *Atom {
	n := m.Ind(b)
	return n.leaf.lin.ts[0].a
}

// accMerge builds the sum that equals p when g holds and q otherwise, adding
// indicator terms instead of branching; nil when that is not possible.
func (m *M) accMerge(g, p, q *Node) *Node {
	if !p.isLeaf() || !q.isLeaf() || p.leaf.kind == lkFloat || p.leaf.kind == lkTerm || q.leaf.kind == lkFloat || q.leaf.kind == lkTerm {
		return nil
	}
	pa, pc := m.accOf(p)
	qa, qc := m.accOf(q)
	anc, an := pa, 0
	bnc, bn := qa, 0
	for anc != bnc {
		na, nb := 0, 0
		if anc != nil {
			na = anc.n
		}
		if bnc != nil {
			nb = bnc.n
		}
		if na >= nb {
			if anc.a.kind != "ind" {
				return nil
			}
			anc = anc.prev
			an++
		} else {
			if bnc.a.kind != "ind" {
				return nil
			}
			bnc = bnc.prev
			bn++
		}
		if an+bn > 256 {
			return nil
		}
	}
	tail := func(p *Acc) []LT {
		if anc == nil || p == nil {
			return p.terms()
		}
		r := make([]LT, p.n-anc.n)
		for i := len(r) - 1; i >= 0; i, p = i-1, p.prev {
			r[i] = LT{p.a, p.k}
		}
		return r
	}
	ta, tb := tail(pa), tail(qa)
	// terms both sums have, in whatever order
	r := anc
	at := map[LT]int{}
	for _, t := range tb {
		at[t]++
	}
	var xa []LT
	for _, t := range ta {
		if at[t] > 0 {
			at[t]--
			r = m.accSnoc(r, t.a, t.k)
		} else {
			xa = append(xa, t)
		}
	}
	byK := map[int64][]*Node{} // what is left of the second sum, by coefficient
	var ks []int64
	for i := len(tb) - 1; i >= 0; i-- {
		if t := tb[i]; at[t] > 0 {
			at[t]--
			if len(byK[t.k]) == 0 {
				ks = append(ks, t.k)
			}
			byK[t.k] = append(byK[t.k], t.a.args[0])
		}
	}
	if m.care != nil && len(xa)+len(ks) > 0 && (len(ks) > 0 || len(xa) > 1 || xa[0].a != nil) {
		// the two sums differ by something that depends on few inputs: correct one
		var d *Lin
		ts := append([]LT(nil), xa...)
		for _, k := range ks {
			for _, q := range byK[k] {
				ts = append(ts, LT{m.indAtom(q), -k})
			}
		}
		if len(ts) <= 64 {
			d = m.mkLin(pc-qc, normTerms(ts))
			if D := m.sumDiag(d, 2000); D != nil {
				cp := m.Restrict(m.ITE(g, m.Int(0), m.map1(m.opID("neg"), D, func(l *Node) *Node { return m.Int(-l.leaf.c) })), m.care)
				cq := m.Restrict(m.ITE(g, D, m.Int(0)), m.care)
				base := p
				if m.Size(cq) < m.Size(cp) {
					base, cp = q, cq
				}
				if cp = m.toAcc(cp); cp != nil {
					return m.accAdd(base, cp, false)
				}
			}
		}
	}
	c := qc
	if d := pc - qc; d != 0 {
		xa = append(xa, LT{nil, d})
	}
	for i := len(xa) - 1; i >= 0; i-- {
		t := xa[i]
		p, q := m.T, m.F
		if t.a != nil {
			p = t.a.args[0]
		}
		if l := byK[t.k]; len(l) > 0 {
			q = l[0]
			byK[t.k] = l[1:]
		}
		switch b := m.ITE(g, p, q); b {
		case m.F:
		case m.T:
			c += t.k
		default:
			r = m.snocInd(r, &c, b, t.k)
		}
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i] < ks[j] })
	for _, k := range ks {
		for _, q := range byK[k] {
			if b := m.ITE(g, m.F, q); b != m.F {
				r = m.snocInd(r, &c, b, k)
			}
		}
	}
	return m.accNode(r, c)
}

func (m *M) bitOp(i int) uint32 {
	if m.bitOps[i] == 0 {
		m.bitOps[i] = m.opID(fmt.Sprintf("bit%d", i))
	}
	return m.bitOps[i]
}

// toAcc turns a diagram with constant leaves into a sum of indicators.
func (m *M) toAcc(n *Node) *Node {
	if n.isLeaf() {
		return n
	}
	var r *Acc
	base := int64(math.MaxInt64)
	ls := m.Leaves(n)
	for _, l := range ls {
		if !l.isConst() {
			return nil
		}
		if l.leaf.c < base {
			base = l.leaf.c
		}
	}
	sort.Slice(ls, func(i, j int) bool { return ls[i].leaf.c < ls[j].leaf.c })
	b0 := base
	for _, l := range ls {
		if l.leaf.c != b0 {
			r = m.snocInd(r, &base, m.When(n, l), l.leaf.c-b0)
		}
	}
	return m.accNode(r, base)
}

// sumDiag is the diagram of a sum of indicators of input bits: exact, or nil when it
// would be larger than budget. Terms that share inputs are added next to each other,
// so that sums which agree cancel early.
func (m *M) sumDiag(l *Lin, budget int) *Node {
	if len(l.ts) > 2000000 {
		return nil
	}
	if r, ok := m.sumDiags[l.id]; ok {
		return r
	}
	if m.sumFails[l.id] >= budget {
		return nil
	}
	m.sumFails[l.id] = budget
	sups := make([][]int32, len(l.ts))
	byVar := map[int32][]int{}
	for i, t := range l.ts {
		if t.a.kind != "ind" {
			return nil
		}
		sups[i] = m.Support(t.a.args[0])
		for _, v := range sups[i] {
			if m.vars[v].kind != vkBit {
				return nil
			}
			byVar[v] = append(byVar[v], i)
		}
	}
	add := m.opID("sumadd")
	done := make([]bool, len(l.ts))
	d := m.Int(l.c)
	order := make([]int, len(l.ts)) // large terms first
	for i := range order {
		order[i] = i
	}
	sort.SliceStable(order, func(a, b int) bool { return len(sups[order[a]]) > len(sups[order[b]]) })
	plus := func(i int) *Node {
		t := l.ts[i]
		return m.map2(add, d, m.ITE(t.a.args[0], m.Int(t.k), m.F), func(a, b *Node) *Node { return m.Int(a.leaf.c + b.leaf.c) })
	}
	next := 0
	for left := len(l.ts); left > 0; left-- {
		best, bestQ := -1, -1.0
		var sub []int // terms over inputs that are there already
		if !d.isLeaf() {
			in := map[int32]bool{}
			for _, v := range m.Support(d) {
				in[v] = true
			}
			seen := map[int]bool{}
			for _, v := range m.Support(d) {
				for _, i := range byVar[v] {
					if done[i] || seen[i] {
						continue
					}
					seen[i] = true
					k := 0
					for _, w := range sups[i] {
						if in[w] {
							k++
						}
					}
					if k == len(sups[i]) {
						sub = append(sub, i)
					}
					q := float64(k) / float64(len(sups[i]))
					if q > bestQ || q == bestQ && (len(sups[i]) > len(sups[best]) || len(sups[i]) == len(sups[best]) && i < best) {
						best, bestQ = i, q
					}
				}
			}
		}
		if best < 0 {
			for done[order[next]] {
				next++
			}
			best = order[next]
		}
		r := (*Node)(nil)
		if len(sub) > 1 && len(sub) <= 32 {
			// the one that simplifies the sum most
			sort.Ints(sub)
			size := 0
			for _, i := range sub {
				if c := plus(i); r == nil || m.Size(c) < size {
					r, size, best = c, m.Size(c), i
				}
			}
		} else {
			r = plus(best)
		}
		done[best] = true
		d = r
		if !m.sizeAtMost(d, budget) {
			return nil
		}
	}
	m.sumDiags[l.id] = d
	return d
}
