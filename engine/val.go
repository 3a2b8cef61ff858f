package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// V is a value: *Node (scalar), *BV (bit vector), *Str, Ptr, *Slice, *Agg,
// *Iface, *Clo, MapV, ChanV, Tuple, *Ext.
type V interface{}

// BV is an unsigned/two's-complement bit vector of boolean nodes, LSB first.
type BV struct{ b []*Node }

// GF is a GF(2^8)-linear combination of symbolic bytes (Reed-Solomon domain).
type Ptr struct{ obj, off int32 }

type Slice struct {
	obj         int32
	off, ln, cp int32
	esz         int
	sym         *Node // symbolic length (nil: ln)
	isNil       bool
}

type Agg struct{ c []V }

type Iface struct {
	t types.Type
	v V
}

type Clo struct {
	fn      *ssa.Function
	binds   []V
	builtin string
	native  func(*X, *State, []V) []Out
}

type MapV struct{ obj int32 }
type ChanV struct{ obj int32 }
type Tuple []V

// Str is a string: concrete, a sequence of byte values, or an abstract text.
type Str struct {
	s     string
	conc  bool
	bytes []V
	text  *Text // abstract text (see text.go)
	sym   *Node // symbolic length; bytes come from gen
	gen   func(i int) V
	orig  *Str
	sj    *sjStr // bytes of one converted rune
	kan   *kanjiText
	runeN V     // string(rune) with a symbolic rune
	term  *Node // opaque string
	min   int64 // its least length
}

// Ext is an opaque external object (file, image, drawing context ...).
type Ext struct {
	name string
	id   int
	args []V
	dyn  types.Type // dynamic type when known
}

type Mux struct {
	g []*Node
	v []V
}

var nilPtr = Ptr{}

func concStr(s string) *Str { return &Str{s: s, conc: true} }

// ---------------------------------------------------------------- types

func under(t types.Type) types.Type { return t.Underlying() }

func basicKind(t types.Type) types.BasicKind {
	if b, ok := under(t).(*types.Basic); ok {
		switch b.Kind() {
		case types.UntypedInt:
			return types.Int
		case types.UntypedRune:
			return types.Int32
		case types.UntypedFloat:
			return types.Float64
		case types.UntypedBool:
			return types.Bool
		case types.UntypedString:
			return types.String
		}
		return b.Kind()
	}
	return types.Invalid
}

func isFloat(k types.BasicKind) bool { return k == types.Float64 || k == types.Float32 }

func kindBits(k types.BasicKind) (n uint, signed bool) {
	switch k {
	case types.Int8:
		return 8, true
	case types.Uint8:
		return 8, false
	case types.Int16:
		return 16, true
	case types.Uint16:
		return 16, false
	case types.Int32:
		return 32, true
	case types.Uint32:
		return 32, false
	case types.Int, types.Int64:
		return 64, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false
	case types.Bool:
		return 1, false
	}
	return 64, true
}

func wrapC(k types.BasicKind, c int64) int64 {
	n, s := kindBits(k)
	if n >= 64 {
		return c
	}
	if k == types.Bool {
		return c & 1
	}
	if s {
		sh := 64 - n
		return c << sh >> sh
	}
	return c & (1<<n - 1)
}

func kindRange(k types.BasicKind) (lo, hi int64) {
	n, s := kindBits(k)
	if n >= 64 {
		if s {
			return minInf, maxInf
		}
		return 0, maxInf
	}
	if s {
		return -(1 << (n - 1)), 1<<(n-1) - 1
	}
	return 0, 1<<n - 1
}

// ---------------------------------------------------------------- scalar ops

var opIDs = map[string]uint32{}

func (m *M) opID(s string) uint32 {
	id, ok := m.varIdx["op:"+s]
	if !ok {
		id = int32(len(m.varIdx)) + 1
		m.varIdx["op:"+s] = id
	}
	return uint32(id)
}

// wrapLin reduces a linear form into the range of kind k.
func (m *M) wrapLin(k types.BasicKind, l *Lin) *Node {
	if len(l.ts) == 0 {
		return m.Int(wrapC(k, l.c))
	}
	n, _ := kindBits(k)
	if n >= 64 {
		if k == types.Int || k == types.Int64 {
			return m.linNode(l) // mathematical integers (assumption listed in the evidence)
		}
	}
	klo, khi := kindRange(k)
	lo, hi := linRange(l)
	if lo >= klo && hi <= khi {
		return m.linNode(l)
	}
	a := m.atom(fmt.Sprintf("w:%d:%d", l.id, k), func() *Atom {
		return &Atom{kind: "wrap", lin: l, k: int64(k), lo: klo, hi: khi}
	})
	return m.atomNode(a)
}

func u(c int64, k types.BasicKind) uint64 {
	n, _ := kindBits(k)
	if n >= 64 {
		return uint64(c)
	}
	return uint64(c) & (1<<n - 1)
}

func constOp(tok token.Token, k types.BasicKind, a, b int64) (int64, bool) {
	_, signed := kindBits(k)
	bo := func(x bool) (int64, bool) {
		if x {
			return 1, true
		}
		return 0, true
	}
	switch tok {
	case token.ADD:
		return wrapC(k, a+b), true
	case token.SUB:
		return wrapC(k, a-b), true
	case token.MUL:
		return wrapC(k, a*b), true
	case token.QUO:
		if b == 0 {
			return 0, false
		}
		if signed {
			return wrapC(k, a/b), true
		}
		return wrapC(k, int64(u(a, k)/u(b, k))), true
	case token.REM:
		if b == 0 {
			return 0, false
		}
		if signed {
			return wrapC(k, a%b), true
		}
		return wrapC(k, int64(u(a, k)%u(b, k))), true
	case token.AND:
		return wrapC(k, a&b), true
	case token.OR:
		return wrapC(k, a|b), true
	case token.XOR:
		return wrapC(k, a^b), true
	case token.AND_NOT:
		return wrapC(k, a&^b), true
	case token.SHL:
		if b < 0 {
			return 0, false
		}
		if b >= 64 {
			return 0, true
		}
		return wrapC(k, a<<uint(b)), true
	case token.SHR:
		if b < 0 {
			return 0, false
		}
		if signed {
			if b > 63 {
				b = 63
			}
			return a >> uint(b), true
		}
		if b >= 64 {
			return 0, true
		}
		return wrapC(k, int64(u(a, k)>>uint(b))), true
	case token.EQL:
		return bo(a == b)
	case token.NEQ:
		return bo(a != b)
	case token.LSS:
		if !signed {
			return bo(u(a, k) < u(b, k))
		}
		return bo(a < b)
	case token.LEQ:
		if !signed {
			return bo(u(a, k) <= u(b, k))
		}
		return bo(a <= b)
	case token.GTR:
		return constOp(token.LSS, k, b, a)
	case token.GEQ:
		return constOp(token.LEQ, k, b, a)
	}
	return 0, false
}

// Op2 applies a Go binary operator on two scalar nodes of kind k.
// Division by a possibly-zero divisor must be excluded by the caller.
func (m *M) Op2(tok token.Token, k types.BasicKind, a, b *Node) *Node {
	if a.isConst() && b.isConst() {
		if c, ok := constOp(tok, k, a.leaf.c, b.leaf.c); ok {
			return m.Int(c)
		}
	}
	if k == types.Bool {
		switch tok {
		case token.EQL:
			return m.Iff(a, b)
		case token.NEQ:
			return m.Xor(a, b)
		case token.AND:
			return m.And(a, b)
		case token.OR:
			return m.Or(a, b)
		}
	}
	if isFloat(k) {
		return m.floatOp(tok, k, a, b)
	}
	if (tok == token.ADD || tok == token.SUB) && !a.isLeaf() && !b.isLeaf() && (k == types.Int || k == types.Int64) {
		if sa, sb := m.Support(a), m.Support(b); len(sa)+len(sb) > 24 && !m.sizeAtMost(a, 12) && !m.sizeAtMost(b, 12) {
			if x, y := m.toAcc(a), m.toAcc(b); x != nil && y != nil {
				return m.accAdd(x, y, tok == token.SUB)
			}
		}
	}
	if (tok == token.ADD || tok == token.SUB) && (k == types.Int || k == types.Int64) && a.isLeaf() != b.isLeaf() {
		// sum of indicators plus a diagram: stays a sum
		if l := a; l.isLeaf() && l.leaf.kind == lkAcc && !m.sizeAtMost(b, 3) {
			if y := m.toAcc(b); y != nil {
				return m.accAdd(a, y, tok == token.SUB)
			}
		} else if l := b; l.isLeaf() && l.leaf.kind == lkAcc && !m.sizeAtMost(a, 3) {
			if x := m.toAcc(a); x != nil {
				return m.accAdd(x, b, tok == token.SUB)
			}
		}
	}
	id := m.tokOp(tok, k)
	return m.map2(id, a, b, func(a, b *Node) *Node { return m.leafOp(tok, k, a, b) })
}

func (m *M) tokOp(tok token.Token, k types.BasicKind) uint32 {
	p := &m.tokOps[int(tok)&127][int(k)&31]
	if *p == 0 {
		*p = m.opID(fmt.Sprintf("%d/%d", tok, k))
	}
	return *p
}

func (m *M) leafOp(tok token.Token, k types.BasicKind, a, b *Node) *Node {
	if a.isConst() && b.isConst() {
		if c, ok := constOp(tok, k, a.leaf.c, b.leaf.c); ok {
			return m.Int(c)
		}
		return m.Int(0) // excluded (division by zero checked by the caller)
	}
	switch tok {
	case token.EQL:
		return m.leafEQ(a, b)
	case token.NEQ:
		return m.Not(m.leafEQ(a, b))
	case token.LEQ:
		return m.leafLE(a, b)
	case token.LSS:
		return m.Not(m.leafLE(b, a))
	case token.GEQ:
		return m.leafLE(b, a)
	case token.GTR:
		return m.Not(m.leafLE(a, b))
	}
	if a.leaf.kind == lkAcc || b.leaf.kind == lkAcc {
		switch {
		case tok == token.ADD:
			return m.accAdd(a, b, false)
		case tok == token.SUB:
			return m.accAdd(a, b, true)
		case tok == token.MUL && b.isConst():
			return m.accMul(a, b.leaf.c)
		case tok == token.MUL && a.isConst():
			return m.accMul(b, a.leaf.c)
		}
	}
	la, lb := m.leafLin(a), m.leafLin(b)
	switch tok {
	case token.ADD:
		return m.wrapLin(k, m.linComb(la, 1, lb, 1))
	case token.SUB:
		return m.wrapLin(k, m.linComb(la, 1, lb, -1))
	case token.MUL:
		if len(la.ts) == 0 {
			return m.wrapLin(k, m.linComb(lb, la.c, lb, 0))
		}
		if len(lb.ts) == 0 {
			return m.wrapLin(k, m.linComb(la, lb.c, la, 0))
		}
		return m.wrapLin(k, m.mulLin(la, lb))
	case token.SHL:
		if len(lb.ts) == 0 && lb.c >= 0 && lb.c < 62 {
			return m.wrapLin(k, m.linComb(la, 1<<uint(lb.c), la, 0))
		}
	case token.SHR:
		if lo, _ := linBounds(la, staticBounds); len(lb.ts) == 0 && lb.c >= 0 && lb.c < 62 && lo >= 0 {
			return m.divLin(la, 1<<uint(lb.c))
		}
	case token.QUO:
		if len(lb.ts) == 0 && lb.c > 0 {
			return m.divLin(la, lb.c)
		}
	case token.REM:
		if len(lb.ts) == 0 && lb.c > 0 {
			q := m.divLin(la, lb.c)
			return m.linNode(m.linComb(m.cutIf(la), 1, m.leafLin(q), -lb.c))
		}
	case token.AND, token.AND_NOT, token.OR, token.XOR:
		if tok == token.OR || tok == token.XOR { // disjoint bits: a sum
			for _, p := range [2][2]*Lin{{la, lb}, {lb, la}} {
				alo, _ := linRange(p[0])
				lo, hi := linRange(p[1])
				if z := linTZ(p[0]); alo >= 0 && lo >= 0 && z > 0 && hi < 1<<z {
					return m.wrapLin(k, m.linComb(p[0], 1, p[1], 1))
				}
			}
		}
		if len(la.ts) == 0 && tok != token.AND_NOT {
			la, lb = lb, la
		}
		if r := m.maskLin(tok, k, la, lb); r != nil {
			return r
		}
	}
	lo, hi := kindRange(k)
	return m.UF(fmt.Sprintf("op%s.%d", tok, k), lo, hi, a, b)
}

// maskLin: bit operations of a non-negative linear form with a constant whose ones are
// a low or a high block.
func (m *M) maskLin(tok token.Token, k types.BasicKind, la, lb *Lin) *Node {
	if len(lb.ts) != 0 {
		return nil
	}
	lo, hi := linBounds(la, staticBounds)
	if lo < 0 || hi > 1<<40 {
		return nil
	}
	c := u(lb.c, k)
	all := uint64(1)
	for all <= uint64(hi) {
		all <<= 1
	}
	all--
	low := func(n int64) *Lin { // la mod n
		if n == 1 {
			return m.mkLin(0, nil)
		}
		q := m.divLin(la, n)
		return m.linComb(m.cutIf(la), 1, m.leafLin(q), -n)
	}
	and := func(c uint64) *Lin { // la & c
		c &= all
		switch {
		case c == 0:
			return m.mkLin(0, nil)
		case c == all:
			return la
		case c&(c+1) == 0:
			return low(int64(c) + 1)
		}
		n := c & -c
		if (c|(n-1))&((c|(n-1))+1) != 0 {
			return nil
		}
		// ones from bit log2(n) up to bit t-1
		t := (c | (n - 1)) + 1
		return m.linComb(low(int64(t)), 1, low(int64(n)), -1)
	}
	var r *Lin
	switch tok {
	case token.AND:
		r = and(c)
	case token.AND_NOT:
		r = and(^c)
	case token.OR: // la + c - (la & c)
		if a := and(c); a != nil && c < 1<<40 {
			r = m.linComb(m.linComb(la, 1, a, -1), 1, m.mkLin(int64(c), nil), 1)
		}
	case token.XOR: // la + c - 2*(la & c)
		if a := and(c); a != nil && c < 1<<40 {
			r = m.linComb(m.linComb(la, 1, a, -2), 1, m.mkLin(int64(c), nil), 1)
		}
	}
	if r == nil {
		return nil
	}
	return m.linNode(r)
}

func (m *M) cutIf(l *Lin) *Lin { return m.cutSum(l) }

func (m *M) mulLin(a, b *Lin) *Lin {
	// expand products of linear forms with few terms into "mul" atoms
	res := m.mkLin(a.c*b.c, nil)
	for _, t := range a.ts {
		res = m.linComb(res, 1, m.mkLin(0, []LT{{t.a, 1}}), t.k*b.c)
	}
	for _, t := range b.ts {
		res = m.linComb(res, 1, m.mkLin(0, []LT{{t.a, 1}}), t.k*a.c)
	}
	if len(a.ts)*len(b.ts) > 64 {
		panic(engineLimit{"non-linear product too large"})
	}
	for _, s := range a.ts {
		for _, t := range b.ts {
			x, y := s.a, t.a
			if x.id > y.id {
				x, y = y, x
			}
			at := m.atom(fmt.Sprintf("m:%d:%d", x.id, y.id), func() *Atom {
				lo, hi := mulBounds(x.lo, x.hi, y.lo, y.hi)
				return &Atom{kind: "mul", lin: m.mkLin(0, []LT{{x, 1}}), lin2: m.mkLin(0, []LT{{y, 1}}), lo: lo, hi: hi}
			})
			res = m.linComb(res, 1, m.mkLin(0, []LT{{at, 1}}), s.k*t.k)
		}
	}
	return res
}

func mulBounds(al, ah, bl, bh int64) (int64, int64) {
	p := []int64{satMul(al, bl), satMul(al, bh), satMul(ah, bl), satMul(ah, bh)}
	sort.Slice(p, func(i, j int) bool { return p[i] < p[j] })
	return p[0], p[3]
}

func (m *M) floatOp(tok token.Token, k types.BasicKind, a, b *Node) *Node {
	id := m.opID(fmt.Sprintf("f%d/%d", tok, k))
	return m.map2(id, a, b, func(a, b *Node) *Node {
		if a.leaf.kind == lkFloat && b.leaf.kind == lkFloat {
			x, y := a.leaf.f, b.leaf.f
			r := func(f float64) *Node {
				if k == types.Float32 {
					f = float64(float32(f))
				}
				return m.Float(f)
			}
			switch tok {
			case token.ADD:
				return r(x + y)
			case token.SUB:
				return r(x - y)
			case token.MUL:
				return r(x * y)
			case token.QUO:
				return r(x / y)
			case token.EQL:
				return m.Bool(x == y)
			case token.NEQ:
				return m.Bool(x != y)
			case token.LSS:
				return m.Bool(x < y)
			case token.LEQ:
				return m.Bool(x <= y)
			case token.GTR:
				return m.Bool(x > y)
			case token.GEQ:
				return m.Bool(x >= y)
			}
		}
		if k == types.Float64 {
			if r := m.dyOp(tok, a, b); r != nil {
				return r
			}
		}
		switch tok {
		case token.EQL, token.LSS, token.LEQ:
			return m.Pred("f"+tok.String(), a, b)
		case token.NEQ:
			return m.Not(m.Pred("f==", a, b))
		case token.GTR:
			return m.Pred("f<", b, a)
		case token.GEQ:
			return m.Pred("f<=", b, a)
		case token.ADD, token.MUL:
			if a.id > b.id { // IEEE + and * are commutative
				a, b = b, a
			}
		}
		return m.TermNode("f"+tok.String(), a, b)
	})
}

// Conv converts a scalar node between basic kinds.
func (m *M) Conv(from, to types.BasicKind, a *Node) *Node {
	if from == to {
		return a
	}
	ff, tf := isFloat(from), isFloat(to)
	id := m.opID(fmt.Sprintf("cv%d/%d", from, to))
	return m.map1(id, a, func(l *Node) *Node {
		switch {
		case ff && tf:
			if l.leaf.kind == lkFloat {
				if to == types.Float32 {
					return m.Float(float64(float32(l.leaf.f)))
				}
				return l
			}
			return m.TermNode(fmt.Sprintf("f2f%d", to), l)
		case ff:
			if l.leaf.kind == lkFloat {
				f := l.leaf.f
				if f > -9e18 && f < 9e18 && !math.IsNaN(f) {
					return m.Int(wrapC(to, int64(f)))
				}
			}
			lo, hi := kindRange(to)
			if dl, k, ok := m.dyadic(l); ok {
				l1, h1 := linBounds(dl, staticBounds)
				if k == 0 && l1 >= lo && h1 <= hi {
					return m.linNode(dl)
				}
				if l1 >= 0 && h1>>uint(k) <= hi {
					return m.divLin(dl, 1<<uint(k))
				}
			}
			return m.UF(fmt.Sprintf("f2i%d", to), lo, hi, l)
		case tf:
			if l.isConst() {
				f := float64(l.leaf.c)
				if _, s := kindBits(from); !s {
					f = float64(uint64(l.leaf.c))
				}
				if to == types.Float32 {
					f = float64(float32(f))
				}
				return m.Float(f)
			}
			if to == types.Float64 && (l.leaf.kind == lkLin || l.leaf.kind == lkAcc) {
				if _, s := kindBits(from); s || from == types.Uint8 || from == types.Uint16 || from == types.Uint32 {
					if r := m.mkDy(m.leafLin(l), 0); r != nil {
						return r
					}
				}
			}
			return m.TermNode(fmt.Sprintf("i2f%d", to), l)
		}
		if l.isConst() {
			c := l.leaf.c
			return m.Int(wrapC(to, c))
		}
		return m.wrapLin(to, m.leafLin(l))
	})
}

// ---------------------------------------------------------------- bit vectors

func (m *M) bvOf(v V, k types.BasicKind) *BV {
	switch x := v.(type) {
	case *BV:
		return x
	case *Node:
		if r, ok := m.bvCache[[2]uint32{x.id, uint32(k)}]; ok {
			return r
		}
		n, _ := kindBits(k)
		b := make([]*Node, n)
		for i := range b {
			i := i
			b[i] = m.map1(m.bitOp(i), x, func(l *Node) *Node {
				if l.isConst() {
					return m.Int(l.leaf.c >> uint(i) & 1)
				}
				return m.linBit(m.leafLin(l), i)
			})
		}
		r := &BV{b}
		if !x.isConst() {
			if m.bvCache == nil {
				m.bvCache = map[[2]uint32]*BV{}
			}
			m.bvCache[[2]uint32{x.id, uint32(k)}] = r
		}
		return r
	}
	panic(engineLimit{fmt.Sprintf("bit vector of %T", v)})
}

// modOf recognises l = d - k*(d div k), the remainder of d by k.
func modOf(l *Lin) (d *Lin, k int64) {
	for _, t := range l.ts {
		if t.a.kind == "div" && t.k == -t.a.k {
			dl := t.a.lin
			if dl.c != l.c || len(dl.ts)+1 != len(l.ts) {
				continue
			}
			ok := true
			for _, s := range dl.ts {
				f := false
				for _, r := range l.ts {
					if r.a == s.a && r.k == s.k {
						f = true
					}
				}
				ok = ok && f
			}
			if ok {
				return dl, t.a.k
			}
		}
	}
	return nil, 0
}

// linRange: bounds of l, also as a remainder.
func linRange(l *Lin) (int64, int64) {
	lo, hi := linBounds(l, staticBounds)
	if _, k := modOf(l); k > 0 {
		lo, hi = max(lo, 0), min(hi, k-1)
	}
	return lo, hi
}

// linTZ: the largest power of two (up to 2^40) dividing every coefficient of l.
func linTZ(l *Lin) uint {
	z := uint(40)
	tz := func(c int64) {
		for z > 0 && c&(1<<z-1) != 0 {
			z--
		}
	}
	tz(l.c)
	for _, t := range l.ts {
		tz(t.k)
	}
	return z
}

// linBit is bit i of a linear form.
func (m *M) linBit(l *Lin, i int) *Node {
	if len(l.ts) == 0 {
		if i > 62 {
			i = 62
		}
		return m.Int(l.c >> uint(i) & 1)
	}
	lo, hi := linRange(l)
	if lo >= 0 {
		if i > 62 || hi < 1<<uint(i) {
			return m.F
		}
		if d, k := modOf(l); k > 0 && k&(k-1) == 0 {
			return m.linBit(d, i) // i is below log2(k) here
		}
		if z := linTZ(l); z > 0 {
			if i < int(z) {
				return m.F
			}
			r := m.mkLin(l.c>>z, nil)
			for _, t := range l.ts {
				r = m.linComb(r, 1, m.mkLin(0, []LT{{t.a, t.k >> z}}), 1)
			}
			return m.linBit(r, i-int(z))
		}
		if len(l.ts) == 1 && l.c == 0 && l.ts[0].k == 1 && l.ts[0].a.kind == "div" {
			a := l.ts[0].a
			if a.k&(a.k-1) == 0 {
				s := 0
				for 1<<uint(s) < a.k {
					s++
				}
				return m.linBit(a.lin, i+s)
			}
		}
	}
	return m.Pred(fmt.Sprintf("bit%d", i), m.linNode(l))
}

// bvSimplify turns a fully constant vector into a constant node.
func (m *M) bvSimplify(b *BV, k types.BasicKind) V {
	var c int64
	for i, x := range b.b {
		if x == m.T {
			c |= 1 << uint(i)
		} else if x != m.F {
			return b
		}
	}
	return m.Int(wrapC(k, c))
}

func (m *M) bvToNode(b *BV, k types.BasicKind) *Node {
	// value as a diagram: fold from the most significant bit
	_, s := kindBits(k)
	r := m.Int(0)
	n := len(b.b)
	for i := n - 1; i >= 0; i-- {
		w := int64(1) << uint(i)
		if s && i == n-1 {
			w = -w
		}
		bit := m.ITE(b.b[i], m.Int(w), m.Int(0))
		r = m.map2(m.opID("bvadd"), r, bit, func(a, b *Node) *Node { return m.Int(a.leaf.c + b.leaf.c) })
	}
	return r
}

func (m *M) bvAdd(a, b *BV, cin *Node) *BV {
	n := len(a.b)
	r := make([]*Node, n)
	c := cin
	for i := 0; i < n; i++ {
		x := m.Xor(a.b[i], b.b[i])
		r[i] = m.Xor(x, c)
		c = m.Or(m.And(a.b[i], b.b[i]), m.And(c, x))
	}
	return &BV{r}
}

func (m *M) bvNot(a *BV) *BV {
	r := make([]*Node, len(a.b))
	for i := range r {
		r[i] = m.Not(a.b[i])
	}
	return &BV{r}
}

func (m *M) bvShl(a *BV, s int) *BV {
	r := make([]*Node, len(a.b))
	for i := range r {
		if i-s >= 0 {
			r[i] = a.b[i-s]
		} else {
			r[i] = m.F
		}
	}
	return &BV{r}
}

func (m *M) bvShr(a *BV, s int, signed bool) *BV {
	r := make([]*Node, len(a.b))
	for i := range r {
		if i+s < len(a.b) {
			r[i] = a.b[i+s]
		} else if signed {
			r[i] = a.b[len(a.b)-1]
		} else {
			r[i] = m.F
		}
	}
	return &BV{r}
}

func (m *M) bvUlt(a, b *BV, signed bool) *Node {
	r := m.F
	n := len(a.b)
	for i := 0; i < n; i++ {
		x, y := a.b[i], b.b[i]
		if signed && i == n-1 {
			x, y = y, x
		}
		r = m.ITE(m.Xor(x, y), y, r)
	}
	return r
}

func (m *M) bvEq(a, b *BV) *Node {
	r := m.T
	for i := range a.b {
		r = m.And(r, m.Iff(a.b[i], b.b[i]))
	}
	return r
}

// binop on values where at least one is a BV.
func (m *M) bvOp(tok token.Token, k types.BasicKind, x, y V) V {
	if tok == token.SHL || tok == token.SHR {
		a := m.bvOf(x, k)
		sn, ok := y.(*Node)
		if !ok || !sn.isConst() {
			panic(engineLimit{"shift of a bit vector by a symbolic amount"})
		}
		s := int(sn.leaf.c)
		if s > len(a.b) {
			s = len(a.b)
		}
		_, signed := kindBits(k)
		if tok == token.SHL {
			return m.bvSimplify(m.bvShl(a, s), k)
		}
		return m.bvSimplify(m.bvShr(a, s, signed), k)
	}
	a, b := m.bvOf(x, k), m.bvOf(y, k)
	n := len(a.b)
	_, signed := kindBits(k)
	bit := func(f func(p, q *Node) *Node) V {
		r := make([]*Node, n)
		for i := range r {
			r[i] = f(a.b[i], b.b[i])
		}
		return m.bvSimplify(&BV{r}, k)
	}
	switch tok {
	case token.AND:
		return bit(m.And)
	case token.OR:
		return bit(m.Or)
	case token.XOR:
		return bit(m.Xor)
	case token.AND_NOT:
		return bit(m.AndNot)
	case token.ADD:
		return m.bvSimplify(m.bvAdd(a, b, m.F), k)
	case token.SUB:
		return m.bvSimplify(m.bvAdd(a, m.bvNot(b), m.T), k)
	case token.MUL:
		cx, okx := m.bvSimplify(a, k).(*Node)
		if okx && cx.isConst() {
			a, b = b, a
		}
		r := &BV{make([]*Node, n)}
		for i := range r.b {
			r.b[i] = m.F
		}
		for i := 0; i < n; i++ {
			if b.b[i] == m.F {
				continue
			}
			t := m.bvShl(a, i)
			for j := range t.b {
				t.b[j] = m.And(t.b[j], b.b[i])
			}
			r = m.bvAdd(r, t, m.F)
		}
		return m.bvSimplify(r, k)
	case token.EQL:
		return m.bvEq(a, b)
	case token.NEQ:
		return m.Not(m.bvEq(a, b))
	case token.LSS:
		return m.bvUlt(a, b, signed)
	case token.GTR:
		return m.bvUlt(b, a, signed)
	case token.LEQ:
		return m.Not(m.bvUlt(b, a, signed))
	case token.GEQ:
		return m.Not(m.bvUlt(a, b, signed))
	case token.QUO, token.REM:
		na, nb := m.bvToNode(a, k), m.bvToNode(b, k)
		return m.Op2(tok, k, na, nb)
	}
	panic(engineLimit{"bit vector operator " + tok.String()})
}

func (m *M) bvConv(from, to types.BasicKind, a *BV) V {
	if isFloat(to) {
		return m.Conv(from, to, m.bvToNode(a, from))
	}
	n, _ := kindBits(to)
	_, s := kindBits(from)
	r := make([]*Node, n)
	for i := range r {
		switch {
		case i < len(a.b):
			r[i] = a.b[i]
		case s:
			r[i] = a.b[len(a.b)-1]
		default:
			r[i] = m.F
		}
	}
	return m.bvSimplify(&BV{r}, to)
}

func (m *M) nodeOf(v V, k types.BasicKind) *Node {
	switch x := v.(type) {
	case *Node:
		return x
	case *BV:
		return m.bvToNode(x, k)
	}
	panic(engineLimit{fmt.Sprintf("scalar expected, got %T", v)})
}

func vstr(m *M, v V) string {
	switch x := v.(type) {
	case nil:
		return "<none>"
	case *Node:
		return m.str(x, 3)
	case *BV:
		var sb strings.Builder
		sb.WriteString("bv[")
		for i := len(x.b) - 1; i >= 0; i-- {
			if i != len(x.b)-1 {
				sb.WriteByte(' ')
			}
			sb.WriteString(m.str(x.b[i], 1))
		}
		return sb.String() + "]"
	case *Str:
		if x.conc {
			return fmt.Sprintf("%q", x.s)
		}
		return fmt.Sprintf("str{%d bytes,text=%v}", len(x.bytes), x.text)
	case *Agg:
		s := "{"
		for i, c := range x.c {
			if i > 0 {
				s += ", "
			}
			if i > 8 {
				s += "..."
				break
			}
			s += vstr(m, c)
		}
		return s + "}"
	case Tuple:
		s := "("
		for i, c := range x {
			if i > 0 {
				s += ", "
			}
			s += vstr(m, c)
		}
		return s + ")"
	case *Iface:
		if x.t == nil {
			return "nil"
		}
		return x.t.String() + ":" + vstr(m, x.v)
	case Ptr:
		return fmt.Sprintf("&%d.%d", x.obj, x.off)
	case *Slice:
		return fmt.Sprintf("slice{%d+%d len %d}", x.obj, x.off, x.ln)
	case *Clo:
		if x.fn != nil {
			return x.fn.String()
		}
		return "func " + x.builtin
	case *Ext:
		return fmt.Sprintf("%s#%d", x.name, x.id)
	}
	return fmt.Sprintf("%T", v)
}
