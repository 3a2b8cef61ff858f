package main

import (
	"go/token"
	"math"
)

// Exact arithmetic on float64 values that are known to be n/2^k with a bounded integer
// n (|n| < 2^40, k <= 20): sums, differences, products and comparisons of such values
// are exact in IEEE arithmetic as long as the result is such a value again.

const dyMax = 1 << 40

func (m *M) dyadic(n *Node) (*Lin, int, bool) {
	switch {
	case n.leaf.kind == lkFloat:
		f := n.leaf.f
		if f == 0 {
			return m.mkLin(0, nil), 0, !math.Signbit(f)
		}
		for k := 0; k <= 20; k++ {
			g := math.Ldexp(f, k)
			if math.Abs(g) >= dyMax {
				break
			}
			if g == math.Trunc(g) {
				return m.mkLin(int64(g), nil), k, true
			}
		}
	case n.leaf.kind == lkTerm && n.leaf.term.op == "dy":
		return m.leafLin(n.leaf.term.args[0]), int(n.leaf.term.args[1].leaf.c), true
	}
	return nil, 0, false
}

// mkDy is l/2^k, or nil if it may be out of the exact range.
func (m *M) mkDy(l *Lin, k int) *Node {
	for k > 0 {
		even := l.c%2 == 0
		for _, t := range l.ts {
			even = even && t.k%2 == 0
		}
		if !even {
			break
		}
		ts := make([]LT, len(l.ts))
		for i, t := range l.ts {
			ts[i] = LT{t.a, t.k / 2}
		}
		l = m.mkLin(l.c/2, ts)
		k--
	}
	lo, hi := linBounds(l, staticBounds)
	if lo <= -dyMax || hi >= dyMax || k > 20 {
		return nil
	}
	if len(l.ts) == 0 {
		return m.Float(math.Ldexp(float64(l.c), -k))
	}
	return m.TermNode("dy", m.linNode(l), m.Int(int64(k)))
}

// dyOp: an operation on two exact values; nil if it is not known to be exact.
func (m *M) dyOp(tok token.Token, a, b *Node) *Node {
	la, ka, ok := m.dyadic(a)
	if !ok {
		return nil
	}
	lb, kb, ok := m.dyadic(b)
	if !ok {
		return nil
	}
	if tok == token.MUL {
		small := func(c int64) bool { return c > -(1<<20) && c < 1<<20 }
		switch {
		case len(la.ts) == 0 && small(la.c):
			return m.mkDy(m.linComb(lb, la.c, lb, 0), ka+kb)
		case len(lb.ts) == 0 && small(lb.c):
			return m.mkDy(m.linComb(la, lb.c, la, 0), ka+kb)
		}
		return nil
	}
	if tok == token.QUO {
		// by a power of two
		if len(lb.ts) == 0 && lb.c > 0 && lb.c&(lb.c-1) == 0 {
			s := 0
			for c := lb.c; c > 1; c >>= 1 {
				s++
			}
			k := ka + s - kb
			if k < -20 {
				return nil
			}
			if k < 0 {
				return m.mkDy(m.linComb(la, 1<<uint(-k), la, 0), 0)
			}
			return m.mkDy(la, k)
		}
		return nil
	}
	k := ka
	if kb > k {
		k = kb
	}
	lo1, hi1 := linBounds(la, staticBounds)
	lo2, hi2 := linBounds(lb, staticBounds)
	for _, v := range []int64{lo1, hi1, lo2, hi2} {
		if v < -dyMax || v > dyMax {
			return nil
		}
	}
	fa, fb := int64(1)<<uint(k-ka), int64(1)<<uint(k-kb)
	switch tok {
	case token.ADD:
		return m.mkDy(m.linComb(la, fa, lb, fb), k)
	case token.SUB:
		return m.mkDy(m.linComb(la, fa, lb, -fb), k)
	}
	na, nb := m.linNode(m.linComb(la, fa, la, 0)), m.linNode(m.linComb(lb, fb, lb, 0))
	switch tok {
	case token.EQL:
		return m.leafEQ(na, nb)
	case token.NEQ:
		return m.Not(m.leafEQ(na, nb))
	case token.LEQ:
		return m.leafLE(na, nb)
	case token.GEQ:
		return m.leafLE(nb, na)
	case token.LSS:
		return m.Not(m.leafLE(nb, na))
	case token.GTR:
		return m.Not(m.leafLE(na, nb))
	}
	return nil
}
