package main

// Decision procedure for conditions whose integer atoms are difference
// constraints (x - y <= c, x <= c): every path of the diagram is checked for a
// negative cycle. Exact over the integers; larger problems go to z3.

const dlInf = int64(1) << 60

type dlProb struct {
	x     *X
	idx   map[*Atom]int
	atoms []*Atom
	n     int
	steps int
	model []int64
}

func (p *dlProb) atom(a *Atom) int {
	i, ok := p.idx[a]
	if !ok {
		i = len(p.atoms) + 1
		p.idx[a] = i
		p.atoms = append(p.atoms, a)
	}
	return i
}

// diff reads lin <= 0 as  u - v <= c  (0 is the zero node).
func (p *dlProb) diff(l *Lin) (u, v int, c int64, ok bool) {
	c = -l.c
	for _, t := range l.ts {
		if t.a.kind != "var" && t.a.kind != "uf" {
			return 0, 0, 0, false
		}
		switch {
		case t.k == 1 && u == 0:
			u = p.atom(t.a)
		case t.k == -1 && v == 0:
			v = p.atom(t.a)
		default:
			return 0, 0, 0, false
		}
	}
	return u, v, c, true
}

// add tightens the closure d (n*n) with u - v <= c; false: negative cycle.
func (p *dlProb) add(d []int64, u, v int, c int64) bool {
	n := p.n
	// d[i*n+j]: upper bound of i - j
	if d[v*n+u] < dlInf && d[v*n+u]+c < 0 {
		return false
	}
	if d[u*n+v] <= c {
		return true
	}
	for i := 0; i < n; i++ {
		a := d[i*n+u]
		if a >= dlInf {
			continue
		}
		for j := 0; j < n; j++ {
			b := d[v*n+j]
			if b >= dlInf {
				continue
			}
			if s := a + c + b; s < d[i*n+j] {
				d[i*n+j] = s
			}
		}
	}
	return true
}

// dlCheck decides cond; ok is false when it is outside the fragment or too large.
func (x *X) dlCheck(st *State, cond *Node) (sat, ok bool, md map[*Atom]int64) {
	p := &dlProb{x: x, idx: map[*Atom]int{}}
	type dv struct {
		u, v int
		c    int64
	}
	vs := map[int32]dv{}
	for _, v := range x.m.Support(cond) {
		if _, inv := x.inv[v]; inv {
			return false, false, nil
		}
		vi := &x.m.vars[v]
		if vi.isBit() {
			return false, false, nil
		}
		if vi.kind != vkCmp {
			continue
		}
		a, b, c, ok := p.diff(vi.lin)
		if !ok {
			return false, false, nil
		}
		vs[v] = dv{a, b, c}
	}
	if len(p.atoms) > 24 {
		return false, false, nil
	}
	p.n = len(p.atoms) + 1
	n := p.n
	d0 := make([]int64, n*n)
	for i := range d0 {
		d0[i] = dlInf
	}
	for i := 0; i < n; i++ {
		d0[i*n+i] = 0
	}
	for i, a := range p.atoms {
		lo, hi := a.lo, a.hi
		if st != nil {
			lo, hi = st.bound(a)
		}
		if hi < dlInf && hi > -dlInf {
			if !p.add(d0, i+1, 0, hi) {
				return false, true, nil
			}
		}
		if lo > -dlInf && lo < dlInf {
			if !p.add(d0, 0, i+1, -lo) {
				return false, true, nil
			}
		}
	}
	var rec func(nd *Node, d []int64) int // 1 sat, 0 unsat, -1 budget
	rec = func(nd *Node, d []int64) int {
		if nd == x.m.F {
			return 0
		}
		if nd == x.m.T {
			p.model = d
			return 1
		}
		p.steps++
		if p.steps > 20000 {
			return -1
		}
		e, isCmp := vs[nd.v]
		if !isCmp {
			if r := rec(nd.hi, d); r != 0 {
				return r
			}
			return rec(nd.lo, d)
		}
		if nd.hi != x.m.F {
			d2 := append([]int64(nil), d...)
			if p.add(d2, e.u, e.v, e.c) {
				if r := rec(nd.hi, d2); r != 0 {
					return r
				}
			}
		}
		if nd.lo != x.m.F {
			d2 := append([]int64(nil), d...)
			if p.add(d2, e.v, e.u, -e.c-1) {
				if r := rec(nd.lo, d2); r != 0 {
					return r
				}
			}
		}
		return 0
	}
	switch rec(cond, d0) {
	case 0:
		return false, true, nil
	case 1:
		md = map[*Atom]int64{}
		// a solution: the tightest upper bounds from a virtual source
		d := p.model
		// potentials: distance from node 0 when finite, else relative to any
		val := make([]int64, n)
		for i := 0; i < n; i++ {
			best := int64(0)
			for j := 0; j < n; j++ {
				if d[i*n+j] < best {
					best = d[i*n+j]
				}
			}
			val[i] = best
		}
		for i, a := range p.atoms {
			md[a] = val[i+1] - val[0]
		}
		return true, true, md
	}
	return false, false, nil
}
