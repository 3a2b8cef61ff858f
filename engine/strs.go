package main

import (
	"go/token"
	"go/types"
	"strings"
	"unicode/utf8"
)

const tokLSS, tokGTR, tokMUL, tokADD = token.LSS, token.GTR, token.MUL, token.ADD

// byteV is a concrete or symbolic byte of a string.
func (x *X) strBytes(s *Str) ([]V, bool) {
	if s.conc {
		r := make([]V, len(s.s))
		for i := 0; i < len(s.s); i++ {
			r[i] = x.m.Int(int64(s.s[i]))
		}
		return r, true
	}
	if s.text != nil || s.sym != nil || s.runeN != nil || s.term != nil || s.sj != nil {
		return nil, false
	}
	return s.bytes, true
}

func (x *X) mkStr(b []V) *Str {
	var sb strings.Builder
	for _, v := range b {
		n, ok := v.(*Node)
		if !ok || !n.isConst() {
			return &Str{bytes: append([]V(nil), b...)}
		}
		sb.WriteByte(byte(n.leaf.c))
	}
	return concStr(sb.String())
}

func (x *X) strToBytes(st *State, s *Str) *Slice {
	if s.sym != nil {
		id := x.newObj(st, nil, types.Typ[types.Uint8])
		st.wobj(id).ext = &LazyData{gen: s.gen}
		return &Slice{obj: id, esz: 1, sym: s.sym}
	}
	if s.sj != nil {
		// bytes of a converted rune: resolve the length first
		n := x.forceInt(st, s.sj.ln, types.Int)
		cells := make([]V, n)
		for i := range cells {
			cells[i] = s.sj.b[i]
		}
		return &Slice{obj: x.newObj(st, cells, types.Typ[types.Uint8]), ln: int32(n), cp: int32(n), esz: 1}
	}
	b, ok := x.strBytes(s)
	if !ok {
		x.limit("bytes of an abstract string")
	}
	cells := append([]V(nil), b...)
	return &Slice{obj: x.newObj(st, cells, types.Typ[types.Uint8]), ln: int32(len(cells)), cp: int32(len(cells)), esz: 1}
}

func (x *X) bytesToStr(st *State, s *Slice) *Str {
	if s.isNil || (s.sym == nil && s.ln == 0) {
		return x.emptyStr
	}
	o := st.obj(s.obj)
	if s.sym != nil {
		lz, ok := o.ext.(*LazyData)
		if !ok {
			x.limit("string of a symbolic-length slice")
		}
		c := append([]V(nil), o.c...)
		off := int(s.off)
		return &Str{sym: s.sym, orig: lz.orig, gen: func(i int) V {
			if i+off < len(c) {
				return c[i+off]
			}
			return lz.gen(i + off)
		}}
	}
	if st.gor != nil {
		st.gor.read(Ptr{s.obj, s.off}, int(s.ln))
	}
	return x.mkStr(o.c[s.off : int(s.off)+int(s.ln)])
}

func (x *X) convert(st *State, v V, from, to types.Type, I *Ins) V {
	fu, tu := from.Underlying(), to.Underlying()
	if _, ok := fu.(*types.TypeParam); ok {
		x.limit("conversion of a type parameter")
	}
	fk, tk := basicKind(from), basicKind(to)
	isStr := func(t types.Type) bool {
		b, ok := t.Underlying().(*types.Basic)
		return ok && b.Info()&types.IsString != 0
	}
	switch {
	case isStr(from) && isStr(to):
		return v
	case isStr(from):
		sl, ok := tu.(*types.Slice)
		if !ok {
			break
		}
		s := x.force(st, v).(*Str)
		if basicKind(sl.Elem()) == types.Uint8 {
			if s.text != nil {
				id := x.newObj(st, nil, types.Typ[types.Uint8])
				st.wobj(id).ext = &LazyData{orig: s, gen: func(i int) V {
					panic(engineLimit{"byte of an abstract text"})
				}}
				return &Slice{obj: id, esz: 1, sym: x.nodeOf(x.textLen(st, s), types.Int)}
			}
			if s.sym != nil {
				r := x.strToBytes(st, s)
				st.wobj(r.obj).ext = &LazyData{orig: s, gen: s.gen}
				return r
			}
			return x.strToBytes(st, s)
		}
		if s.conc {
			var cells []V
			for _, r := range s.s {
				cells = append(cells, x.m.Int(int64(r)))
			}
			return &Slice{obj: x.newObj(st, cells, types.Typ[types.Int32]), ln: int32(len(cells)), cp: int32(len(cells)), esz: 1}
		}
	case isStr(to):
		switch u := fu.(type) {
		case *types.Slice:
			s := x.force(st, v).(*Slice)
			if basicKind(u.Elem()) == types.Uint8 {
				if s.sym != nil {
					if lz, ok := st.obj(s.obj).ext.(*LazyData); ok && lz.orig != nil && s.off == 0 {
						return lz.orig
					}
				}
				return x.bytesToStr(st, s)
			}
			var sb strings.Builder
			for i := 0; i < int(s.ln); i++ {
				n, ok := st.obj(s.obj).c[int(s.off)+i].(*Node)
				if !ok || !n.isConst() {
					x.limit("string of symbolic runes")
				}
				sb.WriteRune(rune(n.leaf.c))
			}
			return concStr(sb.String())
		case *types.Basic:
			if n, ok := v.(*Node); ok && n.isConst() {
				c := n.leaf.c
				if c < 0 || c > utf8.MaxRune {
					c = utf8.RuneError
				}
				return concStr(string(rune(c)))
			}
			if n, ok := v.(*Node); ok {
				if mx := x.constMux(n, 16); mx != nil {
					r := &Mux{g: mx.g}
					for _, l := range mx.v {
						c := l.(*Node).leaf.c
						if c < 0 || c > utf8.MaxRune {
							c = utf8.RuneError
						}
						r.v = append(r.v, concStr(string(rune(c))))
					}
					return r
				}
			}
			return &Str{runeN: v}
		}
	case fk != types.Invalid && tk != types.Invalid:
		if fk == types.UnsafePointer || tk == types.UnsafePointer {
			x.limit("unsafe pointer")
		}
		if b, ok := v.(*BV); ok {
			return x.m.bvConv(fk, tk, b)
		}
		n, ok := v.(*Node)
		if !ok {
			break
		}
		return x.m.Conv(fk, tk, x.pinned(st, n))
	}
	x.limit("conversion from %s to %s", from, to)
	return nil
}

func (x *X) strIndex(fr *frame, it *item, I *Ins, s *Str, idx *Node) bool {
	if s.sj != nil {
		bad := x.m.Or(x.m.Op2(token.LSS, types.Int, idx, x.m.F), x.m.Op2(token.GEQ, types.Int, idx, s.sj.ln))
		if !x.guard(fr, it, bad, "index out of range") {
			return false
		}
		if !idx.isConst() {
			x.limit("symbolic index of a string")
		}
		it.env[I.dst] = s.sj.b[idx.leaf.c]
		return true
	}
	if s.sym != nil {
		if !idx.isConst() || idx.leaf.c < 0 {
			x.limit("symbolic index into a symbolic-length string")
		}
		if !x.guard(fr, it, x.m.Op2(token.GEQ, types.Int, idx, x.pinned(it.st, s.sym)), "index out of range") {
			return false
		}
		it.env[I.dst] = s.gen(int(idx.leaf.c))
		return true
	}
	b, ok := x.strBytes(s)
	if !ok {
		x.limit("index of an abstract string")
	}
	n := int64(len(b))
	if idx.isConst() {
		if idx.leaf.c < 0 || idx.leaf.c >= n {
			panic(goPanic{it.st.pc, "index out of range"})
		}
		it.env[I.dst] = b[idx.leaf.c]
		return true
	}
	bad := x.m.Or(x.m.Op2(token.LSS, types.Int, idx, x.m.F), x.m.Op2(token.GEQ, types.Int, idx, x.m.Int(n)))
	if !x.guard(fr, it, bad, "index out of range") {
		return false
	}
	var r V
	for i := int64(0); i < n; i++ {
		g := x.m.Op2(token.EQL, types.Int, idx, x.m.Int(i))
		if g == x.m.F {
			continue
		}
		if r == nil {
			r = b[i]
			continue
		}
		r, _ = x.mergeV(g, b[i], r, false)
	}
	if r == nil {
		return false
	}
	it.env[I.dst] = r
	return true
}

func (x *X) strConcat(st *State, a, b V) V {
	p, ok1 := a.(*Str)
	q, ok2 := b.(*Str)
	if !ok1 || !ok2 {
		x.limit("string concatenation of %T and %T", a, b)
	}
	if p.conc && q.conc {
		return concStr(p.s + q.s)
	}
	if p.conc && p.s == "" {
		return q
	}
	if q.conc && q.s == "" {
		return p
	}
	c1, ok1 := x.strBytes(p)
	c2, ok2 := x.strBytes(q)
	if ok1 && ok2 {
		return &Str{bytes: append(append([]V(nil), c1...), c2...)}
	}
	return &Str{term: x.m.TermNode("concat", x.strTerm(p), x.strTerm(q)), min: p.minLen() + q.minLen()}
}

func (s *Str) minLen() int64 {
	if s.conc {
		return int64(len(s.s))
	}
	return s.min + int64(len(s.bytes))
}

// strTerm is an opaque name of a string (for logging and error messages).
func (x *X) strTerm(s *Str) *Node {
	switch {
	case s.term != nil:
		return s.term
	case s.conc:
		return x.m.TermNode("str:" + s.s)
	}
	x.fresh++
	return x.m.TermNode("strx" + itoa(x.fresh))
}

func (x *X) strCmp(st *State, tok token.Token, a, b *Str) *Node {
	if a.conc && b.conc {
		switch tok {
		case token.EQL:
			return x.m.Bool(a.s == b.s)
		case token.NEQ:
			return x.m.Bool(a.s != b.s)
		case token.LSS:
			return x.m.Bool(a.s < b.s)
		case token.LEQ:
			return x.m.Bool(a.s <= b.s)
		case token.GTR:
			return x.m.Bool(a.s > b.s)
		case token.GEQ:
			return x.m.Bool(a.s >= b.s)
		}
	}
	if tok == token.NEQ {
		return x.m.Not(x.strCmp(st, token.EQL, a, b))
	}
	if tok != token.EQL {
		x.limit("ordering of symbolic strings")
	}
	if sameV(a, b) {
		return x.m.T
	}
	// comparison with "" is a length test
	if b.conc && b.s == "" {
		a, b = b, a
	}
	if a.conc && a.s == "" {
		l, ok := x.lenOf(st, b, false)
		if !ok {
			x.limit("length of an abstract string")
		}
		return x.m.Op2(token.EQL, types.Int, x.nodeOf(l, types.Int), x.m.F)
	}
	p, ok1 := x.strBytes(a)
	q, ok2 := x.strBytes(b)
	if !ok1 || !ok2 {
		if a.term != nil && b.term != nil {
			return x.m.leafEQ(a.term, b.term)
		}
		x.limit("comparison of abstract strings")
	}
	if len(p) != len(q) {
		return x.m.F
	}
	r := x.m.T
	for i := range p {
		r = x.m.And(r, x.byteEq(p[i], q[i]))
	}
	return r
}

func (x *X) byteEq(a, b V) *Node {
	p, ok1 := a.(*Node)
	q, ok2 := b.(*Node)
	if ok1 && ok2 {
		return x.m.Op2(token.EQL, types.Uint8, p, q)
	}
	return x.m.bvEq(x.m.bvOf(a, types.Uint8), x.m.bvOf(b, types.Uint8))
}

func (x *X) strSlice(fr *frame, it *item, I *Ins, s *Str) (V, bool) {
	st := it.st
	get := func(o int32, def int64) int64 {
		if o == -1<<30 {
			return def
		}
		return x.forceInt(st, x.val(fr.fi, it, o), types.Int)
	}
	if !s.conc {
		b, ok := x.strBytes(s)
		if !ok {
			x.limit("slicing an abstract string")
		}
		lo, hi := get(I.args[0], 0), get(I.args[1], int64(len(b)))
		if lo < 0 || hi < lo || hi > int64(len(b)) {
			panic(goPanic{st.pc, "slice bounds out of range"})
		}
		return x.mkStr(b[lo:hi]), true
	}
	lo, hi := get(I.args[0], 0), get(I.args[1], int64(len(s.s)))
	if lo < 0 || hi < lo || hi > int64(len(s.s)) {
		panic(goPanic{st.pc, "slice bounds out of range"})
	}
	return concStr(s.s[lo:hi]), true
}

func (x *X) nextBytes(fr *frame, it *item, I *Ins, n *Iter, set func(*item, *Iter, bool, V, V)) []*item {
	// only ASCII bytes are supported symbolically
	v := n.bytes[n.pos]
	nd, ok := v.(*Node)
	if ok && nd.isConst() && nd.leaf.c < 0x80 {
		p := n.pos
		n.pos++
		set(it, n, true, x.m.Int(int64(p)), nd)
		return nil
	}
	bv := x.m.bvOf(v, types.Uint8)
	hi := x.simp(it.st, bv.b[7])
	if x.m.And(it.st.pc, hi) != x.m.F {
		x.limit("range over a string with symbolic non-ASCII bytes")
	}
	p := n.pos
	n.pos++
	var r V
	if ok {
		r = x.m.Conv(types.Uint8, types.Int32, nd)
	} else {
		r = x.m.bvConv(types.Uint8, types.Int32, bv)
	}
	set(it, n, true, x.m.Int(int64(p)), r)
	return nil
}

// constMux: the alternatives of a value that is one of a few constants.
func (x *X) constMux(n *Node, max int) *Mux {
	if n.isLeaf() {
		return nil
	}
	ls := x.m.Leaves(n)
	if len(ls) > max {
		return nil
	}
	for _, l := range ls {
		if !l.isConst() {
			return nil
		}
	}
	return x.muxOf(n)
}
