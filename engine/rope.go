package main

import (
	"fmt"
	"go/types"
	"strings"
)

// Rope models the content of a binary.Binary: a hash-consed list of bits, so that
// equal bit strings are pointer-equal. (Dependency contract: binary.Binary is an
// append-only bit string; its methods behave as documented. Listed as assumed.)
type Rope struct {
	id   int
	n    int
	prev *Rope
	bit  *Node
	flat []*Node
	root *Rope // the opaque prefix of symbolic length, if any
	rlen *Node // its length
}

// opaque returns a bit string of symbolic length and unspecified content.
func (x *X) opaque(name string, ln *Node) *Rope {
	k := fmt.Sprintf("%s:%d", name, ln.id)
	if r := x.opaques[k]; r != nil {
		return r
	}
	x.ropeN++
	r := &Rope{id: x.ropeN, rlen: ln}
	r.root = r
	if x.opaques == nil {
		x.opaques = map[string]*Rope{}
	}
	x.opaques[k] = r
	return r
}

// whole checks that all bits of a bit string are known.
func (x *X) whole(r *Rope) *Rope {
	if r.root != nil {
		x.limit("access to a bit string of symbolic length")
	}
	return r
}

func (x *X) ropeLen(r *Rope) *Node {
	if r.root != nil {
		return x.m.Op2(tokADD, types.Int, r.rlen, x.m.Int(int64(r.n)))
	}
	return x.m.Int(int64(r.n))
}

type ropeKey struct {
	prev int
	bit  uint32
}

func (x *X) snoc(r *Rope, b *Node) *Rope {
	k := ropeKey{r.id, b.id}
	n := x.ropes[k]
	if n == nil {
		x.ropeN++
		n = &Rope{id: x.ropeN, n: r.n + 1, prev: r, bit: b, root: r.root, rlen: r.rlen}
		x.ropes[k] = n
	}
	return n
}

func (r *Rope) bits() []*Node {
	if r.flat != nil || r.n == 0 {
		return r.flat
	}
	b := make([]*Node, r.n)
	for p := r; p.n > 0; p = p.prev {
		if p.flat != nil {
			copy(b, p.flat)
			break
		}
		b[p.n-1] = p.bit
	}
	r.flat = b
	return b
}

func (x *X) ropeOf(bits []*Node) *Rope {
	r := x.emptyRope
	for _, b := range bits {
		r = x.snoc(r, b)
	}
	return r
}

const binPkg = "github.com/yeqown/reedsolomon/binary"

var isBinaryMemo = map[types.Type]bool{}

func isBinaryStruct(t types.Type) bool {
	n, ok := t.(*types.Named)
	if !ok {
		return false
	}
	o := n.Obj()
	return o.Name() == "Binary" && o.Pkg() != nil && o.Pkg().Path() == binPkg
}

func (x *X) newBin(st *State, r *Rope) Ptr {
	return Ptr{x.newObj(st, []V{r, x.m.F}, nil), 0}
}

func (x *X) getRope(st *State, v V) (Ptr, *Rope) {
	v = x.force(st, v)
	p, ok := v.(Ptr)
	if !ok {
		x.limit("bit string receiver %T", v)
	}
	if p.obj == 0 {
		panic(goPanic{st.pc, "nil pointer dereference"})
	}
	o := st.obj(p.obj)
	if st.gor != nil {
		st.gor.read(p, 1)
	}
	r, ok := o.c[p.off].(*Rope)
	if !ok {
		x.limit("bit string content %T", o.c[p.off])
	}
	return p, r
}

func (x *X) setRope(st *State, p Ptr, r *Rope) {
	if st.gor != nil {
		st.gor.write(p, 1)
	}
	st.wobj(p.obj).c[p.off] = r
}

func (x *X) errVal(st *State, msg string) *Iface {
	return &Iface{x.P.errType, Ptr{x.newObj(st, []V{concStr(msg)}, nil), 0}}
}

func (x *X) boolSlice(st *State, v V) []*Node {
	s := x.force(st, v).(*Slice)
	if s.sym != nil {
		x.limit("symbolic-length slice of bits")
	}
	out := make([]*Node, s.ln)
	for i := range out {
		out[i] = st.obj(s.obj).c[int(s.off)+i].(*Node)
	}
	return out
}

// valueBits returns the n low bits of v, most significant first.
func (x *X) valueBits(st *State, v V, n int, k types.BasicKind) []*Node {
	if nd, ok := v.(*Node); ok {
		v = x.pinned(st, nd)
	}
	bv := x.m.bvOf(v, k)
	r := make([]*Node, n)
	for i := 0; i < n; i++ {
		j := n - 1 - i
		if j < len(bv.b) {
			r[i] = bv.b[j]
		} else {
			r[i] = x.m.F
		}
	}
	return r
}

type intrin func(x *X, st *State, args []V, I *Ins) []Out

func one(st *State, v V) []Out { return []Out{{st: st, ret: v}} }

func ropeIntrinsics(T map[string]intrin) {
	b := "(*" + binPkg + ".Binary)."
	T[binPkg+".New"] = func(x *X, st *State, a []V, I *Ins) []Out {
		return one(st, x.newBin(st, x.ropeOf(x.boolSlice(st, a[0]))))
	}
	T[binPkg+".NewFromBinaryString"] = func(x *X, st *State, a []V, I *Ins) []Out {
		s := x.force(st, a[0]).(*Str)
		if !s.conc {
			x.limit("symbolic binary string")
		}
		r := x.emptyRope
		for _, c := range s.s {
			switch c {
			case '0':
				r = x.snoc(r, x.m.F)
			case '1':
				r = x.snoc(r, x.m.T)
			case ' ':
			default:
				return one(st, Tuple{nilPtr, x.errVal(st, "invalid char")})
			}
		}
		return one(st, Tuple{x.newBin(st, r), x.nilIface})
	}
	T[b+"At"] = func(x *X, st *State, a []V, I *Ins) []Out {
		_, r := x.getRope(st, a[0])
		x.whole(r)
		i := x.forceInt(st, a[1], types.Int)
		if i < 0 || int(i) >= r.n {
			panic(goPanic{st.pc, "out range of bits"})
		}
		return one(st, r.bits()[i])
	}
	T[b+"Subset"] = func(x *X, st *State, a []V, I *Ins) []Out {
		_, r := x.getRope(st, a[0])
		x.whole(r)
		s, e := int(x.forceInt(st, a[1], types.Int)), int(x.forceInt(st, a[2], types.Int))
		if s > e || e > r.n {
			return one(st, Tuple{nilPtr, x.errVal(st, "Out of range")})
		}
		if s < 0 {
			panic(goPanic{st.pc, "out range of bits"})
		}
		return one(st, Tuple{x.newBin(st, x.ropeOf(r.bits()[s:e])), x.nilIface})
	}
	T[b+"Append"] = func(x *X, st *State, a []V, I *Ins) []Out {
		p, r := x.getRope(st, a[0])
		_, o := x.getRope(st, a[1])
		if r.n == 0 && r.root == nil {
			r = o
		} else {
			x.whole(o)
			for _, c := range o.bits() {
				r = x.snoc(r, c)
			}
		}
		x.setRope(st, p, r)
		return one(st, nil)
	}
	T[b+"AppendUint32"] = func(x *X, st *State, a []V, I *Ins) []Out {
		p, r := x.getRope(st, a[0])
		n := int(x.forceInt(st, a[2], types.Int))
		if n > 32 {
			panic(goPanic{st.pc, "numBits out of range 0-32"})
		}
		for _, c := range x.valueBits(st, a[1], n, types.Uint32) {
			r = x.snoc(r, c)
		}
		x.setRope(st, p, r)
		return one(st, nil)
	}
	T[b+"AppendBytes"] = func(x *X, st *State, a []V, I *Ins) []Out {
		p, r := x.getRope(st, a[0])
		s := x.force(st, a[1]).(*Slice)
		if s.sym != nil {
			x.limit("symbolic-length byte slice")
		}
		for i := 0; i < int(s.ln); i++ {
			for _, c := range x.valueBits(st, st.obj(s.obj).c[int(s.off)+i], 8, types.Uint8) {
				r = x.snoc(r, c)
			}
		}
		x.setRope(st, p, r)
		return one(st, nil)
	}
	T[b+"AppendByte"] = func(x *X, st *State, a []V, I *Ins) []Out {
		p, r := x.getRope(st, a[0])
		n := int(x.forceInt(st, a[2], types.Int))
		if n > 8 || n < 0 {
			return one(st, x.errVal(st, "numBits out of range 0-8"))
		}
		for _, c := range x.valueBits(st, a[1], n, types.Uint8) {
			r = x.snoc(r, c)
		}
		x.setRope(st, p, r)
		return one(st, x.nilIface)
	}
	T[b+"AppendBools"] = func(x *X, st *State, a []V, I *Ins) []Out {
		p, r := x.getRope(st, a[0])
		for _, c := range x.boolSlice(st, a[1]) {
			r = x.snoc(r, c)
		}
		x.setRope(st, p, r)
		return one(st, nil)
	}
	T[b+"AppendNumBools"] = func(x *X, st *State, a []V, I *Ins) []Out {
		p, r := x.getRope(st, a[0])
		n := int(x.forceInt(st, a[1], types.Int))
		if n < 0 {
			panic(goPanic{st.pc, "makeslice: len out of range"})
		}
		for i := 0; i < n; i++ {
			r = x.snoc(r, a[2].(*Node))
		}
		x.setRope(st, p, r)
		return one(st, nil)
	}
	T[b+"VisitAll"] = func(x *X, st *State, a []V, I *Ins) []Out {
		outs := []Out{{st: st}}
		_, r0 := x.getRope(st, a[0])
		n := x.whole(r0).n
		for i := 0; i < n; i++ {
			var nx []Out
			for _, o := range outs {
				if o.pan != nil {
					nx = append(nx, o)
					continue
				}
				_, r := x.getRope(o.st, a[0])
				nx = append(nx, x.callAny(a[1], []V{x.m.Int(int64(i)), r.bits()[i]}, o.st, I)...)
			}
			outs = nx
		}
		for i := range outs {
			outs[i].ret = nil
		}
		return outs
	}
	T[b+"String"] = func(x *X, st *State, a []V, I *Ins) []Out {
		_, r := x.getRope(st, a[0])
		var sb strings.Builder
		if r.root != nil {
			return one(st, &Str{term: x.m.TermNode(fmt.Sprintf("binstr%d", r.id))})
		}
		for _, c := range r.bits() {
			if !c.isConst() {
				return one(st, &Str{term: x.m.TermNode(fmt.Sprintf("binstr%d", r.id))})
			}
			sb.WriteByte('0' + byte(c.leaf.c))
		}
		return one(st, concStr(fmt.Sprintf("Binary length: %d, bits: %s", r.n, sb.String())))
	}
	T[b+"Len"] = func(x *X, st *State, a []V, I *Ins) []Out {
		_, r := x.getRope(st, a[0])
		return one(st, x.ropeLen(r))
	}
	T[b+"Bytes"] = func(x *X, st *State, a []V, I *Ins) []Out {
		_, r := x.getRope(st, a[0])
		return one(st, x.bytesOfRope(st, r))
	}
	T[b+"EqualTo"] = func(x *X, st *State, a []V, I *Ins) []Out {
		_, r := x.getRope(st, a[0])
		_, o := x.getRope(st, a[1])
		return one(st, x.ropeEq(r, o))
	}
	T[b+"Copy"] = func(x *X, st *State, a []V, I *Ins) []Out {
		_, r := x.getRope(st, a[0])
		return one(st, x.newBin(st, r))
	}
}

func (x *X) ropeEq(r, o *Rope) *Node {
	if r == o {
		return x.m.T
	}
	if r.root != o.root {
		x.limit("comparison of bit strings of symbolic length")
	}
	if r.n != o.n {
		return x.m.F
	}
	e := x.m.T
	p, q := r.bits(), o.bits()
	for i := range p {
		e = x.m.And(e, x.m.Iff(p[i], q[i]))
	}
	return e
}

func (x *X) bytesOfRope(st *State, r *Rope) *Slice {
	b := x.whole(r).bits()
	n := (len(b) + 7) / 8
	cells := make([]V, n)
	for i := range cells {
		bv := &BV{make([]*Node, 8)}
		for j := 0; j < 8; j++ {
			bv.b[7-j] = x.m.F
			if i*8+j < len(b) {
				bv.b[7-j] = b[i*8+j]
			}
		}
		cells[i] = x.m.bvSimplify(bv, types.Uint8)
	}
	return &Slice{obj: x.newObj(st, cells, types.Typ[types.Uint8]), ln: int32(n), cp: int32(n), esz: 1}
}
