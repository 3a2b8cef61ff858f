package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"math/bits"
	"os"
	"strconv"
	"strings"
	"unicode/utf8"
)

func itoa(i int) string { return strconv.Itoa(i) }

func (x *X) assume(s string) { x.assumes[s] = true }

// goVal converts a concrete value to a native Go value for fmt.
func (x *X) goVal(st *State, v V, t types.Type) (interface{}, bool) {
	switch s := v.(type) {
	case *Node:
		s = x.pinned(st, s)
		if s.isLeaf() && s.leaf.kind == lkFloat {
			return s.leaf.f, true
		}
		if !s.isConst() {
			return nil, false
		}
		c := s.leaf.c
		switch basicKind(t) {
		case types.Bool:
			return c != 0, true
		case types.Int:
			return int(c), true
		case types.Int8:
			return int8(c), true
		case types.Int16:
			return int16(c), true
		case types.Int32:
			return int32(c), true
		case types.Int64:
			return c, true
		case types.Uint:
			return uint(c), true
		case types.Uint8:
			return uint8(c), true
		case types.Uint16:
			return uint16(c), true
		case types.Uint32:
			return uint32(c), true
		case types.Uint64:
			return uint64(c), true
		}
		return c, true
	case *Str:
		if s.conc {
			return s.s, true
		}
	case *Iface:
		if s.t == nil {
			return nil, true
		}
		return x.goVal(st, s.v, s.t)
	}
	return nil, false
}

// fmtString formats args natively when everything is concrete, and gives an
// opaque string otherwise (message texts carry no property).
func (x *X) fmtString(st *State, format V, rest V, mode string) *Str {
	var args []interface{}
	ok := true
	var fs string
	if format != nil {
		f, isS := x.force(st, format).(*Str)
		if !isS || !f.conc {
			ok = false
		} else {
			fs = f.s
		}
	}
	if ok && rest != nil {
		sl, isS := rest.(*Slice)
		if !isS || sl.sym != nil {
			ok = false
		} else {
			for i := 0; i < int(sl.ln) && ok; i++ {
				v := st.obj(sl.obj).c[int(sl.off)+i]
				ifc, isI := v.(*Iface)
				if !isI {
					ok = false
					break
				}
				if ifc.t != nil && !strings.Contains(fs, "%d") && !strings.Contains(fs, "%x") {
					if x.P.hasFmtMethod(ifc.t) {
						ok = false
						break
					}
				}
				g, good := x.goVal(st, v, nil)
				if !good {
					ok = false
					break
				}
				args = append(args, g)
			}
		}
	}
	if !ok {
		x.fresh++
		return &Str{term: x.m.TermNode("fmt" + itoa(x.fresh))}
	}
	switch mode {
	case "f":
		return concStr(fmt.Sprintf(fs, args...))
	case "ln":
		return concStr(fmt.Sprintln(args...))
	}
	return concStr(fmt.Sprint(args...))
}

func (x *X) opaqueErr(st *State, s V) *Iface {
	return &Iface{x.P.errType, Ptr{x.newObj(st, []V{s}, nil), 0}}
}

func nop(x *X, st *State, a []V, I *Ins) []Out { return one(st, nil) }

func stdIntrinsics(T map[string]intrin) {
	T["fmt.Sprintf"] = func(x *X, st *State, a []V, I *Ins) []Out { return one(st, x.fmtString(st, a[0], a[1], "f")) }
	T["fmt.Sprint"] = func(x *X, st *State, a []V, I *Ins) []Out { return one(st, x.fmtString(st, nil, a[0], "")) }
	T["fmt.Sprintln"] = func(x *X, st *State, a []V, I *Ins) []Out { return one(st, x.fmtString(st, nil, a[0], "ln")) }
	T["fmt.Errorf"] = func(x *X, st *State, a []V, I *Ins) []Out {
		return one(st, x.opaqueErr(st, x.fmtString(st, a[0], a[1], "f")))
	}
	T["errors.New"] = func(x *X, st *State, a []V, I *Ins) []Out { return one(st, x.opaqueErr(st, a[0])) }
	T["(*errors.errorString).Error"] = func(x *X, st *State, a []V, I *Ins) []Out {
		p := x.force(st, a[0]).(Ptr)
		return one(st, st.obj(p.obj).c[p.off])
	}
	for _, n := range []string{"Print", "Printf", "Println"} {
		T["log."+n] = nop
		T["fmt."+n] = func(x *X, st *State, a []V, I *Ins) []Out {
			return one(st, Tuple{x.m.F, x.nilIface})
		}
	}
	T["(*log.Logger).Printf"] = nop
	T["(*log.Logger).Println"] = nop
	pan := func(x *X, st *State, a []V, I *Ins) []Out {
		return []Out{{st: st, pan: &Iface{types.Typ[types.String], concStr("log.Panic")}, msg: "log.Panic/Fatal at " + posOf(I.in)}}
	}
	for _, n := range []string{"Panic", "Panicf", "Panicln", "Fatal", "Fatalf", "Fatalln"} {
		T["log."+n] = pan
	}
	T["os.Exit"] = pan
	T["os.Getenv"] = func(x *X, st *State, a []V, I *Ins) []Out {
		x.assume("environment variable QRCODE_DEBUG is unset (debug mode off)")
		return one(st, x.emptyStr)
	}
	T["(*sync.Once).Do"] = func(x *X, st *State, a []V, I *Ins) []Out {
		p := x.force(st, a[0]).(Ptr)
		o := st.obj(p.obj)
		if n, ok := o.c[p.off].(*Node); ok && n != x.m.F {
			return one(st, nil)
		}
		if st.gor != nil {
			st.gor.locks++
		}
		outs := x.callAny(a[1], nil, st, I)
		for i := range outs {
			outs[i].ret = nil
			outs[i].st.wobj(p.obj).c[p.off] = x.m.T
		}
		if st.gor != nil {
			st.gor.locks--
		}
		return outs
	}
	wgAdd := func(x *X, st *State, v V, d *Node) {
		p := x.force(st, v).(Ptr)
		w := st.wobj(p.obj)
		n, _ := w.c[p.off].(*Node)
		w.c[p.off] = x.m.Op2(token.ADD, types.Int, n, d)
		if r := w.c[p.off].(*Node); r.isConst() && r.leaf.c < 0 {
			panic(goPanic{st.pc, "sync: negative WaitGroup counter"})
		}
	}
	T["(*sync.WaitGroup).Add"] = func(x *X, st *State, a []V, I *Ins) []Out {
		wgAdd(x, st, a[0], x.nodeOf(a[1], types.Int))
		if x.gorDepth > 0 && st.gor != nil && !st.gor.late {
			x.race(st, "WaitGroup.Add inside the goroutine it counts")
		}
		return one(st, nil)
	}
	T["(*sync.WaitGroup).Done"] = func(x *X, st *State, a []V, I *Ins) []Out {
		wgAdd(x, st, a[0], x.m.Int(-1))
		if st.gor != nil && x.gorDepth > 0 && !st.gor.late {
			l := newGor()
			l.late = true
			l.before = st.gor
			st.gor = l
		}
		return one(st, nil)
	}
	T["(*sync.WaitGroup).Go"] = nil
	delete(T, "(*sync.WaitGroup).Go")
	T["(*sync.WaitGroup).Wait"] = func(x *X, st *State, a []V, I *Ins) []Out {
		p := x.force(st, a[0]).(Ptr)
		n, _ := st.obj(p.obj).c[p.off].(*Node)
		if n != x.m.F {
			panic(goPanic{st.pc, "deadlock: WaitGroup.Wait with a counter that never reaches zero"})
		}
		x.joinGors(st)
		return one(st, nil)
	}
	lock := func(d int) intrin {
		return func(x *X, st *State, a []V, I *Ins) []Out {
			if st.gor != nil {
				st.gor.locks += d
			}
			return one(st, nil)
		}
	}
	T["(*sync.Mutex).Lock"] = lock(1)
	T["(*sync.Mutex).Unlock"] = lock(-1)
	T["(*sync.RWMutex).Lock"] = lock(1)
	T["(*sync.RWMutex).Unlock"] = lock(-1)
	T["(*sync.RWMutex).RLock"] = lock(1)
	T["(*sync.RWMutex).RUnlock"] = lock(-1)
	T["strconv.Itoa"] = func(x *X, st *State, a []V, I *Ins) []Out {
		n := x.pinned(st, x.nodeOf(a[0], types.Int))
		if n.isConst() {
			return one(st, concStr(strconv.FormatInt(n.leaf.c, 10)))
		}
		if !n.isLeaf() {
			return one(st, concStr(strconv.FormatInt(x.forceInt(st, n, types.Int), 10)))
		}
		return one(st, &Str{term: x.m.TermNode("itoa", n), min: 1})
	}
	T["strconv.FormatInt"] = func(x *X, st *State, a []V, I *Ins) []Out {
		n := x.forceInt(st, a[0], types.Int64)
		return one(st, concStr(strconv.FormatInt(n, int(x.forceInt(st, a[1], types.Int)))))
	}
	T["strconv.FormatUint"] = func(x *X, st *State, a []V, I *Ins) []Out {
		n := x.forceInt(st, a[0], types.Uint64)
		return one(st, concStr(strconv.FormatUint(uint64(n), int(x.forceInt(st, a[1], types.Int)))))
	}
	T["unicode/utf8.RuneCountInString"] = func(x *X, st *State, a []V, I *Ins) []Out {
		s := x.force(st, a[0]).(*Str)
		switch {
		case s.kan != nil:
			return one(st, x.pinned(st, s.kan.n))
		case s.conc:
			return one(st, x.m.Int(int64(utf8.RuneCountInString(s.s))))
		case s.text != nil:
			return one(st, x.textRunes(st, s))
		}
		b, ok := x.strBytes(s)
		if ok && x.allASCII(st, b) {
			return one(st, x.m.Int(int64(len(b))))
		}
		x.limit("RuneCountInString of an abstract string")
		return nil
	}
	T["unicode/utf8.RuneCount"] = func(x *X, st *State, a []V, I *Ins) []Out {
		s := x.force(st, a[0]).(*Slice)
		b := st.obj(s.obj).c[s.off : s.off+s.ln]
		if x.allASCII(st, b) {
			return one(st, x.m.Int(int64(len(b))))
		}
		x.limit("RuneCount of abstract bytes")
		return nil
	}
	f1 := func(name string, f func(float64) float64) {
		T["math."+name] = func(x *X, st *State, a []V, I *Ins) []Out {
			n := x.nodeOf(a[0], types.Float64)
			return one(st, x.m.map1(x.m.opID("math."+name), n, func(l *Node) *Node {
				if l.leaf.kind == lkFloat {
					return x.m.Float(f(l.leaf.f))
				}
				return x.m.TermNode("math."+name, l)
			}))
		}
	}
	f1("Abs", math.Abs)
	f1("Floor", math.Floor)
	f1("Ceil", math.Ceil)
	f1("Round", math.Round)
	f1("Trunc", math.Trunc)
	f1("Sqrt", math.Sqrt)
	f1("Sin", math.Sin)
	f1("Cos", math.Cos)
	f1("Tan", math.Tan)
	f2 := func(name string, f func(a, b float64) float64) {
		T["math."+name] = func(x *X, st *State, a []V, I *Ins) []Out {
			return one(st, x.m.map2(x.m.opID("math."+name), x.nodeOf(a[0], types.Float64), x.nodeOf(a[1], types.Float64), func(p, q *Node) *Node {
				if p.leaf.kind == lkFloat && q.leaf.kind == lkFloat {
					return x.m.Float(f(p.leaf.f, q.leaf.f))
				}
				return x.m.TermNode("math."+name, p, q)
			}))
		}
	}
	f2("Max", math.Max)
	f2("Min", math.Min)
	f2("Mod", math.Mod)
	f2("Pow", math.Pow)
	f2("Atan2", math.Atan2)
	b1 := func(name string, f func(c uint64) int64, k types.BasicKind) {
		T["math/bits."+name] = func(x *X, st *State, a []V, I *Ins) []Out {
			n := x.nodeOf(a[0], k)
			return one(st, x.m.map1(x.m.opID("bits."+name), n, func(l *Node) *Node {
				if l.isConst() {
					return x.m.Int(f(u(l.leaf.c, k)))
				}
				return x.m.UF("bits."+name, 0, 64, l)
			}))
		}
	}
	b1("OnesCount", func(c uint64) int64 { return int64(bits.OnesCount64(c)) }, types.Uint)
	b1("OnesCount8", func(c uint64) int64 { return int64(bits.OnesCount64(c)) }, types.Uint8)
	b1("OnesCount16", func(c uint64) int64 { return int64(bits.OnesCount64(c)) }, types.Uint16)
	b1("OnesCount32", func(c uint64) int64 { return int64(bits.OnesCount64(c)) }, types.Uint32)
	b1("OnesCount64", func(c uint64) int64 { return int64(bits.OnesCount64(c)) }, types.Uint64)
	b1("Len", func(c uint64) int64 { return int64(bits.Len64(c)) }, types.Uint)
	b1("Len32", func(c uint64) int64 { return int64(bits.Len64(c)) }, types.Uint32)
	b1("Len64", func(c uint64) int64 { return int64(bits.Len64(c)) }, types.Uint64)
	b1("TrailingZeros", func(c uint64) int64 { return int64(bits.TrailingZeros64(c)) }, types.Uint)
}

func (x *X) race(st *State, msg string) {
	if len(x.races) < 20 {
		x.races = append(x.races, msg)
	}
}

func (x *X) allASCII(st *State, b []V) bool {
	for _, v := range b {
		if n, ok := v.(*Node); ok && n.isConst() {
			if n.leaf.c >= 0x80 {
				return false
			}
			continue
		}
		hi := x.simp(st, x.m.bvOf(v, types.Uint8).b[7])
		if x.m.And(st.pc, hi) != x.m.F {
			return false
		}
	}
	return true
}

// ---------------------------------------------------------------- specification intrinsics (functions named v_*)

var vIntr = map[string]intrin{}

func (x *X) cstr(st *State, v V) string {
	s, ok := x.force(st, v).(*Str)
	if !ok || !s.conc {
		x.limit("constant string expected in a specification")
	}
	return s.s
}

func (x *X) newBits(name string, n int) []*Node {
	r := make([]*Node, n)
	for i := range r {
		r[i] = x.m.NewBit(fmt.Sprintf("%s.%d", name, i))
	}
	return r
}

func init() {
	T := vIntr
	T["v_Symbolic"] = func(x *X, st *State, a []V, I *Ins) []Out { return one(st, x.m.T) }
	T["v_Bool"] = func(x *X, st *State, a []V, I *Ins) []Out {
		return one(st, x.m.NewBit(x.cstr(st, a[0])))
	}
	T["v_Byte"] = func(x *X, st *State, a []V, I *Ins) []Out {
		return one(st, &BV{x.newBits(x.cstr(st, a[0]), 8)})
	}
	T["v_Uint16"] = func(x *X, st *State, a []V, I *Ins) []Out {
		return one(st, &BV{x.newBits(x.cstr(st, a[0]), 16)})
	}
	T["v_Rune"] = func(x *X, st *State, a []V, I *Ins) []Out {
		b := x.newBits(x.cstr(st, a[0]), 21)
		for len(b) < 32 {
			b = append(b, x.m.F)
		}
		return one(st, &BV{b})
	}
	// v_Small(name, n): an integer 0..2^n-1 as a diagram over n input bits
	T["v_Small"] = func(x *X, st *State, a []V, I *Ins) []Out {
		n := int(x.forceInt(st, a[1], types.Int))
		return one(st, x.m.bvToNode(&BV{x.newBits(x.cstr(st, a[0]), n)}, types.Uint64))
	}
	T["v_Int"] = func(x *X, st *State, a []V, I *Ins) []Out {
		lo, hi := x.forceInt(st, a[1], types.Int), x.forceInt(st, a[2], types.Int)
		return one(st, x.m.IntVar(x.cstr(st, a[0]), lo, hi, false))
	}
	T["v_Cell"] = func(x *X, st *State, a []V, I *Ins) []Out {
		i, j := x.forceInt(st, a[1], types.Int), x.forceInt(st, a[2], types.Int)
		return one(st, x.m.IntVar(fmt.Sprintf("%s[%d,%d]", x.cstr(st, a[0]), i, j), 0, 255, false))
	}
	T["v_IntSplit"] = func(x *X, st *State, a []V, I *Ins) []Out {
		lo, hi := x.forceInt(st, a[1], types.Int), x.forceInt(st, a[2], types.Int)
		return one(st, x.m.IntVar(x.cstr(st, a[0]), lo, hi, true))
	}
	T["v_Force"] = func(x *X, st *State, a []V, I *Ins) []Out {
		return one(st, x.m.Int(x.forceInt(st, a[0], types.Int)))
	}
	T["v_IsConst"] = func(x *X, st *State, a []V, I *Ins) []Out {
		n, ok := a[0].(*Node)
		return one(st, x.m.Bool(ok && x.pinned(st, n).isConst()))
	}
	T["v_Case"] = func(x *X, st *State, a []V, I *Ins) []Out { return one(st, nil) }
	T["v_Assume"] = func(x *X, st *State, a []V, I *Ins) []Out {
		c := a[0].(*Node)
		st.pc = x.simpPC(x.m.And(st.pc, x.simp(st, c)))
		if st.pc == x.m.F {
			return nil
		}
		return one(st, nil)
	}
	T["v_Inv"] = func(x *X, st *State, a []V, I *Ins) []Out {
		// a fact about input variables only, true by their definition
		c := a[0].(*Node)
		for _, v := range x.m.Support(c) {
			if o, ok := x.inv[v]; ok {
				x.inv[v] = x.m.And(o, c)
			} else {
				x.inv[v] = c
			}
		}
		return one(st, nil)
	}
	T["v_Assert"] = func(x *X, st *State, a []V, I *Ins) []Out {
		x.assertIn(st, a[0].(*Node), x.cstr(st, a[1]), -1, I)
		return one(st, nil)
	}
	T["v_AssertAt"] = func(x *X, st *State, a []V, I *Ins) []Out {
		x.assertIn(st, a[0].(*Node), x.cstr(st, a[1]), x.forceInt(st, a[2], types.Int), I)
		return one(st, nil)
	}
	T["v_Binary"] = func(x *X, st *State, a []V, I *Ins) []Out {
		n := int(x.forceInt(st, a[1], types.Int))
		return one(st, x.newBin(st, x.ropeOf(x.newBits(x.cstr(st, a[0]), n))))
	}
	T["v_BinaryEq"] = func(x *X, st *State, a []V, I *Ins) []Out {
		_, r := x.getRope(st, a[0])
		_, o := x.getRope(st, a[1])
		return one(st, x.ropeEq(r, o))
	}
	// v_UFBits(name, n, in): n bits, an uninterpreted function of the bit string in
	T["v_UFBits"] = func(x *X, st *State, a []V, I *Ins) []Out {
		_, r := x.getRope(st, a[2])
		n := int(x.forceInt(st, a[1], types.Int))
		b := x.newBits(fmt.Sprintf("%s[%d]", x.cstr(st, a[0]), r.id), n)
		return one(st, x.newBin(st, x.ropeOf(b)))
	}
	// v_UFInt(name, lo, hi, bits): an integer that is a function of the booleans
	T["v_UFInt"] = func(x *X, st *State, a []V, I *Ins) []Out {
		bs := x.boolSlice(st, a[3])
		if x.hasTheory(st.pc) {
			for i, b := range bs { // the argument as far as this path can tell
				if !b.isLeaf() {
					bs[i] = x.m.Restrict(b, st.pc)
				}
			}
		}
		r := x.ropeOf(bs)
		lo, hi := x.forceInt(st, a[1], types.Int), x.forceInt(st, a[2], types.Int)
		return one(st, x.m.IntVar(fmt.Sprintf("%s[%d]", x.cstr(st, a[0]), r.id), lo, hi, false))
	}
	T["v_Panics"] = func(x *X, st *State, a []V, I *Ins) []Out {
		outs := x.callAny(a[0], nil, st, I)
		for i := range outs {
			p := outs[i].pan != nil
			outs[i].pan = nil
			outs[i].ret = x.m.Bool(p)
		}
		return outs
	}
	// v_AssertMut checks nothing symbolically; engine-level marker
	T["v_Log"] = func(x *X, st *State, a []V, I *Ins) []Out {
		if x.trace || os.Getenv("QLOG") != "" {
			fmt.Println("v_Log:", x.cstr(st, a[0]), vstr(x.m, a[1]))
		}
		return one(st, nil)
	}
	T["v_NoRaces"] = func(x *X, st *State, a []V, I *Ins) []Out {
		x.joinCheck(st)
		c := x.m.T
		for _, r := range x.races {
			x.fail(st, x.m.T, "data race: "+r, I)
			c = x.m.F
		}
		x.races = nil
		_ = c
		x.okObl("race freedom of the goroutines", I)
		return one(st, nil)
	}
	// the index of the first candidate that is provably equal to the value, -1 if none
	T["v_Find"] = func(x *X, st *State, a []V, I *Ins) []Out {
		f := x.nodeOf(x.force(st, a[0]), types.Float64)
		s := x.force(st, a[1]).(*Slice)
		cs := st.obj(s.obj).c[s.off : s.off+s.ln]
		for i, c := range cs {
			if n, ok := c.(*Node); ok && n == f {
				return one(st, x.m.Int(int64(i)))
			}
		}
		for i, c := range cs {
			if n, ok := c.(*Node); ok {
				eq := x.m.floatOp(token.EQL, types.Float64, n, f)
				if eq == x.m.T || x.m.AndNot(st.pc, eq) == x.m.F {
					return one(st, x.m.Int(int64(i)))
				}
			}
		}
		return one(st, x.m.Int(-1))
	}
	// a concrete answer: whether the path condition implies the argument
	T["v_Proves"] = func(x *X, st *State, a []V, I *Ins) []Out {
		c := a[0].(*Node)
		return one(st, x.m.Bool(c == x.m.T || x.m.AndNot(st.pc, c) == x.m.F))
	}
	T["v_AnyOrder"] = func(x *X, st *State, a []V, I *Ins) []Out {
		x.anyOrder = a[0].(*Node) == x.m.T
		return one(st, nil)
	}
}

// joinCheck: goroutines still running at the end race with everything after.
func (x *X) joinCheck(st *State) {
	if st.gor != nil {
		x.checkRaces(st.gor, st)
	}
}

func init() {
	T := vIntr
	T["v_digits"] = func(x *X, st *State, a []V, I *Ins) []Out {
		return one(st, concStr(itoa(int(x.forceInt(st, a[0], types.Int)))))
	}
	T["v_Rec"] = func(x *X, st *State, a []V, I *Ins) []Out {
		s := a[0].(*Slice)
		n := 0
		if st.tr != nil {
			n = st.tr.n
		}
		st.tr = &Event{prev: st.tr, n: n + 1, name: "rec", args: append([]V(nil), st.obj(s.obj).c[s.off:s.off+s.ln]...)}
		return one(st, nil)
	}
	T["v_RecN"] = func(x *X, st *State, a []V, I *Ins) []Out {
		n := 0
		if st.tr != nil {
			n = st.tr.n
		}
		return one(st, x.m.Int(int64(n)))
	}
	T["v_RecAt"] = func(x *X, st *State, a []V, I *Ins) []Out {
		i, k := x.forceInt(st, a[0], types.Int), x.forceInt(st, a[1], types.Int)
		for e := st.tr; e != nil; e = e.prev {
			if int64(e.n) == i+1 {
				return one(st, e.args[k])
			}
		}
		x.limit("event index out of range")
		return nil
	}
}
