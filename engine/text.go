package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"
)

// Text is an abstract string of unbounded length: any sequence of runes of the
// given kinds in which every class of need occurs. Without kinds only the lengths
// are known.
type Text struct {
	name  string
	len   *Node
	runes *Node
	need  uint32  // set of classes
	class []int64 // class of each kind of rune
	gen   V       // func(kind int) rune
	iters map[uint32]*Iter
}

// kanjiText is a text of n characters with a Shift_JIS code each.
type kanjiText struct {
	name string
	n    *Node
}

type sjStr struct {
	ln *Node
	b  []V
}

func (x *X) textLen(st *State, s *Str) V {
	if s.text.len == nil {
		x.limit("length of an abstract text")
	}
	return x.pinned(st, s.text.len)
}

func (x *X) textRunes(st *State, s *Str) V {
	if s.text.runes == nil {
		x.limit("length of an abstract text")
	}
	return x.pinned(st, s.text.runes)
}

func (x *X) runeLen(v V) V { x.limit("length of a symbolic rune"); return nil }

// textSnap: the state in which a frame first met an abstract text, and the states in
// which the iteration has been continued since.
type textSnap struct {
	st      *State
	next    int32
	visited map[string]bool
}

const textMark = "~" // names of variables that stand for the current rune

func (x *X) mentionsAtom(a *Atom) bool {
	if r, ok := x.textAtom[a]; ok {
		return r
	}
	r := strings.HasPrefix(a.name, textMark)
	for _, l := range []*Lin{a.lin, a.lin2} {
		if l != nil {
			for _, t := range l.ts {
				r = r || x.mentionsAtom(t.a)
			}
		}
	}
	for _, n := range a.args {
		r = r || x.mentions(n)
	}
	if x.textAtom == nil {
		x.textAtom = map[*Atom]bool{}
	}
	x.textAtom[a] = r
	return r
}

func (x *X) mentionsVar(v int32) bool {
	vi := &x.m.vars[v]
	if strings.HasPrefix(vi.name, textMark) {
		return true
	}
	if vi.lin != nil {
		for _, t := range vi.lin.ts {
			if x.mentionsAtom(t.a) {
				return true
			}
		}
	}
	for _, n := range vi.args {
		if x.mentions(n) {
			return true
		}
	}
	return vi.node != nil && x.mentions(vi.node)
}

// mentions: the value depends on the current rune of an abstract text.
func (x *X) mentions(n *Node) bool {
	for _, v := range x.m.Support(n) {
		if x.mentionsVar(v) {
			return true
		}
	}
	for _, l := range x.m.Leaves(n) {
		if l.leaf.kind == lkLin {
			for _, t := range l.leaf.lin.ts {
				if x.mentionsAtom(t.a) {
					return true
				}
			}
		} else if l.leaf.kind != lkConst {
			return true
		}
	}
	return false
}

// forget drops what a condition says about the runes seen so far.
func (x *X) forget(f *Node) *Node {
	memo := map[uint32]*Node{}
	var rec func(f *Node) *Node
	rec = func(f *Node) *Node {
		if f.isLeaf() {
			return f
		}
		if r, ok := memo[f.id]; ok {
			return r
		}
		a, b := rec(f.lo), rec(f.hi)
		var r *Node
		if x.mentionsVar(f.v) {
			r = x.m.Or(a, b)
		} else {
			r = x.m.mk(f.v, a, b)
		}
		memo[f.id] = r
		return r
	}
	return rec(f)
}

// stateKey canonises what the continuation of an iteration can depend on. Values that
// depend on a rune seen earlier are split into their (constant) alternatives first.
func (x *X) stateKey(fr *frame, it *item, snap *textSnap) string {
	st := it.st
	var sb strings.Builder
	ids := map[int32]int{}
	var queue []int32
	var val func(v V) V
	val = func(v V) V {
		switch u := v.(type) {
		case nil:
			sb.WriteByte('-')
		case *Node:
			if !u.isConst() && x.mentions(u) {
				if u.isLeaf() {
					x.limit("a value of an earlier character of an abstract text")
				}
				mx := x.muxOf(u)
				var r *Node
				for e := st.res; e != nil && r == nil; e = e.prev {
					if e.mux == mx {
						r = mx.v[e.alt].(*Node)
					}
				}
				if r == nil {
					panic(splitReq{mx})
				}
				if !r.isConst() && x.mentions(r) {
					x.limit("a value of an earlier character of an abstract text")
				}
				u = r
			}
			fmt.Fprintf(&sb, "n%d", u.id)
			return u
		case *Mux:
			for e := st.res; e != nil; e = e.prev {
				if e.mux == u {
					return val(u.v[e.alt])
				}
			}
			panic(splitReq{u})
		case Ptr:
			if u.obj >= snap.next {
				k, ok := ids[u.obj]
				if !ok {
					k = len(ids)
					ids[u.obj] = k
					queue = append(queue, u.obj)
				}
				fmt.Fprintf(&sb, "p%d+%d", k, u.off)
			} else {
				fmt.Fprintf(&sb, "P%d+%d", u.obj, u.off)
			}
		case *Str:
			if u.conc {
				fmt.Fprintf(&sb, "s%q", u.s)
			} else {
				fmt.Fprintf(&sb, "s%p", u)
			}
		case *Iface:
			fmt.Fprintf(&sb, "i%v:", u.t)
			if w := val(u.v); w != u.v {
				return &Iface{u.t, w}
			}
		case *Clo:
			fmt.Fprintf(&sb, "c%p:%d(", u.fn, len(u.binds))
			for i, b := range u.binds {
				if w := val(b); w != b {
					x.limit("a closure over an earlier character of an abstract text")
				}
				_ = i
			}
			sb.WriteByte(')')
		case *Iter:
			if u.text == nil {
				x.limit("iteration inside the iteration over an abstract text")
			}
			fmt.Fprintf(&sb, "t%s:%x", u.text.name, u.seen)
		default:
			x.limit("value %T kept across the iteration over an abstract text", v)
		}
		sb.WriteByte(' ')
		return v
	}
	for _, s := range it.b.live {
		if it.env[s] != nil {
			fmt.Fprintf(&sb, "%d=", s)
			it.env[s] = val(it.env[s])
		}
	}
	cells := func(id int32) {
		o := st.obj(id)
		if o == nil {
			return
		}
		if o.ext != nil {
			x.limit("map or channel kept across the iteration over an abstract text")
		}
		for i, c := range o.c {
			if w := val(c); w != c {
				st.wobj(id).c[i] = w
			}
		}
	}
	for i := range st.stk {
		if i < len(snap.st.stk) && st.stk[i] == snap.st.stk[i] || st.stk[i] == nil {
			continue
		}
		fmt.Fprintf(&sb, "|stk%d:", i)
		cells(int32(-i - 1))
	}
	for p := range st.tbl {
		if p < len(snap.st.tbl) && st.tbl[p] == snap.st.tbl[p] || st.tbl[p] == nil {
			continue
		}
		for i, o := range st.tbl[p].o {
			id := int32(p<<pageBits + i)
			if o != nil && id < snap.next && o != snap.st.obj(id) {
				fmt.Fprintf(&sb, "|obj%d:", id)
				cells(id)
			}
		}
	}
	for len(queue) > 0 {
		id := queue[0]
		queue = queue[1:]
		fmt.Fprintf(&sb, "|new%d:", ids[id])
		cells(id)
	}
	fmt.Fprintf(&sb, "|pc%d", st.pc.id)
	return sb.String()
}

func (x *X) nextText(fr *frame, it *item, I *Ins, itv *Iter, set func(*item, *Iter, bool, V, V)) []*item {
	t := itv.text
	if t.gen == nil {
		x.limit("iteration over an abstract text")
	}
	if it.ip != 0 || it.st.gor != nil {
		x.limit("unusual iteration over an abstract text")
	}
	if fr.texts == nil {
		fr.texts = map[*Ins]*textSnap{}
	}
	snap := fr.texts[I]
	if snap == nil {
		snap = &textSnap{st: x.fork(it.st), next: x.nextObj, visited: map[string]bool{}}
		fr.texts[I] = snap
	}
	// nothing is known about the next rune: what is known about the earlier ones is dropped
	x.stateKey(fr, it, snap)
	it.st.pc = x.forget(it.st.pc)
	it.st.res = snap.st.res
	it.st.nd = snap.st.nd
	if !bndEq(it.st, snap.st) {
		x.limit("interval split inside the iteration over an abstract text")
	}
	key := x.stateKey(fr, it, snap)
	if snap.visited[key] {
		return []*item{}
	}
	snap.visited[key] = true
	if len(snap.visited) > 5000 {
		x.limit("iteration over an abstract text does not settle")
	}
	var items []*item
	add := func(tag string, seen uint32, ok bool, k, v V, st *State) {
		// the choice is not determined by the state: items of different choices, or of
		// different histories before them, must not be merged as if their conditions
		// told them apart
		st.nd += fmt.Sprintf("%s@%d", tag, len(snap.visited))
		n := &item{b: it.b, ip: it.ip, env: append([]V(nil), it.env...), st: st, def: it.def, its: it.its}
		set(n, x.textIter(t, seen), ok, k, v)
		n.ip++
		items = append(items, n)
	}
	for kind, c := range t.class {
		if t.need>>uint(c)&1 == 0 {
			continue
		}
		pos := x.m.IntVar(textMark+t.name+".pos", 0, 1<<40, false)
		for _, o := range x.callAny(t.gen, []V{x.m.Int(int64(kind))}, x.fork(it.st), I) {
			if o.pan != nil {
				x.limit("panic in the generator of a text")
			}
			add(fmt.Sprintf("/%s%d", t.name, kind), itv.seen|1<<uint(c), true, pos, o.ret, o.st)
		}
	}
	if itv.seen == t.need {
		add("/"+t.name+"end", itv.seen, false, x.m.F, x.m.F, x.fork(it.st))
	}
	return items
}

// textIter: one iterator value per position class, so that states compare.
func (x *X) textIter(t *Text, seen uint32) *Iter {
	if t.iters == nil {
		t.iters = map[uint32]*Iter{}
	}
	if t.iters[seen] == nil {
		t.iters[seen] = &Iter{isStr: true, text: t, seen: seen}
	}
	return t.iters[seen]
}

// textCell: byte i of a text of symbolic bytes. Kinds: 0 decimal digits, 1 arbitrary
// bytes as bit vectors, 2 arbitrary bytes as integers.
func (x *X) textCell(name string, kind int64, i int64) V {
	switch kind {
	case 0:
		return x.m.IntVar(fmt.Sprintf("%s[%d]", name, i), '0', '9', false)
	case 1:
		return &BV{x.newBits(fmt.Sprintf("%s[%d]", name, i), 8)}
	}
	return x.m.IntVar(fmt.Sprintf("%s[%d]", name, i), 0, 255, false)
}

// sjCell: byte i of the Shift_JIS form of a kanji text: one of the codes 0x8141..0x9FFC
// and 0xE040..0xEBBF with a second byte in 0x40..0xFC.
func (x *X) sjCell(name string, i int64) V {
	m := x.m
	k := i / 2
	iv := func(s string, lo, hi int64) *Node {
		return m.IntVar(fmt.Sprintf("%s[%d].%s", name, k, s), lo, hi, false)
	}
	z1, z2 := m.NewBit(fmt.Sprintf("%s[%d].z1", name, k)), m.NewBit(fmt.Sprintf("%s[%d].z2", name, k))
	if i%2 == 0 {
		return m.ITE(z1, m.ITE(z2, m.Int(0x81), iv("hi1", 0x82, 0x9F)), m.ITE(z2, iv("hi2", 0xE0, 0xEA), m.Int(0xEB)))
	}
	return m.ITE(z1, m.ITE(z2, iv("lo0", 0x41, 0xFC), iv("lo1", 0x40, 0xFC)), m.ITE(z2, iv("lo2", 0x40, 0xFC), iv("lo3", 0x40, 0xBF)))
}

func init() {
	T := vIntr
	// v_Text(name, n, kind): a string of n bytes (kind 3: of n kanji)
	T["v_Text"] = func(x *X, st *State, a []V, I *Ins) []Out {
		name := x.cstr(st, a[0])
		n := x.nodeOf(a[1], types.Int)
		k := x.forceInt(st, a[2], types.Int)
		if k == 3 {
			return one(st, &Str{kan: &kanjiText{name, n}})
		}
		return one(st, &Str{sym: n, gen: func(i int) V { return x.textCell(name, k, int64(i)) }})
	}
	T["v_TextAt"] = func(x *X, st *State, a []V, I *Ins) []Out {
		name, k, i := x.cstr(st, a[0]), x.forceInt(st, a[1], types.Int), x.forceInt(st, a[2], types.Int)
		if k == 3 {
			return one(st, x.sjCell(name, i))
		}
		return one(st, x.textCell(name, k, i))
	}
	// v_SJIS(s): the Shift_JIS form of a text of kanji
	T["v_SJIS"] = func(x *X, st *State, a []V, I *Ins) []Out {
		s := x.force(st, a[0]).(*Str)
		if s.kan == nil {
			x.limit("Shift_JIS form of this string")
		}
		name := s.kan.name
		return one(st, &Str{sym: x.m.Op2(tokMUL, types.Int, s.kan.n, x.m.Int(2)), gen: func(i int) V { return x.sjCell(name, int64(i)) }})
	}
	// v_AbsText(name, n, runes): a text of n bytes and the given number of runes
	T["v_AbsText"] = func(x *X, st *State, a []V, I *Ins) []Out {
		return one(st, &Str{text: &Text{name: x.cstr(st, a[0]), len: x.nodeOf(a[1], types.Int), runes: x.nodeOf(a[2], types.Int)}})
	}
	// v_AnyText(name, need, class, gen): any text whose runes are of the kinds of class
	// that belong to a class of need, and in which each of these classes occurs
	T["v_AnyText"] = func(x *X, st *State, a []V, I *Ins) []Out {
		t := &Text{name: x.cstr(st, a[0]), need: uint32(x.forceInt(st, a[1], types.Int)), gen: a[3]}
		s := x.force(st, a[2]).(*Slice)
		for i := 0; i < int(s.ln); i++ {
			t.class = append(t.class, x.forceInt(st, st.obj(s.obj).c[int(s.off)+i], types.Int))
		}
		return one(st, &Str{text: t})
	}
	// v_SJISRune(s): the Shift_JIS form of a one-character string, its length (0: none)
	// and its bytes given by uninterpreted functions of the character
	T["v_SJISRune"] = func(x *X, st *State, a []V, I *Ins) []Out {
		s := x.force(st, a[0]).(*Str)
		if s.runeN == nil {
			x.limit("Shift_JIS form of this string")
		}
		r := x.nodeOf(s.runeN, types.Int32)
		uf := func(f string, lo, hi int64) *Node {
			return x.m.map1(x.m.opID("uf:"+f), r, func(l *Node) *Node { return x.m.UF(f, lo, hi, l) })
		}
		u := uf("sjis length", 0, 2)
		eq := func(k int64) *Node { return x.m.Op2(token.EQL, types.Int, u, x.m.Int(k)) }
		ln := x.m.ITE(eq(2), x.m.Int(2), x.m.ITE(eq(1), x.m.Int(1), x.m.Int(0)))
		return one(st, &Str{sj: &sjStr{ln: ln, b: []V{uf("sjis 1", 0, 255), uf("sjis 2", 0, 255)}}})
	}
	// v_BinaryOpaque(name, n): a bit string of n unspecified bits
	T["v_BinaryOpaque"] = func(x *X, st *State, a []V, I *Ins) []Out {
		return one(st, x.newBin(st, x.opaque(x.cstr(st, a[0]), x.nodeOf(a[1], types.Int))))
	}
	// v_UFApp(name, lo, hi, v): an uninterpreted function of a value
	T["v_UFApp"] = func(x *X, st *State, a []V, I *Ins) []Out {
		lo, hi := x.forceInt(st, a[1], types.Int), x.forceInt(st, a[2], types.Int)
		name := x.cstr(st, a[0])
		n := x.nodeOf(a[3], types.Int)
		if n.isLeaf() {
			return one(st, x.m.UF(name, lo, hi, n))
		}
		return one(st, x.m.map1(x.m.opID("uf:"+name), n, func(l *Node) *Node { return x.m.UF(name, lo, hi, l) }))
	}
}
