package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// calleeOf evaluates the function value and the arguments of a call.
func (x *X) calleeOf(it *item, fi *FI, I *Ins, c *ssa.CallCommon) (V, []V) {
	args := make([]V, 0, len(I.args)+1)
	if c.IsInvoke() {
		recv := x.force(it.st, x.val(fi, it, I.a))
		switch r := recv.(type) {
		case *Iface:
			if r.t == nil {
				panic(goPanic{it.st.pc, "nil pointer dereference (method call on a nil interface)"})
			}
			fn := x.P.method(r.t, c.Method)
			if fn == nil {
				x.limit("no method %s on %s", c.Method.Name(), r.t)
			}
			rv := r.v
			if _, isExt := rv.(*Ext); isExt {
				break
			}
			args = append(args, rv)
			for _, a := range I.args {
				args = append(args, x.val(fi, it, a))
			}
			return &Clo{fn: fn}, args
		}
		if r, ok := recv.(*Iface); ok {
			recv = r.v
		}
		if e, ok := recv.(*Ext); ok {
			args = append(args, e)
			for _, a := range I.args {
				args = append(args, x.val(fi, it, a))
			}
			name := c.Method.Name()
			sig := c.Method.Type().(*types.Signature)
			return &Clo{builtin: "method " + name, native: func(x *X, st *State, a []V) []Out {
				return x.extCall(st, e.name+"."+name, sig, a, e)
			}}, args
		}
		x.limit("method call on %T", recv)
	}
	for _, a := range I.args {
		args = append(args, x.val(fi, it, a))
	}
	return x.val(fi, it, I.a), args
}

// callIns executes a call instruction. done reports that it completed with a
// single outcome (the item simply continues).
func (x *X) callIns(fr *frame, it *item, I *Ins, c *ssa.CallCommon) ([]*item, bool) {
	fn, args := x.calleeOf(it, fr.fi, I, c)
	outs := x.callAny(fn, args, it.st, I)
	if len(outs) == 1 && outs[0].pan == nil {
		it.st = outs[0].st
		if I.dst >= 0 {
			it.env[I.dst] = outs[0].ret
		}
		return nil, true
	}
	var conts []*item
	for _, o := range outs {
		if o.pan != nil {
			x.panicOut(fr, &item{b: it.b, ip: it.ip, env: it.env, st: o.st, def: it.def}, o.pan, o.msg)
			continue
		}
		env := append([]V(nil), it.env...)
		if I.dst >= 0 {
			env[I.dst] = o.ret
		}
		conts = append(conts, &item{b: it.b, ip: it.ip + 1, env: env, st: o.st, def: it.def, its: it.its})
	}
	return conts, false
}

func (x *X) callAny(fv V, args []V, st *State, I *Ins) []Out {
	fv = x.force(st, fv)
	c, ok := fv.(*Clo)
	if !ok {
		x.limit("call of %T", fv)
	}
	if c == x.nilFunc {
		panic(goPanic{st.pc, "nil pointer dereference (call of a nil function)"})
	}
	if c.native != nil {
		return c.native(x, st, args)
	}
	if c.builtin != "" {
		return x.builtin(c.builtin, args, st, I)
	}
	return x.callFunc(c.fn, args, c.binds, st, I)
}

func (x *X) callFunc(fn *ssa.Function, args, binds []V, st *State, I *Ins) []Out {
	info := x.fiCache[fn]
	if info == nil {
		info = x.P.fnInfo(fn)
		x.fiCache[fn] = info
	}
	if info.v {
		if h, ok := vIntr[fn.Name()]; ok {
			return h(x, st, args, I)
		}
	}
	if len(x.redir) > 0 && x.noRedir != fn {
		r, ok := x.redir[fn]
		if !ok && fn.Origin() != nil && fn.Origin() != fn {
			// a contract of a generic function applies to the instance it fits
			if r, ok = x.redir[fn.Origin()]; ok && !sameShape(fn, r) {
				x.limit("the contract %s does not fit the instance %s", r.Name(), fn)
			}
			if ok {
				x.sumUsed[fn.Origin().String()]++
			}
		}
		if ok {
			x.sumUsed[fn.String()]++
			return x.callFn(r, args, binds, st)
		}
	}
	if info.intr != nil {
		return info.intr(x, st, args, I)
	}
	if x.inInit && fn.Name() == "init" && fn.Synthetic != "" {
		return one(st, nil) // initialisers run in dependency order
	}
	if !info.interp || fn.Blocks == nil {
		if info.effectFree {
			return x.extCall(st, fn.String(), fn.Signature, args, nil)
		}
		x.limit("call of external function %s", fn)
	}
	return x.callFn(fn, args, binds, st)
}

func (x *X) goIns(fr *frame, it *item, I *Ins, c *ssa.CallCommon) []*item {
	fn, args := x.calleeOf(it, fr.fi, I, c)
	st := it.st
	// accesses of the launcher so far may race with the goroutines already running
	if st.gor != nil {
		x.checkRaces(st.gor, st)
	}
	saved := st.gor
	g := newGor()
	st.gor = g
	x.gorDepth++
	outs := x.callAny(fn, args, st, I)
	x.gorDepth--
	var conts []*item
	for _, o := range outs {
		if o.pan != nil {
			x.panicOut(fr, &item{b: it.b, ip: it.ip, env: append([]V(nil), it.env...), st: o.st, def: nil}, o.pan, "in a goroutine: "+o.msg)
			continue
		}
		gs := append([]*gorCtx(nil), o.st.gors...)
		x.checkRaces(g, o.st)
		if l := o.st.gor; l != nil && l.late {
			x.checkRaces(l, o.st)
			gs = append(gs, l)
		}
		o.st.gors = append(gs, g)
		if saved == nil {
			o.st.gor = newGor()
		} else {
			o.st.gor = saved
		}
		conts = append(conts, &item{b: it.b, ip: it.ip + 1, env: append([]V(nil), it.env...), st: o.st, def: it.def, its: it.its})
	}
	if len(conts) == 1 {
		it.st = conts[0].st
		return nil
	}
	if conts == nil {
		return []*item{}
	}
	return conts
}

func newGor() *gorCtx {
	return &gorCtx{rd: map[int32][]uint64{}, wr: map[int32][]uint64{}, lastR: -1 << 30}
}

func (x *X) checkRaces(g *gorCtx, st *State) {
	for _, h := range st.gors {
		if p, bad := g.conflict(h); bad {
			name := x.objName(st, p)
			if len(x.races) < 20 {
				x.races = append(x.races, "unsynchronised conflicting accesses of two goroutines to "+name)
			}
		}
	}
}

func (x *X) objName(st *State, p Ptr) string {
	if g, ok := x.globalOf[p.obj]; ok {
		return g.String()
	}
	o := st.obj(p.obj)
	if o != nil && o.t != nil {
		return fmt.Sprintf("an object of type %s (cell %d)", o.t, p.off)
	}
	return fmt.Sprintf("object %d (cell %d)", p.obj, p.off)
}

// joinGors: all goroutines have finished before this point (WaitGroup.Wait).
func (x *X) joinGors(st *State) {
	if st.gor != nil && len(st.gors) > 0 {
		x.checkRaces(st.gor, st)
	}
	if x.gorDepth == 0 {
		var late []*gorCtx
		for _, g := range st.gors {
			if g.late && (len(g.rd) > 0 || len(g.wr) > 0) {
				late = append(late, g)
			}
		}
		st.gors = late
		st.gor = nil
		if late != nil {
			st.gor = newGor()
		}
	}
}

// ---------------------------------------------------------------- builtins

func (x *X) builtin(name string, args []V, st *State, I *Ins) []Out {
	switch name {
	case "len", "cap":
		v := args[0]
		if mx, ok := v.(*Mux); ok {
			// merge lengths when every alternative is a plain slice or string
			var r V
			okAll := true
			for i := len(mx.v) - 1; i >= 0 && okAll; i-- {
				l, ok := x.lenOf(st, mx.v[i], name == "cap")
				if !ok {
					okAll = false
					break
				}
				if r == nil {
					r = l
				} else {
					r, _ = x.mergeV(mx.g[i], l, r, false)
				}
			}
			if okAll && r != nil {
				return one(st, r)
			}
			v = x.force(st, v)
		}
		l, ok := x.lenOf(st, v, name == "cap")
		if !ok {
			x.limit("%s of %T", name, v)
		}
		return one(st, l)
	case "append":
		return one(st, x.appendV(st, args[0], args[1], I))
	case "copy":
		d := x.force(st, args[0]).(*Slice)
		if s, ok := x.force(st, args[1]).(*Str); ok {
			args[1] = x.strToBytes(st, s)
		}
		s := x.force(st, args[1]).(*Slice)
		if d.sym != nil || s.sym != nil {
			x.limit("copy of symbolic-length slices")
		}
		n := int(min(d.ln, s.ln))
		x.copyCells(st, d, 0, s, n)
		return one(st, x.m.Int(int64(n)))
	case "delete":
		mv, ok := x.force(st, args[0]).(MapV)
		if !ok {
			x.limit("delete from %T", args[0])
		}
		if mv.obj == 0 {
			return one(st, nil)
		}
		key := x.mapKey(st, args[1])
		md := st.wobj(mv.obj).ext.(*MapData)
		if i, ok := md.idx[key]; ok {
			md.keys = append(md.keys[:i], md.keys[i+1:]...)
			md.vals = append(md.vals[:i], md.vals[i+1:]...)
			delete(md.idx, key)
			for k, j := range md.idx {
				if j > i {
					md.idx[k] = j - 1
				}
			}
		}
		return one(st, nil)
	case "clear":
		switch c := x.force(st, args[0]).(type) {
		case MapV:
			md := st.wobj(c.obj).ext.(*MapData)
			md.keys, md.vals, md.idx = nil, nil, map[string]int{}
			return one(st, nil)
		}
		x.limit("clear of %T", args[0])
	case "min", "max":
		k := basicKind(I.in.(ssa.Value).Type())
		r := args[0]
		for _, a := range args[1:] {
			p, q := x.nodeOf(r, k), x.nodeOf(a, k)
			if isFloat(k) && (!p.isLeaf() || p.leaf.kind != lkFloat || !q.isLeaf() || q.leaf.kind != lkFloat) {
				x.limit("min/max of symbolic floats")
			}
			tok := tokLSS
			if name == "max" {
				tok = tokGTR
			}
			r = x.m.ITE(x.m.Op2(tok, k, p, q), p, q)
		}
		return one(st, r)
	case "print", "println":
		return one(st, nil)
	case "recover":
		if st.pan != nil && st.pan.active {
			st.pan = &panInfo{v: st.pan.v, msg: st.pan.msg, active: false}
			return one(st, st.panV())
		}
		return one(st, x.nilIface)
	case "close":
		c, ok := x.force(st, args[0]).(ChanV)
		if !ok || c.obj == 0 {
			panic(goPanic{st.pc, "close of nil channel"})
		}
		cd := st.wobj(c.obj).ext.(*ChanData)
		if cd.closed {
			panic(goPanic{st.pc, "close of closed channel"})
		}
		if len(st.gors) > 0 && cd.conc && x.gorDepth == 0 {
			x.race(st, "channel closed while goroutines that send on it may still run")
		}
		cd.closed = true
		return one(st, nil)
	case "ssa:wrapnilchk":
		p := x.force(st, args[0])
		if q, ok := p.(Ptr); ok && q.obj == 0 {
			panic(goPanic{st.pc, "nil pointer dereference"})
		}
		return one(st, p)
	case "panic":
		return []Out{{st: st, pan: args[0], msg: "panic"}}
	}
	x.limit("builtin %s", name)
	return nil
}

func (s *State) panV() V { return s.pan.v }

func (x *X) lenOf(st *State, v V, capOf bool) (V, bool) {
	switch s := v.(type) {
	case *Slice:
		if s.sym != nil {
			return x.pinned(st, s.sym), !capOf
		}
		if capOf {
			return x.m.Int(int64(s.cp)), true
		}
		return x.m.Int(int64(s.ln)), true
	case *Str:
		switch {
		case s.sym != nil:
			return x.pinned(st, s.sym), true
		case s.conc:
			return x.m.Int(int64(len(s.s))), true
		case s.text != nil:
			return x.textLen(st, s), true
		case s.runeN != nil:
			return x.runeLen(s.runeN), true
		case s.term != nil:
			return x.m.UF("strlen", s.min, maxInf, s.term), true
		case s.sj != nil:
			return s.sj.ln, true
		}
		return x.m.Int(int64(len(s.bytes))), true
	case MapV:
		if s.obj == 0 {
			return x.m.F, true
		}
		return x.m.Int(int64(len(st.obj(s.obj).ext.(*MapData).keys))), true
	case ChanV:
		if s.obj == 0 {
			return x.m.F, true
		}
		cd := st.obj(s.obj).ext.(*ChanData)
		if capOf {
			return x.m.Int(int64(cd.cap)), true
		}
		return x.m.Int(int64(len(cd.q))), true
	case *Agg:
		return nil, false
	case *Ext:
		return x.m.UF("len:"+s.key(), 0, maxInf), true
	}
	return nil, false
}

func (e *Ext) key() string { return fmt.Sprintf("%s#%d", e.name, e.id) }

func (x *X) copyCells(st *State, d *Slice, at int, s *Slice, n int) {
	if n == 0 {
		return
	}
	esz := int(d.esz)
	if st.gor != nil {
		st.gor.read(Ptr{s.obj, s.off}, n*esz)
		st.gor.write(Ptr{d.obj, d.off + int32(at*esz)}, n*esz)
	}
	so := st.obj(s.obj)
	tmp := append([]V(nil), so.c[s.off:int(s.off)+n*esz]...)
	do := st.wobj(d.obj)
	copy(do.c[int(d.off)+at*esz:], tmp)
}

func (x *X) appendV(st *State, a, b V, I *Ins) V {
	a, b = x.force(st, a), x.force(st, b)
	s, ok := a.(*Slice)
	if !ok {
		x.limit("append to %T", a)
	}
	var elem types.Type
	if I != nil {
		if v, ok := I.in.(ssa.Value); ok {
			if sl, ok := v.Type().Underlying().(*types.Slice); ok {
				elem = sl.Elem()
			}
		}
	}
	if str, ok := b.(*Str); ok {
		b = x.strToBytes(st, str)
	}
	t, ok := b.(*Slice)
	if !ok {
		x.limit("append of %T", b)
	}
	if s.sym != nil || t.sym != nil {
		if t.sym != nil && s.ln == 0 && s.sym == nil {
			// append(nil, data...) copies the whole slice
			o := st.obj(t.obj)
			id := x.newObj(st, append([]V(nil), o.c[t.off:]...), elem)
			if lz, ok := o.ext.(*LazyData); ok {
				off := int(t.off)
				st.wobj(id).ext = &LazyData{gen: func(i int) V { return lz.gen(i + off) }}
			}
			r := *t
			r.obj, r.off = id, 0
			return &r
		}
		x.limit("append with symbolic-length slices")
	}
	if t.ln == 0 {
		return s
	}
	esz := t.esz
	if elem != nil {
		esz = x.cellsOf(elem)
	}
	n := int(s.ln) + int(t.ln)
	if n <= int(s.cp) {
		r := *s
		r.ln = int32(n)
		x.copyCells(st, &r, int(s.ln), t, int(t.ln))
		return &r
	}
	cp := int(s.cp)*2 + 4
	if cp < n {
		cp = n
	}
	cells := make([]V, cp*esz)
	if s.ln > 0 {
		if st.gor != nil {
			st.gor.read(Ptr{s.obj, s.off}, int(s.ln)*esz)
		}
		copy(cells, st.obj(s.obj).c[s.off:int(s.off)+int(s.ln)*esz])
	}
	if st.gor != nil {
		st.gor.read(Ptr{t.obj, t.off}, int(t.ln)*esz)
	}
	copy(cells[int(s.ln)*esz:], st.obj(t.obj).c[t.off:int(t.off)+int(t.ln)*esz])
	if elem != nil {
		for i := n; i < cp; i++ {
			if esz == 1 && !isAgg(elem) {
				cells[i] = x.zeroCell(elem)
			} else {
				copy(cells[i*esz:], x.zeroCells(elem))
			}
		}
	}
	return &Slice{obj: x.newObj(st, cells, elem), ln: int32(n), cp: int32(cp), esz: esz}
}

// ---------------------------------------------------------------- channels

// recv executes a channel receive. Every pending value may be the first to
// arrive when its senders were concurrent (x.anyOrder).
func (x *X) recv(fr *frame, it *item, I *Ins, cv V) []*item {
	in := I.in.(*ssa.UnOp)
	c, ok := cv.(ChanV)
	if !ok || c.obj == 0 {
		x.limit("receive from %T", cv)
	}
	cd := it.st.obj(c.obj).ext.(*ChanData)
	elem := in.X.Type().Underlying().(*types.Chan).Elem()
	set := func(it *item, v V, ok bool) {
		if in.CommaOk {
			it.env[I.dst] = Tuple{v, x.m.Bool(ok)}
		} else {
			it.env[I.dst] = v
		}
	}
	if len(cd.q) == 0 && fr.stopAt == I && fr.stopObj == c.obj {
		fr.stopped = append(fr.stopped, &item{b: it.b, ip: it.ip, env: append([]V(nil), it.env...), st: it.st, def: it.def, its: it.its})
		return []*item{}
	}
	if len(cd.q) == 0 {
		if cd.closed {
			set(it, x.zero(elem), false)
			return nil
		}
		panic(goPanic{it.st.pc, "deadlock: receive from an empty channel nobody sends to"})
	}
	if !x.anyOrder || len(cd.q) == 1 || !cd.conc {
		w := it.st.wobj(c.obj).ext.(*ChanData)
		v := w.q[0]
		w.q = w.q[1:]
		set(it, v, true)
		return nil
	}
	if out := x.receiveOrders(fr, it, I, c); out != nil {
		return out
	}
	w := it.st.wobj(c.obj).ext.(*ChanData)
	w.conc = false
	v := w.q[0]
	w.q = w.q[1:]
	set(it, v, true)
	return nil
}

// ndKey records the remaining values of a channel whose arrival order is free.
func ndKey(old string, obj int32, ids []int) string {
	pre := fmt.Sprintf("c%d:", obj)
	var keep []string
	for _, p := range strings.Split(old, ";") {
		if p != "" && !strings.HasPrefix(p, pre) {
			keep = append(keep, p)
		}
	}
	if len(ids) > 0 {
		keep = append(keep, fmt.Sprintf("%s%v", pre, ids))
	}
	return strings.Join(keep, ";")
}

// ---------------------------------------------------------------- range

type Iter struct {
	keys, vals []V
	pos        int
	str        string
	isStr      bool
	text       *Text
	seen       uint32
	bytes      []V
	kanji      *kanjiText
}

func (x *X) rangeOver(st *State, v V, I *Ins) V {
	switch s := v.(type) {
	case *Str:
		if s.conc {
			return &Iter{isStr: true, str: s.s}
		}
		if s.text != nil {
			return x.textIter(s.text, 0)
		}
		if s.runeN == nil && s.sym == nil && s.term == nil && s.sj == nil {
			return &Iter{isStr: true, bytes: s.bytes}
		}
	case MapV:
		if s.obj == 0 {
			return &Iter{}
		}
		md := st.obj(s.obj).ext.(*MapData)
		x.assume("map iteration order is taken as insertion order")
		return &Iter{keys: append([]V(nil), md.keys...), vals: append([]V(nil), md.vals...)}
	}
	x.limit("range over %T", v)
	return nil
}

func (x *X) next(fr *frame, it *item, I *Ins, in *ssa.Next) []*item {
	itv, ok := x.val(fr.fi, it, I.a).(*Iter)
	if !ok {
		x.limit("iterator %T", x.val(fr.fi, it, I.a))
	}
	// the iterator is a value: a fresh copy with the new position replaces it in its slot
	set := func(it *item, n *Iter, ok bool, k, v V) {
		it.env[I.a] = n
		it.env[I.dst] = Tuple{x.m.Bool(ok), k, v}
	}
	tt := in.Type().(*types.Tuple)
	z := func(i int) V {
		t := tt.At(i).Type()
		if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
			return x.m.F
		}
		return x.zero(t)
	}
	if !itv.isStr {
		n := *itv
		if n.pos >= len(n.keys) {
			set(it, &n, false, z(1), z(2))
			return nil
		}
		k, v := n.keys[n.pos], n.vals[n.pos]
		n.pos++
		set(it, &n, true, k, v)
		return nil
	}
	if itv.text != nil {
		return x.nextText(fr, it, I, itv, set)
	}
	n := *itv
	if n.bytes != nil {
		if n.pos >= len(n.bytes) {
			set(it, &n, false, x.m.F, x.m.F)
			return nil
		}
		return x.nextBytes(fr, it, I, &n, set)
	}
	if n.pos >= len(n.str) {
		set(it, &n, false, x.m.F, x.m.F)
		return nil
	}
	for i, r := range n.str[n.pos:] {
		_ = i
		p := n.pos
		w := 1
		if r != 0xFFFD || strings.HasPrefix(n.str[n.pos:], "\uFFFD") {
			w = len(string(r))
		}
		n.pos += w
		set(it, &n, true, x.m.Int(int64(p)), x.m.Int(int64(r)))
		break
	}
	return nil
}
