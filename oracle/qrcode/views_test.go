package qrcode

import (
	"errors"
	"fmt"
	"math/rand"
)

// the views of a matrix and the Save protocol, through the public interface

func init() {
	gen := func(rng *rand.Rand, i int) orInput {
		v := 1 + i%40
		return orInput{Kind: "views", Text: orText(rng, 32, rng.Intn(8)), Ver: []int{v}, Seed: rng.Int63()}
	}
	orGenerators["C16"] = gen
	orGenerators["C17"] = gen
	orKinds["views"] = orViews
}

type orSave struct {
	m      []Matrix
	order  string
	werr   error
	cerr   error
	wpanic bool
}

func (c *orSave) Write(m Matrix) error {
	c.m = append(c.m, m)
	c.order += "W"
	if c.wpanic {
		panic("writer")
	}
	return c.werr
}
func (c *orSave) Close() error { c.order += "C"; return c.cerr }

func orViews(in orInput) (out []orViolation) {
	bad := func(p, f string, a ...interface{}) { out = append(out, orViolation{p, fmt.Sprintf(f, a...)}) }
	q, err, pan := orBuild(in)
	if err != nil || pan != nil {
		return
	}
	// Save
	first := &orSave{}
	q.Save(first)
	for k := 0; k < 8; k++ {
		w := &orSave{wpanic: k&4 != 0}
		if k&1 != 0 {
			w.werr = errors.New("write")
		}
		if k&2 != 0 {
			w.cerr = errors.New("close")
		}
		var err error
		var rec interface{}
		func() {
			defer func() { rec = recover() }()
			err = q.Save(w)
		}()
		if w.order != "WC" {
			bad("C17", "calls %q (case %d)", w.order, k)
		}
		if w.wpanic != (rec != nil) {
			bad("C17", "panic %v (case %d)", rec, k)
		}
		if !w.wpanic && err != w.werr {
			bad("C17", "Save returns %v, Write %v, Close %v", err, w.werr, w.cerr)
		}
		if len(w.m) != 1 || len(first.m) != 1 {
			bad("C17", "Write was not called once")
			return
		}
		b, c := first.m[0].Bitmap(), w.m[0].Bitmap()
		for y := range b {
			for x := range b[y] {
				if len(b) != len(c) || len(b[y]) != len(c[y]) || b[y][x] != c[y][x] {
					bad("C17", "the writers get different matrices")
					return
				}
			}
		}
	}
	func() {
		defer func() {
			if r := recover(); r != nil {
				bad("C17", "a nil writer panics: %v", r)
			}
		}()
		if err := q.Save(nil); err != nil {
			bad("C17", "a nil writer gives %v", err)
		}
	}()
	m := first.m[0]
	// views
	defer func() {
		if r := recover(); r != nil {
			bad("C16", "panic: %v", r)
		}
	}()
	n := m.Width()
	b := m.Bitmap()
	if m.Height() != n || len(b) != n || q.Dimension() != n {
		bad("C16", "sizes differ")
		return
	}
	val := make([][]QRValue, n)
	for i := range val {
		val[i] = make([]QRValue, n)
	}
	k := 0
	m.Iterate(IterDirection_ROW, func(x, y int, s QRValue) {
		if x != k%n || y != k/n || b[y][x] != s.IsSet() {
			bad("C16", "row iteration step %d visits %d,%d", k, x, y)
		} else {
			val[y][x] = s
		}
		k++
	})
	if k != n*n {
		bad("C16", "row iteration visits %d modules", k)
	}
	k = 0
	m.Iterate(IterDirection_COLUMN, func(x, y int, s QRValue) {
		if y != k%n || x != k/n || val[y][x] != s {
			bad("C16", "column iteration step %d visits %d,%d", k, x, y)
		}
		k++
	})
	if k != n*n {
		bad("C16", "column iteration visits %d modules", k)
	}
	for i := 0; i < n; i++ {
		r, c := m.Row(i), m.Col(i)
		for j := 0; j < n; j++ {
			if len(r) != n || r[j] != val[i][j] {
				bad("C16", "Row(%d)[%d]", i, j)
				return
			}
			if len(c) != n || c[j] != val[j][i] {
				bad("C16", "Col(%d)[%d]", i, j)
				return
			}
		}
	}
	for _, i := range []int{-1, n, n + 1, -n} {
		if m.Row(i) != nil || m.Col(i) != nil {
			bad("C16", "row or column %d of %d", i, n)
		}
	}
	d := m.Copy()
	check := func(what string, p *Matrix) {
		if p.Width() != n || p.Height() != n {
			bad("C16", "%s has another size", what)
			return
		}
		p.Iterate(IterDirection_ROW, func(x, y int, s QRValue) {
			if s != val[y][x] {
				bad("C16", "%s differs at %d,%d", what, x, y)
			}
		})
	}
	check("a copy", d)
	c := d.Col(n / 2)
	for i := range c {
		c[i] ^= 1
	}
	check("the original of a changed copy", &m)
	b[n/3][n/2] = !b[n/3][n/2]
	check("the original of a changed bitmap", &m)
	return
}
