package qrcode

import (
	"fmt"
	"math/rand"
)

// arbitrary matrices through the internal setters

func init() {
	orKinds["cells"] = orCells
	orIntGen["C16"] = func(rng *rand.Rand, i int) orInput {
		return orInput{Kind: "cells", N: 17 + 4*(1+i%40), Seed: rng.Int63()}
	}
}

func orCells(in orInput) (out []orViolation) {
	bad := func(f string, a ...interface{}) { out = append(out, orViolation{"C16", fmt.Sprintf(f, a...)}) }
	defer func() {
		if r := recover(); r != nil {
			bad("panic: %v", r)
		}
	}()
	rng := rand.New(rand.NewSource(in.Seed))
	n := in.N
	m := newMatrix(n, n)
	want := make([]QRValue, n*n)
	for k := range want {
		want[k] = QRValue(rng.Intn(256))
		if m.set(k%n, k/n, want[k]) != nil {
			bad("set in range fails")
		}
	}
	check := func(p *Matrix, what string) {
		for k := range want {
			if s, err := p.at(k%n, k/n); err != nil || s != want[k] || s.IsSet() != (uint8(s)&1 == 1) || uint8(s.Type()) != uint8(s)&0xfe {
				bad("%s: at(%d,%d)", what, k%n, k/n)
				return
			}
		}
	}
	check(m, "matrix")
	k := 0
	m.Iterate(IterDirection_ROW, func(x, y int, s QRValue) {
		if x != k%n || y != k/n || s != want[k] {
			bad("iteration at %d", k)
		}
		k++
	})
	for _, p := range [][2]int{{-1, 0}, {0, -1}, {n, 0}, {0, n}, {n, n}, {-1, n}, {1 << 40, 3}, {3, 1 << 40}, {-n, 5}} {
		if _, err := m.at(p[0], p[1]); err == nil {
			bad("at(%d,%d) of %d is no error", p[0], p[1], n)
		}
		if m.set(p[0], p[1], 3) == nil {
			bad("set(%d,%d) of %d is no error", p[0], p[1], n)
		}
	}
	check(m, "matrix after refused accesses")
	d := m.Copy()
	check(d, "copy")
	for k := range want {
		d.set(k%n, k/n, want[k]^3)
	}
	check(m, "original of a changed copy")
	for k := range want {
		want[k] ^= 3
	}
	check(d, "changed copy")
	return
}
