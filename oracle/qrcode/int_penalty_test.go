package qrcode

import (
	"fmt"
	"math/rand"
)

// the penalty of arbitrary matrices

func init() {
	orKinds["penalty"] = orPenalty
	orIntGen["C13"] = func(rng *rand.Rand, i int) orInput {
		return orInput{Kind: "penalty", N: 17 + 4*(1+i%40), M: rng.Intn(6), Seed: rng.Int63()}
	}
}

func orPenalty(in orInput) (out []orViolation) {
	bad := func(f string, a ...interface{}) { out = append(out, orViolation{"C13", fmt.Sprintf(f, a...)}) }
	defer func() {
		if r := recover(); r != nil {
			bad("panic: %v", r)
		}
	}()
	rng := rand.New(rand.NewSource(in.Seed))
	n := in.N
	b := make([][]bool, n)
	dens, stick := rng.Float64(), rng.Float64()
	pat := []bool{true, false, true, true, true, false, true, false, false, false, false}
	for y := range b {
		b[y] = make([]bool, n)
		for x := range b[y] {
			switch in.M {
			case 0, 1:
				b[y][x] = rng.Float64() < dens
			case 2, 3: // runs
				if x > 0 && rng.Float64() < stick {
					b[y][x] = b[y][x-1]
				} else if y > 0 && rng.Float64() < stick {
					b[y][x] = b[y-1][x]
				} else {
					b[y][x] = rng.Intn(2) == 0
				}
			case 4: // finder-like pieces
				b[y][x] = pat[(x+y*3)%11]
				if dens < 0.5 {
					b[y][x] = pat[10-(x+y*7)%11]
				}
				if rng.Intn(20) == 0 {
					b[y][x] = !b[y][x]
				}
			}
		}
	}
	if in.M == 5 { // an exact share of dark modules
		k := n * n * rng.Intn(101) / 100
		k += rng.Intn(5) - 2
		for i, p := range rng.Perm(n * n) {
			b[p/n][p%n] = i < k
		}
	}
	m := newMatrix(n, n)
	for y := range b {
		for x := range b[y] {
			q := uint8(rng.Intn(128)) << 1
			if b[y][x] {
				q |= 1
			}
			m.set(x, y, qrvalue(q))
		}
	}
	lo, hi := spec_penalty(b)
	if s := evaluation(m); s != lo && s != hi {
		bad("evaluation of a matrix of %d is %d instead of %d", n, s, hi)
	}
	return
}
