package qrcode

// spec_* functions restate the QR Code standard (ISO/IEC 18004) and never call the
// code under verification. The file is shared by the verifier (contracts) and by the
// concrete oracle which replays counterexamples.

// ---------------------------------------------------------------- tables of the standard

var spec_ecPerBlock = [4][41]int{
	{-1, 7, 10, 15, 20, 26, 18, 20, 24, 30, 18, 20, 24, 26, 30, 22, 24, 28, 30, 28, 28, 28, 28, 30, 30, 26, 28, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30},
	{-1, 10, 16, 26, 18, 24, 16, 18, 22, 22, 26, 30, 22, 22, 24, 24, 28, 28, 26, 26, 26, 26, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28},
	{-1, 13, 22, 18, 26, 18, 24, 18, 22, 20, 24, 28, 26, 24, 20, 30, 24, 28, 28, 26, 30, 28, 30, 30, 30, 30, 28, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30},
	{-1, 17, 28, 22, 16, 22, 28, 26, 26, 24, 28, 24, 28, 22, 24, 24, 30, 28, 28, 26, 28, 30, 24, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30},
}

var spec_numBlocks = [4][41]int{
	{-1, 1, 1, 1, 1, 1, 2, 2, 2, 2, 4, 4, 4, 4, 4, 6, 6, 6, 6, 7, 8, 8, 9, 9, 10, 12, 12, 12, 13, 14, 15, 16, 17, 18, 19, 19, 20, 21, 22, 24, 25},
	{-1, 1, 1, 1, 2, 2, 4, 4, 4, 5, 5, 5, 8, 9, 9, 10, 10, 11, 13, 14, 16, 17, 17, 18, 20, 21, 23, 25, 26, 28, 29, 31, 33, 35, 37, 38, 40, 43, 45, 47, 49},
	{-1, 1, 1, 2, 2, 4, 4, 6, 6, 8, 8, 8, 10, 12, 16, 12, 17, 16, 18, 21, 20, 23, 23, 25, 27, 29, 34, 34, 35, 38, 40, 43, 45, 48, 51, 53, 56, 59, 62, 65, 68},
	{-1, 1, 1, 2, 4, 4, 4, 5, 6, 8, 8, 11, 11, 16, 16, 18, 16, 19, 21, 25, 25, 25, 34, 30, 32, 35, 37, 40, 42, 45, 48, 51, 54, 57, 60, 63, 66, 70, 74, 77, 81},
}

func spec_size(v int) int { return 17 + 4*v }

// spec_rawModules: number of modules available to codewords and remainder bits.
func spec_rawModules(v int) int {
	r := (16*v+128)*v + 64
	if v >= 2 {
		n := v/7 + 2
		r -= (25*n-10)*n - 55
		if v >= 7 {
			r -= 36
		}
	}
	return r
}

func spec_totalCodewords(v int) int { return spec_rawModules(v) / 8 }
func spec_remainder(v int) int      { return spec_rawModules(v) % 8 }

// spec_dataCodewords: level 0..3 = L, M, Q, H.
func spec_dataCodewords(v, level int) int {
	return spec_totalCodewords(v) - spec_ecPerBlock[level][v]*spec_numBlocks[level][v]
}

// spec_blockLen: data codewords of block b (short blocks first).
func spec_blockLen(v, level, b int) int {
	nb := spec_numBlocks[level][v]
	d := spec_dataCodewords(v, level)
	short := d / nb
	if b < nb-d%nb {
		return short
	}
	return short + 1
}

func spec_align(v int) []int {
	if v == 1 {
		return nil
	}
	n := v/7 + 2
	step := 26
	if v != 32 {
		step = (v*4 + n*2 + 1) / (n*2 - 2) * 2
	}
	r := make([]int, n)
	r[0] = 6
	pos := spec_size(v) - 7
	for i := n - 1; i >= 1; i-- {
		r[i] = pos
		pos -= step
	}
	return r
}

// spec_function: modules that carry no data, as g[y][x]:
// 0 data region, 1 light function module, 2 dark function module,
// 3 format information, 4 version information.
func spec_function(v int) [][]int {
	n := spec_size(v)
	g := make([][]int, n)
	for i := range g {
		g[i] = make([]int, n)
	}
	// timing patterns
	for i := 0; i < n; i++ {
		g[6][i] = 1 + (i+1)%2
		g[i][6] = 1 + (i+1)%2
	}
	// finder patterns with separators
	for dy := -4; dy <= 4; dy++ {
		for dx := -4; dx <= 4; dx++ {
			d := dx
			if d < 0 {
				d = -d
			}
			e := dy
			if e < 0 {
				e = -e
			}
			if e > d {
				d = e
			}
			c := 2
			if d == 2 || d == 4 {
				c = 1
			}
			for k := 0; k < 3; k++ {
				x, y := 3+dx, 3+dy
				if k == 1 {
					x = n - 4 + dx
				}
				if k == 2 {
					y = n - 4 + dy
				}
				if x >= 0 && x < n && y >= 0 && y < n {
					g[y][x] = c
				}
			}
		}
	}
	// alignment patterns
	a := spec_align(v)
	for i := range a {
		for j := range a {
			if (i == 0 && j == 0) || (i == 0 && j == len(a)-1) || (i == len(a)-1 && j == 0) {
				continue
			}
			for dy := -2; dy <= 2; dy++ {
				for dx := -2; dx <= 2; dx++ {
					c := 2
					if (dx == 1 || dx == -1 || dx == 0) && (dy == 1 || dy == -1 || dy == 0) && !(dx == 0 && dy == 0) {
						c = 1
					}
					g[a[i]+dy][a[j]+dx] = c
				}
			}
		}
	}
	// format information areas and the dark module
	for i := 0; i < 9; i++ {
		if i != 6 {
			g[8][i] = 3
			g[i][8] = 3
		}
	}
	for i := 0; i < 8; i++ {
		g[8][n-1-i] = 3
		if i < 7 {
			g[n-1-i][8] = 3
		}
	}
	g[n-8][8] = 2
	// version information areas
	if v >= 7 {
		for i := 0; i < 6; i++ {
			for j := 0; j < 3; j++ {
				g[i][n-11+j] = 4
				g[n-11+j][i] = 4
			}
		}
	}
	return g
}

// spec_maskBit: data module (x = column, y = row) is inverted by mask k.
func spec_maskBit(k, x, y int) bool {
	switch k {
	case 0:
		return (x+y)%2 == 0
	case 1:
		return y%2 == 0
	case 2:
		return x%3 == 0
	case 3:
		return (x+y)%3 == 0
	case 4:
		return (x/3+y/2)%2 == 0
	case 5:
		return x*y%2+x*y%3 == 0
	case 6:
		return (x*y%2+x*y%3)%2 == 0
	}
	return ((x+y)%2+x*y%3)%2 == 0
}

// spec_format: the 15 format information bits (level 0..3 = L, M, Q, H).
func spec_format(level, mask int) int {
	ec := 1
	switch level {
	case 1:
		ec = 0
	case 2:
		ec = 3
	case 3:
		ec = 2
	}
	data := ec<<3 | mask
	rem := data
	for i := 0; i < 10; i++ {
		rem = (rem << 1) ^ ((rem >> 9) * 0x537)
	}
	return (data<<10 | rem) ^ 0x5412
}

// spec_version: the 18 version information bits.
func spec_version(v int) int {
	rem := v
	for i := 0; i < 12; i++ {
		rem = (rem << 1) ^ ((rem >> 11) * 0x1F25)
	}
	return v<<12 | rem
}

// spec_formatPos: column and row of format bit i (least significant first) in copy c.
func spec_formatPos(n, c, i int) (x, y int) {
	if c == 0 {
		switch {
		case i < 6:
			return 8, i
		case i == 6:
			return 8, 7
		case i == 7:
			return 8, 8
		case i == 8:
			return 7, 8
		}
		return 14 - i, 8
	}
	if i < 8 {
		return n - 1 - i, 8
	}
	return 8, n - 15 + i
}

// spec_placement: the data modules in codeword bit order, as columns and rows.
func spec_placement(v int, g [][]int) (xs, ys []int) {
	n := spec_size(v)
	for right := n - 1; right >= 1; right -= 2 {
		if right == 6 {
			right = 5
		}
		for vert := 0; vert < n; vert++ {
			for j := 0; j < 2; j++ {
				x := right - j
				y := vert
				if (right+1)&2 == 0 {
					y = n - 1 - vert
				}
				if g[y][x] == 0 {
					xs = append(xs, x)
					ys = append(ys, y)
				}
			}
		}
	}
	return
}

// spec_order: for each transmitted codeword position, the block and the index in it
// (index >= number of data codewords of the block: error correction codeword).
func spec_order(v, level int) (blk, idx []int) {
	nb := spec_numBlocks[level][v]
	ec := spec_ecPerBlock[level][v]
	maxLen := spec_blockLen(v, level, nb-1)
	for i := 0; i < maxLen; i++ {
		for b := 0; b < nb; b++ {
			if i < spec_blockLen(v, level, b) {
				blk = append(blk, b)
				idx = append(idx, i)
			}
		}
	}
	for i := 0; i < ec; i++ {
		for b := 0; b < nb; b++ {
			blk = append(blk, b)
			idx = append(idx, spec_blockLen(v, level, b)+i)
		}
	}
	return
}

// mask announced by the symbol itself (format copy 0)
func spec_readMask(b [][]bool) int {
	n := len(b)
	k := 0
	for i := 10; i < 13; i++ {
		x, y := spec_formatPos(n, 0, i)
		if b[y][x] {
			k |= 1 << uint(i)
		}
	}
	return ((k ^ 0x5412) >> 10) & 7
}

// spec_penalty: the four penalty rules over the module colours.
func spec_penalty(b [][]bool) (lo, hi int) {
	p := spec_rule1(b) + spec_rule2(b) + spec_rule3(b)
	lo, hi = spec_rule4(b)
	return p + lo, p + hi
}

func spec_lines(b [][]bool) [][]bool {
	n := len(b)
	var ls [][]bool
	for i := 0; i < n; i++ {
		ls = append(ls, b[i])
		col := make([]bool, n)
		for j := 0; j < n; j++ {
			col[j] = b[j][i]
		}
		ls = append(ls, col)
	}
	return ls
}

// runs of five or more modules of one colour: 3 plus one per further module
func spec_rule1(b [][]bool) int {
	s := 0
	for _, l := range spec_lines(b) {
		s += spec_runs(l)
	}
	return s
}

func spec_runs(l []bool) int {
	s := 0
	for i := 4; i < len(l); i++ {
		five := l[i] == l[i-1] && l[i] == l[i-2] && l[i] == l[i-3] && l[i] == l[i-4]
		six := i > 4 && five && l[i] == l[i-5]
		if five && !six { // the fifth module of a run
			s += 3
		}
		if six { // a further one
			s++
		}
	}
	return s
}

// 2x2 blocks of one colour: 3 each
func spec_rule2(b [][]bool) int {
	s := 0
	for y := 0; y+1 < len(b); y++ {
		for x := 0; x+1 < len(b); x++ {
			if b[y][x] == b[y][x+1] && b[y][x] == b[y+1][x] && b[y][x] == b[y+1][x+1] {
				s += 3
			}
		}
	}
	return s
}

// dark-light-dark-dark-dark-light-dark with four light modules on one side: 40 each
func spec_rule3(b [][]bool) int {
	s := 0
	for _, l := range spec_lines(b) {
		for i := 0; i+11 <= len(l); i++ {
			s += spec_finderLike(l[i : i+11])
		}
	}
	return s
}

func spec_finderLike(w []bool) int {
	p := [11]bool{true, false, true, true, true, false, true, false, false, false, false}
	fwd, rev := true, true
	for i := range p {
		if w[i] != p[i] {
			fwd = false
		}
		if w[i] != p[10-i] {
			rev = false
		}
	}
	s := 0
	if fwd {
		s += 40
	}
	if rev {
		s += 40
	}
	return s
}

// deviation of the proportion of dark modules from 50 %: 10 per step of 5 %. At an exact
// multiple of 5 % the standard leaves the step open: both neighbours are accepted, so the
// rule is an interval.
func spec_rule4(b [][]bool) (lo, hi int) {
	dark := 0
	for _, r := range b {
		for _, v := range r {
			if v {
				dark++
			}
		}
	}
	return spec_balance(dark, len(b)*len(b))
}

func spec_balance(dark, total int) (lo, hi int) {
	d := 20*dark - 10*total // (percentage - 50) / 5, times total
	if d < 0 {
		d = -d
	}
	hi = d / total * 10
	lo = hi
	if d%total == 0 && d > 0 {
		lo -= 10
	}
	return
}

// level 0..3 = L, M, Q, H
func spec_level(l int) ecLevel {
	return [4]ecLevel{ErrorCorrectionLow, ErrorCorrectionMedium, ErrorCorrectionQuart, ErrorCorrectionHighest}[l]
}
