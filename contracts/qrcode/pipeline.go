package qrcode

import "github.com/yeqown/reedsolomon/binary"

// ---------------------------------------------------------------- contracts used by the pipeline theorems

// Contract of (*encoder).Encode: on success the result has exactly 8 bits per data
// codeword of the symbol; its content is arbitrary here (see the encoding theorems).
func sum_Encode(e *encoder, raw string) (*binary.Binary, error) {
	return v_Binary("d", 8*spec_dataCodewords(ver_case, lvl_case)), nil
}

// Contract of reedsolomon.Encode: the data bits followed by 8*n check bits, which are a
// function of the data bits and n.
func sum_RS(bin *binary.Binary, numECBlock int) *binary.Binary {
	out := binary.New()
	out.Append(bin)
	name := "ec10"
	if numECBlock < 10 {
		name = "ec0"
	}
	_ = name
	out.Append(v_UFBits("ec"+v_digits(numECBlock), 8*numECBlock, bin))
	return out
}

func v_digits(n int) string { return "" }

// Contract of evaluation: a non-negative integer that is a function of the colours.
func sum_evaluation(m *Matrix) int {
	p := v_UFInt("penalty", 0, 1000000000, colours_of(m))
	k := 0
	b := m.Bitmap()
	n := m.Width()
	for i := 0; i < 15; i++ {
		x, y := spec_formatPos(n, 0, i)
		if b[y][x] {
			k |= 1 << uint(i)
		}
	}
	k = ((k ^ 0x5412) >> 10) & 7
	v_Rec(k, p)
	return p
}

// Weaker contract of evaluation: some non-negative integer.
func sum_evaluationAny(m *Matrix) int {
	v_Rec(0)
	return v_Int("penalty"+v_digits(v_RecN()), 0, 1000000000)
}

func colours_of(m *Matrix) []bool {
	bits := []bool{}
	for _, row := range m.Bitmap() {
		bits = append(bits, row...)
	}
	return bits
}

var ver_case, lvl_case int

type captureWriter struct{ m *Matrix }

func (c captureWriter) Write(mat Matrix) error { *c.m = mat; return nil }
func (c captureWriter) Close() error           { return nil }

func thm_symbol(v, level int) (*QRCode, [][]bool) {
	ver_case, lvl_case = v, level
	q, err := NewWith("A", WithVersion(v), WithEncodingMode(EncModeByte), WithErrorCorrectionLevel(ecLevel(level+1)))
	v_Assert(err == nil, "construction succeeds for every version and level")
	if err != nil {
		return nil, nil
	}
	var m Matrix
	err = q.Save(captureWriter{&m})
	v_Assert(err == nil, "Save hands the symbol to the writer")
	b := m.Bitmap()
	v_Assert(len(b) == spec_size(v), "symbol height is 17+4*version")
	v_Assert(q.Dimension() == spec_size(v), "Dimension is 17+4*version")
	if len(b) != spec_size(v) {
		return nil, nil
	}
	for y := range b {
		v_Assert(len(b[y]) == spec_size(v), "symbol width is 17+4*version")
		if len(b[y]) != spec_size(v) {
			return nil, nil
		}
	}
	return q, b
}

// C08: dimension and function patterns.
func thm_C08(v, level int) {
	_, b := thm_symbol(v, level)
	if b == nil {
		return
	}
	g := spec_function(v)
	n := spec_size(v)
	for y := 0; y < n; y++ {
		for x := 0; x < n; x++ {
			if g[y][x] == 1 || g[y][x] == 2 {
				v_AssertAt(b[y][x] == (g[y][x] == 2), "function patterns (finder, separator, timing, alignment, dark module)", y*n+x)
			}
		}
	}
}

// C11: format and version information.
func thm_C11(v, level int) {
	_, b := thm_symbol(v, level)
	if b == nil {
		return
	}
	n := spec_size(v)
	k := v_Force(spec_readMask(b))
	f := spec_format(level, k)
	for c := 0; c < 2; c++ {
		for i := 0; i < 15; i++ {
			x, y := spec_formatPos(n, c, i)
			v_AssertAt(b[y][x] == (f>>uint(i)&1 == 1), "format information, both copies", y*n+x)
		}
	}
	if v >= 7 {
		w := spec_version(v)
		for i := 0; i < 18; i++ {
			p, r := n-11+i%3, i/3
			v_AssertAt(b[r][p] == (w>>uint(i)&1 == 1), "version information (upper right)", r*n+p)
			v_AssertAt(b[p][r] == (w>>uint(i)&1 == 1), "version information (lower left)", p*n+r)
		}
	}
}

// C07/C09/C10: every data module holds the bit the standard assigns to it.
func thm_data(v, level int) {
	_, b := thm_symbol(v, level)
	if b == nil {
		return
	}
	bits, xs, ys := thm_dataBits(v, level)
	k := v_Force(spec_readMask(b))
	thm_dataModules(k, spec_size(v), b, bits, xs, ys)
}

// thm_dataBits: the bits which the standard assigns to the data modules, in placement order.
func thm_dataBits(v, level int) (bits []bool, xs, ys []int) {
	d := v_Binary("d", 8*spec_dataCodewords(v, level))
	nb := spec_numBlocks[level][v]
	ec := spec_ecPerBlock[level][v]
	data := make([]*binary.Binary, nb)
	check := make([]*binary.Binary, nb)
	at := 0
	for i := 0; i < nb; i++ {
		l := 8 * spec_blockLen(v, level, i)
		data[i], _ = d.Subset(at, at+l)
		at += l
		check[i] = v_UFBits("ec"+v_digits(ec), 8*ec, data[i])
	}
	xs, ys = spec_placement(v, spec_function(v))
	blk, idx := spec_order(v, level)
	bits = make([]bool, 8*len(blk))
	for i := range blk {
		l := spec_blockLen(v, level, blk[i])
		from, k := data[blk[i]], 8*idx[i]
		if idx[i] >= l {
			from, k = check[blk[i]], 8*(idx[i]-l)
		}
		for j := 0; j < 8; j++ {
			bits[8*i+j] = from.At(k + j)
		}
	}
	return
}

func thm_dataModules(k, n int, b [][]bool, bits []bool, xs, ys []int) {
	for i := range xs {
		x, y := xs[i], ys[i]
		if i < len(bits) {
			v_AssertAt(b[y][x] == (bits[i] != spec_maskBit(k, x, y)), "data modules: block structure, interleaving, placement and mask", y*n+x)
		} else {
			v_AssertAt(b[y][x] == spec_maskBit(k, x, y), "remainder bits are zero before masking", y*n+x)
		}
	}
}

// C10: masking inverts exactly the data modules for which the formula of the announced
// mask holds; function, format and version modules do not depend on it otherwise.
func thm_C10(v, level int) {
	_, b := thm_symbol(v, level)
	if b == nil {
		return
	}
	bits, xs, ys := thm_dataBits(v, level)
	n := spec_size(v)
	g := spec_function(v)
	k := v_Force(spec_readMask(b))
	thm_dataModules(k, n, b, bits, xs, ys)
	for y := 0; y < n; y++ {
		for x := 0; x < n; x++ {
			if g[y][x] == 1 || g[y][x] == 2 {
				v_AssertAt(b[y][x] == (g[y][x] == 2), "masking leaves function patterns untouched", y*n+x)
			}
		}
	}
	f := spec_format(level, k)
	for c := 0; c < 2; c++ {
		for i := 0; i < 15; i++ {
			x, y := spec_formatPos(n, c, i)
			v_AssertAt(b[y][x] == (f>>uint(i)&1 == 1), "the format information announces the mask and is not masked", y*n+x)
		}
	}
}

// C12: the symbol carries the lowest-penalty mask, ties to the lowest mask number, for
// every interleaving of the goroutines and every arrival order of their scores.
func thm_C12(v, level int) {
	v_AnyOrder(true)
	q, b := thm_symbol(v, level)
	v_NoRaces()
	if b == nil {
		return
	}
	_ = q
	k := v_Force(spec_readMask(b))
	bits := []bool{}
	for _, row := range b {
		bits = append(bits, row...)
	}
	p := v_UFInt("penalty", 0, 1000000000, bits)
	n := v_RecN()
	v_Assert(n == 8, "all eight masks are scored")
	seen := [8]bool{}
	for i := 0; i < n; i++ {
		ki, pi := v_RecAt(i, 0), v_RecAt(i, 1)
		seen[ki] = true
		v_Assert(p <= pi, "the chosen mask has the lowest penalty")
		v_Assert(k <= ki || p < pi, "equal penalties: the lowest mask number wins")
		v_Assert(ki != k || pi == p, "the score of the chosen mask is that of the final symbol")
	}
	for i := 0; i < 8; i++ {
		v_Assert(seen[i], "every mask pattern is tried")
	}
}
