package qrcode

// Concrete oracle: an independent QR Code reader and expected-result calculator used
// (a) to find and replay a failing input for an obligation the verifier refuted and
// (b) as the labelled, bounded stand-in where the verifier cannot reach changed code.
// It uses the public API only.

import (
	"encoding/json"
	"fmt"
	"io"
	"log"
	"math/rand"
	"os"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"
	"unicode/utf8"

	"golang.org/x/text/encoding/japanese"
)

type orInput struct {
	Kind  string `json:"kind"`
	Text  []byte `json:"text"`
	Ver   []int  `json:"version,omitempty"`    // WithVersion calls
	Min   []int  `json:"minversion,omitempty"` // WithMinimumVersion calls
	Level []int  `json:"level,omitempty"`      // WithErrorCorrectionLevel calls
	Mode  []int  `json:"mode,omitempty"`       // WithEncodingMode calls
	Str   bool   `json:"str,omitempty"`        // pass a string rather than a []byte
	Seed  int64  `json:"seed,omitempty"`
	N     int    `json:"n,omitempty"`
	M     int    `json:"m,omitempty"`
}

func (in orInput) String() string {
	b, _ := json.Marshal(in)
	return string(b)
}

type orExpect struct {
	err   bool
	mode  int // 4,8,16,32
	ver   int
	level int // 0..3
}

const orAlnum = "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ $%*+-./:"

func orSJIS(r rune) (int, bool) {
	if !(r >= 0x4E00 && r <= 0x9FFF || r >= 0x3400 && r <= 0x4DBF || r >= 0xF900 && r <= 0xFAFF) {
		return 0, false
	}
	s, err := japanese.ShiftJIS.NewEncoder().String(string(r))
	if err != nil || len(s) != 2 {
		return 0, false
	}
	c := int(s[0])<<8 | int(s[1])
	return c, c >= 0x8140 && c <= 0x9FFC || c >= 0xE040 && c <= 0xEBBF
}

func orCanMode(text string, mode int) bool {
	for _, r := range text {
		switch mode {
		case 4:
			if r < '0' || r > '9' {
				return false
			}
		case 8:
			if !strings.ContainsRune(orAlnum, r) {
				return false
			}
		case 16:
			if _, ok := orSJIS(r); !ok {
				return false
			}
		}
	}
	return true
}

func orAuto(text string) int {
	for _, m := range []int{4, 8, 16} {
		if orCanMode(text, m) {
			return m
		}
	}
	return 32
}

func orCount(text string, mode int) int {
	if mode == 32 {
		return len(text)
	}
	return utf8.RuneCountInString(text)
}

func orCountBits(mode, v int) int {
	g := 0
	if v > 9 {
		g = 1
	}
	if v > 26 {
		g = 2
	}
	switch mode {
	case 4:
		return [3]int{10, 12, 14}[g]
	case 8:
		return [3]int{9, 11, 13}[g]
	case 16:
		return [3]int{8, 10, 12}[g]
	}
	return [3]int{8, 16, 16}[g]
}

func orPayload(mode, n int) int {
	switch mode {
	case 4:
		return n/3*10 + [3]int{0, 4, 7}[n%3]
	case 8:
		return n/2*11 + n%2*6
	case 16:
		return n * 13
	}
	return n * 8
}

func orFits(mode, n, v, level int) bool {
	return 4+orCountBits(mode, v)+orPayload(mode, n) <= 8*spec_dataCodewords(v, level)
}

func orCapacity(mode, v, level int) int {
	lo, hi := 0, 8000
	for lo < hi {
		m := (lo + hi + 1) / 2
		if orFits(mode, m, v, level) {
			lo = m
		} else {
			hi = m - 1
		}
	}
	return lo
}

func orExpected(in orInput) (e orExpect) {
	e.level = 2
	for _, l := range in.Level {
		if l >= 1 && l <= 4 {
			e.level = l - 1
		}
	}
	mode := 0
	for _, m := range in.Mode {
		mode = m
	}
	text := string(in.Text)
	switch mode {
	case 0:
		e.mode = orAuto(text)
	case 4, 8, 16, 32:
		e.mode = mode
		if !orCanMode(text, mode) {
			e.err = true
			return
		}
	default:
		e.err = true
		return
	}
	ver, min := 0, 0
	for _, v := range in.Ver {
		if v >= 1 && v <= 40 {
			ver = v
		}
	}
	for _, v := range in.Min {
		if v >= 1 && v <= 40 {
			min = v
		}
	}
	n := orCount(text, e.mode)
	if ver > 0 {
		e.ver = ver
		e.err = !orFits(e.mode, n, ver, e.level)
		return
	}
	for v := 1; v <= 40; v++ {
		if orFits(e.mode, n, v, e.level) {
			e.ver = v
			if min > v {
				e.ver = min
			}
			return
		}
	}
	e.err = true
	return
}

type orBits []bool

func (b *orBits) add(v, n int) {
	for i := n - 1; i >= 0; i-- {
		*b = append(*b, v>>uint(i)&1 == 1)
	}
}

// orData: expected data bits; seg is the length of header plus payload.
func orData(text string, e orExpect) (b orBits, hdr, seg int) {
	ind := map[int]int{4: 1, 8: 2, 32: 4, 16: 8}[e.mode]
	b.add(ind, 4)
	b.add(orCount(text, e.mode), orCountBits(e.mode, e.ver))
	hdr = len(b)
	switch e.mode {
	case 4:
		for i := 0; i < len(text); i += 3 {
			j := i + 3
			if j > len(text) {
				j = len(text)
			}
			v, _ := strconv.Atoi(text[i:j])
			b.add(v, 3*(j-i)+1)
		}
	case 8:
		for i := 0; i < len(text); i += 2 {
			v := strings.IndexByte(orAlnum, text[i])
			if i+1 < len(text) {
				b.add(v*45+strings.IndexByte(orAlnum, text[i+1]), 11)
			} else {
				b.add(v, 6)
			}
		}
	case 16:
		for _, r := range text {
			c, _ := orSJIS(r)
			if c <= 0x9FFC {
				c -= 0x8140
			} else {
				c -= 0xC140
			}
			b.add(c>>8*0xC0+c&0xff, 13)
		}
	default:
		for i := 0; i < len(text); i++ {
			b.add(int(text[i]), 8)
		}
	}
	seg = len(b)
	total := 8 * spec_dataCodewords(e.ver, e.level)
	for i := 0; i < 4 && len(b) < total; i++ {
		b = append(b, false)
	}
	for len(b)%8 != 0 {
		b = append(b, false)
	}
	for i := 0; len(b) < total; i++ {
		b.add([2]int{0xEC, 0x11}[i%2], 8)
	}
	return
}

func orMul(a, b int) int {
	r := 0
	for i := 7; i >= 0; i-- {
		r = r<<1 ^ (r>>7)*0x11D
		r ^= (b >> uint(i) & 1) * a
	}
	return r
}

var orGens = map[int][]int{}
var orGenMu sync.Mutex

func orGen(n int) []int {
	orGenMu.Lock()
	defer orGenMu.Unlock()
	if g, ok := orGens[n]; ok {
		return g
	}
	g := make([]int, n)
	g[n-1] = 1
	root := 1
	for i := 0; i < n; i++ {
		for j := 0; j < n; j++ {
			g[j] = orMul(g[j], root)
			if j+1 < n {
				g[j] ^= g[j+1]
			}
		}
		root = orMul(root, 2)
	}
	orGens[n] = g
	return g
}

func orRS(data []int, n int) []int {
	g := orGen(n)
	r := make([]int, n)
	for _, d := range data {
		f := d ^ r[0]
		copy(r, r[1:])
		r[n-1] = 0
		for i := range r {
			r[i] ^= orMul(g[i], f)
		}
	}
	return r
}

func orWords(b []bool) []int {
	w := make([]int, len(b)/8)
	for i := range w {
		for j := 0; j < 8; j++ {
			w[i] <<= 1
			if b[8*i+j] {
				w[i]++
			}
		}
	}
	return w
}

// orSymbol: expected data region (unmasked, [y][x]) for the expected data bits.
func orStream(b []bool, v, level int) []bool {
	w := orWords(b)
	nb := spec_numBlocks[level][v]
	var data, ec [][]int
	at := 0
	for i := 0; i < nb; i++ {
		l := spec_blockLen(v, level, i)
		data = append(data, w[at:at+l])
		ec = append(ec, orRS(w[at:at+l], spec_ecPerBlock[level][v]))
		at += l
	}
	blk, idx := spec_order(v, level)
	var out orBits
	for i := range blk {
		if l := len(data[blk[i]]); idx[i] < l {
			out.add(data[blk[i]][idx[i]], 8)
		} else {
			out.add(ec[blk[i]][idx[i]-l], 8)
		}
	}
	return out
}

type orGeom struct {
	g      [][]int
	xs, ys []int
}

var orGeoms [41]*orGeom
var orGeomMu sync.Mutex

func orGeometry(v int) *orGeom {
	orGeomMu.Lock()
	defer orGeomMu.Unlock()
	if orGeoms[v] == nil {
		o := &orGeom{g: spec_function(v)}
		o.xs, o.ys = spec_placement(v, o.g)
		orGeoms[v] = o
	}
	return orGeoms[v]
}

func orBuild(in orInput) (q *QRCode, err error, pan interface{}) {
	defer func() {
		if r := recover(); r != nil {
			pan = r
		}
	}()
	var opts []EncodeOption
	for _, v := range in.Ver {
		opts = append(opts, WithVersion(v))
	}
	for _, v := range in.Min {
		opts = append(opts, WithMinimumVersion(v))
	}
	for _, v := range in.Level {
		opts = append(opts, WithErrorCorrectionLevel(ecLevel(v)))
	}
	for _, v := range in.Mode {
		opts = append(opts, WithEncodingMode(encMode(v)))
	}
	switch {
	case len(opts) == 0 && in.Str:
		q, err = New(string(in.Text))
	case len(opts) == 0:
		q, err = New(append([]byte{}, in.Text...))
	case in.Str:
		q, err = NewWith(string(in.Text), opts...)
	default:
		q, err = NewWith(append([]byte{}, in.Text...), opts...)
	}
	return
}

type orCapture struct {
	m      *Matrix
	writes int
	closes int
	werr   error
	cerr   error
	order  string
}

func (c *orCapture) Write(m Matrix) error { c.m = &m; c.writes++; c.order += "W"; return c.werr }
func (c *orCapture) Close() error         { c.closes++; c.order += "C"; return c.cerr }

func orBitmap(q *QRCode) ([][]bool, error) {
	c := &orCapture{}
	if err := q.Save(c); err != nil {
		return nil, err
	}
	if c.m == nil {
		return nil, fmt.Errorf("Save did not write")
	}
	return c.m.Bitmap(), nil
}

type orViolation struct {
	Prop string
	What string
}

// orCheck builds the symbol and reads it back; it returns what disagrees with the
// standard, tagged with the properties concerned.
func orCheck(in orInput) (out []orViolation) {
	bad := func(what string, props ...string) {
		for _, p := range props {
			out = append(out, orViolation{p, what})
		}
	}
	e := orExpected(in)
	q, err, pan := orBuild(in)
	if pan != nil {
		bad(fmt.Sprintf("panic: %v", pan), "C14")
		if m := append([]int{0}, in.Mode...)[len(in.Mode)]; m == 0 && !e.err {
			// is it the choice of the mode that fails?
			in2 := in
			in2.Mode = []int{e.mode}
			if _, err2, pan2 := orBuild(in2); err2 == nil && pan2 == nil {
				bad(fmt.Sprintf("panic: %v", pan), "C06")
			}
		} else if (m == 4 || m == 8 || m == 16) && !orCanMode(string(in.Text), m) {
			bad(fmt.Sprintf("a mode that cannot carry the text is not refused: panic %v", pan), "C06")
		}
		if !e.err {
			bad(fmt.Sprintf("panic: %v", pan), "C01", "C04")
		}
		return
	}
	explicit := 0
	for _, v := range in.Ver {
		if v >= 1 && v <= 40 {
			explicit = v
		}
	}
	mode := 0
	for _, m := range in.Mode {
		mode = m
	}
	if (err != nil) != e.err {
		what := fmt.Sprintf("error is %v, expected error: %v", err, e.err)
		switch {
		case mode != 0 && e.mode == 0:
			bad(what, "C05", "C14")
		case mode != 0 && !orCanMode(string(in.Text), mode):
			bad(what, "C06")
		case explicit != 0:
			bad(what, "C03", "C05")
		default:
			if err != nil && mode == 0 {
				// is it the choice of the mode that fails?
				in2 := in
				in2.Mode = []int{e.mode}
				if _, err2, pan2 := orBuild(in2); err2 == nil && pan2 == nil {
					bad(what, "C06", "C01")
					return
				}
			}
			bad(what, "C04")
		}
		if err != nil {
			bad(what, "C01")
		}
		if err == nil {
			// is the symbol right nevertheless? (it cannot hold the text)
			bad(what, "C01")
		}
		return
	}
	if e.err {
		return
	}
	b, err := orBitmap(q)
	if err != nil {
		bad(err.Error(), "C17", "C01")
		return
	}
	n := len(b)
	if n < 21 || n > 177 || (n-17)%4 != 0 {
		bad(fmt.Sprintf("dimension %d", n), "C08", "C01")
		return
	}
	for _, r := range b {
		if len(r) != n {
			bad("not square", "C08", "C01")
			return
		}
	}
	if q.Dimension() != n {
		bad("Dimension differs from the matrix", "C08", "C16")
	}
	v := (n - 17) / 4
	if mode == 0 {
		// the mode that was chosen
		k, geo, ind := spec_readMask(b), orGeometry(v), 0
		for i := 0; i < 4; i++ {
			ind *= 2
			if x, y := geo.xs[i], geo.ys[i]; b[y][x] != spec_maskBit(k, x, y) {
				ind++
			}
		}
		if m := map[int]int{1: 4, 2: 8, 4: 32, 8: 16}[ind]; m != 0 && m != e.mode {
			bad(fmt.Sprintf("mode indicator %d, the densest mode has number %d", ind, e.mode), "C06")
			if !orCanMode(string(in.Text), m) {
				bad("a mode that cannot carry the text", "C01")
				return
			}
			in2 := in
			in2.Mode = []int{m}
			if e = orExpected(in2); e.err {
				return
			}
		}
	}
	if v != e.ver {
		what := fmt.Sprintf("version %d, expected %d", v, e.ver)
		if explicit != 0 {
			bad(what, "C05")
		} else if len(in.Min) > 0 {
			bad(what, "C05", "C04")
		} else {
			bad(what, "C04")
		}
		if v > e.ver && explicit == 0 {
			// still a symbol of the announced version: judge the rest on it
			e.ver = v
		} else {
			return
		}
	}
	geo := orGeometry(v)
	for y := range b {
		for x := range b[y] {
			if f := geo.g[y][x]; (f == 1 || f == 2) && b[y][x] != (f == 2) {
				bad(fmt.Sprintf("function module x=%d y=%d is %v", x, y, b[y][x]), "C08", "C01")
			}
		}
	}
	k := spec_readMask(b)
	f := spec_format(e.level, k)
	for c := 0; c < 2; c++ {
		for i := 0; i < 15; i++ {
			x, y := spec_formatPos(n, c, i)
			if b[y][x] != (f>>uint(i)&1 == 1) {
				// is it consistent with another level?
				other := false
				for l := 0; l < 4; l++ {
					g := spec_format(l, k)
					same := true
					for j := 0; j < 15; j++ {
						xx, yy := spec_formatPos(n, c, j)
						if b[yy][xx] != (g>>uint(j)&1 == 1) {
							same = false
						}
					}
					other = other || same && l != e.level
				}
				bad(fmt.Sprintf("format information copy %d bit %d (mask %d, level %d)", c, i, k, e.level), "C11", "C01")
				if other {
					bad(fmt.Sprintf("the symbol announces another error correction level than %d", e.level), "C05")
				}
			}
		}
	}
	if v >= 7 {
		w := spec_version(v)
		for i := 0; i < 18; i++ {
			p, r := n-11+i%3, i/3
			if b[r][p] != (w>>uint(i)&1 == 1) || b[p][r] != (w>>uint(i)&1 == 1) {
				bad(fmt.Sprintf("version information bit %d", i), "C11", "C01")
			}
		}
	}
	// codewords
	l := 8 * spec_totalCodewords(v)
	read := make([]bool, len(geo.xs))
	for i := range geo.xs {
		x, y := geo.xs[i], geo.ys[i]
		read[i] = b[y][x] != spec_maskBit(k, x, y)
	}
	want, hdr, seg := orData(string(in.Text), e)
	stream := orStream(want, v, e.level)
	// de-interleave what the symbol holds
	nb, ec := spec_numBlocks[e.level][v], spec_ecPerBlock[e.level][v]
	words := orWords(read[:l])
	blocks := make([][]int, nb)
	for i := range blocks {
		blocks[i] = make([]int, spec_blockLen(v, e.level, i)+ec)
	}
	blk, idx := spec_order(v, e.level)
	for i := range blk {
		blocks[blk[i]][idx[i]] = words[i]
	}
	var got orBits
	okRS := true
	for i := range blocks {
		d := len(blocks[i]) - ec
		for _, w := range blocks[i][:d] {
			got.add(w, 8)
		}
		r := orRS(blocks[i][:d], ec)
		for j := range r {
			if r[j] != blocks[i][d+j] {
				okRS = false
			}
		}
	}
	if !okRS {
		bad(fmt.Sprintf("a block read from the symbol is not a Reed-Solomon codeword (version %d level %d)", v, e.level), "C07", "C09", "C10", "C01")
	}
	same := true
	for i := 0; i < l; i++ {
		if read[i] != stream[i] {
			same = false
		}
	}
	for i := l; i < len(read); i++ {
		if read[i] {
			bad("remainder bit set", "C09", "C10")
		}
	}
	if !same {
		props := []string{"C07", "C09", "C10", "C01"}
		what := "the data region does not hold the expected codewords"
		if okRS {
			// blocks are valid: the data bits are wrong
			props = []string{"C01"}
			for i := 0; i < seg && i < len(got); i++ {
				if got[i] != want[i] {
					what = fmt.Sprintf("segment bit %d (header is %d bits, segment %d)", i, hdr, seg)
					props = []string{"C01", "C02"}
					if i < hdr && mode != 0 {
						props = append(props, "C05")
					}
					if i < 4 && mode == 0 {
						props = append(props, "C06")
					}
					break
				}
			}
			if len(props) == 1 {
				what = "terminator or padding bits differ"
				props = []string{"C03"}
			}
		}
		bad(what, props...)
	}
	// mask choice: rebuild the eight candidates from what was read
	if v <= 12 && in.Kind != "mode" || in.Kind == "mask" {
		cand := make([][]bool, n)
		var lo, hi [8]int
		for kk := 0; kk < 8; kk++ {
			for y := range b {
				cand[y] = append(cand[y][:0], b[y]...)
			}
			for i := range geo.xs {
				x, y := geo.xs[i], geo.ys[i]
				cand[y][x] = read[i] != spec_maskBit(kk, x, y)
			}
			ff := spec_format(e.level, kk)
			for c := 0; c < 2; c++ {
				for i := 0; i < 15; i++ {
					x, y := spec_formatPos(n, c, i)
					cand[y][x] = ff>>uint(i)&1 == 1
				}
			}
			lo[kk], hi[kk] = spec_penalty(cand)
		}
		for kk := 0; kk < 8; kk++ {
			if lo[k] > hi[kk] || lo[k] == hi[kk] && kk < k {
				bad(fmt.Sprintf("mask %d chosen (penalty %d), mask %d has %d", k, lo[k], kk, hi[kk]), "C12", "C13")
				break
			}
		}
	}
	return
}

// ---------------------------------------------------------------- generators

func orText(rng *rand.Rand, mode, n int) []byte {
	var b []byte
	switch mode {
	case 4:
		for i := 0; i < n; i++ {
			b = append(b, byte('0'+rng.Intn(10)))
		}
	case 8:
		for i := 0; i < n; i++ {
			b = append(b, orAlnum[rng.Intn(45)])
		}
	case 16:
		for i := 0; i < n; i++ {
			b = append(b, string(orKanji(rng))...)
		}
	default:
		switch rng.Intn(3) {
		case 0: // arbitrary bytes
			for i := 0; i < n; i++ {
				b = append(b, byte(rng.Intn(256)))
			}
		case 1: // printable
			for i := 0; i < n; i++ {
				b = append(b, byte(32+rng.Intn(95)))
			}
		default: // UTF-8
			for len(b) < n {
				r := []rune{'a', 'é', '漢', '😀', '0', 'A'}[rng.Intn(6)]
				if len(b)+utf8.RuneLen(r) > n {
					r = 'z'
				}
				b = utf8.AppendRune(b, r)
			}
		}
	}
	return b
}

var orKanjiOnce sync.Once
var orKanjiAll []rune

func orKanji(rng *rand.Rand) rune {
	orKanjiOnce.Do(func() {
		for r := rune(0x3400); r <= 0xFAFF; r++ {
			if _, ok := orSJIS(r); ok {
				orKanjiAll = append(orKanjiAll, r)
			}
		}
	})
	// favour the ends of the ranges
	switch rng.Intn(6) {
	case 0:
		return orKanjiAll[rng.Intn(8)]
	case 1:
		return orKanjiAll[len(orKanjiAll)-1-rng.Intn(400)]
	}
	return orKanjiAll[rng.Intn(len(orKanjiAll))]
}

var orModes = []int{4, 8, 16, 32}

func orPieces(rng *rand.Rand) []byte {
	var b []byte
	for n := rng.Intn(6); n >= 0; n-- {
		switch rng.Intn(12) {
		case 0, 1:
			b = append(b, orText(rng, 4, rng.Intn(4))...)
		case 2:
			b = append(b, orText(rng, 8, rng.Intn(4))...)
		case 3, 4:
			b = append(b, orText(rng, 16, rng.Intn(4))...)
		case 5:
			b = append(b, byte(rng.Intn(256)))
		case 6:
			b = append(b, byte(32+rng.Intn(95)))
		case 7:
			b = utf8.AppendRune(b, rune(0x3400+rng.Intn(0xFB00-0x3400)))
		case 8:
			b = utf8.AppendRune(b, []rune{0x33FF, 0x3400, 0x4DBF, 0x4DC0, 0x4DFF, 0x4E00, 0x9FFF, 0xA000, 0xF8FF, 0xF900, 0xFAFF, 0xFB00, 0xFFFD, 0x3042, 0x30A2, 0xFF10, 0xFF71, 0x3001, '０', 'Ａ', 0x0660}[rng.Intn(21)])
		case 9:
			b = append(b, "/:;@[`$%&*+,-. "[rng.Intn(15)])
		case 10:
			b = append(b, orText(rng, 32, rng.Intn(4))...)
		}
	}
	return b
}

func orGenInput(rng *rand.Rand, prop string, i int) orInput {
	in := orInput{Kind: "symbol", Seed: 0, Str: rng.Intn(2) == 0}
	v := 1 + rng.Intn(40)
	if rng.Intn(3) == 0 {
		v = 1 + rng.Intn(10)
	}
	level := rng.Intn(4)
	mode := orModes[rng.Intn(4)]
	if prop == "C06" && i%2 == 0 && i < 2*0x30000 {
		// every character, alone or after another one
		r := rune(i / 2 * 40503 % 0x10000)
		if i >= 2*0x10000 {
			r = rune(i / 2)
		}
		in.Kind = "mode"
		in.Text = []byte(string(r))
		if rng.Intn(2) == 0 {
			in.Text = append([]byte([]string{"0", "A", "漢", "a"}[rng.Intn(4)]), in.Text...)
		}
		if rng.Intn(3) == 0 {
			in.Mode = []int{[]int{4, 8, 16, 32}[rng.Intn(4)]}
		}
		return in
	}
	sys := i < 40*4*4*2 && prop != "C06"
	if sys {
		// systematic part: every version, level and mode, at and next to the capacity
		k := i
		mode = orModes[k%4]
		k /= 4
		level = k % 4
		k /= 4
		v = 1 + k%40
		k /= 40
		c := orCapacity(mode, v, level)
		n := c - k
		if prop == "C04" && k == 1 {
			n = c + 1
		}
		if n < 0 {
			n = 0
		}
		in.Text = orText(rng, mode, n)
		in.Level = []int{level + 1}
		in.Mode = []int{mode}
		if prop != "C04" {
			in.Ver = []int{v}
		}
		return in
	}
	switch {
	case prop == "C06" || prop != "C12" && prop != "C13" && rng.Intn(4) == 0:
		in.Text = orPieces(rng)
		if prop == "C06" {
			in.Kind = "mode"
		}
		if rng.Intn(3) == 0 {
			in.Mode = []int{[]int{0, 4, 8, 16, 32}[rng.Intn(5)]}
		}
	default:
		c := orCapacity(mode, v, level)
		n := 0
		switch rng.Intn(5) {
		case 0:
			n = c + rng.Intn(4) - 2
		case 1:
			n = rng.Intn(c + 1)
		case 2:
			n = rng.Intn(12)
		case 3:
			n = c
		default:
			n = c + 1
		}
		if n < 0 {
			n = 0
		}
		in.Text = orText(rng, mode, n)
	}
	if rng.Intn(2) == 0 {
		in.Level = []int{level + 1}
	}
	if rng.Intn(2) == 0 {
		in.Ver = []int{v}
	}
	if rng.Intn(4) == 0 {
		in.Mode = []int{mode}
	}
	if rng.Intn(4) == 0 {
		in.Min = []int{1 + rng.Intn(40)}
	}
	if prop == "C05" || prop == "C14" || rng.Intn(10) == 0 {
		odd := []int{-1, 0, 1, 40, 41, 5, 100, -7, 2, 39, 1 << 40}
		for k := rng.Intn(3); k > 0; k-- {
			switch rng.Intn(4) {
			case 0:
				in.Ver = append(in.Ver, odd[rng.Intn(len(odd))])
			case 1:
				in.Min = append(in.Min, odd[rng.Intn(len(odd))])
			case 2:
				in.Level = append(in.Level, rng.Intn(8)-1)
			case 3:
				in.Mode = append(in.Mode, []int{0, 1, 2, 3, 4, 8, 16, 32, 33, 64, 128}[rng.Intn(11)])
			}
		}
	}
	if prop == "C12" || prop == "C13" {
		in.Kind = "mask"
		if rng.Intn(4) > 0 {
			in.Ver, in.Min = nil, nil
			in.Text = orPieces(rng)
		}
	}
	return in
}

func orRun(prop string, in orInput) []orViolation {
	if f, ok := orKinds[in.Kind]; ok {
		return f(in)
	}
	return orCheck(in)
}

// kinds of inputs other than symbols
var orKinds = map[string]func(orInput) []orViolation{}

// generators of the other kinds, per property
var orGenerators = map[string]func(rng *rand.Rand, i int) orInput{}

// further generators that rely on internals
var orIntGen = map[string]func(rng *rand.Rand, i int) orInput{}

func TestVerifOracle(t *testing.T) {
	prop := os.Getenv("VERIF_PROP")
	if prop == "" {
		t.Skip()
	}
	log.SetOutput(io.Discard)
	if r := os.Getenv("VERIF_REPLAY"); r != "" {
		var in orInput
		if err := json.Unmarshal([]byte(r), &in); err != nil {
			t.Fatal(err)
		}
		for n := 0; n < 20; n++ {
			for _, v := range orRun(prop, in) {
				if v.Prop == prop {
					fmt.Printf("REPLAY-FAILS %s\n", v.What)
					t.Fail()
					return
				}
			}
		}
		fmt.Println("REPLAY-PASSES")
		return
	}
	budget, _ := strconv.Atoi(os.Getenv("VERIF_BUDGET"))
	if budget == 0 {
		budget = 20
	}
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	maxN, _ := strconv.Atoi(os.Getenv("VERIF_MAXN"))
	if maxN == 0 {
		maxN = 1 << 30
	}
	var hints [][2]int
	var segs [][3]int
	for _, h := range strings.Split(os.Getenv("VERIF_HINT"), ";") {
		var a, b, c int
		if n, _ := fmt.Sscanf(h, "%d,%d,%d", &a, &b, &c); n == 3 {
			if a >= 0 && a < 4 && b >= 0 && b < 3 && c >= 0 {
				segs = append(segs, [3]int{a, b, c})
			}
		} else if n == 2 {
			hints = append(hints, [2]int{a, b})
		}
	}
	deadline := time.Now().Add(time.Duration(budget) * time.Second)
	var mu sync.Mutex
	done, next := 0, 0
	found := false
	var wg sync.WaitGroup
	for w := 0; w < runtime.NumCPU(); w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				mu.Lock()
				i := next
				next++
				stop := found || i >= maxN || time.Now().After(deadline)
				mu.Unlock()
				if stop {
					return
				}
				rng := rand.New(rand.NewSource(seed*1000003 + int64(i)))
				var in orInput
				if g := orIntGen[prop]; g != nil && i%2 == 1 {
					in = g(rng, i/2)
				} else if g := orGenerators[prop]; g != nil {
					in = g(rng, i)
				} else if i < 40*len(segs) {
					// a segment of a mode and a length in a group of versions
					h := segs[i%len(segs)]
					m := [4]int{4, 8, 32, 16}[h[0]]
					v := [3]int{1, 10, 27}[h[1]] + rng.Intn([3]int{9, 17, 14}[h[1]])
					for v < [3]int{9, 26, 40}[h[1]] && orCapacity(m, v, 0) < h[2] {
						v++
					}
					in = orInput{Kind: "symbol", Ver: []int{v}, Level: []int{1}, Mode: []int{m}, Text: orText(rng, m, h[2])}
				} else if i < 4*len(hints) {
					h := hints[i/4]
					m := orModes[i%4]
					in = orInput{Kind: "symbol", Ver: []int{h[0]}, Level: []int{h[1] + 1}, Mode: []int{m}}
					if h[0] >= 1 && h[0] <= 40 && h[1] >= 0 && h[1] < 4 {
						in.Text = orText(rng, m, rng.Intn(orCapacity(m, h[0], h[1])+1))
					}
				} else {
					in = orGenInput(rng, prop, i-4*len(hints)-40*len(segs))
				}
				for _, v := range orRun(prop, in) {
					if v.Prop == prop || v.Prop == "*" {
						mu.Lock()
						if !found {
							found = true
							fmt.Printf("FOUND-INPUT %s\nFOUND-WHAT %s\n", in, v.What)
						}
						mu.Unlock()
						break
					}
				}
				mu.Lock()
				done++
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	fmt.Printf("EVALUATIONS %d\n", done)
	if found {
		t.Fail()
	}
}
