package qrcode

import "github.com/yeqown/reedsolomon/binary"

// thm_C03_refused: a segment that needs more bits than the symbol has.
func thm_C03_refused(v, l int) {
	over := v_Int("bits too many", 1, 1000000)
	e := newEncoder(EncModeByte, spec_level(l), loadVersion(v, spec_level(l)))
	e.dst = v_BinaryOpaque("segment", 8*spec_dataCodewords(v, l)+over)
	v_Assert(e.breakUpInto8bit() != nil, "a segment that does not fit is refused")
}

// thm_C03: the data bits for a segment of any length in any symbol (ISO/IEC 18004,
// 7.4.9 and 7.4.10) that leaves any number of bits, congruent to s modulo 8, free.
func thm_C03(v, l, s int) {
	fits(v, l, s, 0)
	if max := (8*spec_dataCodewords(v, l) - s) / 8; max > 0 {
		fits(v, l, s, v_IntSplit("free bytes", 1, max))
	}
}

// 8*t+s bits are free
func fits(v, l, s, t int) {
	d := spec_dataCodewords(v, l)
	segment := v_BinaryOpaque("segment", 8*d-8*t-s)

	// terminator and zero bits to the byte boundary
	b := segment.Copy()
	n := 4
	b.AppendNumBools(4, false)
	for (8-s+n)%8 != 0 {
		b.AppendBools(false)
		n++
	}
	// pad[k]: followed by k pad codewords
	pad := make([]*binary.Binary, d+1)
	for k := 0; k <= d; k++ {
		pad[k] = b.Copy()
		if k%2 == 0 {
			b.AppendUint32(0xEC, 8)
		} else {
			b.AppendUint32(0x11, 8)
		}
	}

	e := newEncoder(EncModeByte, spec_level(l), loadVersion(v, spec_level(l)))
	e.dst = segment.Copy()
	err := e.breakUpInto8bit()
	v_Assert(err == nil, "a segment that fits is accepted")
	free := v_Force(t)*8 + s
	want := segment.Copy()
	if n <= free {
		want = pad[(free-n)/8]
	} else {
		// no room for more than (a part of) the terminator and zero bits
		want.AppendNumBools(free, false)
	}
	v_AssertAt(v_BinaryEq(e.dst, want), "terminator, zero bits and pad codewords up to the capacity", free)
	v_AssertAt(e.dst.Len() == 8*d, "the data fills the symbol exactly", free)
}
