package qrcode

import (
	"github.com/yeqown/reedsolomon/binary"
	"golang.org/x/text/transform"
)

// The data bit stream of a segment: mode indicator, character count indicator, data
// bits (ISO/IEC 18004, 7.4). Modes are numbered 0 numeric, 1 alphanumeric, 2 byte,
// 3 kanji; groups 0, 1, 2 are the versions 1-9, 10-26, 27-40.

func spec_mode(k int) encMode {
	return [4]encMode{EncModeNumeric, EncModeAlphanumeric, EncModeByte, EncModeKanji}[k]
}

func spec_indicator(k int) uint32 { return [4]uint32{1, 2, 4, 8}[k] }

func spec_countBits(k, group int) int {
	return [4][3]int{{10, 12, 14}, {9, 11, 13}, {8, 16, 16}, {8, 10, 12}}[k][group]
}

func spec_groupLo(g int) int { return [3]int{1, 10, 27}[g] }
func spec_groupHi(g int) int { return [3]int{9, 26, 40}[g] }

// largest number of characters of a mode in any symbol of the group
func spec_groupMax(k, g int) int {
	return [4][3]int{{552, 3283, 7089}, {335, 1990, 4296}, {230, 1367, 2953}, {141, 842, 1817}}[k][g]
}

const spec_alnum = "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ $%*+-./:"

// ---------------------------------------------------------------- contracts

// terminator and padding: see thm_C03
func sum_breakUp(e *encoder) error {
	if v_Bool("does not fit") {
		return errMissMatchedVersion
	}
	return nil
}

// the value of an alphanumeric character: thm_C02_alnum
func sum_alnum(c byte) uint32 { return uint32(v_UFApp("alphanumeric value", 0, 44, c)) }

// Shift_JIS conversion (golang.org/x/text): two bytes per character of the text
func sum_sjis(t transform.Transformer, s string) (string, int, error) {
	return v_SJIS(s), 0, nil
}

// ---------------------------------------------------------------- theorems

// thm_C02: texts of every length min..max in mode k at any version of the group.
func thm_C02(k, group, min, max int) {
	ver := v_Int("version", spec_groupLo(group), spec_groupHi(group))
	kind := [4]int{0, 2, 1, 3}[k]
	n := v_IntSplit("length", min, max)
	text := v_Text("text", n, kind)

	// expect[i]: the stream of the first i characters
	expect := make([]*binary.Binary, max+1)
	b := binary.New()
	b.AppendUint32(spec_indicator(k), 4)
	b.AppendUint32(uint32(n), spec_countBits(k, group))
	expect[0] = b.Copy()
	for i := 0; i < max; i++ {
		t := b.Copy()
		switch k {
		case 0:
			switch i % 3 {
			case 0:
				t.AppendUint32(spec_digit(i), 4)
			case 1:
				t.AppendUint32(spec_digit(i-1)*10+spec_digit(i), 7)
			case 2:
				t.AppendUint32(spec_digit(i-2)*100+spec_digit(i-1)*10+spec_digit(i), 10)
				b = t
			}
		case 1:
			if i%2 == 0 {
				t.AppendUint32(sum_alnum(v_TextAt("text", kind, i)), 6)
			} else {
				t.AppendUint32(sum_alnum(v_TextAt("text", kind, i-1))*45+sum_alnum(v_TextAt("text", kind, i)), 11)
				b = t
			}
		case 2:
			t.AppendUint32(uint32(v_TextAt("text", kind, i)), 8)
			b = t
		case 3:
			hi, lo := uint32(v_TextAt("text", kind, 2*i)), uint32(v_TextAt("text", kind, 2*i+1))
			code := hi*256 + lo
			if code <= 0x9FFC {
				code -= 0x8140
			} else {
				code -= 0xC140
			}
			t.AppendUint32((code/256)*0xC0+code%256, 13)
			b = t
		}
		expect[i+1] = t.Copy()
	}

	e := newEncoder(spec_mode(k), ErrorCorrectionLow, version{Ver: ver})
	got, err := e.Encode(text)
	if v_Bool("does not fit") {
		v_Assert(err != nil && got == nil, "a segment that does not fit is an error")
		return
	}
	v_Assert(err == nil, "no error for a segment that fits")
	v_AssertAt(v_BinaryEq(got, expect[v_Force(n)]), "segment: mode indicator, character count, data bits", v_Force(n))
}

func spec_digit(i int) uint32 { return uint32(v_TextAt("text", 0, i)) - '0' }

// thm_C02_alnum: the value of each alphanumeric character.
func thm_C02_alnum() {
	for i := 0; i < 45; i++ {
		v_Assert(encodeAlphanumericCharacter(spec_alnum[i]) == uint32(i), "value of an alphanumeric character")
	}
}

// thm_C02_width: indicator and count width at every version and mode.
func thm_C02_width(v int) {
	g := 0
	for g < 2 && v > spec_groupHi(g) {
		g++
	}
	for k := 0; k < 4; k++ {
		e := newEncoder(spec_mode(k), ErrorCorrectionLow, loadVersion(v, ErrorCorrectionLow))
		v_Assert(e.charCountBits() == spec_countBits(k, g), "width of the character count")
	}
}
