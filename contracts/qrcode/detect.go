package qrcode

import (
	"errors"

	"golang.org/x/text/encoding"
	"golang.org/x/text/transform"
)

// Which characters a mode can carry (ISO/IEC 18004, 7.3 and 7.4). Classes of characters:
// 0 digits, 1 the further alphanumeric characters, 2 ideographs with a Shift_JIS code
// that Kanji mode can carry, 3 all others. A kind of characters is an interval of code
// points of one class.

var spec_kinds = []struct {
	class  int
	lo, hi rune
}{
	{0, '0', '9'},
	{1, 'A', 'Z'}, {1, ' ', ' '}, {1, '$', '%'}, {1, '*', '+'}, {1, '-', '/'}, {1, ':', ':'},
	{2, 0x3400, 0x4DBF}, {2, 0x4E00, 0x9FFF}, {2, 0xF900, 0xFAFF},
	{3, 0x3400, 0x4DBF}, {3, 0x4E00, 0x9FFF}, {3, 0xF900, 0xFAFF},
	{3, 0, 0x1F}, {3, '!', '#'}, {3, '&', ')'}, {3, ',', ','}, {3, ';', '@'}, {3, '[', 0x33FF},
	{3, 0x4DC0, 0x4DFF}, {3, 0xA000, 0xF8FF}, {3, 0xFB00, 0x10FFFF},
}

func spec_classes() []int {
	c := make([]int, len(spec_kinds))
	for i, k := range spec_kinds {
		c[i] = k.class
	}
	return c
}

// any character of a kind
func spec_rune(kind int) rune {
	k := spec_kinds[kind]
	r := rune(v_Int("~rune "+spec_kindName[kind:kind+1], int(k.lo), int(k.hi)))
	if k.class == 2 {
		v_Assume(spec_kanji(r))
	}
	if k.class == 3 && kind < 13 {
		v_Assume(!spec_kanji(r))
	}
	return r
}

const spec_kindName = "abcdefghijklmnopqrstuvwxyz"

func spec_kanji(r rune) bool {
	s := v_SJISRune(string(r))
	if len(s) != 2 {
		return false
	}
	c := int(s[0])*256 + int(s[1])
	return 0x8140 <= c && c <= 0x9FFC || 0xE040 <= c && c <= 0xEBBF
}

// the densest mode for a text in which exactly the classes of set occur
func spec_detect(set int) encMode {
	switch {
	case set&^1 == 0:
		return EncModeNumeric
	case set&^3 == 0:
		return EncModeAlphanumeric
	case set&^4 == 0:
		return EncModeKanji
	}
	return EncModeByte
}

// classes mode k can carry
func spec_carries(k int) int { return [4]int{1, 3, 15, 4}[k] }

// ---------------------------------------------------------------- contracts

var spec_errSJIS = errors.New("no Shift_JIS code")

// golang.org/x/text: a character has a Shift_JIS code of one or two bytes or none
func sum_sjisRune(t transform.Transformer, s string) (string, int, error) {
	c := v_SJISRune(s)
	if len(c) == 0 {
		return "", 0, spec_errSJIS
	}
	return c, 0, nil
}

func sum_sjisRuneEnc(e *encoding.Encoder, s string) (string, error) {
	c := v_SJISRune(s)
	if len(c) == 0 {
		return "", spec_errSJIS
	}
	return c, nil
}

// ---------------------------------------------------------------- theorems

// thm_C06: every text in which exactly the classes of set occur.
func thm_C06(set int) {
	mode, err := analyzeEncodeModeFromRaw(v_AnyText("text", set, spec_classes(), spec_rune))
	v_Assert(err == nil, "every text has a mode")
	v_Assert(mode == spec_detect(set), "the densest mode that can represent the whole text")
}

// thm_C06_valid: such a text and mode k
func thm_C06_valid(set, k int) {
	err := validateEncodingMode(spec_mode(k), v_AnyText("text", set, spec_classes(), spec_rune))
	v_Assert((err == nil) == (set&^spec_carries(k) == 0), "a mode is accepted exactly for the texts it can carry")
}

// thm_C06_invalid: a mode that is none of the four
func thm_C06_invalid(set int) {
	mode := v_Int("mode", 1, 1<<40)
	v_Assume(mode != int(EncModeNumeric) && mode != int(EncModeAlphanumeric) && mode != int(EncModeByte) && mode != int(EncModeKanji))
	v_Assert(validateEncodingMode(encMode(mode), v_AnyText("text", set, spec_classes(), spec_rune)) != nil, "any other mode is an error")
}
