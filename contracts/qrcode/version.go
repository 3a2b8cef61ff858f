package qrcode

import "github.com/yeqown/reedsolomon/binary"

// Which version is chosen (ISO/IEC 18004, 7.1 and 7.4; quantities of spec.go).

func spec_payloadBits(k, n int) int {
	switch k {
	case 0:
		return n/3*10 + [3]int{0, 4, 7}[n%3]
	case 1:
		return n/2*11 + n%2*6
	case 2:
		return n * 8
	}
	return n * 13
}

func spec_groupOf(v int) int {
	switch {
	case v <= 9:
		return 0
	case v <= 26:
		return 1
	}
	return 2
}

// largest number of characters (bytes in byte mode) that version v at level l holds
func spec_cap(k, v, l int) int {
	room := 8*spec_dataCodewords(v, l) - 4 - spec_countBits(k, spec_groupOf(v))
	lo, hi := 0, 8000
	for lo < hi {
		m := (lo + hi + 1) / 2
		if spec_payloadBits(k, m) <= room {
			lo = m
		} else {
			hi = m - 1
		}
	}
	return lo
}

// ---------------------------------------------------------------- contracts

var spec_detected encMode

// thm_C06
func sum_detect(text string) (encMode, error) {
	v_Rec(1, len(text))
	if v_Bool("no mode") {
		return EncModeNone, ErrNotSupportCharacter
	}
	return spec_detected, nil
}

// thm_C06_valid
func sum_validate(mode encMode, text string) error {
	v_Rec(2, len(text), int(mode))
	if mode != EncModeNumeric && mode != EncModeAlphanumeric && mode != EncModeKanji && mode != EncModeByte {
		return errMissMatchedEncodeType
	}
	if v_Bool("no mode") {
		return errMissMatchedEncodeType
	}
	return nil
}

// the encoder is given everything that has been chosen; it refuses to go on
func sum_EncodeRec(e *encoder, text string) (*binary.Binary, error) {
	v_Rec(3, len(text), int(e.mode), int(e.ecLv), e.version.Ver, int(e.version.ECLevel))
	return nil, errMissMatchedVersion
}

// the matrix is not looked at
func sum_newMatrix(width, height int) *Matrix { return &Matrix{width: width, height: height} }

// the last call of a kind that was recorded (-1: none) and their number
func spec_last(kind int) int {
	r := -1
	for i := 0; i < v_RecN(); i++ {
		if v_RecAt(i, 0) == kind {
			r = i
		}
	}
	return r
}

func spec_calls(kind int) int {
	n := 0
	for i := 0; i < v_RecN(); i++ {
		if v_RecAt(i, 0) == kind {
			n++
		}
	}
	return n
}

// ---------------------------------------------------------------- theorems

// a text of n characters (bytes in byte mode) for mode k
func spec_text(k, n int) string {
	switch k {
	case 2:
		return v_AbsText("text", n, v_Int("runes", 0, 100000))
	case 3:
		return v_AbsText("text", 3*n, n)
	}
	return v_AbsText("text", n, n)
}

func spec_textLen(k, n int) int {
	if k == 3 {
		return 3 * n
	}
	return n
}

// thm_C04: any text of any length for mode k at level l, the mode detected (auto=1) or
// requested, with or without a minimum version.
func thm_C04(k, l, auto int) {
	var most [41]int
	for v := 1; v <= 40; v++ {
		most[v] = spec_cap(k, v, l)
	}
	n := v_IntSplit("characters", 0, 100000)
	m, min := v_IntSplit("minimum version", 0, 40), 0
	for m > min {
		min++
	}
	opts := []EncodeOption{WithErrorCorrectionLevel(spec_level(l)), WithMinimumVersion(min)}
	if auto == 1 {
		spec_detected = spec_mode(k)
	} else {
		opts = append(opts, WithEncodingMode(spec_mode(k)))
	}
	_, err := NewWith(spec_text(k, n), opts...)
	e := spec_last(3)
	if v_Bool("no mode") {
		v_Assert(err != nil && e < 0, "no mode carries the text: an error")
		return
	}
	want := 1
	for want <= 40 && n > most[want] {
		want++
	}
	if want > 40 {
		v_Assert(err != nil && e < 0, "no version holds the text: an error")
		return
	}
	if want < min {
		want = min
	}
	v_Assert(n <= most[want], "the text fits")
	v_Assert(e >= 0, "some version holds the text: it is encoded")
	if e < 0 {
		return
	}
	v_Assert(v_RecAt(e, 4) == want, "the smallest version that holds the text, at least the minimum version")
	v_Assert(v_RecAt(e, 2) == int(spec_mode(k)), "the mode that was chosen")
	v_Assert(v_RecAt(e, 3) == int(spec_level(l)) && v_RecAt(e, 5) == int(spec_level(l)), "the level that was chosen")
	v_Assert(v_RecAt(e, 1) == spec_textLen(k, n), "the whole text is encoded")
	for i := 0; i < v_RecN(); i++ {
		if v_RecAt(i, 0) == 1 || v_RecAt(i, 0) == 2 {
			v_Assert(v_RecAt(i, 1) == spec_textLen(k, n), "the mode is chosen for the whole text")
		}
	}
}
