package qrcode

import "github.com/yeqown/reedsolomon/binary"

// Construction is total: by composition over the settings a symbol can be built from,
// the texts of each mode and the 160 versions and levels.

type spec_named string
type spec_namedBytes []byte

// spec_settings: the settings every sequence of options leads to.
func spec_settings(o *encodingOption) bool {
	return o.Version >= 0 && o.Version <= 40 && o.MinimumVersion >= 0 && o.MinimumVersion <= 40 &&
		o.EcLevel >= ErrorCorrectionLow && o.EcLevel <= ErrorCorrectionHighest
}

// ---------------------------------------------------------------- contracts

// Contract of (*encoder).Encode (thm_C14_encode): defined for the four modes, the
// versions and levels; an error or 8 bits per data codeword.
func sum_EncodeTotal(e *encoder, raw string) (*binary.Binary, error) {
	v := e.version.Ver
	v_Assert(e.mode == EncModeNumeric || e.mode == EncModeAlphanumeric || e.mode == EncModeByte || e.mode == EncModeKanji, "the encoder is given one of the four modes")
	v_Assert(v >= 1 && v <= 40 && e.version.ECLevel >= ErrorCorrectionLow && e.version.ECLevel <= ErrorCorrectionHighest, "the encoder is given a version and a level")
	v_Rec(3)
	return nil, errMissMatchedVersion
}

func sum_EncodeOrFail(e *encoder, raw string) (*binary.Binary, error) {
	if v_Bool("encoding fails") {
		return nil, errMissMatchedVersion
	}
	return sum_Encode(e, raw)
}

// ---------------------------------------------------------------- theorems

// thm_C14_settings: the default settings and those after any option with any argument.
func thm_C14_settings(kind int) {
	v_Assert(spec_settings(DefaultEncodingOption()), "the default settings are in range")
	o := &encodingOption{
		Version:        v_Int("settings.Version", 0, 40),
		MinimumVersion: v_Int("settings.MinimumVersion", 0, 40),
		EcLevel:        ecLevel(v_Int("settings.EcLevel", 1, 4)),
		EncMode:        encMode(v_Int("settings.EncMode", 0, 1<<40)),
	}
	opt, _ := spec_option(kind, "argument")
	opt.apply(o)
	v_Assert(spec_settings(o), "an option keeps the settings in range")
}

func spec_pick(name string, lo, hi int) int {
	x := v_IntSplit(name, lo, hi)
	k := lo
	for x > k {
		k++
	}
	return k
}

// thm_C14_choose: mode and version are chosen for every text and all settings at level l.
func thm_C14_choose(l, automode int) {
	o := &encodingOption{
		Version:        spec_pick("settings.Version", 0, 40),
		MinimumVersion: v_IntSplit("settings.MinimumVersion", 0, 40),
		EcLevel:        spec_level(l),
	}
	if o.Version == 0 {
		o.MinimumVersion = spec_pick("settings.MinimumVersion", 0, 40)
	}
	spec_detected = spec_mode(spec_pick("detected", 0, 3))
	if automode == 0 {
		o.EncMode = encMode(v_IntSplit("settings.EncMode", 1, 1<<40))
		for k := 0; k < 4; k++ {
			if o.EncMode == spec_mode(k) {
				o.EncMode = spec_mode(k)
			}
		}
	}
	text := v_AbsText("text", v_IntSplit("bytes", 0, 1<<40), v_IntSplit("characters", 0, 1<<40))
	q, err := build([]byte(text), o)
	v_Assert(q == nil && err != nil, "the error of the encoder is returned")
}

// thm_C14_types: the types a text may have.
func thm_C14_types(variant int) {
	v_Assume(!v_Bool("no mode"))
	spec_detected = EncModeByte
	text := v_AbsText("text", v_IntSplit("characters", 0, 7), 7)
	switch variant {
	case 0:
		New(text)
	case 1:
		New([]byte(text))
	case 2:
		New(spec_named(text))
	case 3:
		New(spec_namedBytes(text))
	case 4:
		NewWith(text)
	case 5:
		NewWith([]byte(text))
	case 6:
		NewWith(spec_named(text))
	case 7:
		NewWith(spec_namedBytes(text))
	}
	e := spec_last(3)
	v_Assert(e >= 0 && v_RecAt(e, 1) == len(text), "a text of any type is encoded as given")
}

// thm_C14_rest: from the encoded data to the finished symbol.
func thm_C14_rest(v, level int) {
	ver_case, lvl_case = v, level
	q, err := NewWith("A", WithVersion(v), WithEncodingMode(EncModeByte), WithErrorCorrectionLevel(ecLevel(level+1)))
	if v_Bool("encoding fails") {
		v_Assert(q == nil && err != nil, "the error of the encoder is returned")
		return
	}
	v_Assert(q != nil && err == nil, "encoded data lead to a symbol")
}

// thm_C14_penalty: the penalty of every matrix is defined.
func thm_C14_penalty(n int) {
	m, _ := pen_matrix(n)
	evaluation(m)
	v_Assert(true, "every matrix has a penalty")
}

// thm_C14_encode: texts of every length min..max in mode k, at versions of the group.
func thm_C14_encode(k, group, min, max int) {
	ver := v_Int("version", spec_groupLo(group), spec_groupHi(group))
	kind := [4]int{0, 2, 1, 3}[k]
	e := newEncoder(spec_mode(k), ErrorCorrectionLow, version{Ver: ver})
	got, err := e.Encode(v_Text("text", v_IntSplit("length", min, max), kind))
	v_Assert((got == nil) == (err != nil), "the encoder returns data or an error")
}
