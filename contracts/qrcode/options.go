package qrcode

// What the options do.

// an option value: every integer, the valid ones (lo..hi) one by one
func spec_value(name string, lo, hi int) int {
	x := v_IntSplit(name, -1<<40, 1<<40)
	if x < lo || x > hi {
		return x
	}
	k := lo
	for x > k {
		k++
	}
	return k
}

// an option and what it says: kind 0 version, 1 minimum version, 2 level, 3 mode
func spec_option(kind int, name string) (EncodeOption, int) {
	switch kind {
	case 0:
		x := spec_value(name, 1, 40)
		return WithVersion(x), x
	case 1:
		x := spec_value(name, 1, 40)
		return WithMinimumVersion(x), x
	case 2:
		x := spec_value(name, 1, 4)
		return WithErrorCorrectionLevel(ecLevel(x)), x
	}
	// every mode there is or may be
	x := v_IntSplit(name, 0, 1<<40)
	for _, m := range []int{0, int(EncModeNumeric), int(EncModeAlphanumeric), int(EncModeKanji), int(EncModeByte)} {
		if x == m {
			return WithEncodingMode(encMode(m)), m
		}
	}
	return WithEncodingMode(encMode(x)), x
}

func spec_validOption(kind, x int) bool {
	switch kind {
	case 0, 1:
		return x >= 1 && x <= 40
	case 2:
		return x >= 1 && x <= 4
	}
	return true
}

// an option that records that it has been applied, and to what
type spec_recOption struct {
	id  int
	got **encodingOption
}

func (o spec_recOption) apply(e *encodingOption) {
	v_Rec(10, o.id)
	if *o.got == nil {
		*o.got = e
	}
	v_Assert(*o.got == e, "every option is applied to the same settings")
}

// ---------------------------------------------------------------- theorems

// thm_C05_option: an option with any argument, applied to any settings.
func thm_C05_option(kind int) {
	o := &encodingOption{
		Version:        v_Int("settings.Version", -1<<40, 1<<40),
		MinimumVersion: v_Int("settings.MinimumVersion", -1<<40, 1<<40),
		EcLevel:        ecLevel(v_Int("settings.EcLevel", -1<<40, 1<<40)),
		EncMode:        encMode(v_Int("settings.EncMode", 0, 1<<40)),
	}
	was := *o
	opt, x := spec_option(kind, "argument")
	v_Assert(opt != nil, "an option")
	opt.apply(o)
	want := was
	if spec_validOption(kind, x) {
		switch kind {
		case 0:
			want.Version = x
		case 1:
			want.MinimumVersion = x
		case 2:
			want.EcLevel = ecLevel(x)
		case 3:
			want.EncMode = encMode(x)
		}
	}
	v_Assert(o.Version == want.Version, "the version is set by WithVersion with a valid argument only")
	v_Assert(o.MinimumVersion == want.MinimumVersion, "the minimum version is set by WithMinimumVersion with a valid argument only")
	v_Assert(o.EcLevel == want.EcLevel, "the level is set by WithErrorCorrectionLevel with a valid argument only")
	v_Assert(o.EncMode == want.EncMode, "the mode is set by WithEncodingMode only")
}

// thm_C05_order: n arbitrary options are applied once each, in the order given, to the
// settings the symbol is built from.
func thm_C05_order(n int) {
	var settings *encodingOption
	opts := make([]EncodeOption, n)
	for i := range opts {
		opts[i] = spec_recOption{i, &settings}
	}
	v_Assume(!v_Bool("no mode"))
	spec_detected = EncModeByte
	NewWith(v_AbsText("text", 10, 10), opts...)
	v_Assert(spec_calls(10) == n, "every option is applied exactly once")
	k := 0
	for i := 0; i < v_RecN(); i++ {
		if v_RecAt(i, 0) == 10 {
			v_Assert(v_RecAt(i, 1) == k, "the options are applied in the order given")
			k++
		}
	}
	spec_defaults(10)
}

func spec_defaults(size int) {
	e := spec_last(3)
	v_Assert(e >= 0, "the text is encoded")
	if e < 0 {
		return
	}
	v_Assert(v_RecAt(e, 2) == int(EncModeByte), "the default is automatic mode detection")
	v_Assert(v_RecAt(e, 5) == int(ErrorCorrectionQuart) && v_RecAt(e, 3) == int(ErrorCorrectionQuart), "the default level is Q")
	v_Assert(v_RecAt(e, 4) == 1, "the default version is automatic")
	v_Assert(v_RecAt(e, 1) == size, "the text is encoded as given")
}

// thm_C05_new: New, and NewWith without options, on a string and on bytes.
func thm_C05_new(variant int) {
	v_Assume(!v_Bool("no mode"))
	spec_detected = EncModeByte
	text := v_AbsText("text", v_IntSplit("characters", 0, 7), 7)
	switch variant {
	case 0:
		New(text)
	case 1:
		New([]byte(text))
	case 2:
		NewWith(text)
	case 3:
		NewWith([]byte(text))
	}
	spec_defaults(len(text))
}

// thm_C05: up to two options with any arguments (kind -1: none), in this order.
func thm_C05(a, b int) {
	ver, min, level, mode := 0, 0, 3, 0
	var opts []EncodeOption
	for i, k := range [2]int{a, b} {
		if k < 0 {
			continue
		}
		o, x := spec_option(k, "argument "+"12"[i:i+1])
		opts = append(opts, o)
		if spec_validOption(k, x) {
			switch k {
			case 0:
				ver = x
			case 1:
				min = x
			case 2:
				level = x
			case 3:
				mode = x
			}
		}
	}
	v_Assume(!v_Bool("no mode"))
	spec_detected = EncModeByte
	q, err := NewWith(v_AbsText("text", 4, 4), opts...)
	v_Assert(q == nil && err != nil, "an error of the encoder is returned")
	e := spec_last(3)
	if mode == 0 {
		mode = int(spec_detected)
	} else if mode != int(EncModeNumeric) && mode != int(EncModeAlphanumeric) && mode != int(EncModeKanji) && mode != int(EncModeByte) {
		v_Assert(e < 0, "a mode that does not exist is an error")
		return
	} else {
		c := spec_last(2)
		v_Assert(mode == int(EncModeByte) || c >= 0 && v_RecAt(c, 2) == mode, "the requested mode is checked")
	}
	v_Assert(e >= 0, "the text is encoded")
	if e < 0 {
		return
	}
	v_Assert(v_RecAt(e, 2) == mode, "the last mode is used")
	v_Assert(v_RecAt(e, 3) == level && v_RecAt(e, 5) == level, "the last valid level is used")
	want := 1
	if ver != 0 {
		want = ver
	} else if min != 0 {
		want = min
	}
	v_Assert(v_RecAt(e, 4) == want, "the last valid version, otherwise the last valid minimum version, is used")
}

// thm_C05_symbol: what was requested appears in the finished symbol.
func thm_C05_symbol(v, level int) {
	_, b := thm_symbol(v, level)
	if b == nil {
		return
	}
	n := spec_size(v)
	v_Assert(len(b) == n, "the symbol has the requested version")
	k := v_Force(spec_readMask(b))
	f := spec_format(level, k)
	for i := 0; i < 15; i++ {
		x, y := spec_formatPos(n, 0, i)
		v_AssertAt(b[y][x] == (f>>uint(i)&1 == 1), "the symbol announces the requested level", y*n+x)
	}
}
