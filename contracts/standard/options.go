package standard

import (
	"errors"
	"image"
	"image/color"
	"io"
	"os"
)

// C26: options on arbitrary settings.

// Contract of fmt.Sscanf for formats of literal characters and %x verbs with a width:
// enough hexadecimal digits for every verb.
func sum_Sscanf(s, format string, args ...interface{}) (int, error) {
	p, n := 0, 0
	for i := 0; i < len(format); i++ {
		if format[i] != '%' {
			if p >= len(s) || s[p] != format[i] {
				return n, errors.New("input does not match format")
			}
			p++
			continue
		}
		i++
		w := 0
		for format[i] >= '0' && format[i] <= '9' {
			w = w*10 + int(format[i]-'0')
			i++
		}
		v_Assert(format[i] == 'x' && w > 0, "the format is one that is understood")
		v, k := 0, 0
		for k < w && p < len(s) {
			d := hexValue(s[p])
			if d < 0 {
				break
			}
			v, k, p = v*16+d, k+1, p+1
		}
		if k == 0 {
			return n, errors.New("expected integer")
		}
		if n >= len(args) {
			return n, errors.New("too few operands for format '%x'")
		}
		switch q := args[n].(type) {
		case *uint8:
			if v > 255 {
				return n, errors.New("integer overflow")
			}
			*q = uint8(v)
		case *uint16:
			*q = uint16(v)
		case *uint32:
			*q = uint32(v)
		case *int:
			*q = v
		default:
			v_Assert(false, "the format is one that is understood")
		}
		n++
	}
	return n, nil
}

func hexValue(c byte) int {
	if c >= '0' && c <= '9' {
		return int(c) - '0'
	}
	if c >= 'a' && c <= 'f' {
		return int(c) - 'a' + 10
	}
	if c >= 'A' && c <= 'F' {
		return int(c) - 'A' + 10
	}
	return -1
}

type opt_encoder struct{ n int }

func (opt_encoder) Encode(w io.Writer, img image.Image) error { return nil }

var (
	opt_file    = new(os.File)
	opt_fails   bool
	opt_decodes bool
	opt_jpeg    = std_img{image.Rect(1, 2, 3, 4)}
	opt_png     = std_img{image.Rect(2, 3, 4, 5)}
	opt_any     = std_img{image.Rect(3, 4, 5, 6)}
	opt_opened  []string
	opt_closed  int
	opt_err     = errors.New("file")
)

func sum_Open(name string) (*os.File, error) {
	opt_opened = append(opt_opened, name)
	if opt_fails {
		return nil, opt_err
	}
	return opt_file, nil
}
func sum_CloseFile(f *os.File) error { opt_closed++; return nil }
func sum_jpegDecode(r io.Reader) (image.Image, error) {
	v_Assert(r == io.Reader(opt_file), "the file that was opened is decoded")
	if opt_decodes {
		return opt_jpeg, nil
	}
	return nil, opt_err
}
func sum_pngDecode(r io.Reader) (image.Image, error) {
	v_Assert(r == io.Reader(opt_file), "the file that was opened is decoded")
	if opt_decodes {
		return opt_png, nil
	}
	return nil, opt_err
}
func sum_imgRead(name string) (image.Image, error) {
	opt_opened = append(opt_opened, name)
	if opt_decodes {
		return opt_any, nil
	}
	return nil, opt_err
}

// a colour that is no color.RGBA, with any components
type opt_color struct{ r, g, b, a uint32 }

func (c opt_color) RGBA() (r, g, b, a uint32) { return c.r, c.g, c.b, c.a }

func opt_settings(tag string, i int) *outputImageOptions {
	o := defaultOutputImageOption()
	o.bgColor, o.qrColor = std_rgba("bg"+tag), std_rgba("fg"+tag)
	o.bgTransparent = v_Bool("transparent" + tag)
	o.qrGradient = &LinearGradient{Angle: float64(i)}
	o.logo = std_img{image.Rect(0, 0, 9, i)}
	o.logoSizeMultiplier = v_Int("factor"+tag, -1000, 1000)
	o.qrWidth = v_Int("width"+tag, -1000, 1000)
	o.shape = std_shape{}
	o.logoSafeZone = v_Bool("zone" + tag)
	o.imageEncoder = opt_encoder{i}
	for k := 0; k < 4; k++ {
		o.borderWidths[k] = v_Int("border"+tag+v_digits(k), -1000, 1000)
	}
	o.halftoneImg = std_img{image.Rect(0, 0, i, 9)}
	return o
}

func opt_same(a, b *outputImageOptions, but string) {
	v_Assert(but == "bg" || a.bgColor == b.bgColor, "other settings stay: background colour")
	v_Assert(a.bgTransparent == b.bgTransparent, "other settings stay: transparency")
	v_Assert(but == "fg" || a.qrColor == b.qrColor, "other settings stay: foreground colour")
	v_Assert(a.qrGradient == b.qrGradient, "other settings stay: gradient")
	v_Assert(a.logo == b.logo, "other settings stay: logo")
	v_Assert(a.logoSizeMultiplier == b.logoSizeMultiplier, "other settings stay: logo size")
	v_Assert(a.qrWidth == b.qrWidth, "other settings stay: block width")
	v_Assert(a.shape == b.shape, "other settings stay: shape")
	v_Assert(a.logoSafeZone == b.logoSafeZone, "other settings stay: safe zone")
	v_Assert(a.imageEncoder == b.imageEncoder, "other settings stay: encoder")
	v_Assert(a.borderWidths == b.borderWidths, "other settings stay: borders")
	v_Assert(a.halftoneImg == b.halftoneImg, "other settings stay: halftone")
}

const hexDigits = "0123456789abcdefABCDEF"

func opt_hex(name string) (byte, uint8) {
	i := v_Small(name, 5)
	v_Assume(i < 22)
	c := hexDigits[i]
	return c, uint8(hexValue(c))
}

// the options whose argument is a value
func thm_C26(kind, arg int) {
	a := opt_settings("", 5)
	b := *a
	want := &b
	but := ""
	var op ImageOption
	switch kind {
	case 0:
		op = WithBgTransparent()
		want.bgTransparent = true
	case 1, 2:
		var c color.Color
		r := std_rgba("c")
		switch arg {
		case 0: // nil
		case 1:
			c = r
		case 2: // the same byte twice
			c = opt_color{uint32(r.R) * 0x101, uint32(r.G) * 0x101, uint32(r.B) * 0x101, uint32(r.A) * 0x101}
		case 3:
			l := std_rgba("low")
			c = opt_color{uint32(r.R)<<8 | uint32(l.R), uint32(r.G)<<8 | uint32(l.G), uint32(r.B)<<8 | uint32(l.B), uint32(r.A)<<8 | uint32(l.A)}
		}
		if kind == 1 {
			op = WithBgColor(c)
		} else {
			op = WithFgColor(c)
		}
		if arg != 0 {
			if kind == 1 {
				want.bgColor = r
			} else {
				want.qrColor = r
			}
		}
		if arg == 3 {
			l := std_rgba("low")
			but = "bg"
			op.apply(a)
			got := a.bgColor
			if kind == 2 {
				but, got = "fg", a.qrColor
			}
			g, h, w := [4]uint8{got.R, got.G, got.B, got.A}, [4]uint8{r.R, r.G, r.B, r.A}, [4]uint8{l.R, l.G, l.B, l.A}
			for i := 0; i < 4; i++ {
				v_AssertAt(g[i] == h[i] || g[i] == w[i], "a colour keeps the high or the low byte of its components", i)
				v_AssertAt(g[i] == h[i], "a colour keeps the high byte of its components", i)
			}
			opt_same(a, want, but)
			return
		}
	case 3, 4:
		s := []byte{'#'}
		var c color.RGBA
		c.A = 255
		switch arg {
		case 0:
			want.bgColor = a.bgColor
			op = WithBgColorRGBHex("")
			op.apply(a)
			opt_same(a, want, "")
			return
		case 1:
			var d [6]uint8
			for i := 0; i < 6; i++ {
				var ch byte
				ch, d[i] = opt_hex("digit" + v_digits(i))
				s = append(s, ch)
			}
			c.R, c.G, c.B = d[0]*16+d[1], d[2]*16+d[3], d[4]*16+d[5]
		case 2:
			var d [3]uint8
			for i := 0; i < 3; i++ {
				var ch byte
				ch, d[i] = opt_hex("digit" + v_digits(i))
				s = append(s, ch)
			}
			c.R, c.G, c.B = d[0]*17, d[1]*17, d[2]*17
		}
		if kind == 3 {
			op = WithBgColorRGBHex(string(s))
			want.bgColor = c
		} else {
			op = WithFgColorRGBHex(string(s))
			want.qrColor = c
		}
	case 5:
		g := &LinearGradient{Stops: []ColorStop{{T: 0.5}}}
		switch arg {
		case 0:
			g = nil
		case 1:
			g = &LinearGradient{}
		case 2:
			want.qrGradient = g
		}
		op = WithFgGradient(g)
	case 6:
		var l image.Image
		if arg == 1 {
			l = opt_any
			want.logo = l
		}
		op = WithLogoImage(l)
	case 7:
		w := v_Byte("width of a block")
		op = WithQRWidth(w)
		want.qrWidth = int(w)
		op.apply(a)
		opt_same(a, want, "")
		d := int(w)
		if w == 0 {
			d = defaultOutputImageOption().qrBlockWidth()
		}
		v_Assert(a.qrBlockWidth() == d, "the block width that is used is the one given, the default for 0")
		return
	case 8:
		op = WithCircleShape()
		want.shape = IShape(circle{})
	case 9:
		var s IShape
		if arg == 1 {
			s = opt_shape{7}
		}
		op = WithCustomShape(s)
		op.apply(a)
		u := a.getShape()
		if arg == 1 {
			v_Assert(u == s, "the shape that is used is the one given")
		} else {
			v_Assert(u == IShape(rectangle{}), "without a shape modules are squares")
		}
		want.shape = a.shape
		opt_same(a, want, "")
		return
	case 10:
		if arg > 1 {
			v_Assert(v_Panics(func() { WithBuiltinImageEncoder(formatTyp(arg)).apply(a) }), "an unknown format panics")
			return
		}
		op = WithBuiltinImageEncoder(formatTyp(arg))
		want.imageEncoder = ImageEncoder(jpegEncoder{})
		if arg == 1 {
			want.imageEncoder = ImageEncoder(pngEncoder{})
		}
	case 11:
		var e ImageEncoder
		if arg == 1 {
			e = opt_encoder{99}
			want.imageEncoder = e
		}
		op = WithCustomImageEncoder(e)
	case 12:
		var w []int
		for i := 0; i < arg; i++ {
			w = append(w, v_Int("border width"+v_digits(i), -100000, 100000))
		}
		op = WithBorderWidth(w...)
		switch {
		case arg == 0:
			want.borderWidths = defaultOutputImageOption().borderWidths
		case arg == 1:
			want.borderWidths = [4]int{w[0], w[0], w[0], w[0]}
		case arg <= 3:
			want.borderWidths = [4]int{w[0], w[1], w[0], w[1]}
		default:
			want.borderWidths = [4]int{w[0], w[1], w[2], w[3]}
		}
	case 13:
		var l image.Image
		if arg == 1 {
			l = opt_any
		}
		want.halftoneImg = l
		op = WithHalftoneImage(l)
	case 14:
		k := v_Int("multiplier", -100000, 100000)
		op = WithLogoSizeMultiplier(k)
		want.logoSizeMultiplier = k
	case 15:
		op = WithLogoSafeZone()
		want.logoSafeZone = true
	case 16, 17, 18:
		opt_fails, opt_decodes = v_Bool("the file cannot be opened"), v_Bool("the picture can be decoded")
		good := !opt_fails && opt_decodes
		l := image.Image(opt_jpeg)
		switch kind {
		case 16:
			op = WithLogoImageFileJPEG("picture")
		case 17:
			op = WithLogoImageFilePNG("picture")
			l = opt_png
		case 18:
			op = WithHalftone("picture")
			good, l = opt_decodes, opt_any
		}
		op.apply(a)
		if good {
			if kind == 18 {
				want.halftoneImg = l
			} else {
				want.logo = l
			}
		}
		opt_same(a, want, "")
		v_Assert(len(opt_opened) == 1 && opt_opened[0] == "picture", "the named file is read")
		return
	}
	op.apply(a)
	opt_same(a, want, "")
}

type opt_shape struct{ n int }

func (opt_shape) Draw(c *DrawContext)       {}
func (opt_shape) DrawFinder(c *DrawContext) {}

type opt_closer struct{}

func (opt_closer) Write(b []byte) (int, error) { return len(b), nil }
func (opt_closer) Close() error                { return nil }

// options are applied in the order given, each once, to the defaults
func thm_C26_order() {
	x, y := v_Int("x", -9999, 9999), v_Int("y", -9999, 9999)
	c := std_rgba("c")
	w := NewWithWriter(opt_closer{}, WithLogoSizeMultiplier(x), WithFgColor(c), WithBorderWidth(y), WithLogoSizeMultiplier(y), WithBorderWidth(x, y))
	d := defaultOutputImageOption()
	v_Assert(w.option != nil, "the writer has settings")
	want := *d
	want.logoSizeMultiplier = y
	want.qrColor = c
	want.borderWidths = [4]int{x, y, x, y}
	opt_same(w.option, &want, "")
	v_Assert(d.bgColor == color.RGBA{255, 255, 255, 255} && d.qrColor == color.RGBA{0, 0, 0, 255} && !d.bgTransparent, "the default is black on white")
	v_Assert(d.qrBlockWidth() == 20 && d.borderWidths == [4]int{40, 40, 40, 40}, "the default block width is 20, the default border 40")
	v_Assert(d.logo == nil && d.halftoneImg == nil && d.qrGradient == nil && !d.logoSafeZone && d.logoSizeMultiplier == 5, "the default has no picture")
	v_Assert(d.imageEncoder == ImageEncoder(jpegEncoder{}) && d.getShape() == IShape(rectangle{}), "the default is JPEG with squares")
	v_Assert(v_Panics(func() { NewWithWriter(nil) }), "a writer without a target is refused")
	// each option sees the settings the ones before it left
	var seen []int
	var os []ImageOption
	for i := 0; i < 4; i++ {
		i := i
		os = append(os, newFuncOption(func(o *outputImageOptions) { seen = append(seen, i) }))
	}
	NewWithWriter(opt_closer{}, os...)
	v_Assert(len(seen) == 4 && seen[0] == 0 && seen[1] == 1 && seen[2] == 2 && seen[3] == 3, "the options are applied once each, in the order given")
}
