package standard

import (
	"bytes"
	"errors"
	"fmt"
	"image"
	"image/color"
	"io"
	"math/rand"
	"os"
	"path/filepath"
	"strings"

	"github.com/yeqown/go-qrcode/v2"
)

var wProps = map[string]wProp{
	"C21": {gen: genPic, run: runC21},
	"C22": {gen: genLogo, run: runC22},
	"C23": {gen: genPic, run: runC23},
	"C24": {gen: genPic, run: runHalftone},
	"C26": {gen: genOpts, run: runC26},
}

type wEnc struct {
	img image.Image
	to  io.Writer
	err error
	n   int
}

func (e *wEnc) Encode(w io.Writer, img image.Image) error {
	e.img, e.to = img, w
	e.n++
	return e.err
}

type wTarget struct {
	bytes.Buffer
	closed int
	err    error
}

func (t *wTarget) Close() error { t.closed++; return t.err }

func genPic(rng *rand.Rand, i int) wIn {
	n := []int{wVersion(rng, i%40*7), 1 + rng.Intn(9), rng.Intn(9), rng.Intn(9), rng.Intn(9), rng.Intn(9), rng.Intn(8)}
	if i%4 != 0 {
		n[0] = 1 + rng.Intn(4)
	}
	if i%7 == 0 {
		n[1] = 10 + rng.Intn(12)
	}
	for k := 0; k < 6; k++ {
		n = append(n, rng.Intn(256))
	}
	if i%3 == 1 {
		n[1] = []int{i/3 + 1, 255, 1 + rng.Intn(255)}[rng.Intn(3)]
		if n[1] > 255 {
			n[1] = 254
		}
		return wIn{Kind: "numbers", Text: wText(rng), N: n}
	}
	return wIn{Kind: "picture", Text: wText(rng), N: n, Seed: rng.Int63()}
}

func wDark(m qrcode.Matrix) ([][]bool, [][]bool) { // by x, y: dark, finder
	n := m.Width()
	d, f := make([][]bool, n), make([][]bool, n)
	for i := range d {
		d[i], f[i] = make([]bool, n), make([]bool, n)
	}
	m.Iterate(qrcode.IterDirection_ROW, func(x, y int, v qrcode.QRValue) {
		d[x][y], f[x][y] = v.IsSet(), v.Type() == qrcode.QRType_FINDER
	})
	return d, f
}

func wEq(c color.Color, want color.RGBA) bool {
	r, g, b, a := c.RGBA()
	p, q, s, t := want.RGBA()
	return r == p && g == q && b == s && a == t
}

func wColors(in wIn) (color.RGBA, color.RGBA) {
	v := in.N
	return color.RGBA{uint8(v[7]), uint8(v[8]), uint8(v[9]), 255}, color.RGBA{uint8(v[10]), uint8(v[11]), uint8(v[12]), 255}
}

func runC21(in wIn) string {
	v := in.N
	_, m := wSymbol(in.Text, v[0])
	n := m.Width()
	d, _ := wDark(m)
	b, top, right, bottom, left := v[1], v[2], v[3], v[4], v[5]
	bg, fg := wColors(in)
	e := &wEnc{}
	t := &wTarget{}
	os := []ImageOption{WithQRWidth(uint8(b)), WithBorderWidth(top, right, bottom, left), WithBgColor(bg), WithFgColor(fg), WithCustomImageEncoder(e)}
	transparent, circle := v[6]&1 != 0, v[6]&6 == 6
	if transparent {
		os = append(os, WithBgTransparent())
	}
	if circle {
		os = append(os, WithCircleShape())
	}
	w := NewWithWriter(t, os...)
	if in.Kind == "numbers" {
		a := w.Attribute(n)
		if a.W != n*b+left+right || a.H != n*b+top+bottom || a.BlockWidth != b || a.Borders != [4]int{top, right, bottom, left} {
			return fmt.Sprintf("Attribute reports %v", *a)
		}
		return ""
	}
	if err := w.Write(m); err != nil {
		return "Write: " + err.Error()
	}
	if e.n != 1 || e.to != io.Writer(t) {
		return "the encoder is not used once, for the target"
	}
	W, H := n*b+left+right, n*b+top+bottom
	if r := e.img.Bounds(); r.Dx() != W || r.Dy() != H {
		return fmt.Sprintf("the picture measures %dx%d, not %dx%d", r.Dx(), r.Dy(), W, H)
	}
	a := w.Attribute(n)
	if a.W != W || a.H != H || a.BlockWidth != b || a.Borders != [4]int{top, right, bottom, left} {
		return fmt.Sprintf("Attribute reports %v", *a)
	}
	light := bg
	for y := 0; y < H; y++ {
		for x := 0; x < W; x++ {
			c := e.img.At(x, y)
			px, py := (x-left)/b, (y-top)/b
			in := x >= left && y >= top && px < n && py < n
			dark := in && d[px][py]
			if circle && in {
				// inside or outside for sure
				qx, qy := float64((x-left)%b)+0.5-float64(b)/2, float64((y-top)%b)+0.5-float64(b)/2
				r := float64(b/2) - 1.2
				if dark && (b < 5 || qx*qx+qy*qy > r*r) {
					continue
				}
			}
			if dark && !wEq(c, fg) {
				return fmt.Sprintf("pixel %d,%d of a dark module is %v", x, y, c)
			}
			if !dark && transparent {
				if _, _, _, al := c.RGBA(); al != 0 {
					return fmt.Sprintf("pixel %d,%d of the background is not transparent: %v", x, y, c)
				}
			} else if !dark && !wEq(c, light) {
				return fmt.Sprintf("pixel %d,%d of the background is %v", x, y, c)
			}
		}
	}
	e.err = errors.New("encoder")
	if err := w.Write(m); err == nil {
		return "an error of the encoder is lost"
	}
	t.err = errors.New("close")
	if w.Close() != t.err || t.closed != 1 {
		return "the target is not closed once, or its error is lost"
	}
	// any file
	dir, err := osMkdirTemp()
	if err != nil {
		return ""
	}
	defer osRemove(dir)
	if _, err := New(filepath.Join(dir, "missing", "a.jpeg")); err == nil {
		return "a file that cannot be created is not reported"
	}
	if in.Seed%8 == 0 {
		name := filepath.Join(dir, "a.jpeg")
		osWrite(name, bytes.Repeat([]byte("stale"), 400000))
		fw, err := New(name, WithQRWidth(2))
		if err != nil {
			return "New: " + err.Error()
		}
		if err := fw.Write(m); err != nil {
			return "Write: " + err.Error()
		}
		if err := fw.Close(); err != nil {
			return "Close: " + err.Error()
		}
		if err := fw.Close(); err != nil {
			return "closing twice: " + err.Error()
		}
		buf := &wTarget{}
		if err := NewWithWriter(buf, WithQRWidth(2)).Write(m); err != nil {
			return "Write: " + err.Error()
		}
		if !bytes.Equal(osRead(name), buf.Bytes()) {
			return "the file does not hold the picture"
		}
	}
	return ""
}

func osMkdirTemp() (string, error)  { return os.MkdirTemp("", "verif-standard") }
func osRemove(d string)             { os.RemoveAll(d) }
func osWrite(name string, b []byte) { os.WriteFile(name, b, 0644) }
func osRead(name string) (b []byte) { b, _ = os.ReadFile(name); return }

// a shape that records what it is asked to draw
type wShape struct {
	b, left, top int
	at           map[[2]int]int
	nb           map[[2]int]uint16
	finder       map[[2]int]bool
	bad          string
}

func (s *wShape) Draw(c *DrawContext)       { s.draw(c, false) }
func (s *wShape) DrawFinder(c *DrawContext) { s.draw(c, true) }
func (s *wShape) draw(c *DrawContext, f bool) {
	x, y := c.UpperLeft()
	w, h := c.Edge()
	if w != s.b || h != s.b {
		s.bad = fmt.Sprintf("a module of %dx%d pixels", w, h)
	}
	k := [2]int{(int(x) - s.left) / s.b, (int(y) - s.top) / s.b}
	if float64(k[0]*s.b+s.left) != x || float64(k[1]*s.b+s.top) != y {
		s.bad = fmt.Sprintf("a module at %v,%v", x, y)
	}
	s.at[k]++
	s.nb[k] = c.Neighbours()
	s.finder[k] = f
}

func wRecorder(b, left, top int) *wShape {
	return &wShape{b, left, top, map[[2]int]int{}, map[[2]int]uint16{}, map[[2]int]bool{}, ""}
}

func wMask(d [][]bool, x, y int) uint16 {
	bits := [9]uint16{NTopLeft, NTop, NTopRight, NLeft, NSelf, NRight, NBotLeft, NBot, NBotRight}
	r := uint16(0)
	for i := 0; i < 9; i++ {
		p, q := x+i%3-1, y+i/3-1
		if p >= 0 && q >= 0 && p < len(d) && q < len(d) && d[p][q] {
			r |= bits[i]
		}
	}
	return r
}

func runC23(in wIn) string {
	v := in.N
	if in.Kind == "numbers" {
		return ""
	}
	_, m := wSymbol(in.Text, v[0])
	n := m.Width()
	d, f := wDark(m)
	s := wRecorder(v[1], v[5], v[2])
	w := NewWithWriter(&wTarget{}, WithQRWidth(uint8(v[1])), WithBorderWidth(v[2], v[3], v[4], v[5]), WithCustomShape(s), WithCustomImageEncoder(&wEnc{}))
	if err := w.Write(m); err != nil {
		return "Write: " + err.Error()
	}
	if s.bad != "" {
		return s.bad
	}
	for x := 0; x < n; x++ {
		for y := 0; y < n; y++ {
			k := [2]int{x, y}
			if s.at[k] != 1 || s.finder[k] != f[x][y] {
				return fmt.Sprintf("module %d,%d is drawn %d times, as finder: %v", x, y, s.at[k], s.finder[k])
			}
			if s.nb[k] != wMask(d, x, y) {
				return fmt.Sprintf("module %d,%d has the neighbours %09b, not %09b", x, y, s.nb[k], wMask(d, x, y))
			}
		}
	}
	return ""
}

func genLogo(rng *rand.Rand, i int) wIn {
	v := 1 + rng.Intn(5)
	if i%9 == 8 {
		v = 6 + rng.Intn(14)
	}
	n := []int{v, 1 + rng.Intn(9), rng.Intn(9), rng.Intn(9), rng.Intn(9), rng.Intn(9), 1 + rng.Intn(5)}
	W, H := (17+4*v)*n[1]+n[3]+n[5], (17+4*v)*n[1]+n[2]+n[4]
	lw, lh := W/n[6], H/n[6]
	switch rng.Intn(4) {
	case 0:
		lw, lh = 1+rng.Intn(lw+2), 1+rng.Intn(lh+2)
	case 1:
		lw, lh = lw+rng.Intn(3)-1, 1+rng.Intn(lh+2)
	case 2:
		lw, lh = 1+rng.Intn(lw+2), lh+rng.Intn(3)-1
	case 3:
		lw, lh = 1+rng.Intn(lw+2), 1+rng.Intn(6)
	}
	if lw < 1 {
		lw = 1
	}
	if lh < 1 {
		lh = 1
	}
	n = append(n, lw, lh, rng.Intn(21)-10, rng.Intn(21)-10, rng.Intn(4))
	return wIn{Kind: "logo", Text: wText(rng), N: n}
}

func runC22(in wIn) string {
	v := in.N
	_, m := wSymbol(in.Text, v[0])
	n := m.Width()
	d, _ := wDark(m)
	b, top, right, bottom, left, k := v[1], v[2], v[3], v[4], v[5], v[6]
	lw, lh := v[7], v[8]
	logo := image.NewRGBA(image.Rect(v[9], v[10], v[9]+lw, v[10]+lh))
	red := color.RGBA{255, 0, 0, 255}
	for x := v[9]; x < v[9]+lw; x++ {
		for y := v[10]; y < v[10]+lh; y++ {
			logo.SetRGBA(x, y, red)
		}
	}
	W, H := n*b+left+right, n*b+top+bottom
	fits := W >= k*lw && H >= k*lh
	zone := v[11] != 0
	s := wRecorder(b, left, top)
	e := &wEnc{}
	os := []ImageOption{WithQRWidth(uint8(b)), WithBorderWidth(top, right, bottom, left), WithLogoImage(logo), WithLogoSizeMultiplier(k), WithCustomImageEncoder(e)}
	if zone {
		os = append(os, WithLogoSafeZone())
	}
	if v[11]&1 != 0 {
		os = append(os, WithCustomShape(s))
	}
	if err := NewWithWriter(&wTarget{}, os...).Write(m); err != nil {
		return "Write: " + err.Error()
	}
	lx, ly := (W-lw)/2, (H-lh)/2
	over := func(x, y int) bool {
		return x*b+left < lx+lw && x*b+left+b > lx && y*b+top < ly+lh && y*b+top+b > ly
	}
	dd := make([][]bool, n)
	for x := range dd {
		dd[x] = make([]bool, n)
		for y := range dd[x] {
			dd[x][y] = d[x][y] && !(zone && fits && over(x, y))
		}
	}
	if v[11]&1 != 0 {
		if s.bad != "" {
			return s.bad
		}
		for x := 0; x < n; x++ {
			for y := 0; y < n; y++ {
				q := [2]int{x, y}
				want := 1
				if d[x][y] && !dd[x][y] {
					want = 0
				}
				if s.at[q] != want {
					return fmt.Sprintf("module %d,%d is drawn %d times, not %d", x, y, s.at[q], want)
				}
				if want == 1 && s.nb[q] != wMask(dd, x, y) {
					return fmt.Sprintf("module %d,%d has the neighbours %09b, not %09b", x, y, s.nb[q], wMask(dd, x, y))
				}
			}
		}
		return ""
	}
	for y := 0; y < H; y++ {
		for x := 0; x < W; x++ {
			c := e.img.At(x, y)
			want := color.RGBA{255, 255, 255, 255}
			px, py := (x-left)/b, (y-top)/b
			if x >= left && y >= top && px < n && py < n && dd[px][py] {
				want = color.RGBA{0, 0, 0, 255}
			}
			if fits && x >= lx && x < lx+lw && y >= ly && y < ly+lh {
				want = red
			}
			if !wEq(c, want) {
				return fmt.Sprintf("pixel %d,%d is %v, not %v (logo fits: %v)", x, y, c, want, fits)
			}
		}
	}
	return ""
}

// every pixel of the halftone picture is sampled where it lies
func runHalftone(in wIn) string {
	v := in.N
	if in.Kind == "numbers" {
		return ""
	}
	_, m := wSymbol(in.Text, v[0]%6+1)
	n := m.Width()
	// left half black, right half white, shifted origin
	src := image.NewGray(image.Rect(v[2]-4, v[3]-4, v[2]-4+60, v[3]-4+60))
	for x := src.Rect.Min.X; x < src.Rect.Max.X; x++ {
		for y := src.Rect.Min.Y; y < src.Rect.Max.Y; y++ {
			if x-src.Rect.Min.X >= 30 {
				src.SetGray(x, y, color.Gray{255})
			}
		}
	}
	b := 3 * (1 + v[1]%4)
	e := &wEnc{}
	if err := NewWithWriter(&wTarget{}, WithQRWidth(uint8(b)), WithBorderWidth(v[2], v[3], v[4], v[5]), WithHalftoneImage(src), WithCustomImageEncoder(e)).Write(m); err != nil {
		return "Write: " + err.Error()
	}
	what := ""
	m.Iterate(qrcode.IterDirection_ROW, func(x, y int, q qrcode.QRValue) {
		if q.Type() != qrcode.QRType_DATA || what != "" {
			return
		}
		for i := 0; i < 3; i++ {
			for j := 0; j < 3; j++ {
				want := color.RGBA{0, 0, 0, 255}
				fx := float64(3*x+i) / float64(3*n)
				if i == 1 && j == 1 {
					if !q.IsSet() {
						want = color.RGBA{255, 255, 255, 255}
					}
				} else if fx > 0.55 {
					want = color.RGBA{255, 255, 255, 255}
				} else if fx > 0.45 {
					continue
				}
				c := e.img.At(v[5]+x*b+i*b/3+b/6, v[2]+y*b+j*b/3+b/6)
				if !wEq(c, want) {
					what = fmt.Sprintf("part %d,%d of module %d,%d is %v, not %v", i, j, x, y, c, want)
				}
			}
		}
	})
	return what
}

func genOpts(rng *rand.Rand, i int) wIn {
	n := []int{}
	for k := 1 + rng.Intn(5); k > 0; k-- {
		n = append(n, rng.Intn(14), rng.Intn(256), rng.Intn(256), rng.Intn(256), rng.Intn(256), rng.Intn(6))
	}
	if i < 14*12 {
		n = []int{i % 14, rng.Intn(256), rng.Intn(256), rng.Intn(256), rng.Intn(256), i / 14 % 6}
	}
	return wIn{Kind: "options", Text: wText(rng), N: n}
}

type wNumShape struct{ n int }

func (wNumShape) Draw(c *DrawContext)       {}
func (wNumShape) DrawFinder(c *DrawContext) {}

// every option against a model of the settings
func runC26(in wIn) string {
	_, m := wSymbol(in.Text, 1)
	n := m.Width()
	bg, fg := color.RGBA{255, 255, 255, 255}, color.RGBA{0, 0, 0, 255}
	b := 20
	borders := [4]int{40, 40, 40, 40}
	transparent, blank := false, false
	enc := "jpeg"
	var logo *image.RGBA
	factor := 5
	var opts []ImageOption
	e := &wEnc{}
	hex := func(c ...int) string {
		s := "#"
		for k, x := range c {
			f := "%02x"
			if k%2 == 1 {
				f = "%02X"
			}
			s += fmt.Sprintf(f, x)
		}
		return s
	}
	for i := 0; i+5 < len(in.N); i += 6 {
		v := in.N[i : i+6]
		c := color.RGBA{uint8(v[1]), uint8(v[2]), uint8(v[3]), uint8(255)}
		switch v[0] {
		case 0:
			opts, transparent = append(opts, WithBgTransparent()), true
		case 1:
			if v[5] == 0 {
				opts = append(opts, WithBgColor(nil))
			} else if v[5] == 1 {
				opts, bg = append(opts, WithBgColor(color.NRGBA{c.R, c.G, c.B, 255})), c
			} else {
				opts, bg = append(opts, WithBgColor(c)), c
			}
		case 2:
			if v[5] == 0 {
				opts = append(opts, WithFgColor(nil))
			} else if v[5] == 1 {
				opts, fg = append(opts, WithFgColor(color.Gray{c.R})), color.RGBA{c.R, c.R, c.R, 255}
			} else {
				opts, fg = append(opts, WithFgColor(c)), c
			}
		case 3:
			if v[5] == 0 {
				opts = append(opts, WithBgColorRGBHex(""))
			} else if v[5] < 3 {
				opts, bg = append(opts, WithBgColorRGBHex(fmt.Sprintf("#%x%x%x", v[1]%16, v[2]%16, v[3]%16))), color.RGBA{uint8(v[1] % 16 * 17), uint8(v[2] % 16 * 17), uint8(v[3] % 16 * 17), 255}
			} else {
				opts, bg = append(opts, WithBgColorRGBHex(hex(v[1], v[2], v[3]))), c
			}
		case 4:
			if v[5] < 3 {
				opts, fg = append(opts, WithFgColorRGBHex(strings.ToUpper(fmt.Sprintf("#%x%x%x", v[1]%16, v[2]%16, v[3]%16)))), color.RGBA{uint8(v[1] % 16 * 17), uint8(v[2] % 16 * 17), uint8(v[3] % 16 * 17), 255}
			} else {
				opts, fg = append(opts, WithFgColorRGBHex(hex(v[1], v[2], v[3]))), c
			}
		case 5:
			w := v[1] % 24
			if v[5] == 5 {
				w = 255
			}
			opts, b = append(opts, WithQRWidth(uint8(w))), w
			if w == 0 {
				b = 20
			}
		case 6:
			w := []int{v[1], v[2], v[3], v[4], v[1] / 2}[:v[5]]
			opts = append(opts, WithBorderWidth(w...))
			switch v[5] {
			case 0:
				borders = [4]int{40, 40, 40, 40}
			case 1:
				borders = [4]int{w[0], w[0], w[0], w[0]}
			case 2, 3:
				borders = [4]int{w[0], w[1], w[0], w[1]}
			default:
				borders = [4]int{w[0], w[1], w[2], w[3]}
			}
		case 7:
			opts = append(opts, WithFgGradient(nil), WithFgGradient(&LinearGradient{}))
		case 8:
			if v[5] == 0 {
				opts = append(opts, WithLogoImage(nil))
			} else {
				logo = image.NewRGBA(image.Rect(0, 0, 3+v[5], 2))
				for k := range logo.Pix {
					logo.Pix[k] = 255
				}
				for k := 0; k < len(logo.Pix); k += 4 {
					logo.Pix[k], logo.Pix[k+1], logo.Pix[k+2] = uint8(v[1]), uint8(v[2]), uint8(v[3])
				}
				opts = append(opts, WithLogoImage(logo))
			}
		case 9:
			if v[5] == 0 {
				opts, blank = append(opts, WithCustomShape(nil)), false
			} else if v[5] == 1 {
				opts, blank = append(opts, WithCustomShape(wNumShape{v[1]})), true
			}
		case 10:
			if v[5] < 3 {
				opts, enc = append(opts, WithBuiltinImageEncoder(PNG_FORMAT)), "png"
			} else {
				opts, enc = append(opts, WithBuiltinImageEncoder(JPEG_FORMAT)), "jpeg"
			}
		case 11:
			if v[5] == 0 {
				opts = append(opts, WithCustomImageEncoder(nil))
			} else {
				opts, enc = append(opts, WithCustomImageEncoder(e)), "custom"
			}
		case 12:
			opts, factor = append(opts, WithLogoSizeMultiplier(1+v[1])), 1+v[1]
		case 13:
			opts = append(opts, WithHalftoneImage(nil))
		}
	}
	t := &wTarget{}
	w := NewWithWriter(t, opts...)
	a := w.Attribute(n)
	if a.BlockWidth != b || a.Borders != borders {
		return fmt.Sprintf("Attribute reports %v, not block width %d, borders %v", *a, b, borders)
	}
	if (n*b+borders[1]+borders[3])*(n*b+borders[0]+borders[2]) > 4000000 {
		return ""
	}
	if err := w.Write(m); err != nil {
		return "Write: " + err.Error()
	}
	got := "custom"
	if s := t.Bytes(); len(s) > 4 {
		got = "jpeg"
		if s[1] == 'P' {
			got = "png"
		}
	}
	if got != enc || (enc == "custom") != (e.n == 1) {
		return "encoded as " + got + ", not " + enc
	}
	// the colours
	opts = append(opts, WithCustomImageEncoder(e))
	if err := NewWithWriter(&wTarget{}, opts...).Write(m); err != nil {
		return "Write: " + err.Error()
	}
	img := e.img
	W, H := img.Bounds().Dx(), img.Bounds().Dy()
	if borders[0] > 0 && borders[3] > 0 {
		_, _, _, al := img.At(0, 0).RGBA()
		if transparent && al != 0 || !transparent && !wEq(img.At(0, 0), bg) {
			return fmt.Sprintf("the background is %v, not %v, transparent %v", img.At(0, 0), bg, transparent)
		}
	}
	if c := img.At(borders[3]+b/2, borders[0]+b/2); !blank && !wEq(c, fg) {
		return fmt.Sprintf("the foreground is %v, not %v", c, fg)
	}
	if logo != nil && W >= factor*logo.Rect.Dx() && H >= factor*logo.Rect.Dy() {
		c := img.At((W-logo.Rect.Dx())/2, (H-logo.Rect.Dy())/2)
		if !wEq(c, logo.RGBAAt(0, 0)) {
			return fmt.Sprintf("the logo is %v, not %v", c, logo.RGBAAt(0, 0))
		}
	}
	return ""
}
