package imgkit

import (
	"image"
	"image/color"

	"golang.org/x/image/draw"
)

// C24: pictures of any origin whose pixels are colours of any model. The luminance of a
// colour enters by contract of color.GrayModel: some number per colour.

type kit_color struct{ at int }

func (c kit_color) RGBA() (r, g, b, a uint32) {
	v_Assert(false, "colours are converted by the standard grey model")
	return 0, 0, 0, 0
}

func spec_lum(at int) uint8 { return v_Byte("lum" + v_digits(at)) }

// Contract of color.GrayModel.Convert.
func sum_grayModel(c color.Color) color.Color {
	switch q := c.(type) {
	case color.Gray:
		return q
	case kit_color:
		return color.Gray{Y: spec_lum(q.at)}
	case color.Gray16:
		return color.Gray{Y: uint8(q.Y >> 8)} // color.White and color.Black
	}
	v_Assert(false, "colours are converted by the standard grey model")
	return color.Gray{}
}

type kit_img struct {
	r    image.Rectangle
	w    int
	gray bool // the picture is grey already
}

func (kit_img) ColorModel() color.Model   { return color.RGBAModel }
func (i kit_img) Bounds() image.Rectangle { return i.r }
func (i kit_img) At(x, y int) color.Color {
	p, q := x-i.r.Min.X, y-i.r.Min.Y
	ok := p >= 0 && p < i.w && q >= 0 && y < i.r.Max.Y
	v_Assert(ok, "the picture is read within its bounds")
	if !ok {
		return kit_color{-1}
	}
	if i.gray {
		return color.Gray{Y: spec_lum(q*1000 + p)}
	}
	return kit_color{q*1000 + p}
}

func kit_make(w, h, gray int) kit_img {
	ox, oy := v_Int("ox", -100000, 100000), v_Int("oy", -100000, 100000)
	return kit_img{image.Rectangle{Min: image.Point{X: ox, Y: oy}, Max: image.Point{X: ox + w, Y: oy + h}}, w, gray == 1}
}

func thm_C24_gray(w, h, gray int) {
	src := kit_make(w, h, gray)
	g := Gray(src)
	v_Assert(g.Rect == src.r, "the grey picture has the bounds of the picture")
	for y := 0; y < h; y++ {
		for x := 0; x < w; x++ {
			v_AssertAt(g.GrayAt(src.r.Min.X+x, src.r.Min.Y+y).Y == spec_lum(y*1000+x), "a pixel is its own luminance", y*w+x)
		}
	}
}

func thm_C24_binary(w, h, gray int) {
	src := kit_make(w, h, gray)
	t := v_Byte("threshold")
	b := Binaryzation(src, t)
	v_Assert(b.Bounds() == src.r, "the binary picture has the bounds of the picture")
	for y := 0; y < h; y++ {
		for x := 0; x < w; x++ {
			c, ok := sum_grayModel(b.At(src.r.Min.X+x, src.r.Min.Y+y)).(color.Gray)
			v_AssertAt(ok && (c.Y == 0 || c.Y == 255), "a pixel is black or white", y*w+x)
			v_AssertAt((c.Y == 255) == (spec_lum(y*1000+x) > t), "a pixel is white exactly if its luminance exceeds the threshold", y*w+x)
		}
	}
}

type kit_scaler struct{}

var (
	kit_scaled int
	kit_dst    draw.Image
	kit_src    image.Image
	kit_rect   image.Rectangle
)

func (kit_scaler) Scale(dst draw.Image, dr image.Rectangle, src image.Image, sr image.Rectangle, op draw.Op, opts *draw.Options) {
	kit_scaled++
	kit_dst = dst
	v_Assert(src == kit_src && sr == src.Bounds(), "the whole picture is scaled")
	v_Assert(dr == kit_rect && dst.Bounds() == kit_rect, "the picture is scaled to the rectangle")
}

func thm_C24_scale(w, h, gray int) {
	src := kit_make(3, 5, gray)
	kit_src = src
	ox, oy := v_Int("dx", -100000, 100000), v_Int("dy", -100000, 100000)
	kit_rect = image.Rectangle{Min: image.Point{X: ox, Y: oy}, Max: image.Point{X: ox + w, Y: oy + h}}
	r := Scale(src, kit_rect, kit_scaler{})
	v_Assert(kit_scaled == 1, "the picture is scaled once")
	v_Assert(r.Bounds() == kit_rect, "the scaled picture has the given rectangle")
	v_Assert(kit_scaled == 1 && r == image.Image(kit_dst), "the scaled picture is returned")
}
