package standard

import (
	"image"
	"image/color"

	"github.com/fogleman/gg"
	"github.com/yeqown/go-qrcode/v2"
)

// C21-C23: what is drawn for an arbitrary matrix. The drawing context of gg enters by
// contract (a new context of the given size, filled rectangles, images), the shape is
// one that records what it is asked to draw.

type std_event struct {
	finder bool
	dx, dy float64
	w, h   int
	c      color.RGBA
	isRGBA bool
	nb     uint16
}

type std_rect struct{ x, y, w, h float64 }

var (
	std_w, std_h  []int // contexts made
	std_ev        []std_event
	std_at        [][]int // number of times a module was drawn
	std_evAt      [][]std_event
	std_n         int
	std_xs        []float64
	std_ys        []float64
	std_stray     int
	std_path      []std_rect
	std_pathOther bool
	std_color     color.Color
	std_circles   []std_circle
	std_shapes    bool
	std_fills     int
	std_bg        std_rect
	std_bgColor   color.Color
	std_logo      []image.Image
	std_logoX     []int
	std_logoY     []int
	std_drawn     bool // some module was drawn
	std_late      bool
	std_result    = image.NewGray(image.Rect(0, 0, 1, 1))
)

func sum_NewContext(w, h int) *gg.Context {
	std_w, std_h = append(std_w, w), append(std_h, h)
	return new(gg.Context)
}
func sum_SetColor(c *gg.Context, col color.Color) { std_color = col }
func sum_DrawRectangle(c *gg.Context, x, y, w, h float64) {
	std_path = append(std_path, std_rect{x, y, w, h})
}
func sum_DrawCircle(c *gg.Context, x, y, r float64) {
	std_pathOther = true
	std_circles = append(std_circles, std_circle{x, y, r})
}
func sum_Fill(c *gg.Context) {
	if std_shapes {
		shp_fill(std_color)
	}
	if len(std_path) == 1 && !std_pathOther {
		std_bg, std_bgColor = std_path[0], std_color
	}
	if std_drawn {
		std_late = true
	}
	std_fills++
	std_path, std_pathOther, std_circles = nil, false, nil
}
func sum_Image(c *gg.Context) image.Image { return std_result }

// the origin of the coordinates of img comes to (x, y)
func sum_DrawImage(c *gg.Context, img image.Image, x, y int) {
	m := img.Bounds().Min
	std_logo, std_logoX, std_logoY = append(std_logo, img), append(std_logoX, x+m.X), append(std_logoY, y+m.Y)
}

type std_shape struct{}

func (std_shape) Draw(c *DrawContext)       { std_draw(c, false) }
func (std_shape) DrawFinder(c *DrawContext) { std_draw(c, true) }

func std_draw(c *DrawContext, finder bool) {
	dx, dy := c.UpperLeft()
	w, h := c.Edge()
	rgba, ok := c.Color().(color.RGBA)
	x, y := v_Find(dx, std_xs), v_Find(dy, std_ys)
	if std_args == [7]int{} {
		std_drawn = true
	}
	v_Assert(x >= 0 && y >= 0, "a module is drawn on its own block")
	if x < 0 || y < 0 {
		return
	}
	std_at[y][x]++
	std_evAt[y][x] = std_event{finder, dx, dy, w, h, rgba, ok, c.Neighbours()}
	// what is set for each module may be gone after it was drawn
	c.x, c.y, c.color, c.neighbours = 0, 0, color.Black, 0
}

func std_setup(n, b, left, top int) {
	std_n = n
	for i := 0; i < n; i++ {
		std_xs = append(std_xs, float64(i*b+left))
		std_ys = append(std_ys, float64(i*b+top))
		std_at = append(std_at, make([]int, n))
		std_evAt = append(std_evAt, make([]std_event, n))
	}
}

func std_rgba(name string) color.RGBA {
	return color.RGBA{R: v_Byte(name + ".R"), G: v_Byte(name + ".G"), B: v_Byte(name + ".B"), A: v_Byte(name + ".A")}
}

// spec_neighbours: a bit for each of the nine positions that lie inside and are dark
func spec_neighbours(c [][]bool, x, y int) uint16 {
	r := uint16(0)
	bits := [9]uint16{NTopLeft, NTop, NTopRight, NLeft, NSelf, NRight, NBotLeft, NBot, NBotRight}
	for i := 0; i < 9; i++ {
		p, q := x+i%3-1, y+i/3-1
		if p >= 0 && q >= 0 && p < len(c) && q < len(c) && c[p][q] {
			r |= bits[i]
		}
	}
	return r
}

var std_dark [][]bool // the modules that count as dark

// Contract of getNeighbours: some 9-bit number for the module, for a bitmap that shows
// the right modules around it (thm_C23 proves which number).
func sum_neighbours(mtx [][]bool, x, y int) uint16 {
	n := len(std_dark)
	ok := len(mtx) == n && x >= 0 && y >= 0 && x < n && y < n
	v_Assert(ok, "the bitmap has the size of the symbol")
	if !ok {
		return 0
	}
	for q := y - 1; q <= y+1; q++ {
		for p := x - 1; p <= x+1; p++ {
			if p >= 0 && q >= 0 && p < n && q < n {
				v_AssertAt(len(mtx[q]) == n && mtx[q][p] == std_dark[p][q], "the bitmap shows the modules that count as dark", q*n+p)
			}
		}
	}
	return spec_mask(x, y)
}

func spec_mask(x, y int) uint16 {
	s := v_digits(y*1000 + x)
	return uint16(v_Byte("nb"+s)) | uint16(v_Byte("nbs"+s)&1)<<8
}

// every bitmap, every module of 12 rows
func thm_C23(n, part int) {
	d := make([][]bool, n) // d[y][x]
	c := make([][]bool, n) // c[x][y]
	for i := range d {
		d[i], c[i] = make([]bool, n), make([]bool, n)
	}
	for y := range d {
		for x := range d {
			if y >= 12*part-2 && y < 12*part+14 {
				d[y][x] = v_Bool("d" + v_digits(y*1000+x))
			} else {
				d[y][x] = (x+y+part)%3 == 0
			}
			c[x][y] = d[y][x]
		}
	}
	for y := 12 * part; y < 12*part+12 && y < n; y++ {
		for x := 0; x < n; x++ {
			v_AssertAt(getNeighbours(d, x, y) == spec_neighbours(c, x, y), "the neighbour mask is the true neighbourhood", y*n+x)
		}
	}
}

// every matrix, block width, border and pair of colours
// (transparent: 0 no, 1 yes, 2 yes with a black background, see DESIGN.md)
func thm_C21(n, transparent int) {
	m, c, v := qrcode.V_MatrixV("c", n)
	o := defaultOutputImageOption()
	b := v_Int("block", 1, 255)
	top, right, bottom, left := v_Int("top", 0, 5000), v_Int("right", 0, 5000), v_Int("bottom", 0, 5000), v_Int("left", 0, 5000)
	o.qrWidth = b
	o.borderWidths = [4]int{top, right, bottom, left}
	o.bgColor, o.qrColor = std_rgba("bg"), std_rgba("fg")
	o.bgTransparent = transparent != 0
	if transparent == 2 {
		o.bgColor = color.RGBA{}
	}
	o.shape = std_shape{}
	bg, fg := o.bgColor, o.qrColor
	light := bg
	if o.bgTransparent {
		light = color.RGBA{}
	}
	std_setup(n, b, left, top)
	std_dark = c
	a := Writer{option: o}.Attribute(n)
	img := draw(m, o)
	v_Assert(len(std_w) == 1 && std_w[0] == n*b+left+right && std_h[0] == n*b+top+bottom, "the picture measures n*blockWidth plus the borders")
	v_Assert(a.W == std_w[0] && a.H == std_h[0] && a.BlockWidth == b && a.Borders == [4]int{top, right, bottom, left}, "Attribute reports the same numbers")
	v_Assert(img == image.Image(std_result), "the picture of the context is returned")
	v_Assert(std_fills == 1 && !std_late && std_bg == std_rect{0, 0, float64(std_w[0]), float64(std_h[0])}, "the background fills the picture before anything is drawn")
	r, isRGBA := std_bgColor.(color.RGBA)
	if o.bgTransparent {
		v_Assert(isRGBA && r.A == 0, "the border keeps the background")
	} else {
		v_Assert(isRGBA && r == bg, "the border keeps the background")
	}
	v_Assert(len(std_logo) == 0, "nothing else is drawn")
	for y := 0; y < n; y++ {
		for x := 0; x < n; x++ {
			at := y*n + x
			v_AssertAt(std_at[y][x] == 1, "every module is drawn once", at)
			e := std_evAt[y][x]
			v_AssertAt(e.w == b && e.h == b, "a module fills its block", at)
			want := light
			if c[x][y] {
				want = fg
			}
			v_AssertAt(e.isRGBA && e.c == want, "a dark module has the foreground colour, a light one the background colour", at)
			v_AssertAt(e.finder == (v[x][y].Type() == qrcode.QRType_FINDER), "finder patterns are drawn as such", at)
			if v_Proves(e.nb == spec_mask(x, y)) {
				v_AssertAt(true, "the mask of the module is handed to the shape", at)
			} else {
				v_AssertAt(e.nb == spec_neighbours(c, x, y), "the neighbour mask is the true neighbourhood", at)
			}
		}
	}
}

// a picture of any size and origin
type std_img struct{ r image.Rectangle }

func (std_img) ColorModel() color.Model   { return color.GrayModel }
func (i std_img) Bounds() image.Rectangle { return i.r }
func (std_img) At(x, y int) color.Color   { return color.Gray{} }

var std_args [7]int

// Contract of blockOverlapsLogo: some predicate of the module, for the geometry of the
// picture (thm_C22_overlap proves which).
func sum_overlap(x, y, block, left, top, w, h, lw, lh int) bool {
	v_Assert(std_args == [7]int{block, left, top, w, h, lw, lh}, "the safe zone is computed for the geometry of the picture")
	return spec_overlap(x, y)
}

func spec_overlap(x, y int) bool { return v_Bool("overlap" + v_digits(y*1000+x)) }

// which modules overlap the logo
func thm_C22_overlap() {
	x, y := v_Int("x", 0, 176), v_Int("y", 0, 176)
	b, left, top := v_Int("block", 1, 255), v_Int("left", 0, 5000), v_Int("top", 0, 5000)
	w, h := v_Int("w", 1, 60000), v_Int("h", 1, 60000)
	lw, lh := v_Int("logo width", 1, 60000), v_Int("logo height", 1, 60000)
	v_Assume(lw <= w && lh <= h)
	r := blockOverlapsLogo(x, y, b, left, top, w, h, lw, lh)
	// some pixel lies in the block and in the logo
	lx, ly := (w-lw)/2, (h-lh)/2
	bx, by := x*b+left, y*b+top
	px, py := v_Int("px", 0, 120000), v_Int("py", 0, 120000)
	both := px >= bx && px < bx+b && py >= by && py < by+b && px >= lx && px < lx+lw && py >= ly && py < ly+lh
	v_Assert(!both || r, "a block that shares a pixel with the logo overlaps it")
	mx, my := bx, by
	if lx > mx {
		mx = lx
	}
	if ly > my {
		my = ly
	}
	shared := mx < bx+b && mx < lx+lw && my < by+b && my < ly+lh
	v_Assert(!r || shared, "a block that overlaps the logo shares a pixel with it")
}

// a logo of any size, with any size factor, block width and border
// (zone: 0 no safe zone, 1 safe zone and the logo fits, 2 safe zone and it does not)
func thm_C22(n, zone int) {
	m, c := qrcode.V_Matrix("c", n)
	o := defaultOutputImageOption()
	b := v_Int("block", 1, 255)
	top, right, bottom, left := v_Int("top", 0, 5000), v_Int("right", 0, 5000), v_Int("bottom", 0, 5000), v_Int("left", 0, 5000)
	o.qrWidth = b
	o.borderWidths = [4]int{top, right, bottom, left}
	o.shape = std_shape{}
	o.logoSafeZone = zone != 0
	k := v_Int("size factor", 1, 1000)
	o.logoSizeMultiplier = k
	ox, oy := v_Int("logo origin x", -1000, 1000), v_Int("logo origin y", -1000, 1000)
	lw, lh := v_Int("logo width", 1, 50000), v_Int("logo height", 1, 50000)
	logo := std_img{image.Rect(ox, oy, ox+lw, oy+lh)}
	o.logo = logo
	std_setup(n, b, left, top)
	std_args = [7]int{b, left, top, n*b + left + right, n*b + top + bottom, lw, lh}
	w, h := n*b+left+right, n*b+top+bottom
	fits := w >= k*lw && h >= k*lh
	if zone == 1 {
		v_Assume(fits)
	}
	if zone == 2 {
		v_Assume(!fits)
	}
	// the modules that are cleared
	d := make([][]bool, n)
	for x := range d {
		d[x] = make([]bool, n)
		for y := range d[x] {
			d[x][y] = c[x][y] && !(zone == 1 && spec_overlap(x, y))
		}
	}
	std_dark = d
	draw(m, o)
	if fits {
		v_Assert(len(std_logo) == 1, "a logo that fits is drawn once")
		if len(std_logo) == 1 {
			v_Assert(std_logo[0] == image.Image(logo), "the logo that was given is drawn")
			v_Assert(std_logoX[0] == (w-lw)/2 && std_logoY[0] == (h-lh)/2, "the logo is centred")
		}
	} else {
		v_Assert(len(std_logo) == 0, "a logo that is too large is left out")
	}
	for y := 0; y < n; y++ {
		for x := 0; x < n; x++ {
			at := y*n + x
			e := std_evAt[y][x]
			times := 1
			if c[x][y] && !d[x][y] {
				times = 0
			}
			v_AssertAt(std_at[y][x] == times, "exactly the dark modules under the logo are left undrawn", at)
			if times == 1 {
				if v_Proves(e.nb == spec_mask(x, y)) {
					v_AssertAt(true, "the mask of the module is handed to the shape", at)
				} else {
					v_AssertAt(e.nb == spec_neighbours(d, x, y), "a cleared module counts as light for its neighbours", at)
				}
			}
		}
	}
}
