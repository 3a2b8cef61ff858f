package standard

import (
	"errors"
	"image"
	"image/color"
	"io"
	"os"

	"github.com/yeqown/go-qrcode/v2"
)

// C21: shapes, and where the picture goes.

type std_circle struct{ x, y, r float64 }

var (
	shp_rects   []std_rect
	shp_circles []std_circle
	shp_colors  []color.Color
	shp_painted []int // shapes in the path at each Fill
)

// Contract of a fill: the shapes of the path, in the current colour.
func shp_fill(color color.Color) {
	shp_colors = append(shp_colors, color)
	shp_painted = append(shp_painted, len(std_path)+len(std_circles))
	shp_rects = append(shp_rects, std_path...)
	shp_circles = append(shp_circles, std_circles...)
}

// one module of any size at any place
func thm_C21_shape(kind, finder int) {
	std_shapes = true
	o := defaultOutputImageOption()
	switch kind {
	case 0: // default
	case 1:
		o.shape = nil
	case 2:
		WithCircleShape().apply(o)
	}
	b := v_Int("block", 1, 255)
	x, y := v_Int("x", 0, 100000), v_Int("y", 0, 100000)
	c := std_rgba("c")
	ctx := &DrawContext{Context: sum_NewContext(1, 1), x: float64(x), y: float64(y), w: b, h: b, color: c, neighbours: v_Uint16("neighbours")}
	s := o.getShape()
	if finder == 1 {
		s.DrawFinder(ctx)
	} else {
		s.Draw(ctx)
	}
	v_Assert(len(shp_painted) == 1 && shp_painted[0] == 1, "one figure is painted")
	if len(shp_painted) != 1 || shp_painted[0] != 1 {
		return
	}
	r, ok := shp_colors[0].(color.RGBA)
	v_Assert(ok && r == c, "the figure has the colour of the module")
	if kind < 2 {
		v_Assert(len(shp_rects) == 1 && shp_rects[0] == std_rect{float64(x), float64(y), float64(b), float64(b)}, "a square module fills its block")
		return
	}
	v_Assert(len(shp_circles) == 1, "a round module is a circle")
	if len(shp_circles) == 1 {
		q := shp_circles[0]
		m := float64(b) / 2
		v_Assert(q.x == float64(x)+m && q.y == float64(y)+m, "the circle is centred in the block")
		v_Assert(q.r <= m && q.r >= m-0.5, "the circle touches the sides of the block")
	}
}

// the block width in use, for any number
func thm_C21_width() {
	o := defaultOutputImageOption()
	d := o.qrBlockWidth()
	w := v_Int("width", -1000000, 1000000)
	o.qrWidth = w
	if w >= 1 && w <= 255 {
		v_Assert(o.qrBlockWidth() == w, "a block width from 1 to 255 is used")
	} else {
		v_Assert(o.qrBlockWidth() == d && d == 20, "any other block width means 20")
	}
}

var (
	wr_img   = image.NewGray(image.Rect(0, 0, 2, 2))
	wr_opt   *outputImageOptions
	wr_drawn int
	wr_enc   int
	wr_fails bool
	wr_err   = errors.New("encoder")
	wr_to    io.Writer
	wr_n     int
)

// Contract of draw: the picture of the matrix (thm_C21, thm_C22).
func sum_draw(m qrcode.Matrix, o *outputImageOptions) image.Image {
	wr_drawn++
	v_Assert(o == wr_opt, "the picture is drawn with the settings of the writer")
	v_Assert(m.Width() == wr_n && m.Height() == wr_n, "the matrix that was given is drawn")
	return wr_img
}

type wr_encoder struct{}

func (wr_encoder) Encode(w io.Writer, img image.Image) error {
	wr_enc++
	v_Assert(wr_drawn == 1 && img == image.Image(wr_img), "the picture that was drawn is encoded")
	v_Assert(w == wr_to, "the picture goes to the target")
	if wr_fails {
		return wr_err
	}
	return nil
}

type wr_target struct{ closed *int }

func (t wr_target) Write(b []byte) (int, error) {
	v_Assert(false, "nothing but the picture is written")
	return 0, nil
}
func (t wr_target) Close() error {
	*t.closed++
	if v_Bool("close fails") {
		return wr_errClose
	}
	return nil
}

var wr_errClose = errors.New("close")

func thm_C21_write(n int) {
	closed := 0
	t := wr_target{&closed}
	wr_to, wr_n = t, n
	w := NewWithWriter(t, WithCustomImageEncoder(wr_encoder{}))
	wr_opt = w.option
	wr_fails = v_Bool("encoder fails")
	m, _ := qrcode.V_Matrix("c", n)
	err := w.Write(m)
	v_Assert(wr_enc == 1, "the configured encoder is used once")
	v_Assert((err != nil) == wr_fails, "an error of the encoder or the target is reported")
	v_Assert(closed == 0, "the target is not closed early")
	err = w.Close()
	v_Assert(closed == 1, "the target is closed once")
	v_Assert((err != nil) == v_Bool("close fails"), "an error of closing is reported")
	// a target that is closed already
	w = NewWithWriter(wr_closedTarget{t})
	v_Assert(w.Close() == nil && closed == 2, "closing a file that is closed already is no error")
}

type wr_closedTarget struct{ wr_target }

func (t wr_closedTarget) Close() error { *t.closed++; return os.ErrClosed }

var (
	fil_names  []string
	fil_flags  []int
	fil_files  []*os.File
	fil_closed []*os.File
	fil_fails  bool
	fil_err    = errors.New("open")
)

func sum_Stat(name string) (os.FileInfo, error) {
	if v_Bool("the file does not exist") {
		return nil, errors.New("stat")
	}
	return nil, nil
}
func sum_IsExist(err error) bool { return false } // no error of Stat says that a file exists
func sum_OpenFile(name string, flag int, perm os.FileMode) (*os.File, error) {
	fil_names, fil_flags = append(fil_names, name), append(fil_flags, flag)
	if fil_fails {
		return nil, fil_err
	}
	f := new(os.File)
	fil_files = append(fil_files, f)
	return f, nil
}
func sum_Create(name string) (*os.File, error) {
	return sum_OpenFile(name, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0666)
}
func sum_CloseOut(f *os.File) error {
	fil_closed = append(fil_closed, f)
	if v_Bool("close fails") {
		return wr_errClose
	}
	return nil
}

// a file as the target
func thm_C21_file(n, fails int) {
	fil_fails = fails == 1
	wr_n = n
	w, err := New("name", WithCustomImageEncoder(wr_encoder{}))
	v_Assert(len(fil_names) == 1 && fil_names[0] == "name", "the named file is opened once")
	v_Assert((err != nil) == fil_fails && (w == nil) == fil_fails, "an error of opening the file is returned")
	if fil_fails {
		return
	}
	f := fil_flags[0]
	v_Assert(f&(os.O_WRONLY|os.O_RDWR) != 0 && f&os.O_CREATE != 0, "the file is created if it does not exist and opened for writing")
	v_Assert(f&os.O_TRUNC != 0 && f&os.O_APPEND == 0, "earlier contents of the file are discarded")
	wr_opt, wr_to = w.option, fil_files[0]
	m, _ := qrcode.V_Matrix("c", n)
	v_Assert(w.Write(m) == nil && wr_enc == 1, "the picture goes to the file")
	v_Assert(len(fil_closed) == 0, "the file is not closed early")
	err = w.Close()
	v_Assert(len(fil_closed) == 1 && fil_closed[0] == fil_files[0], "the file is closed once")
	v_Assert((err != nil) == v_Bool("close fails"), "an error of closing is reported")
}
