package compressed

import (
	"errors"
	"image"
	"image/png"
	"io"
	"os"

	"github.com/yeqown/go-qrcode/v2"
)

// C19: the picture handed to the PNG encoder for an arbitrary matrix. The encoder and
// the file are replaced by contracts: they take the picture or fail.
var (
	png_img   []*image.Paletted
	png_to    []io.Writer
	png_fails bool
	os_names  []string
	os_flags  []int
	os_fails  bool
	os_files  []*os.File
	os_closed []*os.File
)

var png_err = errors.New("encoding")
var os_err = errors.New("open")
var os_errClose = errors.New("close")

func sum_pngEncode(e *png.Encoder, w io.Writer, m image.Image) error { return sum_png(w, m) }

func sum_png(w io.Writer, m image.Image) error {
	p, ok := m.(*image.Paletted)
	v_Assert(ok, "a paletted picture is encoded")
	png_img = append(png_img, p)
	png_to = append(png_to, w)
	if png_fails {
		return png_err
	}
	return nil
}

func sum_OpenFile(name string, flag int, perm os.FileMode) (*os.File, error) {
	os_names = append(os_names, name)
	os_flags = append(os_flags, flag)
	if os_fails {
		return nil, os_err
	}
	f := new(os.File)
	os_files = append(os_files, f)
	return f, nil
}

func sum_Create(name string) (*os.File, error) {
	return sum_OpenFile(name, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0666)
}

func sum_CloseFile(f *os.File) error {
	os_closed = append(os_closed, f)
	return os_errClose
}

type png_target struct{ closed *int }

func (t png_target) Write(b []byte) (int, error) {
	v_Assert(false, "nothing but the picture is written")
	return 0, nil
}
func (t png_target) Close() error { *t.closed++; return os_errClose }

// every pixel of the picture
func thm_C19(n, block, padding int) {
	m, c := qrcode.V_Matrix("c", n)
	closed := 0
	o := &Option{Padding: padding, BlockSize: block}
	t := png_target{&closed}
	w := NewWithWriter(t, o)
	png_fails = v_Bool("encoder fails")
	err := w.Write(m)
	if png_fails {
		v_Assert(err == png_err, "the error of the target is returned")
	} else {
		v_Assert(err == nil, "without an error of the target there is none")
	}
	v_Assert(closed == 0, "the target is not closed early")
	v_Assert(w.Close() == os_errClose && closed == 1, "the target is closed once and its error returned")
	v_Assert(o.Padding == padding && o.BlockSize == block, "the options stay as they were")
	v_Assert(len(png_img) == 1 && png_to[0] == io.Writer(t), "one picture is written to the target")
	if len(png_img) != 1 {
		return
	}
	p := png_img[0]
	size := n*block + 2*padding
	v_Assert(p.Rect == image.Rect(0, 0, size, size), "the picture measures n*BlockSize+2*Padding")
	v_Assert(len(p.Palette) == 2, "the picture has two colours")
	if p.Rect != image.Rect(0, 0, size, size) || len(p.Palette) != 2 {
		return
	}
	di, li := -1, -1
	for i := 0; i < 2; i++ {
		r, g, b, a := p.Palette[i].RGBA()
		if r == 0 && g == 0 && b == 0 && a == 0xffff {
			di = i
		}
		if r == 0xffff && g == 0xffff && b == 0xffff && a == 0xffff {
			li = i
		}
	}
	v_Assert(di >= 0 && li >= 0, "the colours are black and white")
	for x := 0; x < size; x++ {
		var col []bool
		if x >= padding && x < padding+n*block {
			col = c[(x-padding)/block]
		}
		for y := 0; y < size; y++ {
			dark := false
			if col != nil && y >= padding && y < padding+n*block {
				dark = col[(y-padding)/block]
			}
			i := int(p.Pix[y*p.Stride+x])
			v_AssertAt(i == di == dark && i == li == !dark, "a pixel is dark exactly in the square of a dark module", x*size+y)
		}
	}
}

// a file as the target
func thm_C19_file(n int) {
	m, _ := qrcode.V_Matrix("c", n)
	os_fails = v_Bool("open fails")
	w, err := New("name", &Option{Padding: 1, BlockSize: 1})
	v_Assert(len(os_names) == 1 && os_names[0] == "name", "the named file is opened once")
	if os_fails {
		v_Assert(err == os_err, "an error of opening the file is returned")
		return
	}
	v_Assert(err == nil, "opening the file succeeds")
	f := os_flags[0]
	v_Assert(f&(os.O_WRONLY|os.O_RDWR) != 0 && f&os.O_CREATE != 0, "the file is created if it does not exist and opened for writing")
	v_Assert(f&os.O_TRUNC != 0 && f&os.O_APPEND == 0, "earlier contents of the file are discarded")
	v_Assert(w.Write(m) == nil && len(png_to) == 1 && png_to[0] == io.Writer(os_files[0]), "the picture goes to the file")
	v_Assert(len(os_closed) == 0, "the file is not closed early")
	v_Assert(w.Close() == os_errClose && len(os_closed) == 1 && os_closed[0] == os_files[0], "the file is closed once and its error returned")
}
