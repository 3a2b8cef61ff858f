package compressed

import (
	"bytes"
	"errors"
	"fmt"
	"image/png"
	"math/rand"
	"os"
	"path/filepath"
)

var wProps = map[string]wProp{"C19": {gen: genC19, run: runC19}}

func genC19(rng *rand.Rand, i int) wIn {
	k := []string{"writer", "file", "failing", "writer"}[i%4]
	v := wVersion(rng, i/4)
	return wIn{Kind: k, Text: wText(rng), N: []int{v, 1 + rng.Intn(7), rng.Intn(12)}}
}

type wTarget struct {
	bytes.Buffer
	after  int
	closed int
}

var wErr = errors.New("target")
var wErrClose = errors.New("close")

func (t *wTarget) Write(b []byte) (int, error) {
	if t.after >= 0 && t.Len()+len(b) > t.after {
		return 0, wErr
	}
	return t.Buffer.Write(b)
}
func (t *wTarget) Close() error { t.closed++; return wErrClose }

func runC19(in wIn) string {
	_, m := wSymbol(in.Text, in.N[0])
	bs, pad := in.N[1], in.N[2]
	o := &Option{BlockSize: bs, Padding: pad}
	var data []byte
	switch in.Kind {
	case "writer", "failing":
		t := &wTarget{after: -1}
		w := NewWithWriter(t, o)
		if err := w.Write(m); err != nil {
			return "Write: " + err.Error()
		}
		if w.Close() != wErrClose || t.closed != 1 {
			return "the target is not closed once, or its error is lost"
		}
		data = t.Bytes()
		if in.Kind == "failing" {
			for _, k := range []int{0, 10, len(data) / 2, len(data) - 1} {
				t := &wTarget{after: k}
				if err := NewWithWriter(t, o).Write(m); err != wErr {
					return fmt.Sprintf("a target that fails after %d bytes: %v", k, err)
				}
			}
			return ""
		}
	case "file":
		dir, err := os.MkdirTemp("", "verif-compressed")
		if err != nil {
			return ""
		}
		defer os.RemoveAll(dir)
		name := filepath.Join(dir, "a.png")
		if _, err := New(filepath.Join(dir, "missing", "a.png"), o); err == nil {
			return "a file that cannot be created is not reported"
		}
		os.WriteFile(name, bytes.Repeat([]byte("stale"), 200000), 0644)
		w, err := New(name, o)
		if err != nil {
			return "New: " + err.Error()
		}
		if err := w.Write(m); err != nil {
			return "Write: " + err.Error()
		}
		if err := w.Close(); err != nil {
			return "Close: " + err.Error()
		}
		data, _ = os.ReadFile(name)
	}
	r := bytes.NewReader(data)
	img, err := png.Decode(r)
	if err != nil {
		return "no PNG: " + err.Error()
	}
	if r.Len() > 0 {
		return "stale bytes follow the image"
	}
	b := m.Bitmap()
	n := len(b)
	size := n*bs + 2*pad
	if bb := img.Bounds(); bb.Min.X != 0 || bb.Min.Y != 0 || bb.Dx() != size || bb.Dy() != size {
		return fmt.Sprintf("size %v, want %d", bb, size)
	}
	for y := 0; y < size; y++ {
		for x := 0; x < size; x++ {
			mx, my := x-pad, y-pad
			dark := mx >= 0 && my >= 0 && mx < n*bs && my < n*bs && b[my/bs][mx/bs]
			r, g, bl, a := img.At(x, y).RGBA()
			want := uint32(0xffff)
			if dark {
				want = 0
			}
			if r != want || g != want || bl != want || a != 0xffff {
				return fmt.Sprintf("pixel (%d,%d)", x, y)
			}
		}
	}
	return ""
}
