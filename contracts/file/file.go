package file

import (
	"errors"
	"os"

	"github.com/yeqown/go-qrcode/v2"
)

// C18: the text written for an arbitrary matrix. Contract of the file: a write
// either takes the whole text or fails; what was taken is the ghost variable.
var (
	file_pieces []string
	file_writes int
	file_fails  bool // some write fails ...
	file_at     int  // ... the one with this number
	file_failed bool
)

var file_err = errors.New("write error")

func sum_WriteString(f *os.File, s string) (int, error) {
	v_Assert(!file_failed, "nothing is written after a failed write")
	if file_fails && file_writes == file_at {
		file_failed = true
		return 0, file_err
	}
	file_writes++
	if !file_fails {
		file_pieces = append(file_pieces, s)
	}
	return len(s), nil
}

func sum_WriteBytes(f *os.File, b []byte) (int, error) { return sum_WriteString(f, string(b)) }

func file_want(c [][]bool, x, k int) string {
	n := len(c)
	up, down := c[x][2*k], false
	if 2*k+1 < n {
		down = c[x][2*k+1]
	}
	if up && down {
		return "\u2588"
	}
	if up {
		return "\u2580"
	}
	if down {
		return "\u2584"
	}
	return " "
}

func thm_C18(n int) {
	m, c := qrcode.V_Matrix("c", n)
	w := New(new(os.File))
	err := w.Write(m)
	v_Assert(err == nil, "without a failing write there is no error")
	p, cur := 0, ""
	take := func(want, obl string, at int) {
		if cur == "" {
			v_AssertAt(p < len(file_pieces), "the whole symbol is written", at)
			if p >= len(file_pieces) {
				return
			}
			cur = file_pieces[p]
			p++
		}
		if v_Proves(cur == want) {
			v_AssertAt(cur == want, obl, at)
			cur = ""
			return
		}
		ok := len(cur) >= len(want) && cur[:len(want)] == want
		v_AssertAt(ok, obl, at)
		if ok {
			cur = cur[len(want):]
		}
	}
	for k := 0; k < (n+1)/2; k++ {
		for x := 0; x < n; x++ {
			take(file_want(c, x, k), "the character shows the two modules", k*n+x)
		}
		take("\n", "a line ends after n characters", k)
	}
	v_Assert(p == len(file_pieces) && cur == "", "nothing else is written")
	v_Assert(w.Close() == nil, "Close succeeds")
}

// a write failure at any point
func thm_C18_err(n int) {
	m, _ := qrcode.V_Matrix("c", n)
	w := New(new(os.File))
	file_fails = true
	file_at = v_Small("failing write", 14)
	err := w.Write(m)
	if file_failed {
		v_Assert(err == file_err, "the write error is returned")
	} else {
		v_Assert(err == nil, "without a failing write there is no error")
	}
}

func thm_C18_nil(n int) {
	m, _ := qrcode.V_Matrix("c", n)
	var err error
	p := v_Panics(func() { err = New(nil).Write(m) })
	v_Assert(!p && err != nil, "a missing file is an error")
	v_Assert(file_writes == 0, "nothing is written")
}
