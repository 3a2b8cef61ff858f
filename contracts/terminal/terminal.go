package terminal

import (
	"errors"

	termbox "github.com/nsf/termbox-go"
	"github.com/yeqown/go-qrcode/v2"
)

// C20: what an arbitrary matrix looks like on the terminal. The terminal is replaced
// by contracts: a cell keeps what was last drawn into it.
const term_max = 400

var (
	term_w, term_h int
	term_fg        [][]termbox.Attribute // [y][x]
	term_bg        [][]termbox.Attribute
	term_ch        [][]rune
	term_outside   int
	term_flushes   int
	term_polls     int
	term_drawnLate bool
	term_early     bool
	term_closed    int
	term_ev        []termbox.EventType
	term_flushErr  error
)

var term_err = errors.New("flush")

func term_setup(n int) {
	term_w, term_h = 2*(n+2), n+2
	for y := 0; y < term_h; y++ {
		term_fg = append(term_fg, make([]termbox.Attribute, term_w))
		term_bg = append(term_bg, make([]termbox.Attribute, term_w))
		term_ch = append(term_ch, make([]rune, term_w))
	}
}

func sum_SetCell(x, y int, ch rune, fg, bg termbox.Attribute) {
	if term_flushes > 0 {
		term_drawnLate = true
	}
	if x < 0 || y < 0 || x >= term_w && y < term_h {
		term_outside++
		return
	}
	if y >= term_h {
		return // below the symbol: the message
	}
	term_fg[y][x], term_bg[y][x], term_ch[y][x] = fg, bg, ch
}

func sum_Flush() error { term_flushes++; return term_flushErr }

func sum_PollEvent() termbox.Event {
	if term_flushes == 0 {
		term_early = true
	}
	k := term_polls
	term_polls++
	if k < len(term_ev) {
		return termbox.Event{Type: term_ev[k]}
	}
	v_Assert(k == len(term_ev), "the writer stops at the first key")
	return termbox.Event{Type: termbox.EventKey}
}

func sum_Close() { term_closed++ }

func sum_RuneWidth(r rune) int         { return v_Small("width", 2) }
func sum_IsAmbiguousWidth(r rune) bool { return v_Bool("ambiguous") }

// the cells of an arbitrary symbol; events of any kind but keys before the first key
func thm_C20(n, events int) {
	m, c := qrcode.V_Matrix("c", n)
	term_setup(n)
	for i := 0; i < events; i++ {
		t := termbox.EventType(v_Small("event"+v_digits(i), 3))
		v_Assume(t != termbox.EventKey)
		term_ev = append(term_ev, t)
	}
	w := &Writer{}
	if v_Bool("flushing fails") {
		term_flushErr = term_err
	}
	err := w.Write(m)
	v_Assert(term_flushes == 1, "the screen is flushed once")
	v_Assert(!term_drawnLate && !term_early, "all is drawn, then flushed, then the writer waits")
	if term_flushErr != nil {
		v_Assert(err == term_err, "the terminal's error is returned")
		return
	}
	v_Assert(err == nil, "without an error of the terminal there is none")
	v_Assert(term_polls == events+1, "the writer waits for a key")
	v_Assert(term_outside == 0, "nothing is drawn beside the symbol and its border")
	for y := 0; y < term_h; y++ {
		for x := 0; x < term_w; x++ {
			mx, my := x/2-1, y-1
			want := termbox.ColorWhite
			name := "the border is light on all four sides"
			if mx >= 0 && my >= 0 && mx < n && my < n {
				name = "a module occupies two cells in its colour"
				if c[mx][my] {
					want = termbox.ColorBlack
				}
			}
			fg, bg, ch := term_fg[y][x], term_bg[y][x], term_ch[y][x]
			v_AssertAt(ch == '\u2588' && fg == want || ch == ' ' && bg == want, name, y*term_w+x)
		}
	}
	v_Assert(w.Close() == nil && term_closed == 1, "Close closes the terminal")
}
