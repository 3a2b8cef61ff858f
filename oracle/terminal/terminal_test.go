package terminal

import (
	"errors"
	"fmt"
	"math/rand"

	termbox "github.com/nsf/termbox-go"
)

var wProps = map[string]wProp{"C20": {gen: genC20, run: runC20, seq: true}}

func genC20(rng *rand.Rand, i int) wIn {
	k := "draw"
	if i%5 == 4 {
		k = "flush"
	}
	return wIn{Kind: k, Text: wText(rng), N: []int{wVersion(rng, i), rng.Intn(4)}}
}

func runC20(in wIn) string {
	_, m := wSymbol(in.Text, in.N[0])
	termbox.V_Cells = map[[2]int]termbox.V_Cell{}
	termbox.V_Polls, termbox.V_Err, termbox.V_Log, termbox.V_Events = 0, nil, nil, nil
	for i := 0; i < in.N[1]; i++ {
		termbox.V_Events = append(termbox.V_Events, termbox.Event{Type: []termbox.EventType{termbox.EventResize, termbox.EventMouse, termbox.EventError, termbox.EventInterrupt}[i%4]})
	}
	termbox.V_Events = append(termbox.V_Events, termbox.Event{Type: termbox.EventKey}, termbox.Event{Type: termbox.EventKey})
	w := New()
	if in.Kind == "flush" {
		termbox.V_Err = errors.New("flush")
	}
	err := w.Write(m)
	if err != termbox.V_Err {
		return fmt.Sprintf("Write returned %v", err)
	}
	if err == nil && termbox.V_Polls != in.N[1]+1 {
		return "does not wait for exactly the first key"
	}
	drawn, flushed := false, false
	for _, l := range termbox.V_Log {
		switch l {
		case "cell":
			if flushed {
				return "drawn after the screen was flushed"
			}
			drawn = true
		case "flush":
			flushed = true
		case "poll":
			if !flushed {
				return "waits before the screen was flushed"
			}
		}
	}
	if !drawn || !flushed {
		return "nothing shown"
	}
	if w.Close() != nil || termbox.V_Log[len(termbox.V_Log)-1] != "close" {
		return "the terminal is not closed"
	}
	b := m.Bitmap()
	n := len(b)
	for y := 0; y < n+2; y++ {
		for x := 0; x < 2*(n+2); x++ {
			c := termbox.V_Cells[[2]int{x, y}]
			want := termbox.ColorWhite
			mx, my := x/2-1, y-1
			if mx >= 0 && my >= 0 && mx < n && my < n && b[my][mx] {
				want = termbox.ColorBlack
			}
			got := c.Fg
			if c.Ch == ' ' || c.Ch == 0 {
				got = c.Bg
			} else if c.Ch != '\u2588' {
				return fmt.Sprintf("cell (%d,%d) shows %q", x, y, c.Ch)
			}
			if got != want {
				return fmt.Sprintf("cell (%d,%d) has colour %d, want %d", x, y, got, want)
			}
		}
	}
	for k := range termbox.V_Cells {
		if k[0] < 0 || k[1] < 0 || k[1] < n+2 && k[0] >= 2*(n+2) {
			return fmt.Sprintf("cell %v outside the symbol is drawn", k)
		}
	}
	return ""
}
