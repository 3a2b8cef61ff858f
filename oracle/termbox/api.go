package termbox

// A terminal that records what is drawn (stands in for the real one in the oracle).

type V_Cell struct {
	Ch     rune
	Fg, Bg Attribute
	N      int
}

var (
	V_Cells  = map[[2]int]V_Cell{}
	V_Events []Event
	V_Err    error
	V_Polls  int
	V_Log    []string
)

func Init() error                        { V_Log = append(V_Log, "init"); return nil }
func Close()                             { V_Log = append(V_Log, "close") }
func SetInputMode(m InputMode) InputMode { return m }
func SetOutputMode(m OutputMode) OutputMode {
	return m
}
func Interrupt()                  {}
func HideCursor()                 {}
func SetCursor(x, y int)          {}
func Size() (int, int)            { return 1000, 1000 }
func Clear(fg, bg Attribute) error { return nil }
func Sync() error                 { return nil }
func Flush() error {
	V_Log = append(V_Log, "flush")
	return V_Err
}
func SetCell(x, y int, ch rune, fg, bg Attribute) {
	c := V_Cells[[2]int{x, y}]
	V_Cells[[2]int{x, y}] = V_Cell{ch, fg, bg, c.N + 1}
	if len(V_Log) == 0 || V_Log[len(V_Log)-1] != "cell" {
		V_Log = append(V_Log, "cell")
	}
}
func SetChar(x, y int, ch rune) {
	c := V_Cells[[2]int{x, y}]
	c.Ch = ch
	V_Cells[[2]int{x, y}] = c
}
func SetFg(x, y int, fg Attribute) {
	c := V_Cells[[2]int{x, y}]
	c.Fg = fg
	V_Cells[[2]int{x, y}] = c
}
func SetBg(x, y int, bg Attribute) {
	c := V_Cells[[2]int{x, y}]
	c.Bg = bg
	V_Cells[[2]int{x, y}] = c
}
func GetCell(x, y int) Cell {
	c := V_Cells[[2]int{x, y}]
	return Cell{Ch: c.Ch, Fg: c.Fg, Bg: c.Bg}
}
func PollEvent() Event {
	V_Polls++
	if len(V_Events) == 0 {
		panic("no more events")
	}
	e := V_Events[0]
	V_Events = V_Events[1:]
	V_Log = append(V_Log, "poll")
	return e
}
