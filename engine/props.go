package main

import "fmt"

var pipeRedir = []string{"(*@.encoder).Encode=sum_Encode", "github.com/yeqown/reedsolomon.Encode=sum_RS", "@.evaluation=sum_evaluation"}

var pipeRedirAny = []string{"(*@.encoder).Encode=sum_Encode", "github.com/yeqown/reedsolomon.Encode=sum_RS", "@.evaluation=sum_evaluationAny"}

func cases160(string) [][]int64 {
	var r [][]int64
	for v := int64(40); v >= 1; v-- {
		for l := int64(0); l < 4; l++ {
			r = append(r, []int64{v, l})
		}
	}
	return r
}

// each with the remainders modulo 8
func cases1280(string) [][]int64 {
	var r [][]int64
	for _, c := range cases160("") {
		for s := int64(0); s < 8; s++ {
			r = append(r, []int64{c[0], c[1], s})
		}
	}
	return r
}

func hintVL(c []int64) string {
	if len(c) < 2 {
		return ""
	}
	return fmt.Sprintf("%d,%d", c[0], c[1])
}

// the 40 symbol sizes
func casesSizes(string) [][]int64 {
	var r [][]int64
	for v := int64(40); v >= 1; v-- {
		r = append(r, []int64{17 + 4*v})
	}
	return r
}

// mode, version group and a range of lengths covering 0..the largest capacity
func casesC02(string) [][]int64 {
	max := [4][3]int64{{552, 3283, 7089}, {335, 1990, 4296}, {230, 1367, 2953}, {141, 842, 1817}}
	chunk := [4]int64{4000, 3000, 2000, 230}
	var r [][]int64
	for k := 3; k >= 0; k-- {
		for g := 2; g >= 0; g-- {
			for hi := max[k][g]; hi >= 0; {
				lo := hi - chunk[k]
				if k == 3 && hi < 900 {
					lo = hi - 400
				}
				if lo < 0 || k != 3 && lo < chunk[k]/2 {
					lo = 0
				}
				r = append(r, []int64{int64(k), int64(g), lo, hi})
				hi = lo - 1
			}
		}
	}
	return r
}

// mode, version group, length
func hintC02(c []int64) string {
	if len(c) < 5 {
		return ""
	}
	n := c[4]
	if n < 0 {
		n = c[3]
	}
	return fmt.Sprintf("%d,%d,%d", c[0], c[1], n)
}

// the 40 versions
func casesV(string) [][]int64 {
	var r [][]int64
	for v := int64(1); v <= 40; v++ {
		r = append(r, []int64{v})
	}
	return r
}

// every combination of 0..n-1 for each bound
func casesBox(bounds ...int64) func(string) [][]int64 {
	return func(string) [][]int64 {
		r := [][]int64{{}}
		for _, n := range bounds {
			var q [][]int64
			for _, c := range r {
				for i := int64(0); i < n; i++ {
					q = append(q, append(append([]int64(nil), c...), i))
				}
			}
			r = q
		}
		return r
	}
}

// sequences of up to two of the four options
func casesC05(string) [][]int64 {
	r := [][]int64{{-1, -1}}
	for a := int64(-1); a < 4; a++ {
		for b := int64(0); b < 4; b++ {
			r = append(r, []int64{a, b})
		}
	}
	return r
}

// every version, the levels in turn (all 160 combinations: C11)
func cases40(tier string) [][]int64 {
	if tier == "thorough" {
		return cases160(tier)
	}
	var r [][]int64
	for v := int64(40); v >= 1; v-- {
		r = append(r, []int64{v, v % 4})
	}
	return r
}

func casesC05order(string) [][]int64 {
	var r [][]int64
	for n := int64(0); n <= 32; n++ {
		r = append(r, []int64{n})
	}
	return r
}

func casesC14pen(tier string) [][]int64 {
	if tier == "thorough" {
		return casesSizes(tier)
	}
	return [][]int64{{177}, {141}, {101}, {61}, {45}, {41}, {37}, {33}, {29}, {25}, {21}}
}

func casesC14enc(string) [][]int64 {
	return [][]int64{{3, 2, 1400, 1818}, {0, 2, 6001, 12000}, {1, 2, 6001, 12000}, {2, 2, 6001, 12000},
		{3, 2, 1000, 1399}, {3, 2, 601, 999}, {3, 2, 0, 600}, {0, 2, 0, 6000}, {1, 2, 0, 6000}, {2, 2, 0, 6000},
		{0, 1, 0, 3283}, {1, 1, 0, 1990}, {2, 1, 0, 1367}, {3, 1, 0, 842}, {0, 0, 0, 552}, {1, 0, 0, 335}, {2, 0, 0, 230}, {3, 0, 0, 141}}
}

// all sizes with few block widths and paddings, and many of them with small sizes
func casesC19(tier string) [][]int64 {
	var r [][]int64
	for v := int64(40); v >= 1; v-- {
		n := 17 + 4*v
		if tier == "thorough" {
			r = append(r, []int64{n, 1 + v%2, v % 5})
		} else if v%5 == 0 || v < 20 {
			r = append(r, []int64{n, 1, v % 5})
		}
		if tier == "thorough" || v < 8 {
			r = append(r, []int64{n, 2, 3}, []int64{n, 3, 1})
		}
	}
	for b := int64(1); b <= 10; b++ {
		for _, p := range []int64{0, 1, 2, 4, 9, 16} {
			if tier != "thorough" && p > 4 && b > 3 {
				continue
			}
			r = append(r, []int64{21, b, p})
			if tier == "thorough" {
				r = append(r, []int64{25, b, p}, []int64{57, b, p})
			}
		}
	}
	return r
}

func casesC20(tier string) [][]int64 {
	var r [][]int64
	for v := int64(40); v >= 1; v-- {
		r = append(r, []int64{17 + 4*v, v % 4})
	}
	return r
}

// sizes alternating between large and small, to spread the memory
func mixedSizes() []int64 {
	var r []int64
	for i := int64(0); i < 20; i++ {
		r = append(r, 177-4*i, 21+4*i)
	}
	return r
}

// symbol size and background: opaque, transparent (any colour up to size 41, black above)
func casesC21(string) [][]int64 {
	var r [][]int64
	for _, n := range mixedSizes() {
		t := int64(2)
		if n <= 41 {
			t = 1
		}
		r = append(r, []int64{n, 0}, []int64{n, t})
	}
	return r
}

func casesC22(string) [][]int64 {
	var r [][]int64
	for _, n := range mixedSizes() {
		for z := int64(0); z < 3; z++ {
			r = append(r, []int64{n, z})
		}
	}
	return r
}

// symbol size and strip of twelve rows
func casesC23(string) [][]int64 {
	var r [][]int64
	for _, n := range append(mixedSizes(), 1, 2, 3) {
		for p := int64(0); p*12 < n; p++ {
			r = append(r, []int64{n, p})
		}
	}
	return r
}

// option and argument
func casesC26(string) [][]int64 {
	args := []int64{1, 4, 4, 3, 3, 3, 2, 1, 1, 2, 4, 2, 7, 2, 1, 1, 1, 1, 1}
	var r [][]int64
	for k, n := range args {
		for a := int64(0); a < n; a++ {
			if k == 4 && a == 0 {
				continue // the empty text panics
			}
			r = append(r, []int64{int64(k), a})
		}
	}
	return r
}

func casesSizesBy2(string) [][]int64 {
	var r [][]int64
	for _, n := range mixedSizes() {
		r = append(r, []int64{n, 0})
	}
	return append(r, []int64{21, 1})
}

func casesOnce(string) [][]int64 { return [][]int64{{}} }

func hintN(c []int64) string {
	if len(c) < 1 {
		return ""
	}
	return fmt.Sprintf("%d,0", (c[0]-17)/4)
}

func propByID(id string) *Prop {
	for i := range props {
		if props[i].ID == id {
			return &props[i]
		}
	}
	return nil
}

var (
	redirSjis  = []string{"?golang.org/x/text/transform.String=sum_sjisRune", "?(*golang.org/x/text/encoding.Encoder).String=sum_sjisRuneEnc"}
	redirFront = []string{"?@.analyzeEncodeModeFromRaw=sum_detect", "?@.validateEncodingMode=sum_validate", "?@.newMatrix=sum_newMatrix"}
	redirFile  = []string{"?(*os.File).WriteString=sum_WriteString", "?(*os.File).Write=sum_WriteBytes"}
	redirPng   = []string{"?(*image/png.Encoder).Encode=sum_pngEncode", "?image/png.Encode=sum_png", "?os.OpenFile=sum_OpenFile", "?os.Create=sum_Create", "?(*os.File).Close=sum_CloseFile"}
	redirTerm  = []string{"?github.com/nsf/termbox-go.SetCell=sum_SetCell", "?github.com/nsf/termbox-go.Flush=sum_Flush", "?github.com/nsf/termbox-go.PollEvent=sum_PollEvent", "?github.com/nsf/termbox-go.Close=sum_Close", "?github.com/mattn/go-runewidth.RuneWidth=sum_RuneWidth", "?github.com/mattn/go-runewidth.IsAmbiguousWidth=sum_IsAmbiguousWidth"}
	redirStd   = []string{"?github.com/pkg/errors.New=sum_errNew", "?github.com/pkg/errors.Wrap=sum_errWrap", "?github.com/pkg/errors.Is=sum_errIs", "?fmt.Sscanf=sum_Sscanf"}
	redirGG    = with(redirStd, "?github.com/fogleman/gg.NewContext=sum_NewContext", "?(*github.com/fogleman/gg.Context).SetColor=sum_SetColor", "?(*github.com/fogleman/gg.Context).DrawRectangle=sum_DrawRectangle", "?(*github.com/fogleman/gg.Context).DrawCircle=sum_DrawCircle", "?(*github.com/fogleman/gg.Context).Fill=sum_Fill", "?(*github.com/fogleman/gg.Context).Image=sum_Image", "?(*github.com/fogleman/gg.Context).DrawImage=sum_DrawImage")
	redirDraw  = with(redirGG, "?github.com/yeqown/go-qrcode/writer/standard.getNeighbours=sum_neighbours", "?github.com/yeqown/go-qrcode/writer/standard.blockOverlapsLogo=sum_overlap")
	redirOut   = with(redirStd, "?github.com/yeqown/go-qrcode/writer/standard.draw=sum_draw", "?os.Stat=sum_Stat", "?os.IsExist=sum_IsExist", "?os.OpenFile=sum_OpenFile", "?os.Create=sum_Create", "?(*os.File).Close=sum_CloseOut")
	redirOpts  = with(redirStd, "?os.Open=sum_Open", "?(*os.File).Close=sum_CloseFile", "?image/jpeg.Decode=sum_jpegDecode", "?image/png.Decode=sum_pngDecode", "?github.com/yeqown/go-qrcode/writer/standard/imgkit.Read=sum_imgRead")
	redirC02   = []string{"(*@.encoder).breakUpInto8bit=sum_breakUp", "@.encodeAlphanumericCharacter=sum_alnum", "golang.org/x/text/transform.String=sum_sjis"}
)

func with(r []string, more ...string) []string { return append(append([]string(nil), r...), more...) }

var tb = map[string]string{
	"rope":     "contract of github.com/yeqown/reedsolomon/binary.Binary (New, Append*, At, Len, Subset, Copy ...): a sequence of bits with value semantics",
	"ext":      "contracts of the standard library outside the executed packages: fmt and log have no effect on the state, sync.WaitGroup and channels as in the Go memory model",
	"sjis":     "contract of golang.org/x/text: the Shift_JIS encoder turns each character of a text accepted by validateEncodingMode into its two-byte code (a code of the QR kanji range other than 0x8140)",
	"sjisrune": "contract of golang.org/x/text: the Shift_JIS encoder gives each character one code of one or two bytes, or an error",
	"file":     "contract of os.File: a write takes the whole text or fails",
	"png":      "contract of image/png: the encoder writes the picture it is given to the target and nothing else, or returns the target's error",
	"termbox":  "contract of termbox: a cell shows what was last drawn into it, Flush shows the cells or fails, PollEvent returns some event",
	"gg":       "contract of github.com/fogleman/gg: a new context has the given size, Fill paints the rectangles and circles of the path in the current colour, DrawImage puts the origin of a picture's coordinates at the given point, Image is the picture drawn so far",
	"scan":     "contract of fmt.Sscanf for the formats in use (literal characters and hexadecimal verbs with a width) and of github.com/pkg/errors",
	"debug":    "debug mode is off (its default)",
	"map":      "maps iterate in insertion order in the verifier (no map iteration in the verified functions)",
}

var props = []Prop{
	{ID: "C02", Oracle: "qrcode", Trusted: []string{tb["rope"], tb["ext"], tb["debug"], tb["sjis"]},
		Thms: []Thm{
			{Fn: "thm_C02", Group: "qrcode", Redir: redirC02, Cases: casesC02, Hint: hintC02,
				Must: []string{"segment: mode indicator, character count, data bits#24907", "a segment that does not fit is an error#24907"}},
			{Fn: "thm_C02_alnum", Group: "qrcode", Cases: casesOnce, Must: []string{"value of an alphanumeric character#45"}},
			{Fn: "thm_C02_width", Group: "qrcode", Cases: casesV, Must: []string{"width of the character count#160"}}}},
	{ID: "C03", Oracle: "qrcode", Trusted: []string{tb["rope"], tb["ext"], tb["debug"]},
		Thms: []Thm{
			{Fn: "thm_C03_refused", Group: "qrcode", Cases: cases160, Hint: hintVL, Must: []string{"a segment that does not fit is refused#160"}},
			{Fn: "thm_C03", Group: "qrcode", Cases: cases1280, Hint: hintVL,
				Must: []string{"a segment that fits is accepted#978560", "terminator, zero bits and pad codewords up to the capacity#978560", "the data fills the symbol exactly#978560"}}}},
	{ID: "C04", Oracle: "qrcode", Trusted: []string{tb["ext"], tb["debug"]},
		Thms: []Thm{{Fn: "thm_C04", Group: "qrcode", Redir: with(redirFront, "(*@.encoder).Encode=sum_EncodeRec"), Cases: casesBox(4, 4, 2),
			Must: []string{"the smallest version that holds the text, at least the minimum version#52480", "no version holds the text: an error#1312", "the mode that was chosen#52480", "the whole text is encoded#52480"}}}},
	{ID: "C05", Oracle: "qrcode", Trusted: []string{tb["ext"], tb["debug"]},
		Thms: []Thm{
			{Fn: "thm_C05_option", Group: "qrcode", Cases: casesBox(4), Must: []string{"the version is set by WithVersion with a valid argument only#102", "the mode is set by WithEncodingMode only#102"}},
			{Fn: "thm_C05_order", Group: "qrcode", Redir: with(redirFront, "(*@.encoder).Encode=sum_EncodeRec"), Cases: casesC05order, Must: []string{"every option is applied exactly once#33", "the options are applied in the order given#528"}},
			{Fn: "thm_C05_new", Group: "qrcode", Redir: with(redirFront, "(*@.encoder).Encode=sum_EncodeRec"), Cases: casesBox(4), Must: []string{"the default level is Q#4", "the default version is automatic#4", "the default is automatic mode detection#4"}},
			{Fn: "thm_C05", Group: "qrcode", Redir: with(redirFront, "(*@.encoder).Encode=sum_EncodeRec"), Cases: casesC05, Must: []string{"the last mode is used#9156", "the last valid level is used#9156", "the last valid version, otherwise the last valid minimum version, is used#9156"}},
			{Fn: "thm_C05_symbol", Group: "qrcode", Redir: pipeRedirAny, Cases: cases40, Hint: hintVL, Must: []string{"the symbol announces the requested level#600", "the symbol has the requested version#40"}}}},
	{ID: "C06", Oracle: "qrcode", Trusted: []string{tb["ext"], tb["sjisrune"]},
		Thms: []Thm{
			{Fn: "thm_C06", Group: "qrcode", Redir: redirSjis, Cases: casesBox(16), Must: []string{"the densest mode that can represent the whole text#16", "every text has a mode#16"}},
			{Fn: "thm_C06_valid", Group: "qrcode", Redir: redirSjis, Cases: casesBox(16, 4), Must: []string{"a mode is accepted exactly for the texts it can carry#64"}},
			{Fn: "thm_C06_invalid", Group: "qrcode", Redir: redirSjis, Cases: casesBox(16), Must: []string{"any other mode is an error#16"}},
			{Fn: "thm_C04", Group: "qrcode", Redir: with(redirFront, "(*@.encoder).Encode=sum_EncodeRec"), Cases: casesBox(4, 1, 2), Must: []string{"the mode that was chosen#13120", "the mode is chosen for the whole text#13120"}, Only: []string{"the mode that was chosen", "the mode is chosen for the whole text", "no mode carries the text: an error"}}}},
	{ID: "C07", Oracle: "qrcode", Trusted: []string{tb["rope"], tb["ext"], tb["debug"], "contract of github.com/yeqown/reedsolomon.Encode: data bits followed by the Reed-Solomon check bits (a function of the data bits and their number)"},
		Thms: []Thm{{Fn: "thm_data", Group: "qrcode", Redir: pipeRedirAny, Cases: cases160, Hint: hintVL,
			Must: []string{"data modules: block structure, interleaving, placement and mask#14000000", "remainder bits are zero before masking"}}}},
	{ID: "C08", Oracle: "qrcode", Trusted: []string{tb["rope"], tb["ext"], tb["debug"]},
		Thms: []Thm{{Fn: "thm_C08", Group: "qrcode", Redir: pipeRedirAny, Cases: cases160, Hint: hintVL,
			Must: []string{"function patterns (finder, separator, timing, alignment, dark module)", "Dimension is 17+4*version"}}}},
	{ID: "C11", Oracle: "qrcode", Trusted: []string{tb["rope"], tb["ext"], tb["debug"]},
		Thms: []Thm{{Fn: "thm_C11", Group: "qrcode", Redir: pipeRedirAny, Cases: cases160, Hint: hintVL,
			Must: []string{"format information, both copies#38400", "version information (upper right)"}}}},
	{ID: "C09", Oracle: "qrcode", Trusted: []string{tb["rope"], tb["ext"], tb["debug"]},
		Thms: []Thm{{Fn: "thm_data", Group: "qrcode", Redir: pipeRedirAny, Cases: cases160, Hint: hintVL,
			Must: []string{"data modules: block structure, interleaving, placement and mask#14000000", "remainder bits are zero before masking"}}}},
	{ID: "C10", Oracle: "qrcode", Trusted: []string{tb["rope"], tb["ext"], tb["debug"]},
		Thms: []Thm{{Fn: "thm_C10", Group: "qrcode", Redir: pipeRedirAny, Cases: cases160, Hint: hintVL,
			Must: []string{"data modules: block structure, interleaving, placement and mask#14000000", "masking leaves function patterns untouched", "the format information announces the mask and is not masked#38400"}}}},
	{ID: "C12", Oracle: "qrcode", Trusted: []string{tb["rope"], tb["ext"], tb["debug"]},
		Thms: []Thm{{Fn: "thm_C12", Group: "qrcode", Redir: pipeRedir, Cases: cases160, Hint: hintVL,
			Must: []string{"race freedom of the goroutines", "the chosen mask has the lowest penalty", "equal penalties: the lowest mask number wins"}}}},
	{ID: "C13", Oracle: "qrcode", Trusted: []string{tb["ext"], tb["debug"]},
		Thms: []Thm{
			{Fn: "thm_C13_r1", Group: "qrcode", Cases: casesSizes, Hint: hintN, Must: []string{"rule 1: runs of five or more modules of one colour#40"}},
			{Fn: "thm_C13_r3", Group: "qrcode", Redir: []string{"@.kmp=sum_kmp"}, Cases: casesSizes, Hint: hintN, Must: []string{"rule 3: finder-like patterns#40", "kmp is given colours"}},
			{Fn: "thm_C13_r2", Group: "qrcode", Cases: casesSizes, Hint: hintN, Must: []string{"rule 2: blocks of 2x2 modules of one colour#40"}},
			{Fn: "thm_C13_r4", Group: "qrcode", Cases: casesSizes, Hint: hintN, Must: []string{"rule 4: proportion of dark modules#40"}},
			{Fn: "thm_C13_kmp", Group: "qrcode", Cases: casesSizes, Hint: hintN, Must: []string{"kmp counts the occurrences of the pattern#160", "rule 3 of a line is 40 per occurrence#40"}},
			{Fn: "thm_C13_sum", Group: "qrcode", Redir: []string{"@.rule1=sum_rule1", "@.rule2=sum_rule2", "@.rule3=sum_rule3", "@.rule4=sum_rule4"}, Cases: casesSizes, Hint: hintN,
				Must: []string{"the penalty is the sum of the four rules#40", "the rules look at the matrix that is scored"}}}},
	{ID: "C14", Oracle: "qrcode", Trusted: []string{tb["rope"], tb["ext"], tb["debug"], tb["sjis"], tb["sjisrune"], "the contract of kmp (C13)"},
		Thms: []Thm{
			{Fn: "thm_C14_settings", Group: "qrcode", Cases: casesBox(4), Must: []string{"an option keeps the settings in range#102"}},
			{Fn: "thm_C14_types", Group: "qrcode", Redir: with(redirFront, "(*@.encoder).Encode=sum_EncodeRec"), Cases: casesBox(8), Must: []string{"a text of any type is encoded as given#8"}},
			{Fn: "thm_C14_choose", Group: "qrcode", Redir: with(redirFront, "(*@.encoder).Encode=sum_EncodeTotal"), Cases: casesBox(4, 2), Must: []string{"the error of the encoder is returned", "the encoder is given one of the four modes"}},
			{Fn: "thm_C06", Group: "qrcode", Redir: redirSjis, Cases: casesBox(16), Must: []string{"every text has a mode#16"}, Only: []string{"every text has a mode"}},
			{Fn: "thm_C06_valid", Group: "qrcode", Redir: redirSjis, Cases: casesBox(16, 4), Must: []string{"a mode is accepted exactly for the texts it can carry#64"}, Only: []string{}},
			{Fn: "thm_C06_invalid", Group: "qrcode", Redir: redirSjis, Cases: casesBox(16), Must: []string{"any other mode is an error#16"}},
			{Fn: "thm_C14_encode", Group: "qrcode", Redir: redirC02, Cases: casesC14enc, Hint: hintC02, Must: []string{"the encoder returns data or an error#46000"}},
			{Fn: "thm_C03_refused", Group: "qrcode", Cases: cases160, Hint: hintVL, Must: []string{"a segment that does not fit is refused#160"}},
			{Fn: "thm_C03", Group: "qrcode", Cases: cases1280, Hint: hintVL, Must: []string{"the data fills the symbol exactly#978560"}, Only: []string{"the data fills the symbol exactly"}},
			{Fn: "thm_C14_rest", Group: "qrcode", Redir: []string{"(*@.encoder).Encode=sum_EncodeOrFail", "github.com/yeqown/reedsolomon.Encode=sum_RS", "@.evaluation=sum_evaluationAny"}, Cases: cases160, Hint: hintVL, Must: []string{"encoded data lead to a symbol#160"}},
			{Fn: "thm_C14_penalty", Group: "qrcode", Redir: []string{"?@.kmp=sum_kmp"}, Cases: casesC14pen, Hint: hintN, Must: []string{"every matrix has a penalty#11"}}}},
	{ID: "C16", Oracle: "qrcode", Trusted: []string{tb["ext"]},
		Thms: []Thm{
			{Fn: "thm_C16", Group: "qrcode", Cases: casesSizes, Hint: hintN,
				Must: []string{"Bitmap[y][x] is the colour of module (x, y)#477320", "row iteration passes the module at (x, y)#477320", "column iteration passes the module at (x, y)#477320", "a copy is equal to its original#477320", "changing a copy leaves the original as it was#477320"}},
			{Fn: "thm_C16_range", Group: "qrcode", Cases: casesSizes, Hint: hintN,
				Must: []string{"writing out of range changes nothing#477320", "reading out of range is an error"}}}},
	{ID: "C17", Oracle: "qrcode", Trusted: []string{tb["ext"]},
		Thms: []Thm{{Fn: "thm_C17", Group: "qrcode", Cases: casesSizes, Hint: hintN,
			Must: []string{"Write and Close are called exactly once#80", "the error of Write is returned unchanged", "a panic of the writer is not swallowed", "the writer gets the finished matrix, module by module#954640"}}}},
	{ID: "C18", Oracle: "file", Trusted: []string{tb["file"]},
		Thms: []Thm{
			{Fn: "thm_C18", Group: "file", Redir: redirFile, Cases: casesSizes, Must: []string{"the character shows the two modules#240660", "a line ends after n characters#2000", "nothing else is written#40", "without a failing write there is no error#40"}},
			{Fn: "thm_C18_err", Group: "file", Redir: redirFile, Cases: casesSizes, Must: []string{"the write error is returned#40", "nothing is written after a failed write"}},
			{Fn: "thm_C18_nil", Group: "file", Redir: []string{"?(*os.File).WriteString=sum_WriteString", "?(*os.File).Write=sum_WriteBytes"}, Cases: casesSizes, Must: []string{"a missing file is an error#40"}}}},
	{ID: "C19", Oracle: "compressed", Trusted: []string{tb["png"]}, Level: "other", Note: "deductive for every matrix content and every error of encoder and file; bounded in the block size and the padding: only the combinations of the cases run are covered",
		Thms: []Thm{
			{Fn: "thm_C19", Group: "compressed", Redir: redirPng, Cases: casesC19, Must: []string{"a pixel is dark exactly in the square of a dark module#700000", "the picture measures n*BlockSize+2*Padding#80", "the error of the target is returned#80", "the target is closed once and its error returned#80"}},
			{Fn: "thm_C19_file", Group: "compressed", Redir: redirPng, Cases: casesC14pen, Must: []string{"earlier contents of the file are discarded#11", "an error of opening the file is returned#11", "the picture goes to the file#11"}}}},
	{ID: "C20", Oracle: "terminal", Trusted: []string{tb["termbox"], "contract of go-runewidth: some width"},
		Thms: []Thm{
			{Fn: "thm_C20", Group: "terminal", Redir: redirTerm, Cases: casesC20, Must: []string{"a module occupies two cells in its colour#900000", "the border is light on all four sides#32000", "the writer waits for a key#40", "the terminal's error is returned#40"}}}},
	{ID: "C21", Oracle: "standard", Trusted: []string{tb["gg"], tb["scan"], tb["ext"], "contract of os.OpenFile: a file or an error; os.Stat never reports that a file exists as an error"},
		Note: "a transparent background with an arbitrary colour is covered up to symbol size 41, with black above",
		Thms: []Thm{
			{Fn: "thm_C21_width", Group: "standard", Redir: redirStd, Cases: casesOnce, Must: []string{"a block width from 1 to 255 is used", "any other block width means 20"}},
			{Fn: "thm_C21_shape", Group: "standard", Redir: redirGG, Cases: casesBox(3, 2), Must: []string{"a square module fills its block#4", "the circle touches the sides of the block#2", "the figure has the colour of the module#6"}},
			{Fn: "thm_C21_write", Group: "standard", Redir: redirOut, Cases: casesSizes, Must: []string{"the configured encoder is used once#40", "the picture goes to the target#40", "an error of the encoder or the target is reported#40"}},
			{Fn: "thm_C21_file", Group: "standard", Redir: redirOut, Cases: casesSizesBy2, Must: []string{"the picture goes to the file#40", "earlier contents of the file are discarded#40"}},
			{Fn: "thm_C21", Group: "standard", Redir: redirDraw, Cases: casesC21, Hint: hintN, Only: c21Obls,
				Must: []string{"a module is drawn on its own block#900000", "a dark module has the foreground colour, a light one the background colour#900000", "the picture measures n*blockWidth plus the borders#80", "Attribute reports the same numbers#80"}}}},
	{ID: "C22", Oracle: "standard", Trusted: []string{tb["gg"], tb["scan"], tb["ext"]},
		Thms: []Thm{
			{Fn: "thm_C22_overlap", Group: "standard", Redir: redirStd, Cases: casesOnce, Must: []string{"a block that shares a pixel with the logo overlaps it", "a block that overlaps the logo shares a pixel with it"}},
			{Fn: "thm_C22", Group: "standard", Redir: redirDraw, Cases: casesC22, Hint: hintN,
				Must: []string{"a logo that fits is drawn once#80", "the logo is centred#80", "a logo that is too large is left out#80", "exactly the dark modules under the logo are left undrawn#1400000"}},
			{Fn: "thm_C23", Group: "standard", Redir: redirStd, Cases: casesC23, Hint: hintN, Must: []string{"the neighbour mask is the true neighbourhood#470000"}}}},
	{ID: "C23", Oracle: "standard", Trusted: []string{tb["gg"], tb["scan"], tb["ext"]},
		Thms: []Thm{
			{Fn: "thm_C23", Group: "standard", Redir: redirStd, Cases: casesC23, Hint: hintN, Must: []string{"the neighbour mask is the true neighbourhood#470000"}},
			{Fn: "thm_C21", Group: "standard", Redir: redirDraw, Cases: casesC21, Hint: hintN, Only: []string{"the neighbour mask is the true neighbourhood", "the mask of the module is handed to the shape", "the bitmap has the size of the symbol", "the bitmap shows the modules that count as dark", "a module is drawn on its own block", "finder patterns are drawn as such"},
				Must: []string{"a module is drawn on its own block#900000"}}}},
	{ID: "C26", Oracle: "standard", Trusted: []string{tb["scan"], tb["ext"], "contracts of os.Open, image/jpeg.Decode, image/png.Decode, imgkit.Read: a file or picture or an error"},
		Thms: []Thm{
			{Fn: "thm_C26", Group: "standard", Redir: redirOpts, Cases: casesC26, Must: []string{"other settings stay: background colour#41", "other settings stay: borders#41", "a colour keeps the high or the low byte of its components#8"}},
			{Fn: "thm_C26_order", Group: "standard", Redir: redirOpts, Cases: casesOnce, Must: []string{"the options are applied once each, in the order given", "the default is black on white", "a writer without a target is refused"}}}},
}

var c21Obls = []string{"the picture measures n*blockWidth plus the borders", "Attribute reports the same numbers", "the picture of the context is returned", "the background fills the picture before anything is drawn", "the border keeps the background", "nothing else is drawn", "every module is drawn once", "a module is drawn on its own block", "a module fills its block", "a dark module has the foreground colour, a light one the background colour", "finder patterns are drawn as such"}
