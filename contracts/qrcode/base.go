package qrcode

// Specification vocabulary. The v_* functions are interpreted by the verifier
// (symbolic inputs, proof obligations); spec_* functions restate the QR Code
// standard (ISO/IEC 18004) and never call the code under verification.

import "github.com/yeqown/reedsolomon/binary"

func v_Bool(name string) bool                                       { return false }
func v_Byte(name string) byte                                       { return 0 }
func v_Uint16(name string) uint16                                   { return 0 }
func v_Rune(name string) rune                                       { return 0 }
func v_Small(name string, bits int) int                             { return 0 }
func v_Int(name string, lo, hi int) int                             { return lo }
func v_IntSplit(name string, lo, hi int) int                        { return lo }
func v_Force(x int) int                                             { return x }
func v_Assume(c bool)                                               {}
func v_Inv(c bool)                                                  {}
func v_Assert(c bool, obligation string)                            {}
func v_AssertAt(c bool, obligation string, at int)                  {}
func v_Binary(name string, n int) *binary.Binary                    { return nil }
func v_BinaryEq(a, b *binary.Binary) bool                           { return false }
func v_UFBits(name string, n int, in *binary.Binary) *binary.Binary { return nil }
func v_UFInt(name string, lo, hi int, in []bool) int                { return 0 }
func v_Panics(f func()) bool                                        { return false }
func v_Log(s string, x interface{})                                 {}
func v_NoRaces()                                                    {}
func v_AnyOrder(on bool)                                            {}
func v_Rec(args ...int)                                             {}
func v_RecN() int                                                   { return 0 }
func v_RecAt(i, k int) int                                          { return 0 }
func v_Cell(name string, i, j int) uint8                            { return 0 }
func v_Text(name string, n, kind int) string                        { return "" }
func v_TextAt(name string, kind, i int) byte                        { return 0 }
func v_SJIS(s string) string                                        { return "" }
func v_UFApp(name string, lo, hi int, v byte) int                   { return 0 }
func v_BinaryOpaque(name string, n int) *binary.Binary              { return nil }
func v_AbsText(name string, n, runes int) string                    { return "" }
func v_AnyText(name string, need int, class []int, gen func(kind int) rune) string {
	return ""
}
func v_SJISRune(s string) string { return "" }
