package terminal

// Specification vocabulary, interpreted by the verifier.

func v_Bool(name string) bool                      { return false }
func v_Small(name string, bits int) int            { return 0 }
func v_Assume(c bool)                              {}
func v_Assert(c bool, obligation string)           {}
func v_AssertAt(c bool, obligation string, at int) {}
func v_Panics(f func()) bool                       { return false }
func v_Proves(c bool) bool                         { return false }
func v_digits(n int) string                        { return "" }
func v_Log(s string, x interface{})                {}
