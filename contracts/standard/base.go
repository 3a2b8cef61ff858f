package standard

// Specification vocabulary, interpreted by the verifier.

func v_Bool(name string) bool                      { return false }
func v_Byte(name string) byte                      { return 0 }
func v_Uint16(name string) uint16                  { return 0 }
func v_Int(name string, lo, hi int) int            { return lo }
func v_IntSplit(name string, lo, hi int) int       { return lo }
func v_Small(name string, bits int) int            { return 0 }
func v_Assume(c bool)                              {}
func v_Assert(c bool, obligation string)           {}
func v_AssertAt(c bool, obligation string, at int) {}
func v_Panics(f func()) bool                       { return false }
func v_Proves(c bool) bool                         { return false }
func v_digits(n int) string                        { return "" }
func v_Log(s string, x interface{})                {}
func v_Find(f float64, cand []float64) int         { return 0 }

// Contracts of github.com/pkg/errors and errors.Is.
type std_error struct {
	msg   string
	cause error
}

func (e *std_error) Error() string { return e.msg }

func sum_errNew(msg string) error { return &std_error{msg, nil} }
func sum_errWrap(err error, msg string) error {
	if err == nil {
		return nil
	}
	return &std_error{msg, err}
}
func sum_errIs(err, target error) bool {
	for {
		if err == target {
			return true
		}
		w, ok := err.(*std_error)
		if !ok {
			return false
		}
		err = w.cause
	}
}
