package qrcode

import "errors"

// C17: the Save protocol. The writer is arbitrary: Write may succeed, fail or panic,
// Close may succeed or fail.

var save_errWrite = errors.New("write")
var save_errClose = errors.New("close")

type saveWriter struct {
	writeFails, writePanics, closeFails bool
	log                                 *[]int
	got                                 *[]Matrix
}

func (w saveWriter) Write(m Matrix) error {
	*w.log = append(*w.log, 1)
	*w.got = append(*w.got, m)
	if w.writePanics {
		panic("writer")
	}
	if w.writeFails {
		return save_errWrite
	}
	return nil
}

func (w saveWriter) Close() error {
	*w.log = append(*w.log, 2)
	if w.closeFails {
		return save_errClose
	}
	return nil
}

func thm_C17(n int) {
	m, c := view_matrix(n)
	q := &QRCode{mat: m}
	for round := 0; round < 2; round++ {
		var log []int
		var got []Matrix
		w := saveWriter{writeFails: v_Bool("writeFails" + v_digits(round)), writePanics: v_Bool("writePanics" + v_digits(round)), closeFails: v_Bool("closeFails" + v_digits(round)), log: &log, got: &got}
		var err error
		p := v_Panics(func() { err = q.Save(w) })
		v_Assert(len(log) == 2, "Write and Close are called exactly once")
		if len(log) != 2 {
			return
		}
		v_Assert(log[0] == 1 && log[1] == 2, "Write comes before Close, also if it fails or panics")
		if w.writePanics {
			v_Assert(p, "a panic of the writer is not swallowed")
		} else {
			v_Assert(!p, "Save does not panic")
			if w.writeFails {
				v_Assert(err == save_errWrite, "the error of Write is returned unchanged")
			} else {
				v_Assert(err == nil, "without an error of Write Save succeeds, whatever Close returns")
			}
		}
		v_Assert(got[0].Width() == n && got[0].Height() == n, "the writer gets the finished matrix")
		for i := 0; i < n; i++ {
			for j := 0; j < n; j++ {
				a, _ := got[0].at(i, j)
				v_AssertAt(a == c[i][j], "the writer gets the finished matrix, module by module", i*n+j)
			}
		}
	}
	v_Assert(q.Save(nil) == nil, "a nil writer is accepted")
}
