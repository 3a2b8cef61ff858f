package qrcode

// C13: the penalty of a symbol.

// pen_matrix: a matrix of n x n modules, each of an arbitrary colour and an arbitrary
// role (the other seven bits). Later modules are introduced first: run counters then
// depend on the modules in the order in which they look at them.
func pen_matrix(n int) (*Matrix, [][]bool) {
	b := make([][]bool, n) // [y][x]
	for y := range b {
		b[y] = make([]bool, n)
	}
	for y := n - 1; y >= 0; y-- {
		for x := n - 1; x >= 0; x-- {
			b[y][x] = v_Bool("dark[" + v_digits(y) + "][" + v_digits(x) + "]")
		}
	}
	m := newMatrix(n, n)
	for x := 0; x < n; x++ {
		for y := 0; y < n; y++ {
			q := 2 * v_Int("role", 0, 127)
			if b[y][x] {
				q++
			}
			m.set(x, y, qrvalue(q))
		}
	}
	return m, b
}

// number of positions at which the pattern (of colours) occurs
func spec_occurrences(line []bool, pat [11]bool) int {
	s := 0
	for i := 0; i+11 <= len(line); i++ {
		hit := true
		for j := range pat {
			if line[i+j] != pat[j] {
				hit = false
			}
		}
		if hit {
			s++
		}
	}
	return s
}

var pen_patterns = [2][11]bool{
	{true, false, true, true, true, false, true, false, false, false, false},
	{false, false, false, false, true, false, true, true, true, false, true},
}

// the same number as an uninterpreted function of the line
func pen_occ(k int, line []bool) int {
	return v_UFInt("occurrences of pattern "+v_digits(k), 0, len(line), line)
}

// contract of kmp on colours: the number of occurrences of the pattern
func sum_kmp(src, pattern []qrvalue, next []int) int {
	line := make([]bool, len(src))
	for i, v := range src {
		line[i] = v == QRValue_DATA_V1
		v_AssertAt(line[i] || v == QRValue_DATA_V0, "kmp is given colours", i)
	}
	v_Assert(len(pattern) == 11, "kmp is given a pattern of rule 3")
	for k := 0; k < 2; k++ {
		same := true
		for j, v := range pattern {
			want := QRValue_DATA_V0
			if pen_patterns[k][j] {
				want = QRValue_DATA_V1
			}
			same = same && v == want
		}
		if same {
			return pen_occ(k, line)
		}
	}
	v_Assert(false, "kmp is given a pattern of rule 3")
	return 0
}

// kmp satisfies its contract, for every line of n modules and both patterns of rule 3
func thm_C13_kmp(n int) {
	b := make([]bool, n)
	q := make([]qrvalue, n)
	for i := range q {
		b[i] = v_Bool("dark[" + v_digits(i) + "]")
		q[i] = QRValue_DATA_V0
		if b[i] {
			q[i] = QRValue_DATA_V1
		}
	}
	for k := 0; k < 2; k++ {
		p := binaryToQRValueSlice("1011101 0000")
		if k == 1 {
			p = binaryToQRValueSlice("0000 1011101")
		}
		v_Assert(kmp(q, p, kmpGetNext(p)) == spec_occurrences(b, pen_patterns[k]), "kmp counts the occurrences of the pattern")
		v_Assert(kmp(q, p, nil) == spec_occurrences(b, pen_patterns[k]), "kmp counts the occurrences of the pattern")
	}
	// the standard's rule counts both patterns
	s := 0
	for i := 0; i+11 <= n; i++ {
		s += spec_finderLike(b[i : i+11])
	}
	v_Assert(s == 40*spec_occurrences(b, pen_patterns[0])+40*spec_occurrences(b, pen_patterns[1]), "rule 3 of a line is 40 per occurrence")
}

func thm_C13_r1(n int) {
	m, b := pen_matrix(n)
	v_Assert(rule1(m) == spec_rule1(b), "rule 1: runs of five or more modules of one colour")
}

func thm_C13_r2(n int) {
	m, b := pen_matrix(n)
	v_Assert(rule2(m) == spec_rule2(b), "rule 2: blocks of 2x2 modules of one colour")
}

func thm_C13_r3(n int) {
	m, b := pen_matrix(n)
	s := 0
	for _, l := range spec_lines(b) {
		s += 40*pen_occ(0, l) + 40*pen_occ(1, l)
	}
	v_Assert(rule3(m) == s, "rule 3: finder-like patterns")
}

func thm_C13_r4(n int) {
	m, b := pen_matrix(n)
	lo, hi := spec_rule4(b)
	r := rule4(m)
	v_Assert(r == lo || r == hi, "rule 4: proportion of dark modules")
}

var pen_given *Matrix

func sum_rule(k string, mat *Matrix) int {
	v_Assert(mat == pen_given, "the rules look at the matrix that is scored")
	return v_UFInt("rule"+k, 0, 1<<24, nil)
}

func sum_rule1(mat *Matrix) (score int) { return sum_rule("1", mat) }
func sum_rule2(mat *Matrix) int         { return sum_rule("2", mat) }
func sum_rule3(mat *Matrix) (score int) { return sum_rule("3", mat) }
func sum_rule4(mat *Matrix) int         { return sum_rule("4", mat) }

// the penalty is the sum of the four rules
func thm_C13_sum(n int) {
	pen_given = newMatrix(n, n)
	v_Assert(evaluation(pen_given) == sum_rule("1", pen_given)+sum_rule("2", pen_given)+sum_rule("3", pen_given)+sum_rule("4", pen_given), "the penalty is the sum of the four rules")
}
