package qrcode

// Symbolic values of the library's types for the contracts of the writers.

func v_Byte(name string) byte { return 0 }
func v_digits(n int) string   { return "" }

// V_Matrix is an arbitrary n x n matrix; c[x][y] tells whether module (x, y) is dark.
func V_Matrix(name string, n int) (Matrix, [][]bool) {
	c := make([][]bool, n)
	m := newMatrix(n, n)
	for x := range c {
		c[x] = make([]bool, n)
		for y := range c[x] {
			v := v_Byte(name + v_digits(x*n+y))
			m.set(x, y, qrvalue(v))
			c[x][y] = v&1 == 1
		}
	}
	return *m, c
}

// V_MatrixV also returns the values of the modules.
func V_MatrixV(name string, n int) (Matrix, [][]bool, [][]QRValue) {
	m, c := V_Matrix(name, n)
	v := make([][]QRValue, n)
	for x := range v {
		v[x] = make([]QRValue, n)
		for y := range v[x] {
			v[x][y] = qrvalue(v_Byte(name + v_digits(x*n+y)))
		}
	}
	return m, c, v
}
