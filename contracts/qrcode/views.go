package qrcode

// C16: the views of a matrix agree.

func view_matrix(n int) (*Matrix, [][]qrvalue) {
	c := make([][]qrvalue, n)
	m := newMatrix(n, n)
	for x := range c {
		c[x] = make([]qrvalue, n)
		for y := range c[x] {
			c[x][y] = qrvalue(v_Cell("c", x, y))
			m.set(x, y, c[x][y])
		}
	}
	return m, c
}

// every view of an arbitrary matrix of the given size
func thm_C16(n int) {
	m, c := view_matrix(n)
	v_Assert(m.Width() == n && m.Height() == n, "Width and Height are the size")
	b := m.Bitmap()
	v_Assert(len(b) == n, "Bitmap has one row per y")
	for y := 0; y < n; y++ {
		v_Assert(len(b[y]) == n, "a Bitmap row has one element per x")
		for x := 0; x < n; x++ {
			v_AssertAt(b[y][x] == c[x][y].qrbool(), "Bitmap[y][x] is the colour of module (x, y)", y*n+x)
			v_AssertAt(c[x][y].qrbool() == (uint8(c[x][y])%2 == 1), "the colour is the lowest bit of a module", y*n+x)
			v_AssertAt(c[x][y].IsSet() == c[x][y].qrbool() && c[x][y].Type() == c[x][y].qrtype() && uint8(c[x][y].Type()) == uint8(c[x][y])-uint8(c[x][y])%2, "IsSet and Type are colour and type", y*n+x)
		}
	}
	k := 0
	m.Iterate(IterDirection_ROW, func(x, y int, s QRValue) {
		v_AssertAt(x == k%n && y == k/n, "row iteration visits each module once, row by row", k)
		v_AssertAt(x == k%n && y == k/n && s == c[x][y], "row iteration passes the module at (x, y)", k)
		k++
	})
	v_Assert(k == n*n, "row iteration visits all modules")
	k = 0
	m.Iterate(IterDirection_COLUMN, func(x, y int, s QRValue) {
		v_AssertAt(y == k%n && x == k/n, "column iteration visits each module once, column by column", k)
		v_AssertAt(y == k%n && x == k/n && s == c[x][y], "column iteration passes the module at (x, y)", k)
		k++
	})
	v_Assert(k == n*n, "column iteration visits all modules")
	for i := 0; i < n; i++ {
		r, l := m.Row(i), m.Col(i)
		v_Assert(len(r) == n && len(l) == n, "Row and Col have one element per module")
		for j := 0; j < n; j++ {
			v_AssertAt(r[j] == c[j][i], "Row(y)[x] is module (x, y)", i*n+j)
			v_AssertAt(l[j] == c[i][j], "Col(x)[y] is module (x, y)", i*n+j)
			a, err := m.at(i, j)
			v_AssertAt(err == nil && a == c[i][j], "at(x, y) is module (x, y)", i*n+j)
		}
	}
	// a copy is equal and independent
	d := m.Copy()
	v_Assert(d.Width() == n && d.Height() == n, "a copy has the same size")
	for i := 0; i < n; i++ {
		for j := 0; j < n; j++ {
			a, _ := d.at(i, j)
			v_AssertAt(a == c[i][j], "a copy is equal to its original", i*n+j)
			v_AssertAt(d.set(i, j, qrvalue(v_Cell("d", i, j))) == nil, "a module of the matrix can be set", i*n+j)
		}
	}
	for i := 0; i < n; i++ {
		for j := 0; j < n; j++ {
			a, _ := m.at(i, j)
			v_AssertAt(a == c[i][j], "changing a copy leaves the original as it was", i*n+j)
			a, _ = d.at(i, j)
			v_AssertAt(a == qrvalue(v_Cell("d", i, j)), "set changes exactly the module it names", i*n+j)
		}
	}
	// Bitmap is a snapshot
	b[0][0] = !b[0][0]
	a, _ := m.at(0, 0)
	v_Assert(a == c[0][0], "changing a bitmap leaves the matrix as it was")
}

// accesses out of range, for every pair of integers
func thm_C16_range(n int) {
	m, c := view_matrix(n)
	x, y := v_Int("x", -1000000, 1000000), v_Int("y", -1000000, 1000000)
	v_Assume(x < 0 || x >= n || y < 0 || y >= n)
	_, err := m.at(x, y)
	v_Assert(err != nil, "reading out of range is an error")
	v_Assert(m.set(x, y, QRValue_DATA_V1) != nil, "writing out of range is an error")
	for i := 0; i < n; i++ {
		for j := 0; j < n; j++ {
			a, err := m.at(i, j)
			v_AssertAt(err == nil && a == c[i][j], "writing out of range changes nothing", i*n+j)
		}
	}
	if x < 0 || x >= n {
		v_Assert(m.Col(x) == nil, "no column out of range")
	}
	if y < 0 || y >= n {
		v_Assert(m.Row(y) == nil, "no row out of range")
	}
}
