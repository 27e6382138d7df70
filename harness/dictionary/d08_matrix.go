package dictionary

import (
	"bytes"

	sym "github.com/msnoigrs/gosudachi/internal/zzsym"
)

// zzD08Write writes a grammar with no part of speech and the matrix of the source.
func zzD08Write(src string) (*Grammar, error) {
	f := &zzFile{}
	f.Write([]byte{9, 9, 9})
	b := NewDictionaryBuilder(3, nil, false)
	if err := b.WriteGrammar(NewPosTable(), bytes.NewReader([]byte(src)), f); err != nil {
		return nil, err
	}
	n := len(f.b)
	f.Write([]byte{0xEE, 0xEE, 0xEE, 0xEE}) // what follows is not the matrix
	g := NewGrammar(f.b, 3, false)
	sym.Assert(g.StorageSize == n-3, "the grammar is as large as what was written")
	return g, nil
}

var zzD08Shapes = [][2]int{{1, 1}, {1, 3}, {3, 1}, {2, 3}, {3, 2}, {3, 3}}

// ZZD08Source: two rows with arbitrary ids and costs in matrices of several shapes.
func ZZD08Source() {
	shape := zzD08Shapes[sym.Choose("shape", len(zzD08Shapes))]
	n := 1
	if sym.Choose("rows", 2) == 1 {
		n = 2
	}
	src := string([]byte{'0' + byte(shape[0]), ' ', '0' + byte(shape[1])}) + "\n"
	var rows [2][3]int
	style := sym.Choose("style", 6)
	for i := 0; i < n; i++ {
		sep := []string{" ", "\t", "  "}[style%3]
		l, lv := zzDigits("left", 1)
		r, rv := zzDigits("right", 1)
		c, cv := zzDigits("cost", 2-i)
		if style >= 3 {
			c = "-" + c
			cv = -cv
		}
		src += l + sep + r + sep + c
		src += []string{"\n", "\r\n", "\n\n \n"}[style%3]
		rows[i] = [3]int{lv, rv, cv}
	}
	bad := false
	for _, r := range rows[:n] {
		bad = sym.Or(bad, r[0] >= shape[0])
		bad = sym.Or(bad, r[1] >= shape[1])
	}
	g, err := zzD08Write(src)
	if bad {
		sym.Assert(err != nil, "a row outside the declared size is refused")
		sym.Reach("refused")
		return
	}
	sym.Assert(err == nil, "a row inside the declared size is accepted")
	if err != nil {
		return
	}
	for l := 0; l < shape[0]; l++ {
		for r := 0; r < shape[1]; r++ {
			want := 0
			for _, row := range rows[:n] {
				want = sym.Ite(sym.And(row[0] == l, row[1] == r), row[2], want)
			}
			sym.Assert(int(g.GetConnectCost(int16(l), int16(r))) == want, "a cell has the cost of the source, or 0")
		}
	}
	sym.Reach("read")
}

// ZZD08Numbers: costs and sizes at and past the limits of a cell.
func ZZD08Numbers() {
	d, v := zzDigits("digit", 2)
	p := sym.Choose("prefix", 6)
	s := []string{"0", "327", "-327", "655", "+1", "-0"}[p] + d
	v += []int{0, 32700, 0, 65500, 100, 0}[p]
	if p == 2 {
		v = -(32700 + v)
	}
	if p == 5 {
		v = -v
	}
	g, err := zzD08Write("2 3\n1 2 " + s + "\n0 0 7\n")
	if sym.Or(v > 32767, v < -32768) {
		sym.Assert(err != nil, "a cost that no cell can hold is refused")
		sym.Reach("refused")
		return
	}
	sym.Assert(err == nil, "a cost that a cell can hold is accepted")
	if err != nil {
		return
	}
	sym.Assert(int(g.GetConnectCost(1, 2)) == v, "a cell has the cost of the source")
	sym.Assert(g.GetConnectCost(0, 0) == 7, "a cell has the cost of the source")
	sym.Assert(g.GetConnectCost(1, 0) == 0 && g.GetConnectCost(0, 1) == 0, "other cells cost 0")
	sym.Reach("read")
}

// ZZD08Malformed: malformed sizes and rows are refused.
func ZZD08Malformed() {
	srcs := []string{"", "\n", "3\n0 0 1\n", "a 3\n", "3 b\n", "-1 3\n", "3 -1\n", "-2 -2\n0 0 1\n", "40000 1\n", "1 40000\n",
		"2 2\n-1 1 5\n", "2 2\n1 -1 5\n", "3 3\n-3 1 5\n", "2 2\n2 0 5\n", "2 2\n0 2 5\n", "2 3\n0 3 5\n", "2 3\n2 0 5\n", "3 2\n0 2 5\n",
		"2 2\nx 0 5\n", "2 2\n0 x 5\n", "2 2\n0 0 x\n", "2 2\n0 0 1\n5 5 5"}
	src := srcs[sym.Choose("source", len(srcs))]
	_, err := zzD08Write(src)
	sym.Assert(err != nil, "a malformed matrix source is refused")
	sym.Reach("refused")
}

// ZZD08Edit: arbitrary matrices, edited up to three times.
func ZZD08Edit() {
	shape := zzD08Shapes[sym.Choose("shape", len(zzD08Shapes))]
	L, R := shape[0], shape[1]
	head := 2
	img := make([]byte, head+6+2*L*R+5)
	for i := range img {
		img[i] = byte(i*37 + 11)
	}
	img[head], img[head+1] = 0, 0 // no part of speech
	img[head+2], img[head+3] = byte(L), 0
	img[head+4], img[head+5] = byte(R), 0
	at := (L*R - 1) * sym.Choose("arbitrary", 2)
	want := make([]int, L*R)
	for i := range want {
		o := head + 6 + 2*i
		if i == at {
			v := sym.Int16("cell")
			img[o], img[o+1] = byte(uint16(v)), byte(uint16(v)>>8)
			want[i] = int(v)
		} else {
			want[i] = int(int16(uint16(img[o]) | uint16(img[o+1])<<8))
		}
	}
	before := append([]byte{}, img...)
	g := NewGrammar(img, head, false)
	check := func() {
		for l := 0; l < L; l++ {
			for r := 0; r < R; r++ {
				sym.Assert(int(g.GetConnectCost(int16(l), int16(r))) == want[l+L*r], "a cell has the cost last given")
			}
		}
	}
	check()
	n := 1 + sym.Choose("edits", 2)
	if sym.Thorough() && L*R <= 6 {
		n += sym.Choose("more", 2)
	}
	for k := 0; k < n; k++ {
		l, r := sym.Int("left", 0, L-1), sym.Int("right", 0, R-1)
		c := sym.Int16("cost")
		g.SetConnectCost(int16(l), int16(r), c)
		for i := range want {
			want[i] = sym.Ite(l+L*r == i, int(c), want[i])
		}
	}
	check()
	sym.Assert(sym.EqBytes(img, before), "editing leaves the dictionary alone")
	// a second grammar over the same dictionary is not affected
	g2 := NewGrammar(img, head, false)
	for i := range want {
		_, v := bufferToInt16(before, head+6+2*i)
		sym.Assert(g2.GetConnectCost(int16(i%L), int16(i/L)) == v, "editing affects no other user of the dictionary")
	}
	out := &bytes.Buffer{}
	m, err := g.WriteConnMatrixTo(out)
	sym.Assert(err == nil, "the matrix can be written")
	b := out.Bytes()
	sym.Assert(m == len(b), "the number of bytes written is reported")
	sym.Assert(len(b) == 4+2*L*R, "the matrix is written whole")
	g = NewGrammar(append([]byte{0, 0}, b...), 0, false)
	check()
	sym.Reach("edited")
}

// ZZD08Large: matrices with more cells than 16 bits can count.
func ZZD08Large() {
	shape := [][2]int{{300, 250}, {250, 300}, {32767, 2}, {2, 32767}}[sym.Choose("shape", 4)]
	L, R := shape[0], shape[1]
	img := make([]byte, 6+2*L*R)
	img[2], img[3] = byte(L), byte(L>>8)
	img[4], img[5] = byte(R), byte(R>>8)
	g := NewGrammar(img, 0, false)
	sym.Assert(g.StorageSize == len(img), "the size of a large matrix is told")
	cells := [][2]int{{0, 0}, {L - 1, 0}, {0, R - 1}, {L - 1, R - 1}, {L / 2, R / 2}, {1, R / 2}}
	a := cells[sym.Choose("cell", len(cells))]
	c, d := sym.Int16("cost"), sym.Int16("new")
	o := 6 + 2*(a[0]+L*a[1])
	img[o], img[o+1] = byte(uint16(c)), byte(uint16(c)>>8)
	sym.Assert(g.GetConnectCost(int16(a[0]), int16(a[1])) == c, "a cell of a large matrix has its cost")
	e := cells[sym.Choose("edit", len(cells))]
	g.SetConnectCost(int16(e[0]), int16(e[1]), d)
	for _, x := range cells {
		want := int16(0)
		if x == a {
			want = c
		}
		if x == e {
			want = d
		}
		sym.Assert(g.GetConnectCost(int16(x[0]), int16(x[1])) == want, "an edit changes its cell only")
	}
	sym.Assert(img[o] == byte(uint16(c)), "editing leaves the dictionary alone")
	sym.Reach("edited")
}

// ZZD08Sizes: sizes and ids with leading zeros are decimal numbers.
func ZZD08Sizes() {
	d := byte('0' + sym.Choose("tens", 2))
	e := byte('0' + []int{1, 2, 7, 8, 9, 0}[sym.Choose("ones", 6)])
	n := int(d-'0')*10 + int(e-'0')
	side := sym.Choose("side", 2)
	size := string([]byte{d, e}) + " 02"
	if side == 1 {
		size = "02 " + string([]byte{d, e})
	}
	i := byte('0' + sym.Choose("id tens", 2))
	j := sym.ByteIn("id ones", '0', '9')
	id := int(i-'0')*10 + int(j-'0')
	row := string([]byte{i, j}) + " 01 012"
	if side == 1 {
		row = "01 " + string([]byte{i, j}) + " 012"
	}
	g, err := zzD08Write(size + "\n" + row + "\n")
	if id >= n {
		sym.Assert(err != nil, "a row outside the declared size is refused")
		sym.Reach("refused")
		return
	}
	sym.Assert(err == nil, "a row inside the declared size is accepted")
	if err != nil {
		return
	}
	for k := 0; k < n; k++ {
		want := sym.Ite(k == id, 12, 0)
		got := 0
		if side == 0 {
			got = int(g.GetConnectCost(int16(k), 1))
		} else {
			got = int(g.GetConnectCost(1, int16(k)))
		}
		sym.Assert(got == want, "a cell has the cost of the source, or 0")
	}
	sym.Reach("read")
}
