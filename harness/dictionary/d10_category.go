package dictionary

import (
	"strings"

	sym "github.com/msnoigrs/gosudachi/internal/zzsym"
)

var zzD10Names = []string{"DEFAULT", "SPACE", "KANJI", "SYMBOL", "NUMERIC", "ALPHA", "HIRAGANA", "KATAKANA", "KANJINUMERIC", "GREEK", "CYRILLIC", "USER1", "USER2", "USER3", "USER4", "NOOOVBOW"}
var zzD10Types = []uint32{DEFAULT, SPACE, KANJI, SYMBOL, NUMERIC, ALPHA, HIRAGANA, KATAKANA, KANJINUMERIC, GREEK, CYRILLIC, USER1, USER2, USER3, USER4, NOOOVBOW}

func zzD10Read(src string) (*CharacterCategory, error) {
	cc := NewCharacterCategory()
	err := cc.ReadCharacterDefinition(strings.NewReader(src))
	return cc, err
}

// zzHex is an arbitrary number of n hexadecimal digits and its value.
func zzHex(name string, n int) (string, int) {
	b := make([]byte, n)
	v := 0
	for i := range b {
		d := sym.Int(name, 0, 15)
		style := sym.Choose("case", 2)
		if style == 0 {
			b[i] = "0123456789abcdef"[d]
		} else {
			b[i] = "0123456789ABCDEF"[d]
		}
		v = v*16 + d
	}
	return string(b), v
}

// ZZD10Union: up to three lines with arbitrary bounds, any character.
func ZZD10Union() {
	n := sym.Choose("lines", 4)
	prefixes := []string{"", "30", "1F60"}
	pv := []int{0, 0x30, 0x1F60}
	var lows, highs [3]int
	var cats [3]uint32
	src := ""
	k := sym.Choose("prefix", 3)
	if n == 3 && k != 1 && !sym.Thorough() {
		sym.Skip()
	}
	for i := 0; i < n; i++ {
		s, v := zzHex("low", 1)
		lows[i] = pv[k]<<4 | v
		src += "0x" + prefixes[k] + s
		highs[i] = lows[i]
		if sym.Choose("range", 2) == 1 {
			s, v := zzHex("high", 1)
			highs[i] = pv[k]<<4 | v
			src += "..0x" + prefixes[k] + s
		}
		c := i * 3
		cats[i] = zzD10Types[c]
		src += " " + zzD10Names[c]
		if i == 1 {
			cats[i] |= KANJI | NOOOVBOW
			src += "\tNOOOVBOW  KANJI"
		}
		src += "\n"
	}
	cc, err := zzD10Read(src)
	bad := false
	for i := 0; i < n; i++ {
		bad = sym.Or(bad, lows[i] > highs[i])
	}
	if bad {
		sym.Assert(err != nil, "a range that ends before it begins is refused")
		sym.Reach("refused")
		return
	}
	sym.Assert(err == nil, "a well-formed definition is accepted")
	if err != nil {
		return
	}
	q := sym.Rune("char", -1, 0x10FFFF)
	got := cc.GetCategoryTypes(q)
	want := uint32(0)
	for i := 0; i < n; i++ {
		in := sym.And(lows[i] <= int(q), int(q) <= highs[i])
		want |= uint32(sym.Ite(in, int(cats[i]), 0))
	}
	want = uint32(sym.Ite(want == 0, int(DEFAULT), int(want)))
	sym.Assert(got == want, "a character has the union of the categories of the lines containing it")
	sym.Reach("read")
}

// ZZD10Numbers: code points of every length.
func ZZD10Numbers() {
	digits := "0012f6Ab"
	n := sym.Choose("digits", 9)
	num := []byte(digits[8-n:])
	if n > 0 {
		num[sym.Choose("at", n)] = sym.Byte("digit")
	}
	for _, c := range num { // these end the number
		for _, e := range []byte{' ', '\t', '\n', '\v', '\f', '\r', '.', 0x85, 0xA0} {
			sym.Assume(c != e)
		}
	}
	ok := n > 0
	v := 0
	for _, c := range num {
		d := sym.Ite(sym.And(c >= '0', c <= '9'), int(c)-'0', sym.Ite(sym.And(c >= 'a', c <= 'f'), int(c)-'a'+10, sym.Ite(sym.And(c >= 'A', c <= 'F'), int(c)-'A'+10, -1)))
		ok = sym.And(ok, d >= 0)
		v = v*16 + d
	}
	role := sym.Choose("role", 3)
	src := ""
	switch role {
	case 0:
		src = "0x" + string(num) + " KANJI\n"
	case 1:
		src = "0x0..0x" + string(num) + " KANJI"
	case 2:
		src = "0x" + string(num) + "..0x7FFFFFFF KANJI\r\n"
	}
	cc, err := zzD10Read(src)
	ok = sym.And(ok, v <= 0x7FFFFFFF)
	if !ok {
		sym.Assert(err != nil, "what is no code point is refused")
		sym.Reach("refused")
		return
	}
	sym.Assert(err == nil, "a hexadecimal code point is accepted")
	if err != nil {
		return
	}
	for d := -1; d <= 1; d++ {
		in := role == 0 && d == 0 || role == 1 && d <= 0 || role == 2 && d >= 0
		x := v + d
		if x < 0 || x > 0x7FFFFFFF {
			continue
		}
		want := DEFAULT
		if in {
			want = KANJI
		}
		sym.Assert(cc.GetCategoryTypes(rune(x)) == want, "a line defines exactly its code points")
	}
	sym.Reach("read")
}

// ZZD10Names: the names of the categories, one byte of a name arbitrary.
func ZZD10Names() {
	k := sym.Choose("name", len(zzD10Names))
	name := []byte(zzD10Names[k])
	at := sym.Choose("at", len(name)+1)
	if at < len(name) {
		name[at] = sym.Byte("byte")
		for _, e := range []byte{' ', '\t', '\n', '\v', '\f', '\r', 0x85, 0xA0} {
			sym.Assume(name[at] != e)
		}
	}
	want := uint32(0)
	known := false
	for i, n := range zzD10Names {
		if sym.EqBytes(name, []byte(n)) {
			want = zzD10Types[i]
			known = true
		}
	}
	if name[0] == '#' { // a comment
		known = true
		want = 0
	}
	src := ""
	first := sym.Choose("first", 3)
	switch first {
	case 0:
		src = "0x40 " + string(name)
	case 1:
		src = "0x40 GREEK " + string(name) + "\n"
		want |= GREEK
	case 2:
		src = "0x40 GREEK #" + string(name) + " " + string(name) + "\n"
		want = GREEK
		known = true
	}
	cc, err := zzD10Read(src)
	if !known {
		sym.Assert(err != nil, "an unknown category is refused")
		sym.Reach("refused")
		return
	}
	sym.Assert(err == nil, "a known category is accepted")
	if err != nil {
		return
	}
	if want == 0 {
		want = DEFAULT
	}
	sym.Assert(cc.GetCategoryTypes('@') == want, "a category is the one named")
	sym.Assert(cc.GetCategoryTypes('A') == DEFAULT, "a line defines exactly its code points")
	sym.Reach("read")
}

// ZZD10Lines: comments, blank lines and every way to end a line.
func ZZD10Lines() {
	end := []string{"\n", "\r\n"}[sym.Choose("end", 2)]
	extra := []string{"", "#" + string(sym.Bytes("comment", 2)), " ", "\t \t", "# 0x61 GREEK", "DEFAULT 0 1 0", "SPACE 0 1 0 # 0x61"}[sym.Choose("extra", 7)]
	for i := 0; i < len(extra); i++ {
		sym.Assume(extra[i] != '\n')
	}
	at := sym.Choose("at", 3)
	lines := []string{"0x0061 ALPHA", "0x61..0x63\tSYMBOL KANJI\t# 0x64"}
	var src []string
	for i := 0; i <= 2; i++ {
		if i == at {
			src = append(src, extra)
		}
		if i < 2 {
			src = append(src, lines[i])
		}
	}
	s := strings.Join(src, end)
	if sym.Choose("final", 2) == 1 {
		s += end
	}
	cc, err := zzD10Read(s)
	sym.Assert(err == nil, "comments and blank lines are accepted")
	if err != nil {
		return
	}
	q := sym.Rune("char", 0, 0x7F)
	want := int(DEFAULT)
	want = sym.Ite(sym.And(q >= 0x61, q <= 0x63), int(SYMBOL|KANJI), want)
	want = sym.Ite(q == 0x61, int(SYMBOL|KANJI|ALPHA), want)
	sym.Assert(int(cc.GetCategoryTypes(q)) == want, "comments and blank lines are ignored")
	sym.Reach("read")
}

// ZZD10Malformed: malformed lines are refused.
func ZZD10Malformed() {
	srcs := []string{"0x61", "0x61..0x62", "0x61..0x62..0x63 ALPHA", "0x61.. ALPHA", "0x61..x62 ALPHA", "0x61..0062 ALPHA", "0x61..6263 ALPHA",
		"0x ALPHA", "0x-1 ALPHA", "0x+1 ALPHA", "0x0..0x-1 ALPHA", "0x6_1 ALPHA", "0x61.0x62 ALPHA", "0x61...0x62 ALPHA", "0x61-0x62 ALPHA", "0x62..0x61 ALPHA",
		"0x80000000 ALPHA", "0xFFFFFFFF ALPHA", "0x100000061 ALPHA", "0x80000000..0x61 ALPHA", "0xFFFFFF61..0x61 ALPHA", "0x61 alpha", "0x61 ALPHA,KANJI", "0x61 KANJI ALPHABET"}
	src := srcs[sym.Choose("source", len(srcs))]
	switch sym.Choose("where", 3) {
	case 0:
		src += "\n"
	case 1:
		src = "0x63 GREEK\n" + src
	case 2:
		src = src + "\n0x63 GREEK\n"
	}
	_, err := zzD10Read(src)
	sym.Assert(err != nil, "a malformed line is refused")
	sym.Reach("refused")
}

// ZZD10Sets: two or three lines with arbitrary bounds whose categories include one another or are
// the same.
func ZZD10Sets() {
	names := []string{"KANJI", "KANJI USER1", "USER1"}
	types := []uint32{KANJI, KANJI | USER1, USER1}
	n := 2
	if sym.Thorough() {
		n = 2 + sym.Choose("more", 2)
	}
	var lows, highs [3]int
	var cats [3]uint32
	src := ""
	for i := 0; i < n; i++ {
		k := sym.Choose("set", 3)
		s, v := zzHex("low", 1)
		lows[i] = 0x300 | v
		src += "0x30" + s
		highs[i] = lows[i]
		if sym.Choose("range", 2) == 1 {
			s, v := zzHex("high", 1)
			highs[i] = 0x300 | v
			src += "..0x30" + s
			sym.Assume(highs[i] >= lows[i])
		}
		src += " " + names[k] + "\n"
		cats[i] = types[k]
	}
	cc, err := zzD10Read(src)
	sym.Assert(err == nil, "a well-formed definition is accepted")
	if err != nil {
		return
	}
	q := sym.Rune("char", 0x2F0, 0x31F)
	want := 0
	for i := 0; i < n; i++ {
		in := sym.And(int(q) >= lows[i], int(q) <= highs[i])
		want |= sym.Ite(in, int(cats[i]), 0)
	}
	want = sym.Ite(want == 0, int(DEFAULT), want)
	sym.Assert(cc.GetCategoryTypes(q) == uint32(want), "a character has the categories of all lines that contain it")
	sym.Reach("checked")
}
