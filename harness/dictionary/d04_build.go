package dictionary

import (
	"bytes"
	"strconv"
	"strings"

	sym "github.com/msnoigrs/gosudachi/internal/zzsym"
)

// zzD04Check compares all of the plain rows, except the asked one, with their words.
func zzD04Check(d *zzBuilt, rows []*zzRow, except int) {
	sym.Assert(int(d.lex.Size()) == len(rows), "there are as many words as rows")
	for i, r := range rows {
		if i != except {
			zzCheckWord(d, int32(i), r, zzParams, -1, r.col[4], [3][]int32{})
			zzCheckPos(d.g.GetPartOfSpeechString(d.lex.GetWordInfo(int32(i)).PosId), r)
		}
	}
}

func zzD04Rows() []*zzRow {
	rows := []*zzRow{zzNewRow("あ"), zzNewRow("東京"), zzNewRow("x")}
	rows[0].col[6] = "固有名詞"
	rows[2].col[11] = "x" // reading as the surface
	rows[2].col[12] = ""
	return rows
}

// ZZD04Strings: arbitrary characters in the surface, reading, normalized form and part of speech.
func ZZD04Strings() {
	utf16 := sym.Choose("encoding", 2) == 1
	rows := zzD04Rows()
	at := sym.Choose("row", 3)
	r := rows[at]
	w := 1 + sym.Choose("width", 4)
	field := []int{4, 11, 12, 5, 10}[sym.Choose("field", 5)]
	s := zzChar("char", w)
	switch sym.Choose("shape", 4) {
	case 3:
		if w > 1 {
			sym.Skip()
		}
		r.col[field] = ""
		if field == 10 && sym.Choose("more", 2) == 1 {
			r.col[9] = s
			r.col[8] = ""
		}
	case 0:
		r.col[field] = s
	case 1:
		r.col[field] = "前" + s + "b"
	case 2:
		r.col[field] = s + zzChar("char", 1+sym.Choose("width", 4))
	}
	d, err := zzBuildSystem(zzSource(rows...), zzMatrix1, utf16)
	sym.Assert(err == nil, "an admissible source is accepted")
	if err != nil {
		return
	}
	zzD04Check(d, rows, -1)
	sym.Reach("built")
}

// ZZD04Numbers: arbitrary ids and costs, within and outside the range.
func ZZD04Numbers() {
	utf16 := sym.Choose("encoding", 2) == 1
	rows := zzD04Rows()
	at := sym.Choose("row", 3)
	r := rows[at]
	p := zzParams
	k := sym.Choose("column", 3)
	s, v := zzDigits("digit", 1+sym.Choose("digits", 6))
	sign := sym.Choose("sign", 2)
	if sign == 1 {
		s, v = "-"+s, -v
	}
	r.col[1+k] = s
	p[k] = v
	d, err := zzBuildSystem(zzSource(rows...), zzMatrix1, utf16)
	if v < -32768 || v > 32767 {
		sym.Assert(err != nil, "a number out of range is refused")
		sym.Reach("refused")
		return
	}
	sym.Assert(err == nil, "a number in range is accepted")
	if err != nil {
		return
	}
	zzD04Check(d, rows, at)
	zzCheckWord(d, int32(at), r, p, -1, r.col[4], [3][]int32{})
	sym.Reach("built")
}

// ZZD04Refs: arbitrary dictionary form ids and unit ids.
func ZZD04Refs() {
	utf16 := sym.Choose("encoding", 2) == 1
	rows := zzD04Rows()
	at := sym.Choose("row", 3)
	r := rows[at]
	pre := []string{"", "0", "21474836", "4294967"}[sym.Choose("prefix", 4)]
	q, _ := strconv.Atoi("0" + pre)
	s, v := zzDigits("digit", 1+sym.Choose("digits", 2))
	for range s {
		q *= 10
	}
	v += q
	s = pre + s
	n := len(s)
	bad := v >= 3
	dicId, dicForm := int32(-1), r.col[4]
	var lists [3][]int32
	switch k := sym.Choose("column", 4); k {
	case 0:
		r.col[13] = s
		if !bad {
			dicId = int32(v)
		}
	default:
		r.col[14+k] = []string{s, "U" + s, "0/" + s, s + "/U1/2"}[sym.Choose("shape", 4)]
		if !bad {
			switch {
			case r.col[14+k][0] == 'U' || len(r.col[14+k]) == n:
				lists[k-1] = []int32{int32(v)}
			case strings.HasSuffix(r.col[14+k], "/U1/2"):
				lists[k-1] = []int32{int32(v), 1, 2}
			default:
				lists[k-1] = []int32{0, int32(v)}
			}
		}
	}
	d, err := zzBuildSystem(zzSource(rows...), zzMatrix1, utf16)
	if bad {
		sym.Assert(err != nil, "a reference to no word is refused")
		sym.Reach("refused")
		return
	}
	sym.Assert(err == nil, "a reference to a word is accepted")
	if err != nil {
		return
	}
	if dicId >= 0 {
		v = sym.Concrete(v)
		dicForm = rows[v].col[4]
	}
	zzD04Check(d, rows, at)
	zzCheckWord(d, int32(at), r, zzParams, dicId, dicForm, lists)
	sym.Reach("built")
}

// ZZD04Describe: units given by the description of a word, one name of which is arbitrary.
func ZZD04Describe() {
	utf16 := sym.Choose("encoding", 2) == 1
	rows := zzD04Rows()
	rows = append(rows, zzNewRow("東京"), zzNewRow("東京"), zzNewRow("複合"))
	rows[3].col[6] = "固有名詞"
	rows[4].col[11] = "アズマ"
	if sym.Choose("without reading", 2) == 1 {
		rows[0] = zzNewRow("東京")
		rows[0].col[11] = ""
	}
	desc := []string{"東京", "名詞", "普通名詞", "一般", "*", "*", "*", "ヨミ"}
	alt := []string{"x", "名詞", "固有名詞", "一般", "*", "*", "*", "アズマ"}
	f := sym.Choose("name", 8)
	switch sym.Choose("shape", 4) {
	case 3: // the normalized form is no reading
		if f < 7 {
			sym.Skip()
		}
		desc[f] = rows[0].col[12]
	case 0: // any other name
		desc[f] = zzChar("char", []int{1, 3}[sym.Choose("width", 2)])
		if f == 0 || f > 2 {
			sym.Assume(desc[f][0] != '/')
		}
		sym.Assume(desc[f][0] != '/')
		if len(desc[f]) == 1 {
			sym.Assume(desc[f][0] != 'U')
			sym.Assume(desc[f][0] < '0' || desc[f][0] > '9')
		}
	case 1:
		desc[f] = alt[f]
	}
	want := int32(-1)
	for i := len(rows) - 1; i >= 0; i-- {
		r := rows[i]
		ok := sym.EqStr(r.col[4], desc[0])
		for j := 0; j < 6; j++ {
			ok = sym.And(ok, sym.EqStr(r.col[5+j], desc[1+j]))
		}
		ok = sym.And(ok, sym.EqStr(zzStr(r.col[11], r.col[4]), desc[7]))
		if ok {
			want = int32(i)
		}
	}
	k := sym.Choose("column", 3)
	rows[5].col[15+k] = "1/" + strings.Join(desc, "\\u002c")
	d, err := zzBuildSystem(zzSource(rows...), zzMatrix1, utf16)
	if want < 0 {
		sym.Assert(err != nil, "the description of no word is refused")
		sym.Reach("refused")
		return
	}
	sym.Assert(err == nil, "the description of a word is accepted")
	if err != nil {
		return
	}
	var lists [3][]int32
	lists[k] = []int32{1, want}
	zzD04Check(d, rows, 5)
	zzCheckWord(d, 5, rows[5], zzParams, -1, rows[5].col[4], lists)
	sym.Reach("built")
}

// ZZD04Index: the built index finds exactly the indexed entries.
func ZZD04Index() {
	utf16 := sym.Choose("encoding", 2) == 1
	heads := []string{"東", "東京", "東京都", "a", "東", "ab", "京"}
	var rows []*zzRow
	hide := sym.Choose("hide", len(heads)+1)
	for i, h := range heads {
		r := zzNewRow(h)
		r.col[4] = "表" + strconv.Itoa(i)
		if i == hide {
			r.col[1] = "-1"
		}
		rows = append(rows, r)
	}
	d, err := zzBuildSystem(zzSource(rows...), zzMatrix1, utf16)
	sym.Assert(err == nil, "an admissible source is accepted")
	if err != nil {
		return
	}
	text := []byte([]string{"東京都", "abab", "東東京", "京東"}[sym.Choose("text", 4)])
	p := sym.Choose("change", len(text)+1)
	if p < len(text) {
		text[p] = sym.Byte("byte")
	}
	offset := sym.Choose("offset", 3)
	var ids, ends []int
	it := d.lex.Lookup(text, offset)
	for it.Next() {
		id, end := it.Get()
		ids = append(ids, int(id))
		ends = append(ends, end)
		if len(ids) > 20 {
			sym.Fail("a lookup ends")
		}
	}
	for i, h := range heads {
		n := 0
		for j := range ids {
			if ids[j] == i {
				n++
				sym.Assert(ends[j] == offset+len(h), "a found word ends where its headword ends")
			}
		}
		m := i != hide && offset+len(h) <= len(text)
		if m {
			m = sym.EqBytes(text[offset:offset+len(h)], []byte(h))
		}
		want := 0
		if m {
			want = 1
		}
		sym.Assert(n == want, "exactly the indexed entries are found")
	}
	sym.Reach("looked up")
}

// ZZD04Malformed: rows with another number of columns, or with numbers that are none, are refused.
func ZZD04Malformed() {
	utf16 := sym.Choose("encoding", 2) == 1
	rows := zzD04Rows()
	at := sym.Choose("row", 3)
	src := string(zzSource(rows[:at]...))
	r := rows[at]
	bad := true
	switch sym.Choose("what", 4) {
	case 0:
		n := sym.Choose("columns", 21)
		cols := append([]string{}, r.col[:]...)
		for len(cols) < n {
			cols = append(cols, "*")
		}
		src += strings.Join(cols[:n], ",") + "\n"
		bad = n != 18
	case 1:
		b := sym.Byte("byte")
		sym.Assume(b != '\n')
		sym.Assume(b != '\r')
		k := []int{1, 2, 3, 13}[sym.Choose("column", 4)]
		digit := sym.And(b >= '0', b <= '9')
		s := []string{string([]byte{b}), "1" + string([]byte{b}), string([]byte{b}) + "1"}[sym.Choose("shape", 3)]
		r.col[k] = s
		src += string(zzSource(r))
		if digit {
			sym.Skip()
		}
		if k == 13 {
			if sym.And(b == '*', len(s) == 1) {
				bad = false
			}
		}
		if len(s) == 2 && s[1] == '1' {
			if sym.Or(b == '+', b == '-') {
				sym.Skip()
			}
		}
	case 2:
		k := 15 + sym.Choose("column", 3)
		r.col[k] = []string{"", "9", "-1", "U", "U3", "U-1", "0/", "/0", "0//1", "a", "東京", "東京\\u002c名詞", "0 ", "2147483648", "4294967296", "268435456", "U268435456"}[sym.Choose("unit", 17)]
		src += string(zzSource(r))
	case 3:
		k := []int{1, 2, 3, 13}[sym.Choose("column", 4)]
		r.col[k] = []string{"", " 1", "1 ", "0x1", "1.0", "32768", "-32769", "65536", "99999999999999999999"}[sym.Choose("number", 9)]
		src += string(zzSource(r))
	}
	src += string(zzSource(rows[at+1:]...))
	d, err := zzBuildSystem([]byte(src), zzMatrix1, utf16)
	if bad {
		sym.Assert(err != nil, "a malformed row is refused")
		sym.Reach("refused")
		return
	}
	sym.Assert(err == nil, "a well-formed row is accepted")
	if err == nil {
		sym.Assert(d.lex.Size() == 3, "there are as many words as rows")
	}
}

// ZZD04Long: strings of boundary lengths in every column.
func ZZD04Long() {
	utf16 := sym.Choose("encoding", 2) == 1
	rows := zzD04Rows()
	r := rows[1]
	field := []int{0, 4, 11, 12, 5, 7}[sym.Choose("field", 6)]
	lens := []int{127, 128, 255, 256, 10922, 10923, 10924, 20000, 32767, 32768, 40000}
	n := lens[sym.Choose("units", len(lens))]
	filler := []string{"a", "東"}[sym.Choose("filler", 2)]
	s := strings.Repeat(filler, n-1) + string(sym.Rune("last", 'v', 'z'))
	r.col[field] = s
	if field == 0 && n > 300 {
		r.col[1] = "-1" // not indexed
	}
	bad := len(s) > 32767
	if utf16 && field != 0 {
		bad = n > 32767
	}
	d, err := zzBuildSystem(zzSource(rows...), zzMatrix1, utf16)
	if bad {
		sym.Assert(err != nil, "a field that is too long is refused")
		sym.Reach("refused")
		return
	}
	sym.Assert(err == nil, "a field of admissible length is accepted")
	if err != nil {
		return
	}
	if r.col[1] == "-1" {
		zzD04Check(d, rows, 1)
		zzCheckWord(d, 1, r, [3]int{-1, 2, 3}, -1, r.col[4], [3][]int32{})
	} else {
		zzD04Check(d, rows, -1)
	}
	sym.Reach("built")
}

// ZZD04Many: many units, many homographs.
func ZZD04Many() {
	utf16 := sym.Choose("encoding", 2) == 1
	rows := zzD04Rows()
	switch sym.Choose("what", 2) {
	case 0:
		n := []int{126, 127, 128, 129, 255, 256}[sym.Choose("units", 6)]
		k := sym.Choose("column", 3)
		s, v := zzDigits("digit", 1)
		sym.Assume(v < 3)
		rows[1].col[15+k] = strings.Repeat("1/", n-1) + s
		d, err := zzBuildSystem(zzSource(rows...), zzMatrix1, utf16)
		sym.Assert(n <= 127 || err != nil, "too many units are refused")
		sym.Assert(n > 127 || err == nil, "admissibly many units are accepted")
		if err != nil || n > 127 {
			sym.Reach("refused")
			return
		}
		var lists [3][]int32
		for i := 0; i < n-1; i++ {
			lists[k] = append(lists[k], 1)
		}
		lists[k] = append(lists[k], int32(v))
		zzD04Check(d, rows, 1)
		zzCheckWord(d, 1, rows[1], zzParams, -1, rows[1].col[4], lists)
	case 1:
		n := []int{127, 128, 255, 256, 257}[sym.Choose("homographs", 5)]
		for i := 0; i < n; i++ {
			rows = append(rows, zzNewRow("同"))
		}
		d, err := zzBuildSystem(zzSource(rows...), zzMatrix1, utf16)
		if n > 255 {
			sym.Assert(err != nil, "too many entries for one headword are refused")
			sym.Reach("refused")
			return
		}
		sym.Assert(err == nil, "admissibly many entries for one headword are accepted")
		if err != nil {
			return
		}
		b := []byte("同")
		p := sym.Choose("change", 3)
		c := b[p]
		b[p] = sym.Byte("byte")
		same := b[p] == c
		it := d.lex.Lookup(b, 0)
		got := 0
		for it.Next() {
			id, end := it.Get()
			if same {
				sym.Assert(int(id) == 3+got && end == 3, "every entry is found under its headword")
			}
			got++
		}
		if same {
			sym.Assert(got == n, "every entry is found under its headword")
		}
	}
	sym.Reach("built")
}

// ZZD04Signs: signed numbers; the left id -1 alone keeps a word out of the index.
func ZZD04Signs() {
	utf16 := sym.Choose("encoding", 2) == 1
	rows := zzD04Rows()
	r := rows[1]
	p := zzParams
	s, v := zzDigits("digit", 1+sym.Choose("digits", 2))
	if sym.Choose("sign", 2) == 1 {
		s, v = "-"+s, -v
	} else {
		s = "+" + s
	}
	k := []int{1, 2, 3, 13}[sym.Choose("column", 4)]
	r.col[k] = s
	d, err := zzBuildSystem(zzSource(rows...), zzMatrix1, utf16)
	dicId, dicForm := int32(-1), r.col[4]
	if k == 13 {
		if sym.Or(v < -1, v >= len(rows)) {
			sym.Assert(err != nil, "a reference to no word is refused")
			sym.Reach("refused")
			return
		}
		v = sym.Concrete(v)
		dicId = int32(v)
		if v >= 0 {
			dicForm = rows[v].col[4]
		}
	} else {
		p[k-1] = v
	}
	sym.Assert(err == nil, "a number in range is accepted")
	if err != nil {
		return
	}
	zzD04Check(d, rows, 1)
	zzCheckWord(d, 1, r, p, dicId, dicForm, [3][]int32{})
	if k == 1 && len(s) == 3 && s[1] == '0' {
		return // -01
	}
	it := d.lex.Lookup([]byte("東京"), 0)
	found := false
	for it.Next() {
		id, _ := it.Get()
		found = found || id == 1
	}
	sym.Assert(found == sym.Not(sym.And(k == 1, v == -1)), "exactly the words with the left id -1 are not indexed")
	sym.Reach("looked up")
}

// ZZD04Modes: a word that is a smallest unit has no smaller ones.
func ZZD04Modes() {
	utf16 := sym.Choose("encoding", 2) == 1
	rows := zzD04Rows()
	r := rows[sym.Choose("row", 3)]
	mode := sym.Byte("mode")
	for _, c := range ",\\\r\n" {
		sym.Assume(mode != byte(c))
	}
	r.col[14] = string([]byte{mode})
	a, b, st := sym.Choose("A", 2), sym.Choose("B", 2), sym.Choose("structure", 2)
	for k, x := range []int{a, b, st} {
		if x == 1 {
			r.col[15+k] = []string{"0/2", "2", "1/1/0"}[k]
		}
	}
	_, err := zzBuildSystem(zzSource(rows...), zzMatrix1, utf16)
	sym.Assert((err != nil) == sym.And(mode == 'A', a+b > 0), "exactly the units of a smallest unit are refused")
	if err != nil {
		sym.Reach("refused")
	}
}

// ZZD04Describe2: two descriptions, each of which names any of words that differ in one name only.
func ZZD04Describe2() {
	utf16 := sym.Choose("encoding", 2) == 1
	rows := []*zzRow{zzNewRow("東京")}
	c := string(sym.Rune("char", 0x4E00, 0x9FFF))
	for _, k := range []int{4, 5, 6, 7, 8, 9, 10, 11} {
		r := zzNewRow("東京")
		r.col[k] = c
		rows = append(rows, r)
	}
	p, q := sym.Choose("first", len(rows)), sym.Choose("second", len(rows))
	if p == q {
		sym.Skip()
	}
	desc := func(r *zzRow) string {
		return strings.Join(append(append([]string{r.col[4]}, r.col[5:11]...), r.col[11]), "\\u002c")
	}
	x := zzNewRow("複合")
	x.col[15] = desc(rows[p]) + "/" + desc(rows[q])
	y := zzNewRow("複合語")
	y.col[17] = desc(rows[q]) + "/0"
	rows = append(rows, x, y)
	d, err := zzBuildSystem(zzSource(rows...), zzMatrix1, utf16)
	sym.Assert(err == nil, "the description of a word is accepted")
	if err != nil {
		return
	}
	for i, want := range [][3][]int32{{{int32(p), int32(q)}, nil, nil}, {nil, nil, {int32(q), 0}}} {
		wi := d.lex.GetWordInfo(int32(len(rows) - 2 + i))
		for k, l := range [][]int32{wi.AUnitSplit, wi.BUnitSplit, wi.WordStructure} {
			sym.Assert(len(l) == len(want[k]), "a unit list has the source's units")
			for j := range l {
				if j < len(want[k]) {
					sym.Assert(l[j] == want[k][j], "a unit list has the source's units")
				}
			}
		}
	}
	sym.Reach("built")
}

// ZZD04Limit: parts of speech whose ids do not fit 15 bits are refused.
func ZZD04Limit() {
	store := NewPosTable()
	have := 32768 - sym.Choose("left", 3)
	for i := 0; i < have; i++ {
		store.GetPosId("既", strconv.Itoa(i), "*", "*", "*", "*")
	}
	c := sym.ByteIn("char", 'a', 'z')
	for i := 0; i < 4; i++ {
		r := zzNewRow("新")
		r.col[5] = string([]byte{c, byte('0' + i)})
		b := NewDictionaryBuilder(zzHeader, nil, false)
		err := b.BuildLexicon(store, bytes.NewReader(zzSource(r)))
		if have+i > 32767 {
			sym.Assert(err != nil, "a part of speech that has no id of its own is refused")
			sym.Reach("refused")
			return
		}
		sym.Assert(err == nil, "an admissible source is accepted")
		sym.Reach("accepted")
	}
}

// ZZD04Numbered: references among a hundred and fifty-seven words.
func ZZD04Numbered() {
	const n = 157
	utf16 := sym.Choose("encoding", 2) == 1
	rows := zzNumbered(n)
	at := []int{0, 129, n - 1}[sym.Choose("row", 3)]
	r := rows[at]
	s, v := zzNumber()
	var lists [3][]int32
	dicId, dicForm := int32(-1), r.col[4]
	k := sym.Choose("column", 4)
	if k == 0 {
		r.col[13] = s
	} else if sym.Choose("user", 2) == 1 {
		r.col[14+k] = "128/U" + s
		lists[k-1] = []int32{128, int32(v)}
	} else {
		r.col[14+k] = s + "/U127"
		lists[k-1] = []int32{int32(v), 127}
	}
	d, err := zzBuildSystem(zzSource(rows...), zzMatrix1, utf16)
	if v >= n {
		sym.Assert(err != nil, "a reference to no word is refused")
		sym.Reach("refused")
		return
	}
	sym.Assert(err == nil, "a reference to a word is accepted")
	if err != nil {
		return
	}
	if k == 0 {
		v = sym.Concrete(v)
		dicId, dicForm = int32(v), rows[v].col[4]
	}
	sym.Assert(int(d.lex.Size()) == n, "there are as many words as rows")
	params := zzParams
	if r.col[1] == "-1" {
		params[0] = -1
	}
	zzCheckWord(d, int32(at), r, params, dicId, dicForm, lists)
	sym.Reach("built")
}
