package dictionary

import (
	"bytes"
	"strconv"
	"strings"

	sym "github.com/msnoigrs/gosudachi/internal/zzsym"
)

// zzD05System is a system dictionary with five words and two parts of speech.
func zzD05System(utf16 bool) (*zzBuilt, []*zzRow) {
	rows := []*zzRow{zzNewRow("東"), zzNewRow("京"), zzNewRow("東京"), zzNewRow("都"), zzNewRow("x")}
	rows[2].col[6] = "固有名詞"
	rows[4].col[5] = "記号,補助" // a name with a comma in it
	src := strings.Replace(string(zzSource(rows...)), "記号,補助", "記号\\u002c補助", 1)
	d, err := zzBuildSystem([]byte(src), zzMatrix1, utf16)
	if err != nil {
		sym.Fail("an admissible source is accepted")
		sym.Skip()
	}
	return d, rows
}

// zzD05Check loads the user dictionary after others and compares what it says with the source.
func zzD05Check(utf16 bool, sys, user *zzBuilt, rows []*zzRow, lists [][3][]int32, params [3]int) {
	// dictId 1 or 2, after another user dictionary with a part of speech of its own
	other, err := zzBuildUser(sys, zzSource(&zzRow{[NumberOfColumns]string{"他", "1", "2", "3", "他", "他", "a", "b", "c", "d", "e", "ヨ", "正", "*", "A", "*", "*", "*"}}), utf16)
	if err != nil {
		sym.Fail("an admissible source is accepted")
		return
	}
	g := NewGrammar(sys.img, zzHeader, utf16)
	g.posList = append([][]string{}, sys.g.posList...)
	set := NewLexiconSet(sys.lex)
	id := int32(1)
	if sym.Choose("second", 2) == 1 {
		set.Add(other.lex, int32(g.GetPartOfSpeechSize()))
		g.AddPosList(other.g)
		id = 2
	}
	set.Add(user.lex, int32(g.GetPartOfSpeechSize()))
	g.AddPosList(user.g)
	sym.Assert(int(user.lex.Size()) == len(rows), "there are as many words as rows")
	for i, r := range rows {
		wid := id<<28 | int32(i)
		wi := set.GetWordInfo(wid)
		zzCheckPos(g.GetPartOfSpeechString(wi.PosId), r)
		sym.Assert(sym.EqStr(wi.Surface, r.col[4]), "the surface is the source's")
		sym.Assert(sym.EqStr(wi.ReadingForm, zzStr(r.col[11], r.col[4])), "the reading is the source's")
		for k, l := range [][]int32{wi.AUnitSplit, wi.BUnitSplit, wi.WordStructure} {
			var want []int32
			if lists != nil {
				want = lists[i][k]
			}
			sym.Assert(len(l) == len(want), "a unit list has the source's units")
			for j := range l {
				if j < len(want) {
					w := want[j]
					if w>>28 == 1 {
						w = w&0xfffffff | id<<28
					}
					sym.Assert(l[j] == w, "a unit list has the source's units")
				}
			}
		}
	}
}

// ZZD05Pos: parts of speech, one name of which is arbitrary, in user dictionaries.
func ZZD05Pos() {
	utf16 := sym.Choose("encoding", 2) == 1
	sys, srows := zzD05System(utf16)
	rows := []*zzRow{zzNewRow("新"), zzNewRow("語"), zzNewRow("新語")}
	copy(rows[1].col[5:11], srows[[]int{0, 2}[sym.Choose("base", 2)]].col[5:11])
	k := sym.Choose("name", 7)
	if k < 6 {
		if sym.Choose("known", 2) == 1 {
			rows[1].col[5+k] = srows[2].col[5+k]
		} else {
			rows[1].col[5+k] = zzChar("char", []int{1, 3}[sym.Choose("width", 2)])
		}
	}
	if sym.Choose("again", 2) == 1 {
		copy(rows[2].col[5:11], rows[1].col[5:11])
	}
	user, err := zzBuildUser(sys, zzSource(rows...), utf16)
	sym.Assert(err == nil, "an admissible source is accepted")
	if err != nil {
		return
	}
	n := 0
	for i, r := range rows {
		known := false
		for _, s := range append(append([]*zzRow{}, srows[0], srows[2]), rows[:i]...) {
			same := true
			for j := 5; j < 11; j++ {
				same = sym.And(same, sym.EqStr(s.col[j], r.col[j]))
			}
			known = sym.Or(known, same)
		}
		if !known {
			n++
		}
	}
	sym.Assert(user.g.GetPartOfSpeechSize() == n, "a user dictionary introduces exactly the parts of speech the system has not")
	zzD05Check(utf16, sys, user, rows, nil, zzParams)
	sym.Reach("built")
}

// ZZD05Comma: a part of speech with a comma in a name.
func ZZD05Comma() {
	utf16 := sym.Choose("encoding", 2) == 1
	sys, srows := zzD05System(utf16)
	for i, r := range srows {
		zzCheckPos(sys.g.GetPartOfSpeechString(sys.lex.GetWordInfo(int32(i)).PosId), r)
	}
	rows := []*zzRow{zzNewRow("新"), zzNewRow("語")}
	k := 5 + sym.Choose("name", 6)
	c := zzChar("char", 1)
	rows[1].col[k] = c + "$b"
	src := strings.Replace(string(zzSource(rows...)), "$b", "\\u002cb", 1)
	sym.Assume(c[0] != '$')
	rows[1].col[k] = c + ",b"
	user, err := zzBuildUser(sys, []byte(src), utf16)
	sym.Assert(err == nil, "an admissible source is accepted")
	if err != nil {
		return
	}
	zzD05Check(utf16, sys, user, rows, nil, zzParams)
	sym.Reach("built")
}

// ZZD05Refs: arbitrary unit references by number.
func ZZD05Refs() {
	utf16 := sym.Choose("encoding", 2) == 1
	sys, _ := zzD05System(utf16)
	rows := []*zzRow{zzNewRow("新"), zzNewRow("語"), zzNewRow("新語")}
	at := sym.Choose("row", 3)
	k := sym.Choose("column", 3)
	pre := []string{"", "0", "21474836"}[sym.Choose("prefix", 3)]
	s, v := zzDigits("digit", 1+sym.Choose("digits", 2))
	p, _ := strconv.Atoi("0" + pre)
	if len(s) == 2 {
		v += 100 * p
	} else {
		v += 10 * p
	}
	s = pre + s
	u := sym.Choose("user", 2) == 1
	bad := v >= 5
	ref := int32(v)
	if u {
		s = "U" + s
		bad = v >= 3
		ref |= 1 << 28
	}
	lists := make([][3][]int32, 3)
	if sym.Choose("alone", 2) == 1 {
		rows[at].col[15+k] = s
		lists[at][k] = []int32{ref}
	} else {
		rows[at].col[15+k] = "2/" + s + "/U2"
		lists[at][k] = []int32{2, ref, 2 | 1<<28}
	}
	user, err := zzBuildUser(sys, zzSource(rows...), utf16)
	if bad {
		sym.Assert(err != nil, "a reference to no word is refused")
		sym.Reach("refused")
		return
	}
	sym.Assert(err == nil, "a reference to a word is accepted")
	if err != nil {
		return
	}
	zzD05Check(utf16, sys, user, rows, lists, zzParams)
	sym.Reach("built")
}

// ZZD05Describe: units given by the description of a user or system word.
func ZZD05Describe() {
	utf16 := sym.Choose("encoding", 2) == 1
	sys, srows := zzD05System(utf16)
	rows := []*zzRow{zzNewRow("新"), zzNewRow("語"), zzNewRow("新語"), zzNewRow("東京")}
	rows[1].col[7] = "独自"
	// a user entry described like a system entry shadows it
	shadow := sym.Choose("shadow", 2) == 1
	if shadow {
		copy(rows[3].col[5:11], srows[2].col[5:11])
	}
	all := append(append([]*zzRow{}, srows[:4]...), rows...)
	t := all[sym.Choose("described", len(all))]
	desc := append(append([]string{t.col[4]}, t.col[5:11]...), t.col[11])
	f := sym.Choose("name", 10)
	if f < 8 {
		desc[f] = string(sym.Rune("char", 0x4E00, 0x9FFF))
	} else if f == 8 { // the normalized form is no reading
		desc[7] = t.col[12]
	}
	want := int32(-1)
	find := func(rs []*zzRow, flag int32) {
		for i := len(rs) - 1; i >= 0; i-- {
			r := rs[i]
			ok := sym.EqStr(r.col[4], desc[0])
			for j := 0; j < 6; j++ {
				ok = sym.And(ok, sym.EqStr(r.col[5+j], desc[1+j]))
			}
			ok = sym.And(ok, sym.EqStr(r.col[11], desc[7]))
			if ok {
				want = int32(i) | flag
			}
		}
	}
	find(srows, 0)
	find(rows, 1<<28)
	k := sym.Choose("column", 3)
	rows[2].col[15+k] = "U1/" + strings.Join(desc, "\\u002c") + "/1"
	// an entry that is no word of its own may be described as well
	if h := sym.Choose("hide", 3); h > 0 {
		rows[h-1].col[1] = "-1"
	}
	user, err := zzBuildUser(sys, zzSource(rows...), utf16)
	if want < 0 {
		sym.Assert(err != nil, "the description of no word is refused")
		sym.Reach("refused")
		return
	}
	sym.Assert(err == nil, "the description of a word is accepted")
	if err != nil {
		return
	}
	lists := make([][3][]int32, 4)
	lists[2][k] = []int32{1 | 1<<28, want, 1}
	zzD05Check(utf16, sys, user, rows, lists, zzParams)
	sym.Reach("built")
}

// ZZD05Index: user entries are found by headword, the excluded ones are not, and ids, costs and
// dictionary forms are the source's.
func ZZD05Index() {
	utf16 := sym.Choose("encoding", 2) == 1
	sys, _ := zzD05System(utf16)
	rows := []*zzRow{zzNewRow("新"), zzNewRow("語"), zzNewRow("新語")}
	s, v := zzDigits("digit", 3)
	rows[1].col[3] = "-" + s
	rows[1].col[13] = "2"
	hide := sym.Choose("hide", 4)
	if hide < 3 {
		rows[hide].col[1] = "-1"
	}
	user, err := zzBuildUser(sys, zzSource(rows...), utf16)
	sym.Assert(err == nil, "an admissible source is accepted")
	if err != nil {
		return
	}
	for i, r := range rows {
		p := zzParams
		if i == hide {
			p[0] = -1
		}
		if i == 1 {
			p[2] = -v
			zzCheckWord(user, 1, r, p, 2, "新語", [3][]int32{})
		} else {
			zzCheckWord(user, int32(i), r, p, -1, r.col[4], [3][]int32{})
		}
	}
	set := NewLexiconSet(sys.lex)
	set.Add(user.lex, 0)
	text := []byte("新語東京")
	c := sym.Choose("change", len(text))
	text[c] = sym.Byte("byte")
	offset := []int{0, 3, 6}[sym.Choose("offset", 3)]
	found := map[int32]int{}
	for it := set.Lookup(text, offset); it.Next(); {
		id, _ := it.Get()
		found[id]++
	}
	for i, r := range rows {
		h := r.col[0]
		n := 0
		if i != hide && offset+len(h) <= len(text) {
			if sym.EqBytes(text[offset:offset+len(h)], []byte(h)) {
				n = 1
			}
		}
		sym.Assert(found[1<<28|int32(i)] == n, "exactly the indexed entries are found")
	}
	sym.Reach("built")
}

// ZZD05Many: several parts of speech of the system and of the user dictionary, in any order.
func ZZD05Many() {
	utf16 := false
	sys, srows := zzD05System(utf16)
	var rows []*zzRow
	n := 0
	seen := map[int]bool{}
	num, kinds := 5, 4
	if sym.Thorough() {
		num, kinds = 6, 5
	}
	for i := 0; i < num; i++ {
		r := zzNewRow("語" + strconv.Itoa(i))
		k := sym.Choose("pos", kinds)
		switch k {
		case 0:
			copy(r.col[5:11], srows[2].col[5:11])
		default:
			r.col[5+k] = "利用者"
			if k == 2 {
				r.col[5] = "甲"
			}
			if !seen[k] {
				n++
			}
			seen[k] = true
		}
		rows = append(rows, r)
	}
	user, err := zzBuildUser(sys, zzSource(rows...), utf16)
	sym.Assert(err == nil, "an admissible source is accepted")
	if err != nil {
		return
	}
	sym.Assert(user.g.GetPartOfSpeechSize() == n, "a user dictionary introduces exactly the parts of speech the system has not")
	zzD05Check(utf16, sys, user, rows, nil, zzParams)
	sym.Reach("built")
}

// ZZD05Hundreds: hundreds of parts of speech in the system and the user dictionary.
func ZZD05Hundreds() {
	n := []int{126, 254, 300}[sym.Choose("system", 3)]
	var srows []*zzRow
	for i := 0; i < n; i++ {
		r := zzNewRow("語" + strconv.Itoa(i))
		r.col[7] = strconv.Itoa(i)
		srows = append(srows, r)
	}
	sys, err := zzBuildSystem(zzSource(srows...), zzMatrix1, false)
	if err != nil {
		sym.Fail("an admissible source is accepted")
		return
	}
	sym.Assert(sys.g.GetPartOfSpeechSize() == n, "a dictionary lists each part of speech once")
	var rows []*zzRow
	add := []int{1, 4, 140}[sym.Choose("user", 3)]
	for i := 0; i < add; i++ {
		r := zzNewRow("語" + strconv.Itoa(i))
		r.col[8] = strconv.Itoa(i)
		rows = append(rows, r)
	}
	// one with a part of speech of either kind
	last := zzNewRow("新")
	base := []string{"", "1", strconv.Itoa(n/10 - 1)}[sym.Choose("base", 3)]
	digit := sym.String("digit", 1)
	sym.Assume(sym.And(digit[0] >= '0', digit[0] <= '9'))
	own := 0
	if sym.Choose("kind", 2) == 1 {
		last.col[7] = base + digit
	} else {
		last.col[8] = digit
		if add < 10 && int(digit[0]-'0') >= add {
			own = 1
		}
	}
	rows = append(rows, last)
	user, err := zzBuildUser(sys, zzSource(rows...), false)
	sym.Assert(err == nil, "an admissible source is accepted")
	if err != nil {
		return
	}
	g := NewGrammar(sys.img, zzHeader, false)
	set := NewLexiconSet(sys.lex)
	set.Add(user.lex, int32(g.GetPartOfSpeechSize()))
	g.AddPosList(user.g)
	for i, r := range rows {
		zzCheckPos(g.GetPartOfSpeechString(set.GetWordInfo(1<<28|int32(i)).PosId), r)
	}
	for i, r := range srows {
		zzCheckPos(g.GetPartOfSpeechString(set.GetWordInfo(int32(i)).PosId), r)
	}
	sym.Assert(user.g.GetPartOfSpeechSize() == add+own, "a user dictionary introduces exactly the parts of speech the system has not")
	sym.Reach("built")
}

// zzD05Base is a system dictionary with n parts of speech, none of which is known to others.
type zzD05Base struct{ n int }

func (b *zzD05Base) GetPosId(p ...string) int16 {
	if len(p) == 6 && p[0] == "名詞" {
		return 7
	}
	return -1
}

func (b *zzD05Base) GetPartOfSpeechSize() int { return b.n }

// ZZD05Limit: the parts of speech of both dictionaries together have to fit the 15 bits of an id.
func ZZD05Limit() {
	old := 32767 - sym.Choose("own", 3)
	store := NewPosTableUser(&zzD05Base{old})
	c := sym.ByteIn("char", 'a', 'z')
	for i := 0; i < 4; i++ {
		rows := []*zzRow{zzNewRow("新"), zzNewRow("語")}
		rows[1].col[5] = string([]byte{c, byte('0' + i)})
		b := NewDictionaryBuilder(zzHeader, nil, false)
		err := b.BuildLexicon(store, bytes.NewReader(zzSource(rows...)))
		if old+i > 32767 {
			sym.Assert(err != nil, "a part of speech that has no id of its own is refused")
			sym.Reach("refused")
			return
		}
		sym.Assert(err == nil, "an admissible source is accepted")
		sym.Reach("accepted")
	}
}

// ZZD05Numbered: references among a hundred and fifty-seven user and a hundred and forty-five system
// words.
func ZZD05Numbered() {
	const n, sysn = 157, 145
	sys, err := zzBuildSystem(zzSource(zzNumbered(sysn)...), zzMatrix1, false)
	if err != nil {
		sym.Fail("an admissible source is accepted")
		return
	}
	rows := zzNumbered(n)
	at := []int{0, 129, n - 1}[sym.Choose("row", 3)]
	s, v := zzNumber()
	k := sym.Choose("column", 3)
	var want []int32
	bad := false
	if sym.Choose("user", 2) == 1 {
		rows[at].col[15+k] = "128/U" + s
		want = []int32{128, int32(1<<28 | v)}
		bad = v >= n
	} else {
		rows[at].col[15+k] = s + "/U127"
		want = []int32{int32(v), 1<<28 | 127}
		bad = v >= sysn
	}
	user, err := zzBuildUser(sys, zzSource(rows...), false)
	if bad {
		sym.Assert(err != nil, "a reference to no word is refused")
		sym.Reach("refused")
		return
	}
	sym.Assert(err == nil, "a reference to a word is accepted")
	if err != nil {
		return
	}
	wi := user.lex.GetWordInfo(int32(at))
	for i, l := range [][]int32{wi.AUnitSplit, wi.BUnitSplit, wi.WordStructure} {
		if i != k {
			sym.Assert(len(l) == 0, "a unit list has the source's units")
		} else {
			sym.Assert(len(l) == 2 && l[0] == want[0] && l[1] == want[1], "a unit list has the source's units")
		}
	}
	sym.Reach("built")
}
