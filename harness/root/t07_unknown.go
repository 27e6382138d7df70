package gosudachi

import (
	"strings"

	"github.com/msnoigrs/gosudachi/dictionary"
	sym "github.com/msnoigrs/gosudachi/internal/zzsym"
)

// category bits of the harness
const (
	zzT07Kanji = 1 << iota
	zzT07Num
	zzT07Digit
	zzT07Kata
	zzT07Hira
	zzT07Other
	zzT07NoBow
)

const zzT07Chars = "0x3041..0x309F HIRAGANA\n0x30A1..0x30FF KATAKANA\n0x30FC HIRAGANA\n0x30A1 NOOOVBOW\n0x4E00..0x9FFF KANJI\n0x4E00 KANJINUMERIC\n0x3007 KANJINUMERIC\n0x0030..0x0039 NUMERIC\n"

func zzT07Char() (rune, int) {
	switch sym.Choose("class", 8) {
	case 0:
		return sym.Rune("kanji", '丁', '丨'), zzT07Kanji
	case 1:
		return '一', zzT07Kanji | zzT07Num
	case 2:
		return '〇', zzT07Num
	case 3:
		return sym.Rune("digit", '0', '9'), zzT07Digit
	case 4:
		return sym.Rune("katakana", 'ア', 'ン'), zzT07Kata
	case 5:
		return 'ー', zzT07Kata | zzT07Hira
	case 6:
		return sym.Rune("hiragana", 'あ', 'ん'), zzT07Hira
	}
	return sym.Rune("other", 'é', 'ü'), zzT07Other
}

type zzT07Cat struct {
	bit           int
	name          string
	invoke, group bool
	max           int
	defs          []zzT07Def
	fields        string
}

type zzT07Def struct {
	left, right int
	cost        int
	pos         []string
}

// zzT07Cats makes the category definitions: every flag and maximal length arbitrary. The
// definitions of one category are arbitrary too.
func zzT07Cats(n int) ([]*zzT07Cat, *MeCabOovProviderPlugin, *dictionary.Grammar) {
	cats := []*zzT07Cat{
		{bit: zzT07Kanji, name: "KANJI", defs: []zzT07Def{{1, 2, 100, zzNounPos}, {3, 4, -32768, zzNumPos}}},
		{bit: zzT07Num, name: "KANJINUMERIC", defs: []zzT07Def{{5, 6, 32767, zzNumPos}}},
		{bit: zzT07Digit, name: "NUMERIC", defs: []zzT07Def{{7, 8, 9000, zzNumPos}, {7, 8, 9000, zzSymPos}}},
		{bit: zzT07Kata, name: "KATAKANA", defs: []zzT07Def{{9, 10, 11, zzNounPos}}},
		{bit: zzT07Hira, name: "HIRAGANA"}, // no definitions
		{bit: zzT07Other, name: "DEFAULT", defs: []zzT07Def{{11, 12, 13, zzSymPos}}},
		{bit: zzT07NoBow, name: "NOOOVBOW", defs: []zzT07Def{{13, 14, 15, zzSymPos}}},
	}
	var chardef, unkdef []byte
	chardef = append(chardef, "# comment\n\n0x0020 SPACE\n"...)
	for i, c := range cats {
		inv := sym.ByteIn("invoke", '0', '1')
		grp := sym.ByteIn("group", '0', '1')
		l := sym.ByteIn("length", '0', byte('0'+n+1))
		c.invoke, c.group, c.max = inv != '0', grp != '0', int(l-'0')
		chardef = append(chardef, c.name...)
		chardef = append(chardef, []string{" ", "\t"}[i%2]...)
		chardef = append(chardef, inv, ' ', grp, ' ', ' ', l)
		chardef = append(chardef, []string{"\n", " # remark\n"}[i%2]...)
	}
	// the lines of the categories alternate
	for k := 0; k < 2; k++ {
		for _, c := range cats {
			if k < len(c.defs) {
				d := c.defs[k]
				unkdef = append(unkdef, c.name...)
				unkdef = append(unkdef, ","+zzItoa(d.left)+","+zzItoa(d.right)+","+zzItoa(d.cost)+","+strings.Join(d.pos, ",")+"\n"...)
			}
		}
	}
	g := zzGrammar([][]string{zzNumPos, zzNounPos, zzSymPos}, 1, 1, nil, zzT07Chars)
	cd := sym.TempFile("char.def", chardef)
	ud := sym.TempFile("unk.def", unkdef)
	p := NewMeCabOovProviderPlugin(&MeCabOovProviderPluginConfig{CharDef: &cd, UnkDef: &ud})
	zzOk(p.SetUp(g), "the category-driven provider can be set up")
	return cats, p, g
}

func zzItoa(n int) string {
	if n < 0 {
		return "-" + zzItoa(-n)
	}
	s := string([]byte{byte('0' + n%10)})
	if n >= 10 {
		return zzItoa(n/10) + s
	}
	return s
}

func zzSamePos(a, b []string) bool {
	return strings.Join(a, ",") == strings.Join(b, ",")
}

// zzT07Check: the nodes offered at character i of rs are exactly those of the definitions.
func zzT07Check(cats []*zzT07Cat, p *MeCabOovProviderPlugin, g *dictionary.Grammar, rs []rune, bits []int, i int, other bool) {
	input := zzInput(string(rs), g)
	at := make([]int, len(rs)+1)
	for k, r := range rs {
		at[k+1] = at[k] + len(string(r))
	}
	// the runs of characters sharing a category with the first
	end := 0
	for s := 0; s <= i; s = end {
		end = s + 1
		for end < len(rs) && bits[end]&bits[s] != 0 {
			end++
		}
	}
	nodes, err := GetOOV(p, input, at[i], other)
	if err != nil {
		sym.Fail("unknown words can be found")
		return
	}
	total := 0
	for _, c := range cats {
		on := sym.And(bits[i]&c.bit != 0, sym.Or(c.invoke, !other))
		for _, d := range c.defs {
			for e := i + 1; e <= len(rs); e++ {
				found := 0
				for _, n := range nodes {
					if n.Begin == at[i] && n.End == at[e] && int(n.leftId) == d.left && int(n.rightId) == d.right && n.GetPathCost() == d.cost {
						wi := n.GetWordInfo()
						if !zzSamePos(g.GetPartOfSpeechString(wi.PosId), d.pos) {
							continue
						}
						found++
						s := string(rs[i:e])
						sym.Assert(n.IsOOV(), "an offered word is an unknown word")
						sym.Assert(int(wi.HeadwordLength) == len(s), "an unknown word has the length of its text")
						sym.Assert(sym.And(sym.EqStr(wi.Surface, s), sym.And(sym.EqStr(wi.NormalizedForm, s), sym.EqStr(wi.DictionaryForm, s))), "an unknown word has its text as its forms")
						sym.Reach("offered")
					}
				}
				total += found
				size := e - i
				want := sym.And(on, sym.And(e == end, c.group))
				want = sym.Or(want, sym.And(on, sym.And(size <= c.max, sym.Or(e < end, sym.And(e == end, !c.group)))))
				sym.Assert(found <= 1, "no word is offered twice")
				sym.Assert((found == 1) == want, "exactly the words of the definitions are offered")
			}
		}
	}
	sym.Assert(total == len(nodes), "every offered word comes from a definition")
}

// ZZT07Category: the category-driven provider, for any text, flags and lengths.
func ZZT07Category() {
	n := 4
	if sym.Thorough() {
		n = 5
	}
	size := 1 + sym.Choose("size", n)
	rs := make([]rune, size)
	bits := make([]int, size)
	for k := range rs {
		rs[k], bits[k] = zzT07Char()
	}
	cats, p, g := zzT07Cats(n)
	zzT07Check(cats, p, g, rs, bits, sym.Choose("at", size), sym.Bool("other"))
}

// ZZT07Long: runs longer than a word can be.
func ZZT07Long() {
	cats, p, g := zzT07Cats(2)
	size := []int{10922, 10923}[sym.Choose("size", 2)]
	if size == 10922 {
		sym.Reach("longest")
	}
	input := zzInput(strings.Repeat("丁", size)+"0", g)
	other := sym.Bool("other")
	nodes, err := GetOOV(p, input, 0, other)
	if err != nil {
		sym.Fail("unknown words can be found")
		return
	}
	c := cats[0]
	for _, d := range c.defs {
		for e := 1; e <= 4; e++ {
			length := 3 * e
			if e == 4 {
				length = 3 * size
			}
			found := 0
			for _, n := range nodes {
				if n.Begin == 0 && n.End == length && int(n.leftId) == d.left {
					found++
				}
			}
			want := e <= c.max
			if e == 4 {
				want = sym.And(c.group, length <= 32767)
			}
			sym.Assert((found == 1) == sym.And(want, sym.Or(c.invoke, !other)), "exactly the words that fit are offered")
		}
	}
	for _, n := range nodes {
		sym.Assert(n.End > 0 && (n.End <= 9 || n.End == 3*size), "an unknown word spans what it covers")
	}
}

// ZZT07Single: the single-character provider.
func ZZT07Single() {
	g := zzGrammar([][]string{zzNumPos, zzNounPos, zzSymPos}, 1, 1, nil, zzT07Chars)
	pos := [][]string{zzNumPos, zzNounPos, zzSymPos}[sym.Choose("pos", 3)]
	l, r, c := sym.Int16("left"), sym.Int16("right"), sym.Int16("cost")
	p := NewSimpleOovProviderPlugin(&SimpleOovProviderPluginConfig{OovPos: &pos, LeftId: &l, RightId: &r, Cost: &c})
	zzOk(p.SetUp(g), "the single-character provider can be set up")
	size := 1 + sym.Choose("size", 3)
	rs := make([]rune, size)
	for k := range rs {
		rs[k] = zzRune(1 + sym.Choose("width", 4))
	}
	input := zzInput(string(rs), g)
	i := sym.Choose("at", size)
	b, e := len(string(rs[:i])), len(string(rs[:i+1]))
	none, err := GetOOV(p, input, b, true)
	sym.Assert(err == nil && len(none) == 0, "nothing is offered beside other words")
	nodes, err := GetOOV(p, input, b, false)
	sym.Assert(err == nil && len(nodes) == 1, "one word is offered where there is none")
	if len(nodes) != 1 {
		return
	}
	n := nodes[0]
	wi := n.GetWordInfo()
	sym.Assert(n.Begin == b && n.End == e && int(wi.HeadwordLength) == e-b, "the word is the character")
	sym.Assert(sym.And(n.leftId == l, sym.And(n.rightId == r, n.cost == c)), "the word has the configured ids and cost")
	sym.Assert(zzSamePos(g.GetPartOfSpeechString(wi.PosId), pos), "the word has the configured part of speech")
	s := string(rs[i : i+1])
	sym.Assert(n.IsOOV() && sym.EqStr(wi.Surface, s) && sym.EqStr(wi.NormalizedForm, s) && sym.EqStr(wi.DictionaryForm, s), "the word has the character as its forms")
	sym.Reach("single")
}

var zzT07Names = []string{"DEFAULT", "SPACE", "KANJI", "SYMBOL", "NUMERIC", "ALPHA", "HIRAGANA", "KATAKANA", "KANJINUMERIC", "GREEK", "CYRILLIC", "USER1", "USER2", "USER3", "USER4", "NOOOVBOW"}

// ZZT07Every: every category, alone and together with another one.
func ZZT07Every() {
	k := sym.Choose("category", len(zzT07Names))
	j := (k + 1 + sym.Choose("other category", 3)*7) % len(zzT07Names)
	chars := "0x4E00..0x4E0F " + zzT07Names[k] + "\n0x4E10..0x4E1F " + zzT07Names[k] + " " + zzT07Names[j] + "\n0x4E20..0x4E2F " + zzT07Names[j] + "\n"
	g := zzGrammar([][]string{zzNumPos, zzNounPos, zzSymPos}, 1, 1, nil, chars)
	var cats []*zzT07Cat
	chardef, unkdef := "", ""
	for i, n := range zzT07Names {
		c := &zzT07Cat{bit: 1 << uint(i), name: n, invoke: i%2 == 0, group: i%3 != 0, max: i % 4, defs: []zzT07Def{{i, 100 + i, 1000 - i, zzNounPos}}}
		f := []string{"0", "1"}
		if i == k {
			b := sym.ByteIn("invoke", '0', '1')
			c.invoke = b != '0'
			chardef += n + " " + string([]byte{b})
			b = sym.ByteIn("group", '0', '1')
			c.group = b != '0'
			chardef += " " + string([]byte{b}) + " " + zzItoa(c.max) + "\n"
		} else {
			inv, grp := 0, 0
			if c.invoke {
				inv = 1
			}
			if c.group {
				grp = 1
			}
			chardef += n + " " + f[inv] + " " + f[grp] + " " + zzItoa(c.max) + "\n"
		}
		unkdef += n + "," + zzItoa(i) + "," + zzItoa(100+i) + "," + zzItoa(1000-i) + "," + strings.Join(zzNounPos, ",") + "\n"
		cats = append(cats, c)
	}
	cd, ud := sym.TempFile("char.def", []byte(chardef)), sym.TempFile("unk.def", []byte(unkdef))
	p := NewMeCabOovProviderPlugin(&MeCabOovProviderPluginConfig{CharDef: &cd, UnkDef: &ud})
	zzOk(p.SetUp(g), "the category-driven provider can be set up")
	rs := make([]rune, 3)
	bits := make([]int, 3)
	for i := range rs {
		c := sym.Choose("class", 3)
		rs[i] = rune(0x4E00 + 16*c)
		if i == 1 {
			rs[i] = sym.Rune("char", rune(0x4E00+16*c), rune(0x4E0F+16*c))
		}
		bits[i] = []int{1 << uint(k), 1<<uint(k) | 1<<uint(j), 1 << uint(j)}[c]
	}
	zzT07Check(cats, p, g, rs, bits, sym.Choose("at", 3), sym.Bool("other"))
}

// ZZT07Widths: runs of characters of different widths.
func ZZT07Widths() {
	n := 3
	if sym.Thorough() {
		n = 4
	}
	size := 1 + sym.Choose("size", n)
	rs := make([]rune, size)
	bits := make([]int, size)
	for k := range rs {
		c := sym.Choose("class", 6)
		rs[k] = []rune{'w', 'é', '㋿', '😀', 'ア', 'ー'}[c]
		bits[k] = []int{zzT07Other, zzT07Other, zzT07Other, zzT07Other, zzT07Kata, zzT07Kata | zzT07Hira}[c]
	}
	cats, p, g := zzT07Cats(n)
	zzT07Check(cats, p, g, rs, bits, sym.Choose("at", size), sym.Bool("other"))
}

// ZZT07Far: large lengths.
func ZZT07Far() {
	d := sym.ByteIn("digit", '0', '9')
	tens := sym.Choose("tens", 3)
	inv, grp := sym.ByteIn("invoke", '0', '1'), sym.ByteIn("group", '0', '1')
	c := &zzT07Cat{bit: zzT07Kanji, name: "KANJI", invoke: inv != '0', group: grp != '0', max: 10*tens + int(d-'0'), defs: []zzT07Def{{1, 2, 100, zzNounPos}}}
	chardef := "KANJI " + string([]byte{inv}) + " " + string([]byte{grp}) + " " + []string{"", "1", "2"}[tens] + string([]byte{d}) + "\n"
	g := zzGrammar([][]string{zzNumPos, zzNounPos, zzSymPos}, 1, 1, nil, zzT07Chars)
	cd, ud := sym.TempFile("char.def", []byte(chardef)), sym.TempFile("unk.def", []byte("KANJI,1,2,100,"+strings.Join(zzNounPos, ",")+"\n"))
	p := NewMeCabOovProviderPlugin(&MeCabOovProviderPluginConfig{CharDef: &cd, UnkDef: &ud})
	zzOk(p.SetUp(g), "the category-driven provider can be set up")
	size := 8 + 7*sym.Choose("size", 3)
	rs := []rune(strings.Repeat("丁", size))
	bits := make([]int, size)
	for k := range bits {
		bits[k] = zzT07Kanji
	}
	if sym.Choose("end", 2) == 1 {
		rs, bits = append(rs, '0'), append(bits, zzT07Digit)
	}
	zzT07Check([]*zzT07Cat{c}, p, g, rs, bits, 0, sym.Bool("other"))
}

// ZZT07Wide: characters of three categories with two definitions and many lengths each.
func ZZT07Wide() {
	names := [][]string{{"KANJI", "USER1", "USER4"}, {"GREEK", "KATAKANA", "CYRILLIC"}}[sym.Choose("names", 2)]
	chars := "0x4E00..0x4EFF " + strings.Join(names, " ") + "\n0x4F00..0x4FFF " + names[sym.Choose("shared", 3)] + "\n"
	g := zzGrammar([][]string{zzNumPos, zzNounPos, zzSymPos}, 1, 1, nil, chars)
	shared := 0
	for k, n := range names {
		if strings.HasSuffix(chars, " "+n+"\n") {
			shared = 1 << uint(k)
		}
	}
	var cats []*zzT07Cat
	chardef, unkdef := "", ""
	for k, n := range names {
		l := sym.ByteIn("length", '0', '9')
		inv, grp := "0", "1"
		if k == 1 {
			inv, grp = "1", "0"
		}
		c := &zzT07Cat{bit: 1 << uint(k), name: n, invoke: inv == "1", group: grp == "1", max: int(l - '0'), defs: []zzT07Def{{k, 2, 100, zzNounPos}, {k, 3, -100, zzNumPos}}}
		chardef += n + " " + inv + " " + grp + " " + string([]byte{l}) + "\n"
		for _, d := range c.defs {
			unkdef += n + "," + zzItoa(d.left) + "," + zzItoa(d.right) + "," + zzItoa(d.cost) + "," + strings.Join(d.pos, ",") + "\n"
		}
		cats = append(cats, c)
	}
	cd, ud := sym.TempFile("char.def", []byte(chardef)), sym.TempFile("unk.def", []byte(unkdef))
	p := NewMeCabOovProviderPlugin(&MeCabOovProviderPluginConfig{CharDef: &cd, UnkDef: &ud})
	zzOk(p.SetUp(g), "the category-driven provider can be set up")
	rs := []rune(strings.Repeat("丁", 9))
	bits := []int{7, 7, 7, 7, 7, 7, 7, 7, 7}
	if sym.Choose("end", 2) == 1 {
		rs[7], bits[7] = 0x4F00, shared
	}
	zzT07Check(cats, p, g, rs, bits, sym.Choose("at", 2), sym.Choose("other", 2) == 1)
}

// ZZT07SingleEvery: the single-character provider for characters of every category and pair of them.
func ZZT07SingleEvery() {
	k := sym.Choose("category", len(zzT07Names))
	j := (k + sym.Choose("other category", 3)*7) % len(zzT07Names)
	g := zzGrammar([][]string{zzNumPos, zzNounPos, zzSymPos}, 1, 1, nil, "0x4E00..0x4E0F "+zzT07Names[k]+" "+zzT07Names[j]+"\n")
	pos := zzNounPos
	l, r, c := int16(1), int16(2), int16(3)
	p := NewSimpleOovProviderPlugin(&SimpleOovProviderPluginConfig{OovPos: &pos, LeftId: &l, RightId: &r, Cost: &c})
	zzOk(p.SetUp(g), "the single-character provider can be set up")
	rs := []rune{0x4E00, sym.Rune("char", 0x4E00, 0x4E10), 0x4E01}
	input := zzInput(string(rs), g)
	i := sym.Choose("at", 3)
	none, err := GetOOV(p, input, 3*i, true)
	sym.Assert(err == nil && len(none) == 0, "nothing is offered beside other words")
	nodes, err := GetOOV(p, input, 3*i, false)
	sym.Assert(err == nil && len(nodes) == 1, "one word is offered where there is none")
	if len(nodes) == 1 {
		sym.Assert(nodes[0].Begin == 3*i && nodes[0].End == 3*i+3 && nodes[0].IsOOV(), "the word is the character")
		sym.Reach("single")
	}
}
