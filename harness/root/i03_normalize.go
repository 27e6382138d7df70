package gosudachi

import (
	sym "github.com/msnoigrs/gosudachi/internal/zzsym"
)

// zzI03Pal: characters with their lower-case form and the NFKC form of that, by the Unicode tables.
var zzI03Pal = []zzI03Char{
	{'a', 'a', "a"}, {'A', 'a', "a"}, {'b', 'b', "b"}, {'Σ', 'σ', "σ"}, {'Ж', 'ж', "ж"},
	{'ｶ', 'ｶ', "カ"}, {'ﾞ', 'ﾞ', "\u3099"}, {'Ｔ', 'ｔ', "t"}, {'㈱', '㈱', "(株)"}, {'①', '①', "1"},
	{'ﬁ', 'ﬁ', "fi"}, {'Ⅲ', 'ⅲ', "iii"}, {'ⅲ', 'ⅲ', "iii"}, {'\U0001D400', '\U0001D400', "A"}, {'\U0002F81A', '\U0002F81A', "冬"}, {'㍻', '㍻', "平成"},
	{'漢', '漢', "漢"}, {'ガ', 'ガ', "ガ"}, {'Å', 'å', "å"}, {'が', 'が', "が"},
}

// zzI03Special: characters whose other case forms are not one to one, and long compatibility forms.
var zzI03Special = []zzI03Char{
	{'a', 'a', "a"}, {'ς', 'ς', "ς"}, {'ı', 'ı', "ı"}, {'İ', 'i', "i"}, {'ſ', 'ſ', "s"}, {'ẞ', 'ß', "ß"}, {'ǅ', 'ǆ', "dž"},
	{'㌀', '㌀', "アパート"}, {'ﷺ', 'ﷺ', "صلى الله عليه وسلم"}, {'Ω', 'ω', "ω"}, {'K', 'k', "k"}, {'ﾊ', 'ﾊ', "ハ"}, {'µ', 'µ', "μ"},
}

var zzI03SpecialDefs = []zzI03Def{
	{"", nil, nil, nil},
	{"㌀\ni\nﾊa ハア\nÅ x\nς\n", []string{"ﾊa"}, []string{"ハア"}, []rune{'㌀', 'i', 'ς'}},
	{"µ\nﷺ ー\naﾊａ x\naﾊ ｱﾊ\n", []string{"ﷺ", "aﾊ"}, []string{"ー", "ｱﾊ"}, []rune{'µ'}},
}

// ZZI03Special: strange case forms and long compatibility forms.
func ZZI03Special() {
	max := 3
	if sym.Thorough() {
		max = 4
	}
	def := &zzI03SpecialDefs[sym.Choose("def", len(zzI03SpecialDefs))]
	n := sym.Choose("len", max+1)
	var text []rune
	for i := 0; i < n; i++ {
		text = append(text, zzI03Special[sym.Choose("char", len(zzI03Special))].c)
	}
	text = append(text, []rune("Ａb")...)
	zzI03CheckPalette(def, text, append([]zzI03Char{{'Ａ', 'ａ', "a"}, {'b', 'b', "b"}}, zzI03Special...))
}

// zzI03Def is a definition file with replacement keys and an ignore list.
type zzI03Def struct {
	text   string
	keys   []string
	vals   []string
	ignore []rune
}

var zzI03Defs = []zzI03Def{
	{"# nothing\n", nil, nil, nil},
	{"ⅲ\n# c\nｶﾞ\tガ\nab x\n", []string{"ｶﾞ", "ab"}, []string{"ガ", "x"}, []rune{'ⅲ'}},
	{"①\nab\tABCD\naba\ty\nA Ａ\n㈱ 株式会社\n", []string{"ab", "aba", "A", "㈱"}, []string{"ABCD", "y", "Ａ", "株式会社"}, []rune{'①'}},
	{"Ⅲ\nＴ\nA\nab x\n", []string{"ab"}, []string{"x"}, []rune{'Ⅲ', 'Ｔ', 'A'}},
	{"ｔ\n㍻\nbb b\nｶｶｶ カカ\nｶ か\nfi ff\n", []string{"bb", "ｶｶｶ", "ｶ", "fi"}, []string{"b", "カカ", "か", "ff"}, []rune{'ｔ', '㍻'}},
}

func zzI03Plugin(def string) *DefaultInputTextPlugin {
	p := NewDefaultInputTextPlugin(&DefaultInputTextPluginConfig{RewriteDef: sym.TempFile("rewrite.def", []byte(def))})
	zzOk(p.SetUp(), "the definition file is accepted")
	return p
}

// zzI03Expect applies the definition of the normalization to text.
func zzI03Expect(def *zzI03Def, text []rune, lower func(rune) rune, nfkc func(rune) string) []zzPos {
	var out []zzPos
	add := func(s string, at int) {
		for _, r := range s {
			out = append(out, zzPos{r, len(string(r)), at})
		}
	}
	for i := 0; i < len(text); {
		best := -1
		blen := 0
		for k, key := range def.keys {
			kr := []rune(key)
			if len(kr) <= blen || i+len(kr) > len(text) {
				continue
			}
			same := true
			for j, r := range kr {
				same = sym.And(same, text[i+j] == r)
			}
			if same {
				best, blen = k, len(kr)
			}
		}
		if best >= 0 {
			add(def.vals[best], i)
			i += blen
			continue
		}
		l := lower(text[i])
		ign := false
		for _, r := range def.ignore {
			ign = sym.Or(ign, l == r)
		}
		if ign {
			out = append(out, zzPos{l, len(string(l)), i})
		} else {
			add(nfkc(l), i)
		}
		i++
	}
	return out
}

// ZZI03Palette: texts over characters with interesting case and compatibility forms.
func ZZI03Palette() {
	max := 3
	if sym.Thorough() {
		max = 4
	}
	def := &zzI03Defs[sym.Choose("def", len(zzI03Defs))]
	n := sym.Choose("len", max+1)
	var text []rune
	for i := 0; i < n; i++ {
		text = append(text, zzI03Pal[sym.Choose("char", len(zzI03Pal))].c)
	}
	zzI03CheckPalette(def, text, zzI03Pal)
}

type zzI03Char struct {
	c, lower rune
	nfkc     string
}

func zzI03CheckPalette(def *zzI03Def, text []rune, pal []zzI03Char) {
	p := zzI03Plugin(def.text)
	b := NewInputTextBuilder(string(text), zzI01Grammar)
	zzOk(p.Rewrite(b), "normalization succeeds")
	model := zzI03Expect(def, text, func(r rune) rune {
		for _, e := range pal {
			if e.c == r {
				return e.lower
			}
		}
		return r
	}, func(r rune) string {
		for _, e := range pal {
			if e.lower == r {
				return e.nfkc
			}
		}
		return string(r)
	})
	zzI01Check(b, string(text), model, len(text))
}

// ZZI03Ascii: arbitrary ASCII texts and overlapping keys.
func ZZI03Ascii() {
	max := 4
	if sym.Thorough() {
		max = 6
	}
	defs := []zzI03Def{
		{"ab x\nabc  yz\nb bbb\nB Z\n", []string{"ab", "abc", "b", "B"}, []string{"x", "yz", "bbb", "Z"}, nil},
		{"a\nAA a\naaa A\nd1 \u3042\n", []string{"AA", "aaa", "d1"}, []string{"a", "A", "\u3042"}, []rune{'a'}},
		{"aaab q\naaa A\nba bb\nab \u3042b\nbaa c\n", []string{"aaab", "aaa", "ba", "ab", "baa"}, []string{"q", "A", "bb", "\u3042b", "c"}, nil},
	}
	def := &defs[sym.Choose("def", len(defs))]
	n := sym.Choose("len", max+1)
	var text []rune
	for i := 0; i < n; i++ {
		text = append(text, sym.Rune("c", 0x20, 0x7E))
	}
	p := zzI03Plugin(def.text)
	b := NewInputTextBuilder(string(text), zzI01Grammar)
	zzOk(p.Rewrite(b), "normalization succeeds")
	model := zzI03Expect(def, text, func(r rune) rune {
		return rune(sym.Ite(sym.And(r >= 'A', r <= 'Z'), int(r)+32, int(r)))
	}, func(r rune) string { return string([]rune{r}) })
	zzI01Check(b, string(text), model, len(text))
}

// ZZI03Keys: families of overlapping keys up to 12 characters long, listed in various orders; texts
// are pieces of the longest key.
func ZZI03Keys() {
	const long = "abcdefghijkl"
	defs := [][]int{{5, 4, 6}, {6, 5, 4}, {4, 5, 6}, {6, 4}, {4, 6}, {7, 2, 5}, {12, 3, 8}, {3, 12, 8}, {8, 12, 1}, {9, 4, 4}}
	def := zzI03Def{}
	for i, l := range defs[sym.Choose("def", len(defs))] {
		if i == 2 && l == 4 {
			continue
		}
		def.keys = append(def.keys, long[:l])
		def.vals = append(def.vals, []string{"X", "YY", "\u3042ZZ"}[i])
		def.text += long[:l] + " " + def.vals[i] + "\n"
	}
	def.text += "bc\tQ\n"
	def.keys = append(def.keys, "bc")
	def.vals = append(def.vals, "Q")
	lead := sym.Choose("lead", 3)
	cut := sym.Choose("cut", len(long)+1)
	text := []rune(long[len(long)-lead:])
	text = append(text, []rune(long[:cut])...)
	text = append(text, sym.Rune("next", 0x61, 0x70))
	text = append(text, []rune(long[:4])...)
	p := zzI03Plugin(def.text)
	b := NewInputTextBuilder(string(text), zzI01Grammar)
	zzOk(p.Rewrite(b), "normalization succeeds")
	model := zzI03Expect(&def, text, func(r rune) rune { return r }, func(r rune) string { return string([]rune{r}) })
	zzI01Check(b, string(text), model, len(text))
}
