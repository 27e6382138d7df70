package gosudachi

import (
	"strings"

	"github.com/msnoigrs/gosudachi/internal/zzref"
	sym "github.com/msnoigrs/gosudachi/internal/zzsym"
)

// zzR01Dict is a dictionary with the parts of speech of the shipped unknown word definitions.
func zzR01Dict() string {
	d := &zzref.Dict{Version: zzref.SystemVersion, L: 1, R: 12000, Matrix: make([]int16, 12000), Words: []zzref.Word{zzref.W("あ", 0, 0, 1, 0), zzref.W("か", 0, 0, 1, 0)}}
	seen := map[string]bool{}
	for _, l := range strings.Split(strings.TrimSpace(string(sym.RepoFile("data/root/unk.def"))), "\n") {
		cols := strings.Split(l, ",")
		p := strings.Join(cols[4:], ",")
		if !seen[p] {
			seen[p] = true
			d.Pos = append(d.Pos, cols[4:])
		}
	}
	img, _ := d.Image()
	return sym.TempFile("system.dic", img)
}

// zzR01New opens the dictionary with the shipped files, left unnamed or named explicitly.
func zzR01New(system string, named bool, bits int) *JapaneseDictionary {
	file := func(bit int, name string) string {
		if !named || bits&bit == 0 {
			return ""
		}
		return sym.TempFile(name, sym.RepoFile("data/root/"+name))
	}
	var ch, unk *string
	if s := file(1, "char.def"); s != "" {
		ch = &s
	}
	if s := file(2, "unk.def"); s != "" {
		unk = &s
	}
	pos, l, r, cost := zzSymPos, int16(5968), int16(5968), int16(3857)
	d, err := NewJapaneseDictionary(&BaseConfig{SystemDict: system, CharacterDefinitionFile: file(4, "char.def")},
		[]InputTextPlugin{NewDefaultInputTextPlugin(&DefaultInputTextPluginConfig{RewriteDef: file(8, "rewrite.def")})},
		[]OovProviderPlugin{NewMeCabOovProviderPlugin(&MeCabOovProviderPluginConfig{CharDef: ch, UnkDef: unk}),
			NewSimpleOovProviderPlugin(&SimpleOovProviderPluginConfig{OovPos: &pos, LeftId: &l, RightId: &r, Cost: &cost})}, nil, nil)
	if err != nil {
		sym.Fail("a dictionary can be opened with the shipped resources")
	}
	return d
}

var zzR01 struct {
	shipped, named *JapaneseDictionary
}

func ZZR01Setup() {
	s := zzR01Dict()
	zzR01.shipped = zzR01New(s, false, 15)
	zzR01.named = zzR01New(s, true, 15)
}

var zzR01Ranges = [][2]rune{{0, 0x2F}, {0x30, 0x7F}, {0x80, 0xFF}, {0x100, 0x2FFF}, {0x3000, 0x30FF}, {0x3100, 0x4DFF}, {0x4E00, 0xD7FF}, {0xE000, 0xFFFF}, {0x10000, 0x10FFFF}}

// ZZR01Categories: the categories of every character.
func ZZR01Categories() {
	rg := zzR01Ranges[sym.Choose("range", len(zzR01Ranges))]
	r := sym.Rune("char", rg[0], rg[1])
	a := zzR01.shipped.grammar.CharCategory.GetCategoryTypes(r)
	b := zzR01.named.grammar.CharCategory.GetCategoryTypes(r)
	sym.Assert(a == b, "the shipped category definitions apply")
	sym.Reach("compared")
}

func zzR01Same(text string) {
	a, err1 := zzR01.shipped.Create().Tokenize("C", text)
	b, err2 := zzR01.named.Create().Tokenize("C", text)
	sym.Assert((err1 == nil) == (err2 == nil), "the shipped resources apply")
	if err1 != nil || err2 != nil {
		return
	}
	sym.Assert(a.Length() == b.Length(), "the shipped resources apply")
	if a.Length() != b.Length() {
		return
	}
	for i := 0; i < a.Length(); i++ {
		m, n := a.Get(i), b.Get(i)
		sym.Assert(sym.And(sym.EqStr(m.Surface(), n.Surface()), sym.EqStr(m.NormalizedForm(), n.NormalizedForm())), "the shipped resources apply")
		sym.Assert(strings.Join(m.PartOfSpeech(), ",") == strings.Join(n.PartOfSpeech(), ","), "the shipped resources apply")
		sym.Assert(m.IsOOV() == n.IsOOV(), "the shipped resources apply")
	}
	sym.Assert(a.GetInternalCost() == b.GetInternalCost(), "the shipped resources apply")
	sym.Reach("compared")
}

// ZZR01Unknown: texts of characters of every category.
func ZZR01Unknown() {
	rg := [][2]rune{{0x20, 0x2F}, {'0', '9'}, {'a', 'd'}, {0x3A0, 0x3FF}, {0x400, 0x45F}, {0x3041, 0x3096}, {0x30A1, 0x30FC}, {0x4E00, 0x4E2F}, {0x5341, 0x5345}, {0x1F600, 0x1F60F}}[sym.Choose("range", 10)]
	text := string(sym.Rune("char", rg[0], rg[1]))
	switch sym.Choose("around", 4) {
	case 1:
		text += "カ1"
	case 2:
		text = "漢字" + text
	case 3:
		text = "あ" + text + "か"
	}
	zzR01Same(text)
}

// ZZR01Rules: the text of every rule of the shipped rewrite definitions.
func ZZR01Rules() {
	var keys []string
	for _, l := range strings.Split(string(sym.RepoFile("data/root/rewrite.def")), "\n") {
		if l != "" && l[0] != '#' {
			keys = append(keys, strings.Fields(l)[0])
		}
	}
	zzR01Same("あ" + keys[sym.Choose("rule", len(keys))] + string(sym.Rune("char", 0x3041, 0x3043)))
}

// ZZR01Missing: a file that is named is used, however it is named; one that is not there is not replaced
// by the shipped one.
func ZZR01Missing() {
	name := []string{"char.def", "unk.def", "rewrite.def", "./char.def", "data/unk.def", "root/rewrite.def", "none"}[sym.Choose("name", 7)]
	if sym.Choose("absolute", 2) == 1 {
		name = sym.TempPath(name)
	}
	system := zzR01Dict()
	b := &BaseConfig{SystemDict: system}
	def := &DefaultInputTextPluginConfig{}
	mecab := &MeCabOovProviderPluginConfig{}
	switch sym.Choose("file", 4) {
	case 0:
		b.CharacterDefinitionFile = name
	case 1:
		def.RewriteDef = name
	case 2:
		mecab.CharDef = &name
	case 3:
		mecab.UnkDef = &name
	}
	pos, l, r, cost := zzSymPos, int16(1), int16(1), int16(sym.Int("cost", 0, 9))
	_, err := NewJapaneseDictionary(b, []InputTextPlugin{NewDefaultInputTextPlugin(def)}, []OovProviderPlugin{NewMeCabOovProviderPlugin(mecab),
		NewSimpleOovProviderPlugin(&SimpleOovProviderPluginConfig{OovPos: &pos, LeftId: &l, RightId: &r, Cost: &cost})}, nil, nil)
	sym.Assert(err != nil, "the shipped file applies only where none is named")
	sym.Reach("refused")
}
