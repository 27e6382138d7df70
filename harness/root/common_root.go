package gosudachi

import (
	"strings"

	"github.com/msnoigrs/gosudachi/dictionary"
	"github.com/msnoigrs/gosudachi/internal/zzref"
	sym "github.com/msnoigrs/gosudachi/internal/zzsym"
)

const zzCharDef = `
0x0020 SPACE
0x0030..0x0039 NUMERIC
0x0041..0x005A ALPHA
0x0061..0x007A ALPHA
0x3041..0x309F HIRAGANA
0x30A1..0x30FF KATAKANA
0x30FC HIRAGANA
0x3400..0x9FFF KANJI
0x4E00 KANJINUMERIC
0x4E8C KANJINUMERIC
0x4E09 KANJINUMERIC
0x56DB KANJINUMERIC
0x4E94 KANJINUMERIC
0x516D KANJINUMERIC
0x4E03 KANJINUMERIC
0x516B KANJINUMERIC
0x4E5D KANJINUMERIC
0x3007 SYMBOL KANJINUMERIC
0x5341 KANJINUMERIC
0x767E KANJINUMERIC
0x5343 KANJINUMERIC
0x4E07 KANJINUMERIC
0x5104 KANJINUMERIC
0x5146 KANJINUMERIC
0x0370..0x03FF GREEK
0x0400..0x04FF CYRILLIC
0x30A1 NOOOVBOW
0x30E3 NOOOVBOW
0x00B7 NOOOVBOW
`

var zzNumPos = []string{"名詞", "数詞", "*", "*", "*", "*"}
var zzNounPos = []string{"名詞", "普通名詞", "一般", "*", "*", "*"}
var zzSymPos = []string{"補助記号", "一般", "*", "*", "*", "*"}

func zzCategories(def string) *dictionary.CharacterCategory {
	cc := dictionary.NewCharacterCategory()
	if err := cc.ReadCharacterDefinition(strings.NewReader(def)); err != nil {
		panic(err)
	}
	return cc
}

// zzGrammar is a grammar read from an image made by zzref.
func zzGrammar(pos [][]string, l, r int, matrix []int16, def string) *dictionary.Grammar {
	d := &zzref.Dict{Version: zzref.SystemVersion, Pos: pos, L: l, R: r, Matrix: matrix}
	g := dictionary.NewGrammar(d.Grammar(nil, &zzref.Layout{}), 0, false)
	g.CharCategory = zzCategories(def)
	return g
}

func zzInput(text string, g *dictionary.Grammar) *InputText {
	return NewInputTextBuilder(text, g).Build()
}

// zzNode is a node with a word information of its own.
func zzNode(begin, end int, wi *dictionary.WordInfo) *LatticeNode {
	n := &LatticeNode{}
	n.SetRange(begin, end)
	n.SetWordInfo(wi)
	return n
}

func zzOk(err error, what string) {
	if err != nil {
		sym.Fail(what)
	}
}

// zzEmptyLexicon has one word that matches no text of the harnesses.
func zzEmptyLexicon() *dictionary.DoubleArrayLexicon {
	d := &zzref.Dict{Version: zzref.SystemVersion, Words: []zzref.Word{zzref.W("\x01", 0, 0, 0, 0)}}
	lay := &zzref.Layout{}
	img := d.Lexicon(nil, lay)
	return dictionary.NewDoubleArrayLexicon(img, 0, false)
}
