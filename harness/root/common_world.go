package gosudachi

import (
	"github.com/msnoigrs/gosudachi/dictionary"
	"github.com/msnoigrs/gosudachi/internal/zzref"
	sym "github.com/msnoigrs/gosudachi/internal/zzsym"
)

// zzWorld is a complete, small configuration: a system and a user dictionary, category definitions
// and all the plugins.
type zzWorld struct {
	grammar *dictionary.Grammar
	lexicon *dictionary.LexiconSet
	input   []InputTextPlugin
	oov     []OovProviderPlugin
	path    []PathRewritePlugin
	sys     *zzref.Dict
	user    *zzref.Dict
}

func (w *zzWorld) tokenizer() *JapaneseTokenizer {
	return NewJapaneseTokenizer(w.grammar, w.lexicon, w.input, w.oov, w.path)
}

var zzWorldUserPos = []string{"名詞", "固有名詞", "利用者", "*", "*", "*"}

// words of the system dictionary; the numerals come first.
func zzWorldWords() []zzref.Word {
	var ws []zzref.Word
	for _, s := range []string{"0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "一", "二", "十", "万"} {
		ws = append(ws, zzref.W(s, 1, 1, 2478, 0))
	}
	ws = append(ws,
		zzref.W(",", 2, 2, 3000, 2),    // 14
		zzref.W(".", 2, 2, 3000, 2),    // 15
		zzref.W("東", 0, 0, 4000, 1),    // 16
		zzref.W("京", 1, 1, 4000, 1),    // 17
		zzref.W("都", 2, 2, 4000, 1),    // 18
		zzref.W("東京", 1, 2, 4500, 1),   // 19
		zzref.W("東京都", 0, 1, 5000, 1),  // 20
		zzref.W("ア", 1, 1, 7000, 1),    // 21
		zzref.W("アイ", 2, 1, 7000, 1),   // 22
		zzref.W("ガ", 2, 1, 6000, 1),    // 23
		zzref.W("ー", 0, 0, 6000, 1),    // 24
		zzref.W("あ", 1, 0, 5000, 1),    // 25
		zzref.W("い", 0, 1, 5000, 1),    // 26
		zzref.W("あい", 2, 2, 8000, 1),   // 27
		zzref.W("株式", 1, 1, 3000, 1),   // 28
		zzref.W("会社", 1, 1, 3000, 1),   // 29
		zzref.W("株式会社", 2, 1, 3500, 1), // 30
		zzref.W("a", 1, 1, 4000, 1),    // 31
		zzref.W("ab", 1, 1, 4000, 1),   // 32
	)
	ws[19].A = []int32{16, 17}
	ws[20].A = []int32{16, 17, 18}
	ws[20].B = []int32{19, 18}
	ws[20].DicForm = 19
	ws[27].A = []int32{25, 26}
	ws[27].B = []int32{27}
	ws[30].A = []int32{28, 29}
	ws[30].B = []int32{28, 29}
	ws[22].Reading = "よ"
	ws[22].Norm = "亜位"
	return ws
}

const zzWorldRewrite = "ⅲ\nｶﾞ\tガ\n〜〜 ー\nx ab\nq アー〜ア\n"

const zzWorldUnkCats = "DEFAULT 0 1 0\nSPACE 0 1 0\nKANJI 0 0 2\nSYMBOL 1 1 0\nNUMERIC 1 1 0\nALPHA 1 1 0\nHIRAGANA 0 1 2\nKATAKANA 1 1 2\nKANJINUMERIC 0 1 0\nGREEK 1 1 0\nCYRILLIC 1 1 0\n"

const zzWorldUnk = `DEFAULT,2,2,9000,補助記号,一般,*,*,*,*
SPACE,2,2,900,補助記号,一般,*,*,*,*
KANJI,1,1,9500,名詞,普通名詞,一般,*,*,*
SYMBOL,2,2,8000,補助記号,一般,*,*,*,*
NUMERIC,1,1,9000,名詞,数詞,*,*,*,*
ALPHA,1,1,9100,名詞,普通名詞,一般,*,*,*
ALPHA,0,0,9200,補助記号,一般,*,*,*,*
HIRAGANA,0,1,9300,名詞,普通名詞,一般,*,*,*
KATAKANA,1,0,9400,名詞,普通名詞,一般,*,*,*
KANJINUMERIC,1,1,9900,名詞,数詞,*,*,*,*
GREEK,1,1,9100,名詞,普通名詞,一般,*,*,*
CYRILLIC,1,1,9100,名詞,普通名詞,一般,*,*,*
`

func zzWorldNew() *zzWorld {
	w := &zzWorld{}
	pos := [][]string{zzNumPos, zzNounPos, zzSymPos}
	matrix := []int16{0, 100, -50, 200, 10, 300, -100, 400, 32767}
	w.sys = &zzref.Dict{Version: zzref.SystemVersion, Pos: pos, L: 3, R: 3, Matrix: matrix, Words: zzWorldWords()}
	img, lay := w.sys.Image()
	w.grammar = dictionary.NewGrammar(img, 272, false)
	w.grammar.CharCategory = zzCategories(zzCharDef)
	w.lexicon = dictionary.NewLexiconSet(dictionary.NewDoubleArrayLexicon(img, lay.Lexicon, false))
	u := []zzref.Word{zzref.W("京都", 1, 1, 3000, 1), zzref.W("都東", 1, 1, 3000, 3), zzref.W("東", 2, 2, 1000, 3), zzref.W("京都東", 1, 1, -3000, 3)}
	u[0].A = []int32{17, 18}
	u[3].A = []int32{1<<28 | 0, 16}
	u[3].B = []int32{17, 1<<28 | 1}
	w.user = &zzref.Dict{Version: zzref.UserVersion2, Pos: [][]string{zzWorldUserPos}, Words: u}
	uimg, ulay := w.user.Image()
	ug := dictionary.NewGrammar(uimg, 272, false)
	w.lexicon.Add(dictionary.NewDoubleArrayLexicon(uimg, ulay.Lexicon, false), int32(w.grammar.GetPartOfSpeechSize()))
	w.grammar.AddPosList(ug)

	def := NewDefaultInputTextPlugin(&DefaultInputTextPluginConfig{RewriteDef: sym.TempFile("rewrite.def", []byte(zzWorldRewrite))})
	zzOk(def.SetUp(), "the input plugin can be set up")
	marks := []string{"ー", "〜"}
	repl := "ー"
	pro := NewProlongedSoundMarkInputTextPlugin(&ProlongedSoundMarkInputTextPluginConfig{ProlongedSoundMarks: &marks, ReplacementSymbol: &repl})
	zzOk(pro.SetUp(), "the prolonged sound mark plugin can be set up")
	w.input = []InputTextPlugin{def, pro}

	cdef := sym.TempFile("unkchar.def", []byte(zzWorldUnkCats))
	unk := sym.TempFile("unk.def", []byte(zzWorldUnk))
	mecab := NewMeCabOovProviderPlugin(&MeCabOovProviderPluginConfig{CharDef: &cdef, UnkDef: &unk})
	zzOk(mecab.SetUp(w.grammar), "the category-driven provider can be set up")
	spos := zzSymPos
	l, r, c := int16(2), int16(2), int16(12000)
	simple := NewSimpleOovProviderPlugin(&SimpleOovProviderPluginConfig{OovPos: &spos, LeftId: &l, RightId: &r, Cost: &c})
	zzOk(simple.SetUp(w.grammar), "the single-character provider can be set up")
	w.oov = []OovProviderPlugin{mecab, simple}

	num := NewJoinNumericPlugin(&JoinNumericPluginConfig{})
	zzOk(num.SetUp(w.grammar), "numeral joining can be set up")
	npos := zzNounPos
	min := 3
	kata := NewJoinKatakanaOovPlugin(&JoinKatakanaOovPluginConfig{OovPOS: &npos, MinLength: &min})
	zzOk(kata.SetUp(w.grammar), "katakana joining can be set up")
	w.path = []PathRewritePlugin{num, kata}
	return w
}

// zzWorldChar is an arbitrary character of an arbitrary class.
func zzWorldChar() rune {
	switch sym.Choose("class", 16) {
	case 0:
		return sym.Rune("digit", '0', '9')
	case 1:
		return sym.Rune("comma", ',', '.')
	case 2:
		return '一'
	case 3:
		return '十'
	case 4:
		return '万'
	case 5:
		return sym.Rune("upper", 'A', 'C')
	case 6:
		return sym.Rune("lower", 'a', 'x')
	case 7:
		return sym.Rune("hiragana", 'ぁ', 'う')
	case 8:
		return sym.Rune("katakana", 'ァ', 'ウ')
	case 9:
		return sym.Rune("mark", 'ー', 'ー')
	case 10:
		return '〜'
	case 11:
		return '㍿'
	case 12:
		return 'ｶ'
	case 13:
		return 'ﾞ'
	case 14:
		return '東'
	}
	return '京'
}

// zzTiling: the morphemes cover text exactly.
func zzTiling(ms *MorphemeList, rs []rune) {
	pos := 0
	for i := 0; i < ms.Length(); i++ {
		m := ms.Get(i)
		sym.Assert(m.Begin() == pos, "each morpheme begins where the previous one ended")
		sym.Assert(m.End() >= pos && m.End() <= len(rs), "no morpheme ends before it begins or after the text")
		sym.Assert(sym.EqStr(m.Surface(), string(rs[pos:m.End()])), "the surface is the covered text")
		pos = m.End()
	}
	sym.Assert(pos == len(rs), "the last morpheme ends at the end of the text")
}
