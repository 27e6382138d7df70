package gosudachi

import (
	"strings"

	"github.com/msnoigrs/gosudachi/dictionary"
	"github.com/msnoigrs/gosudachi/internal/zzref"
	sym "github.com/msnoigrs/gosudachi/internal/zzsym"
)

var zzT05World *zzWorld

func ZZT05Setup() { zzT05World = zzWorldNew() }

// ZZT05Modes: tokenizing in mode A or B is tokenizing in mode C and splitting every morpheme.
func ZZT05Modes() {
	words := []string{"東京都", "京都東", "京都", "株式会社", "あい", "二十一", "アイガ", "㍿"}
	text := words[sym.Choose("word", len(words))]
	text += string([]rune{zzWorldChar()})
	if sym.Choose("more", 2) == 1 {
		text += words[sym.Choose("word", len(words))]
	}
	t := zzT05World.tokenizer()
	mode := []string{"A", "B"}[sym.Choose("mode", 2)]
	c, err := t.Tokenize("C", text)
	a, err2 := t.Tokenize(mode, text)
	sym.Assert((err == nil) == (err2 == nil), "modes agree on success")
	if err != nil {
		sym.Reach("refused")
		return
	}
	var want []zzMorph
	for i := 0; i < c.Length(); i++ {
		want = append(want, zzMorphs(c.Get(i).Split(mode))...)
	}
	sym.Assert(zzSameMorphs(zzMorphs(a), want), "tokenizing in a mode gives the splits of mode C")
	sym.Reach("compared")
}

// ZZT05Units: a word with arbitrary unit lists (0..3 units of the system and the user dictionary).
func ZZT05Units() {
	units := []struct {
		dic  int
		word zzref.Word
	}{
		{0, zzref.W("か", 0, 0, 0, 0)}, {0, zzref.W("かk", 0, 0, 0, 1)}, {0, zzref.W("kkかか", 0, 0, 0, 0)}, {1, zzref.W("ui", 0, 0, 0, 2)}, {1, zzref.W("か", 0, 0, 0, 1)},
	}
	units[1].word.Norm = "正"
	units[2].word.Reading = "よみ"
	units[3].word.Norm = "使"
	units[3].word.Surface, units[3].word.HeadLen = "写しx", 2
	units[4].word.DicForm = 0
	ids := []int32{0, 1, 2, 1<<28 | 0, 1<<28 | 1}
	whole := zzref.W("東京", 0, 0, 0, 0)
	list := func(name string) (idx []int, l []int32) {
		n := sym.Choose(name, 4)
		for i := 0; i < n; i++ {
			k := sym.Choose(name+"Unit", len(units))
			idx = append(idx, k)
			l = append(l, ids[k])
		}
		return
	}
	dic := sym.Choose("dic", 2)
	aIdx, aList := list("a")
	bIdx, bList := []int(nil), []int32(nil)
	if len(aIdx) > 1 {
		bIdx, bList = []int{1, 3}, []int32{ids[1], ids[3]}
	} else {
		bIdx, bList = list("b")
	}
	whole.A, whole.B = aList, bList
	pos := [][]string{zzNumPos, zzNounPos}
	sys := &zzref.Dict{Version: zzref.SystemVersion, Pos: pos, L: 1, R: 1}
	user := &zzref.Dict{Version: zzref.UserVersion2, Pos: [][]string{zzSymPos}}
	for _, u := range units {
		if u.dic == 0 {
			sys.Words = append(sys.Words, u.word)
		} else {
			user.Words = append(user.Words, u.word)
		}
	}
	if dic == 0 {
		sys.Words = append(sys.Words, whole)
		// a system word can only refer to system words
		for _, l := range [][]int32{aList, bList} {
			for _, x := range l {
				if x >= 1<<28 {
					sym.Skip()
				}
			}
		}
	} else {
		user.Words = append(user.Words, whole)
	}
	img, lay := sys.Image()
	uimg, ulay := user.Image()
	g := dictionary.NewGrammar(img, 272, false)
	g.CharCategory = zzCategories("0x61..0x7A ALPHA\n0x3041..0x309F HIRAGANA\n")
	lex := dictionary.NewLexiconSet(dictionary.NewDoubleArrayLexicon(img, lay.Lexicon, false))
	// another user dictionary comes first, so that this one is number 2
	other := &zzref.Dict{Version: zzref.UserVersion2, Pos: [][]string{{"他", "*", "*", "*", "*", "*"}}, Words: []zzref.Word{zzref.W("qqqq", 0, 0, 0, 2), zzref.W("rrrr", 0, 0, 0, 2)}}
	oimg, olay := other.Image()
	lex.Add(dictionary.NewDoubleArrayLexicon(oimg, olay.Lexicon, false), int32(g.GetPartOfSpeechSize()))
	g.AddPosList(dictionary.NewGrammar(oimg, 272, false))
	lex.Add(dictionary.NewDoubleArrayLexicon(uimg, ulay.Lexicon, false), int32(g.GetPartOfSpeechSize()))
	g.AddPosList(dictionary.NewGrammar(uimg, 272, false))

	// a text that is long enough for every unit
	pre := []string{"", "ａ"}[sym.Choose("pre", 2)]
	text := pre + "東京" + strings.Repeat("ab", 20)
	input := zzInput(text, g)
	begin := len(pre)
	n := NewLatticeNode(lex, 0, 0, 0, int32(dic*2)<<28|int32([]int{3, 2}[dic]))
	n.SetRange(begin, begin+6)
	ms := NewMorphemeList(input, g, lex, []*LatticeNode{n})
	names := [][]string{zzNumPos, zzNounPos, zzSymPos}
	for k, mode := range []string{"A", "B", "C", "x"} {
		got := ms.Get(0).Split(mode)
		idx := [][]int{aIdx, bIdx, nil, nil}[k]
		if len(idx) < 2 {
			sym.Assert(got.Length() == 1, "a word without units is its own split")
			sym.Assert(zzSameMorphs(zzMorphs(got), zzMorphs(ms)), "a word without units is its own split")
			continue
		}
		sym.Assert(got.Length() == len(idx), "splitting gives the listed units")
		at := begin
		for i, u := range idx {
			x := units[u]
			m := got.Get(i)
			wi := m.GetWordInfo()
			sym.Assert(m.Begin() == input.GetOriginalIndex(at), "a unit begins where the previous one ended")
			at += len(x.word.Headword)
			sym.Assert(m.End() == input.GetOriginalIndex(at), "a unit ends after its length")
			sym.Assert(wi.Surface == x.word.Surface && int(wi.HeadwordLength) == len(x.word.Headword), "a unit is the listed word")
			norm := x.word.Norm
			if norm == "" {
				norm = x.word.Surface
			}
			reading := x.word.Reading
			if reading == "" {
				reading = x.word.Surface
			}
			sym.Assert(m.NormalizedForm() == norm && m.ReadingForm() == reading, "a unit has the forms of the listed word")
			sym.Assert(strings.Join(m.PartOfSpeech(), ",") == strings.Join(names[x.word.Pos], ","), "a unit has the part of speech of the listed word")
			sym.Assert(m.GetDictionaryId() == 2*x.dic, "a unit comes from the dictionary of the listed word")
			sym.Assert(!m.IsOOV(), "a unit is a dictionary word")
		}
		sym.Reach("split")
	}
}

// ZZT05Lengths: units of one to four bytes, as many as the word has bytes or fewer, words whose
// surface is not their headword.
func ZZT05Lengths() {
	words := []zzref.Word{
		zzref.W("a", 0, 0, 100, 0), zzref.W("b", 0, 0, 100, 0), zzref.W("é", 0, 0, 100, 0), zzref.W("か", 0, 0, 100, 0), zzref.W("𠮟", 0, 0, 100, 0),
		zzref.W("aé", 0, 0, 100, 0), zzref.W("かab", 0, 0, 100, 0), zzref.W("前", 0, 0, 100, 0), zzref.W("終", 0, 0, 100, 0),
	}
	n := 2 + sym.Choose("units", 2)
	max := 7
	if n == 3 && !sym.Thorough() {
		max = 4
	}
	head := ""
	var list []int32
	for i := 0; i < n; i++ {
		u := sym.Choose("unit", max)
		list = append(list, int32(u))
		head += words[u].Headword
	}
	long := []string{"長い表記", "x", ""}[sym.Choose("surface", 3)]
	if long != "" {
		w := &words[list[0]]
		w.Surface, w.HeadLen = long, len(w.Headword)
	}
	whole := zzref.W(head, 0, 0, -5000, 0)
	mode := []string{"A", "B"}[sym.Choose("mode", 2)]
	if mode == "A" {
		whole.A, whole.B = list, []int32{0, 1}
	} else {
		whole.B = list
	}
	if sym.Choose("renamed whole", 2) == 1 {
		whole.Surface, whole.HeadLen = "全", len(head)
	}
	img, lay := (&zzref.Dict{Version: zzref.SystemVersion, Pos: [][]string{zzNounPos}, L: 1, R: 1, Words: append(words, whole)}).Image()
	g := dictionary.NewGrammar(img, 272, false)
	g.CharCategory = zzCategories("0x3041..0x309F HIRAGANA\n")
	lex := dictionary.NewLexiconSet(dictionary.NewDoubleArrayLexicon(img, lay.Lexicon, false))
	t := NewJapaneseTokenizer(g, lex, nil, []OovProviderPlugin{&zzCandProvider{fail: -1}}, nil)
	pre := []string{"", "前"}[sym.Choose("before", 2)]
	got, err := t.Tokenize(mode, pre+head+"終")
	whol, err2 := t.Tokenize("C", pre+head+"終")
	if err != nil || err2 != nil {
		sym.Fail("the text can be tokenized")
		return
	}
	first := 0
	if pre != "" {
		first = 1
	}
	sym.Assert(got.Length() == first+n+1 && whol.Length() == first+2, "tokenizing in a mode gives the units")
	if got.Length() != first+n+1 || whol.Length() != first+2 {
		return
	}
	if mode == "B" {
		// the word has no units of mode A
		a, err := t.Tokenize("A", pre+head+"終")
		sym.Assert(err == nil && a.Length() == first+2 && whol.Get(first).Split("A").Length() == 1, "a word without units of a mode stays whole in it")
	}
	split := whol.Get(first).Split(mode)
	sym.Assert(split.Length() == n, "splitting gives the units")
	at := len([]rune(pre))
	for i, id := range list {
		end := at + len([]rune(words[id].Headword))
		a, b := got.Get(first+i), split.Get(i)
		sym.Assert(a.Begin() == at && a.End() == end && a.Surface() == words[id].Headword && a.GetWordId() == int(id), "a unit of the tokenized text")
		sym.Assert(b.Begin() == at && b.End() == end && b.Surface() == words[id].Headword && b.GetWordId() == int(id), "a unit of the split word")
		at = end
	}
	sym.Reach("split")
}

// ZZT05Long: texts of hundreds and thousands of characters with words to be split at the beginning,
// in the middle and at the end.
func ZZT05Long() {
	t := zzT05World.tokenizer()
	n := []int{100, 1500, 2800}[sym.Choose("len", 3)]
	c := string([]rune{sym.Rune("char", 'ぁ', 'う')})
	word := []string{"東京都", "株式会社"}[sym.Choose("word", 2)]
	fill := strings.Repeat("東", n/2)
	text := word + fill + word + c + fill + word
	mode := []string{"A", "B"}[sym.Choose("mode", 2)]
	whole, err := t.Tokenize("C", text)
	got, err2 := t.Tokenize(mode, text)
	if err != nil || err2 != nil {
		sym.Fail("the text can be tokenized")
		return
	}
	k := 0
	for i := 0; i < whole.Length(); i++ {
		units := whole.Get(i).Split(mode)
		for j := 0; j < units.Length(); j++ {
			if k >= got.Length() {
				sym.Fail("tokenizing in a mode gives the splits of mode C")
				return
			}
			a, b := got.Get(k), units.Get(j)
			sym.Assert(a.Begin() == b.Begin() && a.End() == b.End() && a.GetWordId() == b.GetWordId(), "tokenizing in a mode gives the splits of mode C")
			k++
			if units.Length() > 1 {
				sym.Reach("split")
			}
		}
	}
	sym.Assert(k == got.Length(), "tokenizing in a mode gives the splits of mode C")
	last := got.Get(got.Length() - 1)
	sym.Assert(last.End() == 1+n/2*2+3*len([]rune(word)) && len(last.Surface()) < len(word), "the last word is split")
}
