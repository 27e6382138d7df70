package gosudachi

import (
	"github.com/msnoigrs/gosudachi/dictionary"
	"github.com/msnoigrs/gosudachi/internal/zzref"
	sym "github.com/msnoigrs/gosudachi/internal/zzsym"
)

const zzT06CharDef = "0x0041..0x005A ALPHA\n0x0061..0x007A ALPHA\n0x0065 ALPHA USER1\n0x0370..0x03FF GREEK\n0x03B3 GREEK ALPHA\n0x0400..0x04FF CYRILLIC\n0x3041..0x309F HIRAGANA\n0x4E00..0x9FFF KANJI\n0x4E02 KANJI USER1\n0x0030..0x0039 NUMERIC\n0x0301 ALPHA NOOOVBOW\n"

// zzT06Provider offers, at every place, one word of every length that keeps the text tileable:
// one character, or the rest of an alphabetic run.
type zzT06Provider struct{ calls []int }

func (p *zzT06Provider) GetConfigStruct() interface{}            { return nil }
func (p *zzT06Provider) SetUp(grammar *dictionary.Grammar) error { return nil }
func (p *zzT06Provider) ProvideOOV(inputText *InputText, offset int, hasOtherWords bool) ([]*LatticeNode, error) {
	p.calls = append(p.calls, offset)
	n := CreateNodeOfOOV()
	n.SetParameter(0, 0, 20000)
	end := offset + 1
	for end < len(inputText.Bytea) && !inputText.CanBow(end) {
		end++
	}
	n.SetWordInfo(&dictionary.WordInfo{HeadwordLength: int16(end - offset), DictionaryFormWordId: -1})
	return []*LatticeNode{n}, nil
}

// zzT06Watch sees the candidates.
type zzT06Watch struct {
	words [][]*LatticeNode // by end
}

func (p *zzT06Watch) GetConfigStruct() interface{}            { return nil }
func (p *zzT06Watch) SetUp(grammar *dictionary.Grammar) error { return nil }
func (p *zzT06Watch) Rewrite(text *InputText, path *[]*LatticeNode, lattice *Lattice) error {
	for e := 0; e <= len(text.Bytea); e++ {
		p.words = append(p.words, append([]*LatticeNode(nil), lattice.GetNodesWithEnd(e)...))
	}
	return nil
}

type zzT06Entry struct {
	dic, id int
	w       zzref.Word
}

type zzT06World struct {
	g       *dictionary.Grammar
	lex     *dictionary.LexiconSet
	entries []zzT06Entry
}

var zzT06W *zzT06World

func ZZT06Setup() {
	w := &zzT06World{}
	pos := [][]string{zzNounPos}
	// ids and costs are told apart; some headwords are listed several times, one is not indexed
	sysWords := []string{"a", "ab", "abc", "b", "bc", "あ", "ああ", "ああい", "い", "あa", "aあ", "一", "一丁", "丁七", "七", "β", "αβ", "я", "0", "00", "あ", "ab", "丁", "一"}
	userWords := [][]string{{"a", "b", "bca", "ああ", "い一", "一丁七", "а", "あ"}, {"一", "γ", "ab", "c", "いa"}}
	sys := &zzref.Dict{Version: zzref.SystemVersion, Pos: pos, L: 40, R: 40}
	for i, s := range sysWords {
		x := zzref.W(s, int16(i), int16(39-i), int16(100*i-500), 0)
		if i == 22 {
			x.Left, x.NotIndexed = -1, true
		}
		sys.Words = append(sys.Words, x)
		w.entries = append(w.entries, zzT06Entry{0, i, x})
	}
	img, lay := sys.Image()
	w.g = dictionary.NewGrammar(img, 272, false)
	w.g.CharCategory = zzCategories(zzT06CharDef)
	w.lex = dictionary.NewLexiconSet(dictionary.NewDoubleArrayLexicon(img, lay.Lexicon, false))
	for d, ws := range userWords {
		user := &zzref.Dict{Version: zzref.UserVersion2}
		for i, s := range ws {
			x := zzref.W(s, int16(i+d), int16(i+20), int16(-1000*d-i), 0)
			user.Words = append(user.Words, x)
			w.entries = append(w.entries, zzT06Entry{d + 1, i, x})
		}
		uimg, ulay := user.Image()
		w.lex.Add(dictionary.NewDoubleArrayLexicon(uimg, ulay.Lexicon, false), int32(w.g.GetPartOfSpeechSize()))
		w.g.AddPosList(dictionary.NewGrammar(uimg, 272, false))
	}
	zzT06W = w
}

// zzT06Char is a character and its categories (as a set of harness bits: 1 Latin, 2 Greek, 4 Cyrillic, other).
func zzT06Char() (rune, int) {
	switch sym.Choose("class", 9) {
	case 0:
		return sym.Rune("latin", 'a', 'd'), 1
	case 1:
		return sym.Rune("greek", 'α', 'β'), 2
	case 2:
		return 'γ', 3
	case 3:
		return sym.Rune("cyrillic", 'а', 'я'), 4
	case 4:
		return sym.Rune("hiragana", 'ぁ', 'ぇ'), 8
	case 5:
		return sym.Rune("kanji", '一', '丁'), 16
	case 6:
		return '丂', 16 + 64
	case 7:
		return 'e', 1 + 64
	}
	return sym.Rune("digit", '0', '2'), 32
}

func zzT06Run(n int) {
	w := zzT06W
	rs := make([]rune, n)
	cats := make([]int, n)
	at := make([]int, n+1)
	for i := range rs {
		rs[i], cats[i] = zzT06Char()
		size := 3
		if cats[i]&(8+16) == 0 {
			size = 2
			if cats[i]&(2+4) == 0 {
				size = 1
			}
		}
		at[i+1] = at[i] + size
	}
	text := string(rs)
	sym.Assert(len(text) == at[n], "the text has the expected length")
	prov := &zzT06Provider{}
	watch := &zzT06Watch{}
	t := NewJapaneseTokenizer(w.g, w.lex, nil, []OovProviderPlugin{prov}, []PathRewritePlugin{watch})
	_, err := t.Tokenize("C", text)
	if err != nil {
		sym.Fail("the text can be tokenized")
		return
	}
	canBow := func(i int) bool {
		return i == 0 || cats[i]&7 == 0 || cats[i]&cats[i-1] == 0
	}
	used := 0
	for i := 0; i < n; i++ {
		// with the provider of the harness every admissible position is reachable
		for j := i + 1; j <= n; j++ {
			var nodes []*LatticeNode
			oovs := 0
			for _, x := range watch.words[at[j]] {
				if x.Begin != at[i] {
					continue
				}
				used++
				if x.IsOOV() {
					oovs++
				} else {
					nodes = append(nodes, x)
				}
			}
			if !canBow(i) {
				sym.Assert(len(nodes) == 0 && oovs == 0, "no word begins inside an alphabetic run")
				sym.Reach("inside a run")
				continue
			}
			sub := text[at[i]:at[j]]
			for _, e := range w.entries {
				if len(e.w.Surface) != len(sub) {
					continue
				}
				found := 0
				for _, x := range nodes {
					if x.GetWordId() == e.dic<<28|e.id {
						found++
						sym.Assert(x.leftId == e.w.Left && x.rightId == e.w.Right && int16(x.GetPathCost()) == e.w.Cost, "a candidate has its entry's ids and cost")
						sym.Assert(x.GetDictionaryId() == e.dic, "a candidate belongs to its dictionary")
						sym.Reach("candidate")
					}
				}
				sym.Assert(found <= 1, "a word is a candidate once")
				want := e.w.Left != -1
				if want {
					sym.Assert(sym.EqStr(sub, e.w.Surface) == (found == 1), "exactly the matching words are candidates")
				} else {
					sym.Assert(found == 0, "a word that is not indexed is no candidate")
				}
			}
			for _, x := range nodes {
				ok := false
				for _, e := range w.entries {
					if x.GetWordId() == e.dic<<28|e.id && len(e.w.Surface) == len(sub) {
						ok = true
					}
				}
				sym.Assert(ok, "every candidate is a dictionary word of that length")
			}
		}
	}
	total := 0
	for e := 1; e < len(watch.words); e++ {
		total += len(watch.words[e])
	}
	sym.Assert(total == used, "words begin and end at characters")
	for i, c := range prov.calls {
		k := 0
		for k < n && at[k] != c {
			k++
		}
		sym.Assert(k < n && canBow(k) && (i == 0 || prov.calls[i-1] < c), "unknown words are asked for where words may begin")
	}
}

// ZZT06Words: all texts of 1 to 3 (thorough: 4) characters of the classes.
func ZZT06Words() {
	n := 3
	if sym.Thorough() {
		n = 4
	}
	zzT06Run(1 + sym.Choose("length", n))
}

// ZZT06Many: up to 16 dictionaries, each with words of its own and words all of them have.
func ZZT06Many() {
	num := 2 + sym.Choose("dictionaries", 15)
	sys := &zzref.Dict{Version: zzref.SystemVersion, Pos: [][]string{zzNounPos}, L: 40, R: 40, Words: []zzref.Word{zzref.W("あ", 1, 2, 3, 0), zzref.W("あい", 1, 2, 4, 0)}}
	img, lay := sys.Image()
	g := dictionary.NewGrammar(img, 272, false)
	g.CharCategory = zzCategories(zzT06CharDef)
	lex := dictionary.NewLexiconSet(dictionary.NewDoubleArrayLexicon(img, lay.Lexicon, false))
	for d := 1; d < num; d++ {
		user := &zzref.Dict{Version: zzref.UserVersion2, Words: []zzref.Word{zzref.W("あ", int16(d), 2, int16(100+d), 0), zzref.W(string([]rune{rune('あ' + d)}), int16(d), 3, int16(200+d), 0)}}
		uimg, ulay := user.Image()
		lex.Add(dictionary.NewDoubleArrayLexicon(uimg, ulay.Lexicon, false), int32(g.GetPartOfSpeechSize()))
	}
	r := sym.Rune("char", 'ぁ', 'と')
	watch := &zzT06Watch{}
	t := NewJapaneseTokenizer(g, lex, nil, []OovProviderPlugin{&zzT06Provider{}}, []PathRewritePlugin{watch})
	text := string([]rune{'あ', r})[:3*(1+sym.Choose("length", 2))]
	_, err := t.Tokenize("C", text)
	if err != nil {
		sym.Fail("the text can be tokenized")
		return
	}
	for d := 0; d < num; d++ {
		found := 0
		for _, x := range watch.words[3] {
			if x.GetWordId() == d<<28 && !x.IsOOV() {
				found++
				want := 100 + d
				if d == 0 {
					want = 3
				}
				sym.Assert(x.Begin == 0 && x.GetPathCost() == want, "a candidate has its entry's cost")
			}
		}
		sym.Assert(found == 1, "every dictionary's word is a candidate once")
		if d > 0 && len(text) == 6 {
			found, same := 0, 0
			for _, x := range watch.words[6] {
				if x.Begin == 3 && x.GetWordId() == d<<28|1 && !x.IsOOV() {
					found++
				}
				if x.Begin == 3 && x.GetWordId() == d<<28 && !x.IsOOV() {
					same++
				}
			}
			sym.Assert((found == 1) == (r == rune('あ'+d)) && found <= 1, "a word of one dictionary is a candidate where it matches")
			sym.Assert((same == 1) == (r == 'あ') && same <= 1, "a word of all dictionaries is a candidate of each where it matches")
		}
	}
	sym.Reach("found")
}

// ZZT06Long: words of hundreds of bytes in texts of a thousand.
func ZZT06Long() {
	lens := []int{1, 21, 22, 63, 64, 85, 86, 100, 170, 171, 342}
	long := make([]rune, 350)
	for i := range long {
		long[i] = 'あ' + rune((i*i/3)%23)
	}
	sys := &zzref.Dict{Version: zzref.SystemVersion, Pos: [][]string{zzNounPos}, L: 1, R: 1}
	for i, l := range lens {
		// the lengths of headwords end at 255 characters; the index does not
		x := zzref.W(string(long[:l]), 0, 0, int16(i), 0)
		x.Headword, x.Surface = x.Surface, "あ"
		x.HeadLen = 3
		sys.Words = append(sys.Words, x)
	}
	img, lay := sys.Image()
	g := dictionary.NewGrammar(img, 272, false)
	g.CharCategory = zzCategories(zzT06CharDef)
	lex := dictionary.NewLexiconSet(dictionary.NewDoubleArrayLexicon(img, lay.Lexicon, false))
	before := []int{0, 1, 40, 300}[sym.Choose("before", 4)]
	text := make([]rune, 0, before+len(long))
	for i := 0; i < before; i++ {
		text = append(text, 'ん')
	}
	text = append(text, long...)
	ends := []int{1, 20, 22, 63, 85, 99, 100, 171, 341, 342}
	at := before + ends[sym.Choose("changed", len(ends))]
	orig := text[at]
	text[at] = sym.Rune("char", 'ぁ', 'ん')
	watch := &zzT06Watch{}
	t := NewJapaneseTokenizer(g, lex, nil, []OovProviderPlugin{&zzT06Provider{}}, []PathRewritePlugin{watch})
	_, err := t.Tokenize("C", string(text))
	if err != nil {
		sym.Fail("the text can be tokenized")
		return
	}
	for i, l := range lens {
		found := 0
		for _, x := range watch.words[3*(before+l)] {
			if x.Begin == 3*before && !x.IsOOV() {
				sym.Assert(x.GetWordId() == i && x.GetPathCost() == i, "a candidate has its entry's id and cost")
				found++
			}
		}
		want := true
		if before+l > at {
			want = text[at] == orig
		}
		sym.Assert((found == 1) == want && found <= 1, "exactly the matching words are candidates")
	}
	sym.Reach("long")
}
