package gosudachi

import (
	"strings"

	"github.com/msnoigrs/gosudachi/dictionary"
	"github.com/msnoigrs/gosudachi/internal/zzref"
	sym "github.com/msnoigrs/gosudachi/internal/zzsym"
)

var zzT11World *zzWorld

func ZZT11Setup() { zzT11World = zzWorldNew() }

// zzT11Is reads every attribute of m in the given order and compares it with the source's word.
func zzT11Is(m *Morpheme, order int) {
	w := zzT11World
	dic := m.GetDictionaryId()
	id := m.GetWordId()
	if dic < 0 {
		sym.Assert(dic == -1, "a word of no dictionary says so")
		m.GetWordInfo()
		sym.Assert(m.GetDictionaryId() == -1, "reading an attribute changes nothing")
		return
	}
	var word zzref.Word
	words := w.sys.Words
	if dic == 1 {
		words = w.user.Words
	}
	n := id & 0xfffffff
	if dic > 1 || id>>28 != dic || n >= len(words) {
		sym.Fail("a word id names its dictionary and its word")
		return
	}
	word = words[n]
	norm, reading, form := word.Norm, word.Reading, word.Surface
	if norm == "" {
		norm = word.Surface
	}
	if reading == "" {
		reading = word.Surface
	}
	if word.DicForm >= 0 {
		form = w.sys.Words[word.DicForm].Surface
	}
	pos := zzWorldUserPos
	if int(word.Pos) < len(w.sys.Pos) {
		pos = w.sys.Pos[word.Pos]
	}
	for round := 0; round < 2; round++ {
		for k := 0; k < 9; k++ {
			switch (k*(1+order) + order) % 9 {
			case 0:
				sym.Assert(m.GetDictionaryId() == dic, "a word of a dictionary names it")
			case 1:
				sym.Assert(m.GetWordId() == id, "a word's id stays")
			case 2:
				sym.Assert(m.NormalizedForm() == norm, "the normalized form is the entry's")
			case 3:
				sym.Assert(m.ReadingForm() == reading, "the reading is the entry's")
			case 4:
				sym.Assert(m.DictionaryForm() == form, "the dictionary form is the entry's")
			case 5:
				sym.Assert(strings.Join(m.PartOfSpeech(), ",") == strings.Join(pos, ","), "the part of speech is the entry's")
			case 6:
				sym.Assert(!m.IsOOV(), "a word of a dictionary is no unknown word")
			case 7:
				wi := m.GetWordInfo()
				sym.Assert(wi.Surface == word.Surface && int(wi.HeadwordLength) == len(word.Surface) && wi.DictionaryFormWordId == word.DicForm, "the word's information is the entry's")
			case 8:
				m.Split("A")
				m.Split("B")
				m.Surface()
			}
		}
	}
	sym.Reach("word")
}

// zzT11Keep keeps the path.
type zzT11Keep struct{ path []*LatticeNode }

func (p *zzT11Keep) GetConfigStruct() interface{}            { return nil }
func (p *zzT11Keep) SetUp(grammar *dictionary.Grammar) error { return nil }
func (p *zzT11Keep) Rewrite(text *InputText, path *[]*LatticeNode, lattice *Lattice) error {
	p.path = append([]*LatticeNode(nil), (*path)...)
	return nil
}

// ZZT11Words: every morpheme of a text reports its entry's attributes.
func ZZT11Words() {
	w := zzT11World
	t := w.tokenizer()
	pieces := []string{"東京都", "京都東", "京都", "都東", "東", "株式会社", "あい", "㍿", "a", "ん"}
	plugins := sym.Choose("plugins", 2) == 1
	text := pieces[sym.Choose("piece", len(pieces))]
	if !plugins {
		t.pathRewritePlugins = nil
		text += string([]rune{zzWorldChar()})
	} else {
		text += pieces[sym.Choose("piece", len(pieces))]
	}
	if sym.Choose("more", 2) == 1 {
		text += pieces[sym.Choose("piece", len(pieces))]
	}
	mode := []string{"C", "A", "B"}[sym.Choose("mode", 3)]
	keep := &zzT11Keep{}
	t.pathRewritePlugins = append(append([]PathRewritePlugin{}, t.pathRewritePlugins...), keep)
	order := sym.Choose("order", 2) * 3
	ms, err := t.Tokenize(mode, text)
	if err != nil {
		sym.Reach("refused")
		return
	}
	for i := 0; i < ms.Length(); i++ {
		m := ms.Get(i)
		// nothing here is joined
		sym.Assert(m.IsOOV() == (m.GetDictionaryId() == -1), "exactly the unknown words have no dictionary")
		zzT11Is(m, order)
		if mode == "C" {
			for _, split := range []string{"A", "B"} {
				us := m.Split(split)
				for j := 0; j < us.Length(); j++ {
					zzT11Is(us.Get(j), order)
				}
			}
		}
		x := ms.Get(i)
		sym.Assert(x.GetDictionaryId() == m.GetDictionaryId() && x.IsOOV() == m.IsOOV() && x.NormalizedForm() == m.NormalizedForm(), "a morpheme asked for again is the same")
	}
	if mode == "C" {
		c := ms.GetInternalCost()
		sym.Assert(c == keep.path[len(keep.path)-1].GetPathCost()-keep.path[0].GetPathCost(), "the internal cost is the last word's cost less the first's")
	}
}

// ZZT11Joined: with numerals and katakana, words that are not joined keep their dictionary.
func ZZT11Joined() {
	t := zzT11World.tokenizer()
	pieces := []string{"東京", "京", "1", "アイ", "ガ", "ん", "二", "あ"}
	text := ""
	n := 1 + sym.Choose("pieces", 3)
	for i := 0; i < n; i++ {
		text += pieces[sym.Choose("piece", len(pieces))]
	}
	plain := zzT11World.tokenizer()
	plain.pathRewritePlugins = nil
	a, err := plain.Tokenize("C", text)
	b, err2 := t.Tokenize("C", text)
	sym.Assert((err == nil) == (err2 == nil), "path plugins do not fail here")
	if err != nil || err2 != nil {
		return
	}
	for i := 0; i < b.Length(); i++ {
		m := b.Get(i)
		for j := 0; j < a.Length(); j++ {
			x := a.Get(j)
			if x.Begin() == m.Begin() && x.End() == m.End() {
				if m.GetDictionaryId() != -1 || x.GetDictionaryId() == -1 {
					sym.Assert(m.GetDictionaryId() == x.GetDictionaryId() && m.GetWordId() == x.GetWordId() && m.IsOOV() == x.IsOOV(), "a word that is not joined stays that word")
				} else {
					sym.Assert(!m.IsOOV() && m.NormalizedForm() != x.NormalizedForm(), "a word of a dictionary is replaced only to be normalized")
					sym.Reach("normalized")
				}
			}
		}
		zzT11Is(m, 0)
	}
	sym.Reach("compared")
}
