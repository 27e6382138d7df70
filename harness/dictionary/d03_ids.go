package dictionary

import (
	"strings"

	"github.com/msnoigrs/gosudachi/internal/zzref"
	sym "github.com/msnoigrs/gosudachi/internal/zzsym"
)

// ZZD03Resolve: the words of one to three user dictionaries and the system dictionary, with
// arbitrary ids, costs, parts of speech and references.
func ZZD03Resolve() {
	const sysPos = 3
	utf16 := sym.Choose("encoding", 2) == 1
	dics := 2 + sym.Choose("dics", 3)
	userPos := []int{0, 2, 1, 3}
	ask := sym.Choose("ask", dics)

	var names [][]string // of all parts of speech, by dictionary
	sys := zzPosNames("s", sysPos)
	names = append(names, sys...)
	var set *LexiconSet
	var g *Grammar
	var want zzref.Word
	var lists [3][]int32
	var wantPos []string
	for d := 0; d < dics; d++ {
		dic := &zzref.Dict{Version: zzref.UserVersion2, UTF16: utf16}
		own := zzPosNames(string(rune('0'+d)), userPos[d])
		if d == 0 {
			dic.Version = zzref.SystemVersion
			own = sys
			dic.L, dic.R = 1, 1
		}
		dic.Pos = own
		for i := 0; i < 3; i++ {
			w := zzref.W("dummy", 9, 9, 9, 0)
			if d == ask && i == 1 {
				w.Left, w.Right, w.Cost = sym.Int16("left"), sym.Int16("right"), sym.Int16("cost")
				w.Surface = "表" + string(sym.Rune("surface", 'a', 'z'))
				w.HeadLen = sym.Choose("long", 2)*200 + 4
				if sym.Choose("norm", 2) == 1 {
					w.Norm = "正" + string(sym.Rune("normalized", 'a', 'z'))
					w.Reading = "ヨ" + string(sym.Rune("reading", 'a', 'z'))
				}
				w.DicForm = int32(sym.Choose("dicForm", 4)) - 1
				var n int
				if d == 0 {
					n = sysPos
				} else {
					n = sysPos + userPos[d]
				}
				p := sym.Choose("pos", n)
				w.Pos = int16(p)
				if p < sysPos {
					wantPos = sys[p]
				} else {
					wantPos = own[p-sysPos]
				}
				sizes := [][3]int{{1, 2, 3}, {2, 0, 3}, {0, 1, 2}, {3, 2, 0}, {0, 0, 4}}[sym.Choose("sizes", 5)]
				for k := range lists {
					for j := 0; j < sizes[k]; j++ {
						id := sym.Int32("ref")
						if d == 0 {
							sym.Assume(uint32(id)>>28 == 0)
						}
						lists[k] = append(lists[k], id)
					}
				}
				w.A, w.B, w.Struct = lists[0], lists[1], lists[2]
				want = w
			} else if i == 2 {
				w.Surface = "他" + string(rune('0'+d))
				w.DicForm = 1 // refers to the word that may refer to it
			}
			dic.Words = append(dic.Words, w)
		}
		img, lay := dic.Image()
		dg := NewGrammar(img, 272, utf16)
		lex := NewDoubleArrayLexicon(img, lay.Lexicon, utf16)
		if d == 0 {
			g = dg
			set = NewLexiconSet(lex)
		} else {
			set.Add(lex, int32(g.GetPartOfSpeechSize()))
			g.AddPosList(dg)
		}
	}
	id := int32(uint32(ask)<<28 | 1)
	sym.Assert(set.Size() == int32(3*dics), "the set has all words")
	sym.Assert(set.GetDictionaryId(id) == ask, "a word id tells its dictionary")
	sym.Assert(set.GetLeftId(id) == want.Left && set.GetRightId(id) == want.Right && set.GetCost(id) == want.Cost, "a word has its own ids and cost")
	for round := 0; round < 2; round++ {
		wi := set.GetWordInfo(id)
		sym.Assert(sym.EqStr(wi.Surface, want.Surface), "a word has its own surface")
		sym.Assert(int(wi.HeadwordLength) == want.HeadLen, "a word has its own length")
		sym.Assert(sym.EqStr(wi.NormalizedForm, zzStr(want.Norm, want.Surface)) && sym.EqStr(wi.ReadingForm, zzStr(want.Reading, want.Surface)), "a word has its own forms")
		sym.Assert(strings.Join(g.GetPartOfSpeechString(wi.PosId), ",") == strings.Join(wantPos, ","), "a word has its own part of speech")
		form := []string{want.Surface, "dummy", want.Surface, "他" + string(rune('0'+ask))}[want.DicForm+1]
		sym.Assert(wi.DictionaryFormWordId == want.DicForm && sym.EqStr(wi.DictionaryForm, form), "a word has the dictionary form of its own dictionary")
		for k, got := range [][]int32{wi.AUnitSplit, wi.BUnitSplit, wi.WordStructure} {
			sym.Assert(len(got) == len(lists[k]), "a word has its own units")
			for j := range got {
				ref := uint32(lists[k][j])
				own := uint32(ask)<<28 | ref&0xFFFFFFF
				sym.Assert(sym.Or(sym.And(ref>>28 == 0, uint32(got[j]) == ref), sym.And(ref>>28 != 0, uint32(got[j]) == own)), "units refer to the system or the word's own dictionary")
			}
		}
	}
	// the other words are their own dictionary's
	for d := 0; d < dics; d++ {
		sym.Assert(set.GetWordInfo(int32(uint32(d)<<28|2)).Surface == "他"+string(rune('0'+d)), "a word id names the word of its dictionary")
		sym.Assert(set.GetCost(int32(uint32(d)<<28)) == 9, "a word id names the word of its dictionary")
	}
	sym.Reach("resolved")
}

// ZZD03Full: as many dictionaries as a set takes, the last ones of which are asked.
func ZZD03Full() {
	ids := []int{0, 1, 2, 7, 8, 14, 15, 16}
	ask := ids[sym.Choose("ask", len(ids))]
	ref := sym.Int32("ref")
	if ask == 0 {
		sym.Assume(uint32(ref)>>28 == 0)
	}
	cost := sym.Int16("cost")
	pos := int16(sym.Int("pos", 0, 2000))
	offset := func(d int) int {
		if d == 0 {
			return 0
		}
		return 1003 + 1000*(d-1)
	}
	var set *LexiconSet
	n := 0
	for d := 0; d < 20; d++ {
		w := zzref.W("w", 1, 2, int16(d), 0)
		w.Surface = string(rune('a' + d))
		if d == ask {
			w.Cost = cost
			w.A = []int32{5, ref}
			w.Pos = pos
		}
		if d > 0 && set.IsFull() {
			break
		}
		lex := zzLexicon([]zzref.Word{w}, false)
		if d == 0 {
			set = NewLexiconSet(lex)
		} else {
			set.Add(lex, int32(offset(d)))
		}
		n++
	}
	if ask >= n {
		sym.Skip()
	}
	id := int32(uint32(ask) << 28)
	sym.Assert(set.GetDictionaryId(id) == ask, "a word id tells its dictionary")
	wi := set.GetWordInfo(id)
	sym.Assert(wi.Surface == string(rune('a'+ask)) && set.GetCost(id) == cost, "a word id names the word of its dictionary")
	if ask == 0 {
		sym.Assert(wi.PosId == pos, "a system part of speech is kept")
	} else {
		want := sym.Ite(pos < 1003, int(pos), int(pos)-1003+offset(ask))
		sym.Assert(int(wi.PosId) == want, "a part of speech is that of the word's own dictionary")
	}
	own := uint32(ask)<<28 | uint32(ref)&0xFFFFFFF
	sym.Assert(wi.AUnitSplit[0] == 5, "units of the system are kept")
	sym.Assert(sym.Or(sym.And(uint32(ref)>>28 == 0, wi.AUnitSplit[1] == ref), sym.And(uint32(ref)>>28 != 0, uint32(wi.AUnitSplit[1]) == own)), "units refer to the system or the word's own dictionary")
	sym.Reach("full")
}

// ZZD03Search: finding a word by its surface, part of speech and reading.
func ZZD03Search() {
	var set *LexiconSet
	type ent struct {
		dic, id int
		s, r    string
		pos     int16
	}
	var all []ent
	for d := 0; d < 3; d++ {
		var ws []zzref.Word
		for i := 0; i < 3; i++ {
			s, r := string(sym.Rune("surface", 'a', 'b')), string(sym.Rune("reading", 'a', 'b'))
			w := zzref.W("w", 1, 2, 3, int16(i/2))
			w.Surface, w.Reading = s, r
			ws = append(ws, w)
			all = append(all, ent{d, i, s, r, int16(i / 2)})
		}
		lex := zzLexicon(ws, false)
		if d == 0 {
			set = NewLexiconSet(lex)
		} else {
			set.Add(lex, 2)
		}
	}
	s, r, p := string(sym.Rune("askedSurface", 'a', 'b')), string(sym.Rune("askedReading", 'a', 'b')), int16(sym.Choose("askedPos", 2))
	id := set.GetWordId(s, p, r)
	match := func(e ent) bool {
		return sym.And(e.pos == p, sym.And(sym.EqStr(e.s, s), sym.EqStr(e.r, r)))
	}
	any := false
	for _, e := range all {
		any = sym.Or(any, match(e))
		if uint32(id) == uint32(e.dic)<<28|uint32(e.id) {
			sym.Assert(match(e), "the word found is one that was asked for")
			sym.Reach("found")
		}
	}
	sym.Assert((id == -1) == sym.Not(any), "a word is found exactly if there is one")
}

var zzD03ManySet *LexiconSet
var zzD03ManyIds = []int{0, 1, 127, 128, 255, 256, 4095, 4096, 32767, 32768, 40000, 65535, 65536, 65700, 65999}

// ZZD03ManySetup makes a dictionary of more words than 16 bits can count.
func ZZD03ManySetup() {
	d := &zzref.Dict{Version: zzref.UserVersion2}
	for i := 0; i < 66000; i++ {
		d.Words = append(d.Words, zzref.Word{NotIndexed: true, Left: int16(i), Right: int16(i / 3), Cost: int16(i * 7), Surface: "w", HeadLen: i & 127, Pos: int16(i % 30000), DicForm: -1})
	}
	for k, i := range zzD03ManyIds {
		w := &d.Words[i]
		w.NotIndexed, w.Headword = false, "k"+string(rune('a'+k/3))
		w.A = []int32{int32(uint32(1)<<28 | uint32(i+k)), int32(i)}
		w.DicForm = int32(zzD03ManyIds[len(zzD03ManyIds)-1-k])
		w.Surface = "s" + string(rune('a'+k))
	}
	lex := NewDoubleArrayLexicon(d.Lexicon(nil, &zzref.Layout{}), 0, false)
	zzD03ManySet = NewLexiconSet(zzLexicon([]zzref.Word{zzref.W("x", 1, 2, 3, 0)}, false))
	zzD03ManySet.Add(zzLexicon([]zzref.Word{zzref.W("y", 1, 2, 3, 0)}, false), 32767)
	zzD03ManySet.Add(lex, 32767)
}

// ZZD03Many: words with ids past what 7, 8, 12, 15 and 16 bits can hold.
func ZZD03Many() {
	set := zzD03ManySet
	sym.Assert(set.Size() == 66002, "the set has all words")
	k := sym.Choose("word", len(zzD03ManyIds))
	i := zzD03ManyIds[k]
	id := int32(uint32(2)<<28 | uint32(i))
	sym.Assert(set.GetDictionaryId(id) == 2, "a word id tells its dictionary")
	sym.Assert(set.GetLeftId(id) == int16(i) && set.GetRightId(id) == int16(i/3) && set.GetCost(id) == int16(i*7), "a word has its own ids and cost")
	wi := set.GetWordInfo(id)
	sym.Assert(wi.Surface == "s"+string(rune('a'+k)) && int(wi.HeadwordLength) == i&127, "a word has its own surface")
	sym.Assert(int(wi.PosId) == i%30000, "a word has its own part of speech")
	sym.Assert(len(wi.AUnitSplit) == 2 && uint32(wi.AUnitSplit[0]) == 2<<28|uint32(i+k) && wi.AUnitSplit[1] == int32(i), "a word has its own units")
	sym.Assert(int(wi.DictionaryFormWordId) == zzD03ManyIds[len(zzD03ManyIds)-1-k], "a word has its own dictionary form")
	sym.Assert(wi.DictionaryForm == "s"+string(rune('a'+len(zzD03ManyIds)-1-k)), "a word has its own dictionary form")
	// which words a text has
	c := sym.ByteIn("letter", 'a', 'e')
	it := set.Lookup([]byte{'k', c, 'z'}, 0)
	n := 0
	for it.Next() {
		got, end := it.Get()
		sym.Assert(end == 2, "the words found are those of the text")
		mine := false
		for j, w := range zzD03ManyIds {
			mine = sym.Or(mine, sym.And(uint32(got) == 2<<28|uint32(w), c == byte('a'+j/3)))
		}
		sym.Assert(mine, "the words found are those of the text")
		n++
	}
	sym.Assert(n == 3 && it.Err() == nil, "all words of the text are found")
	sym.Reach("found")
}
