package dictionary

import (
	"github.com/msnoigrs/gosudachi/internal/zzref"
	sym "github.com/msnoigrs/gosudachi/internal/zzsym"
)

var zzD02Heads = [][]string{
	{"a", "a", "aa", "b", "ab", "aab", "", "ba", "a"},
	{"a", "bb", "", "ab", "ab"},
	{"b", "aaa", "c"},
	{""},
}

// zzD02Bytes is a text: each byte one of the letters or an arbitrary other one.
func zzD02Bytes(n int, letters string) []byte {
	q := make([]byte, n)
	for i := range q {
		if k := sym.Choose("class", len(letters)+1); k < len(letters) {
			q[i] = letters[k]
			continue
		}
		q[i] = sym.Byte("byte")
		for k := 0; k < len(letters); k++ {
			sym.Assume(q[i] != letters[k])
		}
	}
	return q
}

type zzD02Iter interface {
	Next() bool
	Get() (int32, int)
	Err() error
}

type zzD02Entry struct {
	head    string
	dic, id int
}

// zzD02Check: it yields the entries that match text at offset, whatever the style of use.
func zzD02Check(open func() zzD02Iter, entries []zzD02Entry, text []byte, offset int) {
	style := sym.Choose("style", 3)
	it := open()
	count := make([]int, len(entries))
	for n := 0; ; n++ {
		if n > 40 {
			sym.Fail("a lookup ends")
			return
		}
		if !it.Next() {
			break
		}
		if style == 1 {
			sym.Assert(it.Next() && it.Next(), "asking for the next result again loses nothing")
		}
		id, end := it.Get()
		sym.Assert(it.Err() == nil, "a result is no error")
		known := false
		for i, e := range entries {
			if uint32(id) == uint32(e.dic)<<28|uint32(e.id) {
				known = true
				count[i]++
				sym.Assert(end == offset+len(e.head), "a result ends after its headword")
				sym.Reach("found")
			}
		}
		sym.Assert(known, "a result names an entry")
	}
	sym.Assert(!it.Next() && it.Err() == nil, "a lookup stays at its end")
	if style == 2 {
		// the results without asking
		n := 0
		for _, c := range count {
			n += c
		}
		it = open()
		for i := 0; i < n; i++ {
			if !it.Next() {
				sym.Fail("a second lookup gives as much")
				return
			}
			it.Get()
		}
		sym.Assert(!it.Next(), "a second lookup gives as much")
	}
	for i, e := range entries {
		want := false
		if e.head != "" && offset+len(e.head) <= len(text) {
			want = sym.EqStr(string(text[offset:offset+len(e.head)]), e.head)
		}
		sym.Assert((count[i] == 1) == want && count[i] <= 1, "exactly the matching entries are found, once")
	}
}

func zzD02Words(k int) ([]zzref.Word, []zzD02Entry) {
	var ws []zzref.Word
	var es []zzD02Entry
	for i, h := range zzD02Heads[k] {
		w := zzref.W(h, int16(i), int16(i), 0, 0)
		w.Surface = "x"
		ws = append(ws, w)
		es = append(es, zzD02Entry{h, 0, i})
	}
	return ws, es
}

// ZZD02Single: one dictionary.
func ZZD02Single() {
	k := sym.Choose("dic", len(zzD02Heads))
	ws, es := zzD02Words(k)
	lex := zzLexicon(ws, sym.Choose("encoding", 2) == 1)
	offset := sym.Choose("offset", 3)
	n := 3
	if sym.Thorough() {
		n = 5
	}
	text := append([]byte("ab"[:offset]), zzD02Bytes(sym.Choose("length", n+1), "abc")...)
	zzD02Check(func() zzD02Iter { return lex.Lookup(text, offset) }, es, text, offset)
}

// ZZD02Set: one to four dictionaries, in any order.
func ZZD02Set() {
	n := 1 + sym.Choose("dics", 4)
	var set *LexiconSet
	var all []zzD02Entry
	for d := 0; d < n; d++ {
		ws, es := zzD02Words(sym.Choose("dic", len(zzD02Heads)))
		if d == 0 {
			set = NewLexiconSet(zzLexicon(ws, false))
		} else {
			set.Add(zzLexicon(ws, false), 5)
		}
		for _, e := range es {
			e.dic = d
			all = append(all, e)
		}
	}
	l := 1
	if sym.Thorough() {
		l = 2
	}
	text := append([]byte("a"), zzD02Bytes(sym.Choose("length", 2+l), "ab")...)
	zzD02Check(func() zzD02Iter { return set.Lookup(text, 1) }, all, text, 1)
}

// ZZD02Full: as many dictionaries as a set can take.
func ZZD02Full() {
	var set *LexiconSet
	var all []zzD02Entry
	for d := 0; d < LexiconSetMaxDictionaries; d++ {
		ws, es := zzD02Words((d * 7) % len(zzD02Heads))
		if d == 0 {
			set = NewLexiconSet(zzLexicon(ws, false))
		} else {
			sym.Assert(!set.IsFull(), "there is room for sixteen dictionaries")
			set.Add(zzLexicon(ws, false), 5)
		}
		for _, e := range es {
			e.dic = d
			all = append(all, e)
		}
	}
	sym.Assert(set.IsFull(), "there is no room for more than sixteen dictionaries")
	text := zzD02Bytes(3, "ab")
	it := set.Lookup(text, 0)
	count := make([]int, len(all))
	for it.Next() {
		id, end := it.Get()
		for i, e := range all {
			if set.GetDictionaryId(id) == e.dic && uint32(id)&0xFFFFFFF == uint32(e.id) {
				count[i]++
				sym.Assert(end == len(e.head), "a result ends after its headword")
				sym.Reach("found")
			}
		}
	}
	for i, e := range all {
		sym.Assert((count[i] == 1) == (e.head != "" && len(e.head) <= 3 && sym.EqStr(string(text[:zzMin(len(e.head), 3)]), e.head)), "exactly the matching entries are found, once")
	}
}

// ZZD02Long: headwords and offsets of hundreds of bytes.
func ZZD02Long() {
	long, n := "", []int{42, 85, 120}[sym.Choose("size", 3)]
	for i := 0; i < n; i++ {
		long += "あ"
	}
	heads := []string{long, long, long + "a", "あ", long[:len(long)-3], long + "ab", long + "ab"}
	var ws []zzref.Word
	var es []zzD02Entry
	for i, h := range heads {
		ws = append(ws, zzref.W(h, int16(i), int16(i), 0, 0))
		ws[i].Surface = "x"
		ws[i].HeadLen = 0
		es = append(es, zzD02Entry{h, 0, i})
	}
	lex := zzLexicon(ws, false)
	offset := []int{0, 126, 200, 70000}[sym.Choose("offset", 4)]
	text := append(append(make([]byte, offset), long...), zzD02Bytes(sym.Choose("length", 3), "ab")...)
	if sym.Choose("set", 2) == 1 {
		set := NewLexiconSet(lex)
		zzD02Check(func() zzD02Iter { return set.Lookup(text, offset) }, es, text, offset)
	} else {
		zzD02Check(func() zzD02Iter { return lex.Lookup(text, offset) }, es, text, offset)
	}
}

// ZZD02Many: as many entries for one headword as there can be.
func ZZD02Many() {
	n := []int{1, 100, 127, 128, 200, 255}[sym.Choose("entries", 6)]
	var ws []zzref.Word
	var es []zzD02Entry
	for i := 0; i < n+3; i++ {
		h := "ab"
		if i >= n {
			h = []string{"a", "abc", "b"}[i-n]
		}
		w := zzref.W(h, int16(i), int16(i), 0, 0)
		w.Surface, w.HeadLen = "x", len(h)
		ws = append(ws, w)
		es = append(es, zzD02Entry{h, 0, i})
	}
	lex := zzLexicon(ws, false)
	text := zzD02Bytes(3, "abc")
	open := func() zzD02Iter { return lex.Lookup(text, 0) }
	if sym.Choose("set", 2) == 1 {
		set := NewLexiconSet(lex)
		open = func() zzD02Iter { return set.Lookup(text, 0) }
	}
	it := open()
	count := make([]int, n+3)
	for it.Next() {
		id, end := it.Get()
		if id < 0 || int(id) >= len(count) || it.Err() != nil {
			sym.Fail("a result names an entry")
			return
		}
		sym.Assert(end == len(es[id].head), "a result ends after its headword")
		count[id]++
	}
	for i, e := range es {
		want := string(text[:len(e.head)]) == e.head
		sym.Assert(count[i] <= 1 && (count[i] == 1) == want, "exactly the matching entries are found, once")
		if want && i < n {
			sym.Reach("found")
		}
	}
}
