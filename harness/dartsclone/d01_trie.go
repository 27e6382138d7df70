package dartsclone

import (
	"sort"

	sym "github.com/msnoigrs/gosudachi/internal/zzsym"
)

// zzD01Set is a set of keys in order, with their values.
type zzD01Set struct {
	keys   [][]byte
	values []int
}

func zzD01Universe(alphabet string, max int) []string {
	var all []string
	last := []string{""}
	for i := 0; i < max; i++ {
		var next []string
		for _, s := range last {
			for k := 0; k < len(alphabet); k++ {
				next = append(next, s+alphabet[k:k+1])
			}
		}
		all = append(all, next...)
		last = next
	}
	sort.Strings(all)
	return all
}

// zzD01Values gives the keys values: all different, all the same, or some shared.
func zzD01Values(n int) []int {
	return zzD01Scheme(n, sym.Choose("values", 5))
}

func zzD01Scheme(n, scheme int) []int {
	vs := make([]int, n)
	for i := range vs {
		switch scheme {
		case 0:
			vs[i] = i
		case 1:
			vs[i] = 7
		case 2:
			vs[i] = i % 3
		case 3:
			vs[i] = 1<<31 - 1 - i
		case 4:
			vs[i] = (i * i) % 5
		}
	}
	return vs
}

func zzD01Build(s *zzD01Set, values bool) *DoubleArray {
	da := NewDoubleArray()
	var err error
	if values {
		err = da.Build(s.keys, s.values, nil)
	} else {
		for i := range s.values {
			s.values[i] = i
		}
		calls := 0
		err = da.Build(s.keys, nil, func(state int, max int) { calls++ })
	}
	if err != nil {
		sym.Fail("a trie can be built from sorted keys")
	}
	return da
}

// zzD01Query checks all ways of searching for q from offset.
func zzD01Query(da *DoubleArray, s *zzD01Set, q []byte, offset int) {
	// exact search
	rest := q[offset:]
	v, n := da.ExactMatchSearch(rest)
	hit := n == len(rest) && len(rest) > 0
	any := false
	for i, k := range s.keys {
		if len(k) != len(rest) {
			continue
		}
		eq := sym.EqBytes(k, rest)
		any = sym.Or(any, eq)
		sym.Assert(sym.Or(sym.Not(eq), v == s.values[i]), "exact search gives the key's value")
	}
	sym.Assert(hit == any, "exact search finds exactly the keys")
	if !hit {
		sym.Assert(v == -1 && n == 0, "a miss is told apart")
	}
	// common prefix search
	all := da.CommonPrefixSearch(q, offset, 100)
	at := 0
	for e := offset + 1; e <= len(q); e++ {
		found := at < len(all) && all[at][1] == e
		any := false
		for i, k := range s.keys {
			if len(k) != e-offset {
				continue
			}
			eq := sym.EqBytes(k, q[offset:e])
			any = sym.Or(any, eq)
			if found {
				sym.Assert(sym.Or(sym.Not(eq), all[at][0] == s.values[i]), "prefix search gives the key's value")
			}
		}
		sym.Assert(found == any, "prefix search finds exactly the keys, in order of length")
		if found {
			at++
			sym.Reach("found")
		}
	}
	sym.Assert(at == len(all), "prefix search finds nothing else")
	for max := 0; max <= len(all)+1; max++ {
		few := da.CommonPrefixSearch(q, offset, max)
		want := len(all)
		if want > max {
			want = max
		}
		sym.Assert(len(few) == want, "as many results as asked for")
		for i := 0; i < want && i < len(few); i++ {
			sym.Assert(few[i] == all[i], "the first results")
		}
	}
	// the iterator, with and without asking
	for style := 0; style < 3; style++ {
		it := da.CommonPrefixSearchItr(q, offset)
		for i := range all {
			if style == 1 {
				sym.Assert(it.Next(), "the iterator has the next result")
			} else if style == 2 {
				sym.Assert(it.Next() && it.Next(), "asking twice changes nothing")
			}
			v, e := it.Get()
			sym.Assert(it.Err() == nil && v == all[i][0] && e == all[i][1], "the iterator gives the results of the list")
		}
		if style > 0 {
			sym.Assert(!it.Next() && !it.Next(), "the iterator ends")
			sym.Assert(it.Err() == nil, "the end is no error")
		} else {
			it.Get()
			sym.Assert(it.Err() != nil, "reading past the end is an error")
		}
	}
	// traversal
	r := da.Traverse(q, offset, len(q), 0)
	if hit {
		sym.Assert(r.Result == v && r.Offset == len(q), "traversal ends at the key")
	} else {
		sym.Assert(r.Result < 0, "traversal misses what is no key")
	}
	for mid := offset; mid <= len(q); mid++ {
		a := da.Traverse(q, offset, mid, 0)
		if a.Result == -2 {
			continue
		}
		b := da.Traverse(q, mid, len(q), a.NodePosition)
		sym.Assert(b.Result == r.Result, "traversal can be resumed")
	}
}

func zzD01Subset(all []string) *zzD01Set {
	s := &zzD01Set{}
	for _, k := range all {
		if sym.Choose("in", 2) == 1 {
			s.keys = append(s.keys, []byte(k))
		}
	}
	s.values = zzD01Values(len(s.keys))
	return s
}

// zzD01Bytes is an arbitrary string; bytes are split into those of the alphabet and others.
func zzD01Bytes(n int, alphabet string) []byte {
	q := make([]byte, n)
	for i := range q {
		if k := sym.Choose("class", len(alphabet)+1); k < len(alphabet) {
			q[i] = alphabet[k]
			continue
		}
		q[i] = sym.Byte("query")
		for k := 0; k < len(alphabet); k++ {
			sym.Assume(q[i] != alphabet[k])
		}
	}
	return q
}

// ZZD01All: every set of strings of up to three letters of two.
func ZZD01All() {
	s := &zzD01Set{}
	for _, k := range zzD01Universe("a\xE3", 3) {
		if sym.Choose("in", 2) == 1 {
			s.keys = append(s.keys, []byte(k))
		}
	}
	s.values = zzD01Scheme(len(s.keys), 1+sym.Choose("values", 2))
	da := zzD01Build(s, true)
	zzD01Query(da, s, zzD01Bytes(3, "a\xE3"), 0)
}

// ZZD01Small: every set of strings of up to two letters of two.
func ZZD01Small() {
	max := 2
	s := zzD01Subset(zzD01Universe("a\xE3", max))
	da := zzD01Build(s, sym.Choose("builder", 2) == 1)
	zzD01Query(da, s, zzD01Bytes(sym.Choose("length", max+2), "a\xE3"), 0)
}

// ZZD01Shared: larger sets, with shared suffixes.
func ZZD01Shared() {
	s := &zzD01Set{}
	var groups [5]bool
	for i := range groups {
		groups[i] = sym.Choose("group", 2) == 1
	}
	for i, k := range zzD01Universe("\x01b\xFF", 3) {
		if groups[i%5] {
			s.keys = append(s.keys, []byte(k))
		}
	}
	s.values = zzD01Values(len(s.keys))
	da := zzD01Build(s, true)
	offset := sym.Choose("offset", 2)
	n := 3
	if sym.Thorough() {
		n = 4
	}
	q := append([]byte("xy"[:offset]), zzD01Bytes(n, "\x01b\xFF")...)
	zzD01Query(da, s, q, offset)
}

// ZZD01Long: keys of several characters.
func ZZD01Long() {
	s := &zzD01Set{}
	for _, k := range []string{"a", "東京", "東京都", "東京都庁", "東", "都", "電気", "電気通信", "電気通信大学", "気", "京都", "通信", "信", "大学", "学"} {
		s.keys = append(s.keys, []byte(k))
	}
	sort.Slice(s.keys, func(i, j int) bool { return string(s.keys[i]) < string(s.keys[j]) })
	s.values = zzD01Values(len(s.keys))
	da := zzD01Build(s, sym.Choose("builder", 2) == 1)
	text := []byte("a東京都電気通信大学")
	i := sym.Choose("change", len(text))
	text[i] = sym.Byte("changed")
	zzD01Query(da, s, text, []int{0, 1, 4, 10}[sym.Choose("offset", 4)])
}

// ZZD01Large: a trie of many blocks.
func ZZD01Large() {
	s := &zzD01Set{}
	for a := 1; a < 60; a++ {
		for b := 1; b < 60; b++ {
			if (a*b)%7 != 3 {
				s.keys = append(s.keys, []byte{byte(4 * a), byte(3*b + a%2)})
			}
		}
	}
	s.values = make([]int, len(s.keys))
	for i := range s.values {
		s.values[i] = i
		if i%5 == 0 {
			s.values[i] = 3
		}
	}
	da := zzD01Build(s, true)
	a := []byte{4, 100, 236, 101}[sym.Choose("first", 4)]
	q := []byte{a, sym.Byte("query"), []byte{0, 60}[sym.Choose("third", 2)]}
	sub := &zzD01Set{}
	for i, k := range s.keys {
		if k[0] == a {
			sub.keys = append(sub.keys, k)
			sub.values = append(sub.values, s.values[i])
		}
	}
	zzD01Query(da, sub, q[:2+sym.Choose("length", 2)], 0)
}

// ZZD01Refused: keys out of order, empty keys, keys with a NUL and negative values are refused.
func ZZD01Refused() {
	n := 3
	letters := "\x00ab"
	s := &zzD01Set{}
	for i := 0; i < n; i++ {
		var k []byte
		for l := sym.Choose("length", 3); l > 0; l-- {
			k = append(k, letters[sym.Choose("letter", 3)])
		}
		s.keys = append(s.keys, k)
	}
	values := sym.Choose("builder", 2) == 1
	for i := 0; i < n; i++ {
		s.values = append(s.values, i)
	}
	bad := false
	for i, k := range s.keys {
		if len(k) == 0 {
			bad = true
		}
		for _, c := range k {
			if c == 0 {
				bad = true
			}
		}
		if i > 0 && string(k) < string(s.keys[i-1]) {
			bad = true
		}
	}
	if values {
		i := sym.Choose("negative", n+1)
		if i < n {
			bad = true
			s.values[i] = int(sym.Int32("value"))
			sym.Assume(s.values[i] < 0)
		}
	}
	da := NewDoubleArray()
	var err error
	if values {
		err = da.Build(s.keys, s.values, nil)
	} else {
		err = da.Build(s.keys, nil, nil)
	}
	if bad {
		sym.Assert(err != nil, "bad keys are refused")
		sym.Reach("refused")
		return
	}
	for i := 1; i < n; i++ {
		if string(s.keys[i]) == string(s.keys[i-1]) {
			return // a repeated key
		}
	}
	sym.Assert(err == nil, "good keys are accepted")
	zzD01Query(da, s, zzD01Bytes(2, "ab"), 0)
}

// ZZD01Nested: long chains of keys that begin with each other.
func ZZD01Nested() {
	long := []string{"abababababab", "ああああ", "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa"}[sym.Choose("keys", 3)]
	step := 1 + sym.Choose("step", 3)
	s := &zzD01Set{}
	for i := step; i <= len(long); i += step {
		s.keys = append(s.keys, []byte(long[:i]))
	}
	s.keys = append(s.keys, []byte("\xFF"))
	s.values = zzD01Values(len(s.keys))
	da := zzD01Build(s, true)
	text := []byte(long + "ab")
	if i := sym.Choose("change", 8); i < 7 {
		text[[]int{0, 1, 3, 5, 8, len(long) - 1, len(long)}[i]] = sym.Byte("changed")
	}
	zzD01Query(da, s, text, []int{0, 3}[sym.Choose("offset", 2)])
}

// ZZD01VeryLong: keys of hundreds and thousands of bytes, nested; one byte of the text is arbitrary.
func ZZD01VeryLong() {
	lens := [][]int{{1, 63, 64, 65}, {2, 127, 128, 129}, {254, 255, 256, 257}, {300, 511, 512, 513}, {3, 1023, 1025}}
	if sym.Thorough() {
		lens = append(lens, []int{1, 4095, 4097}, []int{7, 12000})
	}
	ls := lens[sym.Choose("lengths", len(lens))]
	top := ls[len(ls)-1]
	text := make([]byte, top+3)
	for i := range text {
		text[i] = "\xE3\x81\x82\xE3\x81\x84a"[(i*i/5)%7]
	}
	s := &zzD01Set{}
	for _, l := range ls {
		s.keys = append(s.keys, append([]byte{}, text[:l]...))
	}
	s.keys = append(s.keys, []byte("\xFF"))
	s.values = zzD01Scheme(len(s.keys), 0)
	da := zzD01Build(s, true)
	offset := 0
	if sym.Choose("offset", 2) == 1 {
		offset = 2
		text = append([]byte("\xFFa"), text...)
	}
	// around the ends of the keys, and the first and middle byte
	var at []int
	for _, l := range ls {
		at = append(at, l-1, l)
	}
	at = append(at, 0, top/2)
	text[offset+at[sym.Choose("change", len(at))]] = sym.Byte("changed")
	all := da.CommonPrefixSearch(text, offset, 100)
	n := 0
	for i, l := range ls {
		eq := sym.EqBytes(text[offset:offset+l], s.keys[i])
		if n < len(all) && all[n][0] == len(ls) {
			// the key that is no prefix of the others
			sym.Assert(all[n][1] == offset+1 && text[offset] == 0xFF, "prefix search finds exactly the keys")
			n++
		}
		found := n < len(all) && all[n][1] == offset+l
		sym.Assert(found == eq, "prefix search finds exactly the keys, in order of length")
		if found {
			sym.Assert(all[n][0] == i, "prefix search gives the key's value")
			n++
		}
		v, m := da.ExactMatchSearch(text[offset : offset+l])
		sym.Assert((m == l && v == i) == eq, "exact search finds exactly the keys")
	}
	sym.Assert(n == len(all), "prefix search finds nothing else")
	it := da.CommonPrefixSearchItr(text, offset)
	for i := range all {
		sym.Assert(it.Next(), "the iterator has the next result")
		v, e := it.Get()
		sym.Assert(it.Err() == nil && v == all[i][0] && e == all[i][1], "the iterator gives the results of the list")
		sym.Reach("found")
	}
	sym.Assert(!it.Next(), "the iterator ends")
	r := da.Traverse(text, offset, offset+top, 0)
	sym.Assert((r.Result == len(ls)-1) == sym.EqBytes(text[offset:offset+top], s.keys[len(ls)-1]), "traversal ends at the key")
}

// ZZD01Equal: hundreds of states that differ only in their bytes, with few different values.
func ZZD01Equal() {
	values := []int{1, 2, 7}[sym.Choose("values", 3)]
	tail := sym.Choose("tail", 2) == 1
	s := &zzD01Set{}
	for a := 1; a < 60; a++ {
		for b := 1; b <= 12; b++ {
			if (a*b)%7 != 3 {
				k := []byte{byte(4 * a), byte(3*b + a%2), byte(1 + (a*13+b*57)%254)}
				if tail {
					k = append(k, 'z')
				}
				s.keys = append(s.keys, k)
				s.values = append(s.values, (a+b)%values)
			}
		}
	}
	da := zzD01Build(s, true)
	a := byte(4 + 4*sym.Choose("first", 59))
	sub := &zzD01Set{}
	for i, k := range s.keys {
		if k[0] == a {
			sub.keys = append(sub.keys, k)
			sub.values = append(sub.values, s.values[i])
		}
	}
	k := sub.keys[sym.Choose("key", 3)*len(sub.keys)/3]
	q := append([]byte{}, k...)
	q[2] = sym.Byte("query")
	zzD01Query(da, sub, q, 0)
}

var zzD01HugeSet *zzD01Set
var zzD01HugeTries [2]*DoubleArray

func ZZD01HugeSetup() {
	s := &zzD01Set{}
	for a := 1; a < 80; a++ {
		for b := 1; b < 80; b++ {
			if (a*b)%5 != 3 {
				s.keys = append(s.keys, []byte{byte(3 * a), byte(3*b + a%2), byte(1 + (a*b)%250)})
				s.values = append(s.values, len(s.values))
			}
		}
	}
	zzD01HugeSet = s
	zzD01HugeTries[0] = zzD01Build(s, true)
	zzD01HugeTries[1] = zzD01Build(s, false)
}

// ZZD01Huge: a trie of dozens of blocks.
func ZZD01Huge() {
	da := zzD01HugeTries[sym.Choose("builder", 2)]
	a := byte(3 + 3*sym.Choose("first", 79))
	sub := &zzD01Set{}
	for i, k := range zzD01HugeSet.keys {
		if k[0] == a {
			sub.keys = append(sub.keys, k)
			sub.values = append(sub.values, zzD01HugeSet.values[i])
		}
	}
	k := sub.keys[sym.Choose("key", 3)*len(sub.keys)/3]
	q := append([]byte{}, k...)
	if sym.Choose("position", 2) == 1 {
		q[2] = sym.Byte("query")
	} else {
		q[1] = sym.Byte("query")
		if sym.Choose("nul", 2) == 1 {
			q[2] = 0
		}
	}
	zzD01Query(da, sub, q, 0)
}

var zzD01WideSets [2]*zzD01Set
var zzD01WideTries [2]*DoubleArray
var zzD01WideFirst = []byte{0, 1, 60, 128, 200, 254, 255}

func ZZD01WideSetup() {
	s := &zzD01Set{}
	add := func(k ...byte) {
		s.keys = append(s.keys, k)
		s.values = append(s.values, (len(s.values)*7)%1000)
	}
	for a := 1; a < 256; a++ {
		if a != 60 {
			add(byte(a))
		}
		for i, f := range zzD01WideFirst {
			if byte(a) == f {
				for c := 1; c < 256; c++ {
					if i%2 == 0 || c%16 != i {
						add(byte(a), byte(c))
					}
					if c == 255-i {
						add(byte(a), byte(c), byte(a))
					}
				}
			}
		}
	}
	zzD01WideSets[0] = s
	zzD01WideTries[0] = zzD01Build(s, true)
	zzD01WideSets[1] = &zzD01Set{keys: s.keys, values: make([]int, len(s.keys))}
	zzD01WideTries[1] = zzD01Build(zzD01WideSets[1], false)
}

// ZZD01Wide: nodes with a child for every byte.
func ZZD01Wide() {
	builder := sym.Choose("builder", 2)
	da, wide := zzD01WideTries[builder], zzD01WideSets[builder]
	a := zzD01WideFirst[sym.Choose("first", len(zzD01WideFirst))]
	q := []byte{a, sym.Byte("query"), a}
	if sym.Choose("position", 2) == 1 {
		q[0], q[1] = q[1], []byte{0, 1, 128, 255}[sym.Choose("second", 4)]
		zzD01Query(da, wide, q[:2], 0)
		return
	}
	sub := &zzD01Set{}
	for i, k := range wide.keys {
		if k[0] == a {
			sub.keys = append(sub.keys, k)
			sub.values = append(sub.values, wide.values[i])
		}
	}
	zzD01Query(da, sub, q, 0)
}

// ZZD01Low: keys of the lowest bytes, whose units lie next to the root, and texts that go round.
func ZZD01Low() {
	f := []byte{1, 2, 3, 6, 97}[sym.Choose("first", 5)]
	g := byte(1 + sym.Choose("second", 8))
	key := []byte{f, g, 120}[:2+sym.Choose("third", 2)]
	s := &zzD01Set{keys: [][]byte{key}}
	switch sym.Choose("more", 4) {
	case 1:
		s.keys = append(s.keys, []byte{f})
	case 2:
		s.keys = append(s.keys, []byte{f, g + 1})
	case 3:
		s.keys = append(s.keys, []byte{f + 2, g}, []byte{f + 2})
	}
	sort.Slice(s.keys, func(i, j int) bool { return string(s.keys[i]) < string(s.keys[j]) })
	s.values = make([]int, len(s.keys))
	for i := range s.values {
		s.values[i] = i + 1
	}
	da := zzD01Build(s, sym.Choose("builder", 2) == 1)
	at := 1 + sym.Choose("at", len(key))
	q := append([]byte{}, key[:at]...)
	q = append(q, sym.Byte("query"))
	switch sym.Choose("rest", 3) {
	case 0:
		q = append(q, key...)
	case 1:
		q = append(q, key[1:]...)
	}
	zzD01Query(da, s, q, 0)
}
