package gosudachi

import (
	"github.com/msnoigrs/gosudachi/dictionary"
	sym "github.com/msnoigrs/gosudachi/internal/zzsym"
)

// zzTok is one character of a numeral: kind 'd' (digit with a value), 's'/'l' (small or large unit
// with its exponent), ',' or '.'.
type zzTok struct {
	kind byte
	v    int
}

// zzDec is a non-negative decimal number as written: digits from the highest exponent down to low.
type zzDec struct {
	d   []int
	low int
}

func (n *zzDec) intLen() int { return len(n.d) + n.low } // digits before the point

// zzSum adds m to n when m fits below the lowest digit of n.
func zzSum(n, m *zzDec) (*zzDec, bool) {
	if n == nil {
		return m, true
	}
	if m == nil {
		return n, true
	}
	if n.low < m.intLen() {
		return nil, false
	}
	r := &zzDec{append([]int{}, n.d...), m.low}
	for i := n.low - m.intLen(); i > 0; i-- {
		r.d = append(r.d, 0)
	}
	r.d = append(r.d, m.d...)
	return r, true
}

// zzParse reads the whole token list as a number.
func zzParse(toks []zzTok) (*zzDec, bool) {
	var total, sub *zzDec
	ok := true
	i := 0
	for i < len(toks) {
		// a plain decimal
		var num *zzDec
		if toks[i].kind == 'd' {
			num = &zzDec{}
			group := 0
			commas := false
			zero := true
			for i < len(toks) && (toks[i].kind == 'd' || toks[i].kind == ',') {
				if toks[i].kind == 'd' {
					num.d = append(num.d, toks[i].v)
					zero = sym.And(zero, toks[i].v == 0)
					group++
				} else {
					if !commas {
						if group > 3 {
							return nil, false
						}
						if zero {
							return nil, false
						}
					} else if group != 3 {
						return nil, false
					}
					commas = true
					group = 0
				}
				i++
			}
			if commas && group != 3 {
				return nil, false
			}
			if i < len(toks) && toks[i].kind == '.' {
				i++
				if i >= len(toks) || toks[i].kind != 'd' {
					return nil, false
				}
				for i < len(toks) && toks[i].kind == 'd' {
					num.d = append(num.d, toks[i].v)
					num.low--
					i++
				}
			}
		}
		if i >= len(toks) {
			sub, ok = zzSum(sub, num)
			if !ok {
				return nil, false
			}
			break
		}
		switch toks[i].kind {
		case 's':
			if num == nil {
				num = &zzDec{d: []int{1}}
			}
			num.low += toks[i].v
			sub, ok = zzSum(sub, num)
			if !ok {
				return nil, false
			}
		case 'l':
			sub, ok = zzSum(sub, num)
			if !ok || sub == nil {
				return nil, false
			}
			sub.low += toks[i].v
			total, ok = zzSum(total, sub)
			if !ok {
				return nil, false
			}
			sub = nil
		default:
			return nil, false
		}
		i++
	}
	total, ok = zzSum(total, sub)
	return total, ok && total != nil
}

// zzText is the decimal notation without leading zeros.
func (n *zzDec) text() string {
	d := append([]int{}, n.d...)
	low := n.low
	for ; low > 0; low-- {
		d = append(d, 0)
	}
	for low < 0 && d[len(d)-1] == 0 {
		d = d[:len(d)-1]
		low++
	}
	var b []byte
	for i, x := range d {
		if i == len(d)+low && low < 0 {
			b = append(b, '.')
		}
		b = append(b, byte('0'+x))
	}
	return string(b)
}

func zzStrip(s string) string {
	for len(s) > 1 && s[0] == '0' && s[1] != '.' {
		s = s[1:]
	}
	return s
}

var zzP01Grammar *dictionary.Grammar
var zzP01Plugin *JoinNumericPlugin

func ZZP01Setup() {
	zzP01Grammar = zzGrammar([][]string{zzNounPos, zzSymPos, zzNumPos}, 1, 1, nil, zzCharDef)
	zzP01Plugin = NewJoinNumericPlugin(nil)
	if err := zzP01Plugin.SetUp(zzP01Grammar); err != nil {
		panic(err)
	}
}

type zzWord struct {
	text string // covered text
	norm string
	toks []zzTok
	pos  int16
}

// zzP01Run joins the words, optionally followed by another word, and judges the result.
func zzP01Run(words []zzWord, followed bool) {
	text := ""
	var path []*LatticeNode
	var start []int
	for _, w := range words {
		start = append(start, len(text))
		path = append(path, zzNode(len(text), len(text)+len(w.text), &dictionary.WordInfo{Surface: w.text, HeadwordLength: int16(len(w.text)),
			PosId: w.pos, NormalizedForm: w.norm, DictionaryForm: w.text, ReadingForm: "r", DictionaryFormWordId: -1}))
		text += w.text
	}
	start = append(start, len(text))
	n := len(words)
	orig := append([]*LatticeNode{}, path...)
	if followed {
		path = append(path, zzNode(len(text), len(text)+3, &dictionary.WordInfo{Surface: "円", HeadwordLength: 3, NormalizedForm: "円", DictionaryForm: "円"}))
		orig = append(orig, path[n])
		text += "円"
	}
	input := zzInput(text, zzP01Grammar)
	zzOk(zzP01Plugin.Rewrite(input, &path, nil), "numeral joining succeeds")
	// which words does each node cover
	i := 0
	var groups [][2]int
	for _, node := range path {
		if followed && i == n {
			sym.Assert(node == orig[n], "the word after the numerals is kept")
			i++
			continue
		}
		sym.Assert(i < n && node.GetBegin() == start[i], "words stay in order")
		j := i + 1
		for j < n && start[j] != node.GetEnd() {
			j++
		}
		sym.Assert(start[j] == node.GetEnd(), "a joined word covers whole words")
		groups = append(groups, [2]int{i, j})
		if node != orig[i] {
			var toks []zzTok
			for _, w := range words[i:j] {
				toks = append(toks, w.toks...)
			}
			ref, ok := zzParse(toks)
			sym.Assert(ok, "only a well-formed number is joined or normalized")
			got := zzStrip(node.GetWordInfo().NormalizedForm)
			want := zzStrip(ref.text())
			sym.Observe("got", got)
			sym.Assert(len(got) == len(want) && sym.EqStr(got, want), "the normalized form is the exact value of the numeral")
			sym.Reach("joined")
		}
		i = j
	}
	sym.Assert(i == len(orig), "no word is lost")
	if words[0].pos == 0 {
		sym.Assert(groups[0] == [2]int{0, 1} && path[0] == orig[0], "no number begins with a word that is no numeral")
		sym.Reach("no numeral")
	}
	// a well-formed number, possibly followed by a comma or point word, is joined
	var toks []zzTok
	for _, w := range words {
		toks = append(toks, w.toks...)
	}
	end := n
	ref, ok := zzParse(toks)
	if !ok && n > 1 && (words[n-1].norm == "," || words[n-1].norm == ".") {
		end = n - 1
		ref, ok = zzParse(toks[:len(toks)-1])
		point, comma := false, false
		for _, t := range toks[:len(toks)-1] {
			point = point || t.kind == '.'
			comma = comma || t.kind == ','
		}
		if point && (comma || words[n-1].norm == ".") {
			ok = false // nothing is demanded for a second point or a comma after a point
		}
		if ok {
			sym.Reach("trailing")
		}
	}
	// in a run of digits and points that is no number the points separate
	points, plain := 0, true
	for _, w := range words {
		plain = plain && len(w.toks) == 1 && (w.norm == "." || w.pos == 2 && w.toks[0].kind == 'd')
		if w.norm == "." {
			points++
		}
	}
	if plain && !ok && points > 0 {
		g := 0
		for i := 0; i < n; g++ {
			j := i + 1
			if words[i].norm != "." {
				for j < n && words[j].norm != "." {
					j++
				}
			}
			sym.Assert(g < len(groups) && groups[g] == [2]int{i, j}, "misplaced points separate numbers")
			i = j
		}
		sym.Assert(g == len(groups), "misplaced points separate numbers")
		sym.Reach("separated")
	}
	if ok && words[0].pos == 2 {
		sym.Assert(groups[0][1] == end, "a well-formed number is joined into one word")
		got := zzStrip(path[0].GetWordInfo().NormalizedForm)
		want := zzStrip(ref.text())
		sym.Assert(len(got) == len(want) && sym.EqStr(got, want), "the number's normalized form is its value")
		sym.Reach("whole")
	} else {
		sym.Reach("illformed")
	}
}

var zzUnits = []struct {
	s    string
	kind byte
	v    int
}{{"十", 's', 1}, {"百", 's', 2}, {"千", 's', 3}, {"万", 'l', 4}, {"億", 'l', 8}, {"兆", 'l', 12}}

func zzDigit() zzWord {
	d := sym.Int("digit", 0, 9)
	return zzWord{"1", string([]byte{byte('0' + d)}), []zzTok{{'d', d}}, 2}
}

func zzClass(c int) zzWord {
	switch c {
	case 0:
		return zzDigit()
	case 1:
		return zzWord{",", ",", []zzTok{{',', 0}}, 1}
	case 2:
		return zzWord{".", ".", []zzTok{{'.', 0}}, 1}
	}
	u := zzUnits[c-3]
	return zzWord{u.s, u.s, []zzTok{{u.kind, u.v}}, 2}
}

// ZZP01Any: every sequence of one-character words, digits symbolic.
func ZZP01Any() {
	max := 5
	if sym.Thorough() {
		max = 7
	}
	n := 1 + sym.Choose("len", max)
	var words []zzWord
	for i := 0; i < n; i++ {
		words = append(words, zzClass(sym.Choose("class", 9)))
	}
	zzP01Run(words, sym.Choose("followed", 2) == 1)
}

// ZZP01Plain: longer sequences of digits, commas and points.
func ZZP01Plain() {
	max := 9
	if sym.Thorough() {
		max = 12
	}
	n := 5 + sym.Choose("len", max-4)
	var words []zzWord
	for i := 0; i < n; i++ {
		words = append(words, zzClass(sym.Choose("class", 3)))
	}
	zzP01Run(words, sym.Choose("followed", 2) == 1)
}

// ZZP01Kanji: every numeral character by its own meaning, in pairs.
func ZZP01Kanji() {
	forms := []string{"0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "〇", "一", "二", "三", "四", "五", "六", "七", "八", "九"}
	n := 1 + sym.Choose("len", 3)
	var words []zzWord
	for i := 0; i < n; i++ {
		k := sym.Choose("form", len(forms)+len(zzUnits))
		if k < len(forms) {
			words = append(words, zzWord{forms[k], forms[k], []zzTok{{'d', k % 10}}, 2})
		} else {
			words = append(words, zzClass(3+k-len(forms)))
		}
	}
	zzP01Run(words, false)
}

// ZZP01Words: words of several characters (as normalized forms).
func ZZP01Words() {
	max := 4
	if sym.Thorough() {
		max = 6
	}
	n := 1 + sym.Choose("len", max)
	var words []zzWord
	for i := 0; i < n; i++ {
		w := zzClass(sym.Choose("class", 5))
		if i > 0 && sym.Choose("glue", 2) == 1 {
			l := &words[len(words)-1]
			l.norm += w.norm
			l.toks = append(l.toks, w.toks...)
			l.text = "1"
			l.pos = 2
		} else {
			words = append(words, w)
		}
	}
	zzP01Run(words, sym.Choose("followed", 2) == 1)
}

// ZZP01Two: two numerals separated by another word do not influence each other.
func ZZP01Two() {
	max := 3
	if sym.Thorough() {
		max = 4
	}
	cls := []int{0, 1, 2, 5}
	side := func(name string) []zzWord {
		var words []zzWord
		n := 1 + sym.Choose(name, max)
		for i := 0; i < n; i++ {
			words = append(words, zzClass(cls[sym.Choose("class", len(cls))]))
		}
		return words
	}
	mk := func(words []zzWord, at int) (path []*LatticeNode, text string) {
		for _, w := range words {
			b := at + len(text)
			path = append(path, zzNode(b, b+len(w.text), &dictionary.WordInfo{Surface: w.text, HeadwordLength: int16(len(w.text)),
				PosId: w.pos, NormalizedForm: w.norm, DictionaryForm: w.text, ReadingForm: "r", DictionaryFormWordId: -1}))
			text += w.text
		}
		return
	}
	run := func(path *[]*LatticeNode, text string) {
		zzOk(zzP01Plugin.Rewrite(zzInput(text, zzP01Grammar), path, nil), "numeral joining succeeds")
	}
	left, right := side("left"), side("right")
	// each side with the separator after it, alone
	sep := zzWord{"円", "円", nil, 0}
	a, ta := mk(append(append([]zzWord{}, left...), sep), 0)
	run(&a, ta)
	b, tb := mk(append(append([]zzWord{}, right...), sep), 0)
	run(&b, tb)
	both := append(append([]zzWord{}, left...), sep)
	both = append(append(both, right...), sep)
	c, tc := mk(both, 0)
	run(&c, tc)
	sym.Assert(len(c) == len(a)+len(b), "numerals are joined independently of each other")
	for i, n := range c {
		var w *LatticeNode
		off := 0
		if i < len(a) {
			w = a[i]
		} else {
			w = b[i-len(a)]
			off = len(ta)
		}
		sym.Assert(n.Begin == w.Begin+off && n.End == w.End+off, "numerals are joined independently of each other")
		x, y := n.GetWordInfo(), w.GetWordInfo()
		sym.Assert(len(x.NormalizedForm) == len(y.NormalizedForm) && sym.EqStr(x.NormalizedForm, y.NormalizedForm), "numerals are normalized independently of each other")
	}
	sym.Reach("both")
}

// ZZP01Other: a word of a numeral's character type that has no numeric meaning is no part of a number.
func ZZP01Other() {
	lo := []rune{0x21, 0x3001, 0x4E00, 0x4EA0, 0x5340, 0x5140, 0x767D, 0x5100, 0x58F0, 0x2150, 0xFF10, 0x62FE, 0x1D7CE}[sym.Choose("block", 13)]
	r := sym.Rune("other", lo, lo+40)
	for _, x := range "0123456789.,〇一二三四五六七八九十百千万億兆" {
		sym.Assume(r != x)
	}
	var words []zzWord
	for i, n := 0, sym.Choose("before", 3); i < n; i++ {
		words = append(words, zzDigit())
	}
	at := len(words)
	words = append(words, zzWord{"1", string(r), []zzTok{{'?', 0}}, 2})
	for i, n := 0, sym.Choose("after", 3); i < n; i++ {
		words = append(words, zzClass([]int{0, 3, 6}[sym.Choose("class", 3)]))
	}
	var path []*LatticeNode
	text := ""
	for _, w := range words {
		path = append(path, zzNode(len(text), len(text)+len(w.text), &dictionary.WordInfo{Surface: w.text, HeadwordLength: int16(len(w.text)),
			PosId: w.pos, NormalizedForm: w.norm, DictionaryForm: w.text, ReadingForm: "r", DictionaryFormWordId: -1}))
		text += w.text
	}
	x, begin := path[at], path[at].Begin
	zzOk(zzP01Plugin.Rewrite(zzInput(text, zzP01Grammar), &path, nil), "numeral joining succeeds")
	found := false
	for _, n := range path {
		found = found || n == x && n.Begin == begin
	}
	sym.Assert(found, "a word without numeric meaning is no part of a number")
	sym.Reach("kept")
}

// ZZP01Groups: long numbers with commas, a group of the wrong size anywhere, fractions and units.
func ZZP01Groups() {
	max := 6
	if sym.Thorough() {
		max = 12
	}
	comma, point := zzClass(1), zzClass(2)
	sym2 := 2
	digit := func() zzWord {
		if sym2 > 0 && sym.Choose("symbolic", 2) == 1 {
			sym2--
			return zzDigit()
		}
		return zzWord{"1", "7", []zzTok{{'d', 7}}, 2}
	}
	var words []zzWord
	words = append(words, digit())
	for i := sym.Choose("first", 3); i > 0; i-- {
		words = append(words, zzWord{"1", "4", []zzTok{{'d', 4}}, 2})
	}
	groups := 1 + sym.Choose("groups", max)
	odd := sym.Choose("odd", groups+1) // this group has another size
	for g := 0; g < groups; g++ {
		words = append(words, comma)
		size := 3
		if g+1 == odd {
			size = []int{2, 4}[sym.Choose("size", 2)]
		}
		for i := 0; i < size; i++ {
			if g == groups-1 && i == 0 {
				words = append(words, digit())
			} else {
				words = append(words, zzWord{"1", string([]byte{byte('0' + (g+i)%10)}), []zzTok{{'d', (g + i) % 10}}, 2})
			}
		}
	}
	switch sym.Choose("tail", 4) {
	case 1:
		words = append(words, point, zzWord{"1", "5", []zzTok{{'d', 5}}, 2})
	case 2:
		words = append(words, zzClass(6))
	case 3:
		words = append(words, comma)
	}
	zzP01Run(words, sym.Choose("followed", 2) == 1)
}

// ZZP01Part: the digits after one that is no numeral make one number or none, never a part of one.
func ZZP01Part() {
	n := 2 + sym.Choose("len", 4)
	first := zzDigit()
	first.pos = 0
	words := []zzWord{first}
	text := "1"
	for i := 0; i < n; i++ {
		words = append(words, zzDigit())
		text += "1"
	}
	if sym.Choose("comma", 2) == 1 {
		words = append(words, zzClass(1))
		text += ","
	}
	words = append(words, zzWord{"円", "円", nil, 0})
	text += "円"
	var path []*LatticeNode
	at := 0
	for _, w := range words {
		path = append(path, zzNode(at, at+len(w.text), &dictionary.WordInfo{Surface: w.text, HeadwordLength: int16(len(w.text)),
			PosId: w.pos, NormalizedForm: w.norm, DictionaryForm: w.text, ReadingForm: "r", DictionaryFormWordId: -1}))
		at += len(w.text)
	}
	orig := append([]*LatticeNode{}, path...)
	zzOk(zzP01Plugin.Rewrite(zzInput(text, zzP01Grammar), &path, nil), "numeral joining succeeds")
	sym.Assert(path[0] == orig[0], "no number begins with a word that is no numeral")
	if len(path) == len(orig) {
		for i := range path {
			sym.Assert(path[i] == orig[i], "digits make one number or none")
		}
	} else {
		sym.Assert(len(path) == len(orig)-n+1 && path[1].GetBegin() == 1 && path[1].GetEnd() == 1+n, "digits make one number or none")
	}
	sym.Reach("whole")
}

// ZZP01Pos: words of digits which are no numerals.
func ZZP01Pos() {
	n := 1 + sym.Choose("len", 4)
	var words []zzWord
	for i := 0; i < n; i++ {
		w := zzClass([]int{0, 0, 1, 3, 6}[sym.Choose("class", 5)])
		if w.pos == 2 && (i == 0 || sym.Choose("numeral", 2) == 0) {
			w.pos = 0
		}
		words = append(words, w)
	}
	zzP01Run(words, sym.Choose("followed", 2) == 1)
}
