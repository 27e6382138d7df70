package gosudachi

import (
	"github.com/msnoigrs/gosudachi/dictionary"
	"github.com/msnoigrs/gosudachi/internal/zzref"
	sym "github.com/msnoigrs/gosudachi/internal/zzsym"
)

// zzBest runs the tokenizer over n characters with the given unknown words and dictionary words and
// compares the chosen segmentation with all others. ids is the number of connection ids.
func zzBest(n, ids int, cands []zzCand, words []zzref.Word, wordPos [][2]int, matrix []int16) error {
	text := ""
	for i := 0; i < n; i++ {
		text += "あ"
	}
	all := append([]zzCand{}, cands...)
	d := &zzref.Dict{Version: zzref.SystemVersion, L: ids, R: ids, Words: words}
	for i := 0; i < len(cands)+len(words); i++ {
		d.Pos = append(d.Pos, []string{"p", string(rune('0' + i)), "*", "*", "*", "*"})
	}
	for i := range all {
		all[i].pos = int16(i)
	}
	cands = all[:len(cands):len(cands)]
	base := d.Words
	d.Words = append([]zzref.Word{}, base...)
	for k := range base {
		d.Words[k].Pos = int16(len(cands) + k)
	}
	img, lay := d.Image()
	for r := 0; r < ids; r++ {
		for l := 0; l < ids; l++ {
			lay.SetCost(img, l, r, matrix[l+ids*r])
		}
	}
	for k, w := range base {
		lay.SetParam(img, k, 2, w.Cost)
		for b := 0; b+wordPos[k][1] <= n; b++ {
			all = append(all, zzCand{b, b + wordPos[k][1], int(w.Left), int(w.Right), w.Cost, int16(len(cands) + k)})
		}
	}
	g := dictionary.NewGrammar(img, 272, false)
	g.CharCategory = zzCategories("0x3041..0x309F HIRAGANA\n")
	lex := dictionary.NewLexiconSet(dictionary.NewDoubleArrayLexicon(img, lay.Lexicon, false))
	t := NewJapaneseTokenizer(g, lex, nil, []OovProviderPlugin{&zzCandProvider{cands, -1}}, nil)
	ms, err := t.Tokenize("C", text)

	// all segmentations
	var chosen []int // index into all, by begin
	if err == nil {
		for i := 0; i < ms.Length(); i++ {
			m := ms.Get(i)
			k := -1
			for j, c := range all {
				if c.begin == m.Begin() && c.end == m.End() && c.pos == m.GetWordInfo().PosId {
					k = j
				}
			}
			sym.Assert(k >= 0, "the chosen words are candidates")
			chosen = append(chosen, k)
		}
	}
	conn := func(l, r int) int16 { return matrix[l+ids*r] }
	total := func(seq []int) (int, bool) { // cost and admissibility
		sum, ok, prev := 0, true, 0
		for _, k := range seq {
			c := all[k]
			x := conn(prev, c.left)
			ok = sym.And(ok, x != 32767)
			sum += int(x) + int(c.cost)
			prev = c.right
		}
		x := conn(prev, 0)
		ok = sym.And(ok, x != 32767)
		return sum + int(x), ok
	}
	var best int
	if err == nil {
		pos := 0
		for _, k := range chosen {
			sym.Assert(all[k].begin == pos, "the chosen words are adjacent")
			pos = all[k].end
		}
		sym.Assert(pos == n, "the chosen words cover the text")
		var ok bool
		best, ok = total(chosen)
		sym.Assert(ok, "the chosen segmentation uses no inhibited connection")
		sym.Reach("chosen")
	} else {
		sym.Reach("none")
		// positions reached by a candidate but without one of their own
		reach := make([]bool, n+1)
		reach[0] = true
		for b := 0; b < n; b++ {
			if !reach[b] {
				continue
			}
			some := false
			for _, c := range all {
				if c.begin == b {
					some = true
					reach[c.end] = true
				}
			}
			if !some {
				sym.Reach("dead end")
				return err
			}
		}
	}
	var rec func(pos int, seq []int)
	rec = func(pos int, seq []int) {
		if pos == n {
			s, ok := total(seq)
			if err == nil {
				sym.Assert(sym.Or(sym.Not(ok), best <= s), "no admissible segmentation is cheaper than the chosen one")
			} else {
				sym.Assert(sym.Not(ok), "tokenization fails only if there is no admissible segmentation")
			}
			return
		}
		for k, c := range all {
			if c.begin == pos {
				rec(c.end, append(append([]int{}, seq...), k))
			}
		}
	}
	rec(0, nil)
	return err
}

func zzMatrix(ids int) []int16 {
	m := make([]int16, ids*ids)
	for i := range m {
		m[i] = sym.Int16("conn")
	}
	return m
}

// ZZT02All: every range of characters is a candidate; all costs and connections arbitrary.
func ZZT02All() {
	max := 4
	if sym.Thorough() {
		max = 5
	}
	n := 1 + sym.Choose("len", max)
	ids := 3
	var cands []zzCand
	for b := 0; b < n; b++ {
		for e := b + 1; e <= n; e++ {
			cands = append(cands, zzCand{begin: b, end: e, left: (b + e) % ids, right: (e + 1 + 2*b) % ids, cost: sym.Int16("cost")})
		}
	}
	zzBest(n, ids, cands, nil, nil, zzMatrix(ids))
}

// ZZT02Dict: dictionary words and competing unknown words with the same range.
func ZZT02Dict() {
	n := 3
	if sym.Thorough() {
		n = 4
	}
	w1 := zzref.W("あ", 1, 0, 0, 0)
	w2 := zzref.W("ああ", 0, 1, 0, 0)
	w3 := zzref.W("あ", 1, 1, 0, 0)
	w1.Cost, w2.Cost, w3.Cost = sym.Int16("cost"), sym.Int16("cost"), sym.Int16("cost")
	var cands []zzCand
	for b := 0; b < n; b++ {
		cands = append(cands, zzCand{begin: b, end: b + 1, left: 0, right: b % 2, cost: sym.Int16("oov")})
	}
	zzBest(n, 2, cands, []zzref.Word{w1, w2, w3}, [][2]int{{0, 1}, {0, 2}, {0, 1}}, zzMatrix(2))
}

// ZZT02Chain: longer texts, two words per character and word pairs, arbitrary connections.
func ZZT02Chain() {
	n := 7
	if sym.Thorough() {
		n = 10
	}
	ids := 3
	var cands []zzCand
	for b := 0; b < n; b++ {
		cands = append(cands, zzCand{begin: b, end: b + 1, left: 1, right: 1 + b%2, cost: int16(100 * b)})
		if b+2 <= n {
			cands = append(cands, zzCand{begin: b, end: b + 2, left: 2, right: 1 + (b+1)%2, cost: int16(150*b - 70)})
		}
	}
	m := make([]int16, ids*ids)
	for _, k := range []int{1, 2, 4, 5, 7, 8} {
		m[k] = sym.Int16("conn")
	}
	zzBest(n, ids, cands, nil, nil, m)
}

// ZZT02Gaps: any subset of the ranges is a candidate.
func ZZT02Gaps() {
	n := 3
	if sym.Thorough() {
		n = 4
	}
	var cands []zzCand
	dead := false
	reach := make([]bool, n+1)
	reach[0] = true
	for b := 0; b < n; b++ {
		some := false
		for e := b + 1; e <= n; e++ {
			if sym.Choose("present", 2) == 1 {
				some = true
				reach[e] = reach[e] || reach[b]
				cands = append(cands, zzCand{begin: b, end: e, left: b % 2, right: e % 2, cost: sym.Int16("cost")})
			}
		}
		if reach[b] && !some {
			dead = true
		}
	}
	m := zzMatrix(2)
	for _, x := range m {
		sym.Assume(x != 32767)
	}
	err := zzBest(n, 2, cands, nil, nil, m)
	sym.Assert((err != nil) == dead, "tokenization fails exactly if a reached position has no candidate")
}
