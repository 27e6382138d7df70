package gosudachi

import (
	"strings"

	"github.com/msnoigrs/gosudachi/dictionary"
	sym "github.com/msnoigrs/gosudachi/internal/zzsym"
)

// zzT02Chain offers, at every character of one byte, words of one and two characters.
type zzT02Chain struct {
	n     int
	nodes func(i int) []zzCand
}

func (p *zzT02Chain) GetConfigStruct() interface{}            { return nil }
func (p *zzT02Chain) SetUp(grammar *dictionary.Grammar) error { return nil }
func (p *zzT02Chain) ProvideOOV(inputText *InputText, offset int, hasOtherWords bool) ([]*LatticeNode, error) {
	var r []*LatticeNode
	for _, c := range p.nodes(offset) {
		if c.end > p.n {
			continue
		}
		n := CreateNodeOfOOV()
		n.SetParameter(int16(c.left), int16(c.right), c.cost)
		n.SetWordInfo(&dictionary.WordInfo{HeadwordLength: int16(c.end - c.begin), PosId: c.pos, DictionaryFormWordId: -1})
		r = append(r, n)
	}
	return r, nil
}

// zzT02Run tokenizes n characters and compares the chosen path with the shortest path.
func zzT02Run(n int, nodes func(i int) []zzCand, matrix []int16) {
	g := zzGrammar([][]string{zzNounPos}, 2, 2, matrix, "0x0030..0x0039 NUMERIC\n")
	t := NewJapaneseTokenizer(g, dictionary.NewLexiconSet(zzEmptyLexicon()), nil, []OovProviderPlugin{&zzT02Chain{n, nodes}}, nil)
	ms, err := t.Tokenize("C", strings.Repeat("0", n))
	if err != nil {
		sym.Fail("there is a path")
		return
	}
	conn := func(l, r int) int { return int(matrix[l+2*r]) }
	// the least total up to a character, by the right id of the last word
	const none = 1 << 50
	best := make([][2]int, n+1)
	for i := range best {
		best[i] = [2]int{none, none}
	}
	least := func(a, b int) int { return sym.Ite(a < b, a, b) }
	for i := 0; i < n; i++ {
		for _, c := range nodes(i) {
			if c.end > n {
				continue
			}
			from := none
			if i == 0 {
				from = conn(0, c.left)
			} else {
				for r := 0; r < 2; r++ {
					if best[i][r] != none {
						from = least(from, best[i][r]+conn(r, c.left))
					}
				}
			}
			best[c.end][c.right] = least(best[c.end][c.right], from+int(c.cost))
		}
	}
	end := least(best[n][0]+conn(0, 0), best[n][1]+conn(1, 0))
	sum, prev, at := 0, 0, 0
	for i := 0; i < ms.Length(); i++ {
		m := ms.Get(i)
		if m.Begin() != at {
			sym.Fail("the chosen words are adjacent")
			return
		}
		at = m.End()
		ok := false
		for _, c := range nodes(m.Begin()) {
			if c.end == m.End() && c.pos == m.GetWordInfo().PosId {
				sum += conn(prev, c.left) + int(c.cost)
				prev = c.right
				ok = true
			}
		}
		if !ok {
			sym.Fail("the chosen words are candidates")
			return
		}
	}
	sum += conn(prev, 0)
	sym.Assert(at == n, "the chosen words cover the text")
	sym.Assert(sum == end, "no admissible segmentation is cheaper than the chosen one")
	sym.Reach("chosen")
}

// ZZT02Deep: long texts whose total costs are far from zero, with close alternatives.
func ZZT02Deep() {
	n := []int{16, 40, 90}[sym.Choose("len", 3)]
	sign := []int{1, -1}[sym.Choose("sign", 2)]
	where := []int{0, n / 2, n - 2}[sym.Choose("where", 3)]
	delta := sym.Int("delta", -60, 60)
	matrix := []int16{int16(sign * 24000), int16(sign * 31300), int16(sign * 24010), int16(sign * 31295)}
	if sym.Choose("transposed", 2) == 1 {
		matrix[1], matrix[2] = matrix[2], matrix[1]
	}
	nodes := func(i int) []zzCand {
		// two one-character words, and one of two characters that costs about as much as two words
		x, y, z := sign*8000+i*7%13, sign*705-i*5%11, sign*32700+i*3%7
		if i == where {
			x += delta
		}
		return []zzCand{{begin: i, end: i + 1, left: 0, right: 0, cost: int16(x), pos: 0}, {begin: i, end: i + 1, left: 1, right: 1, cost: int16(y), pos: 1}, {begin: i, end: i + 2, left: 1, right: 0, cost: int16(z), pos: 2}}
	}
	zzT02Run(n, nodes, matrix)
}

// ZZT02Far: totals about where they no longer fit 32 bits.
func ZZT02Far() {
	const n = 32771 // 32769*65532 + 2*32766 + 4 + 4 = 1<<31
	sign := []int{1, -1}[sym.Choose("sign", 2)]
	delta := sym.Int("delta", -2, 2)
	m := int16(sign * 32766)
	nodes := func(i int) []zzCand {
		switch i {
		case n - 1:
			return []zzCand{{begin: i, end: i + 1, cost: int16(sign * 4), pos: 0}, {begin: i, end: i + 1, cost: int16(sign*4 + delta), pos: 1}}
		case n - 2:
			return []zzCand{{begin: i, end: i + 1, cost: int16(sign * 4), pos: 0}}
		}
		return []zzCand{{begin: i, end: i + 1, cost: m, pos: 0}}
	}
	zzT02Run(n, nodes, []int16{m, m, m, m})
}
