package gosudachi

import (
	"fmt"

	"github.com/msnoigrs/gosudachi/dictionary"
	sym "github.com/msnoigrs/gosudachi/internal/zzsym"
)

type zzRange struct {
	lo, hi rune
	cat    uint32
}

var zzCatNames = map[uint32]string{
	dictionary.DEFAULT: "DEFAULT", dictionary.SPACE: "SPACE", dictionary.KANJI: "KANJI", dictionary.SYMBOL: "SYMBOL", dictionary.NUMERIC: "NUMERIC",
	dictionary.ALPHA: "ALPHA", dictionary.HIRAGANA: "HIRAGANA", dictionary.KATAKANA: "KATAKANA", dictionary.KANJINUMERIC: "KANJINUMERIC",
	dictionary.GREEK: "GREEK", dictionary.CYRILLIC: "CYRILLIC", dictionary.NOOOVBOW: "NOOOVBOW", dictionary.USER1: "USER1",
}

var zzI02Ranges = []zzRange{
	{0x30, 0x39, dictionary.NUMERIC}, {0x38, 0x7A, dictionary.ALPHA}, {0x70, 0x7F, dictionary.GREEK},
	{0x300, 0x3FF, dictionary.GREEK}, {0x3A0, 0x4FF, dictionary.CYRILLIC}, {0x400, 0x4FF, dictionary.ALPHA},
	{0x3040, 0x30FF, dictionary.KATAKANA}, {0x3000, 0x309F, dictionary.HIRAGANA}, {0x4E00, 0x9FFF, dictionary.KANJI}, {0x4E00, 0x4E8C, dictionary.KANJINUMERIC},
	{0x20000, 0x2FFFF, dictionary.KANJI}, {0x1F000, 0x10FFFF, dictionary.ALPHA},
}

var zzI02Grammar *dictionary.Grammar

func ZZI02Setup() {
	def := ""
	for _, r := range zzI02Ranges {
		def += fmt.Sprintf("0x%08X..0x%08X %s\n", r.lo, r.hi, zzCatNames[r.cat])
	}
	zzI02Grammar = zzGrammar([][]string{zzNounPos}, 1, 1, nil, def)
}

// zzI02Mask is the union of the categories of the ranges containing r.
func zzI02Mask(r rune) uint32 {
	m := 0
	for _, x := range zzI02Ranges {
		m |= sym.Ite(sym.And(r >= x.lo, r <= x.hi), int(x.cat), 0)
	}
	return uint32(sym.Ite(m == 0, int(dictionary.DEFAULT), m))
}

// ZZI02Runs: run lengths, range categories and word-start flags against their definitions.
func ZZI02Runs() {
	max := 3
	if sym.Thorough() {
		max = 4
	}
	n := 1 + sym.Choose("len", max)
	var rs []rune
	var ws []int
	var cats []uint32
	for i := 0; i < n; i++ {
		w := 1 + sym.Choose("width", 4)
		r := zzRune(w)
		rs = append(rs, r)
		ws = append(ws, w)
		cats = append(cats, zzI02Mask(r))
	}
	zzI02Check(zzInput(string(rs), zzI02Grammar), ws, cats)
}

func zzI02Check(t *InputText, ws []int, cats []uint32) {
	n := len(ws)
	starts := []int{0}
	for _, w := range ws {
		starts = append(starts, starts[len(starts)-1]+w)
	}
	// runs are found from left to right: a run continues while characters share a category with its first
	run := 0
	for run < n {
		end := run + 1
		for end < n && cats[run]&cats[end] != 0 {
			end++
		}
		for p := starts[run]; p < starts[end]; p++ {
			sym.Assert(t.GetCharCategoryContinuousLength(p) == starts[end]-p, "the run length is the distance to the end of the run")
		}
		for i := run; i < end; i++ {
			for k := starts[i]; k < starts[i+1]; k++ {
				sym.Assert(t.GetCharCategoryTypes(k) == cats[i], "a position has its character's categories")
			}
			inter := cats[i]
			for j := i + 1; j <= n; j++ {
				got := t.GetCharCategoryTypesRange(starts[i], starts[j])
				if j > end {
					sym.Assert(got == 0, "a range crossing a run has no category")
				} else {
					sym.Assert(got == inter, "the category of a range is the intersection")
				}
				if j < n {
					inter &= cats[j]
				}
			}
		}
		run = end
	}
	alpha := dictionary.ALPHA | dictionary.GREEK | dictionary.CYRILLIC
	for i := 0; i < n; i++ {
		want := i == 0
		if i > 0 {
			want = sym.Or(cats[i]&alpha == 0, cats[i]&cats[i-1] == 0)
		}
		sym.Assert(t.CanBow(starts[i]) == want, "a word may begin exactly where the definition says")
		for k := starts[i] + 1; k < starts[i+1]; k++ {
			sym.Assert(!t.CanBow(k), "no word begins inside a character")
		}
	}
	sym.Observe("runs", t.GetCharCategoryContinuousLength(0))
	sym.Reach("checked")
}

// ZZI02Masks: arbitrary category sets (through user definitions of single characters), longer texts.
func ZZI02Masks() {
	sets := []uint32{dictionary.ALPHA, dictionary.ALPHA | dictionary.GREEK, dictionary.GREEK | dictionary.CYRILLIC, dictionary.KANJI | dictionary.USER1, dictionary.USER1 | dictionary.ALPHA, dictionary.NOOOVBOW | dictionary.KANJI, dictionary.DEFAULT}
	max := 5
	if sym.Thorough() {
		max = 6
	}
	n := 1 + sym.Choose("len", max)
	chars := []rune("xаあ\U00020000zéw")
	widths := []int{1, 2, 3, 4, 1, 2, 1}
	var rs []rune
	var ws []int
	var cats []uint32
	for i := 0; i < n; i++ {
		k := sym.Choose("set", len(sets))
		rs = append(rs, chars[k])
		ws = append(ws, widths[k])
		cats = append(cats, sets[k])
	}
	zzI02Check(zzInput(string(rs), zzI02MasksGrammar), ws, cats)
}

var zzI02MasksGrammar *dictionary.Grammar

func ZZI02MasksSetup() {
	zzI02MasksGrammar = zzGrammar([][]string{zzNounPos}, 1, 1, nil, "0x0078 ALPHA\n0x0430 ALPHA GREEK\n0x3042 GREEK CYRILLIC\n0x00020000 KANJI USER1\n0x007A USER1 ALPHA\n0x00E9 KANJI\n0x00E9 NOOOVBOW\n")
}

var zzI02SubsetsGrammars []*dictionary.Grammar

var zzI02SubsetsCats = [][]uint32{
	{dictionary.DEFAULT, dictionary.ALPHA, dictionary.CYRILLIC, dictionary.KANJI},
	{dictionary.GREEK, dictionary.ALPHA, dictionary.NOOOVBOW, dictionary.USER4},
}

// ZZI02SubsetsSetup: the last hexadecimal digit of U+0400..U+040F is the set of categories.
func ZZI02SubsetsSetup() {
	names := [][]string{{"DEFAULT", "ALPHA", "CYRILLIC", "KANJI"}, {"GREEK", "ALPHA", "NOOOVBOW", "USER4"}}
	for _, ns := range names {
		def := ""
		for b := uint(0); b < 4; b++ {
			for m := 0; m < 16; m++ {
				if m>>b&1 == 1 {
					def += fmt.Sprintf("0x%04X %s\n", 0x400+m, ns[b])
				}
			}
		}
		zzI02SubsetsGrammars = append(zzI02SubsetsGrammars, zzGrammar([][]string{zzNounPos}, 1, 1, nil, def))
	}
}

// ZZI02Subsets: every combination of sets of four categories.
func ZZI02Subsets() {
	max := 3
	if sym.Thorough() {
		max = 4
	}
	which := sym.Choose("categories", len(zzI02SubsetsCats))
	n := 1 + sym.Choose("len", max)
	var rs []rune
	var ws []int
	var cats []uint32
	for i := 0; i < n; i++ {
		m := sym.Choose("set", 16)
		rs = append(rs, rune(0x400+m))
		ws = append(ws, 2)
		c := uint32(0)
		for b, x := range zzI02SubsetsCats[which] {
			if m>>uint(b)&1 == 1 {
				c |= x
			}
		}
		if c == 0 {
			c = dictionary.DEFAULT
		}
		cats = append(cats, c)
	}
	zzI02Check(zzInput(string(rs), zzI02SubsetsGrammars[which]), ws, cats)
}

// ZZI02Long: runs of hundreds of characters, broken by an arbitrary one.
func ZZI02Long() {
	def := "0x0041..0x007A ALPHA\n0x3041..0x309F HIRAGANA\n0x3050 HIRAGANA KATAKANA\n0x30A0..0x30FF KATAKANA\n"
	g := zzGrammar([][]string{zzNounPos}, 1, 1, nil, def)
	n := []int{66, 130, 300}[sym.Choose("len", 3)]
	unit, size, cat := 'あ', 3, uint32(dictionary.HIRAGANA)
	alpha := sym.Choose("alpha", 2) == 1
	if alpha {
		unit, size, cat = 'a', 1, dictionary.ALPHA
	}
	rs := make([]rune, n)
	cats := make([]uint32, n)
	starts := make([]int, n+1)
	for i := range rs {
		rs[i], cats[i] = unit, cat
		starts[i+1] = starts[i] + size
	}
	at := []int{0, 1, n / 2, n - 2, n - 1}[sym.Choose("at", 5)]
	if alpha {
		r := rune(sym.Byte("char"))
		sym.Assume(r < 128)
		rs[at] = r
		cats[at] = uint32(sym.Ite(sym.And(r >= 0x41, r <= 0x7A), int(dictionary.ALPHA), int(dictionary.DEFAULT)))
	} else {
		r := sym.Rune("char", 0x3041, 0x30FF)
		rs[at] = r
		h := sym.Ite(r <= 0x309F, int(dictionary.HIRAGANA), 0)
		k := sym.Ite(sym.Or(r == 0x3050, r > 0x309F), int(dictionary.KATAKANA), 0)
		cats[at] = uint32(h | k)
	}
	t := zzInput(string(rs), g)
	run := 0
	for run < n {
		end := run + 1
		for end < n && cats[run]&cats[end] != 0 {
			end++
		}
		for p := starts[run]; p < starts[end]; p++ {
			sym.Assert(t.GetCharCategoryContinuousLength(p) == starts[end]-p, "the run length is the distance to the end of the run")
		}
		run = end
	}
	for i := 0; i < n; i++ {
		sym.Assert(t.GetCharCategoryTypes(starts[i]) == cats[i], "a position has its character's categories")
		want := true
		if alpha && i > 0 {
			want = sym.Or(cats[i]&dictionary.ALPHA == 0, cats[i]&cats[i-1] == 0)
		}
		sym.Assert(t.CanBow(starts[i]) == want, "a word may begin exactly where the definition says")
	}
	sym.Assert(t.GetCharCategoryTypesRange(starts[0], starts[at]+0) == func() uint32 {
		if at == 0 {
			return t.GetCharCategoryTypesRange(0, 0)
		}
		return cat
	}(), "the category of a range is the intersection")
	sym.Reach("checked")
}
