package gosudachi

import (
	sym "github.com/msnoigrs/gosudachi/internal/zzsym"
)

func zzI04(marks []string, text []rune, mark []bool, symbol string) {
	p := NewProlongedSoundMarkInputTextPlugin(&ProlongedSoundMarkInputTextPluginConfig{ProlongedSoundMarks: &marks, ReplacementSymbol: &symbol})
	zzOk(p.SetUp(), "set-up succeeds")
	orig := string(text)
	b := NewInputTextBuilder(orig, zzI01Grammar)
	zzOk(p.Rewrite(b), "rewriting succeeds")
	n := len(text)
	var model []zzPos
	for i := 0; i < n; {
		j := i
		for j < n && mark[j] {
			j++
		}
		if j-i >= 2 {
			for _, r := range symbol {
				model = append(model, zzPos{r, len(string(r)), i})
			}
			i = j
			sym.Reach("collapsed")
			continue
		}
		model = append(model, zzPos{text[i], len(string(text[i])), i})
		i++
	}
	zzI01Check(b, orig, model, n)
}

// ZZI04Runs: every pattern of marks and other characters, symbols of length 0 to 4.
func ZZI04Runs() {
	max := 6
	if sym.Thorough() {
		max = 9
	}
	syms := []string{"ー", "~", "ーー", "ab", "〜ー〜", "", "abcd"}
	symbol := syms[sym.Choose("symbol", len(syms))]
	n := sym.Choose("len", max+1)
	var text []rune
	var mark []bool
	for i := 0; i < n; i++ {
		if sym.Choose("kind", 2) == 1 {
			k := sym.Pick("mark", 3)
			text = append(text, rune(sym.Ite(k == 0, 'ー', sym.Ite(k == 1, '〜', '〰'))))
			mark = append(mark, true)
		} else {
			r := sym.Rune("other", 0x800, 0xD7FF)
			sym.Assume(sym.And(r != 'ー', sym.And(r != '〜', r != '〰')))
			text = append(text, r)
			mark = append(mark, false)
		}
	}
	zzI04([]string{"ー", "〜", "〰"}, text, mark, symbol)
}

// ZZI04Widths: marks and other characters of several widths.
func ZZI04Widths() {
	max := 4
	if sym.Thorough() {
		max = 6
	}
	syms := []string{"ー", "~", "ーa", "", "𠀀𠀀𠀀"}
	symbol := syms[sym.Choose("symbol", len(syms))]
	chars := []rune("ー~𠀀x")
	n := sym.Choose("len", max+1)
	var text []rune
	var mark []bool
	for i := 0; i < n; i++ {
		k := sym.Choose("char", 5)
		if k == 4 {
			r := sym.Rune("ascii", 0x20, 0x7D)
			text = append(text, r)
		} else {
			text = append(text, chars[k])
		}
		mark = append(mark, k < 3)
	}
	zzI04([]string{"ー", "~x", "𠀀", ""}, text, mark, symbol)
}
