package gosudachi

import (
	"github.com/msnoigrs/gosudachi/dictionary"
	sym "github.com/msnoigrs/gosudachi/internal/zzsym"
)

var zzI01Grammar *dictionary.Grammar

func ZZI01Setup() {
	zzI01Grammar = zzGrammar([][]string{zzNounPos}, 1, 1, nil, "0x0061 KANJI\n")
}

// zzRune is an arbitrary character whose UTF-8 form takes w bytes.
func zzRune(w int) rune {
	switch w {
	case 1:
		return sym.Rune("r1", 0, 0x7F)
	case 2:
		return sym.Rune("r2", 0x80, 0x7FF)
	case 3:
		if sym.Thorough() && sym.Choose("high3", 2) == 1 {
			return sym.Rune("r3", 0xE000, 0xFFFC)
		}
		return sym.Rune("r3", 0x800, 0xD7FF)
	}
	return sym.Rune("r4", 0x10000, 0x10FFFF)
}

type zzPos struct {
	r    rune
	w    int
	orig int
}

func zzI01(maxLen, maxOps, maxRepl, widths int) {
	n := sym.Choose("len", maxLen+1)
	var model []zzPos
	var rs []rune
	for i := 0; i < n; i++ {
		w := 1 + sym.Choose("width", widths)
		if widths == 2 && w == 2 {
			w = 3
		}
		r := zzRune(w)
		model = append(model, zzPos{r, w, i})
		rs = append(rs, r)
	}
	orig := string(rs)
	b := NewInputTextBuilder(orig, zzI01Grammar)
	ops := sym.Choose("ops", maxOps+1)
	for k := 0; k < ops; k++ {
		begin := sym.Choose("begin", len(model)+1)
		end := begin + sym.Choose("span", len(model)-begin+1)
		m := sym.Choose("repl", maxRepl+1)
		at := n
		if begin < len(model) {
			at = model[begin].orig
		}
		var repl []rune
		var mid []zzPos
		for i := 0; i < m; i++ {
			w := 1
			if i == 1 {
				w = 3
			}
			r := zzRune(w)
			repl = append(repl, r)
			mid = append(mid, zzPos{r, w, at})
		}
		b.Replace(begin, end, repl)
		next := append([]zzPos{}, model[:begin]...)
		next = append(next, mid...)
		next = append(next, model[end:]...)
		model = next
	}
	zzI01Check(b, orig, model, n)
}

// zzI01Check compares the builder and the built text with the model.
func zzI01Check(b *InputTextBuilder, orig string, model []zzPos, n int) {
	var want []rune
	for _, p := range model {
		want = append(want, p.r)
	}
	got := b.GetText()
	sym.Assert(len(got) == len(want), "the rewritten text has the right length")
	for i := range want {
		sym.Assert(got[i] == want[i], "the rewritten text is what the replacements produce")
	}
	t := b.Build()
	text := string(want)
	sym.Assert(sym.EqStr(t.OriginalText, orig), "the original text is kept")
	sym.Assert(len(t.GetText()) == len(text) && sym.EqStr(t.GetText(), text), "the modified text is what the replacements produce")
	sym.Assert(len(t.GetByteText()) == len(text) && sym.EqBytes(t.GetByteText(), []byte(text)), "the bytes are the modified text")
	var starts []int
	pos := 0
	prev := -1
	for i, p := range model {
		starts = append(starts, pos)
		for k := 0; k < p.w; k++ {
			sym.Assert(t.GetOffsetTextLength(pos+k) == i, "every byte position maps to its character")
			o := t.GetOriginalIndex(pos + k)
			sym.Assert(o == p.orig, "every position maps to its original position")
			sym.Assert(o >= prev, "the mapping to original positions never decreases")
			prev = o
			sym.Assert(t.IsCharAlignment(pos+k) == (k == 0), "character boundaries are recognized")
			// code point offsets
			for c := 0; c <= 3; c++ {
				l := p.w - k
				if c == 0 {
					l = 0
				}
				for j := i + 1; j < i+c && j < len(model); j++ {
					l += model[j].w
				}
				sym.Assert(t.GetCodePointsOffsetLength(pos+k, c) == l, "code point offsets count characters")
			}
		}
		pos += p.w
	}
	starts = append(starts, pos)
	sym.Assert(t.GetOffsetTextLength(pos) == len(model), "the end maps to the number of characters")
	sym.Assert(t.GetOriginalIndex(pos) == n, "the end maps to the original end")
	for i := range starts {
		for j := i; j < len(starts); j++ {
			sym.Assert(t.CodePointCount(starts[i], starts[j]) == j-i, "character counts agree with the text")
			s := t.GetSubstring(starts[i], starts[j])
			sym.Assert(len(s) == starts[j]-starts[i] && sym.EqStr(s, text[starts[i]:starts[j]]), "substrings agree with the text")
		}
	}
	sym.Observe("text", t.GetText(), t.GetOriginalIndex(pos))
	sym.Reach("checked")
}
