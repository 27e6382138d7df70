package gosudachi

import (
	sym "github.com/msnoigrs/gosudachi/internal/zzsym"
)

var zzT04World *zzWorld

func ZZT04Setup() { zzT04World = zzWorldNew() }

// ZZT04Shared: tokenizing, splitting and reading every attribute writes nothing that is shared.
func ZZT04Shared() {
	max := 2
	if sym.Thorough() {
		max = 3
	}
	n := sym.Choose("len", max+1)
	var rs []rune
	for i := 0; i < n; i++ {
		rs = append(rs, zzWorldChar())
	}
	zzT04Run(string(rs))
}

// ZZT04Words: texts made of dictionary words with units, in both dictionaries.
func ZZT04Words() {
	words := []string{"東京都", "京都東", "京都", "都東", "株式会社", "あい", "二十一", "1,234", "アイ", "アイガ", "q"}
	text := ""
	n := 1 + sym.Choose("words", 2)
	for i := 0; i < n; i++ {
		text += words[sym.Choose("word", len(words))]
		if i == 1 && sym.Choose("more", 2) == 1 {
			text += string([]rune{zzWorldChar()})
		}
	}
	zzT04Run(text)
}

func zzT04Run(text string) {
	w := zzT04World
	sym.Freeze("data of the dictionary", w.grammar, w.lexicon, w.input, w.oov, w.path)
	sym.FreezeGlobals("package variables")
	sym.Parallel(func() {
		t := w.tokenizer()
		for _, mode := range []string{"C", "A", "B"} {
			ms, err := t.Tokenize(mode, text)
			if err != nil {
				continue
			}
			for i := 0; i < ms.Length(); i++ {
				m := ms.Get(i)
				zzMorphs(m.Split("A"))
				zzMorphs(m.Split("B"))
				m.GetWordInfo()
			}
			zzMorphs(ms)
			if ms.Length() > 0 {
				ms.GetInternalCost()
			}
		}
	})
	sym.Reach("done")
}
