package gosudachi

import (
	sym "github.com/msnoigrs/gosudachi/internal/zzsym"
)

var zzT01World *zzWorld

func ZZT01Setup() { zzT01World = zzWorldNew() }

// ZZT01Tiling: all plugins on, every mode.
func ZZT01Tiling() {
	max := 3
	if sym.Thorough() {
		max = 4
	}
	n := sym.Choose("len", max+1)
	var rs []rune
	for i := 0; i < n; i++ {
		rs = append(rs, zzWorldChar())
	}
	text := string(rs)
	t := zzT01World.tokenizer()
	for _, mode := range []string{"C", "B", "A"} {
		ms, err := t.Tokenize(mode, text)
		if err != nil {
			sym.Reach("refused")
			return
		}
		if n == 0 {
			sym.Assert(ms.Length() == 0, "an empty text gives no morphemes")
		}
		zzTiling(ms, rs)
	}
	sym.Reach("tiled")
}

// zzT01Tile tokenizes text in every mode with a tokenizer of the plugins chosen.
func zzT01Tile(text string) {
	t := zzT01World.tokenizer()
	if k := sym.Choose("input", 4); k < 3 {
		t.inputTextPlugins = [][]InputTextPlugin{nil, t.inputTextPlugins[:1], t.inputTextPlugins[1:]}[k]
	}
	if k := sym.Choose("path", 4); k < 3 {
		t.pathRewritePlugins = [][]PathRewritePlugin{nil, t.pathRewritePlugins[:1], t.pathRewritePlugins[1:]}[k]
	}
	for _, mode := range []string{"C", "B", "A"} {
		ms, err := t.Tokenize(mode, text)
		if err != nil {
			sym.Reach("refused")
			return
		}
		n, end := 0, 0
		for i := 0; i < ms.Length(); i++ {
			m := ms.Get(i)
			sym.Assert(m.Begin() == n, "each morpheme begins where the previous one ended")
			n = m.End()
			sym.Assert(n >= m.Begin(), "no morpheme ends before it begins")
			s := m.Surface()
			sym.Assert(end+len(s) <= len(text) && sym.EqStr(s, text[end:end+len(s)]), "the surfaces give the text back")
			end += len(s)
		}
		chars := 0
		for range text {
			chars++
		}
		sym.Assert(n == chars && end == len(text), "the last morpheme ends at the end of the text")
	}
	sym.Reach("tiled")
}

// ZZT01Plugins: each combination of plugins.
func ZZT01Plugins() {
	text := string(zzWorldChar()) + string(zzWorldChar())
	zzT01Tile(text)
}

// ZZT01Others: characters that are normalized into none, several or other characters, long ones and strange ones.
func ZZT01Others() {
	var c rune
	switch sym.Choose("other", 9) {
	case 0:
		c = sym.Rune("ascii", 0, 0x7f)
	case 1:
		c = sym.Rune("latin", 0xa0, 0xff)
	case 2:
		c = sym.Rune("turkish", 0x12e, 0x134)
	case 3:
		c = sym.Rune("combining", 0x3094, 0x309f)
	case 4:
		c = sym.Rune("square", 0x3300, 0x3320)
	case 5:
		c = sym.Rune("ligature", 0xfb00, 0xfb06)
	case 6:
		c = sym.Rune("half", 0xff66, 0xff9f)
	case 7:
		c = sym.Rune("long", 0x1f1e6, 0x1f202)
	case 8:
		c = []rune{0xfdfa, 0xfffd, 0x2028, 0x3c9, 0x44f, 0x200b, 0xfe0f, 0x10ffff, 0x20bb7, 0xfeff}[sym.Choose("strange", 10)]
	}
	before := []string{"", "東", "あ"}[sym.Choose("before", 3)]
	after := []string{"", "ー", "都", "ﾞ"}[sym.Choose("after", 4)]
	zzT01Tile(before + string(c) + after)
}

// ZZT01IllFormed: texts that are not valid UTF-8.
func ZZT01IllFormed() {
	before := []string{"", "東", "\x80", "\xc3", "\xe3", "\xe6\x9d", "\xf0\x9f", "\xed", "\xff"}[sym.Choose("before", 9)]
	after := []string{"", "京", "\x80", "a"}[sym.Choose("after", 4)]
	b := sym.Bytes("byte", 1)
	zzT01Tile(before + string(b) + after)
}
