package dictionary

import (
	"bytes"
	"strings"
	"unicode/utf8"

	sym "github.com/msnoigrs/gosudachi/internal/zzsym"
)

func zzHexValue(c byte) int {
	return sym.Ite(sym.And(c >= '0', c <= '9'), int(c)-'0', sym.Ite(sym.And(c >= 'a', c <= 'f'), int(c)-'a'+10, sym.Ite(sym.And(c >= 'A', c <= 'F'), int(c)-'A'+10, -1)))
}

// zzD11Escape tells the character and length of the escape at the beginning of s.
func zzD11Escape(s []byte) (int, int) {
	if len(s) < 2 || s[0] != '\\' || s[1] != 'u' {
		return 0, 0
	}
	v := 0
	if len(s) > 2 && s[2] == '{' {
		i := 3
		for ; i < len(s); i++ {
			d := zzHexValue(s[i])
			if d < 0 {
				break
			}
			v = v*16 + d
		}
		if i == 3 || i == len(s) || s[i] != '}' || v > 0x10FFFF {
			return 0, 0
		}
		return v, i + 1
	}
	if len(s) < 6 {
		return 0, 0
	}
	for i := 2; i < 6; i++ {
		d := zzHexValue(s[i])
		if d < 0 {
			return 0, 0
		}
		v = v*16 + d
	}
	return v, 6
}

// zzD11Decode replaces the escapes of s; ok is false if one names no character.
func zzD11Decode(s []byte) ([]byte, bool) {
	var out []byte
	for i := 0; i < len(s); {
		v, n := zzD11Escape(s[i:])
		if n == 0 {
			out = append(out, s[i])
			i++
			continue
		}
		if v >= 0xD800 && v < 0xE000 {
			return nil, false
		}
		b := make([]byte, utf8.UTFMax)
		out = append(out, b[:utf8.EncodeRune(b, rune(v))]...)
		i += n
	}
	return out, true
}

// zzD11Check builds a row with the field and looks at what became of it and of its neighbours.
func zzD11Check(field []byte) {
	commas := false
	for _, c := range field {
		sym.Assume(c != '\n')
		commas = sym.Or(commas, c == ',')
	}
	row := zzNewRow("字")
	src := string(zzSource(row))
	i := strings.Index(src, "ヨミ")
	src = src[:i] + string(field) + src[i+len("ヨミ"):]
	b := NewDictionaryBuilder(0, nil, false)
	err := b.BuildLexicon(NewPosTable(), bytes.NewReader([]byte(src)))
	if commas {
		sym.Assert(err != nil, "fields are separated at every comma")
		sym.Reach("comma")
		return
	}
	want, ok := zzD11Decode(field)
	if !ok {
		return
	}
	sym.Assert(err == nil, "fields are separated nowhere but at commas")
	if err != nil {
		return
	}
	wi := b.wordEntries[0].WordInfo
	sym.Assert(sym.EqBytes([]byte(wi.ReadingForm), want), "exactly the escapes of a field are decoded")
	sym.Assert(sym.EqStr(wi.NormalizedForm, "正規"), "a field is independent of its neighbours")
	sym.Reach("decoded")
}

// ZZD11Context: escapes with an arbitrary byte, after and before anything.
func ZZD11Context() {
	cores := []string{"\\u304A", "\\u{3042}", "\\u{10Fcba}", "\\u{2c}", "\\u002c", "\\u{0000041}", "\\u{110000}", "\\u{}", "あu0"}
	around := []string{"", "a", "\\", "\\u", "\\u0", "\\u004", "\\u{", "\\u{4", "\\u{4}", "\\u005a", "あ", "{", "}", "u", "0041"}
	core := []byte(cores[sym.Choose("core", len(cores))])
	core[sym.Choose("at", len(core))] = sym.Byte("byte")
	field := around[sym.Choose("before", len(around))] + string(core)
	k := sym.Choose("after", len(around))
	if k%3 != 0 && !sym.Thorough() {
		sym.Skip()
	}
	zzD11Check([]byte(field + around[k]))
}

// ZZD11Any: arbitrary text.
func ZZD11Any() {
	prefix := []string{"", "\\u", "\\u{"}[sym.Choose("prefix", 3)]
	suffix := []string{"", "\\u0041", "}"}[sym.Choose("suffix", 3)]
	n := 3
	if suffix == "" {
		n = 4
	}
	if sym.Thorough() {
		n++
	}
	n = sym.Choose("length", n+1)
	field := make([]byte, n)
	for i := range field {
		switch sym.Choose("class", 6) {
		case 0:
			field[i] = '\\'
		case 1:
			field[i] = 'u'
		case 2:
			field[i] = '{'
		case 3:
			field[i] = '}'
		case 4: // a digit
			field[i] = "0123456789ABCDEFabcdef"[sym.Int("digit", 0, 21)]
		case 5:
			c := sym.Byte("other")
			sym.Assume(c != '\\')
			sym.Assume(c != 'u')
			sym.Assume(c != '{')
			sym.Assume(c != '}')
			sym.Assume(zzHexValue(c) < 0)
			field[i] = c
		}
	}
	zzD11Check([]byte(prefix + string(field) + suffix))
}

// ZZD11Columns: an escape in any column, read from the dictionary built.
func ZZD11Columns() {
	utf16 := sym.Choose("encoding", 2) == 1
	row := zzNewRow("字")
	k := []int{0, 4, 5, 6, 7, 8, 9, 10, 11, 12}[sym.Choose("column", 10)]
	esc := []string{"\\u00", "\\u{", "\\u{1F6"}[sym.Choose("escape", 3)]
	d := []byte{sym.Byte("digit"), sym.Byte("digit")}
	h, l := zzHexValue(d[0]), zzHexValue(d[1])
	sym.Assume(h >= 0)
	sym.Assume(l >= 0)
	v := h<<4 | l
	text := esc + string(d)
	if esc[2] == '{' {
		text += "}"
	}
	if len(esc) > 4 {
		v |= 0x1F600
	}
	row.col[k] = "前" + text + "後"
	src := zzSource(row)
	d1, err := zzBuildSystem(src, zzMatrix1, utf16)
	if k == 0 && v == 0 { // a headword cannot contain a NUL
		return
	}
	sym.Assert(err == nil, "a row with an escape is accepted")
	if err != nil {
		return
	}
	row.col[k] = "前" + string(rune(v)) + "後"
	wi := d1.lex.GetWordInfo(0)
	sym.Assert(sym.EqStr(wi.Surface, row.col[4]), "the surface is decoded")
	sym.Assert(sym.EqStr(wi.ReadingForm, row.col[11]), "the reading is decoded")
	sym.Assert(sym.EqStr(wi.NormalizedForm, row.col[12]), "the normalized form is decoded")
	sym.Assert(int(wi.HeadwordLength) == len(row.col[0]), "the headword is decoded")
	zzCheckPos(d1.g.GetPartOfSpeechString(wi.PosId), row)
	sym.Reach("decoded")
}

// ZZD11Edges: the first and last characters.
func ZZD11Edges() {
	cores := []string{"\\u{10FFFF}", "\\u{010fFfe}", "\\u{110000}", "\\uFFFF", "\\uD7FF", "\\uE000", "\\u0000", "\\u{0}", "\\u{00000000}", "\\u{FFFF}", "\\u{10000}", "\\u{7F}\\u{80}", "\\u07ff\\u0800", "\\u{7FFFFFFF}", "\\u{80000000}", "\\u{FFFFFFFFF}", "\\u{100000041}"}
	core := []byte(cores[sym.Choose("core", len(cores))])
	if at := sym.Choose("at", len(core)+1); at < len(core) {
		core[at] = sym.Byte("byte")
	}
	zzD11Check(core)
}
