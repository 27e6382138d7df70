package dictionary

import (
	"github.com/msnoigrs/gosudachi/internal/zzref"
)

// zzLexicon makes a lexicon of words.
func zzLexicon(ws []zzref.Word, utf16 bool) *DoubleArrayLexicon {
	d := &zzref.Dict{Version: zzref.SystemVersion, Words: ws, UTF16: utf16}
	// the lexicon does not begin at the beginning of the file
	img := d.Lexicon([]byte{1, 2, 3, 4, 5, 6, 7}, &zzref.Layout{})
	return NewDoubleArrayLexicon(img, 7, utf16)
}

func zzPosNames(tag string, n int) [][]string {
	var p [][]string
	for i := 0; i < n; i++ {
		p = append(p, []string{tag, string(rune('a' + i)), "*", "*", "*", "*"})
	}
	return p
}

func zzStr(s, dflt string) string {
	if s == "" {
		return dflt
	}
	return s
}

func zzMin(a, b int) int {
	if a < b {
		return a
	}
	return b
}
