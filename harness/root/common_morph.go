package gosudachi

import (
	"strings"

	sym "github.com/msnoigrs/gosudachi/internal/zzsym"
)

type zzMorph struct {
	begin, end, wordId, dicId     int
	oov                           bool
	surface, norm, dform, reading string
	pos                           string
}

func zzMorphs(ms *MorphemeList) []zzMorph {
	var r []zzMorph
	for i := 0; i < ms.Length(); i++ {
		m := ms.Get(i)
		x := zzMorph{begin: m.Begin(), end: m.End(), wordId: m.GetWordId(), dicId: m.GetDictionaryId(), oov: m.IsOOV(), surface: m.Surface(), norm: m.NormalizedForm(), dform: m.DictionaryForm(), reading: m.ReadingForm()}
		x.pos = strings.Join(m.PartOfSpeech(), ",")
		r = append(r, x)
	}
	return r
}

func zzSameMorphs(a, b []zzMorph) bool {
	if len(a) != len(b) {
		return false
	}
	r := true
	for i := range a {
		x, y := a[i], b[i]
		if x.begin != y.begin || x.end != y.end || len(x.surface) != len(y.surface) || len(x.norm) != len(y.norm) || len(x.dform) != len(y.dform) || len(x.reading) != len(y.reading) {
			return false
		}
		r = sym.And(r, sym.And(x.wordId == y.wordId, sym.And(x.dicId == y.dicId, x.oov == y.oov)))
		r = sym.And(r, sym.And(sym.EqStr(x.surface, y.surface), sym.And(sym.EqStr(x.norm, y.norm), sym.And(sym.EqStr(x.dform, y.dform), sym.EqStr(x.reading, y.reading)))))
		if x.pos != y.pos {
			return false
		}
	}
	return r
}
