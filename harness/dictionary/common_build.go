package dictionary

import (
	"bytes"
	"io"
	"strings"

	sym "github.com/msnoigrs/gosudachi/internal/zzsym"
)

// zzFile is a file in memory.
type zzFile struct {
	b   []byte
	pos int
}

func (f *zzFile) Write(p []byte) (int, error) {
	for len(f.b) < f.pos+len(p) {
		f.b = append(f.b, 0)
	}
	copy(f.b[f.pos:], p)
	f.pos += len(p)
	return len(p), nil
}

func (f *zzFile) Seek(offset int64, whence int) (int64, error) {
	switch whence {
	case io.SeekStart:
		f.pos = int(offset)
	case io.SeekCurrent:
		f.pos += int(offset)
	default:
		f.pos = len(f.b) + int(offset)
	}
	return int64(f.pos), nil
}

const zzHeader = 272

// zzBuilt is a dictionary as the builder makes it.
type zzBuilt struct {
	img []byte
	g   *Grammar
	lex *DoubleArrayLexicon
}

// zzBuildSystem builds a system dictionary from sources and opens it.
func zzBuildSystem(src, matrix []byte, utf16 bool) (*zzBuilt, error) {
	f := &zzFile{}
	f.Write(make([]byte, zzHeader))
	b := NewDictionaryBuilder(zzHeader, nil, utf16)
	store := NewPosTable()
	if err := b.BuildLexicon(store, bytes.NewReader(src)); err != nil {
		return nil, err
	}
	if err := b.WriteGrammar(store, bytes.NewReader(matrix), f); err != nil {
		return nil, err
	}
	if err := b.WriteLexicon(f, store); err != nil {
		return nil, err
	}
	return zzOpen(f.b, utf16), nil
}

// zzBuildUser builds a user dictionary for a system dictionary.
func zzBuildUser(sys *zzBuilt, src []byte, utf16 bool) (*zzBuilt, error) {
	f := &zzFile{}
	f.Write(make([]byte, zzHeader))
	b := NewDictionaryBuilder(zzHeader, sys.lex, utf16)
	store := NewPosTableUser(sys.g)
	if err := b.BuildLexicon(store, bytes.NewReader(src)); err != nil {
		return nil, err
	}
	if err := b.WriteGrammarUser(&store.PosTable, f); err != nil {
		return nil, err
	}
	if err := b.WriteLexicon(f, store); err != nil {
		return nil, err
	}
	return zzOpen(f.b, utf16), nil
}

func zzOpen(img []byte, utf16 bool) *zzBuilt {
	g := NewGrammar(img, zzHeader, utf16)
	return &zzBuilt{img, g, NewDoubleArrayLexicon(img, zzHeader+g.StorageSize, utf16)}
}

// zzRow is a source row.
type zzRow struct {
	col [NumberOfColumns]string
}

// zzNewRow makes a plain row.
func zzNewRow(s string) *zzRow {
	r := &zzRow{}
	copy(r.col[:], []string{s, "1", "2", "3", s, "名詞", "普通名詞", "一般", "*", "*", "*", "ヨミ", "正規", "*", "C", "*", "*", "*"})
	return r
}

func zzSource(rows ...*zzRow) []byte {
	var b []byte
	for _, r := range rows {
		b = append(b, strings.Join(r.col[:], ",")...)
		b = append(b, '\n')
	}
	return b
}

// zzChar is an arbitrary character of the given UTF-8 width that has no special meaning in a source
// row.
func zzChar(name string, w int) string {
	switch w {
	case 1:
		r := sym.Rune(name, 0x20, 0x7E)
		sym.Assume(r != ',')
		sym.Assume(r != '\\')
		return string(r)
	case 2:
		return string(sym.Rune(name, 0x80, 0x7FF))
	case 3:
		return string(sym.Rune(name, 0x800, 0xD7FF))
	}
	return string(sym.Rune(name, 0x10000, 0x10FFFF))
}

// zzDigits is an arbitrary number of n digits and its value.
func zzDigits(name string, n int) (string, int) {
	b := make([]byte, n)
	v := 0
	for i := range b {
		d := sym.ByteIn(name, '0', '9')
		b[i] = d
		v = v*10 + int(d-'0')
	}
	return string(b), v
}

// zzCheckInfo compares a word with what its source row says; dicForm is the expected dictionary
// form, lists the three unit lists.
func zzCheckWord(d *zzBuilt, id int32, r *zzRow, params [3]int, dicId int32, dicForm string, lists [3][]int32) {
	lex := d.lex
	sym.Assert(int(lex.GetLeftId(id)) == params[0], "the left id is the source's")
	sym.Assert(int(lex.GetRightId(id)) == params[1], "the right id is the source's")
	sym.Assert(int(lex.GetCost(id)) == params[2], "the cost is the source's")
	wi := lex.GetWordInfo(id)
	sym.Assert(sym.EqStr(wi.Surface, r.col[4]), "the surface is the source's")
	sym.Assert(int(wi.HeadwordLength) == len(r.col[0]), "the headword length is the source's")
	sym.Assert(sym.EqStr(wi.ReadingForm, zzStr(r.col[11], r.col[4])), "the reading is the source's")
	sym.Assert(sym.EqStr(wi.NormalizedForm, zzStr(r.col[12], r.col[4])), "the normalized form is the source's")
	sym.Assert(wi.DictionaryFormWordId == dicId, "the dictionary form's id is the source's")
	sym.Assert(sym.EqStr(wi.DictionaryForm, dicForm), "the dictionary form is the source's")
	for k, l := range [][]int32{wi.AUnitSplit, wi.BUnitSplit, wi.WordStructure} {
		sym.Assert(len(l) == len(lists[k]), "a unit list has the source's units")
		for i := range l {
			if i < len(lists[k]) {
				sym.Assert(l[i] == lists[k][i], "a unit list has the source's units")
			}
		}
	}
}

func zzCheckPos(p []string, r *zzRow) {
	sym.Assert(len(p) == 6, "a part of speech has six names")
	for i := range p {
		sym.Assert(sym.EqStr(p[i], r.col[5+i]), "the part of speech is the source's")
	}
}

var zzMatrix1 = []byte("1 1\n0 0 5\n")

// zzParams are a plain row's parameters.
var zzParams = [3]int{1, 2, 3}

// zzNumbered makes n plain rows, every fourth of which is not indexed.
func zzNumbered(n int) []*zzRow {
	var rows []*zzRow
	for i := 0; i < n; i++ {
		r := zzNewRow("語" + string([]byte{byte('0' + i/100), byte('0' + i/10%10), byte('0' + i%10)}))
		if i%4 == 3 {
			r.col[1] = "-1"
		}
		rows = append(rows, r)
	}
	return rows
}

// zzNumber is a number with an arbitrary last digit and its value.
func zzNumber() (string, int) {
	pre := []string{"", "2", "9", "10", "14", "15", "16"}[sym.Choose("number", 7)]
	p := 0
	for _, c := range pre {
		p = p*10 + int(c-'0')
	}
	s, v := zzDigits("digit", 1)
	return pre + s, p*10 + v
}
