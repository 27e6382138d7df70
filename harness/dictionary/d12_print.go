package dictionary

import (
	"bytes"
	"strconv"

	"github.com/msnoigrs/gosudachi/internal/zzref"
	sym "github.com/msnoigrs/gosudachi/internal/zzsym"
)

func zzD12List(l []int32) string {
	s := ""
	for i, v := range l {
		if i > 0 {
			s += "/"
		}
		s += strconv.Itoa(int(v))
	}
	return zzStr(s, "*")
}

// zzD12Line is the line of a word.
func zzD12Line(w zzref.Word, pos []string) string {
	s := w.Surface + "," + strconv.Itoa(int(w.Left)) + "," + strconv.Itoa(int(w.Right)) + "," + strconv.Itoa(int(w.Cost)) + "," + w.Surface
	for _, p := range pos {
		s += "," + p
	}
	s += "," + zzStr(w.Reading, w.Surface) + "," + zzStr(w.Norm, w.Surface) + ","
	if w.DicForm >= 0 {
		s += strconv.Itoa(int(w.DicForm))
	} else {
		s += "*"
	}
	unit := "C"
	if len(w.A) == 0 {
		unit = "A"
	} else if len(w.B) == 0 {
		unit = "B"
	}
	return s + "," + unit + "," + zzD12List(w.A) + "," + zzD12List(w.B) + "," + zzD12List(w.Struct) + "\n"
}

func zzD12Dict(version uint64, pos [][]string, ws []zzref.Word, utf16 bool) *zzref.Dict {
	d := &zzref.Dict{Version: version, Pos: pos, Words: ws, UTF16: utf16}
	if version == zzref.SystemVersion {
		d.L, d.R, d.Matrix = 1, 1, []int16{5}
	}
	return d
}

// zzD12Print lists a dictionary and compares the lines with its words'.
func zzD12Print(d *zzref.Dict, name string, sys *BinaryDictionary, sysPos [][]string) {
	img, _ := d.Image()
	path := sym.TempFile(name, img)
	out := &bytes.Buffer{}
	err := PrintDictionary(path, d.UTF16, sys, out)
	sym.Assert(err == nil, "a dictionary can be listed")
	if err != nil {
		return
	}
	pos := append([][]string{}, sysPos...)
	if d.Version != zzref.SystemVersion || sysPos == nil {
		pos = append(pos, d.Pos...)
	} else {
		pos = d.Pos
	}
	want := ""
	for _, w := range d.Words {
		want += zzD12Line(w, pos[w.Pos])
	}
	sym.Assert(sym.EqBytes(out.Bytes(), []byte(want)), "each entry's line shows the entry's fields")
}

func zzD12Words() []zzref.Word {
	ws := []zzref.Word{zzref.W("東", 1, 2, 3, 0), zzref.W("京", 4, 5, -6, 1), zzref.W("東京", 7, 8, 9, 2)}
	ws[2].Reading = "トウキョウ"
	ws[1].Norm = "亰"
	return ws
}

var zzD12Pos = [][]string{{"名詞", "固有名詞", "地名", "一般", "*", "*"}, {"名詞", "普通名詞", "一般", "*", "*", "*"}, {"動詞", "*", "*", "*", "五段", "終止形"}}

// ZZD12Params: arbitrary parameters.
func ZZD12Params() {
	ws := zzD12Words()
	w := &ws[sym.Choose("word", 3)]
	switch sym.Choose("param", 3) {
	case 0:
		w.Left = sym.Int16("left")
	case 1:
		w.Right = sym.Int16("right")
	case 2:
		w.Cost = sym.Int16("cost")
	}
	zzD12Print(zzD12Dict(zzref.SystemVersion, zzD12Pos, ws, false), "dic", nil, nil)
	sym.Reach("listed")
}

// ZZD12Strings: arbitrary characters in the fields.
func ZZD12Strings() {
	utf16 := sym.Choose("encoding", 2) == 1
	ws := zzD12Words()
	pos := append([][]string{}, zzD12Pos...)
	w := &ws[sym.Choose("word", 3)]
	r := sym.Rune("char", 0x20, 0x7E)
	if sym.Choose("wide", 2) == 1 {
		r = sym.Rune("wide", 0x800, 0xD7FF)
	}
	s := "a" + string(r)
	switch k := sym.Choose("field", 5); k {
	case 0:
		w.Reading = s
	case 1:
		w.Norm = s
	default:
		p := append([]string{}, pos[w.Pos]...)
		p[[]int{0, 3, 5}[k-2]] = s
		pos[w.Pos] = p
	}
	zzD12Print(zzD12Dict(zzref.SystemVersion, pos, ws, utf16), "dic", nil, nil)
	sym.Reach("listed")
}

// ZZD12Lists: split lists of several lengths with an arbitrary id, dictionary forms.
func ZZD12Lists() {
	ws := zzD12Words()
	w := &ws[sym.Choose("word", 3)]
	lens := [][3]int{{0, 0, 0}, {1, 0, 0}, {2, 1, 0}, {0, 0, 2}, {0, 3, 0}, {2, 2, 2}, {126, 127, 0}, {0, 101, 127}}[sym.Choose("lengths", 8)]
	ids := [3]*[]int32{&w.A, &w.B, &w.Struct}
	at := sym.Choose("arbitrary", 3)
	for k := range ids {
		for i := 0; i < lens[k]; i++ {
			id := int32(k*100 + i)
			if k == at && i == lens[k]-1 {
				id = sym.Int32("id")
			}
			*ids[k] = append(*ids[k], id)
		}
	}
	w.DicForm = int32(sym.Choose("dicform", 4)) - 1
	zzD12Print(zzD12Dict(zzref.SystemVersion, zzD12Pos, ws, false), "dic", nil, nil)
	sym.Reach("listed")
}

// ZZD12User: user dictionaries, one after the other, of both versions.
func ZZD12User() {
	utf16 := sym.Choose("encoding", 2) == 1
	sd := zzD12Dict(zzref.SystemVersion, zzD12Pos, zzD12Words(), utf16)
	simg, _ := sd.Image()
	sys, err := ReadSystemDictionary(sym.TempFile("system", simg), utf16)
	if err != nil {
		sym.Fail("a system dictionary opens as one")
		return
	}
	n := 1 + sym.Choose("dictionaries", 3)
	for k := 0; k < n; k++ {
		version := uint64(zzref.UserVersion2)
		var own [][]string
		if sym.Choose("version", 2) == 1 {
			version = zzref.UserVersion1
		} else {
			own = zzPosNames([]string{"一", "二", "三"}[k], sym.Choose("own", 3))
		}
		ws := []zzref.Word{zzref.W("新", 1, 2, -32768, int16(sym.Choose("pos", 3)))}
		for i := range own {
			ws = append(ws, zzref.W("語", 1, 2, 3, int16(3+i)))
			ws[i+1].A = []int32{1<<28 | 0, 2}
		}
		ud := zzD12Dict(version, own, ws, utf16)
		if sym.Choose("alone", 2) == 1 {
			img, _ := ud.Image()
			out := &bytes.Buffer{}
			err := PrintDictionary(sym.TempFile("user", img), utf16, nil, out)
			sym.Assert(err != nil, "a user dictionary is refused without its system dictionary")
			sym.Assert(out.Len() == 0, "nothing is listed of a refused dictionary")
			sym.Reach("refused")
			return
		}
		zzD12Print(ud, "user", sys, zzD12Pos)
	}
	if sym.Choose("then", 2) == 1 {
		zzD12Print(sd, "again", sys, zzD12Pos)
	}
	sym.Assert(sys.Grammar.GetPartOfSpeechSize() == len(zzD12Pos), "listing leaves the system dictionary alone")
	sym.Reach("listed")
}

// ZZD12ManyPos: thousands of parts of speech, in the system dictionary and added by a user dictionary.
func ZZD12ManyPos() {
	utf16 := sym.Choose("encoding", 2) == 1
	sizes := []int{127, 255, 256, 257, 1025, 4097, 9000}
	if sym.Thorough() {
		sizes = append(sizes, 32766)
	}
	n := sizes[sym.Choose("size", len(sizes))]
	pos := make([][]string, n)
	for i := range pos {
		pos[i] = []string{"名詞", strconv.Itoa(i), "*", "*", "*", "*"}
	}
	own := [][]string{{"独自", "一", "*", "*", "*", "*"}}
	ws := zzD12Words()
	ids := []int{0, n - 1, n / 2}
	for i := range ws {
		ws[i].Pos = int16(ids[i%3])
	}
	sd := zzD12Dict(zzref.SystemVersion, pos, ws, utf16)
	if sym.Choose("user", 2) == 0 {
		zzD12Print(sd, "dic", nil, nil)
		sym.Reach("listed")
		return
	}
	simg, _ := sd.Image()
	sys, err := ReadSystemDictionary(sym.TempFile("system", simg), utf16)
	if err != nil {
		sym.Fail("a system dictionary opens as one")
		return
	}
	uw := []zzref.Word{zzref.W("新", 1, 2, sym.Int16("cost"), int16(n)), zzref.W("語", 1, 2, 3, int16(n-1))}
	zzD12Print(zzD12Dict(zzref.UserVersion2, own, uw, utf16), "user", sys, pos)
	sym.Reach("listed")
}
