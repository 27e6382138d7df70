package main

import (
	"strings"

	"github.com/msnoigrs/gosudachi/internal/zzref"
	sym "github.com/msnoigrs/gosudachi/internal/zzsym"
)

func zzD06Dict(version uint64, utf16 bool) *zzref.Dict {
	ws := []zzref.Word{zzref.W("東", 1, 2, 3, 0), zzref.W("東京", 0, 1, -6, 1), zzref.W("x𠮷", 1, 0, 9, 0), zzref.W("東", 1, 1, 7, 1)}
	ws[1].Reading = "トウキョウ"
	ws[1].A = []int32{0, 1<<28 | 3}
	ws[1].Struct = []int32{0}
	ws[2].Norm = "吉"
	ws[2].B = []int32{2, 1}
	ws[3].DicForm = 1
	d := &zzref.Dict{Version: version, Time: 0x0102030405060708, Description: "説明", Words: ws, UTF16: utf16}
	pos := [][]string{{"名詞", "固有名詞", "地名", "一般", "*", "*"}, {"動詞", "a,b", "*", "é", "", "終止形"}}
	switch version {
	case zzref.SystemVersion:
		d.Pos = pos
		d.L, d.R = 2, 3
		d.Matrix = []int16{1, -1, 300, 32767, -32768, 0}
	case zzref.UserVersion2:
		d.Pos = pos
	}
	return d
}

// zzD06Convert converts a dictionary and compares with the same dictionary in the other encoding.
func zzD06Convert(d *zzref.Dict) {
	img, _ := d.Image()
	in := sym.TempFile("in.dic", img)
	out := sym.TempPath("out.dic")
	if sym.Choose("existing", 2) == 1 { // an output file of before
		sym.TempFile("out.dic", append(append([]byte{}, img...), img...))
	}
	if d.UTF16 {
		sym.Args("-o", out, in)
	} else {
		sym.Args("-j", "-o", out, in)
	}
	code := sym.RunMain(main)
	sym.Assert(code == 0, "a dictionary can be converted")
	got, ok := sym.FileContent(out)
	sym.Assert(ok, "the converted dictionary is written")
	d.UTF16 = !d.UTF16
	want, _ := d.Image()
	sym.Assert(len(got) == len(want), "converting changes the encoding of the strings only")
	if len(got) != len(want) {
		return
	}
	sym.Assert(sym.EqBytes(got, want), "converting changes the encoding of the strings only")
	after, _ := sym.FileContent(in)
	sym.Assert(sym.EqBytes(after, img), "the dictionary converted is left alone")
	sym.Reach("converted")
}

var zzD06Versions = []uint64{zzref.SystemVersion, zzref.UserVersion2, zzref.UserVersion1}

// ZZD06Strings: arbitrary characters in every kind of string.
func ZZD06Strings() {
	d := zzD06Dict(zzD06Versions[sym.Choose("version", 3)], sym.Choose("encoding", 2) == 1)
	var r rune
	switch sym.Choose("width", 4) {
	case 0:
		r = sym.Rune("char", 0, 0x7F)
	case 1:
		r = sym.Rune("char", 0x80, 0x7FF)
	case 2:
		r = sym.Rune("char", 0x800, 0xD7FF)
	case 3:
		r = sym.Rune("char", 0x10000, 0x10FFFF)
	}
	s := string(r)
	if sym.Choose("long", 2) == 1 {
		s += strings.Repeat("あ", 43) + s // 129 bytes and 43 units and more
	}
	w := &d.Words[1+sym.Choose("word", 2)]
	switch k := sym.Choose("field", 5); k {
	case 0:
		w.Norm = s
	case 1:
		w.Reading = s
	case 2:
		w.Headword = w.Surface
		w.HeadLen = len(w.Surface)
		w.Surface = s
	default:
		if d.Pos == nil {
			sym.Skip()
		}
		d.Pos[1][k] = s
	}
	// a form like the surface is stored as an empty one
	sym.Assume(!sym.EqStr(w.Norm, w.Surface))
	sym.Assume(!sym.EqStr(w.Reading, w.Surface))
	zzD06Convert(d)
}

// ZZD06Numbers: arbitrary numbers in every section.
func ZZD06Numbers() {
	d := zzD06Dict(zzD06Versions[sym.Choose("version", 3)], sym.Choose("encoding", 2) == 1)
	w := &d.Words[sym.Choose("word", 4)]
	switch sym.Choose("field", 10) {
	case 0:
		w.Left = sym.Int16("left")
	case 1:
		w.Right = sym.Int16("right")
	case 2:
		w.Cost = sym.Int16("cost")
	case 3:
		w.Pos = sym.Int16("pos")
	case 4:
		w.A = append(w.A, sym.Int32("id"))
	case 5:
		w.B = append(w.B, sym.Int32("id"))
	case 6:
		w.Struct = append(w.Struct, sym.Int32("id"), -1)
	case 7:
		d.Time = sym.Int64("time")
	case 8:
		if d.Matrix == nil {
			sym.Skip()
		}
		d.Matrix[sym.Choose("cell", len(d.Matrix))] = sym.Int16("connect")
	case 9:
		d.Description = string([]byte{sym.ByteIn("desc", 1, 255), 'x'})
	}
	zzD06Convert(d)
}

// ZZD06Lengths: strings and headwords about the lengths where their length fields change.
func ZZD06Lengths() {
	d := zzD06Dict(zzref.SystemVersion, sym.Choose("encoding", 2) == 1)
	n := []int{0, 1, 42, 43, 126, 127, 128, 129, 255, 256, 300}[sym.Choose("length", 11)]
	w := &d.Words[1]
	c := []string{"a", "あ", "𠮷"}[sym.Choose("char", 3)]
	w.Headword = w.Surface
	w.HeadLen = []int{0, 127, 128, 255, 256, 32767}[sym.Choose("headword", 6)]
	if sym.Choose("field", 2) == 0 {
		w.Surface = strings.Repeat(c, n)
	} else {
		d.Pos[0][2] = strings.Repeat(c, n)
		for i := 0; i < n; i++ {
			w.A = append(w.A, int32(i))
		}
		if len(w.A) > 255 {
			w.A = w.A[:255]
		}
	}
	zzD06Convert(d)
}

// ZZD06TooLong: a string that does not fit is refused.
func ZZD06TooLong() {
	d := zzD06Dict(zzref.SystemVersion, true)
	n := 10922 + sym.Choose("over", 2) // 32766 or 32769 bytes
	s := strings.Repeat("あ", n) + []string{"", "a", "aa"}[sym.Choose("tail", 3)]
	w := &d.Words[2]
	switch sym.Choose("field", 3) {
	case 0:
		w.Norm = s
	case 1:
		w.Reading = s
	case 2:
		d.Pos[1][3] = s
	}
	if len(s) <= 32767 {
		sym.Reach("fits")
		zzD06Convert(d)
		return
	}
	img, _ := d.Image()
	sym.Args("-o", sym.TempPath("out.dic"), sym.TempFile("in.dic", img))
	sym.Assert(sym.RunMain(main) != 0, "a string that does not fit is refused")
	sym.Reach("refused")
}

// ZZD06Unreadable: what is no dictionary is refused.
func ZZD06Unreadable() {
	img, _ := zzD06Dict(zzref.SystemVersion, false).Image()
	in := sym.TempPath("missing.dic")
	switch sym.Choose("input", 3) {
	case 0:
	case 1:
		in = sym.TempFile("in.dic", img[:100])
	case 2:
		img[sym.Choose("at", 8)] ^= 1 + byte(sym.Choose("bit", 2))
		in = sym.TempFile("in.dic", img)
	}
	sym.Args("-j", "-o", sym.TempPath("out.dic"), in)
	sym.Assert(sym.RunMain(main) != 0, "what is no dictionary is refused")
	sym.Reach("refused")
}
