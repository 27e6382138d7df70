package main

import (
	"os"
	"strconv"

	"github.com/msnoigrs/gosudachi/internal/zzref"
	sym "github.com/msnoigrs/gosudachi/internal/zzsym"
)

func zzC01Out(args ...string) (int, string) {
	out := sym.TempPath("out")
	f, err := os.Create(out)
	if err != nil {
		sym.Fail("the output can be made")
	}
	stdout := os.Stdout
	os.Stdout = f
	sym.Args(args...)
	code := sym.RunMain(main)
	os.Stdout = stdout
	got, _ := sym.FileContent(out)
	return code, string(got)
}

func zzC01Dicts(utf16 bool) (sys, user *zzref.Dict) {
	sys = &zzref.Dict{Version: zzref.SystemVersion, L: 1, R: 1, Matrix: []int16{0}, UTF16: utf16,
		Pos: [][]string{{"名詞", "*", "*", "*", "*", "*"}, {"動詞", "*", "*", "*", "五段", "基本"}}}
	sys.Words = []zzref.Word{zzref.W("東", 1, 2, 3, 0), zzref.W("く", 4, 5, -6, 1)}
	user = &zzref.Dict{Version: zzref.UserVersion2, UTF16: utf16, Pos: [][]string{{"名詞", "固有", "*", "*", "*", "*"}}}
	user.Words = []zzref.Word{zzref.W("京", 7, 8, 9, 2), zzref.W("都", 10, 11, 12, 1)}
	return
}

var zzC01Pos = []string{"名詞,*,*,*,*,*", "動詞,*,*,*,五段,基本", "名詞,固有,*,*,*,*"}

func zzC01Line(w zzref.Word) string {
	dic := "*"
	if w.DicForm >= 0 {
		dic = strconv.Itoa(int(w.DicForm))
	}
	norm, read := w.Norm, w.Reading
	if norm == "" {
		norm = w.Surface
	}
	if read == "" {
		read = w.Surface
	}
	return w.Surface + "," + strconv.Itoa(int(w.Left)) + "," + strconv.Itoa(int(w.Right)) + "," + strconv.Itoa(int(w.Cost)) + "," + w.Surface + "," +
		zzC01Pos[w.Pos] + "," + read + "," + norm + "," + dic + ",A,*,*,*\n"
}

// ZZC01Print: system and user dictionaries in both encodings, with arbitrary numbers and characters.
func ZZC01Print() {
	utf16 := sym.Choose("utf16", 2) == 1
	sys, user := zzC01Dicts(utf16)
	which := sym.Choose("kind", 3)
	d := sys
	if which != 0 {
		d = user
	}
	if which == 2 {
		d.Version = zzref.UserVersion1
		d.Pos = nil
		d.Words[0].Pos = 0
	}
	w := &d.Words[sym.Choose("word", 2)]
	switch sym.Choose("field", 4) {
	case 0:
		w.Left = int16(sym.Int("left", 0, 99))
	case 1:
		w.Cost = int16(sym.Int("cost", -99, 99))
	case 2:
		w.Reading = "ト" + string(sym.Rune("char", 0x3041, 0x30FF))
	case 3:
		w.DicForm = int32(sym.Choose("dictionary form", 2))
	}
	var args []string
	sysimg, _ := sys.Image()
	spath := sym.TempFile("sys.dic", sysimg)
	if which != 0 || sym.Choose("system", 2) == 1 {
		args = append(args, "-s", spath)
	}
	if utf16 {
		args = append(args, "-j")
	}
	path := spath
	if which != 0 {
		img, _ := user.Image()
		path = sym.TempFile("user.dic", img)
	}
	code, got := zzC01Out(append(args, path)...)
	sym.Assert(code == 0, "the program succeeds")
	want := zzC01Line(d.Words[0]) + zzC01Line(d.Words[1])
	sym.Assert(len(got) == len(want), "each word is printed")
	if len(got) == len(want) {
		sym.Assert(sym.EqStr(got, want), "each word is printed")
	}
	sym.Reach("printed")
}

// ZZC01Wrong: a user dictionary without its system dictionary, and files that are not there or no dictionaries.
func ZZC01Wrong() {
	sys, user := zzC01Dicts(false)
	img, _ := sys.Image()
	spath := sym.TempFile("sys.dic", img)
	img, _ = user.Image()
	upath := sym.TempFile("user.dic", img)
	bad := append([]byte{}, img...)
	bad[0] ^= byte(1 + sym.Choose("bit", 2))
	bpath := sym.TempFile("bad.dic", bad)
	short := sym.TempFile("short.dic", img[:100])
	args := [][]string{{}, {upath}, {"-s", spath}, {"-s", spath + ".none", upath}, {"-s", upath, upath}, {"-s", spath, upath + ".none"},
		{"-s", spath, bpath}, {"-s", bpath, upath}, {"-s", spath, short}, {short}, {"-s", short, upath}}[sym.Choose("wrong", 11)]
	code, _ := zzC01Out(args...)
	sym.Assert(code != 0, "a failure makes the exit status non-zero")
	sym.Reach("failed")
}
