package main

import (
	"os"
	"strings"
	"time"

	"github.com/msnoigrs/gosudachi/internal/zzref"
	sym "github.com/msnoigrs/gosudachi/internal/zzsym"
)

// zzC01Out runs the program and returns its exit status and what it prints.
func zzC01Out(args ...string) (int, string) {
	out := sym.TempPath("out")
	f, err := os.Create(out)
	if err != nil {
		sym.Fail("the output can be made")
	}
	stdout := os.Stdout
	os.Stdout = f
	sym.Args(args...)
	code := sym.RunMain(main)
	os.Stdout = stdout
	got, _ := sym.FileContent(out)
	return code, string(got)
}

// ZZC01Header: the header of each kind of dictionary, with arbitrary characters in its description.
func ZZC01Header() {
	time.Local = time.UTC
	times := []struct {
		t int64
		s string
	}{{0, "1970-01-01T00:00:00Z"}, {1573000000, "2019-11-06T00:26:40Z"}, {951782399, "2000-02-28T23:59:59Z"},
		{4107542400, "2100-03-01T00:00:00Z"}, {-1, "1969-12-31T23:59:59Z"}}[sym.Choose("time", 5)]
	kind := sym.Choose("version", 4)
	d := &zzref.Dict{Version: []uint64{zzref.SystemVersion, zzref.UserVersion1, zzref.UserVersion2, sym.Uint64("version")}[kind],
		Time: times.t, Words: []zzref.Word{zzref.W("あ", 0, 0, 1, 0)}}
	if kind == 3 {
		for _, v := range []uint64{zzref.SystemVersion, zzref.UserVersion1, zzref.UserVersion2} {
			sym.Assume(d.Version != v)
		}
	}
	switch sym.Choose("description", 4) {
	case 1:
		d.Description = "説" + string(sym.Rune("char", 0x80, 0x7FF)) + "明"
	case 2:
		d.Description = string([]byte{'x', sym.ByteIn("byte", 1, 127), 'y'})
	case 3:
		d.Description = strings.Repeat("d", 255) + string([]byte{sym.ByteIn("byte", 1, 127)})
	}
	var img []byte
	if kind == 0 {
		d.L, d.R, d.Matrix = 1, 1, []int16{0}
	}
	v := d.Version
	if kind == 3 {
		d.Version = zzref.UserVersion1
	}
	img, _ = d.Image()
	for i := 0; i < 8; i++ {
		img[i] = byte(v >> uint(8*i))
	}
	path := sym.TempFile("a.dic", img)
	code, got := zzC01Out(path)
	if kind == 3 {
		sym.Assert(code != 0, "a file that is not a dictionary makes the exit status non-zero")
		sym.Reach("not a dictionary")
		return
	}
	sym.Assert(code == 0, "the program succeeds")
	typ := []string{"system", "user", "user"}[kind]
	want := "filename: " + path + "\ntype: " + typ + " dictionary\ncreateTime: " + times.s + "[UTC]\ndescription: " + d.Description + "\n"
	sym.Assert(len(got) == len(want), "the header is printed")
	if len(got) == len(want) {
		sym.Assert(sym.EqStr(got, want), "the header is printed")
	}
	sym.Reach("printed")
}

// ZZC01Wrong: no file, a file that is not there, and files shorter than a header.
func ZZC01Wrong() {
	n := []int{0, 1, 8, 271}[sym.Choose("length", 4)]
	img := make([]byte, n)
	v := uint64(zzref.SystemVersion)
	for i := 0; i < n && i < 8; i++ {
		img[i] = byte(v >> uint(8*i))
	}
	path := sym.TempFile("a.dic", img)
	var args []string
	switch sym.Choose("wrong", 3) {
	case 1:
		args = []string{path + ".none"}
	case 2:
		args = []string{path}
	}
	code, _ := zzC01Out(args...)
	sym.Assert(code != 0, "a failure makes the exit status non-zero")
	sym.Reach("failed")
}
