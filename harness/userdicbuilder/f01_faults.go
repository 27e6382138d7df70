package main

import (
	"path/filepath"

	"github.com/msnoigrs/gosudachi/internal/zzref"
	sym "github.com/msnoigrs/gosudachi/internal/zzsym"
)

// ZZF01Build: building from files that cannot be read, or to a file that cannot be written.
func ZZF01Build() {
	d := &zzref.Dict{Version: zzref.SystemVersion, L: 2, R: 2, Matrix: []int16{0, -5, 10, 7},
		Pos: [][]string{{"名詞", "*", "*", "*", "*", "*"}}, Words: []zzref.Word{zzref.W("東", 1, 1, 3, 0), zzref.W("京", 1, 1, 3, 0)}}
	img, _ := d.Image()
	system := sym.TempFile("system.dic", img)
	src := sym.TempFile("lex.csv", []byte("東,0,0,1"+string([]byte{sym.ByteIn("digit", '0', '9')})+",東,名詞,*,*,*,*,*,ヒガシ,東,*,A,*,*,*\n"))
	src2 := sym.TempFile("lex2.csv", []byte("都,0,0,1,都,名詞,*,*,*,*,*,ト,都,*,A,*,*,*\n"))
	out := sym.TempPath("out.dic")
	dir := filepath.Dir(src)
	fault := sym.Choose("fault", 9)
	switch fault {
	case 1:
		src = dir
	case 2:
		src2 = dir
	case 3:
		system = dir
	case 4:
		out = dir
	case 5:
		out = "/dev/full"
	case 6:
		src2 = filepath.Join(dir, "missing")
	case 7:
		system = filepath.Join(dir, "missing")
	case 8: // a user dictionary as system dictionary
		u := &zzref.Dict{Version: zzref.UserVersion2, Pos: d.Pos, Words: d.Words}
		img, _ := u.Image()
		system = sym.TempFile("user.dic", img)
	}
	sym.Args("-o", out, "-s", system, src, src2)
	code := sym.RunMain(main)
	if fault != 0 {
		sym.Assert(code != 0, "a program that could not read or write what it should does not exit with status 0")
		sym.Reach("failed")
	} else {
		sym.Assert(code == 0, "a dictionary can be built")
		sym.Reach("succeeded")
	}
}

// ZZF01Anywhere: any one call that reads an input or writes the output fails; the others do not.
func ZZF01Anywhere() {
	d := &zzref.Dict{Version: zzref.SystemVersion, L: 2, R: 2, Matrix: []int16{0, -5, 10, 7},
		Pos: [][]string{{"名詞", "*", "*", "*", "*", "*"}}, Words: []zzref.Word{zzref.W("東", 1, 1, 3, 0), zzref.W("京", 1, 1, 3, 0)}}
	img, _ := d.Image()
	system := sym.TempFile("system.dic", img)
	src := sym.TempFile("lex.csv", []byte("東,0,0,1"+string([]byte{sym.ByteIn("digit", '0', '9')})+",東,名詞,*,*,*,*,*,ヒガシ,東,*,A,*,*,*\n"))
	src2 := sym.TempFile("lex2.csv", []byte("都,0,0,1,都,名詞,*,*,*,*,*,ト,都,*,A,*,*,*\n"))
	out := sym.TempPath("out.dic")
	path := []string{src, src2, system, out}[sym.Choose("file", 4)]
	k := sym.Choose("call", 20)
	sym.FailIO(path, path == out, k)
	sym.Args("-o", out, "-s", system, src, src2)
	code := sym.RunMain(main)
	if sym.IOCalls() > k {
		sym.Assert(code != 0, "a program that could not read or write what it should does not exit with status 0")
		sym.Reach("failed")
	} else {
		sym.Assert(code == 0, "a dictionary can be built")
		sym.Reach("succeeded")
	}
}
