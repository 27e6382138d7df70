package main

import (
	"path/filepath"

	"github.com/msnoigrs/gosudachi/internal/zzref"
	sym "github.com/msnoigrs/gosudachi/internal/zzsym"
)

// ZZF01Convert: converting a file that cannot be read, or to a file that cannot be written.
func ZZF01Convert() {
	d := &zzref.Dict{Version: []uint64{zzref.SystemVersion, zzref.UserVersion1, zzref.UserVersion2}[sym.Choose("version", 3)], Time: 1,
		Description: string(sym.Rune("char", 0x3041, 0x3046)), Words: []zzref.Word{zzref.W("あ", 0, 0, 1, 0)}}
	if d.Version == zzref.SystemVersion {
		d.L, d.R, d.Matrix, d.Pos = 1, 1, []int16{0}, [][]string{{"名詞", "*", "*", "*", "*", "*"}}
	}
	img, _ := d.Image()
	in, out := sym.TempFile("in.dic", img), sym.TempPath("out.dic")
	fault := sym.Choose("fault", 5)
	switch fault {
	case 1:
		in = filepath.Dir(in)
	case 2:
		in = filepath.Join(filepath.Dir(in), "missing")
	case 3:
		out = filepath.Dir(in)
	case 4:
		out = "/dev/full"
	}
	sym.Args("-j", "-o", out, in)
	code := sym.RunMain(main)
	if fault != 0 {
		sym.Assert(code != 0, "a program that could not read or write what it should does not exit with status 0")
		sym.Reach("failed")
	} else {
		sym.Assert(code == 0, "a dictionary can be converted")
		sym.Reach("succeeded")
	}
}

// ZZF01Anywhere: any one call that writes the output fails; the others do not.
func ZZF01Anywhere() {
	d := &zzref.Dict{Version: []uint64{zzref.SystemVersion, zzref.UserVersion1, zzref.UserVersion2}[sym.Choose("version", 3)], Time: 1,
		Description: string(sym.Rune("char", 0x3041, 0x3046)), Words: []zzref.Word{zzref.W("あ", 0, 0, 1, 0)}}
	if d.Version == zzref.SystemVersion {
		d.L, d.R, d.Matrix, d.Pos = 1, 1, []int16{0}, [][]string{{"名詞", "*", "*", "*", "*", "*"}}
	}
	d.UTF16 = sym.Choose("utf16", 2) == 1
	img, _ := d.Image()
	in, out := sym.TempFile("in.dic", img), sym.TempPath("out.dic")
	k := sym.Choose("call", 20)
	sym.FailIO(out, true, k)
	args := []string{"-o", out, in}
	if !d.UTF16 {
		args = append([]string{"-j"}, args...)
	}
	sym.Args(args...)
	code := sym.RunMain(main)
	if sym.IOCalls() > k {
		sym.Assert(code != 0, "a program that could not read or write what it should does not exit with status 0")
		sym.Reach("failed")
	} else {
		sym.Assert(code == 0, "a dictionary can be converted")
		sym.Reach("succeeded")
	}
}
