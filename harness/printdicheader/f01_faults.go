package main

import (
	"os"
	"path/filepath"

	"github.com/msnoigrs/gosudachi/internal/zzref"
	sym "github.com/msnoigrs/gosudachi/internal/zzsym"
)

// ZZF01Header: the header of a dictionary that cannot be read, or to an output that cannot be written.
func ZZF01Header() {
	d := &zzref.Dict{Version: []uint64{zzref.SystemVersion, zzref.UserVersion1, zzref.UserVersion2}[sym.Choose("version", 3)], Time: 1,
		Description: string(sym.Rune("char", 0x3041, 0x3046)), Words: []zzref.Word{zzref.W("あ", 0, 0, 1, 0)}}
	if d.Version == zzref.SystemVersion {
		d.L, d.R, d.Matrix, d.Pos = 1, 1, []int16{0}, [][]string{{"名詞", "*", "*", "*", "*", "*"}}
	}
	img, _ := d.Image()
	path := sym.TempFile("d.dic", img)
	fault := sym.Choose("fault", 3)
	outfd, err := os.Create(sym.TempPath("out"))
	switch fault {
	case 1:
		outfd, err = os.OpenFile("/dev/full", os.O_WRONLY, 0)
	case 2:
		path = filepath.Dir(path)
	}
	if err != nil {
		sym.Fail("the output can be made")
	}
	stdout := os.Stdout
	os.Stdout = outfd
	sym.Args(path)
	code := sym.RunMain(main)
	os.Stdout = stdout
	if fault != 0 {
		sym.Assert(code != 0, "a program that could not read or write what it should does not exit with status 0")
		sym.Reach("failed")
	} else {
		sym.Assert(code == 0, "a header can be printed")
		sym.Reach("succeeded")
	}
}

// ZZF01Anywhere: any one call that writes the output or reads the dictionary fails; the others do not.
func ZZF01Anywhere() {
	d := &zzref.Dict{Version: []uint64{zzref.UserVersion1, zzref.UserVersion2}[sym.Choose("version", 2)], Time: 1,
		Description: string(sym.Rune("char", 0x3041, 0x3046)), Words: []zzref.Word{zzref.W("あ", 0, 0, 1, 0)}}
	img, _ := d.Image()
	path, out := sym.TempFile("d.dic", img), sym.TempPath("out")
	outfd, err := os.Create(out)
	if err != nil {
		sym.Fail("the output can be made")
	}
	k := sym.Choose("call", 10)
	if sym.Choose("write", 2) == 1 {
		sym.FailIO(out, true, k)
	} else {
		sym.FailIO(path, false, k)
	}
	stdout := os.Stdout
	os.Stdout = outfd
	sym.Args(path)
	code := sym.RunMain(main)
	os.Stdout = stdout
	if sym.IOCalls() > k {
		sym.Assert(code != 0, "a program that could not read or write what it should does not exit with status 0")
		sym.Reach("failed")
	} else {
		sym.Assert(code == 0, "a header can be printed")
		sym.Reach("succeeded")
	}
}
