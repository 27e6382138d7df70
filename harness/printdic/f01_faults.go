package main

import (
	"os"
	"path/filepath"

	"github.com/msnoigrs/gosudachi/internal/zzref"
	sym "github.com/msnoigrs/gosudachi/internal/zzsym"
)

// ZZF01Print: listing a dictionary that cannot be read, or to an output that cannot be written.
func ZZF01Print() {
	w := zzref.W("東", 1, 2, 3, 0)
	w.Cost = int16(sym.Int("cost", 0, 9))
	sys := &zzref.Dict{Version: zzref.SystemVersion, L: 1, R: 1, Matrix: []int16{0}, Pos: [][]string{{"名詞", "*", "*", "*", "*", "*"}}, Words: []zzref.Word{w}}
	user := &zzref.Dict{Version: zzref.UserVersion1, Words: []zzref.Word{w}}
	img, _ := sys.Image()
	spath := sym.TempFile("sys.dic", img)
	img, _ = user.Image()
	upath := sym.TempFile("user.dic", img)
	dir := filepath.Dir(spath)
	fault := sym.Choose("fault", 5)
	out := sym.TempPath("out")
	outfd, err := os.Create(out)
	switch fault {
	case 1:
		outfd, err = os.OpenFile("/dev/full", os.O_WRONLY, 0)
	case 2:
		upath = dir
	case 3:
		spath = dir
	}
	if err != nil {
		sym.Fail("the output can be made")
	}
	args := []string{"-s", spath, upath}
	if fault == 4 {
		args = []string{upath} // whose system dictionary is not given
	}
	stdout := os.Stdout
	os.Stdout = outfd
	sym.Args(args...)
	code := sym.RunMain(main)
	os.Stdout = stdout
	if fault != 0 {
		sym.Assert(code != 0, "a program that could not read or write what it should does not exit with status 0")
		sym.Reach("failed")
	} else {
		sym.Assert(code == 0, "a dictionary can be listed")
		sym.Reach("succeeded")
	}
}

// ZZF01Anywhere: any one call that writes the output fails; the others do not.
func ZZF01Anywhere() {
	sys := &zzref.Dict{Version: zzref.SystemVersion, L: 1, R: 1, Matrix: []int16{0}, Pos: [][]string{{"名詞", "*", "*", "*", "*", "*"}}}
	for i := 0; i < 3; i++ {
		w := zzref.W(string(rune('東'+i)), 1, 2, 3, 0)
		w.Cost = int16(sym.Int("cost", 0, 9))
		sys.Words = append(sys.Words, w)
	}
	img, _ := sys.Image()
	path := sym.TempFile("sys.dic", img)
	if sym.Choose("user", 2) == 1 {
		user := &zzref.Dict{Version: zzref.UserVersion1, Words: sys.Words}
		img, _ = user.Image()
		sym.Args("-s", path, sym.TempFile("user.dic", img))
	} else {
		sym.Args(path)
	}
	out := sym.TempPath("out")
	outfd, err := os.Create(out)
	if err != nil {
		sym.Fail("the output can be made")
	}
	k := sym.Choose("call", 30)
	sym.FailIO(out, true, k)
	stdout := os.Stdout
	os.Stdout = outfd
	code := sym.RunMain(main)
	os.Stdout = stdout
	if sym.IOCalls() > k {
		sym.Assert(code != 0, "a program that could not read or write what it should does not exit with status 0")
		sym.Reach("failed")
	} else {
		sym.Assert(code == 0, "a dictionary can be listed")
		sym.Reach("succeeded")
	}
}
