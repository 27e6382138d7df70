package main

import (
	"path/filepath"

	sym "github.com/msnoigrs/gosudachi/internal/zzsym"
)

// ZZF01Build: building from files that cannot be read, or to a file that cannot be written.
func ZZF01Build() {
	src := sym.TempFile("lex.csv", []byte("東,0,0,1"+string([]byte{sym.ByteIn("digit", '0', '9')})+",東,名詞,*,*,*,*,*,ヒガシ,東,*,A,*,*,*\n"))
	src2 := sym.TempFile("lex2.csv", []byte("京,0,0,1,京,名詞,*,*,*,*,*,キョウ,京,*,A,*,*,*\n"))
	matrix := sym.TempFile("matrix.def", []byte("1 1\n0 0 5\n"))
	out := sym.TempPath("out.dic")
	dir := filepath.Dir(src)
	fault := sym.Choose("fault", 9)
	switch fault {
	case 1:
		src = dir
	case 2:
		src2 = dir
	case 3:
		matrix = dir
	case 4:
		out = dir
	case 5:
		out = "/dev/full"
	case 6:
		src2 = filepath.Join(dir, "missing")
	case 7:
		matrix = filepath.Join(dir, "missing")
	case 8:
		src2 = matrix
	}
	sym.Args("-o", out, "-m", matrix, src, src2)
	code := sym.RunMain(main)
	if fault != 0 {
		sym.Assert(code != 0, "a program that could not read or write what it should does not exit with status 0")
		sym.Reach("failed")
	} else {
		sym.Assert(code == 0, "a dictionary can be built")
		sym.Reach("succeeded")
	}
}

// ZZF01Anywhere: any one call that reads an input or writes the output fails; the others do not.
func ZZF01Anywhere() {
	src := sym.TempFile("lex.csv", []byte("東,0,0,1"+string([]byte{sym.ByteIn("digit", '0', '9')})+",東,名詞,*,*,*,*,*,ヒガシ,東,*,A,*,*,*\n"))
	src2 := sym.TempFile("lex2.csv", []byte("京,0,0,1,京,名詞,*,*,*,*,*,キョウ,京,*,A,*,*,*\n"))
	matrix := sym.TempFile("matrix.def", []byte("1 1\n0 0 5\n"))
	out := sym.TempPath("out.dic")
	path := []string{src, src2, matrix, out}[sym.Choose("file", 4)]
	k := sym.Choose("call", 20)
	sym.FailIO(path, path == out, k)
	sym.Args("-o", out, "-m", matrix, src, src2)
	code := sym.RunMain(main)
	if sym.IOCalls() > k {
		sym.Assert(code != 0, "a program that could not read or write what it should does not exit with status 0")
		sym.Reach("failed")
	} else {
		sym.Assert(code == 0, "a dictionary can be built")
		sym.Reach("succeeded")
	}
}
