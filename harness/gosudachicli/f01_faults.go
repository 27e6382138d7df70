package main

import (
	"os"
	"path/filepath"
	"strings"

	"github.com/msnoigrs/gosudachi/internal/zzref"
	sym "github.com/msnoigrs/gosudachi/internal/zzsym"
)

// ZZF01Run: the program when a file it needs cannot be read or its output cannot be written.
func ZZF01Run() {
	d := &zzref.Dict{Version: zzref.SystemVersion, L: 1, R: 1, Matrix: []int16{0}, Pos: [][]string{{"名詞", "*", "*", "*", "*", "*"}},
		Words: []zzref.Word{zzref.W("あ", 0, 0, 1, 0), zzref.W("い", 0, 0, 1, 0)}}
	img, _ := d.Image()
	system := sym.TempFile("system.dic", img)
	dir := filepath.Dir(system)
	char := sym.TempFile("char.def", []byte("0x3041..0x309F HIRAGANA\n"))
	cats := sym.TempFile("cats.def", []byte("DEFAULT 0 1 0\n"))
	unk := sym.TempFile("unk.def", []byte("DEFAULT,0,0,9000,名詞,*,*,*,*,*\n"))
	rewrite := sym.TempFile("rewrite.def", []byte("x あい\n"))
	fault := sym.Choose("fault", 11)
	switch fault {
	case 1:
		system = dir
	case 2:
		char = dir
	case 3:
		cats = dir
	case 4:
		unk = dir
	case 5:
		rewrite = dir
	}
	user := ""
	if fault == 6 {
		user = dir
	}
	settings := `{"systemDict":"` + system + `", "characterDefinitionFile":"` + char + `", "inputTextPlugin":[{"class":"DefaultInputTextPlugin", "rewriteDef":"` + rewrite + `"}]`
	if user != "" {
		settings += `, "userDict":["` + user + `"]`
	}
	settings += `, "oovProviderPlugin":[{"class":"MeCabOovProviderPlugin", "charDef":"` + cats + `", "unkDef":"` + unk + `"}, {"class":"SimpleOovProviderPlugin", "oovPOS":["名詞","*","*","*","*","*"], "leftId":0, "rightId":0, "cost":7000}]}`
	sfile := sym.TempFile("settings.json", []byte(settings))
	if fault == 7 {
		sfile = dir
	}
	text := []byte(string(sym.Rune("char", 0x3041, 0x3046)))
	if sym.Choose("long", 2) == 1 { // more than the output's buffer holds
		text = []byte(strings.Repeat("あい", 90))
	}
	args := []string{"-r", sfile, "-p", dir}
	var in0 string
	switch fault {
	case 8:
		in0 = dir
	default:
		in0 = sym.TempFile("in", text)
	}
	out := sym.TempPath("out")
	outfd, err := os.Create(out)
	if err != nil {
		sym.Fail("the output can be made")
	}
	if sym.Choose("ignore errors", 2) == 1 {
		args = append(args, "-f")
	}
	debug := sym.Choose("debug", 2) == 1
	if debug {
		args = append(args, "-d")
	}
	stdout, stdin := os.Stdout, os.Stdin
	toFile := sym.Choose("output file", 2) == 1
	if fault == 9 { // the output device is full
		if toFile {
			args = append(args, "-o", "/dev/full")
		} else if outfd, err = os.OpenFile("/dev/full", os.O_WRONLY, 0); err != nil {
			sym.Fail("there is a full device")
		}
	} else if fault == 10 { // the output file cannot be made
		args = append(args, "-o", dir)
	} else if toFile {
		args = append(args, "-o", out)
	}
	if sym.Choose("stdin", 2) == 1 {
		f, err := os.Open(in0)
		if err != nil {
			sym.Fail("the input can be opened")
		}
		os.Stdin = f
	} else {
		args = append(args, in0)
	}
	os.Stdout = outfd
	sym.Args(args...)
	code := sym.RunMain(main)
	os.Stdout, os.Stdin = stdout, stdin
	if fault != 0 {
		sym.Assert(code != 0, "a program that could not read or write what it should does not exit with status 0")
		sym.Reach("failed")
	} else {
		sym.Assert(code == 0, "a program that could read and write what it should exits with status 0")
		got, _ := sym.FileContent(out)
		sym.Assert(len(got) > 4 && string(got[len(got)-4:]) == "EOS\n", "the output is written to its end")
		sym.Reach("succeeded")
	}
}

// ZZF01Anywhere: any one call that reads a file or writes the output fails; the others do not.
func ZZF01Anywhere() {
	d := &zzref.Dict{Version: zzref.SystemVersion, L: 1, R: 1, Matrix: []int16{0}, Pos: [][]string{{"名詞", "*", "*", "*", "*", "*"}},
		Words: []zzref.Word{zzref.W("あ", 0, 0, 1, 0), zzref.W("い", 0, 0, 1, 0)}}
	img, _ := d.Image()
	system := sym.TempFile("system.dic", img)
	dir := filepath.Dir(system)
	char := sym.TempFile("char.def", []byte("0x3041..0x309F HIRAGANA\n"))
	cats := sym.TempFile("cats.def", []byte("DEFAULT 0 1 0\n"))
	unk := sym.TempFile("unk.def", []byte("DEFAULT,0,0,9000,名詞,*,*,*,*,*\n"))
	rewrite := sym.TempFile("rewrite.def", []byte("x あい\n"))
	settings := sym.TempFile("settings.json", []byte(`{"systemDict":"`+system+`", "characterDefinitionFile":"`+char+`", "inputTextPlugin":[{"class":"DefaultInputTextPlugin", "rewriteDef":"`+rewrite+
		`"}], "oovProviderPlugin":[{"class":"MeCabOovProviderPlugin", "charDef":"`+cats+`", "unkDef":"`+unk+`"}, {"class":"SimpleOovProviderPlugin", "oovPOS":["名詞","*","*","*","*","*"], "leftId":0, "rightId":0, "cost":7000}]}`))
	text := string(sym.Rune("char", 0x3041, 0x3042)) + "\nあ"
	one, two := sym.TempFile("in1", []byte(text)), sym.TempFile("in2", []byte("い\n\nえ\n"))
	out := sym.TempPath("out")
	outfd, err := os.Create(out)
	if err != nil {
		sym.Fail("the output can be made")
	}
	path := []string{char, cats, unk, rewrite, settings, one, two, out}[sym.Choose("file", 8)]
	k := 0
	if path == out {
		k = sym.Choose("write", 24)
	} else {
		k = sym.Choose("read", 4)
	}
	args := []string{"-r", settings, "-p", dir}
	if sym.Choose("ignore errors", 2) == 1 {
		args = append(args, "-f")
	}
	stdout, stdin := os.Stdout, os.Stdin
	if sym.Choose("output file", 2) == 1 {
		args = append(args, "-o", out)
	}
	if sym.Choose("stdin", 2) == 1 {
		f, err := os.Open(one)
		if err != nil {
			sym.Fail("the input can be opened")
		}
		os.Stdin = f
	} else {
		args = append(args, one, two)
	}
	os.Stdout = outfd
	sym.FailIO(path, path == out, k)
	sym.Args(args...)
	code := sym.RunMain(main)
	os.Stdout, os.Stdin = stdout, stdin
	if sym.IOCalls() > k {
		sym.Assert(code != 0, "a program that could not read or write what it should does not exit with status 0")
		sym.Reach("failed")
	} else {
		sym.Assert(code == 0, "a program that could read and write what it should exits with status 0")
		sym.Reach("succeeded")
	}
}
