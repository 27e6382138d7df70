package main

import (
	"os"
	"strings"
	"time"

	"github.com/msnoigrs/gosudachi/dictionary"
	"github.com/msnoigrs/gosudachi/internal/zzref"
	sym "github.com/msnoigrs/gosudachi/internal/zzsym"
)

const zzC01Matrix = "2 2\n0 0 0\n0 1 10\n1 0 -5\n1 1 7\n"

// zzC01Library builds the sources with the library.
func zzC01Library(desc string, sources []string, matrix, system string, utf16 bool) []byte {
	path := sym.TempPath("want.dic")
	f, err := os.Create(path)
	if err != nil {
		sym.Fail("the output can be made")
	}
	f.Write(make([]byte, 272))
	b := dictionary.NewDictionaryBuilder(272, nil, utf16)
	store := dictionary.NewPosTable()
	for _, src := range sources {
		if b.BuildLexicon(store, strings.NewReader(src)) != nil {
			return nil
		}
	}
	err = b.WriteGrammar(store, strings.NewReader(matrix), f)
	if err != nil || b.WriteLexicon(f, store) != nil || f.Close() != nil {
		return nil
	}
	got, _ := sym.FileContent(path)
	return got
}

// ZZC01Build: one to three sources, whose entries refer to one another, in both encodings.
func ZZC01Build() {
	utf16 := sym.Choose("utf16", 2) == 1
	digit := string([]byte{sym.ByteIn("digit", '0', '9')})
	all := []string{
		"東京,1,1,1" + digit + ",東京,名詞,固有名詞,地名,*,*,*,トウキョウ,東京,*,A,*,*,*\n京都,0,1,20,京都,名詞,普通名詞,一般,*,*,*,キョウト,京都,*,A,*,*,*\n",
		"東京都,1,0,-" + digit + ",東京都,名詞,固有名詞,地名,*,*,*,トウキョウト,東京都,0,C,SELF0/SELF1,*,SELF0/SELF2\n",
		"く,0,0,5,く,動詞,*,*,*,五段,基本,ク,く,1,A,*,*,*\n",
	}
	self := ""
	for i := range all {
		all[i] = strings.Replace(all[i], "SELF", self, -1)
	}
	n := 1 + sym.Choose("sources", 3)
	desc := ""
	switch sym.Choose("description", 4) {
	case 1:
		desc = "説明 " + digit
	case 2:
		desc = strings.Repeat("d", 255) + digit
	case 3:
		desc = "built\ntwice"
	}
	sources := all[:n]
	out := sym.TempPath("out.dic")
	if sym.Choose("existing", 2) == 1 {
		sym.TempFile("out.dic", make([]byte, 20000))
	}
	args := []string{"-o", out, "-m", sym.TempFile("matrix.def", []byte(zzC01Matrix))}
	if desc != "" {
		args = append(args, "-d", desc)
	}
	if utf16 {
		args = append(args, "-j")
	}
	for i, s := range sources {
		args = append(args, sym.TempFile("source"+string([]byte{byte('0' + i)}), []byte(s)))
	}
	want := zzC01Library(desc, sources, zzC01Matrix, "", utf16)
	before := time.Now().Unix()
	sym.Args(args...)
	code := sym.RunMain(main)
	after := time.Now().Unix()
	got, ok := sym.FileContent(out)
	if want == nil {
		sym.Fail("the library builds the dictionary")
	}
	sym.Assert(code == 0, "the program succeeds")
	sym.Assert(ok && len(got) == len(want), "the dictionary is written")
	if len(got) != len(want) {
		return
	}
	t, v := int64(0), uint64(0)
	for i := 0; i < 8; i++ {
		v |= uint64(got[i]) << uint(8*i)
		t |= int64(got[8+i]) << uint(8*i)
	}
	sym.Assert(v == zzref.SystemVersion, "the version is the kind's")
	sym.Assert(t >= before && t <= after, "the time is that of the build")
	d := make([]byte, 256)
	copy(d, desc)
	sym.Assert(sym.EqBytes(got[16:272], d), "the description is the one given")
	sym.Assert(sym.EqBytes(got[272:], want[272:]), "the dictionary holds the sources' entries in order")
	dic, err := dictionary.NewBinaryDictionary(out, utf16)
	sym.Assert(err == nil, "the dictionary can be opened")
	if err == nil {
		sym.Assert(int(dic.Lexicon.Size()) == []int{2, 3, 4}[n-1], "the dictionary holds the sources' entries in order")
		dic.Close()
	}
	sym.Reach("built")
}

// ZZC01Wrong: options that are missing, and files that are not there or not what they should be.
func ZZC01Wrong() {
	utf16 := sym.Choose("utf16", 2) == 1
	good := sym.TempFile("source", []byte("東京,1,1,1,東京,名詞,固有名詞,地名,*,*,*,トウキョウ,東京,*,A,*,*,*\n"))
	args := []string{"-o", sym.TempPath("out.dic"), "-m", sym.TempFile("matrix.def", []byte(zzC01Matrix)), "-d", "x", good}
	switch sym.Choose("wrong", 10) {
	case 0:
		args = args[2:]
	case 1:
		args = append(args[:2], args[4:]...)
	case 2:
		args = args[:6]
	case 3:
		args[1] += "/none/out.dic"
	case 4:
		args[3] += ".none"
	case 5:
		args[3] = sym.TempFile("bad", []byte("2 2\n0 0 x\n"))
	case 6:
		args[5] = strings.Repeat("d", 257)
	case 7:
		args[6] += ".none"
	case 8:
		args = append(args, good+".none")
	case 9: // a line that is no entry, after one that is
		args = append(args, sym.TempFile("source2", []byte("東京,1,1,1,東京,名詞,固有名詞,地名,*,*,*,トウキョウ,東京,*,A,*,*,*\n"+[]string{"京,1,1\n", "京,1,1,1,京,名詞,固有名詞,地名,*,*,*,トウキョウ,東京,*,A,0,*,*\n", "京,1,1,1,京,名詞,固有名詞,地名,*,*,*,キョウ,京,*,C,9,*,*\n"}[sym.Choose("line", 3)])))
	}
	if utf16 {
		args = append([]string{"-j"}, args...)
	}
	sym.Args(args...)
	sym.Assert(sym.RunMain(main) != 0, "a failure makes the exit status non-zero")
	sym.Reach("failed")
}
