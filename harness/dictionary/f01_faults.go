package dictionary

import (
	"bytes"
	"errors"
	"io"
	"strings"

	"github.com/msnoigrs/gosudachi/internal/zzref"
	sym "github.com/msnoigrs/gosudachi/internal/zzsym"
)

var zzFault = errors.New("fault")

// zzFaultReader delivers its bytes in pieces of at most piece bytes and fails for good, or once, when
// it has delivered left bytes.
type zzFaultReader struct {
	b           []byte
	left, piece int
	once        bool
	failed      bool
}

func (r *zzFaultReader) Read(p []byte) (int, error) {
	if r.left == 0 && !(r.once && r.failed) {
		r.failed = true
		return 0, zzFault
	}
	n := len(r.b)
	if n == 0 {
		return 0, io.EOF
	}
	if n > len(p) {
		n = len(p)
	}
	if n > r.piece {
		n = r.piece
	}
	if r.left > 0 && n > r.left {
		n = r.left
	}
	copy(p, r.b[:n])
	r.b = r.b[n:]
	if r.left > 0 {
		r.left -= n
	}
	return n, nil
}

// zzFaulty makes a reader of src that fails at an arbitrary place; fails is false if it does not.
func zzFaulty(src []byte) (r *zzFaultReader, fails bool) {
	r = &zzFaultReader{b: src, left: -1, piece: []int{4096, 5}[sym.Choose("piece", 2)]}
	r.left = sym.Concrete(sym.Int("fault at", -1, len(src)))
	r.once = sym.Choose("once", 2) == 1
	return r, r.left >= 0
}

func zzReported(err error, fails bool, what string) {
	if fails {
		sym.Assert(err != nil, "a failure to read "+what+" is reported")
		sym.Reach("failed")
	} else {
		sym.Assert(err == nil, "reading "+what+" without failures succeeds")
		sym.Reach("succeeded")
	}
}

// ZZF01Category: a character definition that cannot be read to its end.
func ZZF01Category() {
	d := string([]byte{sym.ByteIn("digit", '0', '9')})
	r, fails := zzFaulty([]byte("#\n0x304" + d + " KANJI\n0x3050..0x305" + "f KANJI SPACE"))
	zzReported(NewCharacterCategory().ReadCharacterDefinition(r), fails, "a character definition")
}

// ZZF01Lexicon: a source lexicon that cannot be read to its end.
func ZZF01Lexicon() {
	a := zzNewRow("東" + string([]byte{sym.ByteIn("letter", 'a', 'z')}))
	a.col[6] = "x"
	r, fails := zzFaulty(zzSource(a, zzNewRow("京")))
	b := NewDictionaryBuilder(zzHeader, nil, false)
	zzReported(b.BuildLexicon(NewPosTable(), r), fails, "a source lexicon")
}

// ZZF01Matrix: a source matrix that cannot be read to its end.
func ZZF01Matrix() {
	r, fails := zzFaulty([]byte("2 2\n0 0 " + string([]byte{sym.ByteIn("digit", '0', '9')}) + "\n\n1 1 -5"))
	f := &zzFile{}
	b := NewDictionaryBuilder(zzHeader, nil, false)
	zzReported(b.WriteGrammar(NewPosTable(), r, f), fails, "a source matrix")
}

// zzFaultFile is a file of which one operation (write or seek), or every one from then on, fails;
// a failing write may have written some bytes.
type zzFaultFile struct {
	zzFile
	ops, at int
	once    bool
	partial int
}

func (f *zzFaultFile) fault() bool {
	f.ops++
	return f.at >= 0 && (f.ops-1 == f.at || !f.once && f.ops-1 > f.at)
}

func (f *zzFaultFile) Write(p []byte) (int, error) {
	if f.fault() {
		n := f.partial
		if n > len(p) {
			n = len(p)
		}
		f.zzFile.Write(p[:n])
		return n, zzFault
	}
	return f.zzFile.Write(p)
}

func (f *zzFaultFile) Seek(offset int64, whence int) (int64, error) {
	if f.fault() {
		return 0, zzFault
	}
	return f.zzFile.Seek(offset, whence)
}

func zzFaultyFile(max int) *zzFaultFile {
	return &zzFaultFile{at: sym.Concrete(sym.Int("fault at", -1, max)), once: sym.Choose("once", 2) == 1, partial: sym.Choose("partial", 2) * 3}
}

func (f *zzFaultFile) check(err error, what string) {
	if f.at >= 0 && f.ops > f.at {
		sym.Assert(err != nil, "a failure to write "+what+" is reported")
		sym.Reach("failed")
	} else {
		sym.Assert(err == nil, "writing "+what+" without failures succeeds")
		sym.Reach("succeeded")
	}
}

// ZZF01Build: a dictionary that cannot be written to its end.
func ZZF01Build() {
	user := sym.Choose("user", 2) == 1
	f := zzFaultyFile(11)
	a := zzNewRow("東" + string([]byte{sym.ByteIn("letter", 'a', 'z')}))
	rows := []*zzRow{a, zzNewRow("京")}
	if sym.Choose("large", 2) == 1 { // more than the buffers hold
		a.col[11] = strings.Repeat("ヨ", 1500)
		a.col[8] = strings.Repeat("x", 5000)
	}
	var err error
	if user {
		sys, e := zzBuildSystem(zzSource(zzNewRow("都")), []byte("1 1\n"), false)
		if e != nil {
			sym.Fail("the system dictionary can be built")
		}
		b := NewDictionaryBuilder(zzHeader, sys.lex, false)
		store := NewPosTableUser(sys.g)
		if err = b.BuildLexicon(store, bytes.NewReader(zzSource(rows...))); err == nil {
			if err = b.WriteGrammarUser(&store.PosTable, f); err == nil {
				err = b.WriteLexicon(f, store)
			}
		}
	} else {
		b := NewDictionaryBuilder(zzHeader, nil, false)
		store := NewPosTable()
		if err = b.BuildLexicon(store, bytes.NewReader(zzSource(rows...))); err == nil {
			if err = b.WriteGrammar(store, strings.NewReader("2 2\n0 1 5\n"), f); err == nil {
				err = b.WriteLexicon(f, store)
			}
		}
	}
	f.check(err, "a dictionary")
}

// ZZF01Parts: the parts of a dictionary that cannot be written (as conversion does).
func ZZF01Parts() {
	d := zzF01Dict([][]string{{"名詞", "*", "*", "*", "*", "*"}}, []zzref.Word{zzref.W("東", 1, 2, sym.Int16("cost"), 0), zzref.W("京", 1, 2, 3, 0)})
	img, _ := d.Image()
	b := zzOpen(img, false)
	f := zzFaultyFile(3)
	var err error
	what := ""
	switch sym.Choose("part", 5) {
	case 0:
		what = "a connection matrix"
		_, err = b.g.WriteConnMatrixTo(f)
	case 1:
		what = "a trie"
		_, err = b.lex.WriteTrieTo(f)
	case 2:
		what = "a word id table"
		_, err = b.lex.WriteWordIdTableTo(f)
	case 3:
		what = "word parameters"
		_, err = b.lex.WriteWordParamsTo(f)
	default:
		what = "word attributes"
		_, _, err = b.lex.WriteWordInfos(f, 0, 8, sym.Choose("utf16", 2) == 1)
	}
	f.check(err, what)
}

// ZZF01Print: a listing that cannot be written.
func ZZF01Print() {
	d := zzF01Dict([][]string{{"名詞", "*", "*", "*", "*", "*"}}, []zzref.Word{zzref.W("東", 1, 2, sym.Int16("cost"), 0), zzref.W("京", 1, 2, 3, 0)})
	img, _ := d.Image()
	path := sym.TempFile("d.dic", img)
	f := zzFaultyFile(5)
	if sym.Choose("header", 2) == 1 {
		f.check(PrintHeader(path, f), "a header")
	} else {
		f.check(PrintDictionary(path, false, nil, f), "a listing")
	}
}

func zzF01Dict(pos [][]string, ws []zzref.Word) *zzref.Dict {
	return &zzref.Dict{Version: zzref.SystemVersion, L: 1, R: 1, Matrix: []int16{5}, Pos: pos, Words: ws}
}
