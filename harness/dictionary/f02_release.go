package dictionary

import (
	"bytes"

	"github.com/msnoigrs/gosudachi/internal/zzref"
	sym "github.com/msnoigrs/gosudachi/internal/zzsym"
)

func zzF02Image() []byte {
	d := &zzref.Dict{Version: []uint64{zzref.SystemVersion, zzref.UserVersion1, zzref.UserVersion2, 7}[sym.Choose("version", 4)], Description: "説明"}
	d.Words = []zzref.Word{zzref.W("東"+string([]byte{sym.ByteIn("letter", 'a', 'z')}), 1, 2, 3, 0)}
	d.Words[0].Reading = "よみ"
	if d.Version == zzref.SystemVersion {
		d.L, d.R, d.Matrix = 1, 1, []int16{5}
	}
	if d.Version != zzref.UserVersion1 {
		d.Pos = [][]string{{"名詞", "*", "*", "*", "*", "*"}}
	}
	img, _ := d.Image()
	if sym.Choose("cut", 2) == 1 {
		img = img[:100]
	}
	return img
}

// ZZF02Open: opening a dictionary in each way and closing it.
func ZZF02Open() {
	path := sym.TempFile("d.dic", zzF02Image())
	before := sym.OpenFiles()
	var d *BinaryDictionary
	var err error
	switch sym.Choose("way", 3) {
	case 0:
		d, err = NewBinaryDictionary(path, false)
	case 1:
		d, err = ReadSystemDictionary(path, false)
	default:
		d, err = ReadUserDictionary(path, false)
	}
	if err != nil {
		sym.Assert(sym.OpenFiles() == before, "a dictionary that cannot be opened is not kept open")
		sym.Reach("failed")
		return
	}
	// what was read stays valid
	wi := d.Lexicon.GetWordInfo(0)
	surface, reading, desc := wi.Surface, wi.ReadingForm, d.Header.Description
	pos := ""
	if d.Grammar != nil {
		pos = d.Grammar.GetPartOfSpeechString(0)[0]
	}
	var copied bytes.Buffer
	_, err = d.Lexicon.WriteTrieTo(&copied)
	sym.Assert(err == nil, "the trie can be copied")
	sym.Assert(d.Close() == nil, "a dictionary can be closed")
	sym.Assert(sym.OpenFiles() == before, "a closed dictionary is not kept open")
	sym.Assert(len(surface) == 4 && surface[:3] == "東" && reading == "よみ" && desc == "説明", "what was read stays valid when the dictionary is closed")
	sym.Assert(d.Grammar == nil || pos == "名詞" && d.Grammar.GetPartOfSpeechString(0)[0] == pos, "what was read stays valid when the dictionary is closed")
	sym.Assert(copied.Len() > 4 && copied.Bytes()[0] >= 0, "what was copied stays valid when the dictionary is closed")
	sym.Reach("closed")
}

// ZZF02Print: listing a dictionary or its header.
func ZZF02Print() {
	path := sym.TempFile("d.dic", zzF02Image())
	before := sym.OpenFiles()
	var out bytes.Buffer
	var err error
	if sym.Choose("header", 2) == 1 {
		if img, _ := sym.FileContent(path); img[0] == 7 {
			sym.Skip() // ends the process
		}
		err = PrintHeader(path, &out)
	} else {
		err = PrintDictionary(path, false, nil, &out)
	}
	if err != nil {
		sym.Reach("failed")
	} else {
		sym.Reach("printed")
	}
	sym.Assert(sym.OpenFiles() == before, "a listed dictionary is not kept open")
}
