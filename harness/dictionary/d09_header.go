package dictionary

import (
	"strings"

	"github.com/msnoigrs/gosudachi/internal/zzref"
	sym "github.com/msnoigrs/gosudachi/internal/zzsym"
)

// ZZD09RoundTrip: any version, time and NUL-free description of the chosen length survives
// ToBytes/ParseDictionaryHeader at any placement.
func ZZD09RoundTrip() {
	lens := []int{0, 1, 2, 7, 128, 255, 256}
	n := lens[sym.Choose("len", len(lens))]
	version := sym.Uint64("version")
	ct := sym.Int64("time")
	desc := make([]byte, n)
	for i := range desc {
		if i < 4 || i >= n-4 {
			desc[i] = sym.ByteIn("desc", 1, 255)
		} else {
			desc[i] = 'x'
		}
	}
	h := NewDictionaryHeader(version, ct, string(desc))
	b, err := h.ToBytes()
	sym.Assert(err == nil, "a description of at most 256 bytes is accepted")
	sym.Assert(len(b) == HeaderStorageSize, "the header has a fixed size")
	offs := []int{0, 1, 16, 300}
	off := offs[sym.Choose("off", len(offs))]
	buf := make([]byte, off+len(b)+2)
	for i := 0; i < off; i++ {
		buf[i] = 'p'
	}
	if off > 0 {
		buf[0] = sym.Byte("before")
	}
	copy(buf[off:], b)
	buf[off+len(b)] = sym.Byte("after")
	buf[off+len(b)+1] = 'q'
	g := ParseDictionaryHeader(buf, off)
	sym.Assert(g != nil, "the header is parsed")
	sym.Assert(g.Version == version, "the version reads back")
	sym.Assert(g.CreateTime == ct, "the creation time reads back")
	sym.Assert(len(g.Description) == n && sym.EqStr(g.Description, string(desc)), "the description reads back")
	sym.Reach("roundtrip")
	sym.Observe("h", g.Version, g.CreateTime, len(g.Description))
}

// ZZD09TooLong: longer descriptions are refused.
func ZZD09TooLong() {
	n := 257 + sym.Choose("extra", 4)
	desc := make([]byte, n)
	for i := range desc {
		desc[i] = 'd'
	}
	switch sym.Choose("filler", 3) {
	case 1: // fewer characters than bytes
		desc = []byte(strings.Repeat("東", 86+sym.Choose("characters", 3)) + "xx")
	case 2:
		desc = []byte(strings.Repeat("é", 129) + "xx")
	}
	n = len(desc)
	desc[n-1] = sym.Byte("last")
	_, err := NewDictionaryHeader(1, 2, string(desc)).ToBytes()
	sym.Assert(err != nil, "a description of more than 256 bytes is refused")
	sym.Reach("refused")
}

func zzD09Image(version uint64) []byte {
	d := &zzref.Dict{Version: zzref.UserVersion2, Description: "x", Pos: [][]string{{"a", "b", "c", "d", "e", "f"}}, L: 1, R: 1,
		Words: []zzref.Word{zzref.W("ab", 0, 0, 1, 0)}}
	if version == zzref.UserVersion1 {
		d.Version = zzref.UserVersion1
	}
	b, _ := d.Image()
	h := zzref.U64(nil, version)
	copy(b, h)
	return b
}

// ZZD09Gate: opening as a system or user dictionary succeeds exactly for the matching version.
func ZZD09Gate() {
	version := sym.Uint64("version")
	img := zzD09Image(zzref.UserVersion2)
	if version == zzref.UserVersion1 {
		img = zzD09Image(zzref.UserVersion1)
	}
	copy(img, zzref.U64(nil, version))
	path := sym.TempFile("dic", img)
	if sym.Choose("kind", 2) == 0 {
		d, err := ReadSystemDictionary(path, false)
		if version == zzref.SystemVersion {
			sym.Assert(err == nil && d != nil, "a system dictionary opens as one")
			sym.Assert(d.Header.Version == version, "the header is kept")
			sym.Reach("system")
			d.Close()
		} else {
			sym.Assert(err != nil, "a file whose header does not say system dictionary is refused as one")
			sym.Reach("notsystem")
		}
	} else {
		d, err := ReadUserDictionary(path, false)
		if version == zzref.UserVersion1 || version == zzref.UserVersion2 {
			sym.Assert(err == nil && d != nil, "a user dictionary opens as one")
			sym.Reach("user")
			d.Close()
		} else {
			sym.Assert(err != nil, "a file whose header does not say user dictionary is refused as one")
			sym.Reach("notuser")
		}
	}
}

// ZZD09Short: a file too short to hold a header, whatever its bytes, is refused with an error.
func ZZD09Short() {
	lens := []int{1, 7, 8, 15, 16, 17, 100, 271}
	n := lens[sym.Choose("len", len(lens))]
	b := make([]byte, n)
	for i := range b {
		if i < 10 {
			b[i] = sym.Byte("b")
		} else {
			b[i] = 'z'
		}
	}
	path := sym.TempFile("short", b)
	var err error
	if sym.Choose("kind", 2) == 0 {
		_, err = ReadSystemDictionary(path, false)
	} else {
		_, err = ReadUserDictionary(path, false)
	}
	sym.Assert(err != nil, "a file too short for a header is refused with an error")
	sym.Reach("refused")
}

// ZZD09Placed: a header needs all of its bytes, wherever it is.
func ZZD09Placed() {
	off := []int{0, 1, 16, 271, 272, 300}[sym.Choose("off", 6)]
	n := off + []int{-1, 0, 1, 8, 16, 17, 271, 272, 273}[sym.Choose("size", 9)]
	if n < 0 {
		sym.Skip()
	}
	b := make([]byte, n)
	for i := range b {
		b[i] = 'x'
	}
	if n > off {
		b[n-1] = sym.Byte("last")
	}
	h := ParseDictionaryHeader(b, off)
	sym.Assert((h != nil) == (n-off >= 272), "exactly whole headers are parsed")
	sym.Reach("parsed")
}
