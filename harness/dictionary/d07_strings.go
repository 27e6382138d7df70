package dictionary

import (
	"bytes"
	"strings"

	sym "github.com/msnoigrs/gosudachi/internal/zzsym"
)

// zzD07Rune is an arbitrary character of the given UTF-8 width.
func zzD07Rune(w int) rune {
	switch w {
	case 1:
		return sym.Rune("r1", 0, 0x7F)
	case 2:
		return sym.Rune("r2", 0x80, 0x7FF)
	case 3:
		if sym.Choose("high3", 2) == 1 {
			return sym.Rune("r3", 0xE000, 0xFFFF)
		}
		return sym.Rune("r3", 0x800, 0xD7FF)
	}
	return sym.Rune("r4", 0x10000, 0x10FFFF)
}

func zzD07Write(utf16 bool, buf *bytes.Buffer, s string) error {
	if utf16 {
		return writeStringUtf16(buf, s)
	}
	return writeString(buf, s)
}

func zzD07Read(utf16 bool, b []byte, offset int) (int, string) {
	if utf16 {
		return bufferToStringUtf16(b, offset)
	}
	return bufferToString(b, offset)
}

// zzD07Trip writes s and reads it back; fits tells whether it must be accepted.
func zzD07Trip(utf16 bool, s string, fits bool) {
	buf := bytes.NewBuffer([]byte("xy"))
	err := zzD07Write(utf16, buf, s)
	if !fits {
		sym.Assert(err != nil, "a string that is too long is refused")
		sym.Reach("refused")
		return
	}
	sym.Assert(err == nil, "a string of admissible length is accepted")
	if err != nil {
		return
	}
	n := buf.Len()
	zzOkD(zzD07Write(utf16, buf, "next"))
	end, got := zzD07Read(utf16, buf.Bytes(), 2)
	sym.Assert(end == n, "reading consumes exactly the bytes written")
	sym.Assert(sym.EqStr(got, s), "a string reads back as it was written")
	if end == n {
		_, next := zzD07Read(utf16, buf.Bytes(), end)
		sym.Assert(next == "next", "what follows a string is read from the right place")
	}
	sym.Reach("read")
}

func zzOkD(err error) {
	if err != nil {
		sym.Fail("a short string can be written")
	}
}

// ZZD07Chars: short strings of arbitrary characters.
func ZZD07Chars() {
	utf16 := sym.Choose("encoding", 2) == 1
	n := 3
	if sym.Thorough() {
		n = 4
	}
	n = sym.Choose("length", n+1)
	rs := make([]rune, n)
	for i := range rs {
		rs[i] = zzD07Rune(1 + sym.Choose("width", 4))
	}
	zzD07Trip(utf16, string(rs), true)
}

// ZZD07Lengths: strings of boundary lengths, with an arbitrary first and last character.
func ZZD07Lengths() {
	utf16 := sym.Choose("encoding", 2) == 1
	lens := []int{125, 126, 127, 128, 129, 130, 254, 255, 256, 257, 383, 384, 32639, 32640, 32766, 32767, 32768, 32769, 65535, 65536, 65537}
	units := lens[sym.Choose("units", len(lens))]
	kind := sym.Choose("filler", 3)
	w := []int{1, 3, 4}[kind]
	first := string(zzD07Rune(w))
	last := string(zzD07Rune(1))
	size := func(width int) int {
		if !utf16 {
			return width
		}
		return []int{0, 1, 1, 1, 2}[width]
	}
	room := units - size(w) - 1
	filler := []string{"a", "あ", "𠮷"}[kind]
	s := first + strings.Repeat(filler, room/size(w)) + strings.Repeat("b", room%size(w)) + last
	zzD07Trip(utf16, s, units <= 32767)
}

// ZZD07Length: every length.
func ZZD07Length() {
	n := sym.Int16("length")
	sym.Assume(n >= 0)
	buf := bytes.NewBuffer([]byte("x"))
	zzOkD(writeStringLength(buf, n))
	zzOkD(writeStringLength(buf, 7))
	end, got := bufferToStringLength(buf.Bytes(), 1)
	sym.Assert(got == int(n), "a length reads back as it was written")
	_, next := bufferToStringLength(buf.Bytes(), end)
	sym.Assert(end < buf.Len() && next == 7, "reading a length consumes exactly the bytes written")
	sym.Reach("read")
}

// ZZD07List: unit lists.
func ZZD07List() {
	lens := []int{0, 1, 2, 3, 126, 127, 128, 255, 256, 257, 300}
	n := lens[sym.Choose("length", len(lens))]
	a := make([]int32, n)
	for i := range a {
		if i < 2 || i == n-1 {
			a[i] = sym.Int32("unit")
		} else {
			a[i] = int32(i) * 65537
		}
	}
	buf := bytes.NewBuffer([]byte("x"))
	err := writeIntArray(buf, a)
	if n > 255 {
		sym.Assert(err != nil, "a list that is too long is refused")
		sym.Reach("refused")
		return
	}
	sym.Assert(n > ArrayMaxLength || err == nil, "a list of admissible length is accepted")
	if err != nil {
		return
	}
	size := buf.Len()
	zzOkD(writeIntArray(buf, []int32{5}))
	end, got := bufferToInt32Array(buf.Bytes(), 1)
	sym.Assert(end == size, "reading a list consumes exactly the bytes written")
	sym.Assert(len(got) == n, "a list reads back as long as it was written")
	for i := range got {
		sym.Assert(got[i] == a[i], "a list reads back as it was written")
	}
	sym.Reach("read")
}

// ZZD07Numbers: the fixed-size numbers.
func ZZD07Numbers() {
	b := sym.Bytes("bytes", 10)
	o := sym.Choose("offset", 3)
	u := uint64(0)
	for i := 7; i >= 0; i-- {
		u = u<<8 | uint64(b[o+i])
	}
	end, v16 := bufferToInt16(b, o)
	sym.Assert(end == o+2 && v16 == int16(u), "a 16-bit number is read in little-endian order")
	end, w16 := bufferToUint16(b, o)
	sym.Assert(end == o+2 && w16 == uint16(u), "an unsigned 16-bit number is read in little-endian order")
	end, v32 := bufferToInt32(b, o)
	sym.Assert(end == o+4 && v32 == int32(u), "a 32-bit number is read in little-endian order")
	end, w32 := bufferToUint32(b, o)
	sym.Assert(end == o+4 && w32 == uint32(u), "an unsigned 32-bit number is read in little-endian order")
	end, v64 := bufferToInt64(b, o)
	sym.Assert(end == o+8 && v64 == int64(u), "a 64-bit number is read in little-endian order")
	end, w64 := bufferToUint64(b, o)
	sym.Assert(end == o+8 && w64 == u, "an unsigned 64-bit number is read in little-endian order")
	sym.Reach("read")
}
