package lnreader

import (
	"errors"
	"io"

	"github.com/msnoigrs/gosudachi/internal/zzref"
	sym "github.com/msnoigrs/gosudachi/internal/zzsym"
)

// zzL01Lines is how data falls into lines: LF and CRLF end a line.
func zzL01Lines(data []byte) []string {
	var lines []string
	start := 0
	for i := 0; i < len(data); i++ {
		if data[i] != '\n' {
			continue
		}
		end := i
		if end > start && data[end-1] == '\r' {
			end--
		}
		lines = append(lines, string(data[start:end]))
		start = i + 1
	}
	if start < len(data) {
		lines = append(lines, string(data[start:]))
	}
	return lines
}

func zzL01Check(r *zzref.Chunks) {
	want := zzL01Lines(r.Data)
	l := NewLineNumberReader(r)
	for i := 0; i < len(want); i++ {
		line, err := l.ReadLine()
		sym.Assert(err == nil, "every line is read")
		if err != nil {
			return
		}
		sym.Assert(sym.EqBytes(line, []byte(want[i])), "a line is read complete and without its terminator")
		sym.Assert(l.NumLine == i+1, "lines are counted from one")
	}
	_, err := l.ReadLine()
	if r.Err == nil {
		sym.Assert(err == io.EOF, "the end of the input is told")
	} else {
		sym.Assert(err == r.Err, "a failure to read is reported")
	}
	sym.Reach("read")
}

func zzL01Byte() byte {
	switch sym.Choose("class", 3) {
	case 0:
		return '\r'
	case 1:
		return '\n'
	}
	c := sym.Byte("byte")
	sym.Assume(c != '\r')
	sym.Assume(c != '\n')
	return c
}

// ZZL01Definition: short inputs in arbitrary pieces.
func ZZL01Definition() {
	max := 5
	if sym.Thorough() {
		max = 7
	}
	n := sym.Choose("length", max+1)
	r := &zzref.Chunks{}
	for i := 0; i < n; i++ {
		r.Data = append(r.Data, zzL01Byte())
	}
	left := n
	for left > 0 {
		k := 1 + sym.Choose("piece", left)
		r.Sizes = append(r.Sizes, k)
		left -= k
	}
	r.Scratch = []byte([]string{"", "\r\n"}[sym.Choose("scratch", 2)])
	r.WithErr = sym.Choose("witherr", 2) == 1
	zzL01Check(r)
}

// ZZL01DefinitionLong: lines about as long as the buffer and about twice as long.
func ZZL01DefinitionLong() {
	n := []int{4093, 4094, 4095, 4096, 4097, 8190, 8191, 8192, 8193}[sym.Choose("length", 9)]
	var data []byte
	if sym.Choose("first", 2) == 1 {
		data = append(data, "x\r\n"...)
	}
	at := len(data)
	for i := 0; i < n; i++ {
		data = append(data, 'a'+byte(i%26))
	}
	data[at+n-1-sym.Choose("at", 2)] = zzL01Byte()
	data = append(data, []string{"", "\n", "\r", "\r\n", "\n\n", "\r\r\n", "\r\nz", "\nz"}[sym.Choose("end", 8)]...)
	r := &zzref.Chunks{Data: data}
	r.Sizes = [][]int{{0}, {4096, 1}, {4095, 1}, {1000}, {1, 4095}}[sym.Choose("pieces", 5)]
	zzL01Check(r)
}

// ZZL01DefinitionError: a failure to read is reported after the lines before it.
func ZZL01DefinitionError() {
	r := &zzref.Chunks{Err: errors.New("broken"), WithErr: sym.Choose("witherr", 2) == 1}
	for i := 0; i < 3; i++ {
		r.Data = append(r.Data, zzL01Byte())
	}
	r.Data = append(r.Data, '\n')
	r.Sizes = []int{1 + sym.Choose("piece", 4)}
	zzL01Check(r)
}

// ZZL01Blank: comments and blank lines.
func ZZL01Blank() {
	n := sym.Choose("length", 4)
	l := make([]byte, n)
	blank, skip := true, false
	for i := range l {
		l[i] = sym.Byte("byte")
		sym.Assume(l[i] != '\r') // part of a terminator
		blank = sym.And(blank, sym.Or(l[i] == ' ', sym.Or(l[i] == '\t', l[i] == '\n')))
	}
	if n > 0 {
		skip = l[0] == '#'
	}
	sym.Assert(IsEmptyLine(l) == blank, "a line of spaces is blank")
	sym.Assert(IsSkipLine(l) == sym.Or(blank, skip), "blank lines and comments are skipped")
	sym.Reach("told")
}
