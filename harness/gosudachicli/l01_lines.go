package main

import (
	"errors"

	"github.com/msnoigrs/gosudachi/internal/zzref"
	sym "github.com/msnoigrs/gosudachi/internal/zzsym"
)

// zzL01Lines is how data falls into lines.
func zzL01Lines(data []byte) []string {
	var lines []string
	var line []byte
	open := false
	for i := 0; i < len(data); i++ {
		c := data[i]
		if c == '\n' || c == '\r' {
			if c == '\r' && i+1 < len(data) && data[i+1] == '\n' {
				i++
			}
			lines = append(lines, string(line))
			line, open = nil, false
			continue
		}
		line = append(line, c)
		open = true
	}
	if open {
		lines = append(lines, string(line))
	}
	return lines
}

func zzL01Check(r *zzref.Chunks) {
	want := zzL01Lines(r.Data)
	s := newLineScanner(r)
	for i := 0; i < len(want); i++ {
		ok := s.Scan()
		sym.Assert(ok, "every line is read")
		if !ok {
			return
		}
		sym.Assert(sym.EqStr(s.Text(), want[i]), "a line is read complete and without its terminator")
		sym.Assert(sym.EqBytes(s.Bytes(), []byte(want[i])), "a line is read complete and without its terminator")
	}
	sym.Assert(!s.Scan(), "no line is read twice")
	if r.Err == nil {
		sym.Assert(s.Err() == nil, "the end of the input is no error")
	} else {
		sym.Assert(s.Err() == r.Err, "a failure to read is reported")
	}
	sym.Reach("read")
}

func zzL01Byte() byte {
	switch sym.Choose("class", 3) {
	case 0:
		return '\r'
	case 1:
		return '\n'
	}
	c := sym.Byte("byte")
	sym.Assume(c != '\r')
	sym.Assume(c != '\n')
	return c
}

// ZZL01Chunks: short inputs in arbitrary pieces.
func ZZL01Chunks() {
	max := 5
	if sym.Thorough() {
		max = 7
	}
	n := sym.Choose("length", max+1)
	r := &zzref.Chunks{}
	for i := 0; i < n; i++ {
		r.Data = append(r.Data, zzL01Byte())
	}
	left := n
	for left > 0 {
		k := 1 + sym.Choose("piece", left)
		r.Sizes = append(r.Sizes, k)
		left -= k
	}
	r.Scratch = []byte([]string{"", "\r\r", "\n"}[sym.Choose("scratch", 3)])
	r.WithErr = sym.Choose("witherr", 2) == 1
	zzL01Check(r)
}

// ZZL01Long: lines about as long as the buffer and about twice as long.
func ZZL01Long() {
	lens := []int{4093, 4094, 4095, 4096, 4097, 8190, 8191, 8192, 8193}
	first := sym.Choose("first", 3)
	pieces := [][]int{{0}, {4096, 1}, {4095, 1}, {1000}, {4096, 4095, 2}, {1, 4095}}
	if first == 2 {
		lens, pieces = []int{4095, 4097}, pieces[2:4]
	}
	n := lens[sym.Choose("length", len(lens))]
	var data []byte
	switch first {
	case 1:
		data = append(data, "x\r\n"...)
	case 2: // another long line
		for i := 0; i < 5000; i++ {
			data = append(data, 'A'+byte(i%26))
		}
		data = append(data, '\n')
	}
	at := len(data)
	for i := 0; i < n; i++ {
		data = append(data, 'a'+byte(i%26))
	}
	data[at+n-1-sym.Choose("at", 2)] = zzL01Byte()
	data = append(data, []string{"", "\n", "\r", "\r\n", "\n\n", "\r\r", "\n\r", "\r\nz", "\nz"}[sym.Choose("end", 9)]...)
	r := &zzref.Chunks{Data: data}
	r.Sizes = pieces[sym.Choose("pieces", len(pieces))]
	r.Scratch = []byte([]string{"", "\r\r"}[sym.Choose("scratch", 2)])
	zzL01Check(r)
}

// ZZL01Error: a failure to read is reported after the lines before it.
func ZZL01Error() {
	r := &zzref.Chunks{Err: errors.New("broken"), WithErr: sym.Choose("witherr", 2) == 1}
	for i := 0; i < 3; i++ {
		r.Data = append(r.Data, zzL01Byte())
	}
	r.Data = append(r.Data, '\n')
	r.Sizes = []int{1 + sym.Choose("piece", 4)}
	zzL01Check(r)
}
