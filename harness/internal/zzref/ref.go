// Package zzref builds dictionary images for the harnesses, independently of the repository's own
// builders: a double array in the darts-clone unit format, the grammar, and the lexicon sections.
package zzref

import "sort"

const (
	SystemVersion = 0x7366d3f18bd111e7
	UserVersion1  = 0xa50f31188bd211e7
	UserVersion2  = 0x9fdeb5a90168d868
)

func U16(b []byte, v uint16) []byte { return append(b, byte(v), byte(v>>8)) }
func U32(b []byte, v uint32) []byte {
	return append(b, byte(v), byte(v>>8), byte(v>>16), byte(v>>24))
}
func U64(b []byte, v uint64) []byte { return U32(U32(b, uint32(v)), uint32(v>>32)) }

// Str appends a length-prefixed string (length below 32768) in the UTF-8 encoding.
func Str(b []byte, s string) []byte {
	b = Len(b, len(s))
	return append(b, s...)
}

func Len(b []byte, n int) []byte {
	if n <= 127 {
		return append(b, byte(n))
	}
	return append(b, byte(n>>8)|0x80, byte(n))
}

// Str16 appends a string in the UTF-16 encoding.
func Str16(b []byte, s string) []byte {
	var u []uint16
	for _, r := range s {
		if r >= 0x10000 {
			r -= 0x10000
			u = append(u, uint16(0xD800+(r>>10)), uint16(0xDC00+(r&0x3FF)))
		} else {
			u = append(u, uint16(r))
		}
	}
	b = Len(b, len(u))
	for _, x := range u {
		b = U16(b, x)
	}
	return b
}

func I32s(b []byte, a []int32) []byte {
	b = append(b, byte(len(a)))
	for _, x := range a {
		b = U32(b, uint32(x))
	}
	return b
}

type tnode struct {
	labels []byte
	kids   []*tnode
	value  int
}

// Trie builds a double array for the keys (any order; non-empty; distinct).
func Trie(keys [][]byte, values []int) []uint32 {
	root := &tnode{value: -1}
	for i, k := range keys {
		n := root
		for _, c := range k {
			j := sort.Search(len(n.labels), func(x int) bool { return n.labels[x] >= c })
			if j < len(n.labels) && n.labels[j] == c {
				n = n.kids[j]
				continue
			}
			m := &tnode{value: -1}
			n.labels = append(n.labels, 0)
			n.kids = append(n.kids, nil)
			copy(n.labels[j+1:], n.labels[j:])
			copy(n.kids[j+1:], n.kids[j:])
			n.labels[j] = c
			n.kids[j] = m
			n = m
		}
		n.value = values[i]
	}
	units := make([]uint32, 256)
	used := make([]bool, 256)
	for i := range units {
		units[i] = 0x80000000
	}
	used[0] = true
	units[0] = 0
	bases := map[int]bool{} // no two nodes may share a base: labels alone tell their children apart
	type item struct {
		n   *tnode
		pos int
	}
	queue := []item{{root, 0}}
	for len(queue) > 0 {
		it := queue[0]
		queue = queue[1:]
		base := 1
		for ; ; base++ {
			for (base | 255) >= len(units) {
				for i := 0; i < 256; i++ {
					units = append(units, 0x80000000)
					used = append(used, false)
				}
			}
			ok := !bases[base]
			if it.n.value >= 0 && used[base] {
				ok = false
			}
			for _, c := range it.n.labels {
				if used[base^int(c)] {
					ok = false
				}
			}
			if (it.pos ^ base) >= 1<<21 {
				panic("zzref: trie too large")
			}
			if ok {
				break
			}
		}
		bases[base] = true
		units[it.pos] |= uint32(it.pos^base) << 10
		if it.n.value >= 0 {
			units[it.pos] |= 1 << 8
			units[base] = uint32(it.n.value) | 0x80000000
			used[base] = true
		}
		for i, c := range it.n.labels {
			p := base ^ int(c)
			used[p] = true
			units[p] = uint32(c)
			queue = append(queue, item{it.n.kids[i], p})
		}
	}
	return units
}

// Word is one lexicon entry.
type Word struct {
	Headword          string // "" or NotIndexed: not in the index
	NotIndexed        bool
	Left, Right, Cost int16
	Surface           string
	HeadLen           int // -1: length of Surface
	Pos               int16
	Norm, Reading     string // "" means same as the surface
	DicForm           int32
	A, B, Struct      []int32
}

// W makes a plain word.
func W(s string, left, right, cost, pos int16) Word {
	return Word{Headword: s, Left: left, Right: right, Cost: cost, Surface: s, HeadLen: -1, Pos: pos, DicForm: -1}
}

// Layout tells where things are in an image.
type Layout struct {
	Matrix, Params, Infos, Offsets, Lexicon int
	Left                                    int
}

// Dict is a dictionary image under construction.
type Dict struct {
	Version     uint64
	Time        int64
	Description string
	Pos         [][]string
	L, R        int
	Matrix      []int16 // index left + L*right
	Words       []Word
	UTF16       bool
}

func (d *Dict) str(b []byte, s string) []byte {
	if d.UTF16 {
		return Str16(b, s)
	}
	return Str(b, s)
}

// Grammar appends the grammar section.
func (d *Dict) Grammar(b []byte, lay *Layout) []byte {
	b = U16(b, uint16(len(d.Pos)))
	for _, p := range d.Pos {
		for _, s := range p {
			b = d.str(b, s)
		}
	}
	b = U16(b, uint16(d.L))
	b = U16(b, uint16(d.R))
	lay.Matrix = len(b)
	lay.Left = d.L
	for i := 0; i < d.L*d.R; i++ {
		var c int16
		if i < len(d.Matrix) {
			c = d.Matrix[i]
		}
		b = U16(b, uint16(c))
	}
	return b
}

// Lexicon appends the lexicon sections.
func (d *Dict) Lexicon(b []byte, lay *Layout) []byte {
	lay.Lexicon = len(b)
	type ent struct {
		k   string
		ids []int32
	}
	var ents []ent
L:
	for i, w := range d.Words {
		if w.NotIndexed || w.Headword == "" {
			continue
		}
		for j := range ents {
			if ents[j].k == w.Headword {
				ents[j].ids = append(ents[j].ids, int32(i))
				continue L
			}
		}
		ents = append(ents, ent{w.Headword, []int32{int32(i)}})
	}
	sort.Slice(ents, func(i, j int) bool { return ents[i].k < ents[j].k })
	var keys [][]byte
	var vals []int
	var tab []byte
	for _, e := range ents {
		keys = append(keys, []byte(e.k))
		vals = append(vals, len(tab))
		tab = I32s(tab, e.ids)
	}
	units := Trie(keys, vals)
	b = U32(b, uint32(len(units)))
	for _, u := range units {
		b = U32(b, u)
	}
	b = U32(b, uint32(len(tab)))
	b = append(b, tab...)
	b = U32(b, uint32(len(d.Words)))
	lay.Params = len(b)
	for _, w := range d.Words {
		b = U16(b, uint16(w.Left))
		b = U16(b, uint16(w.Right))
		b = U16(b, uint16(w.Cost))
	}
	lay.Offsets = len(b)
	base := len(b) + 4*len(d.Words)
	var info []byte
	for _, w := range d.Words {
		b = U32(b, uint32(base+len(info)))
		info = d.Info(info, w)
	}
	lay.Infos = len(b)
	return append(b, info...)
}

// Info appends one word information record.
func (d *Dict) Info(info []byte, w Word) []byte {
	info = d.str(info, w.Surface)
	hl := w.HeadLen
	if hl < 0 {
		hl = len(w.Surface)
	}
	info = Len(info, hl)
	info = U16(info, uint16(w.Pos))
	info = d.str(info, w.Norm)
	info = U32(info, uint32(w.DicForm))
	info = d.str(info, w.Reading)
	info = I32s(info, w.A)
	info = I32s(info, w.B)
	info = I32s(info, w.Struct)
	return info
}

// Header appends the header.
func (d *Dict) Header(b []byte) []byte {
	b = U64(b, d.Version)
	b = U64(b, uint64(d.Time))
	b = append(b, d.Description...)
	for i := len(d.Description); i < 256; i++ {
		b = append(b, 0)
	}
	return b
}

// Image is the whole file.
func (d *Dict) Image() ([]byte, *Layout) {
	lay := &Layout{}
	b := d.Header(nil)
	if d.Version != UserVersion1 {
		b = d.Grammar(b, lay)
	}
	b = d.Lexicon(b, lay)
	return b, lay
}

// SetParam stores one of the three parameters of a word.
func (l *Layout) SetParam(b []byte, word, k int, v int16) {
	p := l.Params + 6*word + 2*k
	b[p] = byte(uint16(v))
	b[p+1] = byte(uint16(v) >> 8)
}

// SetCost stores a connection cost.
func (l *Layout) SetCost(b []byte, left, right int, v int16) {
	p := l.Matrix + 2*(left+l.Left*right)
	b[p] = byte(uint16(v))
	b[p+1] = byte(uint16(v) >> 8)
}
