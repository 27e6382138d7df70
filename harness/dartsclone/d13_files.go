package dartsclone

import (
	"bytes"
	"os"

	sym "github.com/msnoigrs/gosudachi/internal/zzsym"
)

var zzD13Keys = [][]byte{[]byte("a"), []byte("ab"), []byte("abc"), []byte("b"), []byte("bcd"), []byte("\xe6\x9d\xb1")}
var zzD13Values = []int{3, 0, 1 << 30, 7, 7, 12}

// a larger trie, of more than a page
var zzD13Large *DoubleArray

func ZZD13Setup() {
	keys, values := append([][]byte{}, zzD13Keys[:5]...), append([]int{}, zzD13Values[:5]...)
	for i := 0; i < 1000; i++ {
		keys = append(keys, []byte{'c', byte('0' + i/100), byte('0' + i/10%10), byte('0' + i%10), byte('a' + i%7)})
		values = append(values, i*5)
	}
	keys, values = append(keys, zzD13Keys[5]), append(values, zzD13Values[5])
	zzD13Large = NewDoubleArray()
	if zzD13Large.Build(keys, values, nil) != nil {
		panic("the trie cannot be built")
	}
}

// zzD13Same: both tries answer every query alike.
func zzD13Same(a, b *DoubleArray) {
	sym.Assert(a.Length() == b.Length() && a.TotalSize() == b.TotalSize() && a.TotalSize() == 4*a.Length(), "the sizes stay the same")
	var key []byte
	if a == zzD13Large {
		key = []byte("c1234"[:sym.Choose("length", 6)])
		for i := 1; i < len(key) && i < 3; i++ {
			key[i] = sym.ByteIn("digit", '0', '9')
		}
		if len(key) == 5 {
			key[4] = sym.ByteIn("letter", 'a', 'h')
		}
	} else {
		key = sym.Bytes("key", sym.Choose("length", 4))
	}
	v, n := a.ExactMatchSearch(key)
	w, m := b.ExactMatchSearch(key)
	sym.Assert(v == w && n == m, "the trie answers as before")
	x, y := a.CommonPrefixSearch(key, 0, 10), b.CommonPrefixSearch(key, 0, 10)
	sym.Assert(len(x) == len(y), "the trie answers as before")
	for i := 0; i < len(x) && i < len(y); i++ {
		sym.Assert(x[i] == y[i], "the trie answers as before")
	}
}

// ZZD13Files: a trie saved, alone or after other data, and opened again; or taken over as array or bytes.
func ZZD13Files() {
	a := NewDoubleArray()
	if a.Build(zzD13Keys, zzD13Values, nil) != nil {
		sym.Fail("the trie can be built")
	}
	if sym.Choose("large", 2) == 1 {
		a = zzD13Large
	}
	b := NewDoubleArray()
	switch sym.Choose("way", 5) {
	case 0:
		b.SetArray(a.Array())
	case 1:
		b.SetBuffer(a.ByteArray())
	case 2: // saved to memory
		out := &bytes.Buffer{}
		n, err := a.Save(out)
		sym.Assert(err == nil && n == a.TotalSize() && out.Len() == n, "the whole trie is saved")
		b.SetBuffer(out.Bytes())
	default:
		at := 0
		if sym.Choose("position", 2) == 1 {
			at = 4096
		}
		path := sym.TempPath("trie")
		f, err := os.Create(path)
		if err != nil {
			sym.Fail("the file can be made")
		}
		f.Write(make([]byte, at))
		n, err := a.Save(f)
		sym.Assert(err == nil && n == a.TotalSize(), "the whole trie is saved")
		size := int64(n)
		switch sym.Choose("size", 2) {
		case 0:
			f.Write([]byte("more"))
		case 1:
			size = 0 // up to the end of the file
		}
		f.Close()
		f, err = os.Open(path)
		if err != nil {
			sym.Fail("the file can be opened")
		}
		err = b.Open(f, int64(at), size)
		sym.Assert(err == nil, "the trie can be opened")
		if err != nil {
			return
		}
		sym.Reach("opened")
		zzD13Same(a, b)
		sym.Assert(b.Close() == nil, "the trie can be closed")
		sym.Assert(b.Length() == 0 && b.TotalSize() == 0, "a closed trie is empty")
		f.Close()
		return
	}
	zzD13Same(a, b)
	b.Clear()
	sym.Assert(b.Length() == 0 && b.TotalSize() == 0, "a cleared trie is empty")
	sym.Reach("taken over")
}
