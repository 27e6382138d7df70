package dartsclone

import (
	"os"

	sym "github.com/msnoigrs/gosudachi/internal/zzsym"
)

// ZZF02Trie: a trie opened and closed, and one opened again after that.
func ZZF02Trie() {
	a := NewDoubleArray()
	if a.Build([][]byte{[]byte("a"), []byte("ab"), []byte("b")}, []int{3, 0, 7}, nil) != nil {
		sym.Fail("the trie can be built")
	}
	path := sym.TempPath("trie")
	f, err := os.Create(path)
	if err != nil {
		sym.Fail("the file can be made")
	}
	a.Save(f)
	f.Close()
	before := sym.OpenFiles()
	b := NewDoubleArray()
	for i := 0; i < 2; i++ {
		if f, err = os.Open(path); err != nil {
			sym.Fail("the file can be opened")
		}
		if b.Open(f, 0, 0) != nil {
			sym.Fail("the trie can be opened")
		}
		f.Close()
		v, n := b.ExactMatchSearch([]byte{sym.Byte("key")})
		it := b.CommonPrefixSearchItr([]byte("ab"), 0)
		sym.Assert(it.Next(), "the trie answers")
		sym.Assert(b.Close() == nil, "the trie can be closed")
		sym.Assert(sym.OpenFiles() == before, "a closed trie is not kept mapped")
		sym.Assert(v >= -1 && n >= 0, "an answer stays valid")
	}
	sym.Reach("closed")
}
