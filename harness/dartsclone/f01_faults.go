package dartsclone

import (
	"errors"

	sym "github.com/msnoigrs/gosudachi/internal/zzsym"
)

// zzF01Writer takes left bytes and fails then.
type zzF01Writer struct {
	left   int
	failed bool
}

func (w *zzF01Writer) Write(p []byte) (int, error) {
	if len(p) > w.left {
		n := w.left
		w.left = 0
		w.failed = true
		return n, errors.New("fault")
	}
	w.left -= len(p)
	return len(p), nil
}

// ZZF01Save: a trie that cannot be saved to its end.
func ZZF01Save() {
	a := NewDoubleArray()
	if a.Build([][]byte{[]byte("a"), []byte("ab"), []byte("b")}, []int{3, 0, 7}, nil) != nil {
		sym.Fail("the trie can be built")
	}
	w := &zzF01Writer{left: sym.Concrete(sym.Int("space", 0, 1023)) * a.TotalSize() / 1000}
	n, err := a.Save(w)
	if w.failed {
		sym.Assert(err != nil, "a failure to save a trie is reported")
		sym.Reach("failed")
	} else {
		sym.Assert(err == nil && n == a.TotalSize(), "a trie is saved")
		sym.Reach("succeeded")
	}
}
