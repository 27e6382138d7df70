package gosudachi

import (
	"errors"
	"io"

	sym "github.com/msnoigrs/gosudachi/internal/zzsym"
)

// zzF01Reader delivers b in pieces and then fails.
type zzF01Reader struct {
	b     []byte
	piece int
	err   error
}

func (r *zzF01Reader) Read(p []byte) (int, error) {
	n := len(r.b)
	if n == 0 {
		return 0, r.err
	}
	if n > r.piece {
		n = r.piece
	}
	n = copy(p, r.b[:n])
	r.b = r.b[n:]
	return n, nil
}

// ZZF01Settings: settings that cannot be read to their end.
func ZZF01Settings() {
	doc := []byte(`{"path":"/` + string([]byte{sym.ByteIn("letter", 'a', 'z')}) + `", "systemDict":"system.dic"}`)
	r := &zzF01Reader{b: doc, piece: []int{4096, 7}[sym.Choose("piece", 2)], err: io.EOF}
	at := sym.Concrete(sym.Int("fault at", 0, len(doc)))
	if at < len(doc) {
		r.b, r.err = doc[:at], errors.New("fault")
	}
	err := NewSettingsJSON().ParseSettingsJSON("", r)
	if at < len(doc) {
		sym.Assert(err != nil, "a failure to read settings is reported")
		sym.Reach("failed")
	} else {
		sym.Assert(err == nil, "settings can be read")
		sym.Reach("succeeded")
	}
}
