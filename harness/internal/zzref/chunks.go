package zzref

import "io"

// Chunks is a reader that delivers data in pieces of the given sizes (the last one repeats; 0 means
// all that fits) and leaves scratch values behind them.
type Chunks struct {
	Data    []byte
	Sizes   []int
	Scratch []byte // written after each piece, as far as there is room
	Err     error  // at the end; io.EOF if nil
	WithErr bool   // the last piece comes together with the error
	n       int
}

func (c *Chunks) Read(p []byte) (int, error) {
	end := c.Err
	if end == nil {
		end = io.EOF
	}
	if len(c.Data) == 0 {
		return 0, end
	}
	n := 0
	if len(c.Sizes) > 0 {
		k := c.n
		if k >= len(c.Sizes) {
			k = len(c.Sizes) - 1
		}
		n = c.Sizes[k]
	}
	c.n++
	if n == 0 || n > len(c.Data) {
		n = len(c.Data)
	}
	if n > len(p) {
		n = len(p)
	}
	copy(p, c.Data[:n])
	copy(p[n:], c.Scratch)
	c.Data = c.Data[n:]
	if len(c.Data) == 0 && c.WithErr {
		return n, end
	}
	return n, nil
}
