package gosudachi

import (
	sym "github.com/msnoigrs/gosudachi/internal/zzsym"
)

// ZZI01Widths: all character widths, one replacement.
func ZZI01Widths() {
	if sym.Thorough() {
		zzI01(4, 1, 3, 4)
		return
	}
	zzI01(3, 1, 2, 4)
}

// ZZI01Ops: sequences of replacements.
func ZZI01Ops() {
	if sym.Thorough() {
		zzI01(4, 3, 2, 2)
		return
	}
	zzI01(3, 2, 3, 2)
}
