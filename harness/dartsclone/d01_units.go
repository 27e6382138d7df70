package dartsclone

import sym "github.com/msnoigrs/gosudachi/internal/zzsym"

// ZZD01Units: every place the builder may choose for the children of a unit can be recorded in it,
// beside its label; no trie that is small enough to be built here needs the far ones.
func ZZD01Units() {
	const max = 1<<29 - 1
	dab := &doubleArrayBuilder{extras: make([]extraUnit, numExtras), labels: []byte{1}}
	id := sym.Int("id", 0, max)
	offset := sym.Int("offset", 0, max)
	label := sym.Byte("label")
	leaf := sym.Bool("leaf")
	sym.Assume(dab.isValidOffset(id, offset))
	u := dabuSetLabel(0, label)
	u = dabuSetOffset(dabuSetHasLeaf(u, leaf), id^offset)
	sym.Assert(sym.And(uint32(id)^daunit(u).offset() == uint32(offset), daunit(u).label() == uint32(label)), "a unit records where its children are")
	sym.Assert(daunit(u).hasLeaf() == leaf, "a unit records whether it ends a key")
	sym.Reach("recorded")
	// labels set later keep it
	u = dabuSetHasLeaf(dabuSetOffset(0, id^offset), leaf)
	u = dabuSetLabel(u, label)
	sym.Assert(sym.And(uint32(id)^daunit(u).offset() == uint32(offset), daunit(u).label() == uint32(label)), "a unit records where its children are")
	sym.Assert(daunit(u).hasLeaf() == leaf, "a unit records whether it ends a key")
	v := sym.Int("value", 0, 1<<31-1)
	w := daunit(dabuSetValue(v))
	sym.Assert(sym.And(w.value() == v, w.label() > 255), "a unit records a value, which is no label")
}
