package dartsclone

import sym "github.com/msnoigrs/gosudachi/internal/zzsym"

// ZZD01Share: the children of a state that is already placed are shared only when the new place can
// record where they are; no trie that is small enough to be built here has them far apart.
func ZZD01Share() {
	db := newDAWGBuilder()
	db.initialize()
	for _, k := range []string{"ab", "cb"} {
		if db.insert([]byte(k), 5) != nil {
			sym.Fail("good keys are accepted")
		}
	}
	db.finish()
	a := int(db.child(dawgRoot))
	if !db.isIntersection(int(db.child(a))) {
		sym.Skip()
	}
	dab := newDoubleArrayBuilder(nil)
	dab.table = make([]int, db.numIntersections())
	dab.extras = make([]extraUnit, numExtras)
	dab.reserveId(0)
	dab.getExtras(0).isUsed = true
	for id := 1; id < 256; id++ {
		dab.reserveId(id)
	}
	place := sym.Int("place", 1, 1<<29-1)
	at := sym.Int("at", 1, 255)
	dab.table[db.intersectionId(int(db.child(a)))] = place
	dab.buildFromDAWGInsert(db, a, at)
	u := daunit(dab.units[at])
	got := uint32(at) ^ u.offset()
	sym.Assert(sym.Or(got == uint32(place), got < 512), "a shared state is where the unit says, or copied nearby")
	sym.Reach("placed")
}
