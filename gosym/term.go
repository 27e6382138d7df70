package main

import (
	"fmt"
	"math/bits"
	"sort"
	"strings"
)

// Op is a term operator.
type Op uint8

const (
	OConst Op = iota // k, width w (w==0: bool)
	OVar
	ONot // bool
	OAnd
	OOr
	OIte
	OEq
	OUlt
	OUle
	OSlt
	OSle
	OAdd
	OSub
	OMul
	OUdiv
	OUrem
	OSdiv
	OSrem
	OBand
	OBor
	OBxor
	OBnot
	ONeg
	OShl
	OLshr
	OAshr
	OConcat
	OExtract // k = hi<<8|lo
	OZext
	OSext
)

var opNames = [...]string{"const", "var", "not", "and", "or", "ite", "=", "bvult", "bvule", "bvslt", "bvsle",
	"bvadd", "bvsub", "bvmul", "bvudiv", "bvurem", "bvsdiv", "bvsrem", "bvand", "bvor", "bvxor", "bvnot", "bvneg",
	"bvshl", "bvlshr", "bvashr", "concat", "extract", "zext", "sext"}

// Term is a hash-consed bit-vector (w>0) or boolean (w==0) term.
type Term struct {
	op       Op
	w        uint8
	a, b, c  *Term
	k        uint64
	name     string
	id       uint32
	hash     uint64
	lo, hi   uint64 // unsigned interval
	vars     []int32
	stamp    uint32
	val      uint64
	defined  uint32 // solver generation in which it is defined
	size     uint32
	lia      uint8
	ldefined uint32
	tab      []uint64 // values over the range of its only variable, when that is small
}

// tabLimit is the largest variable range for which terms carry value tables.
const tabLimit = 256

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

func sext64(v uint64, w uint8) int64 {
	if w >= 64 {
		return int64(v)
	}
	s := 64 - uint(w)
	return int64(v<<s) >> s
}

type termKey struct {
	op      Op
	w       uint8
	a, b, c uint32
	k       uint64
}

// TB is a term builder (one per worker).
type TB struct {
	tab    map[termKey]*Term
	vars   []*Term
	byName map[string]*Term
	nextID uint32
	stamp  uint32
	True   *Term
	False  *Term
	small  [9][256]*Term
	byTab  map[tabKey][]*Term
}

type tabKey struct {
	v int32
	w uint8
	h uint64
}

func tabHash(tab []uint64) uint64 {
	h := uint64(0x12345)
	for _, x := range tab {
		h = mix(h, x+0x9e37)
	}
	return h
}

// domSize is the number of values of a variable, 0 if too many.
func (t *Term) domSize() int {
	if t.w == 0 {
		return 2
	}
	if d := t.hi - t.lo; d < tabLimit {
		return int(d) + 1
	}
	return 0
}

// tabulate gives t its value table if it depends on one variable of a small range; the result is
// the canonical term with these values.
func (tb *TB) tabulate(t *Term) *Term {
	v := tb.vars[t.vars[0]]
	n := v.domSize()
	if n == 0 {
		return t
	}
	for _, c := range [...]*Term{t.a, t.b, t.c} {
		if c != nil && c.op != OConst && c.tab == nil {
			return t
		}
	}
	at := func(c *Term, i int) uint64 {
		if c == nil {
			return 0
		}
		if c.op == OConst {
			return c.k
		}
		return c.tab[i]
	}
	tab := make([]uint64, n)
	same := true
	for i := range tab {
		tab[i] = tb.apply(t, at(t.a, i), at(t.b, i), at(t.c, i))
		if tab[i] != tab[0] {
			same = false
		}
	}
	if same {
		return tb.Const(tab[0], t.w)
	}
	t.tab = tab
	return tb.intern(t)
}

func (tb *TB) intern(t *Term) *Term {
	key := tabKey{t.vars[0], t.w, tabHash(t.tab)}
L:
	for _, o := range tb.byTab[key] {
		for i, x := range o.tab {
			if t.tab[i] != x {
				continue L
			}
		}
		return o
	}
	tb.byTab[key] = append(tb.byTab[key], t)
	t.lo, t.hi = t.tab[0], t.tab[0]
	for _, x := range t.tab {
		if x < t.lo {
			t.lo = x
		}
		if x > t.hi {
			t.hi = x
		}
	}
	return t
}

func newTB() *TB {
	tb := &TB{tab: make(map[termKey]*Term, 1<<14), byName: map[string]*Term{}, nextID: 1, byTab: map[tabKey][]*Term{}}
	tb.True = tb.mk(OConst, 0, nil, nil, nil, 1)
	tb.False = tb.mk(OConst, 0, nil, nil, nil, 0)
	return tb
}

func tid(t *Term) uint32 {
	if t == nil {
		return 0
	}
	return t.id
}

func thash(t *Term) uint64 {
	if t == nil {
		return 0x9e3779b97f4a7c15
	}
	return t.hash
}

func mix(h, v uint64) uint64 {
	h ^= v
	h *= 0xff51afd7ed558ccd
	h ^= h >> 32
	return h
}

func mergeVars(a, b []int32) []int32 {
	if len(a) == 0 {
		return b
	}
	if len(b) == 0 {
		return a
	}
	// subset checks keep sharing
	i, j := 0, 0
	aInB, bInA := true, true
	for i < len(a) && j < len(b) {
		switch {
		case a[i] == b[j]:
			i++
			j++
		case a[i] < b[j]:
			aInB = false
			i++
		default:
			bInA = false
			j++
		}
	}
	if i < len(a) {
		aInB = false
	}
	if j < len(b) {
		bInA = false
	}
	if bInA {
		return a
	}
	if aInB {
		return b
	}
	r := make([]int32, 0, len(a)+len(b))
	i, j = 0, 0
	for i < len(a) || j < len(b) {
		switch {
		case j >= len(b) || (i < len(a) && a[i] < b[j]):
			r = append(r, a[i])
			i++
		case i >= len(a) || b[j] < a[i]:
			r = append(r, b[j])
			j++
		default:
			r = append(r, a[i])
			i++
			j++
		}
	}
	return r
}

func (tb *TB) mk(op Op, w uint8, a, b, c *Term, k uint64) *Term {
	key := termKey{op, w, tid(a), tid(b), tid(c), k}
	if t, ok := tb.tab[key]; ok {
		return t
	}
	t := &Term{op: op, w: w, a: a, b: b, c: c, k: k, id: tb.nextID}
	tb.nextID++
	h := mix(uint64(op)<<8|uint64(w), k)
	h = mix(h, thash(a))
	h = mix(h, thash(b)*3)
	h = mix(h, thash(c)*7)
	t.hash = h
	if a != nil {
		t.vars = a.vars
		t.size = a.size
	}
	if b != nil {
		t.vars = mergeVars(t.vars, b.vars)
		t.size += b.size
	}
	if c != nil {
		t.vars = mergeVars(t.vars, c.vars)
		t.size += c.size
	}
	t.size++
	if t.size > 1<<30 {
		t.size = 1 << 30
	}
	tb.interval(t)
	if len(t.vars) == 1 {
		t = tb.tabulate(t)
	}
	tb.tab[key] = t
	return t
}

func (tb *TB) interval(t *Term) {
	m := mask(t.w)
	t.lo, t.hi = 0, m
	if t.w == 0 {
		t.hi = 1
	}
	switch t.op {
	case OConst:
		t.lo, t.hi = t.k, t.k
	case OZext:
		t.lo, t.hi = t.a.lo, t.a.hi
	case OSext:
		if t.a.hi < 1<<(t.a.w-1) {
			t.lo, t.hi = t.a.lo, t.a.hi
		}
	case OIte:
		t.lo, t.hi = t.b.lo, t.b.hi
		if t.c.lo < t.lo {
			t.lo = t.c.lo
		}
		if t.c.hi > t.hi {
			t.hi = t.c.hi
		}
	case OBand:
		t.hi = t.a.hi
		if t.b.hi < t.hi {
			t.hi = t.b.hi
		}
	case OBor:
		t.lo = t.a.lo
		if t.b.lo > t.lo {
			t.lo = t.b.lo
		}
		n := bits.Len64(t.a.hi | t.b.hi)
		t.hi = mask(uint8(n)) & m
	case OBxor:
		n := bits.Len64(t.a.hi | t.b.hi)
		t.hi = mask(uint8(n)) & m
	case OAdd:
		s, cy := bits.Add64(t.a.hi, t.b.hi, 0)
		if cy == 0 && s <= m {
			t.lo, t.hi = t.a.lo+t.b.lo, s
		} else {
			// both wrap?
			l, cy2 := bits.Add64(t.a.lo, t.b.lo, 0)
			if t.w < 64 && l > m && s-(m+1) <= m {
				t.lo, t.hi = l-(m+1), s-(m+1)
			} else if t.w == 64 && cy == 1 && cy2 == 1 {
				t.lo, t.hi = l, s
			}
		}
	case OSub:
		if t.a.lo >= t.b.hi {
			t.lo, t.hi = t.a.lo-t.b.hi, t.a.hi-t.b.lo
		}
	case OMul:
		h, l := bits.Mul64(t.a.hi, t.b.hi)
		if h == 0 && l <= m {
			t.lo, t.hi = t.a.lo*t.b.lo, l
		}
	case OUdiv:
		if t.b.lo > 0 {
			t.lo, t.hi = t.a.lo/t.b.hi, t.a.hi/t.b.lo
		}
	case OUrem:
		if t.b.lo > 0 {
			t.hi = t.b.hi - 1
			if t.a.hi < t.hi {
				t.hi = t.a.hi
			}
		}
	case OLshr:
		if t.b.op == OConst {
			if t.b.k >= 64 {
				t.lo, t.hi = 0, 0
			} else {
				t.lo, t.hi = t.a.lo>>t.b.k, t.a.hi>>t.b.k
			}
		} else {
			t.hi = t.a.hi
		}
	case OShl:
		if t.b.op == OConst && t.b.k < 64 {
			if bits.Len64(t.a.hi)+int(t.b.k) <= int(t.w) {
				t.lo, t.hi = t.a.lo<<t.b.k, t.a.hi<<t.b.k
			}
		}
	case OConcat:
		t.lo, t.hi = t.a.lo<<t.b.w|t.b.lo, t.a.hi<<t.b.w|t.b.hi
	case OExtract:
		lo := uint8(t.k)
		if t.a.hi>>lo <= m {
			t.lo, t.hi = t.a.lo>>lo, t.a.hi>>lo
		}
	}
}

func (tb *TB) Const(v uint64, w uint8) *Term {
	if w == 0 {
		return tb.Bool(v&1 != 0)
	}
	return tb.mk(OConst, w, nil, nil, nil, v&mask(w))
}
func (tb *TB) Bool(b bool) *Term {
	if b {
		return tb.True
	}
	return tb.False
}

// Var returns the variable with the given name (created on first use).
func (tb *TB) Var(name string, w uint8) *Term {
	key := fmt.Sprintf("%s!%d", name, w)
	if t, ok := tb.byName[key]; ok {
		return t
	}
	t := &Term{op: OVar, w: w, name: key, id: tb.nextID, hi: mask(w), size: 1}
	if w == 0 {
		t.hi = 1
	}
	return tb.addVar(t, key)
}

func (tb *TB) addVar(t *Term, key string) *Term {
	tb.nextID++
	h := uint64(1469598103934665603)
	for i := 0; i < len(key); i++ {
		h = (h ^ uint64(key[i])) * 1099511628211
	}
	t.hash = mix(h, 77)
	t.k = uint64(len(tb.vars))
	t.vars = []int32{int32(len(tb.vars))}
	tb.vars = append(tb.vars, t)
	tb.byName[key] = t
	if n := t.domSize(); n > 0 {
		t.tab = make([]uint64, n)
		for i := range t.tab {
			t.tab[i] = t.lo + uint64(i)
		}
		tb.intern(t)
	}
	return t
}

// RVar returns a variable restricted to lo..hi (unsigned); the restriction is part of the
// variable and is asserted in every query that mentions it.
func (tb *TB) RVar(name string, w uint8, lo, hi uint64) *Term {
	if lo == 0 && hi == mask(w) {
		return tb.Var(name, w)
	}
	if lo == hi {
		return tb.Const(lo, w)
	}
	key := fmt.Sprintf("%s~%d~%d", name, lo, hi)
	if t, ok := tb.byName[fmt.Sprintf("%s!%d", key, w)]; ok {
		return t
	}
	key = fmt.Sprintf("%s!%d", key, w)
	return tb.addVar(&Term{op: OVar, w: w, name: key, id: tb.nextID, lo: lo, hi: hi, size: 1}, key)
}

// varOf recreates a variable from its full name.
func (tb *TB) varOf(key string) *Term {
	i := strings.LastIndexByte(key, '!')
	var wd int
	fmt.Sscanf(key[i+1:], "%d", &wd)
	key = key[:i]
	if p := strings.Split(key, "~"); len(p) >= 3 {
		var lo, hi uint64
		fmt.Sscanf(p[len(p)-2], "%d", &lo)
		fmt.Sscanf(p[len(p)-1], "%d", &hi)
		return tb.RVar(strings.Join(p[:len(p)-2], "~"), uint8(wd), lo, hi)
	}
	return tb.Var(key, uint8(wd))
}

// restricted reports whether the variable's range is narrower than its width.
func (t *Term) restricted() bool {
	return t.op == OVar && t.w > 0 && (t.lo != 0 || t.hi != mask(t.w))
}

func (t *Term) isConst() bool { return t.op == OConst }

func (tb *TB) Not(a *Term) *Term {
	switch a.op {
	case OConst:
		return tb.Bool(a.k == 0)
	case ONot:
		return a.a
	case OUlt:
		return tb.Ule(a.b, a.a)
	case OUle:
		return tb.Ult(a.b, a.a)
	case OSlt:
		return tb.Sle(a.b, a.a)
	case OSle:
		return tb.Slt(a.b, a.a)
	}
	return tb.mk(ONot, 0, a, nil, nil, 0)
}

func (tb *TB) isNeg(a, b *Term) bool {
	if a.op == ONot && a.a == b || b.op == ONot && b.a == a {
		return true
	}
	switch a.op {
	case OUlt:
		return b.op == OUle && b.a == a.b && b.b == a.a
	case OUle:
		return b.op == OUlt && b.a == a.b && b.b == a.a
	case OSlt:
		return b.op == OSle && b.a == a.b && b.b == a.a
	case OSle:
		return b.op == OSlt && b.a == a.b && b.b == a.a
	}
	return false
}

func order(a, b *Term) (*Term, *Term) {
	if a.op == OConst {
		return b, a
	}
	if b.op == OConst {
		return a, b
	}
	if a.hash > b.hash || (a.hash == b.hash && a.id > b.id) {
		return b, a
	}
	return a, b
}

func inChain(op Op, t, x *Term, d int) bool {
	if t == x {
		return true
	}
	if d == 0 || t.op != op {
		return false
	}
	return inChain(op, t.a, x, d-1) || inChain(op, t.b, x, d-1)
}

func (tb *TB) And(a, b *Term) *Term {
	a, b = order(a, b)
	if b.op == OConst {
		if b.k == 0 {
			return b
		}
		return a
	}
	if a == b {
		return a
	}
	if tb.isNeg(a, b) {
		return tb.False
	}
	if inChain(OAnd, a, b, 4) {
		return a
	}
	if inChain(OAnd, b, a, 4) {
		return b
	}
	// x==c1 && x==c2
	if a.op == OEq && b.op == OEq && a.b.op == OConst && b.b.op == OConst && a.a == b.a && a.b != b.b {
		return tb.False
	}
	return tb.mk(OAnd, 0, a, b, nil, 0)
}

func (tb *TB) Or(a, b *Term) *Term {
	a, b = order(a, b)
	if b.op == OConst {
		if b.k == 1 {
			return b
		}
		return a
	}
	if a == b {
		return a
	}
	if tb.isNeg(a, b) {
		return tb.True
	}
	if inChain(OOr, a, b, 4) {
		return a
	}
	if inChain(OOr, b, a, 4) {
		return b
	}
	return tb.mk(OOr, 0, a, b, nil, 0)
}

func (tb *TB) Ite(c, a, b *Term) *Term {
	if c.op == OConst {
		if c.k != 0 {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	if c.op == ONot {
		return tb.Ite(c.a, b, a)
	}
	if a.w == 0 {
		if a == tb.True {
			return tb.Or(c, b)
		}
		if a == tb.False {
			return tb.And(tb.Not(c), b)
		}
		if b == tb.True {
			return tb.Or(tb.Not(c), a)
		}
		if b == tb.False {
			return tb.And(c, a)
		}
	}
	if a.op == OIte && a.a == c {
		a = a.b
	}
	if b.op == OIte && b.a == c {
		b = b.c
	}
	if a == b {
		return a
	}
	// ite(c, x, ite(d, x, y)) -> ite(c||d, x, y)
	if b.op == OIte && b.b == a {
		return tb.Ite(tb.Or(c, b.a), a, b.c)
	}
	return tb.mk(OIte, a.w, c, a, b, 0)
}

// iteConstLeaves reports whether t is an ite tree with constant leaves (up to n nodes).
func iteConstLeaves(t *Term, n *int) bool {
	if t.op == OConst {
		return true
	}
	if t.op != OIte {
		return false
	}
	*n--
	if *n < 0 {
		return false
	}
	return iteConstLeaves(t.b, n) && iteConstLeaves(t.c, n)
}

func (tb *TB) mapIte(t *Term, memo map[*Term]*Term, f func(*Term) *Term) *Term {
	if t.op != OIte {
		return f(t)
	}
	if r, ok := memo[t]; ok {
		return r
	}
	r := tb.Ite(t.a, tb.mapIte(t.b, memo, f), tb.mapIte(t.c, memo, f))
	memo[t] = r
	return r
}

const iteLimit = 600

func (tb *TB) Eq(a, b *Term) *Term {
	if a == b {
		return tb.True
	}
	a, b = order(a, b)
	if a.w != b.w {
		panic(fmt.Sprintf("Eq width %d %d", a.w, b.w))
	}
	if a.op == OConst && b.op == OConst {
		return tb.Bool(a.k == b.k)
	}
	if a.w == 0 {
		if b.op == OConst {
			if b.k == 1 {
				return a
			}
			return tb.Not(a)
		}
		if tb.isNeg(a, b) {
			return tb.False
		}
		return tb.mk(OEq, 0, a, b, nil, 0)
	}
	if a.hi < b.lo || b.hi < a.lo {
		return tb.False
	}
	if b.op == OConst {
		switch a.op {
		case OZext:
			return tb.Eq(a.a, tb.Const(b.k, a.a.w))
		case OSext:
			tr := b.k & mask(a.a.w)
			if uint64(sext64(tr, a.a.w))&mask(a.w) != b.k {
				return tb.False
			}
			return tb.Eq(a.a, tb.Const(tr, a.a.w))
		case OAdd:
			if a.b.op == OConst {
				return tb.Eq(a.a, tb.Const(b.k-a.b.k, a.w))
			}
		case OBxor:
			if a.b.op == OConst {
				return tb.Eq(a.a, tb.Const(b.k^a.b.k, a.w))
			}
		case OBnot:
			return tb.Eq(a.a, tb.Const(^b.k, a.w))
		case ONeg:
			return tb.Eq(a.a, tb.Const(-b.k, a.w))
		case OConcat:
			return tb.And(tb.Eq(a.a, tb.Const(b.k>>a.b.w, a.a.w)), tb.Eq(a.b, tb.Const(b.k, a.b.w)))
		case OIte:
			if a.b.op == OConst {
				if a.b.k == b.k {
					return tb.Or(a.a, tb.Eq(a.c, b))
				}
				return tb.And(tb.Not(a.a), tb.Eq(a.c, b))
			}
			if a.c.op == OConst {
				if a.c.k == b.k {
					return tb.Or(tb.Not(a.a), tb.Eq(a.b, b))
				}
				return tb.And(a.a, tb.Eq(a.b, b))
			}
			n := iteLimit
			if iteConstLeaves(a, &n) {
				return tb.mapIte(a, map[*Term]*Term{}, func(t *Term) *Term { return tb.Eq(t, b) })
			}
		}
	} else {
		if a.op == OZext && b.op == OZext && a.a.w == b.a.w || a.op == OSext && b.op == OSext && a.a.w == b.a.w {
			return tb.Eq(a.a, b.a)
		}
		if a.op == OAdd && b.op == OAdd && a.b.op == OConst && a.b == b.b {
			return tb.Eq(a.a, b.a)
		}
		if a.op == OConcat && b.op == OConcat && a.b.w == b.b.w {
			return tb.And(tb.Eq(a.a, b.a), tb.Eq(a.b, b.b))
		}
	}
	return tb.mk(OEq, 0, a, b, nil, 0)
}

func (tb *TB) Ult(a, b *Term) *Term {
	if a == b || a.lo >= b.hi {
		return tb.False
	}
	if a.hi < b.lo {
		return tb.True
	}
	if b.op == OConst {
		if b.k == 1 {
			return tb.Eq(a, tb.Const(0, a.w))
		}
		if a.op == OZext {
			return tb.Ult(a.a, tb.Const(b.k, a.a.w)) // b.k <= a.hi <= mask
		}
		if a.op == OIte {
			n := iteLimit
			if iteConstLeaves(a, &n) {
				return tb.mapIte(a, map[*Term]*Term{}, func(t *Term) *Term { return tb.Ult(t, b) })
			}
		}
		if b.k == a.hi && a.hi == a.lo+1 {
			return tb.Eq(a, tb.Const(a.lo, a.w))
		}
	}
	if a.op == OConst {
		if b.op == OZext {
			return tb.Ult(tb.Const(a.k, b.a.w), b.a)
		}
		if a.k == 0 {
			return tb.Not(tb.Eq(b, a))
		}
		if b.op == OIte {
			n := iteLimit
			if iteConstLeaves(b, &n) {
				return tb.mapIte(b, map[*Term]*Term{}, func(t *Term) *Term { return tb.Ult(a, t) })
			}
		}
	}
	if a.op == OZext && b.op == OZext && a.a.w == b.a.w {
		return tb.Ult(a.a, b.a)
	}
	return tb.mk(OUlt, 0, a, b, nil, 0)
}

func (tb *TB) Ule(a, b *Term) *Term {
	if a == b || a.hi <= b.lo {
		return tb.True
	}
	if a.lo > b.hi {
		return tb.False
	}
	if b.op == OConst {
		return tb.Ult(a, tb.Const(b.k+1, a.w)) // b.k < a.hi so no wrap
	}
	if a.op == OConst {
		return tb.Ult(tb.Const(a.k-1, a.w), b)
	}
	if a.op == OZext && b.op == OZext && a.a.w == b.a.w {
		return tb.Ule(a.a, b.a)
	}
	return tb.mk(OUle, 0, a, b, nil, 0)
}

func (tb *TB) srange(t *Term) (int64, int64) {
	half := uint64(1) << (t.w - 1)
	if t.hi < half {
		return int64(t.lo), int64(t.hi)
	}
	if t.lo >= half {
		return sext64(t.lo, t.w), sext64(t.hi, t.w)
	}
	switch t.op {
	case OSext:
		return tb.srange(t.a)
	case OIte:
		if t.size < 4000 {
			l1, h1 := tb.srange(t.b)
			l2, h2 := tb.srange(t.c)
			return min(l1, l2), max(h1, h2)
		}
	case OAdd:
		if t.w <= 62 || true {
			l1, h1 := tb.srange1(t.a)
			l2, h2 := tb.srange1(t.b)
			l, h := l1+l2, h1+h2
			if (l1 >= 0) == (l2 >= 0) && (l >= 0) != (l1 >= 0) || (h1 >= 0) == (h2 >= 0) && (h >= 0) != (h1 >= 0) {
				break
			}
			if l >= -int64(half) && h <= int64(half-1) {
				return l, h
			}
		}
	case OSub:
		l1, h1 := tb.srange1(t.a)
		l2, h2 := tb.srange1(t.b)
		const big = int64(1) << 61
		if l1 < -big || h1 > big || l2 < -big || h2 > big {
			break
		}
		if l, h := l1-h2, h1-l2; l >= -int64(half) && h <= int64(half-1) {
			return l, h
		}
	}
	return -int64(half), int64(half - 1)
}

func (tb *TB) srange1(t *Term) (int64, int64) {
	half := uint64(1) << (t.w - 1)
	if t.hi < half {
		return int64(t.lo), int64(t.hi)
	}
	if t.lo >= half {
		return sext64(t.lo, t.w), sext64(t.hi, t.w)
	}
	if t.op == OSext {
		return tb.srange1(t.a)
	}
	if t.op == OAdd || t.op == OIte || t.op == OSub {
		return tb.srange(t)
	}
	return -int64(half), int64(half - 1)
}

func (tb *TB) Slt(a, b *Term) *Term {
	if a == b {
		return tb.False
	}
	al, ah := tb.srange(a)
	bl, bh := tb.srange(b)
	if ah < bl {
		return tb.True
	}
	if al >= bh {
		return tb.False
	}
	if al >= 0 && bl >= 0 {
		half := uint64(1) << (a.w - 1)
		if a.hi < half && b.hi < half {
			return tb.Ult(a, b)
		}
	}
	if b.op == OConst && a.op == OIte || a.op == OConst && b.op == OIte {
		n := iteLimit
		if b.op == OConst && iteConstLeaves(a, &n) {
			return tb.mapIte(a, map[*Term]*Term{}, func(t *Term) *Term { return tb.Slt(t, b) })
		}
		n = iteLimit
		if a.op == OConst && iteConstLeaves(b, &n) {
			return tb.mapIte(b, map[*Term]*Term{}, func(t *Term) *Term { return tb.Slt(a, t) })
		}
	}
	if a.op == OSext && b.op == OSext && a.a.w == b.a.w {
		return tb.Slt(a.a, b.a)
	}
	if a.op == OSext && b.op == OConst {
		v := sext64(b.k, b.w)
		if v >= -(int64(1)<<(a.a.w-1)) && v < int64(1)<<(a.a.w-1) {
			return tb.Slt(a.a, tb.Const(b.k, a.a.w))
		}
	}
	if b.op == OSext && a.op == OConst {
		v := sext64(a.k, a.w)
		if v >= -(int64(1)<<(b.a.w-1)) && v < int64(1)<<(b.a.w-1) {
			return tb.Slt(tb.Const(a.k, b.a.w), b.a)
		}
	}
	// x + c < d with no overflow of x + c
	if a.op == OAdd && a.b.op == OConst && b.op == OConst {
		l, h := tb.srange1(a.a)
		c := sext64(a.b.k, a.w)
		d := sext64(b.k, b.w)
		if noOvf(l, c, a.w) && noOvf(h, c, a.w) && noOvf(d, -c, a.w) && c != -1<<63 {
			return tb.Slt(a.a, tb.Const(uint64(d-c), a.w))
		}
	}
	if b.op == OAdd && b.b.op == OConst && a.op == OConst {
		l, h := tb.srange1(b.a)
		c := sext64(b.b.k, b.w)
		d := sext64(a.k, a.w)
		if noOvf(l, c, a.w) && noOvf(h, c, a.w) && noOvf(d, -c, a.w) && c != -1<<63 {
			return tb.Slt(tb.Const(uint64(d-c), a.w), b.a)
		}
	}
	return tb.mk(OSlt, 0, a, b, nil, 0)
}

func noOvf(x, c int64, w uint8) bool {
	s := x + c
	if (x >= 0) == (c >= 0) && (s >= 0) != (x >= 0) {
		return false
	}
	if w < 64 {
		return s >= -(int64(1)<<(w-1)) && s < int64(1)<<(w-1)
	}
	return true
}

func (tb *TB) Sle(a, b *Term) *Term {
	if a == b {
		return tb.True
	}
	al, ah := tb.srange(a)
	bl, bh := tb.srange(b)
	if ah <= bl {
		return tb.True
	}
	if al > bh {
		return tb.False
	}
	if b.op == OConst && sext64(b.k, b.w) < int64(mask(b.w)>>1) {
		return tb.Slt(a, tb.Const(b.k+1, b.w))
	}
	if a.op == OConst && sext64(a.k, a.w) > -int64(mask(a.w)>>1)-1 {
		return tb.Slt(tb.Const(a.k-1, a.w), b)
	}
	half := uint64(1) << (a.w - 1)
	if a.hi < half && b.hi < half {
		return tb.Ule(a, b)
	}
	if a.op == OSext && b.op == OSext && a.a.w == b.a.w {
		return tb.Sle(a.a, b.a)
	}
	return tb.mk(OSle, 0, a, b, nil, 0)
}

func (tb *TB) Add(a, b *Term) *Term {
	a, b = order(a, b)
	if b.op == OConst {
		if a.op == OConst {
			return tb.Const(a.k+b.k, a.w)
		}
		if b.k == 0 {
			return a
		}
		if a.op == OAdd && a.b.op == OConst {
			return tb.Add(a.a, tb.Const(a.b.k+b.k, a.w))
		}
		if a.op == OIte {
			n := 40
			if iteConstLeaves(a, &n) {
				return tb.mapIte(a, map[*Term]*Term{}, func(t *Term) *Term { return tb.Add(t, b) })
			}
		}
	} else {
		// pull constants out
		if a.op == OAdd && a.b.op == OConst {
			return tb.Add(tb.Add(a.a, b), a.b)
		}
		if b.op == OAdd && b.b.op == OConst {
			return tb.Add(tb.Add(a, b.a), b.b)
		}
		// x + (y - x) etc
		if a.op == OSub && a.b == b {
			return a.a
		}
		if b.op == OSub && b.b == a {
			return b.a
		}
	}
	return tb.mk(OAdd, a.w, a, b, nil, 0)
}

func (tb *TB) Sub(a, b *Term) *Term {
	if a == b {
		return tb.Const(0, a.w)
	}
	if b.op == OConst {
		return tb.Add(a, tb.Const(-b.k, a.w))
	}
	if a.op == OAdd && a.a == b {
		return a.b
	}
	if a.op == OAdd && a.b == b {
		return a.a
	}
	if a.op == OAdd && a.b.op == OConst {
		return tb.Add(tb.Sub(a.a, b), a.b)
	}
	if b.op == OAdd && b.b.op == OConst {
		return tb.Add(tb.Sub(a, b.a), tb.Const(-b.b.k, a.w))
	}
	if a.op == OConst && a.k == 0 {
		return tb.Neg(b)
	}
	return tb.mk(OSub, a.w, a, b, nil, 0)
}

func (tb *TB) Neg(a *Term) *Term {
	if a.op == OConst {
		return tb.Const(-a.k, a.w)
	}
	if a.op == ONeg {
		return a.a
	}
	return tb.mk(ONeg, a.w, a, nil, nil, 0)
}

func (tb *TB) Bnot(a *Term) *Term {
	if a.op == OConst {
		return tb.Const(^a.k, a.w)
	}
	if a.op == OBnot {
		return a.a
	}
	return tb.mk(OBnot, a.w, a, nil, nil, 0)
}

func (tb *TB) Mul(a, b *Term) *Term {
	a, b = order(a, b)
	if b.op == OConst {
		if a.op == OConst {
			return tb.Const(a.k*b.k, a.w)
		}
		if b.k == 0 {
			return b
		}
		if b.k == 1 {
			return a
		}
		if b.k&(b.k-1) == 0 {
			return tb.Shl(a, tb.Const(uint64(bits.TrailingZeros64(b.k)), a.w))
		}
		if a.op == OIte {
			n := 40
			if iteConstLeaves(a, &n) {
				return tb.mapIte(a, map[*Term]*Term{}, func(t *Term) *Term { return tb.Mul(t, b) })
			}
		}
	}
	return tb.mk(OMul, a.w, a, b, nil, 0)
}

func (tb *TB) Udiv(a, b *Term) *Term {
	if b.op == OConst && b.k != 0 {
		if a.op == OConst {
			return tb.Const(a.k/b.k, a.w)
		}
		if b.k == 1 {
			return a
		}
		if b.k&(b.k-1) == 0 {
			return tb.Lshr(a, tb.Const(uint64(bits.TrailingZeros64(b.k)), a.w))
		}
		if a.hi < b.k {
			return tb.Const(0, a.w)
		}
	}
	return tb.mk(OUdiv, a.w, a, b, nil, 0)
}

func (tb *TB) Urem(a, b *Term) *Term {
	if b.op == OConst && b.k != 0 {
		if a.op == OConst {
			return tb.Const(a.k%b.k, a.w)
		}
		if b.k&(b.k-1) == 0 {
			return tb.Band(a, tb.Const(b.k-1, a.w))
		}
		if a.hi < b.k {
			return a
		}
	}
	return tb.mk(OUrem, a.w, a, b, nil, 0)
}

func (tb *TB) Sdiv(a, b *Term) *Term {
	if a.op == OConst && b.op == OConst && b.k != 0 {
		x, y := sext64(a.k, a.w), sext64(b.k, b.w)
		if y == -1 {
			return tb.Const(uint64(-x), a.w)
		}
		return tb.Const(uint64(x/y), a.w)
	}
	if al, _ := tb.srange(a); al >= 0 {
		if bl, _ := tb.srange(b); bl > 0 {
			return tb.Udiv(a, b)
		}
	}
	return tb.mk(OSdiv, a.w, a, b, nil, 0)
}

func (tb *TB) Srem(a, b *Term) *Term {
	if a.op == OConst && b.op == OConst && b.k != 0 {
		x, y := sext64(a.k, a.w), sext64(b.k, b.w)
		if y == -1 {
			return tb.Const(0, a.w)
		}
		return tb.Const(uint64(x%y), a.w)
	}
	if al, _ := tb.srange(a); al >= 0 {
		if bl, _ := tb.srange(b); bl > 0 {
			return tb.Urem(a, b)
		}
	}
	return tb.mk(OSrem, a.w, a, b, nil, 0)
}

func (tb *TB) Band(a, b *Term) *Term {
	if a == b {
		return a
	}
	a, b = order(a, b)
	if b.op == OConst {
		if a.op == OConst {
			return tb.Const(a.k&b.k, a.w)
		}
		if b.k == 0 {
			return b
		}
		if b.k == mask(a.w) {
			return a
		}
		if a.op == OBand && a.b.op == OConst {
			return tb.Band(a.a, tb.Const(a.b.k&b.k, a.w))
		}
		// contiguous mask -> extract
		if b.k&(b.k+1) == 0 { // low ones
			n := uint8(bits.Len64(b.k))
			if a.hi <= b.k {
				return a
			}
			return tb.Zext(tb.Extract(a, n-1, 0), a.w)
		}
		lo := uint8(bits.TrailingZeros64(b.k))
		if x := b.k >> lo; x&(x+1) == 0 { // contiguous
			n := uint8(bits.Len64(b.k))
			mid := tb.Extract(a, n-1, lo)
			r := tb.Concat(mid, tb.Const(0, lo))
			return tb.Zext(r, a.w)
		}
		if a.op == OIte {
			n := 40
			if iteConstLeaves(a, &n) {
				return tb.mapIte(a, map[*Term]*Term{}, func(t *Term) *Term { return tb.Band(t, b) })
			}
		}
	}
	return tb.mk(OBand, a.w, a, b, nil, 0)
}

type seg struct {
	t *Term // nil: zero
	w uint8
}

// segs decomposes t into most-significant-first segments.
func segs(t *Term, out []seg) []seg {
	switch t.op {
	case OConcat:
		return segs(t.b, segs(t.a, out))
	case OZext:
		return segs(t.a, append(out, seg{nil, t.w - t.a.w}))
	case OConst:
		if t.k == 0 {
			return append(out, seg{nil, t.w})
		}
	}
	return append(out, seg{t, t.w})
}

func (tb *TB) fromSegs(s []seg) *Term {
	var r *Term
	for _, x := range s {
		t := x.t
		if t == nil {
			t = tb.Const(0, x.w)
		}
		if r == nil {
			r = t
		} else {
			r = tb.Concat(r, t)
		}
	}
	return r
}

// disjointOr merges a|b (or a+b, a^b) when their segments do not overlap.
func (tb *TB) disjointOr(a, b *Term) *Term {
	if a.op != OConcat && a.op != OZext && b.op != OConcat && b.op != OZext {
		return nil
	}
	var bufa, bufb [16]seg
	sa, sb := segs(a, bufa[:0]), segs(b, bufb[:0])
	var out []seg
	i, j := 0, 0
	for i < len(sa) && j < len(sb) {
		x, y := sa[i], sb[j]
		if x.t != nil && y.t != nil {
			return nil
		}
		var n uint8
		if x.w == y.w {
			n = x.w
			t := x.t
			if t == nil {
				t = y.t
			}
			out = append(out, seg{t, n})
			i++
			j++
			continue
		}
		// the longer one must be split; only zero can be split for free, otherwise extract
		if x.w < y.w {
			n = x.w
			if y.t == nil {
				out = append(out, x)
				sb[j] = seg{nil, y.w - n}
			} else {
				out = append(out, seg{tb.Extract(y.t, y.w-1, y.w-n), n})
				sb[j] = seg{tb.Extract(y.t, y.w-n-1, 0), y.w - n}
			}
			i++
		} else {
			n = y.w
			if x.t == nil {
				out = append(out, y)
				sa[i] = seg{nil, x.w - n}
			} else {
				out = append(out, seg{tb.Extract(x.t, x.w-1, x.w-n), n})
				sa[i] = seg{tb.Extract(x.t, x.w-n-1, 0), x.w - n}
			}
			j++
		}
	}
	return tb.fromSegs(out)
}

func (tb *TB) Bor(a, b *Term) *Term {
	if a == b {
		return a
	}
	a, b = order(a, b)
	if b.op == OConst {
		if a.op == OConst {
			return tb.Const(a.k|b.k, a.w)
		}
		if b.k == 0 {
			return a
		}
		if b.k == mask(a.w) {
			return b
		}
		if a.op == OIte {
			n := 40
			if iteConstLeaves(a, &n) {
				return tb.mapIte(a, map[*Term]*Term{}, func(t *Term) *Term { return tb.Bor(t, b) })
			}
		}
	}
	if r := tb.disjointOr(a, b); r != nil {
		return r
	}
	return tb.mk(OBor, a.w, a, b, nil, 0)
}

func (tb *TB) Bxor(a, b *Term) *Term {
	if a == b {
		return tb.Const(0, a.w)
	}
	a, b = order(a, b)
	if b.op == OConst {
		if a.op == OConst {
			return tb.Const(a.k^b.k, a.w)
		}
		if b.k == 0 {
			return a
		}
		if b.k == mask(a.w) {
			return tb.Bnot(a)
		}
		if a.op == OBxor && a.b.op == OConst {
			return tb.Bxor(a.a, tb.Const(a.b.k^b.k, a.w))
		}
	} else {
		if a.op == OBxor && a.b.op == OConst {
			return tb.Bxor(tb.Bxor(a.a, b), a.b)
		}
		if b.op == OBxor && b.b.op == OConst {
			return tb.Bxor(tb.Bxor(a, b.a), b.b)
		}
	}
	if b.op != OConst {
		if r := tb.disjointOr(a, b); r != nil {
			return r
		}
	}
	return tb.mk(OBxor, a.w, a, b, nil, 0)
}

func (tb *TB) Shl(a, b *Term) *Term {
	if b.op == OConst {
		if b.k >= uint64(a.w) {
			return tb.Const(0, a.w)
		}
		if b.k == 0 {
			return a
		}
		if a.op == OConst {
			return tb.Const(a.k<<b.k, a.w)
		}
		n := uint8(b.k)
		return tb.Concat(tb.Extract(a, a.w-1-n, 0), tb.Const(0, n))
	}
	if a.op == OConst && a.k == 0 {
		return a
	}
	return tb.mk(OShl, a.w, a, b, nil, 0)
}

func (tb *TB) Lshr(a, b *Term) *Term {
	if b.op == OConst {
		if b.k >= uint64(a.w) {
			return tb.Const(0, a.w)
		}
		if b.k == 0 {
			return a
		}
		if a.op == OConst {
			return tb.Const(a.k>>b.k, a.w)
		}
		return tb.Zext(tb.Extract(a, a.w-1, uint8(b.k)), a.w)
	}
	if a.op == OConst && a.k == 0 {
		return a
	}
	return tb.mk(OLshr, a.w, a, b, nil, 0)
}

func (tb *TB) Ashr(a, b *Term) *Term {
	if a.hi < 1<<(a.w-1) {
		return tb.Lshr(a, b)
	}
	if b.op == OConst {
		n := b.k
		if n >= uint64(a.w) {
			n = uint64(a.w) - 1
		}
		if n == 0 {
			return a
		}
		if a.op == OConst {
			return tb.Const(uint64(sext64(a.k, a.w)>>n), a.w)
		}
		return tb.Sext(tb.Extract(a, a.w-1, uint8(n)), a.w)
	}
	return tb.mk(OAshr, a.w, a, b, nil, 0)
}

func (tb *TB) Concat(a, b *Term) *Term {
	if a == nil {
		return b
	}
	if b == nil || b.w == 0 {
		return a
	}
	if a.w == 0 {
		return b
	}
	w := a.w + b.w
	if a.op == OConst && b.op == OConst {
		return tb.Const(a.k<<b.w|b.k, w)
	}
	if a.op == OConst && a.k == 0 {
		return tb.Zext(b, w)
	}
	if a.op == OZext { // zeros in front
		return tb.Zext(tb.Concat(a.a, b), w)
	}
	if b.op == OConcat { // left-assoc
		return tb.Concat(tb.Concat(a, b.a), b.b)
	}
	if b.op == OZext {
		return tb.Concat(tb.Concat(a, tb.Const(0, b.w-b.a.w)), b.a)
	}
	// merge adjacent extracts
	if r := tb.joinExtract(a, b); r != nil {
		return r
	}
	if a.op == OConcat {
		if r := tb.joinExtract(a.b, b); r != nil {
			return tb.Concat(a.a, r)
		}
		if a.b.op == OConst && b.op == OConst {
			return tb.Concat(a.a, tb.Const(a.b.k<<b.w|b.k, a.b.w+b.w))
		}
	}
	return tb.mk(OConcat, w, a, b, nil, 0)
}

func (tb *TB) joinExtract(a, b *Term) *Term {
	ea, alo := a, uint8(0)
	if a.op == OExtract {
		ea, alo = a.a, uint8(a.k)
	} else if a.op == OSext && b.op != OExtract {
		return nil
	}
	if b.op == OExtract {
		hi, lo := uint8(b.k>>8), uint8(b.k)
		if a.op == OExtract && ea == b.a && alo == hi+1 {
			return tb.Extract(b.a, uint8(a.k>>8), lo)
		}
		// sign-extension segments are left alone
		return nil
	}
	// low part is whole term narrower than the source of a (zext/sext source)
	if a.op == OExtract && ea.op == OSext && ea.a == b && alo == b.w {
		return tb.Extract(ea, uint8(a.k>>8), 0)
	}
	return nil
}

func (tb *TB) Extract(a *Term, hi, lo uint8) *Term {
	w := hi - lo + 1
	if w == a.w {
		return a
	}
	switch a.op {
	case OConst:
		return tb.Const(a.k>>lo, w)
	case OExtract:
		base := uint8(a.k)
		return tb.Extract(a.a, hi+base, lo+base)
	case OZext:
		if lo >= a.a.w {
			return tb.Const(0, w)
		}
		if hi < a.a.w {
			return tb.Extract(a.a, hi, lo)
		}
		return tb.Zext(tb.Extract(a.a, a.a.w-1, lo), w)
	case OSext:
		if hi < a.a.w {
			return tb.Extract(a.a, hi, lo)
		}
		if lo == 0 {
			return tb.Sext(a.a, w)
		}
		if lo < a.a.w {
			return tb.Sext(tb.Extract(a.a, a.a.w-1, lo), w)
		}
	case OConcat:
		if hi < a.b.w {
			return tb.Extract(a.b, hi, lo)
		}
		if lo >= a.b.w {
			return tb.Extract(a.a, hi-a.b.w, lo-a.b.w)
		}
		return tb.Concat(tb.Extract(a.a, hi-a.b.w, 0), tb.Extract(a.b, a.b.w-1, lo))
	case OIte:
		n := 64
		if iteConstLeaves(a, &n) {
			return tb.mapIte(a, map[*Term]*Term{}, func(t *Term) *Term { return tb.Extract(t, hi, lo) })
		}
	case OBand, OBor, OBxor:
		if a.b.op == OConst {
			x, y := tb.Extract(a.a, hi, lo), tb.Extract(a.b, hi, lo)
			switch a.op {
			case OBand:
				return tb.Band(x, y)
			case OBor:
				return tb.Bor(x, y)
			default:
				return tb.Bxor(x, y)
			}
		}
	case OAdd:
		if lo == 0 && a.b.op == OConst && (a.a.op == OZext || a.a.op == OSext || a.a.op == OConcat) {
			return tb.Add(tb.Extract(a.a, hi, 0), tb.Extract(a.b, hi, 0))
		}
	}
	return tb.mk(OExtract, w, a, nil, nil, uint64(hi)<<8|uint64(lo))
}

func (tb *TB) Zext(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	switch a.op {
	case OConst:
		return tb.Const(a.k, w)
	case OZext:
		return tb.Zext(a.a, w)
	case OIte:
		n := 64
		if iteConstLeaves(a, &n) {
			return tb.mapIte(a, map[*Term]*Term{}, func(t *Term) *Term { return tb.Zext(t, w) })
		}
	}
	return tb.mk(OZext, w, a, nil, nil, 0)
}

func (tb *TB) Sext(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	switch a.op {
	case OConst:
		return tb.Const(uint64(sext64(a.k, a.w)), w)
	case OSext:
		return tb.Sext(a.a, w)
	case OIte:
		n := 64
		if iteConstLeaves(a, &n) {
			return tb.mapIte(a, map[*Term]*Term{}, func(t *Term) *Term { return tb.Sext(t, w) })
		}
	}
	if a.hi < 1<<(a.w-1) {
		return tb.Zext(a, w)
	}
	return tb.mk(OSext, w, a, nil, nil, 0)
}

// Resize truncates or extends a to width w.
func (tb *TB) Resize(a *Term, w uint8, signed bool) *Term {
	if a.w == w {
		return a
	}
	if w < a.w {
		return tb.Extract(a, w-1, 0)
	}
	if signed {
		return tb.Sext(a, w)
	}
	return tb.Zext(a, w)
}

// Model is an assignment of variables (by index); absent means zero.
type Model struct {
	vals  []uint64
	stamp uint32
}

func (m *Model) get(i int32) uint64 {
	if int(i) < len(m.vals) {
		return m.vals[i]
	}
	return 0
}

// eval evaluates t under m.
func (tb *TB) eval(t *Term, m *Model) uint64 {
	if t.op == OConst {
		return t.k
	}
	if t.stamp == m.stamp {
		return t.val
	}
	var v uint64
	switch t.op {
	case OVar:
		v = m.get(t.vars[0])
		if t.w > 0 {
			v &= mask(t.w)
		} else {
			v &= 1
		}
	case OAnd:
		v = tb.eval(t.a, m)
		if v != 0 {
			v = tb.eval(t.b, m)
		}
	case OOr:
		v = tb.eval(t.a, m)
		if v == 0 {
			v = tb.eval(t.b, m)
		}
	case OIte:
		if tb.eval(t.a, m) != 0 {
			v = tb.eval(t.b, m)
		} else {
			v = tb.eval(t.c, m)
		}
	default:
		var x, y uint64
		x = tb.eval(t.a, m)
		if t.b != nil {
			y = tb.eval(t.b, m)
		}
		v = tb.apply(t, x, y, 0)
	}
	t.stamp = m.stamp
	t.val = v
	return v
}

// apply computes t's value from its operands' values.
func (tb *TB) apply(t *Term, x, y, z uint64) uint64 {
	var v uint64
	switch t.op {
	case ONot:
		return x ^ 1
	case OAnd:
		return x & y
	case OOr:
		return x | y
	case OIte:
		if x != 0 {
			return y
		}
		return z
	case OConcat:
		v = x<<t.b.w | y
	case OExtract:
		v = x >> uint8(t.k) & mask(t.w)
	case OZext:
		v = x
	case OSext:
		v = uint64(sext64(x, t.a.w)) & mask(t.w)
	case OBnot:
		v = ^x & mask(t.w)
	case ONeg:
		v = -x & mask(t.w)
	default:
		w := t.a.w
		switch t.op {
		case OEq:
			v = b2u(x == y)
		case OUlt:
			v = b2u(x < y)
		case OUle:
			v = b2u(x <= y)
		case OSlt:
			v = b2u(sext64(x, w) < sext64(y, w))
		case OSle:
			v = b2u(sext64(x, w) <= sext64(y, w))
		case OAdd:
			v = x + y
		case OSub:
			v = x - y
		case OMul:
			v = x * y
		case OUdiv:
			if y == 0 {
				v = mask(w)
			} else {
				v = x / y
			}
		case OUrem:
			if y == 0 {
				v = x
			} else {
				v = x % y
			}
		case OSdiv:
			sx, sy := sext64(x, w), sext64(y, w)
			if sy == 0 {
				if sx >= 0 {
					v = mask(w)
				} else {
					v = 1
				}
			} else if sy == -1 {
				v = uint64(-sx)
			} else {
				v = uint64(sx / sy)
			}
		case OSrem:
			sx, sy := sext64(x, w), sext64(y, w)
			if sy == 0 {
				v = x
			} else if sy == -1 {
				v = 0
			} else {
				v = uint64(sx % sy)
			}
		case OBand:
			v = x & y
		case OBor:
			v = x | y
		case OBxor:
			v = x ^ y
		case OShl:
			if y < uint64(w) {
				v = x << y
			}
		case OLshr:
			if y < uint64(w) {
				v = x >> y
			}
		case OAshr:
			if y >= uint64(w) {
				y = uint64(w) - 1
			}
			v = uint64(sext64(x, w) >> y)
		default:
			panic("eval op")
		}
		if t.w > 0 {
			v &= mask(t.w)
		}
	}
	return v
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func (t *Term) ref() string {
	switch t.op {
	case OConst:
		if t.w == 0 {
			if t.k != 0 {
				return "true"
			}
			return "false"
		}
		return fmt.Sprintf("(_ bv%d %d)", t.k, t.w)
	case OVar:
		return fmt.Sprintf("v%d", t.vars[0])
	}
	return fmt.Sprintf("t%d", t.id)
}

func sortName(w uint8) string {
	if w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

// body prints the defining expression of t in terms of its children's refs.
func (t *Term) body(sb *strings.Builder) {
	switch t.op {
	case OExtract:
		fmt.Fprintf(sb, "((_ extract %d %d) %s)", t.k>>8, t.k&0xff, t.a.ref())
	case OZext:
		fmt.Fprintf(sb, "((_ zero_extend %d) %s)", t.w-t.a.w, t.a.ref())
	case OSext:
		fmt.Fprintf(sb, "((_ sign_extend %d) %s)", t.w-t.a.w, t.a.ref())
	default:
		sb.WriteByte('(')
		sb.WriteString(opNames[t.op])
		for _, x := range []*Term{t.a, t.b, t.c} {
			if x != nil {
				sb.WriteByte(' ')
				sb.WriteString(x.ref())
			}
		}
		sb.WriteByte(')')
	}
}

func (t *Term) String() string {
	return t.str(6)
}

func (t *Term) str(d int) string {
	switch t.op {
	case OConst:
		if t.w == 0 {
			return fmt.Sprint(t.k != 0)
		}
		return fmt.Sprintf("%d", t.k)
	case OVar:
		return t.name
	}
	if d == 0 {
		return "..."
	}
	s := "(" + opNames[t.op]
	if t.op == OExtract {
		s += fmt.Sprintf("[%d:%d]", t.k>>8, t.k&0xff)
	}
	for _, x := range []*Term{t.a, t.b, t.c} {
		if x != nil {
			s += " " + x.str(d-1)
		}
	}
	return s + ")"
}

func sortTerms(ts []*Term) {
	sort.Slice(ts, func(i, j int) bool { return ts[i].id < ts[j].id })
}
