package main

import (
	"fmt"
	"go/types"
	"math"
	"unicode/utf8"
)

// V is an interpreter value. P==nil: concrete scalar (or nil/zero of any kind) in N.
type V struct {
	P any
	N uint64
}

// Obj is a memory object: a flat array of leaf cells.
type Obj struct {
	cells  []V
	lay    *Layout // layout of one element (cells repeat it)
	id     uint32
	stamp  uint64
	frozen string // non-empty: writes are violations (label)
	bytes  uint8  // element width in bytes when elements are integers (for views)
	view   *View
	views  map[[2]int]*Obj
	native any
	what   string
}

// View reinterprets the integer cells of base starting at off.
type View struct {
	base *Obj
	off  int
	from uint8 // bytes per base cell
	to   uint8 // bytes per view cell
}

type Slice struct {
	obj           *Obj
	off, len, cap int
	esz           int
}

// Str is a string; c is nil for concrete strings.
type Str struct {
	s string
	c []V
}

type Iface struct {
	t *RType
	v V
}

// Agg is an immutable struct/array/tuple value: flattened leaves (tuples: one V per component).
type Agg struct {
	c []V
}

// SymPtr is a pointer to element idx (symbolic) of an array region.
type SymPtr struct {
	obj  *Obj
	off  int // cell offset of element 0, plus field offset inside the element
	idx  *Term
	n    int // number of elements
	esz  int
	size int
}

type Closure struct {
	fn     *CFunc
	bind   []V
	native func(w *W, args []V) V
	name   string
}

type mapEnt struct {
	k, v V
	live bool
}

type MapObj struct {
	ents   []mapEnt
	idx    map[string]int
	nlive  int
	nsym   int // live entries with symbolic keys
	id     uint32
	kt, vt types.Type
	frozen string
}

type MapIter struct {
	m   *MapObj
	pos int
}

type StrIter struct {
	s   V
	pos int
}

// RType is a canonical dynamic type.
type RType struct {
	t  types.Type
	id int
}

// Layout describes the flattening of a type.
type Layout struct {
	n      int
	fields []int // struct field offsets
	elem   *Layout
	alen   int
	leaf   []uint8 // widths of the leaves (scalars) or a marker
	agg    bool
	t      types.Type
}

const (
	leafOther = 255
	leafFloat = 254
	leafStr   = 253
)

func isAgg(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Struct, *types.Array:
		return true
	}
	return false
}

func basicWidth(b *types.Basic) (uint8, bool) {
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return 0, true
	case types.Int8, types.Uint8:
		return 8, true
	case types.Int16, types.Uint16:
		return 16, true
	case types.Int32, types.Uint32, types.UntypedRune:
		return 32, true
	case types.Int, types.Uint, types.Int64, types.Uint64, types.Uintptr, types.UntypedInt:
		return 64, true
	}
	return 0, false
}

func leafKind(t types.Type) uint8 {
	if b, ok := t.Underlying().(*types.Basic); ok {
		if w, ok := basicWidth(b); ok {
			return w
		}
		if b.Info()&types.IsString != 0 {
			return leafStr
		}
		if b.Info()&types.IsFloat != 0 {
			return leafFloat
		}
	}
	return leafOther
}

func isSigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0 && b.Info()&types.IsUnsigned == 0
}

func (w *W) layout(t types.Type) *Layout {
	if l, ok := w.layouts[t]; ok {
		return l
	}
	l := &Layout{t: t}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		l.agg = true
		for i := 0; i < u.NumFields(); i++ {
			l.fields = append(l.fields, l.n)
			fl := w.layout(u.Field(i).Type())
			l.n += fl.n
			l.leaf = append(l.leaf, fl.leaf...)
		}
	case *types.Array:
		l.agg = true
		l.elem = w.layout(u.Elem())
		l.alen = int(u.Len())
		l.n = l.alen * l.elem.n
		l.leaf = make([]uint8, 0, l.n)
		for i := 0; i < l.alen; i++ {
			l.leaf = append(l.leaf, l.elem.leaf...)
		}
	default:
		l.n = 1
		l.leaf = []uint8{leafKind(t)}
	}
	w.layouts[t] = l
	return l
}

func (w *W) newObj(lay *Layout, n int) *Obj {
	w.nextObj++
	o := &Obj{cells: make([]V, n*lay.n), lay: lay, id: w.nextObj, stamp: w.clock}
	if w.base {
		o.stamp = 0
	}
	w.cellsAlloc += n * lay.n
	if lay.n == 1 && lay.leaf[0] != leafOther && lay.leaf[0] >= 8 && lay.leaf[0] <= 64 {
		o.bytes = lay.leaf[0] / 8
	}
	if w.cellsAlloc > w.eng.maxCells {
		panic(pathEnd{kind: endFuel, msg: "memory bound"})
	}
	return o
}

func (w *W) newCells(cells []V) *Obj {
	w.nextObj++
	o := &Obj{cells: cells, id: w.nextObj, stamp: w.clock, lay: w.lay8, bytes: 1}
	if w.base {
		o.stamp = 0
	}
	return o
}

func (w *W) term(v V, width uint8) *Term {
	if t, ok := v.P.(*Term); ok {
		return t
	}
	if v.P != nil {
		if _, gone := v.P.(goneMark); gone {
			_ = v.P.(*Term) // a run-time error, taken for a memory fault
		}
		panic(unsupported(fmt.Sprintf("scalar from %T", v.P)))
	}
	return w.tb.Const(v.N, width)
}

func fromTerm(t *Term) V {
	if t.op == OConst {
		return V{N: t.k}
	}
	return V{P: t}
}

func isSym(v V) bool { _, ok := v.P.(*Term); return ok }

func vbool(b bool) V { return V{N: b2u(b)} }
func vint(i int) V   { return V{N: uint64(i)} }

func vstr(s string) V {
	if s == "" {
		return V{}
	}
	return V{P: &Str{s: s}}
}

func strLen(v V) int {
	if v.P == nil {
		return 0
	}
	s := v.P.(*Str)
	if s.c != nil {
		return len(s.c)
	}
	return len(s.s)
}

// strCells returns the bytes of v as cells (fresh or shared; do not modify).
func strCells(v V) []V {
	if v.P == nil {
		return nil
	}
	s := v.P.(*Str)
	if s.c != nil {
		return s.c
	}
	c := make([]V, len(s.s))
	for i := range c {
		c[i].N = uint64(s.s[i])
	}
	return c
}

// concStr returns the concrete string of v, or ok=false when it has symbolic bytes.
func concStr(v V) (string, bool) {
	if v.P == nil {
		return "", true
	}
	s, ok := v.P.(*Str)
	if !ok {
		panic(unsupported(fmt.Sprintf("string from %T", v.P)))
	}
	if s.c != nil {
		return "", false
	}
	return s.s, true
}

// mkStr makes a string from byte cells (copied only when concrete).
func mkStr(c []V) V {
	if len(c) == 0 {
		return V{}
	}
	for i := range c {
		if c[i].P != nil {
			return V{P: &Str{c: c[:len(c):len(c)]}}
		}
	}
	b := make([]byte, len(c))
	for i := range c {
		b[i] = byte(c[i].N)
	}
	return V{P: &Str{s: string(b)}}
}

func strAt(v V, i int) V {
	s := v.P.(*Str)
	if s.c != nil {
		return s.c[i]
	}
	return V{N: uint64(s.s[i])}
}

func strSlice(v V, i, j int) V {
	if i == j {
		return V{}
	}
	s := v.P.(*Str)
	if s.c != nil {
		return mkStr(s.c[i:j])
	}
	return vstr(s.s[i:j])
}

func strConcat(a, b V) V {
	if a.P == nil {
		return b
	}
	if b.P == nil {
		return a
	}
	x, y := a.P.(*Str), b.P.(*Str)
	if x.c == nil && y.c == nil {
		return vstr(x.s + y.s)
	}
	ca, cb := strCells(a), strCells(b)
	r := make([]V, 0, len(ca)+len(cb))
	r = append(r, ca...)
	r = append(r, cb...)
	return V{P: &Str{c: r}}
}

func (w *W) eqStr(a, b V) *Term {
	if strLen(a) != strLen(b) {
		return w.tb.False
	}
	if sa, ok := concStr(a); ok {
		if sb, ok := concStr(b); ok {
			return w.tb.Bool(sa == sb)
		}
	}
	ca, cb := strCells(a), strCells(b)
	// concrete mismatch first
	for i := range ca {
		if ca[i].P == nil && cb[i].P == nil && ca[i].N != cb[i].N {
			return w.tb.False
		}
	}
	r := w.tb.True
	for i := range ca {
		if ca[i] == cb[i] {
			continue
		}
		r = w.tb.And(r, w.tb.Eq(w.term(ca[i], 8), w.term(cb[i], 8)))
		if r == w.tb.False {
			return r
		}
	}
	return r
}

// ltStr is a < b lexicographically.
func (w *W) ltStr(a, b V) *Term {
	if sa, ok := concStr(a); ok {
		if sb, ok := concStr(b); ok {
			return w.tb.Bool(sa < sb)
		}
	}
	ca, cb := strCells(a), strCells(b)
	n := min(len(ca), len(cb))
	r := w.tb.Bool(len(ca) < len(cb))
	for i := n - 1; i >= 0; i-- {
		x, y := w.term(ca[i], 8), w.term(cb[i], 8)
		r = w.tb.Or(w.tb.Ult(x, y), w.tb.And(w.tb.Eq(x, y), r))
	}
	return r
}

// eqV compares two values of static type t.
func (w *W) eqV(a, b V, t types.Type) *Term {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if wd, ok := basicWidth(u); ok {
			if a.P == nil && b.P == nil {
				return w.tb.Bool(a.N == b.N)
			}
			if _, ok := a.P.(*Obj); ok {
				return w.tb.Bool(a == b)
			}
			if _, ok := b.P.(*Obj); ok {
				return w.tb.Bool(a == b)
			}
			return w.tb.Eq(w.term(a, wd), w.term(b, wd))
		}
		if u.Info()&types.IsString != 0 {
			return w.eqStr(a, b)
		}
		if u.Info()&types.IsFloat != 0 {
			if u.Kind() == types.Float32 {
				return w.tb.Bool(math.Float32frombits(uint32(a.N)) == math.Float32frombits(uint32(b.N)))
			}
			return w.tb.Bool(math.Float64frombits(a.N) == math.Float64frombits(b.N))
		}
		if u.Kind() == types.UnsafePointer || u.Kind() == types.UntypedNil {
			return w.tb.Bool(a == b)
		}
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature, *types.Slice:
		if _, ok := a.P.(*SymPtr); ok {
			panic(unsupported("symptr compare"))
		}
		if sa, ok := a.P.(*Slice); ok {
			return w.tb.Bool(b.P != nil && b.P == any(sa))
		}
		return w.tb.Bool(a == b)
	case *types.Interface:
		if a.P == nil || b.P == nil {
			return w.tb.Bool(a.P == nil && b.P == nil)
		}
		x, y := a.P.(*Iface), b.P.(*Iface)
		if x.t != y.t {
			return w.tb.False
		}
		if !types.Comparable(x.t.t) {
			w.goPanic(w.runtimeError("comparing uncomparable type " + x.t.t.String()))
		}
		return w.eqV(x.v, y.v, x.t.t)
	case *types.Struct:
		l := w.layout(t)
		x, y := aggCells(a, l.n), aggCells(b, l.n)
		r := w.tb.True
		for i := 0; i < u.NumFields(); i++ {
			ft := u.Field(i).Type()
			fl := w.layout(ft)
			r = w.tb.And(r, w.eqV(w.aggSub(x, l.fields[i], fl), w.aggSub(y, l.fields[i], fl), ft))
		}
		return r
	case *types.Array:
		l := w.layout(t)
		x, y := aggCells(a, l.n), aggCells(b, l.n)
		r := w.tb.True
		for i := 0; i < l.alen; i++ {
			r = w.tb.And(r, w.eqV(w.aggSub(x, i*l.elem.n, l.elem), w.aggSub(y, i*l.elem.n, l.elem), u.Elem()))
		}
		return r
	}
	panic(unsupported("compare " + t.String()))
}

var zeroCells [64]V

// aggCells returns the leaves of an aggregate value (zero value: nil P).
func aggCells(v V, n int) []V {
	if v.P == nil {
		if n <= len(zeroCells) {
			return zeroCells[:n]
		}
		return make([]V, n)
	}
	return v.P.(*Agg).c
}

// aggSub extracts the component at leaf offset off with layout l.
func (w *W) aggSub(c []V, off int, l *Layout) V {
	if l.agg {
		return V{P: &Agg{c: c[off : off+l.n : off+l.n]}}
	}
	return c[off]
}

// merge builds ite(c, a, b) for values whose leaf kind is k; ok=false when impossible.
func (w *W) merge(c *Term, a, b V, k uint8) (V, bool) {
	if a == b {
		return a, true
	}
	switch k {
	case leafOther, leafFloat:
		if x, ok := a.P.(*Iface); ok {
			if y, ok := b.P.(*Iface); ok && x.t == y.t {
				l := w.layout(x.t.t)
				if l.agg {
					return V{}, false
				}
				v, ok := w.merge(c, x.v, y.v, l.leaf[0])
				if !ok {
					return V{}, false
				}
				return V{P: &Iface{x.t, v}}, true
			}
		}
		if x, ok := a.P.(*Slice); ok {
			if y, ok := b.P.(*Slice); ok && *x == *y {
				return a, true
			}
		}
		return V{}, false
	case leafStr:
		if strLen(a) != strLen(b) {
			return V{}, false
		}
		ca, cb := strCells(a), strCells(b)
		r := make([]V, len(ca))
		for i := range ca {
			v, ok := w.merge(c, ca[i], cb[i], 8)
			if !ok {
				return V{}, false
			}
			r[i] = v
		}
		return mkStr(r), true
	}
	switch a.P.(type) {
	case nil, *Term:
	default:
		return V{}, false
	}
	switch b.P.(type) {
	case nil, *Term:
	default:
		return V{}, false
	}
	return fromTerm(w.tb.Ite(c, w.term(a, k), w.term(b, k))), true
}

// mergeT merges values of layout l.
func (w *W) mergeT(c *Term, a, b V, l *Layout) (V, bool) {
	if !l.agg {
		return w.merge(c, a, b, l.leaf[0])
	}
	x, y := aggCells(a, l.n), aggCells(b, l.n)
	r := make([]V, l.n)
	for i := range r {
		v, ok := w.merge(c, x[i], y[i], l.leaf[i])
		if !ok {
			return V{}, false
		}
		r[i] = v
	}
	return V{P: &Agg{r}}, true
}

// decodeRune decodes the first rune of byte cells with forks on symbolic bytes.
func (w *W) decodeRune(c []V) (V, int) {
	if len(c) == 0 {
		return V{N: utf8.RuneError}, 0
	}
	n := min(len(c), 4)
	conc := true
	for i := 0; i < n; i++ {
		if c[i].P != nil {
			conc = false
			break
		}
		if i == 0 && c[0].N < 0x80 {
			return V{N: c[0].N}, 1
		}
	}
	if conc {
		var b [4]byte
		for i := 0; i < n; i++ {
			b[i] = byte(c[i].N)
		}
		r, s := utf8.DecodeRune(b[:n])
		return V{N: uint64(uint32(r))}, s
	}
	tb := w.tb
	k := func(x uint64) *Term { return tb.Const(x, 8) }
	b0 := w.term(c[0], 8)
	bad := V{N: utf8.RuneError}
	if w.choose(tb.Ult(b0, k(0x80))) {
		return fromTerm(tb.Zext(b0, 32)), 1
	}
	if !w.choose(tb.And(tb.Ule(k(0xC2), b0), tb.Ule(b0, k(0xF4)))) {
		return bad, 1
	}
	need := 4
	if w.choose(tb.Ult(b0, k(0xE0))) {
		need = 2
	} else if w.choose(tb.Ult(b0, k(0xF0))) {
		need = 3
	}
	if len(c) < 2 {
		return bad, 1
	}
	b1 := w.term(c[1], 8)
	lo, hi := k(0x80), k(0xBF)
	switch need {
	case 3:
		lo = tb.Ite(tb.Eq(b0, k(0xE0)), k(0xA0), lo)
		hi = tb.Ite(tb.Eq(b0, k(0xED)), k(0x9F), hi)
	case 4:
		lo = tb.Ite(tb.Eq(b0, k(0xF0)), k(0x90), lo)
		hi = tb.Ite(tb.Eq(b0, k(0xF4)), k(0x8F), hi)
	}
	if len(c) < need {
		return bad, 1
	}
	ok := tb.And(tb.Ule(lo, b1), tb.Ule(b1, hi))
	for i := 2; i < need; i++ {
		bi := w.term(c[i], 8)
		ok = tb.And(ok, tb.And(tb.Ule(k(0x80), bi), tb.Ule(bi, k(0xBF))))
	}
	if !w.choose(ok) {
		return bad, 1
	}
	var r *Term
	switch need {
	case 2:
		r = tb.Concat(tb.Extract(b0, 4, 0), tb.Extract(b1, 5, 0))
	case 3:
		r = tb.Concat(tb.Concat(tb.Extract(b0, 3, 0), tb.Extract(b1, 5, 0)), tb.Extract(w.term(c[2], 8), 5, 0))
	case 4:
		r = tb.Concat(tb.Concat(tb.Concat(tb.Extract(b0, 2, 0), tb.Extract(b1, 5, 0)), tb.Extract(w.term(c[2], 8), 5, 0)), tb.Extract(w.term(c[3], 8), 5, 0))
	}
	return fromTerm(tb.Zext(r, 32)), need
}

// encodeRune encodes a (possibly symbolic) rune with forks on its length.
func (w *W) encodeRune(r V) []V {
	if r.P == nil {
		s := string(rune(int32(r.N)))
		out := make([]V, len(s))
		for i := range out {
			out[i].N = uint64(s[i])
		}
		return out
	}
	tb := w.tb
	t := w.term(r, 32)
	k := func(x uint64) *Term { return tb.Const(x, 32) }
	cont := func(hi, lo uint8) V {
		return fromTerm(tb.Concat(tb.Const(2, 2), tb.Extract(t, hi, lo)))
	}
	if w.choose(tb.Ult(t, k(0x80))) {
		return []V{fromTerm(tb.Extract(t, 7, 0))}
	}
	if w.choose(tb.Ult(t, k(0x800))) {
		return []V{fromTerm(tb.Concat(tb.Const(6, 3), tb.Extract(t, 10, 6))), cont(5, 0)}
	}
	bad := tb.Or(tb.Ult(k(0x10FFFF), t), tb.And(tb.Ule(k(0xD800), t), tb.Ule(t, k(0xDFFF))))
	if w.choose(bad) {
		return []V{{N: 0xEF}, {N: 0xBF}, {N: 0xBD}}
	}
	if w.choose(tb.Ult(t, k(0x10000))) {
		return []V{fromTerm(tb.Concat(tb.Const(0xE, 4), tb.Extract(t, 15, 12))), cont(11, 6), cont(5, 0)}
	}
	return []V{fromTerm(tb.Concat(tb.Const(0x1E, 5), tb.Extract(t, 20, 18))), cont(17, 12), cont(11, 6), cont(5, 0)}
}
