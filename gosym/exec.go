package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"runtime"
	"sort"
	"strings"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Decision struct {
	val    uint64 // concretization value
	isVal  bool
	taken  bool
	forced bool
}

type ChoicePoint struct {
	top    *Frame
	trail  int
	pc     int
	prefix []Decision // decisions of the whole path up to the instruction start
	local  []Decision // decisions inside the instruction, ending with the flipped one
	model  *Model
	steps  int64
	obs    int
	clock  uint64
	asg    int
	asgs   []asgEnt // variables created before the instruction (read when the point is given away)
	cells  int
	reach  int
	fsOpen int
}

type trailEnt struct {
	obj  *Obj
	off  int
	old  V
	undo func()
}

type endKind int

const (
	endOK endKind = iota
	endAssume
	endFuel
	endUnsupported
	endUnknown
	endViolation
	endExit
	endStop
)

type pathEnd struct {
	kind endKind
	msg  string
}

type unsupportedErr string

func unsupported(s string) unsupportedErr { return unsupportedErr(s) }

type specAbort struct{ why string }

type goPanicSig struct{}

type PanicRec struct {
	val V // interface value
	rt  bool
	pos string
}

type deferRec struct {
	callee V
	args   []V
	native func(w *W, args []V) V
}

type Frame struct {
	fn        *CFunc
	regs      []V
	pc        int
	caller    *Frame
	shared    bool
	defers    []deferRec
	isDefer   bool
	panicking *PanicRec
	recovered bool
	discard   bool // result is not written to the caller
}

type Job struct {
	decs  []Decision
	model map[string]uint64
}

// W is one worker: an interpreter with its own terms, solver and base memory.
type W struct {
	eng       *Engine
	id        int
	tb        *TB
	sol       *Solver
	lia       *LIA
	funcs     map[*ssa.Function]*CFunc
	globals   map[*ssa.Global]*Obj
	layouts   map[types.Type]*Layout
	rtypes    map[types.Type]*RType
	reflTypes map[*RType]*Obj
	methods   map[methKey]*CFunc
	lay8      *Layout

	exitCode int64 // of the last RunMain
	inited   map[*ssa.Package]int
	logf     func(string, ...any)

	top        *Frame
	trail      []trailEnt
	cps        []*ChoicePoint
	clock      uint64
	cpClock    uint64
	pc         []*Term
	model      *Model
	decs       []Decision
	replay     []Decision
	replayPos  int
	instrTrail int
	instrPC    int
	instrDecs  int
	instrAsg   int
	steps      int64
	ticks      int64
	nextObj    uint32
	cellsAlloc int
	obs        []obsEnt
	asg        []asgEnt // symbolic variables created on the path, in order
	asgCount   map[string]int
	reach      []string
	base       bool // executing set-up code: no trail, no forks
	spec       int
	specG      *Term
	qcache     map[string]*qres
	nativeRet  V
	fs         *VFS
	res        *HarnessResult
	stopAt     time.Time
	curPos     token.Pos
	concLimit  int
	prevBlock  int
}

type qres struct {
	r    satResult
	vars []int32
	vals []uint64
}

type asgEnt struct {
	name string
	t    *Term
	lo   int64
	kind string
}

type obsEnt struct {
	label string
	v     V
	t     types.Type
}

type methKey struct {
	t  *RType
	id string
}

func (w *W) goPanicStr(msg string) {
	w.goPanic(w.runtimeError(msg))
}

// runtimeError makes an interface value of dynamic type runtime.Error-like.
func (w *W) runtimeError(msg string) V {
	return V{P: &Iface{w.eng.rtErrType, vstr(msg)}}
}

// goPanic raises a Go panic in the interpreted program.
func (w *W) goPanic(val V) {
	if w.spec > 0 {
		panic(specAbort{"panic"})
	}
	rt := false
	if i, ok := val.P.(*Iface); ok && i.t == w.eng.rtErrType {
		rt = true
	}
	w.top.panicking = &PanicRec{val: val, rt: rt, pos: w.where()}
	w.top.recovered = false
	panic(goPanicSig{})
}

func (w *W) where() string {
	var sb strings.Builder
	n := 0
	for f := w.top; f != nil && n < 8; f = f.caller {
		if n > 0 {
			sb.WriteString(" < ")
		}
		sb.WriteString(strings.ReplaceAll(f.fn.name, modPath, "gosudachi"))
		if f.pc < len(f.fn.pos) {
			p := w.eng.fset.Position(f.fn.pos[f.pc])
			if p.IsValid() {
				sb.WriteString(fmt.Sprintf("(%s:%d)", shortFile(p.Filename), p.Line))
			}
		}
		n++
	}
	return sb.String()
}

func shortFile(s string) string {
	if i := strings.LastIndexByte(s, '/'); i >= 0 {
		return s[i+1:]
	}
	return s
}

// ---- memory ----

func (w *W) getCell(o *Obj, i int) V {
	if o.view != nil {
		return w.viewLoad(o, i)
	}
	return o.cells[i]
}

func (w *W) setCell(o *Obj, i int, v V) {
	if o.frozen != "" {
		w.frozenWrite(o.frozen)
	}
	if o.view != nil {
		w.viewStore(o, i, v)
		return
	}
	if w.spec > 0 {
		if o.what == "fresh-in-spec" {
			panic(specAbort{"x"})
		}
		old := o.cells[i]
		if w.specG != w.tb.True {
			k := uint8(leafOther)
			if o.lay != nil && o.lay.n > 0 {
				k = o.lay.leaf[i%o.lay.n]
			}
			m, ok := w.merge(w.specG, v, old, k)
			if !ok {
				panic(specAbort{"store merge"})
			}
			v = m
		}
		w.trail = append(w.trail, trailEnt{obj: o, off: i, old: old})
		o.cells[i] = v
		return
	}
	if o.stamp < w.cpClock && !w.base {
		w.trail = append(w.trail, trailEnt{obj: o, off: i, old: o.cells[i]})
	}
	o.cells[i] = v
}

func (w *W) onUndo(f func()) {
	if w.base {
		return
	}
	w.trail = append(w.trail, trailEnt{undo: f})
}

func (w *W) undoTo(n int) {
	for i := len(w.trail) - 1; i >= n; i-- {
		e := &w.trail[i]
		if e.undo != nil {
			e.undo()
		} else {
			e.obj.cells[e.off] = e.old
		}
		*e = trailEnt{}
	}
	w.trail = w.trail[:n]
}

func (w *W) viewObj(o *Obj, off int, to uint8) *Obj {
	if o.view != nil {
		// view of a view: go to the base
		b := o.view
		boff := b.off + off*int(b.to)/int(b.from)
		if b.from == to {
			if boff == 0 {
				return b.base
			}
		}
		return w.viewObj(b.base, boff, to)
	}
	if o.views == nil {
		o.views = map[[2]int]*Obj{}
	}
	key := [2]int{off, int(to)}
	if v, ok := o.views[key]; ok {
		return v
	}
	w.nextObj++
	v := &Obj{id: w.nextObj, stamp: o.stamp, view: &View{o, off, o.bytes, to}, bytes: to, frozen: o.frozen}
	o.views[key] = v
	return v
}

func (w *W) viewLoad(o *Obj, i int) V {
	vw := o.view
	if vw.from < vw.to {
		r := int(vw.to / vw.from)
		var n uint64
		var t *Term
		for j := 0; j < r; j++ {
			c := vw.base.cells[vw.off+i*r+j]
			if c.P != nil || t != nil {
				ct := w.term(c, vw.from*8)
				if t == nil {
					if j > 0 {
						t = w.tb.Concat(ct, w.tb.Const(n, uint8(j)*vw.from*8))
					} else {
						t = ct
					}
				} else {
					t = w.tb.Concat(ct, t)
				}
			} else {
				n |= c.N << (uint(j) * uint(vw.from) * 8)
			}
		}
		if t != nil {
			return fromTerm(t)
		}
		return V{N: n}
	}
	r := int(vw.from / vw.to)
	c := vw.base.cells[vw.off+i/r]
	sh := uint8(i%r) * vw.to * 8
	if t, ok := c.P.(*Term); ok {
		return fromTerm(w.tb.Extract(t, sh+vw.to*8-1, sh))
	}
	return V{N: c.N >> sh & mask(vw.to*8)}
}

func (w *W) viewStore(o *Obj, i int, v V) {
	vw := o.view
	if vw.from < vw.to {
		r := int(vw.to / vw.from)
		for j := 0; j < r; j++ {
			sh := uint8(j) * vw.from * 8
			var x V
			if t, ok := v.P.(*Term); ok {
				x = fromTerm(w.tb.Extract(t, sh+vw.from*8-1, sh))
			} else {
				x = V{N: v.N >> sh & mask(vw.from*8)}
			}
			w.setCell(vw.base, vw.off+i*r+j, x)
		}
		return
	}
	r := int(vw.from / vw.to)
	c := vw.base.cells[vw.off+i/r]
	sh := uint8(i%r) * vw.to * 8
	t := w.term(c, vw.from*8)
	var nt *Term
	if sh+vw.to*8 < vw.from*8 {
		nt = w.tb.Extract(t, vw.from*8-1, sh+vw.to*8)
	}
	nt = w.tb.Concat(nt, w.term(v, vw.to*8))
	if sh > 0 {
		nt = w.tb.Concat(nt, w.tb.Extract(t, sh-1, 0))
	}
	w.setCell(vw.base, vw.off+i/r, fromTerm(nt))
}

func (w *W) nilDeref() {
	w.goPanicStr("invalid memory address or nil pointer dereference")
}

func (w *W) load(p V, l *Layout) V {
	switch o := p.P.(type) {
	case *Obj:
		if !l.agg {
			v := w.getCell(o, int(p.N))
			if q, ok := v.P.(*Obj); ok {
				if _, isSl := l.t.Underlying().(*types.Slice); isSl {
					return w.castSlice(o, int(p.N), q, l.t.Underlying().(*types.Slice))
				}
			}
			if q, ok := v.P.(*Slice); ok {
				if b, isB := l.t.Underlying().(*types.Basic); isB && b.Kind() == types.String {
					return w.aliasStr(q)
				}
			}
			return v
		}
		if l.n == 0 {
			return V{}
		}
		if o.view != nil {
			c := make([]V, l.n)
			for i := range c {
				c[i] = w.viewLoad(o, int(p.N)+i)
			}
			return V{P: &Agg{c}}
		}
		c := make([]V, l.n)
		copy(c, o.cells[p.N:])
		return V{P: &Agg{c}}
	case *SymPtr:
		return w.loadSym(o, l)
	case nil:
		w.nilDeref()
	}
	panic(unsupported(fmt.Sprintf("load through %T", p.P)))
}

// castSlice reads {uintptr,len,cap} at o[i:] as a slice (the unsafe header idiom).
func (w *W) castSlice(o *Obj, i int, data *Obj, st *types.Slice) V {
	if i+2 >= len(o.cells) {
		panic(unsupported("slice header cast"))
	}
	n, c := o.cells[i+1], o.cells[i+2]
	el := w.layout(st.Elem())
	to := el.leaf[0] / 8
	off := int(o.cells[i].N)
	if data.bytes == to {
		return V{P: &Slice{data, off, int(n.N), int(c.N), 1}}
	}
	if data.bytes == 0 || el.n != 1 {
		panic(unsupported("slice header cast of non-integers"))
	}
	v := w.viewObj(data, off, to)
	return V{P: &Slice{v, 0, int(n.N), int(c.N), 1}}
}

func (w *W) store(p V, v V, l *Layout) {
	switch o := p.P.(type) {
	case *Obj:
		if !l.agg {
			w.setCell(o, int(p.N), v)
			return
		}
		c := aggCells(v, l.n)
		for i := 0; i < l.n; i++ {
			w.setCell(o, int(p.N)+i, c[i])
		}
		return
	case *SymPtr:
		w.storeSym(o, v, l)
		return
	case nil:
		w.nilDeref()
	}
	panic(unsupported(fmt.Sprintf("store through %T", p.P)))
}

// symRange returns the range of element indexes possible by intervals.
func symRange(o *SymPtr) (int, int) {
	lo, hi := 0, o.n-1
	if o.idx.lo > uint64(lo) {
		lo = int(min(o.idx.lo, uint64(o.n)))
	}
	if o.idx.hi < uint64(hi) {
		hi = int(o.idx.hi)
	}
	return lo, hi
}

func (w *W) loadSym(o *SymPtr, l *Layout) V {
	c := make([]V, l.n)
	for j := 0; j < l.n; j++ {
		v, ok := w.loadSymCell(o, j, l.leaf[j])
		if !ok {
			if w.spec > 0 {
				panic(specAbort{"symload"})
			}
			i := w.concretize(o.idx, "index")
			return w.load(V{P: o.obj, N: uint64(o.off + int(i)*o.esz)}, l)
		}
		c[j] = v
	}
	if !l.agg {
		return c[0]
	}
	return V{P: &Agg{c}}
}

type run struct {
	from, to int
	v        V
}

func (w *W) loadSymCell(o *SymPtr, j int, k uint8) (V, bool) {
	lo, hi := symRange(o)
	if hi-lo > 2 {
		if vals, ok := w.possible(o.idx); ok {
			var runs []run
			for _, x := range vals {
				if x >= uint64(o.n) {
					continue
				}
				i := int(x)
				v := w.getCell(o.obj, o.off+i*o.esz+j)
				if n := len(runs); n > 0 && runs[n-1].v == v {
					runs[n-1].to = i
				} else {
					runs = append(runs, run{i, i, v})
				}
			}
			return w.loadRuns(o, runs, k)
		}
	}
	var runs []run
	for i := lo; i <= hi; i++ {
		v := w.getCell(o.obj, o.off+i*o.esz+j)
		if n := len(runs); n > 0 && runs[n-1].v == v {
			runs[n-1].to = i
		} else {
			runs = append(runs, run{i, i, v})
		}
	}
	return w.loadRuns(o, runs, k)
}

func (w *W) loadRuns(o *SymPtr, runs []run, k uint8) (V, bool) {
	if len(runs) == 0 {
		return V{}, true
	}
	if len(runs) == 1 {
		return runs[0].v, true
	}
	if k == leafOther || k == leafFloat {
		return V{}, false
	}
	if k == leafStr {
		n := strLen(runs[0].v)
		for _, r := range runs {
			if strLen(r.v) != n {
				return V{}, false
			}
		}
	}
	if len(runs) > 4096 {
		return V{}, false
	}
	return w.runTree(runs, o.idx, k)
}

func (w *W) runTree(runs []run, idx *Term, k uint8) (V, bool) {
	// isolated exceptional value: use equality tests, otherwise a balanced comparison tree
	if len(runs) == 1 {
		return runs[0].v, true
	}
	if len(runs) == 3 && runs[0].v == runs[2].v && runs[1].from == runs[1].to {
		return w.merge(w.tb.Eq(idx, w.tb.Const(uint64(runs[1].from), idx.w)), runs[1].v, runs[0].v, k)
	}
	m := len(runs) / 2
	a, ok := w.runTree(runs[:m], idx, k)
	if !ok {
		return V{}, false
	}
	b, ok := w.runTree(runs[m:], idx, k)
	if !ok {
		return V{}, false
	}
	return w.merge(w.tb.Ult(idx, w.tb.Const(uint64(runs[m].from), idx.w)), a, b, k)
}

func (w *W) storeSym(o *SymPtr, v V, l *Layout) {
	lo, hi := symRange(o)
	c := []V{v}
	if l.agg {
		c = aggCells(v, l.n)
	}
	if hi-lo > 512 {
		lo, hi = 0, -1
	} else {
		// test mergeability first
		for i := lo; i <= hi; i++ {
			for j := 0; j < l.n; j++ {
				if l.leaf[j] == leafOther || l.leaf[j] == leafFloat || l.leaf[j] == leafStr {
					lo, hi = 0, -1
				}
			}
		}
	}
	if hi < lo {
		if w.spec > 0 {
			panic(specAbort{"symstore"})
		}
		i := w.concretize(o.idx, "store index")
		w.store(V{P: o.obj, N: uint64(o.off + int(i)*o.esz)}, v, l)
		return
	}
	for i := lo; i <= hi; i++ {
		g := w.tb.Eq(o.idx, w.tb.Const(uint64(i), o.idx.w))
		for j := 0; j < l.n; j++ {
			p := o.off + i*o.esz + j
			m, ok := w.merge(g, c[j], w.getCell(o.obj, p), l.leaf[j])
			if !ok {
				panic(unsupported("sym store merge"))
			}
			w.setCell(o.obj, p, m)
		}
	}
}

// ---- decisions ----

// domain returns the values variable vi may have by the path conditions about it alone, if few.
func (w *W) domain(vi int32) ([]uint64, bool) {
	v := w.tb.vars[vi]
	n := v.domSize()
	if n == 0 {
		return nil, false
	}
	ok := make([]bool, n)
	left := n
	for i := range ok {
		ok[i] = true
	}
	for _, c := range w.pc {
		if len(c.vars) == 1 && c.vars[0] == vi && c.tab != nil {
			for i := range ok {
				if ok[i] && c.tab[i] == 0 {
					ok[i] = false
					left--
				}
			}
		}
	}
	r := make([]uint64, 0, left)
	for i := range ok {
		if ok[i] {
			r = append(r, v.tab[i])
		}
	}
	return r, true
}

// assignments calls f with models for all combinations of values of t's variables allowed by
// the path conditions about single variables; it reports false if these are too many.
func (w *W) assignments(t *Term, limit int, f func(m *Model) bool) bool {
	if len(t.vars) > 6 || len(t.vars) == 0 {
		return false
	}
	doms := make([][]uint64, len(t.vars))
	n := 1
	for i, vi := range t.vars {
		d, ok := w.domain(vi)
		if !ok || len(d) == 0 {
			return false
		}
		doms[i] = d
		n *= len(d)
		if n > limit {
			return false
		}
	}
	idx := make([]int, len(doms))
	for {
		m := w.newModel(w.model)
		for i, vi := range t.vars {
			m.set(vi, doms[i][idx[i]])
		}
		if !f(m) {
			return true
		}
		k := 0
		for k < len(idx) {
			idx[k]++
			if idx[k] < len(doms[k]) {
				break
			}
			idx[k] = 0
			k++
		}
		if k == len(idx) {
			return true
		}
	}
}

// possible lists (a superset of) the values t may have on this path, in order, if they are few.
func (w *W) possible(t *Term) ([]uint64, bool) {
	set := map[uint64]bool{}
	if !w.assignments(t, 256, func(m *Model) bool {
		set[w.tb.eval(t, m)] = true
		return true
	}) {
		return nil, false
	}
	r := make([]uint64, 0, len(set))
	for x := range set {
		r = append(r, x)
	}
	sort.Slice(r, func(i, j int) bool { return r[i] < r[j] })
	return r, true
}

// byDomain decides a branch condition over variables with few values without the solver.
func (w *W) byDomain(c *Term) (satResult, *Model) {
	if c.size > 3000 {
		return resUnknown, nil
	}
	var cs []*Term
	var found *Model
	any := false
	if !w.assignments(c, 256, func(m *Model) bool {
		if w.tb.eval(c, m) == 0 {
			return true
		}
		if !any {
			any = true
			cs = w.slice(c)
		}
		for _, x := range cs {
			if w.tb.eval(x, m) == 0 {
				return true
			}
		}
		found = m
		return false
	}) {
		return resUnknown, nil
	}
	if found != nil {
		atomic.AddInt64(&stats.DomainHits, 1)
		return resSat, found
	}
	if !any {
		atomic.AddInt64(&stats.DomainHits, 1)
		return resUnsat, nil
	}
	return resUnknown, nil
}

// solveBranch decides pc ∧ c for a branch condition.
func (w *W) solveBranch(c *Term) (satResult, *Model) {
	if c.op != OConst {
		if r, m := w.byDomain(c); r != resUnknown {
			return r, m
		}
	}
	return w.solve(c)
}

func (w *W) slice(c *Term) []*Term {
	// constraints transitively sharing variables with c
	if len(c.vars) == 0 {
		return nil
	}
	n := len(w.pc)
	used := make([]bool, n)
	vs := map[int32]bool{}
	for _, v := range c.vars {
		vs[v] = true
	}
	for changed := true; changed; {
		changed = false
		for i := n - 1; i >= 0; i-- {
			if used[i] {
				continue
			}
			hit := false
			for _, v := range w.pc[i].vars {
				if vs[v] {
					hit = true
					break
				}
			}
			if hit {
				used[i] = true
				changed = true
				for _, v := range w.pc[i].vars {
					vs[v] = true
				}
			}
		}
	}
	var r []*Term
	for i := 0; i < n; i++ {
		if used[i] {
			r = append(r, w.pc[i])
		}
	}
	return r
}

// solve decides pc ∧ c; on sat it returns a model of the whole path condition plus c.
func (w *W) solve(c *Term) (satResult, *Model) {
	if c.op == OConst {
		if c.k == 0 {
			return resUnsat, nil
		}
		return resSat, w.model
	}
	cs := append(w.slice(c), c)
	ids := make([]uint32, 0, len(cs))
	for _, t := range cs {
		ids = append(ids, t.id)
	}
	sort.Slice(ids, func(i, j int) bool { return ids[i] < ids[j] })
	kb := make([]byte, 0, len(ids)*4)
	for i, x := range ids {
		if i > 0 && ids[i-1] == x {
			continue
		}
		kb = append(kb, byte(x), byte(x>>8), byte(x>>16), byte(x>>24))
	}
	key := string(kb)
	q, ok := w.qcache[key]
	if ok {
		atomic.AddInt64(&stats.CacheHits, 1)
	} else {
		var vars []int32
		for _, t := range cs {
			vars = mergeVars(vars, t.vars)
		}
		if m := w.guess(cs, c); m != nil {
			atomic.AddInt64(&stats.ModelHits, 1)
			return resSat, m
		}
		r, vals := resUnknown, []uint64(nil)
		if w.tb.useLIA(cs) {
			r, vals = w.lia.check(cs, vars)
		}
		if r == resUnknown {
			r, vals = w.sol.check(cs, vars)
		}
		q = &qres{r, vars, vals}
		if r != resUnknown {
			if len(w.qcache) > 400000 {
				w.qcache = map[string]*qres{}
			}
			w.qcache[key] = q
		}
	}
	if q.r != resSat {
		return q.r, nil
	}
	m := w.newModel(w.model)
	for i, v := range q.vars {
		m.set(v, q.vals[i])
	}
	return resSat, m
}

// guess looks for a model of cs close to the current one: one variable of c set to one of
// the constants c mentions or a neighbour. Any model found satisfies all of cs.
func (w *W) guess(cs []*Term, c *Term) *Model {
	if len(c.vars) > 4 || c.size > 200 {
		return nil
	}
	var ks []uint64
	var collect func(t *Term, d int)
	collect = func(t *Term, d int) {
		if t == nil || d == 0 || len(ks) >= 6 {
			return
		}
		if t.op == OConst {
			if t.w > 0 {
				ks = append(ks, t.k)
			}
			return
		}
		collect(t.a, d-1)
		collect(t.b, d-1)
		collect(t.c, d-1)
	}
	collect(c, 5)
	for _, vi := range c.vars {
		v := w.tb.vars[vi]
		cur := w.model.get(vi)
		try := func(x uint64) *Model {
			if x == cur || x < v.lo || x > v.hi {
				return nil
			}
			m := w.newModel(w.model)
			m.set(vi, x)
			if w.tb.eval(c, m) == 0 {
				return nil
			}
			for _, t := range cs {
				if w.tb.eval(t, m) == 0 {
					return nil
				}
			}
			return m
		}
		for _, k := range ks {
			for d := uint64(0); d < 3; d++ {
				if m := try((k + d - 1) & mask(v.w)); m != nil {
					return m
				}
			}
		}
		if m := try(v.lo); m != nil {
			return m
		}
		if m := try(v.hi); m != nil {
			return m
		}
		for _, t := range c.vars {
			if t != vi {
				if m := try(w.model.get(t)); m != nil {
					return m
				}
			}
		}
	}
	return nil
}

func (w *W) newModel(from *Model) *Model {
	w.tb.stamp++
	m := &Model{stamp: w.tb.stamp}
	if from != nil {
		m.vals = append([]uint64(nil), from.vals...)
	}
	return m
}

func (m *Model) set(i int32, v uint64) {
	for len(m.vals) <= int(i) {
		m.vals = append(m.vals, 0)
	}
	m.vals[i] = v
}

func (w *W) addPC(c *Term) {
	if c.op == OConst {
		return
	}
	if c.op == OAnd {
		w.addPC(c.a)
		w.addPC(c.b)
		return
	}
	w.pc = append(w.pc, c)
}

func (w *W) pushCP(flip Decision, m *Model) {
	top := *w.top
	top.regs = append([]V(nil), w.top.regs...)
	w.ticks |= 0x3ff // look at the clock soon: a fork costs solver time
	for f := top.caller; f != nil && !f.shared; f = f.caller {
		f.shared = true
	}
	local := make([]Decision, 0, len(w.decs)-w.instrDecs+1)
	local = append(local, w.decs[w.instrDecs:]...)
	local = append(local, flip)
	cp := &ChoicePoint{top: &top, trail: w.instrTrail, pc: w.instrPC, prefix: append([]Decision(nil), w.decs[:w.instrDecs]...),
		local: local, model: m, steps: w.steps, obs: len(w.obs), asg: w.instrAsg, asgs: w.asg[:len(w.asg):len(w.asg)], cells: w.cellsAlloc, reach: len(w.reach)}
	w.clock++
	cp.clock = w.clock
	w.cpClock = w.clock
	w.cps = append(w.cps, cp)
	w.res.forks.Add(1)
	if debugForks {
		countFork(w.where())
	}
}

// choose decides a symbolic condition, forking when both sides are feasible.
func (w *W) choose(c *Term) bool {
	if c.op == OConst {
		return c.k != 0
	}
	if w.spec > 0 {
		panic(specAbort{"choose"})
	}
	if w.base {
		panic(unsupported("symbolic decision in set-up"))
	}
	if w.replayPos < len(w.replay) {
		d := w.replay[w.replayPos]
		w.replayPos++
		w.decs = append(w.decs, d)
		if !d.forced {
			if d.taken {
				w.addPC(c)
			} else {
				w.addPC(w.tb.Not(c))
			}
		}
		return d.taken
	}
	mv := w.tb.eval(c, w.model) != 0
	side, other := c, w.tb.Not(c)
	if !mv {
		side, other = other, side
	}
	r, m2 := w.solveBranch(other)
	switch r {
	case resUnsat:
		w.decs = append(w.decs, Decision{taken: mv, forced: true})
		return mv
	case resUnknown:
		w.res.note("unknown", "solver gave no answer for a branch at "+w.where())
		w.addPC(side)
		w.decs = append(w.decs, Decision{taken: mv})
		return mv
	}
	w.pushCP(Decision{taken: !mv}, m2)
	w.addPC(side)
	w.decs = append(w.decs, Decision{taken: mv})
	return mv
}

// concretize picks a value for t, forking over all others.
func (w *W) concretize(t *Term, why string) uint64 {
	if t.op == OConst {
		return t.k
	}
	if w.spec > 0 {
		panic(specAbort{"concretize"})
	}
	if w.base {
		panic(unsupported("symbolic value in set-up"))
	}
	for n := 0; ; n++ {
		if n > w.concLimit {
			panic(pathEnd{endFuel, "too many values for " + why + " at " + w.where()})
		}
		if w.replayPos < len(w.replay) {
			d := w.replay[w.replayPos]
			w.replayPos++
			w.decs = append(w.decs, d)
			eq := w.tb.Eq(t, w.tb.Const(d.val, t.w))
			if d.taken {
				if !d.forced {
					w.addPC(eq)
				}
				return d.val
			}
			w.addPC(w.tb.Not(eq))
			continue
		}
		v := w.tb.eval(t, w.model)
		eq := w.tb.Eq(t, w.tb.Const(v, t.w))
		r, m2 := w.solveBranch(w.tb.Not(eq))
		if r == resUnsat {
			w.decs = append(w.decs, Decision{taken: true, forced: true, val: v, isVal: true})
			return v
		}
		if r == resUnknown {
			w.res.note("unknown", "solver gave no answer for "+why+" at "+w.where())
		} else {
			w.pushCP(Decision{taken: false, val: v, isVal: true}, m2)
		}
		w.addPC(eq)
		w.decs = append(w.decs, Decision{taken: true, val: v, isVal: true})
		return v
	}
}

// pickValue chooses among the values lo..hi of a fresh variable, forking over the others
// without asking the solver.
func (w *W) pickValue(t *Term, lo, hi uint64) uint64 {
	if t.op == OConst {
		return t.k
	}
	if w.spec > 0 {
		panic(specAbort{"choose"})
	}
	v := lo
	for w.replayPos < len(w.replay) {
		d := w.replay[w.replayPos]
		w.replayPos++
		w.decs = append(w.decs, d)
		if d.taken {
			v = d.val
			goto done
		}
		v = d.val + 1
	}
	if v < hi {
		m := w.newModel(w.model)
		m.set(t.vars[0], v+1)
		w.pushCP(Decision{taken: false, val: v, isVal: true}, m)
	}
	w.decs = append(w.decs, Decision{taken: true, val: v, isVal: true})
done:
	if w.model.get(t.vars[0]) != v {
		m := w.newModel(w.model)
		m.set(t.vars[0], v)
		w.model = m
	}
	return v
}

// concInt returns v as an int, forking over its values when symbolic.
func (w *W) concInt(v V, width uint8, signed bool, why string) int {
	if t, ok := v.P.(*Term); ok {
		n := w.concretize(t, why)
		if signed {
			return int(sext64(n, width))
		}
		return int(n)
	}
	if signed {
		return int(sext64(v.N, width))
	}
	return int(v.N)
}

func (w *W) assume(c *Term) {
	if c.op == OConst {
		if c.k == 0 {
			panic(pathEnd{endAssume, ""})
		}
		return
	}
	if w.tb.eval(c, w.model) != 0 {
		w.addPC(c)
		return
	}
	r, m := w.solve(c)
	switch r {
	case resUnsat:
		panic(pathEnd{endAssume, ""})
	case resUnknown:
		panic(pathEnd{endUnknown, "solver gave no answer for an assumption at " + w.where()})
	}
	w.model = m
	w.addPC(c)
}

func (w *W) assert(c *Term, msg string) {
	w.res.asserts.Add(1)
	if c == w.tb.True {
		w.res.assertsTrivial.Add(1)
		return
	}
	if w.base {
		panic(unsupported("assert in set-up: " + msg))
	}
	if w.replayPos < len(w.replay) {
		w.addPC(c)
		if c == w.tb.False {
			panic(pathEnd{endViolation, msg})
		}
		return
	}
	neg := w.tb.Not(c)
	var r satResult
	var m *Model
	if neg.op != OConst && w.tb.eval(neg, w.model) != 0 {
		r, m = resSat, w.model
	} else {
		r, m = w.solve(neg)
	}
	switch r {
	case resUnsat:
		return
	case resUnknown:
		w.res.note("unknown", "solver gave no answer for assertion "+msg)
		w.addPC(c)
		return
	}
	w.violation(msg, m)
	if c == w.tb.False {
		panic(pathEnd{endViolation, msg})
	}
	// continue with the assertion assumed
	w.assume(c)
}

func (w *W) frozenWrite(label string) {
	if w.base || w.spec > 0 {
		if w.spec > 0 {
			panic(specAbort{"frozen"})
		}
		return
	}
	w.violation("write to shared "+label, w.model)
}

func (w *W) assignment(m *Model) map[string]uint64 {
	r := map[string]uint64{}
	for _, a := range w.asg {
		r[a.name] = w.tb.eval(a.t, m)
	}
	return r
}

func (w *W) violation(msg string, m *Model) {
	w.res.addViolation(&Violation{Harness: w.res.h.Name, Msg: msg, Where: w.where(), Asg: w.assignment(m), Steps: w.steps})
}

// ---- the main loop ----

func (w *W) run() (end pathEnd) {
	for {
		done, e := w.runSome()
		if done {
			return e
		}
	}
}

func (w *W) runSome() (done bool, end pathEnd) {
	defer func() {
		if r := recover(); r != nil {
			switch x := r.(type) {
			case pathEnd:
				done, end = true, x
			case unsupportedErr:
				done, end = true, pathEnd{endUnsupported, string(x) + " at " + w.where()}
			case goPanicSig:
				done, end = w.unwind()
			case specAbort:
				done, end = true, pathEnd{endUnsupported, "internal: stray specAbort " + x.why + " at " + w.where()}
			default:
				if _, is := r.(runtime.Error); is && w.fs.gone > 0 && w.spec == 0 {
					w.top.panicking = &PanicRec{val: w.runtimeError("invalid memory address: no longer mapped"), rt: true, pos: w.where()}
					w.top.recovered = false
					done, end = w.unwind()
					return
				}
				if os.Getenv("GOSYM_CRASH") != "" {
					panic(r)
				}
				done, end = true, pathEnd{endUnsupported, fmt.Sprintf("internal: %v at %s", r, w.where())}
			}
		}
	}()
	for {
		f := w.top
		if f == nil {
			return true, pathEnd{endOK, ""}
		}
		w.instrTrail = len(w.trail)
		w.instrPC = len(w.pc)
		w.instrDecs = len(w.decs)
		w.instrAsg = len(w.asg)
		w.steps++
		w.ticks++
		if w.steps&0x3fff == 0 && w.steps > w.eng.fuel && !w.base {
			return true, pathEnd{endFuel, "step bound at " + w.where()}
		}
		if w.ticks&0x3ff == 0 {
			if w.eng.stopped.Load() || time.Now().After(w.stopAt) {
				return true, pathEnd{endStop, "time bound"}
			}
		}
		f.fn.code[f.pc](w, f)
	}
}

// unwind continues a Go panic from w.top; returns done when it is uncaught.
func (w *W) unwind() (bool, pathEnd) {
	f := w.top
	for {
		if n := len(f.defers); n > 0 {
			d := f.defers[n-1]
			f.defers = f.defers[: n-1 : n-1]
			w.top = f
			if d.native != nil {
				d.native(w, d.args)
				continue
			}
			w.pushCall(d.callee, d.args, true)
			return false, pathEnd{}
		}
		rec := f.panicking
		c := f.caller
		if c == nil {
			w.top = f
			return w.uncaught(rec)
		}
		if c.shared {
			c = c.clone()
		}
		if f.isDefer {
			// a panic in a deferred call replaces the caller's panic
			c.panicking = rec
			c.recovered = false
		} else {
			c.panicking = rec
			c.recovered = false
		}
		f = c
		w.top = f
	}
}

func (w *W) uncaught(rec *PanicRec) (bool, pathEnd) {
	msg := "panic: " + w.panicText(rec.val)
	w.res.addViolation(&Violation{Harness: w.res.h.Name, Msg: msg, Where: rec.pos, Asg: w.assignment(w.model), Steps: w.steps, Panic: true})
	return true, pathEnd{endViolation, msg}
}

func (w *W) panicText(v V) string {
	i, ok := v.P.(*Iface)
	if !ok {
		return "nil"
	}
	if i.t == w.eng.rtErrType {
		s, _ := concStr(i.v)
		return "runtime error: " + s
	}
	return w.fmtValue(v, 'v', nil)
}

func (f *Frame) clone() *Frame {
	g := *f
	g.shared = false
	g.regs = append([]V(nil), f.regs...)
	return &g
}

// doReturn pops the current frame.
func (w *W) doReturn(res V) {
	f := w.top
	c := f.caller
	if c == nil {
		w.top = nil
		return
	}
	if c.shared {
		c = c.clone()
	}
	w.top = c
	if f.isDefer {
		if c.panicking != nil {
			if c.recovered {
				c.panicking = nil
				c.recovered = false
				if rb := c.fn.recoverPC; rb >= 0 {
					// remaining defers run first
					c.pc = rb
					if len(c.defers) > 0 {
						c.pc = c.fn.runDefersThenRecover
					}
				} else {
					if len(c.defers) > 0 {
						c.pc = c.fn.runDefersThenRecover
					} else {
						w.doReturn(w.zeroResult(c.fn))
					}
				}
				return
			}
			panic(goPanicSig{})
		}
		return // RunDefers instruction runs again
	}
	if f.discard {
		return
	}
	dst := c.fn.dst[c.pc]
	if dst >= 0 {
		c.regs[dst] = res
	}
	c.pc++
}

func (w *W) zeroResult(fn *CFunc) V {
	r := fn.fn.Signature.Results()
	if r.Len() <= 1 {
		return V{}
	}
	return V{P: &Agg{make([]V, r.Len())}}
}

// restore resumes the newest choice point.
func (w *W) restore() {
	n := len(w.cps) - 1
	cp := w.cps[n]
	w.cps[n] = nil
	w.cps = w.cps[:n]
	w.undoTo(cp.trail)
	if n > 0 {
		w.cpClock = w.cps[n-1].clock
	} else {
		w.cpClock = w.eng1Clock()
	}
	w.top = cp.top
	w.pc = w.pc[:cp.pc]
	w.decs = append(w.decs[:0], cp.prefix...)
	w.replay = cp.local
	w.replayPos = 0
	w.model = cp.model
	w.steps = cp.steps
	w.obs = w.obs[:cp.obs]
	w.asg = w.asg[:cp.asg]
	w.cellsAlloc = cp.cells
	w.reach = w.reach[:cp.reach]
	w.spec = 0
}

func (w *W) eng1Clock() uint64 { return 1 }
