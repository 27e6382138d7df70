package main

import (
	"fmt"
	"go/types"
	"math"
	"math/bits"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

var intrinsics = map[string]intrinsic{}

func (e *Engine) lookupIntrinsic(fn *ssa.Function, name string) intrinsic {
	if fn.Synthetic == "package initializer" {
		return func(w *W, fn *CFunc, args []V) (V, bool) { return V{}, true }
	}
	if i, ok := intrinsics[name]; ok {
		return i
	}
	if strings.HasPrefix(name, "(*golang.org/x/text/message.Printer).") || strings.HasPrefix(name, "golang.org/x/text/message.") {
		return func(w *W, fn *CFunc, args []V) (V, bool) { return w.zeroOf(fn.fn.Signature.Results()), true }
	}
	if strings.HasPrefix(name, "sync/atomic.") {
		return atomicIntr(strings.TrimPrefix(name, "sync/atomic."))
	}
	if strings.HasPrefix(name, "internal/runtime/atomic.") {
		return atomicIntr(strings.TrimPrefix(name, "internal/runtime/atomic."))
	}
	return nil
}

func (w *W) zeroOf(r *types.Tuple) V {
	if r.Len() <= 1 {
		if r.Len() == 1 {
			l := w.layout(r.At(0).Type())
			if l.agg {
				return V{P: &Agg{make([]V, l.n)}}
			}
		}
		return V{}
	}
	cs := make([]V, r.Len())
	for i := range cs {
		l := w.layout(r.At(i).Type())
		if l.agg {
			cs[i] = V{P: &Agg{make([]V, l.n)}}
		}
	}
	return V{P: &Agg{cs}}
}

func tuple(vs ...V) V { return V{P: &Agg{vs}} }

func nop(w *W, fn *CFunc, args []V) (V, bool) { return w.zeroOf(fn.fn.Signature.Results()), true }

func atomicIntr(name string) intrinsic {
	return func(w *W, fn *CFunc, args []V) (V, bool) {
		lay := w.layout(fn.fn.Signature.Params().At(0).Type().Underlying().(*types.Pointer).Elem())
		switch {
		case strings.HasPrefix(name, "Load"):
			return w.load(args[0], lay), true
		case strings.HasPrefix(name, "Store"):
			w.store(args[0], args[1], lay)
			return V{}, true
		case strings.HasPrefix(name, "Add"), strings.HasPrefix(name, "Xadd"):
			k := lay.leaf[0]
			v := w.load(args[0], lay)
			r := fromTerm(w.tb.Add(w.term(v, k), w.term(args[1], k)))
			w.store(args[0], r, lay)
			return r, true
		case strings.HasPrefix(name, "Swap"):
			v := w.load(args[0], lay)
			w.store(args[0], args[1], lay)
			return v, true
		case strings.HasPrefix(name, "CompareAndSwap"), strings.HasPrefix(name, "Cas"):
			v := w.load(args[0], lay)
			if v == args[1] {
				w.store(args[0], args[2], lay)
				return V{N: 1}, true
			}
			return V{}, true
		}
		return V{}, false
	}
}

func (w *W) symName(base string) string {
	n := w.asgCount[base]
	w.asgCount[base] = n + 1
	w.onUndo(func() { w.asgCount[base] = n })
	return fmt.Sprintf("%s#%d", base, n)
}

// newSym makes a fresh symbolic variable.
func (w *W) newSym(name V, width uint8) *Term {
	if w.base {
		panic(unsupported("symbolic variable in set-up"))
	}
	s, ok := concStr(name)
	if !ok {
		panic(unsupported("symbolic name"))
	}
	n := w.symName(s)
	t := w.tb.Var(n, width)
	w.asg = append(w.asg, asgEnt{name: n, t: t})
	return t
}

// newRanged makes a fresh symbolic variable in lo..hi (unsigned).
func (w *W) newRanged(name V, width uint8, lo, hi uint64) *Term {
	if w.base {
		panic(unsupported("symbolic variable in set-up"))
	}
	s, ok := concStr(name)
	if !ok {
		panic(unsupported("symbolic name"))
	}
	if lo > hi {
		panic(pathEnd{endAssume, ""})
	}
	n := w.symName(s)
	t := w.tb.RVar(n, width, lo, hi)
	w.asg = append(w.asg, asgEnt{name: n, t: t})
	if t.op == OVar {
		if x := w.model.get(t.vars[0]); x < lo || x > hi {
			m := w.newModel(w.model)
			m.set(t.vars[0], lo)
			w.model = m
		}
	}
	return t
}

func (w *W) ranged(t *Term, lo, hi V, width uint8, signed bool) {
	l, h := w.term(lo, width), w.term(hi, width)
	if signed {
		w.assume(w.tb.And(w.tb.Sle(l, t), w.tb.Sle(t, h)))
	} else {
		w.assume(w.tb.And(w.tb.Ule(l, t), w.tb.Ule(t, h)))
	}
}

// sliceStr converts a []byte value to cells.
func (w *W) bytesOf(v V) []V {
	s, _ := v.P.(*Slice)
	if s == nil {
		return nil
	}
	return w.sliceCells(s)
}

func (w *W) mkBytes(c []V) V {
	o := w.newObj(w.lay8, len(c))
	copy(o.cells, c)
	return V{P: &Slice{o, 0, len(c), len(c), 1}}
}

func concBytes(c []V) ([]byte, bool) {
	b := make([]byte, len(c))
	for i := range c {
		if c[i].P != nil {
			return nil, false
		}
		b[i] = byte(c[i].N)
	}
	return b, true
}

func (w *W) ifaceStr(s string) V {
	return V{P: &Iface{w.rtype(types.Typ[types.String]), vstr(s)}}
}

// variadic returns the elements of a ...interface{} slice.
func (w *W) variadic(v V) []V {
	s, _ := v.P.(*Slice)
	if s == nil {
		return nil
	}
	return w.sliceCells(s)
}

func indexByte(w *W, c []V, b V) (V, bool) {
	bt := w.term(b, 8)
	for i := range c {
		if w.choose(w.tb.Eq(w.term(c[i], 8), bt)) {
			return vint(i), true
		}
	}
	return V{N: ^uint64(0)}, true
}

func lastIndexByte(w *W, c []V, b V) (V, bool) {
	bt := w.term(b, 8)
	for i := len(c) - 1; i >= 0; i-- {
		if w.choose(w.tb.Eq(w.term(c[i], 8), bt)) {
			return vint(i), true
		}
	}
	return V{N: ^uint64(0)}, true
}

func (w *W) eqCells(a, b []V) *Term {
	r := w.tb.True
	for i := range a {
		if a[i] == b[i] {
			continue
		}
		r = w.tb.And(r, w.tb.Eq(w.term(a[i], 8), w.term(b[i], 8)))
		if r == w.tb.False {
			return r
		}
	}
	return r
}

func indexCells(w *W, a, b []V) (V, bool) {
	for i := 0; i+len(b) <= len(a); i++ {
		if w.choose(w.eqCells(a[i:i+len(b)], b)) {
			return vint(i), true
		}
	}
	return V{N: ^uint64(0)}, true
}

func countCells(w *W, c []V, b V) (V, bool) {
	n := 0
	bt := w.term(b, 8)
	for i := range c {
		if w.choose(w.tb.Eq(w.term(c[i], 8), bt)) {
			n++
		}
	}
	return vint(n), true
}

func compareCells(w *W, a, b []V) (V, bool) {
	n := min(len(a), len(b))
	for i := 0; i < n; i++ {
		x, y := w.term(a[i], 8), w.term(b[i], 8)
		if w.choose(w.tb.Eq(x, y)) {
			continue
		}
		if w.choose(w.tb.Ult(x, y)) {
			return V{N: ^uint64(0)}, true
		}
		return V{N: 1}, true
	}
	switch {
	case len(a) < len(b):
		return V{N: ^uint64(0)}, true
	case len(a) > len(b):
		return V{N: 1}, true
	}
	return V{}, true
}

func reg(name string, f intrinsic) { intrinsics[name] = f }

// conc1 wraps a native function of one concrete string.
func strFn(name string, f func(w *W, s []string, args []V) V, nstr int) {
	reg(name, func(w *W, fn *CFunc, args []V) (V, bool) {
		var ss []string
		for i := 0; i < nstr; i++ {
			s, ok := concStr(args[i])
			if !ok {
				return V{}, false
			}
			ss = append(ss, s)
		}
		for _, a := range args[nstr:] {
			if isSym(a) {
				return V{}, false
			}
		}
		return f(w, ss, args), true
	})
}

func runeFn(name string, f func(r rune) V) {
	reg(name, func(w *W, fn *CFunc, args []V) (V, bool) {
		if args[0].P != nil {
			return V{}, false
		}
		return f(rune(int32(args[0].N))), true
	})
}

func init() {
	sp := symPath + "."
	scalar := func(name string, width uint8) {
		reg(sp+name, func(w *W, fn *CFunc, args []V) (V, bool) {
			return fromTerm(w.newSym(args[0], width)), true
		})
	}
	scalar("Byte", 8)
	scalar("Bool", 0)
	scalar("Int16", 16)
	scalar("Uint16", 16)
	scalar("Int32", 32)
	scalar("Uint32", 32)
	scalar("Int64", 64)
	scalar("Uint64", 64)
	rangedFn := func(name string, width uint8, vw uint8, signed bool) {
		reg(sp+name, func(w *W, fn *CFunc, args []V) (V, bool) {
			lo, hi := args[1], args[2]
			if lo.P == nil && hi.P == nil && (!signed || sext64(lo.N, width) >= 0 && sext64(hi.N, width) >= 0) {
				return fromTerm(w.newRanged(args[0], width, lo.N&mask(width), hi.N&mask(width))), true
			}
			t := w.newSym(args[0], width)
			w.ranged(t, lo, hi, width, signed)
			return fromTerm(t), true
		})
	}
	rangedFn("within", 64, 64, true)
	rangedFn("Rune", 32, 32, true)
	rangedFn("ByteIn", 8, 8, false)
	reg(sp+"Choose", func(w *W, fn *CFunc, args []V) (V, bool) {
		n := args[1].N
		if n <= 1 {
			return V{}, true
		}
		width := uint8(bits.Len64(n - 1))
		// one path per value
		return V{N: w.pickValue(w.newRanged(args[0], width, 0, n-1), 0, n-1)}, true
	})
	reg(sp+"Pick", func(w *W, fn *CFunc, args []V) (V, bool) {
		// symbolic index 0..n-1 kept symbolic
		n := args[1].N
		if n <= 1 {
			return V{}, true
		}
		width := uint8(bits.Len64(n - 1))
		t := w.newRanged(args[0], width, 0, n-1)
		return fromTerm(w.tb.Zext(t, 64)), true
	})
	reg(sp+"Concrete", func(w *W, fn *CFunc, args []V) (V, bool) {
		return V{N: uint64(w.concInt(args[0], 64, true, "Concrete"))}, true
	})
	reg(sp+"Bytes", func(w *W, fn *CFunc, args []V) (V, bool) {
		n := int(args[1].N)
		c := make([]V, n)
		for i := range c {
			c[i] = fromTerm(w.newSym(args[0], 8))
		}
		return w.mkBytes(c), true
	})
	reg(sp+"String", func(w *W, fn *CFunc, args []V) (V, bool) {
		n := int(args[1].N)
		c := make([]V, n)
		for i := range c {
			c[i] = fromTerm(w.newSym(args[0], 8))
		}
		return mkStr(c), true
	})
	reg(sp+"Ite", func(w *W, fn *CFunc, args []V) (V, bool) {
		return fromTerm(w.tb.Ite(w.term(args[0], 0), w.term(args[1], 64), w.term(args[2], 64))), true
	})
	reg(sp+"And", func(w *W, fn *CFunc, args []V) (V, bool) {
		return fromTerm(w.tb.And(w.term(args[0], 0), w.term(args[1], 0))), true
	})
	reg(sp+"Or", func(w *W, fn *CFunc, args []V) (V, bool) {
		return fromTerm(w.tb.Or(w.term(args[0], 0), w.term(args[1], 0))), true
	})
	reg(sp+"Not", func(w *W, fn *CFunc, args []V) (V, bool) {
		return fromTerm(w.tb.Not(w.term(args[0], 0))), true
	})
	reg(sp+"EqStr", func(w *W, fn *CFunc, args []V) (V, bool) { return fromTerm(w.eqStr(args[0], args[1])), true })
	reg(sp+"EqBytes", func(w *W, fn *CFunc, args []V) (V, bool) {
		a, b := w.bytesOf(args[0]), w.bytesOf(args[1])
		if len(a) != len(b) {
			return V{}, true
		}
		return fromTerm(w.eqCells(a, b)), true
	})
	reg(sp+"Assume", func(w *W, fn *CFunc, args []V) (V, bool) {
		w.assume(w.term(args[0], 0))
		return V{}, true
	})
	reg(sp+"Assert", func(w *W, fn *CFunc, args []V) (V, bool) {
		msg, _ := concStr(args[1])
		w.assert(w.term(args[0], 0), msg)
		return V{}, true
	})
	reg(sp+"Fail", func(w *W, fn *CFunc, args []V) (V, bool) {
		msg, _ := concStr(args[0])
		w.assert(w.tb.False, msg)
		return V{}, true
	})
	reg(sp+"Reach", func(w *W, fn *CFunc, args []V) (V, bool) {
		l, _ := concStr(args[0])
		w.reach = append(w.reach, l)
		return V{}, true
	})
	reg(sp+"Symbolic", func(w *W, fn *CFunc, args []V) (V, bool) { return V{N: 1}, true })
	reg(sp+"Thorough", func(w *W, fn *CFunc, args []V) (V, bool) { return vbool(w.eng.thorough), true })
	reg(sp+"Observe", func(w *W, fn *CFunc, args []V) (V, bool) {
		l, _ := concStr(args[0])
		for _, a := range w.variadic(args[1]) {
			// strings and byte slices are snapshotted
			if i, ok := a.P.(*Iface); ok {
				w.obs = append(w.obs, obsEnt{l, w.snapshot(i.v, i.t.t), i.t.t})
			} else {
				w.obs = append(w.obs, obsEnt{l, V{}, types.Typ[types.UntypedNil]})
			}
		}
		return V{}, true
	})
	reg(sp+"Freeze", func(w *W, fn *CFunc, args []V) (V, bool) {
		label, _ := concStr(args[0])
		var ex []V
		for _, a := range w.variadic(args[1]) {
			ex = append(ex, a)
		}
		w.freeze(label, ex)
		return V{}, true
	})
	reg(sp+"FreezeGlobals", func(w *W, fn *CFunc, args []V) (V, bool) {
		label, _ := concStr(args[0])
		var ex []V
		for path, p := range w.eng.pkgs {
			if path != modPath && path != modPath+"/dictionary" && path != modPath+"/dartsclone" {
				continue
			}
			w.initPkg(p)
			for name, m := range p.Members {
				g, ok := m.(*ssa.Global)
				if !ok || strings.HasPrefix(strings.ToLower(name), "zz") || strings.Contains(name, "$") {
					continue
				}
				ex = append(ex, V{P: w.globalObj(g)})
			}
		}
		w.freeze(label, ex)
		return V{}, true
	})
	reg(sp+"Unfreeze", func(w *W, fn *CFunc, args []V) (V, bool) { w.unfreeze(); return V{}, true })
	reg(sp+"Skip", func(w *W, fn *CFunc, args []V) (V, bool) { panic(pathEnd{endAssume, ""}) })

	// ---- runtime-ish ----
	for _, n := range []string{"runtime.GC", "runtime.KeepAlive", "runtime.SetFinalizer", "runtime.Gosched",
		"(*sync.Mutex).Lock", "(*sync.Mutex).Unlock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).Unlock",
		"(*sync.RWMutex).RLock", "(*sync.RWMutex).RUnlock", "(*sync.Pool).Put",
		"(*internal/sync.Mutex).Lock", "(*internal/sync.Mutex).Unlock",
		"internal/race.Acquire", "internal/race.Release", "internal/race.ReleaseMerge", "internal/race.Disable", "internal/race.Enable",
		"internal/race.ReadRange", "internal/race.WriteRange", "internal/race.Read", "internal/race.Write",
		"time.Sleep", "flag.PrintDefaults", "(*flag.FlagSet).PrintDefaults", "(*log.Logger).Println", "log.Println", "log.Printf", "log.Print"} {
		reg(n, nop)
	}
	reg("(*sync.Mutex).TryLock", func(w *W, fn *CFunc, args []V) (V, bool) { return V{N: 1}, true })
	reg("(*sync.Pool).Get", func(w *W, fn *CFunc, args []V) (V, bool) {
		st := fn.fn.Signature.Recv().Type().Underlying().(*types.Pointer).Elem()
		l := w.layout(st)
		su := st.Underlying().(*types.Struct)
		for i := 0; i < su.NumFields(); i++ {
			if su.Field(i).Name() == "New" {
				o := args[0].P.(*Obj)
				f := w.getCell(o, int(args[0].N)+l.fields[i])
				cl, ok := f.P.(*Closure)
				if !ok {
					return V{}, true
				}
				if cl.native != nil {
					return cl.native(w, nil), true
				}
				return V{P: &tailCall{cl.fn, nil, cl.bind}}, true
			}
		}
		return V{}, true
	})
	reg("(*sync.Once).Do", func(w *W, fn *CFunc, args []V) (V, bool) {
		o := args[0].P.(*Obj)
		// the first integer-like leaf serves as the done flag
		i := int(args[0].N)
		l := w.layout(fn.fn.Signature.Recv().Type().Underlying().(*types.Pointer).Elem())
		for j, k := range l.leaf {
			if k >= 8 && k <= 64 {
				i += j
				break
			}
		}
		if w.getCell(o, i).N != 0 {
			return V{}, true
		}
		w.setCell(o, i, V{N: 1})
		cl := args[1].P.(*Closure)
		if cl.native != nil {
			cl.native(w, nil)
			return V{}, true
		}
		return V{P: &tailCall{cl.fn, nil, cl.bind}}, true
	})
	ident := func(w *W, fn *CFunc, args []V) (V, bool) { return args[0], true }
	reg("internal/abi.NoEscape", ident)
	reg("internal/abi.Escape", ident)
	reg("strings.noescape", ident)
	reg("(*strings.Builder).copyCheck", nop)
	reg("internal/bytealg.MakeNoZero", func(w *W, fn *CFunc, args []V) (V, bool) {
		n := w.concInt(args[0], 64, true, "MakeNoZero")
		if n < 0 || n > w.eng.maxCells {
			w.goPanicStr("makeslice: len out of range")
		}
		c := n
		for _, sc := range []int{8, 16, 24, 32, 48, 64, 80, 96, 112, 128} {
			if n <= sc && n > 0 {
				c = sc
				break
			}
		}
		o := w.newObj(w.lay8, c)
		return V{P: &Slice{o, 0, n, c, 1}}, true
	})
	reg("internal/bytealg.IndexByte", func(w *W, fn *CFunc, a []V) (V, bool) { return indexByte(w, w.bytesOf(a[0]), a[1]) })
	reg("internal/bytealg.IndexByteString", func(w *W, fn *CFunc, a []V) (V, bool) { return indexByte(w, strCells(a[0]), a[1]) })
	reg("internal/bytealg.LastIndexByte", func(w *W, fn *CFunc, a []V) (V, bool) { return lastIndexByte(w, w.bytesOf(a[0]), a[1]) })
	reg("internal/bytealg.LastIndexByteString", func(w *W, fn *CFunc, a []V) (V, bool) { return lastIndexByte(w, strCells(a[0]), a[1]) })
	reg("internal/bytealg.Count", func(w *W, fn *CFunc, a []V) (V, bool) { return countCells(w, w.bytesOf(a[0]), a[1]) })
	reg("internal/bytealg.CountString", func(w *W, fn *CFunc, a []V) (V, bool) { return countCells(w, strCells(a[0]), a[1]) })
	reg("internal/bytealg.Index", func(w *W, fn *CFunc, a []V) (V, bool) { return indexCells(w, w.bytesOf(a[0]), w.bytesOf(a[1])) })
	reg("internal/bytealg.IndexString", func(w *W, fn *CFunc, a []V) (V, bool) { return indexCells(w, strCells(a[0]), strCells(a[1])) })
	reg("internal/bytealg.Equal", func(w *W, fn *CFunc, a []V) (V, bool) {
		x, y := w.bytesOf(a[0]), w.bytesOf(a[1])
		if len(x) != len(y) {
			return V{}, true
		}
		return fromTerm(w.eqCells(x, y)), true
	})
	reg("internal/bytealg.Compare", func(w *W, fn *CFunc, a []V) (V, bool) { return compareCells(w, w.bytesOf(a[0]), w.bytesOf(a[1])) })
	reg("internal/bytealg.CompareString", func(w *W, fn *CFunc, a []V) (V, bool) { return compareCells(w, strCells(a[0]), strCells(a[1])) })
	reg("bytes.Equal", intrinsics["internal/bytealg.Equal"])
	reg("bytes.Compare", intrinsics["internal/bytealg.Compare"])
	reg("strings.Compare", intrinsics["internal/bytealg.CompareString"])
	reg("strings.IndexByte", intrinsics["internal/bytealg.IndexByteString"])
	reg("bytes.IndexByte", intrinsics["internal/bytealg.IndexByte"])
	reg("strings.Index", intrinsics["internal/bytealg.IndexString"])
	reg("bytes.Index", intrinsics["internal/bytealg.Index"])
	reg("strings.Contains", func(w *W, fn *CFunc, a []V) (V, bool) {
		r, _ := indexCells(w, strCells(a[0]), strCells(a[1]))
		return vbool(int64(r.N) >= 0), true
	})
	reg("strings.HasPrefix", func(w *W, fn *CFunc, a []V) (V, bool) {
		n := strLen(a[1])
		if strLen(a[0]) < n {
			return V{}, true
		}
		return fromTerm(w.eqStr(strSlice(a[0], 0, n), a[1])), true
	})
	reg("strings.HasSuffix", func(w *W, fn *CFunc, a []V) (V, bool) {
		n, m := strLen(a[1]), strLen(a[0])
		if m < n {
			return V{}, true
		}
		return fromTerm(w.eqStr(strSlice(a[0], m-n, m), a[1])), true
	})
	reg("bytes.HasPrefix", func(w *W, fn *CFunc, a []V) (V, bool) {
		x, y := w.bytesOf(a[0]), w.bytesOf(a[1])
		if len(x) < len(y) {
			return V{}, true
		}
		return fromTerm(w.eqCells(x[:len(y)], y)), true
	})
	reg("bytes.HasSuffix", func(w *W, fn *CFunc, a []V) (V, bool) {
		x, y := w.bytesOf(a[0]), w.bytesOf(a[1])
		if len(x) < len(y) {
			return V{}, true
		}
		return fromTerm(w.eqCells(x[len(x)-len(y):], y)), true
	})
	reg("strings.Clone", ident)
	// joins are worth doing natively
	reg("strings.Join", func(w *W, fn *CFunc, a []V) (V, bool) {
		var r V
		for i, e := range w.variadic(a[0]) {
			if i > 0 {
				r = strConcat(r, a[1])
			}
			r = strConcat(r, e)
		}
		return r, true
	})
	strFn("strings.TrimSpace", func(w *W, s []string, a []V) V { return vstr(strings.TrimSpace(s[0])) }, 1)
	strFn("strings.ToLower", func(w *W, s []string, a []V) V { return vstr(strings.ToLower(s[0])) }, 1)
	strFn("strings.ToUpper", func(w *W, s []string, a []V) V { return vstr(strings.ToUpper(s[0])) }, 1)
	strFn("strings.Split", func(w *W, s []string, a []V) V { return w.mkStrs(strings.Split(s[0], s[1])) }, 2)
	strFn("strings.Fields", func(w *W, s []string, a []V) V { return w.mkStrs(strings.Fields(s[0])) }, 1)

	// ---- utf8 ----
	reg("unicode/utf8.DecodeRune", func(w *W, fn *CFunc, a []V) (V, bool) {
		r, n := w.decodeRune(w.bytesOf(a[0]))
		return tuple(r, vint(n)), true
	})
	reg("unicode/utf8.DecodeRuneInString", func(w *W, fn *CFunc, a []V) (V, bool) {
		c := strCells(a[0])
		r, n := w.decodeRune(c)
		return tuple(r, vint(n)), true
	})
	reg("unicode/utf8.RuneCountInString", func(w *W, fn *CFunc, a []V) (V, bool) { return w.runeCount(strCells(a[0])), true })
	reg("unicode/utf8.RuneCount", func(w *W, fn *CFunc, a []V) (V, bool) { return w.runeCount(w.bytesOf(a[0])), true })
	reg("unicode/utf8.EncodeRune", func(w *W, fn *CFunc, a []V) (V, bool) {
		c := w.encodeRune(a[1])
		s, _ := a[0].P.(*Slice)
		if s == nil || s.len < len(c) {
			w.goPanicStr("index out of range in EncodeRune")
		}
		for i := range c {
			w.setCell(s.obj, s.off+i, c[i])
		}
		return vint(len(c)), true
	})
	reg("unicode/utf8.AppendRune", func(w *W, fn *CFunc, a []V) (V, bool) {
		c := w.encodeRune(a[1])
		s, _ := a[0].P.(*Slice)
		return w.appendCells(a[0], s, c, w.lay8), true
	})
	runeFn("unicode/utf8.RuneLen", func(r rune) V { return vint(utf8.RuneLen(r)) })
	runeFn("unicode/utf8.ValidRune", func(r rune) V { return vbool(utf8.ValidRune(r)) })
	for n, f := range map[string]func(rune) bool{"IsDigit": unicode.IsDigit, "IsLetter": unicode.IsLetter, "IsUpper": unicode.IsUpper,
		"IsLower": unicode.IsLower, "IsSpace": unicode.IsSpace, "IsNumber": unicode.IsNumber, "IsPunct": unicode.IsPunct} {
		f := f
		runeFn("unicode."+n, func(r rune) V { return vbool(f(r)) })
	}
	runeFn("unicode.ToLower", func(r rune) V { return V{N: uint64(uint32(unicode.ToLower(r)))} })
	runeFn("unicode.ToUpper", func(r rune) V { return V{N: uint64(uint32(unicode.ToUpper(r)))} })

	// ---- strconv ----
	reg("strconv.Itoa", func(w *W, fn *CFunc, a []V) (V, bool) {
		if t, ok := a[0].P.(*Term); ok {
			return w.decimal(t, true), true
		}
		return vstr(strconv.Itoa(int(a[0].N))), true
	})
	reg("strconv.FormatInt", func(w *W, fn *CFunc, a []V) (V, bool) {
		if t, ok := a[0].P.(*Term); ok && a[1].P == nil && a[1].N == 10 {
			return w.decimal(t, true), true
		}
		if a[0].P != nil || a[1].P != nil {
			return V{}, false
		}
		return vstr(strconv.FormatInt(int64(a[0].N), int(a[1].N))), true
	})

	// ---- math ----
	reg("math.Float64bits", ident)
	reg("math.Float64frombits", ident)
	reg("math.Float32bits", ident)
	reg("math.Float32frombits", ident)
	fl := func(name string, f func(float64) float64) {
		reg("math."+name, func(w *W, fn *CFunc, a []V) (V, bool) {
			if a[0].P != nil {
				panic(unsupported("symbolic float"))
			}
			return V{N: math.Float64bits(f(math.Float64frombits(a[0].N)))}, true
		})
	}
	fl("Floor", math.Floor)
	fl("Ceil", math.Ceil)
	fl("Trunc", math.Trunc)
	fl("Sqrt", math.Sqrt)
	fl("Abs", math.Abs)
	fl("Log", math.Log)
	fl("Exp", math.Exp)
	fl("Log10", math.Log10)
	fl("Log2", math.Log2)
	fl("Round", math.Round)
	fl("sqrt", math.Sqrt)

	// ---- sort helpers ----
	reg("internal/reflectlite.Swapper", func(w *W, fn *CFunc, a []V) (V, bool) {
		i, _ := a[0].P.(*Iface)
		s, _ := i.v.P.(*Slice)
		el := w.layout(i.t.t.Underlying().(*types.Slice).Elem())
		return V{P: &Closure{name: "swapper", native: func(w *W, args []V) V {
			x := w.concInt(args[0], 64, true, "swap")
			y := w.concInt(args[1], 64, true, "swap")
			p, q := V{P: s.obj, N: uint64(s.off + x*s.esz)}, V{P: s.obj, N: uint64(s.off + y*s.esz)}
			u, v := w.load(p, el), w.load(q, el)
			w.store(p, v, el)
			w.store(q, u, el)
			return V{}
		}}}, true
	})
	reg("internal/reflectlite.ValueOf", func(w *W, fn *CFunc, a []V) (V, bool) {
		l := w.layout(fn.fn.Signature.Results().At(0).Type())
		c := make([]V, l.n)
		c[0] = a[0]
		return V{P: &Agg{c}}, true
	})
	reg("(internal/reflectlite.Value).Len", func(w *W, fn *CFunc, a []V) (V, bool) {
		i := a[0].P.(*Agg).c[0].P.(*Iface)
		if s, ok := i.v.P.(*Slice); ok {
			return vint(s.len), true
		}
		return V{}, true
	})
	reg("math/bits.TrailingZeros64", nil)
	delete(intrinsics, "math/bits.TrailingZeros64")

	// ---- errors ----
	reg("errors.Is", func(w *W, fn *CFunc, a []V) (V, bool) {
		x := a[0]
		for n := 0; n < 10; n++ {
			i, _ := x.P.(*Iface)
			if i == nil {
				return vbool(a[1].P == nil && n == 0), true
			}
			if j, _ := a[1].P.(*Iface); j != nil && i.t == j.t && i.v == j.v {
				return V{N: 1}, true
			}
			if w.isTarget(a[1], "ErrNotExist") && w.isOSError(x, "no such file or directory", "ErrNotExist") || w.isTarget(a[1], "ErrExist") && w.isOSError(x, "file exists", "ErrExist") {
				return V{N: 1}, true
			}
			u := w.unwrapErr(x)
			if u.P == nil {
				return V{}, true
			}
			x = u
		}
		return V{}, true
	})

	// ---- time ----
	// a fixed time: 1573000000 s after 1970
	reg("time.Now", func(w *W, fn *CFunc, a []V) (V, bool) {
		r := w.zeroOf(fn.fn.Signature.Results())
		r.P.(*Agg).c[1] = V{N: 1573000000 + 62135596800}
		return r, true
	})
	reg("time.runtimeNano", func(w *W, fn *CFunc, a []V) (V, bool) { return V{N: 1000000}, true })
	reg("time.runtimeNow", func(w *W, fn *CFunc, a []V) (V, bool) { return V{N: 1000000}, true })
	reg("time.runtimeIsBubbled", func(w *W, fn *CFunc, a []V) (V, bool) { return V{}, true })
	reg("time.Since", func(w *W, fn *CFunc, a []V) (V, bool) { return V{N: 1000000}, true })
}

func (w *W) runeCount(c []V) V {
	n := 0
	for len(c) > 0 {
		_, s := w.decodeRune(c)
		c = c[s:]
		n++
	}
	return vint(n)
}

func (w *W) mkStrs(ss []string) V {
	lay := w.layout(types.Typ[types.String])
	o := w.newObj(lay, len(ss))
	for i, s := range ss {
		o.cells[i] = vstr(s)
	}
	return V{P: &Slice{o, 0, len(ss), len(ss), 1}}
}

// snapshot copies the observable content of v.
func (w *W) snapshot(v V, t types.Type) V {
	if s, ok := v.P.(*Slice); ok {
		c := append([]V(nil), w.sliceCells(s)...)
		el := t.Underlying().(*types.Slice).Elem()
		return V{P: &Slice{&Obj{cells: c, lay: w.layout(el)}, 0, s.len, s.len, s.esz}}
	}
	return v
}

// freeze marks everything reachable from roots as read-only.
func (w *W) freeze(label string, roots []V) {
	seen := map[any]bool{}
	var walk func(v V)
	walkCells := func(c []V) {
		for _, x := range c {
			if x.P != nil {
				walk(x)
			}
		}
	}
	walk = func(v V) {
		switch x := v.P.(type) {
		case *Obj:
			if seen[x] {
				return
			}
			seen[x] = true
			if x.view != nil {
				walk(V{P: x.view.base})
			}
			old := x.frozen
			x.frozen = label
			w.onUndo(func() { x.frozen = old })
			for _, vo := range x.views {
				walk(V{P: vo})
			}
			walkCells(x.cells)
		case *Slice:
			walk(V{P: x.obj})
		case *Iface:
			walk(x.v)
		case *Agg:
			walkCells(x.c)
		case *Closure:
			walkCells(x.bind)
		case *MapObj:
			if seen[x] {
				return
			}
			seen[x] = true
			old := x.frozen
			x.frozen = label
			w.onUndo(func() { x.frozen = old })
			for _, e := range x.ents {
				walk(e.k)
				walk(e.v)
			}
		}
	}
	for _, r := range roots {
		walk(r)
	}
}

func (w *W) unfreeze() { panic(unsupported("Unfreeze")) }

// ---- value formatting ----

// fmtModel formats v under the current model, as the native side does with %v.
func (w *W) fmtModel(v V, t types.Type) string {
	ev := func(x V, k uint8) uint64 {
		if s, ok := x.P.(*Term); ok {
			return w.tb.eval(s, w.model)
		}
		return x.N
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if k, ok := basicWidth(u); ok {
			if v.P != nil && !isSym(v) {
				return "?"
			}
			n := ev(v, k)
			if k == 0 {
				return strconv.FormatBool(n != 0)
			}
			if isSigned(t) {
				return strconv.FormatInt(sext64(n, k), 10)
			}
			return strconv.FormatUint(n, 10)
		}
		if u.Info()&types.IsString != 0 {
			c := strCells(v)
			b := make([]byte, len(c))
			for i := range c {
				b[i] = byte(ev(c[i], 8))
			}
			return strconv.Quote(string(b))
		}
		return "?"
	case *types.Slice:
		s, _ := v.P.(*Slice)
		if s == nil {
			return "[]"
		}
		var sb strings.Builder
		sb.WriteByte('[')
		l := w.layout(u.Elem())
		for i := 0; i < s.len; i++ {
			if i > 0 {
				sb.WriteByte(' ')
			}
			sb.WriteString(w.fmtModel(w.load(V{P: s.obj, N: uint64(s.off + i*s.esz)}, l), u.Elem()))
		}
		sb.WriteByte(']')
		return sb.String()
	case *types.Interface:
		i, _ := v.P.(*Iface)
		if i == nil {
			return "nil"
		}
		return w.fmtModel(i.v, i.t.t)
	}
	if t == types.Typ[types.UntypedNil] {
		return "nil"
	}
	return "?"
}

func (w *W) unwrapErr(x V) V {
	i, _ := x.P.(*Iface)
	if i == nil {
		return V{}
	}
	if p, ok := i.t.t.(*types.Pointer); ok {
		if st, ok := p.Elem().Underlying().(*types.Struct); ok {
			for k := 0; k < st.NumFields(); k++ {
				n := st.Field(k).Name()
				if n == "err" || n == "Err" {
					if o, ok := i.v.P.(*Obj); ok {
						return w.getCell(o, int(i.v.N)+w.layout(p.Elem()).fields[k])
					}
				}
			}
		}
	}
	return V{}
}

// errText gives the text of an error value when it can be computed.
func (w *W) errText(x V) V {
	i, _ := x.P.(*Iface)
	if i == nil {
		return vstr("<nil>")
	}
	if i.t == w.eng.rtErrType {
		return strConcat(vstr("runtime error: "), i.v)
	}
	o, _ := i.v.P.(*Obj)
	get := func(k int) V { return w.getCell(o, int(i.v.N)+k) }
	switch i.t.t.String() {
	case "*errors.errorString", "*fmt.wrapError", "*fmt.fmtError", "*fmt.wrapErrors":
		return get(0)
	case "*strconv.NumError", "*internal/strconv.NumError":
		return strConcat(strConcat(vstr("strconv."), get(0)), strConcat(strConcat(vstr(": parsing "), get(1)), strConcat(vstr(": "), w.errText(get(2)))))
	case "*io/fs.PathError":
		return strConcat(strConcat(get(0), vstr(" ")), strConcat(get(1), strConcat(vstr(": "), w.errText(get(2)))))
	}
	return vstr("<" + i.t.t.String() + ">")
}
