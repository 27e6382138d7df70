package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// CFunc is a compiled function (per worker).
type CFunc struct {
	fn                   *ssa.Function
	name                 string
	nregs                int
	nparams              int
	code                 []func(w *W, f *Frame)
	pos                  []token.Pos
	dst                  []int
	compiled             bool
	blockPC              []int
	recoverPC            int
	runDefersThenRecover int
	intr                 intrinsic
	regOf                map[ssa.Value]int
	phiMoves             map[[2]int][]phiMove
	regions              map[int]*region
	pure                 *region
	pureTried            bool
	calls                int64
	resLay               []*Layout
}

type intrinsic func(w *W, fn *CFunc, args []V) (V, bool)

type opnd struct {
	reg int
	k   V
}

func (o opnd) get(f *Frame) V {
	if o.reg >= 0 {
		return f.regs[o.reg]
	}
	return o.k
}

type phiMove struct {
	dst int
	src opnd
	lay *Layout
}

func (w *W) cfunc(fn *ssa.Function) *CFunc {
	if c, ok := w.funcs[fn]; ok {
		return c
	}
	c := &CFunc{fn: fn, name: fn.RelString(nil), recoverPC: -1}
	if fn.Pkg == nil && fn.Origin() != nil {
		c.name = fn.Origin().RelString(nil)
	}
	c.intr = w.eng.lookupIntrinsic(fn, c.name)
	w.funcs[fn] = c
	return c
}

func fnPkg(fn *ssa.Function) *ssa.Package {
	for fn != nil {
		if fn.Pkg != nil {
			return fn.Pkg
		}
		if fn.Origin() != nil {
			fn = fn.Origin()
			continue
		}
		if fn.Parent() != nil {
			fn = fn.Parent()
			continue
		}
		break
	}
	return nil
}

func (w *W) ensureCompiled(c *CFunc) {
	if c.compiled {
		return
	}
	fn := c.fn
	if p := fnPkg(fn); p != nil {
		w.eng.buildPkg(p)
		w.initPkg(p)
	}
	if c.compiled { // init may have compiled it
		return
	}
	if fn.Blocks == nil {
		panic(unsupported("no body for " + c.name))
	}
	w.eng.noteEncoded(c)
	w.compile(c)
}

func (w *W) constV(c *ssa.Const) V {
	t := c.Type()
	if c.Value == nil {
		return V{}
	}
	if tp, ok := t.(*types.TypeParam); ok {
		_ = tp
		panic(unsupported("type parameter constant"))
	}
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		panic(unsupported("constant of type " + t.String()))
	}
	switch {
	case b.Info()&types.IsBoolean != 0:
		return vbool(constant.BoolVal(c.Value))
	case b.Info()&types.IsString != 0:
		if c.Value.Kind() == constant.String {
			return vstr(constant.StringVal(c.Value))
		}
		return vstr(string(rune(c.Int64())))
	case b.Info()&types.IsInteger != 0:
		wd, _ := basicWidth(b)
		v := constant.ToInt(c.Value)
		if u, ok := constant.Uint64Val(v); ok {
			return V{N: u & mask(wd)}
		}
		i, _ := constant.Int64Val(v)
		return V{N: uint64(i) & mask(wd)}
	case b.Info()&types.IsFloat != 0:
		f, _ := constant.Float64Val(c.Value)
		if b.Kind() == types.Float32 {
			return V{N: uint64(math.Float32bits(float32(f)))}
		}
		return V{N: math.Float64bits(f)}
	}
	panic(unsupported("constant " + c.String()))
}

func (w *W) globalObj(g *ssa.Global) *Obj {
	if o, ok := w.globals[g]; ok {
		return o
	}
	w.nextObj++
	lay := w.layout(g.Type().(*types.Pointer).Elem())
	o := &Obj{cells: make([]V, lay.n), lay: lay, id: w.nextObj, stamp: 0, what: "global " + g.String()}
	w.globals[g] = o
	if g.Pkg != nil {
		w.eng.buildPkg(g.Pkg)
		w.initPkg(g.Pkg)
	}
	return o
}

func (w *W) operand(c *CFunc, v ssa.Value) opnd {
	switch x := v.(type) {
	case *ssa.Const:
		return opnd{-1, w.constV(x)}
	case *ssa.Global:
		return opnd{-1, V{P: w.globalObj(x)}}
	case *ssa.Function:
		return opnd{-1, V{P: &Closure{fn: w.cfunc(x)}}}
	case *ssa.Builtin:
		return opnd{-1, V{}}
	}
	r, ok := c.regOf[v]
	if !ok {
		panic(fmt.Sprintf("no register for %s in %s", v, c.name))
	}
	return opnd{reg: r}
}

func (w *W) compile(c *CFunc) {
	fn := c.fn
	c.compiled = true
	c.regOf = map[ssa.Value]int{}
	n := 0
	for _, p := range fn.Params {
		c.regOf[p] = n
		n++
	}
	for _, p := range fn.FreeVars {
		c.regOf[p] = n
		n++
	}
	c.nparams = n
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			if v, ok := ins.(ssa.Value); ok {
				c.regOf[v] = n
				n++
			}
		}
	}
	c.nregs = n
	// layout of code
	c.blockPC = make([]int, len(fn.Blocks))
	pc := 0
	for _, b := range fn.Blocks {
		c.blockPC[b.Index] = pc
		for _, ins := range b.Instrs {
			switch ins.(type) {
			case *ssa.Phi, *ssa.DebugRef:
				continue
			}
			pc++
		}
	}
	// phi moves
	c.phiMoves = map[[2]int][]phiMove{}
	for _, b := range fn.Blocks {
		for pi, p := range b.Preds {
			var mv []phiMove
			for _, ins := range b.Instrs {
				phi, ok := ins.(*ssa.Phi)
				if !ok {
					break
				}
				mv = append(mv, phiMove{c.regOf[phi], w.operand(c, phi.Edges[pi]), w.layout(phi.Type())})
			}
			if mv != nil {
				c.phiMoves[[2]int{p.Index, b.Index}] = mv
			}
		}
	}
	res := fn.Signature.Results()
	for i := 0; i < res.Len(); i++ {
		c.resLay = append(c.resLay, w.layout(res.At(i).Type()))
	}
	c.regions = map[int]*region{}
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			switch ins.(type) {
			case *ssa.Phi, *ssa.DebugRef:
				continue
			}
			dst := -1
			if v, ok := ins.(ssa.Value); ok {
				dst = c.regOf[v]
			}
			code := w.compileInstr(c, b, ins, dst)
			c.code = append(c.code, code)
			p := ins.Pos()
			if p == token.NoPos {
				for _, op := range ins.Operands(nil) {
					if op != nil && *op != nil && (*op).Pos() != token.NoPos {
						if _, isF := (*op).(*ssa.Function); !isF {
							if _, isG := (*op).(*ssa.Global); !isG {
								p = (*op).Pos()
								break
							}
						}
					}
				}
			}
			c.pos = append(c.pos, p)
			c.dst = append(c.dst, dst)
		}
	}
	if fn.Recover != nil {
		c.recoverPC = c.blockPC[fn.Recover.Index]
	}
	c.runDefersThenRecover = len(c.code)
	c.code = append(c.code, func(w *W, f *Frame) {
		if n := len(f.defers); n > 0 {
			w.runOneDefer(f)
			return
		}
		if c.recoverPC >= 0 {
			f.pc = c.recoverPC
			return
		}
		w.doReturn(w.zeroResult(c))
	})
	c.pos = append(c.pos, fn.Pos())
	c.dst = append(c.dst, -1)
}

func (w *W) runOneDefer(f *Frame) {
	n := len(f.defers)
	d := f.defers[n-1]
	f.defers = f.defers[: n-1 : n-1]
	if d.native != nil {
		d.native(w, d.args)
		return
	}
	w.pushCall(d.callee, d.args, true)
}

// jumpTo moves control along an edge, doing the phi moves.
func (w *W) jumpTo(f *Frame, mv []phiMove, pc int) {
	switch len(mv) {
	case 0:
	case 1:
		f.regs[mv[0].dst] = mv[0].src.get(f)
	default:
		var buf [16]V
		vals := buf[:0]
		for i := range mv {
			vals = append(vals, mv[i].src.get(f))
		}
		for i := range mv {
			f.regs[mv[i].dst] = vals[i]
		}
	}
	f.pc = pc
}

// pushCall starts a call of a function value.
func (w *W) pushCall(callee V, args []V, isDefer bool) {
	cl, ok := callee.P.(*Closure)
	if !ok || cl == nil {
		w.nilDeref()
	}
	if cl.native != nil {
		r := cl.native(w, args)
		if !isDefer {
			f := w.top
			if d := f.fn.dst[f.pc]; d >= 0 {
				f.regs[d] = r
			}
			f.pc++
		}
		return
	}
	if cl.fn.intr != nil && isDefer {
		if _, ok := cl.fn.intr(w, cl.fn, args); ok {
			return
		}
	}
	w.ensureCompiled(cl.fn)
	w.enter(cl.fn, args, cl.bind, isDefer)
}

const maxDepth = 2000

func (w *W) enter(c *CFunc, args []V, bind []V, isDefer bool) {
	g := &Frame{fn: c, regs: make([]V, c.nregs), caller: w.top, isDefer: isDefer}
	copy(g.regs, args)
	if len(bind) > 0 {
		copy(g.regs[len(c.fn.Params):], bind)
	}
	w.depthCheck(g)
	c.calls++
	w.top = g
}

func (w *W) depthCheck(g *Frame) {
	// cheap: count only every so often by walking
	if w.steps&0xff == 0 {
		n := 0
		for f := g; f != nil; f = f.caller {
			n++
		}
		if n > maxDepth {
			panic(pathEnd{endFuel, "call depth at " + w.where()})
		}
	}
}

func (w *W) compileInstr(c *CFunc, b *ssa.BasicBlock, ins ssa.Instruction, dst int) (code func(w *W, f *Frame)) {
	defer func() {
		if r := recover(); r != nil {
			if u, ok := r.(unsupportedErr); ok {
				code = func(w *W, f *Frame) { panic(u) }
				return
			}
			panic(r)
		}
	}()
	// simple value computation
	if ev := w.compileValue(c, ins); ev != nil {
		return func(w *W, f *Frame) {
			v := ev(w, f)
			f.regs[dst] = v
			f.pc++
		}
	}
	switch x := ins.(type) {
	case *ssa.Jump:
		to := b.Succs[0]
		mv := c.phiMoves[[2]int{b.Index, to.Index}]
		pc := c.blockPC[to.Index]
		return func(w *W, f *Frame) { w.jumpTo(f, mv, pc) }
	case *ssa.If:
		cond := w.operand(c, x.Cond)
		t, e := b.Succs[0], b.Succs[1]
		mvT, pcT := c.phiMoves[[2]int{b.Index, t.Index}], c.blockPC[t.Index]
		mvE, pcE := c.phiMoves[[2]int{b.Index, e.Index}], c.blockPC[e.Index]
		return func(w *W, f *Frame) {
			v := cond.get(f)
			if v.P == nil {
				if v.N != 0 {
					w.jumpTo(f, mvT, pcT)
				} else {
					w.jumpTo(f, mvE, pcE)
				}
				return
			}
			ct := v.P.(*Term)
			if w.tryMerge(c, f, b, ct) {
				return
			}
			if w.choose(ct) {
				w.jumpTo(f, mvT, pcT)
			} else {
				w.jumpTo(f, mvE, pcE)
			}
		}
	case *ssa.Return:
		switch len(x.Results) {
		case 0:
			return func(w *W, f *Frame) { w.doReturn(V{}) }
		case 1:
			r := w.operand(c, x.Results[0])
			return func(w *W, f *Frame) { w.doReturn(r.get(f)) }
		}
		var rs []opnd
		for _, r := range x.Results {
			rs = append(rs, w.operand(c, r))
		}
		return func(w *W, f *Frame) {
			cs := make([]V, len(rs))
			for i := range rs {
				cs[i] = rs[i].get(f)
			}
			w.doReturn(V{P: &Agg{cs}})
		}
	case *ssa.Store:
		p, v := w.operand(c, x.Addr), w.operand(c, x.Val)
		lay := w.layout(x.Val.Type())
		return func(w *W, f *Frame) {
			w.store(p.get(f), v.get(f), lay)
			f.pc++
		}
	case *ssa.MapUpdate:
		m, k, v := w.operand(c, x.Map), w.operand(c, x.Key), w.operand(c, x.Value)
		mt := x.Map.Type().Underlying().(*types.Map)
		return func(w *W, f *Frame) {
			w.mapUpdate(m.get(f), k.get(f), v.get(f), mt)
			f.pc++
		}
	case *ssa.Call:
		return w.compileCall(c, &x.Call, dst)
	case *ssa.Defer:
		return w.compileDefer(c, &x.Call)
	case *ssa.RunDefers:
		return func(w *W, f *Frame) {
			if len(f.defers) > 0 {
				w.runOneDefer(f)
				return
			}
			f.pc++
		}
	case *ssa.Panic:
		v := w.operand(c, x.X)
		return func(w *W, f *Frame) { w.goPanic(v.get(f)) }
	case *ssa.Next:
		it := w.operand(c, x.Iter)
		itReg := it.reg
		if x.IsString {
			return func(w *W, f *Frame) {
				si := it.get(f).P.(*StrIter)
				n := strLen(si.s)
				if si.pos >= n {
					f.regs[dst] = V{P: &Agg{[]V{{}, {}, {}}}}
					f.pc++
					return
				}
				r, size := w.decodeRune(strCells(si.s)[si.pos:])
				f.regs[dst] = V{P: &Agg{[]V{{N: 1}, vint(si.pos), r}}}
				f.regs[itReg] = V{P: &StrIter{si.s, si.pos + size}}
				f.pc++
			}
		}
		return func(w *W, f *Frame) {
			mi := it.get(f).P.(*MapIter)
			pos := mi.pos
			for mi.m != nil && pos < len(mi.m.ents) && !mi.m.ents[pos].live {
				pos++
			}
			if mi.m == nil || pos >= len(mi.m.ents) {
				f.regs[dst] = V{P: &Agg{[]V{{}, {}, {}}}}
			} else {
				e := mi.m.ents[pos]
				f.regs[dst] = V{P: &Agg{[]V{{N: 1}, e.k, e.v}}}
				f.regs[itReg] = V{P: &MapIter{mi.m, pos + 1}}
			}
			f.pc++
		}
	case *ssa.Go, *ssa.Select, *ssa.Send:
		s := ins.String()
		return func(w *W, f *Frame) { panic(unsupported("concurrency: " + s)) }
	}
	s := fmt.Sprintf("%T", ins)
	return func(w *W, f *Frame) { panic(unsupported("instruction " + s)) }
}

// compileValue compiles instructions that compute a value from operands (possibly
// with forks or panics inside) and do not touch control flow.
func (w *W) compileValue(c *CFunc, ins ssa.Instruction) func(w *W, f *Frame) V {
	switch x := ins.(type) {
	case *ssa.Alloc:
		lay := w.layout(x.Type().Underlying().(*types.Pointer).Elem())
		return func(w *W, f *Frame) V { return V{P: w.newObj(lay, 1)} }
	case *ssa.BinOp:
		return w.compileBinOp(c, x)
	case *ssa.UnOp:
		return w.compileUnOp(c, x)
	case *ssa.ChangeType:
		o := w.operand(c, x.X)
		return func(w *W, f *Frame) V { return o.get(f) }
	case *ssa.Convert:
		return w.compileConvert(c, x.X, x.Type())
	case *ssa.MultiConvert:
		return w.compileConvert(c, x.X, x.Type())
	case *ssa.ChangeInterface:
		o := w.operand(c, x.X)
		return func(w *W, f *Frame) V { return o.get(f) }
	case *ssa.MakeInterface:
		o := w.operand(c, x.X)
		rt := w.rtype(x.X.Type())
		return func(w *W, f *Frame) V { return V{P: &Iface{rt, o.get(f)}} }
	case *ssa.MakeClosure:
		fn := w.cfunc(x.Fn.(*ssa.Function))
		var bs []opnd
		for _, b := range x.Bindings {
			bs = append(bs, w.operand(c, b))
		}
		return func(w *W, f *Frame) V {
			vs := make([]V, len(bs))
			for i := range bs {
				vs[i] = bs[i].get(f)
			}
			return V{P: &Closure{fn: fn, bind: vs}}
		}
	case *ssa.MakeMap:
		mt := x.Type().Underlying().(*types.Map)
		return func(w *W, f *Frame) V { return w.newMap(mt) }
	case *ssa.MakeChan:
		return func(w *W, f *Frame) V { panic(unsupported("channel")) }
	case *ssa.MakeSlice:
		l, cp := w.operand(c, x.Len), w.operand(c, x.Cap)
		lw, cw := leafKind(x.Len.Type()), leafKind(x.Cap.Type())
		ls, cs := isSigned(x.Len.Type()), isSigned(x.Cap.Type())
		lay := w.layout(x.Type().Underlying().(*types.Slice).Elem())
		return func(w *W, f *Frame) V {
			lv, cv := l.get(f), cp.get(f)
			w.checkLen(lv, lw, ls, "makeslice: len out of range")
			n := w.concInt(lv, lw, ls, "make length")
			if n < 0 {
				w.goPanicStr("makeslice: len out of range")
			}
			k := n
			if cv != lv {
				k = w.concInt(cv, cw, cs, "make capacity")
				if k < n {
					w.goPanicStr("makeslice: cap out of range")
				}
			}
			if k > w.eng.maxCells {
				panic(pathEnd{endFuel, "allocation bound at " + w.where()})
			}
			return V{P: &Slice{w.newObj(lay, k), 0, n, k, lay.n}}
		}
	case *ssa.Slice:
		return w.compileSlice(c, x)
	case *ssa.FieldAddr:
		o := w.operand(c, x.X)
		st := x.X.Type().Underlying().(*types.Pointer).Elem()
		off := uint64(w.layout(st).fields[x.Field])
		return func(w *W, f *Frame) V {
			p := o.get(f)
			switch q := p.P.(type) {
			case *Obj:
				return V{P: q, N: p.N + off}
			case *SymPtr:
				r := *q
				r.off += int(off)
				return V{P: &r}
			case nil:
				w.nilDeref()
			}
			panic(unsupported(fmt.Sprintf("field of %T", p.P)))
		}
	case *ssa.Field:
		o := w.operand(c, x.X)
		l := w.layout(x.X.Type())
		off := l.fields[x.Field]
		fl := w.layout(x.Type())
		return func(w *W, f *Frame) V { return w.aggSub(aggCells(o.get(f), l.n), off, fl) }
	case *ssa.IndexAddr:
		return w.compileIndexAddr(c, x)
	case *ssa.Index:
		o, i := w.operand(c, x.X), w.operand(c, x.Index)
		iw, is := leafKind(x.Index.Type()), isSigned(x.Index.Type())
		if b, ok := x.X.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			return w.strIndexer(o, i, iw, is)
		}
		at, ok := x.X.Type().Underlying().(*types.Array)
		if !ok {
			return func(w *W, f *Frame) V { panic(unsupported("index of type parameter")) }
		}
		l := w.layout(at)
		return func(w *W, f *Frame) V {
			iv := i.get(f)
			if it, ok := iv.P.(*Term); ok {
				it = w.checkIndex(it, is, l.alen)
				tmp := &Obj{cells: aggCells(o.get(f), l.n), lay: l.elem}
				return w.loadSym(&SymPtr{obj: tmp, idx: it, n: l.alen, esz: l.elem.n}, l.elem)
			}
			k := w.index(iv, iw, is, l.alen)
			return w.aggSub(aggCells(o.get(f), l.n), k*l.elem.n, l.elem)
		}
	case *ssa.Lookup:
		o, i := w.operand(c, x.X), w.operand(c, x.Index)
		if mt, ok := x.X.Type().Underlying().(*types.Map); ok {
			commaOk := x.CommaOk
			vl := w.layout(mt.Elem())
			return func(w *W, f *Frame) V {
				v, ok := w.mapLookup(o.get(f), i.get(f), mt, vl)
				if commaOk {
					return V{P: &Agg{[]V{v, ok}}}
				}
				return v
			}
		}
		iw, is := leafKind(x.Index.Type()), isSigned(x.Index.Type())
		return w.strIndexer(o, i, iw, is)
	case *ssa.Extract:
		o := w.operand(c, x.Tuple)
		i := x.Index
		return func(w *W, f *Frame) V { return o.get(f).P.(*Agg).c[i] }
	case *ssa.TypeAssert:
		return w.compileTypeAssert(c, x)
	case *ssa.Range:
		o := w.operand(c, x.X)
		if _, ok := x.X.Type().Underlying().(*types.Map); ok {
			return func(w *W, f *Frame) V {
				m, _ := o.get(f).P.(*MapObj)
				return V{P: &MapIter{m, 0}}
			}
		}
		return func(w *W, f *Frame) V { return V{P: &StrIter{o.get(f), 0}} }
	case *ssa.SliceToArrayPointer:
		o := w.operand(c, x.X)
		n := int(x.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		return func(w *W, f *Frame) V {
			s, _ := o.get(f).P.(*Slice)
			if s == nil {
				if n == 0 {
					return V{}
				}
				w.goPanicStr("cannot convert slice to array pointer")
			}
			if s.len < n {
				w.goPanicStr("cannot convert slice to array pointer")
			}
			return V{P: s.obj, N: uint64(s.off)}
		}
	}
	return nil
}

func (w *W) strIndexer(o, i opnd, iw uint8, is bool) func(w *W, f *Frame) V {
	return func(w *W, f *Frame) V {
		s, iv := o.get(f), i.get(f)
		n := strLen(s)
		if it, ok := iv.P.(*Term); ok {
			it = w.checkIndex(it, is, n)
			tmp := &Obj{cells: strCells(s), lay: w.lay8}
			return w.loadSym(&SymPtr{obj: tmp, idx: it, n: n, esz: 1}, w.lay8)
		}
		k := w.index(iv, iw, is, n)
		return strAt(s, k)
	}
}

// index checks a concrete index.
func (w *W) index(v V, width uint8, signed bool, n int) int {
	var k int64
	if signed {
		k = sext64(v.N, width)
	} else {
		k = int64(v.N)
	}
	if k < 0 || k >= int64(n) {
		w.goPanicStr(fmt.Sprintf("index out of range [%d] with length %d", k, n))
	}
	return int(k)
}

// prove reports whether c holds on the current path (under the speculation guard).
func (w *W) prove(c *Term) bool {
	if c.op == OConst {
		return c.k != 0
	}
	neg := w.tb.Not(c)
	if w.spec > 0 {
		neg = w.tb.And(neg, w.specG)
		if neg == w.tb.False {
			return true
		}
	}
	if w.replayPos >= len(w.replay) && w.tb.eval(neg, w.model) != 0 {
		return false
	}
	r, _ := w.solve(neg)
	return r == resUnsat
}

// checkIndex checks a symbolic index against n, forking to the panic.
func (w *W) checkIndex(it *Term, signed bool, n int) *Term {
	it = w.tb.Resize(it, 64, signed)
	c := w.tb.Ult(it, w.tb.Const(uint64(n), 64))
	if w.spec > 0 {
		if !w.prove(c) {
			panic(specAbort{"bounds"})
		}
		return it
	}
	if !w.choose(c) {
		w.goPanicStr(fmt.Sprintf("index out of range with length %d", n))
	}
	return it
}

func (w *W) checkLen(v V, width uint8, signed bool, msg string) {
	t, ok := v.P.(*Term)
	if !ok {
		return
	}
	t = w.tb.Resize(t, 64, signed)
	c := w.tb.Ult(t, w.tb.Const(1<<40, 64))
	if !w.choose(c) {
		w.goPanicStr(msg)
	}
}

func (w *W) compileIndexAddr(c *CFunc, x *ssa.IndexAddr) func(w *W, f *Frame) V {
	o, i := w.operand(c, x.X), w.operand(c, x.Index)
	iw, is := leafKind(x.Index.Type()), isSigned(x.Index.Type())
	switch t := x.X.Type().Underlying().(type) {
	case *types.Slice:
		esz := w.layout(t.Elem()).n
		return func(w *W, f *Frame) V {
			s, _ := o.get(f).P.(*Slice)
			n := 0
			if s != nil {
				n = s.len
			}
			iv := i.get(f)
			if it, ok := iv.P.(*Term); ok {
				it = w.checkIndex(it, is, n)
				return V{P: &SymPtr{obj: s.obj, off: s.off, idx: it, n: n, esz: esz}}
			}
			k := w.index(iv, iw, is, n)
			return V{P: s.obj, N: uint64(s.off + k*esz)}
		}
	case *types.Pointer:
		at := t.Elem().Underlying().(*types.Array)
		esz := w.layout(at.Elem()).n
		n := int(at.Len())
		return func(w *W, f *Frame) V {
			p := o.get(f)
			if p.P == nil {
				w.nilDeref()
			}
			iv := i.get(f)
			if sp, ok := p.P.(*SymPtr); ok {
				k := w.concretize(sp.idx, "nested index")
				p = V{P: sp.obj, N: uint64(sp.off + int(k)*sp.esz)}
			}
			ob, ok := p.P.(*Obj)
			if !ok {
				panic(unsupported(fmt.Sprintf("index of %T", p.P)))
			}
			if it, ok := iv.P.(*Term); ok {
				it = w.checkIndex(it, is, n)
				return V{P: &SymPtr{obj: ob, off: int(p.N), idx: it, n: n, esz: esz}}
			}
			k := w.index(iv, iw, is, n)
			return V{P: ob, N: p.N + uint64(k*esz)}
		}
	}
	panic(unsupported("IndexAddr of " + x.X.Type().String()))
}

func (w *W) compileSlice(c *CFunc, x *ssa.Slice) func(w *W, f *Frame) V {
	o := w.operand(c, x.X)
	var lo, hi, mx *opnd
	mk := func(v ssa.Value) *opnd {
		if v == nil {
			return nil
		}
		p := w.operand(c, v)
		return &p
	}
	lo, hi, mx = mk(x.Low), mk(x.High), mk(x.Max)
	wd := func(v ssa.Value) (uint8, bool) {
		if v == nil {
			return 64, true
		}
		return leafKind(v.Type()), isSigned(v.Type())
	}
	lw, ls := wd(x.Low)
	hw, hs := wd(x.High)
	mw, ms := wd(x.Max)
	// bounds: 0 <= lo <= hi <= max <= cap
	get := func(w *W, f *Frame, p *opnd, width uint8, signed bool, def int, limit int) int {
		if p == nil {
			return def
		}
		v := p.get(f)
		if t, ok := v.P.(*Term); ok {
			t = w.tb.Resize(t, 64, signed)
			if !w.choose(w.tb.Ule(t, w.tb.Const(uint64(limit), 64))) {
				w.goPanicStr(fmt.Sprintf("slice bounds out of range with capacity %d", limit))
			}
			return int(w.concretize(t, "slice bound"))
		}
		var k int64
		if signed {
			k = sext64(v.N, width)
		} else {
			k = int64(v.N)
		}
		if k < 0 || k > int64(limit) {
			w.goPanicStr(fmt.Sprintf("slice bounds out of range [%d] with capacity %d", k, limit))
		}
		return int(k)
	}
	xt := x.X.Type().Underlying()
	if b, ok := xt.(*types.Basic); ok && b.Info()&types.IsString != 0 {
		return func(w *W, f *Frame) V {
			s := o.get(f)
			n := strLen(s)
			h := get(w, f, hi, hw, hs, n, n)
			l := get(w, f, lo, lw, ls, 0, h)
			return strSlice(s, l, h)
		}
	}
	switch t := xt.(type) {
	case *types.Slice:
		esz := w.layout(t.Elem()).n
		return func(w *W, f *Frame) V {
			v := o.get(f)
			s, _ := v.P.(*Slice)
			if s == nil {
				get(w, f, mx, mw, ms, 0, 0)
				get(w, f, hi, hw, hs, 0, 0)
				get(w, f, lo, lw, ls, 0, 0)
				return V{}
			}
			m := get(w, f, mx, mw, ms, s.cap, s.cap)
			h := get(w, f, hi, hw, hs, s.len, m)
			l := get(w, f, lo, lw, ls, 0, h)
			return V{P: &Slice{s.obj, s.off + l*esz, h - l, m - l, esz}}
		}
	case *types.Pointer:
		at := t.Elem().Underlying().(*types.Array)
		esz := w.layout(at.Elem()).n
		n := int(at.Len())
		return func(w *W, f *Frame) V {
			p := o.get(f)
			if p.P == nil {
				w.nilDeref()
			}
			ob, ok := p.P.(*Obj)
			if !ok {
				panic(unsupported("slice of symbolic array pointer"))
			}
			m := get(w, f, mx, mw, ms, n, n)
			h := get(w, f, hi, hw, hs, n, m)
			l := get(w, f, lo, lw, ls, 0, h)
			return V{P: &Slice{ob, int(p.N) + l*esz, h - l, m - l, esz}}
		}
	}
	panic(unsupported("slice of " + x.X.Type().String()))
}

func (w *W) compileUnOp(c *CFunc, x *ssa.UnOp) func(w *W, f *Frame) V {
	o := w.operand(c, x.X)
	t := x.X.Type()
	switch x.Op {
	case token.MUL:
		lay := w.layout(x.Type())
		if !lay.agg {
			isSl, isStr := false, false
			switch u := lay.t.Underlying().(type) {
			case *types.Slice:
				isSl = true
			case *types.Basic:
				isStr = u.Kind() == types.String
			}
			return func(w *W, f *Frame) V {
				p := o.get(f)
				if ob, ok := p.P.(*Obj); ok && ob.view == nil {
					v := ob.cells[p.N]
					if isSl {
						if _, bad := v.P.(*Obj); bad {
							return w.load(p, lay)
						}
					} else if isStr {
						if sl, bad := v.P.(*Slice); bad {
							return w.aliasStr(sl)
						}
					}
					return v
				}
				return w.load(p, lay)
			}
		}
		return func(w *W, f *Frame) V { return w.load(o.get(f), lay) }
	case token.NOT:
		return func(w *W, f *Frame) V {
			v := o.get(f)
			if v.P == nil {
				return V{N: v.N ^ 1}
			}
			return fromTerm(w.tb.Not(v.P.(*Term)))
		}
	case token.SUB:
		k := leafKind(t)
		if k == leafFloat {
			if isF32(t) {
				return func(w *W, f *Frame) V {
					return V{N: uint64(math.Float32bits(-math.Float32frombits(uint32(o.get(f).N))))}
				}
			}
			return func(w *W, f *Frame) V { return V{N: math.Float64bits(-math.Float64frombits(o.get(f).N))} }
		}
		return func(w *W, f *Frame) V {
			v := o.get(f)
			if v.P == nil {
				return V{N: -v.N & mask(k)}
			}
			return fromTerm(w.tb.Neg(v.P.(*Term)))
		}
	case token.XOR:
		k := leafKind(t)
		return func(w *W, f *Frame) V {
			v := o.get(f)
			if v.P == nil {
				return V{N: ^v.N & mask(k)}
			}
			return fromTerm(w.tb.Bnot(v.P.(*Term)))
		}
	}
	s := x.String()
	return func(w *W, f *Frame) V { panic(unsupported("unop " + s)) }
}

func isF32(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Float32
}

func (w *W) compileBinOp(c *CFunc, x *ssa.BinOp) func(w *W, f *Frame) V {
	a, b := w.operand(c, x.X), w.operand(c, x.Y)
	t := x.X.Type()
	switch x.Op {
	case token.EQL, token.NEQ:
		neg := x.Op == token.NEQ
		k := leafKind(t)
		ct := t
		// comparisons of interface with concrete are converted by ssa; nil constants keep the type
		return func(w *W, f *Frame) V {
			p, q := a.get(f), b.get(f)
			if k <= 64 && p.P == nil && q.P == nil {
				return V{N: b2u((p.N == q.N) != neg)}
			}
			var r *Term
			if sl, ok := ct.Underlying().(*types.Slice); ok {
				_ = sl
				r = w.tb.Bool(p.P == nil && q.P == nil)
			} else {
				r = w.eqV(p, q, ct)
			}
			if neg {
				r = w.tb.Not(r)
			}
			return fromTerm(r)
		}
	}
	k := leafKind(t)
	sg := isSigned(t)
	switch k {
	case leafStr:
		switch x.Op {
		case token.ADD:
			return func(w *W, f *Frame) V { return strConcat(a.get(f), b.get(f)) }
		case token.LSS:
			return func(w *W, f *Frame) V { return fromTerm(w.ltStr(a.get(f), b.get(f))) }
		case token.GTR:
			return func(w *W, f *Frame) V { return fromTerm(w.ltStr(b.get(f), a.get(f))) }
		case token.LEQ:
			return func(w *W, f *Frame) V { return fromTerm(w.tb.Not(w.ltStr(b.get(f), a.get(f)))) }
		case token.GEQ:
			return func(w *W, f *Frame) V { return fromTerm(w.tb.Not(w.ltStr(a.get(f), b.get(f)))) }
		}
	case leafFloat:
		f32 := isF32(t)
		op := x.Op
		return func(w *W, f *Frame) V { return floatOp(op, a.get(f), b.get(f), f32) }
	case leafOther:
		s := x.String()
		return func(w *W, f *Frame) V { panic(unsupported("binop " + s)) }
	}
	switch x.Op {
	case token.SHL, token.SHR:
		yk, ys := leafKind(x.Y.Type()), isSigned(x.Y.Type())
		left := x.Op == token.SHL
		return func(w *W, f *Frame) V {
			p, q := a.get(f), b.get(f)
			if q.P == nil {
				n := q.N
				if ys && sext64(q.N, yk) < 0 {
					w.goPanicStr("negative shift amount")
				}
				if p.P == nil {
					return V{N: concShift(p.N, n, k, sg, left)}
				}
				return fromTerm(w.shift(w.term(p, k), w.tb.Const(min(n, 200), k), sg, left, n))
			}
			y := w.term(q, yk)
			if ys {
				if !w.choose(w.tb.Sle(w.tb.Const(0, yk), y)) {
					w.goPanicStr("negative shift amount")
				}
			}
			// saturate to the width
			big := w.tb.Ule(w.tb.Const(uint64(k), yk), y)
			if yk < 8 && false {
				big = w.tb.False
			}
			yr := w.tb.Resize(y, k, false)
			xt := w.term(p, k)
			var r, sat *Term
			switch {
			case left:
				r, sat = w.tb.Shl(xt, yr), w.tb.Const(0, k)
			case sg:
				r, sat = w.tb.Ashr(xt, yr), w.tb.Ashr(xt, w.tb.Const(uint64(k)-1, k))
			default:
				r, sat = w.tb.Lshr(xt, yr), w.tb.Const(0, k)
			}
			return fromTerm(w.tb.Ite(big, sat, r))
		}
	}
	op := x.Op
	m := mask(k)
	switch op {
	case token.ADD:
		return func(w *W, f *Frame) V {
			p, q := a.get(f), b.get(f)
			if p.P == nil && q.P == nil {
				return V{N: (p.N + q.N) & m}
			}
			return fromTerm(w.tb.Add(w.term(p, k), w.term(q, k)))
		}
	case token.SUB:
		return func(w *W, f *Frame) V {
			p, q := a.get(f), b.get(f)
			if p.P == nil && q.P == nil {
				return V{N: (p.N - q.N) & m}
			}
			return fromTerm(w.tb.Sub(w.term(p, k), w.term(q, k)))
		}
	case token.MUL:
		return func(w *W, f *Frame) V {
			p, q := a.get(f), b.get(f)
			if p.P == nil && q.P == nil {
				return V{N: (p.N * q.N) & m}
			}
			return fromTerm(w.tb.Mul(w.term(p, k), w.term(q, k)))
		}
	case token.AND:
		return func(w *W, f *Frame) V {
			p, q := a.get(f), b.get(f)
			if p.P == nil && q.P == nil {
				return V{N: p.N & q.N}
			}
			return fromTerm(w.tb.Band(w.term(p, k), w.term(q, k)))
		}
	case token.OR:
		return func(w *W, f *Frame) V {
			p, q := a.get(f), b.get(f)
			if p.P == nil && q.P == nil {
				return V{N: p.N | q.N}
			}
			return fromTerm(w.tb.Bor(w.term(p, k), w.term(q, k)))
		}
	case token.XOR:
		return func(w *W, f *Frame) V {
			p, q := a.get(f), b.get(f)
			if p.P == nil && q.P == nil {
				return V{N: p.N ^ q.N}
			}
			return fromTerm(w.tb.Bxor(w.term(p, k), w.term(q, k)))
		}
	case token.AND_NOT:
		return func(w *W, f *Frame) V {
			p, q := a.get(f), b.get(f)
			if p.P == nil && q.P == nil {
				return V{N: p.N &^ q.N}
			}
			return fromTerm(w.tb.Band(w.term(p, k), w.tb.Bnot(w.term(q, k))))
		}
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		return func(w *W, f *Frame) V {
			p, q := a.get(f), b.get(f)
			if p.P == nil && q.P == nil {
				var r bool
				if sg {
					s, t := sext64(p.N, k), sext64(q.N, k)
					switch op {
					case token.LSS:
						r = s < t
					case token.LEQ:
						r = s <= t
					case token.GTR:
						r = s > t
					default:
						r = s >= t
					}
				} else {
					switch op {
					case token.LSS:
						r = p.N < q.N
					case token.LEQ:
						r = p.N <= q.N
					case token.GTR:
						r = p.N > q.N
					default:
						r = p.N >= q.N
					}
				}
				return vbool(r)
			}
			s, t := w.term(p, k), w.term(q, k)
			if op == token.GTR || op == token.GEQ {
				s, t = t, s
			}
			strict := op == token.LSS || op == token.GTR
			var r *Term
			switch {
			case sg && strict:
				r = w.tb.Slt(s, t)
			case sg:
				r = w.tb.Sle(s, t)
			case strict:
				r = w.tb.Ult(s, t)
			default:
				r = w.tb.Ule(s, t)
			}
			return fromTerm(r)
		}
	case token.QUO, token.REM:
		return func(w *W, f *Frame) V {
			p, q := a.get(f), b.get(f)
			if q.P == nil {
				if q.N == 0 {
					w.goPanicStr("integer divide by zero")
				}
				if p.P == nil {
					if sg {
						s, t := sext64(p.N, k), sext64(q.N, k)
						if t == -1 {
							if op == token.QUO {
								return V{N: uint64(-s) & m}
							}
							return V{}
						}
						if op == token.QUO {
							return V{N: uint64(s/t) & m}
						}
						return V{N: uint64(s%t) & m}
					}
					if op == token.QUO {
						return V{N: p.N / q.N}
					}
					return V{N: p.N % q.N}
				}
			} else if !w.choose(w.tb.Not(w.tb.Eq(w.term(q, k), w.tb.Const(0, k)))) {
				w.goPanicStr("integer divide by zero")
			}
			s, t := w.term(p, k), w.term(q, k)
			switch {
			case sg && op == token.QUO:
				return fromTerm(w.tb.Sdiv(s, t))
			case sg:
				return fromTerm(w.tb.Srem(s, t))
			case op == token.QUO:
				return fromTerm(w.tb.Udiv(s, t))
			default:
				return fromTerm(w.tb.Urem(s, t))
			}
		}
	}
	s := x.String()
	return func(w *W, f *Frame) V { panic(unsupported("binop " + s)) }
}

func (w *W) shift(x, y *Term, sg, left bool, n uint64) *Term {
	k := x.w
	if left {
		if n >= uint64(k) {
			return w.tb.Const(0, k)
		}
		return w.tb.Shl(x, w.tb.Const(n, k))
	}
	if sg {
		return w.tb.Ashr(x, w.tb.Const(min(n, uint64(k)-1), k))
	}
	if n >= uint64(k) {
		return w.tb.Const(0, k)
	}
	return w.tb.Lshr(x, w.tb.Const(n, k))
}

func concShift(x, n uint64, k uint8, sg, left bool) uint64 {
	if left {
		if n >= 64 {
			return 0
		}
		return x << n & mask(k)
	}
	if sg {
		s := sext64(x, k)
		if n >= 64 {
			n = 63
		}
		return uint64(s>>n) & mask(k)
	}
	if n >= 64 {
		return 0
	}
	return x >> n
}

func floatOp(op token.Token, a, b V, f32 bool) V {
	if a.P != nil || b.P != nil {
		panic(unsupported("symbolic float"))
	}
	if f32 {
		x, y := math.Float32frombits(uint32(a.N)), math.Float32frombits(uint32(b.N))
		r := func(z float32) V { return V{N: uint64(math.Float32bits(z))} }
		switch op {
		case token.ADD:
			return r(x + y)
		case token.SUB:
			return r(x - y)
		case token.MUL:
			return r(x * y)
		case token.QUO:
			return r(x / y)
		case token.LSS:
			return vbool(x < y)
		case token.LEQ:
			return vbool(x <= y)
		case token.GTR:
			return vbool(x > y)
		case token.GEQ:
			return vbool(x >= y)
		}
		panic(unsupported("float op"))
	}
	x, y := math.Float64frombits(a.N), math.Float64frombits(b.N)
	r := func(z float64) V { return V{N: math.Float64bits(z)} }
	switch op {
	case token.ADD:
		return r(x + y)
	case token.SUB:
		return r(x - y)
	case token.MUL:
		return r(x * y)
	case token.QUO:
		return r(x / y)
	case token.LSS:
		return vbool(x < y)
	case token.LEQ:
		return vbool(x <= y)
	case token.GTR:
		return vbool(x > y)
	case token.GEQ:
		return vbool(x >= y)
	}
	panic(unsupported("float op"))
}

func (w *W) compileConvert(c *CFunc, xv ssa.Value, to types.Type) func(w *W, f *Frame) V {
	o := w.operand(c, xv)
	from := xv.Type()
	fu, tu := from.Underlying(), to.Underlying()
	fk, tk := leafKind(from), leafKind(to)
	// string conversions
	if tk == leafStr {
		switch u := fu.(type) {
		case *types.Basic:
			if u.Info()&types.IsString != 0 {
				return func(w *W, f *Frame) V { return o.get(f) }
			}
			if u.Info()&types.IsInteger != 0 {
				sg := isSigned(from)
				return func(w *W, f *Frame) V {
					v := o.get(f)
					if t, ok := v.P.(*Term); ok {
						if fk > 32 {
							t64 := w.tb.Resize(t, 64, sg)
							if !w.choose(w.tb.Ule(t64, w.tb.Const(0x10FFFF, 64))) {
								return vstr("\uFFFD")
							}
						}
						return mkStr(w.encodeRune(fromTerm(w.tb.Resize(t, 32, sg))))
					}
					n := sext64(v.N, fk)
					if !sg {
						n = int64(v.N)
					}
					if n < 0 || n > 0x10FFFF {
						return vstr("\uFFFD")
					}
					return vstr(string(rune(n)))
				}
			}
		case *types.Slice:
			ek := leafKind(u.Elem())
			if ek == 8 {
				return func(w *W, f *Frame) V { return w.bytesToStr(o.get(f)) }
			}
			return func(w *W, f *Frame) V {
				s, _ := o.get(f).P.(*Slice)
				if s == nil {
					return V{}
				}
				var cs []V
				for i := 0; i < s.len; i++ {
					cs = append(cs, w.encodeRune(w.getCell(s.obj, s.off+i))...)
				}
				return mkStr(cs)
			}
		}
	}
	if fk == leafStr {
		if sl, ok := tu.(*types.Slice); ok {
			if leafKind(sl.Elem()) == 8 {
				return func(w *W, f *Frame) V { return w.strToBytes(o.get(f)) }
			}
			lay := w.layout(sl.Elem())
			return func(w *W, f *Frame) V {
				cs := strCells(o.get(f))
				var rs []V
				for len(cs) > 0 {
					r, n := w.decodeRune(cs)
					rs = append(rs, r)
					cs = cs[n:]
				}
				ob := w.newObj(lay, len(rs))
				copy(ob.cells, rs)
				return V{P: &Slice{ob, 0, len(rs), len(rs), 1}}
			}
		}
	}
	if fk == leafFloat || tk == leafFloat {
		sg := isSigned(from)
		f32, t32 := isF32(from), isF32(to)
		tsg := isSigned(to)
		return func(w *W, f *Frame) V {
			v := o.get(f)
			if t, ok := v.P.(*Term); ok {
				v = V{N: w.concretize(t, "float conversion")}
			}
			var x float64
			switch {
			case fk == leafFloat && f32:
				x = float64(math.Float32frombits(uint32(v.N)))
			case fk == leafFloat:
				x = math.Float64frombits(v.N)
			case sg:
				x = float64(sext64(v.N, fk))
			default:
				x = float64(v.N)
			}
			switch {
			case tk == leafFloat && t32:
				return V{N: uint64(math.Float32bits(float32(x)))}
			case tk == leafFloat:
				return V{N: math.Float64bits(x)}
			case tsg:
				return V{N: uint64(int64(x)) & mask(tk)}
			default:
				return V{N: uint64(x) & mask(tk)}
			}
		}
	}
	if fk <= 64 && tk <= 64 {
		sg := isSigned(from)
		m := mask(tk)
		return func(w *W, f *Frame) V {
			v := o.get(f)
			switch t := v.P.(type) {
			case nil:
				if sg && tk > fk {
					return V{N: uint64(sext64(v.N, fk)) & m}
				}
				return V{N: v.N & m}
			case *Term:
				return fromTerm(w.tb.Resize(t, tk, sg))
			}
			return v // pointer kept in a uintptr
		}
	}
	// pointers, unsafe.Pointer
	return func(w *W, f *Frame) V { return o.get(f) }
}

func (w *W) bytesToStr(v V) V {
	s, _ := v.P.(*Slice)
	if s == nil || s.len == 0 {
		return V{}
	}
	return mkStr(append([]V(nil), w.sliceCells(s)...))
}

// aliasStr is a string sharing the bytes of s, whose later changes are not followed, but whose
// unmapping is.
func (w *W) aliasStr(s *Slice) V {
	if s == nil || s.len == 0 {
		return V{}
	}
	c := append([]V(nil), w.sliceCells(s)...)
	if !w.fs.maps[s.obj] {
		return mkStr(c)
	}
	o := s.obj
	old := w.fs.alias[o]
	if w.fs.alias == nil {
		w.fs.alias = map[*Obj][][]V{}
	}
	w.onUndo(func() { w.fs.alias[o] = old })
	w.fs.alias[o] = append(old[:len(old):len(old)], c)
	return V{P: &Str{c: c}}
}

// goneMark is what the bytes of a string become when the memory below it is unmapped.
type goneMark struct{}

// sliceCells returns the cells of s (shared when possible; do not modify).
func (w *W) sliceCells(s *Slice) []V {
	if s.obj.view == nil {
		return s.obj.cells[s.off : s.off+s.len*s.esz]
	}
	c := make([]V, s.len)
	for i := range c {
		c[i] = w.viewLoad(s.obj, s.off+i)
	}
	return c
}

func (w *W) strToBytes(v V) V {
	c := strCells(v)
	ob := w.newObj(w.lay8, len(c))
	copy(ob.cells, c)
	return V{P: &Slice{ob, 0, len(c), len(c), 1}}
}

func (w *W) compileTypeAssert(c *CFunc, x *ssa.TypeAssert) func(w *W, f *Frame) V {
	o := w.operand(c, x.X)
	commaOk := x.CommaOk
	at := x.AssertedType
	if it, ok := at.Underlying().(*types.Interface); ok {
		cache := map[*RType]bool{}
		return func(w *W, f *Frame) V {
			v := o.get(f)
			i, _ := v.P.(*Iface)
			okv := false
			if i != nil {
				r, hit := cache[i.t]
				if !hit {
					r = types.Implements(i.t.t, it)
					if i.t == w.eng.rtErrType {
						r = it.NumMethods() == 0 || it.NumMethods() == 1 && it.Method(0).Name() == "Error"
					}
					cache[i.t] = r
				}
				okv = r
			}
			if commaOk {
				if okv {
					return V{P: &Agg{[]V{v, {N: 1}}}}
				}
				return V{P: &Agg{[]V{{}, {}}}}
			}
			if !okv {
				w.goPanicStr("interface conversion")
			}
			return v
		}
	}
	rt := w.rtype(at)
	return func(w *W, f *Frame) V {
		v := o.get(f)
		i, _ := v.P.(*Iface)
		okv := i != nil && i.t == rt
		if commaOk {
			if okv {
				return V{P: &Agg{[]V{i.v, {N: 1}}}}
			}
			return V{P: &Agg{[]V{{}, {}}}}
		}
		if !okv {
			w.goPanicStr("interface conversion: not " + at.String())
		}
		return i.v
	}
}

func (w *W) rtype(t types.Type) *RType {
	if r, ok := w.rtypes[t]; ok {
		return r
	}
	r := w.eng.rtype(t)
	w.rtypes[t] = r
	return r
}

// ---- calls ----

func (w *W) compileCall(c *CFunc, call *ssa.CallCommon, dst int) func(w *W, f *Frame) {
	var args []opnd
	if b, ok := call.Value.(*ssa.Builtin); ok {
		return w.compileBuiltin(c, b, call, dst)
	}
	if call.IsInvoke() {
		recv := w.operand(c, call.Value)
		for _, a := range call.Args {
			args = append(args, w.operand(c, a))
		}
		m := call.Method
		return func(w *W, f *Frame) {
			v := recv.get(f)
			i, _ := v.P.(*Iface)
			if i == nil {
				w.nilDeref()
			}
			as := make([]V, 1+len(args))
			for k := range args {
				as[k+1] = args[k].get(f)
			}
			if i.t == w.eng.rtErrType {
				if m.Name() == "Error" {
					s, _ := concStr(i.v)
					f.regs[dst] = vstr("runtime error: " + s)
					f.pc++
					return
				}
				panic(unsupported("method of runtime error"))
			}
			as[0] = i.v
			w.callFn(w.method(i.t, m), as, nil, f, dst)
		}
	}
	for _, a := range call.Args {
		args = append(args, w.operand(c, a))
	}
	if fn := call.StaticCallee(); fn != nil {
		cf := w.cfunc(fn)
		if mc, ok := call.Value.(*ssa.MakeClosure); ok {
			cl := w.operand(c, mc)
			return func(w *W, f *Frame) {
				as := make([]V, len(args))
				for k := range args {
					as[k] = args[k].get(f)
				}
				w.callFn(cf, as, cl.get(f).P.(*Closure).bind, f, dst)
			}
		}
		return func(w *W, f *Frame) {
			as := make([]V, len(args))
			for k := range args {
				as[k] = args[k].get(f)
			}
			w.callFn(cf, as, nil, f, dst)
		}
	}
	fv := w.operand(c, call.Value)
	return func(w *W, f *Frame) {
		cl, _ := fv.get(f).P.(*Closure)
		if cl == nil {
			w.nilDeref()
		}
		as := make([]V, len(args))
		for k := range args {
			as[k] = args[k].get(f)
		}
		if cl.native != nil {
			r := cl.native(w, as)
			if dst >= 0 {
				f.regs[dst] = r
			}
			f.pc++
			return
		}
		w.callFn(cl.fn, as, cl.bind, f, dst)
	}
}

// tailCall is panicked by an intrinsic that wants another function to run in its place.
type tailCall struct {
	fn   *CFunc
	args []V
	bind []V
}

func (w *W) callFn(cf *CFunc, as []V, bind []V, f *Frame, dst int) {
	if cf.intr != nil {
		r, ok := cf.intr(w, cf, as)
		if ok {
			if tc, is := r.P.(*tailCall); is {
				w.callFn(tc.fn, tc.args, tc.bind, f, dst)
				return
			}
			if dst >= 0 {
				f.regs[dst] = r
			}
			f.pc++
			return
		}
	}
	if !cf.compiled {
		w.ensureCompiled(cf)
	}
	w.enter(cf, as, bind, false)
}

func (w *W) method(t *RType, m *types.Func) *CFunc {
	key := methKey{t, m.Id()}
	if c, ok := w.methods[key]; ok {
		return c
	}
	fn := w.eng.lookupMethod(t.t, m)
	if fn == nil {
		panic(unsupported("no method " + m.Name() + " on " + t.t.String()))
	}
	c := w.cfunc(fn)
	w.methods[key] = c
	return c
}

func (w *W) compileDefer(c *CFunc, call *ssa.CallCommon) func(w *W, f *Frame) {
	var args []opnd
	for _, a := range call.Args {
		args = append(args, w.operand(c, a))
	}
	get := func(f *Frame) []V {
		as := make([]V, len(args))
		for k := range args {
			as[k] = args[k].get(f)
		}
		return as
	}
	add := func(f *Frame, d deferRec) {
		f.defers = append(f.defers[:len(f.defers):len(f.defers)], d)
		f.pc++
	}
	if b, ok := call.Value.(*ssa.Builtin); ok {
		name := b.Name()
		return func(w *W, f *Frame) { panic(unsupported("defer builtin " + name)) }
	}
	if call.IsInvoke() {
		recv := w.operand(c, call.Value)
		m := call.Method
		return func(w *W, f *Frame) {
			i, _ := recv.get(f).P.(*Iface)
			if i == nil {
				w.nilDeref()
			}
			add(f, deferRec{callee: V{P: &Closure{fn: w.method(i.t, m)}}, args: append([]V{i.v}, get(f)...)})
		}
	}
	fv := w.operand(c, call.Value)
	return func(w *W, f *Frame) {
		add(f, deferRec{callee: fv.get(f), args: get(f)})
	}
}

func (w *W) compileBuiltin(c *CFunc, b *ssa.Builtin, call *ssa.CallCommon, dst int) func(w *W, f *Frame) {
	var args []opnd
	for _, a := range call.Args {
		args = append(args, w.operand(c, a))
	}
	set := func(f *Frame, v V) {
		if dst >= 0 {
			f.regs[dst] = v
		}
		f.pc++
	}
	if ev := w.builtinValue(c, b, call, args); ev != nil {
		return func(w *W, f *Frame) { set(f, ev(w, f)) }
	}
	name := b.Name()
	switch name {
	case "append":
		st := call.Args[0].Type().Underlying().(*types.Slice)
		lay := w.layout(st.Elem())
		strArg := leafKind(call.Args[1].Type()) == leafStr
		return func(w *W, f *Frame) {
			v := args[0].get(f)
			s, _ := v.P.(*Slice)
			y := args[1].get(f)
			var src []V
			if strArg {
				src = strCells(y)
			} else if ys, ok := y.P.(*Slice); ok {
				src = w.sliceCells(ys)
			}
			set(f, w.appendCells(v, s, src, lay))
		}
	case "copy":
		lay := w.layout(call.Args[0].Type().Underlying().(*types.Slice).Elem())
		return func(w *W, f *Frame) {
			d, _ := args[0].get(f).P.(*Slice)
			y := args[1].get(f)
			var src []V
			switch ys := y.P.(type) {
			case *Slice:
				src = w.sliceCells(ys)
			case *Str:
				src = strCells(y)
			}
			n := 0
			if d != nil && len(src) > 0 {
				n = d.len
				if m := len(src) / lay.n; m < n {
					n = m
				}
				tmp := append([]V(nil), src[:n*lay.n]...)
				for i, v := range tmp {
					w.setCell(d.obj, d.off+i, v)
				}
			}
			set(f, vint(n))
		}
	case "delete":
		mt := call.Args[0].Type().Underlying().(*types.Map)
		return func(w *W, f *Frame) {
			w.mapDelete(args[0].get(f), args[1].get(f), mt)
			set(f, V{})
		}
	case "clear":
		return func(w *W, f *Frame) {
			switch x := args[0].get(f).P.(type) {
			case *Slice:
				for i := 0; i < x.len*x.esz; i++ {
					w.setCell(x.obj, x.off+i, V{})
				}
			case *MapObj:
				w.mapClear(x)
			}
			set(f, V{})
		}
	case "print", "println":
		return func(w *W, f *Frame) { set(f, V{}) }
	case "recover":
		return func(w *W, f *Frame) {
			cl := f.caller
			if f.isDefer && cl != nil && cl.panicking != nil && !cl.recovered {
				if cl.shared {
					cl = cl.clone()
					f.caller = cl
				}
				cl.recovered = true
				set(f, cl.panicking.val)
				return
			}
			set(f, V{})
		}
	}
	return func(w *W, f *Frame) { panic(unsupported("builtin " + name)) }
}

func (w *W) builtinValue(c *CFunc, b *ssa.Builtin, call *ssa.CallCommon, args []opnd) func(w *W, f *Frame) V {
	switch b.Name() {
	case "len":
		at := call.Args[0].Type().Underlying()
		if p, ok := at.(*types.Pointer); ok {
			at = p.Elem().Underlying()
		}
		if a, ok := at.(*types.Array); ok {
			n := int(a.Len())
			return func(w *W, f *Frame) V { return vint(n) }
		}
		return func(w *W, f *Frame) V {
			v := args[0].get(f)
			switch x := v.P.(type) {
			case nil:
				return V{}
			case *Slice:
				return vint(x.len)
			case *Str:
				return vint(strLen(v))
			case *MapObj:
				return vint(x.nlive)
			}
			panic(unsupported(fmt.Sprintf("len of %T", v.P)))
		}
	case "cap":
		at := call.Args[0].Type().Underlying()
		if p, ok := at.(*types.Pointer); ok {
			at = p.Elem().Underlying()
		}
		if a, ok := at.(*types.Array); ok {
			n := int(a.Len())
			return func(w *W, f *Frame) V { return vint(n) }
		}
		return func(w *W, f *Frame) V {
			if s, ok := args[0].get(f).P.(*Slice); ok {
				return vint(s.cap)
			}
			return V{}
		}
	case "min", "max":
		isMin := b.Name() == "min"
		t := call.Args[0].Type()
		k := leafKind(t)
		sg := isSigned(t)
		return func(w *W, f *Frame) V {
			r := args[0].get(f)
			for _, o := range args[1:] {
				v := o.get(f)
				if k > 64 {
					panic(unsupported("min/max of non-integer"))
				}
				x, y := w.term(r, k), w.term(v, k)
				var lt *Term
				if sg {
					lt = w.tb.Slt(y, x)
				} else {
					lt = w.tb.Ult(y, x)
				}
				if isMin {
					r = fromTerm(w.tb.Ite(lt, y, x))
				} else {
					r = fromTerm(w.tb.Ite(lt, x, y))
				}
			}
			return r
		}
	case "ssa:wrapnilchk":
		return func(w *W, f *Frame) V {
			v := args[0].get(f)
			if v.P == nil {
				w.nilDeref()
			}
			return v
		}
	case "String": // unsafe.String(ptr, len)
		return func(w *W, f *Frame) V {
			p := args[0].get(f)
			n := int(args[1].get(f).N)
			if n == 0 {
				return V{}
			}
			o, ok := p.P.(*Obj)
			if !ok {
				panic(unsupported("unsafe.String"))
			}
			return w.aliasStr(&Slice{o, int(p.N), n, n, 1})
		}
	case "Slice": // unsafe.Slice
		esz := w.layout(call.Args[0].Type().Underlying().(*types.Pointer).Elem()).n
		bw := w.layout(call.Args[0].Type().Underlying().(*types.Pointer).Elem())
		return func(w *W, f *Frame) V {
			p := args[0].get(f)
			nv := args[1].get(f)
			n := w.concInt(nv, 64, true, "unsafe.Slice")
			if p.P == nil {
				return V{}
			}
			o, ok := p.P.(*Obj)
			if !ok {
				panic(unsupported("unsafe.Slice"))
			}
			if o.bytes != 0 && bw.n == 1 && bw.leaf[0] >= 8 && bw.leaf[0] <= 64 && o.bytes != bw.leaf[0]/8 {
				o = w.viewObj(o, int(p.N), bw.leaf[0]/8)
				return V{P: &Slice{o, 0, n, n, 1}}
			}
			return V{P: &Slice{o, int(p.N), n, n, esz}}
		}
	case "SliceData":
		return func(w *W, f *Frame) V {
			s, _ := args[0].get(f).P.(*Slice)
			if s == nil {
				return V{}
			}
			return V{P: s.obj, N: uint64(s.off)}
		}
	case "StringData":
		return func(w *W, f *Frame) V {
			c := strCells(args[0].get(f))
			if len(c) == 0 {
				return V{}
			}
			return V{P: w.newCells(append([]V(nil), c...))}
		}
	case "real", "imag", "complex":
		return func(w *W, f *Frame) V { panic(unsupported("complex numbers")) }
	}
	return nil
}

// appendCells appends element cells to a slice.
func (w *W) appendCells(v V, s *Slice, src []V, lay *Layout) V {
	if len(src) == 0 && lay.n > 0 {
		return v
	}
	if lay.n == 0 {
		if s == nil {
			return V{P: &Slice{w.newObj(lay, 1), 0, 1, 1, 0}}
		}
		return V{P: &Slice{s.obj, s.off, s.len + 1, s.cap + 1, 0}}
	}
	add := len(src) / lay.n
	if s != nil && s.len+add <= s.cap {
		tmp := src
		if add > 1 {
			tmp = append([]V(nil), src...)
		}
		base := s.off + s.len*lay.n
		for i := range tmp {
			w.setCell(s.obj, base+i, tmp[i])
		}
		return V{P: &Slice{s.obj, s.off, s.len + add, s.cap, lay.n}}
	}
	n, ocap := 0, 0
	if s != nil {
		n, ocap = s.len, s.cap
	}
	nc := growCap(ocap, n+add, lay)
	o := w.newObj(lay, nc)
	if s != nil {
		copy(o.cells, w.sliceCells(s))
	}
	copy(o.cells[n*lay.n:], src)
	return V{P: &Slice{o, 0, n + add, nc, lay.n}}
}

func growCap(old, need int, lay *Layout) int {
	nc := old
	if need > 2*old {
		nc = need
	} else if old < 256 {
		nc = 2 * old
	} else {
		for nc < need {
			nc += (nc + 3*256) / 4
		}
	}
	if nc < need {
		nc = need
	}
	if lay.n == 1 && lay.leaf[0] == 8 { // byte size classes
		for _, sc := range []int{8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512} {
			if nc <= sc {
				return sc
			}
		}
	}
	return nc
}

// ---- maps ----

func (w *W) newMap(mt *types.Map) V {
	w.nextObj++
	return V{P: &MapObj{idx: map[string]int{}, id: w.nextObj, kt: mt.Key(), vt: mt.Elem()}}
}

// mapKey returns a canonical string for a concrete key.
func (w *W) mapKey(k V, t types.Type, sb *strings.Builder) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			s, ok := concStr(k)
			if !ok {
				return false
			}
			fmt.Fprintf(sb, "%d:%s", len(s), s)
			return true
		}
		if k.P != nil {
			if o, ok := k.P.(*Obj); ok {
				fmt.Fprintf(sb, "p%d.%d", o.id, k.N)
				return true
			}
			return false
		}
		var b [9]byte
		for i := 0; i < 8; i++ {
			b[i] = byte(k.N >> (8 * i))
		}
		b[8] = ';'
		sb.Write(b[:])
		return true
	case *types.Interface:
		i, _ := k.P.(*Iface)
		if i == nil {
			sb.WriteString("nil;")
			return true
		}
		fmt.Fprintf(sb, "t%d:", i.t.id)
		return w.mapKey(i.v, i.t.t, sb)
	case *types.Struct:
		l := w.layout(t)
		c := aggCells(k, l.n)
		for i := 0; i < u.NumFields(); i++ {
			if !w.mapKey(w.aggSub(c, l.fields[i], w.layout(u.Field(i).Type())), u.Field(i).Type(), sb) {
				return false
			}
		}
		return true
	case *types.Array:
		l := w.layout(t)
		c := aggCells(k, l.n)
		for i := 0; i < l.alen; i++ {
			if !w.mapKey(w.aggSub(c, i*l.elem.n, l.elem), u.Elem(), sb) {
				return false
			}
		}
		return true
	case *types.Pointer:
		if k.P == nil {
			sb.WriteString("nil")
			return true
		}
		o, ok := k.P.(*Obj)
		if !ok {
			return false
		}
		fmt.Fprintf(sb, "p%d.%d;", o.id, k.N)
		return true
	}
	panic(unsupported("map key " + t.String()))
}

// mapFind returns the entry index of k (forking on symbolic comparisons) or -1.
func (w *W) mapFind(m *MapObj, k V) (int, string, bool) {
	var sb strings.Builder
	conc := w.mapKey(k, m.kt, &sb)
	key := sb.String()
	if conc {
		if i, ok := m.idx[key]; ok {
			return i, key, true
		}
		if m.nsym == 0 {
			return -1, key, true
		}
	}
	for i := range m.ents {
		if !m.ents[i].live {
			continue
		}
		if w.choose(w.eqV(k, m.ents[i].k, m.kt)) {
			return i, key, conc
		}
	}
	return -1, key, conc
}

func (w *W) mapLookup(mv, k V, mt *types.Map, vl *Layout) (V, V) {
	m, _ := mv.P.(*MapObj)
	if m == nil {
		return V{}, V{}
	}
	var sb strings.Builder
	if w.mapKey(k, m.kt, &sb) && m.nsym == 0 {
		if i, ok := m.idx[sb.String()]; ok {
			return m.ents[i].v, V{N: 1}
		}
		return V{}, V{}
	}
	// symbolic key: merge when values are mergeable
	val := V{}
	found := w.tb.False
	ok := true
	for i := len(m.ents) - 1; i >= 0; i-- {
		e := &m.ents[i]
		if !e.live {
			continue
		}
		c := w.eqV(k, e.k, m.kt)
		if c == w.tb.False {
			continue
		}
		found = w.tb.Or(found, c)
		val, ok = w.mergeT(c, e.v, val, vl)
		if !ok {
			break
		}
	}
	if ok {
		return val, fromTerm(found)
	}
	i, _, _ := w.mapFind(m, k)
	if i < 0 {
		return V{}, V{}
	}
	return m.ents[i].v, V{N: 1}
}

func (w *W) mapUpdate(mv, k, v V, mt *types.Map) {
	m, _ := mv.P.(*MapObj)
	if m == nil {
		w.goPanic(V{P: &Iface{w.eng.rtErrType, vstr("assignment to entry in nil map")}})
	}
	if m.frozen != "" {
		w.frozenWrite(m.frozen)
	}
	if w.spec > 0 {
		panic(specAbort{"map update"})
	}
	i, key, conc := w.mapFind(m, k)
	if i >= 0 {
		old := m.ents[i].v
		w.onUndo(func() { m.ents[i].v = old })
		m.ents[i].v = v
		return
	}
	n := len(m.ents)
	m.ents = append(m.ents, mapEnt{k, v, true})
	m.nlive++
	if conc {
		m.idx[key] = n
	} else {
		m.nsym++
	}
	w.onUndo(func() {
		m.ents = m.ents[:n]
		m.nlive--
		if conc {
			delete(m.idx, key)
		} else {
			m.nsym--
		}
	})
}

func (w *W) mapDelete(mv, k V, mt *types.Map) {
	m, _ := mv.P.(*MapObj)
	if m == nil {
		return
	}
	if m.frozen != "" {
		w.frozenWrite(m.frozen)
	}
	if w.spec > 0 {
		panic(specAbort{"map delete"})
	}
	i, _, _ := w.mapFind(m, k)
	if i < 0 {
		return
	}
	w.mapKill(m, i)
}

func (w *W) mapKill(m *MapObj, i int) {
	var sb strings.Builder
	conc := w.mapKey(m.ents[i].k, m.kt, &sb)
	key := sb.String()
	m.ents[i].live = false
	m.nlive--
	if conc {
		delete(m.idx, key)
	} else {
		m.nsym--
	}
	w.onUndo(func() {
		m.ents[i].live = true
		m.nlive++
		if conc {
			m.idx[key] = i
		} else {
			m.nsym++
		}
	})
}

func (w *W) mapClear(m *MapObj) {
	if w.spec > 0 {
		panic(specAbort{"map clear"})
	}
	if m.frozen != "" {
		w.frozenWrite(m.frozen)
	}
	for i := range m.ents {
		if m.ents[i].live {
			w.mapKill(m, i)
		}
	}
}
