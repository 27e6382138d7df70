package main

import (
	"go/types"
	"runtime"

	"golang.org/x/tools/go/ssa"
)

// A region is an acyclic group of blocks entered only through one If (or a function
// entry) whose instructions have no control effects, so that both outcomes of the branch
// can be evaluated under guards and joined with if-then-else terms instead of forking.
type region struct {
	ok     bool
	blocks []*rblock
	exits  []int // block indexes; retExit for function return
	start  int   // block index of the branching block (-1: function entry)
}

const retExit = -1

type rblock struct {
	idx    int
	preds  []int // block indexes of predecessors within region ∪ {start}
	phis   map[int][]phiMove
	steps  []rstep
	cond   *opnd
	succs  []int // block index or retExit
	ret    []opnd
	isRet  bool
	retLay []*Layout
}

type rstep struct {
	dst   int
	ev    func(w *W, f *Frame) V
	store *storeStep
	call  *callStep
}

type storeStep struct {
	p, v opnd
	lay  *Layout
}

type callStep struct {
	fn   *CFunc
	args []opnd
}

const (
	maxRegionBlocks = 24
	maxRegionInstrs = 120
)

func pureBuiltin(name string) bool {
	switch name {
	case "len", "cap", "min", "max", "ssa:wrapnilchk":
		return true
	}
	return false
}

func (w *W) pureBlock(c *CFunc, b *ssa.BasicBlock, depth int) (int, bool) {
	n := 0
	for _, ins := range b.Instrs {
		n++
		switch x := ins.(type) {
		case *ssa.Phi, *ssa.DebugRef:
			n--
		case *ssa.BinOp, *ssa.UnOp, *ssa.ChangeType, *ssa.Convert, *ssa.ChangeInterface, *ssa.MakeInterface,
			*ssa.FieldAddr, *ssa.Field, *ssa.IndexAddr, *ssa.Index, *ssa.Lookup, *ssa.Extract, *ssa.TypeAssert,
			*ssa.Slice, *ssa.Alloc, *ssa.Jump, *ssa.If, *ssa.Return, *ssa.Store:
		case *ssa.Call:
			if bi, ok := x.Call.Value.(*ssa.Builtin); ok {
				if !pureBuiltin(bi.Name()) {
					return 0, false
				}
				continue
			}
			fn := x.Call.StaticCallee()
			if fn == nil || depth <= 0 {
				return 0, false
			}
			if _, ok := x.Call.Value.(*ssa.MakeClosure); ok {
				return 0, false
			}
			cf := w.cfunc(fn)
			if cf.intr != nil && !w.eng.pureIntr[cf.name] {
				return 0, false
			}
			if cf.intr == nil && w.pureRegion(cf, depth-1) == nil {
				return 0, false
			}
			n += 4
		default:
			return 0, false
		}
	}
	return n, true
}

// pureRegion returns the whole-body region of a function, or nil.
func (w *W) pureRegion(c *CFunc, depth int) *region {
	if c.pureTried {
		return c.pure
	}
	c.pureTried = true
	if c.fn.Blocks == nil {
		if p := fnPkg(c.fn); p != nil {
			w.eng.buildPkg(p)
		}
	}
	fn := c.fn
	if fn.Blocks == nil || fn.Recover != nil || len(fn.Blocks) > maxRegionBlocks || len(fn.FreeVars) > 0 {
		return nil
	}
	w.ensureCompiled(c)
	r := w.buildRegion(c, nil, depth)
	if r == nil || len(r.exits) != 1 || r.exits[0] != retExit || len(r.blocks) != len(fn.Blocks) {
		return nil
	}
	c.pure = r
	return r
}

func (w *W) buildRegion(c *CFunc, start *ssa.BasicBlock, depth int) *region {
	fn := c.fn
	in := map[int]bool{}
	var order []*ssa.BasicBlock
	instrs := 0
	startIdx := -2
	if start != nil {
		startIdx = start.Index
	}
	exitsOf := func(bs []*ssa.BasicBlock) []int {
		set := map[int]bool{}
		member := map[int]bool{}
		for _, b := range bs {
			member[b.Index] = true
		}
		add := func(b *ssa.BasicBlock) {
			if len(b.Succs) == 0 {
				set[retExit] = true
			}
			for _, s := range b.Succs {
				if !member[s.Index] {
					set[s.Index] = true
				}
			}
		}
		if start != nil {
			add(start)
		}
		for _, b := range bs {
			add(b)
		}
		var r []int
		for x := range set {
			r = append(r, x)
		}
		if len(r) == 2 && r[0] > r[1] {
			r[0], r[1] = r[1], r[0]
		}
		return r
	}
	best := -1
	for len(order) < maxRegionBlocks && instrs < maxRegionInstrs {
		var cand *ssa.BasicBlock
		try := func(b *ssa.BasicBlock) {
			if cand != nil || in[b.Index] || b.Index == startIdx {
				return
			}
			if len(b.Preds) == 0 && !(start == nil && b.Index == 0) {
				return
			}
			for _, p := range b.Preds {
				if !in[p.Index] && p.Index != startIdx {
					return
				}
			}
			if start == nil && b.Index == 0 && len(b.Preds) > 0 {
				return
			}
			last := b.Instrs[len(b.Instrs)-1]
			switch last.(type) {
			case *ssa.Jump, *ssa.If:
			case *ssa.Return:
				if fn.Recover != nil {
					return
				}
			default:
				return
			}
			n, ok := w.pureBlock(c, b, depth)
			if !ok {
				return
			}
			instrs += n
			cand = b
		}
		if start == nil && len(order) == 0 {
			try(fn.Blocks[0])
		} else {
			if start != nil {
				for _, s := range start.Succs {
					try(s)
				}
			}
			for _, b := range order {
				for _, s := range b.Succs {
					try(s)
				}
			}
		}
		if cand == nil {
			break
		}
		in[cand.Index] = true
		order = append(order, cand)
		if len(exitsOf(order)) <= 2 {
			best = len(order)
		}
	}
	if best <= 0 {
		return nil
	}
	order = order[:best]
	r := &region{ok: true, exits: exitsOf(order), start: startIdx}
	// a loop back to the start block is an exit to it; fine (it is just a target)
	for _, b := range order {
		rb := &rblock{idx: b.Index, phis: map[int][]phiMove{}}
		seen := map[int]bool{}
		for _, p := range b.Preds {
			if !seen[p.Index] {
				seen[p.Index] = true
				rb.preds = append(rb.preds, p.Index)
			}
			if mv := c.phiMoves[[2]int{p.Index, b.Index}]; mv != nil {
				rb.phis[p.Index] = mv
			}
		}
		for _, ins := range b.Instrs {
			switch x := ins.(type) {
			case *ssa.Phi, *ssa.DebugRef, *ssa.Jump:
			case *ssa.If:
				o := w.operand(c, x.Cond)
				rb.cond = &o
			case *ssa.Return:
				rb.isRet = true
				for _, v := range x.Results {
					rb.ret = append(rb.ret, w.operand(c, v))
				}
				rb.retLay = c.resLay
			case *ssa.Store:
				rb.steps = append(rb.steps, rstep{store: &storeStep{w.operand(c, x.Addr), w.operand(c, x.Val), w.layout(x.Val.Type())}})
			case *ssa.Call:
				var args []opnd
				for _, a := range x.Call.Args {
					args = append(args, w.operand(c, a))
				}
				dst := c.regOf[x]
				if bi, ok := x.Call.Value.(*ssa.Builtin); ok {
					rb.steps = append(rb.steps, rstep{dst: dst, ev: w.builtinValue(c, bi, &x.Call, args)})
				} else {
					rb.steps = append(rb.steps, rstep{dst: dst, call: &callStep{w.cfunc(x.Call.StaticCallee()), args}})
				}
			default:
				ev := w.compileValueSafe(c, ins)
				if ev == nil {
					return nil
				}
				rb.steps = append(rb.steps, rstep{dst: c.regOf[ins.(ssa.Value)], ev: ev})
			}
		}
		if rb.isRet {
			rb.succs = []int{retExit}
		} else {
			for _, s := range b.Succs {
				rb.succs = append(rb.succs, s.Index)
			}
		}
		r.blocks = append(r.blocks, rb)
	}
	return r
}

func (w *W) compileValueSafe(c *CFunc, ins ssa.Instruction) (ev func(w *W, f *Frame) V) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(unsupportedErr); ok {
				ev = nil
				return
			}
			panic(r)
		}
	}()
	return w.compileValue(c, ins)
}

type redge struct {
	from  int
	guard *Term
}

type exitInfo struct {
	edges []redge
	rets  []V // return tuples, parallel to edges
}

// evalRegion evaluates the region's blocks; entry edges are given per target block.
func (w *W) evalRegion(c *CFunc, f *Frame, r *region, entry map[int][]redge, exits map[int]*exitInfo) {
	inEdges := entry
	saveG := w.specG
	defer func() { w.specG = saveG }()
	member := map[int]bool{}
	for _, rb := range r.blocks {
		member[rb.idx] = true
	}
	send := func(to int, e redge, ret V) {
		if e.guard == w.tb.False {
			return
		}
		if to != retExit && member[to] {
			inEdges[to] = append(inEdges[to], e)
			return
		}
		x := exits[to]
		if x == nil {
			x = &exitInfo{}
			exits[to] = x
		}
		x.edges = append(x.edges, e)
		if to == retExit {
			x.rets = append(x.rets, ret)
		}
	}
	// entry edges that leave the region at once
	for to, es := range entry {
		if !member[to] {
			for _, e := range es {
				send(to, e, V{})
			}
		}
	}
	for _, rb := range r.blocks {
		es := inEdges[rb.idx]
		if len(es) == 0 {
			continue
		}
		g := w.tb.False
		for _, e := range es {
			g = w.tb.Or(g, e.guard)
		}
		if g == w.tb.False {
			continue
		}
		w.specG = w.tb.And(saveG, g)
		if w.specG == w.tb.False {
			continue
		}
		w.mergePhis(f, es, func(from int) []phiMove { return rb.phis[from] })
		for i := range rb.steps {
			st := &rb.steps[i]
			switch {
			case st.ev != nil:
				f.regs[st.dst] = st.ev(w, f)
			case st.store != nil:
				w.store(st.store.p.get(f), st.store.v.get(f), st.store.lay)
			case st.call != nil:
				as := make([]V, len(st.call.args))
				for k := range as {
					as[k] = st.call.args[k].get(f)
				}
				f.regs[st.dst] = w.specCall(st.call.fn, as)
			}
		}
		switch {
		case rb.isRet:
			var ret V
			switch len(rb.ret) {
			case 0:
			case 1:
				ret = rb.ret[0].get(f)
			default:
				cs := make([]V, len(rb.ret))
				for i := range cs {
					cs[i] = rb.ret[i].get(f)
				}
				ret = V{P: &Agg{cs}}
			}
			send(retExit, redge{rb.idx, g}, ret)
		case rb.cond != nil:
			cv := rb.cond.get(f)
			if cv.P == nil {
				if cv.N != 0 {
					send(rb.succs[0], redge{rb.idx, g}, V{})
				} else {
					send(rb.succs[1], redge{rb.idx, g}, V{})
				}
			} else {
				ct := cv.P.(*Term)
				send(rb.succs[0], redge{rb.idx, w.tb.And(g, ct)}, V{})
				send(rb.succs[1], redge{rb.idx, w.tb.And(g, w.tb.Not(ct))}, V{})
			}
		default:
			send(rb.succs[0], redge{rb.idx, g}, V{})
		}
	}
}

// mergePhis assigns the phis of a block entered over the given edges.
func (w *W) mergePhis(f *Frame, es []redge, moves func(from int) []phiMove) {
	mv0 := moves(es[0].from)
	if len(mv0) == 0 {
		return
	}
	vals := make([]V, len(mv0))
	for i := range mv0 {
		vals[i] = mv0[i].src.get(f)
	}
	for _, e := range es[1:] {
		mv := moves(e.from)
		for i := range mv {
			v := mv[i].src.get(f)
			vals[i] = w.mergeSpec(e.guard, v, vals[i], mv[i].lay)
		}
	}
	for i := range mv0 {
		f.regs[mv0[i].dst] = vals[i]
	}
}

func (w *W) mergeSpec(g *Term, a, b V, l *Layout) V {
	if a == b {
		return a
	}
	if !w.eng.mergeInts && a.P == nil && b.P == nil && !l.agg && l.leaf[0] == 64 {
		// two different concrete machine integers: indexes and lengths are better forked
		if bt, ok := l.t.Underlying().(*types.Basic); ok && bt.Kind() == types.Int {
			panic(specAbort{"int merge"})
		}
	}
	v, ok := w.mergeT(g, a, b, l)
	if !ok {
		panic(specAbort{"phi merge"})
	}
	return v
}

// specCall evaluates a pure function under the current speculation guard.
func (w *W) specCall(cf *CFunc, args []V) V {
	if cf.intr != nil {
		r, ok := cf.intr(w, cf, args)
		if !ok {
			panic(specAbort{"intrinsic"})
		}
		return r
	}
	r := cf.pure
	if r == nil {
		panic(specAbort{"not pure"})
	}
	g := &Frame{fn: cf, regs: make([]V, cf.nregs), caller: w.top}
	copy(g.regs, args)
	exits := map[int]*exitInfo{}
	entry := map[int][]redge{0: {{from: -5, guard: w.tb.True}}}
	w.evalRegion(cf, g, r, entry, exits)
	x := exits[retExit]
	if x == nil || len(x.edges) == 0 {
		panic(specAbort{"no return"})
	}
	cf.calls++
	return w.mergeRets(cf, x)
}

func (w *W) mergeRets(cf *CFunc, x *exitInfo) V {
	v := x.rets[0]
	if len(cf.resLay) == 0 {
		return V{}
	}
	for i, e := range x.edges[1:] {
		o := x.rets[i+1]
		if len(cf.resLay) == 1 {
			v = w.mergeSpec(e.guard, o, v, cf.resLay[0])
			continue
		}
		a, b := o.P.(*Agg).c, v.P.(*Agg).c
		r := make([]V, len(a))
		for j := range r {
			r[j] = w.mergeSpec(e.guard, a[j], b[j], cf.resLay[j])
		}
		v = V{P: &Agg{r}}
	}
	return v
}

// tryMerge handles a symbolic branch by if-conversion when possible.
func (w *W) tryMerge(c *CFunc, f *Frame, b *ssa.BasicBlock, ct *Term) (done bool) {
	r, ok := c.regions[b.Index]
	if !ok {
		if !w.eng.noMerge {
			r = w.buildRegion(c, b, 3)
		}
		c.regions[b.Index] = r
	}
	if r == nil {
		return false
	}
	exits := map[int]*exitInfo{}
	if !w.specRun(func() {
		entry := map[int][]redge{}
		t, e := b.Succs[0].Index, b.Succs[1].Index
		entry[t] = append(entry[t], redge{b.Index, ct})
		entry[e] = append(entry[e], redge{b.Index, w.tb.Not(ct)})
		w.evalRegion(c, f, r, entry, exits)
	}) {
		return false
	}
	// prepare merged values per exit
	type plan struct {
		to   int
		cond *Term
		vals []V
		mv   []phiMove
		ret  V
	}
	var plans []plan
	if !w.specRun(func() {
		for _, to := range r.exits {
			x := exits[to]
			if x == nil || len(x.edges) == 0 {
				continue
			}
			p := plan{to: to, cond: w.tb.False}
			for _, e := range x.edges {
				p.cond = w.tb.Or(p.cond, e.guard)
			}
			if to == retExit {
				p.ret = w.mergeRets(c, x)
			} else {
				p.mv = c.phiMoves[[2]int{x.edges[0].from, to}]
				p.vals = make([]V, len(p.mv))
				for i := range p.mv {
					p.vals[i] = p.mv[i].src.get(f)
				}
				for _, e := range x.edges[1:] {
					mv := c.phiMoves[[2]int{e.from, to}]
					for i := range mv {
						p.vals[i] = w.mergeSpec(e.guard, mv[i].src.get(f), p.vals[i], mv[i].lay)
					}
				}
			}
			plans = append(plans, p)
		}
	}) {
		return false
	}
	if len(plans) == 0 || len(plans) > 2 {
		w.undoTo(w.instrTrail)
		return false
	}
	pick := 0
	if len(plans) == 2 {
		if !w.choose(plans[0].cond) {
			pick = 1
		}
	} else {
		w.res.merges.Add(1)
	}
	p := plans[pick]
	if p.to == retExit {
		w.doReturn(p.ret)
		return true
	}
	for i := range p.mv {
		f.regs[p.mv[i].dst] = p.vals[i]
	}
	f.pc = c.blockPC[p.to]
	return true
}

// specRun runs fn in speculation mode; on abort memory effects of the instruction are undone.
func (w *W) specRun(fn func()) (ok bool) {
	save := w.specG
	w.spec++
	w.specG = w.tb.True
	defer func() {
		w.spec--
		w.specG = save
		if r := recover(); r != nil {
			if _, is := r.(specAbort); is {
				w.undoTo(w.instrTrail)
				ok = false
				return
			}
			if _, is := r.(unsupportedErr); is {
				w.undoTo(w.instrTrail)
				ok = false
				return
			}
			if _, is := r.(runtime.Error); is && w.fs.gone > 0 {
				w.undoTo(w.instrTrail)
				ok = false
				return
			}
			panic(r)
		}
	}()
	fn()
	return true
}
