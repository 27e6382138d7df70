package main

import (
	"fmt"
	"go/types"
	"math"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// fmtCells formats v (an interface value) for a verb; symbolic integers are concretized, symbolic
// string bytes are kept.
func (w *W) fmtCells(x V, verb byte, spec string) V {
	i, _ := x.P.(*Iface)
	if i == nil {
		return vstr("<nil>")
	}
	if i.t == w.eng.rtErrType {
		return strConcat(vstr("runtime error: "), i.v)
	}
	if verb == 'T' {
		return vstr(i.t.t.String())
	}
	return w.fmtTyped(i.v, i.t.t, x, verb, spec)
}

func (w *W) fmtTyped(v V, t types.Type, asIface V, verb byte, spec string) V {
	if verb != 'd' && verb != 'x' && verb != 'p' && asIface.P != nil {
		if isErrorType(t) {
			return w.errText(asIface)
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if k, ok := basicWidth(u); ok {
			if v.P != nil && !isSym(v) {
				return vstr("<ptr>")
			}
			n := v.N
			if s, ok := v.P.(*Term); ok && k > 0 && spec == "" && (verb == 'd' || verb == 'v') {
				return w.decimal(s, isSigned(t))
			}
			if s, ok := v.P.(*Term); ok {
				n = w.concretize(s, "formatted value")
			}
			f := "%" + spec + string(verb)
			if k == 0 {
				return vstr(fmt.Sprintf(f, n != 0))
			}
			if isSigned(t) {
				return vstr(fmt.Sprintf(f, sext64(n, k)))
			}
			if k == 8 && verb == 'c' {
				return vstr(fmt.Sprintf(f, byte(n)))
			}
			return vstr(fmt.Sprintf(f, n))
		}
		if u.Info()&types.IsString != 0 {
			if s, ok := concStr(v); ok {
				return vstr(fmt.Sprintf("%"+spec+string(verb), s))
			}
			if (verb == 's' || verb == 'v') && spec == "" {
				return v
			}
			panic(unsupported("format of symbolic string with %" + spec + string(verb)))
		}
		if u.Info()&types.IsFloat != 0 {
			return vstr(fmt.Sprintf("%"+spec+string(verb), math.Float64frombits(v.N)))
		}
	case *types.Slice:
		s, _ := v.P.(*Slice)
		el := u.Elem()
		if b, ok := el.Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 && (verb == 's' || verb == 'q' || verb == 'x') {
			return w.fmtTyped(mkStr(append([]V(nil), w.bytesOf(v)...)), types.Typ[types.String], V{}, verb, spec)
		}
		r := vstr("[")
		if s != nil {
			l := w.layout(el)
			for i := 0; i < s.len; i++ {
				if i > 0 {
					r = strConcat(r, vstr(" "))
				}
				e := w.load(V{P: s.obj, N: uint64(s.off + i*s.esz)}, l)
				if types.IsInterface(el) {
					r = strConcat(r, w.fmtCells(e, verb, spec))
				} else {
					r = strConcat(r, w.fmtTyped(e, el, V{}, verb, spec))
				}
			}
		}
		return strConcat(r, vstr("]"))
	case *types.Struct:
		r := vstr("{")
		l := w.layout(t)
		c := aggCells(v, l.n)
		for i := 0; i < u.NumFields(); i++ {
			if i > 0 {
				r = strConcat(r, vstr(" "))
			}
			ft := u.Field(i).Type()
			fv := w.aggSub(c, l.fields[i], w.layout(ft))
			if types.IsInterface(ft) {
				r = strConcat(r, w.fmtCells(fv, verb, spec))
			} else {
				r = strConcat(r, w.fmtTyped(fv, ft, V{}, verb, spec))
			}
		}
		return strConcat(r, vstr("}"))
	case *types.Pointer:
		if v.P == nil {
			return vstr("<nil>")
		}
		if o, ok := v.P.(*Obj); ok {
			if isAgg(u.Elem()) {
				return strConcat(vstr("&"), w.fmtTyped(w.load(V{P: o, N: v.N}, w.layout(u.Elem())), u.Elem(), V{}, verb, spec))
			}
		}
		return vstr("0xc000000000")
	}
	return vstr("<" + t.String() + ">")
}

// decimal is the decimal text of a symbolic integer: it forks on the sign and on the number of
// digits; the digits are terms.
func (w *W) decimal(t *Term, signed bool) V {
	tb := w.tb
	var cells []V
	if t.op == OSext && signed {
		t = t.a
	} else if t.op == OZext {
		t, signed = t.a, false
	}
	if signed {
		if n := tb.Slt(t, tb.Const(0, t.w)); w.choose(n) {
			cells = append(cells, V{N: '-'})
			t = tb.Neg(t)
		}
	}
	digits := 1
	for p := uint64(10); t.w > 3 && p <= mask(t.w); p *= 10 {
		if lt := tb.Ult(t, tb.Const(p, t.w)); w.choose(lt) {
			break
		}
		digits++
		if p > mask(t.w)/10 {
			break
		}
	}
	p := uint64(1)
	for i := 1; i < digits; i++ {
		p *= 10
	}
	for ; p > 0; p /= 10 {
		d := tb.Urem(tb.Udiv(t, tb.Const(p, t.w)), tb.Const(10, t.w))
		d = tb.Add(tb.Resize(d, 8, false), tb.Const('0', 8))
		cells = append(cells, fromTerm(d))
	}
	return mkStr(cells)
}

func isErrorType(t types.Type) bool {
	errI := types.Universe.Lookup("error").Type().Underlying().(*types.Interface)
	return types.Implements(t, errI)
}

func (w *W) fmtValue(v V, verb byte, _ any) string {
	r := w.fmtCells(v, verb, "")
	c := strCells(r)
	b := make([]byte, len(c))
	for i := range c {
		b[i] = byte(c[i].N)
		if t, ok := c[i].P.(*Term); ok {
			b[i] = byte(w.tb.eval(t, w.model))
		}
	}
	return string(b)
}

// sprintf implements fmt.Sprintf over cells; wrapped is the operand of %w.
func (w *W) sprintf(format string, args []V) (V, V) {
	var out V
	var wrapped V
	n := 0
	for i := 0; i < len(format); {
		j := strings.IndexByte(format[i:], '%')
		if j < 0 {
			out = strConcat(out, vstr(format[i:]))
			break
		}
		out = strConcat(out, vstr(format[i:i+j]))
		i += j + 1
		st := i
		for i < len(format) && strings.IndexByte("+-# 0123456789.*", format[i]) >= 0 {
			i++
		}
		if i >= len(format) {
			out = strConcat(out, vstr("%!(NOVERB)"))
			break
		}
		spec, verb := format[st:i], format[i]
		i++
		if verb == '%' {
			out = strConcat(out, vstr("%"))
			continue
		}
		if n >= len(args) {
			out = strConcat(out, vstr("%!"+string(verb)+"(MISSING)"))
			continue
		}
		a := args[n]
		n++
		if verb == 'w' {
			wrapped = a
			verb = 'v'
		}
		if spec == "+" && verb == 'v' {
			spec = ""
		}
		out = strConcat(out, w.fmtCells(a, verb, spec))
	}
	if n < len(args) {
		out = strConcat(out, vstr("%!(EXTRA)"))
	}
	return out, wrapped
}

func (w *W) sprint(args []V, ln bool) V {
	var out V
	prevStr := true
	for i, a := range args {
		isS := false
		if x, _ := a.P.(*Iface); x != nil {
			if b, ok := x.t.t.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
				isS = true
			}
		}
		if i > 0 && (ln || (!isS && !prevStr)) {
			out = strConcat(out, vstr(" "))
		}
		out = strConcat(out, w.fmtCells(a, 'v', ""))
		prevStr = isS
	}
	if ln {
		out = strConcat(out, vstr("\n"))
	}
	return out
}

func (w *W) newError(pkg, typ string, cells ...V) V {
	p := w.eng.pkgs[pkg]
	t := p.Pkg.Scope().Lookup(typ).Type()
	o := w.newObj(w.layout(t), 1)
	copy(o.cells, cells)
	return V{P: &Iface{w.rtype(types.NewPointer(t)), V{P: o}}}
}

func (w *W) errorString(s V) V { return w.newError("errors", "errorString", s) }

// lookupNamed finds a method by name on a dynamic type.
func (w *W) lookupNamed(t *RType, name string) *CFunc {
	key := methKey{t, name}
	if c, ok := w.methods[key]; ok {
		return c
	}
	w.eng.intrMu.Lock()
	var fn *ssa.Function
	if sel := w.eng.prog.MethodSets.MethodSet(t.t).Lookup(nil, name); sel != nil {
		fn = w.eng.prog.MethodValue(sel)
	}
	w.eng.intrMu.Unlock()
	if fn == nil {
		return nil
	}
	c := w.cfunc(fn)
	w.methods[key] = c
	return c
}

// tailWrite continues with writer.Write(s) (whose results have the shape of fmt.Fprint's).
func (w *W) tailWrite(wr V, s V) (V, bool) {
	i, _ := wr.P.(*Iface)
	if i == nil {
		w.nilDeref()
	}
	if strLen(s) == 0 {
		return tuple(V{}, V{}), true
	}
	c := w.lookupNamed(i.t, "Write")
	if c == nil {
		panic(unsupported("no Write on " + i.t.t.String()))
	}
	b := w.mkBytes(strCells(s))
	return V{P: &tailCall{c, []V{i.v, b}, nil}}, true
}

func init() {
	fm := func(w *W, v V) string {
		s, ok := concStr(v)
		if !ok {
			panic(unsupported("symbolic format"))
		}
		return s
	}
	reg("fmt.Sprintf", func(w *W, fn *CFunc, a []V) (V, bool) {
		s, _ := w.sprintf(fm(w, a[0]), w.variadic(a[1]))
		return s, true
	})
	reg("fmt.Sprint", func(w *W, fn *CFunc, a []V) (V, bool) { return w.sprint(w.variadic(a[0]), false), true })
	reg("fmt.Sprintln", func(w *W, fn *CFunc, a []V) (V, bool) { return w.sprint(w.variadic(a[0]), true), true })
	reg("fmt.Errorf", func(w *W, fn *CFunc, a []V) (V, bool) {
		s, wr := w.sprintf(fm(w, a[0]), w.variadic(a[1]))
		if wr.P != nil {
			return w.newError("fmt", "wrapError", s, wr), true
		}
		return w.errorString(s), true
	})
	reg("fmt.Fprintf", func(w *W, fn *CFunc, a []V) (V, bool) {
		s, _ := w.sprintf(fm(w, a[1]), w.variadic(a[2]))
		return w.tailWrite(a[0], s)
	})
	reg("fmt.Fprint", func(w *W, fn *CFunc, a []V) (V, bool) {
		return w.tailWrite(a[0], w.sprint(w.variadic(a[1]), false))
	})
	reg("fmt.Fprintln", func(w *W, fn *CFunc, a []V) (V, bool) {
		return w.tailWrite(a[0], w.sprint(w.variadic(a[1]), true))
	})
	for _, n := range []string{"Printf", "Print", "Println"} {
		reg("fmt."+n, nop)
	}
	reg("strconv.Quote", func(w *W, fn *CFunc, a []V) (V, bool) {
		s, ok := concStr(a[0])
		if !ok {
			return V{}, false
		}
		return vstr(strconv.Quote(s)), true
	})
}
