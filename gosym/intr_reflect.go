package main

import "go/types"

// A model of the small part of package reflect that names types and makes values of them.

func (w *W) reflectType(t types.Type) V {
	r := w.rtype(t)
	o := w.reflTypes[r]
	if o == nil {
		o = &Obj{cells: []V{{}}, lay: w.lay8, what: "type " + t.String(), native: r}
		w.reflTypes[r] = o
	}
	rt := w.eng.pkgType("reflect", "rtype")
	if rt == nil {
		panic(unsupported("reflect"))
	}
	return V{P: &Iface{w.rtype(types.NewPointer(rt)), V{P: o}}}
}

func (w *W) typeOfReflect(v V) types.Type {
	if i, ok := v.P.(*Iface); ok {
		v = i.v
	}
	if o, ok := v.P.(*Obj); ok {
		if r, ok := o.native.(*RType); ok {
			return r.t
		}
	}
	panic(unsupported("reflect type"))
}

// reflectValue is a value of type t.
func (w *W) reflectValue(t types.Type, v V) V {
	vt := w.eng.pkgType("reflect", "Value")
	c := make([]V, w.layout(vt).n)
	if len(c) < 3 {
		panic(unsupported("reflect.Value"))
	}
	tv := w.reflectType(t).P.(*Iface).v
	c[0], c[1], c[2] = tv, V{P: &reflBox{v}}, V{N: 1}
	return V{P: &Agg{c}}
}

type reflBox struct{ v V }

func (w *W) ofReflectValue(v V) (types.Type, V) {
	a, ok := v.P.(*Agg)
	if !ok || len(a.c) < 3 || a.c[0].P == nil {
		panic(unsupported("reflect.Value"))
	}
	b, ok := a.c[1].P.(*reflBox)
	if !ok {
		panic(unsupported("reflect.Value"))
	}
	return w.typeOfReflect(a.c[0]), b.v
}

func init() {
	reg("reflect.TypeOf", func(w *W, fn *CFunc, a []V) (V, bool) {
		i, _ := a[0].P.(*Iface)
		if i == nil {
			return V{}, true
		}
		return w.reflectType(i.t.t), true
	})
	reg("reflect.ValueOf", func(w *W, fn *CFunc, a []V) (V, bool) {
		i, _ := a[0].P.(*Iface)
		if i == nil {
			return V{}, false
		}
		return w.reflectValue(i.t.t, i.v), true
	})
	named := func(t types.Type) *types.TypeName {
		switch t := types.Unalias(t).(type) {
		case *types.Named:
			return t.Obj()
		case *types.Basic:
			return types.NewTypeName(0, nil, t.Name(), nil)
		}
		return nil
	}
	reg("(*reflect.rtype).PkgPath", func(w *W, fn *CFunc, a []V) (V, bool) {
		if o := named(w.typeOfReflect(a[0])); o != nil && o.Pkg() != nil {
			return vstr(o.Pkg().Path()), true
		}
		return vstr(""), true
	})
	reg("(*reflect.rtype).Name", func(w *W, fn *CFunc, a []V) (V, bool) {
		if o := named(w.typeOfReflect(a[0])); o != nil {
			return vstr(o.Name()), true
		}
		return vstr(""), true
	})
	reg("(*reflect.rtype).String", func(w *W, fn *CFunc, a []V) (V, bool) {
		return vstr(types.TypeString(w.typeOfReflect(a[0]), func(p *types.Package) string { return p.Name() })), true
	})
	reg("(*reflect.rtype).Elem", func(w *W, fn *CFunc, a []V) (V, bool) {
		if p, ok := w.typeOfReflect(a[0]).Underlying().(*types.Pointer); ok {
			return w.reflectType(p.Elem()), true
		}
		panic(unsupported("reflect Elem"))
	})
	reg("reflect.New", func(w *W, fn *CFunc, a []V) (V, bool) {
		if a[0].P == nil {
			panic(unsupported("reflect.New(nil)"))
		}
		t := w.typeOfReflect(a[0])
		return w.reflectValue(types.NewPointer(t), V{P: w.newObj(w.layout(t), 1)}), true
	})
	reg("(reflect.Value).Interface", func(w *W, fn *CFunc, a []V) (V, bool) {
		t, v := w.ofReflectValue(a[0])
		return V{P: &Iface{w.rtype(t), v}}, true
	})
	reg("(reflect.Value).Type", func(w *W, fn *CFunc, a []V) (V, bool) {
		t, _ := w.ofReflectValue(a[0])
		return w.reflectType(t), true
	})
}

func init() {
	reg("os.Executable", func(w *W, fn *CFunc, a []V) (V, bool) { return tuple(vstr("/zz/bin/zz"), V{}), true })
}
