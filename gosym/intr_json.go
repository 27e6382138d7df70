package main

import (
	"encoding/json"
	"fmt"
	"go/types"
	"strconv"
	"strings"
)

// A model of encoding/json decoding: the text may contain symbolic bytes inside string literals;
// everything else is concretized.

type jnode struct {
	kind     byte // o a s n t(rue) f(alse) z(null)
	str      V
	num      string
	keys     []string
	elems    []*jnode
	from, to int
}

type jerr struct{ msg string }

type jparser struct {
	w *W
	c []V
	i int
}

func (p *jparser) fail(f string, a ...any) { panic(jerr{fmt.Sprintf(f, a...)}) }

func (p *jparser) peek() byte {
	if p.i >= len(p.c) {
		p.fail("unexpected end of JSON input")
	}
	v := p.c[p.i]
	if t, ok := v.P.(*Term); ok {
		return byte(p.w.concretize(t, "JSON text"))
	}
	return byte(v.N)
}

func (p *jparser) ws() {
	for p.i < len(p.c) {
		switch p.peek() {
		case ' ', '\t', '\n', '\r':
			p.i++
		default:
			return
		}
	}
}

func (p *jparser) value() *jnode {
	p.ws()
	n := &jnode{from: p.i}
	defer func() { n.to = p.i }()
	switch c := p.peek(); {
	case c == '{':
		n.kind = 'o'
		p.i++
		p.ws()
		if p.peek() == '}' {
			p.i++
			return n
		}
		for {
			p.ws()
			if p.peek() != '"' {
				p.fail("invalid character looking for beginning of object key string")
			}
			k, ok := concStr(p.str())
			if !ok {
				panic(unsupported("symbolic JSON key"))
			}
			p.ws()
			if p.peek() != ':' {
				p.fail("invalid character after object key")
			}
			p.i++
			n.keys = append(n.keys, k)
			n.elems = append(n.elems, p.value())
			p.ws()
			switch p.peek() {
			case ',':
				p.i++
				continue
			case '}':
				p.i++
				return n
			}
			p.fail("invalid character after object key:value pair")
		}
	case c == '[':
		n.kind = 'a'
		p.i++
		p.ws()
		if p.peek() == ']' {
			p.i++
			return n
		}
		for {
			n.elems = append(n.elems, p.value())
			p.ws()
			switch p.peek() {
			case ',':
				p.i++
				continue
			case ']':
				p.i++
				return n
			}
			p.fail("invalid character after array element")
		}
	case c == '"':
		n.kind = 's'
		n.str = p.str()
	case c == '-' || c >= '0' && c <= '9':
		n.kind = 'n'
		var sb strings.Builder
		for p.i < len(p.c) {
			c := p.peek()
			if c >= '0' && c <= '9' || c == '-' || c == '+' || c == '.' || c == 'e' || c == 'E' {
				sb.WriteByte(c)
				p.i++
				continue
			}
			break
		}
		n.num = sb.String()
		if !json.Valid([]byte(n.num)) {
			p.fail("invalid number literal")
		}
	default:
		for k, s := range map[byte]string{'t': "true", 'f': "false", 'z': "null"} {
			if p.i+len(s) <= len(p.c) && s[0] == c {
				for j := 0; j < len(s); j++ {
					if p.peek() != s[j] {
						p.fail("invalid literal")
					}
					p.i++
				}
				n.kind = k
				return n
			}
		}
		p.fail("invalid character looking for beginning of value")
	}
	return n
}

func (p *jparser) str() V {
	w := p.w
	tb := w.tb
	p.i++
	var out []V
	for {
		if p.i >= len(p.c) {
			p.fail("unexpected end of JSON input")
		}
		v := p.c[p.i]
		if v.P == nil {
			switch b := byte(v.N); {
			case b == '"':
				p.i++
				return mkStr(out)
			case b < 0x20:
				p.fail("invalid character in string literal")
			case b == '\\':
				j := p.i + 1
				if j >= len(p.c) {
					p.fail("unexpected end of JSON input")
				}
				e := p.c[j]
				if e.P != nil {
					panic(unsupported("symbolic JSON escape"))
				}
				n := 2
				if e.N == 'u' {
					n = 6
					if j+10 < len(p.c) && p.c[j+5].P == nil && p.c[j+5].N == '\\' && p.c[j+6].P == nil && p.c[j+6].N == 'u' {
						n = 12
					}
				}
				if p.i+n > len(p.c) {
					p.fail("unexpected end of JSON input")
				}
				b, ok := concBytes(p.c[p.i : p.i+n])
				if !ok {
					panic(unsupported("symbolic JSON escape"))
				}
				var s string
				if err := json.Unmarshal([]byte(`"`+string(b)+`"`), &s); err != nil {
					p.fail("%s", err.Error())
				}
				out = append(out, strCells(vstr(s))...)
				p.i += n
				continue
			}
		} else {
			t := w.term(v, 8)
			if w.choose(tb.Ult(t, tb.Const(0x20, 8))) {
				p.fail("invalid character in string literal")
			}
			if w.choose(tb.Eq(t, tb.Const('"', 8))) {
				p.i++
				return mkStr(out)
			}
			if w.choose(tb.Eq(t, tb.Const('\\', 8))) {
				panic(unsupported("symbolic JSON escape"))
			}
		}
		r, n := w.decodeRune(p.c[p.i:])
		if n == 1 && r.P == nil && r.N == 0xFFFD {
			out = append(out, V{N: 0xEF}, V{N: 0xBF}, V{N: 0xBD})
		} else {
			out = append(out, p.c[p.i:p.i+n]...)
		}
		p.i += n
	}
}

func (p *jparser) mismatch(n *jnode, t types.Type) {
	p.fail("json: cannot unmarshal value into Go value of type %s", t.String())
}

// dec stores n into obj at cell i with type t.
func (p *jparser) dec(n *jnode, o *Obj, i int, t types.Type) {
	w := p.w
	t = types.Unalias(t)
	if nm, ok := t.(*types.Named); ok && nm.Obj().Pkg() != nil && (nm.Obj().Name() == "RawMessage" || nm.Obj().Name() == "Value") &&
		strings.HasPrefix(nm.Obj().Pkg().Path(), "encoding/json") {
		w.setCell(o, i, w.mkBytes(p.c[n.from:n.to]))
		return
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		if n.kind == 'z' {
			w.setCell(o, i, V{})
			return
		}
		cur := w.getCell(o, i)
		var no *Obj
		off := 0
		if c, ok := cur.P.(*Obj); ok {
			no, off = c, int(cur.N)
		} else {
			no = w.newObj(w.layout(u.Elem()), 1)
			w.setCell(o, i, V{P: no})
		}
		p.dec(n, no, off, u.Elem())
		return
	case *types.Interface:
		if n.kind == 'z' {
			w.setCell(o, i, V{})
			return
		}
		panic(unsupported("JSON into interface"))
	}
	if n.kind == 'z' {
		return
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			if n.kind != 's' {
				p.mismatch(n, t)
			}
			w.setCell(o, i, n.str)
			return
		case u.Info()&types.IsBoolean != 0:
			if n.kind != 't' && n.kind != 'f' {
				p.mismatch(n, t)
			}
			w.setCell(o, i, vbool(n.kind == 't'))
			return
		case u.Info()&types.IsInteger != 0:
			if n.kind != 'n' {
				p.mismatch(n, t)
			}
			k, _ := basicWidth(u)
			if isSigned(t) {
				x, err := strconv.ParseInt(n.num, 10, int(k))
				if err != nil {
					p.mismatch(n, t)
				}
				w.setCell(o, i, V{N: uint64(x) & mask(k)})
			} else {
				x, err := strconv.ParseUint(n.num, 10, int(k))
				if err != nil {
					p.mismatch(n, t)
				}
				w.setCell(o, i, V{N: x})
			}
			return
		}
	case *types.Slice:
		if n.kind != 'a' {
			p.mismatch(n, t)
		}
		el := w.layout(u.Elem())
		// existing elements are reused by encoding/json up to the capacity
		no := w.newObj(el, len(n.elems))
		if s, ok := w.getCell(o, i).P.(*Slice); ok {
			m := min(s.cap, len(n.elems)) * el.n
			for k := 0; k < m; k++ {
				no.cells[k] = w.getCell(s.obj, s.off+k)
			}
		}
		for k, e := range n.elems {
			p.dec(e, no, k*el.n, u.Elem())
		}
		w.setCell(o, i, V{P: &Slice{no, 0, len(n.elems), len(n.elems), el.n}})
		return
	case *types.Struct:
		if n.kind != 'o' {
			p.mismatch(n, t)
		}
		l := w.layout(t)
		for k, key := range n.keys {
			best := -1
			for f := 0; f < u.NumFields(); f++ {
				if !u.Field(f).Exported() {
					continue
				}
				if u.Field(f).Embedded() {
					panic(unsupported("JSON into embedded struct"))
				}
				name := u.Field(f).Name()
				if tag := jsonTag(u.Tag(f)); tag == "-" {
					continue
				} else if tag != "" {
					name = tag
				}
				if name == key {
					best = f
					break
				}
				if strings.EqualFold(name, key) && best < 0 {
					best = f
				}
			}
			if best >= 0 {
				p.dec(n.elems[k], o, i+l.fields[best], u.Field(best).Type())
			}
		}
		return
	}
	panic(unsupported("JSON into " + t.String()))
}

func jsonTag(tag string) string {
	i := strings.Index(tag, `json:"`)
	if i < 0 {
		return ""
	}
	s := tag[i+6:]
	j := strings.IndexByte(s, '"')
	if j < 0 {
		return ""
	}
	s = s[:j]
	if k := strings.IndexByte(s, ','); k >= 0 {
		s = s[:k]
	}
	return s
}

func (w *W) jsonDecode(c []V, dst V, whole bool) (err V) {
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(jerr); ok {
				err = w.errorString(vstr(e.msg))
				return
			}
			panic(r)
		}
	}()
	p := &jparser{w: w, c: c}
	n := p.value()
	if whole {
		p.ws()
		if p.i < len(p.c) {
			p.fail("invalid character after top-level value")
		}
	}
	i, _ := dst.P.(*Iface)
	if i == nil {
		p.fail("json: Unmarshal(nil)")
	}
	pt, ok := i.t.t.Underlying().(*types.Pointer)
	if !ok {
		p.fail("json: Unmarshal(non-pointer %s)", i.t.t.String())
	}
	o, _ := i.v.P.(*Obj)
	if o == nil {
		p.fail("json: Unmarshal(nil %s)", i.t.t.String())
	}
	p.dec(n, o, int(i.v.N), pt.Elem())
	return V{}
}

func init() {
	reg("encoding/json.Unmarshal", func(w *W, fn *CFunc, a []V) (V, bool) {
		return w.jsonDecode(w.bytesOf(a[0]), a[1], true), true
	})
	reg("encoding/json.NewDecoder", func(w *W, fn *CFunc, a []V) (V, bool) {
		t := w.eng.pkgType("encoding/json", "Decoder")
		o := w.newObj(w.layout(t), 1)
		o.cells[0] = a[0] // the reader is the first field
		return V{P: o}, true
	})
	reg("(*encoding/json.Decoder).Decode", func(w *W, fn *CFunc, a []V) (V, bool) {
		o := a[0].P.(*Obj)
		r := o.cells[0]
		h := w.eng.pkgs[symPath].Func("JSONDecode")
		return V{P: &tailCall{w.cfunc(h), []V{r, a[1]}, nil}}, true
	})
	reg(symPath+".jsonText", func(w *W, fn *CFunc, a []V) (V, bool) {
		return w.jsonDecode(w.bytesOf(a[0]), a[1], false), true
	})
}
