package main

import (
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// VFS is the model of the file system: files created by the harness or by the code under test.
type VFS struct {
	files map[string]*vfile
	n     int
	open  int // files opened and not closed
	maps  map[*Obj]bool
	gone  int            // mappings that have been removed
	fault struct {       // the call of Read or Write of a file that fails
		name  string
		write bool
		at, n int
	}
	alias map[*Obj][][]V // the bytes of strings made of mapped memory without copying it
}

type vfile struct {
	c   []V // immutable: replaced on write
	obj *Obj
}

type vfd struct {
	f      *vfile
	name   string
	pos    int
	flag   int
	closed bool
	std    int
	fails  string // every read (a directory) or write (/dev/full) fails like this
}

func newVFS() *VFS { return &VFS{files: map[string]*vfile{}, maps: map[*Obj]bool{}} }

func (w *W) fsOpen(d int) {
	w.onUndo(func() { w.fs.open -= d })
	w.fs.open += d
}

func (w *W) fsSet(name string, f *vfile) {
	old, had := w.fs.files[name]
	w.onUndo(func() {
		if had {
			w.fs.files[name] = old
		} else {
			delete(w.fs.files, name)
		}
	})
	w.fs.files[name] = f
}

func (w *W) fsContent(f *vfile, c []V) {
	old, oo := f.c, f.obj
	w.onUndo(func() { f.c, f.obj = old, oo })
	f.c, f.obj = c, nil
}

func (w *W) fdPos(d *vfd, p int) {
	old := d.pos
	w.onUndo(func() { d.pos = old })
	d.pos = p
}

func (w *W) newFile(d *vfd) V {
	t := w.eng.pkgType("os", "File")
	o := w.newObj(w.layout(t), 1)
	o.native = d
	return V{P: o}
}

func (w *W) pathError(op string, name V, msg string) V {
	return w.newError("io/fs", "PathError", vstr(op), name, w.errorString(vstr(msg)))
}

func (w *W) initOS(p *ssa.Package) {
	set := func(name string, v V) {
		if g, ok := p.Members[name].(*ssa.Global); ok {
			w.globalObj(g).cells[0] = v
		}
	}
	set("Stdin", w.newFile(&vfd{f: &vfile{}, name: "/dev/stdin", std: 1}))
	set("Stdout", w.newFile(&vfd{f: &vfile{}, name: "/dev/stdout", std: 2}))
	set("Stderr", w.newFile(&vfd{f: &vfile{}, name: "/dev/stderr", std: 3}))
	set("Args", w.mkStrs([]string{"prog"}))
	for n, m := range map[string]string{"ErrNotExist": "file does not exist", "ErrExist": "file already exists", "ErrInvalid": "invalid argument",
		"ErrPermission": "permission denied", "ErrClosed": "file already closed"} {
		v := w.errorString(vstr(m))
		if q := w.eng.pkgs["internal/oserror"]; q != nil {
			w.initPkg(q)
			if g, ok := q.Members[n].(*ssa.Global); ok {
				v = w.globalObj(g).cells[0]
			}
		}
		set(n, v)
	}
}

func (w *W) fd(v V) *vfd {
	o, _ := v.P.(*Obj)
	if o == nil {
		w.nilDeref()
	}
	d, _ := o.native.(*vfd)
	if d == nil {
		panic(unsupported("foreign os.File"))
	}
	return d
}

const (
	oWRONLY = 1
	oRDWR   = 2
	oCREATE = 0x40
	oEXCL   = 0x80
	oTRUNC  = 0x200
	oAPPEND = 0x400
)

func (w *W) openFile(nameV V, flag int) (V, bool) {
	name, ok := concStr(nameV)
	if !ok {
		panic(unsupported("symbolic file name"))
	}
	name = filepath.Clean(name)
	if name == "/dev/full" {
		return tuple(w.newFile(&vfd{f: &vfile{}, name: name, flag: flag, fails: "no space left on device"}), V{}), true
	}
	if name == "/zztmp" {
		if flag&(oWRONLY|oRDWR|oCREATE) != 0 {
			return tuple(V{}, w.pathError("open", nameV, "is a directory")), true
		}
		w.fsOpen(1)
		return tuple(w.newFile(&vfd{f: &vfile{}, name: name, flag: flag, fails: "is a directory"}), V{}), true
	}
	f := w.fs.files[name]
	if f == nil {
		if flag&oCREATE == 0 {
			return tuple(V{}, w.pathError("open", nameV, "no such file or directory")), true
		}
		if d := filepath.Dir(name); strings.HasPrefix(d, "/zztmp/") {
			return tuple(V{}, w.pathError("open", nameV, "no such file or directory")), true
		}
		f = &vfile{}
		w.fsSet(name, f)
	} else if flag&oCREATE != 0 && flag&oEXCL != 0 {
		return tuple(V{}, w.pathError("open", nameV, "file exists")), true
	}
	if flag&oTRUNC != 0 {
		w.fsContent(f, nil)
	}
	w.fsOpen(1)
	return tuple(w.newFile(&vfd{f: f, name: name, flag: flag}), V{}), true
}

func (w *W) setExit(n int64) {
	old := w.exitCode
	w.onUndo(func() { w.exitCode = old })
	w.exitCode = n
}

func (w *W) fileBytes(f *vfile) *Obj {
	if f.obj == nil {
		o := w.newObj(w.lay8, len(f.c))
		copy(o.cells, f.c)
		old := f.obj
		w.onUndo(func() { f.obj = old })
		f.obj = o
	}
	return f.obj
}

// ioFault tells whether this is the call that fails.
func (w *W) ioFault(name string, write bool) bool {
	f := &w.fs.fault
	if name != f.name || write != f.write {
		return false
	}
	w.onUndo(func() { f.n-- })
	f.n++
	return f.n-1 == f.at
}

func init() {
	sp := symPath + "."
	reg(sp+"TempFile", func(w *W, fn *CFunc, a []V) (V, bool) {
		n, _ := concStr(a[0])
		c := append([]V(nil), w.bytesOf(a[1])...)
		name := "/zztmp/" + n
		w.fsSet(name, &vfile{c: c})
		return vstr(name), true
	})
	reg(sp+"RepoFile", func(w *W, fn *CFunc, a []V) (V, bool) {
		n, _ := concStr(a[0])
		b, err := os.ReadFile(filepath.Join(w.eng.repo, n))
		if err != nil {
			panic(unsupported("RepoFile: " + err.Error()))
		}
		c := make([]V, len(b))
		for i := range b {
			c[i] = V{N: uint64(b[i])}
		}
		return w.mkBytes(c), true
	})
	reg(sp+"TempPath", func(w *W, fn *CFunc, a []V) (V, bool) {
		n, _ := concStr(a[0])
		return vstr("/zztmp/" + n), true
	})
	reg(sp+"FileContent", func(w *W, fn *CFunc, a []V) (V, bool) {
		n, _ := concStr(a[0])
		f := w.fs.files[filepath.Clean(n)]
		if f == nil {
			return tuple(V{}, V{}), true
		}
		return tuple(w.mkBytes(f.c), V{N: 1}), true
	})
	reg(sp+"Parallel", func(w *W, fn *CFunc, a []V) (V, bool) {
		cl := a[0].P.(*Closure)
		return V{P: &tailCall{cl.fn, nil, cl.bind}}, true
	})
	reg("os.OpenFile", func(w *W, fn *CFunc, a []V) (V, bool) {
		return w.openFile(a[0], w.concInt(a[1], 64, true, "flag"))
	})
	reg("os.Open", func(w *W, fn *CFunc, a []V) (V, bool) { return w.openFile(a[0], 0) })
	reg("os.Create", func(w *W, fn *CFunc, a []V) (V, bool) { return w.openFile(a[0], oRDWR|oCREATE|oTRUNC) })
	reg(sp+"callMain", func(w *W, fn *CFunc, a []V) (V, bool) {
		cl := a[0].P.(*Closure)
		return V{P: &tailCall{cl.fn, nil, cl.bind}}, true
	})
	reg(sp+"setExit", func(w *W, fn *CFunc, a []V) (V, bool) {
		w.setExit(int64(a[0].N))
		return V{}, true
	})
	reg(sp+"getExit", func(w *W, fn *CFunc, a []V) (V, bool) { return vint(int(w.exitCode)), true })
	reg("os.Exit", func(w *W, fn *CFunc, a []V) (V, bool) {
		if w.spec > 0 {
			panic(specAbort{"exit"})
		}
		// continue after the innermost RunMain, if any; deferred calls do not run
		for f := w.top; f != nil; f = f.caller {
			if f.fn.fn.String() == sp+"RunMain" {
				if f.shared {
					f = f.clone()
				}
				f.pc++
				w.top = f
				w.setExit(int64(a[0].N))
				return V{}, true
			}
		}
		panic(pathEnd{endExit, fmt.Sprint(int64(a[0].N))})
	})
	reg("os.ReadFile", func(w *W, fn *CFunc, a []V) (V, bool) {
		name, _ := concStr(a[0])
		f := w.fs.files[filepath.Clean(name)]
		if f == nil {
			return tuple(V{}, w.pathError("open", a[0], "no such file or directory")), true
		}
		for i := 0; i < 2; i++ { // the content, and that there is no more
			if w.ioFault(filepath.Clean(name), false) {
				return tuple(V{}, w.pathError("read", a[0], "input/output error")), true
			}
		}
		return tuple(w.mkBytes(f.c), V{}), true
	})
	reg("io/ioutil.ReadFile", intrinsics["os.ReadFile"])
	reg("(*os.File).Close", func(w *W, fn *CFunc, a []V) (V, bool) {
		if a[0].P == nil {
			return w.errorString(vstr("invalid argument")), true
		}
		d := w.fd(a[0])
		if d.closed {
			return w.pathError("close", vstr(d.name), "file already closed"), true
		}
		w.onUndo(func() { d.closed = false })
		d.closed = true
		if strings.HasPrefix(d.name, "/zztmp") {
			w.fsOpen(-1)
		}
		return V{}, true
	})
	reg("(*os.File).Name", func(w *W, fn *CFunc, a []V) (V, bool) { return vstr(w.fd(a[0]).name), true })
	reg("(*os.File).Fd", func(w *W, fn *CFunc, a []V) (V, bool) { return V{N: 3}, true })
	reg("(*os.File).Sync", nop)
	reg("(*os.File).Read", func(w *W, fn *CFunc, a []V) (V, bool) {
		d := w.fd(a[0])
		if d.closed {
			return tuple(V{}, w.pathError("read", vstr(d.name), "file already closed")), true
		}
		if d.name == "/zztmp" {
			return tuple(V{}, w.pathError("read", vstr(d.name), d.fails)), true
		}
		if d.flag&oWRONLY != 0 {
			return tuple(V{}, w.pathError("read", vstr(d.name), "bad file descriptor")), true
		}
		if w.ioFault(d.name, false) {
			return tuple(V{}, w.pathError("read", vstr(d.name), "input/output error")), true
		}
		s, _ := a[1].P.(*Slice)
		if s == nil || s.len == 0 {
			return tuple(V{}, V{}), true
		}
		if d.pos >= len(d.f.c) {
			return tuple(V{}, w.ioEOF()), true
		}
		n := min(s.len, len(d.f.c)-d.pos)
		for i := 0; i < n; i++ {
			w.setCell(s.obj, s.off+i, d.f.c[d.pos+i])
		}
		w.fdPos(d, d.pos+n)
		return tuple(vint(n), V{}), true
	})
	reg("(*os.File).Write", func(w *W, fn *CFunc, a []V) (V, bool) {
		d := w.fd(a[0])
		if d.closed {
			return tuple(V{}, w.pathError("write", vstr(d.name), "file already closed")), true
		}
		b := w.bytesOf(a[1])
		if d.std == 0 && d.flag&(oWRONLY|oRDWR) == 0 {
			return tuple(V{}, w.pathError("write", vstr(d.name), "bad file descriptor")), true
		}
		if d.fails != "" && len(b) > 0 {
			return tuple(V{}, w.pathError("write", vstr(d.name), d.fails)), true
		}
		if d.std != 0 {
			return tuple(vint(len(b)), V{}), true
		}
		if d.flag&oAPPEND != 0 {
			w.fdPos(d, len(d.f.c))
		}
		if w.ioFault(d.name, true) {
			return tuple(V{}, w.pathError("write", vstr(d.name), "input/output error")), true
		}
		n := max(len(d.f.c), d.pos+len(b))
		c := make([]V, n)
		copy(c, d.f.c)
		copy(c[d.pos:], b)
		w.fsContent(d.f, c)
		w.fdPos(d, d.pos+len(b))
		return tuple(vint(len(b)), V{}), true
	})
	reg(sp+"FailIO", func(w *W, fn *CFunc, a []V) (V, bool) {
		old := w.fs.fault
		w.onUndo(func() { w.fs.fault = old })
		n, _ := concStr(a[0])
		w.fs.fault.name, w.fs.fault.write, w.fs.fault.at, w.fs.fault.n = filepath.Clean(n), a[1].N != 0, w.concInt(a[2], 64, true, "fault"), 0
		return V{}, true
	})
	reg(sp+"IOCalls", func(w *W, fn *CFunc, a []V) (V, bool) { return vint(w.fs.fault.n), true })
	reg("(*os.File).WriteString", func(w *W, fn *CFunc, a []V) (V, bool) {
		return intrinsics["(*os.File).Write"](w, fn, []V{a[0], w.mkBytes(strCells(a[1]))})
	})
	reg("(*os.File).Seek", func(w *W, fn *CFunc, a []V) (V, bool) {
		d := w.fd(a[0])
		off := w.concInt(a[1], 64, true, "seek")
		switch a[2].N {
		case 1:
			off += d.pos
		case 2:
			off += len(d.f.c)
		}
		if off < 0 {
			return tuple(V{}, w.pathError("seek", vstr(d.name), "invalid argument")), true
		}
		w.fdPos(d, off)
		return tuple(vint(off), V{}), true
	})
	reg("(*os.File).Stat", func(w *W, fn *CFunc, a []V) (V, bool) {
		d := w.fd(a[0])
		if d.closed {
			return tuple(V{}, w.pathError("stat", vstr(d.name), "use of closed file")), true
		}
		return tuple(w.fileStat(d.name, len(d.f.c), d.name == "/zztmp"), V{}), true
	})
	stat := func(w *W, fn *CFunc, a []V) (V, bool) {
		name, ok := concStr(a[0])
		if !ok {
			panic(unsupported("symbolic file name"))
		}
		name = filepath.Clean(name)
		if f := w.fs.files[name]; f != nil {
			return tuple(w.fileStat(name, len(f.c), false), V{}), true
		}
		if w.fs.isDir(name) {
			return tuple(w.fileStat(name, 4096, true), V{}), true
		}
		return tuple(V{}, w.pathError("stat", a[0], "no such file or directory")), true
	}
	reg("os.Stat", stat)
	reg("os.Lstat", stat)
	reg("os.Remove", func(w *W, fn *CFunc, a []V) (V, bool) {
		name, ok := concStr(a[0])
		if !ok {
			panic(unsupported("symbolic file name"))
		}
		name = filepath.Clean(name)
		f := w.fs.files[name]
		if f == nil {
			return w.pathError("remove", a[0], "no such file or directory"), true
		}
		w.onUndo(func() { w.fs.files[name] = f })
		delete(w.fs.files, name)
		return V{}, true
	})
	reg("os.Rename", func(w *W, fn *CFunc, a []V) (V, bool) {
		from, ok1 := concStr(a[0])
		to, ok2 := concStr(a[1])
		if !ok1 || !ok2 {
			panic(unsupported("symbolic file name"))
		}
		from, to = filepath.Clean(from), filepath.Clean(to)
		f := w.fs.files[from]
		if f == nil {
			return w.pathError("rename", a[0], "no such file or directory"), true
		}
		if from != to {
			w.onUndo(func() { w.fs.files[from] = f })
			delete(w.fs.files, from)
			w.fsSet(to, f)
		}
		return V{}, true
	})
	reg("os.WriteFile", func(w *W, fn *CFunc, a []V) (V, bool) {
		r, _ := w.openFile(a[0], oWRONLY|oCREATE|oTRUNC)
		t := r.P.(*Agg).c
		if t[1].P != nil {
			return t[1], true
		}
		r, _ = intrinsics["(*os.File).Write"](w, fn, []V{t[0], a[1]})
		intrinsics["(*os.File).Close"](w, fn, []V{t[0]})
		return r.P.(*Agg).c[1], true
	})
	reg("io/ioutil.WriteFile", intrinsics["os.WriteFile"])
	reg("(*os.File).Truncate", func(w *W, fn *CFunc, a []V) (V, bool) {
		d := w.fd(a[0])
		n := w.concInt(a[1], 64, true, "truncate")
		if d.closed || n < 0 || d.flag&(oWRONLY|oRDWR) == 0 {
			return w.pathError("truncate", vstr(d.name), "invalid argument"), true
		}
		c := make([]V, n)
		copy(c, d.f.c)
		w.fsContent(d.f, c)
		return V{}, true
	})
	reg("(*os.File).ReadAt", func(w *W, fn *CFunc, a []V) (V, bool) {
		d := w.fd(a[0])
		s, _ := a[1].P.(*Slice)
		off := w.concInt(a[2], 64, true, "offset")
		if off < 0 {
			return tuple(V{}, w.pathError("readat", vstr(d.name), "negative offset")), true
		}
		if d.closed || s == nil {
			return intrinsics["(*os.File).Read"](w, fn, a[:2])
		}
		pos := d.pos
		w.fdPos(d, off)
		n := 0
		var err V
		for n < s.len && err.P == nil {
			r, _ := intrinsics["(*os.File).Read"](w, fn, []V{a[0], {P: &Slice{s.obj, s.off + n*s.esz, s.len - n, s.cap - n, s.esz}}})
			t := r.P.(*Agg).c
			n += int(t[0].N)
			err = t[1]
		}
		w.fdPos(d, pos)
		return tuple(vint(n), err), true
	})
	reg("(*os.File).WriteAt", func(w *W, fn *CFunc, a []V) (V, bool) {
		d := w.fd(a[0])
		off := w.concInt(a[2], 64, true, "offset")
		if off < 0 || d.flag&oAPPEND != 0 {
			return tuple(V{}, w.pathError("writeat", vstr(d.name), "negative offset")), true
		}
		pos := d.pos
		w.fdPos(d, off)
		r, _ := intrinsics["(*os.File).Write"](w, fn, a[:2])
		w.fdPos(d, pos)
		return r, true
	})
	isErr := func(msg, global string) intrinsic {
		return func(w *W, fn *CFunc, a []V) (V, bool) {
			return vbool(w.isOSError(a[0], msg, global)), true
		}
	}
	reg("os.IsNotExist", isErr("no such file or directory", "ErrNotExist"))
	reg("os.IsExist", isErr("file exists", "ErrExist"))
	reg(modPath+"/internal/mmap.Mmap", func(w *W, fn *CFunc, a []V) (V, bool) {
		d := w.fd(a[0])
		off, n := w.concInt(a[2], 64, true, "mmap"), w.concInt(a[3], 64, true, "mmap")
		if n <= 0 || off < 0 {
			return tuple(V{}, w.errorString(vstr("invalid argument"))), true
		}
		if d.closed {
			return tuple(V{}, w.errorString(vstr("bad file descriptor"))), true
		}
		o := w.fileBytes(d.f)
		if w.fs.maps[o] || off+n > len(o.cells) { // bytes beyond the end of the file read as 0
			c := w.newObj(w.lay8, max(off+n, len(o.cells)))
			copy(c.cells, o.cells)
			o = c
		}
		w.onUndo(func() { delete(w.fs.maps, o) })
		w.fs.maps[o] = true
		if a[1].N == 0 && o.frozen == "" {
			o.frozen = "read-only mapping"
			w.onUndo(func() { o.frozen = "" })
		}
		return tuple(V{P: &Slice{o, off, n, n, 1}}, V{}), true
	})
	reg(modPath+"/internal/mmap.Munmap", func(w *W, fn *CFunc, a []V) (V, bool) {
		s, _ := a[0].P.(*Slice)
		if s == nil || !w.fs.maps[s.obj] {
			return w.errorString(vstr("invalid argument")), true
		}
		if w.base { // what set-up code unmaps is not looked at again
			delete(w.fs.maps, s.obj)
			return V{}, true
		}
		o, cells := s.obj, s.obj.cells
		var f *vfile
		for _, x := range w.fs.files {
			if x.obj == o {
				f = x
			}
		}
		w.onUndo(func() {
			w.fs.maps[o] = true
			w.fs.gone--
			o.cells = cells
			if f != nil {
				f.obj = o
			}
		})
		delete(w.fs.maps, o)
		for _, c := range w.fs.alias[o] {
			c, was := c, append([]V(nil), c...)
			for i := range c {
				c[i] = V{P: goneMark{}}
			}
			w.onUndo(func() { copy(c, was) })
		}
		w.fs.gone++
		o.cells = nil
		if f != nil {
			f.obj = nil
		}
		return V{}, true
	})
	reg(sp+"OpenFiles", func(w *W, fn *CFunc, a []V) (V, bool) { return vint(w.fs.open + len(w.fs.maps)), true })
	reg(modPath+"/internal/mmap.Madvise", nop)
}

func (w *W) ioEOF() V {
	p := w.eng.pkgs["io"]
	w.initPkg(p)
	return w.globalObj(p.Members["EOF"].(*ssa.Global)).cells[0]
}

// isOSError tells whether x is, or is a path error of, the system's error with message msg or os's global error.
func (w *W) isOSError(x V, msg, global string) bool {
	i, _ := x.P.(*Iface)
	if i == nil {
		return false
	}
	if strings.HasSuffix(i.t.t.String(), "fs.PathError") {
		if x = w.unwrapErr(x); x.P == nil {
			return false
		}
		i = x.P.(*Iface)
	}
	if g, ok := w.eng.pkgs["os"].Members[global].(*ssa.Global); ok {
		if j, _ := w.globalObj(g).cells[0].P.(*Iface); j != nil && i.t == j.t && i.v == j.v {
			return true
		}
	}
	if strings.HasSuffix(i.t.t.String(), "errors.errorString") {
		if o, _ := i.v.P.(*Obj); o != nil && len(o.cells) == 1 {
			m, ok := concStr(o.cells[0])
			return ok && m == msg
		}
	}
	return false
}

// isDir tells whether a file is below name.
func (fs *VFS) isDir(name string) bool {
	if name == "/" || name == "/zztmp" || name == "." {
		return true
	}
	for f := range fs.files {
		if strings.HasPrefix(f, name+"/") {
			return true
		}
	}
	return false
}

func (w *W) fileStat(name string, size int, dir bool) V {
	t := w.eng.pkgType("os", "fileStat")
	l := w.layout(t)
	o := w.newObj(l, 1)
	st := t.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		switch st.Field(i).Name() {
		case "size":
			o.cells[l.fields[i]] = vint(size)
		case "name":
			o.cells[l.fields[i]] = vstr(filepath.Base(name))
		case "mode":
			m := uint64(0o644)
			if dir {
				m = 0o755 | 1<<31
			}
			o.cells[l.fields[i]] = V{N: m}
		}
	}
	return V{P: &Iface{w.rtype(types.NewPointer(t)), V{P: o}}}
}

// isTarget tells whether v is os's global error of that name.
func (w *W) isTarget(v V, global string) bool {
	i, _ := v.P.(*Iface)
	p := w.eng.pkgs["os"]
	if i == nil || p == nil {
		return false
	}
	w.initPkg(p)
	g, ok := p.Members[global].(*ssa.Global)
	if !ok {
		return false
	}
	j, _ := w.globalObj(g).cells[0].P.(*Iface)
	return j != nil && i.t == j.t && i.v == j.v
}
