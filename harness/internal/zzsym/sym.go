// Package zzsym is the harness library: under the symbolic executor its functions create symbolic
// values and queries; natively (replay of a counterexample or of a sampled path) they read the
// values from an assignment.
package zzsym

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"io"
	"io/ioutil"
	"os"
	"path/filepath"
	"reflect"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
)

var (
	asg    map[string]uint64
	count  map[string]int
	obs    []string
	tmpdir string
	frozen []frozenRec
)

type frozenRec struct {
	label string
	roots []interface{}
	hash  uint64
}

type skip struct{}
type violation struct{ msg string }

func get(name string) uint64 {
	n := count[name]
	count[name] = n + 1
	return asg[name+"#"+strconv.Itoa(n)]
}

func Byte(name string) byte     { return byte(get(name)) }
func Bool(name string) bool     { return get(name) != 0 }
func Int16(name string) int16   { return int16(get(name)) }
func Uint16(name string) uint16 { return uint16(get(name)) }
func Int32(name string) int32   { return int32(get(name)) }
func Uint32(name string) uint32 { return uint32(get(name)) }
func Int64(name string) int64   { return int64(get(name)) }
func Uint64(name string) uint64 { return get(name) }

// Int is an arbitrary int in lo..hi.
func Int(name string, lo, hi int) int {
	if lo >= 0 {
		return within(name, lo, hi)
	}
	return lo + within(name, 0, hi-lo) // unsigned ranges can be tabulated
}

func within(name string, lo, hi int) int {
	v := int(get(name))
	Assume(lo <= v && v <= hi)
	return v
}

// Rune is an arbitrary rune in lo..hi.
func Rune(name string, lo, hi rune) rune {
	v := rune(get(name))
	Assume(lo <= v && v <= hi)
	return v
}

// ByteIn is an arbitrary byte in lo..hi.
func ByteIn(name string, lo, hi byte) byte {
	v := byte(get(name))
	Assume(lo <= v && v <= hi)
	return v
}

// Choose is a number in 0..n-1; every value is explored on a path of its own.
func Choose(name string, n int) int {
	if n <= 1 {
		return 0
	}
	v := int(get(name))
	Assume(v < n)
	return v
}

// Pick is a number in 0..n-1, kept symbolic.
func Pick(name string, n int) int { return Choose(name, n) }

// Concrete forks over the values of v.
func Concrete(v int) int { return v }

func Bytes(name string, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(get(name))
	}
	return b
}

func String(name string, n int) string { return string(Bytes(name, n)) }

func Ite(c bool, a, b int) int {
	if c {
		return a
	}
	return b
}

func And(a, b bool) bool       { return a && b }
func Or(a, b bool) bool        { return a || b }
func Not(a bool) bool          { return !a }
func EqStr(a, b string) bool   { return a == b }
func EqBytes(a, b []byte) bool { return string(a) == string(b) }
func Symbolic() bool           { return false }
func Thorough() bool           { return os.Getenv("VERIF_TIER") == "thorough" }
func Reach(label string)       {}
func Skip()                    { panic(skip{}) }

func Assume(c bool) {
	if !c {
		panic(skip{})
	}
}

func Assert(c bool, msg string) {
	if !c {
		panic(violation{msg})
	}
}

func Fail(msg string) { panic(violation{msg}) }

// Observe records values that the symbolic run and the native run must agree on.
func Observe(label string, vs ...interface{}) {
	for _, v := range vs {
		obs = append(obs, label+"="+format(v))
	}
}

func format(v interface{}) string {
	if v == nil {
		return "nil"
	}
	return formatV(reflect.ValueOf(v))
}

func formatV(r reflect.Value) string {
	switch r.Kind() {
	case reflect.Bool:
		return strconv.FormatBool(r.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return strconv.FormatInt(r.Int(), 10)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return strconv.FormatUint(r.Uint(), 10)
	case reflect.String:
		return strconv.Quote(r.String())
	case reflect.Slice:
		var s []string
		for i := 0; i < r.Len(); i++ {
			s = append(s, formatV(r.Index(i)))
		}
		return "[" + strings.Join(s, " ") + "]"
	}
	return "?"
}

// Freeze declares everything reachable from roots read-only until the end of the harness.
func Freeze(label string, roots ...interface{}) {
	frozen = append(frozen, frozenRec{label, roots, deepHash(roots)})
}

// FreezeGlobals declares the package variables of the library and everything reachable from them
// read-only (seen by the race detector in a native replay).
func FreezeGlobals(label string) {}

// Parallel runs f: symbolically once, natively in two goroutines at the same time (under the race
// detector in a replay of a violation).
func Parallel(f func()) {
	if os.Getenv("ZZVERIF_PARALLEL") == "" {
		f()
		return
	}
	var wg sync.WaitGroup
	for i := 0; i < 2; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() { recover() }()
			for j := 0; j < 50; j++ {
				f()
			}
		}()
	}
	wg.Wait()
}

func checkFrozen() string {
	for _, f := range frozen {
		if deepHash(f.roots) != f.hash {
			return "write to shared " + f.label
		}
	}
	return ""
}

func deepHash(roots []interface{}) uint64 {
	h := fnv.New64a()
	seen := map[uintptr]bool{}
	w := bufio.NewWriter(h)
	for _, r := range roots {
		hashV(w, reflect.ValueOf(r), seen, 0)
	}
	w.Flush()
	return h.Sum64()
}

func hashV(w *bufio.Writer, v reflect.Value, seen map[uintptr]bool, depth int) {
	if depth > 60 {
		return
	}
	switch v.Kind() {
	case reflect.Invalid:
		fmt.Fprint(w, "nil;")
	case reflect.Bool:
		fmt.Fprint(w, v.Bool(), ";")
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		fmt.Fprint(w, v.Int(), ";")
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		fmt.Fprint(w, v.Uint(), ";")
	case reflect.String:
		fmt.Fprintf(w, "%q;", v.String())
	case reflect.Float64, reflect.Float32:
		fmt.Fprint(w, v.Float(), ";")
	case reflect.Ptr:
		if v.IsNil() {
			fmt.Fprint(w, "nil;")
			return
		}
		if seen[v.Pointer()] {
			return
		}
		seen[v.Pointer()] = true
		hashV(w, v.Elem(), seen, depth+1)
	case reflect.Interface:
		hashV(w, v.Elem(), seen, depth+1)
	case reflect.Slice:
		fmt.Fprintf(w, "%d[", v.Len())
		n := v.Len()
		v = v.Slice(0, v.Cap())
		for i := 0; i < v.Len() && i < n+64; i++ {
			hashV(w, v.Index(i), seen, depth+1)
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			hashV(w, v.Index(i), seen, depth+1)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			hashV(w, v.Field(i), seen, depth+1)
		}
	case reflect.Map:
		keys := v.MapKeys()
		sort.Slice(keys, func(i, j int) bool { return formatV(keys[i]) < formatV(keys[j]) })
		for _, k := range keys {
			hashV(w, k, seen, depth+1)
			hashV(w, v.MapIndex(k), seen, depth+1)
		}
		fmt.Fprint(w, v.Len(), ";")
	}
}

// TempFile makes a file with the given content and returns its path.
func TempFile(name string, data []byte) string {
	p := TempPath(name)
	if err := ioutil.WriteFile(p, data, 0644); err != nil {
		panic(err)
	}
	return p
}

// RepoFile is the content of a file of the repository.
func RepoFile(name string) []byte {
	b, err := ioutil.ReadFile(filepath.Join(os.Getenv("ZZVERIF_REPO"), name))
	if err != nil {
		panic(err)
	}
	return b
}

// TempPath is a path in the scratch directory of this run.
func TempPath(name string) string {
	if tmpdir == "" {
		d, err := ioutil.TempDir("", "zzverif")
		if err != nil {
			panic(err)
		}
		tmpdir = d
	}
	return filepath.Join(tmpdir, name)
}

// OpenFiles is the number of files in the scratch directory that are open or mapped.
func OpenFiles() int {
	dir := filepath.Dir(TempPath("x"))
	n := 0
	fds, _ := filepath.Glob("/proc/self/fd/*")
	for _, fd := range fds {
		if l, err := os.Readlink(fd); err == nil && strings.HasPrefix(l, dir) {
			n++
		}
	}
	maps, _ := ioutil.ReadFile("/proc/self/maps")
	return n + strings.Count(string(maps), dir+"/")
}

// FileContent reads a file; ok is false if there is none.
func FileContent(path string) (data []byte, ok bool) {
	b, err := ioutil.ReadFile(path)
	return b, err == nil
}

// FailIO makes the kth call (from 0) of Read, or Write, of the file at path fail, and no other. (The
// native runs of properties using it are made with a package os that can do that.)
func FailIO(path string, write bool, k int) {
	calls := 0
	ioCalls = &calls
	installFault(func(f *os.File, w bool) error {
		if w != write || f.Name() != path {
			return nil
		}
		calls++
		if calls-1 == k {
			return &os.PathError{Op: "i/o", Path: path, Err: syscall.EIO}
		}
		return nil
	})
}

// IOCalls is how many such calls there were since then.
func IOCalls() int { return *ioCalls }

var (
	ioCalls  *int
	exitCh   chan interface{}
	exitCode int
)

// RunMain runs a main function and returns its exit status. (In native runs the calls to os.Exit
// in the repository are replaced by calls to Exit.)
func RunMain(f func()) int {
	setExit(0)
	callMain(f)
	return getExit()
}

// Args sets the command line.
func Args(args ...string) {
	os.Args = append([]string{"zz"}, args...)
	flag.CommandLine = flag.NewFlagSet("zz", flag.ContinueOnError)
}

func setExit(n int) { exitCode = n }
func getExit() int  { return exitCode }

func callMain(f func()) {
	ch := make(chan interface{}, 2)
	exitCh = ch
	go func() {
		defer func() {
			if r := recover(); r != nil {
				ch <- r
			}
		}()
		f()
		ch <- 0
	}()
	r := <-ch
	exitCh = nil
	if n, ok := r.(int); ok {
		setExit(n)
		return
	}
	panic(r)
}

// Exit stands in for os.Exit.
func Exit(code int) {
	if exitCh == nil {
		os.Exit(code)
	}
	exitCh <- code
	select {}
}

// JSONDecode is what json.NewDecoder(r).Decode(v) does, for the symbolic executor.
func JSONDecode(r io.Reader, v interface{}) error {
	b, err := ioutil.ReadAll(r)
	if err != nil {
		return err
	}
	if len(b) == 0 {
		return io.EOF
	}
	return jsonText(b, v)
}

func jsonText(b []byte, v interface{}) error { return json.Unmarshal(b, v) }

// ---- native running ----

type runIn struct {
	Harness string
	Cases   []map[string]uint64
}

type runOut struct {
	I      int
	Status string // ok, assume, violation, panic
	Msg    string
	Obs    []string
	Stack  string
}

// RunNative executes the cases of the file named by ZZVERIF_IN.
func RunNative(table map[string]func(), setup map[string]func()) {
	b, err := ioutil.ReadFile(os.Getenv("ZZVERIF_IN"))
	if err != nil {
		panic(err)
	}
	var in runIn
	if err := json.Unmarshal(b, &in); err != nil {
		panic(err)
	}
	out, err := os.OpenFile(os.Getenv("ZZVERIF_OUT"), os.O_CREATE|os.O_WRONLY|os.O_TRUNC, 0644)
	if err != nil {
		panic(err)
	}
	defer out.Close()
	f := table[in.Harness]
	if f == nil {
		fmt.Fprintf(out, "{\"I\":-1,\"Status\":\"missing\"}\n")
		return
	}
	if s := setup[in.Harness]; s != nil {
		s()
	}
	enc := json.NewEncoder(out)
	for i, c := range in.Cases {
		r := runOne(f, c)
		r.I = i
		if err := enc.Encode(r); err != nil {
			panic(err)
		}
	}
}

func runOne(f func(), a map[string]uint64) (r runOut) {
	asg, count, obs, frozen = a, map[string]int{}, nil, nil
	defer func() {
		if ioCalls != nil {
			installFault(nil)
			ioCalls = nil
		}
		if tmpdir != "" && strings.Contains(tmpdir, "zzverif") {
			os.RemoveAll(tmpdir)
			tmpdir = ""
		}
		r.Obs = obs
		if x := recover(); x != nil {
			switch y := x.(type) {
			case skip:
				r.Status = "assume"
			case violation:
				r.Status, r.Msg = "violation", y.msg
			default:
				r.Status, r.Msg, r.Stack = "panic", fmt.Sprint(x), string(debug.Stack())
			}
			return
		}
		r.Status = "ok"
		if m := checkFrozen(); m != "" {
			r.Status, r.Msg = "violation", m
		}
	}()
	debug.SetPanicOnFault(true)
	f()
	return
}
