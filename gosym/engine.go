package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
	"golang.org/x/tools/go/types/typeutil"
)

const modPath = "github.com/msnoigrs/gosudachi"
const symPath = modPath + "/internal/zzsym"

// Engine holds what is shared by all workers.
type Engine struct {
	repo      string
	fset      *token.FileSet
	prog      *ssa.Program
	pkgs      map[string]*ssa.Package
	rtErrType *RType
	rtMu      sync.Mutex
	rtMap     typeutil.Map
	rtN       int
	intrMu    sync.Mutex
	pureIntr  map[string]bool
	fuel      int64
	maxCells  int
	mergeInts bool
	noMerge   bool
	stopped   atomic.Bool
	encMu     sync.Mutex
	encoded   map[string]int
	loadErrs  []string
	initMu    sync.Mutex
	initFail  map[string]string
	buildMu   sync.Mutex
	built     map[*ssa.Package]bool
	thorough  bool
}

func (e *Engine) buildPkg(p *ssa.Package) {
	e.buildMu.Lock()
	defer e.buildMu.Unlock()
	if !e.built[p] {
		p.Build()
		e.built[p] = true
	}
}

func goEnv() []string {
	env := []string{}
	for _, kv := range os.Environ() {
		k := strings.SplitN(kv, "=", 2)[0]
		switch k {
		case "GOFLAGS", "GOTOOLCHAIN", "GOPROXY", "GOSUMDB", "GOWORK", "GOENV", "GOPATH", "GOMODCACHE", "GOCACHE", "HOME", "PWD":
			continue
		}
		env = append(env, kv)
	}
	env = append(env, "HOME=/root", "GOTOOLCHAIN=local", "GOPROXY=off", "GOSUMDB=off", "GOWORK=off", "GOENV=off",
		"GOPATH=/root/go", "GOMODCACHE=/root/go/pkg/mod", "GOCACHE=/root/.cache/go-build")
	return env
}

// load reads the packages with the overlay.
func (e *Engine) load(repo, modfile string, patterns []string, overlay map[string][]byte) (map[string][]string, error) {
	e.fset = token.NewFileSet()
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedDeps |
			packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir:        repo,
		Env:        append(goEnv(), "GOFLAGS=-mod=mod", "CGO_ENABLED=0"),
		BuildFlags: []string{"-modfile=" + modfile, "-tags=purego"},
		Fset:       e.fset,
		Overlay:    overlay,
	}
	initial, err := packages.Load(cfg, patterns...)
	if err != nil {
		return nil, err
	}
	bad := map[string][]string{}
	packages.Visit(initial, nil, func(p *packages.Package) {
		for _, er := range p.Errors {
			bad[p.PkgPath] = append(bad[p.PkgPath], er.Error())
		}
	})
	prog, _ := ssautil.AllPackages(initial, ssa.InstantiateGenerics)
	e.prog = prog
	e.pkgs = map[string]*ssa.Package{}
	for _, p := range prog.AllPackages() {
		e.pkgs[p.Pkg.Path()] = p
	}
	e.built = map[*ssa.Package]bool{}
	return bad, nil
}

func newEngine() *Engine {
	e := &Engine{encoded: map[string]int{}, initFail: map[string]string{}, fuel: 3e7, maxCells: 30e6}
	e.rtMap.SetHasher(typeutil.MakeHasher())
	e.rtErrType = &RType{t: types.NewNamed(types.NewTypeName(token.NoPos, nil, "runtimeError", nil), types.Typ[types.String], nil), id: 0}
	e.pureIntr = map[string]bool{}
	return e
}

func (e *Engine) rtype(t types.Type) *RType {
	e.rtMu.Lock()
	defer e.rtMu.Unlock()
	if r := e.rtMap.At(t); r != nil {
		return r.(*RType)
	}
	e.rtN++
	r := &RType{t, e.rtN}
	e.rtMap.Set(t, r)
	return r
}

func (e *Engine) lookupMethod(t types.Type, m *types.Func) *ssa.Function {
	e.intrMu.Lock()
	defer e.intrMu.Unlock()
	return e.prog.LookupMethod(t, m.Pkg(), m.Name())
}

func (e *Engine) noteEncoded(c *CFunc) {
	n := 0
	for _, b := range c.fn.Blocks {
		n += len(b.Instrs)
	}
	e.encMu.Lock()
	e.encoded[c.name] = n
	e.encMu.Unlock()
}

func (e *Engine) pkgType(path, name string) types.Type {
	p := e.pkgs[path]
	if p == nil {
		return nil
	}
	o := p.Pkg.Scope().Lookup(name)
	if o == nil {
		return nil
	}
	return o.Type()
}

// ---- workers ----

func (e *Engine) newWorker(id int) *W {
	w := &W{eng: e, id: id, tb: newTB(), funcs: map[*ssa.Function]*CFunc{}, globals: map[*ssa.Global]*Obj{},
		layouts: map[types.Type]*Layout{}, rtypes: map[types.Type]*RType{}, methods: map[methKey]*CFunc{},
		reflTypes: map[*RType]*Obj{}, inited: map[*ssa.Package]int{}, qcache: map[string]*qres{}, concLimit: 300}
	w.lay8 = &Layout{n: 1, leaf: []uint8{8}, t: types.Typ[types.Uint8]}
	w.sol = newSolver(w.tb)
	w.lia = &LIA{tb: w.tb}
	w.model = w.newModel(nil)
	w.asgCount = map[string]int{}
	w.fs = newVFS()
	return w
}

var skipInit = map[string]bool{
	"runtime": true, "syscall": true, "reflect": true, "testing": true, "log": true, "net": true, "net/http": true,
	"golang.org/x/text/language": true, "golang.org/x/text/message": true, "golang.org/x/sys/unix": true, "encoding/json": true,
	"os": true, "internal/reflectlite": true, "internal/cpu": true, "internal/poll": true, "internal/godebug": true,
	"crypto/tls": true, "internal/testlog": true, "golang.org/x/text/message/catalog": true,
}

func (w *W) initPkg(p *ssa.Package) {
	if w.inited[p] != 0 {
		return
	}
	w.inited[p] = 1
	path := p.Pkg.Path()
	if skipInit[path] || strings.HasPrefix(path, "internal/runtime") || strings.HasPrefix(path, "runtime/") {
		w.inited[p] = 2
		if path == "os" {
			w.initOS(p)
		}
		return
	}
	fn := p.Func("init")
	if fn == nil {
		w.inited[p] = 2
		return
	}
	c := w.cfunc(fn)
	end := w.runBase(c, nil)
	w.inited[p] = 2
	if end.kind != endOK {
		w.eng.initMu.Lock()
		w.eng.initFail[path] = end.msg
		w.eng.initMu.Unlock()
	}
}

// runBase executes a function concretely and permanently (no trail).
func (w *W) runBase(c *CFunc, args []V) (end pathEnd) {
	sTop, sBase, sSpec, sG, sSteps := w.top, w.base, w.spec, w.specG, w.steps
	sT, sP, sD, sA, sStop := w.instrTrail, w.instrPC, w.instrDecs, w.instrAsg, w.stopAt
	sCells := w.cellsAlloc
	w.top, w.base, w.spec = nil, true, 0
	w.stopAt = time.Now().Add(10 * time.Minute)
	defer func() {
		w.top, w.base, w.spec, w.specG, w.steps = sTop, sBase, sSpec, sG, sSteps
		w.instrTrail, w.instrPC, w.instrDecs, w.instrAsg, w.stopAt = sT, sP, sD, sA, sStop
		w.cellsAlloc = sCells
	}()
	res := w.res
	defer func() { w.res = res }()
	if w.res == nil || !sBase {
		w.res = &HarnessResult{h: &Harness{Name: "init " + c.name}}
	}
	if !c.compiled {
		if c.fn.Blocks == nil {
			if p := fnPkg(c.fn); p != nil {
				w.eng.buildPkg(p)
			}
		}
		if c.fn.Blocks == nil {
			return pathEnd{endOK, ""}
		}
		w.compile(c)
	}
	w.enter(c, args, nil, false)
	end = w.run()
	if len(w.res.violations) > 0 && end.kind == endViolation {
		end.msg += " at " + w.res.violations[0].Where
	}
	return end
}

// Harness describes one harness function.
type Harness struct {
	Name   string   `json:"name"` // function name
	Pkg    string   `json:"pkg"`  // package path relative to the module ("" is the root)
	Setup  string   `json:"setup,omitempty"`
	Bounds string   `json:"bounds,omitempty"`
	Opts   []string `json:"opts,omitempty"` // mergeints, nomerge, race, thorough-only
	Fuel   int64    `json:"fuel,omitempty"`
	TimeQ  int      `json:"time_quick,omitempty"` // seconds
	TimeT  int      `json:"time_thorough,omitempty"`
	Hang   bool     `json:"hang,omitempty"`  // exceeding the step bound is a candidate violation
	Reach  []string `json:"reach,omitempty"` // labels that must be reached by some completed path
}

func (h *Harness) opt(s string) bool {
	for _, o := range h.Opts {
		if o == s {
			return true
		}
	}
	return false
}

func (h *Harness) pkgPath() string {
	if h.Pkg == "" {
		return modPath
	}
	return modPath + "/" + h.Pkg
}

type Violation struct {
	Harness string            `json:"harness"`
	Msg     string            `json:"msg"`
	Where   string            `json:"where"`
	Asg     map[string]uint64 `json:"asg"`
	Steps   int64             `json:"steps"`
	Panic   bool              `json:"panic"`
	Hang    bool              `json:"hang"`
	Native  string            `json:"native"`
}

type Sample struct {
	Asg map[string]uint64 `json:"asg"`
	Obs []string          `json:"obs"`
}

// HarnessResult accumulates over paths (shared between workers).
type HarnessResult struct {
	h              *Harness
	hangs          atomic.Int64
	mu             sync.Mutex
	violations     []*Violation
	vkeys          map[string]int
	paths          atomic.Int64
	okPaths        atomic.Int64
	assumePaths    atomic.Int64
	forks          atomic.Int64
	merges         atomic.Int64
	asserts        atomic.Int64
	assertsTrivial atomic.Int64
	steps          atomic.Int64
	notes          map[string]map[string]int
	reach          map[string]int
	samples        []Sample
	maxSteps       int64
	wall           float64
	pending        int
	sampleEvery    int64
}

func (r *HarnessResult) note(kind, msg string) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if r.notes == nil {
		r.notes = map[string]map[string]int{}
	}
	if r.notes[kind] == nil {
		r.notes[kind] = map[string]int{}
	}
	if len(r.notes[kind]) < 40 || r.notes[kind][msg] > 0 {
		r.notes[kind][msg]++
	} else {
		r.notes[kind]["(other)"]++
	}
}

func (r *HarnessResult) addViolation(v *Violation) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if r.vkeys == nil {
		r.vkeys = map[string]int{}
	}
	key := digits.ReplaceAllString(v.Msg, "#")
	if v.Panic {
		key += "@" + strings.SplitN(v.Where, " < ", 2)[0]
	}
	r.vkeys[key]++
	if r.vkeys[key] > 3 {
		return
	}
	r.violations = append(r.violations, v)
}

func (r *HarnessResult) addReach(labels []string) {
	if len(labels) == 0 {
		return
	}
	r.mu.Lock()
	defer r.mu.Unlock()
	if r.reach == nil {
		r.reach = map[string]int{}
	}
	for _, l := range labels {
		r.reach[l]++
	}
}

type workQueue struct {
	mu      sync.Mutex
	cond    *sync.Cond
	jobs    []Job
	active  int
	waiting atomic.Int32
	closed  bool
}

func (q *workQueue) get() (Job, bool) {
	q.mu.Lock()
	defer q.mu.Unlock()
	q.waiting.Add(1)
	defer q.waiting.Add(-1)
	for {
		if q.closed {
			return Job{}, false
		}
		if n := len(q.jobs); n > 0 {
			j := q.jobs[n-1]
			q.jobs = q.jobs[:n-1]
			q.active++
			return j, true
		}
		if q.active == 0 {
			q.closed = true
			q.cond.Broadcast()
			return Job{}, false
		}
		q.cond.Wait()
	}
}

func (q *workQueue) put(j Job) {
	q.mu.Lock()
	q.jobs = append(q.jobs, j)
	q.mu.Unlock()
	q.cond.Signal()
}

func (q *workQueue) done() {
	q.mu.Lock()
	q.active--
	if q.active == 0 {
		q.cond.Broadcast()
	}
	q.mu.Unlock()
}

// runHarness explores all paths of h with n workers within the time limit.
func (e *Engine) runHarness(h *Harness, n int, limit time.Duration) *HarnessResult {
	res := &HarnessResult{h: h, sampleEvery: 1}
	t0 := time.Now()
	defer func() { res.wall = time.Since(t0).Seconds() }()
	p := e.pkgs[h.pkgPath()]
	if p == nil {
		res.note("unsupported", "package not loaded: "+h.pkgPath())
		return res
	}
	e.buildPkg(p)
	fn := p.Func(h.Name)
	if fn == nil {
		res.note("unsupported", "harness not found: "+h.Name)
		return res
	}
	e.mergeInts = h.opt("mergeints")
	e.noMerge = h.opt("nomerge") || forceNoMerge
	e.fuel = 3e7
	if h.Hang {
		e.fuel = 2e6
	}
	if h.Fuel > 0 {
		e.fuel = h.Fuel
	}
	e.stopped.Store(false)
	stopAt := t0.Add(limit)
	q := &workQueue{}
	q.cond = sync.NewCond(&q.mu)
	q.jobs = []Job{{}}
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func(id int) {
			defer wg.Done()
			var w *W
			defer func() {
				if w != nil {
					w.sol.stop()
					w.lia.stop()
				}
				if r := recover(); r != nil {
					res.note("unsupported", fmt.Sprintf("internal: worker crash: %v", r))
					if os.Getenv("GOSYM_DEBUG") != "" {
						fmt.Fprintf(os.Stderr, "%v\n%s\n", r, debug.Stack())
					}
					q.mu.Lock()
					q.closed = true
					q.mu.Unlock()
					q.cond.Broadcast()
				}
			}()
			for {
				job, ok := q.get()
				if !ok {
					return
				}
				if w == nil {
					w = e.newWorker(id)
					w.res = res
					w.stopAt = stopAt
					w.initPkg(p)
					if h.Setup != "" {
						sf := p.Func(h.Setup)
						if sf == nil {
							res.note("unsupported", "set-up not found "+h.Setup)
							q.done()
							return
						}
						c := w.cfunc(sf)
						end := w.runBase(c, nil)
						if end.kind != endOK {
							res.note("unsupported", "set-up failed: "+end.msg)
							q.done()
							return
						}
					}
					w.cellsAlloc = 0
				}
				w.runJob(w.cfunc(fn), job, q)
				q.done()
			}
		}(i)
	}
	wg.Wait()
	return res
}

func (w *W) runJob(c *CFunc, job Job, q *workQueue) {
	res := w.res
	w.undoTo(0)
	w.cps = w.cps[:0]
	w.clock = 1
	w.cpClock = 1
	w.pc = w.pc[:0]
	w.decs = w.decs[:0]
	w.replay, w.replayPos = job.decs, 0
	w.obs, w.asg, w.reach = nil, nil, nil
	w.asgCount = map[string]int{}
	w.steps, w.spec, w.cellsAlloc = 0, 0, 0
	w.top = nil
	w.model = w.newModel(nil)
	for k, v := range job.model {
		w.model.set(w.tb.varOf(k).vars[0], v)
	}
	w.ensureCompiled(c)
	w.enter(c, nil, nil, false)
	lastDonate := time.Now()
	for {
		end := w.run()
		w.finishPath(end)
		if end.kind == endStop {
			res.mu.Lock()
			res.pending += len(w.cps) + 1
			res.mu.Unlock()
			w.cps = w.cps[:0]
			break
		}
		if len(w.tb.tab) > 3000000 && len(w.cps) == 0 {
			break
		}
		if len(w.cps) == 0 {
			break
		}
		if q.waiting.Load() > 0 && len(w.cps) > 0 && time.Since(lastDonate) > time.Millisecond {
			q.mu.Lock()
			nj := len(q.jobs)
			q.mu.Unlock()
			for k := nj; k < int(q.waiting.Load()) && len(w.cps) > 1; k++ {
				cp := w.cps[0]
				w.cps = w.cps[1:]
				j := Job{decs: append(append([]Decision(nil), cp.prefix...), cp.local...), model: map[string]uint64{}}
				for _, a := range cp.asgs {
					if a.t.op == OVar {
						if x := cp.model.get(a.t.vars[0]); x != 0 {
							j.model[a.t.name] = x
						}
					}
				}
				q.put(j)
			}
			lastDonate = time.Now()
		}
		w.restore()
	}
	w.undoTo(0)
	if len(w.tb.tab) > 2000000 {
		// forget terms: a fresh builder keeps memory bounded
		w.resetTerms()
	}
}

// resetTerms drops all terms (only between jobs, when no term is referenced from memory).
func (w *W) resetTerms() {
	w.tb = newTB()
	w.sol.stop()
	w.lia.stop()
	w.sol = newSolver(w.tb)
	w.lia = &LIA{tb: w.tb}
	w.qcache = map[string]*qres{}
	w.model = w.newModel(nil)
}

func (w *W) finishPath(end pathEnd) {
	r := w.res
	r.paths.Add(1)
	r.steps.Add(w.steps)
	switch end.kind {
	case endOK, endExit:
		n := r.okPaths.Add(1)
		r.addReach(w.reach)
		r.mu.Lock()
		take := len(r.samples) < 400 && n%r.sampleEvery == 0
		if take && len(r.samples) >= 200 {
			// thin out
			r.sampleEvery *= 2
			var keep []Sample
			for i, s := range r.samples {
				if i%2 == 0 {
					keep = append(keep, s)
				}
			}
			r.samples = keep
		}
		if w.steps > r.maxSteps {
			r.maxSteps = w.steps
		}
		r.mu.Unlock()
		if take {
			s := Sample{Asg: w.assignment(w.model)}
			for _, o := range w.obs {
				s.Obs = append(s.Obs, o.label+"="+w.fmtModel(o.v, o.t))
			}
			r.mu.Lock()
			r.samples = append(r.samples, s)
			r.mu.Unlock()
		}
	case endAssume:
		r.assumePaths.Add(1)
	case endViolation:
		r.addReach(w.reach)
	case endFuel:
		// a candidate only: the replay tells whether the real code comes to an end
		switch {
		case strings.HasPrefix(end.msg, "memory bound"), strings.HasPrefix(end.msg, "allocation bound"):
			r.addViolation(&Violation{Harness: r.h.Name, Msg: "does not terminate within the memory bound", Where: w.where(), Asg: w.assignment(w.model), Steps: w.steps, Hang: true})
		case strings.HasPrefix(end.msg, "step bound"), strings.HasPrefix(end.msg, "call depth"):
			r.addViolation(&Violation{Harness: r.h.Name, Msg: "does not terminate within the step bound", Where: w.where(), Asg: w.assignment(w.model), Steps: w.steps, Hang: true})
			if r.hangs.Add(1) > 1 {
				w.eng.stopped.Store(true)
			}
		}
		r.note("bound", end.msg)
	case endUnsupported:
		r.note("unsupported", end.msg)
	case endUnknown:
		r.note("unknown", end.msg)
	case endStop:
		r.note("time", end.msg)
	}
}

// overlayFiles collects the harness files under dir: dir/<pkg>/file.go -> repo/<pkg>/zz_verif_<file>.go
func overlayFiles(repo, dir string, drop map[string]bool) (map[string]string, error) {
	m := map[string]string{}
	err := filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if fi.IsDir() || !strings.HasSuffix(p, ".go") || drop[p] {
			return nil
		}
		rel, _ := filepath.Rel(dir, p)
		d, f := filepath.Split(rel)
		if d == "root/" {
			d = ""
		}
		if strings.HasSuffix(f, "_native.go") {
			return nil
		}
		m[filepath.Join(repo, d, "zz_verif_"+f)] = p
		return nil
	})
	return m, err
}

func sortedKeys[T any](m map[string]T) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
