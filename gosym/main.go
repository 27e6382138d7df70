package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"time"
)

type PropCfg struct {
	Harnesses   []*Harness `json:"harnesses"`
	Assumptions []string   `json:"assumptions"`
	Outside     []string   `json:"outside"`
	Race        bool       `json:"race"`
}

type Config struct {
	Common     []string            `json:"common_assumptions"`
	Properties map[string]*PropCfg `json:"properties"`
}

type finding struct {
	Property string `json:"property"`
	Harness  string `json:"harness"`
	Msg      string `json:"msg"`
	Where    string `json:"where"`
	What     string `json:"what"`
}

type Driver struct {
	repo, verif string
	tier        string
	seed        int
	prop        string
	cfg         *PropCfg
	common      []string
	eng         *Engine
	overlay     map[string]string // path in repo -> path in verif
	scratch     string
	dropped     []string
	notes       []string
	native      *Native
	workers     int
	only        string
	verbose     bool
}

func (d *Driver) logf(f string, a ...any) {
	if d.verbose {
		fmt.Fprintf(os.Stderr, f+"\n", a...)
	}
}

func main() {
	repo := flag.String("repo", "/repo", "")
	verif := flag.String("verif", "/verif", "")
	only := flag.String("h", "", "run only this harness")
	verbose := flag.Bool("v", false, "")
	workers := flag.Int("j", runtime.NumCPU(), "")
	tier := flag.String("tier", "", "")
	cpuprof := flag.String("cpuprofile", "", "")
	tl := flag.Int("t", 0, "time limit per harness, seconds")
	nomerge := flag.Bool("nomerge", false, "")
	flag.Parse()
	debug.SetGCPercent(300)
	debug.SetMemoryLimit(14 << 30)
	args := flag.Args()
	if len(args) < 1 {
		fmt.Fprintln(os.Stderr, "usage: gosym [flags] check PROPERTY | replay FILE")
		os.Exit(2)
	}
	if *cpuprof != "" {
		f, _ := os.Create(*cpuprof)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	d := &Driver{repo: *repo, verif: *verif, workers: *workers, only: *only, verbose: *verbose}
	d.tier = os.Getenv("VERIF_TIER")
	if *tier != "" {
		d.tier = *tier
	}
	if d.tier == "" {
		d.tier = "quick"
	}
	os.Setenv("VERIF_TIER", d.tier)
	d.seed, _ = strconv.Atoi(os.Getenv("VERIF_SEED"))
	if d.seed == 0 {
		d.seed = 1
	}
	forceNoMerge = *nomerge
	switch args[0] {
	case "check":
		rc := d.check(args[1], *tl)
		pprof.StopCPUProfile()
		os.Exit(rc)
	case "replay":
		os.Exit(d.replayFile(args[1]))
	}
	fmt.Fprintln(os.Stderr, "unknown command")
	os.Exit(2)
}

var digits = regexp.MustCompile(`[0-9]+`)

var forceNoMerge bool

func (d *Driver) loadConfig(prop string) error {
	b, err := os.ReadFile(filepath.Join(d.verif, "checks.json"))
	if err != nil {
		return err
	}
	var c Config
	if err := json.Unmarshal(b, &c); err != nil {
		return err
	}
	d.prop = prop
	d.cfg = c.Properties[prop]
	d.common = c.Common
	if d.cfg == nil {
		return fmt.Errorf("no such property %s", prop)
	}
	return nil
}

// harnessFiles selects the overlay files: the harness library, shared files (named common*.go) and
// the property's own files (named <property>*.go, lower case) of the packages involved.
func (d *Driver) harnessFiles(drop map[string]bool) (map[string]string, error) {
	all, err := overlayFiles(d.repo, filepath.Join(d.verif, "harness"), drop)
	if err != nil {
		return nil, err
	}
	m := map[string]string{}
	lp := strings.ToLower(d.prop)
	for k, v := range all {
		base := filepath.Base(v)
		if strings.Contains(v, "/internal/zzsym/") || strings.Contains(v, "/internal/zzref/") || strings.HasPrefix(base, "common") || strings.HasPrefix(base, lp) {
			m[k] = v
		}
	}
	return m, nil
}

var posRe = regexp.MustCompile(`^([^:]+):\d+`)

func (d *Driver) setup() error {
	var err error
	d.scratch, err = os.MkdirTemp("", "gosym")
	if err != nil {
		return err
	}
	// module files outside the repository so that it stays as it is
	for _, f := range []string{"go.mod", "go.sum"} {
		b, err := os.ReadFile(filepath.Join(d.repo, f))
		if err != nil {
			return err
		}
		if err := os.WriteFile(filepath.Join(d.scratch, f), b, 0644); err != nil {
			return err
		}
	}
	pkgs := map[string]bool{}
	for _, h := range d.cfg.Harnesses {
		pkgs[h.Pkg] = true
	}
	var patterns []string
	for p := range pkgs {
		if p == "" {
			patterns = append(patterns, ".")
		} else {
			patterns = append(patterns, "./"+p)
		}
	}
	sort.Strings(patterns)
	drop := map[string]bool{}
	for try := 0; try < 12; try++ {
		d.overlay, err = d.harnessFiles(drop)
		if err != nil {
			return err
		}
		ov := map[string][]byte{}
		for k, v := range d.overlay {
			b, err := os.ReadFile(v)
			if err != nil {
				return err
			}
			ov[k] = b
		}
		d.eng = newEngine()
		d.eng.repo = d.repo
		d.eng.thorough = d.tier == "thorough"
		bad, err := d.eng.load(d.repo, filepath.Join(d.scratch, "go.mod"), patterns, ov)
		if err != nil {
			return err
		}
		again := false
		var other []string
		for _, p := range sortedKeys(bad) {
			if !strings.HasPrefix(p, modPath) {
				continue
			}
			for _, e := range bad[p] {
				m := posRe.FindStringSubmatch(e)
				if m != nil {
					if src, ok := d.overlay[m[1]]; ok {
						if !drop[src] {
							drop[src] = true
							again = true
							d.dropped = append(d.dropped, src+": "+e)
						}
						continue
					}
				}
				other = append(other, e)
			}
		}
		if again {
			continue
		}
		if len(other) > 0 {
			return fmt.Errorf("the repository does not type-check: %s", strings.Join(other, "; "))
		}
		return nil
	}
	return fmt.Errorf("harness files cannot be made to type-check")
}

func (d *Driver) check(prop string, tl int) int {
	t0 := time.Now()
	if err := d.loadConfig(prop); err != nil {
		fmt.Fprintln(os.Stderr, "gosym:", err)
		return 2
	}
	if err := d.setup(); err != nil {
		if d.scratch != "" {
			os.RemoveAll(d.scratch)
		}
		fmt.Fprintln(os.Stderr, "gosym:", err)
		return 2
	}
	defer os.RemoveAll(d.scratch)
	d.logf("loaded in %.1fs", time.Since(t0).Seconds())
	for _, s := range d.dropped {
		fmt.Printf("NOTE: harness file set aside (does not type-check against this tree): %s\n", s)
	}
	d.native = newNative(d)
	var results []*HarnessResult
	type cand struct {
		v *Violation
		h *Harness
	}
	var confirmed []cand
	spurious, hanging := 0, false
	validated, mismatched := 0, 0
	var mismatchNotes []string
	totalBudget := 780 * time.Second
	if d.tier == "thorough" {
		totalBudget = 3 * time.Hour
	}
	for _, h := range d.cfg.Harnesses {
		if d.only != "" && h.Name != d.only {
			continue
		}
		if h.opt("thorough-only") && d.tier != "thorough" {
			continue
		}
		lim := h.TimeQ
		if lim == 0 {
			lim = 60
		}
		if d.tier == "thorough" {
			lim = h.TimeT
			if lim == 0 {
				lim = 900
			}
		}
		if tl > 0 {
			lim = tl
		}
		left := totalBudget - time.Since(t0)
		limD := time.Duration(lim) * time.Second
		if limD > left {
			limD = left
		}
		d.native.prebuild(h)
		if limD < time.Second {
			r := &HarnessResult{h: h}
			r.note("time", "no time left for this harness")
			results = append(results, r)
			continue
		}
		res := d.eng.runHarness(h, d.workers, limD)
		results = append(results, res)
		printForks()
		d.logf("%s: paths %d ok %d assume %d forks %d merges %d asserts %d (%d trivial) wall %.1fs maxsteps %d pending %d", h.Name, res.paths.Load(), res.okPaths.Load(), res.assumePaths.Load(), res.forks.Load(), res.merges.Load(), res.asserts.Load(), res.assertsTrivial.Load(), res.wall, res.maxSteps, res.pending)
		for _, k := range sortedKeys(res.notes) {
			for _, m := range sortedKeys(res.notes[k]) {
				d.logf("  %s x%d: %s", k, res.notes[k][m], m)
			}
		}
		d.logf("  reach %v", res.reach)
		tried, done := map[string]int{}, map[string]int{}
		for _, v := range res.violations {
			key := digits.ReplaceAllString(v.Msg, "#")
			if done[key] >= 2 || tried[key] >= 8 {
				continue
			}
			if v.Hang && hanging {
				continue // one suffices, and they take long
			}
			tried[key]++
			ok, how := d.native.replay(h, v, d.cfg.Race || h.opt("race"))
			d.logf("  candidate: %s at %s\n     asg %s -> reproduced %v (%s)", v.Msg, v.Where, tail(asgText(v.Asg), 600), ok, how)
			if ok {
				v.Native = how
				hanging = hanging || v.Hang
				done[key]++
				confirmed = append(confirmed, cand{v, h})
			} else {
				spurious++
				d.notes = append(d.notes, fmt.Sprintf("candidate of %s not reproduced natively, not reported: %s at %s (%s)", h.Name, v.Msg, v.Where, how))
			}
		}
		if len(confirmed) > 0 && d.only == "" && totalBudget > time.Since(t0)+150*time.Second {
			totalBudget = time.Since(t0) + 150*time.Second // a violation is already established
		}
		nv, bad, viol := d.native.validate(h, res)
		for _, v := range viol {
			key := digits.ReplaceAllString(v.Msg, "#")
			if done[key] < 2 {
				done[key]++
				confirmed = append(confirmed, cand{v, h})
			}
		}
		validated += nv
		mismatched += len(bad)
		for _, b := range bad {
			d.logf("  MISMATCH %s", b)
			if len(mismatchNotes) < 20 {
				mismatchNotes = append(mismatchNotes, h.Name+": "+b)
			}
		}
	}
	// known findings and verdict
	known, fixed := d.knownFindings()
	_ = fixed
	rc := 0
	var reported []*Violation
	knownSeen := map[string]bool{}
	os.MkdirAll(filepath.Join(d.verif, "evidence", "replay"), 0755)
	seen := map[string]bool{}
	for _, c := range confirmed {
		kf := ""
		for _, k := range known {
			if k.Property == prop && k.Harness == c.h.Name && strings.Contains(c.v.Msg, k.Msg) && strings.Contains(c.v.Where, k.Where) {
				kf = k.What
			}
		}
		if kf != "" {
			if !knownSeen[kf] {
				knownSeen[kf] = true
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, kf)
			}
			continue
		}
		rc = 1
		reported = append(reported, c.v)
		key := c.h.Name + digits.ReplaceAllString(c.v.Msg, "#")
		if seen[key] {
			continue
		}
		seen[key] = true
		path := filepath.Join(d.verif, "evidence", "replay", fmt.Sprintf("%s-%d.json", prop, len(seen)))
		b, _ := json.MarshalIndent(map[string]any{"property": prop, "harness": c.h.Name, "pkg": c.h.Pkg, "violation": c.v,
			"how": "gosym replay " + path}, "", " ")
		os.WriteFile(path, append(b, '\n'), 0644)
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, path)
		fmt.Printf("  harness %s: %s\n  at %s\n  input %s\n  native: %s\n", c.h.Name, c.v.Msg, c.v.Where, asgText(c.v.Asg), c.v.Native)
	}
	d.evidence(prop, results, reported, validated, mismatched, mismatchNotes, spurious, time.Since(t0).Seconds())
	if rc == 0 {
		fmt.Printf("OK property=%s harnesses=%d wall=%.1fs\n", prop, len(results), time.Since(t0).Seconds())
	}
	return rc
}

func asgText(m map[string]uint64) string {
	var s []string
	for _, k := range sortedKeys(m) {
		s = append(s, fmt.Sprintf("%s=%d", k, m[k]))
	}
	return strings.Join(s, " ")
}

func (d *Driver) knownFindings() (known []finding, fixed []string) {
	b, err := os.ReadFile(filepath.Join(d.verif, "known-findings.txt"))
	if err != nil {
		return
	}
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if strings.HasPrefix(l, "finding: ") {
			var f finding
			if json.Unmarshal([]byte(l[9:]), &f) == nil && f.Msg != "" {
				known = append(known, f)
			}
		} else if strings.HasPrefix(l, "fixed: ") {
			fixed = append(fixed, l)
		}
	}
	return
}

func (d *Driver) evidence(prop string, results []*HarnessResult, viol []*Violation, validated, mismatched int, mm []string, spurious int, wall float64) {
	states, trans := int64(0), int64(0)
	var hs []map[string]any
	var samples []any
	complete := true
	for _, r := range results {
		states += r.paths.Load() + r.forks.Load()
		trans += r.steps.Load()
		full := r.pending == 0
		for k := range r.notes {
			if k != "" {
				full = false
			}
		}
		vac := r.okPaths.Load() == 0 && len(r.violations) == 0
		for _, l := range r.h.Reach {
			if r.reach[l] == 0 {
				vac = true
			}
		}
		if !full {
			complete = false
		}
		hs = append(hs, map[string]any{
			"harness": r.h.Name, "package": r.h.pkgPath(), "bounds": r.h.Bounds, "paths": r.paths.Load(), "completed_paths": r.okPaths.Load(),
			"assumption_pruned": r.assumePaths.Load(), "forks": r.forks.Load(), "merged_regions": r.merges.Load(),
			"assertions_checked": r.asserts.Load(), "assertions_constant": r.assertsTrivial.Load(), "instructions": r.steps.Load(), "wall_s": r.wall,
			"complete_within_bounds": full, "unexplored_branches": r.pending, "vacuous": vac, "reached": r.reach, "incomplete": r.notes,
		})
		for i, s := range r.samples {
			if i >= 3 {
				break
			}
			samples = append(samples, map[string]any{"harness": r.h.Name, "input": s.Asg, "observed": s.Obs})
		}
	}
	if len(samples) == 0 {
		samples = append(samples, map[string]any{"note": "no completed path"})
	}
	var enc []string
	ninstr := 0
	for _, k := range sortedKeys(d.eng.encoded) {
		if strings.Contains(k, modPath) && !strings.Contains(k, "zzsym") {
			enc = append(enc, strings.ReplaceAll(k, modPath, "gosudachi"))
		}
		ninstr += d.eng.encoded[k]
	}
	inits := map[string]string{}
	for k, v := range d.eng.initFail {
		inits[k] = v
	}
	cov := map[string]any{
		"states": states, "transitions": trans, "traces_validated_against_impl": validated, "samples": samples,
		"trace_mismatches": mismatched, "trace_mismatch_notes": mm, "unreproduced_candidates": spurious,
		"functions_encoded": enc, "functions_encoded_total": len(d.eng.encoded), "ssa_instructions_encoded": ninstr,
		"solver": map[string]any{"queries": stats.Queries, "sat": stats.Sat, "unsat": stats.Unsat, "unknown": stats.Unknown,
			"cache_hits": stats.CacheHits, "fallbacks": stats.Fallbacks, "errors": stats.Errors, "time_s": float64(stats.Nanos) / 1e9, "binary": solverBin},
		"harnesses": hs, "exhaustive": complete, "harness_files_set_aside": d.dropped, "outside_the_claim": d.cfg.Outside, "notes": d.notes,
		"package_initialisers_not_modelled": inits,
		"meaning":                           "states: symbolic path states (completed paths plus fork points); transitions: SSA instructions executed symbolically; every count is of this run",
	}
	ev := map[string]any{"property": prop, "tier": d.tier, "seed": d.seed, "level": "model_checking", "coverage": cov,
		"assumptions": append(append([]string{}, d.common...), d.cfg.Assumptions...), "wall_s": wall, "violations": len(viol)}
	os.MkdirAll(filepath.Join(d.verif, "evidence"), 0755)
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(d.verif, "evidence", prop+".json"), append(b, '\n'), 0644)
}

func (d *Driver) replayFile(path string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var r struct {
		Property, Harness, Pkg string
		Violation              *Violation
	}
	if err := json.Unmarshal(b, &r); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	if err := d.loadConfig(r.Property); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	if err := d.setup(); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(d.scratch)
	d.native = newNative(d)
	for _, h := range d.cfg.Harnesses {
		if h.Name == r.Harness {
			ok, how := d.native.replay(h, r.Violation, d.cfg.Race || h.opt("race"))
			fmt.Printf("reproduced=%v %s\n", ok, how)
			if ok {
				return 1
			}
			return 0
		}
	}
	return 2
}

// ---- native side ----

type Native struct {
	d    *Driver
	bins map[string]*natBin
}

type natBin struct {
	path string
	err  error
	done chan struct{}
}

func newNative(d *Driver) *Native { return &Native{d: d, bins: map[string]*natBin{}} }

func (n *Native) prebuild(h *Harness) { n.bin(h.Pkg, false) }

func (n *Native) bin(pkg string, race bool) *natBin {
	key := pkg
	if race {
		key += "!race"
	}
	if b, ok := n.bins[key]; ok {
		return b
	}
	b := &natBin{done: make(chan struct{})}
	n.bins[key] = b
	go func() {
		defer close(b.done)
		b.path, b.err = n.build(pkg, race)
	}()
	return b
}

func (n *Native) build(pkg string, race bool) (string, error) {
	d := n.d
	id := strings.ReplaceAll(pkg, "/", "_")
	if race {
		id += "_race"
	}
	name := "gosudachi"
	if p := d.eng.pkgs[modPath+map[bool]string{true: "", false: "/" + pkg}[pkg == ""]]; p != nil {
		name = p.Pkg.Name()
	}
	ov := map[string]string{}
	for k, v := range d.overlay {
		ov[k] = v
	}
	// hide the package's own tests so that they cannot interfere
	ents, _ := os.ReadDir(filepath.Join(d.repo, pkg))
	for _, e := range ents {
		if strings.HasSuffix(e.Name(), "_test.go") {
			ov[filepath.Join(d.repo, pkg, e.Name())] = ""
		}
	}
	d.replaceExit(id, ov)
	if err := d.faultyOS(id, ov); err != nil {
		return "", err
	}
	p := d.eng.pkgs[strings.TrimSuffix(modPath+"/"+pkg, "/")]
	var sb strings.Builder
	fmt.Fprintf(&sb, "package %s\n\nimport (\n\t\"testing\"\n\n\tzzsym \"%s\"\n)\n\nfunc TestZZVerif(t *testing.T) {\n\tzzsym.RunNative(map[string]func(){\n", name, symPath)
	setups := ""
	for _, h := range d.cfg.Harnesses {
		if h.Pkg == pkg && p != nil && p.Func(h.Name) != nil {
			fmt.Fprintf(&sb, "\t\t%q: %s,\n", h.Name, h.Name)
			if h.Setup != "" && p.Func(h.Setup) != nil {
				setups += fmt.Sprintf("\t\t%q: %s,\n", h.Name, h.Setup)
			}
		}
	}
	fmt.Fprintf(&sb, "\t}, map[string]func(){\n%s\t})\n}\n", setups)
	mf := filepath.Join(d.scratch, "main_"+id+"_test.go")
	if err := os.WriteFile(mf, []byte(sb.String()), 0644); err != nil {
		return "", err
	}
	ov[filepath.Join(d.repo, pkg, "zz_verif_main_test.go")] = mf
	oj, _ := json.Marshal(map[string]any{"Replace": ov})
	of := filepath.Join(d.scratch, "overlay_"+id+".json")
	if err := os.WriteFile(of, oj, 0644); err != nil {
		return "", err
	}
	out := filepath.Join(d.scratch, "bin_"+id)
	// a copy of the module files per build: concurrent go commands must not share one
	md := filepath.Join(d.scratch, "mod_"+id)
	os.MkdirAll(md, 0755)
	for _, f := range []string{"go.mod", "go.sum"} {
		b, _ := os.ReadFile(filepath.Join(d.repo, f))
		os.WriteFile(filepath.Join(md, f), b, 0644)
	}
	args := []string{"test", "-c", "-vet=off", "-o", out, "-overlay", of, "-modfile", filepath.Join(md, "go.mod")}
	env := append(goEnv(), "GOFLAGS=-mod=mod")
	if race {
		args = append(args, "-race")
		env = append(env, "CGO_ENABLED=1")
	}
	args = append(args, "./"+pkg)
	cmd := exec.Command("go", args...)
	cmd.Dir = d.repo
	cmd.Env = env
	b, err := cmd.CombinedOutput()
	if err != nil {
		return "", fmt.Errorf("native build: %v: %s", err, tail(string(b), 2000))
	}
	return out, nil
}

// faultyOS replaces package os by one whose files can be made to fail, if a harness asks for that.
func (d *Driver) faultyOS(id string, ov map[string]string) error {
	uses, fault := false, ""
	for k, v := range d.overlay {
		b, _ := os.ReadFile(v)
		if strings.HasSuffix(v, "/zzsym/fault.go") {
			fault = k
		} else if bytes.Contains(b, []byte("sym.FailIO(")) {
			uses = true
		}
	}
	if !uses || fault == "" {
		return nil
	}
	root, err := exec.Command("go", "env", "GOROOT").Output()
	if err != nil {
		return err
	}
	src := filepath.Join(strings.TrimSpace(string(root)), "src/os/file.go")
	b, err := os.ReadFile(src)
	if err != nil {
		return err
	}
	t := string(b) + "\nvar ZZFault func(f *File, write bool) error\n"
	for op, write := range map[string]string{"Read": "false", "Write": "true"} {
		sig := "func (f *File) " + op + "(b []byte) (n int, err error) {\n\tif err := f.checkValid(\"" + strings.ToLower(op) + "\"); err != nil {\n\t\treturn 0, err\n\t}\n"
		if strings.Count(t, sig) != 1 {
			return fmt.Errorf("os.File.%s is not as expected", op)
		}
		t = strings.Replace(t, sig, sig+"\tif ZZFault != nil {\n\t\tif err := ZZFault(f, "+write+"); err != nil {\n\t\t\treturn 0, err\n\t\t}\n\t}\n", 1)
	}
	ov[src] = filepath.Join(d.scratch, "os_file_"+id+".go")
	ov[fault] = filepath.Join(d.scratch, "fault_"+id+".go")
	if err := os.WriteFile(ov[src], []byte(t), 0644); err != nil {
		return err
	}
	return os.WriteFile(ov[fault], []byte("package zzsym\n\nimport \"os\"\n\nfunc installFault(h func(f *os.File, write bool) error) { os.ZZFault = h }\n"), 0644)
}

var exitRe = regexp.MustCompile(`\bos\.Exit\(`)
var pkgRe = regexp.MustCompile(`(?m)^package\s+\w+`)

// replaceExit makes the repository's os.Exit calls end the running harness's RunMain instead of the
// process, in native runs.
func (d *Driver) replaceExit(id string, ov map[string]string) {
	n := 0
	filepath.WalkDir(d.repo, func(path string, e os.DirEntry, err error) error {
		if err != nil {
			return nil
		}
		if e.IsDir() {
			if strings.HasPrefix(e.Name(), ".") && path != d.repo {
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(path, ".go") || strings.HasSuffix(path, "_test.go") {
			return nil
		}
		if _, ok := ov[path]; ok {
			return nil
		}
		b, err := os.ReadFile(path)
		if err != nil || !exitRe.Match(b) {
			return nil
		}
		loc := pkgRe.FindIndex(b)
		if loc == nil {
			return nil
		}
		t := string(b[:loc[1]]) + "; import zzsymExit \"" + symPath + "\"" + exitRe.ReplaceAllString(string(b[loc[1]:]), "zzsymExit.Exit(") + "\nvar _ = os.Exit\n"
		n++
		f := filepath.Join(d.scratch, fmt.Sprintf("exit%d_%s_%s", n, id, filepath.Base(path)))
		if os.WriteFile(f, []byte(t), 0644) == nil {
			ov[path] = f
		}
		return nil
	})
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

type natOut struct {
	I           int
	Status, Msg string
	Obs         []string
	Stack       string
}

// runCases executes the harness natively on the cases; the process output is returned too.
func (n *Native) runCases(h *Harness, cases []map[string]uint64, race, capped bool, timeout time.Duration) (outs []natOut, text string, timedOut bool, err error) {
	b := n.bin(h.Pkg, race)
	<-b.done
	if b.err != nil {
		return nil, "", false, b.err
	}
	dir, err := os.MkdirTemp(n.d.scratch, "run")
	if err != nil {
		return nil, "", false, err
	}
	defer os.RemoveAll(dir)
	in := filepath.Join(dir, "in.json")
	out := filepath.Join(dir, "out.json")
	j, _ := json.Marshal(map[string]any{"Harness": h.Name, "Cases": cases})
	os.WriteFile(in, j, 0644)
	cmd := exec.Command(b.path, "-test.run=^TestZZVerif$", "-test.timeout=0")
	if capped {
		cmd = exec.Command("sh", "-c", "ulimit -v 16000000; exec \"$0\" \"$@\"", b.path, "-test.run=^TestZZVerif$", "-test.timeout=0")
	}
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), "ZZVERIF_IN="+in, "ZZVERIF_OUT="+out, "ZZVERIF_REPO="+n.d.repo, "TMPDIR="+dir, "VERIF_TIER="+n.d.tier, "GOMEMLIMIT=3GiB")
	if race {
		cmd.Env = append(cmd.Env, "ZZVERIF_PARALLEL=1")
	}
	var sb strings.Builder
	cmd.Stdout = &limited{&sb, 1 << 16}
	cmd.Stderr = cmd.Stdout
	if err := cmd.Start(); err != nil {
		return nil, "", false, err
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	select {
	case <-done:
	case <-time.After(timeout):
		cmd.Process.Kill()
		<-done
		timedOut = true
	}
	if os.Getenv("GOSYM_DEBUG") != "" {
		fmt.Fprintln(os.Stderr, sb.String())
	}
	ob, _ := os.ReadFile(out)
	dec := json.NewDecoder(strings.NewReader(string(ob)))
	for {
		var o natOut
		if dec.Decode(&o) != nil {
			break
		}
		outs = append(outs, o)
	}
	return outs, sb.String(), timedOut, nil
}

type limited struct {
	sb *strings.Builder
	n  int
}

func (l *limited) Write(p []byte) (int, error) {
	if l.sb.Len() < l.n {
		l.sb.Write(p)
	}
	return len(p), nil
}

func (n *Native) replay(h *Harness, v *Violation, race bool) (bool, string) {
	limit := 60 * time.Second
	if v.Hang {
		limit = 20 * time.Second
	}
	outs, text, to, err := n.runCases(h, []map[string]uint64{v.Asg}, false, v.Hang, limit)
	if err != nil {
		return false, err.Error()
	}
	if to {
		return v.Hang, fmt.Sprintf("no result within %s (hang)", limit)
	}
	if len(outs) == 0 {
		if strings.Contains(text, "fatal error:") || strings.Contains(text, "stack overflow") || strings.Contains(text, "unexpected fault address") || strings.Contains(text, "SIGSEGV") {
			i := strings.Index(text, "fatal error:")
			if i < 0 {
				i = 0
			}
			return true, "process died: " + strings.SplitN(text[i:], "\n", 2)[0]
		}
		return false, "no output: " + tail(text, 500)
	}
	o := outs[0]
	switch o.Status {
	case "violation":
		return true, "assertion failed: " + o.Msg
	case "panic":
		return true, "panic: " + o.Msg + panicPos(o.Stack)
	}
	if strings.HasPrefix(v.Msg, "write to shared") && race {
		_, text, _, err := n.runCases(h, []map[string]uint64{v.Asg}, true, false, 120*time.Second)
		if err == nil && strings.Contains(text, "WARNING: DATA RACE") {
			return true, "data race reported by the race detector: " + raceText(text)
		}
		if err != nil {
			return false, err.Error()
		}
	}
	return false, "native run: " + o.Status + " " + o.Msg
}

func raceText(s string) string {
	i := strings.Index(s, "WARNING: DATA RACE")
	var ls []string
	for _, l := range strings.Split(s[i:], "\n") {
		l = strings.TrimSpace(l)
		if strings.Contains(l, "gosudachi") && len(ls) < 4 {
			ls = append(ls, l)
		}
	}
	return strings.Join(ls, " / ")
}

func panicPos(st string) string {
	ls := strings.Split(st, "\n")
	for i, l := range ls {
		if strings.HasPrefix(l, "panic(") {
			for _, m := range ls[i+2:] {
				m = strings.TrimSpace(m)
				if strings.Contains(m, ".go:") && !strings.Contains(m, "/src/runtime/") {
					return " at " + strings.SplitN(m, " ", 2)[0]
				}
			}
		}
	}
	return ""
}

// validate runs sampled paths natively and compares the observations.
// A sampled path that violates the property natively is a violation too: the real code ran.
func (n *Native) validate(h *Harness, res *HarnessResult) (int, []string, []*Violation) {
	max := 60
	if n.d.tier == "thorough" {
		max = 400
	}
	ss := res.samples
	if len(ss) > max {
		step := float64(len(ss)) / float64(max)
		var keep []Sample
		for i := 0; i < max; i++ {
			keep = append(keep, ss[int(float64(i)*step)])
		}
		ss = keep
	}
	if len(ss) == 0 {
		return 0, nil, nil
	}
	var viol []*Violation
	var cases []map[string]uint64
	for _, s := range ss {
		cases = append(cases, s.Asg)
	}
	outs, text, to, err := n.runCases(h, cases, false, false, 120*time.Second)
	if err != nil {
		return 0, []string{err.Error()}, nil
	}
	var bad []string
	if to {
		bad = append(bad, "native validation timed out")
	}
	if len(outs) < len(cases) {
		bad = append(bad, fmt.Sprintf("only %d of %d native results: %s", len(outs), len(cases), tail(text, 600)))
	}
	okN := 0
	for _, o := range outs {
		if o.I < 0 || o.I >= len(ss) {
			bad = append(bad, o.Status)
			continue
		}
		s := ss[o.I]
		if o.Status == "violation" || o.Status == "panic" {
			v := &Violation{Harness: h.Name, Msg: o.Msg, Where: "native cross-check of a sampled path", Asg: s.Asg, Panic: o.Status == "panic"}
			if ok, how := n.replay(h, v, false); ok {
				v.Native = how
				viol = append(viol, v)
			}
		}
		if o.Status != "ok" {
			bad = append(bad, fmt.Sprintf("native %s %s%s for %s", o.Status, o.Msg, panicPos(o.Stack), asgText(s.Asg)))
			continue
		}
		a, b := strings.Join(s.Obs, "|"), strings.Join(o.Obs, "|")
		if a != b {
			bad = append(bad, fmt.Sprintf("symbolic %s / native %s for %s", a, b, asgText(s.Asg)))
			continue
		}
		okN++
	}
	return okN, bad, viol
}
