package main

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"sync/atomic"
	"time"
)

// SolverStats accumulates over all workers.
type SolverStats struct {
	Queries, Sat, Unsat, Unknown, CacheHits, ModelHits, DomainHits int64
	Nanos                                                          int64
	Restarts, Fallbacks                                            int64
	Errors                                                         int64
}

var stats SolverStats

var solverBin = "z3-new"
var solverTimeoutMs = 10000
var fallbackTimeoutS = 40

// Solver is one incremental z3 process.
type Solver struct {
	cmd  *exec.Cmd
	in   *bufio.Writer
	pipe io.WriteCloser
	out  *bufio.Reader
	gen  uint32
	nvar int
	ndef int
	tb   *TB
	log  io.Writer
}

func newSolver(tb *TB) *Solver {
	s := &Solver{tb: tb}
	if p := os.Getenv("GOSYM_SMTLOG"); p != "" {
		f, _ := os.Create(fmt.Sprintf("%s.%p", p, s))
		s.log = f
	}
	return s
}

func (s *Solver) start() error {
	s.stop()
	s.gen++
	s.nvar = 0
	s.ndef = 0
	s.cmd = exec.Command(solverBin, "-in", "-smt2")
	in, err := s.cmd.StdinPipe()
	if err != nil {
		return err
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		return err
	}
	s.cmd.Stderr = nil
	if err := s.cmd.Start(); err != nil {
		return err
	}
	s.pipe = in
	s.in = bufio.NewWriterSize(in, 1<<16)
	s.out = bufio.NewReaderSize(out, 1<<16)
	fmt.Fprintf(s.in, "(set-option :print-success false)\n(set-option :produce-models true)\n(set-logic QF_BV)\n(set-option :timeout %d)\n", solverTimeoutMs)
	return nil
}

func (s *Solver) stop() {
	if s.cmd != nil {
		s.pipe.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func (s *Solver) declareVars(w io.Writer, from int) int {
	for from < len(s.tb.vars) {
		v := s.tb.vars[from]
		fmt.Fprintf(w, "(declare-const v%d %s)\n", from, sortName(v.w))
		from++
	}
	return from
}

// ranges asserts the restrictions of the variables.
func (s *Solver) ranges(sb *strings.Builder, vars []int32) {
	for _, i := range vars {
		v := s.tb.vars[i]
		if !v.restricted() {
			continue
		}
		if v.lo > 0 {
			fmt.Fprintf(sb, "(assert (bvule (_ bv%d %d) v%d))\n", v.lo, v.w, i)
		}
		if v.hi < mask(v.w) {
			fmt.Fprintf(sb, "(assert (bvule v%d (_ bv%d %d)))\n", i, v.hi, v.w)
		}
	}
}

// define emits definitions for t and its children (iteratively).
func (s *Solver) define(sb *strings.Builder, t *Term, done func(*Term) bool, mark func(*Term)) {
	if t.op == OConst || t.op == OVar || done(t) {
		return
	}
	type item struct {
		t    *Term
		next int
	}
	st := []item{{t, 0}}
	for len(st) > 0 {
		it := &st[len(st)-1]
		var ch *Term
		for it.next < 3 && ch == nil {
			switch it.next {
			case 0:
				ch = it.t.a
			case 1:
				ch = it.t.b
			case 2:
				ch = it.t.c
			}
			it.next++
			if ch != nil && (ch.op == OConst || ch.op == OVar || done(ch)) {
				ch = nil
			}
		}
		if ch != nil {
			st = append(st, item{ch, 0})
			continue
		}
		x := it.t
		st = st[:len(st)-1]
		if done(x) {
			continue
		}
		mark(x)
		fmt.Fprintf(sb, "(define-fun t%d () %s ", x.id, sortName(x.w))
		x.body(sb)
		sb.WriteString(")\n")
	}
}

type satResult int

const (
	resUnsat satResult = iota
	resSat
	resUnknown
)

func (s *Solver) readLine() (string, error) {
	l, err := s.out.ReadString('\n')
	return strings.TrimSpace(l), err
}

// check decides the conjunction of cs. On sat, values for vars are returned.
func (s *Solver) check(cs []*Term, vars []int32) (satResult, []uint64) {
	t0 := time.Now()
	defer func() { atomic.AddInt64(&stats.Nanos, int64(time.Since(t0))) }()
	atomic.AddInt64(&stats.Queries, 1)
	r, vals := s.check1(cs, vars)
	if r == resUnknown {
		atomic.AddInt64(&stats.Fallbacks, 1)
		r, vals = s.fallback(cs, vars)
	}
	switch r {
	case resSat:
		atomic.AddInt64(&stats.Sat, 1)
	case resUnsat:
		atomic.AddInt64(&stats.Unsat, 1)
	default:
		atomic.AddInt64(&stats.Unknown, 1)
	}
	return r, vals
}

func (s *Solver) check1(cs []*Term, vars []int32) (satResult, []uint64) {
	if s.cmd == nil || s.ndef > 300000 {
		atomic.AddInt64(&stats.Restarts, 1)
		if err := s.start(); err != nil {
			return resUnknown, nil
		}
	}
	var sb strings.Builder
	s.nvar = s.declareVars(&sb, s.nvar)
	gen := s.gen
	for _, c := range cs {
		s.define(&sb, c, func(t *Term) bool { return t.defined == gen }, func(t *Term) { t.defined = gen; s.ndef++ })
	}
	sb.WriteString("(push 1)\n")
	s.ranges(&sb, vars)
	for _, c := range cs {
		sb.WriteString("(assert ")
		sb.WriteString(c.ref())
		sb.WriteString(")\n")
	}
	sb.WriteString("(check-sat)\n")
	if s.log != nil {
		io.WriteString(s.log, sb.String())
	}
	s.in.WriteString(sb.String())
	if s.in.Flush() != nil {
		s.stop()
		return resUnknown, nil
	}
	kill := time.AfterFunc(time.Duration(solverTimeoutMs)*time.Millisecond*2+5*time.Second, func() {
		if c := s.cmd; c != nil {
			c.Process.Kill()
		}
	})
	defer kill.Stop()
	l, err := s.readLine()
	if err != nil {
		s.stop()
		return resUnknown, nil
	}
	switch l {
	case "sat":
		vals, err := s.getValues(vars)
		s.in.WriteString("(pop 1)\n")
		if err != nil {
			atomic.AddInt64(&stats.Errors, 1)
			s.stop()
			return resUnknown, nil
		}
		return resSat, vals
	case "unsat":
		s.in.WriteString("(pop 1)\n")
		return resUnsat, nil
	case "unknown":
		s.in.WriteString("(pop 1)\n")
		return resUnknown, nil
	}
	if os.Getenv("GOSYM_DEBUG") != "" {
		fmt.Fprintln(os.Stderr, "solver said:", l)
	}
	atomic.AddInt64(&stats.Errors, 1)
	s.stop()
	return resUnknown, nil
}

func (s *Solver) getValues(vars []int32) ([]uint64, error) {
	vals := make([]uint64, len(vars))
	if len(vars) == 0 {
		return vals, nil
	}
	s.in.WriteString("(get-value (")
	for _, v := range vars {
		fmt.Fprintf(s.in, "v%d ", v)
	}
	s.in.WriteString("))\n")
	if err := s.in.Flush(); err != nil {
		return nil, err
	}
	return parseValues(s.out, len(vars))
}

func parseValues(r *bufio.Reader, n int) ([]uint64, error) {
	vals := make([]uint64, 0, n)
	depth := 0
	started := false
	var sb strings.Builder
	for !started || depth > 0 {
		c, err := r.ReadByte()
		if err != nil {
			return nil, err
		}
		sb.WriteByte(c)
		if c == '(' {
			depth++
			started = true
		} else if c == ')' {
			depth--
		}
	}
	// consume rest of the line
	r.ReadString('\n')
	toks := strings.Fields(strings.NewReplacer("(", " ( ", ")", " ) ").Replace(sb.String()))
	// ( ( v1 #x00 ) ( v2 true ) )
	i := 1
	for i < len(toks) && toks[i] == "(" {
		if i+3 >= len(toks) {
			return nil, fmt.Errorf("bad model")
		}
		v := toks[i+2]
		switch {
		case v == "true":
			vals = append(vals, 1)
		case v == "false":
			vals = append(vals, 0)
		case strings.HasPrefix(v, "#x"):
			x, err := strconv.ParseUint(v[2:], 16, 64)
			if err != nil {
				return nil, err
			}
			vals = append(vals, x)
		case strings.HasPrefix(v, "#b"):
			x, err := strconv.ParseUint(v[2:], 2, 64)
			if err != nil {
				return nil, err
			}
			vals = append(vals, x)
		default:
			return nil, fmt.Errorf("bad value %q in %q", v, sb.String())
		}
		i += 4
	}
	if len(vals) != n {
		return nil, fmt.Errorf("model size")
	}
	return vals, nil
}

// fallback runs a one-shot non-incremental query on other solvers.
func (s *Solver) fallback(cs []*Term, vars []int32) (satResult, []uint64) {
	var sb strings.Builder
	sb.WriteString("(set-option :produce-models true)\n(set-logic QF_BV)\n")
	s.declareVars(&sb, 0)
	s.ranges(&sb, vars)
	seen := map[*Term]bool{}
	for _, c := range cs {
		s.define(&sb, c, func(t *Term) bool { return seen[t] }, func(t *Term) { seen[t] = true })
		sb.WriteString("(assert " + c.ref() + ")\n")
	}
	sb.WriteString("(check-sat)\n")
	if len(vars) > 0 {
		sb.WriteString("(get-value (")
		for _, v := range vars {
			fmt.Fprintf(&sb, "v%d ", v)
		}
		sb.WriteString("))\n")
	}
	for _, c := range [][]string{
		{"z3-new", "-in", "-smt2", fmt.Sprintf("-T:%d", fallbackTimeoutS)},
		{"cvc5", "--lang=smt2", fmt.Sprintf("--tlimit=%d", fallbackTimeoutS*1000)},
	} {
		cmd := exec.Command(c[0], c[1:]...)
		cmd.Stdin = strings.NewReader(sb.String())
		out, _ := cmd.Output()
		txt := string(out)
		if strings.HasPrefix(txt, "unsat") {
			return resUnsat, nil
		}
		if strings.HasPrefix(txt, "sat\n") {
			if len(vars) == 0 {
				return resSat, nil
			}
			vals, err := parseValues(bufio.NewReader(strings.NewReader(txt[4:])), len(vars))
			if err == nil {
				return resSat, vals
			}
		}
	}
	return resUnknown, nil
}
