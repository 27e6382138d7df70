package main

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"sync/atomic"
	"time"
)

// Queries made of sums and comparisons that cannot overflow are decided over the integers, which
// solvers do much faster than over bit vectors. A bit-vector term is represented by its value read
// as a signed number; liaOK checks that every operation is exact in that reading.

const (
	liaUnknown = iota
	liaYes
	liaNo
)

func (tb *TB) liaOK(t *Term) bool {
	if t.lia != liaUnknown {
		return t.lia == liaYes
	}
	ok := false
	half := uint64(1) << (t.w - 1)
	fits := func() bool { // the exact result is within the width
		l1, h1 := tb.srange(t.a)
		l2, h2 := int64(0), int64(0)
		if t.b != nil {
			l2, h2 = tb.srange(t.b)
		}
		const big = int64(1) << 61
		if l1 < -big || h1 > big || l2 < -big || h2 > big {
			return false
		}
		var l, h int64
		switch t.op {
		case OAdd:
			l, h = l1+l2, h1+h2
		case OSub:
			l, h = l1-h2, h1-l2
		case ONeg:
			l, h = -h1, -l1
		}
		return l >= -int64(half) && h <= int64(half-1)
	}
	all := func() bool {
		for _, c := range [...]*Term{t.a, t.b, t.c} {
			if c != nil && !tb.liaOK(c) {
				return false
			}
		}
		return true
	}
	switch t.op {
	case OConst, OVar:
		ok = true
	case ONot, OAnd, OOr, OIte, OEq, OSlt, OSle, OSext:
		ok = all()
	case OUlt, OUle:
		if all() {
			l1, _ := tb.srange(t.a)
			l2, _ := tb.srange(t.b)
			ok = l1 >= 0 && l2 >= 0
		}
	case OZext:
		if all() {
			l, _ := tb.srange(t.a)
			ok = l >= 0
		}
	case OAdd, OSub, ONeg:
		ok = all() && fits()
	case OExtract:
		if uint8(t.k) == 0 && all() {
			l, h := tb.srange(t.a)
			ok = l >= -int64(half) && h <= int64(half-1)
		}
	}
	t.lia = liaNo
	if ok {
		t.lia = liaYes
	}
	return ok
}

// sums reports whether a query contains additions, so that it is worth leaving bit vectors.
func sums(t *Term, d int) bool {
	if t == nil || d == 0 || len(t.vars) < 2 {
		return false
	}
	if t.op == OAdd || t.op == OSub {
		return true
	}
	return sums(t.a, d-1) || sums(t.b, d-1) || sums(t.c, d-1)
}

func (tb *TB) useLIA(cs []*Term) bool {
	any := false
	for _, c := range cs {
		if !any && sums(c, 5) {
			any = true
		}
	}
	if !any {
		return false
	}
	for _, c := range cs {
		if !tb.liaOK(c) {
			return false
		}
	}
	return true
}

func lnum(v int64) string {
	if v < 0 {
		return fmt.Sprintf("(- %d)", uint64(-v))
	}
	return strconv.FormatInt(v, 10)
}

func (t *Term) lref() string {
	switch t.op {
	case OConst:
		if t.w == 0 {
			return t.ref()
		}
		return lnum(sext64(t.k, t.w))
	case OVar:
		return fmt.Sprintf("v%d", t.vars[0])
	}
	return fmt.Sprintf("t%d", t.id)
}

var liaOps = map[Op]string{ONot: "not", OAnd: "and", OOr: "or", OIte: "ite", OEq: "=", OUlt: "<", OUle: "<=", OSlt: "<", OSle: "<=", OAdd: "+", OSub: "-", ONeg: "-"}

func (t *Term) lbody(sb *strings.Builder) {
	op := liaOps[t.op]
	if op == "" {
		sb.WriteString(t.a.lref())
		return
	}
	sb.WriteByte('(')
	sb.WriteString(op)
	for _, x := range []*Term{t.a, t.b, t.c} {
		if x != nil {
			sb.WriteByte(' ')
			sb.WriteString(x.lref())
		}
	}
	sb.WriteByte(')')
}

// LIA is one incremental solver process over the integers.
type LIA struct {
	tb   *TB
	cmd  *exec.Cmd
	pipe io.WriteCloser
	out  *bufio.Reader
	gen  uint32
	nvar int
}

func (s *LIA) stop() {
	if s.cmd != nil {
		s.pipe.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func (s *LIA) check(cs []*Term, vars []int32) (satResult, []uint64) {
	t0 := time.Now()
	defer func() { atomic.AddInt64(&stats.Nanos, int64(time.Since(t0))) }()
	if s.cmd == nil {
		s.gen++
		s.nvar = 0
		s.cmd = exec.Command(solverBin, "-in", "-smt2")
		in, err := s.cmd.StdinPipe()
		if err != nil {
			s.cmd = nil
			return resUnknown, nil
		}
		out, err := s.cmd.StdoutPipe()
		if err != nil || s.cmd.Start() != nil {
			s.cmd = nil
			return resUnknown, nil
		}
		s.pipe, s.out = in, bufio.NewReaderSize(out, 1<<16)
		fmt.Fprintf(in, "(set-option :print-success false)\n(set-option :produce-models true)\n(set-logic QF_LIA)\n(set-option :timeout %d)\n", solverTimeoutMs)
	}
	var sb strings.Builder
	for ; s.nvar < len(s.tb.vars); s.nvar++ {
		sort := "Int"
		if s.tb.vars[s.nvar].w == 0 {
			sort = "Bool"
		}
		fmt.Fprintf(&sb, "(declare-const v%d %s)\n", s.nvar, sort)
	}
	var define func(t *Term)
	define = func(t *Term) {
		if t.op == OConst || t.op == OVar || t.ldefined == s.gen {
			return
		}
		for _, c := range [...]*Term{t.a, t.b, t.c} {
			if c != nil {
				define(c)
			}
		}
		t.ldefined = s.gen
		sort := "Int"
		if t.w == 0 {
			sort = "Bool"
		}
		fmt.Fprintf(&sb, "(define-fun t%d () %s ", t.id, sort)
		t.lbody(&sb)
		sb.WriteString(")\n")
	}
	for _, c := range cs {
		define(c)
	}
	sb.WriteString("(push 1)\n")
	for _, i := range vars {
		v := s.tb.vars[i]
		if v.w == 0 {
			continue
		}
		half := uint64(1) << (v.w - 1)
		lo, hi := -int64(half), int64(half-1)
		if v.restricted() {
			if v.hi < half || v.lo >= half {
				lo, hi = sext64(v.lo, v.w), sext64(v.hi, v.w)
			} else { // lo..half-1 or -half..hi
				fmt.Fprintf(&sb, "(assert (or (>= v%d %s) (<= v%d %s)))\n", i, lnum(int64(v.lo)), i, lnum(sext64(v.hi, v.w)))
			}
		}
		fmt.Fprintf(&sb, "(assert (<= %s v%d %s))\n", lnum(lo), i, lnum(hi))
	}
	for _, c := range cs {
		sb.WriteString("(assert " + c.lref() + ")\n")
	}
	sb.WriteString("(check-sat)\n")
	if _, err := io.WriteString(s.pipe, sb.String()); err != nil {
		s.stop()
		return resUnknown, nil
	}
	kill := time.AfterFunc(time.Duration(solverTimeoutMs)*time.Millisecond*2+5*time.Second, func() {
		if c := s.cmd; c != nil {
			c.Process.Kill()
		}
	})
	defer kill.Stop()
	l, err := s.out.ReadString('\n')
	if err != nil {
		s.stop()
		return resUnknown, nil
	}
	switch strings.TrimSpace(l) {
	case "unsat":
		io.WriteString(s.pipe, "(pop 1)\n")
		atomic.AddInt64(&stats.Queries, 1)
		atomic.AddInt64(&stats.Unsat, 1)
		return resUnsat, nil
	case "sat":
		vals := make([]uint64, len(vars))
		if len(vars) > 0 {
			var q strings.Builder
			q.WriteString("(get-value (")
			for _, v := range vars {
				fmt.Fprintf(&q, "v%d ", v)
			}
			q.WriteString("))\n")
			io.WriteString(s.pipe, q.String())
			if !s.values(vals) {
				s.stop()
				return resUnknown, nil
			}
			for i, v := range vars {
				if w := s.tb.vars[v].w; w > 0 {
					vals[i] &= mask(w)
				}
			}
		}
		io.WriteString(s.pipe, "(pop 1)\n")
		atomic.AddInt64(&stats.Queries, 1)
		atomic.AddInt64(&stats.Sat, 1)
		return resSat, vals
	case "unknown":
		io.WriteString(s.pipe, "(pop 1)\n")
		return resUnknown, nil
	}
	if os.Getenv("GOSYM_DEBUG") != "" {
		fmt.Fprintln(os.Stderr, "lia solver said:", l)
	}
	s.stop()
	return resUnknown, nil
}

func (s *LIA) values(vals []uint64) bool {
	depth, started := 0, false
	var sb strings.Builder
	for !started || depth > 0 {
		c, err := s.out.ReadByte()
		if err != nil {
			return false
		}
		if c == '(' {
			depth++
			started = true
		} else if c == ')' {
			depth--
		}
		sb.WriteByte(c)
	}
	s.out.ReadString('\n')
	toks := strings.Fields(strings.NewReplacer("(", " ", ")", " ").Replace(sb.String()))
	// v1 5 v2 - 7 v3 true
	n := 0
	for i := 0; i < len(toks); {
		if toks[i][0] != 'v' || n >= len(vals) || i+1 >= len(toks) {
			return false
		}
		i++
		neg := false
		if toks[i] == "-" {
			neg = true
			i++
		}
		switch toks[i] {
		case "true":
			vals[n] = 1
		case "false":
			vals[n] = 0
		default:
			x, err := strconv.ParseUint(toks[i], 10, 64)
			if err != nil {
				return false
			}
			if neg {
				x = -x
			}
			vals[n] = x
		}
		n++
		i++
	}
	return n == len(vals)
}
