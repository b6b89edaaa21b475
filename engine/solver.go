package main

import (
	"bufio"
	"encoding/binary"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"time"
)

type smt struct{}

func sortStr(w uint8) string {
	if w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

func (s *smt) inline(t *Term) string {
	switch t.op {
	case OConst:
		return constStr(t)
	case OVar:
		return varName(t)
	case OExtract:
		return fmt.Sprintf("((_ extract %d %d) %s)", t.hi, t.lo, s.inline(t.a))
	case OZext:
		return fmt.Sprintf("((_ zero_extend %d) %s)", t.w-t.a.w, s.inline(t.a))
	case OSext:
		return fmt.Sprintf("((_ sign_extend %d) %s)", t.w-t.a.w, s.inline(t.a))
	}
	r := "(" + opNames[t.op] + " " + s.inline(t.a)
	if t.b != nil {
		r += " " + s.inline(t.b)
	}
	if t.c != nil {
		r += " " + s.inline(t.c)
	}
	return r + ")"
}

func varName(t *Term) string { return fmt.Sprintf("v%d_%d", t.val, t.w) }

func constStr(t *Term) string {
	if t.w == 0 {
		if t.val != 0 {
			return "true"
		}
		return "false"
	}
	if t.w%4 == 0 {
		return fmt.Sprintf("#x%0*x", int(t.w/4), t.val)
	}
	return fmt.Sprintf("#b%0*b", int(t.w), t.val)
}

type Sat int

const (
	Unsat Sat = iota
	SatR
	Unknown
)

type SolverStats struct {
	Queries, SatN, UnsatN, UnknownN int
	Retried                         int // decided by a fresh solver after a timeout
	Time                            time.Duration
	CacheHits                       int
}

// Solver is one incremental solver process with an assertion stack.
type Solver struct {
	bin     string
	args    []string
	cmd     *exec.Cmd
	in      *bufio.Writer
	inc     io.WriteCloser
	out     *bufio.Reader
	defined map[int32]bool
	vars    []*Term
	cache   map[string]cacheEnt
	Stats   SolverStats
	timeout int
	giveUps int // queries that no solver decided
	oneshot bool
	logf    io.Writer
	widths  *[]uint8 // width of each variable index on the current path
}

func newSolver(bin string, timeoutMS int) *Solver {
	s := &Solver{bin: bin, timeout: timeoutMS}
	switch {
	case strings.Contains(bin, "cvc5"):
		s.args = []string{"--incremental", "--lang=smt2", fmt.Sprintf("--tlimit-per=%d", timeoutMS)}
	default:
		s.args = []string{"-in", "-smt2"}
	}
	return s
}

func (s *Solver) start() error {
	s.cmd = exec.Command(s.bin, s.args...)
	in, err := s.cmd.StdinPipe()
	if err != nil {
		return err
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		return err
	}
	s.cmd.Stderr = os.Stderr
	if err := s.cmd.Start(); err != nil {
		return err
	}
	s.inc = in
	s.in = bufio.NewWriterSize(in, 1<<16)
	s.out = bufio.NewReaderSize(out, 1<<16)
	s.defined = make(map[int32]bool)
	s.vars = nil
	s.send("(set-option :global-declarations true)")
	if strings.Contains(s.bin, "z3") {
		s.send(fmt.Sprintf("(set-option :timeout %d)", s.limit()))
	} else {
		s.send("(set-option :produce-models true)")
	}
	s.send("(set-logic QF_BV)")
	return nil
}

func (s *Solver) stop() {
	if s.cmd != nil {
		s.inc.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func (s *Solver) send(l string) {
	if s.logf != nil {
		fmt.Fprintln(s.logf, l)
	}
	s.in.WriteString(l)
	s.in.WriteByte('\n')
}

func (s *Solver) ref(t *Term) string {
	switch t.op {
	case OConst:
		return constStr(t)
	case OVar:
		if !s.defined[t.id] {
			s.defined[t.id] = true
			s.vars = append(s.vars, t)
			s.send("(declare-const " + varName(t) + " " + sortStr(t.w) + ")")
		}
		return varName(t)
	}
	n := "t" + strconv.Itoa(int(t.id))
	if s.defined[t.id] {
		return n
	}
	// iterative definition to avoid deep recursion is unnecessary at our sizes
	a := s.ref(t.a)
	var body string
	switch t.op {
	case OExtract:
		body = fmt.Sprintf("((_ extract %d %d) %s)", t.hi, t.lo, a)
	case OZext:
		body = fmt.Sprintf("((_ zero_extend %d) %s)", t.w-t.a.w, a)
	case OSext:
		body = fmt.Sprintf("((_ sign_extend %d) %s)", t.w-t.a.w, a)
	default:
		body = "(" + opNames[t.op] + " " + a
		if t.b != nil {
			body += " " + s.ref(t.b)
		}
		if t.c != nil {
			body += " " + s.ref(t.c)
		}
		body += ")"
	}
	s.defined[t.id] = true
	s.send("(define-fun " + n + " () " + sortStr(t.w) + " " + body + ")")
	return n
}

func (s *Solver) readLine() (string, error) {
	l, err := s.out.ReadString('\n')
	if err != nil {
		return "", err
	}
	return strings.TrimSpace(l), nil
}

// slice returns the conjuncts of pc that share variables, directly or
// through other conjuncts, with extra.  pc is satisfiable, so the rest of it
// is independent and cannot change the answer.
func slicePC(pc []*Term, extra *Term) ([]*Term, []uint64) {
	need := extra.vars()
	in := make([]bool, len(pc))
	n := 0
	for changed := true; changed; {
		changed = false
		for i := len(pc) - 1; i >= 0; i-- {
			if in[i] || pc[i] == nil {
				continue
			}
			v := pc[i].vars()
			if meets(v, need) {
				in[i] = true
				n++
				u := union(need, v)
				if len(u) != len(need) || &u[0] != &need[0] {
					need = u
					changed = true
				}
			}
		}
	}
	r := make([]*Term, 0, n)
	for i, c := range pc {
		if in[i] {
			r = append(r, c)
		}
	}
	return r, need
}

type cacheEnt struct {
	r    Sat
	idx  []int
	vals []uint64
}

// check decides pc /\ extra, where base satisfies pc.  On sat, returns a model.
func (s *Solver) check(pc []*Term, extra *Term, base Model, nvars int) (Sat, Model) {
	rel, vs := slicePC(pc, extra)
	key := make([]byte, 0, 4*len(rel)+4)
	for _, c := range rel {
		key = binary.LittleEndian.AppendUint32(key, uint32(c.id))
	}
	key = binary.LittleEndian.AppendUint32(key, uint32(extra.id))
	if s.cache == nil {
		s.cache = map[string]cacheEnt{}
	}
	if e, ok := s.cache[string(key)]; ok {
		s.Stats.CacheHits++
		return e.r, e.model(base, nvars)
	}
	if s.cmd != nil && len(s.defined) > 20000 {
		s.stop()
	}
	if s.cmd == nil {
		if err := s.start(); err != nil {
			fmt.Fprintln(os.Stderr, "solver start:", err)
			return Unknown, nil
		}
	}
	t0 := time.Now()
	s.Stats.Queries++
	for _, c := range rel {
		s.ref(c)
	}
	s.ref(extra)
	s.send("(push 1)")
	for _, c := range rel {
		s.send("(assert " + s.ref(c) + ")")
	}
	s.send("(assert " + s.ref(extra) + ")")
	s.send("(check-sat)")
	var vars []*Term
	for _, v := range s.vars {
		if i := int(v.val / 64); i < len(vs) && vs[i]&(1<<(v.val%64)) != 0 && s.current(int(v.val), strconv.Itoa(int(v.w))) {
			vars = append(vars, v)
		}
	}
	e := s.result(vars)
	if s.cmd != nil {
		s.send("(pop 1)")
	}
	if e.r == Unknown && s.giveUps < 3 {
		e = s.oneShot(rel, extra, vars)
		if e.r == Unknown {
			s.giveUps++
		} else {
			s.Stats.Retried++
		}
	}
	s.Stats.Time += time.Since(t0)
	switch e.r {
	case SatR:
		s.Stats.SatN++
	case Unsat:
		s.Stats.UnsatN++
	default:
		s.Stats.UnknownN++
	}
	if e.r != Unknown {
		s.cache[string(key)] = e
	}
	return e.r, e.model(base, nvars)
}

// oneShot decides a query the incremental solver gave up on: outside of an
// assertion stack a solver may preprocess the whole formula.
func (s *Solver) oneShot(rel []*Term, extra *Term, vars []*Term) (e cacheEnt) {
	for _, bin := range []string{s.bin, "/usr/bin/cvc5"} {
		f := newSolver(bin, s.timeout)
		f.oneshot = true
		if strings.Contains(bin, "cvc5") {
			f.args = f.args[1:]
		}
		if f.start() != nil {
			continue
		}
		for _, c := range rel {
			f.send("(assert " + f.ref(c) + ")")
		}
		f.send("(assert " + f.ref(extra) + ")")
		for _, v := range vars {
			f.ref(v)
		}
		f.send("(check-sat)")
		e = f.result(vars)
		f.stop()
		if e.r != Unknown {
			return e
		}
	}
	return e
}

func (e *cacheEnt) model(base Model, nvars int) Model {
	if e.r != SatR {
		return nil
	}
	m := make(Model, nvars)
	copy(m, base)
	for i, k := range e.idx {
		m[k] = e.vals[i]
	}
	return m
}

func (s *Solver) result(vars []*Term) (e cacheEnt) {
	e.r = Unknown
	if err := s.in.Flush(); err != nil {
		s.stop()
		return
	}
	timer := time.AfterFunc(time.Duration(s.limit()+10000)*time.Millisecond, func() {
		if c := s.cmd; c != nil {
			c.Process.Kill()
		}
	})
	defer timer.Stop()
	l, err := s.readLine()
	if err != nil {
		s.stop()
		return
	}
	switch l {
	case "unsat":
		e.r = Unsat
		return
	case "sat":
	default:
		if strings.HasPrefix(l, "(error") {
			fmt.Fprintln(os.Stderr, "solver:", l)
			s.stop()
		}
		return
	}
	if len(vars) == 0 {
		e.r = SatR
		return
	}
	var sb strings.Builder
	sb.WriteString("(get-value (")
	for _, v := range vars {
		sb.WriteString(varName(v))
		sb.WriteByte(' ')
	}
	sb.WriteString("))")
	s.send(sb.String())
	s.in.Flush()
	// parse ((v0_8 #x00) ...)
	depth, started := 0, false
	var buf strings.Builder
	for !started || depth > 0 {
		l, err := s.readLine()
		if err != nil {
			s.stop()
			return
		}
		if strings.HasPrefix(l, "(error") {
			fmt.Fprintln(os.Stderr, "solver:", l)
			s.stop()
			return
		}
		for _, c := range l {
			if c == '(' {
				depth++
				started = true
			} else if c == ')' {
				depth--
			}
		}
		buf.WriteString(l)
		buf.WriteByte(' ')
	}
	for _, part := range strings.Split(buf.String(), "(") {
		f := strings.Fields(strings.ReplaceAll(part, ")", " "))
		if len(f) < 2 || !strings.HasPrefix(f[0], "v") {
			continue
		}
		nm := strings.SplitN(f[0][1:], "_", 2)
		idx, _ := strconv.Atoi(nm[0])
		w := nm[1]
		var v uint64
		switch {
		case f[1] == "true":
			v = 1
		case f[1] == "false":
			v = 0
		case strings.HasPrefix(f[1], "#x"):
			v, _ = strconv.ParseUint(f[1][2:], 16, 64)
		case strings.HasPrefix(f[1], "#b"):
			v, _ = strconv.ParseUint(f[1][2:], 2, 64)
		}
		_ = w
		e.idx = append(e.idx, idx)
		e.vals = append(e.vals, v)
	}
	e.r = SatR
	return
}

func (s *Solver) current(idx int, w string) bool {
	if s.widths == nil || idx >= len(*s.widths) {
		return true
	}
	return strconv.Itoa(int((*s.widths)[idx])) == w
}

// limit is the time for one query: less for the incremental solver, which is
// not the last to be asked.
func (s *Solver) limit() int {
	if s.oneshot {
		return s.timeout
	}
	return s.timeout * 2 / 5
}
