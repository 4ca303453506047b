package main

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"sort"
	"strings"
	"time"
)

type Result int

const (
	Unsat Result = iota
	Sat
	Unknown
)

func (r Result) String() string { return []string{"unsat", "sat", "unknown"}[r] }

// Solver drives one SMT process over pipes; declarations live at level 0, queries inside push/pop.
type Solver struct {
	ctx      *Ctx
	bin      string
	cmd      *exec.Cmd
	in       *bufio.Writer
	inc      io.WriteCloser
	out      *bufio.Reader
	defined  map[int]bool
	declared map[string]bool
	axioms   map[string]bool
	cache    map[string]Result
	Queries  int
	CacheHit int
	Time     time.Duration
	MaxQ     time.Duration
	timeout  int // ms
	dump     io.Writer
	fallback int
	lits     []*Term
}

func solverCmd(bin string, timeout int) *exec.Cmd {
	switch {
	case strings.Contains(bin, "cvc5"):
		return exec.Command(bin, "--lang=smt2", "--incremental", fmt.Sprintf("--tlimit-per=%d", timeout))
	default:
		return exec.Command(bin, "-in", "-smt2", fmt.Sprintf("-t:%d", timeout))
	}
}

func NewSolver(ctx *Ctx, bin string, timeoutMs int) *Solver {
	s := &Solver{ctx: ctx, bin: bin, timeout: timeoutMs, cache: map[string]Result{}}
	if f := os.Getenv("VERIF_SMT_DUMP"); f != "" {
		w, _ := os.OpenFile(f, os.O_CREATE|os.O_APPEND|os.O_WRONLY, 0o644)
		s.dump = w
	}
	s.start()
	return s
}
func (s *Solver) start() {
	s.cmd = solverCmd(s.bin, s.timeout)
	in, err := s.cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	s.cmd.Stderr = os.Stderr
	if err := s.cmd.Start(); err != nil {
		panic(err)
	}
	s.in, s.inc, s.out = bufio.NewWriterSize(in, 1<<16), in, bufio.NewReaderSize(out, 1<<16)
	s.defined, s.declared, s.axioms = map[int]bool{}, map[string]bool{}, map[string]bool{}
	s.lits = nil
	s.send("(set-option :print-success false)")
	s.send("(set-option :produce-models true)")
	s.send("(set-logic ALL)")
	for _, n := range []string{"Str", "RV", "RT", "Iface", "Seq", "Map"} {
		s.send("(declare-sort U" + n + " 0)")
	}
}
func (s *Solver) Close() {
	if s.cmd != nil {
		s.inc.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}
func (s *Solver) send(l string) {
	s.in.WriteString(l)
	s.in.WriteByte('\n')
	if s.dump != nil {
		fmt.Fprintln(s.dump, l)
	}
}
func (s *Solver) declare(name string, args []*Sort, res *Sort) {
	if s.declared[name] {
		return
	}
	s.declared[name] = true
	var as []string
	for _, a := range args {
		as = append(as, a.smt())
	}
	s.send(fmt.Sprintf("(declare-fun %s (%s) %s)", sym(name), strings.Join(as, " "), res.smt()))
}
func (s *Solver) define(t *Term) {
	if s.defined[t.id] {
		return
	}
	s.defined[t.id] = true
	for _, a := range t.args {
		s.define(a)
	}
	switch t.op {
	case OVar:
		s.declare(t.name, nil, t.sort)
		if isStrLit(t) { // literals are pairwise distinct
			for _, o := range s.lits {
				s.send(fmt.Sprintf("(assert (not (= %s %s)))", sym(o.name), sym(t.name)))
			}
			s.lits = append(s.lits, t)
		}
		return
	case OConst:
		return
	case OApp:
		if !strings.HasPrefix(t.name, "@") {
			f := s.ctx.funs[t.name]
			s.declare(t.name, f.args, f.res)
		}
	}
	s.send(fmt.Sprintf("(define-fun t!%d () %s %s)", t.id, t.sort.smt(), t.expr(ref)))
}
func ref(t *Term) string {
	switch t.op {
	case OVar, OConst:
		return t.expr(nil)
	}
	return fmt.Sprintf("t!%d", t.id)
}
func (s *Solver) readLine() (string, error) {
	l, err := s.out.ReadString('\n')
	return strings.TrimSpace(l), err
}

// relevant slices assertions to those sharing symbols (transitively) with the last one.
func relevant(as []*Term, goal *Term) []*Term {
	if goal == nil {
		return as
	}
	need := map[string]bool{}
	for k := range goal.symset() {
		need[k] = true
	}
	used := make([]bool, len(as))
	for ch := true; ch; {
		ch = false
		for i, a := range as {
			if used[i] {
				continue
			}
			ss := a.symset()
			hit := len(ss) == 0
			for k := range ss {
				if need[k] {
					hit = true
					break
				}
			}
			if hit {
				used[i] = true
				ch = true
				for k := range ss {
					need[k] = true
				}
			}
		}
	}
	var out []*Term
	for i, a := range as {
		if used[i] {
			out = append(out, a)
		}
	}
	return out
}

// Check decides satisfiability of the conjunction.
func (s *Solver) Check(as []*Term) Result {
	r, _ := s.check(as, nil)
	return r
}

func (s *Solver) check(as []*Term, want []*Term) (Result, map[*Term]string) {
	set := map[int]bool{}
	var ts []*Term
	for _, a := range as {
		if a == s.ctx.F {
			return Unsat, nil
		}
		if a == s.ctx.T || set[a.id] {
			continue
		}
		set[a.id] = true
		ts = append(ts, a)
	}
	if len(ts) == 0 && want == nil {
		return Sat, nil
	}
	ids := make([]int, 0, len(ts))
	for _, t := range ts {
		ids = append(ids, t.id)
	}
	sort.Ints(ids)
	key := fmt.Sprint(ids)
	if want == nil {
		if r, ok := s.cache[key]; ok {
			s.CacheHit++
			return r, nil
		}
	}
	r, m := s.query(ts, want)
	if r == Unknown {
		// fresh process with the query alone, then the other solver
		s.fallback++
		for _, bin := range fallbackBins(s.bin) {
			o := &Solver{ctx: s.ctx, bin: bin, timeout: s.timeout, cache: map[string]Result{}}
			o.start()
			r, m = o.query(ts, want)
			s.Queries += o.Queries
			s.Time += o.Time
			o.Close()
			if r != Unknown {
				break
			}
		}
	}
	s.cache[key] = r
	return r, m
}
func fallbackBins(b string) []string {
	var out []string
	for _, c := range []string{"z3-new", "cvc5", "z3"} {
		if _, err := exec.LookPath(c); err == nil {
			out = append(out, c)
		}
	}
	return out
}

func (s *Solver) query(ts []*Term, want []*Term) (Result, map[*Term]string) {
	t0 := time.Now()
	s.Queries++
	defer func() {
		d := time.Since(t0)
		s.Time += d
		if d > 3*time.Second && os.Getenv("VERIF_SLOW") != "" {
			f, _ := os.CreateTemp("", "slow*.txt")
			fmt.Fprintln(f, d)
			for _, t := range ts {
				fmt.Fprintln(f, t.String())
			}
			f.Close()
		}
		if d > s.MaxQ {
			s.MaxQ = d
		}
	}()
	for _, t := range ts {
		s.define(t)
	}
	for _, t := range want {
		s.define(t)
	}
	s.send("(push 1)")
	for _, t := range ts {
		s.send("(assert " + ref(t) + ")")
	}
	s.send("(check-sat)")
	s.in.Flush()
	l, err := s.readLine()
	for err == nil && l == "" {
		l, err = s.readLine()
	}
	if err != nil || strings.HasPrefix(l, "(error") {
		if strings.HasPrefix(l, "(error") && strings.Contains(os.Getenv("VERIF_DEBUG"), "smt") {
			fmt.Fprintln(os.Stderr, "SMT:", l)
		}
		s.Close()
		s.start()
		return Unknown, nil
	}
	var r Result
	switch l {
	case "sat":
		r = Sat
	case "unsat":
		r = Unsat
	default:
		r = Unknown
	}
	var m map[*Term]string
	if r == Sat && want != nil {
		m = map[*Term]string{}
		for _, t := range want {
			s.send("(get-value (" + ref(t) + "))")
			s.in.Flush()
			m[t] = s.readSexp()
		}
	}
	s.send("(pop 1)")
	s.in.Flush()
	return r, m
}

// readSexp reads one balanced s-expression ((term value)) and returns the value text.
func (s *Solver) readSexp() string {
	var b strings.Builder
	depth := 0
	bar := false
	for {
		c, err := s.out.ReadByte()
		if err != nil {
			return ""
		}
		if depth == 0 && (c == '\n' || c == ' ') {
			continue
		}
		b.WriteByte(c)
		if c == '|' {
			bar = !bar
		}
		if bar {
			continue
		}
		if c == '(' {
			depth++
		}
		if c == ')' {
			depth--
			if depth == 0 {
				break
			}
		}
	}
	t := strings.TrimSpace(b.String())
	t = strings.TrimSuffix(strings.TrimPrefix(t, "(("), "))")
	// value is the last token or parenthesised group
	t = strings.TrimSpace(t)
	if strings.HasSuffix(t, ")") {
		d := 0
		for i := len(t) - 1; i >= 0; i-- {
			if t[i] == ')' {
				d++
			}
			if t[i] == '(' {
				d--
				if d == 0 {
					return t[i:]
				}
			}
		}
	}
	if i := strings.LastIndexAny(t, " \n"); i >= 0 {
		return t[i+1:]
	}
	return t
}
