package main

import (
	"bufio"
	"fmt"
	"io"
	"os/exec"
	"sort"
	"strconv"
	"strings"
	"time"
)

// Result of a satisfiability query.
type Result int

const (
	Unsat Result = iota
	Sat
	Unknown
)

// Solver talks SMT-LIB2 to one solver process. Every term is sent once as a define-fun.
type Solver struct {
	cmd   *exec.Cmd
	in    *bufio.Writer
	inC   io.Closer
	out   *bufio.Reader
	st    *Store
	gen   int32
	cache map[string]cached
	// statistics
	Queries, CacheHits, SatN, UnsatN, UnknownN int
	Time                                       time.Duration
	errLog                                     string
	argv                                       []string
	timeoutMS                                  int
}

type cached struct {
	r Result
	m Model
}

func NewSolver(st *Store, argv []string, timeoutMS int) (*Solver, error) {
	s := &Solver{st: st, cache: map[string]cached{}, argv: argv, timeoutMS: timeoutMS}
	return s, s.start()
}

var solverGen int32

func (s *Solver) start() error {
	s.cmd = exec.Command(s.argv[0], s.argv[1:]...)
	w, err := s.cmd.StdinPipe()
	if err != nil {
		return err
	}
	r, err := s.cmd.StdoutPipe()
	if err != nil {
		return err
	}
	if err := s.cmd.Start(); err != nil {
		return err
	}
	s.in, s.inC, s.out = bufio.NewWriterSize(w, 1<<16), w, bufio.NewReaderSize(r, 1<<16)
	s.gen++
	fmt.Fprintf(s.in, "(set-option :print-success false)\n(set-option :produce-models true)\n")
	if strings.Contains(s.argv[0], "z3") {
		fmt.Fprintf(s.in, "(set-option :timeout %d)\n", s.timeoutMS)
	}
	fmt.Fprintf(s.in, "(set-logic QF_BV)\n")
	return nil
}

func (s *Solver) Close() {
	if s.cmd != nil {
		s.inC.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

// Rebind attaches the solver to a fresh store (restarting the process).
func (s *Solver) Rebind(st *Store) error {
	s.Close()
	s.st = st
	s.cache = map[string]cached{}
	return s.start()
}

func (s *Solver) ref(t *Term) string {
	switch {
	case t.op == OpConst:
		return constSMT(t.w, t.c)
	case t.op == OpVar:
		return varSMT(t)
	}
	return "t" + strconv.Itoa(int(t.id))
}

func (s *Solver) define(t *Term) {
	if t.def == s.gen || t.op == OpConst {
		return
	}
	// iterative post-order to be safe with deep terms
	type fr struct {
		t *Term
		i int
	}
	stack := []fr{{t, 0}}
	for len(stack) > 0 {
		f := &stack[len(stack)-1]
		if f.t.def == s.gen || f.t.op == OpConst {
			stack = stack[:len(stack)-1]
			continue
		}
		if f.i < len(f.t.args) {
			a := f.t.args[f.i]
			f.i++
			if a.def != s.gen && a.op != OpConst {
				stack = append(stack, fr{a, 0})
			}
			continue
		}
		x := f.t
		x.def = s.gen
		stack = stack[:len(stack)-1]
		if x.op == OpVar {
			fmt.Fprintf(s.in, "(declare-fun %s () %s)\n", varSMT(x), sortSMT(x.w))
			continue
		}
		s.in.WriteString("(define-fun t")
		s.in.WriteString(strconv.Itoa(int(x.id)))
		s.in.WriteString(" () ")
		s.in.WriteString(sortSMT(x.w))
		s.in.WriteByte(' ')
		switch x.op {
		case OpZExt:
			fmt.Fprintf(s.in, "((_ zero_extend %d) %s)", x.w-x.args[0].w, s.ref(x.args[0]))
		case OpSExt:
			fmt.Fprintf(s.in, "((_ sign_extend %d) %s)", x.w-x.args[0].w, s.ref(x.args[0]))
		case OpExtract:
			fmt.Fprintf(s.in, "((_ extract %d 0) %s)", x.w-1, s.ref(x.args[0]))
		default:
			s.in.WriteByte('(')
			s.in.WriteString(opSMT[x.op])
			for _, a := range x.args {
				s.in.WriteByte(' ')
				s.in.WriteString(s.ref(a))
			}
			s.in.WriteByte(')')
		}
		s.in.WriteString(")\n")
	}
}

// Check decides the conjunction of ts. On Sat the model assigns every variable of ts.
func (s *Solver) Check(ts []*Term) (Result, Model) {
	var live []*Term
	seen := map[int32]bool{}
	for _, t := range ts {
		if t.isFalse() {
			return Unsat, nil
		}
		if t.isTrue() || seen[t.id] {
			continue
		}
		seen[t.id] = true
		live = append(live, t)
	}
	if len(live) == 0 {
		return Sat, Model{}
	}
	sort.Slice(live, func(i, j int) bool { return live[i].id < live[j].id })
	var kb strings.Builder
	for _, t := range live {
		kb.WriteString(strconv.Itoa(int(t.id)))
		kb.WriteByte(',')
	}
	key := kb.String()
	if c, ok := s.cache[key]; ok {
		s.CacheHits++
		return c.r, c.m
	}
	t0 := time.Now()
	r, m := s.query(live)
	s.Time += time.Since(t0)
	s.Queries++
	switch r {
	case Sat:
		s.SatN++
	case Unsat:
		s.UnsatN++
	default:
		s.UnknownN++
	}
	s.cache[key] = cached{r, m}
	return r, m
}

func (s *Solver) query(live []*Term) (Result, Model) {
	if s.cmd == nil {
		if err := s.start(); err != nil {
			s.errLog = err.Error()
			return Unknown, nil
		}
	}
	for _, t := range live {
		s.define(t)
	}
	s.in.WriteString("(push 1)\n")
	vs := map[*Term]bool{}
	for _, t := range live {
		fmt.Fprintf(s.in, "(assert %s)\n", s.ref(t))
		for _, x := range t.vars {
			vs[x] = true
		}
	}
	s.in.WriteString("(check-sat)\n")
	if err := s.in.Flush(); err != nil {
		return s.died(err)
	}
	line, err := s.line()
	if err != nil {
		return s.died(err)
	}
	switch line {
	case "unsat":
		s.in.WriteString("(pop 1)\n")
		return Unsat, nil
	case "sat":
	default:
		s.errLog = line
		s.Close() // unknown, timeout or error: restart from a clean state
		return Unknown, nil
	}
	m := Model{}
	if len(vs) > 0 {
		var order []*Term
		for x := range vs {
			order = append(order, x)
		}
		sort.Slice(order, func(i, j int) bool { return order[i].id < order[j].id })
		s.in.WriteString("(get-value (")
		for _, x := range order {
			s.in.WriteString(varSMT(x))
			s.in.WriteByte(' ')
		}
		s.in.WriteString("))\n")
		if err := s.in.Flush(); err != nil {
			return s.died(err)
		}
		txt, err := s.sexpr()
		if err != nil {
			return s.died(err)
		}
		if err := parseModel(txt, m); err != nil {
			s.errLog = err.Error()
			s.Close()
			return Unknown, nil
		}
	}
	s.in.WriteString("(pop 1)\n")
	return Sat, m
}

func (s *Solver) died(err error) (Result, Model) {
	s.errLog = err.Error()
	s.Close()
	return Unknown, nil
}

func (s *Solver) line() (string, error) {
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			return "", err
		}
		l = strings.TrimSpace(l)
		if l != "" {
			return l, nil
		}
	}
}

func (s *Solver) sexpr() (string, error) {
	var sb strings.Builder
	depth, bar := 0, false
	for {
		c, err := s.out.ReadByte()
		if err != nil {
			return "", err
		}
		if sb.Len() == 0 && (c == '\n' || c == ' ' || c == '\r') {
			continue
		}
		sb.WriteByte(c)
		if c == '|' {
			bar = !bar
		}
		if bar {
			continue
		}
		if c == '(' {
			depth++
		} else if c == ')' {
			depth--
			if depth == 0 {
				return sb.String(), nil
			}
		} else if depth == 0 && c == '\n' {
			return sb.String(), nil
		}
	}
}

// parseModel reads ((|x| #x01) (|y| true) ...).
func parseModel(txt string, m Model) error {
	i := 0
	skip := func() {
		for i < len(txt) && (txt[i] == ' ' || txt[i] == '\n' || txt[i] == '\t' || txt[i] == '\r') {
			i++
		}
	}
	skip()
	if i >= len(txt) || txt[i] != '(' || strings.HasPrefix(txt, "(error") {
		return fmt.Errorf("bad model: %.200s", txt)
	}
	i++
	for {
		skip()
		if i >= len(txt) {
			return fmt.Errorf("truncated model")
		}
		if txt[i] == ')' {
			return nil
		}
		i++ // (
		skip()
		var name string
		if txt[i] == '|' {
			j := strings.IndexByte(txt[i+1:], '|')
			name = txt[i+1 : i+1+j]
			i += j + 2
		} else {
			j := i
			for txt[j] != ' ' && txt[j] != '\n' {
				j++
			}
			name = txt[i:j]
			i = j
		}
		if k := strings.LastIndexByte(name, '!'); k >= 0 {
			name = name[:k] // drop the width
		}
		skip()
		j := i
		depth := 0
		for !(depth == 0 && (txt[j] == ')' || txt[j] == ' ')) {
			if txt[j] == '(' {
				depth++
			}
			if txt[j] == ')' {
				depth--
			}
			j++
			if depth == 0 && txt[j-1] == ')' {
				break
			}
		}
		val := txt[i:j]
		i = j
		skip()
		if i >= len(txt) || txt[i] != ')' {
			return fmt.Errorf("bad model entry near %.60s", txt[i:])
		}
		i++
		switch {
		case val == "true":
			m[name] = 1
		case val == "false":
			m[name] = 0
		case strings.HasPrefix(val, "#x"):
			n, err := strconv.ParseUint(val[2:], 16, 64)
			if err != nil {
				return err
			}
			m[name] = n
		case strings.HasPrefix(val, "#b"):
			n, err := strconv.ParseUint(val[2:], 2, 64)
			if err != nil {
				return err
			}
			m[name] = n
		case strings.HasPrefix(val, "(_ bv"):
			f := strings.Fields(val[5:])
			n, err := strconv.ParseUint(f[0], 10, 64)
			if err != nil {
				return err
			}
			m[name] = n
		default:
			return fmt.Errorf("bad model value %q", val)
		}
	}
}
