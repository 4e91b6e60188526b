package main

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"time"
)

// SatResult is a solver verdict.
type SatResult int

const (
	Unsat SatResult = iota
	Sat
	Unknown
)

func (r SatResult) String() string { return [...]string{"unsat", "sat", "unknown"}[r] }

// Solver drives one incremental SMT process.
type Solver struct {
	args    []string
	cmd     *exec.Cmd
	in      *bufio.Writer
	inC     io.WriteCloser
	out     *bufio.Reader
	defined map[int32]bool
	ndef    int

	Queries  int
	Sats     int
	Unsats   int
	Unknowns int
	Errors   int
	Time     time.Duration
	Timeout  time.Duration
}

func NewSolver(timeout time.Duration, args ...string) *Solver {
	if len(args) == 0 {
		args = []string{z3Path(), "-in", "-smt2"}
	}
	s := &Solver{args: args, Timeout: timeout}
	return s
}

func (s *Solver) start() error {
	s.Close()
	s.cmd = exec.Command(s.args[0], s.args[1:]...)
	in, err := s.cmd.StdinPipe()
	if err != nil {
		return err
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		return err
	}
	s.cmd.Stderr = s.cmd.Stdout
	if err := s.cmd.Start(); err != nil {
		return err
	}
	s.inC = in
	if d := os.Getenv("SYMGO_DUMP"); d != "" {
		f, _ := os.OpenFile(d, os.O_CREATE|os.O_APPEND|os.O_WRONLY, 0o644)
		s.in = bufio.NewWriterSize(io.MultiWriter(in, f), 1<<16)
	} else {
		s.in = bufio.NewWriterSize(in, 1<<16)
	}
	s.out = bufio.NewReaderSize(out, 1<<16)
	s.defined = make(map[int32]bool)
	s.ndef = 0
	if strings.Contains(s.args[0], "z3") {
		fmt.Fprintf(s.in, "(set-option :timeout %d)\n", s.Timeout.Milliseconds())
	} else {
		fmt.Fprintf(s.in, "(set-option :tlimit-per %d)\n(set-option :produce-models true)\n(set-option :incremental true)\n", s.Timeout.Milliseconds())
	}
	fmt.Fprintf(s.in, "(set-logic QF_BV)\n")
	return nil
}

func (s *Solver) Close() {
	if s.cmd != nil {
		s.inC.Close()
		_ = s.cmd.Process.Kill()
		_ = s.cmd.Wait()
		s.cmd = nil
	}
}

func (s *Solver) define(t *Term) {
	// iterative post-order
	type fr struct {
		t *Term
		i int
	}
	if t.Op == OpConst || s.defined[t.ID] {
		return
	}
	stack := []fr{{t, 0}}
	for len(stack) > 0 {
		f := &stack[len(stack)-1]
		if s.defined[f.t.ID] || f.t.Op == OpConst {
			stack = stack[:len(stack)-1]
			continue
		}
		if f.i < len(f.t.Args) {
			a := f.t.Args[f.i]
			f.i++
			if a.Op != OpConst && !s.defined[a.ID] {
				stack = append(stack, fr{a, 0})
			}
			continue
		}
		if f.t.Op == OpVar {
			fmt.Fprintf(s.in, "(declare-fun %s () %s)\n", f.t.ref(), sortOf(f.t.W))
		} else {
			fmt.Fprintf(s.in, "(define-fun %s () %s %s)\n", f.t.ref(), sortOf(f.t.W), f.t.body())
		}
		s.defined[f.t.ID] = true
		s.ndef++
		stack = stack[:len(stack)-1]
	}
}

// Check decides the conjunction of the given terms. If model is non-nil and the
// verdict is sat, the values of the variables are stored in it.
func (s *Solver) Check(conj []*Term, vars []*Term, model map[string]uint64) SatResult {
	t0 := time.Now()
	defer func() { s.Time += time.Since(t0) }()
	s.Queries++
	if s.cmd == nil || s.ndef > 60000 {
		if err := s.start(); err != nil {
			s.Errors++
			return Unknown
		}
	}
	for _, c := range conj {
		s.define(c)
	}
	s.in.WriteString("(push 1)\n")
	for _, c := range conj {
		fmt.Fprintf(s.in, "(assert %s)\n", c.ref())
	}
	s.in.WriteString("(check-sat)\n")
	if err := s.in.Flush(); err != nil {
		s.Errors++
		s.Close()
		return Unknown
	}
	line, err := s.line()
	if err != nil {
		s.Errors++
		s.Close()
		return Unknown
	}
	var res SatResult
	switch line {
	case "sat":
		res = Sat
		s.Sats++
	case "unsat":
		res = Unsat
		s.Unsats++
	case "unknown", "timeout":
		res = Unknown
		s.Unknowns++
	default:
		s.Errors++
		s.Close()
		return Unknown
	}
	if res == Sat && model != nil && len(vars) > 0 {
		var want []*Term
		for _, v := range vars {
			if s.defined[v.ID] {
				want = append(want, v)
			}
		}
		for i := 0; i < len(want); i += 50 {
			j := min(i+50, len(want))
			s.in.WriteString("(get-value (")
			for _, v := range want[i:j] {
				s.in.WriteString(v.ref())
				s.in.WriteString(" ")
			}
			s.in.WriteString("))\n")
			s.in.Flush()
			txt, err := s.sexp()
			if err != nil {
				s.Errors++
				s.Close()
				return Unknown
			}
			if err := parseModel(txt, model); err != nil {
				s.Errors++
			}
		}
	}
	s.in.WriteString("(pop 1)\n")
	return res
}

func (s *Solver) line() (string, error) {
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			return "", err
		}
		l = strings.TrimSpace(l)
		if l == "" {
			continue
		}
		return l, nil
	}
}

func (s *Solver) sexp() (string, error) {
	var sb strings.Builder
	depth := 0
	inBar := false
	started := false
	for {
		b, err := s.out.ReadByte()
		if err != nil {
			return "", err
		}
		sb.WriteByte(b)
		if b == '|' {
			inBar = !inBar
		}
		if inBar {
			continue
		}
		if b == '(' {
			depth++
			started = true
		}
		if b == ')' {
			depth--
		}
		if started && depth == 0 {
			return sb.String(), nil
		}
	}
}

// parseModel parses ((|x| #x00) (|y| true) ...).
func parseModel(txt string, m map[string]uint64) error {
	i := 0
	n := len(txt)
	for i < n {
		j := strings.IndexByte(txt[i:], '|')
		bare := false
		if j < 0 {
			break
		}
		i += j + 1
		k := strings.IndexByte(txt[i:], '|')
		if k < 0 {
			return fmt.Errorf("bad model")
		}
		name := txt[i : i+k]
		i += k + 1
		_ = bare
		for i < n && (txt[i] == ' ' || txt[i] == '\n') {
			i++
		}
		e := i
		if txt[i] == '(' {
			e = i + strings.IndexByte(txt[i:], ')') + 1
		} else {
			for e < n && txt[e] != ')' && txt[e] != ' ' {
				e++
			}
		}
		v := txt[i:e]
		i = e
		switch {
		case v == "true":
			m[name] = 1
		case v == "false":
			m[name] = 0
		case strings.HasPrefix(v, "#x"):
			u, err := strconv.ParseUint(v[2:], 16, 64)
			if err != nil {
				return err
			}
			m[name] = u
		case strings.HasPrefix(v, "#b"):
			u, err := strconv.ParseUint(v[2:], 2, 64)
			if err != nil {
				return err
			}
			m[name] = u
		case strings.HasPrefix(v, "(_ bv"):
			f := strings.Fields(v[5:])
			u, err := strconv.ParseUint(f[0], 10, 64)
			if err != nil {
				return err
			}
			m[name] = u
		default:
			return fmt.Errorf("bad model value %q", v)
		}
	}
	return nil
}

// z3Path prefers the newer z3 (much faster on the path conditions of merged states).
func z3Path() string {
	if p, err := exec.LookPath("z3-new"); err == nil {
		return p
	}
	return "z3"
}
