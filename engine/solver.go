package main

// One incremental SMT solver process (z3 -in) per worker.

import (
	"bufio"
	"fmt"
	"io"
	"os/exec"
	"strconv"
	"strings"
	"time"
)

type SatResult int

const (
	Unsat SatResult = iota
	Sat
	Unknown
)

type Solver struct {
	bin     string
	cmd     *exec.Cmd
	in      *bufio.Writer
	stdin   io.WriteCloser
	out     *bufio.Reader
	defined map[uint32]bool
	vars    map[string]uint8
	stack   []*Term // asserted terms, one push per entry
	nlines  int

	Queries  int
	SatN     int
	UnsatN   int
	UnknownN int
	Time     time.Duration
	timeout  int // ms
	Errors   []string
}

func NewSolver(bin string, timeoutMS int) *Solver {
	s := &Solver{bin: bin, timeout: timeoutMS}
	s.start()
	return s
}

func (s *Solver) start() {
	s.cmd = exec.Command(s.bin, "-in")
	stdin, err := s.cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	stdout, err := s.cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	s.stdin = stdin
	s.in = bufio.NewWriterSize(stdin, 1<<16)
	s.out = bufio.NewReaderSize(stdout, 1<<16)
	if err := s.cmd.Start(); err != nil {
		panic(err)
	}
	s.defined = make(map[uint32]bool)
	s.vars = make(map[string]uint8)
	s.stack = nil
	s.nlines = 0
	s.send("(set-option :print-success false)")
	s.send("(set-option :global-declarations true)")
	s.send(fmt.Sprintf("(set-option :timeout %d)", s.timeout))
	s.send("(set-logic QF_BV)")
}

func (s *Solver) Stop() {
	if s.cmd != nil {
		s.stdin.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

// Reset forgets everything (new process), used when the term table is recycled.
func (s *Solver) Reset() {
	s.Stop()
	s.start()
}

func (s *Solver) send(line string) {
	s.in.WriteString(line)
	s.in.WriteByte('\n')
	s.nlines++
}

// define makes sure all subterms of t have definitions.
func (s *Solver) define(t *Term) {
	if t.op == OConst {
		return
	}
	if s.defined[t.id] {
		return
	}
	// iterative post-order to avoid deep recursion
	type fr struct {
		t *Term
		i int
	}
	st := []fr{{t, 0}}
	for len(st) > 0 {
		top := &st[len(st)-1]
		if top.i == 0 && (top.t.op == OConst || s.defined[top.t.id]) {
			st = st[:len(st)-1]
			continue
		}
		if top.i < int(top.t.n) {
			c := top.t.a[top.i]
			top.i++
			if c.op != OConst && !s.defined[c.id] {
				st = append(st, fr{c, 0})
			}
			continue
		}
		x := top.t
		st = st[:len(st)-1]
		if s.defined[x.id] {
			continue
		}
		s.defined[x.id] = true
		if x.op == OVar {
			if _, ok := s.vars[x.ref()]; !ok {
				s.vars[x.ref()] = x.w
				s.send(fmt.Sprintf("(declare-const %s %s)", x.ref(), sortName(x.w)))
			}
			continue
		}
		s.send(fmt.Sprintf("(define-fun t%d () %s %s)", x.id, sortName(x.w), x.body()))
	}
}

// sync makes the assertion stack equal to pc.
func (s *Solver) sync(pc []*Term) {
	i := 0
	for i < len(s.stack) && i < len(pc) && s.stack[i] == pc[i] {
		i++
	}
	if n := len(s.stack) - i; n > 0 {
		s.send(fmt.Sprintf("(pop %d)", n))
		s.stack = s.stack[:i]
	}
	for ; i < len(pc); i++ {
		s.define(pc[i])
		s.send("(push 1)")
		s.send("(assert " + pc[i].ref() + ")")
		s.stack = append(s.stack, pc[i])
	}
}

// Check decides pc ∧ extra. On Sat the model of the given variables is returned.
func (s *Solver) Check(pc []*Term, extra *Term, vars []*Term) (SatResult, Model) {
	t0 := time.Now()
	defer func() { s.Time += time.Since(t0) }()
	s.Queries++
	s.sync(pc)
	if extra != nil {
		s.define(extra)
		s.send("(push 1)")
		s.send("(assert " + extra.ref() + ")")
	}
	for _, v := range vars {
		s.define(v)
	}
	s.send("(check-sat)")
	s.in.Flush()
	res := Unknown
	line, err := s.readLine()
	if err == nil {
		switch {
		case line == "sat":
			res = Sat
		case line == "unsat":
			res = Unsat
		case strings.HasPrefix(line, "(error"):
			// the answers can no longer be matched to the questions: inconclusive, start afresh
			s.Errors = append(s.Errors, line)
			s.UnknownN++
			s.Reset()
			return Unknown, nil
		}
	} else {
		s.Errors = append(s.Errors, "solver died: "+err.Error())
		s.UnknownN++
		s.Reset()
		return Unknown, nil
	}
	var m Model
	if res == Sat && len(vars) > 0 {
		m = make(Model, len(vars))
		const chunk = 200
		for i := 0; i < len(vars); i += chunk {
			j := min(i+chunk, len(vars))
			var sb strings.Builder
			sb.WriteString("(get-value (")
			for _, v := range vars[i:j] {
				sb.WriteString(v.ref())
				sb.WriteByte(' ')
			}
			sb.WriteString("))")
			s.send(sb.String())
			s.in.Flush()
			txt, err := s.readSexp()
			if err != nil || strings.HasPrefix(txt, "(error") {
				s.Errors = append(s.Errors, "get-value: "+txt)
				s.UnknownN++
				s.Reset()
				return Unknown, nil
			}
			parseValues(txt, m)
		}
	} else if res == Sat {
		m = Model{}
	}
	if extra != nil {
		s.send("(pop 1)")
	}
	switch res {
	case Sat:
		s.SatN++
	case Unsat:
		s.UnsatN++
	default:
		s.UnknownN++
	}
	return res, m
}

func (s *Solver) readLine() (string, error) {
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			return "", err
		}
		l = strings.TrimSpace(l)
		if l != "" {
			return l, nil
		}
	}
}

func (s *Solver) readSexp() (string, error) {
	var sb strings.Builder
	depth := 0
	started := false
	inBar := false
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			return sb.String(), err
		}
		sb.WriteString(l)
		for i := 0; i < len(l); i++ {
			c := l[i]
			if c == '|' {
				inBar = !inBar
			}
			if inBar {
				continue
			}
			if c == '(' {
				depth++
				started = true
			} else if c == ')' {
				depth--
			}
		}
		if started && depth <= 0 {
			return strings.TrimSpace(sb.String()), nil
		}
	}
}

// parseValues parses ((|x| #x00) (|y| true) ...).
func parseValues(txt string, m Model) {
	i := 0
	for i < len(txt) {
		// names are always |quoted| or plain symbols printed by z3
		for i < len(txt) && (txt[i] == '(' || txt[i] == ' ' || txt[i] == '\n' || txt[i] == ')' || txt[i] == '\t') {
			i++
		}
		if i >= len(txt) {
			return
		}
		var name string
		if txt[i] == '|' {
			j := strings.IndexByte(txt[i+1:], '|')
			name = txt[i+1 : i+1+j]
			if k := strings.LastIndexByte(name, '~'); k >= 0 {
				name = name[:k]
			}
			i += j + 2
		} else {
			j := i
			for j < len(txt) && txt[j] != ' ' && txt[j] != '\n' {
				j++
			}
			name = txt[i:j]
			i = j
		}
		for i < len(txt) && (txt[i] == ' ' || txt[i] == '\n') {
			i++
		}
		j := i
		for j < len(txt) && txt[j] != ')' && txt[j] != ' ' && txt[j] != '\n' {
			j++
		}
		v := txt[i:j]
		i = j
		switch {
		case v == "true":
			m[name] = 1
		case v == "false":
			m[name] = 0
		case strings.HasPrefix(v, "#x"):
			u, _ := strconv.ParseUint(v[2:], 16, 64)
			m[name] = u
		case strings.HasPrefix(v, "#b"):
			u, _ := strconv.ParseUint(v[2:], 2, 64)
			m[name] = u
		}
	}
}
