package main

import (
	"bufio"
	"fmt"
	"io"
	"math/big"
	"os"
	"os/exec"
	"strings"
	"time"
)

// Solver is one incremental SMT solver process.
type Solver struct {
	cmd     *exec.Cmd
	in      io.WriteCloser
	out     *bufio.Reader
	buf     strings.Builder
	queries int
	time    time.Duration
	log     *os.File
	bad     string // first error line
	timeout int
	name    string
	oneShot bool
	lines   []string // what the solver currently holds, to set up another process after a hang
	marks   []int
	replay  bool
	hangs   int
}

func newSolver(timeoutMs int) *Solver {
	s := &Solver{timeout: timeoutMs, name: solverBin}
	s.start()
	return s
}

var solverBin = func() string {
	if p, err := exec.LookPath("z3-new"); err == nil {
		return p
	}
	return "z3"
}()

func (s *Solver) start() {
	if strings.Contains(s.name, "cvc5") {
		s.cmd = exec.Command(s.name, "--incremental", "--produce-models", fmt.Sprintf("--tlimit-per=%d", s.timeout), "--lang=smt2", "-")
	} else {
		s.cmd = exec.Command(s.name, "-in", "-smt2")
	}
	s.in, _ = s.cmd.StdinPipe()
	o, _ := s.cmd.StdoutPipe()
	s.cmd.Stderr = nil
	s.out = bufio.NewReaderSize(o, 1<<16)
	if err := s.cmd.Start(); err != nil {
		panic(err)
	}
	if p := os.Getenv("VSYM_SMTLOG"); p != "" && s.log == nil {
		s.log, _ = os.Create(fmt.Sprintf("%s.%d.smt2", p, s.cmd.Process.Pid))
	}
	if strings.Contains(s.name, "cvc5") {
		s.send("(set-logic ALL)")
	} else {
		r := s.replay
		s.replay = true
		s.send(fmt.Sprintf("(set-option :timeout %d)", s.timeout))
		s.replay = r
	}
}

// kill ends the process without waiting for pending answers.
func (s *Solver) kill() {
	s.cmd.Process.Kill()
	go s.cmd.Wait()
}

func (s *Solver) close() {
	if s.cmd != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

// restart replaces the process and gives the new one everything the old one held.
func (s *Solver) restart() {
	s.close()
	s.buf.Reset()
	s.replay = true
	s.start()
	for _, l := range s.lines {
		s.send(l)
	}
	s.replay = false
}

func (s *Solver) send(l string) {
	if !s.replay && !s.oneShot {
		switch {
		case l == "(push)":
			s.marks = append(s.marks, len(s.lines))
			s.lines = append(s.lines, l)
		case strings.HasPrefix(l, "(pop"):
			k := 1
			fmt.Sscanf(l, "(pop %d)", &k)
			for ; k > 0 && len(s.marks) > 0; k-- {
				n := len(s.marks)
				s.lines = s.lines[:s.marks[n-1]]
				s.marks = s.marks[:n-1]
			}
		case strings.HasPrefix(l, "(check"), strings.HasPrefix(l, "(echo"), strings.HasPrefix(l, "(get-"):
		default:
			s.lines = append(s.lines, l)
		}
	}
	s.buf.WriteString(l)
	s.buf.WriteByte('\n')
	if s.log != nil {
		fmt.Fprintln(s.log, l)
	}
}

func (s *Solver) flush() {
	io.WriteString(s.in, s.buf.String())
	s.buf.Reset()
}

func (s *Solver) readLine() string {
	l, err := s.out.ReadString('\n')
	if err != nil {
		return "(error \"eof\")"
	}
	return strings.TrimSpace(l)
}

// check runs check-sat: "sat", "unsat", "unknown". Any error line makes the answer unknown.
func (s *Solver) check() string { return s.checkWith("(check-sat)") }

func (s *Solver) checkWith(cmd string) string {
	t0 := time.Now()
	s.send(cmd)
	s.send("(echo \"#done\")")
	s.flush()
	// z3 does not look at its timeout everywhere
	proc := s.cmd.Process
	dog := time.AfterFunc(time.Duration(s.timeout)*time.Millisecond*5/4+5*time.Second, func() { proc.Kill() })
	defer dog.Stop()
	res := "unknown"
	for {
		l := s.readLine()
		if l == "#done" || l == "\"#done\"" {
			break
		}
		if strings.HasPrefix(l, "(error") {
			if s.bad == "" && !strings.Contains(l, "eof") {
				s.bad = l
				if os.Getenv("VSYM_DEBUG") != "" {
					fmt.Fprintln(os.Stderr, "solver error:", l)
				}
			}
			res = "error"
			if strings.Contains(l, "eof") {
				if s.oneShot {
					return "unknown"
				}
				s.hangs++
				s.queries++
				s.time += time.Since(t0)
				s.restart()
				return "unknown"
			}
			continue
		}
		if l == "sat" || l == "unsat" || l == "unknown" {
			if res != "error" {
				res = l
			}
		}
	}
	s.queries++
	s.time += time.Since(t0)
	if res == "error" || s.bad != "" {
		return "unknown"
	}
	return res
}

// eval returns the model value of an expression as an s-expression.
func (s *Solver) eval(e string) string {
	s.send("(get-value (" + e + "))")
	s.send("(echo \"#done\")")
	s.flush()
	var sb strings.Builder
	for {
		l := s.readLine()
		if l == "#done" || l == "\"#done\"" {
			break
		}
		if strings.HasPrefix(l, "(error \"eof") {
			s.restart()
			return ""
		}
		sb.WriteString(l)
		sb.WriteByte(' ')
	}
	return strings.TrimSpace(sb.String())
}

// parseValue extracts a number from a get-value answer; ok=false if not an integer.
func parseValue(s string) (*big.Int, bool) {
	// ((name value))
	s = strings.TrimSpace(s)
	if !strings.HasPrefix(s, "((") {
		return nil, false
	}
	s = strings.TrimSuffix(strings.TrimSpace(s[1:]), ")")
	s = strings.TrimSpace(s[1:])
	s = strings.TrimSuffix(s, ")")
	// skip the first s-expression
	depth, i := 0, 0
	inBar := false
	for ; i < len(s); i++ {
		c := s[i]
		if c == '|' {
			inBar = !inBar
		}
		if inBar {
			continue
		}
		if c == '(' {
			depth++
		} else if c == ')' {
			depth--
		} else if c == ' ' && depth == 0 {
			break
		}
		if depth == 0 && c == ')' {
			i++
			break
		}
	}
	return parseNum(strings.TrimSpace(s[i:]))
}

func parseNum(v string) (*big.Int, bool) {
	v = strings.TrimSpace(v)
	switch {
	case v == "true":
		return big.NewInt(1), true
	case v == "false":
		return new(big.Int), true
	case strings.HasPrefix(v, "#x"):
		r, ok := new(big.Int).SetString(v[2:], 16)
		return r, ok
	case strings.HasPrefix(v, "#b"):
		r, ok := new(big.Int).SetString(v[2:], 2)
		return r, ok
	case strings.HasPrefix(v, "(-"):
		r, ok := parseNum(strings.TrimSuffix(v[2:], ")"))
		if r != nil {
			r = new(big.Int).Neg(r)
		}
		return r, ok
	case strings.HasPrefix(v, "(/"):
		f := strings.Fields(strings.Trim(v, "()/ "))
		if len(f) == 2 {
			a, ok1 := parseNum(f[0])
			b, ok2 := parseNum(f[1])
			if ok1 && ok2 && b.Sign() > 0 {
				q, m := new(big.Int).DivMod(a, b, new(big.Int))
				return q, m.Sign() == 0
			}
		}
		return nil, false
	}
	v = strings.TrimSuffix(v, ".0")
	r, ok := new(big.Int).SetString(v, 10)
	return r, ok
}
