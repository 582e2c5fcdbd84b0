package main

import (
	"bufio"
	"fmt"
	"io"
	"math/big"
	"os"
	"os/exec"
	"strings"
	"sync/atomic"
	"time"
)

type SatRes int

const (
	Unsat SatRes = iota
	Sat
	Unknown
)

// Stats are shared by all workers.
type Stats struct {
	Queries, SatN, UnsatN, UnknownN int64
	SolverNS                        int64
	IdentQ, IdentOK, IdentUnk       int64
	IdentNS                         int64
	NormIdent                       int64
	Retry                           time.Duration
	Deadline                        time.Time
}

type Solver struct {
	bin     string
	cmd     *exec.Cmd
	in      *bufio.Writer
	inC     io.WriteCloser
	out     *bufio.Reader
	defined map[*Term]bool
	decl    []*Term
	st      *Stats
	depth   int
	log     *strings.Builder
	dead    bool
}

func NewSolver(bin string, st *Stats) *Solver {
	s := &Solver{bin: bin, st: st}
	s.start()
	return s
}

func (s *Solver) start() {
	s.cmd = exec.Command(s.bin, "-in", "-smt2")
	in, _ := s.cmd.StdinPipe()
	out, _ := s.cmd.StdoutPipe()
	s.inC = in
	s.in = bufio.NewWriterSize(in, 1<<16)
	s.out = bufio.NewReaderSize(out, 1<<16)
	s.cmd.Stderr = nil
	if err := s.cmd.Start(); err != nil {
		panic("cannot start " + s.bin + ": " + err.Error())
	}
	s.dead = false
	s.send("(set-option :print-success false)\n(set-option :timeout 20000)\n(set-logic ALL)\n")
}

func (s *Solver) Close() {
	s.inC.Close()
	s.cmd.Process.Kill()
	s.cmd.Wait()
}

func (s *Solver) send(x string) {
	s.in.WriteString(x)
	if s.log != nil {
		s.log.WriteString(x)
	}
}

func (s *Solver) line() string {
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			s.dead = true
			return "(error dead)"
		}
		l = strings.TrimSpace(l)
		if l != "" {
			return l
		}
	}
}

// Begin opens a fresh scope for a path.
func (s *Solver) Begin() {
	if s.dead {
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.start()
	}
	s.defined = map[*Term]bool{}
	s.decl = nil
	s.log = nil
	s.send("(push)\n")
	s.log = &strings.Builder{}
}

func (s *Solver) End() {
	s.log = nil
	s.send("(pop)\n")
	s.defined = nil
}

// ref emits definitions for t and returns its SMT expression.
func (s *Solver) ref(t *Term) string {
	if t.op == OConst {
		return constStr(t)
	}
	if t.op == OVar {
		if !s.defined[t] {
			s.defined[t] = true
			s.decl = append(s.decl, t)
			s.send(fmt.Sprintf("(declare-const |%s| %s)\n", t.name, sortStr(t.w)))
		}
		return "|" + t.name + "|"
	}
	nm := fmt.Sprintf("t%d", t.id)
	if s.defined[t] {
		return nm
	}
	var e string
	switch t.op {
	case OExtract:
		e = fmt.Sprintf("((_ extract %d %d) %s)", t.hi, t.lo, s.ref(t.a))
	case OZext:
		e = fmt.Sprintf("((_ zero_extend %d) %s)", t.w-t.a.w, s.ref(t.a))
	case OSext:
		e = fmt.Sprintf("((_ sign_extend %d) %s)", t.w-t.a.w, s.ref(t.a))
	default:
		e = "(" + opNames[t.op]
		for _, x := range []*Term{t.a, t.b, t.c} {
			if x != nil {
				e += " " + s.ref(x)
			}
		}
		e += ")"
	}
	s.defined[t] = true
	s.send(fmt.Sprintf("(define-fun %s () %s %s)\n", nm, sortStr(t.w), e))
	return nm
}

func (s *Solver) Assert(t *Term) {
	r := s.ref(t)
	s.send("(assert " + r + ")\n")
}

// Check decides the asserted constraints together with extra.
func (s *Solver) Check(extra []*Term, wantModel bool) (SatRes, map[string]*big.Int) {
	var refs []string
	for _, t := range extra {
		refs = append(refs, s.ref(t))
	}
	t0 := time.Now()
	log := s.log
	s.log = nil
	defer func() { s.log = log }()
	s.send("(push)\n")
	for _, r := range refs {
		s.send("(assert " + r + ")\n")
	}
	s.send("(check-sat)\n")
	s.in.Flush()
	l := s.line()
	res := Unknown
	switch {
	case l == "sat":
		res = Sat
	case l == "unsat":
		res = Unsat
	}
	var model map[string]*big.Int
	if l == "unknown" && log != nil && time.Now().Before(s.st.Deadline) && os.Getenv("GOSYM_NORETRY") == "" {
		// once more from scratch, where the solver may preprocess
		x := log.String()
		for _, r := range refs {
			x += "(assert " + r + ")\n"
		}
		if d := os.Getenv("GOSYM_DUMPUNK"); d != "" {
			os.WriteFile(fmt.Sprintf("%s.%d", d, time.Now().UnixNano()), []byte("(set-logic ALL)\n"+x+"(check-sat)\n"), 0o644)
		}
		x += "(check-sat)\n"
		if len(s.decl) > 0 {
			x += "(get-value ("
			for _, v := range s.decl {
				x += "|" + v.name + "| "
			}
			x += "))\n"
		}
		out := oneShot("z3-new", x, s.st.Retry)
		h, rest, _ := strings.Cut(out, "\n")
		switch strings.TrimSpace(h) {
		case "sat":
			res = Sat
			model = map[string]*big.Int{}
			parseModel(rest, model)
		case "unsat":
			res = Unsat
		}
	}
	if strings.HasPrefix(l, "(error") {
		// anything the solver could not read makes the answer inconclusive
		fmt.Println("solver error:", l)
		s.dead = true
	}
	if res == Sat && wantModel && model == nil {
		model = map[string]*big.Int{}
		if len(s.decl) > 0 {
			s.send("(get-value (")
			for _, v := range s.decl {
				s.send("|" + v.name + "| ")
			}
			s.send("))\n")
			s.in.Flush()
			txt := s.readSexp()
			parseModel(txt, model)
		}
	}
	s.send("(pop)\n")
	atomic.AddInt64(&s.st.SolverNS, int64(time.Since(t0)))
	atomic.AddInt64(&s.st.Queries, 1)
	switch res {
	case Sat:
		atomic.AddInt64(&s.st.SatN, 1)
	case Unsat:
		atomic.AddInt64(&s.st.UnsatN, 1)
	default:
		atomic.AddInt64(&s.st.UnknownN, 1)
	}
	return res, model
}

func (s *Solver) readSexp() string {
	var sb strings.Builder
	depth := 0
	started := false
	inBar := false
	for {
		c, err := s.out.ReadByte()
		if err != nil {
			s.dead = true
			return sb.String()
		}
		sb.WriteByte(c)
		if c == '|' {
			inBar = !inBar
		}
		if inBar {
			continue
		}
		if c == '(' {
			depth++
			started = true
		}
		if c == ')' {
			depth--
			if started && depth == 0 {
				return sb.String()
			}
		}
	}
}

func parseModel(txt string, m map[string]*big.Int) {
	// ((|a| #x00) (|b| true) ...)
	i := 0
	for i < len(txt) {
		if txt[i] != '|' {
			// unquoted symbols are printed without bars when simple
			if txt[i] == '(' && i+1 < len(txt) && txt[i+1] != '(' && txt[i+1] != '|' {
				j := i + 1
				for j < len(txt) && txt[j] != ' ' && txt[j] != ')' {
					j++
				}
				name := txt[i+1 : j]
				i = parseVal(txt, j, name, m)
				continue
			}
			i++
			continue
		}
		j := strings.IndexByte(txt[i+1:], '|') + i + 1
		name := txt[i+1 : j]
		i = parseVal(txt, j+1, name, m)
	}
}

func parseVal(txt string, i int, name string, m map[string]*big.Int) int {
	for i < len(txt) && (txt[i] == ' ' || txt[i] == '\n') {
		i++
	}
	j := i
	for j < len(txt) && txt[j] != ')' && txt[j] != ' ' {
		j++
	}
	v := txt[i:j]
	k := new(big.Int)
	switch {
	case v == "true":
		k.SetInt64(1)
	case v == "false":
	case strings.HasPrefix(v, "#x"):
		k.SetString(v[2:], 16)
	case strings.HasPrefix(v, "#b"):
		k.SetString(v[2:], 2)
	}
	m[name] = k
	return j
}

// OneShot runs a standalone script; used for field identities.
func OneShot(bin, script string, timeout time.Duration) string {
	s := oneShot(bin, script, timeout)
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		if strings.Contains(s, "(error") {
			return "error"
		}
		s = s[:i]
	}
	return s
}

func oneShot(bin, script string, timeout time.Duration) string {
	cmd := exec.Command(bin, "-in", "-smt2", fmt.Sprintf("-T:%d", int(timeout.Seconds())+1))
	cmd.Stdin = strings.NewReader(script)
	out, _ := cmd.Output()
	return strings.TrimSpace(string(out))
}
