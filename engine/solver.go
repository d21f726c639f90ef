package main

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"sort"
	"strconv"
	"strings"
	"time"
)

type SatResult int

const (
	Unsat SatResult = iota
	Sat
	Unknown
)

// Solver drives one z3 process; queries are independent (push/pop), terms are
// defined once per process generation.
type Solver struct {
	c       *Ctx
	bin     string
	cmd     *exec.Cmd
	in      io.WriteCloser
	out     *bufio.Reader
	gen     uint32
	ndef    int
	declV   map[string]bool
	buf     strings.Builder
	timeout int // ms
	hardTimeout int
	oneshot bool

	lia *Solver
	LiaTried, LiaSolved, LiaBad int
	liaSkip, liaLoss int
	Queries, CacheHits, Unknowns, Fallbacks int
	Time                                    time.Duration
	cache                                   map[string]cached
	Dump                                    io.Writer
}
type cached struct {
	r SatResult
	m *Model
}

var solverGen uint32

func NewSolver(c *Ctx, timeoutMs int) *Solver {
	bin := "z3-new"
	if _, err := exec.LookPath(bin); err != nil {
		bin = "z3"
	}
	return &Solver{c: c, bin: bin, timeout: timeoutMs, cache: map[string]cached{}, gen: 0, hardTimeout: 8 * timeoutMs}
}

func (s *Solver) start() error {
	s.cmd = exec.Command(s.bin, "-in", "-smt2")
	in, err := s.cmd.StdinPipe()
	if err != nil {
		return err
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		return err
	}
	s.cmd.Stderr = os.Stderr
	if err := s.cmd.Start(); err != nil {
		return err
	}
	s.in, s.out = in, bufio.NewReaderSize(out, 1<<16)
	s.gen++
	s.ndef = 0
	s.declV = map[string]bool{}
	fmt.Fprintf(s.in, "(set-option :global-declarations true)\n(set-option :timeout %d)\n(set-option :model.completion true)\n", s.timeout)
	return nil
}

func (s *Solver) errw() io.Writer { return os.Stderr }

func (s *Solver) Close() {
	if s.lia != nil {
		s.lia.Close()
		s.lia = nil
	}
	if s.cmd != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func sortOf(w uint8) string {
	if w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

func (s *Solver) ref(t *Term) string {
	switch t.op {
	case OConst:
		if t.w == 0 {
			if t.k == 1 {
				return "true"
			}
			return "false"
		}
		return fmt.Sprintf("(_ bv%d %d)", t.k, t.w)
	case OVar:
		return "|" + t.name + "|"
	}
	return "t" + strconv.Itoa(int(t.id))
}

func (s *Solver) define(t *Term) {
	if t.op == OConst || t.defd == s.gen {
		return
	}
	t.defd = s.gen
	if t.op == OVar {
		if !s.declV[t.name] {
			s.declV[t.name] = true
			fmt.Fprintf(&s.buf, "(declare-const |%s| %s)\n", t.name, sortOf(t.w))
		}
		return
	}
	for _, a := range t.args {
		s.define(a)
	}
	if t.op == OSelect && !s.declV[t.name] {
		s.declV[t.name] = true
		fmt.Fprintf(&s.buf, "(declare-const |%s| (Array (_ BitVec 64) (_ BitVec 8)))\n", t.name)
	}
	s.ndef++
	b := &s.buf
	fmt.Fprintf(b, "(define-fun t%d () %s ", t.id, sortOf(t.w))
	switch t.op {
	case OSelect:
		fmt.Fprintf(b, "(select |%s| %s)", t.name, s.ref(t.args[0]))
	case OSum:
		ms := []string{}
		for i, a := range t.args {
			if t.coefs[i] == 1 {
				ms = append(ms, s.ref(a))
			} else if t.coefs[i] == mask(t.w) {
				ms = append(ms, "(bvneg "+s.ref(a)+")")
			} else if isPow2(t.coefs[i]) {
				sh := 0
				for (uint64(1) << sh) != t.coefs[i] {
					sh++
				}
				ms = append(ms, fmt.Sprintf("(bvshl %s (_ bv%d %d))", s.ref(a), sh, t.w))
			} else {
				ms = append(ms, fmt.Sprintf("(bvmul %s (_ bv%d %d))", s.ref(a), t.coefs[i], t.w))
			}
		}
		if t.k != 0 {
			ms = append(ms, fmt.Sprintf("(_ bv%d %d)", t.k, t.w))
		}
		if len(ms) == 1 {
			b.WriteString(ms[0])
		} else {
			b.WriteString("(bvadd " + strings.Join(ms, " ") + ")")
		}
	case OZext:
		fmt.Fprintf(b, "((_ zero_extend %d) %s)", t.w-t.args[0].w, s.ref(t.args[0]))
	case OSext:
		fmt.Fprintf(b, "((_ sign_extend %d) %s)", t.w-t.args[0].w, s.ref(t.args[0]))
	case OExtract:
		fmt.Fprintf(b, "((_ extract %d %d) %s)", int(t.k)+int(t.w)-1, t.k, s.ref(t.args[0]))
	default:
		b.WriteString("(" + opNames[t.op])
		for _, a := range t.args {
			b.WriteString(" " + s.ref(a))
		}
		b.WriteString(")")
	}
	b.WriteString(")\n")
}

// Check decides the conjunction of conds. On Sat it returns values for every
// variable and array cell occurring in conds.
func (s *Solver) Check(conds []*Term) (SatResult, *Model) {
	key := ""
	{
		ids := make([]int, len(conds))
		for i, t := range conds {
			ids[i] = int(t.id)
		}
		sort.Ints(ids)
		var sb strings.Builder
		p := -1
		for _, i := range ids {
			if i != p {
				sb.WriteString(strconv.Itoa(i))
				sb.WriteByte(',')
			}
			p = i
		}
		key = sb.String()
	}
	if r, ok := s.cache[key]; ok {
		s.CacheHits++
		return r.r, r.m
	}
	t0 := time.Now()
	r, m := Unknown, (*Model)(nil)
	if s.liaSkip > 0 || os.Getenv("GOSYM_NOLIA") != "" {
		s.liaSkip--
	} else {
		tried := s.LiaTried
		r, m = s.liaCheck(conds, 1000)
		if s.LiaTried > tried {
			if r == Unknown {
				if s.liaLoss++; s.liaLoss >= 4 {
					s.liaSkip, s.liaLoss = 30, 2
				}
			} else {
				s.liaLoss = 0
			}
		}
	}
	if r == Unknown {
		r, m = s.check(conds)
	}
	s.Time += time.Since(t0)
	s.Queries++
	s.cache[key] = cached{r, m}
	return r, m
}

// Hard decides conds on a fresh process, without push/pop so that the full
// preprocessing of the solver applies, and with a larger budget.
func (s *Solver) Hard(conds []*Term) (SatResult, *Model) {
	t0 := time.Now()
	if r, m := s.liaCheck(conds, s.timeout*2); r != Unknown {
		s.Time += time.Since(t0)
		s.Queries++
		return r, m
	}
	s.Close()
	old := s.timeout
	s.timeout, s.oneshot = s.hardTimeout, true
	r, m := s.check(conds)
	s.timeout, s.oneshot = old, false
	s.Close()
	s.Fallbacks++
	if r == Unknown {
		s.Unknowns++
	}
	s.Time += time.Since(t0)
	s.Queries++
	return r, m
}

func (s *Solver) check(conds []*Term) (SatResult, *Model) {
	if s.cmd == nil || s.ndef > 60000 {
		s.Close()
		if err := s.start(); err != nil {
			return Unknown, nil
		}
	}
	s.buf.Reset()
	for _, t := range conds {
		s.define(t)
	}
	if !s.oneshot {
		s.buf.WriteString("(push)\n")
	}
	for _, t := range conds {
		fmt.Fprintf(&s.buf, "(assert %s)\n", s.ref(t))
	}
	if s.oneshot {
		s.buf.WriteString("(check-sat-using (or-else (then simplify propagate-values solve-eqs elim-uncnstr simplify smt) smt))\n")
	} else {
		s.buf.WriteString("(check-sat)\n")
	}
	if s.Dump != nil {
		io.WriteString(s.Dump, s.buf.String())
	}
	if _, err := io.WriteString(s.in, s.buf.String()); err != nil {
		s.Close()
		return Unknown, nil
	}
	line, err := s.line()
	if err != nil {
		s.Close()
		return Unknown, nil
	}
	switch line {
	case "unsat":
		s.pop()
		return Unsat, nil
	case "sat":
		m, err := s.getModel(conds)
		if err != nil {
			fmt.Fprintln(os.Stderr, "solver model error:", err)
			s.Close()
			return Unknown, nil
		}
		s.pop()
		return Sat, m
	case "unknown", "timeout":
		s.pop()
		return Unknown, nil
	default:
		fmt.Fprintln(os.Stderr, "solver said:", line)
		s.Close()
		return Unknown, nil
	}
}

func (s *Solver) pop() {
	if !s.oneshot {
		io.WriteString(s.in, "(pop)\n")
	}
}

func (s *Solver) line() (string, error) {
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			return "", err
		}
		l = strings.TrimSpace(l)
		if l != "" {
			return l, nil
		}
	}
}

func (s *Solver) getModel(conds []*Term) (*Model, error) {
	var vars, sels []*Term
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if t.op == OConst || seen[t] {
			return
		}
		seen[t] = true
		switch t.op {
		case OVar:
			vars = append(vars, t)
		case OSelect:
			sels = append(sels, t)
		}
		for _, a := range t.args {
			walk(a)
		}
	}
	for _, t := range conds {
		walk(t)
	}
	m := NewModel()
	var q []*Term
	q = append(q, vars...)
	for _, t := range sels {
		q = append(q, t)
		if t.args[0].op != OConst {
			q = append(q, t.args[0])
		}
	}
	if len(q) == 0 {
		return m, nil
	}
	vals := map[*Term]uint64{}
	for i := 0; i < len(q); i += 200 {
		j := i + 200
		if j > len(q) {
			j = len(q)
		}
		var sb strings.Builder
		sb.WriteString("(get-value (")
		for _, t := range q[i:j] {
			sb.WriteString(s.ref(t) + " ")
		}
		sb.WriteString("))\n")
		if _, err := io.WriteString(s.in, sb.String()); err != nil {
			return nil, err
		}
		txt, err := s.sexp()
		if err != nil {
			return nil, err
		}
		vs, err := parseValues(txt)
		if err != nil {
			return nil, err
		}
		if len(vs) != j-i {
			return nil, fmt.Errorf("get-value: %d values for %d terms: %.200s", len(vs), j-i, txt)
		}
		for k, t := range q[i:j] {
			vals[t] = vs[k]
		}
	}
	for _, t := range vars {
		m.V[t.name] = vals[t]
	}
	for _, t := range sels {
		idx := t.args[0].k
		if t.args[0].op != OConst {
			idx = vals[t.args[0]]
		}
		if m.A[t.name] == nil {
			m.A[t.name] = map[uint64]uint8{}
		}
		m.A[t.name][idx] = uint8(vals[t])
	}
	return m, nil
}

func (s *Solver) sexp() (string, error) {
	var sb strings.Builder
	depth := 0
	started := false
	inq := false
	for {
		b, err := s.out.ReadByte()
		if err != nil {
			return "", err
		}
		if b == '|' {
			inq = !inq
		}
		if !inq {
			if b == '(' {
				depth++
				started = true
			}
			if b == ')' {
				depth--
			}
		}
		if started {
			sb.WriteByte(b)
			if depth == 0 {
				return sb.String(), nil
			}
		}
	}
}

// parseValues parses ((term value) (term value) ...) returning the values.
func parseValues(s string) ([]uint64, error) {
	if strings.HasPrefix(s, "(error") {
		return nil, fmt.Errorf("%s", s)
	}
	var out []uint64
	i := 1
	n := len(s)
	skip := func() {
		for i < n && (s[i] == ' ' || s[i] == '\n' || s[i] == '\r' || s[i] == '\t') {
			i++
		}
	}
	var tok func() string
	tok = func() string { // atom or balanced sexp
		skip()
		st := i
		if i < n && s[i] == '(' {
			d := 0
			for i < n {
				if s[i] == '|' {
					i++
					for s[i] != '|' {
						i++
					}
				}
				if s[i] == '(' {
					d++
				} else if s[i] == ')' {
					d--
				}
				i++
				if d == 0 {
					break
				}
			}
			return s[st:i]
		}
		if i < n && s[i] == '|' {
			i++
			for s[i] != '|' {
				i++
			}
			i++
			return s[st:i]
		}
		for i < n && s[i] != ' ' && s[i] != ')' && s[i] != '(' && s[i] != '\n' {
			i++
		}
		return s[st:i]
	}
	for {
		skip()
		if i >= n || s[i] == ')' {
			return out, nil
		}
		if s[i] != '(' {
			return nil, fmt.Errorf("bad value list %.100s", s[i:])
		}
		i++
		tok()
		v := tok()
		skip()
		if i < n && s[i] == ')' {
			i++
		}
		switch {
		case v == "true":
			out = append(out, 1)
		case v == "false":
			out = append(out, 0)
		case strings.HasPrefix(v, "#x"):
			x, err := strconv.ParseUint(v[2:], 16, 64)
			if err != nil {
				return nil, err
			}
			out = append(out, x)
		case strings.HasPrefix(v, "#b"):
			x, err := strconv.ParseUint(v[2:], 2, 64)
			if err != nil {
				return nil, err
			}
			out = append(out, x)
		case strings.HasPrefix(v, "(_ bv"):
			f := strings.Fields(v[5:])
			x, err := strconv.ParseUint(f[0], 10, 64)
			if err != nil {
				return nil, err
			}
			out = append(out, x)
		default:
			if x, err := strconv.ParseUint(v, 10, 64); err == nil {
				out = append(out, x)
				break
			}
			return nil, fmt.Errorf("bad value %q", v)
		}
	}
}
