package main

import (
	"fmt"
	"io"
	"math/big"
	"strconv"
	"strings"
)

// A second encoding of a query: words become integers within their range, and
// the wrap-around of a sum becomes an integer multiple of 2^w, bounded by what
// the conditions of the query say about the operands. Address arithmetic is
// linear, so this is decided by simplex where bit-blasting adders is slow. A
// query with operations outside this fragment is left to the bit-vector
// encoding, and a model is accepted only if it satisfies the original terms.

type liaEnc struct {
	c     *Ctx
	b     strings.Builder
	memo  map[*Term]string
	decl  map[string]bool
	vars  []*Term
	sels  []*Term
	selI  []string
	n     int
	extra []string
	bad   bool

	nopaque int
}

var two64 = new(big.Int).Lsh(big.NewInt(1), 64)

func pow2s(n uint) string { return new(big.Int).Lsh(big.NewInt(1), n).String() }
func intLit(v int64) string {
	if v < 0 {
		return "(- " + new(big.Int).Neg(big.NewInt(v)).String() + ")"
	}
	return strconv.FormatInt(v, 10)
}

func (e *liaEnc) fail() string { e.bad = true; return "0" }

func (e *liaEnc) name(t *Term, sort, body string) string {
	e.n++
	n := "i" + strconv.Itoa(e.n)
	fmt.Fprintf(&e.b, "(define-fun %s () %s %s)\n", n, sort, body)
	return n
}

// opaque stands for a word the fragment cannot express: any value within its
// bounds. That only adds behaviours, so unsat stays right; a model is checked
// against the original terms anyway.
func (e *liaEnc) opaque(t *Term) string {
	e.n++
	n := "o" + strconv.Itoa(e.n)
	fmt.Fprintf(&e.b, "(declare-const %s Int)\n", n)
	lo, hi := e.c.bounds(t)
	e.rng(n, lo, hi)
	e.nopaque++
	return n
}

func (e *liaEnc) rng(x string, lo, hi uint64) {
	fmt.Fprintf(&e.b, "(assert (and (<= %d %s) (<= %s %d)))\n", lo, x, x, hi)
}

// linear returns the sum read with signed coefficients.
func (e *liaEnc) linear(t *Term) string {
	var ms []string
	for i, a := range t.args {
		co := sx(t.coefs[i], t.w)
		x := e.u(a)
		if co == 1 {
			ms = append(ms, x)
		} else {
			ms = append(ms, "(* "+intLit(co)+" "+x+")")
		}
	}
	if t.k != 0 {
		ms = append(ms, intLit(sx(t.k, t.w)))
	}
	if len(ms) == 1 {
		return ms[0]
	}
	return "(+ " + strings.Join(ms, " ") + ")"
}

func floorShift(v i128, w uint8) (int64, bool) {
	if w == 64 {
		return v.hi, v.hi > -1000 && v.hi < 1000
	}
	// v >> w, must fit
	if v.hi != 0 && v.hi != -1 {
		return 0, false
	}
	r := int64(v.lo>>w | uint64(v.hi)<<(64-w))
	if v.hi == 0 && r < 0 {
		return 0, false
	}
	return r, r > -100000 && r < 100000
}

func (e *liaEnc) seg(x string, lo, w uint) string {
	if lo > 0 {
		x = "(div " + x + " " + pow2s(lo) + ")"
	}
	return "(mod " + x + " " + pow2s(w) + ")"
}

// u is the unsigned value of a word.
func (e *liaEnc) u(t *Term) string {
	if e.bad {
		return "0"
	}
	if t.op == OConst {
		return strconv.FormatUint(t.k, 10)
	}
	if s, ok := e.memo[t]; ok {
		return s
	}
	s := e.u0(t)
	e.memo[t] = s
	return s
}

func (e *liaEnc) u0(t *Term) string {
	c := e.c
	switch t.op {
	case OVar:
		n := "|" + t.name + "|"
		if !e.decl[t.name] {
			e.decl[t.name] = true
			e.vars = append(e.vars, t)
			fmt.Fprintf(&e.b, "(declare-const %s Int)\n", n)
			lo, hi := c.bounds(t)
			e.rng(n, lo, hi)
		}
		return n
	case OSelect:
		if !e.decl[t.name] {
			e.decl[t.name] = true
			fmt.Fprintf(&e.b, "(declare-fun |%s| (Int) Int)\n", t.name)
		}
		i := e.u(t.args[0])
		s := e.name(t, "Int", "(|"+t.name+"| "+i+")")
		lo, hi := c.bounds(t)
		e.rng(s, lo, hi)
		e.sels = append(e.sels, t)
		e.selI = append(e.selI, i)
		return s
	case OSum:
		lo, hi := c.poly(t)
		if lo.hi <= -1<<59 || hi.hi >= 1<<59 {
			return e.opaque(t)
		}
		kl, ok1 := floorShift(lo, t.w)
		kh, ok2 := floorShift(hi, t.w)
		if !ok1 || !ok2 {
			return e.opaque(t)
		}
		x := e.linear(t)
		m := pow2s(uint(t.w))
		if kl == kh {
			if kl == 0 {
				return e.name(t, "Int", x)
			}
			return e.name(t, "Int", "(- "+x+" (* "+intLit(kl)+" "+m+"))")
		}
		e.n++
		k := "k" + strconv.Itoa(e.n)
		fmt.Fprintf(&e.b, "(declare-const %s Int)\n(assert (and (<= %s %s) (<= %s %s)))\n", k, intLit(kl), k, k, intLit(kh))
		s := e.name(t, "Int", "(- "+x+" (* "+m+" "+k+"))")
		e.rng(s, 0, mask(t.w))
		return s
	case OIte:
		return e.name(t, "Int", "(ite "+e.b_(t.args[0])+" "+e.u(t.args[1])+" "+e.u(t.args[2])+")")
	case OZext:
		return e.u(t.args[0])
	case OSext:
		a := t.args[0]
		half := pow2s(uint(a.w - 1))
		d := new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), uint(t.w)), new(big.Int).Lsh(big.NewInt(1), uint(a.w))).String()
		x := e.u(a)
		return e.name(t, "Int", "(ite (< "+x+" "+half+") "+x+" (+ "+x+" "+d+"))")
	case OExtract:
		return e.name(t, "Int", e.seg(e.u(t.args[0]), uint(t.k), uint(t.w)))
	case OConcat:
		ms := []string{}
		sh := uint(t.w)
		for _, a := range t.args {
			sh -= uint(a.w)
			if sh == 0 {
				ms = append(ms, e.u(a))
			} else {
				ms = append(ms, "(* "+pow2s(sh)+" "+e.u(a)+")")
			}
		}
		return e.name(t, "Int", "(+ "+strings.Join(ms, " ")+")")
	case OBand:
		a, b := t.args[0], t.args[1]
		if a.op == OConst {
			a, b = b, a
		}
		if b.op != OConst || b.k == 0 {
			return e.opaque(t)
		}
		x := e.u(a)
		var ms []string
		for i := uint(0); i < 64; {
			if b.k>>i&1 == 0 {
				i++
				continue
			}
			j := i
			for j < 64 && b.k>>j&1 == 1 {
				j++
			}
			s := e.seg(x, i, j-i)
			if i > 0 {
				s = "(* " + pow2s(i) + " " + s + ")"
			}
			ms = append(ms, s)
			i = j
		}
		if len(ms) > 4 {
			return e.opaque(t)
		}
		if len(ms) == 1 {
			return e.name(t, "Int", ms[0])
		}
		return e.name(t, "Int", "(+ "+strings.Join(ms, " ")+")")
	case OBor, OBxor:
		a, b := t.args[0], t.args[1]
		for i := 0; i < 2; i++ {
			_, bh := c.bounds(b)
			z := c.trailZ(a)
			if z >= 64 || bh>>z == 0 {
				return e.name(t, "Int", "(+ "+e.u(a)+" "+e.u(b)+")")
			}
			a, b = b, a
		}
		r := e.opaque(t)
		x, y := e.u(a), e.u(b)
		if t.op == OBor {
			fmt.Fprintf(&e.b, "(assert (and (<= %s %s) (<= %s %s)))\n", x, r, y, r)
		}
		fmt.Fprintf(&e.b, "(assert (and (<= %s (+ %s %s)) (=> (= %s 0) (= %s %s)) (=> (= %s 0) (= %s %s))))\n", r, x, y, x, r, y, y, r, x)
		return r
	case OUdiv, OUrem:
		a, b := t.args[0], t.args[1]
		if b.op != OConst || b.k == 0 {
			return e.opaque(t)
		}
		op := "div"
		if t.op == OUrem {
			op = "mod"
		}
		return e.name(t, "Int", fmt.Sprintf("(%s %s %d)", op, e.u(a), b.k))
	case OLshr:
		if t.args[1].op != OConst || t.args[1].k >= uint64(t.w) {
			return e.opaque(t)
		}
		return e.name(t, "Int", "(div "+e.u(t.args[0])+" "+pow2s(uint(t.args[1].k))+")")
	case OMul:
		return e.opaque(t)
	}
	if t.w == 0 {
		return "(ite " + e.b_(t) + " 1 0)"
	}
	return e.opaque(t)
}

// s is the signed value.
func (e *liaEnc) s(t *Term) string {
	if t.op == OConst {
		return intLit(sx(t.k, t.w))
	}
	if t.op == OSum {
		lo, hi := e.c.poly(t)
		if e.c.inSigned(lo, hi, t.w) {
			return e.linear(t)
		}
	}
	_, h := e.c.bounds(t)
	x := e.u(t)
	if h < uint64(1)<<(t.w-1) {
		return x
	}
	return e.name(t, "Int", "(ite (< "+x+" "+pow2s(uint(t.w-1))+") "+x+" (- "+x+" "+pow2s(uint(t.w))+"))")
}

func (e *liaEnc) b_(t *Term) string {
	if e.bad {
		return "true"
	}
	if t.op == OConst {
		if t.k == 1 {
			return "true"
		}
		return "false"
	}
	if s, ok := e.memo[t]; ok {
		return s
	}
	var s string
	switch t.op {
	case ONot:
		s = "(not " + e.b_(t.args[0]) + ")"
	case OAnd:
		s = "(and " + e.b_(t.args[0]) + " " + e.b_(t.args[1]) + ")"
	case OOr:
		s = "(or " + e.b_(t.args[0]) + " " + e.b_(t.args[1]) + ")"
	case OIte:
		s = "(ite " + e.b_(t.args[0]) + " " + e.b_(t.args[1]) + " " + e.b_(t.args[2]) + ")"
	case OEq:
		if t.args[0].w == 0 {
			s = "(= " + e.b_(t.args[0]) + " " + e.b_(t.args[1]) + ")"
		} else {
			s = "(= " + e.u(t.args[0]) + " " + e.u(t.args[1]) + ")"
		}
	case OUlt:
		s = "(< " + e.u(t.args[0]) + " " + e.u(t.args[1]) + ")"
	case OSlt:
		s = "(< " + e.s(t.args[0]) + " " + e.s(t.args[1]) + ")"
	case OVar:
		n := "|" + t.name + "|"
		if !e.decl[t.name] {
			e.decl[t.name] = true
			e.vars = append(e.vars, t)
			fmt.Fprintf(&e.b, "(declare-const %s Bool)\n", n)
		}
		e.memo[t] = n
		return n
	default:
		e.bad = true
		return "true"
	}
	s = e.name(t, "Bool", s)
	e.memo[t] = s
	return s
}

// liaCheck decides conds by the integer encoding, if it applies.
func (s *Solver) liaCheck(conds []*Term, ms int) (SatResult, *Model) {
	c := s.c
	facts, learn, model := c.facts, c.learn, c.model
	defer func() {
		c.facts, c.learn = facts, learn
		c.gen++
		c.setModel(model)
	}()
	c.facts, c.learn = map[*Term]bool{}, map[*Term][2]uint64{}
	c.gen++
	for i := 0; i < 2; i++ {
		for _, t := range conds {
			c.assume(t)
		}
	}
	c.facts = map[*Term]bool{}
	e := &liaEnc{c: c, memo: map[*Term]string{}, decl: map[string]bool{}}
	var as []string
	for _, t := range conds {
		as = append(as, e.b_(t))
		if e.bad {
			return Unknown, nil
		}
	}
	l := s.lia
	if l == nil {
		l = NewSolver(c, s.timeout)
		s.lia = l
	}
	if l.cmd == nil {
		if err := l.start(); err != nil {
			return Unknown, nil
		}
	}
	var q strings.Builder
	fmt.Fprintf(&q, "(reset)\n(set-option :timeout %d)\n(set-option :model.completion true)\n", ms)
	q.WriteString(e.b.String())
	for _, a := range as {
		q.WriteString("(assert " + a + ")\n")
	}
	q.WriteString("(check-sat)\n")
	if s.Dump != nil {
		io.WriteString(s.Dump, q.String())
	}
	s.LiaTried++
	if _, err := io.WriteString(l.in, q.String()); err != nil {
		l.Close()
		return Unknown, nil
	}
	line, err := l.line()
	if err != nil {
		l.Close()
		return Unknown, nil
	}
	switch line {
	case "unsat":
		s.LiaSolved++
		return Unsat, nil
	case "sat":
	case "unknown", "timeout":
		return Unknown, nil
	default:
		fmt.Fprintln(s.errw(), "integer encoding: solver said:", line)
		l.Close()
		return Unknown, nil
	}
	var names []string
	for _, t := range e.vars {
		names = append(names, "|"+t.name+"|")
	}
	for i, t := range e.sels {
		names = append(names, e.memo[t], e.selI[i])
	}
	m := NewModel()
	var vals []uint64
	for i := 0; i < len(names); i += 200 {
		j := i + 200
		if j > len(names) {
			j = len(names)
		}
		if _, err := io.WriteString(l.in, "(get-value ("+strings.Join(names[i:j], " ")+"))\n"); err != nil {
			l.Close()
			return Unknown, nil
		}
		txt, err := l.sexp()
		if err != nil {
			l.Close()
			return Unknown, nil
		}
		vs, err := parseValues(txt)
		if err != nil || len(vs) != j-i {
			l.Close()
			return Unknown, nil
		}
		vals = append(vals, vs...)
	}
	for i, t := range e.vars {
		m.V[t.name] = vals[i]
	}
	o := len(e.vars)
	for i, t := range e.sels {
		v, ix := vals[o+2*i], vals[o+2*i+1]
		if m.A[t.name] == nil {
			m.A[t.name] = map[uint64]uint8{}
		}
		m.A[t.name][ix] = uint8(v)
	}
	// the model counts only if the original terms hold in it
	c.setModel(m)
	for _, t := range conds {
		if c.eval(t) != 1 {
			s.LiaBad++
			return Unknown, nil
		}
	}
	s.LiaSolved++
	return Sat, m
}
