package main

// Hash-consed bit-vector terms with an aggressive simplifier. Width 0 means
// boolean. Simplification may use facts learned on the current path (interval
// bounds and asserted atoms), so the *result* of a constructor is valid under
// the current path condition, while every node by itself is context free.

import (
	"fmt"
	"math/bits"
	"sort"
	"strings"
)

type Op uint8

const (
	OConst Op = iota
	OVar
	OSelect
	ONot
	OAnd
	OOr
	OEq
	OUlt
	OSlt
	OIte
	OSum
	OMul
	OUdiv
	OUrem
	OSdiv
	OSrem
	OBand
	OBor
	OBxor
	OShl
	OLshr
	OAshr
	OZext
	OSext
	OExtract
	OConcat
)

var opNames = map[Op]string{OConst: "const", OVar: "var", OSelect: "select", ONot: "not", OAnd: "and", OOr: "or", OEq: "=", OUlt: "bvult", OSlt: "bvslt", OIte: "ite", OSum: "sum", OMul: "bvmul", OUdiv: "bvudiv", OUrem: "bvurem", OSdiv: "bvsdiv", OSrem: "bvsrem", OBand: "bvand", OBor: "bvor", OBxor: "bvxor", OShl: "bvshl", OLshr: "bvlshr", OAshr: "bvashr", OZext: "zext", OSext: "sext", OExtract: "extract", OConcat: "concat"}

type Term struct {
	op    Op
	w     uint8
	k     uint64
	name  string
	args  []*Term
	coefs []uint64
	id    uint32
	vars  []uint64 // bitset of variable ids

	bgen     uint32
	blo, bhi uint64
	egen     uint32
	ev       uint64
	defd     uint32 // solver generation in which it has been defined
	hash     uint64
}

type Ctx struct {
	buckets map[uint64][]*Term
	nterms  uint32
	varIDs  map[string]int
	varsN   []string // variable names by id
	varTerm map[string]*Term
	arrays  map[string]bool

	// path-local
	gen   uint32
	learn map[*Term][2]uint64
	facts map[*Term]bool

	egen      uint32
	small     map[uint64]*Term
	True      *Term
	False     *Term
	model     *Model
	depthWarn int
}

// Model is a solver assignment, independent of any Ctx.
type Model struct {
	V map[string]uint64
	A map[string]map[uint64]uint8
}

func NewModel() *Model {
	return &Model{V: map[string]uint64{}, A: map[string]map[uint64]uint8{}}
}
func (m *Model) Clone() *Model {
	n := NewModel()
	for k, v := range m.V {
		n.V[k] = v
	}
	for k, a := range m.A {
		b := make(map[uint64]uint8, len(a))
		for i, v := range a {
			b[i] = v
		}
		n.A[k] = b
	}
	return n
}

func NewCtx() *Ctx {
	c := &Ctx{buckets: map[uint64][]*Term{}, varIDs: map[string]int{}, varTerm: map[string]*Term{}, arrays: map[string]bool{}, small: map[uint64]*Term{}}
	c.gen = 1
	c.egen = 1
	c.False = c.raw(&Term{op: OConst, w: 0, k: 0})
	c.True = c.raw(&Term{op: OConst, w: 0, k: 1})
	c.resetPath()
	return c
}

func (c *Ctx) resetPath() {
	c.learn = map[*Term][2]uint64{}
	c.facts = map[*Term]bool{}
	c.gen++
}

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

func sx(v uint64, w uint8) int64 {
	if w >= 64 {
		return int64(v)
	}
	if v&(1<<(w-1)) != 0 {
		return int64(v | ^mask(w))
	}
	return int64(v)
}

func hmix(h, v uint64) uint64 {
	h ^= v + 0x9e3779b97f4a7c15 + (h << 6) + (h >> 2)
	h *= 0xff51afd7ed558ccd
	return h ^ (h >> 33)
}

func (c *Ctx) raw(t *Term) *Term {
	h := hmix(uint64(t.op)<<8|uint64(t.w), t.k)
	for i := 0; i < len(t.name); i++ {
		h = hmix(h, uint64(t.name[i]))
	}
	for _, a := range t.args {
		h = hmix(h, a.hash)
	}
	for _, a := range t.coefs {
		h = hmix(h, a)
	}
	b := c.buckets[h]
outer:
	for _, u := range b {
		if u.op != t.op || u.w != t.w || u.k != t.k || u.name != t.name || len(u.args) != len(t.args) || len(u.coefs) != len(t.coefs) {
			continue
		}
		for i := range u.args {
			if u.args[i] != t.args[i] {
				continue outer
			}
		}
		for i := range u.coefs {
			if u.coefs[i] != t.coefs[i] {
				continue outer
			}
		}
		return u
	}
	c.nterms++
	t.id = c.nterms
	t.hash = h
	// variable set
	switch t.op {
	case OVar, OSelect:
		id, ok := c.varIDs[t.name]
		if !ok {
			id = len(c.varsN)
			c.varIDs[t.name] = id
			c.varsN = append(c.varsN, t.name)
		}
		vs := make([]uint64, id/64+1)
		vs[id/64] |= 1 << (id % 64)
		t.vars = vs
	}
	for _, a := range t.args {
		t.vars = unionVars(t.vars, a.vars)
	}
	c.buckets[h] = append(b, t)
	return t
}

// termLess is the order in which commutative operands are kept. It depends on
// the structure only, so that different workers build the same terms.
func termLess(a, b *Term) bool {
	if a.hash != b.hash {
		return a.hash < b.hash
	}
	return a.id < b.id
}

func unionVars(a, b []uint64) []uint64 {
	if len(b) == 0 {
		return a
	}
	if len(a) == 0 {
		return b
	}
	if &a[0] == &b[0] {
		return a
	}
	// b subset of a?
	sub := func(x, y []uint64) bool { // x subset of y
		for i, v := range x {
			var w uint64
			if i < len(y) {
				w = y[i]
			}
			if v&^w != 0 {
				return false
			}
		}
		return true
	}
	if sub(b, a) {
		return a
	}
	if sub(a, b) {
		return b
	}
	n := len(a)
	if len(b) > n {
		n = len(b)
	}
	r := make([]uint64, n)
	copy(r, a)
	for i, v := range b {
		r[i] |= v
	}
	return r
}

func varsIntersect(a, b []uint64) bool {
	n := len(a)
	if len(b) < n {
		n = len(b)
	}
	for i := 0; i < n; i++ {
		if a[i]&b[i] != 0 {
			return true
		}
	}
	return false
}

func (c *Ctx) Const(w uint8, k uint64) *Term {
	if w == 0 {
		if k != 0 {
			return c.True
		}
		return c.False
	}
	k &= mask(w)
	if k < 4096 {
		key := uint64(w)<<16 | k
		if t := c.small[key]; t != nil {
			return t
		}
		t := c.raw(&Term{op: OConst, w: w, k: k})
		c.small[key] = t
		return t
	}
	return c.raw(&Term{op: OConst, w: w, k: k})
}
func (c *Ctx) Bool(b bool) *Term {
	if b {
		return c.True
	}
	return c.False
}
func (c *Ctx) Var(name string, w uint8) *Term {
	t := c.raw(&Term{op: OVar, w: w, name: name})
	c.varTerm[name] = t
	return t
}
func (c *Ctx) Select(arr string, idx *Term) *Term {
	c.arrays[arr] = true
	return c.raw(&Term{op: OSelect, w: 8, name: arr, args: []*Term{idx}})
}

func (t *Term) IsConst() bool { return t.op == OConst }
func (t *Term) IsTrue() bool  { return t.op == OConst && t.w == 0 && t.k == 1 }
func (t *Term) IsFalse() bool { return t.op == OConst && t.w == 0 && t.k == 0 }

// ---------------------------------------------------------------- intervals

type i128 struct {
	hi int64
	lo uint64
}

func (a i128) add(b i128) i128 {
	lo, cr := bits.Add64(a.lo, b.lo, 0)
	return i128{a.hi + b.hi + int64(cr), lo}
}
func mulI(a int64, b uint64) i128 { // a signed times b unsigned
	neg := a < 0
	ua := uint64(a)
	if neg {
		ua = -ua
	}
	h, l := bits.Mul64(ua, b)
	r := i128{int64(h), l}
	if neg {
		r.lo = ^r.lo + 1
		r.hi = ^r.hi
		if r.lo == 0 {
			r.hi++
		}
	}
	return r
}
func i128of(v int64) i128 {
	if v < 0 {
		return i128{-1, uint64(v)}
	}
	return i128{0, uint64(v)}
}
func (a i128) less(b i128) bool {
	if a.hi != b.hi {
		return a.hi < b.hi
	}
	return a.lo < b.lo
}
func (a i128) neg() bool { return a.hi < 0 }

// poly returns the exact integer range of the sum read with signed
// coefficients over unsigned argument bounds.
func (c *Ctx) poly(t *Term) (lo, hi i128) {
	if t.op == OSum {
		lo = i128of(sx(t.k, t.w))
		hi = lo
		for i, a := range t.args {
			co := sx(t.coefs[i], t.w)
			al, ah := c.bounds(a)
			if mag := co ^ co>>63; bits.Len64(uint64(mag))+bits.Len64(ah) > 110 {
				return i128{-1 << 60, 0}, i128{1 << 60, 0}
			}
			x, y := mulI(co, al), mulI(co, ah)
			if co < 0 {
				x, y = y, x
			}
			lo = lo.add(x)
			hi = hi.add(y)
		}
		return
	}
	l, h := c.bounds(t)
	return i128{0, l}, i128{0, h}
}

func (c *Ctx) inUnsigned(lo, hi i128, w uint8) bool {
	return !lo.neg() && hi.hi == 0 && hi.lo <= mask(w) && !hi.neg()
}
func (c *Ctx) inSigned(lo, hi i128, w uint8) bool {
	min := i128of(-1 << (w - 1))
	max := i128of(int64(mask(w - 1)))
	return !lo.less(min) && !max.less(hi)
}

func (c *Ctx) bounds(t *Term) (uint64, uint64) {
	if t.op == OConst {
		return t.k, t.k
	}
	if t.bgen == c.gen {
		return t.blo, t.bhi
	}
	lo, hi := c.bounds0(t)
	if l, ok := c.learn[t]; ok {
		if l[0] > lo {
			lo = l[0]
		}
		if l[1] < hi {
			hi = l[1]
		}
		if lo > hi { // contradictory path; keep something sane
			lo, hi = l[0], l[0]
		}
	}
	t.bgen, t.blo, t.bhi = c.gen, lo, hi
	return lo, hi
}

func (c *Ctx) bounds0(t *Term) (uint64, uint64) {
	m := mask(t.w)
	if t.w == 0 {
		return 0, 1
	}
	switch t.op {
	case OSum:
		lo, hi := c.poly(t)
		if c.inUnsigned(lo, hi, t.w) {
			return lo.lo, hi.lo
		}
		// entirely one wrap away?
		if t.w < 64 {
			if lo.hi == hi.hi && (lo.hi == 0 || lo.hi == -1) {
				a, b := lo.lo>>t.w, hi.lo>>t.w
				if a == b {
					return lo.lo & m, hi.lo & m
				}
			}
		} else if lo.hi == hi.hi && lo.lo <= hi.lo {
			return lo.lo, hi.lo
		}
		return 0, m
	case OIte:
		al, ah := c.bounds(t.args[1])
		bl, bh := c.bounds(t.args[2])
		if g := t.args[0]; g.op == OUlt && g.args[1].op == OConst && g.args[0].w == t.w && g.args[1].k > 0 {
			// the guard x < k bounds branches of the form x - d
			x, k := g.args[0], g.args[1].k
			xl, xh := c.bounds(x)
			// x+e for x in [l,h], when that does not wrap
			shift := func(l, h uint64, e *Term) (uint64, uint64, bool) {
				if e.op != OConst || l > h || t.w > 62 && h > mask(62) {
					return 0, 0, false
				}
				d := sx(e.k, e.w)
				if d > 1<<62 || d < -(1<<62) || int64(l)+d < 0 || uint64(int64(h)+d) > m {
					return 0, 0, false
				}
				return uint64(int64(l) + d), uint64(int64(h) + d), true
			}
			clamp := func(lo, hi *uint64, l, h uint64, ok bool) {
				if ok && l <= h && l <= *hi && h >= *lo {
					if l > *lo {
						*lo = l
					}
					if h < *hi {
						*hi = h
					}
				}
			}
			hi := k - 1
			if xh < hi {
				hi = xh
			}
			l, h, ok := shift(xl, hi, c.Sub(t.args[1], x))
			clamp(&al, &ah, l, h, ok)
			lo := k
			if xl > lo {
				lo = xl
			}
			l, h, ok = shift(lo, xh, c.Sub(t.args[2], x))
			clamp(&bl, &bh, l, h, ok)
		}
		if bl < al {
			al = bl
		}
		if bh > ah {
			ah = bh
		}
		return al, ah
	case OZext:
		return c.bounds(t.args[0])
	case OExtract:
		a := t.args[0]
		al, ah := c.bounds(a)
		lo := t.k
		if int(lo)+int(t.w) >= int(a.w) || ah>>(lo+uint64(t.w)) == al>>(lo+uint64(t.w)) {
			return (al >> lo) & m, (ah >> lo) & m
		}
		return 0, m
	case OConcat:
		var lo, hi uint64
		for _, a := range t.args {
			al, ah := c.bounds(a)
			lo = lo<<a.w | al
			hi = hi<<a.w | ah
		}
		return lo, hi
	case OBand:
		_, ah := c.bounds(t.args[0])
		_, bh := c.bounds(t.args[1])
		if bh < ah {
			ah = bh
		}
		return 0, ah
	case OBor, OBxor:
		al, ah := c.bounds(t.args[0])
		bl, bh := c.bounds(t.args[1])
		n := bits.Len64(ah | bh)
		lo := uint64(0)
		if t.op == OBor {
			lo = al
			if bl > lo {
				lo = bl
			}
		}
		if n == 0 {
			return 0, 0
		}
		return lo, mask(uint8(n))
	case OUdiv:
		al, ah := c.bounds(t.args[0])
		bl, bh := c.bounds(t.args[1])
		if bl > 0 {
			return al / bh, ah / bl
		}
		return 0, m
	case OUrem:
		_, ah := c.bounds(t.args[0])
		bl, bh := c.bounds(t.args[1])
		if bl > 0 {
			if ah < bh-1 {
				return 0, ah
			}
			return 0, bh - 1
		}
		return 0, m
	case OLshr:
		_, ah := c.bounds(t.args[0])
		return 0, ah
	case OMul:
		al, ah := c.bounds(t.args[0])
		bl, bh := c.bounds(t.args[1])
		h, l := bits.Mul64(ah, bh)
		if h == 0 && l <= m {
			return al * bl, l
		}
		return 0, m
	}
	return 0, m
}

// signed bounds
func (c *Ctx) sbounds(t *Term) (int64, int64) {
	if t.op == OConst {
		v := sx(t.k, t.w)
		return v, v
	}
	if t.op == OSum {
		lo, hi := c.poly(t)
		if c.inSigned(lo, hi, t.w) {
			return int64(lo.lo), int64(hi.lo)
		}
	}
	if t.op == OIte {
		al, ah := c.sbounds(t.args[1])
		bl, bh := c.sbounds(t.args[2])
		if bl < al {
			al = bl
		}
		if bh > ah {
			ah = bh
		}
		return al, ah
	}
	if t.op == OSext {
		return c.sbounds(t.args[0])
	}
	l, h := c.bounds(t)
	half := uint64(1) << (t.w - 1)
	if h < half {
		return int64(l), int64(h)
	}
	if l >= half {
		return sx(l, t.w), sx(h, t.w)
	}
	return -int64(half-1) - 1, int64(half - 1)
}

// ---------------------------------------------------------------- arithmetic

func (c *Ctx) norm(t *Term) *Term {
	if t.op == OConst {
		return t
	}
	if t.w == 0 {
		if v, ok := c.facts[t]; ok {
			return c.Bool(v)
		}
		return t
	}
	if l, h := c.bounds(t); l == h {
		return c.Const(t.w, l)
	}
	return t
}

type linacc struct {
	w    uint8
	k    uint64
	args []*Term
	co   []uint64
	idx  map[*Term]int // of args, once there are many
}

func (l *linacc) addTerm(t *Term, co uint64) {
	if l.idx != nil {
		if i, ok := l.idx[t]; ok {
			l.co[i] += co
			return
		}
		l.idx[t] = len(l.args)
	} else {
		for i, a := range l.args {
			if a == t {
				l.co[i] += co
				return
			}
		}
		if len(l.args) > 32 {
			l.idx = make(map[*Term]int, 4*len(l.args))
			for i, a := range l.args {
				l.idx[a] = i
			}
			l.idx[t] = len(l.args)
		}
	}
	l.args = append(l.args, t)
	l.co = append(l.co, co)
}
func (l *linacc) add(c *Ctx, t *Term, co uint64) {
	switch t.op {
	case OConst:
		l.k += t.k * co
	case OSum:
		l.k += t.k * co
		for i, a := range t.args {
			l.add(c, a, t.coefs[i]*co)
		}
	case OZext:
		// (x >> lo) << lo  ==>  x - (x & mask)
		in := t.args[0]
		if in.op == OExtract && in.k > 0 && in.k < 64 && co&mask(uint8(in.k)) == 0 {
			b := in.args[0]
			if b.w == t.w && int(in.k)+int(in.w) == int(b.w) {
				lw := c.Zext(c.Extract(b, int(in.k)-1, 0), b.w)
				s := co >> in.k
				l.add(c, b, s)
				l.add(c, lw, -s)
				return
			}
		}
		l.addTerm(t, co)
	case OExtract:
		// full-width upper extract at its own width cannot occur with k==0
		l.addTerm(t, co)
	default:
		l.addTerm(t, co)
	}
}
func (l *linacc) done(c *Ctx) *Term {
	m := mask(l.w)
	l.k &= m
	n := 0
	for i, a := range l.args {
		co := l.co[i] & m
		if co != 0 {
			l.args[n], l.co[n] = a, co
			n++
		}
	}
	l.args, l.co = l.args[:n], l.co[:n]
	if n == 0 {
		return c.Const(l.w, l.k)
	}
	if n == 1 && l.co[0] == 1 && l.k == 0 {
		return l.args[0]
	}
	sort.Sort((*linSort)(l))
	return c.raw(&Term{op: OSum, w: l.w, k: l.k, args: l.args, coefs: l.co})
}

type linSort linacc

func (s *linSort) Len() int           { return len(s.args) }
func (s *linSort) Less(i, j int) bool { return termLess(s.args[i], s.args[j]) }
func (s *linSort) Swap(i, j int) {
	s.args[i], s.args[j] = s.args[j], s.args[i]
	s.co[i], s.co[j] = s.co[j], s.co[i]
}

func (c *Ctx) Add(a, b *Term) *Term {
	if a.op == OConst && b.op == OConst {
		return c.Const(a.w, a.k+b.k)
	}
	if a.op == OConst && a.k == 0 {
		return b
	}
	if b.op == OConst && b.k == 0 {
		return a
	}
	l := linacc{w: a.w}
	l.add(c, a, 1)
	l.add(c, b, 1)
	return l.done(c)
}
func (c *Ctx) Sub(a, b *Term) *Term {
	if a.op == OConst && b.op == OConst {
		return c.Const(a.w, a.k-b.k)
	}
	if b.op == OConst && b.k == 0 {
		return a
	}
	l := linacc{w: a.w}
	l.add(c, a, 1)
	l.add(c, b, ^uint64(0))
	return l.done(c)
}
func (c *Ctx) AddK(a *Term, k uint64) *Term { return c.Add(a, c.Const(a.w, k)) }
func (c *Ctx) Scale(a *Term, k uint64) *Term {
	if a.op == OConst {
		return c.Const(a.w, a.k*k)
	}
	l := linacc{w: a.w}
	l.add(c, a, k)
	return l.done(c)
}
func (c *Ctx) Neg(a *Term) *Term { return c.Scale(a, ^uint64(0)) }
func (c *Ctx) Mul(a, b *Term) *Term {
	if a.op == OConst {
		return c.Scale(b, a.k)
	}
	if b.op == OConst {
		return c.Scale(a, b.k)
	}
	if termLess(b, a) {
		a, b = b, a
	}
	return c.raw(&Term{op: OMul, w: a.w, args: []*Term{a, b}})
}

func isPow2(k uint64) bool { return k != 0 && k&(k-1) == 0 }

func (c *Ctx) Udiv(a, b *Term) *Term {
	if b.op == OConst && b.k != 0 {
		if a.op == OConst {
			return c.Const(a.w, a.k/b.k)
		}
		if q, r, ok := c.divSplit(a, b.k); ok {
			return c.Add(q, c.Udiv(r, b))
		}
		if isPow2(b.k) {
			return c.LshrK(a, uint(bits.TrailingZeros64(b.k)))
		}
		l, h := c.bounds(a)
		if l/b.k == h/b.k {
			return c.Const(a.w, l/b.k)
		}
		if q := l / b.k; h/b.k == q+1 {
			return c.Ite(c.Ult(a, c.Const(a.w, (q+1)*b.k)), c.Const(a.w, q), c.Const(a.w, q+1))
		}
	}
	return c.raw(&Term{op: OUdiv, w: a.w, args: []*Term{a, b}})
}
// divSplit writes a sum that does not wrap as k*q + r with r not negative.
func (c *Ctx) divSplit(a *Term, k uint64) (q, r *Term, ok bool) {
	if a.op != OSum || k < 2 || k > 1<<40 {
		return
	}
	lo, hi := c.poly(a)
	if !c.inUnsigned(lo, hi, a.w) {
		return
	}
	sk := sx(a.k, a.w)
	kq := sk / int64(k)
	kr := sk % int64(k)
	if kr < 0 {
		kr += int64(k)
		kq--
	}
	lq, lr := linacc{w: a.w, k: uint64(kq)}, linacc{w: a.w, k: uint64(kr)}
	n := 0
	qlo, qhi := i128of(kq), i128of(kq)
	rlo, rhi := i128of(kr), i128of(kr)
	acc := func(lo, hi *i128, co int64, x *Term) bool {
		l, h := c.bounds(x)
		mag := co ^ co>>63
		if bits.Len64(uint64(mag))+bits.Len64(h) > 110 {
			return false
		}
		p, q := mulI(co, l), mulI(co, h)
		if co < 0 {
			p, q = q, p
		}
		*lo, *hi = lo.add(p), hi.add(q)
		return true
	}
	for i, x := range a.args {
		co := sx(a.coefs[i], a.w)
		if co%int64(k) == 0 {
			if !acc(&qlo, &qhi, co/int64(k), x) {
				return
			}
			lq.add(c, x, uint64(co/int64(k)))
			n++
		} else {
			if !acc(&rlo, &rhi, co, x) {
				return
			}
			lr.add(c, x, uint64(co))
		}
	}
	if n == 0 && kq == 0 {
		return
	}
	// neither part may wrap: then a = k*q + r over the integers
	if !c.inUnsigned(qlo, qhi, a.w) || !c.inUnsigned(rlo, rhi, a.w) {
		return
	}
	return lq.done(c), lr.done(c), true
}
func (c *Ctx) Urem(a, b *Term) *Term {
	if b.op == OConst && b.k != 0 {
		if a.op == OConst {
			return c.Const(a.w, a.k%b.k)
		}
		if _, r, ok := c.divSplit(a, b.k); ok {
			return c.Urem(r, b)
		}
		if isPow2(b.k) {
			return c.Band(a, c.Const(a.w, b.k-1))
		}
		l, h := c.bounds(a)
		if l/b.k == h/b.k {
			return c.Sub(a, c.Const(a.w, l/b.k*b.k))
		}
		if h/b.k == l/b.k+1 {
			q := l / b.k
			return c.Ite(c.Ult(a, c.Const(a.w, (q+1)*b.k)), c.Sub(a, c.Const(a.w, q*b.k)), c.Sub(a, c.Const(a.w, (q+1)*b.k)))
		}
	}
	return c.raw(&Term{op: OUrem, w: a.w, args: []*Term{a, b}})
}
func (c *Ctx) nonneg(a *Term) bool {
	l, _ := c.sbounds(a)
	return l >= 0
}
func (c *Ctx) Sdiv(a, b *Term) *Term {
	if a.op == OConst && b.op == OConst && b.k != 0 {
		x, y := sx(a.k, a.w), sx(b.k, b.w)
		if y == -1 {
			return c.Const(a.w, uint64(-x))
		}
		return c.Const(a.w, uint64(x/y))
	}
	if c.nonneg(a) && c.nonneg(b) {
		return c.Udiv(a, b)
	}
	return c.raw(&Term{op: OSdiv, w: a.w, args: []*Term{a, b}})
}
func (c *Ctx) Srem(a, b *Term) *Term {
	if a.op == OConst && b.op == OConst && b.k != 0 {
		x, y := sx(a.k, a.w), sx(b.k, b.w)
		if y == -1 {
			return c.Const(a.w, 0)
		}
		return c.Const(a.w, uint64(x%y))
	}
	if c.nonneg(a) && c.nonneg(b) {
		return c.Urem(a, b)
	}
	return c.raw(&Term{op: OSrem, w: a.w, args: []*Term{a, b}})
}

// ---------------------------------------------------------------- bits

func (c *Ctx) LshrK(a *Term, s uint) *Term {
	if s == 0 {
		return a
	}
	if s >= uint(a.w) {
		return c.Const(a.w, 0)
	}
	if a.op == OConst {
		return c.Const(a.w, a.k>>s)
	}
	if q, r, ok := c.divSplit(a, 1<<s); ok {
		return c.Add(q, c.LshrK(r, s))
	}
	return c.Zext(c.Extract(a, int(a.w)-1, int(s)), a.w)
}
func (c *Ctx) ShlK(a *Term, s uint) *Term {
	if s >= uint(a.w) {
		return c.Const(a.w, 0)
	}
	return c.Scale(a, 1<<s)
}
func (c *Ctx) Shl(a, b *Term) *Term {
	if b.op == OConst {
		if b.k > 64 {
			return c.Const(a.w, 0)
		}
		return c.ShlK(a, uint(b.k))
	}
	return c.raw(&Term{op: OShl, w: a.w, args: []*Term{a, b}})
}
func (c *Ctx) Lshr(a, b *Term) *Term {
	if b.op == OConst {
		if b.k > 64 {
			return c.Const(a.w, 0)
		}
		return c.LshrK(a, uint(b.k))
	}
	return c.raw(&Term{op: OLshr, w: a.w, args: []*Term{a, b}})
}
func (c *Ctx) Ashr(a, b *Term) *Term {
	if c.nonneg(a) {
		return c.Lshr(a, b)
	}
	if a.op == OConst && b.op == OConst {
		s := b.k
		if s > 63 {
			s = 63
		}
		return c.Const(a.w, uint64(sx(a.k, a.w)>>s))
	}
	return c.raw(&Term{op: OAshr, w: a.w, args: []*Term{a, b}})
}

func (c *Ctx) Zext(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.w > w {
		panic("zext narrower")
	}
	switch a.op {
	case OConst:
		return c.Const(w, a.k)
	case OZext:
		return c.Zext(a.args[0], w)
	case OSum:
		lo, hi := c.poly(a)
		if c.inUnsigned(lo, hi, a.w) {
			l := linacc{w: w, k: uint64(sx(a.k, a.w))}
			for i, x := range a.args {
				l.add(c, c.Zext(x, w), uint64(sx(a.coefs[i], a.w)))
			}
			return l.done(c)
		}
	case OExtract:
		if a.k == 0 && a.args[0].w <= w {
			_, h := c.bounds(a.args[0])
			if h <= mask(a.w) {
				return c.Zext(a.args[0], w)
			}
		}
		if lo, hi := c.bounds(a); lo == hi {
			return c.Const(w, lo)
		}
	case OIte:
		if a.args[1].op == OConst || a.args[2].op == OConst {
			return c.Ite(a.args[0], c.Zext(a.args[1], w), c.Zext(a.args[2], w))
		}
	}
	return c.raw(&Term{op: OZext, w: w, args: []*Term{a}})
}
func (c *Ctx) Sext(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.op == OConst {
		return c.Const(w, uint64(sx(a.k, a.w)))
	}
	if a.op == OZext {
		return c.Zext(a.args[0], w)
	}
	if c.nonneg(a) {
		return c.Zext(a, w)
	}
	return c.raw(&Term{op: OSext, w: w, args: []*Term{a}})
}
func (c *Ctx) Trunc(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	return c.Extract(a, int(w)-1, 0)
}

// Extract bits hi..lo inclusive.
func (c *Ctx) Extract(a *Term, hi, lo int) *Term {
	w := uint8(hi - lo + 1)
	if lo == 0 && w == a.w {
		return a
	}
	switch a.op {
	case OConst:
		return c.Const(w, a.k>>uint(lo))
	case OExtract:
		return c.Extract(a.args[0], hi+int(a.k), lo+int(a.k))
	case OZext:
		in := a.args[0]
		iw := int(in.w)
		if hi < iw {
			return c.Extract(in, hi, lo)
		}
		if lo >= iw {
			return c.Const(w, 0)
		}
		return c.Zext(c.Extract(in, iw-1, lo), w)
	case OSext:
		in := a.args[0]
		if hi < int(in.w) {
			return c.Extract(in, hi, lo)
		}
	case OConcat:
		// collect pieces
		pos := 0
		var out []*Term
		for i := len(a.args) - 1; i >= 0; i-- {
			x := a.args[i]
			pl, ph := pos, pos+int(x.w)-1
			pos += int(x.w)
			if ph < lo || pl > hi {
				continue
			}
			s, e := lo-pl, hi-pl
			if s < 0 {
				s = 0
			}
			if e > int(x.w)-1 {
				e = int(x.w) - 1
			}
			out = append([]*Term{c.Extract(x, e, s)}, out...)
		}
		return c.Concat(out...)
	case OSum:
		if b, n, sh, ok := c.hiView(a); ok {
			p := n + sh
			switch {
			case hi < p:
				return c.Const(w, 0)
			case lo >= p:
				return c.Extract(b, hi-sh, lo-sh)
			default:
				return c.Concat(c.Extract(b, hi-sh, n), c.Const(uint8(p-lo), 0))
			}
		}
		if lo == 0 {
			l := linacc{w: w, k: a.k}
			for i, x := range a.args {
				if a.coefs[i]&mask(w) == 0 {
					continue
				}
				l.add(c, c.Extract(x, hi, 0), a.coefs[i])
			}
			return l.done(c)
		}
		if len(a.args) == 1 && a.k == 0 && isPow2(a.coefs[0]) {
			s := bits.TrailingZeros64(a.coefs[0])
			if lo >= s {
				return c.Extract(a.args[0], hi-s, lo-s)
			}
			if hi < s {
				return c.Const(w, 0)
			}
		}
		// a common power-of-two factor is a shift
		if sh := c.sumShift(a); sh > 0 {
			if hi < sh {
				return c.Const(w, 0)
			}
			nw := int(a.w) - sh
			l := linacc{w: uint8(nw), k: a.k >> uint(sh)}
			for i, x := range a.args {
				l.add(c, c.Extract(x, nw-1, 0), a.coefs[i]>>uint(sh))
			}
			u := l.done(c)
			if lo >= sh {
				return c.Extract(u, hi-sh, lo-sh)
			}
			return c.Concat(c.Extract(u, hi-sh, 0), c.Const(uint8(sh-lo), 0))
		}
	case OIte:
		return c.Ite(a.args[0], c.Extract(a.args[1], hi, lo), c.Extract(a.args[2], hi, lo))
	case OBand, OBor, OBxor:
		x, y := c.Extract(a.args[0], hi, lo), c.Extract(a.args[1], hi, lo)
		switch a.op {
		case OBand:
			return c.Band(x, y)
		case OBor:
			return c.Bor(x, y)
		default:
			return c.Bxor(x, y)
		}
	}
	if l, h := c.bounds(a); l>>uint(lo) == h>>uint(lo) {
		return c.Const(w, l>>uint(lo))
	}
	return c.raw(&Term{op: OExtract, w: w, k: uint64(lo), args: []*Term{a}})
}

// Concat, most significant first.
func (c *Ctx) Concat(in ...*Term) *Term {
	var out []*Term
	total := 0
	var push func(t *Term)
	push = func(t *Term) {
		if t.op == OConcat {
			for _, x := range t.args {
				push(x)
			}
			return
		}
		if t.op == OZext {
			push(c.Const(t.w-t.args[0].w, 0))
			push(t.args[0])
			return
		}
		if n := len(out); n > 0 {
			p := out[n-1]
			if p.op == OConst && t.op == OConst {
				out[n-1] = c.Const(p.w+t.w, p.k<<t.w|t.k)
				return
			}
			if m := c.mergeAdj(p, t); m != nil {
				out[n-1] = m
				return
			}
		}
		out = append(out, t)
	}
	for _, t := range in {
		total += int(t.w)
		push(t)
	}
	if total > 64 {
		panic("concat too wide")
	}
	if len(out) == 1 {
		return out[0]
	}
	if out[0].op == OConst && out[0].k == 0 {
		return c.Zext(c.Concat(out[1:]...), uint8(total))
	}
	return c.raw(&Term{op: OConcat, w: uint8(total), args: append([]*Term(nil), out...)})
}

// low-part view: t as extract of base
func extractView(t *Term) (base *Term, lo int) {
	if t.op == OExtract {
		return t.args[0], int(t.k)
	}
	return t, 0
}
func (c *Ctx) mergeAdj(hi, lo *Term) *Term {
	hb, hl := extractView(hi)
	lb, ll := extractView(lo)
	if hi.op == OExtract && hb == lb && hl == ll+int(lo.w) {
		return c.Extract(hb, hl+int(hi.w)-1, ll)
	}
	// low piece was rewritten as a truncated sum or other simplification of the
	// same base: recompute the extract of the base and compare
	if hi.op == OExtract && hl == int(lo.w) && lo.op != OConst {
		if c.Extract(hb, hl-1, 0) == lo {
			return c.Extract(hb, hl+int(hi.w)-1, 0)
		}
	}
	// an extract that was pushed into both branches
	if hi.op == OIte && lo.op == OIte && hi.args[0] == lo.args[0] {
		m := func(i int) *Term {
			h, l := hi.args[i], lo.args[i]
			if h.op == OConst && l.op == OConst {
				return c.Const(h.w+l.w, h.k<<l.w|l.k)
			}
			return c.mergeAdj(h, l)
		}
		if a := m(1); a != nil {
			if b := m(2); b != nil {
				return c.Ite(hi.args[0], a, b)
			}
		}
	}
	return nil
}

type piece struct {
	lo int
	t  *Term
}

func (c *Ctx) pieces(t *Term) []piece {
	switch t.op {
	case OConst:
		if t.k == 0 {
			return nil
		}
		lo := bits.TrailingZeros64(t.k)
		hi := bits.Len64(t.k)
		return []piece{{lo, c.Const(uint8(hi-lo), t.k>>uint(lo))}}
	case OZext:
		return c.pieces(t.args[0])
	case OConcat:
		var r []piece
		pos := 0
		for i := len(t.args) - 1; i >= 0; i-- {
			for _, p := range c.pieces(t.args[i]) {
				r = append(r, piece{p.lo + pos, p.t})
			}
			pos += int(t.args[i].w)
		}
		return r
	case OSum:
		if len(t.args) == 1 && t.k == 0 && isPow2(t.coefs[0]) {
			s := bits.TrailingZeros64(t.coefs[0])
			var r []piece
			for _, p := range c.pieces(t.args[0]) {
				if p.lo+s >= int(t.w) {
					continue
				}
				if p.lo+s+int(p.t.w) > int(t.w) {
					p.t = c.Extract(p.t, int(t.w)-p.lo-s-1, 0)
				}
				r = append(r, piece{p.lo + s, p.t})
			}
			return r
		}
		if b, n, sh, ok := c.hiView(t); ok {
			if n+sh >= int(t.w) {
				return nil
			}
			return []piece{{n + sh, c.Extract(b, int(t.w)-sh-1, n)}}
		}
		if s := c.sumShift(t); s > 0 {
			var r []piece
			for _, p := range c.pieces(c.Extract(t, int(t.w)-1, s)) {
				r = append(r, piece{p.lo + s, p.t})
			}
			return r
		}
	}
	if _, h := c.bounds(t); h < mask(t.w) {
		n := bits.Len64(h)
		if n == 0 {
			return nil
		}
		if n < int(t.w) {
			return []piece{{0, c.Extract(t, n-1, 0)}}
		}
	}
	return []piece{{0, t}}
}

// sumShift is the number of low bits that are zero because every coefficient
// is a multiple of a power of two.
func (c *Ctx) sumShift(t *Term) int {
	m := t.k
	for _, co := range t.coefs {
		m |= co
	}
	s := bits.TrailingZeros64(m)
	if s >= int(t.w) {
		return 0
	}
	return s
}

// hiView recognises ((b >> n) << n) << sh written as a difference.
func (c *Ctx) hiView(t *Term) (b *Term, n, sh int, ok bool) {
	if t.op != OSum || t.k != 0 || len(t.args) != 2 {
		return
	}
	for i := 0; i < 2; i++ {
		x, y := t.args[i], t.args[1-i]
		cx, cy := t.coefs[i], t.coefs[1-i]
		if !isPow2(cx) || (cx+cy)&mask(t.w) != 0 || y.op != OZext {
			continue
		}
		in := y.args[0]
		if int(in.w) < int(x.w) && c.Extract(x, int(in.w)-1, 0) == in {
			return x, int(in.w), bits.TrailingZeros64(cx), true
		}
	}
	return
}

func (c *Ctx) fromPieces(ps []piece, w uint8) *Term {
	sort.Slice(ps, func(i, j int) bool { return ps[i].lo < ps[j].lo })
	var args []*Term // lsb first
	pos := 0
	for _, p := range ps {
		if p.lo < pos {
			return nil
		}
		if p.lo > pos {
			args = append(args, c.Const(uint8(p.lo-pos), 0))
		}
		args = append(args, p.t)
		pos = p.lo + int(p.t.w)
	}
	if pos < int(w) {
		args = append(args, c.Const(w-uint8(pos), 0))
	}
	if pos > int(w) {
		return nil
	}
	for i, j := 0, len(args)-1; i < j; i, j = i+1, j-1 {
		args[i], args[j] = args[j], args[i]
	}
	return c.Concat(args...)
}

func (c *Ctx) Band(a, b *Term) *Term {
	if a.w == 0 {
		return c.And(a, b)
	}
	if a.op == OConst {
		a, b = b, a
	}
	if a == b {
		return a
	}
	if b.op == OConst {
		k := b.k
		m := mask(a.w)
		if a.op == OConst {
			return c.Const(a.w, a.k&k)
		}
		if k == 0 {
			return b
		}
		if k == m {
			return a
		}
		// low mask
		if k&(k+1) == 0 {
			n := bits.Len64(k)
			l, h := c.bounds(a)
			if l>>uint(n) == h>>uint(n) {
				return c.Sub(a, c.Const(a.w, l>>uint(n)<<uint(n)))
			}
			return c.Zext(c.Extract(a, n-1, 0), a.w)
		}
		// high mask
		nk := ^k & m
		if nk&(nk+1) == 0 {
			return c.Sub(a, c.Band(a, c.Const(a.w, nk)))
		}
		// contiguous
		tz := uint(bits.TrailingZeros64(k))
		kk := k >> tz
		if kk&(kk+1) == 0 {
			n := bits.Len64(kk)
			return c.ShlK(c.Zext(c.Extract(a, int(tz)+n-1, int(tz)), a.w), tz)
		}
		if a.op == OIte && (a.args[1].op == OConst || a.args[2].op == OConst) {
			return c.Ite(a.args[0], c.Band(a.args[1], b), c.Band(a.args[2], b))
		}
		// disjoint pieces and constant
		return c.raw(&Term{op: OBand, w: a.w, args: []*Term{a, b}})
	}
	if termLess(b, a) {
		a, b = b, a
	}
	return c.raw(&Term{op: OBand, w: a.w, args: []*Term{a, b}})
}
func (c *Ctx) Bor(a, b *Term) *Term {
	if a.w == 0 {
		return c.Or(a, b)
	}
	if a.op == OConst {
		a, b = b, a
	}
	if a == b {
		return a
	}
	if b.op == OConst {
		if a.op == OConst {
			return c.Const(a.w, a.k|b.k)
		}
		if b.k == 0 {
			return a
		}
		if b.k == mask(a.w) {
			return b
		}
	}
	ps := append(append([]piece(nil), c.pieces(a)...), c.pieces(b)...)
	if t := c.fromPieces(ps, a.w); t != nil {
		return t
	}
	if termLess(b, a) {
		a, b = b, a
	}
	return c.raw(&Term{op: OBor, w: a.w, args: []*Term{a, b}})
}
func (c *Ctx) Bxor(a, b *Term) *Term {
	if a.w == 0 {
		return c.Not(c.Eq(a, b))
	}
	if a.op == OConst {
		a, b = b, a
	}
	if a == b {
		return c.Const(a.w, 0)
	}
	if b.op == OConst {
		if a.op == OConst {
			return c.Const(a.w, a.k^b.k)
		}
		if b.k == 0 {
			return a
		}
		if b.k == mask(a.w) {
			return c.Sub(b, a)
		}
	}
	if termLess(b, a) {
		a, b = b, a
	}
	return c.raw(&Term{op: OBxor, w: a.w, args: []*Term{a, b}})
}

// ---------------------------------------------------------------- booleans

func (c *Ctx) Not(a *Term) *Term {
	if a.op == OConst {
		return c.Bool(a.k == 0)
	}
	if a.op == ONot {
		return a.args[0]
	}
	return c.raw(&Term{op: ONot, w: 0, args: []*Term{a}})
}
func (c *Ctx) known(a *Term) *Term {
	if a.op == OConst {
		return a
	}
	if v, ok := c.facts[a]; ok {
		return c.Bool(v)
	}
	if a.op == ONot {
		if v, ok := c.facts[a.args[0]]; ok {
			return c.Bool(!v)
		}
	}
	return a
}
func (c *Ctx) And(a, b *Term) *Term {
	a, b = c.known(a), c.known(b)
	if a.op == OConst {
		if a.k == 0 {
			return a
		}
		return b
	}
	if b.op == OConst {
		if b.k == 0 {
			return b
		}
		return a
	}
	if a == b {
		return a
	}
	if c.Not(a) == b {
		return c.False
	}
	if a.op == OAnd && (a.args[0] == b || a.args[1] == b) {
		return a
	}
	if b.op == OAnd && (b.args[0] == a || b.args[1] == a) {
		return b
	}
	if termLess(b, a) {
		a, b = b, a
	}
	return c.raw(&Term{op: OAnd, w: 0, args: []*Term{a, b}})
}
func (c *Ctx) Or(a, b *Term) *Term {
	a, b = c.known(a), c.known(b)
	if a.op == OConst {
		if a.k == 1 {
			return a
		}
		return b
	}
	if b.op == OConst {
		if b.k == 1 {
			return b
		}
		return a
	}
	if a == b {
		return a
	}
	if c.Not(a) == b {
		return c.True
	}
	if a.op == OOr && (a.args[0] == b || a.args[1] == b) {
		return a
	}
	if b.op == OOr && (b.args[0] == a || b.args[1] == a) {
		return b
	}
	if termLess(b, a) {
		a, b = b, a
	}
	return c.raw(&Term{op: OOr, w: 0, args: []*Term{a, b}})
}
func (c *Ctx) Ite(cond, a, b *Term) *Term {
	cond = c.known(cond)
	if cond.op == OConst {
		if cond.k == 1 {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	if cond.op == ONot {
		cond, a, b = cond.args[0], b, a
	}
	if a.w == 0 {
		if a.op == OConst {
			if a.k == 1 {
				return c.Or(cond, b)
			}
			return c.And(c.Not(cond), b)
		}
		if b.op == OConst {
			if b.k == 1 {
				return c.Or(c.Not(cond), a)
			}
			return c.And(cond, a)
		}
	}
	if a.op == OIte && a.args[0] == cond {
		a = a.args[1]
	}
	if b.op == OIte && b.args[0] == cond {
		b = b.args[2]
	}
	if a == b {
		return a
	}
	if b.op == OIte && b.args[1] == a {
		// ite(c, a, ite(d, a, e)) = ite(c|d, a, e)
		return c.Ite(c.Or(cond, b.args[0]), a, b.args[2])
	}
	return c.raw(&Term{op: OIte, w: a.w, args: []*Term{cond, a, b}})
}

func (c *Ctx) Eq(a, b *Term) *Term {
	if a == b {
		return c.True
	}
	if a.w != b.w {
		panic(fmt.Sprintf("eq width %d %d", a.w, b.w))
	}
	if a.op == OConst {
		a, b = b, a
	}
	if a.op == OConst {
		return c.Bool(a.k == b.k)
	}
	if a.w == 0 {
		if b.op == OConst {
			if b.k == 1 {
				return c.known(a)
			}
			return c.Not(c.known(a))
		}
		if c.Not(a) == b {
			return c.False
		}
		if termLess(b, a) {
			a, b = b, a
		}
		return c.known(c.raw(&Term{op: OEq, w: 0, args: []*Term{a, b}}))
	}
	al, ah := c.bounds(a)
	bl, bh := c.bounds(b)
	if ah < bl || bh < al {
		return c.False
	}
	if al == ah && bl == bh {
		return c.Bool(al == bl)
	}
	if a.op == OZext && b.op == OZext && a.args[0].w == b.args[0].w {
		return c.Eq(a.args[0], b.args[0])
	}
	if b.op == OConst {
		switch a.op {
		case OZext:
			in := a.args[0]
			if b.k > mask(in.w) {
				return c.False
			}
			return c.Eq(in, c.Const(in.w, b.k))
		case OConcat:
			r := c.True
			pos := int(a.w)
			for _, x := range a.args {
				pos -= int(x.w)
				r = c.And(r, c.Eq(x, c.Const(x.w, b.k>>uint(pos))))
			}
			return r
		case OIte:
			if a.args[1].op == OConst || a.args[2].op == OConst {
				return c.Ite(a.args[0], c.Eq(a.args[1], b), c.Eq(a.args[2], b))
			}
		}
	}
	if a.op == OConcat && b.op == OConcat && len(a.args) == len(b.args) {
		same := true
		for i := range a.args {
			if a.args[i].w != b.args[i].w {
				same = false
			}
		}
		if same {
			r := c.True
			for i := range a.args {
				r = c.And(r, c.Eq(a.args[i], b.args[i]))
			}
			return r
		}
	}
	if a.op == OSum || b.op == OSum || true {
		d := c.Sub(a, b)
		if d.op == OConst {
			return c.Bool(d.k == 0)
		}
		if d.op == OSum {
			lo, hi := c.poly(d)
			zero := i128{}
			if zero.less(lo) && hi.hi == 0 && hi.lo <= mask(d.w) {
				return c.False
			}
			if hi.neg() {
				// range within (-2^w, 0)
				min := i128{-1, 0}
				if d.w < 64 {
					min = i128{-1, ^mask(d.w)}
				}
				if min.less(lo) {
					return c.False
				}
			}
			tz := uint8(64)
			for i, co := range d.coefs {
				z := uint8(bits.TrailingZeros64(co))
				if tr := c.trailZ(d.args[i]); z+tr < tz {
					tz = z + tr
				}
			}
			if tz > 0 && d.k&mask(minu8(tz, d.w)) != 0 {
				return c.False
			}
			if len(d.args) == 1 {
				if d.coefs[0] == 1 {
					return c.eqRaw(d.args[0], c.Const(d.w, -d.k))
				}
				if d.coefs[0] == mask(d.w) {
					return c.eqRaw(d.args[0], c.Const(d.w, d.k))
				}
			}
			if len(d.args) == 2 && d.k == 0 && d.coefs[0]+d.coefs[1]&mask(d.w) == 0 && (d.coefs[0] == 1 || d.coefs[1] == 1) {
				return c.eqRaw(d.args[0], d.args[1])
			}
			// canonical: d == 0, with a canonical sign: first coefficient "positive"
			if sx(d.coefs[0], d.w) < 0 {
				d = c.Neg(d)
			}
			return c.eqRaw(d, c.Const(d.w, 0))
		}
		// single term difference
		return c.eqRaw(a, b)
	}
	return c.eqRaw(a, b)
}
func minu8(a, b uint8) uint8 {
	if a < b {
		return a
	}
	return b
}

// trailZ: number of known trailing zero bits.
func (c *Ctx) trailZ(t *Term) uint8 {
	switch t.op {
	case OConst:
		if t.k == 0 {
			return t.w
		}
		return uint8(bits.TrailingZeros64(t.k))
	case OZext:
		return c.trailZ(t.args[0])
	case OConcat:
		return c.trailZ(t.args[len(t.args)-1])
	case OIte:
		return minu8(c.trailZ(t.args[1]), c.trailZ(t.args[2]))
	}
	return 0
}
func (c *Ctx) eqRaw(a, b *Term) *Term {
	if a.op == OConst {
		a, b = b, a
	}
	if a.op == OConst {
		return c.Bool(a.k == b.k)
	}
	if b.op == OConst {
		l, h := c.bounds(a)
		if b.k < l || b.k > h {
			return c.False
		}
		if a.op == OZext || a.op == OConcat || (a.op == OIte && (a.args[1].op == OConst || a.args[2].op == OConst)) {
			return c.Eq(a, b)
		}
	} else if termLess(b, a) {
		a, b = b, a
	}
	return c.known(c.raw(&Term{op: OEq, w: 0, args: []*Term{a, b}}))
}

// diffRange: exact integer range of a-b when neither side wraps (as unsigned
// or signed polynomials).
func (c *Ctx) Ult(a, b *Term) *Term {
	if a == b {
		return c.False
	}
	al, ah := c.bounds(a)
	bl, bh := c.bounds(b)
	if ah < bl {
		return c.True
	}
	if al >= bh {
		return c.False
	}
	if a.op == OSum || b.op == OSum {
		alo, ahi := c.poly(a)
		blo, bhi := c.poly(b)
		if c.inUnsigned(alo, ahi, a.w) && c.inUnsigned(blo, bhi, b.w) {
			if lo, hi, ok := c.exactDiff(a, b); ok {
				if hi.neg() {
					return c.True
				}
				if !lo.neg() {
					return c.False
				}
			}
		}
	}
	if a.op == OZext && b.op == OZext && a.args[0].w == b.args[0].w {
		return c.Ult(a.args[0], b.args[0])
	}
	if a.op == OZext && b.op == OConst {
		return c.Ult(a.args[0], c.Const(a.args[0].w, b.k))
	}
	if b.op == OZext && a.op == OConst {
		return c.Ult(c.Const(b.args[0].w, a.k), b.args[0])
	}
	if b.op == OConst && b.k == 1 {
		return c.Eq(a, c.Const(a.w, 0))
	}
	if a.op == OConst && a.k == 0 {
		return c.Not(c.Eq(b, a))
	}
	if a.op == OIte && b.op == OConst && (a.args[1].op == OConst || a.args[2].op == OConst) {
		return c.Ite(a.args[0], c.Ult(a.args[1], b), c.Ult(a.args[2], b))
	}
	if b.op == OIte && a.op == OConst && (b.args[1].op == OConst || b.args[2].op == OConst) {
		return c.Ite(b.args[0], c.Ult(a, b.args[1]), c.Ult(a, b.args[2]))
	}
	// canonicalize  x + k < m  when no wrap  to  x < m-k
	if b.op == OConst && a.op == OSum && a.k != 0 {
		lo, hi := c.poly(a)
		if c.inUnsigned(lo, hi, a.w) {
			k := sx(a.k, a.w)
			x := c.Sub(a, c.Const(a.w, a.k))
			xl, xh := c.poly(x)
			if c.inUnsigned(xl, xh, x.w) {
				nk := int64(b.k) - k
				if b.k <= 1<<62 && k < 1<<62 && k > -(1<<62) && nk > 0 && (a.w == 64 || uint64(nk) <= mask(a.w)) {
					return c.Ult(x, c.Const(a.w, uint64(nk)))
				}
			}
		}
	}
	if a.op == OConst && b.op == OSum && b.k != 0 {
		lo, hi := c.poly(b)
		if c.inUnsigned(lo, hi, b.w) {
			k := sx(b.k, b.w)
			x := c.Sub(b, c.Const(b.w, b.k))
			xl, xh := c.poly(x)
			if c.inUnsigned(xl, xh, x.w) {
				nk := int64(a.k) - k
				if a.k <= 1<<62 && k < 1<<62 && k > -(1<<62) && nk >= 0 && (a.w == 64 || uint64(nk) <= mask(a.w)) {
					return c.Ult(c.Const(b.w, uint64(nk)), x)
				}
			}
		}
	}
	if v, ok := c.facts[c.raw(&Term{op: OUlt, w: 0, args: []*Term{b, a}})]; ok && v {
		return c.False
	}
	return c.known(c.raw(&Term{op: OUlt, w: 0, args: []*Term{a, b}}))
}

// exactDiff: range of the integer polynomial a-b (signed coefficients).
func (c *Ctx) exactDiff(a, b *Term) (lo, hi i128, ok bool) {
	type tc struct {
		t  *Term
		co int64
	}
	var buf [8]tc
	list := buf[:0]
	var k int64
	const lim = int64(1) << 61
	const clim = int64(1) << 56
	add := func(t *Term, co int64) bool {
		if co > clim || co < -clim {
			return false
		}
		for i := range list {
			if list[i].t == t {
				list[i].co += co
				return list[i].co < clim && list[i].co > -clim
			}
		}
		list = append(list, tc{t, co})
		return true
	}
	addAll := func(t *Term, s int64) bool {
		switch t.op {
		case OSum:
			kk := sx(t.k, t.w)
			if kk > lim || kk < -lim {
				return false
			}
			k += s * kk
			for i, x := range t.args {
				if !add(x, s*sx(t.coefs[i], t.w)) {
					return false
				}
			}
			return true
		case OConst:
			if t.k > uint64(lim) {
				return false
			}
			k += s * int64(t.k)
			return true
		}
		return add(t, s)
	}
	if !addAll(a, 1) || !addAll(b, -1) {
		return lo, hi, false
	}
	lo = i128of(k)
	hi = lo
	for _, e := range list {
		if e.co == 0 {
			continue
		}
		l, h := c.bounds(e.t)
		x, y := mulI(e.co, l), mulI(e.co, h)
		if e.co < 0 {
			x, y = y, x
		}
		lo, hi = lo.add(x), hi.add(y)
	}
	return lo, hi, true
}
func (c *Ctx) Ule(a, b *Term) *Term { return c.Not(c.Ult(b, a)) }
func (c *Ctx) Slt(a, b *Term) *Term {
	if a == b {
		return c.False
	}
	al, ah := c.sbounds(a)
	bl, bh := c.sbounds(b)
	if ah < bl {
		return c.True
	}
	if al >= bh {
		return c.False
	}
	if al >= 0 && bl >= 0 {
		return c.Ult(a, b)
	}
	if a.op == OSum || b.op == OSum {
		alo, ahi := c.poly(a)
		blo, bhi := c.poly(b)
		if c.inSigned(alo, ahi, a.w) && c.inSigned(blo, bhi, b.w) {
			if lo, hi, ok := c.exactDiff(a, b); ok {
				if hi.neg() {
					return c.True
				}
				if !lo.neg() {
					return c.False
				}
			}
			if b.op == OConst && a.op == OSum && a.k != 0 && a.w == 64 {
				// a < k with a = x + c, nothing wrapping: compare x with k-c
				x := c.Sub(a, c.Const(a.w, a.k))
				xl, xh := c.poly(x)
				bk, ak := sx(b.k, 64), sx(a.k, 64)
				if c.inSigned(xl, xh, 64) && !xl.neg() && bk < 1<<61 && bk > -(1<<61) && ak < 1<<61 && ak > -(1<<61) {
					if bk-ak <= 0 {
						return c.False
					}
					return c.Ult(x, c.Const(64, uint64(bk-ak)))
				}
			}
		}
	}
	return c.known(c.raw(&Term{op: OSlt, w: 0, args: []*Term{a, b}}))
}
func (c *Ctx) Sle(a, b *Term) *Term { return c.Not(c.Slt(b, a)) }

// ---------------------------------------------------------------- path facts

// assume records a condition known to hold on the current path.
func (c *Ctx) assume(t *Term) {
	switch t.op {
	case OConst:
		return
	case OAnd:
		c.setFact(t, true)
		c.assume(t.args[0])
		c.assume(t.args[1])
		return
	case ONot:
		in := t.args[0]
		if in.op == OOr {
			c.setFact(in, false)
			c.assume(c.Not(in.args[0]))
			c.assume(c.Not(in.args[1]))
			return
		}
		c.setFact(in, false)
		switch in.op {
		case OUlt: // !(a<b)  => b <= a
			a, b := in.args[0], in.args[1]
			al, ah := c.bounds(a)
			bl, bh := c.bounds(b)
			_, _ = ah, bh
			if bl > al {
				c.refine(a, bl, ^uint64(0))
			}
			if ah < bh {
				c.refine(b, 0, ah)
			}
		case OSlt: // b <= a signed
			a, b := in.args[0], in.args[1]
			c.refineS(a, b, false)
		case OEq:
			a, b := in.args[0], in.args[1]
			if b.op == OConst && a.w > 0 {
				l, h := c.bounds(a)
				if l == b.k && l < h {
					c.refine(a, l+1, h)
				} else if h == b.k && l < h {
					c.refine(a, l, h-1)
				}
			}
		}
		return
	}
	c.setFact(t, true)
	switch t.op {
	case OUlt:
		a, b := t.args[0], t.args[1]
		al, ah := c.bounds(a)
		bl, bh := c.bounds(b)
		if bh > 0 && ah > bh-1 {
			c.refine(a, 0, bh-1)
		}
		if al < ^uint64(0) && bl < al+1 {
			c.refine(b, al+1, ^uint64(0))
		}
	case OSlt:
		c.refineS(t.args[1], t.args[0], true)
	case OEq:
		a, b := t.args[0], t.args[1]
		if a.w > 0 {
			al, ah := c.bounds(a)
			bl, bh := c.bounds(b)
			if bl > al || bh < ah {
				c.refine(a, bl, bh)
			}
			if al > bl || ah < bh {
				c.refine(b, al, ah)
			}
		}
	}
}

// refineS: big >= small (signed), strict if strict.
func (c *Ctx) refineS(big, small *Term, strict bool) {
	sl, _ := c.sbounds(small)
	bl, bh := c.sbounds(big)
	if sl >= 0 && bl < 0 && bh >= 0 {
		// big is now non-negative
		l := uint64(sl)
		if strict {
			l++
		}
		c.refine(big, l, mask(big.w-1))
	} else if sl >= 0 && bl >= 0 {
		l := uint64(sl)
		if strict {
			l++
		}
		if l > uint64(bl) {
			c.refine(big, l, ^uint64(0))
		}
	}
	sl, sh := c.sbounds(small)
	bl, bh = c.sbounds(big)
	if sl >= 0 && bh >= 0 && sh > bh {
		h := uint64(bh)
		if strict && h > 0 {
			h--
		}
		c.refine(small, 0, h)
	}
}

func (c *Ctx) setFact(t *Term, v bool) {
	c.facts[t] = v
}

func (c *Ctx) refine(t *Term, lo, hi uint64) {
	if t.op == OConst {
		return
	}
	ol, oh := c.bounds(t)
	if lo < ol {
		lo = ol
	}
	if hi > oh {
		hi = oh
	}
	if lo > hi || (lo == ol && hi == oh) {
		return
	}
	c.learn[t] = [2]uint64{lo, hi}
	c.gen++
	switch t.op {
	case OZext:
		c.refine(t.args[0], lo, hi)
	case OConcat:
		w := t.w
		for _, a := range t.args {
			w -= a.w
			c.refine(a, lo>>w, hi>>w)
			if lo>>w != hi>>w {
				break
			}
			lo, hi = lo&mask(w), hi&mask(w)
		}
	case OExtract:
		if t.k == 0 {
			// only if the rest of the base is known zero
			_, h := c.bounds(t.args[0])
			if h <= mask(t.w) {
				c.refine(t.args[0], lo, hi)
			}
		}
	case OSum:
		// exact polynomial range: isolate each argument
		plo, phi := c.poly2(t)
		if !c.inUnsigned(plo, phi, t.w) {
			return
		}
		for i, a := range t.args {
			co := sx(t.coefs[i], t.w)
			// rest range
			rl, rh := i128of(sx(t.k, t.w)), i128of(sx(t.k, t.w))
			for j, b := range t.args {
				if j == i {
					continue
				}
				cj := sx(t.coefs[j], t.w)
				bl, bh := c.bounds(b)
				x, y := mulI(cj, bl), mulI(cj, bh)
				if cj < 0 {
					x, y = y, x
				}
				rl, rh = rl.add(x), rh.add(y)
			}
			al, ah := c.bounds(a)
			neg := func(v i128) i128 {
				r := i128{^v.hi, ^v.lo}
				return r.add(i128{0, 1})
			}
			// lo <= co*a + rest <= hi
			mn := i128{0, lo}.add(neg(rh)) // co*a >= mn
			mx := i128{0, hi}.add(neg(rl)) // co*a <= mx
			if co == 1 {
				if !mn.neg() && mn.hi == 0 && mn.lo > al {
					c.refine(a, mn.lo, ^uint64(0))
				}
				if !mx.neg() && mx.hi == 0 && mx.lo < ah {
					c.refine(a, 0, mx.lo)
				}
			} else if co == -1 {
				nmn, nmx := neg(mx), neg(mn)
				if !nmn.neg() && nmn.hi == 0 && nmn.lo > al {
					c.refine(a, nmn.lo, ^uint64(0))
				}
				if !nmx.neg() && nmx.hi == 0 && nmx.lo < ah {
					c.refine(a, 0, nmx.lo)
				}
			} else if co > 1 {
				u := uint64(co)
				if !mn.neg() && mn.hi == 0 {
					q := (mn.lo + u - 1) / u
					if mn.lo+u-1 >= mn.lo && q > al {
						c.refine(a, q, ^uint64(0))
					}
				}
				if !mx.neg() && mx.hi == 0 && mx.lo/u < ah {
					c.refine(a, 0, mx.lo/u)
				}
			}
		}
	}
}

// rebuild constructs t again under the facts known now.
func (c *Ctx) rebuild(t *Term, memo map[*Term]*Term) *Term {
	if r, ok := memo[t]; ok {
		return r
	}
	if t.op == OConst {
		return t
	}
	if t.w > 0 {
		if l, h := c.bounds(t); l == h {
			r := c.Const(t.w, l)
			memo[t] = r
			return r
		}
	}
	a := make([]*Term, len(t.args))
	for i, x := range t.args {
		a[i] = c.rebuild(x, memo)
	}
	r := t
	switch t.op {
	case OVar:
	case OSelect:
		r = c.Select(t.name, a[0])
	case OSum:
		l := linacc{w: t.w, k: t.k}
		for i, x := range a {
			l.add(c, x, t.coefs[i])
		}
		r = l.done(c)
	case OZext:
		r = c.Zext(a[0], t.w)
	case OSext:
		r = c.Sext(a[0], t.w)
	case OExtract:
		r = c.Extract(a[0], int(t.k)+int(t.w)-1, int(t.k))
	case OConcat:
		r = c.Concat(a...)
	case OMul:
		r = c.Mul(a[0], a[1])
	case OUdiv:
		r = c.Udiv(a[0], a[1])
	case OUrem:
		r = c.Urem(a[0], a[1])
	case OSdiv:
		r = c.Sdiv(a[0], a[1])
	case OSrem:
		r = c.Srem(a[0], a[1])
	case OShl:
		r = c.Shl(a[0], a[1])
	case OLshr:
		r = c.Lshr(a[0], a[1])
	case OAshr:
		r = c.Ashr(a[0], a[1])
	case OBand:
		r = c.Band(a[0], a[1])
	case OBor:
		r = c.Bor(a[0], a[1])
	case OBxor:
		r = c.Bxor(a[0], a[1])
	case OIte:
		r = c.Ite(a[0], a[1], a[2])
	case ONot:
		r = c.Not(a[0])
	case OAnd:
		r = a[0]
		for _, x := range a[1:] {
			r = c.And(r, x)
		}
	case OOr:
		r = a[0]
		for _, x := range a[1:] {
			r = c.Or(r, x)
		}
	case OEq:
		r = c.Eq(a[0], a[1])
	case OUlt:
		r = c.Ult(a[0], a[1])
	case OSlt:
		r = c.Slt(a[0], a[1])
	}
	if r.w != t.w {
		panic("rebuild changed a width")
	}
	memo[t] = r
	return r
}

// poly2 is poly for a sum ignoring its own learned bounds (poly already does).
func (c *Ctx) poly2(t *Term) (lo, hi i128) { return c.poly(t) }

// ---------------------------------------------------------------- evaluation

func (c *Ctx) setModel(m *Model) {
	c.model = m
	c.egen++
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func (c *Ctx) eval(t *Term) uint64 {
	if t.op == OConst {
		return t.k
	}
	if t.egen == c.egen {
		return t.ev
	}
	m := mask(t.w)
	var r uint64
	e := func(i int) uint64 { return c.eval(t.args[i]) }
	switch t.op {
	case OVar:
		r = c.model.V[t.name] & m
		if t.w == 0 {
			r = c.model.V[t.name] & 1
		}
	case OSelect:
		r = uint64(c.model.A[t.name][e(0)])
	case ONot:
		r = 1 - e(0)
	case OAnd:
		r = e(0) & e(1)
	case OOr:
		r = e(0) | e(1)
	case OEq:
		r = b2u(e(0) == e(1))
	case OUlt:
		r = b2u(e(0) < e(1))
	case OSlt:
		w := t.args[0].w
		r = b2u(sx(e(0), w) < sx(e(1), w))
	case OIte:
		if e(0) != 0 {
			r = e(1)
		} else {
			r = e(2)
		}
	case OSum:
		r = t.k
		for i := range t.args {
			r += t.coefs[i] * e(i)
		}
	case OMul:
		r = e(0) * e(1)
	case OUdiv:
		if d := e(1); d == 0 {
			r = m
		} else {
			r = e(0) / d
		}
	case OUrem:
		if d := e(1); d == 0 {
			r = e(0)
		} else {
			r = e(0) % d
		}
	case OSdiv:
		x, y := sx(e(0), t.w), sx(e(1), t.w)
		if y == 0 {
			if x < 0 {
				r = 1
			} else {
				r = m
			}
		} else if y == -1 {
			r = uint64(-x)
		} else {
			r = uint64(x / y)
		}
	case OSrem:
		x, y := sx(e(0), t.w), sx(e(1), t.w)
		if y == 0 {
			r = uint64(x)
		} else if y == -1 {
			r = 0
		} else {
			r = uint64(x % y)
		}
	case OBand:
		r = e(0) & e(1)
	case OBor:
		r = e(0) | e(1)
	case OBxor:
		r = e(0) ^ e(1)
	case OShl:
		if s := e(1); s < 64 {
			r = e(0) << s
		}
	case OLshr:
		if s := e(1); s < 64 {
			r = e(0) >> s
		}
	case OAshr:
		s := e(1)
		if s > 63 {
			s = 63
		}
		r = uint64(sx(e(0), t.w) >> s)
	case OZext:
		r = e(0)
	case OSext:
		r = uint64(sx(e(0), t.args[0].w))
	case OExtract:
		r = e(0) >> t.k
	case OConcat:
		for i, a := range t.args {
			r = r<<a.w | e(i)
		}
	}
	if t.w == 0 {
		r &= 1
	} else {
		r &= m
	}
	t.egen, t.ev = c.egen, r
	return r
}

// ---------------------------------------------------------------- printing

func (t *Term) String() string { return t.str(6) }
func (t *Term) str(d int) string {
	switch t.op {
	case OConst:
		if t.w == 0 {
			return fmt.Sprint(t.k == 1)
		}
		return fmt.Sprintf("%d", t.k)
	case OVar:
		return t.name
	}
	if d == 0 {
		return "..."
	}
	var sb strings.Builder
	sb.WriteString("(" + opNames[t.op])
	if t.op == OSelect {
		sb.WriteString(" " + t.name)
	}
	if t.op == OExtract {
		fmt.Fprintf(&sb, "[%d:%d]", int(t.k)+int(t.w)-1, t.k)
	}
	for i, a := range t.args {
		sb.WriteByte(' ')
		if t.coefs != nil && t.coefs[i] != 1 {
			fmt.Fprintf(&sb, "%d*", sx(t.coefs[i], t.w))
		}
		sb.WriteString(a.str(d - 1))
	}
	if t.op == OSum && t.k != 0 {
		fmt.Fprintf(&sb, " %d", sx(t.k, t.w))
	}
	sb.WriteByte(')')
	return sb.String()
}
