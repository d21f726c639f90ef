package main

import (
	"fmt"
	"math/bits"
	"math/rand"
	"testing"
)

// The simplifier is trusted by every verdict: compare it with direct
// evaluation on random expressions, with and without learned path facts.
func TestSimplifierAgainstEvaluation(t *testing.T) {
	for seed := int64(1); seed <= 40000; seed++ {
		runOne(t, seed)
		if t.Failed() {
			return
		}
	}
}

type tv struct {
	t *Term
	v uint64
	s string
}

func interesting(r *rand.Rand, w uint8) uint64 {
	switch r.Intn(6) {
	case 0:
		return uint64(r.Intn(4)) & mask(w)
	case 1:
		return (mask(w) - uint64(r.Intn(3))) & mask(w)
	case 2:
		return (uint64(1) << uint(r.Intn(int(w)))) & mask(w)
	case 3:
		return (uint64(1)<<uint(r.Intn(int(w))) - 1) & mask(w)
	case 4:
		return uint64(r.Intn(1000)) & mask(w)
	}
	return r.Uint64() & mask(w)
}

func runOne(t *testing.T, seed int64) {
	r := rand.New(rand.NewSource(seed))
	c := NewCtx()
	m := NewModel()
	ws := []uint8{8, 16, 32, 64}
	var pool []tv
	var bools []tv
	for i := 0; i < 5; i++ {
		w := ws[r.Intn(4)]
		n := fmt.Sprintf("v%d", i)
		v := interesting(r, w)
		m.V[n] = v
		pool = append(pool, tv{c.Var(n, w), v, n})
	}
	c.setModel(m)
	pick := func(w uint8) tv {
		if r.Intn(4) == 0 {
			k := interesting(r, w)
			return tv{c.Const(w, k), k, fmt.Sprint(k)}
		}
		for tries := 0; tries < 30; tries++ {
			x := pool[r.Intn(len(pool))]
			if x.t.w == w {
				return x
			}
			if r.Intn(2) == 0 {
				continue
			}
			if x.t.w < w {
				if r.Intn(3) == 0 {
					return tv{c.Sext(x.t, w), uint64(sx(x.v, x.t.w)) & mask(w), "sext(" + x.s + ")"}
				}
				return tv{c.Zext(x.t, w), x.v, fmt.Sprintf("zext%d(%s)", w, x.s)}
			}
			lo := 0
			if r.Intn(2) == 0 {
				lo = r.Intn(int(x.t.w-w) + 1)
			}
			return tv{c.Extract(x.t, lo+int(w)-1, lo), x.v >> uint(lo) & mask(w), fmt.Sprintf("ext%d,%d(%s)", w, lo, x.s)}
		}
		k := interesting(r, w)
		return tv{c.Const(w, k), k, fmt.Sprint(k)}
	}
	for step := 0; step < 25; step++ {
		w := ws[r.Intn(4)]
		a, b := pick(w), pick(w)
		var o tv
		isb := false
		switch r.Intn(20) {
		case 0, 1:
			o = tv{c.Add(a.t, b.t), a.v + b.v, "+"}
		case 2:
			o = tv{c.Sub(a.t, b.t), a.v - b.v, "-"}
		case 3:
			k := interesting(r, w)
			o = tv{c.Scale(a.t, k), a.v * k, fmt.Sprintf("*%d", k)}
		case 4:
			o = tv{c.Mul(a.t, b.t), a.v * b.v, "*"}
		case 5:
			if b.v == 0 || (b.t.op == OConst && b.t.k == 0) {
				continue
			}
			o = tv{c.Udiv(a.t, b.t), a.v / b.v, "/"}
		case 6:
			if b.v == 0 {
				continue
			}
			o = tv{c.Urem(a.t, b.t), a.v % b.v, "%"}
		case 7:
			s := uint(r.Intn(int(w) + 2))
			o = tv{c.ShlK(a.t, s), a.v << s, fmt.Sprintf("<<%d", s)}
		case 8:
			s := uint(r.Intn(int(w) + 2))
			o = tv{c.LshrK(a.t, s), a.v >> s, fmt.Sprintf(">>%d", s)}
		case 9:
			o = tv{c.Band(a.t, b.t), a.v & b.v, "&"}
		case 10, 11:
			o = tv{c.Bor(a.t, b.t), a.v | b.v, "|"}
		case 12:
			o = tv{c.Bxor(a.t, b.t), a.v ^ b.v, "^"}
		case 13:
			if int(a.t.w)+int(b.t.w) > 64 || w == 64 {
				continue
			}
			o = tv{c.Concat(a.t, b.t), a.v<<w | b.v, "cc"}
			if 2*w != 16 && 2*w != 32 && 2*w != 64 {
				continue
			}
			w = 2 * w
		case 14:
			isb = true
			o = tv{c.Ult(a.t, b.t), b2u(a.v < b.v), "<"}
		case 15:
			isb = true
			o = tv{c.Slt(a.t, b.t), b2u(sx(a.v, w) < sx(b.v, w)), "<s"}
		case 16:
			isb = true
			o = tv{c.Eq(a.t, b.t), b2u(a.v == b.v), "=="}
		case 17:
			if len(bools) == 0 {
				continue
			}
			q := bools[r.Intn(len(bools))]
			x := b.v
			if q.v == 1 {
				x = a.v
			}
			o = tv{c.Ite(q.t, a.t, b.t), x, "ite" + q.s}
		case 18:
			s := uint64(r.Intn(int(w)))
			o = tv{c.Ashr(a.t, c.Const(w, s)), uint64(sx(a.v, w) >> s), fmt.Sprintf(">>s%d", s)}
		case 19:
			if len(bools) < 1 {
				continue
			}
			p, q := bools[r.Intn(len(bools))], bools[r.Intn(len(bools))]
			isb = true
			if r.Intn(2) == 0 {
				o = tv{c.And(p.t, q.t), p.v & q.v, "and"}
			} else {
				o = tv{c.Or(p.t, q.t), p.v | q.v, "or"}
			}
		}
		if isb {
			o.v &= 1
		} else {
			o.v &= mask(w)
		}
		o.s = "(" + a.s + o.s + b.s + ")"
		if o.t.op != OConst || true {
			c.egen++
			if g := c.eval(o.t); g != o.v {
				t.Errorf("seed %d step %d: want %x got %x for %s\n simplified %s\n a=%x b=%x", seed, step, o.v, g, o.s, o.t.str(10), a.v, b.v)
				return
			}
		}
		if lo, hi := c.bounds(o.t); !isb && (o.v < lo || o.v > hi) {
			t.Errorf("seed %d step %d: bounds [%x,%x] miss %x for %s = %s", seed, step, lo, hi, o.v, o.s, o.t.str(10))
			return
		}
		if isb {
			bools = append(bools, o)
			// take it as a path fact half of the time
			if r.Intn(2) == 0 && o.t.op != OConst {
				f := o.t
				if o.v == 0 {
					f = c.Not(f)
				}
				c.assume(f)
			}
		} else {
			pool = append(pool, o)
		}
	}
	// bounds and signed bounds hold for everything at the end
	for _, p := range pool {
		lo, hi := c.bounds(p.t)
		if p.v < lo || p.v > hi {
			t.Errorf("seed %d: bounds [%x,%x] miss %x for %s = %s", seed, lo, hi, p.v, p.s, p.t.str(8))
			return
		}
		sl, sh := c.sbounds(p.t)
		if s := sx(p.v, p.t.w); s < sl || s > sh {
			t.Errorf("seed %d: signed bounds [%d,%d] miss %d for %s", seed, sl, sh, s, p.t.str(8))
			return
		}
	}
	_ = bits.Len64
}
