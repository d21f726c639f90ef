package main

import "fmt"

// Lazy byte arrays: a sorted list of segments over concrete offsets, each
// referring to an immutable (or append-only) content node. Stores and copies at
// symbolic offsets wrap the whole content in a layer node.

type bnode interface{}

type nZero struct{}
type nConst struct{ d []byte }
type nTerms struct{ t []*Term }
type nSym struct{ name string }
type nSegs struct {
	segs []seg
	memo map[*Term]*Term
}
type nStore struct {
	parent   bnode
	idx, val *Term
	memo     map[*Term]*Term
}
type nCopy struct {
	parent bnode
	dst, n *Term
	src    bnode
	srcOff *Term
	memo   map[*Term]*Term
}

type seg struct {
	lo, hi uint64
	n      bnode
	off    uint64
}

const INF = uint64(1) << 48

type ByteArr struct {
	segs []seg
	cow  bool // segs shared with a frozen node
	size *Term
	// address model: residue of the base address modulo 8192 (native replay
	// may differ); assigned lazily
	addr *Term
}

var zeroNode = &nZero{}

func newZeroArr(size *Term) *ByteArr {
	return &ByteArr{segs: []seg{{0, INF, zeroNode, 0}}, size: size}
}

type EngineLimit struct{ msg string }

func limitf(f string, a ...interface{}) { panic(EngineLimit{fmt.Sprintf(f, a...)}) }

func (c *Ctx) readNode(n bnode, idx *Term) *Term {
	switch x := n.(type) {
	case *nZero:
		return c.Const(8, 0)
	case *nConst:
		if idx.op == OConst {
			if idx.k >= uint64(len(x.d)) {
				return c.Const(8, 0)
			}
			return c.Const(8, uint64(x.d[idx.k]))
		}
		lo, hi := c.bounds(idx)
		if hi >= uint64(len(x.d)) {
			hi = uint64(len(x.d)) - 1
		}
		if lo > hi {
			return c.Const(8, 0)
		}
		if hi-lo > 4096 {
			limitf("symbolic read over %d constant bytes", hi-lo)
		}
		r := c.Const(8, uint64(x.d[hi]))
		for j := int64(hi) - 1; j >= int64(lo); j-- {
			if x.d[j] != x.d[j+1] {
				r = c.Ite(c.Ult(c.Const(64, uint64(j)), idx), r, c.Const(8, uint64(x.d[j])))
			}
		}
		return r
	case *nTerms:
		if idx.op == OConst {
			if idx.k >= uint64(len(x.t)) {
				return c.Const(8, 0)
			}
			return x.t[idx.k]
		}
		lo, hi := c.bounds(idx)
		if hi >= uint64(len(x.t)) {
			hi = uint64(len(x.t)) - 1
		}
		if lo > hi {
			return c.Const(8, 0)
		}
		if hi-lo > 4096 {
			limitf("symbolic read over %d bytes", hi-lo)
		}
		r := x.t[hi]
		for j := int64(hi) - 1; j >= int64(lo); j-- {
			if x.t[j] != x.t[j+1] {
				r = c.Ite(c.Ult(c.Const(64, uint64(j)), idx), r, x.t[j])
			}
		}
		return r
	case *nSym:
		return c.Select(x.name, idx)
	case *nSegs:
		if idx.op != OConst {
			if r := x.memo[idx]; r != nil {
				return r
			}
		}
		r := c.readSegs(x.segs, idx)
		if idx.op != OConst {
			if x.memo == nil {
				x.memo = map[*Term]*Term{}
			}
			x.memo[idx] = r
		}
		return r
	case *nStore:
		if r := x.memo[idx]; r != nil {
			return r
		}
		eq := c.Eq(idx, x.idx)
		var r *Term
		if eq.IsTrue() {
			r = x.val
		} else if eq.IsFalse() {
			r = c.readNode(x.parent, idx)
		} else {
			r = c.Ite(eq, x.val, c.readNode(x.parent, idx))
		}
		if x.memo == nil {
			x.memo = map[*Term]*Term{}
		}
		x.memo[idx] = r
		return r
	case *nCopy:
		if r := x.memo[idx]; r != nil {
			return r
		}
		rel := c.Sub(idx, x.dst)
		in := c.And(c.Ule(x.dst, idx), c.Ult(rel, x.n))
		var r *Term
		if in.IsTrue() {
			r = c.readNode(x.src, c.Add(rel, x.srcOff))
		} else if in.IsFalse() {
			r = c.readNode(x.parent, idx)
		} else {
			r = c.Ite(in, c.readNode(x.src, c.Add(rel, x.srcOff)), c.readNode(x.parent, idx))
		}
		if x.memo == nil {
			x.memo = map[*Term]*Term{}
		}
		x.memo[idx] = r
		return r
	}
	panic("readNode")
}

func findSeg(segs []seg, p uint64) int {
	lo, hi := 0, len(segs)
	for lo < hi {
		m := (lo + hi) / 2
		if segs[m].hi <= p {
			lo = m + 1
		} else {
			hi = m
		}
	}
	return lo
}

func (c *Ctx) readSegs(segs []seg, idx *Term) *Term {
	if idx.op == OConst {
		i := findSeg(segs, idx.k)
		if i >= len(segs) || segs[i].lo > idx.k {
			return c.Const(8, 0)
		}
		s := segs[i]
		return c.readNode(s.n, c.Const(64, idx.k-s.lo+s.off))
	}
	lo, hi := c.bounds(idx)
	i := findSeg(segs, lo)
	j := findSeg(segs, hi)
	if i >= len(segs) {
		return c.Const(8, 0)
	}
	if j >= len(segs) {
		j = len(segs) - 1
	}
	if j-i > 1024 {
		limitf("symbolic read across %d segments", j-i)
	}
	at := func(s seg) *Term { return c.readNode(s.n, c.AddK(idx, s.off-s.lo)) }
	r := at(segs[j])
	for k := j - 1; k >= i; k-- {
		r = c.Ite(c.Ult(idx, c.Const(64, segs[k].hi)), at(segs[k]), r)
	}
	return r
}

func (a *ByteArr) read(c *Ctx, idx *Term) *Term {
	return c.readSegs(a.segs, idx)
}

func (a *ByteArr) freeze() bnode {
	if len(a.segs) == 1 && a.segs[0].lo == 0 && a.segs[0].off == 0 {
		if _, ok := a.segs[0].n.(*nTerms); !ok {
			return a.segs[0].n
		}
	}
	a.cow = true
	return &nSegs{segs: a.segs}
}

func (a *ByteArr) own() {
	if a.cow {
		a.segs = append([]seg(nil), a.segs...)
		a.cow = false
	}
}

func (a *ByteArr) splice(lo, hi uint64, ins []seg) {
	if lo >= hi {
		return
	}
	a.own()
	i := findSeg(a.segs, lo)
	j := findSeg(a.segs, hi-1)
	var pre, post []seg
	if i < len(a.segs) && a.segs[i].lo < lo {
		s := a.segs[i]
		pre = append(pre, seg{s.lo, lo, s.n, s.off})
	}
	if j < len(a.segs) && a.segs[j].hi > hi {
		s := a.segs[j]
		post = append(post, seg{hi, s.hi, s.n, s.off + (hi - s.lo)})
	}
	end := j + 1
	if end > len(a.segs) {
		end = len(a.segs)
	}
	tail := append([]seg(nil), a.segs[end:]...)
	out := append(a.segs[:i:i], pre...)
	for _, s := range ins {
		// coalesce with the previous segment when contiguous in the same node
		if n := len(out); n > 0 && out[n-1].hi == s.lo && out[n-1].n == s.n && (out[n-1].off+(s.lo-out[n-1].lo) == s.off || s.n == bnode(zeroNode)) {
			out[n-1].hi = s.hi
			continue
		}
		out = append(out, s)
	}
	for _, s := range append(post, tail...) {
		if n := len(out); n > 0 && out[n-1].hi == s.lo && out[n-1].n == s.n && (out[n-1].off+(s.lo-out[n-1].lo) == s.off || s.n == bnode(zeroNode)) {
			out[n-1].hi = s.hi
			continue
		}
		out = append(out, s)
	}
	a.segs = out
}

func (a *ByteArr) write(c *Ctx, idx, val *Term) {
	if idx.op == OConst {
		p := idx.k
		i := findSeg(a.segs, p)
		// fast path: overwrite within an exclusively built term leaf is not
		// possible (immutable prefix); append to the preceding builder if any
		if i > 0 {
			pr := a.segs[i-1]
			if pr.hi == p {
				if nt, ok := pr.n.(*nTerms); ok && pr.off+(pr.hi-pr.lo) == uint64(len(nt.t)) {
					nt.t = append(nt.t, val)
					a.splice(p, p+1, []seg{{p, p + 1, nt, uint64(len(nt.t)) - 1}})
					return
				}
			}
		}
		a.splice(p, p+1, []seg{{p, p + 1, &nTerms{t: []*Term{val}}, 0}})
		return
	}
	n := &nStore{parent: a.freeze(), idx: idx, val: val}
	a.segs = []seg{{0, INF, n, 0}}
	a.cow = false
}

// extract returns the segments covering [off, off+n) rebased at base.
func extractSegs(segs []seg, off, n, base uint64) []seg {
	var out []seg
	end := off + n
	for i := findSeg(segs, off); i < len(segs) && segs[i].lo < end; i++ {
		s := segs[i]
		lo, hi := s.lo, s.hi
		if lo < off {
			lo = off
		}
		if hi > end {
			hi = end
		}
		out = append(out, seg{lo - off + base, hi - off + base, s.n, s.off + (lo - s.lo)})
	}
	return out
}

func copyBytes(c *Ctx, dst *ByteArr, dOff *Term, src *ByteArr, sOff *Term, n *Term) {
	if n.op == OConst && n.k == 0 {
		return
	}
	if n.op == OConst && dOff.op == OConst && sOff.op == OConst {
		ins := extractSegs(src.segs, sOff.k, n.k, dOff.k)
		dst.splice(dOff.k, dOff.k+n.k, ins)
		return
	}
	// term leaves are append-only beyond referenced prefixes, so sharing is fine
	sn := src.freeze()
	nd := &nCopy{parent: dst.freeze(), dst: dOff, n: n, src: sn, srcOff: sOff}
	dst.segs = []seg{{0, INF, nd, 0}}
	dst.cow = false
}

// assignArr: value assignment of a whole array.
func (a *ByteArr) assignFrom(b *ByteArr) {
	if a == b {
		return
	}
	b.cow = true
	a.segs = b.segs
	a.cow = true
}
func (a *ByteArr) clone() *ByteArr {
	a.cow = true
	return &ByteArr{segs: a.segs, cow: true, size: a.size}
}
