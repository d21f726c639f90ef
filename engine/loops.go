package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// A loop over byte slices which stores zero, or the byte of the same place of
// another slice, for each index up to a bound is done in one step: the meaning
// of the loop is that of a copy. Anything else about it (a bound outside a
// slice, overlapping slices) falls back to running it.
type byteLoop struct {
	phi, step, idx ssa.Value // idx is the index of the iteration
	cond           *ssa.BinOp
	bound          ssa.Value
	lenOf          ssa.Value // bound is len(lenOf), taken in the header
	dst, src       ssa.Value // src nil: zero
	dOff, sOff     ssa.Value // index is dOff + idx
	body, done     *ssa.BasicBlock
	pre            bool // step is before the test (range loop)
}

func outside(v ssa.Value, h, b *ssa.BasicBlock) bool {
	if i, ok := v.(ssa.Instruction); ok {
		return i.Block() != h && i.Block() != b
	}
	return true
}

func isByteSlice(v ssa.Value) bool {
	s, ok := v.Type().Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

func isInt(v ssa.Value) bool {
	b, ok := v.Type().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Int
}

func one(v ssa.Value) bool {
	k, ok := v.(*ssa.Const)
	return ok && k.Value != nil && k.Int64() == 1
}

// findByteLoop recognises a loop by its header.
func findByteLoop(h *ssa.BasicBlock) *byteLoop {
	var ins []ssa.Instruction
	for _, i := range h.Instrs {
		if _, ok := i.(*ssa.DebugRef); !ok {
			ins = append(ins, i)
		}
	}
	if len(ins) < 3 || len(ins) > 4 || len(h.Preds) != 2 || len(h.Succs) != 2 {
		return nil
	}
	phi, ok := ins[0].(*ssa.Phi)
	if !ok || !isInt(phi) {
		return nil
	}
	iff, ok := ins[len(ins)-1].(*ssa.If)
	if !ok {
		return nil
	}
	cond, ok := ins[len(ins)-2].(*ssa.BinOp)
	if !ok || cond.Op != token.LSS || iff.Cond != ssa.Value(cond) {
		return nil
	}
	l := &byteLoop{phi: phi, cond: cond, bound: cond.Y, body: h.Succs[0], done: h.Succs[1]}
	if l.body == h || l.body == l.done || len(l.body.Preds) != 1 || len(l.body.Succs) != 1 || l.body.Succs[0] != h {
		return nil
	}
	back := 0
	if h.Preds[1] == l.body {
		back = 1
	} else if h.Preds[0] != l.body {
		return nil
	}
	var stepIn *ssa.BasicBlock = l.body
	if len(ins) == 4 {
		switch x := ins[1].(type) {
		case *ssa.Call:
			b, ok := x.Call.Value.(*ssa.Builtin)
			if !ok || b.Name() != "len" || cond.Y != ssa.Value(x) || !isByteSlice(x.Call.Args[0]) || !outside(x.Call.Args[0], h, l.body) {
				return nil
			}
			l.lenOf = x.Call.Args[0]
		case *ssa.BinOp:
			l.pre = true
			stepIn = h
		default:
			return nil
		}
	}
	if l.lenOf == nil && !outside(cond.Y, h, l.body) {
		return nil
	}
	step, ok := phi.Edges[back].(*ssa.BinOp)
	if !ok || step.Op != token.ADD || step.Block() != stepIn || step.X != ssa.Value(phi) || !one(step.Y) {
		return nil
	}
	l.step = step
	l.idx = phi
	if l.pre {
		l.idx = step
	}
	if cond.X != l.idx {
		return nil
	}
	// the body
	adds := map[ssa.Value]ssa.Value{} // idx + offset
	index := func(v ssa.Value) (off ssa.Value, ok bool) {
		if v == l.idx {
			return nil, true
		}
		off, ok = adds[v]
		return
	}
	addrs := map[ssa.Value]*ssa.IndexAddr{}
	var loaded *ssa.UnOp
	stored := false
	for _, i := range l.body.Instrs {
		switch x := i.(type) {
		case *ssa.DebugRef, *ssa.Jump:
		case *ssa.BinOp:
			if x == step {
				break
			}
			if x.Op != token.ADD || !isInt(x) {
				return nil
			}
			switch {
			case x.X == l.idx && outside(x.Y, h, l.body):
				adds[x] = x.Y
			case x.Y == l.idx && outside(x.X, h, l.body):
				adds[x] = x.X
			default:
				return nil
			}
		case *ssa.IndexAddr:
			if !isByteSlice(x.X) || !outside(x.X, h, l.body) {
				return nil
			}
			if _, ok := index(x.Index); !ok {
				return nil
			}
			addrs[x] = x
		case *ssa.UnOp:
			a := addrs[x.X]
			if x.Op != token.MUL || a == nil || loaded != nil || stored {
				return nil
			}
			loaded = x
			l.src = a.X
			l.sOff, _ = index(a.Index)
		case *ssa.Store:
			a := addrs[x.Addr]
			if a == nil || stored {
				return nil
			}
			stored = true
			if k, ok := x.Val.(*ssa.Const); ok {
				if loaded != nil || k.Value == nil || k.Int64() != 0 {
					return nil
				}
			} else if loaded == nil || x.Val != ssa.Value(loaded) {
				return nil
			}
			l.dst = a.X
			l.dOff, _ = index(a.Index)
		default:
			return nil
		}
	}
	if !stored {
		return nil
	}
	return l
}

func (in *Interp) byteLoopAt(h *ssa.BasicBlock) *byteLoop {
	if in.byteLoops == nil {
		in.byteLoops = map[*ssa.BasicBlock]*byteLoop{}
	}
	l, ok := in.byteLoops[h]
	if !ok {
		l = findByteLoop(h)
		in.byteLoops[h] = l
	}
	return l
}

// skipByteLoop is called on entry of a loop header from outside the loop.
func (in *Interp) skipByteLoop(fr *Frame, h *ssa.BasicBlock) {
	l := in.byteLoopAt(h)
	if l == nil || fr.prev == l.body {
		return
	}
	c := in.c
	get := func(v ssa.Value) *Term { return in.get(fr, v).(*Term) }
	dst, ok := in.get(fr, l.dst).(BSlice)
	if !ok {
		return
	}
	var bound *Term
	if l.lenOf != nil {
		s, ok := in.get(fr, l.lenOf).(BSlice)
		if !ok {
			return
		}
		bound = s.len
	} else {
		bound = get(l.bound)
	}
	first := get(l.phi)
	if l.pre {
		first = c.Add(first, c.Const(64, 1))
	}
	off := func(v ssa.Value) *Term {
		if v == nil {
			return c.Const(64, 0)
		}
		return get(v)
	}
	n := c.known(c.norm(c.Sub(bound, first)))
	dAt := c.Add(off(l.dOff), first)
	var src BSlice
	sAt := c.Const(64, 0)
	if l.src != nil {
		if src, ok = in.get(fr, l.src).(BSlice); !ok || src.a == dst.a {
			return
		}
		sAt = c.Add(off(l.sOff), first)
	}
	within := func(at, len *Term) *Term {
		return c.And(c.Ule(at, len), c.Ule(n, c.Sub(len, at)))
	}
	fits := c.And(c.Sle(first, bound), within(dAt, dst.len))
	if l.src != nil {
		fits = c.And(fits, within(sAt, src.len))
	}
	fits = c.known(c.norm(fits))
	if fits.op == OConst {
		if fits.k == 0 {
			return
		}
	} else if !in.branch(fits) {
		return
	}
	if l.src != nil {
		copyBytes(c, dst.a, c.norm(c.Add(dst.off, dAt)), src.a, c.norm(c.Add(src.off, sAt)), n)
	} else {
		copyBytes(c, dst.a, c.norm(c.Add(dst.off, dAt)), newZeroArr(n), c.Const(64, 0), n)
	}
	if l.pre {
		in.set(fr, l.phi.(*ssa.Phi), c.Sub(bound, c.Const(64, 1)))
		in.set(fr, l.step.(*ssa.BinOp), bound)
	} else {
		in.set(fr, l.phi.(*ssa.Phi), bound)
	}
	if l.lenOf != nil {
		in.set(fr, l.bound, bound)
	}
	in.set(fr, l.cond, c.Bool(false))
	in.jump(fr, l.done)
}
