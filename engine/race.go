package main

import (
	"fmt"
	"go/token"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Data races: accesses of the program's threads are ordered by vector clocks,
// over locks, wait groups, channels, once and the start and end of threads.
// Two accesses of one memory cell, one of them a write, that are not ordered
// are reported.

type vclock []uint32

func (a vclock) join(b vclock) vclock {
	for len(a) < len(b) {
		a = append(a, 0)
	}
	for i, x := range b {
		if x > a[i] {
			a[i] = x
		}
	}
	return a
}
func (a vclock) copy() vclock { return append(vclock(nil), a...) }
func (a vclock) at(i int) uint32 {
	if i < len(a) {
		return a[i]
	}
	return 0
}

type access struct {
	tid int
	clk uint32
	pos token.Pos
	fn  *ssa.Function
}
type cellRace struct {
	w     access
	wset  bool
	reads []access
}
type arrRace struct {
	acc []struct {
		access
		lo, hi uint64
		write  bool
	}
}

// raceOn says whether accesses of the current thread are recorded.
func (in *Interp) raceOn() bool { return in.races != nil && in.cur != nil && len(in.threads) > 1 }

func (in *Interp) clockOf(t *Thread) vclock {
	for len(t.vc) <= t.id {
		t.vc = append(t.vc, 0)
	}
	if t.vc[t.id] == 0 {
		t.vc[t.id] = 1
	}
	return t.vc
}

// release publishes what t did to whoever acquires the object next.
func (in *Interp) vcRelease(t *Thread, v *vclock) {
	if in.races == nil {
		return
	}
	c := in.clockOf(t)
	*v = (*v).join(c)
	c[t.id]++
}
func (in *Interp) vcAcquire(t *Thread, v vclock) {
	if in.races == nil {
		return
	}
	t.vc = in.clockOf(t).join(v)
}
func (in *Interp) objClock(k interface{}) *vclock {
	p := in.objVC[k]
	if p == nil {
		p = new(vclock)
		in.objVC[k] = p
	}
	return p
}
func (in *Interp) syncRelease(t *Thread, k interface{}) {
	if in.races != nil {
		in.vcRelease(t, in.objClock(k))
	}
}
func (in *Interp) syncAcquire(t *Thread, k interface{}) {
	if in.races != nil {
		in.vcAcquire(t, *in.objClock(k))
	}
}

// tracked: accesses made in this function count as the program's own.
func (in *Interp) tracked(fn *ssa.Function) bool {
	if b, ok := in.trackFn[fn]; ok {
		return b
	}
	b := false
	p := fn
	for p.Parent() != nil {
		p = p.Parent()
	}
	if p.Pkg == nil && p.Origin() != nil {
		p = p.Origin()
	}
	if p.Pkg != nil {
		s := p.Pkg.Pkg.Path()
		b = strings.HasPrefix(s, modPath) && !strings.Contains(s, "/internal/v") && !strings.HasPrefix(p.Name(), "vh") && !strings.HasPrefix(p.Name(), "VH_") && p.Name() != "init"
	}
	in.trackFn[fn] = b
	return b
}

func (in *Interp) raceAccess(t *Thread, fr *Frame, p *Value, write bool, site ssa.Instruction) {
	if p == nil {
		return
	}
	switch x := (*p).(type) {
	case StructV:
		for i := range x {
			in.raceAccess(t, fr, &x[i], write, site)
		}
		return
	case ArrV:
		for i := range x {
			in.raceAccess(t, fr, &x[i], write, site)
		}
		return
	}
	in.raceCell(t, fr, p, write, site)
}

func (in *Interp) raceCell(t *Thread, fr *Frame, p *Value, write bool, site ssa.Instruction) {
	cr := in.races[p]
	if cr == nil {
		cr = &cellRace{}
		in.races[p] = cr
	}
	me := in.clockOf(t)
	a := access{t.id, me[t.id], site.Pos(), fr.fn}
	if cr.wset && cr.w.tid != t.id && cr.w.clk > me.at(cr.w.tid) {
		in.raceFound(cr.w, true, a, write)
	}
	if !write {
		for i := range cr.reads {
			if cr.reads[i].tid == t.id {
				cr.reads[i] = a
				return
			}
		}
		cr.reads = append(cr.reads, a)
		return
	}
	for _, r := range cr.reads {
		if r.tid != t.id && r.clk > me.at(r.tid) {
			in.raceFound(r, false, a, true)
		}
	}
	cr.w, cr.wset = a, true
	cr.reads = cr.reads[:0]
}

// raceBytes is raceAccess for a range of a byte array. Ranges that are not
// constant are skipped.
func (in *Interp) raceBytes(t *Thread, fr *Frame, a *ByteArr, off, n *Term, write bool, site ssa.Instruction) {
	if a == nil || a.size == nil {
		return
	}
	off, n = in.c.norm(off), in.c.norm(n)
	if off.op != OConst || n.op != OConst || n.k == 0 {
		return
	}
	if a.size.op == OConst && a.size.k >= 1<<40 {
		return // the content of a file
	}
	r := in.byteRaces[a]
	if r == nil {
		r = &arrRace{}
		in.byteRaces[a] = r
	}
	me := in.clockOf(t)
	ac := access{t.id, me[t.id], site.Pos(), fr.fn}
	lo, hi := off.k, off.k+n.k
	for _, o := range r.acc {
		if o.tid != t.id && (o.write || write) && o.lo < hi && lo < o.hi && o.clk > me.at(o.tid) {
			in.raceFound(o.access, o.write, ac, write)
		}
	}
	for i, o := range r.acc {
		if o.tid == t.id && o.lo == lo && o.hi == hi && o.write == write {
			r.acc[i].access = ac
			return
		}
	}
	r.acc = append(r.acc, struct {
		access
		lo, hi uint64
		write  bool
	}{ac, lo, hi, write})
}

func (in *Interp) raceFound(a access, aw bool, b access, bw bool) {
	d := func(x access, w bool) string {
		s := "read"
		if w {
			s = "write"
		}
		return s + " in " + shortFn(x.fn)
	}
	p, q := d(a, aw), d(b, bw)
	if p > q {
		p, q = q, p
	}
	in.violation("race", fmt.Sprintf("data race: %s and %s", p, q))
}

func shortFn(fn *ssa.Function) string {
	s := fn.String()
	return strings.ReplaceAll(s, modPath+"/", "")
}

// raceInstr records the accesses of one instruction, before it is executed.
func (in *Interp) raceInstr(t *Thread, fr *Frame, instr ssa.Instruction) {
	switch x := instr.(type) {
	case *ssa.UnOp:
		if x.Op != token.MUL {
			return
		}
		if a, ok := x.X.(*ssa.Alloc); ok && !a.Heap {
			return
		}
		if !in.tracked(fr.fn) {
			return
		}
		switch p := in.get(fr, x.X).(type) {
		case *Value:
			in.raceAccess(t, fr, p, false, x)
		case BPtr:
			in.raceBytes(t, fr, p.a, p.i, in.c.Const(64, 1), false, x)
		}
	case *ssa.Store:
		if a, ok := x.Addr.(*ssa.Alloc); ok && !a.Heap {
			return
		}
		if !in.tracked(fr.fn) {
			return
		}
		switch p := in.get(fr, x.Addr).(type) {
		case *Value:
			in.raceAccess(t, fr, p, true, x)
		case BPtr:
			in.raceBytes(t, fr, p.a, p.i, in.c.Const(64, 1), true, x)
		}
	case *ssa.MapUpdate:
		if in.tracked(fr.fn) {
			if m, _ := in.get(fr, x.Map).(*MapV); m != nil {
				in.raceCell(t, fr, m.cell(), true, x)
			}
		}
	case *ssa.Lookup:
		if in.tracked(fr.fn) {
			if m, _ := in.get(fr, x.X).(*MapV); m != nil {
				in.raceCell(t, fr, m.cell(), false, x)
			}
		}
	case *ssa.Range:
		if in.tracked(fr.fn) {
			if m, _ := in.get(fr, x.X).(*MapV); m != nil {
				in.raceCell(t, fr, m.cell(), false, x)
			}
		}
	case *ssa.Call:
		b, ok := x.Call.Value.(*ssa.Builtin)
		if !ok {
			return
		}
		model := false
		if !in.tracked(fr.fn) {
			// a device access copies between the file and the program's buffer
			if fr.fn.Pkg == nil || !strings.HasSuffix(fr.fn.Pkg.Pkg.Path(), "/internal/vmodel") {
				return
			}
			model = true
		}
		switch b.Name() {
		case "copy":
			n := in.lenOf(in.get(fr, x.Call.Args[0]))
			m := in.lenOf(in.get(fr, x.Call.Args[1]))
			if n == nil || m == nil {
				return
			}
			if n.op == OConst && m.op == OConst && m.k < n.k {
				n = m
			}
			if d, ok := in.get(fr, x.Call.Args[0]).(BSlice); ok {
				in.raceBytes(t, fr, d.a, d.off, n, true, x)
			}
			if s, ok := in.get(fr, x.Call.Args[1]).(BSlice); ok {
				in.raceBytes(t, fr, s.a, s.off, n, false, x)
			}
		case "append":
			if model || len(x.Call.Args) < 2 {
				return
			}
			if s, ok := in.get(fr, x.Call.Args[1]).(BSlice); ok {
				in.raceBytes(t, fr, s.a, s.off, s.len, false, x)
			}
			if d, ok := in.get(fr, x.Call.Args[0]).(BSlice); ok {
				in.raceBytes(t, fr, d.a, d.off, d.len, false, x)
			}
		case "delete":
			if m, _ := in.get(fr, x.Call.Args[0]).(*MapV); m != nil && !model {
				in.raceCell(t, fr, m.cell(), true, x)
			}
		}
	}
}

func (in *Interp) lenOf(v Value) *Term {
	switch x := v.(type) {
	case BSlice:
		return in.c.norm(x.len)
	case Str:
		return in.c.Const(64, uint64(x.Len()))
	}
	return nil
}

// judyRace: the Judy library's arrays are shared C memory.
func (in *Interp) judyRace(t *Thread, recv Value, write bool, site ssa.Instruction) {
	if !in.raceOn() || len(t.frames) == 0 {
		return
	}
	fr := t.frames[len(t.frames)-1]
	if st, ok := (*cell(recv)).(StructV); ok {
		in.raceCell(t, fr, &st[0], write, site)
	}
}

// forkClock: what t did so far happens before the new thread.
func (in *Interp) forkClock(t, nt *Thread) {
	if in.races == nil {
		return
	}
	c := in.clockOf(t)
	nt.vc = c.copy()
	in.clockOf(nt)
	c[t.id]++
}
