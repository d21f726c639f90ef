package main

import (
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The Judy arrays (a cgo library) are replaced by a model: an unordered list
// of keys (and values); lookups and searches fork on the order of keys where
// it matters. The object lives in the struct's pointer field, as in the real
// library, so copying the Go struct shares it.
type judyObj struct {
	keys []*Term
	vals []*Term
}

func judyOf(in *Interp, v Value, create bool) *judyObj {
	st := (*cell(v)).(StructV)
	if u, ok := st[0].(UPtr); ok {
		if j, ok := u.v.(*judyObj); ok {
			return j
		}
	}
	j := &judyObj{}
	if create {
		st[0] = UPtr{j}
	}
	return j
}

func (j *judyObj) find(in *Interp, k *Term) int {
	for i, x := range j.keys {
		if in.branch(in.c.Eq(x, k)) {
			return i
		}
	}
	return -1
}
func (j *judyObj) del(i int) {
	j.keys = append(append([]*Term(nil), j.keys[:i]...), j.keys[i+1:]...)
	if j.vals != nil {
		j.vals = append(append([]*Term(nil), j.vals[:i]...), j.vals[i+1:]...)
	}
}

// search: smallest key >= (or >) idx, or largest key <= (or <) idx.
func (j *judyObj) search(in *Interp, idx *Term, up, strict bool) int {
	c := in.c
	best := -1
	for i, k := range j.keys {
		var ok *Term
		switch {
		case up && strict:
			ok = c.Ult(idx, k)
		case up:
			ok = c.Ule(idx, k)
		case strict:
			ok = c.Ult(k, idx)
		default:
			ok = c.Ule(k, idx)
		}
		if !in.branch(ok) {
			continue
		}
		if best >= 0 {
			var better *Term
			if up {
				better = c.Ult(k, j.keys[best])
			} else {
				better = c.Ult(j.keys[best], k)
			}
			if !in.branch(better) {
				continue
			}
		}
		best = i
	}
	return best
}

func (j *judyObj) freeKey(in *Interp, idx *Term, up, strict bool) (*Term, bool) {
	c := in.c
	k := idx
	step := uint64(1)
	lim := mask(64)
	if !up {
		step = ^uint64(0)
		lim = 0
	}
	if strict {
		if in.branch(c.Eq(k, c.Const(64, lim))) {
			return c.Const(64, 0), false
		}
		k = c.AddK(k, step)
	}
	for {
		if j.find(in, k) < 0 {
			return k, true
		}
		if in.branch(c.Eq(k, c.Const(64, lim))) {
			return c.Const(64, 0), false
		}
		k = c.AddK(k, step)
	}
}

func registerJudy() {
	const J = "github.com/thesues/go-judy."
	writes := map[string]bool{"Set": true, "Unset": true, "Delete": true, "Insert": true, "Free": true}
	reg := func(name string, f func(in *Interp, recv Value, a []*Term) Value) {
		w := writes[name[strings.LastIndex(name, ".")+1:]]
		intrinsics[name] = func(t *Thread, a []Value, s ssa.Instruction) Value {
			if p, ok := a[0].(*Value); !ok || p == nil {
				t.in.rtPanic(t, "invalid memory address or nil pointer dereference")
				return nil
			}
			t.in.judyRace(t, a[0], w, s)
			ts := make([]*Term, len(a)-1)
			for i := range ts {
				ts[i] = t.in.c.norm(a[i+1].(*Term))
			}
			return f(t.in, a[0], ts)
		}
	}
	for _, kind := range []string{"Judy1", "JudyL"} {
		kind := kind
		m := "(*" + J + kind + ")."
		pair := func(in *Interp, j *judyObj, i int) Value {
			c := in.c
			if i < 0 {
				if kind == "JudyL" {
					return TupleV{c.Const(64, 0), c.Const(64, 0), c.False}
				}
				return TupleV{c.Const(64, 0), c.False}
			}
			if kind == "JudyL" {
				return TupleV{j.keys[i], j.vals[i], c.True}
			}
			return TupleV{j.keys[i], c.True}
		}
		for n, d := range map[string][2]bool{"First": {true, false}, "Next": {true, true}, "Last": {false, false}, "Prev": {false, true}} {
			d := d
			reg(m+n, func(in *Interp, r Value, a []*Term) Value {
				j := judyOf(in, r, false)
				return pair(in, j, j.search(in, a[0], d[0], d[1]))
			})
		}
		for n, d := range map[string][2]bool{"FirstEmpty": {true, false}, "NextEmpty": {true, true}, "LastEmpty": {false, false}, "PrevEmpty": {false, true}} {
			d := d
			reg(m+n, func(in *Interp, r Value, a []*Term) Value {
				j := judyOf(in, r, false)
				k, ok := j.freeKey(in, a[0], d[0], d[1])
				return TupleV{k, in.c.Bool(ok)}
			})
		}
		reg(m+"CountAll", func(in *Interp, r Value, a []*Term) Value {
			return in.c.Const(64, uint64(len(judyOf(in, r, false).keys)))
		})
		reg(m+"CountFrom", func(in *Interp, r Value, a []*Term) Value {
			n := uint64(0)
			for _, k := range judyOf(in, r, false).keys {
				if in.branch(in.c.And(in.c.Ule(a[0], k), in.c.Ule(k, a[1]))) {
					n++
				}
			}
			return in.c.Const(64, n)
		})
		reg(m+"ByCount", func(in *Interp, r Value, a []*Term) Value {
			j := judyOf(in, r, false)
			n := in.concretize(a[0])
			i := j.search(in, in.c.Const(64, 0), true, false)
			for ; n > 1 && i >= 0; n-- {
				i = j.search(in, j.keys[i], true, true)
			}
			if n == 0 {
				i = -1
			}
			return pair(in, j, i)
		})
		reg(m+"MemoryUsed", func(in *Interp, r Value, a []*Term) Value {
			return in.c.Const(64, uint64(len(judyOf(in, r, false).keys))*16)
		})
		reg(m+"Free", func(in *Interp, r Value, a []*Term) Value {
			j := judyOf(in, r, false)
			n := uint64(len(j.keys)) * 16
			(*cell(r)).(StructV)[0] = UPtr{}
			return in.c.Const(64, n)
		})
	}
	reg("(*"+J+"Judy1).Set", func(in *Interp, r Value, a []*Term) Value {
		j := judyOf(in, r, true)
		if j.find(in, a[0]) >= 0 {
			return in.c.False
		}
		j.keys = append(j.keys[:len(j.keys):len(j.keys)], a[0])
		return in.c.True
	})
	unset := func(in *Interp, r Value, a []*Term) Value {
		j := judyOf(in, r, true)
		i := j.find(in, a[0])
		if i < 0 {
			return in.c.False
		}
		j.del(i)
		return in.c.True
	}
	reg("(*"+J+"Judy1).Unset", unset)
	reg("(*"+J+"JudyL).Delete", unset)
	reg("(*"+J+"Judy1).Test", func(in *Interp, r Value, a []*Term) Value {
		return in.c.Bool(judyOf(in, r, false).find(in, a[0]) >= 0)
	})
	reg("(*"+J+"JudyL).Insert", func(in *Interp, r Value, a []*Term) Value {
		j := judyOf(in, r, true)
		if i := j.find(in, a[0]); i >= 0 {
			j.vals = append([]*Term(nil), j.vals...)
			j.vals[i] = a[1]
			return nil
		}
		j.keys = append(j.keys[:len(j.keys):len(j.keys)], a[0])
		j.vals = append(j.vals[:len(j.vals):len(j.vals)], a[1])
		return nil
	})
	reg("(*"+J+"JudyL).Get", func(in *Interp, r Value, a []*Term) Value {
		j := judyOf(in, r, false)
		if i := j.find(in, a[0]); i >= 0 {
			return TupleV{j.vals[i], in.c.True}
		}
		return TupleV{in.c.Const(64, 0), in.c.False}
	})
}
