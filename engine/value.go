package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Value interface{}

type Str struct {
	S string
	B []*Term // symbolic bytes when non-nil (S unused)
}
type BPtr struct {
	a *ByteArr
	i *Term
}
type StructV []Value
type ArrV []Value
type SliceV struct {
	arr           []Value
	off, len, cap int
	nonnil        bool
}
type BSlice struct {
	a             *ByteArr
	off, len, cap *Term
}
type Closure struct {
	fn  *ssa.Function
	env []Value
	nat func(t *Thread, args []Value) Value // native closure
}
type BuiltinV struct{ name string }
type Iface struct {
	t types.Type
	v Value
}
type TupleV []Value
type UPtr struct{ v Value }
type MapV struct {
	idx    map[string]int
	keys   []Value
	vals   []*Value
	live   []bool
	n      int
	anySym bool
	id     *Value
}

// cell stands for the map as a whole.
func (m *MapV) cell() *Value {
	if m.id == nil {
		m.id = new(Value)
	}
	return m.id
}
type ChanV struct {
	cap    int
	buf    []Value
	closed bool
	items  []*sendItem
	nrecv  int
	never  bool
	id     int
}
type rangeIter struct {
	m   *MapV
	i   int
	s   Str
	str bool
}

func isByteElem(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

func intInfo(t types.Type) (w uint8, signed bool, ok bool) {
	b, isb := t.Underlying().(*types.Basic)
	if !isb {
		return 0, false, false
	}
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return 0, false, true
	case types.Int8:
		return 8, true, true
	case types.Uint8:
		return 8, false, true
	case types.Int16:
		return 16, true, true
	case types.Uint16:
		return 16, false, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Uint32:
		return 32, false, true
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, true
	}
	return 0, false, false
}
func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}
func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func (in *Interp) zero(t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if w, _, ok := intInfo(u); ok {
			return in.c.Const(w, 0)
		}
		if u.Info()&types.IsFloat != 0 {
			return float64(0)
		}
		if u.Info()&types.IsString != 0 {
			return Str{}
		}
		if u.Kind() == types.UnsafePointer {
			return UPtr{}
		}
		if u.Kind() == types.UntypedNil {
			return nil
		}
		if u.Info()&types.IsComplex != 0 {
			return complex128(0)
		}
	case *types.Pointer:
		return (*Value)(nil)
	case *types.Slice:
		if isByteElem(u.Elem()) {
			z := in.c.Const(64, 0)
			return BSlice{nil, z, z, z}
		}
		return SliceV{}
	case *types.Array:
		if isByteElem(u.Elem()) {
			return newZeroArr(in.c.Const(64, uint64(u.Len())))
		}
		a := make(ArrV, u.Len())
		in.fillZero(a, u.Elem())
		return a
	case *types.Struct:
		s := make(StructV, u.NumFields())
		for i := range s {
			s[i] = in.zero(u.Field(i).Type())
		}
		return s
	case *types.Map:
		return (*MapV)(nil)
	case *types.Chan:
		return (*ChanV)(nil)
	case *types.Signature:
		return (*Closure)(nil)
	case *types.Interface:
		return Iface{}
	case *types.Tuple:
		tv := make(TupleV, u.Len())
		for i := range tv {
			tv[i] = in.zero(u.At(i).Type())
		}
		return tv
	}
	panic(fmt.Sprintf("zero of %s", t))
}

// copyVal copies aggregate values (structs, arrays).
func copyVal(v Value) Value {
	switch x := v.(type) {
	case StructV:
		n := make(StructV, len(x))
		for i := range x {
			n[i] = copyVal(x[i])
		}
		return n
	case ArrV:
		n := make(ArrV, len(x))
		for i := range x {
			n[i] = copyVal(x[i])
		}
		return n
	case *ByteArr:
		return x.clone()
	}
	return v
}

// storeInto writes v into the cell keeping identities of interior cells.
func storeInto(p *Value, v Value) {
	switch x := v.(type) {
	case StructV:
		if d, ok := (*p).(StructV); ok && len(d) == len(x) {
			for i := range x {
				storeInto(&d[i], x[i])
			}
			return
		}
		*p = copyVal(x)
	case ArrV:
		if d, ok := (*p).(ArrV); ok && len(d) == len(x) {
			for i := range x {
				storeInto(&d[i], x[i])
			}
			return
		}
		*p = copyVal(x)
	case *ByteArr:
		if d, ok := (*p).(*ByteArr); ok {
			d.assignFrom(x)
			return
		}
		*p = x.clone()
	default:
		*p = v
	}
}

func (s Str) Len() int {
	if s.B != nil {
		return len(s.B)
	}
	return len(s.S)
}
func (s Str) Conc() (string, bool) {
	if s.B == nil {
		return s.S, true
	}
	b := make([]byte, len(s.B))
	for i, t := range s.B {
		if t.op != OConst {
			return "", false
		}
		b[i] = byte(t.k)
	}
	return string(b), true
}
func (in *Interp) strBytes(s Str) []*Term {
	if s.B != nil {
		return s.B
	}
	r := make([]*Term, len(s.S))
	for i := range r {
		r[i] = in.c.Const(8, uint64(s.S[i]))
	}
	return r
}
func mkStr(b []*Term) Str {
	allc := true
	for _, t := range b {
		if t.op != OConst {
			allc = false
			break
		}
	}
	if allc {
		var sb strings.Builder
		for _, t := range b {
			sb.WriteByte(byte(t.k))
		}
		return Str{S: sb.String()}
	}
	return Str{B: b}
}
func (s Str) slice(lo, hi int) Str {
	if s.B != nil {
		return mkStr(s.B[lo:hi])
	}
	return Str{S: s.S[lo:hi]}
}

// describe renders a value for messages.
func (in *Interp) describe(v Value, d int) string {
	switch x := v.(type) {
	case nil:
		return "nil"
	case *Term:
		if x.op == OConst {
			if x.w == 0 {
				return fmt.Sprint(x.k == 1)
			}
			return fmt.Sprintf("%d", sx(x.k, x.w))
		}
		return "<sym>"
	case Str:
		if s, ok := x.Conc(); ok {
			return s
		}
		return "<symstr>"
	case Iface:
		if x.t == nil {
			return "nil"
		}
		if d > 0 {
			if s := in.errString(x, d-1); s != "" {
				return s
			}
		}
		return in.describe(x.v, d)
	case *Value:
		if x == nil {
			return "nil"
		}
		if d > 0 {
			return "&" + in.describe(*x, d-1)
		}
		return "ptr"
	case StructV:
		if d == 0 {
			return "{..}"
		}
		var p []string
		for _, f := range x {
			p = append(p, in.describe(f, d-1))
		}
		return "{" + strings.Join(p, " ") + "}"
	}
	return fmt.Sprintf("%T", v)
}

// errString digs a message out of common error representations.
func (in *Interp) errString(x Iface, d int) string {
	p, ok := x.v.(*Value)
	if !ok || p == nil {
		return ""
	}
	if st, ok := (*p).(StructV); ok && d > 0 {
		var parts []string
		for _, f := range st {
			switch y := f.(type) {
			case Str:
				if s, ok := y.Conc(); ok {
					parts = append(parts, s)
				}
			case Iface:
				if y.t != nil {
					if s := in.errString(y, d-1); s != "" {
						parts = append(parts, s)
					}
				}
			}
		}
		return strings.Join(parts, ": ")
	}
	return ""
}
