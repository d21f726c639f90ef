package main

import (
	"fmt"
	"go/types"
	"math"
	"path/filepath"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const vsymPath = modPath + "/internal/vsym"

var debugLimits = false

// stub packages: every call returns zero results
var stubPrefix = []string{
	"go.opencensus.io/", "contrib.go.opencensus.io/", "github.com/prometheus/",
	"net/http.", "log.", "github.com/dustin/go-humanize",
}

func (in *Interp) lookupIntr(fn *ssa.Function) (Intrinsic, bool) {
	if ok, seen := in.intrOK[fn]; seen {
		return in.intr[fn], ok
	}
	it := in.findIntr(fn)
	in.intrOK[fn] = it != nil
	in.intr[fn] = it
	return it, it != nil
}

func (in *Interp) findIntr(fn *ssa.Function) Intrinsic {
	name := fn.String()
	if o := fn.Origin(); o != nil {
		name = o.String()
	}
	if fn.Pkg != nil && fn.Name() == "init" && fn.Pkg.Func("init") == fn {
		return func(t *Thread, a []Value, s ssa.Instruction) Value { return nil }
	}
	if strings.HasPrefix(name, modPath+"/metrics.init#") {
		return func(t *Thread, a []Value, s ssa.Instruction) Value { return nil }
	}
	if m := in.w.models[mangle(name)]; m != nil && strings.HasPrefix(m.Name(), "model_") {
		return func(t *Thread, a []Value, s ssa.Instruction) Value {
			in.pushFrame(t, m, a, nil, nil)
			return pushedV
		}
	}
	if it, ok := intrinsics[name]; ok {
		return it
	}
	if name == "hash/adler32.update" {
		return func(t *Thread, a []Value, s ssa.Instruction) Value {
			if v := in.adlerUpdate(a[0].(*Term), a[1].(BSlice)); v != nil {
				return v
			}
			in.pushFrame(t, fn, a, nil, nil)
			return pushedV
		}
	}
	if m := in.w.models[mangle(name)]; m != nil {
		return func(t *Thread, a []Value, s ssa.Instruction) Value {
			in.pushFrame(t, m, a, nil, nil)
			return pushedV
		}
	}
	path := ""
	if fn.Pkg != nil {
		path = fn.Pkg.Pkg.Path()
	} else if r := fn.Signature.Recv(); r != nil {
		ty := r.Type()
		if p, ok := ty.(*types.Pointer); ok {
			ty = p.Elem()
		}
		if n, ok := ty.(*types.Named); ok && n.Obj().Pkg() != nil {
			path = n.Obj().Pkg().Path()
		}
	}
	if path != "" {
		for _, p := range stubPrefix {
			if strings.HasPrefix(path+".", p) || strings.HasPrefix(path+"/", p) {
				return func(t *Thread, a []Value, s ssa.Instruction) Value { return in.zeroResult(fn) }
			}
		}
	}
	return nil
}

// adlerUpdate is hash/adler32.update in closed form, for slices of known length
// below the point where the real code reduces in between. The real code is
// interpreted for all others.
func (in *Interp) adlerUpdate(d *Term, p BSlice) Value {
	c := in.c
	n := c.norm(p.len)
	if n.op != OConst || n.k > 5552 {
		return nil
	}
	if n.k == 0 {
		return d
	}
	s1, s2 := c.Band(d, c.Const(32, 0xffff)), c.Lshr(d, c.Const(32, 16))
	l1, l2 := linacc{w: 32}, linacc{w: 32}
	l1.add(c, s1, 1)
	l2.add(c, s2, 1)
	l2.add(c, s1, n.k)
	for i := uint64(0); i < n.k; i++ {
		b := c.Zext(p.a.read(c, c.AddK(p.off, i)), 32)
		l1.add(c, b, 1)
		l2.add(c, b, n.k-i)
	}
	mod := c.Const(32, 65521)
	a, b := c.Urem(l1.done(c), mod), c.Urem(l2.done(c), mod)
	return c.Bor(c.Shl(b, c.Const(32, 16)), a)
}

// mangle turns a qualified function name into the name of its model:
// (*os.File).ReadAt -> os_File_ReadAt, path/filepath.Glob -> filepath_Glob.
func mangle(s string) string {
	s = strings.TrimPrefix(s, "(")
	s = strings.TrimPrefix(s, "*")
	s = strings.Replace(s, ")", "", 1)
	if i := strings.LastIndex(s, "/"); i >= 0 {
		s = s[i+1:]
	}
	s = strings.ReplaceAll(s, "go-judy", "judy")
	return strings.ReplaceAll(s, ".", "_")
}

func (in *Interp) str(v Value) string {
	s, ok := v.(Str).Conc()
	if !ok {
		limitf("symbolic string where a concrete one is needed at %s", in.where())
	}
	return s
}

func (in *Interp) uniq(name string) string {
	k := in.names[name]
	in.names[name] = k + 1
	return fmt.Sprintf("%s#%d", name, k)
}

func (in *Interp) mkInput(name string, w uint8) *Term {
	n := in.uniq(name)
	v := in.c.Var(fmt.Sprintf("%s:%d", n, w), w)
	in.inputs = append(in.inputs, Input{Name: n, Kind: "int", W: w, t: v})
	return v
}

func inputFn(w uint8) Intrinsic {
	return func(t *Thread, a []Value, s ssa.Instruction) Value {
		return t.in.mkInput(t.in.str(a[0]), w)
	}
}

func (in *Interp) mkBytes(name string, n *Term) BSlice {
	nm := in.uniq(name)
	in.inputs = append(in.inputs, Input{Name: nm, Kind: "bytes", t: n, arr: "a_" + nm})
	arr := newZeroArr(n)
	arr.segs = []seg{{0, INF, &nSym{"a_" + nm}, 0}}
	return BSlice{arr, in.c.Const(64, 0), n, n}
}

// goVal renders an interface argument for formatting.
func (in *Interp) goVal(v Value) interface{} {
	iv, ok := v.(Iface)
	if !ok {
		return "<?>"
	}
	if iv.t == nil {
		return nil
	}
	switch x := iv.v.(type) {
	case *Term:
		x = in.c.norm(x)
		if x.op != OConst {
			return "<sym>"
		}
		w, s, _ := intInfo(iv.t)
		if w == 0 {
			return x.k == 1
		}
		if s {
			return sx(x.k, w)
		}
		return x.k
	case Str:
		if s, ok := x.Conc(); ok {
			return s
		}
		return "<sym>"
	case float64:
		return x
	}
	return in.describe(iv, 3)
}

func (in *Interp) sprintf(a []Value) Str {
	f, ok := a[0].(Str).Conc()
	if !ok {
		return Str{S: "<fmt>"}
	}
	var gv []interface{}
	if sl, ok := a[1].(SliceV); ok {
		// hex formatting of a symbolic integer stays symbolic
		if sl.len == 1 && (f == "%x" || f == "%016x" || f == "%032x") {
			if iv, ok := sl.arr[sl.off].(Iface); ok && iv.t != nil {
				if t, ok := iv.v.(*Term); ok && t.op != OConst && t.w > 0 && f != "%x" {
					return in.hexStr(t, f)
				}
			}
		}
		for i := 0; i < sl.len; i++ {
			gv = append(gv, in.goVal(sl.arr[sl.off+i]))
		}
	}
	f = strings.ReplaceAll(f, "%w", "%v")
	return Str{S: fmt.Sprintf(f, gv...)}
}

// hexStr renders a symbolic integer in zero-padded lower-case hexadecimal.
func (in *Interp) hexStr(t *Term, f string) Str {
	c := in.c
	n := 16
	if f == "%032x" {
		n = 32
	}
	t = c.Zext(t, 64)
	out := make([]*Term, n)
	for i := 0; i < n; i++ {
		if i < n-16 {
			out[i] = c.Const(8, '0')
			continue
		}
		lo := (n - 1 - i) * 4
		d := c.Zext(c.Extract(t, lo+3, lo), 8)
		out[i] = c.Ite(c.Ult(d, c.Const(8, 10)), c.AddK(d, '0'), c.AddK(d, 'a'-10))
	}
	return mkStr(out)
}

func cell(v Value) *Value {
	p, ok := v.(*Value)
	if !ok || p == nil {
		limitf("intrinsic on nil or foreign pointer %T", v)
	}
	return p
}

func (in *Interp) mutex(p *Value) *mutexState {
	m := in.mu[p]
	if m == nil {
		m = &mutexState{}
		in.mu[p] = m
	}
	return m
}

func zeroRet(t *Thread, a []Value, s ssa.Instruction) Value {
	if c, ok := s.(ssa.CallInstruction); ok {
		r := c.Common().Signature().Results()
		switch r.Len() {
		case 0:
			return nil
		case 1:
			return t.in.zero(r.At(0).Type())
		}
		return t.in.zero(r)
	}
	return nil
}

func f1(f func(float64) float64) Intrinsic {
	return func(t *Thread, a []Value, s ssa.Instruction) Value { return f(a[0].(float64)) }
}

func atomicAdd(t *Thread, a []Value, s ssa.Instruction) Value {
	p := cell(a[0])
	v := t.in.c.Add((*p).(*Term), a[1].(*Term))
	*p = v
	return v
}
func atomicLoad(t *Thread, a []Value, s ssa.Instruction) Value { return *cell(a[0]) }
func atomicStore(t *Thread, a []Value, s ssa.Instruction) Value {
	*cell(a[0]) = a[1]
	return nil
}
func atomicSwap(t *Thread, a []Value, s ssa.Instruction) Value {
	p := cell(a[0])
	v := *p
	*p = a[1]
	return v
}
func atomicCAS(t *Thread, a []Value, s ssa.Instruction) Value {
	p := cell(a[0])
	if t.in.branch(t.in.equal(*p, a[1], t)) {
		*p = a[2]
		return t.in.c.True
	}
	return t.in.c.False
}

func (in *Interp) bytesEq(x, y BSlice) *Term {
	c := in.c
	zero := c.Const(64, 0)
	xl, yl := c.norm(x.len), c.norm(y.len)
	if !in.branch(c.Eq(xl, yl)) {
		return c.False
	}
	n := xl
	if n.op != OConst {
		n = yl
	}
	if n.op != OConst {
		n = c.Const(64, in.concretize(n))
	}
	_ = zero
	r := c.True
	for i := uint64(0); i < n.k; i++ {
		r = c.And(r, c.Eq(x.a.read(c, c.AddK(x.off, i)), y.a.read(c, c.AddK(y.off, i))))
	}
	return r
}

// assertSame asserts that two byte ranges agree at every index: the index is a
// fresh variable, so one query covers all of them.
func (in *Interp) assertSame(x, y BSlice, msg string) {
	c := in.c
	in.assert(c.Eq(x.len, y.len), msg+" (length)")
	n := c.norm(x.len)
	if n.op == OConst && n.k == 0 {
		return
	}
	if x.a == y.a && c.Eq(x.off, y.off).IsTrue() {
		return
	}
	if n.op == OConst && n.k <= 64 {
		r := c.True
		for i := uint64(0); i < n.k; i++ {
			r = c.And(r, c.Eq(x.a.read(c, c.AddK(x.off, i)), y.a.read(c, c.AddK(y.off, i))))
		}
		in.assert(r, msg)
		return
	}
	if !in.branch(c.Ult(c.Const(64, 0), n)) {
		return
	}
	in.nfresh++
	i := c.Var(fmt.Sprintf("idx#%d", in.nfresh), 64)
	in.assume(c.Ult(i, n))
	in.assert(c.Eq(x.a.read(c, c.Add(x.off, i)), y.a.read(c, c.Add(y.off, i))), msg)
}

var intrinsics map[string]Intrinsic

func init() {
	intrinsics = map[string]Intrinsic{
		// ---- harness API
		vsymPath + ".U64":  inputFn(64),
		vsymPath + ".U32":  inputFn(32),
		vsymPath + ".U16":  inputFn(16),
		vsymPath + ".U8":   inputFn(8),
		vsymPath + ".Bool": inputFn(0),
		vsymPath + ".Choice": func(t *Thread, a []Value, s ssa.Instruction) Value {
			in := t.in
			n := in.concretize(a[1].(*Term))
			if n == 0 {
				in.end("assume", "")
			}
			// every value is possible: a fork without a query
			v := in.c.Const(64, uint64(in.choose(int(n))))
			in.inputs = append(in.inputs, Input{Name: in.uniq(in.str(a[0])), Kind: "int", W: 64, t: v})
			return v
		},
		vsymPath + ".Pick": func(t *Thread, a []Value, s ssa.Instruction) Value {
			in := t.in
			v := a[0].(*Term)
			if in.w.thorough {
				v = a[1].(*Term)
			}
			in.inputs = append(in.inputs, Input{Name: in.uniq("tier pick"), Kind: "int", W: 64, t: v})
			return v
		},
		vsymPath + ".Bytes": func(t *Thread, a []Value, s ssa.Instruction) Value {
			return t.in.mkBytes(t.in.str(a[0]), t.in.c.norm(a[1].(*Term)))
		},
		vsymPath + ".Assume": func(t *Thread, a []Value, s ssa.Instruction) Value {
			t.in.assume(a[0].(*Term))
			return nil
		},
		vsymPath + ".Assert": func(t *Thread, a []Value, s ssa.Instruction) Value {
			t.in.assert(a[0].(*Term), t.in.str(a[1]))
			return nil
		},
		vsymPath + ".Fail": func(t *Thread, a []Value, s ssa.Instruction) Value {
			t.in.assert(t.in.c.False, t.in.str(a[0]))
			return nil
		},
		vsymPath + ".AssertSame": func(t *Thread, a []Value, s ssa.Instruction) Value {
			t.in.assertSame(a[0].(BSlice), a[1].(BSlice), t.in.str(a[2]))
			return nil
		},
		vsymPath + ".Same": func(t *Thread, a []Value, s ssa.Instruction) Value {
			return t.in.bytesEq(a[0].(BSlice), a[1].(BSlice))
		},
		vsymPath + ".Reach": func(t *Thread, a []Value, s ssa.Instruction) Value {
			t.in.reach[t.in.str(a[0])] = true
			return nil
		},
		vsymPath + ".Observe": func(t *Thread, a []Value, s ssa.Instruction) Value {
			t.in.obs = append(t.in.obs, Obs{t.in.str(a[0]), t.in.c.norm(a[1].(*Term))})
			return nil
		},
		vsymPath + ".Concretize": func(t *Thread, a []Value, s ssa.Instruction) Value {
			return t.in.c.Const(64, t.in.concretize(a[0].(*Term)))
		},
		vsymPath + ".Split": func(t *Thread, a []Value, s ssa.Instruction) Value {
			x := a[0].(*Term)
			step := a[1].(*Term).k
			old := t.in.cfg.SplitMax
			_ = old
			c := t.in.c
			for i := 0; i < 64; i++ {
				lo, hi := c.bounds(x)
				if lo/step == hi/step {
					break
				}
				mid := (lo/step + (hi/step-lo/step)/2 + 1) * step
				t.in.branch(c.Ult(x, c.Const(x.w, mid)))
				nl, nh := c.bounds(x)
				if nl == lo && nh == hi {
					break
				}
			}
			return c.norm(x)
		},
		vsymPath + ".Ite64": func(t *Thread, a []Value, s ssa.Instruction) Value {
			return t.in.c.Ite(a[0].(*Term), a[1].(*Term), a[2].(*Term))
		},
		vsymPath + ".And": func(t *Thread, a []Value, s ssa.Instruction) Value {
			return t.in.c.And(a[0].(*Term), a[1].(*Term))
		},
		vsymPath + ".Or": func(t *Thread, a []Value, s ssa.Instruction) Value {
			return t.in.c.Or(a[0].(*Term), a[1].(*Term))
		},
		vsymPath + ".Symbolic": func(t *Thread, a []Value, s ssa.Instruction) Value { return t.in.c.True },
		vsymPath + ".Schedules": func(t *Thread, a []Value, s ssa.Instruction) Value {
			t.in.schedAll = a[0].(*Term).IsTrue()
			return nil
		},
		vsymPath + ".Go": func(t *Thread, a []Value, s ssa.Instruction) Value {
			in := t.in
			nt := &Thread{in: in, id: len(in.threads)}
			in.threads = append(in.threads, nt)
			in.hids++
			nt.hid = in.hids
			in.forkClock(t, nt)
			cl := a[0].(*Closure)
			in.pushFrame(nt, cl.fn, nil, cl.env, nil)
			return nil
		},
		vsymPath + ".Idle": func(t *Thread, a []Value, s ssa.Instruction) Value {
			in := t.in
			idle := func() bool {
				for _, o := range in.threads {
					if o != t && !o.done && (o.ready == nil || o.ready()) {
						return false
					}
				}
				return true
			}
			if idle() {
				return nil
			}
			return in.block(t, "others to wait", idle)
		},
		vsymPath + ".Join": func(t *Thread, a []Value, s ssa.Instruction) Value {
			in := t.in
			ready := func() bool {
				for _, o := range in.threads {
					if o.hid > 0 && !o.done {
						return false
					}
				}
				return true
			}
			if ready() {
				for _, o := range in.threads {
					if o.hid > 0 {
						in.syncAcquire(t, o)
					}
				}
				return nil
			}
			return in.block(t, "join", ready)
		},
		vsymPath + ".TempDir": func(t *Thread, a []Value, s ssa.Instruction) Value {
			return Str{S: "/vtmp"}
		},

		// ---- fmt
		"fmt.Sprintf": func(t *Thread, a []Value, s ssa.Instruction) Value { return t.in.sprintf(a) },
		"fmt.Errorf": func(t *Thread, a []Value, s ssa.Instruction) Value {
			return t.in.mkErr(t.in.sprintf(a).S)
		},
		"fmt.Sprint": func(t *Thread, a []Value, s ssa.Instruction) Value {
			var gv []interface{}
			if sl, ok := a[0].(SliceV); ok {
				for i := 0; i < sl.len; i++ {
					gv = append(gv, t.in.goVal(sl.arr[sl.off+i]))
				}
			}
			return Str{S: fmt.Sprint(gv...)}
		},
		"fmt.Sprintln": func(t *Thread, a []Value, s ssa.Instruction) Value { return Str{S: "\n"} },
		"fmt.Printf":   zeroRet, "fmt.Println": zeroRet, "fmt.Print": zeroRet,
		"fmt.Fprintf": zeroRet, "fmt.Fprintln": zeroRet, "fmt.Fprint": zeroRet,

		// ---- runtime and friends
		"runtime.Callers": zeroRet, "runtime.GC": zeroRet, "runtime.Gosched": zeroRet, "runtime.KeepAlive": zeroRet,
		"runtime.SetFinalizer": zeroRet, "runtime.ReadMemStats": zeroRet, "runtime/debug.FreeOSMemory": zeroRet,
		"runtime/debug.SetGCPercent": zeroRet,
		"internal/abi.NoEscape":      func(t *Thread, a []Value, s ssa.Instruction) Value { return a[0] },
		"internal/abi.Escape":        func(t *Thread, a []Value, s ssa.Instruction) Value { return a[0] },
		"os.Exit": func(t *Thread, a []Value, s ssa.Instruction) Value {
			t.in.violation("panic", "os.Exit called")
			return nil
		},

		// ---- sync
		"(*sync.Mutex).Lock": func(t *Thread, a []Value, s ssa.Instruction) Value {
			m := t.in.mutex(cell(a[0]))
			t.in.schedNote(t)
			if m.writer {
				return t.in.block(t, "mutex", func() bool { return !m.writer })
			}
			t.in.vcAcquire(t, m.wvc)
			m.writer = true
			m.wOwner = t.id
			return nil
		},
		"(*sync.Mutex).TryLock": func(t *Thread, a []Value, s ssa.Instruction) Value {
			m := t.in.mutex(cell(a[0]))
			t.in.schedNote(t)
			if m.writer {
				return t.in.c.False
			}
			t.in.vcAcquire(t, m.wvc)
			m.writer = true
			return t.in.c.True
		},
		"(*sync.Mutex).Unlock": func(t *Thread, a []Value, s ssa.Instruction) Value {
			m := t.in.mutex(cell(a[0]))
			if !m.writer {
				t.in.violation("panic", "fatal error: sync: unlock of unlocked mutex")
			}
			t.in.vcRelease(t, &m.wvc)
			m.writer = false
			return nil
		},
		"(*sync.RWMutex).Lock": func(t *Thread, a []Value, s ssa.Instruction) Value {
			m := t.in.mutex(cell(a[0]))
			t.in.schedNote(t)
			if m.writer || m.readers > 0 {
				if !t.waitingW {
					t.waitingW = true
					m.waitingW++
				}
				return t.in.block(t, "rwmutex (write)", func() bool { return !m.writer && m.readers == 0 })
			}
			if t.waitingW {
				t.waitingW = false
				m.waitingW--
			}
			t.in.vcAcquire(t, m.wvc)
			t.in.vcAcquire(t, m.rvc)
			m.writer = true
			m.wOwner = t.id
			return nil
		},
		"(*sync.RWMutex).Unlock": func(t *Thread, a []Value, s ssa.Instruction) Value {
			m := t.in.mutex(cell(a[0]))
			if !m.writer {
				t.in.violation("panic", "fatal error: sync: Unlock of unlocked RWMutex")
			}
			t.in.vcRelease(t, &m.wvc)
			m.writer = false
			return nil
		},
		"(*sync.RWMutex).RLock": func(t *Thread, a []Value, s ssa.Instruction) Value {
			m := t.in.mutex(cell(a[0]))
			t.in.schedNote(t)
			if m.writer || m.waitingW > 0 {
				return t.in.block(t, "rwmutex (read)", func() bool { return !m.writer && m.waitingW == 0 })
			}
			t.in.vcAcquire(t, m.wvc)
			m.readers++
			return nil
		},
		"(*sync.RWMutex).RUnlock": func(t *Thread, a []Value, s ssa.Instruction) Value {
			m := t.in.mutex(cell(a[0]))
			if m.readers <= 0 {
				t.in.violation("panic", "fatal error: sync: RUnlock of unlocked RWMutex")
			}
			t.in.vcRelease(t, &m.rvc)
			m.readers--
			return nil
		},
		"(*sync.WaitGroup).Add": func(t *Thread, a []Value, s ssa.Instruction) Value {
			p := t.in.waitGroup(cell(a[0]))
			*p += int(int64(t.in.concretize(a[1].(*Term))))
			return nil
		},
		"(*sync.WaitGroup).Done": func(t *Thread, a []Value, s ssa.Instruction) Value {
			p := t.in.waitGroup(cell(a[0]))
			t.in.syncRelease(t, p)
			*p--
			return nil
		},
		"(*sync.WaitGroup).Wait": func(t *Thread, a []Value, s ssa.Instruction) Value {
			p := t.in.waitGroup(cell(a[0]))
			t.in.schedNote(t)
			if *p > 0 {
				return t.in.block(t, "waitgroup", func() bool { return *p <= 0 })
			}
			t.in.syncAcquire(t, p)
			return nil
		},
		"(*sync.Once).Do": func(t *Thread, a []Value, s ssa.Instruction) Value {
			p := cell(a[0])
			if o, ok := t.in.natObjs[p].(*Thread); ok {
				if o != t && t.in.races != nil {
					t.in.vcAcquire(t, t.in.clockOf(o))
					t.in.clockOf(o)[o.id]++
				}
				return nil
			}
			t.in.natObjs[p] = t
			cl := a[1].(*Closure)
			t.in.pushFrame(t, cl.fn, nil, cl.env, nil)
			return pushedV
		},
		"(*sync.Pool).Get": func(t *Thread, a []Value, s ssa.Instruction) Value {
			in := t.in
			p := cell(a[0])
			if l, ok := in.natObjs[p].([]Value); ok && len(l) > 0 {
				v := l[len(l)-1]
				in.syncAcquire(t, p)
				in.natObjs[p] = l[:len(l)-1]
				return v
			}
			st := (*p).(StructV)
			nf, _ := st[len(st)-1].(*Closure)
			if nf == nil {
				return Iface{}
			}
			in.pushFrame(t, nf.fn, nil, nf.env, nil)
			return pushedV
		},
		"(*sync.Pool).Put": func(t *Thread, a []Value, s ssa.Instruction) Value {
			p := cell(a[0])
			t.in.syncRelease(t, p)
			l, _ := t.in.natObjs[p].([]Value)
			t.in.natObjs[p] = append(l[:len(l):len(l)], a[1])
			return nil
		},
		"(*sync/atomic.Value).Load": func(t *Thread, a []Value, s ssa.Instruction) Value {
			if v, ok := t.in.natObjs[cell(a[0])].(Iface); ok {
				return v
			}
			return Iface{}
		},
		"(*sync/atomic.Value).Store": func(t *Thread, a []Value, s ssa.Instruction) Value {
			t.in.natObjs[cell(a[0])] = a[1]
			return nil
		},

		// ---- time
		"time.Now": func(t *Thread, a []Value, s ssa.Instruction) Value {
			t.in.clock++
			v := zeroRet(t, a, s).(StructV)
			v[1] = t.in.c.Const(64, 63900000000+t.in.clock)
			return v
		},
		"time.Since": zeroRet, "time.Until": zeroRet, "time.Sleep": zeroRet,
		"time.NewTicker": func(t *Thread, a []Value, s ssa.Instruction) Value { return t.in.neverTimer(s) },
		"time.NewTimer":  func(t *Thread, a []Value, s ssa.Instruction) Value { return t.in.neverTimer(s) },
		"time.After": func(t *Thread, a []Value, s ssa.Instruction) Value {
			return &ChanV{cap: 1, never: true}
		},
		"time.Tick": func(t *Thread, a []Value, s ssa.Instruction) Value {
			return &ChanV{cap: 1, never: true}
		},
		"(*time.Ticker).Stop": zeroRet, "(*time.Timer).Stop": zeroRet, "(*time.Ticker).Reset": zeroRet, "(*time.Timer).Reset": zeroRet,
		"(time.Time).String": func(t *Thread, a []Value, s ssa.Instruction) Value { return Str{S: "time"} },
		"(time.Time).Format": func(t *Thread, a []Value, s ssa.Instruction) Value { return Str{S: "time"} },

		// ---- bytes and strings
		"bytes.Equal": func(t *Thread, a []Value, s ssa.Instruction) Value {
			return t.in.bytesEq(a[0].(BSlice), a[1].(BSlice))
		},
		"internal/bytealg.IndexByteString": func(t *Thread, a []Value, s ssa.Instruction) Value {
			in := t.in
			st := a[0].(Str)
			for i, b := range in.strBytes(st) {
				if in.branch(in.c.Eq(b, a[1].(*Term))) {
					return in.c.Const(64, uint64(i))
				}
			}
			return in.c.Const(64, ^uint64(0))
		},
		"internal/bytealg.IndexByte": func(t *Thread, a []Value, s ssa.Instruction) Value {
			in := t.in
			x := a[0].(BSlice)
			n := in.concretize(x.len)
			for i := uint64(0); i < n; i++ {
				if in.branch(in.c.Eq(x.a.read(in.c, in.c.AddK(x.off, i)), a[1].(*Term))) {
					return in.c.Const(64, i)
				}
			}
			return in.c.Const(64, ^uint64(0))
		},
		"internal/bytealg.Compare": func(t *Thread, a []Value, s ssa.Instruction) Value {
			in, c := t.in, t.in.c
			x, y := in.strBytes(in.bytesToStr(a[0].(BSlice))), in.strBytes(in.bytesToStr(a[1].(BSlice)))
			n := len(x)
			if len(y) < n {
				n = len(y)
			}
			r := c.Const(64, 0)
			if len(x) < len(y) {
				r = c.Const(64, ^uint64(0))
			} else if len(x) > len(y) {
				r = c.Const(64, 1)
			}
			for i := n - 1; i >= 0; i-- {
				r = c.Ite(c.Ult(x[i], y[i]), c.Const(64, ^uint64(0)), c.Ite(c.Ult(y[i], x[i]), c.Const(64, 1), r))
			}
			return r
		},
		"internal/bytealg.CountString": func(t *Thread, a []Value, s ssa.Instruction) Value {
			st := t.in.str(a[0])
			return t.in.c.Const(64, uint64(strings.Count(st, string(rune(t.in.concretize(a[1].(*Term)))))))
		},
		"strings.Index": func(t *Thread, a []Value, s ssa.Instruction) Value {
			return t.in.c.Const(64, uint64(int64(strings.Index(t.in.str(a[0]), t.in.str(a[1])))))
		},
		"strings.LastIndex": func(t *Thread, a []Value, s ssa.Instruction) Value {
			return t.in.c.Const(64, uint64(int64(strings.LastIndex(t.in.str(a[0]), t.in.str(a[1])))))
		},
		"strings.Contains": func(t *Thread, a []Value, s ssa.Instruction) Value {
			return t.in.c.Bool(strings.Contains(t.in.str(a[0]), t.in.str(a[1])))
		},
		"strings.Split": func(t *Thread, a []Value, s ssa.Instruction) Value {
			return t.in.strList(strings.Split(t.in.str(a[0]), t.in.str(a[1])))
		},
		"strings.Join": func(t *Thread, a []Value, s ssa.Instruction) Value {
			var l []string
			sl := a[0].(SliceV)
			for i := 0; i < sl.len; i++ {
				l = append(l, t.in.str(sl.arr[sl.off+i]))
			}
			return Str{S: strings.Join(l, t.in.str(a[1]))}
		},
		"strings.Replace": func(t *Thread, a []Value, s ssa.Instruction) Value {
			return Str{S: strings.Replace(t.in.str(a[0]), t.in.str(a[1]), t.in.str(a[2]), int(int64(t.in.concretize(a[3].(*Term)))))}
		},
		"strings.TrimSpace": func(t *Thread, a []Value, s ssa.Instruction) Value {
			return Str{S: strings.TrimSpace(t.in.str(a[0]))}
		},
		"strings.ToLower": func(t *Thread, a []Value, s ssa.Instruction) Value {
			return Str{S: strings.ToLower(t.in.str(a[0]))}
		},
		"strings.Compare": func(t *Thread, a []Value, s ssa.Instruction) Value {
			return t.in.c.Const(64, uint64(int64(strings.Compare(t.in.str(a[0]), t.in.str(a[1])))))
		},
		"path/filepath.Dir":  func(t *Thread, a []Value, s ssa.Instruction) Value { return Str{S: filepath.Dir(t.in.str(a[0]))} },
		"path/filepath.Base": func(t *Thread, a []Value, s ssa.Instruction) Value { return Str{S: filepath.Base(t.in.str(a[0]))} },
		"path/filepath.Ext":  func(t *Thread, a []Value, s ssa.Instruction) Value { return Str{S: filepath.Ext(t.in.str(a[0]))} },
		"path/filepath.Clean": func(t *Thread, a []Value, s ssa.Instruction) Value {
			return Str{S: filepath.Clean(t.in.str(a[0]))}
		},
		"path/filepath.Join": func(t *Thread, a []Value, s ssa.Instruction) Value {
			var l []string
			sl := a[0].(SliceV)
			for i := 0; i < sl.len; i++ {
				l = append(l, t.in.str(sl.arr[sl.off+i]))
			}
			return Str{S: filepath.Join(l...)}
		},
		"path/filepath.Abs": func(t *Thread, a []Value, s ssa.Instruction) Value {
			p := t.in.str(a[0])
			if !filepath.IsAbs(p) {
				p = filepath.Join("/vcwd", p)
			}
			return TupleV{Str{S: p}, Iface{}}
		},
		"path/filepath.Match": func(t *Thread, a []Value, s ssa.Instruction) Value {
			ok, err := filepath.Match(t.in.str(a[0]), t.in.str(a[1]))
			e := Iface{}
			if err != nil {
				e = t.in.mkErr(err.Error())
			}
			return TupleV{t.in.c.Bool(ok), e}
		},

		// ---- errors
		"errors.Is": func(t *Thread, a []Value, s ssa.Instruction) Value {
			in := t.in
			e, target := a[0].(Iface), a[1].(Iface)
			for d := 0; d < 20; d++ {
				if in.branch(in.equal(e, target, t)) {
					return in.c.True
				}
				if e.t == nil {
					return in.c.False
				}
				m := in.w.lookupMethod(e.t, "Unwrap")
				if m == nil {
					return in.c.False
				}
				v, ok := in.callSync(t, in.fnVal(m), []Value{e.v})
				if !ok {
					return nil
				}
				n, ok := v.(Iface)
				if !ok {
					return in.c.False
				}
				e = n
			}
			return in.c.False
		},

		// ---- sort
		"sort.Slice":       sortSlice,
		"sort.SliceStable": sortSlice,

		// ---- math
		"math.Floor": f1(math.Floor), "math.Ceil": f1(math.Ceil), "math.Trunc": f1(math.Trunc), "math.Sqrt": f1(math.Sqrt),
		"math.Abs": f1(math.Abs), "math.Log": f1(math.Log), "math.Log2": f1(math.Log2), "math.Exp": f1(math.Exp), "math.Round": f1(math.Round),
		"math.Pow": func(t *Thread, a []Value, s ssa.Instruction) Value { return math.Pow(a[0].(float64), a[1].(float64)) },
		"math.Max": func(t *Thread, a []Value, s ssa.Instruction) Value { return math.Max(a[0].(float64), a[1].(float64)) },
		"math.Min": func(t *Thread, a []Value, s ssa.Instruction) Value { return math.Min(a[0].(float64), a[1].(float64)) },
		"math.Float64bits": func(t *Thread, a []Value, s ssa.Instruction) Value {
			return t.in.c.Const(64, math.Float64bits(a[0].(float64)))
		},
		"math.Float64frombits": func(t *Thread, a []Value, s ssa.Instruction) Value {
			return math.Float64frombits(t.in.concretize(a[0].(*Term)))
		},
		"math/bits.Mul64": func(t *Thread, a []Value, s ssa.Instruction) Value {
			return nil
		},
	}
	delete(intrinsics, "math/bits.Mul64")
	at := func(f Intrinsic) Intrinsic {
		return func(t *Thread, a []Value, s ssa.Instruction) Value {
			if n := len(t.frames); n > 0 && t.in.tracked(t.frames[n-1].fn) {
				t.in.schedNote(t)
			}
			if t.in.races != nil {
				t.in.syncAcquire(t, cell(a[0]))
				t.in.syncRelease(t, cell(a[0]))
			}
			return f(t, a, s)
		}
	}
	for _, ty := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr", "Pointer"} {
		intrinsics["sync/atomic.Load"+ty] = at(atomicLoad)
		intrinsics["sync/atomic.Store"+ty] = at(atomicStore)
		intrinsics["sync/atomic.Swap"+ty] = at(atomicSwap)
		intrinsics["sync/atomic.CompareAndSwap"+ty] = at(atomicCAS)
		if ty != "Pointer" {
			intrinsics["sync/atomic.Add"+ty] = at(atomicAdd)
		}
	}
	registerJudy()
}

func (in *Interp) strList(l []string) SliceV {
	arr := make([]Value, len(l))
	for i, s := range l {
		arr[i] = Str{S: s}
	}
	return SliceV{arr, 0, len(arr), len(arr), true}
}

func (in *Interp) waitGroup(p *Value) *int {
	w := in.wg[p]
	if w == nil {
		w = new(int)
		in.wg[p] = w
	}
	return w
}

func (in *Interp) neverTimer(s ssa.Instruction) Value {
	pt := s.(*ssa.Call).Type().(*types.Pointer)
	p := new(Value)
	*p = in.zero(pt.Elem())
	st := (*p).(StructV)
	st[0] = &ChanV{cap: 1, never: true}
	return p
}

func (w *World) lookupMethod(t types.Type, name string) *ssa.Function {
	w.mu.Lock()
	defer w.mu.Unlock()
	ms := w.prog.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			return w.prog.MethodValue(ms.At(i))
		}
	}
	return nil
}

// sortSlice orders by insertion with the program's own comparison.
func sortSlice(t *Thread, a []Value, s ssa.Instruction) Value {
	in := t.in
	sl, ok := a[0].(Iface).v.(SliceV)
	if !ok {
		limitf("sort.Slice of %T", a[0].(Iface).v)
	}
	less := func(i, j int) (bool, bool) {
		v, ok := in.callSync(t, a[1], []Value{in.c.Const(64, uint64(i)), in.c.Const(64, uint64(j))})
		if !ok {
			return false, false
		}
		return in.branch(v.(*Term)), true
	}
	for i := 1; i < sl.len; i++ {
		for j := i; j > 0; j-- {
			l, ok := less(j, j-1)
			if !ok {
				return nil
			}
			if !l {
				break
			}
			x, y := &sl.arr[sl.off+j], &sl.arr[sl.off+j-1]
			tmp := copyVal(*x)
			storeInto(x, copyVal(*y))
			storeInto(y, tmp)
		}
	}
	return nil
}
