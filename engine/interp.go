package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type fnInfo struct {
	idx map[ssa.Value]int
	n   int
}

type Frame struct {
	fn      *ssa.Function
	info    *fnInfo
	env     []Value
	free    []Value
	block   *ssa.BasicBlock
	prev    *ssa.BasicBlock
	pc      int
	defers  []*deferred
	panic_  *panicState
	res     ssa.Value // register in the caller's frame
	deferOf *Frame    // frame whose deferred call this is
	sync    bool      // boundary of callSync
	isGo    bool
	loops   map[*ssa.BasicBlock]int
}
type deferred struct {
	fn   Value
	args []Value
	call *ssa.CallCommon
	site ssa.Instruction
}
type panicState struct {
	v         Value
	recovered bool
	msg       string
	where     string
}

type Thread struct {
	in       *Interp
	id       int
	frames   []*Frame
	done     bool
	ready    func() bool // nil: runnable
	why      string
	pending  *sendItem
	result   Value
	syncRes  Value
	uncaught *panicState
	lockset  []*mutexState
	waitingW   bool
	background bool
	vc         vclock
	hid        int  // number of the harness's thread, 0 for others
	started    bool
}
type sendItem struct {
	v     Value
	taken bool
}

type mutexState struct {
	writer   bool
	wOwner   int
	readers  int
	waitingW int
	name     string
	wvc, rvc vclock
}

type pathEnd struct {
	kind string // assume, done, violation, limit, infeasible, deadlock
	msg  string
}

type Input struct {
	Name string `json:"name"`
	Kind string `json:"kind"`
	W    uint8  `json:"w,omitempty"`
	t    *Term  // value or length
	arr  string
}
type Obs struct {
	Name string
	t    *Term
}

type Violation struct {
	Harness string
	Sig     string
	Msg     string
	Where   string
	Kind    string // assert, panic, deadlock, steps
	Inputs  []InputVal
	Trace   []string
	Sched   []int
}
type InputVal struct {
	Name   string           `json:"name"`
	Kind   string           `json:"kind"`
	Value  uint64           `json:"value"`
	Bytes  string           `json:"bytes,omitempty"` // hex
	Sparse map[string]uint8 `json:"sparse,omitempty"`
}

type Interp struct {
	w       *World
	c       *Ctx
	s       *Solver
	byteLoops map[*ssa.BasicBlock]*byteLoop
	infos   map[*ssa.Function]*fnInfo
	consts  map[*ssa.Const]Value
	fnvals  map[*ssa.Function]*Closure
	intr    map[*ssa.Function]Intrinsic
	intrOK  map[*ssa.Function]bool
	methods map[string]*ssa.Function
	cfg     *HarnessCfg
	run     *Run

	// path state
	prefix    []int64 // decision in the low half, check value in the upper half
	decisions []int64
	conds     []*Term
	globals   map[*ssa.Global]*Value
	threads   []*Thread
	cur       *Thread
	inputs    []Input
	names     map[string]int
	obs       []Obs
	reach     map[string]bool
	steps     int
	mu        map[*Value]*mutexState
	wg        map[*Value]*int
	nfresh    int
	addrSeq   int
	switches  int
	schedAll  bool
	races     map[*Value]*cellRace
	byteRaces map[*ByteArr]*arrRace
	objVC     map[interface{}]*vclock
	trackFn   map[*ssa.Function]bool
	hids      int
	natObjs   map[*Value]interface{}
	inited    map[*ssa.Package]bool
	pathFns   map[*ssa.Function]bool
	unknown   bool
	quiet     int
	extraKV   map[string]Value
	mergeInts bool
	chanSeq   int
	stepsHit  bool
	traceOn   bool
	objSeq    int
	sched     []int
	clock     uint64
	allFns    map[string]bool
}

type Intrinsic func(t *Thread, args []Value, site ssa.Instruction) Value

type retryT struct{}

var retryV = &retryT{}

type pushedT struct{}

var pushedV = &pushedT{} // intrinsic pushed a frame that will deliver the result

func NewInterp(w *World) *Interp {
	c := NewCtx()
	in := &Interp{w: w, c: c, s: NewSolver(c, w.solverTimeout), infos: map[*ssa.Function]*fnInfo{}, consts: map[*ssa.Const]Value{}, fnvals: map[*ssa.Function]*Closure{}, intr: map[*ssa.Function]Intrinsic{}, intrOK: map[*ssa.Function]bool{}, methods: map[string]*ssa.Function{}}
	return in
}

func (in *Interp) info(fn *ssa.Function) *fnInfo {
	if fi := in.infos[fn]; fi != nil {
		return fi
	}
	fi := &fnInfo{idx: map[ssa.Value]int{}}
	add := func(v ssa.Value) { fi.idx[v] = fi.n; fi.n++ }
	for _, p := range fn.Params {
		add(p)
	}
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			if v, ok := i.(ssa.Value); ok {
				add(v)
			}
		}
	}
	in.infos[fn] = fi
	return fi
}

// ------------------------------------------------------------ path control

func (in *Interp) end(kind, f string, a ...interface{}) {
	panic(pathEnd{kind, fmt.Sprintf(f, a...)})
}

func (in *Interp) slice(t *Term) []*Term {
	vs := append([]uint64(nil), t.vars...)
	used := make([]bool, len(in.conds))
	out := []*Term{t}
	for changed := true; changed; {
		changed = false
		for i, p := range in.conds {
			if !used[i] && varsIntersect(vs, p.vars) {
				used[i] = true
				out = append(out, p)
				n := unionVars(vs, p.vars)
				if len(n) != len(vs) || &n[0] != &vs[0] {
					vs = append([]uint64(nil), n...)
					changed = true
				}
			}
		}
	}
	return out
}

// feasible asks whether the path condition plus t is satisfiable; the model
// returned is the current model updated with the solver's values.
func (in *Interp) feasible(t *Term) (SatResult, *Model) {
	if t.IsFalse() {
		return Unsat, nil
	}
	if in.c.eval(t) == 1 {
		return Sat, in.c.model
	}
	if time.Now().After(in.run.deadline) {
		in.end("limit", "time budget of the harness")
	}
	sl := in.slice(t)
	t0 := time.Now()
	r, m := in.s.Check(sl)
	if r == Unknown {
		r, m = in.hardCheck(t, sl)
	}
	if profOn {
		profAdd(in.where(), time.Since(t0), fmt.Sprintf("%v %d %s", r, len(sl), t.str(6)))
	}
	if r != Sat {
		return r, nil
	}
	nm := in.c.model.Clone()
	for k, v := range m.V {
		nm.V[k] = v
	}
	for k, a := range m.A {
		nm.A[k] = a
	}
	return Sat, nm
}

// hardCheck retries an undecided query after rewriting the path condition under
// everything learned on the path; the rewritten conditions are consequences of
// the original ones and are added to them.
func (in *Interp) hardCheck(t *Term, sl []*Term) (SatResult, *Model) {
	c := in.c
	facts, learn := c.facts, c.learn
	defer func() { c.facts, c.learn = facts, learn; c.gen++ }()
	// only what is known about inputs, so that no condition proves itself away
	c.facts, c.learn = map[*Term]bool{}, map[*Term][2]uint64{}
	for k, v := range learn {
		if k.op == OVar || k.op == OSelect || k.op == OExtract && k.args[0].op == OVar {
			c.learn[k] = v
		}
	}
	c.gen++
	memo := map[*Term]*Term{}
	var rs []*Term
	for _, p := range sl[1:] {
		if r := c.rebuild(p, memo); r.IsFalse() {
			return Unsat, nil
		} else if r.op != OConst {
			rs = append(rs, r)
		}
	}
	for _, r := range rs {
		c.assume(r)
		sl = append(sl, r)
	}
	if r := c.rebuild(t, map[*Term]*Term{}); r.IsFalse() {
		return Unsat, nil
	} else if r.op != OConst {
		sl = append(sl, r)
	}
	if os.Getenv("GOSYM_HARD") != "" {
		for _, x := range sl {
			fmt.Fprintf(os.Stderr, "HARD %s\n", x.str(14))
		}
	}
	return in.s.Hard(sl)
}

func (in *Interp) addCond(t *Term) {
	if t.op == OConst {
		return
	}
	in.conds = append(in.conds, t)
	in.c.assume(t)
}

func (in *Interp) inPrefix() bool { return len(in.decisions) < len(in.prefix) }

// branch decides a condition, forking when both outcomes are possible.
func (in *Interp) branch(cond *Term) bool {
	cond = in.c.norm(cond)
	cond = in.c.known(cond)
	if cond.op == OConst {
		return cond.k == 1
	}
	chk := int64(cond.hash&0x7fffffff) << 32
	if in.inPrefix() {
		d := in.prefix[len(in.decisions)]
		if d&^0xffffffff != chk {
			limitf("replayed decisions diverge at %s", in.where())
		}
		in.decisions = append(in.decisions, d)
		if d&1 == 1 {
			if d&2 == 0 {
				in.addCond(cond)
			} else {
				in.c.assume(cond)
			}
			return true
		}
		if d&2 == 0 {
			in.addCond(in.c.Not(cond))
		} else {
			in.c.assume(in.c.Not(cond))
		}
		return false
	}
	if os.Getenv("GOSYM_BR") != "" {
		fmt.Fprintf(os.Stderr, "BR %s\n", cond.str(14))
	}
	v := in.c.eval(cond) == 1
	this, other := cond, in.c.Not(cond)
	if !v {
		this, other = other, this
	}
	d := int64(0)
	if v {
		d = 1
	}
	r, m := in.feasible(other)
	switch r {
	case Sat:
		alt := make([]int64, len(in.decisions)+1)
		copy(alt, in.decisions)
		alt[len(in.decisions)] = 1 - d | chk
		in.run.push(workItem{alt, m})
	case Unknown:
		in.run.noteUnknown(in.where())
	}
	if r == Unsat { // implied: no need to carry the condition
		d |= 2
		in.decisions = append(in.decisions, d|chk)
		in.c.assume(this)
		return v
	}
	in.decisions = append(in.decisions, d|chk)
	in.addCond(this)
	return v
}

// choose forks over n alternatives without a condition.
func (in *Interp) choose(n int) int {
	if n <= 1 {
		return 0
	}
	if in.inPrefix() {
		d := in.prefix[len(in.decisions)]
		if d>>32 != 0x7ffffffe {
			limitf("replayed decisions diverge at %s", in.where())
		}
		in.decisions = append(in.decisions, d)
		return int(int32(d))
	}
	for k := n - 1; k >= 1; k-- {
		alt := make([]int64, len(in.decisions)+1)
		copy(alt, in.decisions)
		alt[len(in.decisions)] = int64(k) | 0x7ffffffe<<32
		in.run.push(workItem{alt, in.c.model})
	}
	in.decisions = append(in.decisions, 0x7ffffffe<<32)
	return 0
}

func (in *Interp) assume(t *Term) {
	t = in.c.known(in.c.norm(t))
	if t.IsTrue() {
		return
	}
	if t.IsFalse() {
		in.end("assume", "")
	}
	if in.inPrefix() {
		in.addCond(t)
		return
	}
	r, m := in.feasible(t)
	switch r {
	case Sat:
		if m != in.c.model {
			in.c.setModel(m)
		}
		in.addCond(t)
	case Unsat:
		in.end("assume", "")
	default:
		in.run.noteUnknown(in.where())
		in.end("limit", "solver unknown on assumption at %s", in.where())
	}
}

func (in *Interp) assert(t *Term, msg string) {
	raw := t
	t = in.c.known(in.c.norm(t))
	how := byQuery
	if raw.IsTrue() {
		how = byFolding
	} else if t.IsTrue() {
		how = byRewriting
	}
	n := in.run.countAssert(msg, how)
	if how == byRewriting && n <= 3 && !in.inPrefix() {
		// the rewriting is checked against the solver on the first occasions
		r, _ := in.s.Check(in.slice(in.c.Not(raw)))
		in.run.noteAudit(r)
		if r == Sat {
			panic(fmt.Sprintf("rewriting and solver disagree about %q", msg))
		}
	}
	if t.IsTrue() {
		return
	}
	if in.inPrefix() {
		in.c.assume(t)
		return
	}
	r, m := in.feasible(in.c.Not(t))
	switch r {
	case Sat:
		in.c.setModel(m)
		in.violation("assert", msg)
	case Unknown:
		in.run.noteUnknown("assert " + msg)
	}
	// continue under the asserted condition
	if r == Unsat {
		in.c.assume(t)
		return
	}
	in.assume(t)
}

// violation records a counterexample for the current model, then ends the path.
func (in *Interp) violation(kind, msg string) {
	v := &Violation{Harness: in.cfg.Name, Sig: in.cfg.Name + ": " + msg, Msg: msg, Kind: kind, Where: in.where(), Inputs: in.inputVals(), Sched: append([]int(nil), in.sched...)}
	v.Trace = in.stack()
	in.run.report(v)
	panic(pathEnd{"violation", msg})
}

func (in *Interp) inputVals() []InputVal {
	var out []InputVal
	for _, i := range in.inputs {
		iv := InputVal{Name: i.Name, Kind: i.Kind}
		if i.t != nil {
			iv.Value = in.c.eval(i.t)
		}
		if i.arr != "" {
			iv.Sparse = map[string]uint8{}
			for k, b := range in.c.model.A[i.arr] {
				if k < iv.Value || i.Kind == "disk" {
					iv.Sparse[fmt.Sprint(k)] = b
				}
			}
		}
		out = append(out, iv)
	}
	return out
}

func (in *Interp) where() string {
	if in.cur == nil || len(in.cur.frames) == 0 {
		return "?"
	}
	for k := len(in.cur.frames) - 1; k >= 0; k-- {
		fr := in.cur.frames[k]
		if fr.fn.Pkg != nil && strings.HasSuffix(fr.fn.Pkg.Pkg.Path(), "/vsym") {
			continue
		}
		if fr.block != nil && fr.pc < len(fr.block.Instrs) {
			for p := fr.pc; p >= 0; p-- {
				if pos := fr.block.Instrs[p].Pos(); pos.IsValid() {
					ps := in.w.prog.Fset.Position(pos)
					return fmt.Sprintf("%s:%d (%s)", shortFile(ps.Filename), ps.Line, fr.fn.Name())
				}
			}
		}
		return fr.fn.String()
	}
	return "?"
}
func (in *Interp) stack() []string {
	var r []string
	if in.cur == nil {
		return r
	}
	for k := len(in.cur.frames) - 1; k >= 0 && len(r) < 20; k-- {
		fr := in.cur.frames[k]
		line := 0
		if fr.block != nil && fr.pc < len(fr.block.Instrs) {
			for p := fr.pc; p >= 0; p-- {
				if pos := fr.block.Instrs[p].Pos(); pos.IsValid() {
					line = in.w.prog.Fset.Position(pos).Line
					break
				}
			}
		}
		r = append(r, fmt.Sprintf("%s:%d", fr.fn.String(), line))
	}
	return r
}
func shortFile(f string) string {
	if i := strings.Index(f, "/repo/"); i >= 0 {
		return f[i+6:]
	}
	if i := strings.LastIndex(f, "/"); i >= 0 {
		return f[i+1:]
	}
	return f
}

// concretize forks over the possible values of t.
func (in *Interp) concretize(t *Term) uint64 {
	t = in.c.norm(t)
	if t.op == OConst {
		return t.k
	}
	var tried uint64
	for n := 0; ; n++ {
		lo, hi := in.c.bounds(t)
		if lo == hi {
			return lo
		}
		if n > in.cfg.MaxConc {
			limitf("concretization of more than %d values at %s", in.cfg.MaxConc, in.where())
		}
		// deterministic across replays: try from the low end when the range is
		// small, otherwise follow the recorded model value
		v := lo
		if hi-lo > 64 || n > 0 && v == tried {
			// (the bounds may not show that the low end is excluded)
			v = in.pinned(t)
		}
		tried = v
		if in.branch(in.c.Eq(t, in.c.Const(t.w, v))) {
			return v
		}
	}
}

// pinned returns a value for t chosen once and recorded in the decision list.
func (in *Interp) pinned(t *Term) uint64 {
	if in.inPrefix() {
		lo := in.prefix[len(in.decisions)]
		hi := in.prefix[len(in.decisions)+1]
		in.decisions = append(in.decisions, lo, hi)
		if lo>>32 != 0x7ffffffd || hi>>32 != 0x7ffffffd {
			limitf("replayed decisions diverge at %s", in.where())
		}
		return uint64(uint32(lo)) | uint64(uint32(hi))<<32
	}
	v := in.c.eval(t)
	in.decisions = append(in.decisions, int64(uint32(v))|0x7ffffffd<<32, int64(v>>32)|0x7ffffffd<<32)
	return v
}

// split forks so that the bounds of a small-range term become exact; used for
// quotients and aligned values.
func (in *Interp) split(t *Term, step uint64, max uint64) *Term {
	if t.op == OConst {
		return t
	}
	for {
		lo, hi := in.c.bounds(t)
		if lo == hi {
			return in.c.Const(t.w, lo)
		}
		// round to multiples of step
		lo = (lo + step - 1) / step * step
		hi = hi / step * step
		if lo >= hi {
			// single value
			if lo == hi {
				return in.c.Const(t.w, lo)
			}
			return t
		}
		if (hi-lo)/step >= max {
			return t
		}
		mid := lo + (hi-lo)/step/2*step
		in.branch(in.c.Ule(t, in.c.Const(t.w, mid)))
		nl, nh := in.c.bounds(t)
		if nl <= lo && nh >= hi {
			return t // no progress in bounds
		}
	}
}

// ------------------------------------------------------------ registers

func (in *Interp) fnVal(fn *ssa.Function) *Closure {
	if c := in.fnvals[fn]; c != nil {
		return c
	}
	c := &Closure{fn: fn}
	in.fnvals[fn] = c
	return c
}

func (in *Interp) constVal(k *ssa.Const) Value {
	if v, ok := in.consts[k]; ok {
		return v
	}
	v := in.constVal0(k)
	in.consts[k] = v
	return v
}
func (in *Interp) constVal0(k *ssa.Const) Value {
	if k.Value == nil {
		return in.zero(k.Type())
	}
	t := k.Type()
	if w, _, ok := intInfo(t); ok {
		if w == 0 {
			return in.c.Bool(constant.BoolVal(k.Value))
		}
		v := constant.ToInt(k.Value)
		if u, ok := constant.Uint64Val(v); ok {
			return in.c.Const(w, u)
		}
		i, _ := constant.Int64Val(v)
		return in.c.Const(w, uint64(i))
	}
	if isFloat(t) {
		f, _ := constant.Float64Val(k.Value)
		return f
	}
	if isString(t) {
		if k.Value.Kind() == constant.String {
			return Str{S: constant.StringVal(k.Value)}
		}
		i, _ := constant.Int64Val(k.Value)
		return Str{S: string(rune(i))}
	}
	if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsComplex != 0 {
		return complex128(0)
	}
	// type parameter or interface typed constants
	switch k.Value.Kind() {
	case constant.String:
		return Str{S: constant.StringVal(k.Value)}
	case constant.Int:
		i, _ := constant.Int64Val(k.Value)
		return in.c.Const(64, uint64(i))
	}
	panic("const " + k.String())
}

func (in *Interp) get(fr *Frame, v ssa.Value) Value {
	switch x := v.(type) {
	case *ssa.Const:
		return in.constVal(x)
	case *ssa.Global:
		return in.global(x)
	case *ssa.Function:
		return in.fnVal(x)
	case *ssa.Builtin:
		return BuiltinV{x.Name()}
	case *ssa.FreeVar:
		for i, f := range fr.fn.FreeVars {
			if f == x {
				return fr.free[i]
			}
		}
	}
	i, ok := fr.info.idx[v]
	if !ok {
		panic("no register for " + v.Name() + " in " + fr.fn.String())
	}
	return fr.env[i]
}
func (in *Interp) term(fr *Frame, v ssa.Value) *Term {
	x := in.get(fr, v)
	t, ok := x.(*Term)
	if !ok {
		panic(fmt.Sprintf("%s: not a term: %T at %s", v, x, in.where()))
	}
	return t
}
func (in *Interp) set(fr *Frame, v ssa.Value, x Value) { fr.env[fr.info.idx[v]] = x }

func (in *Interp) global(g *ssa.Global) *Value {
	if p := in.globals[g]; p != nil {
		return p
	}
	p := new(Value)
	*p = in.zero(g.Type().(*types.Pointer).Elem())
	in.globals[g] = p
	if g.Pkg != nil && !in.w.allowInit(g.Pkg.Pkg.Path()) {
		// error sentinels of packages whose initialisation is not modelled
		et := g.Type().(*types.Pointer).Elem()
		if types.Identical(et, types.Universe.Lookup("error").Type()) {
			*p = in.mkErr(g.Pkg.Pkg.Path() + "." + g.Name())
		}
	}
	return p
}

// mkErr builds an error value (*errors.errorString).
func (in *Interp) mkErr(msg string) Iface {
	st := new(Value)
	*st = StructV{Str{S: msg}}
	return Iface{in.w.errorStringPtr, st}
}

// ------------------------------------------------------------ running

func (in *Interp) pushFrame(t *Thread, fn *ssa.Function, args, free []Value, res ssa.Value) *Frame {
	if fn.Blocks == nil {
		in.w.build(fn)
		if fn.Blocks == nil {
			limitf("call of function without body: %s at %s", fn, in.where())
		}
	}
	if len(t.frames) > 3000 {
		in.stepsOut("call depth")
	}
	fi := in.info(fn)
	fr := &Frame{fn: fn, info: fi, env: make([]Value, fi.n), free: free, res: res}
	for i := range fn.Params {
		fr.env[i] = args[i]
	}
	fr.block = fn.Blocks[0]
	t.frames = append(t.frames, fr)
	in.pathFns[fn] = true
	return fr
}

func (in *Interp) stepsOut(what string) {
	in.stepsHit = true
	if in.cfg.HangIsViolation {
		in.violation("hang", "no termination within "+what+" bound")
	}
	in.end("limit", "%s bound at %s", what, in.where())
}

// goPanic raises a panic in the current frame of t.
func (in *Interp) goPanic(t *Thread, v Value, msg string) {
	fr := t.frames[len(t.frames)-1]
	fr.panic_ = &panicState{v: v, msg: msg, where: in.where()}
}
func (in *Interp) rtPanic(t *Thread, msg string) {
	m := "runtime error: " + msg
	in.goPanic(t, Iface{in.w.runtimeErr, Str{S: m}}, m)
}

// callValue starts a call; result is delivered into register res (may be nil).
// It returns (value, true) when completed immediately.
func (in *Interp) callValue(t *Thread, fv Value, args []Value, res ssa.Value, site ssa.Instruction) (Value, bool) {
	switch f := fv.(type) {
	case *Closure:
		if f == nil {
			in.rtPanic(t, "invalid memory address or nil pointer dereference (nil func)")
			return nil, false
		}
		if f.nat != nil {
			return f.nat(t, args), true
		}
		return in.callFn(t, f.fn, args, f.env, res, site)
	}
	panic(fmt.Sprintf("call of %T at %s", fv, in.where()))
}

func (in *Interp) callFn(t *Thread, fn *ssa.Function, args, free []Value, res ssa.Value, site ssa.Instruction) (Value, bool) {
	if it, ok := in.lookupIntr(fn); ok {
		v := it(t, args, site)
		if v == retryV {
			return retryV, true
		}
		if v == pushedV {
			t.frames[len(t.frames)-1].res = res
			return nil, false
		}
		if len(t.frames) > 0 && t.frames[len(t.frames)-1].panic_ != nil {
			return nil, false
		}
		return v, true
	}
	in.pushFrame(t, fn, args, free, res)
	return nil, false
}

// callSync runs a function to completion on the current thread.
func (in *Interp) callSync(t *Thread, fv Value, args []Value) (Value, bool) {
	cl := fv.(*Closure)
	n := len(t.frames)
	v, done := in.callValue(t, cl, args, nil, nil)
	if done {
		return v, true
	}
	t.frames[len(t.frames)-1].sync = true
	for len(t.frames) > n {
		if t.ready != nil && !t.ready() {
			limitf("blocking inside a synchronous callback at %s", in.where())
		}
		t.ready = nil
		in.step(t)
	}
	if n > 0 && t.frames[n-1].panic_ != nil {
		return nil, false
	}
	return t.syncRes, true
}

func (in *Interp) runThreads() {
	for {
		if in.threads[0].done {
			return
		}
		var run []*Thread
		for _, t := range in.threads {
			if !t.done && (t.ready == nil || t.ready()) {
				run = append(run, t)
			}
		}
		if len(run) == 0 {
			msg := "deadlock: "
			for _, t := range in.threads {
				if !t.done {
					in.cur = t
					msg += fmt.Sprintf("[thread %d waits for %s at %s] ", t.id, t.why, in.where())
				}
			}
			in.violation("deadlock", msg)
		}
		var t *Thread
		if in.schedAll {
			// the current thread first, so that choice 0 means no switch
			ord := run[:0:0]
			curRunnable := false
			for _, x := range run {
				if x == in.cur {
					curRunnable = true
				}
			}
			if curRunnable {
				ord = append(ord, in.cur)
			}
			for _, x := range run {
				if x != in.cur {
					ord = append(ord, x)
				}
			}
			if curRunnable && in.switches >= in.cfg.MaxSwitches {
				t = ord[0]
			} else {
				k := in.choose(len(ord))
				t = ord[k]
				if curRunnable && k != 0 {
					in.switches++
				}
			}
		} else {
			t = run[0]
			for _, x := range run {
				if x == in.cur {
					t = x
				}
			}
			if in.cur != nil && t != in.cur {
				// round robin among the runnable
				for _, x := range run {
					if x.id > in.cur.id {
						t = x
						break
					}
				}
			}
		}
		t.ready = nil
		in.cur = t
		if t.hid > 0 && !t.started {
			t.started = true
			in.schedNote(t)
		}
		in.runUntilSwitch(t)
	}
}

func (in *Interp) runUntilSwitch(t *Thread) {
	t.why = ""
	first := true
	for !t.done {
		if !first && in.schedAll && in.atSyncPoint(t) {
			return
		}
		first = false
		in.step(t)
		if t.ready != nil {
			return
		}
	}
}

// schedNote records that a thread of the harness reached its turn: at its
// start and at every attempt to acquire.
func (in *Interp) schedNote(t *Thread) {
	if in.schedAll && t.hid > 0 {
		in.sched = append(in.sched, t.hid)
	}
}

func (in *Interp) block(t *Thread, why string, ready func() bool) Value {
	t.ready = ready
	t.why = why
	return retryV
}

// step executes one instruction (or one unwinding action) of thread t.
func (in *Interp) step(t *Thread) {
	fr := t.frames[len(t.frames)-1]
	if fr.panic_ != nil {
		in.unwind(t, fr)
		return
	}
	in.steps++
	if in.steps > in.cfg.MaxSteps {
		in.stepsOut("step")
	}
	if in.steps&0x3ff == 0 && time.Now().After(in.run.deadline) {
		in.end("limit", "time budget of the harness")
	}
	instr := fr.block.Instrs[fr.pc]
	if in.traceOn {
		fmt.Fprintf(os.Stderr, "%*s%s: %s\n", len(t.frames), "", fr.fn.Name(), instr)
	}
	if in.races != nil && len(in.threads) > 1 {
		in.raceInstr(t, fr, instr)
	}
	in.exec(t, fr, instr)
}

func (in *Interp) popFrame(t *Thread) *Frame {
	fr := t.frames[len(t.frames)-1]
	t.frames = t.frames[:len(t.frames)-1]
	if len(t.frames) == 0 {
		t.done = true
		if in.races != nil {
			in.syncRelease(t, t)
		}
	}
	return fr
}

func (in *Interp) unwind(t *Thread, fr *Frame) {
	if n := len(fr.defers); n > 0 {
		d := fr.defers[n-1]
		fr.defers = fr.defers[:n-1]
		in.runDeferred(t, fr, d)
		return
	}
	p := fr.panic_
	if p.recovered {
		fr.panic_ = nil
		if fr.fn.Recover != nil {
			fr.prev = fr.block
			fr.block = fr.fn.Recover
			fr.pc = 0
			return
		}
		// no named results: return zero values
		in.deliver(t, in.zeroResult(fr.fn))
		return
	}
	in.popFrame(t)
	if len(t.frames) == 0 {
		t.uncaught = p
		in.run.noteTrace("uncaught panic")
		in.cur = t
		in.violationAt("panic", "uncaught panic: "+p.msg, p.where)
	}
	up := t.frames[len(t.frames)-1]
	up.panic_ = p
}

func (in *Interp) violationAt(kind, msg, where string) {
	v := &Violation{Harness: in.cfg.Name, Sig: in.cfg.Name + ": " + msg, Msg: msg + " at " + where, Kind: kind, Where: where, Inputs: in.inputVals(), Sched: append([]int(nil), in.sched...)}
	in.run.report(v)
	panic(pathEnd{"violation", msg})
}

func (in *Interp) zeroResult(fn *ssa.Function) Value {
	r := fn.Signature.Results()
	switch r.Len() {
	case 0:
		return nil
	case 1:
		return in.zero(r.At(0).Type())
	}
	return in.zero(r)
}

func (in *Interp) runDeferred(t *Thread, fr *Frame, d *deferred) {
	if b, ok := d.fn.(BuiltinV); ok {
		in.builtin(t, fr, b.name, d.args, d.call, d.site)
		return
	}
	n := len(t.frames)
	v, done := in.callValue(t, d.fn, d.args, nil, d.site)
	if done {
		if v == retryV { // blocked: put it back
			fr.defers = append(fr.defers, d)
		}
		return
	}
	if len(t.frames) > n {
		t.frames[len(t.frames)-1].deferOf = fr
	}
}

// deliver pops the current frame and hands v to the caller.
func (in *Interp) deliver(t *Thread, v Value) {
	fr := in.popFrame(t)
	if fr.sync {
		t.syncRes = v
		return
	}
	if fr.deferOf != nil {
		return
	}
	if len(t.frames) == 0 {
		t.result = v
		return
	}
	up := t.frames[len(t.frames)-1]
	if fr.res != nil {
		in.set(up, fr.res, v)
	}
	up.pc++
}

func (in *Interp) jump(fr *Frame, to *ssa.BasicBlock) {
	from := fr.block
	// phis are evaluated in parallel
	k := -1
	for i, p := range to.Preds {
		if p == from {
			k = i
			break
		}
	}
	n := 0
	var tmp [16]Value
	vals := tmp[:0]
	for _, ins := range to.Instrs {
		ph, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		vals = append(vals, in.get(fr, ph.Edges[k]))
		n++
	}
	for i := 0; i < n; i++ {
		in.set(fr, to.Instrs[i].(*ssa.Phi), vals[i])
	}
	fr.prev = from
	fr.block = to
	fr.pc = n
	if n == 1 {
		in.skipByteLoop(fr, to)
	}
}

func (in *Interp) exec(t *Thread, fr *Frame, instr ssa.Instruction) {
	c := in.c
	switch x := instr.(type) {
	case *ssa.DebugRef:
		fr.pc++
	case *ssa.BinOp:
		v := in.binop(t, fr, x)
		if fr.panic_ != nil {
			return
		}
		in.set(fr, x, v)
		fr.pc++
	case *ssa.UnOp:
		in.unop(t, fr, x)
	case *ssa.Convert:
		v := in.convert(t, in.get(fr, x.X), x.X.Type(), x.Type())
		if fr.panic_ != nil {
			return
		}
		in.set(fr, x, v)
		fr.pc++
	case *ssa.MultiConvert:
		in.set(fr, x, in.convert(t, in.get(fr, x.X), x.X.Type(), x.Type()))
		fr.pc++
	case *ssa.ChangeType:
		in.set(fr, x, in.get(fr, x.X))
		fr.pc++
	case *ssa.ChangeInterface:
		in.set(fr, x, in.get(fr, x.X))
		fr.pc++
	case *ssa.MakeInterface:
		v := in.get(fr, x.X)
		in.set(fr, x, Iface{x.X.Type(), copyVal(v)})
		fr.pc++
	case *ssa.Alloc:
		p := new(Value)
		*p = in.zero(x.Type().(*types.Pointer).Elem())
		in.set(fr, x, p)
		fr.pc++
	case *ssa.FieldAddr:
		p := in.get(fr, x.X)
		pv, _ := p.(*Value)
		if pv == nil {
			in.rtPanic(t, "invalid memory address or nil pointer dereference")
			return
		}
		s, ok := (*pv).(StructV)
		if !ok {
			limitf("field address of %T at %s", *pv, in.where())
		}
		in.set(fr, x, &s[x.Field])
		fr.pc++
	case *ssa.Field:
		s := in.get(fr, x.X).(StructV)
		in.set(fr, x, copyVal(s[x.Field]))
		fr.pc++
	case *ssa.IndexAddr:
		in.indexAddr(t, fr, x)
	case *ssa.Index:
		in.index(t, fr, x)
	case *ssa.Store:
		addr := in.get(fr, x.Addr)
		v := in.get(fr, x.Val)
		switch p := addr.(type) {
		case *Value:
			if p == nil {
				in.rtPanic(t, "invalid memory address or nil pointer dereference")
				return
			}
			storeInto(p, v)
		case BPtr:
			p.a.write(c, p.i, v.(*Term))
		default:
			limitf("store through %T at %s", addr, in.where())
		}
		fr.pc++
	case *ssa.Phi:
		panic("phi")
	case *ssa.If:
		cond := in.term(fr, x.Cond)
		cond = c.known(c.norm(cond))
		if cond.op != OConst && in.tryMerge(t, fr, cond) {
			return
		}
		b := 1
		if in.branch(cond) {
			b = 0
		}
		in.loopCheck(fr, fr.block.Succs[b])
		in.jump(fr, fr.block.Succs[b])
	case *ssa.Jump:
		in.loopCheck(fr, fr.block.Succs[0])
		in.jump(fr, fr.block.Succs[0])
	case *ssa.Return:
		var v Value
		switch len(x.Results) {
		case 0:
		case 1:
			v = in.get(fr, x.Results[0])
		default:
			tv := make(TupleV, len(x.Results))
			for i, r := range x.Results {
				tv[i] = in.get(fr, r)
			}
			v = tv
		}
		in.deliver(t, v)
	case *ssa.Call:
		in.call(t, fr, &x.Call, x, x)
	case *ssa.Go:
		fv, args := in.prepCall(t, fr, &x.Call, x)
		if fr.panic_ != nil {
			return
		}
		nt := &Thread{in: in, id: len(in.threads)}
		in.threads = append(in.threads, nt)
		in.forkClock(t, nt)
		save := in.cur
		if b, ok := fv.(BuiltinV); ok {
			limitf("go builtin %s", b.name)
		}
		v, done := in.callValue(nt, fv, args, nil, x)
		in.cur = save
		if done {
			if v == retryV {
				limitf("go of a blocking intrinsic at %s", in.where())
			}
			nt.done = true
		}
		fr.pc++
	case *ssa.Defer:
		fv, args := in.prepCall(t, fr, &x.Call, x)
		if fr.panic_ != nil {
			return
		}
		fr.defers = append(fr.defers, &deferred{fv, args, &x.Call, x})
		fr.pc++
	case *ssa.RunDefers:
		if n := len(fr.defers); n > 0 {
			d := fr.defers[n-1]
			fr.defers = fr.defers[:n-1]
			in.runDeferred(t, fr, d)
			return
		}
		fr.pc++
	case *ssa.Panic:
		v := in.get(fr, x.X)
		msg := in.describe(v, 4)
		in.goPanic(t, v, msg)
	case *ssa.Extract:
		tv := in.get(fr, x.Tuple).(TupleV)
		in.set(fr, x, tv[x.Index])
		fr.pc++
	case *ssa.Slice:
		in.sliceOp(t, fr, x)
	case *ssa.MakeSlice:
		in.makeSlice(t, fr, x)
	case *ssa.MakeMap:
		in.set(fr, x, newMap())
		fr.pc++
	case *ssa.MakeChan:
		n := in.concretize(in.term(fr, x.Size))
		in.chanSeq++
		in.set(fr, x, &ChanV{cap: int(n), id: in.chanSeq})
		fr.pc++
	case *ssa.MakeClosure:
		env := make([]Value, len(x.Bindings))
		for i, b := range x.Bindings {
			env[i] = in.get(fr, b)
		}
		in.set(fr, x, &Closure{fn: x.Fn.(*ssa.Function), env: env})
		fr.pc++
	case *ssa.Lookup:
		in.lookup(t, fr, x)
	case *ssa.MapUpdate:
		m := in.get(fr, x.Map).(*MapV)
		if m == nil {
			in.goPanic(t, Iface{in.w.runtimeErr, Str{S: "assignment to entry in nil map"}}, "assignment to entry in nil map")
			return
		}
		in.mapSet(m, in.get(fr, x.Key), copyVal(in.get(fr, x.Value)))
		fr.pc++
	case *ssa.Range:
		switch v := in.get(fr, x.X).(type) {
		case *MapV:
			in.set(fr, x, &rangeIter{m: v})
		case Str:
			in.set(fr, x, &rangeIter{s: v, str: true})
		}
		fr.pc++
	case *ssa.Next:
		in.next(fr, x)
		fr.pc++
	case *ssa.TypeAssert:
		in.typeAssert(t, fr, x)
	case *ssa.Send:
		ch := in.get(fr, x.Chan).(*ChanV)
		if in.send(t, ch, in.get(fr, x.X)) {
			fr.pc++
		}
	case *ssa.Select:
		in.selectOp(t, fr, x)
	case *ssa.SliceToArrayPointer:
		limitf("slice to array pointer at %s", in.where())
	default:
		limitf("unsupported instruction %T at %s", instr, in.where())
	}
}

func (in *Interp) loopCheck(fr *Frame, to *ssa.BasicBlock) {
	if to.Index > fr.block.Index {
		return
	}
	if fr.loops == nil {
		fr.loops = map[*ssa.BasicBlock]int{}
	}
	fr.loops[to]++
	if fr.loops[to] > in.cfg.MaxLoop {
		in.stepsOut(fmt.Sprintf("loop unrolling (%d)", in.cfg.MaxLoop))
	}
}

// ------------------------------------------------------------ operators

func (in *Interp) binop(t *Thread, fr *Frame, x *ssa.BinOp) Value {
	return in.binopV(t, x.Op, in.get(fr, x.X), in.get(fr, x.Y), x.X.Type(), x.Y.Type())
}

func (in *Interp) binopV(t *Thread, op token.Token, xv, yv Value, xt, yt types.Type) Value {
	c := in.c
	switch op {
	case token.EQL:
		return in.equal(xv, yv, t)
	case token.NEQ:
		return c.Not(in.equal(xv, yv, t))
	}
	switch a := xv.(type) {
	case *Term:
		b := yv.(*Term)
		a, b = c.norm(a), c.norm(b)
		_, signed, _ := intInfo(xt)
		switch op {
		case token.ADD:
			return c.Add(a, b)
		case token.SUB:
			return c.Sub(a, b)
		case token.MUL:
			return c.Mul(a, b)
		case token.QUO, token.REM:
			if !in.branch(c.Not(c.Eq(b, c.Const(b.w, 0)))) {
				in.rtPanic(t, "integer divide by zero")
				return nil
			}
			var r *Term
			if signed {
				if op == token.QUO {
					r = c.Sdiv(a, b)
				} else {
					r = c.Srem(a, b)
				}
			} else {
				if op == token.QUO {
					r = c.Udiv(a, b)
				} else {
					r = c.Urem(a, b)
				}
			}
			if op == token.QUO {
				r = in.split(r, 1, in.cfg.SplitMax)
			} else if b.op == OConst && isPow2(b.k) && in.c.nonneg(a) {
				in.splitAround(a, b.k)
				r = c.Urem(a, b)
			}
			return r
		case token.AND:
			if a.w == 0 {
				return c.And(a, b)
			}
			if a.op == OConst {
				a, b = b, a
			}
			if b.op == OConst && a.op != OConst {
				in.splitMask(a, b.k)
			}
			return c.Band(a, b)
		case token.OR:
			if a.w == 0 {
				return c.Or(a, b)
			}
			return c.Bor(a, b)
		case token.XOR:
			return c.Bxor(a, b)
		case token.AND_NOT:
			nb := c.Sub(c.Const(b.w, mask(b.w)), b)
			if nb.op == OConst {
				in.splitMask(a, nb.k)
			}
			return c.Band(a, nb)
		case token.SHL, token.SHR:
			// shift count: unsigned or non-negative signed
			_, ysigned, _ := intInfo(yt)
			if ysigned {
				if !in.branch(c.Sle(c.Const(b.w, 0), b)) {
					in.rtPanic(t, "negative shift amount")
					return nil
				}
			}
			var over *Term = c.False
			if b.w > a.w {
				over = c.Not(c.Ult(b, c.Const(b.w, uint64(a.w))))
				b = c.Trunc(b, a.w)
			} else {
				b = c.Zext(b, a.w)
				if b.op == OConst || a.w < 64 {
					over = c.Not(c.Ult(b, c.Const(b.w, uint64(a.w))))
				} else {
					over = c.Not(c.Ult(b, c.Const(b.w, uint64(a.w))))
				}
			}
			if op == token.SHL {
				return c.Ite(over, c.Const(a.w, 0), c.Shl(a, b))
			}
			if signed {
				sign := c.Ashr(a, c.Const(a.w, uint64(a.w-1)))
				return c.Ite(over, sign, c.Ashr(a, b))
			}
			r := c.Ite(over, c.Const(a.w, 0), c.Lshr(a, b))
			return in.split(r, 1, in.cfg.SplitMax)
		case token.LSS:
			if signed {
				return c.Slt(a, b)
			}
			return c.Ult(a, b)
		case token.LEQ:
			if signed {
				return c.Sle(a, b)
			}
			return c.Ule(a, b)
		case token.GTR:
			if signed {
				return c.Slt(b, a)
			}
			return c.Ult(b, a)
		case token.GEQ:
			if signed {
				return c.Sle(b, a)
			}
			return c.Ule(b, a)
		}
	case float64:
		b := yv.(float64)
		switch op {
		case token.ADD:
			return a + b
		case token.SUB:
			return a - b
		case token.MUL:
			return a * b
		case token.QUO:
			return a / b
		case token.LSS:
			return c.Bool(a < b)
		case token.LEQ:
			return c.Bool(a <= b)
		case token.GTR:
			return c.Bool(a > b)
		case token.GEQ:
			return c.Bool(a >= b)
		}
	case Str:
		b := yv.(Str)
		switch op {
		case token.ADD:
			as, ok1 := a.Conc()
			bs, ok2 := b.Conc()
			if ok1 && ok2 {
				return Str{S: as + bs}
			}
			return mkStr(append(append([]*Term(nil), in.strBytes(a)...), in.strBytes(b)...))
		case token.LSS:
			return in.strLess(a, b)
		case token.GTR:
			return in.strLess(b, a)
		case token.LEQ:
			return c.Not(in.strLess(b, a))
		case token.GEQ:
			return c.Not(in.strLess(a, b))
		}
	}
	limitf("binop %s on %T at %s", op, xv, in.where())
	return nil
}

func (in *Interp) strLess(a, b Str) *Term {
	c := in.c
	x, y := in.strBytes(a), in.strBytes(b)
	r := c.Bool(len(x) < len(y))
	n := len(x)
	if len(y) < n {
		n = len(y)
	}
	for i := n - 1; i >= 0; i-- {
		r = c.Or(c.Ult(x[i], y[i]), c.And(c.Eq(x[i], y[i]), r))
	}
	return r
}

// splitMask case-splits a when masking leaves few possible aligned values.
func (in *Interp) splitMask(a *Term, k uint64) {
	m := mask(a.w)
	k &= m
	if nk := ^k & m; nk != 0 && nk&(nk+1) == 0 {
		in.splitAround(a, nk+1)
	} else if k&(k+1) == 0 && k != 0 && k != m {
		in.splitAround(a, k+1)
	}
}

// splitAround case-splits on which step-sized block a lies in, if few.
func (in *Interp) splitAround(a *Term, step uint64) {
	if in.cfg.SplitMax == 0 || step < 16 {
		return
	}
	c := in.c
	for i := 0; i < 40; i++ {
		lo, hi := c.bounds(a)
		if lo/step == hi/step || (hi/step)-(lo/step) >= in.cfg.SplitMax {
			return
		}
		mid := (lo/step + (hi/step-lo/step)/2 + 1) * step
		in.branch(c.Ult(a, c.Const(a.w, mid)))
		nl, nh := c.bounds(a)
		if nl == lo && nh == hi {
			return
		}
	}
}

func (in *Interp) equal(x, y Value, t *Thread) *Term {
	c := in.c
	switch a := x.(type) {
	case *Term:
		b, ok := y.(*Term)
		if !ok {
			return c.False
		}
		return c.Eq(a, b)
	case float64:
		return c.Bool(a == y.(float64))
	case Str:
		b := y.(Str)
		if a.Len() != b.Len() {
			return c.False
		}
		as, ok1 := a.Conc()
		bs, ok2 := b.Conc()
		if ok1 && ok2 {
			return c.Bool(as == bs)
		}
		xb, yb := in.strBytes(a), in.strBytes(b)
		r := c.True
		for i := range xb {
			r = c.And(r, c.Eq(xb[i], yb[i]))
		}
		return r
	case *Value:
		switch b := y.(type) {
		case *Value:
			return c.Bool(a == b)
		}
		return c.False
	case BPtr:
		if b, ok := y.(BPtr); ok {
			if a.a != b.a {
				return c.False
			}
			return c.Eq(a.i, b.i)
		}
		return c.False
	case Iface:
		b, ok := y.(Iface)
		if !ok {
			return c.Bool(a.t == nil && y == nil)
		}
		if a.t == nil || b.t == nil {
			return c.Bool(a.t == nil && b.t == nil)
		}
		if !types.Identical(a.t, b.t) {
			return c.False
		}
		return in.equal(a.v, b.v, t)
	case StructV:
		b := y.(StructV)
		r := c.True
		for i := range a {
			r = c.And(r, in.equal(a[i], b[i], t))
		}
		return r
	case ArrV:
		b := y.(ArrV)
		r := c.True
		for i := range a {
			r = c.And(r, in.equal(a[i], b[i], t))
		}
		return r
	case *ByteArr:
		b := y.(*ByteArr)
		n := a.size.k
		r := c.True
		for i := uint64(0); i < n; i++ {
			ix := c.Const(64, i)
			r = c.And(r, c.Eq(a.read(c, ix), b.read(c, ix)))
		}
		return r
	case BSlice:
		if b, ok := y.(BSlice); ok { // only nil comparisons are legal
			if b.a == nil {
				return c.Bool(a.a == nil)
			}
			return c.Bool(b.a == nil && a.a == nil)
		}
		return c.Bool(a.a == nil)
	case SliceV:
		return c.Bool(!a.nonnil)
	case *MapV:
		b, _ := y.(*MapV)
		return c.Bool(a == b)
	case *ChanV:
		b, _ := y.(*ChanV)
		return c.Bool(a == b)
	case *Closure:
		b, _ := y.(*Closure)
		return c.Bool(a == b)
	case UPtr:
		b := y.(UPtr)
		if a.v == nil || b.v == nil {
			return c.Bool(isNilPtr(a.v) && isNilPtr(b.v))
		}
		return in.equal(a.v, b.v, t)
	case nil:
		return c.Bool(y == nil)
	}
	limitf("equality of %T at %s", x, in.where())
	return nil
}
func isNilPtr(v Value) bool {
	if v == nil {
		return true
	}
	p, ok := v.(*Value)
	return ok && p == nil
}

func (in *Interp) load(t *Thread, p Value) (Value, bool) {
	switch a := p.(type) {
	case *Value:
		if a == nil {
			in.rtPanic(t, "invalid memory address or nil pointer dereference")
			return nil, false
		}
		return copyVal(*a), true
	case BPtr:
		return a.a.read(in.c, a.i), true
	}
	limitf("load through %T at %s", p, in.where())
	return nil, false
}

func (in *Interp) unop(t *Thread, fr *Frame, x *ssa.UnOp) {
	c := in.c
	v := in.get(fr, x.X)
	switch x.Op {
	case token.MUL:
		r, ok := in.load(t, v)
		if !ok {
			return
		}
		in.set(fr, x, r)
	case token.SUB:
		switch a := v.(type) {
		case *Term:
			in.set(fr, x, c.Neg(a))
		case float64:
			in.set(fr, x, -a)
		}
	case token.NOT:
		in.set(fr, x, c.Not(v.(*Term)))
	case token.XOR:
		a := v.(*Term)
		in.set(fr, x, c.Sub(c.Const(a.w, mask(a.w)), a))
	case token.ARROW:
		ch := v.(*ChanV)
		r, ok, done := in.recv(t, ch, x.X.Type().Underlying().(*types.Chan).Elem())
		if !done {
			return
		}
		if x.CommaOk {
			in.set(fr, x, TupleV{r, c.Bool(ok)})
		} else {
			in.set(fr, x, r)
		}
	default:
		limitf("unop %s", x.Op)
	}
	fr.pc++
}

func (in *Interp) convert(t *Thread, v Value, from, to types.Type) Value {
	c := in.c
	fw, fs, fok := intInfo(from)
	tw, _, tok := intInfo(to)
	switch a := v.(type) {
	case *Term:
		if fok && tok {
			if tw == fw {
				return a
			}
			if tw < fw {
				return c.Trunc(a, tw)
			}
			if fs {
				return c.Sext(a, tw)
			}
			return c.Zext(a, tw)
		}
		if isFloat(to) {
			a = c.norm(a)
			if a.op != OConst {
				a = c.Const(a.w, in.concretize(a))
			}
			if fs {
				return float64(sx(a.k, a.w))
			}
			return float64(a.k)
		}
		if isString(to) {
			k := in.concretize(a)
			return Str{S: string(rune(sx(k, a.w)))}
		}
		if b, ok := to.Underlying().(*types.Basic); ok && b.Kind() == types.UnsafePointer {
			limitf("uintptr to pointer at %s", in.where())
		}
	case float64:
		if isFloat(to) {
			if b := to.Underlying().(*types.Basic); b.Kind() == types.Float32 {
				return float64(float32(a))
			}
			return a
		}
		if tok {
			_, ts, _ := intInfo(to)
			if ts {
				return c.Const(tw, uint64(int64(a)))
			}
			return c.Const(tw, uint64(a))
		}
	case Str:
		if sl, ok := to.Underlying().(*types.Slice); ok {
			if isByteElem(sl.Elem()) {
				n := uint64(a.Len())
				var arr *ByteArr
				if s, ok := a.Conc(); ok {
					arr = newZeroArr(c.Const(64, n))
					if n > 0 {
						arr.splice(0, n, []seg{{0, n, &nConst{[]byte(s)}, 0}})
					}
				} else {
					arr = newZeroArr(c.Const(64, n))
					arr.splice(0, n, []seg{{0, n, &nTerms{append([]*Term(nil), a.B...)}, 0}})
				}
				return BSlice{arr, c.Const(64, 0), c.Const(64, n), c.Const(64, n)}
			}
			s, ok := a.Conc()
			if !ok {
				limitf("symbolic string to runes")
			}
			rs := []rune(s)
			out := make([]Value, len(rs))
			for i, r := range rs {
				out[i] = c.Const(32, uint64(r))
			}
			return SliceV{out, 0, len(out), len(out), true}
		}
		if isString(to) {
			return a
		}
	case BSlice:
		if isString(to) {
			return in.bytesToStr(a)
		}
		if _, ok := to.Underlying().(*types.Slice); ok {
			return a
		}
	case SliceV:
		if isString(to) { // runes
			var sb strings.Builder
			for i := 0; i < a.len; i++ {
				k := in.concretize(a.arr[a.off+i].(*Term))
				sb.WriteRune(rune(k))
			}
			return Str{S: sb.String()}
		}
	case *Value, BPtr:
		if b, ok := to.Underlying().(*types.Basic); ok && b.Kind() == types.UnsafePointer {
			return UPtr{v}
		}
		return v
	case UPtr:
		if b, ok := to.Underlying().(*types.Basic); ok {
			if b.Kind() == types.Uintptr {
				return in.address(a.v)
			}
			if b.Kind() == types.UnsafePointer {
				return a
			}
		}
		if a.v == nil {
			return (*Value)(nil)
		}
		return a.v
	}
	limitf("convert %T from %s to %s at %s", v, from, to, in.where())
	return nil
}

func (in *Interp) bytesToStr(a BSlice) Str {
	if a.a == nil {
		return Str{}
	}
	n := in.concretize(a.len)
	out := make([]*Term, n)
	for i := range out {
		out[i] = a.a.read(in.c, in.c.AddK(a.off, uint64(i)))
	}
	if len(out) == 0 {
		return Str{}
	}
	return mkStr(out)
}

// address models the numeric address of a pointer: only byte buffers matter.
func (in *Interp) address(v Value) Value {
	c := in.c
	switch p := v.(type) {
	case BPtr:
		return c.Add(in.baseAddr(p.a), p.i)
	case *Value:
		if p == nil {
			return c.Const(64, 0)
		}
	case nil:
		return c.Const(64, 0)
	}
	limitf("address of %T at %s", v, in.where())
	return nil
}

var sizeClasses = []uint64{8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5120, 5376, 6144, 6528, 6784, 6912, 8192, 9472, 9728, 10240, 10880, 12288, 13568, 14336, 16384, 18432, 19072, 20480, 21760, 24576, 27264, 28672, 32768}

// baseAddr gives the array a symbolic page-relative base address consistent
// with the Go allocator's size classes.
func (in *Interp) baseAddr(a *ByteArr) *Term {
	if a.addr != nil {
		return a.addr
	}
	c := in.c
	in.addrSeq++
	base := uint64(0xc000000000)
	size := c.norm(a.size)
	lo, hi := c.bounds(size)
	if lo > 32768 {
		a.addr = c.Const(64, base)
		return a.addr
	}
	name := fmt.Sprintf("addr#%d", in.addrSeq)
	v := c.Var(name, 64)
	gran := uint64(8)
	if lo == hi {
		for _, s := range sizeClasses {
			if s >= lo {
				gran = s & -s
				if gran > 8192 {
					gran = 8192
				}
				break
			}
		}
		if lo < 16 {
			gran = 1 // tiny allocator
		}
	}
	if gran >= 8192 {
		a.addr = c.Const(64, base)
		return a.addr
	}
	// v is the index of the granule inside a page
	in.inputs = append(in.inputs, Input{Name: name, Kind: "addr", t: v})
	in.assume(c.Ult(v, c.Const(64, 8192/gran)))
	if hi > 32768 && lo != hi {
		// large objects are page aligned
		in.assume(c.Or(c.Ule(size, c.Const(64, 32768)), c.Eq(v, c.Const(64, 0))))
	}
	a.addr = c.AddK(c.Scale(v, gran), base)
	return a.addr
}

// ------------------------------------------------------------ slices

func (in *Interp) idx64(v Value, ty types.Type) *Term {
	t := v.(*Term)
	_, s, _ := intInfo(ty)
	if s {
		return in.c.Sext(t, 64)
	}
	return in.c.Zext(t, 64)
}

func (in *Interp) inBounds(t *Thread, idx, n *Term) bool {
	if in.branch(in.c.Ult(idx, n)) {
		return true
	}
	in.rtPanic(t, fmt.Sprintf("index out of range [%s] with length %s", in.describe(idx, 0), in.describe(n, 0)))
	return false
}

func (in *Interp) indexAddr(t *Thread, fr *Frame, x *ssa.IndexAddr) {
	c := in.c
	idx := in.idx64(in.get(fr, x.Index), x.Index.Type())
	switch a := in.get(fr, x.X).(type) {
	case BSlice:
		if !in.inBounds(t, idx, a.len) {
			return
		}
		in.set(fr, x, BPtr{a.a, c.Add(a.off, idx)})
	case SliceV:
		if !in.inBounds(t, idx, c.Const(64, uint64(a.len))) {
			return
		}
		k := in.concretize(idx)
		in.set(fr, x, &a.arr[a.off+int(k)])
	case *Value:
		if a == nil {
			in.rtPanic(t, "invalid memory address or nil pointer dereference")
			return
		}
		switch arr := (*a).(type) {
		case *ByteArr:
			if !in.inBounds(t, idx, arr.size) {
				return
			}
			in.set(fr, x, BPtr{arr, idx})
		case ArrV:
			if !in.inBounds(t, idx, c.Const(64, uint64(len(arr)))) {
				return
			}
			k := in.concretize(idx)
			in.set(fr, x, &arr[k])
		default:
			limitf("indexaddr of pointer to %T", *a)
		}
	default:
		limitf("indexaddr of %T at %s", a, in.where())
	}
	fr.pc++
}

func (in *Interp) index(t *Thread, fr *Frame, x *ssa.Index) {
	c := in.c
	idx := in.idx64(in.get(fr, x.Index), x.Index.Type())
	switch a := in.get(fr, x.X).(type) {
	case *ByteArr:
		if !in.inBounds(t, idx, a.size) {
			return
		}
		in.set(fr, x, a.read(c, idx))
	case ArrV:
		if !in.inBounds(t, idx, c.Const(64, uint64(len(a)))) {
			return
		}
		in.set(fr, x, copyVal(in.pick(a, idx)))
	case Str:
		if !in.inBounds(t, idx, c.Const(64, uint64(a.Len()))) {
			return
		}
		in.set(fr, x, in.strAt(a, idx))
	default:
		limitf("index of %T", a)
	}
	fr.pc++
}

func (in *Interp) strAt(a Str, idx *Term) *Term {
	c := in.c
	if a.B == nil {
		return c.readNode(&nConst{[]byte(a.S)}, idx)
	}
	return c.readNode(&nTerms{a.B}, idx)
}

func (in *Interp) pick(a []Value, idx *Term) Value {
	c := in.c
	idx = c.norm(idx)
	if idx.op == OConst {
		return a[idx.k]
	}
	if _, ok := a[0].(*Term); ok {
		lo, hi := c.bounds(idx)
		if hi >= uint64(len(a)) {
			hi = uint64(len(a) - 1)
		}
		if hi-lo <= 512 {
			r := a[hi].(*Term)
			for j := int64(hi) - 1; j >= int64(lo); j-- {
				r = c.Ite(c.Eq(idx, c.Const(64, uint64(j))), a[j].(*Term), r)
			}
			return r
		}
	}
	return a[in.concretize(idx)]
}

func (in *Interp) sliceOp(t *Thread, fr *Frame, x *ssa.Slice) {
	c := in.c
	xv := in.get(fr, x.X)
	opt := func(v ssa.Value) *Term {
		if v == nil {
			return nil
		}
		return in.idx64(in.get(fr, v), v.Type())
	}
	lo, hi, max := opt(x.Low), opt(x.High), opt(x.Max)
	if lo == nil {
		lo = c.Const(64, 0)
	}
	switch a := xv.(type) {
	case Str:
		n := c.Const(64, uint64(a.Len()))
		if hi == nil {
			hi = n
		}
		if !in.branch(c.And(c.Ule(lo, hi), c.Ule(hi, n))) {
			in.rtPanic(t, "slice bounds out of range")
			return
		}
		in.set(fr, x, a.slice(int(in.concretize(lo)), int(in.concretize(hi))))
		fr.pc++
		return
	case *Value:
		if a == nil {
			in.rtPanic(t, "invalid memory address or nil pointer dereference")
			return
		}
		switch arr := (*a).(type) {
		case *ByteArr:
			xv = BSlice{arr, c.Const(64, 0), arr.size, arr.size}
		case ArrV:
			xv = SliceV{arr, 0, len(arr), len(arr), true}
		default:
			limitf("slice of pointer to %T", *a)
		}
	}
	switch a := xv.(type) {
	case BSlice:
		if hi == nil {
			hi = a.len
		}
		m := a.cap
		if max != nil {
			m = max
		}
		ok := c.And(c.Ule(lo, hi), c.Ule(hi, m))
		if max != nil {
			ok = c.And(ok, c.Ule(max, a.cap))
		}
		if !in.branch(ok) {
			in.rtPanic(t, fmt.Sprintf("slice bounds out of range [%s:%s] with capacity %s", in.describe(lo, 0), in.describe(hi, 0), in.describe(a.cap, 0)))
			return
		}
		in.set(fr, x, BSlice{a.a, c.norm(c.Add(a.off, lo)), c.norm(c.Sub(hi, lo)), c.norm(c.Sub(m, lo))})
	case SliceV:
		l := int(int64(in.concretize(lo)))
		h := a.len
		if hi != nil {
			h = int(int64(in.concretize(hi)))
		}
		m := a.cap
		if max != nil {
			m = int(int64(in.concretize(max)))
		}
		if l < 0 || l > h || h > m || m > a.cap {
			in.rtPanic(t, "slice bounds out of range")
			return
		}
		for i := a.off + a.len; i < a.off+h; i++ {
			if a.arr[i] == nil { // capacity not used so far
				a.arr[i] = in.zero(x.Type().Underlying().(*types.Slice).Elem())
			}
		}
		in.set(fr, x, SliceV{a.arr, a.off + l, h - l, m - l, a.nonnil})
	default:
		limitf("slice of %T", xv)
	}
	fr.pc++
}

func (in *Interp) makeSlice(t *Thread, fr *Frame, x *ssa.MakeSlice) {
	c := in.c
	n := in.idx64(in.get(fr, x.Len), x.Len.Type())
	m := in.idx64(in.get(fr, x.Cap), x.Cap.Type())
	et := x.Type().Underlying().(*types.Slice).Elem()
	lim := uint64(1) << 40
	if !in.branch(c.And(c.Ule(n, m), c.Ult(m, c.Const(64, lim)))) {
		in.rtPanic(t, "makeslice: len or cap out of range")
		return
	}
	n, m = c.norm(n), c.norm(m)
	if isByteElem(et) {
		in.set(fr, x, BSlice{newZeroArr(m), c.Const(64, 0), n, m})
		fr.pc++
		return
	}
	nn, mm := int(in.concretize(n)), int(in.concretize(m))
	if mm > 1<<22 {
		limitf("make of %d elements", mm)
	}
	arr := make([]Value, mm)
	in.fillZero(arr[:nn], et) // the rest when a slice of it is made
	in.set(fr, x, SliceV{arr, 0, nn, mm, true})
	fr.pc++
}

// fillZero fills arr with zero values of type et; values without interior
// cells are immutable and shared.
func (in *Interp) fillZero(arr []Value, et types.Type) {
	switch et.Underlying().(type) {
	case *types.Struct, *types.Array, *types.Tuple:
		for i := range arr {
			arr[i] = in.zero(et)
		}
		return
	}
	if len(arr) == 0 {
		return
	}
	z := in.zero(et)
	for i := range arr {
		arr[i] = z
	}
}

// growCap follows runtime.growslice for byte slices and small elements.
func growCap(oldCap, newLen uint64, elem uint64) uint64 {
	newcap := oldCap
	double := newcap + newcap
	if newLen > double {
		newcap = newLen
	} else if oldCap < 256 {
		newcap = double
	} else {
		for newcap < newLen {
			newcap += (newcap + 3*256) >> 2
		}
	}
	sz := newcap * elem
	return roundupsize(sz) / elem
}
func roundupsize(sz uint64) uint64 {
	if sz <= 32768 {
		for _, s := range sizeClasses {
			if s >= sz {
				return s
			}
		}
	}
	return (sz + 8191) &^ 8191
}

func (in *Interp) appendOp(t *Thread, a, b Value) Value {
	c := in.c
	switch x := a.(type) {
	case BSlice:
		var src *ByteArr
		var soff, n *Term
		switch y := b.(type) {
		case BSlice:
			src, soff, n = y.a, y.off, y.len
		case Str:
			bs := in.convert(t, y, types.Typ[types.String], types.NewSlice(types.Typ[types.Uint8])).(BSlice)
			src, soff, n = bs.a, bs.off, bs.len
		case SliceV:
			return a
		}
		if n.op == OConst && n.k == 0 {
			return a
		}
		nl := c.norm(c.Add(x.len, n))
		if x.a != nil && in.branch(c.Ule(nl, x.cap)) {
			copyBytes(c, x.a, c.Add(x.off, x.len), src, soff, n)
			return BSlice{x.a, x.off, nl, x.cap}
		}
		var ncap *Term
		nlc, cc := c.norm(nl), c.norm(x.cap)
		if nlc.op == OConst && cc.op == OConst {
			ncap = c.Const(64, growCap(cc.k, nlc.k, 1))
		} else {
			in.nfresh++
			ncap = c.Var(fmt.Sprintf("cap#%d", in.nfresh), 64)
			in.assume(c.And(c.Ule(nl, ncap), c.Ult(ncap, c.Const(64, 1<<40))))
		}
		arr := newZeroArr(ncap)
		if x.a != nil {
			copyBytes(c, arr, c.Const(64, 0), x.a, x.off, x.len)
		}
		copyBytes(c, arr, x.len, src, soff, n)
		return BSlice{arr, c.Const(64, 0), nl, ncap}
	case SliceV:
		y, ok := b.(SliceV)
		if !ok {
			return a
		}
		if y.len == 0 {
			return a
		}
		nl := x.len + y.len
		if nl <= x.cap {
			// overlapping append is fine: copy values
			tmp := make([]Value, y.len)
			for i := range tmp {
				tmp[i] = copyVal(y.arr[y.off+i])
			}
			for i := range tmp {
				storeInto(&x.arr[x.off+x.len+i], tmp[i])
			}
			return SliceV{x.arr, x.off, nl, x.cap, true}
		}
		nc := int(growCap(uint64(x.cap), uint64(nl), 8))
		if nc < nl {
			nc = nl
		}
		arr := make([]Value, nc)
		for i := 0; i < x.len; i++ {
			arr[i] = copyVal(x.arr[x.off+i])
		}
		for i := 0; i < y.len; i++ {
			arr[x.len+i] = copyVal(y.arr[y.off+i])
		}
		for i := nl; i < nc; i++ {
			arr[i] = zeroLike(arr[0], in)
		}
		return SliceV{arr, 0, nl, nc, true}
	}
	limitf("append to %T", a)
	return nil
}

func zeroLike(v Value, in *Interp) Value {
	switch x := v.(type) {
	case *Term:
		return in.c.Const(x.w, 0)
	case float64:
		return float64(0)
	case Str:
		return Str{}
	case *Value, BPtr:
		return (*Value)(nil)
	case StructV:
		n := make(StructV, len(x))
		for i := range x {
			n[i] = zeroLike(x[i], in)
		}
		return n
	case ArrV:
		n := make(ArrV, len(x))
		for i := range x {
			n[i] = zeroLike(x[i], in)
		}
		return n
	case *ByteArr:
		return newZeroArr(x.size)
	case Iface:
		return Iface{}
	case BSlice:
		z := in.c.Const(64, 0)
		return BSlice{nil, z, z, z}
	case SliceV:
		return SliceV{}
	case *MapV:
		return (*MapV)(nil)
	case *ChanV:
		return (*ChanV)(nil)
	case *Closure:
		return (*Closure)(nil)
	case UPtr:
		return UPtr{}
	}
	return nil
}

func (in *Interp) copyOp(t *Thread, d, s Value) Value {
	c := in.c
	switch x := d.(type) {
	case BSlice:
		var src *ByteArr
		var soff, n *Term
		switch y := s.(type) {
		case BSlice:
			src, soff, n = y.a, y.off, y.len
		case Str:
			bs := in.convert(t, y, types.Typ[types.String], types.NewSlice(types.Typ[types.Uint8])).(BSlice)
			src, soff, n = bs.a, bs.off, bs.len
		}
		if x.a == nil || src == nil {
			return c.Const(64, 0)
		}
		m := n
		if !in.branch(c.Ule(n, x.len)) {
			m = x.len
		}
		m = c.norm(m)
		copyBytes(c, x.a, c.norm(x.off), src, c.norm(soff), m)
		return m
	case SliceV:
		y := s.(SliceV)
		n := x.len
		if y.len < n {
			n = y.len
		}
		tmp := make([]Value, n)
		for i := range tmp {
			tmp[i] = copyVal(y.arr[y.off+i])
		}
		for i := range tmp {
			storeInto(&x.arr[x.off+i], tmp[i])
		}
		return c.Const(64, uint64(n))
	}
	limitf("copy to %T", d)
	return nil
}

// ------------------------------------------------------------ maps

func newMap() *MapV { return &MapV{idx: map[string]int{}} }

func (in *Interp) mapKey(k Value) (string, bool) {
	switch x := k.(type) {
	case *Term:
		x = in.c.norm(x)
		if x.op == OConst {
			return fmt.Sprintf("i%d:%d", x.w, x.k), true
		}
		return "", false
	case Str:
		s, ok := x.Conc()
		return "s" + s, ok
	case *Value:
		return fmt.Sprintf("p%p", x), true
	case *Closure, *ChanV, *MapV:
		return fmt.Sprintf("q%p", x), true
	case Iface:
		if x.t == nil {
			return "nil", true
		}
		s, ok := in.mapKey(x.v)
		return "I" + x.t.String() + "/" + s, ok
	case StructV:
		r := "{"
		for _, f := range x {
			s, ok := in.mapKey(f)
			if !ok {
				return "", false
			}
			r += s + ","
		}
		return r + "}", true
	case ArrV:
		r := "["
		for _, f := range x {
			s, ok := in.mapKey(f)
			if !ok {
				return "", false
			}
			r += s + ","
		}
		return r + "]", true
	case *ByteArr:
		r := "b["
		for i := uint64(0); i < x.size.k; i++ {
			t := x.read(in.c, in.c.Const(64, i))
			if t.op != OConst {
				return "", false
			}
			r += fmt.Sprint(t.k) + ","
		}
		return r, true
	case float64:
		return fmt.Sprintf("f%v", x), true
	}
	limitf("map key %T", k)
	return "", false
}

// mapFind returns the slot index or -1 (forking on symbolic equality).
func (in *Interp) mapFind(m *MapV, k Value) int {
	if m == nil {
		return -1
	}
	s, ok := in.mapKey(k)
	if ok {
		if i, hit := m.idx[s]; hit && m.live[i] {
			return i
		}
		if !m.anySym {
			return -1
		}
	}
	for i := range m.keys {
		if !m.live[i] {
			continue
		}
		if in.branch(in.equal(m.keys[i], k, in.cur)) {
			return i
		}
	}
	return -1
}
func (in *Interp) mapSet(m *MapV, k, v Value) {
	i := in.mapFind(m, k)
	if i >= 0 {
		*m.vals[i] = v
		return
	}
	s, ok := in.mapKey(k)
	p := new(Value)
	*p = v
	m.keys = append(m.keys, copyVal(k))
	m.vals = append(m.vals, p)
	m.live = append(m.live, true)
	m.n++
	if ok {
		m.idx[s] = len(m.keys) - 1
	} else {
		m.anySym = true
	}
}
func (in *Interp) mapDelete(m *MapV, k Value) {
	i := in.mapFind(m, k)
	if i >= 0 {
		m.live[i] = false
		m.n--
		if s, ok := in.mapKey(m.keys[i]); ok {
			delete(m.idx, s)
		}
	}
}

func (in *Interp) lookup(t *Thread, fr *Frame, x *ssa.Lookup) {
	c := in.c
	switch m := in.get(fr, x.X).(type) {
	case *MapV:
		i := in.mapFind(m, in.get(fr, x.Index))
		et := x.X.Type().Underlying().(*types.Map).Elem()
		var v Value
		if i >= 0 {
			v = copyVal(*m.vals[i])
		} else {
			v = in.zero(et)
		}
		if x.CommaOk {
			in.set(fr, x, TupleV{v, c.Bool(i >= 0)})
		} else {
			in.set(fr, x, v)
		}
	case Str:
		idx := in.idx64(in.get(fr, x.Index), x.Index.Type())
		if !in.inBounds(t, idx, c.Const(64, uint64(m.Len()))) {
			return
		}
		in.set(fr, x, in.strAt(m, idx))
	default:
		limitf("lookup in %T", m)
	}
	fr.pc++
}

func (in *Interp) next(fr *Frame, x *ssa.Next) {
	c := in.c
	it := in.get(fr, x.Iter).(*rangeIter)
	tt := x.Type().(*types.Tuple)
	zeroOf := func(i int) Value {
		if b, ok := tt.At(i).Type().(*types.Basic); ok && b.Kind() == types.Invalid {
			return nil
		}
		return in.zero(tt.At(i).Type())
	}
	if it.str {
		if it.i >= it.s.Len() {
			in.set(fr, x, TupleV{c.False, c.Const(64, 0), c.Const(32, 0)})
			return
		}
		s, ok := it.s.Conc()
		if !ok {
			b := it.s.B[it.i]
			if !in.branch(c.Ult(b, c.Const(8, 0x80))) {
				limitf("non-ASCII symbolic string range")
			}
			in.set(fr, x, TupleV{c.True, c.Const(64, uint64(it.i)), c.Zext(b, 32)})
			it.i++
			return
		}
		for j, r := range s[it.i:] {
			_ = j
			in.set(fr, x, TupleV{c.True, c.Const(64, uint64(it.i)), c.Const(32, uint64(uint32(r)))})
			n := len(string(r))
			if r == 0xfffd {
				n = 1
				if strings.HasPrefix(s[it.i:], "\uFFFD") {
					n = 3
				}
			}
			it.i += n
			return
		}
	}
	for it.m != nil && it.i < len(it.m.keys) {
		i := it.i
		it.i++
		if it.m.live[i] {
			in.set(fr, x, TupleV{c.True, copyVal(it.m.keys[i]), copyVal(*it.m.vals[i])})
			return
		}
	}
	in.set(fr, x, TupleV{c.False, zeroOf(1), zeroOf(2)})
}

// ------------------------------------------------------------ types

func (in *Interp) implements(dyn types.Type, it *types.Interface) bool {
	return types.Implements(dyn, it)
}

func (in *Interp) typeAssert(t *Thread, fr *Frame, x *ssa.TypeAssert) {
	c := in.c
	v := in.get(fr, x.X).(Iface)
	ok := false
	var r Value
	if v.t != nil {
		if it, isI := x.AssertedType.Underlying().(*types.Interface); isI {
			if in.implements(v.t, it) {
				ok = true
				r = v
			}
		} else if types.Identical(v.t, x.AssertedType) {
			ok = true
			r = copyVal(v.v)
		}
	}
	if !ok {
		r = in.zero(x.AssertedType)
	}
	if x.CommaOk {
		in.set(fr, x, TupleV{r, c.Bool(ok)})
	} else {
		if !ok {
			in.rtPanic(t, fmt.Sprintf("interface conversion: %v is not %v", v.t, x.AssertedType))
			return
		}
		in.set(fr, x, r)
	}
	fr.pc++
}

// ------------------------------------------------------------ calls

func (in *Interp) prepCall(t *Thread, fr *Frame, call *ssa.CallCommon, site ssa.Instruction) (Value, []Value) {
	var args []Value
	if call.IsInvoke() {
		recv := in.get(fr, call.Value)
		iv, ok := recv.(Iface)
		if !ok || iv.t == nil {
			in.rtPanic(t, "invalid memory address or nil pointer dereference (method call on nil interface)")
			return nil, nil
		}
		fn := in.findMethod(iv.t, call.Method)
		args = append(args, iv.v)
		for _, a := range call.Args {
			args = append(args, in.get(fr, a))
		}
		return in.fnVal(fn), args
	}
	fv := in.get(fr, call.Value)
	for _, a := range call.Args {
		args = append(args, in.get(fr, a))
	}
	return fv, args
}

func (in *Interp) findMethod(t types.Type, m *types.Func) *ssa.Function {
	key := t.String() + "|" + m.Id()
	if fn := in.methods[key]; fn != nil {
		return fn
	}
	in.w.mu.Lock()
	fn := in.w.prog.LookupMethod(t, m.Pkg(), m.Name())
	in.w.mu.Unlock()
	if fn == nil {
		limitf("no method %s on %s", m.Name(), t)
	}
	in.methods[key] = fn
	return fn
}

func (in *Interp) call(t *Thread, fr *Frame, call *ssa.CallCommon, res ssa.Value, site ssa.Instruction) {
	// fast path for static calls
	fv, args := in.prepCall(t, fr, call, site)
	if fr.panic_ != nil {
		return
	}
	if b, ok := fv.(BuiltinV); ok {
		v := in.builtin(t, fr, b.name, args, call, site)
		if fr.panic_ != nil {
			return
		}
		in.set(fr, res, v)
		fr.pc++
		return
	}
	v, done := in.callValue(t, fv, args, res, site)
	if done {
		if v == retryV {
			return
		}
		in.set(fr, res, v)
		fr.pc++
	}
}

func (in *Interp) builtin(t *Thread, fr *Frame, name string, args []Value, call *ssa.CallCommon, site ssa.Instruction) Value {
	c := in.c
	switch name {
	case "len":
		switch a := args[0].(type) {
		case BSlice:
			return a.len
		case SliceV:
			return c.Const(64, uint64(a.len))
		case Str:
			return c.Const(64, uint64(a.Len()))
		case *MapV:
			if a == nil {
				return c.Const(64, 0)
			}
			return c.Const(64, uint64(a.n))
		case *ChanV:
			if a == nil {
				return c.Const(64, 0)
			}
			return c.Const(64, uint64(len(a.buf)))
		case ArrV:
			return c.Const(64, uint64(len(a)))
		case *ByteArr:
			return a.size
		case *Value:
			switch y := (*a).(type) {
			case ArrV:
				return c.Const(64, uint64(len(y)))
			case *ByteArr:
				return y.size
			}
		}
	case "cap":
		switch a := args[0].(type) {
		case BSlice:
			return a.cap
		case SliceV:
			return c.Const(64, uint64(a.cap))
		case *ChanV:
			return c.Const(64, uint64(a.cap))
		case *ByteArr:
			return a.size
		case ArrV:
			return c.Const(64, uint64(len(a)))
		}
	case "append":
		if len(args) == 1 {
			return args[0]
		}
		return in.appendOp(t, args[0], args[1])
	case "copy":
		return in.copyOp(t, args[0], args[1])
	case "delete":
		if m := args[0].(*MapV); m != nil {
			in.mapDelete(m, args[1])
		}
		return nil
	case "clear":
		switch a := args[0].(type) {
		case *MapV:
			if a != nil {
				*a = *newMap()
			}
			return nil
		case BSlice:
			if a.a != nil {
				copyBytes(c, a.a, a.off, newZeroArr(a.len), c.Const(64, 0), a.len)
			}
			return nil
		case SliceV:
			for i := 0; i < a.len; i++ {
				storeInto(&a.arr[a.off+i], zeroLike(a.arr[a.off+i], in))
			}
			return nil
		}
	case "close":
		ch := args[0].(*ChanV)
		if ch == nil || ch.closed {
			in.goPanic(t, Iface{in.w.runtimeErr, Str{S: "close of nil or closed channel"}}, "close of nil or closed channel")
			return nil
		}
		in.syncRelease(t, ch)
		ch.closed = true
		return nil
	case "recover":
		if fr.deferOf != nil && fr.deferOf.panic_ != nil && !fr.deferOf.panic_.recovered {
			p := fr.deferOf.panic_
			p.recovered = true
			if iv, ok := p.v.(Iface); ok {
				return iv
			}
			return Iface{types.Typ[types.String], p.v}
		}
		return Iface{}
	case "print", "println":
		return nil
	case "min", "max":
		r := args[0]
		for _, a := range args[1:] {
			x, ok := r.(*Term)
			if !ok {
				limitf("%s on %T", name, r)
			}
			y := a.(*Term)
			_, s, _ := intInfo(call.Args[0].Type())
			var lt *Term
			if s {
				lt = c.Slt(x, y)
			} else {
				lt = c.Ult(x, y)
			}
			take := in.branch(lt)
			if (name == "min") == take {
				r = x
			} else {
				r = y
			}
		}
		return r
	case "ssa:wrapnilchk":
		if isNilPtr(args[0]) {
			in.rtPanic(t, "value method called using nil pointer")
			return nil
		}
		return args[0]
	case "String": // unsafe.String
		p := args[0]
		n := in.concretize(args[1].(*Term))
		if n == 0 {
			return Str{}
		}
		bp := p.(BPtr)
		return in.bytesToStr(BSlice{bp.a, bp.i, c.Const(64, n), c.Const(64, n)})
	case "SliceData":
		switch a := args[0].(type) {
		case BSlice:
			if a.a == nil {
				return (*Value)(nil)
			}
			return BPtr{a.a, a.off}
		case SliceV:
			if a.len == 0 {
				return (*Value)(nil)
			}
			return &a.arr[a.off]
		}
	case "StringData":
		s := args[0].(Str)
		if s.Len() == 0 {
			return (*Value)(nil)
		}
		bs := in.convert(t, s, types.Typ[types.String], types.NewSlice(types.Typ[types.Uint8])).(BSlice)
		return BPtr{bs.a, bs.off}
	case "Slice":
		n := args[1].(*Term)
		if bp, ok := args[0].(BPtr); ok {
			n = in.idx64(n, call.Args[1].Type())
			return BSlice{bp.a, bp.i, n, n}
		}
	}
	limitf("builtin %s on %T at %s", name, args[0], in.where())
	return nil
}

// ------------------------------------------------------------ channels

func (in *Interp) chanReadyRecv(ch *ChanV) bool {
	if ch == nil || ch.never {
		return false
	}
	return len(ch.buf) > 0 || len(ch.items) > 0 || ch.closed
}

func (in *Interp) send(t *Thread, ch *ChanV, v Value) bool {
	if t.pending != nil {
		if t.pending.taken {
			t.pending = nil
			return true
		}
		it := t.pending
		in.block(t, "channel send", func() bool { return it.taken })
		return false
	}
	if ch == nil {
		in.block(t, "send on nil channel", func() bool { return false })
		return false
	}
	if ch.closed {
		in.goPanic(t, Iface{in.w.runtimeErr, Str{S: "send on closed channel"}}, "send on closed channel")
		return false
	}
	in.syncRelease(t, ch)
	if len(ch.buf) < ch.cap {
		ch.buf = append(ch.buf, v)
		return true
	}
	it := &sendItem{v: v}
	ch.items = append(ch.items, it)
	t.pending = it
	in.block(t, "channel send", func() bool { return it.taken })
	return false
}

func (in *Interp) recv(t *Thread, ch *ChanV, et types.Type) (Value, bool, bool) {
	if ch != nil {
		if in.chanReadyRecv(ch) {
			in.syncAcquire(t, ch)
		}
		if len(ch.buf) > 0 {
			v := ch.buf[0]
			ch.buf = append([]Value(nil), ch.buf[1:]...)
			if len(ch.items) > 0 {
				it := ch.items[0]
				ch.items = ch.items[1:]
				it.taken = true
				ch.buf = append(ch.buf, it.v)
			}
			return v, true, true
		}
		if len(ch.items) > 0 {
			it := ch.items[0]
			ch.items = ch.items[1:]
			it.taken = true
			return it.v, true, true
		}
		if ch.closed {
			return in.zero(et), false, true
		}
	}
	if ch != nil {
		ch.nrecv++
	}
	woken := false
	in.block(t, "channel receive", func() bool {
		ok := in.chanReadyRecv(ch)
		if ok != woken && ch != nil {
			// counted as a receiver while it waits; asked again until its turn
			if ok {
				ch.nrecv--
			} else {
				ch.nrecv++
			}
		}
		woken = ok
		return ok
	})
	return nil, false, false
}

func (in *Interp) selectOp(t *Thread, fr *Frame, x *ssa.Select) {
	c := in.c
	var ready []int
	for i, st := range x.States {
		ch := in.get(fr, st.Chan).(*ChanV)
		if st.Dir == types.RecvOnly {
			if in.chanReadyRecv(ch) {
				ready = append(ready, i)
			}
		} else if ch != nil && (ch.closed || len(ch.buf) < ch.cap || ch.nrecv > len(ch.items)) {
			ready = append(ready, i)
		}
	}
	res := make(TupleV, x.Type().(*types.Tuple).Len())
	for i := range res {
		res[i] = in.zero(x.Type().(*types.Tuple).At(i).Type())
	}
	if len(ready) == 0 {
		if !x.Blocking {
			res[0] = c.Const(64, ^uint64(0))
			res[1] = c.False
			in.set(fr, x, res)
			fr.pc++
			return
		}
		states := x.States
		chs := make([]*ChanV, len(states))
		for i, st := range states {
			chs[i] = in.get(fr, st.Chan).(*ChanV)
			if st.Dir == types.RecvOnly && chs[i] != nil {
				chs[i].nrecv++
			}
		}
		woken := false
		in.block(t, "select", func() bool {
			ok := false
			for i, st := range states {
				ch := chs[i]
				if st.Dir == types.RecvOnly {
					ok = ok || in.chanReadyRecv(ch)
				} else if ch != nil && (ch.closed || len(ch.buf) < ch.cap || ch.nrecv > len(ch.items)) {
					ok = true
				}
			}
			if ok != woken {
				// counted as a receiver while it waits; asked again until its turn
				for i, st := range states {
					if st.Dir == types.RecvOnly && chs[i] != nil {
						if ok {
							chs[i].nrecv--
						} else {
							chs[i].nrecv++
						}
					}
				}
				woken = ok
			}
			return ok
		})
		return
	}
	k := ready[0]
	if len(ready) > 1 && in.schedAll {
		k = ready[in.choose(len(ready))]
	}
	st := x.States[k]
	ch := in.get(fr, st.Chan).(*ChanV)
	res[0] = c.Const(64, uint64(k))
	if st.Dir == types.RecvOnly {
		v, ok, _ := in.recv(t, ch, st.Chan.Type().Underlying().(*types.Chan).Elem())
		res[1] = c.Bool(ok)
		ri := 2
		for i, s2 := range x.States {
			if s2.Dir == types.RecvOnly {
				if i == k {
					res[ri] = v
				}
				ri++
			}
		}
	} else {
		v := in.get(fr, st.Send)
		if ch.closed {
			in.goPanic(t, Iface{in.w.runtimeErr, Str{S: "send on closed channel"}}, "send on closed channel")
			return
		}
		in.syncRelease(t, ch)
		if len(ch.buf) < ch.cap {
			ch.buf = append(ch.buf, v)
		} else {
			ch.items = append(ch.items, &sendItem{v: v})
		}
	}
	in.set(fr, x, res)
	fr.pc++
}

// atSyncPoint: the next instruction of t is a visible synchronisation action.
func (in *Interp) atSyncPoint(t *Thread) bool {
	if len(t.frames) == 0 {
		return false
	}
	fr := t.frames[len(t.frames)-1]
	if fr.panic_ != nil {
		return false
	}
	switch x := fr.block.Instrs[fr.pc].(type) {
	case *ssa.Send, *ssa.Select:
		return true
	case *ssa.UnOp:
		return x.Op == token.ARROW
	case *ssa.Call:
		if fn := x.Call.StaticCallee(); fn != nil {
			return in.isSyncFn(fr, fn)
		}
	case *ssa.RunDefers:
		if n := len(fr.defers); n > 0 {
			if cl, ok := fr.defers[n-1].fn.(*Closure); ok && cl.fn != nil {
				return in.isSyncFn(fr, cl.fn)
			}
		}
	}
	return false
}
func (in *Interp) isSyncFn(fr *Frame, fn *ssa.Function) bool {
	s := fn.String()
	switch s {
	case "(*sync.Mutex).Lock", "(*sync.Mutex).TryLock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).RLock", "(*sync.RWMutex).TryLock", "(*sync.RWMutex).TryRLock", "(*sync.WaitGroup).Wait":
		return true
	}
	return strings.HasPrefix(s, "sync/atomic.") && in.tracked(fr.fn)
}

// ------------------------------------------------------------ if-conversion

// tryMerge evaluates small pure branch regions on both sides and joins boolean
// phis with ite, avoiding a fork for && and ||.
func (in *Interp) tryMerge(t *Thread, fr *Frame, cond *Term) bool {
	T, F := fr.block.Succs[0], fr.block.Succs[1]
	var J *ssa.BasicBlock
	var side [2]*ssa.BasicBlock
	single := func(b *ssa.BasicBlock) (*ssa.BasicBlock, bool) {
		if len(b.Preds) != 1 || len(b.Succs) != 1 {
			return nil, false
		}
		return b.Succs[0], true
	}
	jt, okT := single(T)
	jf, okF := single(F)
	switch {
	case okT && jt == F:
		J, side[0] = F, T
	case okF && jf == T:
		J, side[1] = T, F
	case okT && okF && jt == jf:
		J, side[0], side[1] = jt, T, F
	default:
		return false
	}
	if len(J.Instrs) == 0 {
		return false
	}
	nphi := 0
	for _, ins := range J.Instrs {
		ph, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		w, _, isInt := intInfo(ph.Type())
		if !isInt || (w != 0 && !in.mergeInts) {
			return false
		}
		nphi++
	}
	if nphi == 0 {
		return false
	}
	from := [2]*ssa.BasicBlock{fr.block, fr.block}
	for k, b := range side {
		if b == nil {
			continue
		}
		from[k] = b
		for _, ins := range b.Instrs[:len(b.Instrs)-1] {
			if !in.pureEval(fr, ins) {
				return false
			}
		}
	}
	vals := make([]Value, nphi)
	for i := 0; i < nphi; i++ {
		ph := J.Instrs[i].(*ssa.Phi)
		var e [2]*Term
		for k := 0; k < 2; k++ {
			for pi, p := range J.Preds {
				if p == from[k] {
					v, ok := in.get(fr, ph.Edges[pi]).(*Term)
					if !ok {
						return false
					}
					e[k] = v
				}
			}
		}
		if e[0] == nil || e[1] == nil {
			return false
		}
		vals[i] = in.c.Ite(cond, e[0], e[1])
	}
	for i := 0; i < nphi; i++ {
		in.set(fr, J.Instrs[i].(*ssa.Phi), vals[i])
	}
	in.loopCheck(fr, J)
	fr.prev = from[0]
	fr.block = J
	fr.pc = nphi
	return true
}

func (in *Interp) pureEval(fr *Frame, ins ssa.Instruction) bool {
	switch x := ins.(type) {
	case *ssa.DebugRef:
		return true
	case *ssa.BinOp:
		switch x.Op {
		case token.QUO, token.REM, token.SHL, token.SHR, token.AND, token.AND_NOT:
			if w, _, ok := intInfo(x.X.Type()); !(ok && w == 0) {
				return false
			}
		}
		a, ok1 := in.get(fr, x.X).(*Term)
		b, ok2 := in.get(fr, x.Y).(*Term)
		if !ok1 || !ok2 {
			switch x.Op {
			case token.EQL, token.NEQ:
				v := in.equal(in.get(fr, x.X), in.get(fr, x.Y), in.cur)
				if x.Op == token.NEQ {
					v = in.c.Not(v)
				}
				in.set(fr, x, v)
				return true
			}
			return false
		}
		in.set(fr, x, in.binopV(in.cur, x.Op, a, b, x.X.Type(), x.Y.Type()))
		return true
	case *ssa.UnOp:
		v := in.get(fr, x.X)
		switch x.Op {
		case token.MUL:
			p, ok := v.(*Value)
			if !ok || p == nil {
				return false
			}
			in.set(fr, x, copyVal(*p))
			return true
		case token.NOT:
			in.set(fr, x, in.c.Not(v.(*Term)))
			return true
		}
		return false
	case *ssa.FieldAddr:
		p, ok := in.get(fr, x.X).(*Value)
		if !ok || p == nil {
			return false
		}
		s, ok := (*p).(StructV)
		if !ok {
			return false
		}
		in.set(fr, x, &s[x.Field])
		return true
	case *ssa.Field:
		s, ok := in.get(fr, x.X).(StructV)
		if !ok {
			return false
		}
		in.set(fr, x, copyVal(s[x.Field]))
		return true
	case *ssa.Extract:
		tv, ok := in.get(fr, x.Tuple).(TupleV)
		if !ok {
			return false
		}
		in.set(fr, x, tv[x.Index])
		return true
	case *ssa.Convert:
		if _, ok := in.get(fr, x.X).(*Term); !ok {
			return false
		}
		_, _, a := intInfo(x.X.Type())
		_, _, b := intInfo(x.Type())
		if !a || !b {
			return false
		}
		in.set(fr, x, in.convert(in.cur, in.get(fr, x.X), x.X.Type(), x.Type()))
		return true
	case *ssa.ChangeType:
		in.set(fr, x, in.get(fr, x.X))
		return true
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && (b.Name() == "len" || b.Name() == "cap") {
			switch a := in.get(fr, x.Call.Args[0]).(type) {
			case BSlice, SliceV, Str:
				in.set(fr, x, in.builtin(in.cur, fr, b.Name(), []Value{a}, &x.Call, x))
				return true
			}
		}
	}
	return false
}
