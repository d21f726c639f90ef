package main

import (
	"encoding/hex"
	"fmt"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

type workItem struct {
	prefix []int64
	model  *Model
}

type Witness struct {
	Harness string     `json:"harness"`
	Inputs  []InputVal `json:"inputs"`
	Obs     []ObsVal   `json:"obs"`
	Sched   []int      `json:"sched,omitempty"`
}
type ObsVal struct {
	Name  string `json:"name"`
	Value uint64 `json:"value"`
}

// Run is the exploration of one harness.
type Run struct {
	cfg      *HarnessCfg
	mu       sync.Mutex
	cond     *sync.Cond
	queue    []workItem
	active   int
	stop     bool
	deadline time.Time
	known    func(v *Violation) bool

	paths, doneP, assumeP, limitP, infeasP int
	instrs                                 int64
	forks                                  int64
	asserts                                map[string]int
	rewritten                              map[string]int
	decided                                [3]int
	audits                                 map[SatResult]int
	limits                                 map[string]int
	unknowns                               map[string]int
	reach                                  map[string]int
	fns                                    map[string]bool
	viol                                   map[string]*Violation
	violN                                  map[string]int
	wit                                    []Witness
	queries, cacheHits, unk                int
	solverTime                             time.Duration
	wall                                   time.Duration
	errors                                 []string
	internal                               map[string]int
	maxViol                                int
	usedSched bool
}

func (r *Run) push(it workItem) {
	r.mu.Lock()
	r.queue = append(r.queue, it)
	r.forks++
	r.cond.Signal()
	r.mu.Unlock()
}
func (r *Run) noteUnknown(w string) {
	r.mu.Lock()
	r.unknowns[w]++
	r.mu.Unlock()
}
// How an assertion was decided.
const (
	byQuery     = iota // by the solver, or false under the current model
	byRewriting        // true after rewriting under the path condition
	byFolding          // true as soon as it was built: both sides are the same term or constants
)

func (r *Run) countAssert(msg string, how int) int {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.asserts[msg]++
	r.decided[how]++
	if how != byRewriting {
		return 0
	}
	r.rewritten[msg]++
	return r.rewritten[msg]
}
func (r *Run) noteAudit(s SatResult) {
	r.mu.Lock()
	r.audits[s]++
	r.mu.Unlock()
}
func (r *Run) noteTrace(s string) {}
func (r *Run) report(v *Violation) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if r.viol[v.Sig] == nil {
		r.viol[v.Sig] = v
	}
	r.violN[v.Sig]++
	n := 0
	for _, v := range r.viol {
		if r.known == nil || !r.known(v) {
			n++
		}
	}
	if n >= r.maxViol {
		r.stop = true
		r.cond.Broadcast()
	}
}

func explore(w *World, cfg *HarnessCfg, workers int, budget time.Duration, known func(v *Violation) bool) *Run {
	r := &Run{cfg: cfg, asserts: map[string]int{}, rewritten: map[string]int{}, audits: map[SatResult]int{}, limits: map[string]int{}, unknowns: map[string]int{}, reach: map[string]int{}, fns: map[string]bool{}, viol: map[string]*Violation{}, violN: map[string]int{}, internal: map[string]int{}, known: known, maxViol: 3}
	r.cond = sync.NewCond(&r.mu)
	r.deadline = time.Now().Add(budget)
	t0 := time.Now()
	r.queue = []workItem{{nil, NewModel()}}
	var wg sync.WaitGroup
	for i := 0; i < workers; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			r.worker(w)
		}()
	}
	wg.Wait()
	r.wall = time.Since(t0)
	return r
}

func (r *Run) worker(w *World) {
	var in *Interp
	defer func() {
		if in != nil {
			r.absorb(in)
			in.s.Close()
		}
	}()
	for {
		r.mu.Lock()
		for len(r.queue) == 0 && r.active > 0 && !r.stop {
			r.cond.Wait()
		}
		if r.stop || len(r.queue) == 0 {
			r.cond.Broadcast()
			r.mu.Unlock()
			return
		}
		if time.Now().After(r.deadline) {
			r.limits["time budget of the harness"] += len(r.queue)
			r.stop = true
			r.cond.Broadcast()
			r.mu.Unlock()
			return
		}
		it := r.queue[len(r.queue)-1]
		r.queue = r.queue[:len(r.queue)-1]
		r.active++
		r.mu.Unlock()
		if in == nil || in.c.nterms > 3000000 {
			if in != nil {
				r.absorb(in)
				in.s.Close()
			}
			in = NewInterp(w)
		}
		kind, msg := in.runPath(r, it)
		r.mu.Lock()
		r.active--
		r.paths++
		r.instrs += int64(in.steps)
		for l := range in.reach {
			r.reach[l]++
		}
		switch kind {
		case "done":
			r.doneP++
			if len(r.wit) < r.cfg.Witness || r.doneP%97 == 0 && len(r.wit) < r.cfg.Witness*3 {
				r.wit = append(r.wit, in.witness())
			}
		case "assume":
			r.assumeP++
		case "infeasible":
			r.infeasP++
		case "limit":
			r.limitP++
			r.limits[msg]++
		case "internal":
			r.limitP++
			r.internal[msg]++
			in.s.Close()
			in = nil
		case "violation":
		}
		if r.active == 0 && len(r.queue) == 0 || r.stop {
			r.cond.Broadcast()
		}
		r.mu.Unlock()
	}
}

func (r *Run) absorb(in *Interp) {
	r.mu.Lock()
	r.queries += in.s.Queries
	r.cacheHits += in.s.CacheHits
	r.unk += in.s.Unknowns
	r.solverTime += in.s.Time
	for f := range in.allFns {
		r.fns[f] = true
	}
	r.mu.Unlock()
}

func (in *Interp) witness() Witness {
	w := Witness{Harness: in.cfg.Name, Inputs: in.inputVals(), Sched: append([]int(nil), in.sched...)}
	for _, o := range in.obs {
		w.Obs = append(w.Obs, ObsVal{o.Name, in.c.eval(o.t)})
	}
	return w
}

func (in *Interp) runPath(r *Run, it workItem) (kind, msg string) {
	in.run = r
	in.cfg = r.cfg
	c := in.c
	c.resetPath()
	m := it.model
	if m == nil {
		m = NewModel()
	}
	c.setModel(m)
	in.prefix = it.prefix
	in.decisions = in.decisions[:0]
	in.conds = in.conds[:0]
	in.globals = map[*ssa.Global]*Value{}
	in.threads = nil
	in.inputs = nil
	in.names = map[string]int{}
	in.obs = nil
	in.reach = map[string]bool{}
	in.steps = 0
	in.mu = map[*Value]*mutexState{}
	in.wg = map[*Value]*int{}
	in.nfresh = 0
	in.addrSeq = 0
	in.switches = 0
	in.schedAll = false
	in.natObjs = map[*Value]interface{}{}
	in.pathFns = map[*ssa.Function]bool{}
	in.chanSeq = 0
	in.stepsHit = false
	in.objSeq = 0
	in.clock = 0
	in.sched = nil
	in.hids = 0
	in.races, in.byteRaces, in.objVC = nil, nil, nil
	if r.cfg.Races {
		in.races, in.byteRaces, in.objVC = map[*Value]*cellRace{}, map[*ByteArr]*arrRace{}, map[interface{}]*vclock{}
	}
	if in.trackFn == nil {
		in.trackFn = map[*ssa.Function]bool{}
	}
	in.mergeInts = r.cfg.MergeInts
	in.cur = nil
	if in.allFns == nil {
		in.allFns = map[string]bool{}
	}
	defer func() {
		for f := range in.pathFns {
			in.allFns[f.String()] = true
		}
		if e := recover(); e != nil {
			switch x := e.(type) {
			case pathEnd:
				kind, msg = x.kind, x.msg
			case EngineLimit:
				kind, msg = "limit", x.msg
				if debugLimits {
					fmt.Fprintln(os.Stderr, "LIMIT", x.msg, strings.Join(in.stack(), " < "))
				}
			default:
				kind, msg = "internal", fmt.Sprintf("%v at %s", e, in.where())
				if os.Getenv("GOSYM_DEBUG") != "" {
					fmt.Fprintln(os.Stderr, "INTERNAL", e, in.where())
					debug.PrintStack()
				}
			}
		}
	}()
	t := &Thread{in: in, id: 0}
	in.threads = []*Thread{t}
	in.cur = t
	for _, p := range in.w.initOrder {
		if f := p.Func("init"); f != nil {
			fr := in.pushFrame(t, f, nil, nil, nil)
			fr.sync = true
			for len(t.frames) > 0 {
				in.step(t)
			}
		}
	}
	t.done = false
	in.steps = 0
	in.pushFrame(t, r.cfg.Fn, nil, nil, nil)
	in.runThreads()
	return "done", ""
}

// ------------------------------------------------------------ statistics

func topCounts(m map[string]int, n int) []string {
	type kv struct {
		k string
		v int
	}
	var l []kv
	for k, v := range m {
		l = append(l, kv{k, v})
	}
	sort.Slice(l, func(i, j int) bool { return l[i].v > l[j].v || l[i].v == l[j].v && l[i].k < l[j].k })
	var out []string
	for i, e := range l {
		if i >= n {
			out = append(out, fmt.Sprintf("... %d more", len(l)-n))
			break
		}
		out = append(out, fmt.Sprintf("%dx %s", e.v, e.k))
	}
	return out
}

func hexOf(b []byte) string { return hex.EncodeToString(b) }
