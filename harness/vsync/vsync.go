// Package vsync stands in for package sync when a recorded interleaving is
// replayed. The state of each lock is kept twice: once here, where threads of
// the harness take it in the recorded order, and once in the real lock, which
// is only taken when it is free, so that the race detector sees the program's
// own ordering and nothing else. The replay runs on one processor without
// asynchronous preemption: code below is not interrupted except where it
// yields.
package vsync

import (
	"runtime"
	"sync"
	"time"

	"github.com/thesues/cannyls-go/internal/vsym"
)

type Once = sync.Once
type Pool = sync.Pool
type Map = sync.Map
type Cond = sync.Cond
type Locker = sync.Locker

var NewCond = sync.NewCond

const maxT = 16

var (
	sched   []int
	pos     int
	on      bool
	prev    int // the thread whose segment runs
	nT      int
	goids   [maxT + 1]uint64
	parked  [maxT + 1]bool // waits for its turn
	blocked [maxT + 1]bool // cannot acquire
	done    [maxT + 1]bool
	real    sync.WaitGroup
)

func init() {
	vsym.HookReset = func(s []int) {
		sched, pos, on, prev, nT = s, 0, false, 0, 0
		goids, parked, blocked, done = [maxT + 1]uint64{}, [maxT + 1]bool{}, [maxT + 1]bool{}, [maxT + 1]bool{}
	}
	vsym.HookOn = func(b bool) { on = b }
	vsym.HookGo = func(f func()) {
		nT++
		id := nT
		real.Add(1)
		go func() {
			defer real.Done()
			defer finish(id)
			begin(id)
			f()
		}()
	}
	vsym.HookJoin = func() {
		for !allDone() {
			yield(0)
		}
		real.Wait()
	}
}

//go:norace
func allDone() bool {
	for i := 1; i <= nT; i++ {
		if !done[i] {
			return false
		}
	}
	return true
}

//go:norace
func finish(id int) { done[id] = true }

//go:norace
func begin(id int) {
	goids[id] = goid()
	turn(id)
}

// goid is the number of the running goroutine.
//
//go:norace
func goid() uint64 {
	var b [64]byte
	n := runtime.Stack(b[:], false)
	x := uint64(0)
	for i := len("goroutine "); i < n && b[i] >= '0' && b[i] <= '9'; i++ {
		x = x*10 + uint64(b[i]-'0')
	}
	return x
}

// self is the number of the harness's thread that is running, 0 for others.
//
//go:norace
func self() int {
	if nT == 0 {
		return 0
	}
	g := goid()
	for i := 1; i <= nT; i++ {
		if goids[i] == g {
			return i
		}
	}
	return 0
}

//go:norace
func yield(k int) {
	runtime.Gosched()
	if k > 1000 {
		time.Sleep(50 * time.Microsecond)
	}
}

// turn waits until the recorded schedule says that the thread acts.
//
//go:norace
func turn(id int) {
	if id == 0 || !on {
		return
	}
	parked[id] = true
	last, stuck := pos, 0
	for k := 0; ; k++ {
		if pos >= len(sched) {
			break
		}
		if sched[pos] == id && (prev == 0 || prev == id || parked[prev] || done[prev] || stuck > 20000) {
			prev = id
			pos++
			break
		}
		if pos == last {
			stuck++
		} else {
			last, stuck = pos, 0
		}
		if stuck > 40000 {
			// the run does not follow the record
			pos = len(sched)
			break
		}
		yield(k)
	}
	parked[id] = false
}

// wait is called when the thread cannot acquire.
//
//go:norace
func wait(id, k int) {
	if id == 0 || !on {
		yield(k)
		return
	}
	blocked[id] = true
	if pos < len(sched) {
		turn(id)
		return
	}
	parked[id] = true
	if k > 2000 {
		dead := true
		for i := 1; i <= nT; i++ {
			if !done[i] && !blocked[i] {
				dead = false
			}
		}
		if dead && k > 4000 {
			vsym.Deadlock()
		}
	}
	yield(k)
}

// Mutex is a sync.Mutex.
type Mutex struct {
	held bool
	m    sync.Mutex
}

//go:norace
func (m *Mutex) Lock() {
	id := self()
	turn(id)
	for k := 0; m.held; k++ {
		wait(id, k)
	}
	blocked[id] = false
	m.held = true
	m.m.Lock()
}

//go:norace
func (m *Mutex) TryLock() bool {
	turn(self())
	if m.held {
		return false
	}
	m.held = true
	m.m.Lock()
	return true
}

//go:norace
func (m *Mutex) Unlock() {
	m.m.Unlock()
	m.held = false
}

// RWMutex is a sync.RWMutex: a waiting writer keeps new readers out.
type RWMutex struct {
	held    bool
	readers int
	waiting int
	m       sync.RWMutex
}

//go:norace
func (m *RWMutex) Lock() {
	id := self()
	turn(id)
	if m.held || m.readers > 0 {
		m.waiting++
		for k := 0; m.held || m.readers > 0; k++ {
			wait(id, k)
		}
		m.waiting--
	}
	blocked[id] = false
	m.held = true
	m.m.Lock()
}

//go:norace
func (m *RWMutex) TryLock() bool {
	turn(self())
	if m.held || m.readers > 0 {
		return false
	}
	m.held = true
	m.m.Lock()
	return true
}

//go:norace
func (m *RWMutex) Unlock() {
	m.m.Unlock()
	m.held = false
}

//go:norace
func (m *RWMutex) RLock() {
	id := self()
	turn(id)
	for k := 0; m.held || m.waiting > 0; k++ {
		wait(id, k)
	}
	blocked[id] = false
	m.readers++
	m.m.RLock()
}

//go:norace
func (m *RWMutex) TryRLock() bool {
	turn(self())
	if m.held || m.waiting > 0 {
		return false
	}
	m.readers++
	m.m.RLock()
	return true
}

//go:norace
func (m *RWMutex) RUnlock() {
	m.m.RUnlock()
	m.readers--
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// RLocker returns a Locker that takes the lock for reading.
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

// WaitGroup is a sync.WaitGroup.
type WaitGroup struct {
	n int
	w sync.WaitGroup
}

//go:norace
func (w *WaitGroup) Add(d int) {
	w.n += d
	w.w.Add(d)
}

//go:norace
func (w *WaitGroup) Done() {
	w.w.Done()
	w.n--
}

//go:norace
func (w *WaitGroup) Wait() {
	id := self()
	turn(id)
	for k := 0; w.n > 0; k++ {
		wait(id, k)
	}
	blocked[id] = false
	w.w.Wait()
}

// Turn is called by the stand-in for package sync/atomic.
//
//go:norace
func Turn() { turn(self()) }
