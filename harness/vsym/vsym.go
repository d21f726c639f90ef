// Package vsym is the interface between a harness and the symbolic engine. The
// engine interprets calls to these functions itself; the bodies below are the
// native meaning, used when a counterexample or a sampled path is replayed
// against the compiled program.
package vsym

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"os"
	"strconv"
	"sync"
	"time"
)

// InputVal is one recorded input.
type InputVal struct {
	Name   string           `json:"name"`
	Kind   string           `json:"kind"`
	Value  uint64           `json:"value"`
	Bytes  string           `json:"bytes,omitempty"`
	Sparse map[string]uint8 `json:"sparse,omitempty"`
}

type ObsVal struct {
	Name  string `json:"name"`
	Value uint64 `json:"value"`
}

type Failure struct{ Msg string }
type AssumeFailed struct{ What string }

var st struct {
	mu     sync.Mutex
	in     map[string]InputVal
	names  map[string]int
	obs    []ObsVal
	tmp    string
	Active bool
	wg     sync.WaitGroup
	sched  []int
	errs   []interface{}
}

// Reset prepares a native run.
func Reset(in []InputVal, tmp string, sched []int) {
	st.in = map[string]InputVal{}
	for _, i := range in {
		st.in[i.Name] = i
	}
	st.names = map[string]int{}
	st.obs = nil
	st.tmp = tmp
	st.sched = sched
	st.errs = nil
	schedReset(sched)
	if HookReboot != nil {
		HookReboot(true)
	}
}
func Observed() []ObsVal { return st.obs }

func next(name string) InputVal {
	st.mu.Lock()
	defer st.mu.Unlock()
	k := st.names[name]
	st.names[name] = k + 1
	v := st.in[fmt.Sprintf("%s#%d", name, k)]
	return v
}

// U64 and friends are arbitrary values.
func U64(name string) uint64 { return next(name).Value }
func U32(name string) uint32 { return uint32(next(name).Value) }
func U16(name string) uint16 { return uint16(next(name).Value) }
func U8(name string) uint8   { return uint8(next(name).Value) }
func Bool(name string) bool  { return next(name).Value&1 == 1 }

// Choice is an arbitrary value below n, made concrete by forking.
func Choice(name string, n int) int {
	v := next(name).Value
	if v >= uint64(n) {
		panic(AssumeFailed{name})
	}
	return int(v)
}

// Pick is the first value in the quick tier and the second in the thorough one.
func Pick(quick, thorough int) int { return int(next("tier pick").Value) }

// Bytes is a buffer of n arbitrary bytes.
func Bytes(name string, n int) []byte {
	v := next(name)
	b := make([]byte, n)
	if v.Bytes != "" {
		d, _ := hex.DecodeString(v.Bytes)
		copy(b, d)
	}
	for k, x := range v.Sparse {
		if i, err := strconv.ParseUint(k, 10, 64); err == nil && i < uint64(n) {
			b[i] = x
		}
	}
	return b
}

// Assume restricts the inputs.
func Assume(b bool) {
	if !b {
		panic(AssumeFailed{"assume"})
	}
}

// Assert states the property.
func Assert(b bool, msg string) {
	if !b {
		panic(Failure{msg})
	}
}
func Fail(msg string) { panic(Failure{msg}) }

// AssertSame asserts equality of two byte slices, at every index.
func AssertSame(a, b []byte, msg string) {
	if len(a) != len(b) {
		panic(Failure{msg + " (length)"})
	}
	if !bytes.Equal(a, b) {
		panic(Failure{msg})
	}
}

// Same compares small slices without asserting.
func Same(a, b []byte) bool { return bytes.Equal(a, b) }

// Reach marks a point some path has to get to (vacuity guard).
func Reach(label string) {}

// Observe records a value; the engine's value and the native one must agree.
func Observe(name string, v uint64) {
	st.mu.Lock()
	st.obs = append(st.obs, ObsVal{name, v})
	st.mu.Unlock()
}
func ObserveBool(name string, b bool) {
	if b {
		Observe(name, 1)
	} else {
		Observe(name, 0)
	}
}

// Concretize forks over the values of v.
func Concretize(v uint64) uint64 { return v }

// Split forks on which step-sized block v lies in.
func Split(v, step uint64) uint64 { return v }

// Ite64 selects without forking.
func Ite64(c bool, a, b uint64) uint64 {
	if c {
		return a
	}
	return b
}

// And and Or do not fork.
func And(a, b bool) bool { return a && b }
func Or(a, b bool) bool  { return a || b }

// Symbolic is true inside the engine.
func Symbolic() bool { return false }

// TempDir is a scratch directory.
func TempDir() string { return st.tmp }

// Try runs f and reports a panic as text; assertion failures pass through.
func Try(f func()) (msg string, panicked bool) {
	defer func() {
		if r := recover(); r != nil {
			switch r.(type) {
			case Failure, AssumeFailed, schedDeadlock:
				panic(r)
			}
			panicked = true
			msg = "panic"
		}
	}()
	f()
	return
}

// Schedules turns exploration of thread interleavings on or off.
func Schedules(on bool) { schedOn(on) }

// Go starts a thread of the harness.
func Go(f func()) { schedGo(f) }

// Join waits for all threads started with Go.
func Join() { schedJoin() }

// Idle waits until all other threads wait for something.
func Idle() { time.Sleep(200 * time.Millisecond) }

// Native run driver -----------------------------------------------------------

type Result struct {
	Status string   `json:"status"` // ok, assert, panic, assume, hang
	Msg    string   `json:"msg"`
	Obs    []ObsVal `json:"obs"`
}

// Run executes a harness natively.
func Run(f func(), in []InputVal, sched []int, timeout time.Duration) Result {
	tmp, err := os.MkdirTemp("", "vsym")
	if err != nil {
		return Result{Status: "error", Msg: err.Error()}
	}
	defer os.RemoveAll(tmp)
	old, _ := os.Getwd()
	cwd := tmp + "/cwd"
	os.Mkdir(cwd, 0755)
	os.Chdir(cwd)
	defer os.Chdir(old)
	Reset(in, tmp, sched)
	ch := make(chan Result, 8)
	go func() {
		defer func() {
			if r := recover(); r != nil {
				switch x := r.(type) {
				case Failure:
					ch <- Result{Status: "assert", Msg: x.Msg, Obs: st.obs}
				case AssumeFailed:
					ch <- Result{Status: "assume", Msg: x.What, Obs: st.obs}
				case schedDeadlock:
					ch <- Result{Status: "hang", Msg: "deadlock", Obs: st.obs}
				default:
					ch <- Result{Status: "panic", Msg: fmt.Sprint(r), Obs: st.obs}
				}
				return
			}
			ch <- Result{Status: "ok", Obs: st.obs}
		}()
		f()
	}()
	notify = ch
	select {
	case r := <-ch:
		return r
	case <-time.After(timeout):
		return Result{Status: "hang", Msg: "no termination within " + timeout.String(), Obs: st.obs}
	}
}

var notify chan Result
