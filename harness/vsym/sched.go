package vsym

import "fmt"

// Threads of a harness. Natively they are goroutines; when the program was
// built with the scheduling shim (package vsync in place of sync) they follow
// the recorded schedule.

type schedDeadlock struct{}

// SchedHooks lets the vsync shim take over.
var (
	HookReset func(s []int)
	HookOn    func(bool)
	HookGo    func(f func())
	HookJoin  func()
)

func schedReset(s []int) {
	if HookReset != nil {
		HookReset(s)
	}
}
func schedOn(on bool) {
	if HookOn != nil {
		HookOn(on)
	}
}
func schedGo(f func()) {
	g := func() {
		defer func() {
			if r := recover(); r != nil {
				switch x := r.(type) {
				case Failure:
					notify <- Result{Status: "assert", Msg: x.Msg}
				case AssumeFailed:
					notify <- Result{Status: "assume", Msg: x.What}
				case schedDeadlock:
					notify <- Result{Status: "hang", Msg: "deadlock"}
				default:
					notify <- Result{Status: "panic", Msg: fmt.Sprint(r)}
				}
			}
		}()
		f()
	}
	if HookGo != nil {
		HookGo(g)
		return
	}
	st.wg.Add(1)
	go func() {
		defer st.wg.Done()
		g()
	}()
}
func schedJoin() {
	if HookJoin != nil {
		HookJoin()
		return
	}
	st.wg.Wait()
}

// Deadlock is used by the shim.
func Deadlock() { panic(schedDeadlock{}) }

// Device faults. Natively the vos shim injects them.
var (
	HookFault     func(arm, kind int, at uint64, sticky bool)
	HookFired     func() bool
	HookCount     func(kind int) uint64
	HookReboot    func(fresh bool)
	HookFileBytes func(path string) []byte
	HookWriteFile func(path string, b []byte)
	HookFiles     func(pattern string) int
	HookVolatile  func()
	HookPowerOff  func()
	HookPending   func() int
)

// CrashAt stops the process at the k-th device write from now (counted from 0):
// that write and all later ones do not happen. Try catches the stop. After
// Volatile syncs are counted as well.
func CrashAt(k uint64) { HookFault(1, 0, k, false) }

// CrashTorn is CrashAt, with any leading part of the write done before.
func CrashTorn(k uint64) { HookFault(3, 0, k, false) }

var (
	meanwhile   func()
	meanwhileAt uint64
)

// Meanwhile lets f run at the moment of the k-th opening of a file or device
// access from now (counted from 0), before it: what someone else does meanwhile.
func Meanwhile(k uint64, f func()) { meanwhile, meanwhileAt = f, k }

// Alone ends Meanwhile; it says whether f has run.
func Alone() bool {
	ran := meanwhile == nil
	meanwhile = nil
	return ran
}

// Step is called by the models before each of these calls.
func Step() {
	if meanwhile == nil {
		return
	}
	if meanwhileAt > 0 {
		meanwhileAt--
		return
	}
	f := meanwhile
	meanwhile = nil
	f()
}

// Kinds of device access.
const (
	Write = 0
	Read  = 1
	Sync  = 2
)

// FailAt makes the k-th device access of the kind from now return an error
// without effect; with sticky all later ones too.
func FailAt(kind int, k uint64, sticky bool) { HookFault(2, kind, k, sticky) }

// Disarm ends fault injection.
func Disarm() { HookFault(0, 0, 0, false) }

// Fired says whether the fault armed last has happened.
func Fired() bool { return HookFired() }

// Count is the number of device accesses of the kind so far.
func Count(kind int) uint64 { return HookCount(kind) }

// Reboot ends the process: open files are gone, and with them their locks.
func Reboot() { HookReboot(false) }

// Volatile makes writes the device has not synced subject to PowerOff.
func Volatile() { HookVolatile() }

// PowerOff is Reboot after a power failure: of the writes made since Volatile
// and not synced, any may be lost, whatever their order. Each is done whole or
// not at all.
func PowerOff() { HookPowerOff() }

// Pending is the number of writes a power failure may undo.
func Pending() int { return HookPending() }

// FileBytes is the content of a file, nil when there is none.
func FileBytes(path string) []byte { return HookFileBytes(path) }

// WriteFile puts a file in place.
func WriteFile(path string, b []byte) { HookWriteFile(path, b) }

// Files counts the files whose name matches the pattern.
func Files(pattern string) int { return HookFiles(pattern) }
