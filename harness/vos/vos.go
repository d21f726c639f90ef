// Package vos stands in for package os in the program's own files when a
// recorded run is replayed: real files, with device faults injected.
package vos

import (
	"errors"
	"os"
	"path/filepath"
	"strconv"
	"syscall"

	"github.com/thesues/cannyls-go/internal/vsym"
)

// File is an os.File whose device accesses can be made to fail.
type File struct {
	*os.File
	sync bool // opened with O_SYNC
}

// pwrite is a write which a power failure may undo.
type pwrite struct {
	f        *os.File // a handle of its own, without direct I/O
	info     os.FileInfo
	off      int64
	old, new []byte
}

var (
	mu      nolock
	open    []*os.File
	armed   int
	fKind   int
	fAt     uint64
	fSticky bool
	fFired  bool
	fTorn   bool
	dead    bool
	counts  [3]uint64
	total   [3]uint64
	errIO   = errors.New("input/output error")

	volatile bool
	pending  []pwrite
)

// nolock: a replay of threads runs on one processor and does not yield here; a
// real lock would hide the program's data races from the race detector.
type nolock struct{}

func (nolock) Lock()   {}
func (nolock) Unlock() {}

func init() {
	vsym.HookFault = func(arm, kind int, at uint64, sticky bool) {
		mu.Lock()
		defer mu.Unlock()
		armed, fKind, fAt, fSticky, fTorn = arm, kind, at, sticky, false
		if arm == 3 {
			armed, fTorn = 1, true
		}
		if arm != 0 {
			fFired = false
		}
		counts = [3]uint64{}
	}
	vsym.HookFired = func() bool { mu.Lock(); defer mu.Unlock(); return fFired }
	vsym.HookCount = func(k int) uint64 { mu.Lock(); defer mu.Unlock(); return total[k] }
	vsym.HookReboot = func(fresh bool) {
		mu.Lock()
		defer mu.Unlock()
		armed, dead = 0, false
		for _, f := range open {
			f.Close()
		}
		open = nil
		if fresh {
			fFired = false
			total = [3]uint64{}
			volatile, pending = false, nil
		}
	}
	vsym.HookVolatile = func() { volatile = true }
	vsym.HookPending = func() int { return len(pending) }
	vsym.HookPowerOff = func() {
		vsym.HookReboot(false)
		w := pending
		pending, volatile = nil, false
		kept := make([]bool, len(w))
		for i := range w {
			kept[i] = vsym.Choice("kept", 2) == 1
		}
		for i := len(w) - 1; i >= 0; i-- {
			w[i].f.WriteAt(w[i].old, w[i].off)
		}
		for i := range w {
			if kept[i] {
				w[i].f.WriteAt(w[i].new, w[i].off)
			}
		}
		for i := range w {
			w[i].f.Sync()
			w[i].f.Close()
		}
	}
	vsym.HookFileBytes = func(path string) []byte {
		b, err := os.ReadFile(path)
		if err != nil {
			return nil
		}
		return b
	}
	vsym.HookWriteFile = func(path string, b []byte) {
		if err := os.WriteFile(path, b, 0644); err != nil {
			panic(err)
		}
	}
	vsym.HookFiles = func(p string) int { l, _ := filepath.Glob(p); return len(l) }
}

//go:norace
func fault(kind int) error { return faultW(kind, nil, nil) }

// change is called before a change of the directory or of a file's size.
//
//go:norace
func change() error {
	mu.Lock()
	on := dead || armed == 1
	mu.Unlock()
	if on {
		return fault(0)
	}
	return nil
}

// faultW is fault for a write, of which a part may be done before the process
// stops.
//
//go:norace
func faultW(kind int, b []byte, write func([]byte)) error {
	mu.Lock()
	defer mu.Unlock()
	if dead {
		return errIO
	}
	vsym.Step()
	total[kind]++
	if kind == 2 && volatile && armed == 1 {
		kind = 0 // the process may stop before a sync as well
	}
	if armed == 0 || kind != fKind {
		return nil
	}
	n := counts[kind]
	counts[kind]++
	if n != fAt && !(fSticky && n >= fAt) {
		return nil
	}
	fFired = true
	if armed == 1 {
		dead = true
		if fTorn && len(b) > 0 {
			t := vsym.U64("torn")
			unit := uint64(1)
			if len(b)%512 == 0 {
				unit = 512
			}
			vsym.Assume(t <= uint64(len(b))/unit)
			write(b[:t*unit])
		}
		panic("vsym: the process stops here")
	}
	return errIO
}

//go:norace
func reg(f *os.File, err error) (*File, error) {
	if err != nil {
		return nil, err
	}
	mu.Lock()
	open = append(open, f)
	mu.Unlock()
	return &File{File: f}, nil
}

// log notes a write of n bytes before it is done.
func (f *File) log(b []byte, off int64) {
	if !volatile || f.sync || len(b) == 0 {
		return
	}
	h, err := os.OpenFile("/proc/self/fd/"+strconv.Itoa(int(f.File.Fd())), os.O_RDWR, 0)
	if err != nil {
		panic(err)
	}
	w := pwrite{f: h, off: off, old: make([]byte, len(b)), new: append([]byte(nil), b...)}
	h.ReadAt(w.old, off)
	w.info, _ = h.Stat()
	pending = append(pending, w)
}

// synced forgets the writes of a file.
func synced(info os.FileInfo) {
	var rest []pwrite
	for _, w := range pending {
		if os.SameFile(w.info, info) {
			w.f.Close()
		} else {
			rest = append(rest, w)
		}
	}
	pending = rest
}

func syncedFd(fd int) {
	if len(pending) == 0 {
		return
	}
	info, err := os.Stat("/proc/self/fd/" + strconv.Itoa(fd))
	if err == nil {
		synced(info)
	}
}

func OpenFile(name string, flag int, perm os.FileMode) (*File, error) {
	if dead {
		return nil, errIO
	}
	vsym.Step()
	if _, err := os.Stat(name); os.IsNotExist(err) && flag&os.O_CREATE != 0 {
		if err := change(); err != nil {
			return nil, err
		}
	}
	f, err := reg(os.OpenFile(name, flag, perm))
	if f != nil {
		f.sync = flag&os.O_SYNC == os.O_SYNC
	}
	return f, err
}
func Open(name string) (*File, error) { return OpenFile(name, os.O_RDONLY, 0) }
func Create(name string) (*File, error) {
	return OpenFile(name, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0666)
}
func NewFile(fd uintptr, name string) *File {
	f := os.NewFile(fd, name)
	if f == nil {
		return nil
	}
	return &File{File: f}
}
func CreateTemp(dir, pattern string) (*File, error) { return reg(os.CreateTemp(dir, pattern)) }
func Remove(name string) error {
	if _, err := os.Stat(name); err == nil || dead {
		if err := change(); err != nil {
			return err
		}
	}
	return os.Remove(name)
}
func Rename(a, b string) error {
	if _, err := os.Stat(a); err == nil || dead {
		if err := change(); err != nil {
			return err
		}
	}
	return os.Rename(a, b)
}

func (f *File) Read(b []byte) (int, error) {
	if err := fault(1); err != nil {
		return 0, err
	}
	return devRead(f, b)
}
func (f *File) ReadAt(b []byte, off int64) (int, error) {
	if off >= 0 {
		if err := fault(1); err != nil {
			return 0, err
		}
	}
	return devReadAt(f, b, off)
}
func (f *File) Write(b []byte) (int, error) {
	if err := faultW(0, b, func(b []byte) { f.logHere(b); devWrite(f, b) }); err != nil {
		return 0, err
	}
	f.logHere(b)
	return devWrite(f, b)
}
func (f *File) WriteAt(b []byte, off int64) (int, error) {
	if off >= 0 {
		if err := faultW(0, b, func(b []byte) { f.log(b, off); devWriteAt(f, b, off) }); err != nil {
			return 0, err
		}
		f.log(b, off)
	}
	return devWriteAt(f, b, off)
}
func (f *File) Truncate(n int64) error {
	if err := change(); err != nil {
		return err
	}
	return f.File.Truncate(n)
}
func (f *File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }
func (f *File) Sync() error {
	if err := fault(2); err != nil {
		return err
	}
	err := f.File.Sync()
	if err == nil {
		syncedFd(int(f.File.Fd()))
	}
	return err
}

func (f *File) logHere(b []byte) {
	if volatile {
		off, _ := f.File.Seek(0, 1)
		f.log(b, off)
	}
}

// Fdatasync and Fsync replace the calls of package syscall.
func Fdatasync(fd int) error {
	if err := fault(2); err != nil {
		return err
	}
	err := syscall.Fdatasync(fd)
	if err == nil {
		syncedFd(fd)
	}
	return err
}
func Fsync(fd int) error {
	if err := fault(2); err != nil {
		return err
	}
	err := syscall.Fsync(fd)
	if err == nil {
		syncedFd(fd)
	}
	return err
}
