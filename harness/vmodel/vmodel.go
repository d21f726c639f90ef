// Package vmodel holds models of library functions that the engine runs in
// place of the real ones: a file system with device faults. It is interpreted
// only; a native replay uses real files, with the same faults injected by the
// vos shim.
package vmodel

import (
	"errors"
	"io"
	"io/fs"
	"os"
	"path/filepath"
	"syscall"
	"time"

	"github.com/thesues/cannyls-go/internal/vsym"
)

// mfile is a file; its bytes are zero until written.
type mfile struct {
	path    string
	data    []byte
	size    int64
	removed bool
	locked  *os.File
}

type mopen struct {
	f      *mfile
	name   string
	pos    int64
	fd     uintptr
	closed bool
	rdonly bool
	sync   bool // every write is on the device when it returns
}

// mwrite is a write which a power failure may undo.
type mwrite struct {
	f        *mfile
	off      int64
	old, new []byte
}

const maxFile = 1 << 41

var (
	files  []*mfile
	opens  = map[*os.File]*mopen{}
	fds    []*os.File
	nextID = uint64(1)

	// faults
	armed   int // 0 none, 1 crash, 2 error
	fKind   int
	fAt     uint64
	fSticky bool
	fFired  bool
	fTorn   bool
	dead    bool
	counts  [3]uint64
	total   [3]uint64

	volatile bool // writes are lost by a power failure unless synced
	pending  []mwrite

	errIO     = errors.New("input/output error")
	errClosed = errors.New("file already closed")
	errLocked = errors.New("resource temporarily unavailable")
)

func init() {
	os.ErrExist = fs.ErrExist
	os.ErrNotExist = fs.ErrNotExist
	os.ErrInvalid = fs.ErrInvalid
	os.ErrPermission = fs.ErrPermission
	os.ErrClosed = fs.ErrClosed
}

// fault is called before every device access of the kind; it says whether the
// access goes wrong.
func fault(kind int) error { return faultW(kind, nil, nil, 0) }

// change is called before a change of the directory or of a file's size.
func change() error {
	if dead || armed == 1 {
		return fault(0)
	}
	return nil
}

// faultW is fault for a write, of which a part may be done before the process
// stops.
func faultW(kind int, o *mopen, b []byte, off int64) error {
	if dead {
		return errIO
	}
	vsym.Step()
	total[kind]++
	if kind == 2 && volatile && armed == 1 {
		kind = 0 // the process may stop before a sync as well
	}
	if armed == 0 || kind != fKind {
		return nil
	}
	n := counts[kind]
	counts[kind]++
	hit := n == fAt
	if fSticky {
		hit = n >= fAt
	}
	if !hit {
		return nil
	}
	fFired = true
	if armed == 1 {
		dead = true
		if fTorn && len(b) > 0 {
			t := vsym.U64("torn")
			unit := uint64(1)
			if len(b)%512 == 0 {
				unit = 512
			}
			vsym.Assume(t <= uint64(len(b))/unit)
			o.writeAt(b[:t*unit], off)
		}
		panic("vsym: the process stops here")
	}
	return errIO
}

func vsym_CrashAt(k uint64) {
	armed, fKind, fAt, fSticky, fFired, fTorn = 1, 0, k, false, false, false
	counts = [3]uint64{}
}
func vsym_CrashTorn(k uint64) {
	vsym_CrashAt(k)
	fTorn = true
}
func vsym_FailAt(kind int, k uint64, sticky bool) {
	armed, fKind, fAt, fSticky, fFired = 2, kind, k, sticky, false
	counts = [3]uint64{}
}
func vsym_Disarm()            { armed = 0 }
func vsym_Fired() bool        { return fFired }
func vsym_Count(k int) uint64 { return total[k] }
func vsym_Reboot() {
	armed, dead = 0, false
	for _, f := range fds {
		o := opens[f]
		if !o.closed {
			o.closed = true
			if o.f.locked == f {
				o.f.locked = nil
			}
		}
	}
}

func vsym_Volatile() { volatile = true }

// vsym_PowerOff ends the process, and of the writes not synced any may be lost.
func vsym_PowerOff() {
	vsym_Reboot()
	w := pending
	pending, volatile = nil, false
	kept := make([]bool, len(w))
	for i := range w {
		kept[i] = vsym.Choice("kept", 2) == 1
	}
	for i := len(w) - 1; i >= 0; i-- {
		copy(w[i].f.data[w[i].off:w[i].off+int64(len(w[i].old))], w[i].old)
	}
	for i := range w {
		if kept[i] {
			copy(w[i].f.data[w[i].off:w[i].off+int64(len(w[i].new))], w[i].new)
		}
	}
}

// vsym_Pending is the number of writes a power failure may undo.
func vsym_Pending() int { return len(pending) }

func (f *mfile) synced() {
	var rest []mwrite
	for _, w := range pending {
		if w.f != f {
			rest = append(rest, w)
		}
	}
	pending = rest
}

func abs(p string) string {
	if len(p) > 0 && p[0] == '/' {
		return filepath.Clean(p)
	}
	return filepath.Clean("/vtmp/cwd/" + p)
}

func find(p string) *mfile {
	p = abs(p)
	for _, f := range files {
		if !f.removed && f.path == p {
			return f
		}
	}
	return nil
}

type pathError struct {
	op, path string
	err      error
}

func (e *pathError) Error() string { return e.op + " " + e.path + ": " + e.err.Error() }
func (e *pathError) Unwrap() error { return e.err }

func os_OpenFile(name string, flag int, perm os.FileMode) (*os.File, error) {
	if dead {
		return nil, errIO
	}
	vsym.Step()
	f := find(name)
	if f == nil {
		if flag&os.O_CREATE == 0 {
			return nil, &pathError{"open", name, fs.ErrNotExist}
		}
		if err := change(); err != nil {
			return nil, err
		}
		f = &mfile{path: abs(name), data: make([]byte, maxFile)}
		files = append(files, f)
	} else {
		if flag&os.O_EXCL != 0 && flag&os.O_CREATE != 0 {
			return nil, &pathError{"open", name, fs.ErrExist}
		}
		if flag&os.O_TRUNC != 0 {
			f.data = make([]byte, maxFile)
			f.size = 0
		}
	}
	h := new(os.File)
	opens[h] = &mopen{f: f, name: name, fd: uintptr(len(fds) + 3), rdonly: flag&3 == os.O_RDONLY, sync: flag&os.O_SYNC == os.O_SYNC}
	fds = append(fds, h)
	return h, nil
}
func os_Open(name string) (*os.File, error) { return os_OpenFile(name, os.O_RDONLY, 0) }
func os_Create(name string) (*os.File, error) {
	return os_OpenFile(name, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0666)
}

type minfo struct {
	name string
	size int64
}

func (m minfo) Name() string       { return filepath.Base(m.name) }
func (m minfo) Size() int64        { return m.size }
func (m minfo) Mode() fs.FileMode  { return 0755 }
func (m minfo) ModTime() time.Time { return time.Time{} }
func (m minfo) IsDir() bool        { return false }
func (m minfo) Sys() interface{}   { return nil }

func os_Stat(name string) (os.FileInfo, error) {
	f := find(name)
	if f == nil {
		return nil, &pathError{"stat", name, fs.ErrNotExist}
	}
	return minfo{name, f.size}, nil
}
func os_Lstat(name string) (os.FileInfo, error) { return os_Stat(name) }

func os_IsNotExist(err error) bool {
	if p, ok := err.(*pathError); ok {
		err = p.err
	}
	return err == fs.ErrNotExist
}
func os_IsExist(err error) bool {
	if p, ok := err.(*pathError); ok {
		err = p.err
	}
	return err == fs.ErrExist
}

func os_Remove(name string) error {
	if dead {
		return errIO
	}
	f := find(name)
	if f == nil {
		return &pathError{"remove", name, fs.ErrNotExist}
	}
	if err := change(); err != nil {
		return err
	}
	f.removed = true
	return nil
}
func os_Rename(from, to string) error {
	if dead {
		return errIO
	}
	f := find(from)
	if f == nil {
		return &pathError{"rename", from, fs.ErrNotExist}
	}
	if err := change(); err != nil {
		return err
	}
	if g := find(to); g != nil && g != f {
		g.removed = true
	}
	f.path = abs(to)
	return nil
}
func os_MkdirAll(path string, perm os.FileMode) error { return nil }
func os_Getwd() (string, error)                       { return "/vtmp/cwd", nil }
func os_Truncate(name string, n int64) error {
	f := find(name)
	if f == nil {
		return &pathError{"truncate", name, fs.ErrNotExist}
	}
	return f.truncate(n)
}

func (f *mfile) truncate(n int64) error {
	if err := change(); err != nil {
		return err
	}
	if n < f.size {
		d := make([]byte, maxFile)
		copy(d[:n], f.data[:n])
		f.data = d
	}
	f.size = n
	return nil
}

func get(f *os.File) (*mopen, error) {
	o := opens[f]
	if o == nil {
		return nil, os.ErrInvalid
	}
	if o.closed {
		return nil, errClosed
	}
	return o, nil
}

func os_File_ReadAt(f *os.File, b []byte, off int64) (int, error) {
	o, err := get(f)
	if err != nil {
		return 0, err
	}
	if off < 0 {
		return 0, &pathError{"readat", o.name, errors.New("negative offset")}
	}
	if err := fault(1); err != nil {
		return 0, err
	}
	return o.readAt(b, off)
}

func (o *mopen) readAt(b []byte, off int64) (int, error) {
	if len(b) == 0 {
		return 0, nil
	}
	if off >= o.f.size {
		return 0, io.EOF
	}
	if int64(len(b)) > o.f.size-off {
		n := o.f.size - off
		copy(b[:n], o.f.data[off:off+n])
		return int(n), io.EOF
	}
	copy(b, o.f.data[off:off+int64(len(b))])
	return len(b), nil
}

func os_File_Read(f *os.File, b []byte) (int, error) {
	o, err := get(f)
	if err != nil {
		return 0, err
	}
	if err := fault(1); err != nil {
		return 0, err
	}
	n, err := o.readAt(b, o.pos)
	o.pos += int64(n)
	if n > 0 {
		err = nil
	}
	return n, err
}

func os_File_WriteAt(f *os.File, b []byte, off int64) (int, error) {
	o, err := get(f)
	if err != nil {
		return 0, err
	}
	if off < 0 {
		return 0, &pathError{"writeat", o.name, errors.New("negative offset")}
	}
	if err := faultW(0, o, b, off); err != nil {
		return 0, err
	}
	return o.writeAt(b, off)
}

func (o *mopen) writeAt(b []byte, off int64) (int, error) {
	if o.rdonly {
		return 0, &pathError{"write", o.name, errors.New("bad file descriptor")}
	}
	if len(b) == 0 {
		return 0, nil
	}
	if off+int64(len(b)) > maxFile {
		return 0, &pathError{"write", o.name, errors.New("file too large")}
	}
	if volatile && !o.sync {
		w := mwrite{f: o.f, off: off, old: make([]byte, len(b)), new: append([]byte(nil), b...)}
		copy(w.old, o.f.data[off:off+int64(len(b))])
		pending = append(pending, w)
	}
	copy(o.f.data[off:off+int64(len(b))], b)
	if off+int64(len(b)) > o.f.size {
		o.f.size = off + int64(len(b))
	}
	return len(b), nil
}

func os_File_Write(f *os.File, b []byte) (int, error) {
	o, err := get(f)
	if err != nil {
		return 0, err
	}
	if err := faultW(0, o, b, o.pos); err != nil {
		return 0, err
	}
	n, err := o.writeAt(b, o.pos)
	o.pos += int64(n)
	return n, err
}
func os_File_WriteString(f *os.File, s string) (int, error) { return os_File_Write(f, []byte(s)) }

func os_File_Seek(f *os.File, off int64, whence int) (int64, error) {
	o, err := get(f)
	if err != nil {
		return 0, err
	}
	p := off
	switch whence {
	case io.SeekCurrent:
		p += o.pos
	case io.SeekEnd:
		p += o.f.size
	}
	if p < 0 {
		return 0, &pathError{"seek", o.name, errors.New("invalid argument")}
	}
	o.pos = p
	return p, nil
}

func os_File_Stat(f *os.File) (os.FileInfo, error) {
	o, err := get(f)
	if err != nil {
		return nil, err
	}
	return minfo{o.name, o.f.size}, nil
}
func os_File_Truncate(f *os.File, n int64) error {
	o, err := get(f)
	if err != nil {
		return err
	}
	return o.f.truncate(n)
}
func os_File_Close(f *os.File) error {
	o, err := get(f)
	if err != nil {
		return err
	}
	o.closed = true
	if o.f.locked == f {
		o.f.locked = nil
	}
	return nil
}
func os_File_Name(f *os.File) string { return opens[f].name }
func os_File_Sync(f *os.File) error {
	o, err := get(f)
	if err != nil {
		return err
	}
	if err := fault(2); err != nil {
		return err
	}
	o.f.synced()
	return nil
}
func os_File_Fd(f *os.File) uintptr {
	o, err := get(f)
	if err != nil {
		return ^uintptr(0)
	}
	return o.fd
}

func byFd(fd int) *os.File {
	if fd < 3 || fd-3 >= len(fds) {
		return nil
	}
	f := fds[fd-3]
	if opens[f].closed {
		return nil
	}
	return f
}

func syscall_Flock(fd int, how int) error {
	f := byFd(fd)
	if f == nil {
		return errClosed
	}
	o := opens[f]
	if how&syscall.LOCK_UN != 0 {
		if o.f.locked == f {
			o.f.locked = nil
		}
		return nil
	}
	if o.f.locked != nil && o.f.locked != f {
		return errLocked
	}
	o.f.locked = f
	return nil
}

func syscall_Fallocate(fd int, mode uint32, off int64, n int64) error {
	f := byFd(fd)
	if f == nil {
		return errClosed
	}
	if n <= 0 || off < 0 {
		return errors.New("invalid argument")
	}
	if mode&1 == 0 && opens[f].f.size < off+n {
		opens[f].f.size = off + n
	}
	return nil
}
func syscall_Ftruncate(fd int, n int64) error {
	f := byFd(fd)
	if f == nil {
		return errClosed
	}
	return opens[f].f.truncate(n)
}
func syscall_Fdatasync(fd int) error {
	f := byFd(fd)
	if f == nil {
		return errClosed
	}
	if err := fault(2); err != nil {
		return err
	}
	opens[f].f.synced()
	return nil
}
func syscall_Fsync(fd int) error { return syscall_Fdatasync(fd) }

// dirEntries lists a directory by name. Only files exist in the model.
func dirEntries(dir string) []*mfile {
	var out []*mfile
	d := abs(dir)
	for _, f := range files {
		if !f.removed && filepath.Dir(f.path) == d {
			out = append(out, f)
		}
	}
	for i := 1; i < len(out); i++ {
		for j := i; j > 0 && out[j].path < out[j-1].path; j-- {
			out[j], out[j-1] = out[j-1], out[j]
		}
	}
	return out
}

type mentry struct{ f *mfile }

func (e mentry) Name() string               { return filepath.Base(e.f.path) }
func (e mentry) IsDir() bool                { return false }
func (e mentry) Type() fs.FileMode          { return 0 }
func (e mentry) Info() (fs.FileInfo, error) { return minfo{e.f.path, e.f.size}, nil }

func ioutil_ReadDir(dir string) ([]os.FileInfo, error) {
	var out []os.FileInfo
	for _, f := range dirEntries(dir) {
		out = append(out, minfo{f.path, f.size})
	}
	return out, nil
}
func os_ReadDir(dir string) ([]os.DirEntry, error) {
	var out []os.DirEntry
	for _, f := range dirEntries(dir) {
		out = append(out, mentry{f})
	}
	return out, nil
}

func filepath_Glob(pattern string) ([]string, error) {
	var out []string
	ap := abs(pattern)
	for _, f := range files {
		if f.removed {
			continue
		}
		ok, err := filepath.Match(ap, f.path)
		if err != nil {
			return nil, err
		}
		if ok {
			// names come back in the form the pattern has
			if ap == pattern {
				out = append(out, f.path)
			} else {
				out = append(out, filepath.Join(filepath.Dir(pattern), filepath.Base(f.path)))
			}
		}
	}
	// by name
	for i := 1; i < len(out); i++ {
		for j := i; j > 0 && out[j] < out[j-1]; j-- {
			out[j], out[j-1] = out[j-1], out[j]
		}
	}
	return out, nil
}

// uuids are distinct from each other
func go_uuid_NewV4() (u [16]byte) {
	x := nextID
	nextID++
	for i := 15; x > 0; i-- {
		u[i] = byte(x)
		x >>= 8
	}
	return
}

// vsym_FileBytes is the content of a file; nil when there is none.
func vsym_FileBytes(path string) []byte {
	f := find(path)
	if f == nil {
		return nil
	}
	b := make([]byte, f.size)
	copy(b, f.data[:f.size])
	return b
}

// vsym_WriteFile puts a file in place.
func vsym_WriteFile(path string, b []byte) {
	f := find(path)
	if f == nil {
		f = &mfile{path: abs(path)}
		files = append(files, f)
	}
	f.data = make([]byte, maxFile)
	copy(f.data[:len(b)], b)
	f.size = int64(len(b))
}

// vsym_Files counts the files whose name matches.
func vsym_Files(pattern string) int {
	l, _ := filepath_Glob(pattern)
	return len(l)
}

var _ = vsym.Symbolic
