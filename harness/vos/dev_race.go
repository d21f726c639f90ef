//go:build race

package vos

import (
	"io"
	"syscall"
	"unsafe"
)

// Device accesses under the race detector: the system calls are made directly,
// because package os orders every write before every later read, which would
// hide races of the program. The program's own buffer is copied to and from, so
// that its accesses are seen.

func aligned(n int) []byte {
	b := make([]byte, n+4096)
	o := int(4096 - uintptr(unsafe.Pointer(&b[0]))%4096)
	return b[o : o+n]
}

//go:norace
func raw(trap uintptr, f *File, b []byte, off int64) (int, error) {
	for {
		n, _, e := syscall.RawSyscall6(trap, f.File.Fd(), uintptr(unsafe.Pointer(&b[0])), uintptr(len(b)), uintptr(off), 0, 0)
		if e == syscall.EINTR {
			continue
		}
		if e != 0 {
			return 0, e
		}
		return int(n), nil
	}
}

func devRead(f *File, b []byte) (int, error) {
	if len(b) == 0 {
		return 0, nil
	}
	t := aligned(len(b))
	n, err := raw(syscall.SYS_READ, f, t, 0)
	if err == nil && n == 0 {
		err = io.EOF
	}
	copy(b, t[:n])
	return n, err
}
func devReadAt(f *File, b []byte, off int64) (int, error) {
	n := 0
	for n < len(b) {
		t := aligned(len(b) - n)
		m, err := raw(syscall.SYS_PREAD64, f, t, off+int64(n))
		if err == nil && m == 0 {
			err = io.EOF
		}
		copy(b[n:], t[:m])
		n += m
		if err != nil {
			return n, err
		}
	}
	return n, nil
}
func devWrite(f *File, b []byte) (int, error) {
	if len(b) == 0 {
		return 0, nil
	}
	t := aligned(len(b))
	copy(t, b)
	return raw(syscall.SYS_WRITE, f, t, 0)
}
func devWriteAt(f *File, b []byte, off int64) (int, error) {
	if len(b) == 0 {
		return 0, nil
	}
	t := aligned(len(b))
	copy(t, b)
	return raw(syscall.SYS_PWRITE64, f, t, off)
}
