package nvm

import (
	"io"

	"github.com/thesues/cannyls-go/internal/vsym"
)

const vhSec = 512

// vhDev is a device, or a view of one, next to the flat bytes it has to act on.
type vhDev struct {
	d     NonVolatileMemory
	flat  []byte // of the whole device
	base  uint64 // where the view starts
	cap   uint64
	pos   uint64
	whole NonVolatileMemory
	exact bool // whether unaligned access has to be refused
}

// vhDevice makes a device of n sectors of arbitrary content: kind 0 a file, 1
// memory, 2 a file behind the snapshot layer. Of a file, only the first sectors
// may have been written.
func vhDevice(kind, n int) *vhDev {
	x := &vhDev{cap: uint64(n * vhSec)}
	init := vsym.Bytes("device", n*vhSec)
	if kind == 1 {
		m, err := NewFromVec(append([]byte(nil), init...))
		vsym.Assert(err == nil, "a memory device of whole sectors")
		x.d, x.flat = m, append([]byte(nil), init...)
	} else {
		f, err := CreateIfAbsent(vsym.TempDir()+"/d.lusf", x.cap)
		vsym.Assert(err == nil, "a file device can be created")
		x.d, x.exact = f, true
		if kind == 2 {
			s, err := NewSnapshotNVM(f)
			vsym.Assert(err == nil, "the snapshot layer opens")
			x.d = s
		}
		k := n
		if vsym.Choice("short", 2) == 1 {
			k = 2
		}
		x.flat = make([]byte, n*vhSec)
		copy(x.flat, init[:k*vhSec])
		w, err := x.d.WriteAt(append([]byte(nil), x.flat[:k*vhSec]...), 0)
		vsym.Assert(err == nil && w == k*vhSec, "the device can be written")
	}
	x.whole = x.d
	vsym.Assert(x.d.Capacity() == x.cap, "the capacity is the one asked for")
	return x
}

func (x *vhDev) bytes() []byte { return x.flat[x.base : x.base+x.cap] }

// split goes on with one of the two views at any place.
func (x *vhDev) split() bool {
	p := vsym.U64("split")
	if p <= x.cap {
		vsym.Split(p, vhSec)
	}
	var l, r NonVolatileMemory
	var err error
	l, r, err = x.d.Split(p)
	if p > x.cap || p%vhSec != 0 {
		vsym.Assert(err != nil, "a split outside the device or inside a sector is refused")
		vsym.Reach("split refused")
		return false
	}
	vsym.Assert(err == nil, "a split at a sector of the device succeeds")
	vsym.Assert(l.Capacity() == p && r.Capacity() == x.cap-p, "the two views cover the device")
	vsym.Assert(l.Position() == 0 && r.Position() == 0, "views start at position 0")
	if vsym.Choice("side", 2) == 0 {
		x.d, x.cap = l, p
	} else {
		x.d, x.base, x.cap = r, x.base+p, x.cap-p
	}
	x.pos = 0
	return true
}

var vhLens = []int{512, 1536, 0, 100}

func vhMin(a, b uint64) uint64 {
	if a < b {
		return a
	}
	return b
}

func (x *vhDev) offset() (off int64, inside bool) {
	off = int64(vsym.U64("offset"))
	inside = off >= 0 && uint64(off) <= x.cap
	if inside {
		vsym.Split(uint64(off), vhSec)
	}
	return
}

func vhCount(n int, err error, want uint64, what string) {
	if err != nil && err != io.EOF {
		vsym.Assert(n == 0, "a refused "+what+" reports no bytes")
		vsym.Assert(want == 0, "an aligned "+what+" inside the view succeeds")
		return
	}
	vsym.Assert(n >= 0 && uint64(n) == want, "a "+what+" reports the bytes inside the view")
}

// op does one access and compares it with the flat bytes.
func (x *vhDev) op() {
	n := vhLens[vsym.Choice("n", len(vhLens))]
	switch vsym.Choice("op", 5) {
	case 0: // ReadAt
		off, inside := x.offset()
		buf := make([]byte, n)
		k, err := x.d.ReadAt(buf, off)
		ok := inside && off%vhSec == 0 && n%vhSec == 0
		if inside && !ok && !x.exact && err == nil {
			ok = true
		}
		want := uint64(0)
		if ok {
			want = vhMin(uint64(n), x.cap-uint64(off))
		} else {
			vsym.Assert(err != nil, "a read outside the view or inside a sector is refused")
		}
		vhCount(k, err, want, "read")
		if ok {
			vsym.AssertSame(buf[:k], x.bytes()[off:off+int64(k)], "a read returns the bytes at its place")
		}
	case 1: // WriteAt
		off, inside := x.offset()
		data := vsym.Bytes("data", n)
		k, err := x.d.WriteAt(append([]byte(nil), data...), off)
		ok := inside && off%vhSec == 0 && n%vhSec == 0
		if inside && !ok && !x.exact && err == nil {
			ok = true
		}
		want := uint64(0)
		if ok {
			want = vhMin(uint64(n), x.cap-uint64(off))
		} else {
			vsym.Assert(err != nil, "a write outside the view or inside a sector is refused")
		}
		vhCount(k, err, want, "write")
		if ok {
			copy(x.bytes()[off:], data[:k])
		}
	case 2: // Read
		buf := make([]byte, n)
		k, err := x.d.Read(buf)
		ok := n%vhSec == 0 && x.pos%vhSec == 0
		if !ok && !x.exact && err == nil {
			ok = true
		}
		want := uint64(0)
		if ok {
			want = vhMin(uint64(n), x.cap-x.pos)
		}
		if err == io.EOF {
			vsym.Assert(x.pos == x.cap, "the end is reported only there")
		}
		vhCount(k, err, want, "read")
		if ok {
			vsym.AssertSame(buf[:k], x.bytes()[x.pos:x.pos+uint64(k)], "a read returns the bytes at its place")
			x.pos += uint64(k)
		}
	case 3: // Write
		data := vsym.Bytes("data", n)
		k, err := x.d.Write(append([]byte(nil), data...))
		ok := n%vhSec == 0
		want := uint64(0)
		if ok {
			want = vhMin(uint64(n), x.cap-x.pos)
		} else {
			vsym.Assert(err != nil, "a write of part of a sector is refused")
		}
		vhCount(k, err, want, "write")
		if ok {
			copy(x.bytes()[x.pos:], data[:k])
			x.pos += uint64(k)
		}
	case 4: // Seek
		off := int64(vsym.U64("offset"))
		whence := vsym.Choice("whence", 4)
		from := uint64(0)
		switch whence {
		case io.SeekCurrent:
			from = x.pos
		case io.SeekEnd:
			from = x.cap
		}
		// no overflow for the sums of interest
		to := off + int64(from)
		in := whence < 3 && to >= 0 && uint64(to) <= x.cap && (off < 0 || to >= off)
		if in {
			vsym.Split(uint64(to), vhSec)
		}
		got, err := x.d.Seek(off, whence)
		if in && to%vhSec == 0 {
			vsym.Assert(err == nil && got == to, "a seek inside the view reports the position")
			x.pos = uint64(to)
		} else if !in {
			vsym.Assert(err != nil, "a seek outside the view is refused")
		} else if err == nil {
			vsym.Assert(!x.exact, "a seek inside a sector is refused")
			x.pos = uint64(to)
		}
	}
	vsym.Assert(x.d.Position() == x.pos, "the position moves by the bytes transferred")
	vsym.Assert(x.d.Capacity() == x.cap, "the capacity stays")
}

// all compares the whole device with the flat bytes.
func (x *vhDev) all() {
	buf := make([]byte, len(x.flat))
	n, err := x.whole.ReadAt(buf, 0)
	vsym.Assert(err == nil && n == len(buf), "the whole device can be read")
	vsym.AssertSame(buf, x.flat, "accesses change exactly the bytes they are meant for")
}

func vhViews(kind int) {
	x := vhDevice(kind, 4)
	for i := vsym.Choice("splits", 3); i > 0; i-- {
		if !x.split() {
			return
		}
	}
	n := vsym.Pick(1, 2)
	for i := 0; i < n; i++ {
		x.op()
	}
	x.all()
	vsym.Reach("end")
}

// VH_C17_file: accesses on a file-backed device and views of it.
//bounds: device of 4 sectors with arbitrary content (all or only the first two ever written); up to 2 nested splits at any 64-bit place, either side; one access (2 thorough) - read, write, positioned read or write, seek - at any 64-bit offset, lengths 0, 100, 512, 1536
//outside: longer sequences and other lengths; O_DIRECT buffer alignment
//vsym: time=60 ttime=300
func VH_C17_file() { vhViews(0) }

// VH_C17_memory: the same for a memory device.
//bounds: as VH_C17_file
//outside: as VH_C17_file
//vsym: time=60 ttime=300
func VH_C17_memory() { vhViews(1) }

// VH_C17_snap: the same for a file behind the snapshot layer, no snapshot taken.
//bounds: as VH_C17_file
//outside: as VH_C17_file
//vsym: time=60 ttime=300
func VH_C17_snap() { vhViews(2) }

// VH_C17_sequence: sequences of accesses through one position.
//bounds: device or half of it of 4 sectors, of each kind; 3 reads, writes or seeks
//outside: longer sequences
//vsym: time=60 ttime=300
func VH_C17_sequence() {
	x := vhDevice(vsym.Choice("kind", 3), 4)
	if vsym.Choice("half", 2) == 1 {
		l, r, err := x.d.Split(2 * vhSec)
		vsym.Assert(err == nil, "a split at a sector of the device succeeds")
		_ = l
		x.d, x.base, x.cap = r, 2*vhSec, 2*vhSec
	}
	for i := 0; i < 3; i++ {
		switch vsym.Choice("op", 3) {
		case 0:
			n := []int{512, 1536}[vsym.Choice("n", 2)]
			buf := make([]byte, n)
			k, err := x.d.Read(buf)
			vhCount(k, err, vhMin(uint64(n), x.cap-x.pos), "read")
			vsym.AssertSame(buf[:k], x.bytes()[x.pos:x.pos+uint64(k)], "a read returns the bytes at its place")
			x.pos += uint64(k)
		case 1:
			n := []int{512, 1024}[vsym.Choice("n", 2)]
			data := vsym.Bytes("data", n)
			k, err := x.d.Write(append([]byte(nil), data...))
			vhCount(k, err, vhMin(uint64(n), x.cap-x.pos), "write")
			copy(x.bytes()[x.pos:], data[:k])
			x.pos += uint64(k)
		case 2:
			to := uint64(vsym.Choice("to", int(x.cap/vhSec)+1)) * vhSec
			got, err := x.d.Seek(int64(to)-int64(x.pos), io.SeekCurrent)
			vsym.Assert(err == nil && got == int64(to), "a seek inside the view reports the position")
			x.pos = to
		}
		vsym.Assert(x.d.Position() == x.pos, "the position moves by the bytes transferred")
	}
	x.all()
	vsym.Reach("end")
}
