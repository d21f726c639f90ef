package nvm

import (
	"io"

	"github.com/thesues/cannyls-go/internal/vsym"
)

const vhRegion = 1 << 20

// vhSnap is a device with a snapshot, next to the bytes of the device now and
// when the snapshot was taken.
type vhSnap struct {
	path string
	cap  uint64
	raw  uint64 // bytes of the file when the snapshot was taken
	d    *SnapNVM
	live []byte
	then []byte
	r    *SnapshotReader
}

// vhSnapDevice makes a device of a little more than n regions with arbitrary
// bytes at the start, around each region boundary and at the end. The file may
// be shorter than the device.
func vhSnapDevice(n int) *vhSnap {
	DEFAULT_REGION_SHIFT = 20
	x := &vhSnap{path: vsym.TempDir() + "/d.lusf", cap: uint64(n)*vhRegion + 3*vhSec}
	f, err := CreateIfAbsent(x.path, x.cap)
	vsym.Assert(err == nil, "a file device can be created")
	x.d, err = NewSnapshotNVM(f)
	vsym.Assert(err == nil, "the snapshot layer opens")
	x.live = make([]byte, x.cap)
	x.raw = x.cap
	if vsym.Choice("short", 2) == 1 {
		x.raw = uint64(n-1)*vhRegion + vhSec
	}
	for p := uint64(0); p < x.raw; p += vhRegion {
		a, b := p, p+vhSec
		if p > 0 {
			a -= vhSec
		}
		if x.raw < p+vhRegion {
			b = x.raw
		}
		x.write(a, vsym.Bytes("device", int(b-a)))
	}
	return x
}

func (x *vhSnap) write(at uint64, data []byte) {
	n, err := x.d.WriteAt(append([]byte(nil), data...), int64(at))
	vsym.Assert(err == nil && uint64(n) == vhMin(uint64(len(data)), x.cap-at), "the device can be written")
	copy(x.live[at:], data[:n])
}

func (x *vhSnap) snapshot() {
	x.then = append([]byte(nil), x.live[:x.raw]...)
	var err error
	x.r, err = x.d.GetSnapshotReader()
	vsym.Assert(err == nil, "a snapshot can be taken")
}

// place is an arbitrary sector of the device, or its end.
func (x *vhSnap) place() uint64 {
	p := vsym.U64("place")
	vsym.Assume(p <= x.cap/vhSec)
	return vsym.Split(p*vhSec, vhRegion)
}

// change writes at any sector, in one of the ways there are.
func (x *vhSnap) change(lens ...int) {
	n := lens[vsym.Choice("length", len(lens))]
	at := x.place()
	data := vsym.Bytes("data", n)
	want := vhMin(uint64(n), x.cap-at)
	var k int
	var err error
	switch vsym.Choice("by", 3) {
	case 0:
		k, err = x.d.WriteAt(append([]byte(nil), data...), int64(at))
	case 1:
		p, serr := x.d.Seek(int64(at), io.SeekStart)
		vsym.Assert(serr == nil && uint64(p) == at, "a seek inside the device succeeds")
		k, err = x.d.Write(append([]byte(nil), data...))
		vsym.Assert(x.d.Position() == at+want, "a write moves the position by its length")
	case 2:
		cut := uint64(vhRegion + vhSec)
		l, r, serr := x.d.Split(cut)
		vsym.Assert(serr == nil, "the device can be split")
		v, o := l, uint64(0)
		want = vhMin(want, cut-at)
		if at >= cut {
			v, o = r, cut
			want = vhMin(uint64(n), x.cap-at)
		}
		k, err = v.WriteAt(append([]byte(nil), data...), int64(at-o))
	}
	vsym.Assert(err == nil && uint64(k) == want, "the device can be written with a snapshot")
	copy(x.live[at:], data[:k])
}

// look reads the snapshot anywhere.
func (x *vhSnap) look(lens ...int) {
	n := lens[vsym.Choice("read", len(lens))]
	at := vsym.U64("at")
	vsym.Assume(at <= x.raw)
	vsym.Split(at, vhRegion)
	p, err := x.r.Seek(int64(at), io.SeekStart)
	vsym.Assert(err == nil && uint64(p) == at, "a seek inside the snapshot succeeds")
	x.next(at, n)
}

// next reads the snapshot from where its reader stands.
func (x *vhSnap) next(at uint64, n int) uint64 {
	buf := make([]byte, n)
	k, err := x.r.Read(buf)
	if n > 0 && at == x.raw {
		vsym.Assert(k == 0 && err == io.EOF, "the snapshot ends where the device did")
		vsym.Reach("end of the snapshot")
		return at
	}
	vsym.Assert(err == nil && k >= 0 && k <= n && (k > 0 || n == 0), "a read of the snapshot makes progress")
	vsym.Assert(at+uint64(k) <= x.raw, "the snapshot ends where the device did")
	vsym.AssertSame(buf[:k], x.then[at:at+uint64(k)], "the snapshot shows the device as it was")
	return at + uint64(k)
}

func (x *vhSnap) checkLive() {
	buf := make([]byte, x.cap)
	n, err := x.d.ReadAt(buf, 0)
	vsym.Assert(err == nil && uint64(n) == x.cap, "the device can be read")
	vsym.AssertSame(buf, x.live, "the device shows the latest writes")
}

// VH_C19_write: whatever is written after a snapshot was taken, anywhere and in
// any of the ways there are, the snapshot shows the bytes from before, and the
// device the new ones.
//bounds: device of 2 regions of 1 MiB and 3 sectors, arbitrary bytes at its start, around the region boundaries and at its end, file as long as the device or shorter; 1 write (2 thorough) of 1 sector, 3 sectors or a region and 2 sectors at any sector, by WriteAt, Write or through a split view; then a read of the snapshot at any byte, and the live bytes
//outside: 32 MiB regions (the default), larger devices, unaligned writes (refused, see C17)
//vsym: time=90 ttime=600
func VH_C19_write() {
	x := vhSnapDevice(2)
	x.snapshot()
	for i := vsym.Pick(1, 2); i > 0; i-- {
		x.change(vhSec, 3*vhSec, vhRegion+2*vhSec)
	}
	x.look(700)
	x.checkLive()
	vsym.Reach("end")
}

// VH_C19_reader: any sequence of seeks and reads of the snapshot, with writes to
// the device in between, returns its bytes in order, and a seek outside it is
// refused.
//bounds: device of 1 region of 1 MiB and 3 sectors, contents as in VH_C19_write; 3 steps (4 thorough): seek (by any of the three ways, to any 64-bit place), read of 0, 700 or 2 MiB bytes, or a write of 2 sectors at any sector of the device; then the live bytes
//outside: as VH_C19_write; readers used from several goroutines
//vsym: time=120 ttime=900
func VH_C19_reader() {
	x := vhSnapDevice(1)
	x.snapshot()
	at := uint64(0)
	for i := vsym.Pick(3, 4); i > 0; i-- {
		switch vsym.Choice("step", 3) {
		case 0:
			off := int64(vsym.U64("offset"))
			whence := vsym.Choice("whence", 4)
			from := uint64(0)
			switch whence {
			case io.SeekCurrent:
				from = at
			case io.SeekEnd:
				from = x.raw
			}
			to := off + int64(from)
			in := whence < 3 && to >= 0 && uint64(to) <= x.raw && (off < 0 || to >= off)
			p, err := x.r.Seek(off, whence)
			if in {
				vsym.Assert(err == nil && p == to, "a seek inside the snapshot reports the position")
				at = vsym.Split(uint64(to), vhRegion)
			} else {
				vsym.Assert(err != nil, "a seek outside the snapshot is refused")
				vsym.Reach("refused seek")
			}
		case 1:
			at = x.next(at, []int{700, 0, 2 * vhRegion}[vsym.Choice("read", 3)])
		case 2:
			n := 2 * vhSec
			p := x.place()
			x.write(p, vsym.Bytes("data", n))
		}
	}
	x.next(at, 600)
	x.checkLive()
	vsym.Reach("end")
}

// VH_C19_delete: deleting a snapshot leaves the device as it is, and its reader
// shows nothing any more; a snapshot taken again shows the device of that time.
//bounds: device of 1 region of 1 MiB and 3 sectors; 1 write before and 1 after each of: snapshot, delete, snapshot; 1 read of each
//outside: as VH_C19_write
//vsym: time=120 ttime=600
func VH_C19_delete() {
	x := vhSnapDevice(1)
	x.snapshot()
	err := x.d.CreateSnapshotIfNeeded()
	vsym.Assert(err != nil, "there is one snapshot at a time")
	x.write(x.place(), vsym.Bytes("data", 2*vhSec))
	old := x.r
	if vsym.Choice("read", 2) == 1 {
		x.look(700)
	}
	vsym.Assert(x.d.DeleteSnapshot() == nil, "the snapshot can be deleted")
	vsym.Assert(vsym.Files(vsym.TempDir()+"/*.snapshot") == 0, "a deleted snapshot takes no room")
	x.checkLive()
	k, err := old.Read(make([]byte, 700))
	vsym.Assert(err != nil && k == 0, "a deleted snapshot cannot be read")
	x.write(x.place(), vsym.Bytes("data", vhSec))
	if n := uint64(len(vsym.FileBytes(x.path))); n > x.raw {
		x.raw = n
	}
	x.snapshot()
	x.write(x.place(), vsym.Bytes("data", 2*vhSec))
	k, err = old.Read(make([]byte, 700))
	vsym.Assert(err != nil && k == 0, "a deleted snapshot cannot be read")
	x.look(700)
	x.checkLive()
	vsym.Assert(x.d.DeleteSnapshot() == nil, "the snapshot can be deleted")
	vsym.Assert(x.d.DeleteSnapshot() == nil, "deleting without a snapshot does nothing")
	x.checkLive()
	vsym.Reach("end")
}
