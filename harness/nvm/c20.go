package nvm

import (
	"bytes"
	"os"

	"github.com/thesues/cannyls-go/block"
	"github.com/thesues/cannyls-go/internal/vsym"
)

// vhStoreDevice makes a device with a header of a storage, so that it can be
// opened again; it is one region and 5 sectors long.
func vhStoreDevice(path string) *vhSnap {
	DEFAULT_REGION_SHIFT = 20
	h := DefaultStorageHeader()
	h.BlockSize = block.Min()
	h.JournalRegionSize = 2 * vhSec
	h.DataRegionSize = vhRegion + 2*vhSec
	x := &vhSnap{path: path, cap: h.StorageSize()}
	vsym.Assert(x.cap == vhRegion+5*vhSec, "the header takes one sector")
	x.raw = x.cap
	f, err := CreateIfAbsent(x.path, x.cap)
	vsym.Assert(err == nil, "a file device can be created")
	x.d, err = NewSnapshotNVM(f)
	vsym.Assert(err == nil && x.d.myBackfile == nil, "a new device has no snapshot")
	x.live = make([]byte, x.cap)
	var b bytes.Buffer
	vsym.Assert(h.WriteHeaderRegionTo(&b) == nil && b.Len() == vhSec, "the header can be written")
	x.write(0, b.Bytes())
	x.write(vhRegion-vhSec, vsym.Bytes("device", 2*vhSec))
	x.write(x.cap-vhSec, vsym.Bytes("device", vhSec))
	return x
}

// reopen opens the device again, after a close or a stop.
// The program may have another default region size by then.
func (x *vhSnap) reopen() {
	DEFAULT_REGION_SHIFT = 21
	f, h, err := Open(x.path)
	vsym.Assert(err == nil && h.StorageSize() == x.cap, "the device opens again")
	x.d, err = NewSnapshotNVM(f)
	vsym.Assert(err == nil, "the device opens again with its snapshot")
	x.r = nil
}

// has checks that the device has its snapshot, or none.
func (x *vhSnap) has(snap bool) {
	if !snap {
		vsym.Assert(x.d.CreateSnapshotIfNeeded() == nil, "no snapshot is found when there is none")
		vsym.Assert(x.d.DeleteSnapshot() == nil, "the snapshot can be deleted")
		return
	}
	vsym.Assert(x.d.CreateSnapshotIfNeeded() != nil, "the snapshot is found again")
	var err error
	x.r, err = x.d.GetSnapshotReader()
	vsym.Assert(err == nil, "the snapshot found again can be read")
}

// all compares the whole snapshot.
func (x *vhSnap) all() {
	at := uint64(0)
	for at < x.raw {
		at = x.next(at, 2*vhRegion)
	}
	x.next(at, 1)
}

// vhDataPlace is a sector behind the header.
func (x *vhSnap) dataPlace() uint64 {
	p := x.place()
	vsym.Assume(p >= vhSec)
	return p
}

// VH_C20_reopen: a snapshot is found again when the device is opened again,
// shows the same bytes and keeps them through later writes; when there is none,
// or it was deleted, none is found. Names of other files do not matter.
//bounds: device of 1 region of 1 MiB and 5 sectors; with or without a snapshot, which may be deleted; 1 write of 2 sectors anywhere before the reopening and 1 after it, then another reopening; store names d, d_1, [d], x*y, d-lusf without dot; snapshots of other stores, their names extending or shortening this one, next to it; working directory elsewhere; the default region size changed when the device is opened again
//outside: 32 MiB regions (the default), larger devices
//vsym: time=100 ttime=600
func VH_C20_reopen() {
	names := []string{"/d.lusf", "/d_1.lusf", "/[d].lusf", "/x*y.lusf", "/d-lusf"}
	x := vhStoreDevice(vsym.TempDir() + names[vsym.Choice("name", len(names))])
	if vsym.Choice("others", 2) == 1 {
		for _, n := range []string{"d_2", "d_1_2", "d", "x1y", "e"} {
			if vsym.TempDir()+"/"+n+".lusf" == x.path {
				continue
			}
			f, err := CreateIfAbsent(vsym.TempDir()+"/"+n+".lusf", 4*vhSec)
			vsym.Assert(err == nil, "a file device can be created")
			d, err := NewSnapshotNVM(f)
			vsym.Assert(err == nil, "the snapshot layer opens")
			vsym.Assert(d.CreateSnapshotIfNeeded() == nil, "another store next to it has its own snapshot")
			vsym.Assert(d.Close() == nil, "the device can be closed")
		}
	}
	snap := vsym.Choice("snapshot", 3)
	if snap > 0 {
		x.snapshot()
	}
	x.write(x.dataPlace(), vsym.Bytes("data", 2*vhSec))
	if snap == 2 {
		vsym.Assert(x.d.DeleteSnapshot() == nil, "the snapshot can be deleted")
	}
	vsym.Assert(x.d.Close() == nil, "the device can be closed")
	x.reopen()
	x.has(snap == 1)
	x.write(x.dataPlace(), vsym.Bytes("data", 2*vhSec))
	if snap == 1 {
		x.all()
		vsym.Assert(x.d.Close() == nil, "the device can be closed")
		x.reopen()
		x.has(true)
		x.look(700)
	}
	x.checkLive()
	vsym.Reach("end")
}

// VH_C20_crash: the process may stop at any change of a file, in the middle of a
// write too: taking a snapshot, copying a region or deleting the snapshot. The
// device opens again, with the snapshot unless it was not yet taken or being
// deleted, and the snapshot shows the bytes of its time.
//bounds: device of 1 region of 1 MiB and 5 sectors; snapshot, 2 writes of 2 sectors anywhere, delete; stop at any of the first 16 changes of a file, any leading part of the write done; afterwards the whole snapshot and the bytes outside the interrupted write, then 1 write more and the snapshot again
//outside: writes reordered by the device (the code syncs between them)
//vsym: time=100 ttime=600
func VH_C20_crash() {
	x := vhStoreDevice(vsym.TempDir() + "/d.lusf")
	x.then = append([]byte(nil), x.live...)
	vsym.CrashTorn(uint64(vsym.Choice("stop", 17)))
	state := 0 // 1 taken, 2 being deleted, 3 deleted
	at, n := uint64(0), 0
	var err error
	_, stopped := vsym.Try(func() {
		x.r, err = x.d.GetSnapshotReader()
		vsym.Assert(err == nil, "a snapshot can be taken")
		state = 1
		for i := 0; i < 2; i++ {
			p, data := x.dataPlace(), vsym.Bytes("data", 2*vhSec)
			at, n = p, 2*vhSec
			x.write(p, data)
			n = 0
		}
		state = 2
		err = x.d.DeleteSnapshot()
		vsym.Assert(err == nil, "the snapshot can be deleted")
		state = 3
	})
	vsym.Assert(stopped == vsym.Fired(), "nothing crashes")
	if !stopped {
		vsym.Disarm()
		vsym.Reach("not stopped")
	}
	vsym.Reboot()
	x.reopen()
	buf := make([]byte, x.cap)
	k, err := x.d.ReadAt(buf, 0)
	vsym.Assert(err == nil && uint64(k) == x.cap, "the device can be read")
	end := vhMin(at+uint64(n), x.cap)
	vsym.AssertSame(buf[:at], x.live[:at], "the device keeps what was written")
	vsym.AssertSame(buf[end:], x.live[end:], "the device keeps what was written")
	copy(x.live, buf)
	has := x.d.CreateSnapshotIfNeeded() != nil
	switch state {
	case 1:
		vsym.Assert(has, "the snapshot is found again")
	case 3:
		vsym.Assert(!has, "a deleted snapshot is not found again")
	}
	if !has {
		x.then = append([]byte(nil), x.live...)
	}
	vsym.Assert(vsym.Files(vsym.TempDir()+"/*.snapshot") == 1, "there is one snapshot at a time")
	x.has(true)
	x.all()
	x.write(x.dataPlace(), vsym.Bytes("data", 2*vhSec))
	x.look(700)
	x.checkLive()
	vsym.Reach("end")
}

// VH_C20_damaged: a snapshot file cut short or with other bytes is refused or
// used, but nothing crashes, and the device itself stays as it is.
//bounds: snapshot of a device of 1 region and 5 sectors with 2 regions copied; the header, or the two entries, replaced by arbitrary bytes; or the file cut at any length
//outside: several of these together
//vsym: time=60 ttime=300
func VH_C20_damaged() {
	x := vhStoreDevice(vsym.TempDir() + "/d.lusf")
	x.snapshot()
	x.write(vhRegion-vhSec, vsym.Bytes("data", 2*vhSec))
	name := x.d.myBackfile.GetFileName()
	vsym.Assert(x.d.Close() == nil, "the device can be closed")
	b := vsym.FileBytes(name)
	switch vsym.Choice("damage", 3) {
	case 0:
		copy(b, vsym.Bytes("header", 58))
	case 1:
		copy(b[512:], vsym.Bytes("entries", 24))
	case 2:
		n := vsym.U64("cut")
		vsym.Assume(n <= uint64(len(b)))
		b = b[:n]
	}
	vsym.WriteFile(name, b)
	f, _, err := Open(x.path)
	vsym.Assert(err == nil, "the device opens again")
	d, err := NewSnapshotNVM(f)
	if err != nil {
		vsym.Assert(d == nil, "there is no device with an error")
		vsym.Assert(f.Close() == nil, "the device can be closed")
		os.Remove(name)
		vsym.Reach("refused")
		f, _, err = Open(x.path)
		vsym.Assert(err == nil, "the device opens again")
		d, err = NewSnapshotNVM(f)
		vsym.Assert(err == nil, "the device opens without the damaged snapshot")
	} else {
		vsym.Reach("accepted")
	}
	x.d = d
	x.checkLive()
	vsym.Reach("end")
}
