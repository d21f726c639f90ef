package nvm

import (
	"github.com/thesues/cannyls-go/internal/vsym"
)

// VH_C24_snapshot: a device access that fails while a snapshot is taken, used or
// deleted is reported by the operation that needed it; nothing crashes, the
// device and the snapshot keep their bytes, also when opened again.
//bounds: device of 1 region of 1 MiB and 5 sectors; take a snapshot, 2 writes of 2 sectors anywhere (3 thorough), read 700 bytes anywhere, sync, delete; any one of the first 12 writes, 8 reads or 8 syncs fails, once or from then on until the end of this; then the live bytes and the whole snapshot, opened again or not
//outside: failures of other calls (open, rename, remove, stat)
//vsym: time=120 ttime=600
func VH_C24_snapshot() {
	x := vhStoreDevice(vsym.TempDir() + "/d.lusf")
	x.then = append([]byte(nil), x.live...)
	kind := vsym.Choice("kind", 3)
	vsym.FailAt(kind, uint64(vsym.Choice("fail", []int{12, 8, 8}[kind])), vsym.Choice("sticky", 2) == 1)
	failed := false // an operation told
	note := func(err error) bool {
		if err != nil {
			failed = true
		}
		return err == nil
	}
	r, err := x.d.GetSnapshotReader()
	has := note(err)
	x.r = r
	for i := vsym.Pick(2, 3); i > 0; i-- {
		p, data := x.dataPlace(), vsym.Bytes("data", 2*vhSec)
		k, err := x.d.WriteAt(append([]byte(nil), data...), int64(p))
		if note(err) {
			vsym.Assert(uint64(k) == vhMin(2*vhSec, x.cap-p), "a write reports the bytes inside the device")
			copy(x.live[p:], data[:k])
			if !has {
				x.then = append([]byte(nil), x.live...)
			}
		}
	}
	if has {
		at := vsym.U64("at")
		vsym.Assume(at < x.raw)
		vsym.Split(at, vhRegion)
		p, err := x.r.Seek(int64(at), 0)
		vsym.Assert(err == nil && uint64(p) == at, "a seek inside the snapshot succeeds")
		buf := make([]byte, 700)
		k, err := x.r.Read(buf)
		if note(err) {
			vsym.AssertSame(buf[:k], x.then[at:at+uint64(k)], "the snapshot shows the device as it was")
		} else {
			vsym.Assert(k == 0, "a failed read reports no bytes")
		}
	}
	note(x.d.Sync())
	vsym.Assert(failed == vsym.Fired(), "a failed device access is reported, nothing else is")
	if failed {
		vsym.Reach("failed")
	}
	vsym.Disarm()
	if vsym.Choice("reopen", 2) == 1 {
		vsym.Assert(x.d.Close() == nil, "the device can be closed")
		x.reopen()
	}
	x.checkLive()
	x.has(has)
	if has {
		x.write(vhRegion-vhSec, vsym.Bytes("data", 2*vhSec))
		x.all()
		vsym.Assert(x.d.DeleteSnapshot() == nil, "the snapshot can be deleted")
	}
	x.checkLive()
	vsym.Reach("end")
}
