package nvm

import "github.com/thesues/cannyls-go/internal/vsym"

// VH_C30_snapshot: the power fails at any change of a file while the device is
// written and regions are copied for the snapshot, before or after it was opened
// again; the device opens with the snapshot, which shows the bytes of its time.
//bounds: device of 1 region of 1 MiB and 5 sectors, synced before the snapshot is taken; 2 writes of 2 sectors anywhere, or the device opened again and 1 write; stop at any of the first 12 changes or syncs of a file, every subset of the writes not synced lost; then the whole snapshot, 1 write more and the snapshot again
//outside: a region copied in part; the directory (file names are there at once in the model)
//vsym: time=100 ttime=300
func VH_C30_snapshot() {
	x := vhStoreDevice(vsym.TempDir() + "/d.lusf")
	vsym.Assert(x.d.Sync() == nil, "the device can be synced")
	vsym.Volatile()
	x.snapshot()
	again := vsym.Choice("again", 2)
	vsym.CrashAt(uint64(vsym.Choice("stop", 12)))
	_, stopped := vsym.Try(func() {
		if again == 1 {
			vsym.Assert(x.d.Close() == nil, "the device can be closed")
			x.reopen()
		}
		x.write(x.dataPlace(), vsym.Bytes("data", 2*vhSec))
		if again == 0 {
			x.write(x.dataPlace(), vsym.Bytes("data", 2*vhSec))
		}
	})
	vsym.Assert(stopped == vsym.Fired(), "nothing crashes")
	vsym.Disarm()
	if stopped {
		vsym.Reach("stopped")
	}
	vsym.PowerOff()
	x.reopen()
	x.has(true)
	x.all()
	// what the device has of the last writes is open
	buf := make([]byte, x.cap)
	k, err := x.d.ReadAt(buf, 0)
	vsym.Assert(err == nil && uint64(k) == x.cap, "the device can be read")
	copy(x.live, buf)
	x.write(x.dataPlace(), vsym.Bytes("data", 2*vhSec))
	x.look(700)
	x.checkLive()
	vsym.Reach("end")
}
