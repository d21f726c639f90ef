package storage

import "github.com/thesues/cannyls-go/internal/vsym"

// VH_C30_power: the power fails at any change of the device, in the middle of any
// short history, and of the writes made since the last sync any are lost; the
// store opens again as it was after some operation not before the last sync.
//bounds: journal of 5 sectors (4 for records) which begins at one of 2 places, so that it wraps; data region of 5; 2 ids of any value; one lump put and synced, then 2 operations (3 thorough) of put of 600 bytes, embedded put of 400, delete, range delete of all, sync, full GC, side job, with automatic GC; stop at any write, every subset of the writes not synced lost; then an embedded put and reopening
//outside: writes of several sectors of which only some are done; bytes of lumps put after the last sync; longer histories; lumps whose blocks were freed after the last sync and written again (known finding of C06)
//vsym: time=150 ttime=900
func VH_C30_power() {
	v := vhCrash(5, 5, 2)
	v.power = true
	v.turn(3 * vsym.Choice("turn", 2))
	v.crashStep(opPut)
	v.st.Sync()
	v.synchronised()
	vsym.Volatile()
	vsym.CrashAt(vsym.U64("stop"))
	n := vsym.Pick(2, 3)
	_, stopped := vsym.Try(func() {
		for i := 0; i < n; i++ {
			v.crashStep(opPut, opEmbed, opDelete, opRange, opSync, opGC, opSide)
		}
	})
	vsym.Assert(stopped == vsym.Fired(), "nothing crashes")
	if stopped {
		vsym.Reach("stopped")
	}
	vsym.Disarm()
	v.recovered()
	vsym.Reach("end")
}

// VH_C30_turn: as VH_C30_power, while the journal turns: entries are appended again,
// released and written over, and the tail jumps to the front.
//bounds: journal of 5 sectors (4 for records); a lump of 600 bytes, synced; then 4 operations (5 thorough) of embedded put of 400 bytes, full GC, side job; stop at any write or sync, every subset of the writes not synced lost; then an embedded put and reopening
//outside: as VH_C30_power
//vsym: time=100 ttime=600
func VH_C30_turn() {
	v := vhCrash(5, 5, 2)
	v.power = true
	v.crashStep(opPut)
	v.st.Sync()
	v.synchronised()
	vsym.Volatile()
	vsym.CrashAt(vsym.U64("stop"))
	n := vsym.Pick(4, 5)
	_, stopped := vsym.Try(func() {
		for i := 0; i < n; i++ {
			v.crashStep(opEmbed, opGC, opSide)
		}
	})
	vsym.Assert(stopped == vsym.Fired(), "nothing crashes")
	if stopped {
		vsym.Reach("stopped")
	}
	vsym.Disarm()
	v.recovered()
	vsym.Reach("end")
}

// VH_C30_done: what a finished call has made durable survives a power failure
// right after it: a store just created, synced or closed, a snapshot just taken.
//bounds: journal of 6 sectors, data region of 5; 2 ids of any value; 2 operations of put of 600 bytes, embedded put of 400, delete, range delete, full GC, side job; the lumps read back or not; then sync, close, CreateSnapshot or GetSnapshotReader, or a store created and nothing else; every subset of the writes not synced lost
//outside: the directory (file names are there at once in the model)
//vsym: time=100 ttime=300
func VH_C30_done() {
	vsym.Volatile()
	v := vhCreate(6, 5)
	v.vhIds(2)
	last := vsym.Choice("last", 5)
	if last > 0 {
		n := vsym.Pick(2, 3)
		for i := 0; i < n; i++ {
			v.step(600, []int{400}, opPut, opEmbed, opDelete, opRange, opGC, opSide)
		}
	}
	if last > 0 && vsym.Choice("read", 2) == 1 {
		v.checkAll() // reading may move records to the device without making them durable
	}
	switch last {
	case 1:
		v.st.Sync()
	case 2:
		v.st.Close()
	case 3:
		vsym.Assert(v.st.CreateSnapshot() == nil, "a snapshot can be taken")
	case 4:
		_, err := v.st.GetSnapshotReader()
		vsym.Assert(err == nil, "a snapshot can be taken and read")
	}
	vsym.PowerOff()
	v.open()
	v.checkAll()
	v.checkUsage()
	if last >= 3 {
		vsym.Assert(v.st.CreateSnapshot() != nil, "the snapshot is still there")
	}
	vsym.Reach("end")
}
