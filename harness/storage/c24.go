package storage

import (
	"github.com/thesues/cannyls-go/internal/vsym"
	"github.com/thesues/cannyls-go/lump"
)

// faultStep does one operation, during which a device access may fail. It tells
// whether the operation reported it.
func (v *vhStore) faultStep(kinds ...int) bool {
	before := vsym.Fired()
	var err error
	silent := false // has no error result
	kind := kinds[vsym.Choice("op", len(kinds))]
	var id lump.LumpId
	if kind == opPut || kind == opEmbed || kind == opDelete || kind == opGet {
		id = v.pick()
	}
	msg, panicked := vsym.Try(func() {
		switch kind {
		case opPut:
			err = v.put(id, vsym.Bytes("value", 600))
		case opEmbed:
			err = v.embed(id, vsym.Bytes("value", 400))
		case opDelete:
			err = v.delete(id)
		case opRange:
			err = v.deleteRange(v.ids[0], v.ids[len(v.ids)-1])
		case opGet:
			got, e := v.st.Get(id)
			if i := v.at(id); i < 0 {
				vsym.Assert(e != nil, "get of an absent id fails")
			} else if err = e; err == nil {
				vsym.AssertSame(got, v.ref[i].data, "get returns the bytes last put")
			}
		case opGC:
			silent = true
			v.st.JournalGC()
		case opSide:
			silent = true
			v.st.RunSideJobOnce(1)
		case opSync:
			silent = true
			v.st.Sync()
		}
	})
	if panicked {
		// these have no other means to tell that the journal is not on the device
		vsym.Assert((kind == opSync || kind == opSide) && vsym.Fired(), "a failed device access does not crash the store: "+msg)
	}
	if kind == opSync && !before && vsym.Fired() {
		vsym.Assert(panicked, "a sync that fails does not pass as done")
	}
	if err != nil {
		vsym.Assert(vsym.Fired(), "an operation succeeds while there is room and the device works")
		vsym.Reach("reported")
	}
	return err != nil || panicked || silent
}

func vhFaulty() *vhStore {
	v := vhCreate(5, 10)
	v.vhIds(2)
	v.turn(3 * vsym.Choice("turn", 2))
	vsym.Assert(v.put(v.ids[0], vsym.Bytes("value", 600)) == nil, "put succeeds while there is room")
	v.st.Sync()
	return v
}

func (v *vhStore) faulted() {
	if vsym.Fired() {
		vsym.Reach("failed")
	}
	vsym.Disarm()
}

// unharmed checks everything, and again after a sync and reopening.
func (v *vhStore) unharmed() {
	v.checkAll()
	v.checkUsage()
	v.st.Sync()
	vsym.Reboot()
	v.open()
	v.checkAll()
	v.checkUsage()
	vsym.Reach("end")
}

// VH_C24_once: any device access of an operation fails; the operation reports so
// and changes nothing, nothing that was done before is missing and the store
// goes on working, also after a sync and reopening.
//bounds: journal of 5 sectors (4 for records) which begins at one of 2 places, so that it wraps; data region of 10; 2 ids of any value, one lump put and synced; then a put of 600 bytes, embedded put of 400 or delete, an operation (also get, range delete, sync, full GC, side job) of which any one read, write or sync fails, and an operation (put, embedded put, delete, full GC), with automatic GC; then everything is checked, synced, and checked again after reopening
//outside: a failing write which changes the device; sync and side jobs have no error result and may stop the process instead
//vsym: time=150 ttime=300
func VH_C24_once() {
	v := vhFaulty()
	v.faultStep(opPut, opEmbed, opDelete)
	vsym.FailAt(vsym.Choice("kind", 3), vsym.U64("fail"), false)
	v.faultStep(opPut, opEmbed, opDelete, opRange, opGet, opSync, opGC, opSide)
	v.faulted()
	v.faultStep(opPut, opEmbed, opDelete, opGC)
	v.unharmed()
}

// VH_C24_full: the same for a put into a store without free blocks, which takes
// the blocks of the value it replaces.
//bounds: journal of 5 sectors, data region of 4, full of two lumps of 600 bytes; a put of 300, 600 or 1100 bytes for one of them, of which any one read, write or sync fails; then everything is checked, synced, and checked again after reopening
//outside: a failing write which changes the device
func VH_C24_full() {
	v := vhCreate(5, 4)
	v.vhIds(2)
	for _, id := range v.ids {
		vsym.Assert(v.put(id, vsym.Bytes("value", 600)) == nil, "put succeeds while there is room")
	}
	vsym.FailAt(vsym.Choice("kind", 3), vsym.U64("fail"), false)
	n := []int{300, 600, 1100}[vsym.Choice("len", 3)]
	err := v.put(v.pick(), vsym.Bytes("value", n))
	vsym.Assert((err != nil) == (vsym.Fired() || n > 1022), "a put fails when it has no room or the device fails")
	if n > 1022 && !vsym.Fired() {
		vsym.Reach("no room")
	}
	v.faulted()
	v.unharmed()
}

// VH_C24_long: the same with a failure at any time of a longer history, which
// may last.
//bounds: as VH_C24_once, with 3 operations of all kinds, of which any read, write or sync fails, and those after it too or not
//outside: as VH_C24_once
//vsym: ttime=900 thorough
func VH_C24_long() {
	v := vhFaulty()
	vsym.FailAt(vsym.Choice("kind", 3), vsym.U64("fail"), vsym.Choice("sticky", 2) == 1)
	for i := 0; i < 3; i++ {
		v.faultStep(opPut, opEmbed, opDelete, opRange, opGet, opSync, opGC, opSide)
	}
	v.faulted()
	v.unharmed()
}

// VH_C24_fill: after a device access of a full GC failed, the journal is filled
// to its end and around it.
//bounds: journal of 5 sectors (4 for records) which begins at one of 3 places, 2 lumps embedded and one of them deleted or not; a full GC of which any one read, write or sync fails; then embedded puts of 5 or 200 bytes under one id until there is no room, at most 30; then a sync or closing, and reopening; fixed ids and contents
//outside: a failing write which changes the device
//vsym: time=60 ttime=300
func VH_C24_fill() {
	v := vhCreate(5, 4)
	for i := uint64(0); i < 3; i++ {
		v.ids = append(v.ids, lump.FromU64(0, 7+i))
	}
	v.st.SetAutomaticGcMode(false)
	for i := vsym.Choice("turn", 3); i > 0; i-- {
		vsym.Assert(v.embed(v.ids[0], make([]byte, 600)) == nil, "embedded put succeeds while there is room")
		vsym.Assert(v.delete(v.ids[0]) == nil, "delete succeeds")
		v.st.JournalGC()
	}
	vsym.Assert(v.embed(v.ids[0], []byte("first")) == nil, "embedded put succeeds while there is room")
	vsym.Assert(v.embed(v.ids[1], make([]byte, 300)) == nil, "embedded put succeeds while there is room")
	if vsym.Choice("delete", 2) == 1 {
		vsym.Assert(v.delete(v.ids[1]) == nil, "delete succeeds")
	}
	v.st.Sync()
	vsym.FailAt(vsym.Choice("kind", 3), vsym.U64("fail"), false)
	v.st.JournalGC()
	v.faulted()
	size := []int{5, 200}[vsym.Choice("size", 2)]
	for i := 0; i < 30; i++ {
		if v.embed(v.ids[2], append(make([]byte, size), byte(i))) != nil {
			vsym.Reach("full")
			break
		}
	}
	v.checkAll()
	if vsym.Choice("how", 2) == 0 {
		v.reopen()
	} else {
		v.st.Sync()
		vsym.Reboot()
		v.open()
	}
	v.checkAll()
	v.checkUsage()
	vsym.Reach("end")
}
