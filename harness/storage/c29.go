package storage

import (
	"github.com/thesues/cannyls-go/internal/vsym"
	"github.com/thesues/cannyls-go/nvm"
)

// intrude tries to get at the store in use from elsewhere.
func (v *vhStore) intrude() {
	switch vsym.Choice("intruder", 4) {
	case 0:
		st, err := OpenCannylsStorage(v.path)
		vsym.Assert(err != nil && st == nil, "a store in use is not opened a second time")
	case 1:
		_, err := CreateCannylsStorage(v.path, 16*vhBlock, 0.5)
		vsym.Assert(err != nil, "no store is created in the place of one in use")
	case 2:
		_, _, err := nvm.Open(v.path)
		vsym.Assert(err != nil, "the device of a store in use is not opened a second time")
	case 3:
		_, err := nvm.CreateIfAbsent(v.path, 8*vhBlock)
		vsym.Assert(err != nil, "no device is created in the place of a store in use")
	}
}

// VH_C29_one: a store in use cannot be opened or created again by anyone else,
// and does not notice the attempt; once closed it can be opened.
//bounds: a store of 4 journal sectors and 6 of data, with or without a snapshot; a put of 600 bytes or embedded put of 3 before the attempt and one operation after it (put up to 510 bytes, embedded put of 3, delete, sync, GC); the attempt by opening or creating the store or its device; then closed, or stopped after a sync, and opened
//outside: longer histories
//vsym: time=60 ttime=300
func VH_C29_one() {
	nvm.DEFAULT_REGION_SHIFT = 20
	v := vhCreate(4, 6)
	v.vhIds(2)
	snap := vsym.Choice("snapshot", 2) == 1
	if snap {
		vsym.Assert(v.st.CreateSnapshot() == nil, "a snapshot can be taken")
	}
	if vsym.Choice("kind", 2) == 0 {
		vsym.Assert(v.put(v.ids[0], vsym.Bytes("value", 600)) == nil, "put succeeds while there is room")
	} else {
		vsym.Assert(v.embed(v.ids[0], vhSmall(3)) == nil, "embedded put succeeds while there is room")
	}
	v.intrude()
	v.step(510, []int{3}, opPut, opEmbed, opDelete, opSync, opGC)
	v.checkAll()
	v.checkUsage()
	if vsym.Choice("stop", 2) == 0 {
		v.st.Close()
	} else {
		v.st.Sync()
		vsym.Reboot()
	}
	v.open()
	v.checkAll()
	v.checkUsage()
	v.intrude()
	v.checkAll()
	vsym.Reach("end")
}

// VH_C29_failed_open: an attempt to open which fails leaves the store as it is
// and free for the next one.
//bounds: a store with a lump and an embedded one, with or without a snapshot; any one device access of the attempt fails, once or for good; then the device works
//outside: several attempts
//vsym: time=60 ttime=300
func VH_C29_failed_open() {
	nvm.DEFAULT_REGION_SHIFT = 20
	v := vhCreate(4, 6)
	v.ids = vhTwoIds()
	if vsym.Choice("snapshot", 2) == 1 {
		vsym.Assert(v.st.CreateSnapshot() == nil, "a snapshot can be taken")
	}
	vsym.Assert(v.put(v.ids[0], vsym.Bytes("value", 600)) == nil, "put succeeds")
	vsym.Assert(v.embed(v.ids[1], vsym.Bytes("value", 7)) == nil, "embedded put succeeds")
	v.st.Close()
	vsym.FailAt(vsym.Choice("kind", 3), vsym.U64("failure"), vsym.Choice("sticky", 2) == 1)
	var err error
	var st *Storage
	_, p := vsym.Try(func() { st, err = OpenCannylsStorage(v.path) })
	vsym.Assert(!p, "opening does not crash")
	fired := vsym.Fired()
	vsym.Disarm()
	if err != nil {
		vsym.Assert(fired, "the store opens while the device works")
		vsym.Reach("failed")
		v.open()
	} else {
		v.st = st
	}
	v.checkAll()
	v.checkUsage()
	v.reopen()
	v.checkAll()
	vsym.Reach("end")
}

// VH_C29_failed_create: an attempt to create a store which fails leaves nothing
// in the way of the next one.
//bounds: any one device access of the attempt fails, once or for good; or the ratio or the size is one which is refused; then another attempt, or opening when the file is there
//outside: -
//vsym: time=60 ttime=300
func VH_C29_failed_create() {
	v := &vhStore{path: vsym.TempDir() + "/s.lusf"}
	v.ids = vhTwoIds()
	size, ratio := uint64(8*vhBlock), 0.5
	fault := false
	switch vsym.Choice("why", 4) {
	case 0:
		fault = true
		vsym.FailAt(vsym.Choice("kind", 3), vsym.U64("failure"), vsym.Choice("sticky", 2) == 1)
	case 1:
		ratio = []float64{-0.1, 1.1, 1}[vsym.Choice("ratio", 3)]
	case 2:
		size = uint64(vsym.Choice("size", 4)) * vhBlock
	case 3:
		size += 1 + uint64(vsym.Choice("odd", 2))*510
	}
	var err error
	_, p := vsym.Try(func() { v.st, err = CreateCannylsStorage(v.path, size, ratio) })
	vsym.Assert(!p, "creating does not crash")
	fired := vsym.Fired()
	vsym.Disarm()
	if err == nil {
		vsym.Assert(vsym.Or(fault, ratio == 1 || size > 2*vhBlock), "what is refused is refused")
		vsym.Reach("created")
	} else {
		vsym.Assert(!fault || fired, "a store can be created while the device works")
		vsym.Reach("refused")
		v.st, err = CreateCannylsStorage(v.path, 8*vhBlock, 0.5)
		if err != nil {
			// it was complete, only the last step did not work
			vsym.Assert(fault, "a refused creation leaves nothing behind")
			v.open()
			vsym.Reach("there already")
		}
	}
	if size >= 8*vhBlock && ratio == 0.5 {
		vsym.Assert(v.put(v.ids[0], vsym.Bytes("value", 20)) == nil, "put succeeds")
	}
	v.checkAll()
	v.reopen()
	v.checkAll()
	vsym.Reach("end")
}

// VH_C29_race: two attempts at the same moment: the second, whole, falls between
// any two accesses of the first.
//bounds: no store, or one of 4 journal sectors and 6 of data with an embedded lump of 3 bytes; the first creates a store of 8 data sectors or opens the one there; the second creates one, or opens the one there, puts an embedded lump of 3 bytes and closes it or keeps it open; the second at any opening of a file or device access of the first
//outside: more than one switch from one to the other and back; switches between other calls
//vsym: time=60 ttime=300
func VH_C29_race() {
	v := &vhStore{path: vsym.TempDir() + "/s.lusf"}
	there := vsym.Choice("there", 2) == 1
	if there {
		v = vhCreate(4, 6)
	}
	v.vhIds(2)
	if there {
		vsym.Assert(v.embed(v.ids[0], vhSmall(3)) == nil, "embedded put succeeds while there is room")
		v.st.Close()
	}
	creates, creates2, closes := vsym.Choice("creates", 2) == 1, vsym.Choice("second creates", 2) == 1, vsym.Choice("second closes", 2) == 1
	get := func(creates bool, size uint64) (*Storage, error) {
		if creates {
			return CreateCannylsStorage(v.path, size*vhBlock, 0.5)
		}
		return OpenCannylsStorage(v.path)
	}
	second := false
	vsym.Meanwhile(uint64(vsym.Choice("at", 40)), func() {
		st, err := get(creates2, 10)
		if err != nil {
			return
		}
		vsym.Reach("second")
		second = true
		v.st = st
		vsym.Assert(v.embed(v.ids[1], vhSmall(3)) == nil, "embedded put succeeds while there is room")
		if closes {
			st.Close()
			v.st = nil
		}
	})
	st, err := get(creates, 16)
	vsym.Assume(vsym.Alone())
	vsym.Assert(!(err == nil && second && !closes), "not both have the store open")
	if creates && (there || second && creates2) {
		vsym.Assert(err != nil, "no store is created in the place of one")
	}
	if err == nil {
		v.st = st
		vsym.Reach("first")
	} else {
		vsym.Assert(second || there == creates, "one of the two gets at the store")
	}
	if v.st != nil {
		v.checkAll()
		v.checkUsage()
		v.st.Close()
	}
	if there || second || err == nil {
		v.open()
		v.checkAll()
		v.checkUsage()
	}
	vsym.Reach("end")
}
