package storage

import (
	"github.com/thesues/cannyls-go/internal/vsym"
	"github.com/thesues/cannyls-go/lump"
)

// VH_C13_reopen: any short history, then close (or sync and stop) and open, twice.
//bounds: journal of 8 sectors, data region of 4; 2 ids of any value, 2 operations (3 thorough) of put up to 1100 bytes, embedded put of 3 bytes, delete, range delete, full GC, side job; then stop after sync or close, reopen, reopen again, store the largest lump that fits
//outside: longer histories, more ids, larger regions
//vsym: time=120 ttime=600
func VH_C13_reopen() {
	v := vhCreate(8, 4)
	v.vhIds(2)
	n := vsym.Pick(2, 3)
	for i := 0; i < n; i++ {
		v.stepMay(1100, []int{3}, opPut, opEmbed, opDelete, opRange, opGC, opSide)
	}
	v.vhReopenSame()
	vsym.Reach("end")
}

func (v *vhStore) vhReopenSame() {
	m, u := v.image(), v.st.Usage()
	if vsym.Choice("stop", 2) == 0 {
		v.st.Close()
	} else {
		v.st.Sync()
		vsym.Reboot()
	}
	v.open()
	same := func() {
		v.image().equal(m, "after reopening")
		w := v.st.Usage()
		vsym.Assert(w.FileCounts == u.FileCounts, "the number of lumps is as before")
		vsym.Assert(w.DataFreeBytes == u.DataFreeBytes, "the free space is as before")
		vsym.Assert(w.MaxSegmentSize == u.MaxSegmentSize, "the largest storable lump is as before")
		vsym.Assert(w.DataCapacity == u.DataCapacity && w.JournalCapacity == u.JournalCapacity, "the capacities are as before")
		v.checkAll()
	}
	same()
	v.reopen()
	same()
	if u.MaxSegmentSize > 0 {
		id := lump.FromU64(0, vsym.U64("new"))
		for _, o := range v.ids {
			vsym.Assume(o != id)
		}
		v.ids = append(v.ids, id)
		vsym.Assert(v.put(id, vsym.Bytes("value", int(u.MaxSegmentSize))) == nil, "the largest lump that fits can be stored")
		for _, o := range v.ids {
			v.check(o)
		}
		if len(v.ref) > 1 {
			v.checkUsage()
		}
	}
}
