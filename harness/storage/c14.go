package storage

import (
	"github.com/thesues/cannyls-go/internal/vsym"
	"github.com/thesues/cannyls-go/lump"
)

// VH_C14_range: a range delete with any bounds on a store of any few lumps.
//bounds: journal of 6 sectors, data region of 6; 3 lumps of any ids, each stored as data of up to 510 bytes or embedded with 3 or 300 bytes, any start and end; GC before, after or not at all; then close and reopen
//outside: more lumps, larger journals
//vsym: time=120 ttime=600
func VH_C14_range() {
	v := vhCreate(6, 6)
	v.vhIds(3)
	for _, id := range v.ids {
		if vsym.Choice("kind", 2) == 0 {
			vsym.Assert(v.put(id, vhData(510)) == nil, "put succeeds while there is room")
		} else {
			vsym.Assert(v.embed(id, vhSmall(3, 300)) == nil, "embedded put succeeds while there is room")
		}
	}
	gc := vsym.Choice("gc", 3)
	if gc == 1 {
		v.st.JournalGC()
	}
	start, end := lump.FromU64(0, vsym.U64("start")), lump.FromU64(0, vsym.U64("end"))
	vsym.Assert(v.deleteRange(start, end) == nil, "range delete succeeds")
	v.checkAll()
	v.checkUsage()
	if gc == 2 {
		v.st.JournalGC()
	}
	m := v.image()
	v.reopen()
	v.image().equal(m, "after reopening")
	v.checkAll()
	v.checkUsage()
	vsym.Reach("end")
}

// VH_C14_fill: a range delete with the journal filled to any level: embedded
// lumps of any of several sizes before it, so that the append and the garbage
// collection it runs meet every position.
//bounds: journal of 3 sectors; up to 5 embedded puts of 3, 100 or 300 bytes to 2 ids, then a range delete of any bounds, one more put, then close and reopen; refused operations change nothing
//outside: larger journals, other sizes
//vsym: time=120 ttime=600
func VH_C14_fill() {
	v := vhCreate(3, 3)
	v.vhIds(2)
	n := vsym.Pick(3, 5)
	for i := 0; i < n; i++ {
		v.stepMay(0, []int{3, 100, 300}, opEmbed)
	}
	v.stepMay(0, nil, opRange)
	v.checkAll()
	v.stepMay(0, []int{3}, opEmbed, opSide)
	v.checkAll()
	v.reopen()
	v.checkAll()
	v.checkUsage()
	vsym.Reach("end")
}
