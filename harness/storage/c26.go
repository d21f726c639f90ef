package storage

import (
	"github.com/thesues/cannyls-go/internal/vsym"
	"github.com/thesues/cannyls-go/lump"
)

// VH_C26_data_full: operations on a store whose data region is small are refused
// without effect.
//bounds: journal of 6 sectors, data region of 3; 2 ids of any value, 3 operations (put up to 1100 bytes, embedded put of 3 bytes, delete); then close and reopen
//outside: longer histories, more ids, larger regions
//vsym: time=100 ttime=600
func VH_C26_data_full() {
	v := vhCreate(6, 3)
	v.vhIds(2)
	n := vsym.Pick(3, 4)
	for i := 0; i < n; i++ {
		v.stepMay(1100, []int{3}, opPut, opEmbed, opDelete)
	}
	v.checkAll()
	v.checkUsage()
	v.reopen()
	v.checkAll()
	v.checkUsage()
	vsym.Reach("end")
}

// VH_C26_journal_full: operations on a store whose journal is small.
//bounds: journal of 3 sectors, data region of 4; 2 ids of any value, 4 operations (put of 1 block, embedded put of 3 or 300 bytes, delete, range delete, full GC); then close and reopen
//outside: longer histories, more ids, larger regions
//vsym: time=100 ttime=600
func VH_C26_journal_full() {
	v := vhCreate(3, 4)
	v.vhIds(2)
	vsym.Assert(v.embed(v.ids[0], vhSmall(300)) == nil, "embedded put succeeds while there is room")
	n := vsym.Pick(3, 4)
	for i := 0; i < n; i++ {
		v.stepMay(510, []int{3, 300}, opPut, opEmbed, opDelete, opRange, opGC)
	}
	v.checkAll()
	v.checkUsage()
	v.reopen()
	v.checkAll()
	v.checkUsage()
	vsym.Reach("end")
}

// VH_C26_no_record: every operation which needs a record the journal has no room
// for is refused without effect, also the smallest.
//bounds: journal of 3 sectors filled up by lumps (a data lump, embedded ones of 300 bytes, then of 0) until it refuses one, data region of 4; fixed ids and contents; automatic GC or not; then 2 operations (3 thorough) of put of 1 block, embedded put of 0 bytes, delete, range delete of two ids, partial put of 3 bytes, on the data lump, the first and the last embedded lump or a new id; every id and figure after each; then close and reopen
//outside: longer histories, larger regions, other ids
//vsym: time=90 ttime=600
func VH_C26_no_record() {
	v := vhCreate(3, 4)
	v.st.SetAutomaticGcMode(vsym.Choice("gc", 2) == 1)
	id := func(i int) lump.LumpId { return lump.FromU64(0, 10+uint64(i)) }
	v.ids = append(v.ids, id(0))
	vsym.Assert(v.put(id(0), vsym.Bytes("value", 20)) == nil, "put succeeds while there is room")
	n := 1
	for _, size := range []int{300, 0} {
		for v.embed(id(n), make([]byte, size)) == nil {
			v.ids = append(v.ids, id(n))
			n++
		}
	}
	v.ids = append(v.ids, id(n))
	which := []lump.LumpId{id(0), id(1), id(n - 1), id(n)}
	for i := 0; i < vsym.Pick(2, 3); i++ {
		a := which[vsym.Choice("which", 4)]
		var err error
		switch vsym.Choice("op", 5) {
		case 0:
			err = v.put(a, vsym.Bytes("value", 3))
		case 1:
			err = v.embed(a, nil)
		case 2:
			err = v.delete(a)
		case 3:
			err = v.deleteRange(a, lump.FromU64(0, a.U64()+2))
		case 4:
			if v.at(a) < 0 {
				if err = v.st.PutWithOffset(a, vhLumpData([]byte("abc")), 0, 0); err == nil {
					v.set(a, []byte("abc"), false)
				}
			}
		}
		if err != nil {
			vsym.Reach("refused")
		}
		v.checkAll()
		v.checkUsage()
	}
	v.reopen()
	v.checkAll()
	v.checkUsage()
	vsym.Reach("end")
}

// VH_C26_too_large: a value beyond the limits is refused without effect.
//bounds: journal of 3 sectors, data region of 4; values just beyond 65535 bytes (embedded) and the maximum lump size, any content
//outside: other sizes beyond the limits
func VH_C26_too_large() {
	v := vhCreate(3, 4)
	v.vhIds(1)
	id := v.ids[0]
	if vsym.Choice("before", 2) == 1 {
		vsym.Assert(v.put(id, vhData(510)) == nil, "put succeeds while there is room")
	}
	if vsym.Choice("kind", 2) == 0 {
		err := v.embed(id, vhSmall(0x10000, 0x10003))
		vsym.Assert(err != nil, "an embedded value longer than the limit is refused")
	} else {
		n := lump.LUMP_MAX_SIZE + 1 + vsym.Choice("more", 2)*510
		err := v.put(id, vsym.Bytes("value", n))
		vsym.Assert(err != nil, "a value longer than the limit is refused")
	}
	v.checkAll()
	v.checkUsage()
	v.reopen()
	v.checkAll()
	v.checkUsage()
	vsym.Reach("end")
}

// VH_C26_embed_limit: embedded values around the largest length a record can tell
// are stored as they are or refused, in a journal with room for them.
//bounds: journal of 400 sectors, data region of 4; 2 ids of any value, one with an embedded value of 3 bytes; then an embedded put of 65534, 65535, 65536, 65600 or 131100 bytes, the last 4 any, to either; then reopening, or a side job and a full GC
//outside: other lengths of that size
//vsym: time=60 ttime=200
func VH_C26_embed_limit() {
	v := vhCreate(400, 4)
	v.vhIds(2)
	vsym.Assert(v.embed(v.ids[0], vsym.Bytes("value", 3)) == nil, "embedded put succeeds while there is room")
	n := []int{65534, 65535, 65536, 65600, 131100}[vsym.Choice("len", 5)]
	data := make([]byte, n)
	copy(data[n-4:], vsym.Bytes("value", 4))
	data[0], data[n-70] = 1, 2
	if v.embed(v.pick(), data) != nil {
		vsym.Reach("refused")
		vsym.Assert(n > 65535, "an embedded value a record can tell is stored")
	}
	v.checkAll()
	if vsym.Choice("gc", 2) == 1 {
		v.st.RunSideJobOnce(1)
		v.st.JournalGC()
		v.checkAll()
	}
	v.reopen()
	v.checkAll()
	v.checkUsage()
	vsym.Reach("end")
}
