package storage

import (
	"github.com/thesues/cannyls-go/internal/vsym"
	"github.com/thesues/cannyls-go/lump"
)

// vhAnyStep does any one operation of the interface and compares its result
// with what the map says; there is room for all of them.
func (v *vhStore) vhAnyStep(max int) {
	switch vsym.Choice("op", 8) {
	case 0:
		vsym.Assert(v.put(v.pick(), vhData(max)) == nil, "put succeeds while there is room")
	case 1:
		vsym.Assert(v.embed(v.pick(), vhSmall(0, 60)) == nil, "embedded put succeeds while there is room")
	case 2:
		vsym.Assert(v.delete(v.pick()) == nil, "delete succeeds")
	case 3:
		a, b := lump.FromU64(0, vsym.U64("from")), lump.FromU64(0, vsym.U64("to"))
		vsym.Assert(v.deleteRange(a, b) == nil, "range delete succeeds")
	case 4:
		v.vhOffsetPut(v.pick())
	case 5:
		v.st.JournalGC()
	case 6:
		v.st.RunSideJobOnce(1)
	case 7:
		// an id nothing was ever done with
		id := lump.FromU64(0, vsym.U64("other"))
		for _, o := range v.ids {
			vsym.Assume(o != id)
		}
		v.check(id)
		vsym.Assert(v.delete(id) == nil, "delete succeeds")
	}
}

// vhOffsetPut writes four bytes at an offset of a lump, which is created when
// it does not exist.
func (v *vhStore) vhOffsetPut(id lump.LumpId) {
	start := []uint32{0, 5, 510}[vsym.Choice("start", 3)]
	pay := vsym.Bytes("payload", 4)
	err := v.st.PutWithOffset(id, vhLumpData(append([]byte(nil), pay...)), start, 9)
	i := v.at(id)
	if i < 0 {
		vsym.Assert(err == nil, "a lump can be created at an offset")
		size := start + 4
		if size < 9 {
			size = 9
		}
		data := make([]byte, size)
		copy(data[start:], pay)
		v.set(id, data, false)
		vsym.Reach("created at an offset")
		return
	}
	r := &v.ref[i]
	if r.embed {
		vsym.Assert(err != nil, "an embedded lump is not updated in place")
		return
	}
	if uint64(start)+4 > uint64(len(r.data)) {
		vsym.Assert(err != nil, "an update beyond the end of the lump is refused")
		return
	}
	vsym.Assert(err == nil, "an update inside the lump succeeds")
	r.data = append([]byte(nil), r.data...)
	copy(r.data[start:], pay)
	vsym.Reach("updated in place")
}

func vhC12(n, max int) {
	v := vhCreate(6, 10)
	v.vhIds(2)
	for i := 0; i < n; i++ {
		v.vhAnyStep(max)
		if i == n-2 {
			// what is read in between has no effect on what comes
			v.checkAll()
		}
	}
	v.checkAll()
	v.checkUsage()
	vsym.Reach("end")
}

// VH_C12_ops: every operation answers, and leaves the store, as the map of ids
// to bytes does.
//bounds: journal of 6 sectors, data region of 10; 2 ids of any value and a third never used; 2 operations (3 thorough) of put of any length up to 1200 bytes, embedded put of 0 or 60, delete, range delete of any bounds, write of 4 bytes at offset 0, 5 or 510, full GC, side job, each with its answer; then every id, the list and the figures
//outside: longer histories, more ids, larger values; what is refused (C26)
//vsym: time=100 ttime=600
func VH_C12_ops() { vhC12(vsym.Pick(2, 3), 1200) }

// VH_C12_long: longer histories of values of one length.
//bounds: as VH_C12_ops with 2 ids; 4 operations (5 thorough) of put of 20 bytes, embedded put of 60, delete, full GC; every id after every operation
//outside: longer histories, more ids
//vsym: time=100 ttime=600
func VH_C12_long() {
	v := vhCreate(6, 10)
	v.vhIds(2)
	n := vsym.Pick(4, 5)
	for i := 0; i < n; i++ {
		switch vsym.Choice("op", 4) {
		case 0:
			vsym.Assert(v.put(v.pick(), vsym.Bytes("value", 20)) == nil, "put succeeds while there is room")
		case 1:
			vsym.Assert(v.embed(v.pick(), vhSmall(60)) == nil, "embedded put succeeds while there is room")
		case 2:
			vsym.Assert(v.delete(v.pick()) == nil, "delete succeeds")
		case 3:
			v.st.JournalGC()
		}
		v.checkAll()
	}
	v.checkUsage()
	vsym.Reach("end")
}

// VH_C12_large: the operations on lumps around the 16-bit limits and of the
// largest size.
//bounds: journal of 300 sectors; a lump of 65024, 65534, 65535, 66000 or 131070 bytes or of the maximum size, of any content, or embedded of 65000 or 65535 bytes of which the last 4 are any, next to a small one; two (one for the maximum size) of: delete, overwrite with 600 bytes, with 65600, embedded with 60, range delete, write of 4 bytes at the end, reopening
//outside: other sizes
//vsym: time=60 ttime=200
func VH_C12_large() {
	sizes := []int{65024, 65534, 65535, 66000, 131070, lump.LUMP_MAX_SIZE, 65000, 65535}
	k := vsym.Choice("size", len(sizes))
	n := sizes[k]
	room := (n+2+vhBlock-1)/vhBlock + 2
	v := vhCreate(300, room+130)
	v.vhIds(2)
	a, b := v.ids[0], v.ids[1]
	vsym.Assert(v.put(b, vsym.Bytes("other", 20)) == nil, "put succeeds while there is room")
	if k < 6 {
		vsym.Assert(v.put(a, vsym.Bytes("value", n)) == nil, "put succeeds while there is room")
	} else {
		d := make([]byte, n)
		copy(d[n-4:], vsym.Bytes("value", 4))
		vsym.Assert(v.embed(a, d) == nil, "embedded put succeeds while there is room")
	}
	v.checkAll()
	v.checkUsage()
	for i := 0; i < 2-k%6/5; i++ {
		switch vsym.Choice("op", 7) {
		case 0:
			vsym.Assert(v.delete(a) == nil, "delete succeeds")
		case 1:
			vsym.Assert(v.put(a, vsym.Bytes("value", 600)) == nil, "put succeeds while there is room")
		case 2:
			vsym.Assert(v.put(a, vsym.Bytes("value", 65600)) == nil, "put succeeds while there is room")
		case 3:
			vsym.Assert(v.embed(a, vsym.Bytes("value", 60)) == nil, "embedded put succeeds while there is room")
		case 4:
			vsym.Assert(v.deleteRange(a, b) == nil, "range delete succeeds")
		case 5:
			j := v.at(a)
			if j < 0 || v.ref[j].embed {
				continue
			}
			d := append([]byte(nil), v.ref[j].data...)
			start := len(d) - 4
			pay := vsym.Bytes("payload", 4)
			vsym.Assert(v.st.PutWithOffset(a, vhLumpData(append([]byte(nil), pay...)), uint32(start), 0) == nil, "an update inside the lump succeeds")
			copy(d[start:], pay)
			v.ref[j].data = d
		case 6:
			v.reopen()
		}
		v.checkAll()
	}
	v.checkUsage()
	vsym.Reach("end")
}
