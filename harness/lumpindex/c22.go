package lumpindex

import (
	"github.com/thesues/cannyls-go/address"
	"github.com/thesues/cannyls-go/internal/vsym"
	"github.com/thesues/cannyls-go/lump"
	"github.com/thesues/cannyls-go/portion"
)

// VH_C22_index: a location read from the index is the one inserted, for both
// kinds, and one id's location does not disturb another's.
// bounds: two lumps with arbitrary ids, locations and kinds
func VH_C22_index() {
	x := NewIndex()
	put := func(n string) (id lump.LumpId, s uint64, l uint16, data bool) {
		id = lump.FromU64(0, vsym.U64("id"+n))
		s, l = vsym.U64("start"+n), vsym.U16("len"+n)
		vsym.Assume(s <= address.MAX_ADDRESS)
		data = vsym.Choice("kind"+n, 2) == 1
		if data {
			x.InsertDataPortion(id, portion.NewDataPortion(s, l))
		} else {
			x.InsertJournalPortion(id, portion.NewJournalPortion(s, l))
		}
		return
	}
	check := func(id lump.LumpId, s uint64, l uint16, data bool) {
		p, err := x.Get(id)
		vsym.Assert(err == nil, "an inserted id is found")
		if data {
			d, ok := p.(portion.DataPortion)
			vsym.Assert(ok, "a data location stays one")
			vsym.Assert(vsym.And(d.Start.AsU64() == s, d.Len == l), "a data location survives packing")
		} else {
			d, ok := p.(portion.JournalPortion)
			vsym.Assert(ok, "a journal location stays one")
			vsym.Assert(vsym.And(d.Start.AsU64() == s, d.Len == l), "a journal location survives packing")
		}
	}
	i1, s1, l1, k1 := put("1")
	check(i1, s1, l1, k1)
	i2, s2, l2, k2 := put("2")
	check(i2, s2, l2, k2)
	if i1.U64() != i2.U64() {
		check(i1, s1, l1, k1)
	}
	vsym.Reach("end")
}
