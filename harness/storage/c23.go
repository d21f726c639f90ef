package storage

import (
	"github.com/thesues/cannyls-go/internal/vsym"
	"github.com/thesues/cannyls-go/lump"
	"github.com/thesues/cannyls-go/storage/journal"
)

// VH_C23_usage: the figures after any short history, before and after reopening.
//bounds: journal of 6 sectors, data region of 3; 2 ids of any value, 3 operations (put up to 1100 bytes, embedded put of 3 bytes, delete, range delete); then close and reopen
//outside: longer histories, more ids, larger regions; the cap at the maximum lump size
//vsym: time=100 ttime=600
func VH_C23_usage() {
	v := vhCreate(6, 3)
	v.vhIds(2)
	v.checkUsage()
	n := vsym.Pick(2, 3)
	for i := 0; i < n; i++ {
		v.stepMay(1100, []int{3}, opPut, opEmbed, opDelete, opRange)
		v.checkUsage()
	}
	v.reopen()
	v.checkUsage()
	vsym.Reach("end")
}

// VH_C23_journal: the journal's figures while the journal turns round and round.
//bounds: journal of 5 sectors in any of 5 states of turning, data region of 3; 2 ids, 3 operations (thorough 4): embedded put of 300 or 3 bytes, delete, journal GC, side job, reopen
//outside: longer histories, larger journals
//vsym: time=100 ttime=600
func VH_C23_journal() {
	v := vhCreate(5, 3)
	for i := uint64(0); i < 2; i++ {
		v.ids = append(v.ids, lump.FromU64(0, 10+i))
	}
	v.turn(vsym.Choice("turn", 5))
	v.journalFigures()
	for i := 0; i < vsym.Pick(3, 4); i++ {
		switch vsym.Choice("op", 6) {
		case 0:
			v.embed(v.ids[vsym.Choice("which", 2)], vsym.Bytes("value", 300))
		case 1:
			v.embed(v.ids[0], vsym.Bytes("value", 3))
		case 2:
			v.delete(v.pick())
		case 3:
			v.st.JournalGC()
		case 4:
			v.st.RunSideJobOnce(2)
		case 5:
			v.reopen()
		}
		v.journalFigures()
	}
	v.checkUsage()
	v.reopen()
	v.journalFigures()
	v.checkUsage()
	v.checkAll()
	vsym.Reach("end")
}

func (v *vhStore) journalFigures() {
	u := v.st.Usage()
	vsym.Assert(u.JournalCapacity == 5*vhBlock, "the journal has the size it was created with")
	s := v.st.JournalSnapshot()
	ring := u.JournalCapacity - vhBlock
	n := uint64(0)
	at := s.UnreleasedHead
	lost := uint64(0)
	for _, e := range s.Entries {
		if e.Start.AsU64() != at {
			vsym.Assert(e.Start.AsU64() == 0, "a journal entry begins where the one before ends, or at the front")
			lost = ring - at
		}
		n += uint64(e.Record.ExternalSize())
		at = e.End()
	}
	if s.Tail != at {
		vsym.Assert(false, "the journal ends behind its last entry")
	}
	vsym.Assert(u.JournalUsageBytes == n+lost, "the journal usage is what its entries take")
	// every stored lump has an entry
	for _, r := range v.ref {
		found := false
		for _, e := range s.Entries {
			switch x := e.Record.(type) {
			case journal.PutRecord:
				found = found || x.LumpID == r.id
			case journal.EmbedRecord:
				found = found || (x.LumpID == r.id && len(x.Data) == len(r.data))
			}
		}
		vsym.Assert(found, "every stored lump has an entry in the journal")
	}
}

// VH_C23_large: the figures of a large data region, where the largest lump is
// the largest a store can hold at all, and of lumps of many blocks.
//bounds: data region of 65534, 65535, 65536, 70000 or 131071 blocks; a lump of 1022, 65534, 65535, 66046 or 70000 bytes (its first and last 3 any) and one of any length up to 1100; then either deleted, by its id or in a range; then reopening
//outside: more than two lumps; other lengths of the large one
//vsym: time=60 ttime=200
func VH_C23_large() {
	v := vhCreate(6, []int{65534, 65535, 65536, 70000, 131071}[vsym.Choice("region", 5)])
	v.vhIds(2)
	v.checkUsage()
	n := []int{1022, 65534, 65535, 66046, 70000}[vsym.Choice("len", 5)]
	data := make([]byte, n)
	copy(data[n-3:], vsym.Bytes("value", 3))
	copy(data, vsym.Bytes("value", 3))
	i := vsym.Choice("which", 2)
	vsym.Assert(v.put(v.ids[i], data) == nil, "put succeeds while there is room")
	vsym.Assert(v.put(v.ids[1-i], vhData(1100)) == nil, "put succeeds while there is room")
	v.checkUsage()
	switch vsym.Choice("op", 3) {
	case 0:
		v.delete(v.pick())
	case 1:
		v.deleteRange(v.ids[0], v.ids[1])
	case 2:
		v.checkAll()
	}
	v.checkUsage()
	v.reopen()
	v.checkUsage()
	v.checkAll()
	vsym.Reach("end")
}
