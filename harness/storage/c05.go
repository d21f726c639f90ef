package storage

import "github.com/thesues/cannyls-go/internal/vsym"

// VH_C05_history: any short history with journal garbage collection anywhere,
// then the index rebuilt from the journal is the one that was live.
//bounds: journal of 6 sectors, data region of 8; 2 ids of any value, one embedded lump of 300 bytes to begin with, then 3 operations (put up to 510 bytes, embedded put of 3 or 300 bytes, delete, range delete, full GC, side job); journal never full
//outside: longer histories, more ids, larger journals
//vsym: time=100 ttime=600
func VH_C05_history() {
	v := vhCreate(6, 8)
	v.vhIds(2)
	vsym.Assert(v.embed(v.ids[0], vhSmall(300)) == nil, "embedded put succeeds while there is room")
	n := vsym.Pick(3, 4)
	for i := 0; i < n; i++ {
		v.step(510, []int{3, 300}, opPut, opEmbed, opDelete, opRange, opGC, opSide)
	}
	m := v.image()
	v.checkAll()
	v.reopen()
	v.image().equal(m, "after replay")
	v.checkAll()
	vsym.Reach("end")
}

// VH_C05_steps: garbage collection one step at a time, with operations between
// the steps, never changes what the store holds, and neither does replay.
//bounds: automatic GC off; one id of any value, 3 operations (put of 1 or 2 blocks of any content, embedded put of 3 bytes, delete), then 6 steps of the side job with at most one more operation after any of them; the store is compared after every step, then reopened
//outside: longer histories, more ids
//vsym: time=100 ttime=600
func VH_C05_steps() {
	v := vhCreate(6, 8)
	v.st.SetAutomaticGcMode(false)
	v.vhIds(1)
	n := vsym.Pick(3, 4)
	for i := 0; i < n; i++ {
		v.vhSmallStep()
	}
	at := vsym.Choice("at", 7)
	for i := 0; i < 6; i++ {
		v.st.RunSideJobOnce(1)
		v.checkAll()
		v.checkUsage()
		if i == at {
			v.vhSmallStep()
		}
	}
	m := v.image()
	v.reopen()
	v.image().equal(m, "after replay")
	v.checkAll()
	v.checkUsage()
	vsym.Reach("end")
}

func (v *vhStore) vhSmallStep() {
	switch vsym.Choice("op", 4) {
	case 0:
		vsym.Assert(v.put(v.pick(), vsym.Bytes("value", 5)) == nil, "put succeeds while there is room")
	case 1:
		vsym.Assert(v.put(v.pick(), vsym.Bytes("value", 600)) == nil, "put succeeds while there is room")
	case 2:
		vsym.Assert(v.embed(v.pick(), vhSmall(3)) == nil, "embedded put succeeds while there is room")
	case 3:
		vsym.Assert(v.delete(v.pick()) == nil, "delete succeeds")
	}
}
