package storage

import (
	"github.com/thesues/cannyls-go/internal/vsym"
	"github.com/thesues/cannyls-go/lump"
	"github.com/thesues/cannyls-go/portion"
)

// vhVersion is what an id had after some operation: the number of the operation
// which stored its bytes, 0 when there are none.
type vhVersion struct {
	op    int
	at    int // the first state it is in
	data  []byte
	where portion.DataPortion
	inRow bool // in the data region
}

// vhHistory runs operations of which any may be the last one.
type vhHistory struct {
	*vhStore
	states [][]vhVersion // after each operation; the last may be of one not done
	last   lump.LumpId // larger than the ids in use
	synced int           // states before this one must not come back
	ops    int
	used   []int // per block of the data region: the last state whose lumps are in it
	power  bool  // the power fails, what is not synced may be lost
	reused bool  // a block of a lump of a state that may come back was written again
}

func (v *vhHistory) now() []vhVersion { return v.states[len(v.states)-1] }

// issue tells which state an operation leads to, before it is done.
func (v *vhHistory) issue(change func(next []vhVersion)) {
	next := append([]vhVersion(nil), v.now()...)
	change(next)
	v.states = append(v.states, next)
}

func (v *vhHistory) synchronised() { v.synced = len(v.states) - 1 }

// stored notes where the bytes of an id are.
func (v *vhHistory) stored(i int) {
	p, err := v.st.GetRecord(v.ids[i])
	if err != nil {
		return
	}
	s := v.now()
	s[i].where, s[i].inRow = *p, true
	for b := p.Start.AsU64(); b < p.Start.AsU64()+uint64(p.Len); b++ {
		for m := v.synced; m < len(v.states)-1; m++ {
			for _, w := range v.states[m] {
				if w.inRow && w.op != s[i].op && w.where.Start.AsU64() <= b && b < w.where.Start.AsU64()+uint64(w.where.Len) {
					v.reused = true
				}
			}
		}
	}
}

func (v *vhHistory) value(n int) []byte {
	v.ops++
	data := vsym.Bytes("value", n)
	data[0] = byte(v.ops)
	return data
}

// crashStep does one operation.
func (v *vhHistory) crashStep(kinds ...int) {
	kind := kinds[vsym.Choice("op", len(kinds))]
	switch kind {
	case opPut, opEmbed:
		i := vsym.Choice("which", len(v.ids))
		n := 600
		if kind == opEmbed {
			n = 400
		}
		data := v.value(n)
		v.issue(func(next []vhVersion) { next[i] = vhVersion{op: v.ops, at: len(v.states), data: data} })
		var err error
		if kind == opEmbed {
			_, err = v.st.PutEmbed(v.ids[i], append([]byte(nil), data...))
		} else {
			_, err = v.st.Put(v.ids[i], vhLumpData(data))
		}
		if err != nil {
			v.states = v.states[:len(v.states)-1]
			vsym.Reach("refused")
			return
		}
		v.stored(i)
	case opDelete:
		i := vsym.Choice("which", len(v.ids))
		v.issue(func(next []vhVersion) { next[i] = vhVersion{} })
		if _, _, err := v.st.Delete(v.ids[i]); err != nil {
			v.states = v.states[:len(v.states)-1]
			vsym.Reach("refused")
		}
	case opRange:
		v.issue(func(next []vhVersion) {
			for i := range next {
				next[i] = vhVersion{}
			}
		})
		if err := v.st.DeleteRange(v.ids[0], v.last, vsym.Bool("data portions")); err != nil {
			v.states = v.states[:len(v.states)-1]
			vsym.Reach("refused")
		}
	case opGC:
		v.st.JournalGC()
	case opSide:
		v.st.RunSideJobOnce(1)
	case opSync:
		v.st.Sync()
		v.synchronised()
	}
}

// recovered opens the store after a stop and compares it with the states that
// may come back.
func (v *vhHistory) recovered() {
	if v.power {
		vsym.PowerOff()
	} else {
		vsym.Reboot()
	}
	v.open()
	got := make([]int, len(v.ids))
	data := make([][]byte, len(v.ids))
	where := make([]portion.DataPortion, len(v.ids))
	l := v.st.List()
	n := 0
	for i, id := range v.ids {
		b, err := v.st.Get(id)
		if err != nil {
			_, err = v.st.GetSize(id)
			vsym.Assert(err != nil, "get of a listed id succeeds")
			continue
		}
		n++
		data[i] = b
		if p, err := v.st.GetRecord(id); err == nil {
			where[i] = *p
		}
	}
	vsym.Assert(len(l) == n, "the ids listed are those which can be got")
	// which state is it: the marks of the bytes tell, or the places when blocks
	// may have been written again
	state := -1
	for m := len(v.states) - 1; m >= v.synced && state < 0; m-- {
		state = m
		for i, w := range v.states[m] {
			if !v.matches(w, data[i], where[i]) {
				state = -1
				break
			}
		}
	}
	vsym.Assert(state >= 0, "the store is as after some operation not before the last sync")
	for i, w := range v.states[state] {
		got[i] = w.op
		if w.op == 0 {
			continue
		}
		if v.power && w.inRow && w.at > v.synced {
			// its bytes may be lost, although the journal has it
			v.states[state][i].data = data[i]
			continue
		}
		if v.reused {
			// known weakness, see DESIGN.md
			vsym.AssertSame(data[i], w.data, "a lump has the bytes it had (blocks freed after the sync were written again)")
		} else {
			vsym.AssertSame(data[i], w.data, "a lump has the bytes it had")
		}
	}
	if state < len(v.states)-1 {
		vsym.Reach("went back")
	}
	for i, w := range v.states[state] {
		if w.op > 0 {
			v.set(v.ids[i], w.data, where[i] == portion.DataPortion{})
		}
	}
	v.checkUsage()
	// and goes on working
	v.ids = append(v.ids, v.last)
	if v.embed(v.last, []byte{1, 2, 3}) == nil {
		v.reopen()
	}
	v.checkAll()
}

func (v *vhHistory) matches(w vhVersion, data []byte, where portion.DataPortion) bool {
	if w.op == 0 || data == nil {
		return (w.op == 0) == (data == nil)
	}
	if (v.reused || v.power) && w.inRow {
		return where == w.where
	}
	return len(data) == len(w.data) && data[0] == w.data[0]
}

func vhCrash(j, d, ids int) *vhHistory {
	v := &vhHistory{vhStore: vhCreate(j, d)}
	v.vhIds(ids + 1)
	v.ids, v.last = v.ids[:ids], v.ids[ids]
	v.states = [][]vhVersion{make([]vhVersion, ids)}
	return v
}

// VH_C06_stop: the process stops at any change of the device, in the middle of
// any short history; the store opens again as it was after some operation not
// before the last sync.
//bounds: journal of 5 sectors (4 for records) which begins at one of 2 places, so that it wraps; data region of 5; 2 ids of any value; one lump put and synced, then 3 operations (4 thorough) of put of 600 bytes, embedded put of 400, delete, range delete of all, sync, full GC, side job, with automatic GC; stop at any write; then an embedded put and reopening
//outside: device writes torn or reordered; longer histories; lumps whose blocks were freed after the last sync and written again (known finding)
//vsym: time=150 ttime=900
func VH_C06_stop() {
	v := vhCrash(5, 5, 2)
	v.turn(3 * vsym.Choice("turn", 2))
	v.crashStep(opPut)
	v.st.Sync()
	v.synchronised()
	vsym.CrashAt(vsym.U64("stop"))
	n := vsym.Pick(3, 4)
	_, stopped := vsym.Try(func() {
		for i := 0; i < n; i++ {
			v.crashStep(opPut, opEmbed, opDelete, opRange, opSync, opGC, opSide)
		}
	})
	vsym.Assert(stopped == vsym.Fired(), "nothing crashes")
	if stopped {
		vsym.Reach("stopped")
	}
	vsym.Disarm()
	v.recovered()
	vsym.Reach("end")
}
