package storage

import (
	"io"

	"github.com/pkg/errors"
	"github.com/thesues/cannyls-go/internal/vsym"
	"github.com/thesues/cannyls-go/internalerror"
	"github.com/thesues/cannyls-go/lump"
	"github.com/thesues/cannyls-go/nvm"
)

// Concurrent calls. Each thread makes one call; the results of all of them and
// the lumps afterwards have to be those of the calls made one after the other
// in some order.

const (
	cPut = iota
	cEmbed
	cDelete
	cOffset // PutWithOffset
	cRange
	cGC
	cSide
	cSync
	cClose
	cGet
	cSize
	cPart // GetWithOffset
	cList
	cMin
	cMax
	cFirst
	cEmpty
	cDisk
	cUsage
	cRecord
	cListRange
	cJournal
	cFlush
	cAuto
	cSnap
	cUnsnap
	cReader
	cAlloc
)

// vhCall is one call: what, on which id, with which value.
type vhCall struct {
	op  int
	id  int
	val []byte
}

// vhOut is what a call returned.
type vhOut struct {
	failed, closed bool
	yes            bool
	n              uint64
	data           []byte
	ids            []lump.LumpId
}

// vhSpec is the state a call is specified on: the value of each id, nil when it
// is absent.
type vhSpec struct {
	vals   [3][]byte
	embed  [3]bool
	closed bool
}

const vhPartOff, vhPartLen = 1, 3

func (c vhCall) do(v *vhStore) (o vhOut) {
	id := v.ids[c.id]
	var err error
	st := v.st
	switch c.op {
	case cPut:
		o.yes, err = st.Put(id, vhLumpData(c.val))
	case cEmbed:
		o.yes, err = st.PutEmbed(id, c.val)
	case cDelete:
		o.yes, _, err = st.Delete(id)
	case cOffset:
		err = st.PutWithOffset(id, vhLumpData(c.val[:vhPartLen]), vhPartOff, 6)
	case cRange:
		err = st.DeleteRange(v.ids[0], v.ids[2], true)
	case cGC:
		st.JournalGC()
	case cSide:
		st.RunSideJobOnce(1)
	case cSync:
		st.Sync()
	case cFlush:
		st.Flush()
	case cClose:
		st.Close()
	case cGet:
		o.data, err = st.Get(id)
	case cSize:
		var n uint32
		n, err = st.GetSize(id)
		o.n = uint64(n)
	case cPart:
		o.data, err = st.GetWithOffset(id, vhPartOff, vhPartLen)
	case cList:
		o.ids = st.List()
	case cListRange:
		o.ids = st.ListRange(v.ids[0], v.ids[2], 10)
	case cMin:
		var l lump.LumpId
		l, o.yes = st.MinId()
		o.n = l.U64()
	case cMax:
		var l lump.LumpId
		l, o.yes = st.MaxId()
		o.n = l.U64()
	case cFirst:
		var l lump.LumpId
		l, err = st.First(id)
		o.n = l.U64()
	case cEmpty:
		var l lump.LumpId
		l, o.yes = st.GenerateEmptyId()
		o.n = l.U64()
	case cDisk:
		var n uint32
		n, err = st.GetSizeOnDisk(id)
		o.n = uint64(n)
	case cRecord:
		_, err = st.GetRecord(id)
	case cUsage:
		u := st.Usage()
		o.n = u.FileCounts<<32 | u.DataFreeBytes/vhBlock
	case cJournal:
		st.JournalSnapshot()
	case cAuto:
		st.SetAutomaticGcMode(true)
	case cSnap:
		err = st.CreateSnapshot()
	case cUnsnap:
		err = st.DeleteSnapshot()
	case cReader:
		_, err = st.GetSnapshotReader()
	case cAlloc:
		o.n = uint64(len(st.GetAllocationStatus()))
	}
	o.failed = err != nil
	o.closed = err != nil && errors.Cause(err) == internalerror.StorageClosed
	return
}

func (s vhSpec) blocks() uint64 {
	n := uint64(0)
	for i, x := range s.vals {
		if x != nil && !s.embed[i] {
			n += (uint64(len(x)) + 2 + vhBlock - 1) / vhBlock
		}
	}
	return n
}

// run is the specification of a call.
func (c vhCall) run(v *vhStore, s vhSpec, total uint64) (vhSpec, vhOut) {
	var o vhOut
	have := s.vals[c.id] != nil
	if s.closed {
		switch c.op {
		case cPut, cEmbed, cDelete, cOffset, cRange, cGet, cSize, cPart, cFirst, cDisk, cRecord, cSnap, cUnsnap, cReader:
			o.failed, o.closed = true, true
		}
		return s, o
	}
	switch c.op {
	case cPut:
		o.yes = have
		s.vals[c.id], s.embed[c.id] = c.val, false
	case cEmbed:
		o.yes = have
		s.vals[c.id], s.embed[c.id] = c.val, true
	case cDelete:
		o.yes = have
		s.vals[c.id] = nil
	case cOffset:
		switch {
		case !have:
			x := make([]byte, 6)
			copy(x[vhPartOff:], c.val[:vhPartLen])
			s.vals[c.id], s.embed[c.id] = x, false
		case s.embed[c.id]:
			o.failed = true
		default:
			x := append([]byte(nil), s.vals[c.id]...)
			copy(x[vhPartOff:], c.val[:vhPartLen])
			s.vals[c.id] = x
		}
	case cRange:
		s.vals[0], s.vals[1] = nil, nil
	case cClose:
		s.closed = true
	case cGet:
		o.failed = !have
		o.data = s.vals[c.id]
	case cSize:
		o.failed = !have
		o.n = uint64(len(s.vals[c.id]))
	case cPart:
		o.failed = !have
		if have {
			o.data = s.vals[c.id][vhPartOff : vhPartOff+vhPartLen]
		}
	case cList, cListRange:
		for i, x := range s.vals {
			if x != nil && (c.op == cList || i < 2) {
				o.ids = append(o.ids, v.ids[i])
			}
		}
	case cMin, cFirst:
		from := 0
		if c.op == cFirst {
			from = c.id
		}
		for i := 2; i >= from; i-- {
			if s.vals[i] != nil {
				o.n, o.yes = v.ids[i].U64(), true
			}
		}
		if c.op == cFirst {
			o.failed, o.yes = !o.yes, false
		}
	case cMax, cEmpty:
		for i := 0; i < 3; i++ {
			if s.vals[i] != nil {
				o.n, o.yes = v.ids[i].U64(), true
			}
		}
		if c.op == cEmpty {
			if o.yes {
				o.n++
			}
			o.yes = true
		}
	case cDisk:
		o.failed = !have
		if have {
			o.n = uint64(len(s.vals[c.id]))
			if !s.embed[c.id] {
				o.n = (o.n + 2 + vhBlock - 1) / vhBlock * vhBlock
			}
		}
	case cRecord:
		o.failed = !have || s.embed[c.id]
	case cUsage:
		n := uint64(0)
		for _, x := range s.vals {
			if x != nil {
				n++
			}
		}
		o.n = n<<32 | (total - s.blocks())
	}
	return s, o
}

// same says whether the call returned what the specification says.
func (c vhCall) same(v *vhStore, s vhSpec, got, want vhOut) bool {
	if got.failed != want.failed || got.closed != want.closed {
		return false
	}
	if s.closed && c.op == cUsage {
		return true // the figures of a closed store mean nothing
	}
	if c.op == cReader || c.op == cUnsnap || c.op == cSnap {
		return true
	}
	if got.failed {
		return true
	}
	if got.yes != want.yes || len(got.data) != len(want.data) || len(got.ids) != len(want.ids) {
		return false
	}
	for i := range got.ids {
		if got.ids[i] != want.ids[i] {
			return false
		}
	}
	if c.op == cUsage {
		// the figures are read one by one, and a range delete counts down
		return got.n>>32 <= 3 && got.n&0xffffffff <= 16
	}
	if got.n != want.n {
		return false
	}
	return vsym.Same(got.data, want.data)
}

// vhConcurrent is a store with a lump in the data region, an embedded one and
// an id without a lump.
func vhConcurrent() (*vhStore, vhSpec) {
	v := vhCreate(8, 16)
	for i := uint64(0); i < 3; i++ {
		v.ids = append(v.ids, lump.FromU64(0, 10+i))
	}
	var s vhSpec
	s.vals[0] = vsym.Bytes("before", 600)
	s.vals[1] = vsym.Bytes("before", 9)
	s.embed[1] = true
	vsym.Assert(v.put(v.ids[0], s.vals[0]) == nil, "put succeeds")
	vsym.Assert(v.embed(v.ids[1], s.vals[1]) == nil, "embedded put succeeds")
	return v, s
}

func vhMakeCall(op int, id int) vhCall {
	c := vhCall{op: op, id: id}
	switch op {
	case cPut:
		c.val = vsym.Bytes("value", 20)
	case cEmbed, cOffset:
		c.val = vsym.Bytes("value", 7)
	}
	return c
}

func vhHasId(op int) bool {
	switch op {
	case cPut, cEmbed, cDelete, cOffset, cGet, cSize, cPart, cDisk, cRecord, cFirst:
		return true
	}
	return false
}

// vhIdFor picks the id of a call.
func vhIdFor(op int) int {
	if !vhHasId(op) {
		return 0
	}
	return vsym.Choice("which", 3)
}

// vhSecond picks the id of a call next to another one: the same id, or one
// other than that.
func vhSecond(op int, first vhCall) int {
	if !vhHasId(op) {
		return 0
	}
	if !vhHasId(first.op) {
		return vsym.Choice("which", 2)
	}
	if vsym.Choice("other", 2) == 0 {
		return first.id
	}
	return (first.id + 1) % 3
}

// vhThreads makes the calls concurrently and compares with every order.
func vhThreads(v *vhStore, s vhSpec, calls []vhCall) { vhThreadsIn(v, s, calls, 16) }

func vhThreadsIn(v *vhStore, s vhSpec, calls []vhCall, total uint64) {
	outs := make([]vhOut, len(calls))
	crash := make([]bool, len(calls))
	vsym.Schedules(true)
	for i := range calls {
		i := i
		vsym.Go(func() {
			_, crash[i] = vsym.Try(func() { outs[i] = calls[i].do(v) })
		})
	}
	vsym.Join()
	vsym.Schedules(false)
	for i := range calls {
		vsym.Assert(!crash[i], "no call crashes")
	}
	closed := false
	for _, c := range calls {
		closed = closed || c.op == cClose
	}
	if closed {
		v.open()
	}
	var got [3]vhOut
	for i := range v.ids {
		got[i] = vhCall{op: cGet, id: i}.do(v)
	}
	var usage vhOut
	if u := v.st.Usage(); true {
		usage.n = u.FileCounts<<32 | u.DataFreeBytes/vhBlock
	}
	list := vhCall{op: cList}.do(v)
	ok := false
	match := func(order []int) {
		x := s
		good := true
		for _, k := range order {
			before := x
			var want vhOut
			x, want = calls[k].run(v, x, total)
			if good {
				good = calls[k].same(v, before, outs[k], want)
			}
		}
		x.closed = false
		for i := range v.ids {
			_, want := vhCall{op: cGet, id: i}.run(v, x, total)
			if good {
				good = vhCall{op: cGet}.same(v, x, got[i], want)
			}
		}
		_, want := vhCall{op: cUsage}.run(v, x, total)
		if good {
			good = usage.n == want.n
		}
		_, want = vhCall{op: cList}.run(v, x, total)
		if good {
			good = vhCall{op: cList}.same(v, x, list, want)
		}
		ok = ok || good
	}
	switch len(calls) {
	case 2:
		match([]int{0, 1})
		if !ok {
			match([]int{1, 0})
		}
	case 3:
		for _, o := range [][]int{{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}} {
			if !ok {
				match(o)
			}
		}
	}
	vsym.Assert(ok, "the results and the lumps afterwards are those of the calls made one after the other")
	vsym.Reach("done")
}

// Two threads change the store: every interleaving at the locks with at most so
// many preemptions.
// bounds: a store with a data lump of 600 bytes, an embedded one of 9 and a free id; two calls out of put, embedded put, delete, partial put, range delete, journal GC, side job, sync and close; all contents; switches at lock operations, one preemption (quick) or two (thorough)
// outside: more threads, calls and preemptions; switches between lock operations (covered by reporting data races)
// vsym: races switches=1 tswitches=2 time=150 ttime=1500
func VH_C25_writes() {
	ops := []int{cPut, cEmbed, cDelete, cOffset, cRange, cGC, cSide, cSync, cClose}
	a := vsym.Choice("a", len(ops))
	b := vsym.Choice("b", len(ops))
	vsym.Assume(a <= b)
	v, s := vhConcurrent()
	x := vhMakeCall(ops[a], vhIdFor(ops[a]))
	y := vhMakeCall(ops[b], vhSecond(ops[b], x))
	vhThreads(v, s, []vhCall{x, y})
}

// One thread changes the store while another one queries it.
// bounds: as VH_C25_writes, one of the calls a query
// vsym: races switches=1 tswitches=2 time=150 ttime=1500
func VH_C25_reads() {
	ws := []int{cPut, cEmbed, cDelete, cOffset, cRange, cGC, cSide, cClose}
	rs := []int{cGet, cSize, cPart, cList, cMin, cMax, cFirst, cEmpty, cDisk, cUsage, cRecord, cListRange, cJournal, cFlush, cAuto, cAlloc}
	a := ws[vsym.Choice("a", len(ws))]
	b := rs[vsym.Choice("b", len(rs))]
	v, s := vhConcurrent()
	x := vhMakeCall(a, vhIdFor(a))
	y := vhMakeCall(b, vhSecond(b, x))
	vhThreads(v, s, []vhCall{x, y})
}

// Every two calls next to each other, the first to run is run to its end (or to
// where it blocks): the order of the locks and what they do not protect.
// bounds: the calls of VH_C25_writes and VH_C25_reads in all pairs with one that changes the store; ids as there; no preemption
// vsym: races switches=0 time=200 ttime=600
func VH_C25_pairs() {
	ws := []int{cPut, cEmbed, cDelete, cOffset, cRange, cGC, cSide, cSync, cClose}
	all := append(append([]int{}, ws...), cGet, cSize, cPart, cList, cMin, cMax, cFirst, cEmpty, cDisk, cUsage, cRecord, cListRange, cJournal, cFlush, cAuto, cAlloc)
	b := vsym.Choice("b", len(all))
	a := vsym.Choice("a", len(ws))
	vsym.Assume(b >= len(ws) || a <= b)
	v, s := vhConcurrent()
	x := vhMakeCall(ws[a], vhIdFor(ws[a]))
	y := vhMakeCall(all[b], vhSecond(all[b], x))
	vhThreads(v, s, []vhCall{x, y})
}

// vhCopy is the content of the snapshot, in a store of its own.
func vhCopy(v *vhStore, name string) *vhStore {
	r, err := v.st.GetSnapshotReader()
	vsym.Assert(err == nil, "the snapshot can be read")
	h := v.st.Header()
	buf := make([]byte, h.StorageSize()+1)
	n := 0
	for {
		k, err := r.Read(buf[n:])
		n += k
		if err == io.EOF {
			break
		}
		vsym.Assert(err == nil && k > 0, "the snapshot can be read to its end")
	}
	c := &vhStore{path: vsym.TempDir() + name, ids: v.ids}
	vsym.WriteFile(c.path, buf[:n])
	c.open()
	return c
}

// vhShows compares the lumps of a store with a state.
func vhShows(v *vhStore, x vhSpec) bool {
	for i := range v.ids {
		q := vhCall{op: cGet, id: i}
		_, want := q.run(v, x, 16)
		if !q.same(v, x, q.do(v), want) {
			return false
		}
	}
	q := vhCall{op: cUsage}
	_, want := q.run(v, x, 16)
	u := v.st.Usage()
	return u.FileCounts<<32|u.DataFreeBytes/vhBlock == want.n
}

// One thread takes a snapshot, reads it or deletes it while another one changes
// the store: the snapshot shows the lumps before or after the change, and the
// store those after it.
// bounds: as VH_C25_writes, one of the calls one of taking a snapshot, reading one taken before to its end, deleting it; 1 region of 1 MiB
// vsym: races switches=1 tswitches=2 time=150 ttime=1500
func VH_C25_snapshots() {
	nvm.DEFAULT_REGION_SHIFT = 20
	ws := []int{cPut, cEmbed, cDelete, cOffset, cRange, cGC, cSync, cGet}
	a := ws[vsym.Choice("a", len(ws))]
	kind := vsym.Choice("snapshot", 3)
	v, s := vhConcurrent()
	x := vhMakeCall(a, vhIdFor(a))
	after, want := x.run(v, s, 16)
	if kind > 0 {
		vsym.Assert(v.st.CreateSnapshot() == nil, "a snapshot can be taken")
	}
	var out vhOut
	var crash [2]bool
	var err error
	var c *vhStore
	var buf []byte
	var r *nvm.SnapshotReader
	if kind == 1 {
		h := v.st.Header()
		buf = make([]byte, h.StorageSize()+1)
		r, err = v.st.GetSnapshotReader()
		vsym.Assert(err == nil, "the snapshot can be read")
	}
	n := 0
	vsym.Schedules(true)
	vsym.Go(func() { _, crash[0] = vsym.Try(func() { out = x.do(v) }) })
	vsym.Go(func() {
		_, crash[1] = vsym.Try(func() {
			switch kind {
			case 0:
				err = v.st.CreateSnapshot()
			case 1:
				for err == nil {
					k := 0
					k, err = r.Read(buf[n:])
					n += k
				}
				if err == io.EOF {
					err = nil
				}
			case 2:
				err = v.st.DeleteSnapshot()
			}
		})
	})
	vsym.Join()
	vsym.Schedules(false)
	vsym.Assert(!crash[0] && !crash[1], "no call crashes")
	vsym.Assert(err == nil, "the snapshot is taken, read or deleted")
	vsym.Assert(x.same(v, s, out, want), "the call next to it returns what it has to")
	vsym.Assert(vhShows(v, after), "the store has the lumps after the call")
	switch kind {
	case 0:
		c = vhCopy(v, "/copy.lusf")
	case 1:
		c = &vhStore{path: vsym.TempDir() + "/copy.lusf", ids: v.ids}
		vsym.WriteFile(c.path, buf[:n])
		c.open()
	}
	if c != nil {
		ok := vhShows(c, s)
		if !ok && kind == 0 {
			ok = vhShows(c, after)
		}
		vsym.Assert(ok, "the snapshot has the lumps of the moment it was taken")
	}
	vsym.Reach("done")
}

// Three threads change and query the store.
// bounds: as VH_C25_writes, three calls, one of them get, partial get or close; one preemption
// vsym: races switches=1 thorough ttime=1500
func VH_C25_three() {
	ops := []int{cPut, cEmbed, cDelete, cOffset, cRange, cGC}
	rs := []int{cGet, cPart, cClose}
	a := vsym.Choice("a", len(ops))
	b := vsym.Choice("b", len(ops))
	vsym.Assume(a <= b)
	r := rs[vsym.Choice("r", len(rs))]
	v, s := vhConcurrent()
	x := vhMakeCall(ops[a], vhIdFor(ops[a]))
	y := vhMakeCall(ops[b], vhSecond(ops[b], x))
	z := vhMakeCall(r, vhSecond(r, x))
	vhThreads(v, s, []vhCall{x, y, z})
}

// A full data region: a put in place of the value stored before.
// bounds: a data region of 3 blocks, full with a lump of 2 and one of 1; calls out of put (1 or 2 blocks), delete, partial put, get and partial get; switches as VH_C25_writes
// vsym: races switches=1 tswitches=2 time=100 ttime=900
func VH_C25_full() {
	ops := []int{cPut, cDelete, cOffset, cGet, cPart, cClose}
	a := vsym.Choice("a", len(ops))
	b := vsym.Choice("b", len(ops))
	vsym.Assume(a <= b)
	v := vhCreate(8, 3)
	for i := uint64(0); i < 3; i++ {
		v.ids = append(v.ids, lump.FromU64(0, 10+i))
	}
	var s vhSpec
	s.vals[0] = vsym.Bytes("before", 600)
	s.vals[1] = vsym.Bytes("before", 9)
	vsym.Assert(v.put(v.ids[0], s.vals[0]) == nil, "put succeeds")
	vsym.Assert(v.put(v.ids[1], s.vals[1]) == nil, "put succeeds")
	x := vhMakeCall(ops[a], vsym.Choice("which", 2))
	y := vhMakeCall(ops[b], vsym.Choice("which", 2))
	vhThreadsIn(v, s, []vhCall{x, y}, 3)
}
