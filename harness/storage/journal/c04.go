package journal

import (
	"github.com/thesues/cannyls-go/internal/vsym"
	"github.com/thesues/cannyls-go/internalerror"
	"github.com/thesues/cannyls-go/nvm"
	"github.com/thesues/cannyls-go/portion"
)

// vhLog is a ring buffer next to the list of entries it has to hold.
type vhLog struct {
	dev      *nvm.MemoryNVM
	ring     *JournalRingBuffer
	live     []vhEntry // appended and not released
	popped   int       // how many of them the dequeue iterator has handed out
	relHead  uint64    // where a reopened log starts reading
	capacity uint64
}
type vhEntry struct {
	rec JournalRecord
	pos uint64 // payload position of an embedded record
}

func vhNewLog(size int, head uint64) *vhLog {
	dev, err := nvm.NewFromVec(vsym.Bytes("device", size))
	vsym.Assert(err == nil, "a device of whole sectors")
	l := &vhLog{dev: dev, relHead: head, capacity: uint64(size)}
	buf := NewJournalNvmBuffer(dev)
	_, err = buf.Seek(int64(head), 0)
	vsym.Assert(err == nil, "a position inside the device")
	vsym.Assert(EndOfRecords{}.WriteTo(buf) == nil, "the end marker of the empty journal")
	vsym.Assert(buf.Sync() == nil, "the journal syncs")
	l.ring = NewJournalRingBuffer(buf, head)
	return l
}

// vhLogRecord is a record whose content is arbitrary; lens are the payload
// lengths of embedded records.
func vhLogRecord(lens ...int) JournalRecord {
	k := vsym.Choice("record", 3+len(lens))
	switch k {
	case 0:
		return vhRecord(2, 0)
	case 1:
		return vhRecord(3, 0)
	case 2:
		return vhRecord(4, 0)
	}
	r := vhRecord(3, 0).(DeleteRecord)
	return EmbedRecord{LumpID: r.LumpID, Data: vsym.Bytes("data", lens[k-3])}
}

func (l *vhLog) append(r JournalRecord) bool {
	p, err := l.ring.Enqueue(r)
	if err != nil {
		vsym.Assert(err == internalerror.JournalStorageFull, "an append that fails says the journal is full")
		return false
	}
	e := vhEntry{rec: r}
	if x, ok := r.(EmbedRecord); ok {
		vsym.Assert(int(p.Len) == len(x.Data), "an embedded record reports the length of its payload")
		e.pos = p.Start.AsU64()
	} else {
		vsym.Assert(p == portion.JournalPortion{}, "other records report no payload")
	}
	l.live = append(l.live, e)
	return true
}

// check reads the log back as a reopened store would, and the payloads as the
// running one would.
func (l *vhLog) check() {
	for _, e := range l.live {
		if x, ok := e.rec.(EmbedRecord); ok {
			buf := make([]byte, len(x.Data))
			vsym.Assert(l.ring.ReadEmbededBuffer(e.pos, buf) == nil, "a payload can be read")
			vsym.AssertSame(buf, x.Data, "a payload is read back unchanged")
		}
	}
	vsym.Assert(l.ring.Sync() == nil, "the journal syncs")
	l.used()
	all := l.ring.ReadIter()
	l.readAll(all.PopFront, "listing")
	fresh := NewJournalRingBuffer(NewJournalNvmBuffer(l.dev), l.relHead)
	it := fresh.BufferedIter()
	l.readAll(it.PopFront, "replay")
	it.Close()
	vsym.Assert(fresh.Tail() == l.ring.Tail(), "replay ends where the log ends")
	fresh.DoStoreUsage()
	vsym.Assert(fresh.Usage() == l.ring.Usage(), "replay finds the same usage")
}

// used compares the usage with the entries not released yet, and what is lost
// at the end of the ring.
func (l *vhLog) used() {
	n := l.ring.Tail() - l.relHead
	if l.ring.Tail() < l.relHead {
		n += l.capacity
	}
	vsym.Assert(l.ring.Usage() == n, "the usage is the distance of the tail from the oldest entry")
}

func (l *vhLog) readAll(pop func() (JournalEntry, error), what string) {
	at := l.relHead
	for _, e := range l.live {
		got := l.one(pop, e, what)
		start := got.Start.AsU64()
		vsym.Assert(start == at || (start == 0 && len(l.live) > 0), what+": an entry is behind the one before, or at the front")
		at = got.End()
	}
	_, err := pop()
	vsym.Assert(err == internalerror.NoEntries, what+": nothing follows the last entry")
}

func (l *vhLog) one(pop func() (JournalEntry, error), e vhEntry, what string) JournalEntry {
	got, err := pop()
	vsym.Assert(err == nil, what+": every entry can be read")
	vhSameRecord(e.rec, got.Record, what)
	if _, ok := e.rec.(EmbedRecord); ok {
		vsym.Assert(got.Start.AsU64()+EMBEDDED_DATA_OFFSET == e.pos, what+": an entry is where its payload was reported")
	}
	return got
}

// dequeue hands out the next n entries, in order; with n < 0 all of them.
func (l *vhLog) dequeue(n int) {
	vsym.Assert(l.ring.Flush() == nil, "the journal flushes")
	it := l.ring.DequeueIter()
	for n != 0 && l.popped < len(l.live) {
		l.one(it.PopFront, l.live[l.popped], "dequeue")
		l.popped++
		n--
	}
	if n != 0 {
		_, err := it.PopFront()
		vsym.Assert(err == internalerror.NoEntries, "dequeue: nothing follows the last entry")
	}
}

// release gives the space of the entries handed out back.
func (l *vhLog) release() {
	l.ring.ReleaseBytesUntil(l.ring.Head())
	l.relHead = l.ring.Head()
	l.live = append([]vhEntry(nil), l.live[l.popped:]...)
	l.popped = 0
	l.used()
}

func (l *vhLog) step(lens ...int) {
	switch vsym.Choice("step", 3) {
	case 0:
		l.append(vhLogRecord(lens...))
	case 1:
		l.dequeue(1)
	case 2:
		l.dequeue(-1)
		l.release()
	}
}

// VH_C04_position: entries written at any position of a journal with arbitrary
// stale content, wrapping or not.
//bounds: ring of 2 sectors with any content, any start position, 2 records of any kind (embedded payloads of 0, 3 and 400 bytes)
//outside: longer payloads, larger rings
//vsym: time=100
func VH_C04_position() {
	const size = 1024
	head := uint64(vsym.Choice("head", size-5+1))
	l := vhNewLog(size, head)
	n := 2
	for i := 0; i < n; i++ {
		ok := l.append(vhLogRecord(0, 3, 400))
		vsym.Assert(i > 0 || ok, "an empty journal accepts a record")
	}
	l.check()
	vsym.Reach("end")
}

// VH_C04_history: appends, dequeues and releases in any order on a small ring.
//bounds: ring of 2 sectors with any content, start at one of 4 places, 4 steps (thorough 5), records of any kind with embedded payloads of 3, 300 and 600 bytes
//outside: longer histories, larger rings and payloads
//vsym: time=180 ttime=600
func VH_C04_history() {
	heads := []uint64{0, 512, 900, 1015}
	l := vhNewLog(1024, heads[vsym.Choice("head", len(heads))])
	n := vsym.Pick(4, 5)
	for i := 0; i < n; i++ {
		l.step(3, 300, 600)
	}
	l.check()
	l.dequeue(-1)
	l.release()
	vsym.Assert(l.append(vhRecord(3, 0)), "a released journal accepts records again")
	l.check()
	vsym.Reach("end")
}

// VH_C04_tight: records which end at, just before or just behind the place where
// the ring ends, and where the oldest entry or its sector begins.
//bounds: ring of 3 sectors with any content, an entry of 13 bytes at one of 7 places; an embedded record which ends 30, 6, 5, 4 or 0 bytes before the end of the ring, one which ends within 6 bytes of the oldest entry or its sector; a record of 13 bytes; then everything released and a record appended
//outside: larger rings; other lengths
//vsym: time=60 ttime=200
func VH_C04_tight() {
	const size = 1536
	heads := []uint64{512, 517, 600, 1019, 1024, 1030, 1400}
	head := heads[vsym.Choice("head", len(heads))]
	l := vhNewLog(size, head)
	vsym.Assert(l.append(vhRecord(3, 0)), "an empty journal accepts a record")
	embed := func(end int) {
		n := end - int(l.ring.Tail()) - EMBEDDED_DATA_OFFSET
		if l.ring.Tail() > head && uint64(end) <= head {
			n += int(l.ring.Tail()) // at the front
		}
		if n < 0 {
			return
		}
		r := vhRecord(3, 0).(DeleteRecord)
		l.append(EmbedRecord{LumpID: r.LumpID, Data: vsym.Bytes("data", n)})
	}
	embed(size - []int{30, 6, 5, 4, 0}[vsym.Choice("gap", 5)])
	to := int(head)
	if vsym.Choice("sector", 2) == 1 {
		to -= to % 512
	}
	embed(to - 6 + vsym.Choice("end", 8))
	l.check()
	l.append(vhRecord(3, 0))
	l.check()
	l.dequeue(-1)
	l.release()
	vsym.Assert(l.append(vhRecord(3, 0)), "a released journal accepts records again")
	l.check()
	vsym.Reach("end")
}
