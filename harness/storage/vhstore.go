package storage

import (
	"github.com/thesues/cannyls-go/block"
	"github.com/thesues/cannyls-go/internal/vsym"
	"github.com/thesues/cannyls-go/lump"
	"github.com/thesues/cannyls-go/portion"
)

// vhLump is one entry of the reference map.
type vhLump struct {
	id    lump.LumpId
	data  []byte
	embed bool
}

// vhStore is a store next to the map it has to be equal to.
type vhStore struct {
	st   *Storage
	path string
	ref  []vhLump
	ids  []lump.LumpId // the ids operations choose from
}

const vhBlock = 512

// vhCreate makes a store with a journal of jsec sectors and a data region of
// dsec sectors.
func vhCreate(jsec, dsec int) *vhStore {
	v := &vhStore{path: vsym.TempDir() + "/s.lusf"}
	total := 1 + jsec + dsec
	ratio := float64(jsec) / float64(total)
	st, err := CreateCannylsStorage(v.path, uint64(total*vhBlock), ratio)
	vsym.Assert(err == nil, "a store can be created")
	v.st = st
	h := st.Header()
	vsym.Assert(h.JournalRegionSize == uint64(jsec*vhBlock), "journal region has the size asked for")
	vsym.Assert(h.DataRegionSize == uint64(dsec*vhBlock), "data region has the size asked for")
	return v
}

// vhIds makes n distinct ids.
func (v *vhStore) vhIds(n int) {
	for i := 0; i < n; i++ {
		// ascending without loss of generality: operations pick any of them
		id := lump.FromU64(0, vsym.U64("id"))
		if i > 0 {
			vsym.Assume(v.ids[i-1].U64() < id.U64())
		}
		v.ids = append(v.ids, id)
	}
}

// vhTwoIds are two ids of fixed values.
func vhTwoIds() []lump.LumpId { return []lump.LumpId{lump.FromU64(0, 10), lump.FromU64(0, 11)} }

func (v *vhStore) at(id lump.LumpId) int {
	for i := range v.ref {
		if v.ref[i].id == id {
			return i
		}
	}
	return -1
}

func (v *vhStore) set(id lump.LumpId, data []byte, embed bool) bool {
	if i := v.at(id); i >= 0 {
		v.ref[i].data = data
		v.ref[i].embed = embed
		return true
	}
	v.ref = append(v.ref, vhLump{id, data, embed})
	return false
}
func (v *vhStore) unset(id lump.LumpId) bool {
	i := v.at(id)
	if i < 0 {
		return false
	}
	v.ref = append(append([]vhLump(nil), v.ref[:i]...), v.ref[i+1:]...)
	return true
}

// vhData is a value of any content and any length up to max.
func vhData(max int) []byte {
	n := vsym.U64("len")
	vsym.Assume(n <= uint64(max))
	// fork on the number of blocks, so that places on the device are concrete
	n = vsym.Split(n+2+vhBlock-1, vhBlock) - 2 - vhBlock + 1
	return vsym.Bytes("value", int(n))
}

// vhSmall is a value for embedding, of any content and one of a few lengths.
func vhSmall(lens ...int) []byte {
	return vsym.Bytes("value", lens[vsym.Choice("len", len(lens))])
}

// vhLumpData puts the bytes into the buffer the store wants them in.
func vhLumpData(data []byte) lump.LumpData {
	ab := block.NewAlignedBytes(len(data), block.Min())
	copy(ab.AsBytes(), data)
	return lump.NewLumpDataWithAb(ab)
}

func (v *vhStore) pick() lump.LumpId { return v.ids[vsym.Choice("which", len(v.ids))] }

// check compares one id with the map.
func (v *vhStore) check(id lump.LumpId) {
	got, err := v.st.Get(id)
	size, err2 := v.st.GetSize(id)
	i := v.at(id)
	if i < 0 {
		vsym.Assert(err != nil, "get of an absent id fails")
		vsym.Assert(err2 != nil, "size of an absent id fails")
		_, err3 := v.st.GetSizeOnDisk(id)
		vsym.Assert(err3 != nil, "size on disk of an absent id fails")
		return
	}
	vsym.Assert(err == nil, "get of a stored id succeeds")
	vsym.AssertSame(got, v.ref[i].data, "get returns the bytes last put")
	vsym.Assert(err2 == nil, "size of a stored id can be queried")
	vsym.Assert(size == uint32(len(v.ref[i].data)), "size is the length of the bytes last put")
	disk, err4 := v.st.GetSizeOnDisk(id)
	vsym.Assert(err4 == nil, "size on disk of a stored id can be queried")
	want := size
	if !v.ref[i].embed {
		want = (size + 2 + vhBlock - 1) / vhBlock * vhBlock
	}
	vsym.Assert(disk == want, "size on disk is the room the lump takes")
}

func (v *vhStore) checkAll() {
	for _, id := range v.ids {
		v.check(id)
	}
	l := v.st.List()
	vsym.Assert(len(l) == len(v.ref), "the list has one entry per stored id")
	for i := range l {
		vsym.Assert(v.at(l[i]) >= 0, "only stored ids are listed")
		if i > 0 {
			vsym.Assert(l[i-1].U64() < l[i].U64(), "ids are listed in ascending order")
		}
	}
}

// blocks is the number of data blocks the stored lumps take.
func (v *vhStore) blocks() uint64 {
	n := uint64(0)
	for _, r := range v.ref {
		if !r.embed {
			n += (uint64(len(r.data)) + 2 + vhBlock - 1) / vhBlock
		}
	}
	return n
}

func (v *vhStore) put(id lump.LumpId, data []byte) error {
	upd, err := v.st.Put(id, vhLumpData(data))
	if err == nil {
		vsym.Assert(upd == v.set(id, data, false), "put reports whether it overwrote")
	}
	return err
}
func (v *vhStore) embed(id lump.LumpId, data []byte) error {
	upd, err := v.st.PutEmbed(id, data)
	if err == nil {
		vsym.Assert(upd == v.set(id, append([]byte(nil), data...), true), "embedded put reports whether it overwrote")
	}
	return err
}
func (v *vhStore) delete(id lump.LumpId) error {
	upd, size, err := v.st.Delete(id)
	if err == nil {
		want := uint32(0)
		if i := v.at(id); i >= 0 {
			want = uint32(len(v.ref[i].data))
			if !v.ref[i].embed {
				want = (want + 2 + vhBlock - 1) / vhBlock * vhBlock
			}
		}
		vsym.Assert(upd == v.unset(id), "delete reports whether something was deleted")
		vsym.Assert(size == want, "delete reports the room it gives back")
	}
	return err
}
func (v *vhStore) deleteRange(a, b lump.LumpId) error {
	err := v.st.DeleteRange(a, b, vsym.Bool("data portions"))
	if err == nil {
		for _, id := range v.ids {
			if a.U64() <= id.U64() && id.U64() < b.U64() {
				v.unset(id)
			}
		}
	}
	return err
}

func (v *vhStore) reopen() {
	v.st.Close()
	v.open()
}

func (v *vhStore) open() {
	var err error
	_, p := vsym.Try(func() { v.st, err = OpenCannylsStorage(v.path) })
	vsym.Assert(!p, "opening does not crash")
	vsym.Assert(err == nil, "the store opens")
}

// turn moves the place where the journal begins by n records.
func (v *vhStore) turn(n int) {
	for i := 0; i < n; i++ {
		vsym.Assert(v.embed(v.ids[0], vsym.Bytes("value", 300)) == nil, "embedded put succeeds while there is room")
		vsym.Assert(v.delete(v.ids[0]) == nil, "delete succeeds")
		v.st.JournalGC()
	}
	v.st.Sync()
}

// Operations of histories.
const (
	opPut = iota
	opEmbed
	opDelete
	opRange
	opGC
	opSide
	opSync
	opReopen
	opGet
)

// step does one operation of the given kinds; none of them may fail, because
// there is room for all of them.
func (v *vhStore) step(max int, lens []int, kinds ...int) {
	switch kinds[vsym.Choice("op", len(kinds))] {
	case opPut:
		vsym.Assert(v.put(v.pick(), vhData(max)) == nil, "put succeeds while there is room")
	case opEmbed:
		vsym.Assert(v.embed(v.pick(), vhSmall(lens...)) == nil, "embedded put succeeds while there is room")
	case opDelete:
		vsym.Assert(v.delete(v.pick()) == nil, "delete succeeds")
	case opRange:
		i := vsym.Choice("from", len(v.ids))
		end := lump.FromU64(0, vsym.U64("end"))
		vsym.Assert(v.deleteRange(v.ids[i], end) == nil, "range delete succeeds")
	case opGC:
		v.st.JournalGC()
	case opSide:
		v.st.RunSideJobOnce(1)
	case opSync:
		v.st.Sync()
	case opReopen:
		v.reopen()
	}
}

// vhImage is what a store shows of its lumps.
type vhImage struct {
	ids   []lump.LumpId
	where []portion.DataPortion // where the data is, when it is in the data region
	data  []bool
}

func (v *vhStore) image() vhImage {
	var m vhImage
	m.ids = v.st.List()
	for _, id := range m.ids {
		p, err := v.st.GetRecord(id)
		if err == nil {
			m.where = append(m.where, *p)
		} else {
			m.where = append(m.where, portion.DataPortion{})
		}
		m.data = append(m.data, err == nil)
	}
	return m
}

func (m vhImage) equal(o vhImage, what string) {
	vsym.Assert(len(m.ids) == len(o.ids), what+": as many lumps")
	for i := range m.ids {
		vsym.Assert(m.ids[i] == o.ids[i], what+": the same ids")
		vsym.Assert(m.data[i] == o.data[i], what+": the same kind of lump")
		vsym.Assert(m.where[i] == o.where[i], what+": the same location")
	}
}

// stepMay is step on a store where operations may be refused; a refused one has
// to leave the reference as it is.
func (v *vhStore) stepMay(max int, lens []int, kinds ...int) {
	var err error
	switch kinds[vsym.Choice("op", len(kinds))] {
	case opPut:
		err = v.put(v.pick(), vhData(max))
	case opEmbed:
		err = v.embed(v.pick(), vhSmall(lens...))
	case opDelete:
		err = v.delete(v.pick())
	case opRange:
		i := vsym.Choice("from", len(v.ids))
		end := lump.FromU64(0, vsym.U64("end"))
		err = v.deleteRange(v.ids[i], end)
	case opGC:
		v.st.JournalGC()
	case opSide:
		v.st.RunSideJobOnce(1)
	case opSync:
		v.st.Sync()
	case opReopen:
		v.reopen()
	}
	if err != nil {
		vsym.Reach("refused")
	}
}

// checkUsage compares the figures with what the stored lumps imply.
func (v *vhStore) checkUsage() {
	h := v.st.Header()
	u := v.st.Usage()
	vsym.Assert(u.FileCounts == uint64(len(v.ref)), "the number of lumps is the number of stored ids")
	blocks := h.DataRegionSize / vhBlock
	vsym.Assert(u.DataCapacity == h.DataRegionSize, "the data capacity is the size of the data region")
	vsym.Assert(u.JournalCapacity == h.JournalRegionSize, "the journal capacity is the size of the journal region")
	vsym.Assert(u.DataFreeBytes == (blocks-v.blocks())*vhBlock, "free bytes are the capacity minus the blocks in use")
	// the lumps' places in ascending order
	type span struct{ a, e uint64 }
	used := []span{}
	for _, r := range v.ref {
		p, err := v.st.GetRecord(r.id)
		if r.embed {
			vsym.Assert(err != nil, "an embedded lump has no place in the data region")
			continue
		}
		vsym.Assert(err == nil, "a lump in the data region has a place")
		a, n := p.Start.AsU64(), uint64(p.Len)
		vsym.Assert(n == (uint64(len(r.data))+2+vhBlock-1)/vhBlock, "a lump takes the blocks it needs")
		vsym.Assert(a+n <= blocks, "a lump is inside the data region")
		i := len(used)
		used = append(used, span{})
		for i > 0 && used[i-1].a > a {
			used[i] = used[i-1]
			i--
		}
		used[i] = span{a, a + n}
	}
	at, best := uint64(0), uint64(0)
	for _, x := range append(used, span{blocks, blocks}) {
		vsym.Assert(at <= x.a, "lumps do not overlap")
		if x.a-at > best {
			best = x.a - at
		}
		at = x.e
	}
	if best > 0xFFFF {
		best = 0xFFFF
	}
	want := uint64(0)
	if best > 0 {
		want = best*vhBlock - 2
	}
	vsym.Assert(u.MaxSegmentSize == want, "the largest storable lump is what fits the largest free run")
}
