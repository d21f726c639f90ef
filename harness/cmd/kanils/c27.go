package main

import (
	"io"

	"github.com/thesues/cannyls-go/block"
	"github.com/thesues/cannyls-go/internal/vsym"
	"github.com/thesues/cannyls-go/lump"
	"github.com/thesues/cannyls-go/nvm"
	"github.com/thesues/cannyls-go/storage"
)

func vhLump(data []byte) lump.LumpData {
	ab := block.NewAlignedBytes(len(data), block.Min())
	copy(ab.AsBytes(), data)
	return lump.NewLumpDataWithAb(ab)
}

// VH_C27_enlarge: setting the size of the data region of a store to any number
// of bytes: it is refused and changes nothing, or the store has all its lumps and
// the room added, and keeps what is put there.
//bounds: store of 3 journal and 4 data sectors with lumps of 600 and 700 bytes in the data region or not, and one of 5 bytes embedded; ids of any value; new size any 64-bit number (opened and filled up to 4 sectors more than before, the header read for larger ones)
//outside: larger stores; a stop in the middle
func VH_C27_enlarge() {
	const sec = 512
	path := vsym.TempDir() + "/s.lusf"
	st, err := storage.CreateCannylsStorage(path, 8*sec, 3.0/8)
	vsym.Assert(err == nil, "a store can be created")
	old := st.Header()
	vsym.Assert(old.DataRegionSize == 4*sec, "data region has the size asked for")
	ids := []lump.LumpId{}
	for i := 0; i < 4; i++ {
		ids = append(ids, lump.FromU64(0, vsym.U64("id")))
		if i > 0 {
			vsym.Assume(ids[i-1].U64() < ids[i].U64())
		}
	}
	data := [][]byte{}
	for i, n := range []int{600, 700, 5} {
		if i == 1 && vsym.Choice("full", 2) == 0 {
			data = append(data, nil)
			continue
		}
		b := vsym.Bytes("value", n)
		data = append(data, b)
		if n == 5 {
			_, err = st.PutEmbed(ids[i], b)
		} else {
			_, err = st.Put(ids[i], vhLump(b))
		}
		vsym.Assert(err == nil, "put succeeds while there is room")
	}
	usage := st.Usage()
	st.Close()
	file := vsym.FileBytes(path)
	size := vsym.U64("size")
	_, p := vsym.Try(func() { err = expandDataRegionSize(vhContext(path, 0, size, "")) })
	vsym.Assert(!p, "enlarging does not crash")
	if err != nil {
		vsym.Assert(size < old.DataRegionSize+sec || size >= storage.MAX_DATA_REGION_SIZE, "a larger size is accepted")
		vsym.AssertSame(vsym.FileBytes(path), file, "a refused change changes nothing")
		vsym.Reach("refused")
		size = old.DataRegionSize
	} else {
		vsym.Assert(size >= old.DataRegionSize+sec, "a store is not made smaller")
		vsym.Reach("enlarged")
	}
	size -= size % sec
	d, h, err := nvm.Open(path)
	vsym.Assert(err == nil, "the device opens")
	vsym.Assert(h.DataRegionSize == size, "the data region has the size asked for")
	vsym.Assert(d.Capacity() == h.RegionSize()+old.JournalRegionSize+size, "the device has room for it")
	d.Close()
	h.DataRegionSize = old.DataRegionSize
	vsym.Assert(*h == old, "nothing else in the header changes")
	if size > old.DataRegionSize+4*sec {
		vsym.Reach("large")
		return
	}
	size = vsym.Concretize(size)
	st, err = storage.OpenCannylsStorage(path)
	vsym.Assert(err == nil, "the store opens")
	check := func() {
		n := 0
		for i, b := range data {
			got, err := st.Get(ids[i])
			vsym.Assert((err == nil) == (b != nil), "as many lumps as before")
			if b != nil {
				n++
				vsym.AssertSame(got, b, "the lumps keep their bytes")
			}
		}
		vsym.Assert(len(st.List()) == n, "the lumps listed are those put")
	}
	check()
	u := st.Usage()
	more := size - old.DataRegionSize
	vsym.Assert(u.DataCapacity == size, "the capacity is the size asked for")
	vsym.Assert(u.DataFreeBytes == usage.DataFreeBytes+more, "the room added is free")
	if u.MaxSegmentSize > 0 {
		b := vsym.Bytes("value", int(u.MaxSegmentSize))
		_, err = st.Put(ids[3], vhLump(b))
		vsym.Assert(err == nil, "a lump as large as the free room can be stored")
		data = append(data, b)
		st.Close()
		st, err = storage.OpenCannylsStorage(path)
		vsym.Assert(err == nil, "the store opens")
		check()
	}
	vsym.Reach("end")
}

// VH_C27_fault: a device access fails while a store is enlarged; the command
// tells, and the store opens with either size.
//bounds: store of 3 journal and 4 data sectors with a lump of 600 bytes, enlarged by 2 sectors; any one read, write or sync fails
//outside: a failing write which changes the device
func VH_C27_fault() {
	const sec = 512
	path := vsym.TempDir() + "/s.lusf"
	st, err := storage.CreateCannylsStorage(path, 8*sec, 3.0/8)
	vsym.Assert(err == nil, "a store can be created")
	id, b := lump.FromU64(0, vsym.U64("id")), vsym.Bytes("value", 600)
	_, err = st.Put(id, vhLump(b))
	vsym.Assert(err == nil, "put succeeds while there is room")
	st.Close()
	syncs := vsym.Count(2)
	vsym.FailAt(vsym.Choice("kind", 3), vsym.U64("fail"), false)
	err = expandDataRegionSize(vhContext(path, 0, 6*sec, ""))
	failed := vsym.Fired()
	vsym.Disarm()
	vsym.Assert((err != nil) == failed, "a failed device access is reported")
	if failed {
		vsym.Reach("failed")
	} else {
		vsym.Assert(vsym.Count(2) > syncs, "the new size is on the device when the command succeeds")
	}
	st, err = storage.OpenCannylsStorage(path)
	vsym.Assert(err == nil, "the store opens")
	got, err := st.Get(id)
	vsym.Assert(err == nil, "as many lumps as before")
	vsym.AssertSame(got, b, "the lumps keep their bytes")
	h := st.Header()
	vsym.Assert(h.DataRegionSize == 6*sec || failed && h.DataRegionSize == 4*sec, "the data region has the old or the new size")
	vsym.Reach("end")
}

// VH_C27_snapshot: a snapshot taken before a store is enlarged shows the store
// as it was before.
//bounds: store of 3 journal and 4 data sectors with a lump of 600 bytes; snapshot, a put or not, enlarged by 1 or 2 sectors, opened, a lump of 700 bytes put; the snapshot read to its end
//outside: larger stores
func VH_C27_snapshot() {
	const sec = 512
	nvm.DEFAULT_REGION_SHIFT = 20
	path := vsym.TempDir() + "/s.lusf"
	st, err := storage.CreateCannylsStorage(path, 8*sec, 3.0/8)
	vsym.Assert(err == nil, "a store can be created")
	id, b := lump.FromU64(0, vsym.U64("id")), vsym.Bytes("value", 600)
	_, err = st.Put(id, vhLump(b))
	vsym.Assert(err == nil, "put succeeds while there is room")
	vsym.Assert(st.CreateSnapshot() == nil, "a snapshot can be taken")
	was := vsym.FileBytes(path)
	other := lump.FromU64(0, vsym.U64("other"))
	vsym.Assume(other != id)
	if vsym.Choice("put", 2) == 1 {
		_, err = st.PutEmbed(other, vsym.Bytes("value", 7))
		vsym.Assert(err == nil, "embedded put succeeds while there is room")
	}
	st.Close()
	more := uint64(1+vsym.Choice("more", 2)) * sec
	err = expandDataRegionSize(vhContext(path, 0, 4*sec+more, ""))
	vsym.Assert(err == nil, "the store is enlarged")
	st, err = storage.OpenCannylsStorage(path)
	vsym.Assert(err == nil, "the store opens")
	vsym.Assert(st.Header().DataRegionSize == 4*sec+more, "the data region has the size asked for")
	_, err = st.Put(other, vhLump(vsym.Bytes("value", 700)))
	vsym.Assert(err == nil, "put succeeds while there is room")
	r, err := st.GetSnapshotReader()
	vsym.Assert(err == nil, "the snapshot can be read")
	got := make([]byte, len(was)+4*sec)
	n := 0
	for err == nil {
		k := 0
		k, err = r.Read(got[n:])
		n += k
	}
	vsym.Assert(err == io.EOF, "the snapshot can be read to its end")
	vsym.Assert(n >= len(was), "the snapshot is as long as the store was")
	vsym.AssertSame(got[:len(was)], was, "the snapshot has the bytes of the moment it was taken")
	vsym.Reach("end")
}

// VH_C27_meanwhile: a store is enlarged, and used, while someone else opens or
// enlarges it.
//bounds: store of 3 journal and 4 data sectors with a lump of 600 bytes; at any opening of a file or device access of one who opens the store, or enlarges it by 2 sectors, another enlarges it by 4, opens it, puts a lump of 2000 bytes and closes it
//outside: more than one switch from one to the other and back
func VH_C27_meanwhile() {
	const sec = 512
	path := vsym.TempDir() + "/s.lusf"
	st, err := storage.CreateCannylsStorage(path, 8*sec, 3.0/8)
	vsym.Assert(err == nil, "a store can be created")
	a, b := lump.FromU64(0, 3), lump.FromU64(0, 4)
	one, two := vsym.Bytes("value", 600), vsym.Bytes("value", 2000)
	_, err = st.Put(a, vhLump(one))
	vsym.Assert(err == nil, "put succeeds while there is room")
	st.Close()
	size, put := uint64(4), false
	vsym.Meanwhile(uint64(vsym.Choice("at", 20)), func() {
		if expandDataRegionSize(vhContext(path, 0, 8*sec, "")) != nil {
			return
		}
		vsym.Reach("enlarged")
		size = 8
		st, err := storage.OpenCannylsStorage(path)
		if err != nil {
			return
		}
		_, err = st.Put(b, vhLump(two))
		vsym.Assert(err == nil, "put succeeds while there is room")
		put = true
		st.Close()
	})
	st = nil
	_, p := vsym.Try(func() {
		if vsym.Choice("what", 2) == 0 {
			st, err = storage.OpenCannylsStorage(path)
		} else if err = expandDataRegionSize(vhContext(path, 0, 6*sec, "")); err == nil {
			vsym.Assert(size != 8 || !put, "a store is not made smaller")
			size = 6
		}
	})
	vsym.Assert(!p, "neither crashes")
	vsym.Assume(vsym.Alone())
	for i := 0; i < 2; i++ {
		if st == nil {
			st, err = storage.OpenCannylsStorage(path)
			vsym.Assert(err == nil, "the store opens")
		}
		h := st.Header()
		vsym.Assert(h.DataRegionSize == size*sec, "the store has the size it was given last")
		vsym.Assert(st.Usage().DataCapacity == size*sec, "the capacity is the size asked for")
		got, err := st.Get(a)
		vsym.Assert(err == nil, "as many lumps as before")
		vsym.AssertSame(got, one, "the lumps keep their bytes")
		got, err = st.Get(b)
		vsym.Assert((err == nil) == put, "as many lumps as before")
		if put {
			vsym.AssertSame(got, two, "the lumps keep their bytes")
		}
		st.Close()
		st = nil
	}
	vsym.Reach("end")
}
