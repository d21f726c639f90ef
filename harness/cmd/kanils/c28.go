package main

import (
	"io"

	"github.com/thesues/cannyls-go/block"
	"github.com/thesues/cannyls-go/internal/vsym"
	"github.com/thesues/cannyls-go/lump"
	"github.com/thesues/cannyls-go/storage"
)

// vhStored compares the store with the lumps it should have.
func vhStored(path string, ids []lump.LumpId, data [][]byte) {
	st, err := storage.OpenCannylsStorage(path)
	vsym.Assert(err == nil, "the store opens, no command keeps it locked")
	n := 0
	for i, b := range data {
		got, err := st.Get(ids[i])
		vsym.Assert((err == nil) == (b != nil), "exactly the lumps put and not deleted are there")
		if b != nil {
			n++
			vsym.AssertSame(got, b, "a lump has the bytes given to the command")
		}
	}
	vsym.Assert(len(st.List()) == n, "nothing else is stored")
	st.Close()
}

// VH_C28_commands: the commands of kanils on a store: each does what it says to
// the one lump it is given, and nothing else.
//bounds: store created by the command with 12 sectors; one of 2 ids of any value has a lump of 6 bytes; one command of put (6 bytes), get, delete, dump, journal, journal GC, header with and without replay; key any of the ids
//outside: what is printed; parsing of the command line; the benchmarks
//vsym: hang
func VH_C28_commands() {
	path := vsym.TempDir() + "/s.lusf"
	vsym.Assert(createCannyls(vhContext(path, 0, 12*512-100*uint64(vsym.Choice("odd", 2)), "")) == nil, "a store can be created")
	vsym.Assert(createCannyls(vhContext(path, 0, 12*512, "")) != nil, "a store is not created over another")
	a, b := vsym.U64("id"), vsym.U64("id")
	vsym.Assume(a < b)
	keys := []uint64{a, b}
	ids := []lump.LumpId{lump.FromU64(0, a), lump.FromU64(0, b)}
	data := [][]byte{[]byte("value0"), nil}
	vsym.Assert(putCannyls(vhContext(path, a, 0, "value0")) == nil, "put succeeds while there is room")
	i := vsym.Choice("which", 2)
	c := vhContext(path, keys[i], 0, "value1")
	k := vsym.Choice("command", 8)
	vhArg.noReplay = k == 7
	switch k {
	case 0:
		vsym.Assert(putCannyls(c) == nil, "put succeeds while there is room")
		data[i] = []byte("value1")
	case 1:
		vsym.Assert((getCannyls(c) == nil) == (i == 0), "get tells whether there is a lump")
	case 2:
		vsym.Assert(deleteCannyls(c) == nil, "delete succeeds")
		data[i] = nil
	case 3:
		vsym.Assert(dumpCannyls(c) == nil, "dump succeeds")
	case 4:
		vsym.Assert(journalCannyls(c) == nil, "journal succeeds")
	case 5:
		vsym.Assert(journalGCCannyls(c) == nil, "journal GC succeeds")
	case 6, 7:
		vsym.Assert(headerCannyls(c) == nil, "header succeeds")
	}
	vhStored(path, ids, data)
	vsym.Reach("end")
}

// VH_C28_create: the store made has the capacity asked for, in whole blocks.
//bounds: any capacity up to 15 KB (65 KB thorough); then a put
//outside: other capacities
func VH_C28_create() {
	const sec = 512
	path := vsym.TempDir() + "/s.lusf"
	asked := vsym.U64("capacity")
	vsym.Assume(asked <= uint64(vsym.Pick(30, 130))*sec)
	vsym.Split(asked+sec-1, sec)
	blocks := (asked + sec - 1) / sec
	if createCannyls(vhContext(path, 0, asked, "")) != nil {
		vsym.Assert(blocks < 4, "a store can be created")
		_, err := storage.OpenCannylsStorage(path)
		vsym.Assert(err != nil, "no store is left behind when it could not be created")
		vsym.Reach("refused")
		return
	}
	st, err := storage.OpenCannylsStorage(path)
	vsym.Assert(err == nil, "the store opens, no command keeps it locked")
	h := st.Header()
	vsym.Assert(h.StorageSize() == blocks*sec, "the store has the capacity asked for, in whole blocks")
	vsym.Assert(h.JournalRegionSize >= 2*sec && h.DataRegionSize >= sec, "the store has room for records and lumps")
	u := st.Usage()
	vsym.Assert(u.DataCapacity == h.DataRegionSize && u.JournalCapacity == h.JournalRegionSize && u.DataFreeBytes == h.DataRegionSize && u.FileCounts == 0, "the figures are those of an empty store")
	st.Close()
	id := vsym.U64("id")
	vsym.Assert(putCannyls(vhContext(path, id, 0, "value0")) == nil, "put succeeds while there is room")
	vhStored(path, []lump.LumpId{lump.FromU64(0, id)}, [][]byte{[]byte("value0")})
	vsym.Reach("end")
}

// VH_C28_fault: the device can not be read any more while a command runs: the
// command tells, and nothing else than what it was told changes.
//bounds: store of 3 journal and 4 data sectors with a lump of 600 bytes and an embedded one of 6; one command of get (any of the two), dump, header, put and delete; all reads from any one on fail
//outside: journal and journal GC, which return nothing
//vsym: hang
func VH_C28_fault() {
	const sec = 512
	path := vsym.TempDir() + "/s.lusf"
	a, b := vsym.U64("id"), vsym.U64("id")
	vsym.Assume(a < b)
	ids := []lump.LumpId{lump.FromU64(0, a), lump.FromU64(0, b)}
	data := [][]byte{vsym.Bytes("value", 600), []byte("value0")}
	st, err := storage.CreateCannylsStorage(path, 8*sec, 3.0/8)
	vsym.Assert(err == nil, "a store can be created")
	_, err = st.Put(ids[0], vhLump(data[0]))
	vsym.Assert(err == nil, "put succeeds while there is room")
	_, err = st.PutEmbed(ids[1], data[1])
	vsym.Assert(err == nil, "put succeeds while there is room")
	st.Close()
	//the journal is read ahead when the store opens, a failure there may not matter
	vsym.FailAt(vsym.Read, vsym.U64("fail"), true)
	k := vsym.Choice("command", 6)
	switch k {
	case 0, 1:
		err = getCannyls(vhContext(path, []uint64{a, b}[k], 0, ""))
	case 2:
		err = dumpCannyls(vhContext(path, 0, 0, ""))
	case 3:
		err = headerCannyls(vhContext(path, 0, 0, ""))
	case 4:
		if err = putCannyls(vhContext(path, b, 0, "value1")); err == nil {
			data[1] = []byte("value1")
		}
	case 5:
		if err = deleteCannyls(vhContext(path, a, 0, "")); err == nil {
			data[0] = nil
		}
	}
	failed := vsym.Fired()
	vsym.Disarm()
	vsym.Assert(err == nil || failed, "the command succeeds while the device works")
	if k < 4 {
		vsym.Assert(err != nil || !failed, "a failed device access is reported")
	}
	vhStored(path, ids, data)
	if failed {
		vsym.Reach("failed")
	}
	vsym.Reach("end")
}

// VH_C28_file: putting a file stores its bytes, all of them and no other.
//bounds: files of 0, 1, 510, 600 and 1500 bytes of any content, or none; id of any value
//outside: larger files
//vsym: hang
func VH_C28_file() {
	path, file := vsym.TempDir()+"/s.lusf", vsym.TempDir()+"/in"
	vsym.Assert(createCannyls(vhContext(path, 0, 12*512, "")) == nil, "a store can be created")
	n := []int{-1, 0, 1, 510, 600, 1500}[vsym.Choice("len", 6)]
	var data []byte
	if n >= 0 {
		data = vsym.Bytes("value", n)
		vsym.WriteFile(file, data)
	}
	key := vsym.U64("id")
	err := putCannyls(vhContext(path, key, 0, "@"+file))
	vsym.Assert((err == nil) == (n >= 0), "put tells whether the file could be stored")
	vhStored(path, []lump.LumpId{lump.FromU64(0, key)}, [][]byte{data})
	vsym.Reach("end")
}

// vhReader gives its bytes in pieces of any length.
type vhReader struct {
	data  []byte
	err   error // at the end
	parts int
}

func (r *vhReader) Read(b []byte) (int, error) {
	if len(r.data) == 0 && len(b) > 0 {
		return 0, r.err
	}
	n := len(b)
	if n > len(r.data) {
		n = len(r.data)
	}
	if r.parts > 0 && n > 1 {
		r.parts--
		k := vsym.U64("part")
		vsym.Assume(k >= 1 && k <= uint64(n))
		n = int(vsym.Concretize(k))
	}
	copy(b, r.data[:n])
	r.data = r.data[n:]
	return n, nil
}

// VH_C28_read: reading a file which comes in pieces of any length.
//bounds: 8 bytes in up to 4 pieces, or an error at their end, or missing bytes
//outside: more pieces
//vsym: hang
func VH_C28_read() {
	n := 8
	have := vsym.Choice("have", n+1)
	r := &vhReader{data: vsym.Bytes("value", have), err: io.EOF, parts: 3}
	data := r.data
	if vsym.Choice("error", 2) == 1 {
		r.err = io.ErrClosedPipe
	}
	l := lump.NewLumpDataAligned(n, block.Min())
	err := readUpData(r, l)
	vsym.Assert((err == nil) == (have == n), "reading tells whether all bytes were read")
	if err == nil {
		vsym.AssertSame(l.AsBytes(), data, "the bytes read are those of the file")
		vsym.Reach("read")
	}
}
