package nvm

import (
	"bytes"

	uuid "github.com/satori/go.uuid"
	"github.com/thesues/cannyls-go/block"
	"github.com/thesues/cannyls-go/internal/vsym"
)

// vhHeader is any valid header.
func vhHeader() *StorageHeader {
	bs, err := block.NewBlockSize(uint16(512 * (1 + vsym.Choice("blocks", vsym.Pick(8, 127)))))
	vsym.Assert(err == nil, "a multiple of 512 is a block size")
	h := &StorageHeader{MajorVersion: MAJOR_VERSION, MinorVersion: MINOR_VERSION, BlockSize: bs}
	var u [16]byte
	copy(u[:], vsym.Bytes("uuid", 16))
	h.UUID = uuid.UUID(u)
	j, d := vsym.U64("journal blocks"), vsym.U64("data blocks")
	vsym.Assume(j <= MAX_JOURNAL_REGION_SIZE/uint64(bs) && d <= MAX_DATA_REGION_SIZE/uint64(bs))
	h.JournalRegionSize, h.DataRegionSize = j*uint64(bs), d*uint64(bs)
	return h
}

func vhHeaderBytes(h *StorageHeader) []byte {
	var w bytes.Buffer
	vsym.Assert(h.WriteHeaderRegionTo(&w) == nil, "a header can be written")
	vsym.Assert(uint64(w.Len()) == h.RegionSize(), "the header region has the size it declares")
	return w.Bytes()
}

func vhSame(a, b *StorageHeader) {
	vsym.Assert(a.MajorVersion == b.MajorVersion && a.MinorVersion == b.MinorVersion, "the version is read back")
	vsym.Assert(a.BlockSize == b.BlockSize, "the block size is read back")
	vsym.Assert(a.UUID == b.UUID, "the instance id is read back")
	vsym.Assert(a.JournalRegionSize == b.JournalRegionSize, "the journal size is read back")
	vsym.Assert(a.DataRegionSize == b.DataRegionSize, "the data size is read back")
}

// VH_C16_roundtrip: any valid header is read back equal, and refused when cut short.
//bounds: block sizes 512..4096 (all 127 valid ones thorough), any instance id, any region sizes in whole blocks up to the maximum; every truncation
//outside: -
//vsym: time=60
func VH_C16_roundtrip() {
	h := vhHeader()
	b := vhHeaderBytes(h)
	vsym.Assert(h.RegionSize()%uint64(h.BlockSize) == 0 && h.RegionSize() >= uint64(FULL_HEADER_SIZE), "the header region is whole blocks")
	vsym.Assert(h.StorageSize() == h.RegionSize()+h.JournalRegionSize+h.DataRegionSize, "the storage size is the sum of the regions")
	g, err := ReadFrom(bytes.NewReader(b))
	vsym.Assert(err == nil, "a valid header is read")
	vhSame(h, g)
	n := vsym.Choice("cut", int(FULL_HEADER_SIZE)+1)
	g, err = ReadFrom(bytes.NewReader(b[:n]))
	if n < int(FULL_HEADER_SIZE) {
		vsym.Assert(err != nil && g == nil, "a header cut short is refused")
	} else {
		vsym.Assert(err == nil, "the header without its padding is read")
	}
	vsym.Reach("end")
}

// VH_C16_damage: a valid header with one field replaced by anything else.
//bounds: any valid header; each field in turn replaced by any value
//outside: -
//vsym: time=60
func VH_C16_damage() {
	h := vhHeader()
	b := vhHeaderBytes(h)
	f := []struct {
		name   string
		at, n  int
		reject bool
	}{{"magic", 0, 4, true}, {"header size", 4, 2, true}, {"major", 6, 2, true}, {"minor", 8, 2, true}, {"block size", 10, 2, false}, {"journal size", 28, 8, false}, {"data size", 36, 8, false}}[vsym.Choice("field", 7)]
	x := vsym.Bytes("replaced", f.n)
	differs := false
	for i := range x {
		differs = vsym.Or(differs, x[i] != b[f.at+i])
	}
	vsym.Assume(differs)
	copy(b[f.at:], x)
	g, err := ReadFrom(bytes.NewReader(b))
	if f.reject {
		vsym.Assert(err != nil && g == nil, "a header with a foreign "+f.name+" is refused")
		vsym.Reach("refused")
		return
	}
	if err != nil {
		vsym.Assert(g == nil, "a refused header is not returned")
		vsym.Reach("refused")
		return
	}
	vsym.Assert(g.BlockSize >= 512 && g.BlockSize%512 == 0, "only valid block sizes are accepted")
	vsym.Assert(g.JournalRegionSize <= MAX_JOURNAL_REGION_SIZE && g.DataRegionSize <= MAX_DATA_REGION_SIZE, "only region sizes in range are accepted")
	vsym.Assert(g.JournalRegionSize%512 == 0 && g.DataRegionSize%512 == 0, "only whole sectors are accepted")
	vsym.Reach("accepted")
}

// VH_C16_anything: any bytes at all are refused or yield a header in range.
//bounds: any 48 bytes
//outside: -
//vsym: time=60
func VH_C16_anything() {
	b := vsym.Bytes("header", 48)
	g, err := ReadFrom(bytes.NewReader(b))
	if err != nil {
		vsym.Assert(g == nil, "a refused header is not returned")
		vsym.Reach("refused")
		return
	}
	vsym.Assert(b[0] == 'l' && b[1] == 'u' && b[2] == 's' && b[3] == 'f', "the magic number is checked")
	vsym.Assert(g.MajorVersion == MAJOR_VERSION && g.MinorVersion == MINOR_VERSION, "the version is checked")
	vsym.Assert(g.JournalRegionSize <= MAX_JOURNAL_REGION_SIZE && g.DataRegionSize <= MAX_DATA_REGION_SIZE, "the region sizes are checked")
	// what was read is what the bytes say
	var w bytes.Buffer
	vsym.Assert(g.WriteTo(&w) == nil, "a header can be written")
	vsym.AssertSame(w.Bytes(), b[:FULL_HEADER_SIZE], "a header says what its bytes say")
	vsym.Reach("accepted")
}

// VH_C16_layout: the regions of any header on a file device.
//bounds: any valid header, any 64-bit sizes in range
//outside: -
//vsym: time=60
func VH_C16_layout() {
	h := vhHeader()
	f, err := CreateIfAbsent(vsym.TempDir()+"/d.lusf", h.StorageSize())
	if !vsym.Symbolic() && err != nil {
		// a real file system may not take the largest sizes
		return
	}
	vsym.Assert(err == nil, "a device of that size can be created")
	j, d := h.SplitRegion(f)
	vsym.Assert(j.Capacity() == h.JournalRegionSize, "the journal region has its size")
	vsym.Assert(d.Capacity() == h.DataRegionSize, "the data region has its size")
	jf, df := j.(*FileNVM), d.(*FileNVM)
	vsym.Assert(jf.ViewStart() == h.RegionSize(), "the journal follows the header")
	vsym.Assert(jf.ViewEnd() == df.ViewStart(), "the data region follows the journal")
	vsym.Assert(df.ViewEnd() == h.StorageSize(), "the data region ends with the device")
	vsym.Assert(jf.ViewStart()%512 == 0 && df.ViewStart()%512 == 0, "the regions start at sectors")
	vsym.Reach("end")
}
