package storage

import (
	"math"

	"github.com/thesues/cannyls-go/block"
	"github.com/thesues/cannyls-go/internal/vsym"
	"github.com/thesues/cannyls-go/nvm"
)

// VH_C16_create: creating a store of any small size with any share for the
// journal: it is refused, or its regions fit and are usable.
//bounds: capacities of 0 to 12 sectors, or not whole sectors; 14 journal ratios including negative, above 1, infinite and not a number
//outside: other ratios (floating point is not encoded symbolically), larger sizes
func VH_C16_create() {
	ratios := []float64{0, 0.001, 0.1, 0.25, 0.34, 0.5, 0.8, 0.9, 0.99, 1, 1.5, -0.5, math.Inf(1), math.NaN()}
	capacity := uint64(vsym.Choice("sectors", 13))*vhBlock + uint64(vsym.Choice("odd", 2))*100
	ratio := ratios[vsym.Choice("ratio", len(ratios))]
	path := vsym.TempDir() + "/s.lusf"
	st, err := CreateCannylsStorage(path, capacity, ratio)
	if err != nil {
		vsym.Assert(capacity%vhBlock != 0 || capacity < 4*vhBlock || !(ratio >= 0 && ratio < 0.8), "a store with room for its regions is created")
		vsym.Assert(len(vsym.FileBytes(path)) == 0, "a refused creation leaves no file")
		vsym.Reach("refused")
		return
	}
	h := st.Header()
	vsym.Assert(h.RegionSize()+h.JournalRegionSize+h.DataRegionSize <= capacity, "the regions are inside the device")
	vsym.Assert(h.JournalRegionSize%vhBlock == 0 && h.DataRegionSize%vhBlock == 0, "the regions are whole sectors")
	vsym.Assert(h.JournalRegionSize >= 2*vhBlock && h.DataRegionSize >= vhBlock, "both regions have room")
	vsym.Assert(float64(h.JournalRegionSize) >= ratio*float64(capacity), "the journal has its share")
	vsym.Assert(st.Usage().DataFreeBytes == h.DataRegionSize, "a new store is empty")
	v := &vhStore{st: st, path: path}
	v.vhIds(1)
	vsym.Assert(v.put(v.ids[0], vsym.Bytes("value", int(h.DataRegionSize-2))) == nil, "a lump as large as the data region can be stored")
	v.reopen()
	v.checkAll()
	g := v.st.Header()
	vsym.Assert(g == h, "the header is read back")
	vsym.Assert(uint64(len(vsym.FileBytes(path))) <= capacity, "the file stays within its capacity")
	vsym.Reach("created")
}

// VH_C16_open: opening a store whose header has other region sizes.
//bounds: journal and data sizes of 0 to 4 sectors, arbitrary size fields otherwise in the nvm harnesses; content as created
//outside: -
func VH_C16_open() {
	path := vsym.TempDir() + "/s.lusf"
	st, err := CreateCannylsStorage(path, 8*vhBlock, 0.4)
	vsym.Assert(err == nil, "a store can be created")
	st.Close()
	b := vsym.FileBytes(path)
	j := uint64(vsym.Choice("journal", 5)) * vhBlock
	d := uint64(vsym.Choice("data", 5)) * vhBlock
	for i := 0; i < 8; i++ {
		b[28+i] = byte(j >> uint(56-8*i))
		b[36+i] = byte(d >> uint(56-8*i))
	}
	vsym.WriteFile(path, b)
	_, p := vsym.Try(func() { st, err = OpenCannylsStorage(path) })
	vsym.Assert(!p, "opening does not crash")
	if j < 2*vhBlock {
		vsym.Assert(err != nil, "a store without room for a journal is refused")
		f, _, err2 := nvm.Open(path)
		vsym.Assert(err2 == nil, "a refused store is not kept locked")
		f.Close()
		vsym.Reach("refused")
		return
	}
	vsym.Assert(err == nil, "a store with a journal is opened")
	vsym.Assert(st.Usage().DataFreeBytes == d, "the data region has the size in the header")
	vsym.Reach("opened")
	_ = block.Min()
}
