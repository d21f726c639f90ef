package storage

import (
	"github.com/thesues/cannyls-go/block"
	"github.com/thesues/cannyls-go/internal/vsym"
	"github.com/thesues/cannyls-go/lump"
	"github.com/thesues/cannyls-go/nvm"
	"github.com/thesues/cannyls-go/portion"
	"github.com/thesues/cannyls-go/storage/allocator"
)

// vhRegion is a data region on a memory device with arbitrary content.
type vhRegion struct {
	r    *DataRegion
	init []byte
	vec  []byte // the device itself
}

func vhNewRegion(blocks int, kind int) *vhRegion {
	init := vsym.Bytes("device", blocks*vhBlock)
	vec := append([]byte(nil), init...)
	dev, err := nvm.NewFromVec(vec)
	vsym.Assert(err == nil, "a device of whole sectors")
	var a allocator.DataPortionAlloc
	if kind == 0 {
		j := allocator.NewJudyAlloc()
		a = j
	} else {
		a = allocator.NewBtreeAlloc()
	}
	a.RestoreFromIndex(block.Min(), uint64(blocks*vhBlock), []portion.DataPortion{portion.NewDataPortion(0, 0)})
	return &vhRegion{NewDataRegion(a, dev), init, vec}
}

// vhNewRegionOf is an empty data region on a device of zeros.
func vhNewRegionOf(blocks int) *vhRegion {
	a := allocator.NewJudyAlloc()
	dev, err := nvm.New(uint64(blocks * vhBlock))
	vsym.Assert(err == nil, "a device of whole sectors")
	a.RestoreFromIndex(block.Min(), uint64(blocks*vhBlock), []portion.DataPortion{portion.NewDataPortion(0, 0)})
	return &vhRegion{r: NewDataRegion(a, dev)}
}

// VH_C10_roundtrip: data of any size and content is read back, and only its own
// portion of the device changes.
//bounds: data region of 6 blocks with arbitrary content, either allocator; two puts of up to 1600 bytes each (any size, any content), optionally one of them released and a third put
//outside: larger sizes (VH_C10_large samples the largest), more puts
//vsym: time=90
func VH_C10_roundtrip() {
	x := vhNewRegion(6, vsym.Choice("allocator", 2))
	type item struct {
		p    portion.DataPortion
		data []byte
	}
	var live []item
	exp := append([]byte(nil), x.init...)
	n := 2 + vsym.Choice("third", 2)
	for i := 0; i < n; i++ {
		if i == 2 {
			k := vsym.Choice("release", 2)
			if k < len(live) {
				x.r.Release(live[k].p)
				live = append(append([]item(nil), live[:k]...), live[k+1:]...)
			}
		}
		data := vhData(1600)
		p, err := x.r.Put(vhLumpData(data))
		need := (uint64(len(data)) + 2 + vhBlock - 1) / vhBlock
		if err != nil {
			vsym.Reach("refused")
			used := uint64(0)
			for _, l := range live {
				used += uint64(l.p.Len)
			}
			vsym.Assert(used+need > 6 || len(live) > 0, "a put into an empty region succeeds")
		} else {
			vsym.Assert(uint64(p.Len) == need, "a put takes exactly the blocks for the data and its trailer")
			a := p.Start.AsU64()
			vsym.Assert(a+need <= 6, "a put stays inside the region")
			for _, l := range live {
				b := l.p.Start.AsU64()
				vsym.Assert(a+need <= b || b+uint64(l.p.Len) <= a, "portions do not overlap")
			}
			live = append(live, item{p, data})
			copy(exp[a*vhBlock:(a+need)*vhBlock], x.vec[a*vhBlock:(a+need)*vhBlock])
		}
		vsym.AssertSame(x.vec, exp, "only the portion of the put changes")
	}
	for _, l := range live {
		got, err := x.r.Get(l.p)
		vsym.Assert(err == nil, "stored data can be read")
		vsym.AssertSame(got.AsBytes(), l.data, "the bytes read are the bytes stored")
		n, err := x.r.GetSize(l.p)
		vsym.Assert(err == nil && n == uint32(len(l.data)), "the size is the number of bytes stored")
	}
	vsym.Reach("end")
}

// VH_C10_large: the largest sizes.
//bounds: sizes 65535, 65536, 65537 blocks' worth around the 16-bit limits of block counts, the maximum lump size and beyond; any content
//outside: the sizes in between
//vsym: time=90
func VH_C10_large() {
	sizes := []int{65534, 65535, 65536, 65537, 131070, lump.LUMP_MAX_SIZE - 1, lump.LUMP_MAX_SIZE, lump.LUMP_MAX_SIZE + 1, lump.LUMP_MAX_SIZE + 2, lump.LUMP_MAX_SIZE + 513}
	n := sizes[vsym.Choice("size", len(sizes))]
	blocks := (n + 2 + vhBlock - 1) / vhBlock
	short := vsym.Choice("room", 2) == 0
	if short {
		blocks--
	}
	a := allocator.NewJudyAlloc()
	dev, err := nvm.New(uint64(blocks * vhBlock))
	vsym.Assert(err == nil, "a device of whole sectors")
	a.RestoreFromIndex(block.Min(), uint64(blocks*vhBlock), []portion.DataPortion{portion.NewDataPortion(0, 0)})
	r := NewDataRegion(a, dev)
	data := vsym.Bytes("value", n)
	p, err := r.Put(vhLumpData(data))
	if short || n > lump.LUMP_MAX_SIZE {
		vsym.Assert(err != nil, "data too large or without room is refused")
		vsym.Assert(a.FreeCount() == uint64(blocks), "a refused put takes nothing")
		vsym.Reach("refused")
		return
	}
	vsym.Assert(err == nil, "data with room is stored")
	vsym.Assert(int(p.Len) == blocks, "a put takes exactly the blocks for the data and its trailer")
	got, err := r.Get(p)
	vsym.Assert(err == nil, "stored data can be read")
	vsym.AssertSame(got.AsBytes(), data, "the bytes read are the bytes stored")
	size, err := r.GetSize(p)
	vsym.Assert(err == nil && size == uint32(n), "the size is the number of bytes stored")
	vsym.Reach("end")
}

// VH_C10_sector: data in a buffer which its owner aligned to larger sectors
// than the device has.
//bounds: buffers aligned to 1024, 1536, 4096 and 65024 bytes; data of up to 1600 bytes and of the largest sizes, any content; one read of it, of its size, or of any range of it (or, of the largest, of its end), or an update of 3 bytes anywhere
//outside: other sector sizes
//vsym: time=90
func VH_C10_sector() {
	bs, err := block.NewBlockSize([]uint16{1024, 1536, 4096, 65024}[vsym.Choice("sector", 4)])
	vsym.Assert(err == nil, "a multiple of 512 is a block size")
	var data []byte
	var x *vhRegion
	sizes := []int{lump.LUMP_MAX_SIZE - 600, lump.LUMP_MAX_SIZE - 1, lump.LUMP_MAX_SIZE}
	large := vsym.Choice("size", len(sizes)+1)
	if large == 0 {
		x = vhNewRegionOf(140)
		data = vhData(1600)
	} else {
		x = vhNewRegionOf(0xFFFF)
		data = vsym.Bytes("value", sizes[large-1])
	}
	ab := block.NewAlignedBytes(len(data), bs)
	copy(ab.AsBytes(), data)
	p, err := x.r.Put(lump.NewLumpDataWithAb(ab))
	vsym.Assert(err == nil, "data with room is stored")
	switch vsym.Choice("read", 4) {
	case 0:
		got, err := x.r.Get(p)
		vsym.Assert(err == nil, "stored data can be read")
		vsym.AssertSame(got.AsBytes(), data, "the bytes read are the bytes stored")
	case 1:
		n, err := x.r.GetSize(p)
		vsym.Assert(err == nil && n == uint32(len(data)), "the size is the number of bytes stored")
	case 2:
		start, n := uint32(0), uint32(0)
		if large == 0 {
			start, n = vhRange(2048)
		} else {
			start, n = uint32(len(data)-700), vsym.U32("n")
			vsym.Assume(n <= 701)
			vsym.Split(uint64(start)+uint64(n), vhBlock)
		}
		got, err := x.r.GetWithOffset(p, start, n)
		end := uint64(start) + uint64(n)
		if end > uint64(len(data)) {
			end = uint64(len(data))
		} else {
			vsym.Assert(err == nil, "a range inside the lump can be read")
		}
		if err == nil {
			vsym.Assert(uint64(start) <= uint64(len(data)), "an offset beyond the lump is refused")
			vsym.AssertSame(got, data[start:end], "the bytes read are those of the range, cut at the end of the lump")
		}
	case 3:
		start := vsym.U32("start")
		if large != 0 {
			vsym.Assume(uint64(start) > uint64(len(data))-700)
		}
		vsym.Assume(uint64(start) <= uint64(len(data))+2100)
		vsym.Split(uint64(start), vhBlock)
		vsym.Split(uint64(start)+3, vhBlock)
		pay := vsym.Bytes("payload", 3)
		err := x.r.Update(p, start, pay)
		inside := uint64(start)+3 <= uint64(len(data))
		vsym.Assert((err == nil) == inside, "an update succeeds exactly inside the lump")
		if err == nil {
			copy(data[start:], pay)
		}
		got, err := x.r.Get(p)
		vsym.Assert(err == nil, "an updated lump can be read")
		vsym.AssertSame(got.AsBytes(), data, "an updated lump has its length and its bytes outside the range")
	}
	vsym.Reach("end")
}

// VH_C10_damaged: the length of the padding, kept behind the data, is damaged.
//bounds: lumps of 1, 2 and 3 blocks, any content; any value in place of the length of the padding; one read of it all, of its size, or of any range
//outside: damaged data, which nothing tells from the right one
//vsym: time=60
func VH_C10_damaged() {
	x := vhNewRegion(6, 0)
	blocks := 1 + vsym.Choice("blocks", 3)
	data := vsym.Bytes("value", blocks*vhBlock-2)
	p, err := x.r.Put(vhLumpData(data))
	vsym.Assert(err == nil && int(p.Len) == blocks, "put succeeds while there is room")
	pad := vsym.Bytes("padding", 2)
	copy(x.vec[p.Start.AsU64()*vhBlock+uint64(blocks*vhBlock-2):], pad)
	n := uint64(pad[0])<<8 + uint64(pad[1])
	vsym.Split(n, vhBlock)
	ok := n <= uint64(len(data))
	left := uint64(0)
	if ok {
		left = uint64(len(data)) - n
	}
	switch vsym.Choice("read", 3) {
	case 0:
		got, err := x.r.Get(p)
		vsym.Assert(ok || err != nil, "a lump with more padding than room is refused")
		if err == nil {
			vsym.AssertSame(got.AsBytes(), data[:left], "the bytes read are those in front of the padding")
		}
	case 1:
		size, err := x.r.GetSize(p)
		vsym.Assert(ok || err != nil, "a lump with more padding than room is refused")
		vsym.Assert(err != nil || uint64(size) == left, "the size is what the padding leaves")
	case 2:
		start, n := vhRange(uint32(blocks * vhBlock))
		got, err := x.r.GetWithOffset(p, start, n)
		end := uint64(start) + uint64(n)
		vsym.Assert(err != nil || end <= uint64(len(data)), "a range beyond the blocks of the lump is refused")
		if err == nil {
			vsym.AssertSame(got, data[start:uint64(start)+uint64(len(got))], "the bytes read are those of the range")
			vsym.Assert(uint64(start)+uint64(len(got)) <= uint64(len(data)), "the bytes read are those of the lump")
		}
	}
	vsym.Reach("end")
}
