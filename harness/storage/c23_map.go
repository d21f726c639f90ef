package storage

import (
	"github.com/thesues/cannyls-go/internal/vsym"
	"github.com/thesues/cannyls-go/storage/allocator"
)

// vhMapAsked is an allocator which tells what the allocation map was asked for.
type vhMapAsked struct {
	allocator.DataPortionAlloc
	n, total uint64
	asked    int
}

func (a *vhMapAsked) GetAllocationBitStatus(n uint64, total uint64) []float64 {
	a.n, a.total = n, total
	a.asked++
	return nil
}

// VH_C23_points: the allocation map of a store has a point for every 4 MiB of
// its data region, and at most 12800.
//bounds: data regions of any size up to 2^40 bytes, in whole blocks; the store, without the allocator
//outside: the map itself (VH_C23_map); other block sizes
func VH_C23_points() {
	v := vhCreate(4, 3)
	blocks := vsym.U64("blocks")
	vsym.Assume(blocks <= 1<<31)
	a := &vhMapAsked{DataPortionAlloc: v.st.alloc}
	v.st.alloc = a
	v.st.storageHeader.DataRegionSize = blocks * vhBlock
	v.st.GetAllocationStatus()
	vsym.Assert(a.asked == 1, "the allocator is asked once")
	vsym.Assert(a.n == 4<<20/vhBlock, "a point is 4 MiB")
	// the points that come back are total/n of them
	want := blocks / (4 << 20 / vhBlock)
	if want > 12800 {
		want = 12800
	}
	vsym.Assert(a.total <= blocks, "only blocks of the data region are looked at")
	vsym.Assert(a.total/(4<<20/vhBlock) == want, "one point for every 4 MiB, at most 12800")
	vsym.Reach("end")
}

// VH_C23_status: the allocation map of a store with lumps.
//bounds: a data region of 2 MiB (no point) and one of 4 MiB and 3 blocks (one point); up to two lumps of 20 or 700 bytes, one of them deleted or not
//outside: larger regions
//vsym: time=60 loop=400000 steps=400000000
func VH_C23_status() {
	const n = 4 << 20 / vhBlock
	big := vsym.Choice("big", 2) == 1
	blocks := n / 2
	if big {
		blocks = n + 3
	}
	v := vhCreate(4, blocks)
	v.ids = vhTwoIds()
	for i := 0; i < 2; i++ {
		size := []int{20, 700}[vsym.Choice("size", 2)]
		vsym.Assert(v.put(v.ids[i], vsym.Bytes("value", size)) == nil, "put succeeds while there is room")
	}
	if vsym.Choice("delete", 2) == 1 {
		vsym.Assert(v.delete(v.ids[0]) == nil, "delete succeeds")
	}
	m := v.st.GetAllocationStatus()
	if !big {
		vsym.Assert(len(m) == 0, "no point for a data region of less than 4 MiB")
		return
	}
	vsym.Assert(len(m) == 1, "one point for a data region of 4 MiB and a bit")
	vsym.Assert(m[0] == float64(v.blocks())/float64(n), "the point is the fraction in use")
	vsym.Reach("end")
}
