package allocator

import (
	"github.com/thesues/cannyls-go/internal/vsym"
)

// VH_C23_map: the allocation map of either allocator: per group of blocks, the
// fraction which live portions take.
// bounds: regions of up to 6 blocks (9 thorough), two live portions anywhere and one operation (an allocation of up to 3 blocks, or a release); groups of 1, 3 or 4 blocks; the map of the first blocks of the region, any number of them
// outside: larger regions
//vsym: time=60 ttime=300
func VH_C23_map() {
	s := vhState(vsym.Choice("kind", 2), 2, uint64(vsym.Pick(6, 9)))
	s.cap = vsym.Concretize(s.cap)
	for _, p := range s.live {
		vsym.Concretize(p.Start.AsU64())
		vsym.Concretize(uint64(p.Len))
	}
	if op := vsym.Choice("op", 1+len(s.live)); op == 0 {
		n := uint16(1 + vsym.Choice("size", 3))
		s.allocate(n)
	} else {
		s.release(op - 1)
	}
	n := uint64([]int{1, 3, 4}[vsym.Choice("group", 3)])
	total := vsym.U64("total")
	vsym.Assume(vsym.And(total >= 1, total <= s.cap))
	total = vsym.Concretize(total)
	m := s.a.GetAllocationBitStatus(n, total)
	vsym.Assert(uint64(len(m)) == total/n, "one point per group of blocks")
	for i := range m {
		used := uint64(0)
		for b := uint64(i) * n; b < uint64(i+1)*n; b++ {
			for _, p := range s.live {
				if p.Start.AsU64() <= b && b < p.End() {
					used++
				}
			}
		}
		vsym.Assert(m[i] == float64(used)/float64(n), "a point is the fraction of its blocks in use")
	}
	vsym.Reach("end")
}
