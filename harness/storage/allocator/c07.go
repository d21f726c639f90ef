package allocator

import (
	"github.com/thesues/cannyls-go/address"
	"github.com/thesues/cannyls-go/block"
	"github.com/thesues/cannyls-go/internal/vsym"
	"github.com/thesues/cannyls-go/lump"
	"github.com/thesues/cannyls-go/lumpindex"
	"github.com/thesues/cannyls-go/portion"
)

// vhAlloc is an allocator next to the list of portions it has given out.
type vhAlloc struct {
	a    DataPortionAlloc
	cap  uint64
	live []portion.DataPortion
}

func vhNew(kind int) DataPortionAlloc {
	if kind == 0 {
		return NewJudyAlloc()
	}
	return NewBtreeAlloc()
}

// vhState is an allocator in an arbitrary state: any data region up to maxCap
// blocks with k portions of any sizes in use, at any places.
func vhState(kind, k int, maxCap uint64) *vhAlloc {
	s := &vhAlloc{a: vhNew(kind)}
	s.cap = vsym.U64("cap")
	vsym.Assume(vsym.And(s.cap >= 1, s.cap <= maxCap))
	at := uint64(0)
	for i := 0; i < k; i++ {
		gap, n := vsym.U64("gap"), vsym.U16("len")
		vsym.Assume(vsym.And(gap <= s.cap, n >= 1))
		at += gap
		s.live = append(s.live, portion.NewDataPortion(at, n))
		at += uint64(n)
		vsym.Assume(at <= s.cap)
	}
	vec := []portion.DataPortion{portion.NewDataPortion(0, 0)}
	s.a.RestoreFromIndex(block.Min(), s.cap*uint64(block.MIN), append(vec, s.live...))
	return s
}

func (s *vhAlloc) used() uint64 {
	n := uint64(0)
	for _, p := range s.live {
		n += uint64(p.Len)
	}
	return n
}

// free says whether [x,x+n) lies in the region and in no live portion.
func (s *vhAlloc) free(x, n uint64) bool {
	ok := vsym.And(x <= s.cap, vsym.And(n <= s.cap, x+n <= s.cap))
	for _, p := range s.live {
		ok = vsym.And(ok, vsym.Or(x+n <= p.Start.AsU64(), p.End() <= x))
	}
	return ok
}

func (s *vhAlloc) count() {
	vsym.Assert(s.a.FreeCount() == s.cap-s.used(), "free count = capacity - blocks of live portions")
}

func (s *vhAlloc) allocate(n uint16) bool {
	p, err := s.a.Allocate(n)
	if err != nil {
		x := vsym.U64("run")
		vsym.Assert(!s.free(x, uint64(n)), "an allocation fails only without a free run of its length")
		s.count()
		return false
	}
	vsym.Assert(p.Len == n, "a portion has the length asked for")
	vsym.Assert(p.End() <= s.cap, "a portion lies inside the region")
	vsym.Assert(s.free(p.Start.AsU64(), uint64(p.Len)), "a portion overlaps no live portion")
	s.live = append(s.live, p)
	s.count()
	return true
}

func (s *vhAlloc) release(i int) {
	p := s.live[i]
	s.live = append(append([]portion.DataPortion(nil), s.live[:i]...), s.live[i+1:]...)
	s.a.Release(p)
	s.count()
}

// largest checks the figure for the largest free run, by a run of one more.
func (s *vhAlloc) largest() {
	m := s.a.MaxSegmentSize()
	vsym.Assert(m <= s.cap, "the largest free run fits the region")
	vsym.Assert(vsym.Or(m > 0, s.used() == s.cap), "some free run while blocks are free")
	x := vsym.U64("larger")
	vsym.Assume(m < 0xFFFFFF)
	vsym.Assert(!s.free(x, m+1), "no free run is larger than the largest")
}

func (s *vhAlloc) step() {
	op := vsym.Choice("op", 1+len(s.live))
	if op == 0 {
		n := vsym.U16("size")
		vsym.Assume(n >= 1)
		s.allocate(n)
		return
	}
	s.release(op - 1)
}

func vhC07(kind int, k, steps int, maxCap uint64) {
	s := vhState(kind, k, maxCap)
	s.count()
	for i := 0; i < steps; i++ {
		s.step()
	}
	vsym.Observe("free", s.a.FreeCount())
	vsym.Reach("end")
}

// VH_C07_judy: from any state with two live portions, allocations and releases.
// bounds: regions up to 2^24-1 blocks; 2 live portions at the start, anywhere; two
// bounds: (thorough: three) allocations of any size or releases
//vsym: time=100 ttime=900
func VH_C07_judy() { vhC07(0, 2, vsym.Pick(2, 3), 0xFFFFFF) }

// VH_C07_btree: the same, for the B-tree allocator.
//vsym: time=100 ttime=900
func VH_C07_btree() { vhC07(1, 2, vsym.Pick(2, 3), 0xFFFFFF) }

// VH_C07_large: regions over the 24-bit limit of one free run.
// bounds: regions up to 2^25 blocks, one live portion anywhere, one operation
//vsym: time=60 ttime=300
func VH_C07_large() { vhC07(vsym.Choice("kind", 2), 1, vsym.Pick(1, 2), 0x2000000) }

// vhFull is an allocator whose region, as large as regions can be, has no free
// block; what portions are in use does not matter to it.
func vhFull(kind int) DataPortionAlloc {
	a := vhNew(kind)
	a.RestoreFromIndex(block.Min(), 0, []portion.DataPortion{portion.NewDataPortion(0, 0)})
	return a
}

// vhC07Far releases k portions of a full region and allocates from them.
func vhC07Far(kind, k int) {
	a := vhFull(kind)
	var out []portion.DataPortion
	total := uint64(0)
	for i := 0; i < k; i++ {
		at, n := vsym.U64("at"), vsym.U16("len")
		vsym.Assume(vsym.And(n >= 1, at+uint64(n) <= 1<<40-1))
		vsym.Assume(at <= 1<<40)
		for _, p := range out {
			vsym.Assume(vsym.Or(at+uint64(n) <= p.Start.AsU64(), p.End() <= at))
		}
		p := portion.NewDataPortion(at, n)
		a.Release(p)
		out = append(out, p)
		total += uint64(n)
		vsym.Assert(a.FreeCount() == total, "free count = blocks released and not allocated again")
	}
	var got []portion.DataPortion
	for i := 0; i < 2; i++ {
		n := vsym.U16("size")
		vsym.Assume(n >= 1)
		p, err := a.Allocate(n)
		if err != nil {
			for _, o := range out {
				ok := n <= o.Len
				for _, g := range got {
					ok = vsym.And(ok, vsym.Or(g.End() <= o.Start.AsU64(), o.End() <= g.Start.AsU64()))
				}
				vsym.Assert(!ok, "an allocation fails only without a free run of its length")
			}
			vsym.Reach("refused")
			break
		}
		vsym.Assert(p.Len == n, "a portion has the length asked for")
		x := vsym.U64("block")
		vsym.Assume(vsym.And(p.Start.AsU64() <= x, x < p.End()))
		in := false
		for _, o := range out {
			in = vsym.Or(in, vsym.And(o.Start.AsU64() <= x, x < o.End()))
		}
		vsym.Assert(in, "a portion has only blocks that were free")
		for _, g := range got {
			vsym.Assert(vsym.Or(g.End() <= p.Start.AsU64(), p.End() <= g.Start.AsU64()), "a portion overlaps no live portion")
		}
		got = append(got, p)
		total -= uint64(n)
		vsym.Assert(a.FreeCount() == total, "free count = blocks released and not allocated again")
	}
	vsym.Reach("end")
}

// VH_C07_far: regions of any size.
// bounds: region of 2^40-1 blocks with none free; 2 portions of any length (thorough: 3) released anywhere in it, then two allocations of any size; the allocator of the store
//vsym: time=60 ttime=300
func VH_C07_far() { vhC07Far(0, vsym.Pick(2, 3)) }

// VH_C07_bfar: the same, for the B-tree allocator.
//vsym: time=60 ttime=300
func VH_C07_bfar() { vhC07Far(1, vsym.Pick(2, 3)) }

func vhC08(kind int, k int, steps int) {
	s := vhState(kind, k, 0xFFFFFF)
	for i := 0; i < steps; i++ {
		s.step()
	}
	s.largest()
	// whatever is within the largest run can be had
	n := vsym.U16("last")
	vsym.Assume(vsym.And(n >= 1, uint64(n) <= s.a.MaxSegmentSize()))
	vsym.Assert(s.allocate(n), "a request within the largest free run succeeds")
	vsym.Reach("end")
}

// VH_C08_judy: figures and merging after operations from any state.
// bounds: regions up to 2^24-1 blocks, 2 live portions (thorough: 3), one (thorough: two) operations before the last allocation
//vsym: time=100 ttime=900
func VH_C08_judy() { vhC08(0, vsym.Pick(2, 3), vsym.Pick(1, 2)) }

// VH_C08_btree: the same, for the B-tree allocator.
//vsym: time=100 ttime=900
func VH_C08_btree() { vhC08(1, vsym.Pick(2, 3), vsym.Pick(1, 2)) }

// VH_C08_merge: releasing everything gives back the whole region as one run.
// bounds: regions up to 2^24-1 blocks, 3 live portions, released in any order
//vsym: time=60 ttime=300
func VH_C08_merge() {
	s := vhState(vsym.Choice("kind", 2), vsym.Pick(2, 3), 0xFFFFFF)
	for len(s.live) > 0 {
		s.release(vsym.Choice("which", len(s.live)))
	}
	vsym.Assert(s.a.FreeCount() == s.cap, "everything is free again")
	vsym.Assert(s.a.MaxSegmentSize() == s.cap, "and it is one run")
	vsym.Reach("end")
}

// VH_C08_limit: a free run does not grow beyond what a portion can say.
// bounds: regions of 2^24-16 to 2^24+16 blocks, either allocator; 1 live portion anywhere (thorough: 2), released; then an allocation of any size
//vsym: time=60 ttime=300
func VH_C08_limit() {
	s := vhState(vsym.Choice("kind", 2), vsym.Pick(1, 2), 1<<24+16)
	vsym.Assume(s.cap >= 1<<24-16)
	for len(s.live) > 0 {
		s.release(vsym.Choice("which", len(s.live)))
	}
	vsym.Assert(s.a.FreeCount() == s.cap, "everything is free again")
	m := s.a.MaxSegmentSize()
	vsym.Assert(vsym.Or(m == s.cap, vsym.And(s.cap >= 1<<24, 2*m >= s.cap)), "and it is one run if a portion can say so")
	n := vsym.U16("last")
	vsym.Assume(vsym.And(n >= 1, uint64(n) <= m))
	vsym.Assert(s.allocate(n), "a request within the largest free run succeeds")
	vsym.Reach("end")
}

// VH_C08_fresh: allocators built for an empty region.
func VH_C08_fresh() {
	n := vsym.U32("cap")
	vsym.Assume(vsym.And(n >= 1, n <= 0xFFFFFF))
	s := &vhAlloc{cap: uint64(n)}
	if vsym.Choice("kind", 2) == 0 {
		s.a = BuildJudyAlloc(n)
	} else {
		s.a = BuildBtreeDataPortionAlloc(n)
	}
	s.count()
	for i := 0; i < 2; i++ {
		s.step()
	}
	n2 := vsym.U16("last")
	vsym.Assume(n2 >= 1)
	s.allocate(n2)
	vsym.Reach("end")
}

// VH_C08_double: a portion that overlaps free space is not accepted silently.
// bounds: one live portion, any portion released
func VH_C08_double() {
	s := vhState(vsym.Choice("kind", 2), 1, 0xFFFFFF)
	st, n := vsym.U64("start"), vsym.U16("len")
	vsym.Assume(vsym.And(n >= 1, vsym.And(st <= address.MAX_ADDRESS, st+uint64(n) <= s.cap)))
	p := s.live[0]
	inside := vsym.And(p.Start.AsU64() <= st, st+uint64(n) <= p.End())
	vsym.Assume(!inside)
	_, refused := vsym.Try(func() { s.a.Release(portion.NewDataPortion(st, n)) })
	vsym.Assert(refused, "releasing blocks that are free already is refused")
	s.count()
	vsym.Reach("end")
}

// vhIndex is an index with k data lumps and embedded ones between them.
func vhIndex(k, embed int, maxCap uint64) (idx *lumpindex.LumpIndex, s *vhAlloc) {
	s = &vhAlloc{}
	s.cap = vsym.U64("cap")
	vsym.Assume(vsym.And(s.cap >= 1, s.cap <= maxCap))
	at := uint64(0)
	for i := 0; i < k; i++ {
		gap, n := vsym.U64("gap"), vsym.U16("len")
		vsym.Assume(vsym.And(gap <= s.cap, n >= 1))
		at += gap
		s.live = append(s.live, portion.NewDataPortion(at, n))
		at += uint64(n)
		vsym.Assume(at <= s.cap)
	}
	idx = lumpindex.NewIndex()
	// ids are given in any order relative to the places
	left := append([]portion.DataPortion(nil), s.live...)
	id := uint64(0)
	for len(left) > 0 {
		i := vsym.Choice("next", len(left))
		d := vsym.U64("step")
		vsym.Assume(vsym.And(d >= 1, d < 1<<60))
		id += d
		idx.InsertDataPortion(lump.FromU64(0, id), left[i])
		left = append(append([]portion.DataPortion(nil), left[:i]...), left[i+1:]...)
	}
	for i := 0; i < embed; i++ {
		id++
		st, n := vsym.U64("jstart"), vsym.U16("jlen")
		vsym.Assume(st <= address.MAX_ADDRESS)
		idx.InsertJournalPortion(lump.FromU64(0, id), portion.NewJournalPortion(st, n))
	}
	return
}

func vhC09(how int, k int, maxCap uint64) {
	idx, s := vhIndex(k, 1, maxCap)
	bytes := s.cap * uint64(block.MIN)
	switch how {
	case 0, 1:
		s.a = vhNew(how)
		s.a.RestoreFromIndex(block.Min(), bytes, idx.DataPortions())
	case 2:
		j := NewJudyAlloc()
		j.RestoreFromIndexWithJudy(block.Min(), bytes, idx.JudyDataPortions())
		s.a = j
	}
	s.count()
	if maxCap <= 0xFFFFFF {
		s.largest()
	}
	n := vsym.U16("size")
	vsym.Assume(n >= 1)
	s.allocate(n)
	vsym.Reach("end")
}

// VH_C09_judy: from the list of an index.
// bounds: 2 data lumps (thorough: 3), in any order, anywhere in a region of up to 2^24-1 blocks, one embedded lump
//vsym: time=60 ttime=900
func VH_C09_judy() { vhC09(0, vsym.Pick(2, 3), 0xFFFFFF) }

// VH_C09_btree: the same, B-tree.
//vsym: time=60 ttime=900
func VH_C09_btree() { vhC09(1, vsym.Pick(2, 3), 0xFFFFFF) }

// VH_C09_array: the same, from the index's packed array.
//vsym: time=60 ttime=900
func VH_C09_array() { vhC09(2, vsym.Pick(2, 3), 0xFFFFFF) }

// VH_C09_large: regions over the 24-bit limit of one free run.
// bounds: up to 2^25 blocks, one data lump (thorough: 2)
//vsym: time=60 ttime=600
func VH_C09_large() { vhC09(vsym.Choice("how", 3), vsym.Pick(1, 2), 0x2000000) }
