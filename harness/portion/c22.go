package portion

import (
	"github.com/thesues/cannyls-go/address"
	"github.com/thesues/cannyls-go/block"
	"github.com/thesues/cannyls-go/internal/vsym"
	"github.com/thesues/cannyls-go/util"
)

// VH_C22_codecs: the big-endian integer helpers are lossless and big-endian.
func VH_C22_codecs() {
	var b8 [8]byte
	n64 := vsym.U64("n64")
	util.PutUINT64(b8[:], n64)
	vsym.Assert(util.GetUINT64(b8[:]) == n64, "64-bit value survives")
	vsym.Assert(b8[0] == byte(n64>>56) && b8[7] == byte(n64), "64-bit value is big-endian")
	var b4 [4]byte
	n32 := vsym.U32("n32")
	util.PutUINT32(b4[:], n32)
	vsym.Assert(util.GetUINT32(b4[:]) == n32, "32-bit value survives")
	vsym.Assert(b4[0] == byte(n32>>24) && b4[3] == byte(n32), "32-bit value is big-endian")
	var b2 [2]byte
	n16 := vsym.U16("n16")
	util.PutUINT16(b2[:], n16)
	vsym.Assert(util.GetUINT16(b2[:]) == n16, "16-bit value survives")
	vsym.Assert(b2[0] == byte(n16>>8) && b2[1] == byte(n16), "16-bit value is big-endian")
	var b5 [5]byte
	n40 := vsym.U64("n40")
	vsym.Assume(n40 < 1<<40)
	util.PutUINT40(b5[:], n40)
	vsym.Assert(util.GetUINT40(b5[:]) == n40, "40-bit value survives")
	vsym.Assert(b5[0] == byte(n40>>32) && b5[4] == byte(n40), "40-bit value is big-endian")
	// bytes -> value -> bytes
	r8, r5, r4, r2 := vsym.Bytes("r8", 8), vsym.Bytes("r5", 5), vsym.Bytes("r4", 4), vsym.Bytes("r2", 2)
	util.PutUINT64(b8[:], util.GetUINT64(r8))
	vsym.AssertSame(b8[:], r8, "8 bytes survive")
	util.PutUINT40(b5[:], util.GetUINT40(r5))
	vsym.AssertSame(b5[:], r5, "5 bytes survive")
	util.PutUINT32(b4[:], util.GetUINT32(r4))
	vsym.AssertSame(b4[:], r4, "4 bytes survive")
	util.PutUINT16(b2[:], util.GetUINT16(r2))
	vsym.AssertSame(b2[:], r2, "2 bytes survive")
	vsym.Reach("end")
}

// VH_C22_minmax: the small helpers.
func VH_C22_minmax() {
	x, y := vsym.U64("x"), vsym.U64("y")
	mx, mn := util.Max(x, y), util.Min(x, y)
	vsym.Assert(vsym.And(mx >= x, mx >= y) && vsym.Or(mx == x, mx == y), "Max")
	vsym.Assert(vsym.And(mn <= x, mn <= y) && vsym.Or(mn == x, mn == y), "Min")
	p, q := vsym.U32("p"), vsym.U32("q")
	m := util.Min32(p, q)
	vsym.Assert(vsym.And(m <= p, m <= q) && vsym.Or(m == p, m == q), "Min32")
	vsym.Reach("end")
}

// VH_C22_address: an address keeps 40 bits; arithmetic is exact or refused.
func VH_C22_address() {
	x, y := vsym.U64("x"), vsym.U64("y")
	var a address.Address
	_, refused := vsym.Try(func() { a = address.AddressFromU64(x) })
	vsym.Assert(refused == (x > address.MAX_ADDRESS), "an address is refused exactly when it does not fit")
	if refused {
		vsym.Reach("refused")
		return
	}
	vsym.Assert(a.AsU64() == x, "an address keeps its value")
	vsym.Assume(y <= address.MAX_ADDRESS)
	b := address.AddressFromU64(y)
	var s address.Address
	_, refused = vsym.Try(func() { s = a.Add(b) })
	vsym.Assert(refused == (x+y > address.MAX_ADDRESS), "a sum is refused exactly when it does not fit")
	vsym.Assert(refused || s.AsU64() == x+y, "a sum is exact")
	_, refused = vsym.Try(func() { s = a.Sub(b) })
	vsym.Assert(refused == (y > x), "a difference is refused exactly when negative")
	vsym.Assert(refused || s.AsU64() == x-y, "a difference is exact")
	z := vsym.U32("z")
	vsym.Assert(address.AddressFromU32(z).AsU64() == uint64(z), "a 32-bit address keeps its value")
	vsym.Reach("end")
}

// VH_C22_freeportion: packing 40-bit start and 24-bit length loses nothing.
func VH_C22_freeportion() {
	s, n := vsym.U64("start"), vsym.U32("len")
	vsym.Assume(s <= address.MAX_ADDRESS)
	vsym.Assume(s+uint64(n) <= address.MAX_ADDRESS)
	var p FreePortion
	_, refused := vsym.Try(func() { p = NewFreePortion(address.AddressFromU64(s), n) })
	vsym.Assert(refused == (n > 1<<24-1), "a free portion is refused exactly when its length does not fit")
	if refused {
		return
	}
	vsym.Assert(p.Start().AsU64() == s, "start of a free portion")
	vsym.Assert(p.Len() == n, "length of a free portion")
	vsym.Assert(p.End().AsU64() == s+uint64(n), "end of a free portion")
	s2, n2 := vsym.U64("start2"), vsym.U32("len2")
	vsym.Assume(vsym.And(s2 <= address.MAX_ADDRESS, n2 <= 1<<24-1))
	q := NewFreePortion(address.AddressFromU64(s2), n2)
	vsym.Assert((p == q) == vsym.And(s == s2, n == n2), "equal exactly when start and length are")
	vsym.Reach("end")
}

// VH_C22_extend: extending a free portion gives the exact length or is refused.
func VH_C22_extend() {
	s, n, d := vsym.U64("start"), vsym.U32("len"), vsym.U32("more")
	vsym.Assume(vsym.And(s <= address.MAX_ADDRESS, n <= 1<<24-1))
	p := NewFreePortion(address.AddressFromU64(s), n)
	var q FreePortion
	var ok bool
	_, crashed := vsym.Try(func() { q, ok = p.CheckedExtend(d) })
	vsym.Assert(!crashed, "extending does not crash")
	fits := uint64(n)+uint64(d) <= 1<<24-1
	vsym.Assert(ok == fits, "extending is refused exactly when the length does not fit")
	if ok {
		vsym.Assert(vsym.And(q.Start().AsU64() == s, q.Len() == n+d), "extending adds exactly the given length")
		vsym.Reach("extended")
	}
}

// VH_C22_slice: taking the front of a free portion leaves exactly the rest.
func VH_C22_slice() {
	s, n, k := vsym.U64("start"), vsym.U32("len"), vsym.U16("take")
	vsym.Assume(vsym.And(n <= 1<<24-1, s+uint64(n) <= address.MAX_ADDRESS))
	vsym.Assume(s <= address.MAX_ADDRESS)
	p := NewFreePortion(address.AddressFromU64(s), n)
	var rest FreePortion
	var got DataPortion
	_, refused := vsym.Try(func() { rest, got = p.SlicePart(k) })
	vsym.Assert(refused == (uint32(k) > n), "taking is refused exactly when too long")
	if refused {
		return
	}
	vsym.Assert(vsym.And(got.Start.AsU64() == s, got.Len == k), "the part taken is the front")
	vsym.Assert(vsym.And(rest.Start().AsU64() == s+uint64(k), rest.Len() == n-uint32(k)), "the rest is what follows")
	f := FromDataPortion(got)
	vsym.Assert(vsym.And(f.Start().AsU64() == s, f.Len() == uint32(k)), "a data portion as a free portion")
	vsym.Reach("end")
}

// VH_C22_dataportion: byte positions of a portion, in every sector size.
// bounds: portions inside the 40-bit block address space, every sector size
func VH_C22_dataportion() {
	s, n := vsym.U64("start"), vsym.U16("len")
	k := uint16(1 + vsym.Choice("sector", 127))
	bs, err := block.NewBlockSize(k * 512)
	vsym.Assert(err == nil, "a multiple of 512 is a sector size")
	vsym.Assume(s <= address.MAX_ADDRESS)
	p := NewDataPortion(s, n)
	vsym.Assert(vsym.And(p.Start.AsU64() == s, p.Len == n), "start and length of a data portion")
	vsym.Assert(p.End() == s+uint64(n), "end of a data portion")
	a, b := p.AsInts()
	vsym.Assert(vsym.And(a == s, b == n), "AsInts")
	off, size := p.ShiftBlockToBytes(bs)
	vsym.Assert(off == s*uint64(k)*512, "byte offset of a portion")
	vsym.Assert(uint64(size) == uint64(n)*uint64(k)*512, "byte size of a portion")
	vsym.Assert(uint64(p.SizeOnDisk(bs)) == uint64(n)*uint64(k)*512, "size on disk of a portion")
	if n > 0 {
		vsym.Assert(p.ShiftToPaddingBlock(bs) == (s+uint64(n)-1)*uint64(k)*512, "the padding block is the last one")
	}
	j := NewJournalPortion(s, n)
	vsym.Assert(vsym.And(j.Start.AsU64() == s, j.Len == n), "start and length of a journal portion")
	vsym.Assert(j.SizeOnDisk(bs) == uint32(n), "size of a journal portion")
	vsym.Reach("end")
}

// VH_C22_less: the orders used by the free trees are strict total orders.
func VH_C22_less() {
	mk := func(x string) (FreePortion, uint64, uint32) {
		s, n := vsym.U64("s"+x), vsym.U32("n"+x)
		vsym.Assume(vsym.And(s <= address.MAX_ADDRESS, n <= 1<<24-1))
		vsym.Assume(s+uint64(n) <= address.MAX_ADDRESS)
		return NewFreePortion(address.AddressFromU64(s), n), s, n
	}
	p, ps, pn := mk("1")
	q, qs, qn := mk("2")
	l := SizeBasedPortion(p).Less(SizeBasedPortion(q))
	vsym.Assert(l == vsym.Or(pn < qn, vsym.And(pn == qn, ps < qs)), "by size, then by start")
	e := EndBasedPortion(p).Less(EndBasedPortion(q))
	vsym.Assert(e == (ps+uint64(pn) < qs+uint64(qn)), "by end")
	vsym.Reach("end")
}
