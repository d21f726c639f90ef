package block

import (
	"unsafe"

	"github.com/thesues/cannyls-go/internal/vsym"
)

func vhBlockSize() BlockSize {
	bs, err := NewBlockSize(512 * uint16(1+vsym.Choice("sector", 3)))
	vsym.Assert(err == nil, "a multiple of 512 is a sector size")
	return bs
}

func vhAligned(ab *AlignedBytes, bs BlockSize) {
	if ab.Len() == 0 {
		return
	}
	b := ab.AsBytes()
	vsym.Assert(uintptr(unsafe.Pointer(&b[0]))%uintptr(bs.AsU16()) == 0, "the buffer starts at an aligned address")
}

// VH_C18_rounding: rounding gives the nearest multiple on each side, for every
// sector size and position.
// bounds: every sector size; positions below 2^56
func VH_C18_rounding() {
	k := uint64(1 + vsym.Choice("sector", 127))
	bs, err := NewBlockSize(uint16(k) * 512)
	vsym.Assert(err == nil, "a multiple of 512 is a sector size")
	vsym.Assert(bs.AsU16() == uint16(k)*512 && bs.AsU32() == uint32(k)*512, "a sector size keeps its value")
	// every position is q sectors and r bytes
	q, r := vsym.U64("q"), vsym.U64("r")
	vsym.Assume(vsym.And(q < 1<<40, r < k*512))
	pos := q*k*512 + r
	vsym.Assert(bs.FloorAlign(pos) == q*k*512, "rounding down gives the multiple below")
	want := q * k * 512
	if r > 0 {
		want += k * 512
	}
	vsym.Assert(bs.CeilAlign(pos) == want, "rounding up gives the multiple above")
	vsym.Assert(bs.IsAligned(pos) == (r == 0), "aligned exactly when a multiple")
	vsym.Reach("end")
}

// VH_C18_sizes: exactly the multiples of 512 that fit are sector sizes.
func VH_C18_sizes() {
	n := vsym.U16("n")
	bs, err := NewBlockSize(n)
	vsym.Assert((err == nil) == (n >= 512 && n%512 == 0), "a sector size is a non-zero multiple of 512")
	if err == nil {
		vsym.Assert(bs.AsU16() == n, "a sector size keeps its value")
	}
	vsym.Assert(Min().AsU16() == 512, "the smallest sector size")
	a, b := vhBlockSize(), vhBlockSize()
	vsym.Assert(a.Contains(b) == (a.AsU16()%b.AsU16() == 0), "contains means multiple of")
	vsym.Reach("end")
}

// VH_C18_hold: holding a byte slice keeps its content, whatever its length,
// capacity and address.
// bounds: lengths up to 1600 bytes, up to 700 bytes of spare capacity
func VH_C18_hold() {
	bs := vhBlockSize()
	n, spare, skip := vsym.U64("len"), vsym.U64("spare"), vsym.U64("skip")
	vsym.Assume(vsym.And(n <= 1600, spare <= 700))
	vsym.Assume(skip <= 600)
	all := vsym.Bytes("all", int(n+spare+skip))
	src := all[skip : skip+n]
	want := append([]byte(nil), src...)
	var ab *AlignedBytes
	_, crashed := vsym.Try(func() { ab = FromBytes(src, bs) })
	vsym.Assert(!crashed, "holding bytes does not crash")
	vsym.Assert(uint64(ab.Len()) == n, "length is that of the bytes held")
	vsym.AssertSame(ab.AsBytes(), want, "content is that of the bytes held")
	vsym.Assert(ab.BlockSize() == bs, "sector size kept")
	vhAligned(ab, bs)
	vsym.Reach("end")
}

// VH_C18_history: growing, shrinking, truncating and aligning keep the leading
// bytes and the alignment.
// bounds: a buffer of up to 1100 bytes, then two operations (thorough: three),
// bounds: new lengths up to 2100
//vsym: time=80
func VH_C18_history() {
	bs := vhBlockSize()
	n := vsym.U64("len")
	vsym.Assume(n <= 1100)
	ab := NewAlignedBytes(int(n), bs)
	vsym.Assert(uint64(ab.Len()) == n && uint64(len(ab.AsBytes())) == n, "a new buffer has the requested length")
	vhAligned(ab, bs)
	fill := vsym.Bytes("fill", int(n))
	copy(ab.AsBytes(), fill)
	want := fill
	steps := vsym.Pick(2, 3)
	for i := 0; i < steps; i++ {
		m := vsym.U64("new")
		vsym.Assume(m <= 2100)
		old := uint64(ab.Len())
		exp := m
		switch vsym.Choice("op", 4) {
		case 0:
			ab.Resize(uint32(m))
		case 1:
			ab.AlignResize(uint32(m))
			exp = bs.CeilAlign(m)
		case 2:
			ab.Truncate(uint32(m))
			if m > old {
				exp = old
			}
		case 3:
			vsym.Assert(ab.Align() == ab, "Align returns the buffer")
			exp = bs.CeilAlign(old)
		}
		vsym.Assert(uint64(ab.Len()) == exp, "the length asked for")
		b := ab.AsBytes()
		vsym.Assert(uint64(len(b)) == exp, "as many bytes as the length says")
		vhAligned(ab, bs)
		keep := uint64(len(want))
		if exp < keep {
			keep = exp
		}
		vsym.AssertSame(b[:keep], want[:keep], "leading bytes are kept")
		// everything present now is what later steps have to keep
		want = append([]byte(nil), b...)
	}
	vsym.Reach("end")
}

// VH_C18_separate: two buffers never share memory.
// bounds: lengths up to 1100
func VH_C18_separate() {
	bs := vhBlockSize()
	n, m := vsym.U64("n"), vsym.U64("m")
	vsym.Assume(vsym.And(n <= 1100, m <= 1100))
	a, b := NewAlignedBytes(int(n), bs), NewAlignedBytes(int(m), bs)
	copy(b.AsBytes(), vsym.Bytes("b", int(m)))
	was := append([]byte(nil), b.AsBytes()...)
	copy(a.Align().AsBytes(), vsym.Bytes("a", 2048))
	a.Resize(1536)
	copy(a.AsBytes(), vsym.Bytes("a2", 1536))
	vsym.AssertSame(b.AsBytes(), was, "writing one buffer leaves another alone")
	vsym.Reach("end")
}
