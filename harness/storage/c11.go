package storage

import (
	"github.com/thesues/cannyls-go/internal/vsym"
	"github.com/thesues/cannyls-go/lump"
	"github.com/thesues/cannyls-go/portion"
)

// vhRange is any 32-bit offset and length; both are cut into blocks so that the
// places on the device are known while the rest stays symbolic.
func vhRange(max uint32) (start, n uint32) {
	start, n = vsym.U32("start"), vsym.U32("n")
	if start <= max && n <= max {
		vsym.Split(uint64(start), vhBlock)
		vsym.Split(uint64(start)+uint64(n), vhBlock)
	}
	return
}

func vhStoreAt(x *vhRegion, max int) (portion.DataPortion, []byte) {
	if vsym.Choice("second", 2) == 1 {
		_, err := x.r.Put(vhLumpData(vsym.Bytes("other", 5)))
		vsym.Assert(err == nil, "put succeeds while there is room")
	}
	data := vhData(max)
	p, err := x.r.Put(vhLumpData(data))
	vsym.Assert(err == nil, "put succeeds while there is room")
	return p, data
}

// VH_C11_read: reading any range of a lump in the data region.
//bounds: lumps of any size up to 1600 bytes (2100 thorough) and any content, at block 0 or 1 of a device with arbitrary content; any 32-bit offset and length
//outside: larger lumps; lumps put through buffers aligned to more than 512 bytes (VH_C10_sector)
//vsym: time=90
func VH_C11_read() {
	x := vhNewRegion(6, 0)
	p, data := vhStoreAt(x, vsym.Pick(1600, 2100))
	start, n := vhRange(uint32(p.Len) * vhBlock)
	end := uint64(start) + uint64(n)
	got, err := x.r.GetWithOffset(p, start, n)
	size := uint64(len(data))
	if err != nil {
		vsym.Assert(uint64(start) > size || end > uint64(p.Len)*vhBlock-2, "a range inside the lump can be read")
		vsym.Reach("refused")
		return
	}
	vsym.Assert(uint64(start) <= size, "an offset beyond the lump is refused")
	if end > size {
		end = size
	}
	vsym.AssertSame(got, data[start:end], "the bytes read are those of the range, cut at the end of the lump")
	vsym.Reach("end")
}

// VH_C11_update: updating any range in place.
//bounds: as VH_C11_read, with payloads of up to 1100 bytes
//outside: larger lumps and payloads
//vsym: time=90
func VH_C11_update() {
	x := vhNewRegion(6, 0)
	p, data := vhStoreAt(x, vsym.Pick(1100, 1600))
	before := append([]byte(nil), x.vec...)
	start := vsym.U32("start")
	if start <= uint32(p.Len)*vhBlock {
		vsym.Split(uint64(start), vhBlock)
	}
	n := vsym.U64("n")
	vsym.Assume(n <= 1100)
	n = vsym.Split(n, vhBlock)
	if start <= uint32(p.Len)*vhBlock {
		vsym.Split(uint64(start)+n, vhBlock)
	}
	pay := vsym.Bytes("payload", int(n))
	err := x.r.Update(p, start, pay)
	end := uint64(start) + n
	if err != nil {
		vsym.Assert(end > uint64(len(data)), "an update inside the lump succeeds")
		vsym.AssertSame(x.vec, before, "a refused update changes nothing")
		vsym.Reach("refused")
		return
	}
	vsym.Assert(end <= uint64(len(data)), "an update beyond the end of the lump is refused")
	at := p.Start.AsU64() * vhBlock
	copy(before[at+uint64(start):], pay)
	vsym.AssertSame(x.vec, before, "an update changes exactly its range of the device")
	copy(data[start:], pay)
	got, err := x.r.Get(p)
	vsym.Assert(err == nil, "an updated lump can be read")
	vsym.AssertSame(got.AsBytes(), data, "an updated lump has its length and its bytes outside the range")
	vsym.Reach("end")
}

// VH_C11_store: partial reads and in-place updates of a store, data and embedded.
//bounds: one lump of up to 600 bytes, or 3 embedded bytes, and a second one; any offset and length up to 32 bits; payloads of up to 40 bytes
//outside: larger values
//vsym: time=90
func VH_C11_store() { vhC11Store(vsym.Choice("kind", 2)) }

// VH_C11_create: creating a lump at an offset with a reservation, then as VH_C11_store.
//bounds: creation with any offset up to 500 and reservation up to 600 (1100 thorough), payload of 30 bytes or none; in the thorough tier, then a read or an update
//outside: larger values
//vsym: time=90
func VH_C11_create() { vhC11Store(2) }

func vhC11Store(kind int) {
	v := vhCreate(4, 8)
	v.vhIds(2)
	a, b := v.ids[0], v.ids[1]
	vsym.Assert(v.put(b, vsym.Bytes("other", 20)) == nil, "put succeeds while there is room")
	switch kind {
	case 0:
		vsym.Assert(v.put(a, vhData(600)) == nil, "put succeeds while there is room")
	case 1:
		vsym.Assert(v.embed(a, vhSmall(3)) == nil, "embedded put succeeds while there is room")
	case 2:
		// created at an offset with room reserved
		start, res := vsym.U32("start"), vsym.U32("reservation")
		vsym.Assume(start <= uint32(vsym.Pick(500, 1100)) && res <= uint32(vsym.Pick(600, 1100)))
		vsym.Split(uint64(start), vhBlock)
		n := []int{30, 0}[vsym.Choice("n", 2)]
		pay := vsym.Bytes("payload", n)
		err := v.st.PutWithOffset(a, vhLumpData(append([]byte(nil), pay...)), start, res)
		vsym.Assert(err == nil, "a lump can be created at an offset")
		size := uint64(start) + uint64(n)
		if size < uint64(res) {
			size = uint64(res)
		}
		vsym.Split(size, vhBlock)
		data := make([]byte, size)
		copy(data[start:], pay)
		v.set(a, data, false)
	}
	v.check(a)
	if kind == 2 && vsym.Pick(0, 1) == 0 {
		v.check(b)
		vsym.Reach("end")
		return
	}
	data := v.ref[v.at(a)].data
	if vsym.Choice("then", 2) == 0 {
		start, n := vhRange(2048)
		got, err := v.st.GetWithOffset(a, start, n)
		end := uint64(start) + uint64(n)
		size := uint64(len(data))
		if err != nil {
			room := (size+2+vhBlock-1)/vhBlock*vhBlock - 2
			if kind == 1 {
				room = size
			}
			vsym.Assert(uint64(start) > size || end > room, "a range inside the lump can be read")
			vsym.Reach("refused read")
		} else {
			vsym.Assert(uint64(start) <= size, "an offset beyond the lump is refused")
			if end > size {
				end = size
			}
			vsym.AssertSame(got, data[start:end], "the bytes read are those of the range, cut at the end of the lump")
			vsym.Reach("read")
		}
	} else {
		start := vsym.U32("start")
		if start <= 2048 {
			vsym.Split(uint64(start), vhBlock)
		}
		pay := vsym.Bytes("payload", []int{0, 40, 1}[vsym.Choice("n", vsym.Pick(2, 3))])
		err := v.st.PutWithOffset(a, vhLumpData(append([]byte(nil), pay...)), start, vsym.U32("reservation"))
		if err != nil {
			vsym.Assert(kind == 1 || uint64(start)+uint64(len(pay)) > uint64(len(data)), "an update inside the lump succeeds")
			vsym.Reach("refused update")
		} else {
			vsym.Assert(uint64(start)+uint64(len(pay)) <= uint64(len(data)), "an update beyond the end of the lump is refused")
			copy(data[start:], pay)
			vsym.Reach("update")
		}
	}
	v.check(a)
	v.check(b)
	vsym.Reach("end")
}

// VH_C11_limits: creating a lump at any 32-bit offset with any reservation.
//bounds: any offset and reservation at or beyond the maximum lump size, payload of 3 bytes
//outside: -
func VH_C11_limits() {
	v := vhCreate(4, 3)
	v.vhIds(1)
	start, res := vsym.U32("start"), vsym.U32("reservation")
	vsym.Assume(uint64(start)+3 > lump.LUMP_MAX_SIZE || res > lump.LUMP_MAX_SIZE)
	err := v.st.PutWithOffset(v.ids[0], vhLumpData(vsym.Bytes("payload", 3)), start, res)
	vsym.Assert(err != nil, "a lump beyond the maximum size is refused")
	v.checkAll()
	v.checkUsage()
	vsym.Reach("end")
}

// VH_C11_large: reading and updating ranges of large lumps.
//bounds: lumps of 65534, 65536, 70001 and 20000003 bytes and the maximum, of any content, at block 0 or 1; ranges of 0, 3, 600 or 66000 bytes beginning anywhere within 20 bytes around the beginning, 65536, a block boundary in the middle, and the end
//outside: other sizes, other ranges
//vsym: time=90 ttime=300
func VH_C11_large() {
	sizes := []int{65534, 65536, 70001, 20000003, lump.LUMP_MAX_SIZE}
	n := sizes[vsym.Choice("size", len(sizes))]
	x := vhNewRegionOf((n+2+vhBlock-1)/vhBlock + 1)
	if vsym.Choice("second", 2) == 1 {
		_, err := x.r.Put(vhLumpData(vsym.Bytes("other", 5)))
		vsym.Assert(err == nil, "put succeeds while there is room")
	}
	data := vsym.Bytes("value", n)
	p, err := x.r.Put(vhLumpData(data))
	vsym.Assert(err == nil, "put succeeds while there is room")
	base := []int{0, 65526, n / 2 / vhBlock * vhBlock, n - 10}[vsym.Choice("at", 4)]
	off := vsym.U64("offset")
	vsym.Assume(off < 20)
	start := uint64(base) + off
	vsym.Split(start, vhBlock)
	k := uint64([]int{0, 3, 600, 66000}[vsym.Choice("n", 4)])
	vsym.Split(start+k, vhBlock)
	if vsym.Choice("op", 2) == 0 {
		got, err := x.r.GetWithOffset(p, uint32(start), uint32(k))
		end := start + k
		if err != nil {
			vsym.Assert(start > uint64(n) || end > uint64(p.Len)*vhBlock-2, "a range inside the lump can be read")
			vsym.Reach("refused read")
			return
		}
		vsym.Assert(start <= uint64(n), "an offset beyond the lump is refused")
		if end > uint64(n) {
			end = uint64(n)
		}
		vsym.AssertSame(got, data[start:end], "the bytes read are those of the range, cut at the end of the lump")
		vsym.Reach("read")
		return
	}
	pay := vsym.Bytes("payload", int(k))
	err = x.r.Update(p, uint32(start), pay)
	if err != nil {
		vsym.Assert(start+k > uint64(n), "an update inside the lump succeeds")
		vsym.Reach("refused update")
	} else {
		vsym.Assert(start+k <= uint64(n), "an update beyond the end of the lump is refused")
		copy(data[start:], pay)
		vsym.Reach("update")
	}
	got, err := x.r.Get(p)
	vsym.Assert(err == nil, "the lump can be read")
	vsym.AssertSame(got.AsBytes(), data, "the lump has its length and its bytes outside the range")
	vsym.Reach("end")
}
