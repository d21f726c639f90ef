package journal

import (
	"io"

	"github.com/thesues/cannyls-go/internal/vsym"
	"github.com/thesues/cannyls-go/nvm"
)

// vhBuf is a write buffer over a device with arbitrary content, next to the flat
// array it has to behave like.
type vhBuf struct {
	jb      *JournalNvmBuffer
	dev     *nvm.MemoryNVM
	flat    []byte
	touched []vhSpan
	init    []byte
	pos     uint64
	cap     uint64
}
type vhSpan struct{ a, b uint64 }

func vhNewBuf(size int) *vhBuf {
	init := vsym.Bytes("device", size)
	dev, err := nvm.NewFromVec(append([]byte(nil), init...))
	vsym.Assert(err == nil, "a device of whole sectors")
	return &vhBuf{jb: NewJournalNvmBuffer(dev), dev: dev, flat: append([]byte(nil), init...), init: init, cap: uint64(size)}
}

func (b *vhBuf) seek(p uint64) {
	vsym.Split(p, 512)
	got, err := b.jb.Seek(int64(p), io.SeekStart)
	vsym.Assert(err == nil, "a seek inside the device succeeds")
	vsym.Assert(uint64(got) == p, "a seek reports the position")
	b.pos = p
	vsym.Assert(b.jb.Position() == p, "the position is the one sought")
}

func (b *vhBuf) seekRel(d int64, whence int) {
	want := int64(b.pos) + d
	if whence == io.SeekEnd {
		want = int64(b.cap) + d
	}
	vsym.Assume(want >= 0 && want <= int64(b.cap))
	got, err := b.jb.Seek(d, whence)
	vsym.Assert(err == nil, "a relative seek inside the device succeeds")
	vsym.Assert(got == want, "a relative seek reports the position")
	b.pos = uint64(want)
	vsym.Split(b.pos, 512)
	vsym.Assert(b.jb.Position() == b.pos, "the position is the one sought")
}

func (b *vhBuf) write(n uint64) {
	vsym.Split(b.pos+n, 512)
	data := vsym.Bytes("written", int(n))
	k, err := b.jb.Write(data)
	if b.pos+n > b.cap {
		vsym.Assert(err != nil, "a write past the end is refused")
		vsym.Assert(b.jb.Position() == b.pos, "a refused write does not move")
		return
	}
	vsym.Assert(err == nil, "a write inside the device succeeds")
	vsym.Assert(uint64(k) == n, "a write reports its length")
	copy(b.flat[b.pos:], data)
	b.pos += n
	vsym.Assert(b.jb.Position() == b.pos, "a write moves by its length")
}

func (b *vhBuf) read(n uint64) {
	vsym.Split(b.pos+n, 512)
	got := make([]byte, n)
	k, err := b.jb.Read(got)
	want := n
	if b.cap-b.pos < want {
		want = b.cap - b.pos
	}
	vsym.Assert(err == nil || want == 0, "a read inside the device succeeds")
	vsym.Assert(uint64(k) == want, "a read returns what is there")
	vsym.Assert(err != nil || want > 0 || n == 0, "a read at the end says so")
	vsym.AssertSame(got[:want], b.flat[b.pos:b.pos+want], "a read returns the bytes last written")
	b.pos += want
	vsym.Assert(b.jb.Position() == b.pos, "a read moves by its length")
}

// sync checks the device against the array.
func (b *vhBuf) sync() {
	vsym.Assert(b.jb.Sync() == nil, "a sync succeeds")
	vsym.AssertSame(b.dev.AsBytes(), b.flat, "after a sync the device holds the array")
	vsym.Assert(b.jb.Position() == b.pos, "a sync does not move")
}

func (b *vhBuf) step(maxLen uint64) {
	switch vsym.Choice("op", 5) {
	case 0:
		n := vsym.U64("wlen")
		vsym.Assume(n <= maxLen)
		b.write(n)
	case 1:
		n := vsym.U64("rlen")
		vsym.Assume(n <= maxLen)
		b.read(n)
	case 2:
		p := vsym.U64("seek")
		vsym.Assume(p <= b.cap)
		b.seek(p)
	case 3:
		vsym.Assert(b.jb.Flush() == nil, "a flush succeeds")
		vsym.Assert(b.jb.Position() == b.pos, "a flush does not move")
	case 4:
		b.sync()
	}
}

// VH_C03_history: any history of seeks, writes, reads, flushes and syncs.
// bounds: a device of 3 sectors with arbitrary content; two operations (thorough:
// bounds: three) at arbitrary positions, lengths up to 600 bytes, then a sync
//vsym: time=100 ttime=600 conc=400
func VH_C03_history() {
	b := vhNewBuf(1536)
	for i := 0; i < vsym.Pick(2, 3); i++ {
		b.step(600)
	}
	b.sync()
	vsym.Reach("end")
	vsym.Observe("pos", b.pos)
}

// VH_C03_writes: two writes at arbitrary places, then a read anywhere.
// bounds: a device of 3 sectors (thorough: 4); two writes and a read of up to 520 bytes
// bounds: (thorough: 1100)
//vsym: time=100 ttime=900 conc=400
func VH_C03_writes() {
	b := vhNewBuf(vsym.Pick(1536, 2048))
	max := uint64(vsym.Pick(520, 1100))
	for i := 0; i < 2; i++ {
		p, n := vsym.U64("wpos"), vsym.U64("wlen")
		vsym.Assume(vsym.And(p <= b.cap, n <= max))
		b.seek(p)
		b.write(n)
	}
	p, n := vsym.U64("rpos"), vsym.U64("rlen")
	vsym.Assume(vsym.And(p <= b.cap, n <= max))
	b.seek(p)
	b.read(n)
	vsym.Reach("end")
}

// VH_C03_synced: after two writes at arbitrary places, with or without a flush
// between them, a sync leaves the array on the device.
// bounds: a device of 3 sectors (thorough: 4); writes of up to 520 bytes (thorough: 1100)
//vsym: time=100 ttime=900 conc=400
func VH_C03_synced() {
	b := vhNewBuf(vsym.Pick(1536, 2048))
	max := uint64(vsym.Pick(520, 1100))
	for i := 0; i < 2; i++ {
		p, n := vsym.U64("wpos"), vsym.U64("wlen")
		vsym.Assume(vsym.And(p <= b.cap, n <= max))
		b.seek(p)
		b.write(n)
		if i == 0 && vsym.Choice("flush", 2) == 1 {
			vsym.Assert(b.jb.Flush() == nil, "a flush succeeds")
		}
	}
	b.sync()
	vsym.Reach("end")
}

// VH_C03_seek: seeks of every kind.
func VH_C03_seek() {
	b := vhNewBuf(1024)
	p := vsym.U64("p")
	vsym.Assume(p <= b.cap)
	b.seek(p)
	whence := io.SeekCurrent
	if vsym.Choice("whence", 2) == 1 {
		whence = io.SeekEnd
	}
	b.seekRel(int64(vsym.U64("d")), whence)
	n := vsym.U64("n")
	vsym.Assume(n <= 600)
	b.read(n)
	vsym.Assert(b.jb.Capacity() == b.cap, "the capacity is that of the device")
	vsym.Reach("end")
}
