package journal

import (
	"bytes"
	"encoding/binary"

	"github.com/thesues/cannyls-go/internal/vsym"
)

func vhEncode(r JournalRecord) []byte {
	var w bytes.Buffer
	vsym.Assert(r.WriteTo(&w) == nil, "encoding succeeds")
	return append([]byte(nil), w.Bytes()...)
}

func vhRead(b []byte) (rec JournalRecord, rest int, err error, crashed bool) {
	rd := bytes.NewReader(b)
	_, crashed = vsym.Try(func() { rec, err = ReadRecordFrom(rd) })
	return rec, rd.Len(), err, crashed
}

// VH_C02_arbitrary: whatever bytes the journal area holds, decoding returns an
// error or a record and never crashes; a returned record is exactly what the
// consumed bytes encode, checksum included.
// bounds: arbitrary byte strings of every length up to 25 (thorough: 32)
// bounds: embedded payloads up to 10 (thorough: 17) bytes inside them
//vsym: conc=400
func VH_C02_arbitrary() {
	n := vsym.Choice("n", vsym.Pick(26, 33))
	b := vsym.Bytes("b", n)
	rec, rest, err, crashed := vhRead(b)
	vsym.Assert(!crashed, "decoding arbitrary bytes does not crash")
	if err != nil {
		vsym.Reach("refused")
		return
	}
	vsym.Assert(rec != nil, "a record or an error")
	vsym.Assert(rec.Tag() == b[4], "the tag on the device is the tag of the record")
	used := n - rest
	vsym.Assert(uint32(used) == rec.ExternalSize(), "consumed exactly the size of the record")
	enc := vhEncode(rec)
	vsym.AssertSame(enc[4:], b[4:used], "the record is what the bytes encode")
	vsym.Assert(binary.BigEndian.Uint32(b) == rec.CheckSum(), "the checksum on the device is that of the record")
	vsym.Assert(binary.BigEndian.Uint32(enc) == rec.CheckSum(), "the record is written with its checksum")
	vsym.Reach("accepted")
}

// VH_C02_truncated: a record cut short at any point is refused.
// bounds: every record kind, embedded data up to 8 bytes, every cut
//vsym: conc=400
func VH_C02_truncated() {
	r := vhRecord(vsym.Choice("kind", 6), 8)
	enc := vhEncode(r)
	k := vsym.Choice("cut", len(enc))
	_, _, err, crashed := vhRead(enc[:k])
	vsym.Assert(!crashed, "decoding a truncated record does not crash")
	vsym.Assert(err != nil, "a truncated record is refused")
	vsym.Reach("end")
}

// VH_C02_flip: a record with any single byte changed to any other value is
// refused, whatever follows it.
// outside: a change of the tag or of an embedded length, which moves the end of
// outside: the record: an additive checksum cannot promise to notice it
// bounds: every record kind, embedded data up to 6 bytes, every position, every
// bounds: new value; 12 arbitrary bytes follow
//vsym: conc=400 time=100 ttime=800
func VH_C02_flip() {
	r := vhRecord(vsym.Choice("kind", 6), 6)
	enc := vhEncode(r)
	p := vsym.Choice("pos", len(enc))
	vsym.Assume(p != 4)
	_, embed := r.(EmbedRecord)
	vsym.Assume(!embed || p != 13 && p != 14)
	nv := vsym.U8("newvalue")
	vsym.Assume(nv != enc[p])
	b := append(append([]byte(nil), enc...), vsym.Bytes("follow", 12)...)
	b[p] = nv
	_, _, err, crashed := vhRead(b)
	vsym.Assert(!crashed, "decoding a damaged record does not crash")
	vsym.Assert(err != nil, "a record with one byte changed is refused")
	vsym.Reach("end")
}
