package journal

import (
	"bytes"
	"io"

	"github.com/thesues/cannyls-go/internal/vsym"
	"github.com/thesues/cannyls-go/lump"
	"github.com/thesues/cannyls-go/portion"
)

// vhRecord makes an arbitrary record of the given kind.
func vhRecord(kind int, maxEmbed int) JournalRecord {
	id := lump.FromU64(0, vsym.U64("id"))
	switch kind {
	case 0:
		return EndOfRecords{}
	case 1:
		return GoToFront{}
	case 2:
		start := vsym.U64("start")
		vsym.Assume(start < 1<<40)
		return PutRecord{LumpID: id, DataPortion: portion.NewDataPortion(start, vsym.U16("len"))}
	case 3:
		return DeleteRecord{LumpID: id}
	case 4:
		return DeleteRange{Start: id, End: lump.FromU64(0, vsym.U64("end"))}
	}
	n := vsym.Choice("n", maxEmbed+1)
	return EmbedRecord{LumpID: id, Data: vsym.Bytes("data", n)}
}

func vhSameRecord(a, b JournalRecord, what string) {
	switch x := a.(type) {
	case EndOfRecords:
		_, ok := b.(EndOfRecords)
		vsym.Assert(ok, what+": end-of-records comes back as such")
	case GoToFront:
		_, ok := b.(GoToFront)
		vsym.Assert(ok, what+": go-to-front comes back as such")
	case PutRecord:
		y, ok := b.(PutRecord)
		vsym.Assert(ok, what+": put comes back as such")
		vsym.Assert(x.LumpID.U64() == y.LumpID.U64(), what+": lump id of a put")
		vsym.Assert(x.DataPortion.Start == y.DataPortion.Start, what+": start of a put")
		vsym.Assert(x.DataPortion.Len == y.DataPortion.Len, what+": length of a put")
	case DeleteRecord:
		y, ok := b.(DeleteRecord)
		vsym.Assert(ok, what+": delete comes back as such")
		vsym.Assert(x.LumpID.U64() == y.LumpID.U64(), what+": lump id of a delete")
	case DeleteRange:
		y, ok := b.(DeleteRange)
		vsym.Assert(ok, what+": delete-range comes back as such")
		vsym.Assert(x.Start.U64() == y.Start.U64(), what+": start of a range")
		vsym.Assert(x.End.U64() == y.End.U64(), what+": end of a range")
	case EmbedRecord:
		y, ok := b.(EmbedRecord)
		vsym.Assert(ok, what+": embedded lump comes back as such")
		vsym.Assert(x.LumpID.U64() == y.LumpID.U64(), what+": lump id of an embedded lump")
		vsym.AssertSame(x.Data, y.Data, what+": bytes of an embedded lump")
	}
}

// vhPieces hands out what it has in pieces, as a file, a pipe or a buffered
// device may: a Read returns between one byte and all that was asked for.
type vhPieces struct {
	data []byte
	cuts int // how many more reads may fall short
}

func (p *vhPieces) Read(b []byte) (int, error) {
	if len(b) == 0 {
		return 0, nil
	}
	if len(p.data) == 0 {
		return 0, io.EOF
	}
	n := len(b)
	if n > len(p.data) {
		n = len(p.data)
	}
	if n > 1 && p.cuts > 0 {
		if k := vsym.Choice("piece", 3); k > 0 {
			p.cuts--
			if k == 1 {
				n = 1
			} else {
				n--
			}
		}
	}
	copy(b, p.data[:n])
	p.data = p.data[n:]
	return n, nil
}

// VH_C01_pieces: a record is decoded to what was encoded whatever pieces the
// reader hands its bytes out in.
//bounds: every record kind; embedded data of 0 to 4 bytes; up to 2 reads, any of them, return one byte, or all but one, of what was asked for
//vsym: conc=400
func VH_C01_pieces() {
	r := vhRecord(vsym.Choice("kind", 6), 4)
	var w bytes.Buffer
	vsym.Assert(r.WriteTo(&w) == nil, "encoding succeeds")
	enc := append([]byte(nil), w.Bytes()...)
	tail := vsym.U8("tail")
	rd := &vhPieces{data: append(enc, tail, tail), cuts: 2}
	got, err := ReadRecordFrom(rd)
	vsym.Assert(err == nil, "decoding succeeds")
	vhSameRecord(r, got, "round trip in pieces")
	vsym.Assert(len(rd.data) == 2, "decoding consumes exactly the record")
	vsym.Reach("end")
}

// VH_C01_roundtrip: every record kind with arbitrary fields is encoded in
// exactly ExternalSize bytes and decoded to the same record, leaving the reader
// at the first byte after it.
// bounds: embedded data up to 24 bytes; ids, portions and data bytes arbitrary
//vsym: conc=400
func VH_C01_roundtrip() {
	r := vhRecord(vsym.Choice("kind", 6), 24)
	var w bytes.Buffer
	err := r.WriteTo(&w)
	vsym.Assert(err == nil, "encoding succeeds")
	vsym.Assert(uint32(w.Len()) == r.ExternalSize(), "encoded size is ExternalSize")
	enc := append([]byte(nil), w.Bytes()...)
	tail := vsym.U8("tail")
	rd := bytes.NewReader(append(enc, tail, tail))
	got, err := ReadRecordFrom(rd)
	vsym.Assert(err == nil, "decoding succeeds")
	vhSameRecord(r, got, "round trip")
	vsym.Assert(rd.Len() == 2, "decoding consumes exactly the record")
	vsym.Reach("end")
	vsym.Observe("size", uint64(r.ExternalSize()))
	vsym.Observe("sum", uint64(r.CheckSum()))
}

// VH_C01_large: as VH_C01_roundtrip, embedded data at the limits of its length field.
// bounds: 255, 256, 32767, 32768, 65534 and 65535 bytes, zero except for three arbitrary ones at the ends and in the middle; any id
// outside: the lengths in between, other content
//vsym: conc=400
func VH_C01_large() {
	sizes := []int{255, 256, 32767, 32768, 65534, 65535}
	n := sizes[vsym.Choice("size", len(sizes))]
	data := make([]byte, n)
	data[0], data[n/2], data[n-1] = vsym.U8("first"), vsym.U8("middle"), vsym.U8("last")
	r := EmbedRecord{LumpID: lump.FromU64(0, vsym.U64("id")), Data: data}
	var w bytes.Buffer
	err := r.WriteTo(&w)
	vsym.Assert(err == nil, "encoding succeeds")
	vsym.Assert(uint32(w.Len()) == r.ExternalSize(), "encoded size is ExternalSize")
	rd := bytes.NewReader(append(append([]byte(nil), w.Bytes()...), 1, 2))
	got, err := ReadRecordFrom(rd)
	vsym.Assert(err == nil, "decoding succeeds")
	vhSameRecord(r, got, "round trip")
	vsym.Assert(rd.Len() == 2, "decoding consumes exactly the record")
	vsym.Reach("end")
}
