package storage

import (
	"github.com/thesues/cannyls-go/internal/vsym"
	"github.com/thesues/cannyls-go/lump"
)

// VH_C02_store: opening a store one byte of whose journal region was changed.
//bounds: journal of 3 sectors holding a put of up to 40 bytes, an embedded put of 3 bytes and a delete or a further put (ids of any value and any content, fixed ones where the head, a tag, a length or the last record changes); every byte of the journal head and of the records, every new value
//outside: changes of a tag or an embedded length may go unnoticed (an additive checksum cannot promise to notice that the end of the record moved): there only a crash is excluded
//vsym: time=100 ttime=400
func VH_C02_store() {
	last := vsym.Choice("last", 2)
	n := 20 + 18 + 16
	if last == 0 {
		n = 20 + 18 + 13
	}
	p := vsym.Choice("pos", 8+n+5)
	v := vhCreate(3, 3)
	val := vsym.Bytes
	known := p < 8 || p == 8+4 || p == 8+24 || p == 8+20+13 || p == 8+20+14 || p >= 8+38+4 && p < 8+n
	if known {
		// what is read for a record may start anywhere: its content is fixed
		v.ids = append(v.ids, lump.FromU64(0, 1), lump.FromU64(0, 2))
		val = func(_ string, n int) []byte { return []byte("0123456789012345678901234567890123456789")[:n] }
	} else {
		v.vhIds(2)
	}
	a, b := v.ids[0], v.ids[1]
	vsym.Assert(v.put(a, val("value", 40)) == nil, "put succeeds")
	vsym.Assert(v.embed(b, val("value", 3)) == nil, "embedded put succeeds")
	if last == 0 {
		vsym.Assert(v.delete(a) == nil, "delete succeeds")
	} else {
		vsym.Assert(v.embed(a, val("value", 1)) == nil, "embedded put succeeds")
	}
	v.st.Close()
	f := vsym.FileBytes(v.path)
	at := vhBlock + p // journal head
	if p >= 8 {
		at = 2*vhBlock + p - 8 // records
	}
	old := f[at]
	f[at] = vsym.U8("newvalue")
	vsym.Assume(f[at] != old)
	vsym.WriteFile(v.path, f)
	var err error
	_, crashed := vsym.Try(func() { v.st, err = OpenCannylsStorage(v.path) })
	vsym.Assert(!crashed, "opening a damaged store does not crash")
	if p >= 8 {
		p -= 8
		tag := p == 4 || p == 24 || p == 42 || p == n+4
		length := p == 20+13 || p == 20+14 || last == 1 && (p == 38+13 || p == 38+14)
		vsym.Assert(err != nil || tag || length, "a store with a changed record is not opened")
		if err != nil {
			vsym.Reach("refused record")
		}
	} else {
		vsym.Reach("head")
	}
	if err == nil {
		_, crashed = vsym.Try(func() {
			for _, id := range v.st.List() {
				v.st.Get(id)
			}
			v.st.Usage()
		})
		vsym.Assert(!crashed, "reading a store that was opened does not crash")
	}
}
