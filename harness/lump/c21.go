package lump

import (
	"bytes"

	"github.com/thesues/cannyls-go/internal/vsym"
)

// VH_C21_bytes: id -> bytes -> id is the identity for every id, and every form
// written agrees.
func VH_C21_bytes() {
	n := vsym.U64("n")
	id := FromU64(0, n)
	vsym.Assert(id.U64() == n, "FromU64(n).U64() == n")
	b := id.GetBytes()
	vsym.Assert(len(b) == 8, "eight bytes")
	back, err := FromBytes(b)
	vsym.Assert(err == nil, "eight bytes are accepted")
	vsym.Assert(back.U64() == n, "bytes and back give the same id")
	var w bytes.Buffer
	k, err := id.Write(&w)
	vsym.Assert(err == nil && k == 8, "Write writes eight bytes")
	vsym.AssertSame(w.Bytes(), b, "Write writes what GetBytes returns")
	// and the other way round
	raw := vsym.Bytes("raw", 8)
	rid, err := FromBytes(raw)
	vsym.Assert(err == nil, "any eight bytes are an id")
	vsym.AssertSame(rid.GetBytes(), raw, "id of bytes gives the bytes back")
	vsym.Reach("end")
	vsym.Observe("u64", rid.U64())
}

// VH_C21_badbytes: any other length is refused.
// bounds: lengths 0 to 20
func VH_C21_badbytes() {
	n := vsym.Choice("len", 21)
	vsym.Assume(n != 8)
	_, err := FromBytes(vsym.Bytes("b", n))
	vsym.Assert(err != nil, "a byte string that is not eight bytes long is refused")
	vsym.Reach("end")
}

// VH_C21_order: comparison is the unsigned order, and so is the byte form.
func VH_C21_order() {
	x, y := vsym.U64("x"), vsym.U64("y")
	a, b := FromU64(0, x), FromU64(0, y)
	c := a.Compare(b)
	vsym.Assert((c == 0) == (x == y), "compares equal exactly when equal")
	vsym.Assert((c < 0) == (x < y), "compares less exactly when less")
	vsym.Assert((c > 0) == (x > y), "compares greater exactly when greater")
	vsym.Assert((bytes.Compare(a.GetBytes(), b.GetBytes()) < 0) == (x < y), "byte forms order as the ids do")
	vsym.Reach("end")
}

// VH_C21_inc: the next id, and the largest one.
func VH_C21_inc() {
	x := vsym.U64("x")
	a := FromU64(0, x)
	vsym.Assert(a.IsMax() == (x == ^uint64(0)), "IsMax says whether the id is the largest")
	if x != ^uint64(0) {
		b := a.Inc()
		vsym.Assert(b.U64() == x+1, "Inc is the next id")
		vsym.Assert(a.Compare(b) < 0, "Inc is greater")
	}
	vsym.Assert(EmptyLump().U64() == 0, "the empty id is zero")
	vsym.Reach("end")
}

// VH_C21_text: text and back gives the same id.
// bounds: ids of 1 to 16 hex digits with three arbitrary digits (thorough: 4)
// bounds: next to each other, all others any one repeated digit
//vsym: conc=500
func VH_C21_text() {
	k := vsym.Pick(3, 4)
	pos := vsym.Choice("pos", 17-k) * 4
	mid := vsym.U64("digits")
	vsym.Assume(mid < 1<<(4*uint(k)))
	var base uint64
	switch vsym.Choice("rest", 3) {
	case 1:
		base = 0x1111111111111111
	case 2:
		base = 0xffffffffffffffff
	}
	mask := (uint64(1)<<(4*uint(k)) - 1) << uint(pos)
	n := base&^mask | mid<<uint(pos)
	id := FromU64(0, n)
	s := id.String()
	vsym.Assert(len(s) >= 1 && len(s) <= 16, "one to sixteen digits")
	back, err := FromString(s)
	vsym.Assert(err == nil, "the text of an id is accepted")
	vsym.Assert(back.U64() == n, "text and back give the same id")
	vsym.Reach("end")
	vsym.Observe("n", n)
}

// VH_C21_badtext: text is accepted exactly when it is a hexadecimal number of
// 64 bits.
// bounds: every string of at most 3 bytes, and one arbitrary byte at any place
// bounds: of a 16 or 17 digit text
//vsym: conc=500
func VH_C21_badtext() {
	var b []byte
	if vsym.Choice("form", 2) == 0 {
		b = vsym.Bytes("s", vsym.Choice("len", 4))
	} else {
		n := 16 + vsym.Choice("digits", 2)
		for i := 0; i < n; i++ {
			b = append(b, '7')
		}
		b[vsym.Choice("at", n)] = vsym.U8("c")
	}
	id, err := FromString(string(b))
	ok := len(b) > 0
	var v uint64
	over := false
	for _, c := range b {
		d := uint64(0)
		switch {
		case c >= '0' && c <= '9':
			d = uint64(c - '0')
		case c >= 'a' && c <= 'f':
			d = uint64(c-'a') + 10
		case c >= 'A' && c <= 'F':
			d = uint64(c-'A') + 10
		default:
			ok = false
		}
		if v>>60 != 0 {
			over = true
		}
		v = v<<4 | d
	}
	if !ok || over {
		vsym.Assert(err != nil, "text that is not a 64-bit hexadecimal number is refused")
		vsym.Reach("refused")
		return
	}
	vsym.Assert(err == nil, "a hexadecimal number is accepted")
	vsym.Assert(id.U64() == v, "and has the value of its digits")
	vsym.Reach("accepted")
}
