package lumpindex

import (
	"github.com/thesues/cannyls-go/internal/vsym"
	"github.com/thesues/cannyls-go/lump"
	"github.com/thesues/cannyls-go/portion"
)

type vhEntry struct {
	id uint64
	p  portion.Portion
}

func vhInsert(x *LumpIndex, e vhEntry) {
	switch v := e.p.(type) {
	case portion.DataPortion:
		x.InsertDataPortion(lump.FromU64(0, e.id), v)
	case portion.JournalPortion:
		x.InsertJournalPortion(lump.FromU64(0, e.id), v)
	}
}

func vhPortion() portion.Portion {
	start := vsym.U64("start")
	vsym.Assume(start < 1<<40)
	n := vsym.U16("n")
	if vsym.Choice("kind", 2) == 0 {
		return portion.NewDataPortion(start, n)
	}
	return portion.NewJournalPortion(start, n)
}

// vhFill makes an index of up to max entries inserted in any order; the
// reference is ascending.
func vhFill(max int) (*LumpIndex, []vhEntry) {
	x := NewIndex()
	var ref []vhEntry
	n := vsym.Choice("count", max+1)
	for i := 0; i < n; i++ {
		e := vhEntry{vsym.U64("id"), vhPortion()}
		if i > 0 {
			vsym.Assume(ref[i-1].id < e.id)
		}
		ref = append(ref, e)
	}
	left := append([]vhEntry(nil), ref...)
	for len(left) > 0 {
		i := vsym.Choice("next", len(left))
		vhInsert(x, left[i])
		left = append(append([]vhEntry(nil), left[:i]...), left[i+1:]...)
	}
	return x, ref
}

func vhQueries(x *LumpIndex, ref []vhEntry) {
	vsym.Assert(x.Count() == uint64(len(ref)), "the count is the number of ids")
	l := x.List()
	vsym.Assert(len(l) == len(ref), "the full list has every id once")
	for i := range ref {
		vsym.Assert(l[i].U64() == ref[i].id, "the full list is in ascending order")
		p, err := x.Get(l[i])
		vsym.Assert(err == nil && p == ref[i].p, "an id leads to its own location")
	}
	min, ok := x.Min()
	max, ok2 := x.Max()
	vsym.Assert(ok == (len(ref) > 0) && ok2 == ok, "minimum and maximum exist exactly when there is an id")
	if ok {
		vsym.Assert(min.U64() == ref[0].id, "the minimum is the smallest id")
		vsym.Assert(max.U64() == ref[len(ref)-1].id, "the maximum is the largest id")
	}
	// the location lists used to rebuild the allocator
	dp := x.DataPortions()
	k := 1
	for _, e := range ref {
		if p, is := e.p.(portion.DataPortion); is {
			vsym.Assert(k < len(dp) && dp[k] == p, "every data location is listed, by id")
			k++
		}
	}
	vsym.Assert(k == len(dp), "only data locations are listed")
	free, ok3 := x.FirstEmpty()
	vsym.Assert(ok3, "there is an unused id")
	for i, e := range ref {
		vsym.Assert(free.U64() != e.id, "the unused id is unused")
		if e.id < free.U64() {
			vsym.Assert(e.id == uint64(i), "no smaller id is unused")
		}
	}
	n := uint64(0)
	for _, e := range ref {
		n += vsym.Ite64(e.id < free.U64(), 1, 0)
	}
	vsym.Assert(n == free.U64(), "all ids below the first unused one are used")
	// an arbitrary id
	q := lump.FromU64(0, vsym.U64("query"))
	first, err := x.First(q)
	i := 0
	for i < len(ref) && ref[i].id < q.U64() {
		i++
	}
	vsym.Assert((err == nil) == (i < len(ref)), "first finds an id exactly when one is there")
	if err == nil {
		vsym.Assert(first.U64() == ref[i].id, "first finds the smallest id at or above the start")
	}
	p, err := x.Get(q)
	if i < len(ref) && ref[i].id == q.U64() {
		vsym.Assert(err == nil && p == ref[i].p, "a stored id is found")
	} else {
		vsym.Assert(err != nil, "an absent id is not found")
	}
}

// VH_C15_queries: queries on any index built by insertions in any order.
//bounds: up to 3 ids (4 in the thorough tier) of any 64-bit value, any location, any insertion order, any id asked for
//outside: more ids; the judy arrays themselves are modelled as sorted maps
//vsym: time=90
func VH_C15_queries() {
	x, ref := vhFill(vsym.Pick(3, 4))
	vhQueries(x, ref)
	vsym.Reach("end")
}

// VH_C15_range: range listing and iteration with any bounds.
//bounds: up to 3 ids (4 thorough) of any value; any start, end and maximum count
//outside: more ids
//vsym: time=90
func VH_C15_range() {
	x, ref := vhFill(vsym.Pick(3, 4))
	a, b, max := vsym.U64("start"), vsym.U64("end"), vsym.U64("max")
	var want []vhEntry
	for _, e := range ref {
		if a <= e.id && e.id < b {
			want = append(want, e)
		}
	}
	k := 0
	err := x.RangeIter(lump.FromU64(0, a), lump.FromU64(0, b), func(id lump.LumpId, p portion.Portion) error {
		vsym.Assert(k < len(want) && id.U64() == want[k].id && p == want[k].p, "iteration visits the ids in range, ascending, with their locations")
		k++
		return nil
	})
	vsym.Assert(err == nil && k == len(want), "iteration visits every id in range")
	l := x.ListRange(lump.FromU64(0, a), lump.FromU64(0, b), max)
	if max < uint64(len(want)) {
		want = want[:max]
	}
	vsym.Assert(len(l) == len(want), "a range list has the ids in range, at most as many as asked for")
	for i := range want {
		vsym.Assert(l[i].U64() == want[i].id, "a range list is in ascending order")
	}
	vsym.Reach("end")
}

// VH_C15_change: overwriting, deleting and range deleting keep the queries right.
//bounds: up to 2 ids (3 thorough) of any value, then a change (two thorough) with any arguments
//outside: more ids, more changes
//vsym: time=90
func VH_C15_change() {
	x, ref := vhFill(vsym.Pick(2, 3))
	for s := 0; s < vsym.Pick(1, 2); s++ {
		switch vsym.Choice("change", 3) {
		case 0:
			e := vhEntry{vsym.U64("id"), vhPortion()}
			vhInsert(x, e)
			i := 0
			for i < len(ref) && ref[i].id < e.id {
				i++
			}
			out := append([]vhEntry(nil), ref[:i]...)
			out = append(out, e)
			if i < len(ref) && ref[i].id == e.id {
				i++
			}
			ref = append(out, ref[i:]...)
		case 1:
			id := vsym.U64("id")
			var out []vhEntry
			for _, e := range ref {
				if e.id != id {
					out = append(out, e)
				}
			}
			ok := x.Delete(lump.FromU64(0, id))
			vsym.Assert(ok == (len(out) < len(ref)), "delete reports whether the id was there")
			ref = out
		case 2:
			a, b := vsym.U64("start"), vsym.U64("end")
			var out []vhEntry
			for _, e := range ref {
				if e.id < a || e.id >= b {
					out = append(out, e)
				}
			}
			x.DeleteRange(lump.FromU64(0, a), lump.FromU64(0, b))
			ref = out
		}
	}
	vhQueries(x, ref)
	vsym.Reach("end")
}
