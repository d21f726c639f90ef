package storage

import (
	"github.com/thesues/cannyls-go/internal/vsym"
	"github.com/thesues/cannyls-go/lump"
)

// VH_C15_store: the queries of a store after any short history.
//bounds: 2 ids of any value, 2 operations (3 thorough; embedded put, put, delete, range delete, reopen), any range and count asked for
//outside: longer histories, more ids
//vsym: time=90
func VH_C15_store() {
	v := vhCreate(4, 3)
	v.vhIds(2)
	for i := 0; i < vsym.Pick(2, 3); i++ {
		v.stepMay(510, []int{3}, opPut, opEmbed, opDelete, opRange, opReopen)
	}
	var want []uint64
	for _, id := range v.ids {
		if v.at(id) >= 0 {
			want = append(want, id.U64())
		}
	}
	l := v.st.List()
	vsym.Assert(len(l) == len(want), "the list has every stored id once")
	for i := range want {
		vsym.Assert(l[i].U64() == want[i], "the list is in ascending order")
	}
	min, ok := v.st.MinId()
	max, ok2 := v.st.MaxId()
	vsym.Assert(ok == (len(want) > 0) && ok2 == ok, "minimum and maximum exist exactly when something is stored")
	if ok {
		vsym.Assert(min.U64() == want[0], "the minimum is the smallest id")
		vsym.Assert(max.U64() == want[len(want)-1], "the maximum is the largest id")
	}
	vsym.Assert(v.st.Usage().FileCounts == uint64(len(want)), "the count is the number of stored ids")
	id, ok := v.st.GenerateEmptyId()
	vsym.Assert(ok, "there is an unused id")
	switch {
	case len(want) == 0:
		vsym.Assert(id.U64() == 0, "the first id of an empty store is 0")
	case want[len(want)-1] != ^uint64(0):
		vsym.Assert(id.U64() == want[len(want)-1]+1, "the unused id follows the largest one")
	default:
		n := uint64(0)
		for _, w := range want {
			vsym.Assert(w != id.U64(), "the unused id is unused")
			n += vsym.Ite64(w < id.U64(), 1, 0)
		}
		vsym.Assert(n == id.U64(), "the unused id is the smallest")
	}
	a, b, m := vsym.U64("start"), vsym.U64("end"), vsym.U64("max")
	r := v.st.ListRange(lump.FromU64(0, a), lump.FromU64(0, b), m)
	var in []uint64
	for _, w := range want {
		if a <= w && w < b {
			in = append(in, w)
		}
	}
	if m < uint64(len(in)) {
		in = in[:m]
	}
	vsym.Assert(len(r) == len(in), "a range list has the ids in range, at most as many as asked for")
	for i := range in {
		vsym.Assert(r[i].U64() == in[i], "a range list is in ascending order")
	}
	f, err := v.st.First(lump.FromU64(0, a))
	i := 0
	for i < len(want) && want[i] < a {
		i++
	}
	vsym.Assert((err == nil) == (i < len(want)), "first finds an id exactly when one is there")
	if err == nil {
		vsym.Assert(f.U64() == want[i], "first finds the smallest id at or above the start")
	}
	v.st.Close()
	vsym.Assert(len(v.st.List()) == 0, "a closed store lists nothing")
	_, ok = v.st.MinId()
	vsym.Assert(!ok, "a closed store has no minimum")
	_, err = v.st.First(lump.FromU64(0, a))
	vsym.Assert(err != nil, "a closed store finds nothing")
	vsym.Reach("end")
}
