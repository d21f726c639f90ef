// Package vjudy stands in for the Judy library when a data race is replayed:
// the race detector does not see accesses made in C, so each call touches a word
// of Go memory as well.
package vjudy

import "github.com/thesues/go-judy"

type Judy1 struct {
	j judy.Judy1
	w uint64
}
type JudyL struct {
	j judy.JudyL
	w uint64
}

var sink uint64

//go:norace
func use(x uint64) { sink = x }

func (j *Judy1) Set(index uint64) bool   { j.w++; return j.j.Set(index) }
func (j *Judy1) Unset(index uint64) bool { j.w++; return j.j.Unset(index) }
func (j *Judy1) Test(index uint64) bool  { use(j.w); return j.j.Test(index) }
func (j *Judy1) Free() uint64            { j.w++; return j.j.Free() }
func (j *Judy1) CountAll() uint64        { use(j.w); return j.j.CountAll() }
func (j *Judy1) CountFrom(indexA, indexB uint64) uint64 {
	use(j.w)
	return j.j.CountFrom(indexA, indexB)
}
func (j *Judy1) MemoryUsed() uint64                { use(j.w); return j.j.MemoryUsed() }
func (j *Judy1) First(index uint64) (uint64, bool) { use(j.w); return j.j.First(index) }
func (j *Judy1) Next(index uint64) (uint64, bool)  { use(j.w); return j.j.Next(index) }
func (j *Judy1) Last(index uint64) (uint64, bool)  { use(j.w); return j.j.Last(index) }
func (j *Judy1) Prev(index uint64) (uint64, bool)  { use(j.w); return j.j.Prev(index) }
func (j *Judy1) ByCount(nth uint64) (uint64, bool) { use(j.w); return j.j.ByCount(nth) }
func (j *JudyL) Insert(index uint64, value uint64) { j.w++; j.j.Insert(index, value) }
func (j *JudyL) Delete(index uint64) bool          { j.w++; return j.j.Delete(index) }
func (j *JudyL) Get(index uint64) (uint64, bool)   { use(j.w); return j.j.Get(index) }
func (j *JudyL) Free() uint64                      { j.w++; return j.j.Free() }
func (j *JudyL) CountAll() uint64                  { use(j.w); return j.j.CountAll() }
func (j *JudyL) CountFrom(indexA, indexB uint64) uint64 {
	use(j.w)
	return j.j.CountFrom(indexA, indexB)
}
func (j *JudyL) MemoryUsed() uint64                        { use(j.w); return j.j.MemoryUsed() }
func (j *JudyL) First(index uint64) (uint64, uint64, bool) { use(j.w); return j.j.First(index) }
func (j *JudyL) Next(index uint64) (uint64, uint64, bool)  { use(j.w); return j.j.Next(index) }
func (j *JudyL) Last(index uint64) (uint64, uint64, bool)  { use(j.w); return j.j.Last(index) }
func (j *JudyL) Prev(index uint64) (uint64, uint64, bool)  { use(j.w); return j.j.Prev(index) }
func (j *JudyL) ByCount(nth uint64) (uint64, uint64, bool) { use(j.w); return j.j.ByCount(nth) }
func (j *JudyL) FirstEmpty(index uint64) (uint64, bool)    { use(j.w); return j.j.FirstEmpty(index) }
func (j *JudyL) NextEmpty(index uint64) (uint64, bool)     { use(j.w); return j.j.NextEmpty(index) }
func (j *JudyL) LastEmpty(index uint64) (uint64, bool)     { use(j.w); return j.j.LastEmpty(index) }
func (j *JudyL) PrevEmpty(index uint64) (uint64, bool)     { use(j.w); return j.j.PrevEmpty(index) }
