// Package vatomic stands in for package sync/atomic when a recorded interleaving
// is replayed: each operation is a place where threads may switch.
package vatomic

import (
	"sync/atomic"
	"unsafe"

	"github.com/thesues/cannyls-go/internal/vsync"
)

type Value = atomic.Value

func LoadInt32(p *int32) int32          { vsync.Turn(); return atomic.LoadInt32(p) }
func StoreInt32(p *int32, v int32)      { vsync.Turn(); atomic.StoreInt32(p, v) }
func SwapInt32(p *int32, v int32) int32 { vsync.Turn(); return atomic.SwapInt32(p, v) }
func CompareAndSwapInt32(p *int32, a, b int32) bool {
	vsync.Turn()
	return atomic.CompareAndSwapInt32(p, a, b)
}
func AddInt32(p *int32, d int32) int32 { vsync.Turn(); return atomic.AddInt32(p, d) }

type Int32 struct{ v int32 }

func (x *Int32) Load() int32                    { return LoadInt32(&x.v) }
func (x *Int32) Store(v int32)                  { StoreInt32(&x.v, v) }
func (x *Int32) Swap(v int32) int32             { return SwapInt32(&x.v, v) }
func (x *Int32) CompareAndSwap(a, b int32) bool { return CompareAndSwapInt32(&x.v, a, b) }
func (x *Int32) Add(d int32) int32              { return AddInt32(&x.v, d) }

func LoadInt64(p *int64) int64          { vsync.Turn(); return atomic.LoadInt64(p) }
func StoreInt64(p *int64, v int64)      { vsync.Turn(); atomic.StoreInt64(p, v) }
func SwapInt64(p *int64, v int64) int64 { vsync.Turn(); return atomic.SwapInt64(p, v) }
func CompareAndSwapInt64(p *int64, a, b int64) bool {
	vsync.Turn()
	return atomic.CompareAndSwapInt64(p, a, b)
}
func AddInt64(p *int64, d int64) int64 { vsync.Turn(); return atomic.AddInt64(p, d) }

type Int64 struct{ v int64 }

func (x *Int64) Load() int64                    { return LoadInt64(&x.v) }
func (x *Int64) Store(v int64)                  { StoreInt64(&x.v, v) }
func (x *Int64) Swap(v int64) int64             { return SwapInt64(&x.v, v) }
func (x *Int64) CompareAndSwap(a, b int64) bool { return CompareAndSwapInt64(&x.v, a, b) }
func (x *Int64) Add(d int64) int64              { return AddInt64(&x.v, d) }

func LoadUint32(p *uint32) uint32           { vsync.Turn(); return atomic.LoadUint32(p) }
func StoreUint32(p *uint32, v uint32)       { vsync.Turn(); atomic.StoreUint32(p, v) }
func SwapUint32(p *uint32, v uint32) uint32 { vsync.Turn(); return atomic.SwapUint32(p, v) }
func CompareAndSwapUint32(p *uint32, a, b uint32) bool {
	vsync.Turn()
	return atomic.CompareAndSwapUint32(p, a, b)
}
func AddUint32(p *uint32, d uint32) uint32 { vsync.Turn(); return atomic.AddUint32(p, d) }

type Uint32 struct{ v uint32 }

func (x *Uint32) Load() uint32                    { return LoadUint32(&x.v) }
func (x *Uint32) Store(v uint32)                  { StoreUint32(&x.v, v) }
func (x *Uint32) Swap(v uint32) uint32            { return SwapUint32(&x.v, v) }
func (x *Uint32) CompareAndSwap(a, b uint32) bool { return CompareAndSwapUint32(&x.v, a, b) }
func (x *Uint32) Add(d uint32) uint32             { return AddUint32(&x.v, d) }

func LoadUint64(p *uint64) uint64           { vsync.Turn(); return atomic.LoadUint64(p) }
func StoreUint64(p *uint64, v uint64)       { vsync.Turn(); atomic.StoreUint64(p, v) }
func SwapUint64(p *uint64, v uint64) uint64 { vsync.Turn(); return atomic.SwapUint64(p, v) }
func CompareAndSwapUint64(p *uint64, a, b uint64) bool {
	vsync.Turn()
	return atomic.CompareAndSwapUint64(p, a, b)
}
func AddUint64(p *uint64, d uint64) uint64 { vsync.Turn(); return atomic.AddUint64(p, d) }

type Uint64 struct{ v uint64 }

func (x *Uint64) Load() uint64                    { return LoadUint64(&x.v) }
func (x *Uint64) Store(v uint64)                  { StoreUint64(&x.v, v) }
func (x *Uint64) Swap(v uint64) uint64            { return SwapUint64(&x.v, v) }
func (x *Uint64) CompareAndSwap(a, b uint64) bool { return CompareAndSwapUint64(&x.v, a, b) }
func (x *Uint64) Add(d uint64) uint64             { return AddUint64(&x.v, d) }

func LoadUintptr(p *uintptr) uintptr            { vsync.Turn(); return atomic.LoadUintptr(p) }
func StoreUintptr(p *uintptr, v uintptr)        { vsync.Turn(); atomic.StoreUintptr(p, v) }
func SwapUintptr(p *uintptr, v uintptr) uintptr { vsync.Turn(); return atomic.SwapUintptr(p, v) }
func CompareAndSwapUintptr(p *uintptr, a, b uintptr) bool {
	vsync.Turn()
	return atomic.CompareAndSwapUintptr(p, a, b)
}
func AddUintptr(p *uintptr, d uintptr) uintptr { vsync.Turn(); return atomic.AddUintptr(p, d) }

type Uintptr struct{ v uintptr }

func (x *Uintptr) Load() uintptr                    { return LoadUintptr(&x.v) }
func (x *Uintptr) Store(v uintptr)                  { StoreUintptr(&x.v, v) }
func (x *Uintptr) Swap(v uintptr) uintptr           { return SwapUintptr(&x.v, v) }
func (x *Uintptr) CompareAndSwap(a, b uintptr) bool { return CompareAndSwapUintptr(&x.v, a, b) }
func (x *Uintptr) Add(d uintptr) uintptr            { return AddUintptr(&x.v, d) }

func LoadPointer(p *unsafe.Pointer) unsafe.Pointer     { vsync.Turn(); return atomic.LoadPointer(p) }
func StorePointer(p *unsafe.Pointer, v unsafe.Pointer) { vsync.Turn(); atomic.StorePointer(p, v) }
func SwapPointer(p *unsafe.Pointer, v unsafe.Pointer) unsafe.Pointer {
	vsync.Turn()
	return atomic.SwapPointer(p, v)
}
func CompareAndSwapPointer(p *unsafe.Pointer, a, b unsafe.Pointer) bool {
	vsync.Turn()
	return atomic.CompareAndSwapPointer(p, a, b)
}

type Bool struct{ v uint32 }

func b32(b bool) uint32 {
	if b {
		return 1
	}
	return 0
}
func (x *Bool) Load() bool                    { return LoadUint32(&x.v) != 0 }
func (x *Bool) Store(v bool)                  { StoreUint32(&x.v, b32(v)) }
func (x *Bool) Swap(v bool) bool              { return SwapUint32(&x.v, b32(v)) != 0 }
func (x *Bool) CompareAndSwap(a, b bool) bool { return CompareAndSwapUint32(&x.v, b32(a), b32(b)) }
