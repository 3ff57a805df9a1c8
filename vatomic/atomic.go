// Package atomic replaces sync/atomic in the code under test when the
// schedules are enumerated: every operation is a scheduling point.
package atomic

import (
	real "sync/atomic"
	"unsafe"

	"vmc/vsched"
)

func yield() {
	if vsched.Managed() {
		vsched.Point(vsched.Yield, nil)
	}
}

type Bool struct{ v real.Bool }

func (x *Bool) Load() bool                    { yield(); return x.v.Load() }
func (x *Bool) Store(v bool)                  { yield(); x.v.Store(v) }
func (x *Bool) Swap(v bool) bool              { yield(); return x.v.Swap(v) }
func (x *Bool) CompareAndSwap(a, b bool) bool { yield(); return x.v.CompareAndSwap(a, b) }

type Value struct{ v real.Value }

func (x *Value) Load() any                    { yield(); return x.v.Load() }
func (x *Value) Store(v any)                  { yield(); x.v.Store(v) }
func (x *Value) Swap(v any) any               { yield(); return x.v.Swap(v) }
func (x *Value) CompareAndSwap(a, b any) bool { yield(); return x.v.CompareAndSwap(a, b) }

type Pointer[T any] struct{ v real.Pointer[T] }

func (x *Pointer[T]) Load() *T                    { yield(); return x.v.Load() }
func (x *Pointer[T]) Store(v *T)                  { yield(); x.v.Store(v) }
func (x *Pointer[T]) Swap(v *T) *T                { yield(); return x.v.Swap(v) }
func (x *Pointer[T]) CompareAndSwap(a, b *T) bool { yield(); return x.v.CompareAndSwap(a, b) }

func LoadPointer(p *unsafe.Pointer) unsafe.Pointer     { yield(); return real.LoadPointer(p) }
func StorePointer(p *unsafe.Pointer, v unsafe.Pointer) { yield(); real.StorePointer(p, v) }
func SwapPointer(p *unsafe.Pointer, v unsafe.Pointer) unsafe.Pointer {
	yield()
	return real.SwapPointer(p, v)
}
func CompareAndSwapPointer(p *unsafe.Pointer, a, b unsafe.Pointer) bool {
	yield()
	return real.CompareAndSwapPointer(p, a, b)
}

type Int32 struct{ v real.Int32 }

func (x *Int32) Load() int32                    { yield(); return x.v.Load() }
func (x *Int32) Store(v int32)                  { yield(); x.v.Store(v) }
func (x *Int32) Swap(v int32) int32             { yield(); return x.v.Swap(v) }
func (x *Int32) Add(v int32) int32              { yield(); return x.v.Add(v) }
func (x *Int32) And(v int32) int32              { yield(); return x.v.And(v) }
func (x *Int32) Or(v int32) int32               { yield(); return x.v.Or(v) }
func (x *Int32) CompareAndSwap(a, b int32) bool { yield(); return x.v.CompareAndSwap(a, b) }

func LoadInt32(p *int32) int32          { yield(); return real.LoadInt32(p) }
func StoreInt32(p *int32, v int32)      { yield(); real.StoreInt32(p, v) }
func SwapInt32(p *int32, v int32) int32 { yield(); return real.SwapInt32(p, v) }
func AddInt32(p *int32, v int32) int32  { yield(); return real.AddInt32(p, v) }
func AndInt32(p *int32, v int32) int32  { yield(); return real.AndInt32(p, v) }
func OrInt32(p *int32, v int32) int32   { yield(); return real.OrInt32(p, v) }
func CompareAndSwapInt32(p *int32, a, b int32) bool {
	yield()
	return real.CompareAndSwapInt32(p, a, b)
}

type Int64 struct{ v real.Int64 }

func (x *Int64) Load() int64                    { yield(); return x.v.Load() }
func (x *Int64) Store(v int64)                  { yield(); x.v.Store(v) }
func (x *Int64) Swap(v int64) int64             { yield(); return x.v.Swap(v) }
func (x *Int64) Add(v int64) int64              { yield(); return x.v.Add(v) }
func (x *Int64) And(v int64) int64              { yield(); return x.v.And(v) }
func (x *Int64) Or(v int64) int64               { yield(); return x.v.Or(v) }
func (x *Int64) CompareAndSwap(a, b int64) bool { yield(); return x.v.CompareAndSwap(a, b) }

func LoadInt64(p *int64) int64          { yield(); return real.LoadInt64(p) }
func StoreInt64(p *int64, v int64)      { yield(); real.StoreInt64(p, v) }
func SwapInt64(p *int64, v int64) int64 { yield(); return real.SwapInt64(p, v) }
func AddInt64(p *int64, v int64) int64  { yield(); return real.AddInt64(p, v) }
func AndInt64(p *int64, v int64) int64  { yield(); return real.AndInt64(p, v) }
func OrInt64(p *int64, v int64) int64   { yield(); return real.OrInt64(p, v) }
func CompareAndSwapInt64(p *int64, a, b int64) bool {
	yield()
	return real.CompareAndSwapInt64(p, a, b)
}

type Uint32 struct{ v real.Uint32 }

func (x *Uint32) Load() uint32                    { yield(); return x.v.Load() }
func (x *Uint32) Store(v uint32)                  { yield(); x.v.Store(v) }
func (x *Uint32) Swap(v uint32) uint32            { yield(); return x.v.Swap(v) }
func (x *Uint32) Add(v uint32) uint32             { yield(); return x.v.Add(v) }
func (x *Uint32) And(v uint32) uint32             { yield(); return x.v.And(v) }
func (x *Uint32) Or(v uint32) uint32              { yield(); return x.v.Or(v) }
func (x *Uint32) CompareAndSwap(a, b uint32) bool { yield(); return x.v.CompareAndSwap(a, b) }

func LoadUint32(p *uint32) uint32           { yield(); return real.LoadUint32(p) }
func StoreUint32(p *uint32, v uint32)       { yield(); real.StoreUint32(p, v) }
func SwapUint32(p *uint32, v uint32) uint32 { yield(); return real.SwapUint32(p, v) }
func AddUint32(p *uint32, v uint32) uint32  { yield(); return real.AddUint32(p, v) }
func AndUint32(p *uint32, v uint32) uint32  { yield(); return real.AndUint32(p, v) }
func OrUint32(p *uint32, v uint32) uint32   { yield(); return real.OrUint32(p, v) }
func CompareAndSwapUint32(p *uint32, a, b uint32) bool {
	yield()
	return real.CompareAndSwapUint32(p, a, b)
}

type Uint64 struct{ v real.Uint64 }

func (x *Uint64) Load() uint64                    { yield(); return x.v.Load() }
func (x *Uint64) Store(v uint64)                  { yield(); x.v.Store(v) }
func (x *Uint64) Swap(v uint64) uint64            { yield(); return x.v.Swap(v) }
func (x *Uint64) Add(v uint64) uint64             { yield(); return x.v.Add(v) }
func (x *Uint64) And(v uint64) uint64             { yield(); return x.v.And(v) }
func (x *Uint64) Or(v uint64) uint64              { yield(); return x.v.Or(v) }
func (x *Uint64) CompareAndSwap(a, b uint64) bool { yield(); return x.v.CompareAndSwap(a, b) }

func LoadUint64(p *uint64) uint64           { yield(); return real.LoadUint64(p) }
func StoreUint64(p *uint64, v uint64)       { yield(); real.StoreUint64(p, v) }
func SwapUint64(p *uint64, v uint64) uint64 { yield(); return real.SwapUint64(p, v) }
func AddUint64(p *uint64, v uint64) uint64  { yield(); return real.AddUint64(p, v) }
func AndUint64(p *uint64, v uint64) uint64  { yield(); return real.AndUint64(p, v) }
func OrUint64(p *uint64, v uint64) uint64   { yield(); return real.OrUint64(p, v) }
func CompareAndSwapUint64(p *uint64, a, b uint64) bool {
	yield()
	return real.CompareAndSwapUint64(p, a, b)
}

type Uintptr struct{ v real.Uintptr }

func (x *Uintptr) Load() uintptr                    { yield(); return x.v.Load() }
func (x *Uintptr) Store(v uintptr)                  { yield(); x.v.Store(v) }
func (x *Uintptr) Swap(v uintptr) uintptr           { yield(); return x.v.Swap(v) }
func (x *Uintptr) Add(v uintptr) uintptr            { yield(); return x.v.Add(v) }
func (x *Uintptr) And(v uintptr) uintptr            { yield(); return x.v.And(v) }
func (x *Uintptr) Or(v uintptr) uintptr             { yield(); return x.v.Or(v) }
func (x *Uintptr) CompareAndSwap(a, b uintptr) bool { yield(); return x.v.CompareAndSwap(a, b) }

func LoadUintptr(p *uintptr) uintptr            { yield(); return real.LoadUintptr(p) }
func StoreUintptr(p *uintptr, v uintptr)        { yield(); real.StoreUintptr(p, v) }
func SwapUintptr(p *uintptr, v uintptr) uintptr { yield(); return real.SwapUintptr(p, v) }
func AddUintptr(p *uintptr, v uintptr) uintptr  { yield(); return real.AddUintptr(p, v) }
func AndUintptr(p *uintptr, v uintptr) uintptr  { yield(); return real.AndUintptr(p, v) }
func OrUintptr(p *uintptr, v uintptr) uintptr   { yield(); return real.OrUintptr(p, v) }
func CompareAndSwapUintptr(p *uintptr, a, b uintptr) bool {
	yield()
	return real.CompareAndSwapUintptr(p, a, b)
}
