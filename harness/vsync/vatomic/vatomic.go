// Package vatomic stands in for package sync/atomic inside the library under
// test: the same operations, before which the schedule is perturbed as at locks,
// only that getters don't lag.
package vatomic

import (
	"sync/atomic"
	"unsafe"

	"verif/vsync"
)

func LoadInt32(p *int32) int32          { vsync.Yield(); return atomic.LoadInt32(p) }
func StoreInt32(p *int32, v int32)      { vsync.Point(); atomic.StoreInt32(p, v) }
func AddInt32(p *int32, d int32) int32  { vsync.Point(); return atomic.AddInt32(p, d) }
func SwapInt32(p *int32, v int32) int32 { vsync.Point(); return atomic.SwapInt32(p, v) }
func AndInt32(p *int32, m int32) int32  { vsync.Point(); return atomic.AndInt32(p, m) }
func OrInt32(p *int32, m int32) int32   { vsync.Point(); return atomic.OrInt32(p, m) }
func CompareAndSwapInt32(p *int32, a, b int32) bool {
	vsync.Point()
	return atomic.CompareAndSwapInt32(p, a, b)
}

type Int32 struct{ v atomic.Int32 }

func (x *Int32) Load() int32                    { vsync.Yield(); return x.v.Load() }
func (x *Int32) Store(v int32)                  { vsync.Point(); x.v.Store(v) }
func (x *Int32) Add(d int32) int32              { vsync.Point(); return x.v.Add(d) }
func (x *Int32) Swap(v int32) int32             { vsync.Point(); return x.v.Swap(v) }
func (x *Int32) And(m int32) int32              { vsync.Point(); return x.v.And(m) }
func (x *Int32) Or(m int32) int32               { vsync.Point(); return x.v.Or(m) }
func (x *Int32) CompareAndSwap(a, b int32) bool { vsync.Point(); return x.v.CompareAndSwap(a, b) }

func LoadInt64(p *int64) int64          { vsync.Yield(); return atomic.LoadInt64(p) }
func StoreInt64(p *int64, v int64)      { vsync.Point(); atomic.StoreInt64(p, v) }
func AddInt64(p *int64, d int64) int64  { vsync.Point(); return atomic.AddInt64(p, d) }
func SwapInt64(p *int64, v int64) int64 { vsync.Point(); return atomic.SwapInt64(p, v) }
func AndInt64(p *int64, m int64) int64  { vsync.Point(); return atomic.AndInt64(p, m) }
func OrInt64(p *int64, m int64) int64   { vsync.Point(); return atomic.OrInt64(p, m) }
func CompareAndSwapInt64(p *int64, a, b int64) bool {
	vsync.Point()
	return atomic.CompareAndSwapInt64(p, a, b)
}

type Int64 struct{ v atomic.Int64 }

func (x *Int64) Load() int64                    { vsync.Yield(); return x.v.Load() }
func (x *Int64) Store(v int64)                  { vsync.Point(); x.v.Store(v) }
func (x *Int64) Add(d int64) int64              { vsync.Point(); return x.v.Add(d) }
func (x *Int64) Swap(v int64) int64             { vsync.Point(); return x.v.Swap(v) }
func (x *Int64) And(m int64) int64              { vsync.Point(); return x.v.And(m) }
func (x *Int64) Or(m int64) int64               { vsync.Point(); return x.v.Or(m) }
func (x *Int64) CompareAndSwap(a, b int64) bool { vsync.Point(); return x.v.CompareAndSwap(a, b) }

func LoadUint32(p *uint32) uint32           { vsync.Yield(); return atomic.LoadUint32(p) }
func StoreUint32(p *uint32, v uint32)       { vsync.Point(); atomic.StoreUint32(p, v) }
func AddUint32(p *uint32, d uint32) uint32  { vsync.Point(); return atomic.AddUint32(p, d) }
func SwapUint32(p *uint32, v uint32) uint32 { vsync.Point(); return atomic.SwapUint32(p, v) }
func AndUint32(p *uint32, m uint32) uint32  { vsync.Point(); return atomic.AndUint32(p, m) }
func OrUint32(p *uint32, m uint32) uint32   { vsync.Point(); return atomic.OrUint32(p, m) }
func CompareAndSwapUint32(p *uint32, a, b uint32) bool {
	vsync.Point()
	return atomic.CompareAndSwapUint32(p, a, b)
}

type Uint32 struct{ v atomic.Uint32 }

func (x *Uint32) Load() uint32                    { vsync.Yield(); return x.v.Load() }
func (x *Uint32) Store(v uint32)                  { vsync.Point(); x.v.Store(v) }
func (x *Uint32) Add(d uint32) uint32             { vsync.Point(); return x.v.Add(d) }
func (x *Uint32) Swap(v uint32) uint32            { vsync.Point(); return x.v.Swap(v) }
func (x *Uint32) And(m uint32) uint32             { vsync.Point(); return x.v.And(m) }
func (x *Uint32) Or(m uint32) uint32              { vsync.Point(); return x.v.Or(m) }
func (x *Uint32) CompareAndSwap(a, b uint32) bool { vsync.Point(); return x.v.CompareAndSwap(a, b) }

func LoadUint64(p *uint64) uint64           { vsync.Yield(); return atomic.LoadUint64(p) }
func StoreUint64(p *uint64, v uint64)       { vsync.Point(); atomic.StoreUint64(p, v) }
func AddUint64(p *uint64, d uint64) uint64  { vsync.Point(); return atomic.AddUint64(p, d) }
func SwapUint64(p *uint64, v uint64) uint64 { vsync.Point(); return atomic.SwapUint64(p, v) }
func AndUint64(p *uint64, m uint64) uint64  { vsync.Point(); return atomic.AndUint64(p, m) }
func OrUint64(p *uint64, m uint64) uint64   { vsync.Point(); return atomic.OrUint64(p, m) }
func CompareAndSwapUint64(p *uint64, a, b uint64) bool {
	vsync.Point()
	return atomic.CompareAndSwapUint64(p, a, b)
}

type Uint64 struct{ v atomic.Uint64 }

func (x *Uint64) Load() uint64                    { vsync.Yield(); return x.v.Load() }
func (x *Uint64) Store(v uint64)                  { vsync.Point(); x.v.Store(v) }
func (x *Uint64) Add(d uint64) uint64             { vsync.Point(); return x.v.Add(d) }
func (x *Uint64) Swap(v uint64) uint64            { vsync.Point(); return x.v.Swap(v) }
func (x *Uint64) And(m uint64) uint64             { vsync.Point(); return x.v.And(m) }
func (x *Uint64) Or(m uint64) uint64              { vsync.Point(); return x.v.Or(m) }
func (x *Uint64) CompareAndSwap(a, b uint64) bool { vsync.Point(); return x.v.CompareAndSwap(a, b) }

func LoadUintptr(p *uintptr) uintptr            { vsync.Yield(); return atomic.LoadUintptr(p) }
func StoreUintptr(p *uintptr, v uintptr)        { vsync.Point(); atomic.StoreUintptr(p, v) }
func AddUintptr(p *uintptr, d uintptr) uintptr  { vsync.Point(); return atomic.AddUintptr(p, d) }
func SwapUintptr(p *uintptr, v uintptr) uintptr { vsync.Point(); return atomic.SwapUintptr(p, v) }
func AndUintptr(p *uintptr, m uintptr) uintptr  { vsync.Point(); return atomic.AndUintptr(p, m) }
func OrUintptr(p *uintptr, m uintptr) uintptr   { vsync.Point(); return atomic.OrUintptr(p, m) }
func CompareAndSwapUintptr(p *uintptr, a, b uintptr) bool {
	vsync.Point()
	return atomic.CompareAndSwapUintptr(p, a, b)
}

type Uintptr struct{ v atomic.Uintptr }

func (x *Uintptr) Load() uintptr                    { vsync.Yield(); return x.v.Load() }
func (x *Uintptr) Store(v uintptr)                  { vsync.Point(); x.v.Store(v) }
func (x *Uintptr) Add(d uintptr) uintptr            { vsync.Point(); return x.v.Add(d) }
func (x *Uintptr) Swap(v uintptr) uintptr           { vsync.Point(); return x.v.Swap(v) }
func (x *Uintptr) And(m uintptr) uintptr            { vsync.Point(); return x.v.And(m) }
func (x *Uintptr) Or(m uintptr) uintptr             { vsync.Point(); return x.v.Or(m) }
func (x *Uintptr) CompareAndSwap(a, b uintptr) bool { vsync.Point(); return x.v.CompareAndSwap(a, b) }

func LoadPointer(p *unsafe.Pointer) unsafe.Pointer     { vsync.Yield(); return atomic.LoadPointer(p) }
func StorePointer(p *unsafe.Pointer, v unsafe.Pointer) { vsync.Point(); atomic.StorePointer(p, v) }
func SwapPointer(p *unsafe.Pointer, v unsafe.Pointer) unsafe.Pointer {
	vsync.Point()
	return atomic.SwapPointer(p, v)
}
func CompareAndSwapPointer(p *unsafe.Pointer, a, b unsafe.Pointer) bool {
	vsync.Point()
	return atomic.CompareAndSwapPointer(p, a, b)
}

type Bool struct{ v atomic.Bool }

func (x *Bool) Load() bool                    { vsync.Yield(); return x.v.Load() }
func (x *Bool) Store(v bool)                  { vsync.Point(); x.v.Store(v) }
func (x *Bool) Swap(v bool) bool              { vsync.Point(); return x.v.Swap(v) }
func (x *Bool) CompareAndSwap(a, b bool) bool { vsync.Point(); return x.v.CompareAndSwap(a, b) }

type Pointer[T any] struct{ v atomic.Pointer[T] }

func (x *Pointer[T]) Load() *T                    { vsync.Yield(); return x.v.Load() }
func (x *Pointer[T]) Store(v *T)                  { vsync.Point(); x.v.Store(v) }
func (x *Pointer[T]) Swap(v *T) *T                { vsync.Point(); return x.v.Swap(v) }
func (x *Pointer[T]) CompareAndSwap(a, b *T) bool { vsync.Point(); return x.v.CompareAndSwap(a, b) }

type Value struct{ v atomic.Value }

func (x *Value) Load() any                    { vsync.Yield(); return x.v.Load() }
func (x *Value) Store(v any)                  { vsync.Point(); x.v.Store(v) }
func (x *Value) Swap(v any) any               { vsync.Point(); return x.v.Swap(v) }
func (x *Value) CompareAndSwap(a, b any) bool { vsync.Point(); return x.v.CompareAndSwap(a, b) }
