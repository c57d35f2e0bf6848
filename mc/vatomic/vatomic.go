// Package vatomic is package sync/atomic with a scheduling point before every operation.
package vatomic

import (
	"sync/atomic"
	"unsafe"

	"verif/mc/vsync"
)

func LoadInt32(p *int32) int32          { vsync.Yield(); return atomic.LoadInt32(p) }
func StoreInt32(p *int32, v int32)      { vsync.Yield(); atomic.StoreInt32(p, v) }
func SwapInt32(p *int32, v int32) int32 { vsync.Yield(); return atomic.SwapInt32(p, v) }
func CompareAndSwapInt32(p *int32, a, b int32) bool {
	vsync.Yield()
	return atomic.CompareAndSwapInt32(p, a, b)
}
func AddInt32(p *int32, d int32) int32 { vsync.Yield(); return atomic.AddInt32(p, d) }

type Int32 struct{ v atomic.Int32 }

func (x *Int32) Load() int32                    { vsync.Yield(); return x.v.Load() }
func (x *Int32) Store(v int32)                  { vsync.Yield(); x.v.Store(v) }
func (x *Int32) Swap(v int32) int32             { vsync.Yield(); return x.v.Swap(v) }
func (x *Int32) CompareAndSwap(a, b int32) bool { vsync.Yield(); return x.v.CompareAndSwap(a, b) }
func (x *Int32) Add(d int32) int32              { vsync.Yield(); return x.v.Add(d) }
func LoadInt64(p *int64) int64                  { vsync.Yield(); return atomic.LoadInt64(p) }
func StoreInt64(p *int64, v int64)              { vsync.Yield(); atomic.StoreInt64(p, v) }
func SwapInt64(p *int64, v int64) int64         { vsync.Yield(); return atomic.SwapInt64(p, v) }
func CompareAndSwapInt64(p *int64, a, b int64) bool {
	vsync.Yield()
	return atomic.CompareAndSwapInt64(p, a, b)
}
func AddInt64(p *int64, d int64) int64 { vsync.Yield(); return atomic.AddInt64(p, d) }

type Int64 struct{ v atomic.Int64 }

func (x *Int64) Load() int64                    { vsync.Yield(); return x.v.Load() }
func (x *Int64) Store(v int64)                  { vsync.Yield(); x.v.Store(v) }
func (x *Int64) Swap(v int64) int64             { vsync.Yield(); return x.v.Swap(v) }
func (x *Int64) CompareAndSwap(a, b int64) bool { vsync.Yield(); return x.v.CompareAndSwap(a, b) }
func (x *Int64) Add(d int64) int64              { vsync.Yield(); return x.v.Add(d) }
func LoadUint32(p *uint32) uint32               { vsync.Yield(); return atomic.LoadUint32(p) }
func StoreUint32(p *uint32, v uint32)           { vsync.Yield(); atomic.StoreUint32(p, v) }
func SwapUint32(p *uint32, v uint32) uint32     { vsync.Yield(); return atomic.SwapUint32(p, v) }
func CompareAndSwapUint32(p *uint32, a, b uint32) bool {
	vsync.Yield()
	return atomic.CompareAndSwapUint32(p, a, b)
}
func AddUint32(p *uint32, d uint32) uint32 { vsync.Yield(); return atomic.AddUint32(p, d) }

type Uint32 struct{ v atomic.Uint32 }

func (x *Uint32) Load() uint32                    { vsync.Yield(); return x.v.Load() }
func (x *Uint32) Store(v uint32)                  { vsync.Yield(); x.v.Store(v) }
func (x *Uint32) Swap(v uint32) uint32            { vsync.Yield(); return x.v.Swap(v) }
func (x *Uint32) CompareAndSwap(a, b uint32) bool { vsync.Yield(); return x.v.CompareAndSwap(a, b) }
func (x *Uint32) Add(d uint32) uint32             { vsync.Yield(); return x.v.Add(d) }
func LoadUint64(p *uint64) uint64                 { vsync.Yield(); return atomic.LoadUint64(p) }
func StoreUint64(p *uint64, v uint64)             { vsync.Yield(); atomic.StoreUint64(p, v) }
func SwapUint64(p *uint64, v uint64) uint64       { vsync.Yield(); return atomic.SwapUint64(p, v) }
func CompareAndSwapUint64(p *uint64, a, b uint64) bool {
	vsync.Yield()
	return atomic.CompareAndSwapUint64(p, a, b)
}
func AddUint64(p *uint64, d uint64) uint64 { vsync.Yield(); return atomic.AddUint64(p, d) }

type Uint64 struct{ v atomic.Uint64 }

func (x *Uint64) Load() uint64                    { vsync.Yield(); return x.v.Load() }
func (x *Uint64) Store(v uint64)                  { vsync.Yield(); x.v.Store(v) }
func (x *Uint64) Swap(v uint64) uint64            { vsync.Yield(); return x.v.Swap(v) }
func (x *Uint64) CompareAndSwap(a, b uint64) bool { vsync.Yield(); return x.v.CompareAndSwap(a, b) }
func (x *Uint64) Add(d uint64) uint64             { vsync.Yield(); return x.v.Add(d) }
func LoadUintptr(p *uintptr) uintptr              { vsync.Yield(); return atomic.LoadUintptr(p) }
func StoreUintptr(p *uintptr, v uintptr)          { vsync.Yield(); atomic.StoreUintptr(p, v) }
func SwapUintptr(p *uintptr, v uintptr) uintptr   { vsync.Yield(); return atomic.SwapUintptr(p, v) }
func CompareAndSwapUintptr(p *uintptr, a, b uintptr) bool {
	vsync.Yield()
	return atomic.CompareAndSwapUintptr(p, a, b)
}
func AddUintptr(p *uintptr, d uintptr) uintptr { vsync.Yield(); return atomic.AddUintptr(p, d) }

type Uintptr struct{ v atomic.Uintptr }

func (x *Uintptr) Load() uintptr                       { vsync.Yield(); return x.v.Load() }
func (x *Uintptr) Store(v uintptr)                     { vsync.Yield(); x.v.Store(v) }
func (x *Uintptr) Swap(v uintptr) uintptr              { vsync.Yield(); return x.v.Swap(v) }
func (x *Uintptr) CompareAndSwap(a, b uintptr) bool    { vsync.Yield(); return x.v.CompareAndSwap(a, b) }
func (x *Uintptr) Add(d uintptr) uintptr               { vsync.Yield(); return x.v.Add(d) }
func LoadPointer(p *unsafe.Pointer) unsafe.Pointer     { vsync.Yield(); return atomic.LoadPointer(p) }
func StorePointer(p *unsafe.Pointer, v unsafe.Pointer) { vsync.Yield(); atomic.StorePointer(p, v) }
func SwapPointer(p *unsafe.Pointer, v unsafe.Pointer) unsafe.Pointer {
	vsync.Yield()
	return atomic.SwapPointer(p, v)
}
func CompareAndSwapPointer(p *unsafe.Pointer, a, b unsafe.Pointer) bool {
	vsync.Yield()
	return atomic.CompareAndSwapPointer(p, a, b)
}

type Bool struct{ v atomic.Bool }

func (x *Bool) Load() bool                    { vsync.Yield(); return x.v.Load() }
func (x *Bool) Store(v bool)                  { vsync.Yield(); x.v.Store(v) }
func (x *Bool) Swap(v bool) bool              { vsync.Yield(); return x.v.Swap(v) }
func (x *Bool) CompareAndSwap(a, b bool) bool { vsync.Yield(); return x.v.CompareAndSwap(a, b) }

type Pointer[T any] struct{ v atomic.Pointer[T] }

func (x *Pointer[T]) Load() *T                    { vsync.Yield(); return x.v.Load() }
func (x *Pointer[T]) Store(v *T)                  { vsync.Yield(); x.v.Store(v) }
func (x *Pointer[T]) Swap(v *T) *T                { vsync.Yield(); return x.v.Swap(v) }
func (x *Pointer[T]) CompareAndSwap(a, b *T) bool { vsync.Yield(); return x.v.CompareAndSwap(a, b) }

type Value struct{ v atomic.Value }

func (x *Value) Load() any                    { vsync.Yield(); return x.v.Load() }
func (x *Value) Store(v any)                  { vsync.Yield(); x.v.Store(v) }
func (x *Value) Swap(v any) any               { vsync.Yield(); return x.v.Swap(v) }
func (x *Value) CompareAndSwap(a, b any) bool { vsync.Yield(); return x.v.CompareAndSwap(a, b) }
