// Package vatomic replaces package sync/atomic in code that runs under the controlled scheduler.
package vatomic

import (
	"sync/atomic"
	"unsafe"

	"github.com/FAU-CDI/hangover/zverif/vsched"
)

func load(p unsafe.Pointer) {
	if vsched.Active() {
		vsched.Do(vsched.KLoad, p, 0, nil)
	}
}

func rmw(p unsafe.Pointer) {
	if vsched.Active() {
		vsched.Do(vsched.KRMW, p, 0, nil)
	}
}

type Bool struct{ real atomic.Bool }

func (x *Bool) Load() bool       { load(unsafe.Pointer(x)); return x.real.Load() }
func (x *Bool) Store(v bool)     { rmw(unsafe.Pointer(x)); x.real.Store(v) }
func (x *Bool) Swap(v bool) bool { rmw(unsafe.Pointer(x)); return x.real.Swap(v) }
func (x *Bool) CompareAndSwap(o, n bool) bool {
	rmw(unsafe.Pointer(x))
	return x.real.CompareAndSwap(o, n)
}

type Value struct{ real atomic.Value }

func (x *Value) Load() any      { load(unsafe.Pointer(x)); return x.real.Load() }
func (x *Value) Store(v any)    { rmw(unsafe.Pointer(x)); x.real.Store(v) }
func (x *Value) Swap(v any) any { rmw(unsafe.Pointer(x)); return x.real.Swap(v) }
func (x *Value) CompareAndSwap(o, n any) bool {
	rmw(unsafe.Pointer(x))
	return x.real.CompareAndSwap(o, n)
}

type Pointer[T any] struct{ real atomic.Pointer[T] }

func (x *Pointer[T]) Load() *T     { load(unsafe.Pointer(x)); return x.real.Load() }
func (x *Pointer[T]) Store(v *T)   { rmw(unsafe.Pointer(x)); x.real.Store(v) }
func (x *Pointer[T]) Swap(v *T) *T { rmw(unsafe.Pointer(x)); return x.real.Swap(v) }
func (x *Pointer[T]) CompareAndSwap(o, n *T) bool {
	rmw(unsafe.Pointer(x))
	return x.real.CompareAndSwap(o, n)
}

type Int32 struct{ real atomic.Int32 }

func (x *Int32) Load() int32        { load(unsafe.Pointer(x)); return x.real.Load() }
func (x *Int32) Store(v int32)      { rmw(unsafe.Pointer(x)); x.real.Store(v) }
func (x *Int32) Swap(v int32) int32 { rmw(unsafe.Pointer(x)); return x.real.Swap(v) }
func (x *Int32) CompareAndSwap(o, n int32) bool {
	rmw(unsafe.Pointer(x))
	return x.real.CompareAndSwap(o, n)
}
func (x *Int32) Add(d int32) int32 { rmw(unsafe.Pointer(x)); return x.real.Add(d) }
func (x *Int32) And(d int32) int32 { rmw(unsafe.Pointer(x)); return x.real.And(d) }
func (x *Int32) Or(d int32) int32  { rmw(unsafe.Pointer(x)); return x.real.Or(d) }

type Int64 struct{ real atomic.Int64 }

func (x *Int64) Load() int64        { load(unsafe.Pointer(x)); return x.real.Load() }
func (x *Int64) Store(v int64)      { rmw(unsafe.Pointer(x)); x.real.Store(v) }
func (x *Int64) Swap(v int64) int64 { rmw(unsafe.Pointer(x)); return x.real.Swap(v) }
func (x *Int64) CompareAndSwap(o, n int64) bool {
	rmw(unsafe.Pointer(x))
	return x.real.CompareAndSwap(o, n)
}
func (x *Int64) Add(d int64) int64 { rmw(unsafe.Pointer(x)); return x.real.Add(d) }
func (x *Int64) And(d int64) int64 { rmw(unsafe.Pointer(x)); return x.real.And(d) }
func (x *Int64) Or(d int64) int64  { rmw(unsafe.Pointer(x)); return x.real.Or(d) }

type Uint32 struct{ real atomic.Uint32 }

func (x *Uint32) Load() uint32         { load(unsafe.Pointer(x)); return x.real.Load() }
func (x *Uint32) Store(v uint32)       { rmw(unsafe.Pointer(x)); x.real.Store(v) }
func (x *Uint32) Swap(v uint32) uint32 { rmw(unsafe.Pointer(x)); return x.real.Swap(v) }
func (x *Uint32) CompareAndSwap(o, n uint32) bool {
	rmw(unsafe.Pointer(x))
	return x.real.CompareAndSwap(o, n)
}
func (x *Uint32) Add(d uint32) uint32 { rmw(unsafe.Pointer(x)); return x.real.Add(d) }
func (x *Uint32) And(d uint32) uint32 { rmw(unsafe.Pointer(x)); return x.real.And(d) }
func (x *Uint32) Or(d uint32) uint32  { rmw(unsafe.Pointer(x)); return x.real.Or(d) }

type Uint64 struct{ real atomic.Uint64 }

func (x *Uint64) Load() uint64         { load(unsafe.Pointer(x)); return x.real.Load() }
func (x *Uint64) Store(v uint64)       { rmw(unsafe.Pointer(x)); x.real.Store(v) }
func (x *Uint64) Swap(v uint64) uint64 { rmw(unsafe.Pointer(x)); return x.real.Swap(v) }
func (x *Uint64) CompareAndSwap(o, n uint64) bool {
	rmw(unsafe.Pointer(x))
	return x.real.CompareAndSwap(o, n)
}
func (x *Uint64) Add(d uint64) uint64 { rmw(unsafe.Pointer(x)); return x.real.Add(d) }
func (x *Uint64) And(d uint64) uint64 { rmw(unsafe.Pointer(x)); return x.real.And(d) }
func (x *Uint64) Or(d uint64) uint64  { rmw(unsafe.Pointer(x)); return x.real.Or(d) }

type Uintptr struct{ real atomic.Uintptr }

func (x *Uintptr) Load() uintptr          { load(unsafe.Pointer(x)); return x.real.Load() }
func (x *Uintptr) Store(v uintptr)        { rmw(unsafe.Pointer(x)); x.real.Store(v) }
func (x *Uintptr) Swap(v uintptr) uintptr { rmw(unsafe.Pointer(x)); return x.real.Swap(v) }
func (x *Uintptr) CompareAndSwap(o, n uintptr) bool {
	rmw(unsafe.Pointer(x))
	return x.real.CompareAndSwap(o, n)
}
func (x *Uintptr) Add(d uintptr) uintptr { rmw(unsafe.Pointer(x)); return x.real.Add(d) }
func (x *Uintptr) And(d uintptr) uintptr { rmw(unsafe.Pointer(x)); return x.real.And(d) }
func (x *Uintptr) Or(d uintptr) uintptr  { rmw(unsafe.Pointer(x)); return x.real.Or(d) }

func LoadInt32(p *int32) int32          { load(unsafe.Pointer(p)); return atomic.LoadInt32(p) }
func StoreInt32(p *int32, v int32)      { rmw(unsafe.Pointer(p)); atomic.StoreInt32(p, v) }
func SwapInt32(p *int32, v int32) int32 { rmw(unsafe.Pointer(p)); return atomic.SwapInt32(p, v) }
func CompareAndSwapInt32(p *int32, o, n int32) bool {
	rmw(unsafe.Pointer(p))
	return atomic.CompareAndSwapInt32(p, o, n)
}
func AddInt32(p *int32, d int32) int32 { rmw(unsafe.Pointer(p)); return atomic.AddInt32(p, d) }
func AndInt32(p *int32, d int32) int32 { rmw(unsafe.Pointer(p)); return atomic.AndInt32(p, d) }
func OrInt32(p *int32, d int32) int32  { rmw(unsafe.Pointer(p)); return atomic.OrInt32(p, d) }

func LoadInt64(p *int64) int64          { load(unsafe.Pointer(p)); return atomic.LoadInt64(p) }
func StoreInt64(p *int64, v int64)      { rmw(unsafe.Pointer(p)); atomic.StoreInt64(p, v) }
func SwapInt64(p *int64, v int64) int64 { rmw(unsafe.Pointer(p)); return atomic.SwapInt64(p, v) }
func CompareAndSwapInt64(p *int64, o, n int64) bool {
	rmw(unsafe.Pointer(p))
	return atomic.CompareAndSwapInt64(p, o, n)
}
func AddInt64(p *int64, d int64) int64 { rmw(unsafe.Pointer(p)); return atomic.AddInt64(p, d) }
func AndInt64(p *int64, d int64) int64 { rmw(unsafe.Pointer(p)); return atomic.AndInt64(p, d) }
func OrInt64(p *int64, d int64) int64  { rmw(unsafe.Pointer(p)); return atomic.OrInt64(p, d) }

func LoadUint32(p *uint32) uint32           { load(unsafe.Pointer(p)); return atomic.LoadUint32(p) }
func StoreUint32(p *uint32, v uint32)       { rmw(unsafe.Pointer(p)); atomic.StoreUint32(p, v) }
func SwapUint32(p *uint32, v uint32) uint32 { rmw(unsafe.Pointer(p)); return atomic.SwapUint32(p, v) }
func CompareAndSwapUint32(p *uint32, o, n uint32) bool {
	rmw(unsafe.Pointer(p))
	return atomic.CompareAndSwapUint32(p, o, n)
}
func AddUint32(p *uint32, d uint32) uint32 { rmw(unsafe.Pointer(p)); return atomic.AddUint32(p, d) }
func AndUint32(p *uint32, d uint32) uint32 { rmw(unsafe.Pointer(p)); return atomic.AndUint32(p, d) }
func OrUint32(p *uint32, d uint32) uint32  { rmw(unsafe.Pointer(p)); return atomic.OrUint32(p, d) }

func LoadUint64(p *uint64) uint64           { load(unsafe.Pointer(p)); return atomic.LoadUint64(p) }
func StoreUint64(p *uint64, v uint64)       { rmw(unsafe.Pointer(p)); atomic.StoreUint64(p, v) }
func SwapUint64(p *uint64, v uint64) uint64 { rmw(unsafe.Pointer(p)); return atomic.SwapUint64(p, v) }
func CompareAndSwapUint64(p *uint64, o, n uint64) bool {
	rmw(unsafe.Pointer(p))
	return atomic.CompareAndSwapUint64(p, o, n)
}
func AddUint64(p *uint64, d uint64) uint64 { rmw(unsafe.Pointer(p)); return atomic.AddUint64(p, d) }
func AndUint64(p *uint64, d uint64) uint64 { rmw(unsafe.Pointer(p)); return atomic.AndUint64(p, d) }
func OrUint64(p *uint64, d uint64) uint64  { rmw(unsafe.Pointer(p)); return atomic.OrUint64(p, d) }

func LoadUintptr(p *uintptr) uintptr     { load(unsafe.Pointer(p)); return atomic.LoadUintptr(p) }
func StoreUintptr(p *uintptr, v uintptr) { rmw(unsafe.Pointer(p)); atomic.StoreUintptr(p, v) }
func SwapUintptr(p *uintptr, v uintptr) uintptr {
	rmw(unsafe.Pointer(p))
	return atomic.SwapUintptr(p, v)
}
func CompareAndSwapUintptr(p *uintptr, o, n uintptr) bool {
	rmw(unsafe.Pointer(p))
	return atomic.CompareAndSwapUintptr(p, o, n)
}
func AddUintptr(p *uintptr, d uintptr) uintptr {
	rmw(unsafe.Pointer(p))
	return atomic.AddUintptr(p, d)
}
func AndUintptr(p *uintptr, d uintptr) uintptr {
	rmw(unsafe.Pointer(p))
	return atomic.AndUintptr(p, d)
}
func OrUintptr(p *uintptr, d uintptr) uintptr { rmw(unsafe.Pointer(p)); return atomic.OrUintptr(p, d) }

func LoadPointer(p *unsafe.Pointer) unsafe.Pointer {
	load(unsafe.Pointer(p))
	return atomic.LoadPointer(p)
}
func StorePointer(p *unsafe.Pointer, v unsafe.Pointer) {
	rmw(unsafe.Pointer(p))
	atomic.StorePointer(p, v)
}
func SwapPointer(p *unsafe.Pointer, v unsafe.Pointer) unsafe.Pointer {
	rmw(unsafe.Pointer(p))
	return atomic.SwapPointer(p, v)
}
func CompareAndSwapPointer(p *unsafe.Pointer, o, n unsafe.Pointer) bool {
	rmw(unsafe.Pointer(p))
	return atomic.CompareAndSwapPointer(p, o, n)
}
