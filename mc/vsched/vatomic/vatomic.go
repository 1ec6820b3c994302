// Package vatomic replaces sync/atomic under the scheduler.
package vatomic

import (
	"unsafe"

	"verifmc/vsched"
)

func pt(p unsafe.Pointer) {
	if !vsched.Active() || vsched.Killing() {
		return
	}
	vsched.Point("atomic")
	v := vsched.AtomicVar(p)
	v.Acquire()
	v.Release()
}

// ld is a load: it acquires but does not release.
func ld(p unsafe.Pointer) {
	if !vsched.Active() || vsched.Killing() {
		return
	}
	vsched.Point("atomic load")
	vsched.AtomicVar(p).AcquireRead()
}

func LoadInt32(p *int32) int32          { ld(unsafe.Pointer(p)); return *p }
func StoreInt32(p *int32, v int32)      { pt(unsafe.Pointer(p)); *p = v }
func AddInt32(p *int32, d int32) int32  { pt(unsafe.Pointer(p)); *p += d; return *p }
func AndInt32(p *int32, d int32) int32  { pt(unsafe.Pointer(p)); o := *p; *p &= d; return o }
func OrInt32(p *int32, d int32) int32   { pt(unsafe.Pointer(p)); o := *p; *p |= d; return o }
func SwapInt32(p *int32, v int32) int32 { pt(unsafe.Pointer(p)); o := *p; *p = v; return o }
func CompareAndSwapInt32(p *int32, o, n int32) bool {
	pt(unsafe.Pointer(p))
	if *p == o {
		*p = n
		return true
	}
	return false
}

type Int32 struct{ v int32 }

func (x *Int32) Load() int32                    { return LoadInt32(&x.v) }
func (x *Int32) Store(v int32)                  { StoreInt32(&x.v, v) }
func (x *Int32) Add(d int32) int32              { return AddInt32(&x.v, d) }
func (x *Int32) And(d int32) int32              { return AndInt32(&x.v, d) }
func (x *Int32) Or(d int32) int32               { return OrInt32(&x.v, d) }
func (x *Int32) Swap(v int32) int32             { return SwapInt32(&x.v, v) }
func (x *Int32) CompareAndSwap(o, n int32) bool { return CompareAndSwapInt32(&x.v, o, n) }

func LoadInt64(p *int64) int64          { ld(unsafe.Pointer(p)); return *p }
func StoreInt64(p *int64, v int64)      { pt(unsafe.Pointer(p)); *p = v }
func AddInt64(p *int64, d int64) int64  { pt(unsafe.Pointer(p)); *p += d; return *p }
func AndInt64(p *int64, d int64) int64  { pt(unsafe.Pointer(p)); o := *p; *p &= d; return o }
func OrInt64(p *int64, d int64) int64   { pt(unsafe.Pointer(p)); o := *p; *p |= d; return o }
func SwapInt64(p *int64, v int64) int64 { pt(unsafe.Pointer(p)); o := *p; *p = v; return o }
func CompareAndSwapInt64(p *int64, o, n int64) bool {
	pt(unsafe.Pointer(p))
	if *p == o {
		*p = n
		return true
	}
	return false
}

type Int64 struct{ v int64 }

func (x *Int64) Load() int64                    { return LoadInt64(&x.v) }
func (x *Int64) Store(v int64)                  { StoreInt64(&x.v, v) }
func (x *Int64) Add(d int64) int64              { return AddInt64(&x.v, d) }
func (x *Int64) And(d int64) int64              { return AndInt64(&x.v, d) }
func (x *Int64) Or(d int64) int64               { return OrInt64(&x.v, d) }
func (x *Int64) Swap(v int64) int64             { return SwapInt64(&x.v, v) }
func (x *Int64) CompareAndSwap(o, n int64) bool { return CompareAndSwapInt64(&x.v, o, n) }

func LoadUint32(p *uint32) uint32           { ld(unsafe.Pointer(p)); return *p }
func StoreUint32(p *uint32, v uint32)       { pt(unsafe.Pointer(p)); *p = v }
func AddUint32(p *uint32, d uint32) uint32  { pt(unsafe.Pointer(p)); *p += d; return *p }
func AndUint32(p *uint32, d uint32) uint32  { pt(unsafe.Pointer(p)); o := *p; *p &= d; return o }
func OrUint32(p *uint32, d uint32) uint32   { pt(unsafe.Pointer(p)); o := *p; *p |= d; return o }
func SwapUint32(p *uint32, v uint32) uint32 { pt(unsafe.Pointer(p)); o := *p; *p = v; return o }
func CompareAndSwapUint32(p *uint32, o, n uint32) bool {
	pt(unsafe.Pointer(p))
	if *p == o {
		*p = n
		return true
	}
	return false
}

type Uint32 struct{ v uint32 }

func (x *Uint32) Load() uint32                    { return LoadUint32(&x.v) }
func (x *Uint32) Store(v uint32)                  { StoreUint32(&x.v, v) }
func (x *Uint32) Add(d uint32) uint32             { return AddUint32(&x.v, d) }
func (x *Uint32) And(d uint32) uint32             { return AndUint32(&x.v, d) }
func (x *Uint32) Or(d uint32) uint32              { return OrUint32(&x.v, d) }
func (x *Uint32) Swap(v uint32) uint32            { return SwapUint32(&x.v, v) }
func (x *Uint32) CompareAndSwap(o, n uint32) bool { return CompareAndSwapUint32(&x.v, o, n) }

func LoadUint64(p *uint64) uint64           { ld(unsafe.Pointer(p)); return *p }
func StoreUint64(p *uint64, v uint64)       { pt(unsafe.Pointer(p)); *p = v }
func AddUint64(p *uint64, d uint64) uint64  { pt(unsafe.Pointer(p)); *p += d; return *p }
func AndUint64(p *uint64, d uint64) uint64  { pt(unsafe.Pointer(p)); o := *p; *p &= d; return o }
func OrUint64(p *uint64, d uint64) uint64   { pt(unsafe.Pointer(p)); o := *p; *p |= d; return o }
func SwapUint64(p *uint64, v uint64) uint64 { pt(unsafe.Pointer(p)); o := *p; *p = v; return o }
func CompareAndSwapUint64(p *uint64, o, n uint64) bool {
	pt(unsafe.Pointer(p))
	if *p == o {
		*p = n
		return true
	}
	return false
}

type Uint64 struct{ v uint64 }

func (x *Uint64) Load() uint64                    { return LoadUint64(&x.v) }
func (x *Uint64) Store(v uint64)                  { StoreUint64(&x.v, v) }
func (x *Uint64) Add(d uint64) uint64             { return AddUint64(&x.v, d) }
func (x *Uint64) And(d uint64) uint64             { return AndUint64(&x.v, d) }
func (x *Uint64) Or(d uint64) uint64              { return OrUint64(&x.v, d) }
func (x *Uint64) Swap(v uint64) uint64            { return SwapUint64(&x.v, v) }
func (x *Uint64) CompareAndSwap(o, n uint64) bool { return CompareAndSwapUint64(&x.v, o, n) }

func LoadUintptr(p *uintptr) uintptr            { ld(unsafe.Pointer(p)); return *p }
func StoreUintptr(p *uintptr, v uintptr)        { pt(unsafe.Pointer(p)); *p = v }
func AddUintptr(p *uintptr, d uintptr) uintptr  { pt(unsafe.Pointer(p)); *p += d; return *p }
func AndUintptr(p *uintptr, d uintptr) uintptr  { pt(unsafe.Pointer(p)); o := *p; *p &= d; return o }
func OrUintptr(p *uintptr, d uintptr) uintptr   { pt(unsafe.Pointer(p)); o := *p; *p |= d; return o }
func SwapUintptr(p *uintptr, v uintptr) uintptr { pt(unsafe.Pointer(p)); o := *p; *p = v; return o }
func CompareAndSwapUintptr(p *uintptr, o, n uintptr) bool {
	pt(unsafe.Pointer(p))
	if *p == o {
		*p = n
		return true
	}
	return false
}

type Uintptr struct{ v uintptr }

func (x *Uintptr) Load() uintptr                    { return LoadUintptr(&x.v) }
func (x *Uintptr) Store(v uintptr)                  { StoreUintptr(&x.v, v) }
func (x *Uintptr) Add(d uintptr) uintptr            { return AddUintptr(&x.v, d) }
func (x *Uintptr) And(d uintptr) uintptr            { return AndUintptr(&x.v, d) }
func (x *Uintptr) Or(d uintptr) uintptr             { return OrUintptr(&x.v, d) }
func (x *Uintptr) Swap(v uintptr) uintptr           { return SwapUintptr(&x.v, v) }
func (x *Uintptr) CompareAndSwap(o, n uintptr) bool { return CompareAndSwapUintptr(&x.v, o, n) }

func LoadPointer(p *unsafe.Pointer) unsafe.Pointer     { ld(unsafe.Pointer(p)); return *p }
func StorePointer(p *unsafe.Pointer, v unsafe.Pointer) { pt(unsafe.Pointer(p)); *p = v }
func SwapPointer(p *unsafe.Pointer, v unsafe.Pointer) unsafe.Pointer {
	pt(unsafe.Pointer(p))
	o := *p
	*p = v
	return o
}
func CompareAndSwapPointer(p *unsafe.Pointer, o, n unsafe.Pointer) bool {
	pt(unsafe.Pointer(p))
	if *p == o {
		*p = n
		return true
	}
	return false
}

type Bool struct{ v bool }

func (x *Bool) Load() bool       { ld(unsafe.Pointer(x)); return x.v }
func (x *Bool) Store(v bool)     { pt(unsafe.Pointer(x)); x.v = v }
func (x *Bool) Swap(v bool) bool { pt(unsafe.Pointer(x)); o := x.v; x.v = v; return o }
func (x *Bool) CompareAndSwap(o, n bool) bool {
	pt(unsafe.Pointer(x))
	if x.v == o {
		x.v = n
		return true
	}
	return false
}

type Pointer[T any] struct{ v *T }

func (x *Pointer[T]) Load() *T     { ld(unsafe.Pointer(x)); return x.v }
func (x *Pointer[T]) Store(v *T)   { pt(unsafe.Pointer(x)); x.v = v }
func (x *Pointer[T]) Swap(v *T) *T { pt(unsafe.Pointer(x)); o := x.v; x.v = v; return o }
func (x *Pointer[T]) CompareAndSwap(o, n *T) bool {
	pt(unsafe.Pointer(x))
	if x.v == o {
		x.v = n
		return true
	}
	return false
}

type Value struct{ v any }

func (x *Value) Load() any { ld(unsafe.Pointer(x)); return x.v }
func (x *Value) Store(v any) {
	if v == nil {
		panic("sync/atomic: store of nil value into Value")
	}
	pt(unsafe.Pointer(x))
	x.v = v
}
func (x *Value) Swap(v any) any { pt(unsafe.Pointer(x)); o := x.v; x.v = v; return o }
func (x *Value) CompareAndSwap(o, n any) bool {
	pt(unsafe.Pointer(x))
	if x.v == o {
		x.v = n
		return true
	}
	return false
}
