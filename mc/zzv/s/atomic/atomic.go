// Package atomic replaces sync/atomic in the instrumented tracker.
package atomic

import (
	"unsafe"

	"github.com/crimist/trakx/zzv/vs"
)

func pt(p unsafe.Pointer, s string) {
	vs.AtomicPoint(s)
	vs.RaceAcquire(p)
	vs.RaceReleaseMerge(p)
}

type Int32 struct{ v int32 }

func (x *Int32) Load() int32                    { return LoadInt32(&x.v) }
func (x *Int32) Store(v int32)                  { StoreInt32(&x.v, v) }
func (x *Int32) Swap(v int32) int32             { return SwapInt32(&x.v, v) }
func (x *Int32) Add(d int32) int32              { return AddInt32(&x.v, d) }
func (x *Int32) CompareAndSwap(o, n int32) bool { return CompareAndSwapInt32(&x.v, o, n) }
func (x *Int32) And(m int32) int32              { pt(unsafe.Pointer(x), "atomic.And"); o := x.v; x.v &= m; return o }
func (x *Int32) Or(m int32) int32               { pt(unsafe.Pointer(x), "atomic.Or"); o := x.v; x.v |= m; return o }

func LoadInt32(p *int32) int32 { pt(unsafe.Pointer(p), "atomic.Load"); return *p }
func StoreInt32(p *int32, v int32) {
	pt(unsafe.Pointer(p), "atomic.Store")
	*p = v
	vs.ReleasePoint("atomic.Store")
}
func SwapInt32(p *int32, v int32) int32 {
	pt(unsafe.Pointer(p), "atomic.Swap")
	o := *p
	*p = v
	return o
}
func AddInt32(p *int32, d int32) int32 { pt(unsafe.Pointer(p), "atomic.Add"); *p += d; return *p }
func CompareAndSwapInt32(p *int32, o, n int32) bool {
	pt(unsafe.Pointer(p), "atomic.CAS")
	if *p == o {
		*p = n
		return true
	}
	return false
}

type Int64 struct{ v int64 }

func (x *Int64) Load() int64                    { return LoadInt64(&x.v) }
func (x *Int64) Store(v int64)                  { StoreInt64(&x.v, v) }
func (x *Int64) Swap(v int64) int64             { return SwapInt64(&x.v, v) }
func (x *Int64) Add(d int64) int64              { return AddInt64(&x.v, d) }
func (x *Int64) CompareAndSwap(o, n int64) bool { return CompareAndSwapInt64(&x.v, o, n) }
func (x *Int64) And(m int64) int64              { pt(unsafe.Pointer(x), "atomic.And"); o := x.v; x.v &= m; return o }
func (x *Int64) Or(m int64) int64               { pt(unsafe.Pointer(x), "atomic.Or"); o := x.v; x.v |= m; return o }

func LoadInt64(p *int64) int64 { pt(unsafe.Pointer(p), "atomic.Load"); return *p }
func StoreInt64(p *int64, v int64) {
	pt(unsafe.Pointer(p), "atomic.Store")
	*p = v
	vs.ReleasePoint("atomic.Store")
}
func SwapInt64(p *int64, v int64) int64 {
	pt(unsafe.Pointer(p), "atomic.Swap")
	o := *p
	*p = v
	return o
}
func AddInt64(p *int64, d int64) int64 { pt(unsafe.Pointer(p), "atomic.Add"); *p += d; return *p }
func CompareAndSwapInt64(p *int64, o, n int64) bool {
	pt(unsafe.Pointer(p), "atomic.CAS")
	if *p == o {
		*p = n
		return true
	}
	return false
}

type Uint32 struct{ v uint32 }

func (x *Uint32) Load() uint32                    { return LoadUint32(&x.v) }
func (x *Uint32) Store(v uint32)                  { StoreUint32(&x.v, v) }
func (x *Uint32) Swap(v uint32) uint32            { return SwapUint32(&x.v, v) }
func (x *Uint32) Add(d uint32) uint32             { return AddUint32(&x.v, d) }
func (x *Uint32) CompareAndSwap(o, n uint32) bool { return CompareAndSwapUint32(&x.v, o, n) }
func (x *Uint32) And(m uint32) uint32 {
	pt(unsafe.Pointer(x), "atomic.And")
	o := x.v
	x.v &= m
	return o
}
func (x *Uint32) Or(m uint32) uint32 {
	pt(unsafe.Pointer(x), "atomic.Or")
	o := x.v
	x.v |= m
	return o
}

func LoadUint32(p *uint32) uint32 { pt(unsafe.Pointer(p), "atomic.Load"); return *p }
func StoreUint32(p *uint32, v uint32) {
	pt(unsafe.Pointer(p), "atomic.Store")
	*p = v
	vs.ReleasePoint("atomic.Store")
}
func SwapUint32(p *uint32, v uint32) uint32 {
	pt(unsafe.Pointer(p), "atomic.Swap")
	o := *p
	*p = v
	return o
}
func AddUint32(p *uint32, d uint32) uint32 { pt(unsafe.Pointer(p), "atomic.Add"); *p += d; return *p }
func CompareAndSwapUint32(p *uint32, o, n uint32) bool {
	pt(unsafe.Pointer(p), "atomic.CAS")
	if *p == o {
		*p = n
		return true
	}
	return false
}

type Uint64 struct{ v uint64 }

func (x *Uint64) Load() uint64                    { return LoadUint64(&x.v) }
func (x *Uint64) Store(v uint64)                  { StoreUint64(&x.v, v) }
func (x *Uint64) Swap(v uint64) uint64            { return SwapUint64(&x.v, v) }
func (x *Uint64) Add(d uint64) uint64             { return AddUint64(&x.v, d) }
func (x *Uint64) CompareAndSwap(o, n uint64) bool { return CompareAndSwapUint64(&x.v, o, n) }
func (x *Uint64) And(m uint64) uint64 {
	pt(unsafe.Pointer(x), "atomic.And")
	o := x.v
	x.v &= m
	return o
}
func (x *Uint64) Or(m uint64) uint64 {
	pt(unsafe.Pointer(x), "atomic.Or")
	o := x.v
	x.v |= m
	return o
}

func LoadUint64(p *uint64) uint64 { pt(unsafe.Pointer(p), "atomic.Load"); return *p }
func StoreUint64(p *uint64, v uint64) {
	pt(unsafe.Pointer(p), "atomic.Store")
	*p = v
	vs.ReleasePoint("atomic.Store")
}
func SwapUint64(p *uint64, v uint64) uint64 {
	pt(unsafe.Pointer(p), "atomic.Swap")
	o := *p
	*p = v
	return o
}
func AddUint64(p *uint64, d uint64) uint64 { pt(unsafe.Pointer(p), "atomic.Add"); *p += d; return *p }
func CompareAndSwapUint64(p *uint64, o, n uint64) bool {
	pt(unsafe.Pointer(p), "atomic.CAS")
	if *p == o {
		*p = n
		return true
	}
	return false
}

type Uintptr struct{ v uintptr }

func (x *Uintptr) Load() uintptr                    { return LoadUintptr(&x.v) }
func (x *Uintptr) Store(v uintptr)                  { StoreUintptr(&x.v, v) }
func (x *Uintptr) Swap(v uintptr) uintptr           { return SwapUintptr(&x.v, v) }
func (x *Uintptr) Add(d uintptr) uintptr            { return AddUintptr(&x.v, d) }
func (x *Uintptr) CompareAndSwap(o, n uintptr) bool { return CompareAndSwapUintptr(&x.v, o, n) }
func (x *Uintptr) And(m uintptr) uintptr {
	pt(unsafe.Pointer(x), "atomic.And")
	o := x.v
	x.v &= m
	return o
}
func (x *Uintptr) Or(m uintptr) uintptr {
	pt(unsafe.Pointer(x), "atomic.Or")
	o := x.v
	x.v |= m
	return o
}

func LoadUintptr(p *uintptr) uintptr { pt(unsafe.Pointer(p), "atomic.Load"); return *p }
func StoreUintptr(p *uintptr, v uintptr) {
	pt(unsafe.Pointer(p), "atomic.Store")
	*p = v
	vs.ReleasePoint("atomic.Store")
}
func SwapUintptr(p *uintptr, v uintptr) uintptr {
	pt(unsafe.Pointer(p), "atomic.Swap")
	o := *p
	*p = v
	return o
}
func AddUintptr(p *uintptr, d uintptr) uintptr {
	pt(unsafe.Pointer(p), "atomic.Add")
	*p += d
	return *p
}
func CompareAndSwapUintptr(p *uintptr, o, n uintptr) bool {
	pt(unsafe.Pointer(p), "atomic.CAS")
	if *p == o {
		*p = n
		return true
	}
	return false
}

type Bool struct{ v uint32 }

func b(x bool) uint32 {
	if x {
		return 1
	}
	return 0
}
func (x *Bool) Load() bool                    { return LoadUint32(&x.v) != 0 }
func (x *Bool) Store(v bool)                  { StoreUint32(&x.v, b(v)) }
func (x *Bool) Swap(v bool) bool              { return SwapUint32(&x.v, b(v)) != 0 }
func (x *Bool) CompareAndSwap(o, n bool) bool { return CompareAndSwapUint32(&x.v, b(o), b(n)) }

type Pointer[T any] struct{ p unsafe.Pointer }

//go:norace
func (x *Pointer[T]) Load() *T { return (*T)(LoadPointer(&x.p)) }

//go:norace
func (x *Pointer[T]) Store(v *T) { StorePointer(&x.p, unsafe.Pointer(v)) }

//go:norace
func (x *Pointer[T]) Swap(v *T) *T { return (*T)(SwapPointer(&x.p, unsafe.Pointer(v))) }

//go:norace
func (x *Pointer[T]) CompareAndSwap(o, n *T) bool {
	return CompareAndSwapPointer(&x.p, unsafe.Pointer(o), unsafe.Pointer(n))
}

func LoadPointer(p *unsafe.Pointer) unsafe.Pointer     { pt(unsafe.Pointer(p), "atomic.Load"); return *p }
func StorePointer(p *unsafe.Pointer, v unsafe.Pointer) { pt(unsafe.Pointer(p), "atomic.Store"); *p = v }
func SwapPointer(p *unsafe.Pointer, v unsafe.Pointer) unsafe.Pointer {
	pt(unsafe.Pointer(p), "atomic.Swap")
	o := *p
	*p = v
	return o
}
func CompareAndSwapPointer(p *unsafe.Pointer, o, n unsafe.Pointer) bool {
	pt(unsafe.Pointer(p), "atomic.CAS")
	if *p == o {
		*p = n
		return true
	}
	return false
}

type Value struct{ v any }

func (x *Value) Load() any { return loadAny(&x.v) }
func (x *Value) Store(v any) {
	if v == nil {
		panic("sync/atomic: store of nil value into Value")
	}
	storeAny(&x.v, v)
}
func (x *Value) Swap(v any) any { pt(unsafe.Pointer(x), "atomic.Swap"); o := x.v; x.v = v; return o }
func (x *Value) CompareAndSwap(o, n any) bool {
	pt(unsafe.Pointer(x), "atomic.CAS")
	if x.v == o {
		x.v = n
		return true
	}
	return false
}
func loadAny(p *any) any     { pt(unsafe.Pointer(p), "atomic.Load"); return *p }
func storeAny(p *any, v any) { pt(unsafe.Pointer(p), "atomic.Store"); *p = v }
