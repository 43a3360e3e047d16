// Package vatomic stands for package sync/atomic.
package vatomic

import (
	"unsafe"

	"verif.local/rt/vsched"
)

var _ unsafe.Pointer

// plain addresses have no room for a hash of their own: they share one per address
func objOf(p unsafe.Pointer) *vsched.Obj {
	if !vsched.Active() {
		return &vsched.Obj{}
	}
	l := vsched.Value("atomic addresses", func() interface{} { return &addrs{} }).(*addrs)
	for i := range l.a {
		if l.a[i].p == p {
			return l.a[i].o
		}
	}
	o := &vsched.Obj{}
	l.a = append(l.a, addr{p, o})
	return o
}

type addr struct {
	p unsafe.Pointer
	o *vsched.Obj
}

type addrs struct{ a []addr }

func rd[T any](o *vsched.Obj, p *T) {
	vsched.Yield("atomic load", o, false, nil)
	vsched.HBAcquire(p)
}

func wr[T any](o *vsched.Obj, p *T) {
	vsched.Yield("atomic write", o, true, nil)
	vsched.HBAcquire(p)
	vsched.HBReleaseMerge(p)
}

// LoadInt32 stands for atomic.LoadInt32.
func LoadInt32(p *int32) int32 { rd(objOf(unsafe.Pointer(p)), p); return *p }

// StoreInt32 stands for atomic.StoreInt32.
func StoreInt32(p *int32, v int32) { wr(objOf(unsafe.Pointer(p)), p); *p = v }

// AddInt32 stands for atomic.AddInt32.
func AddInt32(p *int32, v int32) int32 { wr(objOf(unsafe.Pointer(p)), p); *p += v; return *p }

// SwapInt32 stands for atomic.SwapInt32.
func SwapInt32(p *int32, v int32) int32 { wr(objOf(unsafe.Pointer(p)), p); o := *p; *p = v; return o }

// CompareAndSwapInt32 stands for atomic.CompareAndSwapInt32.
func CompareAndSwapInt32(p *int32, a, b int32) bool {
	wr(objOf(unsafe.Pointer(p)), p)
	if *p != a {
		return false
	}
	*p = b
	return true
}

// Int32 stands for atomic.Int32.
type Int32 struct {
	o vsched.Obj
	v int32
}

// Load reads.
func (x *Int32) Load() int32 { rd(&x.o, x); return x.v }

// Store writes.
func (x *Int32) Store(v int32) { wr(&x.o, x); x.v = v }

// Swap exchanges.
func (x *Int32) Swap(v int32) int32 { wr(&x.o, x); o := x.v; x.v = v; return o }

// CompareAndSwap exchanges when equal.
func (x *Int32) CompareAndSwap(a, b int32) bool {
	wr(&x.o, x)
	if x.v != a {
		return false
	}
	x.v = b
	return true
}

// Add adds.
func (x *Int32) Add(d int32) int32 { wr(&x.o, x); x.v += d; return x.v }

// LoadInt64 stands for atomic.LoadInt64.
func LoadInt64(p *int64) int64 { rd(objOf(unsafe.Pointer(p)), p); return *p }

// StoreInt64 stands for atomic.StoreInt64.
func StoreInt64(p *int64, v int64) { wr(objOf(unsafe.Pointer(p)), p); *p = v }

// AddInt64 stands for atomic.AddInt64.
func AddInt64(p *int64, v int64) int64 { wr(objOf(unsafe.Pointer(p)), p); *p += v; return *p }

// SwapInt64 stands for atomic.SwapInt64.
func SwapInt64(p *int64, v int64) int64 { wr(objOf(unsafe.Pointer(p)), p); o := *p; *p = v; return o }

// CompareAndSwapInt64 stands for atomic.CompareAndSwapInt64.
func CompareAndSwapInt64(p *int64, a, b int64) bool {
	wr(objOf(unsafe.Pointer(p)), p)
	if *p != a {
		return false
	}
	*p = b
	return true
}

// Int64 stands for atomic.Int64.
type Int64 struct {
	o vsched.Obj
	v int64
}

// Load reads.
func (x *Int64) Load() int64 { rd(&x.o, x); return x.v }

// Store writes.
func (x *Int64) Store(v int64) { wr(&x.o, x); x.v = v }

// Swap exchanges.
func (x *Int64) Swap(v int64) int64 { wr(&x.o, x); o := x.v; x.v = v; return o }

// CompareAndSwap exchanges when equal.
func (x *Int64) CompareAndSwap(a, b int64) bool {
	wr(&x.o, x)
	if x.v != a {
		return false
	}
	x.v = b
	return true
}

// Add adds.
func (x *Int64) Add(d int64) int64 { wr(&x.o, x); x.v += d; return x.v }

// LoadUint32 stands for atomic.LoadUint32.
func LoadUint32(p *uint32) uint32 { rd(objOf(unsafe.Pointer(p)), p); return *p }

// StoreUint32 stands for atomic.StoreUint32.
func StoreUint32(p *uint32, v uint32) { wr(objOf(unsafe.Pointer(p)), p); *p = v }

// AddUint32 stands for atomic.AddUint32.
func AddUint32(p *uint32, v uint32) uint32 { wr(objOf(unsafe.Pointer(p)), p); *p += v; return *p }

// SwapUint32 stands for atomic.SwapUint32.
func SwapUint32(p *uint32, v uint32) uint32 {
	wr(objOf(unsafe.Pointer(p)), p)
	o := *p
	*p = v
	return o
}

// CompareAndSwapUint32 stands for atomic.CompareAndSwapUint32.
func CompareAndSwapUint32(p *uint32, a, b uint32) bool {
	wr(objOf(unsafe.Pointer(p)), p)
	if *p != a {
		return false
	}
	*p = b
	return true
}

// Uint32 stands for atomic.Uint32.
type Uint32 struct {
	o vsched.Obj
	v uint32
}

// Load reads.
func (x *Uint32) Load() uint32 { rd(&x.o, x); return x.v }

// Store writes.
func (x *Uint32) Store(v uint32) { wr(&x.o, x); x.v = v }

// Swap exchanges.
func (x *Uint32) Swap(v uint32) uint32 { wr(&x.o, x); o := x.v; x.v = v; return o }

// CompareAndSwap exchanges when equal.
func (x *Uint32) CompareAndSwap(a, b uint32) bool {
	wr(&x.o, x)
	if x.v != a {
		return false
	}
	x.v = b
	return true
}

// Add adds.
func (x *Uint32) Add(d uint32) uint32 { wr(&x.o, x); x.v += d; return x.v }

// LoadUint64 stands for atomic.LoadUint64.
func LoadUint64(p *uint64) uint64 { rd(objOf(unsafe.Pointer(p)), p); return *p }

// StoreUint64 stands for atomic.StoreUint64.
func StoreUint64(p *uint64, v uint64) { wr(objOf(unsafe.Pointer(p)), p); *p = v }

// AddUint64 stands for atomic.AddUint64.
func AddUint64(p *uint64, v uint64) uint64 { wr(objOf(unsafe.Pointer(p)), p); *p += v; return *p }

// SwapUint64 stands for atomic.SwapUint64.
func SwapUint64(p *uint64, v uint64) uint64 {
	wr(objOf(unsafe.Pointer(p)), p)
	o := *p
	*p = v
	return o
}

// CompareAndSwapUint64 stands for atomic.CompareAndSwapUint64.
func CompareAndSwapUint64(p *uint64, a, b uint64) bool {
	wr(objOf(unsafe.Pointer(p)), p)
	if *p != a {
		return false
	}
	*p = b
	return true
}

// Uint64 stands for atomic.Uint64.
type Uint64 struct {
	o vsched.Obj
	v uint64
}

// Load reads.
func (x *Uint64) Load() uint64 { rd(&x.o, x); return x.v }

// Store writes.
func (x *Uint64) Store(v uint64) { wr(&x.o, x); x.v = v }

// Swap exchanges.
func (x *Uint64) Swap(v uint64) uint64 { wr(&x.o, x); o := x.v; x.v = v; return o }

// CompareAndSwap exchanges when equal.
func (x *Uint64) CompareAndSwap(a, b uint64) bool {
	wr(&x.o, x)
	if x.v != a {
		return false
	}
	x.v = b
	return true
}

// Add adds.
func (x *Uint64) Add(d uint64) uint64 { wr(&x.o, x); x.v += d; return x.v }

// LoadUintptr stands for atomic.LoadUintptr.
func LoadUintptr(p *uintptr) uintptr { rd(objOf(unsafe.Pointer(p)), p); return *p }

// StoreUintptr stands for atomic.StoreUintptr.
func StoreUintptr(p *uintptr, v uintptr) { wr(objOf(unsafe.Pointer(p)), p); *p = v }

// AddUintptr stands for atomic.AddUintptr.
func AddUintptr(p *uintptr, v uintptr) uintptr { wr(objOf(unsafe.Pointer(p)), p); *p += v; return *p }

// SwapUintptr stands for atomic.SwapUintptr.
func SwapUintptr(p *uintptr, v uintptr) uintptr {
	wr(objOf(unsafe.Pointer(p)), p)
	o := *p
	*p = v
	return o
}

// CompareAndSwapUintptr stands for atomic.CompareAndSwapUintptr.
func CompareAndSwapUintptr(p *uintptr, a, b uintptr) bool {
	wr(objOf(unsafe.Pointer(p)), p)
	if *p != a {
		return false
	}
	*p = b
	return true
}

// Uintptr stands for atomic.Uintptr.
type Uintptr struct {
	o vsched.Obj
	v uintptr
}

// Load reads.
func (x *Uintptr) Load() uintptr { rd(&x.o, x); return x.v }

// Store writes.
func (x *Uintptr) Store(v uintptr) { wr(&x.o, x); x.v = v }

// Swap exchanges.
func (x *Uintptr) Swap(v uintptr) uintptr { wr(&x.o, x); o := x.v; x.v = v; return o }

// CompareAndSwap exchanges when equal.
func (x *Uintptr) CompareAndSwap(a, b uintptr) bool {
	wr(&x.o, x)
	if x.v != a {
		return false
	}
	x.v = b
	return true
}

// Add adds.
func (x *Uintptr) Add(d uintptr) uintptr { wr(&x.o, x); x.v += d; return x.v }

// Bool stands for atomic.Bool.
type Bool struct {
	o vsched.Obj
	v bool
}

// Load reads.
func (x *Bool) Load() bool { rd(&x.o, x); return x.v }

// Store writes.
func (x *Bool) Store(v bool) { wr(&x.o, x); x.v = v }

// Swap exchanges.
func (x *Bool) Swap(v bool) bool { wr(&x.o, x); o := x.v; x.v = v; return o }

// CompareAndSwap exchanges when equal.
func (x *Bool) CompareAndSwap(a, b bool) bool {
	wr(&x.o, x)
	if x.v != a {
		return false
	}
	x.v = b
	return true
}

// Pointer stands for atomic.Pointer.
type Pointer[T any] struct {
	o vsched.Obj
	v *T
}

// Load reads.
func (x *Pointer[T]) Load() *T { rd(&x.o, x); return x.v }

// Store writes.
func (x *Pointer[T]) Store(v *T) { wr(&x.o, x); x.v = v }

// Swap exchanges.
func (x *Pointer[T]) Swap(v *T) *T { wr(&x.o, x); o := x.v; x.v = v; return o }

// CompareAndSwap exchanges when equal.
func (x *Pointer[T]) CompareAndSwap(a, b *T) bool {
	wr(&x.o, x)
	if x.v != a {
		return false
	}
	x.v = b
	return true
}

// Value stands for atomic.Value.
type Value struct {
	o vsched.Obj
	v interface{}
}

// Load reads.
func (x *Value) Load() interface{} { rd(&x.o, x); return x.v }

// Store writes.
func (x *Value) Store(v interface{}) {
	if v == nil {
		panic("sync/atomic: store of nil value into Value")
	}
	wr(&x.o, x)
	x.v = v
}

// Swap exchanges.
func (x *Value) Swap(v interface{}) interface{} { wr(&x.o, x); o := x.v; x.v = v; return o }

// CompareAndSwap exchanges when equal.
func (x *Value) CompareAndSwap(a, b interface{}) bool {
	wr(&x.o, x)
	if x.v != a {
		return false
	}
	x.v = b
	return true
}
