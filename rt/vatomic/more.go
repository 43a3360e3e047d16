package vatomic

import "unsafe"

// LoadPointer stands for atomic.LoadPointer.
func LoadPointer(p *unsafe.Pointer) unsafe.Pointer { rd(objOf(unsafe.Pointer(p)), p); return *p }

// StorePointer stands for atomic.StorePointer.
func StorePointer(p *unsafe.Pointer, v unsafe.Pointer) { wr(objOf(unsafe.Pointer(p)), p); *p = v }

// SwapPointer stands for atomic.SwapPointer.
func SwapPointer(p *unsafe.Pointer, v unsafe.Pointer) unsafe.Pointer {
	wr(objOf(unsafe.Pointer(p)), p)
	o := *p
	*p = v
	return o
}

// CompareAndSwapPointer stands for atomic.CompareAndSwapPointer.
func CompareAndSwapPointer(p *unsafe.Pointer, a, b unsafe.Pointer) bool {
	wr(objOf(unsafe.Pointer(p)), p)
	if *p != a {
		return false
	}
	*p = b
	return true
}

// AndInt32 stands for atomic.AndInt32.
func AndInt32(p *int32, mask int32) int32 {
	wr(objOf(unsafe.Pointer(p)), p)
	o := *p
	*p &= mask
	return o
}

// And stands for (*atomic.Int32).And.
func (x *Int32) And(mask int32) int32 { wr(&x.o, x); o := x.v; x.v &= mask; return o }

// OrInt32 stands for atomic.OrInt32.
func OrInt32(p *int32, mask int32) int32 {
	wr(objOf(unsafe.Pointer(p)), p)
	o := *p
	*p |= mask
	return o
}

// Or stands for (*atomic.Int32).Or.
func (x *Int32) Or(mask int32) int32 { wr(&x.o, x); o := x.v; x.v |= mask; return o }

// AndInt64 stands for atomic.AndInt64.
func AndInt64(p *int64, mask int64) int64 {
	wr(objOf(unsafe.Pointer(p)), p)
	o := *p
	*p &= mask
	return o
}

// And stands for (*atomic.Int64).And.
func (x *Int64) And(mask int64) int64 { wr(&x.o, x); o := x.v; x.v &= mask; return o }

// OrInt64 stands for atomic.OrInt64.
func OrInt64(p *int64, mask int64) int64 {
	wr(objOf(unsafe.Pointer(p)), p)
	o := *p
	*p |= mask
	return o
}

// Or stands for (*atomic.Int64).Or.
func (x *Int64) Or(mask int64) int64 { wr(&x.o, x); o := x.v; x.v |= mask; return o }

// AndUint32 stands for atomic.AndUint32.
func AndUint32(p *uint32, mask uint32) uint32 {
	wr(objOf(unsafe.Pointer(p)), p)
	o := *p
	*p &= mask
	return o
}

// And stands for (*atomic.Uint32).And.
func (x *Uint32) And(mask uint32) uint32 { wr(&x.o, x); o := x.v; x.v &= mask; return o }

// OrUint32 stands for atomic.OrUint32.
func OrUint32(p *uint32, mask uint32) uint32 {
	wr(objOf(unsafe.Pointer(p)), p)
	o := *p
	*p |= mask
	return o
}

// Or stands for (*atomic.Uint32).Or.
func (x *Uint32) Or(mask uint32) uint32 { wr(&x.o, x); o := x.v; x.v |= mask; return o }

// AndUint64 stands for atomic.AndUint64.
func AndUint64(p *uint64, mask uint64) uint64 {
	wr(objOf(unsafe.Pointer(p)), p)
	o := *p
	*p &= mask
	return o
}

// And stands for (*atomic.Uint64).And.
func (x *Uint64) And(mask uint64) uint64 { wr(&x.o, x); o := x.v; x.v &= mask; return o }

// OrUint64 stands for atomic.OrUint64.
func OrUint64(p *uint64, mask uint64) uint64 {
	wr(objOf(unsafe.Pointer(p)), p)
	o := *p
	*p |= mask
	return o
}

// Or stands for (*atomic.Uint64).Or.
func (x *Uint64) Or(mask uint64) uint64 { wr(&x.o, x); o := x.v; x.v |= mask; return o }

// AndUintptr stands for atomic.AndUintptr.
func AndUintptr(p *uintptr, mask uintptr) uintptr {
	wr(objOf(unsafe.Pointer(p)), p)
	o := *p
	*p &= mask
	return o
}

// And stands for (*atomic.Uintptr).And.
func (x *Uintptr) And(mask uintptr) uintptr { wr(&x.o, x); o := x.v; x.v &= mask; return o }

// OrUintptr stands for atomic.OrUintptr.
func OrUintptr(p *uintptr, mask uintptr) uintptr {
	wr(objOf(unsafe.Pointer(p)), p)
	o := *p
	*p |= mask
	return o
}

// Or stands for (*atomic.Uintptr).Or.
func (x *Uintptr) Or(mask uintptr) uintptr { wr(&x.o, x); o := x.v; x.v |= mask; return o }
