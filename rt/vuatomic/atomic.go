// Package vuatomic stands for package go.uber.org/atomic.
package vuatomic

import (
	"time"

	"verif.local/rt/vsched"
)

func rd[T any](o *vsched.Obj, p *T) {
	vsched.Yield("atomic load", o, false, nil)
	vsched.HBAcquire(p)
}

func wr[T any](o *vsched.Obj, p *T) {
	vsched.Yield("atomic write", o, true, nil)
	vsched.HBAcquire(p)
	vsched.HBReleaseMerge(p)
}

// Int32 stands for atomic.Int32.
type Int32 struct {
	o vsched.Obj
	v int32
}

// NewInt32 makes one.
func NewInt32(v int32) *Int32 { return &Int32{v: v} }

// Load reads.
func (x *Int32) Load() int32 { rd(&x.o, x); return x.v }

// Store writes.
func (x *Int32) Store(v int32) { wr(&x.o, x); x.v = v }

// Swap exchanges.
func (x *Int32) Swap(v int32) int32 { wr(&x.o, x); o := x.v; x.v = v; return o }

// CAS exchanges when equal.
func (x *Int32) CAS(a, b int32) bool {
	wr(&x.o, x)
	if x.v != a {
		return false
	}
	x.v = b
	return true
}

// CompareAndSwap exchanges when equal.
func (x *Int32) CompareAndSwap(a, b int32) bool { return x.CAS(a, b) }

// Add adds.
func (x *Int32) Add(d int32) int32 { wr(&x.o, x); x.v += d; return x.v }

// Sub subtracts.
func (x *Int32) Sub(d int32) int32 { wr(&x.o, x); x.v -= d; return x.v }

// Inc adds one.
func (x *Int32) Inc() int32 { return x.Add(1) }

// Dec subtracts one.
func (x *Int32) Dec() int32 { return x.Sub(1) }

// Int64 stands for atomic.Int64.
type Int64 struct {
	o vsched.Obj
	v int64
}

// NewInt64 makes one.
func NewInt64(v int64) *Int64 { return &Int64{v: v} }

// Load reads.
func (x *Int64) Load() int64 { rd(&x.o, x); return x.v }

// Store writes.
func (x *Int64) Store(v int64) { wr(&x.o, x); x.v = v }

// Swap exchanges.
func (x *Int64) Swap(v int64) int64 { wr(&x.o, x); o := x.v; x.v = v; return o }

// CAS exchanges when equal.
func (x *Int64) CAS(a, b int64) bool {
	wr(&x.o, x)
	if x.v != a {
		return false
	}
	x.v = b
	return true
}

// CompareAndSwap exchanges when equal.
func (x *Int64) CompareAndSwap(a, b int64) bool { return x.CAS(a, b) }

// Add adds.
func (x *Int64) Add(d int64) int64 { wr(&x.o, x); x.v += d; return x.v }

// Sub subtracts.
func (x *Int64) Sub(d int64) int64 { wr(&x.o, x); x.v -= d; return x.v }

// Inc adds one.
func (x *Int64) Inc() int64 { return x.Add(1) }

// Dec subtracts one.
func (x *Int64) Dec() int64 { return x.Sub(1) }

// Uint32 stands for atomic.Uint32.
type Uint32 struct {
	o vsched.Obj
	v uint32
}

// NewUint32 makes one.
func NewUint32(v uint32) *Uint32 { return &Uint32{v: v} }

// Load reads.
func (x *Uint32) Load() uint32 { rd(&x.o, x); return x.v }

// Store writes.
func (x *Uint32) Store(v uint32) { wr(&x.o, x); x.v = v }

// Swap exchanges.
func (x *Uint32) Swap(v uint32) uint32 { wr(&x.o, x); o := x.v; x.v = v; return o }

// CAS exchanges when equal.
func (x *Uint32) CAS(a, b uint32) bool {
	wr(&x.o, x)
	if x.v != a {
		return false
	}
	x.v = b
	return true
}

// CompareAndSwap exchanges when equal.
func (x *Uint32) CompareAndSwap(a, b uint32) bool { return x.CAS(a, b) }

// Add adds.
func (x *Uint32) Add(d uint32) uint32 { wr(&x.o, x); x.v += d; return x.v }

// Sub subtracts.
func (x *Uint32) Sub(d uint32) uint32 { wr(&x.o, x); x.v -= d; return x.v }

// Inc adds one.
func (x *Uint32) Inc() uint32 { return x.Add(1) }

// Dec subtracts one.
func (x *Uint32) Dec() uint32 { return x.Sub(1) }

// Uint64 stands for atomic.Uint64.
type Uint64 struct {
	o vsched.Obj
	v uint64
}

// NewUint64 makes one.
func NewUint64(v uint64) *Uint64 { return &Uint64{v: v} }

// Load reads.
func (x *Uint64) Load() uint64 { rd(&x.o, x); return x.v }

// Store writes.
func (x *Uint64) Store(v uint64) { wr(&x.o, x); x.v = v }

// Swap exchanges.
func (x *Uint64) Swap(v uint64) uint64 { wr(&x.o, x); o := x.v; x.v = v; return o }

// CAS exchanges when equal.
func (x *Uint64) CAS(a, b uint64) bool {
	wr(&x.o, x)
	if x.v != a {
		return false
	}
	x.v = b
	return true
}

// CompareAndSwap exchanges when equal.
func (x *Uint64) CompareAndSwap(a, b uint64) bool { return x.CAS(a, b) }

// Add adds.
func (x *Uint64) Add(d uint64) uint64 { wr(&x.o, x); x.v += d; return x.v }

// Sub subtracts.
func (x *Uint64) Sub(d uint64) uint64 { wr(&x.o, x); x.v -= d; return x.v }

// Inc adds one.
func (x *Uint64) Inc() uint64 { return x.Add(1) }

// Dec subtracts one.
func (x *Uint64) Dec() uint64 { return x.Sub(1) }

// Float64 stands for atomic.Float64.
type Float64 struct {
	o vsched.Obj
	v float64
}

// NewFloat64 makes one.
func NewFloat64(v float64) *Float64 { return &Float64{v: v} }

// Load reads.
func (x *Float64) Load() float64 { rd(&x.o, x); return x.v }

// Store writes.
func (x *Float64) Store(v float64) { wr(&x.o, x); x.v = v }

// Swap exchanges.
func (x *Float64) Swap(v float64) float64 { wr(&x.o, x); o := x.v; x.v = v; return o }

// CAS exchanges when equal.
func (x *Float64) CAS(a, b float64) bool {
	wr(&x.o, x)
	if x.v != a {
		return false
	}
	x.v = b
	return true
}

// CompareAndSwap exchanges when equal.
func (x *Float64) CompareAndSwap(a, b float64) bool { return x.CAS(a, b) }

// Add adds.
func (x *Float64) Add(d float64) float64 { wr(&x.o, x); x.v += d; return x.v }

// Sub subtracts.
func (x *Float64) Sub(d float64) float64 { wr(&x.o, x); x.v -= d; return x.v }

// Duration stands for atomic.Duration.
type Duration struct {
	o vsched.Obj
	v time.Duration
}

// NewDuration makes one.
func NewDuration(v time.Duration) *Duration { return &Duration{v: v} }

// Load reads.
func (x *Duration) Load() time.Duration { rd(&x.o, x); return x.v }

// Store writes.
func (x *Duration) Store(v time.Duration) { wr(&x.o, x); x.v = v }

// Swap exchanges.
func (x *Duration) Swap(v time.Duration) time.Duration { wr(&x.o, x); o := x.v; x.v = v; return o }

// CAS exchanges when equal.
func (x *Duration) CAS(a, b time.Duration) bool {
	wr(&x.o, x)
	if x.v != a {
		return false
	}
	x.v = b
	return true
}

// CompareAndSwap exchanges when equal.
func (x *Duration) CompareAndSwap(a, b time.Duration) bool { return x.CAS(a, b) }

// Add adds.
func (x *Duration) Add(d time.Duration) time.Duration { wr(&x.o, x); x.v += d; return x.v }

// Sub subtracts.
func (x *Duration) Sub(d time.Duration) time.Duration { wr(&x.o, x); x.v -= d; return x.v }

// Bool stands for atomic.Bool.
type Bool struct {
	o vsched.Obj
	v bool
}

// NewBool makes one.
func NewBool(v bool) *Bool { return &Bool{v: v} }

// Load reads.
func (x *Bool) Load() bool { rd(&x.o, x); return x.v }

// Store writes.
func (x *Bool) Store(v bool) { wr(&x.o, x); x.v = v }

// Swap exchanges.
func (x *Bool) Swap(v bool) bool { wr(&x.o, x); o := x.v; x.v = v; return o }

// CAS exchanges when equal.
func (x *Bool) CAS(a, b bool) bool {
	wr(&x.o, x)
	if x.v != a {
		return false
	}
	x.v = b
	return true
}

// CompareAndSwap exchanges when equal.
func (x *Bool) CompareAndSwap(a, b bool) bool { return x.CAS(a, b) }

// Toggle negates and returns the previous value.
func (x *Bool) Toggle() bool { wr(&x.o, x); x.v = !x.v; return !x.v }

// String stands for atomic.String.
type String struct {
	o vsched.Obj
	v string
}

// NewString makes one.
func NewString(v string) *String { return &String{v: v} }

// Load reads.
func (x *String) Load() string { rd(&x.o, x); return x.v }

// Store writes.
func (x *String) Store(v string) { wr(&x.o, x); x.v = v }

// Error stands for atomic.Error.
type Error struct {
	o vsched.Obj
	v error
}

// NewError makes one.
func NewError(v error) *Error { return &Error{v: v} }

// Load reads.
func (x *Error) Load() error { rd(&x.o, x); return x.v }

// Store writes.
func (x *Error) Store(v error) { wr(&x.o, x); x.v = v }

// Value stands for atomic.Value.
type Value struct {
	o vsched.Obj
	v interface{}
}

// Load reads.
func (x *Value) Load() interface{} { rd(&x.o, x); return x.v }

// Store writes.
func (x *Value) Store(v interface{}) { wr(&x.o, x); x.v = v }
