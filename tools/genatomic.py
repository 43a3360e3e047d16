out=['''// Package vatomic stands for package sync/atomic.
package vatomic

import (
	"unsafe"

	"verif.local/rt/vsched"
)

var _ unsafe.Pointer

// plain addresses have no room for a hash of their own: they share one per address
func objOf(p unsafe.Pointer) *vsched.Obj {
	if !vsched.Active() {
		return &vsched.Obj{}
	}
	l := vsched.Value("atomic addresses", func() interface{} { return &addrs{} }).(*addrs)
	for i := range l.a {
		if l.a[i].p == p {
			return l.a[i].o
		}
	}
	o := &vsched.Obj{}
	l.a = append(l.a, addr{p, o})
	return o
}

type addr struct {
	p unsafe.Pointer
	o *vsched.Obj
}

type addrs struct{ a []addr }

func rd[T any](o *vsched.Obj, p *T) {
	vsched.Yield("atomic load", o, false, nil)
	vsched.HBAcquire(p)
}

func wr[T any](o *vsched.Obj, p *T) {
	vsched.Yield("atomic write", o, true, nil)
	vsched.HBAcquire(p)
	vsched.HBReleaseMerge(p)
}
''']
def num(T,N):
    out.append(f'''
// Load{N} stands for atomic.Load{N}.
func Load{N}(p *{T}) {T} {{ rd(objOf(unsafe.Pointer(p)), p); return *p }}

// Store{N} stands for atomic.Store{N}.
func Store{N}(p *{T}, v {T}) {{ wr(objOf(unsafe.Pointer(p)), p); *p = v }}

// Add{N} stands for atomic.Add{N}.
func Add{N}(p *{T}, v {T}) {T} {{ wr(objOf(unsafe.Pointer(p)), p); *p += v; return *p }}

// Swap{N} stands for atomic.Swap{N}.
func Swap{N}(p *{T}, v {T}) {T} {{ wr(objOf(unsafe.Pointer(p)), p); o := *p; *p = v; return o }}

// CompareAndSwap{N} stands for atomic.CompareAndSwap{N}.
func CompareAndSwap{N}(p *{T}, a, b {T}) bool {{
	wr(objOf(unsafe.Pointer(p)), p)
	if *p != a {{
		return false
	}}
	*p = b
	return true
}}

// {N} stands for atomic.{N}.
type {N} struct {{
	o vsched.Obj
	v {T}
}}

// Load reads.
func (x *{N}) Load() {T} {{ rd(&x.o, x); return x.v }}

// Store writes.
func (x *{N}) Store(v {T}) {{ wr(&x.o, x); x.v = v }}

// Swap exchanges.
func (x *{N}) Swap(v {T}) {T} {{ wr(&x.o, x); o := x.v; x.v = v; return o }}

// CompareAndSwap exchanges when equal.
func (x *{N}) CompareAndSwap(a, b {T}) bool {{
	wr(&x.o, x)
	if x.v != a {{
		return false
	}}
	x.v = b
	return true
}}

// Add adds.
func (x *{N}) Add(d {T}) {T} {{ wr(&x.o, x); x.v += d; return x.v }}
''')
for T,N in [('int32','Int32'),('int64','Int64'),('uint32','Uint32'),('uint64','Uint64'),('uintptr','Uintptr')]: num(T,N)
out.append('''
// Bool stands for atomic.Bool.
type Bool struct {
	o vsched.Obj
	v bool
}

// Load reads.
func (x *Bool) Load() bool { rd(&x.o, x); return x.v }

// Store writes.
func (x *Bool) Store(v bool) { wr(&x.o, x); x.v = v }

// Swap exchanges.
func (x *Bool) Swap(v bool) bool { wr(&x.o, x); o := x.v; x.v = v; return o }

// CompareAndSwap exchanges when equal.
func (x *Bool) CompareAndSwap(a, b bool) bool {
	wr(&x.o, x)
	if x.v != a {
		return false
	}
	x.v = b
	return true
}

// Pointer stands for atomic.Pointer.
type Pointer[T any] struct {
	o vsched.Obj
	v *T
}

// Load reads.
func (x *Pointer[T]) Load() *T { rd(&x.o, x); return x.v }

// Store writes.
func (x *Pointer[T]) Store(v *T) { wr(&x.o, x); x.v = v }

// Swap exchanges.
func (x *Pointer[T]) Swap(v *T) *T { wr(&x.o, x); o := x.v; x.v = v; return o }

// CompareAndSwap exchanges when equal.
func (x *Pointer[T]) CompareAndSwap(a, b *T) bool {
	wr(&x.o, x)
	if x.v != a {
		return false
	}
	x.v = b
	return true
}

// Value stands for atomic.Value.
type Value struct {
	o vsched.Obj
	v interface{}
}

// Load reads.
func (x *Value) Load() interface{} { rd(&x.o, x); return x.v }

// Store writes.
func (x *Value) Store(v interface{}) {
	if v == nil {
		panic("sync/atomic: store of nil value into Value")
	}
	wr(&x.o, x)
	x.v = v
}

// Swap exchanges.
func (x *Value) Swap(v interface{}) interface{} { wr(&x.o, x); o := x.v; x.v = v; return o }

// CompareAndSwap exchanges when equal.
func (x *Value) CompareAndSwap(a, b interface{}) bool {
	wr(&x.o, x)
	if x.v != a {
		return false
	}
	x.v = b
	return true
}
''')
open('/verif/rt/vatomic/atomic.go','w').write(''.join(out))

out=['''// Package vuatomic stands for package go.uber.org/atomic.
package vuatomic

import (
	"time"

	"verif.local/rt/vsched"
)

func rd[T any](o *vsched.Obj, p *T) {
	vsched.Yield("atomic load", o, false, nil)
	vsched.HBAcquire(p)
}

func wr[T any](o *vsched.Obj, p *T) {
	vsched.Yield("atomic write", o, true, nil)
	vsched.HBAcquire(p)
	vsched.HBReleaseMerge(p)
}
''']
def base(T,N,cmp=True,ptr=True):
    out.append(f'''
// {N} stands for atomic.{N}.
type {N} struct {{
	o vsched.Obj
	v {T}
}}

// New{N} makes one.
func New{N}(v {T}) *{N} {{ return &{N}{{v: v}} }}

// Load reads.
func (x *{N}) Load() {T} {{ rd(&x.o, x); return x.v }}

// Store writes.
func (x *{N}) Store(v {T}) {{ wr(&x.o, x); x.v = v }}
''')
    if cmp: out.append(f'''
// Swap exchanges.
func (x *{N}) Swap(v {T}) {T} {{ wr(&x.o, x); o := x.v; x.v = v; return o }}

// CAS exchanges when equal.
func (x *{N}) CAS(a, b {T}) bool {{
	wr(&x.o, x)
	if x.v != a {{
		return false
	}}
	x.v = b
	return true
}}

// CompareAndSwap exchanges when equal.
func (x *{N}) CompareAndSwap(a, b {T}) bool {{ return x.CAS(a, b) }}
''')
def arith(T,N):
    out.append(f'''
// Add adds.
func (x *{N}) Add(d {T}) {T} {{ wr(&x.o, x); x.v += d; return x.v }}

// Sub subtracts.
func (x *{N}) Sub(d {T}) {T} {{ wr(&x.o, x); x.v -= d; return x.v }}
''')
def inc(T,N):
    out.append(f'''
// Inc adds one.
func (x *{N}) Inc() {T} {{ return x.Add(1) }}

// Dec subtracts one.
func (x *{N}) Dec() {T} {{ return x.Sub(1) }}
''')
for T,N in [('int32','Int32'),('int64','Int64'),('uint32','Uint32'),('uint64','Uint64')]:
    base(T,N);arith(T,N);inc(T,N)
base('float64','Float64');arith('float64','Float64')
base('time.Duration','Duration');arith('time.Duration','Duration')
base('bool','Bool')
out.append('''
// Toggle negates and returns the previous value.
func (x *Bool) Toggle() bool { wr(&x.o, x); x.v = !x.v; return !x.v }
''')
base('string','String',False); base('error','Error',False)
out.append('''
// Value stands for atomic.Value.
type Value struct {
	o vsched.Obj
	v interface{}
}

// Load reads.
func (x *Value) Load() interface{} { rd(&x.o, x); return x.v }

// Store writes.
func (x *Value) Store(v interface{}) { wr(&x.o, x); x.v = v }
''')
open('/verif/rt/vuatomic/atomic.go','w').write(''.join(out))
