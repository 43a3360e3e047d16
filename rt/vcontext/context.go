// Package vcontext stands for package context.
package vcontext

import (
	"context"
	"errors"
	"time"

	"verif.local/rt/vsched"
	"verif.local/rt/vtime"
)

// Context stands for context.Context.
type Context interface {
	Deadline() (deadline time.Time, ok bool)
	Done() *vsched.Chan[struct{}]
	Err() error
	Value(key interface{}) interface{}
}

// The errors are those of package context.
var (
	Canceled         = context.Canceled
	DeadlineExceeded = context.DeadlineExceeded
)

// CancelFunc stands for context.CancelFunc.
type CancelFunc = func()

// CancelCauseFunc stands for context.CancelCauseFunc.
type CancelCauseFunc = func(cause error)

type emptyCtx struct{ name string }

func (*emptyCtx) Deadline() (time.Time, bool)       { return time.Time{}, false }
func (*emptyCtx) Done() *vsched.Chan[struct{}]      { return nil }
func (*emptyCtx) Err() error                        { return nil }
func (*emptyCtx) Value(key interface{}) interface{} { return nil }
func (e *emptyCtx) String() string                  { return e.name }

var (
	background = &emptyCtx{"context.Background"}
	todo       = &emptyCtx{"context.TODO"}
)

// Background stands for context.Background.
func Background() Context { return background }

// TODO stands for context.TODO.
func TODO() Context { return todo }

type key int

var cancelKey key

type cancelCtx struct {
	Context
	o        vsched.Obj
	done     *vsched.Chan[struct{}]
	err      error
	cause    error
	children []*cancelCtx
	parent   *cancelCtx
	deadline time.Time
	has      bool
	timer    vsched.Timer
	after    func()
}

func (c *cancelCtx) Deadline() (time.Time, bool) {
	if c.has {
		return c.deadline, true
	}
	return c.Context.Deadline()
}

func (c *cancelCtx) Done() *vsched.Chan[struct{}] { return c.done }

func (c *cancelCtx) Err() error {
	vsched.Yield("ctx err", &c.o, false, nil)
	if c.err != nil {
		vsched.HBAcquire(c)
	}
	return c.err
}

func (c *cancelCtx) Value(k interface{}) interface{} {
	if k == &cancelKey {
		return c
	}
	return c.Context.Value(k)
}

func (c *cancelCtx) cancelNow(err, cause error, timer bool) {
	if c.err != nil {
		return
	}
	if timer {
		vsched.TimerTouch(&c.o)
	} else {
		vsched.Touch(&c.o, true)
		vsched.HBReleaseMerge(c)
	}
	if cause == nil {
		cause = err
	}
	c.err, c.cause = err, cause
	c.done.CloseNow()
	c.timer.Stop()
	for _, k := range c.children {
		k.cancelNow(err, cause, timer)
	}
	c.children = nil
	if c.after != nil {
		f := c.after
		if timer {
			vsched.SpawnFromTimer("context.AfterFunc", 0, 1, f)
		} else {
			vsched.Go("context.AfterFunc", f)
		}
	}
}

func (c *cancelCtx) unlink() {
	if p := c.parent; p != nil {
		for i, k := range p.children {
			if k == c {
				p.children = vsched.Without(p.children, i)
				return
			}
		}
	}
}

func newCtx(parent Context) *cancelCtx {
	if parent == nil {
		panic("cannot create context from nil parent")
	}
	c := &cancelCtx{Context: parent, done: vsched.MakeChan[struct{}]()}
	if p, ok := parent.Value(&cancelKey).(*cancelCtx); ok && p.done == parent.Done() {
		if p.err != nil {
			c.cancelNow(p.err, p.cause, false)
		} else {
			c.parent = p
			p.children = append(p.children, c)
		}
	} else if d := parent.Done(); d != nil {
		vsched.Go("context propagation", func() {
			r, s := d.RecvCase(), c.done.RecvCase()
			if vsched.Select(false, r, s) == 0 {
				c.cancelNow(parent.Err(), nil, false)
			}
		})
	}
	return c
}

func (c *cancelCtx) cancel(cause error) {
	vsched.Yield("ctx cancel", &c.o, true, nil)
	c.cancelNow(Canceled, cause, false)
	c.unlink()
}

// WithCancel stands for context.WithCancel.
func WithCancel(parent Context) (Context, CancelFunc) {
	c := newCtx(parent)
	return c, func() { c.cancel(nil) }
}

// WithCancelCause stands for context.WithCancelCause.
func WithCancelCause(parent Context) (Context, CancelCauseFunc) {
	c := newCtx(parent)
	return c, func(cause error) { c.cancel(cause) }
}

// WithDeadline stands for context.WithDeadline.
func WithDeadline(parent Context, d time.Time) (Context, CancelFunc) {
	return WithDeadlineCause(parent, d, nil)
}

// WithDeadlineCause stands for context.WithDeadlineCause.
func WithDeadlineCause(parent Context, d time.Time, cause error) (Context, CancelFunc) {
	c := newCtx(parent)
	if cur, ok := parent.Deadline(); ok && cur.Before(d) {
		return c, func() { c.cancel(nil) }
	}
	c.deadline, c.has = d, true
	if vtime.Nano(d) <= vsched.Clock() {
		c.cancelNow(DeadlineExceeded, cause, false)
		return c, func() { c.cancel(nil) }
	}
	if c.err == nil {
		c.timer = vsched.AddTimer(vtime.Nano(d), func() { c.cancelNow(DeadlineExceeded, cause, true) })
	}
	return c, func() { c.cancel(nil) }
}

// WithTimeout stands for context.WithTimeout.
func WithTimeout(parent Context, d time.Duration) (Context, CancelFunc) {
	return WithDeadline(parent, vtime.Base.Add(time.Duration(vsched.ReadClock())+d))
}

// WithTimeoutCause stands for context.WithTimeoutCause.
func WithTimeoutCause(parent Context, d time.Duration, cause error) (Context, CancelFunc) {
	return WithDeadlineCause(parent, vtime.Base.Add(time.Duration(vsched.ReadClock())+d), cause)
}

type valueCtx struct {
	Context
	k, v interface{}
}

func (v *valueCtx) Value(k interface{}) interface{} {
	if k == v.k {
		return v.v
	}
	return v.Context.Value(k)
}

// WithValue stands for context.WithValue.
func WithValue(parent Context, k, v interface{}) Context { return &valueCtx{parent, k, v} }

type withoutCancel struct{ c Context }

func (withoutCancel) Deadline() (time.Time, bool)  { return time.Time{}, false }
func (withoutCancel) Done() *vsched.Chan[struct{}] { return nil }
func (withoutCancel) Err() error                   { return nil }
func (w withoutCancel) Value(k interface{}) interface{} {
	if k == &cancelKey {
		return nil
	}
	return w.c.Value(k)
}

// WithoutCancel stands for context.WithoutCancel.
func WithoutCancel(parent Context) Context { return withoutCancel{parent} }

// Cause stands for context.Cause.
func Cause(c Context) error {
	if p, ok := c.Value(&cancelKey).(*cancelCtx); ok {
		vsched.Yield("ctx cause", &p.o, false, nil)
		return p.cause
	}
	return c.Err()
}

// AfterFunc stands for context.AfterFunc.
func AfterFunc(ctx Context, f func()) (stop func() bool) {
	c := newCtx(ctx)
	if c.err != nil {
		vsched.Go("context.AfterFunc", f)
		return func() bool { return false }
	}
	c.after = f
	return func() bool {
		vsched.Yield("ctx stop", &c.o, true, nil)
		was := c.err == nil && c.after != nil
		c.after = nil
		c.unlink()
		return was
	}
}

var _ = errors.New
