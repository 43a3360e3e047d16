// Package vtime stands for the parts of package time that read or wait for the clock.
package vtime

import (
	"time"

	"verif.local/rt/vsched"
)

// Base is the time at which every execution starts.
var Base = time.Date(2020, 2, 2, 2, 2, 2, 0, time.UTC)

// Now is the virtual time.
func Now() time.Time { return Base.Add(time.Duration(vsched.ReadClock())) }

// Since stands for time.Since.
func Since(t time.Time) time.Duration { return Now().Sub(t) }

// Until stands for time.Until.
func Until(t time.Time) time.Duration { return t.Sub(Now()) }

// Nano converts a time to virtual nanoseconds.
func Nano(t time.Time) int64 { return int64(t.Sub(Base)) }

// Sleep stands for time.Sleep.
func Sleep(d time.Duration) { vsched.Sleep(int64(d)) }

// Timer stands for time.Timer.
type Timer struct {
	C *vsched.Chan[time.Time]

	f     func()
	group int
	h     uint64
	t     vsched.Timer
}

func (t *Timer) start(d time.Duration) {
	t.group, t.h = vsched.Group(), vsched.ThreadHash()
	if d < 0 {
		d = 0
	}
	t.t = vsched.AddTimer(vsched.Clock()+int64(d), func() {
		if t.f != nil {
			vsched.SpawnFromTimer("time.AfterFunc", t.group, t.h, t.f)
			return
		}
		t.C.TrySendNow(Base.Add(time.Duration(vsched.Clock())))
	})
}

// NewTimer stands for time.NewTimer.
func NewTimer(d time.Duration) *Timer {
	t := &Timer{C: vsched.MakeChan[time.Time](1)}
	t.start(d)
	return t
}

// AfterFunc stands for time.AfterFunc.
func AfterFunc(d time.Duration, f func()) *Timer {
	t := &Timer{f: f}
	t.start(d)
	return t
}

// After stands for time.After.
func After(d time.Duration) *vsched.Chan[time.Time] { return NewTimer(d).C }

// Stop stands for (*time.Timer).Stop.
func (t *Timer) Stop() bool {
	vsched.Yield("timer stop", nil, false, nil)
	return t.t.Stop()
}

// Reset stands for (*time.Timer).Reset.
func (t *Timer) Reset(d time.Duration) bool {
	vsched.Yield("timer reset", nil, false, nil)
	was := t.t.Stop()
	t.start(d)
	return was
}

// Ticker stands for time.Ticker.
type Ticker struct {
	C *vsched.Chan[time.Time]

	d       time.Duration
	t       vsched.Timer
	stopped bool
}

// NewTicker stands for time.NewTicker.
func NewTicker(d time.Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	t := &Ticker{C: vsched.MakeChan[time.Time](1), d: d}
	t.start()
	return t
}

func (t *Ticker) start() {
	t.t = vsched.AddTimer(vsched.Clock()+int64(t.d), func() {
		if t.stopped {
			return
		}
		t.C.TrySendNow(Base.Add(time.Duration(vsched.Clock())))
		t.start()
	})
}

// Stop stands for (*time.Ticker).Stop.
func (t *Ticker) Stop() {
	vsched.Yield("ticker stop", nil, false, nil)
	t.stopped = true
	t.t.Stop()
}

// Reset stands for (*time.Ticker).Reset.
func (t *Ticker) Reset(d time.Duration) {
	vsched.Yield("ticker reset", nil, false, nil)
	t.t.Stop()
	t.d, t.stopped = d, false
	t.start()
}

// Tick stands for time.Tick.
func Tick(d time.Duration) *vsched.Chan[time.Time] { return NewTicker(d).C }
