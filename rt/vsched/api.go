package vsched

import (
	"fmt"
	"runtime"
)

// Choose is a data decision among n alternatives; alternatives other than 0 add cost to the execution.
func Choose(n int, cost uint8) int {
	e := ex
	if n <= 1 || e == nil {
		return 0
	}
	if e.aborting {
		runtime.Goexit()
	}
	t := e.cur
	p, ok := e.choose(t, n, cost)
	if !ok {
		e.finish()
		e.park(t)
	}
	e.setHash(t, Mix(t.hash, uint64(p)+0x100))
	if e.o.Trace {
		e.res.Log = append(e.res.Log, fmt.Sprintf("   %s chooses %d of %d", t.name(), p, n))
	}
	return p
}

// Pick is a harness decision that costs nothing.
func Pick(n int) int { return Choose(n, 0) }

// Quiet runs fn without exploring alternatives.
func Quiet(fn func()) {
	QuietOn()
	fn()
	QuietOff()
}

// QuietOn stops the exploration of alternative schedules until QuietOff.
func QuietOn() {
	if ex != nil {
		ex.quiet++
	}
}

// QuietOff ends QuietOn.
func QuietOff() {
	if ex != nil {
		ex.quiet--
	}
}

// IsQuiet tells whether alternatives are currently not explored.
func IsQuiet() bool { return ex != nil && ex.quiet > 0 }

func idle(mode int, kind string) {
	e := ex
	if e == nil {
		return
	}
	if e.aborting {
		runtime.Goexit()
	}
	t := e.cur
	t.idle, t.kind, t.op = mode, kind, nil
	e.seq++
	t.seq = e.seq
	e.reschedule(t)
	t.idle = 0
	// everything that happened before is known now
	e.setHash(t, Mix(t.hash, e.sum))
	e.oracle.last = Mix(e.oracle.last, t.hash)
}

// Quiesce waits until no other thread can run without time passing.
func Quiesce() { idle(1, "quiesce") }

// Settle waits until no other thread can run however much time passes.
func Settle() { idle(2, "settle") }

// Fail ends the execution: the property is violated.
func Fail(format string, a ...interface{}) {
	e := ex
	if e == nil {
		panic(fmt.Sprintf(format, a...))
	}
	if e.aborting {
		runtime.Goexit()
	}
	e.end(Failed, fmt.Sprintf(format, a...))
	e.finish()
	e.park(e.cur)
}

// Discard ends the execution: it is of no interest.
func Discard(why string) {
	e := ex
	if e.aborting {
		runtime.Goexit()
	}
	e.fact("discarded: " + why)
	e.end(OK, "")
	e.finish()
	e.park(e.cur)
}

// Fact counts something about this execution for the evidence.
func Fact(name string) {
	if ex != nil && !ex.aborting {
		ex.fact(name)
	}
}

// Mark orders this moment with respect to all other marks: harnesses call it where they record cross thread order.
func Mark() {
	if ex != nil && !ex.aborting {
		ex.event(ex.cur, &ex.oracle, true, 9)
	}
}

// MarkPoint is Mark, and a scheduling point.
func MarkPoint() {
	if ex != nil {
		Yield("mark", &ex.oracle, true, nil)
	}
}

// SetGroup labels the running thread, and those it will spawn, as belonging to process g.
func SetGroup(g int) int {
	if ex == nil {
		return 0
	}
	o := ex.cur.Group
	ex.cur.Group = g
	return o
}

// Group is the label of the running thread.
func Group() int {
	if ex == nil {
		return 0
	}
	return ex.cur.Group
}

// Unique returns a number that no other call in this execution returned, and that does not depend on the schedule.
func Unique() uint64 {
	if ex == nil {
		return 0
	}
	t := ex.cur
	t.rnd++
	return Mix(t.id, t.rnd)
}

// Clock is the virtual time in nanoseconds.
func Clock() int64 {
	if ex == nil {
		return 0
	}
	return ex.clock
}

// ReadClock is Clock as an event of the running thread.
func ReadClock() int64 {
	e := ex
	if e == nil {
		return 0
	}
	if !e.aborting {
		e.setHash(e.cur, Mix(e.cur.hash, uint64(e.clock)^0x71))
	}
	return e.clock
}

// Timer is a pending virtual timer.
type Timer struct{ t *timer }

// AddTimer has fn called once the clock reaches when; fn must not block.
func AddTimer(when int64, fn func()) Timer {
	e := ex
	if e == nil {
		panic("vsched: timer outside of an execution")
	}
	e.seq++
	t := &timer{when: when, seq: e.seq, fn: fn}
	if e.aborting {
		t.dead = true
		return Timer{t}
	}
	e.timers = append(e.timers, t)
	return Timer{t}
}

// TimerTouch is Touch for timer callbacks: the event is the clock's.
func TimerTouch(o *Obj) {
	e := ex
	if e == nil {
		return
	}
	if o.e != e {
		o.e, o.reads, o.last = e, 0, 0
	}
	o.last = Mix(Mix(o.last, o.reads), uint64(e.clock))
	o.reads = 0
	e.sum = Mix(e.sum, 0x7133)
}

// Stop cancels the timer and tells whether it was pending.
func (t Timer) Stop() bool {
	if t.t == nil || t.t.dead {
		return false
	}
	t.t.dead = true
	return true
}

// SpawnFromTimer starts a thread from a timer callback.
func SpawnFromTimer(site string, group int, h uint64, fn func()) {
	e := ex
	if e == nil || e.aborting {
		return
	}
	t := e.spawn(nil, site, fn)
	t.Group = group
	e.setHash(t, Mix(h, uint64(e.clock)))
}

// ThreadHash is the history hash of the running thread.
func ThreadHash() uint64 {
	if ex == nil {
		return 0
	}
	return ex.cur.hash
}

// Sleep blocks the running thread for d nanoseconds of virtual time.
func Sleep(d int64) {
	e := ex
	if e == nil {
		return
	}
	Yield("sleep", nil, false, sleeper(e.clock+d))
}

type sleeper int64

func (s sleeper) Enabled() bool           { return ex.clock >= int64(s) }
func (s sleeper) Deadline() (int64, bool) { return int64(s), true }

// Info describes a live thread.
type Info struct {
	Name, Site, Kind string
	Group            int
}

// Live lists the threads other than the caller that have not ended.
func Live() []Info {
	var out []Info
	if ex == nil {
		return nil
	}
	for _, t := range ex.threads {
		if t.done || t == ex.cur {
			continue
		}
		out = append(out, Info{t.name(), t.site, t.kind, t.Group})
	}
	return out
}

// LiveInGroup lists the live threads of a process.
func LiveInGroup(g int) []Info {
	var out []Info
	for _, i := range Live() {
		if i.Group == g {
			out = append(out, i)
		}
	}
	return out
}

// ShortRead decides how many of n available bytes a read returns.
func ShortRead(n int) int {
	e := ex
	if e == nil || e.short == 0 || n < 2 || e.quiet > 0 {
		return n
	}
	switch Choose(3, 1) {
	case 1:
		e.short--
		return 1
	case 2:
		e.short--
		return n - 1
	}
	return n
}

// Value returns the execution-local value registered under key, made by mk on first use.
func Value(key string, mk func() interface{}) interface{} {
	e := ex
	if e == nil {
		return mk()
	}
	for i := range e.values {
		if e.values[i].k == key {
			return e.values[i].v
		}
	}
	v := mk()
	e.values = append(e.values, kv{key, v})
	return v
}

type kv struct {
	k string
	v interface{}
}

func (e *exec) fact(name string) {
	for i := range e.res.Facts {
		if e.res.Facts[i].Name == name {
			e.res.Facts[i].N++
			return
		}
	}
	e.res.Facts = append(e.res.Facts, FactCount{name, 1})
}

// FactCount is a counted fact.
type FactCount struct {
	Name string
	N    int
}

// Steps is the number of scheduling steps so far.
func Steps() int {
	if ex == nil {
		return 0
	}
	return ex.res.Steps
}

// Native tells whether the program runs uninstrumented.
const Native = false

// Without is a copy of s without element i; not through append or copy of a whole slice, which the runtime would show
// to the race detector.
func Without[T any](s []T, i int) []T {
	n := make([]T, 0, len(s))
	for j, v := range s {
		if j != i {
			n = append(n, v)
		}
	}
	return n
}
