// Package vsched is a controlled scheduler: it runs the goroutines of an instrumented program one at a time, and
// decides at every synchronisation operation which of them continues. One execution at a time per process.
//
// All memory of this package is touched either by the one running thread or by the controller while no thread runs,
// so nothing here is locked. The package is compiled without race instrumentation (see the driver), and hand-offs are
// hidden from the race detector, so that in race builds only the happens-before edges announced through HBRelease and
// HBAcquire are visible to it.
package vsched

import (
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"
)

// Enabler tells whether a pending operation can execute now.
type Enabler interface{ Enabled() bool }

// Deadliner is implemented by pending operations that become enabled at a given virtual time.
type Deadliner interface{ Deadline() (int64, bool) }

// Thread is one goroutine under control.
type Thread struct {
	path   []uint16 // position in the tree of spawns: schedule independent identity
	id     uint64   // hash of path
	hash   uint64   // happens-before hash of the thread's last event
	kids   int
	rnd    uint64 // number of unique random blocks drawn
	seq    uint64 // arrival number of the pending operation
	Group  int    // label inherited by spawned threads: the "process" the thread belongs to
	Daemon bool
	site   string

	op     Enabler // nil: always enabled
	kind   string
	idle   int // 1: waits until nothing else can run; 2: same, also after all timers
	wake   chan struct{}
	done   bool
	parked bool
	chanop *waitOp
}

type timer struct {
	when int64
	seq  uint64
	fn   func()
	dead bool
}

// Status of a finished execution.
type Status int

// The ways in which an execution ends.
const (
	OK Status = iota
	Failed
	Deadlock
	Panicked
	Horizon
	Pruned
	Aborted
)

func (s Status) String() string {
	return [...]string{"ok", "failed", "deadlock", "panic", "horizon", "pruned", "aborted"}[s]
}

// Choice is one decision of an execution: which of N alternatives was taken.
type Choice struct {
	N    int   // number of alternatives
	Pick int   // the one taken
	Cost uint8 // cost of every alternative other than 0
}

// Dev is a decision that is not the default.
type Dev struct{ Step, Pick int }

// Branch is a point of an execution, after its prefix, whose other alternatives have yet to be explored.
type Branch struct {
	Step int // index into the choices
	N    int
	Cost uint8
}

// Opts configures an execution.
type Opts struct {
	Devs        []Dev // decisions other than the default, by increasing step
	Policy      int   // 0: lowest path after the current thread; 1: most recently created first
	MaxSteps    int
	Seen        func(h uint64) bool // records h; true when it had been recorded before
	Trace       bool
	EarlyTimers int // how many times timers may fire although threads can run
	MapReverse  bool
	ShortReads  int // how many reads may return fewer bytes than available
	Race        bool
	Stmts       bool // every statement of the library is a scheduling point
}

// Result of an execution.
type Result struct {
	Status   Status
	Msg      string
	Steps    int
	Choices  []Choice
	Branches []Branch
	Log      []string
	Blocked  []string
	Facts    []FactCount
	States   int
	Diverged bool
	Clock    int64
}

type exec struct {
	o        Opts
	threads  []*Thread // ordered by path
	cur      *Thread
	clock    int64
	seq      uint64
	timers   []*timer
	sum      uint64 // combined happens-before hash
	quiet    int    // >0: no deviations
	quietCho bool
	aborting bool
	ended    bool
	res      Result
	choices  []Choice
	doneCh   chan struct{}
	exitCh   chan struct{}
	clockObj Obj
	early    int
	short    int
	cleanups []func()
	values   []kv
	created  int
	ndev     int
	oracle   Obj
	stmtObj  Obj
}

var ex *exec

var endSync byte

const offset64 = 14695981039346656037

// Mix combines two hashes.
func Mix(a, b uint64) uint64 {
	a ^= b + 0x9e3779b97f4a7c15 + (a << 6) + (a >> 2)
	a ^= a >> 30
	a *= 0xbf58476d1ce4e5b9
	a ^= a >> 27
	a *= 0x94d049bb133111eb
	a ^= a >> 31
	return a
}

// Obj carries the happens-before hash of a shared object.
type Obj struct {
	last  uint64
	reads uint64
	e     *exec
}

// Active tells whether a controlled execution is in progress.
func Active() bool { return ex != nil }

func (e *exec) event(t *Thread, o *Obj, write bool, k uint64) {
	if o.e != e {
		o.e, o.reads = e, 0
		o.last = Mix(t.hash, 0x51ed)
	}
	h := Mix(t.hash, Mix(o.last, k))
	if write {
		h = Mix(h, o.reads)
		o.last, o.reads = h, 0
	} else {
		o.reads += h
	}
	e.setHash(t, h)
}

func (e *exec) setHash(t *Thread, h uint64) {
	e.sum ^= Mix(t.id, t.hash)
	t.hash = h
	e.sum ^= Mix(t.id, h)
}

// Touch records an access to o by the running thread that is no scheduling point.
func Touch(o *Obj, write bool) {
	e := ex
	if e == nil || e.aborting {
		return
	}
	e.event(e.cur, o, write, 1)
	if stmts {
		e.event(e.cur, &e.stmtObj, true, 5)
	}
}

// Yield is a scheduling point: it returns once the scheduler picked this thread while en allowed it.
func Yield(kind string, o *Obj, write bool, en Enabler) {
	e := ex
	if e == nil {
		if en != nil && !en.Enabled() {
			panic("vsched: " + kind + " would block outside of an execution")
		}
		return
	}
	if e.aborting {
		runtime.Goexit()
	}
	t := e.cur
	e.seq++
	t.op, t.kind, t.seq = en, kind, e.seq
	e.reschedule(t)
	t.op = nil
	if o != nil {
		e.event(t, o, write, 0)
	} else {
		e.setHash(t, Mix(t.hash, 3))
	}
	if stmts && o != &e.stmtObj { // plain memory may be shared: all orders are different
		e.event(t, &e.stmtObj, true, 5)
	}
	if e.o.Trace {
		e.trace(t, kind)
	}
}

// stmts tells whether statements are scheduling points in the current execution.
var stmts bool

// Stmt stands in front of every statement of the library.
func Stmt() {
	if stmts {
		stmt()
	}
}

func stmt() {
	e := ex
	if e == nil || e.aborting || e.quiet > 0 {
		return
	}
	Yield("statement", &e.stmtObj, true, nil)
}

// Aborting tells whether the execution is being torn down: effects must not be performed any more.
func Aborting() bool { return ex != nil && ex.aborting }

// reschedule picks the next thread and, unless it is t, hands over to it and waits for its turn.
func (e *exec) reschedule(t *Thread) {
	n := e.pick(t)
	if n == nil { // the execution has ended
		e.finish()
		e.park(t)
		return
	}
	if n == t {
		return
	}
	e.cur = n
	n.wake <- struct{}{}
	e.park(t)
}

func (e *exec) park(t *Thread) {
	raceOff()
	<-t.wake
	raceOn()
	if e.aborting {
		runtime.Goexit()
	}
}

func (e *exec) end(s Status, msg string) {
	if e.ended {
		return
	}
	e.ended = true
	e.res.Status, e.res.Msg = s, msg
}

// finish wakes the controller, once.
func (e *exec) finish() {
	raceOff()
	select {
	case e.doneCh <- struct{}{}:
	default:
	}
	raceOn()
}

// pick decides which thread runs next; t is the one that just published its operation, or exited.
func (e *exec) pick(t *Thread) *Thread {
	if e.ended {
		return nil
	}
	var buf [64]*Thread
	for {
		e.res.Steps++
		if e.res.Steps > e.o.MaxSteps {
			e.end(Horizon, fmt.Sprintf("more than %d steps", e.o.MaxSteps))
			return nil
		}
		en := buf[:0]
		for _, c := range e.threads {
			if c.done || c.idle != 0 {
				continue
			}
			if c.op == nil || c.op.Enabled() {
				en = append(en, c)
			}
		}
		if len(en) == 0 {
			for _, c := range e.threads {
				if !c.done && c.idle == 1 {
					return c
				}
			}
			if e.advance() {
				continue
			}
			for _, c := range e.threads {
				if !c.done && c.idle == 2 {
					return c
				}
			}
			e.deadlock()
			return nil
		}
		// Default: the current thread, else the policy's next.
		def := -1
		for i, c := range en {
			if c == t {
				def = i
			}
		}
		if def < 0 {
			switch e.o.Policy {
			case 1:
				def = len(en) - 1
				for i, c := range en {
					if c.seq > en[def].seq {
						def = i
					}
				}
			case 2:
				def = 0
				for i, c := range en {
					if c.seq < en[def].seq {
						def = i
					}
				}
			default:
				def = 0
				for i, c := range en {
					if pathLess(t.path, c.path) {
						def = i
						break
					}
				}
			}
		}
		if e.quiet > 0 {
			return en[def]
		}
		n := len(en)
		early := e.early > 0 && e.nextTime() >= 0
		if early {
			n++
		}
		if n == 1 {
			return en[0]
		}
		p, ok := e.choose(t, n, 1)
		if !ok {
			return nil
		}
		if p == 0 {
			return en[def]
		}
		if early && p == n-1 {
			e.early--
			e.advance()
			continue
		}
		// alternatives in cyclic order after the default
		i := (def + p) % len(en)
		return en[i]
	}
}

// choose takes a decision among n alternatives; ok is false when the execution was pruned.
func (e *exec) choose(t *Thread, n int, cost uint8) (int, bool) {
	i := len(e.choices)
	if e.ndev < len(e.o.Devs) {
		p := 0
		if d := e.o.Devs[e.ndev]; d.Step == i {
			p = d.Pick
			e.ndev++
		}
		if p >= n {
			p = 0
			e.res.Diverged = true
		}
		e.choices = append(e.choices, Choice{n, p, cost})
		return p, true
	}
	key := Mix(Mix(e.sum, t.id), Mix(uint64(e.clock), uint64(n)<<8|uint64(cost)))
	key = Mix(key, uint64(e.early)<<32|uint64(e.short)<<16|uint64(e.o.Policy))
	if t.done {
		key = Mix(key, 77)
	}
	if e.o.Seen != nil {
		if e.o.Seen(key) {
			e.end(Pruned, "")
			return 0, false
		}
		e.res.States++
		e.res.Branches = append(e.res.Branches, Branch{i, n, cost})
	}
	e.choices = append(e.choices, Choice{n, 0, cost})
	return 0, true
}

func pathLess(a, b []uint16) bool {
	for i := 0; i < len(a) && i < len(b); i++ {
		if a[i] != b[i] {
			return a[i] < b[i]
		}
	}
	return len(a) < len(b)
}

// nextTime is the virtual time of the next timer or pending deadline, or -1.
func (e *exec) nextTime() int64 {
	best := int64(-1)
	for _, tm := range e.timers {
		if !tm.dead && (best < 0 || tm.when < best) {
			best = tm.when
		}
	}
	for _, c := range e.threads {
		if c.done || c.op == nil {
			continue
		}
		if d, ok := c.op.(Deadliner); ok {
			if w, has := d.Deadline(); has && w > e.clock && (best < 0 || w < best) {
				best = w
			}
		}
	}
	return best
}

// advance moves the clock to the next timer or deadline and fires what is due.
func (e *exec) advance() bool {
	w := e.nextTime()
	if w < 0 {
		return false
	}
	if w > e.clock {
		e.clock = w
	}
	e.clockObj.last = Mix(e.clockObj.last, uint64(w))
	for {
		var best *timer
		bi := -1
		for i, tm := range e.timers {
			if tm.dead || tm.when > e.clock {
				continue
			}
			if best == nil || tm.when < best.when || (tm.when == best.when && tm.seq < best.seq) {
				best, bi = tm, i
			}
		}
		if best == nil {
			break
		}
		e.timers = Without(e.timers, bi)
		best.dead = true
		best.fn()
	}
	// drop stopped timers
	k := 0
	for _, tm := range e.timers {
		if !tm.dead {
			e.timers[k] = tm
			k++
		}
	}
	e.timers = e.timers[:k]
	if e.o.Trace {
		e.res.Log = append(e.res.Log, fmt.Sprintf("-- clock %v", e.clock))
	}
	return true
}

func (e *exec) deadlock() {
	for _, c := range e.threads {
		if !c.done {
			e.res.Blocked = append(e.res.Blocked, c.describe())
		}
	}
	e.end(Deadlock, "nothing can run any more; blocked: "+strings.Join(e.res.Blocked, "; "))
}

func (t *Thread) describe() string {
	return fmt.Sprintf("%s (%s) at %s", t.name(), t.site, t.kind)
}

func (t *Thread) name() string {
	var b strings.Builder
	b.WriteString("T")
	for i, p := range t.path {
		if i > 0 {
			b.WriteByte('.')
		}
		b.WriteString(strconv.Itoa(int(p)))
	}
	return b.String()
}

func (e *exec) spawn(parent *Thread, site string, fn func()) *Thread {
	t := &Thread{wake: make(chan struct{}, 1), site: site, kind: "start"}
	if parent != nil {
		t.path = make([]uint16, len(parent.path)+1)
		copy(t.path, parent.path)
		t.path[len(parent.path)] = uint16(parent.kids)
		parent.kids++
		t.id = Mix(parent.id, uint64(parent.kids))
		t.hash = Mix(parent.hash, 0xc0ffee)
		t.Group = parent.Group
		e.setHash(parent, Mix(parent.hash, 0x60))
	} else {
		t.id = Mix(uint64(e.created+1), 0x7ead)
		t.path = []uint16{uint16(e.created)}
	}
	e.created++
	e.seq++
	t.seq = e.seq
	e.sum ^= Mix(t.id, t.hash)
	// keep ordered by path
	i := len(e.threads)
	for i > 0 && pathLess(t.path, e.threads[i-1].path) {
		i--
	}
	e.threads = append(e.threads, nil)
	for j := len(e.threads) - 1; j > i; j-- { // not copy: the runtime would show it to the race detector
		e.threads[j] = e.threads[j-1]
	}
	e.threads[i] = t
	go t.run(e, fn)
	return t
}

func (t *Thread) run(e *exec, fn func()) {
	normal := false
	defer t.exit(e, &normal)
	raceOff()
	<-t.wake
	raceOn()
	if e.aborting {
		runtime.Goexit()
	}
	if e.o.Trace {
		e.trace(t, "start")
	}
	fn()
	normal = true
}

func (t *Thread) exit(e *exec, normal *bool) {
	r := recover()
	t.done = true
	HBReleaseMerge(&endSync) // one execution happens before the next
	if e.aborting {
		raceOff()
		e.exitCh <- struct{}{}
		raceOn()
		return
	}
	if r != nil {
		st := string(debug.Stack())
		e.end(Panicked, fmt.Sprintf("panic in %s (%s): %v\n%s", t.name(), t.site, r, trimStack(st)))
		e.finish()
		return
	}
	e.setHash(t, Mix(t.hash, 0xdead))
	// dropped from the list: it takes no further part
	if len(t.path) == 1 && t.path[0] == 0 {
		e.end(OK, "")
		e.finish()
		return
	}
	for i, c := range e.threads {
		if c == t {
			e.threads = Without(e.threads, i)
			break
		}
	}
	n := e.pick(t)
	if n == nil {
		e.finish()
		return
	}
	e.cur = n
	raceOff()
	n.wake <- struct{}{}
	raceOn()
}

func trimStack(s string) string {
	lines := strings.Split(s, "\n")
	var out []string
	for i := 0; i+1 < len(lines); i++ {
		l := lines[i]
		if strings.HasPrefix(l, "\t") || strings.HasPrefix(l, "goroutine ") || strings.Contains(l, "verif.local/rt") ||
			strings.HasPrefix(l, "panic(") || strings.HasPrefix(l, "runtime") {
			continue
		}
		pos := strings.TrimSpace(lines[i+1])
		if j := strings.LastIndex(pos, " +0x"); j > 0 {
			pos = pos[:j]
		}
		if j := strings.LastIndex(l, "("); j > 0 {
			l = l[:j]
		}
		out = append(out, "    "+l+" "+pos)
		if len(out) > 12 {
			break
		}
	}
	return strings.Join(out, "\n")
}

// Go starts a controlled thread.
func Go(site string, fn func()) {
	e := ex
	if e == nil {
		panic("vsched: go statement outside of an execution at " + site)
	}
	if e.aborting {
		return
	}
	e.spawn(e.cur, site, fn)
}

// Run performs one execution of main under o.
func Run(o Opts, main func()) *Result {
	if ex != nil {
		panic("vsched: nested execution")
	}
	if o.MaxSteps == 0 {
		o.MaxSteps = 20000
	}
	e := &exec{o: o, doneCh: make(chan struct{}, 1), exitCh: make(chan struct{}, 1), early: o.EarlyTimers, short: o.ShortReads}
	ex = e
	stmts = o.Stmts
	t := e.spawn(nil, "main", main)
	e.cur = t
	t.wake <- struct{}{}
	<-e.doneCh
	e.abort()
	HBAcquire(&endSync)
	for i := len(e.cleanups) - 1; i >= 0; i-- {
		e.cleanups[i]()
	}
	e.res.Choices = e.choices
	e.res.Clock = e.clock
	ex, stmts = nil, false
	return &e.res
}

func (e *exec) abort() {
	e.aborting = true
	for i := 0; i < len(e.threads); i++ {
		t := e.threads[i]
		if t.done {
			continue
		}
		e.cur = t
		raceOff()
		t.wake <- struct{}{}
		<-e.exitCh
		raceOn()
	}
}

// OnEnd registers fn to run after the execution was torn down.
func OnEnd(fn func()) {
	if ex != nil {
		ex.cleanups = append(ex.cleanups, fn)
	}
}

func (e *exec) trace(t *Thread, kind string) {
	var pcs [24]uintptr
	n := runtime.Callers(3, pcs[:])
	fr := runtime.CallersFrames(pcs[:n])
	pos := ""
	for {
		f, more := fr.Next()
		if !strings.Contains(f.Function, "verif.local/rt") && !strings.HasPrefix(f.Function, "runtime.") &&
			!strings.HasPrefix(f.Function, "bufio.") && !strings.HasPrefix(f.Function, "io.") && f.File != "" {
			fn := f.Function
			if i := strings.LastIndex(fn, "/"); i >= 0 {
				fn = fn[i+1:]
			}
			file := f.File
			if i := strings.LastIndex(file, "/"); i >= 0 {
				file = file[i+1:]
			}
			pos = fn + " " + file + ":" + strconv.Itoa(f.Line)
			break
		}
		if !more {
			break
		}
	}
	e.res.Log = append(e.res.Log, t.name()+" "+kind+" ["+t.site+"] "+pos) // no fmt: it synchronises
}

// Debugf adds a line to the trace.
func Debugf(format string, a ...interface{}) {
	if ex != nil && ex.o.Trace && !ex.aborting {
		ex.res.Log = append(ex.res.Log, "   "+ex.cur.name()+" # "+fmt.Sprintf(format, a...))
	}
	if ex == nil && os.Getenv("VSCHED_DEBUG") != "" {
		fmt.Fprintf(os.Stderr, format+"\n", a...)
	}
}
