package vsched

// Chan stands for a Go channel.
type Chan[T any] struct {
	o      Obj
	buf    []T
	head   int
	n      int
	cap    int
	closed bool
	sendq  []*waiter[T]
	recvq  []*waiter[T]
	slots  []byte // race detector sync addresses, one per buffer slot
}

type waitOp struct {
	fired int
	t     *Thread
	sync  [2]byte
}

type waiter[T any] struct {
	op  *waitOp
	idx int
	val T
	ok  bool
}

// MakeChan is make(chan T, n).
func MakeChan[T any](n ...int) *Chan[T] {
	c := &Chan[T]{}
	if len(n) > 0 {
		if n[0] < 0 {
			panic("makechan: size out of range")
		}
		c.cap = n[0]
	}
	if c.cap > 0 {
		c.buf = make([]T, min(c.cap, 64))
		if RaceBuild {
			c.slots = make([]byte, c.cap)
		}
	}
	return c
}

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}

func (c *Chan[T]) live(q []*waiter[T]) *waiter[T] {
	for _, w := range q {
		if w.op.fired < 0 && w.op.t != ex.cur {
			return w
		}
	}
	return nil
}

func (c *Chan[T]) liveFor(q []*waiter[T], op *waitOp) *waiter[T] {
	for _, w := range q {
		if w.op.fired < 0 && w.op != op {
			return w
		}
	}
	return nil
}

func (c *Chan[T]) canRecv(op *waitOp) bool {
	return c.n > 0 || c.closed || (c.cap == 0 && c.liveFor(c.sendq, op) != nil)
}

func (c *Chan[T]) canSend(op *waitOp) bool {
	return c.closed || c.n < c.cap || (c.cap == 0 && c.liveFor(c.recvq, op) != nil)
}

func (c *Chan[T]) push(v T) {
	if c.n == len(c.buf) {
		nb := make([]T, min(2*len(c.buf), c.cap))
		for i := 0; i < c.n; i++ {
			nb[i] = c.buf[(c.head+i)%len(c.buf)]
		}
		c.buf, c.head = nb, 0
	}
	c.buf[(c.head+c.n)%len(c.buf)] = v
	c.n++
	if c.slots != nil {
		// slot identity is only a token here
		HBAcquire(&c.slots[0])
		HBReleaseMerge(&c.slots[0])
	}
}

func (c *Chan[T]) pop() T {
	var zero T
	v := c.buf[c.head]
	c.buf[c.head] = zero
	c.head = (c.head + 1) % len(c.buf)
	c.n--
	if c.slots != nil {
		HBAcquire(&c.slots[0])
		HBReleaseMerge(&c.slots[0])
	}
	return v
}

func (c *Chan[T]) doSend(v T) {
	if c.closed {
		panic(plainError("send on closed channel"))
	}
	if c.cap > 0 {
		c.push(v)
		return
	}
	w := c.live(c.recvq)
	w.val, w.ok = v, true
	c.meet(w.op, w.idx)
}

func (c *Chan[T]) doRecv() (T, bool) {
	if c.n > 0 {
		return c.pop(), true
	}
	if c.cap == 0 {
		if w := c.live(c.sendq); w != nil {
			c.meet(w.op, w.idx)
			return w.val, true
		}
	}
	var zero T
	HBAcquire(c)
	return zero, false
}

// meet completes the operation of the waiting partner.
func (c *Chan[T]) meet(op *waitOp, idx int) {
	op.fired = idx
	HBAcquire(&op.sync[0])
	HBReleaseMerge(&op.sync[1])
	if ex != nil {
		ex.setHash(op.t, Mix(op.t.hash, Mix(ex.cur.hash, 0x3e)))
	}
}

func (c *Chan[T]) drop(q []*waiter[T], op *waitOp) []*waiter[T] {
	k := 0
	for _, w := range q {
		if w.op != op {
			q[k] = w
			k++
		}
	}
	return q[:k]
}

type plainError string

func (p plainError) Error() string { return string(p) }
func (p plainError) RuntimeError() {}

type forever struct{}

func (forever) Enabled() bool { return false }

// BlockForever is select{}.
func BlockForever() string {
	Yield("select{}", nil, false, forever{})
	return "unreachable"
}

// Case is one communication of a select statement.
type Case interface {
	ready(op *waitOp) bool
	enter(op *waitOp, i int)
	leave(op *waitOp, fired bool)
	do()
	obj() *Obj
	write() bool
}

type selOp struct {
	op    *waitOp
	cases []Case
	def   bool
}

func (s *selOp) Enabled() bool {
	if s.op.fired >= 0 || s.def {
		return true
	}
	for _, c := range s.cases {
		if c.ready(s.op) {
			return true
		}
	}
	return false
}

// Select blocks until a case can proceed, performs it and returns its index; -1 is the default case.
func Select(def bool, cases ...Case) int { return sel("select", def, cases) }

func sel(kind string, def bool, cases []Case) int {
	e := ex
	op := &waitOp{fired: -1}
	if e != nil {
		op.t = e.cur
		for i, c := range cases {
			c.enter(op, i)
		}
		HBReleaseMerge(&op.sync[0])
		if len(cases) == 1 {
			Yield(kind, nil, true, &selOp{op, cases, def})
		} else {
			Yield(kind, nil, false, &selOp{op, cases, def})
		}
		if op.fired >= 0 {
			HBAcquire(&op.sync[1])
		}
	}
	pick := op.fired
	if pick < 0 {
		ready := make([]int, 0, 4)
		for i, c := range cases {
			if c.ready(op) {
				ready = append(ready, i)
			}
		}
		switch {
		case len(ready) == 0:
			if !def {
				panic("vsched: " + kind + " would block outside of an execution")
			}
			pick = -1
			for _, c := range cases {
				if o := c.obj(); o != nil {
					Touch(o, false)
				}
			}
		case len(ready) == 1:
			pick = ready[0]
		default:
			pick = ready[0]
			if ex == nil || ex.quiet == 0 {
				pick = ready[Choose(len(ready), SelectCost)]
			}
		}
		if pick >= 0 {
			if len(cases) > 1 || def {
				// the outcome depends on the others having been, or not been, ready
				for i, c := range cases {
					if o := c.obj(); o != nil && i != pick {
						Touch(o, false)
					}
				}
			}
			c := cases[pick]
			Touch(c.obj(), c.write())
			for _, k := range cases {
				k.leave(op, false)
			}
			c.do()
			return pick
		}
	}
	for i, c := range cases {
		c.leave(op, i == op.fired)
	}
	return pick
}

// SelectCost is the cost of a select taking another ready case than the first.
var SelectCost uint8 = 0

// RecvCase is "case V, OK = <-ch".
type RecvCase[T any] struct {
	c  *Chan[T]
	w  *waiter[T]
	V  T
	OK bool
}

// RecvCase makes a receive case.
func (c *Chan[T]) RecvCase() *RecvCase[T] { return &RecvCase[T]{c: c} }

func (r *RecvCase[T]) ready(op *waitOp) bool { return r.c != nil && r.c.canRecv(op) }
func (r *RecvCase[T]) obj() *Obj {
	if r.c == nil {
		return nil
	}
	return &r.c.o
}
func (r *RecvCase[T]) write() bool { return !(r.c.closed && r.c.n == 0) }
func (r *RecvCase[T]) enter(op *waitOp, i int) {
	if r.c != nil && r.c.cap == 0 {
		r.w = &waiter[T]{op: op, idx: i}
		r.c.recvq = append(r.c.recvq, r.w)
	}
}
func (r *RecvCase[T]) leave(op *waitOp, fired bool) {
	if r.w != nil {
		r.c.recvq = r.c.drop(r.c.recvq, op)
		if fired {
			r.V, r.OK = r.w.val, r.w.ok
		}
	}
}
func (r *RecvCase[T]) do() { r.V, r.OK = r.c.doRecv() }

// SendCase is "case ch <- v".
type SendCase[T any] struct {
	c *Chan[T]
	w *waiter[T]
	v T
}

// SendCase makes a send case.
func (c *Chan[T]) SendCase(v T) *SendCase[T] { return &SendCase[T]{c: c, v: v} }

func (s *SendCase[T]) ready(op *waitOp) bool { return s.c != nil && s.c.canSend(op) }
func (s *SendCase[T]) obj() *Obj {
	if s.c == nil {
		return nil
	}
	return &s.c.o
}
func (s *SendCase[T]) write() bool { return true }
func (s *SendCase[T]) enter(op *waitOp, i int) {
	if s.c != nil && s.c.cap == 0 {
		s.w = &waiter[T]{op: op, idx: i, val: s.v}
		s.c.sendq = append(s.c.sendq, s.w)
	}
}
func (s *SendCase[T]) leave(op *waitOp, fired bool) {
	if s.w != nil {
		s.c.sendq = s.c.drop(s.c.sendq, op)
	}
}
func (s *SendCase[T]) do() { s.c.doSend(s.v) }

// Send is ch <- v.
func (c *Chan[T]) Send(v T) {
	if c == nil {
		BlockForever()
	}
	s := SendCase[T]{c: c, v: v}
	sel("chan send", false, []Case{&s})
}

// Recv is <-ch.
func (c *Chan[T]) Recv() T {
	v, _ := c.Recv2()
	return v
}

// Recv2 is v, ok := <-ch.
func (c *Chan[T]) Recv2() (T, bool) {
	if c == nil {
		BlockForever()
	}
	r := RecvCase[T]{c: c}
	sel("chan receive", false, []Case{&r})
	return r.V, r.OK
}

// Close is close(ch).
func (c *Chan[T]) Close() {
	if c == nil {
		panic(plainError("close of nil channel"))
	}
	Yield("chan close", &c.o, true, nil)
	c.CloseNow()
}

// CloseNow closes without a scheduling point.
func (c *Chan[T]) CloseNow() {
	if c.closed {
		panic(plainError("close of closed channel"))
	}
	HBReleaseMerge(c)
	c.closed = true
}

// Closed tells whether the channel was closed.
func (c *Chan[T]) Closed() bool { return c != nil && c.closed }

// TrySendNow is a non blocking send without a scheduling point (timers).
func (c *Chan[T]) TrySendNow(v T) {
	if c.closed || !c.canSend(nil) {
		return
	}
	if ex != nil {
		TimerTouch(&c.o)
	}
	c.doSend(v)
}

// Len is len(ch).
func (c *Chan[T]) Len() int {
	if c == nil {
		return 0
	}
	Yield("chan len", &c.o, false, nil)
	return c.n
}

// Cap is cap(ch).
func (c *Chan[T]) Cap() int {
	if c == nil {
		return 0
	}
	return c.cap
}

// MakeFor is make for named channel types.
func MakeFor[T any](_ *Chan[T], n ...int) *Chan[T] { return MakeChan[T](n...) }

// RangeChan starts a range over a channel.
func RangeChan[T any](c *Chan[T]) (*Chan[T], bool, T) {
	var z T
	return c, false, z
}
