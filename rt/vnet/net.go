// Package vnet stands for the parts of package net that touch the network: TCP within one execution.
package vnet

import (
	"context"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"strconv"
	"syscall"
	"time"

	"verif.local/rt/vcontext"
	"verif.local/rt/vsched"
	"verif.local/rt/vtime"
)

type network struct {
	o         vsched.Obj
	listeners []*TCPListener
	nextPort  int
	ephemeral []int
	rules     []*rule
	observers []func(c *TCPConn, data []byte)
	capacity  int
	conns     []*TCPConn
	dials     []string
}

type rule struct {
	addr string
	fn   func(n int) Action
	n    int
}

// Action is what becomes of a dial.
type Action int

// The actions of a dial rule.
const (
	Connect Action = iota
	Refuse
	Hang
)

func world() *network {
	if !vsched.Active() {
		panic("vnet: used outside of an execution")
	}
	return vsched.Value("net", func() interface{} { return &network{nextPort: 9000, capacity: 1 << 20} }).(*network)
}

// OnDial decides about dials to addr ("host:port" after resolution): fn gets the number of earlier dials.
func OnDial(addr string, fn func(n int) Action) {
	w := world()
	w.rules = append(w.rules, &rule{addr: canonical(addr), fn: fn})
}

// Observe has fn called with everything written to any connection.
func Observe(fn func(c *TCPConn, data []byte)) {
	w := world()
	w.observers = append(w.observers, fn)
}

// FailAccepts has the next n times that a connection could be accepted at a port fail with err.
func FailAccepts(port int, n int, err error) {
	for _, l := range world().listeners {
		if !l.closed && l.addr.Port == port {
			l.failing, l.failure = n, err
		}
	}
}

// SetBuffer sets how many bytes a connection made from now on holds in each direction.
func SetBuffer(n int) { world().capacity = n }

// Narrow sets how many bytes the connections that exist hold in each direction.
func Narrow(n int) {
	for _, c := range world().conns {
		c.out.cap = n
	}
}

// Dials lists the addresses of all dials so far.
func Dials() []string { return append([]string{}, world().dials...) }

// OpenSockets counts the sockets of process g that are not closed: listeners and connection ends.
func OpenSockets(g int) (n int) {
	w := world()
	for _, l := range w.listeners {
		if !l.closed && l.group == g {
			n++
		}
	}
	for _, c := range w.conns {
		if !c.closed && c.group == g && c.accepted {
			n++
		}
	}
	return n
}

// Listening lists the addresses process g listens on.
func Listening(g int) (out []*net.TCPAddr) {
	for _, l := range world().listeners {
		if !l.closed && l.group == g {
			out = append(out, l.addr)
		}
	}
	return out
}

// Conns lists all connection ends made in this execution.
func Conns() []*TCPConn { return append([]*TCPConn{}, world().conns...) }

// Group is the process that owns the connection end.
func (c *TCPConn) Group() int { return c.group }

// IsClosed tells whether Close was called.
func (c *TCPConn) IsClosed() bool { return c.closed }

// Outgoing tells whether this is the dialling end.
func (c *TCPConn) Outgoing() bool { return c.dialed }

func canonical(addr string) string {
	a, err := net.ResolveTCPAddr("tcp", addr)
	if err != nil {
		return addr
	}
	return net.JoinHostPort(target(a.IP).String(), strconv.Itoa(a.Port))
}

func target(ip net.IP) net.IP {
	if ip == nil || ip.Equal(net.IPv4zero) {
		return net.IPv4(127, 0, 0, 1)
	}
	if ip.IsUnspecified() {
		return net.IPv6loopback
	}
	return ip
}

// half is one direction of a connection.
type half struct {
	o     vsched.Obj
	buf   []byte
	cap   int
	fin   bool // the writer closed
	reset bool // the writer closed with unread data, or wrote to a closed end
	gone  bool // the reader closed
	hb    byte
}

// TCPConn stands for net.TCPConn.
type TCPConn struct {
	in, out       *half
	local, remote *net.TCPAddr
	closed        bool
	wclosed       bool
	rd, wd        int64 // deadlines; 0: none, -1: passed
	peer          *TCPConn
	group         int
	dialed        bool
	accepted      bool
}

func (c *TCPConn) opErr(op string, err error) error {
	return &net.OpError{Op: op, Net: "tcp", Source: c.local, Addr: c.remote, Err: err}
}

func passed(d int64) bool { return d != 0 && d <= vsched.Clock() }

type readOp struct{ c *TCPConn }

func (r *readOp) Enabled() bool {
	c := r.c
	return c.closed || len(c.in.buf) > 0 || c.in.fin || c.in.reset || passed(c.rd)
}
func (r *readOp) Deadline() (int64, bool) { return r.c.rd, r.c.rd > 0 }

type writeOp struct{ c *TCPConn }

func (w *writeOp) Enabled() bool {
	c := w.c
	return c.closed || c.wclosed || c.out.gone || c.in.reset || len(c.out.buf) < c.out.cap || passed(c.wd)
}
func (w *writeOp) Deadline() (int64, bool) { return w.c.wd, w.c.wd > 0 }

// Read stands for (*net.TCPConn).Read.
func (c *TCPConn) Read(p []byte) (int, error) {
	vsched.Yield("conn read", &c.in.o, true, &readOp{c})
	if c.closed {
		return 0, c.opErr("read", net.ErrClosed)
	}
	if passed(c.rd) {
		return 0, c.opErr("read", os.ErrDeadlineExceeded)
	}
	if len(p) == 0 {
		return 0, nil
	}
	if len(c.in.buf) > 0 {
		n := len(c.in.buf)
		if n > len(p) {
			n = len(p)
		}
		n = vsched.ShortRead(n)
		copy(p, c.in.buf[:n])
		vsched.RaceWrites(p[:n])
		c.in.buf = c.in.buf[n:]
		vsched.HBAcquire(&c.in.hb)
		return n, nil
	}
	if c.in.reset {
		return 0, c.opErr("read", os.NewSyscallError("read", syscall.ECONNRESET))
	}
	return 0, io.EOF
}

// Write stands for (*net.TCPConn).Write.
func (c *TCPConn) Write(p []byte) (int, error) {
	done := 0
	first := true
	for first || done < len(p) {
		first = false
		vsched.Yield("conn write", &c.out.o, true, &writeOp{c})
		switch {
		case c.closed:
			return done, c.opErr("write", net.ErrClosed)
		case passed(c.wd):
			return done, c.opErr("write", os.ErrDeadlineExceeded)
		case c.wclosed, c.in.reset:
			return done, c.opErr("write", os.NewSyscallError("write", syscall.EPIPE))
		case c.out.gone:
			// accepted by the kernel, answered with a reset
			c.in.reset = true
			for _, fn := range world().observers {
				fn(c, p[done:])
			}
			return len(p), nil
		}
		n := c.out.cap - len(c.out.buf)
		if n > len(p)-done {
			n = len(p) - done
		}
		chunk := p[done : done+n]
		vsched.RaceReads(chunk)
		for _, fn := range world().observers {
			fn(c, chunk)
		}
		c.out.buf = append(c.out.buf, chunk...)
		vsched.HBReleaseMerge(&c.out.hb)
		done += n
	}
	return done, nil
}

// Close stands for (*net.TCPConn).Close.
func (c *TCPConn) Close() error {
	vsched.Yield("conn close", &c.out.o, true, nil)
	if c.closed {
		return c.opErr("close", net.ErrClosed)
	}
	vsched.Touch(&c.in.o, true)
	c.shut()
	return nil
}

func (c *TCPConn) shut() {
	c.closed = true
	c.out.fin = true
	c.in.gone = true
	if len(c.in.buf) > 0 {
		c.out.reset = true
	}
}

// CloseWrite stands for (*net.TCPConn).CloseWrite.
func (c *TCPConn) CloseWrite() error {
	vsched.Yield("conn close", &c.out.o, true, nil)
	if c.closed {
		return c.opErr("close", net.ErrClosed)
	}
	c.wclosed, c.out.fin = true, true
	return nil
}

// CloseRead stands for (*net.TCPConn).CloseRead.
func (c *TCPConn) CloseRead() error {
	vsched.Yield("conn close", &c.in.o, true, nil)
	c.in.fin = true
	return nil
}

// LocalAddr stands for (*net.TCPConn).LocalAddr.
func (c *TCPConn) LocalAddr() net.Addr { return c.local }

// RemoteAddr stands for (*net.TCPConn).RemoteAddr.
func (c *TCPConn) RemoteAddr() net.Addr { return c.remote }

func deadline(t time.Time) int64 {
	if t.IsZero() {
		return 0
	}
	n := vtime.Nano(t)
	if n <= 0 {
		return -1
	}
	return n
}

// SetDeadline stands for (*net.TCPConn).SetDeadline.
func (c *TCPConn) SetDeadline(t time.Time) error {
	if err := c.SetReadDeadline(t); err != nil {
		return err
	}
	return c.SetWriteDeadline(t)
}

// SetReadDeadline stands for (*net.TCPConn).SetReadDeadline.
func (c *TCPConn) SetReadDeadline(t time.Time) error {
	vsched.Yield("set read deadline", &c.in.o, true, nil)
	if c.closed {
		return c.opErr("set", net.ErrClosed)
	}
	c.rd = deadline(t)
	return nil
}

// SetWriteDeadline stands for (*net.TCPConn).SetWriteDeadline.
func (c *TCPConn) SetWriteDeadline(t time.Time) error {
	vsched.Yield("set write deadline", &c.out.o, true, nil)
	if c.closed {
		return c.opErr("set", net.ErrClosed)
	}
	c.wd = deadline(t)
	return nil
}

// SetKeepAlive does nothing.
func (c *TCPConn) SetKeepAlive(bool) error { return nil }

// SetKeepAlivePeriod does nothing.
func (c *TCPConn) SetKeepAlivePeriod(time.Duration) error { return nil }

// SetNoDelay does nothing.
func (c *TCPConn) SetNoDelay(bool) error { return nil }

// SetLinger does nothing.
func (c *TCPConn) SetLinger(int) error { return nil }

// SetReadBuffer does nothing.
func (c *TCPConn) SetReadBuffer(int) error { return nil }

// SetWriteBuffer does nothing.
func (c *TCPConn) SetWriteBuffer(int) error { return nil }

// TCPListener stands for net.TCPListener.
type TCPListener struct {
	o       vsched.Obj
	addr    *net.TCPAddr
	backlog []*TCPConn
	closed  bool
	group   int
	dl      int64
	failing int
	failure error
}

// Enabled implements vsched.Enabler.
func (l *TCPListener) Enabled() bool { return l.closed || len(l.backlog) > 0 || passed(l.dl) }

// Deadline implements vsched.Deadliner.
func (l *TCPListener) Deadline() (int64, bool) { return l.dl, l.dl > 0 }

// Accept stands for (*net.TCPListener).Accept.
func (l *TCPListener) Accept() (net.Conn, error) {
	c, err := l.AcceptTCP()
	if err != nil {
		return nil, err
	}
	return c, nil
}

// AcceptTCP stands for (*net.TCPListener).AcceptTCP.
func (l *TCPListener) AcceptTCP() (*TCPConn, error) {
	vsched.Yield("accept", &l.o, true, l)
	if l.closed {
		return nil, &net.OpError{Op: "accept", Net: "tcp", Addr: l.addr, Err: net.ErrClosed}
	}
	if len(l.backlog) == 0 {
		return nil, &net.OpError{Op: "accept", Net: "tcp", Addr: l.addr, Err: os.ErrDeadlineExceeded}
	}
	if l.failing > 0 {
		l.failing--
		return nil, &net.OpError{Op: "accept", Net: "tcp", Addr: l.addr, Err: os.NewSyscallError("accept4", l.failure)}
	}
	c := l.backlog[0]
	l.backlog = l.backlog[1:]
	c.group, c.accepted = vsched.Group(), true
	return c, nil
}

// SetDeadline stands for (*net.TCPListener).SetDeadline.
func (l *TCPListener) SetDeadline(t time.Time) error {
	vsched.Yield("set accept deadline", &l.o, true, nil)
	l.dl = deadline(t)
	return nil
}

// Close stands for (*net.TCPListener).Close.
func (l *TCPListener) Close() error {
	vsched.Yield("listener close", &l.o, true, nil)
	if l.closed {
		return &net.OpError{Op: "close", Net: "tcp", Addr: l.addr, Err: net.ErrClosed}
	}
	l.closed = true
	for _, c := range l.backlog {
		vsched.Touch(&c.out.o, true)
		vsched.Touch(&c.in.o, true)
		c.shut()
		c.out.reset = true
	}
	l.backlog = nil
	w := world()
	vsched.Touch(&w.o, true)
	return nil
}

// Addr stands for (*net.TCPListener).Addr.
func (l *TCPListener) Addr() net.Addr { return l.addr }

// Listen stands for net.Listen.
func Listen(network, address string) (net.Listener, error) {
	l, err := listen(network, address)
	if err != nil {
		return nil, err
	}
	return l, nil
}

// ListenTCP stands for net.ListenTCP.
func ListenTCP(network string, laddr *net.TCPAddr) (*TCPListener, error) {
	if laddr == nil {
		return listen(network, ":0")
	}
	return listen(network, laddr.String())
}

func listen(network, address string) (*TCPListener, error) {
	if network != "tcp" && network != "tcp4" && network != "tcp6" {
		return nil, &net.OpError{Op: "listen", Net: network, Err: net.UnknownNetworkError(network)}
	}
	a, err := resolve(network, address)
	if err != nil {
		return nil, &net.OpError{Op: "listen", Net: network, Err: err}
	}
	w := world()
	vsched.Yield("listen", &w.o, true, nil)
	ip := a.IP
	if ip == nil || (ip.Equal(net.IPv4zero) && network == "tcp") {
		ip = net.IPv6unspecified
		if network == "tcp4" {
			ip = net.IPv4zero
		}
	}
	port := a.Port
	if port == 0 {
		for w.bound(ip, w.nextPort) {
			w.nextPort++
		}
		port = w.nextPort
		w.nextPort++
	} else if w.bound(ip, port) {
		return nil, &net.OpError{Op: "listen", Net: network, Addr: a, Err: os.NewSyscallError("bind", syscall.EADDRINUSE)}
	}
	l := &TCPListener{addr: &net.TCPAddr{IP: ip, Port: port}, group: vsched.Group()}
	w.listeners = append(w.listeners, l)
	return l, nil
}

func (w *network) bound(ip net.IP, port int) bool {
	for _, l := range w.listeners {
		if !l.closed && l.addr.Port == port && (l.addr.IP.Equal(ip) || l.addr.IP.IsUnspecified() || ip.IsUnspecified()) {
			return true
		}
	}
	return false
}

func (w *network) find(ip net.IP, port int) *TCPListener {
	for _, l := range w.listeners {
		if l.closed || l.addr.Port != port {
			continue
		}
		if l.addr.IP.Equal(ip) || (l.addr.IP.IsUnspecified() && (l.addr.IP.To4() == nil || ip.To4() != nil)) {
			return l
		}
	}
	return nil
}

func resolve(network, address string) (*net.TCPAddr, error) {
	host, _, err := net.SplitHostPort(address)
	if err != nil {
		return nil, err
	}
	if host != "" && host != "localhost" && net.ParseIP(host) == nil {
		return nil, &net.DNSError{Err: "no such host", Name: host, IsNotFound: true}
	}
	return net.ResolveTCPAddr(network, address)
}

// ResolveTCPAddr stands for net.ResolveTCPAddr; it knows no names but localhost.
func ResolveTCPAddr(network, address string) (*net.TCPAddr, error) {
	if host, _, err := net.SplitHostPort(address); err == nil && host == "localhost" {
		_, port, _ := net.SplitHostPort(address)
		return net.ResolveTCPAddr(network, net.JoinHostPort("127.0.0.1", port))
	}
	if _, err := resolve(network, address); err != nil {
		return nil, err
	}
	return net.ResolveTCPAddr(network, address)
}

// Dialer stands for net.Dialer.
type Dialer struct {
	Timeout       time.Duration
	Deadline      time.Time
	LocalAddr     net.Addr
	DualStack     bool
	FallbackDelay time.Duration
	KeepAlive     time.Duration
	Resolver      *net.Resolver
	Cancel        *vsched.Chan[struct{}]
	Control       func(network, address string, c syscall.RawConn) error
}

// Dial stands for (*net.Dialer).Dial.
func (d *Dialer) Dial(network, address string) (net.Conn, error) {
	return d.DialContext(vcontext.Background(), network, address)
}

type canceledError struct{}

func (canceledError) Error() string     { return "operation was canceled" }
func (canceledError) Is(err error) bool { return err == context.Canceled }

type timeoutError struct{}

func (timeoutError) Error() string     { return "i/o timeout" }
func (timeoutError) Timeout() bool     { return true }
func (timeoutError) Temporary() bool   { return true }
func (timeoutError) Is(err error) bool { return err == context.DeadlineExceeded }

func mapErr(err error) error {
	switch {
	case errors.Is(err, context.Canceled):
		return canceledError{}
	case errors.Is(err, context.DeadlineExceeded):
		return timeoutError{}
	}
	return err
}

// DialContext stands for (*net.Dialer).DialContext.
func (d *Dialer) DialContext(ctx vcontext.Context, network, address string) (net.Conn, error) {
	if ctx == nil {
		panic("nil context")
	}
	a, err := resolve(network, address)
	if err != nil {
		return nil, &net.OpError{Op: "dial", Net: network, Err: err}
	}
	if d.Timeout > 0 {
		var cancel func()
		ctx, cancel = vcontext.WithTimeout(ctx, d.Timeout)
		defer cancel()
	}
	if !d.Deadline.IsZero() {
		var cancel func()
		ctx, cancel = vcontext.WithDeadline(ctx, d.Deadline)
		defer cancel()
	}
	fail := func(err error) (net.Conn, error) {
		return nil, &net.OpError{Op: "dial", Net: network, Addr: a, Err: err}
	}
	w := world()
	ip := target(a.IP)
	key := net.JoinHostPort(ip.String(), strconv.Itoa(a.Port))
	vsched.Yield("dial", &w.o, true, nil)
	if err := ctx.Err(); err != nil {
		return fail(mapErr(err))
	}
	act := Connect
	w.dials = append(w.dials, key)
	for _, r := range w.rules {
		if r.addr == key {
			act = r.fn(r.n)
			r.n++
			break
		}
	}
	l := w.find(ip, a.Port)
	if act == Hang {
		if done := ctx.Done(); done != nil {
			done.Recv()
		} else {
			vsched.BlockForever()
		}
		return fail(mapErr(ctx.Err()))
	}
	if act == Refuse || l == nil {
		return fail(os.NewSyscallError("connect", syscall.ECONNREFUSED))
	}
	vsched.Touch(&l.o, true)
	lip := ip
	if !ip.IsLoopback() {
		lip = net.IPv4(127, 0, 0, 1)
	}
	local := &net.TCPAddr{IP: lip, Port: w.ephemeralPort()}
	if la, ok := d.LocalAddr.(*net.TCPAddr); ok && la.Port != 0 {
		local.Port = la.Port
	}
	remote := &net.TCPAddr{IP: ip, Port: a.Port}
	ab, ba := &half{cap: w.capacity}, &half{cap: w.capacity}
	c := &TCPConn{in: ba, out: ab, local: local, remote: remote, group: vsched.Group(), dialed: true, accepted: true}
	s := &TCPConn{in: ab, out: ba, local: remote, remote: local, group: l.group}
	c.peer, s.peer = s, c
	w.conns = append(w.conns, c, s)
	l.backlog = append(l.backlog, s)
	return c, nil
}

func (w *network) ephemeralPort() int {
	p := 40000 + int(vsched.Unique()%20000)
	for {
		used := false
		for _, q := range w.ephemeral {
			if p == q {
				used = true
			}
		}
		if !used {
			break
		}
		p++
	}
	w.ephemeral = append(w.ephemeral, p)
	return p
}

// Dial stands for net.Dial.
func Dial(network, address string) (net.Conn, error) {
	var d Dialer
	return d.Dial(network, address)
}

// DialTimeout stands for net.DialTimeout.
func DialTimeout(network, address string, timeout time.Duration) (net.Conn, error) {
	d := Dialer{Timeout: timeout}
	return d.Dial(network, address)
}

// DialTCP stands for net.DialTCP.
func DialTCP(network string, laddr, raddr *net.TCPAddr) (*TCPConn, error) {
	d := Dialer{}
	if laddr != nil {
		d.LocalAddr = laddr
	}
	c, err := d.Dial(network, raddr.String())
	if err != nil {
		return nil, err
	}
	return c.(*TCPConn), nil
}

// ListenConfig stands for net.ListenConfig.
type ListenConfig struct {
	Control   func(network, address string, c syscall.RawConn) error
	KeepAlive time.Duration
}

// Listen stands for (*net.ListenConfig).Listen.
func (lc *ListenConfig) Listen(ctx vcontext.Context, network, address string) (net.Listener, error) {
	return Listen(network, address)
}

// Pipe stands for net.Pipe, with buffers.
func Pipe() (net.Conn, net.Conn) {
	w := world()
	ab, ba := &half{cap: w.capacity}, &half{cap: w.capacity}
	c := &TCPConn{in: ba, out: ab, local: &net.TCPAddr{}, remote: &net.TCPAddr{}, group: vsched.Group(), accepted: true}
	s := &TCPConn{in: ab, out: ba, local: &net.TCPAddr{}, remote: &net.TCPAddr{}, group: vsched.Group(), accepted: true}
	c.peer, s.peer = s, c
	w.conns = append(w.conns, c, s)
	return c, s
}

var _ = fmt.Sprint
