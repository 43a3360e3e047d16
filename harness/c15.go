package main

import (
	"context"
	"errors"
	"io"
	"net"
	"syscall"
	"time"

	"github.com/perlin-network/noise"
	"verif.local/rt/mc"
	"verif.local/rt/vnet"
	"verif.local/rt/vsched"
)

// What becomes of one attempt to reach a peer.
const (
	atRefused = iota
	atClosed  // connected, and closed by the peer
	atGarbage // the peer's first handshake message is nonsense
	atForged  // the peer proves another identity
	atLarge   // the peer announces more than the node receives
	atOK
	numOutcomes
)

var outcomeNames = [...]string{"refused", "closed", "garbage", "forged", "too large", "ok"}

// fated is a peer, every dial to which has an outcome decided beforehand.
type fated struct {
	addr  string
	dials int
}

// fate of the i-th attempt is out[i], the last one that of all further ones.
func fate(g int, out []int) *fated {
	l, addr := rawListen(g)
	f := &fated{addr: addr}
	at := func(i int) int {
		if i >= len(out) {
			i = len(out) - 1
		}
		return out[i]
	}
	var accepted []int // indices of the dials that connected
	vnet.OnDial(addr, func(i int) vnet.Action {
		f.dials++
		if at(i) == atRefused {
			return vnet.Refuse
		}
		accepted = append(accepted, i)
		return vnet.Connect
	})
	rawAccept(g, l, func(i int, p *rawPeer) {
		n := accepted[i]
		switch at(n) {
		case atClosed:
			p.conn.Close()
		case atGarbage:
			p.writeFrame(make([]byte, 96))
			p.drain()
		case atForged:
			if p.hello(byte(n)) == nil && p.recvHello() == nil {
				p.sendProof(rawID(procC, 3), key(procD))
			}
			p.drain()
		case atLarge:
			p.writeRaw([]byte{0x7f, 0, 0, 0})
			p.drain()
		case atOK:
			if p.shake(byte(n), rawID(g, port(l)), key(g)) == nil {
				answering(p)
			}
		}
	})
	return f
}

// cause checks that err wraps what an attempt with this outcome fails with.
func cause(err error, out int) {
	refused, eof := errors.Is(err, syscall.ECONNREFUSED), errors.Is(err, io.EOF) || errors.Is(err, syscall.ECONNRESET) || errors.Is(err, syscall.EPIPE)
	ctx := errors.Is(err, context.Canceled) || errors.Is(err, context.DeadlineExceeded)
	switch {
	case err == nil:
		vsched.Fail("a call that cannot succeed does")
	case ctx, refused != (out == atRefused), eof != (out == atClosed), errors.Is(err, noise.ErrMessageTooLarge) != (out == atLarge):
		vsched.Fail("the error of a call whose last attempt was %s is %v", outcomeNames[out], err)
	}
}

// pings counts what the ping-failed hooks report.
type pings struct {
	addrs [2][]string
	errs  []error
}

func (w *pings) protocols() []noise.Protocol {
	var out []noise.Protocol
	for i := range w.addrs {
		i := i
		out = append(out, noise.Protocol{OnPingFailed: func(addr string, err error) {
			defer guard()()
			vsched.Mark()
			w.addrs[i] = append(w.addrs[i], addr)
			w.errs = append(w.errs, err)
		}}, noise.Protocol{})
	}
	return out
}

func (w *pings) told(want int, addr string, when string) {
	defer guard()()
	for _, a := range w.addrs {
		if len(a) != want {
			vsched.Fail("%s the ping-failed hook fired %d times instead of %d", when, len(a), want)
		}
		for _, s := range a {
			if s != addr {
				vsched.Fail("%s the ping-failed hook is told of %q instead of %q", when, s, addr)
			}
		}
	}
	for _, err := range w.errs {
		if err == nil {
			vsched.Fail("%s the ping-failed hook is told of no error", when)
		}
	}
}

func dialling(g int, w *pings, attempts uint, opts ...noise.NodeOption) *noise.Node {
	n := newNode(g, append(opts, noise.WithNodeMaxDialAttempts(attempts))...)
	n.Bind(w.protocols()...)
	listen(g, n)
	return n
}

func init() {
	mc.Add(mc.Scenario{
		Prop: "C15", Name: "c15-outcomes", Doc: "all sequences of outcomes of up to four attempts (refused, closed, garbage, forged, success) for one to three configured attempts and every kind of call, followed by another call",
		Run: func() {
			max := 1 + vsched.Pick(3)
			op := vsched.Pick(3)
			var out []int
			for i := 0; i < max+1; i++ {
				o := vsched.Pick(numOutcomes)
				out = append(out, o)
				if o == atOK {
					break
				}
			}
			var n *noise.Node
			var w pings
			var f *fated
			vsched.Quiet(func() {
				f = fate(procB, out)
				n = dialling(procA, &w, uint(max))
			})
			first := spawn(procA, func() {
				err := call(op, n, bg(), f.addr)
				ok := out[len(out)-1] == atOK && len(out) <= max
				if ok {
					if err != nil {
						vsched.Fail("call: %v", err)
					}
				} else {
					cause(err, out[max-1])
				}
			})
			join(first)
			vsched.Quiesce()
			want, told := max, 1
			if out[len(out)-1] == atOK && len(out) <= max {
				want, told = len(out), 0
			}
			if f.dials != want {
				vsched.Fail("%d attempts were made instead of %d", f.dials, want)
			}
			w.told(told, f.addr, "after a call")
			if told == 0 {
				return
			}
			// and again: the outcomes go on from there
			rest := out[max:]
			vsched.QuietOn()
			join(spawn(procA, func() {
				err := call(op, n, bg(), f.addr)
				if rest[0] == atOK {
					if err != nil {
						vsched.Fail("second call: %v", err)
					}
				} else {
					cause(err, rest[0])
				}
			}))
			vsched.Quiesce()
			if rest[0] == atOK {
				want++
			} else {
				want += max
				told++
			}
			if f.dials != want {
				vsched.Fail("%d attempts were made by two calls instead of %d", f.dials, want)
			}
			w.told(told, f.addr, "after two calls")
			vsched.QuietOff()
			live := 0
			if rest[0] == atOK {
				live = 1
			}
			consistent(procA, n, 128, "after calls that failed")
			if len(n.Outbound()) != live {
				vsched.Fail("%d connections are listed instead of %d", len(n.Outbound()), live)
			}
		},
		Quick: mc.Bounds{Cost: 0, Policies: []int{0, 1, 2}}, Thorough: mc.Bounds{Cost: 1, Policies: []int{0, 1}},
	})
	mc.Add(mc.Scenario{
		Prop: "C15", Name: "c15-defaults", Doc: "a number of attempts that is left out is three, and one that is given as zero is one",
		Run: func() {
			given := vsched.Pick(2) == 1
			op := vsched.Pick(3)
			out := []int{vsched.Pick(numOutcomes - 1)}
			var n *noise.Node
			var w pings
			var f *fated
			want := 3
			vsched.Quiet(func() {
				f = fate(procB, out)
				var opts []noise.NodeOption
				if given {
					want = 1
					opts = append(opts, noise.WithNodeMaxDialAttempts(0))
				}
				n = newNode(procA, opts...)
				n.Bind(w.protocols()...)
				listen(procA, n)
			})
			join(spawn(procA, func() { cause(call(op, n, bg(), f.addr), out[0]) }))
			vsched.Quiesce()
			if f.dials != want {
				vsched.Fail("%d attempts were made instead of %d", f.dials, want)
			}
			w.told(1, f.addr, "after a call")
		},
		Quick: mc.Bounds{Cost: 0}, Thorough: mc.Bounds{Cost: 1},
	})
	mc.Add(mc.Scenario{
		Prop: "C15", Name: "c15-schedules", Doc: "some of these sequences under all schedules at a deeper bound",
		Run: func() {
			seqs := [][]int{{atRefused}, {atClosed}, {atForged}, {atClosed, atRefused}, {atRefused, atOK}, {atClosed, atOK}, {atForged, atClosed, atOK}}
			out := seqs[vsched.Pick(len(seqs))]
			max := 1 + vsched.Pick(2)
			op := vsched.Pick(3)
			var n *noise.Node
			var w pings
			var f *fated
			vsched.Quiet(func() {
				f = fate(procB, out)
				n = dialling(procA, &w, uint(max))
			})
			ok := out[len(out)-1] == atOK && len(out) <= max
			join(spawn(procA, func() {
				err := call(op, n, bg(), f.addr)
				if ok && err != nil {
					vsched.Fail("call: %v", err)
				} else if !ok {
					last := max - 1
					if last >= len(out) {
						last = len(out) - 1
					}
					cause(err, out[last])
				}
			}))
			vsched.Quiesce()
			want, told := max, 1
			if ok {
				want, told = len(out), 0
			}
			if f.dials != want {
				vsched.Fail("%d attempts were made instead of %d", f.dials, want)
			}
			w.told(told, f.addr, "after a call")
			if !ok {
				released(procA, 2, 1, "after a call that failed")
			}
		},
		Quick: mc.Bounds{Cost: 2}, Thorough: mc.Bounds{Cost: 3, Policies: []int{0, 1}},
	})
	mc.Add(mc.Scenario{
		Prop: "C15", Name: "c15-context", Doc: "a context that has ended before the call, expires while the first, second or third attempt hangs at the dial or at any stage of the handshake, or is cancelled then",
		Run: func() {
			if vsched.Native {
				return
			}
			op := vsched.Pick(3)
			max := 1 + vsched.Pick(3)
			how := vsched.Pick(3) // deadline, cancelled, before the call
			hang := vsched.Pick(max)
			st := vsched.Pick(stEstablished+1) - 1 // -1: at the dial
			if st == stProof {
				vsched.Discard("is established")
			}
			before := vsched.Pick(2) // outcome of the attempts before: refused or closed
			if hang == 0 && before > 0 || how == 2 && (hang > 0 || st >= 0 || max > 1) {
				vsched.Discard("same")
			}
			var n *noise.Node
			var w pings
			dials := 0
			var l net.Listener
			var addr string
			vsched.Quiet(func() {
				l, addr = rawListen(procB)
				conns := 0
				vnet.OnDial(addr, func(i int) vnet.Action {
					dials++
					switch {
					case i < hang && before == 0:
						return vnet.Refuse
					case i == hang && st < 0:
						return vnet.Hang
					}
					conns++
					return vnet.Connect
				})
				rawAccept(procB, l, func(i int, p *rawPeer) {
					if before == 1 && i < hang {
						p.conn.Close()
						return
					}
					p.upTo(st, 3, rawID(procB, port(l)), key(procB))
					p.drain()
				})
				n = dialling(procA, &w, uint(max))
			})
			ctx, cancel := context.WithCancel(bg())
			want := context.Canceled
			switch how {
			case 0:
				ctx = timeout(time.Second)
				want = context.DeadlineExceeded
			case 2:
				cancel()
			}
			since := elapsed()
			t := spawn(procA, func() {
				err := call(op, n, ctx, addr)
				if !errors.Is(err, want) {
					vsched.Fail("a call whose context ended returns %v", err)
				}
			})
			if how == 1 {
				vsched.Quiesce()
				cancel()
			}
			join(t)
			if d := since(); how == 0 && d != time.Second || how > 0 && d != 0 {
				vsched.Fail("a call whose context ended returned after %v", d)
			}
			vsched.Quiesce()
			made := hang + 1
			if how == 2 {
				made = 0
			}
			if dials != made {
				vsched.Fail("%d attempts were made instead of %d", dials, made)
			}
			w.told(1, addr, "after a call whose context ended")
			if !errors.Is(w.errs[0], want) {
				vsched.Fail("the ping-failed hook is told of %v", w.errs[0])
			}
			released(procA, 2, 1, "after a call whose context ended")
		},
		Quick: mc.Bounds{Cost: 1}, Thorough: mc.Bounds{Cost: 2, Policies: []int{0, 1}},
	})
	mc.Add(mc.Scenario{
		Prop: "C15", Name: "c15-cancel", Doc: "a context is cancelled at any moment of a call that fails, succeeds, or fails and then succeeds; or of a call on a live connection",
		Run: func() {
			seqs := [][]int{{atRefused}, {atClosed}, {atOK}, {atClosed, atOK}, {atRefused, atOK}}
			out := seqs[vsched.Pick(len(seqs))]
			op := vsched.Pick(3)
			live := vsched.Pick(2) == 1
			if live && len(out) > 1 || live && out[0] != atOK {
				vsched.Discard("not live")
			}
			max := 2
			var n *noise.Node
			var w pings
			var f *fated
			vsched.Quiet(func() {
				f = fate(procB, out)
				n = dialling(procA, &w, uint(max))
				if live {
					connect(procA, n, f.addr)
				}
			})
			ctx, cancel := context.WithCancel(bg())
			var err error
			t := spawn(procA, func() { err = call(op, n, ctx, f.addr) })
			spawn(procA, cancel)
			join(t)
			vsched.Quiesce()
			if f.dials > max {
				vsched.Fail("%d attempts were made", f.dials)
			}
			told := 0
			if err != nil {
				told = 1
				if errors.Is(err, context.Canceled) && err == context.Canceled {
					told = 0 // the request was cancelled, not the dialling
				} else if !errors.Is(err, context.Canceled) && f.dials < max {
					vsched.Fail("the call fails after %d attempts: %v", f.dials, err)
				}
			}
			if n := len(w.addrs[0]); told != n && !(err == context.Canceled && n == 1) {
				vsched.Fail("the call returns %v and the ping-failed hook fired %d times", err, n)
			}
			if err == nil {
				w.told(0, f.addr, "after a call that succeeded")
			}
		},
		Quick: mc.Bounds{Cost: 2}, Thorough: mc.Bounds{Cost: 3, Policies: []int{0, 1}},
	})
	mc.Add(mc.Scenario{
		Prop: "C15", Name: "c15-together", Doc: "two or three calls to one address that fails, or fails once and then succeeds, at once",
		Run: func() {
			seqs := [][]int{{atRefused}, {atClosed}, {atForged}, {atClosed, atOK}, {atRefused, atOK}, {atOK}}
			s := vsched.Pick(len(seqs))
			k := 2 + vsched.Pick(2)
			max := 1 + vsched.Pick(2)
			out := seqs[s]
			var n *noise.Node
			var w pings
			var f *fated
			vsched.Quiet(func() {
				f = fate(procB, out)
				n = dialling(procA, &w, uint(max))
			})
			var ts []chan struct{}
			var errs [3]error
			for i := 0; i < k; i++ {
				i := i
				ts = append(ts, spawn(procA, func() { errs[i] = call(i, n, bg(), f.addr) }))
			}
			join(ts...)
			vsched.Quiesce()
			told := 0
			for _, err := range errs[:k] {
				if err != nil {
					told++
					if s < 3 {
						cause(err, out[0])
					} else if max == 2 || s == 5 {
						vsched.Fail("a call fails though the peer can be reached: %v", err)
					}
				} else if s < 3 {
					vsched.Fail("a call that cannot succeed does")
				}
			}
			w.told(told, f.addr, "after calls at once")
			if min, most := max, k*max; s < 3 && (f.dials < min || f.dials > most) {
				vsched.Fail("%d calls of up to %d attempts made %d", k, max, f.dials)
			}
			if s == 5 && f.dials != 1 {
				vsched.Fail("%d attempts were made", f.dials)
			}
		},
		Quick: mc.Bounds{Cost: 1}, Thorough: mc.Bounds{Cost: 2, Policies: []int{0, 1}},
	})
	mc.Add(mc.Scenario{
		Prop: "C15", Name: "c15-addresses", Doc: "addresses that do not resolve, name no port or nobody listens on; a ping-failed hook that dials somewhere else; peers given by all names of one address",
		Run: func() {
			bad := []string{"", ":", "127.0.0.1", "127.0.0.1:", "127.0.0.1:http:1", "127.0.0.1:70000", "127.0.0.1:-1", "[::1", "::1:80", "127.0.0.1:1", "300.1.1.1:80", ":0", "127.0.0.1:0"}
			addr := bad[vsched.Pick(len(bad))]
			op := vsched.Pick(3)
			max := 1 + vsched.Pick(3)
			nested := vsched.Pick(2) == 1
			var n *noise.Node
			var w pings
			var addr2 string
			vsched.Quiet(func() {
				l, a := rawListen(procB)
				addr2 = a
				rawServe(procB, l, answering)
				n = newNode(procA, noise.WithNodeMaxDialAttempts(uint(max)))
				n.Bind(w.protocols()...)
				if nested {
					n.Bind(noise.Protocol{OnPingFailed: func(a string, err error) {
						if a == addr2 {
							vsched.Fail("the other peer cannot be reached: %v", err)
						}
						if _, err := n.Request(bg(), addr2, []byte("x")); err != nil {
							vsched.Fail("request from a hook: %v", err)
						}
					}})
				}
				listen(procA, n)
			})
			join(spawn(procA, func() {
				err := call(op, n, bg(), addr)
				if err == nil {
					vsched.Fail("a call to %q succeeds", addr)
				}
				if errors.Unwrap(err) == nil {
					vsched.Fail("the error of a call to %q wraps no cause: %v", addr, err)
				}
			}))
			w.told(1, addr, "after a call to a bad address")
			vsched.Quiesce()
			if k := len(n.Outbound()); k != b2i(nested) {
				vsched.Fail("%d connections are listed", k)
			}
			if !vsched.Native && addr == "127.0.0.1:1" {
				if k := len(vnet.Dials()) - b2i(nested); k != max {
					vsched.Fail("%d attempts were made instead of %d", k, max)
				}
			}
		},
		Quick: mc.Bounds{Cost: 1}, Thorough: mc.Bounds{Cost: 2, Policies: []int{0, 1}}, Native: 6,
	})
}
