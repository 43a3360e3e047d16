package main

import (
	"context"
	"errors"
	"fmt"
	"strings"

	"github.com/perlin-network/noise"
	"verif.local/rt/mc"
	"verif.local/rt/vnet"
	"verif.local/rt/vsched"
)

// A chain is a list of handlers that log what they get.
type chain struct {
	n    int
	fail int // handler that returns an error for messages beginning with "bad"; n: none
	log  map[string][]int
	all  []string
}

var errHandler = errors.New("handler's error")

func (h *chain) handlers() []noise.Handler {
	h.log = map[string][]int{}
	var out []noise.Handler
	for i := 0; i < h.n; i++ {
		i := i
		out = append(out, func(ctx noise.HandlerContext) error {
			defer guard()()
			vsched.Mark()
			m := string(ctx.Data())
			h.log[m] = append(h.log[m], i)
			h.all = append(h.all, fmt.Sprintf("%d:%s", i, m))
			if i == h.fail && strings.HasPrefix(m, "bad") {
				return errHandler
			}
			if ctx.IsRequest() && (i == h.n-1 || i == h.fail-1) {
				ctx.Send([]byte("re:" + m)) //nolint
			}
			return nil
		})
	}
	return out
}

// passed checks that message m went through the handlers as it should.
func (h *chain) passed(m string) {
	defer guard()()
	n := h.n
	if strings.HasPrefix(m, "bad") && h.fail < h.n {
		n = h.fail + 1
	}
	got := h.log[m]
	if len(got) != n {
		vsched.Fail("message %q was passed to handlers %v, of %d (handler %d fails)", m, got, h.n, h.fail)
	}
	for i, x := range got {
		if i != x {
			vsched.Fail("message %q was passed to the handlers in order %v", m, got)
		}
	}
}

// A band is a list of protocols that count their events.
type band struct {
	names  []string
	counts []map[string]int
	order  []string
	seen   func(i int, event string, c *noise.Client)
}

func (b *band) note(i int, event string, c *noise.Client) {
	defer guard()()
	vsched.Mark()
	b.counts[i][event]++
	b.order = append(b.order, fmt.Sprintf("%s %d", event, i))
	if b.seen != nil {
		b.seen(i, event, c)
	}
}

// protocol number i with the hooks in mask.
func (b *band) protocol(mask int) noise.Protocol {
	i := len(b.counts)
	b.counts = append(b.counts, map[string]int{})
	var p noise.Protocol
	if mask&1 != 0 {
		p.Bind = func(*noise.Node) error { b.note(i, "bind", nil); return nil }
	}
	if mask&2 != 0 {
		p.OnPeerConnected = func(c *noise.Client) { b.note(i, "connected", c) }
	}
	if mask&4 != 0 {
		p.OnPeerDisconnected = func(c *noise.Client) { b.note(i, "disconnected", c) }
	}
	if mask&8 != 0 {
		p.OnPingFailed = func(addr string, err error) { b.note(i, "failed", nil) }
	}
	if mask&16 != 0 {
		p.OnMessageSent = func(c *noise.Client) { b.note(i, "sent", c) }
	}
	if mask&32 != 0 {
		p.OnMessageRecv = func(c *noise.Client) { b.note(i, "recv", c) }
	}
	return p
}

var hookNames = []string{"bind", "connected", "disconnected", "failed", "sent", "recv"}

// expect checks that every protocol that has the hook saw min to max of the event, and all the same number.
func (b *band) expect(masks []int, event string, min, max int) {
	defer guard()()
	bit := 0
	for i, n := range hookNames {
		if n == event {
			bit = 1 << i
		}
	}
	first := -1
	for i, m := range masks {
		n := b.counts[i][event]
		if m&bit == 0 {
			continue
		}
		if n < min || n > max {
			vsched.Fail("protocol %d of %d saw %q %d times instead of %d to %d", i, len(masks), event, n, min, max)
		}
		if first >= 0 && n != first {
			vsched.Fail("protocols saw %q %d and %d times", event, first, n)
		}
		first = n
	}
}

var hookMasks = [][]int{{}, {63}, {63, 63}, {63, 63, 63}, {0, 63}, {63, 0, 63}, {21, 42}, {42, 21}, {32, 16}, {16, 32, 63}, {1, 2, 4}, {6, 8, 49}}

// strict wants each handler to run once, and for a bad message the error reported on the connection.
func chainScenario(two bool) func() {
	return func() {
		h := &chain{n: vsched.Pick(4)}
		h.fail = vsched.Pick(h.n + 1)
		kind := vsched.Pick(4) // which messages are requests
		split := vsched.Pick(2)
		workers := uint(1 + vsched.Pick(2))
		var b *noise.Node
		var w watch
		vsched.QuietOn()
		b = newNode(procB, noise.WithNodeNumWorkers(workers))
		hs := h.handlers()
		b.Bind(w.protocol())
		if split == 1 {
			for _, x := range hs {
				b.Handle(x)
			}
		} else {
			b.Handle(hs...)
		}
		listen(procB, b)
		send := func(seed byte, ms ...string) chan struct{} {
			p, err := rawDial(b.Addr())
			must(err)
			must(p.shake(seed, rawID(procC, uint16(seed)), key(procC)))
			return spawn(procC, func() {
				for i, m := range ms {
					var nonce uint64
					if kind>>uint(i)&1 == 1 {
						nonce = uint64(i + 1)
					}
					if p.send(nonce, []byte(m)) != nil {
						break
					}
				}
				p.drain()
			})
		}
		var ts []chan struct{}
		if two {
			ts = append(ts, send(1, "one", "bad one"), send(2, "two"))
		} else {
			ts = append(ts, send(1, "one", "bad two", "three"))
		}
		vsched.QuietOff()
		vsched.Quiesce()
		h.passed("one")
		if two {
			h.passed("bad one")
			h.passed("two")
		} else {
			h.passed("bad two")
			if h.fail == h.n || len(h.log["three"]) > 0 {
				h.passed("three")
			}
		}
		// The one connection with an erring handler is closed, others are not.
		open := len(b.Inbound())
		want := len(ts)
		if h.fail < h.n {
			want--
			vsched.Fact("handler failed")
			if len(w.disconnected) != 1 {
				vsched.Fail("%d connections ended", len(w.disconnected))
			}
			if err := w.disconnected[0].Error(); !errors.Is(err, errHandler) {
				vsched.Fail("the error of the connection is %v", err)
			}
		}
		if open != want {
			vsched.Fail("%d connections remain instead of %d (handler %d of %d fails)", open, want, h.fail, h.n)
		}
		if h.n > 0 {
			// All of them are idle: nothing more is passed on.
			n := len(h.all)
			vsched.Quiesce()
			if len(h.all) != n {
				vsched.Fail("handlers run again: %v", h.all)
			}
		}
		shut(procB, b)
		join(ts...)
	}
}

func init() {
	mc.Add(mc.Scenario{
		Prop: "C20", Name: "c20-handlers", Doc: "three messages, plain ones and requests, over a connection to a node with 0 to 3 handlers, registered together or one by one, one of which fails for the second, 1 or 2 workers",
		Run:   chainScenario(false),
		Quick: mc.Bounds{Cost: 1, Policies: []int{0}}, Thorough: mc.Bounds{Cost: 2, Policies: []int{0, 1}}, Native: 4,
	})
	mc.Add(mc.Scenario{
		Prop: "C20", Name: "c20-handlers-two", Doc: "the same with messages over two connections at once",
		Run:   chainScenario(true),
		Quick: mc.Bounds{Cost: 1, Policies: []int{0}}, Thorough: mc.Bounds{Cost: 2, Policies: []int{0, 1}}, Native: 4,
	})
	mc.Add(mc.Scenario{
		Prop: "C20", Name: "c20-hooks", Doc: fmt.Sprintf("%d sets of 0 to 3 protocols with and without hooks at a node that is dialled, dials, fails to dial, sends, answers, asks and is disconnected: how often each hook of each fires", len(hookMasks)),
		Run: func() {
			masks := hookMasks[vsched.Pick(len(hookMasks))]
			dialled := vsched.Pick(2) == 1
			n := 1 + vsched.Pick(2)
			var bd band
			var b *noise.Node
			var l, addr = rawListen(procC)
			var h chain
			h.n, h.fail = 1, 1
			vsched.QuietOn()
			b = newNode(procB)
			var ps []noise.Protocol
			for _, m := range masks {
				ps = append(ps, bd.protocol(m))
			}
			b.Bind(ps...)
			b.Handle(h.handlers()...)
			listen(procB, b)
			bd.expect(masks, "bind", 1, 1)
			bd.expect(masks, "connected", 0, 0)
			serve := func(p *rawPeer) {
				for i := 0; i < n; i++ {
					p.send(0, []byte(fmt.Sprintf("plain %d", i)))
					p.send(uint64(100+i), []byte(fmt.Sprintf("request %d", i)))
				}
				for {
					nonce, d, err := p.recv()
					if err != nil {
						return
					}
					if nonce != 0 && string(d) == "ask" {
						p.send(nonce, []byte("answer"))
					}
				}
			}
			vsched.QuietOff()
			wantRecv, wantSent := 2*n, n
			if dialled {
				rawServe(procC, l, serve)
				join(spawn(procB, func() {
					if _, err := b.Ping(bg(), addr); err != nil {
						vsched.Fail("ping: %v", err)
					}
					if d, err := b.Request(bg(), addr, []byte("ask")); err != nil || string(d) != "answer" {
						vsched.Fail("request: %q %v", d, err)
					}
					if err := b.Send(bg(), addr, []byte("tell")); err != nil {
						vsched.Fail("send: %v", err)
					}
				}))
				wantRecv++
				wantSent += 2
			} else {
				p, err := rawDial(b.Addr())
				must(err)
				spawn(procC, func() {
					must(p.shake(3, rawID(procC, 3), key(procC)))
					serve(p)
				})
			}
			vsched.Quiesce()
			bd.expect(masks, "connected", 1, 1)
			bd.expect(masks, "disconnected", 0, 0)
			bd.expect(masks, "recv", wantRecv, wantRecv)
			bd.expect(masks, "sent", 1, wantSent)
			bd.expect(masks, "failed", 0, 0)
			if dialled {
				bd.expect(masks, "sent", 2, wantSent) // the request had to be flushed before its answer came and the message was sent
			}
			join(spawn(procB, func() {
				if _, err := b.Ping(bg(), "127.0.0.1:1"); err == nil {
					vsched.Fail("ping of nobody succeeds")
				}
			}))
			bd.expect(masks, "failed", 1, 1)
			for _, c := range append(b.Inbound(), b.Outbound()...) {
				c := c
				in(procB, func() { c.Close() })
			}
			vsched.Quiesce()
			bd.expect(masks, "connected", 1, 1)
			bd.expect(masks, "disconnected", 1, 1)
			bd.expect(masks, "recv", wantRecv, wantRecv)
			bd.expect(masks, "bind", 1, 1)
			for i := 0; i < n; i++ {
				h.passed(fmt.Sprintf("plain %d", i))
				h.passed(fmt.Sprintf("request %d", i))
			}
		},
		StmtsThorough: true,
		Quick:         mc.Bounds{Cost: 1, Policies: []int{0}}, Thorough: mc.Bounds{Cost: 2, Policies: []int{0, 1}}, Native: 4,
	})
	mc.Add(mc.Scenario{
		Prop: "C20", Name: "c20-sizes", Doc: "messages, requests and responses of 0 to 70000 bytes, one by one, both ways: each is passed to all of 10 handlers, unless it is a response, and fires the sent hook of 10 protocols at one end and the received hook at the other",
		Run: func() {
			const many = 10
			rev := vsched.Pick(2) == 1 // which node speaks
			var ba, bb band
			var a, b *noise.Node
			var na, nb [many]int
			masks := make([]int, many)
			counting := func(n *noise.Node, counts *[many]int) {
				for i := 0; i < many; i++ {
					i := i
					n.Handle(func(ctx noise.HandlerContext) error {
						g := guard()
						counts[i]++
						if i > 0 && counts[i] > counts[i-1] {
							vsched.Fail("handler %d is called before the one before it", i)
						}
						g()
						if i == many-1 && ctx.IsRequest() {
							return ctx.Send(ctx.Data())
						}
						return nil
					})
				}
			}
			vsched.QuietOn()
			a, b = newNode(procA, noise.WithNodeMaxRecvMessageSize(100000)), newNode(procB, noise.WithNodeMaxRecvMessageSize(100000))
			for i := range masks {
				masks[i] = 63
				a.Bind(ba.protocol(63))
				b.Bind(bb.protocol(63))
			}
			counting(a, &na)
			counting(b, &nb)
			listen(procA, a)
			listen(procB, b)
			vsched.QuietOff()
			ga := procA
			if rev {
				a, b, ga = b, a, procB
			}
			connect(ga, a, b.Addr())
			wa, wb, handled := 0, 0, 0
			check := func(what string) {
				vsched.Quiesce()
				x, y, nx, ny := &ba, &bb, &na, &nb
				if rev {
					x, y, nx, ny = y, x, ny, nx
				}
				x.expect(masks, "sent", wb, wb)
				y.expect(masks, "recv", wb, wb)
				y.expect(masks, "sent", wa, wa)
				x.expect(masks, "recv", wa, wa)
				defer guard()()
				for i := 0; i < many; i++ {
					if nx[i] != 0 || ny[i] != handled {
						vsched.Fail("%s: handler %d was called %d times, and %d at the node that asks, instead of %d and none", what, i, ny[i], nx[i], handled)
					}
				}
			}
			for _, size := range []int{0, 1, 2, 7, 8, 100, 4096, 70000} {
				in(ga, func() {
					if d, err := a.Request(bg(), b.Addr(), make([]byte, size)); err != nil || len(d) != size {
						vsched.Fail("a request of %d bytes: %d bytes, %v", size, len(d), err)
					}
				})
				wa, wb, handled = wa+1, wb+1, handled+1
				check(fmt.Sprint("after a request of ", size))
				in(ga, func() { must(a.Send(bg(), b.Addr(), make([]byte, size))) })
				wb, handled = wb+1, handled+1
				check(fmt.Sprint("after a message of ", size))
			}
		},
		Quick: mc.Bounds{}, Thorough: mc.Bounds{Cost: 1, Policies: []int{0}}, Native: 2,
	})
	mc.Add(mc.Scenario{
		Prop: "C20", Name: "c20-sent", Doc: "1 to 3 threads send while the peer reads, stalls or closes: every firing of the sent hook, of two protocols, is preceded by the bytes of another message, and messages that were flushed are followed by one",
		Run: func() {
			n := 1 + vsched.Pick(3)
			peer := vsched.Pick(3) // reads; closes after the handshake; closes after the first message
			l, addr := rawListen(procC)
			var b *noise.Node
			var bd band
			var t *tap
			masks := []int{63, 63}
			frames := func() int { // data frames process B put on the wire
				k := 0
				for _, s := range t.order {
					if s.conn.Group() == procB && len(s.frames) > 2 {
						k += len(s.frames) - 2
					}
				}
				return k
			}
			var last [2]int
			var c *noise.Client
			vsched.Quiet(func() {
				t = newTap()
				bd.seen = func(i int, event string, cl *noise.Client) {
					if event != "sent" {
						return
					}
					f := frames()
					if f <= last[i] {
						vsched.Fail("the sent hook fires for the %d. time, %d messages were flushed", bd.counts[i]["sent"], f)
					}
					last[i]++
					if cl != c && peer == 0 {
						vsched.Fail("the sent hook gets another connection")
					}
				}
				b = newNode(procB)
				b.Bind(bd.protocol(63), bd.protocol(63))
				listen(procB, b)
				rawServe(procC, l, func(p *rawPeer) {
					if peer == 1 {
						p.conn.Close()
						return
					}
					p.recv()
					if peer == 2 {
						p.conn.Close()
						return
					}
					p.drain()
				})
			})
			vsched.Quiet(func() {
				in(procB, func() { c, _ = b.Ping(bg(), addr) })
			})
			if c == nil {
				vsched.Discard("not connected")
			}
			var ts []chan struct{}
			ok := make([]bool, n)
			for i := 0; i < n; i++ {
				i := i
				ts = append(ts, spawn(procB, func() { ok[i] = b.Send(bg(), addr, []byte{byte(i)}) == nil }))
			}
			join(ts...)
			vsched.Quiesce()
			if peer == 0 {
				bd.expect(masks, "sent", 1, n)
				if f := frames(); f != n {
					vsched.Fail("%d messages were put on the wire instead of %d", f, n)
				}
				last := ""
				for _, e := range bd.order {
					last = e
				}
				if !strings.HasPrefix(last, "sent") {
					vsched.Fail("the last event is %q", last)
				}
				vsched.Fact(fmt.Sprintf("%d messages, hook fired %d times", n, bd.counts[0]["sent"]))
			}
		},
		Quick: mc.Bounds{Cost: 1, Policies: []int{0, 1}}, Thorough: mc.Bounds{Cost: 2, Policies: []int{0, 1}, Weight: 4},
	})
	mc.Add(mc.Scenario{
		Prop: "C20", Name: "c20-late", Doc: "handlers and protocols registered before, while and after the node starts to listen: the former count, the latter are ignored, those in between are one or the other for good",
		Run: func() {
			var bd band
			var b *noise.Node
			var early, mid, late, nested chain
			for _, c := range []*chain{&early, &mid, &late, &nested} {
				c.n, c.fail = 1, 1
			}
			b = newNode(procB)
			b.Handle(early.handlers()...)
			b.Bind(bd.protocol(63)) // 0
			b.Bind(noise.Protocol{Bind: func(n *noise.Node) error {
				n.Handle(nested.handlers()...)
				return nil
			}})
			mh := mid.handlers()
			mp := bd.protocol(63) // 1
			t := spawn(procB, func() {
				b.Handle(mh...)
				b.Bind(mp)
			})
			listen(procB, b)
			b.Handle(late.handlers()...)
			b.Bind(bd.protocol(63)) // 2
			join(t)
			p, err := rawDial(b.Addr())
			must(err)
			join(spawn(procC, func() {
				must(p.shake(3, rawID(procC, 3), key(procC)))
				p.send(0, []byte("one"))
				p.send(0, []byte("two"))
			}))
			vsched.Quiesce()
			early.passed("one")
			early.passed("two")
			nested.passed("one")
			nested.passed("two")
			if len(late.all) > 0 || len(bd.counts[2]) > 0 {
				vsched.Fail("what was registered on a listening node is called: %v %v", late.all, bd.counts[2])
			}
			if k := len(mid.all); k != 0 && k != 2 {
				vsched.Fail("a handler registered while the node started was called for %v", mid.all)
			}
			if k := bd.counts[0]["recv"]; k != 2 {
				vsched.Fail("the received hook fired %d times", k)
			}
			if k := bd.counts[1]["recv"]; k != 0 && k != 2 {
				vsched.Fail("the received hook of a protocol registered while the node started fired %d times", k)
			}
			vsched.Fact(fmt.Sprintf("handler in between: %d, protocol in between: %d", len(mid.all), bd.counts[1]["recv"]))
		},
		Quick: mc.Bounds{Cost: 2, Policies: []int{0, 1}}, Thorough: mc.Bounds{Cost: 4, Policies: []int{0, 1}}, Native: 4,
	})
	mc.Add(mc.Scenario{
		Prop: "C20", Name: "c20-bind-error", Doc: "one of 1 to 3 protocols refuses to be bound: Listen fails with its error, nothing stays behind, the port is free",
		Run: func() {
			n := 1 + vsched.Pick(3)
			fail := vsched.Pick(n)
			wrapped := vsched.Pick(2) == 1
			errBind := errors.New("bind's error")
			if wrapped {
				errBind = fmt.Errorf("wrapped: %w", context.Canceled)
			}
			var bd band
			b := newNode(procB, noise.WithNodeBindPort(9100))
			for i := 0; i < n; i++ {
				p := bd.protocol(63)
				if i == fail {
					p.Bind = func(*noise.Node) error { return errBind }
				}
				b.Bind(p)
			}
			// Others may try to connect at any time.
			tr := spawn(procC, func() {
				if p, err := rawDial("127.0.0.1:9100"); err == nil {
					if p.upTo(stEstablished, 3, rawID(procC, 3), key(procC)) == nil {
						vsched.Fail("a node that failed to start shakes hands")
					}
					p.conn.Close()
				}
			})
			var err error
			in(procB, func() { err = b.Listen() })
			if !errors.Is(err, errBind) {
				vsched.Fail("protocol %d of %d fails with %v, Listen with %v", fail, n, errBind, err)
			}
			join(tr)
			released(procB, 0, 0, "after a protocol refused to be bound")
			for i := 0; i < fail; i++ {
				if bd.counts[i]["bind"] != 1 {
					vsched.Fail("protocol %d was bound %d times", i, bd.counts[i]["bind"])
				}
			}
			for i := range bd.counts {
				if bd.counts[i]["connected"]+bd.counts[i]["recv"] > 0 {
					vsched.Fail("hooks of a node that failed to start fire: %v", bd.counts[i])
				}
			}
			m := node(procD, echo, noise.WithNodeBindPort(9100))
			a := node(procA, nil)
			if c, err := a.Ping(bg(), m.Addr()); err != nil || c.ID().ID != m.ID().ID {
				vsched.Fail("another node in its place is not reached: %v", err)
			}
			in(procB, func() { b.Close() })
			released(procB, 0, 0, "after closing it")
		},
		Quick: mc.Bounds{Cost: 1, Policies: []int{0}}, Thorough: mc.Bounds{Cost: 2, Policies: []int{0, 1}}, Native: 1,
	})
	mc.Add(mc.Scenario{
		Prop: "C20", Name: "c20-ends", Doc: "messages, requests and responses flow both ways between two nodes while one of them closes its connections or itself: what each node received it handled or took as a response, and told its protocols about, once",
		Run: func() {
			how := vsched.Pick(3) // the asking node closes the connection, itself; the other node closes itself
			var a, b *noise.Node
			var ba, bb band
			var ha, hb chain
			ha.n, ha.fail, hb.n, hb.fail = 2, 2, 2, 2
			var t *tap
			mk := func(g int, bd *band, h *chain) *noise.Node {
				n := newNode(g)
				n.Bind(bd.protocol(63), bd.protocol(63))
				n.Handle(h.handlers()...)
				listen(g, n)
				return n
			}
			vsched.Quiet(func() {
				t = newTap()
				a, b = mk(procA, &ba, &ha), mk(procB, &bb, &hb)
				connect(procA, a, b.Addr())
			})
			answers := 0
			ts := []chan struct{}{
				spawn(procA, func() {
					if _, err := a.Request(bg(), b.Addr(), []byte("ask")); err == nil {
						answers++
					}
				}),
				spawn(procA, func() { a.Send(bg(), b.Addr(), []byte("tell")) }),
			}
			switch how {
			case 0:
				closeClients(procA, a)
			case 1:
				shut(procA, a)
			case 2:
				shut(procB, b)
			}
			join(ts...)
			vsched.Settle()
			check := func(who string, bd *band, h *chain, answers [2]int) {
				seen := 0
				for m := range h.log {
					h.passed(m)
					seen++
				}
				bd.expect([]int{63, 63}, "recv", seen+answers[0], seen+answers[1])
				if c, d := bd.counts[0]["connected"], bd.counts[0]["disconnected"]; d > c || bd.counts[1]["connected"] != c || bd.counts[1]["disconnected"] != d {
					vsched.Fail("%s: hooks fired unevenly: %v", who, bd.counts)
				}
			}
			// A response that arrived may have lost to the end of the request.
			check("asking node", &ba, &ha, [2]int{answers, 1})
			check("answering node", &bb, &hb, [2]int{0, 0})
			_ = t
		},
		Quick: mc.Bounds{Cost: 1, Policies: []int{0, 1}}, Thorough: mc.Bounds{Cost: 2, Policies: []int{0, 1}, Weight: 4},
	})
}

var _ = vnet.Dials
