package main

import (
	"context"
	"errors"
	"fmt"
	"net"
	"strconv"

	"github.com/perlin-network/noise"
	"github.com/perlin-network/noise/kademlia"
	"verif.local/rt/mc"
	"verif.local/rt/vnet"
	"verif.local/rt/vsched"
)

// refused checks that nothing can be done with the closed node n any more.
func refused(g int, n *noise.Node, addrs ...string) {
	dials := 0
	if !vsched.Native {
		dials = len(vnet.Dials())
	}
	in(g, func() {
		for _, addr := range addrs {
			for op := 0; op < 3; op++ {
				if call(op, n, bg(), addr) == nil {
					vsched.Fail("a call on a closed node succeeds")
				}
			}
		}
		if n.Listen() == nil {
			vsched.Fail("a closed node listens")
		}
		if err := n.Close(); err != nil {
			vsched.Fail("another Close: %v", err)
		}
	})
	if !vsched.Native && len(vnet.Dials()) != dials {
		vsched.Fail("a closed node dials")
	}
	if len(n.Inbound())+len(n.Outbound()) > 0 {
		vsched.Fail("a closed node lists connections")
	}
}

func init() {
	mc.Add(mc.Scenario{
		Prop: "C11", Name: "c11-idle", Doc: "Close before, right after and without Listen, after a Listen that failed, once, twice and by two threads at once",
		Run: func() {
			when := vsched.Pick(5)
			threads := 1 + vsched.Pick(3)
			bad := errors.New("bind")
			var n, other *noise.Node
			vsched.Quiet(func() {
				other = node(procB, echo)
				n = newNode(procA)
				switch when {
				case 1:
					listen(procA, n)
					vsched.Quiesce()
				case 3:
					n.Bind(noise.Protocol{Bind: func(*noise.Node) error { return bad }})
					in(procA, func() {
						if n.Listen() != bad {
							vsched.Fail("Listen does not return the error of a protocol")
						}
					})
				case 4:
					n = newNode(procA, noise.WithNodeBindPort(uint16(other.ID().Port)))
					in(procA, func() {
						if n.Listen() == nil {
							vsched.Fail("two nodes listen on one port")
						}
					})
				}
			})
			if when == 2 {
				listen(procA, n)
			}
			var ts []chan struct{}
			for i := 0; i < threads; i++ {
				ts = append(ts, spawn(procA, func() {
					if err := n.Close(); err != nil {
						vsched.Fail("Close: %v", err)
					}
					if err := n.Close(); err != nil {
						vsched.Fail("Close: %v", err)
					}
				}))
			}
			join(ts...)
			released(procA, 0, 0, "after Close")
			vsched.QuietOn()
			refused(procA, n, other.Addr())
			if c, err := net.Dial("tcp", n.Addr()); err == nil && n.Addr() != "" && when < 3 {
				c.Close()
				vsched.Fail("a closed node accepts connections")
			}
			vsched.QuietOff()
			released(procA, 0, 0, "after calls on a closed node")
		},
		Quick: mc.Bounds{Cost: 2}, Thorough: mc.Bounds{Cost: 3, Policies: []int{0, 1}}, Native: 9,
	})
	mc.Add(mc.Scenario{
		Prop: "C11", Name: "c11-traffic", Doc: "Close while requests and messages go in and out over inbound and outbound connections, by one or two threads",
		Run: func() {
			k := 1 + vsched.Pick(2)
			dir := vsched.Pick(3)
			var a, b *noise.Node
			var wb watch
			vsched.Quiet(func() {
				a = node(procA, echo, noise.WithNodeNumWorkers(uint(k)))
				wb = watch{}
				b = newNode(procB)
				b.Bind(wb.protocol())
				b.Handle(echo)
				listen(procB, b)
				if dir != 1 {
					connect(procA, a, b.Addr())
				}
				if dir != 0 {
					connect(procB, b, a.Addr())
				}
				vsched.Quiesce()
			})
			var ts []chan struct{}
			if dir != 1 {
				ts = append(ts, spawn(procA, func() {
					if data, err := a.Request(bg(), b.Addr(), []byte("x")); err == nil && string(data) != "re:x" {
						vsched.Fail("response %q", data)
					}
					a.Send(bg(), b.Addr(), []byte("y"))
				}))
			}
			if dir != 0 {
				ts = append(ts, spawn(procB, func() {
					b.Send(bg(), a.Addr(), []byte("v"))
					if data, err := b.Request(bg(), a.Addr(), []byte("w")); err == nil && string(data) != "re:w" {
						vsched.Fail("response %q", data)
					}
				}))
			}
			for i := 0; i < k; i++ {
				ts = append(ts, spawn(procA, func() {
					if err := a.Close(); err != nil {
						vsched.Fail("Close: %v", err)
					}
				}))
			}
			join(ts...)
			released(procA, 0, 0, "after Close")
			if len(b.Inbound())+len(b.Outbound()) > 0 || len(wb.connected) != len(wb.disconnected) {
				vsched.Fail("the other node still has a connection: %d connected, %d disconnected", len(wb.connected), len(wb.disconnected))
			}
			vsched.QuietOn()
			refused(procA, a, b.Addr())
			vsched.QuietOff()
		},
		Quick: mc.Bounds{Cost: 1}, Thorough: mc.Bounds{Cost: 2, Policies: []int{0, 1}}, Native: 6,
	})
	mc.Add(mc.Scenario{
		Prop: "C11", Name: "c11-outbound-messages", Doc: "Close while peers send messages and answers over connections that the node has dialled, or that it has accepted, or both; the node has one or two workers",
		Run: func() {
			dir := vsched.Pick(3)
			workers := 1 + vsched.Pick(2)
			var n *noise.Node
			var ps []*rawPeer
			vsched.Quiet(func() {
				n = node(procA, echo, noise.WithNodeNumWorkers(uint(workers)))
				if dir != 1 {
					l, addr := rawListen(procB)
					got := make(chan *rawPeer, 1)
					rawServe(procB, l, func(p *rawPeer) { got <- p })
					connect(procA, n, addr)
					ps = append(ps, <-got)
				}
				if dir != 0 {
					ps = append(ps, dialShake(n.Addr(), 1, procB, 7))
				}
				vsched.Quiesce()
			})
			var ts []chan struct{}
			for _, p := range ps {
				p := p
				ts = append(ts, spawn(procB, func() {
					for i := 0; i < 3; i++ {
						if p.send(uint64(i%2), []byte("m")) != nil {
							break
						}
					}
					p.drain()
				}))
			}
			ts = append(ts, spawn(procA, func() {
				if err := n.Close(); err != nil {
					vsched.Fail("Close: %v", err)
				}
			}))
			join(ts...)
			released(procA, 0, 0, "after Close")
			for _, p := range ps {
				p.conn.Close()
			}
		},
		Quick: mc.Bounds{Cost: 1, Policies: []int{0, 1}}, Thorough: mc.Bounds{Cost: 2, Policies: []int{0, 1}}, Native: 6,
	})
	mc.Add(mc.Scenario{
		Prop: "C11", Name: "c11-from-handler", Doc: "Close from a handler or a hook, while another thread closes as well or the peer goes on sending",
		Run: func() {
			where := vsched.Pick(5)
			also := vsched.Pick(2) == 1
			var n *noise.Node
			closed := 0
			closing := func() error {
				if err := n.Close(); err != nil {
					vsched.Fail("Close: %v", err)
				}
				u := guard()
				closed++
				u()
				return nil
			}
			var p *rawPeer
			vsched.Quiet(func() {
				n = newNode(procA)
				hook := noise.Protocol{}
				switch where {
				case 0:
					n.Handle(func(ctx noise.HandlerContext) error { closing(); return ctx.Send([]byte("x")) })
				case 1:
					n.Handle(func(noise.HandlerContext) error { closing(); return errors.New("and an error") })
				case 2:
					hook.OnPeerConnected = func(*noise.Client) { closing() }
				case 3:
					hook.OnMessageRecv = func(*noise.Client) { closing() }
				case 4:
					hook.OnPeerDisconnected = func(*noise.Client) { closing() }
				}
				if where >= 2 {
					n.Bind(hook)
					n.Handle(echo)
				}
				listen(procA, n)
				var err error
				p, err = rawDial(n.Addr())
				must(err)
			})
			t := spawn(procB, func() {
				if p.shake(1, rawID(procB, 1), key(procB)) == nil {
					p.send(1, []byte("a"))
					p.send(0, []byte("b"))
				}
				if where == 4 {
					p.conn.Close()
				}
				p.drain()
			})
			if also {
				closing()
			}
			join(t)
			vsched.Settle()
			if closed == 0 {
				vsched.Fail("Close did not return")
			}
			released(procA, 0, 0, "after Close")
			p.conn.Close()
		},
		Quick: mc.Bounds{Cost: 2}, Thorough: mc.Bounds{Cost: 3, Policies: []int{0, 1}}, Native: 8,
	})
	mc.Add(mc.Scenario{
		Prop: "C11", Name: "c11-connecting", Doc: "Close while a peer connects or is dialled, at every stage of the handshake, while it stalls or goes on",
		Run: func() {
			st := vsched.Pick(stEstablished + 2)
			out := vsched.Pick(2) == 1
			stall := vsched.Pick(2) == 1
			var n *noise.Node
			var p *rawPeer
			l, addr := rawListen(procB)
			vsched.Quiet(func() {
				n = node(procA, echo)
				if st > stEstablished && out && !vsched.Native {
					vnet.OnDial(addr, func(int) vnet.Action { return vnet.Hang })
				}
			})
			part := func() {
				if stall {
					p.upTo(st, 1, rawID(procB, 5), key(procB))
				} else {
					if p.shake(1, rawID(procB, 5), key(procB)) == nil {
						p.send(3, []byte("x"))
					}
				}
				p.drain()
			}
			var ts []chan struct{}
			if out {
				rawAccept(procB, l, func(i int, q *rawPeer) { p = q; part() })
				ts = append(ts, spawn(procA, func() { n.Ping(bg(), addr) }))
			} else {
				if st > stEstablished {
					vsched.Discard("nothing to connect")
				}
				ts = append(ts, spawn(procB, func() {
					var err error
					if p, err = rawDial(n.Addr()); err == nil {
						part()
					}
				}))
			}
			if stall {
				vsched.Quiesce()
			}
			ts = append(ts, spawn(procA, func() {
				if err := n.Close(); err != nil {
					vsched.Fail("Close: %v", err)
				}
			}))
			join(ts...)
			released(procA, 0, 0, "after Close")
			vsched.QuietOn()
			refused(procA, n, addr)
			vsched.QuietOff()
			l.Close()
		},
		Quick: mc.Bounds{Cost: 2}, Thorough: mc.Bounds{Cost: 3, Policies: []int{0, 1}}, Native: 8,
	})
	mc.Add(mc.Scenario{
		Prop: "C11", Name: "c11-busy-handlers", Doc: "Close returns while handlers are blocked and messages queue up behind them; once they end everything is released",
		Run: func() {
			workers := 1 + vsched.Pick(2)
			msgs := vsched.Pick(5)
			fails := vsched.Pick(2) == 1
			hold := make(chan struct{})
			var n *noise.Node
			var p, q *rawPeer
			vsched.Quiet(func() {
				n = node(procA, func(noise.HandlerContext) error {
					<-hold
					if fails {
						return errors.New("handler")
					}
					return nil
				}, noise.WithNodeNumWorkers(uint(workers)))
				var err error
				p, err = rawDial(n.Addr())
				must(err)
				must(p.shake(1, rawID(procB, 1), key(procB)))
				q, err = rawDial(n.Addr())
				must(err)
				must(q.shake(2, rawID(procC, 2), key(procC)))
				for i := 0; i < msgs; i++ {
					p.send(uint64(i), []byte("x"))
					q.send(uint64(i), []byte("x"))
				}
				vsched.Quiesce()
			})
			join(spawn(procA, func() {
				if err := n.Close(); err != nil {
					vsched.Fail("Close: %v", err)
				}
			}))
			p.drain()
			q.drain()
			close(hold)
			released(procA, 0, 0, "after Close and the handlers")
			vsched.QuietOn()
			refused(procA, n)
			vsched.QuietOff()
		},
		Quick: mc.Bounds{Cost: 2}, Thorough: mc.Bounds{Cost: 3, Policies: []int{0, 1}}, Native: 8,
	})
	mc.Add(mc.Scenario{
		Prop: "C11", Name: "c11-without-listen", Doc: "a node that never listened dials, is used and closed",
		Run: func() {
			what := vsched.Pick(4)
			var n, b *noise.Node
			vsched.Quiet(func() {
				b = node(procB, echo)
				n = newNode(procA)
				if what == 1 || what == 3 {
					connect(procA, n, b.Addr())
				}
			})
			var ts []chan struct{}
			if what >= 2 {
				ts = append(ts, spawn(procA, func() {
					n.Request(bg(), b.Addr(), []byte("x"))
					n.Ping(bg(), b.Addr())
				}))
			}
			ts = append(ts, spawn(procA, func() {
				if err := n.Close(); err != nil {
					vsched.Fail("Close: %v", err)
				}
			}))
			join(ts...)
			released(procA, 0, 0, "after Close")
			if len(b.Inbound()) > 0 {
				vsched.Fail("the other node still has a connection")
			}
			vsched.QuietOn()
			refused(procA, n, b.Addr())
			vsched.QuietOff()
		},
		Quick: mc.Bounds{Cost: 2}, Thorough: mc.Bounds{Cost: 3, Policies: []int{0, 1}}, Native: 4,
	})
	mc.Add(mc.Scenario{
		Prop: "C11", Name: "c11-overlay", Doc: "a node running overlay and gossip closes while it looks up, pushes, pings and is asked",
		Run: func() {
			what := vsched.Pick(4)
			var a, b *noise.Node
			var ka, kb *kademlia.Protocol
			var push func(ctx context.Context, data []byte)
			vsched.Quiet(func() {
				n, k, g := overlay(procA, nil)
				a, ka, push = n, k, g.Push
				b, kb, _ = overlay(procB, nil)
				connect(procA, a, b.Addr())
				vsched.Quiesce()
			})
			var ts []chan struct{}
			switch what {
			case 0:
				ts = append(ts, spawn(procA, func() { ka.Discover() }))
			case 1:
				ts = append(ts, spawn(procA, func() { push(bg(), []byte("x")) }))
			case 2:
				ts = append(ts, spawn(procA, func() { ka.Ping(bg(), b.Addr()) }))
			case 3:
				ts = append(ts, spawn(procB, func() { kb.Ping(bg(), a.Addr()) }))
			}
			ts = append(ts, spawn(procA, func() {
				if err := a.Close(); err != nil {
					vsched.Fail("Close: %v", err)
				}
			}))
			join(ts...)
			released(procA, 0, 0, "after Close")
			if c := append(b.Inbound(), b.Outbound()...); len(c) > 0 {
				vsched.Fail("the other node still has a connection")
			}
		},
		Quick: mc.Bounds{Cost: 1}, Thorough: mc.Bounds{Cost: 2, Policies: []int{0, 1}}, Native: 4,
	})

	mc.Add(mc.Scenario{
		Prop: "C11", Name: "c11-many", Doc: "a node with 120 connections, accepted and dialled, of which some are still in the handshake and some have a request under way or a message being handled, closes: all of them are gone, and every peer is told",
		Run: func() {
			const each = 60
			busy := vsched.Pick(2) == 1
			var n *noise.Node
			var ds, asked []chan struct{}
			hold := make(chan struct{})
			l, addr := rawListen(procB)
			vsched.Quiet(func() {
				n = newNode(procA, noise.WithNodeNumWorkers(3), noise.WithNodeMaxDialAttempts(1))
				n.Handle(func(ctx noise.HandlerContext) error {
					if busy {
						<-hold
					}
					return nil
				})
				listen(procA, n)
			})
			part := func(i int, p *rawPeer) {
				if st := i % 5; st < 2 {
					p.upTo(st, byte(i), rawID(procB, uint16(100+i)), key(procB))
				} else {
					must(p.shake(byte(i), rawID(procB, uint16(100+i)), key(procB)))
					if st == 4 {
						p.send(0, []byte("m"))
					}
				}
				if p.drain() == nil {
					vsched.Fail("not disconnected")
				}
			}
			for i := 0; i < each; i++ {
				i := i
				p, err := rawDial(n.Addr())
				must(err)
				ds = append(ds, spawn(procB, func() { part(i, p) }))
			}
			l.Close()
			for i := 0; i < each; i++ {
				i := i
				l, addr = rawListen(procB)
				done := make(chan struct{})
				ds = append(ds, done)
				l := l
				in(procB, func() {
					go func() {
						c, err := l.Accept()
						must(err)
						part(i, &rawPeer{conn: c})
						close(done)
					}()
				})
				to := addr
				asked = append(asked, spawn(procA, func() {
					if _, err := n.Request(bg(), to, []byte("q")); err == nil {
						vsched.Fail("a request nobody answers succeeds")
					}
				}))
			}
			vsched.Quiesce()
			if i, o := len(n.Inbound()), len(n.Outbound()); i != each || o != each {
				vsched.Fail("%d and %d connections are listed instead of %d each", i, o, each)
			}
			in(procA, func() {
				if err := n.Close(); err != nil {
					vsched.Fail("Close: %v", err)
				}
			})
			join(asked...)
			join(ds...)
			close(hold)
			released(procA, 0, 0, "after Close")
		},
		Quick: mc.Bounds{}, Thorough: mc.Bounds{Policies: []int{0, 1, 2}}, Native: 2,
	})
	mc.Add(mc.Scenario{
		Prop: "C11", Name: "c11-self", Doc: "a node connected to itself, over its own address by one or two names, closes, drops or is asked by itself from outside or within a handler, with one worker or three",
		Run: func() {
			workers := 1 + 2*vsched.Pick(2)
			within := vsched.Pick(2) == 1
			end := vsched.Pick(4)
			two := vsched.Pick(2) == 1
			var n *noise.Node
			addrs := []string{}
			vsched.Quiet(func() {
				n = newNode(procA, noise.WithNodeNumWorkers(uint(workers)))
				n.Handle(func(ctx noise.HandlerContext) error {
					if within && string(ctx.Data()) == "deep" {
						n.Send(bg(), addrs[0], []byte("x")) //nolint
						if workers > 1 {
							n.Request(bg(), addrs[0], []byte("y")) //nolint
						}
					}
					return echo(ctx)
				})
				listen(procA, n)
				addrs = append(addrs, n.Addr())
				if two {
					addrs = append(addrs, net.JoinHostPort("127.0.0.1", strconv.Itoa(int(n.ID().Port))))
				}
				for _, a := range addrs {
					connect(procA, n, a)
				}
				vsched.Quiesce()
			})
			var ds []chan struct{}
			for _, a := range addrs {
				a := a
				ds = append(ds, spawn(procA, func() {
					got, err := n.Request(bg(), a, []byte("deep"))
					if err == nil && string(got) != "re:deep" || err != nil && end == 0 {
						vsched.Fail("a request to itself: %q %v", got, err)
					}
				}))
			}
			switch end {
			case 1:
				shut(procA, n)
			case 2:
				closeClients(procA, n)
			case 3:
				join(spawn(procA, func() {
					for _, c := range n.Inbound() {
						c.Close()
					}
				}))
			}
			join(ds...)
			shut(procA, n)
			released(procA, 0, 0, "after Close")
		},
		StmtsThorough: true,
		Quick:         mc.Bounds{Cost: 1}, Thorough: mc.Bounds{Cost: 2, Policies: []int{0, 1}}, Native: 2,
	})
}

var _ = fmt.Sprint
