package main

import (
	"context"
	"fmt"
	"net"
	"strings"
	"time"

	"github.com/perlin-network/noise"
	"verif.local/rt/mc"
	"verif.local/rt/vnet"
	"verif.local/rt/vsched"
)

func limits(in, out uint) []noise.NodeOption {
	return []noise.NodeOption{noise.WithNodeMaxInboundConnections(in), noise.WithNodeMaxOutboundConnections(out), noise.WithNodeMaxDialAttempts(1)}
}

// answering serves a raw peer: requests are answered with what they contain.
func answering(p *rawPeer) {
	for {
		n, data, err := p.recv()
		if err != nil {
			p.conn.Close()
			return
		}
		if n > 0 && p.send(n, data) != nil {
			p.conn.Close()
			return
		}
	}
}

// lru is the reference pool.
type lru struct {
	limit int
	order []string // most recent first
}

func (m *lru) has(k string) bool {
	for _, o := range m.order {
		if o == k {
			return true
		}
	}
	return false
}

func (m *lru) drop(k string) {
	for i, o := range m.order {
		if o == k {
			m.order = append(m.order[:i:i], m.order[i+1:]...)
			return
		}
	}
}

func (m *lru) use(k string) {
	if m.has(k) {
		m.drop(k)
	} else if len(m.order) == m.limit {
		m.order = m.order[:len(m.order)-1]
	}
	m.order = append([]string{k}, m.order...)
}

// pool checks that the clients listed are exactly those the model has.
func (m *lru) pool(cs []*noise.Client, name func(*noise.Client) string, when string) {
	var got []string
	for _, c := range cs {
		if err := c.Error(); err != nil {
			vsched.Fail("%s the pool lists a connection that has ended: %v", when, err)
		}
		got = append(got, name(c))
	}
	for _, k := range m.order {
		ok := false
		for _, g := range got {
			ok = ok || g == k
		}
		if !ok {
			vsched.Fail("%s the pool has %v instead of %v", when, got, m.order)
		}
	}
	if len(got) != len(m.order) {
		vsched.Fail("%s the pool has %v instead of %v", when, got, m.order)
	}
}

func idName(c *noise.Client) string { return fmt.Sprintf("P%d", c.ID().Port) }

// history drives the outbound pool of a node through a sequence of calls and disconnections.
func history(n *noise.Node, m *lru, addrs []string, names []string, depth int) {
	closes := 0
	for d := 0; d < depth; d++ {
		op := vsched.Pick(2 * len(addrs))
		i := op % len(addrs)
		when := fmt.Sprintf("after %d steps", d+1)
		if op < len(addrs) {
			in(procA, func() {
				if err := call(d%3, n, bg(), addrs[i]); err != nil {
					vsched.Fail("%s: call: %v", when, err)
				}
			})
			m.use(names[i])
		} else {
			if !m.has(names[i]) {
				vsched.Discard("not connected")
			}
			closes++
			for _, c := range n.Outbound() {
				if idName(c) == names[i] {
					in(procA, c.Close)
				}
			}
			m.drop(names[i])
		}
		vsched.Settle()
		m.pool(n.Outbound(), idName, when)
		if !vsched.Native {
			if s := vnet.OpenSockets(procA); s != len(m.order)+1 {
				vsched.Fail("%s %d sockets are open for %d connections", when, s-1, len(m.order))
			}
		}
	}
	if closes > 0 {
		vsched.Fact("with disconnections")
	}
}

func rawPeers(k int) (addrs, names []string) {
	for i := 0; i < k; i++ {
		l, addr := rawListen(procB + i)
		rawServe(procB+i, l, answering)
		addrs = append(addrs, addr)
		names = append(names, fmt.Sprintf("P%d", port(l)))
	}
	return
}

func c08outbound(name string, lim []int, peers, depth int, thorough bool) {
	mc.Add(mc.Scenario{
		Prop: "C08", Name: name, Doc: fmt.Sprintf("all sequences of %d calls to, and disconnections from, %d peers with limits %v", depth, peers, lim),
		Run: func() {
			defer vsched.QuietOff()
			vsched.QuietOn()
			k := lim[vsched.Pick(len(lim))]
			addrs, names := rawPeers(peers)
			n := node(procA, nil, limits(uint(k), uint(k))...)
			history(n, &lru{limit: k}, addrs, names, depth)
			shut(procA, n)
			released(procA, 0, 0, "after Close")
		},
		Quick: mc.Bounds{Cost: 0}, Thorough: mc.Bounds{Cost: 0, Policies: []int{0, 1}}, Native: 6, ThoroughOnly: thorough, MaxSteps: 100000,
	})
}

func c08inbound(name string, lim []int, depth int, thorough bool) {
	mc.Add(mc.Scenario{
		Prop: "C08", Name: name, Doc: fmt.Sprintf("all sequences of %d connects and disconnects of up to %d peers with limits %v", depth, depth, lim),
		Run: func() {
			defer vsched.QuietOff()
			vsched.QuietOn()
			k := lim[vsched.Pick(len(lim))]
			var w watch
			n := watched(procA, &w, limits(uint(k), uint(k))...)
			m := &lru{limit: k}
			peers := map[string]*rawPeer{}
			next := 0
			for d := 0; d < depth; d++ {
				op := vsched.Pick(1 + len(m.order))
				when := fmt.Sprintf("after %d steps", d+1)
				if op == 0 {
					next++
					p, err := rawDial(n.Addr())
					must(err)
					must(p.shake(byte(next), rawID(procB, uint16(next)), key(procB)))
					k := fmt.Sprintf("P%d", next)
					peers[k] = p
					m.use(k)
				} else {
					k := m.order[op-1]
					peers[k].conn.Close()
					delete(peers, k)
					m.drop(k)
				}
				vsched.Settle()
				m.pool(n.Inbound(), idName, when)
				for k, p := range peers {
					if !m.has(k) { // evicted: the peer sees it
						p.drain()
						p.conn.Close()
						delete(peers, k)
					}
				}
				if !vsched.Native {
					if s := vnet.OpenSockets(procA); s != len(m.order)+1 {
						vsched.Fail("%s %d sockets are open for %d connections", when, s-1, len(m.order))
					}
				}
			}
			if len(w.connected) != next || len(w.disconnected) != next-len(m.order) {
				vsched.Fail("%d connected, %d disconnected with %d connections made and %d live", len(w.connected), len(w.disconnected), next, len(m.order))
			}
			shut(procA, n)
			released(procA, 0, 0, "after Close")
		},
		Quick: mc.Bounds{Cost: 0}, Thorough: mc.Bounds{Cost: 0, Policies: []int{0, 1}}, Native: 6, ThoroughOnly: thorough, MaxSteps: 100000,
	})
}

// consistent checks, once nothing is going on, that the pools of n list just the live connections, within the limit,
// and that a listed address is used without dialling again.
func consistent(g int, n *noise.Node, limit int, when string) {
	vsched.Settle()
	for _, cs := range [][]*noise.Client{n.Outbound(), n.Inbound()} {
		if len(cs) > limit {
			vsched.Fail("%s %d connections are live with a limit of %d", when, len(cs), limit)
		}
		seen := map[string]bool{}
		for _, c := range cs {
			if c.Error() != nil {
				vsched.Fail("%s a connection that has ended is listed: %v", when, c.Error())
			}
			if seen[idName(c)] {
				vsched.Fail("%s two connections to the same peer are listed", when)
			}
			seen[idName(c)] = true
		}
	}
	if vsched.Native {
		return
	}
	if s := vnet.OpenSockets(g) - 1; s != len(n.Outbound())+len(n.Inbound()) {
		vsched.Fail("%s %d sockets are open for %d connections", when, s, len(n.Outbound())+len(n.Inbound()))
	}
}

// never checks that no more than limit connections are ever listed.
func never(n *noise.Node, limit int) {
	for i := 0; i < 3; i++ {
		vsched.MarkPoint()
		if o, in := len(n.Outbound()), len(n.Inbound()); o > limit || in > limit {
			vsched.Fail("%d outbound and %d inbound connections with a limit of %d", o, in, limit)
		}
	}
}

func init() {
	c08outbound("c08-outbound", []int{1, 2, 3}, 4, 4, false)
	c08outbound("c08-outbound-long", []int{1, 2}, 3, 6, true)
	c08outbound("c08-outbound-deep", []int{1, 2, 3}, 4, 5, true)
	c08inbound("c08-inbound", []int{1, 2, 3}, 6, false)
	c08inbound("c08-inbound-deep", []int{1, 2, 3, 4}, 8, true)

	mc.Add(mc.Scenario{
		Prop: "C08", Name: "c08-concurrent-calls", Doc: "three threads call three peers with a limit of one or two while the pool is being watched",
		Run: func() {
			k := 1 + vsched.Pick(2)
			var n *noise.Node
			var addrs []string
			vsched.Quiet(func() {
				addrs, _ = rawPeers(3)
				n = node(procA, nil, limits(uint(k), uint(k))...)
			})
			var ts []chan struct{}
			for i := range addrs {
				i := i
				ts = append(ts, spawn(procA, func() { call(i, n, bg(), addrs[i]) }))
			}
			ts = append(ts, spawn(procX, func() { never(n, k) }))
			join(ts...)
			consistent(procA, n, k, "after concurrent calls")
			in(procA, func() {
				if err := call(0, n, bg(), addrs[0]); err != nil {
					vsched.Fail("call after concurrent calls: %v", err)
				}
			})
			consistent(procA, n, k, "after another call")
			shut(procA, n)
			released(procA, 0, 0, "after Close")
		},
		Quick: mc.Bounds{Cost: 2}, Thorough: mc.Bounds{Cost: 3, Policies: []int{0, 1}}, Native: 6,
	})
	mc.Add(mc.Scenario{
		Prop: "C08", Name: "c08-evict-and-return", Doc: "a connection is evicted by a call to another peer while its own peer is called again, so that its removal meets its successor",
		Run: func() {
			var n *noise.Node
			var addrs []string
			vsched.Quiet(func() {
				addrs, _ = rawPeers(2)
				n = node(procA, nil, limits(1, 1)...)
				connect(procA, n, addrs[0])
			})
			t := spawn(procA, func() {
				call(2, n, bg(), addrs[1])
				call(2, n, bg(), addrs[0])
			})
			u := spawn(procA, func() { call(0, n, bg(), addrs[0]) })
			v := spawn(procX, func() { never(n, 1) })
			join(t, u, v)
			consistent(procA, n, 1, "after evictions")
			vsched.QuietOn()
			for i := 0; i < 2; i++ {
				in(procA, func() {
					if err := call(0, n, bg(), addrs[i]); err != nil {
						vsched.Fail("call after evictions: %v", err)
					}
				})
				consistent(procA, n, 1, "after another call")
			}
			shut(procA, n)
			vsched.QuietOff()
			released(procA, 0, 0, "after Close")
		},
		Quick: mc.Bounds{Cost: 2}, Thorough: mc.Bounds{Cost: 3, Policies: []int{0, 1}}, Native: 4,
	})
	mc.Add(mc.Scenario{
		Prop: "C08", Name: "c08-accept-evicts", Doc: "peers connect at the same time, with a limit of one, and send at once",
		Run: func() {
			var w watch
			var n *noise.Node
			vsched.Quiet(func() { n = watched(procA, &w, limits(1, 1)...) })
			var ts []chan struct{}
			var ps [2]*rawPeer
			for i := 0; i < 2; i++ {
				i := i
				ts = append(ts, spawn(procB+i, func() {
					p, err := rawDial(n.Addr())
					if err != nil {
						vsched.Fail("dial: %v", err)
					}
					defer guard()()
					ps[i] = p
					if p.shake(byte(i+1), rawID(procB+i, uint16(i+1)), key(procB+i)) == nil {
						p.send(0, []byte{byte(i)})
					}
				}))
			}
			ts = append(ts, spawn(procX, func() { never(n, 1) }))
			join(ts...)
			consistent(procA, n, 1, "after concurrent connects")
			if len(n.Inbound()) != 1 {
				vsched.Fail("%d connections are live after two peers connected with a limit of one", len(n.Inbound()))
			}
			last := idName(n.Inbound()[0])
			for i := range ps {
				if last != fmt.Sprintf("P%d", i+1) {
					ps[i].drain() // sees that it was evicted
				}
				ps[i].conn.Close()
			}
			consistent(procA, n, 0, "after the peers are gone")
			if len(w.connected) != len(w.disconnected) {
				vsched.Fail("%d connected, %d disconnected", len(w.connected), len(w.disconnected))
			}
			shut(procA, n)
			released(procA, 0, 0, "after Close")
		},
		Quick: mc.Bounds{Cost: 3}, Thorough: mc.Bounds{Cost: 4, Policies: []int{0, 1}}, Native: 4,
	})
	mc.Add(mc.Scenario{
		Prop: "C08", Name: "c08-evict-stuck", Doc: "the connection to evict hangs in the dial, at a stage of the handshake, in a full write or in its handler; the pool goes on at once",
		Run: func() {
			st := vsched.Pick(stEstablished + 4)
			var n *noise.Node
			var addrs []string
			l, addr := rawListen(procD)
			hold := make(chan struct{})
			vsched.Quiet(func() {
				addrs, _ = rawPeers(1)
				n = node(procA, func(noise.HandlerContext) error { <-hold; return nil }, limits(1, 1)...)
				switch {
				case st < stEstablished:
					rawAccept(procD, l, func(i int, p *rawPeer) { p.upTo(st, 1, rawID(procD, port(l)), key(procD)) })
				case st == stEstablished+1: // does not read
					if vsched.Native {
						vsched.Discard("needs small buffers")
					}
					rawServe(procD, l, func(p *rawPeer) { vnet.Narrow(16) })
				case st == stEstablished+2: // keeps the handler busy
					rawServe(procD, l, func(p *rawPeer) { p.send(0, []byte("hold")) })
				case st == stEstablished+3: // does not even answer the dial
					if vsched.Native {
						vsched.Discard("cannot be had")
					}
					vnet.OnDial(addr, func(int) vnet.Action { return vnet.Hang })
				default:
					rawServe(procD, l, answering)
				}
			})
			ctx, cancel := context.WithCancel(bg())
			t := spawn(procA, func() {
				n.Ping(ctx, addr)
				if st == stEstablished+1 {
					n.Send(ctx, addr, make([]byte, 300))
				}
			})
			vsched.Quiesce()
			before := vsched.Clock()
			u := spawn(procA, func() {
				if data, err := n.Request(bg(), addrs[0], []byte("x")); err != nil || string(data) != "x" {
					vsched.Fail("request to a peer whose connection has to replace another one: %q %v", data, err)
				}
			})
			join(u)
			if vsched.Clock() != before && !vsched.Native {
				vsched.Fail("eviction waited for the evicted connection")
			}
			join(t) // evicted, its call fails
			cancel()
			close(hold)
			consistent(procA, n, 1, "after an eviction")
			if o := n.Outbound(); len(o) != 1 {
				vsched.Fail("%d connections are live", len(o))
			}
			shut(procA, n)
			released(procA, 0, 0, "after Close")
			l.Close()
		},
		Quick: mc.Bounds{Cost: 2}, Thorough: mc.Bounds{Cost: 3, Policies: []int{0, 1}}, Native: 6,
	})
	mc.Add(mc.Scenario{
		Prop: "C08", Name: "c08-evict-during", Doc: "the connection to evict is closed, cut, used or its node closed at the same moment",
		Run: func() {
			what := vsched.Pick(5)
			var n *noise.Node
			var addrs []string
			var c *noise.Client
			var ps []*rawPeer
			vsched.Quiet(func() {
				addrs, _ = rawPeers(1)
				l, addr := rawListen(procD)
				rawServe(procD, l, func(p *rawPeer) { ps = append(ps, p); answering(p) })
				addrs = append(addrs, addr)
				n = node(procA, nil, limits(1, 1)...)
				c = connect(procA, n, addr)
				vsched.Quiesce()
			})
			t := spawn(procA, func() {
				switch what {
				case 0:
					c.Close()
				case 1:
					ps[0].conn.Close()
				case 2:
					n.Send(bg(), addrs[1], []byte("x"))
				case 3:
					n.Request(bg(), addrs[1], []byte("x"))
				case 4:
					n.Close()
				}
			})
			u := spawn(procA, func() { n.Ping(bg(), addrs[0]) })
			v := spawn(procX, func() { never(n, 1) })
			join(t, u, v)
			if what != 4 {
				consistent(procA, n, 1, "after an eviction")
				shut(procA, n)
			}
			released(procA, 0, 0, "after Close")
		},
		Quick: mc.Bounds{Cost: 2}, Thorough: mc.Bounds{Cost: 3, Policies: []int{0, 1}}, Native: 5,
	})
	mc.Add(mc.Scenario{
		Prop: "C08", Name: "c08-different-limits", Doc: "different limits for inbound and outbound connections are each kept",
		Run: func() {
			k := [][2]int{{1, 3}, {3, 1}, {1, 2}, {2, 1}, {2, 3}, {3, 2}}[vsched.Pick(6)]
			side := vsched.Pick(2)
			defer vsched.QuietOff()
			vsched.QuietOn()
			n := node(procA, nil, limits(uint(k[0]), uint(k[1]))...)
			if side == 0 {
				for i := 1; i <= 4; i++ {
					p, err := rawDial(n.Addr())
					must(err)
					must(p.shake(byte(i), rawID(procB, uint16(i)), key(procB)))
					vsched.Settle()
					if got, want := len(n.Inbound()), min(i, k[0]); got != want {
						vsched.Fail("inbound: the pool has %d connections instead of %d (inbound limit %d, outbound limit %d)", got, want, k[0], k[1])
					}
				}
				return
			}
			addrs, _ := rawPeers(4)
			for i, addr := range addrs {
				connect(procA, n, addr)
				vsched.Settle()
				if got, want := len(n.Outbound()), min(i+1, k[1]); got != want {
					if want < got {
						vsched.Fail("outbound: the pool is bounded by the limit for inbound connections: more than its own are live")
					}
					vsched.Fail("outbound: the pool is bounded by the limit for inbound connections: fewer than its own are live")
				}
			}
		},
		Quick: mc.Bounds{Cost: 0}, Native: 0,
	})
	mc.Add(mc.Scenario{
		Prop: "C08", Name: "c08-hook-under-way", Doc: "a connection is evicted while a connect or disconnect hook, a handler or the received hook of its own is still at work: the newcomer is served all the same, and the hook may list the connections",
		Run: func() {
			where := vsched.Pick(4) // the hook that takes its time
			outbound := vsched.Pick(2) == 1
			lists := vsched.Pick(2) == 1
			lim := 1 + vsched.Pick(2)
			hold := make(chan struct{})
			var n *noise.Node
			var first *noise.Client
			busy := func(at int, c *noise.Client) {
				g := guard()
				if first == nil {
					first = c
				}
				mine := first == c && at == where
				g()
				if !mine {
					return
				}
				if lists {
					n.Inbound()
					n.Outbound()
				}
				<-hold
			}
			var addrs []string
			vsched.Quiet(func() {
				n = newNode(procA, append(limits(uint(lim), uint(lim)), noise.WithNodeNumWorkers(2), noise.WithNodeMaxDialAttempts(1))...)
				n.Bind(noise.Protocol{
					OnPeerConnected:    func(c *noise.Client) { busy(0, c) },
					OnPeerDisconnected: func(c *noise.Client) { busy(1, c) },
					OnMessageRecv:      func(c *noise.Client) { busy(2, c) },
				})
				n.Handle(func(ctx noise.HandlerContext) error {
					g := guard()
					mine := where == 3 && string(ctx.Data()) == "first"
					g()
					if mine {
						if lists {
							n.Inbound()
							n.Outbound()
						}
						<-hold
					}
					return ctx.Send([]byte("re:x"))
				})
				listen(procA, n)
				for i := 0; i < 3; i++ {
					l, addr := rawListen(procB)
					addrs = append(addrs, addr)
					i := i
					rawServe(procB, l, func(p *rawPeer) {
						if i == 0 && where > 1 {
							p.send(0, []byte("first")) //nolint
						}
						answering(p)
					})
				}
			})
			var ps []*rawPeer
			var pinging chan struct{}
			if outbound {
				pinging = spawn(procA, func() { n.Ping(bg(), addrs[0]) })
			} else {
				p, err := rawDial(n.Addr())
				must(err)
				must(p.shake(1, rawID(procB, 1), key(procB)))
				if where > 1 {
					must(p.send(0, []byte("first")))
				}
				ps = append(ps, p)
			}
			vsched.Quiesce()
			if lim == 2 { // another one, more recently used
				vsched.Quiet(func() {
					if outbound {
						connect(procA, n, addrs[2])
					} else {
						p, err := rawDial(n.Addr())
						must(err)
						must(p.shake(3, rawID(procD, 3), key(procD)))
						ps = append(ps, p)
					}
					vsched.Quiesce()
				})
			}
			if outbound {
				join(spawn(procA, func() {
					if d, err := n.Request(bg(), addrs[1], []byte("q")); err != nil || len(d) == 0 {
						vsched.Fail("the newcomer is asked: %q %v", d, err)
					}
				}))
			} else {
				join(spawn(procC, func() {
					p, err := rawDial(n.Addr())
					must(err)
					if err := p.shake(2, rawID(procC, 2), key(procC)); err != nil {
						vsched.Fail("the newcomer's handshake: %v", err)
					}
					p.send(7, []byte("q")) //nolint
					if k, d, err := p.recv(); err != nil || k != 7 || string(d) != "re:x" {
						vsched.Fail("the newcomer asks: %d %q %v", k, d, err)
					}
					ps = append(ps, p)
				}))
			}
			vsched.Quiesce()
			if k := len(n.Inbound()) + len(n.Outbound()); k != lim {
				vsched.Fail("%d connections are listed instead of %d", k, lim)
			}
			close(hold)
			if pinging != nil {
				join(pinging)
			}
			for _, p := range ps {
				p.conn.Close()
			}
			shut(procA, n)
			released(procA, 0, 0, "after Close")
		},
		Quick: mc.Bounds{Cost: 1}, Thorough: mc.Bounds{Cost: 2, Policies: []int{0, 1}}, Native: 4,
	})
	mc.Add(mc.Scenario{
		Prop: "C08", Name: "c08-default-limits", Doc: "limits that are left out or given as zero are 128: the 129th and the 130th connection, in either direction, take the places of the first two",
		Run: func() {
			const limit = 128
			side := vsched.Pick(2)
			opts := [][]noise.NodeOption{nil, limits(0, 0)}[vsched.Pick(2)]
			defer vsched.QuietOff()
			vsched.QuietOn()
			n := newNode(procA, append(opts, noise.WithNodeMaxDialAttempts(1))...)
			listen(procA, n)
			all := n.Inbound
			var addrs []string
			if side == 1 {
				all = n.Outbound
				for i := 0; i < limit+2; i++ {
					l, addr := rawListen(procB)
					rawServe(procB, l, answering)
					addrs = append(addrs, addr)
				}
			}
			var conns []*noise.Client // in the order in which they were made
			for i := 0; i < limit+2; i++ {
				if side == 0 {
					p, err := rawDial(n.Addr())
					must(err)
					must(p.shake(byte(i), rawID(procB, uint16(i+1)), key(procB)))
				} else {
					connect(procA, n, addrs[i])
				}
				vsched.Settle()
				now := all()
				conns = append(conns, now[0])
				if len(now) != min(i+1, limit) {
					vsched.Fail("%d connections after %d were made", len(now), i+1)
				}
				for k, c := range now {
					if want := conns[len(conns)-1-k]; c != want {
						vsched.Fail("place %d after %d connections were made is taken by another connection than expected", k, i+1)
					}
				}
			}
			shut(procA, n)
		},
		Quick: mc.Bounds{Cost: 0}, MaxSteps: 2000000, Native: 0,
	})
}

var (
	_ net.Conn
	_ = strings.Join
	_ = time.Second
)
