package main

import (
	"fmt"

	"github.com/perlin-network/noise"
	"verif.local/rt/mc"
	"verif.local/rt/vnet"
	"verif.local/rt/vsched"
)

// server is a peer that speaks the protocol by hand and counts its connections.
type server struct {
	addr     string
	name     string
	accepted int
	peers    []*rawPeer
}

func serve(g int) *server {
	l, addr := rawListen(g)
	s := &server{addr: addr, name: fmt.Sprintf("P%d", port(l))}
	rawAccept(g, l, func(i int, p *rawPeer) {
		u := guard()
		s.accepted++
		u()
		if p.shake(byte(0x40+i), rawID(g, port(l)), key(g)) != nil {
			p.conn.Close()
			return
		}
		u = guard()
		s.peers = append(s.peers, p)
		u()
		answering(p)
	})
	return s
}

// dials checks how often s has been dialled.
func (s *server) dials(want int, when string) {
	vsched.Settle()
	defer guard()()
	if s.accepted != want {
		vsched.Fail("%s %d connections were made to one address instead of %d", when, s.accepted, want)
	}
	if vsched.Native {
		return
	}
	n := 0
	for _, d := range vnet.Dials() {
		if d == s.addr {
			n++
		}
	}
	if n != want {
		vsched.Fail("%s the address was dialled %d times instead of %d", when, n, want)
	}
}

func init() {
	mc.Add(mc.Scenario{
		Prop: "C09", Name: "c09-concurrent", Doc: "two or three threads call one address at once, all kinds of calls, with nothing connected",
		Run: func() {
			k := 2 + vsched.Pick(2)
			var ops [3]int
			for i := 0; i < k; i++ {
				ops[i] = vsched.Pick(3)
				if i > 0 && ops[i] < ops[i-1] {
					vsched.Discard("symmetric")
				}
			}
			var n *noise.Node
			var s *server
			vsched.Quiet(func() {
				s = serve(procB)
				n = node(procA, nil, noise.WithNodeMaxDialAttempts(1))
			})
			var ts []chan struct{}
			var clients [3]*noise.Client
			for i := 0; i < k; i++ {
				i := i
				ts = append(ts, spawn(procA, func() {
					if ops[i] < 2 {
						if err := call(ops[i], n, bg(), s.addr); err != nil {
							vsched.Fail("call: %v", err)
						}
						return
					}
					c, err := n.Ping(bg(), s.addr)
					if err != nil {
						vsched.Fail("ping: %v", err)
					}
					clients[i] = c
				}))
			}
			join(ts...)
			s.dials(1, "after concurrent calls")
			o := n.Outbound()
			if len(o) != 1 {
				vsched.Fail("%d connections are listed", len(o))
			}
			for _, c := range clients {
				if c != nil && c != o[0] {
					vsched.Fail("ping returned a connection that is not the one listed")
				}
			}
			consistent(procA, n, 1, "after concurrent calls")
		},
		Quick: mc.Bounds{Cost: 1}, Thorough: mc.Bounds{Cost: 2, Policies: []int{0, 1}}, Native: 6,
	})
	hist := func(name string, depth int, thorough bool) {
		mc.Add(mc.Scenario{
			Prop: "C09", Name: name, Doc: fmt.Sprintf("all sequences of %d calls and disconnections from either side over two addresses", depth),
			Run: func() {
				defer vsched.QuietOff()
				vsched.QuietOn()
				ss := []*server{serve(procB), serve(procC)}
				n := node(procA, nil, noise.WithNodeMaxDialAttempts(1))
				live := []bool{false, false}
				dials := []int{0, 0}
				for d := 0; d < depth; d++ {
					i := vsched.Pick(2)
					op := vsched.Pick(6)
					when := fmt.Sprintf("after %d steps", d+1)
					if op > 2 && !live[i] {
						vsched.Discard("not connected")
					}
					var c *noise.Client
					for _, o := range n.Outbound() {
						if idName(o) == ss[i].name {
							c = o
						}
					}
					switch op {
					case 0, 1, 2:
						if !live[i] {
							live[i] = true
							dials[i]++
						}
						in(procA, func() {
							if err := call(op, n, bg(), ss[i].addr); err != nil {
								vsched.Fail("%s: call: %v", when, err)
							}
						})
					case 3: // and nothing to wait for but the signal
						c.Close()
						c.WaitUntilClosed()
						live[i] = false
					case 4:
						ss[i].peers[len(ss[i].peers)-1].conn.Close()
						c.WaitUntilClosed()
						live[i] = false
					case 5: // a message that cannot be decrypted
						ss[i].peers[len(ss[i].peers)-1].writeFrame(make([]byte, 40))
						c.WaitUntilClosed()
						live[i] = false
					}
					for j, s := range ss {
						s.dials(dials[j], when)
					}
					want := 0
					for j := range live {
						if live[j] {
							want++
						}
					}
					o := n.Outbound()
					if len(o) != want {
						vsched.Fail("%s %d connections are listed instead of %d", when, len(o), want)
					}
					for _, c := range o {
						if (idName(c) == ss[0].name && !live[0]) || (idName(c) == ss[1].name && !live[1]) {
							vsched.Fail("%s the connection listed is not the live one", when)
						}
					}
					consistent(procA, n, 2, when)
				}
			},
			Quick: mc.Bounds{Cost: 0}, Thorough: mc.Bounds{Cost: 0, Policies: []int{0, 1}}, Native: 6, MaxSteps: 100000, ThoroughOnly: thorough,
		})
	}
	hist("c09-history", 4, false)
	hist("c09-history-deep", 6, true)
	mc.Add(mc.Scenario{
		Prop: "C09", Name: "c09-disconnecting", Doc: "two threads call an address whose connection is just being closed, by either side, or cut; what follows finds one live connection or makes one",
		Run: func() {
			what := vsched.Pick(3)
			op := vsched.Pick(3)
			var n *noise.Node
			var s *server
			var c *noise.Client
			vsched.Quiet(func() {
				s = serve(procB)
				n = node(procA, nil, noise.WithNodeMaxDialAttempts(2))
				c = connect(procA, n, s.addr)
				vsched.Quiesce()
			})
			t := spawn(procA, func() { call(op, n, bg(), s.addr) })
			u := spawn(procA, func() { call((op+1)%3, n, bg(), s.addr) })
			switch what {
			case 0:
				in(procA, c.Close)
			case 1:
				s.peers[0].conn.Close()
			case 2:
				s.peers[0].writeFrame(make([]byte, 40))
			}
			join(t, u)
			c.WaitUntilClosed()
			before := s.accepted
			if before > 2 {
				vsched.Fail("%d connections were made by two callers and one disconnection", before)
			}
			vsched.Settle()
			if before = s.accepted; before == 2 {
				vsched.Fact("redialled by a concurrent call")
			}
			in(procA, func() {
				for i := 0; i < 3; i++ {
					if err := call(i, n, bg(), s.addr); err != nil {
						vsched.Fail("call after the disconnection: %v", err)
					}
				}
			})
			s.dials(2, "after the disconnection")
			if len(n.Outbound()) != 1 || n.Outbound()[0] == c {
				vsched.Fail("the new connection is not the one listed")
			}
			consistent(procA, n, 1, "after the disconnection")
		},
		Quick: mc.Bounds{Cost: 1}, Thorough: mc.Bounds{Cost: 2, Policies: []int{0, 1}}, Native: 6,
	})
	mc.Add(mc.Scenario{
		Prop: "C09", Name: "c09-evicted", Doc: "a connection is evicted by a call to another address while its own address is called again by one or two threads: the connection that follows is the one that is listed and used",
		Run: func() {
			threads := 1 + vsched.Pick(2)
			var n *noise.Node
			var s, o *server
			vsched.Quiet(func() {
				s, o = serve(procB), serve(procC)
				n = node(procA, nil, noise.WithNodeMaxOutboundConnections(1), noise.WithNodeMaxInboundConnections(1))
				connect(procA, n, s.addr)
			})
			ts := []chan struct{}{spawn(procA, func() { call(2, n, bg(), o.addr); call(2, n, bg(), s.addr) })}
			for i := 1; i < threads; i++ {
				ts = append(ts, spawn(procA, func() { call(2, n, bg(), s.addr) }))
			}
			join(ts...)
			vsched.Settle()
			vsched.QuietOn()
			in(procA, func() {
				if _, err := n.Ping(bg(), s.addr); err != nil {
					vsched.Fail("a call after an eviction: %v", err)
				}
			})
			vsched.Settle()
			consistent(procA, n, 1, "after an eviction")
			u := guard()
			before := s.accepted
			u()
			o1 := n.Outbound()
			in(procA, func() {
				c, err := n.Ping(bg(), s.addr)
				if err != nil || len(o1) != 1 || c != o1[0] {
					vsched.Fail("a call does not use the live connection that is listed (%d are): %v", len(o1), err)
				}
				for op := 0; op < 2; op++ {
					if err := call(op, n, bg(), s.addr); err != nil {
						vsched.Fail("a call over the live connection: %v", err)
					}
				}
			})
			s.dials(before, "over a live connection")
			vsched.QuietOff()
		},
		Quick: mc.Bounds{Cost: 2}, Thorough: mc.Bounds{Cost: 3, Policies: []int{0, 1}}, Native: 4,
	})
	mc.Add(mc.Scenario{
		Prop: "C09", Name: "c09-first-attempt-fails", Doc: "three callers share a first connection that is refused or dropped in the handshake, and a second one that is not",
		Run: func() {
			how := vsched.Pick(3)
			var n *noise.Node
			l, addr := rawListen(procB)
			count := 0
			vsched.Quiet(func() {
				if !vsched.Native && how == 2 {
					vnet.OnDial(addr, func(i int) vnet.Action {
						if i == 0 {
							return vnet.Refuse
						}
						return vnet.Connect
					})
				}
				rawAccept(procB, l, func(i int, p *rawPeer) {
					u := guard()
					count++
					u()
					if i == 0 && how < 2 {
						p.upTo([]int{stNothing, stProof}[how], 1, rawID(procC, 1), key(procB))
						p.conn.Close()
						return
					}
					if p.shake(byte(0x40+i), rawID(procB, port(l)), key(procB)) == nil {
						answering(p)
					}
				})
				n = node(procA, nil, noise.WithNodeMaxDialAttempts(2))
			})
			var ts []chan struct{}
			for i := 0; i < 2; i++ {
				i := i
				ts = append(ts, spawn(procA, func() {
					if err := call(i*2, n, bg(), addr); err != nil {
						vsched.Fail("call with two attempts, the second of which was accepted: %v", err)
					}
				}))
			}
			join(ts...)
			vsched.Settle()
			want := 2
			if how == 2 {
				want = 1
			}
			if count != want && !(vsched.Native && how == 2) {
				vsched.Fail("%d connections were made", count)
			}
			consistent(procA, n, 1, "after retrying")
		},
		Quick: mc.Bounds{Cost: 2}, Thorough: mc.Bounds{Cost: 3, Policies: []int{0, 1}}, Native: 3,
	})
	mc.Add(mc.Scenario{
		Prop: "C09", Name: "c09-each-other", Doc: "two nodes call each other at the same time: each uses the one connection it dialled",
		Run: func() {
			var a, b *noise.Node
			vsched.Quiet(func() {
				a = node(procA, echo, noise.WithNodeMaxDialAttempts(1))
				b = node(procB, echo, noise.WithNodeMaxDialAttempts(1))
			})
			t := spawn(procA, func() {
				join(ask(procA, a, b.Addr(), "one", "re:one"))
				join(ask(procA, a, b.Addr(), "two", "re:two"))
			})
			u := spawn(procB, func() {
				join(ask(procB, b, a.Addr(), "three", "re:three"))
				if err := b.Send(bg(), a.Addr(), []byte("x")); err != nil {
					vsched.Fail("send: %v", err)
				}
			})
			join(t, u)
			consistent(procA, a, 1, "after calling each other")
			consistent(procB, b, 1, "after calling each other")
			if len(a.Outbound()) != 1 || len(a.Inbound()) != 1 || len(b.Outbound()) != 1 || len(b.Inbound()) != 1 {
				vsched.Fail("%d/%d and %d/%d connections are listed", len(a.Outbound()), len(a.Inbound()), len(b.Outbound()), len(b.Inbound()))
			}
		},
		Quick: mc.Bounds{Cost: 1}, Thorough: mc.Bounds{Cost: 2, Policies: []int{0, 1}}, Native: 3,
	})
}
