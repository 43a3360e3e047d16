package main

import (
	"fmt"
	"time"

	"github.com/perlin-network/noise"
	"verif.local/rt/mc"
	"verif.local/rt/vnet"
	"verif.local/rt/vsched"
)

// Nothing in these scenarios has to wait for a timer: the clock only moves on when nothing else can happen, so that
// whatever was held up by a peer, a connection or a handler ends late, or never.

// prompt checks that no time has passed.
func prompt(what string) {
	if vsched.Native {
		return
	}
	if c := vsched.Clock(); c != 0 {
		vsched.Fail("%s was held up for %v", what, time.Duration(c))
	}
}

// served has node n, of process g, ask the node at addr, which has to answer at once.
func served(g int, n *noise.Node, addr, what string) {
	join(spawn(g, func() {
		got, err := n.Request(timeout(time.Hour), addr, []byte("hi"))
		if err != nil || string(got) != "re:hi" {
			vsched.Fail("%s: %q %v", what, got, err)
		}
		prompt(what)
	}))
}

// stallsAt are the stages at which peers stop taking part.
var stallsAt = []int{stNothing, stHalfHello, stHello, stReadHello, stSession, stHalfProof, stProof, stReadProof, stEstablished}

// stall has p stop at a stage, or in the middle of a message.
func stall(p *rawPeer, i int, seed byte, g int) {
	if i < len(stallsAt) {
		p.upTo(stallsAt[i], seed, rawID(g, uint16(7000+int(seed))), key(g))
		return
	}
	if p.shake(seed, rawID(g, uint16(7000+int(seed))), key(g)) != nil {
		return
	}
	m := frame(p.seal(append(make([]byte, 8), "never ends"...)))
	p.writeRaw(m[:[]int{2, 4, 20}[i-len(stallsAt)]])
}

const numStalls = 12

func stallName(i int) string {
	if i < len(stallsAt) {
		return stageNames[stallsAt[i]]
	}
	return fmt.Sprintf("part %d of a message", i-len(stallsAt))
}

func init() {
	for _, fixed := range []bool{true, false} {
		fixed := fixed
		name, doc := "c29-stalled-remotes", "two remotes have connected and stopped at any two points of the handshake or in a message; a peer that is connected, one that connects and one that is dialled exchange requests, with or without an idle timeout"
		q, t := mc.Bounds{Cost: 0, Policies: []int{0, 1}}, mc.Bounds{Cost: 0, Policies: []int{0, 1, 2}}
		if !fixed {
			name, doc = "c29-stalling-remote", "a remote stops at any point while a peer connects and exchanges requests"
			q, t = mc.Bounds{Cost: 2, Policies: []int{0, 1}}, mc.Bounds{Cost: 3, Policies: []int{0, 1}, Weight: 4}
		}
		mc.Add(mc.Scenario{
			Prop: "C29", Name: name, Doc: doc,
			Run: func() {
				var a, b, d *noise.Node
				s1 := vsched.Pick(numStalls)
				s2 := -1
				var opts []noise.NodeOption
				if fixed {
					s2 = vsched.Pick(numStalls)
					if vsched.Pick(2) == 1 {
						opts = append(opts, noise.WithNodeIdleTimeout(time.Minute))
					}
				}
				vsched.QuietOn()
				b = node(procB, echo, opts...)
				a = node(procA, echo)
				d = node(procD, echo)
				if fixed {
					connect(procA, a, b.Addr())
				}
				vsched.Quiesce()
				if !fixed {
					vsched.QuietOff()
				}
				go1 := spawn(procC, func() {
					for i, s := range []int{s1, s2} {
						if s < 0 {
							continue
						}
						p, err := rawDial(b.Addr())
						must(err)
						stall(p, s, byte(i+1), procC)
					}
				})
				what := "after a remote stopped at " + stallName(s1)
				if fixed {
					join(go1)
					vsched.Quiesce()
					what += " and another one at " + stallName(s2)
					served(procA, a, b.Addr(), what+": a peer connected before asking")
					served(procB, b, a.Addr(), what+": asking a peer that is dialled")
				}
				served(procD, d, b.Addr(), what+": a new peer asking")
				if !fixed {
					join(go1)
				}
				prompt(what)
			},
			Quick: q, Thorough: t,
		})
	}

	mc.Add(mc.Scenario{
		Prop: "C29", Name: "c29-stalled-address", Doc: "an address that does not answer the dial, or a peer that stops at any point of the handshake, is called while another peer, connected or not, is called, listed and asks back",
		Run: func() {
			kind := vsched.Pick(len(stallsAt)) // the first: does not answer the dial
			op := vsched.Pick(3)
			connected := vsched.Pick(2) == 1
			late := vsched.Pick(2) == 1
			var a, b *noise.Node
			addr := "127.0.0.1:7777"
			vsched.QuietOn()
			a = node(procA, echo)
			b = node(procB, echo)
			if connected {
				connect(procA, a, b.Addr())
				vsched.Quiesce()
			}
			if kind == 0 {
				vnet.OnDial(addr, func(int) vnet.Action { return vnet.Hang })
			} else {
				l, ad := rawListen(procC)
				addr = ad
				rawAccept(procC, l, func(i int, p *rawPeer) {
					p.upTo(stallsAt[kind-1], byte(i+1), rawID(procC, 1), key(procC))
				})
			}
			vsched.QuietOff()
			what := "while an address does not answer the dial"
			if kind > 0 {
				what = "while a peer that stopped at " + stageNames[stallsAt[kind-1]] + " is called"
			}
			spawn(procA, func() {
				switch op {
				case 0:
					a.Send(timeout(time.Hour), addr, []byte("x"))
				case 1:
					a.Request(timeout(time.Hour), addr, []byte("x"))
				case 2:
					a.Ping(timeout(time.Hour), addr)
				}
			})
			if late {
				vsched.Quiesce()
			}
			served(procA, a, b.Addr(), what+": asking another peer")
			join(spawn(procA, func() {
				found := false
				for _, c := range a.Outbound() {
					if c.ID().Address == b.ID().Address {
						found = true
					}
				}
				if !found {
					vsched.Fail("%s: the connection to another peer is not listed", what)
				}
				if err := a.Send(timeout(time.Hour), b.Addr(), []byte("y")); err != nil {
					vsched.Fail("%s: sending to another peer: %v", what, err)
				}
				prompt(what + ": listing connections and sending")
			}))
			served(procB, b, a.Addr(), what+": answering another peer")
		},
		Quick: mc.Bounds{Cost: 1, Policies: []int{0}}, Thorough: mc.Bounds{Cost: 2, Policies: []int{0}, Weight: 2}, StmtsThorough: true,
	})

	mc.Add(mc.Scenario{
		Prop: "C29", Name: "c29-unread", Doc: "a peer, dialled or dialling, reads nothing of what is sent to it, or of the answers to its requests; other peers are called and served",
		Run: func() {
			inbound := vsched.Pick(2) == 1
			asks := vsched.Pick(2) == 1
			var a, b *noise.Node
			var addr string
			vsched.QuietOn()
			a = node(procA, func(ctx noise.HandlerContext) error {
				if ctx.IsRequest() {
					return ctx.Send(append([]byte("re:"), ctx.Data()...))
				}
				return ctx.Send(make([]byte, 200))
			})
			b = node(procB, echo)
			connect(procA, a, b.Addr())
			vsched.Quiesce()
			vnet.SetBuffer(300)
			var raw *rawPeer
			if inbound {
				raw = dialShake(a.Addr(), 1, procC, 7)
			} else {
				l, ad := rawListen(procC)
				addr = ad
				rawServe(procC, l, func(p *rawPeer) { raw = p })
				connect(procA, a, addr)
			}
			vsched.Quiesce()
			vsched.QuietOff()
			send := spawn(procC, func() {
				if asks || inbound {
					for i := 0; i < 4; i++ {
						n := uint64(0)
						if asks {
							n = uint64(i + 100)
						}
						raw.send(n, make([]byte, 100))
					}
				}
			})
			own := spawn(procA, func() {
				if !inbound {
					for i := 0; i < 4; i++ {
						a.Send(bg(), addr, make([]byte, 200))
					}
				}
			})
			vsched.Quiesce()
			what := "while a peer does not read"
			served(procA, a, b.Addr(), what+": asking another peer")
			served(procB, b, a.Addr(), what+": answering another peer")
			join(spawn(procA, func() { a.Outbound(); a.Inbound() }))
			prompt(what + ": listing connections")
			join(send, own)
		},
		Quick: mc.Bounds{Cost: 2, Policies: []int{0}}, Thorough: mc.Bounds{Cost: 3, Policies: []int{0, 1}},
	})

	mc.Add(mc.Scenario{
		Prop: "C29", Name: "c29-blocked-handler", Doc: "one of two workers is busy with a message, handled by a handler that waits, sends or asks; messages of the same peer and of others are handled, and answers to own requests arrive",
		Run: func() {
			where := vsched.Pick(3)
			var a, b, d *noise.Node
			var bAddr string
			gate := make(chan struct{})
			vsched.QuietOn()
			d = node(procD, echo)
			b = newNode(procB, noise.WithNodeNumWorkers(2))
			b.Handle(func(ctx noise.HandlerContext) error {
				if string(ctx.Data()) == "block" {
					<-gate
				}
				return echo(ctx)
			})
			listen(procB, b)
			a = node(procA, echo)
			bAddr = b.Addr()
			connect(procA, a, bAddr)
			if where > 0 {
				connect(procD, d, bAddr)
			}
			vsched.Quiesce()
			vsched.QuietOff()
			blocked := spawn(procA, func() {
				if where == 2 {
					must(a.Send(bg(), bAddr, []byte("block")))
					return
				}
				got, err := a.Request(timeout(time.Hour), bAddr, []byte("block"))
				if err != nil || string(got) != "re:block" {
					vsched.Fail("a request whose handler took its time: %q %v", got, err)
				}
			})
			what := "while a handler is busy"
			if where != 1 {
				vsched.Quiesce()
			}
			served(procA, a, bAddr, what+": asking on the same connection")
			served(procD, d, bAddr, what+": asking on another connection")
			served(procB, b, d.Addr(), what+": the answer to a request of the node itself")
			close(gate)
			join(blocked)
			prompt(what)
		},
		Quick: mc.Bounds{Cost: 2, Policies: []int{0, 1}}, Thorough: mc.Bounds{Cost: 3, Policies: []int{0, 1}},
	})

	mc.Add(mc.Scenario{
		Prop: "C29", Name: "c29-asking-back", Doc: "two nodes with a worker each, which ask one another from within their handlers, on one connection or two, once or twice at a time",
		Run: func() {
			both := vsched.Pick(2) == 1
			twice := vsched.Pick(2) == 1
			ns := make([]*noise.Node, 2)
			addrs := make([]string, 2)
			vsched.QuietOn()
			for i, g := range []int{procA, procB} {
				i := i
				ns[i] = newNode(g)
				ns[i].Handle(func(ctx noise.HandlerContext) error {
					if string(ctx.Data()) != "deep" {
						return echo(ctx)
					}
					got, err := ns[i].Request(timeout(time.Hour), addrs[2-1-i], []byte("x"))
					if err != nil || string(got) != "re:x" {
						vsched.Fail("a request made by a handler: %q %v", got, err)
					}
					return echo(ctx)
				})
				listen(g, ns[i])
				addrs[i] = ns[i].Addr()
			}
			connect(procA, ns[0], addrs[1])
			if both {
				connect(procB, ns[1], addrs[0])
			}
			vsched.Quiesce()
			vsched.QuietOff()
			ask := func() {
				got, err := ns[0].Request(timeout(time.Hour), addrs[1], []byte("deep"))
				if err != nil || string(got) != "re:deep" {
					vsched.Fail("a request whose handler asks back: %q %v", got, err)
				}
			}
			ds := []chan struct{}{spawn(procA, ask)}
			if twice {
				ds = append(ds, spawn(procA, ask))
			}
			join(ds...)
			prompt("asking back")
		},
		Quick: mc.Bounds{Cost: 2, Policies: []int{0, 1}}, Thorough: mc.Bounds{Cost: 3, Policies: []int{0, 1}},
	})

	mc.Add(mc.Scenario{
		Prop: "C29", Name: "c29-full-of-stalled", Doc: "the pool is full of connections that do not answer the dial, stop in the handshake or are not read from; another peer is called, or connects, at once",
		Run: func() {
			inbound := vsched.Pick(2) == 1
			k := vsched.Pick(numStalls)
			limit := 1 + vsched.Pick(2)
			vsched.QuietOn()
			b := node(procB, echo, noise.WithNodeMaxInboundConnections(uint(limit)), noise.WithNodeMaxOutboundConnections(uint(limit)), noise.WithNodeMaxDialAttempts(1))
			a := node(procA, echo)
			what := "with a pool full of peers that stopped at " + stallName(k)
			if inbound {
				for i := 0; i < limit; i++ {
					p, err := rawDial(b.Addr())
					must(err)
					stall(p, k, byte(i+1), procC)
				}
				vsched.Quiesce()
				vsched.QuietOff()
				served(procA, a, b.Addr(), what+": a new peer asking")
				return
			}
			for i := 0; i < limit; i++ {
				l, addr := rawListen(procC)
				i := i
				rawAccept(procC, l, func(j int, p *rawPeer) { stall(p, k, byte(10*i+j+1), procC) })
				spawn(procB, func() { b.Send(timeout(time.Hour), addr, make([]byte, 50)) })
			}
			vsched.Quiesce()
			vsched.QuietOff()
			served(procB, b, a.Addr(), what+": asking another peer")
		},
		Quick: mc.Bounds{Cost: 2, Policies: []int{0}}, Thorough: mc.Bounds{Cost: 3, Policies: []int{0}},
	})

	mc.Add(mc.Scenario{
		Prop: "C29", Name: "c29-gossip", Doc: "one or two known peers do not answer the dial or stop in the handshake while gossip is pushed by, or passes through, a node with one or two workers; it reaches the others and the node serves them at once",
		Run: func() {
			k := vsched.Pick(len(stallsAt)) // the first: does not answer the dial
			workers := 1 + vsched.Pick(2)
			through := vsched.Pick(2) == 1
			vsched.QuietOn()
			a := newHub(procA, noise.WithNodeNumWorkers(uint(workers)))
			b := newHub(procB)
			d := newHub(procD)
			for _, h := range []*hub{b, d} {
				connect(procA, a.n, h.n.Addr())
			}
			for i := 0; i < 2; i++ {
				var id noise.ID
				if k == 0 {
					id = rawIDOf(keyFrom(1000+i), uint16(7700+i))
					vnet.OnDial(id.Address, func(int) vnet.Action { return vnet.Hang })
				} else {
					l, _ := rawListen(procC)
					id = rawIDOf(keyFrom(1000+i), port(l))
					rawAccept(procC, l, func(j int, p *rawPeer) {
						p.upTo(stallsAt[k-1], byte(20*i+j+1), id, keyFrom(1000+i)) //nolint
					})
				}
				in(procA, func() { a.k.Ack(id) })
			}
			vsched.Quiesce()
			vsched.QuietOff()
			from := a
			g := procA
			if through {
				from, g = b, procB
			}
			for i := 0; i < workers+1; i++ {
				i := i
				spawn(g, func() { from.g.Push(bg(), rumour(i+1)) })
			}
			vsched.Quiesce()
			what := "while gossip goes to a peer that does not answer the dial"
			if k > 0 {
				what = "while gossip goes to a peer that stopped at " + stageNames[stallsAt[k-1]]
			}
			for i := 0; i < workers+1; i++ {
				if n := d.got[string(rumour(i+1))]; n != 1 {
					vsched.Fail("%s: another peer was notified %d times instead of once", what, n)
				}
			}
			for _, h := range []*hub{b, d} {
				h := h
				join(spawn(procB, func() {
					got, err := h.n.Request(timeout(time.Hour), a.n.Addr(), []byte("q:"))
					if err != nil || string(got) != "a:q:" {
						vsched.Fail("%s: a peer asking: %q %v", what, got, err)
					}
					prompt(what + ": a peer asking")
				}))
			}
		},
		Quick: mc.Bounds{Cost: 0, Policies: []int{0, 1}}, Thorough: mc.Bounds{Cost: 1, Policies: []int{0, 1}},
	})
}
