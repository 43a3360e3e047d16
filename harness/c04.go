package main

import (
	"bytes"
	"context"
	"fmt"
	"net"
	"time"

	"github.com/perlin-network/noise"
	"verif.local/rt/mc"
	"verif.local/rt/vnet"
	"verif.local/rt/vsched"
)

// watch records what a node reports to its user.
type watch struct {
	connected, disconnected []*noise.Client
	ids                     []noise.ID
	events                  []string
	sent, recv              int
	failed                  []string
	handled                 []string
	handledBy               []noise.ID
	ctx                     noise.HandlerContext // of the last plain message
}

func (w *watch) protocol() noise.Protocol {
	return noise.Protocol{
		OnPeerConnected: func(c *noise.Client) {
			defer guard()()
			vsched.Mark()
			w.connected = append(w.connected, c)
			w.ids = append(w.ids, c.ID())
		},
		OnPeerDisconnected: func(c *noise.Client) {
			defer guard()()
			vsched.Mark()
			w.disconnected = append(w.disconnected, c)
		},
		OnPingFailed: func(addr string, err error) {
			defer guard()()
			vsched.Mark()
			w.failed = append(w.failed, addr)
		},
		OnMessageSent: func(c *noise.Client) { defer guard()(); w.sent++ },
		OnMessageRecv: func(c *noise.Client) { defer guard()(); w.recv++ },
	}
}

func (w *watch) handle(ctx noise.HandlerContext) error {
	func() {
		defer guard()()
		vsched.Mark()
		d := string(ctx.Data())
		w.handled = append(w.handled, d)
		w.handledBy = append(w.handledBy, ctx.ID())
		if !ctx.IsRequest() {
			w.ctx = ctx
		}
	}()
	if ctx.IsRequest() {
		return ctx.Send(append([]byte("re:"), ctx.Data()...))
	}
	return nil
}

// watched makes and starts a node that is watched.
func watched(g int, w *watch, opts ...noise.NodeOption) *noise.Node {
	n := newNode(g, opts...)
	n.Bind(w.protocol())
	n.Handle(w.handle)
	listen(g, n)
	return n
}

// silent checks that nothing was reported.
func (w *watch) silent(why string) {
	defer guard()()
	if len(w.connected) != 0 {
		vsched.Fail("%s: the connect hook fired for %v", why, w.ids)
	}
	if len(w.disconnected) != 0 {
		vsched.Fail("%s: the disconnect hook fired", why)
	}
	if len(w.handled) != 0 || w.recv != 0 {
		vsched.Fail("%s: messages were handled: %q", why, w.handled)
	}
}

// An attack is a peer that misbehaves in one step of the handshake. It gets as far as it can and tells whether there
// is a session key under which to carry on.
type attack struct {
	name string
	run  func(p *rawPeer) bool
	// only sends what is wrong, and nothing after it; nil if what is wrong is not to be told by that alone.
	only func(p *rawPeer)
}

func flip(b []byte, i int) []byte {
	c := append([]byte{}, b...)
	if i < 0 {
		i += len(c)
	}
	c[i] ^= 1 << (i % 8)
	return c
}

func hello(seed byte) (noise.PrivateKey, []byte) {
	pub, sec := ephemeral(seed)
	sig := sec.Sign(handshakeMsg)
	return sec, append(append([]byte{}, pub[:]...), sig[:]...)
}

// helloAttack sends what mk makes of an honest hello, then goes on as if nothing had happened.
func helloAttack(name string, mk func(h []byte) []byte) attack {
	return attack{"hello " + name, func(p *rawPeer) bool {
		sec, h := hello(7)
		p.eph = sec
		if p.writeFrame(mk(h)) != nil || p.recvHello() != nil {
			return false
		}
		p.sendProof(rawID(procC, 4), key(procC))
		return true
	}, func(p *rawPeer) {
		_, h := hello(7)
		p.writeFrame(mk(h))
	}}
}

func proofAttack(name string, mk func(p *rawPeer, id noise.ID) []byte) attack {
	run := func(p *rawPeer) bool {
		if p.hello(7) != nil || p.recvHello() != nil {
			return false
		}
		b := mk(p, rawID(procC, 4))
		if b != nil {
			p.writeFrame(b)
		}
		return true
	}
	return attack{"proof " + name, run, func(p *rawPeer) { run(p) }}
}

func signed(p *rawPeer, id noise.ID, k noise.PrivateKey, over ...[]byte) []byte {
	m := id.Marshal()
	sig := k.Sign(bytes.Join(over, nil))
	return p.seal(append(append([]byte{}, m...), sig[:]...))
}

// identity is the neutral point of the curve as a public key: a signature "by" it can be made by anyone.
func forgedIdentity(msg []byte) ([]byte, []byte) {
	pub := make([]byte, 32)
	pub[0] = 1
	sig := make([]byte, 64)
	sig[0] = 1 // R: the neutral point, S: zero
	return pub, sig
}

func attacks() []attack {
	out := []attack{
		{"hello empty", func(p *rawPeer) bool { p.writeFrame(nil); return false }, func(p *rawPeer) { p.writeFrame(nil) }},
		{"hello key only", func(p *rawPeer) bool { _, h := hello(7); p.writeFrame(h[:32]); return false }, func(p *rawPeer) { _, h := hello(7); p.writeFrame(h[:32]) }},
		{"hello without signature's last byte", func(p *rawPeer) bool { _, h := hello(7); p.writeFrame(h[:95]); return false }, func(p *rawPeer) { _, h := hello(7); p.writeFrame(h[:95]) }},
		{name: "hello reflected", run: func(p *rawPeer) bool {
			b, err := p.readFrame()
			if err != nil {
				return false
			}
			p.writeFrame(b)
			if b, err = p.readFrame(); err == nil {
				p.writeFrame(b)
			}
			return false
		}},
		{name: "hello reflected, proof echoed late", run: func(p *rawPeer) bool {
			b, err := p.readFrame()
			if err != nil {
				return false
			}
			p.writeFrame(b)
			for i := 0; i < 2; i++ {
				if b, err = p.readFrame(); err == nil {
					p.writeFrame(b)
				}
			}
			return false
		}},
	}
	for _, i := range []int{0, 1, 15, 31, 32, 47, 63, 64, 80, 94, 95} {
		i := i
		out = append(out, helloAttack(fmt.Sprint("flipped at ", i), func(h []byte) []byte { return flip(h, i) }))
	}
	zero := make([]byte, 96)
	out = append(out,
		helloAttack("all zero", func(h []byte) []byte { return zero }),
		helloAttack("zero signature", func(h []byte) []byte { return append(h[:32:32], zero[:64]...) }),
		helloAttack("extended by a byte", func(h []byte) []byte { return append(h, 0) }),
		helloAttack("twice", func(h []byte) []byte { return append(h, h...) }),
		helloAttack("key of another", func(h []byte) []byte { _, g := hello(8); return append(append([]byte{}, g[:32]...), h[32:]...) }),
		helloAttack("signature of another", func(h []byte) []byte { _, g := hello(8); return append(h[:32:32], g[32:]...) }),
		helloAttack("signing something else", func(h []byte) []byte {
			_, sec := ephemeral(7)
			sig := sec.Sign([]byte(".__noise_handshakf"))
			return append(h[:32:32], sig[:]...)
		}),
		helloAttack("signing nothing", func(h []byte) []byte {
			_, sec := ephemeral(7)
			sig := sec.Sign(nil)
			return append(h[:32:32], sig[:]...)
		}),
		helloAttack("neutral point", func(h []byte) []byte {
			pub, sig := forgedIdentity(handshakeMsg)
			return append(pub, sig...)
		}),
		helloAttack("too large to be one", func(h []byte) []byte { return append(h, make([]byte, 1000)...) }),
		// somebody else's hello, replayed: the session key cannot be known, so random bytes follow
		attack{name: "hello replayed", run: func(p *rawPeer) bool {
			_, h := hello(9)
			if p.writeFrame(h) != nil {
				return false
			}
			if _, err := p.readFrame(); err != nil {
				return false
			}
			p.writeFrame(bytes.Repeat([]byte{0x42}, 142))
			p.writeFrame(bytes.Repeat([]byte{0x43}, 50))
			return false
		}},
		attack{name: "hello again instead of proof", run: func(p *rawPeer) bool {
			_, h := hello(7)
			if p.hello(7) != nil || p.recvHello() != nil {
				return false
			}
			p.writeFrame(h)
			return true
		}},
		attack{name: "data instead of proof", run: func(p *rawPeer) bool {
			return p.hello(7) == nil && p.recvHello() == nil && p.send(0, []byte("early")) == nil
		}},
		attack{name: "closing instead of proof", run: func(p *rawPeer) bool {
			if p.hello(7) == nil && p.recvHello() == nil {
				p.conn.Close()
			}
			return false
		}},
	)
	out = append(out,
		proofAttack("empty", func(p *rawPeer, id noise.ID) []byte { return []byte{} }),
		proofAttack("sealing nothing", func(p *rawPeer, id noise.ID) []byte { return p.seal(nil) }),
		proofAttack("sealing an ID only", func(p *rawPeer, id noise.ID) []byte { return p.seal(id.Marshal()) }),
		proofAttack("sealing a key only", func(p *rawPeer, id noise.ID) []byte { return p.seal(id.ID[:]) }),
		proofAttack("with a zero signature", func(p *rawPeer, id noise.ID) []byte { return p.seal(append(id.Marshal(), zero[:64]...)) }),
		proofAttack("without its last byte", func(p *rawPeer, id noise.ID) []byte {
			m := p.proof(id, key(procC))
			return p.seal(m[:len(m)-1])
		}),
		proofAttack("extended by a byte", func(p *rawPeer, id noise.ID) []byte { return p.seal(append(p.proof(id, key(procC)), 0)) }),
		proofAttack("twice", func(p *rawPeer, id noise.ID) []byte {
			m := p.proof(id, key(procC))
			return p.seal(append(append([]byte{}, m...), m...))
		}),
		proofAttack("in clear", func(p *rawPeer, id noise.ID) []byte { return p.proof(id, key(procC)) }),
		proofAttack("sealed with another key", func(p *rawPeer, id noise.ID) []byte {
			q := &rawPeer{suite: gcm(bytes.Repeat([]byte{1}, 32))}
			return q.seal(p.proof(id, key(procC)))
		}),
		proofAttack("sealed with the zero key", func(p *rawPeer, id noise.ID) []byte {
			q := &rawPeer{suite: gcm(make([]byte, 32))}
			return q.seal(p.proof(id, key(procC)))
		}),
		proofAttack("signed by another key", func(p *rawPeer, id noise.ID) []byte { return p.seal(p.proof(id, key(procD))) }),
		proofAttack("signed by the ephemeral key", func(p *rawPeer, id noise.ID) []byte { return p.seal(p.proof(id, p.eph)) }),
		proofAttack("over the ID only", func(p *rawPeer, id noise.ID) []byte { return signed(p, id, key(procC), id.Marshal()) }),
		proofAttack("over the session key only", func(p *rawPeer, id noise.ID) []byte { return signed(p, id, key(procC), p.shared) }),
		proofAttack("over the public key and the session key", func(p *rawPeer, id noise.ID) []byte { return signed(p, id, key(procC), id.ID[:], p.shared) }),
		proofAttack("over session key and ID", func(p *rawPeer, id noise.ID) []byte { return signed(p, id, key(procC), p.shared, id.Marshal()) }),
		proofAttack("over part of the session key", func(p *rawPeer, id noise.ID) []byte {
			return signed(p, id, key(procC), id.Marshal(), p.shared[:31])
		}),
		proofAttack("over nothing", func(p *rawPeer, id noise.ID) []byte { return signed(p, id, key(procC)) }),
		proofAttack("over the first message", func(p *rawPeer, id noise.ID) []byte { return signed(p, id, key(procC), handshakeMsg) }),
		proofAttack("of another session", func(p *rawPeer, id noise.ID) []byte {
			return signed(p, id, key(procC), id.Marshal(), bytes.Repeat([]byte{9}, len(p.shared)))
		}),
	)
	// in the names of the two nodes of the scenarios: of the one under attack itself, or another
	for _, g := range []int{procA, procB} {
		g := g
		out = append(out,
			proofAttack(fmt.Sprint("in the name of node ", g), func(p *rawPeer, id noise.ID) []byte {
				return p.seal(p.proof(rawID(g, 4), key(procC)))
			}),
			proofAttack(fmt.Sprint("in the name of node ", g, " with a zero signature"), func(p *rawPeer, id noise.ID) []byte {
				return p.seal(append(rawID(g, 4).Marshal(), zero[:64]...))
			}),
			proofAttack(fmt.Sprint("in the name of node ", g, " over the ID only"), func(p *rawPeer, id noise.ID) []byte {
				return signed(p, rawID(g, 4), key(procC), rawID(g, 4).Marshal())
			}))
	}
	for _, i := range []int{0, 1, 16, 31, 32, 40, 43, 44, 47, 48, 49, 50, 51, 82, 112, 113} {
		i := i
		out = append(out, proofAttack(fmt.Sprint("changed at ", i, " after signing"), func(p *rawPeer, id noise.ID) []byte {
			return p.seal(flip(p.proof(id, key(procC)), i))
		}))
	}
	for _, i := range []int{0, 5, 11, 12, 13, 60, 125, 126, 141} {
		i := i
		out = append(out, proofAttack(fmt.Sprint("flipped on the wire at ", i), func(p *rawPeer, id noise.ID) []byte {
			return flip(p.seal(p.proof(id, key(procC))), i)
		}))
	}
	for _, i := range []int{1, 11, 12, 20, 28, 100, 141} {
		i := i
		out = append(out, proofAttack(fmt.Sprint("cut to ", i), func(p *rawPeer, id noise.ID) []byte {
			return p.seal(p.proof(id, key(procC)))[:i]
		}))
	}
	return out
}

// pursue sends messages after the attack, under the session key if there is one, then waits to be disconnected.
func pursue(at attack, p *rawPeer) {
	if at.run(p) && p.suite != nil {
		p.send(0, []byte("plain"))
		p.send(5, []byte("request"))
	} else {
		p.writeFrame(append(make([]byte, 8), "clear"...))
	}
}

func init() {
	list := attacks()
	mc.Add(mc.Scenario{
		Prop: "C04", Name: "c04-accepting", Doc: fmt.Sprintf("%d ways to get a handshake message wrong, by a peer that connects; an honest peer is served before or after", len(list)),
		Run: func() {
			at := list[vsched.Pick(len(list))]
			var w watch
			var b *noise.Node
			vsched.Quiet(func() { b = watched(procB, &w) })
			p, err := rawDial(b.Addr())
			must(err)
			d := spawn(procC, func() {
				pursue(at, p)
				if err := p.drain(); err == nil {
					vsched.Fail("%s: not disconnected", at.name)
				}
			})
			join(d)
			vsched.Quiesce()
			w.silent(at.name)
			if len(b.Inbound()) != 0 {
				vsched.Fail("%s: still among the inbound connections", at.name)
			}
			a := node(procA, nil)
			join(ask(procA, a, b.Addr(), "x", "re:x"))
		},
		Quick: mc.Bounds{Cost: 1, Policies: []int{0, 1, 2}}, Thorough: mc.Bounds{Cost: 2, Policies: []int{0, 1, 2}}, Native: 12,
	})
	mc.Add(mc.Scenario{
		Prop: "C04", Name: "c04-dialling", Doc: fmt.Sprintf("%d ways to get a handshake message wrong, by a peer that is dialled", len(list)),
		Run: func() {
			at := list[vsched.Pick(len(list))]
			op := vsched.Pick(3)
			var w watch
			var a *noise.Node
			l, addr := rawListen(procC)
			vsched.Quiet(func() {
				a = watched(procA, &w, noise.WithNodeMaxDialAttempts(1))
				rawAccept(procC, l, func(i int, p *rawPeer) {
					pursue(at, p)
					if err := p.drain(); err == nil {
						vsched.Fail("%s: not disconnected", at.name)
					}
				})
			})
			join(spawn(procA, func() {
				if call(op, a, bg(), addr) == nil {
					vsched.Fail("%s: the call succeeded", at.name)
				}
			}))
			vsched.Quiesce()
			w.silent(at.name)
			if len(a.Outbound()) != 0 {
				vsched.Fail("%s: still among the outbound connections", at.name)
			}
			b := node(procB, echo)
			join(ask(procA, a, b.Addr(), "x", "re:x"))
		},
		Quick: mc.Bounds{Cost: 1, Policies: []int{0, 1, 2}}, Thorough: mc.Bounds{Cost: 2, Policies: []int{0, 1, 2}}, Native: 12,
	})
	mc.Add(mc.Scenario{
		Prop: "C04", Name: "c04-error-reported", Doc: "the connection over which a handshake message was wrong has an error, whichever it was",
		Run: func() {
			at := list[vsched.Pick(len(list))]
			var w watch
			var b *noise.Node
			vsched.Quiet(func() { b = watched(procB, &w) })
			p, err := rawDial(b.Addr())
			must(err)
			var c *noise.Client
			vsched.Quiesce()
			if in := b.Inbound(); len(in) == 1 {
				c = in[0]
			}
			join(spawn(procC, func() {
				pursue(at, p)
				p.drain()
			}))
			if c == nil {
				vsched.Fail("the connection is not listed")
			}
			c.WaitUntilReady()
			c.WaitUntilClosed()
			if c.Error() == nil {
				vsched.Fail("%s: the connection has no error", at.name)
			}
			w.silent(at.name)
		},
		Quick: mc.Bounds{Cost: 1, Policies: []int{0, 1}}, Thorough: mc.Bounds{Cost: 2, Policies: []int{0, 1, 2}}, Native: 4,
	})
	var alone []attack
	for _, at := range list {
		if at.only != nil {
			alone = append(alone, at)
		}
	}
	mc.Add(mc.Scenario{
		Prop: "C04", Name: "c04-then-silent", Doc: fmt.Sprintf("%d wrong handshake messages after which the peer, accepting or dialling, says nothing more and stays, and the node has no idle timeout: it is disconnected all the same, with an error", len(alone)),
		Run: func() {
			at := alone[vsched.Pick(len(alone))]
			dialled := vsched.Pick(2) == 1
			var w watch
			var n *noise.Node
			vsched.Quiet(func() {
				n = watched(procA, &w, noise.WithNodeMaxDialAttempts(1), noise.WithNodeIdleTimeout(0))
			})
			gone := false
			speak := func(p *rawPeer) {
				at.only(p)
				if err := p.drain(); err == nil {
					vsched.Fail("%s: not disconnected", at.name)
				}
				g := guard()
				gone = true
				g()
			}
			var c *noise.Client
			if dialled {
				l, addr := rawListen(procC)
				rawAccept(procC, l, func(i int, p *rawPeer) { speak(p) })
				join(spawn(procA, func() {
					if _, err := n.Ping(bg(), addr); err == nil {
						vsched.Fail("%s: the call succeeded", at.name)
					}
				}))
			} else {
				p, err := rawDial(n.Addr())
				must(err)
				vsched.Quiesce()
				if in := n.Inbound(); len(in) == 1 {
					c = in[0]
				}
				spawn(procC, func() { speak(p) })
			}
			vsched.Quiesce()
			g := guard()
			if !gone {
				vsched.Fail("%s: still connected", at.name)
			}
			g()
			if len(n.Inbound())+len(n.Outbound()) != 0 {
				vsched.Fail("%s: still among the connections", at.name)
			}
			if c != nil && c.Error() == nil {
				vsched.Fail("%s: the connection has no error", at.name)
			}
			w.silent(at.name)
		},
		Quick: mc.Bounds{Cost: 1, Policies: []int{0, 1}}, Thorough: mc.Bounds{Cost: 2, Policies: []int{0, 1, 2}}, Native: 4,
	})
	mc.Add(mc.Scenario{
		Prop: "C04", Name: "c04-recorded", Doc: "everything an honest peer sent in an earlier session is played back, frame by frame, to the node it connected to and to the one it accepted",
		Run: func() {
			side := vsched.Pick(2)
			reorder := vsched.Pick(2)
			var wa, wb watch
			var a, b *noise.Node
			var tape []byte
			vsched.Quiet(func() {
				a, b = watched(procA, &wa, noise.WithNodeMaxDialAttempts(1)), watched(procB, &wb, noise.WithNodeMaxDialAttempts(1))
				vnet.Observe(func(c *vnet.TCPConn, data []byte) {
					if c.Outgoing() == (side == 0) {
						tape = append(tape, data...)
					}
				})
				a.Request(bg(), b.Addr(), []byte("first"))
				a.Send(bg(), b.Addr(), []byte("second"))
				vsched.Quiesce()
				closeClients(procA, a)
				vsched.Settle()
			})
			wa, wb = watch{}, watch{}
			play := append([]byte{}, tape...)
			if reorder == 1 && len(play) > 100 {
				play = append(append([]byte{}, play[100:]...), play[:100]...)
			}
			if side == 0 {
				p, err := rawDial(b.Addr())
				must(err)
				join(spawn(procC, func() {
					p.writeRaw(play)
					p.drain()
				}))
			} else {
				l, addr := rawListen(procC)
				rawAccept(procC, l, func(i int, p *rawPeer) {
					p.writeRaw(play)
					p.drain()
				})
				join(spawn(procA, func() {
					if call(vsched.Pick(2), a, bg(), addr) == nil {
						vsched.Fail("the call succeeded with a recorded session")
					}
				}))
			}
			vsched.Quiesce()
			wa.silent("recorded session")
			wb.silent("recorded session")
		},
		Quick: mc.Bounds{Cost: 1, Policies: []int{0, 1}}, Thorough: mc.Bounds{Cost: 2, Policies: []int{0, 1, 2}},
	})
	mc.Add(mc.Scenario{
		Prop: "C04", Name: "c04-between-sessions", Doc: "an attacker between two nodes shakes hands with each under its own keys and passes on what they prove",
		Run: func() {
			var wa, wb watch
			var a, b *noise.Node
			l, addr := rawListen(procC)
			vsched.Quiet(func() {
				a, b = watched(procA, &wa, noise.WithNodeMaxDialAttempts(1)), watched(procB, &wb)
				rawAccept(procC, l, func(i int, pa *rawPeer) {
					pb, err := rawDial(b.Addr())
					must(err)
					must(pa.hello(1))
					must(pb.hello(2))
					must(pa.recvHello())
					must(pb.recvHello())
					x, err := pa.readFrame()
					must(err)
					y, err := pb.readFrame()
					must(err)
					px, err := pa.open(x)
					must(err)
					py, err := pb.open(y)
					must(err)
					pb.writeFrame(pb.seal(px))
					pa.writeFrame(pa.seal(py))
					pa.send(0, []byte("evil"))
					pb.send(0, []byte("evil"))
					pa.drain()
					pb.drain()
				})
			})
			join(spawn(procA, func() {
				if _, err := a.Ping(bg(), addr); err == nil {
					vsched.Fail("the attacker was taken for the other node")
				}
			}))
			vsched.Quiesce()
			wa.silent("attacker in between")
			wb.silent("attacker in between")
		},
		Quick: mc.Bounds{Cost: 2, Policies: []int{0, 1}}, Thorough: mc.Bounds{Cost: 3, Policies: []int{0, 1, 2}}, Native: 1,
	})
	mc.Add(mc.Scenario{
		Prop: "C04", Name: "c04-own-proof-returned", Doc: "a peer without any identity returns the proof the node itself made in that session",
		Run: func() {
			var w watch
			var b *noise.Node
			vsched.Quiet(func() { b = watched(procB, &w) })
			p, err := rawDial(b.Addr())
			must(err)
			join(spawn(procC, func() {
				must(p.hello(3))
				must(p.recvHello())
				f, err := p.readFrame()
				must(err)
				p.writeFrame(f)
				p.send(0, []byte("evil"))
				vsched.Quiesce()
			}))
			if len(w.connected) > 0 || len(w.handled) > 0 {
				vsched.Fail("a peer is accepted under the node's own identity after returning the node's own proof to it")
			}
		},
		Quick: mc.Bounds{Cost: 1, Policies: []int{0, 1}}, Thorough: mc.Bounds{Cost: 2, Policies: []int{0, 1, 2}},
	})
	mc.Add(mc.Scenario{
		Prop: "C04", Name: "c04-honest", Doc: "peers that prove their key are accepted and reported under exactly the ID they signed, while an attacker is at work on another connection",
		Run: func() {
			hosts := []net.IP{net.IPv4(127, 0, 0, 1), net.IPv4(8, 8, 4, 4).To4(), net.ParseIP("2001:db8::1"), net.IPv6loopback, net.IPv4zero}
			h := hosts[vsched.Pick(len(hosts))]
			pt := []uint16{0, 1, 258, 65535}[vsched.Pick(4)]
			side := vsched.Pick(2)
			id := noise.NewID(key(procC).Public(), h, pt)
			var w watch
			var b *noise.Node
			l, addr := rawListen(procC)
			vsched.Quiet(func() {
				b = watched(procB, &w)
				rawAccept(procC, l, func(i int, p *rawPeer) {
					must(p.shake(5, id, key(procC)))
					p.send(0, []byte("hi"))
				})
			})
			evil, err := rawDial(b.Addr())
			must(err)
			bad := spawn(procD, func() {
				evil.hello(9)
				evil.recvHello()
				evil.writeFrame(evil.seal(evil.proof(id, key(procD))))
				evil.drain()
			})
			if side == 0 {
				p, err := rawDial(b.Addr())
				must(err)
				must(p.shake(6, id, key(procC)))
				if p.id.ID != key(procB).Public() || p.id.Address != b.Addr() {
					vsched.Fail("the node proved to be %v", p.id)
				}
				must(p.send(0, []byte("hi")))
			} else {
				c := connect(procB, b, addr)
				if !sameID(c.ID(), id) {
					vsched.Fail("the peer is %v instead of %v", c.ID(), id)
				}
			}
			join(bad)
			vsched.Quiesce()
			if len(w.ids) != 1 || !sameID(w.ids[0], id) || len(w.handledBy) != 1 || !sameID(w.handledBy[0], id) || w.handled[0] != "hi" {
				vsched.Fail("connected: %v handled: %q of %v", w.ids, w.handled, w.handledBy)
			}
		},
		Quick: mc.Bounds{Cost: 1, Policies: []int{0, 1}}, Thorough: mc.Bounds{Cost: 2, Policies: []int{0, 1, 2}}, Native: 4,
	})
	mc.Add(mc.Scenario{
		Prop: "C04", Name: "c04-before-proof", Doc: "nobody is reported, listed as usable or heard while the proof is missing, until the proof arrives and everything happens",
		Run: func() {
			var w watch
			var b *noise.Node
			vsched.Quiet(func() { b = watched(procB, &w) })
			p, err := rawDial(b.Addr())
			must(err)
			must(p.hello(3))
			must(p.recvHello())
			ready := false
			spawn(procB, func() {
				vsched.Quiesce()
				for _, c := range b.Inbound() {
					c.WaitUntilReady()
					ready = true
				}
			})
			vsched.Quiesce()
			w.silent("proof missing")
			if ready {
				vsched.Fail("ready without the proof")
			}
			proof := frame(p.seal(p.proof(rawID(procC, 9), key(procC))))
			cut := vsched.Pick(len(proof))
			must(p.writeRaw(proof[:cut]))
			vsched.Quiesce()
			w.silent("proof incomplete")
			if ready {
				vsched.Fail("ready without the proof")
			}
			must(p.writeRaw(proof[cut:]))
			must(p.recvProof())
			must(p.send(0, []byte("x")))
			vsched.Quiesce()
			if len(w.connected) != 1 || len(w.handled) != 1 {
				vsched.Fail("an honest peer was connected %d times and heard %d times", len(w.connected), len(w.handled))
			}
		},
		Quick: mc.Bounds{Cost: 1, Policies: []int{0, 1}}, Thorough: mc.Bounds{Cost: 2, Policies: []int{0, 1, 2}}, Native: 1,
	})
	mc.Add(mc.Scenario{
		Prop: "C04", Name: "c04-cancelled-or-stalled", Doc: "a peer that never proves its key is not usable however the attempt ends",
		Run: func() {
			st := vsched.Pick(stProof)
			var w watch
			var a *noise.Node
			l, addr := rawListen(procC)
			vsched.Quiet(func() {
				a = watched(procA, &w, noise.WithNodeMaxDialAttempts(1))
				rawAccept(procC, l, func(i int, p *rawPeer) {
					p.upTo(st, 7, rawID(procC, 1), key(procC))
					if p.suite != nil && st == stSession {
						p.send(0, []byte("evil"))
						p.send(1, []byte("evil"))
					}
				})
			})
			ctx, cancel := context.WithTimeout(bg(), time.Second)
			defer cancel()
			join(spawn(procA, func() {
				if call(vsched.Pick(3), a, ctx, addr) == nil {
					vsched.Fail("the call succeeded though the peer stopped at: %s", stageNames[st])
				}
			}))
			vsched.Quiesce()
			w.silent(stageNames[st])
		},
		Quick: mc.Bounds{Cost: 2, Policies: []int{0, 1}}, Thorough: mc.Bounds{Cost: 3, Policies: []int{0, 1, 2}}, Native: 2,
	})
}

func sameID(a, b noise.ID) bool {
	return a.ID == b.ID && a.Port == b.Port && a.Address == b.Address && a.Host.Equal(b.Host)
}
