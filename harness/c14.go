package main

import (
	"errors"
	"fmt"
	"net"
	"time"

	"github.com/perlin-network/noise"
	"verif.local/rt/mc"
	"verif.local/rt/vnet"
	"verif.local/rt/vsched"
)

var idleT = 250 * time.Millisecond

func init() {
	if vsched.Native { // where waiting for things to calm down takes time
		idleT = 2500 * time.Millisecond
	}
}

func idle(d time.Duration) noise.NodeOption { return noise.WithNodeIdleTimeout(d) }

func isTimeout(err error) bool {
	var ne net.Error
	return errors.As(err, &ne) && ne.Timeout()
}

// elapsed measures virtual, or natively real, time.
func elapsed() func() time.Duration {
	t := time.Now()
	return func() time.Duration { return time.Since(t) }
}

// timedOut waits for c to end by its idle timeout, which must happen between min and max from now.
func timedOut(c *noise.Client, min, max time.Duration, when string) {
	since := elapsed()
	c.WaitUntilClosed()
	d := since()
	if !isTimeout(c.Error()) {
		vsched.Fail("%s the connection ended with %v instead of a timeout", when, c.Error())
	}
	if vsched.Native {
		min, max = min*4/5, max+500*time.Millisecond
	}
	if d < min || d > max {
		vsched.Fail("%s the connection timed out after %v, not within %v to %v", when, d, min, max)
	}
}

func only(cs []*noise.Client) *noise.Client {
	if len(cs) != 1 {
		vsched.Fail("%d connections are listed instead of one", len(cs))
	}
	return cs[0]
}

func init() {
	mc.Add(mc.Scenario{
		Prop: "C14", Name: "c14-idle", Doc: "a connection is left idle right after its handshake, or after a message, a request or both sides' messages; the dialling, the accepting or both nodes have a timeout",
		Run: func() {
			sides := 1 + vsched.Pick(3)
			act := vsched.Pick(5)
			pause := time.Duration(vsched.Pick(2)) * idleT / 2
			var a, b *noise.Node
			var wa, wb watch
			var c, d *noise.Client
			var ta, tb time.Duration
			if sides&1 != 0 {
				ta = idleT
			}
			if sides&2 != 0 {
				tb = idleT
			}
			vsched.Quiet(func() {
				a, b = watched(procA, &wa, idle(ta)), watched(procB, &wb, idle(tb))
				c = connect(procA, a, b.Addr())
				if act > 2 {
					in(procA, func() { must(a.Send(bg(), b.Addr(), []byte("first"))) })
				}
				vsched.Quiesce()
				d = only(b.Inbound())
			})
			time.Sleep(pause)
			in(procA, func() {
				switch act {
				case 1:
					must(a.Send(bg(), b.Addr(), []byte("m")))
				case 2:
					if _, err := a.Request(bg(), b.Addr(), []byte("q")); err != nil {
						vsched.Fail("request: %v", err)
					}
				}
			})
			in(procB, func() {
				switch act {
				case 3:
					must(wb.ctx.Send([]byte("m")))
				case 4:
					must(wb.ctx.Send([]byte("m")))
					must(a.Send(bg(), b.Addr(), []byte("m")))
				}
			})
			// what is written counts as activity of neither reader
			min, max := idleT, idleT
			if pause > 0 && act != 2 && act != 4 {
				min = idleT - pause
			}
			switch {
			case sides == 1:
				timedOut(c, min, max, "left idle")
			case sides == 2:
				timedOut(d, min, max, "left idle")
			default:
				since := elapsed()
				c.WaitUntilClosed()
				d.WaitUntilClosed()
				if !isTimeout(c.Error()) && !isTimeout(d.Error()) {
					vsched.Fail("an idle connection ended with %v and %v", c.Error(), d.Error())
				}
				if t := since(); !vsched.Native && (t < min || t > max) {
					vsched.Fail("an idle connection timed out after %v, not within %v to %v", t, min, max)
				}
			}
			vsched.Settle()
			for _, w := range []*watch{&wa, &wb} {
				if len(w.disconnected) != 1 {
					vsched.Fail("the disconnect hook fired %d times for a connection that timed out", len(w.disconnected))
				}
			}
			if len(a.Outbound())+len(b.Inbound()) != 0 {
				vsched.Fail("a connection that timed out is still listed")
			}
			released(procA, 2, 1, "after a timeout")
			released(procB, 2, 1, "after a timeout")
		},
		Quick: mc.Bounds{Cost: 1}, Thorough: mc.Bounds{Cost: 2, Policies: []int{0, 1}}, Native: 4,
	})
	mc.Add(mc.Scenario{
		Prop: "C14", Name: "c14-handshake", Doc: "a peer stops at any point of the handshake, dialling or being dialled",
		Run: func() {
			st := vsched.Pick(stEstablished)
			dialled := vsched.Pick(2) == 1
			pauses := vsched.Pick(2) == 1 // half a timeout passes before the peer does anything
			var n *noise.Node
			var w watch
			var addr string
			var l net.Listener
			part := func(p *rawPeer) {
				if pauses {
					time.Sleep(idleT / 2)
				}
				p.upTo(st, 3, rawID(procB, 3), key(procB))
				p.drain()
			}
			vsched.Quiet(func() {
				n = watched(procA, &w, idle(idleT), noise.WithNodeMaxDialAttempts(1))
				if dialled {
					l, addr = rawListen(procB)
					rawAccept(procB, l, func(i int, p *rawPeer) { part(p) })
				}
			})
			since := elapsed()
			if dialled {
				join(spawn(procA, func() {
					_, err := n.Ping(bg(), addr)
					if err == nil && st != stProof {
						vsched.Fail("ping of a peer that stops handshaking succeeds")
					}
					if err != nil && !isTimeout(err) {
						vsched.Fail("ping of a peer that stops handshaking: %v", err)
					}
				}))
			} else {
				p, err := rawDial(n.Addr())
				must(err)
				join(spawn(procB, func() { part(p) }))
			}
			vsched.Settle()
			if d := since(); !vsched.Native && (d < idleT || d > 2*idleT+idleT/2) {
				vsched.Fail("a peer that stops handshaking times out after %v", d)
			}
			if st != stProof {
				w.silent("after a handshake that was never completed")
			}
			released(procA, 2, 1, "after a handshake that timed out")
		},
		Quick: mc.Bounds{Cost: 1}, Thorough: mc.Bounds{Cost: 2, Policies: []int{0, 1}}, Native: 4,
	})
	patterns := func(name string, depth int, thorough bool) {
		mc.Add(mc.Scenario{
			Prop: "C14", Name: name, Doc: fmt.Sprintf("all patterns of messages, either way or both, and requests over %d steps of 0.4 timeouts; one or both nodes have the timeout", depth),
			ThoroughOnly: thorough,
			Run: func() {
				defer vsched.QuietOff()
				vsched.QuietOn()
				sides := 1 + vsched.Pick(3)
				var ta, tb time.Duration
				if sides&1 != 0 {
					ta = idleT
				}
				if sides&2 != 0 {
					tb = idleT
				}
				var wa, wb watch
				a, b := watched(procA, &wa, idle(ta)), watched(procB, &wb, idle(tb))
				c := connect(procA, a, b.Addr())
				in(procA, func() { must(a.Send(bg(), b.Addr(), []byte("first"))) })
				vsched.Quiesce()
				d := only(b.Inbound())
				quietA, quietB := 0, 0 // steps since A, B last received something
				na, nb := 0, 1         // messages A, B received
				for i := 0; i < depth; i++ {
					time.Sleep(idleT * 2 / 5)
					quietA++
					quietB++
					if quietA > 2 && ta > 0 || quietB > 2 && tb > 0 {
						if quietA > 2 && quietB > 2 {
							for _, x := range []*noise.Client{c, d} {
								x.WaitUntilClosed()
							}
							if !isTimeout(c.Error()) && !isTimeout(d.Error()) {
								vsched.Fail("an idle connection ended with %v and %v", c.Error(), d.Error())
							}
							return
						}
						vsched.Discard("messages one way only")
					}
					if c.Error() != nil || d.Error() != nil {
						vsched.Fail("an active connection ended: %v, %v (last messages %d and %d steps ago)", c.Error(), d.Error(), quietA, quietB)
					}
					switch vsched.Pick(5) {
					case 1:
						in(procA, func() { must(a.Send(bg(), b.Addr(), []byte("m"))) })
						quietB = 0
						nb++
					case 2:
						in(procB, func() { must(wb.ctx.Send([]byte("m"))) })
						quietA = 0
						na++
					case 3:
						in(procA, func() { must(a.Send(bg(), b.Addr(), []byte("m"))) })
						in(procB, func() { must(wb.ctx.Send([]byte("m"))) })
						quietA, quietB = 0, 0
						na++
						nb++
					case 4:
						in(procA, func() {
							if _, err := a.Request(bg(), b.Addr(), []byte("q")); err != nil {
								vsched.Fail("request on an active connection: %v", err)
							}
						})
						quietA, quietB = 0, 0
						nb++
					}
					vsched.Quiesce()
					if c.Error() != nil || d.Error() != nil {
						vsched.Fail("an active connection ended: %v, %v", c.Error(), d.Error())
					}
					if len(wa.handled) != na || len(wb.handled) != nb {
						vsched.Fail("%d and %d messages arrived instead of %d and %d", len(wa.handled), len(wb.handled), na, nb)
					}
				}
				if only(a.Outbound()) != c {
					vsched.Fail("another connection has taken its place")
				}
			},
			Quick: mc.Bounds{Cost: 0}, Thorough: mc.Bounds{Cost: 0, Policies: []int{0, 1}}, Native: 4,
		})
	}
	patterns("c14-patterns", 5, false)
	patterns("c14-patterns-7", 7, true)
	mc.Add(mc.Scenario{
		Prop: "C14", Name: "c14-pause", Doc: "a node with a timeout keeps receiving, and writes only after pauses of up to 12 timeouts: what it writes arrives, and again",
		Run: func() {
			inbound := vsched.Pick(2) == 1
			pauses := []int{1 + vsched.Pick(3), []int{1, 4, 30}[vsched.Pick(3)]}
			raw := vsched.Pick(2) == 1
			req := vsched.Pick(2) == 1
			burst := 1 // messages at once
			if !req {
				burst += 5 * vsched.Pick(2)
			}
			var a, b *noise.Node
			var wa, wb watch
			var toB func() // has A, which has the timeout, write
			var toA func() // has B write
			var c *noise.Client
			got := 0
			vsched.Quiet(func() {
				a = watched(procA, &wa, idle(idleT))
				if raw {
					var p *rawPeer
					if inbound {
						p = dialShake(a.Addr(), 1, procB, 7)
						vsched.Quiesce()
						c = only(a.Inbound())
					} else {
						l, addr := rawListen(procB)
						ps := make(chan *rawPeer, 1)
						rawServe(procB, l, func(p *rawPeer) { ps <- p })
						c = connect(procA, a, addr)
						p = <-ps
					}
					spawn(procB, func() {
						for {
							if _, _, err := p.recv(); err != nil {
								return
							}
							u := guard()
							got++
							u()
						}
					})
					toA = func() { must(p.send(0, []byte("m"))) }
				} else {
					b = watched(procB, &wb)
					if inbound {
						connect(procB, b, a.Addr())
						vsched.Quiesce()
						c = only(a.Inbound())
					} else {
						c = connect(procA, a, b.Addr())
						in(procA, func() { must(a.Send(bg(), b.Addr(), []byte("first"))) })
						vsched.Quiesce()
					}
					toA = func() {
						in(procB, func() {
							if inbound {
								must(b.Send(bg(), a.Addr(), []byte("m")))
							} else {
								must(wb.ctx.Send([]byte("m")))
							}
						})
					}
				}
				toA()
				vsched.Quiesce()
				got, wb.handled = 0, nil
				toB = func() {
					in(procA, func() {
						if req && !raw && !inbound {
							if _, err := a.Request(bg(), b.Addr(), []byte("q")); err != nil {
								vsched.Fail("request after a pause: %v", err)
							}
							return
						}
						for k := 0; k < burst; k++ {
							if err := wa.ctx.Send([]byte("late")); err != nil {
								vsched.Fail("send after a pause: %v", err)
							}
						}
					})
				}
			})
			for i, k := range pauses {
				vsched.Quiet(func() {
					for j := 0; j < k; j++ {
						time.Sleep(idleT * 2 / 5)
						toA()
						vsched.Quiesce()
						if c.Error() != nil {
							vsched.Fail("a connection over which messages arrive ended with %v", c.Error())
						}
					}
				})
				toB()
				vsched.Quiesce()
				n := got
				if !raw {
					n = len(wb.handled)
				}
				want := (i + 1) * burst
				if req && !raw && !inbound {
					want = i + 1
				}
				if n != want {
					vsched.Fail("%d of %d messages sent after pauses arrived; the connection's error is %v", n, want, c.Error())
				}
			}
		},
		Quick: mc.Bounds{Cost: 1}, Thorough: mc.Bounds{Cost: 2, Policies: []int{0, 1}}, Native: 4,
	})
	mc.Add(mc.Scenario{
		Prop: "C14", Name: "c14-fragments", Doc: "requests arrive every 0.4 timeouts, and are answered, while what arrives ends within, or after, the header or the body of the next one: the connection stays",
		Run: func() {
			const steps = 6
			inbound := vsched.Pick(2) == 1
			var cuts [steps]int
			for i := range cuts {
				cuts[i] = vsched.Pick(4)
			}
			var n *noise.Node
			var w watch
			var p *rawPeer
			var c *noise.Client
			vsched.QuietOn()
			defer vsched.QuietOff()
			n = watched(procA, &w, idle(idleT))
			if inbound {
				p = dialShake(n.Addr(), 1, procB, 7)
				vsched.Quiesce()
				c = only(n.Inbound())
			} else {
				l, addr := rawListen(procB)
				ps := make(chan *rawPeer, 1)
				rawServe(procB, l, func(p *rawPeer) { ps <- p })
				c = connect(procA, n, addr)
				p = <-ps
			}
			var rest []byte
			for i, cut := range cuts {
				next := frame(p.seal([]byte{0, 0, 0, 0, 0, 0, 0, 9, 'x'}))
				if len(rest) == 0 {
					rest, next = next, frame(p.seal([]byte{0, 0, 0, 0, 0, 0, 0, 9, 'x'}))
				}
				k := []int{0, 1, 4, 20}[cut]
				must(p.writeRaw(append(append([]byte{}, rest...), next[:k]...)))
				rest = next[k:]
				if cut == 0 {
					rest = nil
				}
				if no, data, err := p.recv(); err != nil || no != 9 || string(data) != "re:x" {
					vsched.Fail("after %d of the fragments %v: answer %d %q %v, the connection's error is %v", i, cuts, no, data, err, c.Error())
				}
				time.Sleep(idleT * 2 / 5)
				vsched.Quiesce()
				if c.Error() != nil {
					vsched.Fail("after %d of the fragments %v the connection ended: %v", i, cuts, c.Error())
				}
			}
		},
		Quick: mc.Bounds{Cost: 0}, Thorough: mc.Bounds{Cost: 0, Policies: []int{0, 1}},
	})
	mc.Add(mc.Scenario{
		Prop: "C14", Name: "c14-none", Doc: "without a timeout: an hour passes at any point of the handshake, or on an idle connection with a partial frame under way; then everything goes on",
		Run: func() {
			st := vsched.Pick(stEstablished + 1)
			dialled := vsched.Pick(2) == 1
			var n *noise.Node
			var w watch
			var l net.Listener
			var addr string
			var p *rawPeer
			var pinging chan struct{}
			hour := time.Hour
			if vsched.Native {
				hour = time.Second / 2
			}
			ps := make(chan *rawPeer, 1)
			vsched.Quiet(func() {
				n = watched(procA, &w)
				if dialled {
					l, addr = rawListen(procB)
					rawAccept(procB, l, func(i int, p *rawPeer) { ps <- p })
				}
			})
			if dialled {
				pinging = spawn(procA, func() {
					if _, err := n.Ping(bg(), addr); err != nil {
						vsched.Fail("ping of a slow peer: %v", err)
					}
				})
				p = <-ps
			} else {
				var err error
				p, err = rawDial(n.Addr())
				must(err)
			}
			// the handshake, with an hour's pause at the stage
			at := func(s int) {
				if s == st {
					time.Sleep(hour)
				}
			}
			pub, sec := ephemeral(3)
			p.eph = sec
			sig := sec.Sign(handshakeMsg)
			hello := frame(append(append([]byte{}, pub[:]...), sig[:]...))
			at(stNothing)
			p.writeRaw(hello[:50])
			at(stHalfHello)
			p.writeRaw(hello[50:])
			at(stHello)
			must(p.recvHello())
			at(stReadHello)
			at(stSession)
			proof := frame(p.seal(p.proof(rawID(procB, 3), key(procB))))
			p.writeRaw(proof[:60])
			at(stHalfProof)
			p.writeRaw(proof[60:])
			at(stProof)
			must(p.recvProof())
			at(stReadProof)
			msg := frame(p.seal(append([]byte{0, 0, 0, 0, 0, 0, 0, 4}, "question"...)))
			at(stEstablished)
			p.writeRaw(msg[:st+1])
			time.Sleep(hour)
			p.writeRaw(msg[st+1:])
			if no, data, err := p.recv(); err != nil || no != 4 || string(data) != "re:question" {
				vsched.Fail("response %d %q %v", no, data, err)
			}
			if dialled {
				join(pinging)
			}
			time.Sleep(hour)
			if len(w.connected) != 1 || w.connected[0].Error() != nil {
				vsched.Fail("a connection without a timeout ended: %v", w.connected[0].Error())
			}
		},
		Quick: mc.Bounds{Cost: 1}, Thorough: mc.Bounds{Cost: 2, Policies: []int{0, 1}}, Native: 4,
	})
	mc.Add(mc.Scenario{
		Prop: "C14", Name: "c14-stuck-write", Doc: "a peer stops reading but keeps sending, or not, while a node writes more than the connection holds, also during the handshake: the connection times out",
		Run: func() {
			inbound := vsched.Pick(2) == 1
			keeps := vsched.Pick(2) == 1
			k := []int{1, 2, 6}[vsched.Pick(3)]
			size := []int{200, 4054, 5000}[vsched.Pick(3)] // also such that what is buffered fails to be written on a header, or on a message
			when := vsched.Pick(2)
			if vsched.Native {
				return
			}
			var n *noise.Node
			var w watch
			var p *rawPeer
			var c *noise.Client
			vsched.Quiet(func() {
				n = watched(procA, &w, idle(idleT), noise.WithNodeMaxDialAttempts(1))
				if when == 1 { // not even the handshake gets through
					vnet.SetBuffer(40)
				}
			})
			if when == 1 {
				if inbound {
					var err error
					p, err = rawDial(n.Addr())
					must(err)
				} else {
					_, addr := rawListen(procB)
					join(spawn(procA, func() {
						if _, err := n.Ping(bg(), addr); !isTimeout(err) {
							vsched.Fail("ping of a peer that does not read: %v", err)
						}
					}))
				}
				vsched.Settle()
				w.silent("without a handshake")
				released(procA, 2, 1, "after a write that got stuck")
				return
			}
			vsched.Quiet(func() {
				if inbound {
					p = dialShake(n.Addr(), 1, procB, 7)
					vsched.Quiesce()
					c = only(n.Inbound())
				} else {
					l, addr := rawListen(procB)
					ps := make(chan *rawPeer, 1)
					rawServe(procB, l, func(p *rawPeer) { ps <- p })
					c = connect(procA, n, addr)
					p = <-ps
					l.Close()
				}
				vsched.Quiesce()
				must(p.send(0, []byte("first")))
				vsched.Quiesce()
				vnet.Narrow(100)
			})
			for i := 0; i < k; i++ {
				in(procA, func() { must(w.ctx.Send(make([]byte, size))) })
			}
			since := elapsed()
			if keeps {
				for i := 0; i < 12; i++ {
					if p.send(0, []byte("m")) != nil {
						break
					}
					time.Sleep(idleT * 2 / 5)
				}
			}
			c.WaitUntilClosed()
			if d := since(); d < idleT || d > 2*idleT {
				vsched.Fail("a write that got stuck timed out after %v", d)
			}
			if !isTimeout(c.Error()) {
				vsched.Fail("a write that got stuck ended the connection with %v", c.Error())
			}
			released(procA, 2, 1, "after a write that got stuck")
		},
		Quick: mc.Bounds{Cost: 1}, Thorough: mc.Bounds{Cost: 2, Policies: []int{0, 1}},
	})
}
