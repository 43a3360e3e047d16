package main

import (
	"context"
	"net"
	"sync"
	"time"

	"github.com/perlin-network/noise"
	"verif.local/rt/mc"
	"verif.local/rt/vnet"
	"verif.local/rt/vsched"
)

// What a peer does once it has reached its stage.
const (
	peerCloses = iota
	peerStalls
	peerShutsWrite
)

// What happens on the calling side.
const (
	evNone = iota
	evTimeout
	evCancel
	evNodeClose
	evClientClose
	evNodeCloseLate
	evClientCloseLate
	numEvents
)

// call makes the op-th kind of call.
func call(op int, n *noise.Node, ctx context.Context, to string) error {
	switch op {
	case 0:
		_, err := n.Request(ctx, to, []byte("request"))
		return err
	case 1:
		return n.Send(ctx, to, []byte("message"))
	}
	_, err := n.Ping(ctx, to)
	return err
}

func closeClients(g int, n *noise.Node) {
	in(g, func() {
		for _, c := range n.Outbound() {
			c.Close()
		}
		for _, c := range n.Inbound() {
			c.Close()
		}
	})
}

func c02stages(name, doc string, stages []int, acts []int, evs []int, ops int, q, t mc.Bounds, native int) {
	mc.Add(mc.Scenario{Prop: "C02", Name: name, Doc: doc, Quick: q, Thorough: t, Native: native, Run: func() {
		st := stages[vsched.Pick(len(stages))]
		act := acts[vsched.Pick(len(acts))]
		ev := evs[vsched.Pick(len(evs))]
		op := vsched.Pick(ops)
		if ev == evNone && act == peerStalls {
			vsched.Discard("nothing ends the call")
		}
		if st == stGarbage || st == stShort {
			// these end the connection by themselves
			act = peerStalls
		}
		if op != 0 && st > stRead {
			vsched.Discard("no request to answer")
		}
		var a *noise.Node
		base := 0
		l, addr := rawListen(procB)
		vsched.Quiet(func() {
			a = node(procA, nil, noise.WithNodeMaxDialAttempts(2))
			rawAccept(procB, l, func(i int, p *rawPeer) {
				if p.upTo(st, byte(i), rawID(procB, port(l)), key(procB)) != nil {
					p.conn.Close()
					return
				}
				switch act {
				case peerCloses:
					p.conn.Close()
				case peerShutsWrite:
					if c, ok := p.conn.(interface{ CloseWrite() error }); ok {
						c.CloseWrite()
					}
				}
			})
			vsched.Quiesce()
			if !vsched.Native {
				base = len(vsched.LiveInGroup(procA))
			}
		})
		ctx, cancel := bg(), func() {}
		switch ev {
		case evTimeout:
			ctx = timeout(time.Second)
		case evCancel:
			ctx, cancel = context.WithCancel(bg())
		}
		d := spawn(procA, func() {
			if err := call(op, a, ctx, addr); err == nil {
				vsched.Fact("call succeeded")
			} else {
				vsched.Fact("call failed")
			}
		})
		closed := false
		switch ev {
		case evCancel:
			spawn(procA, cancel)
		case evNodeClose:
			spawn(procA, func() { a.Close() })
			closed = true
		case evClientClose:
			spawn(procA, func() { closeClients(procA, a) })
			if act == peerStalls {
				// one that is dialled after that is closed, too
				vsched.Quiesce()
				closeClients(procA, a)
				vsched.Quiesce()
				closeClients(procA, a)
			}
		case evNodeCloseLate:
			vsched.Quiesce()
			spawn(procA, func() { a.Close() })
			closed = true
		case evClientCloseLate:
			for i := 0; i < 3; i++ {
				vsched.Quiesce()
				closeClients(procA, a)
			}
		}
		join(d)
		if closed {
			released(procA, 0, 0, "after Close")
			return
		}
		closeClients(procA, a)
		released(procA, base, 1, "after the connections were closed")
		shut(procA, a)
	}})
}

func init() {
	var all, shaking, established []int
	for st := 0; st < numStages; st++ {
		all = append(all, st)
		if st < stEstablished {
			shaking = append(shaking, st)
		} else {
			established = append(established, st)
		}
	}
	ends := []int{peerCloses, peerShutsWrite}
	c02stages("c02-peer-ends", "the peer closes, or stops writing, at every stage of handshake and exchange: the call returns and nothing of the connection is left",
		all, ends, []int{evNone}, 3, mc.Bounds{Cost: 2, Policies: []int{0, 1, 2}, Weight: 5}, mc.Bounds{Cost: 3, Policies: []int{0, 1, 2}}, 6)
	c02stages("c02-stalled-handshake", "the peer stalls at every stage of the handshake while the caller's context or connection or node ends",
		shaking, []int{peerStalls}, []int{evTimeout, evCancel, evNodeClose, evClientClose, evNodeCloseLate, evClientCloseLate}, 2, mc.Bounds{Cost: 2, Policies: []int{0, 1}}, mc.Bounds{Cost: 3, Policies: []int{0, 1, 2}, Weight: 2}, 6)
	c02stages("c02-stalled-exchange", "the peer stalls at every stage of the exchange while the caller's context or connection or node ends",
		established, []int{peerStalls}, []int{evTimeout, evCancel, evNodeClose, evClientClose, evNodeCloseLate, evClientCloseLate}, 3, mc.Bounds{Cost: 2, Policies: []int{0, 1, 2}}, mc.Bounds{Cost: 3, Policies: []int{0, 1, 2}, Weight: 2}, 6)
	c02stages("c02-both-ends", "the peer closes at every stage while the caller's side does something, too",
		all, ends[:1], []int{evCancel, evNodeClose, evClientClose}, 3, mc.Bounds{Cost: 2, Policies: []int{0}}, mc.Bounds{Cost: 3, Policies: []int{0, 1}, Weight: 2}, 2)
	c02stages("c02-late-interleavings", "a request on an established connection that ends from either side, at a deeper bound",
		[]int{stEstablished, stRead}, ends[:1], []int{evNone, evClientClose}, 1, mc.Bounds{Cost: 3, Policies: []int{0, 1, 2}, Weight: 5}, mc.Bounds{Cost: 5, Policies: []int{0, 1, 2}, Weight: 2}, 0)

	mc.Add(mc.Scenario{
		Prop: "C02", Name: "c02-many-pending", Doc: "several requests and sends are under way when the connection ends; each returns",
		Run: func() {
			how := vsched.Pick(4)
			var a *noise.Node
			l, addr := rawListen(procB)
			vsched.Quiet(func() {
				a = node(procA, nil)
				rawServe(procB, l, func(p *rawPeer) {
					p.recv()
					if how == 0 {
						p.conn.Close()
					}
				})
				connect(procA, a, addr)
			})
			var ds []chan struct{}
			for i := 0; i < 3; i++ {
				i := i
				ds = append(ds, spawn(procA, func() {
					if i == 2 {
						a.Send(bg(), addr, []byte("plain"))
					}
					if _, err := a.Request(timeout(time.Minute), addr, []byte("x")); err == nil {
						vsched.Fail("a request nobody answered succeeded")
					}
				}))
			}
			switch how {
			case 1:
				spawn(procA, func() { closeClients(procA, a) })
			case 2:
				spawn(procA, func() { a.Close() })
			case 3:
				vsched.Quiesce()
				spawn(procA, func() { closeClients(procA, a) })
			}
			join(ds...)
			shut(procA, a)
			released(procA, 0, 0, "after Close")
		},
		Quick: mc.Bounds{Cost: 2, Policies: []int{0, 1}}, Thorough: mc.Bounds{Cost: 3, Policies: []int{0, 1, 2}}, Native: 4,
	})
	mc.Add(mc.Scenario{
		Prop: "C02", Name: "c02-hundreds-pending", Doc: "300 requests and 100 messages are under way, over a connection whose peer reads them or not, when it is ended by the peer, by the node's side, by the node's end or by the requests' contexts: each returns",
		Run: func() {
			how := vsched.Pick(4)
			reads := vsched.Pick(2) == 1
			var a *noise.Node
			over := make(chan struct{})
			l, addr := rawListen(procB)
			vsched.Quiet(func() {
				a = node(procA, nil)
				rawServe(procB, l, func(p *rawPeer) {
					if reads {
						go p.drain()
					}
					<-over
					p.conn.Close()
				})
				connect(procA, a, addr)
				if !reads && !vsched.Native {
					vnet.Narrow(3000)
				}
			})
			ctx, cancel := context.WithCancel(context.Background())
			defer cancel()
			returned := 0
			var ds []chan struct{}
			for i := 0; i < 400; i++ {
				i := i
				ds = append(ds, spawn(procA, func() {
					if i%4 == 3 {
						a.Send(ctx, addr, []byte("plain"))
					} else if _, err := a.Request(ctx, addr, []byte("x")); err == nil {
						vsched.Fail("a request nobody answered succeeded")
					}
					g := guard()
					returned++
					g()
				}))
			}
			vsched.Quiesce()
			g := guard()
			if returned != 100 {
				vsched.Fail("%d calls returned, of which 100 are not to wait", returned)
			}
			g()
			switch how {
			case 0:
				close(over)
			case 1:
				in(procA, func() { closeClients(procA, a) })
			case 2:
				in(procA, func() { a.Close() })
			case 3:
				cancel()
			}
			join(ds...)
			if how != 0 {
				close(over)
			}
			shut(procA, a)
			released(procA, 0, 0, "after Close")
		},
		Quick: mc.Bounds{}, Thorough: mc.Bounds{Policies: []int{0, 1, 2}}, Native: 2,
	})
	mc.Add(mc.Scenario{
		Prop: "C02", Name: "c02-late-answer", Doc: "a peer answers requests whose contexts end before, while or after it does; the next request over the connection is answered, a closing connection leaves nothing",
		Run: func() {
			how := vsched.Pick(3)
			late := vsched.Pick(3)
			var a *noise.Node
			base := 0
			l, addr := rawListen(procB)
			vsched.Quiet(func() {
				a = node(procA, nil)
				rawServe(procB, l, func(p *rawPeer) {
					for i := 0; ; i++ {
						n, data, err := p.recv()
						if err != nil {
							p.conn.Close()
							return
						}
						if i == 0 {
							switch late {
							case 1:
								time.Sleep(2 * time.Second) // the request's context ends after one
							case 2:
								time.Sleep(time.Second)
							}
						}
						for r := 0; r < 1+how; r++ {
							p.send(n, data) //nolint
						}
					}
				})
				vsched.Quiesce()
				if !vsched.Native {
					base = len(vsched.LiveInGroup(procA))
				}
				connect(procA, a, addr)
			})
			ctx, cancel := context.WithTimeout(bg(), time.Second)
			d := spawn(procA, func() {
				a.Request(ctx, addr, []byte("first")) //nolint
			})
			if late == 0 {
				spawn(procA, cancel)
			}
			join(d)
			if how < 2 {
				// Nothing but the deadline of a minute could end this one.
				join(spawn(procA, func() {
					if _, err := a.Request(timeout(time.Minute), addr, []byte("second")); err != nil {
						vsched.Fail("a request after one that ended was not answered: %v", err)
					}
				}))
			}
			closeClients(procA, a)
			released(procA, base, 1, "after the connection was closed")
			cancel()
			shut(procA, a)
			released(procA, 0, 0, "after Close")
		},
		Quick: mc.Bounds{Cost: 2, Policies: []int{0, 1}}, Thorough: mc.Bounds{Cost: 3, Policies: []int{0, 1, 2}},
	})
	mc.Add(mc.Scenario{
		Prop: "C02", Name: "c02-stalled-exchange-many-addresses", Doc: "calls to several peers at once, one of which stalls while another one answers and the node closes",
		Run: func() {
			var a, c *noise.Node
			l, addr := rawListen(procB)
			vsched.Quiet(func() {
				a = node(procA, nil)
				c = node(procC, echo)
				rawAccept(procB, l, func(i int, p *rawPeer) { p.upTo(stSession, byte(i), rawID(procB, port(l)), key(procB)) })
			})
			d1 := spawn(procA, func() { call(0, a, bg(), addr) })
			d2 := spawn(procA, func() {
				if err := call(0, a, bg(), c.Addr()); err != nil {
					vsched.Fail("a stalled peer keeps a call to another from succeeding: %v", err)
				}
			})
			join(d2)
			shut(procA, a)
			join(d1)
			released(procA, 0, 0, "after Close")
		},
		Quick: mc.Bounds{Cost: 2, Policies: []int{0, 1, 2}}, Thorough: mc.Bounds{Cost: 4, Policies: []int{0, 1, 2}}, Native: 1,
	})
	mc.Add(mc.Scenario{
		Prop: "C02", Name: "c02-responder-gone", Doc: "the node that was asked fails in its handler, closes its connection from the handler, closes, or never answers",
		Run: func() {
			how := vsched.Pick(5)
			var a, b *noise.Node
			base := 0
			vsched.Quiet(func() {
				a = node(procA, nil)
				b = node(procB, func(ctx noise.HandlerContext) error {
					switch how {
					case 0:
						return context.Canceled
					case 1:
						for _, c := range b.Inbound() {
							c.Close()
						}
					case 2:
						go b.Close()
					}
					return nil
				})
				vsched.Quiesce()
				if !vsched.Native {
					base = len(vsched.LiveInGroup(procA))
				}
				connect(procA, a, b.Addr())
			})
			ctx := bg()
			if how == 4 {
				ctx = timeout(time.Second)
			}
			d := spawn(procA, func() {
				if err := call(0, a, ctx, b.Addr()); err == nil {
					vsched.Fail("a request nobody answered succeeded")
				}
			})
			if how == 3 {
				spawn(procB, func() { b.Close() })
			}
			join(d)
			closeClients(procA, a)
			released(procA, base, 1, "after the connection was closed")
			shut(procA, a)
			shut(procB, b)
			released(procA, 0, 0, "after Close")
			released(procB, 0, 0, "after Close")
		},
		Quick: mc.Bounds{Cost: 2, Policies: []int{0, 1, 2}}, Thorough: mc.Bounds{Cost: 3, Policies: []int{0, 1, 2}}, Native: 5,
	})
	mc.Add(mc.Scenario{
		Prop: "C02", Name: "c02-blocked-writer", Doc: "the peer does not read, so that writing blocks; the connection is closed from either side",
		Run: func() {
			how := vsched.Pick(3)
			var a *noise.Node
			l, addr := rawListen(procB)
			base := 0
			vsched.Quiet(func() {
				vnet.SetBuffer(300)
				a = node(procA, nil)
				rawServe(procB, l, func(p *rawPeer) {
					vsched.Quiesce()
					if how == 2 {
						p.conn.Close()
					}
				})
				vsched.Quiesce()
				if !vsched.Native {
					base = len(vsched.LiveInGroup(procA))
				}
				connect(procA, a, addr)
			})
			d := spawn(procA, func() {
				for i := 0; i < 3; i++ {
					a.Send(bg(), addr, make([]byte, 200))
				}
				call(0, a, timeout(time.Hour), addr)
			})
			vsched.Quiesce()
			switch how {
			case 0:
				spawn(procA, func() { closeClients(procA, a) })
			case 1:
				spawn(procA, func() { a.Close() })
			}
			join(d)
			if how == 1 {
				released(procA, 0, 0, "after Close")
				return
			}
			closeClients(procA, a)
			released(procA, base, 1, "after the connection was closed")
		},
		Quick: mc.Bounds{Cost: 2, Policies: []int{0, 1}}, Thorough: mc.Bounds{Cost: 3, Policies: []int{0, 1, 2}}, Native: 0,
	})
	mc.Add(mc.Scenario{
		Prop: "C02", Name: "c02-evicted", Doc: "a connection with a request under way is evicted from the pool",
		Run: func() {
			var a, b, c *noise.Node
			vsched.Quiet(func() {
				a = node(procA, nil, noise.WithNodeMaxOutboundConnections(1), noise.WithNodeMaxInboundConnections(1))
				b = node(procB, func(noise.HandlerContext) error { return nil })
				c = node(procC, echo)
				connect(procA, a, b.Addr())
			})
			d := spawn(procA, func() {
				if err := call(0, a, timeout(3*time.Second), b.Addr()); err == nil {
					vsched.Fail("a request nobody answered succeeded")
				}
			})
			d2 := spawn(procA, func() { call(0, a, timeout(3*time.Second), c.Addr()) })
			join(d, d2)
			shut(procA, a)
			released(procA, 0, 0, "after Close")
		},
		Quick: mc.Bounds{Cost: 1, Policies: []int{0, 1, 2}}, Thorough: mc.Bounds{Cost: 2, Policies: []int{0, 1, 2}}, Native: 1,
	})
	mc.Add(mc.Scenario{
		Prop: "C02", Name: "c02-inbound", Doc: "a remote that connected stops at every stage, by closing or stalling, and the node's side of it is released once either side closes",
		Run: func() {
			st := vsched.Pick(stEstablished + 1)
			how := vsched.Pick(3)
			var a *noise.Node
			base := 0
			vsched.Quiet(func() {
				a = node(procA, nil)
				vsched.Quiesce()
				if !vsched.Native {
					base = len(vsched.LiveInGroup(procA))
				}
			})
			p, err := rawDial(a.Addr())
			must(err)
			d := spawn(procB, func() {
				p.upTo(st, 1, rawID(procB, 1), key(procB))
				if how == 0 {
					p.conn.Close()
				}
			})
			switch how {
			case 1:
				join(d)
				vsched.Quiesce()
				closeClients(procA, a)
			case 2:
				join(spawn(procA, func() { a.Close() }))
				released(procA, 0, 0, "after Close")
				return
			}
			join(d)
			released(procA, base, 1, "after the connection was closed")
		},
		Quick: mc.Bounds{Cost: 2, Policies: []int{0, 1}}, Thorough: mc.Bounds{Cost: 3, Policies: []int{0, 1, 2}}, Native: 4,
	})
	mc.Add(mc.Scenario{
		Prop: "C02", Name: "c02-dial", Doc: "the address refuses or does not answer the dial while the context, the connection or the node ends",
		Run: func() {
			act := []vnet.Action{vnet.Refuse, vnet.Hang}[vsched.Pick(2)]
			ev := vsched.Pick(numEvents)
			op := vsched.Pick(2)
			if act == vnet.Hang && ev == evNone {
				vsched.Discard("nothing ends the call")
			}
			var a *noise.Node
			base := 0
			vsched.Quiet(func() {
				a = node(procA, nil, noise.WithNodeMaxDialAttempts(2))
				vsched.Quiesce()
				if !vsched.Native {
					base = len(vsched.LiveInGroup(procA))
				}
			})
			const addr = "127.0.0.1:7777"
			vnet.OnDial(addr, func(int) vnet.Action { return act })
			ctx, cancel := bg(), func() {}
			switch ev {
			case evTimeout:
				ctx = timeout(time.Second)
			case evCancel:
				ctx, cancel = context.WithCancel(bg())
			}
			d := spawn(procA, func() {
				if call(op, a, ctx, addr) == nil {
					vsched.Fail("a call to nobody succeeded")
				}
			})
			closed := false
			switch ev {
			case evCancel:
				spawn(procA, cancel)
			case evNodeClose:
				spawn(procA, func() { a.Close() })
				closed = true
			case evNodeCloseLate:
				vsched.Quiesce()
				a.Close()
				closed = true
			case evClientClose, evClientCloseLate:
				for i := 0; i < 3; i++ {
					vsched.Quiesce()
					closeClients(procA, a)
				}
			}
			join(d)
			if closed {
				released(procA, 0, 0, "after Close")
				return
			}
			closeClients(procA, a)
			released(procA, base, 1, "after the call")
		},
		Quick: mc.Bounds{Cost: 2, Policies: []int{0, 1}}, Thorough: mc.Bounds{Cost: 3, Policies: []int{0, 1, 2}}, Native: 0,
	})

	for _, local := range []bool{true, false} {
		local := local
		name, doc := "c02-asking-handlers", "the handlers that occupy all workers of a node ask a peer, which sends a few or more messages than the node has room for ahead of its responses; it answers or closes, or the connection, the node or the context ends"
		if !local {
			name, doc = "c02-asking-handlers-full", "the same with no room for the messages, and the peer answers or closes"
		}
		mc.Add(mc.Scenario{
			Prop: "C02", Name: name, Doc: doc,
			Run: func() {
				workers := 1 + vsched.Pick(2)
				end, more := 0, 0
				if local {
					if end = vsched.Pick(5); end < 3 {
						more = workers + vsched.Pick(3)
					} else {
						more = vsched.Pick(workers + 1)
					}
				} else {
					end, more = 3+vsched.Pick(2), workers+1
				}
				var a *noise.Node
				var asked, returned int
				var mu sync.Mutex
				base := 0
				l, addr := rawListen(procB)
				ctx, cancel := context.WithCancel(bg())
				sent := make(chan struct{})
				vsched.Quiet(func() {
					a = node(procA, func(h noise.HandlerContext) error {
						if string(h.Data()) != "go" {
							return nil
						}
						mu.Lock()
						asked++
						mu.Unlock()
						a.Request(ctx, addr, []byte("?")) //nolint
						mu.Lock()
						returned++
						mu.Unlock()
						return nil
					}, noise.WithNodeNumWorkers(uint(workers)))
					if !vsched.Native {
						vsched.Quiesce()
						base = len(vsched.LiveInGroup(procA))
					}
					rawServe(procB, l, func(p *rawPeer) {
						defer p.drain() //nolint
						l.Close()
						for i := 0; i < workers; i++ {
							if p.send(0, []byte("go")) != nil {
								break
							}
						}
						var nonces []uint64
						for i := 0; i < workers; i++ {
							n, _, err := p.recv()
							if err != nil {
								break
							}
							nonces = append(nonces, n)
						}
						for i := 0; i < more; i++ {
							p.send(0, []byte("more")) //nolint
						}
						close(sent)
						switch end {
						case 3:
							p.conn.Close()
						case 4:
							for _, n := range nonces {
								p.send(n, []byte("!")) //nolint
							}
						}
					})
				})
				join(spawn(procA, func() { a.Ping(bg(), addr) })) //nolint
				if vsched.Native || end >= 3 {
					<-sent
				}
				switch end {
				case 0:
					for _, c := range a.Outbound() {
						join(spawn(procA, c.Close))
					}
				case 1:
					shut(procA, a)
				case 2:
					cancel()
				}
				if !vsched.Native {
					vsched.Quiesce()
					if asked != returned {
						vsched.Fail("%s: requests made in handlers do not return", []string{"the connection was closed", "the node was closed", "the context was cancelled", "the peer closed the connection", "the peer answered"}[end])
					}
					if end == 0 || end == 3 {
						released(procA, base, 1, "after the connection ended")
					}
				}
				shut(procA, a)
				released(procA, 0, 0, "after Close")
				cancel()
			},
			Quick: mc.Bounds{Cost: 2}, Thorough: mc.Bounds{Cost: 3, Policies: []int{0, 1}},
		})
	}
	mc.Add(mc.Scenario{
		Prop: "C02", Name: "c02-without-listen", Doc: "a node that never listened asks a peer that sends messages ahead of its response, answers, closes or goes silent; the connection, the node or the context ends",
		Run: func() {
			messages := vsched.Pick(3)
			end := vsched.Pick(5)
			var a *noise.Node
			l, addr := rawListen(procB)
			ctx, cancel := context.WithCancel(bg())
			sent := make(chan struct{})
			vsched.Quiet(func() {
				a = newNode(procA, noise.WithNodeBindHost(net.IPv4(127, 0, 0, 1)), noise.WithNodeBindPort(7500))
				rawServe(procB, l, func(p *rawPeer) {
					defer p.drain() //nolint
					l.Close()
					n, _, err := p.recv()
					if err != nil {
						close(sent)
						return
					}
					for i := 0; i < messages; i++ {
						p.send(uint64(i)<<40, []byte("hello")) //nolint
					}
					close(sent)
					switch end {
					case 0:
						p.send(n, []byte("!")) //nolint
					case 1:
						p.conn.Close()
					}
				})
			})
			d := spawn(procA, func() {
				got, err := a.Request(ctx, addr, []byte("?"))
				if end == 0 && (err != nil || string(got) != "!") {
					vsched.Fail("the response was %q, %v", got, err)
				}
				if end != 0 && err == nil {
					vsched.Fail("there was a response: %q", got)
				}
			})
			if vsched.Native {
				<-sent
			}
			switch end {
			case 2:
				cancel()
			case 3:
				shut(procA, a)
			case 4:
				<-sent
				for _, c := range a.Outbound() {
					join(spawn(procA, c.Close))
				}
			}
			join(d)
			if end == 1 || end == 4 {
				released(procA, 0, 0, "after the connection ended")
			}
			shut(procA, a)
			released(procA, 0, 0, "after Close")
			cancel()
		},
		Quick: mc.Bounds{Cost: 2}, Thorough: mc.Bounds{Cost: 3, Policies: []int{0, 1}},
	})
}
