package main

import (
	"context"
	"net"
	"time"

	"github.com/perlin-network/noise"
	"github.com/perlin-network/noise/gossip"
	"github.com/perlin-network/noise/kademlia"
	"go.uber.org/zap"
	"verif.local/rt/mc"
	"verif.local/rt/vsched"
)

// The scenarios here only have to make documented concurrent uses meet. The judge is the race detector, which sees the
// library's and this file's memory accesses, and of synchronisation only what the library itself does: the scheduler's
// own hand-offs are hidden from it.

func race(name, doc string, run func(), quick int) {
	mc.Add(mc.Scenario{Prop: "C27", Name: name, Doc: doc, Run: run, Race: true,
		Quick: mc.Bounds{Cost: quick}, Thorough: mc.Bounds{Cost: quick + 1, Policies: []int{0, 1}}})
}

// look uses everything there is to look at about the connections of n.
func look(n *noise.Node) {
	for _, c := range append(n.Inbound(), n.Outbound()...) {
		_ = c.ID()
		_ = c.Error()
		_ = c.Logger()
	}
}

func init() {
	race("c27-calls", "three threads of one node send, request and ping over one connection they dial together", func() {
		var a, b *noise.Node
		vsched.Quiet(func() {
			a, b = node(procA, nil), node(procB, echo)
		})
		join(
			spawn(procA, func() { a.Send(bg(), b.Addr(), []byte("one")) }),
			spawn(procA, func() {
				if data, err := a.Request(bg(), b.Addr(), []byte("two")); err == nil && string(data) != "re:two" {
					vsched.Fail("response %q", data)
				}
			}),
			spawn(procA, func() { a.Ping(bg(), b.Addr()); look(a) }),
		)
		vsched.Settle()
	}, 2)
	race("c27-listing", "connections are listed and looked at while they are set up, used and closed", func() {
		var a, b *noise.Node
		vsched.Quiet(func() {
			a, b = node(procA, nil), node(procB, echo)
		})
		t := spawn(procA, func() {
			c, err := a.Ping(bg(), b.Addr())
			if err == nil {
				_ = c.ID()
				c.SetLogger(zap.NewNop())
				c.Close()
			}
		})
		u := spawn(procA, func() { look(a); look(a) })
		v := spawn(procB, func() { look(b); look(b) })
		join(t, u, v)
		vsched.Settle()
		look(a)
		look(b)
	}, 2)
	race("c27-setup", "handlers, protocols and message types are registered by several threads before the node listens", func() {
		n := newNode(procA)
		var ts []chan struct{}
		for i := 0; i < 3; i++ {
			i := i
			ts = append(ts, spawn(procA, func() {
				n.Handle(func(noise.HandlerContext) error { return nil })
				n.Bind(noise.Protocol{})
				switch i {
				case 0:
					n.RegisterMessage(kademlia.Ping{}, kademlia.UnmarshalPing)
				case 1:
					n.RegisterMessage(kademlia.Pong{}, kademlia.UnmarshalPong)
				case 2:
					n.EncodeMessage(kademlia.Ping{})
					n.DecodeMessage([]byte{0, 0})
				}
			}))
		}
		join(ts...)
		listen(procA, n)
		shut(procA, n)
		vsched.Settle()
	}, 2)
	race("c27-both-ways", "two nodes with an overlay dial, message and request each other at once while their connections and tables are looked at", func() {
		var ns [2]*noise.Node
		var ks [2]*kademlia.Protocol
		vsched.Quiet(func() {
			for i := range ns {
				ns[i], ks[i], _ = overlay(procA+i, qa)
			}
		})
		var ts []chan struct{}
		for i := range ns {
			i := i
			ts = append(ts, spawn(procA+i, func() {
				ns[i].Send(bg(), ns[1-i].Addr(), []byte("x"))
				ns[i].Request(bg(), ns[1-i].Addr(), []byte("q:x"))
			}), spawn(procA+i, func() {
				ks[i].Table().Entries()
				ks[i].Table().Peers()
				look(ns[i])
				_, _ = ns[i].ID(), ns[i].Addr()
			}))
		}
		join(ts...)
		vsched.Settle()
	}, 2)
	race("c27-evictions", "a node that may keep one connection in each direction dials two nodes and is dialled by them, at once, and looks at its connections", func() {
		var a, b, c *noise.Node
		vsched.Quiet(func() {
			a = node(procA, echo, noise.WithNodeMaxInboundConnections(1), noise.WithNodeMaxOutboundConnections(1))
			b, c = node(procB, echo), node(procC, echo)
		})
		join(
			spawn(procA, func() { a.Request(timeout(time.Minute), b.Addr(), []byte("1")) }),
			spawn(procA, func() { a.Request(timeout(time.Minute), c.Addr(), []byte("2")); look(a) }),
			spawn(procB, func() { b.Request(timeout(time.Minute), a.Addr(), []byte("3")) }),
			spawn(procC, func() { c.Request(timeout(time.Minute), a.Addr(), []byte("4")) }),
		)
		vsched.Settle()
	}, 1)
	race("c27-close", "a node is closed, by two threads, while it is dialled, listed, and used by others", func() {
		var a, b *noise.Node
		vsched.Quiet(func() {
			a, b = node(procA, echo), node(procB, echo)
			connect(procB, b, a.Addr())
		})
		join(
			spawn(procA, func() { a.Close() }),
			spawn(procA, func() { a.Close(); look(a) }),
			spawn(procA, func() { a.Request(timeout(time.Second), b.Addr(), []byte("1")); look(a) }),
			spawn(procB, func() { b.Request(timeout(time.Second), a.Addr(), []byte("2")); look(b) }),
		)
		vsched.Settle()
	}, 2)
	race("c27-clients-closed", "a connection is closed by two threads at each end while it is used, waited for and looked at", func() {
		var a, b *noise.Node
		var c *noise.Client
		vsched.Quiet(func() {
			a, b = node(procA, echo), node(procB, echo)
			c = connect(procA, a, b.Addr())
		})
		join(
			spawn(procA, func() { c.Close(); _ = c.Error() }),
			spawn(procA, func() { c.Close(); look(a) }),
			spawn(procA, func() { a.Request(timeout(time.Second), b.Addr(), []byte("1")) }),
			spawn(procB, func() {
				for _, c := range b.Inbound() {
					c.Close()
					_, _ = c.ID(), c.Error()
				}
			}),
		)
		vsched.Settle()
	}, 2)
	race("c27-replies", "a handler hands its request to two threads that both reply to it, look at it, and one of which sends a message besides", func() {
		var a, b *noise.Node
		vsched.Quiet(func() {
			a = node(procA, nil)
			b = node(procB, func(ctx noise.HandlerContext) error {
				if !ctx.IsRequest() {
					return nil
				}
				for i := 0; i < 2; i++ {
					i := i
					go func() {
						_, _, _ = ctx.ID(), ctx.Logger(), len(ctx.Data())
						ctx.Send(append([]byte{byte(i)}, ctx.Data()...))
						if i == 1 {
							ctx.SendMessage(note{"x"})
						}
					}()
				}
				return nil
			})
			in(procB, func() { b.RegisterMessage(note{}, unmarshalNote) })
			connect(procA, a, b.Addr())
		})
		join(
			spawn(procA, func() { a.Request(timeout(time.Second), b.Addr(), []byte("1")) }),
			spawn(procA, func() { a.Request(timeout(time.Second), b.Addr(), []byte("2")) }),
		)
		vsched.Settle()
	}, 2)
	race("c27-buffers", "what was sent is changed after the call, what was received is changed at once, by handlers, requesters and threads they start, while more arrives", func() {
		var a, b *noise.Node
		scribble := func(d []byte) {
			for i := range d {
				d[i]++
			}
		}
		h := func(ctx noise.HandlerContext) error {
			d := ctx.Data()
			if ctx.IsRequest() {
				r := append([]byte{1}, d...)
				if err := ctx.Send(r); err != nil {
					return err
				}
				scribble(r)
			}
			go scribble(d)
			return nil
		}
		vsched.Quiet(func() {
			a, b = node(procA, nil), node(procB, h, noise.WithNodeNumWorkers(2))
			connect(procA, a, b.Addr())
		})
		var ts []chan struct{}
		for i := 0; i < 2; i++ {
			ts = append(ts, spawn(procA, func() {
				d := []byte("some data")
				a.Send(bg(), b.Addr(), d)
				scribble(d)
				r, _ := a.Request(timeout(time.Second), b.Addr(), d)
				scribble(d)
				scribble(r)
			}))
		}
		join(ts...)
		vsched.Settle()
	}, 2)
	race("c27-cancelled", "requests are cancelled while they are dialled for and answered, others are not", func() {
		var a, b *noise.Node
		vsched.Quiet(func() {
			a, b = node(procA, nil), node(procB, echo)
		})
		ctx, cancel := context.WithCancel(bg())
		join(
			spawn(procA, func() { a.Request(ctx, b.Addr(), []byte("1")) }),
			spawn(procA, func() { a.Request(timeout(time.Second), b.Addr(), []byte("2")) }),
			spawn(procA, func() { cancel(); look(a) }),
		)
		vsched.Settle()
	}, 2)
	race("c27-types", "message types are registered while messages are encoded, sent, requested and decoded", func() {
		var a, b *noise.Node
		vsched.Quiet(func() {
			a, b = newNode(procA), newNode(procB)
			for _, n := range []*noise.Node{a, b} {
				n.RegisterMessage(note{}, unmarshalNote)
				n.Handle(func(ctx noise.HandlerContext) error {
					m, err := ctx.DecodeMessage()
					if err != nil || !ctx.IsRequest() {
						return err
					}
					return ctx.SendMessage(m.(note))
				})
			}
			listen(procA, a)
			listen(procB, b)
		})
		join(
			spawn(procA, func() { a.RegisterMessage(kademlia.Ping{}, kademlia.UnmarshalPing) }),
			spawn(procB, func() { b.RegisterMessage(kademlia.Ping{}, kademlia.UnmarshalPing) }),
			spawn(procA, func() { a.RequestMessage(timeout(time.Second), b.Addr(), note{"1"}) }),
			spawn(procA, func() {
				a.SendMessage(bg(), b.Addr(), note{"2"})
				if d, err := a.EncodeMessage(note{"3"}); err == nil {
					a.DecodeMessage(d)
				}
			}),
		)
		vsched.Settle()
	}, 2)
	race("c27-loggers", "loggers of connections are set and used by several threads while the connections are used", func() {
		var a, b *noise.Node
		vsched.Quiet(func() {
			a, b = node(procA, nil), node(procB, func(ctx noise.HandlerContext) error {
				ctx.Logger().Debug("x")
				return echo(ctx)
			})
			connect(procA, a, b.Addr())
		})
		set := func(n *noise.Node) {
			for _, c := range append(n.Inbound(), n.Outbound()...) {
				c.SetLogger(zap.NewNop())
				c.Logger().Debug("y")
			}
		}
		join(
			spawn(procA, func() { set(a) }),
			spawn(procA, func() { set(a); a.Logger().Debug("z") }),
			spawn(procB, func() { set(b) }),
			spawn(procA, func() { a.Request(timeout(time.Second), b.Addr(), []byte("1")) }),
		)
		closeClients(procA, a)
		vsched.Settle()
	}, 2)
	race("c27-discovery", "a node looks for peers, by two lookups at once, with several requests at once, while it is talked to", func() {
		var ns [3]*noise.Node
		var ks [3]*kademlia.Protocol
		vsched.Quiet(func() {
			for i := range ns {
				ns[i], ks[i], _ = overlay(procA+i, qa)
			}
			connect(procA, ns[0], ns[1].Addr())
			connect(procC, ns[2], ns[1].Addr())
		})
		join(
			spawn(procA, func() { ks[0].Discover() }),
			spawn(procA, func() { ks[0].Find(ns[2].ID().ID, kademlia.WithIteratorNumParallelLookups(2)) }),
			spawn(procC, func() { ns[2].Request(timeout(time.Second), ns[0].Addr(), []byte("q:x")) }),
			spawn(procB, func() { ks[1].Ping(timeout(time.Second), ns[0].Addr()) }),
		)
		vsched.Settle()
	}, 1)
	race("c27-lookups", "a lookup asks two peers at once, which name others that it has not heard of", func() {
		var b *noise.Node
		var k *kademlia.Protocol
		t := keyFrom(2000).Public()
		vsched.Quiet(func() {
			b, k = seeker()
			ms := []*member{newMember(procC, 0), newMember(procD, 1), newMember(procD+1, 2), newMember(procD+2, 3)}
			answerGraph(ms, 0b1100_1100)
			for i, m := range ms {
				m.serve(procC+i, t)
			}
			k.Table().Update(ms[0].id) //nolint
			k.Table().Update(ms[1].id) //nolint
		})
		_ = b
		join(spawn(procB, func() { k.Find(t) }), spawn(procB, func() { k.Table().Peers() }))
		vsched.Settle()
	}, 1)
	race("c27-gossip", "two nodes push to each other and to a third at once, with two workers each", func() {
		var hs []*gossip.Protocol
		vsched.Quiet(func() {
			var ns []*noise.Node
			for i := 0; i < 3; i++ {
				n, _, h := overlay(procA+i, nil, noise.WithNodeNumWorkers(2))
				hs, ns = append(hs, h), append(ns, n)
			}
			connect(procA, ns[0], ns[1].Addr())
			connect(procA, ns[0], ns[2].Addr())
			connect(procB, ns[1], ns[2].Addr())
		})
		var ts []chan struct{}
		for i := 0; i < 2; i++ {
			i := i
			ts = append(ts, spawn(procA+i, func() { hs[i].Push(timeout(time.Second), []byte("same")) }))
			ts = append(ts, spawn(procA+i, func() { hs[i].Push(timeout(time.Second), []byte{byte(i)}) }))
		}
		join(ts...)
		vsched.Settle()
	}, 1)
	race("c27-full-bucket", "newcomers connect to a node with a full bucket while its table is looked at and changed", func() {
		var b *noise.Node
		var k *kademlia.Protocol
		var ps [2]*rawPeer
		var ks []noise.PrivateKey
		vsched.Quiet(func() {
			b, k, _ = overlay(procB, nil, noise.WithNodeMaxDialAttempts(1))
			ks = bucketKeys(b.ID().ID, 0, 18)
			for i := 0; i < 16; i++ {
				k.Table().Update(noise.NewID(ks[i].Public(), net.IPv4(10, 0, 0, byte(i)), 7)) //nolint
			}
			for i := range ps {
				var err error
				ps[i], err = rawDial(b.Addr())
				must(err)
			}
		})
		var ts []chan struct{}
		for i := range ps {
			i := i
			spawn(procX, func() {
				if ps[i].shake(byte(9+i), rawIDOf(ks[16+i], uint16(1+i)), ks[16+i]) == nil {
					ps[i].drain()
				}
			})
		}
		ts = append(ts, spawn(procB, func() {
			k.Table().Bucket(ks[0].Public())
			k.Table().Last(ks[0].Public())
			k.Table().NumEntries()
			k.Table().FindClosest(ks[1].Public(), 3)
		}), spawn(procB, func() {
			k.Table().Recorded(ks[16].Public())
			k.Table().Delete(ks[3].Public())
			k.Table().DeleteByAddress("10.0.0.5:7")
		}))
		join(ts...)
		vsched.Settle()
	}, 2)
	race("c27-timeouts", "idle connections time out while they are used and looked at", func() {
		var a, b *noise.Node
		vsched.Quiet(func() {
			a = node(procA, echo, noise.WithNodeIdleTimeout(time.Second))
			b = node(procB, echo, noise.WithNodeIdleTimeout(time.Second))
			connect(procA, a, b.Addr())
		})
		join(
			spawn(procA, func() {
				time.Sleep(time.Second)
				a.Request(timeout(time.Second), b.Addr(), []byte("1"))
			}),
			spawn(procB, func() { time.Sleep(time.Second); look(b) }),
			spawn(procA, func() { time.Sleep(time.Second); look(a) }),
		)
		vsched.Settle()
	}, 2)
}
