package main

import (
	"context"
	"errors"
	"fmt"
	"time"

	"github.com/perlin-network/noise"
	"verif.local/rt/mc"
	"verif.local/rt/vnet"
	"verif.local/rt/vsched"
)

// slow is a peer whose first connection (or dial) only goes on past a stage once it is let go.
type slow struct {
	addr string
	name string
	go_  chan struct{}
	conn int
}

func slowly(g, st int) *slow {
	l, addr := rawListen(g)
	s := &slow{addr: addr, name: fmt.Sprintf("P%d", port(l)), go_: make(chan struct{})}
	if st < 0 && !vsched.Native {
		vnet.OnDial(addr, func(i int) vnet.Action {
			if i == 0 {
				return vnet.Hang
			}
			return vnet.Connect
		})
	}
	rawAccept(g, l, func(i int, p *rawPeer) {
		id := rawID(g, port(l))
		u := guard()
		s.conn++
		u()
		if i > 0 || st < 0 {
			if p.shake(byte(i+1), id, key(g)) == nil {
				answering(p)
			}
			return
		}
		p.slowShake(st, s.go_, id, key(g))
	})
	return s
}

// slowShake is an honest handshake, and echoing, that waits at a stage.
func (p *rawPeer) slowShake(st int, let chan struct{}, id noise.ID, k noise.PrivateKey) {
	at := func(s int) {
		if s == st {
			<-let
		}
	}
	at(stNothing)
	if p.hello(1) != nil {
		return
	}
	at(stHello)
	if p.recvHello() != nil {
		return
	}
	at(stSession)
	if p.sendProof(id, k) != nil {
		return
	}
	at(stProof)
	if p.recvProof() != nil {
		return
	}
	at(stEstablished)
	answering(p)
}

// calls makes a call of any kind and, if it is expected to succeed, checks its result.
func calls(op int, n *noise.Node, ctx context.Context, to, text string) error {
	if op == 0 {
		got, err := n.Request(ctx, to, []byte(text))
		if err == nil && string(got) != text {
			vsched.Fail("the response to %q is %q", text, got)
		}
		return err
	}
	return call(op, n, ctx, to)
}

func init() {
	mc.Add(mc.Scenario{
		Prop: "C16", Name: "c16-dialling", Doc: "two calls of all kinds to an address with no connection, one of them cancelled at any moment, with one or two dial attempts",
		Run: func() {
			op1, op2 := vsched.Pick(3), vsched.Pick(3)
			max := 1 + vsched.Pick(2)
			var n *noise.Node
			var s *server
			var w pings
			vsched.Quiet(func() {
				s = serve(procB)
				n = dialling(procA, &w, uint(max))
			})
			ctx, cancel := context.WithCancel(bg())
			t := spawn(procA, func() {
				if err := calls(op1, n, ctx, s.addr, "one"); err != nil && !errors.Is(err, context.Canceled) {
					vsched.Fail("a cancelled call returns %v", err)
				}
			})
			u := spawn(procA, func() {
				if err := calls(op2, n, bg(), s.addr, "two"); err != nil {
					vsched.Fail("the call with a live context fails: %v", err)
				}
			})
			spawn(procA, cancel)
			join(t, u)
			vsched.QuietOn()
			in(procA, func() {
				for op := 0; op < 3; op++ {
					if err := calls(op, n, bg(), s.addr, "later"); err != nil {
						vsched.Fail("a later call fails: %v", err)
					}
				}
			})
			vsched.QuietOff()
			consistent(procA, n, 128, "after a cancelled call")
			if len(n.Outbound()) != 1 {
				vsched.Fail("%d connections are listed", len(n.Outbound()))
			}
		},
		Quick: mc.Bounds{Cost: 2}, Thorough: mc.Bounds{Cost: 3, Policies: []int{0}}, Native: 6,
	})
	mc.Add(mc.Scenario{
		Prop: "C16", Name: "c16-slow", Doc: "the dial, or the handshake at any stage, takes until after one of two or three calls, started in every order, was cancelled or expired",
		Run: func() {
			stages := []int{-1, stNothing, stHello, stSession, stProof, stEstablished}
			st := stages[vsched.Pick(len(stages))]
			expires := vsched.Pick(2) == 1
			k := 2 + vsched.Pick(2)
			victim := vsched.Pick(k)
			settled := vsched.Pick(2) == 1 // everybody waits before anybody is cancelled
			late := vsched.Pick(2) == 1    // the last call is made after that
			max := 1 + vsched.Pick(2)
			if st < 0 && (victim != 0 || vsched.Native) {
				vsched.Discard("the dial never ends") // it is made for the first call, and only its context can end it
			}
			if late && victim == k-1 {
				vsched.Discard("cancelled before it starts")
			}
			if late && !settled {
				vsched.Discard("same")
			}
			var n *noise.Node
			var s *slow
			var w pings
			vsched.Quiet(func() {
				s = slowly(procB, st)
				n = dialling(procA, &w, uint(max))
			})
			ctx, cancel := context.WithCancel(bg())
			want := context.Canceled
			if expires {
				ctx, cancel = context.WithTimeout(bg(), time.Second)
				want = context.DeadlineExceeded
			}
			var ts []chan struct{}
			start := func(i int) {
				c := bg()
				if i == victim {
					c = ctx
				}
				ts = append(ts, spawn(procA, func() {
					err := calls(i%3, n, c, s.addr, fmt.Sprint("call ", i))
					if i == victim {
						if err != nil && !errors.Is(err, want) {
							vsched.Fail("a cancelled call returns %v", err)
						}
						if err == nil && st < stEstablished && st != stProof {
							vsched.Fail("a call succeeds before the handshake has")
						}
						if d := i % 3; err == nil && d == 0 {
							vsched.Fail("a request is answered before the peer did")
						}
					} else if err != nil {
						vsched.Fail("a call with a live context fails: %v", err)
					}
				}))
				if st < 0 && i == 0 {
					vsched.Quiesce()
				}
			}
			m := k
			if late {
				m--
			}
			for i := 0; i < m; i++ {
				start(i)
			}
			if settled {
				vsched.Quiesce()
			}
			if expires {
				<-ctx.Done()
			} else {
				cancel()
			}
			if settled {
				join(ts[victim])
			}
			if late {
				start(k - 1)
			}
			if settled {
				vsched.Quiesce()
			} else {
				join(ts[victim])
			}
			close(s.go_)
			join(ts...)
			vsched.Quiet(func() {
				join(spawn(procA, func() {
					if err := calls(0, n, bg(), s.addr, "later"); err != nil {
						vsched.Fail("a later call fails: %v", err)
					}
				}))
			})
			if len(n.Outbound()) != 1 {
				vsched.Fail("%d connections are listed", len(n.Outbound()))
			}
		},
		Quick: mc.Bounds{Cost: 1}, Thorough: mc.Bounds{Cost: 2, Policies: []int{0, 1}}, Native: 6,
	})
	mc.Add(mc.Scenario{
		Prop: "C16", Name: "c16-live", Doc: "on a live connection with a request in flight, another call is cancelled before, during or after it is made; then everything is answered",
		Run: func() {
			op := vsched.Pick(3)
			when := vsched.Pick(3) // already cancelled; at any moment; while its request is in flight
			order := vsched.Pick(2)
			var n *noise.Node
			var p *rawPeer
			var addr string
			var c *noise.Client
			vsched.Quiet(func() {
				l, a := rawListen(procB)
				addr = a
				ps := make(chan *rawPeer, 4)
				rawServe(procB, l, func(p *rawPeer) { ps <- p })
				n = node(procA, nil, noise.WithNodeMaxDialAttempts(1))
				c = connect(procA, n, addr)
				p = <-ps
			})
			ctx, cancel := context.WithCancel(bg())
			if when == 0 {
				cancel()
			}
			u := spawn(procA, func() {
				got, err := n.Request(bg(), addr, []byte("live"))
				if err != nil || string(got) != "live" {
					vsched.Fail("the request with a live context fails: %q %v", got, err)
				}
			})
			t := spawn(procA, func() {
				var err error
				if op == 0 {
					var got []byte
					got, err = n.Request(ctx, addr, []byte("dead"))
					if err == nil && string(got) != "dead" {
						vsched.Fail("response %q", got)
					}
				} else {
					err = call(op, n, ctx, addr)
				}
				if err != nil && !errors.Is(err, context.Canceled) {
					vsched.Fail("a cancelled call fails with %v", err)
				}
			})
			if when == 1 {
				spawn(procA, cancel)
			} else if when == 2 {
				vsched.Quiesce()
				cancel()
				join(t)
			}
			// the peer answers whatever arrives, the first or the last first
			var no []uint64
			var data [][]byte
			take := func() {
				p.conn.SetReadDeadline(time.Now().Add(time.Second))
				for {
					i, d, err := p.recv()
					if err != nil {
						break
					}
					if i > 0 {
						no, data = append(no, i), append(data, d)
					}
				}
			}
			if op == 0 || when != 1 {
				take()
			} else {
				// at once
				for len(no) == 0 {
					i, d, err := p.recv()
					must(err)
					if i > 0 {
						no, data = append(no, i), append(data, d)
					}
				}
			}
			for i := range no {
				if order == 1 {
					i = len(no) - 1 - i
				}
				must(p.send(no[i], data[i]))
			}
			join(t, u)
			vsched.Quiesce()
			if c.Error() != nil || only(n.Outbound()) != c {
				vsched.Fail("the connection was closed with %v", c.Error())
			}
			vsched.Quiet(func() {
				x := spawn(procA, func() {
					got, err := n.Request(bg(), addr, []byte("later"))
					if err != nil || string(got) != "later" {
						vsched.Fail("a later request fails: %q %v", got, err)
					}
				})
				p.conn.SetReadDeadline(time.Time{})
				for {
					i, d, err := p.recv()
					must(err)
					if i > 0 {
						must(p.send(i, d))
						break
					}
				}
				join(x)
			})
		},
		Quick: mc.Bounds{Cost: 2}, Thorough: mc.Bounds{Cost: 3, Policies: []int{0, 1}}, Native: 6,
	})
	mc.Add(mc.Scenario{
		Prop: "C16", Name: "c16-messages", Doc: "messages queued on a connection before, while and after a request and a send on it are cancelled all arrive, in order",
		Run: func() {
			op := vsched.Pick(3)
			var a, b *noise.Node
			var wb watch
			vsched.Quiet(func() {
				a, b = node(procA, nil, noise.WithNodeMaxDialAttempts(1)), watched(procB, &wb)
				connect(procA, a, b.Addr())
			})
			ctx, cancel := context.WithCancel(bg())
			t := spawn(procA, func() { call(op, a, ctx, b.Addr()) })
			u := spawn(procA, func() {
				for i := 0; i < 3; i++ {
					if err := a.Send(bg(), b.Addr(), []byte(fmt.Sprint(i))); err != nil {
						vsched.Fail("send: %v", err)
					}
				}
			})
			spawn(procA, cancel)
			join(t, u)
			vsched.Settle()
			var got []string
			for _, m := range wb.handled {
				if m != "request" && m != "message" {
					got = append(got, m)
				}
			}
			if fmt.Sprint(got) != "[0 1 2]" {
				vsched.Fail("the messages %q arrived", got)
			}
			if len(wb.disconnected) > 0 {
				vsched.Fail("the connection was closed")
			}
		},
		Quick: mc.Bounds{Cost: 2}, Thorough: mc.Bounds{Cost: 3, Policies: []int{0, 1}}, Native: 6,
	})
	mc.Add(mc.Scenario{
		Prop: "C16", Name: "c16-answered", Doc: "three requests in flight on one connection, any of them cancelled while the responses arrive in any order",
		Run: func() {
			dead := vsched.Pick(8) // set of those cancelled
			if dead == 0 || dead == 7 {
				vsched.Discard("none or all")
			}
			orders := [][]int{{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}}
			order := orders[vsched.Pick(6)]
			var n *noise.Node
			var p *rawPeer
			var addr string
			var c *noise.Client
			vsched.Quiet(func() {
				l, a := rawListen(procB)
				addr = a
				ps := make(chan *rawPeer, 4)
				rawServe(procB, l, func(p *rawPeer) { ps <- p })
				n = node(procA, nil, noise.WithNodeMaxDialAttempts(1))
				c = connect(procA, n, addr)
				p = <-ps
			})
			ctx, cancel := context.WithCancel(bg())
			var ts []chan struct{}
			var no [3]uint64
			vsched.QuietOn()
			for i := 0; i < 3; i++ {
				i := i
				ts = append(ts, spawn(procA, func() {
					x := bg()
					if dead>>i&1 == 1 {
						x = ctx
					}
					got, err := n.Request(x, addr, []byte(fmt.Sprint("q", i)))
					if err == nil && string(got) != fmt.Sprint("q", i) {
						vsched.Fail("request %d got response %q", i, got)
					}
					if err != nil && (dead>>i&1 == 0 || !errors.Is(err, context.Canceled)) {
						vsched.Fail("request %d fails: %v", i, err)
					}
				}))
				k, d, err := p.recv()
				must(err)
				if string(d) != fmt.Sprint("q", i) {
					vsched.Fail("received %q", d)
				}
				no[i] = k
			}
			vsched.QuietOff()
			spawn(procA, cancel)
			for _, i := range order {
				must(p.send(no[i], []byte(fmt.Sprint("q", i))))
			}
			join(ts...)
			vsched.Quiesce()
			if c.Error() != nil {
				vsched.Fail("the connection failed: %v", c.Error())
			}
		},
		Quick: mc.Bounds{Cost: 2}, Thorough: mc.Bounds{Cost: 3, Policies: []int{0, 1}}, Native: 6,
	})
}
