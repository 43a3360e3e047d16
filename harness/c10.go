package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"net"
	"sync"

	"github.com/perlin-network/noise"
	"verif.local/rt/mc"
	"verif.local/rt/vnet"
	"verif.local/rt/vsched"
)

// lives records the hooks that fire for each connection of a node.
type lives struct {
	order []*noise.Client
	hooks map[*noise.Client]string
}

func (l *lives) add(c *noise.Client, s string) {
	defer guard()()
	if l.hooks == nil {
		l.hooks = map[*noise.Client]string{}
	}
	if l.hooks[c] == "" {
		l.order = append(l.order, c)
	}
	l.hooks[c] += s
	if h := l.hooks[c]; h != "C" && h != "CD" {
		vsched.Fail("hooks of one connection fire in the order %q (C: connected, D: disconnected)", h)
	}
}

func (l *lives) of(c *noise.Client) string {
	defer guard()()
	return l.hooks[c]
}

func (l *lives) protocol() noise.Protocol {
	return noise.Protocol{
		OnPeerConnected:    func(c *noise.Client) { l.add(c, "C") },
		OnPeerDisconnected: func(c *noise.Client) { l.add(c, "D") },
	}
}

func lived(g int, l *lives, h noise.Handler, opts ...noise.NodeOption) *noise.Node {
	n := newNode(g, opts...)
	n.Bind(l.protocol())
	if h != nil {
		n.Handle(h)
	}
	listen(g, n)
	return n
}

// track waits for c to become ready and to close, and checks what is promised at both moments.
func track(n *noise.Node, c *noise.Client, l *lives) chan struct{} {
	return spawn(procA, func() {
		c.WaitUntilReady()
		first := c.Error()
		if first == nil && l.of(c) == "" {
			vsched.Fail("ready without an error, and without the connect hook having fired")
		}
		if first == nil && c.ID().ID == noise.ZeroPublicKey {
			vsched.Fail("ready without an error, and without an ID")
		}
		c.WaitUntilClosed()
		err := c.Error()
		if err == nil {
			vsched.Fail("closed without an error")
		}
		if first != nil && first != err {
			vsched.Fail("the error changed from %v to %v", first, err)
		}
		for _, o := range append(n.Inbound(), n.Outbound()...) {
			if o == c {
				vsched.Fail("closed, and still listed")
			}
		}
		if h := l.of(c); h != "" && h != "CD" {
			vsched.Fail("closed with hooks %q", h)
		} else if h == "" && first == nil {
			vsched.Fail("closed after being ready, and no hook has fired")
		}
		vsched.Quiesce()
		if c.Error() != err {
			vsched.Fail("the error changed from %v to %v", err, c.Error())
		}
	})
}

// Ways to end a connection.
const (
	endPeer = iota
	endClose
	endEvict
	endNode
	endCut
	numEnds
)

var endNames = [...]string{"the peer closes", "Close", "eviction", "the node closes", "garbage"}

func c10ends(name, doc string, outbound bool, pairs bool, q, t mc.Bounds) {
	mc.Add(mc.Scenario{
		Prop: "C10", Name: name, Doc: doc, Quick: q, Thorough: t, Native: 8,
		Run: func() {
			st := vsched.Pick(stEstablished + 1)
			e1 := vsched.Pick(numEnds)
			e2 := e1
			if pairs {
				e2 = vsched.Pick(numEnds)
				if e2 < e1 {
					vsched.Discard("symmetric")
				}
			}
			var l lives
			var n *noise.Node
			var p *rawPeer
			var c *noise.Client
			var spare string
			rl, addr := rawListen(procB)
			var pinging chan struct{}
			vsched.Quiet(func() {
				n = lived(procA, &l, nil, limits(1, 1)...)
				sl, s := rawListen(procC)
				spare = s
				rawServe(procC, sl, answering)
			})
			early := st < stEstablished && vsched.Pick(2) == 1 // the peer's part runs beside the end
			part := func() {
				p.upTo(st, 9, rawID(procB, 77), key(procB))
			}
			got := make(chan *rawPeer, 1)
			if outbound {
				rawAccept(procB, rl, func(i int, q *rawPeer) {
					got <- q
				})
				pinging = spawn(procA, func() { n.Ping(bg(), addr) })
				p = <-got
				c = n.Outbound()[0]
			} else {
				var err error
				p, err = rawDial(n.Addr())
				must(err)
				vsched.Quiesce()
				c = n.Inbound()[0]
			}
			var parting chan struct{}
			if early {
				parting = spawn(procB, part)
			} else {
				vsched.Quiet(func() { part(); vsched.Quiesce() })
			}
			t := track(n, c, &l)
			act := func(e int) chan struct{} {
				switch e {
				case endPeer:
					return spawn(procB, func() { p.conn.Close() })
				case endClose:
					return spawn(procA, c.Close)
				case endEvict:
					if outbound {
						return spawn(procA, func() { n.Ping(bg(), spare) })
					}
					return spawn(procC, func() { rawDial(n.Addr()) })
				case endNode:
					return spawn(procA, func() { n.Close() })
				}
				return spawn(procB, func() { p.writeRaw(bytes.Repeat([]byte{0xff}, 200)) })
			}
			var ends []chan struct{}
			ends = append(ends, act(e1))
			if pairs {
				ends = append(ends, act(e2))
			}
			join(t) // or nothing can run any more
			join(ends...)
			if parting != nil {
				join(parting)
			}
			p.conn.Close()
			if pinging != nil {
				join(pinging)
			}
			shut(procA, n)
			vsched.Settle()
			for _, c := range l.order {
				if l.of(c) != "CD" {
					vsched.Fail("hooks of a connection at the end: %q", l.of(c))
				}
			}
			if len(l.order) > 0 && l.of(c) == "CD" {
				vsched.Fact("established")
			} else {
				vsched.Fact("not established")
			}
			released(procA, 0, 0, "after "+endNames[e1]+" and Close")
		},
	})
}

func init() {
	c10ends("c10-inbound", "an accepted connection is closed by its peer, by Close, by eviction, with its node or by garbage, at every stage", false, false,
		mc.Bounds{Cost: 1}, mc.Bounds{Cost: 2, Policies: []int{0, 1}})
	c10ends("c10-outbound", "a dialled connection is closed by its peer, by Close, by eviction, with its node or by garbage, at every stage", true, false,
		mc.Bounds{Cost: 1}, mc.Bounds{Cost: 2, Policies: []int{0, 1}})
	c10ends("c10-inbound-twice", "two of these at the same time", false, true, mc.Bounds{Cost: 1}, mc.Bounds{Cost: 2, Policies: []int{0, 1}})
	c10ends("c10-outbound-twice", "two of these at the same time", true, true, mc.Bounds{Cost: 1}, mc.Bounds{Cost: 2, Policies: []int{0, 1}})

	mc.Add(mc.Scenario{
		Prop: "C10", Name: "c10-backlog", Doc: "a connection over which up to more messages came than the node has workers and room for is closed, evicted or its node closed while handlers hold all workers, or by one of them, which waits for it: it gets there before they end",
		Run: func() {
			workers := 1 + vsched.Pick(2)
			backlog := workers*2 + vsched.Pick(3)
			how := vsched.Pick(4)
			var l lives
			var n *noise.Node
			var mu sync.Mutex
			hold := make(chan struct{})
			handling := 0
			closing := false
			vsched.Quiet(func() {
				n = lived(procA, &l, func(ctx noise.HandlerContext) error {
					mu.Lock()
					handling++
					mine := how == 3 && !closing
					closing = closing || mine
					mu.Unlock()
					if mine {
						for _, c := range n.Inbound() {
							c.Close()
							c.WaitUntilClosed()
						}
						return nil
					}
					<-hold
					return nil
				}, noise.WithNodeNumWorkers(uint(workers)), noise.WithNodeMaxInboundConnections(1))
			})
			p, err := rawDial(n.Addr())
			must(err)
			must(p.shake(1, rawID(procB, 77), key(procB)))
			vsched.Quiet(func() { vsched.Quiesce() })
			var tracks []chan struct{}
			for _, c := range n.Inbound() {
				tracks = append(tracks, track(n, c, &l))
			}
			sender := spawn(procB, func() {
				for i := 0; i < backlog; i++ {
					if p.send(0, []byte("x")) != nil {
						return
					}
				}
			})
			switch how {
			case 0:
				join(spawn(procA, func() {
					for _, c := range n.Inbound() {
						c.Close()
					}
				}))
			case 1:
				q, err := rawDial(n.Addr())
				must(err)
				defer q.conn.Close()
			case 2:
				shut(procA, n)
			}
			join(tracks...)
			close(hold)
			join(sender)
			shut(procA, n)
			released(procA, 0, 0, "after Close")
			for _, c := range l.order {
				if l.of(c) != "CD" {
					vsched.Fail("hooks of a connection at the end: %q", l.of(c))
				}
			}
			p.conn.Close()
		},
		Quick: mc.Bounds{Cost: 2}, Thorough: mc.Bounds{Cost: 3, Policies: []int{0, 1}},
	})
	mc.Add(mc.Scenario{
		Prop: "C10", Name: "c10-given-up", Doc: "the context of the call that dials ends at any point of the dial and the handshake, while another call may use the connection",
		Run: func() {
			second := vsched.Pick(2) == 1
			how := vsched.Pick(2)
			var l lives
			var n *noise.Node
			rl, addr := rawListen(procB)
			vsched.Quiet(func() { n = lived(procA, &l, nil) })
			got := make(chan *rawPeer, 4)
			rawAccept(procB, rl, func(i int, p *rawPeer) {
				got <- p
				p.upTo(stEstablished, byte(9+i), rawID(procB, 77), key(procB))
			})
			ctx, cancel := context.WithCancel(bg())
			var first, other error
			ds := []chan struct{}{spawn(procA, func() { _, first = n.Ping(ctx, addr) })}
			<-got
			var tracks []chan struct{}
			for _, c := range n.Outbound() {
				tracks = append(tracks, track(n, c, &l))
			}
			if second {
				ds = append(ds, spawn(procA, func() { _, other = n.Ping(bg(), addr) }))
			}
			if how == 0 {
				spawn(procA, cancel)
			} else {
				spawn(procA, func() { closeClients(procA, n); cancel() })
			}
			join(ds...)
			if second && other != nil && how == 0 {
				vsched.Fail("a call with a context that lives: %v", other)
			}
			vsched.Settle()
			if len(n.Outbound()) == 1 != (len(l.order) > 0 && l.of(l.order[len(l.order)-1]) == "C") {
				vsched.Fail("%d connection(s) are listed while the hooks of the last one are %q", len(n.Outbound()), l.hooks)
			}
			if how == 0 && first == nil && len(n.Outbound()) != 1 {
				vsched.Fail("a call succeeded, but its connection is gone")
			}
			shut(procA, n)
			join(tracks...)
			vsched.Settle()
			for _, c := range l.order {
				if l.of(c) != "CD" {
					vsched.Fail("hooks of a connection at the end: %q", l.of(c))
				}
			}
			vsched.Fact(fmt.Sprintf("connected %d, call succeeded %v", len(l.order), first == nil))
			cancel()
			released(procA, 0, 0, "after Close")
		},
		Quick: mc.Bounds{Cost: 2, Policies: []int{0, 1}}, Thorough: mc.Bounds{Cost: 3, Policies: []int{0, 1}, Weight: 2},
	})

	mc.Add(mc.Scenario{
		Prop: "C10", Name: "c10-close-dialling", Doc: "a connection is closed, evicted or its node closed while the dial is under way, hangs or is refused",
		Run: func() {
			dial := vsched.Pick(3)
			what := vsched.Pick(3)
			if vsched.Native {
				vsched.Discard("needs control of the dial")
			}
			var l lives
			var n *noise.Node
			var addrs []string
			vsched.Quiet(func() {
				addrs, _ = rawPeers(2)
				vnet.OnDial(addrs[0], func(int) vnet.Action { return []vnet.Action{vnet.Connect, vnet.Hang, vnet.Refuse}[dial] })
				n = lived(procA, &l, nil, limits(1, 1)...)
			})
			t := spawn(procA, func() {
				c, err := n.Ping(bg(), addrs[0])
				if err == nil && dial != 0 {
					vsched.Fail("connected to nobody")
				}
				if err == nil {
					join(track(n, c, &l))
				}
			})
			vsched.MarkPoint()
			var tr chan struct{}
			if o := n.Outbound(); len(o) > 0 {
				tr = track(n, o[0], &l)
			}
			switch what {
			case 0:
				closeClients(procA, n)
			case 1:
				in(procA, func() { n.Ping(bg(), addrs[1]) })
			case 2:
				in(procA, func() { n.Close() })
			}
			vsched.Quiesce()
			closeClients(procA, n)
			if dial == 1 && what == 1 && tr == nil && len(n.Outbound()) == 0 {
				vsched.Fact("evicted before it was seen")
			}
			vsched.Quiesce()
			closeClients(procA, n)
			join(t)
			if tr != nil {
				join(tr)
			}
			shut(procA, n)
			released(procA, 0, 0, "after Close")
			for _, c := range l.order {
				if l.of(c) != "CD" {
					vsched.Fail("hooks of a connection at the end: %q", l.of(c))
				}
			}
		},
		Quick: mc.Bounds{Cost: 2}, Thorough: mc.Bounds{Cost: 3, Policies: []int{0, 1}},
	})
	mc.Add(mc.Scenario{
		Prop: "C10", Name: "c10-hooks-under-way", Doc: "a connection ends, from either side, by eviction or with its node, while messages are sent and received over it and the hooks of that are under way: once waiting for its closure is over no hook of it runs or starts",
		Run: func() {
			how := vsched.Pick(4)
			dialled := vsched.Pick(2) == 1
			which := vsched.Pick(3) // which hook takes its time
			back := func(ctx noise.HandlerContext) error {
				if string(ctx.Data()) == "x" {
					return ctx.Send([]byte("y"))
				}
				return nil
			}
			var n, other *noise.Node
			hold := make(chan struct{})
			held := make(chan struct{}, 64)
			inside := map[*noise.Client]int{}
			closed := map[*noise.Client]bool{}
			note := func(c *noise.Client, d int) {
				defer guard()()
				inside[c] += d
				if closed[c] {
					vsched.Fail("a hook of a connection runs after waiting for its closure was over")
				}
			}
			hook := func(k int) func(c *noise.Client) {
				return func(c *noise.Client) {
					note(c, 1)
					if k == which {
						held <- struct{}{}
						<-hold
					}
					note(c, -1)
				}
			}
			var c *noise.Client
			var spare string
			vsched.Quiet(func() {
				other = node(procB, back)
				spare = node(procC, nil).Addr()
				n = newNode(procA, limits(1, 1)...)
				n.Bind(noise.Protocol{OnMessageSent: hook(0), OnMessageRecv: hook(1), OnPeerDisconnected: hook(2)})
				n.Handle(back)
				listen(procA, n)
				if dialled {
					c = connect(procA, n, other.Addr())
				} else {
					connect(procB, other, n.Addr())
					c = n.Inbound()[0]
				}
				vsched.Quiesce()
			})
			if dialled {
				in(procA, func() { n.Send(bg(), other.Addr(), []byte("x")) }) //nolint
			} else {
				in(procB, func() { other.Send(bg(), n.Addr(), []byte("x")) }) //nolint
			}
			if which < 2 {
				<-held
			}
			t := spawn(procA, func() {
				c.WaitUntilClosed()
				defer guard()()
				closed[c] = true
				if inside[c] > 0 {
					vsched.Fail("waiting for closure is over, and a hook of the connection is still running")
				}
			})
			var end chan struct{}
			switch how {
			case 0:
				end = spawn(procA, c.Close)
			case 1:
				end = spawn(procB, func() { closeClients(procB, other) })
			case 2:
				end = spawn(procA, func() {
					if dialled {
						n.Ping(bg(), spare) //nolint
					} else {
						q, err := rawDial(n.Addr())
						must(err)
						defer q.conn.Close()
						q.shake(3, rawID(procC, 5), key(procC)) //nolint
					}
				})
			case 3:
				end = spawn(procA, func() { n.Close() })
			}
			if vsched.Pick(2) == 1 {
				vsched.Quiesce()
			}
			close(hold)
			join(t, end)
			shut(procA, n)
			released(procA, 0, 0, "after Close")
		},
		Quick: mc.Bounds{Cost: 1}, Thorough: mc.Bounds{Cost: 2, Policies: []int{0, 1}}, StmtsThorough: true, Native: 4,
	})
	mc.Add(mc.Scenario{
		Prop: "C10", Name: "c10-send-after-close", Doc: "a handler answers or sends over its connection after it was closed by Close, by its peer, by eviction or with the node",
		Run: func() {
			how := vsched.Pick(4)
			req := uint64(vsched.Pick(2))
			typed := vsched.Pick(2) == 1
			var n *noise.Node
			var l lives
			handling := make(chan *noise.HandlerContext, 1)
			goOn := make(chan struct{})
			var p *rawPeer
			res := make(chan error, 2)
			vsched.Quiet(func() {
				n = newNode(procA, limits(1, 1)...)
				n.Bind(l.protocol())
				n.RegisterMessage(note{}, unmarshalNote)
				n.Handle(func(ctx noise.HandlerContext) error {
					handling <- &ctx
					<-goOn
					if typed {
						res <- ctx.SendMessage(note{"late"})
					} else {
						res <- ctx.Send([]byte("late"))
					}
					return nil
				})
				listen(procA, n)
				var err error
				p, err = rawDial(n.Addr())
				must(err)
				must(p.shake(1, rawID(procB, 1), key(procB)))
				must(p.send(req*9, []byte("hello")))
				<-handling
			})
			c := n.Inbound()[0]
			var closing chan struct{}
			switch how {
			case 0:
				in(procA, c.Close)
			case 1:
				p.conn.Close()
				c.WaitUntilClosed()
			case 2:
				q, err := rawDial(n.Addr())
				must(err)
				defer q.conn.Close()
				c.WaitUntilClosed()
			case 3:
				closing = spawn(procA, func() { n.Close() })
				c.WaitUntilClosed()
			}
			close(goOn)
			if err := <-res; err == nil {
				vsched.Fail("sending over a closed connection reports no error")
			}
			if closing != nil {
				join(closing)
			}
			p.drain()
			c.WaitUntilClosed()
			shut(procA, n)
			released(procA, 0, 0, "after Close")
		},
		Quick: mc.Bounds{Cost: 2}, Thorough: mc.Bounds{Cost: 3, Policies: []int{0, 1}}, Native: 8,
	})
	causes := []string{"the peer closes", "the peer writes no more", "garbage", "a message too short", "a message too large", "an idle timeout", "a handler's error", "Close", "Close by a handler", "the node's Close", "a frame cut short"}
	mc.Add(mc.Scenario{
		Prop: "C10", Name: "c10-causes", Doc: fmt.Sprintf("an established connection, accepted or dialled, idle or with a request under way, ends for one of %d causes: both hooks of every protocol have fired once", len(causes)),
		Run: func() {
			how := vsched.Pick(len(causes))
			outbound := vsched.Pick(2) == 1
			asking := vsched.Pick(2) == 1
			var ls [3]lives
			var n *noise.Node
			var p *rawPeer
			var addr string
			vsched.Quiet(func() {
				var opts []noise.NodeOption
				if how == 5 {
					opts = append(opts, idle(idleT))
				}
				n = newNode(procA, append(opts, noise.WithNodeMaxDialAttempts(1))...)
				for i := range ls {
					n.Bind(ls[i].protocol(), noise.Protocol{})
				}
				n.Handle(func(ctx noise.HandlerContext) error {
					switch how {
					case 6:
						return errors.New("handler error")
					case 8:
						for _, c := range append(n.Inbound(), n.Outbound()...) {
							c.Close()
						}
					}
					return nil
				})
				listen(procA, n)
				if outbound {
					var l net.Listener
					l, addr = rawListen(procB)
					ps := make(chan *rawPeer, 1)
					rawServe(procB, l, func(q *rawPeer) { ps <- q })
					connect(procA, n, addr)
					p = <-ps
				} else {
					p = dialShake(n.Addr(), 1, procB, 7)
				}
				vsched.Quiesce()
			})
			c := only(append(n.Inbound(), n.Outbound()...))
			t := track(n, c, &ls[0])
			var ds []chan struct{}
			if asking && outbound {
				ds = append(ds, spawn(procA, func() {
					if _, err := n.Request(bg(), addr, nil); err == nil {
						vsched.Fail("a request nobody answers succeeds")
					}
				}))
				vsched.Quiesce()
			}
			switch how {
			case 0:
				p.conn.Close()
			case 1:
				p.conn.(interface{ CloseWrite() error }).CloseWrite()
			case 2:
				p.writeFrame(make([]byte, 60))
			case 3:
				p.writeFrame(p.seal(make([]byte, 3)))
			case 4:
				p.writeRaw([]byte{0x7f, 0, 0, 0})
			case 5:
			case 6, 8:
				p.send(0, []byte("m"))
			case 7:
				c.Close()
			case 9:
				in(procA, func() { n.Close() })
			case 10:
				p.writeRaw([]byte{0, 0, 0, 50, 1, 2, 3})
				p.conn.(interface{ CloseWrite() error }).CloseWrite()
			}
			join(t)
			join(ds...)
			p.conn.Close()
			for i := range ls {
				if h := ls[i].of(c); h != "CD" || len(ls[i].order) != 1 {
					vsched.Fail("%s: hooks of protocol %d: %q, for %d connections", causes[how], i, h, len(ls[i].order))
				}
			}
			shut(procA, n)
			released(procA, 0, 0, "after Close")
		},
		Quick: mc.Bounds{Cost: 1}, Thorough: mc.Bounds{Cost: 2, Policies: []int{0, 1}}, Native: 22,
	})
	mc.Add(mc.Scenario{
		Prop: "C10", Name: "c10-first-error", Doc: "a handler error, a garbled frame, a message too short to be one and an end of stream come one after the other or together: the first of them is reported, for ever",
		Run: func() {
			first := vsched.Pick(4)
			second := vsched.Pick(4)
			together := vsched.Pick(2) == 1
			bad := errors.New("handler error")
			var l lives
			var n *noise.Node
			var p *rawPeer
			fail := make(chan struct{})
			vsched.Quiet(func() {
				n = lived(procA, &l, func(noise.HandlerContext) error { <-fail; return bad })
				var err error
				p, err = rawDial(n.Addr())
				must(err)
				must(p.shake(1, rawID(procB, 1), key(procB)))
				must(p.send(0, []byte("hello")))
				vsched.Quiesce()
			})
			c := n.Inbound()[0]
			t := track(n, c, &l)
			failed := false
			do := func(e int) {
				switch e {
				case 0:
					if !failed {
						failed = true
						close(fail)
					}
				case 1:
					p.writeFrame(make([]byte, 60))
				case 2:
					p.conn.Close()
				case 3:
					p.writeFrame(p.seal(make([]byte, 3)))
				}
			}
			do(first)
			if !together {
				vsched.Quiesce()
			}
			do(second)
			join(t)
			err := c.Error()
			if !together && (err == bad) != (first == 0) {
				vsched.Fail("the error is %v, but %s came first", err, [...]string{"the handler's", "garbage", "the end of the stream", "a message too short"}[first])
			}
			vsched.Fact(fmt.Sprintf("handler's error %v", err == bad))
			if !failed {
				close(fail)
			}
			p.conn.Close()
			vsched.Settle()
			if c.Error() != err {
				vsched.Fail("the error changed from %v to %v", err, c.Error())
			}
			shut(procA, n)
			released(procA, 0, 0, "after Close")
		},
		Quick: mc.Bounds{Cost: 2}, Thorough: mc.Bounds{Cost: 3, Policies: []int{0, 1}}, Native: 8,
	})
}
