package main

import (
	"errors"
	"fmt"
	"strings"
	"time"

	"github.com/perlin-network/noise"
	"verif.local/rt/mc"
	"verif.local/rt/vsched"
)

var errBad = errors.New("a handler does not like this")

// judge is a node with three handlers: messages starting with '0', '1' or '2' are failed by that handler.
type judge struct {
	w    watch
	seen [3][]string
	n    *noise.Node
}

func (j *judge) handler(i int) noise.Handler {
	return func(ctx noise.HandlerContext) error {
		m := string(ctx.Data())
		u := guard()
		vsched.Mark()
		j.seen[i] = append(j.seen[i], m)
		u()
		if strings.HasPrefix(m, fmt.Sprint(i)) {
			return fmt.Errorf("%w: %s", errBad, m)
		}
		if i == 2 && ctx.IsRequest() {
			return ctx.Send([]byte("re:" + m))
		}
		return nil
	}
}

func judging(g int, workers uint, opts ...noise.NodeOption) *judge {
	j := &judge{}
	n := newNode(g, append(opts, noise.WithNodeNumWorkers(workers))...)
	n.Bind(j.w.protocol())
	n.Handle(j.handler(0), j.handler(1), j.handler(2))
	listen(g, n)
	j.n = n
	return j
}

func (j *judge) count(i int, m string) (k int) {
	defer guard()()
	for _, s := range j.seen[i] {
		if s == m {
			k++
		}
	}
	return
}

// judged checks what the handlers saw of a message that was certainly handled.
func (j *judge) judged(m string) {
	last := 2
	if m[0] >= '0' && m[0] <= '2' {
		last = int(m[0] - '0')
	}
	for i := 0; i < 3; i++ {
		want := 1
		if i > last {
			want = 0
		}
		if k := j.count(i, m); k != want {
			vsched.Fail("handler %d saw message %q %d times instead of %d", i, m, k, want)
		}
	}
}

// of is the node's end of the connection under an identity; with several it is the last one.
func (j *judge) of(id noise.ID) (c *noise.Client) {
	defer guard()()
	for i, x := range j.w.ids {
		if x.ID == id.ID && x.Port == id.Port {
			c = j.w.connected[i]
		}
	}
	return
}

// condemned checks that connection c ended because of message m.
func (j *judge) condemned(c *noise.Client, m string) {
	c.WaitUntilClosed()
	err := c.Error()
	if err == nil || !errors.Is(err, errBad) || !strings.HasSuffix(err.Error(), ": "+m) {
		vsched.Fail("the connection on which a handler failed %q reports %v", m, err)
	}
	defer guard()()
	n := 0
	for _, d := range j.w.disconnected {
		if d == c {
			n++
		}
	}
	if n != 1 {
		vsched.Fail("the disconnect hook fired %d times for a connection a handler failed", n)
	}
}

// serves checks that a connection is served.
func serves(p *rawPeer, nonce uint64, m string) {
	if err := p.send(nonce, []byte(m)); err != nil {
		vsched.Fail("another connection breaks: %v", err)
	}
	p.conn.SetReadDeadline(time.Now().Add(time.Minute))
	n, data, err := p.recv()
	if err != nil || n != nonce || string(data) != "re:"+m {
		vsched.Fail("another connection is not served: %d %q %v", n, data, err)
	}
}

func dialShake(to string, seed byte, g int, p uint16) *rawPeer {
	c, err := rawDial(to)
	if err == nil {
		err = c.shake(seed, rawID(g, p), key(g))
	}
	if err != nil {
		vsched.Fail("a new connection is not served: %v", err)
	}
	return c
}

func c12history(name string, depth int, thorough bool) {
	mc.Add(mc.Scenario{
		Prop: "C12", Name: name, Doc: fmt.Sprintf("all sequences of %d messages and requests, good and failed by the first, second or third handler, from two peers that reconnect, with one or two workers", depth),
		ThoroughOnly: thorough,
		Run: func() {
			defer vsched.QuietOff()
			vsched.QuietOn()
			workers := 1 + vsched.Pick(2)
			j := judging(procB, uint(workers))
			var ps [2]*rawPeer
			for d := 0; d < depth; d++ {
				i := vsched.Pick(2)
				kind := vsched.Pick(4) // failed by a handler, or not
				asked := vsched.Pick(2)
				if d == depth-1 && kind == 3 {
					vsched.Discard("ends with a good message")
				}
				id := rawID(procC+i, 7)
				if ps[i] == nil {
					ps[i] = dialShake(j.n.Addr(), byte(16*i+d+1), procC+i, 7)
					vsched.Quiesce()
				}
				m := fmt.Sprintf("%d message %d", kind, d)
				c := j.of(id)
				if err := ps[i].send(uint64(asked*(d+1)), []byte(m)); err != nil {
					vsched.Fail("send: %v", err)
				}
				if kind < 3 {
					j.condemned(c, m)
					ps[i].conn.SetReadDeadline(time.Now().Add(time.Minute))
					if _, data, err := ps[i].recv(); err == nil {
						vsched.Fail("something was sent on a connection a handler failed: %q", data)
					} else if ne, ok := err.(interface{ Timeout() bool }); ok && ne.Timeout() {
						vsched.Fail("the connection a handler failed is still open")
					}
					ps[i].conn.Close()
					ps[i] = nil
				} else if asked == 1 {
					n, data, err := ps[i].recv()
					if err != nil || n != uint64(d+1) || string(data) != "re:"+m {
						vsched.Fail("response %d %q %v", n, data, err)
					}
				}
				vsched.Quiesce()
				j.judged(m)
				for k, p := range ps {
					if p != nil && j.of(rawID(procC+k, 7)).Error() != nil {
						vsched.Fail("the connection of another peer failed: %v", j.of(rawID(procC+k, 7)).Error())
					}
				}
			}
			for i, p := range ps {
				if p == nil {
					p = dialShake(j.n.Addr(), byte(200+i), procC+i, 7)
				}
				serves(p, 99, fmt.Sprint("x", i))
			}
		},
		Quick: mc.Bounds{Cost: 0}, Thorough: mc.Bounds{Cost: 0, Policies: []int{0, 1}}, Native: 6,
	})
}

func init() {
	c12history("c12-history", 3, false)
	c12history("c12-history-4", 4, true)
	mc.Add(mc.Scenario{
		Prop: "C12", Name: "c12-concurrent", Doc: "up to three peers have messages failed at once by one or two workers, while a fourth is served",
		Run: func() {
			workers := 1 + vsched.Pick(2)
			k := 2 + vsched.Pick(2)
			who := vsched.Pick(3)
			var j *judge
			var ps []*rawPeer
			var good *rawPeer
			vsched.Quiet(func() {
				j = judging(procB, uint(workers))
				for i := 0; i < k; i++ {
					ps = append(ps, dialShake(j.n.Addr(), byte(i+1), procC, uint16(10+i)))
				}
				good = dialShake(j.n.Addr(), 99, procD, 7)
				vsched.Quiesce()
			})
			var ts []chan struct{}
			for i, p := range ps {
				i, p := i, p
				ts = append(ts, spawn(procC, func() {
					p.send(uint64(i%2), []byte(fmt.Sprintf("%d bad %d", (who+i)%3, i)))
					p.drain()
				}))
			}
			serves(good, 5, "x")
			join(ts...)
			vsched.Settle()
			for i := range ps {
				m := fmt.Sprintf("%d bad %d", (who+i)%3, i)
				j.condemned(j.of(rawID(procC, uint16(10+i))), m)
				j.judged(m)
			}
			if c := j.of(rawID(procD, 7)); c.Error() != nil {
				vsched.Fail("the connection of another peer failed: %v", c.Error())
			}
			vsched.QuietOn()
			serves(good, 6, "y")
			serves(dialShake(j.n.Addr(), 100, procD, 8), 7, "z")
			vsched.QuietOff()
		},
		Quick: mc.Bounds{Cost: 1}, Thorough: mc.Bounds{Cost: 2, Policies: []int{0, 1}}, Native: 6,
	})
	mc.Add(mc.Scenario{
		Prop: "C12", Name: "c12-many-bad", Doc: "one peer sends several messages of which handlers fail some, mixed with good ones, in one go: the first failure is the connection's error, and all workers survive",
		Run: func() {
			workers := 1 + vsched.Pick(2)
			var kinds [3]int
			bad := map[string]bool{}
			for i := range kinds {
				kinds[i] = vsched.Pick(3)
			}
			var j *judge
			var p *rawPeer
			vsched.Quiet(func() {
				j = judging(procB, uint(workers))
				p = dialShake(j.n.Addr(), 1, procC, 7)
				vsched.Quiesce()
			})
			c := j.of(rawID(procC, 7))
			firstBad := ""
			for i, k := range kinds {
				m := fmt.Sprintf("%d number %d", k*2%5, i) // 0, 2 or 4
				if k*2%5 < 3 {
					bad[m] = true
					if firstBad == "" {
						firstBad = m
					}
				}
				p.send(0, []byte(m))
			}
			if firstBad == "" {
				vsched.Discard("nothing bad")
			}
			p.drain()
			c.WaitUntilClosed()
			vsched.Settle()
			err := c.Error()
			if workers == 1 && (err == nil || !strings.HasSuffix(err.Error(), ": "+firstBad)) {
				vsched.Fail("the connection on which a handler failed %q first reports %v", firstBad, err)
			}
			if err == nil || !errors.Is(err, errBad) {
				vsched.Fail("the connection on which a handler failed a message reports %v", err)
			}
			for m := range bad {
				for i := int(m[0]-'0') + 1; i < 3; i++ {
					if j.count(i, m) > 0 {
						vsched.Fail("handler %d saw a message that an earlier one failed", i)
					}
				}
			}
			vsched.QuietOn()
			// as many messages as there are workers, each of which must be free
			for i := 0; i < workers+1; i++ {
				serves(dialShake(j.n.Addr(), byte(100+i), procD, uint16(i+1)), 7, "z")
			}
			vsched.QuietOff()
		},
		Quick: mc.Bounds{Cost: 1}, Thorough: mc.Bounds{Cost: 2, Policies: []int{0, 1}}, Native: 6,
	})
	mc.Add(mc.Scenario{
		Prop: "C12", Name: "c12-already-failed", Doc: "the connection fails for another reason while a handler that will return an error is still busy: the first error stands",
		Run: func() {
			how := vsched.Pick(4)
			workers := 1 + vsched.Pick(2)
			entered, leave := make(chan struct{}, 1), make(chan struct{})
			var n *noise.Node
			var w watch
			var p *rawPeer
			vsched.Quiet(func() {
				n = newNode(procB, noise.WithNodeNumWorkers(uint(workers)))
				n.Bind(w.protocol())
				n.Handle(func(ctx noise.HandlerContext) error {
					if string(ctx.Data()) == "bad" {
						entered <- struct{}{}
						<-leave
						return errBad
					}
					return echo(ctx)
				})
				listen(procB, n)
				p = dialShake(n.Addr(), 1, procC, 7)
				vsched.Quiesce()
				p.send(3, []byte("bad"))
				<-entered
			})
			c := w.connected[0]
			switch how {
			case 0:
				p.conn.Close()
			case 1:
				p.writeFrame(make([]byte, 40))
			case 2:
				in(procB, c.Close)
			case 3:
				p.writeRaw([]byte{255, 0, 0, 0})
			}
			c.WaitUntilClosed()
			first := c.Error()
			if first == nil || errors.Is(first, errBad) {
				vsched.Fail("a connection that failed otherwise reports %v", first)
			}
			if workers > 1 {
				vsched.Quiet(func() { serves(dialShake(n.Addr(), 2, procD, 8), 7, "a") })
			}
			close(leave)
			vsched.Quiesce()
			if c.Error() != first {
				vsched.Fail("the error of the connection changed from %v to %v", first, c.Error())
			}
			vsched.Quiet(func() {
				for i := 0; i < 3; i++ {
					serves(dialShake(n.Addr(), byte(3+i), procD, uint16(9+i)), 7, "b")
				}
			})
		},
		Quick: mc.Bounds{Cost: 1}, Thorough: mc.Bounds{Cost: 3, Policies: []int{0, 1}}, Native: 8,
	})
	mc.Add(mc.Scenario{
		Prop: "C12", Name: "c12-outbound", Doc: "a handler fails a message that came over a connection its own node dialled, with a request in flight there and one to another peer",
		Run: func() {
			op := vsched.Pick(2)
			var j *judge
			var p *rawPeer
			var addrB, addrC string
			got := make(chan *rawPeer, 1)
			vsched.Quiet(func() {
				j = judging(procA, 1, noise.WithNodeMaxDialAttempts(1))
				l, a := rawListen(procB)
				addrB = a
				first := true
				rawServe(procB, l, func(p *rawPeer) {
					u := guard()
					f := first
					first = false
					u()
					if f {
						got <- p
						return
					}
					answering(p)
				})
				l, addrC = rawListen(procC)
				rawServe(procC, l, answering)
				connect(procA, j.n, addrB)
				connect(procA, j.n, addrC)
				p = <-got
			})
			c := j.of(rawID(procB, p.port(j.n)))
			var mine, other chan struct{}
			mine = spawn(procA, func() {
				if _, err := j.n.Request(bg(), addrB, []byte("never answered")); err == nil && op == 0 {
					vsched.Fail("a request was answered by nobody")
				}
			})
			other = spawn(procA, func() {
				if got, err := j.n.Request(bg(), addrC, []byte("x")); err != nil || string(got) != "x" {
					vsched.Fail("a request to another peer fails: %q %v", got, err)
				}
			})
			if op == 0 {
				p.recv() // now it is in flight
			}
			p.send(0, []byte("1 bad"))
			join(mine, other)
			j.condemned(c, "1 bad")
			vsched.Settle()
			j.judged("1 bad")
			want := 1
			if op == 1 && c != j.of(rawID(procB, c.ID().Port)) {
				want = 2 // the request was made after the failure
			}
			if k := len(j.n.Outbound()); k != want {
				vsched.Fail("%d connections are listed instead of %d", k, want)
			}
			vsched.Quiet(func() {
				in(procA, func() {
					for _, to := range []string{addrB, addrC} {
						if got, err := j.n.Request(bg(), to, []byte("again")); err != nil || string(got) != "again" {
							vsched.Fail("a later request fails: %q %v", got, err)
						}
					}
				})
			})
		},
		Quick: mc.Bounds{Cost: 1}, Thorough: mc.Bounds{Cost: 2, Policies: []int{0, 1}}, Native: 6,
	})
	mc.Add(mc.Scenario{
		Prop: "C12", Name: "c12-replied", Doc: "a handler replies, or sends further messages, and then returns an error; two requests at once",
		Run: func() {
			n := vsched.Pick(3)
			workers := 1 + vsched.Pick(2)
			var b *noise.Node
			var w watch
			var p, q *rawPeer
			vsched.Quiet(func() {
				b = newNode(procB, noise.WithNodeNumWorkers(uint(workers)))
				b.Bind(w.protocol())
				b.Handle(func(ctx noise.HandlerContext) error {
					if string(ctx.Data()) == "fine" {
						return ctx.Send([]byte("re:fine"))
					}
					for i := 0; i < n; i++ {
						ctx.Send([]byte("reply"))
					}
					return errBad
				})
				listen(procB, b)
				p = dialShake(b.Addr(), 1, procC, 7)
				q = dialShake(b.Addr(), 2, procD, 7)
				vsched.Quiesce()
			})
			t := spawn(procC, func() { p.send(1, []byte("bad")); p.send(2, []byte("bad too")); p.drain() })
			serves(q, 4, "fine")
			join(t)
			vsched.Settle()
			for i, c := range w.connected {
				if bad := w.ids[i].ID == key(procC).Public(); bad != (c.Error() != nil) || bad && c.Error() != errBad {
					vsched.Fail("connection error %v", c.Error())
				}
			}
			serves(q, 5, "fine")
		},
		Quick: mc.Bounds{Cost: 1}, Thorough: mc.Bounds{Cost: 3, Policies: []int{0, 1}}, Native: 6,
	})
}

// port is the port under which a peer that accepted a connection presented itself.
func (p *rawPeer) port(*noise.Node) uint16 {
	_, s, _ := strings.Cut(p.conn.LocalAddr().String(), ":")
	var n uint16
	fmt.Sscan(s, &n)
	return n
}
