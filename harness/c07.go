package main

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"math"
	"net"

	"github.com/perlin-network/noise"
	"verif.local/rt/mc"
	"verif.local/rt/vsched"
)

func header(n uint32) []byte {
	var b [4]byte
	binary.BigEndian.PutUint32(b[:], n)
	return b[:]
}

// onlyInbound is the one inbound connection of n.
func onlyInbound(n *noise.Node) *noise.Client {
	vsched.Quiesce()
	in := n.Inbound()
	if len(in) != 1 {
		vsched.Fail("%d inbound connections", len(in))
	}
	return in[0]
}

// tooLarge checks that c was dropped because of the size of a message.
func tooLarge(p *rawPeer, c *noise.Client, w *watch, handled int, why string) {
	join(spawn(procA, func() { p.drain() }))
	c.WaitUntilClosed()
	if !errors.Is(c.Error(), noise.ErrMessageTooLarge) {
		vsched.Fail("%s: the connection's error is %v", why, c.Error())
	}
	if len(w.handled) != handled {
		vsched.Fail("%s: %d messages were handled instead of %d", why, len(w.handled), handled)
	}
}

func init() {
	limits := []uint32{142, 143, 150, 255, 256, 257, 1000, 4096, 4097, 65535, 65536, 1 << 20}
	mc.Add(mc.Scenario{
		Prop: "C07", Name: "c07-limit", Doc: "frames of sizes around the limit, for several limits, as plain message, as request or with only the header sent; first or after smaller and larger ones",
		Run: func() {
			lim := limits[vsched.Pick(len(limits))]
			delta := []int{-100, -2, -1, 0, 1, 2, 3, 4, 28, 1000, 1 << 24}[vsched.Pick(11)]
			what := vsched.Pick(3)
			before := vsched.Pick(2)
			size := int(lim) + delta
			if size < 36 || (what != 2 && size > 1<<21) {
				vsched.Discard("too small or large to be sent")
			}
			var w watch
			var b *noise.Node
			vsched.Quiet(func() { b = watched(procB, &w, noise.WithNodeMaxRecvMessageSize(lim)) })
			p, err := rawDial(b.Addr())
			must(err)
			must(p.shake(1, rawID(procA, 1), key(procA)))
			c := onlyInbound(b)
			n := 0
			if before == 1 {
				must(p.send(0, make([]byte, int(lim)-36)))
				must(p.send(0, []byte("x")))
				vsched.Quiesce()
				n = 2
				if len(w.handled) != 2 || len(w.handled[0]) != int(lim)-36 || w.handled[1] != "x" {
					vsched.Fail("messages within the limit of %d were not delivered", lim)
				}
			}
			msg := fill(3, size-36)
			switch what {
			case 0:
				p.send(0, msg)
			case 1:
				p.send(77, msg)
			case 2:
				p.writeRaw(header(uint32(size)))
			}
			vsched.Quiesce()
			if size > int(lim) {
				tooLarge(p, c, &w, n, fmt.Sprintf("%d bytes with a limit of %d", size, lim))
				return
			}
			if what == 2 {
				if len(w.disconnected) > 0 {
					vsched.Fail("disconnected over the header of %d bytes with a limit of %d", size, lim)
				}
				return
			}
			if len(w.handled) != n+1 || w.handled[n] != string(msg) {
				vsched.Fail("%d bytes with a limit of %d were not delivered: %v", size, lim, c.Error())
			}
			if what == 1 {
				if size+3 > int(lim) {
					return
				}
				if num, data, err := p.recv(); err != nil || num != 77 || string(data) != "re:"+string(msg) {
					vsched.Fail("response %d %q %v", num, short(data), err)
				}
			}
			must(p.send(0, []byte("after")))
			vsched.Quiesce()
			if len(w.handled) != n+2 {
				vsched.Fail("nothing is delivered after %d bytes with a limit of %d: %v", size, lim, c.Error())
			}
		},
		Quick: mc.Bounds{Cost: 1, Policies: []int{0}}, Thorough: mc.Bounds{Cost: 2, Policies: []int{0, 1}}, Native: 6,
	})
	mc.Add(mc.Scenario{
		Prop: "C07", Name: "c07-handshake", Doc: "handshake messages beyond the limit, on the accepting and on the dialling side",
		Run: func() {
			lim := []uint32{1, 50, 95, 96, 97, 141, 142}[vsched.Pick(7)]
			side := vsched.Pick(2)
			var w watch
			var b *noise.Node
			var c *noise.Client
			var p *rawPeer
			l, addr := rawListen(procA)
			vsched.Quiet(func() {
				b = watched(procB, &w, noise.WithNodeMaxRecvMessageSize(lim), noise.WithNodeMaxDialAttempts(1))
			})
			ok := lim >= 142
			if side == 0 {
				q, err := rawDial(b.Addr())
				must(err)
				p, c = q, onlyInbound(b)
				p.shake(1, rawID(procA, 1), key(procA))
				vsched.Quiesce()
			} else {
				rawServe(procA, l, func(*rawPeer) {})
				d := spawn(procB, func() {
					_, err := b.Ping(bg(), addr)
					if (err == nil) != ok {
						vsched.Fail("Ping with a limit of %d: %v", lim, err)
					}
					if err != nil && !errors.Is(err, noise.ErrMessageTooLarge) {
						vsched.Fail("Ping with a limit of %d failed for another reason: %v", lim, err)
					}
				})
				join(d)
			}
			if ok != (len(w.connected) == 1) {
				vsched.Fail("connected %d times with a limit of %d", len(w.connected), lim)
			}
			if !ok && side == 0 {
				tooLarge(p, c, &w, 0, fmt.Sprintf("handshake with a limit of %d", lim))
			}
		},
		Quick: mc.Bounds{Cost: 2, Policies: []int{0, 1}}, Thorough: mc.Bounds{Cost: 3, Policies: []int{0, 1}}, Native: 3,
	})
	mc.Add(mc.Scenario{
		Prop: "C07", Name: "c07-announced", Doc: "the first, second or third frame of a connection announces a size around the limit, and nothing follows: the connection is dropped at once, or not, on the accepting and on the dialling side",
		Run: func() {
			lim := []uint32{200, 1000, 4096, 1 << 20, 4 << 20}[vsched.Pick(5)]

			size := uint32(int(lim) + []int{-1, 0, 1, 2, 100, 1 << 24, 1 << 30}[vsched.Pick(7)])
			st := []int{stNothing, stSession, stEstablished}[vsched.Pick(3)]
			side := vsched.Pick(2)
			var w watch
			var b *noise.Node
			var c *noise.Client
			var p *rawPeer
			vsched.Quiet(func() {
				opts := []noise.NodeOption{noise.WithNodePrivateKey(key(procB)), noise.WithNodeMaxDialAttempts(1), noise.WithNodeBindHost(net.IPv4(127, 0, 0, 1))}
				if lim != 4<<20 { // which is the default
					opts = append(opts, noise.WithNodeMaxRecvMessageSize(lim))
				}
				var err error
				b, err = noise.NewNode(opts...)
				must(err)
				b.Bind(w.protocol())
				b.Handle(w.handle)
				listen(procB, b)
			})
			if side == 0 {
				q, err := rawDial(b.Addr())
				must(err)
				p, c = q, onlyInbound(b)
			} else {
				l, addr := rawListen(procA)
				spawn(procB, func() { b.Ping(bg(), addr) }) //nolint
				q, err := l.Accept()
				must(err)
				p = &rawPeer{conn: q}
				vsched.Quiesce()
				c = b.Outbound()[0]
			}
			must(p.upTo(st, 1, rawID(procA, 1), key(procA)))
			p.writeRaw(header(size)) //nolint
			vsched.Quiesce()
			if size > lim {
				tooLarge(p, c, &w, 0, fmt.Sprintf("%d bytes announced with a limit of %d at stage %q", size, lim, stageNames[st]))
			} else if c.Error() != nil {
				vsched.Fail("dropped over the announcement of %d bytes with a limit of %d: %v", size, lim, c.Error())
			}
		},
		Quick: mc.Bounds{Cost: 1, Policies: []int{0}}, Thorough: mc.Bounds{Cost: 2, Policies: []int{0, 1}}, NoStmts: true,
	})
	mc.Add(mc.Scenario{
		Prop: "C07", Name: "c07-unlimited", Doc: "a limit of zero: frames of all sizes in growing, falling and mixed order arrive intact",
		Run: func() {
			sizes := []int{0, 1, 100, 4088, 4096, 5000, 60, 65536, 1, 70000, 5 << 20, 0, 4<<20 + 1, 33}
			order := vsched.Pick(3)
			var w watch
			vsched.QuietOn()
			b := watched(procB, &w, noise.WithNodeMaxRecvMessageSize(0))
			a := node(procA, nil, noise.WithNodeMaxRecvMessageSize(0))
			var sent []string
			for i := range sizes {
				n := sizes[i]
				if order == 1 {
					n = sizes[len(sizes)-1-i]
				}
				if order == 2 {
					n = i * i * 1000
				}
				m := string(fill(i, n))
				sent = append(sent, m)
				must(a.Send(bg(), b.Addr(), []byte(m)))
				if order == 2 {
					got, err := a.Request(bg(), b.Addr(), []byte(m))
					if err != nil || string(got) != "re:"+m {
						vsched.Fail("response to %d bytes: %d bytes, %v", n, len(got), err)
					}
					sent = append(sent, m)
				}
			}
			vsched.Quiesce()
			if vsched.Native {
				vsched.Settle()
			}
			if len(w.handled) != len(sent) {
				vsched.Fail("%d of %d messages arrived", len(w.handled), len(sent))
			}
			for i := range sent {
				if w.handled[i] != sent[i] {
					vsched.Fail("message of %d bytes arrived altered (%d bytes)", len(sent[i]), len(w.handled[i]))
				}
			}
		},
		Quick: mc.Bounds{Cost: 0}, Thorough: mc.Bounds{Cost: 0, Policies: []int{0, 1, 2}}, Native: 3,
	})
	mc.Add(mc.Scenario{
		Prop: "C07", Name: "c07-response-too-large", Doc: "the response to a request is beyond the requester's limit: the request fails and its connection has the error",
		Run: func() {
			n := []int{1, 164, 165, 1000}[vsched.Pick(4)]
			var a, b *noise.Node
			var c *noise.Client
			vsched.Quiet(func() {
				b = node(procB, func(ctx noise.HandlerContext) error { return ctx.Send(bytes.Repeat([]byte{1}, n)) })
				a = node(procA, nil, noise.WithNodeMaxRecvMessageSize(200))
				c = connect(procA, a, b.Addr())
			})
			join(spawn(procA, func() {
				got, err := a.Request(bg(), b.Addr(), make([]byte, 1000))
				if n+36 <= 200 {
					if err != nil || len(got) != n {
						vsched.Fail("response of %d bytes: %v", n, err)
					}
					return
				}
				if err == nil {
					vsched.Fail("a response of %d bytes was returned", n)
				}
				c.WaitUntilClosed()
				if !errors.Is(c.Error(), noise.ErrMessageTooLarge) {
					vsched.Fail("error is %v", c.Error())
				}
			}))
		},
		Quick: mc.Bounds{Cost: 2, Policies: []int{0, 1}}, Thorough: mc.Bounds{Cost: 3, Policies: []int{0, 1}}, Native: 4,
	})
	mc.Add(mc.Scenario{
		Prop: "C07", Name: "c07-largest-limits", Doc: "limits close to the largest number: connections work, and announced sizes are judged as numbers",
		Run: func() {
			lim := []uint32{math.MaxUint32, math.MaxUint32 - 3}[vsched.Pick(2)]
			var w watch
			vsched.QuietOn()
			b := watched(procB, &w, noise.WithNodeMaxRecvMessageSize(lim))
			p, err := rawDial(b.Addr())
			must(err)
			must(p.shake(1, rawID(procA, 1), key(procA)))
			must(p.send(0, []byte("x")))
			c := onlyInbound(b)
			if len(w.handled) != 1 {
				vsched.Fail("nothing delivered with a limit of %d", lim)
			}
			if lim == math.MaxUint32 {
				return
			}
			p.writeRaw(header(math.MaxUint32))
			tooLarge(p, c, &w, 1, "largest size")
		},
		Quick: mc.Bounds{Cost: 0}, Thorough: mc.Bounds{Cost: 0},
	})
}
