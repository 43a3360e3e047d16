package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math/rand"
	"strings"

	"github.com/perlin-network/noise"
	"verif.local/rt/mc"
	"verif.local/rt/vnet"
	"verif.local/rt/vsched"
)

// tap listens to everything on the wire, frame by frame.
type tap struct {
	streams map[*vnet.TCPConn]*stream
	order   []*stream
}

type stream struct {
	conn   *vnet.TCPConn
	buf    []byte
	frames [][]byte
}

func newTap() *tap {
	t := &tap{streams: map[*vnet.TCPConn]*stream{}}
	vnet.Observe(func(c *vnet.TCPConn, data []byte) {
		s := t.streams[c]
		if s == nil {
			s = &stream{conn: c}
			t.streams[c] = s
			t.order = append(t.order, s)
		}
		s.buf = append(s.buf, data...)
		for len(s.buf) >= 4 {
			n := int(binary.BigEndian.Uint32(s.buf))
			if n > 1<<20 {
				vsched.Fail("a frame on the wire announces %d bytes", n)
			}
			if len(s.buf) < 4+n {
				break
			}
			s.frames = append(s.frames, append([]byte{}, s.buf[4:4+n]...))
			s.buf = s.buf[4+n:]
		}
	})
	return t
}

// check judges all that went over the wire: secrets must not occur in it.
func (t *tap) check(secrets map[string][]byte) {
	eph := map[string]bool{}
	nonces := map[string]string{}
	frames := 0
	for _, s := range t.order {
		a, b := s.conn.LocalAddr().String(), s.conn.RemoteAddr().String()
		if b < a {
			a, b = b, a
		}
		session := a + "-" + b
		for i, f := range s.frames {
			if i == 0 {
				if len(f) != 96 {
					vsched.Fail("the first frame has %d bytes", len(f))
				}
				if eph[string(f[:32])] {
					vsched.Fail("an ephemeral key was used for two sessions")
				}
				eph[string(f[:32])] = true
			} else {
				frames++
				if len(f) < 28 {
					vsched.Fail("a frame of %d bytes cannot be an encrypted one", len(f))
				}
				k := session + " " + string(f[:12])
				if by, ok := nonces[k]; ok {
					vsched.Fail("nonce %x was used twice in a session, by %s and by process %d", f[:12], by, s.conn.Group())
				}
				nonces[k] = fmt.Sprintf("process %d", s.conn.Group())
			}
			for what, sec := range secrets {
				if bytes.Contains(f, sec) {
					vsched.Fail("%s occurs in clear in frame %d of process %d", what, i, s.conn.Group())
				}
			}
		}
	}
	if frames == 0 {
		vsched.Fail("no encrypted frames seen")
	}
	vsched.Fact(fmt.Sprintf("sessions of %d ends", len(t.order)))
}

func secretsOf(ns ...*noise.Node) map[string][]byte {
	m := map[string][]byte{}
	for i, n := range ns {
		id := n.ID()
		m[fmt.Sprintf("public key %d", i)] = append([]byte{}, id.ID[:]...)
		m[fmt.Sprintf("ID %d", i)] = id.Marshal()[20:]
	}
	return m
}

func init() {
	mc.Add(mc.Scenario{
		Prop: "C05", Name: "c05-on-the-wire", Doc: "messages, requests and responses both ways over two connections and a reconnect, with a seeded general purpose generator in both processes",
		Run: func() {
			seeded := vsched.Pick(2)
			var a, b *noise.Node
			var t *tap
			vsched.Quiet(func() {
				t = newTap()
				a, b = node(procA, echo), node(procB, echo)
			})
			if seeded == 1 {
				in(procA, func() { rand.Seed(42) }) //nolint
				in(procB, func() { rand.Seed(42) }) //nolint
			}
			p1, p2 := "payload number one, secret", "payload number two, secret"
			d1 := spawn(procA, func() {
				must(a.Send(bg(), b.Addr(), []byte(p1)))
				_, err := a.Request(bg(), b.Addr(), []byte(p2))
				must(err)
			})
			d2 := spawn(procB, func() {
				if seeded == 1 {
					rand.Seed(42) //nolint
				}
				_, err := b.Request(bg(), a.Addr(), []byte(p1))
				must(err)
			})
			join(d1, d2)
			vsched.Quiesce()
			closeClients(procA, a)
			vsched.Quiesce()
			if seeded == 1 {
				in(procA, func() { rand.Seed(42) }) //nolint
			}
			join(ask(procA, a, b.Addr(), p2, "re:"+p2))
			s := secretsOf(a, b)
			s["payload"], s["other payload"] = []byte(p1), []byte(p2)
			t.check(s)
		},
		Quick: mc.Bounds{Cost: 1, Policies: []int{0, 1, 2}}, Thorough: mc.Bounds{Cost: 2, Policies: []int{0, 1, 2}},
	})
	mc.Add(mc.Scenario{
		Prop: "C05", Name: "c05-concurrent-writers", Doc: "several threads at both ends of one connection write at the same time; no nonce occurs twice",
		Run: func() {
			var a, b *noise.Node
			var t *tap
			vsched.Quiet(func() {
				t = newTap()
				a = node(procA, nil)
				b = node(procB, func(ctx noise.HandlerContext) error {
					ctx.Send(ctx.Data())
					return ctx.Send([]byte("and something more to read"))
				}, noise.WithNodeNumWorkers(2))
				connect(procA, a, b.Addr())
			})
			join(sendAll(procA, a, b.Addr(), []string{"the very first message", "the second message"}), sendAll(procA, a, b.Addr(), []string{"and the third message"}))
			vsched.Quiesce()
			s := secretsOf(a, b)
			s["payload"] = []byte("message")
			s["answer"] = []byte("something more")
			t.check(s)
		},
		Quick: mc.Bounds{Cost: 2, Policies: []int{0, 1, 2}}, Thorough: mc.Bounds{Cost: 3, Policies: []int{0, 1, 2}},
	})
	mc.Add(mc.Scenario{
		Prop: "C05", Name: "c05-many", Doc: "5000 messages of many sizes and with repeated content each way and 30 sessions: keys, nonces and ciphertexts are never repeated",
		Run: func() {
			vsched.QuietOn()
			t := newTap()
			b := node(procB, func(ctx noise.HandlerContext) error { return ctx.Send(ctx.Data()) })
			a := node(procA, nil)
			mark := strings.Repeat("secret!", 5)
			for i := 0; i < 30; i++ {
				for j := 0; j < 160; j++ {
					_, err := a.Request(bg(), b.Addr(), []byte(mark+strings.Repeat("x", j%50)))
					must(err)
				}
				closeClients(procA, a)
				vsched.Quiesce()
			}
			s := secretsOf(a, b)
			s["payload"] = []byte(mark)
			s["part of the payload"] = []byte("secret!secret!")
			t.check(s)
		},
		Quick: mc.Bounds{Cost: 0}, Thorough: mc.Bounds{Cost: 0, Policies: []int{0, 1, 2}}, MaxSteps: 5000000,
	})
	mc.Add(mc.Scenario{
		Prop: "C05", Name: "c05-tampered", Doc: "every byte of every frame of an exchange is changed, or the stream is cut there or loses or repeats a byte; what is delivered is a prefix of what was sent and the connection ends",
		Run: func() {
			how := vsched.Pick(5)
			dir := vsched.Pick(2)
			var wa, wb watch
			var a, b *noise.Node
			l, addr := rawListen(procC)
			msgs := []string{"message one", "", "message three, a bit longer"}
			const total = 100 + 4 + 142 + 3*(4+12+8+16) + 11 + 26
			pos := vsched.Pick(total)
			done := make(chan struct{})
			vsched.Quiet(func() {
				a, b = watched(procA, &wa, noise.WithNodeMaxDialAttempts(1)), watched(procB, &wb)
				rawAccept(procC, l, func(i int, p *rawPeer) {
					q, err := rawDial(b.Addr())
					must(err)
					end := [2]chan bool{make(chan bool), make(chan bool)}
					pipe := func(k int, from, to *rawPeer) {
						n := 0
						buf := make([]byte, 1024)
						for {
							m, err := from.conn.Read(buf)
							if err != nil {
								break
							}
							d := buf[:m]
							if k == dir && pos >= n && pos < n+m {
								at := pos - n
								switch how {
								case 0:
									d[at] ^= 1
								case 1:
									d[at] ^= 0x80
								case 2:
									d = d[:at]
								case 3:
									d = append(append([]byte{}, d[:at]...), d[at+1:]...)
								case 4:
									d = append(append(append([]byte{}, d[:at]...), d[at]), d[at:]...)
								}
							}
							n += m
							if to.writeRaw(d) != nil || (how == 2 && k == dir && n > pos) {
								break
							}
						}
						from.conn.Close()
						to.conn.Close()
						close(end[k])
					}
					go pipe(0, p, q)
					go pipe(1, q, p)
					<-end[0]
					<-end[1]
					close(done)
				})
			})
			d := spawn(procA, func() {
				if dir == 0 {
					c, err := a.Ping(bg(), addr)
					if err != nil {
						return
					}
					for _, m := range msgs {
						a.Send(bg(), addr, []byte(m))
					}
					c.Error()
				} else {
					if _, err := a.Ping(bg(), addr); err != nil {
						return
					}
					a.Request(bg(), addr, []byte("ask"))
				}
			})
			vsched.Quiesce()
			// whatever is still expected to complete a frame that grew
			for _, c := range vnet.Conns() {
				if c.Group() == procC && !c.IsClosed() {
					c.CloseWrite()
				}
			}
			join(d, done)
			vsched.Quiesce()
			sent := msgs
			w := &wb
			if dir == 1 {
				sent, w = []string{"ask"}, &wa
				if len(wa.handled) > 0 {
					vsched.Fail("node that only sent a request was handed %q", wa.handled)
				}
			}
			for i, m := range w.handled {
				if i >= len(sent) || sent[i] != m {
					vsched.Fail("message %d was delivered as %q", i, m)
				}
			}
			if dir == 0 && len(wb.handled) == len(msgs) && !(how == 4 && pos >= total-3) {
				vsched.Fail("everything was delivered though byte %d was tampered with", pos)
			}
			for _, c := range wb.connected {
				if c.Error() == nil {
					vsched.Fail("connection has no error")
				}
			}
			if len(wb.connected) != len(wb.disconnected) || len(wa.connected) != len(wa.disconnected) {
				vsched.Fail("the connection survived")
			}
			vsched.Fact(fmt.Sprintf("%d delivered", len(w.handled)))
		},
		Quick: mc.Bounds{Cost: 0, Policies: []int{0, 1}}, Thorough: mc.Bounds{Cost: 1, Policies: []int{0, 1, 2}},
	})
	mc.Add(mc.Scenario{
		Prop: "C05", Name: "c05-forged-frames", Doc: "an established peer's frames are cut, extended, flipped at every byte, reordered blockwise, sent in clear, under another key, or with another nonce",
		Run: func() {
			var w watch
			var b *noise.Node
			vsched.Quiet(func() { b = watched(procB, &w) })
			p, err := rawDial(b.Addr())
			must(err)
			vsched.QuietOn()
			must(p.shake(1, rawID(procA, 1), key(procA)))
			vsched.QuietOff()
			good := p.seal(append(make([]byte, 8), "a message of a few blocks, to be mangled in one of many ways...."...))
			kind := vsched.Pick(10)
			var f []byte
			switch kind {
			case 0:
				i := vsched.Pick(len(good))
				f = append([]byte{}, good...)
				f[i] ^= 1 << uint(vsched.Pick(8))
			case 1:
				f = good[:vsched.Pick(len(good))]
			case 2:
				f = append(append([]byte{}, good...), make([]byte, 1+vsched.Pick(20))...)
			case 3: // blocks exchanged
				i, j := vsched.Pick(len(good)/16), vsched.Pick(len(good)/16)
				f = append([]byte{}, good...)
				copy(f[16*i:16*i+16], good[16*j:])
				copy(f[16*j:16*j+16], good[16*i:])
				if bytes.Equal(f, good) {
					vsched.Discard("same blocks")
				}
			case 4:
				f = append(make([]byte, 8), "in clear, but long enough to pass for one"...)
			case 5:
				q := &rawPeer{suite: gcm(bytes.Repeat([]byte{7}, 32))}
				f = q.seal(append(make([]byte, 8), "under another key"...))
			case 6:
				f = append([]byte{}, good...)
				f[11]++
			case 7:
				f = append(append([]byte{}, good[12:]...), good[:12]...)
			case 8: // cut at the front
				f = good[1+vsched.Pick(len(good)-1):]
			case 9: // rotated
				i := 1 + vsched.Pick(len(good)-1)
				f = append(append([]byte{}, good[i:]...), good[:i]...)
			}
			first := vsched.Pick(2)
			if first == 1 {
				must(p.send(0, []byte("before")))
			}
			must(p.writeFrame(f))
			p.send(0, []byte("after"))
			join(spawn(procA, func() { p.drain() }))
			vsched.Quiesce()
			if len(w.handled) > first || (len(w.handled) == 1 && w.handled[0] != "before") {
				vsched.Fail("delivered %q", w.handled)
			}
			if len(w.handled) < first {
				vsched.Fail("the message before the forged one was not delivered")
			}
			if len(w.connected) != 1 || len(w.disconnected) != 1 || w.connected[0].Error() == nil {
				vsched.Fail("connected %d, disconnected %d times", len(w.connected), len(w.disconnected))
			}
		},
		Quick: mc.Bounds{Cost: 0, Policies: []int{0, 1}}, Thorough: mc.Bounds{Cost: 1, Policies: []int{0, 1, 2}}, Native: 6,
	})
	mc.Add(mc.Scenario{
		Prop: "C05", Name: "c05-weak-points", Doc: "a peer offers an ephemeral key of small order, so that the session key would be known to anybody: no session is set up",
		Run: func() {
			var w watch
			var b *noise.Node
			vsched.Quiet(func() { b = watched(procB, &w) })
			p, err := rawDial(b.Addr())
			must(err)
			pub, sig := forgedIdentity(handshakeMsg)
			p.writeFrame(append(pub, sig...))
			_, err = p.readFrame()
			must(err)
			if _, err := p.readFrame(); err == nil {
				vsched.Fail("the node carried on with a key of small order")
			}
			vsched.Quiesce()
			w.silent("weak point")
		},
		Quick: mc.Bounds{Cost: 1, Policies: []int{0, 1}}, Thorough: mc.Bounds{Cost: 2, Policies: []int{0, 1}}, Native: 1,
	})
	mc.Add(mc.Scenario{
		Prop: "C05", Name: "c05-keys-by-definition", Doc: "the two ends of a session use the key that the exchange of their ephemeral keys defines, and no other session's frames open under it",
		Run: func() {
			var b *noise.Node
			vsched.Quiet(func() { b = node(procB, echo) })
			var ps []*rawPeer
			var sealed [][]byte
			for i := 0; i < 3; i++ {
				p, err := rawDial(b.Addr())
				must(err)
				// the same ephemeral key at our end each time
				must(p.shake(77, rawID(procA, 1), key(procA)))
				must(p.send(9, []byte("question")))
				f, err := p.readFrame()
				must(err)
				ps, sealed = append(ps, p), append(sealed, f)
			}
			for i, p := range ps {
				for j, f := range sealed {
					if _, err := p.open(f); (err == nil) != (i == j) {
						vsched.Fail("frame of session %d under the key of session %d: %v", j, i, err)
					}
				}
			}
		},
		Quick: mc.Bounds{Cost: 1, Policies: []int{0, 1}}, Thorough: mc.Bounds{Cost: 2, Policies: []int{0, 1}}, Native: 1,
	})
}
