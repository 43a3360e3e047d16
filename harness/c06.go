package main

import (
	"bytes"
	"context"
	"encoding/binary"
	"errors"
	"fmt"
	"net"
	"strings"
	"time"

	"github.com/perlin-network/noise"
	"github.com/perlin-network/noise/gossip"
	"github.com/perlin-network/noise/kademlia"
	"verif.local/rt/mc"
	"verif.local/rt/vsched"
)

// Opcodes as a node gives them to the overlay's and the gossip protocol's messages.
const (
	opPing = iota
	opPong
	opFindReq
	opFindRes
	opGossip
)

func typed(op int, body []byte) []byte {
	return append([]byte{byte(op >> 8), byte(op)}, body...)
}

// bodies of messages, well-formed and not.
func bodies() [][]byte {
	id := rawID(procD, 77).Marshal()
	var out [][]byte
	for _, n := range []int{0, 1, 2, 7, 31, 32, 33, 49, 50, 51, 52, 100, 101, 255, 256, 1000} {
		out = append(out, make([]byte, n), bytes.Repeat([]byte{0xff}, n))
	}
	for _, n := range []int{0, 1, 2, 5, 16, 17, 254, 255} { // claimed results
		for _, m := range []int{0, 1, 2, 16} { // results there are
			b := []byte{byte(n)}
			for i := 0; i < m; i++ {
				b = append(b, id...)
			}
			out = append(out, b)
			if len(b) > 10 {
				out = append(out, b[:len(b)-1], append(append([]byte{}, b...), 1, 2, 3))
			}
		}
	}
	return out
}

type hostility struct {
	name string
	run  func(p *rawPeer)
}

func rawBytes(name string, b []byte) hostility {
	return hostility{name, func(p *rawPeer) { p.writeRaw(b) }}
}

// streams are bytes to send, as they are, at any stage.
func streams() []hostility {
	var out []hostility
	hd := func(n uint32) []byte { var b [4]byte; binary.BigEndian.PutUint32(b[:], n); return b[:] }
	for _, n := range []uint32{0, 1, 7, 8, 11, 12, 27, 28, 29, 95, 96, 97, 142, 4095, 4096, 4097, 65536, 1 << 20, 1<<31 - 1, 1 << 31, 1<<32 - 5, 1<<32 - 4, 1<<32 - 1} {
		out = append(out, rawBytes(fmt.Sprintf("header %d", n), hd(n)))
		m := n
		if m > 5000 {
			m = 5000
		}
		out = append(out, rawBytes(fmt.Sprintf("header %d with zeros", n), append(hd(n), make([]byte, m)...)))
		out = append(out, rawBytes(fmt.Sprintf("header %d with ones", n), append(hd(n), bytes.Repeat([]byte{0xff}, int(m))...)))
	}
	out = append(out,
		hostility{"close", func(p *rawPeer) { p.conn.Close() }},
		rawBytes("one byte", []byte{0}),
		rawBytes("three bytes", []byte{0, 0, 0}),
		rawBytes("HTTP", []byte("GET / HTTP/1.1\r\nHost: x\r\n\r\n")),
		rawBytes("100 empty frames", make([]byte, 400)),
		rawBytes("own hello", func() []byte { _, h := hello(3); return frame(h) }()),
		rawBytes("own hello twice", func() []byte { _, h := hello(3); return append(frame(h), frame(h)...) }()),
		hostility{"everything it read", func(p *rawPeer) {
			b := make([]byte, 300)
			if n, err := p.conn.Read(b); err == nil {
				p.writeRaw(b[:n])
			}
		}},
	)
	return out
}

// sealedOnes are sent in frames an established peer seals.
func sealedOnes() []hostility {
	var out []hostility
	for n := 0; n <= 10; n++ {
		n := n
		out = append(out, hostility{fmt.Sprintf("sealed %d bytes", n), func(p *rawPeer) { p.writeFrame(p.seal(bytes.Repeat([]byte{1}, n))) }})
	}
	bs := bodies()
	for _, nonce := range []uint64{0, 1, 1<<64 - 1} {
		for op := 0; op <= 6; op++ {
			for i, b := range bs {
				nonce, op, b := nonce, op, b
				out = append(out, hostility{fmt.Sprintf("number %d opcode %d body %d", nonce, op, i), func(p *rawPeer) { p.send(nonce, typed(op, b)) }})
			}
		}
		for _, op := range []int{0xfffe, 0xffff, 0x7fff} {
			nonce, op := nonce, op
			out = append(out, hostility{fmt.Sprintf("number %d opcode %d", nonce, op), func(p *rawPeer) { p.send(nonce, typed(op, nil)) }})
		}
		nonce := nonce
		out = append(out, hostility{fmt.Sprintf("number %d one byte", nonce), func(p *rawPeer) { p.send(nonce, []byte{0}) }})
		out = append(out, hostility{fmt.Sprintf("number %d empty", nonce), func(p *rawPeer) { p.send(nonce, nil) }})
	}
	out = append(out, hostility{"many at once", func(p *rawPeer) {
		for i := 0; i < 20; i++ {
			p.send(uint64(i), typed(i%6, make([]byte, i)))
		}
	}})
	out = append(out, hostility{"same number again and again", func(p *rawPeer) {
		for i := 0; i < 5; i++ {
			p.send(3, typed(opFindReq, make([]byte, 32)))
		}
	}})
	return out
}

func ids() []noise.ID {
	id := rawID(procD, 77)
	var pub noise.PublicKey
	pub[0] = 1
	return []noise.ID{
		id,
		{ID: id.ID, Host: nil, Port: 0},
		{ID: id.ID, Host: net.IPv4bcast, Port: 65535},
		{ID: id.ID, Host: net.IP(bytes.Repeat([]byte{0xff}, 16)), Port: 1},
		noise.NewID(key(procB).Public(), net.IPv4(127, 0, 0, 1), 9000), // the node under attack
	}
}

// qa answers messages that start with "q:" and leaves others to the protocols.
func qa(ctx noise.HandlerContext) error {
	if !strings.HasPrefix(string(ctx.Data()), "q:") {
		return nil
	}
	return ctx.Send(append([]byte("a:"), ctx.Data()...))
}

func overlay(g int, h noise.Handler, opts ...noise.NodeOption) (*noise.Node, *kademlia.Protocol, *gossip.Protocol) {
	n := newNode(g, opts...)
	k := kademlia.New()
	gp := gossip.New(k, gossip.WithEvents(gossip.Events{OnGossipReceived: func(sender noise.ID, data []byte) error {
		if len(data) == 7 {
			return errors.New("not to my liking")
		}
		return nil
	}}))
	n.Bind(k.Protocol(), gp.Protocol())
	if h != nil {
		n.Handle(h)
	}
	listen(g, n)
	return n, k, gp
}

// fine checks that node b serves a connection made earlier and a new one.
func fine(a, b *noise.Node, why string) {
	for i := 0; i < 2; i++ {
		join(spawn(procA, func() {
			got, err := a.Request(timeout(time.Minute), b.Addr(), []byte("q:x"))
			if err != nil || string(got) != "a:q:x" {
				vsched.Fail("after %s: another connection (%d) is not served any more: %q %v", why, i, got, err)
			}
		}))
		if i == 0 {
			closeClients(procA, a)
			vsched.Quiesce()
		}
	}
}

func init() {
	strs, seals, bs, idl := streams(), sealedOnes(), bodies(), ids()
	setup := func() (a, b *noise.Node) {
		vsched.Quiet(func() {
			b, _, _ = overlay(procB, qa)
			a = node(procA, nil)
			connect(procA, a, b.Addr())
		})
		return
	}
	mc.Add(mc.Scenario{
		Prop: "C06", Name: "c06-streams-accepted", Doc: fmt.Sprintf("%d byte strings at every stage of a connection that a node accepted", len(strs)),
		Run: func() {
			h := strs[vsched.Pick(len(strs))]
			st := []int{stNothing, stHello, stReadHello, stSession, stProof, stEstablished}[vsched.Pick(6)]
			a, b := setup()
			p, err := rawDial(b.Addr())
			must(err)
			spawn(procC, func() {
				p.upTo(st, 3, rawID(procC, 3), key(procC))
				h.run(p)
				p.drain()
			})
			vsched.Quiesce()
			fine(a, b, h.name)
			p.conn.Close()
			vsched.Quiesce()
			fine(a, b, h.name)
		},
		Quick: mc.Bounds{Cost: 0, Policies: []int{0, 1}}, Thorough: mc.Bounds{Cost: 1, Policies: []int{0, 1}}, Native: 6,
	})
	mc.Add(mc.Scenario{
		Prop: "C06", Name: "c06-streams-dialled", Doc: "the same at every stage of a connection that a node dialled",
		Run: func() {
			h := strs[vsched.Pick(len(strs))]
			st := []int{stNothing, stHello, stReadHello, stSession, stProof, stRead}[vsched.Pick(6)]
			a, b := setup()
			l, addr := rawListen(procC)
			rawAccept(procC, l, func(i int, p *rawPeer) {
				p.upTo(st, 3, rawID(procC, 3), key(procC))
				h.run(p)
				p.drain()
			})
			d := spawn(procB, func() { call(0, b, timeout(time.Minute), addr) })
			vsched.Quiesce()
			fine(a, b, h.name)
			join(d)
			fine(a, b, h.name)
		},
		Quick: mc.Bounds{Cost: 0, Policies: []int{0, 1}}, Thorough: mc.Bounds{Cost: 1, Policies: []int{0, 1}},
	})
	mc.Add(mc.Scenario{
		Prop: "C06", Name: "c06-sealed", Doc: fmt.Sprintf("%d messages, well-formed and not, from an established peer under %d identities to a node running overlay and gossip", len(seals), len(idl)),
		Run: func() {
			h := seals[vsched.Pick(len(seals))]
			id := idl[vsched.Pick(len(idl))]
			a, b := setup()
			p, err := rawDial(b.Addr())
			must(err)
			k := key(procD)
			if id.ID == key(procB).Public() {
				k = key(procB)
			}
			spawn(procC, func() {
				must(p.shake(3, id, k))
				h.run(p)
				p.drain()
			})
			vsched.Quiesce()
			fine(a, b, h.name)
		},
		Quick: mc.Bounds{Cost: 0, Policies: []int{0}, Weight: 2}, Thorough: mc.Bounds{Cost: 1, Policies: []int{0, 1}}, Native: 8,
	})
	mc.Add(mc.Scenario{
		Prop: "C06", Name: "c06-sealed-interleaved", Doc: "some of them while another peer is being served, at a deeper bound",
		Run: func() {
			some := []hostility{}
			for i := 0; i < len(seals); i += 41 {
				some = append(some, seals[i])
			}
			h := some[vsched.Pick(len(some))]
			a, b := setup()
			p, err := rawDial(b.Addr())
			must(err)
			d := spawn(procC, func() {
				p.shake(3, rawID(procC, 3), key(procC))
				h.run(p)
				p.conn.Close()
			})
			got, err := a.Request(timeout(time.Minute), b.Addr(), []byte("q:x"))
			if err != nil || string(got) != "a:q:x" {
				vsched.Fail("during %s: another connection is not served: %q %v", h.name, got, err)
			}
			join(d)
			vsched.Quiesce()
			fine(a, b, h.name)
		},
		Quick: mc.Bounds{Cost: 1, Policies: []int{0, 1}}, Thorough: mc.Bounds{Cost: 2, Policies: []int{0, 1}},
	})
	mc.Add(mc.Scenario{
		Prop: "C06", Name: "c06-responses", Doc: "pings, lookups and typed requests of a node are answered with messages of every type, well-formed and not",
		Run: func() {
			op := vsched.Pick(7)
			body := bs[vsched.Pick(len(bs))]
			what := vsched.Pick(3)
			var a, b *noise.Node
			var k *kademlia.Protocol
			l, addr := rawListen(procC)
			vsched.Quiet(func() {
				b, k, _ = overlay(procB, qa)
				a = node(procA, nil)
				connect(procA, a, b.Addr())
				rawServe(procC, l, func(p *rawPeer) {
					for {
						n, d, err := p.recv()
						if err != nil {
							return
						}
						if n == 0 {
							continue
						}
						if len(d) >= 2 && d[1] == opFindReq && what == 2 && n%2 == 0 {
							p.send(n, []byte{byte(op)})
							continue
						}
						p.send(n, typed(op, body))
					}
				})
			})
			d := spawn(procB, func() {
				switch what {
				case 0:
					k.Ping(timeout(time.Minute), addr)
				case 1:
					if msg, err := b.RequestMessage(timeout(time.Minute), addr, kademlia.FindNodeRequest{}); err == nil && msg == nil {
						vsched.Fail("neither message nor error")
					}
				case 2:
					b.Ping(bg(), addr)
					k.Find(key(procD).Public(), kademlia.WithIteratorLookupTimeout(time.Second))
				}
			})
			join(d)
			vsched.Quiesce()
			fine(a, b, fmt.Sprint("answer ", op))
		},
		Quick: mc.Bounds{Cost: 0, Policies: []int{0}}, Thorough: mc.Bounds{Cost: 1, Policies: []int{0, 1}}, Native: 6,
	})
	mc.Add(mc.Scenario{
		Prop: "C06", Name: "c06-answers", Doc: "two requests under way, one of which may be given up, are answered with all sequences of 3 out of: an answer to the first, to the second, to one never made, a plain message, a message that does not decode; under all schedules",
		Run: func() {
			var seq [3]int
			for i := range seq {
				seq[i] = vsched.Pick(5)
			}
			var a, b *noise.Node
			l, addr := rawListen(procC)
			vsched.Quiet(func() {
				b = node(procB, qa)
				a = node(procA, nil)
				connect(procA, a, b.Addr())
				rawServe(procC, l, func(p *rawPeer) {
					x, _, err := p.recv()
					if err != nil {
						return
					}
					y, _, err := p.recv()
					if err != nil {
						return
					}
					for _, s := range seq {
						switch s {
						case 0:
							p.send(x, []byte("x")) //nolint
						case 1:
							p.send(y, []byte("y")) //nolint
						case 2:
							p.send(1<<40, []byte("z")) //nolint
						case 3:
							p.send(0, []byte("p")) //nolint
						case 4:
							p.writeFrame(p.seal([]byte{1, 2, 3})) //nolint
						}
					}
				})
				connect(procB, b, addr)
			})
			ctx, cancel := context.WithCancel(bg())
			d := spawn(procB, func() { b.Request(ctx, addr, []byte("1")) })                  //nolint
			e := spawn(procB, func() { b.Request(timeout(time.Minute), addr, []byte("2")) }) //nolint
			vsched.Quiesce()
			cancel()
			join(d, e)
			fine(a, b, fmt.Sprint("answers ", seq))
		},
		Quick: mc.Bounds{Cost: 1, Policies: []int{0, 1}}, Thorough: mc.Bounds{Cost: 2, Policies: []int{0, 1, 2}, Weight: 2},
	})
	mc.Add(mc.Scenario{
		Prop: "C06", Name: "c06-floods", Doc: "peers that open many connections and stall, and one that floods with messages, do not keep a node from serving others",
		Run: func() {
			var a, b *noise.Node
			st := []int{stNothing, stHalfHello, stSession, stEstablished, stRead}[vsched.Pick(5)]
			vsched.QuietOn()
			b, _, _ = overlay(procB, qa)
			a = node(procA, nil)
			connect(procA, a, b.Addr())
			in(procC, func() {
				for i := 0; i < 60; i++ {
					p, err := rawDial(b.Addr())
					must(err)
					p.upTo(min(st, stEstablished), byte(i), rawID(procC, uint16(i)), key(procC))
					if st == stRead {
						for j := 0; j < 10; j++ {
							p.send(uint64(j), typed(j%6, make([]byte, 32)))
						}
					}
				}
			})
			vsched.Quiesce()
			fine(a, b, stageNames[st])
		},
		Quick: mc.Bounds{Cost: 0, Policies: []int{0, 1}}, Thorough: mc.Bounds{Cost: 0, Policies: []int{0, 1, 2}}, MaxSteps: 200000, Native: 2,
	})
}

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}

var _ = context.Background
