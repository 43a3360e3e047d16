package main

import (
	"bytes"
	"context"
	"fmt"

	"github.com/perlin-network/noise"
	"verif.local/rt/mc"
	"verif.local/rt/vnet"
	"verif.local/rt/vsched"
)

// fill makes n bytes that tell message i apart and reveal any shift or mix-up.
func fill(i, n int) []byte {
	b := make([]byte, n)
	for j := range b {
		b[j] = byte(i*37 + j*7 + j>>8)
	}
	return b
}

// inbox keeps what a handler is given: the slices themselves, as a handler may.
type inbox struct {
	got []noise.HandlerContext
	raw [][]byte
	cp  [][]byte
}

func (b *inbox) handle(ctx noise.HandlerContext) error {
	defer guard()()
	vsched.Mark()
	d := ctx.Data() // library code may be interrupted: nothing of b is changed in between
	b.got = append(b.got, ctx)
	b.raw = append(b.raw, d)
	b.cp = append(b.cp, append([]byte{}, d...))
	return nil
}

// unaltered checks that what was handed over has not changed since.
func (b *inbox) unaltered() {
	defer guard()()
	for i := range b.raw {
		if !bytes.Equal(b.raw[i], b.cp[i]) || !bytes.Equal(b.got[i].Data(), b.cp[i]) {
			vsched.Fail("message %d changed after it was handed to the handler", i)
		}
	}
}

// order checks that the inbox consists of interleaved prefixes (all of each, if complete) of the given sequences.
func (b *inbox) order(complete bool, seqs ...[]string) {
	b.unaltered()
	next := make([]int, len(seqs))
outer:
	for _, m := range b.cp {
		for i := range seqs {
			if next[i] < len(seqs[i]) && seqs[i][next[i]] == string(m) {
				next[i]++
				continue outer
			}
		}
		for i := range seqs {
			for j, s := range seqs[i] {
				if s == string(m) {
					vsched.Fail("message %q (%d of its sender) handled out of order or twice, after %d of its sender", short(m), j, next[i])
				}
			}
		}
		vsched.Fail("handled a message nobody sent: %q", short(m))
	}
	if complete {
		for i := range seqs {
			if next[i] != len(seqs[i]) {
				vsched.Fail("%d of %d messages of sender %d were delivered", next[i], len(seqs[i]), i)
			}
		}
	}
}

func short(b []byte) string {
	if len(b) > 24 {
		return fmt.Sprintf("%s...(%d bytes)", b[:24], len(b))
	}
	return string(b)
}

func sendAll(g int, n *noise.Node, to string, msgs []string) chan struct{} {
	return spawn(g, func() {
		for _, m := range msgs {
			if err := n.Send(bg(), to, []byte(m)); err != nil {
				vsched.Fail("Send failed: %v", err)
			}
		}
	})
}

var c03sizes = []int{0, 1, 7, 8, 15, 16, 17, 127, 128, 129, 255, 256, 511, 512, 983, 984, 987, 988, 1000, 1011, 1012, 1013, 1014, 1015, 1016, 1017, 1023, 1024, 1025,
	2047, 2048, 4055, 4056, 4057, 4058, 4059, 4060, 4061, 4062, 4063, 4064, 4065, 4088, 4092, 4095, 4096, 4097, 8191, 8192, 65499, 65500, 65535, 65536, 65537, 70000}

func init() {
	mc.Add(mc.Scenario{
		Prop: "C03", Name: "c03-reused-buffers", Doc: "callers and handlers change what they sent as soon as the call returns, also the data of a request whose context ends at once; handlers keep what they received while more arrives, or change it: everything arrives, and stays, as it was sent",
		Run: func() {
			scribble := func(d []byte) {
				for i := range d {
					d[i] = '!'
				}
			}
			mode := vsched.Pick(3)
			var a, b *noise.Node
			var kept [][]byte
			h := func(ctx noise.HandlerContext) error {
				u := guard()
				d := ctx.Data()
				kept = append(kept, d)
				u()
				if ctx.IsRequest() {
					r := append([]byte("re:"), ctx.Data()...)
					if err := ctx.Send(r); err != nil {
						return err
					}
					scribble(r)
				}
				return nil
			}
			vsched.Quiet(func() {
				a, b = node(procA, nil), node(procB, h)
				connect(procA, a, b.Addr())
			})
			buf := make([]byte, 8)
			join(spawn(procA, func() {
				for i := 0; i < 3; i++ {
					copy(buf, fmt.Sprintf("message%d", i))
					switch {
					case mode == 0 || i != 1:
						must(a.Send(bg(), b.Addr(), buf))
					case mode == 1:
						r, err := a.Request(bg(), b.Addr(), buf)
						if err != nil || string(r) != "re:message1" {
							vsched.Fail("response %q %v", r, err)
						}
						scribble(r)
					case mode == 2:
						ctx, cancel := context.WithCancel(bg())
						cancel()
						a.Request(ctx, b.Addr(), buf) //nolint
					}
					scribble(buf)
				}
			}))
			vsched.Quiesce()
			defer guard()()
			var got []string
			for _, k := range kept {
				got = append(got, string(k))
				scribble(k)
			}
			all := "[message0 message1 message2]"
			if g := fmt.Sprint(got); g != all && (mode != 2 || g != "[message0 message2]") {
				vsched.Fail("what arrived is %q", got)
			}
		},
		Quick: mc.Bounds{Cost: 2, Policies: []int{0, 1}}, Thorough: mc.Bounds{Cost: 3, Policies: []int{0, 1, 2}}, Native: 5,
	})
	mc.Add(mc.Scenario{
		Prop: "C03", Name: "c03-two-senders", Doc: "two threads send two messages each over one connection to a node with one worker, through wide and narrow connections",
		Run: func() {
			var box inbox
			var a, b *noise.Node
			width := []int{1 << 20, 40, 7}[vsched.Pick(3)]
			vsched.Quiet(func() {
				b = node(procB, box.handle)
				a = node(procA, nil)
				connect(procA, a, b.Addr())
				vnet.Narrow(width)
			})
			s1, s2 := []string{"first of one", "second of one"}, []string{"1/two", string(fill(3, 100))}
			join(sendAll(procA, a, b.Addr(), s1), sendAll(procA, a, b.Addr(), s2))
			vsched.Quiesce()
			box.order(true, s1, s2)
		},
		Quick: mc.Bounds{Cost: 2, Policies: []int{0, 1, 2}}, Thorough: mc.Bounds{Cost: 3, Policies: []int{0, 1, 2}}, Native: 1,
	})
	mc.Add(mc.Scenario{
		Prop: "C03", Name: "c03-dialling-senders", Doc: "two threads send over a connection that is only being dialled, while the other node sends back over its own",
		Run: func() {
			var box, back inbox
			var a, b *noise.Node
			vsched.Quiet(func() {
				b = node(procB, box.handle)
				a = node(procA, back.handle)
			})
			s1, s2, s3 := []string{"a", "b"}, []string{"c"}, []string{"x", "y"}
			join(sendAll(procA, a, b.Addr(), s1), sendAll(procA, a, b.Addr(), s2), sendAll(procB, b, a.Addr(), s3))
			vsched.Quiesce()
			box.order(true, s1, s2)
			back.order(true, s3)
		},
		Quick: mc.Bounds{Cost: 1, Policies: []int{0, 1, 2}}, Thorough: mc.Bounds{Cost: 2, Policies: []int{0, 1, 2}}, Native: 2,
	})
	mc.Add(mc.Scenario{
		Prop: "C03", Name: "c03-fragments", Doc: "reads return as few bytes as they like",
		Run: func() {
			var box inbox
			var a, b *noise.Node
			vsched.Quiet(func() {
				b = node(procB, box.handle)
				a = node(procA, nil)
			})
			s := []string{"one", string(fill(1, 60)), "", "four"}
			join(sendAll(procA, a, b.Addr(), s))
			vsched.Quiesce()
			box.order(true, s)
		},
		Quick: mc.Bounds{Cost: 2, Policies: []int{0, 1}}, Thorough: mc.Bounds{Cost: 3, Policies: []int{0, 1, 2}}, ShortReads: 4, Native: 1,
	})
	mc.Add(mc.Scenario{
		Prop: "C03", Name: "c03-split-anywhere", Doc: "three frames arrive in two or three pieces, cut at every position",
		Run: func() {
			var box inbox
			var a *noise.Node
			vsched.Quiet(func() { a = node(procA, box.handle) })
			p, err := rawDial(a.Addr())
			must(err)
			must(p.shake(1, rawID(procB, 1), key(procB)))
			var stream []byte
			msgs := []string{"one", "", "number three"}
			for _, m := range msgs {
				stream = append(stream, frame(p.seal(append(make([]byte, 8), m...)))...)
			}
			cut := vsched.Pick(len(stream) + 1)
			must(p.writeRaw(stream[:cut]))
			if vsched.Pick(2) == 0 {
				vsched.Quiesce()
			}
			rest := stream[cut:]
			if len(rest) > 5 && vsched.Pick(2) == 1 {
				must(p.writeRaw(rest[:5]))
				vsched.Quiesce()
				rest = rest[5:]
			}
			must(p.writeRaw(rest))
			vsched.Quiesce()
			box.order(true, msgs)
		},
		Quick: mc.Bounds{Cost: 1, Policies: []int{0, 1}}, Thorough: mc.Bounds{Cost: 2, Policies: []int{0, 1, 2}}, Native: 3,
	})
	mc.Add(mc.Scenario{
		Prop: "C03", Name: "c03-size-pairs", Doc: "messages of all ordered pairs of sizes around powers of two and buffer sizes, written in one batch or one by one",
		Run: func() {
			var box inbox
			var a, b *noise.Node
			i, j := vsched.Pick(len(c03sizes)), vsched.Pick(len(c03sizes))
			batch := vsched.Pick(2)
			vsched.QuietOn()
			b = node(procB, box.handle, noise.WithNodeMaxRecvMessageSize(1<<17))
			a = node(procA, nil, noise.WithNodeMaxRecvMessageSize(1<<17))
			connect(procA, a, b.Addr())
			s := []string{string(fill(1, c03sizes[i])), string(fill(2, c03sizes[j])), "end"}
			for k := range s {
				must(a.Send(bg(), b.Addr(), []byte(s[k])))
				if batch == 0 {
					vsched.Quiesce()
				}
			}
			vsched.Quiesce()
			box.order(true, s)
		},
		Quick: mc.Bounds{Cost: 0}, Thorough: mc.Bounds{Cost: 0, Policies: []int{0, 1, 2}}, Native: 3,
	})
	mc.Add(mc.Scenario{
		Prop: "C03", Name: "c03-every-size", Doc: "one message of each size from 0 to 4200, and requests of the same sizes with responses of the same size, over one connection",
		Run: func() {
			var box inbox
			var a, b *noise.Node
			vsched.QuietOn()
			b = node(procB, func(ctx noise.HandlerContext) error {
				if ctx.IsRequest() {
					return ctx.Send(ctx.Data())
				}
				return box.handle(ctx)
			}, noise.WithNodeMaxRecvMessageSize(1<<16))
			a = node(procA, nil, noise.WithNodeMaxRecvMessageSize(1<<16))
			connect(procA, a, b.Addr())
			from := 350 * vsched.Pick(12)
			for n := from; n < from+350; n++ {
				m := fill(n, n)
				must(a.Send(bg(), b.Addr(), m))
				got, err := a.Request(bg(), b.Addr(), m)
				must(err)
				if !bytes.Equal(got, m) {
					vsched.Fail("a response of %d bytes arrived altered (%d bytes)", n, len(got))
				}
			}
			vsched.Quiesce()
			box.unaltered()
			for i := range box.cp {
				if !bytes.Equal(box.cp[i], fill(from+i, from+i)) {
					vsched.Fail("message of %d bytes arrived altered (%d bytes)", from+i, len(box.cp[i]))
				}
			}
			if len(box.cp) != 350 {
				vsched.Fail("%d of 350 messages arrived", len(box.cp))
			}
		},
		Quick: mc.Bounds{Cost: 0, Policies: []int{0, 2}}, Thorough: mc.Bounds{Cost: 0, Policies: []int{0, 1, 2}}, MaxSteps: 1000000, Native: 2,
	})
	mc.Add(mc.Scenario{
		Prop: "C03", Name: "c03-bulk", Doc: "three threads send 1500 messages of many sizes at full speed, the handler answers some of them",
		Run: func() {
			var box, back inbox
			var a, b *noise.Node
			vsched.QuietOn()
			b = node(procB, func(ctx noise.HandlerContext) error {
				if len(ctx.Data())%3 == 1 {
					ctx.Send(ctx.Data())
				}
				return box.handle(ctx)
			})
			a = node(procA, back.handle)
			vnet.SetBuffer(5000)
			connect(procA, a, b.Addr())
			var seqs [][]string
			var echoed [][]string
			var ds []chan struct{}
			for t := 0; t < 3; t++ {
				var s, e []string
				for i := 0; i < 500; i++ {
					m := fmt.Sprintf("%d:%d:%s", t, i, fill(i, i*13%2500))
					s = append(s, m)
					if len(m)%3 == 1 {
						e = append(e, m)
					}
				}
				seqs, echoed = append(seqs, s), append(echoed, e)
				ds = append(ds, sendAll(procA, a, b.Addr(), s))
			}
			join(ds...)
			vsched.Quiesce()
			if vsched.Native {
				vsched.Settle()
			}
			box.order(true, seqs...)
			back.order(true, echoed...)
		},
		Quick: mc.Bounds{Cost: 0, Policies: []int{0, 1, 2}}, Thorough: mc.Bounds{Cost: 0, Policies: []int{0, 1, 2}}, MaxSteps: 1000000, Native: 2,
	})
	mc.Add(mc.Scenario{
		Prop: "C03", Name: "c03-mixed", Doc: "one thread sends plain messages and requests in turn, another one requests, over one connection",
		Run: func() {
			var box inbox
			var a, b *noise.Node
			vsched.Quiet(func() {
				b = node(procB, func(ctx noise.HandlerContext) error {
					if err := box.handle(ctx); err != nil || !ctx.IsRequest() {
						return err
					}
					return ctx.Send(nil)
				})
				a = node(procA, nil)
				connect(procA, a, b.Addr())
			})
			d1 := spawn(procA, func() {
				must(a.Send(bg(), b.Addr(), []byte("one")))
				_, err := a.Request(bg(), b.Addr(), []byte("two"))
				must(err)
				must(a.Send(bg(), b.Addr(), []byte("three")))
			})
			d2 := spawn(procA, func() {
				_, err := a.Request(bg(), b.Addr(), []byte("1"))
				must(err)
			})
			join(d1, d2)
			vsched.Quiesce()
			box.order(true, []string{"one", "two", "three"}, []string{"1"})
		},
		Quick: mc.Bounds{Cost: 2, Policies: []int{0, 1, 2}}, Thorough: mc.Bounds{Cost: 3, Policies: []int{0, 1, 2}}, Native: 1,
	})
	mc.Add(mc.Scenario{
		Prop: "C03", Name: "c03-torn-down", Doc: "the connection is closed by either side, evicted or cut while messages are being sent: a prefix of them arrives",
		Run: func() {
			var box inbox
			var a, b *noise.Node
			how := vsched.Pick(5)
			width := []int{1 << 20, 30}[vsched.Pick(2)]
			vsched.Quiet(func() {
				b = node(procB, box.handle)
				a = node(procA, nil)
				connect(procA, a, b.Addr())
				vnet.Narrow(width)
			})
			var sent []string
			d := spawn(procA, func() {
				for i := 0; i < 4; i++ {
					m := fmt.Sprintf("message %d", i)
					vsched.Mark()
					sent = append(sent, m)
					if a.Send(bg(), b.Addr(), []byte(m)) != nil {
						return
					}
				}
			})
			d2 := spawn(procA, func() {
				switch how {
				case 0:
					a.Close()
				case 1:
					closeClients(procA, a)
				case 2:
					b.Close()
				case 3:
					closeClients(procB, b)
				case 4:
					for _, c := range vnet.Conns() {
						c.Close()
					}
				}
			})
			join(d, d2)
			vsched.Quiesce()
			box.unaltered()
			seen := map[string]bool{}
			for _, m := range box.cp {
				if seen[string(m)] {
					vsched.Fail("%q was delivered twice", m)
				}
				seen[string(m)] = true
				i := -1
				for j := range sent {
					if sent[j] == string(m) {
						i = j
					}
				}
				if i < 0 {
					vsched.Fail("handled a message nobody sent: %q", short(m))
				}
			}
			vsched.Fact(fmt.Sprintf("%d delivered", len(box.cp)))
		},
		Quick: mc.Bounds{Cost: 2, Policies: []int{0, 1}}, Thorough: mc.Bounds{Cost: 3, Policies: []int{0, 1, 2}}, Native: 0,
	})
	mc.Add(mc.Scenario{
		Prop: "C03", Name: "c03-many-workers", Doc: "a node with three workers handles each message once, unchanged",
		Run: func() {
			var box inbox
			var a, b *noise.Node
			vsched.Quiet(func() {
				b = node(procB, box.handle, noise.WithNodeNumWorkers(3))
				a = node(procA, nil)
				connect(procA, a, b.Addr())
			})
			s := []string{"0", "1", "2", "3"}
			join(sendAll(procA, a, b.Addr(), s))
			vsched.Quiesce()
			box.unaltered()
			n := map[string]int{}
			for _, m := range box.cp {
				n[string(m)]++
			}
			for _, m := range s {
				if n[m] != 1 {
					vsched.Fail("message %s was delivered %d times", m, n[m])
				}
			}
			if len(box.cp) != len(s) {
				vsched.Fail("%d messages were delivered", len(box.cp))
			}
		},
		Quick: mc.Bounds{Cost: 2, Policies: []int{0, 1, 2}}, Thorough: mc.Bounds{Cost: 3, Policies: []int{0, 1, 2}}, Native: 1,
	})
	mc.Add(mc.Scenario{
		Prop: "C03", Name: "c03-slow-handler", Doc: "more messages than workers and queue hold arrive while the handler blocks, over two connections",
		Run: func() {
			var box inbox
			var a, b, c *noise.Node
			gate := make(chan struct{})
			vsched.Quiet(func() {
				b = node(procB, func(ctx noise.HandlerContext) error {
					<-gate
					return box.handle(ctx)
				})
				a = node(procA, nil)
				c = node(procC, nil)
				connect(procA, a, b.Addr())
				connect(procC, c, b.Addr())
			})
			s1, s2 := []string{"a0", "a1", "a2"}, []string{"c0", "c1", "c2"}
			join(sendAll(procA, a, b.Addr(), s1), sendAll(procC, c, b.Addr(), s2))
			if vsched.Pick(2) == 0 {
				vsched.Quiesce()
			}
			close(gate)
			vsched.Quiesce()
			box.order(true, s1, s2)
		},
		Quick: mc.Bounds{Cost: 2, Policies: []int{0, 1}}, Thorough: mc.Bounds{Cost: 3, Policies: []int{0, 1, 2}}, Native: 2,
	})
}
