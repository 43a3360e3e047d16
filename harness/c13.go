package main

import (
	"fmt"
	"time"

	"github.com/perlin-network/noise"
	"github.com/perlin-network/noise/kademlia"
	"verif.local/rt/mc"
	"verif.local/rt/vsched"
)

// replies counts how the attempts to reply to something went.
type replies struct {
	ok, failed int
	oks        []string
}

func (r *replies) note(err error, text string) {
	defer guard()()
	vsched.Mark()
	if err == nil {
		r.ok++
		r.oks = append(r.oks, text)
	} else {
		r.failed++
	}
}

// rest reads what else arrives at p until nothing does any more.
func (p *rawPeer) rest() (nonces []uint64, texts []string) {
	p.conn.SetReadDeadline(time.Now().Add(time.Second))
	for {
		n, data, err := p.recv()
		if err != nil {
			return
		}
		nonces = append(nonces, n)
		texts = append(texts, string(data))
	}
}

// one checks that a request got exactly the reply that was reported to have been sent.
func (r *replies) one(p *rawPeer, nonce uint64, attempts int) {
	ns, ts := p.rest()
	defer guard()()
	if r.ok+r.failed != attempts {
		vsched.Fail("%d attempts were made instead of %d", r.ok+r.failed, attempts)
	}
	want := 1
	if attempts == 0 {
		want = 0
	}
	if r.ok != want {
		vsched.Fail("%d of %d attempts to reply to a request succeeded", r.ok, attempts)
	}
	if len(ns) != want {
		vsched.Fail("a request got %d responses: %q", len(ns), ts)
	}
	if want == 1 && (ns[0] != nonce || ts[0] != r.oks[0]) {
		vsched.Fail("the response that was sent is %d %q, not %d %q", ns[0], ts[0], nonce, r.oks[0])
	}
}

// all checks that a plain message got all the replies.
func (r *replies) all(p *rawPeer, attempts int) {
	ns, ts := p.rest()
	defer guard()()
	if r.ok != attempts || r.failed != 0 {
		vsched.Fail("%d of %d replies to a plain message succeeded", r.ok, attempts)
	}
	if len(ns) != attempts {
		vsched.Fail("%d of %d replies to a plain message were sent: %q", len(ns), attempts, ts)
	}
	for i, n := range ns {
		if n != 0 {
			vsched.Fail("a reply to a plain message is sent as a response to request %d", n)
		}
		k := 0
		for _, s := range r.oks {
			if s == ts[i] {
				k++
			}
		}
		if k != 1 {
			vsched.Fail("reply %q was never made", ts[i])
		}
	}
}

func init() {
	mc.Add(mc.Scenario{
		Prop: "C13", Name: "c13-race", Doc: "up to four goroutines of one handler, or of two handlers, reply to one request or message at once",
		Run: func() {
			handlers := 1 + vsched.Pick(2)
			per := 1 + vsched.Pick(2)
			nonce := uint64(vsched.Pick(2)) * 5
			inline := vsched.Pick(2) == 1
			if inline && per == 2 {
				vsched.Discard("same")
			}
			var r replies
			var b *noise.Node
			var p *rawPeer
			left := handlers * per
			if inline {
				left += handlers
			}
			total := left
			done := make(chan struct{}, total)
			vsched.Quiet(func() {
				b = newNode(procB)
				for h := 0; h < handlers; h++ {
					h := h
					b.Handle(func(ctx noise.HandlerContext) error {
						for i := 0; i < per; i++ {
							t := fmt.Sprintf("%d.%d", h, i)
							go func() {
								r.note(ctx.Send([]byte(t)), t)
								done <- struct{}{}
							}()
						}
						if inline {
							t := fmt.Sprintf("%d", h)
							r.note(ctx.Send([]byte(t)), t)
							done <- struct{}{}
						}
						return nil
					})
				}
				listen(procB, b)
				p = dialShake(b.Addr(), 1, procC, 7)
				vsched.Quiesce()
			})
			p.send(nonce, []byte("question"))
			for i := 0; i < total; i++ {
				<-done
			}
			vsched.QuietOn()
			if nonce > 0 {
				r.one(p, nonce, total)
			} else {
				r.all(p, total)
			}
			vsched.QuietOff()
		},
		Quick: mc.Bounds{Cost: 2}, Thorough: mc.Bounds{Cost: 3, Policies: []int{0, 1}}, Native: 8,
	})
	mc.Add(mc.Scenario{
		Prop: "C13", Name: "c13-chain", Doc: "all combinations of what three handlers do with a request or message: nothing, send, send twice, send typed, send something unregistered, send through a copy of the context, decode and send",
		Run: func() {
			defer vsched.QuietOff()
			vsched.QuietOn()
			var acts [3]int
			for i := range acts {
				acts[i] = vsched.Pick(7)
			}
			nonce := []uint64{0, 1, 1<<64 - 1}[vsched.Pick(3)]
			var r replies
			attempts, bad := 0, 0
			b := newNode(procB)
			b.RegisterMessage(note{}, unmarshalNote)
			for h, act := range acts {
				h, act := h, act
				switch act {
				case 1, 3, 5, 6:
					attempts++
				case 2:
					attempts += 2
				case 4:
					bad++
				}
				b.Handle(func(ctx noise.HandlerContext) error {
					t := fmt.Sprint("h", h)
					if ctx.IsRequest() != (nonce > 0) {
						vsched.Fail("handler %d takes a request for a message, or a message for a request", h)
					}
					switch act {
					case 1:
						r.note(ctx.Send([]byte(t)), t)
					case 2:
						r.note(ctx.Send([]byte(t)), t)
						t += "'"
						r.note(ctx.Send([]byte(t)), t)
					case 3:
						r.note(ctx.SendMessage(note{t}), "\x00\x00"+t)
					case 4:
						if ctx.SendMessage(kademlia.Ping{}) == nil {
							vsched.Fail("a message of an unregistered type is sent")
						}
					case 5:
						c := ctx
						r.note(c.Send([]byte(t)), t)
					case 6:
						if m, err := ctx.DecodeMessage(); err != nil || m.(note).text != "q" {
							vsched.Fail("decoded %v %v", m, err)
						}
						r.note(ctx.Send([]byte(t)), t)
					}
					return nil
				})
			}
			listen(procB, b)
			p := dialShake(b.Addr(), 1, procC, 7)
			p.send(nonce, []byte("\x00\x00q"))
			if nonce > 0 {
				r.one(p, nonce, attempts)
			} else {
				r.all(p, attempts)
			}
		},
		Quick: mc.Bounds{Cost: 0}, Thorough: mc.Bounds{Cost: 0, Policies: []int{0, 1, 2}}, Native: 6,
	})
	mc.Add(mc.Scenario{
		Prop: "C13", Name: "c13-kept", Doc: "contexts of three requests and messages, in any mix, are kept and replied to twice each after their handlers returned, in every order, also from two connections and when two requests carry the same number",
		Run: func() {
			var nonces [3]uint64
			for i := range nonces {
				nonces[i] = uint64(vsched.Pick(3))
			}
			two := vsched.Pick(2) == 1
			var b *noise.Node
			var p, q *rawPeer
			var kept []noise.HandlerContext
			conc := vsched.Pick(2) == 1
			vsched.QuietOn()
			b = newNode(procB)
			b.Handle(func(ctx noise.HandlerContext) error {
				defer guard()()
				kept = append(kept, ctx)
				return nil
			})
			listen(procB, b)
			p = dialShake(b.Addr(), 1, procC, 7)
			q = p
			if two {
				q = dialShake(b.Addr(), 2, procD, 7)
			}
			for i, n := range nonces {
				to := p
				if i == 2 {
					to = q
				}
				to.send(n, []byte(fmt.Sprint(i)))
				vsched.Quiesce()
			}
			if !conc {
				// every order of the six replies
				left := [3]int{2, 2, 2}
				for k := 0; k < 6; k++ {
					var from []int
					for i, n := range left {
						if n > 0 {
							from = append(from, i)
						}
					}
					i := from[vsched.Pick(len(from))]
					left[i]--
					err := kept[i].Send([]byte(fmt.Sprint("reply ", i)))
					if (err == nil) != (nonces[i] == 0 || left[i] == 1) {
						vsched.Fail("attempt %d to reply to request %d: %v", 2-left[i], nonces[i], err)
					}
				}
			} else {
				vsched.QuietOff()
				var oks [3]int
				var ts []chan struct{}
				for i := 0; i < 3; i++ {
					for k := 0; k < 2; k++ {
						i := i
						ts = append(ts, spawn(procB, func() {
							if kept[i].Send([]byte(fmt.Sprint("reply ", i))) == nil {
								u := guard()
								oks[i]++
								u()
							}
						}))
					}
				}
				join(ts...)
				for i, n := range oks {
					if want := 1 + b2i(nonces[i] == 0); n != want {
						vsched.Fail("%d of 2 attempts to reply to %d succeeded", n, nonces[i])
					}
				}
				vsched.QuietOn()
			}
			count := map[string]int{}
			take := func(p *rawPeer, who string) {
				ns, ts := p.rest()
				for i := range ns {
					count[fmt.Sprint(who, ns[i], ts[i])]++
				}
			}
			take(p, "p")
			if two {
				take(q, "q")
			}
			total := 0
			for i, n := range nonces {
				who := "p"
				if two && i == 2 {
					who = "q"
				}
				want := 1 + b2i(n == 0)
				if c := count[fmt.Sprint(who, n, fmt.Sprint("reply ", i))]; c != want {
					vsched.Fail("%d replies to message %d under number %d were sent instead of %d: %v", c, i, n, want, count)
				}
				total += want
			}
			for _, c := range count {
				total -= c
			}
			if total != 0 {
				vsched.Fail("replies were sent that nobody made: %v", count)
			}
			vsched.QuietOff()
		},
		Quick: mc.Bounds{Cost: 1}, Thorough: mc.Bounds{Cost: 2, Policies: []int{0, 1}}, Native: 6,
	})
	mc.Add(mc.Scenario{
		Prop: "C13", Name: "c13-requester", Doc: "a node's requests are answered by several handlers at once, among them the overlay's: each request returns one response and no other arrives as a message or for the next request",
		Run: func() {
			kad := vsched.Pick(2) == 1
			reqs := 1 + vsched.Pick(2)
			var a, b *noise.Node
			var r replies
			var w watch
			body := func(i int) []byte { return typed(opPing, nil) }
			vsched.Quiet(func() {
				a = watched(procA, &w)
				b = newNode(procB, noise.WithNodeNumWorkers(uint(reqs)))
				if kad {
					b.Bind(kademlia.New().Protocol())
				}
				for h := 0; h < 2; h++ {
					t := fmt.Sprint("answer ", h)
					b.Handle(func(ctx noise.HandlerContext) error {
						go func() { r.note(ctx.Send([]byte(t)), t) }()
						return nil
					})
				}
				listen(procB, b)
				connect(procA, a, b.Addr())
				vsched.Quiesce()
			})
			var ts []chan struct{}
			for i := 0; i < reqs; i++ {
				i := i
				ts = append(ts, spawn(procA, func() {
					got, err := a.Request(bg(), b.Addr(), body(i))
					if err != nil {
						if !kad { // the overlay's handler, if it comes second, ends the connection
							vsched.Fail("request: %v", err)
						}
						return
					}
					if s := string(got); s != "answer 0" && s != "answer 1" && !(kad && s == "\x00\x01") {
						vsched.Fail("response %q", s)
					}
				}))
			}
			join(ts...)
			vsched.Settle()
			w.silentMessages("after all requests were answered")
			if got := w.recv; got > reqs || !kad && got != reqs {
				vsched.Fail("%d messages arrived for %d requests", got, reqs)
			}
			if r.ok > reqs || !kad && (r.ok != reqs || r.ok+r.failed != 2*reqs) {
				vsched.Fail("%d replies succeeded, %d failed", r.ok, r.failed)
			}
		},
		Quick: mc.Bounds{Cost: 1}, Thorough: mc.Bounds{Cost: 2, Policies: []int{0, 1}}, Native: 6,
	})
	mc.Add(mc.Scenario{
		Prop: "C13", Name: "c13-dropped", Doc: "replying to a request while, or after, its connection is dropped: at most one attempt succeeds",
		Run: func() {
			nonce := uint64(vsched.Pick(2))
			how := vsched.Pick(3)
			var b *noise.Node
			var p *rawPeer
			var w watch
			var ctx noise.HandlerContext
			vsched.Quiet(func() {
				b = newNode(procB)
				b.Bind(w.protocol())
				b.Handle(func(c noise.HandlerContext) error { ctx = c; return nil })
				listen(procB, b)
				p = dialShake(b.Addr(), 1, procC, 7)
				p.send(nonce, []byte("q"))
				vsched.Quiesce()
			})
			var r replies
			t := spawn(procB, func() { r.note(ctx.Send([]byte("1")), "1") })
			u := spawn(procB, func() { r.note(ctx.Send([]byte("2")), "2") })
			switch how {
			case 0:
				p.conn.Close()
			case 1:
				in(procB, w.connected[0].Close)
			case 2:
				p.writeFrame(nil)
			}
			join(t, u)
			vsched.Settle()
			if nonce > 0 && r.ok > 1 {
				vsched.Fail("%d replies to one request succeeded", r.ok)
			}
			if ctx.Send([]byte("3")) == nil {
				vsched.Fail("a reply over a closed connection succeeds")
			}
		},
		Quick: mc.Bounds{Cost: 2}, Thorough: mc.Bounds{Cost: 3, Policies: []int{0, 1}}, Native: 6,
	})
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

// silentMessages checks that no message reached the handlers.
func (w *watch) silentMessages(why string) {
	defer guard()()
	if len(w.handled) != 0 {
		vsched.Fail("%s: messages were handled: %q", why, w.handled)
	}
}
