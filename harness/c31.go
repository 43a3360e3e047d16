package main

import (
	"errors"
	"fmt"
	"strings"
	"syscall"
	"time"

	"github.com/perlin-network/noise"
	"verif.local/rt/mc"
	"verif.local/rt/vnet"
	"verif.local/rt/vsched"
)

// serving has node b be asked by a new node, by the connected node a, and ask that one itself.
func serving(a, b *noise.Node, what string) {
	d := node(procD, echo)
	for _, by := range []struct {
		g    int
		n    *noise.Node
		addr string
		who  string
	}{{procD, d, b.Addr(), "a new peer asking"}, {procA, a, b.Addr(), "a peer asking"}, {procB, b, a.Addr(), "asking a peer"}, {procB, b, d.Addr(), "asking a new peer"}} {
		by := by
		join(spawn(by.g, func() {
			got, err := by.n.Request(timeout(time.Hour), by.addr, []byte("hi"))
			if err != nil || string(got) != "re:hi" {
				vsched.Fail("%s: %s: %q %v", what, by.who, got, err)
			}
		}))
	}
	shut(procD, d)
}

// What can befall a node; each leaves it to serve others as before.
var befalls = []struct {
	name string
	do   func(a, b *noise.Node, seed byte)
}{
	{"accepting failed for want of descriptors", func(a, b *noise.Node, seed byte) {
		vnet.FailAccepts(int(b.ID().Port), 2, syscall.EMFILE)
		p, err := rawDial(b.Addr())
		must(err)
		p.shake(seed, rawID(procC, 700), key(procC)) //nolint
		p.conn.Close()
	}},
	{"accepting failed for a network error", func(a, b *noise.Node, seed byte) {
		vnet.FailAccepts(int(b.ID().Port), 1, syscall.EPROTO)
		p, err := rawDial(b.Addr())
		must(err)
		p.conn.Close()
	}},
	{"a remote connected and left", func(a, b *noise.Node, seed byte) {
		p, err := rawDial(b.Addr())
		must(err)
		p.shake(seed, rawID(procC, 700), key(procC)) //nolint
		p.conn.Close()
	}},
	{"a remote left in the handshake", func(a, b *noise.Node, seed byte) {
		p, err := rawDial(b.Addr())
		must(err)
		p.hello(seed) //nolint
		p.conn.Close()
	}},
	{"a remote stalls in the handshake", func(a, b *noise.Node, seed byte) {
		p, err := rawDial(b.Addr())
		must(err)
		p.hello(seed) //nolint
	}},
	{"a remote sent garbage", func(a, b *noise.Node, seed byte) {
		p, err := rawDial(b.Addr())
		must(err)
		p.shake(seed, rawID(procC, 700), key(procC)) //nolint
		p.writeRaw([]byte(strings.Repeat("\xff", 40)))
	}},
	{"a handler failed", func(a, b *noise.Node, seed byte) {
		p, err := rawDial(b.Addr())
		must(err)
		p.shake(seed, rawID(procC, 700), key(procC)) //nolint
		p.send(0, []byte("bad"))                     //nolint
		p.drain()                                    //nolint
	}},
	{"a connection was evicted", func(a, b *noise.Node, seed byte) {
		for i := byte(0); i < 3; i++ {
			p, err := rawDial(b.Addr())
			must(err)
			p.shake(seed+30*i, rawID(procC, 700+uint16(i)), key(procC)) //nolint
		}
	}},
	{"a dial was refused", func(a, b *noise.Node, seed byte) {
		join(spawn(procB, func() { b.Send(timeout(time.Hour), "127.0.0.1:1", []byte("x")) })) //nolint
	}},
	{"its connections were closed", func(a, b *noise.Node, seed byte) {
		closeClients(procB, b)
	}},
}

func flawed(ctx noise.HandlerContext) error {
	if string(ctx.Data()) == "bad" {
		return errors.New("bad")
	}
	return echo(ctx)
}

func init() {
	history := func(name string, k int, thorough bool, q, t mc.Bounds) {
		mc.Add(mc.Scenario{
			Prop: "C31", Name: name, Doc: fmt.Sprintf("all sequences of %d out of %d things that may befall a node with one worker and room for three connections each way: it serves as before", k, len(befalls)),
			Run: func() {
				var did []string
				var picks []int
				for i := 0; i < k; i++ {
					picks = append(picks, vsched.Pick(len(befalls)))
				}
				vsched.QuietOn()
				b := node(procB, flawed, noise.WithNodeNumWorkers(1), noise.WithNodeMaxInboundConnections(3), noise.WithNodeMaxOutboundConnections(3), noise.WithNodeMaxDialAttempts(1))
				a := node(procA, echo)
				connect(procA, a, b.Addr())
				vsched.Quiesce()
				if k == 1 {
					vsched.QuietOff()
				}
				for i, w := range picks {
					w, i := w, i
					join(spawn(procC, func() { befalls[w].do(a, b, byte(i+1)) }))
					vsched.Settle()
					did = append(did, befalls[w].name)
				}
				serving(a, b, "after "+strings.Join(did, " and "))
				vsched.QuietOff()
				shut(procB, b)
				released(procB, 0, 0, "after Close")
			},
			Quick: q, Thorough: t, NoStmts: k > 1, ThoroughOnly: thorough, Native: 4,
		})
	}
	history("c31-once", 1, false, mc.Bounds{Cost: 1}, mc.Bounds{Cost: 2, Policies: []int{0, 1}, Weight: 2})
	history("c31-history", 3, false, mc.Bounds{Cost: 0}, mc.Bounds{Cost: 0, Policies: []int{0, 1, 2}})
	history("c31-history-4", 4, true, mc.Bounds{Cost: 0}, mc.Bounds{Cost: 0})

	mc.Add(mc.Scenario{
		Prop: "C31", Name: "c31-again-and-again", Doc: "each of them befalls such a node 300 times",
		Run: func() {
			w := vsched.Pick(len(befalls))
			vsched.QuietOn()
			b := node(procB, flawed, noise.WithNodeNumWorkers(1), noise.WithNodeMaxInboundConnections(3), noise.WithNodeMaxOutboundConnections(3), noise.WithNodeMaxDialAttempts(1))
			a := node(procA, echo)
			connect(procA, a, b.Addr())
			vsched.Quiesce()
			for i := 0; i < 300; i++ {
				i := i
				join(spawn(procC, func() { befalls[w].do(a, b, byte(i)) }))
				vsched.Settle()
			}
			serving(a, b, "after 300 times "+befalls[w].name)
			vsched.QuietOff()
			shut(procB, b)
			released(procB, 0, 0, "after Close")
		},
		Quick: mc.Bounds{Cost: 0}, Thorough: mc.Bounds{Cost: 0, Policies: []int{0, 1, 2}}, MaxSteps: 10000000, NoStmts: true,
	})

	failing := func(many bool, s mc.Scenario) {
		s.Prop = "C31"
		s.NoStmts = true
		s.Run = func() {
			errs := []error{syscall.EMFILE, syscall.ENFILE, syscall.ECONNABORTED, syscall.ENOBUFS, syscall.EPROTO, syscall.ENETDOWN}
			i, k := 0, 1000
			if many {
				i = vsched.Pick(len(errs))
			} else if i = vsched.Pick(len(errs) + 2); i >= len(errs) {
				i, k = 0, i-len(errs)+2
			} else {
				k = 1
			}
			e := errs[i]
			closes := vsched.Pick(2) == 1
			var a, b, d *noise.Node
			vsched.Quiet(func() {
				b = node(procB, echo)
				a = node(procA, echo)
				d = node(procD, echo)
				connect(procA, a, b.Addr())
				vsched.Quiesce()
				vnet.FailAccepts(int(b.ID().Port), k, e)
			})
			ask := func(g int, n *noise.Node, who string) chan struct{} {
				return spawn(g, func() {
					got, err := n.Request(timeout(time.Hour), b.Addr(), []byte("hi"))
					if !closes && (err != nil || string(got) != "re:hi") {
						vsched.Fail("accepting failed %d times with %v: %s asking: %q %v", k, e, who, got, err)
					}
				})
			}
			ds := []chan struct{}{ask(procA, a, "a connected peer"), ask(procD, d, "a new peer")}
			if closes {
				shut(procB, b)
			}
			join(ds...)
			shut(procB, b)
			released(procB, 0, 0, "after Close")
		}
		mc.Add(s)
	}
	failing(false, mc.Scenario{
		Name: "c31-accept-fails", Doc: "accepting a connection fails up to three times, in one of 6 ways, while peers connect, a connected one asks, and possibly the node closes",
		Quick: mc.Bounds{Cost: 1, Weight: 3}, Thorough: mc.Bounds{Cost: 1, Policies: []int{0, 1, 2}, Weight: 3},
	})
	failing(true, mc.Scenario{
		Name: "c31-accept-fails-on", Doc: "the same 1000 times in a row",
		Quick: mc.Bounds{}, Thorough: mc.Bounds{Policies: []int{0, 1, 2}},
	})
}
