package main

import (
	"bytes"
	"context"
	"fmt"
	"strings"

	"github.com/perlin-network/noise"
	"verif.local/rt/mc"
	"verif.local/rt/vsched"
)

// ask has process g send a request and check the response.
func ask(g int, n *noise.Node, to, body, want string) chan struct{} {
	return spawn(g, func() {
		got, err := n.Request(bg(), to, []byte(body))
		if err != nil {
			vsched.Fail("request failed: %v", err)
		}
		if string(got) != want {
			vsched.Fail("request %q got response %.40q", body, got)
		}
	})
}

func init() {
	mc.Add(mc.Scenario{
		Prop: "C01", Name: "c01-three-requesters",
		Doc: "three threads share a connection, and the remote node answers from two workers",
		Run: func() {
			var a, b *noise.Node
			vsched.Quiet(func() {
				a = node(procA, echo)
				b = node(procB, echo, noise.WithNodeNumWorkers(2))
				connect(procA, a, b.Addr())
			})
			join(ask(procA, a, b.Addr(), "one", "re:one"), ask(procA, a, b.Addr(), "two", "re:two"), ask(procA, a, b.Addr(), "three", "re:three"))
		},
		Quick: mc.Bounds{Cost: 2, Policies: []int{0, 1, 2}}, Thorough: mc.Bounds{Cost: 4, Policies: []int{0, 1, 2}}, Native: 2,
	})
	mc.Add(mc.Scenario{
		Prop: "C01", Name: "c01-both-ways",
		Doc: "two nodes send requests to each other at the same time",
		Run: func() {
			var a, b *noise.Node
			vsched.Quiet(func() {
				a = node(procA, echo)
				b = node(procB, echo)
				connect(procA, a, b.Addr())
				connect(procB, b, a.Addr())
			})
			join(ask(procA, a, b.Addr(), "one", "re:one"), ask(procB, b, a.Addr(), "two", "re:two"), ask(procB, b, a.Addr(), "", "re:"))
		},
		Quick: mc.Bounds{Cost: 2, Policies: []int{0, 1}}, Thorough: mc.Bounds{Cost: 4, Policies: []int{0, 1, 2}}, Native: 2,
	})
	mc.Add(mc.Scenario{
		Prop: "C01", Name: "c01-answer-order",
		Doc: "three requests in flight, answered by hand in every order, with empty and equal-sized bodies, after none or some responses nobody asked for",
		Run: func() {
			var a *noise.Node
			handled := 0
			l, addr := rawListen(procB)
			order := perm(3, vsched.Pick(6))
			stray := vsched.Pick(4)
			vsched.Quiet(func() {
				a = node(procA, func(ctx noise.HandlerContext) error { handled++; return nil })
				rawServe(procB, l, func(p *rawPeer) {
					var nonces [3]uint64
					var bodies [3]string
					for i := range nonces {
						n, b, err := p.recv()
						must(err)
						if n == 0 {
							vsched.Fail("a request has number 0")
						}
						nonces[i], bodies[i] = n, string(b)
					}
					if nonces[0] == nonces[1] || nonces[1] == nonces[2] || nonces[0] == nonces[2] {
						vsched.Fail("requests in flight share a number")
					}
					for _, i := range order {
						ans := ""
						if bodies[i] != "r0" {
							ans = "x" + bodies[i][1:]
						}
						must(p.send(nonces[i], []byte(ans)))
						if stray == 1 { // the same again
							must(p.send(nonces[i], []byte("dup")))
						}
						if stray == 2 {
							must(p.send(nonces[i]+1000, []byte("unasked")))
						}
						if stray == 3 {
							must(p.send(0, []byte("plain")))
						}
					}
				})
				connect(procA, a, addr)
			})
			join(ask(procA, a, addr, "r0", ""), ask(procA, a, addr, "r1", "x1"), ask(procA, a, addr, "r2", "x2"))
		},
		Quick: mc.Bounds{Cost: 1, Policies: []int{0, 1}}, Thorough: mc.Bounds{Cost: 3, Policies: []int{0, 1, 2}}, Native: 1,
	})
	mc.Add(mc.Scenario{
		Prop: "C01", Name: "c01-late-response",
		Doc: "a request is cancelled while its response may be under way; neither a handler nor a later request ever sees it",
		Run: func() {
			var a *noise.Node
			l, addr := rawListen(procB)
			vsched.Quiet(func() {
				a = node(procA, func(ctx noise.HandlerContext) error {
					vsched.Fail("a response that was late was handed to a handler: %q", ctx.Data())
					return nil
				})
				rawServe(procB, l, func(p *rawPeer) {
					n1, b1, err := p.recv()
					must(err)
					must(p.send(n1, append([]byte("re:"), b1...)))
					n2, b2, err := p.recv()
					must(err)
					if n2 == n1 {
						vsched.Fail("a request was given the number of one that was never answered")
					}
					must(p.send(n2, append([]byte("re:"), b2...)))
				})
				connect(procA, a, addr)
			})
			ctx, cancel := context.WithCancel(bg())
			d := spawn(procA, func() {
				got, err := a.Request(ctx, addr, []byte("first"))
				if err == nil && string(got) != "re:first" {
					vsched.Fail("cancelled request got %q", got)
				}
				if err == nil {
					vsched.Fact("answered in time")
				} else {
					vsched.Fact("cancelled")
				}
			})
			spawn(procA, cancel)
			join(d)
			join(ask(procA, a, addr, "second", "re:second"))
			vsched.Quiesce()
		},
		Quick: mc.Bounds{Cost: 3, Policies: []int{0, 1, 2}}, Thorough: mc.Bounds{Cost: 5, Policies: []int{0, 1, 2}}, Native: 2,
	})
	mc.Add(mc.Scenario{
		Prop: "C01", Name: "c01-cancelled-answered-last",
		Doc: "two requests, one is cancelled and answered only after the other, at every order of the answers",
		Run: func() {
			var a *noise.Node
			l, addr := rawListen(procB)
			which := vsched.Pick(2)
			vsched.Quiet(func() {
				a = node(procA, func(ctx noise.HandlerContext) error {
					vsched.Fail("a response that was late was handed to a handler: %q", ctx.Data())
					return nil
				})
			})
			ctx, cancel := context.WithCancel(bg())
			vsched.Quiet(func() {
				rawServe(procB, l, func(p *rawPeer) {
					n1, b1, err := p.recv()
					must(err)
					n2, b2, err := p.recv()
					must(err)
					cancel()
					if which == 1 {
						n1, b1, n2, b2 = n2, b2, n1, b1
					}
					must(p.send(n1, append([]byte("re:"), b1...)))
					must(p.send(n2, append([]byte("re:"), b2...)))
				})
				connect(procA, a, addr)
			})
			d1 := spawn(procA, func() {
				if got, err := a.Request(ctx, addr, []byte("first")); err == nil && string(got) != "re:first" {
					vsched.Fail("cancelled request got %q", got)
				}
			})
			join(d1, ask(procA, a, addr, "second", "re:second"))
			vsched.Quiesce()
		},
		Quick: mc.Bounds{Cost: 2, Policies: []int{0, 1, 2}}, Thorough: mc.Bounds{Cost: 4, Policies: []int{0, 1, 2}}, Native: 1,
	})
	mc.Add(mc.Scenario{
		Prop: "C01", Name: "c01-one-pending-through-many",
		Doc: "one request stays unanswered while more requests than fit 8 and 16 bits are exchanged, then is answered",
		Run: func() {
			vsched.QuietOn()
			l, addr := rawListen(procB)
			a := node(procA, nil)
			const many = 66000
			rawServe(procB, l, func(p *rawPeer) {
				first, _, err := p.recv()
				must(err)
				seen := map[uint64]bool{first: true}
				for i := 0; i < many; i++ {
					n, b, err := p.recv()
					must(err)
					if n == 0 || seen[n] {
						vsched.Fail("number %d of a request is in use already", n)
					}
					seen[n] = true
					must(p.send(n, b))
				}
				must(p.send(first, []byte("at last")))
			})
			connect(procA, a, addr)
			d := ask(procA, a, addr, "first", "at last")
			vsched.Quiesce()
			join(spawn(procA, func() {
				for i := 0; i < many; i++ {
					body := fmt.Sprint(i)
					got, err := a.Request(bg(), addr, []byte(body))
					if err != nil || string(got) != body {
						vsched.Fail("request %d got %q, %v", i, got, err)
					}
				}
			}), d)
		},
		Quick: mc.Bounds{Cost: 0}, Thorough: mc.Bounds{Cost: 0, Policies: []int{0, 1}}, MaxSteps: 10000000,
	})
	mc.Add(mc.Scenario{
		Prop: "C01", Name: "c01-many-in-flight",
		Doc: "300 requests are in flight together and answered last to first, with responses of growing size",
		Run: func() {
			vsched.QuietOn()
			l, addr := rawListen(procB)
			a := node(procA, nil)
			const many = 300
			rawServe(procB, l, func(p *rawPeer) {
				var ns []uint64
				var bs []string
				for i := 0; i < many; i++ {
					n, b, err := p.recv()
					must(err)
					ns, bs = append(ns, n), append(bs, string(b))
				}
				for i := many - 1; i >= 0; i-- {
					must(p.send(ns[i], []byte(strings.Repeat(bs[i], 1+i%7))))
				}
			})
			connect(procA, a, addr)
			var ds []chan struct{}
			for i := 0; i < many; i++ {
				body := fmt.Sprintf("<%d>", i)
				ds = append(ds, spawn(procA, func() {
					got, err := a.Request(bg(), addr, []byte(body))
					if err != nil {
						vsched.Fail("request failed: %v", err)
					}
					if len(got) == 0 || len(bytes.ReplaceAll(got, []byte(body), nil)) != 0 {
						vsched.Fail("request %s got %.40q", body, got)
					}
				}))
			}
			join(ds...)
		},
		Quick: mc.Bounds{Cost: 0, Policies: []int{0, 1, 2}}, Thorough: mc.Bounds{Cost: 0, Policies: []int{0, 1, 2}}, MaxSteps: 1000000, Native: 1,
	})
}

// perm is the i-th permutation of 0..n-1.
func perm(n, i int) []int {
	var out, left []int
	for j := 0; j < n; j++ {
		left = append(left, j)
	}
	for ; n > 0; n-- {
		j := i % n
		i /= n
		out = append(out, left[j])
		left = append(left[:j:j], left[j+1:]...)
	}
	return out
}
