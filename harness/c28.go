package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"net"
	"time"

	"github.com/perlin-network/noise"
	"github.com/perlin-network/noise/kademlia"
	"verif.local/rt/mc"
	"verif.local/rt/vnet"
	"verif.local/rt/vsched"
)

// fillTable puts n peers nobody serves into the table of k, and what they are.
func fillTable(k *kademlia.Protocol, n int) []noise.ID {
	out := k.Table().Entries() // the node itself
	if len(out) != 1 || out[0].ID != k.Table().Self().ID {
		vsched.Fail("a new table has %v", out)
	}
	for i := 0; i < n; i++ {
		host := net.IPv4(10, 0, byte(i), byte(i+1))
		if i%3 == 1 {
			host = net.IP(bytes.Repeat([]byte{0x20, byte(i)}, 8))
		}
		if i%5 == 4 {
			host = net.IPv4(127, 0, 0, 1)
		}
		id := noise.NewID(keyFrom(i).Public(), host, uint16(1000+i))
		if _, err := k.Table().Update(id); err == nil {
			out = append(out, id)
		}
	}
	return out
}

// readIDs decodes the body of a lookup response.
func readIDs(b []byte) (out []noise.ID, err error) {
	if len(b) == 0 {
		return nil, fmt.Errorf("empty")
	}
	n := int(b[0])
	b = b[1:]
	if len(b) != n*50 {
		return nil, fmt.Errorf("%d entries in %d bytes", n, len(b))
	}
	for i := 0; i < n; i++ {
		e := b[50*i : 50*i+50]
		var id noise.ID
		copy(id.ID[:], e)
		id.Host = net.IP(append([]byte{}, e[32:48]...))
		id.Port = binary.BigEndian.Uint16(e[48:])
		out = append(out, id)
	}
	return out, nil
}

// wireSame: the IDs a and b are the same on the wire.
func wireSame(a, b noise.ID) bool {
	return a.ID == b.ID && a.Host.Equal(b.Host) && a.Port == b.Port
}

// answers checks the response to a lookup for target by a node that has ids in its table.
func rightAnswer(body []byte, ids []noise.ID, target noise.PublicKey) string {
	got, err := readIDs(body)
	if err != nil {
		return err.Error()
	}
	var rest []noise.ID
	for _, id := range ids {
		if id.ID != target {
			rest = append(rest, id)
		}
	}
	want := nearest(rest, target)
	if len(want) > 16 {
		want = want[:16]
	}
	if len(got) != len(want) {
		return fmt.Sprintf("%d entries instead of %d", len(got), len(want))
	}
	for i := range want {
		if !wireSame(got[i], want[i]) {
			return fmt.Sprintf("entry %d is %v port %d instead of %v", i, got[i].ID, got[i].Port, want[i])
		}
	}
	return ""
}

func init() {
	mc.Add(mc.Scenario{
		Prop: "C28", Name: "c28-lookups", Doc: "a node with 0 to 300 peers at random in its table is asked for its own key, the asker's, each of 5 of the table, unrelated, zero and extreme keys: the response is exactly the 16 closest",
		Run: func() {
			vsched.QuietOn()
			b, k := seeker(noise.WithNodeMaxRecvMessageSize(1 << 20))
			ids := fillTable(k, []int{0, 1, 2, 14, 15, 16, 17, 18, 40, 300}[vsched.Pick(10)])
			p, err := rawDial(b.Addr())
			must(err)
			asker := noise.NewID(keyFrom(900).Public(), net.IPv4(127, 0, 0, 1), 7)
			var targets []noise.PublicKey
			targets = append(targets, b.ID().ID, asker.ID, noise.PublicKey{}, keyFrom(901).Public(), keyFrom(902).Public())
			var ones noise.PublicKey
			for i := range ones {
				ones[i] = 0xff
			}
			targets = append(targets, ones)
			for i := 0; i < 5; i++ {
				targets = append(targets, keyFrom(i*i).Public())
			}
			for _, bits := range [][]int{{0}, {1}, {7}, {8}, {255}} {
				targets = append(targets, xored(b.ID().ID, bits...))
			}
			t := targets[vsched.Pick(len(targets))]
			d := spawn(procC, func() {
				must(p.shake(9, asker, keyFrom(900)))
				// The first exchange has the asker admitted.
				must(p.send(1, typed(opPing, nil)))
				if n, d, err := p.recv(); err != nil || n != 1 || !bytes.Equal(d, typed(opPong, nil)) {
					vsched.Fail("answer to a ping: %d %x %v", n, d, err)
				}
			})
			join(d)
			vsched.Quiesce()
			if k.Table().Recorded(asker.ID) {
				ids = append(ids, asker)
			} else if len(k.Table().Bucket(asker.ID)) < 16 {
				vsched.Fail("the asker is not in the table")
			}
			for _, id := range k.Table().Entries() {
				if !inTable(ids, id.ID) {
					vsched.Fail("%v is in the table", id)
				}
			}
			if full := k.Table().Entries(); len(full) < len(ids) { // the asker took somebody's place
				ids = full
			}
			join(spawn(procC, func() {
				must(p.send(7, typed(opFindReq, t[:])))
				n, d, err := p.recv()
				if err != nil || n != 7 || len(d) < 3 || d[0] != 0 || d[1] != opFindRes {
					vsched.Fail("answer to a lookup: %d %x %v", n, d, err)
				}
				if bad := rightAnswer(d[2:], ids, t); bad != "" {
					vsched.Fail("looking for %v among %d: %s", t, len(ids), bad)
				}
			}))
			vsched.Quiesce()
		},
		Quick: mc.Bounds{Cost: 0, Policies: []int{0, 1}}, Thorough: mc.Bounds{Cost: 0, Policies: []int{0, 1, 2}}, MaxSteps: 60000, Native: 10,
	})
	type say struct {
		name  string
		nonce uint64
		data  []byte
		reply func(ids []noise.ID, d []byte) string // nil: none
		ends  bool                                  // the connection is closed
	}
	t := keyFrom(901).Public()
	isPong := func(_ []noise.ID, d []byte) string {
		if !bytes.Equal(d, typed(opPong, nil)) {
			return fmt.Sprintf("answer %x to a ping", d)
		}
		return ""
	}
	found := func(ids []noise.ID, d []byte) string {
		if len(d) < 2 || d[0] != 0 || d[1] != opFindRes {
			return fmt.Sprintf("answer %x to a lookup", d)
		}
		return rightAnswer(d[2:], ids, t)
	}
	var says []say
	for _, nonce := range []uint64{0, 1, 1 << 40, 1<<64 - 1} {
		req := nonce != 0
		add := func(name string, data []byte, reply func([]noise.ID, []byte) string, ends bool) {
			if !req {
				reply = nil
			}
			says = append(says, say{fmt.Sprintf("%s numbered %d", name, nonce), nonce, data, reply, ends})
		}
		add("ping", typed(opPing, nil), isPong, !req)
		add("ping with a body", typed(opPing, []byte{1, 2, 3}), isPong, !req)
		add("lookup", typed(opFindReq, t[:]), found, !req)
		add("pong", typed(opPong, nil), nil, false)
		add("lookup response", typed(opFindRes, []byte{0}), nil, false)
		add("lookup response with an entry", findRes([]noise.ID{rawID(procD, 77)})[0:], nil, false)
		add("short lookup", typed(opFindReq, t[:31]), nil, false)
		add("long lookup", typed(opFindReq, append(append([]byte{}, t[:]...), 0)), nil, false)
		add("empty lookup", typed(opFindReq, nil), nil, false)
		add("half lookup response", typed(opFindRes, []byte{3, 1}), nil, false)
		add("unknown opcode", typed(opGossip, t[:]), nil, false)
		add("far opcode", typed(0xffff, nil), nil, false)
		add("opcode with a high byte", typed(0x0100, nil), nil, false)
		add("one byte", []byte{0}, nil, false)
		add("nothing", nil, nil, false)
	}
	messages := func(depth int) func() {
		return func() {
			vsched.QuietOn()
			var seq []say
			var name string
			for i := 0; i < depth; i++ {
				s := says[vsched.Pick(len(says))]
				seq = append(seq, s)
				name += ", " + s.name
			}
			name = name[2:]
			b, k := seeker()
			ids := fillTable(k, 3)
			p, err := rawDial(b.Addr())
			must(err)
			me := rawID(procC, 9)
			join(spawn(procC, func() { must(p.shake(9, me, key(procC))) }))
			vsched.Quiesce()
			ids = append(ids, me)
			type ans struct {
				n uint64
				d []byte
			}
			var got []ans
			closed := false
			spawn(procC, func() {
				for {
					n, d, err := p.recv()
					if err != nil {
						closed = true
						return
					}
					got = append(got, ans{n, d})
				}
			})
			at := 0
			for i, s := range seq {
				join(spawn(procC, func() { p.send(s.nonce, s.data) }))
				vsched.Quiesce()
				if s.reply != nil {
					if len(got) <= at {
						vsched.Fail("%s: no answer to message %d", name, i)
					}
					if bad := s.reply(ids, got[at].d); bad != "" || got[at].n != s.nonce {
						vsched.Fail("%s: answer to message %d, numbered %d: %s", name, i, got[at].n, bad)
					}
					at++
				}
				if closed != s.ends {
					vsched.Fail("%s: after message %d the connection is closed: %v", name, i, closed)
				}
				if closed {
					break
				}
			}
			if len(got) != at {
				vsched.Fail("%s: %d answers instead of %d, the last numbered %d: %x", name, len(got), at, got[len(got)-1].n, got[len(got)-1].d)
			}
		}
	}
	mc.Add(mc.Scenario{
		Prop: "C28", Name: "c28-messages", Doc: fmt.Sprintf("all pairs out of %d messages, well-formed and not, as requests or not: what is answered, with which number, in which order, and whether the connection is closed", len(says)),
		Run:   messages(2),
		Quick: mc.Bounds{Cost: 0, Policies: []int{0}}, Thorough: mc.Bounds{Cost: 0, Policies: []int{0, 1, 2}},
	})
	mc.Add(mc.Scenario{
		Prop: "C28", Name: "c28-triples", Doc: "all sequences of three of them",
		Run:   messages(3),
		Quick: mc.Bounds{Cost: 0, Policies: []int{0}}, Thorough: mc.Bounds{Cost: 0, Policies: []int{0, 1, 2}},
	})
	mc.Add(mc.Scenario{
		Prop: "C28", Name: "c28-rush", Doc: "two askers at once, one of them with two requests at once, under all schedules: each gets its own answers, and the answer to a lookup is the table as it is at some moment",
		Run: func() {
			var b *noise.Node
			var k *kademlia.Protocol
			var ids []noise.ID
			var ps [2]*rawPeer
			mes := []noise.ID{rawID(procC, 9), rawID(procD, 10)}
			vsched.Quiet(func() {
				b, k = seeker(noise.WithNodeNumWorkers(2))
				ids = fillTable(k, 2)
				for i := range ps {
					var err error
					ps[i], err = rawDial(b.Addr())
					must(err)
				}
				join(spawn(procC, func() { must(ps[0].shake(9, mes[0], key(procC))) }))
				vsched.Quiesce()
			})
			one := append(append([]noise.ID{}, ids...), mes[0])
			both := append(append([]noise.ID{}, one...), mes[1])
			check := func(i int, d []byte, n uint64) {
				switch n {
				case 5:
					if bad := isPong(nil, d); bad != "" {
						vsched.Fail("asker %d: %s", i, bad)
					}
				case 6:
					if bad := found(both, d); bad != "" && (i == 1 || found(one, d) != "") {
						vsched.Fail("asker %d: %s", i, bad)
					}
				default:
					vsched.Fail("asker %d: answer numbered %d", i, n)
				}
			}
			d0 := spawn(procC, func() {
				must(ps[0].send(5, typed(opPing, nil)))
				must(ps[0].send(6, typed(opFindReq, t[:])))
				seen := map[uint64]bool{}
				for i := 0; i < 2; i++ {
					n, d, err := ps[0].recv()
					must(err)
					if seen[n] {
						vsched.Fail("two answers numbered %d", n)
					}
					seen[n] = true
					check(0, d, n)
				}
			})
			d1 := spawn(procD, func() {
				must(ps[1].shake(10, mes[1], key(procD)))
				must(ps[1].send(6, typed(opFindReq, t[:])))
				n, d, err := ps[1].recv()
				must(err)
				check(1, d, n)
			})
			join(d0, d1)
			vsched.Mark()
			vsched.Quiesce()
		},
		Quick: mc.Bounds{Cost: 2, Policies: []int{0, 1}}, Thorough: mc.Bounds{Cost: 3, Policies: []int{0, 1}},
	})
	kinds := int(numTails) + 7
	kindName := func(i int) string {
		if i < int(numTails) {
			return tailNames[i]
		}
		return [...]string{"answers with a lookup", "answers with a ping", "answers a second later", "answers a minute later", "answers with a pong and a body", "answers under another number", "answers half"}[i-int(numTails)]
	}
	mc.Add(mc.Scenario{
		Prop: "C28", Name: "c28-ping", Doc: fmt.Sprintf("a peer that reacts to pings in one of %d ways is pinged, twice, with or without an earlier connection and with 3 kinds of context: the ping succeeds if and only if a pong arrives in time", kinds),
		Run: func() {
			kind, ctxKind, before := vsched.Pick(kinds), vsched.Pick(3), vsched.Pick(2) == 1
			var b *noise.Node
			var k *kademlia.Protocol
			vsched.QuietOn()
			b, k = seeker(noise.WithNodeIdleTimeout(0))
			l, addr := rawListen(procC)
			id := rawID(procC, port(l))
			if kind < int(numTails) {
				serveTail(procC, l, key(procC), tail(kind))
			} else {
				rawAccept(procC, l, func(i int, p *rawPeer) {
					if p.shake(byte(0x50+i), id, key(procC)) != nil {
						return
					}
					for {
						n, d, err := p.recv()
						if err != nil {
							return
						}
						if n == 0 || len(d) < 2 || d[1] != opPing {
							continue
						}
						switch kind - int(numTails) {
						case 0:
							p.send(n, typed(opFindReq, t[:]))
						case 1:
							p.send(n, typed(opPing, nil))
						case 2:
							time.Sleep(time.Second)
							p.send(n, typed(opPong, nil))
						case 3:
							time.Sleep(time.Minute)
							p.send(n, typed(opPong, nil))
						case 4:
							p.send(n, typed(opPong, []byte{1, 2, 3}))
						case 5:
							p.send(n+7, typed(opPong, nil))
						case 6:
							f := frame(p.seal(append(make([]byte, 8), typed(opPong, nil)...)))
							p.writeRaw(f[:len(f)-1])
							p.conn.Close()
							return
						}
					}
				})
			}
			if before {
				join(spawn(procB, func() { b.Ping(timeout(3*time.Second), addr) }))
			}
			vsched.QuietOff()
			for i := 0; i < 2; i++ {
				ctx := timeout(5 * time.Second)
				if ctxKind == 1 {
					ctx = timeout(0)
				}
				if ctxKind == 2 {
					ctx = timeout(500 * time.Millisecond)
				}
				var err error
				t0 := vsched.Clock()
				join(spawn(procB, func() { err = k.Ping(ctx, addr) }))
				took := vsched.Clock() - t0
				ok := kind == int(tailAlive) || kind == int(tailAnswersTwice) || kind == int(numTails)+4 || kind == int(numTails)+2 && ctxKind == 0
				if ctxKind == 1 && (ok || kind == int(numTails)+2) && err == nil {
					continue // the context has ended and the answer is there: either is chosen
				}
				if ctxKind == 1 {
					ok = false
				}
				if ok != (err == nil) {
					vsched.Fail("ping %d of a peer that %s: %v", i, kindName(kind), err)
				}
				if limit := []time.Duration{5 * time.Second, 0, 500 * time.Millisecond}[ctxKind]; took > int64(limit) && kind != int(tailNoHandshake) && kind != int(tailHangs) {
					vsched.Fail("ping %d of a peer that %s took %v", i, kindName(kind), time.Duration(took))
				}
				vsched.Fact(fmt.Sprintf("succeeds: %v", ok))
			}
		},
		Quick: mc.Bounds{Cost: 2, Policies: []int{0}}, Thorough: mc.Bounds{Cost: 3, Policies: []int{0}},
	})
	mc.Add(mc.Scenario{
		Prop: "C28", Name: "c28-real", Doc: "two nodes of the library ping and look up each other at once, under all schedules",
		Run: func() {
			var ns [2]*noise.Node
			var ks [2]*kademlia.Protocol
			vsched.Quiet(func() {
				for i := range ns {
					ns[i] = newNode(procA + i)
					ks[i] = kademlia.New()
					ns[i].Bind(ks[i].Protocol())
					listen(procA+i, ns[i])
				}
			})
			var ds []chan struct{}
			for i := range ns {
				i := i
				ds = append(ds, spawn(procA+i, func() {
					if err := ks[i].Ping(timeout(time.Minute), ns[1-i].Addr()); err != nil {
						vsched.Fail("ping: %v", err)
					}
					m, err := ns[i].RequestMessage(timeout(time.Minute), ns[1-i].Addr(), kademlia.FindNodeRequest{Target: t})
					if err != nil {
						vsched.Fail("lookup: %v", err)
					}
					r, ok := m.(kademlia.FindNodeResponse)
					if !ok {
						vsched.Fail("lookup: %v", m)
					}
					if bad := rightAnswer(findRes(r.Results)[2:], []noise.ID{ns[0].ID(), ns[1].ID()}, t); bad != "" {
						vsched.Fail("lookup: %s", bad)
					}
				}))
			}
			join(ds...)
			vsched.Mark()
			vsched.Quiesce()
		},
		Quick: mc.Bounds{Cost: 1, Policies: []int{0, 1}}, Thorough: mc.Bounds{Cost: 2, Policies: []int{0}}, Native: 5,
	})
}

var _ = vnet.Dials
