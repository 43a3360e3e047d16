package main

import (
	"bytes"
	"errors"
	"fmt"
	"net"
	"time"

	"github.com/perlin-network/noise"
	"github.com/perlin-network/noise/gossip"
	"github.com/perlin-network/noise/kademlia"
	"verif.local/rt/mc"
	"verif.local/rt/vnet"
	"verif.local/rt/vsched"
)

// hub is a node that gossips; what it is notified of is counted.
type hub struct {
	n      *noise.Node
	k      *kademlia.Protocol
	g      *gossip.Protocol
	got    map[string]int
	last   noise.ID // who sent what it was notified of last
	order  []string
	reject func(data []byte) bool
	slow   time.Duration // of its application
}

func newHub(g int, opts ...noise.NodeOption) *hub {
	h := &hub{got: map[string]int{}}
	h.n = newNode(g, append([]noise.NodeOption{noise.WithNodeMaxDialAttempts(1), noise.WithNodeMaxRecvMessageSize(1 << 20)}, opts...)...)
	h.k = kademlia.New()
	h.g = gossip.New(h.k, gossip.WithEvents(gossip.Events{OnGossipReceived: func(sender noise.ID, data []byte) error {
		u := guard()
		vsched.Mark()
		h.got[string(data)]++
		h.order = append(h.order, string(data))
		h.last = sender
		u()
		if h.slow > 0 {
			time.Sleep(h.slow)
		}
		if h.reject != nil && h.reject(data) {
			return errors.New("rejected")
		}
		return nil
	}}))
	h.n.Bind(h.k.Protocol(), h.g.Protocol())
	h.n.Handle(qa)
	listen(g, h.n)
	return h
}

// net of hubs with an edge for every bit of mask: the first of the two connects to the other.
func hubs(n, mask int, opts ...noise.NodeOption) []*hub {
	var hs []*hub
	for i := 0; i < n; i++ {
		hs = append(hs, newHub(procA+i, opts...))
	}
	e := 0
	for i := 0; i < n; i++ {
		for j := i + 1; j < n; j++ {
			if mask>>uint(e)&1 == 1 {
				i, j := i, j
				join(spawn(procA+i, func() {
					_, err := hs[i].n.Ping(bg(), hs[j].n.Addr())
					must(err)
				}))
			}
			e++
		}
	}
	vsched.Quiesce()
	return hs
}

func edge(n, mask, a, b int) bool {
	e := 0
	for i := 0; i < n; i++ {
		for j := i + 1; j < n; j++ {
			if mask>>uint(e)&1 == 1 && (i == a && j == b || i == b && j == a) {
				return true
			}
			e++
		}
	}
	return false
}

// sent counts the frames with gossip of a size, by sender and receiver.
func (t *tap) sent(size int) map[[2]int]int {
	group := map[string]int{}
	for _, s := range t.order {
		group[s.conn.LocalAddr().String()] = s.conn.Group()
	}
	out := map[[2]int]int{}
	for _, s := range t.order {
		for i, f := range s.frames {
			if i > 1 && len(f) == size+38 {
				out[[2]int{s.conn.Group(), group[s.conn.RemoteAddr().String()]}]++
			}
		}
	}
	return out
}

// spread checks that data went from the origins to all hubs once each, and, by what t heard, that nobody sent it twice
// to another or to somebody it does not know.
func spread(t *tap, hs []*hub, mask int, data []byte, origins ...int) {
	defer guard()()
	n := len(hs)
	isOrigin := map[int]bool{}
	for _, o := range origins {
		isOrigin[o] = true
	}
	for i, h := range hs {
		got := h.got[string(data)]
		switch {
		case isOrigin[i] && len(origins) == 1 && got != 0:
			vsched.Fail("the origin of a message of %d bytes was notified of it %d times", len(data), got)
		case isOrigin[i] && got > 1, !isOrigin[i] && got != 1:
			vsched.Fail("node %d was notified %d times of a message of %d bytes from %v", i, got, len(data), origins)
		}
	}
	if t == nil {
		return
	}
	total := 0
	for p, c := range t.sent(len(data)) {
		i, j := p[0]-procA, p[1]-procA
		total += c
		if c > 1 {
			vsched.Fail("node %d sent a message of %d bytes %d times to node %d", i, len(data), c, j)
		}
		if !edge(n, mask, i, j) {
			vsched.Fail("node %d sent a message to node %d", i, j)
		}
	}
	if !vsched.Native && total < n-len(isOrigin) {
		vsched.Fail("%d nodes were reached by %d messages", n-len(isOrigin), total)
	}
	vsched.Fact(fmt.Sprintf("%d messages among %d", total, n))
}

// gossip message of a size.
func rumour(n int) []byte { return bytes.Repeat([]byte{byte(n*7 + n>>8 + 1)}, n) }

// folk is a raw peer of a hub's overlay.
type folk struct {
	g, seed int
	id      noise.ID
	key     noise.PrivateKey
	addr    string
	down    bool
	out     *rawPeer
	closed  bool // its connection was
	got     map[string]int
}

func newFolk(g, seed int) *folk {
	f := &folk{g: g, seed: seed, key: keyFrom(seed), got: map[string]int{}}
	l, addr := rawListen(g)
	f.addr = addr
	f.id = noise.NewID(f.key.Public(), net.IPv4(127, 0, 0, 1), port(l))
	vnet.OnDial(addr, func(int) vnet.Action {
		if f.down {
			return vnet.Refuse
		}
		return vnet.Connect
	})
	rawAccept(g, l, func(i int, p *rawPeer) {
		if p.shake(byte(16*seed+i), f.id, f.key) == nil {
			f.read(p)
		}
		p.conn.Close()
	})
	return f
}

func (f *folk) read(p *rawPeer) {
	for {
		n, d, err := p.recv()
		if err != nil {
			return
		}
		if len(d) < 2 || d[0] != 0 {
			continue
		}
		switch d[1] {
		case opPing:
			p.send(n, typed(opPong, nil))
		case opFindReq:
			p.send(n, findRes(nil))
		case opGossip:
			u := guard()
			vsched.Mark()
			f.got[string(d[2:])]++
			u()
			if n != 0 {
				vsched.Fail("gossip was sent as a request")
			}
		}
	}
}

// connect to the hub, unless the last connection is still there.
func (f *folk) connect(h *hub) {
	if f.out != nil && !f.closed {
		return
	}
	p, err := rawDial(h.n.Addr())
	must(err)
	f.out, f.closed = p, false
	seed := byte(128 + 8*f.seed)
	f.seed += 16
	join(spawn(f.g, func() { must(p.shake(seed, f.id, f.key)) }))
	spawn(f.g, func() {
		f.read(p)
		p.conn.Close()
		if f.out == p {
			f.closed = true
		}
	})
}

func (f *folk) send(nonce uint64, data []byte) error {
	return f.out.send(nonce, typed(opGossip, data))
}

func init() {
	sizes := []int{0, 1, 300, 1<<16 - 66, 1<<16 - 65, 1 << 16, 70000, 200000}
	mc.Add(mc.Scenario{
		Prop: "C26", Name: "c26-topologies", Doc: fmt.Sprintf("a node of each connected topology of 2 to 4 nodes pushes a message of each of %d sizes, then again, then another", len(sizes)),
		Run: func() {
			vsched.QuietOn()
			n := 2 + vsched.Pick(3)
			mask := vsched.Pick(1 << uint(n*(n-1)/2))
			if !connected(n, mask) {
				vsched.Discard("topology")
			}
			origin, size := vsched.Pick(n), sizes[vsched.Pick(len(sizes))]
			t := newTap()
			hs := hubs(n, mask)
			data := rumour(size)
			push := func(i int, d []byte) {
				join(spawn(procA+i, func() { hs[i].g.Push(timeout(time.Minute), d) }))
				vsched.Quiesce()
			}
			push(origin, data)
			spread(t, hs, mask, data, origin)
			again := vsched.Pick(n)
			push(again, data)
			spread(t, hs, mask, data, origin)
			other := append(append([]byte{}, data...), 1)
			push(again, other)
			spread(t, hs, mask, other, again)
			spread(t, hs, mask, data, origin)
		},
		Quick: mc.Bounds{Cost: 0, Policies: []int{0}}, Thorough: mc.Bounds{Cost: 0, Policies: []int{0, 1, 2}}, MaxSteps: 60000, Native: 5,
	})
	mc.Add(mc.Scenario{
		Prop: "C26", Name: "c26-schedules", Doc: "messages of one or two nodes, the same or different ones, in a pair, a line and a triangle of nodes, under all schedules",
		Run: func() {
			n := 2 + vsched.Pick(2)
			mask := []int{0, 0, 1, 0b101}[n]
			if n == 3 && vsched.Pick(2) == 1 {
				mask = 7
			}
			var t *tap
			var hs []*hub
			vsched.Quiet(func() {
				t = newTap()
				hs = hubs(n, mask, noise.WithNodeNumWorkers(uint(1+vsched.Pick(2))))
			})
			o1 := vsched.Pick(n)
			mode := vsched.Pick(3)
			a, b := rumour(300), rumour(301)
			if mode == 1 {
				b = a
			}
			o2 := o1
			ds := []chan struct{}{spawn(procA+o1, func() { hs[o1].g.Push(timeout(time.Minute), a) })}
			if mode > 0 {
				o2 = vsched.Pick(n)
				ds = append(ds, spawn(procA+o2, func() { hs[o2].g.Push(timeout(time.Minute), b) }))
			}
			join(ds...)
			vsched.Quiesce()
			if mode == 1 && o1 != o2 {
				spread(t, hs, mask, a, o1, o2)
			} else {
				spread(t, hs, mask, a, o1)
			}
			if mode == 2 {
				spread(t, hs, mask, b, o2)
			}
		},
		StmtsThorough: true,
		Quick:         mc.Bounds{Cost: 1, Policies: []int{0}, Weight: 3}, Thorough: mc.Bounds{Cost: 2, Policies: []int{0}, Weight: 3}, MaxSteps: 60000,
	})
	mc.Add(mc.Scenario{
		Prop: "C26", Name: "c26-dense", Doc: "a node of a clique of four, or all of them at once, push: every node is notified of everything once, under all schedules",
		Run: func() {
			var t *tap
			var hs []*hub
			all := vsched.Pick(2)
			vsched.Quiet(func() {
				t = newTap()
				hs = hubs(4, 63)
			})
			var ds []chan struct{}
			for i := 0; i < 1+3*all; i++ {
				i := i
				ds = append(ds, spawn(procA+i, func() { hs[i].g.Push(timeout(time.Minute), rumour(300+i)) }))
			}
			join(ds...)
			vsched.Quiesce()
			for i := 0; i < 1+3*all; i++ {
				spread(t, hs, 63, rumour(300+i), i)
			}
		},
		StmtsThorough: true,
		Quick:         mc.Bounds{Cost: 1, Policies: []int{0}, Weight: 3}, Thorough: mc.Bounds{Cost: 1, Policies: []int{0, 1, 2}, Weight: 2}, MaxSteps: 60000,
	})
	const (
		opSend = iota
		opRequest
		opPush
		opDown
		opUp
	)
	type step struct{ op, who, what int }
	var steps []step
	for what := 0; what < 3; what++ {
		steps = append(steps, step{opPush, 0, what})
		for who := 0; who < 3; who++ {
			steps = append(steps, step{opSend, who, what})
		}
	}
	steps = append(steps, step{opRequest, 0, 0}, step{opDown, 0, 0}, step{opDown, 2, 0}, step{opUp, 0, 0}, step{opUp, 2, 0})
	histories := func(depth int, first func() []step) func() {
		return func() {
			vsched.QuietOn()
			begin := first()
			h := newHub(procB)
			bad := rumour(500)
			h.reject = func(d []byte) bool { return bytes.Equal(d, bad) }
			long := rumour(70000)
			data := [][]byte{long, append(append([]byte{}, long[:len(long)-1]...), 9), bad}
			var fs []*folk
			for i := 0; i < 3; i++ {
				f := newFolk(procC+i, i)
				f.connect(h)
				fs = append(fs, f)
			}
			vsched.Quiesce()
			has := [3][3]bool{} // whether a peer has a message
			var seen [3]int
			var sent [3][3]int
			note := func(who, what int) { // of the hub
				for i, f := range fs {
					if inTable(h.k.Table().Entries(), f.id.ID) && !has[i][what] {
						if f.down {
							continue
						}
						has[i][what] = true
						sent[i][what]++
					}
				}
			}
			path := ""
			var notified [3]int
			for i := 0; i < depth; i++ {
				var s step
				if i < len(begin) {
					s = begin[i]
				} else {
					s = steps[vsched.Pick(len(steps))]
				}
				f := fs[s.who]
				path += fmt.Sprintf(" %s(%d,%d)", [...]string{"send", "request", "push", "down", "up"}[s.op], s.who, s.what)
				switch s.op {
				case opSend, opRequest:
					f.connect(h)
					vsched.Quiesce()
					p := f.out
					nonce := uint64(s.op * 3)
					if s.op == opSend {
						has[s.who][s.what] = true
						if seen[s.what] == 0 {
							seen[s.what]++
							notified[s.what]++
							if s.what != 2 {
								note(s.who, s.what)
							}
						}
					}
					join(spawn(f.g, func() { must(p.send(nonce, typed(opGossip, data[s.what]))) }))
					vsched.Quiesce()
					if s.op == opSend && notified[s.what] == 1 && seen[s.what] == 1 {
						seen[s.what]++
						if h.last.ID != f.id.ID {
							vsched.Fail("after%s: the sender reported is %v instead of %v", path, h.last, f.id)
						}
						if f.closed != (s.what == 2) {
							vsched.Fail("after%s: the connection to the sender was closed: %v", path, f.closed)
						}
					} else if f.closed {
						vsched.Fail("after%s: the connection to the sender was closed", path)
					}
				case opPush:
					if seen[s.what] == 0 {
						seen[s.what] = 2
					}
					note(-1, s.what)
					join(spawn(procB, func() { h.g.Push(timeout(time.Minute), data[s.what]) }))
				case opDown: // neither here nor reachable
					if f.down {
						vsched.Discard("down")
					}
					f.down = true
					f.out.conn.Close()
					f.closed = true
					for _, c := range h.n.Outbound() {
						if c.ID().ID == f.id.ID {
							c := c
							in(procB, func() { c.Close() })
						}
					}
				case opUp:
					if !f.down {
						vsched.Discard("up")
					}
					f.down = false
					f.connect(h)
				}
				vsched.Quiesce()
				for i, f := range fs {
					for m := range data {
						if f.got[string(data[m])] != sent[i][m] {
							vsched.Fail("after%s: peer %d was sent message %d %d times instead of %d", path, i, m, f.got[string(data[m])], sent[i][m])
						}
					}
				}
				for m := range data {
					if h.got[string(data[m])] != notified[m] {
						vsched.Fail("after%s: notified of message %d %d times instead of %d", path, m, h.got[string(data[m])], notified[m])
					}
				}
			}
		}
	}
	mc.Add(mc.Scenario{
		Prop: "C26", Name: "c26-histories", Doc: fmt.Sprintf("all sequences of 3 out of %d events: three peers send three messages, one of which is rejected, or a message as a request, peers become unreachable and come back, the node pushes: who is sent what, what is notified, which connections are closed", len(steps)),
		Run:   histories(3, func() []step { return nil }),
		Quick: mc.Bounds{Cost: 0, Policies: []int{0}}, Thorough: mc.Bounds{Cost: 0, Policies: []int{0, 1}}, MaxSteps: 60000,
	})
	mc.Add(mc.Scenario{
		Prop: "C26", Name: "c26-long-histories", Doc: "the same with 4 events",
		Run:   histories(4, func() []step { return nil }),
		Quick: mc.Bounds{Cost: 0, Policies: []int{0}}, Thorough: mc.Bounds{Cost: 0, Policies: []int{0, 1, 2}}, MaxSteps: 60000, ThoroughOnly: true,
	})
	mc.Add(mc.Scenario{
		Prop: "C26", Name: "c26-returned", Doc: "the same where a peer was unreachable while the node pushed a message, or another peer sent it, and has come back before the last event",
		Run: histories(4, func() []step {
			who, what := 2*vsched.Pick(2), vsched.Pick(2)
			e := step{opPush, 0, what}
			if vsched.Pick(2) == 1 {
				e = step{opSend, 1, what}
			}
			return []step{{opDown, who, 0}, e, {opUp, who, 0}}
		}),
		Quick: mc.Bounds{Cost: 0, Policies: []int{0}}, Thorough: mc.Bounds{Cost: 0, Policies: []int{0, 1, 2}}, MaxSteps: 60000,
	})
	mc.Add(mc.Scenario{
		Prop: "C26", Name: "c26-many", Doc: "500 short messages, no two alike, are pushed in turn by two or three nodes: each arrives everywhere once",
		Run: func() {
			vsched.QuietOn()
			n := 2 + vsched.Pick(2)
			hs := hubs(n, 1<<uint(n*(n-1)/2)-1)
			ms := make([][]byte, 500)
			for i := range ms {
				i := i
				ms[i] = []byte(fmt.Sprint(i))
				join(spawn(procA+i%n, func() { hs[i%n].g.Push(timeout(time.Minute), ms[i]) }))
			}
			vsched.Quiesce()
			defer guard()()
			for i, m := range ms {
				for j, h := range hs {
					want := 1
					if j == i%n {
						want = 0
					}
					if h.got[string(m)] != want {
						vsched.Fail("node %d was notified of message %d %d times instead of %d", j, i, h.got[string(m)], want)
					}
				}
			}
		},
		Quick: mc.Bounds{Cost: 0, Policies: []int{0}}, Thorough: mc.Bounds{Cost: 0, Policies: []int{0, 1, 2}}, MaxSteps: 1000000, Native: 2,
	})
	mc.Add(mc.Scenario{
		Prop: "C26", Name: "c26-crowd", Doc: "a node with 40 peers, of which its table holds more than two buckets full, pushes a message or is sent one: every peer in the table is sent it once, except its sender",
		Run: func() {
			vsched.QuietOn()
			sender := vsched.Pick(3) - 1
			h := newHub(procB)
			var fs []*folk
			for i := 0; i < 40; i++ {
				f := newFolk(procC, i)
				f.connect(h)
				fs = append(fs, f)
				vsched.Quiesce()
			}
			entries := h.k.Table().Entries()
			vsched.Fact(fmt.Sprintf("%d entries", len(entries)))
			m := rumour(300)
			for k := 0; k < 2; k++ {
				if sender < 0 {
					join(spawn(procB, func() { h.g.Push(timeout(time.Minute), m) }))
				} else {
					f := fs[sender]
					join(spawn(f.g, func() { must(f.send(0, m)) }))
				}
				vsched.Quiesce()
			}
			for i, f := range fs {
				want := 1
				if i == sender || !inTable(entries, f.id.ID) {
					want = 0
				}
				if f.got[string(m)] != want {
					vsched.Fail("peer %d was sent the message %d times instead of %d", i, f.got[string(m)], want)
				}
			}
		},
		Quick: mc.Bounds{Cost: 0, Policies: []int{0}}, Thorough: mc.Bounds{Cost: 0, Policies: []int{0, 1, 2}}, MaxSteps: 1000000,
	})
	rush := func(s mc.Scenario, workers int, modes ...int) {
		s.Prop = "C26"
		s.Run = func() {
			var h *hub
			var fs []*folk
			mode := modes[vsched.Pick(len(modes))]
			vsched.Quiet(func() {
				h = newHub(procB, noise.WithNodeNumWorkers(uint(2-vsched.Pick(workers))))
				for i := 0; i < 3; i++ {
					f := newFolk(procC+i, i)
					f.connect(h)
					fs = append(fs, f)
				}
				vsched.Quiesce()
			})
			m, o := rumour(300), rumour(301)
			send := func(i int, d []byte) chan struct{} {
				return spawn(fs[i].g, func() { must(fs[i].send(0, d)) })
			}
			push := func(d []byte) chan struct{} {
				return spawn(procB, func() { h.g.Push(timeout(time.Minute), d) })
			}
			switch mode {
			case 0:
				join(send(0, m), send(1, m))
			case 1:
				join(send(0, m), send(1, o))
			case 2:
				join(send(0, m), push(m))
			case 3:
				join(push(m), push(m))
			case 4:
				join(push(m), push(o))
			case 5:
				h.reject = func([]byte) bool { return true }
				join(send(0, m), send(1, m))
			}
			vsched.Quiesce()
			for round := 0; round < 2; round++ {
				gm, g0, g1, g2 := h.got[string(m)], fs[0].got[string(m)], fs[1].got[string(m)], fs[2].got[string(m)]
				bad := ""
				switch mode {
				case 0:
					if gm != 1 || g2 != 1 || g0+g1 > 1 {
						bad = "two peers sent it"
					}
					if h.last.ID == fs[0].id.ID && g0 > 0 || h.last.ID == fs[1].id.ID && g1 > 0 {
						bad = "it was returned"
					}
				case 1:
					if gm != 1 || h.got[string(o)] != 1 || g0 != 0 || g1 != 1 || g2 != 1 || fs[0].got[string(o)] != 1 || fs[1].got[string(o)] != 0 || fs[2].got[string(o)] != 1 {
						bad = "two peers sent different messages"
					}
				case 2:
					if gm > 1 || g0 > 1 || g1 != 1 || g2 != 1 || gm == 1 && g0 != 0 {
						bad = "a peer sent it while it was pushed"
					}
				case 3, 4:
					if gm != 0 || g0 != 1 || g1 != 1 || g2 != 1 {
						bad = "it was pushed twice, or with another one"
					}
					if no := fs[1].got[string(o)]; no != b2i(mode == 4) {
						bad = fmt.Sprintf("the other message was received %d times", no)
					}
				case 5:
					if gm != 1 || g0+g1+g2 != 0 {
						bad = "it was rejected"
					}
					if c := b2i(fs[0].closed) + b2i(fs[1].closed); c != 1 {
						bad = fmt.Sprintf("it was rejected, and %d connections were closed", c)
					}
				}
				if bad != "" {
					vsched.Fail("%s: notified %d times, sent %d, %d, %d times", bad, gm, g0, g1, g2)
				}
				// Whatever happened, everybody who is there has it now.
				if mode != 5 {
					join(push(m))
				}
				vsched.Quiesce()
			}
		}
		mc.Add(s)
	}
	rush(mc.Scenario{
		Name: "c26-rush", Doc: "two of three peers send a message, the same or different ones, at once, or one while the node pushes it, or the node pushes it twice at once: one notification, every other peer is sent it once, under all schedules",
		StmtsThorough: true,
		Quick:         mc.Bounds{Cost: 1, Policies: []int{0, 1}}, Thorough: mc.Bounds{Cost: 2, Policies: []int{0}, Weight: 5},
	}, 2, 0, 1, 2, 3, 4, 5)
	rush(mc.Scenario{
		Name: "c26-rush-two", Doc: "two of three peers send the same message at once to a node with two workers, or one while the node pushes it",
		Quick: mc.Bounds{Cost: 1, Policies: []int{2}}, Thorough: mc.Bounds{Cost: 1, Policies: []int{0, 1, 2}},
	}, 1, 0, 2)
	mc.Add(mc.Scenario{
		Prop: "C26", Name: "c26-alike", Doc: "pairs of messages that are alike in their first or last bytes, or one of which continues the other, are two messages",
		Run: func() {
			vsched.QuietOn()
			x := bytes.Repeat([]byte{5}, 70000)
			y := append([]byte{}, x...)
			y[len(y)-1]++
			z := append([]byte{}, x...)
			z[0]++
			u := append([]byte{}, x...)
			u[35000]++
			ms := [][]byte{x, y, z, u, x[:65536], x[:65535], x[:65470], x[:32], x[:31], {}, {0}, {0, 0}, make([]byte, 32), append(append([]byte{}, x...), x...)}
			i, j := vsched.Pick(len(ms)), vsched.Pick(len(ms))
			if i == j {
				vsched.Discard("same")
			}
			hs := hubs(2, 1)
			for _, d := range [][]byte{ms[i], ms[j]} {
				join(spawn(procA, func() { hs[0].g.Push(timeout(time.Minute), append([]byte{}, d...)) }))
			}
			vsched.Quiesce()
			for _, d := range [][]byte{ms[i], ms[j]} {
				if n := hs[1].got[string(d)]; n != 1 {
					vsched.Fail("of messages %d and %d, the one of %d bytes was notified %d times", i, j, len(d), n)
				}
			}
		},
		Quick: mc.Bounds{Cost: 0, Policies: []int{0}}, Thorough: mc.Bounds{Cost: 0, Policies: []int{0, 1, 2}}, MaxSteps: 60000,
	})
	mc.Add(mc.Scenario{
		Prop: "C26", Name: "c26-busy", Doc: "two or three nodes with one worker each push many messages to each other at once, over connections that hold little: everything arrives everywhere once",
		Run: func() {
			n := 2 + vsched.Pick(2)
			each := 1 + vsched.Pick(4)
			size := []int{300, 3000, 70000}[vsched.Pick(3)]
			var hs []*hub
			var t *tap
			vsched.Quiet(func() {
				vnet.SetBuffer([]int{4096, 65536}[vsched.Pick(2)])
				t = newTap()
				hs = hubs(n, 1<<uint(n*(n-1)/2)-1)
			})
			var ds []chan struct{}
			for i := range hs {
				for m := 0; m < each; m++ {
					i, m := i, m
					ds = append(ds, spawn(procA+i, func() { hs[i].g.Push(bg(), rumour(size+8*i+m)) }))
				}
			}
			join(ds...)
			vsched.Quiesce()
			for i := range hs {
				for m := 0; m < each; m++ {
					spread(t, hs, 1<<uint(n*(n-1)/2)-1, rumour(size+8*i+m), i)
				}
			}
		},
		Quick: mc.Bounds{Cost: 0, Policies: []int{0, 1, 2}}, Thorough: mc.Bounds{Cost: 1, Policies: []int{0, 1}}, MaxSteps: 60000,
	})
}
