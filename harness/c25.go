package main

import (
	"fmt"
	"net"
	"time"

	"github.com/perlin-network/noise"
	"github.com/perlin-network/noise/kademlia"
	"verif.local/rt/mc"
	"verif.local/rt/vnet"
	"verif.local/rt/vsched"
)

// How a peer takes lookup requests.
type habit int

const (
	hAnswers habit = iota
	hTwice         // answers twice
	hSlow          // answers a second late, in time
	hRefuses
	hHangs
	hNoHandshake
	hSilent
	hGarbled // answers with an unknown message
	hEmpty   // answers with nothing
	hPong    // answers with a pong
	hPlain   // sends what would be its answer as a message
	hCut     // answers with half an answer
	hCloses
	hLate // answers when the lookup has timed out
	hImposter
	numHabits
)

var habitNames = [...]string{"answers", "answers twice", "answers slowly", "refuses connections", "does not react to dialling", "does not shake hands", "is silent", "answers with an unknown message",
	"answers with nothing", "answers with a pong", "sends a message instead", "answers with half an answer", "closes the connection", "answers late", "is somebody else"}

func (h habit) answers() bool { return h <= hSlow }

// member of an overlay.
type member struct {
	id    noise.ID
	key   noise.PrivateKey
	l     net.Listener
	knows []noise.ID // what it answers
	habit habit
	asked int
	wrong string
	conns int
}

// newMember of process g with the key that grows from seed; it is not served yet.
func newMember(g, seed int) *member {
	m := &member{key: keyFrom(seed)}
	m.l, _ = rawListen(g)
	m.id = noise.NewID(m.key.Public(), net.IPv4(127, 0, 0, 1), port(m.l))
	return m
}

func findRes(ids []noise.ID) []byte {
	b := []byte{byte(len(ids))}
	for _, id := range ids {
		b = append(b, id.Marshal()...)
	}
	return typed(opFindRes, b)
}

// serve has process g play the member.
func (m *member) serve(g int, target noise.PublicKey) {
	switch m.habit {
	case hRefuses:
		vnet.OnDial(m.l.Addr().String(), func(int) vnet.Action { return vnet.Refuse })
	case hHangs:
		vnet.OnDial(m.l.Addr().String(), func(int) vnet.Action { return vnet.Hang })
	}
	k, id := m.key, m.id
	if m.habit == hImposter {
		k = keyFrom(1000)
		id = noise.NewID(k.Public(), id.Host, id.Port)
	}
	rawAccept(g, m.l, func(i int, p *rawPeer) {
		u := guard()
		m.conns++
		u()
		if m.habit == hNoHandshake {
			p.drain()
			return
		}
		if p.shake(byte(0x40+i), id, k) != nil {
			return
		}
		for {
			n, d, err := p.recv()
			if err != nil {
				return
			}
			if len(d) < 2 || d[0] != 0 {
				continue
			}
			if d[1] == opPing && n != 0 {
				p.send(n, typed(opPong, nil))
			}
			if d[1] != opFindReq {
				continue
			}
			u := guard()
			vsched.Mark()
			m.asked++
			if n == 0 {
				m.wrong = "it is asked by a message that is not a request"
			} else if string(d[2:]) != string(target[:]) {
				m.wrong = fmt.Sprintf("it is asked for %x", d[2:])
			}
			u()
			switch m.habit {
			case hSlow:
				time.Sleep(time.Second)
			case hLate:
				time.Sleep(4 * time.Second)
			}
			switch m.habit {
			case hAnswers, hSlow, hLate, hImposter:
				p.send(n, findRes(m.knows))
			case hTwice:
				p.send(n, findRes(m.knows))
				p.send(n, findRes(nil))
			case hGarbled:
				p.send(n, typed(77, []byte{1}))
			case hEmpty:
				p.send(n, nil)
			case hPong:
				p.send(n, typed(opPong, nil))
			case hPlain:
				p.send(0, findRes(m.knows))
			case hCut:
				b := findRes(append(m.knows, m.id))
				p.send(n, b[:len(b)-1])
			case hCloses:
				p.conn.Close()
				return
			}
		}
	})
}

// seeker is a node of process B that does not serve, with an overlay.
func seeker(opts ...noise.NodeOption) (*noise.Node, *kademlia.Protocol) {
	n := newNode(procB, append([]noise.NodeOption{noise.WithNodeMaxDialAttempts(1)}, opts...)...)
	k := kademlia.New()
	n.Bind(k.Protocol())
	listen(procB, n)
	return n, k
}

type setting struct{ lookups, requests int }

func (s setting) opts() []kademlia.IteratorOption {
	if s.lookups == 0 {
		return nil
	}
	return []kademlia.IteratorOption{kademlia.WithIteratorNumParallelLookups(s.lookups), kademlia.WithIteratorNumParallelRequestsPerLookup(s.requests)}
}

// lookup has the seeker look for target and checks everything about it; start is what its table has.
func lookup(b *noise.Node, k *kademlia.Protocol, ms []*member, target noise.PublicKey, max int, opts ...kademlia.IteratorOption) {
	start := k.Table().Peers()
	byKey := map[noise.PublicKey]*member{}
	for i, m := range ms {
		if m.l != nil {
			m.serve(procC+i, target)
		}
		byKey[m.id.ID] = m
	}
	if max >= 0 {
		opts = append(opts, kademlia.WithIteratorMaxNumResults(max))
	} else {
		max = 16
	}
	var got []noise.ID
	join(spawn(procB, func() {
		if target == b.ID().ID {
			got = k.Discover(opts...)
		} else {
			got = k.Find(target, opts...)
		}
	}))
	vsched.Mark()
	vsched.Quiesce()
	defer guard()()
	// Whom to ask: the peers in the table, and those heard of from peers that answer.
	reach := map[noise.PublicKey]noise.ID{}
	var todo []noise.ID
	for _, id := range start {
		if m := byKey[id.ID]; m != nil {
			reach[id.ID] = id
			todo = append(todo, id)
		}
	}
	for len(todo) > 0 {
		m := byKey[todo[0].ID]
		todo = todo[1:]
		if !m.habit.answers() {
			continue
		}
		for _, id := range m.knows {
			if _, there := reach[id.ID]; !there && byKey[id.ID] != nil && id.ID != target && id.ID != b.ID().ID {
				reach[id.ID] = id
				todo = append(todo, id)
			}
		}
	}
	var answered []noise.ID
	for _, m := range ms {
		if m.wrong != "" {
			vsched.Fail("a peer is asked wrongly: %s", m.wrong)
		}
		_, r := reach[m.id.ID]
		if m.asked > 1 {
			vsched.Fail("a peer that %s was asked %d times", habitNames[m.habit], m.asked)
		}
		// The key looked for may itself be asked, or not, when it is heard of.
		if m.id.ID == target && m.asked == 0 && !inTable(start, target) {
			continue
		}
		if m.id.ID != target && !r && m.asked > 0 {
			vsched.Fail("a peer was asked that nobody answered with")
		}
		if r && m.asked == 0 && m.habit != hRefuses && m.habit != hHangs && m.habit != hNoHandshake && m.habit != hImposter {
			vsched.Fail("a peer that %s was not asked", habitNames[m.habit])
		}
		if r && m.conns == 0 && m.habit != hRefuses && m.habit != hHangs {
			vsched.Fail("a peer that %s was not connected to", habitNames[m.habit])
		}
		if m.habit.answers() && m.asked > 0 {
			answered = append(answered, m.id)
		}
		if m.habit == hImposter && m.asked > 0 {
			vsched.Fail("somebody else than the peer was asked")
		}
	}
	res := nearest(answered, target)
	if len(res) > max {
		res = res[:max]
	}
	if !sameList(got, res) {
		vsched.Fail("looking for %v: got %s instead of %s", target, brief(got), brief(res))
	}
	vsched.Fact(fmt.Sprintf("%d results", len(got)))
}

func inTable(ids []noise.ID, k noise.PublicKey) bool {
	for _, id := range ids {
		if id.ID == k {
			return true
		}
	}
	return false
}

// nearest is ids ordered by distance to target.
func nearest(ids []noise.ID, target noise.PublicKey) []noise.ID {
	out := append([]noise.ID{}, ids...)
	for i := range out {
		for j := i; j > 0 && nearer(target, out[j].ID, out[j-1].ID); j-- {
			out[j], out[j-1] = out[j-1], out[j]
		}
	}
	return out
}

func targets(b *noise.Node, ms []*member) []noise.PublicKey {
	out := []noise.PublicKey{b.ID().ID, keyFrom(2000).Public(), keyFrom(2001).Public(), {}}
	for _, m := range ms {
		out = append(out, m.id.ID)
	}
	return out
}

// graphs over three peers: who answers with whom.
func answerGraph(ms []*member, g int) {
	for i, m := range ms {
		for j, o := range ms {
			if g>>uint(i*len(ms)+j)&1 == 1 {
				m.knows = append(m.knows, o.id)
			}
		}
	}
}

var shapes3 = []struct {
	name         string
	graph, start int
}{
	{"line", 0b000_100_010, 0b001},
	{"ring", 0b001_100_010, 0b001},
	{"clique", 0b111_111_111, 0b001},
	{"star", 0b000_000_110, 0b001},
	{"all known", 0b011_101_110, 0b111},
	{"two known", 0b000_100_100, 0b011},
	{"nothing to hear", 0, 0b111},
}

func init() {
	settings := []setting{{1, 1}, {2, 1}, {0, 0}, {1, 3}}
	mc.Add(mc.Scenario{
		Prop: "C25", Name: "c25-graphs", Doc: "lookups among three peers that answer: all 512 answer graphs, all tables, 7 targets, 4 settings of parallelism",
		Run: func() {
			vsched.QuietOn()
			g, start, st := vsched.Pick(512), vsched.Pick(8), settings[vsched.Pick(len(settings))]
			b, k := seeker()
			ms := []*member{newMember(procC, 0), newMember(procD, 1), newMember(procD+1, 2)}
			ts := targets(b, ms)
			t := ts[vsched.Pick(len(ts))]
			answerGraph(ms, g)
			for i, m := range ms {
				if start>>uint(i)&1 == 1 {
					k.Table().Update(m.id) //nolint
				}
			}
			lookup(b, k, ms, t, -1, st.opts()...)
		},
		Quick: mc.Bounds{Cost: 0, Policies: []int{0}}, Thorough: mc.Bounds{Cost: 0, Policies: []int{0, 1, 2}}, MaxSteps: 20000,
	})
	mc.Add(mc.Scenario{
		Prop: "C25", Name: "c25-habits", Doc: fmt.Sprintf("lookups among three peers, each of which reacts in one of %d ways, in %d overlays, under 3 settings of parallelism", numHabits, len(shapes3)),
		Run: func() {
			vsched.QuietOn()
			b, k := seeker()
			ms := []*member{newMember(procC, 0), newMember(procD, 1), newMember(procD+1, 2)}
			for _, m := range ms {
				m.habit = habit(vsched.Pick(int(numHabits)))
			}
			sh, st := shapes3[vsched.Pick(len(shapes3))], settings[vsched.Pick(3)]
			answerGraph(ms, sh.graph)
			for i, m := range ms {
				if sh.start>>uint(i)&1 == 1 {
					k.Table().Update(m.id) //nolint
				}
			}
			lookup(b, k, ms, keyFrom(2000).Public(), -1, st.opts()...)
		},
		Quick: mc.Bounds{Cost: 0, Policies: []int{0}}, Thorough: mc.Bounds{Cost: 0, Policies: []int{0, 1, 2}}, MaxSteps: 20000,
	})
	mc.Add(mc.Scenario{
		Prop: "C25", Name: "c25-schedules", Doc: fmt.Sprintf("lookups among three peers that answer, or of which one refuses, is silent or closes the connection, in %d overlays, under 3 settings of parallelism and all schedules", len(shapes3)),
		Run: func() {
			var k *kademlia.Protocol
			var b *noise.Node
			var ms []*member
			vsched.Quiet(func() {
				b, k = seeker()
				ms = []*member{newMember(procC, 0), newMember(procD, 1), newMember(procD+1, 2)}
			})
			if odd := vsched.Pick(4); odd > 0 {
				ms[vsched.Pick(3)].habit = []habit{0, hRefuses, hSilent, hCloses}[odd]
			}
			sh, st := shapes3[vsched.Pick(len(shapes3))], settings[vsched.Pick(3)]
			answerGraph(ms, sh.graph)
			for i, m := range ms {
				if sh.start>>uint(i)&1 == 1 {
					k.Table().Update(m.id) //nolint
				}
			}
			lookup(b, k, ms, keyFrom(2000).Public(), -1, st.opts()...)
		},
		StmtsThorough: true,
		Quick:         mc.Bounds{Cost: 1, Policies: []int{0}, Weight: 2}, Thorough: mc.Bounds{Cost: 1, Policies: []int{0, 1, 2}, Weight: 3}, MaxSteps: 20000,
	})
	mc.Add(mc.Scenario{
		Prop: "C25", Name: "c25-pair", Doc: "a lookup among two peers, one of which answers, refuses, is silent, closes the connection or is somebody else, in 4 overlays, under 3 settings of parallelism and all schedules, at a deeper bound",
		Run: func() {
			var k *kademlia.Protocol
			var b *noise.Node
			var ms []*member
			vsched.Quiet(func() {
				b, k = seeker()
				ms = []*member{newMember(procC, 0), newMember(procD, 1)}
			})
			ms[1].habit = []habit{hAnswers, hRefuses, hSilent, hCloses, hImposter}[vsched.Pick(5)]
			st := settings[vsched.Pick(3)]
			answerGraph(ms, []int{0b0000, 0b0010, 0b1111}[vsched.Pick(3)])
			k.Table().Update(ms[0].id) //nolint
			if vsched.Pick(2) == 1 {
				k.Table().Update(ms[1].id) //nolint
			}
			lookup(b, k, ms, keyFrom(2000).Public(), -1, st.opts()...)
		},
		StmtsThorough: true,
		Quick:         mc.Bounds{Cost: 1, Policies: []int{0, 1}}, Thorough: mc.Bounds{Cost: 2, Policies: []int{0}, Weight: 4}, MaxSteps: 20000,
	})
	mc.Add(mc.Scenario{
		Prop: "C25", Name: "c25-step", Doc: "a lookup in which one peer names another one, or two name the same one, asked one at a time or together",
		Run: func() {
			var k *kademlia.Protocol
			var b *noise.Node
			var ms []*member
			vsched.Quiet(func() {
				b, k = seeker()
				ms = []*member{newMember(procC, 0), newMember(procD, 1), newMember(procD+1, 2)}
			})
			st := settings[vsched.Pick(2)]
			answerGraph(ms, 0b000_100_100)
			k.Table().Update(ms[0].id) //nolint
			if vsched.Pick(2) == 1 {
				k.Table().Update(ms[1].id) //nolint
			}
			lookup(b, k, ms, keyFrom(2000).Public(), -1, st.opts()...)
		},
		Quick: mc.Bounds{Cost: 1, Policies: []int{2}}, Thorough: mc.Bounds{Cost: 2, Policies: []int{0}}, MaxSteps: 20000,
	})
	mc.Add(mc.Scenario{
		Prop: "C25", Name: "c25-answers", Doc: "a peer answers with all sequences of up to 3 out of: itself, the seeker, the key looked for, another peer, that peer at the address of a third, the third, a zero key, nobody's key, an unreachable address",
		Run: func() {
			vsched.QuietOn()
			b, k := seeker()
			ms := []*member{newMember(procC, 0), newMember(procD, 1), newMember(procD+1, 2), newMember(procD+2, 3)}
			k.Table().Update(ms[0].id) //nolint
			dead := noise.NewID(keyFrom(7).Public(), net.IPv4(10, 9, 8, 7), 6)
			elsewhere := ms[1].id
			elsewhere = noise.NewID(elsewhere.ID, elsewhere.Host, port(ms[2].l))
			at := noise.NewID(keyFrom(8).Public(), net.IPv4(127, 0, 0, 1), port(ms[2].l))
			none := noise.ID{}
			pool := []noise.ID{ms[0].id, b.ID(), ms[3].id, ms[1].id, elsewhere, ms[2].id, none, at, dead}
			n := vsched.Pick(4)
			bad := false
			first := map[noise.PublicKey]bool{}
			for i := 0; i < n; i++ {
				id := pool[vsched.Pick(len(pool))]
				if id.ID == elsewhere.ID && !first[id.ID] {
					first[id.ID] = true
					bad = id.Port == elsewhere.Port
				}
				ms[0].knows = append(ms[0].knows, id)
			}
			if bad {
				ms[1].habit = hRefuses // it is heard of at a wrong address first
			}
			if vsched.Pick(2) == 1 {
				ms[2].knows = ms[0].knows
			}
			st := settings[vsched.Pick(3)]
			lookup(b, k, ms, ms[3].id.ID, -1, st.opts()...)
		},
		Quick: mc.Bounds{Cost: 0, Policies: []int{0}}, Thorough: mc.Bounds{Cost: 1, Policies: []int{0, 1}}, MaxSteps: 20000,
	})
	mc.Add(mc.Scenario{
		Prop: "C25", Name: "c25-many", Doc: "lookups among 24 peers: many tables, 4 answer graphs, 6 limits of results, 8 settings of parallelism, 3 targets",
		Run: func() {
			vsched.QuietOn()
			b, k := seeker()
			var ms []*member
			for i := 0; i < 24; i++ {
				ms = append(ms, newMember(procC+i, i))
			}
			inTab := []int{0, 1, 4, 15, 16, 17, 24}[vsched.Pick(7)]
			for i := 0; i < inTab; i++ {
				k.Table().Update(ms[i].id) //nolint
			}
			graph := vsched.Pick(4)
			for i, m := range ms {
				for j, o := range ms {
					if graph == 0 && j == (i+1)%24 || graph == 1 || graph == 2 && (j == 2*i+1 || j == 2*i+2) || graph == 3 && i < 2 {
						m.knows = append(m.knows, o.id)
					}
				}
			}
			switch vsched.Pick(3) {
			case 1:
				for i := 3; i < 24; i += 4 {
					ms[i].habit = hRefuses
				}
			case 2:
				for i := 1; i < 24; i += 3 {
					ms[i].habit = []habit{hSilent, hCloses, hNoHandshake, hLate}[i/3%4]
				}
			}
			max := []int{-1, 0, 1, 2, 17, 40}[vsched.Pick(6)]
			st := []setting{{0, 0}, {1, 1}, {1, 2}, {2, 1}, {4, 1}, {24, 24}, {3, 2}, {30, 1}}[vsched.Pick(8)]
			t := []noise.PublicKey{b.ID().ID, keyFrom(2000).Public(), ms[5].id.ID}[vsched.Pick(3)]
			lookup(b, k, ms, t, max, st.opts()...)
		},
		Quick: mc.Bounds{Cost: 0, Policies: []int{0}, Weight: 2}, Thorough: mc.Bounds{Cost: 0, Policies: []int{0, 1, 2}}, MaxSteps: 60000,
	})
	mc.Add(mc.Scenario{
		Prop: "C25", Name: "c25-real", Doc: "three or four nodes of the library in all connected topologies look for each other, and for keys nobody has: everybody finds everybody it can hear of",
		Run: func() {
			vsched.QuietOn()
			n := 3 + vsched.Pick(2)
			edges := n * (n - 1) / 2
			mask := vsched.Pick(1 << 6)
			if mask >= 1<<uint(edges) || !connected(n, mask) {
				vsched.Discard("topology")
			}
			var ns []*noise.Node
			var ks []*kademlia.Protocol
			for i := 0; i < n; i++ {
				b := newNode(procA+i, noise.WithNodeMaxDialAttempts(1))
				k := kademlia.New()
				b.Bind(k.Protocol())
				listen(procA+i, b)
				ns, ks = append(ns, b), append(ks, k)
			}
			e := 0
			for i := 0; i < n; i++ {
				for j := i + 1; j < n; j++ {
					if mask>>uint(e)&1 == 1 {
						i, j := i, j
						join(spawn(procA+i, func() {
							_, err := ns[i].Ping(bg(), ns[j].Addr())
							must(err)
						}))
					}
					e++
				}
			}
			vsched.Quiesce()
			who := vsched.Pick(n)
			target := []noise.PublicKey{ns[who].ID().ID, keyFrom(2000).Public(), ns[(who+1)%n].ID().ID}[vsched.Pick(3)]
			var got []noise.ID
			join(spawn(procA+who, func() { got = ks[who].Find(target) }))
			vsched.Quiesce()
			// Everybody that can be heard of; not what only the target itself could tell, unless it is known to begin with.
			known := inTable(ks[who].Table().Entries(), target)
			reach := map[int]bool{who: true}
			for r := 0; r < n; r++ {
				e := 0
				for i := 0; i < n; i++ {
					for j := i + 1; j < n; j++ {
						for _, p := range [][2]int{{i, j}, {j, i}} {
							from, to := ns[p[0]].ID().ID, p[1]
							if mask>>uint(e)&1 == 1 && reach[p[0]] && (from != target || known || p[0] == who) {
								reach[to] = true
							}
						}
						e++
					}
				}
			}
			var all []noise.ID
			for i, b := range ns {
				if reach[i] && i != who && b.ID().ID != target {
					all = append(all, b.ID())
				}
			}
			want := nearest(all, target)
			if target != ns[who].ID().ID && known {
				// The target itself may be among the results if it is known to begin with, and if so comes first.
				if len(got) > 0 && got[0].ID == target {
					got = got[1:]
				}
			}
			if !sameList(got, want) {
				vsched.Fail("node %d of %d, topology %b: found %s instead of %s", who, n, mask, brief(got), brief(want))
			}
		},
		Quick: mc.Bounds{Cost: 0, Policies: []int{0, 1}}, Thorough: mc.Bounds{Cost: 1, Policies: []int{0, 1}}, MaxSteps: 60000, Native: 8,
	})
	mc.Add(mc.Scenario{
		Prop: "C25", Name: "c25-at-once", Doc: "two lookups for different keys run at once through the same three peers, under all schedules: each has the result it has alone",
		Run: func() {
			var k *kademlia.Protocol
			var ms []*member
			sh := shapes3[vsched.Pick(len(shapes3))]
			st := settings[vsched.Pick(3)]
			vsched.Quiet(func() {
				_, k = seeker()
				ms = []*member{newMember(procC, 0), newMember(procD, 1), newMember(procD+1, 2)}
				answerGraph(ms, sh.graph)
				for i, m := range ms {
					if sh.start>>uint(i)&1 == 1 {
						k.Table().Update(m.id) //nolint
					}
					m.serve(procC+i, noise.ZeroPublicKey)
				}
			})
			ts := []noise.PublicKey{keyFrom(2000).Public(), keyFrom(2001).Public()}
			var got [2][]noise.ID
			var ds []chan struct{}
			for i := range ts {
				i := i
				ds = append(ds, spawn(procB, func() { got[i] = k.Find(ts[i], st.opts()...) }))
			}
			join(ds...)
			vsched.Mark()
			all := 0
			for {
				next := all
				for i := range ms {
					if sh.start>>uint(i)&1 == 1 {
						next |= 1 << uint(i)
					}
					if next>>uint(i)&1 == 1 {
						next |= sh.graph >> uint(3*i) & 7
					}
				}
				if next == all {
					break
				}
				all = next
			}
			var ids []noise.ID
			for i, m := range ms {
				if all>>uint(i)&1 == 1 {
					ids = append(ids, m.id)
				}
			}
			for i, t := range ts {
				want := nearest(ids, t)
				if !sameList(got[i], want) {
					vsched.Fail("%s: lookup %d found %s instead of %s", sh.name, i, brief(got[i]), brief(want))
				}
			}
		},
		StmtsThorough: true,
		Quick:         mc.Bounds{Cost: 1, Policies: []int{0}, Weight: 2}, Thorough: mc.Bounds{Cost: 1, Policies: []int{0, 1, 2}, Weight: 3}, MaxSteps: 20000,
	})
	mc.Add(mc.Scenario{
		Prop: "C25", Name: "c25-leaves-nothing", Doc: "after lookups that run into timeouts, refusals and garbage nothing of them remains, and the next lookup works",
		Run: func() {
			vsched.QuietOn()
			b, k := seeker()
			ms := []*member{newMember(procC, 0), newMember(procD, 1)}
			ms[1].habit = habit(vsched.Pick(int(numHabits)))
			k.Table().Update(ms[0].id) //nolint
			k.Table().Update(ms[1].id) //nolint
			st := settings[vsched.Pick(3)]
			t := keyFrom(2000).Public()
			for i, m := range ms {
				m.serve(procC+i, t)
			}
			rounds := 1 + vsched.Pick(3)
			for r := 0; r < rounds; r++ {
				k.Table().Update(ms[1].id) //nolint
				var got []noise.ID
				join(spawn(procB, func() { got = k.Find(t, st.opts()...) }))
				want := []noise.ID{ms[0].id}
				if ms[1].habit.answers() {
					want = append(want, ms[1].id)
				}
				if ms[1].habit == hImposter && r > 0 { // who is at the address is now known as itself
					want = append(want, noise.NewID(keyFrom(1000).Public(), ms[1].id.Host, ms[1].id.Port))
				}
				if want = nearest(want, t); !sameList(got, want) {
					vsched.Fail("round %d: got %s instead of %s", r, brief(got), brief(want))
				}
			}
			for _, c := range b.Outbound() {
				c := c
				in(procB, func() { c.Close() })
			}
			released(procB, 2, 1, fmt.Sprintf("%d lookups after which a peer %s:", rounds, habitNames[ms[1].habit]))
		},
		Quick: mc.Bounds{Cost: 0, Policies: []int{0, 1}}, Thorough: mc.Bounds{Cost: 1, Policies: []int{0, 1}}, MaxSteps: 20000,
	})
}

// connected: the graph of n nodes with the edges of mask is connected.
func connected(n, mask int) bool {
	in := 1
	for r := 0; r < n; r++ {
		e := 0
		for i := 0; i < n; i++ {
			for j := i + 1; j < n; j++ {
				if mask>>uint(e)&1 == 1 && (in>>uint(i)&1 == 1 || in>>uint(j)&1 == 1) {
					in |= 1<<uint(i) | 1<<uint(j)
				}
				e++
			}
		}
	}
	return in == 1<<uint(n)-1
}
