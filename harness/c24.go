package main

import (
	"crypto/ed25519"
	"encoding/binary"
	"fmt"
	"net"
	"time"

	"github.com/perlin-network/noise"
	"github.com/perlin-network/noise/kademlia"
	"verif.local/rt/mc"
	"verif.local/rt/vnet"
	"verif.local/rt/vsched"
)

var seedKeys = map[int]noise.PrivateKey{}

// keyFrom is the key that grows from seed.
func keyFrom(seed int) noise.PrivateKey {
	defer guard()()
	k, ok := seedKeys[seed]
	if !ok {
		var s [ed25519.SeedSize]byte
		binary.BigEndian.PutUint64(s[:], uint64(seed)+1)
		copy(k[:], ed25519.NewKeyFromSeed(s[:])) // not by the library, for what is cached must not be part of executions
		seedKeys[seed] = k
	}
	return k
}

// bucketKeys are n keys of the given bucket of owner's table.
func bucketKeys(owner noise.PublicKey, bucket, n int) []noise.PrivateKey {
	var out []noise.PrivateKey
	t := rtable{self: owner}
	for s := 0; len(out) < n; s++ {
		if k := keyFrom(s); t.at(k.Public()) == bucket {
			out = append(out, k)
		}
	}
	return out
}

// ledger counts a node's notifications about admissions.
type ledger struct {
	admitted, evicted, active map[noise.PublicKey]int
	before                    map[noise.PublicKey]bool
}

func (l *ledger) events() kademlia.Events {
	l.admitted, l.evicted, l.active = map[noise.PublicKey]int{}, map[noise.PublicKey]int{}, map[noise.PublicKey]int{}
	return kademlia.Events{
		OnPeerAdmitted: func(id noise.ID) { defer guard()(); vsched.Mark(); l.admitted[id.ID]++ },
		OnPeerEvicted:  func(id noise.ID) { defer guard()(); vsched.Mark(); l.evicted[id.ID]++ },
		OnPeerActivity: func(id noise.ID) { defer guard()(); vsched.Mark(); l.active[id.ID]++ },
	}
}

// open notes what is in the table without a notification.
func (l *ledger) open(t *kademlia.Table) {
	l.before = map[noise.PublicKey]bool{}
	for _, id := range t.Entries() {
		l.before[id.ID] = true
	}
}

// balance checks that notifications add up to the content of the table.
func (l *ledger) balance(t *kademlia.Table, when string) {
	defer guard()()
	now := map[noise.PublicKey]bool{}
	for _, id := range t.Entries() {
		if now[id.ID] {
			vsched.Fail("%s: peer %v is in the table twice", when, id)
		}
		now[id.ID] = true
		if n := len(t.Bucket(id.ID)); n > 16 {
			vsched.Fail("%s: a bucket has %d entries", when, n)
		}
	}
	if n := t.NumEntries(); n != len(now) {
		vsched.Fail("%s: %d entries are counted as %d", when, len(now), n)
	}
	all := map[noise.PublicKey]bool{}
	for _, m := range []map[noise.PublicKey]int{l.admitted, l.evicted} {
		for k := range m {
			all[k] = true
		}
	}
	for _, m := range []map[noise.PublicKey]bool{now, l.before} {
		for k := range m {
			all[k] = true
		}
	}
	for k := range all {
		want := b2i(now[k]) - b2i(l.before[k])
		if got := l.admitted[k] - l.evicted[k]; got != want {
			vsched.Fail("%s: peer %v was admitted %d times and evicted %d times; it was in the table: %v, it is: %v", when, k, l.admitted[k], l.evicted[k], l.before[k], now[k])
		}
	}
}

// kadNode is a started node of process B with an overlay whose notifications go to l.
func kadNode(l *ledger, opts ...noise.NodeOption) (*noise.Node, *kademlia.Protocol) {
	n := newNode(procB, opts...)
	k := kademlia.New(kademlia.WithProtocolEvents(l.events()))
	n.Bind(k.Protocol())
	n.Handle(qa)
	listen(procB, n)
	return n, k
}

// How the peer whose turn it is takes a ping.
const (
	tailAlive = iota
	tailRefuses
	tailSilent
	tailFindRes
	tailGarbled
	tailEmpty
	tailNoHandshake
	tailCloses
	tailClosesLater
	tailHangs
	tailAnswersTwice
	tailPlainPong
	numTails
)

var tailNames = [...]string{"answers", "refuses connections", "is silent", "answers with a lookup response", "answers with an unknown message", "answers with nothing", "does not shake hands",
	"closes the connection", "closes the connection instead of answering", "does not react to dialling", "answers twice", "sends a pong that is not an answer"}

func (k tail) lives() bool { return k == tailAlive || k == tailAnswersTwice }

// babbles: sends something instead of an answer, or takes the ping and fails before the node notes that it was sent.
func (k tail) babbles() bool {
	return k == tailFindRes || k == tailGarbled || k == tailEmpty || k == tailPlainPong || k == tailClosesLater
}

type tail int

// serveTail has process g play a peer with key k that takes pings in way t.
func serveTail(g int, l net.Listener, k noise.PrivateKey, t tail) {
	if t == tailRefuses {
		vnet.OnDial(l.Addr().String(), func(int) vnet.Action { return vnet.Refuse })
	}
	if t == tailHangs {
		vnet.OnDial(l.Addr().String(), func(int) vnet.Action { return vnet.Hang })
	}
	id := noise.NewID(k.Public(), net.IPv4(127, 0, 0, 1), port(l))
	rawAccept(g, l, func(i int, p *rawPeer) {
		if t == tailNoHandshake {
			p.drain()
			return
		}
		if t == tailCloses {
			p.conn.Close()
			return
		}
		if p.shake(byte(0x40+i), id, k) != nil {
			return
		}
		for {
			n, _, err := p.recv()
			if err != nil {
				return
			}
			switch t {
			case tailAlive:
				p.send(n, typed(opPong, nil))
			case tailAnswersTwice:
				p.send(n, typed(opPong, nil))
				p.send(n, typed(opPong, nil))
			case tailFindRes:
				p.send(n, typed(opFindRes, []byte{0}))
			case tailGarbled:
				p.send(n, typed(77, []byte{1, 2, 3}))
			case tailEmpty:
				p.send(n, nil)
			case tailClosesLater:
				p.conn.Close()
				return
			case tailPlainPong:
				p.send(0, typed(opPong, nil))
			}
		}
	})
}

func names(ids []noise.ID, known map[noise.PublicKey]string) (out []string) {
	for _, id := range ids {
		out = append(out, known[id.ID])
	}
	return
}

func init() {
	mc.Add(mc.Scenario{
		Prop: "C24", Name: "c24-full", Doc: fmt.Sprintf("a newcomer connects, or is connected to, while its bucket is full and the least recently active peer reacts to pings in one of %d ways: who is in the bucket then, in which order, and what was notified", numTails),
		Run: func() {
			kind := tail(vsched.Pick(int(numTails)))
			dialled := vsched.Pick(2) == 1
			var l ledger
			var b *noise.Node
			var k *kademlia.Protocol
			known := map[noise.PublicKey]string{}
			vsched.QuietOn()
			b, k = kadNode(&l)
			ks := bucketKeys(b.ID().ID, 0, 17)
			tl, taddr := rawListen(procC)
			serveTail(procC, tl, ks[0], kind)
			k.Table().Update(noise.NewID(ks[0].Public(), net.IPv4(127, 0, 0, 1), port(tl))) //nolint
			known[ks[0].Public()] = "tail"
			var rest []string
			for i := 1; i < 16; i++ {
				k.Table().Update(noise.NewID(ks[i].Public(), net.IPv4(10, 0, 0, byte(i)), 7)) //nolint
				known[ks[i].Public()] = fmt.Sprint(i)
				rest = append([]string{fmt.Sprint(i)}, rest...)
			}
			known[ks[16].Public()] = "newcomer"
			l.open(k.Table())
			nl, naddr := rawListen(procD)
			nid := noise.NewID(ks[16].Public(), net.IPv4(127, 0, 0, 1), port(nl))
			var p *rawPeer
			var err error
			if !dialled {
				p, err = rawDial(b.Addr())
				must(err)
			}
			vsched.QuietOff()
			if dialled {
				rawAccept(procD, nl, func(i int, p *rawPeer) {
					must(p.shake(9, nid, ks[16]))
					p.drain()
				})
				join(spawn(procB, func() {
					if _, err := b.Ping(timeout(time.Minute), naddr); err != nil {
						vsched.Fail("the newcomer cannot be connected to: %v", err)
					}
				}))
			} else {
				spawn(procD, func() {
					must(p.shake(9, nid, ks[16]))
					p.drain()
				})
			}
			vsched.Quiesce()
			vsched.Settle() // a ping may have to run into its timeout
			got := fmt.Sprint(names(k.Table().Bucket(ks[0].Public()), known))
			want := fmt.Sprint(append([]string{"newcomer"}, rest...))
			if kind.lives() {
				want = fmt.Sprint(append([]string{"tail"}, rest...))
			}
			// What a peer sends instead of an answer, or is sent, is traffic that has it admitted, as any other peer, if
			// that is noted after its eviction; the next in turn is dead.
			if kind.babbles() && k.Table().Recorded(ks[0].Public()) {
				vsched.Fact("admitted again")
				want = fmt.Sprint(append([]string{"tail", "newcomer"}, rest[:14]...))
				if l.evicted[ks[0].Public()] != 1 {
					vsched.Fail("the least recently active peer %s, and is evicted %d times", tailNames[kind], l.evicted[ks[0].Public()])
				}
				if got != want {
					want = fmt.Sprint(append([]string{"newcomer", "tail"}, rest[:14]...))
				}
			}
			if got != want {
				vsched.Fail("the least recently active peer %s; the bucket is %s instead of %s", tailNames[kind], got, want)
			}
			l.balance(k.Table(), tailNames[kind])
			if n := l.admitted[ks[16].Public()]; n != b2i(!kind.lives()) {
				vsched.Fail("the newcomer was admitted %d times", n)
			}
			pinged := false
			for _, d := range vnet.Dials() {
				if d == taddr {
					pinged = true
				}
				if d != taddr && d != naddr && !kind.babbles() && d != "127.0.0.1:"+fmt.Sprint(b.ID().Port) {
					vsched.Fail("the node dials %s", d)
				}
			}
			if !pinged {
				vsched.Fail("the least recently active peer was not pinged")
			}
		},
		Quick: mc.Bounds{Cost: 2, Policies: []int{0}}, Thorough: mc.Bounds{Cost: 3, Policies: []int{0, 1}},
	})
	recency := func(steps int, quiet bool) func() {
		return func() {
			var l ledger
			vsched.QuietOn()
			b, k := kadNode(&l)
			l.open(k.Table())
			ks := bucketKeys(b.ID().ID, 0, 3)
			type peer struct {
				id   noise.ID
				addr string
				l    net.Listener
				out  *rawPeer // its connection to the node
				down bool
				in   int // exchanges it took part in
			}
			var ps []*peer
			vnetDown := map[string]*peer{}
			for i, key := range ks {
				p := &peer{}
				p.l, p.addr = rawListen(procC + i)
				p.id = noise.NewID(key.Public(), net.IPv4(127, 0, 0, 1), port(p.l))
				ps = append(ps, p)
				vnetDown[p.addr] = p
				vnet.OnDial(p.addr, func(int) vnet.Action {
					if p.down {
						return vnet.Refuse
					}
					return vnet.Connect
				})
				serveTail(procC+i, p.l, key, tailAlive)
			}
			var order []int // of the bucket
			drop := func(i int) {
				for j, x := range order {
					if x == i {
						order = append(append([]int{}, order[:j]...), order[j+1:]...)
					}
				}
			}
			if !quiet {
				vsched.QuietOff()
			}
			for step := 0; step < steps; step++ {
				i := vsched.Pick(len(ps))
				op := vsched.Pick(5)
				p := ps[i]
				switch op {
				case 0, 1: // the peer sends
					if p.out == nil {
						var err error
						p.out, err = rawDial(b.Addr())
						must(err)
						join(spawn(procC+i, func() { must(p.out.shake(byte(0x70+i), p.id, ks[i])) }))
						out := p.out
						if op == 0 {
							spawn(procC+i, func() { out.drain() })
						}
					}
					join(spawn(procC+i, func() { must(p.out.send(uint64(op*5), typed(opPing, nil))) }))
					if op == 0 {
						p.out = nil // a ping that is not a request ends the connection
					}
				case 2, 3: // the node sends
					join(spawn(procB, func() {
						if op == 2 {
							if err := b.Send(bg(), p.addr, []byte("m")); err != nil {
								vsched.Fail("send: %v", err)
							}
						} else if err := k.Ping(timeout(time.Minute), p.addr); err != nil {
							vsched.Fail("ping: %v", err)
						}
					}))
				case 4: // the peer cannot be reached
					for _, c := range b.Outbound() {
						c := c
						in(procB, func() { c.Close() })
					}
					vsched.Quiesce()
					p.down = true
					join(spawn(procB, func() {
						if _, err := b.Ping(bg(), p.id.Address); err == nil {
							vsched.Fail("a peer that is down is reached")
						}
					}))
					p.down = false
				}
				vsched.Quiesce()
				drop(i)
				if op != 4 {
					order = append([]int{i}, order...)
				}
				var want, got []string
				for _, x := range order {
					want = append(want, ps[x].addr)
				}
				for _, id := range k.Table().Bucket(ks[0].Public()) {
					got = append(got, fmt.Sprintf("127.0.0.1%s", id.Address))
				}
				if fmt.Sprint(got) != fmt.Sprint(want) {
					vsched.Fail("after exchange %d of kind %d with peer %s the bucket is %v instead of %v", step, op, p.addr, got, want)
				}
				l.balance(k.Table(), fmt.Sprintf("after exchange %d of kind %d", step, op))
			}
		}
	}
	mc.Add(mc.Scenario{
		Prop: "C24", Name: "c24-recency", Doc: "all sequences of 4 exchanges with three peers of a bucket, each in one of both directions, by message or request, or a failure to dial: who is in the bucket, and in which order",
		Run:   recency(4, true),
		Quick: mc.Bounds{Cost: 0, Policies: []int{0}}, Thorough: mc.Bounds{Cost: 0, Policies: []int{0, 1, 2}},
	})
	mc.Add(mc.Scenario{
		Prop: "C24", Name: "c24-recency-schedules", Doc: "all sequences of 2 of them, under all schedules",
		Run:   recency(2, false),
		Quick: mc.Bounds{Cost: 0, Policies: []int{0}}, Thorough: mc.Bounds{Cost: 1, Policies: []int{0, 1}},
	})
	mc.Add(mc.Scenario{
		Prop: "C24", Name: "c24-rush", Doc: "two newcomers of a full bucket connect at once, the two least recently active peers are alive, refuse connections, or are silent: nobody who answers is evicted, as many are admitted as are evicted, notifications add up",
		Run: func() {
			kinds := []tail{[]tail{tailAlive, tailRefuses, tailSilent}[vsched.Pick(3)], []tail{tailAlive, tailRefuses, tailSilent}[vsched.Pick(3)]}
			var l ledger
			vsched.QuietOn()
			b, k := kadNode(&l, noise.WithNodeMaxDialAttempts(1))
			ks := bucketKeys(b.ID().ID, 0, 18)
			known := map[noise.PublicKey]string{}
			for i := 0; i < 16; i++ {
				id := noise.NewID(ks[i].Public(), net.IPv4(10, 0, 0, byte(i)), 7)
				known[ks[i].Public()] = fmt.Sprint(i)
				if i < 2 {
					tl, _ := rawListen(procC + i)
					serveTail(procC+i, tl, ks[i], kinds[i])
					id = noise.NewID(ks[i].Public(), net.IPv4(127, 0, 0, 1), port(tl))
					known[ks[i].Public()] = fmt.Sprintf("%d (%s)", i, tailNames[kinds[i]])
				}
				k.Table().Update(id) //nolint
			}
			l.open(k.Table())
			var ps [2]*rawPeer
			for i := range ps {
				var err error
				ps[i], err = rawDial(b.Addr())
				must(err)
				known[ks[16+i].Public()] = fmt.Sprintf("newcomer %d", i)
			}
			vsched.QuietOff()
			for i := range ps {
				i := i
				spawn(procX, func() {
					must(ps[i].shake(byte(9+i), rawIDOf(ks[16+i], uint16(1+i)), ks[16+i]))
					ps[i].drain()
				})
			}
			vsched.Settle()
			l.balance(k.Table(), "after two newcomers")
			bucket := k.Table().Bucket(ks[0].Public())
			if len(bucket) != 16 {
				vsched.Fail("the bucket has %d entries: %v", len(bucket), names(bucket, known))
			}
			in, out := 0, 0
			for i := 0; i < 18; i++ {
				there := k.Table().Recorded(ks[i].Public())
				if i >= 16 {
					in += b2i(there)
				} else if !there {
					out++
					if i > 1 || kinds[i].lives() {
						vsched.Fail("peer %s was evicted: %v", known[ks[i].Public()], names(bucket, known))
					}
				}
			}
			if in != out {
				vsched.Fail("%d evicted, %d admitted", out, in)
			}
			dead := b2i(!kinds[0].lives()) + b2i(!kinds[1].lives())
			// A newcomer is turned down only because a peer answered.
			if dead == 2 && in != 2 || dead == 0 && in != 0 || !kinds[0].lives() && in < 1 {
				vsched.Fail("%d newcomers were admitted while the least recently active peers were %s, %s", in, tailNames[kinds[0]], tailNames[kinds[1]])
			}
			vsched.Fact(fmt.Sprintf("%d in for %d dead", in, dead))
		},
		Quick: mc.Bounds{Cost: 1, Policies: []int{0}}, Thorough: mc.Bounds{Cost: 2, Policies: []int{0, 1}},
	})
	mc.Add(mc.Scenario{
		Prop: "C24", Name: "c24-comes-and-goes", Doc: "a peer connects, sends and disconnects while two threads of the node fail to dial it: notifications add up, and it ends in the table if and only if its last exchange came last",
		Run: func() {
			var l ledger
			vsched.QuietOn()
			b, k := kadNode(&l, noise.WithNodeMaxDialAttempts(1))
			l.open(k.Table())
			pl, addr := rawListen(procC)
			pl.Close()
			id := noise.NewID(key(procC).Public(), net.IPv4(127, 0, 0, 1), port(pl))
			known := vsched.Pick(2) == 1
			if known {
				p, err := rawDial(b.Addr())
				must(err)
				in(procC, func() { must(p.shake(3, id, key(procC))) })
				vsched.Quiesce()
				if !k.Table().Recorded(id.ID) {
					vsched.Fail("a peer that connected is not in the table")
				}
				if vsched.Pick(2) == 1 {
					p.conn.Close()
					vsched.Quiesce()
				}
			}
			vsched.QuietOff()
			var ts []chan struct{}
			for i := 0; i < 2; i++ {
				ts = append(ts, spawn(procB, func() {
					if _, err := b.Ping(bg(), ":"+fmt.Sprint(port(pl))); err == nil {
						vsched.Fail("nobody is reached at %s", addr)
					}
				}))
			}
			ts = append(ts, spawn(procC, func() {
				p, err := rawDial(b.Addr())
				must(err)
				if p.shake(4, id, key(procC)) == nil {
					p.send(0, []byte("x"))
					p.conn.Close()
				}
			}))
			join(ts...)
			vsched.Settle()
			l.balance(k.Table(), "after coming and going")
			vsched.Fact(fmt.Sprintf("in the table: %v, admitted %d", k.Table().Recorded(id.ID), l.admitted[id.ID]))
			// Once more it fails to be dialled, for good.
			join(spawn(procB, func() { b.Ping(bg(), ":"+fmt.Sprint(port(pl))) }))
			vsched.Quiesce()
			if k.Table().Recorded(id.ID) {
				vsched.Fail("a peer that cannot be dialled remains in the table")
			}
			l.balance(k.Table(), "after a last failure")
		},
		Quick: mc.Bounds{Cost: 2, Policies: []int{0}}, Thorough: mc.Bounds{Cost: 3, Policies: []int{0, 1}},
	})
	mc.Add(mc.Scenario{
		Prop: "C24", Name: "c24-imposter", Doc: "at the address of the least recently active peer of a full bucket somebody else of the same bucket answers, or it is the address of a peer that is just connecting: the absent peer is evicted, everybody is served in the end, notifications add up",
		Run: func() {
			how := vsched.Pick(3)
			var l ledger
			vsched.QuietOn()
			b, k := kadNode(&l)
			ks := bucketKeys(b.ID().ID, 0, 18)
			tl, taddr := rawListen(procC)
			other := ks[17]
			if how == 1 {
				other = keyFrom(1) // of whatever bucket
			}
			serveTail(procC, tl, other, tailAlive)
			for i := 0; i < 16; i++ {
				id := noise.NewID(ks[i].Public(), net.IPv4(10, 0, 0, byte(i)), 7)
				if i == 0 {
					id = noise.NewID(ks[i].Public(), net.IPv4(127, 0, 0, 1), port(tl))
				}
				k.Table().Update(id) //nolint
			}
			l.open(k.Table())
			vsched.QuietOff()
			if how < 2 {
				p, err := rawDial(b.Addr())
				must(err)
				spawn(procD, func() {
					must(p.shake(9, rawIDOf(ks[16], 5), ks[16]))
					p.drain()
				})
			} else {
				join(spawn(procB, func() { b.Ping(timeout(time.Minute), taddr) }))
			}
			vsched.Settle()
			l.balance(k.Table(), "after an imposter")
			if n := len(k.Table().Bucket(ks[0].Public())); n != 16 {
				vsched.Fail("the bucket has %d entries", n)
			}
			if k.Table().Recorded(ks[0].Public()) {
				vsched.Fail("a peer remains in its bucket since somebody else answers at its address")
			}
			if how < 2 && !k.Table().Recorded(ks[16].Public()) {
				vsched.Fail("the newcomer was not admitted")
			}
			a := node(procA, nil)
			join(spawn(procA, func() {
				if got, err := a.Request(timeout(time.Minute), b.Addr(), []byte("q:x")); err != nil || string(got) != "a:q:x" {
					vsched.Fail("the node does not serve: %q %v", got, err)
				}
			}))
		},
		Quick: mc.Bounds{Cost: 2, Policies: []int{0}}, Thorough: mc.Bounds{Cost: 3, Policies: []int{0, 1}},
	})
}

func rawIDOf(k noise.PrivateKey, port uint16) noise.ID {
	return noise.NewID(k.Public(), net.IPv4(127, 0, 0, 1), port)
}
