package main

import (
	"errors"
	"fmt"
	"net"
	"strings"

	"github.com/perlin-network/noise"
	"github.com/perlin-network/noise/kademlia"
	"verif.local/rt/mc"
	"verif.local/rt/vsched"
)

// A cop is an operation on a shared table, with its result as text; fits tells whether the reference gives the same
// result, and applies the operation to it.
type cop struct {
	name string
	do   func(t *kademlia.Table) string
	ref  func(t *rtable, got string) bool
}

func list(ids []noise.ID) string {
	var s strings.Builder
	for _, id := range ids {
		s.WriteString(brief([]noise.ID{id}) + id.Address + " ")
	}
	return s.String()
}

func cUpdate(id noise.ID) cop {
	return cop{"Update " + id.Address,
		func(t *kademlia.Table) string {
			ins, err := t.Update(id)
			return fmt.Sprint(ins, err == nil, errors.Is(err, kademlia.ErrBucketFull))
		},
		func(t *rtable, got string) bool {
			ins, full := t.update(id)
			return got == fmt.Sprint(ins, !full, full)
		}}
}

func cDelete(id noise.ID) cop {
	return cop{"Delete " + id.Address,
		func(t *kademlia.Table) string {
			old, ok := t.Delete(id.ID)
			return fmt.Sprint(ok, old.Address)
		},
		func(t *rtable, got string) bool {
			old, ok := t.remove(id.ID)
			return got == fmt.Sprint(ok, old.Address)
		}}
}

func cDeleteAddr(addr string) cop {
	return cop{"DeleteByAddress " + addr,
		func(t *kademlia.Table) string {
			old, ok := t.DeleteByAddress(addr)
			return fmt.Sprint(ok, old.Address, old.ID)
		},
		func(t *rtable, got string) bool {
			for _, e := range t.all() {
				if e.Address == addr && got == fmt.Sprint(true, addr, e.ID) {
					t.remove(e.ID)
					return true
				}
			}
			for _, e := range t.all() {
				if e.Address == addr {
					return false
				}
			}
			return got == fmt.Sprint(false, "", noise.PublicKey{})
		}}
}

func cQuery(name string, q func(t *kademlia.Table) string, ref func(t *rtable) string) cop {
	return cop{name, q, func(t *rtable, got string) bool { return got == ref(t) }}
}

// sorted makes lists comparable whose order is not specified.
func sorted(ids []noise.ID) string {
	t := rtable{buckets: map[int][]noise.ID{}}
	for _, id := range ids {
		t.buckets[0] = append(t.buckets[0], id)
	}
	return list(t.closest(noise.ZeroPublicKey, 1000))
}

func cops(owner noise.PublicKey, x, y, z, old, oldest noise.ID) (change, ask []cop) {
	change = []cop{cUpdate(x), cUpdate(y), cUpdate(z), cUpdate(oldest), cDelete(x), cDelete(old), cDelete(oldest), cDeleteAddr(x.Address), cDeleteAddr(old.Address)}
	ask = []cop{
		cQuery("Entries", func(t *kademlia.Table) string { return sorted(t.Entries()) }, func(t *rtable) string { return sorted(t.all()) }),
		cQuery("NumEntries", func(t *kademlia.Table) string { return fmt.Sprint(t.NumEntries()) }, func(t *rtable) string { return fmt.Sprint(len(t.all())) }),
		cQuery("Bucket", func(t *kademlia.Table) string { return list(t.Bucket(x.ID)) }, func(t *rtable) string { return list(t.buckets[t.at(x.ID)]) }),
		cQuery("Recorded", func(t *kademlia.Table) string { return fmt.Sprint(t.Recorded(x.ID)) }, func(t *rtable) string { return fmt.Sprint(t.find(x.ID) >= 0) }),
		cQuery("Last", func(t *kademlia.Table) string { return list([]noise.ID{t.Last(x.ID)}) }, func(t *rtable) string {
			var last noise.ID
			if b := t.buckets[t.at(x.ID)]; len(b) > 0 {
				last = b[len(b)-1]
			}
			return list([]noise.ID{last})
		}),
		cQuery("FindClosest", func(t *kademlia.Table) string { return list(t.FindClosest(y.ID, 4)) }, func(t *rtable) string { return list(t.closest(y.ID, 4)) }),
		cQuery("Peers", func(t *kademlia.Table) string { return list(t.Peers()) }, func(t *rtable) string { return list(t.closest(owner, 16)) }),
	}
	return
}

type event struct {
	op       cop
	from, to int
	got      string
}

// linear searches an order of the events, consistent with their times, in which the reference gives the same results
// and ends with the content the table has.
func linear(t *rtable, evs []*event, done int, end func(t *rtable) bool) bool {
	if done == 1<<uint(len(evs))-1 {
		return end(t)
	}
	for i, e := range evs {
		if done>>uint(i)&1 == 1 {
			continue
		}
		first := true
		for j, f := range evs {
			if done>>uint(j)&1 == 0 && f.to < e.from {
				first = false
			}
		}
		if !first {
			continue
		}
		c := t.clone()
		if e.op.ref(c, e.got) && linear(c, evs, done|1<<uint(i), end) {
			return true
		}
	}
	return false
}

func concurrently(programs func(change, ask []cop) [][]cop) func() {
	return func() {
		self := selves()[0]
		at := func(k noise.PublicKey, host byte) noise.ID { return noise.NewID(k, net.IPv4(10, 0, 0, host), 5000) }
		fill := []int{2, 15, 16}[vsched.Pick(3)]
		owner := at(self, 1)
		real, ref := kademlia.NewTable(owner), newRtable(owner)
		member := func(i int) noise.PublicKey {
			k := xored(self, 3)
			for j := 0; j < 5; j++ {
				if i>>uint(j)&1 == 1 {
					k = xored(k, 4+j)
				}
			}
			return k
		}
		var keys []noise.PublicKey
		var old, oldest noise.ID
		for i := 0; i < fill; i++ {
			id := at(member(4+i), byte(20+i))
			if i == 0 {
				oldest = id
			}
			if i == 1 {
				old = id
			}
			real.Update(id) //nolint
			ref.update(id)
			keys = append(keys, id.ID)
		}
		x, y, z := at(member(0), 2), at(member(1), 3), at(xored(self, 100), 20) // z shares the oldest entry's address
		if fill == 16 {
			x = at(member(4+7), 27) // one that is there
		}
		keys = append(keys, x.ID, y.ID, z.ID, self)
		ps := programs(cops(self, x, y, z, old, oldest))
		clock := 0
		var evs []*event
		var ts []chan struct{}
		for i, p := range ps {
			p := p
			ts = append(ts, spawn(procA+i, func() {
				for _, op := range p {
					e := &event{op: op}
					vsched.Mark()
					clock++
					e.from = clock
					e.got = op.do(real)
					vsched.Mark()
					clock++
					e.to = clock
					evs = append(evs, e)
				}
			}))
		}
		join(ts...)
		bad := ""
		if !linear(ref, evs, 0, func(t *rtable) bool { bad = t.differs(real, keys); return bad == "" }) {
			var s []string
			for _, e := range evs {
				s = append(s, fmt.Sprintf("%s (%d-%d): %s", e.op.name, e.from, e.to, e.got))
			}
			vsched.Fail("no order of the operations explains their results: %s; %s", strings.Join(s, "; "), bad)
		}
	}
}

// pick chooses n operations.
func pickOps(from []cop, n int) []cop {
	var out []cop
	for i := 0; i < n; i++ {
		out = append(out, from[vsched.Pick(len(from))])
	}
	return out
}

func init() {
	two := func(change, ask []cop) [][]cop {
		a := pickOps(change, 2)
		return [][]cop{a, pickOps(append(append([]cop{}, change...), ask...), 2)}
	}
	some := func(change, ask []cop) [][]cop {
		i := vsched.Pick(len(change))
		return [][]cop{{change[i], change[(i*5+3)%len(change)]}, pickOps(append(append([]cop{}, change...), ask...), 2)}
	}
	three := func(change, ask []cop) [][]cop {
		i := vsched.Pick(len(change))
		j := i + vsched.Pick(len(change)-i)
		return [][]cop{{change[i]}, {change[j]}, pickOps(append(append([]cop{}, change...), ask...), 1)}
	}
	long := func(change, ask []cop) [][]cop { // a few operations against a longer history
		i := vsched.Pick(len(change))
		return [][]cop{{change[i]}, {change[(i+3)%len(change)], change[(i+5)%len(change)], ask[vsched.Pick(len(ask))]}, {ask[vsched.Pick(len(ask))], change[(i*2+1)%len(change)]}}
	}
	add := func(name, doc string, p func(change, ask []cop) [][]cop, quick, thorough int) {
		mc.Add(mc.Scenario{Prop: "C23", Name: name, Doc: doc, Run: concurrently(p),
			ThoroughOnly: quick == 0, StmtsThorough: name != "c23-pair", StmtsCost: map[string]int{"c23-pair": 2}[name],
			Quick: mc.Bounds{Cost: quick, Policies: []int{0}}, Thorough: mc.Bounds{Cost: thorough, Policies: []int{0, 1}}})
	}
	add("c23-pair", "two threads with an operation each", func(change, ask []cop) [][]cop {
		return [][]cop{pickOps(change, 1), pickOps(append(append([]cop{}, change...), ask...), 1)}
	}, 2, 4)
	add("c23-some", "two threads with two operations each, of which those of one are chosen from fewer", some, 2, 4)
	add("c23-two", "two threads with two operations each on tables with an almost empty, nearly full and full bucket: every result and the final content are explained by some order", two, 0, 2)

	add("c23-three", "three threads with an operation each", three, 2, 4)
	add("c23-long", "three threads with one to three operations", long, 2, 3)
	for _, s := range []struct {
		name string
		p    func(change, ask []cop) [][]cop
		q    int
	}{{"c23-race-two", func(change, ask []cop) [][]cop {
		return [][]cop{pickOps(change, 1), pickOps(append(append([]cop{}, change...), ask...), 1)}
	}, 1}, {"c23-race-three", long, 1}} {
		p := s.p
		mc.Add(mc.Scenario{Prop: "C23", Name: s.name, Doc: "the same under the race detector: operations are not only apart at their locks", Race: true, NoStmts: true,
			Run: func() {
				self := selves()[0]
				owner := noise.NewID(self, net.IPv4(10, 0, 0, 1), 1)
				real := kademlia.NewTable(owner)
				id := func(i int) noise.ID {
					return noise.NewID(xored(self, 3, 4+i), net.IPv4(10, 0, 0, byte(2+i)), 1)
				}
				for i := 0; i < 15; i++ {
					real.Update(id(i)) //nolint
				}
				var ts []chan struct{}
				for _, ops := range p(cops(self, id(20), id(21), noise.NewID(xored(self, 100), net.IPv4(10, 0, 0, 2), 1), id(1), id(0))) {
					ops := ops
					ts = append(ts, spawn(procA, func() {
						for _, op := range ops {
							op.do(real)
						}
					}))
				}
				join(ts...)
			},
			Quick: mc.Bounds{Cost: s.q, Policies: []int{0}}, Thorough: mc.Bounds{Cost: s.q + 2, Policies: []int{0, 1}}})
	}
}
