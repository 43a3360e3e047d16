package main

import (
	"errors"
	"fmt"
	"math/bits"
	"net"
	"sort"
	"strings"

	"github.com/perlin-network/noise"
	"github.com/perlin-network/noise/kademlia"
	"verif.local/rt/mc"
)

// A rtable is the reference for the routing table: buckets of identities, most recent first.
type rtable struct {
	self    noise.PublicKey
	buckets map[int][]noise.ID
}

// at is the bucket of k: the length of the prefix it shares with the owner.
func (t *rtable) at(k noise.PublicKey) int {
	for i := range k {
		if x := k[i] ^ t.self[i]; x != 0 {
			return 8*i + bits.LeadingZeros8(x)
		}
	}
	return 255
}

func newRtable(self noise.ID) *rtable {
	return &rtable{self: self.ID, buckets: map[int][]noise.ID{255: {self}}}
}

func (t *rtable) clone() *rtable {
	c := &rtable{self: t.self, buckets: map[int][]noise.ID{}}
	for i, b := range t.buckets {
		c.buckets[i] = append([]noise.ID{}, b...)
	}
	return c
}

func (t *rtable) find(k noise.PublicKey) int {
	for i, id := range t.buckets[t.at(k)] {
		if id.ID == k {
			return i
		}
	}
	return -1
}

func (t *rtable) drop(b, i int) noise.ID {
	l := t.buckets[b]
	id := l[i]
	t.buckets[b] = append(append([]noise.ID{}, l[:i]...), l[i+1:]...)
	return id
}

// update tells whether id is new and whether there was room for it.
func (t *rtable) update(id noise.ID) (inserted, full bool) {
	if id.ID == noise.ZeroPublicKey {
		return false, false
	}
	b := t.at(id.ID)
	if i := t.find(id.ID); i >= 0 {
		old := t.drop(b, i)
		t.buckets[b] = append([]noise.ID{old}, t.buckets[b]...)
		return false, false
	}
	if len(t.buckets[b]) >= 16 {
		return false, true
	}
	t.buckets[b] = append([]noise.ID{id}, t.buckets[b]...)
	return true, false
}

func (t *rtable) remove(k noise.PublicKey) (noise.ID, bool) {
	if i := t.find(k); i >= 0 {
		return t.drop(t.at(k), i), true
	}
	return noise.ID{}, false
}

func (t *rtable) all() []noise.ID {
	var out []noise.ID
	for b := 0; b < 256; b++ {
		out = append(out, t.buckets[b]...)
	}
	return out
}

func nearer(target, a, b noise.PublicKey) bool {
	for i := range target {
		if x, y := a[i]^target[i], b[i]^target[i]; x != y {
			return x < y
		}
	}
	return false
}

func (t *rtable) closest(target noise.PublicKey, k int) []noise.ID {
	var out []noise.ID
	for _, id := range t.all() {
		if id.ID != target {
			out = append(out, id)
		}
	}
	sort.Slice(out, func(i, j int) bool { return nearer(target, out[i].ID, out[j].ID) })
	if len(out) > k {
		out = out[:k]
	}
	return out
}

// state identifies the content.
func (t *rtable) state() string {
	var s strings.Builder
	for _, id := range t.all() {
		s.Write(id.ID[:])
		s.WriteString(id.Address)
	}
	return s.String()
}

func same(a, b noise.ID) bool {
	return a.ID == b.ID && a.Address == b.Address && a.Port == b.Port && a.Host.Equal(b.Host)
}

func sameList(a, b []noise.ID) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !same(a[i], b[i]) {
			return false
		}
	}
	return true
}

func brief(ids []noise.ID) string {
	var s []string
	for _, id := range ids {
		s = append(s, fmt.Sprintf("%x..%x", id.ID[:2], id.ID[30:]))
	}
	return "[" + strings.Join(s, " ") + "]"
}

// differs compares the real table with the reference in every query there is.
func (t *rtable) differs(real *kademlia.Table, keys []noise.PublicKey) string {
	all := t.all()
	if n := real.NumEntries(); n != len(all) {
		return fmt.Sprintf("NumEntries says %d of %d", n, len(all))
	}
	es := real.Entries()
	if len(es) != len(all) {
		return fmt.Sprintf("Entries are %s instead of %s", brief(es), brief(all))
	}
	seen := map[noise.PublicKey]bool{}
	for _, e := range es {
		i := t.find(e.ID)
		if i < 0 || seen[e.ID] || !same(t.buckets[t.at(e.ID)][i], e) {
			return fmt.Sprintf("Entries are %s instead of %s", brief(es), brief(all))
		}
		seen[e.ID] = true
	}
	done := map[int]bool{}
	for _, k := range keys {
		want := t.buckets[t.at(k)]
		if got := real.Recorded(k); got != (t.find(k) >= 0) {
			return fmt.Sprintf("Recorded(%x) is %v", k, got)
		}
		var last noise.ID
		if len(want) > 0 {
			last = want[len(want)-1]
		}
		if got := real.Last(k); !same(got, last) {
			return fmt.Sprintf("Last(%x) is %v instead of %v", k, got, last)
		}
		if done[t.at(k)] {
			continue
		}
		done[t.at(k)] = true
		got := real.Bucket(k)
		if !sameList(got, want) {
			return fmt.Sprintf("Bucket(%x) is %s instead of %s", k, brief(got), brief(want))
		}
		for i := range got {
			got[i] = noise.ID{} // what is returned belongs to the caller
		}
	}
	for i := range es {
		es[i] = noise.ID{}
	}
	if got, want := real.Peers(), t.closest(t.self, 16); !sameList(got, want) {
		return fmt.Sprintf("Peers are %s instead of %s", brief(got), brief(want))
	}
	if real.Self().ID != t.self {
		return "Self is someone else"
	}
	return ""
}

// A top is an operation on the table.
type top struct {
	kind int // 0 update, 1 delete, 2 delete by address
	id   noise.ID
	addr string
}

func (o top) String() string {
	switch o.kind {
	case 0:
		return fmt.Sprintf("Update(%x..%x at %s)", o.id.ID[:2], o.id.ID[30:], o.id.Address)
	case 1:
		return fmt.Sprintf("Delete(%x..%x)", o.id.ID[:2], o.id.ID[30:])
	}
	return "DeleteByAddress(" + o.addr + ")"
}

// apply runs the operation on both, and says what is wrong with the result.
func (o top) apply(real *kademlia.Table, t *rtable) string {
	switch o.kind {
	case 0:
		ins, err := real.Update(o.id)
		i := t.find(o.id.ID)
		var had noise.ID
		if i >= 0 {
			had = t.buckets[t.at(o.id.ID)][i]
		}
		wantIns, full := t.update(o.id)
		if full != (err != nil) || full && !errors.Is(err, kademlia.ErrBucketFull) || !full && ins != wantIns || full && ins {
			return fmt.Sprintf("%v returns %v, %v; new: %v, bucket full: %v", o, ins, err, wantIns, full)
		}
		// Whether an update of a peer there is changes its address is left open.
		if i >= 0 && had.Address != o.id.Address {
			if b := real.Bucket(o.id.ID); len(b) > 0 && same(b[0], o.id) {
				t.buckets[t.at(o.id.ID)][0] = o.id
			}
		}
	case 1:
		id, ok := real.Delete(o.id.ID)
		want, wantOK := t.remove(o.id.ID)
		if ok != wantOK || !same(id, want) {
			return fmt.Sprintf("%v returns %v, %v instead of %v, %v", o, id, ok, want, wantOK)
		}
	case 2:
		id, ok := real.DeleteByAddress(o.addr)
		any := false
		for _, e := range t.all() {
			any = any || e.Address == o.addr
		}
		if ok != any {
			return fmt.Sprintf("%v returns %v, %v", o, id, ok)
		}
		if ok {
			want, there := t.remove(id.ID)
			if !there || !same(want, id) || id.Address != o.addr {
				return fmt.Sprintf("%v returns %v, %v, which was not there", o, id, ok)
			}
		} else if !same(id, noise.ID{}) {
			return fmt.Sprintf("%v returns %v, %v", o, id, ok)
		}
	}
	return ""
}

// xored is base with the given bits flipped.
func xored(base noise.PublicKey, bit ...int) noise.PublicKey {
	for _, b := range bit {
		base[b/8] ^= 0x80 >> (b % 8)
	}
	return base
}

func selves() []noise.PublicKey {
	var a, b, c noise.PublicKey
	for i := range a {
		a[i], b[i] = byte(i*37+11), 0xff
	}
	c[31] = 1
	return []noise.PublicKey{a, b, c, key(procA).Public()}
}

// A tcase is a table to start with and operations to apply in all orders.
type tcase struct {
	name string
	self noise.ID
	fill []noise.ID
	ops  []top
	keys []noise.PublicKey
}

// tcases are universes whose interesting bucket is number b and holds fill entries to start with.
func tcases() []tcase {
	var out []tcase
	at := func(k noise.PublicKey, host byte) noise.ID { return noise.NewID(k, net.IPv4(10, 0, 0, host), 5000) }
	for si, self := range selves() {
		for _, b := range []int{0, 1, 7, 8, 63, 127, 128, 247, 248, 250} {
			// members of bucket b differ in the bits after it
			member := func(i int) noise.PublicKey {
				k := xored(self, b)
				for j := 0; j < 5 && b+1+j < 256; j++ {
					if i>>uint(j)&1 == 1 {
						k = xored(k, b+1+j)
					}
				}
				return k
			}
			for _, fill := range []int{0, 13, 14, 15, 16} {
				if si > 0 && (b+fill+si)%5 != 0 {
					continue
				}
				c := tcase{name: fmt.Sprintf("owner %d, bucket %d, %d entries", si, b, fill), self: at(self, 1)}
				for i := 0; i < fill; i++ {
					c.fill = append(c.fill, at(member(i+4), byte(20+i)))
				}
				var ids []noise.ID
				for i := 0; i < 4; i++ {
					ids = append(ids, at(member(i), byte(2+i)))
				}
				twin := at(member(0), 9) // the first one at another address
				last := at(xored(self, 255), 3)
				zero := at(noise.PublicKey{}, 7)
				far := at(xored(self, b, (b+100)%256), 2) // same address as the first
				if (b+100)%256 < b {                      // another bucket
					far = at(xored(self, (b+100)%256), 2)
				}
				for _, id := range append(append([]noise.ID{}, ids[:3]...), twin, last, zero, far, c.self) {
					c.ops = append(c.ops, top{kind: 0, id: id})
				}
				for _, id := range []noise.ID{ids[0], ids[1], last, c.self, zero} {
					c.ops = append(c.ops, top{kind: 1, id: id})
				}
				if fill > 0 {
					c.ops = append(c.ops, top{kind: 0, id: c.fill[0]}, top{kind: 0, id: c.fill[fill-1]}, top{kind: 1, id: c.fill[fill/2]}, top{kind: 2, addr: c.fill[0].Address})
				}
				c.ops = append(c.ops, top{kind: 2, addr: ids[0].Address}, top{kind: 2, addr: ids[1].Address}, top{kind: 2, addr: "10.1.1.1:1"}, top{kind: 2, addr: ""})
				for _, id := range append(append(ids, c.fill...), last, zero, far, c.self) {
					c.keys = append(c.keys, id.ID)
				}
				c.keys = append(c.keys, xored(self, (b+1)%256), xored(self, 254))
				out = append(out, c)
			}
		}
	}
	return out
}

// start is a table filled as the case says, and its reference.
func (tc *tcase) start() (*kademlia.Table, *rtable) {
	real, t := kademlia.NewTable(tc.self), newRtable(tc.self)
	for _, id := range tc.fill {
		real.Update(id) //nolint
		t.update(id)
	}
	return real, t
}

func (tc *tcase) show(path []int) string {
	var s []string
	for _, i := range path {
		s = append(s, tc.ops[i].String())
	}
	return tc.name + ": " + strings.Join(s, ", ")
}

// run applies the operations on the path to a fresh table; only the last one is judged if that is all that is asked for.
func (tc *tcase) run(c *mc.Ctx, path []int, every bool) (*rtable, bool) {
	real, t := tc.start()
	for n, i := range path {
		bad := tc.ops[i].apply(real, t)
		c.Transitions++
		if every || n == len(path)-1 {
			if bad == "" {
				bad = t.differs(real, tc.keys)
			}
			c.Validated++
		}
		if bad != "" {
			c.Fail("the routing table differs from its reference", tc.show(path[:n+1])+": "+bad)
			return nil, false
		}
	}
	return t, true
}

func init() {
	mc.AddCustom(mc.Custom{Prop: "C21", Name: "c21-sequences", Doc: "all sequences of operations up to a depth on tables with an empty, nearly full or full bucket at different places: every result, and after each operation every query, against a reference",
		Run: func(c *mc.Ctx) {
			for i, tc := range tcases() {
				if i%c.Shards != c.Shard {
					continue
				}
				depth := 2
				if c.Thorough || i%4 == 1 {
					depth = 3
				}
				real, t := tc.start()
				if bad := t.differs(real, tc.keys); bad != "" {
					c.Fail("the routing table differs from its reference", tc.name+": from the start: "+bad)
					return
				}
				var walk func(path []int) bool
				walk = func(path []int) bool {
					for o := range tc.ops {
						p := append(append([]int{}, path...), o)
						if _, ok := tc.run(c, p, false); !ok {
							return false
						}
						c.States++
						if len(p) < depth && !walk(p) {
							return false
						}
					}
					return true
				}
				if !walk(nil) {
					return
				}
				if i < 3 {
					c.Sample(fmt.Sprintf("%s: all sequences of %d of %d operations", tc.name, depth, len(tc.ops)))
				}
			}
		}})
	mc.AddCustom(mc.Custom{Prop: "C21", Name: "c21-states", Doc: "all contents that a table reaches by these operations, each once, to a depth: every operation in every one of them",
		Run: func(c *mc.Ctx) {
			depth := 4
			if c.Thorough {
				depth = 6
			}
			for i, tc := range tcases() {
				if i%c.Shards != c.Shard || i%9 != 4 && !c.Thorough && i > 4 {
					continue
				}
				_, t := tc.start()
				seen := map[string]bool{t.state(): true}
				front := [][]int{nil}
				for d := 0; d < depth && len(front) > 0; d++ {
					var next [][]int
					for _, path := range front {
						for o := range tc.ops {
							p := append(append([]int{}, path...), o)
							t, ok := tc.run(c, p, false)
							if !ok {
								return
							}
							if s := t.state(); !seen[s] {
								seen[s] = true
								c.States++
								next = append(next, p)
							}
						}
					}
					front = next
					if c.Thorough && len(seen) > 20000 {
						c.Fact("cut")
						break
					}
				}
				if len(front) == 0 {
					c.Fact("all states reached")
				}
				c.Fact(fmt.Sprintf("depth %d", depth))
			}
		}})
	mc.AddCustom(mc.Custom{Prop: "C21", Name: "c21-long", Doc: "long histories: buckets filled beyond their capacity in different orders, emptied, and filled again, and every bucket of the table in turn",
		Run: func(c *mc.Ctx) {
			for si, self := range selves() {
				for b := c.Shard; b < 256; b += c.Shards {
					owner := noise.NewID(self, net.IPv4(10, 0, 0, 1), 1)
					n := 20
					if m := 1 << uint(255-b); b > 250 && m < n {
						n = m
					}
					tc := tcase{name: fmt.Sprintf("owner %d, bucket %d", si, b), self: owner}
					for i := 0; i < n; i++ {
						k := xored(self, b)
						for j := 0; j < 5 && b+1+j < 256; j++ {
							if i>>uint(j)&1 == 1 {
								k = xored(k, b+1+j)
							}
						}
						id := noise.NewID(k, net.IPv4(10, 0, 1, byte(i)), 1)
						tc.ops = append(tc.ops, top{kind: 0, id: id}, top{kind: 1, id: id}, top{kind: 2, addr: id.Address})
						tc.keys = append(tc.keys, k)
					}
					tc.keys = append(tc.keys, self)
					for _, stride := range []int{1, 3, 7} {
						var path []int
						for r := 0; r < 2; r++ {
							for i := 0; i < n; i++ {
								path = append(path, 3*(i*stride%n))
							}
							for i := 0; i < n; i++ {
								path = append(path, 3*(i*stride%n)+(i+r)%2*(1+i/2%2))
							}
						}
						if _, ok := tc.run(c, path, true); !ok {
							return
						}
						c.States += int64(len(path))
					}
				}
			}
		}})
}
