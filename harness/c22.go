package main

import (
	"bytes"
	"fmt"
	"math/bits"
	"net"
	"sort"

	"github.com/perlin-network/noise"
	"github.com/perlin-network/noise/kademlia"
	"verif.local/rt/mc"
)

// A space is a key space of a few bits spread over a key.
type space struct {
	name string
	base noise.PublicKey
	bits []int
}

func (s *space) key(i int) noise.PublicKey {
	k := s.base
	for j, b := range s.bits {
		if i>>uint(len(s.bits)-1-j)&1 == 1 {
			k = xored(k, b)
		}
	}
	return k
}

func spaces(n int) []space {
	var out []space
	add := func(name string, bits ...int) {
		for i, base := range selves()[:2] {
			if i > 0 && len(out)%3 == 0 {
				continue
			}
			out = append(out, space{fmt.Sprintf("%s, base %d", name, i), base, bits[:n]})
		}
	}
	add("first bits", 0, 1, 2, 3, 4)
	add("across bytes", 6, 7, 8, 9, 10)
	add("last bits", 251, 252, 253, 254, 255)
	add("last four", 252, 253, 254, 255, 251)
	add("spread", 0, 8, 128, 255, 64)
	add("far apart", 0, 1, 254, 255, 100)
	add("one byte", 16, 18, 20, 23, 17)
	return out
}

// queries compares the answers to all queries with the reference.
func queries(c *mc.Ctx, name string, real *kademlia.Table, t *rtable, targets []noise.PublicKey, ks []int) bool {
	for _, target := range targets {
		want := t.closest(target, 1000)
		for _, k := range ks {
			got := real.FindClosest(target, k)
			c.Transitions++
			w := want
			if len(w) > k {
				w = w[:k]
			}
			if !sameList(got, w) {
				c.Fail("the closest peers are wrong", fmt.Sprintf("%s: of %s the %d closest to %x are said to be %s instead of %s", name, brief(t.all()), k, target, brief(got), brief(w)))
				return false
			}
			for i := range got {
				got[i] = noise.ID{}
			}
		}
	}
	if got, want := real.Peers(), t.closest(t.self, 16); !sameList(got, want) {
		c.Fail("Peers are wrong", fmt.Sprintf("%s: %s instead of %s", name, brief(got), brief(want)))
		return false
	}
	c.Validated++
	return true
}

func init() {
	mc.AddCustom(mc.Custom{Prop: "C22", Name: "c22-subsets", Doc: "tables with every subset of a key space of 4 bits at different places of the key, for every owner in it: the k closest to every key in the space, and some outside, for every k",
		Run: func(c *mc.Ctx) {
			sps := spaces(4)
			for si, sp := range sps {
				var targets []noise.PublicKey
				for i := 0; i < 16; i++ {
					targets = append(targets, sp.key(i))
				}
				for _, b := range []int{0, 5, 9, 127, 250, 255} {
					targets = append(targets, xored(sp.key(si%16), b))
				}
				targets = append(targets, noise.PublicKey{})
				owners := []int{si * 5 % 16}
				if c.Thorough {
					owners = []int{0, 5, 15, 10}
				}
				for _, o := range owners {
					for set := c.Shard; set < 1<<16; set += c.Shards {
						if !c.Thorough && (set/c.Shards+si)%len(sps) > 2 {
							continue
						}
						self := noise.NewID(sp.key(o), net.IPv4(10, 0, 0, byte(o)), 1)
						real, t := kademlia.NewTable(self), newRtable(self)
						for j := 0; j < 16; j++ {
							i := j
							switch set % 3 { // in different orders
							case 1:
								i = 15 - j
							case 2:
								i = j * 7 % 16
							}
							if set>>uint(i)&1 == 1 {
								id := noise.NewID(sp.key(i), net.IPv4(10, 0, 0, byte(i)), 1)
								real.Update(id) //nolint
								t.update(id)
							}
						}
						if set>>uint(o)&1 == 0 {
							real.Delete(self.ID)
							t.remove(self.ID)
						}
						c.States++
						n := bits.OnesCount(uint(set))
						ks := []int{0, 1, 2, n - 1, n, n + 1, 16, 17, 1000}
						if c.Thorough {
							ks = []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 1 << 40}
						}
						if n == 0 {
							ks[3] = 3
						}
						if !queries(c, sp.name, real, t, targets, ks) {
							return
						}
					}
				}
			}
		}})
	mc.AddCustom(mc.Custom{Prop: "C22", Name: "c22-crowded", Doc: "tables with many full buckets (up to 300 entries), in which the queries have to leave out all but the closest: every key of the table and its neighbours as the target",
		Run: func(c *mc.Ctx) {
			for si, self := range selves() {
				for mode := c.Shard; mode < 24; mode += c.Shards {
					owner := noise.NewID(self, net.IPv4(10, 0, 0, 1), 1)
					real, t := kademlia.NewTable(owner), newRtable(owner)
					first := []int{0, 3, 100, 236}[mode%4]
					n := []int{1, 5, 16}[mode/4%3]
					width := 20
					for b := first; b < first+width && b < 256; b++ {
						for i := 0; i < n; i++ {
							k := xored(self, b)
							for j := 0; j < 4 && b+1+j < 256; j++ {
								at := b + 1 + j
								if mode >= 12 {
									at = 255 - j
								}
								if at > b && i>>uint(j)&1 == 1 {
									k = xored(k, at)
								}
							}
							id := noise.NewID(k, net.IPv4(10, 0, byte(b), byte(i)), 1)
							real.Update(id) //nolint
							t.update(id)
						}
					}
					var targets []noise.PublicKey
					for _, id := range t.all() {
						targets = append(targets, id.ID, xored(id.ID, 255), xored(id.ID, 0), xored(id.ID, (first+7)%256))
					}
					c.States++
					if !queries(c, fmt.Sprintf("owner %d, crowd %d", si, mode), real, t, targets, []int{0, 1, 8, 15, 16, 17, 100, 1000}) {
						return
					}
				}
			}
		}})
	mc.AddCustom(mc.Custom{Prop: "C22", Name: "c22-helpers", Doc: "XOR of all pairs of bytes at all places and lengths, prefix lengths of all strings with one or two bits set and of all strings of 16 bits, sorting all permutations of up to 6 identities",
		Run: func(c *mc.Ctx) {
			for n := 0; n <= 40; n++ {
				for i := c.Shard; i < n; i += c.Shards {
					for x := 0; x < 1<<16; x += 1 + (n%33)*7 {
						a, b, want := make([]byte, n), make([]byte, n), make([]byte, n)
						for j := range a {
							a[j], b[j] = byte(j*3), byte(j*5+1)
							want[j] = a[j] ^ b[j]
						}
						a[i], b[i] = byte(x>>8), byte(x)
						want[i] = byte(x>>8) ^ byte(x)
						a0, b0 := append([]byte{}, a...), append([]byte{}, b...)
						got := kademlia.XOR(a, b)
						c.States++
						if !bytes.Equal(got, want) {
							c.Fail("XOR is wrong", fmt.Sprintf("%x xor %x is said to be %x", a, b, got))
							return
						}
						got[0]++
						if !bytes.Equal(a, a0) || !bytes.Equal(b, b0) {
							c.Fail("XOR does not leave its operands alone", fmt.Sprintf("%x, %x", a0, b0))
							return
						}
					}
				}
			}
			pl := func(a []byte) bool {
				want := 8 * len(a)
				for i := 0; i < 8*len(a); i++ {
					if a[i/8]>>uint(7-i%8)&1 == 1 {
						want = i
						break
					}
				}
				c.States++
				if got := kademlia.PrefixLen(a); got != want {
					c.Fail("a prefix length is wrong", fmt.Sprintf("%d leading zeros in %x", got, a))
					return false
				}
				return true
			}
			for x := c.Shard; x < 1<<16; x += c.Shards {
				if !pl([]byte{byte(x >> 8), byte(x)}) || !pl([]byte{0, 0, byte(x >> 8), byte(x), 0}) {
					return
				}
			}
			for n := c.Shard; n <= 40; n += c.Shards {
				if !pl(make([]byte, n)) {
					return
				}
				for i := 0; i < 8*n; i++ {
					for j := i; j < 8*n; j++ {
						a := make([]byte, n)
						a[i/8] |= 0x80 >> uint(i%8)
						a[j/8] |= 0x80 >> uint(j%8)
						if !pl(a) {
							return
						}
					}
				}
			}
			// sorting
			for si, sp := range spaces(4) {
				if si%c.Shards != c.Shard {
					continue
				}
				for n := 0; n <= 6; n++ {
					if n == 6 && !c.Thorough && si > 3 {
						continue
					}
					for off := 0; off < 16; off += 5 {
						var ids []noise.ID
						for i := 0; i < n; i++ {
							ids = append(ids, noise.NewID(sp.key((off+i*7)%16), net.IPv4(10, 0, 0, byte(i)), 1))
						}
						permute(ids, 0, func(p []noise.ID) bool {
							for ti := 0; ti < 17; ti++ {
								target := sp.key(ti % 16)
								if ti == 16 {
									target = xored(target, 3, 77, 200)
								}
								in := append([]noise.ID{}, p...)
								got := kademlia.SortByDistance(target, in)
								want := append([]noise.ID{}, p...)
								sort.Slice(want, func(i, j int) bool { return nearer(target, want[i].ID, want[j].ID) })
								c.States++
								if !sameList(got, want) {
									c.Fail("sorting by distance is wrong", fmt.Sprintf("%s by distance to %x are said to be %s", brief(p), target, brief(got)))
									return false
								}
							}
							return true
						})
					}
				}
			}
			c.Validated = c.States
		}})
}

// permute calls fn with every order of ids from i on, until it returns false.
func permute(ids []noise.ID, i int, fn func([]noise.ID) bool) bool {
	if i >= len(ids) {
		return fn(ids)
	}
	for j := i; j < len(ids); j++ {
		ids[i], ids[j] = ids[j], ids[i]
		ok := permute(ids, i+1, fn)
		ids[i], ids[j] = ids[j], ids[i]
		if !ok {
			return false
		}
	}
	return true
}
