// Package vfastcache stands for github.com/VictoriaMetrics/fastcache: a cache that, like the real one, silently does
// not store entries of 64 KB or more, and that never overflows otherwise. The conformance tests compare it to the
// real one.
package vfastcache

import "verif.local/rt/vsched"

// Cache stands for fastcache.Cache.
type Cache struct {
	o vsched.Obj
	b [256]*entry
}

type entry struct {
	k, v []byte
	next *entry
}

// Stats stands for fastcache.Stats.
type Stats struct {
	GetCalls, SetCalls, Misses, Collisions, Corruptions, EntriesCount, BytesSize uint64
}

// New stands for fastcache.New.
func New(maxBytes int) *Cache { return &Cache{} }

func slot(k []byte) int {
	h := uint64(14695981039346656037)
	for _, c := range k {
		h = (h ^ uint64(c)) * 1099511628211
	}
	return int((h ^ h>>32) % 256)
}

func (c *Cache) find(k []byte) *entry {
	for e := c.b[slot(k)]; e != nil; e = e.next {
		if string(e.k) == string(k) {
			return e
		}
	}
	return nil
}

func (c *Cache) at(kind string, write bool) {
	vsched.Yield(kind, &c.o, write, nil)
	vsched.HBAcquire(c)
	vsched.HBReleaseMerge(c)
}

// Set stands for (*fastcache.Cache).Set.
func (c *Cache) Set(k, v []byte) {
	c.at("cache set", true)
	if len(k) >= 1<<16 || len(v) >= 1<<16 || 4+len(k)+len(v) >= 64*1024 {
		return
	}
	v = append([]byte{}, v...)
	if e := c.find(k); e != nil {
		e.v = v
		return
	}
	s := slot(k)
	c.b[s] = &entry{append([]byte{}, k...), v, c.b[s]}
}

// Get stands for (*fastcache.Cache).Get.
func (c *Cache) Get(dst, k []byte) []byte {
	dst, _ = c.HasGet(dst, k)
	return dst
}

// HasGet stands for (*fastcache.Cache).HasGet.
func (c *Cache) HasGet(dst, k []byte) ([]byte, bool) {
	c.at("cache get", false)
	e := c.find(k)
	if e == nil {
		return dst, false
	}
	return append(dst, e.v...), true
}

// Has stands for (*fastcache.Cache).Has.
func (c *Cache) Has(k []byte) bool {
	c.at("cache has", false)
	return c.find(k) != nil
}

// Del stands for (*fastcache.Cache).Del.
func (c *Cache) Del(k []byte) {
	c.at("cache del", true)
	p := &c.b[slot(k)]
	for *p != nil {
		if string((*p).k) == string(k) {
			*p = (*p).next
			return
		}
		p = &(*p).next
	}
}

// Reset stands for (*fastcache.Cache).Reset.
func (c *Cache) Reset() {
	c.at("cache reset", true)
	c.b = [256]*entry{}
}

// SetBig stands for (*fastcache.Cache).SetBig.
func (c *Cache) SetBig(k, v []byte) {
	c.at("cache set", true)
	if len(k) > 1<<16-17 {
		return
	}
	v = append([]byte{}, v...)
	if e := c.find(k); e != nil {
		e.v = v
		return
	}
	s := slot(k)
	c.b[s] = &entry{append([]byte{}, k...), v, c.b[s]}
}

// GetBig stands for (*fastcache.Cache).GetBig.
func (c *Cache) GetBig(dst, k []byte) []byte { return c.Get(dst, k) }

// UpdateStats stands for (*fastcache.Cache).UpdateStats.
func (c *Cache) UpdateStats(s *Stats) {}
