// Package memo remembers the results of expensive pure functions across executions, without Go maps: those report
// their accesses to the race detector.
package memo

// Table is a fixed hash table with chaining.
type Table struct {
	b [1 << 12]*entry
	n int
}

type entry struct {
	k    string
	v    []byte
	next *entry
}

func hash(parts [][]byte) uint64 {
	h := uint64(14695981039346656037)
	for _, p := range parts {
		for _, c := range p {
			h = (h ^ uint64(c)) * 1099511628211
		}
		h = (h ^ uint64(len(p))) * 1099511628211
	}
	return h
}

func same(k string, parts [][]byte) bool {
	i := 0
	for _, p := range parts {
		if len(k)-i < len(p) || k[i:i+len(p)] != string(p) {
			return false
		}
		i += len(p)
	}
	return i == len(k)
}

// Get returns f's result for the key made of parts. The parts before the last must have a fixed length.
func (t *Table) Get(f func() []byte, parts ...[]byte) []byte {
	h := hash(parts) % uint64(len(t.b))
	for e := t.b[h]; e != nil; e = e.next {
		if same(e.k, parts) {
			return e.v
		}
	}
	v := f()
	if t.n > 1<<16 {
		*t = Table{}
	}
	n := 0
	for _, p := range parts {
		n += len(p)
	}
	k := make([]byte, 0, n)
	for _, p := range parts {
		k = append(k, p...)
	}
	t.b[h] = &entry{string(k), v, t.b[h]}
	t.n++
	return v
}
