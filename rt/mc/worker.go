package mc

import (
	"bufio"
	"encoding/gob"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"sync/atomic"
	"syscall"
	"unsafe"

	"verif.local/rt/vsched"
)

type item struct {
	Scn    int
	Policy int
	Round  int
	Devs   []vsched.Dev
	Trace  bool
	NoSeen bool
}

type result struct {
	Status   vsched.Status
	Msg      string
	Steps    int
	States   int
	Branches []vsched.Branch
	Facts    []vsched.FactCount
	Log      []string
	Diverged bool
	Clock    int64
	Choices  int
}

const tableBits = 26

// table is a set of hashes shared by the workers.
type table struct {
	w []uint64
}

func newTable(fd int) (*table, error) {
	b, err := syscall.Mmap(fd, 0, 8<<tableBits, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	if err != nil {
		return nil, err
	}
	return &table{unsafe.Slice((*uint64)(unsafe.Pointer(&b[0])), 1<<tableBits)}, nil
}

// add inserts h and tells whether it was there.
func (t *table) add(h uint64) bool {
	if h == 0 {
		h = 1
	}
	i := h >> (64 - tableBits)
	for n := 0; n < 4096; n++ {
		p := &t.w[i]
		v := atomic.LoadUint64(p)
		if v == h {
			return true
		}
		if v == 0 {
			if atomic.CompareAndSwapUint64(p, 0, h) {
				return false
			}
			if atomic.LoadUint64(p) == h {
				return true
			}
		}
		i = (i + 1) & (1<<tableBits - 1)
	}
	return false // crowded: explore again rather than skip
}

func runItem(it item, tab *table) result {
	s := scenarios[it.Scn]
	o := s.opts(it.Policy, it.Devs)
	o.Trace = it.Trace
	if tab != nil && !it.NoSeen {
		salt := vsched.Mix(uint64(it.Scn)+1, uint64(it.Policy)+17+uint64(it.Round)<<32)
		o.Seen = func(h uint64) bool { return tab.add(vsched.Mix(h, salt)) }
		if s.Stmts { // a state is its whole history: none is reached twice
			o.Seen = func(uint64) bool { return false }
		}
	}
	before := vsched.RaceErrors()
	r := vsched.Run(o, s.Run)
	out := result{Status: r.Status, Msg: r.Msg, Steps: r.Steps, States: r.States, Branches: r.Branches,
		Facts: r.Facts, Log: r.Log, Diverged: r.Diverged, Clock: r.Clock, Choices: len(r.Choices)}
	if n := vsched.RaceErrors() - before; n > 0 {
		out.Status, out.Msg = vsched.Failed, fmt.Sprintf("%d data race(s) reported by the race detector", n)
	}
	return out
}

func workerMain() {
	runtime.GOMAXPROCS(1)
	debug.SetGCPercent(400)
	tab, err := newTable(3)
	if err != nil {
		fmt.Fprintln(os.Stderr, "worker:", err)
		os.Exit(3)
	}
	in := gob.NewDecoder(bufio.NewReaderSize(os.Stdin, 1<<16))
	w := bufio.NewWriterSize(os.Stdout, 1<<16)
	out := gob.NewEncoder(w)
	for {
		var batch []item
		if err := in.Decode(&batch); err != nil {
			return
		}
		res := make([]result, len(batch))
		for i, it := range batch {
			res[i] = runItem(it, tab)
		}
		if err := out.Encode(res); err != nil {
			return
		}
		if err := w.Flush(); err != nil {
			return
		}
	}
}
