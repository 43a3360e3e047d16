// Package vsched is what remains of the controlled scheduler when a scenario runs on the real runtime.
package vsched

import (
	"fmt"
	"os"
	"runtime"
	"strings"
	"sync"
	"time"
)

// Native tells whether the program runs uninstrumented.
const Native = true

var (
	mu    sync.Mutex
	start = time.Now()
)

// Fail ends the process: the property is violated.
func Fail(format string, a ...interface{}) {
	fmt.Printf("FAIL "+format+"\n", a...)
	os.Exit(1)
}

// Discard ends the process: this run is of no interest.
func Discard(string) { os.Exit(0) }

func Fact(string)                   {}
func Mark()                         {}
func MarkPoint()                    {}
func Quiet(fn func())               { fn() }
func QuietOn()                      {}
func QuietOff()                     {}
func SetGroup(g int) int            { return 0 }
func Group() int                    { return 0 }
func Clock() int64                  { return int64(time.Since(start)) }
func ShortRead(n int) int           { return n }
func Steps() int                    { return 0 }
func Debugf(string, ...interface{}) {}

// Quiesce waits until everything under way is likely to have happened.
func Quiesce() { time.Sleep(200 * time.Millisecond) }

// Settle is Quiesce, including short timeouts.
func Settle() { time.Sleep(400 * time.Millisecond) }

// Info describes a live thread.
type Info struct {
	Name, Site, Kind string
	Group            int
}

// Live lists the goroutines running code of the library.
func Live() []Info {
	buf := make([]byte, 1<<20)
	buf = buf[:runtime.Stack(buf, true)]
	var out []Info
	for i, g := range strings.Split(string(buf), "\n\n") {
		if i > 0 && strings.Contains(g, "noise.(*") {
			out = append(out, Info{Name: strings.SplitN(g, "\n", 2)[0]})
		}
	}
	return out
}

// LiveInGroup cannot tell processes apart.
func LiveInGroup(int) []Info { return nil }

// Run numbers the run: it decides the picks.
var Run int

var picks int

// Pick takes a different alternative in every run.
func Pick(n int) int {
	mu.Lock()
	defer mu.Unlock()
	if n <= 1 {
		return 0
	}
	v := Run * (7919 + 31*picks)
	picks++
	return v % n
}

// Choose is Pick without variation.
func Choose(n int, c uint8) int { return 0 }
