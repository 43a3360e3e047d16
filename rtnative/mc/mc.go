// Package mc runs single scenarios natively.
package mc

import (
	"flag"
	"fmt"
	"os"
	"time"

	"verif.local/rt/vsched"
)

type Bounds struct {
	Cost     int
	Policies []int
	Weight   int
}

type Scenario struct {
	Prop, Name, Doc                 string
	Run                             func()
	Quick, Thorough                 Bounds
	MaxSteps                        int
	EarlyTimers, ShortReads, Native int
	MapReverse, Race, ThoroughOnly  bool
	NoStmts, StmtsThorough          bool
	StmtsCost                       int
}

type Custom struct {
	Prop, Name, Doc string
	Run             func(c *Ctx)
}

type Violation struct{ Sig, Msg string }

type Ctx struct {
	Thorough                       bool
	Shard, Shards                  int
	States, Transitions, Validated int64
	Samples                        []string
	Violations                     []Violation
	Notes                          []string
	Facts                          map[string]int
}

func (c *Ctx) Fail(sig, msg string) {}
func (c *Ctx) Fact(string)          {}
func (c *Ctx) Sample(string)        {}

var all []Scenario

func Add(s Scenario)     { all = append(all, s) }
func AddCustom(c Custom) {}

func Main() {
	name := flag.String("scenario", "", "")
	run := flag.Int("run", 0, "")
	flag.Parse()
	vsched.Run = *run
	for _, s := range all {
		if s.Name == *name {
			done := make(chan struct{})
			go func() { s.Run(); close(done) }()
			select {
			case <-done:
				os.Exit(0)
			case <-time.After(40 * time.Second):
				fmt.Println("FAIL stuck")
				os.Exit(1)
			}
		}
	}
	os.Exit(3)
}
