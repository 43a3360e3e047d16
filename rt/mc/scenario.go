// Package mc explores scenarios exhaustively within bounds.
package mc

import (
	"verif.local/rt/vsched"
)

// Bounds of an exploration.
type Bounds struct {
	Cost     int   // deviations from the default schedule, and costly data decisions, per execution
	Policies []int // default schedules to deviate from; empty: 0
	Weight   int   // share of the time budget; 0 is 1
}

// Scenario is a closed program: nodes, peers and an oracle. Every execution of it within the bounds is explored.
type Scenario struct {
	Prop     string
	Name     string
	Doc      string
	Run      func()
	Quick    Bounds
	Thorough Bounds
	MaxSteps int

	EarlyTimers  int  // timers that may fire although threads can still run (slow threads)
	ShortReads   int  // reads that may return fewer bytes than available
	MapReverse   bool // map iteration in reverse order as a costly decision
	Native       int  // times to run uninstrumented, against the real runtime and network
	Race         bool // explored in the race detector build
	ThoroughOnly bool

	Stmts     bool // every statement of the library is a scheduling point
	NoStmts   bool // no such variant
	StmtsCost int  // deviations of that variant in the thorough tier, if not one

	StmtsThorough bool // such a variant in the thorough tier only
}

// Custom is an enumeration that needs no scheduler.
type Custom struct {
	Prop string
	Name string
	Doc  string
	Run  func(c *Ctx)
}

// Ctx is what a Custom reports to.
type Ctx struct {
	Thorough bool
	Shard    int
	Shards   int

	States, Transitions, Validated int64
	Samples                        []string
	Violations                     []Violation
	Notes                          []string
	Facts                          map[string]int
}

// Violation is a violated property.
type Violation struct {
	Sig, Msg string
}

// Fail records a violation.
func (c *Ctx) Fail(sig, msg string) {
	if len(c.Violations) < 20 {
		c.Violations = append(c.Violations, Violation{sig, msg})
	}
}

// Fact counts something for the evidence.
func (c *Ctx) Fact(name string) { c.Facts[name]++ }

// Sample records a case for the evidence.
func (c *Ctx) Sample(s string) {
	if len(c.Samples) < 4 {
		c.Samples = append(c.Samples, s)
	}
}

var (
	scenarios []*Scenario
	customs   []*Custom
)

// Add registers a scenario.
func Add(s Scenario) {
	if s.Thorough.Cost == 0 && s.Thorough.Policies == nil {
		s.Thorough = Bounds{Cost: s.Quick.Cost + 1, Policies: s.Quick.Policies, Weight: s.Quick.Weight}
	}
	scenarios = append(scenarios, &s)
	if s.Quick.Cost > 0 && s.Prop != "C27" && !s.NoStmts {
		v := s
		v.Name += "/statements"
		v.Doc += " One switch of threads, in front of any statement of the library."
		v.Stmts, v.Race, v.Native, v.EarlyTimers, v.ShortReads, v.MapReverse = true, false, 0, 0, 0, false
		if v.MaxSteps == 0 {
			v.MaxSteps = 20000
		}
		v.MaxSteps *= 20
		v.Quick.Cost, v.Thorough.Cost = 1, 1
		if len(v.Quick.Policies) > 1 {
			v.Quick.Policies = v.Quick.Policies[:1]
		}
		if s.StmtsCost > 1 {
			v.Thorough.Cost = s.StmtsCost
		}
		v.ThoroughOnly = v.ThoroughOnly || s.StmtsThorough
		statements = append(statements, &v)
	}
}

var statements []*Scenario

// finish adds the variants to the scenarios.
func finish() {
	scenarios = append(scenarios, statements...)
	statements = nil
}

// AddCustom registers a custom enumeration.
func AddCustom(c Custom) { customs = append(customs, &c) }

func (s *Scenario) opts(policy int, devs []vsched.Dev) vsched.Opts {
	return vsched.Opts{
		Devs: devs, Policy: policy, MaxSteps: s.MaxSteps,
		EarlyTimers: s.EarlyTimers, ShortReads: s.ShortReads, MapReverse: s.MapReverse, Stmts: s.Stmts,
	}
}

func find(name string) *Scenario {
	for _, s := range scenarios {
		if s.Name == name {
			return s
		}
	}
	return nil
}
