package mc

import (
	"bufio"
	"bytes"
	"encoding/gob"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
	"unsafe"

	"verif.local/rt/vsched"
)

type node struct {
	parent *node
	step   int32
	pick   int32
}

func (n *node) devs() []vsched.Dev {
	var out []vsched.Dev
	for ; n != nil && n.pick != 0; n = n.parent {
		out = append(out, vsched.Dev{Step: int(n.step), Pick: int(n.pick)})
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}

type proc struct {
	cmd    *exec.Cmd
	in     *gob.Encoder
	inW    *bufio.Writer
	out    *gob.Decoder
	stderr bytes.Buffer
}

type master struct {
	self    string
	fd      *os.File
	nproc   int
	raceLog string
	idle    []*proc
	mu      sync.Mutex
}

func memfd() (*os.File, error) {
	name := []byte("vsched\x00")
	fd, _, e := syscall.Syscall(319, uintptr(unsafe.Pointer(&name[0])), 0, 0)
	if e != 0 {
		f, err := os.CreateTemp("/dev/shm", "vsched")
		if err != nil {
			return nil, err
		}
		os.Remove(f.Name())
		return f, f.Truncate(8 << tableBits)
	}
	f := os.NewFile(fd, "vsched")
	return f, f.Truncate(8 << tableBits)
}

func (m *master) start() (*proc, error) {
	p := &proc{}
	p.cmd = exec.Command(m.self, "-worker")
	p.cmd.ExtraFiles = []*os.File{m.fd}
	p.cmd.Stderr = &limited{b: &p.stderr}
	p.cmd.Env = append(os.Environ(), "GOTRACEBACK=single", "GORACE=halt_on_error=0 history_size=4 atexit_sleep_ms=0")
	in, err := p.cmd.StdinPipe()
	if err != nil {
		return nil, err
	}
	out, err := p.cmd.StdoutPipe()
	if err != nil {
		return nil, err
	}
	if err := p.cmd.Start(); err != nil {
		return nil, err
	}
	p.inW = bufio.NewWriterSize(in, 1<<16)
	p.in = gob.NewEncoder(p.inW)
	p.out = gob.NewDecoder(bufio.NewReaderSize(out, 1<<16))
	return p, nil
}

type limited struct {
	mu sync.Mutex
	b  *bytes.Buffer
}

func (l *limited) Write(p []byte) (int, error) {
	l.mu.Lock()
	defer l.mu.Unlock()
	if l.b.Len() < 1<<18 {
		l.b.Write(p)
	}
	return len(p), nil
}

func (p *proc) stop() {
	p.cmd.Process.Kill()
	p.cmd.Wait()
}

func (m *master) take() (*proc, error) {
	m.mu.Lock()
	if n := len(m.idle); n > 0 {
		p := m.idle[n-1]
		m.idle = m.idle[:n-1]
		m.mu.Unlock()
		return p, nil
	}
	m.mu.Unlock()
	return m.start()
}

func (m *master) give(p *proc) {
	m.mu.Lock()
	m.idle = append(m.idle, p)
	m.mu.Unlock()
}

func (m *master) stopAll() {
	for _, p := range m.idle {
		p.stop()
	}
	m.idle = nil
}

// do runs a batch; a worker that dies or hangs is replaced and reported.
func (m *master) do(batch []item, timeout time.Duration) ([]result, string, error) {
	p, err := m.take()
	if err != nil {
		return nil, "", err
	}
	type reply struct {
		r   []result
		err error
	}
	ch := make(chan reply, 1)
	go func() {
		if err := p.in.Encode(batch); err != nil {
			ch <- reply{nil, err}
			return
		}
		p.inW.Flush()
		var r []result
		err := p.out.Decode(&r)
		ch <- reply{r, err}
	}()
	t := time.NewTimer(timeout)
	defer t.Stop()
	select {
	case r := <-ch:
		if r.err != nil {
			p.stop()
			return nil, "process crashed: " + tail(p.stderr.String()), nil
		}
		race := ""
		if p.stderr.Len() > 0 {
			race = p.stderr.String()
			p.stderr.Reset()
		}
		m.give(p)
		return r.r, race, nil
	case <-t.C:
		p.stop()
		<-ch
		return nil, "no scheduling point reached for " + timeout.String() + ": endless loop or block", nil
	}
}

func tail(s string) string {
	lines := strings.Split(strings.TrimSpace(s), "\n")
	if len(lines) > 30 {
		lines = lines[:30]
	}
	return strings.Join(lines, "\n")
}

// tally is what was covered of one scenario.
type tally struct {
	Scenario   string         `json:"scenario"`
	Doc        string         `json:"doc,omitempty"`
	Policies   []int          `json:"default_schedules"`
	Bound      int            `json:"deviation_bound"`
	Completed  int            `json:"deviations_completed"`
	Executions int            `json:"executions"`
	Pruned     int            `json:"executions_joined_known_state"`
	States     int            `json:"states"`
	Steps      int            `json:"transitions"`
	Longest    int            `json:"longest_execution"`
	Diverged   int            `json:"replays_diverged"`
	Exhaustive bool           `json:"exhaustive_within_bound"`
	Facts      map[string]int `json:"outcomes,omitempty"`
	Native     int            `json:"native_runs_agreeing"`
	NativeBad  int            `json:"native_runs_disagreeing"`
	Known      map[string]int `json:"known_findings,omitempty"`
	WallS      float64        `json:"wall_s"`
	sample     string
}

type violation struct {
	Property string       `json:"property"`
	Scenario string       `json:"scenario"`
	Policy   int          `json:"policy"`
	Devs     []vsched.Dev `json:"decisions"`
	Status   string       `json:"status"`
	Sig      string       `json:"signature"`
	Message  string       `json:"message"`
	Cost     int          `json:"cost"`
	Trace    []string     `json:"trace,omitempty"`
}

type explorer struct {
	m        *master
	prop     string
	findings map[string]bool
	replay   string
	found    *violation
	thorough bool
	round    int
}

var digits = regexp.MustCompile(`0x[0-9a-f]+|[0-9]+`)

func signature(s *Scenario, r *result) string {
	msg := r.Msg
	if i := strings.IndexByte(msg, '\n'); i >= 0 {
		msg = msg[:i]
	}
	if r.Status == vsched.Deadlock {
		msg = "stuck"
	}
	msg = digits.ReplaceAllString(msg, "#")
	if len(msg) > 140 {
		msg = msg[:140]
	}
	return strings.TrimSuffix(s.Name, "/statements") + ": " + r.Status.String() + ": " + msg
}

func bad(s vsched.Status) bool {
	return s == vsched.Failed || s == vsched.Deadlock || s == vsched.Panicked || s == vsched.Horizon
}

// explore runs every execution of s within b; it returns early on a violation that is not a known finding.
func (x *explorer) explore(idx int, b Bounds, deadline time.Time) *tally {
	s := scenarios[idx]
	start := time.Now()
	t := &tally{Scenario: s.Name, Doc: s.Doc, Bound: b.Cost, Completed: -1, Facts: map[string]int{}, Exhaustive: true, Known: map[string]int{}}
	t.Policies = b.Policies
	if len(t.Policies) == 0 {
		t.Policies = []int{0}
	}
	type work struct {
		n      *node
		policy int
	}
	x.round++ // the states seen by earlier explorations do not count
	unsure := false
	levels := make([][]work, b.Cost+1)
	for _, p := range t.Policies {
		levels[0] = append(levels[0], work{nil, p})
	}
	for c := 0; c <= b.Cost; c++ {
		var mu sync.Mutex
		cond := sync.NewCond(&mu)
		busy := 0
		stop := false
		var wg sync.WaitGroup
		for w := 0; w < x.m.nproc; w++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for {
					mu.Lock()
					for len(levels[c]) == 0 && busy > 0 && !stop {
						cond.Wait()
					}
					if stop || len(levels[c]) == 0 {
						mu.Unlock()
						cond.Broadcast()
						return
					}
					if time.Now().After(deadline) {
						t.Exhaustive = false
						stop = true
						mu.Unlock()
						cond.Broadcast()
						return
					}
					k := len(levels[c])/(2*x.m.nproc) + 1
					if k > 32 {
						k = 32
					}
					if s.MaxSteps > 50000 && !s.Stmts {
						k = 1
					}
					chunk := append([]work{}, levels[c][len(levels[c])-k:]...)
					levels[c] = levels[c][:len(levels[c])-k]
					busy++
					mu.Unlock()

					batch := make([]item, len(chunk))
					for i, wk := range chunk {
						batch[i] = item{Scn: idx, Policy: wk.policy, Round: x.round, Devs: wk.n.devs()}
					}
					res, note := x.run(batch)

					mu.Lock()
					busy--
					for i := range res {
						r := &res[i]
						t.Executions++
						t.Steps += r.Steps
						t.States += r.States
						if r.Steps > t.Longest {
							t.Longest = r.Steps
						}
						if r.Status == vsched.Pruned {
							t.Pruned++
						}
						if r.Diverged {
							t.Diverged++
						}
						for _, f := range r.Facts {
							t.Facts[f.Name] += f.N
						}
						if bad(r.Status) && !stop {
							sig := signature(s, r)
							if x.known(sig) {
								t.Known[sig]++
							} else {
								mu.Unlock()
								v := x.confirm(idx, batch[i], c, note)
								mu.Lock()
								if v != nil && x.found == nil {
									x.found = v
									stop = true
								}
								unsure = unsure || v == nil // what would have followed is not known
							}
						}
						for _, br := range r.Branches {
							nc := c + int(br.Cost)
							if nc > b.Cost {
								continue
							}
							for pick := 1; pick < br.N; pick++ {
								levels[nc] = append(levels[nc], work{&node{chunk[i].n, int32(br.Step), int32(pick)}, chunk[i].policy})
							}
						}
					}
					mu.Unlock()
					cond.Broadcast()
				}
			}()
		}
		wg.Wait()
		if stop || !t.Exhaustive {
			t.Exhaustive = false
			break
		}
		if !unsure {
			t.Completed = c
		}
		levels[c] = nil
	}
	if unsure {
		t.Exhaustive = false
	}
	t.WallS = time.Since(start).Seconds()
	return t
}

// run executes a batch, isolating items that kill or hang their worker.
func (x *explorer) run(batch []item) ([]result, string) {
	res, note, err := x.m.do(batch, 60*time.Second)
	if err != nil {
		fmt.Fprintln(os.Stderr, "mc: cannot run a worker:", err)
		os.Exit(2)
	}
	if res != nil {
		return res, note
	}
	var out []result
	for _, it := range batch {
		it.NoSeen = true
		r, n, err := x.m.do([]item{it}, 20*time.Second)
		if err != nil {
			fmt.Fprintln(os.Stderr, "mc: cannot run a worker:", err)
			os.Exit(2)
		}
		if r == nil {
			out = append(out, result{Status: vsched.Failed, Msg: n})
			continue
		}
		out = append(out, r...)
	}
	return out, note
}

func (x *explorer) known(sig string) bool { return x.findings[x.prop+" "+sig] }

// confirm repeats a violating execution in fresh processes.
func (x *explorer) confirm(idx int, it item, cost int, note string) *violation {
	s := scenarios[idx]
	it.NoSeen = true
	tries := 3
	if s.Race { // the race detector drops what it knows at random, so as not to take pools for synchronisation
		tries = 16
	}
	var found *violation
	for try := 0; try < tries; try++ {
		// tracing formats, and formatting synchronises: race scenarios are repeated without first
		it.Trace = !s.Race || found != nil
		p, err := x.m.start()
		if err != nil {
			fmt.Fprintln(os.Stderr, "mc:", err)
			os.Exit(2)
		}
		m2 := &master{self: x.m.self, fd: x.m.fd, idle: []*proc{p}}
		r, n, err := m2.do([]item{it}, 30*time.Second)
		m2.stopAll()
		if err != nil {
			continue
		}
		var rr result
		if r == nil {
			rr = result{Status: vsched.Failed, Msg: n}
		} else {
			rr = r[0]
			if strings.Contains(n, "DATA RACE") {
				rr.Msg += "\n" + n
			}
		}
		if bad(rr.Status) {
			v := &violation{Property: s.Prop, Scenario: s.Name, Policy: it.Policy, Devs: it.Devs, Status: rr.Status.String(),
				Sig: signature(s, &rr), Message: rr.Msg, Cost: cost, Trace: rr.Log}
			if x.known(v.Sig) {
				return nil
			}
			if it.Trace {
				return v
			}
			found = v
		}
	}
	if found != nil {
		return found
	}
	fmt.Printf("note: a violating execution of %s could not be repeated and is not reported\n", s.Name)
	if os.Getenv("VERIF_DEBUG") != "" {
		fmt.Println(it.Policy, it.Devs, note)
	}
	return nil
}

type evidence struct {
	Property    string                 `json:"property"`
	Tier        string                 `json:"tier"`
	Seed        int                    `json:"seed"`
	Level       string                 `json:"level"`
	Coverage    map[string]interface{} `json:"coverage"`
	Assumptions []string               `json:"assumptions"`
	WallS       float64                `json:"wall_s"`
	Violations  int                    `json:"violations"`
}

// Main is the command line.
func Main() {
	finish()
	var (
		worker   = flag.Bool("worker", false, "")
		prop     = flag.String("prop", "", "property to decide")
		tier     = flag.String("tier", "quick", "quick or thorough")
		evid     = flag.String("evidence", "", "evidence file")
		replays  = flag.String("replays", "", "directory for replay files")
		findings = flag.String("findings", "", "known findings")
		native   = flag.String("native", "", "natively built harness")
		replay   = flag.String("replay", "", "replay file")
		only     = flag.String("only", "", "only scenarios containing this")
		list     = flag.Bool("list", false, "list scenarios")
		budget   = flag.Int("budget", 0, "seconds of exploration")
		cost     = flag.Int("cost", -1, "override the deviation bound")
		trace    = flag.Bool("trace", false, "print the default execution")
		procs    = flag.Int("procs", runtime.NumCPU(), "workers")
		raceBin  = flag.String("racebin", "", "race detector build")
		customW  = flag.String("custom", "", "")
	)
	flag.Parse()
	switch {
	case *worker:
		workerMain()
		return
	case *customW != "":
		customMain(*customW, *tier == "thorough")
		return
	case *list:
		for _, s := range scenarios { // as a table
			q := fmt.Sprint(s.Quick.Cost)
			if s.ThoroughOnly {
				q = "-"
			}
			how := ""
			if s.Race {
				how = ", race detector"
			}
			fmt.Printf("| %s | %s%s | %s | %d | %s |\n", s.Prop, s.Name, how, q, s.Thorough.Cost, s.Doc)
		}
		for _, c := range customs {
			fmt.Printf("| %s | %s, enumeration | | | %s |\n", c.Prop, c.Name, c.Doc)
		}
		return
	}
	self, err := os.Executable()
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	if *replay != "" {
		os.Exit(replayMain(*replay, self, *raceBin))
	}
	if *trace {
		for _, s := range scenarios {
			if s.Prop == *prop && strings.Contains(s.Name, *only) {
				o := s.opts(0, nil)
				o.Trace = true
				r := vsched.Run(o, s.Run)
				fmt.Println(s.Name, r.Status, r.Msg, "steps", r.Steps, "choices", len(r.Choices), "facts", r.Facts)
				fmt.Println(strings.Join(r.Log, "\n"))
			}
		}
		return
	}
	fd, err := memfd()
	if err != nil {
		fmt.Fprintln(os.Stderr, "mc: shared memory:", err)
		os.Exit(2)
	}
	m := &master{self: self, fd: fd, nproc: *procs}
	start := time.Now()
	thorough := *tier == "thorough"
	total := time.Duration(*budget) * time.Second
	if total == 0 {
		total = 100 * time.Second
		if thorough {
			total = 600 * time.Second
		}
	}
	x := &explorer{m: m, prop: *prop, thorough: thorough, findings: map[string]bool{}}
	loadFindings(*findings, x.findings)

	var idx []int
	weights := 0
	for i, s := range scenarios {
		if s.Prop != *prop || !strings.Contains(s.Name, *only) || (s.ThoroughOnly && !thorough) {
			continue
		}
		idx = append(idx, i)
		b := s.Quick
		if thorough {
			b = s.Thorough
		}
		if b.Weight == 0 {
			b.Weight = 1
		}
		weights += b.Weight
	}
	// native runs go on beside the exploration
	nat := startNative(*native, idx)

	var tallies []*tally
	left := total
	explore := func(i int, share func(b Bounds) time.Duration) *tally {
		s := scenarios[i]
		b := s.Quick
		if thorough {
			b = s.Thorough
		}
		if *cost >= 0 {
			b.Cost = *cost
		}
		if b.Weight == 0 {
			b.Weight = 1
		}
		mm := m
		if s.Race && *raceBin != "" {
			mm = &master{self: *raceBin, fd: fd, nproc: *procs}
		}
		x.m = mm
		t0 := time.Now()
		t := x.explore(i, b, t0.Add(share(b)))
		if mm != m {
			mm.stopAll()
		}
		left -= time.Since(t0)
		if left < time.Second {
			left = time.Second
		}
		fmt.Printf("%-40s cost<=%d policies=%v executions=%d states=%d steps=%d longest=%d exhaustive=%v %.1fs %v\n", s.Name, b.Cost, t.Policies,
			t.Executions, t.States, t.Steps, t.Longest, t.Exhaustive, t.WallS, facts(t.Facts))
		return t
	}
	unfinished := 0
	for _, i := range idx {
		t := explore(i, func(b Bounds) time.Duration {
			share := left * time.Duration(b.Weight) / time.Duration(weights)
			weights -= b.Weight
			return share
		})
		tallies = append(tallies, t)
		if x.found != nil {
			break
		}
		if !t.Exhaustive {
			unfinished++
		}
	}
	// what is left of the time goes to those whose share was not enough
	for k, i := range idx {
		if x.found != nil {
			break
		}
		if tallies[k].Exhaustive {
			continue
		}
		share := left / time.Duration(unfinished)
		unfinished--
		if share.Seconds() > 1.2*tallies[k].WallS {
			tallies[k] = explore(i, func(Bounds) time.Duration { return share })
		}
	}
	m.stopAll()

	ev := evidence{Property: *prop, Tier: *tier, Level: "model_checking", Coverage: map[string]interface{}{}}
	ev.Seed, _ = strconv.Atoi(os.Getenv("VERIF_SEED"))
	states, transitions, validated, execs := 0, 0, 0, 0
	exhaustive := true
	var samples []interface{}
	known := map[string]int{}

	// enumerations that need no scheduler
	var customT []interface{}
	if x.found == nil {
		for _, c := range customs {
			if c.Prop != *prop || !strings.Contains(c.Name, *only) {
				continue
			}
			ctx, err := runCustom(self, c.Name, *tier, *procs)
			if err != nil {
				fmt.Fprintln(os.Stderr, "mc:", err)
				os.Exit(2)
			}
			states += int(ctx.States)
			transitions += int(ctx.Transitions)
			validated += int(ctx.Validated)
			for _, s := range ctx.Samples {
				if len(samples) < 8 {
					samples = append(samples, map[string]string{"enumeration": c.Name, "case": s})
				}
			}
			customT = append(customT, map[string]interface{}{"enumeration": c.Name, "doc": c.Doc, "states": ctx.States,
				"transitions": ctx.Transitions, "compared_with_implementation": ctx.Validated, "facts": ctx.Facts, "notes": ctx.Notes})
			fmt.Printf("%-34s states=%d transitions=%d compared=%d %v %v\n", c.Name, ctx.States, ctx.Transitions, ctx.Validated, facts(ctx.Facts), ctx.Notes)
			for _, v := range ctx.Violations {
				sig := c.Name + ": " + v.Sig
				if x.known(sig) {
					known[sig]++
					continue
				}
				if x.found == nil {
					x.found = &violation{Property: *prop, Scenario: c.Name, Status: "failed", Sig: sig, Message: v.Msg}
				}
			}
		}
	}
	nat.wait(tallies)
	for _, t := range tallies {
		states += t.States
		transitions += t.Steps
		validated += t.Native
		execs += t.Executions
		exhaustive = exhaustive && t.Exhaustive
		for k, n := range t.Known {
			known[k] += n
		}
	}
	if x.found == nil {
		for _, i := range idx {
			if len(samples) >= 6 {
				break
			}
			samples = append(samples, sampleOf(i))
		}
	} else {
		samples = append(samples, x.found)
	}
	ev.Coverage["states"] = states
	ev.Coverage["transitions"] = transitions
	ev.Coverage["traces_validated_against_impl"] = validated
	ev.Coverage["executions_of_the_implementation"] = execs
	ev.Coverage["exhaustive"] = exhaustive
	ev.Coverage["samples"] = samples
	ev.Coverage["scenarios"] = tallies
	if customT != nil {
		ev.Coverage["enumerations"] = customT
	}
	ev.Coverage["explanation"] = "states: distinct happens-before hashes at scheduling decisions (scenarios) and distinct abstract states or inputs (enumerations); " +
		"transitions: scheduling steps executed and operations applied; every execution runs the implementation itself, rewritten so that its synchronisation goes through the scheduler; " +
		"traces_validated_against_impl: scenario runs repeated with the unmodified implementation on the real runtime, clock and loopback network with the same verdict, plus enumerated cases compared one by one with the implementation"
	ev.Assumptions = assumptions
	ev.WallS = time.Since(start).Seconds()
	if x.found != nil {
		ev.Violations = 1
	}
	if *evid != "" {
		b, _ := json.MarshalIndent(ev, "", " ")
		if err := os.WriteFile(*evid, append(b, '\n'), 0o644); err != nil {
			fmt.Fprintln(os.Stderr, "mc:", err)
			os.Exit(2)
		}
	}
	var ks []string
	for k := range known {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", *prop, k)
	}
	if v := x.found; v != nil {
		path := filepath.Join(*replays, *prop+"-"+strings.NewReplacer("/", "_", " ", "_").Replace(v.Scenario)+".json")
		os.MkdirAll(filepath.Dir(path), 0o755)
		b, _ := json.MarshalIndent(v, "", " ")
		os.WriteFile(path, append(b, '\n'), 0o644)
		fmt.Printf("%s: %s\n", v.Sig, v.Message)
		fmt.Printf("VIOLATION property=%s replay=%s\n", *prop, path)
		os.Exit(1)
	}
}

var assumptions = []string{
	"code between two synchronisation operations is atomic (C27 decides data races), except in the statements variants of scenarios",
	"sync, time, context, net, crypto/rand and fastcache are replaced by models of them; the conformance runs compare",
	"schedules beyond the stated number of deviations from the default schedules are not explored",
	"happens-before hashes are 64 bits wide: a collision would hide states",
}

func facts(m map[string]int) string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var out []string
	for _, k := range ks {
		out = append(out, fmt.Sprintf("%s=%d", k, m[k]))
	}
	return strings.Join(out, " ")
}

func sampleOf(i int) interface{} {
	s := scenarios[i]
	o := s.opts(0, nil)
	o.Trace = true
	r := vsched.Run(o, s.Run)
	log := r.Log
	if len(log) > 40 {
		log = append(append([]string{}, log[:20]...), append([]string{fmt.Sprintf("... %d more ...", len(log)-40)}, log[len(log)-20:]...)...)
	}
	return map[string]interface{}{"scenario": s.Name, "decisions": "default schedule", "status": r.Status.String(), "steps": r.Steps, "trace": log}
}

func loadFindings(path string, into map[string]bool) {
	if path == "" {
		return
	}
	b, err := os.ReadFile(path)
	if err != nil {
		return
	}
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "finding: ") {
			continue
		}
		// finding: property=Cxx signature=<...>
		f := strings.SplitN(strings.TrimPrefix(l, "finding: property="), " signature=", 2)
		if len(f) == 2 {
			into[f[0]+" "+f[1]] = true
		}
	}
}

func replayMain(path, self, raceBin string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var v violation
	if err := json.Unmarshal(b, &v); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	s := find(v.Scenario)
	if s == nil {
		for _, c := range customs {
			if c.Name == v.Scenario {
				ctx, err := runCustom(self, c.Name, "quick", runtime.NumCPU())
				if err != nil {
					fmt.Fprintln(os.Stderr, err)
					return 2
				}
				for _, w := range ctx.Violations {
					fmt.Println(w.Sig, w.Msg)
				}
				if len(ctx.Violations) > 0 {
					return 1
				}
				return 0
			}
		}
		fmt.Fprintln(os.Stderr, "no such scenario:", v.Scenario)
		return 2
	}
	o := s.opts(v.Policy, v.Devs)
	o.Trace = true
	r := vsched.Run(o, s.Run)
	fmt.Println(strings.Join(r.Log, "\n"))
	fmt.Println(r.Status, r.Msg)
	if bad(r.Status) {
		fmt.Printf("VIOLATION property=%s replay=%s\n", v.Property, path)
		return 1
	}
	return 0
}

type nativeRuns struct {
	wg  sync.WaitGroup
	mu  sync.Mutex
	ok  map[string]int
	bad map[string]int
}

func startNative(bin string, idx []int) *nativeRuns {
	n := &nativeRuns{ok: map[string]int{}, bad: map[string]int{}}
	if bin == "" {
		return n
	}
	sem := make(chan struct{}, 6)
	for _, i := range idx {
		s := scenarios[i]
		for k := 0; k < s.Native; k++ {
			n.wg.Add(1)
			go func() {
				defer n.wg.Done()
				sem <- struct{}{}
				defer func() { <-sem }()
				cmd := exec.Command(bin, "-scenario", s.Name, "-run", strconv.Itoa(k))
				var out bytes.Buffer
				cmd.Stdout, cmd.Stderr = &out, &out
				done := make(chan error, 1)
				if err := cmd.Start(); err != nil {
					return
				}
				go func() { done <- cmd.Wait() }()
				var err error
				select {
				case err = <-done:
				case <-time.After(60 * time.Second):
					cmd.Process.Kill()
					err = <-done
				}
				n.mu.Lock()
				defer n.mu.Unlock()
				if err == nil {
					n.ok[s.Name]++
				} else {
					n.bad[s.Name]++
					fmt.Printf("note: native run of %s disagrees: %v %s\n", s.Name, err, tail(out.String()))
				}
			}()
		}
	}
	return n
}

func (n *nativeRuns) wait(ts []*tally) {
	n.wg.Wait()
	for _, t := range ts {
		t.Native, t.NativeBad = n.ok[t.Scenario], n.bad[t.Scenario]
	}
}

// runCustom runs a custom enumeration in shards, each in a process of its own.
func runCustom(self, name, tier string, shards int) (*Ctx, error) {
	total := &Ctx{Facts: map[string]int{}}
	var mu sync.Mutex
	var wg sync.WaitGroup
	var first error
	for i := 0; i < shards; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			cmd := exec.Command(self, "-custom", fmt.Sprintf("%d/%d/%s", i, shards, name), "-tier", tier)
			var out, errb bytes.Buffer
			cmd.Stdout, cmd.Stderr = &out, &limited{b: &errb}
			limit := 240 * time.Second
			if tier == "thorough" {
				limit = 1200 * time.Second
			}
			var late int32
			stop := time.AfterFunc(limit, func() {
				atomic.StoreInt32(&late, 1)
				if cmd.Process != nil {
					cmd.Process.Kill()
				}
			})
			err := cmd.Run()
			stop.Stop()
			mu.Lock()
			defer mu.Unlock()
			c := &Ctx{}
			if e := json.Unmarshal(out.Bytes(), c); e != nil || err != nil {
				if atomic.LoadInt32(&late) == 1 {
					c.Violations = append(c.Violations, Violation{"does not terminate", fmt.Sprintf("shard %d/%d of %s is not done after %v", i, shards, name, limit)})
				} else if strings.Contains(errb.String(), "panic:") || strings.Contains(errb.String(), "fatal error:") {
					c.Violations = append(c.Violations, Violation{"process crashed", tail(errb.String())})
				} else if first == nil {
					first = fmt.Errorf("%s: %v %v %s", name, err, e, tail(errb.String()))
				}
			}
			total.States += c.States
			total.Transitions += c.Transitions
			total.Validated += c.Validated
			if len(total.Samples) < 4 {
				total.Samples = append(total.Samples, c.Samples...)
			}
			total.Violations = append(total.Violations, c.Violations...)
			if i == 0 {
				total.Notes = c.Notes
			}
			for k, v := range c.Facts {
				total.Facts[k] += v
			}
		}(i)
	}
	wg.Wait()
	return total, first
}

func customMain(spec string, thorough bool) {
	f := strings.SplitN(spec, "/", 3)
	shard, _ := strconv.Atoi(f[0])
	shards, _ := strconv.Atoi(f[1])
	for _, c := range customs {
		if c.Name != f[2] {
			continue
		}
		ctx := &Ctx{Thorough: thorough, Shard: shard, Shards: shards, Facts: map[string]int{}}
		func() {
			defer func() {
				if r := recover(); r != nil {
					ctx.Fail(fmt.Sprintf("panic: %v", r), fmt.Sprintf("panic: %v\n%s", r, stack()))
				}
			}()
			c.Run(ctx)
		}()
		b, _ := json.Marshal(ctx)
		os.Stdout.Write(b)
		return
	}
	os.Exit(2)
}

func stack() string {
	b := make([]byte, 1<<14)
	return string(b[:runtime.Stack(b, false)])
}
