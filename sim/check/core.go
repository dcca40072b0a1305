// Package check holds the properties: generators of scenarios, judges that run
// a scenario in the simulator and compare it with a reference model, and the
// search loop around them.
package check

import (
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"vsim/kernel"
)

type (
	Scenario = kernel.Scenario
	Result   = kernel.Result
	Rng      = kernel.Rng
)

// Violation of a property.  Class stays the same under minimisation.
type Violation struct {
	Class string `json:"class"`
	Msg   string `json:"message"`
}

func bad(class, format string, args ...interface{}) *Violation {
	return &Violation{class, fmt.Sprintf(format, args...)}
}

// Prop is one property and its machinery.
type Prop struct {
	ID       string
	Progs    []string
	Harness  []string
	Quick    int // base cases
	Thorough int
	Level    string
	Rule     string
	Real     string
	Assume   []string
	// Case builds the scenarios of one seed and passes each to c.Try.
	Case func(c *Ctx, r *Rng)
	// Judge runs a scenario and decides it.  It depends on the scenario only.
	Judge func(c *Ctx, sc *Scenario) (*Result, *Violation)
}

var Props = map[string]*Prop{}

func register(p *Prop) {
	if p.Level == "" {
		p.Level = "exploration"
	}
	Props[p.ID] = p
}

type infra struct{ err error }

// Ctx is what a case sees.
type Ctx struct {
	P    *Prop
	Bins map[string]string
	Dict *Dict
	st   *stats
	Seed uint64
	Idx  int

	found *found
	quiet bool // minimising or replaying: no statistics
	probe map[string]int
	until time.Time // cases end early after this
}

type found struct {
	idx int
	sc  *Scenario
	v   *Violation
	res *Result
}

type stats struct {
	mu          sync.Mutex
	runs        int64
	judged      int64
	events      int64
	simTime     int64
	injected    map[string]int
	unsupported map[string]int
	probes      map[string]int
	hashes      map[uint64]bool
	scheds      map[uint64]bool
	progs       map[string]int
	samples     []interface{}
}

func newStats() *stats {
	return &stats{injected: map[string]int{}, unsupported: map[string]int{}, probes: map[string]int{}, hashes: map[uint64]bool{}, scheds: map[uint64]bool{}, progs: map[string]int{}}
}

// Probe counts that a rare condition was reached.
func (c *Ctx) Probe(name string) {
	if c.probe != nil && !c.quiet {
		c.probe[name]++
	}
}

// Run performs one simulated execution.
func (c *Ctx) Run(sc *Scenario, hook kernel.Hook) *Result {
	res, err := kernel.Run(c.Bins, sc, hook)
	if err != nil {
		panic(infra{err})
	}
	for i := range res.Procs {
		// A limit hit on a busy machine must not become a verdict by itself:
		// confirm it.
		if (res.Procs[i].CPULimit || res.Procs[i].WallLimit) && !c.quiet {
			res, err = kernel.Run(c.Bins, sc, hook)
			if err != nil {
				panic(infra{err})
			}
			break
		}
	}
	if c.quiet {
		if outOfMemory(sc, res) {
			panic(unjudged{res})
		}
		return res
	}
	s := c.st
	s.mu.Lock()
	s.runs++
	s.events += int64(len(res.Events))
	s.simTime += res.SimTime
	for k, v := range res.Injected {
		s.injected[k] += v
	}
	for k, v := range res.Unsupported {
		s.unsupported[k] += v
	}
	if len(res.Injected) > 0 {
		s.hashes[kernel.Mix(res.Hash, 1)] = true
	}
	s.scheds[res.SchedHash] = true
	for i := range sc.Procs {
		s.progs[sc.Procs[i].Prog]++
	}
	s.mu.Unlock()
	if outOfMemory(sc, res) {
		c.Probe("ran out of memory: not judged")
		panic(unjudged{res})
	}
	return res
}

// unjudged abandons a scenario.
type unjudged struct{ res *Result }

// outOfMemory: the processes run without garbage collection, so on big inputs
// running out of memory says nothing about the program.
func outOfMemory(sc *Scenario, res *Result) bool {
	oom := false
	for i := range res.Procs {
		oom = oom || strings.Contains(res.Procs[i].Diag, "out of memory")
	}
	if !oom {
		return false
	}
	n := 0
	for _, f := range sc.Files {
		n += len(f.Data) * max(1, f.Rep)
	}
	for i := range sc.Procs {
		n += len(stdinBytes(&sc.Procs[i]))
	}
	return n > 1<<16
}

type stop struct{}

// Try judges a scenario; a violation ends the case.
func (c *Ctx) Try(sc *Scenario) *Result {
	if !c.until.IsZero() && time.Now().After(c.until) {
		panic(stop{}) // out of time
	}
	atomic.AddInt64(&c.st.judged, 1)
	res, v, err := c.judge(sc)
	if err != nil {
		panic(infra{err})
	}
	if v != nil {
		c.found = &found{c.Idx, sc, v, res}
		panic(stop{})
	}
	return res
}

func (c *Ctx) runCase() (f *found, err error) {
	defer func() {
		if x := recover(); x != nil {
			switch x := x.(type) {
			case stop:
				f = c.found
			case infra:
				err = x.err
			case unjudged:
			default:
				panic(x)
			}
		}
	}()
	c.P.Case(c, kernel.NewRng(c.Seed))
	return nil, nil
}

// Judge with infrastructure errors turned into an error.
func (c *Ctx) judge(sc *Scenario) (res *Result, v *Violation, err error) {
	defer func() {
		if x := recover(); x != nil {
			switch x := x.(type) {
			case infra:
				err = x.err
			case unjudged:
				res, v = x.res, nil
			default:
				panic(x)
			}
		}
	}()
	res, v = c.P.Judge(c, sc)
	return res, v, nil
}

// Options of one check run.
type Options struct {
	Verif   string
	Repo    string
	Tier    string
	Seed    uint64
	Workers int
	Cases   int // 0: by tier
	Cap     time.Duration
	HashLog string // write per-case hashes (determinism test)
}

// Check searches for a violation of p.  It returns the process exit status.
func Check(p *Prop, bins map[string]string, o Options) int {
	start := time.Now()
	n := p.Quick
	if o.Tier == "thorough" {
		n = p.Thorough
	}
	if o.Cases > 0 {
		n = o.Cases
	}
	if o.Workers == 0 {
		o.Workers = runtime.NumCPU()
	}
	dict := Harvest(o.Repo)
	st := newStats()
	var next int64 = -1
	var mu sync.Mutex
	var best *found
	var firstErr error
	var capped int32
	done := int64(0)
	logs := make([]uint64, n)
	limit := int64(n)
	var wg sync.WaitGroup
	for w := 0; w < o.Workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				i := atomic.AddInt64(&next, 1)
				if i >= atomic.LoadInt64(&limit) {
					return
				}
				if o.Cap > 0 && time.Since(start) > o.Cap {
					atomic.StoreInt32(&capped, 1)
					return
				}
				c := &Ctx{P: p, Bins: bins, Dict: dict, st: st, Idx: int(i), probe: map[string]int{}}
				if o.Cap > 0 {
					c.until = start.Add(o.Cap)
				}
				c.Seed = kernel.Mix(o.Seed, kernel.HashString(p.ID), uint64(i))
				var cst *stats
				if o.HashLog != "" {
					cst = newStats()
					c.st = cst
				}
				f, err := c.runCase()
				if cst != nil {
					var hs []uint64
					for h := range cst.hashes {
						hs = append(hs, h)
					}
					sort.Slice(hs, func(a, b int) bool { return hs[a] < hs[b] })
					logs[i] = kernel.Mix(uint64(cst.events), hs...)
				}
				st.mu.Lock()
				if cst != nil {
					st.runs, st.judged = st.runs+cst.runs, st.judged+cst.judged
				}
				for k, v := range c.probe {
					st.probes[k] += v
				}
				st.mu.Unlock()
				atomic.AddInt64(&done, 1)
				mu.Lock()
				if err != nil && firstErr == nil {
					firstErr = err
					atomic.StoreInt64(&limit, 0)
				}
				if f != nil && (best == nil || f.idx < best.idx) {
					best = f
					// cases with a smaller index are still finished
					if l := int64(f.idx); l < atomic.LoadInt64(&limit) {
						atomic.StoreInt64(&limit, l)
					}
				}
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	if o.HashLog != "" {
		var b strings.Builder
		for i, h := range logs {
			fmt.Fprintf(&b, "%d %016x\n", i, h)
		}
		os.WriteFile(o.HashLog, []byte(b.String()), 0o644)
	}
	if firstErr != nil {
		fmt.Fprintln(os.Stderr, "error of the check:", firstErr)
		return 3
	}
	status := 0
	viol := 0
	if best != nil {
		c := &Ctx{P: p, Bins: bins, Dict: dict, st: newStats(), quiet: true}
		path, err := report(c, best, o)
		if err != nil {
			fmt.Fprintln(os.Stderr, "error of the check:", err)
			return 3
		}
		fmt.Printf("%s: %s\n", best.v.Class, best.v.Msg)
		fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, path)
		status = 1
		viol = 1
	}
	wall := time.Since(start).Seconds()
	if err := evidence(p, o, st, int(done), n, atomic.LoadInt32(&capped) != 0, wall, viol); err != nil {
		fmt.Fprintln(os.Stderr, "error of the check:", err)
		return 3
	}
	if status == 0 {
		fmt.Printf("%s: held on %d simulated runs (%d seeds, %d judged scenarios, %.1f s)\n", p.ID, st.runs, done, st.judged, wall)
	}
	return status
}

// Replay file.
type Replay struct {
	Property  string     `json:"property"`
	Seed      uint64     `json:"verif_seed"`
	Case      int        `json:"case"`
	Violation *Violation `json:"violation"`
	Scenario  *Scenario  `json:"scenario"`
	Trace     []string   `json:"trace"`
	Output    []string   `json:"output"`
}

func report(c *Ctx, f *found, o Options) (string, error) {
	// The exact run, with its decisions written down, must fail again.
	sc := f.sc.Clone()
	if f.res != nil && !sc.UseDecisions {
		sc.UseDecisions = true
		sc.Decisions = trim(f.res.Decisions)
	}
	res, v, err := c.judge(sc)
	if err != nil {
		return "", err
	}
	if v == nil {
		// judged over several runs: fall back to the seed itself
		sc = f.sc.Clone()
		res, v, err = c.judge(sc)
		if err != nil {
			return "", err
		}
		if v == nil {
			return "", fmt.Errorf("violation did not reproduce: %s: %s", f.v.Class, f.v.Msg)
		}
	}
	m := minimise(c, sc, v)
	res, v2, err := c.judge(m)
	if err != nil {
		return "", err
	}
	if v2 == nil {
		m, v2 = sc, v
		if res, v2, err = c.judge(m); err != nil || v2 == nil {
			return "", fmt.Errorf("violation did not reproduce")
		}
	}
	f.v = v2
	rp := Replay{Property: c.P.ID, Seed: o.Seed, Case: f.idx, Violation: v2, Scenario: m}
	if res != nil {
		for _, e := range res.Events {
			rp.Trace = append(rp.Trace, e.String())
		}
		for i := range res.Procs {
			p := &res.Procs[i]
			rp.Output = append(rp.Output, fmt.Sprintf("p%d exit=%d signal=%d stdout=%q stderr=%q runtime=%q", i, p.Exit, p.Signal, clip(string(p.Stdout), 2000), clip(string(p.Stderr), 1000), clip(p.Diag, 1000)))
		}
	}
	b, err := json.MarshalIndent(rp, "", " ")
	if err != nil {
		return "", err
	}
	h := sha256.Sum256(b)
	dir := filepath.Join(o.Verif, "replays")
	if err := os.MkdirAll(dir, 0o755); err != nil {
		return "", err
	}
	path := filepath.Join(dir, c.P.ID+"-"+hex.EncodeToString(h[:6])+".json")
	if err := os.WriteFile(path, b, 0o644); err != nil {
		return "", err
	}
	// Replaying the file must reproduce it exactly.
	ok, msg, err := ReplayFile(path, c.Bins)
	if err != nil {
		return "", err
	}
	if !ok {
		return "", fmt.Errorf("replay of %s did not reproduce: %s", path, msg)
	}
	return path, nil
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func trim(d []int) []int {
	d = append([]int(nil), d...)
	for len(d) > 0 && d[len(d)-1] == 0 {
		d = d[:len(d)-1]
	}
	return d
}

// ReplayProp is the property a replay file is about.
func ReplayProp(path string) (string, error) {
	b, err := os.ReadFile(path)
	if err != nil {
		return "", err
	}
	var rp Replay
	err = json.Unmarshal(b, &rp)
	return rp.Property, err
}

// ReplayFile runs a replay file again and compares violation and event trace.
func ReplayFile(path string, bins map[string]string) (bool, string, error) {
	b, err := os.ReadFile(path)
	if err != nil {
		return false, "", err
	}
	var rp Replay
	if err := json.Unmarshal(b, &rp); err != nil {
		return false, "", err
	}
	p := Props[rp.Property]
	if p == nil {
		return false, "", fmt.Errorf("unknown property %q", rp.Property)
	}
	c := &Ctx{P: p, Bins: bins, Dict: &Dict{}, st: newStats(), quiet: true}
	res, v, err := c.judge(rp.Scenario)
	if err != nil {
		return false, "", err
	}
	if v == nil {
		return false, "no violation", nil
	}
	if v.Class != rp.Violation.Class {
		return false, "another violation: " + v.Class, nil
	}
	if res != nil {
		for i, e := range res.Events {
			if i < len(rp.Trace) && rp.Trace[i] != e.String() {
				return false, fmt.Sprintf("event %d differs: %s instead of %s", i, e, rp.Trace[i]), nil
			}
		}
		if len(res.Events) != len(rp.Trace) {
			return false, "trace length differs", nil
		}
	}
	return true, v.Class + ": " + v.Msg, nil
}

// TraceFile prints the run of a replay file.
func TraceFile(path string, bins map[string]string) error {
	b, err := os.ReadFile(path)
	if err != nil {
		return err
	}
	var rp Replay
	if err := json.Unmarshal(b, &rp); err != nil {
		return err
	}
	c := &Ctx{P: Props[rp.Property], Bins: bins, Dict: &Dict{}, st: newStats(), quiet: true}
	res, v, err := c.judge(rp.Scenario)
	if err != nil {
		return err
	}
	for _, e := range res.Events {
		fmt.Println(e)
	}
	for i := range res.Procs {
		p := &res.Procs[i]
		fmt.Printf("p%d exit=%d signal=%d killed=%v stdout=%q stderr=%q runtime=%q\n", i, p.Exit, p.Signal, p.Killed, p.Stdout, p.Stderr, p.Diag)
	}
	if v != nil {
		fmt.Println(v.Class, v.Msg)
	}
	return nil
}

func evidence(p *Prop, o Options, st *stats, done, planned int, capped bool, wall float64, viol int) error {
	comps := []string{}
	for k := range st.progs {
		comps = append(comps, k)
	}
	sort.Strings(comps)
	if len(st.samples) == 0 {
		// a sample scenario: regenerate the first ones
		st.samples = sampleCases(p, o)
	}
	cov := map[string]interface{}{
		"evaluations":              st.runs,
		"distinct_nontrivial":      len(st.hashes),
		"rule":                     p.Rule + " A run is non-trivial if at least one perturbation or fault was actually delivered in it; runs are distinct if the hash over all their system calls, results, decisions and outputs differs.",
		"samples":                  st.samples,
		"seeds":                    done,
		"seeds_planned":            planned,
		"stopped_by_time_cap":      capped,
		"scenarios_judged":         st.judged,
		"simulated_runs_per_hour":  int64(float64(st.runs) / wall * 3600),
		"seeds_per_hour":           int64(float64(done) / wall * 3600),
		"simulated_events":         st.events,
		"simulated_time_s":         float64(st.simTime) / 1e6,
		"faults_injected":          st.injected,
		"probes":                   st.probes,
		"distinct_schedules":       len(st.scheds),
		"schedule_measure":         "hash over every choice of goroutine, preemption and process the scheduler made in a run",
		"unsupported_system_calls": st.unsupported,
		"real_code":                append(comps, "Go runtime and standard library (scheduler choice, clock, randomness and system-call instructions replaced)"),
		"simulated":                []string{"kernel: file system, disk with volatile cache, pipes, process table", "clock", "randomness", "goroutine and process scheduling"},
	}
	ev := map[string]interface{}{
		"property": p.ID, "tier": o.Tier, "seed": o.Seed, "level": p.Level,
		"coverage": cov, "assumptions": append([]string{
			"system calls reach the kernel only through package syscall of the Go standard library",
			"a system call is atomic with respect to other processes unless a torn or short transfer is injected",
		}, p.Assume...), "wall_s": wall, "violations": viol,
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		return err
	}
	dir := filepath.Join(o.Verif, "evidence")
	if err := os.MkdirAll(dir, 0o755); err != nil {
		return err
	}
	return os.WriteFile(filepath.Join(dir, p.ID+".json"), b, 0o644)
}

type sampled struct{}

func sampleCases(p *Prop, o Options) (out []interface{}) {
	for i := 0; i < 2; i++ {
		func() {
			defer func() {
				if x := recover(); x != nil {
					if _, ok := x.(sampled); !ok {
						panic(x)
					}
				}
			}()
			q := *p
			q.Judge = func(c *Ctx, sc *Scenario) (*Result, *Violation) {
				b, _ := json.Marshal(sc)
				var v interface{}
				if len(b) < 6000 {
					json.Unmarshal(b, &v)
					out = append(out, v)
				} else {
					out = append(out, clip(string(b), 3000))
				}
				panic(sampled{})
			}
			c := &Ctx{P: &q, Dict: Harvest(o.Repo), st: newStats(), Idx: i, quiet: true}
			c.Seed = kernel.Mix(o.Seed, kernel.HashString(p.ID), uint64(i))
			p.Case(c, kernel.NewRng(c.Seed))
		}()
	}
	return out
}
