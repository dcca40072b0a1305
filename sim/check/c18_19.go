package check

import (
	"fmt"
	"sort"
	"strings"

	"vsim/kernel"
)

var localeVars = []string{"LANG", "LC_ALL", "LC_CTYPE", "LC_COLLATE", "LC_MONETARY", "LC_NUMERIC", "LC_TIME", "LC_MESSAGES"}

func localeScenario(c *Ctx, r *Rng, _ bool) *Scenario {
	sc := baseScenario(r)
	sc.Procs = one("locale")
	vals := []string{"", "C", "POSIX", "en_US.UTF-8", "de_DE", "%s%d", "a b", "\"q\"", "é"}
	var env []string
	for _, v := range localeVars {
		if r.N(2) == 0 {
			x := vals[r.N(len(vals))]
			if r.N(10) == 0 {
				x = strings.Repeat("x", c.size(r, 9000)+1)
			}
			env = append(env, v+"="+x)
		}
	}
	sc.Procs[0].Env = env
	return sc
}

// benign is the same scenario without perturbations and output faults.
func benign(sc *Scenario) *Scenario {
	t := sc.Clone()
	t.Knobs = kernel.Knobs{}
	t.UseDecisions, t.Decisions = true, nil
	for i := range t.Procs {
		p := &t.Procs[i]
		p.StdoutLimit, p.StdoutErr = -1, 0
		if len(p.Stdin) > 0 {
			p.Stdin = []kernel.Chunk{{Data: stdinBytes(p)}}
		}
	}
	var fs []kernel.Fault
	for _, f := range t.Faults {
		if f.Role != "stdout" {
			fs = append(fs, f)
		}
	}
	t.Faults = fs
	return t
}

func judge18(c *Ctx, sc *Scenario) (*Result, *Violation) {
	res := c.Run(sc, nil)
	p := &res.Procs[0]
	if v := hung(p); v != nil {
		return res, v
	}
	if !p.OutLost && !p.OutFull {
		return res, nil
	}
	c.Probe("output lost: " + sc.Procs[0].Prog)
	rf := refOf(sc)
	if p.Signal != 0 && p.Signal != 13 {
		return res, bad("signal", "ended by signal %d: %s", p.Signal, clip(p.Diag, 200))
	}
	if rf != nil && !rf.usage && rf.isPrefix != nil {
		if !rf.isPrefix(p.Stdout) {
			return res, bad("output-not-prefix", "a write failed; what reached the output is not the beginning of the result: %s", show(p.Stdout))
		}
		if p.Exit == 0 && rf.complete(p.Stdout) != "" {
			return res, bad("lost-output", "a write to standard output failed, only %d bytes arrived, and the exit status is 0", len(p.Stdout))
		}
		return res, nil
	}
	full := c.Run(benign(sc), nil)
	q := &full.Procs[0]
	if !prefix(p.Stdout, q.Stdout) {
		return res, bad("output-not-prefix", "a write failed; what reached the output is not the beginning of the complete output: %s", where(p.Stdout, q.Stdout))
	}
	if p.Exit == 0 && len(p.Stdout) < len(q.Stdout) {
		return res, bad("lost-output", "a write to standard output failed, only %d of %d bytes arrived, and the exit status is 0", len(p.Stdout), len(q.Stdout))
	}
	return res, nil
}

func init() {
	progs := []string{"cat", "cksum", "cmp", "diff", "head", "locale", "tsort"}
	register(&Prop{ID: "C18", Progs: progs, Quick: 9000, Thorough: 60000,
		Rule: "Random invocations of the seven filters; for each, a failing write at sampled writes of its own trace (once or for good) and an output that fills up at random positions.",
		Case: func(c *Ctx, r *Rng) {
			f := append(append([]filter(nil), filters...), filter{"locale", localeScenario})[r.N(7)]
			sc := f.make(c, r, false)
			// a run that prints nothing shows nothing
			var res *Result
			for try := 0; try < 4; try++ {
				res = c.Try(sc)
				if len(res.Procs[0].Stdout) > 0 {
					break
				}
				sc = f.make(c, r, false)
			}
			c.outputFaults(r, sc, res, 5)
			t := withKnobs(r, sc)
			res = c.Try(t)
			c.outputFaults(r, t, res, 3)
		},
		Judge: judge18})

	register(&Prop{ID: "C19", Progs: progs[:5:5], Quick: 18000, Thorough: 60000,
		Rule: "Random invocations of the six filters that read; for each, failing opens and reads at sampled calls of its own trace, bad places on disk and operands that cannot be read.",
		Case: func(c *Ctx, r *Rng) {
			f := filters[r.N(len(filters))]
			sc := f.make(c, r, r.N(2) == 0)
			faults := alias(r, sc)
			res := c.Try(sc)
			if !faults {
				return
			}
			c.inputFaults(r, withKnobs(r, sc), res, refOf(sc).ops, 6)
		},
		Judge: func(c *Ctx, sc *Scenario) (*Result, *Violation) {
			rf := refOf(sc)
			res := c.Run(sc, nil)
			if rf == nil || rf.usage {
				return res, nil
			}
			needed := !rf.readable
			for _, f := range failures(res, 0, rf.ops) {
				needed = needed || rf.needs(f)
			}
			if !needed {
				return res, nil
			}
			return res, judgeRun(c, sc, rf, res)
		}})
	Props["C19"].Progs = []string{"cat", "cksum", "cmp", "diff", "head", "tsort"}
}

// same compares a perturbed run with a benign one.
func same(sc *Scenario, a, b *Result) *Violation {
	for i := range sc.Procs {
		p, q := &a.Procs[i], &b.Procs[i]
		if p.Exit != q.Exit || p.Signal != q.Signal {
			return bad("exit-differs", "exit status %d (signal %d) instead of %d (signal %d): %s", p.Exit, p.Signal, q.Exit, q.Signal, clip(string(p.Stderr)+p.Diag, 300))
		}
		x, y := string(p.Stdout), string(q.Stdout)
		if sc.Procs[i].Prog == "tsort" {
			x, y = sorted(x), sorted(y)
		}
		if x != y {
			return bad("output-differs", "%s", where([]byte(x), []byte(y)))
		}
		if fmt.Sprint(p.Signals) != fmt.Sprint(q.Signals) {
			return bad("signals-differ", "signals %v instead of %v", p.Signals, q.Signals)
		}
	}
	s, t := a.FS.Snapshot(), b.FS.Snapshot()
	for path, e := range t {
		f, ok := s[path]
		if !ok {
			return bad("files-differ", "%s does not exist", path)
		}
		if f.Data != e.Data || f.Mode != e.Mode || f.Target != e.Target {
			return bad("files-differ", "%s: mode %o instead of %o, %s", path, f.Mode, e.Mode, where([]byte(f.Data), []byte(e.Data)))
		}
	}
	for path := range s {
		if _, ok := t[path]; !ok {
			return bad("files-differ", "%s exists", path)
		}
	}
	return nil
}

func sorted(s string) string {
	l := strings.SplitAfter(s, "\n")
	sort.Strings(l)
	return strings.Join(l, "")
}
