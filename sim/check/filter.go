package check

import (
	"bytes"
	"fmt"
	"strings"

	"vsim/kernel"
)

// Common parts of the properties about the filters.

// role is the name the simulator uses for an operand.
func role(op string) string {
	if op == "-" {
		return "stdin"
	}
	if strings.HasPrefix(op, "/") {
		return op
	}
	return "/w/" + op
}

// input is what an operand holds.
type input struct {
	op   string
	data []byte
	ok   bool // can be opened and read as far as the initial tree goes
}

// inputs resolves operands against the scenario.  A second "-" finds nothing
// left.
func inputs(sc *Scenario, pi int, ops []string) []input {
	fs := kernel.NewFS(sc.Files)
	var out []input
	seen := false
	for _, op := range ops {
		in := input{op: op}
		if op == "-" {
			in.ok = true
			if !seen {
				in.data = stdinBytes(&sc.Procs[pi])
			}
			seen = true
		} else if n := fs.Peek(role(op), true); n != nil && (n.Mode&kernel.S_IFMT == kernel.S_IFREG || n.Mode&kernel.S_IFMT == kernel.S_IFCHR) {
			in.ok = true
			in.data = n.Data
		}
		out = append(out, in)
	}
	return out
}

// failure is an unrecovered failure of an input that the simulator delivered.
type failure struct {
	role string
	open bool
	off  int
	ev   int
}

func failures(res *Result, pi int, ops []string) []failure {
	roles := map[string]bool{}
	for _, op := range ops {
		roles[role(op)] = true
	}
	var out []failure
	for i := range res.Events {
		e := &res.Events[i]
		if e.Err == kernel.EMFILE && !isInjected(e) {
			continue // it need not have had so many open
		}
		if e.Proc != pi || e.Err == 0 || e.Err == kernel.EINTR || e.Err == kernel.EAGAIN || !roles[e.Role] {
			continue
		}
		if e.Call != "open" && e.Call != "read" {
			continue
		}
		recovered := false
		for j := i + 1; j < len(res.Events); j++ {
			f := &res.Events[j]
			if f.Proc == pi && f.Call == e.Call && f.Role == e.Role && f.Err == 0 {
				if e.Call == "open" || f.Off <= e.Off && f.Off+int(f.Ret) > e.Off || f.Off == e.Off && f.Ret == 0 && f.Want == 0 {
					recovered = true
				}
			}
		}
		if !recovered {
			out = append(out, failure{role: e.Role, open: e.Call == "open", off: e.Off, ev: i})
		}
	}
	return out
}

// hung reports a process that did not end although it should have.
func hung(p *kernel.ProcResult) *Violation {
	switch {
	case p.StepLimit:
		return bad("hang", "the process went on without end (%d system calls)", p.Calls)
	case p.CPULimit:
		return bad("hang", "the process used up its CPU time")
	case p.WallLimit:
		return bad("hang", "the process stopped making system calls and did not end")
	}
	return nil
}

func diagnosed(p *kernel.ProcResult) bool { return len(p.Stderr) > 0 || len(p.Diag) > 0 }

func show(b []byte) string {
	if len(b) > 160 {
		return fmt.Sprintf("%q...(%d bytes)", b[:160], len(b))
	}
	return fmt.Sprintf("%q", b)
}

// where tells the first difference of two byte strings.
func where(got, want []byte) string {
	i := 0
	for i < len(got) && i < len(want) && got[i] == want[i] {
		i++
	}
	lo := max0(i - 20)
	return fmt.Sprintf("%d bytes instead of %d, first difference at byte %d: got %s, want %s", len(got), len(want), i, show(got[lo:]), show(want[lo:]))
}

// point is a place in a trace where a fault can be put.
type point struct {
	call, role string
	nth        int
}

// points lists the calls of process pi of the given classes on the given roles
// ("" : all).
func points(res *Result, pi int, want func(e *kernel.Event) bool) []point {
	n := map[[2]string]int{}
	var out []point
	for i := range res.Events {
		e := &res.Events[i]
		if e.Proc != pi {
			continue
		}
		k := [2]string{e.Call, e.Role}
		if e.Call != "fcntl" && e.Call != "prlimit" && want(e) {
			out = append(out, point{e.Call, e.Role, n[k]})
		}
		n[k]++
	}
	return out
}

// sample picks up to k of the points, including the first and the last if many.
func sample(r *Rng, ps []point, k int) []point {
	if len(ps) <= k {
		return ps
	}
	var out []point
	if k > 3 {
		out = []point{ps[0], ps[len(ps)-1]}
	}
	for len(out) < k {
		out = append(out, ps[r.N(len(ps))])
	}
	return out
}

func errFor(r *Rng, call string) kernel.Errno {
	switch call {
	case "open":
		return errOf(r, openErrs)
	case "write":
		return errOf(r, writeErrs)
	}
	return errOf(r, readErrs)
}

// inputFaults runs sc with failures of its inputs: opens and reads that the
// given trace shows, and bad places on disk.
func (c *Ctx) inputFaults(r *Rng, sc *Scenario, res *Result, ops []string, k int) {
	roles := map[string]bool{}
	for _, op := range ops {
		roles[role(op)] = true
	}
	ps := points(res, 0, func(e *kernel.Event) bool {
		return (e.Call == "open" || e.Call == "read") && roles[e.Role]
	})
	for _, p := range sample(r, ps, k) {
		t := sc.Clone()
		t.Faults = append(t.Faults, kernel.Fault{Call: p.call, Role: p.role, Nth: p.nth, Errno: errFor(r, p.call), Sticky: r.N(3) > 0})
		c.Try(t)
	}
	for _, op := range ops {
		if r.N(2) == 0 {
			continue
		}
		t := withKnobs(r, sc)
		if op == "-" {
			if t.Procs[0].StdinFile {
				continue
			}
			d := stdinBytes(&t.Procs[0])
			if len(d) > 0 && r.N(2) == 0 {
				// the writer's data stops early with an error
				keep := r.N(len(d))
				t.Procs[0].Stdin = c.chunks(r, d[:keep])
			}
			t.Procs[0].StdinEnd = errOf(r, readErrs).String()
			c.Try(t)
			continue
		}
		if f := findFile(t, op); f != nil {
			t.Bad = append(t.Bad, kernel.BadSector{Path: role(op), At: c.size(r, len(f.Data)), Errno: errOf(r, readErrs), Once: r.N(4) == 0})
			c.Try(t)
		}
	}
}

// outputFaults runs sc with failing writes to standard output.
func (c *Ctx) outputFaults(r *Rng, sc *Scenario, res *Result, k int) {
	ps := points(res, 0, func(e *kernel.Event) bool { return e.Call == "write" && e.Role == "stdout" })
	for _, p := range sample(r, ps, k) {
		t := sc.Clone()
		t.Faults = append(t.Faults, kernel.Fault{Call: p.call, Role: p.role, Nth: p.nth, Errno: errFor(r, p.call), Sticky: r.N(3) > 0})
		c.Try(t)
	}
	n := len(res.Procs[0].Stdout)
	for i := 0; i < 2 && n > 0; i++ {
		t := withKnobs(r, sc)
		t.Procs[0].StdoutLimit = r.N(n)
		if i == 1 {
			t.Procs[0].StdoutLimit = n - 1
		}
		t.Procs[0].StdoutErr = errOf(r, writeErrs)
		c.Try(t)
	}
}

var plainNames = []string{"a", "b", "file", "x.txt", "dir/sub", "long-name.with.dots", "-dash"}

// addFile puts a file with the given contents into the scenario and returns
// the operand naming it.
func addFile(r *Rng, sc *Scenario, data []byte) string {
	for {
		name := plainNames[r.N(len(plainNames)-1)]
		if r.N(3) == 0 {
			name += fmt.Sprint(r.N(9))
		}
		op := name
		if r.N(5) == 0 {
			op = "/w/" + name
		}
		if findFile(sc, name) != nil || findFile(sc, "/w/"+name) != nil {
			continue
		}
		sc.Files = append(sc.Files, kernel.FileSpec{Path: "/w/" + name, Data: data, Mode: 0o644, NoSize: r.N(25) == 0})
		return op
	}
}

// badOperand makes an operand that cannot be read.
func badOperand(r *Rng, sc *Scenario) string {
	n := fmt.Sprint("bad", r.N(1000))
	switch r.N(5) {
	case 0:
		return n
	case 1:
		sc.Files = append(sc.Files, kernel.FileSpec{Path: "/w/" + n, Type: "dir", Mode: 0o755})
	case 2:
		sc.Files = append(sc.Files, kernel.FileSpec{Path: "/w/" + n, Data: []byte("secret\n"), Mode: 0})
	case 3:
		sc.Files = append(sc.Files, kernel.FileSpec{Path: "/w/" + n, Type: "link", Target: n, Mode: 0o777})
	case 4:
		sc.Files = append(sc.Files, kernel.FileSpec{Path: "/w/" + n, Type: "link", Target: "nowhere", Mode: 0o777})
	}
	return n
}

// alias now and then makes an operand name the file of another one: by the same
// name, another spelling, a hard link or a symbolic link.  It reports whether
// failures can still be told apart by name.
func alias(r *Rng, sc *Scenario) bool {
	if r.N(12) != 0 {
		return true
	}
	args := sc.Procs[0].Args
	var at []int
	for i := range args {
		if !strings.HasPrefix(args[i], "-") && !(i > 0 && args[i-1] == "-n") {
			at = append(at, i)
		}
	}
	if len(at) < 2 {
		return true
	}
	i := r.N(len(at) - 1)
	from, to := at[i], at[i+1+r.N(len(at)-i-1)]
	if r.N(2) == 0 {
		from, to = to, from
	}
	switch f := findFile(sc, args[from]); r.N(4) {
	case 0, 1:
		if f != nil && (f.Type == "" || f.Type == "file") {
			sc.Files = append(sc.Files, kernel.FileSpec{Path: "/w/alias", HardTo: f.Path})
			args[to] = "alias"
			return true
		}
		args[to] = args[from]
	case 2:
		sc.Files = append(sc.Files, kernel.FileSpec{Path: "/w/alias", Type: "link", Target: role(args[from]), Mode: 0o777})
		args[to] = "alias"
	case 3:
		args[to] = args[from]
		if r.N(2) == 0 {
			args[to] = role(args[from])
		}
	}
	return false
}

// setStdin gives process 0 its standard input.
func (c *Ctx) setStdin(r *Rng, sc *Scenario, data []byte) {
	p := &sc.Procs[0]
	p.Stdin = c.chunks(r, data)
	p.StdinFile = r.N(5) == 0
}

func one(prog string, args ...string) []kernel.ProcSpec {
	return []kernel.ProcSpec{{Prog: prog, Args: args, Umask: 0o022, StdoutLimit: -1}}
}

func prefix(b, of []byte) bool { return bytes.HasPrefix(of, b) }

// delivery is the part every filter shares: if output was lost, success must
// not be reported and what arrived must be a prefix.  decided is false when
// output was not lost.
func delivery(p *kernel.ProcResult, complete func([]byte) bool, isPrefix func([]byte) bool) (v *Violation, decided bool) {
	if !p.OutLost {
		return nil, false
	}
	if !isPrefix(p.Stdout) {
		return bad("output-not-prefix", "a write failed; what reached the output is not a prefix of the complete output: %s", show(p.Stdout)), true
	}
	if p.Exit == 0 && !complete(p.Stdout) {
		return bad("lost-output", "a write to standard output failed, only %d bytes arrived, and the exit status is 0", len(p.Stdout)), true
	}
	return nil, true
}
