package check

import (
	"fmt"
	"sort"
	"strings"

	"vsim/kernel"
)

// tree is the state of the file system at one moment.
type tree map[string]kernel.Entry

// find resolves a path.  state is "" (found), "missing" (only the last
// component does not exist), "nodir" (the path to it does not exist), "denied"
// or "loop"; real is the path of the file itself.
func (t tree) find(path string) (real string, e kernel.Entry, state string) {
	path = role(path)
	cur := "/"
	comps := strings.Split(path, "/")
	links := 0
	for i := 0; i < len(comps); i++ {
		c := comps[i]
		if c == "" || c == "." {
			continue
		}
		d := t[cur]
		if d.Mode&kernel.S_IFMT != kernel.S_IFDIR {
			return "", e, "nodir"
		}
		if !can(d, 1) {
			return "", e, "denied"
		}
		if c == ".." {
			cur = cur[:strings.LastIndexByte(cur, '/')]
			if cur == "" {
				cur = "/"
			}
			continue
		}
		next := strings.TrimSuffix(cur, "/") + "/" + c
		n, ok := t[next]
		last := true
		for _, x := range comps[i+1:] {
			if x != "" {
				last = false
			}
		}
		if !ok {
			if last {
				return next, e, "missing"
			}
			return "", e, "nodir"
		}
		if n.Mode&kernel.S_IFMT == kernel.S_IFLNK {
			if links++; links > 40 {
				return "", e, "loop"
			}
			comps = append(append([]string(nil), strings.Split(n.Target, "/")...), comps[i+1:]...)
			i = -1
			if strings.HasPrefix(n.Target, "/") {
				cur = "/"
			}
			continue
		}
		cur = next
	}
	return cur, t[cur], ""
}

func can(e kernel.Entry, bit uint32) bool {
	if e.Other {
		return e.Mode&bit != 0
	}
	return e.Mode>>6&bit != 0
}

func regular(e kernel.Entry) bool { return e.Mode&kernel.S_IFMT == kernel.S_IFREG }

func dirOf(p string) string {
	d := p[:strings.LastIndexByte(p, '/')]
	if d == "" {
		return "/"
	}
	return d
}

// changed lists the paths whose entries differ.
func changed(a, b tree) []string {
	var out []string
	for p, x := range a {
		y, ok := b[p]
		if !ok || x.Mode != y.Mode || x.Data != y.Data || x.Target != y.Target || x.Other != y.Other {
			out = append(out, p)
		}
	}
	for p := range b {
		if _, ok := a[p]; !ok {
			out = append(out, p)
		}
	}
	sort.Strings(out)
	return out
}

// timeline is the state after every event.
type timeline struct {
	initial tree
	trees   []tree  // after event i
	outs    [][]int // [proc][event] bytes of standard output
	losses  []loss
}

// loss is what a path would hold had the power failed after event ev.
type loss struct {
	ev      int
	path    string
	data    string
	missing bool
}

func (tl *timeline) at(ev int) tree {
	if ev < 0 {
		return tl.initial
	}
	if ev >= len(tl.trees) {
		if len(tl.trees) == 0 {
			return tl.initial
		}
		return tl.trees[len(tl.trees)-1]
	}
	return tl.trees[ev]
}

func (tl *timeline) last() tree { return tl.at(len(tl.trees)) }

const tooMuch = "too much to record"

// watch runs a scenario and records its timeline; power tells which paths to
// try a power loss on (after every change, samples times).
func (c *Ctx) watch(sc *Scenario, power []string, samples int) (*Result, *timeline) {
	tl := &timeline{}
	gen := -1
	var cur tree
	held := 0
	pool := map[string]string{}
	keep := func(s string) string {
		if t, ok := pool[s]; ok {
			return t
		}
		held += len(s)
		pool[s] = s
		return s
	}
	hook := func(k *kernel.Kernel, e *kernel.Event) string {
		if tl.initial == nil {
			tl.initial = tree(k.Result().Initial)
			cur = tl.initial
		}
		if k.Gen() != gen {
			gen = k.Gen()
			old := cur
			cur = tree(k.FS.SnapshotLike(old))
			for p, e := range cur {
				if len(e.Data) > 4096 && e.Data != old[p].Data {
					e.Data = keep(e.Data)
					cur[p] = e
				}
			}
		}
		if held > 96<<20 {
			return tooMuch // a huge file written in tiny pieces
		}
		tl.trees = append(tl.trees, cur)
		if tl.outs == nil {
			tl.outs = make([][]int, len(sc.Procs))
		}
		for i := range sc.Procs {
			tl.outs[i] = append(tl.outs[i], len(k.ProcOut(i)))
		}
		if len(power) > 0 && e.Role != "stderr" {
			r := kernel.NewRng(kernel.Mix(sc.MapSeed, uint64(e.Idx), 77))
			for _, p := range power {
				for j := 0; j < samples; j++ {
					d, miss := k.FS.PowerLoss(p, r.N)
					tl.losses = append(tl.losses, loss{e.Idx, p, keep(string(d)), miss})
				}
			}
		}
		return ""
	}
	res := c.Run(sc, hook)
	if res.HookErr == tooMuch {
		c.Probe("too much history: not judged")
		panic(unjudged{res})
	}
	if tl.initial == nil {
		tl.initial = tree(res.Initial)
	}
	return res, tl
}

// edAns is one command with its answer.
type edAns struct {
	cmd      *edCmd
	out      edOut
	failed   bool // answered by ?
	done     bool // completely answered
	end      int  // end of the answer in the output
	lo, hi   int  // the command was carried out after event lo and by event hi
	images   []string
	target   string // of w: the file itself
	before   kernel.Entry
	existed  bool
	mustFail bool
	mayFail  bool
}

// edLog is a session as the walker understood it.
type edLog struct {
	ans   []*edAns
	vs    []*Violation
	open  bool // stopped at something outside the model
	quit  bool
	final edState
	ops   []kernel.ForeignOp

	shared bool
}

func (l *edLog) flag(class, format string, args ...interface{}) {
	l.vs = append(l.vs, bad(class, format, args...))
}

// pick returns the first violation of one of the classes.
func (l *edLog) pick(classes ...string) *Violation {
	for _, v := range l.vs {
		for _, c := range classes {
			if strings.HasPrefix(v.Class, c) {
				return v
			}
		}
	}
	return nil
}

func isInjected(e *kernel.Event) bool { return strings.HasPrefix(e.Fault, "injected") }

// walkEd compares what process pi did with the model.  Other processes must
// not be changing the files it works on at the same time.
func walkEd(sc *Scenario, res *Result, tl *timeline, pi int) *edLog {
	return walkEdWith(sc, res, tl, pi, false, nil)
}

// walkShared is for a process whose files others change at the same time: its
// answers are compared as if it ran alone, and what it loads is one of the
// states the file had meanwhile.  Images of saves that depend on the choice
// are collected.
func walkShared(sc *Scenario, res *Result, tl *timeline, pi int) *edLog {
	return walkEdWith(sc, res, tl, pi, true, map[int]string{})
}

func walkEdWith(sc *Scenario, res *Result, tl *timeline, pi int, shared bool, picked map[int]string) *edLog {
	l := &edLog{shared: shared}
	for _, op := range sc.Foreign {
		if op.Op != "quota" && op.Op != "exit" {
			l.ops = append(l.ops, op)
		}
	}
	p := &res.Procs[pi]
	stdout := string(p.Stdout)
	cut := p.Killed || p.OutLost || p.StepLimit || p.CPULimit || p.WallLimit || res.HookErr != ""
	if _, panicked := p.Panicked(); panicked {
		cut = true
	}
	var outs []int
	if tl.outs != nil {
		outs = tl.outs[pi]
	}
	// event that brought the output to n bytes
	reach := func(n int) int {
		return sort.Search(len(outs), func(i int) bool { return outs[i] >= n })
	}
	st := &edState{}
	cmds := splitEd(&sc.Procs[pi])
	first := 0
	for first < len(res.Events) && res.Events[first].Proc != pi {
		first++
	}
	pos, lo, hi := 0, first-1, first-1
	for i := range cmds {
		cmd := &cmds[i]
		if cmd.kind == '?' {
			l.open = true
			return l
		}
		if cmd.kind == 'q' {
			l.quit = true
			break
		}
		saved := *st
		o := st.apply(cmd)
		if o.abstain {
			l.open = true
			return l
		}
		a := &edAns{cmd: cmd, out: o}
		rest := stdout[pos:]
		if rest == "" && cut {
			a.lo, a.hi = hi, len(outs)-1
			l.ans = append(l.ans, a)
			if o.save {
				a.images = st.saveImages(&o)
			}
			if o.load {
				l.open = true // contents unknown from here on
				return l
			}
			continue
		}
		// the answer
		m := errAnswer.FindString(rest)
		switch {
		case rest == "":
			l.flag("answer-missing", "no answer to %q (command %d)", cmd.raw, i+1)
			return l
		case m != "" && cut && o.err && m != rest && strings.HasPrefix(parseError, rest[len(m):min(len(rest), len(m)+len(parseError))]):
			// cut off in the middle of a longer error
			pos = len(stdout)
			a.lo, a.hi = hi, len(outs)-1
			l.ans = append(l.ans, a)
			continue
		case m != "":
			a.failed = true
			a.end = pos + len(m)
			if o.text != "" && strings.HasPrefix(rest, o.text) {
				// a printed line that looks like an error
				a.failed = false
				a.end = pos + len(o.text)
			}
		case o.load || o.save:
			if rest[0] != '\n' {
				if cut && rest[0] == '?' {
					// cut off in the middle of an error
					pos = len(stdout)
					a.lo, a.hi = hi, len(outs)-1
					l.ans = append(l.ans, a)
					if o.save {
						a.images = st.saveImages(&o)
					}
					continue
				}
				l.flag("answer-wrong", "%q was answered by %s", cmd.raw, show([]byte(rest)))
				return l
			}
			a.end = pos + 1
		case o.err:
			if cut && rest[0] == '?' {
				pos = len(stdout)
				a.lo, a.hi = hi, len(outs)-1
				l.ans = append(l.ans, a)
				continue
			}
			l.flag("answer-wrong-success", "%q cannot be carried out but was answered by %s", cmd.raw, show([]byte(rest)))
			return l
		default:
			if !strings.HasPrefix(rest, o.text) {
				if cut && strings.HasPrefix(o.text, rest) {
					pos = len(stdout)
					l.ans = append(l.ans, a)
					a.lo, a.hi = hi, len(outs)-1
					continue
				}
				l.flag("answer-wrong", "%q (command %d) was answered by %s, want %s", cmd.raw, i+1, clip(show([]byte(rest)), 300), clip(show([]byte(o.text)), 300))
				return l
			}
			a.end = pos + len(o.text)
		}
		a.done = true
		pos = a.end
		h := reach(a.end)
		if h != hi {
			lo, hi = hi, h
		}
		a.lo, a.hi = lo, hi
		l.ans = append(l.ans, a)
		if a.failed && !o.err && !o.load && !o.save {
			l.flag("answer-wrong-error", "%q (command %d) was answered by %s, want %s", cmd.raw, i+1, clip(show([]byte(rest)), 300), clip(show([]byte(o.text)), 300))
			return l
		}
		switch {
		case o.load && shared && !a.failed:
			var cands []string
			for ev := a.lo; ev <= a.hi; ev++ {
				_, e, state := tl.at(ev).find(o.path)
				if state != "" || !regular(e) {
					l.open = true
					return l
				}
				if !oneOf(e.Data, cands) {
					cands = append(cands, e.Data)
				}
			}
			d, ok := picked[i]
			if !ok && len(cands) > 1 {
				var good *edLog
				var worst *edLog
				for _, d := range cands {
					np := map[int]string{i: d}
					for k, v := range picked {
						np[k] = v
					}
					x := walkEdWith(sc, res, tl, pi, true, np)
					if len(x.vs) > 0 {
						worst = x
						continue
					}
					if good == nil {
						good = x
						continue
					}
					good.open = good.open || x.open
					for k := range good.ans {
						if k < len(x.ans) {
							good.ans[k].images = append(good.ans[k].images, x.ans[k].images...)
						}
					}
				}
				if good == nil {
					return worst
				}
				return good
			}
			if !ok {
				d = cands[0]
			}
			st.loaded(o.path, d)
		case o.load && shared:
			l.open = true
			return l
		case o.load:
			if !l.load(res, tl, pi, a, st) {
				return l
			}
		case o.save && shared:
			a.images = st.saveImages(&o)
			a.target, _, _ = tl.at(a.lo).find(o.path)
			if a.failed {
				if !injectedIn(res, pi, a.lo, a.hi, nil) {
					l.flag("save-false-failure", "nothing keeps %q from being saved but w was answered by ?", o.path)
				}
				a.images = nil
			} else if st.name == "" {
				st.name = o.path
			}
		case o.save:
			if !l.save(res, tl, pi, a, st) {
				return l
			}
		case o.err:
			*st = saved
		}
	}
	l.final = *st
	if pos < len(stdout) && !l.open {
		l.flag("answer-extra", "after the answers to all commands ed printed %s", clip(show([]byte(stdout[pos:])), 300))
	}
	return l
}

// injectedIn tells whether a fault was delivered to the process in a window.
func injectedIn(res *Result, pi, lo, hi int, want func(e *kernel.Event) bool) bool {
	for i := lo + 1; i <= hi && i < len(res.Events); i++ {
		e := &res.Events[i]
		if e.Proc == pi && e.Err != 0 && (isInjected(e) || e.Err == kernel.ENOSPC) && (want == nil || want(e)) {
			return true
		}
	}
	return false
}

// load judges an e command.
func (l *edLog) load(res *Result, tl *timeline, pi int, a *edAns, st *edState) bool {
	real, e, state := tl.at(a.lo).find(a.out.path)
	for i := a.lo + 1; i <= a.hi; i++ {
		r2, e2, s2 := tl.at(i).find(a.out.path)
		if r2 != real || s2 != state || e2.Data != e.Data || e2.Mode != e.Mode {
			l.open = true // changed while it was loaded
			return false
		}
	}
	if state == "" && e.Mode&kernel.S_IFMT == kernel.S_IFCHR {
		l.open = true
		return false
	}
	a.target = real
	readable := state == "" && regular(e) && can(e, 4)
	// a failed open or read of the file that was not made up for
	lost := ""
	delivered := false
	for i := a.lo + 1; i <= a.hi && i < len(res.Events); i++ {
		ev := &res.Events[i]
		if ev.Proc != pi || ev.Err == 0 || ev.Err == kernel.EINTR || ev.Err == kernel.EAGAIN {
			continue
		}
		if isInjected(ev) || ev.Call == "read" {
			delivered = true
		}
		if ev.Role != real && ev.Role != role(a.out.path) || ev.Call != "open" && ev.Call != "read" {
			continue
		}
		made := false
		for j := i + 1; j <= a.hi && j < len(res.Events); j++ {
			f := &res.Events[j]
			if f.Proc == pi && f.Err == 0 && (f.Role == real || f.Role == role(a.out.path)) && f.Call == ev.Call && (ev.Call == "open" || f.Off <= ev.Off && f.Off+int(f.Ret) > ev.Off || f.Off == ev.Off && f.Ret == 0) {
				made = true
			}
		}
		if !made {
			lost = ev.String()
		}
	}
	switch {
	case !a.failed && !readable:
		l.flag("load-false-success", "%q cannot be loaded (%s) but e was answered without ?", a.out.path, state)
		return false
	case !a.failed && lost != "":
		l.flag("load-false-success", "loading %q failed (%s) but e was answered without ?", a.out.path, lost)
		return false
	case a.failed && readable && !delivered:
		l.flag("load-false-failure", "%q is readable but e was answered by ?", a.out.path)
		return false
	case !a.failed:
		st.loaded(a.out.path, e.Data)
	}
	return true
}

// save judges a w command.
func (l *edLog) save(res *Result, tl *timeline, pi int, a *edAns, st *edState) bool {
	before := tl.at(a.lo)
	after := tl.at(a.hi)
	real, e, state := before.find(a.out.path)
	a.images = st.saveImages(&a.out)
	for _, op := range l.ops {
		if op.At > a.lo && op.At <= a.hi {
			// somebody else was at work at the same time
			if !a.failed && st.name == "" {
				st.name = a.out.path
			}
			return true
		}
	}
	if strings.HasSuffix(a.out.path, "/") || len(real)-strings.LastIndexByte(real, '/') > 230 {
		l.open = true
		return false
	}
	a.target, a.before, a.existed = real, e, state == ""
	a.mustFail = state == "nodir" || state == "denied" || state == "loop" || state == "" && !regular(e)
	if !a.mustFail {
		d := before[dirOf(real)]
		a.mayFail = !can(d, 2) || !can(d, 1) || state == "" && (!can(e, 2) || e.Other || !can(e, 4)) ||
			injectedIn(res, pi, a.lo, a.hi, nil)
	}
	batch := false // several answers in one write: only the last state is visible
	for _, b := range l.ans {
		if b != a && b.hi == a.hi && b.out.save {
			batch = true
		}
	}
	if a.failed {
		if !a.mustFail && !a.mayFail {
			l.flag("save-false-failure", "nothing keeps %q from being saved but w was answered by ?", a.out.path)
			return false
		}
		if !batch {
			diff := changed(before, after)
			keep := diff[:0]
			unlinkFault := injectedIn(res, pi, a.lo, a.hi, func(e *kernel.Event) bool { return e.Call == "unlink" })
			for _, p := range diff {
				if _, was := before[p]; !was && unlinkFault {
					continue
				}
				keep = append(keep, p)
			}
			for _, p := range keep {
				if p == real || p == role(a.out.path) {
					l.flag("failed-save-changed", "w was answered by ? but %s changed: %s", p, diffEntry(before, after, p))
				} else if _, was := before[p]; was {
					l.flag("save-touched", "a failed w changed %s: %s", p, diffEntry(before, after, p))
				} else {
					l.flag("failed-save-left", "a failed w left %s behind", p)
				}
			}
		}
		return true
	}
	if a.mustFail {
		l.flag("save-false-success", "%q cannot be saved to (%s) but w was answered without ?", a.out.path, state)
		return false
	}
	if st.name == "" {
		st.name = a.out.path
	}
	if lost := lostStep(res, pi, a, real); lost != "" {
		l.flag("save-step-lost", "a step of the save failed (%s) but w was answered without ?", lost)
	}
	now, ok := after[real]
	if !batch {
		switch {
		case !ok:
			l.flag("saved-wrong", "after a w answered without ? %s does not exist", real)
		case !regular(now):
			l.flag("saved-wrong", "after a w answered without ? %s is not a regular file", real)
		case !oneOf(now.Data, a.images):
			l.flag("saved-wrong", "after a w answered without ? %s does not hold the lines: %s", real, where([]byte(now.Data), []byte(a.images[0])))
		case a.existed && now.Mode&0o777 != e.Mode&0o777:
			l.flag("mode-changed", "the mode of %s was %o and is %o after the save", real, e.Mode&0o7777, now.Mode&0o7777)
		}
	}
	if !batch {
		unlinkFault := injectedIn(res, pi, a.lo, a.hi, func(e *kernel.Event) bool { return e.Call == "unlink" })
		for _, p := range changed(before, after) {
			if p == real {
				continue
			}
			if _, was := before[p]; !was && unlinkFault {
				continue
			}
			if x, y := before[p], before[real]; a.existed && x.ID == y.ID {
				continue // another name of the same file
			}
			l.flag("save-touched", "saving %s changed %s: %s", real, p, diffEntry(before, after, p))
		}
	}
	return true
}

func oneOf(s string, l []string) bool {
	for _, x := range l {
		if s == x {
			return true
		}
	}
	return false
}

func diffEntry(a, b tree, p string) string {
	x, was := a[p]
	y, is := b[p]
	switch {
	case !was:
		return fmt.Sprintf("created with %d bytes", len(y.Data))
	case !is:
		return "removed"
	case x.Mode != y.Mode:
		return fmt.Sprintf("mode %o became %o", x.Mode, y.Mode)
	case x.Target != y.Target:
		return fmt.Sprintf("link to %s became link to %s", x.Target, y.Target)
	}
	return where([]byte(y.Data), []byte(x.Data))
}

// lostStep is a failed write, sync, close or rename of the save that was not
// made up for by a later success.
func lostStep(res *Result, pi int, a *edAns, real string) string {
	dir := dirOf(real) + "/"
	writing := map[string]bool{}
	for i := a.lo + 1; i <= a.hi && i < len(res.Events); i++ {
		e := &res.Events[i]
		if e.Proc != pi {
			continue
		}
		if e.Call == "open" && e.Err == 0 && e.Off&3 != 0 {
			writing[e.Role] = true
		}
		if e.Err == 0 || e.Err == kernel.EINTR || e.Err == kernel.EAGAIN || !strings.HasPrefix(e.Role, dir) {
			continue
		}
		switch e.Call {
		case "write", "fsync", "close":
			if !writing[e.Role] {
				continue
			}
		case "rename":
			if e.Role != real {
				continue
			}
		default:
			continue
		}
		if !isInjected(e) && e.Err != kernel.ENOSPC {
			continue
		}
		made := false
		for j := i + 1; j <= a.hi && j < len(res.Events); j++ {
			f := &res.Events[j]
			if f.Proc == pi && f.Call == e.Call && f.Err == 0 && strings.HasPrefix(f.Role, dir) && (e.Call == "rename" && f.Role == real || e.Call != "rename" && writing[f.Role]) {
				made = true
			}
		}
		if !made {
			return e.String()
		}
	}
	return ""
}

// ended judges how an ed process came to its end.
func edEnded(sc *Scenario, res *Result, pi int) *Violation {
	p := &res.Procs[pi]
	if p.Killed {
		return nil
	}
	if v := hung(p); v != nil {
		return v
	}
	if msg, ok := p.Panicked(); ok {
		return bad("panic", "%s", msg)
	}
	if p.OutLost {
		return nil
	}
	if p.Stalled {
		if sc.Procs[pi].StdinEnd == "stall" {
			return nil
		}
		return bad("hang", "ed waits for ever")
	}
	if p.Exit != 0 || p.Signal != 0 {
		return bad("exit", "exit status %d (signal %d): %s", p.Exit, p.Signal, clip(string(p.Stderr)+p.Diag, 300))
	}
	return nil
}
