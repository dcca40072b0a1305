package check

import (
	"fmt"
	"strings"

	"vsim/kernel"
)

// saveScenario is a session that loads a file, edits it and saves it.
func saveScenario(c *Ctx, r *Rng, g *edGen) *Scenario {
	sc := baseScenario(r)
	sc.Procs = one("ed")
	p := &sc.Procs[0]
	p.Umask = []uint32{0o022, 0o022, 0, 0o077, 0o777, 0o027}[r.N(6)]
	name := []string{"f", "f", "dir/h", "/w/f", "long-name.with.dots.txt", "/w/dir/sub/file"}[r.N(6)]
	mode := []uint32{0o644, 0o644, 0o600, 0o755, 0o666, 0o640, 0o777, 0o604, 0o444, 0o4755}[r.N(10)]
	data := g.fileText([]int{0, 1, 2, 3, 8}[r.N(5)])
	if r.N(5) == 0 {
		data = strings.Repeat("old old old old "+g.textLine()+"\n", 1+r.N(600))
	}
	if r.N(120) == 0 {
		data = hugeText(r)
		c.Probe("huge file")
	}
	exists := r.N(8) > 0
	if exists {
		g.file(sc, name, data, mode)
	}
	if dirOf(role(name)) != "/w" {
		sc.Files = append([]kernel.FileSpec{{Path: dirOf(role(name)), Type: "dir", Mode: 0o755}}, sc.Files...)
	}
	g.ws = []string{name}
	if exists && r.N(8) == 0 {
		// the file has a second name
		sc.Files = append(sc.Files, kernel.FileSpec{Path: dirOf(role(name)) + "/2nd", HardTo: role(name), Mode: mode})
	}
	if exists && r.N(10) == 0 {
		// through a symbolic link
		sc.Files = append(sc.Files, kernel.FileSpec{Path: "/w/ln", Type: "link", Target: role(name), Mode: 0o777})
		g.fs["ln"] = data
		name = "ln"
		g.ws = []string{name}
	}
	if !exists && r.N(6) == 0 {
		// a link whose target is to be created
		sc.Files = append(sc.Files, kernel.FileSpec{Path: "/w/ln", Type: "link", Target: role(name), Mode: 0o777})
		name = "ln"
		g.ws = []string{name}
	}
	switch {
	case !exists:
		g.emit("a", g.text())
	case r.N(2) == 0:
		p.Args = []string{name}
		g.st.loaded(name, g.fs[name])
	default:
		g.emit("e "+name, nil)
	}
	g.save, g.load, g.bad = 0, 0, 0
	for i := r.N(3); i > 0; i-- {
		g.step()
	}
	return sc
}

// edit makes sure the text differs from what was saved before.
func (g *edGen) edit() {
	g.emit([]string{"$a", "0a", "a"}[g.r.N(3)], []string{fmt.Sprintf("edit %d of this session %s", g.n, g.textLine())})
	for i := g.r.N(3); i > 0; i-- {
		g.step()
	}
}

func (g *edGen) saveNow() {
	if g.st.name != "" && g.r.N(2) == 0 {
		g.emit("w", nil)
		return
	}
	rg := ""
	if n := len(g.st.lines); n > 0 && g.r.N(8) == 0 {
		rg = "1,$"
		if g.r.N(2) == 0 {
			x := 1 + g.r.N(n)
			rg = fmt.Sprintf("%d,%d", x, x+g.r.N(n-x+1))
		}
	}
	g.emit(rg+"w "+g.ws[g.r.N(len(g.ws))], nil)
}

// saves are the w commands of a log with the window in which each may act.
type saveAct struct {
	proc   int
	a      *edAns
	target string
	open   bool // may still be under way at the end
}

func savesOf(tl *timeline, logs []*edLog) []saveAct {
	var out []saveAct
	for pi, l := range logs {
		for _, a := range l.ans {
			if !a.out.save {
				continue
			}
			t := a.target
			if t == "" {
				t, _, _ = tl.at(a.lo).find(a.out.path)
			}
			out = append(out, saveAct{pi, a, t, !a.done})
		}
	}
	return out
}

// wholeTexts checks that every file saved holds, at every moment, its contents
// before or one of the texts being saved; and what a power loss would leave.
func wholeTexts(res *Result, tl *timeline, logs []*edLog) *Violation {
	acts := savesOf(tl, logs)
	targets := map[string]bool{}
	for _, s := range acts {
		targets[s.target] = true
	}
	var names []string
	for t := range targets {
		if t != "" {
			names = append(names, t)
		}
	}
	sortStrings(names)
	for _, t := range names {
		for i := range tl.trees {
			now, is := tl.at(i)[t]
			prev, was := tl.at(i - 1)[t]
			if is == was && now.Data == prev.Data {
				continue
			}
			okay := false
			text := ""
			for _, s := range acts {
				if s.target != t || i <= s.a.lo || i > s.a.hi {
					continue
				}
				b, had := tl.at(s.a.lo)[t]
				if is && oneOf(now.Data, s.a.images) || is == had && now.Data == b.Data {
					okay = true
				}
				if len(s.a.images) > 0 {
					text = s.a.images[0]
				}
			}
			if !okay {
				if !is {
					return bad("missing", "%s is missing after event %s", t, res.Events[i])
				}
				return bad("torn", "%s is neither the old nor the new text after event %s: %s", t, res.Events[i], where([]byte(now.Data), []byte(text)))
			}
		}
	}
	for _, ls := range tl.losses {
		first, was := tl.initial[ls.path]
		if ls.missing {
			if was {
				return bad("power-missing", "a power loss after event %s may leave %s missing", res.Events[ls.ev], ls.path)
			}
			continue
		}
		okay := was && ls.data == first.Data
		for _, s := range acts {
			if s.target == ls.path && s.a.lo < ls.ev && oneOf(ls.data, s.a.images) {
				okay = true
			}
		}
		if !okay {
			return bad("power-torn", "a power loss after event %s may leave %s with neither the old nor the new text: %s", res.Events[ls.ev], ls.path, show([]byte(ls.data)))
		}
	}
	return nil
}

// powerPaths are the files a scenario's sessions save.
func powerPaths(sc *Scenario) []string {
	t := tree(kernel.NewFS(sc.Files).Snapshot())
	seen := map[string]bool{}
	var out []string
	for i := range sc.Procs {
		name := ""
		for _, c := range splitEd(&sc.Procs[i]) {
			n := c.name
			if c.kind == 'e' && name == "" {
				name = n
			}
			if c.kind != 'w' {
				continue
			}
			if n == "" {
				n = name
			}
			if n == "" {
				continue
			}
			if name == "" {
				name = n
			}
			real, _, state := t.find(n)
			if (state == "" || state == "missing") && !seen[real] {
				seen[real] = true
				out = append(out, real)
			}
		}
	}
	return out
}

// inSaves lists the calls process pi makes while it saves (its own indices).
func inSaves(res *Result, pi int, l *edLog) []int {
	var out []int
	for _, a := range l.ans {
		if !a.out.save {
			continue
		}
		for i := a.lo + 1; i <= a.hi && i < len(res.Events); i++ {
			e := &res.Events[i]
			if e.Proc == pi && e.Role != "stderr" && e.Call != "fcntl" {
				out = append(out, e.PIdx)
				if i == a.hi {
					out = append(out, e.PIdx+1)
				}
			}
		}
	}
	return out
}

func init() {
	register(&Prop{ID: "C01", Progs: []string{"ed"}, Quick: 4000, Thorough: 60000,
		Rule: "Random sessions that save; at every system call the file is read as another process would and a power loss is tried twice; ed is killed at sampled calls of each save (writes torn at random), and a further session then loads and saves the file; in other runs a call of the save fails, or the disk is full, and ed may be killed later in that save.",
		Case: func(c *Ctx, r *Rng) {
			g := newGen(c, r)
			sc := saveScenario(c, r, g)
			for i := 1 + r.N(3); i > 0; i-- {
				g.edit()
				g.saveNow()
				if r.N(5) == 0 {
					// the same text to another file, perhaps of the same size
					d := strings.Repeat("z", len(joinLines(g.st.lines)))
					if r.N(3) == 0 {
						d += "z"
					}
					n := fmt.Sprintf("same%d", i)
					g.file(sc, n, d, 0o644)
					g.emit("w "+n, nil)
				}
			}
			g.finish(sc, 0)
			res := c.Try(sc)
			c.Try(withKnobs(r, sc))
			// others write to the file, too
			for i := 0; i < 1; i++ {
				t := withKnobs(r, sc)
				path := powerPaths(sc)
				if len(path) == 0 {
					break
				}
				op := kernel.ForeignOp{At: r.N(len(res.Events) + 1), Path: path[r.N(len(path))]}
				switch r.N(3) {
				case 0:
					op.Op, op.N, op.Data = "write", r.N(3), []byte("Z")
				case 1:
					op.Op, op.Data = "replace", []byte("the text of somebody else\n")
				default:
					op.Op = "unlink"
				}
				t.Foreign = append(t.Foreign, op)
				c.Try(t)
			}
			// kill at sampled calls
			base := withKnobs(r, sc)
			bres, btl := c.watch(base, nil, 0)
			pts := inSaves(bres, 0, walkEd(base, bres, btl, 0))
			for i := 0; i < 8 && len(pts) > 0; i++ {
				t := base.Clone()
				t.Kills = []kernel.Kill{{Proc: 0, At: pts[r.N(len(pts))], Torn: r.N(200)}}
				if r.N(2) == 0 {
					// and go on with a new session
					g2 := newGen(c, r)
					g2.save, g2.load, g2.bad, g2.tag = 0, 0, 0, "second "
					name := g.ws[0]
					g2.ws = []string{name}
					if r.N(3) > 0 {
						g2.emit("e "+name, nil)
						g2.emit(",p", nil)
					}
					g2.emit("a", []string{"the second session"})
					g2.saveNow()
					g2.emit("q", nil)
					t.Procs = append(t.Procs, kernel.ProcSpec{Prog: "ed", Umask: 0o022, StdoutLimit: -1, Start: 1 << 30, Stdin: []kernel.Chunk{{Data: g2.buf}}})
				}
				c.Try(t)
			}
			// a step of a save fails, or the disk is full; and then perhaps a kill
			in := map[int]bool{}
			for _, x := range pts {
				in[x] = true
			}
			ps := points(bres, 0, func(e *kernel.Event) bool { return strings.HasPrefix(e.Role, "/w") && in[e.PIdx] })
			for i := 0; i < 6 && len(ps) > 0; i++ {
				t := base.Clone()
				p := ps[r.N(len(ps))]
				if r.N(6) == 0 {
					q := int64(1 + r.N(4000))
					t.Quota = &q
				} else {
					t.Faults = append(t.Faults, kernel.Fault{Call: p.call, Role: p.role, Nth: p.nth, Errno: edErrno(r, p.call), Sticky: r.N(4) == 0})
				}
				if r.N(3) == 0 {
					t.Kills = []kernel.Kill{{Proc: 0, At: pts[r.N(len(pts))] + r.N(8), Torn: r.N(200)}}
				}
				c.Try(t)
			}
		},
		Judge: func(c *Ctx, sc *Scenario) (*Result, *Violation) {
			res, tl := c.watch(sc, powerPaths(sc), 2)
			var logs []*edLog
			open := false
			for i := range sc.Procs {
				l := walkEd(sc, res, tl, i)
				logs = append(logs, l)
				open = open || l.open
			}
			for i, l := range logs {
				// a session after a crash is judged fully; the texts of all
				// depend on the answers being right
				if v := l.pick("answer", "load-false", "save-false", "saved-wrong"); v != nil {
					if strings.HasPrefix(v.Class, "answer") && i == 0 {
						return res, nil // the business of C05 and C06
					}
					return res, v
				}
			}
			if open {
				c.Probe("session left the model")
				return res, nil
			}
			if res.Procs[0].Killed {
				c.Probe("killed")
				if len(sc.Procs) > 1 {
					c.Probe("session after a crash")
				}
			}
			if len(sc.Foreign) > 0 {
				return res, nil // what others write is theirs
			}
			return res, wholeTexts(res, tl, logs)
		}})

	register(&Prop{ID: "C02", Progs: []string{"ed"}, Quick: 1800, Thorough: 60000,
		Rule: "Random sessions that save twice; a failure is injected at every system call of the first save on files, one at a time and in pairs, or the disk is full after a random number of bytes until later; the session goes on printing and saving.",
		Case: func(c *Ctx, r *Rng) {
			g := newGen(c, r)
			sc := saveScenario(c, r, g)
			g.edit()
			if r.N(60) == 0 {
				c.manyFailures(r, g, sc)
				return
			}
			if n := len(g.st.lines); n > 0 && r.N(3) > 0 {
				g.emit(fmt.Sprint(1+r.N(n)), nil)
			}
			g.saveNow()
			if r.N(3) > 0 {
				g.emit(".=", nil)
			}
			g.emit(",n", nil)
			if r.N(2) == 0 {
				g.edit()
			}
			if g.st.name != "" {
				g.emit("w", nil)
			} else {
				g.emit("w "+g.ws[0], nil)
			}
			g.emit(",p", nil)
			g.finish(sc, 0)
			res := c.Try(sc)
			ps := points(res, 0, func(e *kernel.Event) bool { return strings.HasPrefix(e.Role, "/w") })
			if len(ps) > 24 {
				ps = sample(r, ps, 24)
			}
			for _, p := range ps {
				t := sc
				if r.N(3) == 0 {
					t = withKnobs(r, sc)
				}
				t = t.Clone()
				t.Faults = append(t.Faults, kernel.Fault{Call: p.call, Role: p.role, Nth: p.nth, Errno: edErrno(r, p.call), Sticky: r.N(8) == 0})
				c.Try(t)
			}
			for i := 0; i < 3 && len(ps) > 1; i++ {
				t := withKnobs(r, sc)
				for j := 0; j < 2; j++ {
					p := ps[r.N(len(ps))]
					t.Faults = append(t.Faults, kernel.Fault{Call: p.call, Role: p.role, Nth: p.nth, Errno: edErrno(r, p.call), Sticky: r.N(8) == 0})
				}
				if r.N(2) == 0 {
					t.Faults[1] = kernel.Fault{Call: "unlink", Role: "*", Errno: kernel.EIO}
				}
				c.Try(t)
			}
			size := len(joinLines(g.st.lines)) + 1
			for i := 0; i < 4; i++ {
				t := withKnobs(r, sc)
				q := int64(r.N(2*size + 2))
				if i == 0 {
					q = int64(size - 1 - r.N(3))
				}
				if q < 0 {
					q = 0
				}
				t.Quota = &q
				if r.N(2) == 0 {
					t.Foreign = append(t.Foreign, kernel.ForeignOp{At: len(res.Events)/3 + r.N(len(res.Events)), Op: "quota", N: -1})
				}
				c.Try(t)
			}
		},
		Judge: func(c *Ctx, sc *Scenario) (*Result, *Violation) {
			res, tl := c.watch(sc, nil, 0)
			l := walkEd(sc, res, tl, 0)
			failed := false
			for _, a := range l.ans {
				if a.out.save && a.done {
					if a.failed {
						failed = true
						c.Probe("save failed")
					} else if failed {
						c.Probe("save succeeded after a failed one")
					}
				}
			}
			if v := l.pick("save-step-lost", "failed-save", "save-false-success", "save-touched"); v != nil {
				return res, v
			}
			if v := l.pick("answer"); v != nil && !failed && len(sc.Faults)+len(sc.Bad) > 0 || v != nil && !failed && sc.Quota != nil {
				// only if the faults are to blame
				t := sc.Clone()
				t.Faults, t.Bad, t.Quota = nil, nil, nil
				r2, tl2 := c.watch(t, nil, 0)
				if walkEd(t, r2, tl2, 0).pick("answer") == nil {
					return res, v
				}
			}
			if failed {
				if v := l.pick("answer", "saved-wrong", "save-false-failure"); v != nil {
					return res, v
				}
				if !l.open {
					return res, edEnded(sc, res, 0)
				}
			}
			if len(sc.Faults) > 0 {
				if v := l.pick("saved-wrong", "mode-changed"); v != nil {
					return res, v
				}
			}
			return res, nil
		}})

	register(&Prop{ID: "C03", Progs: []string{"ed"}, Quick: 8000, Thorough: 100000,
		Rule: "Random saves to files of every mode under every umask, among neighbours with names like those of editor temporaries, names made from the constants of the code, and every name the code itself was seen to create next to the target, each as a file, directory, symbolic or hard link.",
		Case: func(c *Ctx, r *Rng) {
			g := newGen(c, r)
			sc := saveScenario(c, r, g)
			sc.Files = append(sc.Files, kernel.FileSpec{Path: "/w/precious", Data: []byte("precious\n"), Mode: 0o644},
				kernel.FileSpec{Path: "/w/zdir", Type: "dir", Mode: 0o755}, kernel.FileSpec{Path: "/tmp/other", Data: []byte("other\n"), Mode: 0o600})
			for i := 1 + r.N(2); i > 0; i-- {
				g.edit()
				if r.N(12) == 0 {
					g.emit("w nodir/x", nil)
				} else if r.N(4) == 0 {
					g.emit("w brandnew", nil)
				} else {
					g.saveNow()
				}
			}
			g.finish(sc, 0)
			sc.Procs[0].Umask = []uint32{0, 0o022, 0o077, 0o777, 0o277, 0o027, 0o002}[r.N(7)]
			res := c.Try(sc)
			c.Try(withKnobs(r, sc))
			t := withKnobs(r, sc)
			ps := points(res, 0, func(e *kernel.Event) bool { return strings.HasPrefix(e.Role, "/w") })
			for _, p := range sample(r, ps, 2) {
				u := t.Clone()
				u.Faults = append(u.Faults, kernel.Fault{Call: p.call, Role: p.role, Nth: p.nth, Errno: edErrno(r, p.call), Sticky: r.N(8) == 0})
				c.Try(u)
			}
			target := role(g.ws[0])
			rounds := 4
			if r.N(12) == 0 {
				rounds = 14
			}
			for round := 0; round < rounds; round++ {
				t = t.Clone()
				t.Procs[0].Umask = []uint32{0, 0o022, 0o077, 0o777, 0o277, 0o027, 0o002}[r.N(7)]
				have := map[string]bool{}
				for _, f := range t.Files {
					have[f.Path] = true
				}
				var names []string
				for i := range res.Events {
					// whatever it creates
					e := &res.Events[i]
					if e.Call == "open" && e.Off&0o100 != 0 && e.Role != target && e.Role != "/w/brandnew" || e.Call == "mkdir" || e.Call == "link" || e.Call == "symlink" {
						names = append(names, e.Role)
					}
				}
				base := target[strings.LastIndexByte(target, '/')+1:]
				d := dirOf(target) + "/"
				names = append(names, d+base+"~", d+base+".tmp", d+"."+base+".swp", d+"#"+base+"#", d+base+".bak", d+base+".new", d+base+".swp", d+base+".swp1", d+"ed.tmp", "/tmp/"+base)
				for i := 0; i < 4 && len(c.Dict.Strs) > 0; i++ {
					s := c.Dict.Strs[r.N(len(c.Dict.Strs))]
					if !strings.ContainsAny(s, "/\x00") {
						names = append(names, d+base+s, d+s+base, d+s)
					}
				}
				for i, n := range names {
					if have[n] || n == target || strings.HasSuffix(n, "/") || strings.HasSuffix(n, ".") || strings.Contains(n, "//") || n == "/w/brandnew" || i > 6 && r.N(2) == 0 {
						continue
					}
					have[n] = true
					f := kernel.FileSpec{Path: n, Mode: []uint32{0o644, 0o400, 0o666, 0}[r.N(4)], Data: []byte("neighbour " + n + "\n")}
					switch r.N(6) {
					case 0:
						f = kernel.FileSpec{Path: n, Type: "dir", Mode: 0o755}
					case 1:
						f = kernel.FileSpec{Path: n, Type: "link", Target: []string{"/w/precious", "nowhere", "/w/zdir", target}[r.N(4)], Mode: 0o777}
					case 2:
						f = kernel.FileSpec{Path: n, HardTo: "/w/precious", Mode: 0o644}
					case 3:
						f.Data = nil
					}
					t.Files = append(t.Files, f)
				}
				res = c.Try(t)
			}
		},
		Judge: func(c *Ctx, sc *Scenario) (*Result, *Violation) {
			res, tl := c.watch(sc, nil, 0)
			l := walkEd(sc, res, tl, 0)
			targets := map[string]bool{}
			for _, a := range l.ans {
				if a.out.save {
					targets[a.target] = true
				}
				if a.out.save && a.done && !a.failed {
					c.Probe("save judged")
				}
			}
			if v := l.pick("mode-changed", "save-touched", "save-false", "saved-wrong"); v != nil && (len(sc.Faults) == 0 || v.Class == "mode-changed") {
				return res, v
			}
			if l.open {
				return res, nil
			}
			// neighbours keep still at every moment
			for i := range tl.trees {
				if i > 0 && sameTree(tl.trees[i], tl.trees[i-1]) {
					continue
				}
				for p, x := range tl.initial {
					if targets[p] {
						continue
					}
					y, ok := tl.trees[i][p]
					if !ok || x.Mode != y.Mode || x.Target != y.Target || x.Data != y.Data {
						return res, bad("neighbour", "%s changed at event %s: %s", p, res.Events[i], diffEntry(tl.initial, tl.trees[i], p))
					}
				}
			}
			if len(sc.Faults) > 0 {
				return res, nil // what a failed save leaves is the business of C02
			}
			if !res.Procs[0].Killed {
				for p := range tl.last() {
					if _, was := tl.initial[p]; !was && !targets[p] {
						return res, bad("left-over", "%s was left behind", p)
					}
				}
			}
			return res, nil
		}})

	register(&Prop{ID: "C04", Progs: []string{"ed"}, Quick: 4500, Thorough: 120000,
		Rule: "Two to six sessions with texts of their own save to the same file under random interleavings of their system calls, some killed at random calls; at every moment the contents are checked against a register whose writes are the saves.",
		Case: func(c *Ctx, r *Rng) {
			sc := baseScenario(r)
			n := 2 + r.N(2)
			if r.N(6) == 0 {
				n = 4 + r.N(3)
			}
			name := []string{"f", "dir/f"}[r.N(2)]
			if name != "f" {
				sc.Files = append(sc.Files, kernel.FileSpec{Path: "/w/dir", Type: "dir", Mode: 0o755})
			}
			if r.N(5) > 0 {
				d := "original\n"
				if r.N(3) == 0 {
					d = strings.Repeat("original text of the file\n", 1+r.N(300))
				}
				sc.Files = append(sc.Files, kernel.FileSpec{Path: role(name), Data: []byte(d), Mode: 0o644})
			}
			if r.N(6) == 0 {
				sc.Files = append(sc.Files, kernel.FileSpec{Path: "/w/ln", Type: "link", Target: name, Mode: 0o777})
			}
			for pi := 0; pi < n; pi++ {
				g := newGen(c, r)
				g.tag = fmt.Sprintf("s%d-", pi)
				g.save, g.load, g.bad = 0, 0, 0
				via := name
				if len(sc.Files) > 0 && sc.Files[len(sc.Files)-1].Path == "/w/ln" && r.N(2) == 0 {
					via = "ln"
				}
				if r.N(6) == 0 {
					g.emit("e "+via, nil)
					g.emit(",p", nil)
				}
				for k := 1 + r.N(3); k > 0; k-- {
					g.emit("a", g.text())
					g.emit("$a", []string{fmt.Sprintf("version %d of session %d", g.n, pi)})
					if r.N(4) == 0 {
						g.emit(strings.TrimSpace(",c"), []string{fmt.Sprintf("all new %d %d", pi, g.n), strings.Repeat("filler ", r.N(200))})
					}
					g.emit("w "+via, nil)
					if r.N(4) == 0 {
						g.emit(",p", nil)
					}
					if r.N(8) == 0 {
						g.emit("e "+via, nil)
						g.emit(",p", nil)
					}
				}
				if r.N(2) == 0 {
					g.emit("q", nil)
				}
				sc.Procs = append(sc.Procs, kernel.ProcSpec{Prog: "ed", Umask: 0o022, StdoutLimit: -1, Stdin: []kernel.Chunk{{Data: g.buf}}})
			}
			for i := 0; i < 5; i++ {
				t := withKnobs(r, sc)
				t.Knobs.Switch = []int{0, 30, 100, 300, 700}[r.N(5)]
				if i < 2 {
					t.Knobs = kernel.Knobs{Switch: []int{50, 200, 500}[r.N(3)]}
				}
				if i == 1 {
					for pi := range t.Procs {
						t.Procs[pi].Start = r.N(120)
					}
				}
				res := c.Try(t)
				if i >= 2 {
					t = t.Clone()
					for k := 1 + r.N(2); k > 0; k-- {
						pi := r.N(n)
						var pts []int
						for j := range res.Events {
							if e := &res.Events[j]; e.Proc == pi && strings.HasPrefix(e.Role, "/w") && e.Call != "fcntl" {
								pts = append(pts, e.PIdx)
							}
						}
						if len(pts) > 0 {
							t.Kills = append(t.Kills, kernel.Kill{Proc: pi, At: pts[r.N(len(pts))], Torn: r.N(40)})
						}
					}
					c.Try(t)
				}
			}
		},
		Judge: func(c *Ctx, sc *Scenario) (*Result, *Violation) {
			res, tl := c.watch(sc, nil, 0)
			var logs []*edLog
			open, killed := false, false
			for i := range sc.Procs {
				l := walkShared(sc, res, tl, i)
				logs = append(logs, l)
				open = open || l.open
				killed = killed || res.Procs[i].Killed
			}
			for _, l := range logs {
				if v := l.pick("answer", "save-", "load-"); v != nil {
					return res, v
				}
			}
			if open {
				c.Probe("session left the model")
				return res, nil
			}
			for i := range sc.Procs {
				if v := edEnded(sc, res, i); v != nil {
					return res, v
				}
			}
			acts := savesOf(tl, logs)
			overlap := 0
			targets := map[string]bool{}
			for i, s := range acts {
				targets[s.target] = true
				for _, u := range acts[:i] {
					if u.proc != s.proc && u.target == s.target && u.a.lo < s.a.hi && s.a.lo < u.a.hi {
						overlap++
					}
				}
			}
			if overlap > 0 {
				c.Probe("runs with overlapping saves")
			}
			if killed {
				c.Probe("runs with a session killed")
			}
			for t := range targets {
				if v := register1(res, tl, acts, t); v != nil {
					return res, v
				}
			}
			if !killed {
				for p := range tl.last() {
					if _, was := tl.initial[p]; !was && !targets[p] {
						return res, bad("left-over", "%s was left behind", p)
					}
				}
			}
			for p, x := range tl.initial {
				if y, ok := tl.last()[p]; !targets[p] && (!ok || x.Data != y.Data || x.Mode != y.Mode) {
					return res, bad("touched", "%s changed: %s", p, diffEntry(tl.initial, tl.last(), p))
				}
			}
			return res, nil
		}})
}

func sameTree(a, b tree) bool {
	// snapshots are shared between events that change nothing
	return fmt.Sprintf("%p", a) == fmt.Sprintf("%p", b)
}

// register1 checks one file against a register written by the saves.
func register1(res *Result, tl *timeline, acts []saveAct, t string) *Violation {
	first, was := tl.initial[t]
	for i := range tl.trees {
		if i > 0 && sameTree(tl.trees[i], tl.trees[i-1]) {
			// the same contents; but saves may have been answered meanwhile
			ans := false
			for _, s := range acts {
				ans = ans || s.a.done && s.a.hi == i
			}
			if !ans {
				continue
			}
		}
		now, is := tl.trees[i][t]
		okay := false
		// still the original
		if is == was && (!is || now.Data == first.Data) {
			okay = true
			for _, u := range acts {
				if u.target == t && u.a.done && !u.a.failed && u.a.hi <= i {
					okay = false
				}
			}
		}
		for _, s := range acts {
			if okay || !is || s.target != t || s.a.lo >= i || !oneOf(now.Data, s.a.images) {
				continue
			}
			good := true
			for _, u := range acts {
				if u.target == t && s.a.done && u.a.done && !u.a.failed && u.a.lo >= s.a.hi && u.a.hi <= i {
					good = false // overwritten since
				}
			}
			okay = good
		}
		if !okay {
			if !is {
				return bad("missing", "%s is missing after event %s", t, res.Events[i])
			}
			// stale or mixed?
			for _, s := range acts {
				if oneOf(now.Data, s.a.images) {
					return bad("stale", "after event %s %s holds a text that was overwritten before: %s", res.Events[i], t, show([]byte(now.Data)))
				}
			}
			if is == was && now.Data == first.Data {
				return bad("stale", "after event %s %s still holds the original text", res.Events[i], t)
			}
			return bad("mixed", "after event %s %s holds no complete text of one save: %s", res.Events[i], t, show([]byte(now.Data)))
		}
	}
	return nil
}

// manyFailures is a session in which one save after another fails, more of them
// than a process may have descriptors, and then everything works again.
func (c *Ctx) manyFailures(r *Rng, g *edGen, sc *Scenario) {
	sc.MaxFDs = 24
	n := 26 + r.N(10)
	w := "w"
	if g.st.name == "" {
		w = "w " + g.ws[0]
	}
	one := sc.Clone()
	buf := append([]byte(nil), g.buf...)
	g.emit(w, nil)
	g.finish(one, 0)
	g.buf = buf
	res := c.Run(one, nil)
	for i := 0; i < n; i++ {
		g.emit(w, nil)
	}
	g.emit(",n", nil)
	g.emit(w, nil)
	g.emit(",p", nil)
	g.finish(sc, 0)
	// what fails: any step of this code's own save, or the disk is full
	calls := map[string]bool{}
	var l []string
	for i := range res.Events {
		e := &res.Events[i]
		if strings.HasPrefix(e.Role, "/w") && e.Call != "read" && e.Call != "unlink" && !calls[e.Call] {
			calls[e.Call] = true
			l = append(l, e.Call)
		}
	}
	for _, call := range l {
		if call == "write" || call == "open" || call == "close" {
			continue // of standard output too, and of every file
		}
		t := withKnobs(r, sc)
		t.Faults = append(t.Faults, kernel.Fault{Call: call, Role: "*", Times: n, Errno: edErrno(r, call)})
		c.Try(t)
	}
	q := int64(0)
	if size := len(joinLines(g.st.lines)); size > 0 {
		q = int64(r.N(size))
	}
	t := sc.Clone()
	t.Quota = &q
	c.Try(t)
	t = t.Clone()
	t.Foreign = append(t.Foreign, kernel.ForeignOp{At: len(res.Events) * n * 2 / 3, Op: "quota", N: -1})
	c.Try(t)
	c.Probe("more failing saves than descriptors")
}
