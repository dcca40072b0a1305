package check

import (
	"strings"

	"vsim/kernel"
)

// soup makes bytes that look more or less like ed commands.
func soup(c *Ctx, r *Rng, g *edGen) []byte {
	var b []byte
	n := 1 + r.N(20)
	for i := 0; i < n; i++ {
		switch r.N(12) {
		case 0, 1, 2:
			k := 1 + r.N(8)
			for j := 0; j < k; j++ {
				b = append(b, "0123456789.$,;+-/?'acdeinpqwgGvVstmjkrluhHPEfQxz= !\\^*[]()&%\t\r\n"[r.N(63)])
			}
		case 3:
			for j := r.N(12); j > 0; j-- {
				b = append(b, byte(r.U64()))
			}
		case 4:
			b = append(b, []string{"1,$", "/[/", "/\\(/p", "?x?", "'a", "//", "/a", "$$", "1,2,3p", "1;", ";;", ",,", "+", "-", "++", "--3", "$-99", "99999999999999999999", "0", "1,0p", "-1", "18446744073709551617p"}[r.N(22)]...)
			if r.N(2) == 0 {
				b = append(b, "pndac=iwm"[r.N(9)])
			}
		case 5:
			b = append(b, []string{"s/a/b/g", "g/x/p", "v/x/d", "G/a/", "V/a/", "1,2m0", "1t$", "1,2j", "1,$j", "ka", "'ap", "r f", "r", "u", "!ls", "h", "H", "P", "E f", "E", "f x", "f", "Q", "l", "1,$l", "wq", "W f", "x", "z", "e", "e ", "e !ls", "w !cat", "w  ", "q q", "1q", "0a", "0i", "0c", "0d", "0p", "$+1p", ".=,", "a b", "p!", "pp", "pn", "np"}[r.N(48)]...)
		case 6:
			b = append(b, []string{"a\nx\n.", "i\n.", "c\n..\n.", "a", "1i\ny", "$c", "5,1c\nz\n.", "99a\nlost\n.", "a\n" + strings.Repeat("z", r.N(2000)) + "\n."}[r.N(9)]...)
		case 9:
			if r.N(3) > 0 {
				continue
			}
			// long lines
			k := []int{300, 1100, 4090, 4096, 4097, 9000, 66000, 140000}[r.N(8)] + r.N(4)
			switch r.N(6) {
			case 0:
				b = append(b, strings.Repeat("0", k)+"1p"...)
			case 1:
				b = append(b, "/"+strings.Repeat("y", k)+"/p"...)
			case 2:
				b = append(b, "1"+strings.Repeat(" ", k)+"p"...)
			case 3:
				b = append(b, "e "+strings.Repeat("n", k)...)
			case 4:
				b = append(b, strings.Repeat("z", k)...)
			default:
				b = append(b, "p"+strings.Repeat("p", k)...)
			}
		case 7:
			b = append(b, malformed[r.N(len(malformed))]...)
		case 8:
			b = append(b, []string{"e f", "e g.txt", "e nodir/x", "e dir", "e nothere", "w f", "w new", "w nodir/x", "w dir", "w", "1,1w f", "5,9w f", "w /dev/null", "e /dev/null"}[r.N(14)]...)
		default:
			k := len(g.buf)
			g.step()
			b = append(b, strings.TrimSuffix(string(g.buf[k:]), "\n")...)
		}
		switch r.N(20) {
		case 0:
			b = append(b, "\r\n"...)
		case 1:
			b = append(b, ' ', '\n')
		case 2:
		default:
			b = append(b, '\n')
		}
	}
	return b
}

// edFileFaults are copies of a scenario with a failing call on a file.
func edFileFaults(r *Rng, sc *Scenario, res *Result, pi, k int) []*Scenario {
	ps := points(res, pi, func(e *kernel.Event) bool {
		return strings.HasPrefix(e.Role, "/w")
	})
	var out []*Scenario
	for _, p := range sample(r, ps, k) {
		t := sc.Clone()
		t.Faults = append(t.Faults, kernel.Fault{Proc: pi, Call: p.call, Role: p.role, Nth: p.nth, Errno: edErrno(r, p.call), Sticky: r.N(3) == 0})
		out = append(out, t)
	}
	return out
}

func edErrno(r *Rng, call string) kernel.Errno {
	switch call {
	case "open":
		return []kernel.Errno{kernel.EACCES, kernel.EMFILE, kernel.ENOSPC, kernel.EIO, kernel.EROFS, kernel.ENFILE}[r.N(6)]
	case "write":
		return []kernel.Errno{kernel.ENOSPC, kernel.EIO, kernel.EDQUOT, kernel.EFBIG}[r.N(4)]
	case "fsync", "close":
		return []kernel.Errno{kernel.EIO, kernel.ENOSPC, kernel.EDQUOT}[r.N(3)]
	case "rename":
		return []kernel.Errno{kernel.EIO, kernel.ENOSPC, kernel.EACCES, kernel.EROFS, kernel.EPERM, kernel.EBUSY, kernel.EXDEV}[r.N(7)]
	case "chmod":
		return []kernel.Errno{kernel.EPERM, kernel.EIO, kernel.EROFS}[r.N(3)]
	case "unlink":
		return []kernel.Errno{kernel.EIO, kernel.EROFS, kernel.EACCES}[r.N(3)]
	}
	return []kernel.Errno{kernel.EIO, kernel.EACCES, kernel.ENOMEM}[r.N(3)]
}

func init() {
	register(&Prop{ID: "C05", Progs: []string{"ed"}, Quick: 20000, Thorough: 200000,
		Rule: "Random sessions with malformed commands mixed in, fed whole, line by line, byte by byte or in random pieces, each piece arriving only when ed waits; goroutine schedules and transfer sizes random; standard input ends, stalls for ever, or carries on after q.",
		Case: func(c *Ctx, r *Rng) {
			g := newGen(c, r)
			g.bad = []int{0, 150, 400}[r.N(3)]
			sc := edScenario(c, r, g, 1+r.N(12))
			if r.N(3) > 0 {
				g.emit("q", nil)
				for i := r.N(3); i > 0; i-- {
					g.step()
				}
			}
			in := g.buf
			if r.N(10) == 0 {
				in = in[:max0(len(in)-1)]
			}
			p := &sc.Procs[0]
			if r.N(3) == 0 {
				p.StdinEnd = "stall"
			}
			for i := 0; i < 3; i++ {
				t := sc
				if i > 0 {
					t = withKnobs(r, sc)
				}
				p := &t.Procs[0]
				p.Stdin = nil
				switch i {
				case 0:
					for _, l := range strings.SplitAfter(string(in), "\n") {
						if l != "" {
							p.Stdin = append(p.Stdin, kernel.Chunk{Data: []byte(l), Gate: true})
						}
					}
				default:
					p.Stdin = c.feed(r, in)
				}
				c.Try(t)
			}
		},
		Judge: func(c *Ctx, sc *Scenario) (*Result, *Violation) {
			res, tl := c.watch(sc, nil, 0)
			l := walkEd(sc, res, tl, 0)
			if v := l.pick("answer"); v != nil {
				return res, v
			}
			p := &res.Procs[0]
			for _, q := range p.Quiet {
				for _, a := range l.ans {
					if a.done && a.cmd.end <= q.In && a.end > q.Out {
						return res, bad("answer-late", "ed waits for input but has not written the answer to %q yet (%d bytes read, %d written)", a.cmd.raw, q.In, q.Out)
					}
				}
			}
			if l.open {
				return res, nil
			}
			if l.quit && p.Stalled {
				return res, bad("hang", "ed goes on reading after q")
			}
			if v := edEnded(sc, res, 0); v != nil {
				return res, v
			}
			// nothing happens after the last answer
			if n := len(l.ans); n > 0 && !p.OutLost {
				if d := changed(tl.at(l.ans[n-1].hi), tl.last()); len(d) > 0 {
					return res, bad("after-end", "after the last command %s changed", strings.Join(d, ", "))
				}
			}
			return res, nil
		}})

	register(&Prop{ID: "C07", Progs: []string{"ed"}, Quick: 4000, Thorough: 150000,
		Rule: "Random sessions on a file which other processes overwrite, truncate, append to, remove, replace or make unreadable at random moments, with bad places on disk, and e commands failing at every step of their own trace.",
		Case: func(c *Ctx, r *Rng) {
			g := newGen(c, r)
			g.bad, g.save, g.load = 0, []int{0, 60}[r.N(2)], 60
			g.tag = "t"
			sc := edScenario(c, r, g, 2+r.N(8))
			if r.N(80) == 0 {
				// one load after another fails, more of them than a process may
				// have descriptors
				sc.MaxFDs = 24
				f := &sc.Files[0]
				for i := 26 + r.N(10); i > 0; i-- {
					g.emit("e "+append([]string{"worn", "worn", "worn", "dir"}, notLoadable...)[r.N(4+len(notLoadable))], nil)
				}
				g.emit(",n", nil)
				g.emit("e f", nil)
				g.emit("w out", nil)
				g.emit(",p", nil)
				sc.Files = append(sc.Files, kernel.FileSpec{Path: "/w/worn", Data: append([]byte("worn\n"), f.Data...), Mode: 0o644})
				sc.Bad = append(sc.Bad, kernel.BadSector{Path: "/w/worn", At: r.N(5 + len(f.Data)), Errno: kernel.EIO})
				g.finish(sc, 0)
				c.Try(sc)
				c.Try(withKnobs(r, sc))
				c.Probe("more failing loads than descriptors")
				return
			}
			if r.N(2) == 0 {
				// several times the buffer of a file system block
				f := &sc.Files[0]
				f.Data = []byte(strings.Repeat("block of text "+g.textLine()+"\n", 1+r.N(400)))
				if r.N(30) == 0 {
					f.Data = []byte(hugeText(r))
					c.Probe("huge file")
				}
				g.fs["f"] = string(f.Data)
			}
			for i := 0; i < 2; i++ {
				if r.N(2) == 0 {
					g.emit("e "+append([]string{"f", "g.txt", "dir", "nothere"}, notLoadable...)[r.N(4+len(notLoadable))], nil)
				}
				g.emit(",n", nil)
				g.emit("w out"+[]string{"", "2"}[i], nil)
				g.emit("w", nil)
			}
			g.finish(sc, 0)
			res := c.Try(sc)
			// strangers at work
			for i := 0; i < 4; i++ {
				t := withKnobs(r, sc)
				for j := 1 + r.N(3); j > 0; j-- {
					t.Foreign = append(t.Foreign, edForeign(c, r, len(res.Events)))
				}
				sortOps(t.Foreign)
				c.Try(t)
			}
			// failing loads
			ps := points(res, 0, func(e *kernel.Event) bool {
				return strings.HasPrefix(e.Role, "/w/") && (e.Call == "open" || e.Call == "read" || e.Call == "stat" || e.Call == "fstat" || e.Call == "lstat" || e.Call == "close")
			})
			for _, p := range sample(r, ps, 3) {
				t := withKnobs(r, sc)
				t.Faults = append(t.Faults, kernel.Fault{Call: p.call, Role: p.role, Nth: p.nth, Errno: edErrno(r, p.call), Sticky: r.N(2) == 0})
				c.Try(t)
			}
			t := withKnobs(r, sc)
			f := sc.Files[r.N(len(sc.Files))]
			t.Bad = append(t.Bad, kernel.BadSector{Path: f.Path, At: c.size(r, len(f.Data)), Errno: kernel.EIO, Once: r.N(3) == 0})
			c.Try(t)
		},
		Judge: func(c *Ctx, sc *Scenario) (*Result, *Violation) {
			res, tl := c.watch(sc, nil, 0)
			l := walkEd(sc, res, tl, 0)
			n := 0
			for _, a := range l.ans {
				for _, op := range sc.Foreign {
					if a.out.load && a.done && !a.failed && op.At > a.hi && op.At < len(res.Events) {
						n++
					}
				}
				if a.out.load && a.done && a.failed && len(sc.Faults)+len(sc.Bad) > 0 {
					c.Probe("e failed by a fault")
				}
			}
			if n > 0 {
				c.Probe("file changed by others after it was loaded")
			}
			if v := l.pick("answer", "load-", "saved-wrong", "save-false"); v != nil {
				return res, v
			}
			if l.open {
				return res, nil
			}
			return res, edEnded(sc, res, 0)
		}})

	register(&Prop{ID: "C08", Progs: []string{"ed"}, Quick: 16000, Thorough: 250000,
		Rule: "Random byte soup, command fragments, unsupported commands and mutated sessions, with failing calls on the files they name; no panic, no hang, exit status 0; sessions made of the modelled commands, most of them impossible, are compared with the model.",
		Case: func(c *Ctx, r *Rng) {
			g := newGen(c, r)
			g.bad = []int{200, 500, 800}[r.N(3)]
			sc := edScenario(c, r, g, r.N(4))
			switch r.N(3) {
			case 0:
				for i := 2 + r.N(10); i > 0; i-- {
					g.step()
				}
				g.emit(",n", nil)
				g.finish(sc, 0)
			case 1:
				in := soup(c, r, g)
				sc.Procs[0].Stdin = c.feed(r, in)
			case 2:
				for i := 2 + r.N(10); i > 0; i-- {
					g.step()
				}
				in := append([]byte(nil), g.buf...)
				for i := 1 + r.N(4); i > 0 && len(in) > 0; i-- {
					at := r.N(len(in))
					switch r.N(4) {
					case 0:
						in[at] = byte(r.U64())
					case 1:
						in = append(in[:at], in[at+1:]...)
					case 2:
						in = append(in[:at], append([]byte{"\n./$,;09acdeipnw=?+-' "[r.N(22)]}, in[at:]...)...)
					case 3:
						in = in[:at]
					}
				}
				sc.Procs[0].Stdin = c.feed(r, in)
			}
			if r.N(12) == 0 {
				sc.Procs[0].Args = []string{[]string{"nothere", "dir", "", "a b", "f\nq", "/dev/null", "\xff", "nodir/x", "f\nw new"}[r.N(9)]}
			}
			if r.N(15) == 0 {
				sc.Procs[0].StdinEnd = "EIO"
			}
			res := c.Try(sc)
			c.Try(withKnobs(r, sc))
			for _, t := range edFileFaults(r, withKnobs(r, sc), res, 0, 2) {
				c.Try(t)
			}
		},
		Judge: func(c *Ctx, sc *Scenario) (*Result, *Violation) {
			res, tl := c.watch(sc, nil, 0)
			p := &res.Procs[0]
			if v := edEnded(sc, res, 0); v != nil {
				return res, v
			}
			if len(p.Stderr) > 0 {
				c.Probe("said something on standard error")
			}
			l := walkEd(sc, res, tl, 0)
			for _, a := range l.ans {
				if a.done && a.out.err {
					c.Probe("impossible command answered by ?")
				}
			}
			return res, l.pick("answer", "load-false-success", "save-false-success", "failed-save-changed", "save-touched", "saved-wrong")
		}})
}

func sortOps(ops []kernel.ForeignOp) {
	for i := 1; i < len(ops); i++ {
		for j := i; j > 0 && ops[j].At < ops[j-1].At; j-- {
			ops[j], ops[j-1] = ops[j-1], ops[j]
		}
	}
}

// edForeign is something another process does to the edited files.
func edForeign(c *Ctx, r *Rng, events int) kernel.ForeignOp {
	path := []string{"/w/f", "/w/f", "/w/f", "/w/g.txt", "/w/dir/h"}[r.N(5)]
	op := kernel.ForeignOp{At: r.N(events + 1), Path: path}
	switch r.N(7) {
	case 0:
		op.Op, op.N = "truncate", r.N(20)
	case 1:
		op.Op, op.Data = "append", []byte("stranger\n")
	case 2:
		op.Op = "unlink"
	case 3:
		op.Op, op.Data = "replace", []byte("replaced by a stranger\n")
	case 4:
		op.Op, op.N = "chmod", 0
	case 5:
		op.Op, op.Data = "write", c.bytesOf(r, c.size(r, 2000))
	default:
		op.Op, op.Data = "write", []byte("X")
		op.N = r.N(30)
	}
	return op
}
