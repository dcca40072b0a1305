package check

import (
	"encoding/hex"
	"fmt"
	"strings"

	"vsim/kernel"
)

// C09: the piece table against a byte string.

func init() {
	register(&Prop{ID: "C09", Progs: nil, Harness: []string{"pt"}, Quick: 70000, Thorough: 300000,
		Rule: "Random histories of inserts and deletes on piece tables over files, buffers and readers that return short counts, report the end of file with the last bytes, fail at a random call or end too early (also files that shrink); the caller overwrites the slice it passed after every insert.",
		Case: func(c *Ctx, r *Rng) {
			sc := baseScenario(r)
			sc.Procs = one("h_pt")
			var b strings.Builder
			n := c.size(r, 3000)
			if r.N(3) > 0 {
				n = r.N(30)
			}
			data := c.bytesOf(r, n)
			kind := r.N(6)
			switch kind {
			case 0:
				fmt.Fprintf(&b, "zero\n")
				n = 0
			case 1:
				fmt.Fprintf(&b, "bytes x%x\n", data)
			case 2, 3:
				sc.Files = append(sc.Files, kernel.FileSpec{Path: "/w/orig", Data: data, Mode: 0o644})
				fmt.Fprintf(&b, "file /w/orig %d\n", n)
			default:
				fail := 0
				if r.N(3) == 0 {
					fail = 1 + r.N(8)
				}
				cut := -1
				if n > 0 && r.N(6) == 0 {
					cut = r.N(n)
				}
				fmt.Fprintf(&b, "mem x%x %d %d %d %d\n", data, r.N(2), []int{0, 0, 1, 2, 7, 100}[r.N(6)], fail, cut)
			}
			size := n
			at := func() int {
				switch r.N(6) {
				case 0:
					return 0
				case 1:
					return size
				}
				return r.N(size + 1)
			}
			last := 0
			steps, huge := 1+r.N(30), 0
			switch r.N(60) {
			case 0:
				steps = 100 + r.N(300)
			case 1:
				huge = 1 + r.N(steps)
			}
			for i := steps; i > 0; i-- {
				switch r.N(7) {
				case 0, 1, 2:
					k := r.N(6)
					if r.N(10) == 0 {
						k = c.size(r, 5000)
					}
					if huge > 0 && i <= huge {
						huge = 0
						k = []int{32767, 32768, 65535, 65536, 65537, 70000, 131072, 140000}[r.N(8)]
					}
					p := at()
					if r.N(3) == 0 && last <= size {
						p = last // where the last edit ended
					}
					t := make([]byte, k)
					for j := range t {
						t[j] = byte('A' + r.N(26))
					}
					fmt.Fprintf(&b, "i %d x%x\n", p, t)
					size += k
					last = p + k
				case 3, 4, 5:
					p := at()
					if r.N(3) == 0 && last <= size {
						p = last
					}
					k := r.N(size - p + 1)
					if r.N(2) == 0 {
						k = min(k, r.N(5))
					}
					if r.N(12) == 0 {
						p, k = 0, size
					}
					fmt.Fprintf(&b, "d %d %d\n", k, p)
					size -= k
					last = p
				default:
					fmt.Fprintf(&b, "s\n")
				}
			}
			fmt.Fprintf(&b, "s\n")
			sc.Procs[0].Stdin = []kernel.Chunk{{Data: []byte(b.String())}}
			res := c.Try(sc)
			if kind == 2 || kind == 3 {
				t := withKnobs(r, sc)
				c.Try(t)
				ps := points(res, 0, func(e *kernel.Event) bool { return e.Role == "/w/orig" && e.Call == "read" })
				for _, p := range sample(r, ps, 2) {
					u := t.Clone()
					u.Faults = append(u.Faults, kernel.Fault{Call: p.call, Role: p.role, Nth: p.nth, Errno: errOf(r, readErrs), Sticky: r.N(2) == 0})
					c.Try(u)
				}
				if n > 0 {
					// the file shrinks or vanishes
					u := withKnobs(r, sc)
					u.Foreign = append(u.Foreign, kernel.ForeignOp{At: r.N(len(res.Events)), Op: []string{"truncate", "truncate", "unlink"}[r.N(3)], Path: "/w/orig", N: r.N(n)})
					c.Try(u)
				}
				u := withKnobs(r, sc)
				u.Bad = append(u.Bad, kernel.BadSector{Path: "/w/orig", At: r.N(n + 1), Errno: kernel.EIO})
				c.Try(u)
			}
		},
		Judge: func(c *Ctx, sc *Scenario) (*Result, *Violation) {
			res := c.Run(sc, nil)
			p := &res.Procs[0]
			if v := hung(p); v != nil {
				return res, v
			}
			var cur []byte
			answers := strings.Split(strings.TrimSuffix(string(p.Stdout), "\n"), "\n")
			next := func() string {
				if len(answers) == 0 {
					return ""
				}
				a := answers[0]
				answers = answers[1:]
				return a
			}
			faulty := len(sc.Faults)+len(sc.Bad)+len(sc.Foreign) > 0
			script := string(stdinBytes(&sc.Procs[0]))
			if !strings.HasSuffix(script, "\n") && script != "" {
				script = script[:strings.LastIndexByte(script, '\n')+1]
			}
			if len(sc.Foreign) > 0 && answers[0] == "nofile" {
				return res, nil
			}
			for ln, line := range strings.Split(strings.TrimSuffix(script, "\n"), "\n") {
				f := strings.Fields(line)
				if len(f) == 0 {
					return res, nil
				}
				unhex := func(s string) []byte {
					d, _ := hex.DecodeString(strings.TrimPrefix(s, "x"))
					return d
				}
				var a, b int
				switch {
				case f[0] == "zero" && ln == 0:
				case f[0] == "bytes" && len(f) == 2 && ln == 0, f[0] == "mem" && len(f) == 6 && ln == 0:
					cur = unhex(f[1])
				case f[0] == "file" && len(f) == 3 && ln == 0:
					x := findFile(sc, f[1])
					fmt.Sscan(f[2], &a)
					if x == nil || a != len(x.Data) {
						return res, nil
					}
					cur = append([]byte(nil), x.Data...)
				case f[0] == "i" && len(f) == 3 && ln > 0:
					fmt.Sscan(f[1], &a)
					if a < 0 || a > len(cur) {
						return res, nil
					}
					d := unhex(f[2])
					if len(answers) > 0 && strings.HasPrefix(answers[0], fmt.Sprintf("panic %d ", ln)) {
						return res, bad("panic", "insert of %d bytes at %d of %d: %s", len(d), a, len(cur), answers[0])
					}
					cur = append(cur[:a:a], append(append([]byte(nil), d...), cur[a:]...)...)
				case f[0] == "d" && len(f) == 3 && ln > 0:
					fmt.Sscan(f[1], &a)
					fmt.Sscan(f[2], &b)
					if a < 0 || b < 0 || a+b > len(cur) {
						return res, nil
					}
					if len(answers) > 0 && strings.HasPrefix(answers[0], fmt.Sprintf("panic %d ", ln)) {
						return res, bad("panic", "delete of %d bytes at %d of %d: %s", a, b, len(cur), answers[0])
					}
					cur = append(cur[:b:b], cur[b+a:]...)
				case f[0] == "s" && ln > 0:
					ans := next()
					failed := strings.HasSuffix(ans, "!")
					ans = strings.TrimSuffix(ans, "!")
					if failed {
						c.Probe("the reader failed")
					}
					if ans == "loud" {
						if !failed && !faulty {
							return res, bad("panic", "String panicked although no read failed")
						}
						c.Probe("failure was loud")
						continue
					}
					if !strings.HasPrefix(ans, "x") {
						return res, bad("died", "no answer: exit %d signal %d %s", p.Exit, p.Signal, clip(p.Diag, 200))
					}
					if got := unhex(ans); string(got) != string(cur) {
						if failed {
							return res, bad("silent-failure", "the reader failed and String returned wrong contents: %s", where(got, cur))
						}
						return res, bad("wrong-contents", "after %d edits: %s", ln, where(got, cur))
					}
				default:
					return res, nil
				}
			}
			return res, nil
		}})

	register(&Prop{ID: "C20", Progs: []string{"cat", "cksum", "cmp", "diff", "ed", "head", "kill", "locale", "test", "tsort"}, Quick: 8000, Thorough: 200000,
		Rule: "Random invocations of every utility; each is run undisturbed and under several random mixtures of short and interrupted transfers, input arriving in pieces, goroutine schedules and map orders, and the results compared.",
		Case: func(c *Ctx, r *Rng) {
			var sc *Scenario
			switch k := r.N(12); {
			case k < 6:
				f := filters[r.N(len(filters))]
				sc = f.make(c, r, r.N(4) == 0)
			case k == 6:
				sc = localeScenario(c, r, false)
			case k == 7:
				sc = testScenario(c, r)
			case k == 8:
				sc = killScenario(c, r)
			default:
				g := newGen(c, r)
				g.bad = []int{0, 100, 400}[r.N(3)]
				g.long = r.N(10) == 0
				sc = edScenario(c, r, g, 1+r.N(15))
				if r.N(3) == 0 {
					g.buf = append(g.buf, soup(c, r, g)...)
				}
				g.finish(sc, 0)
			}
			for i := 0; i < 4; i++ {
				t := withKnobs(r, sc)
				if len(t.Procs[0].Stdin) > 0 && !t.Procs[0].StdinFile {
					t.Procs[0].Stdin = c.chunks(r, stdinBytes(&t.Procs[0]))
				}
				c.Try(t)
			}
		},
		Judge: func(c *Ctx, sc *Scenario) (*Result, *Violation) {
			res := c.Run(sc, nil)
			for i := range res.Procs {
				if v := hung(&res.Procs[i]); v != nil {
					return res, v
				}
			}
			c.Probe("compared: " + sc.Procs[0].Prog)
			// the twin also draws other random numbers (the order of maps, the
			// choice of a select)
			t := benign(sc)
			t.MapSeed = kernel.Mix(sc.MapSeed, 0x7477696e)
			return res, same(sc, res, c.Run(t, nil))
		}})
}
