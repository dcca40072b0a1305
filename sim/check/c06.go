package check

import (
	"fmt"
	"strings"

	"vsim/kernel"
)

// hugeText is a text far beyond the size of any buffer.
func hugeText(r *Rng) string {
	size := []int{70000, 140000, 300000, 600000, 1100000}[r.N(5)]
	row := strings.Repeat([]string{"text ", "x", "é", "a b c d "}[r.N(4)], 100+r.N(400))
	var b strings.Builder
	for i := 1; b.Len() < size; i++ {
		fmt.Fprintf(&b, "row %d %s\n", i, row)
	}
	return b.String()
}

// sameSize saves another text of the same size and loads it again.
func (g *edGen) sameSize() {
	r := g.r
	n := len(g.st.lines)
	if g.st.name == "" || n == 0 || n > 50 {
		return
	}
	k := 1 + r.N(n)
	if r.N(2) == 0 {
		// whatever was cached for the text as it is now
		if r.N(2) == 0 {
			g.emit("w", nil)
		}
		g.emit("e "+g.st.name, nil)
		if n = len(g.st.lines); n == 0 {
			return
		}
		k = 1 + r.N(n)
	}
	line := []byte(g.st.lines[k-1])
	for i, b := range line {
		switch {
		case b >= 'a' && b < 'z':
			line[i]++
		case b == 'z':
			line[i] = 'a'
		}
	}
	if string(line) == "." || len(line) > 4096 {
		return
	}
	g.emit(fmt.Sprintf("%dc", k), []string{string(line)})
	g.emit("w", nil)
	g.emit("e "+g.st.name, nil)
	g.emit(",p", nil)
}

// edScenario is a session on some files.
func edScenario(c *Ctx, r *Rng, g *edGen, cmds int) *Scenario {
	sc := baseScenario(r)
	sc.Procs = one("ed")
	p := &sc.Procs[0]
	many := false
	if r.N(6) == 0 {
		defer func() {
			// the file is one of those that do not tell their size
			sc.Files[0].NoSize = true
		}()
	}
	for i, n := range []string{"f", "g.txt", "dir/h"} {
		if i == 1 && r.N(5) > 0 {
			sc.Files = append(sc.Files, kernel.FileSpec{Path: "/w/dir", Type: "dir", Mode: 0o755})
		}
		if i == 0 || r.N(2) == 0 {
			if i == 0 && r.N(150) == 0 {
				g.file(sc, n, hugeText(r), 0o644)
				c.Probe("huge file")
				continue
			}
			k := []int{0, 1, 2, 3, 5, 8, 20}[r.N(7)]
			if i == 0 && r.N(40) == 0 {
				// many lines
				d := ""
				for j, m := 1, 200+r.N(2000); j <= m; j++ {
					d += fmt.Sprintf("row %d%s\n", j, []string{"", "", "", " é", "\r"}[r.N(5)])
				}
				g.file(sc, n, d, 0o644)
				many = true
				continue
			}
			g.file(sc, n, g.fileText(k), []uint32{0o644, 0o600, 0o755, 0o664}[r.N(4)])
		}
	}
	sc.Files = append(sc.Files, kernel.FileSpec{Path: "/w/noread", Data: []byte("secret\n"), Mode: 0o200},
		kernel.FileSpec{Path: "/w/loop", Type: "link", Target: "loop", Mode: 0o777})
	g.ws = []string{"f", "new", "g.txt", "dir/h"}
	switch r.N(4) {
	case 0, 1:
		p.Args = []string{"f"}
		g.st.loaded("f", g.fs["f"])
	case 2:
		g.emit("e f", nil)
	}
	if r.N(50) == 0 {
		cmds += 60
	}
	for i := 0; i < cmds; i++ {
		g.step()
		if r.N(120) == 0 {
			g.sameSize()
		}
		if n := len(g.st.lines); many && n > 100 && r.N(4) == 0 {
			a := 1 + r.N(n)
			g.emit([]string{",p", ",n", fmt.Sprintf("%d,$d", n-r.N(40)), fmt.Sprintf("%dp", a), fmt.Sprintf("%d,$p", a), fmt.Sprintf("/row %d/", a), fmt.Sprintf("%d-%d=", a, r.N(a))}[r.N(7)], nil)
		}
	}
	return sc
}

// finish ends the session and sets up its input.
func (g *edGen) finish(sc *Scenario, pi int) {
	r := g.r
	if r.N(3) > 0 {
		g.emit("q", nil)
	}
	in := g.buf
	if r.N(8) == 0 && len(in) > 0 {
		in = in[:len(in)-1] // last newline missing
	}
	sc.Procs[pi].Stdin = g.c.feed(r, in)
	sc.Procs[pi].StdinFile = r.N(8) == 0
}

func init() {
	register(&Prop{ID: "C06", Progs: []string{"ed"}, Quick: 25000, Thorough: 200000,
		Rule: "Random sessions of the listed commands with addresses of every listed form over random files, compared answer by answer and save by save with a list of lines; each session is run benign and under random chunking, short and interrupted transfers and goroutine schedules.",
		Case: func(c *Ctx, r *Rng) {
			g := newGen(c, r)
			g.long = r.N(12) == 0
			g.save = 80
			g.bad = []int{0, 30, 100}[r.N(3)]
			n := 1 + r.N(25)
			fds := 0
			if r.N(150) == 0 {
				// saves and loads without number
				n, g.long, g.save, g.load, g.bad = 60+r.N(60), false, 400, 300, 0
				fds = 24
				c.Probe("more loads and saves than descriptors")
			}
			sc := edScenario(c, r, g, n)
			sc.MaxFDs = fds
			if r.N(2) == 0 {
				g.emit("w", nil)
			}
			g.emit(",n", nil)
			g.emit(".=", nil)
			g.finish(sc, 0)
			c.Try(sc)
			c.Try(withKnobs(r, sc))
		},
		Judge: func(c *Ctx, sc *Scenario) (*Result, *Violation) {
			res, tl := c.watch(sc, nil, 0)
			l := walkEd(sc, res, tl, 0)
			if l.open {
				c.Probe("session left the model")
			} else {
				c.Probe("session judged to its end")
			}
			if v := l.pick("answer", "saved-wrong", "load-", "save-false"); v != nil {
				return res, v
			}
			if !l.open {
				if v := edEnded(sc, res, 0); v != nil {
					return res, v
				}
			}
			return res, nil
		}})
}

var _ = kernel.EIO
