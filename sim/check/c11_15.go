package check

import (
	"bytes"
	"fmt"
	"strconv"
	"strings"

	"vsim/kernel"
)

// judgeFilter decides a run of a filter against its reference.  Output faults
// only count as far as the output is concerned.
func judgeFilter(c *Ctx, sc *Scenario) (*Result, *Violation) {
	rf := refOf(sc)
	res := c.Run(sc, nil)
	return res, judgeRun(c, sc, rf, res)
}

func judgeRun(c *Ctx, sc *Scenario, rf *ref, res *Result) *Violation {
	p := &res.Procs[0]
	if v := hung(p); v != nil {
		return v
	}
	if rf == nil || rf.usage || p.OutLost {
		return nil
	}
	if p.Stalled {
		if sc.Procs[0].StdinEnd != "stall" {
			return bad("hang", "waits for ever")
		}
		return nil
	}
	fl := failures(res, 0, rf.ops)
	needed := !rf.readable
	for _, f := range fl {
		needed = needed || rf.needs(f)
	}
	if needed {
		c.Probe("needed input failed")
		if p.Exit >= 0 && p.Exit <= rf.errAbove {
			return bad("false-success", "an input could not be opened or read, and the exit status is %d; output %s", p.Exit, show(p.Stdout))
		}
		if !diagnosed(p) {
			return bad("no-diagnostic", "an input could not be opened or read, and there is no diagnostic")
		}
		if msg := rf.partial(p.Stdout, fl); msg != "" {
			return bad("output-after-failure", "an input could not be opened or read: %s", msg)
		}
		return nil
	}
	if len(fl) > 0 && p.Exit != rf.exit {
		// a failure beyond what is needed may be reported
		c.Probe("unneeded input failed")
		if msg := rf.complete(p.Stdout); msg != "" {
			if msg = rf.partial(p.Stdout, fl); msg != "" {
				return bad("output-after-failure", "%s", msg)
			}
		}
		if p.Exit >= 0 && p.Exit <= rf.errAbove || !diagnosed(p) {
			return bad("exit", "exit status %d instead of %d", p.Exit, rf.exit)
		}
		return nil
	}
	if msg := rf.complete(p.Stdout); msg != "" {
		return bad("wrong-output", "%s", msg)
	}
	// tsort: any non-zero status means there is no order
	if p.Exit != rf.exit && !(sc.Procs[0].Prog == "tsort" && rf.exit != 0 && p.Exit > 0) {
		return bad("exit", "exit status %d instead of %d: %s%s", p.Exit, rf.exit, clip(string(p.Stderr), 200), clip(p.Diag, 300))
	}
	if sc.Procs[0].Prog == "tsort" && rf.exit != 0 && !diagnosed(p) {
		return bad("no-diagnostic", "no diagnostic")
	}
	return nil
}

func cksumScenario(c *Ctx, r *Rng, badOps bool) *Scenario {
	sc := baseScenario(r)
	sc.Procs = one("cksum")
	var args []string
	for i, n := 0, []int{0, 1, 1, 2, 4}[r.N(5)]; i < n; i++ {
		switch {
		case r.N(5) == 0 && !strings.Contains(join(args), "-\x00"):
			args = append(args, "-")
		case badOps && r.N(6) == 0:
			args = append(args, badOperand(r, sc))
		default:
			args = append(args, addFile(r, sc, c.bytesOf(r, c.size(r, 200000))))
		}
	}
	sc.Procs[0].Args = args
	c.setStdin(r, sc, c.bytesOf(r, c.size(r, 200000)))
	return sc
}

// related makes a second input that agrees with the first for a while.
func (c *Ctx) related(r *Rng, x []byte) []byte {
	y := append([]byte(nil), x...)
	switch r.N(9) {
	case 0:
	case 1:
		y = y[:r.N(len(y)+1)]
	case 2:
		y = append(y, c.bytesOf(r, c.size(r, 20000)+1)...)
	case 3, 4:
		for i, n := 0, 1+r.N(4); i < n && len(y) > 0; i++ {
			y[r.N(len(y))] ^= byte(1 << r.N(8))
		}
	case 5:
		if len(y) > 0 {
			y[len(y)-1] ^= 1
		}
	case 6:
		for i := range y {
			if r.N(20) == 0 {
				y[i] = byte(r.U64())
			}
		}
	case 7:
		// differ around a buffer boundary
		if p := c.size(r, 200000); p < len(y) {
			y[p] ^= 0x20
		}
	default:
		y = c.bytesOf(r, c.size(r, 3000))
	}
	return y
}

func cmpScenario(c *Ctx, r *Rng, badOps bool) *Scenario {
	sc := baseScenario(r)
	sc.Procs = one("cmp")
	var args []string
	all := false
	switch r.N(4) {
	case 0:
		args = append(args, "-l")
		all = true
	case 1:
		args = append(args, "-s")
	}
	lim := 200000
	if all {
		lim = 3000
	}
	x := c.bytesOf(r, c.size(r, lim))
	y := c.related(r, x)
	dash := r.N(6)
	for i, d := range [][]byte{x, y} {
		switch {
		case dash == i:
			c.setStdin(r, sc, d)
			args = append(args, "-")
		case badOps && r.N(10) == 0:
			args = append(args, badOperand(r, sc))
		default:
			args = append(args, addFile(r, sc, d))
		}
	}
	if dash > 1 {
		c.setStdin(r, sc, []byte("unused"))
	}
	sc.Procs[0].Args = args
	return sc
}

// linesOf makes text with n lines of varied length.
func (c *Ctx) linesOf(r *Rng, n int, long bool) []byte {
	var b []byte
	alpha := []string{"a", "b", "é", "\r", "\t", " ", ".", "\x00", "\xff", "%d", "<", ">", "---", "1,2c3", "世"}
	mode := r.N(4)
	for i := 0; i < n; i++ {
		switch mode {
		case 0:
			b = append(b, fmt.Sprintf("line %d", i+1)...)
		case 1:
			b = append(b, "abc"[r.N(3)])
		default:
			for k := r.N(6); k > 0; k-- {
				b = append(b, alpha[r.N(len(alpha))]...)
			}
			if mode == 3 && r.N(5) == 0 {
				b = append(b, bytes.Repeat([]byte{"xyz "[r.N(4)]}, c.size(r, 300))...)
			}
		}
		if long && r.N(n+2) == 0 {
			b = append(b, bytes.Repeat([]byte{"xyz\r"[r.N(4)]}, c.size(r, 140000))...)
		}
		b = append(b, '\n')
	}
	if len(b) > 0 && r.N(4) == 0 {
		b = b[:len(b)-1]
	}
	return b
}

func headScenario(c *Ctx, r *Rng, badOps bool) *Scenario {
	sc := baseScenario(r)
	sc.Procs = one("head")
	var args []string
	n := 10
	if r.N(4) > 0 {
		n = c.count(r, 60)
		if r.N(10) == 0 {
			n = c.size(r, 3000)
		}
		args = append(args, "-n", strconv.Itoa(n))
	}
	text := func() []byte {
		k := n + r.N(5) - 2
		switch r.N(4) {
		case 0:
			k = r.N(40)
		case 1:
			k = n
		case 2:
			return c.bytesOf(r, c.size(r, 100000))
		}
		return c.linesOf(r, max0(k), true)
	}
	var ops []string
	for i, m := 0, []int{0, 1, 1, 1, 2, 3}[r.N(6)]; i < m; i++ {
		switch {
		case r.N(3) == 0 && !strings.Contains("\x00"+join(ops), "\x00-\x00"):
			ops = append(ops, "-")
		case badOps && r.N(7) == 0:
			ops = append(ops, badOperand(r, sc))
		default:
			ops = append(ops, addFile(r, sc, text()))
		}
	}
	c.setStdin(r, sc, text())
	sc.Procs[0].Args = append(args, ops...)
	return sc
}

func diffScenario(c *Ctx, r *Rng, badOps bool) *Scenario {
	sc := baseScenario(r)
	sc.Procs = one("diff")
	n := c.count(r, 120)
	if r.N(40) == 0 {
		n = 300 + r.N(900)
	}
	x := c.linesOf(r, n, r.N(4) == 0)
	var y []byte
	switch r.N(8) {
	case 0:
		y = append(y, x...)
	case 1:
		y = c.linesOf(r, c.count(r, 60), r.N(4) == 0)
	default:
		// edit x by lines
		rate := []int{1, 3, 10}[r.N(3)]
		for _, l := range bytes.SplitAfter(x, []byte("\n")) {
			if len(l) == 0 {
				continue
			}
			if r.N(rate+1) > 0 {
				y = append(y, l...)
				continue
			}
			switch r.N(5) {
			case 0: // drop
			case 1: // change
				y = append(y, []byte(fmt.Sprintf("new %d\n", r.N(5)))...)
			case 2: // insert before
				y = append(y, c.linesOf(r, 1+r.N(3), false)...)
				if len(y) > 0 && y[len(y)-1] != '\n' {
					y = append(y, '\n')
				}
				y = append(y, l...)
			case 3: // trailing or case change
				y = append(y, l[:len(l)-1]...)
				y = append(y, " \n"...)
			case 4:
				y = append(y, l...)
				y = append(y, l...)
			}
		}
		if r.N(5) == 0 {
			y = append(y, c.linesOf(r, 1+r.N(4), false)...)
		}
	}
	var args []string
	for _, d := range [][]byte{x, y} {
		if badOps && r.N(10) == 0 {
			args = append(args, badOperand(r, sc))
		} else {
			args = append(args, addFile(r, sc, d))
		}
	}
	sc.Procs[0].Args = args
	return sc
}

func tsortScenario(c *Ctx, r *Rng, badOps bool) *Scenario {
	sc := baseScenario(r)
	sc.Procs = one("tsort")
	n := 1 + c.count(r, 40)
	huge := r.N(30) == 0
	if huge {
		n = 60 + r.N(250)
	}
	names := make([]string, n)
	used := map[string]bool{}
	for i := range names {
		for {
			w := string("abcdefgh"[r.N(8)]) + strconv.Itoa(i)
			switch r.N(10) {
			case 0:
				w = "é" + w
			case 1:
				w = strconv.Itoa(r.N(100))
			case 2:
				w = string("ab%\x01-"[r.N(5)])
			case 3:
				if r.N(8) == 0 {
					w = strings.Repeat(w, c.size(r, 90000)/len(w)+1)
				}
			}
			if !used[w] {
				used[w] = true
				names[i] = w
				break
			}
		}
	}
	perm := make([]int, n)
	for i := range perm {
		perm[i] = i
	}
	for i := n - 1; i > 0; i-- {
		j := r.N(i + 1)
		perm[i], perm[j] = perm[j], perm[i]
	}
	var words []string
	pair := func(a, b int) { words = append(words, names[perm[a]], names[perm[b]]) }
	m := c.count(r, 120)
	if huge {
		m = n * r.N(4)
		if r.N(2) == 0 {
			// one before, or after, very many others
			hub := []int{0, n - 1}[r.N(2)]
			for k := 0; k < n; k++ {
				if k != hub {
					pair(min(k, hub), max(k, hub))
				}
			}
		}
	}
	for k := 0; k < m; k++ {
		a, b := r.N(n), r.N(n)
		if a > b {
			a, b = b, a
		}
		switch {
		case a == b && r.N(3) > 0:
		case r.N(8) == 0:
			pair(a, a)
		default:
			pair(a, b)
		}
	}
	switch r.N(9) {
	case 0: // chain
		for k := 0; k+1 < n; k++ {
			pair(k, k+1)
		}
	case 1: // a cycle of some length
		l := 2 + r.N(4)
		if l <= n {
			s := r.N(n - l + 1)
			for k := 0; k < l; k++ {
				pair(s+k, s+(k+1)%l)
			}
		}
	case 2: // a word left over
		words = append(words, names[r.N(n)])
	}
	// shuffle the pairs
	for i := len(words)/2 - 1; i > 0; i-- {
		j := r.N(i + 1)
		words[2*i], words[2*i+1], words[2*j], words[2*j+1] = words[2*j], words[2*j+1], words[2*i], words[2*i+1]
	}
	var b []byte
	sep := []string{" ", "\n", "\t", "  \n", "\r\n"}
	for i, w := range words {
		b = append(b, w...)
		if i+1 < len(words) || r.N(2) == 0 {
			if i%2 == 0 && r.N(2) == 0 {
				b = append(b, ' ')
			} else {
				b = append(b, sep[r.N(len(sep))]...)
			}
		}
	}
	switch {
	case badOps && r.N(10) == 0:
		sc.Procs[0].Args = []string{badOperand(r, sc)}
	case r.N(2) == 0:
		sc.Procs[0].Args = []string{addFile(r, sc, b)}
	default:
		if r.N(2) == 0 {
			sc.Procs[0].Args = []string{"-"}
		}
		c.setStdin(r, sc, b)
	}
	return sc
}

type filter struct {
	prog string
	make func(c *Ctx, r *Rng, badOps bool) *Scenario
}

var filters = []filter{
	{"cat", catScenario}, {"cksum", cksumScenario}, {"cmp", cmpScenario},
	{"diff", diffScenario}, {"head", headScenario}, {"tsort", tsortScenario},
}

// filterCase: benign, perturbed, and failing inputs.
// bigCase is now and then a run on inputs of some megabytes, undisturbed.
func (c *Ctx) bigCase(r *Rng, prog string) bool {
	if (prog == "cat" || prog == "cksum" || prog == "head") && r.N(300) == 0 {
		// more operands than a process may have files open
		sc := baseScenario(r)
		sc.Procs = one(prog)
		sc.MaxFDs = 32 + r.N(100)
		for i, n := 0, sc.MaxFDs+r.N(30); i < n; i++ {
			name := fmt.Sprint("o", i)
			sc.Files = append(sc.Files, kernel.FileSpec{Path: "/w/" + name, Data: c.linesOf(r, r.N(4), false), Mode: 0o644})
			sc.Procs[0].Args = append(sc.Procs[0].Args, name)
		}
		c.Try(sc)
		c.Try(withKnobs(r, sc))
		c.Probe("more operands than descriptors")
		return true
	}
	if r.N(350) != 0 {
		return false
	}
	sc := baseScenario(r)
	sc.Procs = one(prog)
	unit := c.bytesOf(r, 1000+r.N(1000))
	f := kernel.FileSpec{Path: "/w/big", Mode: 0o644, Data: unit, Rep: 1<<21/len(unit) + r.N(900)}
	sc.Procs[0].Args = []string{"big"}
	switch prog {
	case "cksum":
		f.Rep = 1<<24/len(unit) + 1 + r.N(900)
	case "head":
		f.Data = c.linesOf(r, 50, false)
		f.Rep = 1000 + r.N(2000)
		sc.Procs[0].Args = []string{"-n", fmt.Sprint(70000 + r.N(60000)), "big"}
	case "tsort":
		var b []byte
		if r.N(2) == 0 {
			// long words
			for i, n := 0, 2+2*r.N(3); i < n; i++ {
				b = append(append(b, bytes.Repeat([]byte{"abcdefgh"[i]}, 1<<19+r.N(3<<20))...), " \n"[r.N(2)])
			}
		} else {
			// many words
			n := 1500 + r.N(1000)
			base := []int{0, 0, r.N(1 << 20)}[r.N(3)]
			for i := 0; i+1 < n; i++ {
				j := i + 1
				if r.N(3) > 0 {
					j += r.N(min(n-j, 50))
				}
				b = append(b, fmt.Sprintf("%d %d\n", (base+i*7919)%100003, (base+j*7919)%100003)...)
			}
		}
		f.Data, f.Rep = b, 0
	case "diff":
		n := 66000 + r.N(20000)
		var b, e []byte
		for i := 0; i < n; i++ {
			l := fmt.Sprintln(i)
			if r.N(3000) != 0 {
				b = append(b, l...)
			}
			if r.N(3000) != 0 {
				e = append(e, l...)
			}
		}
		if r.N(4) == 0 {
			e = b
		}
		f.Data, f.Rep = b, 0
		sc.Files = append(sc.Files, kernel.FileSpec{Path: "/w/other", Mode: 0o644, Data: e})
		sc.Procs[0].Args = []string{"big", "other"}
	case "cmp":
		d := bytes.Repeat(append(c.linesOf(r, 20, false), "x\n"...), 4000+r.N(2000))
		f.Data, f.Rep = d, 0
		e := append([]byte(nil), d...)
		switch r.N(3) {
		case 0:
			e = append(e, 'y')
		default:
			e[len(e)-1-r.N(min(len(e), 2000))] ^= 1
		}
		sc.Files = append(sc.Files, kernel.FileSpec{Path: "/w/other", Mode: 0o644, Data: e})
		sc.Procs[0].Args = append([][]string{nil, {"-l"}, {"-s"}}[r.N(3)], "big", "other")
	}
	sc.Files = append(sc.Files, f)
	if hung(&c.Run(sc, nil).Procs[0]) != nil {
		c.Probe("too slow for megabytes of input") // byte by byte, say
		return true
	}
	c.Try(sc)
	c.Probe("megabytes of input")
	return true
}

func filterCase(mk func(c *Ctx, r *Rng, badOps bool) *Scenario, k int) func(c *Ctx, r *Rng) {
	return func(c *Ctx, r *Rng) {
		sc := mk(c, r, true)
		if p := sc.Procs[0].Prog; (p == "cksum" || p == "cmp" || p == "diff") && c.bigCase(r, p) {
			return
		}
		faults := alias(r, sc)
		res := c.Try(sc)
		t := withKnobs(r, sc)
		c.Try(t)
		if faults {
			c.inputFaults(r, withKnobs(r, sc), res, refOf(sc).ops, k)
		}
	}
}

func init() {
	register(&Prop{ID: "C11", Progs: []string{"cksum"}, Quick: 18000, Thorough: 60000,
		Rule: "Random operand lists and contents for cksum against an independent bitwise CRC; each seed benign, perturbed, and with failing opens and reads taken from its own trace.",
		Case: filterCase(cksumScenario, 4), Judge: judgeFilter})
	register(&Prop{ID: "C12", Progs: []string{"cmp"}, Quick: 18000, Thorough: 60000,
		Rule: "Pairs of related inputs (equal, prefix, single and many differences, at buffer boundaries) for cmp with and without -l and -s; each seed benign, perturbed, and with failing opens and reads taken from its own trace.",
		Case: filterCase(cmpScenario, 5),
		Judge: func(c *Ctx, sc *Scenario) (*Result, *Violation) {
			res, v := judgeFilter(c, sc)
			if v != nil {
				return res, v
			}
			rf := refOf(sc)
			p := &res.Procs[0]
			a := parseCmp(sc.Procs[0].Args)
			if !rf.usage && !p.OutLost && rf.readable && len(failures(res, 0, rf.ops)) == 0 {
				ins := inputs(sc, 0, a.files)
				short, long := 0, 1
				if len(ins[1].data) < len(ins[0].data) {
					short, long = 1, 0
				}
				pre := len(ins[0].data) != len(ins[1].data) && bytes.HasPrefix(ins[long].data, ins[short].data)
				switch {
				case a.silent && len(p.Stderr) > 0:
					return res, bad("not-silent", "cmp -s writes %s", show(p.Stderr))
				case pre && !a.silent && !strings.Contains(string(p.Stderr), a.files[short]):
					return res, bad("no-eof-message", "%s is a proper prefix and the message does not say so: %s", a.files[short], show(p.Stderr))
				}
			}
			return res, nil
		}})
	register(&Prop{ID: "C13", Progs: []string{"head"}, Quick: 14000, Thorough: 60000,
		Rule: "Random line counts, operand lists and contents for head; each seed benign, perturbed, with failing inputs taken from its own trace, and with a writer that never closes standard input.",
		Case: func(c *Ctx, r *Rng) {
			if c.bigCase(r, "head") {
				return
			}
			sc := headScenario(c, r, true)
			faults := alias(r, sc)
			res := c.Try(sc)
			t := withKnobs(r, sc)
			c.Try(t)
			if faults {
				c.inputFaults(r, withKnobs(r, sc), res, refOf(sc).ops, 3)
			}
			if !sc.Procs[0].StdinFile {
				s := withKnobs(r, sc)
				s.Procs[0].StdinEnd = "stall"
				for i := range s.Procs[0].Stdin {
					s.Procs[0].Stdin[i].Gate = r.N(2) == 0
				}
				c.Try(s)
			}
		},
		Judge: func(c *Ctx, sc *Scenario) (*Result, *Violation) {
			res, v := judgeFilter(c, sc)
			if v != nil {
				return res, v
			}
			p := &res.Procs[0]
			rf := refOf(sc)
			if p.Stalled && !rf.usage && !p.OutLost {
				n, ops, _ := parseHead(sc.Procs[0].Args)
				if ops[len(ops)-1] == "-" {
					if _, full := firstLines(stdinBytes(&sc.Procs[0]), n); full {
						return res, bad("waits", "head waits for more input although all %d lines are there", n)
					}
				}
			}
			return res, nil
		}})
	register(&Prop{ID: "C14", Progs: []string{"diff"}, Quick: 24000, Thorough: 40000,
		Rule: "Pairs of files related by line edits for diff, its script applied by an independent interpreter; each seed benign, perturbed, and with failing opens and reads taken from its own trace.",
		Case: filterCase(diffScenario, 4), Judge: judgeFilter})
	register(&Prop{ID: "C15", Progs: []string{"tsort"}, Quick: 22000, Thorough: 60000,
		Rule: "Random relations (acyclic, cyclic, with self pairs and left-over words) for tsort under several map orders; each seed benign, perturbed, and with failing opens and reads taken from its own trace.",
		Case: func(c *Ctx, r *Rng) {
			if c.bigCase(r, "tsort") {
				return
			}
			sc := tsortScenario(c, r, true)
			res := c.Try(sc)
			for i := 0; i < 3; i++ {
				c.Try(withKnobs(r, sc))
			}
			c.inputFaults(r, withKnobs(r, sc), res, refOf(sc).ops, 3)
		},
		Judge: judgeFilter})

	_ = kernel.EIO
}
