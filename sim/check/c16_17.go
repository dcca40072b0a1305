package check

import (
	"fmt"
	"strconv"
	"strings"

	"vsim/kernel"
)

// ---- test ----

func parseTest(args []string) (neg bool, prim byte, path string, ok bool) {
	for len(args) > 0 && args[0] == "!" {
		neg = !neg
		args = args[1:]
	}
	if len(args) != 2 || len(args[0]) != 2 || args[0][0] != '-' || !strings.ContainsRune("cdefghLpSsu", rune(args[0][1])) {
		return
	}
	return neg, args[0][1], args[1], true
}

func primary(fs *kernel.FS, prim byte, path string) bool {
	mode, size, e := fs.Stat(path, prim != 'h' && prim != 'L')
	if e != 0 {
		return false
	}
	t := mode & kernel.S_IFMT
	switch prim {
	case 'c':
		return t == kernel.S_IFCHR
	case 'd':
		return t == kernel.S_IFDIR
	case 'e':
		return true
	case 'f':
		return t == kernel.S_IFREG
	case 'g':
		return mode&0o2000 != 0
	case 'u':
		return mode&0o4000 != 0
	case 'h', 'L':
		return t == kernel.S_IFLNK
	case 'p':
		return t == kernel.S_IFIFO
	case 'S':
		return t == kernel.S_IFSOCK
	case 's':
		return size > 0
	}
	return false
}

var typeNames = []string{"", "", "dir", "fifo", "sock", "chr", "blk", "link"}

func testScenario(c *Ctx, r *Rng) *Scenario {
	sc := baseScenario(r)
	sc.Procs = one("test")
	mode := func() uint32 {
		return []uint32{0o644, 0, 0o600, 0o4755, 0o2755, 0o6755, 0o1777, 0o7777, 0o400, 0o4000, 0o2000}[r.N(11)]
	}
	put := func(path string) {
		f := kernel.FileSpec{Path: path, Type: typeNames[r.N(len(typeNames))], Mode: mode(), Foreign: r.N(5) == 0}
		if f.Type == "link" {
			f.Target = []string{"x", "y", "z", "d", "d/x", "nowhere", ".", "..", "/w/y", "l0", "/"}[r.N(11)]
		}
		if f.Type == "" {
			f.Data = c.bytesOf(r, []int{0, 0, 1, 2, 100}[r.N(5)])
		}
		sc.Files = append(sc.Files, f)
	}
	// a directory to look into, sometimes closed
	dm := uint32(0o755)
	if r.N(4) == 0 {
		dm = []uint32{0, 0o666, 0o111, 0o4755, 0o2755}[r.N(5)]
	}
	sc.Files = append(sc.Files, kernel.FileSpec{Path: "/w/d", Type: "dir", Mode: dm})
	for _, n := range []string{"/w/x", "/w/y", "/w/z", "/w/d/x", "/w/d/y"} {
		if r.N(4) > 0 {
			put(n)
		}
	}
	// a chain of links
	if r.N(3) == 0 {
		l := []int{1, 2, 5, 39, 40, 41, 42}[r.N(7)]
		for i := 0; i < l; i++ {
			t := fmt.Sprint("l", i+1)
			if i == l-1 {
				t = []string{"x", "y", "d", "l0", "nowhere"}[r.N(5)]
			}
			sc.Files = append(sc.Files, kernel.FileSpec{Path: fmt.Sprint("/w/l", i), Type: "link", Target: t, Mode: 0o777})
		}
	}
	paths := []string{"x", "x", "x", "y", "z", "d", "d/x", "d/y", "l0", "l1", "x/", "d/", "nowhere", "", ".", "..", "/", "/dev/null", "x/y", "d/../x", "./x", "/w/y", "//w//x",
		strings.Repeat("n", 256), strings.Repeat("a/", 2050) + "x", "é", "x y", "-f", "!", "(", "="}
	args := []string{"-" + string("cdefghLpSsu"[r.N(11)]), paths[r.N(len(paths))]}
	for r.N(4) == 0 && len(args) < 4 {
		args = append([]string{"!"}, args...)
	}
	sc.Procs[0].Args = args
	return sc
}

func init() {
	register(&Prop{ID: "C16", Progs: []string{"test"}, Quick: 26000, Thorough: 60000,
		Rule: "Random trees (every file type, mode and kind of link) and file primaries; each seed benign, with other processes changing the file before each of the system calls of its trace, and with failing examinations of the path.",
		Case: func(c *Ctx, r *Rng) {
			sc := testScenario(c, r)
			res := c.Try(sc)
			c.Try(withKnobs(r, sc))
			_, _, path, _ := parseTest(sc.Procs[0].Args)
			// changes by others
			for k := 0; k < 4; k++ {
				t := withKnobs(r, sc)
				n := 1 + r.N(3)
				at := 0
				for i := 0; i < n; i++ {
					at += r.N(len(res.Events) + 1)
					f := kernel.ForeignOp{At: at, Path: role(path), Data: []byte("new")}
					if path == "" || strings.Contains(path, "..") || r.N(6) == 0 {
						f.Path = []string{"/w/x", "/w/y", "/w/d/x"}[r.N(3)]
					}
					f.Op = []string{"unlink", "unlink", "replace", "chmod", "truncate", "append", "mkdir", "fifo", "symlink", "rename"}[r.N(10)]
					f.Path2 = []string{"/w/y", "/w/x", "/w/nowhere"}[r.N(3)]
					if f.Op == "chmod" {
						f.N = []int{0, 0o755, 0o4755, 0o2755}[r.N(4)]
					}
					t.Foreign = append(t.Foreign, f)
					if f.Op == "unlink" && r.N(2) == 0 {
						g := f
						g.Op = []string{"replace", "mkdir", "fifo", "symlink"}[r.N(4)]
						t.Foreign = append(t.Foreign, g)
					}
				}
				c.Try(t)
			}
			for _, p := range sample(r, points(res, 0, func(e *kernel.Event) bool { return e.Call == "stat" || e.Call == "lstat" }), 3) {
				t := withKnobs(r, sc)
				t.Faults = append(t.Faults, kernel.Fault{Call: p.call, Role: p.role, Nth: p.nth, Sticky: r.N(2) == 0,
					Errno: []kernel.Errno{kernel.EIO, kernel.EACCES, kernel.ELOOP, kernel.ENOMEM, kernel.ESTALE, kernel.ENOENT, kernel.ENOTDIR}[r.N(7)]})
				c.Try(t)
			}
		},
		Judge: func(c *Ctx, sc *Scenario) (*Result, *Violation) {
			neg, prim, path, ok := parseTest(sc.Procs[0].Args)
			if !ok {
				return c.Run(sc, nil), nil
			}
			may := map[bool]bool{}
			gen := -1
			may[primary(kernel.NewFS(sc.Files), prim, path)] = true
			res := c.Run(sc, func(k *kernel.Kernel, e *kernel.Event) string {
				if k.Gen() != gen {
					gen = k.Gen()
					may[primary(k.FS, prim, path)] = true
				}
				return ""
			})
			p := &res.Procs[0]
			if v := hung(p); v != nil {
				return res, v
			}
			failed, seen := false, false
			for i := range res.Events {
				e := &res.Events[i]
				if strings.HasPrefix(e.Fault, "injected") {
					failed = true
				} else if e.Role == role(path) && e.Err == 0 {
					seen = true
				}
			}
			if failed {
				if !seen {
					may = map[bool]bool{}
				}
				may[false] = true
			}
			if len(may) > 1 {
				c.Probe("either verdict allowed")
			}
			got := false
			switch p.Exit {
			case 0:
				got = true
			case 1:
			default:
				return res, bad("exit", "exit status %d: %s%s", p.Exit, p.Stderr, clip(p.Diag, 300))
			}
			if got != neg {
				c.Probe("primary true")
			}
			if !may[got != neg] {
				return res, bad("verdict", "test %q exits %d although -%c is %v for the file throughout the run", sc.Procs[0].Args, p.Exit, prim, got == neg)
			}
			return res, nil
		}})

	register(&Prop{ID: "C17", Progs: []string{"kill"}, Quick: 30000, Thorough: 60000,
		Rule: "Random process tables and command lines (valid and malformed) for kill; each seed benign, with processes disappearing before each system call of its trace, and with failing deliveries.",
		Case: func(c *Ctx, r *Rng) {
			sc := killScenario(c, r)
			res := c.Try(sc)
			c.Try(withKnobs(r, sc))
			for k := 0; k < 3 && len(sc.Table) > 0; k++ {
				t := withKnobs(r, sc)
				t.Foreign = append(t.Foreign, kernel.ForeignOp{At: r.N(len(res.Events) + 1), Op: "exit", N: t.Table[r.N(len(t.Table))].Pid})
				c.Try(t)
			}
			for _, p := range sample(r, points(res, 0, func(e *kernel.Event) bool { return e.Call == "kill" }), 3) {
				t := withKnobs(r, sc)
				t.Faults = append(t.Faults, kernel.Fault{Call: p.call, Role: p.role, Nth: p.nth, Errno: []kernel.Errno{kernel.EPERM, kernel.ESRCH, kernel.EINVAL}[r.N(3)]})
				c.Try(t)
			}
		},
		Judge: judgeKill})
}

// ---- kill ----

var sigNames = map[string]int{"0": 0, "HUP": 1, "INT": 2, "QUIT": 3, "ABRT": 6, "KILL": 9, "ALRM": 14, "TERM": 15}

// parseKill: kind is "ok", "malformed" or "" (outside the property).
func parseKill(args []string) (sig int, pids []int, kind string) {
	sig = 15
	if len(args) == 0 {
		return 0, nil, "malformed"
	}
	if args[0] == "-s" {
		if len(args) < 2 {
			return 0, nil, "malformed"
		}
		n, ok := sigNames[strings.ToUpper(args[1])]
		if !ok {
			if strings.HasPrefix(strings.ToUpper(args[1]), "SIG") || isNum(args[1]) || args[1] == "" {
				return 0, nil, ""
			}
			for _, x := range []string{"USR1", "USR2", "CHLD", "CONT", "STOP", "TSTP", "PIPE", "SEGV", "ILL", "FPE", "BUS", "TRAP", "TTIN", "TTOU", "URG", "EXIT"} {
				if strings.EqualFold(x, args[1]) {
					return 0, nil, "" // may become supported
				}
			}
			return 0, nil, "malformed"
		}
		sig = n
		args = args[2:]
	} else if strings.HasPrefix(args[0], "-") {
		v, err := strconv.ParseUint(args[0][1:], 10, 64)
		if err != nil {
			switch args[0] {
			case "-l", "--", "-", "":
				return 0, nil, ""
			}
			if sigish(args[0][1:]) {
				return 0, nil, ""
			}
			return 0, nil, "malformed"
		}
		if v > 64 {
			return 0, nil, "malformed"
		}
		sig = int(v)
		args = args[1:]
	}
	if len(args) == 0 {
		return 0, nil, "malformed"
	}
	bad := false
	for _, a := range args {
		v, err := strconv.ParseUint(a, 10, 64)
		if err != nil {
			if strings.HasPrefix(a, "-") || strings.HasPrefix(a, "+") {
				return 0, nil, ""
			}
			bad = true
			continue
		}
		if v == 0 {
			return 0, nil, ""
		}
		if v > 1<<31-1 {
			bad = true // no process has such a number
			continue
		}
		for _, q := range pids {
			if q == int(v) {
				return 0, nil, "" // named twice
			}
		}
		pids = append(pids, int(v))
	}
	if bad {
		return sig, pids, "malformed"
	}
	return sig, pids, "ok"
}

// sigish: a signal name in option position, which some day may be understood.
func sigish(s string) bool {
	s = strings.ToUpper(s)
	_, ok := sigNames[strings.TrimPrefix(s, "SIG")]
	return ok
}

func isNum(s string) bool { _, err := strconv.Atoi(s); return err == nil }

func killScenario(c *Ctx, r *Rng) *Scenario {
	sc := baseScenario(r)
	sc.Procs = one("kill")
	n := 1 + r.N(6)
	var pids []string
	for i := 0; i < n; i++ {
		p := kernel.SimProc{Pid: 1 + r.N(30), Other: r.N(8) == 0, Gone: r.N(8) == 0}
		switch r.N(6) {
		case 0:
			p.Pid = 100 + r.N(90000)
		case 1:
			p.Pid = []int{1, 9, 15, 2, 6, 14, 3, 4194304, 1<<31 - 1}[r.N(9)]
		}
		sc.Table = append(sc.Table, p)
	}
	for i, m := 0, 1+r.N(5); i < m; i++ {
		pids = append(pids, strconv.Itoa(sc.Table[r.N(len(sc.Table))].Pid))
		if r.N(10) == 0 {
			pids[i] = strconv.Itoa(30 + r.N(1000))
		}
		for _, q := range pids[:i] {
			if q == pids[i] {
				pids[i] = strconv.Itoa(2000 + i)
				sc.Table = append(sc.Table, kernel.SimProc{Pid: 2000 + i})
			}
		}
	}
	var args []string
	switch r.N(3) {
	case 0:
	case 1:
		args = []string{"-" + strconv.Itoa([]int{0, 1, 2, 3, 6, 9, 14, 15, 1 + r.N(31), 10, 12, 17, 31, 34, 64}[r.N(15)])}
	case 2:
		name := []string{"0", "HUP", "INT", "QUIT", "ABRT", "KILL", "ALRM", "TERM"}[r.N(8)]
		b := []byte(name)
		for i := range b {
			if r.N(2) == 0 && b[i] >= 'A' {
				b[i] += 'a' - 'A'
			}
		}
		args = []string{"-s", string(b)}
	}
	args = append(args, pids...)
	if r.N(4) == 0 {
		big := strconv.FormatUint(1<<32+uint64(sc.Table[0].Pid), 10)
		switch r.N(9) {
		case 0:
			args = nil
		case 1:
			args = args[:len(args)-len(pids)]
		case 2:
			args[len(args)-1] = []string{"abc", "1x", "0x10", "1.5", "%1", "self", "", " ", "1 2"}[r.N(9)]
		case 3:
			name := "NOSUCH"
			if r.N(3) > 0 {
				name = []string{"HUP", "INT", "QUIT", "ABRT", "KILL", "ALRM", "TERM", "hup", "kill"}[r.N(9)]
				switch r.N(4) {
				case 0:
					name = name[:len(name)-1]
				case 1:
					name = name[:2]
				case 2:
					name += "X"
				case 3:
					name = name[:1] + name
				}
			}
			args = append([]string{"-s", name}, pids...)
		case 4:
			args = []string{"-s"}
		case 5:
			args = append([]string{[]string{"-x", "-1x", "-99x", "-65", "-1000", "-4294967305"}[r.N(6)]}, pids...)
		case 6:
			args = append(args, big)
		case 7:
			args = append([]string{big}, pids...)
		case 8:
			// a bad operand between good ones
			args = append(args, []string{"zz", ""}[r.N(2)], pids[0])
		}
	}
	sc.Procs[0].Args = args
	return sc
}

func judgeKill(c *Ctx, sc *Scenario) (*Result, *Violation) {
	sig, pids, kind := parseKill(sc.Procs[0].Args)
	res := c.Run(sc, nil)
	p := &res.Procs[0]
	if v := hung(p); v != nil {
		return res, v
	}
	if kind == "" {
		return res, nil
	}
	var got []kernel.Signal
	for _, s := range p.Signals {
		if s.Sig == 0 && (kind != "ok" || sig != 0) {
			continue // only looks
		}
		got = append(got, s)
	}
	c.Probe(kind)
	if kind == "malformed" {
		for _, s := range got {
			if s.Err == 0 {
				return res, bad("delivered", "malformed command line %q, yet signal %d was sent to process %d", sc.Procs[0].Args, s.Sig, s.Pid)
			}
		}
		if p.Exit <= 0 && p.Signal == 0 {
			return res, bad("exit", "malformed command line %q, exit status %d", sc.Procs[0].Args, p.Exit)
		}
		return res, nil
	}
	allOK := true
	if len(got) != len(pids) {
		return res, bad("deliveries", "%q: %d deliveries attempted for %d processes: %v", sc.Procs[0].Args, len(got), len(pids), got)
	}
	for i, s := range got {
		if s.Pid != pids[i] || s.Sig != sig {
			return res, bad("wrong-signal", "%q: delivery %d is signal %d to process %d, want signal %d to process %d", sc.Procs[0].Args, i+1, s.Sig, s.Pid, sig, pids[i])
		}
		allOK = allOK && s.Err == 0
	}
	if allOK != (p.Exit == 0) {
		return res, bad("exit", "%q: exit status %d, all deliveries succeeded: %v", sc.Procs[0].Args, p.Exit, allOK)
	}
	return res, nil
}
