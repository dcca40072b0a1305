// Package build compiles the programs under test from /repo's working tree
// against a Go standard library whose system-call layer, goroutine scheduler,
// random source and clock are seams owned by the simulator.  Nothing in /repo
// is changed: the seams go in through 'go build -overlay'.
package build

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
)

// Paths of one check run.
type Env struct {
	Verif string // /verif
	Repo  string // /repo
	Out   string // build products
}

type patch struct {
	file     string
	old, new string
	count    int // how many times old must occur (0: at least once, replace all)
}

var patches = []patch{
	{"runtime/proc.go", `const haveSysmon = GOARCH != "wasm"`, `const haveSysmon = false`, 1},
	// pick among runnable goroutines
	{"runtime/proc.go", "		gp := pp.runq[h%uint32(len(pp.runq))].ptr()\n		if atomic.CasRel(&pp.runqhead, h, h+1) { // cas-release, commits consume\n			return gp, false\n		}\n	}\n}\n\n// runqdrain",
		"		if vsimOn && t-h > 1 {\n			k := vsimChoose(t - h)\n			a, b := h%uint32(len(pp.runq)), (h+k)%uint32(len(pp.runq))\n			pp.runq[a], pp.runq[b] = pp.runq[b], pp.runq[a]\n		}\n		gp := pp.runq[h%uint32(len(pp.runq))].ptr()\n		if atomic.CasRel(&pp.runqhead, h, h+1) { // cas-release, commits consume\n			return gp, false\n		}\n	}\n}\n\n// runqdrain", 1},
	{"runtime/proc.go", "		runqput(pp, gp, true)\n	} else {\n		lock(&sched.lock)\n		globrunqput(gp)", "		runqput(pp, gp, true)\n	} else if vsimOn {\n		runqput(pp, gp, false)\n	} else {\n		lock(&sched.lock)\n		globrunqput(gp)", 1},
	{"runtime/proc.go", "func runqput(pp *p, gp *g, next bool) {\n", "func runqput(pp *p, gp *g, next bool) {\n	if vsimOn {\n		next = false\n	}\n", 1},
	// discrete-event time: with nothing runnable, jump to the next timer
	{"runtime/proc.go", "	// wasm only:\n	// If a callback returned and no other goroutine is awake,", "	if vsimOn && pollUntil > vsimClock {\n		vsimClock = pollUntil\n		goto top\n	}\n\n	// wasm only:\n	// If a callback returned and no other goroutine is awake,", 1},
	// One thread: the main goroutine is not tied to the first one, and a thread
	// that comes into being all the same takes nothing from the random stream.
	{"runtime/proc.go", "	lockOSThread()\n\n	if mp != &m0 {", "	if mp != &m0 {", 1},
	{"runtime/proc.go", "	needUnlock := true\n", "	needUnlock := false\n", 1},
	{"runtime/proc.go", "	needUnlock = false\n	unlockOSThread()\n", "	needUnlock = false\n", 1},
	{"runtime/rand.go", "	mp.cheaprand = uint32(rand())\n	mp.cheaprand64 = rand()\n", "	mp.cheaprand = uint32(seed[1])\n	mp.cheaprand64 = seed[2]\n", 1},
	{"runtime/rand.go", "	seed := &globalRand.seed\n	if len(startupRand) >= 16 &&", "	seed := &globalRand.seed\n	if seed[0] = 1; true {\n	} else if len(startupRand) >= 16 &&", 1},
	{"runtime/rand.go", "	// Note: We avoid acquirem here so that in the fast path", "	if vsimOn {\n		return vsimRand()\n	}\n	// Note: We avoid acquirem here so that in the fast path", 1},
	{"runtime/select.go", "j := cheaprandn(uint32(norder + 1))", "j := randn(uint32(norder + 1))", 1},
	{"runtime/chan.go", "	chansend(c, elem, true, sys.GetCallerPC())", "	pc := sys.GetCallerPC()\n	if vsimOn {\n		vsimYieldPoint()\n	}\n	chansend(c, elem, true, pc)", 1},
	{"runtime/chan.go", "	chanrecv(c, elem, true)\n}\n\n//go:nosplit\nfunc chanrecv2", "	if vsimOn {\n		vsimYieldPoint()\n	}\n	chanrecv(c, elem, true)\n}\n\n//go:nosplit\nfunc chanrecv2", 1},
	{"runtime/chan.go", "	_, received = chanrecv(c, elem, true)\n	return", "	if vsimOn {\n		vsimYieldPoint()\n	}\n	_, received = chanrecv(c, elem, true)\n	return", 1},
	// further places where another goroutine may be let in: go statements, close,
	// select and locking
	{"runtime/proc.go", "		if mainStarted {\n			wakep()\n		}\n	})\n}\n\n// Create a new g in state", "		if mainStarted {\n			wakep()\n		}\n	})\n	if vsimOn {\n		vsimYieldPoint()\n	}\n}\n\n// Create a new g in state", 1},
	{"runtime/chan.go", "func closechan(c *hchan) {\n", "func closechan(c *hchan) {\n	if vsimOn {\n		vsimYieldPoint()\n	}\n", 1},
	{"runtime/select.go", "	gp := getg()\n	if debugSelect {\n		print(\"select: cas0=\"", "	if vsimOn {\n		vsimYieldPoint()\n	}\n	gp := getg()\n	if debugSelect {\n		print(\"select: cas0=\"", 1},
	{"internal/sync/mutex.go", "func (m *Mutex) Lock() {\n", "func (m *Mutex) Lock() {\n	vsimYield()\n", 1},
	{"runtime/time_nofake.go", "	return nanotime1()", "	if vsimOn {\n		return vsimClock\n	}\n	return nanotime1()", 1},
	{"runtime/time.go", "	return time_now()\n}", "	if vsimOn {\n		t := vsimClock + vsimEpoch\n		return t / 1000000000, int32(t % 1000000000), vsimClock\n	}\n	return time_now()\n}", 1},
	// every system call of package syscall and of its users
	{"syscall/syscall_linux.go", "	var errno uintptr\n	r1, r2, errno = linux.Syscall6(trap, a1, a2, a3, a4, a5, a6)\n	err = Errno(errno)\n	return\n}",
		"	var errno uintptr\n	if vsimEnabled {\n		r1, r2, errno = vsimSyscall(trap, a1, a2, a3, a4, a5, a6)\n		err = Errno(errno)\n		return\n	}\n	r1, r2, errno = linux.Syscall6(trap, a1, a2, a3, a4, a5, a6)\n	err = Errno(errno)\n	return\n}", 1},
	{"syscall/syscall_linux.go", "	runtime_entersyscall()\n", "	if vsimEnabled {\n		return RawSyscall6(trap, a1, a2, a3, VSIMA4)\n	}\n	runtime_entersyscall()\n", 2},
	{"syscall/zsyscall_linux_amd64.go", "rawSyscallNoError(", "vsimNoError(", 0},
}

var added = map[string]string{
	"runtime/zz_vsim.go":       "sim/overlay/runtime/zz_vsim.go",
	"syscall/zz_vsim_linux.go": "sim/overlay/syscall/zz_vsim_linux.go",
	"internal/sync/zz_vsim.go": "sim/overlay/internal_sync/zz_vsim.go",
}

// GoEnv is the environment every go command of the checks runs in; it mirrors
// the environment /repo is built in.
func GoEnv(e Env) []string {
	keep := []string{}
	for _, kv := range os.Environ() {
		k := strings.SplitN(kv, "=", 2)[0]
		switch k {
		case "GOWORK", "GOENV", "GOOS", "GOARCH", "GOPATH", "GOMODCACHE", "GOCACHE", "GOFLAGS", "GOTOOLCHAIN", "GOPROXY", "HOME", "PATH", "GODEBUG", "GOEXPERIMENT", "CGO_ENABLED":
			continue
		}
		keep = append(keep, kv)
	}
	return append(keep,
		"HOME=/root",
		"PATH="+GoRoot()+"/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
		"GOTOOLCHAIN=local", "GOFLAGS=-mod=mod", "GOPROXY=off", "CGO_ENABLED=0",
		"GOCACHE="+filepath.Join(e.Out, "gocache"),
	)
}

func GoRoot() string { return "/opt/veriftools/go1.27.3" }

// Overlay writes the patched standard-library files and the overlay
// description, and returns the path of the latter.
func Overlay(e Env, extra map[string]string) (string, error) {
	dir := filepath.Join(e.Out, "overlay")
	src := filepath.Join(GoRoot(), "src")
	rep := map[string]string{}
	content := map[string]string{}
	for _, p := range patches {
		s, ok := content[p.file]
		if !ok {
			b, err := os.ReadFile(filepath.Join(src, p.file))
			if err != nil {
				return "", err
			}
			s = string(b)
		}
		n := strings.Count(s, p.old)
		if n == 0 || (p.count > 0 && n != p.count) {
			return "", fmt.Errorf("overlay: %s: %d occurrences of %q, want %d", p.file, n, p.old, p.count)
		}
		s = strings.ReplaceAll(s, p.old, p.new)
		content[p.file] = s
	}
	// Syscall has three arguments, Syscall6 six.
	s := content["syscall/syscall_linux.go"]
	s = strings.Replace(s, "VSIMA4", "0, 0, 0", 1)
	s = strings.Replace(s, "VSIMA4", "a4, a5, a6", 1)
	content["syscall/syscall_linux.go"] = s
	for f, s := range content {
		dst := filepath.Join(dir, f)
		if err := writeIfChanged(dst, []byte(s)); err != nil {
			return "", err
		}
		rep[filepath.Join(src, f)] = dst
	}
	for f, from := range added {
		rep[filepath.Join(src, f)] = filepath.Join(e.Verif, from)
	}
	for to, from := range extra {
		rep[to] = from
	}
	j, _ := json.MarshalIndent(map[string]interface{}{"Replace": rep}, "", " ")
	f := filepath.Join(dir, "overlay.json")
	return f, writeIfChanged(f, j)
}

func writeIfChanged(path string, b []byte) error {
	if old, err := os.ReadFile(path); err == nil && string(old) == string(b) {
		return nil
	}
	if err := os.MkdirAll(filepath.Dir(path), 0o755); err != nil {
		return err
	}
	return os.WriteFile(path, b, 0o644)
}

// Programs under test: cmd/<name> of the repository.
// Harness programs (no main of their own in /repo) live in sim/harness/<name>
// and are laid over /repo/cmd/zz_vsim_<name>.
func Build(e Env, progs, harness []string) (map[string]string, error) {
	extra := map[string]string{}
	for _, h := range harness {
		extra[filepath.Join(e.Repo, "cmd", "zz_vsim_"+h, "main.go")] = filepath.Join(e.Verif, "sim/harness", h, "main.go")
	}
	ov, err := Overlay(e, extra)
	if err != nil {
		return nil, err
	}
	out := map[string]string{}
	bin := filepath.Join(e.Out, "bin")
	if err := os.MkdirAll(bin, 0o755); err != nil {
		return nil, err
	}
	build := func(name, pkg string) error {
		dst := filepath.Join(bin, name)
		os.Remove(dst)
		// no -trimpath/-buildvcs: keep the build independent of git state
		c := exec.Command(filepath.Join(GoRoot(), "bin/go"), "build", "-buildvcs=false", "-overlay", ov, "-o", dst, pkg)
		c.Dir = e.Repo
		c.Env = GoEnv(e)
		b, err := c.CombinedOutput()
		if err != nil {
			return fmt.Errorf("building %s: %v\n%s", pkg, err, b)
		}
		out[name] = dst
		return nil
	}
	for _, p := range progs {
		if err := build(p, "./cmd/"+p); err != nil {
			return nil, err
		}
	}
	for _, h := range harness {
		if err := build("h_"+h, "./cmd/zz_vsim_"+h); err != nil {
			return nil, err
		}
	}
	return out, nil
}
