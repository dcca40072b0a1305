package kernel

import (
	"encoding/binary"
	"errors"
	"fmt"
	"os"
	"strings"
	"syscall"
	"unsafe"
)

// Limits of one simulated process.
var (
	CPUSeconds  uint64 = 8
	WallSeconds int64  = 100
	DataBytes   uint64 = 2 << 30
	MaxEvents          = 60000
)

type osProc struct {
	pid  int
	sock int
	err  int // memfd with what the runtime wrote to descriptor 2
}

var devNull = func() int {
	fd, err := syscall.Open("/dev/null", syscall.O_RDWR|syscall.O_CLOEXEC, 0)
	if err != nil {
		panic(err)
	}
	return fd
}()

func memfd() (int, error) {
	name := []byte("vsim\x00")
	r, _, e := syscall.Syscall(319, uintptr(unsafe.Pointer(&name[0])), 1, 0)
	if e != 0 {
		return -1, e
	}
	return int(r), nil
}

type rlimit struct{ cur, max uint64 }

func spawn(bin string, spec *ProcSpec, seed, cpu uint64) (*osProc, error) {
	sp, err := syscall.Socketpair(syscall.AF_UNIX, syscall.SOCK_STREAM|syscall.SOCK_CLOEXEC, 0)
	if err != nil {
		return nil, err
	}
	mf, err := memfd()
	if err != nil {
		return nil, err
	}
	env := append([]string{}, spec.Env...)
	env = append(env, "GOMAXPROCS=1", "GOGC=off", "GOMEMLIMIT=1500MiB", "GOTRACEBACK=single", fmt.Sprintf("VSIM=3,%d", seed))
	tv := syscall.Timeval{Sec: WallSeconds}
	if err := syscall.SetsockoptTimeval(sp[0], syscall.SOL_SOCKET, syscall.SO_RCVTIMEO, &tv); err != nil {
		return nil, err
	}
	argv := append([]string{spec.Prog}, spec.Args...)
	pid, err := syscall.ForkExec(bin, argv, &syscall.ProcAttr{
		Dir: "/", Env: env,
		Files: []uintptr{uintptr(devNull), uintptr(devNull), uintptr(mf), uintptr(sp[1])},
		Sys:   &syscall.SysProcAttr{Pdeathsig: 0, Setpgid: true},
	})
	syscall.Close(sp[1])
	if err != nil {
		syscall.Close(sp[0])
		syscall.Close(mf)
		return nil, fmt.Errorf("starting %s: %v", bin, err)
	}
	for res, l := range map[uintptr]rlimit{0: {cpu, cpu}, 2: {DataBytes, DataBytes}, 4: {0, 0}} {
		l := l
		syscall.RawSyscall6(302, uintptr(pid), res, uintptr(unsafe.Pointer(&l)), 0, 0, 0)
	}
	return &osProc{pid: pid, sock: sp[0], err: mf}, nil
}

var errTimeout = errors.New("timeout")

func (o *osProc) readFull(b []byte) error {
	for len(b) > 0 {
		n, err := syscall.Read(o.sock, b)
		if err == syscall.EINTR {
			continue
		}
		if err == syscall.EAGAIN {
			return errTimeout
		}
		if err != nil {
			return err
		}
		if n == 0 {
			return errors.New("eof")
		}
		b = b[n:]
	}
	return nil
}

func (o *osProc) recv(rq *request) error {
	var h [72]byte
	if err := o.readFull(h[:]); err != nil {
		return err
	}
	le := binary.LittleEndian
	rq.kind = le.Uint64(h[0:])
	n := le.Uint64(h[8:])
	rq.trap = le.Uint64(h[16:])
	for i := range rq.a {
		rq.a[i] = le.Uint64(h[24+8*i:])
	}
	if n > 1<<28 {
		return errors.New("oversized request")
	}
	rq.payload = make([]byte, n)
	return o.readFull(rq.payload)
}

func (o *osProc) send(rs *response) error {
	b := make([]byte, 40, 40+len(rs.out))
	le := binary.LittleEndian
	le.PutUint64(b[0:], rs.flags)
	le.PutUint64(b[8:], rs.r1)
	le.PutUint64(b[16:], rs.r2)
	le.PutUint64(b[24:], rs.errno)
	le.PutUint64(b[32:], uint64(len(rs.out)))
	b = append(b, rs.out...)
	for len(b) > 0 {
		n, err := syscall.SendmsgN(o.sock, b, nil, nil, syscall.MSG_NOSIGNAL)
		if err == syscall.EINTR {
			continue
		}
		if err != nil {
			return err
		}
		b = b[n:]
	}
	return nil
}

func (p *proc) finish(kill bool) {
	o := p.os
	p.done = true
	p.pending = false
	if kill {
		syscall.Kill(o.pid, syscall.SIGKILL)
	}
	var ws syscall.WaitStatus
	for {
		_, err := syscall.Wait4(o.pid, &ws, 0, nil)
		if err != syscall.EINTR {
			break
		}
	}
	p.res.Exit = -1
	if ws.Exited() {
		p.res.Exit = ws.ExitStatus()
	} else if ws.Signaled() {
		p.res.Signal = int(ws.Signal())
		if !kill && ws.Signal() == syscall.SIGKILL {
			p.res.CPULimit = true
		}
	}
	buf := make([]byte, 16<<10)
	n, _ := syscall.Pread(o.err, buf, 0)
	if n > 0 {
		p.res.Diag = string(buf[:n])
	}
	syscall.Close(o.err)
	syscall.Close(o.sock)
	p.res.Calls = p.calls
	p.res.OpenFDs = p.openList()
	p.res.InUsed = p.inOff
}

// Run performs one simulated execution.
func Run(bins map[string]string, sc *Scenario, hook Hook) (*Result, error) {
	k := &Kernel{sc: sc, hook: hook, rng: NewRng(sc.Seed), hits: make([]int, len(sc.Faults)), table: map[int]*SimProc{}, pid0: 4000}
	k.res = &Result{Injected: map[string]int{}, Unsupported: map[string]int{}, HookEvent: -1}
	k.FS = NewFS(sc.Files)
	// file times follow the clock closely or, as on real systems, in steps
	step := int64(1)
	if Mix(sc.Seed, 77)&1 == 0 {
		step = 4e6
	}
	k.FS.now = func() int64 { return (epoch + 1e6 + k.res.SimTime*1000) / step * step }
	k.res.FS = k.FS
	k.res.Initial = k.FS.Snapshot()
	k.bad = append([]BadSector(nil), sc.Bad...)
	if sc.Quota != nil {
		k.quota = true
		k.FS.Quota = *sc.Quota
	}
	for i := range sc.Table {
		t := sc.Table[i]
		k.table[t.Pid] = &t
	}
	maxEv := sc.MaxEvents
	if maxEv == 0 {
		// enough for programs that read and write byte by byte
		n := 0
		for i := range sc.Files {
			n += len(sc.Files[i].Data) * max(1, sc.Files[i].Rep)
		}
		for i := range sc.Procs {
			for _, c := range sc.Procs[i].Stdin {
				n += len(c.Data)
			}
		}
		maxEv = MaxEvents + min(4*n, 2000000)
	}
	k.res.Procs = make([]ProcResult, len(sc.Procs))
	defer func() {
		for _, p := range k.procs {
			if p.os != nil && !p.done {
				p.finish(true)
			}
		}
	}()
	for i := range sc.Procs {
		spec := &sc.Procs[i]
		p := &proc{idx: i, spec: spec, res: &k.res.Procs[i], fds: map[int]*openFile{}, umask: spec.Umask, lastBlk: -1}
		for fd := 0; fd < 3; fd++ {
			p.fds[fd] = &openFile{std: fd, flags: []int{0, 1, 1}[fd]}
		}
		if spec.StdinFile {
			n := &Inode{ID: 9100, Mode: S_IFREG | 0o644, Nlink: 1}
			for _, c := range spec.Stdin {
				n.Data = append(n.Data, c.Data...)
			}
			p.stdinN = n
			p.fds[0].n = n
		}
		k.procs = append(k.procs, p)
		bin := bins[spec.Prog]
		if bin == "" {
			return nil, fmt.Errorf("no program %q", spec.Prog)
		}
		o, err := spawn(bin, spec, Mix(sc.MapSeed, uint64(i)), CPUSeconds+uint64(maxEv/20000))
		if err != nil {
			return nil, err
		}
		p.os = o
		p.started = true
		p.res.Started = true
	}
	get := func(p *proc) error {
		err := p.os.recv(&p.req)
		if err == nil {
			p.pending = true
			return nil
		}
		if err == errTimeout {
			p.res.WallLimit = true
			p.finish(true)
			return nil
		}
		p.finish(false)
		if p.res.Exit == 99 {
			return fmt.Errorf("process %d lost the simulator: %s", p.idx, p.res.Diag)
		}
		return nil
	}
	for _, p := range k.procs {
		if err := get(p); err != nil {
			return nil, err
		}
	}
	last := 0
	exch := 0
	for {
		var cand []*proc
		for _, p := range k.procs {
			if p.pending && p.spec.Start <= k.calls && !k.blocked(p) {
				cand = append(cand, p)
			}
		}
		if len(cand) == 0 {
			for _, p := range k.procs {
				if p.pending && !k.blocked(p) {
					cand = append(cand, p)
					break
				}
			}
		}
		if len(cand) == 0 {
			for _, p := range k.procs {
				if p.pending { // waits for a lock that nobody will release
					p.res.StepLimit = true
					p.finish(true)
				}
			}
			break
		}
		p := cand[0]
		if len(cand) > 1 {
			// 0 keeps the process that ran last
			base := 0
			for i, q := range cand {
				if q.idx == last {
					base = i
				}
			}
			v := k.decide(len(cand), sc.Knobs.Switch)
			p = cand[(base+v)%len(cand)]
			if v != 0 {
				k.note("process-switch")
			}
			k.sched = Mix(k.sched, 9, uint64(p.idx))
		}
		last = p.idx
		exch++
		if exch > maxEv {
			p.res.StepLimit = true
			p.finish(true)
			continue
		}
		n0 := len(k.res.Events)
		rs, kill := k.serve(p)
		if hook != nil && len(k.res.Events) > n0 {
			if msg := hook(k, &k.res.Events[len(k.res.Events)-1]); msg != "" {
				k.res.HookErr = msg
				k.res.HookEvent = len(k.res.Events) - 1
				for _, q := range k.procs {
					if !q.done {
						q.finish(true)
					}
				}
				break
			}
		}
		if kill {
			p.finish(true)
			continue
		}
		p.pending = false
		if err := p.os.send(&rs); err != nil {
			p.finish(false)
			continue
		}
		if err := get(p); err != nil {
			return nil, err
		}
	}
	for i := range k.procs {
		r := &k.res.Procs[i]
		k.hash = Mix(k.hash, uint64(r.Exit), uint64(r.Signal), HashString(string(r.Stdout)), HashString(string(r.Stderr)))
	}
	k.res.Hash = k.hash
	k.res.SchedHash = k.sched
	return k.res, nil
}

// Panicked reports whether the Go runtime ended the process (panic, fatal
// error, deadlock), and the first line of what it said.
func (r *ProcResult) Panicked() (string, bool) {
	for _, l := range strings.Split(r.Diag, "\n") {
		if strings.HasPrefix(l, "panic:") || strings.HasPrefix(l, "fatal error:") || strings.HasPrefix(l, "runtime:") || strings.HasPrefix(l, "SIG") || strings.HasPrefix(l, "unexpected fault") {
			return l, true
		}
	}
	return "", false
}

var _ = os.Args
