// Package kernel is the simulated operating system: processes under test run
// their real code, but every system call they make, every choice of goroutine
// and the clock are answered from here, by one decision stream.
package kernel

import (
	"fmt"
	"os"
	"sort"
	"strings"
)

type openFile struct {
	n       *Inode
	path    string
	off     int64
	flags   int
	std     int // 0,1,2 for the standard streams, else -1
	pipe    *pipe
	pipeW   bool
	dirDone bool
}

type pipe struct {
	buf     []byte
	writers int
	readers int
}

type proc struct {
	idx  int
	spec *ProcSpec
	res  *ProcResult
	fds  map[int]*openFile
	os   *osProc

	umask   uint32
	chunk   int
	chunkOf int
	inOff   int
	relGate int // chunks released
	ev      int // exchanges with this process
	lastBlk int
	calls   int
	done    bool
	stdinN  *Inode
	started bool

	req     request
	pending bool
}

// Kernel is one simulated machine.
type Kernel struct {
	sc    *Scenario
	FS    *FS
	procs []*proc
	rng   *Rng
	res   *Result
	dpos  int
	hits  []int // per fault: matching calls so far
	hash  uint64
	sched uint64
	gen   int // changes of the file system
	calls int
	table map[int]*SimProc
	bad   []BadSector
	hook  Hook
	next  int // foreign op
	pid0  int
	quota bool
}

// Hook is called after every system call; a non-empty string is a violation of
// an invariant and ends the run.
type Hook func(k *Kernel, e *Event) string

// Gen changes whenever a file or directory changes.
func (k *Kernel) Gen() int { return k.gen }

// Quota left on the file system.
func (k *Kernel) Result() *Result { return k.res }

// ProcOut is what process i wrote to standard output so far.
func (k *Kernel) ProcOut(i int) []byte { return k.procs[i].res.Stdout }

// ProcIn is how many bytes of standard input process i has consumed.
func (k *Kernel) ProcIn(i int) int { return k.procs[i].inOff }

func (k *Kernel) note(what string) { k.res.Injected[what]++ }

// decide takes the next decision: a value in [0,n), 0 being the benign default.
func (k *Kernel) decide(n, permille int) int {
	v := 0
	if k.sc.UseDecisions {
		if k.dpos < len(k.sc.Decisions) {
			v = k.sc.Decisions[k.dpos]
		}
		k.dpos++
		if v < 0 || v >= n {
			v = 0
		}
	} else if n > 1 && permille > 0 && k.rng.P(permille) {
		switch k.rng.N(6) {
		case 0, 1:
			v = 1
		case 2:
			v = n - 1
		default:
			v = 1 + k.rng.N(n-1)
		}
	}
	k.res.Decisions = append(k.res.Decisions, v)
	k.hash = Mix(k.hash, uint64(v))
	return v
}

type request struct {
	kind, trap uint64
	a          [6]uint64
	payload    []byte
}

type response struct {
	flags, r1, r2, errno uint64
	out                  []byte
}

const (
	atFDCWD    = -100
	oWRONLY    = 1
	oRDWR      = 2
	oCREAT     = 0o100
	oEXCL      = 0o200
	oTRUNC     = 0o1000
	oAPPEND    = 0o2000
	oDIRECTORY = 0o200000
	oNOFOLLOW  = 0o400000
	oTMPFILE   = 0o20000000
)

const firstFD = 1000

// full says whether the process has all the descriptors it may have.
func (k *Kernel) full(p *proc) bool {
	n := k.sc.MaxFDs
	if n == 0 {
		n = 1024
	}
	return len(p.fds) >= n
}

func (p *proc) newFD(f *openFile, from int) int {
	for fd := from; ; fd++ {
		if p.fds[fd] == nil {
			p.fds[fd] = f
			return fd
		}
	}
}

func cstrs(b []byte) []string {
	var out []string
	for len(b) > 0 {
		i := strings.IndexByte(string(b), 0)
		if i < 0 {
			out = append(out, string(b))
			break
		}
		out = append(out, string(b[:i]))
		b = b[i+1:]
	}
	return out
}

func (p *proc) at(dirfd int64, path string) (string, Errno) {
	if strings.HasPrefix(path, "/") {
		return path, 0
	}
	if path == "" {
		return "", ENOENT
	}
	if int32(dirfd) == atFDCWD {
		return "/w/" + path, 0
	}
	f := p.fds[int(dirfd)]
	if f == nil {
		return "", EBADF
	}
	if f.n == nil || f.n.typ() != S_IFDIR {
		return "", ENOTDIR
	}
	return f.path + "/" + path, 0
}

// call is a decoded system call.
type call struct {
	class string
	role  string
	off   int
	want  int
	do    func() (int64, Errno, []byte)
	// shorten: the transfer may be cut to fewer bytes
	kind    string // "read", "write" or ""
	lim     func(n int)
	f       *openFile
	wdat    []byte
	onFault func(Errno)
	blk     bool // the call found nothing to do and must block
	path    string
}

func (k *Kernel) fileRole(f *openFile) string {
	switch f.std {
	case 0:
		return "stdin"
	case 1:
		return "stdout"
	case 2:
		return "stderr"
	}
	return f.path
}

// serve answers one system call of p.
func (k *Kernel) serve(p *proc) (rs response, kill bool) {
	rq := &p.req
	p.ev++
	switch rq.kind {
	case 2:
		v := k.decide(int(rq.a[0]), k.sc.Knobs.Sched)
		rs.r1 = uint64(v)
		k.sched = Mix(k.sched, uint64(p.idx), 2, uint64(v))
		if v != 0 {
			k.note("goroutine-choice")
		}
		return rs, false
	case 3:
		v := k.decide(2, k.sc.Knobs.Yield)
		rs.flags = uint64(v)
		k.sched = Mix(k.sched, uint64(p.idx), 3, uint64(v))
		if v != 0 {
			k.note("preemption")
		}
		return rs, false
	}
	for k.next < len(k.sc.Foreign) && k.sc.Foreign[k.next].At <= k.calls {
		k.foreign(&k.sc.Foreign[k.next])
		k.next++
	}
	c := k.decode(p, rq)
	// killed instead of served
	for i := range k.sc.Kills {
		kl := &k.sc.Kills[i]
		if kl.Proc == p.idx && kl.At == p.calls {
			if c.kind == "write" && kl.Torn > 0 && kl.Torn < c.want {
				c.lim(kl.Torn)
				c.do()
				k.note("torn-write")
			}
			k.note("kill")
			p.res.Killed = true
			k.log(p, c, 0, 0, "killed here")
			return rs, true
		}
	}
	var ret int64
	var errno Errno
	var out []byte
	fault := ""
	for i := range k.sc.Faults {
		f := &k.sc.Faults[i]
		if f.Proc != p.idx || f.Call != c.class || (f.Role != "*" && f.Role != c.role) {
			continue
		}
		n := k.hits[i]
		k.hits[i]++
		if n == f.Nth || n > f.Nth && (f.Sticky || n < f.Nth+f.Times) {
			fault = "injected " + f.Errno.String()
			errno = f.Errno
			k.note(f.Errno.String() + "@" + f.Call)
		}
	}
	if fault != "" {
		ret = -1
		if c.class == "close" && c.f != nil { // a failing close still closes
			c.do()
		}
		if c.class == "read" {
			p.res.ReadFailed = append(p.res.ReadFailed, c.role)
		}
		if c.class == "write" && c.role == "stdout" {
			p.res.OutLost = true
		}
		if c.class == "open" {
			p.res.ReadFailed = append(p.res.ReadFailed, c.role)
		}
		if c.onFault != nil {
			c.onFault(errno)
		}
	} else {
		if c.kind != "" && c.want > 0 {
			if k.sc.Knobs.Eintr > 0 && k.decide(2, k.sc.Knobs.Eintr) == 1 {
				fault, errno, ret = "EINTR", EINTR, -1
				k.note("EINTR@" + c.kind)
			} else {
				rate := k.sc.Knobs.ShortRead
				if c.kind == "write" {
					rate = k.sc.Knobs.ShortWrite
				}
				if rate > 0 && c.want > 1 {
					if v := k.decide(c.want, rate); v > 0 {
						c.lim(v)
						fault = "short"
						k.note("short-" + c.kind)
					}
				}
			}
		} else if c.class == "open" && k.sc.Knobs.Eintr > 0 && k.decide(2, k.sc.Knobs.Eintr) == 1 {
			fault, errno, ret = "EINTR", EINTR, -1
			k.note("EINTR@open")
		}
		if errno == 0 {
			ret, errno, out = c.do()
			if errno != 0 {
				ret = -1
			}
		}
	}
	if c.blk {
		// Waiting for input: let the other goroutines run, come back.
		if p.lastBlk != p.ev-1 {
			p.lastBlk = p.ev
			rs.flags = 3
			return rs, false
		}
		// nothing else happened since: the process is quiescent
		p.res.Quiet = append(p.res.Quiet, Quiet{In: p.inOff, Out: len(p.res.Stdout), Ev: len(k.res.Events)})
		if c.f != nil && c.f.std == 0 && p.chunk < len(p.spec.Stdin) {
			p.relGate = p.chunk + 1
			k.note("input-delayed")
			// serve it now
			c.blk = false
			ret, errno, out = c.do()
		} else {
			k.note("input-stalled")
			p.res.Stalled = true
			k.log(p, c, 0, 0, "waits for ever")
			return rs, true
		}
	}
	k.log(p, c, ret, errno, fault)
	p.calls++
	k.calls++
	if errno != 0 {
		rs.r1 = ^uint64(0)
		rs.errno = uint64(errno)
	} else {
		rs.r1 = uint64(ret)
		rs.out = out
	}
	if k.sc.Knobs.Yield > 0 {
		if v := k.decide(2, k.sc.Knobs.Yield); v == 1 {
			rs.flags |= 1
			k.note("preemption")
		}
	}
	return rs, false
}

func (k *Kernel) log(p *proc, c *call, ret int64, errno Errno, fault string) {
	e := Event{Proc: p.idx, Idx: k.calls, PIdx: p.calls, Call: c.class, Role: c.role, Off: c.off, Want: c.want, Ret: ret, Err: errno, Fault: fault}
	k.res.Events = append(k.res.Events, e)
	k.hash = Mix(k.hash, uint64(p.idx), HashString(c.class), HashString(c.role), uint64(c.off), uint64(ret), uint64(errno))
	k.res.SimTime++
}

func stat(n *Inode) []byte {
	b := make([]byte, 144)
	put := func(off, size int, v uint64) {
		for i := 0; i < size; i++ {
			b[off+i] = byte(v >> (8 * i))
		}
	}
	put(0, 8, 1)
	put(8, 8, uint64(n.ID))
	put(16, 8, uint64(n.Nlink))
	put(24, 4, uint64(n.Mode))
	uid := uint64(1000)
	if n.Foreign {
		uid = 1001
	}
	put(28, 4, uid)
	put(32, 4, uid)
	size := uint64(len(n.Data))
	if n.NoSize {
		size = 0
	}
	if n.typ() == S_IFLNK {
		size = uint64(len(n.Target))
	}
	if n.typ() == S_IFDIR {
		size = 4096
	}
	put(48, 8, size)
	put(56, 8, 4096)
	put(64, 8, (size+511)/512)
	for _, o := range []int{72, 88, 104} {
		put(o, 8, uint64(n.Mtime/1e9))
		put(o+8, 8, uint64(n.Mtime%1e9))
	}
	return b
}

var streamInode = [3]*Inode{
	{ID: 9000, Mode: S_IFIFO | 0o600, Nlink: 1},
	{ID: 9001, Mode: S_IFIFO | 0o600, Nlink: 1},
	{ID: 9002, Mode: S_IFIFO | 0o600, Nlink: 1},
}

func fail(e Errno) func() (int64, Errno, []byte) {
	return func() (int64, Errno, []byte) { return -1, e, nil }
}

func ok(v int64) func() (int64, Errno, []byte) {
	return func() (int64, Errno, []byte) { return v, 0, nil }
}

// decode turns a request into a call that has not yet taken effect.
func (k *Kernel) decode(p *proc, rq *request) *call {
	c := &call{lim: func(int) {}}
	a := rq.a
	fdcall := func(class string) *openFile {
		c.class = class
		f := p.fds[int(int32(a[0]))]
		c.f = f
		if f == nil {
			c.role = fmt.Sprintf("fd%d", int32(a[0]))
			c.do = fail(EBADF)
			return nil
		}
		c.role = k.fileRole(f)
		return f
	}
	pathcall := func(class string, dirfd int64, path string) (string, bool) {
		c.class = class
		full, e := p.at(dirfd, path)
		c.role = full
		c.path = full
		if e != 0 {
			c.role = path
			c.do = fail(e)
			return "", false
		}
		return full, true
	}
	ps := func(i int) string {
		s := cstrs(rq.payload)
		if i < len(s) {
			return s[i]
		}
		return ""
	}
	const cwd = atFDCWD
	switch rq.trap {
	case 0, 17, 19, 295: // read pread64 readv preadv
		f := fdcall("read")
		if f == nil {
			return c
		}
		c.kind = "read"
		c.want = int(a[2])
		pos := int64(-1)
		if rq.trap == 17 || rq.trap == 295 {
			pos = int64(a[3])
		}
		limit := int(a[2])
		c.lim = func(n int) { limit = n }
		c.off = int(f.off)
		if pos >= 0 {
			c.off = int(pos)
		}
		if f.std == 0 && p.stdinN == nil {
			c.off = p.inOff
			if p.chunk < len(p.spec.Stdin) && c.want > len(p.spec.Stdin[p.chunk].Data)-p.chunkOf {
				c.want = len(p.spec.Stdin[p.chunk].Data) - p.chunkOf
			}
		} else if f.n != nil && c.want > len(f.n.Data)-c.off {
			c.want = len(f.n.Data) - c.off
		}
		c.do = func() (int64, Errno, []byte) { return k.read(p, c, f, limit, pos) }
	case 1, 18, 20, 296: // write pwrite64 writev pwritev
		f := fdcall("write")
		if f == nil {
			return c
		}
		c.kind = "write"
		c.want = len(rq.payload)
		pos := int64(-1)
		if rq.trap == 18 || rq.trap == 296 {
			pos = int64(a[3])
		}
		data := rq.payload
		c.lim = func(n int) { data = data[:n] }
		c.off = int(f.off)
		if f.std == 1 {
			c.off = len(p.res.Stdout)
		}
		c.do = func() (int64, Errno, []byte) { return k.write(p, c, f, data, pos) }
	case 2:
		k.open(p, c, cwd, ps(0), int(int32(a[1])), uint32(a[2]))
	case 85: // creat
		k.open(p, c, cwd, ps(0), oCREAT|oTRUNC|oWRONLY, uint32(a[1]))
	case 257:
		k.open(p, c, int64(a[0]), ps(0), int(int32(a[2])), uint32(a[3]))
	case 3:
		f := fdcall("close")
		if f == nil {
			return c
		}
		fd := int(a[0])
		c.do = func() (int64, Errno, []byte) {
			delete(p.fds, fd)
			if f.pipe != nil {
				if f.pipeW {
					f.pipe.writers--
				} else {
					f.pipe.readers--
				}
			}
			return 0, 0, nil
		}
	case 5:
		f := fdcall("fstat")
		if f == nil {
			return c
		}
		c.do = func() (int64, Errno, []byte) {
			if f.n != nil {
				return 0, 0, stat(f.n)
			}
			if f.std >= 0 {
				return 0, 0, stat(streamInode[f.std])
			}
			return 0, 0, stat(streamInode[0])
		}
	case 262: // newfstatat
		follow := a[3]&0x100 == 0
		class := "stat"
		if !follow {
			class = "lstat"
		}
		if a[3]&0x1000 != 0 && ps(0) == "" { // AT_EMPTY_PATH
			f := fdcall("fstat")
			if f == nil {
				return c
			}
			c.do = func() (int64, Errno, []byte) {
				if f.n != nil {
					return 0, 0, stat(f.n)
				}
				return 0, 0, stat(streamInode[max(f.std, 0)])
			}
			return c
		}
		full, good := pathcall(class, int64(a[0]), ps(0))
		if good {
			c.do = func() (int64, Errno, []byte) { return k.stat(p, full, follow) }
		}
	case 4, 6:
		class := "stat"
		if rq.trap == 6 {
			class = "lstat"
		}
		full, good := pathcall(class, cwd, ps(0))
		if good {
			follow := rq.trap == 4
			c.do = func() (int64, Errno, []byte) { return k.stat(p, full, follow) }
		}
	case 8: // lseek
		f := fdcall("seek")
		if f == nil {
			return c
		}
		c.do = func() (int64, Errno, []byte) {
			if f.n == nil || f.pipe != nil {
				return -1, ESPIPE, nil
			}
			o := int64(a[1])
			switch a[2] {
			case 1:
				o += f.off
			case 2:
				o += int64(len(f.n.Data))
			case 0:
			default:
				return -1, EINVAL, nil
			}
			if o < 0 {
				return -1, EINVAL, nil
			}
			f.off = o
			f.dirDone = false
			return o, 0, nil
		}
	case 74, 75, 277: // fsync fdatasync sync_file_range
		f := fdcall("fsync")
		if f == nil {
			return c
		}
		c.onFault = func(Errno) {
			// The data that could not be written is given up, and later calls
			// report success (Linux)
			if f.n != nil && f.n.typ() == S_IFREG {
				f.n.GaveUp = true
			}
		}
		c.do = func() (int64, Errno, []byte) {
			if f.n == nil {
				return -1, EINVAL, nil
			}
			if rq.trap != 277 {
				if f.n.typ() == S_IFDIR {
					k.FS.syncDir()
				} else if !f.n.GaveUp {
					k.FS.sync(f.n)
				}
			}
			return 0, 0, nil
		}
	case 162, 306: // sync syncfs
		c.class, c.role = "sync", "fs"
		c.do = func() (int64, Errno, []byte) {
			for _, n := range k.FS.all() {
				k.FS.sync(n)
			}
			k.FS.syncDir()
			return 0, 0, nil
		}
	case 77: // ftruncate
		f := fdcall("truncate")
		if f == nil {
			return c
		}
		c.do = func() (int64, Errno, []byte) {
			if f.n == nil || f.n.typ() != S_IFREG || f.flags&3 == 0 {
				return -1, EINVAL, nil
			}
			return k.truncate(f.n, int64(a[1]))
		}
	case 76: // truncate
		full, good := pathcall("truncate", cwd, ps(0))
		if good {
			c.do = func() (int64, Errno, []byte) {
				_, _, n, e := k.FS.walk(full, true, false)
				if e != 0 {
					return -1, e, nil
				}
				if n == nil {
					return -1, ENOENT, nil
				}
				if n.typ() == S_IFDIR {
					return -1, EISDIR, nil
				}
				if !n.may(2) {
					return -1, EACCES, nil
				}
				return k.truncate(n, int64(a[1]))
			}
		}
	case 285: // fallocate
		fdcall("fallocate")
		c.do = fail(ENOTSUP)
	case 82, 264, 316: // rename*
		d1, d2 := int64(cwd), int64(cwd)
		flags := uint64(0)
		if rq.trap != 82 {
			d1, d2 = int64(a[0]), int64(a[2])
		}
		if rq.trap == 316 {
			flags = a[4]
		}
		from, good := pathcall("rename", d1, ps(0))
		if !good {
			return c
		}
		to, e := p.at(d2, ps(1))
		if e != 0 {
			c.do = fail(e)
			return c
		}
		c.role = to
		c.do = func() (int64, Errno, []byte) { return k.rename(from, to, flags) }
	case 87, 263, 84: // unlink unlinkat rmdir
		d := int64(cwd)
		rmdir := rq.trap == 84
		if rq.trap == 263 {
			d = int64(a[0])
			rmdir = a[2]&0x200 != 0
		}
		class := "unlink"
		if rmdir {
			class = "rmdir"
		}
		full, good := pathcall(class, d, ps(0))
		if good {
			c.do = func() (int64, Errno, []byte) { return k.unlink(full, rmdir) }
		}
	case 86, 265: // link linkat
		d1, d2 := int64(cwd), int64(cwd)
		follow := false
		if rq.trap == 265 {
			d1, d2 = int64(a[0]), int64(a[2])
			follow = a[4]&0x400 != 0
		}
		from, good := pathcall("link", d1, ps(0))
		if !good {
			return c
		}
		to, e := p.at(d2, ps(1))
		if e != 0 {
			c.do = fail(e)
			return c
		}
		c.role = to
		c.do = func() (int64, Errno, []byte) {
			_, _, n, e := k.FS.walk(from, follow, false)
			if e != 0 {
				return -1, e, nil
			}
			if n == nil {
				return -1, ENOENT, nil
			}
			if n.typ() == S_IFDIR {
				return -1, EPERM, nil
			}
			dir, name, x, e := k.FS.walk(to, false, false)
			if e != 0 {
				return -1, e, nil
			}
			if x != nil {
				return -1, EEXIST, nil
			}
			if !dir.may(2) {
				return -1, EACCES, nil
			}
			n.Nlink++
			k.FS.link(dir, name, n)
			k.gen++
			return 0, 0, nil
		}
	case 88, 266: // symlink symlinkat
		d := int64(cwd)
		if rq.trap == 266 {
			d = int64(a[1])
		}
		target := ps(0)
		full, good := pathcall("symlink", d, ps(1))
		if good {
			c.do = func() (int64, Errno, []byte) {
				dir, name, x, e := k.FS.walk(full, false, false)
				if e != 0 {
					return -1, e, nil
				}
				if x != nil {
					return -1, EEXIST, nil
				}
				if !dir.may(2) {
					return -1, EACCES, nil
				}
				n := k.FS.newInode(S_IFLNK | 0o777)
				n.Target = target
				k.FS.link(dir, name, n)
				k.gen++
				return 0, 0, nil
			}
		}
	case 89, 267: // readlink readlinkat
		d := int64(cwd)
		size := a[2]
		if rq.trap == 267 {
			d = int64(a[0])
			size = a[3]
		}
		full, good := pathcall("readlink", d, ps(0))
		if good {
			c.do = func() (int64, Errno, []byte) {
				_, _, n, e := k.FS.walk(full, false, false)
				if e != 0 {
					return -1, e, nil
				}
				if n == nil {
					return -1, ENOENT, nil
				}
				if n.typ() != S_IFLNK {
					return -1, EINVAL, nil
				}
				b := []byte(n.Target)
				if uint64(len(b)) > size {
					b = b[:size]
				}
				return int64(len(b)), 0, b
			}
		}
	case 83, 258: // mkdir mkdirat
		d := int64(cwd)
		mode := uint32(a[1])
		if rq.trap == 258 {
			d = int64(a[0])
			mode = uint32(a[2])
		}
		full, good := pathcall("mkdir", d, ps(0))
		if good {
			c.do = func() (int64, Errno, []byte) {
				dir, name, x, e := k.FS.walk(strings.TrimRight(full, "/"), false, false)
				if e != 0 {
					return -1, e, nil
				}
				if x != nil {
					return -1, EEXIST, nil
				}
				if !dir.may(2) {
					return -1, EACCES, nil
				}
				n := k.FS.newInode(S_IFDIR | mode&^p.umask&0o7777)
				k.FS.link(dir, name, n)
				k.gen++
				return 0, 0, nil
			}
		}
	case 91: // fchmod
		f := fdcall("chmod")
		if f == nil {
			return c
		}
		c.do = func() (int64, Errno, []byte) {
			if f.n == nil {
				return -1, EPERM, nil
			}
			return k.chmod(f.n, uint32(a[1]))
		}
	case 90, 268, 452: // chmod fchmodat fchmodat2
		d := int64(cwd)
		mode := uint32(a[1])
		if rq.trap != 90 {
			d = int64(a[0])
			mode = uint32(a[2])
		}
		full, good := pathcall("chmod", d, ps(0))
		if good {
			c.do = func() (int64, Errno, []byte) {
				_, _, n, e := k.FS.walk(full, true, false)
				if e != 0 {
					return -1, e, nil
				}
				if n == nil {
					return -1, ENOENT, nil
				}
				return k.chmod(n, mode)
			}
		}
	case 92, 94, 260: // chown lchown fchownat
		d := int64(cwd)
		uid, gid := int32(a[1]), int32(a[2])
		if rq.trap == 260 {
			d = int64(a[0])
			uid, gid = int32(a[2]), int32(a[3])
		}
		full, good := pathcall("chown", d, ps(0))
		if good {
			c.do = func() (int64, Errno, []byte) {
				_, _, n, e := k.FS.walk(full, true, false)
				if e != 0 {
					return -1, e, nil
				}
				if n == nil {
					return -1, ENOENT, nil
				}
				return chown(n, uid, gid)
			}
		}
	case 93: // fchown
		f := fdcall("chown")
		if f == nil {
			return c
		}
		c.do = func() (int64, Errno, []byte) {
			if f.n == nil {
				return -1, EPERM, nil
			}
			return chown(f.n, int32(a[1]), int32(a[2]))
		}
	case 21, 269, 439: // access faccessat faccessat2
		d := int64(cwd)
		mode := uint32(a[1])
		if rq.trap != 21 {
			d = int64(a[0])
			mode = uint32(a[2])
		}
		full, good := pathcall("access", d, ps(0))
		if good {
			c.do = func() (int64, Errno, []byte) {
				_, _, n, e := k.FS.walk(full, true, false)
				if e != 0 {
					return -1, e, nil
				}
				if n == nil {
					return -1, ENOENT, nil
				}
				for _, b := range []uint32{4, 2, 1} {
					if mode&b != 0 && !n.may(b) {
						return -1, EACCES, nil
					}
				}
				return 0, 0, nil
			}
		}
	case 280, 235, 132: // utimensat utimes utime
		_, good := pathcall("utimes", cwd, ps(0))
		if good {
			c.do = ok(0)
		}
	case 217: // getdents64
		f := fdcall("getdents")
		if f == nil {
			return c
		}
		c.do = func() (int64, Errno, []byte) {
			if f.n == nil || f.n.typ() != S_IFDIR {
				return -1, ENOTDIR, nil
			}
			if f.dirDone {
				return 0, 0, nil
			}
			f.dirDone = true
			var b []byte
			for i, name := range sortedKeys(f.n.Entries) {
				n := f.n.Entries[name]
				l := (19 + len(name) + 1 + 7) &^ 7
				ent := make([]byte, l)
				for j := 0; j < 8; j++ {
					ent[j] = byte(uint64(n.ID) >> (8 * j))
					ent[8+j] = byte(uint64(i+1) >> (8 * j))
				}
				ent[16], ent[17] = byte(l), byte(l>>8)
				ent[18] = byte(n.Mode >> 12 & 15)
				copy(ent[19:], name)
				if uint64(len(b)+l) > a[2] {
					break
				}
				b = append(b, ent...)
			}
			return int64(len(b)), 0, b
		}
	case 79: // getcwd
		c.class, c.role = "getcwd", "cwd"
		c.do = func() (int64, Errno, []byte) { return 3, 0, []byte("/w\x00") }
	case 72: // fcntl
		f := fdcall("fcntl")
		if f == nil {
			return c
		}
		c.do = func() (int64, Errno, []byte) {
			switch a[1] {
			case 0, 1030:
				if k.full(p) {
					return -1, EMFILE, nil
				}
				k.dup(f)
				return int64(p.newFD(f, max(firstFD, int(a[2])))), 0, nil
			case 3:
				return int64(f.flags), 0, nil
			}
			return 0, 0, nil
		}
	case 32: // dup
		f := fdcall("dup")
		if f == nil {
			return c
		}
		c.do = func() (int64, Errno, []byte) {
			if k.full(p) {
				return -1, EMFILE, nil
			}
			k.dup(f)
			return int64(p.newFD(f, firstFD)), 0, nil
		}
	case 33, 292: // dup2 dup3
		f := fdcall("dup")
		if f == nil {
			return c
		}
		c.do = func() (int64, Errno, []byte) {
			k.dup(f)
			p.fds[int(a[1])] = f
			return int64(a[1]), 0, nil
		}
	case 22, 293: // pipe pipe2
		c.class, c.role = "pipe", "pipe"
		c.do = func() (int64, Errno, []byte) {
			pp := &pipe{writers: 1, readers: 1}
			r := p.newFD(&openFile{path: "pipe", std: -1, pipe: pp}, firstFD)
			w := p.newFD(&openFile{path: "pipe", std: -1, pipe: pp, pipeW: true, flags: 1}, firstFD)
			return 0, 0, []byte{byte(r), byte(r >> 8), byte(r >> 16), 0, byte(w), byte(w >> 8), byte(w >> 16), 0}
		}
	case 16: // ioctl
		fdcall("ioctl")
		c.do = fail(ENOTTY)
	case 326, 40, 275, 276: // copy_file_range sendfile splice tee
		c.class, c.role = "copyrange", "-"
		c.do = fail(EINVAL)
	case 39, 110: // getpid getppid
		c.class, c.role = "getpid", "-"
		c.do = ok(int64(k.pid0 + p.idx))
	case 186:
		c.class, c.role = "gettid", "-"
		c.do = ok(int64(k.pid0 + p.idx))
	case 102, 104, 107, 108:
		c.class, c.role = "getuid", "-"
		c.do = ok(1000)
	case 95: // umask
		c.class, c.role = "umask", "-"
		c.do = func() (int64, Errno, []byte) {
			old := p.umask
			p.umask = uint32(a[0]) & 0o777
			return int64(old), 0, nil
		}
	case 62, 200, 234: // kill tkill tgkill
		c.class = "kill"
		pid, sig := int(int32(a[0])), int(int32(a[1]))
		if rq.trap == 234 {
			pid, sig = int(int32(a[1])), int(int32(a[2]))
		}
		c.onFault = func(e Errno) { p.res.Signals = append(p.res.Signals, Signal{pid, sig, e}) }
		c.role = fmt.Sprintf("pid%d", pid)
		c.off = sig
		c.do = func() (int64, Errno, []byte) {
			e := Errno(0)
			t := k.table[pid]
			switch {
			case sig < 0 || sig > 64:
				e = EINVAL
			case pid <= 0:
			case t == nil || t.Gone:
				e = ESRCH
			case t.Other:
				e = EPERM
			}
			p.res.Signals = append(p.res.Signals, Signal{pid, sig, e})
			if e != 0 {
				return -1, e, nil
			}
			return 0, 0, nil
		}
	case 302: // prlimit64
		c.class, c.role = "prlimit", "-"
		c.do = func() (int64, Errno, []byte) {
			if a[3] == 0 {
				return 0, 0, nil
			}
			b := make([]byte, 16)
			n := k.sc.MaxFDs
			if n == 0 {
				n = 1024
			}
			b[0], b[1], b[8], b[9] = byte(n), byte(n>>8), byte(n), byte(n>>8)
			return 0, 0, b
		}
	case 97:
		c.class, c.role = "getrlimit", "-"
		c.do = func() (int64, Errno, []byte) {
			b := make([]byte, 16)
			n := k.sc.MaxFDs
			if n == 0 {
				n = 1024
			}
			b[0], b[1], b[8], b[9] = byte(n), byte(n>>8), byte(n), byte(n>>8)
			return 0, 0, b
		}
	case 160:
		c.class, c.role = "setrlimit", "-"
		c.do = ok(0)
	case 318: // getrandom
		c.class, c.role = "getrandom", "-"
		c.do = func() (int64, Errno, []byte) {
			r := NewRng(Mix(k.sc.MapSeed, uint64(p.idx), uint64(p.calls)))
			b := make([]byte, a[1])
			for i := range b {
				b[i] = byte(r.U64())
			}
			return int64(len(b)), 0, b
		}
	case 73: // flock
		f := fdcall("flock")
		if f == nil {
			return c
		}
		c.do = func() (int64, Errno, []byte) {
			if f.n == nil {
				return 0, 0, nil
			}
			if k.locked(p, f, a[1]) {
				return -1, EAGAIN, nil
			}
			l := f.n.locks[:0:0]
			for _, x := range f.n.locks {
				if x.f != f && x.held() {
					l = append(l, x)
				}
			}
			if a[1]&3 != 0 {
				l = append(l, flock{f, p, a[1]&2 != 0})
			}
			f.n.locks = l
			return 0, 0, nil
		}
	case 63: // uname
		c.class, c.role = "uname", "-"
		c.do = func() (int64, Errno, []byte) {
			b := make([]byte, 65*6)
			for i, s := range []string{"Linux", "sim", "6.1.0", "#1", "x86_64", ""} {
				copy(b[65*i:], s)
			}
			return 0, 0, b
		}
	case 137, 138: // statfs fstatfs
		c.class, c.role = "statfs", "-"
		c.do = func() (int64, Errno, []byte) { return 0, 0, make([]byte, 120) }
	case 61, 247:
		c.class, c.role = "wait", "-"
		c.do = fail(ECHILD)
	default:
		c.class, c.role = fmt.Sprintf("sys%d", rq.trap), "-"
		k.res.Unsupported[c.class]++
		c.do = fail(ENOSYS)
	}
	return c
}

// held says whether somebody still has the lock: it ends with the last
// descriptor of its open file.
func (l *flock) held() bool {
	if l.p.done {
		return false
	}
	for _, f := range l.p.fds {
		if f == l.f {
			return true
		}
	}
	return false
}

// locked says whether a flock conflicts with what others hold.
func (k *Kernel) locked(p *proc, f *openFile, op uint64) bool {
	if f.n == nil || op&3 == 0 {
		return false
	}
	for _, l := range f.n.locks {
		if l.f != f && (l.ex || op&2 != 0) && l.held() {
			k.note("lock-contended")
			return true
		}
	}
	return false
}

// blocked says whether a process waits for a lock.
func (k *Kernel) blocked(p *proc) bool {
	rq := &p.req
	if rq.kind != 1 || rq.trap != 73 || rq.a[1]&4 != 0 {
		return false
	}
	f := p.fds[int(int32(rq.a[0]))]
	return f != nil && k.locked(p, f, rq.a[1])
}

func (k *Kernel) dup(f *openFile) {
	if f.pipe != nil {
		if f.pipeW {
			f.pipe.writers++
		} else {
			f.pipe.readers++
		}
	}
}

func (fs *FS) all() []*Inode {
	seen := map[*Inode]bool{}
	var out []*Inode
	var rec func(n *Inode)
	rec = func(n *Inode) {
		if seen[n] {
			return
		}
		seen[n] = true
		out = append(out, n)
		for _, name := range sortedKeys(n.Entries) {
			rec(n.Entries[name])
		}
	}
	rec(fs.Root)
	return out
}

func (k *Kernel) stat(p *proc, full string, follow bool) (int64, Errno, []byte) {
	if f := p.devFD(full); f != nil && follow {
		if f.n != nil {
			return 0, 0, stat(f.n)
		}
		return 0, 0, stat(streamInode[max(f.std, 0)])
	}
	_, _, n, e := k.FS.walk(full, follow, false)
	if e != 0 {
		return -1, e, nil
	}
	if n == nil {
		return -1, ENOENT, nil
	}
	return 0, 0, stat(n)
}

func chown(n *Inode, uid, gid int32) (int64, Errno, []byte) {
	own := int32(1000)
	if n.Foreign {
		own = 1001
	}
	if (uid == -1 || uid == own) && (gid == -1 || gid == own) && !n.Foreign {
		return 0, 0, nil
	}
	return -1, EPERM, nil
}

func (k *Kernel) chmod(n *Inode, mode uint32) (int64, Errno, []byte) {
	if n.Foreign {
		return -1, EPERM, nil
	}
	n.Mode = n.Mode&S_IFMT | mode&0o7777
	k.gen++
	return 0, 0, nil
}

func (k *Kernel) truncate(n *Inode, size int64) (int64, Errno, []byte) {
	if size < 0 {
		return -1, EINVAL, nil
	}
	if size > 64<<20 {
		return -1, EFBIG, nil
	}
	for int64(len(n.Data)) < size {
		n.Data = append(n.Data, 0)
	}
	n.Data = n.Data[:size]
	k.FS.touch(n)
	k.gen++
	return 0, 0, nil
}

func (p *proc) devFD(full string) *openFile {
	var fd int
	switch {
	case full == "/dev/stdin":
		fd = 0
	case full == "/dev/stdout":
		fd = 1
	case full == "/dev/stderr":
		fd = 2
	case strings.HasPrefix(full, "/dev/fd/"):
		fmt.Sscanf(full[8:], "%d", &fd)
	case strings.HasPrefix(full, "/proc/self/fd/"):
		fmt.Sscanf(full[14:], "%d", &fd)
	default:
		return nil
	}
	return p.fds[fd]
}

func (k *Kernel) open(p *proc, c *call, dirfd int64, path string, flags int, mode uint32) {
	c.class = "open"
	full, e := p.at(dirfd, path)
	c.role = full
	c.off = flags & (3 | oCREAT | oEXCL | oTRUNC | oAPPEND)
	if e != 0 {
		c.role = path
		c.do = fail(e)
		return
	}
	c.path = full
	c.do = func() (int64, Errno, []byte) {
		if k.full(p) {
			return -1, EMFILE, nil
		}
		if f := p.devFD(full); f != nil {
			k.dup(f)
			return int64(p.newFD(f, firstFD)), 0, nil
		}
		if flags&oTMPFILE == oTMPFILE {
			return -1, ENOTSUP, nil
		}
		excl := flags&oCREAT != 0 && flags&oEXCL != 0
		dir, name, n, e := k.FS.walk(full, !excl && flags&oNOFOLLOW == 0, false)
		if e != 0 {
			return -1, e, nil
		}
		if n == nil {
			if flags&oCREAT == 0 {
				return -1, ENOENT, nil
			}
			if strings.HasSuffix(full, "/") {
				return -1, EISDIR, nil
			}
			if !dir.may(2) || !dir.may(1) {
				return -1, EACCES, nil
			}
			if k.quota && k.FS.Quota <= 0 {
				return -1, ENOSPC, nil
			}
			n = k.FS.newInode(S_IFREG | mode&^p.umask&0o7777)
			k.FS.link(dir, name, n)
			k.gen++
			return int64(p.newFD(&openFile{n: n, path: full, flags: flags, std: -1}, firstFD)), 0, nil
		}
		if excl {
			return -1, EEXIST, nil
		}
		switch n.typ() {
		case S_IFLNK:
			return -1, ELOOP, nil
		case S_IFDIR:
			if flags&3 != 0 || flags&oCREAT != 0 {
				return -1, EISDIR, nil
			}
		case S_IFSOCK:
			return -1, ENXIO, nil
		}
		if flags&oDIRECTORY != 0 && n.typ() != S_IFDIR {
			return -1, ENOTDIR, nil
		}
		acc := flags & 3
		if (acc == 0 || acc == oRDWR) && !n.may(4) {
			return -1, EACCES, nil
		}
		if (acc == oWRONLY || acc == oRDWR) && !n.may(2) {
			return -1, EACCES, nil
		}
		if flags&oTRUNC != 0 && acc != 0 && n.typ() == S_IFREG {
			k.truncate(n, 0)
		}
		return int64(p.newFD(&openFile{n: n, path: full, flags: flags, std: -1}, firstFD)), 0, nil
	}
}

func (k *Kernel) rename(from, to string, flags uint64) (int64, Errno, []byte) {
	d1, n1, a, e := k.FS.walk(from, false, false)
	if e != 0 {
		return -1, e, nil
	}
	if a == nil {
		return -1, ENOENT, nil
	}
	d2, n2, b, e := k.FS.walk(to, false, false)
	if e != 0 {
		return -1, e, nil
	}
	if n1 == "." || n2 == "." || n1 == "" || n2 == "" {
		return -1, EBUSY, nil
	}
	if !d1.may(2) || !d2.may(2) {
		return -1, EACCES, nil
	}
	if flags == 1 && b != nil {
		return -1, EEXIST, nil
	}
	if flags > 1 {
		return -1, EINVAL, nil
	}
	if a == b {
		return 0, 0, nil
	}
	if b != nil {
		if b.typ() == S_IFDIR && a.typ() != S_IFDIR {
			return -1, EISDIR, nil
		}
		if b.typ() != S_IFDIR && a.typ() == S_IFDIR {
			return -1, ENOTDIR, nil
		}
		if b.typ() == S_IFDIR && len(b.Entries) > 0 {
			return -1, ENOTEMPTY, nil
		}
	}
	k.FS.rename(d1, n1, d2, n2)
	k.gen++
	return 0, 0, nil
}

func (k *Kernel) unlink(full string, rmdir bool) (int64, Errno, []byte) {
	dir, name, n, e := k.FS.walk(full, false, false)
	if e != 0 {
		return -1, e, nil
	}
	if n == nil {
		return -1, ENOENT, nil
	}
	if name == "." || name == "" {
		return -1, EINVAL, nil
	}
	if rmdir != (n.typ() == S_IFDIR) {
		if rmdir {
			return -1, ENOTDIR, nil
		}
		return -1, EISDIR, nil
	}
	if !dir.may(2) {
		return -1, EACCES, nil
	}
	if rmdir && len(n.Entries) > 0 {
		return -1, ENOTEMPTY, nil
	}
	k.FS.unlink(dir, name)
	k.gen++
	return 0, 0, nil
}

func (k *Kernel) read(p *proc, c *call, f *openFile, limit int, pos int64) (int64, Errno, []byte) {
	if limit == 0 {
		return 0, 0, nil
	}
	if f.pipe != nil {
		if f.pipeW {
			return -1, EBADF, nil
		}
		if len(f.pipe.buf) == 0 {
			if f.pipe.writers > 0 {
				c.blk = true
			}
			return 0, 0, nil
		}
		n := min(limit, len(f.pipe.buf))
		out := append([]byte(nil), f.pipe.buf[:n]...)
		f.pipe.buf = f.pipe.buf[n:]
		return int64(n), 0, out
	}
	if f.std == 1 || f.std == 2 {
		return -1, EBADF, nil
	}
	if f.std == 0 && p.stdinN == nil {
		if pos >= 0 {
			return -1, ESPIPE, nil
		}
		for p.chunk < len(p.spec.Stdin) && p.chunkOf >= len(p.spec.Stdin[p.chunk].Data) {
			p.chunk++
			p.chunkOf = 0
		}
		if p.chunk >= len(p.spec.Stdin) {
			switch p.spec.StdinEnd {
			case "":
				return 0, 0, nil
			case "stall":
				c.blk = true
				return 0, 0, nil
			default:
				e := ParseErrno(p.spec.StdinEnd)
				k.note(e.String() + "@stdin")
				p.res.ReadFailed = append(p.res.ReadFailed, "stdin")
				return -1, e, nil
			}
		}
		ch := &p.spec.Stdin[p.chunk]
		if ch.Gate && p.relGate <= p.chunk {
			c.blk = true
			return 0, 0, nil
		}
		n := min(limit, len(ch.Data)-p.chunkOf)
		out := ch.Data[p.chunkOf : p.chunkOf+n]
		p.chunkOf += n
		p.inOff += n
		return int64(n), 0, out
	}
	n := f.n
	if n.typ() == S_IFDIR {
		return -1, EISDIR, nil
	}
	if f.std < 0 && f.flags&3 == oWRONLY {
		return -1, EBADF, nil
	}
	off := f.off
	if pos >= 0 {
		off = pos
	}
	end := int64(len(n.Data))
	for i := range k.bad {
		b := &k.bad[i]
		role := k.fileRole(f)
		if (b.Path == role || abs(b.Path) == role) && b.Errno != 0 {
			if off >= int64(b.At) {
				k.note(b.Errno.String() + "@sector")
				p.res.ReadFailed = append(p.res.ReadFailed, role)
				e := b.Errno
				if b.Once {
					b.Errno = 0
				}
				return -1, e, nil
			}
			end = min(end, int64(b.At))
		}
	}
	if off >= end {
		return 0, 0, nil
	}
	m := min(int64(limit), end-off)
	out := append([]byte(nil), n.Data[off:off+m]...)
	if pos < 0 {
		f.off += m
		if f.std == 0 {
			p.inOff += int(m)
		}
	}
	return m, 0, out
}

func (k *Kernel) write(p *proc, c *call, f *openFile, data []byte, pos int64) (int64, Errno, []byte) {
	if f.pipe != nil {
		if !f.pipeW {
			return -1, EBADF, nil
		}
		if f.pipe.readers == 0 {
			return -1, EPIPE, nil
		}
		f.pipe.buf = append(f.pipe.buf, data...)
		return int64(len(data)), 0, nil
	}
	switch f.std {
	case 0:
		return -1, EBADF, nil
	case 1:
		if l := p.spec.StdoutLimit; l >= 0 {
			room := l - len(p.res.Stdout)
			if room <= 0 && len(data) > 0 {
				p.res.OutLost = true
				k.note(p.spec.StdoutErr.String() + "@stdout")
				return -1, p.spec.StdoutErr, nil
			}
			if len(data) > room {
				k.note("partial-write@stdout")
				p.res.OutFull = true
				data = data[:room]
			}
		}
		p.res.Stdout = append(p.res.Stdout, data...)
		return int64(len(data)), 0, nil
	case 2:
		p.res.Stderr = append(p.res.Stderr, data...)
		return int64(len(data)), 0, nil
	}
	n := f.n
	if f.flags&3 == 0 {
		return -1, EBADF, nil
	}
	if n.typ() == S_IFCHR || n.typ() == S_IFIFO {
		return int64(len(data)), 0, nil
	}
	if n.typ() != S_IFREG {
		return -1, EINVAL, nil
	}
	off := f.off
	if pos >= 0 {
		off = pos
	}
	if f.flags&oAPPEND != 0 {
		off = int64(len(n.Data))
	}
	if k.quota {
		if k.FS.Quota <= 0 && len(data) > 0 {
			k.note("ENOSPC@disk")
			return -1, ENOSPC, nil
		}
		if int64(len(data)) > k.FS.Quota {
			k.note("partial-write@disk")
			data = data[:k.FS.Quota]
		}
		k.FS.Quota -= int64(len(data))
	}
	if off+int64(len(data)) > 64<<20 {
		return -1, EFBIG, nil
	}
	for int64(len(n.Data)) < off {
		n.Data = append(n.Data, 0)
	}
	n.Data = append(n.Data[:off:off], append(append([]byte(nil), data...), tail(n.Data, off+int64(len(data)))...)...)
	if pos < 0 {
		f.off = off + int64(len(data))
	}
	k.FS.touch(n)
	k.gen++
	return int64(len(data)), 0, nil
}

func tail(b []byte, off int64) []byte {
	if off >= int64(len(b)) {
		return nil
	}
	return b[off:]
}

func (k *Kernel) foreign(op *ForeignOp) {
	k.note("foreign-" + op.Op)
	k.gen++
	fs := k.FS
	switch op.Op {
	case "exit":
		if t := k.table[op.N]; t != nil {
			t.Gone = true
		}
		return
	case "quota":
		if op.N < 0 {
			k.quota = false
		} else {
			k.quota = true
			fs.Quota = int64(op.N)
		}
		return
	}
	dir, name := fs.parent(abs(op.Path))
	if dir == nil || name == "" {
		return
	}
	n := dir.Entries[name]
	switch op.Op {
	case "write": // in place
		if n != nil && n.typ() == S_IFREG {
			n.Data = append([]byte(nil), op.Data...)
			fs.touch(n)
			fs.sync(n)
		}
	case "append":
		if n != nil && n.typ() == S_IFREG {
			n.Data = append(append([]byte(nil), n.Data...), op.Data...)
			fs.touch(n)
			fs.sync(n)
		}
	case "truncate":
		if n != nil && n.typ() == S_IFREG && op.N <= len(n.Data) {
			n.Data = n.Data[:op.N:op.N]
			fs.touch(n)
			fs.sync(n)
		}
	case "unlink":
		if n != nil && n.typ() != S_IFDIR {
			fs.unlink(dir, name)
		}
	case "replace": // write a sibling and rename it over, or create
		m := fs.newInode(S_IFREG | 0o644)
		m.Data = append([]byte(nil), op.Data...)
		fs.sync(m)
		if n != nil && n.typ() == S_IFDIR {
			return
		}
		if n != nil {
			n.Nlink--
		}
		fs.link(dir, name, m)
	case "chmod":
		if n != nil {
			n.Mode = n.Mode&S_IFMT | uint32(op.N)&0o7777
		}
	case "mkdir":
		if n == nil {
			fs.link(dir, name, fs.newInode(S_IFDIR|0o777))
		}
	case "fifo":
		if n == nil {
			fs.link(dir, name, fs.newInode(S_IFIFO|0o666))
		}
	case "symlink":
		if n == nil {
			m := fs.newInode(S_IFLNK | 0o777)
			m.Target = op.Path2
			fs.link(dir, name, m)
		}
	case "rename":
		d2, n2 := fs.parent(abs(op.Path2))
		if n != nil && d2 != nil && n2 != "" && (d2.Entries[n2] == nil || d2.Entries[n2].typ() != S_IFDIR) && n.typ() != S_IFDIR {
			fs.rename(dir, name, d2, n2)
		}
	}
	fs.syncDir()
}

// ParseErrno turns a name into a number.
func ParseErrno(s string) Errno {
	for e, n := range errnoNames {
		if n == s {
			return e
		}
	}
	return EIO
}

// FDs lists what a process had open at the end.
func (p *proc) openList() []string {
	var out []string
	for fd, f := range p.fds {
		if fd > 2 {
			out = append(out, f.path)
		}
	}
	sort.Strings(out)
	return out
}

var _ = os.Getpid
