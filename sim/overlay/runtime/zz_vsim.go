// Simulator seam inside the Go runtime (build overlay, never part of a shipped
// binary).  Every system call made through package syscall, every choice among
// runnable goroutines and every preemption point at a channel operation is
// turned into one request/response exchange with the simulator, which runs in
// the parent process and owns the only pseudo-random generator.
//
// The exchange happens on the system stack with raw system calls, so that the
// P is never released: while the simulator thinks, nothing else in this
// process runs.

package runtime

import (
	"internal/runtime/syscall/linux"
	"unsafe"
)

var (
	vsimOn  bool
	vsimFD  uintptr
	vsimRnd uint64

	// The simulated clock: one microsecond per kernel event, and a jump to the
	// next timer when nothing is runnable.
	vsimClock int64 = 1000000
)

const vsimEpoch = 1600000000000000000

const (
	vsimKindSyscall = 1
	vsimKindChoose  = 2
	vsimKindYield   = 3

	vsimFlagYield = 1
	vsimFlagBlock = 2
)

type vsimReq struct {
	kind uint64
	n    uint64
	trap uint64
	a    [6]uint64
}

type vsimResp struct {
	flags uint64
	r1    uint64
	r2    uint64
	errno uint64
	n     uint64
}

var vsimReqBuf vsimReq
var vsimRespBuf vsimResp

// vsimStart switches the seam on.  Called once, from package syscall's
// initialisation.
//
//go:linkname vsimStart syscall.vsimStart
func vsimStart(fd uintptr, seed uint64) {
	vsimFD = fd
	vsimRnd = seed
	vsimOn = true
}

//go:nosplit
func vsimRand() uint64 {
	vsimRnd += 0x9e3779b97f4a7c15
	z := vsimRnd
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

func vsimDie() {
	// The simulator went away: leave without any further effect.
	linux.Syscall6(231 /* exit_group */, 99, 0, 0, 0, 0, 0)
}

func vsimWriteAll(p unsafe.Pointer, n uintptr) {
	for n > 0 {
		r, _, e := linux.Syscall6(1, vsimFD, uintptr(p), n, 0, 0, 0)
		if e == 4 {
			continue
		}
		if e != 0 || r == 0 {
			vsimDie()
		}
		p = unsafe.Pointer(uintptr(p) + r)
		n -= r
	}
}

func vsimReadAll(p unsafe.Pointer, n uintptr) {
	for n > 0 {
		r, _, e := linux.Syscall6(0, vsimFD, uintptr(p), n, 0, 0, 0)
		if e == 4 {
			continue
		}
		if e != 0 || r == 0 {
			vsimDie()
		}
		p = unsafe.Pointer(uintptr(p) + r)
		n -= r
	}
}

type vsimIovec struct {
	base uintptr
	len  uintptr
}

func vsimCStrLen(p uintptr) uintptr {
	n := uintptr(0)
	for *(*byte)(unsafe.Pointer(p + n)) != 0 {
		n++
	}
	return n
}

// vsimPaths returns which arguments are NUL-terminated paths (-1: none).
func vsimPaths(trap uintptr) (int, int) {
	switch trap {
	case 257, 262, 263, 258, 267, 269, 268, 260, 280, 259, 439, 452, 332, 437:
		// openat newfstatat unlinkat mkdirat readlinkat faccessat fchmodat
		// fchownat utimensat mknodat faccessat2 fchmodat2 statx openat2
		return 1, -1
	case 264, 316, 265: // renameat renameat2 linkat
		return 1, 3
	case 266: // symlinkat
		return 0, 2
	case 2, 4, 6, 21, 76, 80, 83, 84, 85, 87, 89, 90, 92, 94, 132, 133, 137, 161, 235, 191, 192, 188, 189:
		// open stat lstat access truncate chdir mkdir rmdir creat unlink
		// readlink chmod chown lchown utime mknod statfs chroot utimes
		// getxattr lgetxattr setxattr lsetxattr
		return 0, -1
	case 82, 86, 88: // rename link symlink
		return 0, 1
	}
	return -1, -1
}

// vsimOut returns which argument points to memory the kernel fills in (-1: none).
func vsimOut(trap uintptr) int {
	switch trap {
	case 0, 17, 5, 217, 4, 6, 89, 137, 138: // read pread64 fstat getdents64 stat lstat readlink statfs fstatfs
		return 1
	case 262, 267, 16: // newfstatat readlinkat ioctl
		return 2
	case 302, 332: // prlimit64 (old limit) statx
		if trap == 332 {
			return 4
		}
		return 3
	case 79, 293, 22, 318, 63: // getcwd pipe2 pipe getrandom uname
		return 0
	case 61: // wait4 (status)
		return 1
	case 247: // waitid
		return 2
	case 97: // getrlimit
		return 1
	}
	return -1
}

func vsimSyscallOnce(trap uintptr, a *[6]uintptr) (flags, r1, r2, errno uintptr) {
	rq := &vsimReqBuf
	rq.kind = vsimKindSyscall
	rq.trap = uint64(trap)
	for i := range a {
		rq.a[i] = uint64(a[i])
	}
	p1, p2 := vsimPaths(trap)
	var l1, l2 uintptr
	rq.n = 0
	if p1 >= 0 && a[p1] != 0 {
		l1 = vsimCStrLen(a[p1]) + 1
	}
	if p2 >= 0 && a[p2] != 0 {
		l2 = vsimCStrLen(a[p2]) + 1
	}
	rq.n = uint64(l1 + l2)
	wr := trap == 1 || trap == 18 // write pwrite64
	if wr {
		rq.n = uint64(a[2])
	}
	wv := trap == 20 || trap == 296 // writev pwritev
	if wv {
		rq.n = 0
		for i := uintptr(0); i < a[2]; i++ {
			iov := (*vsimIovec)(unsafe.Pointer(a[1] + i*16))
			rq.n += uint64(iov.len)
		}
	}
	rv := trap == 19 || trap == 295 // readv preadv
	if rv {
		tot := uintptr(0)
		for i := uintptr(0); i < a[2]; i++ {
			iov := (*vsimIovec)(unsafe.Pointer(a[1] + i*16))
			tot += iov.len
		}
		rq.a[2] = uint64(tot)
	}
	vsimWriteAll(unsafe.Pointer(rq), unsafe.Sizeof(*rq))
	if l1 > 0 {
		vsimWriteAll(unsafe.Pointer(a[p1]), l1)
	}
	if l2 > 0 {
		vsimWriteAll(unsafe.Pointer(a[p2]), l2)
	}
	if wr {
		vsimWriteAll(unsafe.Pointer(a[1]), a[2])
	}
	if wv {
		for i := uintptr(0); i < a[2]; i++ {
			iov := (*vsimIovec)(unsafe.Pointer(a[1] + i*16))
			vsimWriteAll(unsafe.Pointer(iov.base), iov.len)
		}
	}
	rs := &vsimRespBuf
	vsimReadAll(unsafe.Pointer(rs), unsafe.Sizeof(*rs))
	vsimClock += 1000
	flags, r1, r2, errno = uintptr(rs.flags), uintptr(rs.r1), uintptr(rs.r2), uintptr(rs.errno)
	if n := uintptr(rs.n); n > 0 {
		if rv {
			for i := uintptr(0); i < a[2] && n > 0; i++ {
				iov := (*vsimIovec)(unsafe.Pointer(a[1] + i*16))
				m := min(n, iov.len)
				vsimReadAll(unsafe.Pointer(iov.base), m)
				n -= m
			}
		} else {
			o := vsimOut(trap)
			if o < 0 || a[o] == 0 {
				vsimDie()
			}
			vsimReadAll(unsafe.Pointer(a[o]), n)
		}
	}
	return
}

// vsimSyscall is the replacement for the raw system call.  It must not grow
// the goroutine stack: the arguments may point into it.
//
//go:nosplit
//go:linkname vsimSyscall syscall.vsimSyscall
func vsimSyscall(trap, a1, a2, a3, a4, a5, a6 uintptr) (r1, r2, errno uintptr) {
	jumps := 0
	for {
		var flags uintptr
		systemstack(func() {
			a := [6]uintptr{a1, a2, a3, a4, a5, a6}
			flags, r1, r2, errno = vsimSyscallOnce(trap, &a)
		})
		if flags&vsimFlagYield != 0 {
			mcall(gosched_m)
		}
		if flags&vsimFlagBlock == 0 {
			return
		}
		// Before the process counts as waiting its timers go off.  (A ticker
		// never ends, hence the bound.)
		if jumps < 4 {
			jump := false
			systemstack(func() {
				jump = vsimJump()
			})
			if jump {
				jumps++
				mcall(gosched_m)
			}
		}
	}
}

// vsimJump advances the clock to the next timer if nothing else is runnable.
func vsimJump() bool {
	pp := getg().m.p.ptr()
	if pp == nil || pp.runqhead != pp.runqtail {
		return false
	}
	w := pp.timers.wakeTime()
	if w == 0 {
		return false
	}
	if w > vsimClock {
		vsimClock = w
	}
	return true
}

// vsimChoose asks the simulator to pick one of n runnable goroutines.
// Runs on the system stack.
func vsimChoose(n uint32) uint32 {
	rq := &vsimReqBuf
	*rq = vsimReq{kind: vsimKindChoose}
	rq.a[0] = uint64(n)
	vsimWriteAll(unsafe.Pointer(rq), unsafe.Sizeof(*rq))
	rs := &vsimRespBuf
	vsimReadAll(unsafe.Pointer(rs), unsafe.Sizeof(*rs))
	if rs.r1 >= uint64(n) {
		vsimDie()
	}
	return uint32(rs.r1)
}

//go:linkname vsimSyncYield internal/sync.vsimYield
func vsimSyncYield() {
	if vsimOn {
		vsimYieldPoint()
	}
}

// vsimYieldPoint lets the simulator preempt the running goroutine at a
// channel operation, go statement or lock when another goroutine could run.
//
//go:nosplit
func vsimYieldPoint() {
	gp := getg()
	mp := gp.m
	if gp != mp.curg || mp.locks != 0 || mp.p == 0 {
		return
	}
	pp := mp.p.ptr()
	if pp.runqhead == pp.runqtail {
		return
	}
	var y bool
	systemstack(func() {
		rq := &vsimReqBuf
		*rq = vsimReq{kind: vsimKindYield}
		vsimWriteAll(unsafe.Pointer(rq), unsafe.Sizeof(*rq))
		rs := &vsimRespBuf
		vsimReadAll(unsafe.Pointer(rs), unsafe.Sizeof(*rs))
		y = rs.flags&vsimFlagYield != 0
	})
	if y {
		mcall(gosched_m)
	}
}
