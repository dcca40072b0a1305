// Simulator seam in package syscall (build overlay only).

package syscall

var vsimEnabled = vsimInit()

func vsimStart(fd uintptr, seed uint64)

//go:noescape
func vsimSyscall(trap, a1, a2, a3, a4, a5, a6 uintptr) (r1, r2, errno uintptr)

func vsimInit() bool {
	const key = "VSIM="
	for _, e := range runtime_envs() {
		if len(e) > len(key) && e[:len(key)] == key {
			var v [2]uint64
			i := 0
			for _, c := range []byte(e[len(key):]) {
				if c == ',' {
					i++
					continue
				}
				v[i] = v[i]*10 + uint64(c-'0')
			}
			vsimStart(uintptr(v[0]), v[1])
			return true
		}
	}
	return false
}

//go:uintptrkeepalive
//go:nosplit
func vsimNoError(trap, a1, a2, a3 uintptr) (r1, r2 uintptr) {
	if vsimEnabled {
		r1, r2, _ = vsimSyscall(trap, a1, a2, a3, 0, 0, 0)
		return
	}
	return rawSyscallNoError(trap, a1, a2, a3)
}
