package kernel

import (
	"bytes"
	"sort"
	"strings"
)

// File types (the S_IFMT bits).
const (
	S_IFMT   = 0o170000
	S_IFSOCK = 0o140000
	S_IFLNK  = 0o120000
	S_IFREG  = 0o100000
	S_IFBLK  = 0o060000
	S_IFDIR  = 0o040000
	S_IFCHR  = 0o020000
	S_IFIFO  = 0o010000
)

// Errno values used by the simulated kernel.
type Errno uint64

const (
	EPERM        Errno = 1
	ENOENT       Errno = 2
	ESRCH        Errno = 3
	EINTR        Errno = 4
	EIO          Errno = 5
	ENXIO        Errno = 6
	EBADF        Errno = 9
	ECHILD       Errno = 10
	EAGAIN       Errno = 11
	ENOMEM       Errno = 12
	EACCES       Errno = 13
	EFAULT       Errno = 14
	EBUSY        Errno = 16
	EEXIST       Errno = 17
	EXDEV        Errno = 18
	ENOTDIR      Errno = 20
	EISDIR       Errno = 21
	EINVAL       Errno = 22
	ENFILE       Errno = 23
	EMFILE       Errno = 24
	ENOTTY       Errno = 25
	EFBIG        Errno = 27
	ENOSPC       Errno = 28
	ESPIPE       Errno = 29
	EROFS        Errno = 30
	EPIPE        Errno = 32
	ENAMETOOLONG Errno = 36
	ENOSYS       Errno = 38
	ENOTEMPTY    Errno = 39
	ELOOP        Errno = 40
	ENODATA      Errno = 61
	ENOTSUP      Errno = 95
	ESTALE       Errno = 116
	EDQUOT       Errno = 122
)

var errnoNames = map[Errno]string{EPERM: "EPERM", ENOENT: "ENOENT", ESRCH: "ESRCH", EINTR: "EINTR", EIO: "EIO", ENXIO: "ENXIO", EBADF: "EBADF", ECHILD: "ECHILD", EAGAIN: "EAGAIN", ENOMEM: "ENOMEM", EACCES: "EACCES", EFAULT: "EFAULT", EBUSY: "EBUSY", EEXIST: "EEXIST", EXDEV: "EXDEV", ENOTDIR: "ENOTDIR", EISDIR: "EISDIR", EINVAL: "EINVAL", ENFILE: "ENFILE", EMFILE: "EMFILE", ENOTTY: "ENOTTY", EFBIG: "EFBIG", ENOSPC: "ENOSPC", ESPIPE: "ESPIPE", EROFS: "EROFS", EPIPE: "EPIPE", ENAMETOOLONG: "ENAMETOOLONG", ENOSYS: "ENOSYS", ENOTEMPTY: "ENOTEMPTY", ELOOP: "ELOOP", ENODATA: "ENODATA", ENOTSUP: "ENOTSUP", ESTALE: "ESTALE", EDQUOT: "EDQUOT"}

func (e Errno) String() string {
	if s, ok := errnoNames[e]; ok {
		return s
	}
	return "E" + itoa(int64(e))
}

// Inode of the simulated file system.
type Inode struct {
	ID      int
	Mode    uint32 // type and permission bits
	Data    []byte
	Target  string // symlink
	Entries map[string]*Inode
	Nlink   int
	Foreign bool // owned by another user
	NoSize  bool // like the files of /proc
	Mtime   int64
	locks   []flock

	// Disk model: contents that survive a power loss are Synced or one of the
	// unsynced versions since (possibly torn).
	Synced   []byte
	Versions [][]byte
	GaveUp   bool // a sync failed, and nothing was written since
}

func (n *Inode) typ() uint32 { return n.Mode & S_IFMT }

// epoch is the time at which a run starts.
const epoch = 1600000000 * 1000000000

type flock struct {
	f  *openFile
	p  *proc
	ex bool
}

// FileSpec is one entry of a scenario's initial tree.
type FileSpec struct {
	Path    string `json:"path"`
	Data    Blob   `json:"data,omitempty"`
	Mode    uint32 `json:"mode"`             // permission bits incl. setuid/setgid/sticky
	Type    string `json:"type,omitempty"`   // "" regular, dir, link, fifo, sock, chr, blk
	Target  string `json:"target,omitempty"` // for link
	Foreign bool   `json:"foreign,omitempty"`
	HardTo  string `json:"hard_to,omitempty"` // hard link to an earlier path
	NoSize  bool   `json:"no_size,omitempty"` // reports size 0 whatever it holds, like files of /proc
	Rep     int    `json:"rep,omitempty"`     // the data is repeated so many times
}

type metaOp struct {
	kind string // link (name->inode), unlink, rename
	dir  *Inode
	name string
	node *Inode
	dir2 *Inode // rename: from here
	nam2 string
}

// FS is the simulated file system.
type FS struct {
	Root    *Inode
	nextID  int
	journal []metaOp // namespace operations since the start, in order
	commit  int      // journal entries known to be durable
	root0   map[*Inode]map[string]*Inode
	Quota   int64 // bytes that may still be written to files (-1: unlimited)
	now     func() int64
}

func NewFS(files []FileSpec) *FS {
	fs := &FS{Quota: -1, now: func() int64 { return epoch }}
	fs.Root = fs.newInode(S_IFDIR | 0o755)
	for _, d := range []string{"/w", "/tmp", "/dev", "/root", "/proc"} {
		fs.mk(FileSpec{Path: d, Type: "dir", Mode: 0o777})
	}
	fs.mk(FileSpec{Path: "/dev/null", Type: "chr", Mode: 0o666})
	for _, f := range files {
		fs.mk(f)
	}
	fs.freeze()
	return fs
}

func (fs *FS) newInode(mode uint32) *Inode {
	fs.nextID++
	n := &Inode{ID: fs.nextID, Mode: mode, Nlink: 1, Mtime: fs.now()}
	if mode&S_IFMT == S_IFDIR {
		n.Entries = map[string]*Inode{}
		n.Nlink = 2
	}
	return n
}

func abs(p string) string {
	if !strings.HasPrefix(p, "/") {
		p = "/w/" + p
	}
	return p
}

func (fs *FS) mk(f FileSpec) {
	dir, name := fs.parent(abs(f.Path))
	if dir == nil || name == "" {
		return
	}
	if f.HardTo != "" {
		if n := fs.Peek(f.HardTo, false); n != nil && n.typ() != S_IFDIR {
			n.Nlink++
			dir.Entries[name] = n
		}
		return
	}
	t := uint32(S_IFREG)
	switch f.Type {
	case "dir":
		t = S_IFDIR
	case "link":
		t = S_IFLNK
	case "fifo":
		t = S_IFIFO
	case "sock":
		t = S_IFSOCK
	case "chr":
		t = S_IFCHR
	case "blk":
		t = S_IFBLK
	}
	n := fs.newInode(t | f.Mode&0o7777)
	n.Data = append([]byte(nil), f.Data...)
	if f.Rep > 1 {
		n.Data = bytes.Repeat(f.Data, f.Rep)
	}
	n.NoSize = f.NoSize
	n.Target = f.Target
	n.Foreign = f.Foreign
	// from just now to years ago, and a clock that was wrong
	n.Mtime = epoch + []int64{0, 0, -1e9, -50e9, -5000e9, -100000e9, -1e16, -4e17, 3600e9}[HashString(name)%9]
	dir.Entries[name] = n
}

// parent finds the directory of an absolute path without permission checks or
// following a final symlink; used by the harness only.
func (fs *FS) parent(p string) (*Inode, string) {
	parts := split(p)
	if len(parts) == 0 {
		return nil, ""
	}
	d := fs.Root
	for _, c := range parts[:len(parts)-1] {
		n := d.Entries[c]
		if n == nil {
			n = fs.newInode(S_IFDIR | 0o777)
			d.Entries[c] = n
		}
		if n.typ() != S_IFDIR {
			return nil, ""
		}
		d = n
	}
	return d, parts[len(parts)-1]
}

func split(p string) []string {
	var out []string
	for _, c := range strings.Split(p, "/") {
		if c != "" && c != "." {
			out = append(out, c)
		}
	}
	return out
}

// freeze makes the current state the durable one.
func (fs *FS) freeze() {
	fs.root0 = map[*Inode]map[string]*Inode{}
	seen := map[*Inode]bool{}
	var rec func(n *Inode)
	rec = func(n *Inode) {
		if seen[n] {
			return
		}
		seen[n] = true
		n.Synced = append([]byte(nil), n.Data...)
		n.Versions = nil
		if n.typ() == S_IFDIR {
			m := map[string]*Inode{}
			for k, v := range n.Entries {
				m[k] = v
				rec(v)
			}
			fs.root0[n] = m
		}
	}
	rec(fs.Root)
	fs.journal = nil
	fs.commit = 0
}

func (fs *FS) touch(n *Inode) {
	n.Mtime = fs.now()
	n.GaveUp = false
	n.Versions = append(n.Versions, append([]byte(nil), n.Data...))
	if len(n.Versions) > 8 && len(n.Versions)*len(n.Data) > 1<<22 {
		// a big file written in many pieces: every second version will do
		var l [][]byte
		for i := len(n.Versions) % 2; i < len(n.Versions); i++ {
			if i%2 == len(n.Versions)%2 || i == len(n.Versions)-1 {
				l = append(l, n.Versions[i])
			}
		}
		n.Versions = l
	}
}

func (fs *FS) sync(n *Inode) {
	n.Synced = append([]byte(nil), n.Data...)
	n.Versions = nil
}

func (fs *FS) syncDir() { fs.commit = len(fs.journal) }

func (fs *FS) link(dir *Inode, name string, n *Inode) {
	dir.Entries[name] = n
	fs.journal = append(fs.journal, metaOp{kind: "link", dir: dir, name: name, node: n})
}

func (fs *FS) unlink(dir *Inode, name string) {
	n := dir.Entries[name]
	delete(dir.Entries, name)
	if n != nil {
		n.Nlink--
	}
	fs.journal = append(fs.journal, metaOp{kind: "unlink", dir: dir, name: name})
}

func (fs *FS) rename(d1 *Inode, n1 string, d2 *Inode, n2 string) {
	n := d1.Entries[n1]
	if old := d2.Entries[n2]; old != nil {
		old.Nlink--
	}
	delete(d1.Entries, n1)
	d2.Entries[n2] = n
	fs.journal = append(fs.journal, metaOp{kind: "rename", dir: d2, name: n2, node: n, dir2: d1, nam2: n1})
}

// Snapshot maps every path to what is there.
type Entry struct {
	Mode   uint32
	Data   string
	Target string
	ID     int
	Other  bool // belongs to another user
}

func (fs *FS) Snapshot() map[string]Entry { return fs.SnapshotLike(nil) }

// SnapshotLike shares contents with an earlier snapshot.
func (fs *FS) SnapshotLike(old map[string]Entry) map[string]Entry {
	out := map[string]Entry{}
	var rec func(p string, n *Inode, depth int)
	rec = func(p string, n *Inode, depth int) {
		d := old[p].Data
		if d != string(n.Data) {
			d = string(n.Data)
		}
		out[p] = Entry{Mode: n.Mode, Data: d, Target: n.Target, ID: n.ID, Other: n.Foreign}
		if n.typ() == S_IFDIR && depth < 12 {
			for k, v := range n.Entries {
				rec(strings.TrimSuffix(p, "/")+"/"+k, v, depth+1)
			}
		}
	}
	rec("/", fs.Root, 0)
	return out
}

// Peek resolves a path for the harness (no permission checks).
func (fs *FS) Peek(p string, follow bool) *Inode {
	_, _, n, e := fs.walk(abs(p), follow, true)
	if e != 0 {
		return nil
	}
	return n
}

// Stat tells what the simulated user finds at a path: type and permission
// bits, size, and the error.
func (fs *FS) Stat(p string, follow bool) (mode uint32, size int, e Errno) {
	if p == "" {
		return 0, 0, ENOENT
	}
	_, _, n, e := fs.walk(abs(p), follow, false)
	if e != 0 {
		return 0, 0, e
	}
	if n == nil {
		return 0, 0, ENOENT
	}
	size = len(n.Data)
	switch n.typ() {
	case S_IFLNK:
		size = len(n.Target)
	case S_IFDIR:
		size = 4096
	}
	return n.Mode, size, 0
}

// PowerLoss returns what a path holds after a power loss now.  choose(n)
// picks among n equally possible outcomes.  missing reports that the name does
// not exist.
func (fs *FS) PowerLoss(p string, choose func(n int) int) (data []byte, missing bool) {
	// any prefix of the namespace journal that includes the durable part
	k := fs.commit + choose(len(fs.journal)-fs.commit+1)
	dirs := map[*Inode]map[string]*Inode{}
	for d, m := range fs.root0 {
		c := map[string]*Inode{}
		for a, b := range m {
			c[a] = b
		}
		dirs[d] = c
	}
	get := func(d *Inode) map[string]*Inode {
		if dirs[d] == nil {
			dirs[d] = map[string]*Inode{}
		}
		return dirs[d]
	}
	for _, op := range fs.journal[:k] {
		switch op.kind {
		case "link":
			get(op.dir)[op.name] = op.node
		case "unlink":
			delete(get(op.dir), op.name)
		case "rename":
			delete(get(op.dir2), op.nam2)
			get(op.dir)[op.name] = op.node
		}
	}
	n := fs.Root
	for _, c := range split(abs(p)) {
		n = get(n)[c]
		if n == nil {
			return nil, true
		}
	}
	if len(n.Versions) == 0 {
		return append([]byte(nil), n.Synced...), false
	}
	v := choose(len(n.Versions) + 2)
	if v == 0 {
		return append([]byte(nil), n.Synced...), false
	}
	if v == len(n.Versions)+1 { // size reached the disk, data did not
		return make([]byte, len(n.Data)), false
	}
	img := n.Versions[v-1]
	return append([]byte(nil), img[:choose(len(img)+1)]...), false
}

const maxLinks = 40

// walk resolves p.  It returns the parent directory, the final name and the
// inode (nil if the final component does not exist).
func (fs *FS) walk(p string, follow, root bool) (dir *Inode, name string, n *Inode, e Errno) {
	links := 0
	if p == "" {
		return nil, "", nil, ENOENT
	}
	if len(p) >= 4096 {
		return nil, "", nil, ENAMETOOLONG
	}
	stack := []*Inode{fs.Root}
	parts := strings.Split(p, "/")
	// trailing slash: the last component must be a directory
	mustDir := strings.HasSuffix(p, "/")
	var comps []string
	for _, c := range parts {
		if c != "" {
			comps = append(comps, c)
		}
	}
	cur := fs.Root
	dir, name, n = fs.Root, "", fs.Root
	for i := 0; i < len(comps); i++ {
		c := comps[i]
		last := i == len(comps)-1
		if cur.typ() != S_IFDIR {
			return nil, "", nil, ENOTDIR
		}
		if !root && !cur.may(1) {
			return nil, "", nil, EACCES
		}
		if len(c) > 255 {
			return nil, "", nil, ENAMETOOLONG
		}
		if c == "." {
			dir, name, n = cur, ".", cur
			continue
		}
		if c == ".." {
			if len(stack) > 1 {
				stack = stack[:len(stack)-1]
			}
			cur = stack[len(stack)-1]
			dir, name, n = cur, ".", cur
			continue
		}
		x := cur.Entries[c]
		if x == nil {
			if last {
				return cur, c, nil, 0
			}
			return nil, "", nil, ENOENT
		}
		if x.typ() == S_IFLNK && (!last || follow || mustDir) {
			links++
			if links > maxLinks {
				return nil, "", nil, ELOOP
			}
			if x.Target == "" {
				return nil, "", nil, ENOENT
			}
			var tc []string
			for _, t := range strings.Split(x.Target, "/") {
				if t != "" {
					tc = append(tc, t)
				}
			}
			rest := append([]string(nil), comps[i+1:]...)
			comps = append(tc, rest...)
			i = -1
			if strings.HasPrefix(x.Target, "/") {
				stack = []*Inode{fs.Root}
				cur = fs.Root
			}
			dir, name, n = cur, ".", cur
			continue
		}
		dir, name, n = cur, c, x
		if !last || x.typ() == S_IFDIR {
			stack = append(stack, x)
			cur = x
		}
	}
	if mustDir && n != nil && n.typ() != S_IFDIR {
		return nil, "", nil, ENOTDIR
	}
	return dir, name, n, 0
}

// may checks a permission bit (4 read, 2 write, 1 search/execute) for the
// simulated user.
func (n *Inode) may(bit uint32) bool {
	if n.Foreign {
		return n.Mode&bit != 0
	}
	return n.Mode>>6&bit != 0
}

func sortedKeys(m map[string]*Inode) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func itoa(v int64) string {
	if v == 0 {
		return "0"
	}
	neg := v < 0
	if neg {
		v = -v
	}
	var b [24]byte
	i := len(b)
	for v > 0 {
		i--
		b[i] = byte('0' + v%10)
		v /= 10
	}
	if neg {
		i--
		b[i] = '-'
	}
	return string(b[i:])
}
