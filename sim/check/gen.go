package check

import (
	"go/scanner"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	"vsim/kernel"
)

// Dict holds the constants of the code under test; sizes and counts are biased
// towards them.  It influences only which inputs are tried.
type Dict struct {
	Ints []int
	Strs []string
}

func Harvest(repo string) *Dict {
	ints := map[int]bool{}
	strs := map[string]bool{}
	filepath.Walk(repo, func(p string, info os.FileInfo, err error) error {
		if err != nil || info.IsDir() || !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
			return nil
		}
		if b := filepath.Base(p); b == "y.go" || b == "ed.peg.go" || b == "cksum.go" {
			// big tables: only small numbers
		}
		src, err := os.ReadFile(p)
		if err != nil {
			return nil
		}
		var s scanner.Scanner
		fs := token.NewFileSet()
		s.Init(fs.AddFile(p, fs.Base(), len(src)), src, nil, 0)
		table := len(src) > 20000 || filepath.Base(p) == "cksum.go"
		for {
			_, tok, lit := s.Scan()
			if tok == token.EOF {
				break
			}
			switch tok {
			case token.INT:
				v, err := strconv.ParseInt(lit, 0, 64)
				if err == nil && v > 1 && v <= 300000 && !table {
					ints[int(v)] = true
				}
			case token.STRING:
				if v, err := strconv.Unquote(lit); err == nil && len(v) > 0 && len(v) <= 12 && !table {
					strs[v] = true
				}
			case token.CHAR:
				if v, err := strconv.Unquote(lit); err == nil && !table {
					strs[v] = true
				}
			}
		}
		return nil
	})
	d := &Dict{}
	for i := range ints {
		d.Ints = append(d.Ints, i)
	}
	sort.Ints(d.Ints)
	for s := range strs {
		d.Strs = append(d.Strs, s)
	}
	sort.Strings(d.Strs)
	return d
}

// size picks a size up to max, biased to small ones, powers of two and the
// constants of the code.
func (c *Ctx) size(r *Rng, max int) int {
	n := 0
	switch r.N(12) {
	case 0, 1, 2, 3:
		n = r.N(8)
	case 4, 5:
		n = r.N(64)
	case 6:
		n = r.N(600)
	case 7, 8:
		n = 1<<uint(r.N(18)) + r.N(5) - 2
	case 9:
		if len(c.Dict.Ints) > 0 {
			n = c.Dict.Ints[r.N(len(c.Dict.Ints))] + r.N(3) - 1
		}
	case 10:
		n = (r.N(20)+1)*[]int{512, 1024, 4096, 8192, 32768}[r.N(5)] + r.N(5) - 2
	default:
		n = r.N(max + 1)
	}
	if n < 0 {
		n = 0
	}
	if n > max {
		n = max - r.N(min(max, 3)+1)
		if r.N(2) == 0 {
			n = r.N(max + 1)
		}
	}
	return max0(n)
}

func max0(n int) int {
	if n < 0 {
		return 0
	}
	return n
}

// count picks a small count, sometimes one of the code's constants.
func (c *Ctx) count(r *Rng, max int) int {
	if r.N(8) == 0 && len(c.Dict.Ints) > 0 {
		n := c.Dict.Ints[r.N(len(c.Dict.Ints))] + r.N(3) - 1
		if n <= max {
			return max0(n)
		}
	}
	if r.N(4) == 0 {
		return r.N(max + 1)
	}
	return r.N(min(max, 9) + 1)
}

// bytesOf makes n bytes of one of several kinds.
func (c *Ctx) bytesOf(r *Rng, n int) []byte {
	b := make([]byte, n)
	switch r.N(7) {
	case 0: // any byte
		for i := range b {
			b[i] = byte(r.U64())
		}
	case 1: // one byte
		x := byte(r.U64())
		for i := range b {
			b[i] = x
		}
	case 2: // zeros and 0xff
		for i := range b {
			if r.N(2) == 0 {
				b[i] = 0xff
			}
		}
	case 3: // numbered lines
		b = b[:0]
		for i := 1; len(b) < n; i++ {
			b = append(b, []byte("line "+strconv.Itoa(i)+"\n")...)
		}
		b = b[:n]
	case 4: // lines of random length
		b = b[:0]
		for len(b) < n {
			l := r.N(90)
			for j := 0; j < l; j++ {
				b = append(b, "abc xyz\t.\r\\%0123456789"[r.N(22)])
			}
			b = append(b, '\n')
		}
		b = b[:n]
	case 5: // control characters and newlines
		for i := range b {
			b[i] = "\n\r\x00\x1a\x04 a\xff"[r.N(8)]
		}
	default:
		for i := range b {
			b[i] = "abcdefghijklmnopqrstuvwxyz\n"[r.N(27)]
		}
	}
	return b
}

// knobs picks the rates of benign perturbations for one run.
func knobs(r *Rng) kernel.Knobs {
	var k kernel.Knobs
	pick := func() int { return []int{0, 0, 30, 150, 500, 900}[r.N(6)] }
	k.ShortRead, k.ShortWrite, k.Eintr, k.Yield, k.Sched = pick(), pick(), []int{0, 0, 30, 200}[r.N(4)], pick(), pick()
	if k.Yield == 900 {
		k.Yield = 500
	}
	return k
}

// chunks splits input into arrivals.
func (c *Ctx) chunks(r *Rng, data []byte) []kernel.Chunk {
	var out []kernel.Chunk
	if len(data) == 0 {
		return nil
	}
	mode := r.N(5)
	gate := []int{0, 0, 300, 1000}[r.N(4)]
	for len(data) > 0 {
		n := len(data)
		switch mode {
		case 1: // small pieces
			n = 1 + r.N(12)
		case 2: // around buffer sizes
			n = c.size(r, 70000) + 1
		case 3: // lines
			n = strings.IndexByte(string(data), '\n') + 1
			if n == 0 {
				n = len(data)
			}
		case 4:
			n = 1 + r.N(len(data))
		}
		if n > len(data) {
			n = len(data)
		}
		if len(out) > 400 {
			n = len(data)
		}
		out = append(out, kernel.Chunk{Data: data[:n:n], Gate: r.P(gate)})
		data = data[n:]
	}
	return out
}

var readErrs = []kernel.Errno{kernel.EIO, kernel.EIO, kernel.EISDIR, kernel.ESTALE, kernel.ENOMEM, kernel.EBADF, kernel.EINVAL}
var openErrs = []kernel.Errno{kernel.ENOENT, kernel.EACCES, kernel.EMFILE, kernel.ENFILE, kernel.EIO, kernel.ENOMEM, kernel.ELOOP, kernel.ENOTDIR, kernel.ESTALE}
var writeErrs = []kernel.Errno{kernel.ENOSPC, kernel.EIO, kernel.EPIPE, kernel.EDQUOT, kernel.EFBIG, kernel.EBADF}

func errOf(r *Rng, l []kernel.Errno) kernel.Errno { return l[r.N(len(l))] }

func stdinBytes(p *kernel.ProcSpec) []byte {
	var b []byte
	for _, ch := range p.Stdin {
		b = append(b, ch.Data...)
	}
	return b
}

func baseScenario(r *Rng) *Scenario {
	return &Scenario{Seed: r.U64(), MapSeed: r.U64()}
}

// withKnobs is the same scenario under fresh perturbations.
func withKnobs(r *Rng, sc *Scenario) *Scenario {
	t := sc.Clone()
	t.Seed = r.U64()
	t.MapSeed = r.U64()
	t.Knobs = knobs(r)
	return t
}

func findFile(sc *Scenario, path string) *kernel.FileSpec {
	for i := range sc.Files {
		if sc.Files[i].Path == path || sc.Files[i].Path == "/w/"+path {
			return &sc.Files[i]
		}
	}
	return nil
}
