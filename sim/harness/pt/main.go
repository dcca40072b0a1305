// Harness: drives a piece table from a script on standard input.
package main

import (
	"bufio"
	"bytes"
	"encoding/hex"
	"errors"
	"fmt"
	"io"
	"os"
	"strings"

	"github.com/fwip/posix-utils/pkg/txt"
)

// reader shows the legal but unusual behaviours of an io.ReaderAt.
type reader struct {
	data  []byte
	eof   bool // end of file reported together with the last bytes
	short int  // at most this many bytes at a time
	fail  int  // this call fails (counted from 1)
	calls int
	fails int
	cut   int // the data ends here although more was promised (-1: no)
}

func (r *reader) ReadAt(p []byte, off int64) (int, error) {
	r.calls++
	if r.calls == r.fail {
		r.fails++
		n := 0
		if len(p) > 1 {
			n = copy(p[:len(p)/2], "?????????????")
		}
		return n, errors.New("the reader failed")
	}
	if off >= int64(len(r.data)) {
		return 0, io.EOF
	}
	if r.cut >= 0 && off+int64(len(p)) > int64(r.cut) {
		r.fails++
		if off >= int64(r.cut) {
			return 0, io.EOF
		}
		return copy(p, r.data[off:r.cut]), io.EOF
	}
	q := p
	if r.short > 0 && len(q) > r.short {
		q = q[:r.short]
	}
	n := copy(q, r.data[off:])
	if n < len(q) || r.eof && off+int64(n) == int64(len(r.data)) {
		return n, io.EOF
	}
	return n, nil
}

func main() {
	in := bufio.NewReader(os.Stdin)
	out := bufio.NewWriter(os.Stdout)
	defer out.Flush()
	var pt txt.PieceTable
	var rd *reader
	ln := -1
	shared := make([]byte, 0, 1<<16)
	for {
		line, err := in.ReadString('\n')
		if err != nil {
			return
		}
		ln++
		f := strings.Fields(line)
		if len(f) == 0 {
			return
		}
		var a, b, c int
		switch f[0] {
		case "mem": // data eof short fail cut
			d, _ := hex.DecodeString(strings.TrimPrefix(f[1], "x"))
			rd = &reader{data: d, cut: -1}
			fmt.Sscan(f[2], &a)
			fmt.Sscan(f[3], &b)
			fmt.Sscan(f[4], &c)
			fmt.Sscan(f[5], &rd.cut)
			rd.eof, rd.short, rd.fail = a == 1, b, c
			pt = txt.NewPieceTable(rd, len(d))
		case "bytes":
			d, _ := hex.DecodeString(strings.TrimPrefix(f[1], "x"))
			pt = txt.NewPieceTable(bytes.NewReader(d), len(d))
		case "file":
			h, err := os.Open(f[1])
			if err != nil {
				fmt.Fprintln(out, "nofile")
				return
			}
			fmt.Sscan(f[2], &a)
			pt = txt.NewPieceTable(h, a)
		case "zero":
			pt = txt.PieceTable{}
		case "i": // at text
			fmt.Sscan(f[1], &a)
			d, _ := hex.DecodeString(strings.TrimPrefix(f[2], "x"))
			buf := append(shared[:0], d...)
			if try(out, ln, func() { pt.Insert(buf, a) }) {
				return
			}
			// the caller's slice is its own again
			buf = buf[:cap(buf)]
			for k := 0; k < len(buf) && k < len(d)+64; k++ {
				buf[k] = '#'
			}
		case "d": // length at
			fmt.Sscan(f[1], &a)
			fmt.Sscan(f[2], &b)
			if try(out, ln, func() { pt.Delete(a, b) }) {
				return
			}
		case "s":
			before := 0
			if rd != nil {
				before = rd.fails
			}
			s := ""
			loud := false
			func() {
				defer func() {
					if x := recover(); x != nil {
						loud = true
					}
				}()
				s = pt.String()
			}()
			failed := ""
			if rd != nil && rd.fails > before {
				failed = "!"
			}
			if loud {
				fmt.Fprintf(out, "loud%s\n", failed)
			} else {
				fmt.Fprintf(out, "x%s%s\n", hex.EncodeToString([]byte(s)), failed)
			}
		}
		out.Flush()
	}
}

func try(out *bufio.Writer, ln int, f func()) (bad bool) {
	defer func() {
		if x := recover(); x != nil {
			fmt.Fprintf(out, "panic %d %v\n", ln, x)
			bad = true
		}
	}()
	f()
	return false
}
