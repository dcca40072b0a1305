package check

import (
	"bytes"
	"fmt"
	"regexp"
	"strconv"
	"strings"
)

// ref is the reference result of one filter on one scenario.
type ref struct {
	ops      []string
	readable bool // every operand exists and can be read
	exit     int  // status when nothing fails
	// complete explains why out is not the complete result, "" if it is
	complete func(out []byte) string
	// isPrefix: out could be the beginning of a complete result (nil: unknown)
	isPrefix func(out []byte) bool
	// partial: out is acceptable although the failures happened
	partial func(out []byte, fl []failure) string
	// needs: the result depends on what the failed call would have given
	needs func(f failure) bool
	// errAbove: a failure must give a status greater than this
	errAbove int
	usage    bool // the command line is outside what the reference covers
}

func refOf(sc *Scenario) *ref {
	switch sc.Procs[0].Prog {
	case "cat":
		return catRef(sc)
	case "cksum":
		return cksumRef(sc)
	case "cmp":
		return cmpRef(sc)
	case "head":
		return headRef(sc)
	case "diff":
		return diffRef(sc)
	case "tsort":
		return tsortRef(sc)
	}
	return nil
}

func exact(want []byte) func([]byte) string {
	return func(out []byte) string {
		if bytes.Equal(out, want) {
			return ""
		}
		return where(out, want)
	}
}

func allReadable(ins []input) bool {
	for _, in := range ins {
		if !in.ok {
			return false
		}
	}
	return true
}

func catRef(sc *Scenario) *ref {
	ops, _ := catOps(sc)
	ins := inputs(sc, 0, ops)
	want, _, _ := catWant(ins)
	return &ref{ops: ops, readable: allReadable(ins), complete: exact(want),
		isPrefix: func(out []byte) bool { return prefix(out, want) },
		partial: func(out []byte, fl []failure) string {
			if prefix(out, want) {
				return ""
			}
			return "not a prefix of the concatenation: " + where(out, want)
		},
		needs: func(failure) bool { return true }}
}

// POSIX cksum, bit by bit.
var crcTable = func() (t [256]uint32) {
	for i := range t {
		v := uint32(i) << 24
		for b := 0; b < 8; b++ {
			if v&0x80000000 != 0 {
				v = v<<1 ^ 0x04c11db7
			} else {
				v <<= 1
			}
		}
		t[i] = v
	}
	return
}()

func posixCRC(b []byte) uint32 {
	var s uint32
	for _, c := range b {
		s = s<<8 ^ crcTable[byte(s>>24)^c]
	}
	for n := len(b); n != 0; n >>= 8 {
		s = s<<8 ^ crcTable[byte(s>>24)^byte(n)]
	}
	return ^s
}

func cksumRef(sc *Scenario) *ref {
	ops := sc.Procs[0].Args
	if len(ops) == 0 {
		ops = []string{"-"}
	}
	ins := inputs(sc, 0, ops)
	rf := &ref{ops: ops, readable: allReadable(ins), needs: func(failure) bool { return true }}
	lineFor := func(in input) string { return fmt.Sprintf("%d %d", posixCRC(in.data), len(in.data)) }
	match := func(line string, in input) bool {
		w := lineFor(in)
		return line == w || strings.HasPrefix(line, w+" ")
	}
	lines := func(out []byte) ([]string, bool) {
		if len(out) == 0 {
			return nil, true
		}
		if out[len(out)-1] != '\n' {
			return strings.Split(string(out), "\n"), false
		}
		return strings.Split(string(out[:len(out)-1]), "\n"), true
	}
	rf.complete = func(out []byte) string {
		l, ended := lines(out)
		if !ended {
			return "unterminated line: " + show(out)
		}
		if len(l) != len(ins) {
			return fmt.Sprintf("%d lines for %d operands: %s", len(l), len(ins), show(out))
		}
		for i := range l {
			if !match(l[i], ins[i]) {
				return fmt.Sprintf("line for %s is %q, want %q", ins[i].op, l[i], lineFor(ins[i]))
			}
		}
		return ""
	}
	rf.isPrefix = func(out []byte) bool {
		l, ended := lines(out)
		if len(l) > len(ins) {
			return false
		}
		for i := range l {
			if i == len(l)-1 && !ended {
				w := lineFor(ins[i])
				return strings.HasPrefix(w, l[i]) || strings.HasPrefix(l[i], w)
			}
			if !match(l[i], ins[i]) {
				return false
			}
		}
		return true
	}
	rf.partial = func(out []byte, fl []failure) string {
		l, ended := lines(out)
		if !ended {
			return "unterminated line: " + show(out)
		}
		failed := map[string]bool{}
		for _, f := range fl {
			failed[f.role] = true
		}
		i := 0
		before := true // before the first failed operand: lines are due
		for _, in := range ins {
			if !in.ok || failed[role(in.op)] {
				before = false
				continue
			}
			if i < len(l) && match(l[i], in) {
				i++
			} else if before {
				return fmt.Sprintf("no line %q for %s: %s", lineFor(in), in.op, show(out))
			}
		}
		if i < len(l) {
			return fmt.Sprintf("line %q belongs to no operand that could be read", l[i])
		}
		return ""
	}
	return rf
}

type cmpArgs struct {
	all, silent bool
	files       []string
}

func parseCmp(args []string) cmpArgs {
	var a cmpArgs
	for _, x := range args {
		switch x {
		case "-l":
			a.all = true
		case "-s":
			a.silent = true
		default:
			a.files = append(a.files, x)
		}
	}
	return a
}

var cmpLine = regexp.MustCompile(`(\d+)\D+(\d+)\n$`)

func cmpRef(sc *Scenario) *ref {
	a := parseCmp(sc.Procs[0].Args)
	rf := &ref{ops: a.files, errAbove: 1}
	if len(a.files) != 2 || a.files[0] == "" || a.files[1] == "" || a.all && a.silent || a.files[0] == "-" && a.files[1] == "-" {
		rf.usage = true
		return rf
	}
	ins := inputs(sc, 0, a.files)
	rf.readable = allReadable(ins)
	x, y := ins[0].data, ins[1].data
	n := min(len(x), len(y))
	first, line := -1, 1
	type df struct{ at, a, b int }
	var diffs []df
	for i := 0; i < n; i++ {
		if x[i] != y[i] {
			if first < 0 {
				first = i
			}
			diffs = append(diffs, df{i + 1, int(x[i]), int(y[i])})
		}
		if first < 0 && x[i] == '\n' {
			line++
		}
	}
	decisive := n
	if first >= 0 && !a.all {
		decisive = first
	}
	if first >= 0 || len(x) != len(y) {
		rf.exit = 1
	}
	rf.needs = func(f failure) bool { return f.open || f.off <= decisive }
	// -l
	parseL := func(out []byte, whole bool) string {
		ls := strings.SplitAfter(string(out), "\n")
		for i, l := range ls {
			if l == "" {
				continue
			}
			if !strings.HasSuffix(l, "\n") {
				if whole {
					return "unterminated line"
				}
				if i < len(diffs) {
					continue
				}
				return "too many lines"
			}
			if i >= len(diffs) {
				return fmt.Sprintf("reports a difference that is not there: %q", l)
			}
			f := strings.Fields(l)
			if len(f) != 3 {
				return fmt.Sprintf("malformed line %q", l)
			}
			p, e1 := strconv.Atoi(f[0])
			u, e2 := strconv.ParseInt(f[1], 8, 32)
			v, e3 := strconv.ParseInt(f[2], 8, 32)
			d := diffs[i]
			if e1 != nil || e2 != nil || e3 != nil || p != d.at || int(u) != d.a || int(v) != d.b {
				return fmt.Sprintf("difference %d reported as %q, want %d %o %o", i+1, l, d.at, d.a, d.b)
			}
		}
		if whole && strings.Count(string(out), "\n") != len(diffs) {
			return fmt.Sprintf("%d differences reported, there are %d", strings.Count(string(out), "\n"), len(diffs))
		}
		return ""
	}
	rf.complete = func(out []byte) string {
		switch {
		case a.silent || first < 0:
			if len(out) > 0 {
				return "prints " + show(out)
			}
			return ""
		case a.all:
			return parseL(out, true)
		}
		m := cmpLine.FindSubmatch(out)
		if bytes.Count(out, []byte("\n")) != 1 || m == nil || string(m[1]) != fmt.Sprint(first+1) || string(m[2]) != fmt.Sprint(line) {
			return fmt.Sprintf("prints %s, the first difference is at byte %d, line %d", show(out), first+1, line)
		}
		return ""
	}
	rf.isPrefix = nil
	rf.partial = func(out []byte, fl []failure) string {
		// no verdict: without -l nothing, with -l the differences so far
		if len(out) == 0 {
			return ""
		}
		if !a.all {
			return "gives a verdict: " + show(out)
		}
		for _, f := range fl {
			if f.open {
				return "gives a verdict on a file it could not open: " + show(out)
			}
		}
		lim := len(diffs)
		for _, f := range fl {
			k := 0
			for k < len(diffs) && diffs[k].at-1 < f.off {
				k++
			}
			lim = min(lim, k)
		}
		if n := bytes.Count(out, []byte("\n")); n > lim {
			return fmt.Sprintf("reports %d differences, only %d lie in what could be read", n, lim)
		}
		return parseL(out, false)
	}
	return rf
}

func parseHead(args []string) (n int, ops []string, ok bool) {
	n, ok = 10, true
	for i := 0; i < len(args); i++ {
		if args[i] == "-n" {
			i++
			if i >= len(args) {
				return 0, nil, false
			}
			v, err := strconv.Atoi(args[i])
			if err != nil || v < 0 {
				return 0, nil, false
			}
			n = v
			continue
		}
		ops = append(ops, args[i])
	}
	if len(ops) == 0 {
		ops = []string{"-"}
	}
	return
}

// firstLines is the end of the first n lines; full: there are n of them.
func firstLines(b []byte, n int) (end int, full bool) {
	for i := 0; i < n; i++ {
		j := bytes.IndexByte(b[end:], '\n')
		if j < 0 {
			return len(b), false
		}
		end += j + 1
	}
	return end, true
}

func headRef(sc *Scenario) *ref {
	n, ops, ok := parseHead(sc.Procs[0].Args)
	rf := &ref{ops: ops}
	dash := 0
	for _, op := range ops {
		if op == "-" {
			dash++
		}
	}
	if !ok || dash > 1 {
		rf.usage = true
		return rf
	}
	ins := inputs(sc, 0, ops)
	rf.readable = allReadable(ins)
	if n == 0 && !rf.readable {
		rf.usage = true // nothing is needed from the file: either way will do
		return rf
	}
	var want []byte
	need := map[string]int{} // position whose failure matters at most
	type section struct {
		role            string
		hdr, body, ends int
	}
	var secs []section
	for i, in := range ins {
		s := section{role: role(in.op), hdr: len(want)}
		if len(ins) > 1 {
			if i > 0 {
				want = append(want, '\n')
			}
			want = append(want, "==> "+in.op+" <==\n"...)
		}
		s.body = len(want)
		end, full := firstLines(in.data, n)
		want = append(want, in.data[:end]...)
		s.ends = len(want)
		secs = append(secs, s)
		lim := end - 1
		if !full {
			lim = end // must know that nothing follows
		}
		if l, seen := need[s.role]; !seen || lim > l {
			need[s.role] = lim
		}
	}
	rf.complete = exact(want)
	rf.isPrefix = func(out []byte) bool { return prefix(out, want) }
	rf.needs = func(f failure) bool { return f.open && n > 0 || !f.open && f.off <= need[f.role] }
	rf.partial = func(out []byte, fl []failure) string {
		// every section before the first failing operand, then at most that
		// operand's header and a part of its lines
		failed := map[string]bool{}
		for _, f := range fl {
			failed[f.role] = true
		}
		for i, s := range secs {
			if ins[i].ok && !failed[s.role] {
				if !prefix(want[:s.ends], out) && len(out) >= s.ends || len(out) < s.ends {
					return "a file that could be read is not there in full: " + where(out, want[:s.ends])
				}
				continue
			}
			if prefix(out, want[:s.ends]) {
				return ""
			}
			return "output does not come from the inputs: " + where(out, want)
		}
		if bytes.Equal(out, want) {
			return ""
		}
		return where(out, want)
	}
	return rf
}

// diff

var diffCmd = regexp.MustCompile(`^(\d+)(?:,(\d+))?([acd])(\d+)(?:,(\d+))?$`)

func splitLines(b []byte) []string {
	if len(b) == 0 {
		return nil
	}
	s := string(b)
	s = strings.TrimSuffix(s, "\n")
	return strings.Split(s, "\n")
}

// applyDiff applies a normal-format script to x and compares with y.
func applyDiff(out []byte, x, y []string) string {
	if len(out) == 0 {
		if len(x) == len(y) {
			for i := range x {
				if x[i] != y[i] {
					return fmt.Sprintf("prints nothing although line %d differs", i+1)
				}
			}
			return ""
		}
		return "prints nothing although the files differ"
	}
	if out[len(out)-1] != '\n' {
		return "unterminated output"
	}
	ls := strings.Split(string(out[:len(out)-1]), "\n")
	var got []string
	at := 0 // lines of x consumed
	i := 0
	num := func(s string, def int) int {
		if s == "" {
			return def
		}
		v, err := strconv.Atoi(s)
		if err != nil {
			return -1
		}
		return v
	}
	for i < len(ls) {
		m := diffCmd.FindStringSubmatch(ls[i])
		if m == nil {
			return fmt.Sprintf("output line %d is no change command: %s", i+1, show([]byte(ls[i])))
		}
		cmd := ls[i]
		i++
		a1 := num(m[1], 0)
		a2 := num(m[2], a1)
		b1 := num(m[4], 0)
		b2 := num(m[5], b1)
		if a2 < a1 || b2 < b1 || a1 < 0 || b1 < 0 {
			return fmt.Sprintf("bad range in %q", cmd)
		}
		from := a1 - 1 // lines of x kept before this hunk
		if m[3] == "a" {
			if a1 != a2 {
				return fmt.Sprintf("append after a range: %q", cmd)
			}
			from = a1
		}
		if from < at || from > len(x) {
			return fmt.Sprintf("%q is out of order or beyond the first file", cmd)
		}
		got = append(got, x[at:from]...)
		at = from
		if m[3] != "a" {
			for n := a1; n <= a2; n++ {
				if at >= len(x) {
					return fmt.Sprintf("%q goes beyond the first file", cmd)
				}
				if i >= len(ls) || ls[i] != "< "+x[at] {
					q := "nothing"
					if i < len(ls) {
						q = show([]byte(ls[i]))
					}
					return fmt.Sprintf("%q does not quote line %d of the first file: %s", cmd, at+1, q)
				}
				at++
				i++
			}
		}
		if m[3] == "c" {
			if i >= len(ls) || ls[i] != "---" {
				return fmt.Sprintf("%q without ---", cmd)
			}
			i++
		}
		if m[3] != "d" {
			if b1 != len(got)+1 {
				return fmt.Sprintf("%q: the new lines start at line %d of the second file", cmd, len(got)+1)
			}
			for n := b1; n <= b2; n++ {
				if i >= len(ls) || !strings.HasPrefix(ls[i], "> ") {
					return fmt.Sprintf("%q: too few new lines", cmd)
				}
				got = append(got, ls[i][2:])
				i++
			}
		} else if b1 != len(got) || b1 != b2 {
			return fmt.Sprintf("%q: the deletion is after line %d of the second file", cmd, len(got))
		}
	}
	got = append(got, x[at:]...)
	if len(got) != len(y) {
		return fmt.Sprintf("applied, the script gives %d lines instead of %d", len(got), len(y))
	}
	for j := range got {
		if got[j] != y[j] {
			return fmt.Sprintf("applied, the script gives %s as line %d instead of %s", show([]byte(got[j])), j+1, show([]byte(y[j])))
		}
	}
	return ""
}

func diffRef(sc *Scenario) *ref {
	ops := sc.Procs[0].Args
	rf := &ref{ops: ops, errAbove: 1}
	if len(ops) != 2 || strings.HasPrefix(ops[0], "-") || strings.HasPrefix(ops[1], "-") || ops[0] == "" || ops[1] == "" {
		rf.usage = true
		return rf
	}
	ins := inputs(sc, 0, ops)
	rf.readable = allReadable(ins)
	x, y := splitLines(ins[0].data), splitLines(ins[1].data)
	if len(x) != len(y) {
		rf.exit = 1
	} else {
		for i := range x {
			if x[i] != y[i] {
				rf.exit = 1
			}
		}
	}
	rf.complete = func(out []byte) string { return applyDiff(out, x, y) }
	rf.needs = func(failure) bool { return true }
	rf.partial = func(out []byte, fl []failure) string {
		if len(out) > 0 {
			return "prints a script: " + show(out)
		}
		return ""
	}
	return rf
}

// tsort

func tsortRef(sc *Scenario) *ref {
	args := sc.Procs[0].Args
	if len(args) == 0 {
		args = []string{"-"}
	}
	rf := &ref{ops: args, needs: func(failure) bool { return true }}
	if len(args) != 1 {
		rf.usage = true
		return rf
	}
	ins := inputs(sc, 0, args)
	rf.readable = allReadable(ins)
	words := strings.Fields(string(ins[0].data))
	all := map[string]bool{}
	pre := map[string]map[string]bool{}
	for _, w := range words {
		all[w] = true
	}
	if len(words)%2 != 0 {
		rf.exit = 1
	}
	for i := 0; i+1 < len(words); i += 2 {
		a, b := words[i], words[i+1]
		if a != b {
			if pre[b] == nil {
				pre[b] = map[string]bool{}
			}
			pre[b][a] = true
		}
	}
	// cycle?
	indeg := map[string]int{}
	succ := map[string][]string{}
	for b, as := range pre {
		indeg[b] = len(as)
		for a := range as {
			succ[a] = append(succ[a], b)
		}
	}
	var queue []string
	for w := range all {
		if indeg[w] == 0 {
			queue = append(queue, w)
		}
	}
	seen := 0
	for len(queue) > 0 {
		w := queue[len(queue)-1]
		queue = queue[:len(queue)-1]
		seen++
		for _, s := range succ[w] {
			indeg[s]--
			if indeg[s] == 0 {
				queue = append(queue, s)
			}
		}
	}
	if seen != len(all) {
		rf.exit = 1
	}
	scan := func(out []byte, whole bool) string {
		done := map[string]bool{}
		ls := strings.SplitAfter(string(out), "\n")
		for _, l := range ls {
			if l == "" {
				continue
			}
			if !strings.HasSuffix(l, "\n") {
				if whole {
					return "unterminated line"
				}
				for w := range all {
					if !done[w] && strings.HasPrefix(w, l) {
						return ""
					}
				}
				return fmt.Sprintf("%q begins no word that is due", clip(l, 80))
			}
			w := l[:len(l)-1]
			if !all[w] {
				return fmt.Sprintf("%q is no word of the input", clip(w, 80))
			}
			if done[w] {
				return fmt.Sprintf("%q is printed twice", clip(w, 80))
			}
			for a := range pre[w] {
				if !done[a] {
					return fmt.Sprintf("%q is printed before %q", clip(w, 80), clip(a, 80))
				}
			}
			done[w] = true
		}
		if whole && len(done) != len(all) {
			for w := range all {
				if !done[w] {
					return fmt.Sprintf("%d words instead of %d, %q is missing", len(done), len(all), clip(w, 80))
				}
			}
		}
		return ""
	}
	rf.complete = func(out []byte) string {
		if rf.exit != 0 {
			if len(out) > 0 {
				return "prints an order although there is none: " + show(out)
			}
			return ""
		}
		return scan(out, true)
	}
	rf.isPrefix = func(out []byte) bool {
		if rf.exit != 0 {
			return len(out) == 0
		}
		return scan(out, false) == ""
	}
	rf.partial = func(out []byte, fl []failure) string {
		if len(out) > 0 {
			return "prints an order: " + show(out)
		}
		return ""
	}
	return rf
}
