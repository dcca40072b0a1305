package check

import (
	"fmt"
	"math/big"
	"regexp"
	"strconv"
	"strings"
	"unicode/utf8"

	"vsim/kernel"
)

// The reference model of ed: a list of lines and a current line.

type edAddr struct {
	set    bool
	kind   byte // n . $ /
	n      int
	word   string
	offset int
}

// edCmd is one command of a session.
type edCmd struct {
	raw   string
	end   int // input consumed once the command is complete
	kind  byte
	a, b  edAddr
	comma byte // 0 , ;
	text  []string
	name  string
	blank bool // came from the command line, not from standard input
}

// Kinds: p n d = l(ook: null) a i c w e q, X malformed, ? outside the model.

const addrRe = `(?:[0-9]+|[.$]|/[^/\n]+/)(?:[+-][0-9]*)?`

var cmdRe = regexp.MustCompile(`^[ \t]*(` + addrRe + `)?[ \t]*([,;]?)[ \t]*(` + addrRe + `)?[ \t]*([a-z=]?)(.*)$`)
var wordRe = regexp.MustCompile(`^[\pL\pN _<>&@#%!~:;,"'-]+$`)
var nameRe = regexp.MustCompile(`^[A-Za-z0-9_.,+~#%@:=/-]+$`)

// malformed lines that no reading of the command language accepts.
var malformed = []string{"zzz", "p p", "@", "d d", "xyzzy", "{", "~", "1 2 3", "=x=", "]", "1q2", "\x01", "ppq!", "wq!x?", "\"", "d4d", "nope nope", "=1", "|",
	"/[/p", "/x[/", "/[^/d", ",/[/p", "/[a/,$p", "/e[/n", "1,/t[/d"}

func parseAddr(s string) (edAddr, bool) {
	if s == "" {
		return edAddr{}, true
	}
	a := edAddr{set: true}
	rest := ""
	switch s[0] {
	case '.', '$':
		a.kind, rest = s[0], s[1:]
	case '/':
		a.kind = '/'
		i := strings.LastIndexByte(s, '/')
		a.word, rest = s[1:i], s[i+1:]
		if !wordRe.MatchString(a.word) {
			return a, false
		}
	default:
		a.kind = 'n'
		i := 0
		for i < len(s) && s[i] >= '0' && s[i] <= '9' {
			i++
		}
		n, err := strconv.Atoi(s[:i])
		if err != nil || n > 1<<40 {
			// far beyond any line, even with an offset that is not
			x, _ := new(big.Int).SetString(s[:i], 10)
			if o := s[i:]; len(o) > 1 {
				y, ok := new(big.Int).SetString(o[1:], 10)
				if !ok {
					return a, false
				}
				if o[0] == '-' {
					y.Neg(y)
				}
				x.Add(x, y)
			}
			a.n = 1 << 40
			return a, x.Cmp(big.NewInt(1<<40)) > 0
		}
		a.n, rest = n, s[i:]
	}
	if rest != "" {
		v := 1
		if len(rest) > 1 {
			n, err := strconv.Atoi(rest[1:])
			if err != nil || n > 1<<40 {
				return a, false
			}
			v = n
		}
		if rest[0] == '-' {
			v = -v
		}
		a.offset = v
	}
	return a, true
}

// parseEd turns a line into a command; text commands still lack their text.
func parseEd(line string) edCmd {
	c := edCmd{raw: line, kind: '?'}
	for _, m := range malformed {
		if line == m {
			c.kind = 'X'
			return c
		}
	}
	if !utf8.ValidString(line) {
		return c
	}
	m := cmdRe.FindStringSubmatch(line)
	if m == nil {
		return c
	}
	a, ok1 := parseAddr(m[1])
	b, ok2 := parseAddr(m[3])
	letter, rest := m[4], m[5]
	if !ok1 || !ok2 {
		return c
	}
	if m[2] == "" && b.set {
		return c // two addresses without a separator
	}
	c.a, c.b = a, b
	if m[2] != "" {
		c.comma = m[2][0]
		if c.comma == ';' && b.set && (b.kind == '.' || b.kind == '/') {
			return c
		}
	}
	ranged := c.comma != 0
	trail := strings.Trim(rest, " \t") == ""
	switch letter {
	case "":
		if rest == "" && !ranged {
			c.kind = 'l'
		}
	case "p", "n", "d":
		if trail {
			c.kind = letter[0]
		}
	case "=":
		if trail && !ranged {
			c.kind = '='
		}
	case "a", "i":
		if rest == "" && !ranged && !strings.HasPrefix(line, " ") && !strings.HasPrefix(line, "\t") {
			c.kind = letter[0]
		}
	case "c":
		if rest == "" {
			c.kind = 'c'
		}
	case "w", "e":
		if letter == "e" && (a.set || ranged) {
			return c
		}
		if rest == "" {
			c.kind = letter[0]
		} else if (rest[0] == ' ' || rest[0] == '\t') && nameRe.MatchString(strings.TrimLeft(rest, " \t")) {
			c.kind = letter[0]
			c.name = strings.TrimLeft(rest, " \t")
		}
		if letter == "e" && c.name == "" {
			c.kind = '?'
		}
	case "q":
		if trail && !a.set && !ranged {
			c.kind = 'q'
		}
	}
	return c
}

// splitEd cuts a session into commands.  It stops after q, at the end of the
// input or at the first command outside the model.
func splitEd(p *kernel.ProcSpec) []edCmd {
	var out []edCmd
	if len(p.Args) > 0 {
		c := parseEd("e " + p.Args[0])
		c.blank = true
		if c.kind != 'e' {
			c.kind = '?'
		}
		out = append(out, c)
		if c.kind == '?' {
			return out
		}
	}
	in := string(stdinBytes(p))
	pos := 0
	next := func() (string, bool, bool) {
		if pos >= len(in) {
			return "", false, false
		}
		i := strings.IndexByte(in[pos:], '\n')
		if i < 0 {
			l := in[pos:]
			pos = len(in)
			return l, true, false
		}
		l := in[pos : pos+i]
		pos += i + 1
		return l, true, true
	}
	for {
		l, ok, whole := next()
		if !ok || !whole && p.StdinEnd == "stall" {
			return out
		}
		if !whole && p.StdinEnd != "" {
			return append(out, edCmd{raw: l, kind: '?', end: pos})
		}
		c := parseEd(strings.TrimSuffix(l, "\r"))
		if c.kind == 'a' || c.kind == 'i' || c.kind == 'c' {
			done := false
			for {
				t, ok, whole := next()
				if !ok || !whole && p.StdinEnd != "" {
					break
				}
				if t == "." {
					done = true
					break
				}
				if !utf8.ValidString(t) {
					c.kind = '?'
				}
				c.text = append(c.text, t)
			}
			if !done {
				c.kind = '?'
			}
		}
		c.end = pos
		out = append(out, c)
		if c.kind == '?' || c.kind == 'q' {
			return out
		}
	}
}

// edState is the editing buffer.
type edState struct {
	lines  []string
	cur    int
	name   string
	ragged bool // what was loaded lacked the final newline
}

type edErr struct{}

// resolve gives the line number of an address; abstain is for addresses whose
// meaning the model leaves open.
func (s *edState) resolve(a edAddr) (line int, ok bool) {
	switch a.kind {
	case 'n':
		line = a.n
	case '.':
		line = s.cur
	case '$':
		line = len(s.lines)
	case '/':
		n := s.cur
		found := false
		for range s.lines {
			n = n%len(s.lines) + 1
			if strings.Contains(s.lines[n-1], a.word) {
				found = true
				break
			}
		}
		if !found {
			return 0, false
		}
		line = n
	}
	line += a.offset
	return line, line >= 0 && line <= len(s.lines)
}

// span resolves the range of a command that needs existing lines.
func (s *edState) span(c *edCmd, defA, defB edAddr) (x, y int, ok bool) {
	a, b := c.a, c.b
	switch {
	case c.comma == 0 && !a.set:
		a, b = defA, defB
	case c.comma == 0:
		b = a
	case !a.set && !b.set:
		a, b = edAddr{set: true, kind: 'n', n: 1}, edAddr{set: true, kind: '$'}
		if c.comma == ';' {
			a = edAddr{set: true, kind: '.'}
		}
	case !a.set:
		a = edAddr{set: true, kind: 'n', n: 1}
		if c.comma == ';' {
			a = edAddr{set: true, kind: '.'}
		}
	case !b.set:
		b = a
	}
	x, ok1 := s.resolve(a)
	y, ok2 := s.resolve(b)
	return x, y, ok1 && ok2 && x >= 1 && x <= y
}

var dot = edAddr{set: true, kind: '.'}
var dollar = edAddr{set: true, kind: '$'}

// edOut is what the model expects of a command.
type edOut struct {
	err     bool
	text    string
	abstain bool
	quit    bool
	load    bool   // e
	save    bool   // w
	path    string // of e and w
	data    []string
	whole   bool
}

func joinLines(l []string) string {
	if len(l) == 0 {
		return ""
	}
	return strings.Join(l, "\n") + "\n"
}

func splice(l []string, at, del int, ins []string) []string {
	out := make([]string, 0, len(l)+len(ins))
	out = append(out, l[:at]...)
	out = append(out, ins...)
	return append(out, l[at+del:]...)
}

// apply carries out a command.  For e and w the caller completes the job.
func (s *edState) apply(c *edCmd) edOut {
	fail := edOut{err: true}
	switch c.kind {
	case 'X':
		return fail
	case 'q':
		return edOut{quit: true}
	case 'p', 'n':
		x, y, ok := s.span(c, dot, dot)
		if !ok {
			return fail
		}
		s.cur = y
		if c.kind == 'p' {
			return edOut{text: joinLines(s.lines[x-1 : y])}
		}
		t := ""
		for i := x; i <= y; i++ {
			t += fmt.Sprintf("%d\t%s\n", i, s.lines[i-1])
		}
		return edOut{text: t + "\n"}
	case 'l':
		a := c.a
		if !a.set {
			a = edAddr{set: true, kind: '.', offset: 1}
		}
		x, ok := s.resolve(a)
		if !ok || x < 1 {
			return fail
		}
		s.cur = x
		return edOut{text: s.lines[x-1] + "\n"}
	case '=':
		a := c.a
		if !a.set {
			a = dollar
		}
		x, ok := s.resolve(a)
		if !ok {
			return fail
		}
		if x == 0 && len(s.lines) > 0 {
			return edOut{abstain: true}
		}
		return edOut{text: strconv.Itoa(x) + "\n"}
	case 'd':
		x, y, ok := s.span(c, dot, dot)
		if !ok {
			return fail
		}
		s.lines = splice(s.lines, x-1, y-x+1, nil)
		s.cur = min(x, len(s.lines))
		return edOut{text: "\n"}
	case 'a':
		a := c.a
		if !a.set {
			a = dot
		}
		x, ok := s.resolve(a)
		if !ok {
			return fail
		}
		s.lines = splice(s.lines, x, 0, c.text)
		s.cur = x + len(c.text)
		return edOut{text: "\n"}
	case 'i':
		a := c.a
		if !a.set {
			a = dot
		}
		x, ok := s.resolve(a)
		if !ok {
			return fail
		}
		if x == 0 {
			if c.a.set || len(s.lines) > 0 {
				return edOut{abstain: true}
			}
			s.lines = splice(s.lines, 0, 0, c.text)
			s.cur = len(c.text)
			return edOut{text: "\n"}
		}
		s.lines = splice(s.lines, x-1, 0, c.text)
		s.cur = x
		if len(c.text) > 0 {
			s.cur = x + len(c.text) - 1
		}
		return edOut{text: "\n"}
	case 'c':
		x, y, ok := s.span(c, dot, dot)
		if !ok {
			if x == 0 && c.a.set && c.a.kind == 'n' {
				return edOut{abstain: true} // 0c
			}
			return fail
		}
		s.lines = splice(s.lines, x-1, y-x+1, c.text)
		if len(c.text) > 0 {
			s.cur = x + len(c.text) - 1
		} else {
			s.cur = min(x, len(s.lines))
		}
		return edOut{text: "\n"}
	case 'e':
		return edOut{load: true, path: c.name}
	case 'w':
		path := c.name
		if path == "" {
			path = s.name
		}
		x, y, whole := 1, len(s.lines), true
		if c.a.set || c.comma != 0 {
			if len(s.lines) == 0 {
				return edOut{abstain: true}
			}
			var ok bool
			if x, y, ok = s.span(c, edAddr{}, edAddr{}); !ok {
				return fail
			}
			whole = x == 1 && y == len(s.lines)
		}
		if path == "" {
			return fail
		}
		return edOut{save: true, path: path, data: append([]string(nil), s.lines[x-1:y]...), whole: whole}
	}
	return edOut{abstain: true}
}

func (s *edState) loaded(path, data string) {
	s.lines = splitLines([]byte(data))
	s.cur = len(s.lines)
	s.name = path
	s.ragged = data != "" && !strings.HasSuffix(data, "\n")
}

// saveImages are the acceptable contents of a file after a save.
func (s *edState) saveImages(o *edOut) []string {
	full := joinLines(o.data)
	if s.ragged && full != "" {
		return []string{full, full[:len(full)-1]}
	}
	return []string{full}
}

const parseError = "parse error near "

var errAnswer = regexp.MustCompile(`^\?[^\n]*\n(?:parse error near [^\n]*\n[^\n]*\n\n)?`)
