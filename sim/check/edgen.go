package check

import (
	"fmt"
	"strings"

	"vsim/kernel"
)

// edGen writes sessions, keeping the model's idea of the buffer so that most
// commands make sense.
type edGen struct {
	c    *Ctx
	r    *Rng
	st   edState
	fs   map[string]string // contents of files by name, as far as known
	buf  []byte
	bad  int // per mille of commands that cannot be carried out
	long bool
	tag  string // put into every text line
	n    int
	save int // per mille of w
	load int // per mille of e
	out  []string
	ws   []string // names w may use
}

var words = []string{"alpha", "beta", "gamma", "x", "foo bar", "end", "1", "été", "世界", "a", "q", "w"}

func (g *edGen) textLine() string {
	r := g.r
	g.n++
	t := ""
	switch r.N(16) {
	case 0:
		t = ""
	case 1:
		t = ".."
	case 2:
		t = ".hidden " + words[r.N(len(words))]
	case 3:
		t = " ."
	case 4:
		t = words[r.N(len(words))] + "\r"
	case 5:
		t = "été 世界 ñ 🙂 " + words[r.N(len(words))]
	case 6:
		if g.long {
			t = strings.Repeat("long ", g.c.size(r, 90000)/5+1)
		} else {
			t = strings.Repeat("ab", r.N(300))
		}
	case 7:
		t = "%d %s \\n / ? $ ^ [a-z]* \"quoted\" 'q'"
	case 8:
		t = "\ttabs\t and trailing "
	case 9:
		t = "w " + words[r.N(len(words))]
	case 10:
		t = []string{". ", ".\r", ".\t", "..", ".\u00a0", ",", ".."}[r.N(7)]
	case 11:
		t = fmt.Sprint(r.N(20))
	default:
		t = words[r.N(len(words))]
		for i := r.N(3); i > 0; i-- {
			t += " " + words[r.N(len(words))]
		}
	}
	if g.tag != "" {
		t = fmt.Sprintf("%s%d %s", g.tag, g.n, t)
	}
	if t == "." {
		t = ".."
	}
	return t
}

// text makes the lines of an a, i or c command.
func (g *edGen) text() []string {
	r := g.r
	n := []int{1, 1, 1, 2, 3, 0, 5}[r.N(7)]
	if g.long && r.N(40) == 0 {
		n = g.c.count(r, 300)
	}
	var out []string
	for i := 0; i < n; i++ {
		out = append(out, g.textLine())
	}
	return out
}

// addr writes an address for a line the buffer has (zero: 0 is allowed).
func (g *edGen) addr(zero bool) string {
	r := g.r
	n := len(g.st.lines)
	if r.P(g.bad) {
		switch r.N(7) {
		case 0:
			return fmt.Sprint(n + 1 + r.N(3))
		case 1:
			return "$+" + fmt.Sprint(1+r.N(4))
		case 2:
			return ".-" + fmt.Sprint(n+1+r.N(4))
		case 3:
			return "/no such word/"
		case 4:
			return []string{"99999999", "99999999", "99999999999999999999", "99999999999999999999-9223372036854775806", "18446744073709551617", "4294967297"}[r.N(6)]
		case 5:
			return "0"
		default:
			return fmt.Sprintf("%d-%d", r.N(n+2), r.N(n+4))
		}
	}
	off := func(base int) string {
		// an offset that stays inside
		t := 1 + r.N(max(n, 1))
		d := t - base
		switch {
		case d == 1 && r.N(2) == 0:
			return "+"
		case d == -1 && r.N(2) == 0:
			return "-"
		case d >= 0:
			return fmt.Sprintf("+%d", d)
		}
		return fmt.Sprintf("%d", d)
	}
	switch r.N(10) {
	case 0, 1, 2, 3:
		if zero && r.N(6) == 0 {
			return "0"
		}
		if n == 0 {
			return "0"
		}
		return fmt.Sprint(1 + r.N(n))
	case 4:
		return "."
	case 5:
		return "$"
	case 6:
		return "." + off(g.st.cur)
	case 7:
		return "$" + off(n)
	case 8:
		m := 1 + r.N(max(n, 1))
		return fmt.Sprint(m) + off(m)
	default:
		// a word that occurs
		for try := 0; try < 3 && n > 0; try++ {
			f := strings.Fields(g.st.lines[r.N(n)])
			if len(f) > 0 {
				w := f[r.N(len(f))]
				if len(w) < 40 && wordRe.MatchString(w) {
					a := "/" + w + "/"
					if r.N(3) == 0 {
						if x, ok := g.st.resolve(edAddr{set: true, kind: '/', word: w}); ok {
							a += off(x)
						}
					}
					return a
				}
			}
		}
		return "$"
	}
}

func (g *edGen) addrRange() string {
	r := g.r
	switch r.N(12) {
	case 0:
		return ""
	case 1:
		return ","
	case 2:
		return g.addr(false) + ","
	case 3:
		return "," + g.addr(false)
	case 4:
		return "1,$"
	case 5:
		return ".,$"
	case 6, 7, 8:
		n := len(g.st.lines)
		if n > 0 && !r.P(g.bad) {
			x := 1 + r.N(n)
			y := x + r.N(n-x+1)
			return fmt.Sprintf("%d,%d", x, y)
		}
		return g.addr(false) + "," + g.addr(false)
	case 9:
		return g.addr(false) + "," + g.addr(false)
	case 10:
		n := len(g.st.lines)
		if n > 0 {
			x := 1 + r.N(n)
			return fmt.Sprintf("%d;%d", x, x+r.N(n-x+1))
		}
		return ""
	default:
		return g.addr(false)
	}
}

// emit adds a command line with its text and carries it out in the model.
func (g *edGen) emit(line string, text []string) {
	g.buf = append(g.buf, line...)
	g.buf = append(g.buf, '\n')
	c := parseEd(strings.TrimSuffix(line, "\r"))
	if c.kind == 'a' || c.kind == 'i' || c.kind == 'c' {
		for _, t := range text {
			g.buf = append(g.buf, t...)
			g.buf = append(g.buf, '\n')
		}
		g.buf = append(g.buf, ".\n"...)
		c.text = text
	}
	o := g.st.apply(&c)
	switch {
	case o.load:
		if d, ok := g.fs[o.path]; ok {
			g.st.loaded(o.path, d)
		}
	case o.save:
		if strings.HasPrefix(o.path, "nodir") {
			break
		}
		if g.st.name == "" {
			g.st.name = o.path
		}
		g.fs[o.path] = joinLines(o.data)
	}
	g.out = append(g.out, line)
}

// names that e cannot load (mostly)
var notLoadable = []string{"nothere", "nothere", "dir", "noread", "loop", "nodir/x", "f/x"}

// Add one command.
func (g *edGen) step() {
	r := g.r
	if r.P(g.bad) && r.N(3) == 0 {
		switch r.N(3) {
		case 0:
			g.emit(malformed[r.N(len(malformed))], nil)
			return
		default:
			// fall through: bad addresses come from addr
		}
	}
	if r.P(g.save) {
		g.write()
		return
	}
	if r.P(g.load) {
		var names []string
		for n := range g.fs {
			names = append(names, n)
		}
		sortStrings(names)
		n := notLoadable[r.N(len(notLoadable))]
		if len(names) > 0 && !r.P(g.bad+50) {
			n = names[r.N(len(names))]
		}
		g.emit("e "+n, nil)
		return
	}
	sp := ""
	if r.N(20) == 0 {
		sp = " "
	}
	switch r.N(20) {
	case 0, 1, 2, 3:
		a := ""
		if r.N(2) == 0 {
			a = g.addr(true)
		}
		g.emit(a+sp+"a", g.text())
	case 4, 5, 6:
		a := ""
		if r.N(2) == 0 {
			a = g.addr(false)
		}
		if a == "0" {
			a = ""
		}
		g.emit(a+"i", g.text())
	case 7, 8:
		a := g.addrRange()
		g.emit(a+"c", g.text())
	case 9, 10, 11:
		g.emit(g.addrRange()+sp+"d", nil)
	case 12, 13:
		g.emit(g.addrRange()+sp+"p", nil)
	case 14:
		g.emit(g.addrRange()+sp+"n", nil)
	case 15:
		a := ""
		if r.N(2) == 0 {
			a = g.addr(false)
		}
		g.emit(a+"=", nil)
	case 16:
		g.emit("", nil)
	case 17:
		g.emit(g.addr(false), nil)
	case 18:
		g.emit(",p", nil)
	default:
		g.emit(".=", nil)
	}
}

func (g *edGen) write() {
	r := g.r
	name := ""
	if len(g.ws) > 0 && (g.st.name == "" || r.N(3) == 0) {
		name = " " + g.ws[r.N(len(g.ws))]
	}
	rg := ""
	if r.N(4) == 0 && len(g.st.lines) > 0 {
		rg = g.addrRange()
	}
	g.emit(rg+"w"+name, nil)
}

func sortStrings(l []string) {
	for i := 1; i < len(l); i++ {
		for j := i; j > 0 && l[j] < l[j-1]; j-- {
			l[j], l[j-1] = l[j-1], l[j]
		}
	}
}

// fileText makes the contents of a text file ed is to load.
func (g *edGen) fileText(lines int) string {
	r := g.r
	var b strings.Builder
	for i := 0; i < lines; i++ {
		b.WriteString(g.textLine())
		b.WriteByte('\n')
	}
	s := b.String()
	switch r.N(12) {
	case 0:
		s = strings.TrimSuffix(s, "\n")
	case 1:
		s += "\n\n"
	case 2:
		s = string(g.c.bytesOf(r, g.c.size(r, 3000)))
	}
	// what ed says about malformed commands must stay recognisable
	return strings.Replace(s, "parse error near", "", -1)
}

func newGen(c *Ctx, r *Rng) *edGen {
	return &edGen{c: c, r: r, fs: map[string]string{}, bad: 60, save: 60, load: 30}
}

// addTo puts a file into the scenario and tells the generator.
func (g *edGen) file(sc *Scenario, name, data string, mode uint32) {
	g.fs[name] = data
	sc.Files = append(sc.Files, kernel.FileSpec{Path: role(name), Data: []byte(data), Mode: mode})
}

// gates makes input arrive in given pieces: line by line, or by c.chunks.
func (c *Ctx) feed(r *Rng, data []byte) []kernel.Chunk {
	if r.N(3) == 0 {
		return c.chunks(r, data)
	}
	if r.N(2) == 0 {
		return []kernel.Chunk{{Data: data}}
	}
	var out []kernel.Chunk
	gate := r.N(2) == 0
	for _, l := range strings.SplitAfter(string(data), "\n") {
		if l != "" {
			out = append(out, kernel.Chunk{Data: []byte(l), Gate: gate})
		}
	}
	return out
}
