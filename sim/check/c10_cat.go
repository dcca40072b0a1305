package check

import (
	"bytes"

	"vsim/kernel"
)

func catOps(sc *Scenario) (ops []string, unbuf bool) {
	for _, a := range sc.Procs[0].Args {
		if a == "-u" {
			unbuf = true
			continue
		}
		ops = append(ops, a)
	}
	if len(ops) == 0 {
		ops = []string{"-"}
	}
	return
}

// catWant is the concatenation of the operands; start[i] is where operand i
// begins in it.
func catWant(ins []input) (all []byte, start []int, ok bool) {
	ok = true
	for _, in := range ins {
		start = append(start, len(all))
		all = append(all, in.data...)
		ok = ok && in.ok
	}
	return
}

func catScenario(c *Ctx, r *Rng, badOps bool) *Scenario {
	sc := baseScenario(r)
	sc.Procs = one("cat")
	var args []string
	n := []int{0, 1, 1, 2, 2, 3, 5}[r.N(7)]
	for i := 0; i < n; i++ {
		switch {
		case r.N(4) == 0:
			args = append(args, "-")
		case badOps && r.N(6) == 0:
			args = append(args, badOperand(r, sc))
		case r.N(12) == 0:
			args = append(args, "/dev/null")
		case r.N(8) == 0 && len(args) > 0:
			args = append(args, args[r.N(len(args))])
		default:
			args = append(args, addFile(r, sc, c.bytesOf(r, c.size(r, 200000))))
		}
	}
	if r.N(3) == 0 {
		args = append([]string{"-u"}, args...)
	}
	sc.Procs[0].Args = args
	c.setStdin(r, sc, c.bytesOf(r, c.size(r, 200000)))
	return sc
}

func init() {
	register(&Prop{
		ID: "C10", Progs: []string{"cat"}, Quick: 12000, Thorough: 60000,
		Rule: "Random operand lists, contents and arrival patterns for cat; each seed is run benign, perturbed, and with a fault at sampled opens, reads and writes of its own trace.",
		Case: func(c *Ctx, r *Rng) {
			if c.bigCase(r, "cat") {
				return
			}
			sc := catScenario(c, r, true)
			faults := alias(r, sc)
			res := c.Try(sc)
			t := withKnobs(r, sc)
			c.Try(t)
			ops, unbuf := catOps(sc)
			if faults {
				c.inputFaults(r, t, res, ops, 4)
			}
			c.outputFaults(r, t, res, 3)
			if unbuf && !sc.Procs[0].StdinFile {
				s := withKnobs(r, sc)
				s.Procs[0].StdinEnd = "stall"
				for i := range s.Procs[0].Stdin {
					s.Procs[0].Stdin[i].Gate = r.N(2) == 0
				}
				c.Try(s)
			}
		},
		Judge: func(c *Ctx, sc *Scenario) (*Result, *Violation) {
			res := c.Run(sc, nil)
			p := &res.Procs[0]
			if v := hung(p); v != nil {
				return res, v
			}
			ops, unbuf := catOps(sc)
			ins := inputs(sc, 0, ops)
			want, start, readable := catWant(ins)
			if !prefix(p.Stdout, want) {
				return res, bad("wrong-output", "not the concatenation: %s", where(p.Stdout, want))
			}
			if unbuf {
				// everything given before a wait has been passed on
				for i, op := range ops {
					if op == "-" {
						for _, q := range p.Quiet {
							if len(failures(res, 0, ops)) == 0 && !p.OutLost && q.Out < start[i]+q.In {
								return res, bad("held-back", "cat -u waits for input although only %d of %d bytes were passed on", q.Out, start[i]+q.In)
							}
						}
						break
					}
				}
			}
			if p.Stalled {
				if sc.Procs[0].StdinEnd == "stall" && bytes.IndexByte([]byte(join(ops)), '-') >= 0 {
					return res, nil
				}
				return res, bad("hang", "cat waits for ever")
			}
			fl := failures(res, 0, ops)
			if len(fl) > 0 || !readable || p.OutLost {
				if p.Exit == 0 && (len(fl) > 0 || !readable || len(p.Stdout) < len(want)) {
					return res, bad("false-success", "an operand could not be read or the output not written, and the exit status is 0 (%d of %d bytes written)", len(p.Stdout), len(want))
				}
				if p.Signal != 0 && p.Signal != 13 {
					return res, bad("signal", "ended by signal %d: %s", p.Signal, p.Diag)
				}
				if p.Signal != 13 && !diagnosed(p) {
					return res, bad("no-diagnostic", "failed without a diagnostic")
				}
				return res, nil
			}
			if len(p.Stdout) != len(want) {
				return res, bad("wrong-output", "not the whole concatenation: %s", where(p.Stdout, want))
			}
			if p.Exit != 0 {
				return res, bad("exit", "everything was copied but the exit status is %d: %s%s", p.Exit, p.Stderr, clip(p.Diag, 300))
			}
			return res, nil
		},
	})
}

func join(l []string) string {
	s := ""
	for _, x := range l {
		s += x + "\x00"
	}
	return s
}

var _ = kernel.EIO
