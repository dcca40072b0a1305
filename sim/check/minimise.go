package check

import (
	"bytes"
	"time"

	"vsim/kernel"
)

// minimise shrinks a failing scenario while the same class of violation stays.
func minimise(c *Ctx, sc *Scenario, v *Violation) *Scenario {
	best := sc
	deadline := time.Now().Add(40 * time.Second)
	budget := 1500
	fails := func(t *Scenario) bool {
		if budget <= 0 || time.Now().After(deadline) {
			return false
		}
		budget--
		_, w, err := c.judge(t)
		return err == nil && w != nil && w.Class == v.Class
	}
	live := func() bool { return budget > 0 && time.Now().Before(deadline) }
	try := func(edit func(t *Scenario) bool) bool {
		if !live() {
			return false
		}
		t := best.Clone()
		if !edit(t) {
			return false
		}
		if fails(t) {
			best = t
			return true
		}
		return false
	}
	// 1. no perturbations at all
	benign := try(func(t *Scenario) bool {
		t.UseDecisions, t.Decisions, t.Knobs = true, nil, kernel.Knobs{}
		return true
	})
	for round := 0; round < 3; round++ {
		before := budget
		changed := false
		// 2. drop faults
		for i := len(best.Faults) - 1; i >= 0; i-- {
			i := i
			changed = try(func(t *Scenario) bool { t.Faults = append(t.Faults[:i], t.Faults[i+1:]...); return true }) || changed
		}
		for i := len(best.Foreign) - 1; i >= 0; i-- {
			i := i
			changed = try(func(t *Scenario) bool { t.Foreign = append(t.Foreign[:i], t.Foreign[i+1:]...); return true }) || changed
		}
		for i := len(best.Kills) - 1; i >= 0; i-- {
			i := i
			changed = try(func(t *Scenario) bool { t.Kills = append(t.Kills[:i], t.Kills[i+1:]...); return true }) || changed
		}
		for i := len(best.Bad) - 1; i >= 0; i-- {
			i := i
			changed = try(func(t *Scenario) bool { t.Bad = append(t.Bad[:i], t.Bad[i+1:]...); return true }) || changed
		}
		if best.Quota != nil {
			changed = try(func(t *Scenario) bool { t.Quota = nil; return true }) || changed
		}
		for i := len(best.Table) - 1; i >= 0; i-- {
			i := i
			changed = try(func(t *Scenario) bool { t.Table = append(t.Table[:i], t.Table[i+1:]...); return true }) || changed
		}
		// 3. drop processes
		for i := len(best.Procs) - 1; i > 0 && len(best.Faults) == 0 && len(best.Kills) == 0; i-- {
			i := i
			changed = try(func(t *Scenario) bool { t.Procs = append(t.Procs[:i], t.Procs[i+1:]...); return true }) || changed
		}
		// 4. input: one chunk, fewer lines, shorter lines
		for pi := range best.Procs {
			pi := pi
			p := &best.Procs[pi]
			if p.StdoutLimit >= 0 {
				changed = try(func(t *Scenario) bool { t.Procs[pi].StdoutLimit = -1; return true }) || changed
			}
			if len(p.Stdin) > 1 {
				changed = try(func(t *Scenario) bool {
					var all []byte
					for _, ch := range t.Procs[pi].Stdin {
						all = append(all, ch.Data...)
					}
					t.Procs[pi].Stdin = []kernel.Chunk{{Data: all}}
					return true
				}) || changed
			}
			for ci := len(best.Procs[pi].Stdin) - 1; ci >= 0; ci-- {
				ci := ci
				if ci >= len(best.Procs[pi].Stdin) {
					continue
				}
				changed = shrinkBlob(live, func() []byte { return best.Procs[pi].Stdin[ci].Data }, func(b []byte) bool {
					return try(func(t *Scenario) bool { t.Procs[pi].Stdin[ci].Data = b; return true })
				}) || changed
			}
			for ai := len(best.Procs[pi].Args) - 1; ai >= 0; ai-- {
				ai := ai
				changed = try(func(t *Scenario) bool {
					a := t.Procs[pi].Args
					t.Procs[pi].Args = append(a[:ai], a[ai+1:]...)
					return true
				}) || changed
			}
			for ei := len(best.Procs[pi].Env) - 1; ei >= 0; ei-- {
				ei := ei
				changed = try(func(t *Scenario) bool {
					a := t.Procs[pi].Env
					t.Procs[pi].Env = append(a[:ei], a[ei+1:]...)
					return true
				}) || changed
			}
		}
		// 5. files
		for i := len(best.Files) - 1; i >= 0; i-- {
			i := i
			if try(func(t *Scenario) bool { t.Files = append(t.Files[:i], t.Files[i+1:]...); return true }) {
				changed = true
				continue
			}
			if n := best.Files[i].Rep; n > 1 {
				for _, k := range []int{0, n / 2, n - 1} {
					if try(func(t *Scenario) bool { t.Files[i].Rep = k; return true }) {
						changed = true
						break
					}
				}
			}
			if best.Files[i].NoSize {
				changed = try(func(t *Scenario) bool { t.Files[i].NoSize = false; return true }) || changed
			}
			changed = shrinkBlob(live, func() []byte { return best.Files[i].Data }, func(b []byte) bool {
				return try(func(t *Scenario) bool { t.Files[i].Data = b; return true })
			}) || changed
		}
		if !changed || budget == before {
			break
		}
	}
	// 6. decisions
	if !benign {
		if !best.UseDecisions {
			res, w, err := c.judge(best)
			if err == nil && w != nil && w.Class == v.Class && res != nil {
				t := best.Clone()
				t.UseDecisions = true
				t.Decisions = trim(res.Decisions)
				if fails(t) {
					best = t
				}
			}
		}
		if best.UseDecisions {
			for size := (len(best.Decisions) + 1) / 2; size >= 1; size /= 2 {
				for at := 0; at < len(best.Decisions) && live(); at += size {
					at := at
					try(func(t *Scenario) bool {
						any := false
						for i := at; i < at+size && i < len(t.Decisions); i++ {
							if t.Decisions[i] != 0 {
								t.Decisions[i] = 0
								any = true
							}
						}
						t.Decisions = trim(t.Decisions)
						return any
					})
				}
				if budget <= 0 {
					break
				}
			}
		}
	}
	return best
}

// shrinkBlob removes lines, then bytes.
func shrinkBlob(live func() bool, get func() []byte, set func([]byte) bool) bool {
	changed := false
	// ddmin over lines
	for size := bytes.Count(get(), []byte("\n")) + 1; size >= 1; size /= 2 {
		for at := 0; live(); {
			lines := bytes.SplitAfter(get(), []byte("\n"))
			if at >= len(lines) {
				break
			}
			end := min(at+size, len(lines))
			var b []byte
			for i, l := range lines {
				if i < at || i >= end {
					b = append(b, l...)
				}
			}
			if len(b) < len(get()) && set(b) {
				changed = true
			} else {
				at += size
			}
		}
	}
	// halve long runs of bytes
	n := 0
	for size := len(get()) / 2; size >= 1 && n < 60 && live(); size /= 2 {
		for at := 0; at+size <= len(get()) && n < 60; {
			n++
			d := get()
			b := append(append([]byte(nil), d[:at]...), d[at+size:]...)
			if set(b) {
				changed = true
			} else {
				at += size
			}
		}
	}
	return changed
}
