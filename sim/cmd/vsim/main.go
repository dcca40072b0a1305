// vsim checks the properties of /repo by deterministic simulation.
//
//	vsim check ID [-cases N] [-workers N] [-tier T] [-seed N]
//	vsim replay FILE
//	vsim build
//	vsim determinism ID...
package main

import (
	"bytes"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"

	"vsim/build"
	"vsim/check"
)

func fail(err error) {
	fmt.Fprintln(os.Stderr, "error of the check:", err)
	os.Exit(3)
}

func main() {
	debug.SetMemoryLimit(10 << 30)
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: vsim check|replay|build|determinism|list ...")
		os.Exit(2)
	}
	fs := flag.NewFlagSet("vsim", flag.ExitOnError)
	verif := fs.String("verif", "/verif", "")
	repo := fs.String("repo", "/repo", "")
	tier := fs.String("tier", os.Getenv("VERIF_TIER"), "")
	seed := fs.Uint64("seed", envSeed(), "")
	cases := fs.Int("cases", 0, "")
	workers := fs.Int("workers", 0, "")
	capS := fs.Int("cap", 0, "seconds")
	cmd := os.Args[1]
	var ids []string
	rest := os.Args[2:]
	for len(rest) > 0 && rest[0][0] != '-' {
		ids = append(ids, rest[0])
		rest = rest[1:]
	}
	fs.Parse(rest)
	if *tier == "" {
		*tier = "quick"
	}
	env := build.Env{Verif: *verif, Repo: *repo, Out: filepath.Join(*verif, ".build")}
	if *repo != "/repo" {
		env.Out = filepath.Join(*repo, ".vsim-build")
	}
	switch cmd {
	case "list":
		var l []string
		for id := range check.Props {
			l = append(l, id)
		}
		sort.Strings(l)
		for _, id := range l {
			fmt.Println(id)
		}
	case "build":
		progs, harness := map[string]bool{}, map[string]bool{}
		for _, p := range check.Props {
			for _, n := range p.Progs {
				progs[n] = true
			}
			for _, n := range p.Harness {
				harness[n] = true
			}
		}
		if _, err := build.Build(env, keys(progs), keys(harness)); err != nil {
			fail(err)
		}
	case "check":
		p := check.Props[ids[0]]
		if p == nil {
			fail(fmt.Errorf("no property %s", ids[0]))
		}
		bins, err := build.Build(env, p.Progs, p.Harness)
		if err != nil {
			fail(err)
		}
		o := check.Options{Verif: *verif, Repo: *repo, Tier: *tier, Seed: *seed, Workers: *workers, Cases: *cases}
		if *capS > 0 {
			o.Cap = time.Duration(*capS) * time.Second
		} else if *tier == "thorough" {
			o.Cap = 40 * time.Minute
		} else {
			o.Cap = 6 * time.Minute
		}
		os.Exit(check.Check(p, bins, o))
	case "replay":
		id, err := check.ReplayProp(ids[0])
		if err != nil {
			fail(err)
		}
		p := check.Props[id]
		if p == nil {
			fail(fmt.Errorf("no property %s", id))
		}
		bins, err := build.Build(env, p.Progs, p.Harness)
		if err != nil {
			fail(err)
		}
		ok, msg, err := check.ReplayFile(ids[0], bins)
		if err != nil {
			fail(err)
		}
		if !ok {
			fmt.Println("not reproduced:", msg)
			return
		}
		fmt.Println(msg)
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, ids[0])
		os.Exit(1)
	case "trace":
		id, err := check.ReplayProp(ids[0])
		if err != nil {
			fail(err)
		}
		p := check.Props[id]
		bins, err := build.Build(env, p.Progs, p.Harness)
		if err != nil {
			fail(err)
		}
		if err := check.TraceFile(ids[0], bins); err != nil {
			fail(err)
		}
	case "determinism":
		bad := false
		for _, id := range ids {
			p := check.Props[id]
			bins, err := build.Build(env, p.Progs, p.Harness)
			if err != nil {
				fail(err)
			}
			var logs [][]byte
			n := *cases
			if n == 0 {
				n = 60
			}
			tmp, err := os.MkdirTemp("", "vsim-det")
			if err != nil {
				fail(err)
			}
			for _, w := range []int{1, 8, 16} {
				f := filepath.Join(tmp, fmt.Sprint("log", w))
				o := check.Options{Verif: tmp, Repo: *repo, Tier: *tier, Seed: *seed, Workers: w, Cases: n, HashLog: f}
				if st := check.Check(p, bins, o); st == 3 {
					os.Exit(3)
				}
				b, _ := os.ReadFile(f)
				logs = append(logs, b)
			}
			os.RemoveAll(tmp)
			same := bytes.Equal(logs[0], logs[1]) && bytes.Equal(logs[1], logs[2])
			fmt.Printf("%s: %d seeds with 1, 8 and 16 workers: identical=%v\n", id, n, same)
			bad = bad || !same
			if !same {
				l := [3][]string{}
				for i := range l {
					l[i] = strings.Split(string(logs[i]), "\n")
				}
				for k := range l[0] {
					if k >= len(l[1]) || k >= len(l[2]) || l[0][k] != l[1][k] || l[1][k] != l[2][k] {
						fmt.Printf("%s: first difference in line %d: %s\n", id, k+1, l[0][k])
						break
					}
				}
			}
		}
		if bad {
			os.Exit(1)
		}
	default:
		fmt.Fprintln(os.Stderr, "unknown command", cmd)
		os.Exit(2)
	}
}

func keys(m map[string]bool) []string {
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

func envSeed() uint64 {
	v, err := strconv.ParseUint(os.Getenv("VERIF_SEED"), 10, 64)
	if err != nil {
		return 1
	}
	return v
}
