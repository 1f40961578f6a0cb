// Command psim runs the checks of the pipe simulator.
//
//	psim check PROPERTY -sim DIR [-tier quick|thorough] [-seed N] [-budget 60s] [-runs N]
//	psim replay FILE -sim DIR
package main

import (
	"flag"
	"fmt"
	"os"
	"os/signal"
	"path/filepath"
	"strconv"
	"strings"
	"syscall"
	"time"

	"vsim/ev"
	"vsim/pp"
)

func say(f string, a ...any) int {
	fmt.Fprintf(os.Stderr, "psim: "+f+"\n", a...)
	return 3
}

func main() {
	if len(os.Args) < 3 {
		os.Exit(say("usage: psim check PROPERTY | psim replay FILE"))
	}
	verb, what := os.Args[1], os.Args[2]
	fs := flag.NewFlagSet("psim", flag.ExitOnError)
	tier := fs.String("tier", "quick", "quick or thorough")
	budget := fs.Duration("budget", 0, "time for the search")
	runs := fs.Int("runs", 0, "number of runs")
	workers := fs.Int("workers", 8, "parallel simulators")
	verif := fs.String("verif", "/verif", "where evidence and replays go")
	sim := fs.String("sim", "/verif/sim", "sources of the simulator")
	seed := fs.Uint64("seed", 1, "seed")
	if s, err := strconv.ParseUint(os.Getenv("VERIF_SEED"), 10, 64); err == nil {
		*seed = s
	}
	fs.Parse(os.Args[3:])
	dir, err := os.MkdirTemp("", "psim")
	if err != nil {
		os.Exit(say("%v", err))
	}
	sig := make(chan os.Signal, 1)
	signal.Notify(sig, syscall.SIGTERM, syscall.SIGINT)
	go func() { <-sig; os.RemoveAll(dir); os.Exit(3) }()
	start := time.Now()
	t, err := pp.Build(*sim, dir)
	code := 3
	switch {
	case err != nil:
		say("%v", err)
	case verb == "check":
		if *budget == 0 {
			*budget = 40 * time.Second
			if *tier == "thorough" {
				*budget = 600 * time.Second
			}
		}
		code = check(t, pp.Config{Verif: *verif, Tier: *tier, Seed: *seed, Budget: *budget, Workers: *workers, MaxRuns: *runs, Prop: what}, start)
	case verb == "replay":
		code = replay(t, what)
	default:
		say("unknown command %s", verb)
	}
	os.RemoveAll(dir)
	os.Exit(code)
}

func check(t *pp.Tool, c pp.Config, start time.Time) int {
	rep, err := t.Check(c)
	if err != nil {
		return say("%v", err)
	}
	code, err := ev.Finish(c.Verif, c.Tier, c.Seed, time.Since(start).Seconds(), rep)
	if err != nil {
		return say("%v", err)
	}
	fmt.Printf("%s: %v runs, %v faults, %.0f s, %d violations\n", c.Prop, rep.Coverage["evaluations"], rep.Coverage["faults_injected"], time.Since(start).Seconds(), len(rep.Violations))
	return code
}

func replay(t *pp.Tool, file string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		return say("%v", err)
	}
	v, err := t.Replay(b)
	if err != nil {
		return say("%v", err)
	}
	if v.Class == "" {
		fmt.Println("not reproduced: the property holds on this case")
		return 0
	}
	abs, _ := filepath.Abs(file)
	fmt.Printf("reproduced %s: %s\n", abs, pp.Describe(v))
	if len(v.Trace) > 0 {
		fmt.Println("  " + strings.Join(v.Trace, "\n  "))
	}
	return 1
}
