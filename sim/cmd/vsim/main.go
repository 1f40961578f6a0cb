// Command vsim runs the checks of the program simulator.
//
//	vsim check PROPERTY [-tier quick|thorough] [-seed N] [-budget 60s] [-runs N] [-from N]
//	vsim replay FILE
package main

import (
	"flag"
	"fmt"
	"os"
	"os/signal"
	"path/filepath"
	"strconv"
	"syscall"
	"time"

	"vsim/ev"
	"vsim/ps"
	"vsim/pt"
)

func fatal(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "vsim: "+f+"\n", a...)
	os.Exit(3)
}

func main() {
	if len(os.Args) < 3 {
		fatal("usage: vsim check PROPERTY | vsim replay FILE")
	}
	verb, what := os.Args[1], os.Args[2]
	fs := flag.NewFlagSet("vsim", flag.ExitOnError)
	tier := fs.String("tier", "quick", "quick or thorough")
	budget := fs.Duration("budget", 0, "time for the search")
	runs := fs.Int("runs", 0, "number of runs")
	from := fs.Int("from", 0, "first run")
	workers := fs.Int("workers", 8, "parallel simulators")
	verif := fs.String("verif", "/verif", "where evidence and replays go")
	seed := fs.Uint64("seed", 1, "seed")
	if s, err := strconv.ParseUint(os.Getenv("VERIF_SEED"), 10, 64); err == nil {
		*seed = s
	}
	fs.Parse(os.Args[3:])
	dir, err := os.MkdirTemp("", "vsim")
	if err != nil {
		fatal("%v", err)
	}
	cleanup := func() { os.RemoveAll(dir) }
	sig := make(chan os.Signal, 1)
	signal.Notify(sig, syscall.SIGTERM, syscall.SIGINT)
	go func() { <-sig; cleanup(); os.Exit(3) }()
	code := 3
	switch verb {
	case "check":
		code = check(dir, what, *tier, *seed, *budget, *runs, *from, *workers, *verif)
	case "replay":
		code = replay(dir, what)
	default:
		fmt.Fprintln(os.Stderr, "vsim: unknown command", verb)
	}
	cleanup()
	os.Exit(code)
}

func check(dir, prop, tier string, seed uint64, budget time.Duration, runs, from, workers int, verif string) int {
	start := time.Now()
	s := ps.Specs[prop]
	if s == nil {
		fmt.Fprintln(os.Stderr, "vsim: no such property", prop)
		return 3
	}
	if budget == 0 {
		budget = 45 * time.Second
		if tier == "thorough" {
			budget = 640 * time.Second
		}
	}
	t, err := ps.Setup(dir)
	if err != nil {
		fmt.Fprintln(os.Stderr, "vsim:", err)
		return 3
	}
	rep, err := t.Check(s, ps.Config{Verif: verif, Tier: tier, Seed: seed, Budget: budget, Workers: workers, MaxRuns: runs, From: from})
	if err != nil {
		fmt.Fprintln(os.Stderr, "vsim:", err)
		return 3
	}
	code, err := ev.Finish(verif, tier, seed, time.Since(start).Seconds(), rep)
	if err != nil {
		fmt.Fprintln(os.Stderr, "vsim:", err)
		return 3
	}
	fmt.Printf("%s: %v runs, %v programs, %.0f s, %d violations\n", prop, rep.Coverage["evaluations"], rep.Coverage["programs"], time.Since(start).Seconds(), len(rep.Violations))
	return code
}

func replay(dir, file string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Fprintln(os.Stderr, "vsim:", err)
		return 3
	}
	t, err := ps.Setup(dir)
	if err != nil {
		fmt.Fprintln(os.Stderr, "vsim:", err)
		return 3
	}
	pt.Prepare()
	class, detail, err := t.Replay(b)
	if err != nil {
		fmt.Fprintln(os.Stderr, "vsim:", err)
		return 3
	}
	if class != "" {
		abs, _ := filepath.Abs(file)
		fmt.Printf("reproduced %s: %s: %s\n", abs, class, detail)
		return 1
	}
	fmt.Println("not reproduced: the property holds on this case")
	return 0
}
