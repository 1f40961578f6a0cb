package pp

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"time"

	"vsim/ev"
	"vsim/pipe"
)

// Config of a check.
type Config struct {
	Verif, Tier string
	Seed        uint64
	Budget      time.Duration
	Workers     int
	MaxRuns     int
	Prop        string
}

type found struct {
	index int
	s     *pipe.Scenario
}

type search struct {
	mu               sync.Mutex
	t                *Tool
	c                Config
	st               *pipe.Stats
	hashes, distinct map[uint64]bool
	found            []found
	stop             chan struct{}
	stopped          bool
	err              error
	crashes          int
	lost             map[string]int
}

func (s *search) halt() {
	if !s.stopped {
		s.stopped = true
		close(s.stop)
	}
}

func (s *search) message(m *pipe.Message) {
	s.mu.Lock()
	defer s.mu.Unlock()
	switch m.Kind {
	case "violation":
		for _, f := range s.found {
			if f.s.Class == m.Scenario.Class && f.index <= m.Index {
				return
			}
		}
		s.found = append(s.found, found{m.Index, m.Scenario})
		s.halt()
	case "stats":
		a, b := s.st, m.Stats
		a.Evals += b.Evals
		a.Discarded += b.Discarded
		a.Worlds += b.Worlds
		a.Commands += b.Commands
		a.Ops += b.Ops
		a.Switches += b.Switches
		a.Slept += b.Slept
		a.Nondet += b.Nondet
		for k, v := range b.Faults {
			a.Faults[k] += v
		}
		for k, v := range b.Exits {
			a.Exits[k] += v
		}
		for k, v := range b.Notes {
			a.Notes[k] += v
		}
		for _, x := range b.Samples {
			if x != "" {
				a.Samples = append(a.Samples, x)
			}
		}
		for _, h := range m.Hashes {
			s.hashes[h] = true
		}
		for _, h := range m.Distinct {
			s.distinct[h] = true
		}
	}
}

// matters tells for which properties a dead worker is a violation.
var matters = map[string]bool{"C10": true, "C16": true, "C18": true}

// one worker process after another, until time is up.
func (s *search) worker(k int, end time.Time) {
	from := k
	status := filepath.Join(s.t.Dir, fmt.Sprintf("status%d", k))
	for {
		left := time.Until(end)
		if left < time.Second || from >= s.c.MaxRuns {
			return
		}
		os.WriteFile(status, []byte(fmt.Sprintf("%-40d\n", from)), 0o644)
		c := exec.Command(s.t.Worker, "run", s.c.Prop, fmt.Sprint(s.c.Seed), fmt.Sprint(from), fmt.Sprint(s.c.Workers), fmt.Sprint(s.c.MaxRuns), fmt.Sprint(int(left.Seconds()+0.5)), status)
		errs := &tail{}
		c.Stderr = errs
		out, err := c.StdoutPipe()
		if err == nil {
			err = c.Start()
		}
		if err != nil {
			s.fail(err)
			return
		}
		done := make(chan struct{})
		go func() {
			defer close(done)
			sc := bufio.NewScanner(out)
			sc.Buffer(nil, 1<<28)
			for sc.Scan() {
				m := new(pipe.Message)
				if json.Unmarshal(sc.Bytes(), m) == nil {
					s.message(m)
				}
			}
		}()
		hung := false
		last, lastChange := "", time.Now()
		tick := time.NewTicker(500 * time.Millisecond)
	wait:
		for {
			select {
			case <-done:
				break wait
			case <-s.stop:
				c.Process.Kill()
				<-done
				break wait
			case <-tick.C:
				b, _ := os.ReadFile(status)
				if string(b) != last {
					last, lastChange = string(b), time.Now()
				} else if time.Since(lastChange) > Limit {
					hung = true
					c.Process.Kill()
					<-done
					break wait
				}
			}
		}
		tick.Stop()
		err = c.Wait()
		s.mu.Lock()
		stopped := s.stopped
		s.mu.Unlock()
		if stopped || err == nil && !hung {
			return
		}
		if c.ProcessState.ExitCode() == 3 {
			s.fail(fmt.Errorf("worker: %s", head(errs.b.String())))
			return
		}
		b, _ := os.ReadFile(status)
		i := from
		fmt.Sscan(string(b), &i)
		s.diagnose(i, head(errs.b.String()))
		from = i + s.c.Workers
	}
}

func (s *search) fail(err error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.err == nil {
		s.err = err
	}
	s.halt()
}

// Scenario generates the scenario of a run in a process of its own.
func (t *Tool) Scenario(prop string, seed uint64, i int) *pipe.Scenario {
	for _, verb := range []string{"gen", "gen-blind"} {
		c := exec.Command(t.Worker, verb, prop, fmt.Sprint(seed), fmt.Sprint(i))
		timer := time.AfterFunc(Limit, func() { c.Process.Kill() })
		out, err := c.Output()
		timer.Stop()
		m := new(pipe.Message)
		if err == nil && json.Unmarshal(out, m) == nil && m.Scenario != nil {
			return m.Scenario
		}
	}
	return nil
}

// diagnose looks into a run over which a worker died.
func (s *search) diagnose(i int, msg string) {
	sc := s.t.Scenario(s.c.Prop, s.c.Seed, i)
	s.mu.Lock()
	s.crashes++
	s.mu.Unlock()
	if sc == nil {
		s.fail(fmt.Errorf("no scenario for run %d: %s", i, msg))
		return
	}
	srv := &Server{t: s.t}
	defer srv.Close()
	v, err := srv.Eval(sc, Limit)
	if err != nil {
		s.fail(err)
		return
	}
	if v.Class == "" {
		s.mu.Lock()
		s.lost["worker died once: "+msg]++
		n := len(s.lost)
		s.mu.Unlock()
		if n > 20 {
			s.fail(fmt.Errorf("workers die: %s", msg))
		}
		return
	}
	if (v.Class == "crash" || v.Class == "hang") && !matters[s.c.Prop] {
		s.mu.Lock()
		s.lost[v.Class]++
		s.mu.Unlock()
		return
	}
	sc.Class, sc.Detail = v.Class, v.Detail
	s.message(&pipe.Message{Kind: "violation", Index: i, Scenario: sc})
}

// Check searches for violations.
func (t *Tool) Check(c Config) (*ev.Report, error) {
	start := time.Now()
	s := &search{t: t, c: c, stop: make(chan struct{}), hashes: map[uint64]bool{}, distinct: map[uint64]bool{}, lost: map[string]int{},
		st: &pipe.Stats{Faults: map[string]int{}, Exits: map[string]int{}, Notes: map[string]int{}}}
	if s.c.MaxRuns == 0 {
		s.c.MaxRuns = 1 << 40
	}
	end := start.Add(c.Budget)
	var wg sync.WaitGroup
	for k := 0; k < c.Workers; k++ {
		wg.Add(1)
		go func() { defer wg.Done(); s.worker(k, end) }()
	}
	wg.Wait()
	if s.err != nil && len(s.found) == 0 {
		return nil, s.err
	}
	searched := time.Since(start).Seconds()
	rep := &ev.Report{Property: c.Prop, Assumptions: assume(c.Prop)}
	unconfirmed := 0
	classes := map[string]bool{}
	for _, f := range s.found {
		if classes[f.s.Class] || len(classes) >= 2 {
			continue
		}
		class := f.s.Class
		srv := &Server{t: t}
		confirmed := false
		for try := 0; try < 4 && !confirmed; try++ {
			v, err := srv.Eval(f.s, Limit)
			if err != nil {
				return nil, err
			}
			confirmed = v.Class == class
		}
		if !confirmed {
			unconfirmed++
			srv.Close()
			fmt.Fprintf(os.Stderr, "psim: run %d: %s: %s: not repeatable\n", f.index, class, f.s.Detail)
			continue
		}
		classes[class] = true
		best := minimise(srv, f.s, 60*time.Second)
		srv.Close()
		b, _ := json.MarshalIndent(best, "", " ")
		p, err := ev.WriteReplay(c.Verif, c.Prop, f.s.Seed, append(b, '\n'))
		if err != nil {
			return nil, err
		}
		rep.Violations = append(rep.Violations, ev.Violation{Class: class, Key: class, Detail: fmt.Sprintf("run %d: %s", f.index, best.Detail), Replay: p})
	}
	st := s.st
	if st.Evals == 0 && len(rep.Violations) == 0 {
		return nil, fmt.Errorf("no run was completed")
	}
	faults := 0
	for _, n := range st.Faults {
		faults += n
	}
	samples := st.Samples
	if len(samples) > 6 {
		samples = samples[:6]
	}
	rep.Coverage = map[string]any{
		"evaluations": st.Evals, "distinct_nontrivial": len(s.distinct), "discarded": st.Discarded, "rule": rules[c.Prop], "samples": samples,
		"seed_range":                  fmt.Sprintf("run i of seed %d draws everything from mix(seed, i, property)", c.Seed),
		"seeds_per_hour":              int(float64(st.Evals) / searched * 3600),
		"simulated_worlds":            st.Worlds,
		"simulated_worlds_per_h":      int(float64(st.Worlds) / searched * 3600),
		"simulated_compiler_runs":     st.Commands,
		"simulated_operations":        st.Ops,
		"simulated_time_s":            st.Slept,
		"simulated_time_note":         "the compiler never waits for time to pass, so progress is counted in operations of the simulated system; simulated time advances only if it sleeps",
		"process_switches":            st.Switches,
		"faults_injected":             faults,
		"faults_by_kind":              st.Faults,
		"process_ends":                st.Exits,
		"distinct_operation_traces":   len(s.hashes),
		"distinct_measure":            "distinct_operation_traces: hash over the complete sequence of (process, operation, path, fault) of a world, context switches included; distinct_nontrivial: " + nontrivial[c.Prop],
		"notes":                       st.Notes,
		"repeated_runs_that_differed": st.Nondet,
		"worker_deaths":               s.crashes,
		"unrepeatable":                unconfirmed,
		"real_components":             "driver, option parser (pflag, color), lexer, parser, IR builder and printer (llir): the repository's code, rewritten only at its imports, map ranges and go statements",
		"stub_components":             "operating system (files, processes, streams, time), clang (reads its inputs, writes a digest of contents and options, fails on request)" + map[bool]string{true: "; LLVM's verifier is the real llvm-as", false: ""}[c.Prop == "C18"],
		"search_s":                    searched,
	}
	if len(s.lost) > 0 {
		rep.Coverage["lost"] = s.lost
	}
	return rep, nil
}

// Replay evaluates a replay file.
func (t *Tool) Replay(b []byte) (*pipe.Verdict, error) {
	s := new(pipe.Scenario)
	if err := json.Unmarshal(b, s); err != nil {
		return nil, err
	}
	srv := &Server{t: t}
	defer srv.Close()
	return srv.Eval(s, 2*Limit)
}

const tailRule = " A run is one seed: its files, command lines, schedule and faults all follow from it. Counted as distinct and non-trivial: "

var nontrivial = map[string]string{
	"C10": "operation traces, with command lines, in which at least one fault happened",
	"C11": "operation traces, with command lines, in which the command failed",
	"C12": "operation traces, with command lines, of commands that ended by themselves",
	"C13": "operation traces, with command lines, with at least one change of the file system",
	"C14": "operation traces, with command lines, with at least one context switch between processes",
	"C15": "operation traces, with command lines, in which at least one process was killed",
	"C16": "operation traces, with command lines, with at least one partial delivery or read error",
	"C17": "operation traces, with command lines, with at least one comparison of IR",
	"C18": "distinct sources compiled to the end",
	"C19": "operation traces, with command lines, whose runs of clang were examined",
	"C20": "operation traces, with command lines, with at least one output compared with that of the source alone",
}

var rules = map[string]string{
	"C10": "Random command lines over all modes, options and input kinds, with up to three failing operations (any class, any occurrence, once or from then on), a full disk, or failing, crashing or killed clang; exit 0 must mean that every requested output equals that of the fault-free run, failure must come with a diagnostic, and a fault-free run on valid input must exit 0.",
	"C11": "As C10, more defective inputs, with and without previous outputs; after a failure every requested output must be absent, complete, or as before.",
	"C12": "As C10; after every run that ended by itself nothing may exist that was not there before, other than requested outputs and, with --save-temps, the documented intermediate files, whose content must be the IR of their source after a success.",
	"C13": "As C10 with one to three concurrent commands, bystanders under tempting names in all directories involved, and kills; every change of the file system is checked as it happens against the commands' own files, and every other file must be untouched afterwards.",
	"C14": "Two to five commands with distinct outputs in the same directories, often of the same sources, interleaved operation by operation at random, sometimes with one of them killed; each must end as it does alone.",
	"C15": "A command is killed at a random operation, one to three times, sometimes its sources change, and then it runs to the end; the final state must be that of a single run.",
	"C16": "The same sources delivered whole, in random pieces, and with a read failing at random points, some sources damaged or unreadable; pieces must make no difference and a failing read must make the command fail.",
	"C17": "The same source compiled plainly and in several other ways: map iteration orders, directories, names, environments, options, modes, companions, concurrently; the IR, as written or as read by clang, must be byte-identical.",
	"C18": "Valid programs damaged at random (truncated, bytes and tokens lost, doubled, flipped, exchanged, spliced), token soup, statement soup and extreme shapes; each must be rejected with a diagnostic or give a module that llvm-as verifies, without panic, crash or hang.",
	"C19": "Random command lines over all modes, options, placements, spellings and inputs, default directories present or not, clang missing, failing, crashing or killed; every run of clang is compared with what the command line means, and the outputs with what clang makes of the right inputs.",
	"C20": "One to six inputs in random order from several directories, some defective or unreadable, some with failing reads; each output must equal that of its source alone, and a defective input must make the command fail.",
}

func init() {
	for k := range rules {
		rules[k] += tailRule + nontrivial[k] + "."
	}
}

func assume(p string) []string {
	l := []string{
		"the simulated operating system behaves like Linux on the calls the compiler makes",
		"the clang stub stands for clang: it reads all inputs, writes its output in place in several steps, removes it on failure, and leaves it when killed",
	}
	switch p {
	case "C13", "C15", "C14":
		l = append(l, "killing blang kills its clang as well (process group)")
	}
	switch p {
	case "C14":
		l = append(l, "concurrent commands that link several sources do not use --save-temps, whose documented names they would share")
	case "C15":
		l = append(l, "a kill loses no writes that completed: the machine itself stays up")
	}
	return l
}

// Describe is for messages.
func Describe(v *pipe.Verdict) string {
	return strings.TrimSpace(v.Class + ": " + v.Detail)
}
