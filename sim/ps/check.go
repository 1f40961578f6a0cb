package ps

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"

	"vsim/bl"
	"vsim/ev"
	"vsim/kern"
	"vsim/pt"
	"vsim/rng"
)

// Case is one complete simulated run: it is what a replay file holds.
type Case struct {
	Kind     string         `json:"kind"` // "model" or "pair"
	Property string         `json:"property"`
	Seed     uint64         `json:"seed"`
	Class    string         `json:"class"`
	Detail   string         `json:"detail"`
	Routes   []Route        `json:"routes"`
	Assign   map[string]int `json:"assign,omitempty"` // definition -> file, for the second route
	Files    int            `json:"files,omitempty"`
	Style    uint64         `json:"style"`
	Small    bool           `json:"small_stack,omitempty"`
	Env      *kern.Env      `json:"env"`
	Prog     *bl.Program    `json:"prog"`
	Text     [][]string     `json:"text"`
}

// render produces the sources for each route.
func (c *Case) render() {
	c.Text = nil
	for i := range c.Routes {
		n := 1
		if i == 1 && c.Files > 1 {
			n = c.Files
		}
		parts := make([][]bl.Top, n)
		for _, t := range c.Prog.Tops {
			k := 0
			if n > 1 {
				name := ""
				if t.G != nil {
					name = t.G.Name
				} else {
					name = t.F.Name
				}
				k = c.Assign[name]
			}
			parts[k] = append(parts[k], t)
		}
		var texts []string
		for j, p := range parts {
			texts = append(texts, bl.Text(p, style(c.Style, j)))
		}
		c.Text = append(c.Text, texts)
	}
}

func style(seed uint64, j int) bl.Style {
	if seed == 0 {
		return bl.Style{}
	}
	r := rng.New(rng.Mix(seed, uint64(j)))
	return bl.Style{R: r, Comments: r.P(1, 3), Parens: r.P(1, 2), Tight: r.P(1, 5)}
}

func (c *Case) ref() (*bl.Outcome, error) {
	o := bl.Options{Fuel: 6000000, MaxDepth: 3000}
	a, err := bl.Run(c.Prog, c.Env, o)
	if err != nil {
		return nil, err
	}
	o.RTL = true
	b, err := bl.Run(c.Prog, c.Env, o)
	if err != nil {
		return nil, err
	}
	if kern.Diff(a.Hist, b.Hist) != "" {
		return nil, bl.Invalid{Msg: "depends on the order of evaluation"}
	}
	return a, nil
}

func smallStack(o *bl.Outcome) int64 {
	return 160<<10 + int64(o.MaxDepth)*8<<10 + o.MaxWords*16
}

func limits(o *bl.Outcome) pt.Limits {
	n := 0
	for _, e := range o.Hist {
		n += 8 + len(e.Data)
	}
	l := pt.Limits{CPUSeconds: 10, MaxEvents: len(o.Hist) + 2000, MaxBytes: 2*n + 1<<17}
	if h := o.Hist; len(h) > 0 && h[len(h)-1].Op == 's' {
		l.Spin, l.SpinAfter = true, len(h)-1
	}
	return l
}

// judge compares a real run with the expected history.
func judge(want []kern.Ev, got *pt.Result) (class, detail string) {
	d := kern.Diff(want, got.Hist)
	switch got.End {
	case pt.Crashed:
		return "crash", fmt.Sprintf("crashed: %s; %s", got.Detail, d)
	case pt.Hung:
		return "hang", fmt.Sprintf("%s; %s", got.Detail, d)
	case pt.BadSyscall:
		return "syscall", fmt.Sprintf("foreign %s; %s", got.Detail, d)
	case pt.Flood:
		return "flood", fmt.Sprintf("runaway: %s; %s", got.Detail, d)
	}
	if d != "" {
		return "behaviour", d
	}
	return "", ""
}

// Evaluate runs the case from scratch. Class "" means the property held;
// invalid means the case says nothing.
func (t *Tools) Evaluate(c *Case, dir string) (class, detail string, invalid bool, err error) {
	want, e := c.ref()
	if e != nil {
		return "", e.Error(), true, nil
	}
	if len(c.Text) != len(c.Routes) {
		c.render()
	}
	defer os.RemoveAll(dir)
	env := *c.Env
	if c.Small {
		env.Stack = smallStack(want)
	}
	var res []*pt.Result
	var fails []string
	for i, r := range c.Routes {
		d := filepath.Join(dir, fmt.Sprint(i))
		exe, fail, err := t.Make(d, c.Text[i], r)
		if err != nil {
			return "", "", false, err
		}
		fails = append(fails, fail)
		if fail != "" {
			res = append(res, nil)
			continue
		}
		got, err := pt.Run(exe, &env, limits(want))
		if err != nil {
			return "", "", false, err
		}
		res = append(res, got)
	}
	class, detail = verdict(c, want, fails, res)
	return class, detail, false, nil
}

func verdict(c *Case, want *bl.Outcome, fails []string, res []*pt.Result) (class, detail string) {
	if c.Kind == "model" {
		if fails[0] != "" {
			return "build", fails[0]
		}
		return judge(want.Hist, res[0])
	}
	a, b := res[0], res[1]
	switch {
	case fails[0] != "" && fails[1] != "":
		return "", ""
	case fails[0] != "" || fails[1] != "":
		return "build", fmt.Sprintf("one build works, the other (%s) fails: %s%s", c.Routes[which(fails)], fails[0], fails[1])
	}
	if a.End == b.End && a.End != pt.Exited {
		return "", ""
	}
	if a.End != b.End {
		return "end", fmt.Sprintf("%s: %s %s; %s: %s %s", c.Routes[0], a.End, a.Detail, c.Routes[1], b.End, b.Detail)
	}
	if d := kern.Diff(a.Hist, b.Hist); d != "" {
		return "behaviour", fmt.Sprintf("[%s] against [%s]: %s", c.Routes[0], c.Routes[1], d)
	}
	return "", ""
}

func which(f []string) int {
	if f[0] != "" {
		return 0
	}
	return 1
}

// Spec describes the check of one property.
type Spec struct {
	ID     string
	Kind   string
	Prof   func(r *rng.R) bl.Profile
	Env    func(r *rng.R) EnvProfile
	Envs   int // environments per program
	Small  bool
	Routes func(r *rng.R, n int) []Route // builds of a program besides the first
	Splits bool
	Rule   string
	Assume []string
}

// Counters of a check.
type Counters struct {
	Programs, Builds, Runs, Discarded, Interps int
	St                                         kern.Stats
	Hists                                      map[uint64]bool
	Cases                                      map[uint64]bool
	Junk                                       int
	Steps, Syscalls                            int64
	Ends                                       map[string]int
	Invalid                                    map[string]int
	RouteKinds                                 map[string]int
	MaxDepth                                   int
	StackMax                                   int64
	Samples                                    []string
}

func newCounters() *Counters {
	return &Counters{Hists: map[uint64]bool{}, Cases: map[uint64]bool{}, Ends: map[string]int{}, Invalid: map[string]int{}, RouteKinds: map[string]int{}}
}

func (c *Counters) add(o *Counters) {
	c.Programs += o.Programs
	c.Builds += o.Builds
	c.Runs += o.Runs
	c.Discarded += o.Discarded
	c.Interps += o.Interps
	c.Steps += o.Steps
	c.Syscalls += o.Syscalls
	c.St.Add(o.St)
	for k := range o.Hists {
		c.Hists[k] = true
	}
	for k := range o.Cases {
		c.Cases[k] = true
	}
	c.Junk += o.Junk
	for k, v := range o.Ends {
		c.Ends[k] += v
	}
	for k, v := range o.Invalid {
		c.Invalid[k] += v
	}
	for k, v := range o.RouteKinds {
		c.RouteKinds[k] += v
	}
	if o.MaxDepth > c.MaxDepth {
		c.MaxDepth = o.MaxDepth
	}
	if o.StackMax > c.StackMax {
		c.StackMax = o.StackMax
	}
	c.Samples = append(c.Samples, o.Samples...)
}

func hash(b []byte) uint64 {
	h := fnv.New64a()
	h.Write(b)
	return h.Sum64()
}

func histHash(h []kern.Ev) uint64 {
	f := fnv.New64a()
	for _, e := range h {
		fmt.Fprintf(f, "%c%d,%d,%d,%x;", e.Op, e.FD, e.N, e.Ret, e.Data)
	}
	return f.Sum64()
}

// one performs run number i of the check; every choice follows from seed.
func (t *Tools) one(s *Spec, seed uint64, dir string, n *Counters) (*Case, error) {
	r := rng.New(seed)
	prof := s.Prof(r.Fork())
	prog := bl.Generate(r.Fork(), prof)
	er := r.Fork()
	rr := r.Fork()
	ep := s.Env(er)
	base := &Case{Kind: s.Kind, Property: s.ID, Seed: seed, Prog: prog, Small: s.Small}
	if rr.P(4, 5) {
		base.Style = rr.U64() | 1
	}
	span := 300
	var envs []*kern.Env
	var wants []*bl.Outcome
	for k := 0; k < s.Envs; k++ {
		env := GenEnv(er, ep, span)
		if k == 0 && er.P(1, 2) {
			e2 := Plain(er)
			e2.Junk, e2.Pad, e2.Stack = env.Junk, env.Pad, env.Stack
			env = e2
		}
		c := *base
		c.Env = env
		want, err := c.ref()
		n.Interps++
		if err != nil {
			n.Invalid[err.Error()]++
			n.Discarded++
			continue
		}
		if l := len(kern.Stream(want.Hist, 1)); k == 0 && l > 0 {
			span = l
		}
		envs = append(envs, env)
		wants = append(wants, want)
	}
	if len(envs) == 0 {
		return nil, nil
	}
	n.Programs++
	routes := s.Routes(rr, 1)
	if s.Kind == "pair" {
		base.Routes = routes[:2]
	} else {
		base.Routes = routes[:1]
	}
	if s.Splits {
		base.Files = rr.Range(2, 4)
		base.Assign = map[string]int{}
		mainFile := 0
		for _, tp := range prog.Tops {
			k := rr.N(base.Files)
			if tp.F != nil {
				base.Assign[tp.F.Name] = k
				if tp.F.Name == "main" {
					mainFile = k
				}
			} else {
				base.Assign[tp.G.Name] = k
			}
		}
		routes[1] = splitRoute(rr, base.Files, mainFile)
		base.Routes[1] = routes[1]
	}
	if os.Getenv("VSIM_DUMP") != "" {
		c := *base
		c.Env = envs[0]
		c.render()
		fmt.Fprintf(os.Stderr, "%s\n", strings.Join(c.Text[0], "\n-----\n"))
	}
	defer os.RemoveAll(dir)
	type built struct {
		exe, fail string
	}
	var first built
	// pairs: route 0 against each of the others
	for k := 1; k < len(routes) || k == 1; k++ {
		var bs []built
		c := *base
		if s.Kind == "pair" {
			c.Routes = []Route{routes[0], routes[k]}
		}
		c.Text = nil
		c.render()
		for i, rt := range c.Routes {
			d := filepath.Join(dir, fmt.Sprintf("%d", i))
			if i == 0 && k > 1 {
				bs = append(bs, first)
				continue
			}
			os.RemoveAll(d)
			exe, fail, err := t.Make(d, c.Text[i], rt)
			if err != nil {
				return nil, err
			}
			n.Builds++
			n.RouteKinds[fmt.Sprintf("O%s g=%v %s %s", rt.Opt, rt.G, strings.Join(rt.Forms, "+"), rt.Link)]++
			bs = append(bs, built{exe, fail})
			if i == 0 {
				first = built{exe, fail}
			}
		}
		var fails []string
		for _, b := range bs {
			fails = append(fails, b.fail)
		}
		for j, env := range envs {
			c := c
			c.Env = env
			want := wants[j]
			run := *env
			if s.Small {
				run.Stack = smallStack(want)
			}
			var res []*pt.Result
			for _, b := range bs {
				if b.fail != "" {
					res = append(res, nil)
					continue
				}
				got, err := pt.Run(b.exe, &run, limits(want))
				if err != nil {
					return nil, err
				}
				n.Runs++
				if run.Junk != 0 {
					n.Junk++
				}
				n.St.Add(got.St)
				n.Syscalls += int64(got.Syscalls)
				n.Ends[got.End.String()]++
				if got.StackMax > n.StackMax {
					n.StackMax = got.StackMax
				}
				res = append(res, got)
			}
			n.Steps += want.Steps
			if want.MaxDepth > n.MaxDepth {
				n.MaxDepth = want.MaxDepth
			}
			n.Hists[histHash(want.Hist)] = true
			eb, _ := json.Marshal(env)
			key := rng.Mix(hash([]byte(strings.Join(c.Text[0], "\x00"))), hash(eb), uint64(k))
			if !n.Cases[key] && want.Steps >= 20 && len(want.Hist) >= 2 {
				n.Cases[key] = true
			}
			if len(n.Samples) < 1 && want.Steps > 50 {
				n.Samples = append(n.Samples, fmt.Sprintf("seed %d, routes %v, environment %s, %d steps, %d events, last %s; source: %s", seed, c.Routes, clip(string(eb), 300), want.Steps, len(want.Hist), want.Hist[len(want.Hist)-1], clip(c.Text[0][0], 600)))
			}
			if class, detail := verdict(&c, want, fails, res); class != "" {
				c.Class, c.Detail = class, detail
				return &c, nil
			}
		}
	}
	return nil, nil
}

// Config of a check run.
type Config struct {
	Verif   string // the directory of evidence and replays
	Tier    string
	Seed    uint64
	Budget  time.Duration
	Workers int
	MaxRuns int
	From    int // first run
}

// Check runs the check; it returns the replay files of the violations.
func (t *Tools) Check(s *Spec, cfg Config) (*ev.Report, error) {
	start := time.Now()
	var mu sync.Mutex
	next := cfg.From
	total := newCounters()
	var cases []*Case
	var firstErr error
	stop := false
	var firstFound time.Time
	seen := map[string]int{}
	var wg sync.WaitGroup
	for w := 0; w < cfg.Workers; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			pt.Prepare() // the thread is this goroutine's for good
			n := newCounters()
			defer func() {
				mu.Lock()
				total.add(n)
				mu.Unlock()
			}()
			for {
				mu.Lock()
				i := next
				next++
				done := stop || firstErr != nil || time.Since(start) > cfg.Budget || !firstFound.IsZero() && time.Since(firstFound) > 4*time.Second || cfg.MaxRuns > 0 && i >= cfg.From+cfg.MaxRuns
				mu.Unlock()
				if done {
					return
				}
				seed := rng.MixS(rng.Mix(cfg.Seed, uint64(i)), s.ID)
				dir := filepath.Join(t.Dir, fmt.Sprintf("w%d", w))
				c, err := t.one(s, seed, dir, n)
				if err != nil {
					mu.Lock()
					if firstErr == nil {
						firstErr = fmt.Errorf("run %d: %v", i, err)
					}
					mu.Unlock()
					return
				}
				if c == nil {
					continue
				}
				// It must happen again when everything is rebuilt.
				cl, det, inv, err := t.Evaluate(c, dir+"c")
				if err != nil || inv || cl != c.Class {
					fmt.Fprintf(os.Stderr, "run %d (seed %d): %s not reproduced: %s | %s %s %v %v\n", i, seed, c.Class, c.Detail, cl, det, inv, err)
					mu.Lock()
					seen["unreproduced"]++
					mu.Unlock()
					continue
				}
				mu.Lock()
				seen[c.Class]++
				if seen[c.Class] <= 2 {
					cases = append(cases, c)
				}
				if firstFound.IsZero() {
					firstFound = time.Now()
				}
				if len(cases) >= 4 || seen[c.Class] > 3 {
					stop = true
				}
				mu.Unlock()
			}
		}(w)
	}
	wg.Wait()
	if firstErr != nil {
		return nil, firstErr
	}
	searched := time.Since(start)
	// Keep one case per class, the smallest program, and minimise it.
	best := map[string]*Case{}
	for _, c := range cases {
		if b := best[c.Class]; b == nil || c.Prog.Size() < b.Prog.Size() {
			best[c.Class] = c
		}
	}
	var classes []string
	for k := range best {
		classes = append(classes, k)
	}
	sort.Strings(classes)
	rep := &ev.Report{Property: s.ID}
	deadline := time.Now().Add(120 * time.Second)
	for _, k := range classes {
		c := t.Minimise(best[k], cfg.Workers, deadline)
		b, _ := json.MarshalIndent(c, "", " ")
		path, err := ev.WriteReplay(cfg.Verif, s.ID, c.Seed, b)
		if err != nil {
			return nil, err
		}
		rep.Violations = append(rep.Violations, ev.Violation{Class: c.Class, Key: c.Class, Detail: c.Detail, Replay: path})
	}
	sec := searched.Seconds()
	if len(total.Samples) > 3 {
		total.Samples = total.Samples[:3]
	}
	rep.Assumptions = append([]string{
		"the reference interpreter (sim/bl/interp.go) is the B language definition; programs it cannot show to be well defined are discarded",
		"the kernel model (sim/kern) answers read, write and exit as a Linux kernel may; programs run on the real processor, one thread, with address-space randomisation off",
		"clang, ld and ar are the installed ones and deterministic",
	}, s.Assume...)
	rep.Coverage = map[string]any{
		"evaluations":         total.Runs,
		"distinct_nontrivial": len(total.Cases),
		"rule":                s.Rule,
		"samples":             total.Samples,
		"seeds":               next - cfg.From,
		"programs":            total.Programs,
		"builds":              total.Builds,
		"runs_per_hour":       int(float64(total.Runs) / sec * 3600),
		"seeds_per_hour":      int(float64(next-cfg.From) / sec * 3600),
		"discarded_as_undefined": map[string]any{
			"environments": total.Discarded, "reasons": top(total.Invalid, 12),
		},
		"simulated_time": map[string]any{
			"system_calls": total.Syscalls, "reference_steps": total.Steps,
			"note": "a program has no clock; time is counted in system calls and evaluated statements",
		},
		"faults": map[string]int{
			"short_reads": total.St.ShortReads, "short_writes": total.St.ShortWrites, "end_of_file": total.St.EOFs,
			"transient_end_of_file": total.St.TransientEOF, "read_errors": total.St.ReadErr, "transient_write_errors": total.St.WriteErr,
			"permanent_write_errors": total.St.PermWriteErr, "bad_descriptors": total.St.BadFD, "bad_addresses": total.St.Fault, "impossible_counts": total.St.Huge,
			"junk_initial_stack_and_registers": total.Junk,
		},
		"distinct_states": map[string]any{"measure": "distinct complete histories of system-call results, deliveries and exit status", "count": len(total.Hists)},
		"ends":            total.Ends,
		"build_routes":    len(total.RouteKinds),
		"max_call_depth":  total.MaxDepth,
		"max_stack_bytes": total.StackMax,
		"unreproduced":    seen["unreproduced"],
		"real_components": []string{"blang (lexer, parser, IR generator, driver)", "runtime/libb.a", "clang, ld, ar", "the compiled program itself"},
		"stub_components": []string{"the kernel below read, write and exit", "the initial stack and registers"},
	}
	return rep, nil
}

func top(m map[string]int, n int) []string {
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sort.Slice(l, func(i, j int) bool {
		if m[l[i]] != m[l[j]] {
			return m[l[i]] > m[l[j]]
		}
		return l[i] < l[j]
	})
	if len(l) > n {
		l = l[:n]
	}
	for i, k := range l {
		l[i] = fmt.Sprintf("%d x %s", m[k], k)
	}
	return l
}

// Replay evaluates a case from a replay file again.
func (t *Tools) Replay(b []byte) (class, detail string, err error) {
	var c Case
	if err := json.Unmarshal(b, &c); err != nil {
		return "", "", err
	}
	class, detail, inv, err := t.Evaluate(&c, filepath.Join(t.Dir, "replay"))
	if inv {
		return "", "", fmt.Errorf("the case is not well defined: %s", detail)
	}
	return class, detail, err
}
