package pipe

import (
	"fmt"
	"path"
	"regexp"
	"sort"
	"strings"

	"vsim/rng"
	"vsim/simrt"
)

// Verdict is the outcome of an evaluation.
type Verdict struct {
	Class   string // "" when the property held
	Detail  string
	Invalid string // why the scenario says nothing
	Trace   []string
	Hits    int // faults that happened, or whatever made the run worth counting
}

func bad(class, f string, a ...any) *Verdict {
	return &Verdict{Class: class, Detail: fmt.Sprintf(f, a...)}
}

func none(why string) *Verdict { return &Verdict{Invalid: why} }

var evals = map[string]func(*Scenario) *Verdict{
	"C10": evalC10, "C11": evalC11, "C12": evalC12, "C13": evalC13, "C14": evalC14, "C15": evalC15,
	"C16": evalC16, "C17": evalC17, "C18": evalC18, "C19": evalC19, "C20": evalC20,
}

var lastWorlds []*simrt.World

// Evaluate runs the scenario from scratch.
func Evaluate(s *Scenario) *Verdict {
	lastWorlds = nil
	v := evals[s.Property](s)
	if v == nil {
		v = &Verdict{}
	}
	for _, w := range lastWorlds {
		if len(w.Odd) > 0 {
			return none("unmodelled call: " + w.Odd[0])
		}
	}
	if v.Class != "" && len(lastWorlds) > 0 {
		v.Trace = trace(lastWorlds[len(lastWorlds)-1])
	}
	return v
}

func run(cfg simrt.Config, fs *simrt.FS, cmds ...Cmd) *simrt.World {
	w := World(cfg, fs, cmds...)
	lastWorlds = append(lastWorlds, w)
	return w
}

// ref runs one command alone, without faults, on a copy of the files.
func ref(fs *simrt.FS, c Cmd) (*simrt.Proc, *simrt.FS) {
	f := fs.Clone()
	w := World(simrt.Config{}, f, c)
	if len(w.Odd) > 0 {
		lastWorlds = append(lastWorlds, w)
	}
	if w.Hung != "" && w.Procs[0].Panic == "" {
		w.Procs[0].Panic = w.Hung
	}
	return w.Procs[0], f
}

func trace(w *simrt.World) []string {
	var l []string
	for i, p := range w.Procs {
		l = append(l, fmt.Sprintf("command %d: %q in %s: %s", i, p.Args, p.Cwd, status(p)))
	}
	for _, f := range w.Fired {
		l = append(l, fmt.Sprintf("op %d: fault %s %s %s %s", f.Op, f.Who, f.Class, f.Path, f.Err))
	}
	last := ""
	n := 0
	for _, m := range w.Muts {
		who := "blang"
		if m.Clang {
			who = "clang"
		}
		s := fmt.Sprintf("command %d (%s): %s %s", m.Cmd, who, m.Op, m.Path)
		if s == last {
			n++
			continue
		}
		if n > 0 {
			l[len(l)-1] += fmt.Sprintf(" (and %d more)", n)
		}
		last, n = s, 0
		l = append(l, s)
	}
	for _, c := range w.Clangs {
		l = append(l, fmt.Sprintf("command %d ran clang %q", c.Cmd, c.Args))
	}
	if len(l) > 120 {
		l = append(l[:120], "...")
	}
	return l
}

var ansi = regexp.MustCompile("\x1b\\[[0-9;]*m")

func stderr(p *simrt.Proc) string { return ansi.ReplaceAllString(string(p.Stderr.Data), "") }

func status(p *simrt.Proc) string {
	s := fmt.Sprintf("exit status %d", p.Status.ExitStatus())
	if p.Status.Signaled() {
		s = "killed by " + p.Status.Signal().String()
	}
	if p.Panic != "" {
		s = "panic: " + p.Panic
	}
	if e := strings.TrimSpace(stderr(p)); e != "" && p.Panic == "" {
		if len(e) > 200 {
			e = e[:200] + "..."
		}
		s += fmt.Sprintf(" (%q)", e)
	}
	return s
}

func diagnosed(p *simrt.Proc) bool {
	for _, l := range strings.Split(stderr(p), "\n") {
		if strings.HasPrefix(l, "blang: error:") {
			return true
		}
	}
	return false
}

func fired(w *simrt.World, who string, classes ...string) bool {
	for _, f := range w.Fired {
		for _, c := range classes {
			if f.Class == c && (who == "" || f.Who == who) {
				return true
			}
		}
	}
	return false
}

func show(s string) string {
	if len(s) > 60 {
		return fmt.Sprintf("%d bytes %q...", len(s), s[:60])
	}
	return fmt.Sprintf("%q", s)
}

func differ(want, got string) string {
	i := 0
	for i < len(want) && i < len(got) && want[i] == got[i] {
		i++
	}
	cut := func(s string) string {
		a := max(0, i-20)
		return s[min(a, len(s)):min(i+40, len(s))]
	}
	return fmt.Sprintf("%d bytes instead of %d, first difference at %d: %q instead of %q", len(got), len(want), i, cut(got), cut(want))
}

func broken(w *simrt.World) *Verdict {
	if w.Hung != "" {
		return bad("hang", "blang does not end: %s; %s", w.Hung, status(w.Procs[0]))
	}
	for _, p := range w.Procs {
		if p.Panic != "" {
			return bad("panic", "%s", p.Panic)
		}
	}
	return nil
}

// C10: the exit status tells the truth.
func evalC10(s *Scenario) *Verdict {
	fs := s.FS()
	c := s.Cmds[0]
	rp, rfs := ref(bare(fs, &c), c)
	if rp.Panic != "" {
		return bad("panic", "without any fault: %s", rp.Panic)
	}
	if s.Valid && !ok(rp) {
		return bad("rejected", "a fault-free run on valid input fails: %s", status(rp))
	}
	if !ok(rp) && !diagnosed(rp) && len(c.Args()) > 0 {
		return bad("silent", "a run without faults fails without diagnostic: %s", status(rp))
	}
	why := mustFail(s, &c)
	if why != "" && ok(rp) {
		return bad("accepted", "exit status 0, but %s", why)
	}
	got := fs.Clone()
	w := run(s.Cfg, got, c)
	p := w.Procs[0]
	if v := broken(w); v != nil {
		return v
	}
	if why != "" && ok(p) {
		return bad("accepted", "exit status 0, but %s", why)
	}
	if !ok(p) {
		if !diagnosed(p) && !fired(w, "blang", "stderr") && len(c.Args()) > 0 {
			return bad("silent", "fails without diagnostic: %s", status(p))
		}
		return &Verdict{Hits: len(w.Fired)}
	}
	if !ok(rp) {
		return bad("false-success", "exit status 0, but without faults: %s", status(rp))
	}
	for _, o := range c.Outputs() {
		want, _ := content(rfs, o.Path)
		have, there := content(got, o.Path)
		if !there {
			return bad("missing-output", "exit status 0, but %s is missing", o.Path)
		}
		if have != want {
			return bad("wrong-output", "exit status 0, but %s is wrong: %s", o.Path, differ(want, have))
		}
	}
	return &Verdict{Hits: len(w.Fired)}
}

// bare is the file system without what earlier runs left of the outputs.
func bare(fs *simrt.FS, c *Cmd) *simrt.FS {
	f := fs.Clone()
	for _, o := range c.Outputs() {
		if n := f.Nodes[o.Path]; n != nil && !n.Dir && strings.HasPrefix(string(n.Data), "previous ") {
			delete(f.Nodes, o.Path)
		}
	}
	return f
}

// related tells whether a fault concerned the path.
func related(w *simrt.World, p string, classes ...string) bool {
	for _, f := range w.Fired {
		for _, c := range classes {
			if f.Class != c {
				continue
			}
			if f.Path == p || strings.HasPrefix(f.Path, p+"/") || strings.HasPrefix(p, f.Path+"/") {
				return true
			}
		}
	}
	return false
}

// C11: a failed run leaves no torn output.
func evalC11(s *Scenario) *Verdict {
	fs := s.FS()
	c := s.Cmds[0]
	rp, rfs := ref(fs, c)
	got := fs.Clone()
	w := run(s.Cfg, got, c)
	p := w.Procs[0]
	if w.Hung != "" || p.Status.Signaled() {
		return none("not a failed run")
	}
	if ok(p) {
		return &Verdict{}
	}
	for _, o := range c.Outputs() {
		have, there := content(got, o.Path)
		if !there {
			continue
		}
		if before, was := content(fs, o.Path); was && before == have {
			continue
		}
		if ok(rp) {
			if want, is := content(rfs, o.Path); is && want == have {
				continue
			}
		} else if o.Solo.Mode != "exe" {
			if sp, sfs := ref(fs, *o.Solo); ok(sp) {
				if want, is := content(sfs, o.Path); is && want == have {
					continue
				}
			}
		}
		if related(w, o.Path, "remove", "stat", "rename", "chmod") {
			continue
		}
		full, _ := content(rfs, o.Path)
		return bad("torn-output", "blang failed (%s) but left %s with %s (complete: %s)", status(p), o.Path, show(have), show(full))
	}
	return &Verdict{Hits: 1}
}

// C12: intermediate files are removed, or kept as documented.
func evalC12(s *Scenario) *Verdict {
	fs := s.FS()
	c := s.Cmds[0]
	got := fs.Clone()
	w := run(s.Cfg, got, c)
	p := w.Procs[0]
	if w.Hung != "" || p.Status.Signaled() {
		return none("did not end by itself")
	}
	fine := map[string]bool{}
	for _, o := range c.Outputs() {
		fine[o.Path] = true
	}
	if c.Save {
		for _, t := range c.Temps() {
			fine[t.Path] = true
		}
	}
	for _, q := range got.Paths() {
		if fs.Nodes[q] != nil || fine[q] {
			continue
		}
		if related(w, q, "remove", "rename", "stat", "readdir", "chmod") || sticky(s.Cfg, "remove") && fired(w, "", "remove") {
			continue
		}
		return bad("leftover", "%s remains after %s", q, status(p))
	}
	if c.Save && ok(p) {
		for _, t := range c.Temps() {
			one := Cmd{Mode: "ll", Inputs: []string{t.Src}, Out: "/tmp/ref.ll", Cwd: c.Cwd, Env: c.Env}
			sp, sfs := ref(fs, one)
			if !ok(sp) {
				continue
			}
			want, _ := content(sfs, "/tmp/ref.ll")
			have, there := content(got, t.Path)
			if !there {
				return bad("not-kept", "--save-temps, exit status 0, but %s (from %s) is not there", t.Path, t.Src)
			}
			if have != want {
				return bad("wrong-temp", "--save-temps: %s is not the IR of %s: %s", t.Path, t.Src, differ(want, have))
			}
		}
	}
	return &Verdict{Hits: 1}
}

func sticky(cfg simrt.Config, class string) bool {
	for _, f := range cfg.Faults {
		if f.Sticky && f.Class == class {
			return true
		}
	}
	return false
}

// C13: blang touches only its own files.
func evalC13(s *Scenario) *Verdict {
	fs := s.FS()
	got := fs.Clone()
	w := run(s.Cfg, got, s.Cmds...)
	own := make([]map[string]bool, len(s.Cmds))
	any := map[string]bool{}
	for i := range s.Cmds {
		own[i] = s.Cmds[i].own()
		for p := range own[i] {
			any[p] = true
		}
	}
	for _, m := range w.Muts {
		if own[m.Cmd][m.Path] || !m.Old && (m.By == m.Cmd || m.By == -1) {
			continue
		}
		// a file another command made under the same documented name
		if !m.Old && any[m.Path] && own[m.Cmd][m.Path] {
			continue
		}
		whose := "a file that was there before"
		if !m.Old {
			whose = fmt.Sprintf("a file of command %d", m.By)
		}
		return bad("foreign-file", "command %d (%s): %s of %s, %s", m.Cmd, status(w.Procs[m.Cmd]), m.Op, m.Path, whose)
	}
	for _, q := range fs.Paths() {
		if any[q] {
			continue
		}
		a, b := fs.Nodes[q], got.Nodes[q]
		if b == nil || a.Dir != b.Dir || a.Perm != b.Perm || string(a.Data) != string(b.Data) {
			return bad("foreign-file", "%s has changed", q)
		}
	}
	if len(s.Cfg.Kills) == 0 && len(s.Cfg.Faults) == 0 {
		// What stays is no intermediate file.
		for _, q := range got.Paths() {
			if fs.Nodes[q] == nil && !any[q] {
				return bad("foreign-file", "%s has been made", q)
			}
		}
	}
	return &Verdict{Hits: len(w.Muts)}
}

// C14: concurrent invocations do not interfere.
func evalC14(s *Scenario) *Verdict {
	fs := s.FS()
	got := fs.Clone()
	w := run(s.Cfg, got, s.Cmds...)
	if w.Hung != "" {
		return bad("hang", "%s", w.Hung)
	}
	killed := map[int]bool{}
	for _, k := range s.Cfg.Kills {
		killed[k.Cmd] = true
	}
	fine := map[string]bool{}
	for i := range s.Cmds {
		c := s.Cmds[i]
		if killed[i] {
			for p := range c.own() {
				fine[p] = true
			}
			continue
		}
		rp, rfs := ref(fs, c)
		p := w.Procs[i]
		if p.Panic != "" && rp.Panic == "" {
			return bad("panic", "command %d, only when run with others: %s", i, p.Panic)
		}
		if p.Status != rp.Status {
			return bad("status", "command %d: %s; alone: %s", i, status(p), status(rp))
		}
		for _, o := range c.Outputs() {
			fine[o.Path] = true
			want, a := content(rfs, o.Path)
			have, b := content(got, o.Path)
			if a != b {
				return bad("output", "command %d: output %s exists: %v; when run alone: %v", i, o.Path, b, a)
			}
			if want != have {
				return bad("output", "command %d: output %s differs from that of the command alone: %s", i, o.Path, differ(want, have))
			}
		}
		if c.Save {
			for _, t := range c.Temps() {
				fine[t.Path] = true
			}
		}
	}
	if len(killed) == 0 {
		for _, q := range got.Paths() {
			if fs.Nodes[q] == nil && !fine[q] {
				return bad("leftover", "%s remains", q)
			}
		}
	}
	return &Verdict{Hits: w.Switches}
}

// C15: killing and re-running converges.
func evalC15(s *Scenario) *Verdict {
	start := s.FS()
	c := s.Cmds[0]
	clean := start.Clone()
	for i := range s.Edits {
		put(clean, &s.Edits[i])
	}
	cp, cfs := ref(clean, c)
	got := start.Clone()
	kills := 0
	for _, cfg := range s.Rounds {
		w := run(cfg, got, c)
		if w.Procs[0].Status.Signaled() {
			kills++
		}
	}
	if kills == 0 {
		return none("nothing was killed")
	}
	for i := range s.Edits {
		put(got, &s.Edits[i])
	}
	w := run(s.Cfg, got, c)
	p := w.Procs[0]
	if w.Hung != "" {
		return bad("hang", "the run after the kill does not end: %s", w.Hung)
	}
	if p.Status != cp.Status || (p.Panic == "") != (cp.Panic == "") {
		return bad("status", "after the kill: %s; without it: %s", status(p), status(cp))
	}
	outs := map[string]bool{}
	for _, o := range c.Outputs() {
		outs[o.Path] = true
	}
	names := map[string]bool{}
	for _, q := range cfs.Paths() {
		names[q] = true
	}
	for _, q := range got.Paths() {
		names[q] = true
	}
	_, pfs := (*simrt.Proc)(nil), (*simrt.FS)(nil)
	for _, q := range sorted(names) {
		want, a := content(cfs, q)
		have, b := content(got, q)
		if a == b && want == have && (cfs.Nodes[q] == nil) == (got.Nodes[q] == nil) {
			continue
		}
		if outs[q] && !ok(cp) && b {
			// a failing command does not get to its later outputs: what the
			// killed run completed there may stay
			if pfs == nil {
				_, pfs = ref(start, c)
			}
			if old, is := content(pfs, q); is && old == have {
				continue
			}
		}
		switch {
		case a && !b:
			return bad("missing", "after the kill and a complete run %s is missing", q)
		case !a:
			return bad("leftover", "after the kill and a complete run %s remains (%s)", q, show(have))
		default:
			return bad("stale", "after the kill and a complete run %s is wrong: %s", q, differ(want, have))
		}
	}
	return &Verdict{Hits: kills}
}

// C16: the whole source is compiled, however it is delivered.
func evalC16(s *Scenario) *Verdict {
	fs := s.FS()
	c := s.Cmds[0]
	rp, rfs := ref(fs, c)
	hits := 0
	for _, cfg := range append([]simrt.Config{s.Cfg}, s.Rounds...) {
		got := fs.Clone()
		w := run(cfg, got, c)
		p := w.Procs[0]
		if v := broken(w); v != nil {
			return v
		}
		if fired(w, "blang", "read") {
			hits++
			if ok(p) {
				f := w.Fired[0]
				return bad("read-error-ignored", "exit status 0 although reading %s failed with %s", f.Path, f.Err)
			}
			if !diagnosed(p) {
				return bad("silent", "fails without diagnostic: %s", status(p))
			}
			continue
		}
		if len(w.Fired) > 0 {
			continue
		}
		hits++
		if p.Status != rp.Status {
			return bad("delivery-status", "delivered in pieces: %s; at once: %s", status(p), status(rp))
		}
		if stderr(p) != stderr(rp) {
			return bad("delivery-diagnostic", "delivered in pieces: %q; at once: %q", stderr(p), stderr(rp))
		}
		for _, o := range c.Outputs() {
			want, _ := content(rfs, o.Path)
			have, _ := content(got, o.Path)
			if want != have {
				return bad("delivery-output", "%s depends on how the source is delivered: %s", o.Path, differ(want, have))
			}
		}
	}
	for _, in := range s.Bad {
		_ = in
		if ok(rp) {
			return bad("unreadable-accepted", "exit status 0 although %s cannot be read", in)
		}
	}
	return &Verdict{Hits: hits}
}

// intermediates returns what clang read in place of each .b input, by input.
func intermediates(w *simrt.World, cmd int, c *Cmd) map[string]string {
	given := map[string]bool{}
	for _, in := range c.Inputs {
		given[c.abs(in)] = true
	}
	res := map[string]string{}
	outs := c.Outputs()
	for _, inv := range w.Clangs {
		if inv.Cmd != cmd {
			continue
		}
		a := simrt.ParseClang(inv.Args)
		var made []string
		for _, it := range a.Items {
			if strings.HasPrefix(it, "-l") && c.Mode == "exe" || given[at(inv, it)] {
				continue
			}
			if b, ok := inv.Inputs[it]; ok {
				made = append(made, string(b))
			}
		}
		if c.Mode == "exe" {
			k := 0
			for _, in := range c.Inputs {
				if path.Ext(in) == ".b" && k < len(made) {
					res[in] = made[k]
					k++
				}
			}
			continue
		}
		for i, in := range c.Inputs {
			if path.Ext(in) == ".b" && len(made) == 1 && i < len(outs) && at(inv, a.Out) == outs[i].Path {
				res[in] = made[0]
			}
		}
	}
	return res
}

func at(inv *simrt.Invocation, p string) string {
	if !strings.HasPrefix(p, "/") {
		p = inv.Cwd + "/" + p
	}
	return path.Clean(p)
}

// C17: compilation is reproducible.
func evalC17(s *Scenario) *Verdict {
	fs := s.FS()
	src := s.Files[0]
	base := Cmd{Mode: "ll", Inputs: []string{src.Path}, Out: "/simfs/base.ll", Cwd: "/simfs", Env: []string{"PATH=/usr/bin", "HOME=/root"}}
	rp, rfs := ref(fs, base)
	if !ok(rp) {
		// It is rejected every time, and for the same reason.
		if rp.Panic != "" {
			return none("the source is rejected")
		}
		for i, cfg := range s.Rounds {
			p := run(cfg, fs.Clone(), base).Procs[0]
			if p.Panic != "" || ok(p) {
				return bad("status", "round %d: accepted where it was rejected: %s", i, status(p))
			}
			if have, want := stderr(p), stderr(rp); have != want {
				return bad("not-reproducible", "round %d: the diagnostic is %q, and was %q", i, have, want)
			}
		}
		st.Notes["rejected alike"]++
		return &Verdict{Hits: len(s.Rounds)}
	}
	want, _ := content(rfs, "/simfs/base.ll")
	hits := 0
	var asked []string
	for k := range rp.Asked {
		switch k {
		case "PATH", "HOME", "TMPDIR": // varied by the scenario
		default:
			asked = append(asked, k)
		}
	}
	sort.Strings(asked)
	for i := range s.Variants {
		v := s.Variants[i]
		v.Cmds = append([]Cmd{}, v.Cmds...)
		if v.Cfg.Host != 0 {
			// every variable the program looks at means nothing to it
			r := rng.New(v.Cfg.Host)
			for j := range v.Cmds {
				c := &v.Cmds[j]
				c.Env = append([]string{}, c.Env...)
				for _, k := range asked {
					if r.P(1, 2) {
						c.Env = append([]string{k + "=" + []string{"1", "0", "true", "x", "/simfs/w", "debug", "1700000000", ""}[r.N(8)]}, c.Env...)
					}
				}
			}
		}
		f := fs.Clone()
		for j := range v.Cmds {
			f.MkdirAll(v.Cmds[j].Cwd)
		}
		f.Put(v.As, src.Bytes(), 0o644)
		w := run(v.Cfg, f, v.Cmds...)
		p := w.Procs[0]
		if p.Panic != "" || !ok(p) {
			return bad("status", "variant %q: %s", v.Name, status(p))
		}
		c := &v.Cmds[0]
		have, there := "", false
		for _, in := range c.Inputs {
			if c.abs(in) != v.As {
				continue
			}
			if c.Mode == "ll" {
				one := *c
				one.Inputs = []string{in}
				have, there = content(f, one.Outputs()[0].Path)
			} else {
				have, there = intermediates(w, 0, c)[in]
			}
		}
		if !there {
			st.Notes["no IR seen in a variant"]++
			continue
		}
		hits++
		if have != want {
			return bad("not-reproducible", "variant %q (%q): %s", v.Name, c.Args(), differ(want, have))
		}
	}
	return &Verdict{Hits: hits}
}

// C18: damaged sources never crash, hang or yield invalid code.
func evalC18(s *Scenario) *Verdict {
	fs := s.FS()
	c := s.Cmds[0]
	w := run(s.Cfg, fs, c)
	p := w.Procs[0]
	if w.Hung != "" {
		return bad("hang", "%s", w.Hung)
	}
	if p.Panic != "" {
		return bad("panic", "%s", p.Panic)
	}
	if !ok(p) {
		if !diagnosed(p) {
			return bad("silent", "fails without diagnostic: %s", status(p))
		}
		st.Notes["rejected"]++
		return &Verdict{Hits: 1}
	}
	st.Notes["accepted"]++
	ir, there := content(fs, c.Outputs()[0].Path)
	if !there {
		return bad("no-output", "exit status 0 without output")
	}
	if msg := verifyIR(ir); msg != "" {
		return bad("invalid-ir", "accepted, but LLVM rejects the module: %s", msg)
	}
	return &Verdict{Hits: 1}
}

// C19: clang is run exactly as the command line says.
func evalC19(s *Scenario) *Verdict {
	fs := s.FS()
	c := s.Cmds[0]
	irs := map[string]string{}
	for _, in := range c.Inputs {
		if path.Ext(in) == ".b" {
			one := Cmd{Mode: "ll", Inputs: []string{in}, Out: "/tmp/ref.ll", Cwd: c.Cwd, Env: c.Env}
			if sp, sfs := ref(fs, one); ok(sp) {
				irs[in], _ = content(sfs, "/tmp/ref.ll")
			}
		}
	}
	got := fs.Clone()
	w := run(s.Cfg, got, c)
	p := w.Procs[0]
	if w.Hung != "" || p.Panic != "" {
		return none("no proper end")
	}
	var runs []*simrt.Invocation
	for _, inv := range w.Clangs {
		if len(simrt.ParseClang(inv.Args).Items) > 0 {
			runs = append(runs, inv)
		}
		if ok(p) && !ok(inv.Proc) {
			return bad("tool-failure-ignored", "exit status 0 although clang %q ended with %s", inv.Args, status(inv.Proc))
		}
	}
	if c.Mode == "ll" {
		if len(w.Clangs) > 0 {
			return bad("tool-run", "IR mode runs clang %q", w.Clangs[0].Args)
		}
		return &Verdict{Hits: 1}
	}
	noClang := fs.Nodes[simrt.ClangPath] == nil || fs.Nodes[simrt.ClangPath].Perm&0o111 == 0 || !onPath(&c)
	if noClang {
		if ok(p) {
			return bad("tool-failure-ignored", "exit status 0 although there is no clang")
		}
		return &Verdict{Hits: 1}
	}
	if s.Valid && len(w.Fired) == 0 && !ok(p) {
		return bad("rejected", "a valid command line fails: %s", status(p))
	}
	outs := c.Outputs()
	if ok(p) && len(runs) != len(outs) {
		return bad("tool-runs", "%d runs of clang for %d outputs", len(runs), len(outs))
	}
	if len(runs) > len(outs) {
		return bad("tool-runs", "%d runs of clang for %d outputs", len(runs), len(outs))
	}
	which := outputOf(&c, runs, outs)
	for i, inv := range runs {
		if v := checkClang(s, fs, &c, inv, which[i], irs); v != nil {
			return v
		}
	}
	if ok(p) {
		for i, o := range outs {
			var parts []simrt.Part
			ins := c.Inputs
			if c.Mode != "exe" {
				ins = c.Inputs[i : i+1]
			}
			for _, in := range ins {
				data, _ := content(fs, c.abs(in))
				if path.Ext(in) == ".b" {
					data = irs[in]
				}
				parts = append(parts, simrt.Part{Data: []byte(data)})
			}
			var extra []string
			mode := map[string]string{"s": "S", "o": "c", "exe": "link"}[c.Mode]
			if c.Mode == "exe" {
				for _, l := range append([]string{"b"}, c.Libs...) {
					parts = append(parts, simrt.Part{Data: libData(l)})
				}
				extra = []string{"static=true nostdlib=true"}
			}
			want := simrt.ClangOutput(mode, c.Opt, c.Debug, parts, extra)
			if have, _ := content(got, o.Path); have != string(want) {
				return bad("wrong-output", "%s is not what the options ask for: %s", o.Path, differ(string(want), have))
			}
		}
	}
	return &Verdict{Hits: 1}
}

// outputOf tells which output each run of clang is for: by the name it is
// given, otherwise by the order.
func outputOf(c *Cmd, runs []*simrt.Invocation, outs []Output) []int {
	which := make([]int, len(runs))
	taken := map[int]bool{}
	for i, inv := range runs {
		which[i] = -1
		for k, o := range outs {
			if a := simrt.ParseClang(inv.Args); !taken[k] && a.Out != "" && at(inv, a.Out) == o.Path {
				which[i], taken[k] = k, true
				break
			}
		}
	}
	next := 0
	for i := range which {
		if which[i] < 0 {
			for taken[next] {
				next++
			}
			which[i], taken[next] = next, true
		}
	}
	return which
}

func onPath(c *Cmd) bool {
	for _, e := range c.Env {
		if p, isPath := strings.CutPrefix(e, "PATH="); isPath {
			for _, d := range strings.Split(p, ":") {
				if path.Join(d, "clang") == simrt.ClangPath {
					return true
				}
			}
		}
	}
	return false
}

func checkClang(s *Scenario, fs *simrt.FS, c *Cmd, inv *simrt.Invocation, i int, irs map[string]string) *Verdict {
	a := simrt.ParseClang(inv.Args)
	if a.Err != "" {
		return bad("tool-args", "clang %q: %s", inv.Args, a.Err)
	}
	mode := map[string]string{"s": "S", "o": "c", "exe": "link"}[c.Mode]
	say := func(what string, want, got any) *Verdict {
		return bad("tool-args", "%s should be %v but is %v: clang %q", what, want, got, inv.Args)
	}
	if a.Mode != mode {
		return say("the mode", mode, a.Mode)
	}
	if a.Opt != c.Opt {
		return say("the optimisation level", c.Opt, a.Opt)
	}
	if a.Debug != c.Debug {
		return say("debug information", c.Debug, a.Debug)
	}
	if len(a.Extra) > 0 {
		return bad("tool-args", "unasked-for options %q: clang %q", a.Extra, inv.Args)
	}
	ins := c.Inputs
	if c.Mode != "exe" {
		if i >= len(c.Inputs) {
			return bad("tool-args", "one run too many: clang %q", inv.Args)
		}
		ins = c.Inputs[i : i+1]
	}
	items := a.Items
	if c.Mode == "exe" {
		if !a.Static {
			return bad("tool-args", "not linked statically: clang %q", inv.Args)
		}
		if !a.Nostd {
			return bad("tool-args", "system libraries are not excluded: clang %q", inv.Args)
		}
		var dirs []string
		home := ""
		for _, e := range c.Env {
			if h, is := strings.CutPrefix(e, "HOME="); is {
				home = h
			}
		}
		var defaults []string
		if home != "" {
			defaults = append(defaults, path.Join(home, ".local/lib"))
		}
		defaults = append(defaults, "/opt/homebrew/lib", "/opt/local/lib", "/usr/local/lib", "/usr/lib")
		for _, d := range defaults {
			if n := fs.Nodes[c.abs(d)]; n != nil && n.Dir {
				dirs = append(dirs, c.abs(d))
			}
		}
		for _, d := range c.Dirs {
			dirs = append(dirs, c.abs(d))
		}
		var have []string
		for _, d := range a.Dirs {
			have = append(have, at(inv, d))
		}
		if fmt.Sprint(dirs) != fmt.Sprint(have) {
			// a default that could not be examined does not count as existing
			if !statFault(s) || !subsequence(have, dirs) {
				return say("the list of library directories", dirs, have)
			}
		}
		want := []string{"-lb"}
		for _, l := range c.Libs {
			want = append(want, "-l"+l)
		}
		n := len(items) - len(want)
		if n < 0 || fmt.Sprint(items[n:]) != fmt.Sprint(want) {
			return say("the list of libraries", want, items)
		}
		items = items[:n]
	}
	if len(items) != len(ins) {
		return say("the list of inputs", ins, items)
	}
	for k, in := range ins {
		if path.Ext(in) != ".b" {
			if at(inv, items[k]) != c.abs(in) {
				return say("the list of inputs", ins, items)
			}
			continue
		}
		if have, read := inv.Inputs[items[k]]; read && irs[in] != "" && string(have) != irs[in] {
			return bad("tool-input", "for %s clang is given %s, which is not its IR: %s", in, items[k], differ(irs[in], string(have)))
		}
	}
	return nil
}

func statFault(s *Scenario) bool {
	for _, f := range s.Cfg.Faults {
		if f.Class == "stat" && f.Who == "blang" {
			return true
		}
	}
	return false
}

func subsequence(a, b []string) bool {
	k := 0
	for _, x := range b {
		if k < len(a) && a[k] == x {
			k++
		}
	}
	return k == len(a)
}

// C20: inputs named together are compiled as if alone.
func evalC20(s *Scenario) *Verdict {
	fs := s.FS()
	c := s.Cmds[0]
	got := fs.Clone()
	w := run(s.Cfg, got, c)
	p := w.Procs[0]
	if w.Hung != "" || p.Panic != "" {
		return bad("panic", "%s%s", w.Hung, p.Panic)
	}
	failing := append([]string{}, s.Bad...)
	if fired(w, "blang", "read", "open") {
		failing = append(failing, w.Fired[0].Path)
	}
	if len(failing) > 0 {
		if ok(p) {
			return bad("defect-ignored", "exit status 0 although %v is defective", failing)
		}
	} else if !ok(p) && s.Valid && len(w.Fired) == 0 {
		return bad("rejected", "a valid command line fails: %s", status(p))
	}
	isBad := map[string]bool{}
	for _, b := range s.Bad {
		isBad[b] = true
	}
	hits := 0
	if c.Mode == "exe" {
		irs := intermediates(w, 0, &c)
		var ins []string
		for in := range irs {
			ins = append(ins, in)
		}
		sort.Strings(ins)
		for _, in := range ins {
			one := Cmd{Mode: "ll", Inputs: []string{in}, Out: "/tmp/ref.ll", Cwd: c.Cwd, Env: c.Env}
			sp, sfs := ref(fs, one)
			if !ok(sp) {
				return bad("defect-linked", "%s is rejected alone (%s) but linked here", in, status(sp))
			}
			hits++
			if want, _ := content(sfs, "/tmp/ref.ll"); want != irs[in] {
				return bad("not-alone", "%s is compiled differently with others: %s", in, differ(want, irs[in]))
			}
		}
		return &Verdict{Hits: hits}
	}
	for i, o := range c.Outputs() {
		if isBad[c.Inputs[i]] || len(w.Fired) > 0 && !ok(p) {
			continue
		}
		sp, sfs := ref(fs, *o.Solo)
		want, _ := content(sfs, o.Path)
		have, there := content(got, o.Path)
		if !ok(sp) {
			if ok(p) {
				return bad("defect-ignored", "%s alone: %s; with others exit status 0", c.Inputs[i], status(sp))
			}
			continue
		}
		if !there || !ok(p) && have != want {
			if ok(p) {
				return bad("missing-output", "%s, for %s, is missing", o.Path, c.Inputs[i])
			}
			continue // the command stopped earlier
		}
		hits++
		if have != want {
			return bad("not-alone", "%s is compiled differently with others: %s", c.Inputs[i], differ(want, have))
		}
	}
	return &Verdict{Hits: hits}
}
