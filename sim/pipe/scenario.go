// Package pipe checks the properties of the compiler as a system: the real
// driver, lexer, parser and IR builder run in the simulated world of package
// simrt, under schedules and faults drawn from a seed.
package pipe

import (
	"encoding/hex"
	"fmt"
	"io/fs"
	"path"
	"sort"
	"strings"
	_ "testing/synctest"
	"time"
	"unicode/utf8"
	_ "unsafe" // linkname

	"vsim/rng"
	"vsim/simrt"
)

// File is a file of the world before the run.
type File struct {
	Path string `json:"path"`
	Text string `json:"text,omitempty"`
	Hex  string `json:"hex,omitempty"` // when the content is not text
	Dir  bool   `json:"dir,omitempty"`
	Perm int    `json:"perm,omitempty"`
	Time int    `json:"time,omitempty"` // seconds after the beginning

	Defect string `json:"defect,omitempty"` // the digest of content that is not a program
}

// Bytes is the content.
func (f *File) Bytes() []byte {
	if f.Hex != "" {
		b, _ := hex.DecodeString(f.Hex)
		return b
	}
	return []byte(f.Text)
}

func mkFile(p string, b []byte) File {
	if utf8.Valid(b) {
		return File{Path: p, Text: string(b)}
	}
	return File{Path: p, Hex: hex.EncodeToString(b)}
}

// Cmd is a command line, by what it means.
type Cmd struct {
	Mode    string   `json:"mode"` // "ll", "s", "o", "exe"
	Inputs  []string `json:"inputs"`
	Out     string   `json:"out,omitempty"`
	Opt     int      `json:"opt,omitempty"`
	BadOpt  string   `json:"bad_opt,omitempty"` // an optimization level that does not exist
	Debug   bool     `json:"debug,omitempty"`
	Save    bool     `json:"save_temps,omitempty"`
	Verbose bool     `json:"verbose,omitempty"`
	Dirs    []string `json:"dirs,omitempty"`
	Libs    []string `json:"libs,omitempty"`
	Style   uint64   `json:"style,omitempty"` // spelling and placement of the options
	Cwd     string   `json:"cwd"`
	Env     []string `json:"env"`
	Line    string   `json:"line,omitempty"` // for the reader
}

// Args spells the command line.
func (c *Cmd) Args() []string {
	r := rng.New(rng.Mix(c.Style, 5))
	plain := c.Style == 0
	pick := func(l ...[]string) []string {
		if plain {
			return l[0]
		}
		return l[r.N(len(l))]
	}
	var opts [][]string
	short := "" // letters that may be run together
	flag := func(s, long string) {
		if !plain && s != "" && r.P(1, 4) {
			short += s
			return
		}
		switch {
		case s == "":
			opts = append(opts, pick([]string{"--" + long}, []string{"--" + long + "=true"}))
		default:
			opts = append(opts, pick([]string{"-" + s}, []string{"--" + long}, []string{"--" + long + "=true"}))
		}
	}
	switch c.Mode {
	case "ll":
		flag("", "emit-llvm")
	case "s":
		flag("S", "assemble")
	case "o":
		flag("c", "compile")
	}
	if c.Debug {
		flag("g", "debug")
	}
	if c.Verbose {
		flag("v", "verbose")
	}
	if c.Save {
		flag("", "save-temps")
	}
	if c.BadOpt == "" && (c.Opt > 0 || !plain && r.P(1, 4)) {
		n := fmt.Sprint(c.Opt)
		opts = append(opts, pick([]string{"-O" + n}, []string{"-O", n}, []string{"--optimize=" + n}, []string{"--optimize", n}))
	}
	if k := len(opts) - 1; c.BadOpt == "" && k >= 0 && strings.Contains("-O --optimize", strings.TrimRight(opts[k][0], "0123=")) && r.P(1, 6) {
		// the last one counts
		opts[k] = append([]string{"-O" + fmt.Sprint(r.N(4))}, opts[k]...)
	}
	if n := c.BadOpt; n != "" {
		opts = append(opts, pick([]string{"-O" + n}, []string{"-O", n}, []string{"--optimize=" + n}))
	}
	if c.Out != "" {
		opts = append(opts, pick([]string{"-o", c.Out}, []string{"-o" + c.Out}, []string{"--output", c.Out}, []string{"--output=" + c.Out}))
		if k := len(opts) - 1; !plain && r.P(1, 10) {
			opts[k] = append([]string{"-o", "earlier"}, opts[k]...)
		}
	}
	if short != "" {
		opts = append(opts, []string{"-" + short})
	}
	if !plain {
		r.Shuffle(len(opts), func(i, j int) { opts[i], opts[j] = opts[j], opts[i] })
	}
	// sequences whose inner order matters
	var dirs, libs, ins [][]string
	for _, d := range c.Dirs {
		dirs = append(dirs, pick([]string{"-L" + d}, []string{"-L", d}, []string{"--library-dir", d}, []string{"--library-dir=" + d}))
	}
	for _, l := range c.Libs {
		libs = append(libs, pick([]string{"-l" + l}, []string{"-l", l}, []string{"--library", l}, []string{"--library=" + l}))
	}
	for _, i := range c.Inputs {
		ins = append(ins, []string{i})
	}
	var out []string
	seqs := [][][]string{opts, dirs, libs, ins}
	dash := !plain && r.P(1, 10)
	if dash {
		seqs = seqs[:3]
	}
	if plain {
		for _, s := range seqs {
			for _, x := range s {
				out = append(out, x...)
			}
		}
		return out
	}
	for {
		w := make([]int, len(seqs))
		t := 0
		for i, s := range seqs {
			w[i] = len(s)
			t += len(s)
		}
		if t == 0 {
			break
		}
		k := r.Pick(w...)
		out = append(out, seqs[k][0]...)
		seqs[k] = seqs[k][1:]
	}
	if dash {
		out = append(out, "--")
		for _, x := range ins {
			out = append(out, x...)
		}
	}
	return out
}

func (c *Cmd) abs(p string) string {
	if !strings.HasPrefix(p, "/") {
		p = c.Cwd + "/" + p
	}
	return path.Clean(p)
}

func stem(p string) string {
	b := path.Base(p)
	return strings.TrimSuffix(b, path.Ext(b))
}

var ext = map[string]string{"ll": ".ll", "s": ".s", "o": ".o", "exe": ""}

// Output is a file the command line asks for.
type Output struct {
	Path string
	Solo *Cmd // the command that makes only this one
}

// Outputs lists the files the command line asks for.
func (c *Cmd) Outputs() []Output {
	if c.Mode == "exe" || c.Out != "" {
		o := c.Out
		if o == "" {
			if len(c.Inputs) == 0 {
				return nil
			}
			o = stem(c.Inputs[0])
		}
		return []Output{{c.abs(o), c}}
	}
	var l []Output
	for _, in := range c.Inputs {
		s := *c
		s.Inputs = []string{in}
		l = append(l, Output{c.abs(stem(in) + ext[c.Mode]), &s})
	}
	return l
}

// Temp is an intermediate file with a documented name.
type Temp struct{ Path, Src string }

// Temps lists the documented intermediate files.
func (c *Cmd) Temps() []Temp {
	var l []Temp
	switch {
	case c.Mode == "ll":
	case c.Mode == "exe" && len(c.Inputs) > 1:
		for i, in := range c.Inputs {
			if path.Ext(in) == ".b" {
				l = append(l, Temp{c.abs(fmt.Sprintf("%s.tmp.%d.ll", stem(in), i)), in})
			}
		}
	default:
		outs := c.Outputs()
		for i, in := range c.Inputs {
			if path.Ext(in) == ".b" && i < len(outs) {
				l = append(l, Temp{outs[i].Path + ".tmp.ll", in})
			}
		}
	}
	return l
}

// own tells whether the path is an output or a documented intermediate file,
// or one named after the output in the same way.
func (c *Cmd) own() map[string]bool {
	m := map[string]bool{}
	for _, o := range c.Outputs() {
		m[o.Path] = true
	}
	for _, t := range c.Temps() {
		m[t.Path] = true
	}
	if c.Mode == "exe" && len(c.Inputs) > 1 {
		for i := range c.Inputs {
			m[fmt.Sprintf("%s.tmp.%d.ll", c.Outputs()[0].Path, i)] = true
		}
	}
	return m
}

// Scenario is one simulated history: it is what a replay file holds.
type Scenario struct {
	Property string         `json:"property"`
	Seed     uint64         `json:"seed"`
	Class    string         `json:"class"`
	Detail   string         `json:"detail"`
	Valid    bool           `json:"valid"` // every input is well-formed and there
	Files    []File         `json:"files"`
	Cmds     []Cmd          `json:"cmds"`
	Cfg      simrt.Config   `json:"config"`
	Rounds   []simrt.Config `json:"rounds,omitempty"` // runs before the last one
	Edits    []File         `json:"edits,omitempty"`  // files changed in between
	Variants []Variant      `json:"variants,omitempty"`
	Bad      []string       `json:"bad,omitempty"` // defective inputs
	Trace    []string       `json:"trace,omitempty"`
}

// Variant is another way to compile the same source.
type Variant struct {
	Name string       `json:"name"`
	Src  string       `json:"src"` // the source among the files
	As   string       `json:"as"`  // where it is put
	Cmds []Cmd        `json:"cmds"`
	Cfg  simrt.Config `json:"config"`
}

// FS makes the file system.
func (s *Scenario) FS() *simrt.FS {
	f := simrt.NewFS()
	for _, d := range []string{"/tmp", "/simfs"} {
		f.MkdirAll(d)
	}
	for i := range s.Files {
		put(f, &s.Files[i])
	}
	for i := range s.Cmds {
		f.MkdirAll(s.Cmds[i].Cwd)
	}
	return f
}

func put(f *simrt.FS, x *File) {
	switch {
	case x.Dir:
		f.MkdirAll(x.Path)
	case x.Perm != 0:
		f.Put(x.Path, x.Bytes(), fs.FileMode(x.Perm))
	default:
		f.Put(x.Path, x.Bytes(), 0o644)
	}
	if x.Time > 0 {
		f.SetTime(x.Path, x.Time)
	}
}

// World runs commands concurrently over the file system, which it changes.
func World(cfg simrt.Config, files *simrt.FS, cmds ...Cmd) *simrt.World {
	files.Age()
	w := simrt.NewWorld(cfg, files)
	for i := range cmds {
		w.AddCommand(append([]string{"blang"}, cmds[i].Args()...), cmds[i].Env, cmds[i].Cwd, nil)
	}
	bubble(func() {
		time.Sleep(time.Until(w.Epoch()))
		w.Run()
	})
	tally(w)
	return w
}

// synctestRun is what synctest.Test is made of; it works outside of tests too.
// The worker is linked with -checklinkname=0 for it.
//
//go:linkname synctestRun internal/synctest.Run
func synctestRun(f func())

// bubble runs f with simulated time; goroutines left over do no harm.
func bubble(f func()) {
	defer func() {
		if r := recover(); r != nil && !strings.Contains(fmt.Sprint(r), "deadlock") {
			panic(r)
		}
	}()
	synctestRun(f)
}

// Stats are the counters of a worker.
type Stats struct {
	Evals, Discarded, Worlds, Commands int
	Ops, Switches                      int64
	Slept                              float64
	Faults                             map[string]int
	Exits                              map[string]int
	Hashes                             map[uint64]bool `json:"-"`
	Nondet                             int
	Notes                              map[string]int
	Samples                            []string
}

var st = newStats()

func newStats() *Stats {
	return &Stats{Faults: map[string]int{}, Exits: map[string]int{}, Hashes: map[uint64]bool{}, Notes: map[string]int{}}
}

func tally(w *simrt.World) {
	st.Worlds++
	st.Commands += len(w.Procs)
	st.Ops += int64(w.Ops)
	st.Switches += int64(w.Switches)
	st.Slept += w.Slept().Seconds()
	for _, f := range w.Fired {
		who := f.Who
		if who == "" {
			who = "blang"
		}
		st.Faults[strings.TrimSpace(who+" "+f.Class+" "+f.Err)]++
	}
	for _, p := range w.Procs {
		k := "failure"
		switch {
		case p.Panic != "":
			k = "panic"
		case p.Status.Signaled():
			k = "killed"
		case p.Status.ExitStatus() == 0:
			k = "success"
		}
		st.Exits[k]++
	}
	st.Hashes[w.Hash] = true
}

func ok(p *simrt.Proc) bool {
	return p.Exited && !p.Status.Signaled() && p.Status.ExitStatus() == 0 && p.Panic == ""
}

func content(f *simrt.FS, p string) (string, bool) {
	n := f.Nodes[p]
	if n == nil || n.Dir {
		return "", false
	}
	return string(n.Data), true
}

func sorted(m map[string]bool) []string {
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

// Abs makes a path of the command absolute.
func (c *Cmd) Abs(p string) string { return c.abs(p) }

// SetBytes changes the content of a file.
func SetBytes(f *File, b []byte) {
	g := mkFile(f.Path, b)
	f.Text, f.Hex = g.Text, g.Hex
}
