// Package ps is the program simulator: programs compiled by the real compiler
// and linked with the real runtime, run on the simulated kernel and judged
// against the reference interpreter or against each other.
package ps

import (
	"bytes"
	"context"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"time"
)

// Tools are the programs under test, built from the repository's working tree.
type Tools struct {
	Repo  string
	Dir   string // scratch directory, absolute
	Blang string
	Lib   string // directory of libb.a
	Home  string // empty home directory
}

// Repo returns the repository under test.
func Repo() string {
	if r := os.Getenv("VERIF_REPO"); r != "" {
		return r
	}
	return "/repo"
}

// GoEnv is the environment for running the go command.
func GoEnv() []string {
	var env []string
	for _, e := range os.Environ() {
		switch k, _, _ := strings.Cut(e, "="); k {
		case "GOFLAGS", "GOPROXY", "GOTOOLCHAIN", "GOOS", "GOARCH", "GOWORK", "CC", "CFLAGS", "DESTDIR", "MAKEFLAGS", "MAKELEVEL", "GOSUMDB", "GOEXPERIMENT", "GODEBUG":
		default:
			env = append(env, e)
		}
	}
	return append(env, "GOFLAGS=-mod=mod -buildvcs=false", "GOPROXY=off", "GOTOOLCHAIN=local", "GOSUMDB=off", "GOWORK=off")
}

// Setup builds the compiler and the runtime.
func Setup(dir string) (*Tools, error) {
	t := &Tools{Repo: Repo(), Dir: dir, Blang: filepath.Join(dir, "blang"), Lib: filepath.Join(dir, "lib"), Home: filepath.Join(dir, "home")}
	for _, d := range []string{t.Lib, t.Home} {
		if err := os.MkdirAll(d, 0o755); err != nil {
			return nil, err
		}
	}
	c := exec.Command("go", "build", "-o", t.Blang, ".")
	c.Dir = t.Repo
	c.Env = GoEnv()
	if out, err := c.CombinedOutput(); err != nil {
		return nil, fmt.Errorf("build of blang: %v\n%s", err, out)
	}
	rt := filepath.Join(dir, "runtime")
	if out, err := exec.Command("cp", "-a", filepath.Join(t.Repo, "runtime"), rt).CombinedOutput(); err != nil {
		return nil, fmt.Errorf("copy of the runtime: %v\n%s", err, out)
	}
	c = exec.Command("make", "-B", "-C", rt, "all")
	c.Env = GoEnv()
	if out, err := c.CombinedOutput(); err != nil {
		return nil, fmt.Errorf("build of the runtime: %v\n%s", err, out)
	}
	if err := os.Rename(filepath.Join(rt, "libb.a"), filepath.Join(t.Lib, "libb.a")); err != nil {
		return nil, err
	}
	os.RemoveAll(rt)
	return t, nil
}

// cmd runs a tool in dir; the result distinguishes failure from trouble.
func (t *Tools) cmd(dir string, limit time.Duration, name string, args ...string) (ok bool, out string, err error) {
	ctx, cancel := context.WithTimeout(context.Background(), limit)
	defer cancel()
	c := exec.CommandContext(ctx, name, args...)
	c.Dir = dir
	c.Env = []string{"PATH=" + os.Getenv("PATH"), "HOME=" + t.Home, "LANG=C.UTF-8", "TMPDIR=" + t.Dir}
	var b bytes.Buffer
	c.Stdout, c.Stderr = &b, &b
	c.WaitDelay = 5 * time.Second
	e := c.Run()
	if ctx.Err() != nil {
		return false, fmt.Sprintf("%s did not end within %v", filepath.Base(name), limit), nil
	}
	if e != nil {
		if _, isExit := e.(*exec.ExitError); !isExit {
			return false, "", fmt.Errorf("%s: %v", name, e)
		}
		return false, fmt.Sprintf("%s: %v: %s", filepath.Base(name), e, clip(b.String(), 1500)), nil
	}
	return true, b.String(), nil
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// Route says how sources become an executable.
type Route struct {
	Opt   string   `json:"opt,omitempty"` // "", "0".."3"
	G     bool     `json:"g,omitempty"`
	Forms []string `json:"forms"` // per source: stages it is taken through before the final link: "", "ll", "s", "o", "ll.s.o", "o.a"...
	Link  string   `json:"link"`  // "blang", or "ld" when every form ends in an object
	Order []int    `json:"order,omitempty"`
	Late  bool     `json:"late,omitempty"` // options after the inputs
	Multi bool     `json:"multi,omitempty"`
	Save  bool     `json:"save,omitempty"`
}

func (r Route) String() string {
	s := "blang"
	if r.Opt != "" {
		s += " -O" + r.Opt
	}
	if r.G {
		s += " -g"
	}
	return fmt.Sprintf("%s forms=%q link=%s order=%v", s, r.Forms, r.Link, r.Order)
}

func (r Route) flags() []string {
	var f []string
	if r.Opt != "" {
		f = append(f, "-O"+r.Opt)
	}
	if r.G {
		f = append(f, "-g")
	}
	return f
}

const toolLimit = 100 * time.Second

// Make builds an executable from the texts. fail is what a tool complained
// about; err is trouble with the machinery.
func (t *Tools) Make(dir string, texts []string, r Route) (exe, fail string, err error) {
	if err := os.MkdirAll(dir, 0o755); err != nil {
		return "", "", err
	}
	names := make([]string, len(texts))
	for i, s := range texts {
		names[i] = fmt.Sprintf("m%d.b", i)
		if err := os.WriteFile(filepath.Join(dir, names[i]), []byte(s), 0o644); err != nil {
			return "", "", err
		}
	}
	run := func(name string, args ...string) bool {
		if fail != "" || err != nil {
			return false
		}
		ok, out, e := t.cmd(dir, toolLimit, name, args...)
		if e != nil {
			err = e
			return false
		}
		if !ok {
			fail = fmt.Sprintf("%s %s: %s", filepath.Base(name), strings.Join(args, " "), out)
		}
		return ok
	}
	form := func(i int) string {
		if i < len(r.Forms) {
			return r.Forms[i]
		}
		return ""
	}
	stageFlag := map[string]string{"ll": "--emit-llvm", "s": "-S", "o": "-c"}
	if r.Multi && len(texts) > 1 {
		// one command makes the first stage of all sources that begin with it
		byStage := map[string][]int{}
		for i := range texts {
			first, _, _ := strings.Cut(form(i), ".")
			if stageFlag[first] != "" {
				byStage[first] = append(byStage[first], i)
			}
		}
		for _, st := range []string{"ll", "s", "o"} {
			if len(byStage[st]) < 2 {
				continue
			}
			args := append([]string{stageFlag[st]}, r.flags()...)
			for _, i := range byStage[st] {
				args = append(args, names[i])
			}
			if !run(t.Blang, args...) {
				return
			}
			for _, i := range byStage[st] {
				names[i] = fmt.Sprintf("m%d.%s", i, st)
			}
		}
	}
	var archived []string
	archive := map[int]bool{}
	for i := range texts {
		for k, st := range strings.Split(form(i), ".") {
			if st == "" {
				continue
			}
			out := fmt.Sprintf("m%d.%s", i, st)
			if k == 0 && names[i] == out {
				continue // made by the common command
			}
			if st == "a" {
				archive[i] = true
				archived = append(archived, names[i])
				continue
			}
			args := append([]string{stageFlag[st]}, r.flags()...)
			if r.Late {
				args = append([]string{names[i]}, args...)
				args = append(args, "-o", out)
			} else {
				args = append(args, "-o", out, names[i])
			}
			if !run(t.Blang, args...) {
				return
			}
			names[i] = out
		}
	}
	var inputs []string
	order := r.Order
	if len(order) != len(texts) {
		order = nil
		for i := range texts {
			order = append(order, i)
		}
	}
	for _, i := range order {
		if !archive[i] {
			inputs = append(inputs, names[i])
		}
	}
	if len(archived) > 0 {
		if !run("ar", append([]string{"cr", "libmods.a"}, archived...)...) {
			return
		}
		inputs = append(inputs, "libmods.a")
	}
	exe = filepath.Join(dir, "prog")
	os.Remove(exe)
	if r.Link == "ld" {
		run("ld", append(append([]string{"-static", "-o", exe}, inputs...), "-L", t.Lib, "-lb")...)
		return
	}
	args := r.flags()
	if r.Save {
		args = append(args, "--save-temps")
	}
	opts := append(args, "-L", t.Lib, "-o", "prog")
	if r.Late {
		run(t.Blang, append(append([]string{}, inputs...), opts...)...)
	} else {
		run(t.Blang, append(opts, inputs...)...)
	}
	return
}
