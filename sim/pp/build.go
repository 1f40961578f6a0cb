// Package pp is the parent side of the pipe simulator: it rewrites and builds
// the compiler under test, runs the workers, and minimises what they find.
package pp

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"io/fs"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"time"

	"vsim/pipe"
	"vsim/ps"
	"vsim/weave"
)

// Tool is a built worker.
type Tool struct {
	Dir    string
	Worker string
}

// Build rewrites the compiler in the repository and builds a worker of it.
func Build(sim, dir string) (*Tool, error) {
	wt := filepath.Join(dir, "wt")
	if err := copyTree(sim, wt); err != nil {
		return nil, err
	}
	env := ps.GoEnv()
	if err := weave.Program(ps.Repo(), wt, env); err != nil {
		return nil, fmt.Errorf("rewriting the compiler: %v", err)
	}
	t := &Tool{Dir: dir, Worker: filepath.Join(dir, "worker")}
	c := exec.Command("go", "build", "-trimpath", "-ldflags=-checklinkname=0", "-o", t.Worker, "./cmd/worker")
	c.Dir = wt
	c.Env = env
	if out, err := c.CombinedOutput(); err != nil {
		return nil, fmt.Errorf("building the worker: %v\n%s", err, out)
	}
	return t, os.RemoveAll(wt)
}

func copyTree(from, to string) error {
	return filepath.WalkDir(from, func(p string, d fs.DirEntry, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(from, p)
		dst := filepath.Join(to, rel)
		if d.IsDir() {
			return os.MkdirAll(dst, 0o755)
		}
		if !strings.HasSuffix(p, ".go") && !strings.HasSuffix(p, ".s") && d.Name() != "go.mod" {
			return nil
		}
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		return os.WriteFile(dst, b, 0o644)
	})
}

// Server evaluates scenarios in a process of its own.
type Server struct {
	t    *Tool
	cmd  *exec.Cmd
	in   io.WriteCloser
	out  *bufio.Scanner
	errs *tail
	recv chan *pipe.Message
}

// tail keeps the beginning of what is written.
type tail struct{ b bytes.Buffer }

func (t *tail) Write(p []byte) (int, error) {
	if room := 20000 - t.b.Len(); room > 0 {
		t.b.Write(p[:min(room, len(p))])
	}
	return len(p), nil
}

func (s *Server) start() error {
	s.cmd = exec.Command(s.t.Worker, "serve")
	s.errs = &tail{}
	s.cmd.Stderr = s.errs
	in, err := s.cmd.StdinPipe()
	if err != nil {
		return err
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		return err
	}
	if err := s.cmd.Start(); err != nil {
		return err
	}
	s.in = in
	recv := make(chan *pipe.Message, 1)
	s.recv = recv
	sc := bufio.NewScanner(out)
	sc.Buffer(nil, 1<<28)
	go func() {
		defer close(recv)
		for sc.Scan() {
			m := new(pipe.Message)
			if json.Unmarshal(sc.Bytes(), m) == nil {
				recv <- m
			}
		}
	}()
	return nil
}

// Close ends the process.
func (s *Server) Close() {
	if s.cmd != nil {
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

// Limit is how long one evaluation may take.
const Limit = 40 * time.Second

// Eval evaluates a scenario. A worker that dies or hangs over it is a verdict too.
func (s *Server) Eval(sc *pipe.Scenario, limit time.Duration) (*pipe.Verdict, error) {
	if s.cmd == nil {
		if err := s.start(); err != nil {
			return nil, err
		}
	}
	b, err := json.Marshal(sc)
	if err != nil {
		return nil, err
	}
	s.in.Write(append(b, '\n'))
	select {
	case m := <-s.recv:
		if m != nil && m.Verdict != nil {
			return m.Verdict, nil
		}
		s.cmd.Wait()
		st := s.cmd.ProcessState
		s.cmd = nil
		return &pipe.Verdict{Class: "crash", Detail: "the compiler ends the process: " + st.String() + "\n" + head(s.errs.b.String())}, nil
	case <-time.After(limit):
		s.Close()
		return &pipe.Verdict{Class: "hang", Detail: fmt.Sprintf("no end after %v of computing", limit)}, nil
	}
}

func head(s string) string {
	var l []string
	for _, x := range strings.Split(s, "\n") {
		if strings.TrimSpace(x) == "" {
			continue
		}
		l = append(l, x)
		if len(l) == 14 {
			break
		}
	}
	return strings.Join(l, "\n")
}
