// Package exec stands in for os/exec in the simulated compiler.
package exec

import (
	"bytes"
	"context"
	"errors"
	"io"
	"os/exec"
	"strings"
	"syscall"
	"time"

	"vsim/shim/os"
	"vsim/simrt"
)

type Error = exec.Error

var (
	ErrNotFound  = exec.ErrNotFound
	ErrDot       = exec.ErrDot
	ErrWaitDelay = exec.ErrWaitDelay
)

// ExitError is an unsuccessful end.
type ExitError struct {
	*os.ProcessState
	Stderr []byte
}

func (e *ExitError) Error() string { return e.ProcessState.String() }

// Cmd is a command to run.
type Cmd struct {
	Path         string
	Args         []string
	Env          []string
	Dir          string
	Stdin        io.Reader
	Stdout       io.Writer
	Stderr       io.Writer
	ExtraFiles   []*os.File
	SysProcAttr  *syscall.SysProcAttr
	Process      *os.Process
	ProcessState *os.ProcessState
	Err          error
	Cancel       func() error
	WaitDelay    time.Duration

	ctx   context.Context
	after []io.Closer
}

func LookPath(file string) (string, error) {
	if strings.Contains(file, "/") {
		if err := usable(file); err != nil {
			return "", &Error{Name: file, Err: err}
		}
		return file, nil
	}
	for _, d := range strings.Split(os.Getenv("PATH"), ":") {
		if d == "" {
			d = "."
		}
		if usable(d+"/"+file) == nil {
			return d + "/" + file, nil
		}
	}
	return "", &Error{Name: file, Err: ErrNotFound}
}

func usable(p string) error {
	fi, err := os.Stat(p)
	if err != nil {
		return err
	}
	if fi.IsDir() {
		return syscall.EISDIR
	}
	if fi.Mode()&0o111 == 0 {
		return os.ErrPermission
	}
	return nil
}

func Command(name string, arg ...string) *Cmd {
	c := &Cmd{Path: name, Args: append([]string{name}, arg...)}
	if !strings.Contains(name, "/") {
		p, err := LookPath(name)
		if p != "" {
			c.Path = p
		}
		c.Err = err
	}
	return c
}

func CommandContext(ctx context.Context, name string, arg ...string) *Cmd {
	c := Command(name, arg...)
	c.ctx = ctx
	c.Cancel = func() error { return c.Process.Kill() }
	return c
}

func (c *Cmd) String() string {
	if c.Err != nil {
		return strings.Join(c.Args, " ")
	}
	b := new(strings.Builder)
	b.WriteString(c.Path)
	for _, a := range c.Args[1:] {
		b.WriteByte(' ')
		b.WriteString(a)
	}
	return b.String()
}

func (c *Cmd) Environ() []string {
	if c.Env != nil {
		return c.Env
	}
	return os.Environ()
}

func (c *Cmd) Start() error {
	if c.Err != nil {
		return c.Err
	}
	if c.Process != nil {
		return errors.New("exec: already started")
	}
	if c.ctx != nil && c.ctx.Err() != nil {
		return c.ctx.Err()
	}
	p, err := simrt.StartProcess(c.Path, c.Args, c.Environ(), c.Dir, c.Stdin, c.Stdout, c.Stderr)
	if err != nil {
		for _, x := range c.after {
			x.Close()
		}
		return err
	}
	c.Process = &os.Process{Pid: p.Pid, P: p}
	return nil
}

func (c *Cmd) Wait() error {
	if c.Process == nil {
		return errors.New("exec: not started")
	}
	if c.ProcessState != nil {
		return errors.New("exec: Wait was already called")
	}
	var cerr error
	if c.ctx != nil {
		simrt.Wait(c.Process.P, func() bool { return c.ctx.Err() != nil })
		if !c.Process.P.Exited {
			cerr = c.ctx.Err()
			if e := c.Cancel(); e != nil && !errors.Is(e, os.ErrProcessDone) {
				cerr = e
			}
		}
	}
	st, _ := c.Process.Wait()
	c.ProcessState = st
	for _, x := range c.after {
		x.Close()
	}
	if cerr != nil {
		return cerr
	}
	if !st.Success() {
		return &ExitError{ProcessState: st}
	}
	return nil
}

func (c *Cmd) Run() error {
	if err := c.Start(); err != nil {
		return err
	}
	return c.Wait()
}

func (c *Cmd) Output() ([]byte, error) {
	if c.Stdout != nil {
		return nil, errors.New("exec: Stdout already set")
	}
	var out, errb bytes.Buffer
	c.Stdout = &out
	capture := c.Stderr == nil
	if capture {
		c.Stderr = &errb
	}
	err := c.Run()
	if e, ok := err.(*ExitError); ok && capture {
		e.Stderr = errb.Bytes()
	}
	return out.Bytes(), err
}

func (c *Cmd) CombinedOutput() ([]byte, error) {
	if c.Stdout != nil || c.Stderr != nil {
		return nil, errors.New("exec: Stdout or Stderr already set")
	}
	var b bytes.Buffer
	c.Stdout, c.Stderr = &b, &b
	err := c.Run()
	return b.Bytes(), err
}

func (c *Cmd) StdinPipe() (io.WriteCloser, error) {
	r, w, err := os.Pipe()
	c.Stdin = r
	return w, err
}

func (c *Cmd) StdoutPipe() (io.ReadCloser, error) {
	r, w, err := os.Pipe()
	c.Stdout = w
	c.after = append(c.after, w)
	return r, err
}

func (c *Cmd) StderrPipe() (io.ReadCloser, error) {
	r, w, err := os.Pipe()
	c.Stderr = w
	c.after = append(c.after, w)
	return r, err
}
