// Package os stands in for os in the simulated compiler.
package os

import (
	"errors"
	"fmt"
	"io"
	"io/fs"
	"os"
	"path"
	"sort"
	"strings"
	"syscall"
	"time"

	"vsim/simrt"
)

type (
	FileInfo     = fs.FileInfo
	FileMode     = fs.FileMode
	DirEntry     = fs.DirEntry
	PathError    = fs.PathError
	LinkError    = os.LinkError
	SyscallError = os.SyscallError
	Signal       = os.Signal
)

const (
	O_RDONLY = os.O_RDONLY
	O_WRONLY = os.O_WRONLY
	O_RDWR   = os.O_RDWR
	O_APPEND = os.O_APPEND
	O_CREATE = os.O_CREATE
	O_EXCL   = os.O_EXCL
	O_SYNC   = os.O_SYNC
	O_TRUNC  = os.O_TRUNC

	ModeDir        = fs.ModeDir
	ModeAppend     = fs.ModeAppend
	ModeExclusive  = fs.ModeExclusive
	ModeTemporary  = fs.ModeTemporary
	ModeSymlink    = fs.ModeSymlink
	ModeDevice     = fs.ModeDevice
	ModeNamedPipe  = fs.ModeNamedPipe
	ModeSocket     = fs.ModeSocket
	ModeSetuid     = fs.ModeSetuid
	ModeSetgid     = fs.ModeSetgid
	ModeCharDevice = fs.ModeCharDevice
	ModeSticky     = fs.ModeSticky
	ModeIrregular  = fs.ModeIrregular
	ModeType       = fs.ModeType
	ModePerm       = fs.ModePerm

	SEEK_SET = 0
	SEEK_CUR = 1
	SEEK_END = 2

	PathSeparator     = '/'
	PathListSeparator = ':'
	DevNull           = "/dev/null"
)

var (
	ErrInvalid          = fs.ErrInvalid
	ErrPermission       = fs.ErrPermission
	ErrExist            = fs.ErrExist
	ErrNotExist         = fs.ErrNotExist
	ErrClosed           = fs.ErrClosed
	ErrNoDeadline       = os.ErrNoDeadline
	ErrDeadlineExceeded = os.ErrDeadlineExceeded
	ErrProcessDone      = os.ErrProcessDone

	Interrupt = os.Interrupt
	Kill      = os.Kill

	Args   = []string{"blang"}
	Stdin  *File
	Stdout *File
	Stderr *File
)

func init() {
	var loaded *simrt.Proc
	type mine struct {
		args                  []string
		stdin, stdout, stderr *File
	}
	saved := map[*simrt.Proc]mine{}
	simrt.Switch = func(p *simrt.Proc) {
		if loaded != nil && loaded.W == p.W {
			saved[loaded] = mine{Args, Stdin, Stdout, Stderr}
		} else {
			clear(saved)
		}
		loaded = p
		m, ok := saved[p]
		if !ok {
			m = mine{append([]string{}, p.Args...), wrap(simrt.NewStd(p, 0)), wrap(simrt.NewStd(p, 1)), wrap(simrt.NewStd(p, 2))}
		}
		Args, Stdin, Stdout, Stderr = m.args, m.stdin, m.stdout, m.stderr
	}
}

// File is an open file of the world.
type File struct{ h *simrt.Handle }

func wrap(h *simrt.Handle) *File { return &File{h} }

// Handle gives the shims access.
func (f *File) Handle() *simrt.Handle { return f.h }

func (f *File) Name() string { return f.h.Name }
func (f *File) Read(b []byte) (int, error) {
	if f == nil {
		return 0, ErrInvalid
	}
	return f.h.Read(b)
}
func (f *File) ReadAt(b []byte, off int64) (int, error) {
	n := 0
	for n < len(b) {
		m, err := f.h.ReadAt(b[n:], off+int64(n))
		n += m
		if err != nil {
			return n, err
		}
	}
	return n, nil
}
func (f *File) Write(b []byte) (int, error) {
	if f == nil {
		return 0, ErrInvalid
	}
	return f.h.Write(b)
}
func (f *File) WriteAt(b []byte, off int64) (int, error) { return f.h.WriteAt(b, off) }
func (f *File) WriteString(s string) (int, error)        { return f.Write([]byte(s)) }
func (f *File) ReadFrom(r io.Reader) (int64, error) {
	return io.Copy(struct{ io.Writer }{f}, r)
}
func (f *File) Close() error {
	if f == nil {
		return ErrInvalid
	}
	return f.h.Close()
}
func (f *File) Sync() error                               { return f.h.Sync() }
func (f *File) Truncate(n int64) error                    { return f.h.Truncate(n) }
func (f *File) Seek(off int64, whence int) (int64, error) { return f.h.Seek(off, whence) }
func (f *File) Chmod(m FileMode) error                    { return f.h.Chmod(m) }
func (f *File) Fd() uintptr                               { return 3 }
func (f *File) SetDeadline(time.Time) error               { return ErrNoDeadline }
func (f *File) Chown(int, int) error                      { return nil }
func (f *File) Chdir() error                              { return simrt.Chdir(f.h.Abs) }
func (f *File) SyscallConn() (syscall.RawConn, error)     { return nil, errors.ErrUnsupported }
func (f *File) Stat() (FileInfo, error) {
	if f == nil {
		return nil, ErrInvalid
	}
	return info(f.h.Stat())
}
func (f *File) Readdir(n int) ([]FileInfo, error) {
	l, err := f.h.List(n)
	var r []FileInfo
	for _, i := range l {
		r = append(r, i)
	}
	return r, err
}
func (f *File) ReadDir(n int) ([]DirEntry, error) {
	l, err := f.h.List(n)
	var r []DirEntry
	for _, i := range l {
		r = append(r, i)
	}
	return r, err
}
func (f *File) Readdirnames(n int) ([]string, error) {
	l, err := f.h.List(n)
	var r []string
	for _, i := range l {
		r = append(r, i.Name())
	}
	return r, err
}

func info(i *simrt.Info, err error) (FileInfo, error) {
	if err != nil {
		return nil, err
	}
	return i, nil
}

func fix(err error) error {
	if e, ok := err.(*simrt.LinkError); ok {
		return &LinkError{Op: e.Op, Old: e.Old, New: e.New, Err: e.Err}
	}
	return err
}

func file(h *simrt.Handle, err error) (*File, error) {
	if err != nil {
		return nil, err
	}
	return wrap(h), nil
}

func Open(name string) (*File, error) { return file(simrt.Open(name, O_RDONLY, 0)) }
func Create(name string) (*File, error) {
	return file(simrt.Open(name, O_RDWR|O_CREATE|O_TRUNC, 0o666))
}
func OpenFile(name string, flag int, perm FileMode) (*File, error) {
	return file(simrt.Open(name, flag, perm))
}
func Stat(name string) (FileInfo, error)  { return info(simrt.Stat("stat", name)) }
func Lstat(name string) (FileInfo, error) { return info(simrt.Stat("lstat", name)) }
func Remove(name string) error            { return simrt.Remove(name) }
func RemoveAll(name string) error         { return simrt.RemoveAll(name) }
func Rename(a, b string) error            { return fix(simrt.Rename(a, b)) }
func Link(a, b string) error              { return fix(simrt.Link(a, b)) }
func Symlink(a, b string) error           { simrt.Unmodelled("os.Symlink"); return nil }
func Readlink(name string) (string, error) {
	if _, err := Lstat(name); err != nil {
		return "", err
	}
	return "", &PathError{Op: "readlink", Path: name, Err: syscall.EINVAL}
}
func Mkdir(name string, perm FileMode) error { return simrt.Mkdir(name, perm) }
func MkdirAll(name string, perm FileMode) error {
	if fi, err := Stat(name); err == nil {
		if fi.IsDir() {
			return nil
		}
		return &PathError{Op: "mkdir", Path: name, Err: syscall.ENOTDIR}
	}
	if d := path.Dir(path.Clean(name)); d != "." && d != "/" {
		if err := MkdirAll(d, perm); err != nil {
			return err
		}
	}
	err := Mkdir(name, perm)
	if err != nil {
		if fi, e := Lstat(name); e == nil && fi.IsDir() {
			return nil
		}
	}
	return err
}
func Chmod(name string, m FileMode) error        { return simrt.Chmod(name, m) }
func Chown(string, int, int) error               { return nil }
func Lchown(string, int, int) error              { return nil }
func Chtimes(string, time.Time, time.Time) error { return nil }
func Chdir(name string) error                    { return simrt.Chdir(name) }
func Getwd() (string, error)                     { return simrt.Current().Cwd, nil }
func Truncate(name string, n int64) error {
	f, err := OpenFile(name, O_WRONLY, 0)
	if err != nil {
		return err
	}
	defer f.Close()
	return f.Truncate(n)
}
func ReadFile(name string) ([]byte, error) {
	f, err := Open(name)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	return io.ReadAll(f)
}
func WriteFile(name string, data []byte, perm FileMode) error {
	f, err := OpenFile(name, O_WRONLY|O_CREATE|O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = f.Write(data)
	if e := f.Close(); e != nil && err == nil {
		err = e
	}
	return err
}
func ReadDir(name string) ([]DirEntry, error) {
	f, err := Open(name)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	l, err := f.ReadDir(-1)
	sort.Slice(l, func(i, j int) bool { return l[i].Name() < l[j].Name() })
	return l, err
}
func pattern(dir, pat string, try func(string) error) error {
	if strings.Contains(pat, "/") {
		return &PathError{Op: "createtemp", Path: pat, Err: errors.New("pattern contains path separator")}
	}
	if dir == "" {
		dir = TempDir()
	}
	pre, post := pat, ""
	if i := strings.LastIndex(pat, "*"); i >= 0 {
		pre, post = pat[:i], pat[i+1:]
	}
	for i := 0; ; i++ {
		name := path.Join(dir, fmt.Sprintf("%s%d%s", pre, simrt.Random()%4294967296, post))
		err := try(name)
		if errors.Is(err, ErrExist) && i < 1000 {
			continue
		}
		return err
	}
}
func CreateTemp(dir, pat string) (f *File, err error) {
	err = pattern(dir, pat, func(name string) error {
		f, err = OpenFile(name, O_RDWR|O_CREATE|O_EXCL, 0o600)
		return err
	})
	return
}
func MkdirTemp(dir, pat string) (name string, err error) {
	err = pattern(dir, pat, func(n string) error { name = n; return Mkdir(n, 0o700) })
	if err != nil {
		name = ""
	}
	return
}
func TempDir() string {
	if d := Getenv("TMPDIR"); d != "" {
		return d
	}
	return "/tmp"
}
func UserHomeDir() (string, error) {
	if d := Getenv("HOME"); d != "" {
		return d, nil
	}
	return "", errors.New("$HOME is not defined")
}
func UserCacheDir() (string, error) {
	d, err := UserHomeDir()
	return d + "/.cache", err
}
func UserConfigDir() (string, error) {
	d, err := UserHomeDir()
	return d + "/.config", err
}
func SameFile(a, b FileInfo) bool {
	x, ok1 := a.(*simrt.Info)
	y, ok2 := b.(*simrt.Info)
	return ok1 && ok2 && x.Same(y)
}
func Pipe() (*File, *File, error) {
	r, w := simrt.NewPipe()
	return wrap(r), wrap(w), nil
}
func NewFile(fd uintptr, name string) *File {
	switch fd {
	case 0:
		return Stdin
	case 1:
		return Stdout
	case 2:
		return Stderr
	}
	simrt.Unmodelled("os.NewFile")
	return nil
}
func DirFS(dir string) fs.FS           { simrt.Unmodelled("os.DirFS"); return nil }
func CopyFS(dir string, f fs.FS) error { simrt.Unmodelled("os.CopyFS"); return nil }
func Exit(code int)                    { simrt.Exit(code) }
func Getpid() int                      { return simrt.Current().Pid }
func Getppid() int                     { return 1 }
func Getuid() int                      { return simrt.Uid() }
func Geteuid() int                     { return simrt.Uid() }
func Getgid() int                      { return simrt.Uid() }
func Getegid() int                     { return simrt.Uid() }
func Getpagesize() int                 { return 4096 }
func Hostname() (string, error)        { return simrt.HostName(), nil }
func Executable() (string, error)      { return "/usr/bin/blang", nil }
func LookupEnv(k string) (string, bool) {
	simrt.Asked(k)
	for _, e := range simrt.Current().Env {
		if v, ok := strings.CutPrefix(e, k+"="); ok {
			return v, true
		}
	}
	return "", false
}
func Getenv(k string) string { v, _ := LookupEnv(k); return v }
func Unsetenv(k string) error {
	var l []string
	for _, e := range simrt.Current().Env {
		if !strings.HasPrefix(e, k+"=") {
			l = append(l, e)
		}
	}
	simrt.Current().Env = l
	return nil
}
func Setenv(k, v string) error {
	Unsetenv(k)
	simrt.Current().Env = append(simrt.Current().Env, k+"="+v)
	return nil
}
func Clearenv()                                     { simrt.Current().Env = nil }
func Environ() []string                             { return append([]string{}, simrt.Current().Env...) }
func Expand(s string, m func(string) string) string { return os.Expand(s, m) }
func ExpandEnv(s string) string                     { return os.Expand(s, Getenv) }
func IsExist(err error) bool                        { return os.IsExist(err) }
func IsNotExist(err error) bool                     { return os.IsNotExist(err) }
func IsPermission(err error) bool                   { return os.IsPermission(err) }
func IsTimeout(err error) bool                      { return os.IsTimeout(err) }
func IsPathSeparator(c uint8) bool                  { return c == '/' }
func NewSyscallError(s string, err error) error     { return os.NewSyscallError(s, err) }
func Umask(m int) int                               { return 0o22 }

// Process is a started child.
type Process struct {
	Pid int
	P   *simrt.Proc
}

func (p *Process) Kill() error {
	if p.P.Exited {
		return ErrProcessDone
	}
	simrt.KillProc(p.P)
	return nil
}
func (p *Process) Signal(s Signal) error {
	if p.P.Exited {
		return ErrProcessDone
	}
	simrt.KillProc(p.P)
	return nil
}
func (p *Process) Release() error { return nil }
func (p *Process) Wait() (*ProcessState, error) {
	simrt.Wait(p.P, nil)
	return &ProcessState{p.P}, nil
}
func FindProcess(pid int) (*Process, error) { simrt.Unmodelled("os.FindProcess"); return nil, nil }

// ProcAttr is for StartProcess.
type ProcAttr struct {
	Dir   string
	Env   []string
	Files []*File
	Sys   *syscall.SysProcAttr
}

func StartProcess(name string, argv []string, a *ProcAttr) (*Process, error) {
	env := a.Env
	if env == nil {
		env = Environ()
	}
	var out, errw io.Writer
	var in io.Reader
	if len(a.Files) > 0 && a.Files[0] != nil {
		in = a.Files[0]
	}
	if len(a.Files) > 1 && a.Files[1] != nil {
		out = a.Files[1]
	}
	if len(a.Files) > 2 && a.Files[2] != nil {
		errw = a.Files[2]
	}
	p, err := simrt.StartProcess(name, argv, env, a.Dir, in, out, errw)
	if err != nil {
		return nil, err
	}
	return &Process{p.Pid, p}, nil
}

// ProcessState is how a child ended.
type ProcessState struct{ P *simrt.Proc }

func (s *ProcessState) Exited() bool  { return s.P.Status.Exited() }
func (s *ProcessState) Pid() int      { return s.P.Pid }
func (s *ProcessState) Success() bool { return s.P.Status.Exited() && s.P.Status.ExitStatus() == 0 }
func (s *ProcessState) ExitCode() int {
	if s == nil {
		return -1
	}
	return s.P.Status.ExitStatus()
}
func (s *ProcessState) Sys() any                  { return s.P.Status }
func (s *ProcessState) SysUsage() any             { return &syscall.Rusage{} }
func (s *ProcessState) UserTime() time.Duration   { return 0 }
func (s *ProcessState) SystemTime() time.Duration { return 0 }
func (s *ProcessState) String() string {
	if s == nil {
		return "<nil>"
	}
	if s.P.Status.Exited() {
		return fmt.Sprintf("exit status %d", s.P.Status.ExitStatus())
	}
	return "signal: " + s.P.Status.Signal().String()
}
