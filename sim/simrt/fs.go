package simrt

import (
	"io"
	"io/fs"
	"path"
	"sort"
	"strings"
	"syscall"
	"time"
)

// Node is a file or directory.
type Node struct {
	Dir   bool
	Data  []byte
	Perm  fs.FileMode
	Mtime int
	ino   int
	links int
	opens int
	old   bool
	by    int
}

// FS is a flat file system: clean absolute paths, no links.
type FS struct {
	Nodes map[string]*Node
	w     *World
	clock int
	ino   int
	used  int // bytes that the quota has lost
}

// NewFS makes a file system with a root.
func NewFS() *FS {
	f := &FS{Nodes: map[string]*Node{}}
	f.Nodes["/"] = &Node{Dir: true, Perm: 0o755, by: -1, old: true}
	return f
}

// Put adds a file and its directories.
func (f *FS) Put(p string, data []byte, perm fs.FileMode) {
	f.MkdirAll(path.Dir(p))
	f.ino++
	f.Nodes[p] = &Node{Data: append([]byte{}, data...), Perm: perm, ino: f.ino, links: 1, by: -1, old: true}
}

// MkdirAll adds directories.
func (f *FS) MkdirAll(p string) {
	for p = path.Clean(p); f.Nodes[p] == nil; p = path.Dir(p) {
		f.ino++
		f.Nodes[p] = &Node{Dir: true, Perm: 0o755, ino: f.ino, by: -1, old: true}
	}
}

// SetTime sets when a file was changed last; later changes are later.
func (f *FS) SetTime(p string, t int) {
	f.Nodes[p].Mtime = t
	f.clock = max(f.clock, t)
}

// Clone copies the file system.
func (f *FS) Clone() *FS {
	g := &FS{Nodes: map[string]*Node{}, clock: f.clock, ino: f.ino}
	for p, n := range f.Nodes {
		c := *n
		c.Data = append([]byte{}, n.Data...)
		c.opens = 0
		g.Nodes[p] = &c
	}
	return g
}

// Age makes everything that exists count as old.
func (f *FS) Age() {
	for _, n := range f.Nodes {
		n.old, n.by = true, -1
	}
}

// Paths lists the paths in order.
func (f *FS) Paths() []string {
	var l []string
	for p := range f.Nodes {
		l = append(l, p)
	}
	sort.Strings(l)
	return l
}

// Abs makes a path absolute for the process.
func (p *Proc) Abs(name string) string {
	if !strings.HasPrefix(name, "/") {
		name = p.Cwd + "/" + name
	}
	return path.Clean(name)
}

func perr(op, name string, err error) error { return &fs.PathError{Op: op, Path: name, Err: err} }

// walk checks the directories of a path.
func (f *FS) walk(abs string) error {
	if len(abs) > 4000 {
		return syscall.ENAMETOOLONG
	}
	if strings.IndexByte(abs, 0) >= 0 {
		return syscall.EINVAL
	}
	for d := path.Dir(abs); d != "/"; d = path.Dir(d) {
		n := f.Nodes[d]
		if n == nil {
			return syscall.ENOENT
		}
		if !n.Dir {
			return syscall.ENOTDIR
		}
	}
	if len(path.Base(abs)) > 255 {
		return syscall.ENAMETOOLONG
	}
	return nil
}

func (f *FS) mut(p *Proc, op, abs string, n *Node) {
	f.clock++
	if n != nil {
		n.Mtime = f.clock
	}
	m := Mut{Cmd: p.Cmd, Clang: p.Child, Op: op, Path: abs, By: -1}
	if n != nil {
		m.Old, m.By = n.old, n.by
	}
	f.w.Muts = append(f.w.Muts, m)
}

// Handle is an open file.
type Handle struct {
	Name   string
	Abs    string
	p      *Proc
	n      *Node
	stream *Stream
	std    int // 1 stdout, 2 stderr, -1 stdin
	pos    int
	flag   int
	closed bool
	listed int
	ended  bool // the end has been seen
	sink   io.Writer
	source io.Reader
}

// NewStd makes a standard stream of a process.
func NewStd(p *Proc, fd int) *Handle {
	switch fd {
	case 0:
		return &Handle{Name: "/dev/stdin", p: p, stream: p.Stdin, std: -1}
	case 1:
		return &Handle{Name: "/dev/stdout", p: p, stream: p.Stdout, std: 1}
	}
	return &Handle{Name: "/dev/stderr", p: p, stream: p.Stderr, std: 2}
}

// NewPipe makes both ends of a pipe.
func NewPipe() (r, w *Handle) {
	p := cur()
	s := &Stream{Label: "pipe"}
	r = &Handle{Name: "|0", p: p, stream: s, std: 3}
	w = &Handle{Name: "|1", p: p, stream: s, std: 4}
	return
}

// Open opens a file the way open(2) does.
func Open(name string, flag int, perm fs.FileMode) (*Handle, error) {
	class := "open"
	if flag&(syscall.O_CREAT|syscall.O_TRUNC) != 0 {
		class = "create"
	}
	p := cur()
	abs := p.Abs(name)
	if err := Point(class, abs); err != nil {
		return nil, perr("open", name, err)
	}
	if name == "" {
		return nil, perr("open", name, syscall.ENOENT)
	}
	if abs == "/dev/null" {
		return &Handle{Name: name, Abs: abs, p: p, stream: &Stream{Label: "null"}, std: 5}, nil
	}
	f := p.W.FS
	if err := f.walk(abs); err != nil {
		return nil, perr("open", name, err)
	}
	n := f.Nodes[abs]
	acc := flag & syscall.O_ACCMODE
	switch {
	case n == nil && flag&syscall.O_CREAT == 0:
		return nil, perr("open", name, syscall.ENOENT)
	case n == nil:
		if strings.HasSuffix(name, "/") {
			return nil, perr("open", name, syscall.EISDIR)
		}
		f.ino++
		n = &Node{Perm: perm &^ 0o022, ino: f.ino, links: 1, by: p.Cmd}
		f.Nodes[abs] = n
		f.mut(p, "create", abs, n)
	case flag&syscall.O_CREAT != 0 && flag&syscall.O_EXCL != 0:
		return nil, perr("open", name, syscall.EEXIST)
	case n.Dir && (acc != syscall.O_RDONLY || flag&syscall.O_CREAT != 0):
		return nil, perr("open", name, syscall.EISDIR)
	case !n.Dir && strings.HasSuffix(name, "/"):
		return nil, perr("open", name, syscall.ENOTDIR)
	case acc != syscall.O_WRONLY && n.Perm&0o400 == 0, acc != syscall.O_RDONLY && n.Perm&0o200 == 0:
		return nil, perr("open", name, syscall.EACCES)
	case flag&syscall.O_TRUNC != 0:
		f.used -= len(n.Data)
		n.Data = nil
		f.mut(p, "truncate", abs, n)
	}
	n.opens++
	return &Handle{Name: name, Abs: abs, p: p, n: n, flag: flag}, nil
}

func (h *Handle) bad(op string) error {
	if h == nil {
		return fs.ErrInvalid
	}
	if h.closed {
		return perr(op, h.Name, fs.ErrClosed)
	}
	return nil
}

// Read reads like (*os.File).Read.
func (h *Handle) Read(b []byte) (int, error) {
	if err := h.bad("read"); err != nil {
		return 0, err
	}
	if h.stream != nil {
		if h.std == 3 {
			s := h.stream
			Block("pipe", func() bool { return s.Pos < len(s.Data) || s.Label == "closed" })
		} else if err := Point("stdin", h.Name); err != nil {
			return 0, perr("read", h.Name, err)
		}
		if h.stream.Label == "null" || h.stream.Pos >= len(h.stream.Data) {
			if len(b) == 0 {
				return 0, nil
			}
			return 0, io.EOF
		}
		n := copy(b, h.stream.Data[h.stream.Pos:])
		h.stream.Pos += n
		return n, nil
	}
	n, err := h.readAt(b, int64(h.pos))
	h.pos += n
	return n, err
}

// look is what a file seems to be: one of the kinds of Config.Source, or 0.
func look(name string, n *Node) int {
	if n != nil && !n.Dir && n.by == -1 && W != nil && strings.HasSuffix(name, ".b") {
		return W.Cfg.Source
	}
	return 0
}

// ReadAt reads at an offset; at most one chunk.
func (h *Handle) ReadAt(b []byte, off int64) (int, error) {
	if err := h.bad("read"); err == nil && look(h.Name, h.n) == 1 {
		return 0, perr("read", h.Name, syscall.ESPIPE)
	}
	return h.readAt(b, off)
}

func (h *Handle) readAt(b []byte, off int64) (int, error) {
	if err := h.bad("read"); err != nil {
		return 0, err
	}
	class := "read"
	if h.ended {
		class = "reread"
	}
	if err := Point(class, h.Abs); err != nil {
		return 0, perr("read", h.Name, err)
	}
	if h.n == nil || h.flag&syscall.O_ACCMODE == syscall.O_WRONLY {
		return 0, perr("read", h.Name, syscall.EBADF)
	}
	if h.n.Dir {
		return 0, perr("read", h.Name, syscall.EISDIR)
	}
	if len(b) == 0 {
		return 0, nil
	}
	if off >= int64(len(h.n.Data)) {
		h.ended = true
		return 0, io.EOF
	}
	if c := h.p.W.chunk; c != nil && len(b) > 1 {
		k := 0
		switch c.N(4) {
		case 0:
			k = 1
		case 1:
			k = c.Range(1, 16)
		default:
			k = c.Range(1, len(b))
		}
		b = b[:min(k, len(b))]
	}
	return copy(b, h.n.Data[off:]), nil
}

// Write writes like (*os.File).Write.
func (h *Handle) Write(b []byte) (int, error) {
	if err := h.bad("write"); err != nil {
		return 0, err
	}
	if h.stream != nil {
		class := "stdout"
		if h.std == 2 {
			class = "stderr"
		}
		if err := Point(class, h.Name); err != nil {
			return 0, perr("write", h.Name, err)
		}
		if h.std == 5 {
			return len(b), nil
		}
		if h.p.dead {
			return 0, perr("write", h.Name, syscall.EPIPE)
		}
		h.stream.Data = append(h.stream.Data, b...)
		if h.sink != nil {
			return h.sink.Write(b)
		}
		return len(b), nil
	}
	if h.flag&syscall.O_APPEND != 0 && h.n != nil {
		h.pos = len(h.n.Data)
	}
	n, err := h.WriteAt(b, int64(h.pos))
	h.pos += n
	return n, err
}

// WriteAt writes at an offset.
func (h *Handle) WriteAt(b []byte, off int64) (int, error) {
	if err := h.bad("write"); err != nil {
		return 0, err
	}
	err := Point("write", h.Abs)
	if h.n == nil || h.flag&syscall.O_ACCMODE == syscall.O_RDONLY {
		return 0, perr("write", h.Name, syscall.EBADF)
	}
	f, w := h.p.W.FS, h.p.W
	n := len(b)
	if err != nil {
		n /= 2 // a failing write may have got half way
	} else if q := w.Cfg.Quota; q > 0 {
		grow := int(off) + n - len(h.n.Data)
		if left := q - 1 - f.used; grow > left {
			n = max(0, n-(grow-max(left, 0)))
			err = syscall.ENOSPC
			w.fired(who(h.p), "quota", h.Abs, "ENOSPC")
		}
	}
	if n > 0 {
		if end := int(off) + n; end > len(h.n.Data) {
			f.used += end - len(h.n.Data)
			h.n.Data = append(h.n.Data, make([]byte, end-len(h.n.Data))...)
		}
		copy(h.n.Data[off:], b[:n])
	}
	f.mut(h.p, "write", h.Abs, h.n)
	if err != nil {
		return n, perr("write", h.Name, err)
	}
	return n, nil
}

// Truncate changes the length.
func (h *Handle) Truncate(size int64) error {
	if err := h.bad("truncate"); err != nil {
		return err
	}
	if err := Point("write", h.Abs); err != nil {
		return perr("truncate", h.Name, err)
	}
	if h.n == nil || h.n.Dir || size < 0 {
		return perr("truncate", h.Name, syscall.EINVAL)
	}
	f := h.p.W.FS
	f.used += int(size) - len(h.n.Data)
	if d := int(size) - len(h.n.Data); d > 0 {
		h.n.Data = append(h.n.Data, make([]byte, d)...)
	}
	h.n.Data = h.n.Data[:size]
	f.mut(h.p, "truncate", h.Abs, h.n)
	return nil
}

// Seek moves the position.
func (h *Handle) Seek(off int64, whence int) (int64, error) {
	if err := h.bad("seek"); err != nil {
		return 0, err
	}
	if h.n == nil || look(h.Name, h.n) == 1 {
		return 0, perr("seek", h.Name, syscall.ESPIPE)
	}
	switch whence {
	case 1:
		off += int64(h.pos)
	case 2:
		off += int64(len(h.n.Data))
	}
	if off < 0 {
		return 0, perr("seek", h.Name, syscall.EINVAL)
	}
	h.pos, h.listed, h.ended = int(off), 0, false
	return off, nil
}

// Sync flushes.
func (h *Handle) Sync() error {
	if err := h.bad("sync"); err != nil {
		return err
	}
	if err := Point("sync", h.Abs); err != nil {
		return perr("sync", h.Name, err)
	}
	return nil
}

// Close closes. A failing close has closed the file and may have lost what was
// written last.
func (h *Handle) Close() error {
	if h == nil {
		return fs.ErrInvalid
	}
	if h.closed {
		return perr("close", h.Name, fs.ErrClosed)
	}
	class := "close"
	if h.n != nil && h.flag&syscall.O_ACCMODE == syscall.O_RDONLY {
		class = "rclose"
	}
	err := Point(class, h.Abs)
	h.closed = true
	if h.stream != nil && h.std == 4 {
		h.stream.Label = "closed"
	}
	if h.n != nil {
		h.n.opens--
		if err != nil && class == "close" && !h.n.Dir {
			h.n.Data = h.n.Data[:len(h.n.Data)/2]
			h.p.W.FS.mut(h.p, "write", h.Abs, h.n)
		}
	}
	if err != nil {
		return perr("close", h.Name, err)
	}
	return nil
}

// Info describes a file.
type Info struct {
	name string
	n    *Node
	size int64
	mt   int
	pipe bool
}

func (i *Info) Name() string { return i.name }
func (i *Info) Size() int64  { return i.size }
func (i *Info) Mode() fs.FileMode {
	switch {
	case i.n == nil:
		return fs.ModeCharDevice | fs.ModeDevice | 0o666
	case i.n.Dir:
		return fs.ModeDir | i.n.Perm
	case i.pipe:
		return fs.ModeNamedPipe | i.n.Perm
	}
	return i.n.Perm
}
func (i *Info) ModTime() time.Time {
	return time.Date(2024, 1, 1, 0, 0, i.mt, 0, time.UTC)
}
func (i *Info) IsDir() bool                { return i.n != nil && i.n.Dir }
func (i *Info) Sys() any                   { return nil }
func (i *Info) Type() fs.FileMode          { return i.Mode().Type() }
func (i *Info) Info() (fs.FileInfo, error) { return i, nil }

// Same tells whether two infos are of one file.
func (i *Info) Same(j *Info) bool { return i.n == j.n }

func info(name string, n *Node) *Info {
	i := &Info{name: name, n: n, size: int64(len(n.Data)), mt: n.Mtime}
	if n.Dir {
		i.size = 4096
	}
	if k := look(name, n); k != 0 {
		i.size, i.pipe = 0, k == 1
	}
	return i
}

// Stat describes the open file.
func (h *Handle) Stat() (*Info, error) {
	if err := h.bad("stat"); err != nil {
		return nil, err
	}
	if err := Point("stat", h.Abs); err != nil {
		return nil, perr("stat", h.Name, err)
	}
	if h.n == nil {
		return &Info{name: path.Base(h.Name)}, nil
	}
	return info(path.Base(h.Name), h.n), nil
}

// Chmod changes the permissions.
func (h *Handle) Chmod(m fs.FileMode) error {
	if err := h.bad("chmod"); err != nil {
		return err
	}
	return Chmod(h.Abs, m)
}

// List returns up to n entries of an open directory.
func (h *Handle) List(n int) ([]*Info, error) {
	if err := h.bad("readdir"); err != nil {
		return nil, err
	}
	if err := Point("readdir", h.Abs); err != nil {
		return nil, perr("readdirent", h.Name, err)
	}
	if h.n == nil || !h.n.Dir {
		return nil, perr("readdirent", h.Name, syscall.ENOTDIR)
	}
	all := h.p.W.FS.list(h.Abs)
	all = all[min(h.listed, len(all)):]
	if n > 0 {
		if len(all) == 0 {
			return nil, io.EOF
		}
		all = all[:min(n, len(all))]
	}
	h.listed += len(all)
	return all, nil
}

func (f *FS) list(dir string) []*Info {
	var l []*Info
	for _, p := range f.Paths() {
		if p != "/" && path.Dir(p) == dir {
			l = append(l, info(path.Base(p), f.Nodes[p]))
		}
	}
	return l
}

// Stat describes a file.
func Stat(op, name string) (*Info, error) {
	p := cur()
	abs := p.Abs(name)
	if err := Point("stat", abs); err != nil {
		return nil, perr(op, name, err)
	}
	if abs == "/dev/null" {
		return &Info{name: "null"}, nil
	}
	f := p.W.FS
	if name == "" {
		return nil, perr(op, name, syscall.ENOENT)
	}
	if err := f.walk(abs); err != nil {
		return nil, perr(op, name, err)
	}
	n := f.Nodes[abs]
	if n == nil {
		return nil, perr(op, name, syscall.ENOENT)
	}
	if strings.HasSuffix(name, "/") && !n.Dir {
		return nil, perr(op, name, syscall.ENOTDIR)
	}
	return info(path.Base(abs), n), nil
}

// Remove deletes a file or an empty directory.
func Remove(name string) error {
	p := cur()
	abs := p.Abs(name)
	if err := Point("remove", abs); err != nil {
		return perr("remove", name, err)
	}
	f := p.W.FS
	if err := f.walk(abs); err != nil {
		return perr("remove", name, err)
	}
	n := f.Nodes[abs]
	if n == nil || name == "" {
		return perr("remove", name, syscall.ENOENT)
	}
	if n.Dir && len(f.list(abs)) > 0 {
		return perr("remove", name, syscall.ENOTEMPTY)
	}
	f.drop(p, abs)
	return nil
}

func (f *FS) drop(p *Proc, abs string) {
	n := f.Nodes[abs]
	f.mut(p, "remove", abs, n)
	delete(f.Nodes, abs)
	if n.links--; n.links == 0 {
		f.used -= len(n.Data)
	}
}

// RemoveAll deletes a tree.
func RemoveAll(name string) error {
	p := cur()
	abs := p.Abs(name)
	if err := Point("remove", abs); err != nil {
		return perr("unlinkat", name, err)
	}
	f := p.W.FS
	l := f.Paths()
	for i := len(l) - 1; i >= 0; i-- {
		if l[i] == abs || strings.HasPrefix(l[i], strings.TrimSuffix(abs, "/")+"/") {
			f.drop(p, l[i])
		}
	}
	return nil
}

// Rename moves a file.
func Rename(from, to string) error {
	p := cur()
	a, b := p.Abs(from), p.Abs(to)
	lerr := func(err error) error { return &LinkError{"rename", from, to, err} }
	if err := Point("rename", b); err != nil {
		return lerr(err)
	}
	f := p.W.FS
	if err := f.walk(a); err != nil {
		return lerr(err)
	}
	if err := f.walk(b); err != nil {
		return lerr(err)
	}
	n, t := f.Nodes[a], f.Nodes[b]
	switch {
	case n == nil:
		return lerr(syscall.ENOENT)
	case t == n:
		return nil
	case t != nil && t.Dir != n.Dir:
		if t.Dir {
			return lerr(syscall.EEXIST)
		}
		return lerr(syscall.ENOTDIR)
	case t != nil && t.Dir && len(f.list(b)) > 0:
		return lerr(syscall.ENOTEMPTY)
	}
	f.mut(p, "rename", a, n)
	if t != nil {
		f.mut(p, "rename", b, t)
		if t.links--; t.links == 0 {
			f.used -= len(t.Data)
		}
	} else {
		m := *n
		m.old, m.by = false, p.Cmd
		f.mut(p, "create", b, &m)
	}
	if n.Dir {
		for _, q := range f.Paths() {
			if strings.HasPrefix(q, a+"/") {
				f.Nodes[b+q[len(a):]] = f.Nodes[q]
				delete(f.Nodes, q)
			}
		}
	}
	delete(f.Nodes, a)
	f.Nodes[b] = n
	n.by, n.old = p.Cmd, false
	return nil
}

// LinkError is os.LinkError; the shim aliases the real one.
type LinkError struct {
	Op, Old, New string
	Err          error
}

func (e *LinkError) Error() string { return e.Op + " " + e.Old + " " + e.New + ": " + e.Err.Error() }

// Unwrap returns the cause.
func (e *LinkError) Unwrap() error { return e.Err }

// Link makes a hard link.
func Link(from, to string) error {
	p := cur()
	a, b := p.Abs(from), p.Abs(to)
	lerr := func(err error) error { return &LinkError{"link", from, to, err} }
	if err := Point("create", b); err != nil {
		return lerr(err)
	}
	f := p.W.FS
	if err := f.walk(b); err != nil {
		return lerr(err)
	}
	n := f.Nodes[a]
	if n == nil {
		return lerr(syscall.ENOENT)
	}
	if n.Dir {
		return lerr(syscall.EPERM)
	}
	if f.Nodes[b] != nil {
		return lerr(syscall.EEXIST)
	}
	m := *n
	m.old, m.by = false, p.Cmd
	f.mut(p, "create", b, &m)
	f.Nodes[b] = n
	n.links++
	return nil
}

// Mkdir makes a directory.
func Mkdir(name string, perm fs.FileMode) error {
	p := cur()
	abs := p.Abs(name)
	if err := Point("mkdir", abs); err != nil {
		return perr("mkdir", name, err)
	}
	f := p.W.FS
	if err := f.walk(abs); err != nil {
		return perr("mkdir", name, err)
	}
	if f.Nodes[abs] != nil {
		return perr("mkdir", name, syscall.EEXIST)
	}
	f.ino++
	n := &Node{Dir: true, Perm: perm &^ 0o022, ino: f.ino, links: 1, by: p.Cmd}
	f.Nodes[abs] = n
	f.mut(p, "mkdir", abs, n)
	return nil
}

// Chmod changes the permissions.
func Chmod(name string, m fs.FileMode) error {
	p := cur()
	abs := p.Abs(name)
	if err := Point("chmod", abs); err != nil {
		return perr("chmod", name, err)
	}
	n := p.W.FS.Nodes[abs]
	if n == nil {
		return perr("chmod", name, syscall.ENOENT)
	}
	n.Perm = m & 0o777
	p.W.FS.mut(p, "chmod", abs, n)
	return nil
}

// Chdir changes the working directory.
func Chdir(name string) error {
	i, err := Stat("chdir", name)
	if err != nil {
		return err
	}
	if !i.IsDir() {
		return perr("chdir", name, syscall.ENOTDIR)
	}
	p := cur()
	p.Cwd = p.Abs(name)
	return nil
}

// Discard marks a handle as an in-memory sink.
func (h *Handle) Discard() {}

// Proc returns the process of the handle.
func (h *Handle) Proc() *Proc { return h.p }

// StreamOf returns the stream of a standard handle.
func (h *Handle) StreamOf() *Stream { return h.stream }
