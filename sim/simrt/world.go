// Package simrt is the simulated world the compiler runs in: processes,
// goroutines, files, children and time, decided by one seed. The rewritten
// compiler reaches it through the packages below vsim/shim, which stand in for
// os, os/exec, sync and so on. One world exists at a time.
package simrt

import (
	"fmt"
	"reflect"
	"runtime"
	"runtime/debug"
	"strings"
	"syscall"
	"testing/synctest"
	"time"

	"vsim/rng"
)

// Program is a rewritten program: Init gives its package-level variables their
// initial values, Vars points at them so that every process has its own.
type Program struct {
	Main func()
	Init func()
	Vars []any
}

// Target is the program under test, set by the generated main package.
var Target Program

// Fault makes one operation fail.
type Fault struct {
	Who    string `json:"who"` // "blang" or "clang"
	Class  string `json:"class"`
	Nth    int    `json:"nth"`              // counted from 0 over the world
	Err    string `json:"err"`              // EIO, ENOSPC...
	Sticky bool   `json:"sticky,omitempty"` // and all later ones of the class
}

// Kill ends the process group of a command, or its clang alone, at an operation.
type Kill struct {
	Cmd   int  `json:"cmd"`
	Clang bool `json:"clang,omitempty"` // only the children
	At    int  `json:"at"`              // operation of the group (or of its children), from 0
}

// ClangPlan decides what the Nth run of clang does by itself.
type ClangPlan struct {
	Nth  int    `json:"nth"`
	Kind string `json:"kind"` // "exit1", "late1", "crash"
}

// Config decides everything a world does.
type Config struct {
	Sched  uint64      `json:"sched"`            // order of operations of concurrent processes
	Switch int         `json:"switch,omitempty"` // 1 in Switch operations may switch process
	Map    uint64      `json:"map,omitempty"`    // order of map iteration; 0: sorted
	Host   uint64      `json:"host,omitempty"`   // date, process numbers, user, host name, randomness; 0: the usual
	Chunk  uint64      `json:"chunk,omitempty"`  // lengths of reads; 0: as asked
	Source int         `json:"source,omitempty"` // what the sources look like: 1 named pipes, 2 files of a size not known in advance
	Faults []Fault     `json:"faults,omitempty"`
	Kills  []Kill      `json:"kills,omitempty"`
	Clang  []ClangPlan `json:"clang,omitempty"`
	Quota  int         `json:"quota,omitempty"` // bytes that still fit on the disk, plus 1; 0: no limit
	MaxOps int         `json:"-"`
}

// Fired counts a fault that happened.
type Fired struct {
	Who, Class, Path, Err string
	Op                    int
}

// Mut is a change of the file system.
type Mut struct {
	Cmd   int // index of the command
	Clang bool
	Op    string // create, truncate, write, remove, rename, mkdir, chmod
	Path  string
	Old   bool // the path existed before the first command
	By    int  // command that created the file, -1 if Old or none
}

// Invocation is a run of clang.
type Invocation struct {
	Cmd    int
	Args   []string
	Cwd    string
	Inputs map[string][]byte // what it read
	Proc   *Proc
}

// World is one simulated run.
type World struct {
	Cfg      Config
	FS       *FS
	Procs    []*Proc
	Muts     []Mut
	Fired    []Fired
	Clangs   []*Invocation
	Counts   map[string]int
	Ops      int
	Switches int
	Hash     uint64
	Hung     string
	Odd      []string // calls the simulation has no model of

	sched    *rng.R
	chunk    *rng.R
	maps     *rng.R
	pending  []*waiter
	running  int
	last     *Proc // of the last granted operation
	vars     *Proc // whose variables are loaded
	slept    time.Duration
	nextPid  int
	freed    int
	all      []*Proc
	clangRun int
	rand     *rng.R
}

// Proc is a simulated process.
type Proc struct {
	W       *World
	Pid     int
	Asked   map[string]bool // the environment variables it looked at
	Cmd     int             // index of the command it belongs to
	Child   bool
	Parent  *Proc
	Args    []string
	Env     []string
	Cwd     string
	Stdin   *Stream
	Stdout  *Stream
	Stderr  *Stream
	Exited  bool
	Status  syscall.WaitStatus
	Panic   string
	Killed  bool
	dead    bool
	threads int
	ops     int
	saved   []reflect.Value
	pidx    int
	marks   []int
}

// Stream is a standard stream of a process.
type Stream struct {
	Data  []byte
	Pos   int
	Label string
}

type waiter struct {
	p     *Proc
	class string
	path  string
	ready func() bool
	ch    chan struct{}
	kill  bool
}

// W is the world that runs, Cur the process that runs in it.
var (
	W   *World
	Cur *Proc
)

// NewWorld makes a world over a file system.
func NewWorld(cfg Config, fs *FS) *World {
	w := &World{Cfg: cfg, FS: fs, Counts: map[string]int{}, Hash: 14695981039346656037, nextPid: 100,
		sched: rng.New(rng.Mix(cfg.Sched, 1))}
	if w.Cfg.Switch < 1 {
		w.Cfg.Switch = 1
	}
	if w.Cfg.MaxOps == 0 {
		w.Cfg.MaxOps = 3000000
	}
	if cfg.Chunk != 0 {
		w.chunk = rng.New(cfg.Chunk)
	}
	if cfg.Map != 0 {
		w.maps = rng.New(cfg.Map)
	}
	if cfg.Host != 0 {
		w.nextPid = int(rng.Mix(cfg.Host, 1)%4000000) + 2
	}
	fs.w = w
	return w
}

// Epoch is when the world begins.
func (w *World) Epoch() time.Time {
	t := time.Date(2024, 6, 1, 12, 0, 0, 0, time.UTC)
	if h := w.Cfg.Host; h != 0 {
		t = t.Add(time.Duration(rng.Mix(h, 2)%(5*365*24*3600)) * time.Second).Add(time.Duration(rng.Mix(h, 3) % 1e9))
	}
	return t
}

// HostName is the name of the machine.
func HostName() string {
	if h := cur().W.Cfg.Host; h != 0 {
		return fmt.Sprintf("host%d", rng.Mix(h, 4)%1000)
	}
	return "sim"
}

// Uid is the user the process runs as.
func Uid() int {
	if h := cur().W.Cfg.Host; h != 0 {
		return int(rng.Mix(h, 5) % 3 * 1000)
	}
	return 1000
}

// Asked notes that the program under test looked at an environment variable.
func Asked(name string) {
	p := cur()
	if p.Asked == nil {
		p.Asked = map[string]bool{}
	}
	p.Asked[name] = true
}

// AddCommand adds a process that runs the program under test.
func (w *World) AddCommand(args, env []string, cwd string, stdin []byte) *Proc {
	p := w.newProc(nil, args, env, cwd)
	p.Cmd = len(w.Procs)
	p.Stdin.Data = stdin
	w.Procs = append(w.Procs, p)
	return p
}

func (w *World) newProc(parent *Proc, args, env []string, cwd string) *Proc {
	w.nextPid++
	p := &Proc{W: w, Pid: w.nextPid, Parent: parent, Args: args, Env: env, Cwd: cwd}
	p.Stdin, p.Stdout, p.Stderr = &Stream{Label: "stdin"}, &Stream{Label: "stdout"}, &Stream{Label: "stderr"}
	if parent != nil {
		p.Cmd, p.Child = parent.Cmd, true
	}
	w.all = append(w.all, p)
	return p
}

func (w *World) mix(s string, x int) {
	h := w.Hash
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	w.Hash = (h ^ uint64(x)) * 1099511628211
}

// thread runs f as a goroutine of the process; it starts when it is scheduled.
func (w *World) thread(p *Proc, f func()) {
	me := &waiter{p: p, class: "start", ch: make(chan struct{})}
	w.pending = append(w.pending, me)
	p.threads++
	go func() {
		<-me.ch
		defer func() {
			p.threads--
			w.running--
			if p.threads == 0 && !p.Exited {
				p.Exited = true // main is gone otherwise than by returning
			}
			if w.running == 0 {
				if n := w.pick(); n != nil {
					w.grant(n)
				}
			}
		}()
		if me.kill {
			return
		}
		f()
	}()
}

// protect runs f; a panic becomes the end of the process, like the runtime does it.
func protect(p *Proc, f func()) {
	defer func() {
		if r := recover(); r != nil {
			if p.dead {
				return
			}
			msg := fmt.Sprint(r)
			p.Panic = msg + "\n" + trimStack(debug.Stack())
			p.Stderr.Data = append(p.Stderr.Data, "panic: "+msg+"\n"...)
			p.exit(2 << 8)
		}
	}()
	f()
}

func trimStack(b []byte) string {
	lines := strings.Split(string(b), "\n")
	for i, l := range lines {
		if strings.HasPrefix(l, "panic(") {
			lines = lines[i:]
			break
		}
	}
	if len(lines) > 24 {
		lines = lines[:24]
	}
	return strings.Join(lines, "\n")
}

func (p *Proc) exit(st syscall.WaitStatus) {
	if p.Exited {
		return
	}
	p.Exited, p.dead, p.Status = true, true, st
}

// Exit ends the current process.
func Exit(code int) {
	p := cur()
	if !p.dead {
		p.exit(syscall.WaitStatus((code & 255) << 8))
	}
	runtime.Goexit()
}

// Go starts a goroutine of the current process.
func Go(f func()) {
	p := cur()
	if p.dead {
		return
	}
	p.W.thread(p, func() { protect(p, f) })
}

// boot is the process in which package-level variables get their values when
// the worker starts, before there is a world.
var boot *Proc

func cur() *Proc {
	if Cur != nil {
		return Cur
	}
	if boot == nil {
		w := NewWorld(Config{}, NewFS())
		w.FS.MkdirAll("/tmp")
		boot = w.newProc(nil, []string{"blang"}, nil, "/")
		boot.W = w
	}
	return boot
}

// Current is the process that runs.
func Current() *Proc { return cur() }

// Sleep waits.
func Sleep(d time.Duration) {
	end := time.Now().Add(d)
	Block("sleep", func() bool { return !time.Now().Before(end) })
}

// Zero clears a variable.
func Zero(p any) { reflect.ValueOf(p).Elem().SetZero() }

// pick chooses the next operation, nil if none can go on.
func (w *World) pick() *waiter {
	// processes that ended or were killed go first, one goroutine at a time
	for i, m := range w.pending {
		if m.p.dead {
			m.kill = true
			w.pending = append(w.pending[:i], w.pending[i+1:]...)
			return m
		}
	}
	var cand []int
	stay := -1
	for i, m := range w.pending {
		if m.ready == nil || m.ready() {
			if m.p == w.last {
				stay = len(cand)
			}
			cand = append(cand, i)
		}
	}
	if len(cand) == 0 {
		return nil
	}
	k := 0
	if len(cand) > 1 {
		if stay >= 0 && w.sched.N(w.Cfg.Switch) != 0 {
			k = stay
		} else {
			k = w.sched.N(len(cand))
		}
	}
	i := cand[k]
	m := w.pending[i]
	w.pending = append(w.pending[:i], w.pending[i+1:]...)
	if m.p != w.last {
		w.Switches++
		w.mix("switch", m.p.Cmd)
	}
	w.last = m.p
	w.Ops++
	w.mix(m.class, m.p.Cmd)
	w.mix(m.path, 0)
	top := w.Procs[m.p.Cmd]
	n, cn := top.ops, top.pidx
	top.ops++
	if m.class != "read" && m.class != "reread" {
		top.marks = append(top.marks, n)
	}
	if m.p.Child {
		top.pidx++
	}
	for _, k := range w.Cfg.Kills {
		if k.Cmd != m.p.Cmd {
			continue
		}
		if !k.Clang && k.At == n {
			w.killGroup(m.p.Cmd, true)
		} else if k.Clang && m.p.Child && k.At == cn {
			w.killGroup(m.p.Cmd, false)
		}
	}
	if w.Ops > w.Cfg.MaxOps && w.Hung == "" {
		w.Hung = fmt.Sprintf("no end after %d operations", w.Ops)
		for i := range w.Procs {
			w.killGroup(i, true)
		}
	}
	if m.p.dead {
		m.kill = true
	}
	return m
}

func (w *World) killGroup(cmd int, all bool) {
	for _, p := range w.group(cmd) {
		if (all || p.Child) && !p.Exited {
			p.Killed = true
			p.exit(syscall.WaitStatus(syscall.SIGKILL))
			if all {
				w.fired("", "kill", "", "SIGKILL")
			} else {
				w.fired("clang", "kill", "", "SIGKILL")
			}
		}
	}
}

func (w *World) fired(who, class, path, err string) {
	w.Fired = append(w.Fired, Fired{who, class, path, err, w.Ops})
	w.mix("fault "+class+err, 0)
}

func (w *World) group(cmd int) []*Proc {
	var l []*Proc
	for _, p := range w.all {
		if p.Cmd == cmd {
			l = append(l, p)
		}
	}
	return l
}

// grant lets the operation go on in the context of its process.
func (w *World) grant(m *waiter) {
	w.running++
	w.enter(m.p)
	close(m.ch)
}

func (w *World) enter(p *Proc) {
	Cur = p
	if p.Child || w.vars == p {
		return
	}
	if w.vars != nil {
		save(w.vars)
	}
	w.vars = p
	Switch(p)
	if p.saved == nil {
		if Target.Init != nil {
			Target.Init()
		}
		return
	}
	for i, v := range Target.Vars {
		reflect.ValueOf(v).Elem().Set(p.saved[i])
	}
}

// Switch is called when another process runs on; shims keep os.Args and the
// like in step.
var Switch = func(*Proc) {}

func save(p *Proc) {
	if p.saved == nil {
		p.saved = make([]reflect.Value, len(Target.Vars))
	}
	for i, v := range Target.Vars {
		e := reflect.ValueOf(v).Elem()
		c := reflect.New(e.Type()).Elem()
		c.Set(e)
		p.saved[i] = c
	}
}

// Sys is a scheduling point. ready tells when the operation can go on.
func Sys(class, path string, ready func() bool) *Proc {
	p := cur()
	w := p.W
	if p == boot {
		return p
	}
	if p.dead {
		runtime.Goexit()
	}
	m := &waiter{p: p, class: class, path: path, ready: ready}
	w.pending = append(w.pending, m)
	w.running--
	if w.running == 0 {
		n := w.pick()
		if n == m {
			w.running++
			Cur = p
			if m.kill {
				runtime.Goexit()
			}
			return p
		}
		m.ch = make(chan struct{})
		if n != nil {
			w.grant(n)
		}
	} else {
		m.ch = make(chan struct{})
	}
	<-m.ch
	if m.kill {
		runtime.Goexit()
	}
	return p
}

// Point is a scheduling point at which the plan may make the operation fail.
func Point(class, path string) error {
	p := Sys(class, path, nil)
	return p.W.inject(p, class, path)
}

func who(p *Proc) string {
	if p.Child {
		return "clang"
	}
	return "blang"
}

func (w *World) inject(p *Proc, class, path string) error {
	n := w.Counts[who(p)+" "+class]
	w.Counts[who(p)+" "+class] = n + 1
	for _, f := range w.Cfg.Faults {
		if f.Class == class && f.Who == who(p) && (f.Nth == n || f.Sticky && n > f.Nth) {
			w.fired(f.Who, class, path, f.Err)
			return Errno(f.Err)
		}
	}
	return nil
}

// Errno returns the error of that name.
func Errno(name string) syscall.Errno {
	switch name {
	case "ENOSPC":
		return syscall.ENOSPC
	case "EACCES":
		return syscall.EACCES
	case "EMFILE":
		return syscall.EMFILE
	case "EAGAIN":
		return syscall.EAGAIN
	case "ENOMEM":
		return syscall.ENOMEM
	case "EROFS":
		return syscall.EROFS
	case "EDQUOT":
		return syscall.EDQUOT
	case "EPERM":
		return syscall.EPERM
	case "ENOENT":
		return syscall.ENOENT
	}
	return syscall.EIO
}

// Block waits until the condition holds.
func Block(class string, ready func() bool) { Sys(class, "", ready) }

// Unmodelled reports a call the simulation has no model of; the run counts for nothing.
func Unmodelled(name string) {
	p := cur()
	p.W.Odd = append(p.W.Odd, name)
	p.exit(70 << 8)
	runtime.Goexit()
}

// Run runs the commands of the world until all have ended. It must be called
// inside a synctest bubble.
func (w *World) Run() {
	W, Cur = w, nil
	for _, p := range w.Procs {
		w.thread(p, func() {
			protect(p, Target.Main)
			p.exit(0)
		})
	}
	for {
		synctest.Wait()
		if m := w.pick(); m != nil {
			w.grant(m)
			continue
		}
		done := true
		for _, p := range w.Procs {
			if !p.Exited {
				done = false
			}
		}
		if done {
			break
		}
		// nothing can run: let timers fire
		if w.slept > time.Hour {
			if w.Hung == "" {
				w.Hung = "nothing can go on: " + w.blocked()
			}
			for i := range w.Procs {
				w.killGroup(i, true)
			}
			if len(w.pending) == 0 {
				break
			}
			continue
		}
		d := 10 * time.Millisecond
		if w.slept > 10*time.Second {
			d = time.Minute
		}
		w.slept += d
		time.Sleep(d)
	}
	if w.vars != nil {
		w.vars = nil
	}
	Cur, W = nil, nil
}

func (w *World) blocked() string {
	var l []string
	for _, m := range w.pending {
		l = append(l, fmt.Sprintf("%s(%s)", m.class, m.path))
	}
	if len(l) == 0 {
		return "goroutines wait for each other"
	}
	return strings.Join(l, ", ")
}

// Spawn starts a child of the current process.
func (w *World) Spawn(parent *Proc, args, env []string, cwd string, f func(*Proc) int) *Proc {
	p := w.newProc(parent, args, env, cwd)
	w.thread(p, func() {
		code := -1
		protect(p, func() { code = f(p) })
		if !p.dead {
			p.exit(syscall.WaitStatus((code & 255) << 8))
		}
	})
	return p
}

// MapRand is the source of map iteration order; nil: sorted.
func MapRand() *rng.R {
	if W == nil {
		return nil
	}
	return W.maps
}

// Random is the world's randomness for programs that ask the system for it.
func Random() uint64 {
	w := cur().W
	if w.rand == nil {
		w.rand = rng.New(rng.Mix(w.Cfg.Sched, w.Cfg.Map, w.Cfg.Host, 77))
	}
	return w.rand.U64()
}

// Slept is how much time passed while nothing could run.
func (w *World) Slept() time.Duration { return w.slept }

// CmdOps is the number of operations of a command and its children.
func (w *World) CmdOps(cmd int) int { return w.Procs[cmd].ops }

// ChildOps is the number of operations of the children of a command.
func (w *World) ChildOps(cmd int) int { return w.Procs[cmd].pidx }

// Marks are the operations of a command, in its own count, that are not reads.
func (w *World) Marks(cmd int) []int { return w.Procs[cmd].marks }
