// Package pt runs a real executable on the simulated kernel: every system call
// the program makes stops it (PTRACE_SYSEMU, so that the real kernel never
// performs it) and is answered by the model in package kern.
package pt

import (
	"fmt"
	"runtime"
	"syscall"
	"unsafe"

	"vsim/kern"
	"vsim/rng"
)

const (
	ptraceSysemu     = 31
	ptraceSetOptions = 0x4200
	optSysGood       = 1
	optExitKill      = 0x100000
	sysProcVMReadv   = 310
	sysProcVMWritev  = 311
	rlimitCPU        = 0
	rlimitStack      = 3
	rlimitCore       = 4
)

// End says how a run ended.
type End int

// Ways to end.
const (
	Exited End = iota
	Crashed
	Hung
	BadSyscall
	Flood
)

func (e End) String() string {
	return [...]string{"exited", "crashed", "hung", "foreign system call", "too much output"}[e]
}

// Result of a run.
type Result struct {
	End      End
	Detail   string
	Code     int
	Hist     []kern.Ev
	Syscalls int
	StackMax int64 // greatest stack depth seen at a system call
	St       kern.Stats
}

// Limits of a run.
type Limits struct {
	CPUSeconds int
	MaxEvents  int // history entries
	MaxBytes   int
	// Spin: the program is expected to run for ever once SpinAfter events have
	// happened. It is stopped, and the event recorded, when it has then used a
	// lot of processor time since its last system call.
	Spin      bool
	SpinAfter int
}

type iovec struct {
	base uintptr
	len  uint64
}

func vmRead(pid int, addr uint64, b []byte) bool {
	if len(b) == 0 {
		return true
	}
	l := iovec{uintptr(unsafe.Pointer(&b[0])), uint64(len(b))}
	r := iovec{uintptr(addr), uint64(len(b))}
	n, _, e := syscall.RawSyscall6(sysProcVMReadv, uintptr(pid), uintptr(unsafe.Pointer(&l)), 1, uintptr(unsafe.Pointer(&r)), 1, 0)
	runtime.KeepAlive(b)
	return e == 0 && int(n) == len(b)
}

func vmWrite(pid int, addr uint64, b []byte) bool {
	if len(b) == 0 {
		return true
	}
	l := iovec{uintptr(unsafe.Pointer(&b[0])), uint64(len(b))}
	r := iovec{uintptr(addr), uint64(len(b))}
	n, _, e := syscall.RawSyscall6(sysProcVMWritev, uintptr(pid), uintptr(unsafe.Pointer(&l)), 1, uintptr(unsafe.Pointer(&r)), 1, 0)
	runtime.KeepAlive(b)
	return e == 0 && int(n) == len(b)
}

func prlimit(pid, res int, cur, max uint64) {
	rl := [2]uint64{cur, max}
	syscall.RawSyscall6(syscall.SYS_PRLIMIT64, uintptr(pid), uintptr(res), uintptr(unsafe.Pointer(&rl)), 0, 0, 0)
}

// Prepare must be called once by the goroutine that will call Run; it pins it
// to a thread and switches address-space randomisation off for its children.
func Prepare() {
	runtime.LockOSThread()
	const addrNoRandomize = 0x0040000
	syscall.RawSyscall(syscall.SYS_PERSONALITY, addrNoRandomize, 0, 0)
}

// Run executes exe on a fresh kernel for env. An error is trouble with the
// machinery, never a verdict.
func Run(exe string, env *kern.Env, lim Limits) (*Result, error) {
	k := kern.New(env)
	res := &Result{}
	pid, err := syscall.ForkExec(exe, []string{"b"}, &syscall.ProcAttr{
		Env: []string{}, Files: []uintptr{},
		Sys: &syscall.SysProcAttr{Ptrace: true},
	})
	if err == syscall.ENOENT || err == syscall.EACCES || err == syscall.ENOEXEC {
		// a build that succeeded did not make a program
		res.End, res.Detail = Crashed, fmt.Sprintf("cannot be started: %v", err)
		return res, nil
	}
	if err != nil {
		return nil, fmt.Errorf("start %s: %v", exe, err)
	}
	reaped := false
	defer func() {
		if !reaped {
			syscall.Kill(pid, syscall.SIGKILL)
			var ws syscall.WaitStatus
			for {
				_, e := syscall.Wait4(pid, &ws, syscall.WALL, nil)
				if e == syscall.EINTR {
					continue
				}
				if e != nil || ws.Exited() || ws.Signaled() {
					break
				}
			}
		}
	}()
	var ws syscall.WaitStatus
	wait := func() error {
		for {
			_, e := syscall.Wait4(pid, &ws, syscall.WALL, nil)
			if e == syscall.EINTR {
				continue
			}
			return e
		}
	}
	if err := wait(); err != nil {
		return nil, fmt.Errorf("wait: %v", err)
	}
	if !ws.Stopped() {
		reaped = true
		if ws.Signaled() {
			res.End, res.Detail = Crashed, fmt.Sprintf("killed at its start: %v", ws.Signal())
			return res, nil
		}
		return nil, fmt.Errorf("program did not start: status %x", int(ws))
	}
	if _, _, e := syscall.RawSyscall6(syscall.SYS_PTRACE, ptraceSetOptions, uintptr(pid), 0, optSysGood|optExitKill, 0, 0); e != 0 {
		return nil, fmt.Errorf("ptrace options: %v", e)
	}
	if lim.CPUSeconds == 0 {
		lim.CPUSeconds = 20
	}
	prlimit(pid, rlimitCPU, uint64(lim.CPUSeconds), uint64(lim.CPUSeconds))
	prlimit(pid, rlimitCore, 0, 0)
	if env.Stack > 0 {
		prlimit(pid, rlimitStack, uint64(env.Stack), uint64(env.Stack))
	}

	var regs syscall.PtraceRegs
	if err := syscall.PtraceGetRegs(pid, &regs); err != nil {
		return nil, fmt.Errorf("getregs: %v", err)
	}
	// The initial state: junk in the registers and on the stack.
	jr := rng.New(env.Junk)
	sp := (regs.Rsp - uint64(env.Pad)) &^ 15
	if env.Junk != 0 {
		junk := make([]byte, 48<<10)
		for i := 0; i < len(junk); i += 8 {
			v := jr.U64()
			if jr.P(1, 4) {
				v = uint64(jr.N(300))
			}
			for j := 0; j < 8; j++ {
				junk[i+j] = byte(v >> (8 * j))
			}
		}
		if !vmWrite(pid, sp-uint64(len(junk)), junk) {
			return nil, fmt.Errorf("cannot fill the stack with junk")
		}
		regs.Rax, regs.Rbx, regs.Rcx, regs.Rdx = jr.U64(), jr.U64(), jr.U64(), jr.U64()
		regs.Rsi, regs.Rdi, regs.Rbp = jr.U64(), jr.U64(), jr.U64()
		regs.R8, regs.R9, regs.R10, regs.R11 = jr.U64(), jr.U64(), jr.U64(), jr.U64()
		regs.R12, regs.R13, regs.R14, regs.R15 = jr.U64(), jr.U64(), jr.U64(), jr.U64()
	}
	// argc = 0, argv and envp empty
	if !vmWrite(pid, sp, make([]byte, 32)) {
		return nil, fmt.Errorf("cannot write the initial stack")
	}
	regs.Rsp = sp
	if err := syscall.PtraceSetRegs(pid, &regs); err != nil {
		return nil, fmt.Errorf("setregs: %v", err)
	}

	var spin *watchdog
	finish := func(e End, detail string) (*Result, error) {
		res.End, res.Detail = e, detail
		res.Hist = k.Hist
		res.St = k.St
		return res, nil
	}
	sig := uintptr(0)
	if lim.Spin {
		w := watch(pid, lim.SpinAfter)
		defer w.stop()
		spin = w
	}
	for {
		if _, _, e := syscall.RawSyscall6(syscall.SYS_PTRACE, ptraceSysemu, uintptr(pid), 0, sig, 0, 0); e != 0 {
			return nil, fmt.Errorf("sysemu: %v", e)
		}
		sig = 0
		if spin != nil {
			spin.arm(len(k.Hist))
		}
		if err := wait(); err != nil {
			return nil, fmt.Errorf("wait: %v", err)
		}
		switch {
		case ws.Exited():
			reaped = true
			return nil, fmt.Errorf("program escaped the simulator (exit %d)", ws.ExitStatus())
		case ws.Signaled():
			reaped = true
			s := ws.Signal()
			if spin != nil && s == syscall.SIGKILL && spin.fired.Load() {
				k.Spin()
				return finish(Exited, "runs for ever")
			}
			if s == syscall.SIGXCPU || s == syscall.SIGKILL {
				return finish(Hung, fmt.Sprintf("no end after %d s of processor time", lim.CPUSeconds))
			}
			return finish(Crashed, s.String())
		case ws.Stopped() && ws.StopSignal() == syscall.SIGTRAP|0x80:
		case ws.Stopped():
			s := ws.StopSignal()
			if s == syscall.SIGXCPU {
				return finish(Hung, fmt.Sprintf("no end after %d s of processor time", lim.CPUSeconds))
			}
			if s == syscall.SIGSEGV || s == syscall.SIGBUS || s == syscall.SIGILL || s == syscall.SIGFPE || s == syscall.SIGTRAP || s == syscall.SIGABRT {
				d := s.String()
				if syscall.PtraceGetRegs(pid, &regs) == nil {
					res.depth(sp, regs.Rsp)
					d = fmt.Sprintf("%s (stack depth %d)", s, int64(sp-regs.Rsp))
				}
				return finish(Crashed, d)
			}
			sig = uintptr(s)
			continue
		}
		if err := syscall.PtraceGetRegs(pid, &regs); err != nil {
			return nil, fmt.Errorf("getregs: %v", err)
		}
		res.Syscalls++
		res.depth(sp, regs.Rsp)
		nr, a, b, c := int64(regs.Orig_rax), int64(regs.Rdi), regs.Rsi, int64(regs.Rdx)
		var ret int64
		switch nr {
		case 0:
			ret = k.Read(int64(int32(a)), c, func(d []byte) bool { return vmWrite(pid, b, d) })
		case 1:
			ret = k.Write(int64(int32(a)), c, func(n int) ([]byte, bool) {
				d := make([]byte, n)
				return d, vmRead(pid, b, d)
			})
		case 60, 231:
			k.Exit(a)
			res.Code = int(a & 0xff)
			return finish(Exited, "")
		default:
			return finish(BadSyscall, fmt.Sprintf("system call %d", nr))
		}
		if (lim.MaxEvents > 0 && len(k.Hist) > lim.MaxEvents) || (lim.MaxBytes > 0 && k.Bytes > lim.MaxBytes) || res.Syscalls > 1<<22 {
			return finish(Flood, fmt.Sprintf("%d events, %d bytes", len(k.Hist), k.Bytes))
		}
		regs.Rax = uint64(ret)
		if env.Junk != 0 {
			regs.Rcx, regs.R11 = jr.U64(), jr.U64() // destroyed by a system call
		} else {
			regs.Rcx, regs.R11 = 0, 0
		}
		if err := syscall.PtraceSetRegs(pid, &regs); err != nil {
			return nil, fmt.Errorf("setregs: %v", err)
		}
	}
}

func (r *Result) depth(top, sp uint64) {
	if d := int64(top - sp); d > r.StackMax && d < 1<<40 {
		r.StackMax = d
	}
}
