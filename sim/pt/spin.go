package pt

import (
	"sync"
	"sync/atomic"
	"syscall"
	"time"
	"unsafe"
)

// spinCPU is how much processor time without a system call counts as running
// for ever, in a program that is expected to do so.
const spinCPU = 150 * time.Millisecond

type watchdog struct {
	after int
	gen   atomic.Int64 // number of resumptions; bit 62 says armed
	fired atomic.Bool
	done  chan struct{}
	wg    sync.WaitGroup
}

const armed = 1 << 62

func cpu(pid int) (time.Duration, bool) {
	var ts syscall.Timespec
	clk := (^pid)<<3 | 2 // the processor-time clock of the process
	_, _, e := syscall.RawSyscall(syscall.SYS_CLOCK_GETTIME, uintptr(uint32(int32(clk))), uintptr(unsafe.Pointer(&ts)), 0)
	return time.Duration(ts.Nano()), e == 0
}

func watch(pid, after int) *watchdog {
	w := &watchdog{after: after, done: make(chan struct{})}
	w.wg.Add(1)
	go func() {
		defer w.wg.Done()
		last, at := int64(-1), time.Duration(0)
		for {
			select {
			case <-w.done:
				return
			case <-time.After(10 * time.Millisecond):
			}
			g := w.gen.Load()
			c, ok := cpu(pid)
			switch {
			case !ok || g&armed == 0:
				last = -1
			case g != last:
				last, at = g, c
			case c-at > spinCPU:
				// it has not been reaped: the loop that does so ends the
				// watch first, or sees this
				w.fired.Store(true)
				syscall.Kill(pid, syscall.SIGKILL)
				return
			}
		}
	}()
	return w
}

func (w *watchdog) arm(n int) {
	g := (w.gen.Load() &^ armed) + 1
	if n >= w.after {
		g |= armed
	}
	w.gen.Store(g)
}

func (w *watchdog) stop() {
	close(w.done)
	w.wg.Wait()
}
