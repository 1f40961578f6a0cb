// Package kern is the simulated kernel a compiled B program runs on: a
// deterministic function from (stream, offset, attempt) to transfer results.
// The reference interpreter and the real program each run on their own
// instance of the same environment.
package kern

import (
	"bytes"
	"fmt"
)

// Errno values used.
const (
	EIO    = 5
	EBADF  = 9
	EAGAIN = 11
	EFAULT = 14
	EINVAL = 22
	ENOSPC = 28
	EPIPE  = 32
)

// Huge is the largest count that is taken at its word. No buffer is longer, so
// of a larger count at most HugeMost bytes are transferred.
const (
	Huge     = 1 << 20
	HugeMost = 4
)

// Event is an anomaly at an offset of an input or output stream: the first
// Count attempts made there fail with Errno (0 means end-of-file).
type Event struct {
	Off   int `json:"off"`
	Count int `json:"count"`
	Errno int `json:"errno"`
}

// In describes an input stream.
type In struct {
	Data   []byte  `json:"data"`
	Cuts   []int   `json:"cuts,omitempty"`   // a transfer never crosses these offsets
	Period int     `json:"period,omitempty"` // nor multiples of Period
	Events []Event `json:"events,omitempty"` // transient ends and errors
	End    int     `json:"end"`              // errno for ever after the data; 0: EOF
}

// Out describes an output stream.
type Out struct {
	Cuts   []int   `json:"cuts,omitempty"`
	Period int     `json:"period,omitempty"`
	Events []Event `json:"events,omitempty"` // transient errors (nwrite-only streams)
	ErrOff int     `json:"err_off"`          // offset at which it fails for ever; -1 never
	Errno  int     `json:"errno,omitempty"`
}

// Env is one environment.
type Env struct {
	In    map[int]*In  `json:"in"`
	Out   map[int]*Out `json:"out"`
	Junk  uint64       `json:"junk"`  // seed of initial register and stack contents
	Pad   int          `json:"pad"`   // how far the initial stack pointer is moved down
	Stack int64        `json:"stack"` // stack limit in bytes
}

// Ev is one entry of the history.
type Ev struct {
	Op   byte // 'r', 'w', 'x'
	FD   int64
	N    int64
	Ret  int64
	Data []byte
}

func (e Ev) String() string {
	switch e.Op {
	case 'r':
		return fmt.Sprintf("read(%d,%d)=%d %q", e.FD, e.N, e.Ret, clip(e.Data))
	case 'w':
		if e.FD == 1 || e.FD == 2 {
			return fmt.Sprintf("out(%d) %q", e.FD, clip(e.Data))
		}
		return fmt.Sprintf("write(%d,%d)=%d %q", e.FD, e.N, e.Ret, clip(e.Data))
	}
	if e.Op == 's' {
		return "runs for ever"
	}
	return fmt.Sprintf("exit(%d)", e.Ret)
}

func clip(b []byte) []byte {
	if len(b) > 120 {
		return append(append([]byte{}, b[:60]...), b[len(b)-60:]...)
	}
	return b
}

// Stats counts what actually fired.
type Stats struct {
	Reads, Writes, ShortReads, ShortWrites  int
	EOFs, TransientEOF, ReadErr, WriteErr   int
	PermWriteErr, BadFD, Fault, Bytes, Zero int
	Huge                                    int
}

// Add accumulates.
func (s *Stats) Add(o Stats) {
	s.Reads += o.Reads
	s.Writes += o.Writes
	s.ShortReads += o.ShortReads
	s.ShortWrites += o.ShortWrites
	s.EOFs += o.EOFs
	s.TransientEOF += o.TransientEOF
	s.ReadErr += o.ReadErr
	s.WriteErr += o.WriteErr
	s.PermWriteErr += o.PermWriteErr
	s.BadFD += o.BadFD
	s.Fault += o.Fault
	s.Bytes += o.Bytes
	s.Zero += o.Zero
	s.Huge += o.Huge
}

// Kernel is a running instance of an environment.
type Kernel struct {
	Env    *Env
	inOff  map[int]int
	outOff map[int]int
	used   map[[3]int]int
	Hist   []Ev
	Bytes  int
	St     Stats
}

// New starts an instance.
func New(e *Env) *Kernel {
	return &Kernel{Env: e, inOff: map[int]int{}, outOff: map[int]int{}, used: map[[3]int]int{}}
}

func limit(off, n int, cuts []int, period int) int {
	m := n
	for _, c := range cuts {
		if c > off && c-off < m {
			m = c - off
		}
	}
	if period > 0 {
		if d := period - off%period; d < m {
			m = d
		}
	}
	return m
}

// Read performs read(fd, _, n). ok reports whether the destination of k bytes
// can be written; it is asked only when there is something to transfer.
func (k *Kernel) Read(fd int64, n int64, store func([]byte) bool) int64 {
	k.St.Reads++
	in := (*In)(nil)
	if fd >= 0 && fd < 1<<20 {
		in = k.Env.In[int(fd)]
	}
	ret, data := int64(0), []byte(nil)
	switch {
	case in == nil:
		ret = -EBADF
		k.St.BadFD++
	case n < 0:
		ret = -EINVAL
		k.St.Huge++
	case n == 0:
		k.St.Zero++
	default:
		off := k.inOff[int(fd)]
		m := int64(len(in.Data) - off)
		if n < m {
			m = n
		}
		if n > Huge {
			m = min(m, HugeMost)
			k.St.Huge++
		}
		fired := false
		for i, e := range in.Events {
			if e.Off == off {
				key := [3]int{0, int(fd), i}
				if k.used[key] < e.Count {
					k.used[key]++
					fired = true
					ret = -int64(e.Errno)
					if e.Errno == 0 {
						k.St.TransientEOF++
					} else {
						k.St.ReadErr++
					}
					break
				}
			} else if e.Off > off && int64(e.Off-off) < m {
				m = int64(e.Off - off)
			}
		}
		if fired {
			break
		}
		if off >= len(in.Data) {
			ret = -int64(in.End)
			if in.End == 0 {
				k.St.EOFs++
			} else {
				k.St.ReadErr++
			}
			break
		}
		want := m
		m = int64(limit(off, int(m), in.Cuts, in.Period))
		data = in.Data[off : off+int(m)]
		if !store(data) {
			ret = -EFAULT
			data = nil
			k.St.Fault++
			break
		}
		if m < want {
			k.St.ShortReads++
		}
		k.inOff[int(fd)] = off + int(m)
		ret = m
	}
	k.Hist = append(k.Hist, Ev{Op: 'r', FD: fd, N: n, Ret: ret, Data: append([]byte(nil), data...)})
	k.Bytes += 8 + len(data)
	return ret
}

// Write performs write(fd, data, n); load returns the bytes, or false when the
// source is not readable.
func (k *Kernel) Write(fd int64, n int64, load func(n int) ([]byte, bool)) int64 {
	k.St.Writes++
	out := (*Out)(nil)
	if fd >= 0 && fd < 1<<20 {
		out = k.Env.Out[int(fd)]
	}
	ret, data := int64(0), []byte(nil)
	switch {
	case out == nil:
		ret = -EBADF
		k.St.BadFD++
	case n < 0:
		ret = -EINVAL
		k.St.Huge++
	case n == 0:
		k.St.Zero++
	default:
		off := k.outOff[int(fd)]
		m := int64(1 << 24)
		if n < m {
			m = n
		}
		if n > Huge {
			m = HugeMost
			k.St.Huge++
		}
		fired := false
		for i, e := range out.Events {
			if e.Off == off {
				key := [3]int{1, int(fd), i}
				if k.used[key] < e.Count {
					k.used[key]++
					fired = true
					ret = -int64(e.Errno)
					k.St.WriteErr++
					break
				}
			} else if e.Off > off && int64(e.Off-off) < m {
				m = int64(e.Off - off)
			}
		}
		if fired {
			break
		}
		if out.ErrOff >= 0 {
			if off >= out.ErrOff {
				ret = -int64(out.Errno)
				k.St.PermWriteErr++
				break
			}
			if int64(out.ErrOff-off) < m {
				m = int64(out.ErrOff - off)
			}
		}
		m = int64(limit(off, int(m), out.Cuts, out.Period))
		b, ok := load(int(m))
		if !ok {
			ret = -EFAULT
			k.St.Fault++
			break
		}
		data = b
		if m < n {
			k.St.ShortWrites++
		}
		k.outOff[int(fd)] = off + int(m)
		ret = m
	}
	k.Bytes += len(data)
	if fd == 1 || fd == 2 {
		// Only what is delivered, and in which order, counts here.
		if len(data) == 0 {
			return ret
		}
		if l := len(k.Hist); l > 0 && k.Hist[l-1].Op == 'w' && k.Hist[l-1].FD == fd {
			k.Hist[l-1].Data = append(k.Hist[l-1].Data, data...)
			return ret
		}
		k.Hist = append(k.Hist, Ev{Op: 'w', FD: fd, Data: append([]byte(nil), data...)})
		return ret
	}
	k.Bytes += 8
	k.Hist = append(k.Hist, Ev{Op: 'w', FD: fd, N: n, Ret: ret, Data: append([]byte(nil), data...)})
	return ret
}

// Exit records the end.
func (k *Kernel) Exit(code int64) {
	k.Hist = append(k.Hist, Ev{Op: 'x', Ret: code & 0xff})
}

// Spin records that the program runs for ever and does nothing any more.
func (k *Kernel) Spin() {
	k.Hist = append(k.Hist, Ev{Op: 's'})
}

// Stream returns everything delivered to an output stream.
func Stream(h []Ev, fd int64) []byte {
	var b []byte
	for _, e := range h {
		if e.Op == 'w' && e.FD == fd {
			b = append(b, e.Data...)
		}
	}
	return b
}

// Diff returns "" when the histories are equal, or a description.
func Diff(want, got []Ev) string {
	for i := 0; i < len(want) || i < len(got); i++ {
		if i >= len(got) {
			return fmt.Sprintf("event %d: expected %s, got nothing", i, want[i])
		}
		if i >= len(want) {
			return fmt.Sprintf("event %d: expected nothing, got %s", i, got[i])
		}
		w, g := want[i], got[i]
		if w.Op != g.Op || w.FD != g.FD || w.N != g.N || w.Ret != g.Ret || !bytes.Equal(w.Data, g.Data) {
			s := ""
			if w.Op == 'w' && g.Op == 'w' {
				j := 0
				for j < len(w.Data) && j < len(g.Data) && w.Data[j] == g.Data[j] {
					j++
				}
				lo := j - 20
				if lo < 0 {
					lo = 0
				}
				s = fmt.Sprintf(" (first difference at byte %d: expected ...%q, got ...%q)", j, head(w.Data[lo:], 60), head(g.Data[lo:], 60))
			}
			return fmt.Sprintf("event %d: expected %s, got %s%s", i, w, g, s)
		}
	}
	return ""
}

func head(b []byte, n int) []byte {
	if len(b) > n {
		return b[:n]
	}
	return b
}
