package ps

import (
	"vsim/kern"
	"vsim/rng"
)

// EnvProfile tunes the environment generator.
type EnvProfile struct {
	MaxIn    int // bytes of standard input
	NoRead   bool
	Partial  int // of 10: how often transfers are partial
	OutFail  int // of 10: permanent failures of outputs
	InFail   int // of 10: transient ends and errors of inputs
	ExtraFDs bool
	Stack    int64
}

func genData(r *rng.R, max int) []byte {
	n := 0
	switch r.Pick(2, 3, 4, 2) {
	case 1:
		n = r.Range(0, 8)
	case 2:
		n = r.Range(1, max/4+1)
	case 3:
		n = r.Range(1, max)
	}
	b := make([]byte, n)
	kind := r.N(5)
	for i := range b {
		switch kind {
		case 0:
			b[i] = byte(r.U64())
		case 1:
			b[i] = byte(r.Range('a', 'z'))
		case 2:
			b[i] = []byte{0, 4, 10, 127, 128, 255, 'A', ' '}[r.N(8)]
		default:
			b[i] = byte(r.Range(32, 126))
			if r.P(1, 12) {
				b[i] = '\n'
			}
			if r.P(1, 25) {
				b[i] = byte(r.U64())
			}
		}
	}
	return b
}

func cuts(r *rng.R, partial, span int) (c []int, period int) {
	if r.N(10) >= partial {
		return nil, 0
	}
	switch r.N(3) {
	case 0:
		period = r.Range(1, 7)
	case 1:
		period = []int{1, 2, 3, 5, 8, 16}[r.N(6)]
		fallthrough
	default:
		for k := r.Range(1, 6); k > 0; k-- {
			c = append(c, r.N(span+1))
		}
	}
	return
}

func genIn(r *rng.R, p EnvProfile) *kern.In {
	in := &kern.In{Data: genData(r, p.MaxIn)}
	in.Cuts, in.Period = cuts(r, p.Partial, len(in.Data))
	if r.N(10) < p.InFail {
		for k := r.Range(1, 3); k > 0; k-- {
			e := kern.Event{Off: r.N(len(in.Data) + 1), Count: r.Range(1, 3)}
			if r.P(1, 2) {
				e.Errno = []int{kern.EIO, kern.EAGAIN, 21, 104}[r.N(4)]
			}
			in.Events = append(in.Events, e)
		}
	}
	if r.N(10) < p.InFail && r.P(1, 3) {
		in.End = []int{kern.EIO, kern.EAGAIN}[r.N(2)]
	}
	return in
}

func genOut(r *rng.R, p EnvProfile, span int, transient bool) *kern.Out {
	o := &kern.Out{ErrOff: -1}
	o.Cuts, o.Period = cuts(r, p.Partial, span)
	if r.N(10) < p.OutFail {
		o.ErrOff = r.N(span + 1)
		if r.P(1, 3) {
			o.ErrOff = r.N(6)
		}
		o.Errno = []int{kern.ENOSPC, kern.EPIPE, kern.EIO, kern.EBADF, kern.EAGAIN}[r.N(5)]
	}
	if transient && r.P(1, 2) {
		o.Events = append(o.Events, kern.Event{Off: r.N(20), Count: r.Range(1, 2), Errno: []int{kern.EAGAIN, kern.EIO, kern.ENOSPC, 4}[r.N(4)]})
	}
	return o
}

// GenEnv makes an environment; span is about how much the program prints.
func GenEnv(r *rng.R, p EnvProfile, span int) *kern.Env {
	e := &kern.Env{In: map[int]*kern.In{}, Out: map[int]*kern.Out{}, Junk: r.U64() | 1, Pad: r.N(3000) * 16, Stack: p.Stack}
	if e.Stack == 0 {
		e.Stack = 8 << 20
	}
	if r.P(1, 10) {
		e.Junk = 0
	}
	if !r.P(1, 12) && !p.NoRead {
		e.In[0] = genIn(r, p)
	}
	if !r.P(1, 25) {
		e.Out[1] = genOut(r, p, span, false)
	}
	if !r.P(1, 12) {
		e.Out[2] = genOut(r, p, span, false)
	}
	if p.ExtraFDs {
		for _, fd := range []int{3, 5, 7} {
			if r.P(2, 3) {
				e.In[fd] = genIn(r, p)
			}
		}
		for _, fd := range []int{4, 6, 8} {
			if r.P(2, 3) {
				e.Out[fd] = genOut(r, p, span, true)
			}
		}
		if r.P(1, 4) {
			// the standard descriptors are open both ways on a terminal
			e.Out[0] = genOut(r, p, span, true)
			e.In[1] = genIn(r, p)
		}
	}
	return e
}

// Plain is an environment without faults and with everything open.
func Plain(r *rng.R) *kern.Env {
	return &kern.Env{In: map[int]*kern.In{0: {Data: genData(r, 200)}}, Out: map[int]*kern.Out{1: {ErrOff: -1}, 2: {ErrOff: -1}}, Stack: 8 << 20}
}
