package ps

import (
	"vsim/bl"
	"vsim/rng"
)

var general = bl.Profile{Funcs: 5, Globals: 5, Budget: 12, Depth: 3, IO: 3, Prints: 7, Goto: 4, Loops: 7, Calls: 5, Recursion: 25, Locals: 4, Fout: 2, Raw: 2, Exit: 1, ManyParams: 12, SwitchW: 5, Deep: 1, Idioms: 8}

func vary(r *rng.R, p bl.Profile) bl.Profile {
	// swarm: each program uses its own mixture
	f := func(x int) int {
		switch r.N(4) {
		case 0:
			return x / 3
		case 1:
			return x * 2
		}
		return x
	}
	p.Goto, p.Loops, p.SwitchW, p.Locals, p.Idioms = f(p.Goto), f(p.Loops), f(p.SwitchW), f(p.Locals), f(p.Idioms)
	p.Calls, p.Prints, p.Raw, p.IO, p.Fout = f(p.Calls), f(p.Prints), f(p.Raw), f(p.IO), f(p.Fout)
	p.Budget = f(p.Budget)
	p.Funcs = r.Range(0, p.Funcs+2)
	p.Globals = r.Range(0, p.Globals+2)
	p.Depth = r.Range(1, p.Depth+1)
	return p
}

func object(opt string, g bool) Route { return Route{Opt: opt, G: g, Forms: []string{"o"}, Link: "ld"} }

var opts = []string{"", "", "0", "1", "2", "3"}

// oneRoute: mostly the quick way, sometimes the whole driver.
func oneRoute(r *rng.R, _ int) []Route {
	rt := object("", false)
	if r.P(1, 4) {
		rt.Opt = opts[r.N(len(opts))]
	}
	if r.P(1, 10) {
		rt = Route{Opt: rt.Opt, Forms: []string{""}, Link: "blang", Late: r.P(1, 3)}
	}
	return []Route{rt}
}

var stages = []string{"", "ll", "s", "o", "ll.s", "ll.o", "s.o", "ll.s.o"}

func stageRoute(r *rng.R) Route {
	rt := Route{Opt: opts[r.N(len(opts))], G: r.P(1, 3), Forms: []string{stages[r.N(len(stages))]}, Link: "blang", Late: r.P(1, 4), Save: r.P(1, 8)}
	if f := rt.Forms[0]; f[max(0, len(f)-1):] == "o" && r.P(1, 2) {
		rt.Link = "ld"
	}
	return rt
}

func splitRoute(r *rng.R, files, mainFile int) Route {
	rt := Route{Opt: opts[r.N(len(opts))], Link: "blang", Late: r.P(1, 4), Multi: r.P(1, 3), Save: r.P(1, 8)}
	allO := r.P(1, 4)
	for i := 0; i < files; i++ {
		f := stages[r.N(len(stages))]
		if r.P(1, 3) {
			f = ""
		}
		if allO {
			f = "o"
		} else if i != mainFile && r.P(1, 6) {
			f = []string{"o.a", "ll.o.a", "s.o.a"}[r.N(3)]
		}
		rt.Forms = append(rt.Forms, f)
		rt.Order = append(rt.Order, i)
	}
	if allO && r.P(1, 2) {
		rt.Link = "ld"
	}
	r.Shuffle(files, func(i, j int) { rt.Order[i], rt.Order[j] = rt.Order[j], rt.Order[i] })
	return rt
}

func env(p EnvProfile) func(*rng.R) EnvProfile { return func(*rng.R) EnvProfile { return p } }

const ruleTail = " A run is one execution of one built program in one environment; it is counted as distinct and non-trivial when program text and environment have not occurred before, the reference took at least 20 steps and the history has at least two events."

// Specs of the program properties.
var Specs = map[string]*Spec{
	"C01": {
		ID: "C01", Kind: "model", Envs: 3, Routes: oneRoute,
		Prof: func(r *rng.R) bl.Profile { return vary(r, general) },
		Env:  env(EnvProfile{MaxIn: 120, Partial: 3, InFail: 1, OutFail: 1, ExtraFDs: true}),
		Rule: "Random well-defined B programs over the whole language, compiled by blang and run on the simulated kernel; the complete history (every read with its result, every byte delivered on each stream in order, exit status) must equal the reference interpreter's." + ruleTail,
	},
	"C02": {
		ID: "C02", Kind: "pair", Envs: 2,
		Prof: func(r *rng.R) bl.Profile { return vary(r, general) },
		Env:  env(EnvProfile{MaxIn: 80, Partial: 3, InFail: 1, OutFail: 1, ExtraFDs: true}),
		Routes: func(r *rng.R, _ int) []Route {
			l := []Route{object([]string{"", "0"}[r.N(2)], false)}
			l = append(l, object([]string{"1", "2", "3"}[r.N(3)], r.P(1, 3)))
			l = append(l, stageRoute(r))
			if r.P(1, 2) {
				l = append(l, stageRoute(r))
			}
			return l
		},
		Rule: "Each program is built several ways (optimisation levels, -g, and routes through --emit-llvm, -S, -c and back); all builds must produce identical histories in every environment, including junk-filled registers and stack." + ruleTail,
	},
	"C03": {
		ID: "C03", Kind: "pair", Envs: 2, Splits: true,
		Prof: func(r *rng.R) bl.Profile {
			p := vary(r, general)
			p.Funcs, p.Globals = r.Range(2, 7), r.Range(1, 7)
			p.Budget = min(p.Budget, 12)
			p.Fout = 4
			return p
		},
		Env: env(EnvProfile{MaxIn: 80, Partial: 2, InFail: 1, OutFail: 1}),
		Routes: func(r *rng.R, _ int) []Route {
			return []Route{object("", false), {}}
		},
		Rule: "The definitions of each program are dealt out to 2-4 files at random, each file taken through random stages (.b, .ll, .s, .o, in an archive), compiled together or separately and linked in random order; its history must equal that of the same program built from one file." + ruleTail,
	},
	"C04": {
		ID: "C04", Kind: "model", Envs: 8, Routes: oneRoute,
		Prof: func(r *rng.R) bl.Profile {
			p := general
			p.Funcs, p.Depth, p.Prints, p.Fout, p.Raw, p.IO, p.Goto = r.Range(0, 3), r.Range(1, 2), 25, r.Range(0, 8), r.N(4), r.N(2), 1
			p.Budget = r.Range(3, 12)
			return p
		},
		Env: func(r *rng.R) EnvProfile {
			return EnvProfile{MaxIn: 40, Partial: r.Range(3, 9), OutFail: r.Range(0, 8), InFail: 1}
		},
		Rule: "Programs that print a great deal through all printing functions and switch fout, against output streams that accept any number of bytes at a time and begin to fail at any offset; the bytes delivered on each stream, their order across streams and against reads, and the end of the program must equal the reference's." + ruleTail,
	},
	"C05": {
		ID: "C05", Kind: "model", Envs: 8, Routes: oneRoute,
		Prof: func(r *rng.R) bl.Profile {
			p := general
			p.Funcs, p.Depth, p.Prints, p.IO, p.Raw, p.Fout = r.Range(0, 3), r.Range(1, 2), 4, r.Range(10, 25), r.Range(2, 10), 0
			p.Budget = r.Range(3, 12)
			return p
		},
		Env: func(r *rng.R) EnvProfile {
			return EnvProfile{MaxIn: []int{12, 60, 300}[r.N(3)], Partial: r.Range(0, 6), OutFail: 0, InFail: r.Range(0, 9), ExtraFDs: true}
		},
		Rule: "Programs that mix read() and nread on descriptor 0 and others, against inputs of arbitrary bytes with short transfers, transient and permanent ends and errors at any offset; the sequence of read system calls, their counts and results, and everything the program prints about them must equal the reference's." + ruleTail,
	},
	"C06": {
		ID: "C06", Kind: "model", Envs: 8, Routes: oneRoute,
		Prof: func(r *rng.R) bl.Profile {
			p := general
			p.Funcs, p.Depth, p.Prints, p.IO, p.Raw, p.Fout = r.Range(0, 3), r.Range(1, 2), 4, r.N(3), 30, r.N(3)
			p.Budget, p.Globals = r.Range(3, 12), 8
			return p
		},
		Env: func(r *rng.R) EnvProfile {
			return EnvProfile{MaxIn: 80, Partial: r.Range(2, 9), OutFail: r.Range(0, 5), InFail: r.Range(0, 7), ExtraFDs: true}
		},
		Rule: "Programs that call nread and nwrite on many descriptors, buffers and counts (zero, partial buffers, bad descriptors, bad addresses) and dump buffers and results, against kernels that transfer fully, partly or fail; every attempt, its arguments, its result and the memory left behind must equal the reference's." + ruleTail,
	},
	"C07": {
		ID: "C07", Kind: "model", Envs: 6, Routes: oneRoute,
		Prof: func(r *rng.R) bl.Profile {
			p := vary(r, general)
			p.Exit, p.Returns, p.Depth, p.Fout = r.Range(2, 12), r.Range(2, 12), r.Range(1, 2), 1
			p.Budget = r.Range(2, 10)
			return p
		},
		Env: func(r *rng.R) EnvProfile {
			return EnvProfile{MaxIn: 60, Partial: 3, OutFail: r.Range(0, 9), InFail: r.Range(0, 9), ExtraFDs: r.P(1, 3)}
		},
		Rule: "Programs that end in many ways (exit() at any depth, return with and without value in loops, switches and dead code, falling off the end) under heavily failing input and output; the history up to and including the exit status must equal the reference's, and any crash, hang or foreign system call is a violation." + ruleTail,
	},
	"C08": {
		ID: "C08", Kind: "model", Envs: 2, Small: true,
		Routes: func(r *rng.R, _ int) []Route {
			rt := object("", false) // optimised code may hide a leak: mostly none
			if r.P(1, 6) {
				rt.Opt = []string{"1", "2"}[r.N(2)]
			}
			return []Route{rt}
		},
		Prof: func(r *rng.R) bl.Profile {
			p := general
			p.BigLoops, p.Funcs, p.Depth, p.Prints, p.IO, p.Raw = true, r.Range(0, 4), r.Range(1, 3), 3, 2, 1
			p.Loops, p.Goto, p.Locals, p.SwitchW, p.Calls = 25, r.Range(2, 10), r.Range(2, 9), r.Range(1, 8), r.Range(1, 8)
			p.Budget = r.Range(2, 5)
			return p
		},
		Env:    func(r *rng.R) EnvProfile { return EnvProfile{MaxIn: []int{60, 60, 20000}[r.N(3)], Partial: 1} },
		Rule:   "Programs whose loops (while in all shapes, goto loops, loops entered in the middle) run 8,000-30,000 times over declarations, vectors, strings, calls and switches, on a stack whose size depends only on the reference's call depth and live words (160 KB + 8 KB per active call + twice the words); running out of stack is a crash." + ruleTail,
		Assume: []string{"an activation of unoptimised code needs at most 8 KB besides its vectors (main: 100 KB)", "a leak of less than about 6 bytes per iteration escapes"},
	},
	"C09": {
		ID: "C09", Kind: "model", Envs: 3,
		Routes: func(r *rng.R, _ int) []Route {
			rt := oneRoute(r, 1)[0]
			if r.P(1, 3) {
				rt.Opt = []string{"1", "2", "3"}[r.N(3)]
			}
			return []Route{rt}
		},
		Prof: func(r *rng.R) bl.Profile {
			p := vary(r, general)
			p.Funcs, p.Calls, p.Recursion, p.ManyParams, p.Deep = r.Range(3, 8), 14, 55, r.Range(4, 24), r.Range(1, 6)
			p.Locals, p.Depth, p.IO, p.Raw = 7, r.Range(1, 2), 1, 0
			p.Budget = r.Range(2, 9)
			return p
		},
		Env:  env(EnvProfile{MaxIn: 40, Partial: 1}),
		Rule: "Programs with many functions of up to 24 parameters, extra and omitted arguments, self and mutual recursion (direct and through pointers, up to hundreds of levels) whose locals and vectors must survive inner calls, started with junk in all registers and 48 KB of stack; the history must equal the reference's." + ruleTail,
	},
}
