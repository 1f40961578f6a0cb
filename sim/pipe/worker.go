package pipe

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"syscall"
	"time"

	"vsim/rng"
)

// Message is what a worker tells its parent, one JSON object a line.
type Message struct {
	Kind     string    `json:"kind"` // "violation", "stats", "verdict"
	Index    int       `json:"index,omitempty"`
	Scenario *Scenario `json:"scenario,omitempty"`
	Verdict  *Verdict  `json:"verdict,omitempty"`
	Stats    *Stats    `json:"stats,omitempty"`
	Hashes   []uint64  `json:"hashes,omitempty"`
	Distinct []uint64  `json:"distinct,omitempty"`
}

// RunSeed is the seed of run number i.
func RunSeed(prop string, seed uint64, i int) uint64 {
	return rng.MixS(rng.Mix(seed, uint64(i)), prop)
}

// WorkerMain is the main program of a worker: it holds the rewritten compiler.
//
//	worker run PROPERTY SEED FROM STEP LIMIT SECONDS STATUSFILE
//	worker serve
//	worker gen|gen-blind PROPERTY SEED INDEX
func WorkerMain() {
	runtime.GOMAXPROCS(1)
	debug.SetMaxStack(1 << 30)
	debug.SetGCPercent(400)
	if len(os.Args) < 2 {
		os.Exit(3)
	}
	lim := syscall.Rlimit{Cur: 6 << 30, Max: 6 << 30}
	syscall.Setrlimit(syscall.RLIMIT_AS, &lim)
	args := os.Args[1:]
	os.Args = []string{os.Args[0]}
	out := bufio.NewWriterSize(os.Stdout, 1<<16)
	enc := json.NewEncoder(out)
	send := func(m *Message) {
		enc.Encode(m)
		out.Flush()
	}
	work := func() {
		if args[0] == "serve" {
			serve(send)
			return
		}
		if args[0] == "gen" || args[0] == "gen-blind" {
			var seed uint64
			fmt.Sscan(args[2], &seed)
			noProbe = args[0] == "gen-blind"
			send(&Message{Kind: "scenario", Scenario: Generate(args[1], RunSeed(args[1], seed, atoi(args[3])))})
			return
		}
		search(args[1:], send)
	}
	work()
	out.Flush()
}

func atoi(s string) int {
	var n int
	fmt.Sscan(s, &n)
	return n
}

func search(a []string, send func(*Message)) {
	prop := a[0]
	var seed uint64
	fmt.Sscan(a[1], &seed)
	from, step, limit := atoi(a[2]), atoi(a[3]), atoi(a[4])
	end := time.Now().Add(time.Duration(atoi(a[5])) * time.Second)
	f, err := os.OpenFile(a[6], os.O_RDWR|os.O_CREATE, 0o644)
	if err != nil {
		fmt.Fprintln(os.Stderr, "psim:", err)
		os.Exit(3)
	}
	distinct := map[uint64]bool{}
	var news []uint64
	last := time.Now()
	for i := from; i < limit && time.Now().Before(end); i += step {
		fmt.Fprintf(f, "%-40d\n", i)
		f.Seek(0, 0)
		s := Generate(prop, RunSeed(prop, seed, i))
		v := Evaluate(s)
		st.Evals++
		switch {
		case v.Invalid != "":
			st.Discarded++
			st.Notes[v.Invalid]++
		case v.Hits > 0:
			h := uint64(0)
			for _, w := range lastWorlds {
				h = rng.Mix(h, w.Hash)
			}
			h = rng.MixS(h, s.Cmds0())
			if prop == "C18" {
				h = rng.MixS(h, string(s.Files[0].Bytes()))
			}
			if !distinct[h] {
				distinct[h] = true
				news = append(news, h)
			}
		}
		if v.Class != "" {
			s.Class, s.Detail, s.Trace = v.Class, v.Detail, v.Trace
			send(&Message{Kind: "violation", Index: i, Scenario: s})
		} else if len(st.Samples) < 2 && v.Hits > 0 && i > from+5*step {
			st.Samples = append(st.Samples, sample(s))
		}
		if st.Evals%31 == 0 {
			again(s)
		}
		if time.Since(last) > 2*time.Second {
			last = time.Now()
			report(send, news)
			news = nil
		}
	}
	report(send, news)
}

// Cmds0 describes the commands.
func (s *Scenario) Cmds0() string {
	var l []string
	for i := range s.Cmds {
		l = append(l, s.Cmds[i].Line)
	}
	for i := range s.Variants {
		l = append(l, s.Variants[i].Cmds[0].Line)
	}
	return strings.Join(l, " & ")
}

func sample(s *Scenario) string {
	t := s.Cmds0()
	for _, f := range s.Cfg.Faults {
		t += fmt.Sprintf(" [%s %s #%d %s]", f.Who, f.Class, f.Nth, f.Err)
	}
	for _, k := range s.Cfg.Kills {
		t += fmt.Sprintf(" [kill command %d at %d]", k.Cmd, k.At)
	}
	for _, c := range s.Cfg.Clang {
		t += fmt.Sprintf(" [clang run %d: %s]", c.Nth, c.Kind)
	}
	if len(s.Rounds) > 0 {
		t += fmt.Sprintf(" [%d rounds]", len(s.Rounds))
	}
	if s.Property == "C18" {
		x := string(s.Files[0].Bytes())
		t = fmt.Sprintf("%q", x[:min(len(x), 120)])
	}
	return t
}

// again checks that a run is repeatable.
func again(s *Scenario) {
	if len(s.Cmds) == 0 {
		return
	}
	a := World(s.Cfg, s.FS(), s.Cmds...)
	b := World(s.Cfg, s.FS(), s.Cmds...)
	st.Notes["runs repeated"]++
	if a.Hash != b.Hash {
		st.Nondet++
	}
}

func report(send func(*Message), distinct []uint64) {
	var l []uint64
	for h := range st.Hashes {
		l = append(l, h)
	}
	sort.Slice(l, func(i, j int) bool { return l[i] < l[j] })
	send(&Message{Kind: "stats", Stats: st, Hashes: l, Distinct: distinct})
	st = newStats()
	st.Samples = []string{"", ""}
}

func serve(send func(*Message)) {
	sc := bufio.NewScanner(os.Stdin)
	sc.Buffer(nil, 1<<28)
	for sc.Scan() {
		s := new(Scenario)
		if err := json.Unmarshal(sc.Bytes(), s); err != nil {
			fmt.Fprintln(os.Stderr, "psim:", err)
			os.Exit(3)
		}
		send(&Message{Kind: "verdict", Verdict: Evaluate(s)})
	}
}
