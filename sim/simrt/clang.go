package simrt

import (
	"bytes"
	"crypto/sha256"
	"encoding/hex"
	"fmt"
	"io"
	"io/fs"
	"path"
	"strings"
	"syscall"
)

// ClangPath is where clang is installed in the world.
const ClangPath = "/usr/bin/clang"

// ClangArgs is what a clang command line means.
type ClangArgs struct {
	Mode   string // "S", "c", "link", or another
	Opt    int
	Debug  bool
	Static bool
	Nostd  bool
	Items  []string // inputs and -l libraries in order
	Dirs   []string
	Out    string
	Extra  []string // anything else that matters
	Err    string
}

// ParseClang reads a command line.
func ParseClang(args []string) *ClangArgs {
	a := &ClangArgs{Mode: "link"}
	lang := ""
	for i := 0; i < len(args); i++ {
		s := args[i]
		val := func(n int) string {
			if len(s) > n {
				return s[n:]
			}
			if i+1 < len(args) {
				i++
				return args[i]
			}
			a.Err = "argument to '" + s + "' is missing"
			return ""
		}
		switch {
		case s == "-S", s == "-c":
			if a.Mode != "S" {
				a.Mode = s[1:]
			}
		case s == "-O":
			a.Opt = 1
		case strings.HasPrefix(s, "-O") && len(s) == 3 && s[2] >= '0' && s[2] <= '3':
			a.Opt = int(s[2] - '0')
		case s == "-g" || s == "-g2":
			a.Debug = true
		case s == "-g0":
			a.Debug = false
		case s == "-static" || s == "--static":
			a.Static = true
		case s == "-nostdlib" || s == "--no-standard-libraries":
			a.Nostd = true
		case strings.HasPrefix(s, "-o"):
			a.Out = val(2)
		case strings.HasPrefix(s, "-L"):
			a.Dirs = append(a.Dirs, val(2))
		case s == "-l" || strings.HasPrefix(s, "-l"):
			a.Items = append(a.Items, "-l"+val(2))
		case strings.HasPrefix(s, "--output="):
			a.Out = s[9:]
		case s == "-x":
			lang = val(2)
		case strings.HasPrefix(s, "-W") && !strings.HasPrefix(s, "-Wl,") && !strings.HasPrefix(s, "-Wa,"), s == "-w", s == "-v", s == "-pipe", s == "-Qunused-arguments", strings.HasPrefix(s, "-fcolor-diag"), strings.HasPrefix(s, "-fno-color-diag"):
		case s == "-":
			if lang == "" {
				a.Err = "-E or -x required when input is from standard input"
			}
			a.Items = append(a.Items, s)
		case strings.HasPrefix(s, "-"):
			a.Extra = append(a.Extra, s)
		default:
			a.Items = append(a.Items, s)
		}
	}
	return a
}

// Part is an input of clang.
type Part struct {
	Name string
	Data []byte
}

// ClangOutput is what the stub makes of its inputs; it depends on their
// contents and the options, not on names.
func ClangOutput(mode string, opt int, debug bool, parts []Part, extra []string) []byte {
	var b bytes.Buffer
	fmt.Fprintf(&b, "\x7fSTUB %s O%d g=%v %q\n", mode, opt, debug, extra)
	for _, p := range parts {
		h := sha256.Sum256(p.Data)
		fmt.Fprintf(&b, "part %s %d\n", hex.EncodeToString(h[:]), len(p.Data))
	}
	h := sha256.Sum256(b.Bytes())
	for i := 0; i < 6; i++ {
		fmt.Fprintf(&b, "%s\n", hex.EncodeToString(h[:]))
		h = sha256.Sum256(h[:])
	}
	b.WriteString("END\n")
	return b.Bytes()
}

// BadInput is contained in inputs clang rejects.
const BadInput = "#BAD#"

// clang is the stub of the tool: it reads its inputs and writes its output in
// place, in several steps, and cleans up when it fails, but not when it is killed.
func (w *World) clang(p *Proc, inv *Invocation, plan string, stdin io.Reader, stderr io.Writer) int {
	fail := func(f string, a ...any) int {
		if stderr != nil {
			fmt.Fprintf(stderr, "clang: error: "+f+"\n", a...)
		}
		return 1
	}
	args := inv.Args
	for i := 0; i < len(args); i++ {
		// a file with more arguments, if there is one of the name
		if name, at := strings.CutPrefix(args[i], "@"); at {
			if st, err := Stat("stat", name); err == nil && !st.IsDir() {
				data, err := readAll(name)
				if err != nil {
					return fail("%v", err)
				}
				args = append(append(args[:i:i], strings.Fields(string(data))...), args[i+1:]...)
			}
		}
	}
	a := ParseClang(args)
	if a.Err != "" {
		return fail("%s", a.Err)
	}
	if plan == "exit1" {
		return fail("unable to execute command")
	}
	var parts []Part
	inputs := 0
	for _, it := range a.Items {
		if lib, ok := strings.CutPrefix(it, "-l"); ok {
			if a.Mode != "link" {
				continue
			}
			found := false
			for _, d := range append(append([]string{}, a.Dirs...), "/lib", "/usr/lib") {
				name := path.Join(d, "lib"+lib+".a")
				if i, err := Stat("stat", name); err == nil && !i.IsDir() {
					data, err := readAll(name)
					if err != nil {
						return fail("%v", err)
					}
					parts = append(parts, Part{it, data})
					found = true
					break
				}
			}
			if !found {
				return fail("linker command failed: cannot find %s", it)
			}
			continue
		}
		inputs++
		var data []byte
		var err error
		if it == "-" && stdin != nil {
			data, err = io.ReadAll(stdin)
		} else {
			data, err = readAll(it)
		}
		if err != nil {
			return fail("no such file or directory: '%s' (%v)", it, err)
		}
		inv.Inputs[it] = data
		parts = append(parts, Part{it, data})
		if bytes.Contains(data, []byte(BadInput)) {
			return fail("%s: expected top-level entity", it)
		}
	}
	if inputs == 0 {
		return fail("no input files")
	}
	outs := []string{a.Out}
	if a.Mode != "link" && inputs > 1 {
		if a.Out != "" {
			return fail("cannot specify -o when generating multiple output files")
		}
		outs = nil
	}
	if a.Out == "" {
		outs = nil
		if a.Mode == "link" {
			outs = []string{"a.out"}
		} else {
			for _, it := range a.Items {
				if !strings.HasPrefix(it, "-l") {
					outs = append(outs, strings.TrimSuffix(path.Base(it), path.Ext(it))+map[string]string{"S": ".s", "c": ".o"}[a.Mode])
				}
			}
		}
	}
	for i, out := range outs {
		in := parts
		if len(outs) > 1 {
			in = parts[i : i+1]
		}
		var extra []string
		if a.Mode == "link" {
			extra = append(extra, fmt.Sprintf("static=%v nostdlib=%v", a.Static, a.Nostd))
		}
		extra = append(extra, a.Extra...)
		perm := fs.FileMode(0o666)
		if a.Mode == "link" {
			perm = 0o777
			unlink(out) // the linker replaces the file
		}
		data := ClangOutput(a.Mode, a.Opt, a.Debug, in, extra)
		if err := writeAll(out, data, perm, plan); err != nil {
			unlink(out)
			return fail("unable to write output file '%s': %v", out, err)
		}
	}
	if plan == "late1" {
		for _, out := range outs {
			unlink(out)
		}
		return fail("linker command failed with exit code 1")
	}
	return 0
}

func unlink(name string) {
	if n := cur().W.FS.Nodes[cur().Abs(name)]; n != nil && n.Dir {
		return
	}
	Remove(name)
}

func readAll(name string) ([]byte, error) {
	h, err := Open(name, syscall.O_RDONLY, 0)
	if err != nil {
		return nil, err
	}
	defer h.Close()
	var data []byte
	buf := make([]byte, 8192)
	for {
		n, err := h.Read(buf)
		data = append(data, buf[:n]...)
		if err == io.EOF {
			return data, nil
		}
		if err != nil {
			return nil, err
		}
	}
}

func writeAll(name string, data []byte, perm fs.FileMode, plan string) error {
	h, err := Open(name, syscall.O_WRONLY|syscall.O_CREAT|syscall.O_TRUNC, perm)
	if err != nil {
		return err
	}
	step := len(data)/4 + 1
	for i := 0; i < len(data); i += step {
		if plan == "crash" && i > 0 {
			p := cur()
			p.W.fired("clang", "crash", name, "SIGSEGV")
			p.exit(syscall.WaitStatus(syscall.SIGSEGV))
			Sys("dead", "", nil)
		}
		if _, err := h.Write(data[i:min(i+step, len(data))]); err != nil {
			h.Close()
			return err
		}
	}
	return h.Close()
}

// StartProcess starts a program of the world as a child of the current process.
func StartProcess(file string, argv, env []string, dir string, stdin io.Reader, stdout, stderr io.Writer) (*Proc, error) {
	p := cur()
	w := p.W
	cwd := p.Cwd
	if dir != "" {
		cwd = p.Abs(dir)
	}
	if err := Point("spawn", file); err != nil {
		return nil, perr("fork/exec", file, err)
	}
	n := w.FS.Nodes[p.Abs(file)]
	if n == nil {
		return nil, perr("fork/exec", file, syscall.ENOENT)
	}
	if n.Dir || n.Perm&0o111 == 0 {
		return nil, perr("fork/exec", file, syscall.EACCES)
	}
	if c := w.FS.Nodes[cwd]; c == nil || !c.Dir {
		return nil, perr("chdir", dir, syscall.ENOENT)
	}
	inv := &Invocation{Cmd: p.Cmd, Args: append([]string{}, argv[min(1, len(argv)):]...), Cwd: cwd, Inputs: map[string][]byte{}}
	isClang := p.Abs(file) == ClangPath
	plan := ""
	if isClang {
		for _, c := range w.Cfg.Clang {
			if c.Nth == w.clangRun {
				plan = c.Kind
				w.fired("clang", "plan", "", c.Kind)
			}
		}
		w.clangRun++
		w.Clangs = append(w.Clangs, inv)
	}
	inv.Proc = w.Spawn(p, argv, env, cwd, func(c *Proc) int {
		if !isClang {
			if stderr != nil {
				fmt.Fprintf(stderr, "%s: exec format error\n", file)
			}
			return 126
		}
		return w.clang(c, inv, plan, stdin, stderr)
	})
	return inv.Proc, nil
}

// Wait waits until the child has ended.
func Wait(child *Proc, also func() bool) {
	Sys("wait", "", func() bool { return child.Exited || also != nil && also() })
}

// KillProc kills a child.
func KillProc(child *Proc) {
	if !child.Exited {
		child.Killed = true
		child.exit(syscall.WaitStatus(syscall.SIGKILL))
	}
}
