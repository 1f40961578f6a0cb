package pipe

import (
	"fmt"
	"path"
	"strings"

	"vsim/bl"
	"vsim/rng"
	"vsim/simrt"
)

var tiny = bl.Profile{Funcs: 2, Globals: 3, Budget: 3, Depth: 2, IO: 2, Prints: 6, Goto: 3, Loops: 5, Calls: 4, Recursion: 15, Locals: 3, Fout: 2, Raw: 2, Exit: 1, ManyParams: 4, SwitchW: 4, NoRead: false}
var medium = bl.Profile{Funcs: 5, Globals: 5, Budget: 10, Depth: 3, IO: 3, Prints: 7, Goto: 4, Loops: 7, Calls: 5, Recursion: 25, Locals: 4, Fout: 2, Raw: 2, Exit: 1, ManyParams: 12, SwitchW: 5, Deep: 1}

func program(r *rng.R, p bl.Profile) string {
	prog := bl.Generate(r.Fork(), p)
	st := bl.Style{}
	if r.P(2, 3) {
		st = bl.Style{R: r.Fork(), Comments: r.P(1, 3), Parens: r.P(1, 2), Tight: r.P(1, 5)}
	}
	return bl.Text(prog.Tops, st)
}

var snippets = []string{
	"main() { printf(\"hello*n\"); }\n",
	"x 5;\nmain() { extrn x; auto y; y = x; printf(\"%d*n\", x + y); }\n",
	"v[3] 1, 2, 3;\nmain() { extrn v; auto i; i = 0; while (i < 3) { printf(\"%d*n\", v[i]); i =+ 1; } }\n",
	"f(a, b) return (a * b);\nmain() { printf(\"%d*n\", f(6, 7)); }\n",
	"s \"a string*e\";\nmain() { extrn s; write('ab'); putchar(s); }\n",
	"main() { auto c; while ((c = read()) != '*e') write(c); }\n",
	"main() { goto end; end: return(0); }\n",
	"sw(n) { switch (n) { case 1: return (10); case 2: return (20); } return (0); }\nmain() { printf(\"%d*n\", sw(2)); }\n",
	"a; b; c[2];\nf() { extrn a, b, c; c[1] = a + b; return (c[1]); }\nmain() { f(); }\n",
	"g 077; h -3; k 'x';\nmain() { extrn g, h, k; auto p[4], q; p[0] = &g; q = *p[0]; return (q ? h : k); }\n",
	"main(){auto a;a=1;if(a)printf(\"y*n\");else printf(\"n*n\");}",
	"f(); \n",
	"vec[10];\nmain() { extrn vec; vec[0] = \"x\"; putstr(vec[0]); } /* done */",
}

func source(r *rng.R) string {
	switch r.Pick(4, 5, 1) {
	case 0:
		s := snippets[r.N(len(snippets))]
		if strings.HasPrefix(s, "f();") {
			s = snippets[0]
		}
		if r.P(1, 3) {
			s = "/* " + fmt.Sprint(r.N(1000)) + " */\n" + s
		}
		return s
	case 1:
		return program(r, tiny)
	}
	return program(r, medium)
}

func defective(r *rng.R) string {
	s := source(r)
	switch r.N(14) {
	default:
		return breakIt(r, s)
	case 0:
		return s + "\n)("
	case 1:
		return s + "\nbroken( { "
	case 2:
		return s + "\nbroken() { return (undeclared.name); }\n"
	case 3:
		return s + "\nbroken() { auto x x; }\n"
	case 4:
		return "}\n" + s
	case 5:
		return s + "\nbroken() { x = ; }\n"
	case 6:
		return s + "\nbroken() { printf(\"never closed"
	}
}

func junk(r *rng.R, n int) []byte {
	b := make([]byte, r.Range(1, n))
	for i := range b {
		b[i] = byte(r.Range(32, 126))
	}
	return b
}

func libData(name string) []byte { return []byte("!<arch>\nlibrary " + name + "\n") }

var stems = []string{"a", "b", "hello", "prog", "main", "x.y", "foo-1", "lib", "Z", "long_name_of_a_source", "t1", "t2", "b.b", "ü", "with space", "tmp", "a.tmp", "data", "1", "-x", "-", "@a"}

type builder struct {
	r     *rng.R
	s     *Scenario
	cwd   string
	home  string
	used  map[string]bool // stems
	paths map[string]bool
}

func newBuilder(prop string, seed uint64) *builder {
	r := rng.New(seed)
	b := &builder{r: r, s: &Scenario{Property: prop, Seed: seed, Valid: true}, used: map[string]bool{}, paths: map[string]bool{}}
	b.cwd = []string{"/simfs/w", "/simfs/w/d", "/simfs/proj dir"}[r.Pick(5, 2, 1)]
	b.home = []string{"/simfs/home", "/root", ""}[r.Pick(4, 2, 1)]
	return b
}

func (b *builder) file(p string, data []byte) {
	if b.paths[p] {
		return
	}
	b.paths[p] = true
	b.s.Files = append(b.s.Files, mkFile(p, data))
}

func (b *builder) dir(p string) {
	if b.paths[p] {
		return
	}
	b.paths[p] = true
	b.s.Files = append(b.s.Files, File{Path: p, Dir: true})
}

// world adds clang, the runtime library and the default directories.
func (b *builder) world() {
	r := b.r
	b.s.Files = append(b.s.Files, File{Path: simrt.ClangPath, Text: "clang", Perm: 0o755})
	b.dir("/usr/lib")
	dirs := []string{"/usr/lib"}
	for _, d := range []string{"/opt/homebrew/lib", "/opt/local/lib", "/usr/local/lib"} {
		switch r.N(3) {
		case 0:
			b.dir(d)
			dirs = append(dirs, d)
		case 1:
			if r.P(1, 4) {
				b.file(d, []byte("not a directory"))
			}
		}
	}
	if b.home != "" && r.P(1, 2) {
		b.dir(b.home + "/.local/lib")
		dirs = append(dirs, b.home+"/.local/lib")
	}
	b.file(dirs[r.N(len(dirs))]+"/libb.a", libData("b"))
	if r.P(1, 3) {
		b.file(dirs[r.N(len(dirs))]+"/libb.a", libData("b"))
	}
}

func (b *builder) env() []string {
	r := b.r
	e := []string{"PATH=" + []string{"/usr/bin", "/usr/local/bin:/usr/bin:/bin", "/nonexistent:/usr/bin"}[r.N(3)]}
	if b.home != "" {
		e = append(e, "HOME="+b.home)
	}
	for _, x := range []string{"LANG=C.UTF-8", "NO_COLOR=1", "TERM=xterm", "TMPDIR=/tmp", "USER=sim", "LC_ALL=C", "CC=gcc"} {
		if r.P(1, 4) {
			e = append(e, x)
		}
	}
	return e
}

// longName leaves room for the suffixes of intermediate files.
func longName(r *rng.R) string {
	return strings.Repeat(string(rune('a'+r.N(26))), []int{30, 31, 60, 63, 100, 127, 128, 200, 210}[r.N(9)])
}

func (b *builder) stem() string {
	for i := 0; ; i++ {
		s := stems[b.r.N(len(stems))]
		if i > 20 {
			s = fmt.Sprintf("s%d", i)
		}
		if b.r.P(1, 20) {
			s = longName(b.r) + s
		}
		if !b.used[s] {
			b.used[s] = true
			return s
		}
	}
}

// place picks a directory for an input and spells the path.
func (b *builder) place(name string) (abs, given string) {
	r := b.r
	switch r.Pick(6, 3, 2, 2) {
	case 1:
		return b.cwd + "/src/" + name, "src/" + name
	case 2:
		return "/simfs/other/" + name, "/simfs/other/" + name
	case 3:
		return path.Join(path.Dir(b.cwd), name), "../" + name
	}
	if r.P(1, 4) || name[0] == '-' {
		return b.cwd + "/" + name, "./" + name
	}
	return b.cwd + "/" + name, name
}

// input adds an input with the extension and returns how it is named.
func (b *builder) input(ext string, data []byte) string {
	for {
		abs, given := b.place(b.stem() + ext)
		if !b.paths[abs] {
			b.file(abs, data)
			return given
		}
	}
}

func (b *builder) libs(c *Cmd) {
	r := b.r
	nd, nl := r.Pick(4, 3, 2, 1), r.Pick(4, 3, 2)
	if r.P(1, 24) {
		nd, nl = r.Range(4, 40), r.Range(4, 40)
	}
	for k := nd; k > 0; k-- {
		d := []string{"libs", "/simfs/libs", "l2", "../libs", "deep/er/libs", "nowhere", "l,1", "l\"2"}[r.N(8)]
		c.Dirs = append(c.Dirs, d)
		if d != "nowhere" {
			b.dir(path.Clean(strings.ReplaceAll("/"+strings.TrimPrefix(c.abs(d), "/"), "//", "/")))
		}
	}
	for k := nl; k > 0; k-- {
		l := []string{"m", "foo", "bar", "x-1", "b2", "p,q"}[r.N(6)]
		c.Libs = append(c.Libs, l)
		where := "/usr/lib"
		if len(c.Dirs) > 0 && r.P(1, 2) && c.Dirs[0] != "nowhere" {
			where = c.abs(c.Dirs[0])
		}
		b.file(where+"/lib"+l+".a", libData(l))
	}
}

// command makes a command line with its inputs. modes "" means any.
func (b *builder) command(modes []string, maxIn int, onlyB bool) Cmd {
	r := b.r
	c := Cmd{Cwd: b.cwd, Env: b.env()}
	c.Mode = modes[r.N(len(modes))]
	if r.P(3, 4) {
		c.Style = r.U64() | 1
	}
	n := 1
	if maxIn > 1 && r.P(1, 2) {
		n = r.Range(1, maxIn)
	}
	many := maxIn > 1 && r.P(1, 24)
	if many {
		n = []int{9, 10, 11, 12, 17, 33, 65, 101}[r.N(8)]
	}
	exts := map[string][]string{"ll": {".b"}, "s": {".b", ".b", ".b", ".ll"}, "o": {".b", ".b", ".b", ".ll", ".s"}, "exe": {".b", ".b", ".b", ".ll", ".s", ".o", ".a"}}[c.Mode]
	for i := 0; i < n; i++ {
		e := exts[r.N(len(exts))]
		if onlyB {
			e = ".b"
		}
		data := []byte(source(r))
		if many && r.P(7, 8) {
			data = []byte(fmt.Sprintf("f%d() { return(%d); }\n", i, r.N(100)))
		}
		if e != ".b" {
			data = junk(r, 400)
		}
		c.Inputs = append(c.Inputs, b.input(e, data))
	}
	if len(c.Inputs) == 1 && r.P(1, 2) || c.Mode == "exe" && r.P(1, 2) {
		c.Out = []string{"out", "build/out", "/simfs/o/result", "out.x", "./out", "prog.exe", "o u t", "../up", "-o1", "@o1"}[r.N(10)]
		if c.Mode != "exe" && r.P(2, 3) {
			c.Out += ext[c.Mode]
		}
		if r.P(1, 20) {
			c.Out = path.Dir(c.Out) + "/" + longName(r) + path.Ext(c.Out)
		}
		for b.paths[c.abs(c.Out)] {
			c.Out += "x"
		}
		b.dir(path.Dir(c.abs(c.Out)))
	}
	if c.Mode == "exe" {
		b.libs(&c)
	}
	c.Opt = []int{0, 0, 1, 2, 3}[r.N(5)]
	c.Debug = r.P(1, 4)
	c.Save = r.P(1, 4)
	c.Verbose = r.P(1, 5)
	return c
}

// clash tells whether a command's own files are among what exists.
func (b *builder) clash(c *Cmd) bool {
	own := c.own()
	if len(own) == 0 {
		return true
	}
	for p := range own {
		if b.paths[p] || p == "/" || p == c.Cwd {
			return true
		}
	}
	seen := map[string]bool{}
	for _, o := range c.Outputs() {
		if seen[o.Path] {
			return true
		}
		seen[o.Path] = true
	}
	return false
}

// before puts content where outputs will be, and other files next to them.
func (b *builder) before(c *Cmd) {
	r := b.r
	own := c.own()
	for _, o := range c.Outputs() {
		if r.P(1, 2) {
			n := len(b.s.Files)
			b.file(o.Path, append([]byte("previous "), junk(r, 600)...))
			if len(b.s.Files) > n && r.P(1, 2) {
				// newer than the sources
				b.s.Files[n].Time = r.Range(1, 100)
			}
		}
	}
	if r.P(1, 2) {
		return
	}
	var bases []string
	for _, o := range c.Outputs() {
		bases = append(bases, o.Path, strings.TrimSuffix(o.Path, path.Ext(o.Path)))
	}
	for _, in := range c.Inputs {
		bases = append(bases, c.abs(in), strings.TrimSuffix(c.abs(in), path.Ext(in)), c.Cwd+"/"+stem(in))
	}
	for k := r.Range(1, 8); k > 0; k-- {
		p := bases[r.N(len(bases))] + []string{".ll", ".s", ".o", ".a", ".tmp", ".tmp.ll", ".tmp.0.ll", ".bak", "~", ".new", ".out", ".bc", ".i", ".d", ".lock", ".old", ".part", ".tmp.s", ".tmp.o", ".tmp.1.ll", ".0.ll", "", ".b"}[r.N(23)]
		if r.P(1, 5) {
			p = c.Cwd + "/" + []string{"a.out", "core", "tmp.ll", "temp.ll", "blang.log", ".blang", "out.ll", "Makefile", "a.tmp.ll", "output", "blang.tmp.ll", "tmp"}[r.N(12)]
		}
		if own[p] || b.paths[p] || b.isDir(p) {
			continue
		}
		b.file(p, append([]byte("bystander "), junk(r, 200)...))
	}
}

func (b *builder) isDir(p string) bool {
	for q := range b.paths {
		if strings.HasPrefix(q, p+"/") {
			return true
		}
	}
	return strings.HasPrefix(b.cwd+"/", p+"/")
}

// spoil makes the scenario invalid in some way.
func (b *builder) spoil(c *Cmd) {
	r := b.r
	b.s.Valid = false
	i := r.N(len(c.Inputs))
	in := c.Inputs[i]
	abs := c.abs(in)
	f := -1
	for k := range b.s.Files {
		if b.s.Files[k].Path == abs {
			f = k
		}
	}
	switch r.Pick(6, 1, 1, 1, 1, 1, 1) {
	case 0:
		if strings.HasSuffix(in, ".b") {
			b.s.Files[f] = mkFile(abs, []byte(defective(r)))
			b.s.Files[f].Defect = digest(b.s.Files[f].Bytes())
		} else {
			b.s.Files[f] = mkFile(abs, []byte("garbage "+simrt.BadInput+" more"))
		}
	case 1:
		b.s.Files = append(b.s.Files[:f], b.s.Files[f+1:]...)
		delete(b.paths, abs)
	case 2:
		b.s.Files[f] = File{Path: abs, Dir: true}
	case 3:
		b.s.Files[f].Perm = 0o200
	case 4: // the output cannot be made
		if len(c.Outputs()) == 0 {
			return
		}
		b.dir(c.Outputs()[r.N(len(c.Outputs()))].Path)
	case 5:
		if len(c.Inputs) == 1 || c.Mode == "exe" {
			c.Out = "missing/dir/out"
		}
	case 6: // no clang
		b.s.Files[0].Perm = 0o644
	}
	b.s.Bad = append(b.s.Bad, in)
}

// misuse makes the command ask for what the compiler cannot do.
func (b *builder) misuse(c *Cmd) {
	r := b.r
	b.s.Valid = false
	switch r.N(4) {
	case 0: // one name for several outputs
		if c.Mode == "exe" {
			c.Mode = []string{"ll", "s", "o"}[r.N(3)]
			c.Dirs, c.Libs = nil, nil
		}
		for i, n := 0, r.Range(1, 2); i < n || len(c.Inputs) < 2; i++ {
			c.Inputs = append(c.Inputs, b.input(".b", []byte(source(r))))
		}
		if c.Out == "" {
			c.Out = "all" + ext[c.Mode]
			for b.paths[c.abs(c.Out)] {
				c.Out += "x"
			}
		}
	case 1: // a kind of file this mode does not take
		l := []string{".c", ".txt", ".B", "", ".b.bak", ".so"}
		switch c.Mode {
		case "ll":
			l = append(l, ".ll", ".s", ".o", ".a")
		case "s":
			l = append(l, ".s", ".o", ".a")
		case "o":
			l = append(l, ".o", ".a")
		}
		in := b.input(l[r.N(len(l))], []byte(source(r)))
		k := r.N(len(c.Inputs) + 1)
		c.Inputs = append(c.Inputs[:k], append([]string{in}, c.Inputs[k:]...)...)
		if c.Mode != "exe" && r.P(1, 2) {
			c.Inputs = []string{in}
		}
	case 2:
		c.Opt, c.BadOpt = 0, []string{"4", "9", "s", "z", "fast", "-1", "1x", "11"}[r.N(8)]
	case 3:
		c.Inputs = nil
	}
}

var errsFor = map[string][]string{
	"open": {"EACCES", "EMFILE", "EIO", "ENOENT"}, "create": {"EACCES", "ENOSPC", "EROFS", "EMFILE", "EDQUOT"},
	"read": {"EIO", "EAGAIN", "ENOMEM"}, "write": {"ENOSPC", "EIO", "EDQUOT"}, "close": {"EIO", "ENOSPC", "EDQUOT"},
	"rclose": {"EIO"}, "stat": {"EACCES", "EIO", "ENOMEM"}, "remove": {"EACCES", "EPERM", "EROFS", "EIO"},
	"rename": {"EACCES", "EROFS", "EIO", "ENOSPC"}, "mkdir": {"EACCES", "EROFS", "ENOSPC"}, "readdir": {"EIO"},
	"chmod": {"EPERM", "EROFS"}, "sync": {"EIO", "ENOSPC"}, "spawn": {"EAGAIN", "ENOMEM", "EACCES", "EMFILE"},
	"stdout": {"EIO", "ENOSPC"}, "stderr": {"EIO", "ENOSPC"},
}

var classWeight = map[string]int{"open": 4, "create": 6, "read": 5, "write": 9, "close": 8, "rclose": 1, "stat": 4, "remove": 5, "rename": 6, "mkdir": 4, "readdir": 3, "chmod": 3, "sync": 4, "spawn": 4, "stdout": 1, "stderr": 2}

var classes = []string{"open", "create", "read", "write", "close", "rclose", "stat", "remove", "rename", "mkdir", "readdir", "chmod", "sync", "spawn", "stdout", "stderr"}

// faults plans up to three faults for a run that does what the probe did.
func faults(r *rng.R, probe *simrt.World, files *simrt.FS, cfg *simrt.Config) {
	type opt struct {
		who, class string
		n, w       int
	}
	var opts []opt
	for _, who := range []string{"blang", "clang"} {
		for _, c := range classes {
			if n := probe.Counts[who+" "+c]; n > 0 {
				w := classWeight[c]
				if who == "clang" {
					w = (w + 2) / 3
				}
				opts = append(opts, opt{who, c, n, w})
			}
		}
	}
	k := r.Pick(2, 6, 3, 1)
	var ws []int
	for _, o := range opts {
		ws = append(ws, o.w)
	}
	for ; k > 0 && len(opts) > 0; k-- {
		o := opts[r.Pick(ws...)]
		n := r.N(o.n)
		if r.P(1, 4) {
			n = o.n - 1
		} else if r.P(1, 8) {
			n = r.N(o.n + 2) // clean-up does more
		}
		e := errsFor[o.class]
		cfg.Faults = append(cfg.Faults, simrt.Fault{Who: o.who, Class: o.class, Nth: n, Err: e[r.N(len(e))], Sticky: r.P(1, 4)})
	}
	if r.P(1, 6) {
		total := 0
		for _, m := range probe.Muts {
			if m.Op == "create" {
				total += 10
			}
		}
		after := 0
		for _, n := range probe.FS.Nodes {
			after += len(n.Data)
		}
		for _, n := range files.Nodes {
			after -= len(n.Data)
		}
		cfg.Quota = 1 + r.N(max(after, 0)*2+total+50)
	}
	if len(probe.Clangs) > 0 {
		if r.P(1, 4) {
			cfg.Clang = append(cfg.Clang, simrt.ClangPlan{Nth: r.N(len(probe.Clangs)), Kind: []string{"exit1", "late1", "crash", "crash"}[r.N(4)]})
		}
		if r.P(1, 6) {
			cfg.Kills = append(cfg.Kills, simrt.Kill{Cmd: 0, Clang: true, At: r.N(probe.ChildOps(0) + 1)})
		}
	}
}

func schedule(r *rng.R) simrt.Config {
	c := simrt.Config{Sched: r.U64(), Switch: []int{1, 1, 2, 4, 16, 64}[r.N(6)]}
	if r.P(1, 2) {
		c.Map = r.U64() | 1
	}
	if r.P(1, 3) {
		c.Chunk = r.U64() | 1
	}
	if r.P(1, 3) {
		c.Host = r.U64() | 1
	}
	return c
}

var allModes = []string{"ll", "s", "o", "exe", "exe"}

func (b *builder) try(modes []string, maxIn int, onlyB bool) Cmd {
	for i := 0; ; i++ {
		save := len(b.s.Files)
		used, paths := b.used, b.paths
		b.used, b.paths = clone(used), clone(paths)
		c := b.command(modes, maxIn, onlyB)
		if !b.clash(&c) {
			return c
		}
		b.s.Files = b.s.Files[:save]
		b.used, b.paths = used, paths
	}
}

func clone(m map[string]bool) map[string]bool {
	n := map[string]bool{}
	for k, v := range m {
		n[k] = v
	}
	return n
}

var noProbe bool

// probe runs the commands without faults to see what they do.
func (b *builder) probe() *simrt.World {
	if noProbe {
		w := simrt.NewWorld(simrt.Config{}, b.s.FS())
		for i := range b.s.Cmds {
			w.AddCommand(nil, nil, b.s.Cmds[i].Cwd, nil)
		}
		return w
	}
	return World(simrt.Config{}, b.s.FS(), b.s.Cmds...)
}

// Generate makes the scenario of a seed.
func Generate(prop string, seed uint64) *Scenario {
	b := newBuilder(prop, seed)
	if prop != "C17" && prop != "C18" {
		b.world()
	}
	gens[prop](b)
	for i := range b.s.Cmds {
		b.s.Cmds[i].Line = "blang " + strings.Join(b.s.Cmds[i].Args(), " ")
	}
	return b.s
}

var gens = map[string]func(*builder){
	"C10": genFaulty, "C11": genFaulty, "C12": genFaulty, "C13": genForeign, "C14": genParallel, "C15": genKilled,
	"C16": genDelivery, "C17": genRepro, "C18": genDamaged, "C19": genTool, "C20": genTogether,
}

func genFaulty(b *builder) {
	r := b.r
	modes := allModes
	if b.s.Property == "C12" {
		modes = []string{"s", "o", "exe", "exe", "ll"}
	}
	c := b.try(modes, 4, false)
	b.before(&c)
	if b.s.Property == "C12" {
		c.Save = r.P(1, 3)
	}
	if r.P(1, 5) {
		b.spoil(&c)
	} else if r.P(1, 16) {
		b.misuse(&c)
	}
	b.s.Cmds = []Cmd{c}
	b.s.Cfg = schedule(r)
	if b.s.Property != "C10" || r.P(9, 10) {
		fs := b.s.FS()
		faults(r, b.probe(), fs, &b.s.Cfg)
	}
}

func genForeign(b *builder) {
	r := b.r
	n := r.Pick(0, 6, 2, 1)
	for i := 0; i < n; i++ {
		b.s.Cmds = append(b.s.Cmds, b.try(allModes, 3, false))
	}
	for i := range b.s.Cmds {
		c := &b.s.Cmds[i]
		b.before(c)
		b.before(c)
		if r.P(1, 6) {
			b.spoil(c)
		}
	}
	if b.overlap() {
		b.s.Cmds = b.s.Cmds[:1]
	}
	b.s.Cfg = schedule(r)
	w := b.probe()
	if r.P(3, 4) {
		faults(r, w, b.s.FS(), &b.s.Cfg)
	}
	if r.P(1, 3) {
		k := r.N(len(b.s.Cmds))
		b.s.Cfg.Kills = append(b.s.Cfg.Kills, simrt.Kill{Cmd: k, At: killAt(r, w, k)})
	}
}

// killAt picks a point; most operations are reads, the others matter more.
func killAt(r *rng.R, w *simrt.World, cmd int) int {
	pts := w.Marks(cmd)
	if len(pts) > 0 && r.P(2, 3) {
		return pts[r.N(len(pts))] + r.N(2)
	}
	return r.N(w.CmdOps(cmd) + 1)
}

// overlap tells whether commands have files in common that they write.
func (b *builder) overlap() bool {
	seen := map[string]bool{}
	for i := range b.s.Cmds {
		c := &b.s.Cmds[i]
		for p := range c.own() {
			if seen[p] {
				return true
			}
			seen[p] = true
		}
	}
	for i := range b.s.Cmds {
		for _, in := range b.s.Cmds[i].Inputs {
			if seen[b.s.Cmds[i].abs(in)] {
				return true
			}
		}
	}
	return false
}

func genParallel(b *builder) {
	r := b.r
	n := r.Range(2, 5)
	for i := 0; i < n; i++ {
		c := b.try(allModes, 3, false)
		if k := len(b.s.Cmds); k > 0 && r.P(1, 2) {
			// the same sources in another way
			d := b.s.Cmds[r.N(k)]
			d.Style = r.U64() | 1
			d.Mode = []string{"ll", "s", "o", "exe"}[r.N(4)]
			d.Opt, d.Debug, d.Verbose = r.N(4), r.P(1, 3), r.P(1, 5)
			d.Out = fmt.Sprintf("%s%d", []string{"out", "o/p", "z.", "/simfs/o/r"}[r.N(4)], i)
			if len(d.Inputs) > 1 && d.Mode != "exe" {
				d.Out = ""
			}
			okIn := true
			for _, in := range d.Inputs {
				e := path.Ext(in)
				if d.Mode == "ll" && e != ".b" || d.Mode == "s" && e != ".b" && e != ".ll" || d.Mode == "o" && (e == ".o" || e == ".a") {
					okIn = false
				}
			}
			if okIn && !b.clash(&d) {
				if d.Out != "" {
					b.dir(path.Dir(d.abs(d.Out)))
				}
				if d.Mode != "exe" {
					d.Dirs, d.Libs = nil, nil
				}
				c = d
			}
		}
		if len(c.Inputs) > 1 && c.Mode == "exe" {
			c.Save = false // the documented names are shared then
		}
		b.s.Cmds = append(b.s.Cmds, c)
		if b.overlap() {
			b.s.Cmds = b.s.Cmds[:len(b.s.Cmds)-1]
		}
	}
	for i := range b.s.Cmds {
		if r.P(1, 3) {
			b.before(&b.s.Cmds[i])
		}
	}
	if r.P(1, 6) && len(b.s.Cmds) > 0 {
		k := r.N(len(b.s.Cmds))
		b.spoil(&b.s.Cmds[k])
	}
	b.s.Cfg = schedule(r)
	b.s.Cfg.Switch = []int{1, 1, 2, 3, 8, 32, 200}[r.N(7)]
	if r.P(1, 5) {
		w := b.probe()
		k := r.N(len(b.s.Cmds))
		b.s.Cfg.Kills = append(b.s.Cfg.Kills, simrt.Kill{Cmd: k, At: killAt(r, w, k)})
	}
}

func genKilled(b *builder) {
	r := b.r
	c := b.try(allModes, 4, false)
	b.before(&c)
	if r.P(1, 8) {
		b.spoil(&c)
	}
	b.s.Cmds = []Cmd{c}
	w := b.probe()
	for k := r.Pick(0, 6, 2, 1); k > 0; k-- {
		cfg := schedule(r)
		cfg.Kills = []simrt.Kill{{Cmd: 0, At: killAt(r, w, 0)}}
		b.s.Rounds = append(b.s.Rounds, cfg)
	}
	if b.s.Valid && r.P(1, 3) {
		var bs []string
		for _, in := range c.Inputs {
			if strings.HasSuffix(in, ".b") {
				bs = append(bs, in)
			}
		}
		if len(bs) > 0 {
			b.s.Edits = []File{mkFile(c.abs(bs[r.N(len(bs))]), []byte(source(r)))}
		}
	}
	b.s.Cfg = schedule(r)
}

func genDelivery(b *builder) {
	r := b.r
	c := b.try(allModes, 3, true)
	if r.P(1, 6) {
		// any bytes at all
		i := r.N(len(c.Inputs))
		for k := range b.s.Files {
			if b.s.Files[k].Path == c.abs(c.Inputs[i]) {
				b.s.Files[k] = mkFile(b.s.Files[k].Path, damage(r, []byte(source(r))))
				b.s.Valid = false
			}
		}
	}
	if r.P(1, 12) {
		in := c.Inputs[r.N(len(c.Inputs))]
		for k := range b.s.Files {
			if b.s.Files[k].Path == c.abs(in) {
				if r.P(1, 2) {
					b.s.Files[k] = File{Path: c.abs(in), Dir: true}
				} else {
					b.s.Files[k].Perm = 0o200
				}
			}
		}
		b.s.Valid = false
		b.s.Bad = []string{in}
	}
	b.s.Cmds = []Cmd{c}
	b.s.Cfg = simrt.Config{Chunk: r.U64() | 1}
	w := b.probe()
	n := w.Counts["blang read"]
	for k := 0; k < 12 && n > 0; k++ {
		cfg := simrt.Config{}
		if r.P(1, 3) {
			cfg.Chunk = r.U64() | 1
		}
		if r.P(1, 4) {
			cfg.Source = r.Range(1, 2)
		}
		if k < 9 {
			at := r.N(n)
			if r.P(1, 5) {
				at = n - 1 - r.N(min(n, 3))
			}
			e := errsFor["read"]
			cfg.Faults = []simrt.Fault{{Who: "blang", Class: "read", Nth: at, Err: e[r.N(len(e))], Sticky: r.P(1, 2)}}
		} else {
			cfg.Chunk = r.U64() | 1
		}
		b.s.Rounds = append(b.s.Rounds, cfg)
	}
}

// faulty makes a source that is rejected, often for several reasons at once.
func faulty(r *rng.R, text string) string {
	switch r.N(6) {
	case 0:
		return mutate(r, text)
	case 1:
		return breakIt(r, text)
	case 2:
		return string(damage(r, []byte(text)))
	}
	names := []string{"qa", "qb", "qc", "qd", "qe", "qf"}
	r.Shuffle(len(names), func(i, j int) { names[i], names[j] = names[j], names[i] })
	var l []string
	kind := r.N(4)
	for _, n := range names[:r.Range(2, len(names))] {
		switch kind {
		case 0:
			l = append(l, "goto "+n+";")
		case 1:
			l = append(l, "auto "+n+"; "+n+" = 1;", "extrn "+n+";", "auto "+n+";", n+":;", n+":;")
		case 2:
			l = append(l, n+" = 1;", "goto "+n+";", n+"[1] = "+n+"++;")
		case 3:
			l = append(l, "goto "+n+";", "case 1:", "goto "+n+"; "+n+":;")
		}
	}
	if r.P(1, 2) {
		r.Shuffle(len(l), func(i, j int) { l[i], l[j] = l[j], l[i] })
	}
	return text + "\nqz(q1, q2) {\n\t" + strings.Join(l, "\n\t") + "\n}\n"
}

func genRepro(b *builder) {
	r := b.r
	text := program(r, medium)
	if r.P(1, 3) {
		text = source(r)
	}
	if r.P(1, 4) {
		text = faulty(r, text)
	}
	b.file("/simfs/src/base.b", []byte(text))
	for k := 0; k < 4; k++ {
		b.s.Rounds = append(b.s.Rounds, simrt.Config{Map: r.U64() | 1, Host: uint64(k&1) * (r.U64() | 1)})
	}
	b.s.Files = append(b.s.Files, File{Path: simrt.ClangPath, Text: "clang", Perm: 0o755})
	b.file("/usr/lib/libb.a", libData("b"))
	for k := r.Range(3, 7); k > 0; k-- {
		v := Variant{Cfg: simrt.Config{}, Src: "/simfs/src/base.b"}
		b.cwd = []string{"/simfs/w", "/simfs/w/d", "/simfs/proj dir", "/simfs", "/simfs/src"}[r.N(5)]
		b.home = []string{"/simfs/home", "/root", ""}[r.N(3)]
		c := Cmd{Cwd: b.cwd, Env: b.env(), Mode: allModes[r.N(5)]}
		name := stems[r.N(len(stems))] + ".b"
		var given string
		v.As, given = b.place(name)
		if b.paths[v.As] {
			continue
		}
		c.Inputs = []string{given}
		kind := r.N(4)
		switch kind {
		case 0:
			v.Name = "map order"
			v.Cfg.Map = r.U64() | 1
		case 1:
			v.Name = "companions"
			taken := map[string]bool{stem(given): true}
			for n := r.Range(1, 3); n > 0; n-- {
				nm := stems[r.N(len(stems))]
				if taken[nm] {
					continue
				}
				taken[nm] = true
				abs := b.cwd + "/comp/" + nm + ".b"
				b.paths[abs] = false
				b.file(abs, []byte(source(r)))
				c.Inputs = append(c.Inputs, "comp/"+nm+".b")
			}
			r.Shuffle(len(c.Inputs), func(i, j int) { c.Inputs[i], c.Inputs[j] = c.Inputs[j], c.Inputs[i] })
			v.Cfg.Map = r.U64() | 1
		case 2:
			v.Name = "options"
			c.Opt, c.Debug, c.Verbose, c.Save = r.N(4), r.P(1, 2), r.P(1, 2), r.P(1, 3)
			c.Style = r.U64() | 1
		default:
			v.Name = "at the same time"
			v.Cfg = schedule(r)
		}
		if r.P(1, 2) {
			v.Name += ", another host"
			v.Cfg.Host = r.U64() | 1
		}
		if len(c.Inputs) == 1 || c.Mode == "exe" {
			if r.P(1, 2) {
				c.Out = fmt.Sprintf("out%d", k)
			}
		}
		v.Cmds = []Cmd{c}
		if kind == 3 {
			d := c
			d.Inputs = []string{"/simfs/src/base.b"}
			d.Out = fmt.Sprintf("/simfs/o/other%d", k)
			d.Mode = allModes[r.N(5)]
			b.dir("/simfs/o")
			v.Cmds = append(v.Cmds, d)
		}
		good := true
		all := map[string]bool{}
		for i := range v.Cmds {
			for p := range v.Cmds[i].own() {
				if all[p] || p == v.As || b.paths[p] {
					good = false
				}
				all[p] = true
			}
			for _, in := range v.Cmds[i].Inputs {
				if all[v.Cmds[i].abs(in)] {
					good = false
				}
			}
			seen := map[string]bool{}
			for _, o := range v.Cmds[i].Outputs() {
				if seen[o.Path] {
					good = false
				}
				seen[o.Path] = true
			}
			v.Cmds[i].Line = "blang " + strings.Join(v.Cmds[i].Args(), " ")
		}
		if good {
			b.s.Variants = append(b.s.Variants, v)
		}
	}
}

func genTool(b *builder) {
	r := b.r
	c := b.try([]string{"ll", "s", "o", "exe", "exe", "exe"}, 5, false)
	if r.P(1, 3) {
		b.before(&c)
	}
	switch r.Pick(8, 1, 1) {
	case 1:
		b.s.Files[0].Perm = 0o644
		b.s.Valid = false
	case 2:
		c.Env[0] = "PATH=/nowhere:/opt"
		b.s.Valid = false
	}
	b.s.Cmds = []Cmd{c}
	b.s.Cfg = schedule(r)
	w := b.probe()
	if r.P(1, 2) && len(w.Clangs) > 0 {
		switch r.N(4) {
		case 0, 1:
			b.s.Cfg.Clang = []simrt.ClangPlan{{Nth: r.N(len(w.Clangs)), Kind: []string{"exit1", "late1", "crash"}[r.N(3)]}}
		case 2:
			b.s.Cfg.Kills = []simrt.Kill{{Cmd: 0, Clang: true, At: r.N(w.ChildOps(0) + 1)}}
		default:
			faults(r, w, b.s.FS(), &b.s.Cfg)
		}
	}
}

func genTogether(b *builder) {
	r := b.r
	c := Cmd{}
	for {
		c = b.try([]string{"ll", "ll", "s", "o", "exe"}, 6, r.P(2, 3))
		if len(c.Inputs) > 1 || r.P(1, 20) {
			break
		}
	}
	if c.Mode != "exe" {
		c.Out = ""
		if b.clash(&c) {
			genTogether(b)
			return
		}
	}
	if r.P(1, 3) {
		b.before(&c)
	}
	if r.P(1, 3) {
		i := r.N(len(c.Inputs))
		in := c.Inputs[i]
		for k := range b.s.Files {
			if b.s.Files[k].Path != c.abs(in) {
				continue
			}
			b.s.Valid = false
			b.s.Bad = []string{in}
			switch {
			case !strings.HasSuffix(in, ".b"):
				b.s.Files[k] = mkFile(c.abs(in), []byte("x "+simrt.BadInput))
				if r.P(1, 2) {
					b.s.Files[k].Perm = 0o200
				}
			case r.P(1, 4):
				b.s.Files[k] = File{Path: c.abs(in), Dir: true}
			case r.P(1, 4):
				b.s.Files[k].Perm = 0o200
			default:
				b.s.Files[k] = mkFile(c.abs(in), []byte(defective(r)))
			}
			break
		}
	}
	b.s.Cmds = []Cmd{c}
	b.s.Cfg = schedule(r)
	if b.s.Valid && r.P(1, 4) {
		w := b.probe()
		for _, class := range []string{"read", "open"} {
			if n := w.Counts["blang "+class]; n > 0 && r.P(1, 2) {
				e := errsFor[class]
				b.s.Cfg.Faults = []simrt.Fault{{Who: "blang", Class: class, Nth: r.N(n), Err: e[r.N(len(e))], Sticky: r.P(1, 3)}}
			}
		}
	}
}
