// Package weave rewrites a program so that it runs in the simulated world:
// imports of os, os/exec, sync and so on go to the packages below vsim/shim,
// map iteration and goroutines are decided by the world, and package-level
// variables can be given their initial values again for every process.
package weave

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

var shims = map[string]string{
	"os": "os", "os/exec": "exec", "fmt": "fmt", "path/filepath": "filepath", "io/ioutil": "ioutil",
	"sync": "sync", "maps": "maps", "log": "log", "os/signal": "signal",
	"math/rand": "rand", "math/rand/v2": "randv2", "crypto/rand": "crand",
	"github.com/mattn/go-colorable": "colorable", "github.com/mattn/go-isatty": "isatty",
}

type pkg struct {
	ImportPath string
	Dir        string
	Name       string
	GoFiles    []string
	Export     string
	Standard   bool
	Imports    []string
	ImportMap  map[string]string
}

type edit struct {
	from, to int
	text     string
}

// Program rewrites the main package in repo and what it depends on into the
// module directory out, and writes cmd/worker there, which runs work.
func Program(repo, out string, env []string) error {
	c := exec.Command("go", "list", "-deps", "-export", "-json=ImportPath,Dir,Name,GoFiles,Export,Standard,Imports,ImportMap", ".")
	c.Dir = repo
	c.Env = env
	var errb bytes.Buffer
	c.Stderr = &errb
	js, err := c.Output()
	if err != nil {
		return fmt.Errorf("go list: %v\n%s", err, errb.String())
	}
	pkgs := map[string]*pkg{}
	var order []*pkg
	dec := json.NewDecoder(bytes.NewReader(js))
	for {
		p := new(pkg)
		if err := dec.Decode(p); err == io.EOF {
			break
		} else if err != nil {
			return err
		}
		pkgs[p.ImportPath] = p
		order = append(order, p)
	}
	if len(order) == 0 || order[len(order)-1].Name != "main" {
		return fmt.Errorf("no main package in %s", repo)
	}
	root := order[len(order)-1]
	// files made for tests are not part of the program
	root.GoFiles = keep(root)
	// what is still needed
	need := map[string]bool{}
	var visit func(p *pkg) error
	fset := token.NewFileSet()
	visit = func(p *pkg) error {
		if need[p.ImportPath] || p.Standard || shims[p.ImportPath] != "" {
			return nil
		}
		need[p.ImportPath] = true
		for _, f := range p.GoFiles {
			af, err := parser.ParseFile(fset, filepath.Join(p.Dir, f), nil, parser.ImportsOnly)
			if err != nil {
				return err
			}
			for _, im := range af.Imports {
				path, _ := strconv.Unquote(im.Path.Value)
				if q := pkgs[path]; q != nil {
					if err := visit(q); err != nil {
						return err
					}
				}
			}
		}
		return nil
	}
	if err := visit(root); err != nil {
		return err
	}
	lookup := func(path string) (io.ReadCloser, error) {
		if p := pkgs[path]; p != nil && p.Export != "" {
			return os.Open(p.Export)
		}
		return nil, fmt.Errorf("no export data for %s", path)
	}
	var inits []string
	for _, p := range order {
		if !need[p.ImportPath] {
			continue
		}
		own := p == root || strings.HasSuffix(p.ImportPath, "/pflag") || strings.HasSuffix(p.ImportPath, "/color")
		if err := rewrite(p, p == root, own, need, out, lookup); err != nil {
			return fmt.Errorf("%s: %v", p.ImportPath, err)
		}
		if own {
			inits = append(inits, target(p, p == root))
		}
	}
	return worker(out, inits)
}

func keep(p *pkg) []string {
	var l []string
	for _, f := range p.GoFiles {
		af, err := parser.ParseFile(token.NewFileSet(), filepath.Join(p.Dir, f), nil, parser.ImportsOnly)
		if err == nil {
			test := false
			for _, im := range af.Imports {
				if im.Path.Value == `"testing"` {
					test = true
				}
			}
			if test {
				continue
			}
		}
		l = append(l, f)
	}
	return l
}

func target(p *pkg, root bool) string {
	if root {
		return "target"
	}
	return "dep/" + p.ImportPath
}

func rewrite(p *pkg, root, own bool, need map[string]bool, out string, lookup func(string) (io.ReadCloser, error)) error {
	fset := token.NewFileSet()
	var files []*ast.File
	var srcs [][]byte
	for _, f := range p.GoFiles {
		name := filepath.Join(p.Dir, f)
		b, err := os.ReadFile(name)
		if err != nil {
			return err
		}
		af, err := parser.ParseFile(fset, name, b, parser.ParseComments)
		if err != nil {
			return err
		}
		files = append(files, af)
		srcs = append(srcs, b)
	}
	info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}, Defs: map[*ast.Ident]types.Object{}}
	conf := types.Config{Importer: importer.ForCompiler(fset, "gc", lookup), Error: func(error) {}}
	tp, err := conf.Check(p.ImportPath, fset, files, info)
	if err != nil {
		return fmt.Errorf("type check: %v", err)
	}
	dir := filepath.Join(out, target(p, root))
	if err := os.MkdirAll(dir, 0o755); err != nil {
		return err
	}
	name := p.Name
	if root {
		name = "target"
	}
	var initFns []string
	edits := make([][]edit, len(files))
	uses := make([]string, len(files))
	off := func(pos token.Pos) int { return fset.Position(pos).Offset }
	for i, f := range files {
		add := func(from, to token.Pos, s string) { edits[i] = append(edits[i], edit{off(from), off(to), s}) }
		add(f.Name.Pos(), f.Name.End(), name+`; import simrt "vsim/simrt"; var _ = simrt.Zero`)
		if len(f.Imports) > 0 { // imports come before the rest
			edits[i][0].text = name + `; import simrt "vsim/simrt"`
		}
		for _, im := range f.Imports {
			path, _ := strconv.Unquote(im.Path.Value)
			to := ""
			if s := shims[path]; s != "" {
				to = "vsim/shim/" + s
			} else if need[path] {
				to = "vsim/dep/" + path
			}
			if to != "" {
				add(im.Path.Pos(), im.Path.End(), strconv.Quote(to))
			}
		}
		for _, d := range f.Decls {
			if fd, ok := d.(*ast.FuncDecl); ok && own && fd.Recv == nil && fd.Name.Name == "init" {
				fn := fmt.Sprintf("simInitFn%d", len(initFns))
				initFns = append(initFns, fn)
				add(fd.Name.Pos(), fd.Name.End(), fn)
			}
		}
		slept := false
		ast.Inspect(f, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.RangeStmt:
				if t := info.TypeOf(n.X); t != nil {
					if _, ok := t.Underlying().(*types.Map); ok {
						add(n.X.Pos(), n.X.Pos(), "simrt.RangeMap(")
						add(n.X.End(), n.X.End(), ")")
					}
				}
			case *ast.GoStmt:
				spawn(n, info, srcs[i], off, add)
			case *ast.SelectorExpr:
				if o := info.Uses[n.Sel]; o != nil && o.Pkg() != nil && o.Pkg().Path() == "time" && o.Name() == "Sleep" {
					add(n.Pos(), n.End(), "simrt.Sleep")
					if id, ok := n.X.(*ast.Ident); ok && !slept {
						slept = true
						uses[i] = "\nvar _ " + id.Name + ".Duration\n"
					}
				}
			}
			return true
		})
	}
	text := func(i, from, to int) string { return apply(srcs[i], edits[i], from, to) }
	fileOf := func(pos token.Pos) int {
		for i, f := range files {
			if f.FileStart <= pos && pos < f.FileEnd {
				return i
			}
		}
		return -1
	}
	tails := make([]string, len(files))
	var steps, vars []string
	if own {
		inited := map[types.Object]bool{}
		var order []string
		for k, in := range info.InitOrder {
			i := fileOf(in.Rhs.Pos())
			var lhs []string
			for _, v := range in.Lhs {
				lhs = append(lhs, v.Name())
				inited[v] = true
			}
			fn := fmt.Sprintf("simInitVar%d", k)
			tails[i] += fmt.Sprintf("\nfunc %s() { %s = %s }\n", fn, strings.Join(lhs, ", "), text(i, off(in.Rhs.Pos()), off(in.Rhs.End())))
			order = append(order, fn+"()")
		}
		for _, n := range tp.Scope().Names() {
			if v, ok := tp.Scope().Lookup(n).(*types.Var); ok {
				vars = append(vars, "&"+n)
				if !inited[v] {
					steps = append(steps, "simrt.Zero(&"+n+")")
				}
			}
		}
		steps = append(steps, order...)
		for _, f := range initFns {
			steps = append(steps, f+"()")
		}
	}
	for i, f := range p.GoFiles {
		b := text(i, 0, len(srcs[i])) + tails[i] + uses[i]
		if len(files[i].Imports) > 0 {
			b += "\nvar _ = simrt.Zero\n"
		}
		if err := os.WriteFile(filepath.Join(dir, f), []byte(b), 0o644); err != nil {
			return err
		}
	}
	if own {
		z := fmt.Sprintf("package %s\n\nimport \"vsim/simrt\"\n\nvar _ = simrt.Zero\n\nfunc SimInit() {\n\t%s\n}\n\nfunc SimVars() []any { return []any{%s} }\n", name, strings.Join(steps, "\n\t"), strings.Join(vars, ", "))
		if root {
			z += "\nfunc SimMain() { main() }\n"
		}
		return os.WriteFile(filepath.Join(dir, "zz_sim.go"), []byte(z), 0o644)
	}
	return nil
}

// spawn turns "go f(x)" into a goroutine of the world; f and x are evaluated first.
func spawn(n *ast.GoStmt, info *types.Info, src []byte, off func(token.Pos) int, add func(token.Pos, token.Pos, string)) {
	call := n.Call
	if fl, ok := call.Fun.(*ast.FuncLit); ok && len(call.Args) == 0 && len(fl.Type.Params.List) == 0 {
		add(n.Pos(), call.Pos(), "simrt.Go(func() { ")
		add(call.End(), call.End(), " })")
		return
	}
	var names []string
	pre := ""
	for i, a := range call.Args {
		tv := info.Types[a]
		if tv.Value != nil || tv.IsNil() || i == len(call.Args)-1 && call.Ellipsis.IsValid() {
			continue
		}
		nm := fmt.Sprintf("simArg%d", i)
		names = append(names, nm)
		pre += nm + " := "
		_ = a
	}
	if len(names) == 0 {
		add(n.Pos(), call.Pos(), "simrt.Go(func() { ")
		add(call.End(), call.End(), " })")
		return
	}
	// a block with the arguments in temporaries
	pre = ""
	k := 0
	for i, a := range call.Args {
		tv := info.Types[a]
		if tv.Value != nil || tv.IsNil() || i == len(call.Args)-1 && call.Ellipsis.IsValid() {
			continue
		}
		pre += fmt.Sprintf("%s := %s; ", names[k], src[off(a.Pos()):off(a.End())])
		add(a.Pos(), a.End(), names[k])
		k++
	}
	add(n.Pos(), call.Pos(), "{ "+pre+"simrt.Go(func() { ")
	add(call.End(), call.End(), " }) }")
}

func apply(src []byte, edits []edit, from, to int) string {
	var l []edit
	for _, e := range edits {
		if e.from >= from && e.to <= to {
			l = append(l, e)
		}
	}
	sort.SliceStable(l, func(i, j int) bool { return l[i].from < l[j].from })
	var b strings.Builder
	pos := from
	for _, e := range l {
		if e.from < pos {
			continue
		}
		b.Write(src[pos:e.from])
		b.WriteString(e.text)
		pos = e.to
	}
	b.Write(src[pos:to])
	return b.String()
}

func worker(out string, pkgs []string) error {
	dir := filepath.Join(out, "cmd", "worker")
	if err := os.MkdirAll(dir, 0o755); err != nil {
		return err
	}
	var b strings.Builder
	b.WriteString("package main\n\nimport (\n\t\"vsim/pipe\"\n\t\"vsim/simrt\"\n")
	for i, p := range pkgs {
		fmt.Fprintf(&b, "\tp%d %q\n", i, "vsim/"+p)
	}
	b.WriteString(")\n\nfunc main() {\n\tsimrt.Target = simrt.Program{\n")
	fmt.Fprintf(&b, "\t\tMain: p%d.SimMain,\n\t\tInit: func() {\n", len(pkgs)-1)
	for i := range pkgs {
		fmt.Fprintf(&b, "\t\t\tp%d.SimInit()\n", i)
	}
	b.WriteString("\t\t},\n\t}\n")
	for i := range pkgs {
		fmt.Fprintf(&b, "\tsimrt.Target.Vars = append(simrt.Target.Vars, p%d.SimVars()...)\n", i)
	}
	b.WriteString("\tpipe.WorkerMain()\n}\n")
	return os.WriteFile(filepath.Join(dir, "main.go"), []byte(b.String()), 0o644)
}
