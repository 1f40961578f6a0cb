package bl

import (
	"fmt"
	"sort"

	"vsim/kern"
)

// The reference interpreter: B on 64-bit two's-complement words. It detects
// behaviour the language leaves undefined and then reports the program as
// invalid instead of giving a result.

// Invalid reports undefined behaviour or a resource bound.
type Invalid struct{ Msg string }

func (i Invalid) Error() string { return i.Msg }

func bad(f string, a ...any) int64 { panic(Invalid{fmt.Sprintf(f, a...)}) }

type exitNow struct{}

type obj struct {
	data []byte
	ok   []bool // initialised, per byte; nil: all
	ro   bool
	dead bool
}

// Where objects lie is chosen by the implementation, so a run under another
// choice must give the same history.
const objBase = 0x10000
const objTop = 0x40000000

type varRef struct {
	slot  int // frame slot, or -1
	mem   int // index of the frame's memory cell, or -1
	glob  int // object number of a global cell, or -1
	param int // parameter number, or -1
}

type cfunc struct {
	f      *Func
	id     int
	code   []instr
	nslots int
	nmem   int
	vecs   []vecDecl
	pvars  []varRef
}

type vecDecl struct {
	ref  varRef
	size int64
	idx  int // index in frame.vecs
}

type instr struct {
	op     byte // 'e' expr, 'z' jump if zero, 'j' jump, 's' switch, 'r' return, 'R' return nothing, 'a' auto
	ex     func(*frame) int64
	target int
	cases  map[int64]int
}

type frame struct {
	slots []int64
	mems  []int64 // addresses of memory cells
	vecs  []int64 // addresses of vector data
	undef []bool  // parameter slots without a value
}

// Interp runs one program.
type Interp struct {
	k        *kern.Kernel
	prog     *Program
	funcs    map[string]*cfunc
	flist    []*cfunc
	globs    map[string]int // name -> object of its cell
	objs     []*obj
	cur      int
	fuel     int64
	fuel0    int64
	depth    int
	MaxDepth int
	undefRet bool
	rtl      bool
	maxBytes int
	frames   int64 // words of live frames
	MaxWords int64
}

// Outcome of a reference run.
type Outcome struct {
	Hist     []kern.Ev
	St       kern.Stats
	MaxDepth int
	MaxWords int64
	Steps    int64
}

// Options of a reference run.
type Options struct {
	Fuel     int64
	MaxDepth int
	RTL      bool // evaluate operands right to left
	MaxBytes int
}

// Run interprets the program on a fresh kernel for env.
func Run(p *Program, env *kern.Env, o Options) (out *Outcome, err error) {
	it := &Interp{k: kern.New(env), prog: p, funcs: map[string]*cfunc{}, globs: map[string]int{}, rtl: o.RTL, maxBytes: o.MaxBytes}
	it.fuel = o.Fuel
	if it.fuel == 0 {
		it.fuel = 2000000
	}
	it.fuel0 = it.fuel
	if o.MaxDepth == 0 {
		o.MaxDepth = 2000
	}
	if it.maxBytes == 0 {
		it.maxBytes = 1 << 20
	}
	defer func() {
		if e := recover(); e != nil {
			switch v := e.(type) {
			case Invalid:
				err = v
			default:
				panic(e)
			}
		}
	}()
	it.depth = o.MaxDepth
	it.setup()
	main := it.funcs["main"]
	if main == nil {
		bad("no main")
	}
	func() {
		defer func() {
			if e := recover(); e != nil {
				if _, ok := e.(exitNow); !ok {
					panic(e)
				}
			}
		}()
		code := it.call(main, nil)
		if it.undefRet {
			code = 0
		}
		it.k.Exit(code)
	}()
	return &Outcome{it.k.Hist, it.k.St, it.MaxDepth, it.MaxWords, it.fuel0 - it.fuel}, nil
}

func (it *Interp) newObj(size int) int {
	it.objs = append(it.objs, &obj{data: make([]byte, size)})
	return len(it.objs) - 1
}

func (it *Interp) addrOf(id int) int64 {
	if it.rtl {
		return int64(objTop-id)<<32 | objBase*3
	}
	return int64(id+1)<<32 | objBase
}

// objOf splits an address into object and offset.
func (it *Interp) objOf(a int64) (id, off int) {
	if it.rtl {
		return objTop - int(a>>32), int(a&0xffffffff) - objBase*3
	}
	return int(a>>32) - 1, int(a&0xffffffff) - objBase
}

func (it *Interp) memObj(a int64) int { id, _ := it.objOf(a); return id }

func (it *Interp) find(a int64, n int, write bool) (*obj, int) {
	id, off := it.objOf(a)
	if id < 0 || id >= len(it.objs) {
		bad("wild address %#x", a)
	}
	o := it.objs[id]
	if o == nil || o.dead || off < 0 || off+n > len(o.data) {
		bad("access outside an object")
	}
	if write && o.ro {
		bad("write to a constant")
	}
	return o, off
}

func (it *Interp) load(a int64) int64 {
	o, off := it.find(a, 8, false)
	if off%8 != 0 {
		bad("misaligned word")
	}
	var v uint64
	for i := 7; i >= 0; i-- {
		if o.ok != nil && !o.ok[off+i] {
			bad("read of an uninitialised word")
		}
		v = v<<8 | uint64(o.data[off+i])
	}
	return int64(v)
}

func (it *Interp) store(a, v int64) {
	o, off := it.find(a, 8, true)
	if off%8 != 0 {
		bad("misaligned word")
	}
	for i := 0; i < 8; i++ {
		o.data[off+i] = byte(uint64(v) >> (8 * i))
		if o.ok != nil {
			o.ok[off+i] = true
		}
	}
}

func (it *Interp) loadb(a int64) int64 {
	o, off := it.find(a, 1, false)
	if o.ok != nil && !o.ok[off] {
		bad("read of an uninitialised byte")
	}
	return int64(o.data[off])
}

func (it *Interp) storeb(a, v int64) {
	o, off := it.find(a, 1, true)
	o.data[off] = byte(v)
	if o.ok != nil {
		o.ok[off] = true
	}
}

func (it *Interp) strObj(s []byte) int64 {
	id := it.newObj(len(s) + 1)
	copy(it.objs[id].data, s)
	it.objs[id].ro = true
	return it.addrOf(id)
}

func (it *Interp) setup() {
	it.globs["fout"] = it.newObj(8)
	for _, t := range it.prog.Tops {
		if t.G != nil {
			g := t.G
			if _, dup := it.globs[g.Name]; dup || it.funcs[g.Name] != nil {
				bad("duplicate %s", g.Name)
			}
			if _, b := Builtins[g.Name]; b {
				bad("builtin %s", g.Name)
			}
			n := len(g.Inits)
			words := n
			if g.Vec {
				if g.Size >= 0 && int(g.Size) > words {
					words = int(g.Size)
				}
				if words == 0 {
					words = 1
				}
			} else if words == 0 {
				words = 1
			}
			if words > 1<<16 {
				bad("huge vector")
			}
			data := it.newObj(words * 8)
			cell := data
			if g.Vec {
				cell = it.newObj(8)
				it.store(it.addrOf(cell), it.addrOf(data))
			}
			for i, v := range g.Inits {
				x := v.Val
				if v.K == Str {
					x = it.strObj(v.Str)
				} else if v.Aux == 2 {
					x = CharVal(v.Str)
				}
				it.store(it.addrOf(data)+int64(i)*8, x)
			}
			it.globs[g.Name] = cell
		} else {
			f := t.F
			if it.funcs[f.Name] != nil {
				bad("duplicate %s", f.Name)
			}
			if _, dup := it.globs[f.Name]; dup {
				bad("duplicate %s", f.Name)
			}
			if _, b := Builtins[f.Name]; b {
				bad("builtin %s", f.Name)
			}
			cf := &cfunc{f: f, id: len(it.flist)}
			it.funcs[f.Name] = cf
			it.flist = append(it.flist, cf)
		}
	}
	for _, cf := range it.flist {
		(&comp{it: it, cf: cf, vars: map[string]varRef{}, taken: map[string]bool{}, labels: map[string]int{}}).function()
	}
}

// comp compiles one function.
type comp struct {
	it     *Interp
	cf     *cfunc
	vars   map[string]varRef
	taken  map[string]bool
	labels map[string]int
	fix    []struct {
		at   int
		name string
	}
	sw []*swc
}

type swc struct{ cases map[int64]int }

func (c *comp) scan(n *Node) {
	if n.K == Addr && n.Kids[0].K == Var {
		c.taken[n.Kids[0].Name] = true
	}
	for _, k := range n.Kids {
		c.scan(k)
	}
}

func (c *comp) newVar(name string, param int) varRef {
	if _, dup := c.vars[name]; dup {
		bad("duplicate local %s", name)
	}
	r := varRef{slot: -1, mem: -1, glob: -1, param: param}
	if c.taken[name] {
		r.mem = c.cf.nmem
		c.cf.nmem++
	} else {
		r.slot = c.cf.nslots
		c.cf.nslots++
	}
	c.vars[name] = r
	return r
}

func (c *comp) function() {
	c.scan(c.cf.f.Body)
	for i, p := range c.cf.f.Params {
		c.cf.pvars = append(c.cf.pvars, c.newVar(p, i))
	}
	c.stmt(c.cf.f.Body)
	c.emit(instr{op: 'R'})
	for _, f := range c.fix {
		t, ok := c.labels[f.name]
		if !ok {
			bad("undefined label %s", f.name)
		}
		c.cf.code[f.at].target = t
	}
}

func (c *comp) emit(i instr) int {
	c.cf.code = append(c.cf.code, i)
	return len(c.cf.code) - 1
}

func (c *comp) here() int { return len(c.cf.code) }

func (c *comp) stmt(n *Node) {
	switch n.K {
	case ExprS:
		c.emit(instr{op: 'e', ex: c.expr(n.Kids[0], false)})
	case If:
		j := c.emit(instr{op: 'z', ex: c.expr(n.Kids[0], true)})
		c.nosw(n.Kids[1])
		if len(n.Kids) > 2 {
			k := c.emit(instr{op: 'j'})
			c.cf.code[j].target = c.here()
			c.nosw(n.Kids[2])
			c.cf.code[k].target = c.here()
		} else {
			c.cf.code[j].target = c.here()
		}
	case While:
		top := c.here()
		j := c.emit(instr{op: 'z', ex: c.expr(n.Kids[0], true)})
		c.nosw(n.Kids[1])
		c.emit(instr{op: 'j', target: top})
		c.cf.code[j].target = c.here()
	case Switch:
		s := &swc{cases: map[int64]int{}}
		j := c.emit(instr{op: 's', ex: c.expr(n.Kids[0], true), cases: s.cases})
		c.sw = append(c.sw, s)
		c.stmt(n.Kids[1])
		c.sw = c.sw[:len(c.sw)-1]
		c.cf.code[j].target = c.here()
	case Case:
		if len(c.sw) == 0 || c.sw[len(c.sw)-1] == nil {
			bad("case outside switch")
		}
		s := c.sw[len(c.sw)-1]
		v := n.Val
		if n.Aux == 2 {
			v = CharVal(n.Str)
		}
		if _, dup := s.cases[v]; dup || v < 0 {
			bad("duplicate case")
		}
		s.cases[v] = c.here()
		c.stmt(n.Kids[0])
	case Label:
		if _, dup := c.labels[n.Name]; dup {
			bad("duplicate label")
		}
		c.labels[n.Name] = c.here()
		c.stmt(n.Kids[0])
	case Goto:
		at := c.emit(instr{op: 'j'})
		c.fix = append(c.fix, struct {
			at   int
			name string
		}{at, n.Name})
	case Return:
		if len(n.Kids) > 0 {
			c.emit(instr{op: 'r', ex: c.expr(n.Kids[0], true)})
		} else {
			c.emit(instr{op: 'R'})
		}
	case Block:
		for _, s := range n.Kids {
			c.stmt(s)
		}
	case Null:
	case Spin:
		c.emit(instr{op: 'S'})
	case Auto:
		for _, d := range n.Kids {
			c.auto(d)
		}
	case Extrn:
		for _, s := range n.Names {
			g, ok := c.it.globs[s]
			if !ok {
				bad("extrn of an undefined variable %s", s)
			}
			if r, dup := c.vars[s]; dup {
				if r.glob < 0 {
					bad("extrn %s hides a local", s)
				}
				continue
			}
			c.vars[s] = varRef{slot: -1, mem: -1, glob: g, param: -1}
		}
	default:
		bad("statement kind %d", n.K)
	}
}

// nosw compiles a statement in which no case of the enclosing switch may appear.
func (c *comp) nosw(n *Node) {
	c.sw = append(c.sw, nil)
	c.stmt(n)
	c.sw = c.sw[:len(c.sw)-1]
}

func (c *comp) auto(d *Node) {
	r := c.newVar(d.Name, -1)
	it := c.it
	if d.Val < 0 {
		st := c.storeVar(r)
		c.emit(instr{op: 'a', ex: func(f *frame) int64 { st(f, 0); return 0 }})
		return
	}
	size := d.Val
	if d.Aux == 2 {
		size = CharVal(d.Str)
	}
	if size == 0 || d.Aux == 1 {
		size = 1
	}
	if size > 1<<16 {
		bad("huge vector")
	}
	idx := len(c.cf.vecs)
	c.cf.vecs = append(c.cf.vecs, vecDecl{r, size, idx})
	st := c.storeVar(r)
	c.emit(instr{op: 'a', ex: func(f *frame) int64 {
		a := f.vecs[idx]
		st(f, a)
		o, _ := it.find(a, 1, true)
		for i := range o.ok {
			o.ok[i] = false
		}
		return 0
	}})
}

func (c *comp) storeVar(r varRef) func(*frame, int64) {
	it := c.it
	switch {
	case r.slot >= 0:
		s := r.slot
		if r.param >= 0 {
			p := r.param
			return func(f *frame, v int64) { f.slots[s] = v; f.undef[p] = false }
		}
		return func(f *frame, v int64) { f.slots[s] = v }
	case r.mem >= 0:
		m := r.mem
		return func(f *frame, v int64) { it.store(f.mems[m], v) }
	}
	a := it.addrOf(r.glob)
	return func(_ *frame, v int64) { it.store(a, v) }
}

func (c *comp) loadVar(r varRef) func(*frame) int64 {
	it := c.it
	switch {
	case r.slot >= 0:
		s := r.slot
		if r.param >= 0 {
			p := r.param
			return func(f *frame) int64 {
				if f.undef[p] {
					bad("read of a missing argument")
				}
				return f.slots[s]
			}
		}
		return func(f *frame) int64 { return f.slots[s] }
	case r.mem >= 0:
		m := r.mem
		return func(f *frame) int64 { return it.load(f.mems[m]) }
	}
	a := it.addrOf(r.glob)
	return func(_ *frame) int64 { return it.load(a) }
}

// place is a compiled lvalue: the address is computed first, then used.
type place struct {
	v    *varRef
	addr func(*frame) int64
}

func (c *comp) lvalue(n *Node) place {
	switch n.K {
	case Var:
		r, ok := c.vars[n.Name]
		if !ok {
			bad("undeclared %s", n.Name)
		}
		return place{v: &r}
	case Deref:
		return place{addr: c.expr(n.Kids[0], true)}
	case Index:
		b, i := c.expr(n.Kids[0], true), c.expr(n.Kids[1], true)
		if c.it.rtl {
			return place{addr: func(f *frame) int64 { y := i(f); x := b(f); return x + y*8 }}
		}
		return place{addr: func(f *frame) int64 { x := b(f); y := i(f); return x + y*8 }}
	case PreInc:
		// ++x is an lvalue in some dialects; never generated as one
	}
	bad("not an lvalue")
	return place{}
}

func b2i(b bool) int64 {
	if b {
		return 1
	}
	return 0
}

func binop(op string) func(a, b int64) int64 {
	switch op {
	case "+":
		return func(a, b int64) int64 { return a + b }
	case "-":
		return func(a, b int64) int64 { return a - b }
	case "*":
		return func(a, b int64) int64 { return a * b }
	case "/":
		return func(a, b int64) int64 {
			if b == 0 || b == -1 && a == -a && a != 0 {
				return bad("division")
			}
			return a / b
		}
	case "%":
		return func(a, b int64) int64 {
			if b == 0 || b == -1 && a == -a && a != 0 {
				return bad("division")
			}
			return a % b
		}
	case "<<":
		return func(a, b int64) int64 {
			if b < 0 || b > 63 {
				return bad("shift")
			}
			return a << uint(b)
		}
	case ">>":
		return func(a, b int64) int64 {
			if b < 0 || b > 63 {
				return bad("shift")
			}
			return a >> uint(b)
		}
	case "<":
		return func(a, b int64) int64 { return b2i(a < b) }
	case "<=":
		return func(a, b int64) int64 { return b2i(a <= b) }
	case ">":
		return func(a, b int64) int64 { return b2i(a > b) }
	case ">=":
		return func(a, b int64) int64 { return b2i(a >= b) }
	case "==":
		return func(a, b int64) int64 { return b2i(a == b) }
	case "!=":
		return func(a, b int64) int64 { return b2i(a != b) }
	case "&":
		return func(a, b int64) int64 { return a & b }
	case "|":
		return func(a, b int64) int64 { return a | b }
	}
	bad("operator %s", op)
	return nil
}

const fnBase = int64(0x70) << 56
const fnFlip = int64(0x3f)<<56 | 0x1fffff

func (it *Interp) fnVal(id int) int64 {
	v := fnBase | int64(id)
	if it.rtl {
		v ^= fnFlip
	}
	return v
}

func (c *comp) expr(n *Node, used bool) func(*frame) int64 {
	it := c.it
	switch n.K {
	case Num:
		v := n.Val
		if n.Aux == 2 {
			v = CharVal(n.Str)
		}
		return func(*frame) int64 { return v }
	case Str:
		a := it.strObj(n.Str)
		return func(*frame) int64 { return a }
	case Var:
		if r, ok := c.vars[n.Name]; ok {
			return c.loadVar(r)
		}
		if f, ok := it.funcs[n.Name]; ok {
			v := it.fnVal(f.id)
			return func(*frame) int64 { return v }
		}
		if id, ok := builtinID[n.Name]; ok {
			v := it.fnVal(id)
			return func(*frame) int64 { return v }
		}
		bad("undeclared %s", n.Name)
	case Index, Deref:
		p := c.lvalue(n)
		return func(f *frame) int64 { return it.load(p.addr(f)) }
	case Addr:
		p := c.lvalue(n.Kids[0])
		if p.v != nil {
			switch {
			case p.v.mem >= 0:
				m := p.v.mem
				return func(f *frame) int64 { return f.mems[m] }
			case p.v.glob >= 0:
				a := it.addrOf(p.v.glob)
				return func(*frame) int64 { return a }
			}
			bad("address of a slot")
		}
		return p.addr
	case Unary:
		e := c.expr(n.Kids[0], true)
		if n.Op == "-" {
			return func(f *frame) int64 { return -e(f) }
		}
		return func(f *frame) int64 { return b2i(e(f) == 0) }
	case PreInc, PostInc:
		p := c.lvalue(n.Kids[0])
		d := int64(1)
		if n.Op == "--" {
			d = -1
		}
		post := n.K == PostInc
		if p.v != nil {
			ld, st := c.loadVar(*p.v), c.storeVar(*p.v)
			return func(f *frame) int64 {
				v := ld(f)
				st(f, v+d)
				if post {
					return v
				}
				return v + d
			}
		}
		return func(f *frame) int64 {
			a := p.addr(f)
			v := it.load(a)
			it.store(a, v+d)
			if post {
				return v
			}
			return v + d
		}
	case Bin:
		a, b, op := c.expr(n.Kids[0], true), c.expr(n.Kids[1], true), binop(n.Op)
		if it.rtl {
			return func(f *frame) int64 { y := b(f); x := a(f); return op(x, y) }
		}
		return func(f *frame) int64 { x := a(f); y := b(f); return op(x, y) }
	case Cond:
		q, a, b := c.expr(n.Kids[0], true), c.expr(n.Kids[1], true), c.expr(n.Kids[2], true)
		return func(f *frame) int64 {
			if q(f) != 0 {
				return a(f)
			}
			return b(f)
		}
	case Assign:
		p := c.lvalue(n.Kids[0])
		e := c.expr(n.Kids[1], true)
		if n.Op == "" {
			if p.v != nil {
				st := c.storeVar(*p.v)
				return func(f *frame) int64 { v := e(f); st(f, v); return v }
			}
			if it.rtl {
				return func(f *frame) int64 { v := e(f); it.store(p.addr(f), v); return v }
			}
			return func(f *frame) int64 { a := p.addr(f); v := e(f); it.store(a, v); return v }
		}
		op := binop(n.Op)
		if p.v != nil {
			ld, st := c.loadVar(*p.v), c.storeVar(*p.v)
			if it.rtl {
				return func(f *frame) int64 { y := e(f); v := op(ld(f), y); st(f, v); return v }
			}
			return func(f *frame) int64 { x := ld(f); v := op(x, e(f)); st(f, v); return v }
		}
		if it.rtl {
			return func(f *frame) int64 {
				y := e(f)
				a := p.addr(f)
				v := op(it.load(a), y)
				it.store(a, v)
				return v
			}
		}
		return func(f *frame) int64 {
			a := p.addr(f)
			x := it.load(a)
			v := op(x, e(f))
			it.store(a, v)
			return v
		}
	case Call:
		return c.callExpr(n, used)
	}
	bad("expression kind %d", n.K)
	return nil
}

var builtinNames = func() []string {
	var l []string
	for k := range Builtins {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}()

var builtinID = func() map[string]int {
	m := map[string]int{}
	for i, k := range builtinNames {
		m[k] = 1<<20 + i
	}
	return m
}()

func (c *comp) callExpr(n *Node, used bool) func(*frame) int64 {
	it := c.it
	var args []func(*frame) int64
	for _, a := range n.Kids[1:] {
		args = append(args, c.expr(a, true))
	}
	eval := func(f *frame) []int64 {
		v := make([]int64, len(args))
		if it.rtl {
			for i := len(args) - 1; i >= 0; i-- {
				v[i] = args[i](f)
			}
			return v
		}
		for i, a := range args {
			v[i] = a(f)
		}
		return v
	}
	finish := func(v int64) int64 {
		if used && it.undefRet {
			bad("use of an undefined result")
		}
		return v
	}
	callee := n.Kids[0]
	if callee.K == Var {
		if _, isVar := c.vars[callee.Name]; !isVar {
			if cf := it.funcs[callee.Name]; cf != nil {
				return func(f *frame) int64 { return finish(it.call(cf, eval(f))) }
			}
			if hasVal, ok := Builtins[callee.Name]; ok {
				if used && !hasVal {
					bad("use of the result of %s", callee.Name)
				}
				name := callee.Name
				return func(f *frame) int64 { it.step(); return it.builtin(name, eval(f)) }
			}
			bad("undefined function %s", callee.Name)
		}
	}
	ce := c.expr(callee, true)
	return func(f *frame) int64 {
		var fv int64
		var av []int64
		if it.rtl {
			av = eval(f)
			fv = ce(f)
		} else {
			fv = ce(f)
			av = eval(f)
		}
		if it.rtl {
			fv ^= fnFlip
		}
		if fv&^(1<<21-1) != fnBase {
			bad("call of a non-function")
		}
		id := int(fv & (1<<21 - 1))
		if id >= 1<<20 {
			name := builtinNames[id-1<<20]
			if used && !Builtins[name] {
				bad("use of the result of %s", name)
			}
			it.step()
			return it.builtin(name, av)
		}
		return finish(it.call(it.flist[id], av))
	}
}

func (it *Interp) step() {
	it.fuel--
	if it.fuel < 0 {
		bad("out of steps")
	}
}

func (it *Interp) call(cf *cfunc, args []int64) int64 {
	it.depth--
	if it.depth < 0 {
		bad("recursion too deep")
	}
	it.cur++
	words := int64(cf.nslots + cf.nmem)
	for _, v := range cf.vecs {
		words += v.size + 1
	}
	it.frames += words
	if it.cur > it.MaxDepth {
		it.MaxDepth = it.cur
	}
	if it.frames > it.MaxWords {
		it.MaxWords = it.frames
	}
	f := &frame{slots: make([]int64, cf.nslots), undef: make([]bool, len(cf.pvars))}
	first := len(it.objs)
	for i := 0; i < cf.nmem; i++ {
		f.mems = append(f.mems, it.addrOf(it.newObj(8)))
	}
	for _, v := range cf.vecs {
		id := it.newObj(int(v.size) * 8)
		it.objs[id].ok = make([]bool, v.size*8)
		f.vecs = append(f.vecs, it.addrOf(id))
	}
	for _, v := range cf.vecs {
		if v.ref.slot >= 0 {
			f.slots[v.ref.slot] = f.vecs[v.idx]
		} else {
			it.store(f.mems[v.ref.mem], f.vecs[v.idx])
		}
	}
	for i, r := range cf.pvars {
		if i >= len(args) {
			f.undef[i] = true
			if r.mem >= 0 {
				it.objs[it.memObj(f.mems[r.mem])].ok = make([]bool, 8)
			}
			continue
		}
		if r.slot >= 0 {
			f.slots[r.slot] = args[i]
		} else {
			it.store(f.mems[r.mem], args[i])
		}
	}
	v := it.exec(cf, f)
	// The activation's storage dies with it.
	for i := first; i < len(it.objs); i++ {
		it.objs[i] = nil
	}
	it.objs = it.objs[:first]
	it.depth++
	it.cur--
	it.frames -= words
	return v
}

func (it *Interp) exec(cf *cfunc, f *frame) int64 {
	pc := 0
	for {
		it.step()
		in := &cf.code[pc]
		pc++
		switch in.op {
		case 'S':
			it.k.Spin()
			panic(exitNow{})
		case 'e', 'a':
			in.ex(f)
		case 'z':
			if in.ex(f) == 0 {
				pc = in.target
			}
		case 'j':
			pc = in.target
		case 's':
			t, ok := in.cases[in.ex(f)]
			if ok {
				pc = t
			} else {
				pc = in.target
			}
		case 'r':
			v := in.ex(f)
			it.undefRet = false
			return v
		case 'R':
			it.undefRet = true
			return 0
		}
	}
}

func (it *Interp) put(b []byte) {
	fd := it.load(it.addrOf(it.globs["fout"])) + 1
	for len(b) > 0 {
		n := it.k.Write(fd, int64(len(b)), func(n int) ([]byte, bool) { return b[:n], true })
		if n <= 0 {
			break
		}
		b = b[n:]
	}
	if it.k.Bytes > it.maxBytes || len(it.k.Hist) > 1<<16 {
		bad("too much output")
	}
}

func wordBytes(v int64) []byte {
	var b []byte
	for i := 7; i >= 0; i-- {
		c := byte(uint64(v) >> (8 * i))
		if c != 0 || len(b) > 0 || i == 0 {
			b = append(b, c)
		}
	}
	return b
}

func (it *Interp) builtin(name string, a []int64) int64 {
	it.undefRet = false
	need := map[string]int{"char": 2, "lchar": 3, "nread": 3, "nwrite": 3, "write": 1, "writeb": 1, "printd": 1, "printo": 1, "printf": 1}[name]
	if len(a) < need {
		bad("missing argument of %s", name)
	}
	switch name {
	case "char":
		return it.loadb(a[0] + a[1])
	case "lchar":
		it.storeb(a[0]+a[1], a[2])
	case "read":
		var c byte
		n := it.k.Read(0, 1, func(b []byte) bool { c = b[0]; return true })
		it.flood()
		if n != 1 {
			return 4
		}
		if c >= 1 && c <= 127 {
			return int64(c)
		}
		return 0
	case "nread":
		r := it.k.Read(int64(int32(a[0])), a[2], func(b []byte) bool {
			if a[1]>>32 == 0 {
				return false // an invalid address
			}
			for i, c := range b {
				it.storeb(a[1]+int64(i), int64(c))
			}
			return true
		})
		it.flood()
		return r
	case "nwrite":
		r := it.k.Write(int64(int32(a[0])), a[2], func(n int) ([]byte, bool) {
			if a[1]>>32 == 0 {
				return nil, false
			}
			// the whole buffer must be valid, whatever is transferred, unless
			// nothing can be as long as that
			b := make([]byte, n)
			if a[2] <= kern.Huge {
				b = make([]byte, a[2])
			}
			for i := range b {
				b[i] = byte(it.loadb(a[1] + int64(i)))
			}
			return b[:n], true
		})
		it.flood()
		return r
	case "write":
		it.put(wordBytes(a[0]))
	case "writeb":
		it.put([]byte{byte(a[0])})
	case "printd":
		it.put([]byte(fmt.Sprintf("%d", a[0])))
	case "printo":
		it.put([]byte(fmt.Sprintf("%o", uint64(a[0]))))
	case "printf":
		it.printf(a)
	case "flush":
	case "exit":
		it.k.Exit(0)
		panic(exitNow{})
	default:
		bad("builtin %s", name)
	}
	return 0
}

func (it *Interp) flood() {
	if len(it.k.Hist) > 1<<16 {
		bad("too many events")
	}
}

func (it *Interp) printf(a []int64) {
	next := 1
	arg := func() int64 {
		if next >= len(a) {
			bad("printf argument missing")
		}
		next++
		return a[next-1]
	}
	for i := int64(0); ; i++ {
		it.step()
		c := it.loadb(a[0] + i)
		if c == 0 {
			return
		}
		if c != '%' {
			it.put([]byte{byte(c)})
			continue
		}
		i++
		switch c = it.loadb(a[0] + i); c {
		case 'd':
			it.put([]byte(fmt.Sprintf("%d", arg())))
		case 'o':
			x := arg()
			if x < 0 {
				it.put([]byte(fmt.Sprintf("-%o", uint64(-x))))
			} else {
				it.put([]byte(fmt.Sprintf("%o", x)))
			}
		case 'c':
			it.put(wordBytes(arg()))
		case 's':
			s := arg()
			for j := int64(0); ; j++ {
				it.step()
				b := it.loadb(s + j)
				if b == 0 {
					break
				}
				it.put([]byte{byte(b)})
			}
		case '%':
			it.put([]byte{'%'})
		default:
			it.put([]byte{'%'})
			i--
		}
	}
}
