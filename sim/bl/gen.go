package bl

import (
	"fmt"

	"vsim/rng"
)

// Profile tunes the generator towards one property.
type Profile struct {
	Funcs, Globals int // maximum numbers
	Budget         int // statements in main
	Depth          int // expression depth
	IO             int // weight of input/output statements
	Prints         int // weight of printing
	Goto           int
	Loops          int
	Calls          int
	Recursion      int
	BigLoops       bool // loops with many iterations
	Locals         int  // weight of auto declarations in inner blocks
	Fout           int  // weight of fout switching
	Raw            int  // weight of nread/nwrite
	Exit           int
	Returns        int
	Deep           int // of 10: recursive functions that may go deep
	ManyParams     int // up to this many parameters
	SwitchW        int
	Idioms         int // weight of idioms
	NoRead         bool
}

type vkind byte

const (
	vInt   vkind = 'i' // int scalar
	vVec   vkind = 'v' // vector of ints
	vPtr   vkind = 'p' // pointer to ints, usable indexes lo..hi-1
	vStr   vkind = 's' // pointer to a string with at least hi characters
	vBuf   vkind = 'b' // vector used as byte buffer of hi bytes, NUL-terminated
	vFn    vkind = 'f' // function pointer
	vMulti vkind = 'm' // scalar with hi words
	vSVec  vkind = 'S' // vector of strings
	vFVec  vkind = 'F' // vector of function pointers
)

type gvar struct {
	name   string
	kind   vkind
	lo, hi int
	global bool
	taken  bool // address taken: accesses count as memory
	locked bool // not to be written by generated code
	max    int  // >0: value known to be in 0..max-1
	fn     *fsig
	minStr int
}

func (v *gvar) mem() bool { return v.global || v.taken }

type fsig struct {
	name    string
	params  []gvar // kinds and ranges
	ret     bool
	pure    bool // no output, input, or writes other than to its own locals
	cost    int
	rec     bool // first parameter bounds the recursion
	unused  bool // parameters are not used: any number of arguments will do
	deep    bool // may recur hundreds of times
	sparse  bool // may be called with fewer arguments: first says how many
	f       *Func
	defined bool
}

type eff struct {
	read, wrote map[string]bool
	memR, memW  bool
	noCalls     bool
	cost        int
}

func newEff() *eff { return &eff{read: map[string]bool{}, wrote: map[string]bool{}} }

type fctx struct {
	sig    *fsig
	vars   []*gvar
	names  int
	labels int
	used   map[string]bool // globals used
	mult   int             // how often the code being generated runs
	cost   int
	exits  []string // labels outside enclosing loops
	conts  []string
	budget int
	nest   int
	pure   bool
	inMain bool
}

// Gen generates one program.
type Gen struct {
	helper  []string // functions for idCallee
	big     int      // large in this respect
	width   int      // product of the argument counts of the calls around
	prefix  string   // of long names
	R       *rng.R
	P       Profile
	globs   []*gvar
	funcs   []*fsig
	prog    *Program
	c       *fctx
	nstr    int
	maxCost int
	names   map[string]bool
}

const smallCost = 60000

var nameParts = []string{"a", "b", "x1", "foo", "bar", "i_", "_t", "Val", "n", "zz9", "count", "el", "els", "elsewhere", "else_", "else0", "iff", "whiles", "returned", "autos", "casex", "switcher", "gotoo", "extrnal", "entry", "main1", "label", "if_", "p", "q", "ptr", "data"}

var keywords = map[string]bool{"if": true, "else": true, "while": true, "switch": true, "case": true, "goto": true, "return": true, "auto": true, "extrn": true, "main": true, "fout": true}

func (g *Gen) fresh(prefix string) string {
	for i := 0; ; i++ {
		var s string
		if g.R.P(1, 5) {
			s = nameParts[g.R.N(len(nameParts))]
			if g.R.P(1, 2) {
				s += fmt.Sprint(g.R.N(100))
			}
		} else {
			s = fmt.Sprintf("%s%d", prefix, len(g.names))
		}
		s = g.longName(s)
		_, bi := Builtins[s]
		if !g.names[s] && !bi && !keywords[s] {
			g.names[s] = true
			return s
		}
	}
}

// Generate makes a program.
func Generate(r *rng.R, p Profile) *Program {
	g := &Gen{R: r, P: p, width: 1, prog: &Program{}, names: map[string]bool{}, maxCost: smallCost}
	if p.BigLoops {
		g.maxCost = 40 * smallCost
	}
	g.chooseBig()
	ng := r.N(p.Globals + 1)
	if g.big == bigGlobals {
		ng = g.size(80)
	}
	for i := 0; i < ng; i++ {
		g.global()
	}
	nf := r.N(p.Funcs + 1)
	if g.big == bigFuncs {
		nf = g.size(40)
	}
	for i := 0; i < nf; i++ {
		g.function()
	}
	g.mainFunc()
	tops := g.prog.Tops
	r.Shuffle(len(tops), func(i, j int) { tops[i], tops[j] = tops[j], tops[i] })
	return g.prog
}

func (g *Gen) constant() *Node {
	r := g.R
	switch r.Pick(30, 12, 8, 6, 4, 4, 6, 3) {
	case 0:
		return N(int64(r.N(12)))
	case 1:
		return N(int64(r.N(1000)))
	case 2:
		return N(-int64(r.N(100)) - 1)
	case 3:
		v := int64(1)<<uint(r.N(63)) + int64(r.N(3)) - 1
		if r.P(1, 3) {
			v = -v
		}
		if v < 0 && -v < 0 {
			v++
		}
		return N(v)
	case 4:
		return N(int64(r.U64() >> uint(1+r.N(60))))
	case 5:
		return &Node{K: Num, Val: int64(r.U64() >> uint(1+r.N(60))), Aux: 1}
	case 7:
		switch r.N(6) {
		case 0:
			return N(1<<63 - 1)
		case 1:
			return N(-1 << 62)
		case 2:
			return N(1 << 31)
		}
		return B("-", N(-(1<<63 - 1)), N(1))
	}
	n := r.Range(1, 3)
	if r.P(1, 4) {
		n = r.Range(1, 8)
	}
	b := make([]byte, n)
	for i := range b {
		b[i] = g.char()
	}
	return &Node{K: Num, Aux: 2, Str: b, Val: CharVal(b)}
}

func (g *Gen) char() byte {
	r := g.R
	switch r.Pick(20, 3, 1, 1) {
	case 0:
		return byte(r.Range(32, 126))
	case 1:
		return "\n\t\r*'\"(){}%"[r.N(11)]
	case 2:
		return byte(r.Range(128, 255))
	}
	return byte(r.Range('a', 'z'))
}

func (g *Gen) str(min int) *Node {
	r := g.R
	n := r.Range(min, min+8)
	if g.big == bigStrings && r.P(1, 3) {
		n = min + g.size(2000)
	}
	b := make([]byte, n)
	for i := range b {
		b[i] = g.char()
		if b[i] == '%' {
			b[i] = 'p'
		}
	}
	return &Node{K: Str, Str: b}
}

func (g *Gen) global() {
	r := g.R
	gl := &Global{Name: g.fresh("g")}
	v := &gvar{name: gl.Name, global: true}
	ival := func() *Node {
		n := g.constant()
		if n.K != Num {
			n = N(-(1<<63 - 1))
		}
		return n
	}
	switch r.Pick(10, 4, 10, 3, 3, 2) {
	case 0:
		v.kind = vInt
		if r.P(2, 3) {
			gl.Inits = []*Node{ival()}
		}
	case 1:
		v.kind, v.hi = vMulti, r.Range(2, 5)
		if g.big == bigLists {
			v.hi = g.size(300)
		}
		for i := 0; i < v.hi; i++ {
			gl.Inits = append(gl.Inits, ival())
		}
	case 2:
		v.kind = vVec
		gl.Vec = true
		switch r.N(4) {
		case 0:
			v.hi = r.Range(1, 20)
			gl.Size = int64(v.hi)
		case 1:
			v.hi = r.Range(1, 9)
			if g.big == bigLists {
				v.hi = g.size(600)
			}
			gl.Size = int64(v.hi)
			for i := r.Range(1, v.hi); i > 0; i-- {
				gl.Inits = append(gl.Inits, ival())
			}
			switch {
			case r.P(1, 4): // more values than the size asks for
				gl.Size = int64(r.Range(1, len(gl.Inits)))
				v.hi = len(gl.Inits)
			case r.P(1, 8): // few values in a large vector
				v.hi = r.Range(1000, 8000)
				gl.Size = int64(v.hi)
			}
		case 2:
			v.hi = r.Range(1, 9)
			if g.big == bigLists {
				v.hi = g.size(600)
			}
			gl.Size = -1
			if r.P(1, 6) {
				gl.Size = 0
			}
			for i := 0; i < v.hi; i++ {
				gl.Inits = append(gl.Inits, ival())
			}
		case 3:
			v.hi = 1
			gl.Size = -1
			if r.P(1, 2) {
				v.hi = r.Range(21, 300)
				gl.Size = int64(v.hi)
			}
		}
	case 3:
		v.kind = vStr
		s := g.str(3)
		v.minStr = len(s.Str)
		v.locked = true
		gl.Inits = []*Node{s}
	case 4:
		v.kind = vSVec
		gl.Vec = true
		v.hi = r.Range(2, 5)
		if g.big == bigLists {
			v.hi = g.size(150)
		}
		gl.Size = -1
		if r.P(1, 2) {
			gl.Size = int64(v.hi)
		}
		v.minStr = 2
		for i := 0; i < v.hi; i++ {
			gl.Inits = append(gl.Inits, g.str(2))
		}
	case 5:
		v.kind = vBuf
		gl.Vec = true
		gl.Size = int64(r.Range(1, 6))
		v.hi = int(gl.Size) * 8
	}
	g.globs = append(g.globs, v)
	g.prog.Tops = append(g.prog.Tops, Top{G: gl})
}

// ---- functions

func (g *Gen) begin(sig *fsig) *fctx {
	c := &fctx{sig: sig, used: map[string]bool{}, mult: 1, pure: sig.pure}
	g.c = c
	return c
}

func (g *Gen) localName(prefix string) string {
	c := g.c
	for {
		c.names++
		var s string
		if g.R.P(1, 6) {
			s = nameParts[g.R.N(len(nameParts))]
		} else {
			s = fmt.Sprintf("%s%d", prefix, c.names)
		}
		s = g.longName(s)
		_, bi := Builtins[s]
		clash := g.names[s] || bi || keywords[s] || c.used["\x00"+s]
		if !clash {
			c.used["\x00"+s] = true
			return s
		}
	}
}

// function makes a function, or two that call each other.
func (g *Gen) function() {
	rec := g.R.N(100) < g.P.Recursion
	a, ca := g.newSig(rec)
	if rec && g.R.P(1, 3) {
		b, cb := g.newSig(true)
		b.pure, b.ret = a.pure, a.ret
		b.deep = a.deep
		b.params[0].max = a.params[0].max
		cb.pure = b.pure
		g.funcBody(a, ca, b)
		g.funcBody(b, cb, a)
		g.funcs = append(g.funcs, a, b)
		return
	}
	g.funcBody(a, ca, a)
	g.funcs = append(g.funcs, a)
}

func (g *Gen) newSig(rec bool) (*fsig, *fctx) {
	r := g.R
	sig := &fsig{name: g.fresh("f"), ret: r.P(4, 5), pure: r.P(1, 2), rec: rec}
	c := g.begin(sig)
	np := r.Pick(2, 4, 4, 3, 2, 1)
	if g.P.ManyParams > 0 && r.P(1, 3) {
		np = r.Range(0, g.P.ManyParams)
	}
	if g.big == bigParams && r.P(1, 2) {
		np = g.size(140)
	}
	if sig.rec {
		p := gvar{name: g.localName("n"), kind: vInt, locked: true, max: 8}
		if r.N(10) < g.P.Deep {
			sig.deep = true
			p.max = 0
		}
		sig.params = append(sig.params, p)
	}
	for i := 0; i < np; i++ {
		p := gvar{name: g.localName("p"), kind: vInt}
		switch r.Pick(12, 3, 2, 2) {
		case 1:
			p.kind, p.hi = vPtr, r.Range(1, 4)
			p.locked = true
		case 2:
			p.kind, p.minStr = vStr, 2
			p.locked = true
		case 3:
			if f := g.pickFn(); f != nil {
				p.kind, p.fn = vFn, f
			}
		}
		sig.params = append(sig.params, p)
	}
	if !sig.rec && np >= 2 && r.P(1, 8) {
		sig.sparse = true
		for i := range sig.params {
			sig.params[i] = gvar{name: sig.params[i].name, kind: vInt}
		}
		sig.params[0].locked = true
	}
	if !sig.rec && !sig.sparse && len(sig.params) > 0 && r.P(1, 7) {
		sig.unused = true
		for i := range sig.params {
			sig.params[i] = gvar{name: sig.params[i].name, kind: vInt, locked: true}
		}
	}
	return sig, c
}

func (g *Gen) funcBody(sig *fsig, c *fctx, callee *fsig) {
	r := g.R
	g.c = c
	f := &Func{Name: sig.name}
	for i := range sig.params {
		f.Params = append(f.Params, sig.params[i].name)
	}
	sig.f = f
	for i := range sig.params {
		v := sig.params[i]
		if v.kind == vInt && !v.locked && r.P(1, 6) {
			v.taken = true
		}
		if sig.sparse && i > 0 || sig.unused {
			continue
		}
		c.vars = append(c.vars, &v)
	}
	if sig.rec {
		c.mult = 4
	}
	c.budget = r.Range(1, 4+g.P.Budget/3)
	var body []*Node
	if sig.sparse {
		// f(n, a, b, ...) uses only the first n of its further arguments
		for i := 1; i < len(sig.params); i++ {
			v := sig.params[i].name
			if i == 1 {
				t := &gvar{name: g.localName("t"), kind: vInt}
				c.vars = append(c.vars, t)
				body = append(body, &Node{K: Auto, Kids: []*Node{{K: Decl, Name: t.name, Val: -1}}})
			}
			t := c.vars[len(c.vars)-1].name
			use := As(V(t), B([]string{"+", "-", "|"}[r.N(3)], B("*", V(t), N(7)), V(v)))
			body = append(body, &Node{K: If, Kids: []*Node{B(">=", V(sig.params[0].name), N(int64(i))), S(use)}})
		}
	}
	if sig.rec {
		// guard first: the recursion ends
		var ret *Node
		if sig.ret {
			ret = &Node{K: Return, Kids: []*Node{g.expr(newEffNC(), 1)}}
		} else {
			ret = &Node{K: Return}
		}
		body = append(body, &Node{K: If, Kids: []*Node{B("<=", V(sig.params[0].name), N(0)), ret}})
		sig.cost = 400 // assumed while its own body is generated
	}
	body = append(body, g.stmts(c.budget)...)
	if sig.rec {
		sig.defined = true
		body = append(body, g.recCall(sig, callee)...)
	}
	if sig.ret {
		body = append(body, &Node{K: Return, Kids: []*Node{g.expr(newEff(), g.P.Depth)}})
	}
	if r.P(1, 8) {
		// unreachable code at the end
		body = append(body, S(As(V(g.anyIntTarget(&body)), g.expr(newEff(), 1))))
	}
	f.Body = g.finishBody(body)
	sig.cost = c.cost + 3
	if sig.rec {
		sig.cost = c.cost*12 + 50
		if callee != sig {
			sig.cost *= 2
		}
	}
	sig.defined = true
	g.prog.Tops = append(g.prog.Tops, Top{F: f})
	g.c = nil
}

func newEffNC() *eff { e := newEff(); e.noCalls = true; return e }

// anyIntTarget declares a scratch local and returns its name.
func (g *Gen) anyIntTarget(body *[]*Node) string {
	n := g.localName("u")
	*body = append(*body, &Node{K: Auto, Kids: []*Node{{K: Decl, Name: n, Val: -1}}})
	return n
}

// recCall makes a recursive step whose locals must survive the inner call.
func (g *Gen) recCall(sig, callee *fsig) []*Node {
	r := g.R
	c := g.c
	var out []*Node
	v := g.localName("w")
	size, hi := 2, 1
	if r.P(2, 5) {
		// a large one, of which the far end is used
		size = []int{9, 33, 64, 100, 128, 255, 256, 257, 300, 512, 1000}[r.N(11)]
		if sig.deep || callee.deep {
			size = min(size, 300)
		}
		hi = []int{1, size / 2, size - 1, r.Range(1, size-1)}[r.N(4)]
	}
	out = append(out, autoDecl(v, int64(size)))
	out = append(out, S(As(Ix(V(v), N(0)), B("*", V(sig.params[0].name), N(3)))), S(As(Ix(V(v), num(hi)), g.expr(newEffNC(), 1))))
	if size == 2 {
		c.vars = append(c.vars, &gvar{name: v, kind: vVec, hi: 2})
	}
	args := []*Node{B("-", V(sig.params[0].name), N(int64(r.Range(1, 2))))}
	e := newEffNC()
	for i := 1; i < len(callee.params); i++ {
		a := g.argFor(e, &callee.params[i])
		if a == nil {
			// no vector is long enough: make one
			n := g.localName("w")
			out = append(out, &Node{K: Auto, Kids: []*Node{{K: Decl, Name: n, Val: int64(callee.params[i].hi)}}})
			for k := 0; k < callee.params[i].hi; k++ {
				out = append(out, S(As(Ix(V(n), N(int64(k))), g.constant())))
			}
			a = V(n)
		}
		args = append(args, a)
	}
	call := C(callee.name, args...)
	if r.P(1, 5) {
		h := g.localName("h")
		out = append(out, &Node{K: Auto, Kids: []*Node{{K: Decl, Name: h, Val: -1}}}, S(As(V(h), V(callee.name))))
		call.Kids[0] = V(h)
	}
	if sig.ret {
		t := g.localName("t")
		out = append(out, &Node{K: Auto, Kids: []*Node{{K: Decl, Name: t, Val: -1}}})
		tv := &gvar{name: t, kind: vInt}
		out = append(out, S(As(V(t), call)))
		if r.P(1, 4) && len(args) > 0 && !sig.deep && !callee.deep {
			out = append(out, S(&Node{K: Assign, Op: "+", Kids: []*Node{V(t), call.Clone()}}))
			c.cost *= 3
		}
		c.vars = append(c.vars, tv)
		out = append(out, S(&Node{K: Assign, Op: "+", Kids: []*Node{V(t), B("+", Ix(V(v), N(0)), Ix(V(v), num(hi)))}}))
	} else {
		out = append(out, S(call))
	}
	if !sig.pure {
		out = append(out, S(C("printf", L("%d:%d "), V(sig.params[0].name), Ix(V(v), num(hi)))))
	}
	return out
}

// finishBody adds the extrn declarations and wraps the statements.
func (g *Gen) finishBody(body []*Node) *Node {
	c := g.c
	var names []string
	for _, v := range g.globs {
		if c.used[v.name] {
			names = append(names, v.name)
		}
	}
	if c.used["fout"] {
		names = append(names, "fout")
	}
	g.R.Shuffle(len(names), func(i, j int) { names[i], names[j] = names[j], names[i] })
	var pre []*Node
	for len(names) > 0 {
		k := g.R.Range(1, len(names))
		pre = append(pre, &Node{K: Extrn, Names: names[:k:k]})
		names = names[k:]
	}
	body = append(pre, body...)
	if len(body) == 1 && g.R.P(1, 2) && body[0].K != Auto && body[0].K != Extrn {
		return body[0]
	}
	return Blk(body...)
}

func (g *Gen) mainFunc() {
	r := g.R
	sig := &fsig{name: "main"}
	c := g.begin(sig)
	c.inMain = true
	c.budget = r.Range(3, 3+g.P.Budget)
	body := g.stmts(c.budget)
	// dump everything that can be observed
	if r.P(5, 6) {
		body = append(body, g.dump()...)
	}
	switch r.Pick(5, 4, 2, 2) {
	case 0:
		body = append(body, &Node{K: Return, Kids: []*Node{g.expr(newEff(), 2)}})
	case 1:
	case 2:
		body = append(body, &Node{K: Return})
	case 3:
		body = append(body, S(C("exit")))
	}
	if r.P(1, 25) {
		// the program is to run for ever
		s := &Node{K: Spin, Name: g.localName("spin"), Aux: r.N(len(Spins))}
		if r.P(1, 2) {
			// in another function
			f := &Func{Name: g.fresh("spin"), Body: Blk(s)}
			for c.used["\x00"+f.Name] {
				f.Name = g.fresh("spin")
			}
			if r.P(1, 2) {
				f.Params = []string{"a0"}
				f.Body = Blk(&Node{K: If, Kids: []*Node{V("a0"), &Node{K: Return, Kids: []*Node{V("a0")}}}}, s)
				if r.P(1, 2) {
					f.Body = Blk(&Node{K: If, Kids: []*Node{B("==", V("a0"), N(0)), s}}, &Node{K: Return, Kids: []*Node{V("a0")}})
				}
				s = S(C(f.Name, N(0)))
			} else {
				s = S(C(f.Name))
			}
			g.prog.Tops = append(g.prog.Tops, Top{F: f})
		}
		body = body[:len(body):len(body)]
		if n := len(body); n > 0 && (body[n-1].K == Return || body[n-1].K == ExprS) && r.P(2, 3) {
			last := body[n-1]
			body = append(body[:n-1:n-1], s)
			if r.P(1, 2) {
				body = append(body, last)
			}
		} else {
			body = append(body, s)
		}
	}
	if r.P(1, 10) {
		body = g.again(body)
	}
	f := &Func{Name: "main", Body: g.finishBody(body)}
	g.prog.Tops = append(g.prog.Tops, Top{F: f})
}

// again has main called again by the program, a few times in all.
func (g *Gen) again(body []*Node) []*Node {
	r := g.R
	name := func(s string) string {
		n := g.fresh(s)
		for g.c.used["\x00"+n] {
			n = g.fresh(s)
		}
		return n
	}
	gm := name("gm")
	g.prog.Tops = append(g.prog.Tops, Top{G: &Global{Name: gm, Size: -1}})
	call := C("main")
	if r.P(1, 3) {
		f := &Func{Name: name("fm"), Body: Blk(&Node{K: ExprS, Kids: []*Node{call}})}
		g.prog.Tops = append(g.prog.Tops, Top{F: f})
		call = C(f.Name)
	}
	n := N(int64(r.Range(1, 2)))
	then := []*Node{S(call)}
	if r.P(1, 2) {
		then = append(then, printf("m%d\n", V(gm)))
	}
	again := &Node{K: If, Kids: []*Node{B("<", &Node{K: PostInc, Op: "++", Kids: []*Node{V(gm)}}, n), Blk(then...)}}
	out := []*Node{{K: Extrn, Names: []string{gm}}}
	at := 0
	if k := len(body); k > 0 && body[k-1].K != Return && r.P(1, 3) {
		at = k
	}
	out = append(out, body[:at]...)
	out = append(out, again)
	return append(out, body[at:]...)
}

func (g *Gen) dump() []*Node {
	r := g.R
	c := g.c
	var out []*Node
	for _, v := range g.globs {
		if !r.P(3, 4) {
			continue
		}
		c.used[v.name] = true
		switch v.kind {
		case vInt:
			out = append(out, S(C("printf", L(v.name+"=%d\n"), V(v.name))))
		case vStr:
			out = append(out, S(C("printf", L("%s\n"), V(v.name))))
		case vVec, vMulti:
			i := g.localName("d")
			base := V(v.name)
			if v.kind == vMulti {
				base = &Node{K: Addr, Kids: []*Node{V(v.name)}}
			}
			ix := Ix(base, V(i))
			out = append(out, &Node{K: Auto, Kids: []*Node{{K: Decl, Name: i, Val: -1}}})
			out = append(out, &Node{K: While, Kids: []*Node{B("<", V(i), N(int64(v.hi))),
				Blk(S(C("printd", ix)), S(C("write", &Node{K: Num, Aux: 2, Str: []byte{' '}, Val: 32})), S(&Node{K: PostInc, Op: "++", Kids: []*Node{V(i)}}))}})
			c.cost += v.hi * 8
		case vSVec:
			k := r.N(v.hi)
			out = append(out, S(C("printf", L("[%s]\n"), Ix(V(v.name), N(int64(k))))))
		case vBuf:
			out = append(out, S(C("nwrite", N(int64(r.Range(1, 2))), V(v.name), N(int64(v.hi)))))
		}
	}
	for _, v := range c.vars {
		if v.kind == vInt && !v.global && r.P(1, 2) {
			out = append(out, S(C("printf", L(" %d"), V(v.name))))
		}
	}
	return out
}
