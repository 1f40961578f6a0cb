package bl

import (
	"fmt"

	"vsim/kern"
)

// ---- statements

func autoDecl(name string, size int64) *Node {
	return &Node{K: Auto, Kids: []*Node{{K: Decl, Name: name, Val: size}}}
}

func (g *Gen) label() string {
	g.c.labels++
	if g.R.P(1, 12) {
		return g.localName([]string{"entry", "end", "then", "case", "L"}[g.R.N(5)] + "_")
	}
	return g.localName("L")
}

// scope runs fn and then forgets the variables it declared.
func (g *Gen) scope(fn func()) {
	n := len(g.c.vars)
	fn()
	g.c.vars = g.c.vars[:n:n]
}

// stmts makes about n statements, visible declarations staying in scope.
func (g *Gen) stmts(n int) []*Node {
	var out []*Node
	r := g.R
	if r.P(3, 4) {
		out = append(out, g.autos()...)
	}
	for i := 0; i < n; i++ {
		out = append(out, g.stmt()...)
	}
	return out
}

// body makes a nested statement.
func (g *Gen) body(n int) *Node {
	var l []*Node
	g.c.nest++
	g.scope(func() {
		if g.R.N(10) < g.P.Locals {
			l = append(l, g.autos()...)
		}
		for i := 0; i < n; i++ {
			l = append(l, g.stmt()...)
		}
	})
	g.c.nest--
	if len(l) == 1 && l[0].K != Auto && g.R.P(1, 2) {
		return l[0]
	}
	if len(l) == 0 && g.R.P(1, 2) {
		return &Node{K: Null}
	}
	return Blk(l...)
}

// autos declares some locals, with their initialisation where needed.
func (g *Gen) autos() []*Node {
	r := g.R
	c := g.c
	a := &Node{K: Auto}
	var post []*Node
	n := r.Range(1, 3)
	var add []*gvar
	for i := 0; i < n; i++ {
		switch r.Pick(10, 4, 3, 2, 2, 2) {
		case 0:
			v := &gvar{name: g.localName("a"), kind: vInt, taken: r.P(1, 6)}
			a.Kids = append(a.Kids, &Node{K: Decl, Name: v.name, Val: -1})
			add = append(add, v)
		case 1:
			v := &gvar{name: g.localName("v"), kind: vVec, hi: r.Range(1, 6)}
			d := &Node{K: Decl, Name: v.name, Val: int64(v.hi)}
			switch {
			case v.hi == 1 && r.P(1, 2):
				d.Aux = 1
				if r.P(1, 2) {
					d.Aux, d.Val = 0, 0
				}
			case r.P(1, 12):
				d.Aux, d.Str = 2, []byte{byte(r.Range(33, 38))}
				v.hi = int(d.Str[0])
				d.Val = int64(v.hi)
			case r.P(1, 10):
				v.hi = r.Range(20, 60)
				d.Val = int64(v.hi)
			}
			a.Kids = append(a.Kids, d)
			post = append(post, g.fill(v)...)
			add = append(add, v)
		case 2: // a pointer
			e := newEffNC()
			l := g.vis(e, func(v *gvar) bool { return v.kind == vVec || v.kind == vMulti })
			t := g.pick(l)
			if t == nil {
				continue
			}
			k := r.N(t.hi)
			v := &gvar{name: g.localName("q"), kind: vPtr, lo: -k, hi: t.hi - k, locked: true}
			if t.kind == vVec && t.hi > 300 {
				continue
			}
			var src *Node
			switch {
			case t.kind == vMulti && k == 0:
				src = &Node{K: Addr, Kids: []*Node{g.use(e, t)}}
			case t.kind == vMulti:
				src = &Node{K: Addr, Kids: []*Node{Ix(&Node{K: Addr, Kids: []*Node{g.use(e, t)}}, N(int64(k)))}}
			case k == 0:
				src = g.use(e, t)
			default:
				src = &Node{K: Addr, Kids: []*Node{Ix(g.use(e, t), N(int64(k)))}}
			}
			if v.lo < 0 {
				v.lo = -k
			}
			a.Kids = append(a.Kids, &Node{K: Decl, Name: v.name, Val: -1})
			post = append(post, S(As(V(v.name), src)))
			add = append(add, v)
		case 3: // a string
			v := &gvar{name: g.localName("s"), kind: vStr, locked: true}
			s := g.str(2)
			v.minStr = len(s.Str)
			a.Kids = append(a.Kids, &Node{K: Decl, Name: v.name, Val: -1})
			post = append(post, S(As(V(v.name), s)))
			add = append(add, v)
		case 4: // a function pointer, or a vector of them
			f := g.pickFn()
			if f == nil {
				continue
			}
			v := &gvar{name: g.localName("h"), kind: vFn, fn: f, locked: true}
			if r.P(1, 3) {
				v.kind, v.hi = vFVec, r.Range(1, 3)
				a.Kids = append(a.Kids, &Node{K: Decl, Name: v.name, Val: int64(v.hi)})
				for i := 0; i < v.hi; i++ {
					post = append(post, S(As(Ix(V(v.name), N(int64(i))), V(f.name))))
				}
			} else {
				a.Kids = append(a.Kids, &Node{K: Decl, Name: v.name, Val: -1})
				post = append(post, S(As(V(v.name), V(f.name))))
			}
			add = append(add, v)
		case 5: // a byte buffer
			v := &gvar{name: g.localName("b"), kind: vBuf}
			w := r.Range(1, 5)
			v.hi = w * 8
			a.Kids = append(a.Kids, &Node{K: Decl, Name: v.name, Val: int64(w)})
			for i := 0; i < w; i++ {
				post = append(post, S(As(Ix(V(v.name), N(int64(i))), g.constant())))
			}
			add = append(add, v)
		}
	}
	if len(a.Kids) == 0 {
		return nil
	}
	c.vars = append(c.vars, add...)
	c.cost += c.mult * (len(post) + 1)
	return append([]*Node{a}, post...)
}

// fill initialises a local vector.
func (g *Gen) fill(v *gvar) []*Node {
	r := g.R
	c := g.c
	if v.hi <= 4 && r.P(2, 3) {
		var l []*Node
		for i := 0; i < v.hi; i++ {
			l = append(l, S(As(Ix(V(v.name), N(int64(i))), g.expr(newEffNC(), r.N(2)))))
		}
		return l
	}
	i := g.localName("i")
	c.cost += c.mult * v.hi * 2
	decl := autoDecl(i, -1)
	val := g.expr(newEffNC(), 1)
	inc := &Node{K: PostInc, Op: "++", Kids: []*Node{V(i)}}
	if r.P(1, 2) {
		// v[i++] = constant
		return []*Node{decl, {K: While, Kids: []*Node{B("<", V(i), N(int64(v.hi))), S(As(Ix(V(v.name), inc), val))}}}
	}
	return []*Node{decl, {K: While, Kids: []*Node{B("!=", V(i), N(int64(v.hi))),
		Blk(S(As(Ix(V(v.name), V(i)), B("+", val, V(i)))), S(inc))}}}
}

func (g *Gen) stmt() []*Node {
	r := g.R
	c := g.c
	c.cost += c.mult
	if c.cost > g.maxCost/4 {
		return []*Node{{K: Null}}
	}
	p := g.P
	deep := 0
	if c.nest < 4 {
		deep = 1
	}
	pr, io, raw, ex, fo := p.Prints, p.IO, p.Raw, p.Exit, p.Fout
	if c.pure {
		pr, io, raw, ex, fo = 0, 0, 0, 0, 0
	}
	if p.NoRead {
		io = 0
	}
	if c.mult > 500 && !r.P(1, 12) {
		pr, io, raw = 0, 0, 0
	}
	switch r.Pick(30, pr, 8*deep, p.Loops*deep, p.SwitchW*deep, p.Goto, io, raw, 4, 3*deep, p.Calls*2, fo, ex, 2, 1+p.Returns, p.Locals/2, p.Idioms) {
	case 0:
		return g.assign()
	case 1:
		return g.print()
	case 2:
		return g.ifStmt()
	case 3:
		return g.loop()
	case 4:
		return g.switchStmt()
	case 5:
		return g.gotoStmt()
	case 6:
		return g.readStmt()
	case 7:
		return g.rawIO()
	case 8: // increment statement
		e := newEff()
		if v := g.pick(g.vis(e, func(v *gvar) bool { return isInt(v) && !v.locked && g.mayWrite(e, v) })); v != nil {
			g.noteWrite(e, v)
			return []*Node{S(g.inc(V(v.name)))}
		}
	case 9:
		return []*Node{g.body(r.Range(0, 3))}
	case 10:
		return g.callStmt()
	case 11:
		c.used["fout"] = true
		var val *Node
		if r.P(1, 4) {
			val = B("&", g.expr(newEff(), 1), N(1))
		} else {
			val = N(int64(r.N(2)))
		}
		return []*Node{S(As(V("fout"), val))}
	case 12:
		if r.P(1, 12) {
			return []*Node{S(C("exit"))}
		}
		if c.nest > 0 || r.N(30) < p.Exit {
			return []*Node{{K: If, Kids: []*Node{B("==", g.expr(newEff(), 1), N(int64(r.N(5)))), S(C("exit"))}}}
		}
	case 13:
		return []*Node{S(g.expr(newEff(), 2))}
	case 14:
		if c.nest > 0 || r.N(30) < p.Returns {
			return g.ret()
		}
		return []*Node{{K: Null}}
	case 15:
		if a := g.autos(); a != nil {
			return a
		}
	case 16:
		if c.mult <= 500 {
			return g.idiom()
		}
	}
	return g.assign()
}

func (g *Gen) ret() []*Node {
	n := &Node{K: Return}
	if g.c.sig.ret || g.c.inMain {
		n.Kids = []*Node{g.expr(newEff(), 2)}
	}
	if g.R.P(1, 12) {
		return []*Node{n} // what follows is dead code
	}
	return []*Node{{K: If, Kids: []*Node{B("==", g.expr(newEff(), 1), N(int64(g.R.N(4)))), n}}}
}

func (g *Gen) assign() []*Node {
	r := g.R
	e := newEff()
	op := ""
	if r.P(1, 3) {
		op = g.safeOp()
	}
	// memory target
	if r.P(2, 5) {
		lv := g.elem(e, 1, true)
		if lv != nil {
			e.memR = true
			if op != "" || r.P(1, 2) {
				e.noCalls = e.noCalls || op != ""
				f := *e
				f.memW = false
				rhs := g.rhs(e, op, g.P.Depth)
				if e.memW && op != "" {
					return []*Node{S(rhs)}
				}
				return []*Node{S(&Node{K: Assign, Op: op, Kids: []*Node{lv, rhs}})}
			}
			return []*Node{S(As(lv, g.expr(e, g.P.Depth)))}
		}
	}
	v := g.pick(g.vis(e, func(v *gvar) bool { return isInt(v) && !v.locked && !(g.c.pure && v.global) }))
	if v == nil {
		if g.c.pure {
			return []*Node{S(g.expr(e, 1))}
		}
		return g.print()
	}
	if v.global {
		g.c.used[v.name] = true
	}
	rhs := g.rhs(e, op, g.P.Depth)
	if op != "" && (v.mem() && e.memW || e.wrote[v.name]) {
		op = ""
	}
	if e.wrote[v.name] && !v.mem() {
		return []*Node{S(rhs)}
	}
	return []*Node{S(&Node{K: Assign, Op: op, Kids: []*Node{V(v.name), rhs}})}
}

func (g *Gen) print() []*Node {
	r := g.R
	c := g.c
	if c.pure {
		return []*Node{{K: Null}}
	}
	e := newEff()
	c.cost += c.mult * 3
	switch r.Pick(10, 4, 2, 3, 2, 2, 1) {
	case 0:
		f := ""
		var args []*Node
		for k := r.Range(1, 4); k > 0; k-- {
			switch r.Pick(8, 3, 3, 3, 1, 3) {
			case 0:
				f += "%d"
				args = append(args, g.expr(e, r.Range(0, g.P.Depth)))
			case 1:
				f += "%o"
				args = append(args, g.expr(e, 1))
			case 2:
				f += "%c"
				args = append(args, g.charArg(e))
			case 3:
				f += "%s"
				if v := g.pick(g.vis(e, func(v *gvar) bool { return v.kind == vStr })); v != nil && r.P(1, 2) {
					args = append(args, g.use(e, v))
				} else if v := g.pick(g.vis(e, func(v *gvar) bool { return v.kind == vSVec })); v != nil && r.P(1, 2) {
					args = append(args, Ix(g.use(e, v), g.index(e, v.hi, 0)))
					e.memR = true
				} else {
					args = append(args, g.str(0))
				}
			case 4:
				f += []string{"%%", "%x", "%", "%?"}[r.N(4)]
			case 5:
				f += string(g.str(0).Str)
			}
			if r.P(1, 2) {
				f += " "
			}
		}
		if r.P(1, 2) {
			f += "\n"
		}
		return []*Node{S(C("printf", append([]*Node{L(f)}, args...)...))}
	case 1:
		return []*Node{S(C("write", g.charArg(e)))}
	case 2:
		return []*Node{S(C("writeb", g.expr(e, 1)))}
	case 3:
		return []*Node{S(C("printd", g.expr(e, g.P.Depth)))}
	case 4:
		return []*Node{S(C("printo", g.expr(e, g.P.Depth)))}
	case 5: // characters through a loop over a string
		s := g.localName("s")
		i := g.localName("i")
		ch := g.localName("c")
		_ = ch
		lit := g.str(1)
		return []*Node{{K: Auto, Kids: []*Node{{K: Decl, Name: s, Val: -1}, {K: Decl, Name: i, Val: -1}, {K: Decl, Name: ch, Val: -1}}},
			S(As(V(s), lit)),
			{K: While, Kids: []*Node{B("!=", As(V(ch), C("char", V(s), &Node{K: PostInc, Op: "++", Kids: []*Node{V(i)}})), N(0)), S(C("write", V(ch)))}}}
	}
	return []*Node{S(C("flush"))}
}

func (g *Gen) charArg(e *eff) *Node {
	r := g.R
	switch r.N(4) {
	case 0:
		return g.expr(e, 1)
	case 1:
		n := r.Range(1, 8)
		b := make([]byte, n)
		for i := range b {
			b[i] = g.char()
		}
		return &Node{K: Num, Aux: 2, Str: b, Val: CharVal(b)}
	}
	b := []byte{g.char()}
	return &Node{K: Num, Aux: 2, Str: b, Val: CharVal(b)}
}

func (g *Gen) ifStmt() []*Node {
	r := g.R
	n := &Node{K: If, Kids: []*Node{g.expr(newEff(), 2), g.body(r.Range(0, 3))}}
	if r.P(1, 2) {
		n.Kids = append(n.Kids, g.body(r.Range(0, 3)))
		if r.P(1, 3) {
			// an else-if chain
			n.Kids[2] = &Node{K: If, Kids: []*Node{g.expr(newEff(), 1), n.Kids[2], g.body(1)}}
		}
	}
	return []*Node{n}
}

// loop makes a terminating loop in one of many shapes.
func (g *Gen) loop() []*Node {
	r := g.R
	c := g.c
	n := r.Range(1, 6)
	if g.P.BigLoops && c.nest == 0 && c.mult == 1 && r.P(1, 2) {
		n = r.Range(8000, 30000)
	}
	if c.mult*n*4 > g.maxCost/8 {
		n = 2
	}
	i := &gvar{name: g.localName("i"), kind: vInt, locked: true}
	out := []*Node{autoDecl(i.name, -1)}
	inc := func() *Node {
		switch r.N(4) {
		case 0:
			return S(&Node{K: PreInc, Op: "++", Kids: []*Node{V(i.name)}})
		case 1:
			return S(&Node{K: Assign, Op: "+", Kids: []*Node{V(i.name), N(1)}})
		case 2:
			return S(As(V(i.name), B("+", V(i.name), N(1))))
		}
		return S(&Node{K: PostInc, Op: "++", Kids: []*Node{V(i.name)}})
	}
	mult := c.mult
	c.mult *= n
	exit, cont := "", ""
	if r.N(10) < g.P.Goto {
		exit = g.label()
	}
	if r.N(14) < g.P.Goto {
		cont = g.label()
	}
	mk := func() []*Node {
		var l []*Node
		c.exits = append(c.exits, exit)
		c.conts = append(c.conts, cont)
		c.nest++
		g.scope(func() {
			c.vars = append(c.vars, i)
			if r.N(10) < g.P.Locals+2 {
				l = append(l, g.autos()...)
			}
			for k := r.Range(0, 3); k >= 0; k-- {
				l = append(l, g.stmt()...)
			}
			if r.P(1, 3) && !c.pure && c.mult <= 500 {
				l = append(l, g.print()...)
			}
		})
		c.nest--
		c.exits = c.exits[:len(c.exits)-1]
		c.conts = c.conts[:len(c.conts)-1]
		if cont != "" {
			l = append(l, &Node{K: Label, Name: cont, Kids: []*Node{{K: Null}}})
		}
		return l
	}
	lim := N(int64(n))
	switch r.Pick(6, 3, 3, 3, 2, 2) {
	case 0:
		i.max = n
		if r.P(1, 2) {
			out = append(out, S(As(V(i.name), N(0))))
		}
		l := mk()
		out = append(out, &Node{K: While, Kids: []*Node{B("<", V(i.name), lim), Blk(append(l, inc())...)}})
	case 1: // counting down
		out = append(out, S(As(V(i.name), lim)))
		i.max = n
		if r.P(1, 2) {
			out = append(out, &Node{K: While, Kids: []*Node{{K: PostInc, Op: "--", Kids: []*Node{V(i.name)}}, Blk(mk()...)}})
		} else {
			i.max = n + 1
			out = append(out, &Node{K: While, Kids: []*Node{V(i.name), Blk(append(mk(), S(&Node{K: Assign, Op: "-", Kids: []*Node{V(i.name), N(1)}}))...)}})
		}
	case 2:
		i.max = n + 1
		out = append(out, &Node{K: While, Kids: []*Node{B("<=", &Node{K: PreInc, Op: "++", Kids: []*Node{V(i.name)}}, lim), Blk(mk()...)}})
	case 3: // a goto loop
		top := g.label()
		i.max = n
		l := mk()
		first := &Node{K: Null}
		if len(l) > 0 && l[0].K != Auto && l[0].K != Label {
			first, l = l[0], l[1:]
		}
		out = append(out, &Node{K: Label, Name: top, Kids: []*Node{first}})
		out = append(out, l...)
		out = append(out, &Node{K: If, Kids: []*Node{B("<", &Node{K: PreInc, Op: "++", Kids: []*Node{V(i.name)}}, lim), &Node{K: Goto, Name: top}}})
	case 4: // test in the middle
		top, end := g.label(), g.label()
		i.max = n
		a, b := mk(), []*Node(nil)
		out = append(out, &Node{K: Label, Name: top, Kids: []*Node{{K: If, Kids: []*Node{B(">=", V(i.name), lim), &Node{K: Goto, Name: end}}}}})
		out = append(out, a...)
		out = append(out, b...)
		out = append(out, inc(), &Node{K: Goto, Name: top}, &Node{K: Label, Name: end, Kids: []*Node{{K: Null}}})
	case 5: // jump into the loop
		mid := g.label()
		i.max = n + 1
		var l []*Node
		g.scope(func() { l = mk() })
		out = append(out, &Node{K: Goto, Name: mid}, &Node{K: While, Kids: []*Node{B("<", V(i.name), lim), Blk(append(l, &Node{K: Label, Name: mid, Kids: []*Node{inc()}})...)}})
	}
	c.mult = mult
	if exit != "" {
		out = append(out, &Node{K: Label, Name: exit, Kids: []*Node{{K: Null}}})
	}
	if r.P(1, 3) {
		c.vars = append(c.vars, &gvar{name: i.name, kind: vInt})
	}
	return out
}

func (g *Gen) switchStmt() []*Node {
	r := g.R
	c := g.c
	k := r.Range(1, 5)
	m := int64([]int{1, 3, 7, 7, 15}[r.N(5)])
	sel := B("&", g.expr(newEff(), 2), N(m))
	if r.P(1, 6) {
		sel = g.expr(newEff(), 2)
	}
	end := ""
	if r.P(1, 2) {
		end = g.label()
	}
	seen := map[int64]bool{}
	var l []*Node
	g.scope(func() {
		c.nest++
		if r.P(1, 8) {
			l = append(l, g.stmt()...) // unreachable, before the first case
		}
		for i := 0; i < k; i++ {
			v := &Node{K: Case, Val: int64(r.N(int(m) + 2))}
			if r.P(1, 8) {
				b := []byte{g.char()}
				v.Aux, v.Str, v.Val = 2, b, CharVal(b)
			} else if r.P(1, 12) {
				v.Val = int64(r.U64() >> 1)
			} else if r.P(1, 8) {
				v.Aux = 1
			}
			if seen[v.Val] {
				continue
			}
			seen[v.Val] = true
			if r.P(1, 6) {
				v.Kids = []*Node{{K: Null}}
				l = append(l, v)
			} else {
				b := g.stmt()
				if b[0].K == Auto || b[0].K == Label {
					v.Kids = []*Node{{K: Null}}
					l = append(l, v)
					l = append(l, b...)
				} else {
					v.Kids = []*Node{b[0]}
					l = append(l, v)
					l = append(l, b[1:]...)
				}
			}
			for j := r.N(2); j > 0; j-- {
				l = append(l, g.stmt()...)
			}
			if end != "" && r.P(2, 3) {
				l = append(l, &Node{K: Goto, Name: end})
			}
			if r.P(1, 10) {
				// a nested block with a case of the same switch
				w := int64(20 + i)
				if !seen[w] {
					seen[w] = true
					l = append(l, Blk(&Node{K: Case, Val: w, Kids: []*Node{{K: Null}}}, g.stmtOne()))
				}
			}
		}
		c.nest--
	})
	out := []*Node{{K: Switch, Kids: []*Node{sel, Blk(l...)}}}
	if end != "" {
		out = append(out, &Node{K: Label, Name: end, Kids: []*Node{{K: Null}}})
	}
	return out
}

func (g *Gen) stmtOne() *Node {
	s := g.stmt()
	if len(s) == 1 {
		return s[0]
	}
	return Blk(s...)
}

func (g *Gen) gotoStmt() []*Node {
	r := g.R
	c := g.c
	// leave or continue an enclosing loop
	if len(c.exits) > 0 && r.P(2, 3) {
		k := r.N(len(c.exits))
		l := c.exits[k]
		if r.P(1, 2) {
			l = c.conts[k]
		}
		if l != "" {
			return []*Node{{K: If, Kids: []*Node{B("==", B("&", g.expr(newEff(), 1), N(3)), N(int64(r.N(4)))), &Node{K: Goto, Name: l}}}}
		}
	}
	// forward over some statements
	l := g.label()
	var skipped []*Node
	g.scope(func() {
		for k := r.Range(0, 2); k >= 0; k-- {
			skipped = append(skipped, g.stmt()...)
		}
	})
	var out []*Node
	if r.P(1, 3) {
		out = append(out, &Node{K: Goto, Name: l})
	} else {
		out = append(out, &Node{K: If, Kids: []*Node{g.expr(newEff(), 1), &Node{K: Goto, Name: l}}})
	}
	out = append(out, skipped...)
	t := g.stmt()
	if t[0].K == Auto || t[0].K == Label {
		t = append([]*Node{{K: Null}}, t...)
	}
	out = append(out, &Node{K: Label, Name: l, Kids: []*Node{t[0]}})
	return append(out, t[1:]...)
}

func (g *Gen) readStmt() []*Node {
	r := g.R
	c := g.c
	v := g.localName("c")
	gv := &gvar{name: v, kind: vInt}
	n := g.localName("n")
	c.cost += c.mult * 4
	switch r.Pick(4, 3, 2) {
	case 0:
		out := []*Node{autoDecl(v, -1), S(As(V(v), C("read"))), S(C("printf", L("<%d>"), V(v)))}
		c.vars = append(c.vars, gv)
		return out
	case 1: // copy until the end
		if c.mult > 4 {
			break
		}
		c.cost += c.mult * 100
		lim := r.Range(3, 60)
		body := Blk(S(C([]string{"write", "printd", "printo"}[r.Pick(6, 2, 1)], V(v))))
		cond := B("!=", As(V(v), C("read")), N(4))
		return []*Node{{K: Auto, Kids: []*Node{{K: Decl, Name: v, Val: -1}, {K: Decl, Name: n, Val: -1}}},
			{K: While, Kids: []*Node{B("&", B("<", &Node{K: PostInc, Op: "++", Kids: []*Node{V(n)}}, N(int64(lim))), cond), body}},
			S(C("printf", L("[%d]"), V(n)))}
	}
	k := r.Range(1, 4)
	var out []*Node
	for ; k > 0; k-- {
		out = append(out, S(C("printf", L("%d,"), C("read"))))
	}
	return out
}

func (g *Gen) rawIO() []*Node {
	r := g.R
	c := g.c
	c.cost += c.mult * 10
	e := newEff()
	bufs := g.vis(e, func(v *gvar) bool { return v.kind == vBuf })
	b := g.pick(bufs)
	res := g.localName("r")
	switch r.Pick(5, 5, 1, 2) {
	case 0:
		if b == nil {
			break
		}
		fd := []int{0, 0, 0, 3, 5, 7, 99, -1}[r.N(8)]
		if g.P.NoRead {
			fd = 99
		}
		off := r.N(b.hi)
		n := r.N(b.hi - off + 1)
		dst := g.use(e, b)
		if off%8 == 0 && r.P(1, 2) {
			dst = &Node{K: Addr, Kids: []*Node{Ix(dst, N(int64(off/8)))}}
		} else if off > 0 {
			dst = B("+", dst, N(int64(off)))
		}
		count := N(int64(n))
		if b.hi-off >= kern.HugeMost && r.P(1, 6) {
			count = g.hugeCount()
		}
		out := []*Node{autoDecl(res, -1), S(As(V(res), C("nread", N(int64(fd)), dst, count)))}
		out = append(out, S(C("printf", L("{%d}"), V(res))))
		out = append(out, g.bufDump(b)...)
		return out
	case 1:
		fd := []int{1, 2, 1, 4, 6, 8, 99, -1}[r.N(8)]
		var src *Node
		n := 0
		if b != nil && r.P(1, 2) {
			off := r.N(b.hi)
			n = r.N(b.hi - off + 1)
			src = g.use(e, b)
			if off > 0 {
				src = B("+", src, N(int64(off)))
			}
		} else {
			s := g.str(1)
			n = r.N(len(s.Str) + 2)
			src = s
		}
		count := N(int64(n))
		if n >= kern.HugeMost && r.P(1, 6) {
			count = g.hugeCount()
		}
		call := C("nwrite", N(int64(fd)), src, count)
		return []*Node{autoDecl(res, -1), S(As(V(res), call)), S(C("printf", L("{%d}"), V(res)))}
	case 2: // an invalid address
		return []*Node{autoDecl(res, -1), S(As(V(res), C("nread", N(0), N(0), N(int64(r.Range(1, 9)))))), S(C("printf", L("{%d}"), V(res)))}
	case 3:
		if b == nil {
			break
		}
		ex := g.expr(e, 1)
		return []*Node{S(C("lchar", g.use(e, b), N(int64(r.N(b.hi))), ex))}
	}
	return g.print()
}

// hugeCount is a count longer than any buffer, or negative.
func (g *Gen) hugeCount() *Node {
	r := g.R
	if r.P(1, 3) {
		return g.word(-int64(r.U64()>>uint(1+r.N(63))) - 1)
	}
	return g.word(int64(kern.Huge+1) + int64(r.U64()>>uint(2+r.N(42))))
}

// bufDump prints a buffer as words and bytes.
func (g *Gen) bufDump(b *gvar) []*Node {
	r := g.R
	i := g.localName("j")
	if b.global {
		g.c.used[b.name] = true
	}
	g.c.cost += g.c.mult * b.hi
	if r.P(1, 2) {
		var f string
		var args []*Node
		for k := 0; k < b.hi/8; k++ {
			f += "%d "
			args = append(args, Ix(V(b.name), N(int64(k))))
		}
		return []*Node{S(C("printf", append([]*Node{L(f)}, args...)...))}
	}
	return []*Node{autoDecl(i, -1), {K: While, Kids: []*Node{B("<", V(i), N(int64(b.hi))), S(C("printf", L("%o "), C("char", V(b.name), &Node{K: PostInc, Op: "++", Kids: []*Node{V(i)}})))}}}
}

func (g *Gen) callStmt() []*Node {
	r := g.R
	e := newEff()
	if x := g.callExpr(e, 1); x != nil && r.P(1, 2) {
		if g.c.pure {
			return []*Node{S(x)}
		}
		return []*Node{S(C("printf", L(fmt.Sprintf("c%d ", r.N(10))+"%d "), x))}
	}
	e = newEff()
	var l []*fsig
	for _, f := range g.funcs {
		if f.defined && (f.pure || !g.c.pure) {
			l = append(l, f)
		}
	}
	if len(l) == 0 {
		return g.assign()
	}
	f := l[r.N(len(l))]
	if !g.afford(e, f.cost) {
		return g.assign()
	}
	args := g.args(e, f)
	if args == nil || e.memW {
		return g.assign()
	}
	return []*Node{S(C(f.name, args...))}
}
