package bl

// ---- expressions

var binOps = []string{"+", "-", "*", "/", "%", "<<", ">>", "<", "<=", ">", ">=", "==", "!=", "&", "|"}

// vis lists the variables of a kind that may be read under e.
func (g *Gen) vis(e *eff, ok func(*gvar) bool) []*gvar {
	var l []*gvar
	for _, v := range g.c.vars {
		if ok(v) && (v.mem() && !e.memW || !v.mem() && !e.wrote[v.name]) {
			l = append(l, v)
		}
	}
	if !e.memW {
		for _, v := range g.globs {
			if ok(v) {
				l = append(l, v)
			}
		}
	}
	return l
}

func (g *Gen) pick(l []*gvar) *gvar {
	if len(l) == 0 {
		return nil
	}
	return l[g.R.N(len(l))]
}

// use notes a read of v.
func (g *Gen) use(e *eff, v *gvar) *Node {
	if v.global {
		g.c.used[v.name] = true
	}
	if v.mem() {
		e.memR = true
	} else {
		e.read[v.name] = true
	}
	return V(v.name)
}

func isInt(v *gvar) bool { return v.kind == vInt }

// index makes an expression with a value in 0..n-1.
func (g *Gen) index(e *eff, n int, depth int) *Node {
	r := g.R
	if n <= 1 {
		if r.P(1, 6) {
			return B("-", N(3), N(3))
		}
		return N(0)
	}
	switch r.Pick(4, 3, 4) {
	case 1:
		if depth > 0 {
			m := 1
			for m*2 <= n {
				m *= 2
			}
			if m == n || r.P(1, 2) {
				return B("&", g.expr(e, depth-1), N(int64(m-1)))
			}
			return B("%", B("&", g.expr(e, depth-1), N(int64(r.Range(n, 4*n)))), N(int64(n)))
		}
	case 2:
		if v := g.pick(g.vis(e, func(v *gvar) bool { return v.kind == vInt && v.max > 0 && v.max <= n && v.locked })); v != nil {
			return g.use(e, v)
		}
	}
	return N(int64(r.N(n)))
}

// elem makes an lvalue for an initialised word in memory; the caller accounts
// for the access itself.
func (g *Gen) elem(e *eff, depth int, write bool) *Node {
	r := g.R
	l := g.vis(e, func(v *gvar) bool {
		return v.kind == vVec || v.kind == vPtr && v.hi > v.lo || v.kind == vMulti || v.kind == vInt && v.taken && !(write && v.locked)
	})
	v := g.pick(l)
	if v == nil {
		return nil
	}
	if write && g.c.pure && !g.ownVec(v) {
		return nil
	}
	switch v.kind {
	case vInt:
		return &Node{K: Deref, Kids: []*Node{{K: Addr, Kids: []*Node{g.use(e, v)}}}}
	case vMulti:
		a := &Node{K: Addr, Kids: []*Node{g.use(e, v)}}
		return Ix(a, g.index(e, v.hi, depth))
	case vVec:
		base := g.use(e, v)
		switch r.N(8) {
		case 0:
			return &Node{K: Deref, Kids: []*Node{base}}
		case 1:
			// through the address of an element
			k := r.N(v.hi)
			a := &Node{K: Addr, Kids: []*Node{Ix(base, N(int64(k)))}}
			return Ix(a, N(int64(r.N(v.hi)-k)))
		case 2:
			k := g.index(e, v.hi, depth)
			return &Node{K: Deref, Kids: []*Node{{K: Addr, Kids: []*Node{Ix(base, k)}}}}
		}
		return Ix(base, g.index(e, v.hi, depth))
	}
	base := g.use(e, v)
	if v.lo <= 0 && v.hi > 0 && r.P(1, 5) {
		return &Node{K: Deref, Kids: []*Node{base}}
	}
	if v.lo >= 0 {
		return Ix(base, g.index(e, v.hi, depth))
	}
	return Ix(base, N(int64(v.lo+r.N(v.hi-v.lo))))
}

// ownVec: a vector that belongs to this activation.
func (g *Gen) ownVec(v *gvar) bool { return !v.global && (v.kind == vVec || v.kind == vInt && v.taken) }

// expr makes an int expression.
func (g *Gen) expr(e *eff, depth int) *Node {
	r := g.R
	if depth <= 0 {
		switch r.Pick(4, 8, 3) {
		case 1:
			if v := g.pick(g.vis(e, isInt)); v != nil {
				return g.use(e, v)
			}
		case 2:
			if !e.memW {
				if x := g.elem(e, 0, false); x != nil {
					e.memR = true
					return x
				}
			}
		}
		return g.constant()
	}
	d := depth - 1
	switch r.Pick(6, 22, 4, 4, 4, 3, 3, 4, 3, g.P.Calls, 3, 1, 2) {
	case 0:
		return g.expr(e, 0)
	case 1:
		return g.bin(e, d)
	case 2:
		return &Node{K: Unary, Op: []string{"-", "!"}[r.N(2)], Kids: []*Node{g.expr(e, d)}}
	case 3:
		return g.cond(e, d)
	case 4:
		if !e.memW {
			if x := g.elem(e, d, false); x != nil {
				e.memR = true
				return x
			}
		}
	case 5: // nested assignment
		if v := g.pick(g.vis(e, func(v *gvar) bool { return isInt(v) && !v.locked && g.mayWrite(e, v) })); v != nil {
			op := ""
			if r.P(1, 3) {
				op = g.safeOp()
			}
			// The variable must not occur in its own right side when the
			// operation is compound; a plain assignment stores last.
			g.noteWrite(e, v)
			rhs := g.rhs(e, op, d)
			return &Node{K: Assign, Op: op, Kids: []*Node{V(v.name), rhs}}
		}
	case 6: // increments
		if v := g.pick(g.vis(e, func(v *gvar) bool { return isInt(v) && !v.locked && g.mayWrite(e, v) })); v != nil {
			g.noteWrite(e, v)
			return g.inc(V(v.name))
		}
	case 7: // string characters
		if v := g.pick(g.vis(e, func(v *gvar) bool { return v.kind == vStr && v.minStr > 0 })); v != nil {
			n := v.minStr
			b := g.use(e, v)
			return C("char", b, g.index(e, n, d))
		}
		if r.P(1, 3) {
			s := g.str(2)
			return C("char", s, N(int64(r.N(len(s.Str)+1))))
		}
	case 8:
		if v := g.pick(g.vis(e, func(v *gvar) bool { return v.kind == vSVec })); v != nil && !e.memW {
			b := g.use(e, v)
			e.memR = true
			return C("char", Ix(b, g.index(e, v.hi, d)), g.index(e, v.minStr, d))
		}
		if v := g.pick(g.vis(e, func(v *gvar) bool { return v.kind == vBuf })); v != nil && !e.memW {
			b := g.use(e, v)
			e.memR = true
			return C("char", b, g.index(e, v.hi, d))
		}
	case 9:
		if x := g.callExpr(e, d); x != nil {
			return x
		}
	case 10: // increments of memory
		if !e.memR && !e.memW && !g.c.pure {
			if x := g.elem(e, 0, true); x != nil && x.K == Index {
				e.memW = true
				return g.inc(x)
			}
		}
	case 11: // pointer equality
		l := g.vis(e, func(v *gvar) bool { return v.kind == vVec || v.kind == vPtr || v.kind == vStr })
		if len(l) > 0 {
			a, b := g.pick(l), g.pick(l)
			if a == b || a.kind == vVec && b.kind == vVec {
				return B([]string{"==", "!="}[r.N(2)], g.use(e, a), g.use(e, b))
			}
		}
	case 12:
		if !g.c.pure && !g.P.NoRead && !e.memR && !e.memW && !e.noCalls && r.N(10) < g.P.IO {
			e.memW = true
			return C("read")
		}
	}
	return g.bin(e, d)
}

func (g *Gen) mayWrite(e *eff, v *gvar) bool {
	if v.mem() {
		return !e.memR && !e.memW && !(g.c.pure && v.global)
	}
	return !e.read[v.name] && !e.wrote[v.name]
}

func (g *Gen) noteWrite(e *eff, v *gvar) {
	if v.global {
		g.c.used[v.name] = true
	}
	if v.mem() {
		e.memW = true
	} else {
		e.wrote[v.name] = true
	}
}

func (g *Gen) inc(lv *Node) *Node {
	k := PreInc
	if g.R.P(1, 2) {
		k = PostInc
	}
	if lv.K == Deref && k == PostInc {
		k = PreInc
	}
	return &Node{K: k, Op: []string{"++", "--"}[g.R.N(2)], Kids: []*Node{lv}}
}

func (g *Gen) safeOp() string { return binOps[g.R.N(len(binOps))] }

// rhs makes a right operand valid for the operator.
func (g *Gen) rhs(e *eff, op string, d int) *Node {
	r := g.R
	switch op {
	case "/", "%":
		switch r.N(4) {
		case 0:
			return N(int64(r.Range(1, 9)))
		case 1:
			return N(-int64(r.Range(2, 9)))
		case 2:
			return N(int64(1) << uint(r.Range(1, 62)))
		}
		return B("+", B("&", g.expr(e, d), N(int64(r.Range(1, 127)))), N(int64(r.Range(1, 5))))
	case "<<", ">>":
		switch r.N(3) {
		case 0, 1:
			return N(int64(r.N(64)))
		}
		return B("&", g.expr(e, d), N(int64([]int{63, 31, 15, 7}[r.N(4)])))
	}
	return g.expr(e, d)
}

func (g *Gen) bin(e *eff, d int) *Node {
	op := g.safeOp()
	a := g.expr(e, d)
	b := g.rhs(e, op, d)
	return B(op, a, b)
}

func (g *Gen) cond(e *eff, d int) *Node {
	q := g.expr(e, d)
	a := g.expr(e, d)
	b := g.expr(e, d)
	return &Node{K: Cond, Kids: []*Node{q, a, b}}
}

// pickFn picks a function usable through a pointer: int parameters only.
func (g *Gen) pickFn() *fsig {
	var l []*fsig
	for _, f := range g.funcs {
		if f.ret && f.pure && !f.sparse && !f.rec && f.cost < 200 {
			ok := true
			for _, p := range f.params {
				if p.kind != vInt {
					ok = false
				}
			}
			if ok {
				l = append(l, f)
			}
		}
	}
	if len(l) == 0 {
		return nil
	}
	return l[g.R.N(len(l))]
}

// argFor makes an argument for a parameter.
func (g *Gen) argFor(e *eff, p *gvar) *Node {
	r := g.R
	switch p.kind {
	case vPtr:
		l := g.vis(e, func(v *gvar) bool {
			return v.kind == vVec && v.hi >= p.hi || v.kind == vPtr && v.lo <= 0 && v.hi >= p.hi || v.kind == vMulti && v.hi >= p.hi || v.kind == vInt && v.taken && p.hi == 1 && !v.locked
		})
		v := g.pick(l)
		if v == nil {
			return nil
		}
		n := g.use(e, v)
		switch v.kind {
		case vMulti, vInt:
			return &Node{K: Addr, Kids: []*Node{n}}
		case vVec:
			if r.P(1, 3) {
				k := r.N(v.hi - p.hi + 1)
				return &Node{K: Addr, Kids: []*Node{Ix(n, N(int64(k)))}}
			}
		}
		return n
	case vStr:
		if v := g.pick(g.vis(e, func(v *gvar) bool { return v.kind == vStr && v.minStr >= p.minStr })); v != nil && r.P(1, 2) {
			return g.use(e, v)
		}
		return g.str(p.minStr)
	case vFn:
		l := g.vis(e, func(v *gvar) bool { return v.kind == vFn && v.fn == p.fn })
		if v := g.pick(l); v != nil && r.P(1, 2) {
			return g.use(e, v)
		}
		// any function of the same number of parameters would do
		for i := 0; i < 3; i++ {
			if f := g.pickFn(); f != nil && (f.unused || len(f.params) == len(p.fn.params) && !p.fn.unused) && f.cost <= p.fn.cost {
				return V(f.name)
			}
		}
		return V(p.fn.name)
	}
	return g.expr(e, r.Pick(3, 3, 1))
}

func (g *Gen) args(e *eff, f *fsig) []*Node {
	r := g.R
	var args []*Node
	n := len(f.params)
	defer func(w int) { g.width = w }(g.width)
	g.width *= max(1, n)
	if f.sparse {
		n = r.Range(0, len(f.params)-1)
		args = append(args, N(int64(n)))
		for i := 1; i <= n; i++ {
			args = append(args, g.argFor(e, &f.params[i]))
		}
		return args
	}
	if f.unused {
		args = []*Node{}
		for k := r.Pick(4, 2, 2, 1); k > 0; k-- {
			args = append(args, g.expr(e, 0))
		}
		return args
	}
	for i := range f.params {
		p := &f.params[i]
		if f.rec && i == 0 {
			if f.deep && r.P(1, 2) && g.c.mult == 1 && !g.c.sig.rec {
				n := r.Range(20, 600)
				if g.afford(e, f.cost*n/8) {
					args = append(args, N(int64(n)))
					continue
				}
			}
			if r.P(1, 4) {
				args = append(args, B("&", g.expr(e, 0), N(7)))
			} else {
				args = append(args, N(int64(r.N(7))))
			}
			continue
		}
		a := g.argFor(e, p)
		if a == nil {
			return nil
		}
		args = append(args, a)
	}
	if args == nil {
		args = []*Node{}
	}
	if len(args) > 0 && r.P(1, 10) || r.P(1, 30) {
		for k := r.Range(1, 3); k > 0; k-- {
			args = append(args, g.expr(e, 0)) // extra arguments are ignored
		}
	}
	return args
}

// callExpr makes a call that yields an int, or nil.
func (g *Gen) callExpr(e *eff, d int) *Node {
	r := g.R
	c := g.c
	if e.noCalls || g.width > 100 {
		return nil
	}
	// through a pointer
	if r.P(1, 4) {
		l := g.vis(e, func(v *gvar) bool { return (v.kind == vFn || v.kind == vFVec) && !e.memW })
		if v := g.pick(l); v != nil && g.afford(e, v.fn.cost) {
			e.memR = true
			args := g.args(e, v.fn)
			if args == nil {
				return nil
			}
			if e.memW {
				return nil // an argument wrote memory the callee may read
			}
			callee := g.use(e, v)
			if v.kind == vFVec {
				callee = Ix(callee, g.index(e, v.hi, 0))
			} else if r.P(1, 5) {
				callee = &Node{K: Cond, Kids: []*Node{g.expr(e, 0), callee, V(v.fn.name)}}
			}
			return &Node{K: Call, Kids: append([]*Node{callee}, args...)}
		}
	}
	var l []*fsig
	for _, f := range g.funcs {
		if f.defined && f.ret && (f.pure && !e.memW || !f.pure && !c.pure && !e.memR && !e.memW) {
			l = append(l, f)
		}
	}
	if len(l) == 0 {
		return nil
	}
	f := l[r.N(len(l))]
	if !g.afford(e, f.cost) {
		return nil
	}
	if f.pure {
		e.memR = true
		args := g.args(e, f)
		if args == nil || e.memW {
			return nil
		}
		return C(f.name, args...)
	}
	// Everything else in this expression must keep away from memory, and so
	// must the arguments' side effects; addresses are harmless.
	saveR := e.memR
	args := g.args(e, f)
	if args == nil || e.memW {
		return nil
	}
	_ = saveR
	e.memR, e.memW = true, true
	return C(f.name, args...)
}

func (g *Gen) afford(e *eff, cost int) bool {
	if (g.c.cost+cost*g.c.mult) > g.maxCost/4 || cost*g.c.mult > g.maxCost/8 {
		return false
	}
	g.c.cost += cost * g.c.mult
	return true
}
