package bl

import "fmt"

// Idioms: statement sequences that single out one corner of the language and
// make it visible in the history. They are self-contained: whatever they
// declare is theirs, and what they change they restore.

// extremes are the words around which arithmetic goes wrong.
var extremes = []int64{
	1<<63 - 1, -1 << 63, 1<<63 - 2, -1<<63 + 1, 1<<31 - 1, 1 << 31, 1<<31 + 1, -1 << 31, -1<<31 - 1,
	1<<32 - 1, 1 << 32, 1<<32 + 1, -1 << 32, 1 << 62, -1 << 62, 3 << 61, 1<<62 - 1, 1<<53 + 1,
	0, 1, -1, 127, 128, -128, 255, 256, 65535, 65536, 1<<16 + 1, 0x5555555555555555, -0x5555555555555556,
}

func (g *Gen) extreme() int64 {
	v := extremes[g.R.N(len(extremes))]
	if g.R.P(1, 5) {
		v += int64(g.R.N(7)) - 3
	}
	return v
}

// word writes any constant word as an expression.
func (g *Gen) word(v int64) *Node {
	switch {
	case v == -1<<63:
		if g.R.P(1, 2) {
			return B("<<", N(1), N(63))
		}
		return B("-", N(-(1<<63 - 1)), N(1))
	case v >= 0 && g.R.P(1, 5):
		return &Node{K: Num, Val: v, Aux: 1}
	}
	return N(v)
}

func printf(f string, args ...*Node) *Node {
	return S(C("printf", append([]*Node{L(f)}, args...)...))
}

func num(v int) *Node { return N(int64(v)) }

// box is somewhere to keep a word: how to store and how to load.
type box struct {
	pre []*Node
	lv  func() *Node
	fin []*Node
}

// box makes a place for a word: a local, a vector element, a global.
func (g *Gen) box() box {
	r := g.R
	c := g.c
	if !c.pure && r.P(1, 3) {
		var l []*gvar
		for _, v := range g.globs {
			if v.kind == vInt && !v.locked {
				l = append(l, v)
			}
		}
		if len(l) > 0 {
			v := l[r.N(len(l))]
			c.used[v.name] = true
			return box{lv: func() *Node { return V(v.name) }}
		}
	}
	n := g.localName("y")
	switch r.N(4) {
	case 0:
		k := r.Range(1, 4)
		i := r.N(k)
		return box{pre: []*Node{autoDecl(n, int64(k))}, lv: func() *Node { return Ix(V(n), num(i)) }}
	case 1: // through a pointer
		p := g.localName("q")
		return box{pre: []*Node{autoDecl(n, -1), autoDecl(p, -1), S(As(V(p), &Node{K: Addr, Kids: []*Node{V(n)}}))}, lv: func() *Node {
			if r.P(1, 2) {
				return &Node{K: Deref, Kids: []*Node{V(p)}}
			}
			return V(n)
		}}
	}
	return box{pre: []*Node{autoDecl(n, -1)}, lv: func() *Node { return V(n) }}
}

// show prints words, or keeps them in a variable where printing is not allowed.
func (g *Gen) show(tag string, l ...*Node) []*Node {
	c := g.c
	if !c.pure {
		f := tag
		for range l {
			f += " %d"
		}
		return []*Node{printf(f+"\n", l...)}
	}
	n := g.localName("a")
	out := []*Node{autoDecl(n, -1)}
	for _, x := range l {
		out = append(out, S(As(V(n), B("+", B("*", V(n), N(3)), x))))
	}
	c.vars = append(c.vars, &gvar{name: n, kind: vInt})
	return out
}

func (g *Gen) idiom() []*Node {
	c := g.c
	c.cost += c.mult * 20
	type idm struct {
		w int
		f func() []*Node
	}
	l := []idm{{8, g.idWrap}, {4, g.idRoundTrip}, {2, g.idWrapLoop}, {3, g.idBytes}, {4, g.idSwitch}, {4, g.idLargeVec}, {4, g.idVecVec}, {2, g.idRebind}, {2, g.idChain}, {2, g.idDense}, {2, g.idShort}, {2, g.idText}, {3, g.idParams}, {2, g.idPtr}, {1, g.idNames}, {2, g.idBig}, {3, g.idCallee}, {2, g.idStreams}, {2, g.idRaw}, {3, g.idDead}, {2, g.idPrint}}
	sum := 0
	for _, x := range l {
		sum += x.w
	}
	k := g.R.N(sum)
	for _, x := range l {
		if k < x.w {
			return x.f()
		}
		k -= x.w
	}
	return nil
}

// idWrap: words wrap around, and comparisons with the old value say so.
func (g *Gen) idWrap() []*Node {
	r := g.R
	x, y := g.box(), g.box()
	out := append(append([]*Node{}, x.pre...), y.pre...)
	v := g.extreme()
	out = append(out, S(As(x.lv(), g.word(v))), S(As(y.lv(), x.lv())))
	if x.lv().Name == y.lv().Name && x.lv().K == Var && y.lv().K == Var {
		y = box{}
		n := g.localName("y")
		y.lv = func() *Node { return V(n) }
		out = append(out, autoDecl(n, -1), S(As(V(n), x.lv())))
	}
	var step *Node
	switch r.Pick(6, 4, 4, 3, 2, 2) {
	case 0:
		k := PreInc
		if r.P(1, 2) {
			k = PostInc
		}
		t := y.lv()
		if t.K == Deref {
			k = PreInc
		}
		step = S(&Node{K: k, Op: []string{"++", "--"}[r.N(2)], Kids: []*Node{t}})
	case 1:
		step = S(&Node{K: Assign, Op: []string{"+", "-"}[r.N(2)], Kids: []*Node{y.lv(), num(r.Range(1, 9))}})
	case 2:
		step = S(As(y.lv(), B([]string{"+", "-", "*"}[r.N(3)], x.lv(), num(r.Range(1, 9)))))
	case 3:
		step = S(As(y.lv(), B([]string{"+", "-", "*"}[r.N(3)], y.lv(), g.word(g.extreme()))))
	case 4:
		step = S(As(y.lv(), &Node{K: Unary, Op: "-", Kids: []*Node{x.lv()}}))
	case 5:
		step = S(&Node{K: Assign, Op: []string{"<<", ">>"}[r.N(2)], Kids: []*Node{y.lv(), num(r.Range(1, 63))}})
	}
	out = append(out, step)
	cmp := []string{"<", "<=", ">", ">=", "==", "!="}
	if r.P(1, 3) {
		// a branch rather than a value
		t := g.localName("b")
		out = append(out, autoDecl(t, -1), &Node{K: If, Kids: []*Node{B(cmp[r.N(6)], y.lv(), x.lv()), S(As(V(t), N(1))), S(As(V(t), N(2)))}})
		return append(out, g.show("w", V(t), y.lv())...)
	}
	return append(out, g.show("w", B(cmp[r.N(6)], y.lv(), x.lv()), B(cmp[r.N(6)], x.lv(), y.lv()), y.lv())...)
}

// idRoundTrip: expressions that a compiler would simplify if words were not
// what they are.
func (g *Gen) idRoundTrip() []*Node {
	r := g.R
	x := g.box()
	out := append([]*Node{}, x.pre...)
	out = append(out, S(As(x.lv(), g.word(g.extreme()))))
	one := func() *Node {
		k := num(r.Range(2, 9))
		p := num(r.Range(1, 62))
		w := num(1 << uint(r.Range(1, 16)))
		switch r.N(12) {
		case 0:
			return B("/", B("*", x.lv(), k), k.Clone())
		case 1:
			return B("*", B("/", x.lv(), w), w.Clone())
		case 2:
			return B("%", x.lv(), w)
		case 3:
			return B(">>", B("<<", x.lv(), p), p.Clone())
		case 4:
			return B("<<", B(">>", x.lv(), p), p.Clone())
		case 5:
			return B("-", x.lv(), B("*", B("/", x.lv(), k), k.Clone()))
		case 6:
			return B("<", B("+", x.lv(), k), x.lv())
		case 7:
			return B(">", &Node{K: Unary, Op: "-", Kids: []*Node{x.lv()}}, N(0))
		case 8:
			return B("==", &Node{K: Unary, Op: "-", Kids: []*Node{x.lv()}}, x.lv())
		case 9:
			return B("/", x.lv(), N(-int64(1)<<uint(r.Range(1, 40))))
		case 10:
			return B(">", B("<<", x.lv(), N(1)), N(0))
		}
		return B("-", N(0), B("/", B("+", x.lv(), x.lv()), N(2)))
	}
	var l []*Node
	for k := r.Range(1, 3); k > 0; k-- {
		l = append(l, one())
	}
	return append(out, g.show("r", l...)...)
}

// idWrapLoop: a loop that ends because a word wraps around.
func (g *Gen) idWrapLoop() []*Node {
	r := g.R
	i, n := g.localName("i"), g.localName("n")
	d := int64(r.Range(1, 6))
	k := num(r.Range(2, 9)) // a fuse
	out := []*Node{autoDecl(i, -1), autoDecl(n, -1)}
	inc := S(&Node{K: PreInc, Op: "++", Kids: []*Node{V(n)}})
	fuse := func(c *Node) *Node { return B("&", c, B("<", V(n), k)) }
	switch r.N(4) {
	case 0:
		out = append(out, S(As(V(i), g.word(1<<63-1-d))))
		out = append(out, &Node{K: While, Kids: []*Node{fuse(B(">", V(i), N(0))), Blk(S(&Node{K: PostInc, Op: "++", Kids: []*Node{V(i)}}), inc)}})
	case 1:
		out = append(out, S(As(V(i), g.word(-1<<63+d))))
		out = append(out, &Node{K: While, Kids: []*Node{fuse(B("<", &Node{K: PreInc, Op: "--", Kids: []*Node{V(i)}}, N(0))), inc}})
	case 2:
		out = append(out, S(As(V(i), N(int64(r.Range(1, 9))))))
		out = append(out, &Node{K: While, Kids: []*Node{B(">", V(i), N(0)), Blk(S(&Node{K: Assign, Op: "*", Kids: []*Node{V(i), num(r.Range(2, 5))}}), inc, &Node{K: If, Kids: []*Node{B(">", V(n), N(70)), S(As(V(i), N(0)))}})}})
	case 3:
		out = append(out, S(As(V(i), N(1))))
		out = append(out, &Node{K: While, Kids: []*Node{V(i), Blk(S(&Node{K: Assign, Op: "<<", Kids: []*Node{V(i), num(r.Range(1, 9))}}), inc)}})
	}
	g.c.cost += g.c.mult * 200
	return append(out, g.show("l", V(n), V(i))...)
}

// idBytes: words and their bytes are the same storage.
func (g *Gen) idBytes() []*Node {
	r := g.R
	v, x := g.localName("v"), g.localName("x")
	k := r.Range(1, 3)
	out := []*Node{autoDecl(v, int64(k)), autoDecl(x, -1)}
	for i := 0; i < k; i++ {
		out = append(out, S(As(Ix(V(v), num(i)), g.word(g.extreme()))))
	}
	// The bytes may be counted from any word of them, forwards or backwards.
	base, off := V(v), 0
	var l []*Node
	if r.P(1, 2) {
		p, j := g.localName("p"), r.N(k+1)
		off = 8 * j
		at := &Node{K: Addr, Kids: []*Node{Ix(V(v), num(j))}}
		if r.P(1, 4) {
			off = r.N(8*k + 1)
			at = B("+", V(v), num(off))
		}
		out = append(out, autoDecl(p, -1), S(As(V(p), at)))
		base = V(p)
	}
	pos := func() *Node {
		i := r.N(8*k) - off
		if i < 0 {
			return N(int64(i))
		}
		return num(i)
	}
	ch := func() *Node { return C("char", base, pos()) }
	out = append(out, S(As(V(x), ch())))
	l = append(l, V(x))
	for j := r.Range(1, 3); j > 0; j-- {
		switch r.N(3) {
		case 0:
			out = append(out, S(C("lchar", base, pos(), g.word(g.extreme()))))
		case 1:
			out = append(out, S(As(Ix(V(v), num(r.N(k))), g.word(g.extreme()))))
		case 2:
			y := g.localName("x")
			out = append(out, autoDecl(y, -1), S(As(V(y), ch())))
			l = append(l, V(y))
		}
	}
	for i := 0; i < k; i++ {
		l = append(l, Ix(V(v), num(i)))
	}
	return append(out, g.show("b", append(l, ch())...)...)
}

// idPrint: the ways of printing a word, for words at the ends of the range.
func (g *Gen) idPrint() []*Node {
	if g.c.pure {
		return g.idBytes()
	}
	r := g.R
	var out []*Node
	for j := r.Range(1, 3); j > 0; j-- {
		v := g.extreme()
		switch r.N(6) {
		case 0:
			v = -1 << 63
		case 1:
			v = -v
		case 2:
			v = int64(r.U64()) >> r.N(64)
		}
		x := g.word(v)
		if r.P(1, 2) {
			n := g.localName("x")
			out = append(out, autoDecl(n, -1), S(As(V(n), x)))
			x = V(n)
		}
		switch r.N(6) {
		case 0:
			out = append(out, S(C("printd", x)), S(C("write", num('\n'))))
		case 1:
			out = append(out, S(C("printo", x)), S(C("write", num('\n'))))
		case 2:
			out = append(out, S(C("write", x)))
		case 3:
			out = append(out, printf("%c%d|", x, x))
		case 4:
			out = append(out, printf("%o\n", x))
		case 5:
			out = append(out, printf("%d %o %c;", x, x, x))
		}
	}
	return out
}

// idSwitch: cases far apart, close together, alike in their low bits.
func (g *Gen) idSwitch() []*Node {
	r := g.R
	base := g.extreme()
	if base < 0 {
		base &= 1<<63 - 1
	}
	var cs []int64
	add := func(v int64) {
		for _, x := range cs {
			if x == v {
				return
			}
		}
		if v >= 0 {
			cs = append(cs, v)
		}
	}
	add(base)
	for k := r.Range(1, 5); k > 0; k-- {
		switch r.N(5) {
		case 0:
			add(base ^ 1<<uint(r.N(63)))
		case 1:
			add(base & (1<<32 - 1))
		case 2:
			add(base & (1<<31 - 1))
		case 3:
			add(g.extreme())
		case 4:
			add(base + int64(r.Range(1, 3)))
		}
	}
	r.Shuffle(len(cs), func(i, j int) { cs[i], cs[j] = cs[j], cs[i] })
	sel := base
	switch r.N(6) {
	case 0:
		sel = -base
	case 1:
		sel = base | -1<<63
	case 2:
		sel = base ^ 1<<uint(r.N(63))
	case 3:
		sel = cs[r.N(len(cs))]
	}
	x := g.box()
	t, end := g.localName("t"), g.label()
	out := append(append([]*Node{}, x.pre...), autoDecl(t, -1), S(As(x.lv(), g.word(sel))))
	var body []*Node
	fall := r.P(1, 3)
	for i, v := range cs {
		n := &Node{K: Case, Val: v, Kids: []*Node{S(&Node{K: Assign, Op: "+", Kids: []*Node{V(t), num(1 << uint(i))}})}}
		if b, ok := chars(v); ok && r.P(1, 2) {
			n.Aux, n.Str = 2, b
		} else if r.P(1, 6) {
			n.Aux = 1
		}
		body = append(body, n)
		if !fall {
			body = append(body, &Node{K: Goto, Name: end})
		}
	}
	s := x.lv()
	if r.P(1, 4) {
		s = B("+", s, N(0))
	}
	out = append(out, &Node{K: Switch, Kids: []*Node{s, Blk(body...)}})
	out = append(out, &Node{K: Label, Name: end, Kids: []*Node{{K: Null}}})
	return append(out, g.show("s", V(t))...)
}

// chars gives the character constant for a word, if there is a printable one.
func chars(v int64) ([]byte, bool) {
	var b []byte
	for i := 7; i >= 0; i-- {
		c := byte(uint64(v) >> (8 * uint(i)))
		if c == 0 && len(b) == 0 {
			continue
		}
		b = append(b, c)
	}
	for _, c := range b {
		if c < 32 || c > 126 {
			return nil, false
		}
	}
	if len(b) == 0 || CharVal(b) != v {
		return nil, false
	}
	return b, true
}

// idLargeVec: a large local vector of which little is used.
func (g *Gen) idLargeVec() []*Node {
	r := g.R
	c := g.c
	n := []int{64, 255, 256, 257, 300, 511, 512, 513, 1000, 1024, 2000, 4000}[r.N(12)]
	if c.sig.deep || g.P.Deep > 0 && n > 600 && c.sig.rec {
		n = r.Range(30, 60)
	}
	v := g.localName("v")
	idx := []int{0, n - 1, n / 2, r.N(n), r.N(n)}
	r.Shuffle(len(idx), func(i, j int) { idx[i], idx[j] = idx[j], idx[i] })
	idx = idx[:r.Range(1, len(idx))]
	out := []*Node{autoDecl(v, int64(n))}
	seen := map[int]bool{}
	var use []int
	for _, i := range idx {
		if seen[i] {
			continue
		}
		seen[i] = true
		use = append(use, i)
		out = append(out, S(As(Ix(V(v), num(i)), g.expr(newEffNC(), 1))))
	}
	// something happens in between
	if r.P(2, 3) && c.nest < 4 {
		g.scope(func() { out = append(out, Blk(g.stmt()...)) })
	}
	if x := g.callExpr(newEff(), 1); x != nil {
		t := g.localName("t")
		out = append(out, autoDecl(t, -1), S(As(V(t), x)))
		c.vars = append(c.vars, &gvar{name: t, kind: vInt})
	}
	var l []*Node
	for _, i := range use {
		l = append(l, Ix(V(v), num(i)))
	}
	return append(out, g.show("v", l...)...)
}

// idVecVec: vectors of vectors, and vectors reached through several steps.
func (g *Gen) idVecVec() []*Node {
	r := g.R
	m := g.localName("m")
	rows := r.Range(1, 4)
	out := []*Node{autoDecl(m, int64(rows))}
	w := r.Range(1, 4)
	var names []string
	for i := 0; i < rows; i++ {
		n := g.localName("v")
		names = append(names, n)
		out = append(out, autoDecl(n, int64(w)))
		out = append(out, S(As(Ix(V(m), num(i)), V(n))))
	}
	i, j := g.localName("i"), g.localName("j")
	e := func(a, b *Node) *Node { return Ix(Ix(V(m), a), b) }
	val := B("+", B("*", V(i), N(int64(r.Range(2, 20)))), V(j))
	out = append(out, autoDecl(i, -1), autoDecl(j, -1))
	out = append(out, &Node{K: While, Kids: []*Node{B("<", V(i), num(rows)), Blk(
		S(As(V(j), N(0))),
		&Node{K: While, Kids: []*Node{B("<", V(j), num(w)), Blk(
			S(As(e(V(i), V(j)), val)), S(&Node{K: PreInc, Op: "++", Kids: []*Node{V(j)}}))}},
		S(&Node{K: PostInc, Op: "++", Kids: []*Node{V(i)}}))}})
	a, b := r.N(rows), r.N(w)
	switch r.N(5) {
	case 0:
		out = append(out, S(&Node{K: PreInc, Op: "++", Kids: []*Node{e(num(a), num(b))}}))
	case 1:
		out = append(out, S(&Node{K: PostInc, Op: "--", Kids: []*Node{e(num(a), num(b))}}))
	case 2:
		out = append(out, S(&Node{K: Assign, Op: g.safeAdd(), Kids: []*Node{e(num(a), num(b)), e(num(r.N(rows)), num(r.N(w)))}}))
	case 3: // exchange two rows
		t := g.localName("t")
		c := r.N(rows)
		out = append(out, autoDecl(t, -1), S(As(V(t), Ix(V(m), num(a)))), S(As(Ix(V(m), num(a)), Ix(V(m), num(c)))), S(As(Ix(V(m), num(c)), V(t))))
	case 4:
		out = append(out, S(As(&Node{K: Deref, Kids: []*Node{Ix(V(m), num(a))}}, g.word(g.extreme()))))
	}
	var l []*Node
	for k := 0; k < 3; k++ {
		if r.P(1, 3) {
			l = append(l, &Node{K: Deref, Kids: []*Node{Ix(V(m), num(r.N(rows)))}})
		} else {
			l = append(l, e(num(r.N(rows)), num(r.N(w))))
		}
	}
	l = append(l, Ix(V(names[r.N(rows)]), num(r.N(w))))
	g.c.cost += g.c.mult * rows * w * 4
	return append(out, g.show("m", l...)...)
}

func (g *Gen) safeAdd() string { return []string{"+", "-", "*", "|", "&"}[g.R.N(5)] }

// idRebind: the name of a vector is a variable and may point elsewhere.
func (g *Gen) idRebind() []*Node {
	r := g.R
	c := g.c
	v, w, t := g.localName("v"), g.localName("v"), g.localName("t")
	out := []*Node{autoDecl(w, 2), S(As(Ix(V(w), N(0)), g.constant())), S(As(Ix(V(w), N(1)), g.constant()))}
	if !c.pure && r.P(1, 2) {
		var l []*gvar
		for _, x := range g.globs {
			if x.kind == vVec && x.hi >= 2 {
				l = append(l, x)
			}
		}
		if len(l) > 0 {
			gv := l[r.N(len(l))]
			c.used[gv.name] = true
			out = append(out, autoDecl(t, -1), S(As(V(t), V(gv.name))), S(As(V(gv.name), V(w))))
			out = append(out, printf("R %d %d\n", Ix(V(gv.name), N(0)), Ix(V(gv.name), N(1))))
			out = append(out, S(&Node{K: PreInc, Op: "++", Kids: []*Node{Ix(V(gv.name), N(1))}}))
			out = append(out, S(As(V(gv.name), V(t))))
			out = append(out, printf("R %d %d %d\n", Ix(V(gv.name), N(0)), Ix(V(t), N(1)), Ix(V(w), N(1))))
			return out
		}
	}
	out = append(out, autoDecl(v, 2), S(As(Ix(V(v), N(0)), g.constant())), S(As(Ix(V(v), N(1)), g.constant())))
	out = append(out, autoDecl(t, -1), S(As(V(t), V(v))), S(As(V(v), V(w))))
	out = append(out, S(As(Ix(V(v), N(0)), N(int64(r.N(99))))))
	return append(out, g.show("R", Ix(V(v), N(0)), Ix(V(w), N(0)), Ix(V(t), N(0)), Ix(V(t), N(1)), B("==", V(v), V(w)))...)
}

// idChain: assignments, conditionals and comparisons in chains.
func (g *Gen) idChain() []*Node {
	r := g.R
	a, b, d := g.localName("a"), g.localName("b"), g.localName("d")
	out := []*Node{{K: Auto, Kids: []*Node{{K: Decl, Name: a, Val: -1}, {K: Decl, Name: b, Val: -1}, {K: Decl, Name: d, Val: -1}}}}
	out = append(out, S(As(V(a), As(V(b), As(V(d), g.word(g.extreme()))))))
	cmp := []string{"<", "<=", ">", ">=", "==", "!="}
	op := func() string { return cmp[r.N(6)] }
	var x *Node
	switch r.N(4) {
	case 0:
		x = B(op(), B(op(), V(a), num(r.N(5))), B(op(), V(b), num(r.N(5))))
	case 1:
		x = &Node{K: Cond, Kids: []*Node{B(op(), V(a), N(1)), &Node{K: Cond, Kids: []*Node{V(b), N(1), N(2)}}, &Node{K: Cond, Kids: []*Node{&Node{K: Unary, Op: "!", Kids: []*Node{V(d)}}, N(3), N(4)}}}}
	case 2:
		x = V(a)
		for k := r.Range(3, 12); k > 0; k-- {
			x = B(binOps[[]int{0, 1, 2, 7, 9, 11, 13, 14}[r.N(8)]], x, num(r.Range(1, 40)))
		}
	case 3:
		x = V(a)
		for k := r.Range(2, 6); k > 0; k-- {
			x = B(binOps[[]int{0, 1, 2, 7, 9, 11, 13, 14}[r.N(8)]], num(r.Range(1, 40)), x)
		}
	}
	if r.P(1, 3) {
		x = &Node{K: Unary, Op: "!", Kids: []*Node{{K: Unary, Op: "!", Kids: []*Node{x}}}}
	}
	return append(out, g.show("c", x, V(b))...)
}

// idDense: a switch with many neighbouring cases, run over its whole range.
func (g *Gen) idDense() []*Node {
	r := g.R
	i, t := g.localName("i"), g.localName("t")
	n := r.Range(5, 24)
	lo := int64([]int{0, 1, 10, 1000, 250}[r.N(5)])
	end := g.label()
	var body []*Node
	perm := make([]int, n)
	for k := range perm {
		perm[k] = k
	}
	r.Shuffle(n, func(a, b int) { perm[a], perm[b] = perm[b], perm[a] })
	for _, k := range perm {
		if r.P(1, 8) {
			continue
		}
		body = append(body, &Node{K: Case, Val: lo + int64(k), Kids: []*Node{S(As(V(t), B("+", B("*", V(t), N(5)), num(k+1))))}})
		if r.P(2, 3) {
			body = append(body, &Node{K: Goto, Name: end})
		}
	}
	out := []*Node{autoDecl(i, -1), autoDecl(t, -1)}
	sw := &Node{K: Switch, Kids: []*Node{B("+", V(i), N(lo-1)), Blk(body...)}}
	out = append(out, &Node{K: While, Kids: []*Node{B("<", V(i), num(n+2)), Blk(sw,
		&Node{K: Label, Name: end, Kids: []*Node{S(&Node{K: PreInc, Op: "++", Kids: []*Node{V(i)}})}})}})
	g.c.cost += g.c.mult * n * 3
	return append(out, g.show("d", V(t))...)
}

// idShort: exactly one arm of a conditional is evaluated, both operands of &
// and | are.
func (g *Gen) idShort() []*Node {
	r := g.R
	a, b, k := g.localName("a"), g.localName("b"), g.localName("k")
	out := []*Node{{K: Auto, Kids: []*Node{{K: Decl, Name: a, Val: -1}, {K: Decl, Name: b, Val: -1}, {K: Decl, Name: k, Val: -1}}}}
	out = append(out, S(As(V(k), g.word(g.extreme()))))
	ia := &Node{K: PostInc, Op: "++", Kids: []*Node{V(a)}}
	ib := &Node{K: PreInc, Op: "--", Kids: []*Node{V(b)}}
	var x *Node
	switch r.N(3) {
	case 0:
		x = &Node{K: Cond, Kids: []*Node{V(k), ia, ib}}
	case 1:
		x = B([]string{"&", "|"}[r.N(2)], ia, ib)
	case 2:
		x = &Node{K: Cond, Kids: []*Node{B("&", V(k), N(1)), As(V(a), N(9)), &Node{K: Cond, Kids: []*Node{V(k), As(V(b), N(8)), As(V(b), N(7))}}}}
	}
	t := g.localName("t")
	out = append(out, autoDecl(t, -1), S(As(V(t), x)))
	return append(out, g.show("e", V(a), V(b), V(t))...)
}

// idText: strings with every kind of byte, walked byte by byte and as words.
func (g *Gen) idText() []*Node {
	r := g.R
	s, i, t := g.localName("s"), g.localName("i"), g.localName("t")
	n := r.Range(0, 24)
	b := make([]byte, n)
	for k := range b {
		switch r.N(6) {
		case 0:
			b[k] = "\n\t\r*'\"(){}%\x00"[r.N(12)]
		case 1:
			b[k] = byte(r.Range(128, 255))
		default:
			b[k] = byte(r.Range(32, 126))
		}
	}
	out := []*Node{{K: Auto, Kids: []*Node{{K: Decl, Name: s, Val: -1}, {K: Decl, Name: i, Val: -1}, {K: Decl, Name: t, Val: -1}}},
		S(As(V(s), &Node{K: Str, Str: b}))}
	out = append(out, &Node{K: While, Kids: []*Node{B("<=", V(i), num(n)), S(As(V(t), B("+", B("*", V(t), N(31)), C("char", V(s), &Node{K: PostInc, Op: "++", Kids: []*Node{V(i)}}))))}})
	l := []*Node{V(t)}
	if n >= 7 {
		l = append(l, Ix(V(s), N(0))) // the characters of a word
	}
	if r.P(1, 2) {
		// Another string, which is nearly the same.
		u := append([]byte{}, b...)
		switch k := r.N(n + 1); {
		case k == n || r.P(1, 4):
			u = append(u, 'x')
		case r.P(1, 4):
			u = u[:k]
		default:
			u[k] ^= []byte{1, 32, 128}[r.N(3)]
			if u[k] == 0 {
				u[k] = 'z'
			}
		}
		if len(u) < 7 {
			l = l[:1]
		}
		out = append(out, S(As(V(s), &Node{K: Str, Str: u})), S(As(V(i), N(0))))
		out = append(out, &Node{K: While, Kids: []*Node{B("<=", V(i), num(len(u))), S(As(V(t), B("+", B("*", V(t), N(31)), C("char", V(s), &Node{K: PostInc, Op: "++", Kids: []*Node{V(i)}}))))}})
	}
	out = append(out, g.show("t", l...)...)
	if !g.c.pure && r.P(1, 2) {
		out = append(out, S(C("printf", L("%s|\n"), V(s))))
	}
	g.c.cost += g.c.mult * 40
	return out
}

// idParams: a call of some function whose arguments have distinct values.
func (g *Gen) idParams() []*Node {
	r := g.R
	c := g.c
	f := g.pickFn()
	if f == nil || !g.afford(newEff(), f.cost) {
		return g.idWrap()
	}
	var args []*Node
	for i := range f.params {
		args = append(args, num(1000*(i+1)+r.N(99)))
	}
	h := g.localName("h")
	out := []*Node{}
	callee := V(f.name)
	switch r.N(4) {
	case 0:
		out = append(out, autoDecl(h, -1), S(As(V(h), V(f.name))))
		callee = V(h)
	case 1:
		out = append(out, autoDecl(h, 2), S(As(Ix(V(h), N(1)), V(f.name))))
		callee = Ix(V(h), N(1))
	}
	_ = c
	return append(out, g.show("p", &Node{K: Call, Kids: append([]*Node{callee}, args...)})...)
}

// idPtr: pointers into vectors: walking, negative indexes, differences.
func (g *Gen) idPtr() []*Node {
	r := g.R
	v, p, i := g.localName("v"), g.localName("p"), g.localName("i")
	n := r.Range(2, 6)
	out := []*Node{autoDecl(v, int64(n)), autoDecl(p, -1), autoDecl(i, -1)}
	out = append(out, &Node{K: While, Kids: []*Node{B("<", V(i), num(n)), Blk(S(As(Ix(V(v), V(i)), B("*", V(i), N(int64(r.Range(3, 99)))))), S(&Node{K: PreInc, Op: "++", Kids: []*Node{V(i)}}))}})
	k := r.N(n)
	out = append(out, S(As(V(p), &Node{K: Addr, Kids: []*Node{Ix(V(v), num(k))}})))
	var l []*Node
	for j := 0; j < 2; j++ {
		l = append(l, Ix(V(p), num(r.N(n)-k)))
	}
	out = append(out, S(As(V(i), num(r.N(n)-k))))
	out = append(out, S(&Node{K: Assign, Op: g.safeAdd(), Kids: []*Node{Ix(V(p), V(i)), num(r.Range(1, 9))}}))
	l = append(l, Ix(V(p), V(i)), B("-", &Node{K: Addr, Kids: []*Node{Ix(V(p), N(1))}}, V(p)))
	if r.P(1, 2) {
		a := num(n - 1)
		l = append(l, B("==", &Node{K: Addr, Kids: []*Node{Ix(V(v), a)}}, &Node{K: Addr, Kids: []*Node{Ix(V(p), num(n-1-k))}}))
	}
	return append(out, g.show(fmt.Sprintf("q%d", k), l...)...)
}

// idNames: names that begin like a keyword, where the keyword could stand.
func (g *Gen) idNames() []*Node {
	r := g.R
	c := g.c
	n := ""
	for n == "" || g.names[n] || keywords[n] || c.used["\x00"+n] {
		n = []string{"else", "else", "else", "if", "while", "switch", "case", "goto", "return", "auto", "extrn"}[r.N(11)]
		for i := r.Range(1, 3); i > 0; i-- {
			n += string("_0123456789xE"[r.N(13)])
		}
	}
	c.used["\x00"+n] = true
	b := g.box()
	out := append(b.pre, autoDecl(n, -1))
	out = append(out, S(As(V(n), num(r.N(9)))))
	for i := r.Range(1, 3); i > 0; i-- {
		yes := S(As(b.lv(), B("+", V(n), num(i))))
		no := S(As(V(n), B(g.safeAdd(), V(n), num(r.Range(1, 5)))))
		cond := B([]string{"<", ">", "==", "!="}[r.N(4)], V(n), num(r.N(9)))
		f := &Node{K: If, Kids: []*Node{cond, yes}}
		if r.P(1, 3) {
			f.Kids = append(f.Kids, no)
		}
		out = append(out, f, S(As(V(n), B(g.safeAdd(), V(n), num(r.Range(1, 5))))))
	}
	out = append(out, g.show("n", V(n), b.lv())...)
	return append(out, b.fin...)
}

// helpers are functions of two parameters, a pointer and an index, which
// read or change what the pointer points to.
func (g *Gen) helpers() []string {
	if g.helper != nil {
		return g.helper
	}
	r := g.R
	p, n, t := "p", "n", "t"
	at := func(i *Node) *Node { return Ix(V(p), i) }
	ret := func(x *Node) *Node { return &Node{K: Return, Kids: []*Node{x}} }
	bodies := [][]*Node{
		{ret(B("+", B("*", at(N(0)), N(3)), at(V(n))))},
		{S(&Node{K: Assign, Op: "+", Kids: []*Node{at(V(n)), B("+", at(N(0)), N(7))}}), ret(V(n))},
		{autoDecl(t, -1), S(As(V(t), at(N(0)))), S(As(at(N(0)), at(V(n)))), S(As(at(V(n)), B("-", V(t), N(1)))), ret(V(t))},
		{ret(B("+", C("char", V(p), B("*", V(n), N(8))), at(N(0))))},
		{S(C("lchar", V(p), B("+", B("*", V(n), N(8)), N(1)), N(int64(r.Range(1, 255))))), ret(at(V(n)))},
		{&Node{K: While, Kids: []*Node{B(">=", V(n), N(0)), S(As(at(&Node{K: PostInc, Op: "--", Kids: []*Node{V(n)}}), N(int64(r.Range(1, 99)))))}}},
	}
	r.Shuffle(len(bodies), func(i, j int) { bodies[i], bodies[j] = bodies[j], bodies[i] })
	for _, b := range bodies[:r.Range(2, 4)] {
		name := g.fresh("hp")
		for g.c.used["\x00"+name] {
			name = g.fresh("hp")
		}
		g.helper = append(g.helper, name)
		g.prog.Tops = append(g.prog.Tops, Top{F: &Func{Name: name, Params: []string{p, n}, Body: Blk(b...)}})
	}
	return g.helper
}

// idCallee: words of this activation, stored just before and used just after a
// call that is given their address, of a function known only at run time.
func (g *Gen) idCallee() []*Node {
	r := g.R
	h := g.helpers()
	v, x, f, y := g.localName("v"), g.localName("x"), g.localName("f"), g.localName("y")
	k := r.Range(1, 4)
	out := []*Node{autoDecl(v, int64(k)), autoDecl(x, -1), autoDecl(f, -1), autoDecl(y, -1)}
	fn := func() *Node { return V(h[r.N(len(h))]) }
	callee := V(f)
	switch r.N(4) {
	case 0:
		out = append(out, S(As(V(f), fn())), &Node{K: If, Kids: []*Node{g.expr(newEff(), 1), S(As(V(f), fn()))}})
	case 1: // the callee changes from call to call
		t := g.localName("t")
		out = append(out, autoDecl(t, 2), S(As(Ix(V(t), N(0)), fn())), S(As(Ix(V(t), N(1)), fn())))
		out = append(out, S(As(V(f), B("&", g.expr(newEff(), 1), N(1)))))
		callee = Ix(V(t), V(f))
	case 2:
		out = append(out, S(As(V(f), fn())))
	case 3:
		callee = fn()
	}
	first := true
	for j := r.Range(1, 3); j > 0; j-- {
		for i := 0; i < k; i++ {
			if r.P(3, 4) || first {
				out = append(out, S(As(Ix(V(v), num(i)), num(r.Range(1, 999)))))
			} else if j == 1 || r.P(1, 2) {
				out = append(out, S(As(Ix(V(v), num(i)), B("+", V(y), num(r.Range(1, 9))))))
			}
		}
		first = false
		ptr, n := V(v), r.N(k)
		switch r.N(4) {
		case 0:
			i := r.N(k)
			ptr, n = &Node{K: Addr, Kids: []*Node{Ix(V(v), num(i))}}, r.N(k-i)
		case 1:
			out = append(out, S(As(V(x), num(r.Range(1, 999)))))
			ptr, n = &Node{K: Addr, Kids: []*Node{V(x)}}, 0
		}
		call := &Node{K: Call, Kids: []*Node{callee.Clone(), ptr, num(n)}}
		if r.P(1, 3) {
			out = append(out, S(call))
		} else {
			out = append(out, S(As(V(y), call)))
		}
	}
	l := []*Node{V(x), V(y)}
	for i := 0; i < k; i++ {
		l = append(l, Ix(V(v), num(i)))
	}
	r.Shuffle(len(l), func(i, j int) { l[i], l[j] = l[j], l[i] })
	return append(out, g.show("k", l...)...)
}

// idStreams: the stream is switched between outputs that follow each other.
func (g *Gen) idStreams() []*Node {
	r := g.R
	if g.c.pure || g.P.Fout == 0 {
		return g.idWrap()
	}
	g.c.used["fout"] = true
	var out []*Node
	for j := r.Range(2, 6); j > 0; j-- {
		out = append(out, S(As(V("fout"), num(r.N(2)))))
		for i := r.Pick(1, 6, 2); i > 0; i-- {
			switch r.N(5) {
			case 0:
				out = append(out, S(C("write", num(r.Range(33, 126)))))
			case 1:
				out = append(out, S(C("writeb", num(r.Range(33, 126)))))
			case 2:
				out = append(out, S(C("printd", num(r.Range(-99, 999)))))
			case 3:
				out = append(out, S(C("printo", num(r.Range(0, 999)))))
			default:
				out = append(out, printf("%d;", V("fout")))
			}
		}
	}
	return out
}

// idRaw: words read and written as they are, without anything in between.
func (g *Gen) idRaw() []*Node {
	r := g.R
	if g.c.pure || g.P.Raw == 0 {
		return g.idBytes()
	}
	v, x, n := g.localName("v"), g.localName("x"), g.localName("n")
	k := r.Range(1, 3)
	out := []*Node{autoDecl(v, int64(k)), autoDecl(x, -1), autoDecl(n, -1)}
	for j := r.Range(1, 3); j > 0; j-- {
		for i := 0; i < k; i++ {
			if r.P(2, 3) || j == 1 {
				out = append(out, S(As(Ix(V(v), num(i)), g.word(int64(r.U64())))))
			}
		}
		out = append(out, S(As(V(x), g.word(int64(r.U64())))))
		ptr, size := V(v), 8*k
		switch r.N(3) {
		case 0:
			i := r.N(k)
			ptr, size = &Node{K: Addr, Kids: []*Node{Ix(V(v), num(i))}}, 8*(k-i)
		case 1:
			ptr, size = &Node{K: Addr, Kids: []*Node{V(x)}}, 8
		}
		if r.P(1, 2) {
			out = append(out, S(As(V(n), C("nwrite", num(r.Range(1, 2)), ptr, num(r.N(size+1))))))
		} else {
			fd := 0
			if g.P.NoRead {
				fd = 99
			}
			out = append(out, S(As(V(n), C("nread", num(fd), ptr, num(r.N(size+1))))))
		}
	}
	l := []*Node{V(n), V(x)}
	for i := 0; i < k; i++ {
		l = append(l, Ix(V(v), num(i)))
	}
	g.c.cost += g.c.mult * 20
	return append(out, g.show("r", l...)...)
}

// idDead: goto into statements that are not reached otherwise.
func (g *Gen) idDead() []*Node {
	r := g.R
	x := g.localName("x")
	add := func() *Node {
		return S(&Node{K: Assign, Op: "+", Kids: []*Node{V(x), num(r.Range(1, 9999))}})
	}
	never := func() *Node {
		k := num(r.Range(1, 99))
		return []*Node{N(0), B("-", k, k.Clone()), B("==", k, N(0)), B("<", k, N(1)), B("&", N(2), N(5)), B("*", k, N(0))}[r.Pick(4, 1, 1, 1, 1, 1)]
	}
	some := func(l []*Node, n int) []*Node {
		for n = r.N(n + 1); n > 0; n-- {
			l = append(l, add())
		}
		return l
	}
	var dead func(depth int, l string) []*Node
	dead = func(depth int, l string) []*Node {
		in := some(nil, 2)
		if depth > 0 && r.P(1, 3) {
			in = append(in, dead(depth-1, l)...)
		} else {
			in = append(in, &Node{K: Label, Name: l, Kids: []*Node{add()}})
		}
		b := Blk(some(in, 2)...)
		switch r.N(6) {
		case 0:
			return []*Node{{K: If, Kids: []*Node{never(), b}}}
		case 1:
			return []*Node{{K: If, Kids: []*Node{never(), b, Blk(some(nil, 2)...)}}}
		case 2:
			return []*Node{{K: If, Kids: []*Node{num(r.Range(1, 9)), Blk(some(nil, 2)...), b}}}
		case 3:
			return []*Node{{K: While, Kids: []*Node{never(), b}}}
		case 4:
			b.Kids = append(b.Kids, &Node{K: Case, Val: 5, Kids: []*Node{add()}})
			return []*Node{{K: Switch, Kids: []*Node{num(r.Range(3, 6)), b}}}
		}
		m := g.label()
		return []*Node{{K: Goto, Name: m}, b, {K: Label, Name: m, Kids: []*Node{add()}}}
	}
	out := []*Node{autoDecl(x, -1)}
	for k := r.Range(1, 2); k > 0; k-- {
		l := g.label()
		j := &Node{K: Goto, Name: l}
		if r.P(1, 3) {
			j = &Node{K: If, Kids: []*Node{g.expr(newEff(), 1), j}}
		}
		out = append(out, j)
		out = append(out, some(nil, 1)...)
		out = append(out, dead(2, l)...)
	}
	return append(out, g.show("d", V(x))...)
}
