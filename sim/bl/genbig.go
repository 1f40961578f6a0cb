package bl

import (
	"strings"

	"vsim/rng"
)

// Programs that are large in one respect: limits of any kind (a name, a
// constant, a list, a nesting) show only beyond some size.

// big chooses in which respect a whole program is large.
const (
	bigNames = iota + 1
	bigStrings
	bigLists
	bigParams
	bigGlobals
	bigFuncs
	numBig
)

func (g *Gen) chooseBig() {
	if !g.R.P(1, 8) {
		return
	}
	g.big = 1 + g.R.N(numBig-1)
	if g.big == bigNames {
		n := []int{7, 8, 14, 15, 16, 30, 31, 32, 62, 63, 64, 127, 128, 200, 254, 255, 256, 300, 1100}
		g.prefix = strings.Repeat(string(rune('a'+g.R.N(26))), n[g.R.N(len(n))])
	}
}

// size is a size that is large enough to pass some limit.
func (g *Gen) size(most int) int {
	s := []int{9, 17, 33, 65, 129, 257, 513, 1025, 2049, 4097, 8200, 20000}
	n := 0
	for n < len(s) && s[n] <= most {
		n++
	}
	if n == 0 {
		return most
	}
	return g.R.Range(s[g.R.N(n)], most)
}

func (g *Gen) longName(s string) string {
	if g.big == bigNames && g.R.P(1, 2) {
		return g.prefix + s
	}
	return s
}

func (g *Gen) idBig() []*Node {
	r := g.R
	t := g.localName("t")
	out := []*Node{autoDecl(t, -1)}
	add := func(v int64) *Node { return S(&Node{K: Assign, Op: "+", Kids: []*Node{V(t), N(v)}}) }
	most := 300
	if g.c.mult > 4 {
		most = 10
	}
	n := g.size(most)
	g.c.cost += g.c.mult * n
	switch r.N(9) {
	case 0: // cases
		x := g.box()
		out = append(out, x.pre...)
		step := []int64{1, 1, 2, 7, 1 << 20, 1 << 33}[r.N(6)]
		base := int64(r.N(5))
		out = append(out, S(As(x.lv(), N(base+step*int64(r.N(n+1))))))
		end := g.label()
		var body []*Node
		for _, i := range perm(r, n) {
			body = append(body, &Node{K: Case, Val: base + step*int64(i), Kids: []*Node{add(int64(i + 1))}})
			if r.P(4, 5) {
				body = append(body, &Node{K: Goto, Name: end})
			}
		}
		out = append(out, &Node{K: Switch, Kids: []*Node{x.lv(), Blk(body...)}}, &Node{K: Label, Name: end, Kids: []*Node{{K: Null}}})
	case 1: // nested statements
		if n > 120 {
			n = 120
		}
		u := g.localName("u")
		out = append(out, autoDecl(u, -1))
		s := add(1)
		for i := 0; i < n; i++ {
			switch r.N(6) {
			case 0:
				s = Blk(s)
			case 1:
				s = &Node{K: If, Kids: []*Node{B(">=", V(t), N(0)), s}}
			case 2:
				s = &Node{K: If, Kids: []*Node{B("<", V(t), N(0)), add(1000), s}}
			case 3:
				s = Blk(S(As(V(u), N(1))), &Node{K: While, Kids: []*Node{V(u), Blk(S(As(V(u), N(0))), s, S(As(V(u), N(0))))}})
			case 4:
				s = &Node{K: Switch, Kids: []*Node{N(int64(i)), Blk(&Node{K: Case, Val: int64(i), Kids: []*Node{s}})}}
			case 5:
				s = Blk(add(1), s, add(2))
			}
		}
		out = append(out, s)
	case 2: // else if
		x := g.box()
		out = append(out, x.pre...)
		out = append(out, S(As(x.lv(), N(int64(r.N(n+1))))))
		var s *Node
		for i := n - 1; i >= 0; i-- {
			k := []*Node{B("==", x.lv(), N(int64(i))), add(int64(i + 1))}
			if s != nil {
				k = append(k, s)
			}
			s = &Node{K: If, Kids: k}
		}
		out = append(out, s)
	case 3: // a large expression
		x := g.box()
		out = append(out, x.pre...)
		out = append(out, S(As(x.lv(), g.word(int64(r.N(1000))))))
		e := x.lv()
		ops := []string{"+", "-", "*", "&", "|", "==", "<"}
		for i := 0; i < n; i++ {
			k := N(int64(r.N(9)))
			if r.P(1, 4) {
				k = x.lv()
			}
			switch r.N(8) {
			case 0:
				e = &Node{K: Unary, Op: []string{"-", "!"}[r.N(2)], Kids: []*Node{e}}
			case 1, 2:
				e = B(ops[r.N(len(ops))], k, e)
			case 3:
				e = &Node{K: Cond, Kids: []*Node{x.lv(), e, k}}
			case 4:
				e = &Node{K: Cond, Kids: []*Node{B("<", x.lv(), k), k, e}}
			default:
				e = B(ops[r.N(len(ops))], e, k)
			}
		}
		out = append(out, S(As(V(t), e)))
	case 4: // locals
		var names []string
		var d []*Node
		for i := 0; i < n; i++ {
			s := g.localName("m")
			names = append(names, s)
			d = append(d, &Node{K: Decl, Name: s, Val: -1})
		}
		out = append(out, &Node{K: Auto, Kids: d})
		for _, i := range perm(r, n) {
			out = append(out, S(As(V(names[i]), N(int64(i*i+1)))))
		}
		for i := range names {
			out = append(out, S(As(V(t), B("+", B("*", V(t), N(3)), V(names[i])))))
		}
	case 5: // arguments
		if n > 100 {
			n = 100
		}
		f, a := "", []*Node{nil}
		for i := 0; i < n; i++ {
			if r.P(1, 4) {
				f += "%c"
				a = append(a, N(int64(r.Range('a', 'z'))))
			} else {
				f += []string{"%d", " %d", ",%o"}[r.N(3)]
				a = append(a, N(int64(r.N(5000))))
			}
		}
		a[0] = L(f + "\n")
		out = append(out, S(C("printf", a...)))
	case 6: // labels
		var l []string
		for i := 0; i <= n; i++ {
			l = append(l, g.label())
		}
		// the order in which they are passed
		p := perm(r, n)
		next := make([]string, n)
		for i, k := range p {
			next[k] = l[n]
			if i+1 < n {
				next[k] = l[p[i+1]]
			}
		}
		out = append(out, &Node{K: Goto, Name: l[p[0]]})
		for i := 0; i < n; i++ {
			out = append(out, &Node{K: Label, Name: l[i], Kids: []*Node{S(As(V(t), B("+", B("*", V(t), N(3)), N(int64(i)))))}}, &Node{K: Goto, Name: next[i]})
		}
		out = append(out, &Node{K: Label, Name: l[n], Kids: []*Node{{K: Null}}})
	case 7: // a long string
		n := n
		if most > 10 {
			n = g.size(6000)
		}
		b := make([]byte, n)
		for i := range b {
			b[i] = byte(r.Range('a', 'z'))
		}
		s := g.localName("s")
		out = append(out, autoDecl(s, -1), S(As(V(s), &Node{K: Str, Str: b})))
		for i := 0; i < 3; i++ {
			k := []int{0, n - 1, n, r.N(n + 1)}[r.N(4)]
			out = append(out, S(As(V(t), B("+", B("*", V(t), N(257)), C("char", V(s), N(int64(k)))))))
		}
		if r.P(1, 2) {
			out = append(out, S(C("printf", L("%s\n"), V(s))))
		} else {
			out = append(out, S(C("printf", &Node{K: Str, Str: append(append([]byte{}, b...), '\n')})))
		}
	case 8: // many strings, some alike
		for i := 0; i < n; i++ {
			s := g.str(2)
			k := r.N(len(s.Str) + 1)
			out = append(out, S(As(V(t), B("+", B("*", V(t), N(3)), C("char", s, N(int64(k)))))))
		}
	}
	return append(out, g.show("big", V(t))...)
}

func perm(r *rng.R, n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	r.Shuffle(n, func(i, j int) { p[i], p[j] = p[j], p[i] })
	return p
}
