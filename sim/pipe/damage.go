package pipe

import (
	"bytes"
	"fmt"
	"os"
	"os/exec"
	"strings"

	"vsim/bl"
	"vsim/rng"
	"vsim/simrt"
)

var tokens = []string{
	"auto", "extrn", "if", "else", "while", "switch", "case", "goto", "return", "main", "(", ")", "{", "}", "[", "]", ";", ":", ",", "=", "==", "=+", "=-", "=*", "=/", "=%", "=<<", "=>>", "=&", "=|", "=<", "=>", "===", "=!=", "+=", "-=", "++", "--", "+", "-", "*", "/", "%", "&", "|", "^", "~", "!", "!=", "<", "<=", ">", ">=", "<<", ">>", "?", "&&", "||", "0", "1", "08", "077", "9223372036854775807", "18446744073709551616", "99999999999999999999999", "0777777777777777777777777", "-1", "'a'", "'*e'", "'*n'", "'**'", "''", "'", "'abcdefgh'", "'abcdefghi'", "'*", "\"", "\"x\"", "\"*\"\"", "\"*", "\"\"", "/*", "*/", "/* c */", "//", "a", "b", "x", "printf", "a[1]", "a()", "f(1)", ".", "$", "#", "@", "\\", "`", "\x00", "\xff", "é", "\r", "\t", "\n", "\v", "\f", "\x04", "\x7f", "_", "a.b", "*a", "&a", "**a", "a++", "++a", "-a", "!a", "~a", "a?b:c", "a:", "goto a;", "case 1:", "auto a;", "auto v[3];", "auto v[99999999999];", "extrn a;", "return;", "return(a);", "switch(a){case 1:}", "while(1)", "if(a)", "else;", "{}", ";;", "[10]", "[-1]", "[a]", "['a']", "v[3] 1,2,3;", "s \"x\";", "f();", "f(a,b){}", "f(a,a);", "main;", "&", "&&a", "a=b=c", "a==b==c", "1=a", "f()=1", "&1", "*1", "\"s\"[0]", "1[v]", "f()[1]", "a[1][2]", "f()()", "1()", "(a)()", "(a,b)", "()", "-a++", "a+++b", "a---b", "a- -b", "&a[1]", "&f()", "*&a", "&*a", "a=&b", "a = & b", "a =- 1", "x=+++y",
}

// damage returns the bytes truncated, with pieces lost, doubled, flipped,
// moved or mixed with others.
func damage(r *rng.R, b []byte) []byte {
	b = append([]byte{}, b...)
	for k := r.Pick(0, 5, 3, 2, 1); k > 0; k-- {
		n := len(b)
		at := r.N(n + 1)
		end := min(n, at+r.Range(1, []int{1, 3, 12, 80}[r.N(4)]))
		switch r.N(13) {
		case 0:
			b = b[:at]
		case 1:
			b = append(b[:at:at], b[end:]...)
		case 2:
			c := append([]byte{}, b[at:end]...)
			for t := r.Pick(0, 4, 1, 1); t > 0; t-- {
				b = append(b[:at:at], append(append([]byte{}, c...), b[at:]...)...)
			}
		case 3:
			if at < n {
				b[at] ^= 1 << r.N(8)
			}
		case 4:
			if at < n {
				b[at] = byte(r.U64())
			}
		case 5, 6, 7:
			t := tokens[r.N(len(tokens))]
			if r.P(1, 2) {
				t = " " + t + " "
			}
			b = append(b[:at:at], append([]byte(t), b[at:]...)...)
		case 8: // replace a word
			i := at
			for i < n && !word(b[i]) {
				i++
			}
			j := i
			for j < n && word(b[j]) {
				j++
			}
			b = append(b[:i:i], append([]byte(tokens[r.N(len(tokens))]), b[j:]...)...)
		case 9: // splice
			c := []byte(source(r))
			k := r.N(len(c) + 1)
			b = append(b[:at:at], c[k:]...)
		case 10: // exchange pieces
			at2 := r.N(n + 1)
			if at2 < end {
				break
			}
			end2 := min(n, at2+r.Range(1, 12))
			x := append([]byte{}, b[:at]...)
			x = append(x, b[at2:end2]...)
			x = append(x, b[end:at2]...)
			x = append(x, b[at:end]...)
			b = append(x, b[end2:]...)
		case 11: // drop a delimiter
			for t := 0; t < 40 && n > 0; t++ {
				i := r.N(n)
				if strings.IndexByte("(){}[];,:'\"*/", b[i]) >= 0 {
					b = append(b[:i:i], b[i+1:]...)
					break
				}
			}
		case 12: // one delimiter for another
			for t := 0; t < 40 && n > 0; t++ {
				i := r.N(n)
				d := "(){}[];,:'\"*/=+-&|<>!"
				if strings.IndexByte(d, b[i]) >= 0 {
					b[i] = d[r.N(len(d))]
					break
				}
			}
		}
	}
	return b
}

func word(c byte) bool {
	return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '_'
}

// soup is text with the shape of a program.
func soup(r *rng.R) string {
	var b strings.Builder
	switch r.N(4) {
	case 0: // tokens
		for n := r.Range(1, 60); n > 0; n-- {
			b.WriteString(tokens[r.N(len(tokens))])
			if r.P(2, 3) {
				b.WriteByte(' ')
			}
		}
	case 1: // a function of random statements
		b.WriteString("v[4]; x 1; s \"abc\"; f(a,b) { return (a); }\nmain() {")
		if r.P(4, 5) {
			b.WriteString(" auto a, b, c, w[3]; extrn v, x, s;")
		}
		for n := r.Range(1, 12); n > 0; n-- {
			b.WriteString(stmt(r, 3))
		}
		b.WriteString("}\n")
	case 2: // definitions
		for n := r.Range(1, 10); n > 0; n-- {
			nm := []string{"a", "b", "x", "main", "f", "printf", "v"}[r.N(7)]
			switch r.N(7) {
			case 0:
				fmt.Fprintf(&b, "%s;", nm)
			case 1:
				fmt.Fprintf(&b, "%s %s;", nm, ivals(r))
			case 2:
				fmt.Fprintf(&b, "%s[%s] %s;", nm, konst(r), ivals(r))
			case 3:
				fmt.Fprintf(&b, "%s[%s];", nm, konst(r))
			case 4:
				fmt.Fprintf(&b, "%s[] %s;", nm, ivals(r))
			case 5:
				fmt.Fprintf(&b, "%s(%s) %s", nm, []string{"", "a", "a,b", "a,a", "1", "a b", ","}[r.N(7)], stmt(r, 2))
			default:
				fmt.Fprintf(&b, "%s() { extrn a, b, x, v; auto c; %s }", nm, stmt(r, 2))
			}
			b.WriteByte("\n  "[r.N(3)])
		}
	default: // bytes
		for n := r.Range(0, 80); n > 0; n-- {
			if r.P(1, 3) {
				b.WriteByte(byte(r.U64()))
			} else {
				b.WriteByte(byte(r.Range(32, 126)))
			}
		}
	}
	return b.String()
}

func konst(r *rng.R) string {
	return []string{"0", "1", "2", "10", "3", "07", "'a'", "'ab'", "-1", "-3", "\"s\"", "\"\"", "x", "v", "main", "f", "'*e'", "1000", "9223372036854775807", "4611686018427387904", "&x", "1+1", ""}[r.N(23)]
}

func ivals(r *rng.R) string {
	var l []string
	for n := r.N(6); n > 0; n-- {
		l = append(l, konst(r))
	}
	return strings.Join(l, []string{",", ", ", " "}[r.Pick(4, 4, 1)])
}

func expr(r *rng.R, d int) string {
	if d <= 0 || r.P(1, 5) {
		return []string{"a", "b", "c", "x", "v", "w", "s", "1", "0", "'x'", "\"str\"", "f", "main", "a", "v[1]", "w[a]", "*w", "nowhere", "f(1,2)", "printf(\"%d\",a)", "getchar()"}[r.N(21)]
	}
	e := func() string { return expr(r, d-1) }
	switch r.N(12) {
	case 0, 1, 2:
		op := []string{"+", "-", "*", "/", "%", "&", "|", "^", "<<", ">>", "<", "<=", ">", ">=", "==", "!=", "&&", "||"}[r.N(18)]
		return e() + op + e()
	case 3:
		return "(" + e() + ")"
	case 4:
		return []string{"-", "!", "~", "*", "&", "++", "--"}[r.N(7)] + e()
	case 5:
		return e() + []string{"++", "--"}[r.N(2)]
	case 6:
		return e() + "?" + e() + ":" + e()
	case 7:
		return e() + "[" + e() + "]"
	case 8:
		return e() + "(" + e() + ")"
	case 9, 10:
		return e() + []string{"=", "=+", "=-", "=*", "=/", "=%", "=<<", "=>>", "=&", "=|", "=^", "===", "=!=", "=<", "=<=", "=>", "=>="}[r.N(17)] + e()
	}
	return e() + " , " + e()
}

func stmt(r *rng.R, d int) string {
	if d <= 0 {
		return expr(r, 1) + ";"
	}
	s := func() string { return stmt(r, d-1) }
	switch r.N(17) {
	case 0:
		return "if (" + expr(r, 2) + ") " + s()
	case 1:
		return "if (" + expr(r, 2) + ") " + s() + " else " + s()
	case 2:
		return "while (" + expr(r, 2) + ") " + s()
	case 3:
		return "switch (" + expr(r, 2) + ") { case " + konst(r) + ": " + s() + " case " + konst(r) + ": " + s() + "}"
	case 4:
		return "switch " + expr(r, 1) + s()
	case 5:
		return "case " + konst(r) + ": " + s()
	case 6:
		return "goto " + []string{"L", "M", "a", "f", "nowhere", "L"}[r.N(6)] + ";"
	case 7:
		return []string{"L", "M", "a", "L1"}[r.N(4)] + ": " + s()
	case 8:
		return "{" + s() + s() + "}"
	case 9:
		return "auto " + []string{"a", "q", "q[2]", "q 3", "a,b", "w", "q[0]", "q[-1]", "q['a']", "L"}[r.N(10)] + ";"
	case 10:
		return "extrn " + []string{"a", "x", "f", "g1", "x,v", "printf", "main"}[r.N(7)] + ";"
	case 11:
		return "return" + []string{"", " (" + expr(r, 2) + ")", " " + expr(r, 1)}[r.N(3)] + ";"
	case 12:
		return ";"
	}
	return expr(r, 3) + ";"
}

// extreme is a program that is extreme in one respect.
func extreme(r *rng.R) string {
	n := []int{50, 300, 3000, 40000}[r.Pick(3, 3, 2, 1)]
	rep := strings.Repeat
	kind := r.N(15)
	if r.P(1, 12) {
		// deeper than any stack
		n = 3000000
		kind = []int{0, 1, 2, 3, 4, 6, 7}[r.N(7)]
	}
	switch kind {
	case 0:
		return "main() { auto a; a = " + rep("(", n) + "1" + rep(")", n-r.N(2)) + "; }"
	case 1:
		return "main() { " + rep("{", n) + rep("}", n-r.N(2)) + " }"
	case 2:
		return "main() { auto a; a = " + rep([]string{"-", "!", "~", "*", "&", "- "}[r.N(6)], n) + "a; }"
	case 3:
		return "main() { auto a; " + rep("if (a) ", n) + "; }"
	case 4:
		return "main() { auto a; " + rep("while (a) ", n) + "; }"
	case 5:
		return "main() { auto a; a = a" + rep(" + a", n) + "; }"
	case 6:
		return "main() { auto a; a = " + rep("a ? a : ", n) + "a; }"
	case 7:
		return "main() { auto a; " + rep("a = ", n) + "1; }"
	case 8:
		p, l := rep("p", n), rep("L", n)
		return rep("x", n) + "(" + p + ") { auto " + rep("y", n) + "; goto " + l + "2; " + l + "1: return(" + p + "); " + l + "2: goto " + l + "1; }"
	case 9:
		return "main() { auto a; a = a" + rep("[0]", n) + "; a" + rep("()", min(n, 3000)) + "; }"
	case 10:
		return "main() { printf(\"" + rep("abc*n", n) + "\"); }"
	case 11:
		return "v[" + fmt.Sprint(r.U64()>>r.N(64)) + "] " + ivals(r) + "; main() { auto w[" + fmt.Sprint(r.U64()>>r.N(64)) + "]; }"
	case 12:
		return "v " + rep("1,", n) + "1; main() { f(" + rep("1,", min(n, 3000)) + "1); }"
	case 13:
		return "main() { switch (1) { " + cases(min(n, 3000)) + " } }"
	default:
		return rep("/* ", n) + "*/ main() { " + rep("L: ", 1) + rep(";", n) + "}" + rep("\n", n)
	}
}

func cases(n int) string {
	var b strings.Builder
	for i := 0; i < n; i++ {
		fmt.Fprintf(&b, "case %d: ", i)
	}
	b.WriteString(";")
	return b.String()
}

func genDamaged(b *builder) {
	r := b.r
	var src []byte
	switch r.Pick(7, 6, 1, 1, 12) {
	case 4:
		p := tiny
		if r.P(1, 4) {
			p = medium
		}
		src = []byte(program(r, p))
		if r.P(1, 5) {
			src = []byte(snippets[r.N(len(snippets))])
		}
		src = []byte(mutate(r, string(src)))
	case 0:
		p := tiny
		if r.P(1, 4) {
			p = medium
		}
		if r.P(1, 4) {
			src = []byte(snippets[r.N(len(snippets))])
		} else {
			src = []byte(program(r, p))
		}
		src = damage(r, src)
	case 1:
		src = []byte(soup(r))
		if r.P(1, 3) {
			src = damage(r, src)
		}
	case 2:
		src = []byte(extreme(r))
	default:
		src = []byte(program(r, bl.Profile(medium)))
		// cut off exactly somewhere
		src = src[:r.N(len(src)+1)]
	}
	b.file("/simfs/w/x.b", src)
	b.s.Cmds = []Cmd{{Mode: "ll", Inputs: []string{"x.b"}, Cwd: "/simfs/w", Env: []string{"PATH=/usr/bin", "HOME=/root"}}}
	b.s.Cfg = simrt.Config{}
	if r.P(1, 3) {
		b.s.Cfg.Map, b.s.Cfg.Chunk = r.U64()|1, r.U64()|1
	}
}

var llvmAs = "llvm-as"

// verifyIR asks LLVM whether the module is valid.
func verifyIR(ir string) string {
	c := exec.Command(llvmAs, "-o", "/dev/null", "-")
	c.Stdin = strings.NewReader(ir)
	var e bytes.Buffer
	c.Stderr = &e
	if err := c.Run(); err != nil {
		if c.ProcessState == nil {
			fmt.Fprintln(os.Stderr, "psim: cannot run llvm-as:", err)
			os.Exit(3)
		}
		msg := e.String()
		if len(msg) > 400 {
			msg = msg[:400]
		}
		if msg == "" {
			msg = err.Error()
		}
		return msg
	}
	return ""
}
