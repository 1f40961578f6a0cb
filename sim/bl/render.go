package bl

import (
	"fmt"
	"strings"

	"vsim/rng"
)

// Style controls the layout of rendered text.
type Style struct {
	R        *rng.R // nil: plain layout
	Comments bool   // put comments between tokens
	Parens   bool   // add redundant parentheses
	Tight    bool   // leave out white space wherever possible
}

type rend struct {
	st   Style
	toks []string
}

// precedence levels, from the reference manual: higher binds tighter
func prec(op string) int {
	switch op {
	case "*", "/", "%":
		return 10
	case "+", "-":
		return 9
	case "<<", ">>":
		return 8
	case "<", "<=", ">", ">=":
		return 7
	case "==", "!=":
		return 6
	case "&":
		return 5
	case "|":
		return 4
	}
	panic("operator " + op)
}

const (
	precAssign  = 1
	precCond    = 2
	precUnary   = 11
	precPostfix = 12
)

func (n *Node) prec() int {
	switch n.K {
	case Num:
		if n.Val < 0 && n.Aux == 0 {
			return precUnary
		}
		return precPostfix + 1
	case Str, Var:
		return precPostfix + 1
	case Index, Call, PostInc:
		return precPostfix
	case Deref, Addr, Unary, PreInc:
		return precUnary
	case Bin:
		return prec(n.Op)
	case Cond:
		return precCond
	case Assign:
		return precAssign
	}
	panic(fmt.Sprint("kind ", n.K))
}

func (r *rend) t(s string) { r.toks = append(r.toks, s) }

// expr renders n where at least precedence min is required.
func (r *rend) expr(n *Node, min int, lvalue bool) {
	p := n.prec() < min
	if !p && !lvalue && r.st.Parens && r.st.R != nil && n.K != Str && r.st.R.P(1, 12) {
		p = true
	}
	if p {
		r.t("(")
		min = 0
	}
	switch n.K {
	case Num:
		r.num(n)
	case Str:
		r.t("\"" + escape(n.Str, '"') + "\"")
	case Var:
		r.t(n.Name)
	case Index:
		r.expr(n.Kids[0], precPostfix, n.Kids[0].isLv())
		r.t("[")
		r.expr(n.Kids[1], 0, false)
		r.t("]")
	case Deref:
		r.t("*")
		r.expr(n.Kids[0], precUnary, false)
	case Addr:
		r.t("&")
		r.expr(n.Kids[0], precUnary, true)
	case Unary:
		r.t(n.Op)
		r.expr(n.Kids[0], precUnary, false)
	case PreInc:
		r.t(n.Op)
		r.expr(n.Kids[0], precUnary, true)
	case PostInc:
		r.expr(n.Kids[0], precPostfix, true)
		r.t(n.Op)
	case Bin:
		q := prec(n.Op)
		r.expr(n.Kids[0], q, false)
		r.t(n.Op)
		r.expr(n.Kids[1], q+1, false)
	case Cond:
		r.expr(n.Kids[0], precCond+1, false)
		r.t("?")
		r.expr(n.Kids[1], precCond+1, false)
		r.t(":")
		r.expr(n.Kids[2], precCond, false)
	case Assign:
		r.expr(n.Kids[0], precUnary, true)
		r.t("=" + n.Op)
		r.expr(n.Kids[1], precAssign, false)
	case Call:
		r.expr(n.Kids[0], precPostfix, true)
		r.t("(")
		for i, a := range n.Kids[1:] {
			if i > 0 {
				r.t(",")
			}
			r.expr(a, precAssign, false)
		}
		r.t(")")
	default:
		panic("expr")
	}
	if p {
		r.t(")")
	}
}

func (n *Node) isLv() bool { return n.K == Var || n.K == Index || n.K == Deref }

func (r *rend) num(n *Node) {
	switch n.Aux {
	case 1:
		if n.Val >= 0 {
			r.t(fmt.Sprintf("0%o", n.Val))
			return
		}
	case 2:
		r.t("'" + escape(n.Str, '\'') + "'")
		return
	}
	if n.Val < 0 {
		r.t("-")
		r.t(fmt.Sprintf("%d", uint64(-n.Val)))
		return
	}
	r.t(fmt.Sprintf("%d", n.Val))
}

func escape(b []byte, q byte) string {
	var s strings.Builder
	for _, c := range b {
		switch c {
		case 0:
			s.WriteString("*0")
		case '*':
			s.WriteString("**")
		case '\n':
			s.WriteString("*n")
		case '\t':
			s.WriteString("*t")
		case '\r':
			s.WriteString("*r")
		case '\'', '"':
			if c == q {
				s.WriteByte('*')
			}
			s.WriteByte(c)
		case '{':
			if q == '"' {
				s.WriteString("*(")
			} else {
				s.WriteByte(c)
			}
		case '}':
			if q == '"' {
				s.WriteString("*)")
			} else {
				s.WriteByte(c)
			}
		default:
			s.WriteByte(c)
		}
	}
	return s.String()
}

// CharVal is the value of a character constant.
func CharVal(b []byte) int64 {
	var v int64
	for _, c := range b {
		v = v<<8 | int64(c)
	}
	return v
}

func (r *rend) stmt(n *Node) {
	switch n.K {
	case ExprS:
		r.expr(n.Kids[0], 0, true)
		r.t(";")
	case If:
		r.t("if")
		r.t("(")
		r.expr(n.Kids[0], 0, false)
		r.t(")")
		then := n.Kids[1]
		if len(n.Kids) > 2 && danglingElse(then) {
			r.t("{")
			r.stmt(then)
			r.t("}")
		} else {
			r.stmt(then)
		}
		if len(n.Kids) > 2 {
			r.t("else")
			r.stmt(n.Kids[2])
		}
	case While:
		r.t("while")
		r.t("(")
		r.expr(n.Kids[0], 0, false)
		r.t(")")
		r.stmt(n.Kids[1])
	case Switch:
		r.t("switch")
		r.t("(")
		r.expr(n.Kids[0], 0, false)
		r.t(")")
		r.stmt(n.Kids[1])
	case Case:
		r.t("case")
		r.num(n)
		r.t(":")
		r.stmt(n.Kids[0])
	case Label:
		r.t(n.Name)
		r.t(":")
		r.stmt(n.Kids[0])
	case Goto:
		r.t("goto")
		r.t(n.Name)
		r.t(";")
	case Return:
		r.t("return")
		if len(n.Kids) > 0 {
			r.t("(")
			r.expr(n.Kids[0], 0, false)
			r.t(")")
		}
		r.t(";")
	case Block:
		r.t("{")
		for _, s := range n.Kids {
			r.stmt(s)
		}
		r.t("}")
	case Spin:
		for _, t := range Spins[n.Aux%len(Spins)] {
			if t == "@" {
				t = n.Name
			}
			r.t(t)
		}
	case Null:
		r.t(";")
	case Auto:
		r.t("auto")
		for i, d := range n.Kids {
			if i > 0 {
				r.t(",")
			}
			r.t(d.Name)
			if d.Val >= 0 {
				r.t("[")
				switch d.Aux {
				case 1:
				case 2:
					r.t("'" + escape(d.Str, '\'') + "'")
				default:
					r.t(fmt.Sprint(d.Val))
				}
				r.t("]")
			}
		}
		r.t(";")
	case Extrn:
		r.t("extrn")
		for i, s := range n.Names {
			if i > 0 {
				r.t(",")
			}
			r.t(s)
		}
		r.t(";")
	default:
		panic("stmt")
	}
}

// danglingElse reports whether an else after n would attach inside n.
func danglingElse(n *Node) bool {
	switch n.K {
	case If:
		return len(n.Kids) == 2 || danglingElse(n.Kids[2])
	case While, Switch:
		return danglingElse(n.Kids[1])
	case Label, Case:
		return danglingElse(n.Kids[0])
	}
	return false
}

func (r *rend) top(t Top) {
	if g := t.G; g != nil {
		r.t(g.Name)
		if g.Vec {
			r.t("[")
			if g.Size >= 0 {
				r.t(fmt.Sprint(g.Size))
			}
			r.t("]")
		}
		for i, v := range g.Inits {
			if i > 0 {
				r.t(",")
			}
			if v.K == Str {
				r.t("\"" + escape(v.Str, '"') + "\"")
			} else {
				r.num(v)
			}
		}
		r.t(";")
		return
	}
	r.t(t.F.Name)
	r.t("(")
	for i, p := range t.F.Params {
		if i > 0 {
			r.t(",")
		}
		r.t(p)
	}
	r.t(")")
	r.stmt(t.F.Body)
}

func isWord(c byte) bool {
	return c == '_' || c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z'
}

func needSpace(a, b string) bool {
	x, y := a[len(a)-1], b[0]
	if isWord(x) && isWord(y) {
		return true
	}
	opish := func(c byte) bool { return strings.IndexByte("+-*/%&|<>=!", c) >= 0 }
	if strings.HasPrefix(a, "\"") || strings.HasPrefix(a, "'") {
		x = 'x'
	}
	return opish(x) && opish(y)
}

// Text renders the declarations to source text.
func Text(tops []Top, st Style) string {
	var out strings.Builder
	for _, t := range tops {
		r := &rend{st: st}
		r.top(t)
		r.layout(&out)
		out.WriteByte('\n')
	}
	return out.String()
}

func (r *rend) layout(out *strings.Builder) {
	g := r.st.R
	depth := 0
	for i, t := range r.toks {
		if t == "}" {
			depth--
		}
		if i > 0 {
			prev := r.toks[i-1]
			need := needSpace(prev, t)
			switch {
			case g == nil:
				// plain layout
				switch {
				case prev == "{" || prev == ";" || prev == "}" || t == "}":
					out.WriteByte('\n')
					for k := 0; k < depth; k++ {
						out.WriteByte('\t')
					}
				case need || prev == "," || prev == ")" && isWord(t[0]) || strings.Contains("+ - * / % & | << >> < > <= >= == != ? :", t) && t != ":" || strings.HasPrefix(prev, "=") || strings.HasPrefix(t, "="):
					out.WriteByte(' ')
				case strings.Contains("+ - / % | << >> < > <= >= == != ? :", prev):
					out.WriteByte(' ')
				case isWord(prev[len(prev)-1]) && (t[0] == '"' || t[0] == '\'' || t[0] == '-'):
					out.WriteByte(' ')
				}
			default:
				k := g.N(20)
				if r.st.Tight {
					k = 0
				}
				switch {
				case r.st.Comments && k == 19:
					if strings.IndexByte("+-*/%&|<>=!", prev[len(prev)-1]) >= 0 {
						out.WriteByte(' ') // "=/" is an operator
					}
					out.WriteString([]string{"/**/", "/* x */", "/*\n*/", " /* a*b */ ", "/***/", "/* / */"}[g.N(6)])
				case k >= 17:
					out.WriteByte('\n')
				case k == 16:
					out.WriteString("\t ")
				case k >= 9 || need:
					out.WriteByte(' ')
				}
			}
		}
		out.WriteString(t)
		if t == "{" {
			depth++
		}
	}
}

// Spins are the ways to run for ever; "@" stands for the name of the node.
var Spins = [][]string{
	{"while", "(", "1", ")", ";"},
	{"while", "(", "2", ")", "{", "}"},
	{"@", ":", "goto", "@", ";"},
	{"while", "(", "'a'", ")", "{", "if", "(", "0", ")", "return", ";", "}"},
	{"while", "(", "!", "0", ")", "while", "(", "1", ")", ";"},
	{"@", ":", "if", "(", "1", ")", "goto", "@", ";"},
	{"while", "(", "1", ")", "{", "1", "+", "2", ";", "}"},
	{"{", "@", ":", ";", "while", "(", "0", ")", ";", "goto", "@", ";", "}"},
}
