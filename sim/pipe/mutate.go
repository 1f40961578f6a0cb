package pipe

import (
	"strings"

	"vsim/rng"
)

// lexemes splits a source so that concatenation gives it back.
func lexemes(s string) []string {
	var l []string
	for i := 0; i < len(s); {
		j := i + 1
		c := s[i]
		switch {
		case strings.IndexByte(" \t\r\n", c) >= 0:
			for j < len(s) && strings.IndexByte(" \t\r\n", s[j]) >= 0 {
				j++
			}
		case strings.HasPrefix(s[i:], "/*"):
			if k := strings.Index(s[i+2:], "*/"); k >= 0 {
				j = i + 2 + k + 2
			} else {
				j = len(s)
			}
		case word(c):
			for j < len(s) && word(s[j]) {
				j++
			}
		case c == '"' || c == '\'':
			for j < len(s) && s[j] != c {
				if s[j] == '*' {
					j++
				}
				j++
			}
			j = min(j+1, len(s))
		default:
			for _, op := range ops3 {
				if strings.HasPrefix(s[i:], op) {
					j = i + len(op)
					break
				}
			}
		}
		l = append(l, s[i:j])
		i = j
	}
	return l
}

var ops3 = []string{"=<<", "=>>", "=<=", "=>=", "===", "=!=", "<<", ">>", "<=", ">=", "==", "!=", "++", "--", "=+", "=-", "=*", "=/", "=%", "=&", "=|", "=<", "=>"}

var kinds = [][]string{
	{"+", "-", "*", "/", "%", "&", "|", "<<", ">>", "<", "<=", ">", ">=", "==", "!=", "=", "=+", "=-", "=*", "=/", "=%", "=&", "=|", "=<<", "=>>", "===", "=!=", "=<", "=>", "=<=", "=>="},
	{"++", "--", "-", "!", "*", "&"},
	{"if", "while", "switch"},
	{"auto", "extrn"},
	{"{", "}"}, {"(", "["}, {")", "]"}, {",", ";"},
}

var keywords = map[string]bool{"auto": true, "extrn": true, "if": true, "else": true, "while": true, "switch": true, "case": true, "goto": true, "return": true}

func isName(t string) bool {
	return t != "" && word(t[0]) && (t[0] < '0' || t[0] > '9') && !keywords[t]
}

// mutate changes a source the way a programmer's slip would: it stays close
// to a program.
func mutate(r *rng.R, src string) string {
	t := lexemes(src)
	var names []string
	for _, x := range t {
		if isName(x) {
			names = append(names, x)
		}
	}
	if len(names) == 0 {
		return src
	}
	name := func() string { return names[r.N(len(names))] }
	// a random place holding a token for which f holds
	find := func(f func(string) bool) int {
		for k := 0; k < 60 && len(t) > 0; k++ {
			if i := r.N(len(t)); f(t[i]) {
				return i
			}
		}
		return -1
	}
	is := func(x string) func(string) bool { return func(y string) bool { return x == y } }
	insert := func(i int, x ...string) { t = append(t[:i:i], append(append([]string{}, x...), t[i:]...)...) }
	// the token span after i up to the matching ; or closing brace
	span := func(i int) int {
		d := 0
		for j := i; j < len(t); j++ {
			switch t[j] {
			case "(", "[", "{":
				d++
			case ")", "]", "}":
				d--
				if d < 0 {
					return j
				}
				if d == 0 && t[j] == "}" {
					return j + 1
				}
			case ";":
				if d == 0 {
					return j + 1
				}
			}
		}
		return len(t)
	}
	start := func() int { // of a statement or definition
		i := find(func(x string) bool { return x == ";" || x == "{" || x == "}" || x == ":" })
		if i < 0 {
			return 0
		}
		i++
		for i < len(t) && strings.TrimSpace(t[i]) == "" {
			i++
		}
		return i
	}
	for k := r.Range(1, 4); k > 0 && len(t) > 0; k-- {
		switch r.N(19) {
		case 0, 1, 2: // another name
			if i := find(isName); i >= 0 {
				t[i] = name()
			}
		case 3, 4: // another operator or keyword of the class
			if i := find(func(x string) bool { return class(x) != nil }); i >= 0 {
				c := class(t[i])
				t[i] = c[r.N(len(c))]
			}
		case 5: // another constant
			if i := find(func(x string) bool {
				return x != "" && x[0] >= '0' && x[0] <= '9' || strings.HasPrefix(x, "'") || strings.HasPrefix(x, "\"")
			}); i >= 0 {
				t[i] = konst(r)
			}
		case 6: // a constant or call for a name
			if i := find(isName); i >= 0 {
				t[i] = []string{konst(r), name() + "()", name() + "[" + name() + "]", "*" + name(), "&" + name(), name() + "++", "(" + name() + "?" + name() + ":1)", name() + "(" + name() + ",2)"}[r.N(8)]
			}
		case 7, 8: // a statement or definition goes
			i := start()
			t = append(t[:i:i], t[span(i):]...)
		case 9, 10: // comes again, somewhere
			i := start()
			j := span(i)
			insert(start(), t[i:j]...)
		case 11: // moves
			i := start()
			j := span(i)
			x := append([]string{}, t[i:j]...)
			t = append(t[:i:i], t[j:]...)
			insert(start(), x...)
		case 12: // becomes part of another
			i := start()
			insert(i, []string{"if (" + name() + ") ", "while (" + name() + ") ", "switch (" + name() + ") ", "{ ", "L" + string(rune('0'+r.N(3))) + ": ", "case " + konst(r) + ": ", "else ", "if (0) ; else "}[r.N(8)])
		case 13: // new statement
			insert(start(), " "+stmt(r, 2)+" ")
		case 14:
			insert(start(), []string{" auto ", " extrn "}[r.N(2)]+name()+[]string{";", "[3];", "[0];", ", " + name() + ";"}[r.N(4)]+" ")
		case 15:
			insert(start(), " goto "+[]string{"L0", "L1", "L2", name()}[r.N(4)]+"; ")
		case 16: // definitions around
			nm := name()
			d := []string{nm + ";", nm + " 1;", nm + "[3];", nm + "[2] 1,2,3;", nm + "() ;", nm + "(a) return(a);", nm + " " + name() + ";", nm + "[] &" + name() + ";"}[r.N(8)] + "\n"
			if r.P(1, 2) {
				insert(0, d)
			} else {
				insert(len(t), d)
			}
		case 17: // a parameter or argument more or less
			if i := find(is(",")); i >= 0 && r.P(1, 2) {
				t = append(t[:i:i], t[min(i+2, len(t)):]...)
			} else if i := find(is("(")); i >= 0 {
				insert(i+1, name()+", ")
			}
		case 18: // one expression for another
			if i := find(is("(")); i >= 0 {
				j := i
				for d := 0; j < len(t); j++ {
					if t[j] == "(" {
						d++
					} else if t[j] == ")" {
						if d--; d == 0 {
							break
						}
					}
				}
				if j < len(t) {
					t = append(append(t[:i+1:i+1], expr(r, 3)), t[j:]...)
				}
			}
		}
	}
	return strings.Join(t, "")
}

func class(x string) []string {
	for _, c := range kinds {
		for _, y := range c {
			if x == y {
				return c
			}
		}
	}
	return nil
}
