package pipe

import (
	"fmt"
	"strings"

	"vsim/rng"
)

// tok is a token of a B source: 'i'dentifier, 'n'umber, 's'tring, 'c'haracter
// or the operator character itself.
type tok struct {
	at, end int
	kind    byte
}

func lexB(s string) []tok {
	var l []tok
	for i := 0; i < len(s); {
		c := s[i]
		j := i + 1
		switch {
		case c == ' ' || c >= '\t' && c <= '\r':
			i++
			continue
		case c == '/' && j < len(s) && s[j] == '*':
			k := strings.Index(s[i+2:], "*/")
			if k < 0 {
				return l
			}
			i += k + 4
			continue
		case c == '/' && j < len(s) && s[j] == '/':
			for i < len(s) && s[i] != '\n' {
				i++
			}
			continue
		case c == '"' || c == '\'':
			for j < len(s) && s[j] != c {
				if s[j] == '*' {
					j++
				}
				j++
			}
			j = min(j+1, len(s))
			l = append(l, tok{i, j, map[byte]byte{'"': 's', '\'': 'c'}[c]})
		case c >= '0' && c <= '9':
			for j < len(s) && s[j] >= '0' && s[j] <= '9' {
				j++
			}
			l = append(l, tok{i, j, 'n'})
		case word(c):
			for j < len(s) && word(s[j]) {
				j++
			}
			l = append(l, tok{i, j, 'i'})
		default:
			l = append(l, tok{i, j, c})
		}
		i = j
	}
	return l
}

// breakIt puts one error into a program, of a kind that no context can make
// right: a character that B does not have, a bracket too many or too few, an
// assignment to what is nowhere declared, an end in the middle of a definition.
func breakIt(r *rng.R, s string) string {
	l := lexB(s)
	if len(l) == 0 {
		return s + "@"
	}
	insert := func(at int, x string) string {
		if r.P(1, 2) {
			x = " " + x + " "
		}
		return s[:at] + x + s[at:]
	}
	for try := 0; try < 30; try++ {
		k := r.N(len(l))
		t := l[k]
		switch r.Pick(6, 2, 2, 6, 2) {
		case 0:
			x := []string{"@", "#", "`", "$", "\\"}[r.N(5)]
			if t.kind == 'n' || t.kind == 'c' {
				return s[:t.at] + "'*" + string("ZqA;7"[r.N(5)]) + "'" + s[t.end:]
			}
			if r.P(1, 2) && t.kind != 's' {
				return s[:t.at] + x + s[t.end:]
			}
			return insert(t.at, x)
		case 1:
			return insert(t.at, string("()[]{}"[r.N(6)]))
		case 2:
			if strings.IndexByte("()[]{}", t.kind) >= 0 {
				return s[:t.at] + " " + s[t.end:]
			}
		case 3:
			depth, decl := 0, false
			for i, u := range l[:k] {
				w := s[u.at:u.end]
				switch {
				case u.kind == '{':
					depth++
				case u.kind == '}':
					depth--
				case u.kind == ';':
					decl = false
				case u.kind == 'i' && (w == "auto" || w == "extrn") && (i == 0 || l[i-1].kind != '.'):
					decl = true
				}
			}
			if t.kind != 'i' || depth < 1 || decl || keyword[s[t.at:t.end]] {
				break
			}
			// elsewhere it would be a function of another file
			if k == 0 || strings.IndexByte(";{}", l[k-1].kind) < 0 || k+1 >= len(l) || l[k+1].kind != '=' {
				break
			}
			return s[:t.at] + fmt.Sprintf("nowhere%d", r.N(1000)) + s[t.end:]
		case 4:
			depth := 0
			for _, u := range l[:k] {
				switch u.kind {
				case '(', '[', '{':
					depth++
				case ')', ']', '}':
					depth--
				}
			}
			if depth > 0 {
				return s[:t.at]
			}
		}
	}
	return insert(l[r.N(len(l))].at, "@")
}

var keyword = map[string]bool{"if": true, "else": true, "while": true, "switch": true, "case": true, "goto": true, "return": true, "auto": true, "extrn": true}
