// Package bl holds the B language model: syntax trees, a renderer to source
// text, a reference interpreter, and a program generator. It is written from
// the language definition, not from the compiler.
package bl

// Kind of a node.
type Kind int

// Node kinds.
const (
	// expressions
	Num     Kind = iota // Val; Aux 0 decimal, 1 octal, 2 character constant (Str)
	Str                 // Str
	Var                 // Name
	Index               // kids: base, index
	Deref               // kid
	Addr                // kid (lvalue)
	Unary               // Op "-" "!"; kid
	PreInc              // Op "++" "--"; kid lvalue
	PostInc             // Op; kid lvalue
	Bin                 // Op; two kids
	Cond                // three kids
	Assign              // Op "" or operator; kids lvalue, value
	Call                // kids: callee, args...
	// statements
	ExprS   // kid
	If      // cond, then [, else]
	While   // cond, body
	Switch  // value, body
	Case    // Val (Aux as Num), kid statement
	Label   // Name, kid statement
	Goto    // Name
	Return  // optional kid
	Block   // kids
	Null    //
	Spin    // runs for ever without doing anything; Name, Aux chooses how it is written
	Auto    // kids: Decl
	Extrn   // Names
	Decl    // Name, Val = -1 scalar, else vector size; Aux 1: size omitted, 2: char constant
	numKind //
)

// Node is one node of the tree.
type Node struct {
	K     Kind     `json:"k"`
	Op    string   `json:"op,omitempty"`
	Name  string   `json:"n,omitempty"`
	Names []string `json:"ns,omitempty"`
	Val   int64    `json:"v,omitempty"`
	Aux   int      `json:"a,omitempty"`
	Str   []byte   `json:"s,omitempty"`
	Kids  []*Node  `json:"c,omitempty"`
}

// IsStmt reports whether the node is a statement.
func (n *Node) IsStmt() bool { return n.K >= ExprS && n.K <= Extrn }

// Global is an external variable definition.
type Global struct {
	Name   string  `json:"name"`
	Vec    bool    `json:"vec,omitempty"`
	Size   int64   `json:"size,omitempty"` // vector size as written, -1 omitted
	Inits  []*Node `json:"init,omitempty"` // Num (possibly negative) or Str
	Values int     `json:"-"`
}

// Func is a function definition.
type Func struct {
	Name   string   `json:"name"`
	Params []string `json:"params,omitempty"`
	Body   *Node    `json:"body"`
}

// Top is one top-level declaration.
type Top struct {
	G *Global `json:"g,omitempty"`
	F *Func   `json:"f,omitempty"`
}

// Program is a whole program.
type Program struct {
	Tops []Top `json:"tops"`
}

// Clone copies a program deeply.
func (p *Program) Clone() *Program {
	q := &Program{}
	for _, t := range p.Tops {
		var u Top
		if t.G != nil {
			g := *t.G
			g.Inits = cloneList(t.G.Inits)
			u.G = &g
		}
		if t.F != nil {
			f := *t.F
			f.Params = append([]string(nil), t.F.Params...)
			f.Body = t.F.Body.Clone()
			u.F = &f
		}
		q.Tops = append(q.Tops, u)
	}
	return q
}

func cloneList(l []*Node) []*Node {
	var r []*Node
	for _, n := range l {
		r = append(r, n.Clone())
	}
	return r
}

// Clone copies a tree.
func (n *Node) Clone() *Node {
	if n == nil {
		return nil
	}
	m := *n
	m.Names = append([]string(nil), n.Names...)
	m.Str = append([]byte(nil), n.Str...)
	m.Kids = cloneList(n.Kids)
	return &m
}

// Size counts nodes.
func (p *Program) Size() int {
	k := 0
	var walk func(n *Node)
	walk = func(n *Node) {
		k++
		for _, c := range n.Kids {
			walk(c)
		}
	}
	for _, t := range p.Tops {
		k++
		if t.F != nil {
			walk(t.F.Body)
		}
		if t.G != nil {
			k += len(t.G.Inits)
		}
	}
	return k
}

// Builtins lists the runtime's functions and whether they return a value.
var Builtins = map[string]bool{
	"char": true, "read": true, "nread": true, "nwrite": true,
	"lchar": false, "write": false, "writeb": false, "printf": false,
	"printd": false, "printo": false, "flush": false, "exit": false,
}

// N builds a number.
func N(v int64) *Node { return &Node{K: Num, Val: v} }

// V builds a variable reference.
func V(name string) *Node { return &Node{K: Var, Name: name} }

// B builds a binary operation.
func B(op string, a, b *Node) *Node { return &Node{K: Bin, Op: op, Kids: []*Node{a, b}} }

// C builds a call of a named function.
func C(name string, args ...*Node) *Node {
	return &Node{K: Call, Kids: append([]*Node{V(name)}, args...)}
}

// S builds an expression statement.
func S(e *Node) *Node { return &Node{K: ExprS, Kids: []*Node{e}} }

// As builds a simple assignment.
func As(l, r *Node) *Node { return &Node{K: Assign, Kids: []*Node{l, r}} }

// L builds a string.
func L(s string) *Node { return &Node{K: Str, Str: []byte(s)} }

// Blk builds a block.
func Blk(s ...*Node) *Node { return &Node{K: Block, Kids: s} }

// Ix builds an index expression.
func Ix(a, b *Node) *Node { return &Node{K: Index, Kids: []*Node{a, b}} }
