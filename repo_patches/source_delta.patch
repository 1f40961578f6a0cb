From 4732dd8489d339e9ecc67381aa80d05dc5ae567e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:03 +0000
Subject: [PATCH 01/36] fix: statements after return are unreachable, not
 executed before it

The block ended by 'return' stayed the insertion point, so later statements
were appended to it: they ran before the return, and a later return replaced
the earlier one.
---
 irbuilder.go   |  9 +++++++++
 parser_stmt.go | 12 ++++++------
 2 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/irbuilder.go b/irbuilder.go
index 07842fc..83d92dd 100644
--- a/irbuilder.go
+++ b/irbuilder.go
@@ -504,6 +504,15 @@ func (c *Compiler) NewBlock(name string) *ir.Block {
 	return block
 }
 
+// startDeadBlock starts a new unreachable block for the code that follows a
+// 'return' or 'goto'. No unreachable instruction is added: dead code goes to
+// this block, and when we hit a label or case, we switch blocks.
+func (c *Compiler) startDeadBlock() {
+	deadBlock := c.NewBlock(fmt.Sprintf("unreachable.%d", c.labelID))
+	c.labelID++
+	c.SetInsertPoint(deadBlock)
+}
+
 // SetInsertPoint sets the current insertion point
 func (c *Compiler) SetInsertPoint(block *ir.Block) {
 	c.builder = block
diff --git a/parser_stmt.go b/parser_stmt.go
index 77d5221..f343f6f 100644
--- a/parser_stmt.go
+++ b/parser_stmt.go
@@ -173,6 +173,10 @@ func parseReturn(l *Lexer, c *Compiler) error {
 		c.builder.NewRet(constant.NewInt(c.WordType(), 0))
 	}
 
+	// Code after 'return' is unreachable unless a label or case follows;
+	// keep it out of the block that has just been terminated.
+	c.startDeadBlock()
+
 	return nil
 }
 
@@ -490,13 +494,9 @@ func parseGoto(l *Lexer, c *Compiler) error {
 	// Branch to the label
 	c.builder.NewBr(targetBlock)
 
-	// Create a new unreachable block for any code after the goto
+	// Any code after the goto goes to a new unreachable block
 	// This ensures subsequent code doesn't accidentally create branches
-	deadBlock := c.NewBlock(fmt.Sprintf("unreachable.%d", c.labelID))
-	c.labelID++
-	c.SetInsertPoint(deadBlock)
-	// Don't add unreachable instruction yet - let dead code be added,
-	// but when we hit a label, we'll switch blocks
+	c.startDeadBlock()
 
 	if err := l.Whitespace(); err != nil {
 		return err
-- 
2.43.0


From 137830221156c6a243ab64285bc133796379d351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:25 +0000
Subject: [PATCH 02/36] fix: a label named 'entry' no longer collides with the
 entry block

User labels shared the block namespace of the compiler's own blocks, so
'goto entry' jumped to the start of the function.
---
 parser_stmt.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser_stmt.go b/parser_stmt.go
index f343f6f..b9b91e8 100644
--- a/parser_stmt.go
+++ b/parser_stmt.go
@@ -107,7 +107,7 @@ func parseKeywordOrExpressionWithSwitch(l *Lexer, c *Compiler, switchID int64, c
 		}
 		if ch == ':' {
 			// Label - get or create labeled block
-			block := c.GetOrCreateLabel(name)
+			block := c.GetOrCreateLabel("label." + name)
 
 			// Only create a branch if the current block has no terminator
 			// This handles fall-through to labels
@@ -489,7 +489,7 @@ func parseGoto(l *Lexer, c *Compiler) error {
 	}
 
 	// Get or create the target label block
-	targetBlock := c.GetOrCreateLabel(label)
+	targetBlock := c.GetOrCreateLabel("label." + label)
 
 	// Branch to the label
 	c.builder.NewBr(targetBlock)
-- 
2.43.0


From 01d8763103956f28b4a94e5c6dd3689a03947b96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:55 +0000
Subject: [PATCH 03/36] fix: report undefined and duplicate labels

A goto to a label that is never defined made the compiler panic when the
module was printed; a label defined twice was silently miscompiled into a
block that jumps to itself.
---
 irbuilder.go    | 25 +++++++++++++++++++++++++
 parser_decls.go |  4 ++++
 parser_stmt.go  |  3 +++
 3 files changed, 32 insertions(+)

diff --git a/irbuilder.go b/irbuilder.go
index 83d92dd..caedcd3 100644
--- a/irbuilder.go
+++ b/irbuilder.go
@@ -2,6 +2,7 @@ package main
 
 import (
 	"fmt"
+	"strings"
 
 	"github.com/llir/llvm/ir"
 	"github.com/llir/llvm/ir/constant"
@@ -23,6 +24,7 @@ type Compiler struct {
 	stringID  int                    // unique id for string constants
 	labelID   int                    // counter for labels
 	labels    map[string]*ir.Block   // named labels for goto
+	labelDefs map[string]bool        // labels defined so far in the current function
 	// Store original parameter names for variadic functions
 	functionParams map[string][]string // function name -> original parameter names
 	// Cache for function types to avoid duplicate declarations
@@ -315,6 +317,7 @@ func (c *Compiler) StartFunction(fn *ir.Func) {
 	c.currentFn = fn
 	c.locals = make(map[string]value.Value)
 	c.labels = make(map[string]*ir.Block)
+	c.labelDefs = make(map[string]bool)
 	c.builder = fn.NewBlock("entry")
 
 	// Get the function name to look up original parameters
@@ -533,6 +536,28 @@ func (c *Compiler) GetOrCreateLabel(name string) *ir.Block {
 	return block
 }
 
+// defineLabel records the definition of a user label in the current function;
+// a label may be defined only once.
+func (c *Compiler) defineLabel(name string) error {
+	if c.labelDefs[name] {
+		return fmt.Errorf("label '%s' already defined", name)
+	}
+	c.labelDefs[name] = true
+	return nil
+}
+
+// undefinedLabel returns the first user label of the current function that is
+// the target of a goto but is defined nowhere, or an empty string.
+func (c *Compiler) undefinedLabel() string {
+	for _, block := range c.currentFn.Blocks {
+		name, isLabel := strings.CutPrefix(block.Name(), "label.")
+		if isLabel && !c.labelDefs[name] {
+			return name
+		}
+	}
+	return ""
+}
+
 // Get or create an intrinsic function by name
 func (c *Compiler) getOrCreateFunc(funcName string) *ir.Func {
 	// Check if function already exists in module
diff --git a/parser_decls.go b/parser_decls.go
index 4d9a9b3..9657014 100644
--- a/parser_decls.go
+++ b/parser_decls.go
@@ -266,6 +266,10 @@ func parseFunction(l *Lexer, c *Compiler, name string) error {
 		return err
 	}
 
+	if label := c.undefinedLabel(); label != "" {
+		return fmt.Errorf("label '%s' used but not defined", label)
+	}
+
 	c.EndFunction()
 	return nil
 }
diff --git a/parser_stmt.go b/parser_stmt.go
index b9b91e8..277f4e4 100644
--- a/parser_stmt.go
+++ b/parser_stmt.go
@@ -107,6 +107,9 @@ func parseKeywordOrExpressionWithSwitch(l *Lexer, c *Compiler, switchID int64, c
 		}
 		if ch == ':' {
 			// Label - get or create labeled block
+			if err := c.defineLabel(name); err != nil {
+				return err
+			}
 			block := c.GetOrCreateLabel("label." + name)
 
 			// Only create a branch if the current block has no terminator
-- 
2.43.0


From 66b2dd7527ff0e8af969fa062255dd3a94fd19eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:10 +0000
Subject: [PATCH 04/36] fix: reject duplicate case values in a switch

A repeated case value re-entered the block of the first one, giving IR that
LLVM rejects (duplicate integer in switch) after blang had reported success.
---
 parser_stmt.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/parser_stmt.go b/parser_stmt.go
index 277f4e4..5511320 100644
--- a/parser_stmt.go
+++ b/parser_stmt.go
@@ -601,6 +601,13 @@ func parseCase(l *Lexer, c *Compiler, switchID int64, cases *[]int64) error {
 		return err
 	}
 
+	// Each value may appear only once per switch
+	for _, seen := range *cases {
+		if seen == value {
+			return fmt.Errorf("duplicate case value %d in switch", value)
+		}
+	}
+
 	// Add to case list
 	*cases = append(*cases, value)
 
-- 
2.43.0


From 23877e66119d62ebca6114ade40186f1692f1b2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:21 +0000
Subject: [PATCH 05/36] fix: do not swallow the character that follows 'else'

'else{', 'else;' and 'else/* */' lost their first character and were parsed
as something else or rejected; 'else_x' was taken for 'else'.
---
 parser_stmt.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/parser_stmt.go b/parser_stmt.go
index 5511320..5818178 100644
--- a/parser_stmt.go
+++ b/parser_stmt.go
@@ -410,9 +410,11 @@ func parseIf(l *Lexer, c *Compiler) error {
 		// Check that next char is not alphanumeric
 		ch, err := l.ReadChar()
 		if err == nil {
-			readChars = append(readChars, ch)
-			if unicode.IsLetter(ch) || unicode.IsDigit(ch) {
+			if unicode.IsLetter(ch) || unicode.IsDigit(ch) || ch == '_' {
+				readChars = append(readChars, ch)
 				isElse = false
+			} else {
+				l.UnreadChar(ch)
 			}
 		}
 	}
-- 
2.43.0


From 9c9f459a6dd9b2487e9a81a6e211e629ff081bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:08 +0000
Subject: [PATCH 06/36] fix: do not lose source bytes or read errors in the
 lexer's reader

A byte delivered together with an error was dropped, an empty read without
an error was taken for the end of the file, and a read error that one of the
look-ahead sites ignored was forgotten, so a truncated program could be
accepted. The first error is now returned by every later read.
---
 lexer.go | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/lexer.go b/lexer.go
index 47b4940..5d811af 100644
--- a/lexer.go
+++ b/lexer.go
@@ -17,7 +17,7 @@ type Lexer struct {
 func NewLexer(args *CompileOptions, reader io.Reader) *Lexer {
 	return &Lexer{
 		args:   args,
-		reader: &runeReaderAdapter{reader},
+		reader: &runeReaderAdapter{reader: reader},
 		buffer: make([]rune, 0),
 	}
 }
@@ -25,18 +25,23 @@ func NewLexer(args *CompileOptions, reader io.Reader) *Lexer {
 // runeReaderAdapter adapts io.Reader to io.RuneReader
 type runeReaderAdapter struct {
 	reader io.Reader
+	err    error // first error, returned by every later call
 }
 
 func (r *runeReaderAdapter) ReadRune() (rune, int, error) {
 	buf := make([]byte, 1)
-	n, err := r.reader.Read(buf)
-	if err != nil {
-		return 0, 0, err
-	}
-	if n == 0 {
-		return 0, 0, io.EOF
+	for tries := 0; r.err == nil; tries++ {
+		n, err := r.reader.Read(buf)
+		r.err = err
+		if n > 0 {
+			// The byte counts even when it comes together with an error.
+			return rune(buf[0]), 1, nil
+		}
+		if err == nil && tries >= 100 {
+			r.err = io.ErrNoProgress
+		}
 	}
-	return rune(buf[0]), 1, nil
+	return 0, 0, r.err
 }
 
 // ReadChar reads one character from input
-- 
2.43.0


From 7965a031ff96de35ff697dbb4390efe00f83e1fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:52 +0000
Subject: [PATCH 07/36] fix: shift operators bind tighter than comparisons

'<<' and '>>' were only recognised at the level of '<' and '>', so
'a < b << c' was parsed as '(a < b) << c'.
---
 expressions.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/expressions.go b/expressions.go
index 7767134..6e40885 100644
--- a/expressions.go
+++ b/expressions.go
@@ -352,8 +352,8 @@ func parseExpressionWithLevel(l *Lexer, c *Compiler, level int) (value.Value, er
 			continue
 		}
 
-		// Comparison operators (level 6)
-		if level >= 6 && (ch == '<' || ch == '>') && !handled {
+		// Shift operators (level 5) and comparison operators (level 6)
+		if level >= 5 && (ch == '<' || ch == '>') && !handled {
 			if isLvalue {
 				left = c.builder.NewLoad(c.WordType(), left)
 				isLvalue = false
@@ -362,6 +362,15 @@ func parseExpressionWithLevel(l *Lexer, c *Compiler, level int) (value.Value, er
 			ch2, err2 := l.ReadChar()
 			var right value.Value
 
+			if level < 6 && (err2 != nil || ch2 != ch) {
+				// A comparison: leave it to the caller
+				if err2 == nil {
+					l.UnreadChar(ch2)
+				}
+				l.UnreadChar(ch)
+				break
+			}
+
 			if ch == '<' {
 				if err2 == nil && ch2 == '<' {
 					// Left shift (level 5)
-- 
2.43.0


From c452aa4ec6763422752c5a98c85bfae78542a155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:11 +0000
Subject: [PATCH 08/36] fix: accept white space and comments inside empty
 parentheses

'f( )' and 'main( /* none */ ) ...' were rejected.
---
 expressions.go  | 3 +++
 parser_decls.go | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/expressions.go b/expressions.go
index 6e40885..db9621a 100644
--- a/expressions.go
+++ b/expressions.go
@@ -698,6 +698,9 @@ func parsePostfix(l *Lexer, c *Compiler) (value.Value, bool, error) {
 
 			var args []value.Value
 			for {
+				if err := l.Whitespace(); err != nil {
+					return nil, false, err
+				}
 				ch, err := l.ReadChar()
 				if err != nil {
 					return nil, false, err
diff --git a/parser_decls.go b/parser_decls.go
index 9657014..3733e8a 100644
--- a/parser_decls.go
+++ b/parser_decls.go
@@ -245,6 +245,9 @@ func parseIvalConst(l *Lexer, c *Compiler) (constant.Constant, error) {
 
 // parseFunction parses a function definition
 func parseFunction(l *Lexer, c *Compiler, name string) error {
+	if err := l.Whitespace(); err != nil {
+		return err
+	}
 	ch, err := l.ReadChar()
 	if err != nil {
 		return err
-- 
2.43.0


From ae12a95608f808e0e93d2d15c0a349efb31fb249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:09 +0000
Subject: [PATCH 09/36] fix: accept white space before '(' and '[' at top level

'main () ...' and 'v [3];' were taken for initialised scalars. The initial
value parser read any other character as 0, which hid such errors; it now
requires a constant.
---
 parser_decls.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/parser_decls.go b/parser_decls.go
index 3733e8a..57e82d5 100644
--- a/parser_decls.go
+++ b/parser_decls.go
@@ -20,6 +20,9 @@ func ParseDeclarations(l *Lexer, c *Compiler) error {
 			break
 		}
 
+		if err := l.Whitespace(); err != nil {
+			return err
+		}
 		ch, err := l.ReadChar()
 		if err != nil {
 			if err == io.EOF {
@@ -233,6 +236,8 @@ func parseIvalConst(l *Lexer, c *Compiler) (constant.Constant, error) {
 			return nil, fmt.Errorf("unexpected end of file, expect ival")
 		}
 		return constant.NewInt(c.WordType(), -val), nil
+	} else if !unicode.IsDigit(ch) {
+		return nil, fmt.Errorf("unexpected character '%c', expect ival", ch)
 	} else {
 		l.UnreadChar(ch)
 		val, err := l.Number()
-- 
2.43.0


From b49129e1bc285bef0073610e393540635443f9ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:20 +0000
Subject: [PATCH 10/36] fix: do not glue a statement's first identifier to the
 next one

White space skipped after the identifier was forgotten when it was pushed
back, so 'x y = 3;' was accepted as an assignment to 'xy'.
---
 parser_stmt.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/parser_stmt.go b/parser_stmt.go
index 5818178..2a7bd6c 100644
--- a/parser_stmt.go
+++ b/parser_stmt.go
@@ -125,7 +125,9 @@ func parseKeywordOrExpressionWithSwitch(l *Lexer, c *Compiler, switchID int64, c
 		}
 
 		// Otherwise it's an expression
+		// (a blank keeps it apart from a following identifier)
 		l.UnreadChar(ch)
+		l.UnreadChar(' ')
 		for i := len(name) - 1; i >= 0; i-- {
 			l.UnreadChar(rune(name[i]))
 		}
-- 
2.43.0


From a9371e91fa5d64987d2fcc66e90293284b177d5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:32 +0000
Subject: [PATCH 11/36] fix: accept names that begin with an underscore in
 statements

Such names could be declared but not used.
---
 expressions.go | 2 +-
 parser_stmt.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/expressions.go b/expressions.go
index db9621a..87218ee 100644
--- a/expressions.go
+++ b/expressions.go
@@ -882,7 +882,7 @@ func parsePrimary(l *Lexer, c *Compiler) (value.Value, bool, error) {
 		}
 		return constant.NewInt(c.WordType(), val), false, nil
 
-	case unicode.IsLetter(ch):
+	case unicode.IsLetter(ch) || ch == '_':
 		// Identifier
 		l.UnreadChar(ch)
 		name, err := l.Identifier()
diff --git a/parser_stmt.go b/parser_stmt.go
index 2a7bd6c..466d169 100644
--- a/parser_stmt.go
+++ b/parser_stmt.go
@@ -50,7 +50,7 @@ func parseStatementWithSwitch(l *Lexer, c *Compiler, switchID int64, cases *[]in
 		// Null statement
 
 	default:
-		if unicode.IsLetter(ch) {
+		if unicode.IsLetter(ch) || ch == '_' {
 			l.UnreadChar(ch)
 			return parseKeywordOrExpressionWithSwitch(l, c, switchID, cases)
 		} else {
-- 
2.43.0


From 2658f6e077c0795cff3732cfc571aa6018d69974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:28 +0000
Subject: [PATCH 12/36] fix: allocate locals once per activation

'auto' inside a loop allocated new stack on every pass until the stack
overflowed, and a goto past an 'auto' gave IR whose uses were not dominated
by the allocation. Allocate in the entry block; initialisation stays at the
declaration.
---
 irbuilder.go | 29 ++++++++++++++++++++++-------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/irbuilder.go b/irbuilder.go
index caedcd3..38b5830 100644
--- a/irbuilder.go
+++ b/irbuilder.go
@@ -401,11 +401,19 @@ func (c *Compiler) EndFunction() {
 	c.labels = make(map[string]*ir.Block)
 }
 
-// DeclareLocal allocates a local variable and initializes it to 0
+// DeclareLocal allocates a local variable and initializes it to 0.
+// Storage is allocated once per activation, in the entry block: an allocation
+// at the declaration would grow the stack on every pass through a loop.
 func (c *Compiler) DeclareLocal(name string) value.Value {
-	alloca := c.builder.NewAlloca(c.WordType())
+	zero := constant.NewInt(c.WordType(), 0)
+	entry := c.currentFn.Blocks[0]
+	alloca := entry.NewAlloca(c.WordType())
+	if c.builder != entry {
+		// In case a goto bypasses the declaration
+		entry.NewStore(zero, alloca)
+	}
 	// Initialize local variables to 0 (B language semantics)
-	c.builder.NewStore(constant.NewInt(c.WordType(), 0), alloca)
+	c.builder.NewStore(zero, alloca)
 	c.locals[name] = alloca
 	return alloca
 }
@@ -416,6 +424,8 @@ func (c *Compiler) DeclareLocal(name string) value.Value {
 //   - First word contains pointer to second word (where data starts)
 //   - This allows array[-1] to get the original pointer
 //   - Empty arrays (size 0) default to size 1
+//
+// Like scalars, arrays are allocated once per activation, in the entry block.
 func (c *Compiler) DeclareLocalArray(name string, size int64) value.Value {
 	// Empty arrays default to size 1
 	if size == 0 {
@@ -423,19 +433,24 @@ func (c *Compiler) DeclareLocalArray(name string, size int64) value.Value {
 	}
 	arraySize := size + 1 // +1 for pointer storage in first element
 	arrayType := types.NewArray(uint64(arraySize), c.WordType())
-	alloca := c.builder.NewAlloca(arrayType)
+	entry := c.currentFn.Blocks[0]
+	alloca := entry.NewAlloca(arrayType)
 
 	// Get pointer to first data element (skip the pointer storage slot)
 	// This is element [0][1] in the array
-	firstElemPtr := c.builder.NewGetElementPtr(arrayType, alloca,
+	firstElemPtr := entry.NewGetElementPtr(arrayType, alloca,
 		constant.NewInt(types.I32, 0),
 		constant.NewInt(types.I32, 1))
 
 	// Convert to i64 and store in the first slot [0][0]
-	ptrAsInt := c.builder.NewPtrToInt(firstElemPtr, c.WordType())
-	firstSlotPtr := c.builder.NewGetElementPtr(arrayType, alloca,
+	ptrAsInt := entry.NewPtrToInt(firstElemPtr, c.WordType())
+	firstSlotPtr := entry.NewGetElementPtr(arrayType, alloca,
 		constant.NewInt(types.I32, 0),
 		constant.NewInt(types.I32, 0))
+	if c.builder != entry {
+		// In case a goto bypasses the declaration
+		entry.NewStore(ptrAsInt, firstSlotPtr)
+	}
 	c.builder.NewStore(ptrAsInt, firstSlotPtr)
 
 	// Store the array base address (to first slot which now contains the data pointer)
-- 
2.43.0


From acecd7a5420d6bdcf18a03843026e0071e994238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:53 +0000
Subject: [PATCH 13/36] fix: allow calling a function with fewer arguments than
 parameters

B does not check argument counts, but a call without arguments to a function
defined earlier with parameters gave IR that LLVM rejects.
---
 expressions.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/expressions.go b/expressions.go
index 87218ee..cfc178e 100644
--- a/expressions.go
+++ b/expressions.go
@@ -735,6 +735,11 @@ func parsePostfix(l *Lexer, c *Compiler) (value.Value, bool, error) {
 			var result value.Value
 			if fnDirect, ok := fn.(*ir.Func); ok {
 				// Direct call to known function
+				// B does not check the number of arguments, but LLVM requires
+				// one for the fixed parameter.
+				for len(args) < len(fnDirect.Params) {
+					args = append(args, constant.NewInt(c.WordType(), 0))
+				}
 				// If the callee is declared fully variadic with zero fixed params,
 				// specify one fixed argument type at the call site to ensure proper
 				// calling convention on platforms like arm64.
-- 
2.43.0


From 603927803e25179f534a77eea1e5e7c999821cdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:04 +0000
Subject: [PATCH 14/36] fix: call through a local variable or parameter

'f(...)' where f is an auto variable or parameter called an unrelated
external function named f instead of the function the variable points to.
---
 expressions.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/expressions.go b/expressions.go
index cfc178e..0b1f299 100644
--- a/expressions.go
+++ b/expressions.go
@@ -907,6 +907,11 @@ func parsePrimary(l *Lexer, c *Compiler) (value.Value, bool, error) {
 
 		// If it's a call, handle both direct and indirect calls
 		if isCall {
+			// A local variable holds a function pointer
+			if local, ok := c.locals[name]; ok {
+				return local, true, nil
+			}
+
 			// Check for a declared function in module
 			if fn := c.findFuncByName(name); fn != nil {
 				return fn, false, nil
-- 
2.43.0


From f3f225c2be2025bf47596c5b3cc10e1d5fb56e9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:50 +0000
Subject: [PATCH 15/36] fix: extrn refers to the variable defined in another
 file

extrn emitted a definition of its own, so a program whose variable is
defined in one file and used in another failed to link with 'multiple
definition', as did any use of the runtime's fout. Emit a common symbol,
which the linker merges with the definition.
---
 parser_stmt.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parser_stmt.go b/parser_stmt.go
index 466d169..78d9843 100644
--- a/parser_stmt.go
+++ b/parser_stmt.go
@@ -321,6 +321,9 @@ func parseExtrn(l *Lexer, c *Compiler) error {
 			g = existing
 		} else if c.findFuncByName(name) == nil && !c.usedAsFunction[name] {
 			g = c.module.NewGlobalDef(c.globalName(name), constant.NewInt(c.WordType(), 0))
+			// Unless this file defines the variable later, let the linker
+			// merge this storage with the definition in another file.
+			g.Linkage = enum.LinkageCommon
 		} else {
 			return fmt.Errorf("function redeclared as variable")
 		}
-- 
2.43.0


From 7de09456a944748111a6cf7c2ef4ca890e754568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:15 +0000
Subject: [PATCH 16/36] fix: redefining a vector replaces its data as well

The separate data of an earlier large vector of the same name stayed in the
module, and LLVM rejected the duplicate.
---
 irbuilder.go | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/irbuilder.go b/irbuilder.go
index 38b5830..ebd5018 100644
--- a/irbuilder.go
+++ b/irbuilder.go
@@ -93,16 +93,23 @@ func (c *Compiler) findGlobalByName(name string) *ir.Global {
 	return nil
 }
 
-// removeGlobalByName removes the global with the given name from the module if present
+// removeGlobalByName removes the global with the given name from the module if present,
+// together with the separate data of a large vector
 func (c *Compiler) removeGlobalByName(name string) bool {
 	full := c.globalName(name)
-	for i, g := range c.module.Globals {
-		if g.Name() == full {
-			c.module.Globals = append(c.module.Globals[:i], c.module.Globals[i+1:]...)
-			return true
+	removed := false
+	globals := c.module.Globals[:0]
+	for _, g := range c.module.Globals {
+		switch g.Name() {
+		case full:
+			removed = true
+		case full + ".data":
+		default:
+			globals = append(globals, g)
 		}
 	}
-	return false
+	c.module.Globals = globals
+	return removed
 }
 
 // GetModule returns the LLVM module
-- 
2.43.0


From 9788516adbbb962ed33881acf7a90b0c2a279610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:26 +0000
Subject: [PATCH 17/36] fix: report a name declared both as function and as
 variable

Such a module has two symbols of one name and is rejected by LLVM after
blang has accepted it.
---
 parser_decls.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/parser_decls.go b/parser_decls.go
index 57e82d5..59d7e42 100644
--- a/parser_decls.go
+++ b/parser_decls.go
@@ -68,6 +68,10 @@ func ParseDeclarations(l *Lexer, c *Compiler) error {
 
 // parseGlobal parses a global variable
 func parseGlobal(l *Lexer, c *Compiler, name string) error {
+	if c.findFuncByName(name) != nil {
+		return fmt.Errorf("function '%s' redeclared as variable", name)
+	}
+
 	// Remove any existing global with the same name from the module
 	c.removeGlobalByName(name)
 
@@ -121,6 +125,10 @@ func parseGlobal(l *Lexer, c *Compiler, name string) error {
 
 // parseVector parses a global array
 func parseVector(l *Lexer, c *Compiler, name string) error {
+	if c.findFuncByName(name) != nil {
+		return fmt.Errorf("function '%s' redeclared as variable", name)
+	}
+
 	// Remove any existing global with the same name from the module
 	c.removeGlobalByName(name)
 
@@ -267,6 +275,10 @@ func parseFunction(l *Lexer, c *Compiler, name string) error {
 		}
 	}
 
+	if c.findGlobalByName(name) != nil {
+		return fmt.Errorf("variable '%s' redeclared as function", name)
+	}
+
 	fn := c.DeclareFunction(name, paramNames)
 	c.StartFunction(fn)
 
-- 
2.43.0


From f7f5c847fca6c5379c9bd7dad5d3a6f349d312f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:51 +0000
Subject: [PATCH 18/36] fix: a parameter named 'entry' no longer collides with
 the entry block

LLVM values and blocks share one name space. B names contain no dots, so a
name with a dot, like those of the other blocks, cannot collide.
---
 irbuilder.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/irbuilder.go b/irbuilder.go
index ebd5018..e10e9e5 100644
--- a/irbuilder.go
+++ b/irbuilder.go
@@ -325,7 +325,7 @@ func (c *Compiler) StartFunction(fn *ir.Func) {
 	c.locals = make(map[string]value.Value)
 	c.labels = make(map[string]*ir.Block)
 	c.labelDefs = make(map[string]bool)
-	c.builder = fn.NewBlock("entry")
+	c.builder = fn.NewBlock("func.entry")
 
 	// Get the function name to look up original parameters
 	var funcName string
-- 
2.43.0


From 922bc1341a281294d194ba3fb7732e9583996bed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:21 +0000
Subject: [PATCH 19/36] fix: printf %d prints the most negative number
 correctly

---
 runtime/printf.c | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/runtime/printf.c b/runtime/printf.c
index 1114417..18688e0 100644
--- a/runtime/printf.c
+++ b/runtime/printf.c
@@ -22,11 +22,7 @@ loop:
     switch (c = b_char(fmt, i++)) {
     case 'd': // decimal
         x = va_arg(ap, word_t);
-        if (x < 0) {
-            x = -x;
-            b_write('-');
-        }
-        b_printd(x);
+        b_printd(x); // handles negative numbers, including MIN
         goto loop;
 
     case 'o': // octal
-- 
2.43.0


From abb9835710822d58c1a723b694a16c2ad4e28746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:30 +0000
Subject: [PATCH 20/36] fix: finish partial writes in write, printd and printo

---
 runtime/printd.c  |  2 +-
 runtime/printo.c  |  2 +-
 runtime/runtime.h | 15 +++++++++++++++
 runtime/write.c   |  2 +-
 4 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/runtime/printd.c b/runtime/printd.c
index e28a6c5..034ec3d 100644
--- a/runtime/printd.c
+++ b/runtime/printd.c
@@ -24,5 +24,5 @@ void b_printd(word_t n, ...)
         *--p = '-';
     }
 
-    b_nwrite(b_fout + 1, (word_t)p, (word_t)(end - p));
+    write_all(p, end - p);
 }
diff --git a/runtime/printo.c b/runtime/printo.c
index 8e244ab..7b90901 100644
--- a/runtime/printo.c
+++ b/runtime/printo.c
@@ -16,5 +16,5 @@ void b_printo(word_t n, ...)
         value >>= 3;
     } while (value != 0);
 
-    b_nwrite(b_fout + 1, (word_t)p, (word_t)(end - p));
+    write_all(p, end - p);
 }
diff --git a/runtime/runtime.h b/runtime/runtime.h
index 699921a..e35a3b3 100644
--- a/runtime/runtime.h
+++ b/runtime/runtime.h
@@ -64,3 +64,18 @@ void b_flush(void)
 #ifdef __riscv
 #include "riscv64.h"
 #endif
+
+//
+// Write all bytes of the buffer to the selected output stream,
+// even when the kernel accepts only a part of them at a time.
+//
+static inline void write_all(const char *buf, word_t count)
+{
+    while (count > 0) {
+        word_t n = syscall(SYS_write, b_fout + 1, (word_t)buf, count);
+        if (n <= 0 || n > count)
+            break; // Output error.
+        buf += n;
+        count -= n;
+    }
+}
diff --git a/runtime/write.c b/runtime/write.c
index 6f74ed9..20a9e3f 100644
--- a/runtime/write.c
+++ b/runtime/write.c
@@ -17,5 +17,5 @@ void b_write(word_t ch, ...)
             *p++ = byte;
         }
     }
-    syscall(SYS_write, b_fout + 1, (word_t)buf, p - buf);
+    write_all(buf, p - buf);
 }
-- 
2.43.0


From c5d200b71485c6da42b74433f1d00404ac4d32ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:12 +0000
Subject: [PATCH 21/36] fix: enter main with the stack aligned as the ABI
 requires

---
 runtime/start.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/runtime/start.c b/runtime/start.c
index 6a33fc1..41a29df 100644
--- a/runtime/start.c
+++ b/runtime/start.c
@@ -6,6 +6,10 @@
 //
 void b_start(void) __asm__("_start"); // assure, that _start is really named _start in asm
 
+// The kernel enters _start with a 16-byte aligned stack, not as after a call.
+#ifdef __x86_64__
+__attribute__((force_align_arg_pointer))
+#endif
 void b_start()
 {
     word_t main(void);
-- 
2.43.0


From 633b01821957e42e62ee2c3c9304d4edacdb3eca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:39 +0000
Subject: [PATCH 22/36] fix: do not leave a truncated LLVM IR file when writing
 it fails

---
 driver.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/driver.go b/driver.go
index 4bbe2d0..9b68d91 100644
--- a/driver.go
+++ b/driver.go
@@ -30,6 +30,13 @@ func Compile(args *CompileOptions) error {
 	}
 }
 
+// removePartial deletes an output file left incomplete by a failure.
+func removePartial(path string) {
+	if fi, err := os.Stat(path); err == nil && fi.Mode().IsRegular() {
+		os.Remove(path)
+	}
+}
+
 // compileToIR generates LLVM IR output
 func compileToIR(args *CompileOptions) error {
 	// Helper to compile a single .b file to the provided output path
@@ -58,9 +65,11 @@ func compileToIR(args *CompileOptions) error {
 		}
 		if _, err := outFile.WriteString(compiler.GetModule().String()); err != nil {
 			outFile.Close()
+			removePartial(outputPath)
 			return err
 		}
 		if err := outFile.Close(); err != nil {
+			removePartial(outputPath)
 			return err
 		}
 		if args.Verbose {
-- 
2.43.0


From 334327853e65ba6f4b75bc22bc0e618f3fefdcfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:02 +0000
Subject: [PATCH 23/36] fix: concurrent runs sharing a source no longer share
 intermediate files

---
 driver.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/driver.go b/driver.go
index 9b68d91..90b8c7f 100644
--- a/driver.go
+++ b/driver.go
@@ -313,9 +313,13 @@ func compileToExecutable(args *CompileOptions) error {
 			var tmp string
 			if len(args.InputFiles) == 1 && args.OutputFile != "" {
 				tmp = args.OutputFile + ".tmp.ll"
-			} else {
+			} else if args.SaveTemps {
 				base := strings.TrimSuffix(filepath.Base(in), ext)
 				tmp = fmt.Sprintf("%s.tmp.%d.ll", base, i)
+			} else {
+				// Derived from the output name, so that concurrent runs
+				// which share a source don't delete each other's files.
+				tmp = fmt.Sprintf("%s.tmp.%d.ll", args.OutputFile, i)
 			}
 
 			irArgs := *args
-- 
2.43.0


From 963c235074b4d09d4e02656c0e35f01e9baea92a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:13 +0000
Subject: [PATCH 24/36] fix: delete the unfinished output when clang is killed

---
 driver.go | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/driver.go b/driver.go
index 90b8c7f..fc32a2a 100644
--- a/driver.go
+++ b/driver.go
@@ -37,6 +37,16 @@ func removePartial(path string) {
 	}
 }
 
+// runClang runs the command. When it is killed half way, it gets no chance
+// to clean up, so the unfinished output file is deleted here.
+func runClang(cmd *exec.Cmd, output string) error {
+	err := cmd.Run()
+	if exitErr, ok := err.(*exec.ExitError); ok && !exitErr.Exited() {
+		removePartial(output)
+	}
+	return err
+}
+
 // compileToIR generates LLVM IR output
 func compileToIR(args *CompileOptions) error {
 	// Helper to compile a single .b file to the provided output path
@@ -147,7 +157,7 @@ func compileToAssembly(args *CompileOptions) error {
 			if args.Verbose {
 				fmt.Printf("blang: running %s\n", cmd.String())
 			}
-			if err := cmd.Run(); err != nil {
+			if err := runClang(cmd, out); err != nil {
 				if !args.SaveTemps {
 					os.Remove(tempIR)
 				}
@@ -170,7 +180,7 @@ func compileToAssembly(args *CompileOptions) error {
 		if args.Verbose {
 			fmt.Printf("blang: running %s\n", cmd.String())
 		}
-		if err := cmd.Run(); err != nil {
+		if err := runClang(cmd, out); err != nil {
 			return fmt.Errorf("failed to generate assembly: %v", err)
 		}
 		if args.Verbose {
@@ -241,7 +251,7 @@ func compileToObject(args *CompileOptions) error {
 			if args.Verbose {
 				fmt.Printf("blang: running %s\n", cmd.String())
 			}
-			if err := cmd.Run(); err != nil {
+			if err := runClang(cmd, out); err != nil {
 				if !args.SaveTemps {
 					os.Remove(tempIR)
 				}
@@ -264,7 +274,7 @@ func compileToObject(args *CompileOptions) error {
 		if args.Verbose {
 			fmt.Printf("blang: running %s\n", cmd.String())
 		}
-		if err := cmd.Run(); err != nil {
+		if err := runClang(cmd, out); err != nil {
 			return fmt.Errorf("failed to generate object file: %v", err)
 		}
 		if args.Verbose {
@@ -378,7 +388,7 @@ func compileToExecutable(args *CompileOptions) error {
 		fmt.Printf("blang: running %s\n", cmd.String())
 	}
 
-	if err := cmd.Run(); err != nil {
+	if err := runClang(cmd, args.OutputFile); err != nil {
 		if !args.SaveTemps {
 			for _, t := range temps {
 				os.Remove(t)
-- 
2.43.0


From 8976dbd1fa352c97a4f30ac7d77a9c755d61eb2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:17 +0000
Subject: [PATCH 25/36] fix: keep non-ASCII bytes of strings as they are in the
 source

---
 lexer.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lexer.go b/lexer.go
index 5d811af..a96caec 100644
--- a/lexer.go
+++ b/lexer.go
@@ -250,7 +250,7 @@ func (l *Lexer) Character() (int64, error) {
 
 // String parses a string literal
 func (l *Lexer) String() (string, error) {
-	var result []rune
+	var result []byte
 
 	for {
 		c, err := l.ReadChar()
@@ -272,7 +272,7 @@ func (l *Lexer) String() (string, error) {
 			}
 		}
 
-		result = append(result, c)
+		result = append(result, byte(c))
 	}
 }
 
-- 
2.43.0


From 0308a20e44c9d4ab238f5ff171accc650e1ecc6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:27 +0000
Subject: [PATCH 26/36] fix: char() returns bytes above 127 without sign
 extension

---
 runtime/char.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runtime/char.c b/runtime/char.c
index c5ae23a..5b34695 100644
--- a/runtime/char.c
+++ b/runtime/char.c
@@ -10,5 +10,5 @@ word_t b_char(word_t string, /*word_t i,*/ ...)
     word_t i = va_arg(ap, word_t);
     va_end(ap);
 
-    return ((char *)string)[i];
+    return ((unsigned char *)string)[i];
 }
-- 
2.43.0


From 2c5b0950d9950497ba2ba3bc42539c92409fbcd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:21 +0000
Subject: [PATCH 27/36] fix: loops that fill or copy vectors need no memset or
 memcpy when optimized

---
 irbuilder.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/irbuilder.go b/irbuilder.go
index e10e9e5..0893cae 100644
--- a/irbuilder.go
+++ b/irbuilder.go
@@ -248,6 +248,10 @@ func (c *Compiler) DeclareFunction(name string, paramNames []string) *ir.Func {
 		fn.Sig.Variadic = true
 	}
 
+	// There is no C library: the optimizer must not turn loops
+	// into calls of memset() or memcpy().
+	fn.FuncAttrs = append(fn.FuncAttrs, ir.AttrString("no-builtins"))
+
 	c.functions[name] = fn
 	return fn
 }
-- 
2.43.0


From ba9cb423ee083c76e743de38158a8da27ddb2cf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:03 +0000
Subject: [PATCH 28/36] fix: reject too deeply nested sources instead of
 overflowing the stack

---
 expressions.go | 10 ++++++++++
 lexer.go       | 17 +++++++++++++++++
 parser_stmt.go |  5 +++++
 3 files changed, 32 insertions(+)

diff --git a/expressions.go b/expressions.go
index 0b1f299..523c1fa 100644
--- a/expressions.go
+++ b/expressions.go
@@ -20,6 +20,11 @@ func parseExpression(l *Lexer, c *Compiler) (value.Value, error) {
 
 // parseExpressionWithLevel parses expressions with precedence level
 func parseExpressionWithLevel(l *Lexer, c *Compiler, level int) (value.Value, error) {
+	if err := l.enter(); err != nil {
+		return nil, err
+	}
+	defer l.leave()
+
 	// Parse left side (term with unary operators)
 	left, isLvalue, err := parseUnary(l, c)
 	if err != nil {
@@ -519,6 +524,11 @@ func parseExpressionWithLevel(l *Lexer, c *Compiler, level int) (value.Value, er
 
 // parseUnary parses unary operators and primary expressions
 func parseUnary(l *Lexer, c *Compiler) (value.Value, bool, error) {
+	if err := l.enter(); err != nil {
+		return nil, false, err
+	}
+	defer l.leave()
+
 	if err := l.Whitespace(); err != nil {
 		return nil, false, err
 	}
diff --git a/lexer.go b/lexer.go
index a96caec..21551b9 100644
--- a/lexer.go
+++ b/lexer.go
@@ -11,6 +11,23 @@ type Lexer struct {
 	args   *CompileOptions
 	reader io.RuneReader
 	buffer []rune // pushback buffer for unread characters
+	depth  int    // current nesting of statements and expressions
+}
+
+// maxDepth limits the nesting, so that the stack is not exhausted.
+const maxDepth = 50000
+
+// enter is called at the start of every construct that may contain itself.
+func (l *Lexer) enter() error {
+	if l.depth++; l.depth > maxDepth {
+		return fmt.Errorf("statements or expressions are nested too deeply")
+	}
+	return nil
+}
+
+// leave is called at the end of the construct.
+func (l *Lexer) leave() {
+	l.depth--
 }
 
 // NewLexer creates a new lexer
diff --git a/parser_stmt.go b/parser_stmt.go
index 78d9843..c58e4f3 100644
--- a/parser_stmt.go
+++ b/parser_stmt.go
@@ -17,6 +17,11 @@ func parseStatement(l *Lexer, c *Compiler) error {
 }
 
 func parseStatementWithSwitch(l *Lexer, c *Compiler, switchID int64, cases *[]int64) error {
+	if err := l.enter(); err != nil {
+		return err
+	}
+	defer l.leave()
+
 	if err := l.Whitespace(); err != nil {
 		return err
 	}
-- 
2.43.0


From 3dc5e7f494699a691112928711f25819405b5025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:34 +0000
Subject: [PATCH 29/36] fix: reject vector sizes that are negative or
 impossible instead of generating invalid code

---
 parser_decls.go | 12 ++++++++++++
 parser_stmt.go  |  3 +++
 2 files changed, 15 insertions(+)

diff --git a/parser_decls.go b/parser_decls.go
index 59d7e42..376a38d 100644
--- a/parser_decls.go
+++ b/parser_decls.go
@@ -123,6 +123,15 @@ func parseGlobal(l *Lexer, c *Compiler, name string) error {
 	return nil
 }
 
+// checkVectorSize rejects sizes no memory can hold, including those which
+// overflowed into negative numbers
+func checkVectorSize(size int64) error {
+	if size < 0 || size > 1<<40 {
+		return fmt.Errorf("vector size is out of range")
+	}
+	return nil
+}
+
 // parseVector parses a global array
 func parseVector(l *Lexer, c *Compiler, name string) error {
 	if c.findFuncByName(name) != nil {
@@ -149,6 +158,9 @@ func parseVector(l *Lexer, c *Compiler, name string) error {
 		if err != nil {
 			return fmt.Errorf("unexpected end of file, expect vector size after '['")
 		}
+		if err := checkVectorSize(nwords); err != nil {
+			return err
+		}
 
 		if err := l.Whitespace(); err != nil {
 			return err
diff --git a/parser_stmt.go b/parser_stmt.go
index c58e4f3..a67f3fd 100644
--- a/parser_stmt.go
+++ b/parser_stmt.go
@@ -256,6 +256,9 @@ func parseAuto(l *Lexer, c *Compiler) error {
 						return err
 					}
 				}
+				if err := checkVectorSize(size); err != nil {
+					return err
+				}
 				if err := l.Whitespace(); err != nil {
 					return err
 				}
-- 
2.43.0


From 0661d4116b3df9805a9b47b2450a05ff4b5c4dcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:37 +0000
Subject: [PATCH 30/36] fix: initial values beyond the given size of a vector
 were dropped

---
 parser_decls.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/parser_decls.go b/parser_decls.go
index 376a38d..93d0c93 100644
--- a/parser_decls.go
+++ b/parser_decls.go
@@ -209,9 +209,8 @@ func parseVector(l *Lexer, c *Compiler, name string) error {
 		}
 	}
 
-	if nwords == 0 {
-		nwords = int64(len(initVals))
-	}
+	// There is room for all initial values
+	nwords = max(nwords, int64(len(initVals)))
 
 	c.DeclareGlobalArray(name, nwords, initVals)
 	return nil
-- 
2.43.0


From 69177cc90abb82ea6a66dc464d0d637e1b8bd06b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:48 +0000
Subject: [PATCH 31/36] fix: a huge vector with initial values exhausted the
 compiler's memory

---
 irbuilder.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/irbuilder.go b/irbuilder.go
index 0893cae..fe29085 100644
--- a/irbuilder.go
+++ b/irbuilder.go
@@ -194,6 +194,22 @@ func (c *Compiler) DeclareGlobalArray(name string, size int64, init []constant.C
 		return global
 	}
 
+	// Likewise when few of many elements have initializers: the rest is one
+	// zeroinitializer, which takes no room in the compiler or the .ll file
+	if rest := size - int64(len(init)); rest > 4096 {
+		headType := types.NewArray(uint64(len(init)), elemType)
+		tailType := types.NewArray(uint64(rest), elemType)
+		dataType := types.NewStruct(headType, tailType)
+		dataGlobal := c.module.NewGlobalDef(c.globalName(name)+".data", constant.NewStruct(dataType,
+			constant.NewArray(headType, init...), constant.NewZeroInitializer(tailType)))
+
+		wrapperType := types.NewArray(1, elemType)
+		global := c.module.NewGlobalDef(c.globalName(name), constant.NewArray(wrapperType,
+			constant.NewPtrToInt(dataGlobal, elemType)))
+		c.globals[name] = global
+		return global
+	}
+
 	// Standard approach for small arrays or arrays with initializers
 	arraySize := size + 1 // +1 for the pointer storage
 	arrayType := types.NewArray(uint64(arraySize), elemType)
-- 
2.43.0


From f84332783e64bea57d9527d21e82563d09c3d564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:34 +0000
Subject: [PATCH 32/36] fix: reject a function call or value named like a
 variable that is not declared extrn here

---
 irbuilder.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/irbuilder.go b/irbuilder.go
index fe29085..50d06db 100644
--- a/irbuilder.go
+++ b/irbuilder.go
@@ -292,6 +292,11 @@ func (c *Compiler) GetOrDeclareFunction(name string) *ir.Func {
 		return nil
 	}
 
+	// A variable known elsewhere can't be a function as well
+	if c.findGlobalByName(name) != nil {
+		return nil
+	}
+
 	// Enforce no-context: remove any prior transient function of the same name from the module
 	c.removeFuncByName(name)
 
-- 
2.43.0


From b8c24cd34400acfbcd0e145c946befa8057eb04b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:40 +0000
Subject: [PATCH 33/36] fix: keep long names of labels and parameters within
 what LLVM takes

---
 irbuilder.go | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/irbuilder.go b/irbuilder.go
index 50d06db..8e6e8b4 100644
--- a/irbuilder.go
+++ b/irbuilder.go
@@ -1,6 +1,7 @@
 package main
 
 import (
+	"crypto/sha256"
 	"fmt"
 	"strings"
 
@@ -24,7 +25,7 @@ type Compiler struct {
 	stringID  int                    // unique id for string constants
 	labelID   int                    // counter for labels
 	labels    map[string]*ir.Block   // named labels for goto
-	labelDefs map[string]bool        // labels defined so far in the current function
+	labelDefs map[string]bool        // blocks of the labels defined so far in the current function
 	// Store original parameter names for variadic functions
 	functionParams map[string][]string // function name -> original parameter names
 	// Cache for function types to avoid duplicate declarations
@@ -259,7 +260,7 @@ func (c *Compiler) DeclareFunction(name string, paramNames []string) *ir.Func {
 		fn = c.module.NewFunc(c.globalName(name), c.WordType())
 	} else {
 		// One or more parameters: variadic with first parameter as fixed
-		firstParam := ir.NewParam(paramNames[0], c.WordType())
+		firstParam := ir.NewParam(localName(paramNames[0]), c.WordType())
 		fn = c.module.NewFunc(c.globalName(name), c.WordType(), firstParam)
 		fn.Sig.Variadic = true
 	}
@@ -573,12 +574,23 @@ func (c *Compiler) GetInsertBlock() *ir.Block {
 	return c.builder
 }
 
+// localName returns the name for a value or block within a function. LLVM
+// limits the length of those: a long name is cut, and a digest of all of it
+// keeps it apart from others.
+func localName(name string) string {
+	const longest = 500
+	if len(name) <= longest {
+		return name
+	}
+	return fmt.Sprintf("%s.%x", name[:longest], sha256.Sum256([]byte(name)))
+}
+
 // GetOrCreateLabel gets an existing label block or creates a new one
 func (c *Compiler) GetOrCreateLabel(name string) *ir.Block {
 	if block, ok := c.labels[name]; ok {
 		return block
 	}
-	block := c.currentFn.NewBlock(name)
+	block := c.currentFn.NewBlock(localName(name))
 	c.labels[name] = block
 	return block
 }
@@ -586,10 +598,11 @@ func (c *Compiler) GetOrCreateLabel(name string) *ir.Block {
 // defineLabel records the definition of a user label in the current function;
 // a label may be defined only once.
 func (c *Compiler) defineLabel(name string) error {
-	if c.labelDefs[name] {
+	block := localName("label." + name)
+	if c.labelDefs[block] {
 		return fmt.Errorf("label '%s' already defined", name)
 	}
-	c.labelDefs[name] = true
+	c.labelDefs[block] = true
 	return nil
 }
 
@@ -598,7 +611,7 @@ func (c *Compiler) defineLabel(name string) error {
 func (c *Compiler) undefinedLabel() string {
 	for _, block := range c.currentFn.Blocks {
 		name, isLabel := strings.CutPrefix(block.Name(), "label.")
-		if isLabel && !c.labelDefs[name] {
+		if isLabel && !c.labelDefs[block.Name()] {
 			return name
 		}
 	}
-- 
2.43.0


From 3186d1262c4cf7243ecde373c73f73499653650b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:44 +0000
Subject: [PATCH 34/36] fix: pass clang the names of files that start with '-'
 or '@' as files

---
 driver.go | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/driver.go b/driver.go
index fc32a2a..e748321 100644
--- a/driver.go
+++ b/driver.go
@@ -47,6 +47,15 @@ func runClang(cmd *exec.Cmd, output string) error {
 	return err
 }
 
+// clangPath returns the name of a file in a form that clang doesn't
+// take for an option or a file with options.
+func clangPath(name string) string {
+	if strings.HasPrefix(name, "-") || strings.HasPrefix(name, "@") {
+		return "./" + name
+	}
+	return name
+}
+
 // compileToIR generates LLVM IR output
 func compileToIR(args *CompileOptions) error {
 	// Helper to compile a single .b file to the provided output path
@@ -133,7 +142,7 @@ func compileToAssembly(args *CompileOptions) error {
 		if args.DebugInfo {
 			cmdArgs = append(cmdArgs, "-g")
 		}
-		cmdArgs = append(cmdArgs, "-S", "-o", out, inputIRorLL)
+		cmdArgs = append(cmdArgs, "-S", "-o", clangPath(out), clangPath(inputIRorLL))
 		return cmdArgs
 	}
 
@@ -227,7 +236,7 @@ func compileToObject(args *CompileOptions) error {
 		if args.DebugInfo {
 			cmdArgs = append(cmdArgs, "-g")
 		}
-		cmdArgs = append(cmdArgs, "-c", "-o", out, inputPath)
+		cmdArgs = append(cmdArgs, "-c", "-o", clangPath(out), clangPath(inputPath))
 		return cmdArgs
 	}
 
@@ -346,10 +355,10 @@ func compileToExecutable(args *CompileOptions) error {
 				return err
 			}
 			temps = append(temps, tmp)
-			clangInputs = append(clangInputs, tmp)
+			clangInputs = append(clangInputs, clangPath(tmp))
 
 		case ".ll", ".s", ".o", ".a":
-			clangInputs = append(clangInputs, in)
+			clangInputs = append(clangInputs, clangPath(in))
 
 		default:
 			// main() validated extensions, but keep a guard here
@@ -381,7 +390,7 @@ func compileToExecutable(args *CompileOptions) error {
 	for _, lib := range args.Libraries {
 		cmdArgs = append(cmdArgs, "-l"+lib)
 	}
-	cmdArgs = append(cmdArgs, "-o", args.OutputFile)
+	cmdArgs = append(cmdArgs, "-o", clangPath(args.OutputFile))
 
 	cmd := exec.Command("clang", cmdArgs...)
 	if args.Verbose {
-- 
2.43.0


From 58c90d6f7c7d7165759614b260c8b26e0a4d164a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:19 +0000
Subject: [PATCH 35/36] fix: don't split the arguments of -L and -l at commas

---
 main.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/main.go b/main.go
index 06b3dd1..b6c8f52 100644
--- a/main.go
+++ b/main.go
@@ -71,8 +71,8 @@ func main() {
 	pflag.BoolVarP(&verbose, "verbose", "v", false, "Verbose output")
 
 	// Paths and libraries
-	pflag.StringSliceVarP(&libraryDirs, "library-dir", "L", []string{}, "Add directory to library search path")
-	pflag.StringSliceVarP(&libraries, "library", "l", []string{}, "Link with library")
+	pflag.StringArrayVarP(&libraryDirs, "library-dir", "L", []string{}, "Add directory to library search path")
+	pflag.StringArrayVarP(&libraries, "library", "l", []string{}, "Link with library")
 
 	// Help and version
 	pflag.BoolVarP(&showVersion, "version", "V", false, "Display compiler version information")
-- 
2.43.0


From d231e5bf5ed3b00d31bee5630b48bbf348c6e0ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:35:19 +0000
Subject: [PATCH 36/36] fix: names of parameters, variables and labels can't
 begin with a digit

---
 lexer.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lexer.go b/lexer.go
index 21551b9..a67d80e 100644
--- a/lexer.go
+++ b/lexer.go
@@ -164,7 +164,9 @@ func (l *Lexer) Identifier() (string, error) {
 			return "", err
 		}
 
-		if !unicode.IsLetter(c) && !unicode.IsDigit(c) && c != '_' {
+		// A digit can't be the first character
+		digit := unicode.IsDigit(c) && len(result) > 0
+		if !unicode.IsLetter(c) && !digit && c != '_' {
 			l.UnreadChar(c)
 			return string(result), nil
 		}
-- 
2.43.0

