From f06c0c831306b414b234abf4debcf574b24c1911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:08 +0000
Subject: [PATCH 01/41] fix: report a syntax error when the input ends inside a
 declaration

---
 parse.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/parse.go b/parse.go
index d313a33..2480649 100644
--- a/parse.go
+++ b/parse.go
@@ -77,7 +77,6 @@ func (p *Parser) Parse(tokens []*lex.Token, root *Node) (errs []error) {
 			// TODO: p.sync(lex.Fn, lex.Struct, lex.Enum)
 		}
 	}
-	p.need(lex.EOF)
 	return p.errs
 }
 
@@ -599,9 +598,13 @@ func (p *Parser) syntaxError(expected string) {
 
 func (p *Parser) onUnexpectedEof(errs *[]error) {
 	if r := recover(); r != nil {
-		*errs = p.errs
 		if r != errUnexpectedEof {
 			panic(r)
 		}
+		// Running out of input is itself an error, even if nothing was reported before
+		if len(p.errs) == 0 {
+			p.syntaxError("more input")
+		}
+		*errs = p.errs
 	}
 }
\ No newline at end of file
-- 
2.43.0


From 912a8a9ce0c77e1fae6bf421a870f8123aa98016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:08 +0000
Subject: [PATCH 02/41] fix: accept expressions starting with '~' in return and
 statement position

---
 lex/lex.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lex/lex.go b/lex/lex.go
index 3e9f031..6ee7fc0 100644
--- a/lex/lex.go
+++ b/lex/lex.go
@@ -99,7 +99,7 @@ const (
 
 func (k Kind) IsExprStart() bool {
 	switch k {
-	case Integer, String, Identifier, True, False, Not, LParen, Fn, Min, LBrack:
+	case Integer, String, Identifier, True, False, Not, BNot, LParen, Fn, Min, LBrack:
 		return true
 	default:
 		return false
-- 
2.43.0


From f21091388768d6354069c9feaae892debd014a14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:08 +0000
Subject: [PATCH 03/41] fix: give unary minus the precedence of negation

---
 parse.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/parse.go b/parse.go
index 2480649..fd50ccf 100644
--- a/parse.go
+++ b/parse.go
@@ -340,7 +340,11 @@ func parseGroup(p *Parser, _ *lex.Token) *Node {
 }
 
 func parsePrefixOperator(p *Parser, token *lex.Token) *Node {
-	return &Node{op: prefixKindToOp[token.Kind], token: token, left: p.parseExpr(token.Kind.Precedence())}
+	precedence := token.Kind.Precedence()
+	if token.Kind == lex.Min {
+		precedence = lex.Kind(lex.Neg).Precedence() // Negation binds tighter than subtraction
+	}
+	return &Node{op: prefixKindToOp[token.Kind], token: token, left: p.parseExpr(precedence)}
 }
 
 func parseType(p *Parser, _ *lex.Token) *Node {
-- 
2.43.0


From 20cabdbcd19c8df2198c472beb91bf65b8d0fdd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:28 +0000
Subject: [PATCH 04/41] fix: reject integer literals which do not fit in a
 tagged int

---
 semantic.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/semantic.go b/semantic.go
index 455c491..f955704 100644
--- a/semantic.go
+++ b/semantic.go
@@ -43,6 +43,7 @@ const (
 	errNoTypeParametersMsg      = "%v:%d:%d: error, type '%v' does not declare type parameters"
 	maxCaseArgCount             = 5
 	maxFnArgCount               = 6
+	intBits                     = 63 // One bit of each 64-bit word is used as the tag
 
 	// Debug messages
 	debugTypeInfoFormat = "⚫ %s%-60s%s %s%-30s%s ⇨ %s%s%s\n"
@@ -458,7 +459,7 @@ func foldConstants(errs *[]error, n *Node) {
 
 	// Check for overflow
 	if n.op == opLit && n.token.Kind == lex.Integer {
-		_, err := strconv.ParseInt(n.token.Val, 0, 64)
+		_, err := strconv.ParseInt(n.token.Val, 0, intBits)
 		if err != nil {
 			*errs = append(*errs, semanticError(errIntegerOverflowMsg, n.token))
 		}
-- 
2.43.0


From 76b65a33e2448f47134734d34d08f79996138c99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:28 +0000
Subject: [PATCH 05/41] fix: reject string literals which contain a line break

---
 lex/lex.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lex/lex.go b/lex/lex.go
index 6ee7fc0..b00d5f0 100644
--- a/lex/lex.go
+++ b/lex/lex.go
@@ -432,7 +432,7 @@ func lexComment(l *Lexer) stateFn {
 func lexString(l *Lexer) stateFn {
 	loop: for {
 		switch l.peek() {
-		case eof, '"':
+		case eof, '"', '\n':
 			break loop;
 		case '\\':
 			l.next()
-- 
2.43.0


From e81138c2a33d35988eb856a36539262d0bfa2272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:54 +0000
Subject: [PATCH 06/41] fix: report comparison of types other than int instead
 of crashing

---
 semantic.go  | 5 +++++
 typecheck.go | 4 ++++
 2 files changed, 9 insertions(+)

diff --git a/semantic.go b/semantic.go
index f955704..0aef767 100644
--- a/semantic.go
+++ b/semantic.go
@@ -66,6 +66,11 @@ var operatorTypes = OperatorTypes{
 	opBXor:   {Integer},
 	opBLeft:  {Integer},
 	opBRight: {Integer},
+	opGt:     {Integer},
+	opGte:    {Integer},
+	opLt:     {Integer},
+	opLte:    {Integer},
+	opEq:     {Integer},
 	// TODO: What about unary operators? Operators which return a different type?
 }
 
diff --git a/typecheck.go b/typecheck.go
index 3bb470d..570382a 100644
--- a/typecheck.go
+++ b/typecheck.go
@@ -192,6 +192,10 @@ func typeCheck(n *Node, symtab *SymTab, fn *FunctionType, debug bool) (errs []er
 			errs = append(errs, semanticError2(errMismatchedTypesMsg, left.token, left.typ, right.typ))
 			goto end
 		}
+		if !operatorTypes.isValid(n.op, left.typ.Kind) {
+			errs = append(errs, semanticError2(errInvalidOperatorTypeMsg, left.token, left.typ, n.token.Val))
+			goto end
+		}
 		n.typ = boolType
 
 	case opStructDcl, opEnumDcl:
-- 
2.43.0


From 73b71b9f6074734c675e8f5ec4d921cc8e0bdf2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:54 +0000
Subject: [PATCH 07/41] fix: keep errors found inside ternary branches and
 array literal elements

---
 typecheck.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/typecheck.go b/typecheck.go
index 570382a..89d5549 100644
--- a/typecheck.go
+++ b/typecheck.go
@@ -520,18 +520,18 @@ func typeCheckCase(n *Node, bound map[*Type]*Type, symtab *SymTab, fn *FunctionT
 
 func typeCheckTernary(n *Node, symtab *SymTab, fn *FunctionType, debug bool) []error {
 	cond := n.left
-	if errs := typeCheck(cond, symtab, fn, debug); !cond.hasType() {
+	if errs := typeCheck(cond, symtab, fn, debug); !cond.hasType() || len(errs) > 0 {
 		return errs
 	}
 	if !cond.typ.Is(Boolean) {
 		return []error{ semanticError2(errMismatchedTypesMsg, cond.token, cond.typ, boolType) }
 	}
 	ifExpr := n.stmts[0]
-	if errs := typeCheck(ifExpr, symtab, fn, debug); !ifExpr.hasType() {
+	if errs := typeCheck(ifExpr, symtab, fn, debug); !ifExpr.hasType() || len(errs) > 0 {
 		return errs
 	}
 	elseExpr := n.stmts[1]
-	if errs := typeCheck(elseExpr, symtab, fn, debug); !elseExpr.hasType() {
+	if errs := typeCheck(elseExpr, symtab, fn, debug); !elseExpr.hasType() || len(errs) > 0 {
 		return errs
 	}
 	if !ifExpr.typ.Matches(elseExpr.typ) {
@@ -546,7 +546,7 @@ func typeCheckArrayLit(n *Node, symtab *SymTab, fn *FunctionType, debug bool) []
 		return []error{ semanticError(errEmptyArrayLiteralMsg, n.token) }
 	}
 	for _, expr := range n.stmts {
-		if errs := typeCheck(expr, symtab, fn, debug); !expr.hasType() {
+		if errs := typeCheck(expr, symtab, fn, debug); !expr.hasType() || len(errs) > 0 {
 			return errs
 		}
 		// Type of first element defines type for rest of elements
-- 
2.43.0


From 67d7dff8377a8f6331b6b36545be46f0c0f4f878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:28 +0000
Subject: [PATCH 08/41] fix: report functions, structs and closures which need
 more registers than there are

---
 closures.go  | 10 +++++++++-
 main.go      |  5 ++++-
 semantic.go  | 10 ++++++++++
 typecheck.go |  4 ++++
 4 files changed, 27 insertions(+), 2 deletions(-)

diff --git a/closures.go b/closures.go
index e902bcb..80e79d3 100644
--- a/closures.go
+++ b/closures.go
@@ -7,13 +7,17 @@ import (
 
 var id = uint(0) // TODO: Find a better solution to this...
 
-func rewriteAnonFnAndClosures(rootNode *Node, n *Node) {
+func rewriteAnonFnAndClosures(errs *[]error, rootNode *Node, n *Node) {
 
 	if n.isLocalFn() {
 
 		id += 1
 
 		freeVars := clIdentifyFreeVars(n)
+		if len(freeVars) > maxFnArgCount {
+			*errs = append(*errs, semanticError2(errTooManyArgsMsg, n.token, n.token.Val, maxFnArgCount))
+			return
+		}
 		if len(freeVars) > 0 {
 
 			// ----------------------------------------------------------
@@ -87,6 +91,10 @@ func rewriteAnonFnAndClosures(rootNode *Node, n *Node) {
 		// Closure/Anonymous/Fn Pointer Call Site
 		// ----------------------------------------------------------
 
+		if len(n.stmts) > maxDynFnArgCount {
+			*errs = append(*errs, semanticError2(errTooManyArgsMsg, n.token, n.token.Val, maxDynFnArgCount))
+			return
+		}
 		s := rootNode.symtab.MustResolve("invokeDynamic")
 
 		// AST: <name>(args...) -> invokeDynamic(<name>, args...)
diff --git a/main.go b/main.go
index a853ea5..b720ea7 100644
--- a/main.go
+++ b/main.go
@@ -119,9 +119,12 @@ func Compile(options options, claraLibPaths []string, progPath string, cLibPaths
 	WalkPostOrder(rootNode, func(n *Node) { rewriteArrayLiteralExpr(n, rootSymtab) })
 	for _, n := range rootNode.stmts {
 		if !isFn(n, "invokeDynamic") {
-			WalkPostOrder(n, func(n *Node) { rewriteAnonFnAndClosures(rootNode, n) })
+			WalkPostOrder(n, func(n *Node) { rewriteAnonFnAndClosures(&errs, rootNode, n) })
 		}
 	}
+	if len(errs) > 0 {
+		return "", errs
+	}
 	WalkPostOrder(rootNode, func(n *Node) { lowerMatchStatement(rootSymtab, n) })
 	WalkPostOrder(rootNode, lowerForStatement)
 	if len(errs) > 0 {
diff --git a/semantic.go b/semantic.go
index 0aef767..8f79ece 100644
--- a/semantic.go
+++ b/semantic.go
@@ -43,6 +43,7 @@ const (
 	errNoTypeParametersMsg      = "%v:%d:%d: error, type '%v' does not declare type parameters"
 	maxCaseArgCount             = 5
 	maxFnArgCount               = 6
+	maxDynFnArgCount            = maxFnArgCount - 1 // Calls of function values also pass the function value itself
 	intBits                     = 63 // One bit of each 64-bit word is used as the tag
 
 	// Debug messages
@@ -177,6 +178,11 @@ loop:
 
 		case opStructDcl:
 
+			// Constructors take one argument per field
+			if len(n.stmts) > maxFnArgCount {
+				errs = append(errs, semanticError2(errTooManyArgsMsg, n.token, n.token.Val, maxFnArgCount))
+				continue loop
+			}
 			strt := n.sym.Type.AsStruct()
 
 		fields:
@@ -201,6 +207,10 @@ loop:
 
 		case opBlockFnDcl, opExternFnDcl, opExprFnDcl:
 
+			if len(n.params) > maxFnArgCount {
+				errs = append(errs, semanticError2(errTooManyArgsMsg, n.token, n.token.Val, maxFnArgCount))
+				continue loop
+			}
 			_, err := processFnType(n, n.token.Val, symtab, symtab.Child(), nil, true)
 			if err != nil {
 				errs = append(errs, err)
diff --git a/typecheck.go b/typecheck.go
index 89d5549..6e31173 100644
--- a/typecheck.go
+++ b/typecheck.go
@@ -205,6 +205,10 @@ func typeCheck(n *Node, symtab *SymTab, fn *FunctionType, debug bool) (errs []er
 
 		// Closures will not have been annotated yet. Do it now.
 		if n.sym == nil {
+			if len(n.params) > maxDynFnArgCount {
+				errs = append(errs, semanticError2(errTooManyArgsMsg, n.token, n.token.Val, maxDynFnArgCount))
+				goto end
+			}
 			_, err := processFnType(n, fmt.Sprintf("%X", rand.Uint32()), symtab, symtab.Child(), nil,false)
 			if err != nil {
 				errs = append(errs, err)
-- 
2.43.0


From cdf8b919c1075a3e0898aa09700176391d3bf6f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:17 +0000
Subject: [PATCH 09/41] fix: name the file in the error of a failed read

---
 install/lib/io.clara | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/install/lib/io.clara b/install/lib/io.clara
index fb268df..70746e5 100644
--- a/install/lib/io.clara
+++ b/install/lib/io.clara
@@ -12,7 +12,7 @@ fn read(f: file, buf: bytes, size: int) option«error» {
     if size > buf.length() {
         return Some(Error(Some("buffer is too small for requested read size"), -1))
     }
-    return read(f.fd, buf, size) == -1 ? Some(Error(Some(file.path), errnum())) : None«error»()
+    return read(f.fd, buf, size) == -1 ? Some(Error(Some(f.path), errnum())) : None«error»()
 }
 // ---------------------------------------------------------------------------------------------------------------------
 // External Functions
-- 
2.43.0


From 4b6936580fd2a2d4bd464c0d041b93fe8515d06f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:17 +0000
Subject: [PATCH 10/41] fix: reject type names used as values

---
 symtab.go    | 8 ++++++++
 typecheck.go | 4 +++-
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/symtab.go b/symtab.go
index d1faa2d..b0e1434 100644
--- a/symtab.go
+++ b/symtab.go
@@ -468,6 +468,14 @@ func NewStackSym(name string, t *Type) *Symbol {
 	return &Symbol{Name: name, IsStack: true, Type: t}
 }
 
+// First symbol in the overload chain which is not a type or nil if there is none
+func (s *Symbol) skipTypes() *Symbol {
+	for s != nil && s.IsType {
+		s = s.Next
+	}
+	return s
+}
+
 func (s *Symbol) Describe() string {
 	switch s.Type.Kind {
 	case Function:
diff --git a/typecheck.go b/typecheck.go
index 6e31173..1bb59e6 100644
--- a/typecheck.go
+++ b/typecheck.go
@@ -905,10 +905,12 @@ func typeCheckIdentifier(n *Node, symtab *SymTab, allowAmbiguous bool) error {
 
 	// If no symbol - try to find identifier declaration
 	if n.sym == nil {
-		sym, found := symtab.Resolve(n.token.Val)
+		// Types are not values
+		sym, found := symtab.ResolveAll(n.token.Val, func(s *Symbol) bool { return s.skipTypes() != nil })
 		if !found {
 			return semanticError(errUnknownVarMsg, n.token)
 		}
+		sym = sym.skipTypes()
 		if sym.Next != nil && !allowAmbiguous {
 			var types []string
 			for s := sym; s != nil; s = s.Next {
-- 
2.43.0


From 5bcb5c9aeaba0a7b2f3b08e3851b5b9bf473c7f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:38 +0000
Subject: [PATCH 11/41] fix: reject assignment to function names and call
 results

---
 ast.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/ast.go b/ast.go
index ee8b38c..adfd49a 100644
--- a/ast.go
+++ b/ast.go
@@ -37,8 +37,7 @@ func (n *Node) hasType() bool {
 func (n *Node) isAddressable() bool {
 	switch n.op {
 	case opArray: return true
-	case opFuncCall: return n.typ.Is(Struct) || n.typ.Is(Array)
-	case opIdentifier: return true
+	case opIdentifier: return !n.sym.IsGlobal
 	case opDot: return true
 	default:
 		return false
-- 
2.43.0


From 524f584b3c432269306a39f3548bb2edf6fba103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:38 +0000
Subject: [PATCH 12/41] fix: struct constructors for names which clash with a
 type or start with a multi-byte letter

---
 semantic.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/semantic.go b/semantic.go
index 8f79ece..f531b0e 100644
--- a/semantic.go
+++ b/semantic.go
@@ -6,6 +6,7 @@ import (
 	"github.com/g-dx/clarac/lex"
 	"strconv"
 	"strings"
+	"unicode/utf8"
 )
 
 //
@@ -633,8 +634,10 @@ func generateStructConstructors(errs *[]error, root *Node, n *Node) {
 
 func generateStructConstructor(root *Node, n *Node) (*Symbol, error) {
 
-	name := n.token.Val
-	firstLetter := name[:1]
+	token := n.token
+	name := token.Val
+	_, width := utf8.DecodeRuneInString(name)
+	firstLetter := name[:width]
 
 	// Check struct begins with lowercase
 	if strings.ToUpper(firstLetter) == firstLetter {
@@ -642,7 +645,7 @@ func generateStructConstructor(root *Node, n *Node) (*Symbol, error) {
 	}
 
 	// Create name
-	constructorName := strings.ToUpper(firstLetter) + name[1:]
+	constructorName := strings.ToUpper(firstLetter) + name[width:]
 
 	// Ensure there are no other function definitions with this name
 	if _, found := root.symtab.Resolve(constructorName); found {
@@ -653,6 +656,9 @@ func generateStructConstructor(root *Node, n *Node) (*Symbol, error) {
 				break
 			}
 		}
+		if n == nil {
+			return nil, semanticError(errRedeclaredMsg, lex.WithVal(token, constructorName)) // Name of another type
+		}
 		return nil, semanticError(errConstructorOverrideMsg, n.token)
 	}
 
-- 
2.43.0


From 73f0025539721ed86ee3870019d1d37fa0a04a3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:12 +0000
Subject: [PATCH 13/41] fix: capture array indexes and do not capture field
 names in closures

---
 closures.go | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/closures.go b/closures.go
index 80e79d3..5c5212a 100644
--- a/closures.go
+++ b/closures.go
@@ -147,13 +147,14 @@ type freeVarChecker struct {
 	stack  []*Node
 	scopes []*SymTab
 	free   map[*Symbol]bool
+	fields map[*Node]bool
 }
 
 func NewFreeVarChecker(n *Node) *freeVarChecker {
 	if !n.Is(opBlockFnDcl, opExprFnDcl) {
 		panic(fmt.Sprintf("Unexpected node type for free variable checker: %v", nodeTypes[n.op]))
 	}
-	return &freeVarChecker{n: n, free: make(map[*Symbol]bool), scopes: append([]*SymTab(nil), n.symtab)}
+	return &freeVarChecker{n: n, free: make(map[*Symbol]bool), fields: make(map[*Node]bool), scopes: append([]*SymTab(nil), n.symtab)}
 }
 
 func (fc *freeVarChecker) IdentityFreeVars(n *Node) bool {
@@ -166,14 +167,11 @@ func (fc *freeVarChecker) IdentityFreeVars(n *Node) bool {
 	case opensScope(n):
 		fc.scopes = append(fc.scopes, n.symtab)
 
-	case n.Is(opIdentifier) && fc.isFree(n):
+	case n.Is(opIdentifier) && !fc.fields[n] && fc.isFree(n):
 		fc.free[n.sym] = true
 
-	case n.Is(opDot, opArray) && n.left.Is(opIdentifier):
-		if fc.isFree(n.left) {
-			fc.free[n.left.sym] = true
-		}
-		return false // No need to walk right!
+	case n.Is(opDot):
+		fc.fields[n.right] = true // Names a field & not a variable!
 
 	case n.Is(opBlockFnDcl, opExprFnDcl) && n != fc.n:
 		return false // Don't walk into other closures!
-- 
2.43.0


From e7e66eb5df94bdcfe927666ebdc45e4eab5307e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:40 +0000
Subject: [PATCH 14/41] fix: stop treating variables of closed scopes as GC
 roots

---
 gc.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gc.go b/gc.go
index ce9b9e7..9f6fd47 100644
--- a/gc.go
+++ b/gc.go
@@ -47,7 +47,9 @@ func (gs *GcState) OpenScope() {
 }
 
 func (gs *GcState) CloseScope() {
-	gs.roots = gs.roots[:gs.scopes[len(gs.scopes)-1]]
+	last := len(gs.scopes) - 1
+	gs.roots = gs.roots[:gs.scopes[last]]
+	gs.scopes = gs.scopes[:last]
 }
 
 func (gs *GcState) Add(off int, t *Type) {
-- 
2.43.0


From f58242b0af382b4653a11315a7cdaf0f384d21ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:40 +0000
Subject: [PATCH 15/41] fix: convert arguments of external functions after all
 of them are evaluated

---
 codegen.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/codegen.go b/codegen.go
index 330f8d8..24851ec 100644
--- a/codegen.go
+++ b/codegen.go
@@ -593,9 +593,12 @@ func genFnCall(asm asmWriter, n *Node, f *function) {
 		genExpr(asm, arg, false, f)
 		asm.ins(movq, rax, regs[i])
 		f.RegisterInUse(arg.typ)
+	}
 
-		// Create "raw" values for any external functions which require them
-		if fn.Is(External) && fn.RawValues {
+	// Create "raw" values for any external functions which require them. This must happen after all arguments
+	// are evaluated as the GC only understands unmodified pointers
+	if fn.Is(External) && fn.RawValues {
+		for i, arg := range n.stmts {
 			switch arg.typ.Kind {
 			case String, Array, Bytes:
 				// Modify pointer to point past length
-- 
2.43.0


From aa2cef37325b3468befa2e27a06ea5459be09467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:40 +0000
Subject: [PATCH 16/41] fix: keep saved assignment values and array addresses
 alive during evaluation

---
 codegen.go | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/codegen.go b/codegen.go
index 24851ec..5fe7429 100644
--- a/codegen.go
+++ b/codegen.go
@@ -513,14 +513,14 @@ func genAssignStmt(asm asmWriter, n *Node, fn *function) {
 
 	// Evaluate expression & push result to stack
 	genExpr(asm, n.right, false, fn)
-	save(asm, fn, rax)
+	saveAs(asm, fn, rax, n.right.typ)
 
 	// Evaluate mem location to store
 	slot := n.left
 	genExpr(asm, slot, true, fn)
 
 	// Pop result
-	restore(asm, fn, rbx)
+	restoreAs(asm, fn, rbx, n.right.typ)
 	src := rbx
 
 	// Write slot
@@ -823,7 +823,7 @@ func genExpr(asm asmWriter, expr *Node, takeAddr bool, fn *function) {
 
 		// Calculate array address
 		genExpr(asm, expr.left, false, fn)
-		save(asm, fn, rax)
+		saveAs(asm, fn, rax, expr.left.typ)
 
 		// Calculate index
 		genExpr(asm, expr.right, false, fn)
@@ -840,7 +840,7 @@ func genExpr(asm asmWriter, expr *Node, takeAddr bool, fn *function) {
 		asm.ins(cmpq, rax, rbx) // index - array.length
 
 		// Restore array address before jump!
-		restore(asm, fn, rax)
+		restoreAs(asm, fn, rax, expr.left.typ)
 		asm.ins(jae, labelOp("ioob"))
 
 		// Displace + ptrSize to skip over length
@@ -903,6 +903,21 @@ func restore(asm asmWriter, fn *function, r reg) {
 	fn.decSp(1)
 }
 
+// As save() but the value is also a GC root until restoreAs()
+func saveAs(asm asmWriter, fn *function, r reg, t *Type) {
+	save(asm, fn, r)
+	if t != nil {
+		fn.gcRoots.Add(fn.sp * ptrSize, t)
+	}
+}
+
+func restoreAs(asm asmWriter, fn *function, r reg, t *Type) {
+	if t != nil {
+		fn.gcRoots.Remove(fn.sp * ptrSize, t)
+	}
+	restore(asm, fn, r)
+}
+
 var ins = make(map[int]inst)
 func init() {
 	ins[opAdd] = addq
-- 
2.43.0


From 44aff696301e9162a9faad128feca3452926b501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:40 +0000
Subject: [PATCH 17/41] fix: evaluate the array of a for statement once

---
 semantic.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/semantic.go b/semantic.go
index f531b0e..f818e22 100644
--- a/semantic.go
+++ b/semantic.go
@@ -492,12 +492,13 @@ func lowerForStatement(n *Node) {
 		if arrayOrRange.typ.Is(Array) {
 			var stmts []*Node
 
-			// Array literals need assigned to a slot first
+			// Array is evaluated once & assigned to a slot first
+			arraySlot := newVar("$array$", arrayOrRange.typ)
 			if arrayOrRange.Is(opArrayLit) {
-				arrayLitSlot := newVar("$arrayLit$", intArrayType)
-				stmts = append(stmts, das(arrayLitSlot, arrayOrRange.left))
-				arrayOrRange = arrayLitSlot
+				arrayOrRange = arrayOrRange.left
 			}
+			stmts = append(stmts, das(arraySlot, arrayOrRange))
+			arrayOrRange = arraySlot
 			val := newVar("$idx$", intType)
 			while := while(lt(val.copy(), length(arrayOrRange)))
 			while.stmts = append(while.stmts, as(n.left, access(arrayOrRange, val.copy())))
-- 
2.43.0


From 43bf289e8dcbee91d2a24c6c173894fea8e5630c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:40 +0000
Subject: [PATCH 18/41] fix: treat the variable of a for statement as GC root

---
 semantic.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/semantic.go b/semantic.go
index f818e22..0705835 100644
--- a/semantic.go
+++ b/semantic.go
@@ -501,7 +501,7 @@ func lowerForStatement(n *Node) {
 			arrayOrRange = arraySlot
 			val := newVar("$idx$", intType)
 			while := while(lt(val.copy(), length(arrayOrRange)))
-			while.stmts = append(while.stmts, as(n.left, access(arrayOrRange, val.copy())))
+			while.stmts = append(while.stmts, das(n.left, access(arrayOrRange, val.copy())))
 			while.stmts = append(while.stmts, n.stmts...)
 			while.stmts = append(while.stmts, inc(val.copy(), 1))
 			n.stmts = append(stmts, das(val, intLit(0)), while)
-- 
2.43.0


From cbf24a0e05a43a6d3adfdfe0ab96fa4da6fff91b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:08 +0000
Subject: [PATCH 19/41] fix: panic for negative indexes of bytes and strings

---
 install/lib/bytes.clara   | 4 ++--
 install/lib/strings.clara | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/install/lib/bytes.clara b/install/lib/bytes.clara
index 58bd149..8be3557 100644
--- a/install/lib/bytes.clara
+++ b/install/lib/bytes.clara
@@ -7,12 +7,12 @@ fn Bytes(length: int) bytes {
 fn length(b: bytes) int = b.toBytesHeader().length
 
 fn get(b: bytes, idx: int) int {
-    assert(idx < b.length(), "idx is out of range")
+    assert(idx >= 0 and idx < b.length(), "idx is out of range")
     return b.toPointer(8).readByte(idx).tag() // Tag after read
 }
 
 fn set(b: bytes, idx: int, val: int) {
-    assert(idx < b.length(), "idx is out of range")
+    assert(idx >= 0 and idx < b.length(), "idx is out of range")
     b.toPointer(8).writeByte(idx, val.untag()) // Untag before write
 }
 
diff --git a/install/lib/strings.clara b/install/lib/strings.clara
index 929edf9..dee5118 100644
--- a/install/lib/strings.clara
+++ b/install/lib/strings.clara
@@ -1,6 +1,6 @@
 // ---------------------------------------------------------------------------------------------------------------------
 fn byte(s: string, idx: int) int {
-    assert(idx < s.length, "idx is out of range")
+    assert(idx >= 0 and idx < s.length, "idx is out of range")
     return s.toPointer(8).readByte(idx).tag()
 }
 
-- 
2.43.0


From 207df474265a7805321d61b3d2be49268780be58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:08 +0000
Subject: [PATCH 20/41] fix: copy byte arrays without using stack for each byte

---
 install/lib/arrays.clara | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/install/lib/arrays.clara b/install/lib/arrays.clara
index 27a9f48..b636562 100644
--- a/install/lib/arrays.clara
+++ b/install/lib/arrays.clara
@@ -1,11 +1,11 @@
 // ---------------------------------------------------------------------------------------------------------------------
 
 fn copyArray(src: bytes, srcPos: int, dest: bytes, destPos: int) {
-    if src.length() == srcPos or dest.length() == destPos {
-        return
+    while not (src.length() == srcPos or dest.length() == destPos) {
+        dest.set(destPos, src.get(srcPos))
+        srcPos = srcPos+1
+        destPos = destPos+1
     }
-    dest.set(destPos, src.get(srcPos))
-    copyArray(src, srcPos+1, dest, destPos+1)
 }
 
 fn setElement«T»(src: []T, pos: int, val: T) []T {
-- 
2.43.0


From 9dcdf27a0aed0665ee307543a4d9644bf2e6027a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:07 +0000
Subject: [PATCH 21/41] fix: report overloads which differ only in type
 parameter names, and of main, as redeclared

---
 semantic.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/semantic.go b/semantic.go
index 0705835..38632ae 100644
--- a/semantic.go
+++ b/semantic.go
@@ -235,6 +235,21 @@ loop:
 			errs = append(errs, instantiateFunctionTypes(n)...)
 		}
 	}
+	if len(errs) != 0 {
+		return errs
+	}
+
+	// Check all functions remain unique once the names of type parameters are ignored
+	names := make(map[string]bool)
+	for _, n := range rootNode.stmts {
+		if n.Is(opBlockFnDcl, opExprFnDcl) {
+			name := n.sym.Type.AsFunction().AsmName(n.token.Val)
+			if names[name] {
+				errs = append(errs, semanticError(errRedeclaredMsg, n.token))
+			}
+			names[name] = true
+		}
+	}
 	return errs
 }
 
-- 
2.43.0


From f257f16f11c6cf7f6f038b5d0c2fb71b6bd938a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:07 +0000
Subject: [PATCH 22/41] fix: instantiate the fields of generic structs on first
 use

---
 symtab.go    | 17 +++++++++++++++++
 typecheck.go |  6 +-----
 2 files changed, 18 insertions(+), 5 deletions(-)

diff --git a/symtab.go b/symtab.go
index b0e1434..812775f 100644
--- a/symtab.go
+++ b/symtab.go
@@ -284,9 +284,26 @@ type StructType struct {
 	Name   string
 	Fields []*Symbol
 	Types  []*Type
+
+	// Only set for instantiations of generic structs. Fields are created on first use because the
+	// generic struct may not be fully processed yet and may refer to itself
+	generic *StructType
+	bound   map[*Type]*Type
+}
+
+func (st *StructType) instantiateFields() {
+	if st.generic == nil {
+		return
+	}
+	st.generic.instantiateFields()
+	for i, f := range st.generic.Fields {
+		st.Fields = append(st.Fields, &Symbol{Name: f.Name, Addr: i * ptrSize, Type: substituteType(f.Type, st.bound)})
+	}
+	st.generic = nil
 }
 
 func (st *StructType) GetField(name string) *Symbol {
+	st.instantiateFields()
 	for _, field := range st.Fields {
 		if field.Name == name {
 			return field
diff --git a/typecheck.go b/typecheck.go
index 1bb59e6..1f94a46 100644
--- a/typecheck.go
+++ b/typecheck.go
@@ -834,11 +834,7 @@ func substituteType(t *Type, bound map[*Type]*Type) *Type {
 		for _, tp := range s.Types {
 			types = append(types, substituteType(tp, bound))
 		}
-		var fields []*Symbol
-		for i, f := range s.Fields {
-			fields = append(fields, &Symbol{Name: f.Name, Addr: i * ptrSize, Type: substituteType(f.Type, bound)})
-		}
-		return &Type{Kind: Struct, Data: &StructType{Name: s.Name, Fields: fields, Types: types}}
+		return &Type{Kind: Struct, Data: &StructType{Name: s.Name, Types: types, generic: s, bound: bound}}
 
 	case t.Is(Enum):
 		e := t.AsEnum()
-- 
2.43.0


From 75efc9b0835ac711a31ff465e0ff911ad8097e7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:10:12 +0000
Subject: [PATCH 23/41] fix: keep argument registers when dividing and shifting

The third and fourth argument of a call are held in rdx and rcx while later
arguments are evaluated. idiv and shifts overwrote them.
---
 codegen.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/codegen.go b/codegen.go
index 5fe7429..63ca529 100644
--- a/codegen.go
+++ b/codegen.go
@@ -706,9 +706,13 @@ func genExpr(asm asmWriter, expr *Node, takeAddr bool, fn *function) {
 		asm.ins(movq, rax, rbx)
 		restore(asm, fn, rax)
 		if expr.op == opDiv {
-			asm.ins(cqo) // Sign-extend rax into rdx
+			asm.ins(movq, rdx, r10) // rdx may already hold an argument of an enclosing call
+			asm.ins(cqo)            // Sign-extend rax into rdx
 		}
 		asm.ins(ins[expr.op], rbx, rax)
+		if expr.op == opDiv {
+			asm.ins(movq, r10, rdx)
+		}
 		tag(asm, expr, rax)
 
 		// NOTES:
@@ -753,9 +757,11 @@ func genExpr(asm asmWriter, expr *Node, takeAddr bool, fn *function) {
 		save(asm, fn, rax)
 		genExpr(asm, expr.right, false, fn)
 		untag(asm, expr.right, rax)
+		asm.ins(movq, rcx, r10) // rcx may already hold an argument of an enclosing call
 		asm.ins(movq, rax, rcx)
 		restore(asm, fn, rax)
 		asm.ins(ins[expr.op], cl, rax)
+		asm.ins(movq, r10, rcx)
 		tag(asm, expr, rax)
 
 	case opIdentifier:
-- 
2.43.0


From 92b0297101f34a79800bee5dfe047c0d3ba40418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:08:00 +0000
Subject: [PATCH 24/41] fix: stop at an anonymous function whose types cannot
 be resolved

---
 typecheck.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/typecheck.go b/typecheck.go
index 1f94a46..a365632 100644
--- a/typecheck.go
+++ b/typecheck.go
@@ -214,8 +214,12 @@ func typeCheck(n *Node, symtab *SymTab, fn *FunctionType, debug bool) (errs []er
 				errs = append(errs, err)
 				goto end
 			}
+			if terrs := instantiateFunctionTypes(n); len(terrs) > 0 {
+				// Incomplete type - do not promote it
+				errs = append(errs, terrs...)
+				goto end
+			}
 			n.typ = n.sym.Type
-			errs = append(errs, instantiateFunctionTypes(n)...)
 		}
 
 		// Type check stmts
-- 
2.43.0


From 0bfc8e0449cbddb949988cf28bc1fe3632c99180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:13:57 +0000
Subject: [PATCH 25/41] fix: emit exactly the bytes of string literals

---
 asm.go | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/asm.go b/asm.go
index c615527..707a842 100644
--- a/asm.go
+++ b/asm.go
@@ -410,20 +410,33 @@ func (gw *gasWriter) stringLit(s string) operand {
 	return litOp(label + suffix)
 }
 
+// Escape sequences the lexer allows in string literals
+var stringEscapes = strings.NewReplacer(`\\`, `\`, `\"`, `"`, `\n`, "\n", `\r`, "\r")
+
+// Operand of an .ascii directive for exactly these bytes
+func asciiLit(raw string) string {
+	var b strings.Builder
+	for i := 0; i < len(raw); i++ {
+		if c := raw[i]; c < ' ' || c > '~' || c == '"' || c == '\\' {
+			fmt.Fprintf(&b, "\\%03o", c)
+		} else {
+			b.WriteByte(c)
+		}
+	}
+	return b.String()
+}
+
 func (gw *gasWriter) flush() {
 	gw.tab(".data")
 	for s, label := range gw.literals {
 
-		raw, err := strconv.Unquote(s)
-		if err != nil {
-			panic(err)
-		}
+		raw := stringEscapes.Replace(s[1:len(s)-1])
 
 		gw.tab(".align", "8")
 		gw.label(label)
 		gw.taggedInt(readOnlyGcHeader(4)) // gc.go defines fixed IDs
 		gw.taggedInt(len(raw))
-		gw.write("   .ascii \"%v\\0\"\n", s[1:len(s)-1])
+		gw.write("   .ascii \"%v\\0\"\n", asciiLit(raw))
 	}
 	gw.literals = make(map[string]string) // Clear values
 }
-- 
2.43.0


From fe2d1522c4ea74c527a0442aff5f2a721137ded6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:22:26 +0000
Subject: [PATCH 26/41] fix: report functions with the name of an enum
 constructor as redeclared

---
 semantic.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/semantic.go b/semantic.go
index 38632ae..12b7a1e 100644
--- a/semantic.go
+++ b/semantic.go
@@ -375,7 +375,7 @@ func processFnType(n *Node, symName string, symtab *SymTab, child *SymTab, types
 	}
 	sym := &Symbol{Name: symName, IsGlobal: true, Type: &Type{Kind: Function, Data: fnType}}
 	if s, found := symtab.Define(sym); found {
-		if !allowOverload {
+		if !allowOverload || (s.Type.Is(Function) && s.Type.AsFunction().Is(EnumCons)) {
 			return nil, semanticError(errRedeclaredMsg, n.token)
 		}
 		for ; s.Next != nil; s = s.Next { /* ... */
-- 
2.43.0


From e1237230d8a4a988e6a8d1a94bd9aebc17359fe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:23:05 +0000
Subject: [PATCH 27/41] fix: report the token which cannot start an expression,
 not the one after it

---
 parse.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parse.go b/parse.go
index fd50ccf..baf4c7d 100644
--- a/parse.go
+++ b/parse.go
@@ -431,14 +431,14 @@ func prefixOperators(kinds ... lex.Kind) {
 }
 
 func (p *Parser) parseExpr(precedence int) *Node {
-	token := p.next()
-	prefix := prefixParsers[token.Kind];
+	prefix := prefixParsers[p.Kind()]
 
 	// Skip token & continue
 	if prefix == nil {
 		p.syntaxError("<expression>")
 		return &Node{op: opError, token: p.next()}
 	}
+	token := p.next()
 
 	nextPrecedence := func(next lex.Kind) int {
 		if _, ok := infixParsers[next]; !ok {
-- 
2.43.0


From 0255eb78f72517ca7d015fa9ffa94f31789915be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:30:03 +0000
Subject: [PATCH 28/41] fix: keep assembler names of array types and type
 parameters apart from user types

---
 symtab.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/symtab.go b/symtab.go
index 812775f..262745b 100644
--- a/symtab.go
+++ b/symtab.go
@@ -241,7 +241,7 @@ func (t *Type) String() string {
 func (t *Type) AsmName() string {
 	switch t.Kind {
 	case Array:
-		return fmt.Sprintf("array$%v$", t.AsArray().Elem.AsmName())
+		return fmt.Sprintf("$array$%v$", t.AsArray().Elem.AsmName()) // Identifiers have no '$' so no type has this name
 	case Struct:
 		st := t.AsStruct()
 		if len(st.Types) == 0 {
@@ -273,6 +273,8 @@ func (t *Type) AsmName() string {
 			buf.WriteString("$")
 		}
 		return buf.String()
+	case Parameter:
+		return "$T" // Not the name of a type called 'T'
 	default:
 		return t.Kind.String()
 	}
-- 
2.43.0


From 555c83911ac7252e471d86e261fabd719116b369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:31:10 +0000
Subject: [PATCH 29/41] fix: match each overload against all overloads of
 function name arguments

---
 typecheck.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/typecheck.go b/typecheck.go
index a365632..fde7c98 100644
--- a/typecheck.go
+++ b/typecheck.go
@@ -705,10 +705,18 @@ func typeCheckFuncCall(n *Node, fnSymtab *SymTab, symtab *SymTab, fn *FunctionTy
 
 func matchFuncCallBySymbol(f *Symbol, n *Node) (s *Symbol,  retType *Type, errs []error) {
 	for s = f; s != nil; s = s.Next {
+		// Matching selects overloads of function name arguments which must not affect other candidates
+		args := make([]Node, len(n.stmts))
+		for i, arg := range n.stmts {
+			args[i] = *arg
+		}
 		retType, err := matchFuncCallByType(s.Type, n)
 		if err == nil {
 			return s, retType, nil
 		}
+		for i, arg := range n.stmts {
+			arg.sym, arg.typ = args[i].sym, args[i].typ
+		}
 		errs = append(errs, err)
 	}
 	return nil, nil, errs
-- 
2.43.0


From 13acbd09c7ee75553c9c89bfcff03c7cc9117048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:43:37 +0000
Subject: [PATCH 30/41] fix: read the whole file in readAll when some of it was
 read before

---
 install/lib/fs.clara | 1 +
 1 file changed, 1 insertion(+)

diff --git a/install/lib/fs.clara b/install/lib/fs.clara
index 5795188..dffb0c7 100644
--- a/install/lib/fs.clara
+++ b/install/lib/fs.clara
@@ -11,6 +11,7 @@ fn open(path: string) result«file, error» {
 
 fn readAll(f: file) result«string, error» {
     return f.size()
+        .then(fn(size: int) result«int, error» = f.seek(0, 0).map(fn(x: int) int = size)) // May be partially read
         .map(Bytes)
         .peek(fn(buf: bytes) option«error» = f.read(buf, buf.length()))
         .map(toString)
-- 
2.43.0


From 4dfa45911f372b00a5005e069c527fba973c6e81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:53:04 +0000
Subject: [PATCH 31/41] fix: let the other arguments decide between overloads
 of function name arguments of generic functions

---
 ast.go       |  5 +++++
 typecheck.go | 23 +++++++++++++++--------
 2 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/ast.go b/ast.go
index adfd49a..c713bc2 100644
--- a/ast.go
+++ b/ast.go
@@ -149,6 +149,11 @@ func (n *Node) Is(ops ...int) bool {
 	return false
 }
 
+// Identifier which may refer to any of several functions
+func (n *Node) isOverloadedFn() bool {
+	return n.op == opIdentifier && n.sym.Next != nil
+}
+
 func (n *Node) isNonGlobalFnCall() bool {
 	return n.op == opFuncCall && (n.left.sym == nil || !n.left.sym.IsGlobal)
 }
diff --git a/typecheck.go b/typecheck.go
index fde7c98..20290c0 100644
--- a/typecheck.go
+++ b/typecheck.go
@@ -781,13 +781,25 @@ func matchFuncCallByType(t *Type, n *Node) (*Type, error) {
 		for i, t := range types {
 			bound[f.Types[i]] = t.typ
 		}
+		// Overloaded function names are matched last as all other arguments help to decide which overload is meant
+		for i, arg := range args {
+			param := f.Params[i]
+			if !arg.isOverloadedFn() && !arg.typ.PolyMatch(param, bound) {
+				return nil, semanticError2(errMismatchedTypesMsg, arg.token, arg.typ, substituteType(param, bound))
+			}
+		}
 	polyArgCheck:
 		for i, arg := range args {
 			param := f.Params[i]
-			// If the argument is a named function is may be overloaded so check all symbols
-			if arg.op == opIdentifier && arg.sym.Next != nil {
+			if arg.isOverloadedFn() {
 				for s := arg.sym; s != nil; s = s.Next {
-					if s.Type.PolyMatch(param, bound) {
+					// A failed match must not leave any type parameters bound
+					trial := make(map[*Type]*Type)
+					for k, v := range bound {
+						trial[k] = v
+					}
+					if s.Type.PolyMatch(param, trial) {
+						bound = trial
 						arg.sym = s
 						arg.typ = s.Type
 						continue polyArgCheck
@@ -801,11 +813,6 @@ func matchFuncCallByType(t *Type, n *Node) (*Type, error) {
 				return nil, semanticError2(errOverloadResolutionMsg, arg.token, substituteType(param, bound),
 					candidates.String())
 			}
-
-			// Match on declared type
-			if !arg.typ.PolyMatch(param, bound) {
-				return nil, semanticError2(errMismatchedTypesMsg, arg.token, arg.typ, substituteType(param, bound))
-			}
 		}
 
 		// Check all type parameters of return type are bound
-- 
2.43.0


From 5e3d6d2d0fd5e5648c17f5f38ecf67a6c21faf6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:10 +0000
Subject: [PATCH 32/41] fix: print type information of nodes without a token

---
 typecheck.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/typecheck.go b/typecheck.go
index 20290c0..cffa4e6 100644
--- a/typecheck.go
+++ b/typecheck.go
@@ -948,11 +948,14 @@ func printTypeInfo(n *Node) {
 		calculatedType = n.typ.String()
 	}
 
-	location := fmt.Sprintf("%v:%d:%d", n.token.File, n.token.Line, n.token.Pos)
-	if n.token.File == "" {
-		location = "<AST defined>"
+	location := "<AST defined>"
+	symbolName := "ROOT" // Only the root node has no token
+	if n.token != nil {
+		if n.token.File != "" {
+			location = fmt.Sprintf("%v:%d:%d", n.token.File, n.token.Line, n.token.Pos)
+		}
+		symbolName = strings.Replace(n.token.Val, "%", "%%", -1) // Escape Go format strings
 	}
-	symbolName := strings.Replace(n.token.Val, "%", "%%", -1) // Escape Go format strings
 	if n.op != opLit {
 		symbolName = "\"" + symbolName + "\""
 	}
-- 
2.43.0


From 35ce12c54a433761e11427265fdf53ebcad1b22e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:03:41 +0000
Subject: [PATCH 33/41] fix: recognise printf, debug and unsafe by symbol and
 not by name

---
 symtab.go    | 18 ++++++++++++++++++
 typecheck.go |  8 ++------
 2 files changed, 20 insertions(+), 6 deletions(-)

diff --git a/symtab.go b/symtab.go
index 262745b..db8e799 100644
--- a/symtab.go
+++ b/symtab.go
@@ -495,6 +495,24 @@ func (s *Symbol) skipTypes() *Symbol {
 	return s
 }
 
+func (s *Symbol) isFunction() bool {
+	return s != nil && s.Type.Is(Function)
+}
+
+// Can these be the arguments of this variadic function?
+func (s *Symbol) acceptsArgs(args []*Node) bool {
+	params := s.Type.AsFunction().Params
+	if len(args) < len(params) {
+		return false
+	}
+	for i, param := range params {
+		if !args[i].typ.Matches(param) {
+			return false
+		}
+	}
+	return true
+}
+
 func (s *Symbol) Describe() string {
 	switch s.Type.Kind {
 	case Function:
diff --git a/typecheck.go b/typecheck.go
index cffa4e6..129a159 100644
--- a/typecheck.go
+++ b/typecheck.go
@@ -652,21 +652,17 @@ func typeCheckFuncCall(n *Node, fnSymtab *SymTab, symtab *SymTab, fn *FunctionTy
 	}
 
 	// SPECIAL CASE: Skip dealing with variadic functions as printf & debug are the only ones
-	if n.left.token.Val == "printf" || n.left.token.Val == "debug" {
-		s, _ := fnSymtab.Resolve(n.left.token.Val)
-		n.left.sym = s
+	if s := n.left.sym; s.isFunction() && s.Type.AsFunction().isVariadic && (s.Next == nil || s.acceptsArgs(n.stmts)) {
 		n.typ = nothingType
 		return errs
 	}
 
 	// SPECIAL CASE: Allow anything into the unsafe function
-	if n.left.token.Val == "unsafe" {
-		s, _ := fnSymtab.Resolve(n.left.token.Val)
+	if s := n.left.sym; s.isFunction() && s.IsGlobal && s.Name == "unsafe" && (s.Next == nil || len(n.stmts) == 3) {
 		unsafe := s.Type.AsFunction()
 		if len(n.stmts) != 3 {
 			return append(errs, semanticError2(errInvalidNumberArgsMsg, n.left.token, len(n.stmts), len(unsafe.Params)))
 		}
-		n.left.sym = s
 		n.typ = n.stmts[len(n.stmts)-1].typ
 		return errs
 	}
-- 
2.43.0


From 06fc55d4334b8bc3467ea3b2b5f9f468dff79dba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:03:41 +0000
Subject: [PATCH 34/41] fix: exempt only the library's invokeDynamic from
 closure rewriting

---
 main.go | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/main.go b/main.go
index b720ea7..29db95c 100644
--- a/main.go
+++ b/main.go
@@ -117,8 +117,9 @@ func Compile(options options, claraLibPaths []string, progPath string, cLibPaths
 
 	// Post-typecheck AST rewrite
 	WalkPostOrder(rootNode, func(n *Node) { rewriteArrayLiteralExpr(n, rootSymtab) })
+	invokeDynamic := rootSymtab.MustResolve("invokeDynamic") // Programs may declare overloads!
 	for _, n := range rootNode.stmts {
-		if !isFn(n, "invokeDynamic") {
+		if n.sym != invokeDynamic {
 			WalkPostOrder(n, func(n *Node) { rewriteAnonFnAndClosures(&errs, rootNode, n) })
 		}
 	}
@@ -223,10 +224,6 @@ func stdSyms() []*Symbol {
 	}
 }
 
-func isFn(n *Node, name string) bool {
-	return n.Is(opBlockFnDcl) && n.token.Val == name
-}
-
 func printLex(tokens []*lex.Token, out io.Writer) {
 	fmt.Fprintln(out, "\nLexical Tokens")
 	for _, token := range tokens {
-- 
2.43.0


From 2aef6069182a138fc147509cb70ee4553632af59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:58 +0000
Subject: [PATCH 35/41] fix: do not run the generated assembly through the
 preprocessor

---
 main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/main.go b/main.go
index 29db95c..5b1c2f6 100644
--- a/main.go
+++ b/main.go
@@ -140,7 +140,7 @@ func Compile(options options, claraLibPaths []string, progPath string, cLibPaths
 	// Create assembly file
 	basename := filepath.Base(progPath)
 	progName := strings.TrimSuffix(basename, filepath.Ext(basename))
-	asmPath := fmt.Sprintf("%v/%v.S", os.TempDir(), progName)
+	asmPath := fmt.Sprintf("%v/%v.s", os.TempDir(), progName) // NOTE: ".S" would be preprocessed!
 	os.Remove(asmPath) // Ignore error
 	f, err := os.Create(asmPath)
 	if err != nil {
-- 
2.43.0


From 580d8a490f575dc675eba7508559c96817e08a29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:58 +0000
Subject: [PATCH 36/41] fix: give each compilation its own assembly file

---
 main.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/main.go b/main.go
index 5b1c2f6..3f3ef64 100644
--- a/main.go
+++ b/main.go
@@ -140,12 +140,12 @@ func Compile(options options, claraLibPaths []string, progPath string, cLibPaths
 	// Create assembly file
 	basename := filepath.Base(progPath)
 	progName := strings.TrimSuffix(basename, filepath.Ext(basename))
-	asmPath := fmt.Sprintf("%v/%v.s", os.TempDir(), progName) // NOTE: ".S" would be preprocessed!
-	os.Remove(asmPath) // Ignore error
-	f, err := os.Create(asmPath)
+	f, err := ioutil.TempFile("", "clara*.s") // NOTE: ".S" would be preprocessed!
 	if err != nil {
 		return "", []error{err}
 	}
+	asmPath := f.Name()
+	defer os.Remove(asmPath)
 
 	// Generate assembly
 	asm := NewGasWriter(f, options.showAsm)
-- 
2.43.0


From 0eaae6247fd85993a8bb51cb7550ad01d8578561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:30:48 +0000
Subject: [PATCH 37/41] fix: allow functions with more than 4095 variables

---
 asm.go     | 6 +++---
 codegen.go | 9 ++++++++-
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/asm.go b/asm.go
index 707a842..17859cd 100644
--- a/asm.go
+++ b/asm.go
@@ -20,7 +20,7 @@ type operand interface {
 type memOp struct {
 	base  reg
 	idx   reg
-	disp  int16
+	disp  int32
 	scl   int16
 	indir bool
 	deref bool
@@ -37,7 +37,7 @@ func (mo memOp) scale(m int) memOp {
 }
 
 func (mo memOp) displace(m int) memOp {
-	mo.disp = int16(m)
+	mo.disp = int32(m)
 	return mo
 }
 
@@ -206,7 +206,7 @@ func (r reg) indirect() memOp {
 }
 
 func (r reg) displace(i int) memOp {
-	if i > math.MaxInt16 || i < math.MinInt16 {
+	if i > math.MaxInt32 || i < math.MinInt32 {
 		panic(fmt.Sprintf("Cannot represent displacement: %v", i))
 	}
 	return r.deref().displace(i)
diff --git a/codegen.go b/codegen.go
index 63ca529..023674e 100644
--- a/codegen.go
+++ b/codegen.go
@@ -399,7 +399,14 @@ func genFnEntry(asm asmWriter, name string, temps int) int {
 		temps += 1
 	}
 	asm.fnStart(name)
-	asm.ins(enter, intOp(temps*8), intOp(0))
+	if size := temps*8; size <= math.MaxUint16 {
+		asm.ins(enter, intOp(size), intOp(0))
+	} else {
+		// Frame is too large for enter
+		asm.ins(pushq, rbp)
+		asm.ins(movq, rsp, rbp)
+		asm.ins(subq, intOp(size), rsp)
+	}
 	return temps
 }
 
-- 
2.43.0


From 72ef7a6f5107a3dbff878c10b39bd5829ed42382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:32:10 +0000
Subject: [PATCH 38/41] fix: a range which ends in a hex 0 descends like one
 which ends in 0

---
 semantic.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/semantic.go b/semantic.go
index 12b7a1e..312eb86 100644
--- a/semantic.go
+++ b/semantic.go
@@ -497,6 +497,12 @@ func foldConstants(errs *[]error, n *Node) {
 	}
 }
 
+// Literals are decimal or hex
+func isZero(val string) bool {
+	i, err := strconv.ParseInt(val, 0, 64)
+	return err == nil && i == 0
+}
+
 func lowerForStatement(n *Node) {
 	// Maybe: for x in b where x > 2 {}      // Iterator with predicate
 	if n.op == opFor {
@@ -525,7 +531,7 @@ func lowerForStatement(n *Node) {
 			initVal := arrayOrRange.left
 			cond := lt(val.copy(), arrayOrRange.right)
 			nextVal := inc(val.copy(), 1)
-			if arrayOrRange.right.Is(opLit) && arrayOrRange.right.token.Val == "0" {
+			if arrayOrRange.right.Is(opLit) && isZero(arrayOrRange.right.token.Val) {
 				initVal = plus(arrayOrRange.left, intLit(-1))
 				cond = lte(arrayOrRange.right, val.copy())
 				nextVal = inc(val.copy(), -1)
-- 
2.43.0


From 4419a92c9f386d08e11e628b43236cdbe324bca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:51:57 +0000
Subject: [PATCH 39/41] fix: reject calls which leave a type parameter of a
 returned function type unknown

---
 typecheck.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/typecheck.go b/typecheck.go
index 129a159..258710f 100644
--- a/typecheck.go
+++ b/typecheck.go
@@ -877,10 +877,10 @@ func findUnboundTypeParameters(t *Type, bound map[*Type]*Type) []*Type {
 	case t.Is(Function):
 		f := t.AsFunction()
 		var unmatched []*Type
-		for _, f := range f.Types {
-			unmatched = append(unmatched, findUnboundTypeParameters(f, bound)...)
+		for _, p := range f.Params {
+			unmatched = append(unmatched, findUnboundTypeParameters(p, bound)...)
 		}
-		return unmatched
+		return append(unmatched, findUnboundTypeParameters(f.ret, bound)...)
 
 	case t.Is(Struct):
 		s := t.AsStruct()
-- 
2.43.0


From eeced5f211593a24167042349e4d475b196250ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:24:50 +0000
Subject: [PATCH 40/41] fix: give anonymous functions names which cannot clash

---
 typecheck.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/typecheck.go b/typecheck.go
index 258710f..3060b76 100644
--- a/typecheck.go
+++ b/typecheck.go
@@ -5,10 +5,11 @@ import (
 	"fmt"
 	"github.com/g-dx/clarac/console"
 	"github.com/g-dx/clarac/lex"
-	"math/rand"
 	"strings"
 )
 
+var anonFnId = uint(0) // Names anonymous functions
+
 //---------------------------------------------------------------------------------------------------------------
 
 func typeCheck(n *Node, symtab *SymTab, fn *FunctionType, debug bool) (errs []error) {
@@ -209,7 +210,8 @@ func typeCheck(n *Node, symtab *SymTab, fn *FunctionType, debug bool) (errs []er
 				errs = append(errs, semanticError2(errTooManyArgsMsg, n.token, n.token.Val, maxDynFnArgCount))
 				goto end
 			}
-			_, err := processFnType(n, fmt.Sprintf("%X", rand.Uint32()), symtab, symtab.Child(), nil,false)
+			anonFnId += 1
+			_, err := processFnType(n, fmt.Sprintf("$%X", anonFnId), symtab, symtab.Child(), nil,false)
 			if err != nil {
 				errs = append(errs, err)
 				goto end
-- 
2.43.0


From 358740938dea9ba3be5eb1f3c83d2cbfdff09f0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:43:43 +0000
Subject: [PATCH 41/41] fix: let programs overload unsafe with three parameters

---
 typecheck.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/typecheck.go b/typecheck.go
index 3060b76..5b73f03 100644
--- a/typecheck.go
+++ b/typecheck.go
@@ -660,7 +660,8 @@ func typeCheckFuncCall(n *Node, fnSymtab *SymTab, symtab *SymTab, fn *FunctionTy
 	}
 
 	// SPECIAL CASE: Allow anything into the unsafe function
-	if s := n.left.sym; s.isFunction() && s.IsGlobal && s.Name == "unsafe" && (s.Next == nil || len(n.stmts) == 3) {
+	if s := n.left.sym; s.isFunction() && s.IsGlobal && s.Name == "unsafe" &&
+		(s.Next == nil || (len(n.stmts) == 3 && n.stmts[2].Is(opNamedType, opFuncType, opArrayType))) {
 		unsafe := s.Type.AsFunction()
 		if len(n.stmts) != 3 {
 			return append(errs, semanticError2(errInvalidNumberArgsMsg, n.left.token, len(n.stmts), len(unsafe.Params)))
-- 
2.43.0

