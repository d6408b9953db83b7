package main

// Abstract syntax of the Clara subset the generators produce, and its printer.

import (
	"fmt"
	"strconv"
	"strings"
)

// ---------------------------------------------------------------------------------------------------------------------
// Types

type Kind int

const (
	KInt Kind = iota
	KBool
	KStr
	KBytes
	KNothing
	KArr
	KFn
	KNamed // struct or enum
	KParam // type parameter
)

type Ty struct {
	K    Kind
	Name string // KNamed, KParam
	Args []*Ty  // element, parameters or type arguments
	Ret  *Ty    // KFn
	Def  *TypeDecl
}

var (
	tInt     = &Ty{K: KInt, Name: "int"}
	tBool    = &Ty{K: KBool, Name: "bool"}
	tStr     = &Ty{K: KStr, Name: "string"}
	tBytes   = &Ty{K: KBytes, Name: "bytes"}
	tNothing = &Ty{K: KNothing, Name: "nothing"}
)

func tArr(e *Ty) *Ty                { return &Ty{K: KArr, Args: []*Ty{e}} }
func tFn(ret *Ty, ps ...*Ty) *Ty    { return &Ty{K: KFn, Args: ps, Ret: ret} }
func tPar(n string) *Ty             { return &Ty{K: KParam, Name: n} }
func (d *TypeDecl) ty(a ...*Ty) *Ty { return &Ty{K: KNamed, Name: d.Name, Args: a, Def: d} }

func (t *Ty) String() string { return strings.Join(tyToks(t), " ") }

func (t *Ty) key() string { return t.String() }

func same(a, b *Ty) bool {
	if a == b {
		return true
	}
	if a == nil || b == nil || a.K != b.K || a.Name != b.Name || len(a.Args) != len(b.Args) || a.Def != b.Def {
		return false
	}
	if a.K == KFn && !same(a.Ret, b.Ret) {
		return false
	}
	for i := range a.Args {
		if !same(a.Args[i], b.Args[i]) {
			return false
		}
	}
	return true
}

func subst(t *Ty, m map[string]*Ty) *Ty {
	if t == nil {
		return nil
	}
	if t.K == KParam {
		if r, ok := m[t.Name]; ok {
			return r
		}
		return t
	}
	if len(t.Args) == 0 && t.Ret == nil {
		return t
	}
	n := &Ty{K: t.K, Name: t.Name, Def: t.Def, Ret: subst(t.Ret, m)}
	for _, a := range t.Args {
		n.Args = append(n.Args, subst(a, m))
	}
	return n
}

// Matches pattern p (with type parameters among free) against concrete type t
func unify(p, t *Ty, free map[string]bool, m map[string]*Ty) bool {
	if p.K == KParam && free[p.Name] {
		if b, ok := m[p.Name]; ok {
			return same(b, t)
		}
		if t.K == KNothing {
			return false
		}
		m[p.Name] = t
		return true
	}
	if p.K != t.K || p.Name != t.Name || len(p.Args) != len(t.Args) || p.Def != t.Def {
		return false
	}
	if p.K == KFn && !unify(p.Ret, t.Ret, free, m) {
		return false
	}
	for i := range p.Args {
		if !unify(p.Args[i], t.Args[i], free, m) {
			return false
		}
	}
	return true
}

func mentions(t *Ty, name string) bool {
	if t == nil {
		return false
	}
	if t.K == KParam && t.Name == name {
		return true
	}
	for _, a := range t.Args {
		if mentions(a, name) {
			return true
		}
	}
	return mentions(t.Ret, name)
}

func hasParam(t *Ty) bool {
	if t == nil {
		return false
	}
	if t.K == KParam {
		return true
	}
	for _, a := range t.Args {
		if hasParam(a) {
			return true
		}
	}
	return hasParam(t.Ret)
}

func hasFn(t *Ty) bool {
	if t == nil {
		return false
	}
	if t.K == KFn {
		return true
	}
	for _, a := range t.Args {
		if hasFn(a) {
			return true
		}
	}
	return false
}

func tyDepth(t *Ty) int {
	d := 0
	for _, a := range t.Args {
		if x := tyDepth(a); x > d {
			d = x
		}
	}
	if t.Ret != nil {
		if x := tyDepth(t.Ret); x > d {
			d = x
		}
	}
	return d + 1
}

// ---------------------------------------------------------------------------------------------------------------------
// Declarations

type Field struct {
	Name string
	T    *Ty
}

type CaseDecl struct {
	Name   string
	Fields []Field
}

type TypeDecl struct {
	Name   string
	IsEnum bool
	TPs    []string
	Fields []Field    // struct
	Cases  []CaseDecl // enum
	Std    bool       // declared by the standard library
}

func (d *TypeDecl) ctor() string { // struct constructor
	r := []rune(d.Name)
	return strings.ToUpper(string(r[0])) + string(r[1:])
}

func (d *TypeDecl) bind(args []*Ty) map[string]*Ty {
	m := map[string]*Ty{}
	for i, p := range d.TPs {
		m[p] = args[i]
	}
	return m
}

type Var struct {
	Name   string
	T      *Ty
	Const  bool // never assigned by generated code
	Cap    bool // captured by value (only meaning: belongs to an outer function)
	fn     *FnScope
	lenMin int // arrays: statically known minimum length
	known  bool
	val    int64 // known constant value
	idxOf  *Var  // loop variable running over the indexes of this array
}

type FnDecl struct {
	Name    string
	TPs     []string
	Params  []*Var
	Ret     *Ty
	Body    []*Stmt
	Expr    *Expr // expression function
	Pure    bool
	Std     bool
	Builtin func(in *Interp, args []Value) Value
	Weight  int
	Group   string
	NoVal   bool // not usable as a function value
	NoDot   bool
	recFuel bool      // first parameter is a recursion budget
	overT   []*Ty     // type arguments for T that go with it
	over    []*FnDecl // overload set whose name is passed for the function parameter
}

func (f *FnDecl) ty() *Ty {
	t := &Ty{K: KFn, Ret: f.Ret}
	for _, p := range f.Params {
		t.Args = append(t.Args, p.T)
	}
	return t
}

type Program struct {
	Types []*TypeDecl
	Fns   []*FnDecl
	Order []int      // permutation of declarations: types then functions
	Extra string     // source text added as is; its functions are modelled by FnDecls with Builtin
	Raws  [][]string // declarations given as tokens
}

// ---------------------------------------------------------------------------------------------------------------------
// Expressions and statements

type EOp int

const (
	EInt EOp = iota
	EBool
	EStr
	EVar
	ENeg
	EBNot
	ENot
	EBin
	ETern
	ECall  // direct call of Fn
	ECallV // call of a function value: Kids[0] callee
	ECallF // x.f(args) where f is a function typed field: Kids[0] receiver
	EField
	EIndex
	ELen // array or string .length
	EArr
	ELambda
	EStruct // constructor
	EEnum
	EFnRef
	ERaw // literal tokens (used for injected mistakes)
)

type Expr struct {
	Op    EOp
	T     *Ty
	S     string
	I     int64
	Hex   bool
	Kids  []*Expr
	Var   *Var
	Fn    *FnDecl // ECall, EFnRef, ELambda
	Def   *TypeDecl
	Tag   int
	TArgs []*Ty // explicit type arguments when not nil
	Dot   bool
	Paren int // redundant parentheses
	Toks  []string
}

type SOp int

const (
	SDecl SOp = iota
	SAssign
	SIf // Kids: conditions, Blocks: one per condition plus optional else
	SWhile
	SForRange
	SForArr
	SMatch
	SReturn
	SExpr
	SRaw
)

type Stmt struct {
	Op     SOp
	Var    *Var
	L, R   *Expr // L: target or range start
	Conds  []*Expr
	Blocks [][]*Stmt
	Cases  []*MatchCase
	Toks   []string
	Scope  *Scope // scope at this point (for mistakes)
	Mark   bool   // the injected mistake
	After  int    // number of variables of the innermost scope visible before this statement
}

type MatchCase struct {
	Tag  int
	Vars []*Var
	Body []*Stmt
}

// ---------------------------------------------------------------------------------------------------------------------
// Printer: produces tokens with line hints

type Tok struct {
	S      string
	NL     bool // starts a new line in the canonical layout
	Indent int
	Mark   bool
}

type Printer struct {
	toks   []Tok
	nl     bool
	indent int
	mark   bool
	// Variation for metamorphic checks; nil = canonical
	v *Src
	// Names the program declares; with value 's' for structs, 'c' for names that must start with a letter
	names map[string]byte
}

func (p *Printer) dcl(name string, kind byte) string {
	if p.names == nil {
		p.names = map[string]byte{}
	}
	if p.names[name] < kind {
		p.names[name] = kind
	}
	return name
}

func (p *Printer) t(ss ...string) {
	for _, s := range ss {
		p.toks = append(p.toks, Tok{s, p.nl, p.indent, p.mark})
		p.nl = false
	}
}

func tyToks(t *Ty) []string {
	switch t.K {
	case KArr:
		return append([]string{"[", "]"}, tyToks(t.Args[0])...)
	case KFn:
		r := []string{"fn", "("}
		for i, a := range t.Args {
			if i > 0 {
				r = append(r, ",")
			}
			r = append(r, tyToks(a)...)
		}
		r = append(r, ")")
		return append(r, tyToks(t.Ret)...)
	case KNamed:
		r := []string{t.Name}
		if len(t.Args) > 0 {
			r = append(r, tyArgToks(t.Args)...)
		}
		return r
	}
	return []string{t.Name}
}

func tyArgToks(ts []*Ty) []string {
	r := []string{"«"}
	for i, a := range ts {
		if i > 0 {
			r = append(r, ",")
		}
		r = append(r, tyToks(a)...)
	}
	return append(r, "»")
}

var binPrec = map[string]int{"or": 1, "and": 2, "|": 3, "^": 4, "&": 5, "==": 6, "<": 7, "<=": 7, ">": 7, ">=": 7,
	"<<": 8, ">>": 8, "+": 9, "-": 9, "*": 10, "/": 10}

func prec(e *Expr) int {
	switch e.Op {
	case ETern:
		return 0
	case ELambda:
		if e.Fn.Expr != nil {
			return 0
		}
		return 14
	case EBin:
		return binPrec[e.S]
	case ENeg, EBNot, ENot:
		return 11
	case EInt:
		if e.I < 0 {
			return 11
		}
		return 14
	case EField, ELen, ECallF:
		return 12
	case EIndex:
		return 12
	case ECall:
		if e.Dot {
			return 12
		}
		return 13
	case ECallV:
		return 13
	}
	return 14
}

func quote(s string) string { return quoteAs(s, false) }

// rawCR: a carriage return stands for itself
func quoteAs(s string, rawCR bool) string {
	var b strings.Builder
	b.WriteByte('"')
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '\n':
			b.WriteString("\\n")
		case '\r':
			if rawCR {
				b.WriteByte('\r')
			} else {
				b.WriteString("\\r")
			}
		case '\\':
			b.WriteString("\\\\")
		case '"':
			b.WriteString("\\\"")
		default:
			b.WriteByte(s[i])
		}
	}
	b.WriteByte('"')
	return b.String()
}

func intTok(v int64, hex bool) string { // v >= 0
	if hex {
		return "0x" + strconv.FormatUint(uint64(v), 16)
	}
	return strconv.FormatInt(v, 10)
}

func (p *Printer) expr(e *Expr, min int) {
	n := e.Paren
	if p.v != nil && e.Op != ERaw && p.v.Chance(1, 6) {
		n++
	}
	if prec(e) < min && n == 0 {
		n = 1
	}
	for i := 0; i < n; i++ {
		p.t("(")
	}
	p.raw(e)
	for i := 0; i < n; i++ {
		p.t(")")
	}
}

func (p *Printer) args(es []*Expr) {
	p.t("(")
	for i, a := range es {
		if i > 0 {
			p.t(",")
		}
		p.expr(a, 0)
	}
	p.t(")")
}

func (p *Printer) raw(e *Expr) {
	switch e.Op {
	case EInt:
		v, hex := e.I, e.Hex
		if p.v != nil && p.v.Chance(1, 3) {
			hex = !hex
		}
		if v < 0 {
			p.t("-")
			v = -v
		}
		p.t(intTok(v, hex))
	case EBool:
		if e.I != 0 {
			p.t("true")
		} else {
			p.t("false")
		}
	case EStr:
		p.t(quoteAs(e.S, e.Hex))
	case EVar:
		p.t(e.Var.Name)
	case ENeg:
		p.t("-")
		p.expr(e.Kids[0], 11)
	case EBNot:
		p.t("~")
		p.expr(e.Kids[0], 11)
	case ENot:
		p.t("not")
		p.expr(e.Kids[0], 11)
	case EBin:
		q := binPrec[e.S]
		p.expr(e.Kids[0], q)
		p.t(e.S)
		p.expr(e.Kids[1], q+1)
	case ETern:
		p.expr(e.Kids[0], 1)
		p.t("?")
		p.expr(e.Kids[1], 0)
		p.t(":")
		p.expr(e.Kids[2], 0)
	case ECall:
		dot := e.Dot
		if p.v != nil && len(e.Kids) > 0 && e.TArgs == nil && e.Kids[0].Op != EFnRef && !e.Fn.NoDot && !hasField(e.Kids[0].T, e.Fn.Name) && p.v.Chance(1, 3) {
			dot = !dot
		}
		if dot {
			p.expr(e.Kids[0], 12)
			p.t(".", e.Fn.Name)
			if e.TArgs != nil {
				p.t(tyArgToks(e.TArgs)...)
			}
			p.args(e.Kids[1:])
		} else {
			p.t(e.Fn.Name)
			if e.TArgs != nil {
				p.t(tyArgToks(e.TArgs)...)
			}
			p.args(e.Kids)
		}
	case ECallV:
		k := e.Kids[0]
		if k.Op == EVar || k.Op == ECall && !k.Dot && k.Paren == 0 && p.v == nil || k.Op == ELambda && k.Fn.Expr == nil ||
			k.Op == EIndex && p.v == nil && k.Paren == 0 && k.Kids[0].Op != EArr {
			np := k.Paren
			k.Paren = 0
			p.raw(k)
			k.Paren = np
		} else {
			p.t("(")
			p.raw(k)
			p.t(")")
		}
		p.args(e.Kids[1:])
	case ECallF:
		p.expr(e.Kids[0], 12)
		p.t(".", e.S)
		p.args(e.Kids[1:])
	case EField:
		p.expr(e.Kids[0], 12)
		p.t(".", e.S)
	case ELen:
		p.expr(e.Kids[0], 12)
		p.t(".", "length")
	case EIndex:
		p.expr(e.Kids[0], 12)
		p.t("[")
		p.expr(e.Kids[1], 0)
		p.t("]")
	case EArr:
		p.t("[")
		for i, k := range e.Kids {
			if i > 0 {
				p.t(",")
			}
			p.expr(k, 0)
		}
		p.t("]")
	case ELambda:
		p.t("fn")
		p.fnRest(e.Fn)
	case EStruct:
		p.t(e.Def.ctor())
		if e.TArgs != nil {
			p.t(tyArgToks(e.TArgs)...)
		}
		p.args(e.Kids)
	case EEnum:
		p.t(e.Def.Cases[e.Tag].Name)
		if e.TArgs != nil {
			p.t(tyArgToks(e.TArgs)...)
		}
		p.args(e.Kids)
	case EFnRef:
		p.t(e.Fn.Name)
	case ERaw:
		p.t(e.Toks...)
	default:
		panic(fmt.Sprint("print ", e.Op))
	}
}

// An expression whose text starts with a token that would continue the previous statement
func startsBad(e *Expr) bool {
	if e.Paren > 0 {
		return true
	}
	switch e.Op {
	case EInt:
		return true // keep literals out of receivers at statement start
	case EVar, EFnRef, EStruct, EEnum, EStr, EBool:
		return false
	case ECall:
		if e.Dot {
			return startsBad(e.Kids[0])
		}
		return false
	case EField, EIndex, ELen, ECallF:
		return prec(e.Kids[0]) < 12 || startsBad(e.Kids[0])
	}
	return true
}

func (p *Printer) fnRest(f *FnDecl) {
	p.t("(")
	for i, v := range f.Params {
		if i > 0 {
			p.t(",")
		}
		p.t(p.dcl(v.Name, 1), ":")
		p.t(tyToks(v.T)...)
	}
	p.t(")")
	if f.Ret.K != KNothing {
		p.t(tyToks(f.Ret)...)
	}
	if f.Expr != nil {
		if p.v != nil && f.Ret.K != KNothing && p.v.Chance(1, 3) {
			p.t("{")
			p.nl = true
			p.indent++
			p.t("return")
			p.expr(f.Expr, 0)
			p.indent--
			p.nl = true
			p.t("}")
			return
		}
		p.t("=")
		p.expr(f.Expr, 0)
		return
	}
	p.block(f.Body)
}

func (p *Printer) block(b []*Stmt) {
	p.t("{")
	p.indent++
	for _, s := range b {
		p.stmt(s)
	}
	p.indent--
	p.nl = true
	p.t("}")
}

func (p *Printer) stmt(s *Stmt) {
	p.nl = true
	if s.Mark {
		p.mark = true
		defer func() { p.mark = false }()
	}
	switch s.Op {
	case SDecl:
		p.t(p.dcl(s.Var.Name, 1), ":=")
		p.expr(s.R, 0)
	case SAssign:
		sv := p.v
		p.v = nil
		p.expr(s.L, 0)
		p.v = sv
		p.t("=")
		p.expr(s.R, 0)
	case SIf:
		for i, b := range s.Blocks {
			if i == 0 {
				p.t("if")
			} else if i < len(s.Conds) {
				p.t("elseif")
			} else {
				p.t("else")
			}
			if i < len(s.Conds) {
				p.expr(s.Conds[i], 0)
			}
			p.block(b)
		}
	case SWhile:
		p.t("while")
		p.expr(s.R, 0)
		p.block(s.Blocks[0])
	case SForRange:
		p.t("for", p.dcl(s.Var.Name, 1), "in")
		p.expr(s.L, 0)
		p.t("..")
		p.expr(s.R, 0)
		p.block(s.Blocks[0])
	case SForArr:
		p.t("for", p.dcl(s.Var.Name, 1), "in")
		p.expr(s.R, 0)
		p.block(s.Blocks[0])
	case SMatch:
		p.t("match")
		p.expr(s.R, 0)
		p.t("{")
		p.indent++
		for _, c := range s.Cases {
			p.nl = true
			p.t("case", s.R.T.Def.Cases[c.Tag].Name, "(")
			for i, v := range c.Vars {
				if i > 0 {
					p.t(",")
				}
				p.t(p.dcl(v.Name, 1))
			}
			p.t(")", ":")
			p.indent++
			for _, x := range c.Body {
				p.stmt(x)
			}
			p.indent--
		}
		p.indent--
		p.nl = true
		p.t("}")
	case SReturn:
		p.t("return")
		if s.R != nil {
			p.expr(s.R, 0)
		}
	case SExpr:
		sv := p.v
		if sv != nil { // a statement must not start with a parenthesis
			p.v = nil
			e := s.R
			if e.Op == ECall && !e.Dot && e.Paren == 0 {
				p.t(e.Fn.Name)
				if e.TArgs != nil {
					p.t(tyArgToks(e.TArgs)...)
				}
				p.v = sv
				p.args(e.Kids)
				return
			}
		}
		p.expr(s.R, 0)
		p.v = sv
	case SRaw:
		p.rawToks(s.Toks)
	}
}

// Tokens given as text: "\n" starts a line, a leading § marks the mistake
func (p *Printer) rawToks(ts []string) {
	for _, t := range ts {
		if t == "\n" {
			p.nl = true
			continue
		}
		m := p.mark
		if strings.HasPrefix(t, "§") {
			t = t[len("§"):]
			p.mark = true
		}
		p.t(t)
		p.mark = m
	}
}

func (p *Printer) typeDecl(d *TypeDecl) {
	p.nl = true
	if d.IsEnum {
		p.t("enum", p.dcl(d.Name, 2))
	} else {
		p.t("struct", p.dcl(d.Name, 's'))
	}
	if len(d.TPs) > 0 {
		p.t("«")
		for i, n := range d.TPs {
			if i > 0 {
				p.t(",")
			}
			p.t(p.dcl(n, 2))
		}
		p.t("»")
	}
	p.t("{")
	p.indent++
	for _, f := range d.Fields {
		p.nl = true
		p.t(p.dcl(f.Name, 1), ":")
		p.t(tyToks(f.T)...)
	}
	for _, c := range d.Cases {
		p.nl = true
		p.t(p.dcl(c.Name, 2), "(")
		for i, f := range c.Fields {
			if i > 0 {
				p.t(",")
			}
			p.t(p.dcl(f.Name, 1), ":")
			p.t(tyToks(f.T)...)
		}
		p.t(")")
	}
	p.indent--
	p.nl = true
	p.t("}")
}

func (p *Printer) fnDecl(f *FnDecl) {
	p.nl = true
	p.t("fn", p.dcl(f.Name, 3))
	if len(f.TPs) > 0 {
		p.t("«")
		for i, n := range f.TPs {
			if i > 0 {
				p.t(",")
			}
			p.t(p.dcl(n, 2))
		}
		p.t("»")
	}
	p.fnRest(f)
}

func (p *Printer) program(pr *Program, order []int) {
	n := len(pr.Types) + len(pr.Fns) + len(pr.Raws)
	if order == nil {
		order = pr.Order
	}
	if order == nil {
		for i := 0; i < n; i++ {
			order = append(order, i)
		}
	}
	for _, i := range order {
		if i < len(pr.Types) {
			p.typeDecl(pr.Types[i])
		} else if i < len(pr.Types)+len(pr.Fns) {
			p.fnDecl(pr.Fns[i-len(pr.Types)])
		} else {
			p.nl = true
			p.rawToks(pr.Raws[i-len(pr.Types)-len(pr.Fns)])
		}
	}
}

// Canonical text: one statement per line, tokens separated by single spaces. Also returns the line of the marked token.
func render(toks []Tok) (string, int) {
	var b strings.Builder
	line, mark := 1, 0
	for i, t := range toks {
		if t.NL && i > 0 {
			b.WriteString("\n")
			b.WriteString(strings.Repeat("  ", t.Indent))
			line++
		} else if i > 0 && needSpace(toks[i-1].S, t.S) {
			b.WriteByte(' ')
		}
		if t.Mark && mark == 0 {
			mark = line
		}
		b.WriteString(t.S)
	}
	b.WriteString("\n")
	return b.String(), mark
}

// Conservative: leave the space out only around punctuation which can never join with its neighbour
func needSpace(a, b string) bool {
	switch a {
	case "(", "[", "«":
		return false
	case ".":
		return b == "." || b == ".."
	case "-", "~":
		return true
	}
	switch b {
	case ")", "]", "»", ",", "«":
		return false
	case "(":
		return a == "=" || isOp(a)
	case "[":
		return !isWord(a) || isKeyword(a)
	case ".":
		return a == "." || a == ".."
	case ":":
		return a == ")"
	}
	return true
}

func isOp(a string) bool {
	switch a {
	case ")", "]", "»", "}", "{", "(", "[", "«":
		return false
	}
	return !isWord(a) || isKeyword(a)
}

func isWord(a string) bool {
	c := a[0]
	return c == '_' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= 0x80 || c >= '0' && c <= '9'
}

func isKeyword(a string) bool {
	switch a {
	case "fn", "return", "if", "elseif", "else", "true", "false", "not", "and", "or", "struct", "while", "for", "in", "enum", "match", "case", "type":
		return true
	}
	return false
}

func programText(pr *Program) string {
	p := &Printer{}
	p.program(pr, nil)
	s, _ := render(p.toks)
	return s + pr.Extra
}

func hasField(t *Ty, name string) bool {
	if name == "length" && (t.K == KArr || t.K == KStr) {
		return true
	}
	if t.K == KNamed && !t.Def.IsEnum {
		for _, f := range t.Def.Fields {
			if f.Name == name {
				return true
			}
		}
	}
	return false
}
