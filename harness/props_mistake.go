package main

// C16 and C17: valid programs with one mistake at a random place.

import (
	"fmt"
	"os"
	"regexp"
	"strconv"
	"strings"
	"time"
)

// Declarations the mistakes refer to
var mistakeHelpers = []string{
	`fn hI ( i : int ) int = i`,
	`fn hS ( s : string ) string = s`,
	`fn hB ( b : bool ) bool = b`,
	`fn hISB ( i : int , s : string , b : bool ) int = i`,
	`fn hId « T » ( t : T ) T = t`,
	`fn hPair « T , U » ( t : T , u : U ) T = t`,
	`fn hMkFn « T » ( ) fn ( T ) int { return fn ( p : T ) int = 1 }`,
	`fn hMkGet « T » ( n : int ) fn ( ) option « T » { return fn ( ) option « T » = None « T » ( ) }`,
	`fn hMkBox « T » ( ) option « fn ( int ) T » { return None « fn ( int ) T » ( ) }`,
	`fn hNone ( ) = print ( "" )`,
	`struct hPoint { hx : int hs : string hf : fn ( int ) int }`,
	`struct hBox « T » { item : T }`,
	`enum hShape { HDot ( ) HLine ( a : int ) HBlock ( a : int , b : string ) }`,
	`fn hx ( p : hPoint ) int = 1`, // a function with the name of a field
	`fn hs ( p : hPoint , i : int ) string = p . hs`,
	`fn hOv ( i : int ) int = i`, // overloads
	`fn hOv ( s : string ) int = 1`,
	`fn hOw ( b : bool ) int = 1`,
	`fn hOw ( s : string ) int = 1`,
	`fn hTwo « T , U » ( t : T ) option « U » = None « U » ( )`,
	`fn hSix ( a : int , b : int , c : int , d : int , e : int , f : int ) int = a`,
	`fn hMk ( ) hPoint = HPoint ( 1 , "p" , hI )`,
	`fn hSh ( ) hShape = HLine ( 1 )`,
}

type mistake struct {
	cls  string
	toks []string // erroneous expression
	t    *Ty      // its type if it were right; nil: any
}

// Tokens separated by blanks; a line break is a token too
func split(s string) []string {
	var r []string
	for _, t := range strings.Split(s, " ") {
		if t != "" {
			r = append(r, t)
		}
	}
	return r
}

// A valid expression of simple type, as tokens
func (m *mk) good(t *Ty) []string {
	s := m.s
	if vs := m.varsOf(t); len(vs) > 0 && s.Chance(1, 2) {
		return []string{vs[s.N(len(vs))].Name}
	}
	switch t.K {
	case KInt:
		return split(s.Pick("1", "0", "7", "hI ( 2 )", "( 1 + 2 )", `"abc" . length`, "hMk ( ) . hx"))
	case KBool:
		return split(s.Pick("true", "false", "( 1 < 2 )", "hB ( true )", "( not false )"))
	case KStr:
		return split(s.Pick(`"s"`, `""`, `hS ( "a" )`, "toString ( 4 )", "hMk ( ) . hs"))
	}
	if t.K == KFn {
		return []string{"hI"}
	}
	panic("good")
}

type mk struct {
	s   *Src
	g   *Gen
	sc  *Scope
	k   int // variables of sc visible
	fn  *FnScope
	cls string
}

func (m *mk) visible() []*Var {
	if m.sc == nil {
		return nil
	}
	old := m.g.sc
	defer func() { m.g.sc = old }()
	m.g.sc = cut(m.sc, m.k)
	var r []*Var
	for _, v := range m.g.visible() { // names which are hidden by variables declared later are left out
		if lowerName(v.Name) {
			r = append(r, v)
		}
	}
	return r
}

// A copy of the scope as it was when it had k variables
func cut(sc *Scope, k int) *Scope {
	if sc == nil {
		return nil
	}
	return &Scope{vars: sc.vars[:min(k, len(sc.vars))], parent: cut(sc.parent, sc.plen), fn: sc.fn}
}

func lowerName(n string) bool { return n[0] >= 'a' && n[0] <= 'z' }

func (m *mk) varsOf(t *Ty) []*Var {
	var r []*Var
	for _, v := range m.visible() {
		if same(v.T, t) {
			r = append(r, v)
		}
	}
	return r
}

func simple(s *Src) *Ty { return []*Ty{tInt, tStr, tBool}[s.N(3)] }
func other(s *Src, t *Ty) *Ty {
	for i, x := range []*Ty{tInt, tStr, tBool} {
		if x == t {
			return []*Ty{tInt, tStr, tBool}[(i+1+s.N(2))%3]
		}
	}
	return tInt
}

var tPoint = &TypeDecl{Name: "hPoint"}
var tShape = &TypeDecl{Name: "hShape", IsEnum: true}

// One erroneous expression
func (m *mk) expr() mistake {
	s := m.s
	undef := s.Pick("nowhere", "undefinedName", "x9999", "Missing", "hJ")
	switch s.N(35) {
	case 0:
		return mistake{"undeclared variable", []string{undef}, nil}
	case 1:
		return mistake{"undeclared function", cat([]string{undef, "("}, m.good(simple(s)), []string{")"}), nil}
	case 2:
		return mistake{"undeclared field", cat(split(s.Pick("hMk ( ) . hz", "hMk ( ) . length", "hMk ( ) . deref", "HBox ( 1 ) . length", "HBox ( arrayOf3 ) . length", `HPoint ( 1 , "" , hI ) . x`, "HBox ( 1 ) . thing", "hMk ( ) . hs . hx"))), nil}
	case 3:
		return mistake{"field of a non-struct", cat(split(s.Pick("1 . hx", "true . value", `"abc" . hx`, "hI ( 1 ) . hs", "hSh ( ) . a", "[ 1 , 2 ] . size1", "1 . length", "true . length", "hSh ( ) . length", "hI . length", "1 . deref", `"abc" . deref`, "arrayOf3 . deref", "hSh ( ) . deref", "( fn ( ) int = 1 ) . length", "hI . hx", "HPoint . hx", "hMk . hx", "HLine . a", "HBox . item", "hSh . a", "( fn ( ) int = 1 ) . hx"))), nil}
	case 4: // arithmetic
		op := s.Pick("+", "-", "*", "/", "&", "|", "^", "<<", ">>")
		t := other(s, tInt)
		a, b := m.good(t), m.good(tInt)
		if s.Chance(1, 2) {
			a, b = b, a
		}
		if s.Chance(1, 4) {
			a, b = m.good(t), m.good(t)
		}
		return mistake{"arithmetic operand", cat(a, []string{op}, b), tInt}
	case 5: // comparison
		op := s.Pick("<", "<=", ">", ">=", "==")
		t := simple(s)
		return mistake{"comparison of different types", cat(m.good(t), []string{op}, m.good(other(s, t))), tBool}
	case 6:
		op := s.Pick("<", "<=", ">", ">=")
		t := other(s, tInt)
		return mistake{"ordering of non-integers", cat(m.good(t), []string{op}, m.good(t)), tBool}
	case 7:
		op := s.Pick("and", "or")
		t := other(s, tBool)
		a, b := m.good(t), m.good(tBool)
		if s.Chance(1, 2) {
			a, b = b, a
		}
		return mistake{"logic operand", cat(a, []string{op}, b), tBool}
	case 8:
		return mistake{"not of a non-boolean", cat([]string{"not"}, m.good(other(s, tBool))), tBool}
	case 9:
		return mistake{"unary operand", cat([]string{s.Pick("-", "~")}, m.good(other(s, tInt))), tInt}
	case 10:
		t := simple(s)
		return mistake{"argument type", cat([]string{map[*Ty]string{tInt: "hI", tStr: "hS", tBool: "hB"}[t], "("}, m.good(other(s, t)), []string{")"}), t}
	case 11:
		k := s.N(3)
		ts := []*Ty{tInt, tStr, tBool}
		r := []string{"hISB", "("}
		for i, t := range ts {
			if i > 0 {
				r = append(r, ",")
			}
			if i == k {
				t = other(s, t)
			}
			r = cat(r, m.good(t))
		}
		return mistake{"argument type", append(r, ")"), tInt}
	case 12:
		return mistake{"argument count", split(s.Pick("hI ( )", "hI ( 1 , 2 )", `hISB ( 1 , "a" )`, `hISB ( 1 , "a" , true , 1 )`, "hMk ( 1 )", `hS ( "a" , "b" )`, "1 . hI ( 2 )", "hMk ( ) . hf ( )", "hId ( )", "hId ( 1 , 2 )", "hPair ( 1 )", "unsafe ( 1 , 2 )", "unsafe ( )", "unsafe ( 1 , 2 , 3 , 4 )", "hOv ( )", "hOv ( 1 , 2 )", "1 . hOv ( 2 )", `hOw ( "a" , true )`)), nil}
	case 13:
		return mistake{"ternary condition", cat(m.good(other(s, tBool)), split("? 1 : 2")), tInt}
	case 14:
		t := simple(s)
		return mistake{"ternary branches", cat(m.good(tBool), []string{"?"}, m.good(t), []string{":"}, m.good(other(s, t))), t}
	case 15:
		return mistake{"index type", cat(split("arrayOf3 ["), m.good(other(s, tInt)), []string{"]"}), tInt}
	case 16:
		return mistake{"index of a non-array", cat(split(s.Pick("hI ( 1 )", `hS ( "a" )`, "hMk ( )", "hSh ( )", "hB ( true )")), split("[ 0 ]")), tInt}
	case 17:
		t := simple(s)
		return mistake{"mixed array literal", cat([]string{"["}, m.good(t), []string{","}, m.good(other(s, t)), []string{"]"}), tArr(t)}
	case 18:
		return mistake{"type as a value", split(s.Pick("int", "string", "bool", "hPoint", "hShape", "bytes", "option", "hBox")), nil}
	case 19:
		return mistake{"number of type arguments", split(s.Pick("hId « int , int » ( 1 )", "None « int , string » ( )", "hI « int » ( 1 )", "HBox « int , int » ( 1 )", "hPair « int » ( 1 , 2 )", "HDot « int » ( )", "toString « int » ( 1 )")), nil}
	case 20:
		return mistake{"type argument not known", split(s.Pick("None ( )", "Empty ( )", "None ( ) . isSome ( )", "hMkFn ( )", "hMkGet ( 1 )", "hMkBox ( )", "hMkGet ( 1 ) ( )", "hMkBox ( ) . isSome ( )", "hId ( hMkFn ( ) )", "hTwo ( 1 )", `hTwo ( "a" )`, "hTwo ( 1 ) . isSome ( )", "arrayOf3 . hTwo ( )", "hTwo ( hTwo « int , int » ( 1 ) )")), nil}
	case 21:
		if s.Chance(1, 2) {
			return mistake{"type in an expression", m.typeMistakeExpr(), nil}
		}
		return mistake{"undeclared type", split(s.Pick("None « nosuch » ( )", "fn ( p : nosuch ) int = 1", "fn ( p : int ) nosuch = 1", "None « [ ] nosuch » ( )", "None « option « nosuch » » ( )", "fn ( p : fn ( nosuch ) int ) int = 1", "fn ( p : option « nosuch » ) int = 1")), nil}
	case 22:
		t := simple(s)
		return mistake{"lambda result type", cat(split("fn ( )"), []string{t.Name, "="}, m.good(other(s, t))), tFn(t)}
	case 23:
		return mistake{"lambda parameter limit", split("fn ( a1 : int , a2 : int , a3 : int , a4 : int , a5 : int , a6 : int ) int = a1"), nil}
	case 24:
		return mistake{"call of a non-function", split(s.Pick("arrayOf3 ( 1 )", "hMk ( ) . hx ( 1 )", "hMk ( ) . hx ( )", "hMk ( ) . hs ( 1 )", "hMk ( ) . hs ( )", "arrayOf3 [ 0 ] ( 1 )", "hI ( 1 ) ( 2 )")), nil}
	case 25:
		return mistake{"constructor arguments", split(s.Pick("HPoint ( 1 )", `HPoint ( "a" , "b" , hI )`, "HPoint ( 1 , 2 , hI )", "HLine ( )", "HLine ( true )", `HBlock ( 1 , 2 )`, `HBlock ( "b" , 1 )`, "HDot ( 1 )", "Some ( )", "Some ( 1 , 2 )", "HPoint ( 1 , \"\" , hS )")), nil}
	case 26:
		return mistake{"function value arguments", split(s.Pick("hMk ( ) . hf ( true )", `hMk ( ) . hf ( "a" )`, "hMk ( ) . hf ( 1 , 2 )")), tInt}
	case 27:
		return mistake{"nothing as an argument", split(s.Pick("hI ( hNone ( ) )", "hS ( hNone ( ) )", "hNone ( ) + 1", "not hNone ( )", "1 < hNone ( )")), nil}
	case 28:
		return mistake{"generic argument", split(s.Pick("hId « int » ( true )", `hId « string » ( 1 )`, `HBox « int » ( "a" )`, `hPair « int , bool » ( 1 , 2 )`, "Some « bool » ( 1 )")), nil}
	case 29:
		return mistake{"generic result", split(s.Pick(`hId ( "a" ) + 1`, `hPair ( true , 1 ) + 1`, `HBox ( "a" ) . item + 1`, `hS ( hId ( 1 ) )`, "hI ( HBox ( true ) . item )")), nil}
	case 30:
		return mistake{"function type of argument", split(s.Pick("HPoint ( 1 , \"\" , fn ( s : string ) int = 1 )", "HPoint ( 1 , \"\" , fn ( a : int ) string = \"\" )", "HPoint ( 1 , \"\" , fn ( ) int = 1 )", "HPoint ( 1 , \"\" , fn ( a : int , b : int ) int = 1 )", "HPoint ( 1 , \"\" , 5 )")), nil}
	case 31:
		return mistake{"array argument", split(s.Pick("hI ( [ 1 ] )", `hS ( [ "a" ] )`, "hI ( arrayOf3 )", "arrayOf3 + 1", "hId « [ ] string » ( arrayOf3 )")), nil}
	case 32:
		return mistake{"limit of arguments", split(s.Pick("hI ( 1 , 2 , 3 , 4 , 5 , 6 , 7 )", `printf ( "" , 1 , 2 , 3 , 4 , 5 , 6 )`, `"" . printf ( 1 , 2 , 3 , 4 , 5 , 6 )`, `printf ( "" , 1 , "a" , 3 , 4 , 5 , 6 , 7 , 8 )`)), nil}
	case 33:
		return mistake{"no such overload", split(s.Pick("hOv ( true )", "hOv ( hMk ( ) )", "true . hOv ( )", "hOw ( 1 )", "hOv ( hI )", "hOv ( arrayOf3 )", `hOw ( [ "a" ] )`, `HPoint ( 1 , "" , hOw )`, "toString ( hMk ( ) )", "hMk ( ) . hf ( hOv )")), nil}
	}
	return mistake{"empty array literal", split("[ ]"), nil}
}

// Wraps an erroneous expression into larger ones
func (m *mk) wrap(x mistake, depth int) mistake {
	s := m.s
	if depth == 0 {
		return x
	}
	if x.t == nil {
		x.t = simple(s)
	}
	e := cat([]string{"("}, x.toks, []string{")"})
	r := mistake{cls: x.cls}
	if s.Chance(1, 3) {
		switch s.N(6) {
		case 0:
			r.toks, r.t = cat(split("hId ("), e, []string{")"}), x.t
		case 1:
			r.toks, r.t = cat(split("fn ( ) "), tyToks(x.t), []string{"="}, e), tFn(x.t)
		case 2:
			r.toks, r.t = cat(split("[ "), e, []string{"]"}), tArr(x.t)
		case 3:
			r.toks, r.t = cat(split("Some ("), e, []string{")"}), opt(x.t)
		case 4:
			r.toks, r.t = cat(split("hPair ( 1 , "), e, []string{")"}), tInt
		case 5:
			r.toks, r.t = cat(split("HBox ("), e, split(") . item")), x.t
		}
		return m.wrap(r, depth-1)
	}
	switch {
	case x.t.K == KInt:
		switch s.N(8) {
		case 0:
			r.toks, r.t = cat(m.good(tInt), []string{s.Pick("+", "-", "*", "&", "|", "^")}, e), tInt
		case 1:
			r.toks, r.t = cat(e, []string{s.Pick("+", "-", "*", "/", "<<")}, m.good(tInt)), tInt
		case 2:
			r.toks, r.t = cat(split("hISB ("), e, split(`, "" , true )`)), tInt
		case 3:
			r.toks, r.t = cat(split("arrayOf3 ["), e, []string{"]"}), tInt
		case 4:
			r.toks, r.t = cat(m.good(tInt), []string{s.Pick("<", "==", ">=")}, e), tBool
		case 5:
			r.toks, r.t = cat(split("true ? 1 :"), e), tInt
		case 6:
			r.toks, r.t = cat(split("hMk ( ) . hf ("), e, split(")")), tInt
		case 7:
			r.toks, r.t = cat(split("-"), e), tInt
		}
	case x.t.K == KBool:
		switch s.N(5) {
		case 0:
			r.toks, r.t = cat([]string{"not"}, e), tBool
		case 1:
			r.toks, r.t = cat(e, []string{s.Pick("and", "or")}, m.good(tBool)), tBool
		case 2:
			r.toks, r.t = cat(m.good(tBool), []string{s.Pick("and", "or")}, e), tBool
		case 3:
			r.toks, r.t = cat(e, split("? 1 : 2")), tInt
		case 4:
			r.toks, r.t = cat(split("hISB ( 1 , \"\" , "), e, split(")")), tInt
		}
	case x.t.K == KStr:
		switch s.N(4) {
		case 0:
			r.toks, r.t = cat(split("hS ("), e, split(")")), tStr
		case 1:
			r.toks, r.t = cat(e, split(". length")), tInt
		case 2:
			r.toks, r.t = cat(split(`"a" . append (`), e, split(")")), tStr
		case 3:
			r.toks, r.t = cat(split("true ?"), e, split(`: ""`)), tStr
		}
	default:
		r.toks, r.t = cat(split("hPair ( 1 , "), e, []string{")"}), tInt
	}
	return m.wrap(r, depth-1)
}

// Statements which contain the mistake; the marked token is on the line that counts
func (m *mk) stmt() [][]string {
	s := m.s
	fresh := func() string { return m.g.fresh("z") }
	one := func(ts ...string) [][]string { return [][]string{ts} }
	mark := func(ts []string) []string {
		r := append([]string(nil), ts...)
		r[0] = "§" + r[0]
		return r
	}
	vars := m.visible()
	if s.Chance(1, 4) { // over several lines
		toks, t := m.lines()
		switch {
		case t.K == KBool && s.Chance(1, 3):
			return one(cat([]string{s.Pick("if", "while"), "("}, toks, split(") { }"))...)
		case t.K == KStr && s.Chance(1, 3):
			return one(cat([]string{"println", "("}, toks, []string{")"})...)
		}
		if vs := m.varsOf(t); len(vs) > 0 && s.Chance(1, 3) {
			return one(cat([]string{vs[s.N(len(vs))].Name, "="}, toks)...)
		}
		return one(cat([]string{fresh(), ":="}, toks)...)
	}
	if s.Chance(1, 2) { // an erroneous expression
		x := m.expr()
		m.cls = x.cls
		x = m.wrap(x, s.W(4, 3, 2, 1))
		t := x.t
		if t == nil {
			t = simple(s)
		}
		switch s.W(4, 3, 2, 2, 2, 2) {
		case 0:
			return one(mark(cat([]string{fresh(), ":="}, x.toks))...)
		case 1:
			return one(mark(cat([]string{"hId", "("}, x.toks, []string{")"}))...)
		case 2:
			switch t.K {
			case KBool:
				return one(mark(cat([]string{s.Pick("if", "while")}, []string{"("}, x.toks, []string{")"}, split("{ }")))...)
			case KInt:
				return one(mark(cat([]string{"for", fresh(), "in", "0", ".."}, x.toks, split("{ }")))...)
			case KStr:
				return one(mark(cat(split("println ("), x.toks, []string{")"}))...)
			case KArr:
				return one(mark(cat([]string{"for", fresh(), "in"}, []string{"("}, x.toks, []string{")"}, split("{ }")))...)
			}
			return one(mark(cat([]string{fresh(), ":="}, x.toks))...)
		case 3:
			if vs := m.varsOf(t); len(vs) > 0 {
				return one(mark(cat([]string{vs[s.N(len(vs))].Name, "="}, x.toks))...)
			}
			return one(mark(cat([]string{fresh(), ":="}, x.toks))...)
		case 4:
			if m.fn != nil && m.fn.ret != nil && same(m.fn.ret, t) {
				return one(mark(cat([]string{"return"}, x.toks))...)
			}
			return one(mark(cat(split("if true { } elseif hId ("), x.toks, split(") == hI ( 1 ) { }")))...)
		}
		z := fresh()
		return [][]string{split(z + " := [ 1 , 2 ]"), mark(cat([]string{z, "[", "hPair", "(", "0", ","}, x.toks, split(") ] = 1")))}
	}
	z := fresh()
	t := simple(s)
	o := other(s, t)
	switch s.N(23) {
	case 0:
		m.cls = "redeclared variable"
		return [][]string{cat([]string{z, ":="}, m.good(t)), mark(cat([]string{z, ":="}, m.good(simple(s))))}
	case 1: // a variable of this very scope
		if m.sc != nil && m.k > 0 {
			m.cls = "redeclared variable of the scope"
			return one(mark(cat([]string{m.sc.vars[s.N(m.k)].Name, ":="}, m.good(t)))...)
		}
		m.cls = "redeclared variable"
		return [][]string{cat([]string{z, ":="}, m.good(t)), mark(cat([]string{z, ":="}, m.good(simple(s))))}
	case 2:
		m.cls = "assignment type"
		return [][]string{cat([]string{z, ":="}, m.good(t)), mark(cat([]string{z, "="}, m.good(o)))}
	case 3:
		m.cls = "assignment type of a visible variable"
		if len(vars) > 0 {
			v := vars[s.N(len(vars))]
			w := tInt
			if v.T.K == KInt {
				w = other(s, tInt)
			} else if v.T.K == KBool || v.T.K == KStr {
				w = other(s, v.T)
			}
			return one(mark(cat([]string{v.Name, "="}, m.good(w)))...)
		}
		return [][]string{cat([]string{z, ":="}, m.good(t)), mark(cat([]string{z, "="}, m.good(o)))}
	case 4:
		m.cls = "assignment to an undeclared variable"
		return one(mark(cat([]string{z, "="}, m.good(t)))...)
	case 5:
		m.cls = "assignment target"
		return one(mark(split(s.Pick("hI ( 1 ) = 1", "hI = hI", `"abc" . length = 1`, "1 = 2", "hS = hS", "arrayOf3 . length = 1", "true = false")))...)
	case 6:
		m.cls = "field assignment"
		return [][]string{{z, ":=", "hMk", "(", ")"}, mark(split(s.Pick(z+" . hx = true", z+` . hs = 1`, z+" . nofield = 1", z+" . hf = 1", z+` . hx = "a"`)))}
	case 7:
		m.cls = "element assignment"
		return [][]string{split(z + " := [ 1 , 2 ]"), mark(split(s.Pick(z+" [ 0 ] = true", z+` [ "a" ] = 1`, z+` [ 1 ] = "a"`, z+" [ 0 ] = [ 1 ]")))}
	case 8:
		m.cls = "return type"
		if m.fn == nil || m.fn.ret == nil {
			return nil
		}
		switch m.fn.ret.K {
		case KInt, KBool, KStr:
			return one(mark(cat([]string{"return"}, m.good(other(s, m.fn.ret))))...)
		}
		return one(mark(cat([]string{"return"}, m.good(t)))...)
	case 9:
		m.cls = "condition type"
		return one(mark(cat([]string{s.Pick("if", "while")}, m.good(other(s, tBool)), split("{ }")))...)
	case 10:
		m.cls = "elseif condition type"
		return [][]string{cat(split("if true { } \n §elseif"), m.good(other(s, tBool)), split("{ }"))}
	case 11:
		m.cls = "for over something else"
		return one(mark(cat([]string{"for", z, "in"}, split(s.Pick("5", "true", "hMk ( )", "hSh ( )", `"abc"`, "hI")), split("{ }")))...)
	case 12:
		m.cls = "range bound type"
		if s.Chance(1, 2) {
			return one(mark(cat([]string{"for", z, "in"}, m.good(other(s, tInt)), []string{"..", "3"}, split("{ }")))...)
		}
		return one(mark(cat([]string{"for", z, "in", "0", ".."}, m.good(other(s, tInt)), split("{ }")))...)
	case 13:
		m.cls = "match of a non-enum"
		return one(mark(split("match " + s.Pick("5", "hMk ( )", `"a"`, "true", "arrayOf3") + " { \n case HDot ( ) : \n }"))...)
	case 14:
		m.cls = "match not exhaustive"
		return one(mark(split("match hSh ( ) { \n " + s.Pick("case HDot ( ) :", "case HLine ( q ) : \n case HDot ( ) :", "case HBlock ( q , r ) : \n case HDot ( ) :", "") + " \n }"))...)
	case 15:
		m.cls = "repeated case"
		return one(split("match hSh ( ) { \n case HDot ( ) : \n case HLine ( q ) : \n case HBlock ( q , r ) : \n case §HDot ( ) : \n }")...)
	case 16:
		m.cls = "case of another enum"
		return one(split("match hSh ( ) { \n case HDot ( ) : \n case HLine ( q ) : \n case §" + s.Pick("Some ( q )", "None ( )", "Nil ( )", "hI ( q )", "Nowhere ( )", "HPoint ( a , b , c )", "hPoint ( a )", "hShape ( )", "int ( a )", "option ( a )", "arrayOf3 ( )", "hTwo ( a )", "hMk ( )") + " : \n }")...)
	case 17:
		m.cls = "case variables"
		return one(split("match hSh ( ) { \n case HDot ( ) : \n case §" + s.Pick("HLine ( )", "HLine ( q , r )") + " : \n case HBlock ( q , r ) : \n }")...)
	case 18:
		m.cls = "repeated case variable"
		return one(split("match hSh ( ) { \n case HDot ( ) : \n case HLine ( q ) : \n case §HBlock ( q , q ) : \n }")...)
	case 19:
		m.cls = "declaration target"
		return [][]string{split(z + " := [ 1 , 2 ]"), mark(split(z + " [ 0 ] := 1"))}
	}
	if s.Chance(1, 2) {
		m.cls = "ambiguous function name"
		return [][]string{split(z + "p := hMk ( )"), split(s.Pick(z+" := §hOv", z+" := ( §hOv )", z+" := [ §hOv ]", z+" := [ hI , §hOv ]", z+"p . hf = §hOv", z+" := fn ( ) fn ( int ) int = §hOv", z+" := true ? §hOv : hI", z+" := true ? hI : §hOv", z+" := §hOv == 1", "if §hOw { }", "for "+z+" in §hOv { }", z+" := arrayOf3 [ §hOw ]"))}
	}
	if s.Chance(1, 2) {
		var pre [][]string
		if s.Chance(1, 3) {
			m.cls = "arguments of a function value"
			a := "( 1 , 2 , 3 , 4 , 5 , 6 )"
			xs := [][][]string{{split(z + " := hSix"), split("§" + z + " " + a)}, {split(z + " := [ hSix ]"), split(z + " [ 0 ] §" + a)}, {split("hId ( hSix ) §" + a)}, {split(z + " := fn ( p : fn ( int , int , int , int , int , int ) int ) int = \n §p " + a)}}
			return xs[s.N(len(xs))]
		}
		m.cls = "limit of captured variables"
		n := s.Range(7, 9)
		var names []string
		for i := 0; i < n; i++ {
			names = append(names, z+string(rune('a'+i)))
			pre = append(pre, split(names[i]+" := "+strconv.Itoa(i)))
		}
		sum := strings.Join(names, " + ")
		var uses string
		for _, x := range names {
			uses += "hI ( " + x + " ) \n "
		}
		return append(pre, split(s.Pick(z+" := §fn ( ) int = "+sum, z+" := hId ( §fn ( i : int ) int = i + "+sum+" )", z+" := §fn ( ) { \n "+uses+" }", z+" := §fn ( ) { \n if true { \n "+uses+" } \n }", z+" := §fn ( ) { \n for i in 0 .. 2 { \n "+uses+" } \n }")))
	}
	m.cls = "missing return in a lambda"
	return one(split(z + " := §fn ( a : int ) int { \n " + m.falls(s.Range(0, 3)) + " \n }")...)
}

// Statements of which every path ends in a return
func (m *mk) ends(d int) string {
	s := m.s
	pre := s.Pick("", "", "hI ( a ) \n ", "if a == 3 { \n return 1 \n } \n ", "while false { } \n ")
	cond := func() string { return s.Pick("a == 1", "a > 2", "hB ( true )") }
	if d <= 0 || s.Chance(1, 4) {
		return pre + "return 1"
	}
	if s.Chance(1, 2) {
		return pre + "match hSh ( ) { \n case HDot ( ) : \n " + m.ends(d-1) + " \n case HLine ( " + m.g.fresh("q") + " ) : \n " + m.ends(d-1) + " \n case HBlock ( " + m.g.fresh("q") + " , " + m.g.fresh("q") + " ) : \n " + m.ends(d-1) + " \n }"
	}
	r := pre + "if " + cond() + " { \n " + m.ends(d-1) + " \n }"
	for i := s.N(3); i > 0; i-- {
		r += " elseif " + cond() + " { \n " + m.ends(d-1) + " \n }"
	}
	return r + " else { \n " + m.ends(d-1) + " \n }"
}

// Statements of which at least one path comes to its end
func (m *mk) falls(d int) string {
	s := m.s
	cond := func() string { return s.Pick("a == 1", "true", "hB ( true )") }
	if d <= 0 {
		return s.Pick("", "print ( \"\" )", "hI ( a )", m.g.fresh("q")+" := 1", "return 1 \n print ( \"\" )")
	}
	branch := func(bad bool) string {
		if bad {
			return m.falls(d - 1)
		}
		return m.ends(d - 1)
	}
	switch s.N(5) {
	case 0:
		return s.Pick("while "+cond(), "for "+m.g.fresh("q")+" in 0 .. 2", "for "+m.g.fresh("q")+" in [ 1 ]") + " { \n " + m.ends(d-1) + " \n }"
	case 1: // no else
		r := "if " + cond() + " { \n " + m.ends(d-1) + " \n }"
		for i := s.N(3); i > 0; i-- {
			r += " elseif " + cond() + " { \n " + m.ends(d-1) + " \n }"
		}
		return r
	case 2:
		n := s.N(3)
		k := s.N(n + 2)
		r := "if " + cond() + " { \n " + branch(k == 0) + " \n }"
		for i := 0; i < n; i++ {
			r += " elseif " + cond() + " { \n " + branch(k == i+1) + " \n }"
		}
		return r + " else { \n " + branch(k == n+1) + " \n }"
	case 3:
		k := s.N(3)
		return "match hSh ( ) { \n case HDot ( ) : \n " + branch(k == 0) + " \n case HLine ( " + m.g.fresh("q") + " ) : \n " + branch(k == 1) + " \n case HBlock ( " + m.g.fresh("q") + " , " + m.g.fresh("q") + " ) : \n " + branch(k == 2) + " \n }"
	}
	return m.ends(d-1) + " \n " + s.Pick("print ( \"\" )", "hI ( a )", "while true { }")
}

// An erroneous expression over several lines, whose offending token is marked
func (m *mk) lines() ([]string, *Ty) {
	s := m.s
	nl := func() []string {
		if s.Chance(1, 2) {
			return []string{"\n"}
		}
		return nil
	}
	undef := s.Pick("nowhere", "undefinedName", "x9999", "hJ")
	bad := func(t *Ty) []string { // a wrong value instead of one of type t
		o := other(s, t)
		switch o.K {
		case KInt:
			return split(s.Pick("§7", "§12", "1 §+ 2", "3 §* 4"))
		case KStr:
			return split(s.Pick(`§"s"`, `§""`))
		}
		return split(s.Pick("§true", "§false"))
	}
	list := func(open []string, k int, x []string, ts ...*Ty) []string { // a list of values of the types ts, x in place k
		r := cat(open, nl())
		for i, t := range ts {
			if i > 0 {
				r = cat(r, []string{","}, nl())
			}
			if i == k {
				r = cat(r, x, nl())
			} else {
				r = cat(r, m.good(t), nl())
			}
		}
		return append(r, ")")
	}
	var x []string
	var t *Ty
	isb := []*Ty{tInt, tStr, tBool}
	switch s.N(10) {
	case 0:
		m.cls, t = "lines: undeclared variable", simple(s)
		x = []string{"§" + undef}
	case 1:
		m.cls, t = "lines: undeclared function", simple(s)
		x = list([]string{"§" + undef, "("}, -1, nil, isb[:s.Range(1, 3)]...)
	case 2:
		m.cls, t = "lines: argument type", tInt
		k := s.N(3)
		x = list(split("hISB ("), k, bad(isb[k]), isb...)
	case 3:
		m.cls, t = "lines: constructor argument", tInt
		if s.Chance(1, 2) {
			x = cat(list(split("HPoint ("), 1, bad(tStr), tInt, tStr, tFn(tInt, tInt)), []string{".", "hx"})
		} else {
			k := s.N(2)
			x = cat(split("hPair ( 1 ,"), nl(), list(split("HBlock ("), k, bad(isb[k]), tInt, tStr), []string{")"})
		}
	case 4:
		m.cls, t = "lines: mixed array literal", tInt
		e := simple(s)
		x = []string{"["}
		n := s.Range(2, 5)
		k := s.Range(1, n-1)
		for i := 0; i < n; i++ {
			if i > 0 {
				x = append(x, ",")
			}
			x = cat(x, nl())
			if i == k {
				x = cat(x, bad(e))
			} else {
				x = cat(x, m.good(e))
			}
		}
		x = cat(x, nl(), split("] . length"))
	case 5:
		m.cls, t = "lines: undeclared field", simple(s)
		x = cat(split("hMk ( )"), nl(), []string{"."}, nl(), []string{"§" + s.Pick("hz", "nofield")})
	case 6:
		m.cls, t = "lines: operand", tInt
		b := split(s.Pick("§true", `§"s"`))
		x = cat(m.good(tInt), nl(), []string{s.Pick("+", "-", "*", "/", "&", "|")}, nl(), b)
	case 7:
		m.cls, t = "lines: function value argument", tInt
		x = cat(split("hMk ( ) . hf ("), nl(), split(s.Pick("§true", `§"s"`)), nl(), []string{")"})
	case 8:
		m.cls, t = "lines: result in a block", tInt
		x = cat(split("fn ( p : int ) int { \n"), split(s.Pick("", "q := p \n", "println ( \"\" ) \n")), split("return "), bad(tInt), split("\n } ( 1 )"))
	case 9:
		m.cls, t = "lines: argument after the dot", tInt
		x = cat([]string{"1"}, nl(), []string{"."}, nl(), list(split("hISB ("), 1, bad(tBool), tStr, tBool))
	}
	for d := s.N(4); d > 0; d-- {
		e := cat([]string{"("}, nl(), x, nl(), []string{")"})
		switch s.N(9) {
		case 0:
			x = cat(split("hId ("), nl(), e, nl(), []string{")"})
		case 1:
			x = cat(split("hPair ( 1 ,"), nl(), e, nl(), []string{")"})
			t = tInt
		case 2:
			k := map[Kind]int{KInt: 0, KStr: 1, KBool: 2}[t.K]
			x, t = list(split("hISB ("), k, e, isb...), tInt
		case 3:
			x = cat(split("true"), nl(), []string{"?"}, nl(), e, nl(), []string{":"}, nl(), m.good(t))
		case 4:
			x = cat(m.good(tBool), nl(), []string{"?"}, nl(), m.good(t), nl(), []string{":"}, nl(), e)
		case 5:
			x = cat(split("HBox ("), nl(), e, nl(), split(") . item"))
		case 6:
			x = cat(split("fn ( ) "), tyToks(t), split("{ \n"), nl(), split("return"), e, split("\n } ( )"))
		case 7:
			if t.K == KInt {
				x = cat(m.good(tInt), nl(), []string{"+"}, nl(), e)
			} else if t.K == KBool {
				x = cat(split("not"), nl(), e)
			} else {
				x = cat(split(`"a" . append (`), nl(), e, nl(), []string{")"})
			}
		case 8:
			x = cat([]string{"["}, nl(), m.good(t), []string{","}, nl(), e, nl(), split("] [ 0 ]"))
		}
	}
	return x, t
}

// A type which is wrong somewhere inside, its offending token marked
func (m *mk) badType(depth int) string {
	s := m.s
	if depth > 0 && s.Chance(1, 2) {
		x := m.badType(depth - 1)
		switch s.N(9) {
		case 0:
			return "[ ] " + x
		case 1:
			return "fn ( " + x + " ) int"
		case 2:
			return "fn ( int , " + x + " ) bool"
		case 3:
			return "fn ( string ) " + x
		case 4:
			return "fn ( ) " + x
		case 5:
			return "option « " + x + " »"
		case 6:
			return "hBox « " + x + " »"
		case 7:
			return "result « int , " + x + " »"
		}
		return "map « " + s.Pick("int , "+x, x+" , string") + " »"
	}
	switch s.N(4) {
	case 0:
		return s.Pick("§nosuch", "§Int", "§hBad2", "§Q", "§hI", "§hMk")
	case 1:
		return s.Pick("§nosuch « int »", "§hI « int »")
	case 2:
		return s.Pick("§int", "§string", "§bool", "§bytes", "§pointer", "§hPoint", "§hShape", "§nothing", "§error", "§file") + " « " + s.Pick("int", "string", "int , int", "option « int »", "[ ] bool") + " »"
	}
	return s.Pick("§option « int , int »", "§hBox « int , string »", "§map « int »", "§map « int , int , int »", "§result « int »", "§list « [ ] int , bool »", "§hBox « option « int » , int , int »")
}

func (m *mk) typeMistakeDecl() string {
	s := m.s
	x := m.badType(3)
	return s.Pick("fn hBad ( a : "+x+" ) int = 1", "fn hBad ( a : int , b : "+x+" ) int = 1", "fn hBad ( a : int , b : "+x+" , c : string ) { \n }",
		"fn hBad ( a : int ) "+x+" = hI ( a )", "fn hBad « T » ( a : T , b : "+x+" ) T = a", "fn hBad « T , U » ( a : T , b : U ) "+x+" { \n return a \n }",
		"struct hBad { \n a : "+x+" \n }", "struct hBad { \n a : int \n b : "+x+" \n c : string \n }", "struct hBad « T » { \n a : T \n b : "+x+" \n }",
		"enum hBad { \n HB1 ( a : "+x+" ) \n }", "enum hBad { \n HB1 ( ) \n HB2 ( a : int , b : "+x+" ) \n HB3 ( s : string ) \n }", "enum hBad « T » { \n HB1 ( a : T ) \n HB2 ( b : "+x+" ) \n }",
		"fn hBad ( ) int { \n q := fn ( a : "+x+" ) int = 1 \n return 1 \n }", "fn hBad ( ) int { \n q := None « "+x+" » ( ) \n return 1 \n }")
}

func (m *mk) typeMistakeExpr() []string {
	s := m.s
	x := strings.ReplaceAll(m.badType(2), "§", "")
	return split(s.Pick("None « "+x+" » ( )", "fn ( p : "+x+" ) int = 1", "fn ( p : int , q : "+x+" ) int = 1", "fn ( p : int ) "+x+" = p", "fn ( p : "+x+" ) { \n }", "hPair « int , "+x+" » ( 1 , 2 )", "hId « "+x+" » ( 1 )", "Empty « "+x+" » ( )", "HBox « "+x+" » ( 1 )"))
}

// A top-level declaration with a mistake
func (m *mk) decl() [][]string {
	s := m.s
	one := func(x string) [][]string { return [][]string{split(x)} }
	switch s.N(18) {
	case 0:
		m.cls = "redeclared function"
		if s.Chance(1, 2) { // the names of type parameters do not matter
			p := s.Pick("%s", "[ ] %s", "option « %s »", "fn ( %s ) int", "hBox « %s »", "int , b : %s", "%s , b : string", "map « string , %s »")
			sig := func(n, t string) string { return "fn " + n + " « " + t + " » ( a : " + fmt.Sprintf(p, t) + " ) " }
			return [][]string{split(sig("hTwice", "T") + "int = 1"), split(sig("§hTwice", s.Pick("T", "U", "Item")) + s.Pick("int = 2", `string = ""`, "{ \n }"))}
		}
		return [][]string{split("fn hTwice ( a : int ) int = a"), split("fn §hTwice ( b : int ) int = b")}
	case 1:
		m.cls = "redeclared type"
		k := s.N(3)
		return [][]string{split([]string{"struct hDup { a : int }", "enum hDup { HD1 ( ) }", "struct hDup { a : int }"}[k]), split([]string{"struct §hDup { b : int }", "enum §hDup { HD2 ( ) }", "enum §hDup { HD3 ( ) }"}[k])}
	case 2:
		m.cls = "redeclared field"
		return one("struct hDup { \n a : int \n b : int \n §a : " + s.Pick("int", "string") + " \n }")
	case 3:
		m.cls = "redeclared case"
		return one("enum hDup { \n HD1 ( ) \n HD2 ( ) \n §HD1 ( " + s.Pick("", "a : int") + " ) \n }")
	case 4:
		m.cls = "redeclared parameter"
		return one("fn hDup ( a : int , §a : " + s.Pick("int", "string") + " ) int = 1")
	case 5:
		m.cls = "undeclared type in a signature"
		return one(s.Pick("fn hBad ( a : §nosuch ) int = 1", "fn hBad ( a : int ) §nosuch = 1", "fn hBad ( a : [ ] §nosuch ) int = 1", "fn hBad ( a : fn ( §nosuch ) int ) int = 1", "fn hBad ( a : option « §nosuch » ) int = 1", "fn hBad ( a : int ) [ ] §nosuch { \n return 1 }", "fn hBad « T » ( a : T , b : §U ) int = 1"))
	case 6:
		m.cls = "undeclared type of a field"
		return one(s.Pick("struct hBad { \n a : int \n b : §nosuch \n }", "struct hBad { \n a : [ ] §nosuch \n }", "enum hBad { \n HB1 ( ) \n HB2 ( x : §nosuch ) \n }", "struct hBad { \n a : option « §nosuch » \n }", "enum hBad { \n HB1 ( a : fn ( int ) §nosuch ) \n }"))
	case 7:
		m.cls = "missing return"
		body := m.falls(s.Range(0, 3))
		return one("fn §hBad ( a : int ) int { \n " + body + " \n }")
	case 17:
		m.cls = "missing return"
		t := s.Pick("int", "int", "string", "fn ( ) int", "hPoint", "[ ] int", "option « bool »")
		return one("fn §hBad ( a : int ) " + t + " { \n " + strings.ReplaceAll(m.falls(s.Range(0, 3)), "return 1", "return "+map[string]string{"int": "a", "string": `"r"`, "fn ( ) int": "fn ( ) int = 1", "hPoint": "hMk ( )", "[ ] int": "[ a ]", "option « bool »": "Some ( true )"}[t]) + " \n }")
	case 8:
		m.cls = "too many parameters"
		return one("fn §hBad ( a : int , b : int , c : int , d : int , e : int , f : int , g : int ) int = 1")
	case 9:
		m.cls = "too many fields"
		return one(s.Pick("struct §hBad { a : int b : int c : int d : int e : int f : int g : int }", "enum hBad { \n §HB1 ( a : int , b : int , c : int , d : int , e : int , f : int ) \n }"))
	case 10:
		m.cls = "struct name"
		return one("struct §HBad { \n a : int \n }")
	case 11:
		m.cls = "type in a declaration"
		if s.Chance(2, 3) {
			return one(m.typeMistakeDecl())
		}
		m.cls = "type arguments of a declared type"
		return one(s.Pick("fn hBad ( a : §option « int , int » ) int = 1", "fn hBad ( a : §hPoint « int » ) int = 1", "fn hBad ( a : §hBox « int , int » ) int = 1", "fn hBad ( a : §int « int » ) int = 1", "struct hBad { \n a : §option « int , int » \n }", "enum hBad { \n HB1 ( a : §hBox « int , int » ) \n }"))
	case 12:
		m.cls = "result of an expression function"
		t := simple(s)
		return [][]string{cat(split("fn hBad ( )"), []string{t.Name, "=", "\n"}, markFirst(m.good(other(s, t))))}
	case 13:
		m.cls = "return type"
		t := simple(s)
		return [][]string{cat(split("fn hBad ( a : int )"), []string{t.Name, "{", "\n", "§return"}, m.good(other(s, t)), split("\n }"))}
	case 14:
		m.cls = "redeclared constructor"
		switch s.N(5) {
		case 4:
			return [][]string{split("enum HBad { HB1 ( ) }"), split("struct §hBad { a : int }")}
		case 0:
			return one("fn §HPoint ( a : int , b : string , c : fn ( int ) int ) hPoint = hMk ( )")
		case 1:
			return [][]string{split("enum hDup { HD1 ( a : int ) }"), split("fn §HD1 ( a : " + s.Pick("int", "string") + " ) hDup = HD1 ( 1 )")}
		case 2:
			return [][]string{split("fn HD1 ( a : int ) int = a"), split("enum hDup { \n §HD1 ( a : int ) }")}
		}
		return [][]string{split("enum hDup { HD1 ( a : int ) }"), split("enum hDup2 { \n §HD1 ( a : " + s.Pick("int", "string") + " ) }")}
	}
	if s.Chance(1, 2) {
		m.cls = "redeclared type parameter"
		return one(s.Pick("fn hDup « T , §T » ( a : T ) T = a", "fn hDup « T , U , §T » ( a : U ) int = 1", "struct hDup « T , §T » { \n a : T \n }", "enum hDup « T , §T » { \n HD1 ( a : T ) \n }", "struct hDup « T , U , §U » { \n a : T \n }", "struct hDup « T » { \n §T : int \n }", "fn hDup « T » ( \n §T : int ) int = 1"))
	}
	m.cls = "missing return value"
	return one("fn hBad ( a : int ) int { \n §return \n }")
}

func unmark(ts []string) []string {
	r := append([]string(nil), ts...)
	for i := range r {
		r[i] = strings.TrimPrefix(r[i], "§")
	}
	return r
}

func markFirst(ts []string) []string {
	r := append([]string(nil), ts...)
	r[0] = "§" + r[0]
	return r
}

// Lexical and syntax mistakes: a token which cannot stand where it is
func (m *mk) syntax() [][]string {
	s := m.s
	z := m.g.fresh("z")
	if s.Chance(1, 2) {
		m.cls = "lexical: " + "bad token"
		bad := s.Pick("§$", "§@", "§!", "§%", "§;", "§`", `§"abc`, `§"a\q"`, "§0x", "§'", "§\t", `§"abc\"`, "§\\")
		return [][]string{cat([]string{z, ":=", "1", "+"}, []string{bad})}
	}
	m.cls = "syntax: unexpected token"
	return [][]string{split(z + "q := 1"), split(s.Pick("§)", "§]", "§»", "§, 1", "§else { }", "§elseif true { }", "§. 5", z+" := 1 + §)", z+" := ( 1 §]", z+" := 1 * §/ 2", z+" := §==", z+" := hI ( 1 §; )",
		"for §1 in 0 .. 2 { }", "for q §: 0 .. 2 { }", "if §{ }", z+" := fn ( §1 : int ) int = 1", "match hSh ( ) { \n §hI ( 1 ) \n }", "while §) { }", z+" := [ 1 , §) ]", "hI ( 1 , §, 2 )"))}
}

func genMistake(s *Src, c17 bool) (*Gen, *Program, string, bool) {
	p := baseProf()
	p.Types, p.Fns, p.MainStmts, p.OptW, p.Closures, p.Flow = [2]int{0, 2}, [2]int{1, 4}, [2]int{2, 7}, 1, 2, 2
	p.StdW = map[string]int{"opt": 1, "res": 1, "conv": 1, "str": 1}
	p.Depth = 3
	g := newGen(s, p)
	pr := g.safeProgram()
	if pr == nil {
		return nil, nil, "", false
	}
	helpers := mistakeHelpers
	pair := s.Chance(2, 5)
	if pair {
		helpers = append(helpers[:len(helpers):len(helpers)], pairHelpers...)
	}
	for _, h := range helpers {
		pr.Raws = append(pr.Raws, split(h))
	}
	m := &mk{s: s, g: g}
	if c17 && (pair && s.Chance(1, 6) || s.Chance(1, 12)) {
		pr.Order = nil
		if pair {
			for _, d := range m.pair(true) {
				pr.Raws = append(pr.Raws, unmark(d))
			}
			return g, pr, "no mistake: " + m.cls, true
		}
		if s.Chance(1, 2) {
			pr.Raws = append(pr.Raws, split("fn hGood ( a : int ) int { \n "+m.ends(s.Range(0, 3))+" \n }"))
			return g, pr, "no mistake: all paths return", true
		}
		return g, pr, "no mistake", true
	}
	asDecl := s.Chance(1, 5)
	synt := c17 && s.Chance(1, 4)
	if pair {
		for _, d := range m.pair(false) {
			pr.Raws = append(pr.Raws, d)
		}
	} else if asDecl && !synt {
		for _, d := range m.decl() {
			pr.Raws = append(pr.Raws, d)
		}
	} else {
		type at struct {
			b  *[]*Stmt
			fn *FnDecl
		}
		sl := collect(pr)
		var b *[]*Stmt
		for try := 0; ; try++ {
			b = sl.ss[s.N(len(sl.ss))]
			if len(*b) > 0 || try > 20 {
				break
			}
		}
		k := s.N(len(*b) + 1)
		if k == len(*b) && k > 0 {
			switch (*b)[k-1].Op {
			case SReturn, SIf, SMatch, SWhile, SForRange, SForArr:
				k--
			}
		}
		// what is visible there
		if k < len(*b) && (*b)[k].Scope != nil && (*b)[k].After >= 0 {
			st := (*b)[k]
			if st.Op == SDecl && st.After > 0 && containsVar(st.Scope.vars[:min(st.After, len(st.Scope.vars))], st.Var) {
				st.After--
			}
			if st.After <= len(st.Scope.vars) {
				m.sc, m.k = st.Scope, st.After
				m.fn = st.Scope.fn
				for _, later := range (*b)[k:] { // not declared yet at this place
					if later.Op == SDecl {
						for i, v := range m.sc.vars[:m.k] {
							if v == later.Var {
								m.k = i
								break
							}
						}
					}
				}
			}
		}
		var lines [][]string
		if synt {
			lines = m.syntax()
		} else {
			lines = m.stmt()
		}
		if lines == nil {
			return nil, nil, "", false
		}
		var ins []*Stmt
		needs := false
		for _, l := range lines {
			for _, t := range l {
				needs = needs || t == "arrayOf3"
			}
			ins = append(ins, &Stmt{Op: SRaw, Toks: l})
		}
		if needs {
			ins = append([]*Stmt{{Op: SRaw, Toks: split("arrayOf3 := [ 1 , 2 , 3 ]")}}, ins...)
		}
		*b = append((*b)[:k:k], append(ins, (*b)[k:]...)...)
	}
	// order of declarations
	n := len(pr.Types) + len(pr.Fns) + len(pr.Raws)
	first := len(pr.Types) + len(pr.Fns) + len(helpers)
	o := make([]int, 0, n)
	for i := 0; i < first; i++ {
		o = append(o, i)
	}
	if s.Chance(2, 3) {
		for i := len(o) - 1; i > 0; i-- {
			j := i - s.N(i+1)
			o[i], o[j] = o[j], o[i]
		}
	}
	pos := s.N(len(o) + 1)
	var extra []int
	for i := first; i < n; i++ {
		extra = append(extra, i)
	}
	o = append(o[:pos:pos], append(extra, o[pos:]...)...)
	pr.Order = o
	return g, pr, m.cls, false
}

func containsVar(vs []*Var, v *Var) bool {
	for _, x := range vs {
		if x == v {
			return true
		}
	}
	return false
}

func genC16(s *Src) *Case {
	_, pr, cls, _ := genMistake(s, false)
	if pr == nil {
		return nil
	}
	text := programText(pr)
	c := &Case{Text: text + "// mistake: " + cls + "\n", Size: len(text), Nontrivial: true, Evals: 1, Classes: []string{cls}}
	c.Run = func(w *Worker) Outcome {
		x, bin := w.Compile(text)
		if x.Wall {
			return Outcome{Skip: "compiler wall clock limit"}
		}
		if o := mustReject(x, bin, cls); o.Fail != "" {
			return o
		}
		return Outcome{}
	}
	return c
}

func mustReject(x Exec, bin, cls string) Outcome {
	_, serr := os.Stat(bin)
	switch {
	case x.CPU:
		return Outcome{Fail: cls + ": the compiler did not terminate (CPU limit)"}
	case x.Code == 0:
		return Outcome{Fail: cls + ": the program was accepted"}
	case x.Code != 1 || x.Signal != "":
		return Outcome{Fail: cls + ": the compiler crashed: " + clip(x.Out+x.Err, 1500)}
	case serr == nil:
		return Outcome{Fail: cls + ": an executable was written"}
	case !strings.Contains(x.Out, "Errors\n - "):
		return Outcome{Fail: cls + ": no error report: " + clip(x.Out, 500)}
	case strings.Contains(x.Out, "Link failure") || strings.Contains(x.Out, "Code Gen Errors"):
		return Outcome{Fail: cls + ": only the assembler or linker rejected the program: " + clip(x.Out, 1000)}
	}
	return Outcome{}
}

var ansi = regexp.MustCompile("\x1b\\[[0-9;]*m")

// Noise between the lines of a program; the marked token's line is returned
func noisy(toks []Tok, s *Src) (string, int) {
	var b strings.Builder
	line, mark := 1, 0
	nl := s.Pick("\n", "\n", "\n", "\r\n")
	emit := func(t string) {
		b.WriteString(t)
		line += strings.Count(t, "\n")
	}
	noise := func() {
		for s.Chance(1, 3) {
			switch s.N(6) {
			case 0:
				emit(nl)
			case 1:
				emit("// comment" + nl)
			case 2:
				emit("   // é日本 «» \"quoted" + nl)
			case 3:
				emit("//" + strings.Repeat("long ", s.Range(1, 200)) + nl)
			case 4:
				emit("        " + nl + nl)
			case 5:
				emit("//// fn f( {" + nl)
			}
		}
	}
	big := -1 // in some texts very many or very long lines before one line
	if s.Chance(1, 60) {
		big = s.N(len(toks))
	}
	noise()
	for i, t := range toks {
		if big >= 0 && i >= big && (t.NL || i == 0) {
			big = -1
			switch n := bigSize(s); s.N(4) {
			case 0:
				emit(nl + strings.Repeat(nl, n))
			case 1:
				emit(nl + strings.Repeat("// x"+nl, n))
			case 2:
				emit(" //" + strings.Repeat("é", n) + nl)
			case 3:
				emit(nl + strings.Repeat(" ", n))
			}
		}
		if t.NL && i > 0 {
			if s.Chance(1, 8) {
				emit(" // " + s.Pick("x", "é", "}", "\"", "//"))
			}
			emit(nl)
			noise()
			emit(strings.Repeat(" ", s.N(9)))
		} else if i > 0 && needSpace(toks[i-1].S, t.S) {
			emit(" ")
			if s.Chance(1, 10) {
				emit(strings.Repeat(" ", s.N(60)))
			}
		}
		if t.Mark && mark == 0 {
			mark = line
		}
		b.WriteString(t.S)
	}
	emit(nl)
	return b.String(), mark
}

func genC17(s *Src) *Case {
	_, pr, cls, valid := genMistake(s, true)
	if pr == nil {
		return nil
	}
	p := &Printer{}
	p.program(pr, nil)
	text, line := noisy(p.toks, s)
	name := s.Pick("prog", "prog", "other", "a_b", "x-1", "two.dots", "with space", "é")
	c := &Case{Text: fmt.Sprintf("%s// mistake: %s, on line %d\n", text, cls, line), Size: len(text), Nontrivial: line > 1, Evals: 1, Classes: []string{cls}}
	c.Run = func(w *Worker) Outcome {
		x, bin := w.CompileNamed(name, text)
		if x.Wall {
			return Outcome{Skip: "compiler wall clock limit"}
		}
		if valid {
			if p := compileProblem(x); p != "" {
				return Outcome{Fail: p}
			}
			return Outcome{}
		}
		if o := mustReject(x, bin, cls); o.Fail != "" {
			return o
		}
		out := ansi.ReplaceAllString(x.Out, "")
		rest := out[strings.Index(out, "Errors\n - ")+len("Errors\n - "):]
		first := rest
		if i := strings.Index(rest, "\n - "); i >= 0 {
			first = rest[:i]
		}
		re := regexp.MustCompile(regexp.QuoteMeta(name+".clara") + `:(\d+)`)
		mm := re.FindStringSubmatch(first)
		if mm == nil {
			return Outcome{Fail: cls + ": the first error does not name the file and a line: " + clip(first, 500)}
		}
		if n, _ := strconv.Atoi(mm[1]); n != line {
			return Outcome{Fail: fmt.Sprintf("%s: the mistake is on line %d, reported: %s", cls, line, clip(first, 500))}
		}
		return Outcome{}
	}
	return c
}

func init() {
	reg(&Prop{ID: "C16", Rule: "valid generated programs with one mistake (about 70 kinds of expression, statement and declaration mistakes, expression mistakes nested up to three levels deep) at a random place in any function, block, case or lambda; all are non-trivial",
		Quick: 10000, Thorough: 200000, Budget: [2]time.Duration{45 * time.Second, 13 * time.Minute}, Gen: genC16})
	reg(&Prop{ID: "C17", Rule: "as C16, plus lexical and syntax mistakes, laid out with comments, blank lines, long lines, multi-byte characters, LF or CRLF; one case in twelve has no mistake; non-trivial: the mistake is not on the first line",
		Quick: 5000, Thorough: 100000, Budget: [2]time.Duration{45 * time.Second, 13 * time.Minute}, Gen: genC17})
}
