package main

// Mistakes of type identity: a value of type A where B is wanted, B being A
// with one thing changed somewhere inside.

import (
	"fmt"
	"strings"
)

var pairHelpers = []string{
	`struct hPointB { hx : int hs : string hf : fn ( int ) int }`,
	`struct hBoxB « T » { item : T }`,
	`enum hShapeB { HDotB ( ) HLineB ( a : int ) HBlockB ( a : int , b : string ) }`,
	`enum hMay « T » { HMSome ( a : T ) HMNone ( ) }`,
	`enum hMayB « T » { HMSomeB ( a : T ) HMNoneB ( ) }`,
	`struct hDuo « T , U » { one : T two : U }`,
	`fn hSame « T » ( a : T , b : T ) T = a`,
	`fn hIn « T » ( a : hMay « T » , b : T ) int = 1`,
	`fn hApply « T , U » ( f : fn ( T ) U , t : T ) U = f ( t )`,
}

var (
	pPoint  = &TypeDecl{Name: "hPoint"}
	pPointB = &TypeDecl{Name: "hPointB"}
	pShape  = &TypeDecl{Name: "hShape", IsEnum: true}
	pShapeB = &TypeDecl{Name: "hShapeB", IsEnum: true}
	pBox    = &TypeDecl{Name: "hBox"}
	pBoxB   = &TypeDecl{Name: "hBoxB"}
	pMay    = &TypeDecl{Name: "hMay", IsEnum: true}
	pMayB   = &TypeDecl{Name: "hMayB", IsEnum: true}
	pDuo    = &TypeDecl{Name: "hDuo"}
)

// A type; T and U are type parameters of the function around it
func (m *mk) pairTy(depth int, gen bool) *Ty {
	s := m.s
	k := s.W(3, 3, 2, 2, 2, 1)
	if depth > 0 {
		k = s.W(2, 2, 1, 1, 1, 1, 2, 3, 2, 2, 2)
	}
	sub := func() *Ty { return m.pairTy(depth-1, gen) }
	switch k {
	case 0:
		return simple(s)
	case 1:
		if gen {
			return tPar(s.Pick("T", "U"))
		}
		return simple(s)
	case 2:
		return []*TypeDecl{pPoint, pPointB}[s.N(2)].ty()
	case 3:
		return []*TypeDecl{pShape, pShapeB}[s.N(2)].ty()
	case 4:
		return tInt
	case 5:
		return tBytes
	case 6:
		return tArr(sub())
	case 7:
		n := s.N(4)
		t := &Ty{K: KFn, Ret: tNothing}
		for i := 0; i < n; i++ {
			t.Args = append(t.Args, sub())
		}
		if s.Chance(2, 3) {
			t.Ret = sub()
		}
		return t
	case 8:
		return []*TypeDecl{pBox, pBoxB}[s.N(2)].ty(sub())
	case 9:
		return []*TypeDecl{pMay, pMayB}[s.N(2)].ty(sub())
	}
	return pDuo.ty(sub(), sub())
}

func tySize(t *Ty) int {
	n := 1
	for _, a := range t.Args {
		n += tySize(a)
	}
	if t.Ret != nil && t.Ret != tNothing {
		n += tySize(t.Ret)
	}
	return n
}

// A copy of t with the k-th part replaced by f of it
func tyPut(t *Ty, k *int, f func(*Ty) *Ty) *Ty {
	if *k == 0 {
		*k = -1
		return f(t)
	}
	*k--
	r := *t
	r.Args = append([]*Ty(nil), t.Args...)
	for i, a := range r.Args {
		if *k >= 0 {
			r.Args[i] = tyPut(a, k, f)
		}
	}
	if *k >= 0 && t.Ret != nil && t.Ret != tNothing {
		r.Ret = tyPut(t.Ret, k, f)
	}
	return &r
}

var twins = map[*TypeDecl]*TypeDecl{pPoint: pPointB, pPointB: pPoint, pShape: pShapeB, pShapeB: pShape, pBox: pBoxB, pBoxB: pBox, pMay: pMayB, pMayB: pMay}

// A type which differs from a in one place
func (m *mk) differ(a *Ty, gen bool) *Ty {
	s := m.s
	for try := 0; try < 10; try++ {
		k := s.N(tySize(a))
		b := tyPut(a, &k, func(t *Ty) *Ty {
			r := *t
			r.Args = append([]*Ty(nil), t.Args...)
			switch s.W(3, 2, 2) {
			case 0:
				switch {
				case t.K == KFn:
					switch s.N(4) {
					case 0: // one parameter fewer
						if len(r.Args) > 0 {
							i := s.N(len(r.Args))
							r.Args = append(r.Args[:i:i], r.Args[i+1:]...)
						}
					case 1: // one more
						if len(r.Args) < 5 {
							r.Args = append(r.Args, simple(s))
						}
					case 2: // result or none
						if r.Ret == tNothing {
							r.Ret = simple(s)
						} else {
							r.Ret = tNothing
						}
					case 3: // parameters exchanged
						if n := len(r.Args); n > 1 {
							r.Args[0], r.Args[n-1] = r.Args[n-1], r.Args[0]
						}
					}
					return &r
				case t.K == KNamed && twins[t.Def] != nil:
					r.Def = twins[t.Def]
					r.Name = r.Def.Name
					return &r
				case t.K == KNamed && len(r.Args) == 2:
					r.Args[0], r.Args[1] = r.Args[1], r.Args[0]
					return &r
				case t.K == KArr:
					return t.Args[0]
				}
				fallthrough
			case 1:
				return m.pairTy(1, gen)
			}
			switch s.N(4) {
			case 0:
				return tArr(t)
			case 1:
				return pBox.ty(t)
			case 2:
				return tFn(t)
			}
			return pMay.ty(t)
		})
		if !same(a, b) {
			return b
		}
	}
	return tArr(a)
}

func pairToks(t *Ty) string { return strings.Join(tyToks(t), " ") }

// An expression with the value of variable v of type t
func (m *mk) form(v string, t *Ty, gen bool, ds *[]string, style int) string {
	s := m.s
	T := pairToks(t)
	if style == 0 {
		return v
	}
	if t.K == KFn && style < 9 { // the same function written out
		var ps, as []string
		for i, a := range t.Args {
			ps = append(ps, fmt.Sprintf("p%d : %s", i, pairToks(a)))
			as = append(as, fmt.Sprintf("p%d", i))
		}
		head, call := "( "+strings.Join(ps, " , ")+" )", "( "+strings.Join(as, " , ")+" )"
		if t.Ret == tNothing {
			return "fn " + head + " { " + v + " " + call + " }"
		}
		R := pairToks(t.Ret)
		switch {
		case !gen && style < 3: // a named function
			n := m.g.fresh("hFn")
			*ds = append(*ds, "fn "+n+" "+head+" "+R+" = "+n+" "+call)
			return n
		case style < 6:
			return "fn " + head + " " + R + " { return " + v + " " + call + " }"
		}
		return "fn " + head + " " + R + " = " + v + " " + call
	}
	if style < 9 {
		style = s.Range(9, 16)
	}
	switch style - 9 {
	case 0:
		return "hId ( " + v + " )"
	case 1:
		return "[ " + v + " ] [ 0 ]"
	case 2:
		return "HBox ( " + v + " ) . item"
	case 3:
		return "( ok ? " + v + " : " + v + " )"
	case 4:
		return "fn ( ) " + T + " { return " + v + " } ( )"
	case 5:
		if !gen {
			n := m.g.fresh("hGet")
			*ds = append(*ds, "fn "+n+" ( ) "+T+" = "+n+" ( )")
			return n + " ( )"
		}
	case 6:
		if t.K == KArr {
			return "[ " + v + " [ 0 ] ]"
		}
	case 7:
		return "( " + v + " )"
	}
	return v
}

// Declarations with a value of type a where b is wanted
func (m *mk) pairDecl(a, b *Ty, gen bool) [][]string {
	s := m.s
	A, B := pairToks(a), pairToks(b)
	g := ""
	if gen {
		g = "« T , U »"
	}
	sig := "fn hBad " + g + " ( v : " + A + " , w : " + B + " , ok : bool "
	ds := []string{}
	style := func() int {
		if s.Chance(1, 3) {
			return 0
		}
		return s.Range(1, 16)
	}
	x, y := style(), style()
	if s.Chance(1, 2) {
		y = x // both alike
	}
	V := m.form("v", a, gen, &ds, x)
	W := m.form("w", b, gen, &ds, y)
	fin := func(cls, d string) [][]string {
		m.cls = "type pair: " + cls
		var r [][]string
		for _, x := range append(ds, d) {
			r = append(r, split(x))
		}
		return r
	}
	body := func(cls, x string) [][]string { return fin(cls, sig+") { \n "+x+" \n }") }
	switch s.N(22) {
	case 0:
		return fin("result of an expression function", sig+") "+B+" = \n §"+V)
	case 1:
		return fin("return", sig+") "+B+" { \n if ok { return "+W+" } \n §return "+V+" \n }")
	case 2:
		return body("assignment", "§w = "+V)
	case 3:
		ds = append(ds, "fn hTakes "+g+" ( b : "+B+" ) int = 1")
		return body("argument", s.Pick("§hTakes "+g+" ( "+V+" )", "z := hI ( 1 ) + §hTakes "+g+" ( "+V+" )", "§v . hTakes "+g+" ( )"))
	case 4:
		return fin("argument of a function value", sig+", f : fn ( "+B+" ) int ) int = \n §f ( "+V+" )")
	case 5:
		ds = append(ds, "struct hHas "+g+" { q : "+B+" n : int }")
		t := "hHas " + g
		return fin("field assignment", sig+", h : "+t+" ) { \n §h . q = "+V+" \n }")
	case 6:
		ds = append(ds, "struct hHas "+g+" { n : int q : "+B+" }")
		return body("struct constructor", "z := §HHas "+g+" ( 1 , "+V+" )")
	case 7:
		ds = append(ds, "enum hHas "+g+" { HHasA ( ) HHasB ( n : int , q : "+B+" ) }")
		return body("enum constructor", "z := §HHasB "+g+" ( 1 , "+V+" )")
	case 8:
		return fin("element assignment", sig+", l : [ ] "+B+" ) { \n §l [ 0 ] = "+V+" \n }")
	case 9:
		return body("array literal", "z := §[ "+W+" , "+s.Pick("w , ", "")+V+" ]")
	case 10:
		return body("ternary", "z := §ok ? "+W+" : "+V)
	case 11:
		return body("explicit type argument", "z := §hId « "+B+" » ( "+V+" )")
	case 12:
		return body("one type parameter", "z := §hSame ( "+W+" , "+V+" )")
	case 13:
		return body("lambda result", "z := fn ( ) "+B+" = §"+V)
	case 14:
		return body("lambda return", "z := fn ( ) "+B+" { \n if ok { return "+W+" } \n §return "+V+" \n }")
	case 15:
		return fin("loop variable", sig+", l : [ ] "+A+" ) { \n for x in l { \n §w = x \n } \n }")
	case 16:
		return fin("case variable", sig+", o : hMay « "+A+" » ) { \n match o { \n case HMNone ( ) : \n case HMSome ( x ) : \n §w = x \n } \n }")
	case 17:
		return fin("type parameter inside a type", sig+", o : hMay « "+B+" » ) { \n z := §hIn ( o , "+V+" ) \n }")
	case 18:
		return fin("type parameter inside a function type", sig+", f : fn ( "+B+" ) int ) { \n z := §hApply ( f , "+V+" ) \n }")
	case 19:
		return body("variable declared from a value", "z := "+W+" \n §z = "+V)
	case 20:
		return body("captured variable", "z := fn ( ) { \n §w = "+V+" \n }")
	}
	return fin("field of a generic type", sig+", h : hBox « "+B+" » ) { \n §h . item = "+V+" \n }")
}

// Cases of one enum in a match of another; a and b are enum types
func (m *mk) pairMatch() [][]string {
	s := m.s
	m.cls = "type pair: cases of a similar enum"
	wrong := 1 + s.N(7) // bit set of wrong cases, at least one
	bad := func(i int) string {
		if wrong>>i&1 == 1 {
			return "B"
		}
		return ""
	}
	if s.Chance(1, 2) {
		own, oth := "hShape", ""
		if s.Chance(1, 2) {
			own, oth = "hShapeB", "B"
		}
		c := func(n string, i int) string {
			z := bad(i)
			if oth == "B" { // the other way round
				z = "B"[len(z):]
			}
			if bad(i) == "B" && wrong&(1<<i-1) == 0 {
				n = "§" + n
			}
			return n + z
		}
		return [][]string{split("fn hBad ( v : " + own + " ) { \n match v { \n case " + c("HDot", 0) + " ( ) : \n case " + c("HLine", 1) + " ( q ) : \n case " + c("HBlock", 2) + " ( q , r ) : \n } \n }")}
	}
	if wrong > 3 {
		wrong = 1 + wrong%3
	}
	c := func(n string, i int) string {
		if bad(i) == "B" && wrong&(1<<i-1) == 0 {
			n = "§" + n
		}
		return n + bad(i)
	}
	t := s.Pick("int", "string", "[ ] int", "hMay « int »")
	return [][]string{split("fn hBad ( v : hMay « " + t + " » ) { \n match v { \n case " + c("HMSome", 0) + " ( q ) : \n case " + c("HMNone", 1) + " ( ) : \n } \n }")}
}

func (m *mk) pair(valid bool) [][]string {
	s := m.s
	if !valid && s.Chance(1, 8) {
		return m.pairMatch()
	}
	gen := s.Chance(1, 4)
	a := m.pairTy(s.N(4), gen)
	for try := 0; try < 4 && a.K != KFn && s.Chance(1, 3); try++ { // more functions
		a = m.pairTy(2, gen)
	}
	b := a
	if !valid {
		b = m.differ(a, gen)
	}
	return m.pairDecl(a, b, gen)
}
