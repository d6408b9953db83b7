package main

// Typed program generator.

import (
	"fmt"
	"sort"
	"strings"
)

type Prof struct {
	Types       [2]int // number of user types
	Fns         [2]int
	MainStmts   [2]int
	BodyStmts   [2]int
	Depth       int // expression depth
	BlockDepth  int
	Arith       int // weight of arithmetic and logic
	Calls       int
	Closures    int
	Data        int // structs, enums, arrays
	Generics    int
	Strings     int
	BytesW      int
	Flow        int
	Overloads   int
	Rec         int
	Extreme     int // extreme integer literals, percent
	StdW        map[string]int
	Fuel        int
	Churn       int // garbage producing calls in expressions (percent)
	Shadow      int // percent
	DumpAll     bool
	MaxParams   int
	OptW, ListW int
	Lab         int
	Trace       int // percent of expressions whose evaluation is made visible, in one of three programs
	Name        string
}

type Scope struct {
	vars   []*Var
	parent *Scope
	plen   int // number of variables of the parent when this scope was opened
	fn     *FnScope
}

type FnScope struct {
	parent *FnScope
	decl   *FnDecl
	caps   map[*Var]bool // variables of enclosing functions which may be used; nil at top level
	tps    []string
	pure   bool
	rec    []*FnDecl // members of the recursive group this function belongs to
	ret    *Ty
	lambda bool
}

type Gen struct {
	s         *Src
	p         *Prof
	pr        *Program
	user      []*FnDecl // callable functions
	types     []*TypeDecl
	shows     map[string]*FnDecl
	ctr       int
	feat      map[string]bool
	sc        *Scope
	pure      int
	noCall    int
	traceOn   int
	block     int
	size      int
	names     map[string]bool
	overNm    map[string][]*FnDecl
	maxSz     int
	allowOver bool // overloaded names may be used as the function value generated next
}

func newGen(s *Src, p *Prof) *Gen {
	return &Gen{s: s, p: p, pr: &Program{}, shows: map[string]*FnDecl{}, feat: map[string]bool{}, names: map[string]bool{},
		overNm: map[string][]*FnDecl{}, maxSz: 1500}
}

type genFail struct{ why string }

func (g *Gen) f(name string) { g.feat[name] = true }

func (g *Gen) classes() []string {
	var r []string
	for k := range g.feat {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

// ---------------------------------------------------------------------------------------------------------------------
// Names and scopes

func (g *Gen) fresh(pre string) string {
	g.ctr++
	return fmt.Sprintf("%s%d", pre, g.ctr)
}

func (g *Gen) push(fn *FnScope) func() {
	old := g.sc
	if fn == nil && old != nil {
		fn = old.fn
	}
	g.sc = &Scope{parent: old, fn: fn}
	if old != nil {
		g.sc.plen = len(old.vars)
	}
	return func() { g.sc = old }
}

func (g *Gen) inScope(name string) bool {
	for _, v := range g.sc.vars {
		if v.Name == name {
			return true
		}
	}
	return false
}

var shadowNames = []string{"a", "b", "c", "x", "y", "val", "tmp", "acc", "first", "left"}

func (g *Gen) varName(pre string) string {
	if g.p.Shadow > 0 && g.s.Chance(g.p.Shadow, 100) {
		n := shadowNames[g.s.N(len(shadowNames))]
		if !g.inScope(n) {
			return n
		}
	}
	return g.fresh(pre)
}

func (g *Gen) declare(v *Var) *Var {
	v.fn = g.sc.fn
	g.sc.vars = append(g.sc.vars, v)
	return v
}

// Visible variables, innermost first, respecting hiding and capture candidates
func (g *Gen) visible() []*Var {
	var out []*Var
	hidden := map[string]bool{}
	for sc := g.sc; sc != nil; sc = sc.parent {
		for i := len(sc.vars) - 1; i >= 0; i-- {
			v := sc.vars[i]
			if hidden[v.Name] {
				continue
			}
			hidden[v.Name] = true
			if g.canUse(v) {
				out = append(out, v)
			}
		}
	}
	return out
}

func (g *Gen) canUse(v *Var) bool {
	for f := g.sc.fn; f != nil && f != v.fn; f = f.parent {
		if f.caps != nil && !f.caps[v] {
			return false
		}
	}
	return true
}

func (g *Gen) varsOf(t *Ty) []*Var {
	var out []*Var
	for _, v := range g.visible() {
		if same(v.T, t) {
			out = append(out, v)
		}
	}
	return out
}

func (g *Gen) useVar(v *Var) *Expr {
	if v.fn != g.sc.fn {
		g.f("capture")
	}
	return &Expr{Op: EVar, T: v.T, Var: v}
}

// ---------------------------------------------------------------------------------------------------------------------
// Types

func (g *Gen) tps() []string {
	if g.sc == nil || g.sc.fn == nil {
		return nil
	}
	return g.sc.fn.tps
}

func (g *Gen) ty(d int) *Ty {
	p := g.p
	w := []int{8, 4, p.Strings, 0, 0, 0, 0, 0, 0, 0, 0}
	if d > 0 {
		w[3] = p.Data * 2 // array
		w[4] = p.Data * 3 // user type
		w[5] = p.Closures // fn
		w[6] = p.OptW     // option
		w[7] = p.ListW    // list
		w[8] = p.OptW / 2 // pair / either / result
	}
	if len(g.types) == 0 {
		w[4] = 0
	}
	w[9] = p.BytesW
	if len(g.tps()) > 0 {
		w[10] = 12
	}
	switch g.s.W(w...) {
	case 0:
		return tInt
	case 1:
		return tBool
	case 2:
		return tStr
	case 3:
		return tArr(g.ty(d - 1))
	case 4:
		return g.inst(g.types[g.s.N(len(g.types))], d-1)
	case 5:
		return g.fnTy(d - 1)
	case 6:
		return opt(g.ty(d - 1))
	case 7:
		return lst(g.ty(d - 1))
	case 8:
		def := []*TypeDecl{dPair, dEither, dResult}[g.s.N(3)]
		return def.ty(g.ty(d-1), g.ty(d-1))
	case 9:
		return tBytes
	default:
		return tPar(g.tps()[g.s.N(len(g.tps()))])
	}
}

func (g *Gen) fnTy(d int) *Ty {
	n := g.s.Range(0, 3)
	t := &Ty{K: KFn}
	for i := 0; i < n; i++ {
		t.Args = append(t.Args, g.ty(d-1))
	}
	if g.s.Chance(1, 6) {
		t.Ret = tNothing
	} else {
		t.Ret = g.ty(d - 1)
	}
	return t
}

func (g *Gen) inst(def *TypeDecl, d int) *Ty {
	t := &Ty{K: KNamed, Name: def.Name, Def: def}
	for range def.TPs {
		t.Args = append(t.Args, g.ty(d))
	}
	return t
}

var fieldNames = []string{"a", "b", "val", "left", "x", "count", "next", "data", "first", "acc"}

func (g *Gen) typeDecls() {
	n := g.s.Range(g.p.Types[0], g.p.Types[1])
	for i := 0; i < n; i++ {
		d := &TypeDecl{Name: g.fresh("ty")}
		if g.p.Generics > 0 && g.s.Chance(g.p.Generics, 12) {
			d.TPs = []string{"T", "U"}[:g.s.Range(1, 2)]
			g.f("generic type")
		}
		fs := &FnScope{tps: d.TPs}
		pop := g.push(fs)
		self := d.ty()
		for _, tp := range d.TPs {
			self.Args = append(self.Args, tPar(tp))
		}
		field := func(j int, rec bool) Field {
			nm := fieldNames[j%len(fieldNames)] // unique inside a declaration
			if j >= len(fieldNames) {
				nm = g.fresh("f")
			}
			if g.s.Chance(1, 3) {
				nm = g.fresh("f")
			}
			var t *Ty
			if rec {
				if g.s.Chance(1, 2) {
					t = lst(self)
				} else {
					t = opt(self)
				}
			} else {
				t = g.ty(2)
			}
			return Field{nm, t}
		}
		if g.s.Chance(1, 2) { // struct
			m := g.s.Range(1, 6)
			off := g.s.N(5)
			for j := 0; j < m; j++ {
				d.Fields = append(d.Fields, field(off+j, g.s.Chance(1, 10)))
			}
			g.f("struct")
		} else {
			d.IsEnum = true
			m := g.s.Range(1, 5)
			for c := 0; c < m; c++ {
				cd := CaseDecl{Name: g.fresh("Case")}
				k := g.s.N(6)
				for j := 0; j < k; j++ {
					if c > 0 && g.s.Chance(1, 6) {
						cd.Fields = append(cd.Fields, Field{g.fresh("e"), self})
						g.f("recursive enum")
					} else {
						cd.Fields = append(cd.Fields, field(j, false))
					}
				}
				d.Cases = append(d.Cases, cd)
			}
			g.f("enum")
		}
		pop()
		// every type parameter has to be used
		for _, tp := range d.TPs {
			used := false
			for _, f := range d.Fields {
				used = used || mentions(f.T, tp)
			}
			for _, c := range d.Cases {
				for _, f := range c.Fields {
					used = used || mentions(f.T, tp)
				}
			}
			if !used {
				if d.IsEnum {
					d.Cases[0].Fields = append([]Field{{"q" + tp, tPar(tp)}}, d.Cases[0].Fields...)
					if len(d.Cases[0].Fields) > 5 {
						d.Cases[0].Fields = d.Cases[0].Fields[:5]
					}
				} else {
					d.Fields = append([]Field{{"q" + tp, tPar(tp)}}, d.Fields...)
					if len(d.Fields) > 6 {
						d.Fields = d.Fields[:6]
					}
				}
			}
		}
		g.pr.Types = append(g.pr.Types, d)
		g.types = append(g.types, d)
	}
}

// ---------------------------------------------------------------------------------------------------------------------
// Literals

var strPieces = []string{"", "a", "b", "ab", "abc", "hello", " ", "x=1", "é", "日本", "\n", "\"", "\\", "0123456789", "zz", "%", "//", "\r", "ß·", "the quick brown fox",
	"n", "r", "\\n", "\\r", "\\\"", "#", ";", "/*", "*/", "$", "@", "'", "`", "{}", "%d", "%s%%", "A", "Z_", "😀", "«»", "0x1F", "...", "\\0", "\\101", "\\x41", ":", "T"}

func (g *Gen) strLit() *Expr {
	n := g.s.Range(0, 3)
	var b strings.Builder
	for i := 0; i < n; i++ {
		if g.s.Chance(1, 6) {
			for k := g.s.Range(1, 6); k > 0; k-- {
				b.WriteByte(byte(g.s.Range(' ', '~')))
			}
			continue
		}
		b.WriteString(strPieces[g.s.N(len(strPieces))])
	}
	if g.s.Chance(1, 14) { // a long one
		piece := b.String() + "0123456789"
		for k := []int{40, 64, 127, 128, 255, 256, 300}[g.s.N(7)]; b.Len() < k; {
			b.WriteString(piece)
		}
	}
	return &Expr{Op: EStr, T: tStr, S: b.String()}
}

func lit(v int64) *Expr { return &Expr{Op: EInt, T: tInt, I: v} }
func blit(b bool) *Expr {
	e := &Expr{Op: EBool, T: tBool}
	if b {
		e.I = 1
	}
	return e
}
func slit(s string) *Expr { return &Expr{Op: EStr, T: tStr, S: s} }

func (g *Gen) intVal() int64 {
	if g.s.Chance(g.p.Extreme, 100) {
		switch g.s.N(6) {
		case 0:
			return maxInt - int64(g.s.N(3))
		case 1:
			return minInt + int64(g.s.N(3))
		case 2:
			k := uint(g.s.N(62))
			return (int64(1) << k) + int64(g.s.Range(0, 2)) - 1
		case 3:
			k := uint(g.s.N(62))
			return -(int64(1) << k) + int64(g.s.Range(0, 2)) - 1
		case 4:
			return wrap(int64(g.s.U(0)))
		default:
			k := uint(g.s.N(62))
			return wrap(int64(g.s.U(0))) >> k
		}
	}
	switch g.s.W(6, 2, 2, 1) {
	case 0:
		return int64(g.s.N(10))
	case 1:
		return -int64(g.s.N(10))
	case 2:
		return int64(g.s.N(1000))
	default:
		return int64(g.s.N(1<<20)) - 1<<19
	}
}

func (g *Gen) intLit() *Expr {
	e := lit(g.intVal())
	e.Hex = g.s.Chance(1, 4)
	if e.I == minInt { // the literal itself is out of range
		return &Expr{Op: EBin, S: "-", T: tInt, Kids: []*Expr{lit(minInt + 1), lit(1)}}
	}
	return e
}

// ---------------------------------------------------------------------------------------------------------------------
// Expressions

func bin(op string, a, b *Expr) *Expr {
	t := tInt
	switch op {
	case "and", "or", "==", "<", "<=", ">", ">=":
		t = tBool
	}
	return &Expr{Op: EBin, S: op, T: t, Kids: []*Expr{a, b}}
}

func tern(c, a, b *Expr) *Expr { return &Expr{Op: ETern, T: a.T, Kids: []*Expr{c, a, b}} }

func call(f *FnDecl, args ...*Expr) *Expr { return &Expr{Op: ECall, Fn: f, T: f.Ret, Kids: args} }
func callT(f *FnDecl, t *Ty, args ...*Expr) *Expr {
	return &Expr{Op: ECall, Fn: f, T: t, Kids: args}
}
func field(e *Expr, name string, t *Ty) *Expr {
	return &Expr{Op: EField, S: name, T: t, Kids: []*Expr{e}}
}
func length(e *Expr) *Expr { return &Expr{Op: ELen, T: tInt, Kids: []*Expr{e}} }
func index(a, i *Expr) *Expr {
	return &Expr{Op: EIndex, T: a.T.Args[0], Kids: []*Expr{a, i}}
}

// Smallest expression of a type
func (g *Gen) minimal(t *Ty, d int) *Expr {
	g.size++
	if d < -12 {
		panic(genFail{"no small value of type " + t.String()})
	}
	switch t.K {
	case KInt:
		return lit(int64(g.s.N(8)))
	case KBool:
		return blit(g.s.N(2) == 1)
	case KStr:
		return g.strLit()
	case KBytes:
		return call(stdf("Bytes", tInt), lit(int64(g.s.Range(1, 4))))
	case KArr:
		if d <= 0 || t.Args[0].K == KFn {
			// fewest elements
			if t.Args[0].K == KInt && g.s.Chance(1, 4) {
				return call(stdf("intArray", tInt), lit(int64(g.s.Range(0, 3))))
			}
			return &Expr{Op: EArr, T: t, Kids: []*Expr{g.minimal(t.Args[0], d-1)}}
		}
		return &Expr{Op: EArr, T: t, Kids: []*Expr{g.minimal(t.Args[0], d-1), g.minimal(t.Args[0], d-1)}}
	case KFn:
		return g.lambda(t, 0)
	case KParam:
		if vs := g.varsOf(t); len(vs) > 0 {
			return g.useVar(vs[g.s.N(len(vs))])
		}
		panic(genFail{"no value for type parameter"})
	case KNamed:
		if t.Def == dMap {
			panic(genFail{"map"})
		}
		if t.Def == dBuf {
			return call(stdf("NewByteBuffer", tInt), lit(int64(g.s.Range(1, 5))))
		}
		return g.construct(t, d, true)
	}
	panic(fmt.Sprint("minimal ", t))
}

// Constructor call
func (g *Gen) construct(t *Ty, d int, min bool) *Expr {
	def := t.Def
	m := def.bind(t.Args)
	arg := func(ft *Ty) *Expr {
		if min {
			return g.minimal(ft, d-1)
		}
		return g.expr(ft, d-1)
	}
	if !def.IsEnum {
		e := &Expr{Op: EStruct, T: t, Def: def}
		for _, f := range def.Fields {
			e.Kids = append(e.Kids, arg(subst(f.T, m)))
		}
		g.explicit(e, def.TPs, fieldTypes(def.Fields), t.Args)
		return e
	}
	tag := 0
	if def == dOption || def == dList {
		tag = g.s.N(2)
		if def == dOption && min && d < -2 {
			tag = 1
		}
		if def == dList && min {
			tag = 1
		}
	} else if min {
		var ok []int
		for i, c := range def.Cases {
			rec := false
			for _, f := range c.Fields {
				rec = rec || f.T.Def == def
			}
			if !rec && (len(c.Fields) == 0 || d > -2 || i == 0) {
				ok = append(ok, i)
			}
		}
		if d < -1 {
			ok = ok[:1]
		}
		tag = ok[g.s.N(len(ok))]
	} else {
		tag = g.s.N(len(def.Cases))
		if d <= 0 {
			tag = 0
		}
	}
	c := def.Cases[tag]
	e := &Expr{Op: EEnum, T: t, Def: def, Tag: tag}
	for _, f := range c.Fields {
		e.Kids = append(e.Kids, arg(subst(f.T, m)))
	}
	g.explicit(e, def.TPs, fieldTypes(c.Fields), t.Args)
	return e
}

func fieldTypes(fs []Field) []*Ty {
	var r []*Ty
	for _, f := range fs {
		r = append(r, f.T)
	}
	return r
}

// Decides whether type arguments are written out: always when they cannot be inferred
func (g *Gen) explicit(e *Expr, tps []string, params []*Ty, args []*Ty) {
	if len(tps) == 0 {
		return
	}
	need := false
	for _, tp := range tps {
		seen := false
		for _, p := range params {
			seen = seen || mentions(p, tp)
		}
		need = need || !seen
	}
	if need || g.s.Chance(1, 4) {
		e.TArgs = args
		g.f("explicit type args")
	} else {
		g.f("inferred type args")
	}
}

func (g *Gen) expr(t *Ty, d int) *Expr {
	e := g.expr0(t, d)
	if g.p.Trace == 0 || t.K == KNothing || g.pure > 0 || g.noCall > 0 || g.size > g.maxSz || hasParam(t) {
		return e
	}
	if g.traceOn == 0 {
		g.traceOn = 1 + g.s.W(2, 1)
	}
	if g.traceOn == 2 && g.s.Chance(g.p.Trace, 100) {
		g.f("traced evaluation")
		g.ctr++
		return call(g.traceFn(t), lit(int64(g.ctr)), e)
	}
	return e
}

// A function which prints its first and returns its second argument, to see when and how often an expression is evaluated
func (g *Gen) traceFn(t *Ty) *FnDecl {
	k := "trace " + t.key()
	f := g.shows[k]
	if f == nil {
		n, x := &Var{Name: "n", T: tInt}, &Var{Name: "x", T: t}
		f = &FnDecl{Name: fmt.Sprintf("see%d", len(g.shows)), Params: []*Var{n, x}, Ret: t, Body: []*Stmt{
			{Op: SExpr, R: call(stdf("println", tInt), &Expr{Op: EVar, T: tInt, Var: n})},
			{Op: SReturn, R: &Expr{Op: EVar, T: t, Var: x}}}}
		g.shows[k] = f
		g.pr.Fns = append(g.pr.Fns, f)
	}
	return f
}

func (g *Gen) expr0(t *Ty, d int) *Expr {
	g.size++
	if g.size > g.maxSz {
		d = 0
	}
	vs := g.varsOf(t)
	if d <= 0 {
		if len(vs) > 0 && g.s.Chance(3, 4) {
			return g.useVar(vs[g.s.N(len(vs))])
		}
		if t.K == KInt {
			return g.intLit()
		}
		return g.minimal(t, d)
	}
	// Candidates: 0 leaf, 1 var, 2 constructor, 3 path, 4 call, 5 ternary, 6 fn value call, 7 type specific, 8 iife
	p := g.p
	w := []int{1, 0, 3, 2 * p.Data, 3 * p.Calls, 2, p.Closures, 0, 0}
	if len(vs) > 0 {
		w[1] = 6
	}
	switch t.K {
	case KInt, KBool:
		w[7] = 4 * p.Arith
		w[0] = 3
		w[2] = 0
	case KStr:
		w[7] = 2 * p.Strings
		w[2] = 0
	case KBytes, KParam:
		w[2] = 0
	case KFn:
		w[2] = 4
	}
	if p.Closures > 0 && g.noCall == 0 && t.K != KFn {
		w[8] = p.Closures / 4
	}
	switch g.s.W(w...) {
	case 1:
		return g.useVar(vs[g.s.N(len(vs))])
	case 2:
		switch t.K {
		case KArr:
			n := g.s.Range(1, 4)
			e := &Expr{Op: EArr, T: t}
			for i := 0; i < n; i++ {
				e.Kids = append(e.Kids, g.expr(t.Args[0], d-1))
			}
			g.f("array literal")
			return e
		case KFn:
			return g.fnValue(t, d)
		case KNamed:
			if t.Def == dMap || t.Def == dBuf {
				return g.minimal(t, d)
			}
			return g.construct(t, d, false)
		}
		return g.minimal(t, d)
	case 3:
		if e := g.path(t, d); e != nil {
			return e
		}
	case 4:
		if e := g.callFor(t, d); e != nil {
			return e
		}
	case 5:
		c := g.expr(tBool, d-1)
		return tern(c, g.expr(t, d-1), g.expr(t, d-1))
	case 6:
		if e := g.callValue(t, d); e != nil {
			return e
		}
	case 7:
		switch t.K {
		case KInt:
			return g.arith(d)
		case KBool:
			return g.logic(d)
		case KStr:
			return g.strExpr(d)
		}
	case 8:
		// immediately invoked block function
		if g.pure > 0 {
			break
		}
		n := g.s.N(3)
		ft := &Ty{K: KFn, Ret: t}
		for i := 0; i < n; i++ {
			ft.Args = append(ft.Args, g.ty(1))
		}
		l := g.lambdaX(ft, d-1, 1)
		e := &Expr{Op: ECallV, T: t, Kids: []*Expr{l}}
		for _, a := range ft.Args {
			e.Kids = append(e.Kids, g.expr(a, d-1))
		}
		g.f("immediate call")
		return e
	}
	if len(vs) > 0 && g.s.Chance(1, 2) {
		return g.useVar(vs[g.s.N(len(vs))])
	}
	if t.K == KInt {
		return g.intLit()
	}
	return g.minimal(t, d)
}

// Reads of fields, elements, lengths starting from a variable
func (g *Gen) path(t *Ty, d int) *Expr {
	if d > 1 && g.s.Chance(1, 4) {
		if e := g.computedPath(t, d); e != nil {
			return e
		}
	}
	type cand struct {
		v *Var
		k int
		f Field
	}
	var cs []cand
	for _, v := range g.visible() {
		switch v.T.K {
		case KNamed:
			if v.T.Def.IsEnum {
				continue
			}
			m := v.T.Def.bind(v.T.Args)
			for _, f := range v.T.Def.Fields {
				ft := subst(f.T, m)
				if same(ft, t) {
					cs = append(cs, cand{v, 0, Field{f.Name, ft}})
				} else if ft.K == KArr && same(ft.Args[0], t) {
					cs = append(cs, cand{v, 1, Field{f.Name, ft}})
				} else if ft.K == KNamed && !ft.Def.IsEnum && ft.Def != dMap {
					m2 := ft.Def.bind(ft.Args)
					for _, f2 := range ft.Def.Fields {
						if same(subst(f2.T, m2), t) {
							cs = append(cs, cand{v, 3, Field{f.Name, ft}})
							break
						}
					}
				}
			}
		case KArr:
			if same(v.T.Args[0], t) {
				cs = append(cs, cand{v, 2, Field{}})
			}
			if t.K == KInt {
				cs = append(cs, cand{v, 4, Field{}})
			}
		case KStr:
			if t.K == KInt {
				cs = append(cs, cand{v, 4, Field{}})
			}
		}
	}
	if len(cs) == 0 {
		return nil
	}
	c := cs[g.s.N(len(cs))]
	b := g.useVar(c.v)
	switch c.k {
	case 0:
		g.f("field read")
		return field(b, c.f.Name, c.f.T)
	case 1:
		return g.elem(field(b, c.f.Name, c.f.T), 0, d)
	case 2:
		return g.elem(b, c.v.lenMin, d)
	case 3:
		m2 := c.f.T.Def.bind(c.f.T.Args)
		for _, f2 := range c.f.T.Def.Fields {
			if same(subst(f2.T, m2), t) {
				g.f("nested field read")
				return field(field(b, c.f.Name, c.f.T), f2.Name, t)
			}
		}
	case 4:
		return length(b)
	}
	return nil
}

// Reads whose base is itself computed: f(x)[0], [a, b][i], Ctor(..).field, f(x).field, array(n, v)[i]
func (g *Gen) computedPath(t *Ty, d int) *Expr {
	switch g.s.N(4) {
	case 0:
		n := g.s.Range(1, 4)
		a := &Expr{Op: EArr, T: tArr(t)}
		for i := 0; i < n; i++ {
			a.Kids = append(a.Kids, g.expr(t, d-2))
		}
		g.f("element of literal")
		return index(a, g.idx(nil, n, d-1))
	case 1:
		if g.noCall > 0 || hasParam(t) && g.s.Chance(1, 2) {
			return nil
		}
		n := g.s.Range(1, 5)
		f := stdf("array", tInt, tPar("T"))
		a := &Expr{Op: ECall, Fn: f, T: tArr(t), Kids: []*Expr{lit(int64(n)), g.expr(t, d-2)}}
		g.explicit(a, f.TPs, []*Ty{tInt, tPar("T")}, []*Ty{t})
		g.f("element of call")
		return index(a, g.idx(nil, n, d-1))
	case 2:
		if c := g.callFor(tArr(t), d-1); c != nil && !c.Fn.Std {
			g.f("element of call")
			return index(c, lit(0))
		}
	case 3:
		var cs []*TypeDecl
		for _, def := range g.types {
			if !def.IsEnum && len(def.TPs) == 0 {
				for _, f := range def.Fields {
					if same(f.T, t) {
						cs = append(cs, def)
						break
					}
				}
			}
		}
		if len(cs) == 0 {
			return nil
		}
		def := cs[g.s.N(len(cs))]
		b := g.expr(def.ty(), d-1)
		if b.Op == ETern {
			return nil
		}
		for _, f := range def.Fields {
			if same(f.T, t) {
				g.f("field of expression")
				return field(b, f.Name, t)
			}
		}
	}
	return nil
}

// An index expression with a value in 0..n-1; base: the array variable, if it is one
func (g *Gen) idx(base *Var, n int, d int) *Expr {
	var ks []*Var
	for _, v := range g.visible() {
		if v.T.K == KInt && v.Const && (v.known && v.val < int64(n) && v.val >= 0 || base != nil && v.idxOf == base) {
			ks = append(ks, v)
		}
	}
	if len(ks) > 0 && g.s.Chance(1, 2) {
		g.f("variable index")
		return g.useVar(ks[g.s.N(len(ks))])
	}
	if n >= 2 && d > 0 && g.s.Chance(1, 3) {
		m := int64(1)
		if n >= 4 {
			m = 3
		}
		g.f("computed index")
		return bin("&", g.expr(tInt, d), lit(m))
	}
	return lit(int64(g.s.N(n)))
}

// Element read that is inside the array
func (g *Gen) elem(a *Expr, lenMin int, d int) *Expr {
	g.f("element read")
	var base *Var
	if a.Op == EVar {
		base = a.Var
	}
	if base != nil && base.Const { // the variable of an enclosing loop over the same array
		for _, v := range g.visible() {
			if v.idxOf == base && v.Const && g.s.Chance(1, 2) {
				g.f("variable index")
				return index(a, g.useVar(v))
			}
		}
	}
	if lenMin > 0 {
		return index(a, g.idx(base, lenMin, d-1))
	}
	k := g.s.N(3)
	return tern(bin(">", length(a), lit(int64(k))), index(a, lit(int64(k))), g.expr(a.T.Args[0], 0))
}

var arithOps = []string{"+", "-", "*", "/", "&", "|", "^", "<<", ">>"}
var cmpOps = []string{"==", "<", "<=", ">", ">="}

// An expression of literals only, with no value the program has to compute to know it
func (g *Gen) constant(d int, ops []string) *Expr {
	if d <= 0 || g.s.Chance(1, 6) {
		return g.intLit()
	}
	if ops == nil { // some of the operators
		ops = arithOps
		switch g.s.N(3) {
		case 0:
			ops = []string{"+", "-", "*", "/", "/"}
		case 1:
			ops = []string{arithOps[g.s.N(len(arithOps))], arithOps[g.s.N(len(arithOps))]}
		}
	}
	switch g.s.W(12, 1, 1) {
	case 1:
		return &Expr{Op: ENeg, T: tInt, Kids: []*Expr{g.constant(d-1, ops)}}
	case 2:
		return &Expr{Op: EBNot, T: tInt, Kids: []*Expr{g.constant(d-1, ops)}}
	}
	op := ops[g.s.N(len(ops))]
	a := g.constant(d-1, ops)
	switch op {
	case "/":
		v := g.intVal()
		if g.s.Chance(1, 2) {
			v = int64(g.s.Range(1, 5))
		}
		if v == 0 || v == minInt {
			v = 2
		}
		return bin(op, a, lit(v))
	case "<<", ">>":
		return bin(op, a, lit(int64(g.s.N(64))))
	}
	return bin(op, a, g.constant(d-1, ops))
}

func (g *Gen) arith(d int) *Expr {
	if g.p.Extreme >= 40 && g.s.Chance(1, 8) {
		g.f("constant expression")
		return g.constant(g.s.Range(1, 4), nil)
	}
	switch g.s.W(10, 2, 2, 1, (g.p.Strings+1)/2) {
	case 4:
		if d > 1 {
			if g.s.Chance(1, 3) {
				a := g.expr(tArr(g.ty(0)), d-1)
				if a.Op == ETern {
					return length(g.expr(tStr, 0))
				}
				return length(a)
			}
			return length(g.strExpr(d - 1))
		}
		return length(g.expr(tStr, 0))
	case 1:
		return &Expr{Op: ENeg, T: tInt, Kids: []*Expr{g.nonLit(d - 1)}}
	case 2:
		return &Expr{Op: EBNot, T: tInt, Kids: []*Expr{g.expr(tInt, d-1)}}
	case 3:
		k := int64(g.s.Range(2, 9))
		return g.dotty(call(stdf("mod", tInt, tInt), g.expr(tInt, d-1), lit(k)))
	}
	op := arithOps[g.s.N(len(arithOps))]
	g.f("op " + op)
	a := g.expr(tInt, d-1)
	switch op {
	case "/":
		switch g.s.N(3) {
		case 0:
			v := g.intVal()
			if v == 0 || v == minInt {
				v = 3
			}
			return bin(op, a, lit(v))
		case 1:
			return bin(op, a, bin("|", g.expr(tInt, d-1), lit(1)))
		default:
			return bin(op, a, bin("+", bin("&", g.expr(tInt, d-1), lit(7)), lit(1)))
		}
	case "<<", ">>":
		if g.s.Chance(1, 2) {
			return bin(op, a, lit(int64(g.s.N(64))))
		}
		return bin(op, a, bin("&", g.expr(tInt, d-1), lit(63)))
	}
	return bin(op, a, g.expr(tInt, d-1))
}

// negating a literal is already covered by negative literals; -(-5) and friends are still produced here
func (g *Gen) nonLit(d int) *Expr { return g.expr(tInt, d) }

func (g *Gen) logic(d int) *Expr {
	if g.p.Extreme >= 40 && g.s.Chance(1, 10) {
		g.f("constant comparison")
		return bin(cmpOps[g.s.N(len(cmpOps))], g.constant(2, nil), g.constant(2, nil))
	}
	switch g.s.W(5, 2, 2, 2) {
	case 0:
		op := cmpOps[g.s.N(len(cmpOps))]
		g.f("op " + op)
		return bin(op, g.expr(tInt, d-1), g.expr(tInt, d-1))
	case 1:
		return &Expr{Op: ENot, T: tBool, Kids: []*Expr{g.expr(tBool, d-1)}}
	case 2:
		a := g.expr(tBool, d-1)
		g.pure++
		b := g.expr(tBool, d-1)
		g.pure--
		g.f("and")
		return bin("and", a, b)
	default:
		a := g.expr(tBool, d-1)
		g.pure++
		b := g.expr(tBool, d-1)
		g.pure--
		g.f("or")
		return bin("or", a, b)
	}
}

func (g *Gen) strExpr(d int) *Expr {
	switch g.s.W(4, 2, 1, 1) {
	case 0:
		g.f("append")
		return g.dotty(call(stdf("append", tStr, tStr), g.expr(tStr, d-1), g.expr(tStr, d-1)))
	case 1:
		return g.dotty(call(stdf("toString", tInt), g.expr(tInt, d-1)))
	case 2:
		return g.dotty(call(stdf("toString", tBool), g.expr(tBool, d-1)))
	default:
		return g.strLit()
	}
}

// randomly writes a call as receiver.f(args)
func (g *Gen) dotty(e *Expr) *Expr {
	if len(e.Kids) > 0 && e.Kids[0].Op != EFnRef && !e.Fn.NoDot && !hasField(e.Kids[0].T, e.Fn.Name) && g.s.Chance(1, 3) {
		e.Dot = true
		g.f("dot call")
	}
	return e
}

// Calls a user or standard function returning t
func (g *Gen) callFor(t *Ty, d int) *Expr {
	if g.noCall > 0 {
		return nil
	}
	type cand struct {
		f *FnDecl
		m map[string]*Ty
		w int
	}
	var cs []cand
	add := func(f *FnDecl, w int) {
		if w <= 0 || (g.pure > 0 && !f.Pure) {
			return
		}
		if g.sc.fn.pure && !f.Pure {
			return
		}
		free := map[string]bool{}
		for _, tp := range f.TPs {
			free[tp] = true
		}
		m := map[string]*Ty{}
		if unify(f.Ret, t, free, m) {
			cs = append(cs, cand{f, m, w})
		}
	}
	for _, f := range g.user {
		add(f, 6)
	}
	for _, f := range g.sc.fn.rec {
		add(f, 10)
	}
	for _, f := range stdFns {
		if f.Ret.K != KNothing || t.K == KNothing {
			w := f.Weight * g.p.StdW[f.Group]
			if f.Ret.K == KParam {
				w = (w + 3) / 4
			}
			add(f, w)
		}
	}
	if len(cs) == 0 {
		return nil
	}
	ws := make([]int, len(cs))
	for i, c := range cs {
		ws[i] = c.w
	}
	c := cs[g.s.W(ws...)]
	return g.callOf(c.f, c.m, d)
}

func (g *Gen) isRec(f *FnDecl) bool {
	for _, r := range g.sc.fn.rec {
		if r == f {
			return true
		}
	}
	return false
}

func (g *Gen) callOf(f *FnDecl, m map[string]*Ty, d int) *Expr {
	if f.overT != nil {
		m["T"] = f.overT[g.s.N(len(f.overT))]
	}
	for _, tp := range f.TPs {
		if m[tp] == nil {
			m[tp] = g.ty(1)
		}
	}
	e := &Expr{Op: ECall, Fn: f, T: subst(f.Ret, m)}
	if f.Std {
		g.f("std " + f.Name)
	} else if len(f.TPs) > 0 {
		g.f("generic call")
	} else {
		g.f("user call")
	}
	purecb := f.Std && (f.Name == "find" || f.Name == "remove" || f.Name == "filter")
	for i, p := range f.Params {
		pt := subst(p.T, m)
		if i == 0 && f.recFuel {
			if g.isRec(f) {
				e.Kids = append(e.Kids, bin("-", g.useVar(g.sc.fn.decl.Params[0]), lit(1)))
			} else {
				e.Kids = append(e.Kids, lit(int64(g.s.N(4))))
			}
			g.f("recursion")
			continue
		}
		if f.over != nil && pt.K == KFn && g.s.Chance(4, 5) {
			var ref *Expr
			for _, k := range f.over {
				if same(k.ty(), pt) {
					ref = &Expr{Op: EFnRef, T: pt, Fn: k}
				}
			}
			if ref != nil {
				if f.overT != nil {
					g.f("overloaded name to generic function")
				} else {
					g.f("overloaded name to overloaded function")
				}
				e.Kids = append(e.Kids, ref)
				continue
			}
		}
		if purecb && pt.K == KFn {
			g.pure++
			e.Kids = append(e.Kids, g.lambda(pt, d-1))
			g.pure--
			continue
		}
		if pt.K == KFn && len(f.TPs) == 0 && !f.Std && len(g.overNm[f.Name]) <= 1 && g.s.Chance(1, 2) {
			g.allowOver = true
			e.Kids = append(e.Kids, g.fnValue(pt, d-1))
			g.allowOver = false
			continue
		}
		e.Kids = append(e.Kids, g.expr(pt, d-1))
	}
	if len(f.TPs) > 0 {
		var params, args []*Ty
		for _, p := range f.Params {
			params = append(params, p.T)
		}
		for _, tp := range f.TPs {
			args = append(args, m[tp])
		}
		g.explicit(e, f.TPs, params, args)
	}
	if !f.recFuel {
		g.dotty(e)
	}
	return e
}

// Calls a function value held by a variable or a field
func (g *Gen) callValue(t *Ty, d int) *Expr {
	if g.noCall > 0 || g.pure > 0 || g.sc.fn.pure {
		return nil
	}
	if d > 1 && t.K != KNothing && g.s.Chance(1, 4) { // f(a)(b), [f, g][i](x)
		ft := g.fnTy(1)
		ft.Ret = t
		var c *Expr
		if g.s.Chance(1, 2) {
			if c = g.callFor(ft, d-1); c != nil {
				c.Dot = false
				g.f("call of call result")
			}
		} else {
			n := g.s.Range(1, 3)
			a := &Expr{Op: EArr, T: tArr(ft)}
			for i := 0; i < n; i++ {
				a.Kids = append(a.Kids, g.fnValue(ft, d-2))
			}
			c = index(a, g.idx(nil, n, 1))
			g.f("call of fn element")
		}
		if c != nil {
			e := &Expr{Op: ECallV, T: t, Kids: []*Expr{c}}
			g.noCall++
			for _, a := range ft.Args {
				e.Kids = append(e.Kids, g.expr(a, d-1))
			}
			g.noCall--
			return e
		}
	}
	type cand struct {
		v *Var
		f *Field
		t *Ty
	}
	var cs []cand
	for _, v := range g.visible() {
		if v.T.K == KArr && v.lenMin > 0 && v.T.Args[0].K == KFn && same(v.T.Args[0].Ret, t) {
			cs = append(cs, cand{v, nil, v.T.Args[0]})
		}
		if v.T.K == KFn && same(v.T.Ret, t) {
			cs = append(cs, cand{v, nil, v.T})
		}
		if v.T.K == KNamed && !v.T.Def.IsEnum {
			m := v.T.Def.bind(v.T.Args)
			for _, f := range v.T.Def.Fields {
				ft := subst(f.T, m)
				if ft.K == KFn && same(ft.Ret, t) {
					f := f
					cs = append(cs, cand{v, &f, ft})
				}
			}
		}
	}
	if len(cs) == 0 {
		return nil
	}
	c := cs[g.s.N(len(cs))]
	var e *Expr
	if c.v.T.K == KArr {
		g.f("call of fn element")
		e = &Expr{Op: ECallV, T: t, Kids: []*Expr{index(g.useVar(c.v), g.idx(c.v, c.v.lenMin, 0))}}
		g.noCall++
		defer func() { g.noCall-- }()
	} else if c.f == nil {
		e = &Expr{Op: ECallV, T: t, Kids: []*Expr{g.useVar(c.v)}}
		g.f("call of fn variable")
	} else {
		e = &Expr{Op: ECallF, T: t, S: c.f.Name, Kids: []*Expr{g.useVar(c.v)}}
		g.f("call of fn field")
		g.noCall++ // the order of callee and argument evaluation is not defined
		defer func() { g.noCall-- }()
	}
	for _, a := range c.t.Args {
		e.Kids = append(e.Kids, g.expr(a, d-1))
	}
	return e
}

// A function value: named function, lambda, or variable
func (g *Gen) fnValue(t *Ty, d int) *Expr {
	over := g.allowOver
	g.allowOver = false
	if !hasParam(t) && g.s.Chance(1, 2) {
		var cs []*FnDecl
		for _, def := range g.types {
			if len(def.TPs) == 0 && t.Ret.Def == def {
				for _, f := range ctorFns(def) {
					if len(f.Params) <= 5 && same(f.ty(), t) {
						g.f("constructor as value")
						cs = append(cs, f)
					}
				}
			}
		}
		for _, f := range g.user {
			if len(f.TPs) == 0 && !f.recFuel && !f.NoVal && len(f.Params) <= 5 && same(f.ty(), t) && (over || len(g.overNm[f.Name]) <= 1) && !(g.pure > 0 && !f.Pure) {
				cs = append(cs, f)
			}
		}
		if len(cs) > 0 {
			g.f("fn reference")
			return &Expr{Op: EFnRef, T: t, Fn: cs[g.s.N(len(cs))]}
		}
	}
	return g.lambda(t, d)
}

// Constructors of a declaration as functions
func ctorFns(def *TypeDecl) []*FnDecl {
	mk := func(name string, fs []Field, b func(a []Value) Value) *FnDecl {
		f := &FnDecl{Name: name, Ret: def.ty(), Pure: true, Builtin: func(in *Interp, a []Value) Value { in.alc(1); return b(append([]Value(nil), a...)) }}
		for _, x := range fs {
			f.Params = append(f.Params, &Var{Name: x.Name, T: x.T})
		}
		return f
	}
	if !def.IsEnum {
		return []*FnDecl{mk(def.ctor(), def.Fields, func(a []Value) Value { return &StructV{def, a} })}
	}
	var out []*FnDecl
	for i, c := range def.Cases {
		i := i
		out = append(out, mk(c.Name, c.Fields, func(a []Value) Value { return &EnumV{def, i, a} }))
	}
	return out
}

func (g *Gen) lambda(t *Ty, d int) *Expr { return g.lambdaX(t, d, 0) }

// style: 0 any, 1 block only
func (g *Gen) lambdaX(t *Ty, d int, style int) *Expr {
	g.f("lambda")
	parent := g.sc.fn
	fs := &FnScope{parent: parent, lambda: true, tps: parent.tps, ret: t.Ret, caps: map[*Var]bool{}, pure: parent.pure || g.pure > 0}
	// Capture candidates
	vis := g.visible()
	for _, tp := range parent.tps { // a value of each type parameter has to stay reachable
		for _, v := range vis {
			if v.T.K == KParam && v.T.Name == tp {
				fs.caps[v] = true
				break
			}
		}
	}
	if g.s.Chance(1, 3) { // an array together with an index into it
		for _, a := range vis {
			if a.T.K != KArr || !g.s.Chance(1, 2) {
				continue
			}
			for _, i := range vis {
				if i.T.K == KInt && i.Const && (i.idxOf == a || i.known && i.val < int64(a.lenMin)) && len(fs.caps) < 4 {
					fs.caps[a], fs.caps[i] = true, true
					break
				}
			}
		}
	}
	n := g.s.Range(0, 4)
	for i := 0; i < n && len(vis) > 0 && len(fs.caps) < 5; i++ {
		fs.caps[vis[g.s.N(len(vis))]] = true
	}
	fd := &FnDecl{Name: "fn", Ret: t.Ret}
	fs.decl = fd
	sp, sn := g.pure, g.noCall
	g.noCall = 0
	if g.pure > 0 {
		fs.pure = true
	}
	pop := g.push(fs)
	for _, a := range t.Args {
		v := &Var{Name: g.varName("p"), T: a}
		fd.Params = append(fd.Params, g.declare(v))
	}
	if style == 0 && t.Ret.K != KNothing && (d <= 0 || g.s.Chance(1, 2)) {
		fd.Expr = g.expr(t.Ret, d-1)
		if d <= 0 {
			fd.Expr = fixTern(fd.Expr)
		}
	} else {
		fd.Body = g.body(t.Ret, d)
	}
	pop()
	g.pure, g.noCall = sp, sn
	return &Expr{Op: ELambda, T: t, Fn: fd}
}

func fixTern(e *Expr) *Expr { return e }

// ---------------------------------------------------------------------------------------------------------------------
// Statements

func (g *Gen) body(ret *Ty, d int) []*Stmt {
	n := g.s.Range(0, g.p.BodyStmts[1])
	if d <= 0 && n > 1 {
		n = 1
	}
	if g.block > 2 {
		n = 0
	}
	g.block++
	out := g.stmts(n, d)
	if ret.K != KNothing {
		out = append(out, g.finalReturn(ret, d)...)
	} else if g.s.Chance(1, 8) {
		out = append(out, &Stmt{Op: SReturn})
	}
	g.block--
	return out
}

// Ends a function: a plain return, or an if/match all of whose branches return
func (g *Gen) finalReturn(ret *Ty, d int) []*Stmt {
	if d > 1 && g.s.Chance(1, 5) {
		g.f("branches return")
		st := &Stmt{Op: SIf, Scope: g.sc, After: len(g.sc.vars)}
		k := g.s.Range(1, 2)
		for i := 0; i < k; i++ {
			st.Conds = append(st.Conds, g.expr(tBool, d-1))
		}
		for i := 0; i <= k; i++ {
			pop := g.push(nil)
			b := g.stmts(g.s.N(2), d-1)
			b = append(b, &Stmt{Op: SReturn, R: g.expr(ret, d-1)})
			pop()
			st.Blocks = append(st.Blocks, b)
		}
		return []*Stmt{st}
	}
	if d > 1 && g.s.Chance(1, 5) {
		if e := g.enumVar(); e != nil {
			g.f("match returns")
			return []*Stmt{g.match(e, d, func() []*Stmt {
				b := g.stmts(g.s.N(2), d-1)
				return append(b, &Stmt{Op: SReturn, R: g.expr(ret, d-1)})
			})}
		}
	}
	return []*Stmt{{Op: SReturn, R: g.expr(ret, d), Scope: g.sc, After: len(g.sc.vars)}}
}

func (g *Gen) enumVar() *Expr {
	var vs []*Var
	for _, v := range g.visible() {
		if v.T.K == KNamed && v.T.Def.IsEnum {
			vs = append(vs, v)
		}
	}
	if len(vs) == 0 {
		return nil
	}
	return g.useVar(vs[g.s.N(len(vs))])
}

func (g *Gen) match(e *Expr, d int, body func() []*Stmt) *Stmt {
	g.f("match")
	st := &Stmt{Op: SMatch, R: e, Scope: g.sc, After: len(g.sc.vars)}
	def := e.T.Def
	m := def.bind(e.T.Args)
	order := make([]int, len(def.Cases))
	for i := range order {
		order[i] = i
	}
	for i := len(order) - 1; i > 0; i-- { // order of cases does not matter
		j := i - g.s.N(i+1)
		order[i], order[j] = order[j], order[i]
	}
	for _, tag := range order {
		pop := g.push(nil)
		mc := &MatchCase{Tag: tag}
		for _, f := range def.Cases[tag].Fields {
			v := &Var{Name: g.varName("m"), T: subst(f.T, m)}
			mc.Vars = append(mc.Vars, g.declare(v))
		}
		mc.Body = body()
		pop()
		st.Cases = append(st.Cases, mc)
	}
	return st
}

func (g *Gen) stmts(n int, d int) []*Stmt {
	var out []*Stmt
	for i := 0; i < n; i++ {
		if g.size > g.maxSz {
			break
		}
		sc, k := g.sc, len(g.sc.vars)
		ss := g.stmt(d)
		for _, s := range ss {
			if s.Scope == nil {
				s.Scope, s.After = sc, k
			}
		}
		out = append(out, ss...)
	}
	return out
}

func (g *Gen) declStmt(t *Ty, d int) *Stmt {
	if t.K == KInt && g.p.Data > 0 && g.s.Chance(1, 4) {
		v := &Var{Name: g.varName("k"), T: t, Const: true, known: true, val: int64(g.s.N(4))}
		e := lit(v.val)
		g.declare(v)
		return &Stmt{Op: SDecl, Var: v, R: e}
	}
	e := g.expr(t, d)
	v := &Var{Name: g.varName("v"), T: t}
	if t.K == KArr && e.Op == EArr {
		v.lenMin = len(e.Kids)
		v.Const = true
	}
	g.declare(v)
	return &Stmt{Op: SDecl, Var: v, R: e}
}

func (g *Gen) stmt(d int) []*Stmt {
	p := g.p
	nested := g.block < p.BlockDepth && d > 0
	w := []int{
		3,          // 0 print
		5,          // 1 declaration
		3,          // 2 assign variable
		2 * p.Data, // 3 assign field or element
		0,          // 4 if
		0,          // 5 while
		0,          // 6 for range
		0,          // 7 for array
		0,          // 8 match
		p.Calls,    // 9 call for effect
		0,          // 10 early return
		0,          // 11 show
		0,          // 12 bytes set
		0,          // 13 closure with captures in all positions
	}
	if g.sc.fn.pure {
		w[0], w[3], w[9] = 0, 0, 0
	} else {
		w[11] = 1
		w[12] = p.BytesW
		if g.block <= 1 && !g.sc.fn.lambda {
			w[13] = p.Lab
		}
	}
	if nested {
		w[4], w[5], w[6], w[7], w[8] = 3*p.Flow, p.Flow, 2*p.Flow, 2*p.Flow, p.Flow*p.Data
	}
	if g.block > 1 && (g.sc.fn.ret != nil) {
		w[10] = 1
	}
	switch g.s.W(w...) {
	case 0:
		t := []*Ty{tInt, tBool, tStr}[g.s.W(4, 2, p.Strings)]
		e := g.expr(t, d)
		return []*Stmt{g.printStmt(e)}
	case 2:
		var vs []*Var
		for _, v := range g.visible() {
			if !v.Const {
				vs = append(vs, v)
			}
		}
		if len(vs) == 0 {
			break
		}
		v := vs[g.s.N(len(vs))]
		if v.fn != g.sc.fn {
			if g.sc.fn.pure {
				break
			}
			g.f("assign captured")
		}
		if g.sc.fn.decl != nil && g.sc.fn.decl.recFuel && len(g.sc.fn.decl.Params) > 0 && v == g.sc.fn.decl.Params[0] {
			break
		}
		return []*Stmt{{Op: SAssign, L: g.useVar(v), R: g.expr(v.T, d)}}
	case 3:
		if l := g.place(d); l != nil {
			return []*Stmt{{Op: SAssign, L: l, R: g.expr(l.T, d)}}
		}
	case 4:
		g.f("if")
		k := g.s.Range(1, 3)
		st := &Stmt{Op: SIf}
		for i := 0; i < k; i++ {
			st.Conds = append(st.Conds, g.expr(tBool, d-1))
		}
		nb := k + g.s.N(2)
		if nb == k && g.s.Chance(1, 3) {
			nb = k + 1
		}
		g.block++
		for i := 0; i < nb; i++ {
			st.Blocks = append(st.Blocks, g.blk(d-1))
		}
		g.block--
		return []*Stmt{st}
	case 5:
		g.f("while")
		v := &Var{Name: g.fresh("w"), T: tInt, Const: true}
		n := g.s.N(4)
		dcl := &Stmt{Op: SDecl, Var: v, R: lit(0)}
		g.declare(v)
		cond := bin("<", g.useVar(v), lit(int64(n)))
		if g.s.Chance(1, 3) {
			g.pure++
			cond = bin("and", cond, g.expr(tBool, d-1))
			g.pure--
		}
		g.block++
		pop := g.push(nil)
		b := []*Stmt{}
		inc := &Stmt{Op: SAssign, L: g.useVar(v), R: bin("+", g.useVar(v), lit(1))}
		if g.s.Chance(1, 2) {
			b = append(b, inc)
			b = append(b, g.stmts(g.s.Range(0, p.BodyStmts[1]), d-1)...)
		} else {
			b = append(b, g.stmts(g.s.Range(0, p.BodyStmts[1]), d-1)...)
			b = append(b, inc)
		}
		pop()
		g.block--
		return []*Stmt{dcl, {Op: SWhile, R: cond, Blocks: [][]*Stmt{b}, Scope: g.sc, After: len(g.sc.vars)}}
	case 6:
		g.f("for range")
		st := &Stmt{Op: SForRange}
		var bound, idxOf *Var
		switch g.s.W(3, 2, 2) {
		case 0:
			a := g.s.N(4)
			st.L, st.R = lit(int64(a)-1), lit(int64(a)-1+int64(g.s.N(5)))
			if st.R.I == 0 { // literal 0 as end means descending
				st.R.I = 1
			}
			if st.L.I < 0 && g.s.Chance(1, 2) {
				st.L.I = 0
			}
		case 1:
			g.f("for descending")
			st.L, st.R = lit(int64(g.s.N(5))), lit(0)
			st.After = -1
			if g.s.Chance(1, 2) {
				if vs := g.arrs(); len(vs) > 0 {
					bound = vs[g.s.N(len(vs))]
					st.L = length(g.useVar(bound))
					idxOf = bound
				}
			}
			if st.L.Op == EInt && st.L.I == 0 {
				st.L.I = 2
			}
		default:
			vs := g.arrs()
			st.L = lit(0)
			if len(vs) > 0 {
				bound = vs[g.s.N(len(vs))]
				st.R = length(g.useVar(bound))
				idxOf = bound
			} else {
				st.R = lit(3)
			}
		}
		if bound != nil { // whether bounds are evaluated again in each iteration is not defined
			defer func(c bool) { bound.Const = c }(bound.Const)
			bound.Const = true
		}
		g.block++
		pop := g.push(nil)
		st.Var = g.declare(&Var{Name: g.varName("i"), T: tInt, Const: true, idxOf: idxOf})
		st.Blocks = [][]*Stmt{g.stmts(g.s.Range(1, p.BodyStmts[1]), d-1)}
		pop()
		g.block--
		if st.After != -1 {
			st.After = 0
		}
		st.Scope = &Scope{parent: g.sc, plen: len(g.sc.vars), fn: g.sc.fn}
		return []*Stmt{st}
	case 7:
		g.f("for array")
		var e *Expr
		if vs := g.arrs(); len(vs) > 0 && g.s.Chance(1, 2) {
			e = g.useVar(vs[g.s.N(len(vs))])
		} else {
			e = g.expr(tArr(g.ty(1)), d-1)
		}
		g.block++
		pop := g.push(nil)
		v := g.declare(&Var{Name: g.varName("e"), T: e.T.Args[0]})
		b := g.stmts(g.s.Range(1, p.BodyStmts[1]), d-1)
		if v.T.K <= KStr && !g.sc.fn.pure && g.s.Chance(1, 2) {
			b = append(b, g.printStmt(g.useVar(v)))
		}
		pop()
		g.block--
		return []*Stmt{{Op: SForArr, Var: v, R: e, Blocks: [][]*Stmt{b}}}
	case 8:
		var e *Expr
		if e = g.enumVar(); e == nil || g.s.Chance(1, 3) {
			var t *Ty
			for _, def := range g.types {
				if def.IsEnum && g.s.Chance(1, 2) {
					t = g.inst(def, 1)
				}
			}
			if t == nil {
				t = opt(g.ty(1))
			}
			e = g.expr(t, d-1)
		}
		g.block++
		st := g.match(e, d, func() []*Stmt { return g.stmts(g.s.Range(0, p.BodyStmts[1]), d-1) })
		g.block--
		return []*Stmt{st}
	case 9:
		t := tNothing
		if g.s.Chance(1, 3) {
			t = g.ty(1)
		}
		if e := g.callFor(t, d); e != nil {
			if e.Dot && startsBad(e.Kids[0]) {
				e.Dot = false
			}
			return []*Stmt{{Op: SExpr, R: e}}
		}
		if e := g.callValue(tNothing, d); e != nil {
			return []*Stmt{{Op: SExpr, R: e}}
		}
	case 10:
		// early return, guarded so that code follows
		g.f("early return")
		st := &Stmt{Op: SIf, Conds: []*Expr{g.expr(tBool, d-1)}}
		r := &Stmt{Op: SReturn}
		if g.sc.fn.ret.K != KNothing {
			r.R = g.expr(g.sc.fn.ret, d-1)
		}
		st.Blocks = [][]*Stmt{{r}}
		return []*Stmt{st}
	case 11:
		if s := g.showAny(); s != nil {
			return []*Stmt{s}
		}
	case 13:
		return g.lab()
	case 12:
		for _, v := range g.visible() {
			if v.T.K == KBytes {
				i := g.s.N(4)
				ln := call(stdf("length", tBytes), g.useVar(v))
				set := call(stdf("set", tBytes, tInt, tInt), g.useVar(v), lit(int64(i)), g.expr(tInt, d-1))
				return []*Stmt{{Op: SIf, Conds: []*Expr{bin(">", ln, lit(int64(i)))}, Blocks: [][]*Stmt{{{Op: SExpr, R: set}}}}}
			}
		}
	}
	return []*Stmt{g.declStmt(g.ty(2), d)}
}

func (g *Gen) arrs() []*Var {
	var out []*Var
	for _, v := range g.visible() {
		if v.T.K == KArr {
			out = append(out, v)
		}
	}
	return out
}

func (g *Gen) blk(d int) []*Stmt {
	pop := g.push(nil)
	defer pop()
	return g.stmts(g.s.Range(0, g.p.BodyStmts[1]), d)
}

// Assignable field or element. The right hand side is evaluated before the target, so only pure code is used here.
func (g *Gen) place(d int) *Expr {
	g.pure++
	defer func() { g.pure-- }()
	type base struct {
		e      *Expr
		lenMin int
		v      *Var
	}
	var bs []base
	for _, v := range g.visible() {
		if v.T.K == KArr || v.T.K == KNamed && !v.T.Def.IsEnum && !v.T.Def.Std {
			bs = append(bs, base{g.useVar(v), v.lenMin, v})
		}
	}
	if d > 1 && g.s.Chance(1, 5) { // an object returned by a function
		for _, f := range g.user {
			if f.Pure && len(f.TPs) == 0 && !f.recFuel && (f.Ret.K == KArr || f.Ret.K == KNamed && !f.Ret.Def.IsEnum && !f.Ret.Def.Std) {
				c := g.callOf(f, map[string]*Ty{}, d-1)
				c.Dot = false
				lm := 0
				if g.s.Chance(1, 4) {
					lm = 1
				}
				bs = []base{{c, lm, nil}}
				g.f("write to call result")
				break
			}
		}
	}
	if len(bs) == 0 {
		return nil
	}
	b := bs[g.s.N(len(bs))]
	e := b.e
	steps := g.s.W(5, 3, 2) + 1
	for i := 0; i < steps; i++ {
		switch {
		case e.T.K == KArr:
			var base *Var
			if e.Op == EVar {
				base = e.Var
			}
			lm := b.lenMin
			if i > 0 || lm == 0 {
				// elements of unknown arrays: only inside a loop over the same array, or rarely without knowing the length
				ok := false
				if base != nil && base.Const {
					for _, v := range g.visible() {
						if v.idxOf == base && v.Const {
							e = index(e, g.useVar(v))
							g.f("variable index")
							ok = true
							break
						}
					}
				}
				if !ok {
					if g.s.Chance(1, 4) {
						e = index(e, lit(0)) // panics if empty, as the interpreter does
					} else {
						i = steps
					}
				}
				continue
			}
			e = index(e, g.idx(base, lm, d-1))
		case e.T.K == KNamed && !e.T.Def.IsEnum && !e.T.Def.Std && len(e.T.Def.Fields) > 0:
			m := e.T.Def.bind(e.T.Args)
			f := e.T.Def.Fields[g.s.N(len(e.T.Def.Fields))]
			e = field(e, f.Name, subst(f.T, m))
		default:
			i = steps
		}
	}
	if e == b.e {
		return nil
	}
	if e.Op == EField {
		g.f("field write")
	} else {
		g.f("element write")
	}
	return e
}

func (g *Gen) printStmt(e *Expr) *Stmt {
	if g.s.Chance(1, 8) && e.T.K != KBool {
		return &Stmt{Op: SExpr, R: g.printf(e)}
	}
	c := call(stdf("println", e.T), e)
	if !startsBad(e) && prec(e) >= 12 && g.s.Chance(1, 6) {
		c.Dot = true
	}
	return &Stmt{Op: SExpr, R: c}
}

// printf with matching arguments
func (g *Gen) printf(e *Expr) *Expr {
	f := &FnDecl{Name: "printf", Ret: tNothing, Std: true, NoDot: true}
	kinds := ""
	var fm strings.Builder
	args := []*Expr{nil}
	n := g.s.Range(1, 3)
	for i := 0; i < n; i++ {
		if i > 0 {
			e = g.expr([]*Ty{tInt, tStr}[g.s.N(2)], 1)
		}
		if e.T.K == KInt {
			if g.s.Chance(1, 3) {
				fm.WriteString("<%llx>")
				kinds += "x"
			} else {
				fm.WriteString("[%lli] ")
				kinds += "d"
			}
		} else {
			fm.WriteString("{%s}")
			kinds += "s"
		}
		args = append(args, e)
	}
	fm.WriteString("\n")
	args[0] = slit(fm.String())
	format := fm.String()
	f.Builtin = func(in *Interp, a []Value) Value {
		out := ""
		k := 0
		for i := 0; i < len(format); i++ {
			if format[i] == '%' {
				switch kinds[k] {
				case 'x':
					out += fmt.Sprintf("%x", uint64(a[k+1].(int64)))
					i += 3
				case 'd':
					out += itoa(a[k+1].(int64))
					i += 3
				case 's':
					out += a[k+1].(string)
					i++
				}
				k++
				continue
			}
			out += string(format[i])
		}
		in.print(out)
		return nil
	}
	g.f("printf")
	return call(f, args...)
}

// ---------------------------------------------------------------------------------------------------------------------
// Showing values of any type: generated functions show<n>(x: T, d: int)

func showable(t *Ty) bool {
	if hasParam(t) {
		return false
	}
	return true
}

func (g *Gen) showFn(t *Ty) *FnDecl {
	k := t.key()
	if f := g.shows[k]; f != nil {
		return f
	}
	x := &Var{Name: "x", T: t}
	d := &Var{Name: "d", T: tInt}
	f := &FnDecl{Name: fmt.Sprintf("show%d", len(g.shows)), Params: []*Var{x, d}, Ret: tNothing}
	g.shows[k] = f
	ux, ud := &Expr{Op: EVar, T: t, Var: x}, &Expr{Op: EVar, T: tInt, Var: d}
	next := bin("-", ud, lit(1))
	guard := &Stmt{Op: SIf, Conds: []*Expr{bin("<", ud, lit(1))}, Blocks: [][]*Stmt{{{Op: SExpr, R: call(stdf("println", tStr), slit("..."))}, {Op: SReturn}}}}
	sub := func(e *Expr) []*Stmt { return g.showExpr(e, next) }
	pr := func(s string) *Stmt { return &Stmt{Op: SExpr, R: call(stdf("println", tStr), slit(s))} }
	switch t.K {
	case KArr:
		e := &Var{Name: "e", T: t.Args[0]}
		f.Body = []*Stmt{guard, {Op: SExpr, R: call(stdf("println", tInt), length(ux))},
			{Op: SForArr, Var: e, R: ux, Blocks: [][]*Stmt{sub(&Expr{Op: EVar, T: e.T, Var: e})}}}
	case KBytes:
		i := &Var{Name: "i", T: tInt}
		ui := &Expr{Op: EVar, T: tInt, Var: i}
		f.Body = []*Stmt{{Op: SForRange, Var: i, L: lit(0), R: call(stdf("length", tBytes), ux),
			Blocks: [][]*Stmt{{{Op: SExpr, R: call(stdf("println", tInt), call(stdf("get", tBytes, tInt), ux, ui))}}}}}
	case KNamed:
		if t.Def == dMap {
			f.Body = []*Stmt{{Op: SExpr, R: call(stdf("println", tInt), field(ux, "size", tInt))}}
			break
		}
		if t.Def == dBuf {
			f.Body = []*Stmt{{Op: SExpr, R: call(stdf("println", tStr), call(stdf("toString", dBuf.ty()), ux))}}
			break
		}
		m := t.Def.bind(t.Args)
		f.Body = []*Stmt{guard}
		if !t.Def.IsEnum {
			for _, fl := range t.Def.Fields {
				f.Body = append(f.Body, sub(field(ux, fl.Name, subst(fl.T, m)))...)
			}
		} else {
			st := &Stmt{Op: SMatch, R: ux}
			for i, c := range t.Def.Cases {
				mc := &MatchCase{Tag: i, Body: []*Stmt{pr("#" + itoa(int64(i)))}}
				for j, fl := range c.Fields {
					v := &Var{Name: fmt.Sprintf("q%d", j), T: subst(fl.T, m)}
					mc.Vars = append(mc.Vars, v)
					mc.Body = append(mc.Body, sub(&Expr{Op: EVar, T: v.T, Var: v})...)
				}
				st.Cases = append(st.Cases, mc)
			}
			f.Body = append(f.Body, st)
		}
	case KFn:
		// apply to fixed arguments
		saved, sp, sn := g.sc, g.pure, g.noCall
		g.sc, g.pure, g.noCall = nil, 0, 0
		g.push(&FnScope{decl: f, ret: tNothing})
		e := &Expr{Op: ECallV, T: t.Ret, Kids: []*Expr{ux}}
		for _, a := range t.Args {
			e.Kids = append(e.Kids, g.minimal(a, -3))
		}
		g.sc, g.pure, g.noCall = saved, sp, sn
		f.Body = []*Stmt{guard}
		if t.Ret.K == KNothing {
			f.Body = append(f.Body, &Stmt{Op: SExpr, R: e})
		} else {
			r := &Var{Name: "r", T: t.Ret}
			f.Body = append(f.Body, &Stmt{Op: SDecl, Var: r, R: e})
			f.Body = append(f.Body, sub(&Expr{Op: EVar, T: r.T, Var: r})...)
		}
	}
	g.pr.Fns = append(g.pr.Fns, f)
	return f
}

func (g *Gen) showExpr(e *Expr, d *Expr) []*Stmt {
	switch e.T.K {
	case KInt, KBool, KStr:
		return []*Stmt{{Op: SExpr, R: call(stdf("println", e.T), e)}}
	case KNothing:
		return nil
	}
	return []*Stmt{{Op: SExpr, R: call(g.showFn(e.T), e, d)}}
}

func (g *Gen) showAny() *Stmt {
	var vs []*Var
	for _, v := range g.visible() {
		if showable(v.T) {
			vs = append(vs, v)
		}
	}
	if len(vs) == 0 {
		return nil
	}
	v := vs[g.s.N(len(vs))]
	ss := g.showExpr(g.useVar(v), lit(int64(g.s.Range(1, 3))))
	if len(ss) == 0 {
		return nil
	}
	g.f("show")
	return ss[0]
}

// ---------------------------------------------------------------------------------------------------------------------
// Functions and whole programs

func (g *Gen) params(n int, tps []string) []*Var {
	var out []*Var
	for i := 0; i < n; i++ {
		var t *Ty
		if i < len(tps) {
			t = tPar(tps[i])
		} else {
			t = g.ty(2)
		}
		out = append(out, &Var{Name: "", T: t})
	}
	return out
}

// Functions of the library to which a program may add overloads for its own types
var libOverloads = strings.Fields("exit panic assert gc append toString println print size get set put remove find filter map read open seek free calloc tag untag debug printf unsafe describe byte length reverse reduce contains mod foreach errnum getRuntime claralloc invokeDynamic panic exit entrypoint indexOutOfBounds array copyArray setElement noInit readInt writeByte typeInfoTable getFramePointer toTaggedInt")

// Types of the program without parameters
func (g *Gen) ownTypes() []*Ty {
	var r []*Ty
	for _, d := range g.types {
		if len(d.TPs) == 0 {
			r = append(r, d.ty())
		}
	}
	return r
}

func overKey(ps []*Var) string {
	var erase func(t *Ty) string
	erase = func(t *Ty) string {
		switch t.K {
		case KFn:
			return fmt.Sprintf("fn%d", len(t.Args))
		case KArr:
			return "[]" + erase(t.Args[0])
		case KNamed:
			s := t.Name
			for _, a := range t.Args {
				s += "," + erase(a)
			}
			return s
		}
		return t.Name
	}
	k := ""
	for _, p := range ps {
		k += erase(p.T) + ";"
	}
	return k
}

func (g *Gen) fnBody(f *FnDecl, rec []*FnDecl) {
	fs := &FnScope{decl: f, tps: f.TPs, pure: f.Pure, ret: f.Ret, rec: rec}
	pop := g.push(fs)
	for i, v := range f.Params {
		if v.Name == "" {
			v.Name = g.varName("p")
		}
		if f.recFuel && i == 0 {
			v.Const = true
		}
		g.declare(v)
	}
	d := g.p.Depth
	if rec == nil && f.Ret.K != KNothing && g.s.Chance(1, 4) {
		f.Expr = g.expr(f.Ret, d)
	} else {
		if rec != nil {
			n := f.Params[0]
			b := []*Stmt{}
			r := &Stmt{Op: SReturn}
			if f.Ret.K != KNothing {
				sr := fs.rec
				fs.rec = nil
				r.R = g.expr(f.Ret, 1)
				fs.rec = sr
			}
			b = append(b, r)
			f.Body = append(f.Body, &Stmt{Op: SIf, Conds: []*Expr{bin("<=", g.useVar(n), lit(0))}, Blocks: [][]*Stmt{b}})
		}
		f.Body = append(f.Body, g.body(f.Ret, d)...)
	}
	pop()
}

func (g *Gen) retTy() *Ty {
	if g.s.Chance(1, 6) {
		return tNothing
	}
	return g.ty(2)
}

func (g *Gen) addFn(f *FnDecl) {
	g.pr.Fns = append(g.pr.Fns, f)
	g.overNm[f.Name] = append(g.overNm[f.Name], f)
}

func (g *Gen) functions() {
	n := g.s.Range(g.p.Fns[0], g.p.Fns[1])
	maxP := g.p.MaxParams
	if maxP == 0 {
		maxP = 4
	}
	for i := 0; i < n; i++ {
		// Type expressions need a scope for type parameters
		base := &FnScope{}
		g.block = 1
		switch g.s.W(5, g.p.Generics, g.p.Overloads, g.p.Rec, g.p.Overloads/2, g.p.Overloads/2) {
		case 5: // generic function which takes overloaded functions
			ts := []*Ty{tInt, tStr, tBool}
			any3 := func() *Ty { return ts[g.s.N(3)] }
			ret, x, flip := any3(), any3(), g.s.Chance(1, 3)
			kn := g.fresh("o")
			var ks []*FnDecl
			var ok []*Ty
			seen := map[string]bool{}
			for n := g.s.Range(2, 5); n > 0; n-- {
				a, b := any3(), any3()
				if g.s.Chance(1, 2) {
					b = x
				}
				if seen[a.String()+" "+b.String()] {
					continue
				}
				seen[a.String()+" "+b.String()] = true
				k := &FnDecl{Name: kn, Ret: ret, Params: []*Var{{Name: "q", T: a}, {Name: "r", T: b}}}
				if flip {
					k.Params[0], k.Params[1] = k.Params[1], k.Params[0]
				}
				if same(b, x) {
					ok = append(ok, a)
				}
				g.fnBody(k, nil)
				ks = append(ks, k)
			}
			for _, k := range ks {
				g.addFn(k)
			}
			g.user = append(g.user, ks...)
			if len(ok) == 0 || len(ks) < 2 {
				break
			}
			h := &FnDecl{Name: g.fresh("h"), Ret: ret, TPs: []string{"T"}, over: ks, overT: ok}
			T := tPar("T")
			fv, xv, yv := &Var{Name: "fv", T: tFn(ret, T, x)}, &Var{Name: "xv", T: T}, &Var{Name: "yv", T: x}
			use := func(v *Var) *Expr { return &Expr{Op: EVar, T: v.T, Var: v} }
			h.Expr = &Expr{Op: ECallV, T: ret, Kids: []*Expr{use(fv), use(xv), use(yv)}}
			if flip {
				fv.T = tFn(ret, x, T)
				h.Expr.Kids[1], h.Expr.Kids[2] = h.Expr.Kids[2], h.Expr.Kids[1]
			}
			h.Params = []*Var{fv, xv, yv}
			for i := 2; i > 0; i-- {
				j := i - g.s.N(i+1)
				h.Params[i], h.Params[j] = h.Params[j], h.Params[i]
			}
			g.addFn(h)
			g.user = append(g.user, h)
		case 4: // overloaded functions which take overloaded functions
			ts := []*Ty{tInt, tStr, tBool}
			for i := 2; i > 0; i-- {
				j := i - g.s.N(i+1)
				ts[i], ts[j] = ts[j], ts[i]
			}
			ts = ts[:g.s.Range(2, 3)]
			pop := g.push(base)
			ret := []*Ty{tInt, tStr, tBool}[g.s.N(3)]
			pop()
			kn, hn := g.fresh("o"), g.fresh("h")
			var ks []*FnDecl
			for _, t := range ts {
				k := &FnDecl{Name: kn, Ret: ret, Params: []*Var{{Name: "q", T: t}}}
				g.fnBody(k, nil)
				ks = append(ks, k)
			}
			for _, k := range ks {
				g.addFn(k)
			}
			for i := len(ts) - 1; i > 0; i-- {
				j := i - g.s.N(i+1)
				ts[i], ts[j] = ts[j], ts[i]
			}
			swap, gen := g.s.Chance(1, 3), g.s.Chance(1, 3)
			var hs []*FnDecl
			for _, t := range ts {
				h := &FnDecl{Name: hn, Ret: ret, over: ks}
				if gen {
					h.Ret = tPar("T")
					h.TPs = []string{"T"}
				}
				fv, xv := &Var{Name: "fv", T: tFn(h.Ret, t)}, &Var{Name: "xv", T: t}
				h.Params = []*Var{fv, xv}
				if swap {
					h.Params = []*Var{xv, fv}
				}
				use := func(v *Var) *Expr { return &Expr{Op: EVar, T: v.T, Var: v} }
				h.Expr = &Expr{Op: ECallV, T: h.Ret, Kids: []*Expr{use(fv), use(xv)}}
				hs = append(hs, h)
			}
			for _, h := range hs {
				g.addFn(h)
			}
			g.user = append(g.user, ks...)
			g.user = append(g.user, hs...)
		case 0:
			f := &FnDecl{Name: g.fresh("f"), Pure: g.s.Chance(1, 3)}
			pop := g.push(base)
			f.Params = g.params(g.s.Range(0, maxP), nil)
			f.Ret = g.retTy()
			if f.Pure && f.Ret.K == KNothing {
				f.Ret = tInt
			}
			pop()
			g.fnBody(f, nil)
			g.addFn(f)
			g.user = append(g.user, f)
		case 1:
			f := &FnDecl{Name: g.fresh("g"), TPs: []string{"T", "U"}[:g.s.Range(1, 2)]}
			base.tps = f.TPs
			pop := g.push(base)
			f.Params = g.params(g.s.Range(len(f.TPs), len(f.TPs)+2), f.TPs)
			f.Ret = g.retTy()
			pop()
			g.fnBody(f, nil)
			g.addFn(f)
			g.user = append(g.user, f)
			g.f("generic fn")
		case 2:
			name := g.fresh("o")
			k := g.s.Range(2, 4)
			own := g.ownTypes()
			lib := false
			if len(own) > 0 && g.s.Chance(1, 3) { // further overloads of a function of the library
				if n := libOverloads[g.s.N(len(libOverloads))]; g.overNm[n] == nil {
					name, lib, k = n, true, g.s.Range(1, 3)
				}
			}
			seen := map[string]bool{}
			var fs []*FnDecl
			for j := 0; j < k; j++ {
				f := &FnDecl{Name: name, NoVal: lib && k == 1}
				pop := g.push(base)
				f.Params = g.params(g.s.Range(0, 3), nil)
				if lib {
					f.Params = append([]*Var{{T: own[g.s.N(len(own))]}}, f.Params...)
					g.f("overload of a library function")
				}
				f.Ret = g.retTy()
				pop()
				if key := overKey(f.Params); seen[key] {
					continue
				} else {
					seen[key] = true
				}
				g.fnBody(f, nil)
				fs = append(fs, f)
			}
			for _, f := range fs {
				g.addFn(f)
			}
			g.user = append(g.user, fs...)
			if len(fs) > 1 {
				g.f("overload set")
			}
		case 3:
			k := g.s.Range(1, 2)
			var fs []*FnDecl
			for j := 0; j < k; j++ {
				f := &FnDecl{Name: g.fresh("r"), recFuel: true}
				pop := g.push(base)
				f.Params = append([]*Var{{Name: "n", T: tInt, Const: true}}, g.params(g.s.Range(0, 3), nil)...)
				f.Ret = g.retTy()
				pop()
				fs = append(fs, f)
				g.addFn(f)
			}
			for _, f := range fs {
				g.fnBody(f, fs)
			}
			g.user = append(g.user, fs...)
		}
	}
}

func (g *Gen) mainFn() {
	f := &FnDecl{Name: "main", Ret: tNothing}
	fs := &FnScope{decl: f, ret: tNothing}
	pop := g.push(fs)
	g.block = 0
	lim := g.maxSz
	g.maxSz = g.size + lim
	n := g.s.Range(g.p.MainStmts[0], g.p.MainStmts[1])
	f.Body = g.stmts(n, g.p.Depth)
	// Call functions not used otherwise
	for _, u := range g.user {
		if g.s.Chance(2, 3) {
			e := g.callOf(u, map[string]*Ty{}, 2)
			if u.Ret.K == KNothing {
				e.Dot = false
				f.Body = append(f.Body, &Stmt{Op: SExpr, R: e, Scope: g.sc, After: len(g.sc.vars)})
			} else {
				v := g.declare(&Var{Name: g.fresh("v"), T: e.T})
				f.Body = append(f.Body, &Stmt{Op: SDecl, Var: v, R: e, Scope: g.sc, After: len(g.sc.vars) - 1})
			}
		}
	}
	for _, v := range g.visible() {
		if showable(v.T) && (g.p.DumpAll || g.s.Chance(1, 2)) {
			f.Body = append(f.Body, g.showExpr(g.useVar(v), lit(3))...)
		}
	}
	pop()
	g.pr.Fns = append(g.pr.Fns, f)
}

// Random order of top level declarations
func (g *Gen) order() {
	n := len(g.pr.Types) + len(g.pr.Fns)
	o := make([]int, n)
	for i := range o {
		o[i] = i
	}
	if g.s.Chance(1, 3) {
		for i := n - 1; i > 0; i-- {
			j := i - g.s.N(i+1)
			o[i], o[j] = o[j], o[i]
		}
	}
	g.pr.Order = o
}

func (g *Gen) program() *Program {
	g.typeDecls()
	g.functions()
	g.mainFn()
	g.order()
	return g.pr
}
