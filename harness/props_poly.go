package main

import (
	"fmt"
	"strings"
)

// Generic functions, structs and enums whose types are arbitrary patterns over the type parameters (arrays, functions,
// options, generic structs and enums of them, nested). Values are put together from the arguments in one generic
// function and taken apart in another, so the output is known by construction.

type pat struct {
	k    string // T U int string bool arr fn option box duo alt get
	args []*pat // fn: parameters, then the result
}

func (p *pat) str(env map[string]string) string {
	a := func(i int) string { return p.args[i].str(env) }
	switch p.k {
	case "T", "U":
		return env[p.k]
	case "arr":
		return "[]" + a(0)
	case "fn":
		var ps []string
		for i := range p.args[:len(p.args)-1] {
			ps = append(ps, a(i))
		}
		return "fn(" + strings.Join(ps, ", ") + ") " + a(len(p.args)-1)
	case "option":
		return "option«" + a(0) + "»"
	case "box":
		return "gBox«" + a(0) + "»"
	case "get":
		return "gGet«" + a(0) + "»"
	case "duo":
		return "gDuo«" + a(0) + ", " + a(1) + "»"
	case "alt":
		return "gAlt«" + a(0) + ", " + a(1) + "»"
	}
	return p.k
}

func (p *pat) has(k string) bool {
	if p.k == k {
		return true
	}
	for _, a := range p.args {
		if a.has(k) {
			return true
		}
	}
	return false
}

func genPat(s *Src, d int) *pat {
	if d <= 0 {
		return &pat{k: s.Pick("T", "T", "T", "U", "U", "int", "string", "bool")}
	}
	sub := func() *pat { return genPat(s, d-1-s.N(2)) }
	switch s.W(2, 3, 5, 2, 2, 2, 2, 2) {
	case 0:
		return genPat(s, 0)
	case 1:
		return &pat{"arr", []*pat{sub()}}
	case 2:
		var as []*pat
		for n := s.W(3, 3, 1); n > 0; n-- {
			as = append(as, genPat(s, s.N(d)))
		}
		return &pat{"fn", append(as, sub())}
	case 3:
		return &pat{"option", []*pat{sub()}}
	case 4:
		return &pat{"box", []*pat{sub()}}
	case 5:
		return &pat{"get", []*pat{sub()}}
	case 6:
		return &pat{"duo", []*pat{sub(), sub()}}
	}
	return &pat{"alt", []*pat{sub(), sub()}}
}

// A value of a pattern: how it is written, and what its parts are
type pval struct {
	p    *pat
	expr string
	kids []*pval
	leaf string // T1 T2 U1 U2, or the text printed for a value of a basic type
	side int    // alt: which case
}

type polyGen struct {
	s    *Src
	n    int
	feat map[string]bool
}

func (g *polyGen) fresh(pre string) string {
	g.n++
	return fmt.Sprintf("%s%d", pre, g.n)
}

// env: the names of the types T and U in this place; src: expressions for T1 T2 U1 U2
func (g *polyGen) val(p *pat, env, src map[string]string) *pval {
	s := g.s
	v := &pval{p: p}
	one := func(a *pat) *pval {
		k := g.val(a, env, src)
		v.kids = append(v.kids, k)
		return k
	}
	g.feat["type "+p.k] = true
	switch p.k {
	case "T", "U":
		v.leaf = p.k + s.Pick("1", "2")
		v.expr = src[v.leaf]
	case "int":
		n := s.Range(0, 99)
		v.expr, v.leaf = fmt.Sprint(n), fmt.Sprint(n)
	case "string":
		n := s.Range(0, 99)
		v.expr, v.leaf = fmt.Sprintf(`"s%d"`, n), fmt.Sprintf("s%d", n)
	case "bool":
		v.expr = s.Pick("true", "false")
		v.leaf = v.expr
	case "arr":
		var es []string
		for n := s.Range(1, 3); n > 0; n-- {
			es = append(es, one(p.args[0]).expr)
		}
		v.expr = "[" + strings.Join(es, ", ") + "]"
	case "fn":
		var ps []string
		for _, a := range p.args[:len(p.args)-1] {
			ps = append(ps, g.fresh("q")+": "+a.str(env))
		}
		r := p.args[len(p.args)-1]
		k := one(r)
		if s.Chance(1, 3) {
			v.expr = fmt.Sprintf("fn(%s) %s { return %s }", strings.Join(ps, ", "), r.str(env), k.expr)
		} else {
			v.expr = fmt.Sprintf("fn(%s) %s = %s", strings.Join(ps, ", "), r.str(env), k.expr)
		}
	case "option":
		v.expr = "Some" + g.targs(p.args, env) + "(" + one(p.args[0]).expr + ")"
	case "box":
		v.expr = "GBox" + g.targs(p.args, env) + "(" + one(p.args[0]).expr + ")"
	case "get":
		v.expr = fmt.Sprintf("GGet%s(%d, fn() %s = %s)", g.targs(p.args, env), s.N(9), p.args[0].str(env), one(p.args[0]).expr)
	case "duo":
		v.expr = "GDuo" + g.targs(p.args, env) + "(" + one(p.args[0]).expr + ", " + one(p.args[1]).expr + ")"
	case "alt":
		v.side = s.N(2)
		v.expr = []string{"GL", "GR"}[v.side] + "«" + p.args[0].str(env) + ", " + p.args[1].str(env) + "»(" + one(p.args[v.side]).expr + ")"
	}
	return v
}

func (g *polyGen) targs(as []*pat, env map[string]string) string {
	if g.s.Chance(1, 2) {
		g.feat["inferred type args"] = true
		return ""
	}
	g.feat["explicit type args"] = true
	var ts []string
	for _, a := range as {
		ts = append(ts, a.str(env))
	}
	return "«" + strings.Join(ts, ", ") + "»"
}

// Takes x apart down to a leaf: the statements, the name of the leaf and the leaf
func (g *polyGen) take(v *pval, x string, env, src map[string]string) (stmts []string, name string, leaf *pval) {
	for {
		k := v
		var e string
		switch v.p.k {
		case "arr":
			i := g.s.N(len(v.kids))
			k, e = v.kids[i], fmt.Sprintf("%s[%d]", x, i)
		case "fn":
			var as []string
			for _, a := range v.p.args[:len(v.p.args)-1] {
				as = append(as, g.val(a, env, src).expr)
			}
			k, e = v.kids[0], x+"("+strings.Join(as, ", ")+")"
		case "option":
			k, e = v.kids[0], x+".orElse("+g.val(v.p.args[0], env, src).expr+")"
		case "box":
			k, e = v.kids[0], x+".item"
		case "get":
			k, e = v.kids[0], x+".make()"
		case "duo":
			i := g.s.N(2)
			k, e = v.kids[i], x+[]string{".l", ".r"}[i]
		case "alt":
			k = v.kids[0]
			d := g.val(v.p.args[v.side], env, src).expr
			e = []string{"gTakeL", "gTakeR"}[v.side] + g.targs(v.p.args, env) + "(" + x + ", " + d + ")"
		default:
			return stmts, x, v
		}
		n := g.fresh("e")
		stmts = append(stmts, n+" := "+e)
		v, x = k, n
	}
}

const polyLib = `struct gBox«T» {
    item: T
}
struct gGet«T» {
    n: int
    make: fn() T
}
struct gDuo«A, B» {
    l: A
    r: B
}
enum gAlt«A, B» {
    GL(a: A)
    GR(b: B)
}
fn gTakeL«A, B»(e: gAlt«A, B», d: A) A {
    match e {
        case GL(a): return a
        case GR(b): return d
    }
}
fn gTakeR«A, B»(e: gAlt«A, B», d: B) B {
    match e {
        case GL(a): return d
        case GR(b): return b
    }
}
struct gPoint {
    px: int
    py: string
}
`

// Types to use as arguments, how to write their nth value, and how to print a value of the type
var polyArgs = []struct{ t, v, show, want string }{
	{"int", "%d", "println(%s)", "%d"},
	{"int", "(4611686018427387000 + %d)", "println(%s)", "4611686018427387%03d"},
	{"string", `"v%d"`, "println(%s)", "v%d"},
	{"string", `"v".append("%d")`, "println(%s)", "v%d"},
	{"bool", "(%d < 5)", "println(%s)", "bool"},
	{"[]int", "[0, %d]", "println(%s[1])", "%d"},
	{"[]string", `["a", "b%d"]`, "println(%s[1])", "b%d"},
	{"option«string»", `Some("o%d")`, `println(%s.orElse("none"))`, "o%d"},
	{"gPoint", `GPoint(%d, "p")`, "println(%s.px)", "%d"},
	{"gBox«int»", "GBox(%d)", "println(%s.item)", "%d"},
	{"fn() int", "(fn() int = %d)", "println(%s())", "%d"},
	{"fn(int) int", "(fn(i: int) int = i + %d)", "println(%s(0))", "%d"},
	{"gAlt«int, string»", "GL«int, string»(%d)", "println(gTakeL(%s, 0))", "%d"},
	{"gDuo«[]int, string»", `GDuo([%d], "d")`, "println(%s.l[0])", "%d"},
}

func genPoly(s *Src) *Case {
	g := &polyGen{s: s, feat: map[string]bool{}}
	var decls []string
	var body, out strings.Builder
	decl := func(f string, a ...interface{}) { decls = append(decls, fmt.Sprintf(f, a...)) }
	say := func(f string, a ...interface{}) { fmt.Fprintf(&body, "    "+f+"\n", a...) }
	n := s.Range(2, 7)
	for i := 0; i < n; i++ {
		id := fmt.Sprint(i)
		p := genPat(s, s.Range(1, 3))
		if !p.has("T") && !p.has("U") {
			p = &pat{"arr", []*pat{{k: "T"}}}
		}
		gen := map[string]string{"T": "T", "U": "U"}
		v := g.val(p, gen, map[string]string{"T1": "t1", "T2": "t2", "U1": "u1", "U2": "u2"})
		mk := fmt.Sprintf("fn mk%s«T, U»(t1: T, t2: T, u1: U, u2: U) %s", id, p.str(gen))
		if s.Chance(1, 2) {
			decl("%s = %s", mk, v.expr)
		} else {
			decl("%s {\n    r := %s\n    return r\n}", mk, v.expr)
		}
		ps := p.str(gen)
		if s.Chance(1, 3) {
			decl("struct hold%s«T, U» {\n    n: int\n    f: %s\n    m: T\n}", id, ps)
			g.feat["generic struct"] = true
		} else {
			decl("enum en%s«T, U» {\n    C%s(a: int, p: %s)\n    D%s(t: T, u: U)\n}", id, id, ps, id)
			decl("fn un%s«T, U»(e: en%s«T, U», d: %s) %s {\n    match e {\n        case C%s(a, p): return p\n        case D%s(t, u): return d\n    }\n}", id, id, ps, ps, id, id)
			g.feat["generic enum"] = true
		}
		isStruct := strings.HasPrefix(decls[len(decls)-1], "struct")
		// two generic functions which take values apart
		type use struct {
			leaf *pval
			ty   string
		}
		var uses []use
		for j := 0; j < 2; j++ {
			st, name, leaf := g.take(v, "p", gen, map[string]string{"T1": "t", "T2": "t", "U1": "u", "U2": "u"})
			uses = append(uses, use{leaf, leaf.p.k})
			b := strings.Join(st, "\n    ")
			if b != "" {
				b += "\n    "
			}
			decl("fn use%s%s«T, U»(p: %s, t: T, u: U) %s {\n    %sreturn %s\n}", id, "ab"[j:j+1], ps, leaf.p.str(gen), b, name)
		}
		decl("fn same%s«T, U»(p: %s) %s = p", id, ps, ps)
		decl("fn swap%s«T, U»(u1: U, u2: U, t1: T, t2: T) %s = mk%s%s(t1, t2, u1, u2)", id, ps, id, g.targs([]*pat{{k: "T"}, {k: "U"}}, gen))
		// uses at one or two pairs of types
		for r := s.Range(1, 2); r > 0; r-- {
			at, au := polyArgs[s.N(len(polyArgs))], polyArgs[s.N(len(polyArgs))]
			conc := map[string]string{"T": at.t, "U": au.t}
			var nums [4]int
			var vs [4]string
			for k := range nums {
				nums[k] = s.N(10)
				a := at
				if k >= 2 {
					a = au
				}
				vs[k] = fmt.Sprintf(a.v, nums[k])
			}
			src := map[string]string{"T1": vs[0], "T2": vs[1], "U1": vs[2], "U2": vs[3]}
			x := g.fresh("x")
			ta := g.targs([]*pat{{k: "T"}, {k: "U"}}, conc)
			if s.Chance(1, 3) {
				say("%s := swap%s%s(%s, %s, %s, %s)", x, id, ta, vs[2], vs[3], vs[0], vs[1])
			} else {
				say("%s := mk%s%s(%s, %s, %s, %s)", x, id, ta, vs[0], vs[1], vs[2], vs[3])
			}
			if s.Chance(1, 2) {
				y := g.fresh("x")
				c := p.str(conc)
				switch s.N(5) {
				case 0:
					say("%s := same%s«%s, %s»(%s)", y, id, at.t, au.t, x)
				case 1:
					say("%s := Some(%s).orElse(%s)", y, x, x)
				case 2:
					say("%s := [%s, %s][1]", y, x, x)
				case 3:
					say("%s := GBox«%s»(%s).item", y, c, x)
				default:
					if isStruct {
						say("%s := Hold%s%s(1, %s, %s).f", y, id, g.targs([]*pat{{k: "T"}, {k: "U"}}, conc), x, vs[0])
						if !p.has("U") { // U is not known from the arguments
							text := body.String()
							at2 := strings.LastIndex(text, "Hold")
							body.Reset()
							body.WriteString(text[:at2] + fmt.Sprintf("Hold%s«%s, %s»(1, %s, %s).f\n", id, at.t, au.t, x, vs[0]))
						}
					} else {
						say("%s := un%s(C%s«%s, %s»(1, %s), %s)", y, id, id, at.t, au.t, x, x)
					}
				}
				x = y
			}
			show := func(leaf *pval, name string) {
				switch leaf.p.k {
				case "T", "U":
					a, k := at, 0
					if leaf.p.k == "U" {
						a, k = au, 2
					}
					k += int(leaf.leaf[1] - '1')
					say(a.show, name)
					if a.want == "bool" {
						fmt.Fprintf(&out, "%v\n", nums[k] < 5)
					} else {
						fmt.Fprintf(&out, a.want+"\n", nums[k])
					}
				default:
					say("println(%s)", name)
					out.WriteString(leaf.leaf + "\n")
				}
			}
			for j, u := range uses {
				if s.Chance(1, 2) {
					nm := g.fresh("r")
					say("%s := use%s%s%s(%s, %s, %s)", nm, id, "ab"[j:j+1], g.targs([]*pat{{k: "T"}, {k: "U"}}, conc), x, vs[s.N(2)], vs[2+s.N(2)])
					show(u.leaf, nm)
				}
			}
			st, name, leaf := g.take(v, x, conc, src)
			for _, l := range st {
				say("%s", l)
			}
			show(leaf, name)
		}
	}
	decls = append(decls, polyLib, "fn main() {\n"+body.String()+"}")
	for i := len(decls) - 1; i > 0; i-- {
		j := s.N(i + 1)
		decls[i], decls[j] = decls[j], decls[i]
	}
	text := strings.Join(decls, "\n") + "\n"
	res := Result{Out: out.String()}
	var cl []string
	for f := range g.feat {
		cl = append(cl, f)
	}
	c := &Case{Text: text, Size: len(text), Classes: cl, Evals: n, Nontrivial: true}
	c.Run = func(w *Worker) Outcome { return w.checkProgram(text, res) }
	return c
}
