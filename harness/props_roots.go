package main

// C07: values of every type, in every place where nothing else refers to them while something is allocated.

import (
	"fmt"
	"strings"
)

type rootTy struct {
	name string
	t    string
	mk   func(k int) string
	show string // statement on x
	want func(k int) string
}

const rootLib = `struct rPlain {
    a: int
    b: int
}
struct rText {
    n: int
    s: string
}
struct rLate {
    a: int
    b: bool
    c: int
    s: []string
}
enum rShape {
    RNone()
    RInt(n: int)
    RText2(n: int, s: string)
    RDeep(a: int, b: int, s: []string)
}
struct rBox«T» {
    v: T
}
enum rEither«A, B» {
    RLeft(a: A)
    RRight(b: B)
}
fn rBytes(k: int) bytes {
    b := Bytes(3)
    b.set(1, k)
    return b
}
fn rJunk() string {
    a := "j".append("unk")
    b := [a, "q".append(a), "r".append(a)]
    c := Bytes(3)
    d := [1, 2, 3]
    return b[2]
}
fn rNum() int = rJunk().length - 5
fn rText3(k: int) string = "t".append(toString(k))
fn rThunk(s: string) fn() = fn() {
    println(s)
}
fn rThunk2(s: string) fn() {
    f := fn() {
        j := rJunk()
        println(s)
    }
    return f
}
fn rGetter(s: string) fn() string = fn() string = s
fn rCounter(s: string) fn() int = fn() int = s.length
fn rAdder(s: string) fn(string) string = fn(x: string) string = s.append(x)
fn rTaker(s: string) fn(string) = fn(x: string) {
    println(s.append(x))
}
fn rMaker(s: string) fn(int) fn() string = fn(n: int) fn() string = fn() string = s.append(toString(n))
fn rShowShape(x: rShape) {
    match x {
        case RNone(): println("none")
        case RInt(n): println(n)
        case RText2(n, s): println(s)
        case RDeep(a, b, s): println(s[0])
    }
}
fn rSame«T»(x: T) T = x
fn rFirst«T, U»(x: T, y: U) T = x
fn rSecond«T, U»(x: T, y: U) U = y
fn rCall«T, U»(f: fn(T) U, x: T) U = f(x)
`

func num(k int) string { return fmt.Sprint(k) }
func txt(k int) string { return fmt.Sprintf("t%d", k) }
func f1(f string) func(int) string {
	return func(k int) string { return strings.ReplaceAll(f, "$", fmt.Sprint(k)) }
}

var rootTys = []rootTy{
	{"string", "string", f1("rText3($)"), "println(x)", txt},
	{"string2", "string", f1("\"t\".append(toString($))"), "println(x)", txt},
	{"bytes", "bytes", f1("rBytes($)"), "println(x.get(1))", num},
	{"ints", "[]int", f1("[7, $]"), "println(x[1])", num},
	{"strings", "[]string", f1("[\"a\", rText3($)]"), "println(x[1])", txt},
	{"bools", "[]bool", f1("array(3, $ > 0)"), "println(x[2])", func(k int) string { return fmt.Sprint(k > 0) }},
	{"arrays", "[][]string", f1("[[rText3($)], [\"a\"]]"), "println(x[0][0])", txt},
	{"plain", "rPlain", f1("RPlain(3, $)"), "println(x.b)", num},
	{"text", "rText", f1("RText(3, rText3($))"), "println(x.s)", txt},
	{"late", "rLate", f1("RLate(3, true, 4, [rText3($)])"), "println(x.s[0])", txt},
	{"none", "rShape", f1("RNone()"), "rShowShape(x)", f1("none")},
	{"int case", "rShape", f1("RInt($)"), "rShowShape(x)", num},
	{"text case", "rShape", f1("RText2(1, rText3($))"), "rShowShape(x)", txt},
	{"deep case", "rShape", f1("RDeep(1, 2, [rText3($)])"), "rShowShape(x)", txt},
	{"thunk", "fn()", f1("rThunk(rText3($))"), "x()", txt},
	{"thunk2", "fn()", f1("rThunk2(rText3($))"), "x()", txt},
	{"getter", "fn() string", f1("rGetter(rText3($))"), "println(x())", txt},
	{"counter", "fn() int", f1("rCounter(rText3($))"), "println(x())", func(k int) string { return num(len(txt(k))) }},
	{"adder", "fn(string) string", f1("rAdder(rText3($))"), "println(x(\"z\"))", f1("t$z")},
	{"taker", "fn(string)", f1("rTaker(rText3($))"), "x(\"z\")", f1("t$z")},
	{"maker", "fn(int) fn() string", f1("rMaker(rText3($))"), "rq := x(5)\n        println(rq())", f1("t$5")},
	{"box of string", "rBox«string»", f1("RBox(rText3($))"), "println(x.v)", txt},
	{"box of int", "rBox«int»", f1("RBox($)"), "println(x.v)", num},
	{"box of thunk", "rBox«fn() string»", f1("RBox(rGetter(rText3($)))"), "rq := x.v\n        println(rq())", txt},
	{"box of box", "rBox«rBox«[]string»»", f1("RBox(RBox([rText3($)]))"), "println(x.v.v[0])", txt},
	{"option of string", "option«string»", f1("Some(rText3($))"), "println(orElse(x, \"?\"))", txt},
	{"option of int", "option«int»", f1("Some($)"), "println(orElse(x, -1))", num},
	{"list", "list«string»", f1("Element(rText3($), Empty«string»())"), "match x {\n            case Element(v, rest): println(v)\n            case Empty(): println(\"empty\")\n        }", txt},
	{"list of lists", "list«list«int»»", f1("Element(Element($, Empty«int»()), Empty«list«int»»())"), "match x {\n            case Element(v, rest): match v {\n                case Element(w, rest2): println(w)\n                case Empty(): println(\"empty\")\n            }\n            case Empty(): println(\"empty\")\n        }", num},
	{"either", "rEither«int, string»", f1("RRight«int, string»(rText3($))"), "match x {\n            case RLeft(a): println(a)\n            case RRight(b): println(b)\n        }", txt},
	{"either2", "rEither«[]string, int»", f1("RLeft«[]string, int»([rText3($)])"), "match x {\n            case RLeft(a): println(a[0])\n            case RRight(b): println(b)\n        }", txt},
	{"map", "map«string, string»", f1("rMap($)"), "println(x.orElse(\"k\", \"?\"))", txt},
	{"boxes", "[]rBox«string»", f1("[RBox(rText3($))]"), "println(x[0].v)", txt},
	{"thunks", "[]fn() string", f1("[rGetter(rText3($))]"), "rq := x[0]\n        println(rq())", txt},
}

const rootMap = `fn rMap(k: int) map«string, string» {
    m := NewHashMap«string, string»(fnv1a, Equals)
    old := m.put("k", rText3(k))
    return m
}
`

func genRoots(s *Src) *Case {
	var decls, body, out strings.Builder
	feat := map[string]bool{}
	say := func(f string, a ...interface{}) { fmt.Fprintf(&body, "    "+f+"\n", a...) }
	useMap := false
	n := s.Range(4, 14)
	if s.Chance(1, 3) { // memory of the same shape nearby
		say("keep := [rText3(1), rText3(2)]")
	}
	for i := 0; i < n; i++ {
		r := rootTys[s.N(len(rootTys))]
		if r.name == "map" {
			useMap = true
		}
		k := 10 + s.N(80)
		k2 := 10 + s.N(80)
		m, m2 := r.mk(k), r.mk(k2)
		want := func(ks ...int) {
			for _, k := range ks {
				out.WriteString(r.want(k) + "\n")
			}
		}
		show := strings.ReplaceAll(r.show, "        ", "    ")
		id := fmt.Sprintf("r%d", i)
		// fn ID(x: T): shows x after an allocation
		decl := func(f string, a ...interface{}) { fmt.Fprintf(&decls, f+"\n", a...) }
		j := s.Pick("j := rJunk()", "j := [rJunk()]", "rJunk()", "j := rThunk(rJunk())", "j := RText(1, rJunk())")
		decl("fn %s(x: %s) {\n    %s\n    %s\n}", id, r.t, j, show)
		place := s.N(25)
		feat[fmt.Sprintf("place %d", place)] = true
		feat[r.name] = true
		switch place {
		case 0: // variable
			say("%sx := %s", id, m)
			say("%sj := rJunk()", id)
			say("%s(%sx)", id, id)
			want(k)
		case 1: // argument with others behind it
			np := s.Range(2, 6)
			at := s.N(np - 1)
			var ps, as []string
			for p := 0; p < np; p++ {
				switch {
				case p == at:
					ps, as = append(ps, "x: "+r.t), append(as, m)
				case s.Chance(1, 2) || p == np-1:
					ps, as = append(ps, fmt.Sprintf("p%d: string", p)), append(as, s.Pick("rJunk()", "rText3(3)", "\"c\".append(\"d\")"))
				case s.Chance(1, 3):
					ps, as = append(ps, fmt.Sprintf("p%d: %s", p, r.t)), append(as, m2)
				default:
					ps, as = append(ps, fmt.Sprintf("p%d: int", p)), append(as, s.Pick("5", "rNum()"))
				}
			}
			decl("fn %sm(%s) {\n    %s\n    %s\n}", id, strings.Join(ps, ", "), j, show)
			say("%sm(%s)", id, strings.Join(as, ", "))
			want(k)
		case 2: // parameter
			say("%s(%s)", id, m)
			want(k)
		case 3: // captured
			decl("fn %sc() fn() {\n    x := %s\n    return fn() {\n        rJunk()\n        %s(x)\n    }\n}", id, m, id)
			say("%sf := %sc()", id, id)
			say("%sj := rJunk()", id)
			say("%sf()", id)
			want(k)
		case 4: // elements of a literal
			say("%sa := [%s, %s, %s]", id, m, m2, m)
			say("%sj := rJunk()", id)
			say("%s(%sa[0])", id, id)
			say("%s(%sa[1])", id, id)
			want(k, k2)
		case 5: // field
			decl("struct %sh {\n    n: int\n    x: %s\n    t: string\n}", id, fieldType(r.t))
			say("%sv := R%sh(4, %s, rJunk())", id, id[1:], m)
			say("%sj := rJunk()", id)
			say("%s(%sv.x)", id, id)
			want(k)
		case 6: // payload
			decl("enum %se {\n    C%sa(n: int)\n    C%sb(x: %s, t: string)\n}", id, id, id, r.t)
			decl("fn %sm(e: %se) {\n    match e {\n        case C%sa(n): println(n)\n        case C%sb(x, t):\n            rJunk()\n            %s(x)\n    }\n}", id, id, id, id, id)
			say("%sm(C%sb(%s, rJunk()))", id, id, m)
			want(k)
		case 7: // loop over a new array
			say("for x in [%s, %s] {", m, m2)
			say("    rJunk()")
			say("    %s(x)", id)
			say("}")
			want(k, k2)
		case 8: // returned
			decl("fn %sr() %s {\n    x := %s\n    %s\n    return x\n}", id, r.t, m, j)
			say("%s(%sr())", id, id)
			want(k)
		case 9: // assigned to an element whose index allocates
			say("%sa := [%s, %s]", id, m2, m2)
			say("%sa[rJunk().length - 4] = %s", id, m) // "rjunk" has five letters
			say("%sj := rJunk()", id)
			say("%s(%sa[1])", id, id)
			say("%s(%sa[0])", id, id)
			want(k, k2)
		case 10: // assigned in a loop
			say("%sx := %s", id, m2)
			say("for i in 0 .. 3 {")
			say("    rJunk()")
			say("    %sx = %s", id, m)
			say("}")
			say("%s(%sx)", id, id)
			want(k)
		case 11: // through a generic function
			say("%s(rSame(rFirst(%s, rJunk())))", id, m)
			want(k)
		case 12: // second of a generic function
			say("%s(rSecond(rJunk(), rFirst(%s, rText3(4))))", id, m)
			want(k)
		case 13: // conditional expression
			decl("fn %sm(x: %s, t: string) {\n    %s\n    %s\n}", id, r.t, j, show)
			say("%sm(rNum() == 0 ? %s : %s, rJunk())", id, m, m2)
			want(k)
		case 14: // receiver
			decl("fn %sm(x: %s, t: string) {\n    %s\n    %s\n}", id, r.t, j, show)
			say("%sx := %s", id, m)
			say("%sx.%sm(rJunk())", id, id)
			want(k)
		case 15: // element of a new array, the index allocates
			say("%s([%s, %s][rNum()])", id, m, m2)
			want(k)
		case 16: // in an option
			say("%sx := Some(%s)", id, m)
			say("rJunk()")
			say("match %sx {", id)
			say("    case Some(v):")
			say("        rJunk()")
			say("        %s(v)", id)
			say("    case None(): println(\"no\")")
			say("}")
			want(k)
		case 17: // nested calls
			decl("fn %sm(x: %s, y: %s, t: string) %s {\n    %s\n    %s\n    return x\n}", id, r.t, r.t, r.t, j, strings.ReplaceAll(show, "x", "x"))
			say("%s(%sm(%s, %sm(%s, %s, rJunk()), rJunk()))", id, id, m, id, m2, m)
			want(k2, k, k)
		case 18: // recursion
			decl("fn %sm(n: int, x: %s) {\n    if n > 0 {\n        %sm(n - 1, %s)\n    }\n    %s\n}", id, r.t, id, m2, show)
			say("%sm(3, %s)", id, m)
			want(k2, k2, k2, k)
		case 19: // function value with more arguments
			np := s.Range(1, 4)
			ps, as := []string{"x: " + r.t}, []string{m}
			for p := 0; p < np; p++ {
				ps, as = append(ps, fmt.Sprintf("p%d: string", p)), append(as, "rJunk()")
			}
			say("%sb := rText3(6)", id)
			say("%sf := fn(%s) {", id, strings.Join(ps, ", "))
			say("    rJunk()")
			if s.Chance(1, 2) {
				say("    %sq := %sb.length", id, id)
			}
			say("    %s(x)", id)
			say("}")
			say("%sf(%s)", id, strings.Join(as, ", "))
			want(k)
		case 20: // in a box, through a call
			decl("struct %sh«T» {\n    x: T\n    t: string\n}", id)
			decl("fn %sg«T»(h: %sh«T», t: string) T = h.x", id, id)
			say("%s(%sg(R%sh(%s, rJunk()), rJunk()))", id, id, id[1:], m)
			want(k)
		case 21: // captured with others
			decl("fn %sc(a: string, x: %s, n: int) fn() {\n    y := %s\n    return fn() {\n        rJunk()\n        %s(x)\n        println(a)\n        %s(y)\n        println(n)\n    }\n}", id, r.t, m2, id, id)
			say("%sf := %sc(rText3(8), %s, 9)", id, id, m)
			say("rJunk()")
			say("%sf()", id)
			out.WriteString(r.want(k) + "\nt8\n" + r.want(k2) + "\n9\n")
		case 22: // field assigned through a new object
			decl("struct %sh {\n    x: %s\n}", id, fieldType(r.t))
			decl("fn %sk(h: %sh) %sh {\n    rJunk()\n    return h\n}", id, id, id)
			say("%sv := R%sh(%s)", id, id[1:], m2)
			say("%sk(%sv).x = %s", id, id, m)
			say("rJunk()")
			say("%s(%sv.x)", id, id)
			want(k)
		case 23: // in a block
			say("if rNum() == 0 {")
			say("    %sx := %s", id, m)
			say("    if rNum() == 0 {")
			say("        %sy := %s", id, m2)
			say("        rJunk()")
			say("        %s(%sy)", id, id)
			say("    }")
			say("    rJunk()")
			say("    %s(%sx)", id, id)
			say("}")
			want(k2, k)
		default: // in a list, walked
			say("%sl := Element(%s, Element(%s, Empty«%s»()))", id, m, m2, r.t)
			say("rJunk()")
			say("%sl.foreach(%s)", id, id)
			want(k, k2)
		}
	}
	text := rootLib
	if useMap {
		text += rootMap
	}
	text += decls.String() + "fn main() {\n" + body.String() + "}\n"
	res := Result{Out: out.String()}
	var cl []string
	for f := range feat {
		cl = append(cl, f)
	}
	c := &Case{Text: text, Size: len(text), Classes: cl, Evals: n, Nontrivial: true}
	c.Run = func(w *Worker) Outcome { return w.checkProgram(text, res) }
	return c
}

// A function type without result swallows the next field's name, as line ends do not count.
func fieldType(t string) string {
	if strings.HasSuffix(t, ")") {
		return t + " nothing"
	}
	return t
}
