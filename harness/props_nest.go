package main

// C15: constructs nested in one another many times, around something valid or wrong.

import (
	"fmt"
	"strings"
)

var nestExprs = []string{"(%s)", "(%s)", "(%s)", "((%s))", "- (%s)", "~ (%s)", "not (%s)", "nI(%s)", "nG(%s)", "nO(%s)", "nO(nO(%s))", "[%s]", "[%s][0]", "(%s)[0]", "nA[%s]",
	"(true ? %s: 1)", "(true ? 1: %s)", "(%s ? 1: 2)", "1 + (%s)", "(%s) + 1", "(%s) == 1", "(%s).nI()", "(%s).nO()", "(%s).nG()", "Some(%s)", "Some«int»(%s)",
	"(fn(a: int) int = %s)(1)", "(fn(a: int) int {\n    return %s\n})(1)", "fn() = %s", "NBox(%s)", "NBox(%s).v", "nG«int»(%s)", "nI(1, %s)", "nP(%s, 1)", "nP(1, %s)",
	"%s, 1", "%s + 1", "1 + %s", "- %s", "1 < %s", "%s and true", "true ? %s: 1", "%s ? 1: 2", "%s.v", "%s.nI()", "%s[0]", "fn(%s) = 1", "nU(%s)", "nO(nU, %s)"}

var nestStmts = []string{"if true {\n%s\n}", "while false {\n%s\n}", "for i in 0 .. 2 {\n%s\n}", "for i in [1] {\n%s\n}", "if false {\n} else {\n%s\n}",
	"if false {\n} elseif true {\n%s\n}", "match nE {\ncase Some(v):\n%s\ncase None():\n}", "match nE {\ncase Some(v): v\n%s\n}", "f := fn() {\n%s\n}", "f := fn(a: int) int {\n%s\nreturn a\n}",
	"{\n%s\n}", "x := 1\n%s", "x = 1\n%s", "%s\nx := 2", "%s\nnU(x)", "if nU {\n%s\n}"}

var nestTypes = []string{"[]%s", "option«%s»", "list«%s»", "fn(%s) int", "fn() %s", "fn(int, %s)", "map«string, %s»", "result«%s, int»", "nBox«%s»", "nPair«%s, int»", "nPair«int, %s»", "nU«%s»"}

var nestCores = []string{"1", "1", "x", "\"s\"", "true", "[1]", "None«int»()", "", "+", "1 +", "1 1", ")", "(", "]", "}", "«", "fn", "nU", "nU(1)", "nI", "nO", "[]", "None()", "nI(", "nA.", "\"", "return", "4611686018427387904", "?", ":", ",", "\t", "{", "1 ? 2"}

func wrapMany(s *Src, ws []string, core string, n int) string {
	var use []string
	for k := s.Range(1, 3); k > 0; k-- {
		use = append(use, ws[s.N(len(ws))])
	}
	alternate := s.Chance(1, 2)
	var pre, post []string
	for i := 0; i < n; i++ {
		w := use[i%len(use)]
		if !alternate {
			w = use[i*len(use)/n]
		}
		k := strings.Index(w, "%s")
		pre = append(pre, w[:k])
		post = append(post, w[k+2:])
	}
	if s.Chance(1, 8) { // too few or too many ends
		if n > 1 && s.Chance(1, 2) {
			post[s.N(n)] = ""
		} else {
			post[s.N(n)] += s.Pick(")", "]", "}", "»", ",", ";")
		}
	}
	var b strings.Builder
	b.WriteString(strings.Join(pre, ""))
	b.WriteString(core)
	for i := n - 1; i >= 0; i-- {
		b.WriteString(post[i])
	}
	return b.String()
}

func nested(s *Src) (string, []string) {
	n := s.Range(2, 60)
	if s.Chance(1, 8) {
		n = s.Range(60, 300)
	}
	core := nestCores[s.N(len(nestCores))]
	var decl, stmt, kind string
	switch s.W(4, 2, 2) {
	case 0:
		kind = "nested expressions"
		stmt = s.Pick("x := %s", "println(%s)", "return %s", "%s", "nA = %s", "nU(%s)", "while %s {\n}", "for i in 0 .. %s {\n}", "match %s {\ncase Some(v): v\n}")
		stmt = strings.Replace(stmt, "%s", wrapMany(s, nestExprs, core, n), 1)
	case 1:
		kind = "nested statements"
		stmt = wrapMany(s, nestStmts, s.Pick("", "println(1)", "x := 1", core), n)
	default:
		kind = "nested types"
		if n > 40 {
			n = 40
		}
		t := wrapMany(s, nestTypes, s.Pick("int", "string", "nU", "nBox", "", "T", core), n)
		switch s.N(5) {
		case 0:
			decl = fmt.Sprintf("fn nF(a: %s) int = 1\n", t)
		case 1:
			decl = fmt.Sprintf("struct nStruct {\n    a: %s\n    b: int\n}\n", t)
		case 2:
			decl = fmt.Sprintf("enum nEnum {\n    NCase(a: %s)\n    NOther()\n}\n", t)
		case 3:
			stmt = fmt.Sprintf("x := None«%s»()", t)
		default:
			stmt = fmt.Sprintf("x := fn(a: %s) int = 1", t)
		}
	}
	decls := []string{"struct nBox«T» {\n    v: T\n}\n", "struct nPair«A, B» {\n    a: A\n    b: B\n}\n", "fn nI(a: int) int = a\n", "fn nG«T»(a: T) T = a\n",
		"fn nO(a: int) int = a\nfn nO(a: string) string = a\nfn nO«T»(a: option«T») option«T» = a\nfn nO(a: bool) bool = a\n", "fn nP«A, B»(a: A, b: B) A = a\n", decl}
	main := "fn main() {\n    nA := [1, 2]\n    nE := Some(1)\n    " + stmt + "\n}\n"
	if s.Chance(1, 2) {
		return strings.Join(decls, "") + main, []string{kind}
	}
	return main + strings.Join(decls, ""), []string{kind}
}
