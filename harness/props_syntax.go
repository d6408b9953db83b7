package main

import (
	"sort"
	"strings"
	"time"
)

// C28: text outside the grammar is rejected, text inside it is never rejected for its syntax. The oracle is a
// recogniser for the grammar, written as a plain recursive descent without any error recovery.

type recogniser struct {
	ks  []string
	i   int
	max int // furthest token looked at
}

type notGrammar struct{}

func (r *recogniser) peek() string {
	if r.i > r.max {
		r.max = r.i
	}
	if r.i < len(r.ks) {
		return r.ks[r.i]
	}
	return "eof"
}
func (r *recogniser) is(ks ...string) bool {
	p := r.peek()
	for _, k := range ks {
		if p == k {
			return true
		}
	}
	return false
}
func (r *recogniser) eat(k string) bool {
	if r.is(k) {
		r.i++
		return true
	}
	return false
}
func (r *recogniser) need(k string) {
	if !r.eat(k) {
		panic(notGrammar{})
	}
}
func (r *recogniser) list(end string, item func()) { // items separated by commas, up to and including end
	if r.eat(end) {
		return
	}
	item()
	for r.eat(",") {
		item()
	}
	r.need(end)
}
func (r *recogniser) typeList() { r.need("«"); r.list("»", r.typ) }
func (r *recogniser) typ() {
	switch {
	case r.eat("fn"):
		r.need("(")
		r.list(")", r.typ)
		if r.is("fn", "ident", "[") {
			r.typ()
		}
	case r.eat("["):
		r.need("]")
		r.typ()
	case r.eat("ident"):
		if r.is("«") {
			r.typeList()
		}
	default:
		panic(notGrammar{})
	}
}
func (r *recogniser) param()  { r.need("ident"); r.need(":"); r.typ() }
func (r *recogniser) params() { r.need("("); r.list(")", r.param) }
func (r *recogniser) fnRest(anon bool) {
	if r.is("«") {
		r.typeList()
	}
	r.params()
	if r.is("fn", "[", "ident") {
		r.typ()
	}
	switch {
	case r.is("{"):
		r.block()
	case r.eat("="):
		r.expr()
	case anon:
		panic(notGrammar{})
	}
}
func (r *recogniser) block() {
	r.need("{")
	for !r.eat("}") {
		r.stmt()
	}
}

var exprStarts = []string{"int", "string", "ident", "true", "false", "not", "~", "(", "fn", "-", "["}

func (r *recogniser) stmt() {
	switch {
	case r.eat("return"):
		if r.is(exprStarts...) {
			r.expr()
		}
	case r.eat("while"):
		r.expr()
		r.block()
	case r.eat("for"):
		r.need("ident")
		r.need("in")
		r.expr()
		if r.eat("..") {
			r.expr()
		}
		r.block()
	case r.eat("if"):
		r.expr()
		r.block()
		for r.eat("elseif") {
			r.expr()
			r.block()
		}
		if r.eat("else") {
			r.block()
		}
	case r.eat("match"):
		r.expr()
		r.need("{")
		for !r.eat("}") {
			r.need("case")
			r.need("ident")
			r.need("(")
			r.list(")", func() { r.need("ident") })
			r.need(":")
			for !r.is("case", "}") {
				r.stmt()
			}
		}
	case r.is(exprStarts...):
		r.expr()
		if r.eat("=") || r.eat(":=") {
			r.expr()
		}
	default:
		panic(notGrammar{})
	}
}
func (r *recogniser) expr() {
	for {
		for r.eat("not") || r.eat("~") || r.eat("-") {
		}
		r.primary()
	postfix:
		for {
			switch {
			case r.eat("("):
				r.list(")", r.expr)
			case r.is("«"):
				r.typeList()
				r.need("(")
				r.list(")", r.expr)
			case r.eat("["):
				r.expr()
				r.need("]")
			default:
				break postfix
			}
		}
		switch {
		case r.eat("?"):
			r.expr()
			r.need(":")
		case r.is(".", "+", "-", "*", "/", "<<", ">>", "&", "|", "^", ">", ">=", "<", "<=", "==", "or", "and"):
			r.i++
		default:
			return
		}
	}
}
func (r *recogniser) primary() {
	switch {
	case r.eat("ident"), r.eat("int"), r.eat("string"), r.eat("true"), r.eat("false"):
	case r.eat("("):
		r.expr()
		r.need(")")
	case r.eat("["):
		r.list("]", r.expr)
	case r.eat("fn"):
		r.fnRest(true)
	case r.eat("type"):
		r.need("(")
		r.typ()
		r.need(")")
	default:
		panic(notGrammar{})
	}
}
func (r *recogniser) file() {
	for !r.is("eof") {
		if r.eat("#") {
			r.need("[")
			r.need("ident")
			for r.eat(",") {
				r.need("ident")
			}
			r.need("]")
		}
		switch {
		case r.eat("fn"):
			r.need("ident")
			r.fnRest(false)
		case r.eat("struct"):
			r.need("ident")
			if r.is("«") {
				r.typeList()
			}
			r.need("{")
			for !r.eat("}") {
				r.param()
			}
		case r.eat("enum"):
			r.need("ident")
			if r.is("«") {
				r.typeList()
			}
			r.need("{")
			for !r.eat("}") {
				r.need("ident")
				r.params()
			}
		default:
			panic(notGrammar{})
		}
	}
}

// verdicts: "in" the grammar, "out" of it, "lex" a lexical error, "open" not decided
func grammatical(text string) (verdict string) {
	lt, exact := refLex(text)
	if !exact {
		return "open"
	}
	r := &recogniser{}
	open := false
	for _, t := range lt {
		switch t.K {
		case "err":
			return "lex"
		case "space", "eol", "comment":
		default:
			r.ks = append(r.ks, t.K)
			open = open || t.maybeErr
		}
	}
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(notGrammar); !ok {
				panic(e)
			}
			verdict = "out"
		}
	}()
	r.file()
	if open {
		return "open"
	}
	return "in"
}

var structural = []string{"(", ")", "{", "}", "[", "]", "«", "»", ",", ":", "=", ":=", ".", "..", "?", "#", "+", "-", "*", "/", "==", "<", "<<", "&", "|", "~",
	"fn", "return", "if", "elseif", "else", "true", "not", "and", "or", "struct", "while", "for", "in", "enum", "match", "case", "type", "x", "0", `""`}

const stmtPhrases, exprPhrases = 20, 34

var phrases = []string{
	// after statements
	"else { }", "else { a = 9 }", "elseif true { }", "else { } elseif true { }", "if true { }", "while false { }", "for i9 in 0 .. 3 { }", "case None ( ) :", "case Some ( x9 ) :", "case One ( ) :",
	"match 1 { }", "return", "return 1", "= 1", "# [ ExtRet ]", "fn f99 ( ) { }", "struct s99 { a : int }", "enum e99 { E99 ( ) }", "{ }", "{ 1 }",
	// in expressions, lists and types
	": int", ":= 1", "( )", "( 1 )", "( , )", "[ 0 ]", "[ ]", "« int »", "« »", "« int » ( 1 )", ", 1", ", x9 : int", "1 ,", ".. 3", "in [ 1 ]", "? 1 : 2", "? 1", ": 2",
	"fn ( ) int", "fn ( ) = 1", "fn ( ) { }", ") (", "not", "- -", "+ 1", "1 +", ". x", ". length", "x9 : int", "type ( int )", "and true", "true and", "1 2", "x9 y9",
	// anywhere
	"# [ ]", "# ExtRet", "} {", "x9 = 1", "x9 := 1", "or", "\"a\" \"b\"", "// comment", "// comment\n", ";", "->", "=>", "!", "!= 1", "% 2", "&&", "||", "++", "+= 1", "\t", "'a'", "@", "$", "`a`", "/* c */", "1.5", "0b1", "1_000", "0x",
	"nil", "null", "break", "continue", "var x9 = 1", "let x9 = 1"}

// One small edit of a well-formed text, of the kind a lenient parser might let pass
func slip(s *Src, toks []string) ([]string, string) {
	var ix []int
	for i, t := range toks {
		if !isLayout(t) {
			ix = append(ix, i)
		}
	}
	if len(ix) == 0 {
		return toks, "none"
	}
	if s.Chance(2, 3) { // stay within one line: all lines are alike, however many tokens they have; later lines come first
		var lines [][]int
		last := -1
		for _, i := range ix {
			if last < 0 || strings.Contains(strings.Join(toks[last:i], ""), "\n") {
				lines = append(lines, nil)
			}
			lines[len(lines)-1] = append(lines[len(lines)-1], i)
			last = i
		}
		if k := len(lines); k > 4 && s.Chance(1, 2) {
			lines = lines[k-4:]
		}
		ix = lines[s.N(len(lines))]
	}
	// positions of one kind of token are as likely as those of another
	pick := func(ok func(t string) bool) int {
		by := map[string][]int{}
		var names []string
		for _, i := range ix {
			t := toks[i]
			if !ok(t) {
				continue
			}
			k := t
			if c := t[0]; c == '"' {
				k = `""`
			} else if c >= '0' && c <= '9' {
				k = "0"
			} else if c == '_' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' {
				k = "x"
				for _, w := range lexKeywords {
					if t == w {
						k = w
					}
				}
			}
			if by[k] == nil {
				names = append(names, k)
			}
			by[k] = append(by[k], i)
		}
		if len(names) == 0 {
			return ix[s.N(len(ix))]
		}
		l := by[names[s.N(len(names))]]
		return l[s.N(len(l))]
	}
	any := func(string) bool { return true }
	put := func(i int, drop int, with ...string) []string {
		var r []string
		r = append(r, toks[:i]...)
		for _, t := range with {
			r = append(r, " ", t, " ")
		}
		if len(with) == 0 {
			r = append(r, " ")
		}
		return append(r, toks[i+drop:]...)
	}
	switch s.W(6, 4, 3, 4, 2, 1, 1, 4, 8) {
	case 8: // a whole phrase where it does not belong, most often after a bracket
		ok := any
		if s.Chance(3, 4) {
			ok = func(t string) bool { return strings.Contains("(){}[]«»,:", t) }
		}
		i := pick(ok)
		ph := phrases[s.N(len(phrases))]
		if s.Chance(2, 3) {
			switch t := toks[i]; {
			case t == "}" || t == "{":
				ph = phrases[s.N(stmtPhrases)]
			case t == ")" || t == "]" || t[0] == '"' || t[0] >= '0' && t[0] <= '9' || t == "(" || t == "[" || t == "," || t == "«" || t == "»":
				ph = phrases[stmtPhrases+s.N(exprPhrases)]
			}
		}
		if s.Chance(1, 3) { // a phrase of the text itself: up to two brackets and what they enclose
			a := ix[s.N(len(ix))]
			var kw []int
			for _, j := range ix {
				switch toks[j] {
				case "else", "elseif", "case", "if", "while", "for", "match", "return", "in", "=", ":=", "fn", ":", "?", "..", "struct", "enum", "#":
					kw = append(kw, j)
				}
			}
			if len(kw) > 0 && s.Chance(4, 5) {
				a = kw[s.N(len(kw))]
			}
			b, d, groups := a, 0, s.Range(1, 2)
			for ; b < len(toks) && b < a+60; b++ {
				if t := toks[b]; t == "(" || t == "{" || t == "[" || t == "«" {
					d++
				} else if t == ")" || t == "}" || t == "]" || t == "»" {
					if d--; d < 0 {
						break
					}
					if d == 0 {
						if groups--; groups == 0 || t == "}" {
							b++
							break
						}
					}
				}
			}
			ph = strings.Join(toks[a:b], "")
			if s.Chance(1, 2) { // next to itself
				return put(b-1, 1, toks[b-1], ph), "phrase again"
			}
		}
		return put(i, 1, toks[i], ph), "phrase"
	case 0:
		i := pick(any)
		return put(i, 1), "delete"
	case 1:
		i := pick(any)
		t := structural[s.N(len(structural))]
		return put(i, 0, t), "insert"
	case 2:
		i := pick(any)
		return put(i, 0, toks[i]), "repeat"
	case 3:
		i := pick(any)
		return put(i, 1, structural[s.N(len(structural))]), "replace"
	case 4: // brackets of the wrong kind
		i := pick(func(t string) bool { return strings.Contains("(){}[]«»", t) })
		return put(i, 1, s.Pick("(", ")", "{", "}", "[", "]", "«", "»")), "bracket"
	case 5: // the text ends early
		i := ix[s.N(len(ix))]
		return append([]string{}, toks[:i]...), "truncate"
	case 6: // something after a complete declaration or at the end
		t := structural[s.N(len(structural))]
		if s.Chance(1, 2) {
			return append(append([]string{}, toks...), " ", t, "\n"), "append"
		}
		return append([]string{t, " "}, toks...), "prepend"
	default: // separators before a closing or after an opening bracket, or in place of one another
		i := pick(func(t string) bool { return strings.Contains("(){}[]«»,:", t) })
		t := s.Pick(",", ",", ":", ".", "..", "=", "?")
		switch toks[i] {
		case ",", ":":
			if s.Chance(1, 2) {
				return put(i, 1, t), "separator"
			}
			return put(i, 0, t), "separator"
		case "(", "{", "[", "«":
			return put(i+1, 0, t), "separator"
		}
		return put(i, 0, t), "separator"
	}
}

// Small well-typed phrases, one or more for every construct of the grammar
var zooStmts = []string{
	"if a == 1 { a = 2 }", "if true { a = 3 } else { a = 4 }", "if a == 1 { a = 2 } elseif b { a = 3 } else { a = 4 }", "if not b { } elseif true { } elseif a < 3 { }",
	"while a < 3 { a = a + 1 }", "while false { }", "for i in 0 .. 3 { a = a + i }", "for i in a .. a + 2 { }", "for s in [ 1 , 2 ] { a = s }", "for s in arr { }",
	"match o { case Some ( v ) : a = v case None ( ) : a = 0 }", "match o { case None ( ) : case Some ( v ) : }", "match Two ( 1 , \"q\" ) { case One ( ) : a = 1 case Two ( p , q ) : a = p }",
	"c1 := a * ( b ? 1 : 2 )", "c2 := - a + ~ 1 - 3", "c3 := not b and true or false", "c4 := arr [ 1 ]", "arr [ 0 ] = 5", "pt . x = 3", "c5 := pt . x + arr . length", "c6 := [ 1 , 2 , 3 ]", "c7 := [ \"a\" ]",
	"c8 := fn ( p : int , q : int ) int = p + q", "c9 := fn ( ) { a = 1 }", "c10 := fn ( p : fn ( int ) int ) int { return p ( 1 ) }", "c11 := twice ( 3 )", "c12 := 3 . twice ( )", "c13 := ident « int » ( 4 )", "c14 := None « string » ( )",
	"c15 := P ( 1 , [ 2 ] )", "printf ( \"%d %s\\n\" , a , \"t\" )", "c16 := a << 1 >> 1 & 3 | 4 ^ 5", "c17 := a >= 1", "c18 := ( 1 + 2 ) * 3 / 1", "c19 := b ? \"x\" : b ? \"y\" : \"z\"", "pick ( a , b )", "a", "c20 := arr [ arr . length - 1 ]", "c21 := Pair9 « int , bool » ( 1 , true )", "c22 := 0xff - 0x0",
	"c23 := ident ( fn ( z : int ) int = z ) ( 1 )", "c24 := a == a ? 1 : 2"}

var zooDecls = []string{
	"struct p { x : int y : [ ] int }", "enum e { One ( ) Two ( a : int , b : string ) }", "fn twice ( n : int ) int = n * 2", "fn ident « T » ( t : T ) T = t", "struct pair9 « A , B » { l : A r : B }",
	"fn pick ( i : int , b : bool ) nothing { }", "fn hof ( f : fn ( int , bool ) string , g : fn ( ) ) int { return 1 }", "fn arrs ( a : [ ] [ ] int ) [ ] int { return a [ 0 ] }", "fn gen « T , U » ( t : T , o : option « pair9 « T , U » » ) option « fn ( T ) U » { return None « fn ( T ) U » ( ) }",
	"fn strlen9 ( s : string ) int", "# [ RawValues ] fn puts9 ( s : string ) int", "# [ RawValues , ExtRet ] fn put8 ( s : int ) nothing", "fn nothing9 ( ) { return }", "enum e2 « T » { Z ( ) S ( t : T , f : fn ( T ) T ) }", "struct empty9 { }", "fn ret9 ( ) [ ] string { return [ \"a\" , \"b\" ] }"}

func zoo(s *Src) []string {
	var b strings.Builder
	line := func(d string) {
		b.WriteString(d)
		b.WriteString(" \n")
	}
	const base = 6 // the statements need these
	for _, d := range zooDecls[:base] {
		line(d)
	}
	for n, at := s.N(3), s.N(len(zooDecls)-base); n > 0; n-- {
		line(zooDecls[base+at%(len(zooDecls)-base)])
		at += 1
	}
	line("fn main ( ) { a := 1 b := true arr := [ 1 , 2 , 3 ] pt := P ( 1 , arr ) o := Some ( 1 )")
	for n, at := s.Range(1, 3), s.N(len(zooStmts)); n > 0; n-- {
		line(zooStmts[at%len(zooStmts)])
		at += 7
	}
	line("}")
	lt, _ := refLex(b.String())
	var toks []string
	for _, t := range lt {
		toks = append(toks, t.V)
	}
	return toks
}

func genC28(s *Src) *Case {
	var toks []string
	var cls []string
	lexed := func(text string) {
		lt, _ := refLex(text)
		for _, t := range lt {
			toks = append(toks, t.V)
		}
	}
	switch s.W(4, 2, 2, 8) {
	case 3:
		toks = zoo(s)
		cls = append(cls, "of a program with a phrase of each kind")
	case 0:
		p := baseProf()
		p.Types, p.Fns, p.MainStmts, p.OptW = [2]int{0, 2}, [2]int{0, 3}, [2]int{1, 5}, 1
		g := newGen(s, p)
		pr := g.safeProgram()
		if pr == nil {
			return nil
		}
		lexed(programText(pr))
		cls = append(cls, "of a generated program")
	case 1:
		f := corpus[s.N(len(corpus))]
		for n := s.Range(1, 4); n > 0; n-- {
			toks = append(toks, f[s.N(len(f))]...)
			toks = append(toks, "\n")
		}
		lexed("fn main() {\n}\n")
		cls = append(cls, "of corpus declarations")
	default:
		u := &soup{s: s}
		for n := s.Range(1, 4); n > 0; n-- {
			u.size = 0
			ts := u.decl()
			for i, t := range ts {
				if i > 0 && t != "\n" && ts[i-1] != "\n" && needSpace(ts[i-1], t) {
					toks = append(toks, " ")
				}
				toks = append(toks, t)
			}
			toks = append(toks, "\n")
		}
		lexed("fn main() {\n}\n")
		cls = append(cls, "of a text from the grammar")
	}
	for n := s.W(1, 12, 3); n > 0; n-- {
		var c string
		if s.Chance(5, 6) {
			toks, c = slip(s, toks)
		} else {
			toks, c = mutate(s, toks)
		}
		cls = append(cls, c)
	}
	text := strings.Join(toks, "")
	v := grammatical(text)
	if v == "open" {
		return nil
	}
	cls = append(cls, map[string]string{"in": "in the grammar", "out": "outside the grammar", "lex": "lexical error"}[v])
	sort.Strings(cls)
	c := &Case{Text: text + "// " + v + "\n", Size: len(text), Nontrivial: v != "in" || len(text) > 40, Evals: 1, Classes: dedup(cls)}
	c.Run = func(w *Worker) Outcome {
		x, bin := w.Compile(text)
		if x.Wall {
			return Outcome{Skip: "compiler wall clock limit"}
		}
		if v != "in" {
			return mustReject(x, bin, "text outside the grammar")
		}
		if strings.Contains(ansi.ReplaceAllString(x.Out+x.Err, ""), "syntax error") {
			return Outcome{Fail: "a text in the grammar was rejected for its syntax: " + clip(x.Out, 800)}
		}
		return Outcome{}
	}
	return c
}

func init() {
	reg(&Prop{ID: "C28", Rule: "one to two small edits (a token deleted, inserted, repeated or replaced, a bracket of the wrong kind, a stray or misplaced separator, a text cut short) of generated well-typed programs, of corpus declarations and of texts drawn from the grammar; non-trivial: the text is outside the grammar, or longer than 40 bytes",
		Quick: 8000, Thorough: 200000, Budget: [2]time.Duration{45 * time.Second, 13 * time.Minute}, Gen: genC28})
}
