package main

// C15: any source text. Mutated programs, expression and type substitution in generated programs, and programs drawn from the
// grammar without regard to types.

import (
	"embed"
	"fmt"
	"os"
	"sort"
	"strings"
	"time"
)

//go:embed corpus/*.clara
var corpusFS embed.FS

var corpus [][][]string // file -> top-level declaration -> tokens (including layout)

func init() {
	es, _ := corpusFS.ReadDir("corpus")
	var names []string
	for _, e := range es {
		names = append(names, e.Name())
	}
	sort.Strings(names)
	for _, n := range names {
		b, _ := corpusFS.ReadFile("corpus/" + n)
		toks, _ := refLex(string(b))
		var decls [][]string
		var cur []string
		depth := 0
		for _, t := range toks {
			if t.K == "eof" || t.K == "err" {
				break
			}
			if depth == 0 && (t.K == "fn" || t.K == "struct" || t.K == "enum") && len(cur) > 0 && startsDecl(cur) {
				decls = append(decls, cur)
				cur = nil
			}
			switch t.K {
			case "{", "(":
				depth++
			case "}", ")":
				depth--
			}
			if t.K == "comment" {
				continue
			}
			cur = append(cur, t.V)
		}
		if len(cur) > 0 {
			decls = append(decls, cur)
		}
		corpus = append(corpus, decls)
	}
}

func startsDecl(ts []string) bool { // the declaration begun so far is complete enough to end: it ends with a line break or }
	for i := len(ts) - 1; i >= 0; i-- {
		t := ts[i]
		if strings.Trim(t, " ") == "" {
			continue
		}
		return t[0] == '\n' || t[0] == '\r' || t == "}"
	}
	return false
}

var vocab = []string{"fn", "return", "if", "elseif", "else", "true", "false", "not", "and", "or", "struct", "while", "for", "in", "enum", "match", "case", "type",
	"(", ")", "{", "}", "[", "]", "«", "»", "#", "?", ",", ":=", ":", "+", "-", "*", "~", "^", "|", "&", ">>", ">=", ">", "<<", "<=", "<", "..", ".", "==", "=", "/",
	"0", "1", "-1", "0x10", "4611686018427387904", "\"\"", "\"a\"", "int", "bool", "string", "bytes", "nothing", "pointer", "x", "a", "main", "length", "println",
	"option", "Some", "None", "list", "Cons", "Nil", "map", "T", "unsafe", "[]int", "RawValues", "//x\n", "\n", "println(1)\n", "return\n", "getRuntime()", "{}", "()", "[]", "fn() = 1", "fn(x: int) int = x", "fn() { }"}

func isLayout(t string) bool { return strings.Trim(t, " \r\n") == "" || strings.HasPrefix(t, "//") }

// Token level mutation
func mutate(s *Src, toks []string) ([]string, string) {
	var ix []int // positions of real tokens
	for i, t := range toks {
		if !isLayout(t) {
			ix = append(ix, i)
		}
	}
	if len(ix) == 0 {
		return append(toks, vocab[s.N(len(vocab))]), "insert"
	}
	at := ix[s.N(len(ix))]
	tok := func() string {
		if s.Chance(2, 5) {
			return toks[ix[s.N(len(ix))]]
		}
		return vocab[s.N(len(vocab))]
	}
	cp := func(parts ...[]string) []string {
		var r []string
		for _, p := range parts {
			r = append(r, p...)
		}
		return r
	}
	// end of the balanced group starting at i, or i+1
	group := func(i int) int {
		open := toks[i]
		var cl string
		switch open {
		case "(":
			cl = ")"
		case "{":
			cl = "}"
		case "[":
			cl = "]"
		case "«":
			cl = "»"
		default:
			return i + 1
		}
		d := 0
		for j := i; j < len(toks); j++ {
			if toks[j] == open {
				d++
			} else if toks[j] == cl {
				d--
				if d == 0 {
					return j + 1
				}
			}
		}
		return i + 1
	}
	sp := []string{" "}
	lineMut := false
	switch s.W(4, 4, 3, 2, 2, 2, 2, 1, 1, 3, 3, 3) {
	case 0:
		return cp(toks[:at], toks[at+1:]), "delete token"
	case 1:
		return cp(toks[:at], sp, []string{tok()}, sp, toks[at+1:]), "replace token"
	case 2:
		return cp(toks[:at], sp, []string{tok()}, sp, toks[at:]), "insert token"
	case 3:
		b := ix[s.N(len(ix))]
		r := cp(toks)
		r[at], r[b] = r[b], r[at]
		return r, "swap tokens"
	case 4:
		e := at + 1 + s.N(6)
		if e > len(toks) {
			e = len(toks)
		}
		return cp(toks[:at], sp, toks[e:]), "delete range"
	case 5:
		e := at + 1 + s.N(12)
		if e > len(toks) {
			e = len(toks)
		}
		return cp(toks[:e], sp, toks[at:e], sp, toks[e:]), "duplicate range"
	case 6:
		b := ix[s.N(len(ix))]
		e := b + 1 + s.N(8)
		if e > len(toks) {
			e = len(toks)
		}
		return cp(toks[:at], sp, toks[b:e], sp, toks[at:]), "copy range"
	case 7:
		return cp(toks[:at]), "truncate"
	case 8:
		c := s.Pick("\t", "$", "!", "%", "@", "'", "\"", "\\", ";", "`", "\x00", "\xff", "\u00a0", "😀", "\r", "\ufeff", "»", "_", "9", "é")
		t := toks[at]
		k := s.N(len(t) + 1)
		return cp(toks[:at], []string{t[:k] + c + t[k:]}, toks[at+1:]), "insert character"
	case 9: // a bracketed group disappears or is emptied
		var gs []int
		for _, i := range ix {
			switch toks[i] {
			case "(", "{", "[", "«":
				gs = append(gs, i)
			}
		}
		if len(gs) == 0 {
			return cp(toks[:at], toks[at+1:]), "delete token"
		}
		g := gs[s.N(len(gs))]
		e := group(g)
		switch s.N(4) {
		case 0:
			return cp(toks[:g], sp, toks[e:]), "delete group"
		case 1:
			if e-1 > g {
				return cp(toks[:g+1], toks[e-1:]), "empty group"
			}
			return cp(toks[:g], sp, toks[e:]), "delete group"
		case 2:
			return cp(toks[:e], toks[g:e], toks[e:]), "duplicate group"
		}
		o := gs[s.N(len(gs))]
		return cp(toks[:g], toks[o:group(o)], toks[e:]), "replace group"
	case 10:
		lineMut = true
	}
	k := s.W(1, 1, 1)
	if !lineMut { // a name is misspelled, here or everywhere
		var ids []int
		for _, i := range ix {
			c := toks[i][0]
			if (c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z') && (i == 0 || len(toks[i]) > 1) {
				ids = append(ids, i)
			}
		}
		if len(ids) == 0 {
			return cp(toks[:at], toks[at+1:]), "delete token"
		}
		i := ids[s.N(len(ids))]
		n := toks[i]
		to := s.Pick(n+"x", n[:1], n+n, strings.ToUpper(n[:1])+n[1:], strings.ToLower(n[:1])+n[1:], n[1:]+"q", strings.ToUpper(n))
		r := cp(toks)
		r[i] = to
		if k == 2 {
			for _, j := range ids {
				if toks[j] == n {
					r[j] = to
				}
			}
			return r, "rename"
		}
		return r, "misspell"
	}
	// a whole line moves, disappears or is doubled
	var lines [][]string
	cur := []string{}
	for _, t := range toks {
		cur = append(cur, t)
		if strings.Contains(t, "\n") {
			lines = append(lines, cur)
			cur = []string{}
		}
	}
	lines = append(lines, cur)
	a, b := s.N(len(lines)), s.N(len(lines))
	var r []string
	for i, l := range lines {
		if i == a && k != 1 {
			continue
		}
		r = append(r, l...)
		if i == b && k > 0 {
			r = append(r, lines[a]...)
		}
	}
	return r, []string{"delete line", "duplicate line", "move line"}[k]
}

// ---------------------------------------------------------------------------------------------------------------------

type slots struct {
	es []**Expr
	ts []**Ty
	ss []*[]*Stmt
	fs []*FnDecl
}

func collect(pr *Program) *slots {
	sl := &slots{}
	var ex func(p **Expr)
	var st func(b *[]*Stmt)
	fn := func(f *FnDecl) {
		sl.fs = append(sl.fs, f)
		for _, v := range f.Params {
			sl.ts = append(sl.ts, &v.T)
		}
		sl.ts = append(sl.ts, &f.Ret)
		if f.Expr != nil {
			ex(&f.Expr)
		} else {
			st(&f.Body)
		}
	}
	ex = func(p **Expr) {
		e := *p
		if e == nil {
			return
		}
		sl.es = append(sl.es, p)
		for i := range e.Kids {
			ex(&e.Kids[i])
		}
		if e.Op == ELambda {
			fn(e.Fn)
		}
	}
	st = func(b *[]*Stmt) {
		sl.ss = append(sl.ss, b)
		for _, s := range *b {
			if s.L != nil {
				ex(&s.L)
			}
			if s.R != nil {
				ex(&s.R)
			}
			for i := range s.Conds {
				ex(&s.Conds[i])
			}
			for i := range s.Blocks {
				st(&s.Blocks[i])
			}
			for _, c := range s.Cases {
				st(&c.Body)
			}
		}
	}
	for _, d := range pr.Types {
		for i := range d.Fields {
			sl.ts = append(sl.ts, &d.Fields[i].T)
		}
		for _, c := range d.Cases {
			for i := range c.Fields {
				sl.ts = append(sl.ts, &c.Fields[i].T)
			}
		}
	}
	for _, f := range pr.Fns {
		fn(f)
	}
	return sl
}

func exprToks(e *Expr) []string {
	p := &Printer{}
	p.expr(e, 0)
	var r []string
	for i, t := range p.toks {
		if t.NL && i > 0 {
			r = append(r, "\n")
		}
		r = append(r, t.S)
	}
	return r
}

func (g *Gen) safeProgram() (pr *Program) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(genFail); !ok {
				panic(r)
			}
			pr = nil
		}
	}()
	return g.program()
}

// Typed programs with expressions, types, statements and declarations exchanged against others
func substituted(s *Src) (string, []string) {
	p := baseProf()
	p.Types, p.Fns, p.MainStmts, p.OptW, p.Data, p.Generics = [2]int{0, 3}, [2]int{0, 4}, [2]int{1, 6}, 1, 2, 2
	p.StdW = map[string]int{"opt": 1, "res": 1, "list": 1, "conv": 1, "str": 1}
	g := newGen(s, p)
	pr := g.safeProgram()
	if pr == nil {
		return "", nil
	}
	var cls []string
	n := s.W(0, 5, 3, 1)
	for i := 0; i < n; i++ {
		sl := collect(pr)
		if len(sl.es) == 0 {
			break
		}
		switch s.W(8, 3, 2, 2, 1, 1) {
		case 0:
			d := sl.es[s.N(len(sl.es))]
			var toks []string
			switch s.W(5, 2, 2) {
			case 0:
				toks = exprToks(*sl.es[s.N(len(sl.es))])
			case 1:
				u := &soup{s: s}
				toks = u.expr(s.N(3))
			case 2:
				toks = []string{s.Pick("x", "main", "undefinedName", "int", "Some", "None", "println", "Pair", "1", "true", "\"s\"", "Cons", "option", "length", "toString")}
			}
			if s.Chance(1, 3) {
				toks = append(append([]string{"("}, toks...), ")")
			}
			*d = &Expr{Op: ERaw, T: (*d).T, Toks: toks}
			cls = append(cls, "expression replaced")
		case 1:
			d := sl.ts[s.N(len(sl.ts))]
			if s.Chance(1, 2) {
				*d = *sl.ts[s.N(len(sl.ts))]
			} else {
				*d = (&soup{s: s}).ty(2)
			}
			cls = append(cls, "type replaced")
		case 2:
			d, o := sl.ss[s.N(len(sl.ss))], sl.ss[s.N(len(sl.ss))]
			if len(*o) > 0 {
				x := (*o)[s.N(len(*o))]
				pp := &Printer{}
				pp.stmt(x)
				st := &Stmt{Op: SRaw}
				for _, t := range pp.toks {
					st.Toks = append(st.Toks, t.S)
				}
				k := s.N(len(*d) + 1)
				*d = append((*d)[:k:k], append([]*Stmt{st}, (*d)[k:]...)...)
			}
			cls = append(cls, "statement copied")
		case 3:
			d := sl.ss[s.N(len(sl.ss))]
			if len(*d) > 0 {
				k := s.N(len(*d))
				*d = append((*d)[:k:k], (*d)[k+1:]...)
			}
			cls = append(cls, "statement removed")
		case 4:
			f := sl.fs[s.N(len(sl.fs))]
			if len(f.Params) > 0 && s.Chance(1, 2) {
				f.Params = f.Params[:len(f.Params)-1]
			} else {
				f.Params = append(f.Params, &Var{Name: "extra", T: (&soup{s: s}).ty(1)})
			}
			cls = append(cls, "parameters changed")
		case 5:
			d := sl.ss[s.N(len(sl.ss))]
			u := &soup{s: s}
			k := s.N(len(*d) + 1)
			*d = append((*d)[:k:k], append([]*Stmt{{Op: SRaw, Toks: u.stmt(2)}}, (*d)[k:]...)...)
			cls = append(cls, "statement inserted")
		}
	}
	return programText(pr), cls
}

// ---------------------------------------------------------------------------------------------------------------------
// Grammar soup: syntactically valid, types ignored, few names

type soup struct {
	s     *Src
	types []*TypeDecl
	loc   []string
	size  int
}

func (u *soup) name() string {
	return u.s.Pick("a", "b", "c", "x", "y", "f", "g", "h")
}

func (u *soup) ty(d int) *Ty {
	s := u.s
	if d <= 0 {
		switch s.W(6, 1, 1) {
		case 0:
			return &Ty{K: KNamed, Name: s.Pick("int", "bool", "string", "bytes")}
		case 1:
			return &Ty{K: KNamed, Name: s.Pick("nothing", "pointer", "T", "U", "missing", "s1", "s2", "e1", "e2")}
		}
		return &Ty{K: KNamed, Name: s.Pick("s1", "e1", "s2", "e2", "T", "file", "error", "x")}
	}
	switch s.W(4, 2, 2, 3) {
	case 1:
		return tArr(u.ty(d - 1))
	case 2:
		t := &Ty{K: KFn, Ret: u.ty(d - 1)}
		for n := s.N(4); n > 0; n-- {
			t.Args = append(t.Args, u.ty(d-1))
		}
		if s.Chance(1, 12) {
			for n := s.N(6); n > 0; n-- {
				t.Args = append(t.Args, u.ty(0))
			}
		}
		return t
	case 3:
		t := &Ty{K: KNamed, Name: s.Pick("option", "list", "pair", "result", "map", "s1", "s2", "e1", "e2", "T", "int")}
		n := s.N(3)
		switch t.Name {
		case "option", "list":
			n = 1
		case "pair", "result", "map":
			n = 2
		}
		if s.Chance(1, 10) {
			n = s.N(4)
		}
		for ; n > 0; n-- {
			t.Args = append(t.Args, u.ty(d-1))
		}
		return t
	}
	return u.ty(0)
}

func (u *soup) tyArgs() []string {
	n := u.s.Range(1, 2)
	var ts []*Ty
	for i := 0; i < n; i++ {
		ts = append(ts, u.ty(1))
	}
	return tyArgToks(ts)
}

func cat(ps ...[]string) []string {
	var r []string
	for _, p := range ps {
		r = append(r, p...)
	}
	return r
}

func (u *soup) args(d int) []string {
	r := []string{"("}
	n := u.s.W(3, 4, 3, 1)
	if u.s.Chance(1, 25) {
		n = u.s.Range(4, 8)
	}
	for i := 0; i < n; i++ {
		if i > 0 {
			r = append(r, ",")
		}
		r = append(r, u.expr(d-1)...)
	}
	return append(r, ")")
}

func (u *soup) params(max int) []string {
	r := []string{"("}
	n := u.s.W(2, 4, 3, 1)
	if u.s.Chance(1, 20) {
		n = u.s.Range(4, max)
	}
	for i := 0; i < n; i++ {
		if i > 0 {
			r = append(r, ",")
		}
		nm := u.name()
		if u.s.Chance(9, 10) {
			nm += fmt.Sprint(i)
			u.loc = append(u.loc, nm)
		}
		r = append(r, nm, ":")
		r = append(r, tyToks(u.ty(1))...)
	}
	return append(r, ")")
}

func (u *soup) ident() string {
	s := u.s
	if len(u.loc) > 0 && s.Chance(3, 5) {
		return u.loc[s.N(len(u.loc))]
	}
	return s.Pick("f", "g", "h", "f", "g", "x", "y", "S1", "S2", "A1", "B1", "A2", "println", "toString", "Some", "None", "Cons", "Nil", "Pair", "Ok", "Err", "main",
		"append", "map", "length", "int", "s1", "T", "Bytes", "unsafe", "getRuntime", "arrayOf", "printf", "not_there", "IndexOf", "NewHashMap", "panic", "open")
}

func (u *soup) expr(d int) []string {
	s := u.s
	u.size++
	if d <= 0 || u.size > 150 {
		switch s.W(3, 2, 2, 1, 1) {
		case 0:
			return []string{u.ident()}
		case 1:
			return []string{s.Pick("0", "1", "2", "0x1f", "4611686018427387903", "-1")}
		case 2:
			return []string{s.Pick("\"\"", "\"abc\"", "\"%d\\n\"")}
		case 3:
			return []string{s.Pick("true", "false")}
		}
		return []string{"[", "]"}
	}
	switch s.W(3, 4, 5, 3, 2, 2, 2, 3, 2, 2, 1, 2) {
	case 0:
		return u.expr(0)
	case 1:
		return cat(u.expr(d-1), []string{s.Pick("+", "-", "*", "/", "==", "<", ">", "<=", ">=", "&", "|", "^", "<<", ">>", "and", "or")}, u.expr(d-1))
	case 2:
		if s.Chance(1, 4) {
			return cat([]string{u.ident()}, u.tyArgs(), u.args(d))
		}
		return cat([]string{u.ident()}, u.args(d))
	case 3:
		r := cat([]string{u.ident(), ".", s.Pick("f", "g", "a", "b", "length", "x", "size", "get", "first", "toString", "map", "append", "foreach")})
		if s.Chance(2, 3) {
			if s.Chance(1, 5) {
				r = cat(r, u.tyArgs())
			}
			r = cat(r, u.args(d))
		}
		return r
	case 4:
		return cat([]string{u.ident(), "["}, u.expr(d-1), []string{"]"})
	case 5:
		return cat([]string{s.Pick("-", "~", "not")}, u.expr(d-1))
	case 6:
		return cat([]string{"("}, u.expr(d-1), []string{")"})
	case 7:
		k := len(u.loc)
		p := u.params(7)
		r := cat([]string{"fn"}, p)
		if s.Chance(2, 3) {
			r = cat(r, tyToks(u.ty(1)))
		}
		if s.Chance(1, 2) {
			r = cat(r, []string{"="}, u.expr(d-1))
		} else {
			r = cat(r, u.block(d-1))
		}
		u.loc = u.loc[:k]
		return r
	case 8:
		return cat(u.expr(d-1), []string{"?"}, u.expr(d-1), []string{":"}, u.expr(d-1))
	case 9:
		r := []string{"["}
		for n := s.N(4); n > 0; n-- {
			r = cat(r, u.expr(d-1))
			if n > 1 {
				r = append(r, ",")
			}
		}
		return append(r, "]")
	case 10:
		return cat([]string{"type", "("}, tyToks(u.ty(1)), []string{")"})
	}
	return cat([]string{"("}, u.expr(d-1), []string{")"}, u.args(d))
}

func (u *soup) block(d int) []string {
	k := len(u.loc)
	r := []string{"{", "\n"}
	for n := u.s.W(2, 3, 2, 1); n > 0; n-- {
		r = cat(r, u.stmt(d), []string{"\n"})
	}
	u.loc = u.loc[:k]
	return append(r, "}")
}

func (u *soup) stmt(d int) []string {
	s := u.s
	k := s.W(4, 3, 4, 3, 2, 2, 2, 2)
	if d <= 0 && k >= 4 {
		k = 2
	}
	switch k {
	case 0:
		e := u.expr(d)
		n := fmt.Sprintf("%s%d", u.name(), s.N(4))
		u.loc = append(u.loc, n)
		return cat([]string{n, ":="}, e)
	case 1:
		return cat(u.expr(d-1), []string{"="}, u.expr(d))
	case 2:
		return u.expr(d)
	case 3:
		if s.Chance(1, 4) {
			return []string{"return"}
		}
		return cat([]string{"return"}, u.expr(d))
	case 4:
		r := cat([]string{"if"}, u.expr(d-1), u.block(d-1))
		for s.Chance(1, 3) {
			r = cat(r, []string{"elseif"}, u.expr(d-1), u.block(d-1))
		}
		if s.Chance(1, 2) {
			r = cat(r, []string{"else"}, u.block(d-1))
		}
		return r
	case 5:
		return cat([]string{"while"}, u.expr(d-1), u.block(d-1))
	case 6:
		n := u.name()
		r := cat([]string{"for", n, "in"}, u.expr(d-1))
		if s.Chance(1, 2) {
			r = cat(r, []string{".."}, u.expr(d-1))
		}
		u.loc = append(u.loc, n)
		r = cat(r, u.block(d-1))
		u.loc = u.loc[:len(u.loc)-1]
		return r
	}
	r := cat([]string{"match"}, u.expr(d-1), []string{"{", "\n"})
	for n := s.N(4); n > 0; n-- {
		r = cat(r, []string{"case", s.Pick("A1", "B1", "A2", "Some", "None", "Cons", "Nil", "Ok", "Err", "int"), "("})
		for m := s.N(3); m > 0; m-- {
			v := fmt.Sprintf("%s%d", u.name(), s.N(4))
			u.loc = append(u.loc, v)
			r = append(r, v)
			if m > 1 {
				r = append(r, ",")
			}
		}
		r = cat(r, []string{")", ":", "\n"}, u.stmt(d-1), []string{"\n"})
	}
	return append(r, "}")
}

func (u *soup) tps() []string {
	switch u.s.W(5, 3, 1) {
	case 1:
		return []string{"«", "T", "»"}
	case 2:
		return []string{"«", "T", ",", u.s.Pick("U", "T"), "»"}
	}
	return nil
}

func (u *soup) decl() []string {
	s := u.s
	u.loc = nil
	switch s.W(5, 2, 2, 1) {
	case 1:
		r := cat([]string{"struct", s.Pick("s1", "s2", "s3", "point")}, u.tps(), []string{"{", "\n"})
		n := s.N(4)
		if s.Chance(1, 15) {
			n = s.N(9)
		}
		for i := 0; i < n; i++ {
			nm := u.name()
			if s.Chance(9, 10) {
				nm = string(rune('a' + i))
			}
			r = cat(r, []string{nm, ":"}, tyToks(u.ty(2)), []string{"\n"})
		}
		return append(r, "}", "\n")
	case 2:
		k := s.N(3)
		r := cat([]string{"enum", []string{"e1", "e2", "e3"}[k]}, u.tps(), []string{"{", "\n"})
		for n := s.N(4); n > 0; n-- {
			m := []string{"A", "B", "C"}[n%3] + fmt.Sprint(k+1)
			if s.Chance(1, 10) {
				m = s.Pick("A1", "B1", "Some", "S1", "f", "s1")
			}
			p := u.params(7)
			r = cat(r, []string{m}, p, []string{"\n"})
		}
		return append(r, "}", "\n")
	case 3:
		var r []string
		if s.Chance(1, 2) {
			r = []string{"#", "[", s.Pick("RawValues", "ExtRet", "RawValues", "Other"), "]", "\n"}
		}
		r = cat(r, []string{"fn", s.Pick("strlen", "abs", "puts", "f", "labs")}, u.tps(), u.params(7))
		if s.Chance(3, 4) {
			r = cat(r, tyToks(u.ty(1)))
		}
		if s.Chance(1, 4) {
			r = cat(r, []string{"="}, u.expr(2))
		}
		return append(r, "\n")
	}
	r := cat([]string{"fn", s.Pick("f", "g", "h", "f2", "g2", "main", "toString")}, u.tps(), u.params(8))
	if s.Chance(1, 2) {
		r = cat(r, tyToks(u.ty(2)))
	}
	if s.Chance(1, 3) {
		return cat(r, []string{"="}, u.expr(3), []string{"\n"})
	}
	return cat(r, u.block(3), []string{"\n"})
}

func joinToks(ts []string) string {
	var b strings.Builder
	for i, t := range ts {
		if i > 0 && t != "\n" && ts[i-1] != "\n" && needSpace(ts[i-1], t) {
			b.WriteByte(' ')
		}
		b.WriteString(t)
	}
	return b.String()
}

func genC15(s *Src) *Case {
	var text string
	var cls []string
	switch s.W(5, 4, 4, 4, 3, 2) {
	case 5:
		text, cls = nested(s)
	case 4:
		_, pr, c, _ := genMistake(s, s.Chance(1, 4))
		if pr == nil {
			return nil
		}
		lt, _ := refLex(programText(pr))
		var toks []string
		for _, t := range lt {
			toks = append(toks, t.V)
		}
		for k := s.N(3); k > 0; k-- {
			var c string
			toks, c = mutate(s, toks)
			cls = append(cls, c)
		}
		text = strings.Join(toks, "")
		cls = append(cls, "program with a mistake", c)
	case 0:
		text, cls = substituted(s)
		if text == "" {
			return nil
		}
		cls = append(cls, "typed program, substituted")
	case 1: // corpus, some declarations of one file
		f := corpus[s.N(len(corpus))]
		var toks []string
		n := s.Range(1, 4)
		for i := 0; i < n; i++ {
			toks = append(toks, f[s.N(len(f))]...)
			toks = append(toks, "\n")
		}
		if s.Chance(2, 3) {
			toks = append(toks, "fn main() {\n}\n")
		}
		for k := s.Range(1, 3); k > 0; k-- {
			var c string
			toks, c = mutate(s, toks)
			cls = append(cls, c)
		}
		text = strings.Join(toks, "")
		cls = append(cls, "corpus, mutated")
	case 2:
		p := baseProf()
		p.Types, p.Fns, p.MainStmts, p.OptW = [2]int{0, 2}, [2]int{0, 3}, [2]int{1, 5}, 1
		g := newGen(s, p)
		pr := g.safeProgram()
		if pr == nil {
			return nil
		}
		lt, _ := refLex(programText(pr))
		var toks []string
		for _, t := range lt {
			toks = append(toks, t.V)
		}
		for k := s.Range(1, 3); k > 0; k-- {
			var c string
			toks, c = mutate(s, toks)
			cls = append(cls, c)
		}
		text = strings.Join(toks, "")
		cls = append(cls, "generated, mutated")
	case 3:
		u := &soup{s: s}
		var toks []string
		for n := s.Range(1, 6); n > 0; n-- {
			u.size = 0
			toks = append(toks, u.decl()...)
		}
		if s.Chance(1, 2) {
			toks = append(toks, "fn", "main", "(", ")")
			toks = append(toks, u.block(3)...)
			toks = append(toks, "\n")
		}
		text = joinToks(toks)
		cls = append(cls, "grammar")
	}
	sort.Strings(cls)
	c := &Case{Text: text, Size: len(text), Nontrivial: len(text) > 20, Evals: 1, Classes: dedup(cls)}
	c.Run = func(w *Worker) Outcome { return w.checkAnyText(text) }
	return c
}

func dedup(xs []string) []string {
	var r []string
	for i, x := range xs {
		if i == 0 || x != xs[i-1] {
			r = append(r, x)
		}
	}
	return r
}

func (w *Worker) checkAnyText(text string) Outcome {
	x, bin := w.Compile(text)
	if x.Wall {
		return Outcome{Skip: "compiler wall clock limit"}
	}
	if x.CPU {
		return Outcome{Fail: "the compiler did not terminate (CPU limit)"}
	}
	_, serr := os.Stat(bin)
	all := x.Out + x.Err
	switch {
	case x.Code == 0:
		if serr != nil {
			return Outcome{Fail: "exit status 0 but no executable"}
		}
		return Outcome{}
	case x.Code == 1 && x.Signal == "":
		i := strings.Index(x.Out, "Errors\n - ")
		if i < 0 {
			return Outcome{Fail: "exit status 1 without an error report: " + clip(all, 800)}
		}
		if serr == nil {
			return Outcome{Fail: "errors were reported but an executable was written"}
		}
		if strings.Contains(all, "Link failure") || strings.Contains(all, "Code Gen Errors") || strings.Contains(all, "ld returned") {
			if strings.Contains(all, "undefined reference to") && !strings.Contains(all, "Error:") && !strings.Contains(all, "multiple definition") {
				return Outcome{}
			}
			return Outcome{Fail: "the compiler accepted a program which the assembler or linker rejects:\n" + clip(x.Out[i:], 1500)}
		}
		return Outcome{}
	}
	return Outcome{Fail: fmt.Sprintf("the compiler crashed (exit status %d %s): %s", x.Code, x.Signal, clip(all, 1500))}
}

func init() {
	reg(&Prop{ID: "C15", Rule: "source texts: typed generated programs with expressions, types, statements or parameters exchanged; token, name, group, line and character mutations of corpus declarations, of generated programs and of programs with a mistake as in C16; programs drawn from the grammar without regard to types; expressions, statements and types nested up to 300 times around something right or wrong; non-trivial: longer than 20 bytes",
		Quick: 9000, Thorough: 200000, Budget: [2]time.Duration{50 * time.Second, 13 * time.Minute}, Gen: genC15})
}
