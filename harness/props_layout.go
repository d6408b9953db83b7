package main

// C18: transformations which do not change the meaning of a program.

import (
	"fmt"
	"sort"
	"strings"
	"time"
	"unicode"
)

// Names which must stay: everything the library declares that programs refer to
func libraryNames() map[string]bool {
	m := map[string]bool{"main": true, "length": true, "int": true, "string": true, "bool": true, "bytes": true, "nothing": true, "printf": true, "debug": true}
	for _, f := range stdFns {
		m[f.Name] = true
		for _, p := range f.Params {
			addDef(m, p.T)
		}
		addDef(m, f.Ret)
	}
	return m
}

func addDef(m map[string]bool, t *Ty) {
	if t == nil || m["type:"+t.Name+fmt.Sprint(t.K, t.Def)] {
		return
	}
	m["type:"+t.Name+fmt.Sprint(t.K, t.Def)] = true
	for _, a := range t.Args {
		addDef(m, a)
	}
	addDef(m, t.Ret)
	if t.Def != nil {
		m[t.Def.Name], m[t.Def.ctor()] = true, true
		for _, f := range t.Def.Fields {
			m[f.Name] = true
		}
		for _, c := range t.Def.Cases {
			m[c.Name] = true
			for _, f := range c.Fields {
				m[f.Name] = true
			}
		}
	}
}

var keywordParts = []string{"fn", "return", "if", "elseif", "else", "true", "false", "not", "and", "or", "struct", "while", "for", "in", "enum", "match", "case", "type", "int", "string", "bool", "nothing", "length", "main", "clara", "array", "T"}

// A new name which nothing else has: k makes it unique
func newName(s *Src, k int, kind byte) string {
	var n string
	switch s.N(8) {
	case 0:
		n = fmt.Sprintf("n%d", k)
	case 1: // starts with a keyword
		n = fmt.Sprintf("%s%d", keywordParts[s.N(len(keywordParts))], k)
	case 2:
		n = fmt.Sprintf("%s_%s%d", keywordParts[s.N(len(keywordParts))], keywordParts[s.N(len(keywordParts))], k)
	case 3:
		n = fmt.Sprintf("%s%d%s", s.Pick("é", "ñandú", "ж", "αβ", "aé", "x日本"), k, s.Pick("", "é", "_", "ж"))
	case 4:
		n = fmt.Sprintf("l%s%d", strings.Repeat(s.Pick("o", "ab", "_"), s.Range(1, 120)), k)
	case 5:
		n = fmt.Sprintf("a%d%s", k, s.Pick("_", "__", "_0", "x0", "A", "Z9"))
	case 6:
		n = fmt.Sprintf("%sq%d", s.Pick("malloc", "printf", "free", "memcpy", "rax", "call", "exit", "clara_main", "struct_", "enum_"), k)
	default:
		n = fmt.Sprintf("e%dE", k)
	}
	if kind == 's' && n[0] == 'T' {
		n = "t" + n
	} else if kind != 's' && s.Chance(1, 3) {
		n = s.Pick("_", "Z", "É", "日") + n
	}
	return n
}

// Library functions whose names a local variable or field may have
var libraryFns = strings.Fields("debug unsafe gc panic exit assert claralloc invokeDynamic entrypoint readInt getBlocks typeInfoTable calloc free append map hash inc isValidBlock get set size length_ main array copyArray memcpy clara_main toTaggedInt asEnum setElement arrayNoInit indexOutOfBounds deref tag errnum")

// Words of the C preprocessor, the C compiler, the assembler and the linker
var toolWords = strings.Fields("linux unix i386 rax rsp eax al st cs ret text data bss quad long globl section asm auto register volatile static void char short double define include undef offset ptr rip edata etext environ stdin __linux__ __x86_64__ __LINE__ __FILE__ __GNUC__ _start __main NULL EOF")

// Library functions of which no generated function can be taken for an overload
var libraryInternals = []string{"invokeDynamic", "isClosure", "toBytesHeader", "isValidBlock", "clarafree"}

// A name much like n: another case, letter, underscore or length
func nearName(s *Src, n string) string {
	r := []rune(n)
	i := s.N(len(r))
	switch s.N(8) {
	case 0, 1:
		for try := 0; try < 8; try++ {
			if i := s.N(len(r)); i > 0 && (r[i]|32 >= 'a' && r[i]|32 <= 'z') {
				r[i] ^= 32
				return string(r)
			}
		}
	case 2: // another letter
		if i > 0 {
			r[i] = []rune("éèжя日本_xªµ")[s.N(10)]
		}
	case 3:
		return string(r[:i+1]) + "_" + string(r[i+1:])
	case 4:
		return strings.Replace(n, "_", "", 1)
	case 5:
		return n + s.Pick("_", "0", "1", "x", "int", "_int", "string", "T", "é")
	case 6:
		if len(r) > 3 {
			return string(r[:len(r)-1])
		}
	case 7:
		if len(r) > 3 {
			return string(r[:i]) + string(r[min(i+1, len(r)):])
		}
	}
	return string(r)
}

// Whether n can be a name, and the name of a struct
func fitName(n string, kind byte) bool {
	r := []rune(n)
	if len(r) < 2 || unicode.IsDigit(r[0]) {
		return false
	}
	for _, k := range keywordParts {
		if n == k || (&TypeDecl{Name: n}).ctor() == k {
			return false
		}
	}
	return kind != 's' || unicode.IsLower(r[0]) && unicode.ToUpper(r[0]) != r[0]
}

func rename(s *Src, toks []Tok, names map[string]byte) []Tok {
	lib := libraryNames()
	var ks []string
	for k := range names {
		if !lib[k] {
			ks = append(ks, k)
		}
	}
	sort.Strings(ks)
	m := map[string]string{}
	used := map[string]bool{}
	calledOnly := map[string]bool{}
	for i, t := range toks {
		used[t.S] = true
		next := ""
		if i+1 < len(toks) {
			next = toks[i+1].S
		}
		if ok, seen := calledOnly[t.S]; !seen || ok {
			calledOnly[t.S] = next == "(" || next == "«"
		}
	}
	last := ""
	for i, k := range ks {
		if s.Chance(1, 4) {
			continue
		}
		n := newName(s, i, names[k])
		if last != "" && s.Chance(1, 4) {
			if f := nearName(s, last); !used[f] && !used[(&TypeDecl{Name: f}).ctor()] && !lib[f] && !lib[(&TypeDecl{Name: f}).ctor()] && fitName(f, names[k]) {
				n = f
			}
		}
		last = n
		if names[k] == 1 && s.Chance(1, 6) { // name of a library function
			if l := libraryFns[s.N(len(libraryFns))]; !used[l] {
				n, last = l, ""
			}
		} else if names[k] == 3 && calledOnly[k] && s.Chance(1, 8) {
			if l := libraryInternals[s.N(len(libraryInternals))]; !used[l] {
				n, last = l, ""
			}
		}
		if s.Chance(1, 8) { // a word which means something to the tools behind the compiler
			if l := toolWords[s.N(len(toolWords))]; !used[l] && !lib[l] && !lib[(&TypeDecl{Name: l}).ctor()] && (names[k] != 's' || l[0] >= 'a') && !used[(&TypeDecl{Name: l}).ctor()] {
				n, last = l, ""
			}
		}
		if used[n] || used[(&TypeDecl{Name: n}).ctor()] && names[k] == 's' {
			n = fmt.Sprintf("w%dq", i)
		}
		used[n] = true
		if names[k] == 's' {
			o := (&TypeDecl{Name: k}).ctor()
			if _, ok := names[o]; ok || lib[o] {
				continue
			}
			m[o] = (&TypeDecl{Name: n}).ctor()
			used[m[o]] = true
		}
		m[k] = n
	}
	out := append([]Tok(nil), toks...)
	for i, t := range out {
		if n, ok := m[t.S]; ok {
			out[i].S = n
		}
	}
	return out
}

// Two tokens which may stand next to each other without a space
func mayJoin(a, b string) bool {
	if isWord(a) {
		if a[0] >= '0' && a[0] <= '9' {
			return strings.Contains(" ) ] } , + - * « » [ ( . ", " "+b+" ")
		}
		return strings.Contains(" ( ) : , . + - * < > [ ] « » <= >= << >> ", " "+b+" ")
	}
	switch a {
	case "(", ")", "[", "]", "{", "}", "«", "»", ",", "+", "*", "^", "|", "&", "~", "?", "-", ";":
		return b != "." && b != ".." || a == ")" || a == "]"
	case "=", "<", ">", ":", "==", "<=", ">=", "<<", ">>", ":=", "/":
		return isWord(b) || b[0] == '"' || b == "(" || b == "["
	case ".", "..":
		return isWord(b) && !(b[0] >= '0' && b[0] <= '9') || b == "("
	}
	if a[0] == '"' {
		return b == ")" || b == "," || b == "]" || b == "." || b == "}" || b == "+"
	}
	return false
}

func layout(s *Src, toks []Tok) string {
	var b strings.Builder
	nl := s.Pick("\n", "\r\n")
	mixed := s.Chance(1, 3)
	dense, wide := s.N(4), s.N(8) // styles
	comment := func() string {
		return "//" + s.Pick("", " x", " }", "\"", " fn main() {", "//", " é日本«»", " \\", strings.Repeat("z", 300), "\t", " $@!%;'`")
	}
	line := func() string {
		if mixed {
			return s.Pick("\n", "\r\n")
		}
		return nl
	}
	gap := func(need bool) {
		w := ""
		switch {
		case s.Chance(wide, 24):
			for i := s.Range(1, 3); i > 0; i-- {
				switch s.N(4) {
				case 0:
					w += line()
				case 1:
					w += strings.Repeat(" ", s.Range(1, 20))
				case 2:
					w += line() + strings.Repeat(" ", s.N(9))
				case 3:
					w += " " + comment() + line()
				}
			}
		case need || s.Chance(dense, 4):
			w = " "
		}
		b.WriteString(w)
	}
	big := -1
	if s.Chance(1, 60) {
		big = s.N(len(toks))
	}
	gap(false)
	for i, t := range toks {
		if i == big { // a very long gap
			b.WriteString(s.Pick(" ", "\n") + strings.Repeat(s.Pick(" ", "\n", "\r\n", "//\n"), bigSize(s)) + s.Pick(" ", "\n", "//"+strings.Repeat("x", bigSize(s))+"\n"))
		}
		if i > 0 {
			gap(!mayJoin(toks[i-1].S, t.S))
		}
		b.WriteString(t.S)
	}
	switch s.N(4) {
	case 0:
		b.WriteString(line())
	case 1:
		b.WriteString(" " + comment())
	case 2:
		b.WriteString(strings.Repeat(line(), 3))
	}
	return b.String()
}

func variant(s *Src, pr *Program) (string, []string) {
	var cls []string
	p := &Printer{}
	if s.Chance(2, 3) {
		p.v = s
		cls = append(cls, "rewritten expressions")
	}
	var order []int
	if s.Chance(1, 2) {
		n := len(pr.Types) + len(pr.Fns)
		order = make([]int, n)
		for i := range order {
			order[i] = i
		}
		for i := n - 1; i > 0; i-- {
			j := i - s.N(i+1)
			order[i], order[j] = order[j], order[i]
		}
		cls = append(cls, "reordered")
	}
	p.program(pr, order)
	toks := p.toks
	if s.Chance(1, 2) {
		toks = rename(s, toks, p.names)
		cls = append(cls, "renamed")
	}
	if s.Chance(3, 4) {
		cls = append(cls, "layout")
		return layout(s, toks), cls
	}
	text, _ := render(toks)
	return text, cls
}

func genC18(s *Src) *Case {
	if s.Chance(1, 4) {
		return genNames(s)
	}
	p := baseProf()
	p.Types, p.Fns, p.MainStmts = [2]int{0, 3}, [2]int{1, 5}, [2]int{3, 9}
	p.OptW, p.ListW, p.Closures, p.Flow, p.Data, p.Generics, p.Overloads, p.Strings = 1, 1, 2, 2, 2, 2, 2, 2
	p.StdW = map[string]int{"opt": 1, "res": 1, "list": 1, "conv": 1, "str": 1}
	p.Extreme = 5
	g := newGen(s, p)
	pr := g.safeProgram()
	if pr == nil {
		return nil
	}
	res, _, why := interpret(pr, p.Fuel)
	if why != "" {
		return nil
	}
	base := programText(pr)
	a, ca := variant(s, pr)
	b, cb := variant(s, pr)
	if s.Chance(1, 4) {
		b, cb = a, []string{"compiled again"}
	}
	cls := append(ca, cb...)
	c := &Case{Text: base + "// ---- variant\n" + a + "\n// ---- variant\n" + b, Size: len(base), Classes: cls, Evals: 2, Nontrivial: len(cls) >= 2 && strings.Count(res.Out, "\n") >= 3}
	c.Run = func(w *Worker) Outcome {
		for _, t := range []string{a, b} {
			if o := w.checkProgram(t, res); o.Fail != "" || o.Skip != "" {
				if o.Fail != "" {
					if ob := w.checkProgram(base, res); ob.Fail == "" && ob.Skip == "" {
						o.Fail = "the variant behaves differently from the original program: " + o.Fail
					}
				}
				return o
			}
		}
		return Outcome{}
	}
	return c
}

func init() {
	reg(&Prop{ID: "C18", Rule: "generated programs over all language features, each in two variants: redundant parentheses, literals in the other base, calls in the other form, expression functions as blocks, declarations reordered, identifiers renamed (names that start with keywords, multi-byte, long), and random layout (comments, LF/CRLF, no or many spaces, line breaks between any two tokens), and families of functions, types, cases, fields, variables whose names are much like each other; non-trivial: a family, or at least two transformations and three lines of output",
		Quick: 700, Thorough: 12000, Budget: [2]time.Duration{50 * time.Second, 13 * time.Minute}, Gen: genC18})
}
