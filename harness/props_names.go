package main

// C18: names much like each other stay different.

import (
	"fmt"
	"strings"
	"unicode"
)

// n names much like each other. kind 's' makes them fit for structs
func nearNames(s *Src, n int, kind byte, taken map[string]bool) []string {
	lib := libraryNames()
	free := func(x string) bool {
		c := (&TypeDecl{Name: x}).ctor()
		return !taken[x] && !lib[x] && !taken[c] && !lib[c] && fitName(x, kind) && !isLibFn(x) && !isLibFn(c)
	}
	var r []string
	add := func(x string) {
		taken[x] = true
		if kind == 's' {
			taken[(&TypeDecl{Name: x}).ctor()] = true
		}
		r = append(r, x)
	}
	base := ""
	for try := 0; try < 20 && base == ""; try++ {
		if b := newName(s, s.N(3)*s.N(12), kind); free(b) {
			base = b
		}
	}
	if base == "" {
		base = fmt.Sprintf("base%d", len(taken))
	}
	add(base)
	for try := 0; len(r) < n && try < 60; try++ {
		from := base
		if s.Chance(1, 3) {
			from = r[s.N(len(r))]
		}
		if x := nearName(s, from); free(x) {
			add(x)
		}
	}
	for i := 0; len(r) < n; i++ {
		if x := fmt.Sprintf("%s%d", base, i); free(x) {
			add(x)
		}
	}
	return r
}

func isLibFn(n string) bool {
	for _, l := range [][]string{libraryFns, toolWords, libraryInternals} {
		for _, x := range l {
			if x == n {
				return true
			}
		}
	}
	return false
}

func genNames(s *Src) *Case {
	taken := map[string]bool{}
	var decls []string
	var body, out strings.Builder
	roles := 0
	var cls []string
	for i := s.Range(1, 3); i > 0; i-- {
		n := s.Range(2, 6)
		role := s.N(11)
		kind := byte(1)
		if role == 2 || role == 9 || role == 10 {
			kind = 's'
		}
		ns := nearNames(s, n, kind, taken)
		k := s.Range(0, 90)
		roles++
		id := fmt.Sprintf("zz%d", roles)
		order := make([]int, n)
		for j := range order {
			order[j] = j
		}
		for j := n - 1; j > 0; j-- {
			o := s.N(j + 1)
			order[j], order[o] = order[o], order[j]
		}
		say := func(f string, a ...interface{}) { fmt.Fprintf(&body, "    "+f+"\n", a...) }
		want := func(v int) { fmt.Fprintf(&out, "%d\n", v) }
		switch role {
		case 0, 1: // functions
			cls = append(cls, "functions")
			params, args := "", ""
			switch s.N(4) {
			case 1:
				params, args = "x: int", "7"
			case 2:
				params, args = "x: string, y: []int", "\"s\", [1]"
			case 3:
				params, args = "x: fn(int) int", "fn(q: int) int = q"
			}
			for j, x := range ns {
				decls = append(decls, fmt.Sprintf("fn %s(%s) int = %d", x, params, k+j))
			}
			for _, j := range order {
				if s.Chance(1, 2) {
					say("printf(\"%%d\\n\", %s(%s))", ns[j], args)
				} else {
					say("%s%d := %s", id, j, ns[j])
					say("printf(\"%%d\\n\", %s%d(%s))", id, j, args)
				}
				want(k + j)
			}
		case 2: // structs, told apart by overloads
			cls = append(cls, "structs")
			for j, x := range ns {
				decls = append(decls, fmt.Sprintf("struct %s {\n    f: int\n}", x), fmt.Sprintf("fn %s(x: %s) int = x.f + %d", id, x, k+10*j))
			}
			for _, j := range order {
				say("printf(\"%%d\\n\", %s(%s(%d)))", id, (&TypeDecl{Name: ns[j]}).ctor(), j)
				want(k + 10*j + j)
			}
		case 3: // enum cases
			cls = append(cls, "enum cases")
			var cs, ms []string
			for j, x := range ns {
				cs = append(cs, "    "+x+"(v: int)")
				ms = append(ms, fmt.Sprintf("        case %s(v): return v + %d", x, k+10*j))
			}
			decls = append(decls, fmt.Sprintf("enum %s {\n%s\n}", id+"e", strings.Join(cs, "\n")), fmt.Sprintf("fn %s(x: %se) int {\n    match x {\n%s\n    }\n    return -1\n}", id, id, strings.Join(ms, "\n")))
			for _, j := range order {
				say("printf(\"%%d\\n\", %s(%s(%d)))", id, ns[j], j)
				want(k + 10*j + j)
			}
		case 4: // variables
			cls = append(cls, "variables")
			for j, x := range ns {
				say("%s := %d", x, k+j)
			}
			for _, j := range order {
				say("%s = %s + %d", ns[j], ns[j], 10*j)
			}
			for j, x := range ns {
				say("printf(\"%%d\\n\", %s)", x)
				want(k + j + 10*j)
			}
		case 5: // parameters
			cls = append(cls, "parameters")
			var ps, as, sum []string
			w, v := 1, 0
			for j, x := range ns {
				ps = append(ps, x+": int")
				as = append(as, fmt.Sprint(j+1))
				sum = append(sum, fmt.Sprintf("%s * %d", x, w))
				v += (j + 1) * w
				w *= 10
			}
			decls = append(decls, fmt.Sprintf("fn %s(%s) int = %s", id, strings.Join(ps, ", "), strings.Join(sum, " + ")))
			say("printf(\"%%d\\n\", %s(%s))", id, strings.Join(as, ", "))
			want(v)
		case 6: // captured variables
			cls = append(cls, "captured variables")
			var sum []string
			w, v := 1, 0
			for j, x := range ns {
				say("%s := %d", x, j+1)
			}
			for _, j := range order {
				sum = append(sum, fmt.Sprintf("%s * %d", ns[j], w))
				v += (j + 1) * w
				w *= 10
			}
			say("%s := fn() int = %s", id, strings.Join(sum, " + "))
			say("printf(\"%%d\\n\", %s())", id)
			want(v)
		case 7: // fields
			cls = append(cls, "fields")
			var fs, as []string
			for j, x := range ns {
				fs = append(fs, "    "+x+": int")
				as = append(as, fmt.Sprint(k+j))
			}
			decls = append(decls, fmt.Sprintf("struct %s {\n%s\n}", id, strings.Join(fs, "\n")))
			say("%sv := %s(%s)", id, (&TypeDecl{Name: id}).ctor(), strings.Join(as, ", "))
			for _, j := range order {
				say("%sv.%s = %sv.%s + %d", id, ns[j], id, ns[j], 10*j)
			}
			for j, x := range ns {
				say("printf(\"%%d\\n\", %sv.%s)", id, x)
				want(k + 11*j)
			}
		case 8: // generic functions
			cls = append(cls, "generic functions")
			for j, x := range ns {
				decls = append(decls, fmt.Sprintf("fn %s«T»(x: T) int = %d", x, k+j))
			}
			for _, j := range order {
				say("printf(\"%%d\\n\", %s(%s))", ns[j], s.Pick("1", "\"s\"", "[1]"))
				want(k + j)
			}
		case 9: // functions and types
			cls = append(cls, "functions by types")
			ms := nearNames(s, s.Range(2, 4), 1, taken)
			for _, x := range ns {
				decls = append(decls, fmt.Sprintf("struct %s {\n    f: int\n}", x))
			}
			for a, m := range ms {
				for j, x := range ns {
					decls = append(decls, fmt.Sprintf("fn %s(x: %s, y: %s) int = x.f + y.f + %d", m, x, ns[(j+1)%n], 100*a+10*j))
				}
			}
			for a, m := range ms {
				j := order[a%n]
				say("printf(\"%%d\\n\", %s(%s(%d), %s(%d)))", m, (&TypeDecl{Name: ns[j]}).ctor(), j, (&TypeDecl{Name: ns[(j+1)%n]}).ctor(), k)
				want(100*a + 11*j + k)
			}
		case 10: // types as arguments of a generic type
			cls = append(cls, "type arguments")
			for j, x := range ns {
				decls = append(decls, fmt.Sprintf("struct %s {\n    f: int\n}", x), fmt.Sprintf("fn %s(x: option«%s») int {\n    match x {\n        case Some(v): return v.f + %d\n        case None(): return %d\n    }\n    return -1\n}", id, x, k+10*j, k+10*j+5))
			}
			for _, j := range order {
				if s.Chance(1, 3) {
					say("printf(\"%%d\\n\", %s(None«%s»()))", id, ns[j])
					want(k + 10*j + 5)
				} else {
					say("printf(\"%%d\\n\", %s(Some(%s(%d))))", id, (&TypeDecl{Name: ns[j]}).ctor(), j)
					want(k + 11*j)
				}
			}
		}
	}
	for i := len(decls) - 1; i > 0; i-- {
		j := i - s.N(i+1)
		decls[i], decls[j] = decls[j], decls[i]
	}
	text := strings.Join(decls, "\n") + "\nfn main() {\n" + body.String() + "}\n"
	res := Result{Out: out.String()}
	ascii := "ascii"
	if strings.IndexFunc(text, func(r rune) bool { return r > 127 && r != '«' && r != '»' && unicode.IsLetter(r) }) >= 0 {
		ascii = "multi-byte"
	}
	c := &Case{Text: text, Size: len(text), Classes: append(cls, "near names", ascii), Evals: strings.Count(res.Out, "\n"), Nontrivial: true}
	c.Run = func(w *Worker) Outcome { return w.checkProgram(text, res) }
	return c
}
