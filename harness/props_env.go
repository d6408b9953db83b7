package main

// C04: closures made by different functions over variables of the same names and other types, alive together across collections.

import (
	"fmt"
	"strings"
)

func genEnvs(s *Src) *Case {
	kinds := []struct{ t, mk, use string }{
		{"int", "%d", "toString(%s)"},
		{"string", "toString(%d).append(\"s\")", "%s"},
		{"bool", "%d > 500", "(%s ? \"t\": \"f\")"},
		{"[]string", "[toString(%d)]", "%s[0]"},
		{"[]int", "[%d, 1]", "toString(%s[0])"},
		{"fn() string", "eMk(%d)", "%s()"},
		{"eBox", "EBox(toString(%d))", "%s.v"},
		{"option«string»", "Some(toString(%d))", "eOpt(%s)"},
	}
	shown := func(k, v int) string {
		switch k {
		case 1:
			return fmt.Sprintf("%ds", v)
		case 2:
			if v > 500 {
				return "t"
			}
			return "f"
		case 5:
			return fmt.Sprintf("<%d>", v)
		}
		return fmt.Sprint(v)
	}
	pool := []string{"x", "y", "z", "w", "v"}[:1+s.W(3, 3, 2, 1, 1)]
	var decls []string
	decls = append(decls, "struct eBox {\n    v: string\n}", "fn eOpt(o: option«string») string {\n    match o {\n        case Some(s): return s\n        case None(): return \"none\"\n    }\n    return \"\"\n}",
		"fn eMk(i: int) fn() string {\n    t := \"<\".append(toString(i)).append(\">\")\n    return fn() string = t\n}",
		"fn eChurn(n: int) int {\n    a := 0\n    for i in 0 .. n {\n        t := toString(i).append(\"abc\")\n        a = a + t.length\n    }\n    return a\n}")
	type fac struct {
		ks   []int
		args []int // order of uses
	}
	var facs []fac
	for i, n := 0, s.Range(2, 7); i < n; i++ {
		m := s.Range(1, len(pool))
		names := append([]string(nil), pool...)
		for a := len(names) - 1; a > 0; a-- {
			b := s.N(a + 1)
			names[a], names[b] = names[b], names[a]
		}
		names = names[:m]
		f := fac{}
		var ps, body []string
		for a, name := range names {
			k := s.N(len(kinds))
			f.ks = append(f.ks, k)
			if s.Chance(1, 4) { // a local copy
				ps = append(ps, fmt.Sprintf("p%d: %s", a, kinds[k].t))
				body = append(body, fmt.Sprintf("    %s := p%d\n", name, a))
			} else {
				ps = append(ps, fmt.Sprintf("%s: %s", name, kinds[k].t))
			}
		}
		e := fmt.Sprintf("\"%d\"", i)
		for c := s.Range(1, m+1); c > 0; c-- {
			a := s.N(m)
			f.args = append(f.args, a)
			e += fmt.Sprintf(".append(\" \").append(%s)", fmt.Sprintf(kinds[f.ks[a]].use, names[a]))
		}
		fn := "fn() string = " + e
		switch s.N(4) {
		case 0:
			fn = "fn() string {\n        return " + e + "\n    }"
		case 1:
			fn = "fn() string {\n        n := eChurn(10)\n        return " + e + "\n    }"
		case 2:
			fn = "fn() string {\n        g := fn() string = " + e + "\n        n := eChurn(10)\n        return g()\n    }"
		}
		decls = append(decls, fmt.Sprintf("fn eF%d(%s) fn() string {\n%s    return %s\n}", i, strings.Join(ps, ", "), strings.Join(body, ""), fn))
		facs = append(facs, f)
	}
	var b, out strings.Builder
	var want []string
	for i, n := 0, s.Range(2, 10); i < n; i++ {
		f := s.N(len(facs))
		var as []string
		vals := make([]int, len(facs[f].ks))
		for a, k := range facs[f].ks {
			vals[a] = s.N(1000)
			as = append(as, fmt.Sprintf(kinds[k].mk, vals[a]))
		}
		r := fmt.Sprint(f)
		for _, a := range facs[f].args {
			r += " " + shown(facs[f].ks[a], vals[a])
		}
		fmt.Fprintf(&b, "    c%d := eF%d(%s)\n", i, f, strings.Join(as, ", "))
		want = append(want, r)
	}
	fmt.Fprintf(&b, "    println(eChurn(%d) > 0)\n", s.Range(1, 1500))
	out.WriteString("true\n")
	for i, n := 0, s.Range(2, 12); i < n; i++ {
		k := s.N(len(want))
		fmt.Fprintf(&b, "    println(c%d())\n", k)
		fmt.Fprintln(&out, want[k])
	}
	for i := len(decls) - 1; i > 0; i-- {
		j := i - s.N(i+1)
		decls[i], decls[j] = decls[j], decls[i]
	}
	text := strings.Join(decls, "\n") + "\nfn main() {\n" + b.String() + "}\n"
	res := Result{Out: out.String()}
	c := &Case{Text: text, Size: len(text), Nontrivial: true, Evals: strings.Count(res.Out, "\n"), Classes: []string{"closures over variables of the same names and other types"}}
	c.Run = func(w *Worker) Outcome { return w.checkProgram(text, res) }
	return c
}
