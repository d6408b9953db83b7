package main

import (
	"fmt"
	"sort"
	"strings"
	"time"
)

// Compares a run with the interpreter's result
func compareRun(x Exec, h Heap, want Result) Outcome {
	o := compareRun1(x, h, want)
	if o.Fail == "" && o.Skip == "" && !h.Ok && x.Signal == "" {
		return Outcome{Skip: "no heap statistics"}
	}
	return o
}

func compareRun1(x Exec, h Heap, want Result) Outcome {
	if x.Wall || x.Code == 87 || x.Code == 88 {
		return Outcome{Skip: fmt.Sprintf("inconclusive run (wall=%v code=%d)", x.Wall, x.Code)}
	}
	if x.CPU {
		return Outcome{Fail: "the program did not terminate (CPU limit)\n" + diffText(want.Out, x.Out)}
	}
	if h.Errors != "" {
		return Outcome{Fail: "heap error: " + h.Errors}
	}
	if x.Signal != "" {
		return Outcome{Fail: "the program was killed by a signal: " + x.Signal}
	}
	if want.Panic == nil {
		if x.Code != 0 {
			return Outcome{Fail: fmt.Sprintf("exit status %d, expected 0\n%s", x.Code, diffText(want.Out, x.Out))}
		}
		if x.Out != want.Out {
			return Outcome{Fail: "output differs\n" + diffText(want.Out, x.Out)}
		}
		return Outcome{}
	}
	p := want.Panic
	if p.exit {
		if x.Code != int(p.code&255) {
			return Outcome{Fail: fmt.Sprintf("exit status %d, expected %d of exit(%d)\n%s", x.Code, p.code&255, p.code, diffText(want.Out, x.Out))}
		}
		if x.Out != want.Out {
			return Outcome{Fail: "output before exit differs\n" + diffText(want.Out, x.Out)}
		}
		return Outcome{}
	}
	if x.Code != 1 {
		return Outcome{Fail: fmt.Sprintf("exit status %d, expected 1 (panic)\n%s", x.Code, diffText(want.Out, x.Out))}
	}
	if !strings.HasPrefix(x.Out, want.Out) {
		return Outcome{Fail: "output before the panic differs\n" + diffText(want.Out, x.Out)}
	}
	rest := x.Out[len(want.Out):]
	if !strings.Contains(strings.ToLower(rest), "panic") {
		return Outcome{Fail: "no panic message, got: " + clip(rest, 400)}
	}
	if p.array {
		if p.idx == int64(int32(p.idx)) && !(containsNum(rest, itoa(p.idx)) && containsNum(rest, itoa(p.len))) {
			return Outcome{Fail: fmt.Sprintf("panic message lacks index %d or length %d: %s", p.idx, p.len, clip(rest, 400))}
		}
	} else if p.what != "idx is out of range" && !strings.Contains(rest, p.what) {
		return Outcome{Fail: fmt.Sprintf("panic message lacks %q: %s", p.what, clip(rest, 400))}
	}
	return Outcome{}
}

func containsNum(s, n string) bool {
	for _, f := range strings.FieldsFunc(s, func(r rune) bool { return !(r >= '0' && r <= '9' || r == '-') }) {
		if f == n {
			return true
		}
	}
	return false
}

func diffText(want, got string) string {
	w, g := strings.Split(want, "\n"), strings.Split(got, "\n")
	for i := 0; i < len(w) || i < len(g); i++ {
		a, b := "<end>", "<end>"
		if i < len(w) {
			a = w[i]
		}
		if i < len(g) {
			b = g[i]
		}
		if a != b {
			return fmt.Sprintf("output line %d: expected %q, got %q", i+1, clip(a, 300), clip(b, 300))
		}
	}
	return "(outputs equal)"
}

// A case made of one generated program
func progCase(g *Gen, fuel int, nontrivial func(g *Gen, r Result) bool) *Case {
	var pr *Program
	var bad bool
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(genFail); ok {
					bad = true
					return
				}
				panic(r)
			}
		}()
		pr = g.program()
	}()
	if bad {
		return nil
	}
	return caseOf(pr, g.classes(), fuel, func(r Result) bool { return nontrivial(g, r) })
}

func caseOf(pr *Program, classes []string, fuel int, nontrivial func(Result) bool) *Case {
	res, in, why := interpret(pr, fuel)
	if why != "" {
		return nil
	}
	_ = in
	if res.Panic != nil {
		classes = append(classes, "ends in a panic")
	}
	text := programText(pr)
	c := &Case{Text: text, Size: len(text), Classes: classes, Evals: strings.Count(res.Out, "\n"), Nontrivial: nontrivial(res)}
	c.Run = func(w *Worker) Outcome { return w.checkProgram(text, res) }
	return c
}

// Lines between "<<<" and ">>>" come in an order which is not defined
func canon(s string) string {
	if !strings.Contains(s, "<<<\n") {
		return s
	}
	ls := strings.Split(s, "\n")
	for i := 0; i < len(ls); i++ {
		if ls[i] != "<<<" {
			continue
		}
		j := i + 1
		for j < len(ls) && ls[j] != ">>>" {
			j++
		}
		sort.Strings(ls[i+1 : j])
		i = j
	}
	return strings.Join(ls, "\n")
}

func (w *Worker) checkProgram(text string, res Result) Outcome {
	x, bin := w.Compile(text)
	if x.Wall {
		return Outcome{Skip: "compiler wall clock limit"}
	}
	if s := compileProblem(x); s != "" {
		return Outcome{Fail: s}
	}
	rx, h := w.Run(bin, nil, nil)
	rx.Out, res.Out = canon(rx.Out), canon(res.Out)
	o := compareRun(rx, h, res)
	if o.Fail != "" {
		o.Fail += "\nexpected output:\n" + clip(res.Out, 1500) + "\nactual output:\n" + clip(rx.Out, 1500)
	}
	return o
}

// ---------------------------------------------------------------------------------------------------------------------

func langProp(id, rule string, quick, thorough int, prof func(s *Src) *Prof, nontrivial func(g *Gen, r Result) bool) *Prop {
	return &Prop{ID: id, Rule: rule, Quick: quick, Thorough: thorough, Budget: [2]time.Duration{45 * time.Second, 13 * time.Minute},
		Gen: func(s *Src) *Case {
			p := prof(s)
			g := newGen(s, p)
			return progCase(g, p.Fuel, nontrivial)
		}}
}

func baseProf() *Prof {
	return &Prof{Types: [2]int{0, 2}, Fns: [2]int{1, 4}, MainStmts: [2]int{4, 12}, BodyStmts: [2]int{1, 3}, Depth: 3, BlockDepth: 3,
		Arith: 2, Calls: 1, Closures: 1, Data: 1, Generics: 1, Strings: 2, BytesW: 0, Flow: 1, Overloads: 1, Rec: 1, Extreme: 10,
		StdW: map[string]int{"conv": 1, "str": 1}, Fuel: 40000, Shadow: 20, OptW: 2, ListW: 0, MaxParams: 4, Trace: 12}
}

var props = map[string]*Prop{}

func reg(p *Prop) { props[p.ID] = p }

func any_(g *Gen, names ...string) bool {
	for _, n := range names {
		if g.feat[n] {
			return true
		}
	}
	return false
}

func count(g *Gen, names ...string) int {
	k := 0
	for _, n := range names {
		if g.feat[n] {
			k++
		}
	}
	return k
}

func init() {
	reg(langProp("C01", "generated programs whose expressions mix all operators, literals up to the extremes, and operands from variables, parameters, fields, elements, captures and calls; non-trivial: at least three different operators and at least three lines of output",
		1100, 20000, func(s *Src) *Prof {
			p := baseProf()
			p.Arith, p.Depth, p.Extreme, p.Strings = 6, 5, 40, 0
			p.StdW = map[string]int{"conv": 0}
			if s.Chance(1, 3) {
				p.Depth = 7
				p.Fns = [2]int{0, 2}
			}
			return p
		}, func(g *Gen, r Result) bool {
			return count(g, "op +", "op -", "op *", "op /", "op &", "op |", "op ^", "op <<", "op >>", "op ==", "op <", "op <=", "op >", "op >=", "and", "or") >= 3 && strings.Count(r.Out, "\n") >= 3
		}))

	reg(langProp("C02", "generated programs dominated by nested if/while/for/match, shadowing and early returns, tracing execution by printing; non-trivial: at least two kinds of control statement and at least five lines of output",
		1100, 20000, func(s *Src) *Prof {
			p := baseProf()
			p.Flow, p.BlockDepth, p.BodyStmts, p.Arith, p.Shadow = 5, 5, [2]int{1, 4}, 1, 40
			p.Extreme = 3
			if s.Chance(1, 4) { // control flow around calls
				p.Overloads, p.Calls, p.Fns = 4, 3, [2]int{2, 5}
			}
			return p
		}, func(g *Gen, r Result) bool {
			return count(g, "if", "while", "for range", "for array", "match", "early return", "for descending", "branches return", "match returns") >= 2 && strings.Count(r.Out, "\n") >= 5
		}))

	reg(langProp("C03", "generated programs with many functions (overload sets, recursion, up to six parameters, dot calls, function values), calls nested in arguments and operators, effects in arguments; non-trivial: a user call, and one of overloads, recursion, dot calls or function values",
		1100, 20000, func(s *Src) *Prof {
			p := baseProf()
			p.Fns, p.Calls, p.Overloads, p.Rec, p.MaxParams, p.Closures = [2]int{3, 7}, 4, 4, 2, 6, 2
			p.Depth = 4
			return p
		}, func(g *Gen, r Result) bool {
			return g.feat["user call"] && any_(g, "overload set", "recursion", "dot call", "fn reference", "call of fn variable", "call of fn field")
		}))

	c04 := langProp("C04", "generated programs with nested closures over shadowed variables, captured parameters, arrays, indexes and function values, assigned inside and outside, or made by different functions over variables of the same names and other types and called after collections; non-trivial: a lambda and a captured variable and a call of a function value",
		1100, 20000, func(s *Src) *Prof {
			p := baseProf()
			p.Closures, p.Shadow, p.Data, p.BodyStmts = 6, 50, 4, [2]int{1, 4}
			p.Extreme = 3
			p.Lab = 4
			return p
		}, func(g *Gen, r Result) bool {
			return g.feat["lambda"] && g.feat["capture"] && any_(g, "call of fn variable", "call of fn field", "immediate call", "show")
		})
	programs := c04.Gen
	c04.Gen = func(s *Src) *Case {
		if s.Chance(1, 6) {
			return genEnvs(s)
		}
		return programs(s)
	}
	reg(c04)

	reg(langProp("C05", "generated programs over user structs, enums and arrays nested in each other, with aliasing writes and full dumps of all variables; non-trivial: a field or element write and a match or nested read",
		1100, 20000, func(s *Src) *Prof {
			p := baseProf()
			p.Types, p.Data, p.DumpAll, p.OptW, p.ListW, p.BytesW = [2]int{2, 5}, 5, true, 1, 1, 1
			p.Extreme = 3
			return p
		}, func(g *Gen, r Result) bool {
			return any_(g, "field write", "element write") && any_(g, "match", "nested field read", "element read", "field read", "show")
		}))

	c06 := langProp("C06", "generated programs with generic functions, structs and enums instantiated at all kinds of types, inferred and explicit, in any declaration order; two cases in five instead put values of arbitrary type patterns over the type parameters together and take them apart again; non-trivial: such a case, or a generic call or type and an instantiation",
		1100, 20000, func(s *Src) *Prof {
			p := baseProf()
			p.Types, p.Generics, p.Fns, p.OptW, p.ListW, p.Data, p.BytesW = [2]int{1, 4}, 8, [2]int{2, 6}, 3, 2, 2, 1
			p.StdW = map[string]int{"opt": 1, "res": 1, "list": 1, "conv": 1}
			p.Extreme = 3
			return p
		}, func(g *Gen, r Result) bool {
			return any_(g, "generic call", "generic type") && any_(g, "explicit type args", "inferred type args")
		})
	gen6 := c06.Gen
	c06.Gen = func(s *Src) *Case {
		if s.Chance(2, 5) {
			return genPoly(s)
		}
		return gen6(s)
	}
	reg(c06)

	c07 := langProp("C07", "generated allocation-heavy programs (strings, bytes, arrays, structs, enums, closures, lists, options) run on an allocator that poisons freed blocks and checks every block; a collection runs at each allocation; one case in three instead keeps values of every type in the many places where only one reference holds them while memory is allocated; non-trivial: such a case, or at least 20 allocations by the reference interpreter",
		1100, 20000, func(s *Src) *Prof {
			p := baseProf()
			p.Types, p.Data, p.Strings, p.BytesW, p.Closures, p.OptW, p.ListW, p.Calls = [2]int{1, 4}, 3, 5, 2, 3, 3, 3, 3
			p.StdW = map[string]int{"opt": 1, "res": 1, "list": 2, "conv": 3, "str": 4, "bytes": 1, "buf": 1}
			p.DumpAll = true
			p.Extreme = 3
			p.Depth = 4
			return p
		}, func(g *Gen, r Result) bool { return r.Allocs >= 20 })
	gen7 := c07.Gen
	c07.Gen = func(s *Src) *Case {
		if s.Chance(1, 3) {
			return genRoots(s)
		}
		return gen7(s)
	}
	reg(c07)
}
