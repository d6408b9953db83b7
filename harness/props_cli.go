package main

// C22: options that print diagnostics. C23: external C functions. C24: time.

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"time"
)

// Compiles with options before the program's own
func (w *Worker) CompileOpts(name, src, install string, opts []string, cwd string) (Exec, string) {
	dir := filepath.Join(w.dir, "c")
	os.RemoveAll(dir)
	os.MkdirAll(filepath.Join(dir, "out"), 0755)
	prog := filepath.Join(dir, name+".clara")
	bin := filepath.Join(dir, "out", name)
	os.WriteFile(prog, []byte(src), 0644)
	env := []string{"TMPDIR=" + dir, "PATH=" + w.env.GccDir + ":/usr/bin:/bin", "HOME=/nonexistent", "LC_ALL=C", "GOMAXPROCS=2"}
	args := append([]string{}, opts...)
	args = append(args, "-install", install)
	switch cwd {
	case "out": // default output directory
		cwd = filepath.Join(dir, "out")
		args = append(args, "-prog", prog)
	case "rel":
		cwd = dir
		args = append(args, "-out", "out", "-prog", name+".clara")
	default:
		cwd = dir
		args = append(args, "-prog", prog, "-out", filepath.Join(dir, "out"))
	}
	x := runLimited(Limits{CPU: 20, Wall: 120 * time.Second, Out: 32 << 20}, cwd, env, nil, w.env.Clarac, args...)
	return x, bin
}

func genC22(s *Src) *Case {
	var text, cls string
	var res Result
	valid := !s.Chance(1, 3)
	if valid {
		p := baseProf()
		p.Types, p.Fns, p.MainStmts = [2]int{0, 3}, [2]int{0, 4}, [2]int{1, 6}
		p.Generics, p.OptW, p.ListW, p.Closures, p.Flow, p.BytesW = 2, 2, 1, 3, 2, 1
		p.StdW = map[string]int{"opt": 1, "res": 1, "conv": 1, "str": 1, "list": 1}
		p.Strings, p.Data, p.Overloads, p.Extreme = 3, 2, 1, 5
		p.Fuel = 2500
		g := newGen(s, p)
		pr := g.safeProgram()
		if pr == nil {
			return nil
		}
		var why string
		res, _, why = interpret(pr, p.Fuel)
		if why != "" {
			return nil
		}
		text = programText(pr)
		cls = "valid program"
		if s.Chance(1, 3) { // any layout, names and comments
			text, _ = variant(s, pr)
			cls = "valid program, in another layout"
		}
	} else {
		_, pr, c, ok := genMistake(s, true)
		if pr == nil || ok {
			return nil
		}
		text = programText(pr)
		cls = "program with a mistake"
		_ = c
	}
	var opts []string
	var cl []string
	add := func(o ...string) { opts = append(opts, o...); cl = append(cl, "option "+o[0]) }
	for i := s.Range(1, 3); i > 0; i-- {
		switch s.N(5) {
		case 0:
			add("-lex")
		case 1:
			add("-types")
		case 2:
			add("-ast", s.Pick(".*", "main", "^m", "x|y", "[a-z]+", "", "nothing-like-it", "println"))
		case 3:
			add("-asm")
		case 4:
			add("-in")
		}
	}
	cwd := s.Pick("abs", "abs", "out", "rel")
	gcdebug := valid && s.Chance(1, 2)
	if gcdebug {
		cl = append(cl, "run with --gc.debug")
	}
	cl = append(cl, cls, "output directory "+cwd)
	c := &Case{Text: fmt.Sprintf("%s// compiled with %v (%s), gc.debug %v\n", text, opts, cwd, gcdebug), Size: len(text), Nontrivial: true, Evals: 1, Classes: cl}
	c.Run = func(w *Worker) Outcome {
		install := filepath.Join(w.env.Repo, "install")
		x0, _ := w.CompileOpts("prog", text, install, nil, "abs")
		if x0.Wall {
			return Outcome{Skip: "compiler wall clock limit"}
		}
		x, bin := w.CompileOpts("prog", text, install, opts, cwd)
		if x.Wall {
			return Outcome{Skip: "compiler wall clock limit"}
		}
		if valid {
			if p := compileProblem(x0); p != "" {
				return Outcome{Fail: p}
			}
			if p := compileProblem(x); p != "" {
				return Outcome{Fail: fmt.Sprintf("with %v: %s", opts, p)}
			}
			rx, h := w.Run(bin, nil, nil)
			o := compareRun(rx, h, res)
			if o.Fail != "" || o.Skip != "" {
				return o
			}
			if !gcdebug {
				return Outcome{}
			}
			os.Remove(filepath.Join(w.dir, "heapstat"))
			dx := runLimited(Limits{CPU: 10, Wall: 100 * time.Second, Exact: true, Out: 64 << 20}, w.dir, w.heapEnv(nil), nil, bin, "--gc.debug")
			switch {
			case dx.Wall || dx.Trunc || dx.Code == 87 || dx.Code == 88:
				return Outcome{Skip: "inconclusive run with --gc.debug"}
			case dx.Signal != "":
				return Outcome{Fail: "with --gc.debug the program was killed by a signal: " + dx.Signal}
			case dx.Code != rx.Code:
				return Outcome{Fail: fmt.Sprintf("exit status %d, with --gc.debug %d", rx.Code, dx.Code)}
			case !subsequence(rx.Out, dx.Out):
				return Outcome{Fail: "the program's output is not part of its output with --gc.debug"}
			}
			return Outcome{}
		}
		if x.Code != x0.Code || x.Signal != x0.Signal {
			return Outcome{Fail: fmt.Sprintf("exit status %d, with %v %d: %s", x0.Code, opts, x.Code, clip(x.Err, 1200))}
		}
		if _, err := os.Stat(bin); err == nil {
			return Outcome{Fail: fmt.Sprintf("with %v an executable was written", opts)}
		}
		if a, b := errorPart(x0.Out), errorPart(x.Out); strings.ReplaceAll(a, filepath.Join(w.dir, "c")+"/", "") != strings.ReplaceAll(b, filepath.Join(w.dir, "c")+"/", "") {
			return Outcome{Fail: fmt.Sprintf("different errors:\n%s\nwith %v:\n%s", clip(a, 600), opts, clip(b, 600))}
		}
		return Outcome{}
	}
	return c
}

// The lines of a, in order, among those of b. Log lines may begin in the middle of a line.
func subsequence(a, b string) bool {
	for _, l := range strings.SplitAfter(a, "\n") {
		i := strings.Index(b, l)
		if i < 0 { // broken up by log lines
			for _, c := range []byte(l) {
				k := strings.IndexByte(b, c)
				if k < 0 {
					return false
				}
				b = b[k+1:]
			}
			continue
		}
		b = b[i+len(l):]
	}
	return true
}

func errorPart(s string) string {
	if i := strings.LastIndex(s, "\nErrors\n"); i >= 0 {
		return s[i:]
	}
	return ""
}

// ---------------------------------------------------------------------------------------------------------------------
// External functions

const probeDecls = `
#[RawValues]
fn probe_zero() int
#[RawValues]
fn probe_one(a: int) int
#[RawValues]
fn probe_two(a: int, b: int) int
#[RawValues]
fn probe_six(a: int, b: int, c: int, d: int, e: int, f: int) int
#[RawValues]
fn probe_less(a: int, b: int) int
#[RawValues]
fn probe_hash(s: string) int
#[RawValues]
fn probe_mix(s: string, i: int, t: string) int
#[RawValues]
fn probe_five(a: int, s: string, b: int, t: string, u: string) int
#[RawValues]
fn probe_sum(b: bytes, n: int) int
#[RawValues]
fn probe_fill(b: bytes, v: int, n: int) nothing
#[RawValues]
fn probe_say(a: int, s: string) nothing
#[RawValues]
fn probe_poke() nothing
#[RawValues]
fn labs(a: int) int
#[RawValues]
fn strlen(s: string) int
fn probe_same(s: string) string
fn probe_sameInt(i: int) int
fn probe_sameBool(b: bool) bool
fn probe_second(a: int, b: []int) []int
fn probe_fourth(a: string, b: int, c: bytes, d: fn(int) int, e: bool) fn(int) int
fn probe_last(a: int, b: bool, c: []string, d: string, e: int, f: []string) []string
fn probeSum(b: bytes) int = probe_sum(b, length(b))
fn probeFill(b: bytes, v: int) = probe_fill(b, v, length(b))
`

func init() {
	w := func(v uint64) Value { return wrap(int64(v)) }
	hash := func(h uint64, s string) uint64 {
		for i := 0; i < len(s); i++ {
			h = (h ^ uint64(s[i])) * 16777619 % 2147483647
		}
		return h
	}
	I := func(v Value) uint64 { return uint64(v.(int64)) }
	S := func(v Value) string { return v.(string) }
	e := func(weight int, pure bool, name string, ret *Ty, params []*Ty, f func(in *Interp, a []Value) Value) {
		std("ext", weight, pure, name, "", ret, params, f)
	}
	e(4, true, "probe_zero", tInt, nil, func(in *Interp, a []Value) Value { return int64(41) })
	e(2, true, "probe_one", tInt, ps(tInt), func(in *Interp, a []Value) Value { return w(I(a[0]) ^ 0x5555) })
	e(3, true, "probe_two", tInt, ps(tInt, tInt), func(in *Interp, a []Value) Value { return w(I(a[0]) - 2*I(a[1])) })
	e(4, true, "probe_six", tInt, ps(tInt, tInt, tInt, tInt, tInt, tInt), func(in *Interp, a []Value) Value {
		return w(I(a[0]) + 3*I(a[1]) + 5*I(a[2]) + 7*I(a[3]) + 11*I(a[4]) + 13*I(a[5]))
	})
	e(3, true, "probe_less", tInt, ps(tInt, tInt), func(in *Interp, a []Value) Value {
		x, y := a[0].(int64), a[1].(int64)
		switch {
		case x < y:
			return int64(1)
		case x > y:
			return int64(-1)
		}
		return int64(0)
	})
	e(3, true, "probe_hash", tInt, ps(tStr), func(in *Interp, a []Value) Value { return w(hash(17, S(a[0]))) })
	e(4, true, "probe_mix", tInt, ps(tStr, tInt, tStr), func(in *Interp, a []Value) Value {
		if i := a[1].(int64); i >= 0 && i < int64(len(S(a[0]))) {
			return int64(S(a[0])[i])
		}
		return -int64(len(S(a[2])))
	})
	e(4, true, "probe_five", tInt, ps(tInt, tStr, tInt, tStr, tStr), func(in *Interp, a []Value) Value {
		return w(hash(hash(hash(5, S(a[1])), S(a[3])), S(a[4])) + 3*I(a[0]) - I(a[2]))
	})
	e(4, false, "probeSum", tInt, ps(tBytes), func(in *Interp, a []Value) Value {
		r := int64(0)
		for i, b := range a[0].(*BytesV).B {
			r += int64(b) * int64(i+1)
		}
		return r
	})
	e(6, false, "probeFill", tNothing, ps(tBytes, tInt), func(in *Interp, a []Value) Value {
		b := a[0].(*BytesV).B
		for i := range b {
			b[i] = byte(a[1].(int64) + int64(i))
		}
		return nil
	})
	e(8, false, "probe_say", tNothing, ps(tInt, tStr), func(in *Interp, a []Value) Value {
		in.print(fmt.Sprintf("say %d <%s>\n", a[0].(int64), S(a[1])))
		return nil
	})
	e(2, false, "probe_poke", tNothing, nil, func(in *Interp, a []Value) Value { in.print("poke\n"); return nil })
	e(2, true, "labs", tInt, ps(tInt), func(in *Interp, a []Value) Value {
		if v := a[0].(int64); v < 0 {
			return w(uint64(-v))
		}
		return a[0]
	})
	e(2, true, "strlen", tInt, ps(tStr), func(in *Interp, a []Value) Value { return int64(len(S(a[0]))) })
	arg := func(i int) func(in *Interp, a []Value) Value {
		return func(in *Interp, a []Value) Value { return a[i] }
	}
	e(3, true, "probe_same", tStr, ps(tStr), arg(0))
	e(2, true, "probe_sameInt", tInt, ps(tInt), arg(0))
	e(3, true, "probe_sameBool", tBool, ps(tBool), arg(0))
	e(3, true, "probe_second", tArr(tInt), ps(tInt, tArr(tInt)), arg(1))
	e(2, true, "probe_fourth", tFn(tInt, tInt), ps(tStr, tInt, tBytes, tFn(tInt, tInt), tBool), arg(3))
	e(2, true, "probe_last", tArr(tStr), ps(tInt, tBool, tArr(tStr), tStr, tInt, tArr(tStr)), arg(5))
}

func (e *Env) extInstall() string { return filepath.Join(e.Scratch, "install") }

func prepareExt(w *Worker) error {
	dst, src := w.env.extInstall(), filepath.Join(w.env.Repo, "install")
	os.RemoveAll(dst)
	if err := os.MkdirAll(filepath.Join(dst, "init"), 0755); err != nil {
		return err
	}
	if err := os.Symlink(filepath.Join(src, "lib"), filepath.Join(dst, "lib")); err != nil {
		return err
	}
	fs, _ := filepath.Glob(filepath.Join(src, "init", "*"))
	fs = append(fs, filepath.Join(verifDir(), "harness", "c", "probe.c"))
	for _, f := range fs {
		b, err := os.ReadFile(f)
		if err != nil {
			return err
		}
		if err := os.WriteFile(filepath.Join(dst, "init", filepath.Base(f)), b, 0644); err != nil {
			return err
		}
	}
	return nil
}

func genC23(s *Src) *Case {
	p := baseProf()
	p.Types, p.Fns, p.MainStmts = [2]int{0, 2}, [2]int{1, 4}, [2]int{4, 12}
	p.Strings, p.BytesW, p.Calls, p.Closures, p.Data, p.Arith = 3, 3, 4, 2, 2, 3
	p.StdW = map[string]int{"ext": 6, "conv": 1, "str": 1}
	p.Extreme = 20
	p.Depth = 4
	g := newGen(s, p)
	pr := g.safeProgram()
	if pr == nil {
		return nil
	}
	res, _, why := interpret(pr, p.Fuel)
	if why != "" {
		return nil
	}
	pr.Extra = probeDecls
	text := programText(pr)
	n := strings.Count(text[:len(text)-len(probeDecls)], "probe")
	c := &Case{Text: text, Size: len(text), Nontrivial: n >= 2, Evals: n, Classes: g.classes()}
	c.Run = func(w *Worker) Outcome {
		x, bin := w.CompileOpts("prog", text, w.env.extInstall(), nil, "abs")
		if x.Wall {
			return Outcome{Skip: "compiler wall clock limit"}
		}
		if p := compileProblem(x); p != "" {
			return Outcome{Fail: p}
		}
		rx, h := w.Run(bin, nil, nil)
		o := compareRun(rx, h, res)
		if o.Fail != "" {
			o.Fail += "\nexpected output:\n" + clip(res.Out, 1500) + "\nactual output:\n" + clip(rx.Out, 1500)
		}
		return o
	}
	return c
}

// ---------------------------------------------------------------------------------------------------------------------
// Time

func genC24(s *Src) *Case {
	var b strings.Builder
	b.WriteString("fn show(t: time) {\n    println(t.sec)\n    println(t.usec)\n    println(t.toMicros())\n    println(t.toMillis())\n    println(t.toSecs())\n}\n")
	b.WriteString("fn diff(a: time, b: time) int = b.toMicros() - a.toMicros()\nfn main() {\n")
	var want []string
	n := s.Range(1, 6)
	lits := func(v int64) string {
		if v < 0 {
			return fmt.Sprintf("0 - %d", -v)
		}
		return fmt.Sprint(v)
	}
	big := 0
	for i := 0; i < n; i++ {
		sec := []int64{0, 1, 59, 1e9, 1700000000, 4611686018427, 4611686018428, -1, -1700000000, 1<<31 - 1, 1 << 31, 1<<62 - 1, 4294967296}[s.N(13)]
		if s.Chance(1, 2) {
			sec = int64(s.next() >> uint(2+s.N(60)))
		}
		us := []int64{0, 1, 999, 1000, 999999, 1000000, -1, 500000, 1<<40 + 7}[s.N(9)]
		if s.Chance(1, 2) {
			us = int64(s.N(1000000))
		}
		if sec > 1<<31 {
			big++
		}
		mi := wrap(wrap(sec*1000000) + us)
		fmt.Fprintf(&b, "    t%d := Time(%s, %s)\n    show(t%d)\n", i, lits(sec), lits(us), i)
		for _, v := range []int64{sec, us, mi, mi / 1000, mi / 1000000} {
			want = append(want, fmt.Sprint(v))
		}
		if s.Chance(1, 3) {
			v := int64(s.N(2000000))
			fmt.Fprintf(&b, "    t%d.usec = %d\n    println(t%d.toMicros())\n", i, v, i)
			want = append(want, fmt.Sprint(wrap(wrap(sec*1000000)+v)))
		}
	}
	k := s.Range(1, 6)
	for i := 0; i < k; i++ {
		fmt.Fprintf(&b, "    n%d := Now()\n", i)
		switch s.N(3) {
		case 0:
			fmt.Fprintf(&b, "    for q in 0 .. %d { toString(q).append(\"x\") }\n", s.Range(1, 60))
		case 1:
			fmt.Fprintf(&b, "    a%d := [n%d, n0]\n", i, i)
		}
	}
	for i := 0; i < k; i++ {
		fmt.Fprintf(&b, "    show(n%d)\n    println(diff(n0, n%d))\n", i, i)
	}
	b.WriteString("}\n")
	text := b.String()
	c := &Case{Text: text, Size: len(text), Nontrivial: true, Evals: n + k, Classes: []string{fmt.Sprintf("%d constructed, %d now", n, k)}}
	c.Run = func(w *Worker) Outcome {
		x, bin := w.Compile(text)
		if x.Wall {
			return Outcome{Skip: "compiler wall clock limit"}
		}
		if p := compileProblem(x); p != "" {
			return Outcome{Fail: p}
		}
		before := time.Now().UnixMicro()
		rx, h := w.Run(bin, nil, nil)
		after := time.Now().UnixMicro()
		if o := liveRun(rx, h); o.Fail != "" || o.Skip != "" {
			return o
		}
		ls := strings.Split(strings.TrimSuffix(rx.Out, "\n"), "\n")
		if len(ls) != len(want)+6*k {
			return Outcome{Fail: fmt.Sprintf("%d lines of output, expected %d", len(ls), len(want)+6*k)}
		}
		for i, v := range want {
			if ls[i] != v {
				return Outcome{Fail: fmt.Sprintf("output line %d: expected %s, got %s", i+1, v, ls[i])}
			}
		}
		if after < before {
			return Outcome{Skip: "clock was set back"}
		}
		last, first := before, int64(0)
		for i := 0; i < k; i++ {
			var v [6]int64
			for j := range v {
				if _, err := fmt.Sscan(ls[len(want)+6*i+j], &v[j]); err != nil {
					return Outcome{Fail: "not a number: " + ls[len(want)+6*i+j]}
				}
			}
			m := v[0]*1000000 + v[1]
			if i == 0 {
				first = m
			}
			switch {
			case v[1] < 0 || v[1] > 999999:
				return Outcome{Fail: fmt.Sprintf("microseconds of Now() are %d", v[1])}
			case m < last || m > after:
				return Outcome{Fail: fmt.Sprintf("Now() number %d is %d, expected from %d to %d", i, m, last, after)}
			case v[2] != m || v[3] != m/1000 || v[4] != m/1000000 || v[5] != m-first:
				return Outcome{Fail: fmt.Sprintf("Now() of %d s and %d us gives %v", v[0], v[1], v[2:])}
			}
			last = m
		}
		return Outcome{}
	}
	return c
}

// ---------------------------------------------------------------------------------------------------------------------
// The end of a program

func genC25(s *Src) *Case {
	p := baseProf()
	p.Flow, p.Calls, p.Closures, p.Rec, p.BlockDepth, p.Fns = 3, 3, 3, 2, 4, [2]int{2, 5}
	p.Extreme = 3
	g := newGen(s, p)
	pr := g.safeProgram()
	if pr == nil {
		return nil
	}
	code := func() int64 {
		k := []int64{0, 1, 2, 3, 42, 127, 128, 200, 255, 256, 257, 511, 1000, -1, -2, -255, -256, 65536, 1 << 31, 1<<40 + 5, -1 << 50}[s.N(21)]
		if k&255 == 87 || k&255 == 88 {
			k = 1
		}
		return k
	}
	msg := func() *Expr {
		m := s.Pick("stop", "", "100% sure %d", "two\nlines", "日本", "a \"quoted\" one", strings.Repeat("long ", s.Range(1, 60)))
		if s.Chance(1, 3) {
			return call(stdf("append", tStr, tStr), slit(m), call(stdf("toString", tInt), lit(int64(s.N(1000)))))
		}
		return slit(m)
	}
	var cl []string
	end := func() *Stmt {
		switch s.N(5) {
		case 0:
			cl = append(cl, "panic")
			return &Stmt{Op: SExpr, R: call(stdf("panic", tStr), msg())}
		case 1:
			cl = append(cl, "assert that fails")
			return &Stmt{Op: SExpr, R: call(stdf("assert", tBool, tStr), bin(">", lit(int64(s.N(3))), lit(5)), msg())}
		case 2:
			cl = append(cl, "assert that holds")
			return &Stmt{Op: SExpr, R: call(stdf("assert", tBool, tStr), bin("<", lit(int64(s.N(3))), lit(5)), msg())}
		}
		cl = append(cl, "exit")
		return &Stmt{Op: SExpr, R: call(stdf("exit", tInt), lit(code()))}
	}
	if s.Chance(1, 3) { // inside an expression
		v := &Var{Name: "v", T: tInt}
		var last []*Stmt
		if s.Chance(1, 2) {
			last = []*Stmt{{Op: SIf, Conds: []*Expr{bin(s.Pick("==", "<", ">"), use(v), lit(int64(s.N(4))))}, Blocks: [][]*Stmt{{end()}}}}
		} else {
			last = []*Stmt{end()}
		}
		stop := &FnDecl{Name: g.fresh("stop"), Ret: tInt, Params: []*Var{v}, Body: append(last, &Stmt{Op: SReturn, R: use(v)})}
		var at []**Expr
		for _, p := range collect(pr).es {
			if e := *p; e.Op == ECall {
				for i, k := range e.Kids {
					if k.T != nil && k.T.K == KInt && !(e.Dot && i == 0) {
						at = append(at, &e.Kids[i])
					}
				}
			}
		}
		if len(at) == 0 {
			return nil
		}
		pr.Fns = append(pr.Fns, stop)
		if pr.Order != nil {
			pr.Order = append(pr.Order, len(pr.Types)+len(pr.Fns)-1)
		}
		for k := s.Range(1, 2); k > 0; k-- {
			x := at[s.N(len(at))]
			*x = call(stop, *x)
		}
		cl = append(cl, "in an expression")
	} else {
		for k := s.Range(1, 3); k > 0; k-- {
			ss := collect(pr).ss
			b := ss[s.N(len(ss))]
			for try := 0; len(*b) == 0 && try < 20; try++ {
				b = ss[s.N(len(ss))]
			}
			i := s.N(len(*b) + 1)
			if i == len(*b) && i > 0 {
				i--
			}
			*b = append((*b)[:i:i], append([]*Stmt{end()}, (*b)[i:]...)...)
		}
	}
	c := caseOf(pr, cl, p.Fuel, func(r Result) bool { return r.Panic != nil })
	return c
}

func init() {
	reg(&Prop{ID: "C25", Rule: "generated programs with exit, panic and assert (holding and failing) put at random statements of any function, block, loop, case or closure, or inside call arguments; non-trivial: the reference run ends in one of them",
		Quick: 1100, Thorough: 20000, Budget: [2]time.Duration{45 * time.Second, 13 * time.Minute}, Gen: genC25})
	reg(&Prop{ID: "C22", Rule: "generated programs, a third of them with one mistake, compiled without and with one to three of -lex, -types, -ast REGEX, -asm and -in, with the output directory given absolutely, relatively or by default; valid ones are run, half of them also with --gc.debug; all are non-trivial",
		Quick: 700, Thorough: 12000, Budget: [2]time.Duration{45 * time.Second, 13 * time.Minute}, Gen: genC22})
	reg(&Prop{ID: "C23", Rule: "generated programs calling twenty external C functions of zero to six parameters (ints, strings, bytes; arrays, functions and booleans as they are), nested in other calls, operators, closures and arguments that allocate; the C side checks stack alignment; non-trivial: at least two external calls in the source",
		Quick: 900, Thorough: 16000, Budget: [2]time.Duration{45 * time.Second, 13 * time.Minute}, Gen: genC23, Prepare: prepareExt})
	reg(&Prop{ID: "C24", Rule: "programs converting one to six constructed time values (ordinary, negative, extreme) and reading the clock one to six times with allocations in between; all are non-trivial",
		Quick: 300, Thorough: 5000, Budget: [2]time.Duration{30 * time.Second, 8 * time.Minute}, Gen: genC24})
}
