package main

// C08: unreachable memory is reclaimed. C09: out-of-range accesses.

import (
	"fmt"
	"strconv"
	"strings"
	"time"
)

// argInt(k): the k-th program argument as int ("n5" is -5)
const argIntSrc = `
fn argInt(k: int) int {
  s := getRuntime().args[k + 1]
  neg := s.byte(0) == 0x6e
  v := 0
  for i in (neg ? 1 : 0) .. s.length {
    v = (v * 10) - (s.byte(i) - 48)
  }
  return neg ? v : 0 - v
}
`

var argIntFn = &FnDecl{Name: "argInt", Ret: tInt, Params: []*Var{{Name: "k", T: tInt}}, NoDot: true, Builtin: func(in *Interp, a []Value) Value {
	s := in.Args[a[0].(int64)]
	neg := strings.HasPrefix(s, "n")
	v, err := strconv.ParseInt(strings.TrimPrefix(s, "n"), 10, 64)
	if err != nil {
		panic(err)
	}
	if neg {
		v = -v
	}
	return wrap(v)
}}

func argOf(v int64) string {
	if v < 0 {
		return "n" + strings.TrimPrefix(strconv.FormatInt(v, 10), "-")
	}
	return strconv.FormatInt(v, 10)
}

// ---------------------------------------------------------------------------------------------------------------------

func sampleIndex(s *Src, n int) int64 {
	switch s.W(4, 4, 3, 4, 3) {
	case 0:
		if n > 0 {
			return int64(s.N(n))
		}
		return 0
	case 1:
		return int64(n) + int64(s.Range(0, 2)) - 1
	case 2:
		return -1 - int64(s.N(n+3))
	case 3:
		// wraps around if scaled, tagged or cut to 32 bits
		base := []int64{1 << 31, 1 << 32, 1 << 33, 1 << 58, 1 << 59, 1 << 60, 1 << 61, maxInt, minInt, -(1 << 31), -(1 << 32), -(1 << 60), -(1 << 61), 1 << 29, 1 << 16, 1 << 8}
		return clampInt(base[s.N(len(base))] + int64(s.N(n+2)) - 1)
	default:
		return sampleInt(s)
	}
}

func genC09(s *Src) *Case {
	if s.Chance(1, 2) {
		return genC09Flow(s)
	}
	b := newB(s)
	g := b.g
	pt := &TypeDecl{Name: "cell", Fields: []Field{{"val", tInt}, {"arr", tArr(tInt)}, {"name", tStr}}}
	et := &TypeDecl{Name: "shape", IsEnum: true, Cases: []CaseDecl{{"Dot", []Field{{"x", tInt}}}, {"Nil", nil}}}
	g.pr.Types = append(g.pr.Types, pt, et)
	intL := func(v int64) *Expr { return lit(v) }
	var val func(t *Ty) *Expr
	val = func(t *Ty) *Expr {
		switch t.K {
		case KInt:
			return intL(int64(s.N(90) + 10))
		case KBool:
			return blit(s.Chance(1, 2))
		case KStr:
			return call(stdf("append", tStr, tStr), slit("s"), call(stdf("toString", tInt), lit(int64(s.N(99)))))
		case KArr:
			a := &Expr{Op: EArr, T: t}
			for i := s.Range(1, 3); i > 0; i-- {
				a.Kids = append(a.Kids, val(t.Args[0]))
			}
			return a
		case KFn:
			p := &Var{Name: g.fresh("p"), T: tInt}
			return b.lambda(tInt, []*Var{p}, nil, bin("+", use(p), lit(int64(s.N(50)))))
		}
		switch t.Def {
		case pt:
			return &Expr{Op: EStruct, T: t, Def: pt, Kids: []*Expr{val(tInt), val(tArr(tInt)), val(tStr)}}
		case et:
			if s.Chance(1, 3) {
				return &Expr{Op: EEnum, T: t, Def: et, Tag: 1}
			}
			return &Expr{Op: EEnum, T: t, Def: et, Tag: 0, Kids: []*Expr{val(tInt)}}
		}
		panic("val")
	}
	elemTys := []*Ty{tInt, tInt, tBool, tStr, pt.ty(), et.ty(), tArr(tInt), tFn(tInt, tInt)}
	mkArr := func(t *Ty) (*Expr, int) {
		switch s.N(4) {
		case 0:
			if t.K == KInt {
				n := s.N(5)
				return call(stdf("intArray", tInt), lit(int64(n))), n
			}
		case 1:
			n := s.N(6)
			f := stdf("array", tInt, tPar("T"))
			return &Expr{Op: ECall, Fn: f, T: tArr(t), Kids: []*Expr{lit(int64(n)), val(t)}}, n
		}
		if s.Chance(1, 6) { // empty
			return &Expr{Op: ECall, Fn: stdf("array", tInt, tPar("T")), T: tArr(t), Kids: []*Expr{lit(0), val(t)}}, 0
		}
		n := s.Range(1, 6)
		a := &Expr{Op: EArr, T: tArr(t)}
		for i := 0; i < n; i++ {
			a.Kids = append(a.Kids, val(t))
		}
		return a, n
	}
	nforms := s.Range(4, 9)
	type form struct {
		n    int
		name string
	}
	var forms []form
	f, i0 := b.let("which", call(argIntFn, lit(0))), b.let("idx", call(argIntFn, lit(1)))
	chain := &Stmt{Op: SIf}
	for k := 0; k < nforms; k++ {
		// fn form<k>(i: int): builds data, prints, accesses, prints again
		i := &Var{Name: "i", T: tInt}
		fd := &FnDecl{Name: fmt.Sprintf("access%d", k), Ret: tNothing, Params: []*Var{i}}
		main := b.out
		b.out = nil
		n := 0
		name := ""
		sentinel := b.let("before", val(tArr(tInt)))
		b.println(slit("start"))
		kind := s.W(10, 2, 3, 3)
		var ix *Expr = use(i)
		switch s.W(5, 1, 1, 1, 1, 2, 1) {
		case 5: // known to the compiler
			ix = lit([]int64{0, 0, 0, 1, 2, 3, 5, 9, -1, 1<<62 - 1, -1 << 62}[s.N(11)])
			if s.Chance(1, 4) {
				ix = bin("-", lit(int64(s.N(4))), lit(int64(s.N(4))))
			}
		case 6:
			k := b.let("k", lit(int64(s.N(4))))
			ix = use(k)
		case 1:
			ix = bin("+", bin("-", use(i), lit(3)), lit(3))
		case 2:
			ix = tern(blit(true), use(i), lit(0))
		case 3:
			ix = index(&Expr{Op: EArr, T: tArr(tInt), Kids: []*Expr{lit(0), use(i)}}, lit(1))
		case 4:
			p := &Var{Name: g.fresh("p"), T: tInt}
			h := b.let("h", b.lambda(tInt, []*Var{p}, nil, bin("+", use(p), use(i))))
			ix = &Expr{Op: ECallV, T: tInt, Kids: []*Expr{use(h), lit(0)}}
		}
		switch kind {
		case 1: // bytes set
			n = s.N(9)
			v := b.let("by", call(stdf("Bytes", tInt), lit(int64(n))))
			b.do(b.std("set", ps(tBytes, tInt, tInt), nil, use(v), ix, val(tInt)))
			b.show(use(v))
			name = "bytes set"
		case 2: // bytes get
			n = s.N(9)
			v := b.let("by", call(stdf("Bytes", tInt), lit(int64(n))))
			b.println(b.std("get", ps(tBytes, tInt), nil, use(v), ix))
			name = "bytes get"
		case 3: // string byte
			t := b.text()
			n = len(t)
			v := b.let("s", slit(t))
			b.println(b.std("byte", ps(tStr, tInt), nil, use(v), ix))
			name = "string byte"
		default:
			t := elemTys[s.N(len(elemTys))]
			e, ln := mkArr(t)
			n = ln
			a := b.let("a", e)
			after := b.let("after", val(tArr(tInt)))
			switch s.W(8, 1, 1) {
			case 1:
				ix = bin("-", length(use(a)), lit(1))
			case 2:
				ix = bin("+", length(use(a)), lit(int64(s.N(3)-1)))
			}
			// how the array is reached
			var base *Expr = use(a)
			switch s.W(5, 1, 1, 1, 1) {
			case 1:
				if t.K == KInt {
					st := b.let("st", &Expr{Op: EStruct, T: pt.ty(), Def: pt, Kids: []*Expr{lit(1), use(a), slit("n")}})
					base = field(use(st), "arr", tArr(tInt))
				}
			case 2:
				m := b.let("m", &Expr{Op: EArr, T: tArr(a.T), Kids: []*Expr{use(a), use(a)}})
				base = index(use(m), lit(int64(s.N(2))))
			case 3:
				p := &Var{Name: g.fresh("p"), T: a.T}
				id := &FnDecl{Name: g.fresh("same"), Ret: a.T, Params: []*Var{p}, Expr: use(p)}
				g.pr.Fns = append(g.pr.Fns, id)
				base = call(id, use(a))
			case 4:
				f := stdf("array", tInt, tPar("T"))
				m := b.let("m", &Expr{Op: ECall, Fn: f, T: tArr(a.T), Kids: []*Expr{lit(2), use(a)}})
				base = index(use(m), lit(1))
			}
			acc := index(base, ix)
			switch s.W(4, 4, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1) {
			case 11:
				q := &Var{Name: g.fresh("q"), T: tInt}
				v := &Var{Name: g.fresh("x"), T: t}
				body := []*Stmt{{Op: SDecl, Var: v, R: index(base, use(q))}, {Op: SExpr, R: call(stdf("println", tInt), use(q))}}
				if s.Chance(1, 2) {
					body = []*Stmt{asg(index(base, use(q)), val(t)), {Op: SExpr, R: call(stdf("println", tInt), use(q))}}
				}
				b.emit(&Stmt{Op: SForRange, Var: q, L: lit(0), R: ix, Blocks: [][]*Stmt{body}})
				name = "in a loop"
			case 0:
				v := b.let("x", acc)
				b.show(use(v))
				name = "read"
			case 1:
				w := b.let("w", val(t))
				b.emit(asg(acc, use(w)))
				name = "write"
			case 2: // in a closure
				cl := b.let("cl", b.lambda(t, nil, nil, acc))
				b.println(slit("made"))
				v := b.let("x", &Expr{Op: ECallV, T: t, Kids: []*Expr{use(cl)}})
				b.show(use(v))
				name = "read in closure"
			case 3: // as an argument among others
				ps1 := []*Var{}
				var args []*Expr
				m := s.Range(1, 6)
				at := s.N(m)
				for j := 0; j < m; j++ {
					ty := tInt
					if j == at {
						ty = t
					}
					ps1 = append(ps1, &Var{Name: fmt.Sprintf("p%d", j), T: ty})
					if j == at {
						args = append(args, acc)
					} else {
						args = append(args, lit(int64(j)))
					}
				}
				fn := &FnDecl{Name: g.fresh("many"), Ret: t, Params: ps1, Body: []*Stmt{{Op: SExpr, R: call(stdf("println", tStr), slit("called"))}, {Op: SReturn, R: use(ps1[at])}}}
				g.pr.Fns = append(g.pr.Fns, fn)
				v := b.let("x", call(fn, args...))
				b.show(use(v))
				name = "argument"
			case 4:
				switch {
				case t.K == KInt:
					b.println(bin("+", bin("*", acc, lit(2)), lit(1)))
				case t.K == KBool:
					b.println(tern(acc, lit(1), lit(2)))
				case t.K == KStr:
					b.println(length(acc))
				case t.Def == pt:
					b.println(field(acc, "val", tInt))
				case t.K == KFn:
					b.println(&Expr{Op: ECallV, T: tInt, Kids: []*Expr{acc, lit(4)}})
				case t.K == KArr:
					b.println(length(acc))
				default:
					x := &Var{Name: g.fresh("q"), T: tInt}
					b.emit(&Stmt{Op: SMatch, R: acc, Cases: []*MatchCase{{Tag: 0, Vars: []*Var{x}, Body: []*Stmt{{Op: SExpr, R: call(stdf("println", tInt), use(x))}}},
						{Tag: 1, Body: []*Stmt{{Op: SExpr, R: call(stdf("println", tStr), slit("nil"))}}}}})
				}
				name = "operand"
			case 5: // write through
				switch {
				case t.Def == pt:
					b.emit(asg(field(acc, "val", tInt), lit(7)))
				case t.K == KArr:
					b.emit(asg(index(acc, lit(0)), lit(7)))
				default:
					b.emit(asg(acc, val(t)))
				}
				name = "write through"
			case 6:
				if t.K == KArr { // second level
					b.println(index(index(base, lit(0)), ix))
					n = -1
				} else {
					v := b.let("x", &Expr{Op: EArr, T: tArr(t), Kids: []*Expr{acc, acc}})
					b.show(use(v))
				}
				name = "nested"
			case 7:
				v := &Var{Name: g.fresh("x"), T: t}
				c := bin(">=", use(i), lit(-9))
				b.emit(&Stmt{Op: SIf, Conds: []*Expr{c}, Blocks: [][]*Stmt{{{Op: SDecl, Var: v, R: acc}, {Op: SExpr, R: call(stdf("println", tStr), slit("in if"))}}}})
				name = "in a branch"
			case 8:
				f := stdf("setElement", tArr(tPar("T")), tInt, tPar("T"))
				e := &Expr{Op: ECall, Fn: f, T: a.T, Kids: []*Expr{base, ix, val(t)}}
				v := b.let("x", e)
				b.println(length(use(v)))
				name = "setElement"
			case 9: // returned
				p1, p2 := &Var{Name: "arr", T: a.T}, &Var{Name: "at", T: tInt}
				fn := &FnDecl{Name: g.fresh("fetch"), Ret: t, Params: []*Var{p1, p2}, Body: []*Stmt{{Op: SReturn, R: index(use(p1), use(p2))}}}
				g.pr.Fns = append(g.pr.Fns, fn)
				v := b.let("x", call(fn, base, ix))
				b.show(use(v))
				name = "returned"
			case 10: // after an earlier valid access
				if n > 0 {
					v0 := b.let("y", index(base, lit(0)))
					b.emit(asg(index(base, lit(int64(n-1))), use(v0)))
				}
				v := b.let("x", acc)
				b.show(use(v))
				name = "second access"
			}
			b.show(use(a))
			b.show(use(after))
		}
		b.show(use(sentinel))
		b.println(slit("end"))
		fd.Body = b.out
		b.out = main
		g.pr.Fns = append(g.pr.Fns, fd)
		chain.Conds = append(chain.Conds, bin("==", use(f), lit(int64(k))))
		chain.Blocks = append(chain.Blocks, []*Stmt{{Op: SExpr, R: call(fd, use(i0))}})
		forms = append(forms, form{n, name})
		b.feat[name]++
	}
	b.emit(chain)
	b.println(slit("finished"))
	pr := b.prog()
	pr.Extra = argIntSrc
	text := programText(pr)
	var runs []argRun
	bad := 0
	m := s.Range(12, 24)
	for j := 0; j < m; j++ {
		k := j
		if j >= nforms {
			k = s.N(nforms)
		}
		ln := forms[k].n
		if ln < 0 {
			ln = 2
		}
		args := []string{argOf(int64(k)), argOf(sampleIndex(s, ln))}
		res, _, why := interpretArgs(pr, 60000, args)
		if why != "" {
			continue
		}
		if res.Panic != nil {
			bad++
		}
		runs = append(runs, argRun{args: args, res: res})
	}
	if len(runs) == 0 {
		return nil
	}
	var cl []string
	for k := range b.feat {
		cl = append(cl, k)
	}
	return argCase(text, runs, cl, bad > 0)
}

// ---------------------------------------------------------------------------------------------------------------------

// A function with the same few blocks once, and with them many times over: what a block makes is garbage after the block, so
// the peak number of live blocks may not depend on how many blocks follow each other.
func genC08Blocks(s *Src) *Case {
	lib := `struct big {
    a: []string
    l: list«string»
    f: fn() string
}
fn mkList(n: int, k: int) list«string» = n == 0 ? Empty«string»() : Element(toString(k + n), mkList(n - 1, k))
fn mkArr(k: int) []string {
    a := ["", "", "", "", "", "", ""]
    for i in 0 .. a.length {
        a[i] = toString(k + i)
    }
    return a
}
fn mkBig(k: int) big {
    s := toString(k)
    return Big(mkArr(k), mkList(9, k), fn() string = s)
}
fn mkSome(k: int) option«big» = Some(mkBig(k))
fn mkRes(k: int) result«[]string, string» = Ok«[]string, string»(mkArr(k))
fn mkFn(k: int) fn() int {
    b := mkBig(k)
    return fn() int = b.a.length
}
enum tree {
    Leaf(v: string)
    Fork(l: tree, r: tree)
}
fn mkTree(d: int, k: int) tree = d == 0 ? Leaf(toString(k)) : Fork(mkTree(d - 1, k + k), mkTree(d - 1, k + k + 1))
fn depth(t: tree) int {
    match t {
        case Leaf(v): return 1
        case Fork(l, r): return depth(l) + 1
    }
}
`
	nv := 0
	fresh := func() string { nv++; return fmt.Sprintf("v%d", nv) }
	feat := map[string]int{}
	var block func(d int) string
	inner := func(d int) string {
		r := ""
		for n := s.N(3); n > 0; n-- {
			switch s.N(5) {
			case 0:
				v := fresh()
				r += v + " := " + s.Pick("mkBig(k)", "mkArr(k)", "mkSome(k)", "mkTree(3, k)", "mkFn(k)", "mkList(8, k)", "toString(k).append(\"abc\")") + "\n"
			case 1:
				r += s.Pick("print(toString(k))", "print(mkArr(k)[2])", "print(mkBig(k).f())", "print(mkBig(k).a[1])") + "\n"
			case 2:
				r += "k = k + 1\n"
			default:
				if d > 0 {
					r += block(d - 1)
				}
			}
		}
		return r
	}
	block = func(d int) string {
		v, w := fresh(), fresh()
		k := s.N(10)
		feat[[]string{"if", "match option", "for over an array", "while", "match tree", "for over a range", "match result", "elseif", "nested for", "lambda"}[k]]++
		switch k {
		case 0:
			return "if k > 0 {\n" + v + " := " + s.Pick("mkBig(k)", "mkTree(4, k)", "mkSome(k)") + "\n" + inner(d) + "}\n"
		case 1:
			return "match mkSome(k) {\ncase Some(" + v + "):\n" + inner(d) + "print(" + v + ".a[0])\ncase None():\n}\n"
		case 2:
			return "for " + v + " in mkArr(k) {\nprint(" + v + ")\n" + inner(d) + "}\n"
		case 3:
			return "while k > 0 {\n" + v + " := mkBig(k)\n" + inner(d) + "k = 0 - 1\n}\nk = 7\n"
		case 4:
			return "match mkTree(4, k) {\ncase Leaf(" + v + "):\nprint(" + v + ")\ncase Fork(" + v + ", " + w + "):\n" + inner(d) + "print(depth(" + s.Pick(v, w) + ") > 2 ? \"deep\" : \"flat\")\n}\n"
		case 5:
			return "for " + v + " in 0 .. 2 {\n" + w + " := mkBig(" + v + ")\n" + inner(d) + "}\n"
		case 6:
			return "match mkRes(k) {\ncase Err(" + v + "):\ncase Ok(" + w + "):\n" + inner(d) + "}\n"
		case 7:
			return "if k < 0 {\n" + inner(0) + "} elseif k > 0 {\n" + v + " := mkArr(k)\n" + inner(d) + "} else {\n" + inner(0) + "}\n"
		case 8:
			return "for " + v + " in [mkArr(k), mkArr(k + 1)] {\nfor " + w + " in " + v + " {\nprint(" + w + ")\n}\n" + inner(d) + "}\n"
		}
		return "if k > 0 {\n" + v + " := mkBig(k)\n" + w + " := fn() int {\n" + inner(0) + "return " + v + ".a.length\n}\nprint(toString(" + w + "()))\n}\n"
	}
	body := ""
	for n := s.Range(1, 3); n > 0; n-- {
		body += block(2)
	}
	fn := s.Pick("main", "other", "lambda", "loop")
	prog := func(n int) string {
		b := "k := 3\n" + strings.Repeat(body, n)
		switch fn {
		case "other":
			return lib + "fn other(z: string, k: int) {\n" + b[len("k := 3\n"):] + "print(z)\n}\nfn main() {\nother(toString(5), 3)\n}\n"
		case "lambda":
			return lib + "fn main() {\nf := fn() {\n" + b + "}\nf()\n}\n"
		case "loop":
			return lib + "fn main() {\nfor q in 0 .. 2 {\n" + b + "}\n}\n"
		}
		return lib + "fn main() {\n" + b + "}\n"
	}
	small, large := prog(2), prog(10)
	var cl []string
	for k := range feat {
		cl = append(cl, "blocks: "+k)
	}
	c := &Case{Text: small + "// and with the blocks ten times instead of twice\n", Size: len(small), Nontrivial: true, Evals: 2, Classes: cl}
	c.Run = func(w *Worker) Outcome {
		var peak [2]int
		for i, text := range []string{small, large} {
			x, bin := w.Compile(text)
			if x.Wall {
				return Outcome{Skip: "compiler wall clock limit"}
			}
			if p := compileProblem(x); p != "" {
				return Outcome{Fail: p}
			}
			rx, h := w.Run(bin, nil, nil)
			if o := liveRun(rx, h); o.Fail != "" || o.Skip != "" {
				return o
			}
			peak[i] = h.Peak
		}
		if peak[1] > peak[0]+8 {
			return Outcome{Fail: fmt.Sprintf("the peak number of live blocks grows with the blocks gone through: %d with the statements twice, %d with the statements ten times", peak[0], peak[1])}
		}
		return Outcome{}
	}
	return c
}

func liveRun(rx Exec, h Heap) Outcome {
	switch {
	case rx.Wall || rx.Code == 87:
		return Outcome{Skip: "inconclusive run"}
	case rx.Code != 0 || rx.Signal != "" || h.Errors != "":
		return Outcome{Fail: fmt.Sprintf("exit status %d %s %s", rx.Code, rx.Signal, h.Errors)}
	case !h.Ok:
		return Outcome{Skip: "no heap statistics"}
	}
	return Outcome{}
}

// A generated function is called n times, once with n = 8 and once with n = 40: what it allocates is garbage after each call,
// so the peak number of live blocks may not depend on n.
func genC08(s *Src) *Case {
	if s.Chance(1, 4) {
		return genC08Blocks(s)
	}
	p := baseProf()
	p.Types, p.Data, p.Strings, p.BytesW, p.Closures, p.OptW, p.ListW, p.Calls = [2]int{0, 3}, 3, 4, 2, 3, 2, 2, 3
	p.StdW = map[string]int{"opt": 1, "res": 1, "list": 2, "conv": 2, "str": 3, "bytes": 1, "buf": 1}
	p.Extreme, p.Fns, p.MainStmts, p.Depth = 0, [2]int{0, 3}, [2]int{1, 6}, 3
	g := newGen(s, p)
	var pr *Program
	ok := func() (ok bool) {
		defer func() {
			if r := recover(); r != nil {
				if _, is := r.(genFail); !is {
					panic(r)
				}
			}
		}()
		pr = g.program()
		return true
	}()
	if !ok {
		return nil
	}
	b := &B{s: s, g: g, feat: map[string]int{}}
	var work *FnDecl
	for _, f := range pr.Fns {
		if f.Name == "main" {
			work = f
		}
	}
	work.Name = "work"
	if s.Chance(1, 2) { // a cyclic structure, dropped
		d := &TypeDecl{Name: "node", Fields: []Field{{"next", nil}, {"tag", tInt}}}
		d.Fields[0].T = opt(d.ty())
		pr.Types = append(pr.Types, d)
		pr.Order = nil
		mk := func(v int64) *Expr {
			return &Expr{Op: EStruct, T: d.ty(), Def: d, Kids: []*Expr{{Op: EEnum, T: opt(d.ty()), Def: dOption, Tag: 1, TArgs: []*Ty{d.ty()}}, lit(v)}}
		}
		some := func(v *Var) *Expr {
			return &Expr{Op: EEnum, T: opt(d.ty()), Def: dOption, Tag: 0, Kids: []*Expr{use(v)}}
		}
		b.out = nil
		x, y := b.let("na", mk(1)), b.let("nb", mk(2))
		b.emit(asg(field(use(x), "next", opt(d.ty())), some(y)), asg(field(use(y), "next", opt(d.ty())), some(x)))
		work.Body = append(b.out, work.Body...)
		g.f("cycle")
	}
	if s.Chance(1, 2) { // a map, filled and dropped
		K, V := tPar("K"), tPar("V")
		mt := dMap.ty(tInt, tStr)
		q1, q2, q3 := &Var{Name: g.fresh("q"), T: tInt}, &Var{Name: g.fresh("q"), T: tInt}, &Var{Name: g.fresh("q"), T: tInt}
		b.out = nil
		m := b.let("map", &Expr{Op: ECall, Fn: stdf("NewHashMap", nil, nil), T: mt, TArgs: []*Ty{tInt, tStr}, Kids: []*Expr{
			b.lambda(tInt, []*Var{q1}, nil, bin("&", use(q1), lit(15))), b.lambda(tBool, []*Var{q2, q3}, nil, bin("==", use(q2), use(q3)))}})
		i := &Var{Name: g.fresh("i"), T: tInt}
		put := callT(stdf("put", dMap.ty(K, V), K, V), opt(tStr), use(m), use(i), call(stdf("toString", tInt), use(i)))
		b.emit(&Stmt{Op: SForRange, Var: i, L: lit(0), R: lit(int64(s.Range(1, 15))), Blocks: [][]*Stmt{{{Op: SExpr, R: put}}}})
		b.do(callT(stdf("remove", dMap.ty(K, V), K), opt(tStr), use(m), lit(0)))
		work.Body = append(b.out, work.Body...)
		g.f("map")
	}
	// main: call work n times, directly in the loop
	i := &Var{Name: "i", T: tInt}
	w := &Var{Name: "w", T: tInt}
	mainFn := &FnDecl{Name: "main", Ret: tNothing}
	inline := s.Chance(1, 3) // the garbage is made in the scope of the loop itself
	body := []*Stmt{{Op: SExpr, R: call(work)}}
	if inline {
		body = work.Body
		for k, f := range pr.Fns {
			if f == work {
				pr.Fns = append(pr.Fns[:k:k], pr.Fns[k+1:]...)
				break
			}
		}
		pr.Order = nil
		g.f("garbage in loop scope")
	}
	if s.Chance(1, 2) {
		mainFn.Body = []*Stmt{{Op: SDecl, Var: w, R: call(argIntFn, lit(0))}, {Op: SForRange, Var: i, L: lit(0), R: use(w), Blocks: [][]*Stmt{body}}}
	} else {
		mainFn.Body = []*Stmt{{Op: SDecl, Var: w, R: call(argIntFn, lit(0))}, {Op: SWhile, R: bin(">", use(w), lit(0)), Blocks: [][]*Stmt{append([]*Stmt{asg(use(w), bin("-", use(w), lit(1)))}, body...)}}}
	}
	pr.Fns = append(pr.Fns, mainFn)
	pr.Order = nil
	pr.Extra = argIntSrc
	res, _, why := interpretArgs(pr, 400000, []string{"40"})
	if why != "" || res.Panic != nil {
		return nil
	}
	text := programText(pr)
	allocs := res.Allocs
	c := &Case{Text: text, Size: len(text), Nontrivial: allocs >= 40*5, Evals: 2, Classes: g.classes()}
	c.Run = func(w *Worker) Outcome {
		x, bin := w.Compile(text)
		if x.Wall {
			return Outcome{Skip: "compiler wall clock limit"}
		}
		if p := compileProblem(x); p != "" {
			return Outcome{Fail: p}
		}
		var peak [2]int
		var total [2]int
		for k, n := range []string{"8", "40"} {
			rx, h := w.Run(bin, []string{n}, nil)
			if o := liveRun(rx, h); o.Fail != "" || o.Skip != "" {
				if o.Fail != "" {
					o.Fail = "with " + n + " iterations: " + o.Fail
				}
				return o
			}
			peak[k], total[k] = h.Peak, h.Allocs
		}
		if peak[1] > peak[0]+8 {
			return Outcome{Fail: fmt.Sprintf("the peak number of live blocks grows with the garbage created: %d blocks after 8 iterations, %d after 40 (%d and %d allocations)", peak[0], peak[1], total[0], total[1])}
		}
		return Outcome{}
	}
	return c
}

func init() {
	reg(&Prop{ID: "C08", Rule: "generated allocating code (strings, bytes, arrays, structs, enums, closures, lists, options, cycles, maps) run 8 and 40 times in a loop, as a function or in the loop's own scope, comparing peak live blocks; and nested if, match, for, while and lambda blocks, twice and ten times in a row, comparing peak live blocks; non-trivial: at least five allocations per iteration",
		Quick: 700, Thorough: 10000, Budget: [2]time.Duration{45 * time.Second, 13 * time.Minute}, Gen: genC08})
	reg(&Prop{ID: "C09", Rule: "programs with 4-9 access forms (read, write, nested, in closures, arguments, branches, through fields and calls; all element types; bytes and strings), each run 12-24 times with sampled indexes (in range, borders, negative, wrap-around candidates, extremes), and programs in which guards, loops to the length, earlier accesses and element loops come before accesses while the index and the array change, run with six arguments; non-trivial: at least one run panics",
		Quick: 1000, Thorough: 16000, Budget: [2]time.Duration{50 * time.Second, 13 * time.Minute}, Gen: genC09})
}
