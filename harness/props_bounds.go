package main

// C09: accesses which checks before them, loops and earlier accesses seem to make safe.

import "fmt"

func genC09Flow(s *Src) *Case {
	b := newB(s)
	g := b.g
	elem := []*Ty{tInt, tInt, tStr, tBool}[s.N(4)]
	k := 0
	val := func() *Expr {
		k++
		switch elem.K {
		case KStr:
			return call(stdf("append", tStr, tStr), slit("s"), call(stdf("toString", tInt), lit(int64(k))))
		case KBool:
			return blit(k%2 == 0)
		}
		return lit(int64(k))
	}
	arr := func(n int) *Expr {
		if n == 0 {
			return &Expr{Op: ECall, Fn: stdf("array", tInt, tPar("T")), T: tArr(elem), Kids: []*Expr{lit(0), val()}}
		}
		a := &Expr{Op: EArr, T: tArr(elem)}
		for i := 0; i < n; i++ {
			a.Kids = append(a.Kids, val())
		}
		return a
	}
	n0 := s.Range(1, 5)
	i, c := &Var{Name: "i", T: tInt}, &Var{Name: "c", T: tArr(elem)}
	fd := &FnDecl{Name: "flow", Ret: tNothing, Params: []*Var{i, c}}
	idx := b.let("idx", call(argIntFn, lit(0)))
	c0 := b.let("c0", arr(s.Range(0, 4)))
	main := b.out
	b.out = nil
	sentinel := b.let("before", &Expr{Op: EArr, T: tArr(tInt), Kids: []*Expr{lit(11), lit(12), lit(13)}})
	a := b.let("a", arr(n0))
	a2 := b.let("b", arr(s.Range(0, 4)))
	j := b.let("j", lit(int64(s.N(n0+1))))
	after := b.let("after", &Expr{Op: EArr, T: tArr(tInt), Kids: []*Expr{lit(21), lit(22)}})
	arrs := []*Var{a, a, a, a2, c}
	ints := []*Var{i, i, j}
	loops := map[*Var]bool{} // variables which must not go down
	anInt := func() *Var { return ints[s.N(len(ints))] }
	anArr := func() *Var { return arrs[s.N(len(arrs))] }
	ixOf := func(v *Var) *Expr {
		switch s.W(6, 1, 1, 1, 1) {
		case 1:
			return bin("+", use(v), lit(1))
		case 2:
			return bin("-", use(v), lit(1))
		case 3:
			return bin("*", use(v), lit(2))
		case 4:
			return bin("-", length(use(anArr())), lit(1))
		}
		return use(v)
	}
	var stmts func(d, n int) []*Stmt
	stmt := func(d int) []*Stmt {
		v, x := anInt(), anArr()
		block := func(extra ...*Stmt) []*Stmt {
			r := stmts(d-1, s.Range(1, 3))
			return append(r, extra...)
		}
		kind := s.W(4, 2, 6, 5, 8, 5, 3, 1, 1, 2, 1, 2)
		if d == 3 { // accesses which nothing protects mostly end the program
			kind = s.W(1, 1, 4, 5, 8, 5, 3, 1, 1, 2, 1, 3)
		}
		if d <= 0 && kind >= 3 && kind != 7 && kind != 11 {
			kind = s.N(3)
		}
		switch kind {
		case 0: // read
			b.feat["read"]++
			return []*Stmt{{Op: SExpr, R: call(stdf("println", elem), index(use(x), ixOf(v)))}}
		case 1: // write
			b.feat["write"]++
			return []*Stmt{asg(index(use(x), ixOf(v)), val())}
		case 2: // change what was checked
			b.feat["change"]++
			switch s.N(5) {
			case 0, 1:
				if !loops[v] && s.Chance(1, 3) {
					return []*Stmt{asg(use(v), bin("-", use(v), lit(int64(s.Range(1, 2)))))}
				}
				return []*Stmt{asg(use(v), bin("+", use(v), lit(int64(s.Range(1, 2)))))}
			case 2:
				return []*Stmt{asg(use(x), use(anArr()))}
			case 3:
				return []*Stmt{asg(use(x), arr(s.Range(0, 4)))}
			}
			if loops[v] {
				return []*Stmt{asg(use(v), bin("+", use(v), lit(3)))}
			}
			return []*Stmt{asg(use(v), use(anInt()))}
		case 3: // guard
			b.feat["guard"]++
			var cond *Expr
			switch s.N(5) {
			case 0:
				cond = bin("<", use(v), length(use(x)))
			case 1:
				cond = bin("and", bin(">=", use(v), lit(0)), bin("<", use(v), length(use(x))))
			case 2:
				cond = bin(">", length(use(x)), use(v))
			case 3:
				cond = bin("<=", use(v), length(use(x)))
			default:
				cond = bin(">", length(use(x)), lit(int64(s.N(3))))
			}
			st := &Stmt{Op: SIf, Conds: []*Expr{cond}, Blocks: [][]*Stmt{block()}}
			if s.Chance(1, 3) {
				st.Blocks = append(st.Blocks, block())
			}
			return []*Stmt{st}
		case 4: // loop to the length
			b.feat["loop to length"]++
			q := &Var{Name: g.fresh("q"), T: tInt}
			if s.Chance(1, 3) { // may hide the parameter
				q.Name = g.fresh("i")
			}
			loops[q] = true
			keep := ints
			ints = append(append([]*Var{}, ints...), q, q, q, q)
			body := stmts(d-1, s.Range(1, 2))
			if s.Chance(2, 3) {
				body = append(body, &Stmt{Op: SExpr, R: call(stdf("println", elem), index(use(x), use(q)))})
			} else {
				body = append([]*Stmt{{Op: SExpr, R: call(stdf("println", elem), index(use(x), use(q)))}}, body...)
			}
			ints = keep
			var lo, hi *Expr = lit(int64(s.W(5, 1, 1))), length(use(x))
			switch s.N(6) {
			case 0:
				hi = bin("+", hi, lit(1))
			case 1:
				lo = use(v)
			}
			return []*Stmt{{Op: SForRange, Var: q, L: lo, R: hi, Blocks: [][]*Stmt{body}}}
		case 5: // while
			b.feat["while"]++
			was := loops[v]
			loops[v] = true
			body := block(asg(use(v), bin("+", use(v), lit(1))))
			loops[v] = was
			return []*Stmt{{Op: SWhile, R: bin("<", use(v), length(use(x))), Blocks: [][]*Stmt{body}}}
		case 6: // over the elements
			b.feat["over the elements"]++
			e := &Var{Name: g.fresh("e"), T: elem}
			body := append(block(), &Stmt{Op: SExpr, R: call(stdf("println", elem), use(e))})
			return []*Stmt{{Op: SForArr, Var: e, R: use(x), Blocks: [][]*Stmt{body}}}
		case 7: // the same access twice
			b.feat["twice"]++
			ix := ixOf(v)
			return []*Stmt{{Op: SExpr, R: call(stdf("println", elem), index(use(x), ix))}, asg(index(use(x), ix), val())}
		case 8: // in a closure made before or after
			b.feat["closure"]++
			cl := &Var{Name: g.fresh("cl"), T: tFn(elem)}
			mk := &Stmt{Op: SDecl, Var: cl, R: b.lambda(elem, nil, nil, index(use(x), ixOf(v)))}
			r := append([]*Stmt{mk}, stmts(0, 1)...)
			return append(r, &Stmt{Op: SExpr, R: call(stdf("println", elem), &Expr{Op: ECallV, T: elem, Kids: []*Expr{use(cl)}})})
		case 9: // ternary guard
			b.feat["ternary"]++
			return []*Stmt{{Op: SExpr, R: call(stdf("println", elem), tern(bin("<", use(v), length(use(x))), index(use(x), ixOf(v)), index(use(anArr()), lit(0))))}}
		case 10: // both sides of a condition are evaluated
			b.feat["condition"]++
			if elem.K == KInt {
				return []*Stmt{{Op: SIf, Conds: []*Expr{bin("and", bin("<", use(v), length(use(x))), bin(">", index(use(x), use(v)), lit(0)))}, Blocks: [][]*Stmt{block()}}}
			}
			return stmts(d-1, 1)
		default:
			b.feat["shadow"]++ // another array of the same name
			y := &Var{Name: x.Name, T: tArr(elem)}
			keep := arrs
			arrs = append(append([]*Var{}, arrs...), y, y, y)
			for z := 0; z < len(arrs); z++ { // the hidden one can't be named
				if arrs[z] == x {
					arrs[z] = y
				}
			}
			body := stmts(d-1, s.Range(1, 3))
			arrs = keep
			body = append([]*Stmt{{Op: SDecl, Var: y, R: arr(s.Range(0, 4))}}, body...)
			return []*Stmt{{Op: SIf, Conds: []*Expr{bin("<", use(v), lit(int64(n0)))}, Blocks: [][]*Stmt{body}}}
		}
	}
	stmts = func(d, n int) []*Stmt {
		var r []*Stmt
		for ; n > 0; n-- {
			r = append(r, stmt(d)...)
		}
		return r
	}
	for m := s.Range(2, 5); m > 0; m-- {
		for _, st := range stmt(3) {
			b.emit(st)
		}
	}
	b.show(use(a))
	b.show(use(a2))
	b.show(use(sentinel))
	b.show(use(after))
	fd.Body = b.out
	b.out = main
	g.pr.Fns = append(g.pr.Fns, fd)
	b.emit(&Stmt{Op: SExpr, R: call(fd, use(idx), use(c0))})
	b.show(use(c0))
	b.println(slit("finished"))
	pr := b.prog()
	pr.Extra = argIntSrc
	text := programText(pr)
	var runs []argRun
	bad := 0
	for _, v := range []int64{0, int64(n0) - 1, int64(n0), -1, int64(s.N(n0)), sampleIndex(s, n0)} {
		args := []string{argOf(v)}
		// whether changes of a loop's variable and end count for the loop is left open
		res, _, why := interpretLive(pr, 20000, args, true)
		alt, _, whyAlt := interpretLive(pr, 20000, args, false)
		if why != "" || whyAlt != "" {
			continue
		}
		if res.Panic != nil {
			bad++
		}
		runs = append(runs, argRun{args, res, &alt})
	}
	if len(runs) == 0 {
		return nil
	}
	var cl []string
	for k := range b.feat {
		cl = append(cl, k)
	}
	return argCase(text, runs, append(cl, "flow"), bad > 0)
}

type argRun struct {
	args []string
	res  Result
	alt  *Result // also right
}

// A program and what it does with some arguments
func argCase(text string, runs []argRun, cl []string, nontrivial bool) *Case {
	full := text
	for _, r := range runs {
		full += fmt.Sprintf("// run with arguments %v\n", r.args)
	}
	c := &Case{Text: full, Size: len(full), Nontrivial: nontrivial, Evals: len(runs), Classes: cl}
	c.Run = func(w *Worker) Outcome {
		x, bin := w.Compile(text)
		if x.Wall {
			return Outcome{Skip: "compiler wall clock limit"}
		}
		if p := compileProblem(x); p != "" {
			return Outcome{Fail: p}
		}
		for _, r := range runs {
			rx, h := w.Run(bin, r.args, nil)
			if r.alt != nil {
				if o := compareRun(rx, h, *r.alt); o.Fail == "" && o.Skip == "" {
					continue
				}
			}
			if o := compareRun(rx, h, r.res); o.Fail != "" || o.Skip != "" {
				if o.Fail != "" {
					o.Fail = fmt.Sprintf("with arguments %v: %s\nexpected output:\n%s\nactual output:\n%s", r.args, o.Fail, clip(r.res.Out, 1000), clip(rx.Out, 1000))
				}
				return o
			}
		}
		return Outcome{}
	}
	return c
}
