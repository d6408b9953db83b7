package main

// Closures which use captured variables in every syntactic position, mixed into generated programs.

// lab returns statements for the current (declared) function: variables, a closure over a random subset of them, changes
// of the originals, and calls whose results are printed.
func (g *Gen) lab() []*Stmt {
	g.f("capture positions")
	var out []*Stmt
	decl := func(pre string, t *Ty, e *Expr) *Var {
		n := g.varName(pre)
		v := g.declare(&Var{Name: n, T: t})
		out = append(out, &Stmt{Op: SDecl, Var: v, R: e})
		return v
	}
	use := func(v *Var) *Expr { return &Expr{Op: EVar, T: v.T, Var: v} }
	intArr := func(n int) *Expr {
		a := &Expr{Op: EArr, T: tArr(tInt)}
		for i := 0; i < n; i++ {
			a.Kids = append(a.Kids, lit(int64(g.s.N(50))))
		}
		return a
	}
	var pool []*Var
	n := g.s.Range(1, 6)
	var ints, idxs, bools, strs, arrs, fns, opts, nested []*Var
	for i := 0; i < n; i++ {
		switch g.s.W(4, 3, 2, 2, 4, 2, 2, 1) {
		case 0:
			v := decl("v", tInt, lit(int64(g.s.Range(0, 9)+10*i)))
			ints = append(ints, v)
			pool = append(pool, v)
		case 1:
			v := decl("k", tInt, lit(int64(g.s.N(3))))
			v.Const = true
			idxs = append(idxs, v)
			pool = append(pool, v)
		case 2:
			v := decl("b", tBool, blit(g.s.N(2) == 1))
			bools = append(bools, v)
			pool = append(pool, v)
		case 3:
			v := decl("s", tStr, g.dotty(call(stdf("append", tStr, tStr), g.strLit(), slit("x"))))
			strs = append(strs, v)
			pool = append(pool, v)
		case 4:
			v := decl("a", tArr(tInt), intArr(g.s.Range(3, 5)))
			v.Const = true
			arrs = append(arrs, v)
			pool = append(pool, v)
		case 5:
			p := &Var{Name: g.fresh("p"), T: tInt}
			fd := &FnDecl{Name: "fn", Ret: tInt, Params: []*Var{p}, Expr: bin("+", use(p), lit(int64(g.s.Range(1, 99))))}
			v := decl("h", tFn(tInt, tInt), &Expr{Op: ELambda, T: tFn(tInt, tInt), Fn: fd})
			fns = append(fns, v)
			pool = append(pool, v)
		case 6:
			e := &Expr{Op: EEnum, T: opt(tInt), Def: dOption, Tag: g.s.N(2)}
			if e.Tag == 0 {
				e.Kids = []*Expr{lit(int64(g.s.N(20)))}
			} else {
				e.TArgs = []*Ty{tInt}
			}
			v := decl("o", opt(tInt), e)
			opts = append(opts, v)
			pool = append(pool, v)
		case 7:
			e := &Expr{Op: EArr, T: tArr(tArr(tInt)), Kids: []*Expr{intArr(3), intArr(3), intArr(3)}}
			v := decl("m", e.T, e)
			v.Const = true
			nested = append(nested, v)
			pool = append(pool, v)
		}
	}
	param := &Var{Name: g.varName("p"), T: tInt}
	acc := &Var{Name: g.fresh("acc"), T: tInt}
	parent := g.sc.fn
	fs := &FnScope{parent: parent, lambda: true, tps: parent.tps, ret: tInt, caps: map[*Var]bool{}}
	for _, v := range pool {
		fs.caps[v] = true
	}
	fd := &FnDecl{Name: "fn", Ret: tInt, Params: []*Var{param}}
	fs.decl = fd
	pop := g.push(fs)
	g.declare(param)
	g.declare(acc)
	A := func() *Expr { return use(acc) }
	add := func(e *Expr) *Stmt { return &Stmt{Op: SAssign, L: A(), R: bin("+", A(), e)} }
	one := func(vs []*Var) *Var { return vs[g.s.N(len(vs))] }
	// an int atom built from captured variables, whatever is there
	atom := func() *Expr {
		var cs []*Expr
		for _, v := range ints {
			cs = append(cs, use(v))
		}
		for _, v := range idxs {
			cs = append(cs, use(v))
		}
		for _, v := range strs {
			cs = append(cs, length(use(v)))
		}
		for _, v := range arrs {
			cs = append(cs, length(use(v)))
			for _, k := range idxs {
				cs = append(cs, index(use(v), use(k)))
			}
		}
		for _, v := range nested {
			cs = append(cs, index(index(use(v), lit(1)), lit(2)))
			for _, k := range idxs {
				cs = append(cs, index(index(use(v), use(k)), lit(1)), index(index(use(v), lit(0)), use(k)))
			}
		}
		if len(cs) == 0 {
			return use(param)
		}
		return cs[g.s.N(len(cs))]
	}
	idx := func() *Expr {
		if len(idxs) > 0 {
			return use(one(idxs))
		}
		return lit(int64(g.s.N(3)))
	}
	body := []*Stmt{{Op: SDecl, Var: acc, R: bin("*", use(param), lit(3))}}
	m := g.s.Range(1, 4)
	var one1 func(depth int) []*Stmt
	one1 = func(depth int) []*Stmt {
		var ts []func() []*Stmt
		t := func(ok bool, f func() []*Stmt) {
			if ok {
				ts = append(ts, f)
			}
		}
		t(true, func() []*Stmt { return []*Stmt{add(atom())} })
		t(len(arrs) > 0, func() []*Stmt { return []*Stmt{add(index(use(one(arrs)), idx()))} })
		t(len(arrs) > 0, func() []*Stmt {
			return []*Stmt{{Op: SAssign, L: index(use(one(arrs)), idx()), R: atom()}}
		})
		t(len(nested) > 0, func() []*Stmt {
			return []*Stmt{{Op: SAssign, L: index(index(use(one(nested)), idx()), idx()), R: bin("+", A(), atom())}}
		})
		t(depth > 0, func() []*Stmt {
			lv := &Var{Name: g.fresh("i"), T: tInt, Const: true}
			st := &Stmt{Op: SForRange, Var: lv, L: lit(0), R: lit(3)}
			if len(idxs) > 0 {
				if g.s.Chance(1, 2) {
					st.R = use(one(idxs))
				} else {
					st.L = use(one(idxs))
				}
			}
			st.Blocks = [][]*Stmt{append([]*Stmt{add(use(lv))}, one1(depth-1)...)}
			return []*Stmt{st}
		})
		t(depth > 0 && len(arrs) > 0, func() []*Stmt {
			lv := &Var{Name: g.fresh("e"), T: tInt}
			return []*Stmt{{Op: SForArr, Var: lv, R: use(one(arrs)), Blocks: [][]*Stmt{append([]*Stmt{add(use(lv))}, one1(depth-1)...)}}}
		})
		t(depth > 0, func() []*Stmt {
			st := &Stmt{Op: SIf}
			c1 := bin([]string{"<", ">", "=="}[g.s.N(3)], A(), atom())
			if len(bools) > 0 && g.s.Chance(1, 2) {
				c1 = use(one(bools))
				if g.s.Chance(1, 3) {
					c1 = &Expr{Op: ENot, T: tBool, Kids: []*Expr{c1}}
				}
			}
			st.Conds = []*Expr{c1, bin("<=", atom(), A())}
			st.Blocks = [][]*Stmt{one1(depth - 1), one1(depth - 1), one1(depth - 1)}
			return []*Stmt{st}
		})
		t(depth > 0, func() []*Stmt {
			w := &Var{Name: g.fresh("w"), T: tInt, Const: true}
			b := append([]*Stmt{{Op: SAssign, L: use(w), R: bin("+", use(w), lit(1))}}, one1(depth-1)...)
			c := bin("<", use(w), lit(3))
			if g.s.Chance(1, 2) {
				c = bin("and", bin("<", use(w), idx()), bin("<", use(w), lit(3)))
			}
			return []*Stmt{{Op: SDecl, Var: w, R: lit(0)}, {Op: SWhile, R: c, Blocks: [][]*Stmt{b}}}
		})
		t(depth > 0 && len(opts) > 0, func() []*Stmt {
			x := &Var{Name: g.fresh("q"), T: tInt}
			return []*Stmt{{Op: SMatch, R: use(one(opts)), Cases: []*MatchCase{
				{Tag: 0, Vars: []*Var{x}, Body: append([]*Stmt{add(use(x))}, one1(depth-1)...)},
				{Tag: 1, Body: one1(depth - 1)}}}}
		})
		t(len(bools) > 0, func() []*Stmt { return []*Stmt{add(tern(use(one(bools)), atom(), A()))} })
		t(true, func() []*Stmt { return []*Stmt{add(tern(bin("<", A(), lit(20)), A(), atom()))} })
		t(len(fns) > 0, func() []*Stmt {
			return []*Stmt{add(&Expr{Op: ECallV, T: tInt, Kids: []*Expr{use(one(fns)), atom()}})}
		})
		t(true, func() []*Stmt {
			return []*Stmt{add(index(&Expr{Op: EArr, T: tArr(tInt), Kids: []*Expr{lit(5), atom(), lit(6)}}, lit(1)))}
		})
		t(len(strs) > 0, func() []*Stmt {
			return []*Stmt{add(length(call(stdf("append", tStr, tStr), use(one(strs)), call(stdf("toString", tInt), atom()))))}
		})
		t(len(strs) > 0, func() []*Stmt {
			v := one(strs)
			return []*Stmt{{Op: SAssign, L: use(v), R: call(stdf("append", tStr, tStr), use(v), slit("y"))}, add(length(use(v)))}
		})
		t(len(ints) > 0, func() []*Stmt {
			v := one(ints)
			return []*Stmt{{Op: SAssign, L: use(v), R: bin("+", use(v), lit(1))}, add(use(v))}
		})
		t(true, func() []*Stmt {
			return []*Stmt{add(&Expr{Op: []EOp{ENeg, EBNot}[g.s.N(2)], T: tInt, Kids: []*Expr{atom()}})}
		})
		t(true, func() []*Stmt { return []*Stmt{{Op: SExpr, R: call(stdf("println", tInt), atom())}} })
		t(true, func() []*Stmt {
			e := bin([]string{"*", "-", "&", "|", "^"}[g.s.N(5)], atom(), A())
			return []*Stmt{add(e)}
		})
		t(true, func() []*Stmt { // captured through two levels
			q := &Var{Name: g.fresh("q"), T: tInt}
			in := &FnDecl{Name: "fn", Ret: tInt, Params: []*Var{q}}
			if g.s.Chance(1, 2) {
				in.Expr = bin("+", use(q), atom())
			} else {
				in.Body = []*Stmt{{Op: SIf, Conds: []*Expr{bin(">", use(q), atom())}, Blocks: [][]*Stmt{{{Op: SReturn, R: atom()}}}}, {Op: SReturn, R: bin("-", use(q), lit(1))}}
			}
			ft := tFn(tInt, tInt)
			h := &Var{Name: g.fresh("h"), T: ft}
			return []*Stmt{{Op: SDecl, Var: h, R: &Expr{Op: ELambda, T: ft, Fn: in}}, add(&Expr{Op: ECallV, T: tInt, Kids: []*Expr{use(h), A()}})}
		})
		t(depth > 0, func() []*Stmt {
			return []*Stmt{{Op: SIf, Conds: []*Expr{bin("==", bin("&", A(), lit(7)), lit(int64(g.s.N(8))))}, Blocks: [][]*Stmt{{{Op: SReturn, R: atom()}}}}}
		})
		t(true, func() []*Stmt { // payload of an enum
			o := &Expr{Op: EEnum, T: opt(tInt), Def: dOption, Tag: 0, Kids: []*Expr{atom()}}
			return []*Stmt{add(callT(stdf("orElse", opt(tPar("T")), tPar("T")), tInt, o, lit(1)))}
		})
		return ts[g.s.N(len(ts))]()
	}
	for i := 0; i < m; i++ {
		body = append(body, one1(2)...)
	}
	body = append(body, &Stmt{Op: SReturn, R: bin("+", A(), lit(int64(g.s.N(3))))})
	fd.Body = body
	pop()
	ft := tFn(tInt, tInt)
	f := decl("f", ft, &Expr{Op: ELambda, T: ft, Fn: fd})
	callF := func() *Stmt {
		return &Stmt{Op: SExpr, R: call(stdf("println", tInt), &Expr{Op: ECallV, T: tInt, Kids: []*Expr{use(f), lit(int64(g.s.N(6)))}})}
	}
	out = append(out, callF())
	// the closure keeps its own copies of the variables, but shares what they refer to
	for i := g.s.N(3); i > 0; i-- {
		switch {
		case len(ints) > 0 && g.s.Chance(1, 2):
			v := one(ints)
			out = append(out, &Stmt{Op: SAssign, L: use(v), R: bin("+", use(v), lit(100))})
		case len(arrs) > 0:
			out = append(out, &Stmt{Op: SAssign, L: index(use(one(arrs)), lit(int64(g.s.N(3)))), R: lit(77)})
		case len(strs) > 0:
			out = append(out, &Stmt{Op: SAssign, L: use(one(strs)), R: slit("changed")})
		}
	}
	out = append(out, callF())
	if g.s.Chance(1, 2) {
		for _, v := range pool {
			if v.T.K != KFn {
				out = append(out, g.showExpr(use(v), lit(3))...)
			}
		}
	}
	return out
}
