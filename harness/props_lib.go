package main

// Properties of the standard library: generated operation histories against reference models.

import (
	"fmt"
	"math/big"
	"strings"
	"time"
)

// Builder of straight-line programs
type B struct {
	ctl   bool // control characters in text
	s     *Src
	g     *Gen
	out   []*Stmt
	feat  map[string]int
	steps int
}

func newB(s *Src) *B {
	g := newGen(s, baseProf())
	b := &B{s: s, g: g, feat: map[string]int{}}
	g.push(&FnScope{decl: &FnDecl{Name: "main", Ret: tNothing}, ret: tNothing})
	return b
}

func (b *B) emit(st ...*Stmt) { b.out = append(b.out, st...) }
func (b *B) do(e *Expr)       { b.emit(&Stmt{Op: SExpr, R: e}) }
func (b *B) let(pre string, e *Expr) *Var {
	v := &Var{Name: b.g.fresh(pre), T: e.T}
	b.emit(&Stmt{Op: SDecl, Var: v, R: e})
	return v
}
func (b *B) println(e *Expr) { b.do(call(stdf("println", e.T), e)) }
func (b *B) show(e *Expr)    { b.emit(b.g.showExpr(e, lit(1000))...) }
func (b *B) did(op string)   { b.feat[op]++; b.steps++ }

func use(v *Var) *Expr { return &Expr{Op: EVar, T: v.T, Var: v} }

func asg(l, r *Expr) *Stmt { return &Stmt{Op: SAssign, L: l, R: r} }

// Calls a std function, randomly as receiver.f(..)
func (b *B) std(name string, params []*Ty, ret *Ty, args ...*Expr) *Expr {
	f := stdf(name, params...)
	if ret == nil {
		ret = f.Ret
	}
	e := &Expr{Op: ECall, Fn: f, T: ret, Kids: args}
	if len(args) > 0 && (args[0].Op == EVar) {
		b.g.dotty(e)
	}
	return e
}

func (b *B) lambda(ret *Ty, params []*Var, body []*Stmt, ex *Expr) *Expr {
	f := &FnDecl{Name: "fn", Ret: ret, Params: params, Body: body, Expr: ex}
	return &Expr{Op: ELambda, T: f.ty(), Fn: f}
}

func (b *B) prog() *Program {
	pr := b.g.pr
	pr.Fns = append(pr.Fns, &FnDecl{Name: "main", Ret: tNothing, Body: b.out})
	return pr
}

func (b *B) caseOf(fuel int, nontrivial bool) *Case {
	var cl []string
	for k := range b.feat {
		cl = append(cl, k)
	}
	c := caseOf(b.prog(), cl, fuel, func(Result) bool { return nontrivial })
	if c != nil {
		c.Evals = b.steps
	}
	return c
}

// ---------------------------------------------------------------------------------------------------------------------
// Byte strings

// Text for a literal: valid UTF-8 without NUL
func (b *B) text() string {
	var out strings.Builder
	var n int
	switch b.s.W(6, 3, 1) {
	case 0:
		n = b.s.Range(0, 6)
	case 1:
		n = b.s.Range(0, 40)
	default:
		n = b.s.Range(0, 300)
	}
	mode := b.s.N(4)
	if b.ctl && b.s.Chance(1, 5) {
		mode = 5
	}
	for i := 0; i < n; i++ {
		switch mode {
		case 5: // control characters, written as they are
			if c := byte(b.s.N(33)); c == 32 {
				out.WriteByte(127)
			} else {
				out.WriteByte(c)
			}
		case 0: // small alphabet, many repetitions
			out.WriteByte("ab"[b.s.N(2)])
		case 1:
			c := byte(32 + b.s.N(95))
			out.WriteByte(c)
		case 2:
			out.WriteString([]string{"a", "\n", "\\", "\"", "\r", "%", "//", "é", "·", "日", "😀", "\\n", "%s", "'", "«", "»", "ÿ", "0"}[b.s.N(18)])
		default:
			r := rune(b.s.N(0x2ff) + 1)
			if r == '\t' || r < 32 && r != '\n' && r != '\r' || r == 127 {
				r = 'q'
			}
			out.WriteRune(r)
		}
	}
	return out.String()
}

type sv struct {
	v *Var
	s string
}

// Passes a string through something that stores it
func (b *B) via(e *Expr) *Expr {
	switch b.s.W(6, 1, 1, 1, 1) {
	case 1:
		return index(&Expr{Op: EArr, T: tArr(tStr), Kids: []*Expr{slit("u"), e}}, lit(1))
	case 2:
		return index(call(stdf("stringArray", tInt, tStr), lit(3), e), lit(2))
	case 3:
		return tern(bin("<", lit(1), lit(2)), e, slit(""))
	case 4:
		return callT(stdf("orElse", opt(tPar("T")), tPar("T")), tStr, &Expr{Op: EEnum, T: opt(tStr), Def: dOption, Tag: 0, Kids: []*Expr{e}}, slit("none"))
	}
	return e
}

// dump(s): length, hash and all bytes
func (b *B) dumpFn() *FnDecl {
	s := &Var{Name: "s", T: tStr}
	i := &Var{Name: "i", T: tInt}
	f := &FnDecl{Name: "dump", Ret: tNothing, Params: []*Var{s}}
	f.Body = []*Stmt{
		{Op: SExpr, R: call(stdf("println", tInt), length(use(s)))},
		{Op: SExpr, R: call(stdf("println", tInt), call(stdf("fnv1a", tStr), use(s)))},
		{Op: SIf, Conds: []*Expr{bin("<", length(use(s)), lit(80))}, Blocks: [][]*Stmt{{
			{Op: SForRange, Var: i, L: lit(0), R: length(use(s)), Blocks: [][]*Stmt{{
				{Op: SExpr, R: call(stdf("println", tInt), call(stdf("byte", tStr, tInt), use(s), use(i)))}}}}}}},
	}
	b.g.pr.Fns = append(b.g.pr.Fns, f)
	return f
}

func sampleInt(s *Src) int64 {
	switch s.W(3, 2, 2, 2, 1) {
	case 0:
		return int64(s.N(200)) - 100
	case 1:
		k := uint(s.N(63))
		v := int64(1) << k
		if k == 62 {
			v = maxInt
		}
		v += int64(s.Range(0, 2)) - 1
		if s.Chance(1, 2) {
			v = -v
		}
		return clampInt(v)
	case 2:
		k := s.N(19)
		v := int64(1)
		for i := 0; i < k; i++ {
			v *= 10
		}
		v += int64(s.Range(0, 2)) - 1
		if s.Chance(1, 2) {
			v = -v
		}
		return clampInt(v)
	case 3:
		return wrap(int64(s.U(0))) >> uint(s.N(62))
	default:
		return []int64{maxInt, minInt, minInt + 1, maxInt - 1, 0, 1, -1, 1 << 31, 1<<31 - 1, -1 << 31, 1 << 32, 1<<32 - 1}[s.N(12)]
	}
}

func clampInt(v int64) int64 {
	if v > maxInt {
		return maxInt
	}
	if v < minInt {
		return minInt
	}
	return v
}

func intExpr(v int64, hex bool) *Expr {
	if v == minInt {
		return bin("-", lit(minInt+1), lit(1))
	}
	e := lit(v)
	e.Hex = hex
	return e
}

func (b *B) bytesOf(data []byte) *Var {
	v := b.let("by", call(stdf("Bytes", tInt), lit(int64(len(data)))))
	for i, c := range data {
		if c != 0 {
			b.do(b.std("set", ps(tBytes, tInt, tInt), nil, use(v), lit(int64(i)), lit(int64(c))))
		}
	}
	return v
}

func genC10(s *Src) *Case {
	b := newB(s)
	b.ctl = true
	slit := func(t string) *Expr { return &Expr{Op: EStr, T: tStr, S: t, Hex: s.Chance(1, 6)} } // Hex: \r is not escaped
	dump := b.dumpFn()
	var vs []sv
	add := func(e *Expr, val string) {
		vs = append(vs, sv{b.let("s", e), val})
	}
	pick := func() sv { return vs[s.N(len(vs))] }
	lits := s.Range(1, 4)
	for i := 0; i < lits; i++ {
		t := b.text()
		add(b.via(slit(t)), t)
	}
	n := s.Range(4, 22)
	kinds := map[string]bool{}
	do := func(k string) { b.did(k); kinds[k] = true }
	for i := 0; i < n; i++ {
		x, y := pick(), pick()
		switch s.W(4, 4, 1, 1, 3, 4, 4, 3, 1) {
		case 0:
			if len(x.s)+len(y.s) > 4000 {
				continue
			}
			add(b.via(b.std("append", ps(tStr, tStr), nil, use(x.v), use(y.v))), x.s+y.s)
			do("append")
		case 1:
			p := s.N(len(x.s) + 1)
			q := p + s.N(len(x.s)-p+1)
			add(b.via(b.std("Substring", ps(tStr, tInt, tInt), nil, use(x.v), lit(int64(p)), lit(int64(q)))), x.s[p:q])
			do("Substring")
		case 2:
			t := b.text()
			add(b.via(slit(t)), t)
			do("literal")
		case 3:
			data := make([]byte, s.N(12))
			for j := range data {
				data[j] = byte(s.N(256))
			}
			v := b.bytesOf(data)
			add(b.std("toString", ps(tBytes), nil, use(v)), string(data))
			do("from bytes")
		case 4:
			if s.Chance(1, 2) && len(x.s) > 0 { // nearly equal
				t := []byte(x.s)
				k := s.N(len(t))
				if s.Chance(1, 2) {
					k = len(t) - 1
				}
				if t[k] < 0x80 && t[k] >= 32 {
					t[k] = "ab%Z"[s.N(4)]
				}
				if strings.ContainsAny(string(t), "\x00") || !validText(string(t)) {
					continue
				}
				y = sv{b.let("s", slit(string(t))), string(t)}
				vs = append(vs, y)
			}
			b.println(b.std("Equals", ps(tStr, tStr), nil, use(x.v), use(y.v)))
			do("Equals")
		case 5:
			if s.Chance(2, 3) && len(x.s) > 0 { // a part of x
				p := s.N(len(x.s))
				q := p + 1 + s.N(len(x.s)-p)
				e := b.std("Substring", ps(tStr, tInt, tInt), nil, use(x.v), lit(int64(p)), lit(int64(q)))
				y = sv{b.let("s", e), x.s[p:q]}
				vs = append(vs, y)
			}
			b.println(b.std("IndexOf", ps(tStr, tStr), nil, use(x.v), use(y.v)))
			do("IndexOf")
		case 6:
			if y.s == "" {
				continue
			}
			from := s.N(len(x.s) + 2)
			b.println(b.std("IndexOf", ps(tStr, tStr, tInt), nil, use(x.v), use(y.v), lit(int64(from))))
			do("IndexOf from")
		case 7:
			if x.s == "" {
				continue
			}
			i := s.N(len(x.s))
			if s.Chance(1, 3) {
				i = len(x.s) - 1
			}
			b.println(b.std("byte", ps(tStr, tInt), nil, use(x.v), lit(int64(i))))
			do("byte")
		case 8:
			b.println(length(use(x.v)))
			do("length")
		}
	}
	for _, v := range vs {
		b.do(call(dump, use(v.v)))
		if !strings.Contains(v.s, "\x00") {
			b.println(use(v.v))
		}
		b.steps++
	}
	return b.caseOf(400000, len(kinds) >= 3)
}

func validText(s string) bool {
	for _, r := range s {
		if r == 0xfffd {
			return false
		}
	}
	return true
}

// ---------------------------------------------------------------------------------------------------------------------
// Numbers

func genC11(s *Src) *Case {
	if s.Chance(1, 6) {
		return badLiteral(s)
	}
	b := newB(s)
	n := s.Range(6, 20)
	pass := func() *FnDecl {
		x := &Var{Name: "x", T: tInt}
		f := &FnDecl{Name: "pass", Params: []*Var{x}, Ret: tInt, Expr: use(x)}
		b.g.pr.Fns = append(b.g.pr.Fns, f)
		return f
	}()
	big := 0
	for i := 0; i < n; i++ {
		v := sampleInt(s)
		if v > 1<<40 || v < -(1<<40) {
			big++
		}
		e := intExpr(v, s.Chance(1, 3))
		switch s.W(4, 2, 2, 1, 1) {
		case 1: // computed
			d := sampleInt(s)
			e = bin("+", intExpr(wrap(v-d), false), intExpr(d, s.Chance(1, 2)))
		case 2:
			e = call(pass, e)
		case 3:
			e = index(&Expr{Op: EArr, T: tArr(tInt), Kids: []*Expr{e, lit(1)}}, lit(0))
		case 4:
			e = bin("^", intExpr(^v, false), lit(-1))
		}
		if s.Chance(1, 2) {
			e = use(b.let("v", e))
		}
		switch s.N(9) {
		case 0:
			b.println(b.std("toString", ps(tInt), nil, e))
			b.did("toString")
		case 1:
			b.println(e)
			b.did("println")
		case 2:
			b.do(call(stdf("print", tInt), e))
			b.do(call(stdf("print", tStr), slit("|\n")))
			b.did("print")
		case 3:
			b.do(call(stdf("printHex", tInt), e))
			b.did("printHex")
		case 4:
			b.do(call(stdf("printHexPadded", tInt), e))
			b.did("printHexPadded")
		case 5:
			b.println(b.std("toBinary", ps(tInt), nil, e))
			b.did("toBinary")
		case 6:
			t := b.let("t", b.std("toString", ps(tInt), nil, e))
			b.println(length(use(t)))
			b.println(use(t))
			b.did("toString kept")
		case 7:
			b.do(b.printf(e, v))
			b.did("printf")
		case 8:
			c := blit(s.Chance(1, 2))
			if s.Chance(1, 2) {
				c = bin([]string{"<", ">=", "=="}[s.N(3)], e, intExpr(sampleInt(s), false))
			}
			if s.Chance(1, 2) {
				b.println(c)
			} else {
				b.println(call(stdf("toString", tBool), c))
			}
			b.did("bool")
		}
	}
	return b.caseOf(100000, big >= 2 && len(b.feat) >= 3)
}

// printf with up to five arguments of all kinds
func (b *B) printf(e *Expr, v int64) *Expr {
	f := &FnDecl{Name: "printf", Ret: tNothing, Std: true, NoDot: true}
	n := b.s.Range(1, 5)
	var fm, out strings.Builder
	args := []*Expr{nil}
	for i := 0; i < n; i++ {
		if i > 0 {
			v = sampleInt(b.s)
			e = intExpr(v, b.s.Chance(1, 3))
		}
		switch b.s.W(4, 2, 2, 1) {
		case 0:
			fm.WriteString("[%lli]")
			fmt.Fprintf(&out, "[%d]", v)
		case 1:
			fm.WriteString("%llx;")
			fmt.Fprintf(&out, "%x;", uint64(v))
		case 2:
			if v != int64(int32(v)) {
				v = int64(int32(v))
				e = intExpr(v, false)
			}
			fm.WriteString("%d, ")
			fmt.Fprintf(&out, "%d, ", v)
		case 3:
			t := b.s.Pick("", "x", "héllo", "100%", "a b")
			e = slit(t)
			fm.WriteString("<%s>")
			fmt.Fprintf(&out, "<%s>", t)
		}
		args = append(args, e)
	}
	fm.WriteString("\n")
	out.WriteString("\n")
	args[0] = slit(fm.String())
	want := out.String()
	f.Builtin = func(in *Interp, a []Value) Value { in.print(want); return nil }
	return call(f, args...)
}

// A program with one integer literal outside the range has to be rejected
func badLiteral(s *Src) *Case {
	lo := new(big.Int).Lsh(big.NewInt(1), 62)
	var v *big.Int
	switch s.N(5) {
	case 0:
		v = new(big.Int).Add(lo, big.NewInt(int64(s.N(3))))
	case 1:
		v = new(big.Int).Add(new(big.Int).Lsh(big.NewInt(1), uint(s.Range(62, 66))), big.NewInt(int64(s.N(3))))
	case 2:
		v = new(big.Int).Add(lo, new(big.Int).SetUint64(s.U(0)>>1))
	case 3:
		v = new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), uint(s.Range(63, 67))), big.NewInt(int64(s.Range(1, 3))))
	default:
		v = new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(s.Range(19, 40))), nil)
	}
	txt := v.String()
	if s.Chance(1, 2) {
		txt = "0x" + v.Text(16)
	}
	var src string
	switch s.N(6) {
	case 0:
		src = "fn main() {\n  println(" + txt + ")\n}\n"
	case 1:
		src = "fn f() int = " + txt + "\nfn main() {\n  println(f())\n}\n"
	case 2:
		src = "fn main() {\n  x := 1 + " + txt + " * 0\n  println(x)\n}\n"
	case 3:
		src = "fn main() {\n  a := [1, " + txt + "]\n  println(a.length)\n}\n"
	case 4:
		src = "fn main() {\n  for i in 0 .. 3 {\n    if i == " + txt + " {\n      println(i)\n    }\n  }\n}\n"
	default:
		src = "fn main() {\n  f := fn(x: int) int = x & " + txt + "\n  println(f(1))\n}\n"
	}
	c := &Case{Text: src, Size: len(src), Nontrivial: true, Classes: []string{"literal out of range"}, Evals: 1}
	c.Run = func(w *Worker) Outcome {
		x, _ := w.Compile(src)
		if x.Wall {
			return Outcome{Skip: "compiler wall clock limit"}
		}
		if x.Code == 0 {
			return Outcome{Fail: "a program with the integer literal " + txt + ", which is outside the range of int, was accepted"}
		}
		if x.Code != 1 {
			return Outcome{Fail: "the compiler crashed: " + clip(x.Err, 1000)}
		}
		return Outcome{}
	}
	return c
}

// ---------------------------------------------------------------------------------------------------------------------
// bytes and buffers

func genC12(s *Src) *Case {
	b := newB(s)
	dump := b.dumpFn()
	type by struct {
		v *Var
		d []byte
	}
	type bf struct {
		v *Var
		d []byte
	}
	bt := dBuf.ty()
	var bys []*by
	var bufs []*bf
	var strs []sv
	keep := func(e *Expr, val string) { strs = append(strs, sv{b.let("s", e), val}) }
	newBytes := func() {
		n := []int{s.N(6), s.Range(1, 30), s.N(300)}[s.W(5, 3, 1)]
		bys = append(bys, &by{b.let("by", call(stdf("Bytes", tInt), lit(int64(n)))), make([]byte, n)})
	}
	newBuf := func() {
		c := []int{s.Range(1, 4), s.Range(1, 40)}[s.N(2)]
		bufs = append(bufs, &bf{b.let("buf", call(stdf("NewByteBuffer", tInt), lit(int64(c)))), nil})
	}
	byteVal := func() (int64, *Expr) {
		v := int64(s.N(256))
		if s.Chance(1, 4) {
			v = sampleInt(s)
		}
		return v, intExpr(v, false)
	}
	newBytes()
	newBuf()
	n := s.Range(6, 40)
	for i := 0; i < n; i++ {
		x := bys[s.N(len(bys))]
		u := bufs[s.N(len(bufs))]
		switch s.W(1, 1, 4, 3, 2, 1, 2, 6, 5, 2, 1, 3, 3, 1) {
		case 0:
			newBytes()
			b.did("Bytes")
		case 1:
			newBuf()
			b.did("NewByteBuffer")
		case 2:
			if len(x.d) == 0 {
				continue
			}
			k := s.N(len(x.d))
			v, e := byteVal()
			b.do(b.std("set", ps(tBytes, tInt, tInt), nil, use(x.v), lit(int64(k)), e))
			x.d[k] = byte(v)
			b.did("set")
		case 3:
			if len(x.d) == 0 {
				continue
			}
			b.println(b.std("get", ps(tBytes, tInt), nil, use(x.v), lit(int64(s.N(len(x.d))))))
			b.did("get")
		case 4:
			keep(b.std("toString", ps(tBytes), nil, use(x.v)), string(x.d))
			b.did("bytes toString")
		case 5:
			k := s.N(len(x.d) + 1)
			keep(b.std("toString", ps(tBytes, tInt), nil, use(x.v), lit(int64(k))), string(x.d[:k]))
			b.did("bytes prefix")
		case 6:
			p := s.N(len(x.d) + 1)
			k := s.N(len(x.d) - p + 1)
			keep(b.std("toString", ps(tBytes, tInt, tInt), nil, use(x.v), lit(int64(p)), lit(int64(k))), string(x.d[p:p+k]))
			b.did("bytes slice")
		case 7:
			t := b.text()
			if len(strs) > 0 && s.Chance(1, 4) {
				q := strs[s.N(len(strs))]
				t = q.s
				b.do(call(stdf("append", bt, tStr), use(u.v), use(q.v)))
			} else {
				e := b.std("append", ps(bt, tStr), nil, use(u.v), slit(t))
				if s.Chance(1, 3) { // chained: append returns the buffer itself
					t2 := b.text()
					e = call(stdf("append", bt, tStr), e, slit(t2))
					t += t2
				}
				b.do(e)
			}
			u.d = append(u.d, t...)
			b.did("append string")
		case 8:
			k := s.Range(1, 6)
			for j := 0; j < k; j++ {
				v, e := byteVal()
				b.do(b.std("append", ps(bt, tInt), nil, use(u.v), e))
				u.d = append(u.d, byte(v))
			}
			b.did("append byte")
		case 9:
			p := s.N(len(u.d) + 1)
			k := s.N(len(u.d) - p + 1)
			keep(b.std("substring", ps(bt, tInt, tInt), nil, use(u.v), lit(int64(p)), lit(int64(k))), string(u.d[p:p+k]))
			b.did("buffer substring")
		case 10:
			b.do(b.std("reset", ps(bt), nil, use(u.v)))
			u.d = nil
			b.did("reset")
		case 11:
			keep(b.std("toString", ps(bt), nil, use(u.v)), string(u.d))
			b.did("buffer toString")
		case 12:
			if s.Chance(1, 2) {
				b.println(field(use(u.v), "size", tInt))
			} else {
				b.println(call(stdf("size", bt), use(u.v)))
			}
			b.did("size")
		case 13:
			b.println(b.std("length", ps(tBytes), nil, use(x.v)))
			b.did("length")
		}
		if len(strs) > 40 {
			break
		}
	}
	for _, x := range bys {
		if len(x.d) < 60 {
			b.show(use(x.v))
		} else {
			keep(b.std("toString", ps(tBytes), nil, use(x.v)), string(x.d))
		}
	}
	for _, u := range bufs {
		keep(b.std("toString", ps(bt), nil, use(u.v)), string(u.d))
	}
	for _, v := range strs {
		b.do(call(dump, use(v.v)))
		b.steps++
	}
	if s.Chance(1, 6) {
		u := bufs[s.N(len(bufs))]
		args := []*Expr{use(u.v), lit(int64(s.N(len(u.d) + 1))), lit(int64(len(u.d) + 1 + s.N(3)))}
		switch s.N(3) {
		case 0:
			args[1] = lit(-1 - int64(s.N(5)))
		case 1:
			args[2] = lit(-1 - int64(s.N(5)))
		}
		f := *stdf("substring", bt, tInt, tInt)
		f.Builtin = func(in *Interp, a []Value) Value { in.fail(panicked{}); return nil }
		b.let("bad", call(&f, args...))
		b.do(call(stdf("println", tStr), slit("not reached")))
		b.did("bad substring")
	}
	return b.caseOf(400000, len(b.feat) >= 4)
}

// ---------------------------------------------------------------------------------------------------------------------
// Hash maps

func genC13(s *Src) *Case {
	b := newB(s)
	// key type with the expression of key number k
	var kt *Ty
	var key func(k int) *Expr
	var hash, eq *Expr
	p, q := &Var{Name: "p", T: nil}, &Var{Name: "q", T: nil}
	spread := []int{1, 1, 7, 16, 32, 1000003}[s.N(6)]
	hashInt := func(e *Expr) *Expr { // e: any int expression
		switch s.N(5) {
		case 0:
			return lit(int64(s.N(40)))
		case 1:
			return bin("&", e, lit([]int64{1, 3, 7, 16}[s.N(4)]))
		case 2:
			return bin("&", e, lit(maxInt))
		case 3:
			return bin("&", bin("*", e, lit(2654435761)), lit(0xffffffff))
		default:
			return bin("&", bin("<<", e, lit(4)), lit(maxInt))
		}
	}
	seq := call(stdf("Equals", tStr, tStr))
	_ = seq
	switch s.N(5) {
	case 0:
		kt = tInt
		key = func(k int) *Expr { return intExpr(wrap(int64(k*spread)-int64(spread)*5), false) }
		p.T, q.T = kt, kt
		hash = b.lambda(tInt, []*Var{p}, nil, hashInt(use(p)))
		eq = b.lambda(tBool, []*Var{p, q}, nil, bin("==", use(p), use(q)))
	case 1:
		kt = tStr
		p.T, q.T = kt, kt
		key = func(k int) *Expr {
			t := fmt.Sprintf("k%d", k*spread)
			if s.Chance(1, 2) { // equal but not identical
				return call(stdf("append", tStr, tStr), slit("k"), call(stdf("toString", tInt), lit(int64(k*spread))))
			}
			return slit(t)
		}
		if s.Chance(1, 2) {
			hash = &Expr{Op: EFnRef, T: tFn(tInt, tStr), Fn: stdf("fnv1a", tStr)}
		} else {
			hash = b.lambda(tInt, []*Var{p}, nil, hashInt(length(use(p))))
		}
		if s.Chance(1, 2) {
			eq = &Expr{Op: EFnRef, T: tFn(tBool, tStr, tStr), Fn: stdf("Equals", tStr, tStr)}
		} else {
			eq = b.lambda(tBool, []*Var{p, q}, nil, call(stdf("Equals", tStr, tStr), use(p), use(q)))
		}
	case 2: // struct
		d := &TypeDecl{Name: "keyt", Fields: []Field{{"a", tInt}, {"b", tStr}}}
		b.g.pr.Types = append(b.g.pr.Types, d)
		kt = d.ty()
		p.T, q.T = kt, kt
		key = func(k int) *Expr {
			return &Expr{Op: EStruct, T: kt, Def: d, Kids: []*Expr{lit(int64(k)), slit(fmt.Sprint(k % 3))}}
		}
		f := func(v *Var, n string, t *Ty) *Expr { return field(use(v), n, t) }
		hash = b.lambda(tInt, []*Var{p}, nil, hashInt(f(p, "a", tInt)))
		eq = b.lambda(tBool, []*Var{p, q}, nil, bin("and", bin("==", f(p, "a", tInt), f(q, "a", tInt)), call(stdf("Equals", tStr, tStr), f(p, "b", tStr), f(q, "b", tStr))))
	case 3: // equality coarser than identity
		kt = tInt
		key = func(k int) *Expr { return lit(int64(k) + 1000*int64(s.N(3))) }
		p.T, q.T = kt, kt
		m := func(v *Var) *Expr { return call(stdf("mod", tInt, tInt), use(v), lit(1000)) }
		hash = b.lambda(tInt, []*Var{p}, nil, hashInt(m(p)))
		eq = b.lambda(tBool, []*Var{p, q}, nil, bin("==", m(p), m(q)))
	default: // enum
		d := &TypeDecl{Name: "keyt", IsEnum: true, Cases: []CaseDecl{{"KeyA", []Field{{"a", tInt}}}, {"KeyB", []Field{{"b", tInt}, {"c", tInt}}}, {"KeyC", nil}}}
		b.g.pr.Types = append(b.g.pr.Types, d)
		kt = d.ty()
		kv := &Var{Name: "x", T: kt}
		a, b1, c1 := &Var{Name: "a", T: tInt}, &Var{Name: "b", T: tInt}, &Var{Name: "c", T: tInt}
		num := &FnDecl{Name: "num", Ret: tInt, Params: []*Var{kv}, Body: []*Stmt{{Op: SMatch, R: use(kv), Cases: []*MatchCase{
			{Tag: 0, Vars: []*Var{a}, Body: []*Stmt{{Op: SReturn, R: bin("*", use(a), lit(3))}}},
			{Tag: 1, Vars: []*Var{b1, c1}, Body: []*Stmt{{Op: SReturn, R: bin("+", bin("*", bin("+", use(b1), use(c1)), lit(3)), lit(1))}}},
			{Tag: 2, Body: []*Stmt{{Op: SReturn, R: lit(2)}}}}}}}
		b.g.pr.Fns = append(b.g.pr.Fns, num)
		p.T, q.T = kt, kt
		key = func(k int) *Expr {
			switch k % 3 {
			case 0:
				return &Expr{Op: EEnum, T: kt, Def: d, Tag: 0, Kids: []*Expr{lit(int64(k))}}
			case 1:
				x := s.N(3)
				return &Expr{Op: EEnum, T: kt, Def: d, Tag: 1, Kids: []*Expr{lit(int64(k - x)), lit(int64(x))}}
			}
			if k%5 == 0 {
				return &Expr{Op: EEnum, T: kt, Def: d, Tag: 2}
			}
			return &Expr{Op: EEnum, T: kt, Def: d, Tag: 0, Kids: []*Expr{lit(int64(k))}}
		}
		hash = b.lambda(tInt, []*Var{p}, nil, hashInt(call(num, use(p))))
		eq = b.lambda(tBool, []*Var{p, q}, nil, bin("==", call(num, use(p)), call(num, use(q))))
	}
	vt := []*Ty{tInt, tStr, tBool, opt(tInt)}[s.W(4, 2, 1, 1)]
	val := func() *Expr {
		switch vt.K {
		case KInt:
			return lit(int64(s.N(1000)))
		case KStr:
			return call(stdf("append", tStr, tStr), slit("v"), call(stdf("toString", tInt), lit(int64(s.N(1000)))))
		case KBool:
			return blit(s.Chance(1, 2))
		}
		return &Expr{Op: EEnum, T: vt, Def: dOption, Tag: 0, Kids: []*Expr{lit(int64(s.N(50)))}}
	}
	mt := dMap.ty(kt, vt)
	K, V := tPar("K"), tPar("V")
	mp := dMap.ty(K, V)
	nm := 1 + s.N(2)
	var ms []*Var
	for i := 0; i < nm; i++ {
		f := stdf("NewHashMap", nil, nil)
		h, m := hash, eq
		ms = append(ms, b.let("m", &Expr{Op: ECall, Fn: f, T: mt, Kids: []*Expr{h, m}, TArgs: []*Ty{kt, vt}}))
	}
	space := []int{4, 20, 60, 160}[s.W(2, 3, 3, 1)]
	n := []int{s.Range(3, 20), s.Range(20, 70), s.Range(70, 160)}[s.W(3, 4, 2)]
	putBias := s.Range(1, 8)
	fe := func(m *Var) {
		k, v := &Var{Name: b.g.fresh("k"), T: kt}, &Var{Name: b.g.fresh("v"), T: vt}
		var body []*Stmt
		// one line per entry
		pr := func(e *Expr) *Expr {
			switch e.T.K {
			case KInt:
				return call(stdf("toString", tInt), e)
			case KBool:
				return call(stdf("toString", tBool), e)
			}
			return e
		}
		var ks *Expr
		switch kt.K {
		case KNamed:
			if kt.Def.IsEnum {
				ks = pr(call(b.g.pr.Fns[0], use(k)))
				for _, f := range b.g.pr.Fns {
					if f.Name == "num" {
						ks = pr(call(f, use(k)))
					}
				}
			} else {
				ks = call(stdf("append", tStr, tStr), pr(field(use(k), "a", tInt)), field(use(k), "b", tStr))
			}
		default:
			ks = pr(use(k))
		}
		vs := use(v)
		if vt.K == KNamed {
			vs = callT(stdf("orElse", opt(tPar("T")), tPar("T")), tInt, use(v), lit(-7))
		}
		line := call(stdf("append", tStr, tStr), call(stdf("append", tStr, tStr), ks, slit(" -> ")), pr(vs))
		body = []*Stmt{{Op: SExpr, R: call(stdf("println", tStr), line)}}
		b.println(slit("<<<"))
		cb := b.lambda(tNothing, []*Var{k, v}, body, nil)
		b.do(b.std("foreach", ps(mp, tFn(tNothing, K, V)), nil, use(m), cb))
		b.println(slit(">>>"))
	}
	for i := 0; i < n; i++ {
		m := ms[s.N(len(ms))]
		k := key(s.N(space))
		switch s.W(6+putBias, 4, 4, 2, 2, 1, 1) {
		case 0:
			e := b.std("put", ps(mp, K, V), opt(vt), use(m), k, val())
			if s.Chance(1, 3) {
				if s.Chance(1, 2) {
					e.Dot = false
				}
				b.do(e)
			} else {
				b.show(e)
			}
			b.did("put")
		case 1:
			b.show(b.std("get", ps(mp, K), opt(vt), use(m), k))
			b.did("get")
		case 2:
			b.show(b.std("remove", ps(mp, K), opt(vt), use(m), k))
			b.did("remove")
		case 3:
			b.println(b.std("contains", ps(mp, K), nil, use(m), k))
			b.did("contains")
		case 4:
			b.show(b.std("orElse", ps(mp, K, V), vt, use(m), k, val()))
			b.did("orElse")
		case 5:
			b.println(field(use(m), "size", tInt))
			b.did("size")
		case 6:
			fe(m)
			b.did("foreach")
		}
	}
	for _, m := range ms {
		b.println(field(use(m), "size", tInt))
		fe(m)
		// look every key up again
		if space <= 60 {
			for k := 0; k < space; k++ {
				b.show(b.std("get", ps(mp, K), opt(vt), use(m), key(k)))
				b.steps++
			}
		}
	}
	if n > 40 {
		b.feat["long history"]++
	}
	return b.caseOf(3000000, b.feat["put"] >= 3 && len(b.feat) >= 3)
}

// ---------------------------------------------------------------------------------------------------------------------
// Lists, options, results

func genC14(s *Src) *Case {
	b := newB(s)
	T, R, E := tPar("T"), tPar("R"), tPar("E")
	et := []*Ty{tInt, tInt, tStr, tBool, dPair.ty(tInt, tStr), opt(tInt), tArr(tInt)}[s.N(7)]
	var val func(t *Ty) *Expr
	val = func(t *Ty) *Expr {
		switch t.K {
		case KInt:
			if s.Chance(1, 10) {
				return intExpr(sampleInt(s), false)
			}
			return lit(int64(s.N(12)))
		case KBool:
			return blit(s.Chance(1, 2))
		case KStr:
			if s.Chance(1, 2) {
				return call(stdf("toString", tInt), lit(int64(s.N(30))))
			}
			return slit(s.Pick("a", "b", "", "cc", "dé"))
		case KArr:
			return &Expr{Op: EArr, T: t, Kids: []*Expr{val(tInt), val(tInt)}}
		}
		if t.Def == dPair {
			return &Expr{Op: EStruct, T: t, Def: dPair, Kids: []*Expr{val(t.Args[0]), val(t.Args[1])}}
		}
		if t.Def == dOption {
			if s.Chance(1, 3) {
				return &Expr{Op: EEnum, T: t, Def: dOption, Tag: 1, TArgs: t.Args}
			}
			return &Expr{Op: EEnum, T: t, Def: dOption, Tag: 0, Kids: []*Expr{val(t.Args[0])}}
		}
		panic("val")
	}
	// an int describing a value
	var num func(e *Expr) *Expr
	num = func(e *Expr) *Expr {
		switch e.T.K {
		case KInt:
			return e
		case KBool:
			return tern(e, lit(1), lit(0))
		case KStr:
			return bin("&", call(stdf("fnv1a", tStr), e), lit(0xff))
		case KArr:
			return bin("+", index(e, lit(0)), index(e, lit(1)))
		}
		if e.T.Def == dPair {
			return field(e, "first", tInt)
		}
		return callT(stdf("orElse", opt(T), T), tInt, e, lit(5))
	}
	pred := func(t *Ty) *Expr { // pure
		p := &Var{Name: b.g.fresh("p"), T: t}
		n := num(use(p))
		if n.Op == ETern {
			n.Paren = 1
		}
		var e *Expr
		switch s.N(4) {
		case 0:
			e = bin("==", bin("&", n, lit(3)), lit(int64(s.N(4))))
		case 1:
			e = bin(">", n, lit(int64(s.N(12))))
		case 2:
			e = bin("<", n, lit(int64(s.N(12))))
		default:
			e = blit(s.Chance(1, 2))
		}
		return b.lambda(tBool, []*Var{p}, nil, e)
	}
	trace := func(e *Expr) *Stmt { return &Stmt{Op: SExpr, R: call(stdf("println", tInt), num(e))} }
	mapper := func(t, r *Ty) *Expr { // prints its argument
		p := &Var{Name: b.g.fresh("p"), T: t}
		var res *Expr
		n := num(use(p))
		if n.Op == ETern {
			n.Paren = 1
		}
		switch r.K {
		case KInt:
			res = bin("+", bin("*", n, lit(2)), lit(1))
		case KBool:
			res = bin(">", n, lit(4))
		case KStr:
			res = call(stdf("append", tStr, tStr), slit("<"), call(stdf("toString", tInt), n))
		default:
			if same(t, r) {
				res = use(p)
			} else {
				res = val(r)
			}
		}
		return b.lambda(r, []*Var{p}, []*Stmt{trace(use(p)), {Op: SReturn, R: res}}, nil)
	}
	type lv struct {
		v *Var
		t *Ty
	}
	var ls []lv
	var os, rs []*Var
	lits := func(n int) *Expr {
		a := &Expr{Op: EArr, T: tArr(et)}
		for i := 0; i < n; i++ {
			a.Kids = append(a.Kids, val(et))
		}
		return a
	}
	n0 := []int{s.Range(1, 4), s.Range(1, 15), s.Range(15, 50)}[s.W(4, 4, 1)]
	mk := func() {
		if s.Chance(1, 5) {
			ls = append(ls, lv{b.let("l", &Expr{Op: EEnum, T: lst(et), Def: dList, Tag: 1, TArgs: []*Ty{et}}), et})
			return
		}
		ls = append(ls, lv{b.let("l", b.std("toList", ps(tArr(T)), lst(et), lits(n0))), et})
		b.did("toList")
	}
	mk()
	ot := []*Ty{tInt, tStr, et}[s.N(3)]
	os = append(os, b.let("o", val(opt(ot))))
	xt := tStr
	mkRes := func() *Expr {
		t := dResult.ty(ot, xt)
		if s.Chance(1, 3) {
			return &Expr{Op: EEnum, T: t, Def: dResult, Tag: 1, Kids: []*Expr{val(xt)}, TArgs: t.Args}
		}
		return &Expr{Op: EEnum, T: t, Def: dResult, Tag: 0, Kids: []*Expr{val(ot)}, TArgs: t.Args}
	}
	rs = append(rs, b.let("r", mkRes()))
	n := s.Range(4, 18)
	for i := 0; i < n; i++ {
		l := ls[s.N(len(ls))]
		o := os[s.N(len(os))]
		r := rs[s.N(len(rs))]
		lt := lst(l.t)
		_ = lt
		switch s.W(1, 3, 2, 4, 3, 3, 3, 3, 1, 2, 2, 2, 2, 2, 2, 2, 3, 2) {
		case 0:
			mk()
		case 1:
			ls = append(ls, lv{b.let("l", b.std("append", ps(lst(T), T), lst(l.t), use(l.v), val(l.t))), l.t})
			b.did("append")
		case 2:
			ls = append(ls, lv{b.let("l", b.std("reverse", ps(lst(T)), lst(l.t), use(l.v))), l.t})
			b.did("reverse")
		case 3:
			pt := dPair.ty(lst(l.t), opt(l.t))
			v := b.let("pr", b.std("remove", ps(lst(T), tFn(tBool, T)), pt, use(l.v), pred(l.t)))
			b.show(field(use(v), "second", opt(l.t)))
			ls = append(ls, lv{b.let("l", field(use(v), "first", lst(l.t))), l.t})
			b.did("remove")
		case 4:
			b.show(b.std("find", ps(lst(T), tFn(tBool, T)), opt(l.t), use(l.v), pred(l.t)))
			b.did("find")
		case 5:
			p := &Var{Name: b.g.fresh("p"), T: l.t}
			b.do(b.std("foreach", ps(lst(T), tFn(tNothing, T)), nil, use(l.v), b.lambda(tNothing, []*Var{p}, []*Stmt{trace(use(p))}, nil)))
			b.did("foreach")
		case 6:
			rt := []*Ty{tInt, tStr, tBool, l.t}[s.N(4)]
			ls = append(ls, lv{b.let("l", b.std("map", ps(lst(T), tFn(R, T)), lst(rt), use(l.v), mapper(l.t, rt))), rt})
			b.did("map")
		case 7:
			a, v := &Var{Name: b.g.fresh("acc"), T: l.t}, &Var{Name: b.g.fresh("x"), T: l.t}
			var res *Expr
			switch l.t.K {
			case KInt:
				res = bin("+", bin("*", use(a), lit(31)), use(v))
			case KStr:
				res = call(stdf("append", tStr, tStr), use(a), use(v))
			default:
				res = use(v)
			}
			f := b.lambda(l.t, []*Var{a, v}, []*Stmt{trace(use(v)), {Op: SReturn, R: res}}, nil)
			b.show(b.std("reduce", ps(lst(T), T, tFn(T, T, T)), l.t, use(l.v), val(l.t), f))
			b.did("reduce")
		case 8:
			os = append(os, b.let("o", val(opt(ot))))
		case 9:
			b.println(b.std(s.Pick("isSome", "isNone"), ps(opt(T)), nil, use(o)))
			b.did("isSome/isNone")
		case 10:
			os = append(os, b.let("o", b.std("filter", ps(opt(T), tFn(tBool, T)), opt(ot), use(o), pred(ot))))
			b.did("option filter")
		case 11:
			b.show(b.std("orElse", ps(opt(T), T), ot, use(o), val(ot)))
			b.did("option orElse")
		case 12:
			rt := []*Ty{tInt, tStr, tBool, ot}[s.N(4)]
			b.show(b.std("map", ps(opt(T), tFn(R, T)), opt(rt), use(o), mapper(ot, rt)))
			b.did("option map")
		case 13:
			p := &Var{Name: b.g.fresh("p"), T: ot}
			os = append(os, b.let("o", b.std("peek", ps(opt(T), tFn(tNothing, T)), opt(ot), use(o), b.lambda(tNothing, []*Var{p}, []*Stmt{trace(use(p))}, nil))))
			b.did("option peek")
		case 14:
			rt := []*Ty{tInt, tStr, ot}[s.N(3)]
			b.show(b.std("map", ps(dResult.ty(T, E), tFn(R, T)), dResult.ty(rt, xt), use(r), mapper(ot, rt)))
			b.did("result map")
		case 15:
			p := &Var{Name: b.g.fresh("p"), T: ot}
			t := dResult.ty(ot, xt)
			mkR := mkRes()
			f := b.lambda(t, []*Var{p}, []*Stmt{trace(use(p)), {Op: SReturn, R: mkR}}, nil)
			rs = append(rs, b.let("r", b.std("then", ps(dResult.ty(T, E), tFn(dResult.ty(R, E), T)), t, use(r), f)))
			b.did("result then")
		case 16:
			p := &Var{Name: b.g.fresh("p"), T: ot}
			f := b.lambda(opt(xt), []*Var{p}, []*Stmt{trace(use(p)), {Op: SReturn, R: val(opt(xt))}}, nil)
			rs = append(rs, b.let("r", b.std("peek", ps(dResult.ty(T, E), tFn(opt(E), T)), dResult.ty(ot, xt), use(r), f)))
			b.did("result peek")
		case 17:
			if s.Chance(1, 2) {
				m := sampleInt(s)
				if m == 0 {
					m = 7
				}
				b.println(call(stdf("mod", tInt, tInt), intExpr(sampleInt(s), false), intExpr(m, false)))
				b.did("mod")
			} else {
				b.println(call(stdf("fnv1a", tStr), slit(b.text())))
				b.did("fnv1a")
			}
		}
	}
	// nothing given to an operation has changed
	for _, l := range ls {
		b.show(use(l.v))
	}
	for _, o := range os {
		b.show(use(o))
	}
	for _, r := range rs {
		b.show(use(r))
	}
	b.println(lit(int64(n)))
	return b.caseOf(600000, len(b.feat) >= 3)
}

func libProp(id, rule string, quick, thorough int, gen func(s *Src) *Case) *Prop {
	return &Prop{ID: id, Rule: rule, Quick: quick, Thorough: thorough, Budget: [2]time.Duration{45 * time.Second, 13 * time.Minute}, Gen: gen}
}

func init() {
	reg(libProp("C10", "straight-line programs that make strings (literals over several alphabets, append, Substring, toString of bytes), pass them through arrays, options and ternaries, query them (Equals, IndexOf, byte, length) and dump all of them at the end; non-trivial: at least three kinds of operation", 900, 15000, genC10))
	reg(libProp("C11", "programs that print sampled ints (near powers of 2 and 10, extremes, uniform) with every printing function, and programs with one out-of-range literal that must be rejected; non-trivial: two values beyond 2^40 and three kinds of output, or a rejected literal", 900, 15000, genC11))
	reg(libProp("C12", "histories of operations on several bytes values and buffers of small starting capacity, all strings taken being dumped at the end; non-trivial: at least four kinds of operation", 900, 15000, genC12))
	reg(libProp("C13", "histories of up to 160 map operations over key spaces of 4..160 keys with int, string, struct and enum keys, colliding, constant and spreading hashers, and full dumps; non-trivial: at least three puts and three kinds of operation", 700, 10000, genC13))
	reg(libProp("C14", "histories of list, option, result, mod and fnv1a operations with tracing callbacks, all inputs being dumped again at the end; non-trivial: at least three kinds of operation", 900, 15000, genC14))
}
