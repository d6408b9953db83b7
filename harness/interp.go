package main

// Reference interpreter: the oracle for everything a compiled program prints.

import (
	"fmt"
	"strconv"
	"strings"
)

type Value interface{}

type BytesV struct{ B []byte }
type ArrV struct{ E []Value }
type StructV struct {
	Def *TypeDecl
	F   []Value
}
type EnumV struct {
	Def *TypeDecl
	Tag int
	F   []Value
}
type FnV struct {
	Fn  *FnDecl
	Env map[*Var]*Value // captured variables (nil for declared functions)
}

// ints are kept as sign extended 63 bit values
func wrap(v int64) int64 { return v << 1 >> 1 }

const (
	maxInt = int64(1)<<62 - 1
	minInt = -int64(1) << 62
)

type Frame struct {
	vals map[*Var]*Value
	env  map[*Var]*Value
}

type undefined struct{ why string } // behaviour the properties do not define: the case is discarded
type panicked struct {
	array    bool
	idx, len int64
	what     string
	exit     bool // ended by exit(code)
	code     int64
}
type returned struct{ v Value }

type Interp struct {
	out   strings.Builder
	fuel  int
	depth int
	maxD  int
	alloc int
	eager int // > 0 while evaluating the right operand of and/or: side effects there are not defined
	Args  []string
	Env   map[string]string
	ctr   map[string]int
	live  bool // range loops evaluate their end each time and continue from their variable
}

type Result struct {
	Out    string
	Panic  *panicked
	Allocs int
}

// Runs main. ok = false if the program does something undefined or takes too long.
func interpret(pr *Program, fuel int) (res Result, in *Interp, why string) {
	return interpretArgs(pr, fuel, nil)
}

func interpretArgs(pr *Program, fuel int, args []string) (res Result, in *Interp, why string) {
	return interpretLive(pr, fuel, args, false)
}

func interpretLive(pr *Program, fuel int, args []string, live bool) (res Result, in *Interp, why string) {
	in = &Interp{fuel: fuel, ctr: map[string]int{}, Args: args, live: live}
	var mainFn *FnDecl
	for _, f := range pr.Fns {
		if f.Name == "main" {
			mainFn = f
		}
	}
	defer func() {
		if r := recover(); r != nil {
			switch x := r.(type) {
			case undefined:
				why = x.why
			case panicked:
				res = Result{in.out.String(), &x, in.alloc}
			default:
				panic(r)
			}
		}
	}()
	in.call(&FnV{Fn: mainFn}, nil)
	res = Result{Out: in.out.String(), Allocs: in.alloc}
	return
}

func (in *Interp) step() {
	in.fuel--
	if in.fuel <= 0 {
		panic(undefined{"fuel"})
	}
}

func (in *Interp) effect() {
	if in.eager > 0 {
		panic(undefined{"effect in operand of and/or"})
	}
}

func (in *Interp) print(s string) {
	in.effect()
	in.out.WriteString(s)
	if in.out.Len() > 200000 {
		panic(undefined{"output"})
	}
}

func (in *Interp) fail(p panicked) {
	in.effect()
	panic(p)
}

func (in *Interp) alc(n int) {
	in.alloc++
	if in.alloc > 60000 {
		panic(undefined{"allocations"})
	}
}

func (in *Interp) call(f *FnV, args []Value) Value {
	in.step()
	in.depth++
	if in.depth > in.maxD {
		in.maxD = in.depth
	}
	if in.depth > 400 {
		panic(undefined{"depth"})
	}
	defer func() { in.depth-- }()
	d := f.Fn
	if d.Builtin != nil {
		return d.Builtin(in, args)
	}
	fr := &Frame{vals: map[*Var]*Value{}, env: f.Env}
	for i, p := range d.Params {
		v := args[i]
		fr.vals[p] = &v
	}
	if d.Expr != nil {
		v := in.eval(fr, d.Expr)
		if d.Ret.K == KNothing {
			return nil
		}
		return v
	}
	r := in.block(fr, d.Body)
	if r == nil {
		return nil
	}
	return r.v
}

func (in *Interp) block(fr *Frame, b []*Stmt) *returned {
	for _, s := range b {
		if r := in.stmt(fr, s); r != nil {
			return r
		}
	}
	return nil
}

func (fr *Frame) cell(v *Var) *Value {
	if c, ok := fr.vals[v]; ok {
		return c
	}
	if c, ok := fr.env[v]; ok {
		return c
	}
	panic(fmt.Sprintf("variable %s not bound", v.Name))
}

func (in *Interp) stmt(fr *Frame, s *Stmt) *returned {
	in.step()
	switch s.Op {
	case SDecl:
		v := in.eval(fr, s.R)
		fr.vals[s.Var] = &v
	case SAssign:
		v := in.eval(fr, s.R)
		switch s.L.Op {
		case EVar:
			if _, local := fr.vals[s.L.Var]; !local {
				in.effect()
			}
			*fr.cell(s.L.Var) = v
		case EField:
			o := in.eval(fr, s.L.Kids[0]).(*StructV)
			in.effect()
			o.F[fieldIdx(o.Def, s.L.S)] = v
		case EIndex:
			a := in.eval(fr, s.L.Kids[0]).(*ArrV)
			i := in.eval(fr, s.L.Kids[1]).(int64)
			in.effect()
			in.bounds(i, len(a.E))
			a.E[i] = v
		}
	case SIf:
		for i, b := range s.Blocks {
			if i >= len(s.Conds) || in.eval(fr, s.Conds[i]).(bool) {
				return in.block(fr, b)
			}
		}
	case SWhile:
		for in.eval(fr, s.R).(bool) {
			in.step()
			if r := in.block(fr, s.Blocks[0]); r != nil {
				return r
			}
		}
	case SForRange:
		a := in.eval(fr, s.L).(int64)
		if s.R.Op == EInt && s.R.I == 0 && !(s.L.Op == EInt && s.L.I == 0) && s.After == -1 {
			for i := a - 1; i >= 0; i-- {
				in.step()
				v := Value(i)
				fr.vals[s.Var] = &v
				if r := in.block(fr, s.Blocks[0]); r != nil {
					return r
				}
			}
			return nil
		}
		b := in.eval(fr, s.R).(int64)
		for i := a; i < b; i++ {
			in.step()
			v := Value(i)
			fr.vals[s.Var] = &v
			if r := in.block(fr, s.Blocks[0]); r != nil {
				return r
			}
			if in.live {
				i = v.(int64)
				b = in.eval(fr, s.R).(int64)
			}
		}
	case SForArr:
		a := in.eval(fr, s.R).(*ArrV)
		for i := 0; i < len(a.E); i++ {
			in.step()
			v := a.E[i]
			fr.vals[s.Var] = &v
			if r := in.block(fr, s.Blocks[0]); r != nil {
				return r
			}
		}
	case SMatch:
		e := in.eval(fr, s.R).(*EnumV)
		for _, c := range s.Cases {
			if c.Tag == e.Tag {
				for i, v := range c.Vars {
					x := e.F[i]
					fr.vals[v] = &x
				}
				return in.block(fr, c.Body)
			}
		}
		panic("no case")
	case SReturn:
		if s.R == nil {
			return &returned{}
		}
		return &returned{in.eval(fr, s.R)}
	case SExpr:
		in.eval(fr, s.R)
	case SRaw:
		panic("raw")
	}
	return nil
}

func fieldIdx(d *TypeDecl, name string) int {
	for i, f := range d.Fields {
		if f.Name == name {
			return i
		}
	}
	panic("field " + name)
}

func (in *Interp) bounds(i int64, n int) {
	if i < 0 || i >= int64(n) {
		in.fail(panicked{array: true, idx: i, len: int64(n)})
	}
}

func (in *Interp) eval(fr *Frame, e *Expr) Value {
	in.step()
	switch e.Op {
	case EInt:
		return wrap(e.I)
	case EBool:
		return e.I != 0
	case EStr:
		return e.S
	case EVar:
		return *fr.cell(e.Var)
	case ENeg:
		return wrap(-in.eval(fr, e.Kids[0]).(int64))
	case EBNot:
		return wrap(^in.eval(fr, e.Kids[0]).(int64))
	case ENot:
		return !in.eval(fr, e.Kids[0]).(bool)
	case EBin:
		a := in.eval(fr, e.Kids[0])
		if e.S == "and" || e.S == "or" {
			in.eager++
			b := in.eval(fr, e.Kids[1]).(bool)
			in.eager--
			if e.S == "and" {
				return a.(bool) && b
			}
			return a.(bool) || b
		}
		b := in.eval(fr, e.Kids[1])
		return binop(e.S, a.(int64), b.(int64))
	case ETern:
		if in.eval(fr, e.Kids[0]).(bool) {
			return in.eval(fr, e.Kids[1])
		}
		return in.eval(fr, e.Kids[2])
	case ECall:
		return in.call(&FnV{Fn: e.Fn}, in.evals(fr, e.Kids))
	case ECallV:
		vs := in.evals(fr, e.Kids)
		return in.call(vs[0].(*FnV), vs[1:])
	case ECallF:
		o := in.eval(fr, e.Kids[0]).(*StructV)
		f := o.F[fieldIdx(o.Def, e.S)].(*FnV)
		return in.call(f, in.evals(fr, e.Kids[1:]))
	case EField:
		switch o := in.eval(fr, e.Kids[0]).(type) {
		case *StructV:
			return o.F[fieldIdx(o.Def, e.S)]
		case *MapV:
			return int64(len(o.K))
		case *BufV:
			return int64(len(o.B))
		}
	case ELen:
		switch x := in.eval(fr, e.Kids[0]).(type) {
		case *ArrV:
			return int64(len(x.E))
		case string:
			return int64(len(x))
		}
	case EIndex:
		a := in.eval(fr, e.Kids[0]).(*ArrV)
		i := in.eval(fr, e.Kids[1]).(int64)
		in.bounds(i, len(a.E))
		return a.E[i]
	case EArr:
		in.alc(1)
		return &ArrV{in.evals(fr, e.Kids)}
	case EStruct:
		in.alc(1)
		return &StructV{e.Def, in.evals(fr, e.Kids)}
	case EEnum:
		in.alc(1)
		return &EnumV{e.Def, e.Tag, in.evals(fr, e.Kids)}
	case EFnRef:
		return &FnV{Fn: e.Fn}
	case ELambda:
		in.alc(1)
		env := map[*Var]*Value{}
		for k, c := range fr.env {
			v := *c
			env[k] = &v
		}
		for k, c := range fr.vals {
			v := *c
			env[k] = &v
		}
		return &FnV{Fn: e.Fn, Env: env}
	}
	panic(fmt.Sprint("eval ", e.Op))
}

func (in *Interp) evals(fr *Frame, es []*Expr) []Value {
	vs := make([]Value, len(es))
	for i, k := range es {
		vs[i] = in.eval(fr, k)
	}
	return vs
}

func binop(op string, a, b int64) Value {
	switch op {
	case "+":
		return wrap(a + b)
	case "-":
		return wrap(a - b)
	case "*":
		return wrap(a * b)
	case "/":
		if b == 0 {
			panic(undefined{"division by zero"})
		}
		return wrap(a / b)
	case "&":
		return a & b
	case "|":
		return a | b
	case "^":
		return a ^ b
	case "<<":
		if b < 0 || b > 63 {
			panic(undefined{"shift"})
		}
		return wrap(a << uint(b))
	case ">>":
		if b < 0 || b > 63 {
			panic(undefined{"shift"})
		}
		return wrap(a >> uint(b))
	case "==":
		return a == b
	case "<":
		return a < b
	case "<=":
		return a <= b
	case ">":
		return a > b
	case ">=":
		return a >= b
	}
	panic(op)
}

func itoa(v int64) string { return strconv.FormatInt(v, 10) }
