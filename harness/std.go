package main

// The standard library as the interpreter sees it: types, and functions with native reference definitions.

import (
	"fmt"
	"strings"
)

var (
	dOption = &TypeDecl{Name: "option", IsEnum: true, Std: true, TPs: []string{"T"}, Cases: []CaseDecl{
		{"Some", []Field{{"t", tPar("T")}}}, {"None", nil}}}
	dResult = &TypeDecl{Name: "result", IsEnum: true, Std: true, TPs: []string{"T", "E"}, Cases: []CaseDecl{
		{"Ok", []Field{{"val", tPar("T")}}}, {"Err", []Field{{"val", tPar("E")}}}}}
	dEither = &TypeDecl{Name: "either", IsEnum: true, Std: true, TPs: []string{"L", "R"}, Cases: []CaseDecl{
		{"Left", []Field{{"val", tPar("L")}}}, {"Right", []Field{{"val", tPar("R")}}}}}
	dPair = &TypeDecl{Name: "pair", Std: true, TPs: []string{"T", "R"}, Fields: []Field{{"first", tPar("T")}, {"second", tPar("R")}}}
	dList = &TypeDecl{Name: "list", IsEnum: true, Std: true, TPs: []string{"T"}}
	dMap  = &TypeDecl{Name: "map", Std: true, TPs: []string{"K", "V"}}
	dBuf  = &TypeDecl{Name: "byteBuffer", Std: true}
)

func init() {
	dList.Cases = []CaseDecl{{"Element", []Field{{"val", tPar("T")}, {"rest", dList.ty(tPar("T"))}}}, {"Empty", nil}}
	dMap.Fields = []Field{{"size", tInt}}
	dBuf.Fields = []Field{{"size", tInt}}
}

func opt(t *Ty) *Ty { return dOption.ty(t) }
func lst(t *Ty) *Ty { return dList.ty(t) }

func vSome(v Value) Value { return &EnumV{dOption, 0, []Value{v}} }
func vNone() Value        { return &EnumV{dOption, 1, nil} }
func vOpt(v Value, ok bool) Value {
	if ok {
		return vSome(v)
	}
	return vNone()
}

func listOf(vs []Value) Value {
	var l Value = &EnumV{dList, 1, nil}
	for i := len(vs) - 1; i >= 0; i-- {
		l = &EnumV{dList, 0, []Value{vs[i], l}}
	}
	return l
}

func elems(l Value) []Value {
	var r []Value
	for e := l.(*EnumV); e.Tag == 0; e = e.F[1].(*EnumV) {
		r = append(r, e.F[0])
	}
	return r
}

var stdFns []*FnDecl
var stdByName = map[string][]*FnDecl{}

func std(group string, weight int, pure bool, name string, tps string, ret *Ty, params []*Ty, b func(in *Interp, a []Value) Value) *FnDecl {
	f := &FnDecl{Name: name, Ret: ret, Pure: pure, Std: true, Builtin: b, Weight: weight, Group: group}
	if tps != "" {
		f.TPs = strings.Split(tps, ",")
	}
	for i, p := range params {
		f.Params = append(f.Params, &Var{Name: fmt.Sprintf("p%d", i), T: p})
	}
	stdFns = append(stdFns, f)
	stdByName[name] = append(stdByName[name], f)
	return f
}

func ps(ts ...*Ty) []*Ty { return ts }

// finds a std function by name and parameter types
func stdf(name string, params ...*Ty) *FnDecl {
outer:
	for _, f := range stdByName[name] {
		if len(f.Params) != len(params) {
			continue
		}
		for i, p := range params {
			if p != nil && !same(f.Params[i].T, p) {
				continue outer
			}
		}
		return f
	}
	panic("no std function " + name)
}

type BufV struct{ B []byte }
type MapV struct {
	K, V []Value
	h, m *FnV
}

func (m *MapV) find(in *Interp, k Value) int {
	for i := range m.K {
		if in.call(m.m, []Value{m.K[i], k}).(bool) {
			return i
		}
	}
	return -1
}

func undef(s string) { panic(undefined{s}) }

func sx8(b byte) int64 { return int64(int8(b)) }

func fnv1a(s string) int64 {
	h := uint32(0x811c9dc5)
	for i := 0; i < len(s); i++ {
		h ^= uint32(s[i])
		h *= 0x01000193
	}
	return int64(h)
}

func toBinary(i int64) string {
	var b strings.Builder
	for j := 62; j >= 0; j-- {
		if (i>>uint(j))&1 == 1 {
			b.WriteByte('1')
		} else {
			b.WriteByte('0')
		}
		if j > 0 && j%8 == 0 {
			b.WriteString("·")
		}
	}
	return b.String()
}

func init() {
	T, R, E, K, V := tPar("T"), tPar("R"), tPar("E"), tPar("K"), tPar("V")
	i64 := func(v Value) int64 { return v.(int64) }

	// printing
	std("print", 5, false, "println", "", tNothing, ps(tStr), func(in *Interp, a []Value) Value { in.print(a[0].(string) + "\n"); return nil })
	std("print", 5, false, "println", "", tNothing, ps(tInt), func(in *Interp, a []Value) Value { in.print(itoa(i64(a[0])) + "\n"); return nil })
	std("print", 5, false, "println", "", tNothing, ps(tBool), func(in *Interp, a []Value) Value { in.print(fmt.Sprint(a[0].(bool)) + "\n"); return nil })
	std("print", 1, false, "print", "", tNothing, ps(tStr), func(in *Interp, a []Value) Value { in.print(a[0].(string)); return nil })
	std("print", 1, false, "print", "", tNothing, ps(tInt), func(in *Interp, a []Value) Value { in.print(itoa(i64(a[0]))); return nil })
	std("print", 1, false, "printHex", "", tNothing, ps(tInt), func(in *Interp, a []Value) Value {
		in.print(fmt.Sprintf("0x%x\n", uint64(i64(a[0]))))
		return nil
	})
	std("print", 1, false, "printHexPadded", "", tNothing, ps(tInt), func(in *Interp, a []Value) Value {
		in.print(fmt.Sprintf("0x%016x\n", uint64(i64(a[0]))))
		return nil
	})

	// core
	std("core", 3, true, "mod", "", tInt, ps(tInt, tInt), func(in *Interp, a []Value) Value {
		if i64(a[1]) == 0 {
			undef("mod 0")
		}
		return i64(a[0]) % i64(a[1])
	}).Weight = 0 // called through safe forms
	std("conv", 3, true, "toString", "", tStr, ps(tInt), func(in *Interp, a []Value) Value { in.alc(3); return itoa(i64(a[0])) })
	std("conv", 2, true, "toString", "", tStr, ps(tBool), func(in *Interp, a []Value) Value { return fmt.Sprint(a[0].(bool)) })
	std("conv", 1, true, "toBinary", "", tStr, ps(tInt), func(in *Interp, a []Value) Value { in.alc(5); return toBinary(i64(a[0])) })

	// strings
	std("str", 4, true, "append", "", tStr, ps(tStr, tStr), func(in *Interp, a []Value) Value {
		in.alc(1)
		r := a[0].(string) + a[1].(string)
		if len(r) > 20000 {
			undef("long string")
		}
		return r
	})
	std("str", 2, true, "Equals", "", tBool, ps(tStr, tStr), func(in *Interp, a []Value) Value { return a[0].(string) == a[1].(string) })
	std("str", 2, true, "IndexOf", "", tInt, ps(tStr, tStr), func(in *Interp, a []Value) Value {
		return int64(strings.Index(a[0].(string), a[1].(string)))
	})
	std("str", 2, true, "IndexOf", "", tInt, ps(tStr, tStr, tInt), func(in *Interp, a []Value) Value {
		s, sub, from := a[0].(string), a[1].(string), i64(a[2])
		if from < 0 || sub == "" {
			undef("IndexOf")
		}
		if from > int64(len(s)) {
			return int64(-1)
		}
		i := strings.Index(s[from:], sub)
		if i < 0 {
			return int64(-1)
		}
		return int64(i) + from
	}).Weight = 0
	std("str", 0, true, "Substring", "", tStr, ps(tStr, tInt, tInt), func(in *Interp, a []Value) Value {
		s, x, y := a[0].(string), i64(a[1]), i64(a[2])
		if x < 0 || y < x || y > int64(len(s)) {
			undef("Substring")
		}
		in.alc(1)
		return s[x:y]
	})
	std("str", 0, true, "byte", "", tInt, ps(tStr, tInt), func(in *Interp, a []Value) Value {
		s, i := a[0].(string), i64(a[1])
		if i < 0 || i >= int64(len(s)) {
			in.fail(panicked{what: "idx is out of range"})
		}
		return sx8(s[i])
	})
	std("hash", 2, true, "fnv1a", "", tInt, ps(tStr), func(in *Interp, a []Value) Value { return fnv1a(a[0].(string)) })

	// bytes
	std("bytes", 0, true, "Bytes", "", tBytes, ps(tInt), func(in *Interp, a []Value) Value {
		if i64(a[0]) < 0 || i64(a[0]) > 100000 {
			undef("Bytes length")
		}
		in.alc(1)
		return &BytesV{make([]byte, i64(a[0]))}
	})
	std("bytes", 1, true, "length", "", tInt, ps(tBytes), func(in *Interp, a []Value) Value { return int64(len(a[0].(*BytesV).B)) })
	std("bytes", 0, true, "get", "", tInt, ps(tBytes, tInt), func(in *Interp, a []Value) Value {
		b, i := a[0].(*BytesV).B, i64(a[1])
		if i < 0 || i >= int64(len(b)) {
			in.fail(panicked{what: "idx is out of range"})
		}
		return sx8(b[i])
	})
	std("bytes", 0, false, "set", "", tNothing, ps(tBytes, tInt, tInt), func(in *Interp, a []Value) Value {
		b, i := a[0].(*BytesV).B, i64(a[1])
		if i < 0 || i >= int64(len(b)) {
			in.fail(panicked{what: "idx is out of range"})
		}
		in.effect()
		b[i] = byte(i64(a[2]))
		return nil
	})
	slice := func(in *Interp, b []byte, pos, n int64) Value {
		if pos < 0 || n < 0 || pos > int64(len(b)) || n > int64(len(b))-pos {
			undef("slice")
		}
		in.alc(1)
		return string(b[pos : pos+n])
	}
	std("bytes", 1, true, "toString", "", tStr, ps(tBytes), func(in *Interp, a []Value) Value {
		b := a[0].(*BytesV).B
		return slice(in, b, 0, int64(len(b)))
	}).Weight = 0
	std("bytes", 0, true, "toString", "", tStr, ps(tBytes, tInt), func(in *Interp, a []Value) Value {
		return slice(in, a[0].(*BytesV).B, 0, i64(a[1]))
	})
	std("bytes", 0, true, "toString", "", tStr, ps(tBytes, tInt, tInt), func(in *Interp, a []Value) Value {
		return slice(in, a[0].(*BytesV).B, i64(a[1]), i64(a[2]))
	})
	std("bytes", 0, false, "copyArray", "", tNothing, ps(tBytes, tInt, tBytes, tInt), func(in *Interp, a []Value) Value {
		s, sp, d, dp := a[0].(*BytesV).B, i64(a[1]), a[2].(*BytesV).B, i64(a[3])
		if a[0] == a[2] || sp < 0 || dp < 0 || sp > int64(len(s)) || dp > int64(len(d)) {
			undef("copyArray")
		}
		in.effect()
		copy(d[dp:], s[sp:])
		return nil
	})

	// byte buffers
	bt := dBuf.ty()
	std("buf", 0, true, "NewByteBuffer", "", bt, ps(tInt), func(in *Interp, a []Value) Value {
		if i64(a[0]) < 1 || i64(a[0]) > 10000 {
			undef("buffer capacity")
		}
		in.alc(2)
		return &BufV{}
	})
	std("buf", 2, false, "append", "", bt, ps(bt, tStr), func(in *Interp, a []Value) Value {
		in.effect()
		in.alc(1)
		b := a[0].(*BufV)
		b.B = append(b.B, a[1].(string)...)
		return b
	})
	std("buf", 2, false, "append", "", tNothing, ps(bt, tInt), func(in *Interp, a []Value) Value {
		in.effect()
		in.alc(1)
		b := a[0].(*BufV)
		b.B = append(b.B, byte(i64(a[1])))
		return nil
	})
	std("buf", 1, false, "reset", "", tNothing, ps(bt), func(in *Interp, a []Value) Value {
		in.effect()
		a[0].(*BufV).B = nil
		return nil
	})
	std("buf", 1, true, "size", "", tInt, ps(bt), func(in *Interp, a []Value) Value { return int64(len(a[0].(*BufV).B)) }).NoDot = true
	std("buf", 0, true, "toString", "", tStr, ps(bt), func(in *Interp, a []Value) Value {
		in.alc(1)
		return string(a[0].(*BufV).B)
	})
	std("buf", 0, true, "substring", "", tStr, ps(bt, tInt, tInt), func(in *Interp, a []Value) Value {
		return slice(in, a[0].(*BufV).B, i64(a[1]), i64(a[2]))
	})

	// arrays
	std("arr", 1, true, "intArray", "", tArr(tInt), ps(tInt), func(in *Interp, a []Value) Value { return mkArr(in, i64(a[0]), int64(0)) }).Weight = 0
	std("arr", 0, true, "stringArray", "", tArr(tStr), ps(tInt, tStr), func(in *Interp, a []Value) Value { return mkArr(in, i64(a[0]), a[1]) })
	std("arr", 0, true, "array", "T", tArr(opt(T)), ps(tInt), func(in *Interp, a []Value) Value { return mkArr(in, i64(a[0]), vNone()) })
	std("arr", 0, true, "array", "T", tArr(T), ps(tInt, T), func(in *Interp, a []Value) Value { return mkArr(in, i64(a[0]), a[1]) })
	std("arr", 0, false, "setElement", "T", tArr(T), ps(tArr(T), tInt, T), func(in *Interp, a []Value) Value {
		x := a[0].(*ArrV)
		in.bounds(i64(a[1]), len(x.E))
		in.effect()
		x.E[i64(a[1])] = a[2]
		return x
	})

	// option
	some := func(v Value) (Value, bool) {
		e := v.(*EnumV)
		if e.Tag == 0 {
			return e.F[0], true
		}
		return nil, false
	}
	std("opt", 1, true, "isNone", "T", tBool, ps(opt(T)), func(in *Interp, a []Value) Value { _, ok := some(a[0]); return !ok })
	std("opt", 1, true, "isSome", "T", tBool, ps(opt(T)), func(in *Interp, a []Value) Value { _, ok := some(a[0]); return ok })
	std("opt", 2, true, "filter", "T", opt(T), ps(opt(T), tFn(tBool, T)), func(in *Interp, a []Value) Value {
		v, ok := some(a[0])
		in.alc(1)
		return vOpt(v, ok && in.call(a[1].(*FnV), []Value{v}).(bool))
	})
	std("opt", 2, true, "orElse", "T", T, ps(opt(T), T), func(in *Interp, a []Value) Value {
		if v, ok := some(a[0]); ok {
			return v
		}
		return a[1]
	})
	std("opt", 2, true, "map", "T,R", opt(R), ps(opt(T), tFn(R, T)), func(in *Interp, a []Value) Value {
		in.alc(1)
		if v, ok := some(a[0]); ok {
			return vSome(in.call(a[1].(*FnV), []Value{v}))
		}
		return vNone()
	})
	std("opt", 2, false, "peek", "T", opt(T), ps(opt(T), tFn(tNothing, T)), func(in *Interp, a []Value) Value {
		if v, ok := some(a[0]); ok {
			in.call(a[1].(*FnV), []Value{v})
		}
		return a[0]
	})

	// result
	res := func(t, e *Ty) *Ty { return dResult.ty(t, e) }
	std("res", 2, true, "map", "T,E,R", res(R, E), ps(res(T, E), tFn(R, T)), func(in *Interp, a []Value) Value {
		e := a[0].(*EnumV)
		in.alc(1)
		if e.Tag == 0 {
			return &EnumV{dResult, 0, []Value{in.call(a[1].(*FnV), e.F)}}
		}
		return e
	})
	std("res", 2, true, "then", "T,E,R", res(R, E), ps(res(T, E), tFn(res(R, E), T)), func(in *Interp, a []Value) Value {
		e := a[0].(*EnumV)
		if e.Tag == 0 {
			return in.call(a[1].(*FnV), e.F)
		}
		return e
	})
	std("res", 2, true, "peek", "T,E", res(T, E), ps(res(T, E), tFn(opt(E), T)), func(in *Interp, a []Value) Value {
		e := a[0].(*EnumV)
		in.alc(1)
		if e.Tag == 0 {
			if x, ok := some(in.call(a[1].(*FnV), e.F)); ok {
				return &EnumV{dResult, 1, []Value{x}}
			}
		}
		return e
	})

	// list
	std("list", 2, true, "toList", "T", lst(T), ps(tArr(T)), func(in *Interp, a []Value) Value {
		in.alc(len(a[0].(*ArrV).E))
		return listOf(a[0].(*ArrV).E)
	})
	std("list", 2, true, "append", "T", lst(T), ps(lst(T), T), func(in *Interp, a []Value) Value {
		in.alc(1)
		return &EnumV{dList, 0, []Value{a[1], a[0]}}
	})
	std("list", 2, true, "reverse", "T", lst(T), ps(lst(T)), func(in *Interp, a []Value) Value {
		vs := elems(a[0])
		in.alc(len(vs))
		r := make([]Value, len(vs))
		for i := range vs {
			r[len(vs)-1-i] = vs[i]
		}
		return listOf(r)
	})
	std("list", 2, true, "remove", "T", dPair.ty(lst(T), opt(T)), ps(lst(T), tFn(tBool, T)), func(in *Interp, a []Value) Value {
		var out []Value
		got := vNone()
		found := false
		for _, v := range elems(a[0]) {
			if !found && in.call(a[1].(*FnV), []Value{v}).(bool) {
				got, found = vSome(v), true
			} else {
				out = append(out, v)
			}
		}
		in.alc(2 * len(out))
		return &StructV{dPair, []Value{listOf(out), got}}
	})
	std("list", 2, true, "find", "T", opt(T), ps(lst(T), tFn(tBool, T)), func(in *Interp, a []Value) Value {
		in.alc(1)
		for _, v := range elems(a[0]) {
			if in.call(a[1].(*FnV), []Value{v}).(bool) {
				return vSome(v)
			}
		}
		return vNone()
	})
	std("list", 2, false, "foreach", "T", tNothing, ps(lst(T), tFn(tNothing, T)), func(in *Interp, a []Value) Value {
		for _, v := range elems(a[0]) {
			in.call(a[1].(*FnV), []Value{v})
		}
		return nil
	})
	std("list", 2, true, "map", "T,R", lst(R), ps(lst(T), tFn(R, T)), func(in *Interp, a []Value) Value {
		var out []Value
		for _, v := range elems(a[0]) {
			in.alc(1)
			out = append(out, in.call(a[1].(*FnV), []Value{v}))
		}
		return listOf(out)
	})
	std("list", 2, true, "reduce", "T", T, ps(lst(T), T, tFn(T, T, T)), func(in *Interp, a []Value) Value {
		acc := a[1]
		for _, v := range elems(a[0]) {
			acc = in.call(a[2].(*FnV), []Value{acc, v})
		}
		return acc
	})

	// map
	mp := dMap.ty(K, V)
	std("map", 0, true, "NewHashMap", "K,V", mp, ps(tFn(tInt, K), tFn(tBool, K, K)), func(in *Interp, a []Value) Value {
		in.alc(3)
		return &MapV{h: a[0].(*FnV), m: a[1].(*FnV)}
	})
	std("map", 2, false, "put", "K,V", opt(V), ps(mp, K, V), func(in *Interp, a []Value) Value {
		in.effect()
		in.alc(4)
		m := a[0].(*MapV)
		if i := m.find(in, a[1]); i >= 0 {
			old := m.V[i]
			m.V[i] = a[2]
			return vSome(old)
		}
		m.K, m.V = append(m.K, a[1]), append(m.V, a[2])
		return vNone()
	})
	std("map", 2, true, "get", "K,V", opt(V), ps(mp, K), func(in *Interp, a []Value) Value {
		in.alc(4)
		m := a[0].(*MapV)
		i := m.find(in, a[1])
		if i < 0 {
			return vNone()
		}
		return vSome(m.V[i])
	})
	std("map", 1, true, "contains", "K,V", tBool, ps(mp, K), func(in *Interp, a []Value) Value {
		in.alc(4)
		return a[0].(*MapV).find(in, a[1]) >= 0
	})
	std("map", 1, true, "orElse", "K,V", V, ps(mp, K, V), func(in *Interp, a []Value) Value {
		in.alc(4)
		m := a[0].(*MapV)
		if i := m.find(in, a[1]); i >= 0 {
			return m.V[i]
		}
		return a[2]
	})
	std("map", 1, false, "remove", "K,V", opt(V), ps(mp, K), func(in *Interp, a []Value) Value {
		in.effect()
		in.alc(4)
		m := a[0].(*MapV)
		i := m.find(in, a[1])
		if i < 0 {
			return vNone()
		}
		v := m.V[i]
		m.K = append(append([]Value(nil), m.K[:i]...), m.K[i+1:]...)
		m.V = append(append([]Value(nil), m.V[:i]...), m.V[i+1:]...)
		return vSome(v)
	})
	std("map", 0, false, "foreach", "K,V", tNothing, ps(mp, tFn(tNothing, K, V)), func(in *Interp, a []Value) Value {
		m := a[0].(*MapV)
		ks, vs := m.K, m.V
		for i := range ks {
			in.call(a[1].(*FnV), []Value{ks[i], vs[i]})
		}
		return nil
	})

	std("panic", 0, false, "panic", "", tNothing, ps(tStr), func(in *Interp, a []Value) Value {
		in.fail(panicked{what: a[0].(string)})
		return nil
	})
	std("panic", 0, false, "assert", "", tNothing, ps(tBool, tStr), func(in *Interp, a []Value) Value {
		if !a[0].(bool) {
			in.fail(panicked{what: a[1].(string)})
		}
		return nil
	})
}

func init() {
	std("panic", 0, false, "exit", "", tNothing, ps(tInt), func(in *Interp, a []Value) Value {
		in.fail(panicked{exit: true, code: a[0].(int64)})
		return nil
	})
}

func mkArr(in *Interp, n int64, v Value) Value {
	if n < 0 || n > 20000 {
		undef("array length")
	}
	in.alc(2)
	a := &ArrV{make([]Value, n)}
	for i := range a.E {
		a.E[i] = v
	}
	return a
}
