package main

// C27: the meaning of a program does not depend on how large it or its data is.

import (
	"fmt"
	"strings"
	"time"
)

type scaler struct {
	s     *Src
	decls []string
	body  strings.Builder
	out   strings.Builder
	n     int // size of the current dimension
	id    int
	feat  []string
	max   int
	big   bool
}

func (z *scaler) name(p string) string { z.id++; return fmt.Sprintf("%s%d", p, z.id) }
func (z *scaler) say(f string, a ...interface{}) {
	fmt.Fprintf(&z.body, "    "+f+"\n", a...)
}
func (z *scaler) want(f string, a ...interface{}) { fmt.Fprintf(&z.out, f+"\n", a...) }
func (z *scaler) decl(f string, a ...interface{}) { z.decls = append(z.decls, fmt.Sprintf(f, a...)) }
func (z *scaler) joined(n int, sep string, f func(int) string) string {
	var r []string
	for i := 0; i < n; i++ {
		r = append(r, f(i))
	}
	return strings.Join(r, sep)
}

// A size: small, or close to a power of two
func (z *scaler) size(max int) int {
	s := z.s
	n := 0
	if z.big && max > 100 && max < 2000 {
		max *= 4
	}
	switch s.N(6) {
	case 0:
		n = s.Range(1, 20)
	case 1:
		n = s.Range(1, max)
	default:
		n = 1<<uint(s.Range(2, 20)) + s.Range(0, 4) - 2
		for n > max {
			n = (n+2)>>1 + s.Range(0, 2) - 1
		}
	}
	if n < 1 {
		n = 1
	}
	if n > max {
		n = max
	}
	z.n = n
	if n > z.max {
		z.max = n
	}
	return n
}

func (z *scaler) data(max int) int {
	big := z.big
	z.big = false
	defer func() { z.big = big }()
	return z.size(max)
}

// Some of 0..n-1, with both ends
func (z *scaler) some(n int) []int {
	r := []int{0, n - 1}
	for i := 0; i < 6 && n > 2; i++ {
		k := z.s.N(n)
		if z.s.Chance(1, 2) {
			k = 1<<uint(z.s.N(14)) - 1 + z.s.N(3)
		}
		if k < n {
			r = append(r, k)
		}
	}
	return r
}

type dim struct {
	name string
	f    func(z *scaler)
}

var dims = []dim{
	{"variables", func(z *scaler) {
		n, f := z.size(700), z.name("vars")
		var b strings.Builder
		kind := z.s.N(3)
		if z.big { // the roots of each call are listed
			n, kind = z.size(9000), 3
		}
		for i := 0; i < n; i++ {
			if kind == 0 || kind == 2 && i%3 == 0 || kind == 3 && i%500 != 499 {
				fmt.Fprintf(&b, "    v%d := %d\n", i, i*3+1)
			} else {
				fmt.Fprintf(&b, "    v%d := toString(%d)\n", i, i*3+1)
			}
		}
		b.WriteString("    junk := \"a\".append(\"b\")\n")
		for _, i := range z.some(n) {
			fmt.Fprintf(&b, "    println(v%d)\n", i)
			z.want("%d", i*3+1)
		}
		z.decl("fn %s() {\n%s}", f, b.String())
		z.say("%s()", f)
	}},
	{"variables in blocks", func(z *scaler) {
		n, f := z.size(250), z.name("blocks")
		var b strings.Builder
		for i := 0; i < n; i++ {
			fmt.Fprintf(&b, "    if k >= %d {\n        v%d := toString(%d)\n        acc = acc + v%d.length\n    }\n", i, i, i, i)
		}
		z.decl("fn %s(k: int) int {\n    acc := 0\n%s    return acc\n}", f, b.String())
		for _, k := range z.some(n) {
			v := 0
			for i := 0; i <= k; i++ {
				v += len(fmt.Sprint(i))
			}
			z.say("println(%s(%d))", f, k)
			z.want("%d", v)
		}
	}},
	{"string literals", func(z *scaler) {
		n, f := z.size(800), z.name("lits")
		z.decl("fn %s(k: int) string {\n%s\n    return \"\"\n}", f, z.joined(n, "\n", func(i int) string { return fmt.Sprintf("    if k == %d { return \"%s%d\" }", i, f, i*7) }))
		for _, k := range z.some(n) {
			z.say("println(%s(%d))", f, k)
			z.want("%s%d", f, k*7)
		}
	}},
	{"functions", func(z *scaler) {
		n, f := z.size(600), z.name("fun")
		for i := 0; i < n; i++ {
			z.decl("fn %sx%d(a: int) int = a + %d", f, i, i*5)
		}
		z.say("%sall := [%s]", f, z.joined(n, ", ", func(i int) string { return fmt.Sprintf("%sx%d", f, i) }))
		for _, k := range z.some(n) {
			z.say("println(%sx%d(1))", f, k)
			z.say("%sk%d := %sall[%d]", f, z.id, f, k)
			z.say("println(%sk%d(2))", f, z.id)
			z.id++
			z.want("%d\n%d", k*5+1, k*5+2)
		}
	}},
	{"overloads", func(z *scaler) {
		n, f := z.size(300), z.name("over")
		for i := 0; i < n; i++ {
			z.decl("struct %st%d {\n    v: int\n}", f, i)
			z.decl("fn %s(a: %st%d) int = a.v + %d", f, f, i, i*5)
		}
		for _, k := range z.some(n) {
			z.say("println(%s(%s%st%d(3)))", f, strings.ToUpper(f[:1]), f[1:], k)
			z.want("%d", k*5+3)
		}
	}},
	{"types", func(z *scaler) {
		n, f := z.size(700), z.name("ty")
		for i := 0; i < n; i++ {
			switch i % 4 {
			case 0:
				z.decl("struct %st%d {\n    v: string\n}", f, i)
			case 1:
				z.decl("struct %st%d {\n    n: int\n    v: string\n}", f, i)
			case 2:
				z.decl("struct %st%d {\n    w: string\n    n: int\n    v: string\n}", f, i)
			case 3:
				z.decl("struct %st%d {\n    n: int\n    v: []string\n}", f, i)
			}
		}
		C := strings.ToUpper(f[:1]) + f[1:]
		for _, k := range z.some(n) {
			v := fmt.Sprintf("%sv%d", f, z.id)
			z.id++
			switch k % 4 {
			case 0:
				z.say("%s := %st%d(toString(%d))", v, C, k, k)
			case 1:
				z.say("%s := %st%d(1, toString(%d))", v, C, k, k)
			case 2:
				z.say("%s := %st%d(toString(4), 5, toString(%d))", v, C, k, k)
			case 3:
				z.say("%s := %st%d(1, [toString(%d)])", v, C, k, k)
			}
			z.say("%sj := \"j\".append(\"k\")", v)
			if k%4 == 3 {
				z.say("println(%s.v[0])", v)
			} else {
				z.say("println(%s.v)", v)
			}
			z.want("%d", k)
		}
	}},
	{"enum cases", func(z *scaler) {
		n, f := z.size(500), z.name("en")
		var cs, ms []string
		for i := 0; i < n; i++ {
			switch i % 3 {
			case 0:
				cs = append(cs, fmt.Sprintf("    C%s%d()", f, i))
				ms = append(ms, fmt.Sprintf("        case C%s%d(): return toString(%d)", f, i, i))
			case 1:
				cs = append(cs, fmt.Sprintf("    C%s%d(a: int)", f, i))
				ms = append(ms, fmt.Sprintf("        case C%s%d(a): return toString(a + %d)", f, i, i))
			case 2:
				cs = append(cs, fmt.Sprintf("    C%s%d(a: int, b: string)", f, i))
				ms = append(ms, fmt.Sprintf("        case C%s%d(a, b): return b.append(toString(a))", f, i))
			}
		}
		z.decl("enum %s {\n%s\n}", f, strings.Join(cs, "\n"))
		z.decl("fn %sshow(e: %s) string {\n    match e {\n%s\n    }\n    return \"none\"\n}", f, f, strings.Join(ms, "\n"))
		for _, k := range z.some(n) {
			v := fmt.Sprintf("%sv%d", f, z.id)
			z.id++
			switch k % 3 {
			case 0:
				z.say("%s := C%s%d()", v, f, k)
				z.want("%d", k)
			case 1:
				z.say("%s := C%s%d(1000)", v, f, k)
				z.want("%d", k+1000)
			case 2:
				z.say("%s := C%s%d(7, toString(%d))", v, f, k, k)
				z.want("%d7", k)
			}
			z.say("%sj := \"j\".append(\"k\")", v)
			z.say("println(%sshow(%s))", f, v)
		}
	}},
	{"nested blocks", func(z *scaler) {
		n, f := z.size(120), z.name("deep")
		z.decl("fn %s(k: int) int {\n    r := 0\n%s    r = r + 1\n%s    return r\n}", f, z.joined(n, "", func(i int) string { return fmt.Sprintf("    if k > %d {\n    r = r + 10\n", i) }), strings.Repeat("    }\n", n))
		for _, k := range z.some(n) {
			z.say("println(%s(%d))", f, k)
			z.want("%d", k*10)
		}
		z.say("println(%s(%d))", f, n)
		z.want("%d", n*10+1)
	}},
	{"parentheses", func(z *scaler) {
		n := z.size(400)
		z.say("println(%s5%s + 1)", strings.Repeat("(", n), strings.Repeat(")", n))
		z.want("6")
	}},
	{"chain of operators", func(z *scaler) {
		n, f := z.size(600), z.name("ch")
		z.decl("fn %s(a: int) int = %s", f, z.joined(n, " + ", func(i int) string { return []string{"a", fmt.Sprint(i), fmt.Sprintf("a * %d", i)}[i%3] }))
		v := 0
		for i := 0; i < n; i++ {
			v += []int{2, i, 2 * i}[i%3]
		}
		z.say("println(%s(2))", f)
		z.want("%d", v)
	}},
	{"operators nested to the right", func(z *scaler) {
		n, f := z.size(300), z.name("rn")
		z.decl("fn %s(a: int) int = %s0%s", f, z.joined(n, "", func(i int) string { return fmt.Sprintf("%d - (a + ", i) }), strings.Repeat(")", n))
		v := 0
		for i := n - 1; i >= 0; i-- {
			v = i - (3 + v)
		}
		z.say("println(%s(3))", f)
		z.want("%d", v)
	}},
	{"conditions", func(z *scaler) {
		n, f := z.size(300), z.name("cond")
		z.decl("fn %s(a: int) bool = %s", f, z.joined(n, " or ", func(i int) string { return fmt.Sprintf("a == %d", i*2) }))
		for _, k := range z.some(n) {
			z.say("println(%s(%d))", f, 2*k)
			z.say("println(%s(%d))", f, 2*k+1)
			z.want("true\nfalse")
		}
	}},
	{"elseif", func(z *scaler) {
		n, f := z.size(400), z.name("elif")
		z.decl("fn %s(a: int) int {\n    %s else {\n        return -1\n    }\n    return -2\n}", f, z.joined(n, " else", func(i int) string { return fmt.Sprintf("if a == %d {\n        return %d\n    }", i, i*i) }))
		for _, k := range z.some(n) {
			z.say("println(%s(%d))", f, k)
			z.want("%d", k*k)
		}
		z.say("println(%s(%d))", f, n)
		z.want("-1")
	}},
	{"conditional expressions", func(z *scaler) {
		n, f := z.size(200), z.name("tern")
		z.decl("fn %s(a: int) int = %s : -1", f, z.joined(n, " : ", func(i int) string { return fmt.Sprintf("a == %d ? %d", i, i*3) }))
		for _, k := range z.some(n) {
			z.say("println(%s(%d))", f, k)
			z.want("%d", k*3)
		}
		z.say("println(%s(%d))", f, n)
		z.want("-1")
	}},
	{"array literal", func(z *scaler) {
		n, f := z.size(700), z.name("lit")
		if z.s.Chance(1, 2) {
			z.say("%s := [%s]", f, z.joined(n, ", ", func(i int) string { return fmt.Sprint(i * 3) }))
		} else {
			n = min(n, 250)
			z.say("%s := [%s]", f, z.joined(n, ", ", func(i int) string { return fmt.Sprintf("toString(%d)", i*3) }))
		}
		z.say("println(%s.length)", f)
		z.want("%d", n)
		for _, k := range z.some(n) {
			z.say("println(%s[%d])", f, k)
			z.want("%d", k*3)
		}
	}},
	{"closures", func(z *scaler) {
		n, f := z.data(300), z.name("clo")
		z.say("%sb := toString(77)", f)
		for i := 0; i < n; i++ {
			z.say("%s%d := fn(a: int) string = toString(a + %d).append(%sb)", f, i, i, f)
		}
		for _, k := range z.some(n) {
			z.say("println(%s%d(1000))", f, k)
			z.want("%d77", 1000+k)
		}
	}},
	{"nested closures", func(z *scaler) {
		n, f := z.size(8), z.name("nest")
		var b strings.Builder
		typ := "int"
		for i := 0; i < n; i++ {
			typ = "fn() " + typ
		}
		ret := typ
		for i := 0; i < n; i++ {
			ret = strings.TrimPrefix(ret, "fn() ")
			fmt.Fprintf(&b, "fn() %s = ", ret)
		}
		z.say("%s := 5", f)
		z.say("%sf0 := %s%s + %d", f, b.String(), f, n)
		for i := 0; i < n; i++ {
			z.say("%sf%d := %sf%d()", f, i+1, f, i)
		}
		z.say("println(%sf%d)", f, n)
		z.want("%d", 5+n)
	}},
	{"nested calls", func(z *scaler) {
		n, f := z.size(200), z.name("nc")
		if z.s.Chance(1, 2) {
			z.decl("fn %s(a: int, b: int) int = (a * 3 + b) & 0xffff", f)
			v := 1
			for i := n - 1; i >= 0; i-- {
				v = (i*3 + v) & 0xffff
			}
			z.say("println(%s1%s)", z.joined(n, "", func(i int) string { return fmt.Sprintf("%s(%d, ", f, i) }), strings.Repeat(")", n))
			z.want("%d", v)
			return
		}
		z.decl("fn %s(a: string, b: string) string = b.length > 20 ? a : b.append(a)", f)
		v := "x"
		for i := n - 1; i >= 0; i-- {
			if a := fmt.Sprint(i); len(v) > 20 {
				v = a
			} else {
				v += a
			}
		}
		z.say("println(%s\"x\"%s)", z.joined(n, "", func(i int) string { return fmt.Sprintf("%s(toString(%d), ", f, i) }), strings.Repeat(")", n))
		z.want("%s", v)
	}},
	{"long literal", func(z *scaler) {
		n := z.size(100000)
		c := z.s.Pick("a", "ab", "é", "\\\\", "\\\"", "日本")
		r := strings.ReplaceAll(strings.ReplaceAll(c, "\\\\", "\\"), "\\\"", "\"")
		z.say("println(\"%sx\".length)", strings.Repeat(c, n/len(r)))
		z.want("%d", n/len(r)*len(r)+1)
		f := z.name("ll")
		z.say("%s := \"%sxyz\"", f, strings.Repeat(c, n/len(r)))
		z.say("println(%s.Substring(%d, %d))", f, n/len(r)*len(r), n/len(r)*len(r)+3)
		z.want("xyz")
	}},
	{"long names", func(z *scaler) {
		n, f := z.size(3000), z.name("nm")
		long := f + strings.Repeat(z.s.Pick("a", "ab", "_", "é"), n)
		Long := strings.ToUpper(long[:1]) + long[1:]
		// names which differ only at their ends
		kinds := []func(){
			func() {
				z.decl("fn %s(a: int) int = a + 1", long)
				z.decl("fn %sx(a: int) int = a + 2", long)
				z.say("%sy := %s(1)", long, long)
				z.say("%sz := %sx(%sy)", long, long, long)
				z.say("println(%sz)", long)
				z.want("4")
			},
			func() {
				z.decl("struct %ss {\n    %sv: string\n    %sw: int\n}", long, long, long)
				z.decl("struct %st {\n    %sv: int\n    %sw: string\n}", long, long, long)
				z.decl("fn %sf(a: %ss) int = a.%sw", f, long, long)
				z.decl("fn %sf(a: %st) int = a.%sv + 1", f, long, long)
				z.say("println(%sf(%ss(toString(3), 4)) + %sf(%st(5, toString(6))))", f, Long, f, Long)
				z.say("println(%ss(toString(3), 4).%sv.append(%st(5, toString(6)).%sw))", Long, long, Long, long)
				z.want("10\n36")
			},
			func() {
				z.decl("enum %se {\n    %sA(s: string)\n    %sB(i: int, s: string)\n    %sC()\n}", long, Long, Long, Long)
				z.decl("fn %se(e: %se) string {\n    match e {\n        case %sC(): return \"c\"\n        case %sB(i, s): return toString(i).append(s)\n        case %sA(s): return s\n    }\n    return \"\"\n}", f, long, Long, Long, Long)
				z.say("println(%se(%sA(toString(1))).append(%se(%sB(2, toString(3)))).append(%se(%sC())))", f, Long, f, Long, f, Long)
				z.want("123c")
			},
			func() {
				z.decl("struct %sg«T» {\n    v: T\n}", long)
				z.decl("fn %sg«%sT»(a: %sg«%sT») %sT = a.v", long, long, long, long, long)
				z.decl("fn %sh«%sT»(a: %sg«%sT») int = 7", long, long, long, long)
				z.say("println(%sg(%sg(%d)) + %sh(%sg(\"s\")))", long, Long, 5, long, Long)
				z.say("println(%sg(%sg(toString(8))))", long, Long)
				z.want("12\n8")
			},
			func() {
				z.decl("fn %sc(%sp: int, %sq: string) fn(int) string {\n    %sr := %sp + 1\n    return fn(%ss: int) string {\n        junk := \"a\".append(\"b\")\n        return %sq.append(toString(%sp + %sr * 10 + %ss * 100))\n    }\n}", long, long, long, long, long, long, long, long, long, long)
				z.decl("fn %sd(%sp: int, %sq: string) fn(int) string {\n    return fn(%ss: int) string = %sq.append(toString(%sp * %ss))\n}", long, long, long, long, long, long, long)
				z.say("%sk := %sc(1, toString(9))", f, long)
				z.say("%sl := %sd(6, toString(9))", f, long)
				z.say("println(%sk(3))", f)
				z.say("println(%sl(7))", f)
				z.want("9321\n942")
			},
		}
		kinds[z.s.N(len(kinds))]()
		if z.s.Chance(1, 2) {
			k := z.name("nk")
			long, Long, f = k+long[len(f):], strings.ToUpper(k[:1])+k[1:]+long[len(f):], k
			kinds[z.s.N(len(kinds))]()
		}
	}},
	{"type arguments", func(z *scaler) {
		n, f := z.size(250), z.name("ga")
		z.decl("struct %sbox«T» {\n    v: T\n}", f)
		z.decl("fn %sget«T»(b: %sbox«T») T = b.v", f, f)
		C := strings.ToUpper(f[:1]) + f[1:]
		for i := 0; i < n; i++ {
			z.decl("struct %st%d {\n    s: string\n}", f, i)
			z.decl("fn %suse%d() string {\n    b := %sbox(%st%d(toString(%d)))\n    j := \"a\".append(\"b\")\n    return %sget(b).s\n}", f, i, C, C, i, i*3, f)
		}
		for _, k := range z.some(n) {
			z.say("println(%suse%d())", f, k)
			z.want("%d", k*3)
		}
	}},
	{"nested types", func(z *scaler) {
		n, f := z.size(12), z.name("nt")
		t, v := "int", "9"
		for i := 0; i < n; i++ {
			t, v = fmt.Sprintf("option«%s»", t), fmt.Sprintf("Some(%s)", v)
		}
		inner := strings.TrimSuffix(strings.TrimPrefix(t, "option«"), "»")
		z.decl("fn %s(x: %s) int {\n    match x {\n        case Some(v): return %d\n        case None(): return -1\n    }\n    return -2\n}", f, t, n)
		z.say("println(%s(%s))", f, v)
		z.say("println(%s(None«%s»()))", f, inner)
		z.want("%d\n-1", n)
	}},
	{"statements", func(z *scaler) {
		n, f := z.size(2500), z.name("st")
		z.decl("fn %s(m: int) int {\n    a := 0\n    for i in 0 .. m {\n%s    }\n    return a\n}", f, z.joined(n, "", func(i int) string { return fmt.Sprintf("        a = a + %d\n", i%9) }))
		v := 0
		for i := 0; i < n; i++ {
			v += i % 9
		}
		z.say("println(%s(3))", f)
		z.want("%d", 3*v)
	}},
	// ------------------------------------------------------------------------------------------------ data
	{"array", func(z *scaler) {
		n, f := z.size(200000), z.name("arr")
		z.say("%s := intArray(%d)", f, n)
		z.say("for i in 0 .. %s.length { %s[i] = i * 3 }", f, f)
		z.say("println(%s.length)", f)
		z.want("%d", n)
		for _, k := range z.some(n) {
			z.say("println(%s[%d])", f, k)
			z.want("%d", k*3)
		}
	}},
	{"array of strings", func(z *scaler) {
		n, f := z.data(1100), z.name("sarr")
		z.say("%s := array(%d, \"\")", f, n)
		z.say("for i in 0 .. %s.length { %s[i] = toString(i) }", f, f)
		for _, k := range z.some(n) {
			z.say("println(%s[%d])", f, k)
			z.want("%d", k)
		}
	}},
	{"recursion", func(z *scaler) {
		n, f := z.data(400), z.name("rec")
		z.decl("fn %s(n: int, a: string) string {\n    s := toString(n)\n    if n == 0 {\n        return a\n    }\n    r := %s(n - 1, a.length > 12 ? s : a.append(s))\n    return s.length > 0 ? r : a\n}", f, f)
		a := ""
		for i := n; i > 0; i-- {
			if s := fmt.Sprint(i); len(a) > 12 {
				a = s
			} else {
				a += s
			}
		}
		z.say("println(%s(%d, \"\"))", f, n)
		z.want("%s", a)
	}},
	{"deep recursion", func(z *scaler) {
		n, f := z.size(40000), z.name("drec")
		z.decl("fn %s(n: int) int {\n    if n == 0 {\n        return 0\n    }\n    return (%s(n - 1) + n) & 0xfffff\n}", f, f)
		v := 0
		for i := 1; i <= n; i++ {
			v = (v + i) & 0xfffff
		}
		z.say("println(%s(%d))", f, n)
		z.want("%d", v)
	}},
	{"long string", func(z *scaler) {
		n, f := max(z.size(200000), 4), z.name("ls")
		z.say("%s := \"abc\"", f)
		z.say("while %s.length < %d { %s = %s.append(%s) }", f, n, f, f, f)
		ln := 3
		for ln < n {
			ln *= 2
		}
		z.say("println(%s.length)", f)
		z.say("println(%s.Substring(%d, %d))", f, ln-5, ln)
		z.want("%d\nbcabc", ln)
	}},
	{"byte buffer", func(z *scaler) {
		n, f := z.size(20000), z.name("bb")
		z.say("%s := NewByteBuffer(%d)", f, z.s.Range(1, 20))
		z.say("for i in 0 .. %d { %s.append(97 + (i & 15)) }", n, f)
		z.say("%ss := %s.toString()", f, f)
		z.say("println(%ss.length)", f)
		z.want("%d", n)
		for _, k := range z.some(n) {
			z.say("println(%ss.byte(%d))", f, k)
			z.want("%d", 97+k&15)
		}
	}},
	{"list", func(z *scaler) {
		n, f := z.data(500), z.name("li")
		z.decl("fn %s(n: int) list«string» {\n    l := Empty«string»()\n    for i in 0 .. n {\n        l = Element(toString(i), l)\n    }\n    return l\n}", f)
		z.say("%sl := %s(%d)", f, f, n)
		z.decl("fn %shash(l: list«string», a: int) int {\n    match l {\n        case Element(s, r): return %shash(r, a * 2 + s.length & 0xffff)\n        case Empty(): return a\n    }\n    return -1\n}", f, f)
		z.say("println(%shash(%sl, 0))", f, f)
		// precedence: & binds less than +
		v := 0
		for i := n - 1; i >= 0; i-- {
			v = (v*2 + len(fmt.Sprint(i))) & 0xffff
		}
		z.want("%d", v)
	}},
	{"map", func(z *scaler) {
		n, f := z.data(250), z.name("mp")
		z.say("%s := NewHashMap«string, int»(fnv1a, Equals)", f)
		z.say("for i in 0 .. %d { %s.put(\"k\".append(toString(i)), i * 3) }", n, f)
		for _, k := range z.some(n) {
			z.say("println(%s.orElse(\"k%d\", -1))", f, k)
			z.want("%d", k*3)
		}
	}},
}

var longNames = func() dim {
	for _, d := range dims {
		if d.name == "long names" {
			return d
		}
	}
	panic("long names")
}()

func genC27(s *Src) *Case {
	z := &scaler{s: s, big: s.Chance(1, 6)}
	for i := s.W(3, 1) + 1; i > 0; i-- {
		d := dims[s.N(len(dims))]
		if s.Chance(1, 16) {
			d = longNames
		}
		d.f(z)
		z.feat = append(z.feat, d.name)
	}
	for i := len(z.decls) - 1; i > 0 && s.Chance(1, 2); i-- {
		j := i - s.N(i+1)
		z.decls[i], z.decls[j] = z.decls[j], z.decls[i]
	}
	text := strings.Join(z.decls, "\n") + "\nfn main() {\n" + z.body.String() + "}\n"
	res := Result{Out: z.out.String()}
	c := &Case{Text: text, Size: len(text), Classes: z.feat, Evals: strings.Count(res.Out, "\n"), Nontrivial: z.max > 20}
	c.Run = func(w *Worker) Outcome {
		o := w.checkProgram(text, res)
		if strings.Contains(o.Fail, "(CPU limit)") { // how long it takes is not the question
			return Outcome{Skip: "CPU limit"}
		}
		return o
	}
	return c
}

func init() {
	reg(&Prop{ID: "C27", Rule: "programs in which one or two of about thirty dimensions (variables, literals, functions, overloads, types, enum cases, nesting, chains, elements, recursion, data) have sampled sizes, mostly close to powers of two, from 1 to 200000; non-trivial: a size above 20",
		Quick: 500, Thorough: 8000, Budget: [2]time.Duration{50 * time.Second, 13 * time.Minute}, Gen: genC27})
}

func btoi(b bool) int {
	if b {
		return 1
	}
	return 0
}
