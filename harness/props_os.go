package main

// C20 and C21: what programs see of files, arguments and the environment.

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"time"
)

// Printing of byte sequences which may hold any byte
const dumpHelpers = `
fn dump(s: string) {
  printf("%lli:", s.length)
  h := 7
  for i in 0 .. s.length {
    b := s.byte(i) & 255
    h = (h * 31 + b) & 0xFFFFFFFFFFFF
    if i < 48 {
      printf(" %lli", b)
    }
  }
  printf(" h=%lli\n", h)
}
fn dumpBytes(s: bytes) {
  printf("%lli:", s.length())
  h := 7
  for i in 0 .. s.length() {
    b := s.get(i) & 255
    h = (h * 31 + b) & 0xFFFFFFFFFFFF
    if i < 48 {
      printf(" %lli", b)
    }
  }
  printf(" h=%lli\n", h)
}
fn churn(n: int) string {
  s := ""
  for i in 0 .. n {
    s = s.append(i.toString())
    l := [s, s.append("x")].toList().append(s)
  }
  return s
}
`

func modelDump(b string) string {
	var o strings.Builder
	fmt.Fprintf(&o, "%d:", len(b))
	h := int64(7)
	for i := 0; i < len(b); i++ {
		h = (h*31 + int64(b[i])) & 0xFFFFFFFFFFFF
		if i < 48 {
			fmt.Fprintf(&o, " %d", b[i])
		}
	}
	fmt.Fprintf(&o, " h=%d\n", h)
	return o.String()
}

func modelChurn(n int) string {
	s := ""
	for i := 0; i < n; i++ {
		s += fmt.Sprint(i)
	}
	return s
}

var errText = map[int]string{1: "Operation not permitted", 2: "No such file or directory", 3: "No such process", 4: "Interrupted system call", 5: "I/O error", 6: "No such device or address",
	7: "Argument list too long", 8: "Exec format error", 9: "Bad file descriptor", 10: "No child processes", 11: "Try again", 12: "Out of memory", 13: "Permission denied", 14: "Bad address",
	15: "Block device required", 16: "Device or resource busy", 17: "File exists", 18: "Cross-device link", 19: "No such device", 20: "Not a directory", 21: "Is a directory", 22: "Invalid argument",
	23: "File table overflow", 24: "Too many open files", 25: "Not a typewriter", 26: "Text file busy", 27: "File too large", 28: "No space left on device", 29: "Illegal seek", 30: "Read-only file system",
	31: "Too many links", 32: "Broken pipe", 33: "Math argument out of domain of func", 34: "Math result not representable"}

func describeErrno(n int) string {
	if t, ok := errText[n]; ok {
		return t
	}
	return fmt.Sprintf("Unknown error code: %d", n)
}

// The helper functions of the generated programs, and the same in Go
const fileHelpers = `
fn showError(e: error) {
  printf("error %lli ", e.err)
  match e.msg {
    case Some(m): dump(m)
    case None(): println("no message")
  }
  println(e.describe())
}
fn opened(path: string) file {
  match open(path) {
    case Ok(f):
      dump(f.path)
      return f
    case Err(e):
      showError(e)
      return File(-1, path)
  }
}
fn showInt(r: result«int, error») {
  match r {
    case Ok(i): println(i)
    case Err(e): showError(e)
  }
}
fn showText(r: result«string, error») {
  match r {
    case Ok(s): dump(s)
    case Err(e): showError(e)
  }
}
fn showRead(f: file, b: bytes, n: int) {
  match f.read(b, n) {
    case None(): println("read")
    case Some(e): showError(e)
  }
}
`

func modelError(msg string, n int) string {
	return fmt.Sprintf("error %d ", n) + modelDump(msg) + describeErrno(n) + ":\n - " + msg + "\n"
}

type mFile struct {
	data string
	kind byte // 'f' regular, 'd' directory, 'p' pipe, 'b' bad descriptor
	pos  int64
	path string
}

func (f *mFile) seek(off int64, mode int) (int64, int) {
	switch f.kind {
	case 'b':
		return 0, int(syscall.EBADF)
	case 'p':
		if mode > 2 {
			return 0, int(syscall.EINVAL)
		}
		return 0, int(syscall.ESPIPE)
	}
	var n int64
	switch mode {
	case 0:
		n = off
	case 1:
		n = f.pos + off
	case 2:
		n = int64(len(f.data)) + off
	default:
		return 0, int(syscall.EINVAL)
	}
	if n < 0 {
		return 0, int(syscall.EINVAL)
	}
	f.pos = n
	return n, 0
}

func genC20(s *Src) *Case {
	type fsFile struct {
		name, data string
	}
	var files []fsFile
	nf := s.Range(1, 4)
	dirs := []string{"", "", "sub/", "sub/d é/", "./sub/../"}
	for i := 0; i < nf; i++ {
		var n int
		switch s.W(3, 3, 3, 2, 1) {
		case 0:
			n = s.N(4)
		case 1:
			n = s.Range(4, 60)
		case 2:
			n = s.Range(60, 700)
		case 3:
			n = []int{4095, 4096, 4097, 8192, 65535, 65536, 65537}[s.N(7)]
		default:
			n = s.Range(700, 200000)
		}
		b := make([]byte, n)
		mode := s.N(4)
		seed := s.U(0)
		r := Src{state: seed}
		for j := range b {
			switch mode {
			case 0:
				b[j] = byte('a' + j%26)
			case 1:
				b[j] = byte(r.next())
			case 2:
				b[j] = []byte{0, 0, 255, 10, 13, 'x', 128}[r.next()%7]
			default:
				b[j] = byte(j)
			}
		}
		name := dirs[s.N(len(dirs))] + s.Pick("a", "file.txt", "é", "with space", "%s%d", "q\"x", "back\\s", strings.Repeat("n", 200)) + fmt.Sprint(i)
		files = append(files, fsFile{name, string(b)})
	}
	stdin := strings.Repeat("pipe data ", s.N(8))
	var prog, want strings.Builder
	feat := map[string]bool{}
	P := func(f string, a ...interface{}) { fmt.Fprintf(&prog, "  "+f+"\n", a...) }
	W := func(t string) { want.WriteString(t) }
	var hs []*mFile
	type mBuf struct{ b []byte }
	var bufs []*mBuf
	var strs []string
	newBuf := func(n int) {
		P("b%d := Bytes(%d)", len(bufs), n)
		bufs = append(bufs, &mBuf{make([]byte, n)})
	}
	head := "fn main() {\n"
	newBuf(s.Range(0, 40))
	steps := s.Range(3, 18)
	evals := 0
	for i := 0; i < steps; i++ {
		op := s.W(4, 4, 3, 5, 4, 2, 2, 1, 1)
		if len(hs) == 0 {
			op = 0
		}
		evals++
		switch op {
		case 0: // open
			h := &mFile{kind: 'b'}
			var path string
			k := s.W(10, 2, 2, 1, 1, 1, 2, 1)
			errno := 0
			switch k {
			case 0:
				f := files[s.N(len(files))]
				path = f.name
				h.kind, h.data = 'f', f.data
				feat["open"] = true
			case 1:
				path = s.Pick("missing", "no/such/dir/x", "sub/none", "é/ü", "")
				errno = int(syscall.ENOENT)
				feat["missing path"] = true
			case 2:
				path = files[s.N(len(files))].name + s.Pick("/x", "/", "/a/b")
				errno = int(syscall.ENOTDIR)
				feat["path through a file"] = true
			case 3:
				path = "loop/x"
				errno = int(syscall.ELOOP)
				feat["symlink loop"] = true
			case 4:
				path = strings.Repeat("x", 300)
				errno = int(syscall.ENAMETOOLONG)
				feat["long name"] = true
			case 5: // a directory can be opened but not read
				path = s.Pick("sub", ".", "sub/")
				h.kind = 'd'
				feat["directory"] = true
			case 6:
				P("h%d := File(%s, \"made up\")", len(hs), s.Pick("-1", "99", "1000000", "-7"))
				h.path = "made up"
				hs = append(hs, h)
				feat["bad descriptor"] = true
			case 7:
				P("h%d := File(0, \"stdin\")", len(hs))
				h.path, h.kind, h.data = "stdin", 'p', stdin
				for _, o := range hs {
					if o.kind == 'p' { // shares the data
						h = o
					}
				}
				hs = append(hs, h)
				feat["pipe"] = true
			}
			if k >= 6 {
				break
			}
			P("h%d := opened(%s)", len(hs), quote(path))
			h.path = path
			if errno != 0 {
				W(modelError(path, errno))
			} else {
				W(modelDump(path))
			}
			hs = append(hs, h)
		case 1: // readAll
			k := s.N(len(hs))
			h := hs[k]
			if h.kind == 'd' {
				continue
			}
			how := s.N(4)
			switch how {
			case 0:
				P("showText(h%d.readAll())", k)
			case 1:
				P("showText(readAll(h%d))", k)
			case 2:
				P("t%d := fn() result«string, error» = h%d.readAll()", i, k)
				P("churn(2)")
				P("showText(t%d())", i)
			case 3: // kept for the end
				P("s%d := h%d.readAll()", len(strs), k)
			}
			res := ""
			if _, e := h.seek(0, 1); e != 0 {
				res = modelError(h.path, e)
			} else {
				h.pos = int64(len(h.data))
				res = modelDump(h.data)
			}
			if how == 3 {
				strs = append(strs, res)
			} else {
				W(res)
			}
			feat["readAll"] = true
		case 2: // size
			k := s.N(len(hs))
			h := hs[k]
			if h.kind == 'd' {
				continue
			}
			P("showInt(h%d.size())", k)
			if _, e := h.seek(0, 1); e != 0 {
				W(modelError(h.path, e))
			} else {
				W(fmt.Sprintln(len(h.data)))
			}
			feat["size"] = true
		case 3: // read
			k, j := s.N(len(hs)), s.N(len(bufs))
			h, b := hs[k], bufs[j]
			n := s.Range(0, len(b.b)+2)
			if s.Chance(1, 3) {
				n = len(b.b)
			}
			P("showRead(h%d, b%d, %d)", k, j, n)
			P("dumpBytes(b%d)", j)
			switch {
			case n > len(b.b):
				W(modelError("buffer is too small for requested read size", -1))
				feat["buffer too small"] = true
			case h.kind == 'b':
				W(modelError(h.path, int(syscall.EBADF)))
			case h.kind == 'd':
				W(modelError(h.path, int(syscall.EISDIR)))
				feat["read of a directory"] = true
			default:
				m := 0
				if h.pos < int64(len(h.data)) {
					m = copy(b.b[:n], h.data[h.pos:])
				}
				h.pos += int64(m)
				W("read\n")
			}
			W(modelDump(string(b.b)))
			feat["read"] = true
		case 4: // seek
			k := s.N(len(hs))
			h := hs[k]
			if h.kind == 'd' {
				continue
			}
			mode := s.W(4, 3, 3, 1)
			off := int64(s.Range(0, len(h.data)+5))
			if mode > 0 && s.Chance(1, 2) {
				off = -int64(s.Range(0, len(h.data)+1))
			}
			if mode == 0 && s.Chance(1, 6) {
				off = []int64{-1, -5, 1 << 31, 1 << 33, 1<<32 - 1}[s.N(5)]
			}
			if mode == 3 {
				mode = 9
			}
			P("showInt(h%d.seek(%d, %d))", k, off, mode)
			n, e := h.seek(off, mode)
			if e != 0 {
				W(modelError(h.path, e))
				feat["failed seek"] = true
			} else {
				W(fmt.Sprintln(n))
			}
			feat["seek"] = true
		case 5:
			if s.Chance(1, 2) {
				newBuf(s.Range(0, 80))
			} else {
				n := s.Range(1, 6)
				P("dump(churn(%d))", n)
				W(modelDump(modelChurn(n)))
			}
		case 6:
			n := s.Range(-3, 140)
			if s.Chance(2, 3) {
				n = s.Range(1, 35)
			}
			P("e%d := %d", i, n)
			P("println(e%d.describe())", i)
			W(describeErrno(n) + "\n")
			feat["error text"] = true
		case 7:
			n := s.Range(1, 40)
			if s.Chance(1, 2) {
				P("println(describe(Error(None«string»(), %d)))", n)
				W(describeErrno(n) + "\n")
			} else {
				t := s.Pick("", "text", "é%s", "a:\\n - b")
				P("println(describe(Error(Some(\"%s\"), %d)))", t, n)
				W(describeErrno(n) + ":\n - " + strings.ReplaceAll(t, "\\n", "\n") + "\n")
			}
		case 8: // open and read in one go
			f := files[s.N(len(files))]
			if s.Chance(1, 4) {
				P("showText(open(\"nope\").then(readAll))")
				W(modelError("nope", 2))
			} else {
				P("showText(open(%s).then(readAll))", quote(f.name))
				W(modelDump(f.data))
			}
			feat["open then readAll"] = true
		}
	}
	for i, t := range strs {
		P("showText(s%d)", i)
		W(t)
	}
	for i, b := range bufs {
		P("dumpBytes(b%d)", i)
		W(modelDump(string(b.b)))
	}
	text := head + prog.String() + "}\n" + fileHelpers + dumpHelpers
	var cls []string
	for k := range feat {
		cls = append(cls, k)
	}
	sort.Strings(cls)
	desc := fmt.Sprintf("// stdin: %q\n", stdin)
	for _, f := range files {
		desc += fmt.Sprintf("// file %q: %d bytes %q\n", f.name, len(f.data), clip(f.data, 80))
	}
	c := &Case{Text: desc + head + prog.String() + "}\n", Size: prog.Len(), Classes: cls, Evals: evals, Nontrivial: len(cls) >= 3}
	c.Run = func(w *Worker) Outcome {
		dir := filepath.Join(w.dir, "files")
		os.RemoveAll(dir)
		if err := os.MkdirAll(filepath.Join(dir, "sub", "d é"), 0755); err != nil {
			return Outcome{Skip: err.Error()}
		}
		os.Symlink("loop", filepath.Join(dir, "loop"))
		for _, f := range files {
			if err := os.WriteFile(filepath.Join(dir, f.name), []byte(f.data), 0644); err != nil {
				return Outcome{Skip: err.Error()}
			}
		}
		x, bin := w.Compile(text)
		if x.Wall {
			return Outcome{Skip: "compiler wall clock limit"}
		}
		if p := compileProblem(x); p != "" {
			return Outcome{Fail: p}
		}
		rx, h := w.RunIn(dir, strings.NewReader(stdin), w.heapEnv(nil), bin, nil)
		return compareRun(rx, h, Result{Out: want.String()})
	}
	return c
}

// ---------------------------------------------------------------------------------------------------------------------

func anyBytes(s *Src, first string, notIn string) string {
	var n int
	switch s.W(3, 4, 3, 1) {
	case 0:
		n = s.N(3)
	case 1:
		n = s.Range(1, 12)
	case 2:
		n = s.Range(10, 80)
	default:
		n = s.Range(80, 3000)
	}
	mode := s.N(3)
	var b []byte
	r := Src{state: s.U(0)}
	for len(b) < n {
		var c byte
		switch mode {
		case 0:
			c = "abcXYZ019_=. -"[r.next()%14]
		case 1:
			c = byte(r.next()%255 + 1)
		default:
			c = []byte("é日=\n\r\"\\%s\x01\x7f\xff\x80")[r.next()%16]
		}
		if c == 0 || strings.IndexByte(notIn, c) >= 0 || len(b) == 0 && strings.IndexByte(first, c) >= 0 {
			c = 'k'
		}
		b = append(b, c)
	}
	return string(b)
}

func genC21(s *Src) *Case {
	var args, env []string
	na := s.W(2, 3, 2, 1)
	switch na {
	case 1:
		na = s.Range(1, 4)
	case 2:
		na = s.Range(4, 16)
	case 3:
		na = s.Range(16, 120)
	}
	for i := 0; i < na; i++ {
		args = append(args, anyBytes(s, "-", ""))
	}
	ne := s.Range(0, 30)
	seen := map[string]bool{"LD_PRELOAD": true, "HEAPSTAT": true}
	var names []string
	vals := map[string]string{}
	for i := 0; i < ne; i++ {
		n := anyBytes(s, "", "=")
		if s.Chance(1, 2) {
			n = s.Pick("PATH", "HOME", "A", "B", "LANG_", "X1", "é", "a b") + fmt.Sprint(s.N(20))
		}
		known := s.Chance(1, 3)
		if known { // names which mean something to somebody
			n = s.Pick("PATH", "HOME", "LANG", "LC_ALL", "TZ", "SHELL", "_", "PWD", "OLDPWD", "IFS", "TERM", "USER", "TMPDIR", "http_proxy", "POSIXLY_CORRECT", "LD_LIBRARY_PATH", "LD_BIND_NOW", "SHLVL", "DEBUG", "CLARA_HOME", "BASH_FUNC_x%%", "EDITOR", "path", "Home")
		}
		if n == "" || seen[n] || !known && strings.HasPrefix(n, "LD_") || strings.HasPrefix(n, "GLIBC") || strings.HasPrefix(n, "MALLOC") {
			continue
		}
		seen[n] = true
		v := anyBytes(s, "", "")
		names = append(names, n)
		if !known && s.Chance(1, 12) { // an entry which is only a name
			vals[n] = ""
			env = append(env, n)
			continue
		}
		vals[n] = v
		env = append(env, n+"="+v)
	}
	if s.Chance(1, 10) { // an entry without a name
		v := anyBytes(s, "=", "=")
		names = append(names, "")
		vals[""] = v
		env = append(env, "="+v)
	}
	churn := s.Range(0, 40)
	var prog strings.Builder
	P := func(f string, a ...interface{}) { fmt.Fprintf(&prog, "  "+f+"\n", a...) }
	type q struct {
		name string
		lit  bool
	}
	var qs []q
	for i := 0; i < 4; i++ {
		if len(names) > 0 && s.Chance(3, 4) {
			n := names[s.N(len(names))]
			if len(n) < 200 && !strings.ContainsAny(n, "\n\r\x00") && validUTF(n) {
				qs = append(qs, q{n, true})
			}
		} else {
			qs = append(qs, q{s.Pick("NO_SUCH", "", "=", "HOM"), true})
		}
	}
	rounds := s.Range(1, 3)
	prog.WriteString("fn main() {\n")
	for r := 0; r < rounds; r++ {
		P("all()")
		P("dump(churn(%d))", churn)
		for _, x := range qs {
			P("look(%s)", quote(x.name))
		}
	}
	prog.WriteString("}\n")
	text := prog.String() + `
fn all() {
  rt := getRuntime()
  println(rt.args.length)
  for a in rt.args {
    dump(a)
  }
  println(rt.env.size)
  println("<<<")
  rt.env.foreach(fn(k: string, v: string) {
    n := k.append("=").append(v)
    printf("%lli ", k.length)
    dump(n)
  })
  println(">>>")
}
fn look(name: string) {
  match getRuntime().env.get(name) {
    case Some(v): dump(v)
    case None(): println("none")
  }
}
` + dumpHelpers
	desc := fmt.Sprintf("// args: %q\n// env: %q\n", args, env)
	c := &Case{Text: desc + prog.String(), Size: len(desc), Evals: rounds * (len(args) + len(env) + len(qs)), Nontrivial: len(args) >= 2 && len(env) >= 2}
	c.Classes = []string{fmt.Sprintf("%d rounds", rounds)}
	if len(args) > 15 {
		c.Classes = append(c.Classes, "many arguments")
	}
	if len(env) > 12 {
		c.Classes = append(c.Classes, "many variables")
	}
	c.Run = func(w *Worker) Outcome {
		x, bin := w.Compile(text)
		if x.Wall {
			return Outcome{Skip: "compiler wall clock limit"}
		}
		if p := compileProblem(x); p != "" {
			return Outcome{Fail: p}
		}
		full := w.heapEnv(env)
		var one strings.Builder
		all := append([]string{bin}, args...)
		fmt.Fprintln(&one, len(all))
		for _, a := range all {
			one.WriteString(modelDump(a))
		}
		fmt.Fprintln(&one, len(full))
		one.WriteString("<<<\n")
		for _, kv := range full {
			at := strings.Index(kv, "=")
			if at < 0 {
				at, kv = len(kv), kv+"="
			}
			fmt.Fprintf(&one, "%d %s", at, modelDump(kv))
		}
		one.WriteString(">>>\n")
		one.WriteString(modelDump(modelChurn(churn)))
		for _, x := range qs {
			if v, ok := vals[x.name]; ok {
				one.WriteString(modelDump(v))
			} else {
				one.WriteString("none\n")
			}
		}
		rx, h := w.RunIn(w.dir, nil, full, bin, args)
		rx.Out = canon(rx.Out)
		return compareRun(rx, h, Result{Out: canon(strings.Repeat(one.String(), rounds))})
	}
	return c
}

func validUTF(s string) bool {
	for _, r := range s {
		if r == 0xFFFD {
			return false
		}
	}
	return true
}

func (w *Worker) compileCached(text string) (Exec, string) { return w.Compile(text) }

func init() {
	reg(&Prop{ID: "C20", Rule: "histories of open, readAll, size, seek, read and describe over up to four generated files (0 to 200000 bytes of any content), missing paths, paths through files, symlink loops, too long names, directories, made-up descriptors and a pipe, against a model of file positions and errors; non-trivial: at least three kinds of operation or path",
		Quick: 1000, Thorough: 20000, Budget: [2]time.Duration{45 * time.Second, 13 * time.Minute}, Gen: genC20})
	reg(&Prop{ID: "C21", Rule: "argument vectors (0 to 120 arguments of 0 to 3000 arbitrary bytes) and environments (up to 30 variables with arbitrary bytes), read several times by a program that allocates in between; non-trivial: at least two arguments and two variables",
		Quick: 1000, Thorough: 20000, Budget: [2]time.Duration{45 * time.Second, 13 * time.Minute}, Gen: genC21})
}
