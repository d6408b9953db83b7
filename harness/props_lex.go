package main

// C19: the lexer against a reference lexer and against the token list an input was made from.

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"time"
	"unicode"
	"unicode/utf8"
)

func buildLexDriver(w *Worker) error {
	e := w.env
	ov := filepath.Join(e.Scratch, "lexov.json")
	src := filepath.Join(e.Verif, "harness", "lexdrv", "main.go.txt")
	text, err := os.ReadFile(src)
	if err != nil {
		return err
	}
	gofile := filepath.Join(e.Scratch, "lexdrv.go")
	if err := os.WriteFile(gofile, text, 0644); err != nil {
		return err
	}
	b, _ := json.Marshal(map[string]map[string]string{"Replace": {filepath.Join(e.Repo, "veriflexdrv", "main.go"): gofile}})
	if err := os.WriteFile(ov, b, 0644); err != nil {
		return err
	}
	e.LexDrv = filepath.Join(e.Scratch, "lexdrv")
	cmd := exec.Command("go", "build", "-overlay", ov, "-o", e.LexDrv, "./veriflexdrv")
	cmd.Dir = e.Repo
	cmd.Env = goEnv()
	if out, err := cmd.CombinedOutput(); err != nil {
		return fmt.Errorf("building the lexer driver: %v\n%s", err, out)
	}
	return nil
}

type ltok struct {
	K string
	V string
	L int
	// a word followed by a character outside the documented list: an error there is accepted too
	maybeErr bool
}

var lexOps = []string{"(", ")", "{", "}", "[", "]", "«", "»", "#", "?", ",", ":=", ":", "+", "-", "*", "~", "^", "|", "&",
	">>", ">=", ">", "<<", "<=", "<", "..", ".", "==", "=", "/"}
var lexKeywords = []string{"fn", "return", "if", "elseif", "else", "true", "false", "not", "and", "or", "struct", "while", "for", "in", "enum", "match", "case", "type"}

// Reference lexer: longest operator first. exact = false when the input has something the property leaves open.
func refLex(in string) (toks []ltok, exact bool) {
	line := 1
	exact = true
	add := func(k, v string) {
		toks = append(toks, ltok{K: k, V: v, L: line})
		line += strings.Count(v, "\n")
	}
	letter := func(r rune) bool { return r == '_' || unicode.IsLetter(r) }
	hexd := func(c byte) bool { return c >= '0' && c <= '9' || c >= 'a' && c <= 'f' || c >= 'A' && c <= 'F' }
outer:
	for i := 0; i < len(in); {
		c := in[i]
		rest := in[i:]
		switch {
		case c == ' ':
			j := i
			for j < len(in) && in[j] == ' ' {
				j++
			}
			add("space", in[i:j])
			i = j
			continue
		case c == '\n' || c == '\r':
			j := i
			for j < len(in) && (in[j] == '\n' || in[j] == '\r') {
				j++
			}
			add("eol", in[i:j])
			i = j
			continue
		case strings.HasPrefix(rest, "//"):
			j := strings.IndexAny(rest, "\r\n")
			if j < 0 {
				j = len(rest)
			}
			add("comment", rest[:j])
			i += j
			continue
		case c == '"':
			j := 1
			for {
				if j >= len(rest) || rest[j] == '\n' {
					add("err", "")
					return
				}
				if rest[j] == '"' {
					j++
					break
				}
				if rest[j] == '\\' {
					j++
					if j >= len(rest) || strings.IndexByte("nr\\\"", rest[j]) < 0 {
						add("err", "")
						return
					}
				}
				j++
			}
			add("string", rest[:j])
			i += j
			continue
		case c >= '0' && c <= '9':
			j := 1
			if c == '0' && len(rest) > 1 && rest[1] == 'x' {
				j = 2
				for j < len(rest) && hexd(rest[j]) {
					j++
				}
				if j == 2 {
					if r, _ := utf8.DecodeRuneInString(rest[j:]); r >= 0x80 && unicode.IsDigit(r) {
						return toks, false
					}
					add("err", "")
					return
				}
			} else {
				for j < len(rest) && rest[j] >= '0' && rest[j] <= '9' {
					j++
				}
			}
			if r, _ := utf8.DecodeRuneInString(rest[j:]); j < len(rest) && r >= 0x80 && unicode.IsDigit(r) {
				return toks, false
			}
			add("int", rest[:j])
			i += j
			continue
		}
		for _, op := range lexOps {
			if strings.HasPrefix(rest, op) {
				add(op, op)
				i += len(op)
				continue outer
			}
		}
		if r, n := utf8.DecodeRuneInString(rest); letter(r) {
			j := n
			for j < len(rest) {
				r, n := utf8.DecodeRuneInString(rest[j:])
				if r >= 0x80 && unicode.IsDigit(r) {
					return toks, false
				}
				if !letter(r) && !(r >= '0' && r <= '9') {
					break
				}
				j += n
			}
			w := rest[:j]
			k := "ident"
			for _, kw := range lexKeywords {
				if w == kw {
					k = w
				}
			}
			add(k, w)
			toks[len(toks)-1].maybeErr = j < len(rest) && !strings.ContainsRune(" ():,.+-*/<>[]«»\r\n", firstRune(rest[j:]))
			i += j
			continue
		}
		if r, _ := utf8.DecodeRuneInString(rest); r >= 0x80 && unicode.IsDigit(r) {
			return toks, false
		}
		add("err", "")
		return
	}
	add("eof", "")
	return
}

func firstRune(s string) rune {
	r, _ := utf8.DecodeRuneInString(s)
	return r
}

type lexInput struct {
	text string
	want []ltok // nil: use the reference
	cls  string
}

func genWord(s *Src) string {
	switch s.W(6, 2, 2, 1, 2) {
	case 0:
		return s.Pick("a", "x", "foo", "fnord", "_", "_a1", "ifx", "inn", "i", "el", "elsei", "els", "A", "Zz9", "match1", "typed", "types", "returned", "true1", "structs")
	case 1:
		return s.Pick(lexKeywords...)
	case 2:
		n := s.Range(1, 12)
		b := ""
		for i := 0; i < n; i++ {
			if i == 0 {
				b += s.Pick("a", "b", "Q", "_", "z", "é", "λ")
			} else {
				b += s.Pick("a", "b", "Q", "_", "0", "9", "é", "日", "ß")
			}
		}
		return b
	case 3: // keyword with something around
		return s.Pick(lexKeywords...) + s.Pick("", "1", "_", "s", "é")
	}
	return s.Pick("é", "日本", "Ж", "ñandú", "ünï", "π")
}

func genInt(s *Src) string {
	switch s.N(4) {
	case 0:
		return s.Pick("0", "1", "9", "10", "42", "007", "00", "123456789012345678901234567890")
	case 1:
		return "0x" + s.Pick("0", "f", "F", "aB", "00", "123456789abcdef", "ABCDEF", "DeadBeef")
	case 2:
		return fmt.Sprint(s.U(0))
	}
	return fmt.Sprintf("0x%x", s.U(0))
}

func genStrTok(s *Src) string {
	n := s.N(8)
	b := "\""
	for i := 0; i < n; i++ {
		b += s.Pick("a", " ", "\\n", "\\r", "\\\\", "\\\"", "//", "é", "日", "«", "\t", "'", "fn", "{", "0", "😀", "\r", "\x01", "=")
	}
	return b + "\""
}

// Sizes at which counters and buffers end
func bigSize(s *Src) int {
	k := []int{255, 256, 1000, 4095, 4096, 32767, 32768, 65535, 65536, 70000, 131072}[s.N(11)]
	return k + s.N(3)
}

func genLexInput(s *Src) lexInput {
	switch s.W(5, 3, 4, 2, 1) {
	case 0: // tokens separated by spaces or line breaks
		var b strings.Builder
		var want []ltok
		line := 1
		n := s.Range(0, 25)
		big := -1 // one long token or gap in some inputs
		if n > 0 && s.Chance(1, 60) {
			big = s.N(n)
		}
		for i := 0; i < n; i++ {
			var k, v string
			switch s.W(4, 3, 2, 6, 1) {
			case 0:
				v = genWord(s)
				k = "ident"
				for _, kw := range lexKeywords {
					if kw == v {
						k = v
					}
				}
			case 1:
				k, v = "int", genInt(s)
			case 2:
				k, v = "string", genStrTok(s)
			case 3:
				v = lexOps[s.N(len(lexOps))]
				k = v
			case 4:
				k, v = "comment", "//"+s.Pick("", " a", " \"x", "/", " é «", " fn x")
			}
			if i == big && s.Chance(1, 2) {
				m := bigSize(s)
				switch k {
				case "string":
					v = `"` + strings.Repeat("é", m/2) + strings.Repeat("x", m%2) + `"`
				case "comment":
					v += strings.Repeat("/", m)
				case "int":
					v = strings.Repeat("9", m)
				default:
					k, v = "ident", strings.Repeat("ab", m/2)+strings.Repeat("c", m%2)
				}
				big = -1
			}
			want = append(want, ltok{K: k, V: v, L: line})
			b.WriteString(v)
			line += strings.Count(v, "\n")
			sep := s.Pick(" ", "  ", "\n", "\r\n", "\n\n", "     ")
			if i == big {
				sep = strings.Repeat(s.Pick("\n", "\r\n", " "), bigSize(s))
			}
			if k == "comment" {
				sep = strings.Repeat(s.Pick("\n", "\r\n", "\n\n"), max(1, strings.Count(sep, "\n")))
			}
			if i == n-1 && s.Chance(1, 2) {
				break
			}
			sk := "space"
			if sep[0] != ' ' {
				sk = "eol"
			}
			want = append(want, ltok{K: sk, V: sep, L: line})
			line += strings.Count(sep, "\n")
			b.WriteString(sep)
			if s.Chance(1, 5) {
				if sk == "eol" {
					sep = s.Pick(" ", "   ", "            ")
					want = append(want, ltok{K: "space", V: sep, L: line})
					b.WriteString(sep)
				}
			}
		}
		want = append(want, ltok{K: "eof", L: line})
		return lexInput{b.String(), want, "separated tokens"}
	case 1: // operator soup
		n := s.Range(1, 20)
		b := ""
		for i := 0; i < n; i++ {
			b += s.Pick(".", ".", "=", "=", ":", "<", "<", ">", ">", "/", "-", "+", "*", "&", "|", "^", "~", "(", ")", "[", "]", "{", "}", "«", "»", "#", "?", ",", " ", "1", "a ", "\n")
		}
		return lexInput{b, nil, "operators without spaces"}
	case 2: // pieces joined without separators
		n := s.Range(1, 15)
		b := ""
		for i := 0; i < n; i++ {
			switch s.W(4, 3, 2, 4, 2, 2, 1) {
			case 0:
				b += genWord(s)
			case 1:
				b += genInt(s)
			case 2:
				b += genStrTok(s)
			case 3:
				b += lexOps[s.N(len(lexOps))]
			case 4:
				b += s.Pick(" ", "  ", "\n", "\r\n", "\r")
			case 5:
				b += s.Pick("//", "// comment", "///", "// \"", "//\r\n", "// a\n", "/ /", "/")
			case 6:
				b += s.Pick("\t", "$", "!", "%", "@", "'", "\"", "\\", ";", "`", "0x", "\"abc", "\"\\x\"", "\"a\nb\"", "\x00", "\u00a0", "\u2028", "😀", "\ufeff", "x", "0X1", "\"\\")
			}
		}
		return lexInput{b, nil, "joined pieces"}
	case 3: // characters
		n := s.Range(0, 30)
		b := ""
		for i := 0; i < n; i++ {
			if s.Chance(1, 12) {
				b += string(rune(s.N(0x3000)))
			} else {
				const cs = " \n\r\"\\/ax0n9=:.<>{}()[]-+*&|^~,#?_\t!"
				b += string(cs[s.N(len(cs))])
			}
		}
		return lexInput{b, nil, "random characters"}
	}
	// bytes
	n := s.Range(0, 20)
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(s.N(256))
	}
	return lexInput{string(b), nil, "random bytes"}
}

func genC19(s *Src) *Case {
	n := s.Range(1, 40)
	var ins []lexInput
	var b strings.Builder
	cls := map[string]bool{}
	nt := false
	for i := 0; i < n; i++ {
		in := genLexInput(s)
		ins = append(ins, in)
		cls[in.cls] = true
		fmt.Fprintf(&b, "%s: %q\n", in.cls, in.text)
		r, _ := refLex(in.text)
		nt = nt || len(r) > 5
		if in.want != nil { // the reference has to agree with the construction
			if d := lexDiff(in.text, r, in.want, true); d != "" {
				panic("reference lexer: " + d + fmt.Sprintf(" on %q", in.text))
			}
		}
	}
	var cl []string
	for k := range cls {
		cl = append(cl, k)
	}
	sort.Strings(cl)
	c := &Case{Text: b.String(), Size: b.Len(), Nontrivial: nt, Evals: n, Classes: cl}
	c.Run = func(w *Worker) Outcome {
		var stdin strings.Builder
		for _, in := range ins {
			fmt.Fprintf(&stdin, "%d\n%s", len(in.text), in.text)
		}
		x := runLimited(Limits{CPU: 10, Wall: 100 * time.Second, Out: 32 << 20}, w.dir, []string{"GOMAXPROCS=2"}, strings.NewReader(stdin.String()), w.env.LexDrv)
		if x.Wall {
			return Outcome{Skip: "wall clock limit"}
		}
		outs := strings.Split(x.Out, "\n")
		for i, in := range ins {
			if i >= len(outs)-1 {
				why := x.Err + x.Signal
				if x.CPU {
					why = "it does not terminate"
				}
				return Outcome{Fail: fmt.Sprintf("no answer from the lexer for %q: %s", in.text, clip(why, 1000))}
			}
			var toks []struct {
				K string
				V []byte
				L int
				F string
			}
			if err := json.Unmarshal([]byte(outs[i]), &toks); err != nil {
				return Outcome{Skip: "driver output: " + err.Error()}
			}
			var got []ltok
			for _, t := range toks {
				got = append(got, ltok{K: t.K, V: string(t.V), L: t.L})
				if t.F != "some/file.clara" && t.K != "closed" && t.K != "endless" {
					return Outcome{Fail: fmt.Sprintf("token %q names file %q, lexing %q", t.V, t.F, in.text)}
				}
			}
			// invariants of every input
			pos, line := 0, 1
			for _, t := range got {
				if t.K == "closed" || t.K == "endless" || strings.HasPrefix(t.K, "kind") {
					return Outcome{Fail: fmt.Sprintf("token stream is %s, lexing %q", t.K, in.text)}
				}
				if t.L != line {
					return Outcome{Fail: fmt.Sprintf("token %s %q has line %d, expected %d, lexing %q", t.K, t.V, t.L, line, in.text)}
				}
				if t.K == "err" {
					break
				}
				if !strings.HasPrefix(in.text[pos:], t.V) {
					return Outcome{Fail: fmt.Sprintf("token %s %q is not the text at offset %d of %q", t.K, t.V, pos, in.text)}
				}
				pos += len(t.V)
				line += strings.Count(t.V, "\n")
				if t.K == "eof" && pos != len(in.text) {
					return Outcome{Fail: fmt.Sprintf("the tokens end at offset %d of %d, lexing %q", pos, len(in.text), in.text)}
				}
			}
			want, exact := refLex(in.text)
			if in.want != nil {
				want, exact = in.want, true
			}
			if d := lexDiff(in.text, got, want, exact); d != "" {
				return Outcome{Fail: d + fmt.Sprintf(", lexing %q", in.text)}
			}
		}
		return Outcome{}
	}
	return c
}

func mergeToks(ts []ltok) []ltok {
	var r []ltok
	for _, t := range ts {
		if n := len(r); n > 0 && (t.K == "eol" || t.K == "space") && r[n-1].K == t.K {
			r[n-1].V += t.V
			continue
		}
		r = append(r, t)
	}
	return r
}

func lexDiff(text string, got, want []ltok, exact bool) string {
	got, want = mergeToks(got), mergeToks(want)
	for i, w := range want {
		if i >= len(got) {
			return fmt.Sprintf("only %d tokens, expected %s %q", len(got), w.K, w.V)
		}
		g := got[i]
		// a word before a character which may not follow it
		if g.K == "err" && w.maybeErr {
			return ""
		}
		if g.K != w.K || g.K != "err" && g.V != w.V {
			return fmt.Sprintf("token %d is %s %q, expected %s %q", i, g.K, g.V, w.K, w.V)
		}
		if g.L != w.L && g.K != "eol" {
			return fmt.Sprintf("token %d (%s %q) has line %d, expected %d", i, g.K, g.V, g.L, w.L)
		}
		if g.K == "err" {
			return ""
		}
	}
	if exact && len(got) > len(want) {
		return fmt.Sprintf("%d tokens, expected %d", len(got), len(want))
	}
	return ""
}

func init() {
	reg(&Prop{ID: "C19", Rule: "batches of up to 40 inputs: valid tokens separated by spaces and line breaks (compared with that token list), operator runs, pieces joined without separators, random characters and bytes (compared with a reference lexer); non-trivial: an input of more than five tokens",
		Quick: 25000, Thorough: 600000, Budget: [2]time.Duration{40 * time.Second, 13 * time.Minute}, Gen: genC19, Prepare: buildLexDriver})
}
