// Lists small changes to g-dx/clara's sources, one JSON object per line: file, offset, old and new text.
// Used by campaign.py to find changes which the tests and the checks both miss.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
)

type mut struct {
	File string `json:"file"`
	Off  int    `json:"off"`
	Old  string `json:"old"`
	New  string `json:"new"`
	Kind string `json:"kind"`
	Line int    `json:"line"`
}

var enc = json.NewEncoder(os.Stdout)

func main() {
	repo := os.Args[1]
	enc.SetEscapeHTML(false)
	gos, _ := filepath.Glob(repo + "/*.go")
	more, _ := filepath.Glob(repo + "/*/*.go")
	for _, f := range append(gos, more...) {
		if !strings.HasSuffix(f, "_test.go") {
			goFile(repo, f)
		}
	}
	cl, _ := filepath.Glob(repo + "/install/lib/*.clara")
	cs, _ := filepath.Glob(repo + "/install/init/*.c")
	for _, f := range append(cl, cs...) {
		textFile(repo, f)
	}
}

func goFile(repo, path string) {
	src, _ := os.ReadFile(path)
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, path, src, 0)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return
	}
	rel := strings.TrimPrefix(path, repo+"/")
	put := func(a, b token.Pos, nw, kind string) {
		p, q := fs.Position(a), fs.Position(b)
		enc.Encode(mut{rel, p.Offset, string(src[p.Offset:q.Offset]), nw, kind, p.Line})
	}
	text := func(n ast.Node) string {
		return string(src[fs.Position(n.Pos()).Offset:fs.Position(n.End()).Offset])
	}
	swaps := map[token.Token][]string{token.LSS: {"<=", ">="}, token.LEQ: {"<"}, token.GTR: {">=", "<="}, token.GEQ: {">"}, token.EQL: {"!="}, token.NEQ: {"=="},
		token.LAND: {"||"}, token.LOR: {"&&"}, token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"+"}}
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.BinaryExpr:
			for _, s := range swaps[x.Op] {
				put(x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), s, "op")
			}
			if x.Op == token.LAND || x.Op == token.LOR {
				put(x.Pos(), x.End(), text(x.X), "left only")
				put(x.Pos(), x.End(), text(x.Y), "right only")
			}
		case *ast.IfStmt:
			put(x.Cond.Pos(), x.Cond.End(), "!("+text(x.Cond)+")", "negate")
			put(x.Cond.Pos(), x.Cond.End(), "("+text(x.Cond)+") && false", "never")
			if x.Else == nil {
				put(x.Cond.Pos(), x.Cond.End(), "("+text(x.Cond)+") || true", "always")
			}
		case *ast.BasicLit:
			if x.Kind == token.INT {
				if v, err := strconv.Atoi(x.Value); err == nil {
					put(x.Pos(), x.End(), strconv.Itoa(v+1), "const")
					if v > 0 {
						put(x.Pos(), x.End(), strconv.Itoa(v-1), "const")
					}
				}
			}
		case *ast.BlockStmt:
			for _, s := range x.List {
				del(s, put, text)
			}
		case *ast.CaseClause:
			for _, s := range x.Body {
				del(s, put, text)
			}
			if len(x.List) > 1 {
				for i, e := range x.List {
					if i > 0 {
						put(x.List[i-1].End(), e.End(), "", "drop case value")
					} else {
						put(e.Pos(), x.List[1].Pos(), "", "drop case value")
					}
				}
			}
		case *ast.Ident:
			if x.Name == "true" {
				put(x.Pos(), x.End(), "false", "bool")
			}
			if x.Name == "false" {
				put(x.Pos(), x.End(), "true", "bool")
			}
		case *ast.UnaryExpr:
			if x.Op == token.NOT {
				put(x.Pos(), x.End(), text(x.X), "drop not")
			}
		}
		return true
	})
}

func del(s ast.Stmt, put func(a, b token.Pos, nw, kind string), text func(ast.Node) string) {
	switch x := s.(type) {
	case *ast.ExprStmt, *ast.IncDecStmt, *ast.BranchStmt:
		put(s.Pos(), s.End(), "", "delete")
	case *ast.AssignStmt:
		if x.Tok != token.DEFINE {
			put(s.Pos(), s.End(), "", "delete")
		}
	}
}

var toks = regexp.MustCompile(`"(?:[^"\\]|\\.)*"|//[^\n]*|/\*(?s:.*?)\*/|[A-Za-z_][A-Za-z0-9_]*|0x[0-9a-fA-F]+|[0-9]+|<<|>>|<=|>=|==|!=|:=|&&|\|\||\.\.|->|\+\+|[-+*/<>&|^~?=!]`)

func textFile(repo, path string) {
	src, _ := os.ReadFile(path)
	rel := strings.TrimPrefix(path, repo+"/")
	put := func(a, b int, nw, kind string) {
		enc.Encode(mut{rel, a, string(src[a:b]), nw, kind, 1 + strings.Count(string(src[:a]), "\n")})
	}
	swaps := map[string][]string{"<": {"<=", ">="}, "<=": {"<"}, ">": {">=", "<="}, ">=": {">"}, "+": {"-"}, "-": {"+"}, "*": {"+"}, "/": {"*"}, "and": {"or"}, "or": {"and"},
		"true": {"false"}, "false": {"true"}, "<<": {">>"}, ">>": {"<<"}, "&": {"|"}, "|": {"&"}, "^": {"|"}, "not": {""}, "&&": {"||"}, "||": {"&&"}, "!=": {"=="}}
	for _, m := range toks.FindAllStringIndex(string(src), -1) {
		t := string(src[m[0]:m[1]])
		for _, s := range swaps[t] {
			put(m[0], m[1], s, "op")
		}
		if t == "==" {
			put(m[0], m[1], "<", "op")
			if strings.HasSuffix(path, ".c") {
				put(m[0], m[1], "!=", "op")
			}
		}
		if v, err := strconv.ParseInt(t, 0, 64); err == nil && t[0] >= '0' && t[0] <= '9' {
			put(m[0], m[1], fmt.Sprint(v+1), "const")
			if v > 0 {
				put(m[0], m[1], fmt.Sprint(v-1), "const")
			}
		}
	}
	off := 0
	for _, l := range strings.SplitAfter(string(src), "\n") {
		t := strings.TrimSpace(l)
		switch {
		case t == "" || strings.HasPrefix(t, "//") || strings.HasPrefix(t, "#") || strings.ContainsAny(t, "{}") || strings.Contains(t, ":="):
		case strings.HasPrefix(t, "return") || strings.HasPrefix(t, "fn ") || strings.HasPrefix(t, "case ") || strings.HasPrefix(t, "struct"):
		case strings.Contains(t, "(") || strings.Contains(t, "="):
			put(off, off+len(strings.TrimRight(l, "\n")), "", "delete")
		}
		// condition of if statements
		if i := strings.Index(l, "if "); i >= 0 && strings.HasSuffix(t, "{") && strings.HasSuffix(path, ".clara") {
			j := strings.LastIndex(l, "{")
			c := strings.TrimSpace(l[i+3 : j])
			put(off+i+3, off+j, "not ("+c+") ", "negate")
			put(off+i+3, off+j, "false ", "never")
		}
		off += len(l)
	}
}
