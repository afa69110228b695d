// mutate FILE.go [N]: lists single-point changes of a Go file, one JSON object a line:
// {"id","file","line","op","from","to","start","end"}. With N, writes the
// changed file to stdout. Used to look for breakage that no check notices.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
	"strings"
)

type mut struct {
	ID    int    `json:"id"`
	File  string `json:"file"`
	Line  int    `json:"line"`
	Func  string `json:"func"`
	Op    string `json:"op"`
	From  string `json:"from"`
	To    string `json:"to"`
	start int
	end   int
}

func main() {
	file := os.Args[1]
	src, err := os.ReadFile(file)
	if err != nil {
		panic(err)
	}
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, file, src, parser.ParseComments)
	if err != nil {
		panic(err)
	}
	off := func(p token.Pos) int { return fs.Position(p).Offset }
	var ms []mut
	fn := ""
	add := func(n ast.Node, op, to string) {
		s, e := off(n.Pos()), off(n.End())
		ms = append(ms, mut{len(ms), file, fs.Position(n.Pos()).Line, fn, op, string(src[s:e]), to, s, e})
	}
	addR := func(p token.Pos, l int, op, to string) {
		s := off(p)
		ms = append(ms, mut{len(ms), file, fs.Position(p).Line, fn, op, string(src[s : s+l]), to, s, s + l})
	}
	text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
	isPrint := func(e ast.Expr) bool {
		c, ok := e.(*ast.CallExpr)
		if !ok {
			return false
		}
		t := text(c.Fun)
		return strings.HasPrefix(t, "fmt.Print") || strings.HasPrefix(t, "log.Print") || strings.HasPrefix(t, "print")
	}
	for _, d := range f.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok || fd.Body == nil {
			continue
		}
		fn = fd.Name.Name
		ast.Inspect(fd.Body, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.BasicLit:
				if x.Kind == token.INT {
					v, err := strconv.ParseInt(x.Value, 0, 64)
					if err == nil {
						add(x, "lit+1", fmt.Sprint(v+1))
						if v > 0 {
							add(x, "lit-1", fmt.Sprint(v-1))
						}
					}
				}
			case *ast.BinaryExpr:
				r := map[token.Token][]string{token.LSS: {"<="}, token.LEQ: {"<"}, token.GTR: {">="}, token.GEQ: {">"}, token.EQL: {"!="}, token.NEQ: {"=="},
					token.LAND: {"||"}, token.LOR: {"&&"}, token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"/"}, token.QUO: {"*"}, token.REM: {"*"}}[x.Op]
				// err != nil is treated with the if
				if id, ok := x.Y.(*ast.Ident); ok && id.Name == "nil" {
					return true
				}
				for _, t := range r {
					addR(x.OpPos, len(x.Op.String()), "op", t)
				}
			case *ast.IfStmt:
				c := text(x.Cond)
				add(x.Cond, "iffalse", "false && ("+c+")")
				if !strings.Contains(c, "err ") {
					add(x.Cond, "iftrue", "true || ("+c+")")
				}
			case *ast.ExprStmt:
				if !isPrint(x.X) {
					if _, ok := x.X.(*ast.CallExpr); ok {
						add(x, "dropcall", "if false { "+text(x)+" }")
					}
				}
			case *ast.DeferStmt:
				add(x, "dropdefer", "if false { "+text(x)+" }")
			case *ast.AssignStmt:
				if x.Tok == token.ASSIGN || x.Tok == token.ADD_ASSIGN || x.Tok == token.SUB_ASSIGN {
					add(x, "dropassign", "if false { "+text(x)+" }")
				}
				if x.Tok == token.ASSIGN && len(x.Lhs) == 1 && len(x.Rhs) == 1 {
					if id, ok := x.Lhs[0].(*ast.Ident); ok && id.Name == "err" {
						add(x, "dropErrOf", "_ = "+text(x.Rhs[0]))
					}
				}
			case *ast.IncDecStmt:
				add(x, "dropinc", "if false { "+text(x)+" }")
			case *ast.SendStmt:
				add(x, "dropsend", "if false { "+text(x)+" }")
			case *ast.BranchStmt:
				if x.Label == nil && (x.Tok == token.BREAK || x.Tok == token.CONTINUE) {
					add(x, "dropbranch", "if false { "+text(x)+" }")
				}
			case *ast.GoStmt:
			case *ast.ReturnStmt:
				if n := len(x.Results); n > 0 {
					if id, ok := x.Results[n-1].(*ast.Ident); ok && id.Name == "err" {
						add(id, "returnnil", "nil")
					}
					for _, r := range x.Results {
						if id, ok := r.(*ast.Ident); ok && (id.Name == "true" || id.Name == "false") {
							add(id, "boolret", map[string]string{"true": "false", "false": "true"}[id.Name])
						}
					}
				}
			case *ast.Ident:
			}
			return true
		})
	}
	if len(os.Args) > 2 {
		n, _ := strconv.Atoi(os.Args[2])
		m := ms[n]
		os.Stdout.Write(src[:m.start])
		os.Stdout.WriteString(m.To)
		os.Stdout.Write(src[m.end:])
		return
	}
	e := json.NewEncoder(os.Stdout)
	e.SetEscapeHTML(false)
	for _, m := range ms {
		e.Encode(m)
	}
}
