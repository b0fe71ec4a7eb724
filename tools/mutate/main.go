// mt FILE: prints mutants as JSON lines {id,line,kind,from,to,start,end}
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
	"strings"
)

type M struct {
	File       string
	Line       int
	Kind       string
	Old, New   string
	Start, End int
	Func       string
}

func main() {
	file := os.Args[1]
	src, _ := os.ReadFile(file)
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, file, src, 0)
	if err != nil {
		panic(err)
	}
	enc := json.NewEncoder(os.Stdout)
	fn := ""
	off := func(p token.Pos) int { return fs.Position(p).Offset }
	emit := func(kind string, s, e token.Pos, new string) {
		a, b := off(s), off(e)
		enc.Encode(M{file, fs.Position(s).Line, kind, string(src[a:b]), new, a, b, fn})
	}
	ops := map[token.Token][]string{token.LSS: {"<=", ">="}, token.LEQ: {"<"}, token.GTR: {">=", "<="}, token.GEQ: {">"}, token.EQL: {"!="}, token.NEQ: {"=="}, token.LAND: {"||"}, token.LOR: {"&&"}, token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"+"}, token.QUO: {"*"}, token.REM: {"/"}, token.AND: {"|"}, token.OR: {"&"}, token.SHL: {">>"}, token.SHR: {"<<"}}
	isErr := func(c *ast.CallExpr) bool {
		a, b := off(c.Fun.Pos()), off(c.Fun.End())
		s := string(src[a:b])
		for _, x := range []string{"Errorf", "errors.New", "addError", "addWarning", "Warn", "Sprintf", "panic"} {
			if strings.Contains(s, x) {
				return true
			}
		}
		return false
	}
	for _, d := range f.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok || fd.Body == nil {
			if g, ok := d.(*ast.GenDecl); ok && (g.Tok == token.VAR || g.Tok == token.CONST) {
				fn = "decl"
				ast.Inspect(g, func(n ast.Node) bool {
					if b, ok := n.(*ast.BasicLit); ok && b.Kind == token.INT {
						emit("int", b.Pos(), b.End(), "("+b.Value+"+1)")
					}
					return true
				})
			}
			continue
		}
		fn = fd.Name.Name
		if fn == "Error" || fn == "String" || fn == "Unwrap" {
			continue
		}
		var visit func(n ast.Node) bool
		visit = func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.CallExpr:
				if isErr(x) {
					return false
				}
			case *ast.BinaryExpr:
				for _, o := range ops[x.Op] {
					emit("op", x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), o)
				}
			case *ast.BasicLit:
				if x.Kind == token.INT {
					emit("int", x.Pos(), x.End(), "("+x.Value+"+1)")
					if v, err := strconv.ParseInt(x.Value, 0, 64); err == nil && v > 0 {
						emit("int", x.Pos(), x.End(), "("+x.Value+"-1)")
					}
				}
			case *ast.Ident:
				if x.Name == "true" {
					emit("bool", x.Pos(), x.End(), "false")
				} else if x.Name == "false" {
					emit("bool", x.Pos(), x.End(), "true")
				}
			case *ast.IfStmt:
				emit("iffalse", x.Cond.Pos(), x.Cond.End(), "false && ("+string(src[off(x.Cond.Pos()):off(x.Cond.End())])+")")
				emit("iftrue", x.Cond.Pos(), x.Cond.End(), "true || ("+string(src[off(x.Cond.Pos()):off(x.Cond.End())])+")")
			case *ast.ExprStmt:
				if c, ok := x.X.(*ast.CallExpr); ok && !isErr(c) {
					emit("del", x.Pos(), x.End(), "")
				} else if ok && strings.Contains(string(src[off(c.Fun.Pos()):off(c.Fun.End())]), "addError") {
					emit("del", x.Pos(), x.End(), "")
				}
			case *ast.AssignStmt:
				if x.Tok != token.DEFINE {
					s := ""
					for i, r := range x.Rhs {
						if i < len(x.Rhs) {
							s += "_ = " + string(src[off(r.Pos()):off(r.End())]) + ";"
						}
					}
					if len(x.Lhs) == len(x.Rhs) {
						emit("del", x.Pos(), x.End(), s)
					}
				}
			case *ast.BranchStmt:
				if x.Label == nil && (x.Tok == token.BREAK || x.Tok == token.CONTINUE) {
					o := "continue"
					if x.Tok == token.CONTINUE {
						o = "break"
					}
					emit("branch", x.Pos(), x.End(), o)
					emit("del", x.Pos(), x.End(), "")
				}
			case *ast.IncDecStmt:
				emit("del", x.Pos(), x.End(), "")
			case *ast.CaseClause:
				if len(x.List) > 1 {
					for i, e := range x.List {
						if i == 0 {
							emit("case", x.List[0].Pos(), x.List[1].Pos(), "")
						} else {
							emit("case", x.List[i-1].End(), e.End(), "")
						}
					}
				}
			}
			return true
		}
		ast.Inspect(fd.Body, visit)
	}
	_ = fmt.Sprint
}
