// Package instr writes instrumented copies of the code under test for a go build overlay.
package instr

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
)

const (
	root  = "github.com/avast/apkverifier"
	sched = root + "/zzverif/sched"
)

type pkg struct {
	ImportPath, Export, Dir string
	GoFiles                 []string
	Error                   *struct{ Err string }
}

// Write instruments all packages of the code under test the harness uses and writes overlay.json to dir. An overlay file
// named by the environment variable ZZVERIF_OVERLAY is extended. It returns a summary.
func Write(dir string) (string, error) {
	repl := map[string]string{}
	args := []string{"list", "-export", "-deps", "-json=ImportPath,Export,Dir,GoFiles,Error"}
	if f := os.Getenv("ZZVERIF_OVERLAY"); f != "" {
		b, err := os.ReadFile(f)
		if err != nil {
			return "", err
		}
		var o struct{ Replace map[string]string }
		if err := json.Unmarshal(b, &o); err != nil {
			return "", err
		}
		repl = o.Replace
		args = append(args, "-overlay", f)
	}
	cmd := exec.Command("go", append(args, root+"/...")...)
	cmd.Args = append(append([]string{"go"}, args...), ".")
	cmd.Stderr = os.Stderr
	out, err := cmd.Output()
	if err != nil {
		return "", err
	}
	exports := map[string]string{}
	var mine []pkg
	for d := json.NewDecoder(bytes.NewReader(out)); ; {
		var p pkg
		if err := d.Decode(&p); errors.Is(err, io.EOF) {
			break
		} else if err != nil {
			return "", err
		}
		exports[p.ImportPath] = p.Export
		if (p.ImportPath == root || strings.HasPrefix(p.ImportPath, root+"/")) && !strings.HasPrefix(p.ImportPath, root+"/zzverif") {
			mine = append(mine, p)
		}
	}
	imp := func(fset *token.FileSet) types.Importer {
		return importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
			e := exports[path]
			if e == "" {
				return nil, fmt.Errorf("no export data for %s", path)
			}
			return os.Open(e)
		})
	}
	maps, yields, n := 0, 0, 0
	for _, p := range mine {
		fset := token.NewFileSet()
		var files []*ast.File
		var srcs [][]byte
		for _, f := range p.GoFiles {
			full := filepath.Join(p.Dir, f)
			src := full
			if r := repl[full]; r != "" {
				src = r
			}
			b, err := os.ReadFile(src)
			if err != nil {
				return "", err
			}
			a, err := parser.ParseFile(fset, full, b, parser.ParseComments)
			if err != nil {
				return "", err
			}
			files, srcs = append(files, a), append(srcs, b)
		}
		info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}, Defs: map[*ast.Ident]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{}}
		cfg := types.Config{Importer: imp(fset), Error: func(error) {}}
		tp, err := cfg.Check(p.ImportPath, fset, files, info)
		if err != nil {
			return "", fmt.Errorf("%s: %w", p.ImportPath, err)
		}
		shared := sharedVars(tp, files, info)
		for i, f := range files {
			m, y, text := rewrite(fset, f, srcs[i], info, shared)
			if m+y == 0 {
				continue
			}
			maps, yields = maps+m, yields+y
			q := filepath.Join(dir, fmt.Sprintf("instr%d.go", n))
			n++
			if err := os.WriteFile(q, text, 0o644); err != nil {
				return "", err
			}
			repl[filepath.Join(p.Dir, p.GoFiles[i])] = q
		}
	}
	j, _ := json.Marshal(map[string]any{"Replace": repl})
	if err := os.WriteFile(filepath.Join(dir, "overlay.json"), j, 0o644); err != nil {
		return "", err
	}
	return fmt.Sprintf("%d map iterations, %d statements using mutable package variables", maps, yields), nil
}

func rootIdent(e ast.Expr) *ast.Ident {
	for {
		switch x := e.(type) {
		case *ast.Ident:
			return x
		case *ast.SelectorExpr:
			if id, ok := x.X.(*ast.Ident); ok && id.Obj == nil {
				// a variable of another package
				return x.Sel
			}
			e = x.X
		case *ast.IndexExpr:
			e = x.X
		case *ast.SliceExpr:
			e = x.X
		case *ast.StarExpr:
			e = x.X
		case *ast.ParenExpr:
			e = x.X
		default:
			return nil
		}
	}
}

// sharedVars finds the package-level variables some function may change.
func sharedVars(tp *types.Package, files []*ast.File, info *types.Info) map[types.Object]bool {
	out := map[types.Object]bool{}
	mark := func(e ast.Expr) {
		if id := rootIdent(e); id != nil {
			if v, ok := info.Uses[id].(*types.Var); ok && v.Parent() == tp.Scope() {
				out[v] = true
			}
		}
	}
	for _, f := range files {
		for _, d := range f.Decls {
			fn, ok := d.(*ast.FuncDecl)
			if !ok || fn.Body == nil || fn.Recv == nil && fn.Name.Name == "init" {
				continue
			}
			ast.Inspect(fn.Body, func(n ast.Node) bool {
				switch x := n.(type) {
				case *ast.AssignStmt:
					for _, l := range x.Lhs {
						mark(l)
					}
					for _, r := range x.Rhs { // aliases of things that can be changed through them
						if id, ok := r.(*ast.Ident); ok {
							if v, ok := info.Uses[id].(*types.Var); ok {
								switch v.Type().Underlying().(type) {
								case *types.Map, *types.Pointer, *types.Chan:
									mark(r)
								}
							}
						}
					}
				case *ast.IncDecStmt:
					mark(x.X)
				case *ast.SendStmt:
					mark(x.Chan)
				case *ast.RangeStmt:
					if x.Key != nil {
						mark(x.Key)
					}
					if x.Value != nil {
						mark(x.Value)
					}
				case *ast.UnaryExpr:
					if x.Op == token.AND || x.Op == token.ARROW {
						mark(x.X)
					}
				case *ast.CallExpr:
					if s, ok := x.Fun.(*ast.SelectorExpr); ok {
						if sel := info.Selections[s]; sel != nil && sel.Kind() == types.MethodVal {
							sig := sel.Obj().Type().(*types.Signature)
							_, ptr := sig.Recv().Type().(*types.Pointer)
							if ptr {
								mark(s.X)
							}
						}
					}
					if id, ok := x.Fun.(*ast.Ident); ok && (id.Name == "delete" || id.Name == "clear" || id.Name == "append" || id.Name == "copy") && len(x.Args) > 0 {
						mark(x.Args[0])
					}
				}
				return true
			})
		}
	}
	return out
}

type edit struct {
	off  int
	text string
}

func rewrite(fset *token.FileSet, f *ast.File, src []byte, info *types.Info, shared map[types.Object]bool) (maps, yields int, out []byte) {
	var edits []edit
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	uses := func(n ast.Node) bool {
		found := false
		ast.Inspect(n, func(x ast.Node) bool {
			switch v := x.(type) {
			case *ast.BlockStmt, *ast.CaseClause, *ast.CommClause:
				return false
			case *ast.Ident:
				if o := info.Uses[v]; o != nil && shared[o] {
					found = true
				}
			}
			return true
		})
		return found
	}
	list := func(l []ast.Stmt) {
		for _, s := range l {
			if uses(s) {
				edits = append(edits, edit{off(s.Pos()), "zzsched.Yield(); "})
				yields++
			}
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.RangeStmt:
			t := info.Types[x.X].Type
			if t == nil {
				break
			}
			if _, ok := t.Underlying().(*types.Map); ok {
				edits = append(edits, edit{off(x.X.Pos()), "zzsched.Order("}, edit{off(x.X.End()), ")"})
				maps++
			}
		case *ast.BlockStmt:
			list(x.List)
		case *ast.CaseClause:
			list(x.Body)
		case *ast.CommClause:
			list(x.Body)
		}
		return true
	})
	if len(edits) == 0 {
		return 0, 0, nil
	}
	edits = append(edits, edit{off(f.Name.End()), "; import zzsched \"" + sched + "\""})
	sort.SliceStable(edits, func(i, j int) bool { return edits[i].off < edits[j].off })
	var b bytes.Buffer
	if !bytes.Contains(src[:off(f.Package)], []byte("//go:build")) {
		b.WriteString("//go:build go1.23\n\n")
	}
	fmt.Fprintf(&b, "//line %s:1\n", fset.Position(f.Package).Filename)
	last := 0
	for _, e := range edits {
		b.Write(src[last:e.off])
		b.WriteString(e.text)
		last = e.off
	}
	b.Write(src[last:])
	return maps, yields, b.Bytes()
}
