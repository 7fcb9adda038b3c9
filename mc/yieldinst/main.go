// yieldinst OUT DIR...: inserts a call of verifYield before every statement of
// the hand-written files of the Go packages in DIR... (preemption points), writes
// the new files to OUT and OUT/overlay.json for go build -overlay.
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/format"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"strings"
)

func must(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(1)
	}
}

func weave(l []ast.Stmt) []ast.Stmt {
	var out []ast.Stmt
	for _, s := range l {
		out = append(out, &ast.ExprStmt{X: &ast.CallExpr{Fun: ast.NewIdent("verifYield")}}, s)
	}
	return out
}

func main() {
	out := os.Args[1]
	must(os.MkdirAll(out, 0777))
	over := map[string]string{}
	for k, dir := range os.Args[2:] {
		instrument(dir, filepath.Join(out, fmt.Sprint("p", k)), over)
	}
	j, _ := json.Marshal(map[string]any{"Replace": over})
	must(os.WriteFile(filepath.Join(out, "overlay.json"), j, 0666))
}

func instrument(dir, out string, over map[string]string) {
	must(os.MkdirAll(out, 0777))
	names, _ := filepath.Glob(filepath.Join(dir, "*.go"))
	pkg := ""
	for i, n := range names {
		if strings.HasSuffix(n, "_test.go") || strings.HasSuffix(n, ".peg.go") || filepath.Base(n) == "y.go" {
			continue
		}
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, n, nil, 0)
		must(err)
		pkg = f.Name.Name
		ast.Inspect(f, func(nd ast.Node) bool {
			switch x := nd.(type) {
			case *ast.SwitchStmt, *ast.TypeSwitchStmt, *ast.SelectStmt:
				return true
			case *ast.FuncDecl:
				return x.Body != nil
			case *ast.BlockStmt:
				// the body of a switch or select holds clauses only
				for _, s := range x.List {
					switch s.(type) {
					case *ast.CaseClause, *ast.CommClause:
						return true
					}
				}
				x.List = weave(x.List)
			case *ast.CaseClause:
				x.Body = weave(x.Body)
			case *ast.CommClause:
				x.Body = weave(x.Body)
			}
			return true
		})
		var b bytes.Buffer
		must(format.Node(&b, fset, f))
		p := filepath.Join(out, fmt.Sprintf("f%d.go", i))
		must(os.WriteFile(p, b.Bytes(), 0666))
		over[n] = p
	}
	hook := fmt.Sprintf("package %s\n\n// VerifYield is called before every statement.\nvar VerifYield func()\n\nfunc verifYield() {\n\tif VerifYield != nil {\n\t\tVerifYield()\n\t}\n}\n", pkg)
	hp := filepath.Join(out, "hook.go")
	must(os.WriteFile(hp, []byte(hook), 0666))
	over[filepath.Join(dir, "zz_verif_hook.go")] = hp
}
