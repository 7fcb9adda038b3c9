// maprange DIR OUT: rewrites every range over a map in the Go package in DIR so
// that the order of the keys is chosen by VerifPerm, writes the new files to
// OUT and OUT/overlay.json for go build -overlay.
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/format"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"strings"
)

func must(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(1)
	}
}

func main() {
	dir, out := os.Args[1], os.Args[2]
	must(os.MkdirAll(out, 0777))
	fset := token.NewFileSet()
	names, _ := filepath.Glob(filepath.Join(dir, "*.go"))
	var files []*ast.File
	var paths []string
	for _, n := range names {
		if strings.HasSuffix(n, "_test.go") {
			continue
		}
		f, err := parser.ParseFile(fset, n, nil, 0)
		must(err)
		files = append(files, f)
		paths = append(paths, n)
	}
	info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}}
	conf := types.Config{Importer: importer.ForCompiler(fset, "source", nil), Error: func(error) {}}
	conf.Check(files[0].Name.Name, fset, files, info)
	over := map[string]string{}
	n := 0
	for i, f := range files {
		ast.Inspect(f, func(nd ast.Node) bool {
			r, ok := nd.(*ast.RangeStmt)
			if !ok {
				return true
			}
			tv := info.Types[r.X]
			if tv.Type == nil {
				return true
			}
			if _, ok := tv.Type.Underlying().(*types.Map); !ok {
				return true
			}
			n++
			key := ast.NewIdent(fmt.Sprintf("verifK%d", n))
			val := ast.NewIdent(fmt.Sprintf("verifV%d", n))
			okI := ast.NewIdent(fmt.Sprintf("verifOK%d", n))
			m := r.X
			var pre []ast.Stmt
			// v, ok := m[k]; if !ok { continue }
			pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{val, okI}, Tok: token.DEFINE, Rhs: []ast.Expr{&ast.IndexExpr{X: m, Index: key}}})
			pre = append(pre, &ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: okI}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.CONTINUE}}}})
			pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent("_")}, Tok: token.ASSIGN, Rhs: []ast.Expr{val}})
			set := func(e ast.Expr, v ast.Expr) {
				if e == nil {
					return
				}
				if id, ok := e.(*ast.Ident); ok && id.Name == "_" {
					return
				}
				pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{e}, Tok: r.Tok, Rhs: []ast.Expr{v}})
				if r.Tok == token.DEFINE {
					pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent("_")}, Tok: token.ASSIGN, Rhs: []ast.Expr{e}})
				}
			}
			set(r.Key, key)
			set(r.Value, val)
			r.Key, r.Value, r.Tok = ast.NewIdent("_"), key, token.DEFINE
			r.X = &ast.CallExpr{Fun: ast.NewIdent("verifKeys"), Args: []ast.Expr{m}}
			r.Body.List = append(pre, r.Body.List...)
			return true
		})
		var b bytes.Buffer
		b.WriteString("//go:build go1.21\n\n")
		must(format.Node(&b, fset, f))
		p := filepath.Join(out, fmt.Sprintf("f%d.go", i))
		must(os.WriteFile(p, b.Bytes(), 0666))
		over[paths[i]] = p
	}
	if n == 0 {
		fmt.Fprintln(os.Stderr, "no range over a map found")
		os.Exit(1)
	}
	hook := fmt.Sprintf(`//go:build go1.21

package %s

import (
	"fmt"
	"sort"
)

// VerifPerm returns an order of n elements.
var VerifPerm func(n int) []int

func verifKeys[K comparable, V any](m map[K]V) []K {
	keys := make([]K, 0, len(m))
	for k := range m {
		keys = append(keys, k)
	}
	sort.Slice(keys, func(i, j int) bool { return fmt.Sprint(keys[i]) < fmt.Sprint(keys[j]) })
	if VerifPerm == nil || len(keys) < 2 {
		return keys
	}
	out := make([]K, len(keys))
	for i, j := range VerifPerm(len(keys)) {
		out[i] = keys[j]
	}
	return out
}
`, files[0].Name.Name)
	hp := filepath.Join(out, "hook.go")
	must(os.WriteFile(hp, []byte(hook), 0666))
	over[filepath.Join(dir, "zz_verif_hook.go")] = hp
	j, _ := json.Marshal(map[string]any{"Replace": over})
	must(os.WriteFile(filepath.Join(out, "overlay.json"), j, 0666))
}
