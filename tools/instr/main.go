// instr OUTDIR PKGDIR...: copies every non-test file of the packages under
// /repo with a scheduling point before every statement, and prints the overlay
// entries as JSON. The points call the package zzverif/sched.
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/build"
	"go/format"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"strings"
)

var sites []string

func point(fset *token.FileSet, base string, p token.Pos) ast.Stmt {
	id := len(sites)
	sites = append(sites, fmt.Sprintf("%s:%d", base, fset.Position(p).Line))
	return &ast.ExprStmt{X: &ast.CallExpr{
		Fun:  &ast.SelectorExpr{X: ast.NewIdent("zzsched"), Sel: ast.NewIdent("P")},
		Args: []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: fmt.Sprint(id)}},
	}}
}

func main() {
	out := os.Args[1]
	R := map[string]string{}
	for _, dir := range os.Args[2:] {
		files, _ := filepath.Glob(filepath.Join("/repo", dir, "*.go"))
		for _, f := range files {
			b := filepath.Base(f)
			if strings.HasSuffix(b, "_test.go") {
				continue
			}
			if ok, err := build.Default.MatchFile(filepath.Join("/repo", dir), b); err != nil || !ok {
				continue
			}
			fset := token.NewFileSet()
			src, err := os.ReadFile(f)
			if err != nil {
				panic(err)
			}
			file, err := parser.ParseFile(fset, f, src, parser.SkipObjectResolution)
			if err != nil {
				panic(err)
			}
			n := len(sites)
			base := filepath.Join(dir, b)
			do := func(l []ast.Stmt) []ast.Stmt {
				var o []ast.Stmt
				for _, s := range l {
					switch s.(type) {
					case *ast.CaseClause, *ast.CommClause, *ast.EmptyStmt:
					default:
						o = append(o, point(fset, base, s.Pos()))
					}
					o = append(o, s)
				}
				return o
			}
			ast.Inspect(file, func(x ast.Node) bool {
				switch x := x.(type) {
				case *ast.BlockStmt:
					x.List = do(x.List)
				case *ast.CaseClause:
					x.Body = do(x.Body)
				case *ast.CommClause:
					x.Body = do(x.Body)
				}
				return true
			})
			if len(sites) == n {
				continue
			}
			// Positions of the copy mean nothing any more; comments (other than
			// directives, which these packages have none of) are dropped.
			file.Comments = nil
			spec := &ast.ImportSpec{Name: ast.NewIdent("zzsched"), Path: &ast.BasicLit{Kind: token.STRING, Value: `"github.com/sp301415/ringo-snark/zzverif/sched"`}}
			file.Decls = append([]ast.Decl{&ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{spec}}}, file.Decls...)
			var w bytes.Buffer
			if err := format.Node(&w, fset, file); err != nil {
				panic(err)
			}
			g := filepath.Join(out, strings.ReplaceAll(base, "/", "__"))
			if err := os.WriteFile(g, w.Bytes(), 0o644); err != nil {
				panic(err)
			}
			R[f] = g
		}
	}
	var t strings.Builder
	t.WriteString("package sched\n\nfunc init() { Sites = []string{\n")
	for _, s := range sites {
		fmt.Fprintf(&t, "\t%q,\n", s)
	}
	t.WriteString("} }\n")
	g := filepath.Join(out, "sites.go")
	if err := os.WriteFile(g, []byte(t.String()), 0o644); err != nil {
		panic(err)
	}
	R["/repo/zzverif/sched/sites.go"] = g
	json.NewEncoder(os.Stdout).Encode(R)
}
