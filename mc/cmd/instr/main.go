// Command instr writes instrumented copies of Go packages: a scheduling point before every statement, and package
// sync replaced by verif/mc/vsync. Usage: instr OUTDIR PKGDIR...; it prints one "original<TAB>copy" line per file.
package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/build"
	"go/format"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"strconv"
	"strings"
)

func main() {
	out := os.Args[1]
	for _, dir := range os.Args[2:] {
		pkg, err := build.ImportDir(dir, 0)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		for i, name := range pkg.GoFiles {
			src := filepath.Join(dir, name)
			dst := filepath.Join(out, strings.ReplaceAll(strings.TrimPrefix(src, "/"), "/", "__"))
			if err := instrument(src, dst, i, len(pkg.GoFiles)); err != nil {
				fmt.Fprintln(os.Stderr, err)
				os.Exit(2)
			}
			fmt.Printf("%s\t%s\n", src, dst)
		}
	}
}

// reinit makes a function that sets the package-level variables of f to their initial values again.
func reinit(f *ast.File, idx int) *ast.FuncDecl {
	body := &ast.BlockStmt{}
	for _, d := range f.Decls {
		g, ok := d.(*ast.GenDecl)
		if !ok || g.Tok != token.VAR {
			continue
		}
		for _, sp := range g.Specs {
			vs := sp.(*ast.ValueSpec)
			var lhs []ast.Expr
			blank := true
			for _, n := range vs.Names {
				lhs = append(lhs, ast.NewIdent(n.Name))
				if n.Name != "_" {
					blank = false
				}
			}
			if blank {
				continue
			}
			if len(vs.Values) > 0 {
				body.List = append(body.List, &ast.AssignStmt{Lhs: lhs, Tok: token.ASSIGN, Rhs: vs.Values})
				continue
			}
			for _, l := range lhs {
				zero := &ast.DeclStmt{Decl: &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{&ast.ValueSpec{Names: []*ast.Ident{ast.NewIdent("zero__")}, Type: vs.Type}}}}
				body.List = append(body.List, &ast.BlockStmt{List: []ast.Stmt{zero, &ast.AssignStmt{Lhs: []ast.Expr{l}, Tok: token.ASSIGN, Rhs: []ast.Expr{ast.NewIdent("zero__")}}}})
			}
		}
	}
	return &ast.FuncDecl{Name: ast.NewIdent(fmt.Sprintf("verifReinit%d", idx)), Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: body}
}

// reinitAll makes the exported function that calls those of all files.
func reinitAll(n int) *ast.FuncDecl {
	body := &ast.BlockStmt{}
	for i := 0; i < n; i++ {
		body.List = append(body.List, &ast.ExprStmt{X: &ast.CallExpr{Fun: ast.NewIdent(fmt.Sprintf("verifReinit%d", i))}})
	}
	return &ast.FuncDecl{Name: ast.NewIdent("VerifReinit"), Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: body}
}

func instrument(src, dst string, idx, total int) error {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, src, nil, 0) // comments are dropped: they could move into code
	if err != nil {
		return err
	}
	for _, im := range f.Imports {
		if p, _ := strconv.Unquote(im.Path.Value); p == "sync" {
			im.Path.Value = strconv.Quote("verif/mc/vsync")
			if im.Name == nil {
				im.Name = ast.NewIdent("sync")
			}
		}
	}
	used := false
	point := func() ast.Stmt {
		used = true
		return &ast.ExprStmt{X: &ast.CallExpr{Fun: &ast.SelectorExpr{X: ast.NewIdent("vsched__"), Sel: ast.NewIdent("Point")}}}
	}
	var list func(in []ast.Stmt) []ast.Stmt
	list = func(in []ast.Stmt) []ast.Stmt {
		var res []ast.Stmt
		for _, s := range in {
			if interesting(s) {
				res = append(res, point())
			}
			res = append(res, s)
		}
		return res
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.BlockStmt:
			onlyClauses := len(n.List) > 0
			for _, s := range n.List {
				switch s.(type) {
				case *ast.CaseClause, *ast.CommClause:
				default:
					onlyClauses = false
				}
			}
			if !onlyClauses {
				n.List = list(n.List)
			}
		case *ast.CaseClause:
			n.Body = list(n.Body)
		case *ast.CommClause:
			n.Body = list(n.Body)
		}
		return true
	})
	f.Decls = append(f.Decls, reinit(f, idx))
	if idx == 0 {
		f.Decls = append(f.Decls, reinitAll(total))
	}
	if used {
		spec := &ast.ImportSpec{Name: ast.NewIdent("vsched__"), Path: &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote("verif/mc/vsched")}}
		decl := &ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{spec}}
		f.Decls = append([]ast.Decl{decl}, f.Decls...)
	}
	var buf bytes.Buffer
	if err := format.Node(&buf, fset, f); err != nil {
		return err
	}
	return os.WriteFile(dst, buf.Bytes(), 0o644)
}

// interesting reports whether s may touch memory other threads can see.
func interesting(s ast.Stmt) bool {
	found := false
	ast.Inspect(s, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.FuncLit:
			return false
		case *ast.SelectorExpr, *ast.CallExpr, *ast.IndexExpr, *ast.StarExpr, *ast.RangeStmt, *ast.SendStmt, *ast.GoStmt:
			_ = n
			found = true
		case *ast.Ident:
			if n.Obj == nil && n.Name != "nil" && n.Name != "true" && n.Name != "false" && n.Name != "_" {
				found = true // may be a package-level variable of another file
			}
			if n.Obj != nil && n.Obj.Kind == ast.Var {
				if _, ok := n.Obj.Decl.(*ast.ValueSpec); ok {
					found = true // may be a package-level variable
				}
			}
		case *ast.BlockStmt:
			if _, ok := s.(*ast.BlockStmt); !ok {
				return false
			}
		}
		return !found
	})
	return found
}
