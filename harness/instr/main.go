// Command instr writes instrumented copies of a repository's sources and a go build -overlay file that puts them
// in place: sync and sync/atomic become the shims, go statements start controlled threads, and with -fine every
// plain assignment to a field or dereferenced pointer is split into a read part and a write part.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"go/ast"
	"go/format"
	"go/parser"
	"go/token"
	"go/types"
	"io/fs"
	"log"
	"os"
	"path/filepath"
	"strconv"
	"strings"
)

var (
	repo = flag.String("repo", "/repo", "")
	out  = flag.String("out", "", "directory for the copies and overlay.json")
	fine = flag.Bool("fine", false, "also split plain field assignments")
	pkgs = flag.String("pkgs", "", "comma separated package directories (empty: all)")
)

const vs = "vsched__"

func call(fn string, args ...ast.Expr) *ast.CallExpr {
	return &ast.CallExpr{Fun: &ast.SelectorExpr{X: ast.NewIdent(vs), Sel: ast.NewIdent(fn)}, Args: args}
}

func shared(e ast.Expr) bool {
	switch x := e.(type) {
	case *ast.ParenExpr:
		return shared(x.X)
	case *ast.SelectorExpr:
		return true
	case *ast.StarExpr:
		return true
	}
	return false
}

func main() {
	flag.Parse()
	want := map[string]bool{}
	for _, p := range strings.Split(*pkgs, ",") {
		if p != "" {
			want[p] = true
		}
	}
	repl := map[string]string{}
	err := filepath.WalkDir(*repo, func(path string, d fs.DirEntry, err error) error {
		if err != nil {
			return err
		}
		if d.IsDir() {
			if n := d.Name(); path != *repo && (strings.HasPrefix(n, ".") || strings.HasPrefix(n, "_") || n == "testdata") {
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(path, ".go") || strings.HasSuffix(path, "_test.go") {
			return nil
		}
		rel, _ := filepath.Rel(*repo, path)
		if len(want) > 0 && !want[strings.SplitN(rel, string(filepath.Separator), 2)[0]] {
			return nil
		}
		src, err := os.ReadFile(path)
		if err != nil {
			return err
		}
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, path, src, parser.SkipObjectResolution|parser.ParseComments)
		if err != nil {
			return nil // the build will report it
		}
		changed, usesVS := false, false
		for _, im := range f.Imports {
			p, _ := strconv.Unquote(im.Path.Value)
			switch p {
			case "sync":
				im.Path.Value = strconv.Quote("verifharness/shim/sync")
				changed = true
			case "sync/atomic":
				im.Path.Value = strconv.Quote("verifharness/shim/atomic")
				changed = true
			}
		}
		rewrite := func(s ast.Stmt) ast.Stmt {
			switch x := s.(type) {
			case *ast.GoStmt:
				usesVS = true
				// function and arguments are evaluated here, the call happens in the new thread
				if len(x.Call.Args) == 0 {
					return &ast.ExprStmt{X: call("Go", x.Call.Fun)}
				}
				var pre []ast.Stmt
				hold := func(e ast.Expr, name string) ast.Expr {
					switch y := e.(type) {
					case *ast.BasicLit, *ast.FuncLit:
						return e
					case *ast.Ident:
						if types.Universe.Lookup(y.Name) != nil {
							return e
						}
					}
					pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent(name)}, Tok: token.DEFINE, Rhs: []ast.Expr{e}})
					return ast.NewIdent(name)
				}
				x.Call.Fun = hold(x.Call.Fun, "vsF__")
				for i, a := range x.Call.Args {
					x.Call.Args[i] = hold(a, "vsA"+strconv.Itoa(i)+"__")
				}
				return &ast.BlockStmt{List: append(pre, &ast.ExprStmt{X: call("Go", &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: x.Call}}}})})}
			case *ast.IncDecStmt:
				if *fine && shared(x.X) {
					usesVS = true
					op := token.ADD
					if x.Tok == token.DEC {
						op = token.SUB
					}
					return &ast.ExprStmt{X: &ast.CallExpr{Fun: call("Set", &ast.UnaryExpr{Op: token.AND, X: x.X}), Args: []ast.Expr{&ast.BinaryExpr{X: x.X, Op: op, Y: &ast.BasicLit{Kind: token.INT, Value: "1"}}}}}
				}
			case *ast.AssignStmt:
				if *fine && len(x.Lhs) == 1 && len(x.Rhs) == 1 && shared(x.Lhs[0]) && x.Tok != token.DEFINE {
					usesVS = true
					rhs := x.Rhs[0]
					if x.Tok != token.ASSIGN {
						op := map[token.Token]token.Token{token.ADD_ASSIGN: token.ADD, token.SUB_ASSIGN: token.SUB, token.MUL_ASSIGN: token.MUL, token.QUO_ASSIGN: token.QUO, token.REM_ASSIGN: token.REM, token.AND_ASSIGN: token.AND, token.OR_ASSIGN: token.OR, token.XOR_ASSIGN: token.XOR, token.SHL_ASSIGN: token.SHL, token.SHR_ASSIGN: token.SHR, token.AND_NOT_ASSIGN: token.AND_NOT}[x.Tok]
						rhs = &ast.BinaryExpr{X: x.Lhs[0], Op: op, Y: &ast.ParenExpr{X: rhs}}
					}
					return &ast.ExprStmt{X: &ast.CallExpr{Fun: call("Set", &ast.UnaryExpr{Op: token.AND, X: x.Lhs[0]}), Args: []ast.Expr{rhs}}}
				}
			}
			return s
		}
		list := func(l []ast.Stmt) {
			for i, s := range l {
				l[i] = rewrite(s)
			}
		}
		ast.Inspect(f, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.BlockStmt:
				list(x.List)
			case *ast.CaseClause:
				list(x.Body)
			case *ast.CommClause:
				list(x.Body)
			}
			return true
		})
		if usesVS {
			changed = true
		}
		if !changed {
			return nil
		}
		tags := ""
		for _, g := range f.Comments {
			for _, c := range g.List {
				if c.Pos() < f.Package && strings.HasPrefix(c.Text, "//go:build") {
					tags += c.Text + "\n\n"
				}
			}
		}
		f.Comments = nil
		f.Doc = nil
		var b bytes.Buffer
		if err := format.Node(&b, fset, f); err != nil {
			return err
		}
		txt := b.String()
		if usesVS {
			i := strings.Index(txt, "\n")
			for !strings.HasPrefix(txt[strings.LastIndex(txt[:i], "\n")+1:], "package ") {
				i += 1 + strings.Index(txt[i+1:], "\n")
			}
			txt = txt[:i] + "\n\nimport " + vs + " \"verifharness/vsched\"\n" + txt[i:]
		}
		txt = tags + txt
		dst := filepath.Join(*out, strings.ReplaceAll(rel, string(filepath.Separator), "__"))
		if err := os.WriteFile(dst, []byte(txt), 0o644); err != nil {
			return err
		}
		repl[path] = dst
		return nil
	})
	if err != nil {
		log.Fatal(err)
	}
	j, _ := json.Marshal(map[string]any{"Replace": repl})
	if err := os.WriteFile(filepath.Join(*out, "overlay.json"), j, 0o644); err != nil {
		log.Fatal(err)
	}
}
