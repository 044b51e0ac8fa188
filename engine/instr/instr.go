// Package instr makes instrumented copies of concurrent source files of the
// repository: a scheduling point before every statement that touches anything
// shared.
package instr

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/format"
	"go/parser"
	"go/printer"
	"go/token"
	"os"
	"path/filepath"
	"strings"
)

// Overlay instruments the files of the pool packages. It returns the overlay
// contents and the file name of a go build overlay description.
func Overlay(repo, tmp string) (map[string][]byte, string, error) {
	ov := map[string][]byte{}
	desc := map[string]string{}
	var firstErr error
	err := filepath.Walk(filepath.Join(repo, "netx", "pool"), func(path string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() || !strings.HasSuffix(path, ".go") || strings.HasSuffix(path, "_test.go") {
			return nil
		}
		b, err := os.ReadFile(path)
		if err != nil {
			return nil
		}
		out, err := File(path, b)
		if err != nil {
			firstErr = err
			return nil
		}
		if out == nil {
			return nil
		}
		f := filepath.Join(tmp, fmt.Sprintf("overlay%d.go", len(desc)))
		if err := os.WriteFile(f, out, 0o644); err != nil {
			return err
		}
		ov[path] = out
		desc[path] = f
		return nil
	})
	if err == nil {
		err = firstErr
	}
	if len(desc) == 0 {
		return nil, "", err
	}
	b, _ := json.Marshal(map[string]interface{}{"Replace": desc})
	name := filepath.Join(tmp, "overlay.json")
	if err := os.WriteFile(name, b, 0o644); err != nil {
		return nil, "", err
	}
	return ov, name, err
}

const pkg = "verifv"

type rewriter struct {
	fset *token.FileSet
	n    int
	tmps int
}

// File instruments a source file; nil if there is nothing to instrument.
func File(name string, src []byte) ([]byte, error) {
	r := &rewriter{fset: token.NewFileSet()}
	f, err := parser.ParseFile(r.fset, name, src, parser.SkipObjectResolution)
	if err != nil {
		return nil, err
	}
	for _, d := range f.Decls {
		if fd, ok := d.(*ast.FuncDecl); ok && fd.Body != nil {
			r.block(fd.Body)
		}
		ast.Inspect(d, func(n ast.Node) bool { // functions among expressions
			if fl, ok := n.(*ast.FuncLit); ok {
				r.block(fl.Body)
			}
			return true
		})
	}
	if r.n == 0 {
		return nil, nil
	}
	imp := &ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{&ast.ImportSpec{Name: ast.NewIdent(pkg), Path: &ast.BasicLit{Kind: token.STRING, Value: `"verif/harness/v"`}}}}
	f.Decls = append([]ast.Decl{imp}, f.Decls...)
	f.Comments = nil
	var out bytes.Buffer
	if err := printer.Fprint(&out, r.fset, f); err != nil {
		return nil, err
	}
	b, err := format.Source(out.Bytes())
	if err != nil {
		return nil, err
	}
	return b, nil
}

func (r *rewriter) yield() ast.Stmt {
	r.n++
	return &ast.ExprStmt{X: &ast.CallExpr{Fun: &ast.SelectorExpr{X: ast.NewIdent(pkg), Sel: ast.NewIdent("Yield")}}}
}

func (r *rewriter) block(b *ast.BlockStmt) {
	if b != nil {
		b.List = r.list(b.List)
	}
}

func (r *rewriter) list(in []ast.Stmt) []ast.Stmt {
	var out []ast.Stmt
	for _, s := range in {
		if r.shared(s) {
			out = append(out, r.yield())
		}
		out = append(out, r.stmt(s))
	}
	return out
}

// stmt instruments the statements inside s.
func (r *rewriter) stmt(s ast.Stmt) ast.Stmt {
	switch s := s.(type) {
	case *ast.BlockStmt:
		r.block(s)
	case *ast.IfStmt:
		r.block(s.Body)
		if s.Else != nil {
			if e, ok := s.Else.(*ast.IfStmt); ok && r.shared(e) {
				// a scheduling point before the second condition
				s.Else = &ast.BlockStmt{List: r.list([]ast.Stmt{e})}
			} else {
				s.Else = r.stmt(s.Else)
			}
		}
	case *ast.ForStmt:
		r.block(s.Body)
		if s.Cond != nil && touches(s.Cond) {
			s.Body.List = append([]ast.Stmt{r.yield()}, s.Body.List...)
		}
	case *ast.RangeStmt:
		r.block(s.Body)
		s.Body.List = append([]ast.Stmt{r.yield()}, s.Body.List...)
	case *ast.SwitchStmt:
		r.block(s.Body)
	case *ast.TypeSwitchStmt:
		r.block(s.Body)
	case *ast.SelectStmt:
		r.block(s.Body)
	case *ast.CaseClause:
		s.Body = r.list(s.Body)
	case *ast.CommClause:
		s.Body = r.list(s.Body)
	case *ast.LabeledStmt:
		s.Stmt = r.stmt(s.Stmt)
	case *ast.GoStmt:
		return r.spawn(s)
	case *ast.IncDecStmt:
		if path(s.X) {
			return r.split(s.X, s)
		}
	case *ast.AssignStmt:
		if len(s.Lhs) == 1 && len(s.Rhs) == 1 && path(s.Lhs[0]) {
			if s.Tok != token.ASSIGN && s.Tok != token.DEFINE {
				return r.split(s.Lhs[0], s)
			}
			if s.Tok == token.ASSIGN && mentions(s.Rhs[0], text(s.Lhs[0])) {
				t := ast.NewIdent(fmt.Sprintf("verift%d", r.tmps))
				r.tmps++
				return &ast.BlockStmt{List: []ast.Stmt{
					&ast.AssignStmt{Lhs: []ast.Expr{t}, Tok: token.DEFINE, Rhs: s.Rhs},
					r.yield(),
					&ast.AssignStmt{Lhs: s.Lhs, Tok: token.ASSIGN, Rhs: []ast.Expr{t}},
				}}
			}
		}
	}
	return s
}

// split separates the read and the write of x.
func (r *rewriter) split(x ast.Expr, s ast.Stmt) ast.Stmt {
	t := ast.NewIdent(fmt.Sprintf("verift%d", r.tmps))
	r.tmps++
	return &ast.BlockStmt{List: []ast.Stmt{
		&ast.AssignStmt{Lhs: []ast.Expr{t}, Tok: token.DEFINE, Rhs: []ast.Expr{x}},
		r.yield(),
		&ast.AssignStmt{Lhs: []ast.Expr{x}, Tok: token.ASSIGN, Rhs: []ast.Expr{t}},
		s,
	}}
}

// spawn makes a goroutine known to the scheduler.
func (r *rewriter) spawn(s *ast.GoStmt) ast.Stmt {
	r.n++
	sp := func(f ast.Expr) ast.Stmt {
		return &ast.ExprStmt{X: &ast.CallExpr{Fun: &ast.SelectorExpr{X: ast.NewIdent(pkg), Sel: ast.NewIdent("Spawn")}, Args: []ast.Expr{f}}}
	}
	if len(s.Call.Args) == 0 {
		if fl, ok := s.Call.Fun.(*ast.FuncLit); ok && fl.Type.Results == nil {
			return sp(fl)
		}
	}
	b := &ast.BlockStmt{}
	call := &ast.CallExpr{Ellipsis: s.Call.Ellipsis}
	bind := func(e ast.Expr) ast.Expr {
		t := ast.NewIdent(fmt.Sprintf("verift%d", r.tmps))
		r.tmps++
		b.List = append(b.List, &ast.AssignStmt{Lhs: []ast.Expr{t}, Tok: token.DEFINE, Rhs: []ast.Expr{e}})
		return t
	}
	switch s.Call.Fun.(type) {
	case *ast.Ident: // may be a builtin
		call.Fun = s.Call.Fun
	default:
		call.Fun = bind(s.Call.Fun)
	}
	for _, a := range s.Call.Args {
		switch x := a.(type) {
		case *ast.BasicLit:
			call.Args = append(call.Args, a)
			continue
		case *ast.Ident:
			if x.Name == "nil" || x.Name == "true" || x.Name == "false" {
				call.Args = append(call.Args, a)
				continue
			}
		}
		call.Args = append(call.Args, bind(a))
	}
	b.List = append(b.List, sp(&ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: call}}}}))
	return b
}

// shared reports whether s itself, outside the statements it contains, does
// more than handle local variables.
func (r *rewriter) shared(s ast.Stmt) bool {
	switch s := s.(type) {
	case *ast.BlockStmt, *ast.BranchStmt, *ast.EmptyStmt, *ast.CaseClause, *ast.CommClause:
		return false
	case *ast.LabeledStmt:
		return r.shared(s.Stmt)
	case *ast.IfStmt:
		return s.Init != nil && touches(s.Init) || touches(s.Cond)
	case *ast.ForStmt:
		return s.Init != nil && touches(s.Init) || s.Cond != nil && touches(s.Cond)
	case *ast.RangeStmt:
		return true
	case *ast.SwitchStmt:
		if s.Init != nil && touches(s.Init) || s.Tag != nil && touches(s.Tag) {
			return true
		}
		for _, c := range s.Body.List {
			for _, e := range c.(*ast.CaseClause).List {
				if touches(e) {
					return true
				}
			}
		}
		return false
	case *ast.TypeSwitchStmt:
		return touches(s.Assign)
	case *ast.SelectStmt:
		return true
	case *ast.DeferStmt:
		return false // evaluating the operands only
	case *ast.GoStmt:
		return true
	}
	return touches(s)
}

func touches(n ast.Node) bool {
	found := false
	ast.Inspect(n, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.FuncLit:
			return false
		case *ast.CallExpr, *ast.SelectorExpr, *ast.IndexExpr, *ast.StarExpr, *ast.SendStmt:
			found = true
		case *ast.UnaryExpr:
			if n.Op == token.ARROW {
				found = true
			}
		}
		return !found
	})
	return found
}

// path reports whether e is a field of a variable, and so on.
func path(e ast.Expr) bool {
	for sel := false; ; {
		switch x := e.(type) {
		case *ast.SelectorExpr:
			sel = true
			e = x.X
		case *ast.ParenExpr:
			e = x.X
		case *ast.StarExpr:
			sel = true
			e = x.X
		case *ast.Ident:
			return sel
		default:
			return false
		}
	}
}

func text(e ast.Expr) string {
	var b bytes.Buffer
	printer.Fprint(&b, token.NewFileSet(), e)
	return b.String()
}

func mentions(e ast.Expr, t string) bool {
	found := false
	ast.Inspect(e, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.FuncLit:
			return false
		case ast.Expr:
			if text(x) == t {
				found = true
			}
		}
		return !found
	})
	return found
}
