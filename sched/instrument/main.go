// instrument writes copies of the packages of a repository in which an
// explorer controls the goroutines, and an overlay for the go command.
//
// usage: instrument REPO VSCHED OUT PKG...
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/printer"
	"go/token"
	"os"
	"path/filepath"
	"strings"
)

const pkgPath = "pol/vsched"
const name = "vsched"

var syncTypes = map[string]bool{"Mutex": true, "RWMutex": true, "Once": true}

// methods of synchronisation objects
var syncCalls = map[string]bool{"Lock": true, "Unlock": true, "RLock": true, "RUnlock": true, "TryLock": true, "Wait": true, "Done": true, "Add": true, "Go": true,
	"Store": true, "Load": true, "Swap": true, "CompareAndSwap": true, "Do": true, "Signal": true, "Broadcast": true}

var builtins = map[string]bool{"close": true, "panic": true, "print": true, "println": true, "delete": true, "copy": true, "clear": true}

type file struct {
	fset   *token.FileSet
	used   bool
	n      int
	sync   string // local name of package sync
	atomic string
}

func main() {
	repo, vs, out := os.Args[1], os.Args[2], os.Args[3]
	replace := map[string]string{}
	for _, pkg := range os.Args[4:] {
		fs, _ := filepath.Glob(filepath.Join(repo, pkg, "*.go"))
		for _, f := range fs {
			if strings.HasSuffix(f, "_test.go") {
				continue
			}
			src, changed, err := rewrite(f, pkg)
			if err != nil {
				fmt.Fprintln(os.Stderr, err)
				os.Exit(1)
			}
			if !changed {
				continue
			}
			dst := filepath.Join(out, pkg+"_"+filepath.Base(f))
			if err := os.WriteFile(dst, src, 0o644); err != nil {
				fmt.Fprintln(os.Stderr, err)
				os.Exit(1)
			}
			replace[f] = dst
		}
	}
	replace[filepath.Join(repo, name, name+".go")] = vs
	b, _ := json.MarshalIndent(map[string]interface{}{"Replace": replace}, "", " ")
	if err := os.WriteFile(filepath.Join(out, "overlay.json"), b, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(1)
	}
}

func rewrite(path, pkg string) ([]byte, bool, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, path, nil, parser.SkipObjectResolution)
	if err != nil {
		return nil, false, err
	}
	x := &file{fset: fset}
	for _, im := range f.Imports {
		p := strings.Trim(im.Path.Value, `"`)
		l := p[strings.LastIndex(p, "/")+1:]
		if im.Name != nil {
			l = im.Name.Name
		}
		switch p {
		case "sync":
			x.sync = l
		case "sync/atomic":
			x.atomic = l
		}
	}
	globals := map[string]bool{}
	for _, d := range f.Decls {
		if gd, ok := d.(*ast.GenDecl); ok && gd.Tok == token.VAR {
			for _, s := range gd.Specs {
				for _, n := range s.(*ast.ValueSpec).Names {
					globals[n.Name] = true
				}
			}
		}
	}
	for _, d := range f.Decls {
		if fd, ok := d.(*ast.FuncDecl); ok && fd.Body != nil {
			x.function(fd, globals)
		}
	}
	// types whose waiting the explorer has to know about
	left := false
	ast.Inspect(f, func(n ast.Node) bool {
		if s, ok := n.(*ast.SelectorExpr); ok && x.sync != "" {
			if id, ok := s.X.(*ast.Ident); ok && id.Name == x.sync {
				if syncTypes[s.Sel.Name] {
					id.Name = name
					x.used = true
				} else {
					left = true
				}
			}
		}
		return true
	})
	if !x.used {
		return nil, false, nil
	}
	if x.sync != "" && !left {
		for _, d := range f.Decls {
			gd, ok := d.(*ast.GenDecl)
			if !ok || gd.Tok != token.IMPORT {
				continue
			}
			var keep []ast.Spec
			for _, s := range gd.Specs {
				if s.(*ast.ImportSpec).Path.Value != `"sync"` {
					keep = append(keep, s)
				}
			}
			gd.Specs = keep
		}
	}
	im := &ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{&ast.ImportSpec{Path: &ast.BasicLit{Kind: token.STRING, Value: `"` + pkgPath + `"`}}}}
	f.Decls = append([]ast.Decl{im}, f.Decls...)
	var out []ast.Decl
	for _, d := range f.Decls {
		if gd, ok := d.(*ast.GenDecl); ok && gd.Tok == token.IMPORT && len(gd.Specs) == 0 {
			continue
		}
		out = append(out, d)
	}
	f.Decls = out
	f.Comments = nil
	var b bytes.Buffer
	if err := (&printer.Config{Mode: printer.UseSpaces | printer.TabIndent, Tabwidth: 8}).Fprint(&b, fset, f); err != nil {
		return nil, false, err
	}
	return b.Bytes(), true, nil
}

// function instruments one declared function.
func (x *file) function(fd *ast.FuncDecl, globals map[string]bool) {
	outer := map[string]bool{} // parameters and receivers: what the caller may share
	for k := range globals {
		outer[k] = true
	}
	fields := []*ast.FieldList{fd.Recv, fd.Type.Params}
	for _, fl := range fields {
		if fl != nil {
			for _, fi := range fl.List {
				for _, n := range fi.Names {
					outer[n.Name] = true
				}
			}
		}
	}
	// names that goroutines and closures of this function share
	shared := map[string]bool{}
	hasGo := false
	ast.Inspect(fd.Body, func(n ast.Node) bool {
		switch n.(type) {
		case *ast.GoStmt, *ast.SendStmt, *ast.SelectStmt, *ast.ChanType:
			hasGo = true
		}
		if c, ok := n.(*ast.CallExpr); ok {
			if s, ok := c.Fun.(*ast.SelectorExpr); ok && s.Sel.Name == "Go" {
				hasGo = true
			}
		}
		return true
	})
	if hasGo {
		local := map[string]bool{}
		ast.Inspect(fd.Body, func(n ast.Node) bool {
			switch s := n.(type) {
			case *ast.AssignStmt:
				if s.Tok == token.DEFINE {
					for _, l := range s.Lhs {
						if id, ok := l.(*ast.Ident); ok {
							local[id.Name] = true
						}
					}
				}
			case *ast.ValueSpec:
				for _, id := range s.Names {
					local[id.Name] = true
				}
			}
			return true
		})
		for _, r := range []*ast.FieldList{fd.Recv, fd.Type.Params, fd.Type.Results} {
			if r != nil {
				for _, fi := range r.List {
					for _, n := range fi.Names {
						local[n.Name] = true
					}
				}
			}
		}
		ast.Inspect(fd.Body, func(n ast.Node) bool {
			fl, ok := n.(*ast.FuncLit)
			if !ok {
				return true
			}
			own := map[string]bool{}
			for _, fi := range fl.Type.Params.List {
				for _, n := range fi.Names {
					own[n.Name] = true
				}
			}
			ast.Inspect(fl.Body, func(n ast.Node) bool {
				switch s := n.(type) {
				case *ast.SelectorExpr:
					ast.Inspect(s.X, func(m ast.Node) bool {
						if id, ok := m.(*ast.Ident); ok && local[id.Name] && !own[id.Name] {
							shared[id.Name] = true
						}
						return true
					})
					return false
				case *ast.Ident:
					if local[s.Name] && !own[s.Name] {
						shared[s.Name] = true
					}
				}
				return true
			})
			return true
		})
	}
	x.block(fd.Body, fd.Name.Name, outer, shared)
}

func (x *file) point(site string, pos token.Pos) ast.Stmt {
	x.used = true
	p := x.fset.Position(pos)
	return &ast.ExprStmt{X: &ast.CallExpr{Fun: &ast.SelectorExpr{X: ast.NewIdent(name), Sel: ast.NewIdent("Point")},
		Args: []ast.Expr{&ast.BasicLit{Kind: token.STRING, Value: fmt.Sprintf("%q", fmt.Sprintf("%s:%d", site, p.Line))}}}}
}

func (x *file) block(b *ast.BlockStmt, fn string, outer, shared map[string]bool) {
	if b != nil {
		b.List = x.list(b.List, fn, outer, shared)
	}
}

func root(e ast.Expr) (string, bool) {
	heap := false
	for {
		switch s := e.(type) {
		case *ast.SelectorExpr:
			e, heap = s.X, true
		case *ast.IndexExpr:
			e, heap = s.X, true
		case *ast.StarExpr:
			e, heap = s.X, true
		case *ast.ParenExpr:
			e = s.X
		case *ast.Ident:
			return s.Name, heap
		default:
			return "", heap
		}
	}
}

// own walks the expressions of a statement but not the statements inside.
func own(s ast.Stmt, f func(n ast.Node) bool) {
	ast.Inspect(s, func(n ast.Node) bool {
		if n == nil {
			return false
		}
		switch n.(type) {
		case *ast.FuncLit, *ast.BlockStmt, *ast.CaseClause, *ast.CommClause:
			return false
		}
		return f(n)
	})
}

func (x *file) list(in []ast.Stmt, fn string, outer, shared map[string]bool) []ast.Stmt {
	var out []ast.Stmt
	for _, s := range in {
		lab, isLab := s.(*ast.LabeledStmt)
		inner := s
		for isLab {
			inner = lab.Stmt
			lab, isLab = inner.(*ast.LabeledStmt)
		}
		before, after := false, false
		switch st := inner.(type) {
		case *ast.AssignStmt:
			for _, l := range st.Lhs {
				n, heap := root(l)
				if heap && outer[n] {
					before = true
				}
			}
		case *ast.IncDecStmt:
			if n, heap := root(st.X); heap && outer[n] {
				before = true
			}
		case *ast.GoStmt, *ast.SendStmt, *ast.SelectStmt:
			before, after = true, true
		case *ast.RangeStmt:
			if len(shared) > 0 {
				if n, _ := root(st.X); shared[n] {
					before = true
				}
			}
		}
		_, isDefer := inner.(*ast.DeferStmt)
		_, isDecl := inner.(*ast.DeclStmt)
		if !isDecl {
			own(inner, func(n ast.Node) bool {
				switch e := n.(type) {
				case *ast.CallExpr:
					if sel, ok := e.Fun.(*ast.SelectorExpr); ok {
						if id, ok := sel.X.(*ast.Ident); ok && (x.atomic != "" && id.Name == x.atomic) {
							before = true
						}
						if x.sync != "" || x.atomic != "" {
							if syncCalls[sel.Sel.Name] && !isDefer {
								if len(e.Args) < 2 || sel.Sel.Name == "CompareAndSwap" {
									before = true
									if sel.Sel.Name == "Wait" || sel.Sel.Name == "Done" {
										after = true
									}
								}
							}
						}
					}
				case *ast.UnaryExpr:
					if e.Op == token.ARROW {
						before, after = true, true
					}
				case *ast.SelectorExpr:
					// only the operand can be a shared variable
					ast.Inspect(e.X, func(m ast.Node) bool {
						if id, ok := m.(*ast.Ident); ok && shared[id.Name] {
							before = true
						}
						return true
					})
				case *ast.Ident:
					if shared[e.Name] {
						before = true
					}
				}
				return true
			})
		}
		if isDefer {
			before = false
		}
		pos := s.Pos()
		x.inside(inner, fn, outer, shared)
		if g, ok := inner.(*ast.GoStmt); ok {
			r := x.spawn(g)
			if l, ok := s.(*ast.LabeledStmt); ok {
				l.Stmt = r
			} else {
				s = r
			}
		}
		if before {
			out = append(out, x.point(fn, pos))
		}
		out = append(out, s)
		switch inner.(type) {
		case *ast.ReturnStmt, *ast.BranchStmt:
			after = false
		}
		if after {
			out = append(out, x.point(fn+"+", pos))
		}
	}
	return out
}

// inside instruments the blocks and function literals within a statement.
func (x *file) inside(s ast.Stmt, fn string, outer, shared map[string]bool) {
	ast.Inspect(s, func(n ast.Node) bool {
		switch b := n.(type) {
		case *ast.BlockStmt:
			x.block(b, fn, outer, shared)
			return false
		case *ast.CaseClause:
			b.Body = x.list(b.Body, fn, outer, shared)
			return false
		case *ast.CommClause:
			b.Body = x.list(b.Body, fn, outer, shared)
			return false
		}
		return true
	})
}

func constant(e ast.Expr) bool {
	switch v := e.(type) {
	case *ast.BasicLit:
		return true
	case *ast.Ident:
		return v.Name == "nil" || v.Name == "true" || v.Name == "false"
	case *ast.UnaryExpr:
		return constant(v.X)
	case *ast.BinaryExpr:
		return constant(v.X) && constant(v.Y)
	}
	return false
}

// spawn turns "go f(a, b)" into a block that evaluates f, a and b and starts
// the call under control.
func (x *file) spawn(g *ast.GoStmt) ast.Stmt {
	x.used = true
	c := g.Call
	var pre []ast.Stmt
	bind := func(e ast.Expr) ast.Expr {
		x.n++
		id := ast.NewIdent(fmt.Sprintf("vsched%d", x.n))
		pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{id}, Tok: token.DEFINE, Rhs: []ast.Expr{e}})
		return ast.NewIdent(id.Name)
	}
	call := &ast.CallExpr{Fun: c.Fun, Ellipsis: c.Ellipsis}
	b, isId := c.Fun.(*ast.Ident)
	if !isId || !builtins[b.Name] {
		call.Fun = bind(c.Fun)
	}
	for _, a := range c.Args {
		if constant(a) {
			call.Args = append(call.Args, a)
		} else {
			call.Args = append(call.Args, bind(a))
		}
	}
	run := &ast.ExprStmt{X: &ast.CallExpr{Fun: &ast.SelectorExpr{X: ast.NewIdent(name), Sel: ast.NewIdent("Go")},
		Args: []ast.Expr{&ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: call}}}}}}}
	return &ast.BlockStmt{List: append(pre, run)}
}
