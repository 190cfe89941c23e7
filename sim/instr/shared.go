package main

import (
	"go/ast"
	"go/token"
	"go/types"
)

// shared finds the statements that touch state several goroutines can reach:
// package variables, synchronisation, channels, and writes to fields. The
// scheduler can prefer to switch before and after them. This only guides the
// search; what is reported never depends on it.
type shared struct {
	info *types.Info
	pkg  *types.Package
	vars map[*types.Var]bool // package variables that change after init
}

// local are types whose values belong to one call.
var local = map[string]bool{"Result": true, "ResultErrorFields": true, "JsonContext": true}

func newShared(files []*ast.File, info *types.Info, pkg *types.Package) *shared {
	s := &shared{info: info, pkg: pkg, vars: map[*types.Var]bool{}}
	for _, f := range files {
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil || fd.Recv == nil && fd.Name.Name == "init" {
				continue
			}
			ast.Inspect(fd.Body, func(n ast.Node) bool {
				id, ok := n.(*ast.Ident)
				if !ok {
					return true
				}
				v, ok := info.Uses[id].(*types.Var)
				if !ok || v.Pkg() != pkg || v.Parent() != pkg.Scope() {
					return true
				}
				switch t := v.Type().Underlying().(type) {
				case *types.Basic:
					// only if it is ever assigned, below
				case *types.Pointer:
					if n, ok := t.Elem().(*types.Named); !ok || n.Obj().Pkg() == nil || n.Obj().Pkg().Path() != "regexp" {
						s.vars[v] = true
					}
				default:
					s.vars[v] = true
				}
				return true
			})
			ast.Inspect(fd.Body, func(n ast.Node) bool {
				mark := func(e ast.Expr) {
					if id, ok := e.(*ast.Ident); ok {
						if v, ok := info.Uses[id].(*types.Var); ok && v.Parent() == pkg.Scope() {
							s.vars[v] = true
						}
					}
				}
				switch x := n.(type) {
				case *ast.AssignStmt:
					for _, l := range x.Lhs {
						mark(l)
					}
				case *ast.IncDecStmt:
					mark(x.X)
				case *ast.UnaryExpr:
					if x.Op == token.AND {
						mark(x.X)
					}
				}
				return true
			})
		}
	}
	return s
}

func syncType(t types.Type) bool {
	if t == nil {
		return false
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return false
	}
	switch n.Obj().Pkg().Path() {
	case "sync", "sync/atomic":
		return true
	}
	return false
}

// touches looks at what a statement itself evaluates, not at its body.
func (s *shared) touches(st ast.Stmt) bool {
	for {
		l, ok := st.(*ast.LabeledStmt)
		if !ok {
			break
		}
		st = l.Stmt
	}
	var parts []ast.Node
	add := func(n ast.Node) { parts = append(parts, n) }
	switch x := st.(type) {
	case *ast.IfStmt:
		if x.Init != nil {
			add(x.Init)
		}
		add(x.Cond)
	case *ast.ForStmt:
		if x.Init != nil {
			add(x.Init)
		}
		if x.Cond != nil {
			add(x.Cond)
		}
	case *ast.RangeStmt:
		add(x.X)
	case *ast.SwitchStmt:
		if x.Init != nil {
			add(x.Init)
		}
		if x.Tag != nil {
			add(x.Tag)
		}
	case *ast.TypeSwitchStmt:
		if x.Init != nil {
			add(x.Init)
		}
		add(x.Assign)
	case *ast.BlockStmt:
		return false
	case *ast.SelectStmt, *ast.GoStmt, *ast.SendStmt:
		return true
	default:
		add(st)
	}
	hit := false
	for _, p := range parts {
		ast.Inspect(p, func(n ast.Node) bool {
			if hit {
				return false
			}
			switch x := n.(type) {
			case *ast.FuncLit:
				return false
			case *ast.Ident:
				if v, ok := s.info.Uses[x].(*types.Var); ok && s.vars[v] {
					hit = true
				}
				if pn, ok := s.info.Uses[x].(*types.PkgName); ok && (pn.Imported().Path() == "sync" || pn.Imported().Path() == "sync/atomic") {
					hit = true
				}
			case *ast.SelectorExpr:
				if sel := s.info.Selections[x]; sel != nil && (syncType(sel.Recv()) || syncType(sel.Type())) {
					hit = true
				}
			case *ast.UnaryExpr:
				if x.Op == token.ARROW {
					hit = true
				}
			case *ast.AssignStmt:
				for _, l := range x.Lhs {
					hit = hit || s.field(l)
				}
			case *ast.IncDecStmt:
				hit = hit || s.field(x.X)
			}
			return true
		})
	}
	return hit
}

// field: e is a place inside a struct of the library.
func (s *shared) field(e ast.Expr) bool {
	for {
		switch x := e.(type) {
		case *ast.IndexExpr:
			e = x.X
		case *ast.ParenExpr:
			e = x.X
		case *ast.StarExpr:
			return true
		case *ast.SelectorExpr:
			sel := s.info.Selections[x]
			if sel == nil {
				return false
			}
			t := sel.Recv()
			if p, ok := t.Underlying().(*types.Pointer); ok {
				t = p.Elem()
			}
			n, ok := t.(*types.Named)
			return ok && n.Obj().Pkg() == s.pkg && !local[n.Obj().Name()]
		default:
			return false
		}
	}
}
