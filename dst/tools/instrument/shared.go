package main

import (
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"strings"
)

// mapNames are the names of variables, fields and parameters that are maps as far
// as their declarations show. A name may stand for something else elsewhere, so
// __dst.Map looks at what it is given.
var mapNames = map[string]bool{}
var mapTypes = map[string]bool{}

func collectMaps(dir string) {
	var files []*ast.File
	filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err == nil && fi.Mode().IsRegular() && strings.HasSuffix(p, ".go") && !strings.HasSuffix(p, "_test.go") {
			if f, err := parser.ParseFile(token.NewFileSet(), p, nil, parser.SkipObjectResolution); err == nil {
				files = append(files, f)
			}
		}
		return nil
	})
	each := func(visit func(ast.Node) bool) {
		for _, f := range files {
			ast.Inspect(f, visit)
		}
	}
	each(func(n ast.Node) bool {
		if t, ok := n.(*ast.TypeSpec); ok && isMapType(t.Type) {
			mapTypes[t.Name.Name] = true
		}
		return true
	})
	each(func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.Field:
			if isMapType(n.Type) {
				for _, x := range n.Names {
					mapNames[x.Name] = true
				}
			}
		case *ast.ValueSpec:
			for i, x := range n.Names {
				if isMapType(n.Type) || i < len(n.Values) && isMapValue(n.Values[i]) {
					mapNames[x.Name] = true
				}
			}
		case *ast.AssignStmt:
			for i, l := range n.Lhs {
				if i < len(n.Rhs) && len(n.Lhs) == len(n.Rhs) && isMapValue(n.Rhs[i]) {
					switch l := l.(type) {
					case *ast.Ident:
						mapNames[l.Name] = true
					case *ast.SelectorExpr:
						mapNames[l.Sel.Name] = true
					}
				}
			}
		}
		return true
	})
	delete(mapNames, "_")
}

func isMapType(t ast.Expr) bool {
	switch t := t.(type) {
	case *ast.MapType:
		return true
	case *ast.Ident:
		return mapTypes[t.Name]
	}
	return false
}

func isMapValue(e ast.Expr) bool {
	switch e := e.(type) {
	case *ast.CompositeLit:
		return e.Type != nil && isMapType(e.Type)
	case *ast.CallExpr:
		if id, ok := e.Fun.(*ast.Ident); ok && id.Name == "make" && len(e.Args) > 0 {
			return isMapType(e.Args[0])
		}
	}
	return false
}

// root is the identifier a chain of selectors starts with.
func root(e ast.Expr) *ast.Ident {
	for {
		switch x := e.(type) {
		case *ast.Ident:
			return x
		case *ast.SelectorExpr:
			e = x.X
		default:
			return nil
		}
	}
}

func mapName(e ast.Expr) bool {
	if root(e) == nil {
		return false
	}
	switch e := e.(type) {
	case *ast.Ident:
		return mapNames[e.Name]
	case *ast.SelectorExpr:
		return mapNames[e.Sel.Name]
	}
	return false
}

type access struct {
	x     ast.Expr
	write bool
}

// mapAccesses are the map accesses a statement certainly begins with.
func mapAccesses(s ast.Stmt) (out []access) {
	defined := map[string]bool{}
	bad := false
	var look func(n ast.Node)
	look = func(n ast.Node) {
		if n == nil {
			return
		}
		ast.Inspect(n, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.FuncLit:
				return false
			case *ast.UnaryExpr:
				if n.Op == token.ARROW {
					bad = true
				}
			case *ast.BinaryExpr:
				if n.Op == token.LAND || n.Op == token.LOR {
					look(n.X)
					return false
				}
			case *ast.IndexExpr:
				if mapName(n.X) {
					out = append(out, access{n.X, false})
				}
			case *ast.CallExpr:
				if id, ok := n.Fun.(*ast.Ident); ok && (id.Name == "delete" || id.Name == "clear") && len(n.Args) > 0 && mapName(n.Args[0]) {
					out = append(out, access{n.Args[0], true})
				}
			}
			return true
		})
	}
	simple := func(s ast.Stmt) {
		switch s := s.(type) {
		case nil:
		case *ast.AssignStmt:
			for _, l := range s.Lhs {
				if x, ok := l.(*ast.IndexExpr); ok && s.Tok != token.DEFINE && mapName(x.X) {
					out = append(out, access{x.X, true})
					look(x.Index)
				} else if s.Tok != token.DEFINE {
					look(l)
				}
			}
			for _, r := range s.Rhs {
				look(r)
			}
			if s.Tok == token.DEFINE {
				for _, l := range s.Lhs {
					if id, ok := l.(*ast.Ident); ok {
						defined[id.Name] = true
					}
				}
			}
		case *ast.IncDecStmt:
			if x, ok := s.X.(*ast.IndexExpr); ok && mapName(x.X) {
				out = append(out, access{x.X, true})
			}
		case *ast.ExprStmt:
			look(s.X)
		}
	}
	switch s := s.(type) {
	case *ast.AssignStmt:
		simple(s)
	case *ast.IncDecStmt, *ast.ExprStmt:
		simple(s)
	case *ast.ReturnStmt:
		for _, r := range s.Results {
			look(r)
		}
	case *ast.IfStmt:
		simple(s.Init)
		if s.Init == nil || len(defined) > 0 {
			look(s.Cond)
		}
		out = without(out, defined)
	case *ast.SwitchStmt:
		simple(s.Init)
		look(s.Tag)
		out = without(out, defined)
	case *ast.ForStmt:
		simple(s.Init)
		out = without(out, defined)
	case *ast.RangeStmt:
		if mapName(s.X) {
			out = append(out, access{s.X, false})
		}
	}
	if bad {
		return nil
	}
	return out
}

func without(in []access, defined map[string]bool) (out []access) {
	for _, a := range in {
		if !defined[root(a.x).Name] {
			out = append(out, a)
		}
	}
	return
}

// scope is what rmw needs to know of the function around a statement.
type scope struct {
	spawns bool            // it starts goroutines
	local  map[string]bool // names declared in it
}

func scopeOf(d ast.Decl) scope {
	sc := scope{local: map[string]bool{}}
	ast.Inspect(d, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.GoStmt:
			sc.spawns = true
		case *ast.CallExpr:
			// Functions given to something else may run concurrently as well.
			for _, a := range n.Args {
				if _, ok := a.(*ast.FuncLit); ok {
					sc.spawns = true
				}
			}
		case *ast.Field:
			for _, x := range n.Names {
				sc.local[x.Name] = true
			}
		case *ast.ValueSpec:
			for _, x := range n.Names {
				sc.local[x.Name] = true
			}
		case *ast.AssignStmt:
			if n.Tok == token.DEFINE {
				for _, l := range n.Lhs {
					if id, ok := l.(*ast.Ident); ok {
						sc.local[id.Name] = true
					}
				}
			}
		case *ast.RangeStmt:
			if n.Tok == token.DEFINE {
				for _, l := range []ast.Expr{n.Key, n.Value} {
					if id, ok := l.(*ast.Ident); ok {
						sc.local[id.Name] = true
					}
				}
			}
		}
		return true
	})
	return sc
}

// pure expressions can be evaluated twice.
func pure(e ast.Expr) bool {
	switch e := e.(type) {
	case *ast.Ident:
		return e.Name != "_"
	case *ast.BasicLit:
		return true
	case *ast.SelectorExpr:
		return pure(e.X)
	case *ast.IndexExpr:
		return pure(e.X) && pure(e.Index)
	}
	return false
}

// rmw is the variable a statement reads, changes and writes back, if other
// goroutines might do the same.
func rmw(s ast.Stmt, sc scope, text func(ast.Node) string) ast.Expr {
	var x ast.Expr
	switch s := s.(type) {
	case *ast.IncDecStmt:
		x = s.X
	case *ast.AssignStmt:
		if len(s.Lhs) != 1 || len(s.Rhs) != 1 || s.Tok == token.DEFINE {
			return nil
		}
		x = s.Lhs[0]
		if s.Tok == token.ASSIGN {
			xs, found := text(x), false
			ast.Inspect(s.Rhs[0], func(n ast.Node) bool {
				if _, ok := n.(*ast.FuncLit); ok {
					return false
				}
				if e, ok := n.(ast.Expr); ok && text(e) == xs {
					found = true
				}
				return !found
			})
			if !found {
				return nil
			}
		}
	}
	if x == nil || !pure(x) {
		return nil
	}
	if id, ok := x.(*ast.Ident); ok && sc.local[id.Name] && !sc.spawns {
		return nil
	}
	return x
}
