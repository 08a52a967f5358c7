package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"strings"
)

// resetter finds the package-level variables of the tree under test that
// functions may change, and writes functions that give them their first values
// again, so that the harness can put the library in the state of a new process.
type resetter struct {
	off  bool
	n    int
	dirs map[string]map[string]bool // the variables of a package that may change
}

// settable are variables for users to set: they are the harness's.
var settable = map[string]bool{"CachedDir": true}

// changing returns the variables of the package in dir that functions may change.
func (rs *resetter) changing(dir string) map[string]bool {
	if m, ok := rs.dirs[dir]; ok {
		return m
	}
	m := map[string]bool{}
	rs.dirs[dir] = m
	vars := map[string]bool{}
	names, _ := filepath.Glob(filepath.Join(dir, "*.go"))
	var files []*ast.File
	for _, p := range names {
		if strings.HasSuffix(p, "_test.go") {
			continue
		}
		src, err := os.ReadFile(p)
		if err != nil {
			continue
		}
		f, err := parser.ParseFile(token.NewFileSet(), p, src, 0)
		if err != nil {
			continue
		}
		files = append(files, f)
		if strings.HasSuffix(p, "_verif.go") {
			continue // the harness's own
		}
		for _, d := range f.Decls {
			if g, ok := d.(*ast.GenDecl); ok && g.Tok == token.VAR {
				for _, sp := range g.Specs {
					for _, id := range sp.(*ast.ValueSpec).Names {
						if id.Name != "_" && !settable[id.Name] && !constant(sp.(*ast.ValueSpec)) {
							vars[id.Name] = true
						}
					}
				}
			}
		}
	}
	inInit := map[string]bool{}
	// by is a use by name alone: what is passed on may be changed there, unless it is a number or text
	scalar := map[string]bool{}
	for _, f := range files {
		for _, d := range f.Decls {
			if g, ok := d.(*ast.GenDecl); ok && g.Tok == token.VAR {
				for _, sp := range g.Specs {
					v := sp.(*ast.ValueSpec)
					for i, id := range v.Names {
						if i < len(v.Values) {
							_, scalar[id.Name] = v.Values[i].(*ast.BasicLit)
						}
					}
				}
			}
		}
	}
	for _, f := range files {
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil {
				continue
			}
			use := func(e ast.Expr, set map[string]bool) {
				if id := root(e); id != nil && vars[id.Name] {
					set[id.Name] = true
				}
			}
			by := func(e ast.Expr, set map[string]bool) {
				if id, ok := e.(*ast.Ident); ok && !scalar[id.Name] {
					use(id, set)
				}
			}
			set := m
			if fd.Recv == nil && fd.Name.Name == "init" {
				set = inInit
			}
			ast.Inspect(fd.Body, func(n ast.Node) bool {
				switch x := n.(type) {
				case *ast.AssignStmt:
					for _, l := range x.Lhs {
						use(l, set)
					}
					for _, e := range x.Rhs {
						by(e, set)
					}
				case *ast.IncDecStmt:
					use(x.X, set)
				case *ast.UnaryExpr:
					if x.Op == token.AND || x.Op == token.ARROW {
						use(x.X, set)
					}
				case *ast.SendStmt:
					use(x.Chan, set)
				case *ast.ReturnStmt:
					for _, e := range x.Results {
						by(e, set)
					}
				case *ast.KeyValueExpr:
					by(x.Value, set)
				case *ast.CallExpr:
					switch fun := x.Fun.(type) {
					case *ast.Ident:
						use(fun, set)
						if fun.Name == "len" || fun.Name == "cap" {
							return true
						}
					case *ast.SelectorExpr:
						use(fun.X, set)
					}
					for _, a := range x.Args {
						by(a, set)
					}
				}
				return true
			})
		}
	}
	for v := range inInit {
		delete(m, v) // its first value comes from a function that runs once
	}
	return m
}

// constant tells variables whose value is fixed from those with a state: errors,
// patterns, tables of characters; and names and numbers, unless they are assigned to.
func constant(v *ast.ValueSpec) bool {
	for _, e := range v.Values {
		switch x := e.(type) {
		case *ast.CallExpr:
			if s, ok := x.Fun.(*ast.SelectorExpr); ok {
				if p, ok := s.X.(*ast.Ident); ok {
					switch p.Name + "." + s.Sel.Name {
					case "errors.New", "fmt.Errorf", "regexp.MustCompile":
						return true
					}
				}
			}
		case *ast.UnaryExpr:
			if c, ok := x.X.(*ast.CompositeLit); ok {
				if s, ok := c.Type.(*ast.SelectorExpr); ok && s.Sel.Name == "RangeTable" {
					return true
				}
			}
		}
	}
	return false
}

// root is the variable at the start of a selector, index or dereference.
func root(e ast.Expr) *ast.Ident {
	for {
		switch x := e.(type) {
		case *ast.Ident:
			return x
		case *ast.SelectorExpr:
			e = x.X
		case *ast.IndexExpr:
			e = x.X
		case *ast.SliceExpr:
			e = x.X
		case *ast.StarExpr:
			e = x.X
		case *ast.ParenExpr:
			e = x.X
		default:
			return nil
		}
	}
}

// code is what is added to a file: a function that resets its variables.
func (rs *resetter) code(path string, f *ast.File, fset *token.FileSet, src []byte) string {
	if rs.off || strings.HasSuffix(path, "_verif.go") || f.Name.Name == "main" {
		return ""
	}
	change := rs.changing(filepath.Dir(path))
	text := func(n ast.Node) string {
		return string(src[fset.Position(n.Pos()).Offset:fset.Position(n.End()).Offset])
	}
	var out strings.Builder
	var names []string
	for _, d := range f.Decls {
		g, ok := d.(*ast.GenDecl)
		if !ok || g.Tok != token.VAR {
			continue
		}
		for _, sp := range g.Specs {
			v := sp.(*ast.ValueSpec)
			typ := ""
			if v.Type != nil {
				typ = text(v.Type)
			}
			if typ == "sync.Mutex" || typ == "sync.RWMutex" {
				continue // free between operations
			}
			if len(v.Values) > 0 && len(v.Values) != len(v.Names) {
				var l []string
				hit := false
				for _, id := range v.Names {
					n := id.Name
					hit = hit || change[n]
					if n != "_" && change[n] {
						names = append(names, "&"+n)
					}
					if !change[n] {
						n = "_"
					}
					l = append(l, n)
				}
				if hit {
					fmt.Fprintf(&out, "\t%s = %s\n", strings.Join(l, ", "), text(v.Values[0]))
				}
				continue
			}
			for i, id := range v.Names {
				if !change[id.Name] {
					continue
				}
				names = append(names, "&"+id.Name)
				if len(v.Values) == 0 {
					fmt.Fprintf(&out, "\t%s = *new(%s)\n", id.Name, typ)
					continue
				}
				fmt.Fprintf(&out, "\t%s = %s\n", id.Name, text(v.Values[i]))
			}
		}
	}
	if out.Len() == 0 {
		return ""
	}
	rs.n++
	return fmt.Sprintf("\n//go:norace\nfunc _verifReset%d() {\n%s}\n\nfunc init() { _verifsim.SimState(_verifReset%d, %s) }\n", rs.n, out.String(), rs.n, strings.Join(names, ", "))
}
