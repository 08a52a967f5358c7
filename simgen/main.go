// simgen writes the overlay the simulation harness is built with: patched
// copies of a few standard-library files (scheduler, clock, randomness, file
// system calls) and instrumented copies of the sources under test, each with a
// preemption point before every statement.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

type edit struct{ old, new string }

var (
	goroot = flag.String("goroot", "/opt/veriftools/go1.24.13", "Go tree the harness is built with")
	repo   = flag.String("repo", "/repo", "tree under test")
	modc   = flag.String("modcache", "/root/go/pkg/mod", "module cache")
	out    = flag.String("out", "", "output directory")
	stdsrc = flag.String("std", "", "directory of added std files")
	deps   = flag.String("deps", "", "comma separated module-cache directories to instrument as well")
)

func die(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "simgen: "+f+"\n", a...)
	os.Exit(3)
}

func main() {
	reset := flag.Bool("resets", true, "write functions that reset package-level variables")
	flag.Parse()
	if *out == "" {
		die("-out is required")
	}
	repl := map[string]string{}
	put := func(target string, data []byte) {
		name := strings.ReplaceAll(strings.TrimPrefix(target, "/"), "/", "__")
		p := filepath.Join(*out, name)
		if old, err := os.ReadFile(p); err != nil || !bytes.Equal(old, data) {
			if err := os.WriteFile(p, data, 0o644); err != nil {
				die("%v", err)
			}
		}
		repl[target] = p
	}
	if err := os.MkdirAll(*out, 0o755); err != nil {
		die("%v", err)
	}
	for _, f := range sortedKeys(stdEdits) {
		p := filepath.Join(*goroot, "src", f)
		b, err := os.ReadFile(p)
		if err != nil {
			die("%v", err)
		}
		s := string(b)
		for _, e := range stdEdits[f] {
			if n := strings.Count(s, e.old); n != 1 {
				die("%s: anchor occurs %d times:\n%s", f, n, e.old)
			}
			s = strings.Replace(s, e.old, e.new, 1)
		}
		put(p, []byte(s))
	}
	added, _ := filepath.Glob(filepath.Join(*stdsrc, "*.go.txt"))
	for _, a := range added {
		b, err := os.ReadFile(a)
		if err != nil {
			die("%v", err)
		}
		base := strings.TrimSuffix(filepath.Base(a), ".txt")
		i := strings.LastIndex(base, "__")
		pkg := strings.ReplaceAll(base[:i], "__", "/")
		put(filepath.Join(*goroot, "src", pkg, base[i+2:]), b)
	}
	sites := &siteTable{}
	roots := []string{*repo}
	for _, d := range strings.Split(*deps, ",") {
		if d != "" {
			roots = append(roots, filepath.Join(*modc, d))
		}
	}
	resets := &resetter{dirs: map[string]map[string]bool{}, off: !*reset}
	for _, r := range roots {
		err := filepath.Walk(r, func(p string, fi os.FileInfo, err error) error {
			if err != nil {
				return err
			}
			rel, _ := filepath.Rel(r, p)
			if fi.IsDir() {
				b := filepath.Base(p)
				if p != r && (strings.HasPrefix(b, ".") || b == "testdata" || b == "example" || b == "vendor") {
					return filepath.SkipDir
				}
				return nil
			}
			if !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") || fi.Size() > 400_000 {
				return nil
			}
			src, err := os.ReadFile(p)
			if err != nil {
				return err
			}
			o, err := instrument(p, rel, src, sites, resets)
			if err != nil {
				// the compiler will report it
				return nil
			}
			if o != nil {
				put(p, o)
			}
			return nil
		})
		if err != nil {
			die("%v", err)
		}
	}
	b, _ := json.MarshalIndent(map[string]any{"Replace": repl}, "", " ")
	must(os.WriteFile(filepath.Join(*out, "overlay.json"), b, 0o644))
	sb, _ := json.Marshal(sites.names)
	must(os.WriteFile(filepath.Join(*out, "sites.json"), sb, 0o644))
	// drop stale generated files
	keep := map[string]bool{"overlay.json": true, "sites.json": true}
	for _, p := range repl {
		keep[filepath.Base(p)] = true
	}
	ents, _ := os.ReadDir(*out)
	for _, e := range ents {
		if !keep[e.Name()] && strings.HasSuffix(e.Name(), ".go") {
			os.Remove(filepath.Join(*out, e.Name()))
		}
	}
	fmt.Printf("simgen: %d files, %d yield sites\n", len(repl), len(sites.names))
}

func must(err error) {
	if err != nil {
		die("%v", err)
	}
}

func sortedKeys(m map[string][]edit) []string {
	var k []string
	for s := range m {
		k = append(k, s)
	}
	sort.Strings(k)
	return k
}

type siteTable struct{ names []string }

func (s *siteTable) add(n string) int {
	s.names = append(s.names, n)
	return len(s.names)
}

// instrument inserts a yield call before every statement of every function
// body, on the same line, so that positions in traces stay those of the source.
func instrument(path, rel string, src []byte, sites *siteTable, resets *resetter) ([]byte, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, path, src, parser.ParseComments)
	if err != nil {
		return nil, err
	}
	type ins struct {
		off  int
		text string
	}
	var list []ins
	line := func(p token.Pos) int { return fset.Position(p).Line }
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	yield := func(p token.Pos) string {
		return fmt.Sprintf("_verifsim.SimYield(%d);", sites.add(fmt.Sprintf("%s:%d", rel, line(p))))
	}
	stmts := func(l []ast.Stmt) {
		for _, s := range l {
			switch s.(type) {
			case *ast.EmptyStmt, *ast.CaseClause, *ast.CommClause:
				continue
			}
			list = append(list, ins{off(s.Pos()), yield(s.Pos())})
		}
	}
	inFunc := 0
	_ = inFunc
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.BlockStmt:
			if len(x.List) == 0 {
				return true
			}
			// the body of a switch or select holds clauses only
			switch x.List[0].(type) {
			case *ast.CaseClause, *ast.CommClause:
				return true
			}
			stmts(x.List)
		case *ast.CaseClause:
			stmts(x.Body)
		case *ast.CommClause:
			stmts(x.Body)
		case *ast.ForStmt:
			if len(x.Body.List) == 0 {
				list = append(list, ins{off(x.Body.Lbrace) + 1, yield(x.Body.Lbrace)})
			}
		case *ast.RangeStmt:
			if len(x.Body.List) == 0 {
				list = append(list, ins{off(x.Body.Lbrace) + 1, yield(x.Body.Lbrace)})
			}
		}
		return true
	})
	tail := resets.code(path, f, fset, src)
	if len(list) == 0 && tail == "" {
		return nil, nil
	}
	sort.SliceStable(list, func(i, j int) bool { return list[i].off < list[j].off })
	var b bytes.Buffer
	last := 0
	pk := off(f.Name.End())
	b.Write(src[:pk])
	b.WriteString("; import _verifsim \"runtime\"")
	last = pk
	for _, i := range list {
		if i.off < last {
			continue
		}
		b.Write(src[last:i.off])
		b.WriteString(i.text)
		last = i.off
	}
	b.Write(src[last:])
	b.WriteString(tail)
	return b.Bytes(), nil
}
