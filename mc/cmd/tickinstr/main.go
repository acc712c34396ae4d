// tickinstr REPO OUT TICK writes copies of the repository's sources that count function calls and loop rounds, and OUT/overlay.json.
// With a fourth argument, calls of standard functions that TICK/std.go has are replaced by those.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

type edit struct {
	from, to int
	text     string
}

func fail(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(1)
	}
}

func main() {
	repo, out, tick := os.Args[1], os.Args[2], os.Args[3]
	mod, err := os.ReadFile(filepath.Join(repo, "go.mod"))
	fail(err)
	path := ""
	for _, l := range strings.Split(string(mod), "\n") {
		if f := strings.Fields(l); len(f) == 2 && f[0] == "module" {
			path = strings.Trim(f[1], `"`)
		}
	}
	replace := map[string]string{filepath.Join(repo, "vtick", "vtick.go"): filepath.Join(tick, "vtick.go")}
	std := map[string]bool{}
	if len(os.Args) > 4 {
		replace[filepath.Join(repo, "vtick", "std.go")] = filepath.Join(tick, "std.go")
		f, err := parser.ParseFile(token.NewFileSet(), filepath.Join(tick, "std.go"), nil, 0)
		fail(err)
		for _, d := range f.Decls {
			if d, ok := d.(*ast.FuncDecl); ok && d.Name.IsExported() {
				std[d.Name.Name] = true
			}
		}
	}
	n := 0
	fail(filepath.WalkDir(repo, func(p string, d os.DirEntry, err error) error {
		if err != nil {
			return err
		}
		if d.IsDir() && p != repo && (strings.HasPrefix(d.Name(), ".") || d.Name() == "testdata" || d.Name() == "vendor") {
			return filepath.SkipDir
		}
		if d.IsDir() || !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
			return nil
		}
		src, err := os.ReadFile(p)
		fail(err)
		fs := token.NewFileSet()
		f, err := parser.ParseFile(fs, p, src, parser.ParseComments)
		fail(err)
		if f.Name.Name == "main" {
			return nil
		}
		var at []edit
		mark := func(b *ast.BlockStmt) {
			if b != nil {
				i := fs.Position(b.Lbrace).Offset + 1
				at = append(at, edit{i, i, " vtick.T();"})
			}
		}
		imported := map[string]string{}
		for _, i := range f.Imports {
			if p := strings.Trim(i.Path.Value, `"`); i.Name == nil {
				imported[p[strings.LastIndex(p, "/")+1:]] = p
			}
		}
		keep := map[string]string{}
		ast.Inspect(f, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.FuncDecl:
				mark(n.Body)
			case *ast.FuncLit:
				mark(n.Body)
			case *ast.ForStmt:
				mark(n.Body)
			case *ast.RangeStmt:
				mark(n.Body)
			case *ast.SelectorExpr:
				id, ok := n.X.(*ast.Ident)
				if !ok || id.Obj != nil {
					break
				}
				p, to := imported[id.Name], strings.ToUpper(id.Name[:1])+id.Name[1:]+n.Sel.Name
				if std[to] && (!strings.Contains(p, "/") || p == "unicode/utf8") {
					at = append(at, edit{fs.Position(n.Pos()).Offset, fs.Position(n.End()).Offset, "vtick." + to})
					keep[id.Name] = id.Name + "." + n.Sel.Name
				}
			}
			return true
		})
		if len(at) == 0 {
			return nil
		}
		sort.Slice(at, func(i, j int) bool { return at[i].from < at[j].from })
		var b strings.Builder
		last := fs.Position(f.Name.End()).Offset
		b.Write(src[:last])
		fmt.Fprintf(&b, "; import vtick %q", path+"/vtick")
		for _, e := range at {
			b.Write(src[last:e.from])
			b.WriteString(e.text)
			last = e.to
		}
		b.Write(src[last:])
		for p, use := range keep {
			if p == "slices" {
				use += "[[]int]"
			}
			fmt.Fprintf(&b, "\nvar _ = %s\n", use)
		}
		n++
		to := filepath.Join(out, fmt.Sprintf("%d.go", n))
		fail(os.WriteFile(to, []byte(b.String()), 0o644))
		replace[p] = to
		return nil
	}))
	j, err := json.Marshal(map[string]any{"Replace": replace})
	fail(err)
	fail(os.WriteFile(filepath.Join(out, "overlay.json"), j, 0o644))
}
