// instr REPO OUT SCHED writes copies of the repository's packages that call the scheduler, and OUT/overlay.json.
// It prints what it found that the scheduler cannot control.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
)

var marker = regexp.MustCompile(`(?m)^// Code generated .* DO NOT EDIT\.$`)

type edit struct {
	at, to int
	text   string
}

type file struct {
	src   []byte
	edits []edit
}

func (f *file) insert(at int, text string) { f.edits = append(f.edits, edit{at, at, text}) }

// render gives a part of the source with its edits.
func (f *file) render(from, to int) string {
	var b strings.Builder
	at := from
	for _, e := range f.edits {
		if e.at < from || e.to > to || e.at < at {
			continue
		}
		b.Write(f.src[at:e.at])
		b.WriteString(e.text)
		at = e.to
	}
	b.Write(f.src[at:to])
	return b.String()
}

func fail(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(1)
	}
}

func main() {
	repo, out, sched := os.Args[1], os.Args[2], os.Args[3]
	mod, err := os.ReadFile(filepath.Join(repo, "go.mod"))
	fail(err)
	path := ""
	for _, l := range strings.Split(string(mod), "\n") {
		if f := strings.Fields(l); len(f) == 2 && f[0] == "module" {
			path = f[1]
		}
	}
	overlay := map[string]string{filepath.Join(repo, "vsched", "vsched.go"): sched}
	uncontrolled := map[string]bool{}
	vars := map[string]map[string]bool{} // package variables by directory
	n := 0
	fail(walk(repo, func(p string, src []byte) error {
		tree, err := parser.ParseFile(token.NewFileSet(), p, src, 0)
		if err != nil {
			return err
		}
		dir := filepath.Dir(p)
		if vars[dir] == nil {
			vars[dir] = map[string]bool{}
		}
		for _, d := range tree.Decls {
			if g, ok := d.(*ast.GenDecl); ok && g.Tok == token.VAR {
				for _, s := range g.Specs {
					for _, n := range s.(*ast.ValueSpec).Names {
						vars[dir][n.Name] = n.Name != "_"
					}
				}
			}
		}
		return nil
	}))
	err = walk(repo, func(p string, src []byte) error {
		text, err := instrument(p, src, path, vars[filepath.Dir(p)], uncontrolled)
		if err != nil || text == "" {
			return err
		}
		n++
		to := filepath.Join(out, fmt.Sprintf("f%d.go", n))
		overlay[p] = to
		return os.WriteFile(to, []byte(text), 0o600)
	})
	fail(err)
	b, _ := json.Marshal(map[string]any{"Replace": overlay})
	fail(os.WriteFile(filepath.Join(out, "overlay.json"), b, 0o600))
	for k := range uncontrolled {
		fmt.Println(k)
	}
}

// walk visits the source files.
func walk(repo string, f func(p string, src []byte) error) error {
	return filepath.WalkDir(repo, func(p string, d os.DirEntry, err error) error {
		if err != nil {
			return err
		}
		if d.IsDir() {
			if strings.HasPrefix(d.Name(), ".") || d.Name() == "testdata" || d.Name() == "vendor" {
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
			return nil
		}
		src, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		return f(p, src)
	})
}

// mentions tells whether a statement itself, without the blocks in it, mentions a package variable.
func mentions(s ast.Stmt, vars map[string]bool) (found bool) {
	ast.Inspect(s, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.BlockStmt:
			return false
		case *ast.Ident:
			found = found || vars[n.Name]
		}
		return true
	})
	return
}

func instrument(name string, src []byte, path string, vars map[string]bool, uncontrolled map[string]bool) (string, error) {
	fset := token.NewFileSet()
	tree, err := parser.ParseFile(fset, name, src, parser.ParseComments)
	if err != nil {
		return "", err
	}
	if tree.Name.Name == "main" {
		return "", nil
	}
	generated := marker.Match(src)
	f := &file{src: src}
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	syncName := ""
	for _, im := range tree.Imports {
		if im.Path.Value == `"sync"` {
			syncName = "sync"
			if im.Name != nil {
				syncName = im.Name.Name
			}
		}
	}
	f.insert(off(tree.Name.End()), "; import vsched \""+path+"/vsched\"")
	stmts := func(list []ast.Stmt) {
		for _, s := range list {
			if generated && !mentions(s, vars) {
				continue // the generated parser works on its own state
			}
			if _, ok := s.(*ast.EmptyStmt); !ok {
				f.insert(off(s.Pos()), "vsched.P(); ")
			}
		}
	}
	var names []string
	ast.Inspect(tree, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.FuncDecl:
			if n.Body == nil {
				return true
			}
			if n.Recv == nil && n.Name.Name == "init" {
				nm := fmt.Sprintf("vschedInit%d", off(n.Pos()))
				names = append(names, nm)
				f.edits = append(f.edits, edit{off(n.Name.Pos()), off(n.Name.End()), nm})
			}
			if !generated {
				f.insert(off(n.Body.Lbrace)+1, "vsched.F(); ")
			}
		case *ast.FuncLit:
			if !generated {
				f.insert(off(n.Body.Lbrace)+1, "vsched.F(); ")
			}
		case *ast.BlockStmt:
			stmts(n.List)
		case *ast.CaseClause:
			stmts(n.Body)
		case *ast.CommClause:
			stmts(n.Body)
		case *ast.SelectorExpr:
			if x, ok := n.X.(*ast.Ident); ok && syncName != "" && x.Name == syncName {
				switch n.Sel.Name {
				case "Mutex", "RWMutex", "Once", "Pool", "OnceFunc", "OnceValue", "OnceValues":
					f.edits = append(f.edits, edit{off(x.Pos()), off(x.End()), "vsched"})
				case "Cond", "NewCond", "WaitGroup":
					uncontrolled["sync."+n.Sel.Name] = true
				}
			}
		case *ast.GoStmt:
			uncontrolled["go statement"] = true
		case *ast.ChanType:
			uncontrolled["channel"] = true
		}
		return true
	})
	// a switch body is a block of case clauses only: no statements there
	blocks := map[int]bool{}
	ast.Inspect(tree, func(n ast.Node) bool {
		if c, ok := n.(*ast.CaseClause); ok {
			blocks[off(c.Pos())] = true
		}
		if c, ok := n.(*ast.CommClause); ok {
			blocks[off(c.Pos())] = true
		}
		return true
	})
	var keep []edit
	for _, e := range f.edits {
		if !(e.text == "vsched.P(); " && blocks[e.at]) {
			keep = append(keep, e)
		}
	}
	f.edits = keep
	sort.SliceStable(f.edits, func(i, j int) bool { return f.edits[i].at < f.edits[j].at })

	var tail strings.Builder
	if syncName != "" {
		fmt.Fprintf(&tail, "\nvar _ %s.Locker\n", syncName)
	}
	for _, d := range tree.Decls {
		g, ok := d.(*ast.GenDecl)
		if !ok || g.Tok != token.VAR {
			continue
		}
		for _, s := range g.Specs {
			v := s.(*ast.ValueSpec)
			var ns []string
			for _, n := range v.Names {
				ns = append(ns, n.Name)
			}
			if len(v.Values) > 0 {
				var vs []string
				for _, e := range v.Values {
					vs = append(vs, f.render(off(e.Pos()), off(e.End())))
				}
				fmt.Fprintf(&tail, "\nfunc init() { vsched.OnReset(func() { %s = %s }) }\n", strings.Join(ns, ", "), strings.Join(vs, ", "))
				continue
			}
			for _, n := range ns {
				if n != "_" {
					fmt.Fprintf(&tail, "\nfunc init() { vsched.OnReset(func() { var z %s; %s = z }) }\n", f.render(off(v.Type.Pos()), off(v.Type.End())), n)
				}
			}
		}
	}
	for _, n := range names {
		fmt.Fprintf(&tail, "\nfunc init() { vsched.OnResetInit(%s); %s() }\n", n, n)
	}
	return f.render(0, len(src)) + "\n" + tail.String() + "\nvar _ = vsched.P\n", nil
}
