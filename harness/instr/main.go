// Command instr inserts calls of the scheduler in the Go files of a folder (a copy of the code under test)
// and replaces the package sync by one the scheduler knows. Only text is inserted, nothing is reformatted.
package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

type edit struct {
	off, del int
	text     string
}

// waits tells the scheduler about a statement that may wait for something it does not control, or that lets
// other threads go on.
func waits(s ast.Stmt) string {
	marks := map[string]bool{}
	switch s.(type) {
	case *ast.GoStmt:
		marks["Spawned"] = true
	case *ast.SelectStmt:
		marks["MayBlock"] = true
	}
	if _, ok := s.(*ast.LabeledStmt); !ok {
		ast.Inspect(s, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.FuncLit:
				return false
			case *ast.BlockStmt:
				return ast.Node(s) == n
			case *ast.SendStmt, *ast.RangeStmt:
				marks["MayBlock"] = true
			case *ast.UnaryExpr:
				if x.Op == token.ARROW {
					marks["MayBlock"] = true
				}
			case *ast.SelectorExpr:
				if p, ok := x.X.(*ast.Ident); ok && (p.Name == "runtime" && x.Sel.Name == "Gosched" || p.Name == "time" && x.Sel.Name == "Sleep") {
					marks["Yield"] = true
				}
			}
			return true
		})
	}
	out := ""
	for _, m := range []string{"Yield", "Spawned", "MayBlock"} {
		if marks[m] {
			out += "vsched." + m + "(); "
		}
	}
	return out
}

func rewrite(path string) error {
	src, err := os.ReadFile(path)
	if err != nil {
		return err
	}
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, path, src, parser.ParseComments)
	if err != nil {
		return err
	}
	off := func(p token.Pos) int { return fs.Position(p).Offset }
	var es []edit
	list := func(l []ast.Stmt) {
		for _, s := range l {
			if _, ok := s.(*ast.EmptyStmt); ok {
				continue
			}
			es = append(es, edit{off(s.Pos()), 0, "vsched.Point(); " + waits(s)})
		}
	}
	enter := func(b *ast.BlockStmt) {
		if b != nil {
			es = append(es, edit{off(b.Lbrace) + 1, 0, "vsched.Enter(); "})
		}
	}
	// Functions of the initialisation of variables run before anything is concurrent, they are harmless.
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.FuncDecl:
			enter(x.Body)
		case *ast.FuncLit:
			enter(x.Body)
		case *ast.SwitchStmt:
			for _, c := range x.Body.List {
				list(c.(*ast.CaseClause).Body)
			}
		case *ast.TypeSwitchStmt:
			for _, c := range x.Body.List {
				list(c.(*ast.CaseClause).Body)
			}
		case *ast.SelectStmt:
			for _, c := range x.Body.List {
				list(c.(*ast.CommClause).Body)
			}
		case *ast.BlockStmt:
			clauses := false
			for _, s := range x.List {
				switch s.(type) {
				case *ast.CaseClause, *ast.CommClause:
					clauses = true
				}
			}
			if !clauses {
				list(x.List)
			}
		}
		return true
	})
	if len(es) == 0 {
		return nil
	}
	for _, im := range f.Imports {
		if im.Path.Value == `"sync"` {
			name := ""
			if im.Name == nil {
				name = "sync "
			}
			es = append(es, edit{off(im.Path.Pos()), len(im.Path.Value), name + `"tslverif/sched/vsync"`})
		}
	}
	es = append(es, edit{off(f.Name.End()), 0, `; import vsched "tslverif/sched"`})
	sort.SliceStable(es, func(a, b int) bool { return es[a].off < es[b].off })
	var out strings.Builder
	at := 0
	for _, e := range es {
		out.Write(src[at:e.off])
		out.WriteString(e.text)
		at = e.off + e.del
	}
	out.Write(src[at:])
	return os.WriteFile(path, []byte(out.String()), 0644)
}

func main() {
	for _, dir := range os.Args[1:] {
		err := filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
			if err != nil {
				return err
			}
			if fi.IsDir() || !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
				return nil
			}
			return rewrite(p)
		})
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(1)
		}
	}
}
