// instr rewrites the Go files of a package so that a scheduler can stop it
// before every statement (zzp.P) and at every lock operation (sync -> vsync).
//
//	instr <package dir> <output dir> <import path of vsync>
package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

func main() {
	dir, out, imp := os.Args[1], os.Args[2], os.Args[3]
	files, _ := filepath.Glob(filepath.Join(dir, "*.go"))
	for _, f := range files {
		base := filepath.Base(f)
		if strings.HasSuffix(base, "_test.go") || strings.HasPrefix(base, "_") || strings.HasPrefix(base, ".") {
			continue
		}
		src, err := os.ReadFile(f)
		check(err)
		res := rewrite(base, src, imp)
		check(os.WriteFile(filepath.Join(out, base), res, 0o644))
		fmt.Println(base)
	}
}

func check(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(1)
	}
}

type edit struct {
	at, end int
	text    string
}

func rewrite(name string, src []byte, imp string) []byte {
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, name, src, parser.ParseComments)
	check(err)
	off := func(p token.Pos) int { return fs.Position(p).Offset }
	var edits []edit
	points := 0
	ast.Inspect(f, func(n ast.Node) bool {
		switch n.(type) {
		case *ast.ChanType, *ast.SelectStmt, *ast.SendStmt, *ast.GoStmt:
			// blocking the scheduler cannot see
			fmt.Fprintln(os.Stderr, "unsupported: channels or goroutines in", name)
			os.Exit(3)
		}
		return true
	})
	stmts := func(l []ast.Stmt) {
		for _, s := range l {
			if _, ok := s.(*ast.EmptyStmt); ok {
				continue
			}
			edits = append(edits, edit{off(s.Pos()), off(s.Pos()), "zzp.P(); "})
			points++
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.BlockStmt:
			stmts(x.List)
		case *ast.CaseClause:
			stmts(x.Body)
		case *ast.CommClause:
			stmts(x.Body)
		}
		return true
	})
	// clauses are statements of a switch body too, but nothing may precede them
	clause := map[int]bool{}
	ast.Inspect(f, func(n ast.Node) bool {
		switch n.(type) {
		case *ast.CaseClause, *ast.CommClause:
			clause[off(n.Pos())] = true
		}
		return true
	})
	keep := edits[:0]
	for _, e := range edits {
		if !clause[e.at] {
			keep = append(keep, e)
		} else {
			points--
		}
	}
	edits = keep
	for _, i := range f.Imports {
		if i.Path.Value == `"sync"` {
			t := `"` + imp + `"`
			if i.Name == nil {
				t = "sync " + t
			}
			edits = append(edits, edit{off(i.Path.Pos()), off(i.Path.End()), t})
		}
	}
	if points > 0 {
		p := off(f.Name.End())
		edits = append(edits, edit{p, p, `; import zzp "` + imp + `"`})
	}
	sort.SliceStable(edits, func(i, j int) bool { return edits[i].at < edits[j].at })
	var b []byte
	last := 0
	for _, e := range edits {
		b = append(b, src[last:e.at]...)
		b = append(b, e.text...)
		last = e.end
	}
	return append(b, src[last:]...)
}
