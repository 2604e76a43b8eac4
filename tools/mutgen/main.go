// mutgen lists small changes to a Go file, one JSON object per line:
// {"file","func","line","off","end","new","what"}.  Development tool only.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strings"
)

type mut struct {
	File string `json:"file"`
	Func string `json:"func"`
	Line int    `json:"line"`
	Off  int    `json:"off"`
	End  int    `json:"end"`
	New  string `json:"new"`
	What string `json:"what"`
}

func main() {
	for _, path := range os.Args[1:] {
		one(path)
	}
}

func one(path string) {
	src, err := os.ReadFile(path)
	if err != nil {
		panic(err)
	}
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, path, src, 0)
	if err != nil {
		panic(err)
	}
	enc := json.NewEncoder(os.Stdout)
	for _, d := range f.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok || fd.Body == nil {
			continue
		}
		name := fd.Name.Name
		if fd.Recv != nil {
			t := string(src[fset.Position(fd.Recv.List[0].Type.Pos()).Offset:fset.Position(fd.Recv.List[0].Type.End()).Offset])
			name = strings.TrimPrefix(t, "*") + "." + name
		}
		emit := func(from, to token.Pos, s, what string) {
			a, b := fset.Position(from), fset.Position(to)
			old := string(src[a.Offset:b.Offset])
			if old == s {
				return
			}
			if len(old) > 60 {
				old = old[:60] + "..."
			}
			enc.Encode(mut{path, name, a.Line, a.Offset, b.Offset, s, fmt.Sprintf("%s: %s -> %s", what, strings.Join(strings.Fields(old), " "), s)})
		}
		text := func(n ast.Node) string {
			return string(src[fset.Position(n.Pos()).Offset:fset.Position(n.End()).Offset])
		}
		stmts := func(list []ast.Stmt) {
			for i, s := range list {
				switch x := s.(type) {
				case *ast.ExprStmt, *ast.IncDecStmt, *ast.DeferStmt:
					emit(s.Pos(), s.End(), "", "delete")
				case *ast.AssignStmt:
					if x.Tok != token.DEFINE {
						emit(s.Pos(), s.End(), "", "delete")
					}
				case *ast.IfStmt:
					if x.Else == nil {
						emit(s.Pos(), s.End(), "", "delete if")
					}
				case *ast.ForStmt, *ast.RangeStmt:
					emit(s.Pos(), s.End(), "", "delete loop")
				}
				if i+1 < len(list) {
					t := list[i+1]
					_, d1 := s.(*ast.ReturnStmt)
					_, d2 := t.(*ast.ReturnStmt)
					if !d1 && !d2 {
						emit(s.Pos(), t.End(), text(t)+"\n"+text(s), "swap")
					}
				}
			}
		}
		ast.Inspect(fd.Body, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.BlockStmt:
				stmts(x.List)
			case *ast.BinaryExpr:
				alt := map[token.Token][]string{
					token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"+"}, token.QUO: {"*"}, token.REM: {"/"},
					token.LSS: {"<="}, token.LEQ: {"<"}, token.GTR: {">="}, token.GEQ: {">"}, token.EQL: {"!="}, token.NEQ: {"=="},
					token.AND: {"|"}, token.OR: {"&", "^"}, token.XOR: {"|"}, token.SHL: {">>"}, token.SHR: {"<<"},
					token.LAND: {"||"}, token.LOR: {"&&"}, token.AND_NOT: {"&", "^"},
				}
				for _, a := range alt[x.Op] {
					emit(x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), a, "operator")
				}
			case *ast.BasicLit:
				if x.Kind == token.INT {
					emit(x.Pos(), x.End(), "("+x.Value+"+1)", "constant")
					emit(x.Pos(), x.End(), "("+x.Value+"-1)", "constant")
				}
			case *ast.SelectorExpr:
				alt := map[string]string{"off": "boff", "boff": "off", "cap": "bcap", "bcap": "cap",
					"BufferOverreadError": "BufferOverwriteError", "BufferOverwriteError": "BufferOverreadError",
					"BufferUnderreadError": "BufferOverreadError", "BufferUnderwriteError": "BufferOverwriteError"}
				if a, ok := alt[x.Sel.Name]; ok {
					emit(x.Sel.Pos(), x.Sel.End(), a, "field")
				}
			case *ast.Ident:
				alt := map[string]string{"BufferOverreadError": "BufferOverwriteError", "BufferOverwriteError": "BufferOverreadError",
					"BufferUnderreadError": "BufferUnderwriteError", "BufferUnderwriteError": "BufferUnderreadError",
					"uint64": "uint32", "int64": "int32", "uint16": "uint8", "uint32": "uint16"}
				if a, ok := alt[x.Name]; ok {
					emit(x.Pos(), x.End(), a, "ident")
				}
				_ = alt
			case *ast.IfStmt:
				emit(x.Cond.Pos(), x.Cond.End(), "false && ("+text(x.Cond)+")", "never")
				emit(x.Cond.Pos(), x.Cond.End(), "true || ("+text(x.Cond)+")", "always")
			case *ast.AssignStmt:
				alt := map[token.Token]string{token.ADD_ASSIGN: "-=", token.SUB_ASSIGN: "+=", token.OR_ASSIGN: "^=", token.AND_ASSIGN: "|=", token.XOR_ASSIGN: "|=", token.AND_NOT_ASSIGN: "^="}
				if a, ok := alt[x.Tok]; ok {
					emit(x.TokPos, x.TokPos+token.Pos(len(x.Tok.String())), a, "assign")
				}
				if x.Tok == token.OR_ASSIGN || x.Tok == token.ADD_ASSIGN {
					emit(x.TokPos, x.TokPos+2, "=", "assign")
				}
			case *ast.IncDecStmt:
				if x.Tok == token.INC {
					emit(x.TokPos, x.TokPos+2, "--", "incdec")
				}
			}
			return true
		})
	}
}
