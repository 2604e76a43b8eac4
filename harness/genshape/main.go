// genshape reads a JSON list of Go sources and tells what each declares.
package main

import (
	"bytes"
	"encoding/json"
	"go/ast"
	"go/parser"
	"go/printer"
	"go/token"
	"os"
	"strings"
)

type decl struct {
	Recv string `json:"recv"`
	Name string `json:"name"`
	Sig  string `json:"sig"`
}

type shape struct {
	Parsed bool   `json:"parsed"`
	Decls  []decl `json:"decls"`
	Others int    `json:"others"`
}

func str(fs *token.FileSet, n interface{}) string {
	var b bytes.Buffer
	printer.Fprint(&b, fs, n)
	return b.String()
}

func types(fs *token.FileSet, l *ast.FieldList) string {
	var r []string
	if l != nil {
		for _, f := range l.List {
			n := len(f.Names)
			if n == 0 {
				n = 1
			}
			for ; n > 0; n-- {
				r = append(r, str(fs, f.Type))
			}
		}
	}
	return strings.Join(r, ", ")
}

func main() {
	var srcs []string
	if err := json.NewDecoder(os.Stdin).Decode(&srcs); err != nil {
		panic(err)
	}
	out := make([]shape, len(srcs))
	for i, src := range srcs {
		out[i].Decls = []decl{}
		fs := token.NewFileSet()
		f, err := parser.ParseFile(fs, "x.go", src, parser.ParseComments)
		if err != nil {
			continue
		}
		out[i].Parsed = true
		for _, d := range f.Decls {
			fn, ok := d.(*ast.FuncDecl)
			if !ok {
				out[i].Others++
				continue
			}
			recv := ""
			if fn.Recv != nil && len(fn.Recv.List) == 1 {
				recv = strings.TrimPrefix(str(fs, fn.Recv.List[0].Type), "*")
			}
			sig := "func(" + types(fs, fn.Type.Params) + ")"
			if r := types(fs, fn.Type.Results); r != "" {
				sig += " " + r
			}
			out[i].Decls = append(out[i].Decls, decl{recv, fn.Name.Name, sig})
		}
	}
	json.NewEncoder(os.Stdout).Encode(out)
}
