// apiset prints, as a JSON list, what the package made of the given files
// offers to its users: exported names with their types, and the exported
// methods of every exported type and of pointers to it.
package main

import (
	"encoding/json"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"
)

func qual(p *types.Package) string { return p.Path() }

func tuple(t *types.Tuple, variadic bool) string {
	var r []string
	for i := 0; i < t.Len(); i++ {
		s := str(t.At(i).Type())
		if variadic && i == t.Len()-1 {
			s = "..." + strings.TrimPrefix(s, "[]")
		}
		r = append(r, s)
	}
	return "(" + strings.Join(r, ", ") + ")"
}

func str(t types.Type) string {
	if s, ok := t.(*types.Signature); ok {
		return "func" + tuple(s.Params(), s.Variadic()) + tuple(s.Results(), false)
	}
	return types.TypeString(t, qual)
}

func main() {
	fs := token.NewFileSet()
	var files []*ast.File
	for _, n := range os.Args[1:] {
		f, err := parser.ParseFile(fs, n, nil, 0)
		if err != nil {
			os.Stderr.WriteString(err.Error() + "\n")
			os.Exit(1)
		}
		files = append(files, f)
	}
	conf := types.Config{Importer: importer.ForCompiler(fs, "source", nil), Error: func(error) {}}
	pkg, _ := conf.Check("crunch", fs, files, nil)
	res := []string{"package " + pkg.Name()}
	for _, n := range pkg.Scope().Names() {
		o := pkg.Scope().Lookup(n)
		if !o.Exported() {
			continue
		}
		switch o := o.(type) {
		case *types.Const:
			res = append(res, "const "+n+" "+str(o.Type())+" = "+o.Val().ExactString())
		case *types.Var:
			res = append(res, "var "+n+" "+str(o.Type()))
		case *types.Func:
			res = append(res, "func "+n+" "+str(o.Type()))
		case *types.TypeName:
			kind := "type"
			if st, ok := o.Type().Underlying().(*types.Struct); ok {
				kind = "struct"
				for i := 0; i < st.NumFields(); i++ {
					if f := st.Field(i); f.Exported() {
						res = append(res, "field "+n+"."+f.Name()+" "+str(f.Type()))
					}
				}
			} else {
				kind += " " + str(o.Type().Underlying())
			}
			res = append(res, kind+" "+n)
			for _, t := range []types.Type{o.Type(), types.NewPointer(o.Type())} {
				ms := types.NewMethodSet(t)
				for i := 0; i < ms.Len(); i++ {
					if m := ms.At(i).Obj(); m.Exported() {
						res = append(res, "method "+types.TypeString(t, qual)+"."+m.Name()+" "+str(m.Type()))
					}
				}
			}
		}
	}
	sort.Strings(res)
	json.NewEncoder(os.Stdout).Encode(res)
}
