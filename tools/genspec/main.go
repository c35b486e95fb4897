// Command genspec prints the functions of a package as reference functions
// (verifSpec_Type_Method). It was run once on the reviewed tree; its output is
// kept under checker/spec and edited by hand where the reference says more or
// less than the code.
package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/printer"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
)

func main() {
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: os.Args[1]}
	pkgs, err := packages.Load(cfg, os.Args[2])
	if err != nil {
		panic(err)
	}
	pk := pkgs[0]
	imports := map[string]bool{}
	specName := func(f *types.Func) string {
		sig := f.Type().(*types.Signature)
		if r := sig.Recv(); r != nil {
			t := r.Type()
			if p, ok := t.(*types.Pointer); ok {
				t = p.Elem()
			}
			return "verifSpec_" + t.(*types.Named).Obj().Name() + "_" + f.Name()
		}
		return "verifSpec_" + f.Name()
	}
	var out bytes.Buffer
	for _, file := range pk.Syntax {
		fn := pk.Fset.File(file.Pos()).Name()
		if strings.HasSuffix(fn, "_test.go") {
			continue
		}
		for _, im := range file.Imports {
			imports[im.Path.Value] = true
		}
		for _, d := range file.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil || fd.Name.Name == "init" {
				continue
			}
			obj := pk.TypesInfo.Defs[fd.Name].(*types.Func)
			ast.Inspect(fd.Body, func(n ast.Node) bool {
				c, ok := n.(*ast.CallExpr)
				if !ok {
					return true
				}
				switch fun := c.Fun.(type) {
				case *ast.SelectorExpr:
					sel := pk.TypesInfo.Selections[fun]
					if sel == nil || sel.Kind() != types.MethodVal {
						return true
					}
					m := sel.Obj().(*types.Func)
					if m.Pkg() != pk.Types || types.IsInterface(sel.Recv()) || len(sel.Index()) > 1 {
						return true
					}
					recv := fun.X
					_, wantPtr := m.Type().(*types.Signature).Recv().Type().(*types.Pointer)
					_, havePtr := sel.Recv().(*types.Pointer)
					if wantPtr && !havePtr {
						recv = &ast.UnaryExpr{Op: token.AND, X: recv}
					} else if !wantPtr && havePtr {
						recv = &ast.StarExpr{X: recv}
					}
					c.Fun = ast.NewIdent(specName(m))
					c.Args = append([]ast.Expr{recv}, c.Args...)
				case *ast.Ident:
					if f, ok := pk.TypesInfo.Uses[fun].(*types.Func); ok && f.Pkg() == pk.Types {
						c.Fun = ast.NewIdent(specName(f))
					}
				}
				return true
			})
			fd.Name = ast.NewIdent(specName(obj))
			if fd.Recv != nil {
				fl := fd.Recv.List[0]
				if len(fl.Names) == 0 {
					fl.Names = []*ast.Ident{ast.NewIdent("_")}
				}
				fd.Type.Params.List = append([]*ast.Field{fl}, fd.Type.Params.List...)
				fd.Recv = nil
			}
			fd.Doc = nil
			// drop positions so that comments do not come along
			printer.Fprint(&out, token.NewFileSet(), fd)
			out.WriteString("\n\n")
		}
	}
	fmt.Printf("package %s\n\nimport (\n", pk.Types.Name())
	var is []string
	for i := range imports {
		is = append(is, i)
	}
	sort.Strings(is)
	for _, i := range is {
		fmt.Println("\t" + i)
	}
	fmt.Print(")\n\n" + out.String())
}
