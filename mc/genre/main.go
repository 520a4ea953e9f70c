// genre writes DIR/zz_reexport.go: every exported name of a standard package that the hand-written files of
// DIR do not define. Run by hand when a shim changes; its output is committed.
package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/constant"
	"go/format"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path"
	"sort"
	"strings"
)

func main() {
	pkgPath, dir := os.Args[1], os.Args[2]
	fset := token.NewFileSet()
	have := map[string]bool{}
	pkgs, err := parser.ParseDir(fset, dir, func(fi os.FileInfo) bool { return !strings.HasPrefix(fi.Name(), "zz_") }, 0)
	if err != nil {
		panic(err)
	}
	name := ""
	for n, p := range pkgs {
		name = n
		for _, f := range p.Files {
			for _, d := range f.Decls {
				switch d := d.(type) {
				case *ast.FuncDecl:
					if d.Recv == nil {
						have[d.Name.Name] = true
					}
				case *ast.GenDecl:
					for _, s := range d.Specs {
						switch s := s.(type) {
						case *ast.TypeSpec:
							have[s.Name.Name] = true
						case *ast.ValueSpec:
							for _, n := range s.Names {
								have[n.Name] = true
							}
						}
					}
				}
			}
		}
	}
	imp := importer.ForCompiler(fset, "source", nil)
	pkg, err := imp.Import(pkgPath)
	if err != nil {
		panic(err)
	}
	if name == "" {
		name = path.Base(pkgPath)
	}
	var b bytes.Buffer
	fmt.Fprintf(&b, "// Code generated by genre; DO NOT EDIT.\n\npackage %s\n\nimport real %q\n\n", name, pkgPath)
	names := pkg.Scope().Names()
	sort.Strings(names)
	used := false
	for _, n := range names {
		if !token.IsExported(n) || have[n] {
			continue
		}
		switch o := pkg.Scope().Lookup(n).(type) {
		case *types.Const:
			used = true
			if bt, ok := o.Type().(*types.Basic); ok && bt.Info()&types.IsUntyped != 0 && o.Val().Kind() == constant.Int {
				fmt.Fprintf(&b, "const %s = real.%s\n", n, n)
			} else {
				fmt.Fprintf(&b, "const %s = real.%s\n", n, n)
			}
		case *types.Var:
			used = true
			fmt.Fprintf(&b, "var %s = real.%s\n", n, n)
		case *types.TypeName:
			if nt, ok := o.Type().(*types.Named); ok && nt.TypeParams().Len() > 0 {
				continue
			}
			used = true
			fmt.Fprintf(&b, "type %s = real.%s\n", n, n)
		case *types.Func:
			if o.Type().(*types.Signature).TypeParams().Len() > 0 {
				fmt.Fprintf(&b, "// generic: %s\n", n)
				continue
			}
			used = true
			fmt.Fprintf(&b, "var %s = real.%s\n", n, n)
		}
	}
	if !used {
		os.Remove(dir + "/zz_reexport.go")
		return
	}
	out, err := format.Source(b.Bytes())
	if err != nil {
		panic(err)
	}
	if err := os.WriteFile(dir+"/zz_reexport.go", out, 0644); err != nil {
		panic(err)
	}
}
