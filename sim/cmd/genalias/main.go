// genalias PKG OUTPKG: prints a file re-exporting everything package PKG exports,
// except the names given as further arguments (those are defined by hand).
package main

import (
	"fmt"
	"go/importer"
	"go/token"
	"go/types"
	"os"
)

func main() {
	fset := token.NewFileSet()
	p, err := importer.ForCompiler(fset, "source", nil).Import(os.Args[1])
	if err != nil {
		panic(err)
	}
	skip := map[string]bool{}
	for _, a := range os.Args[3:] {
		skip[a] = true
	}
	fmt.Printf("// Code generated by genalias; re-exports package %s.\n\npackage %s\n\nimport x %q\n\n", os.Args[1], os.Args[2], os.Args[1])
	sc := p.Scope()
	for _, n := range sc.Names() {
		o := sc.Lookup(n)
		if !o.Exported() || skip[n] {
			continue
		}
		switch o := o.(type) {
		case *types.Const:
			fmt.Printf("const %s = x.%s\n", n, n)
		case *types.TypeName:
			fmt.Printf("type %s = x.%s\n", n, n)
		case *types.Var, *types.Func:
			_ = o
			fmt.Printf("var %s = x.%s\n", n, n)
		}
	}
}
