package main

import (
	"go/ast"
	"go/parser"
	"go/token"
	"path/filepath"
	"sort"
	"strings"
)

// mangle renames what contract files declare at package level, so that a declaration of
// the repository can have the same name. Functions that directives refer to keep theirs.
func mangle(files map[string][]byte) {
	byDir := map[string][]string{}
	for f := range files {
		if strings.HasPrefix(filepath.Base(f), "zz_gvc_") {
			byDir[filepath.Dir(f)] = append(byDir[filepath.Dir(f)], f)
		}
	}
	for _, fs := range byDir {
		names := map[string]bool{}
		parsed := map[string]*ast.File{}
		fset := token.NewFileSet()
		for _, f := range fs {
			a, err := parser.ParseFile(fset, f, files[f], 0)
			if err != nil {
				continue // reported by the loader
			}
			parsed[f] = a
			for n := range a.Scope.Objects {
				if !keepName(n) {
					names[n] = true
				}
			}
		}
		for f, a := range parsed {
			skip := map[*ast.Ident]bool{}
			ast.Inspect(a, func(n ast.Node) bool {
				switch x := n.(type) {
				case *ast.SelectorExpr:
					skip[x.Sel] = true
				case *ast.Field:
					// struct fields, parameters and methods are not package level
					for _, id := range x.Names {
						skip[id] = true
					}
				case *ast.FuncDecl:
					if x.Recv != nil {
						skip[x.Name] = true
					}
				}
				return true
			})
			unresolved := map[*ast.Ident]bool{}
			for _, id := range a.Unresolved {
				unresolved[id] = true
			}
			var at []int
			ast.Inspect(a, func(n ast.Node) bool {
				id, ok := n.(*ast.Ident)
				if !ok || skip[id] || !names[id.Name] {
					return true
				}
				if id.Obj != nil && a.Scope.Objects[id.Name] == id.Obj || id.Obj == nil && unresolved[id] {
					at = append(at, fset.Position(id.Pos()).Offset+len(id.Name))
				}
				return true
			})
			sort.Ints(at)
			src, out, last := files[f], []byte{}, 0
			for _, o := range at {
				out = append(append(out, src[last:o]...), "_gvc"...)
				last = o
			}
			files[f] = append(out, src[last:]...)
		}
	}
}

func keepName(n string) bool {
	for _, p := range []string{"spec_", "inv_", "rec_", "gen", "model", "lemma"} {
		if strings.HasPrefix(n, p) {
			return true
		}
	}
	return n == "init" || n == "_"
}
