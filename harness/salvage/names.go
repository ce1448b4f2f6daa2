package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"
)

// The tests use unexported names of the package. A name is no behaviour: where one of the names the tests were
// written for is gone and something new of the same kind and type is in its place, it gets its old name back
// in the copy.

type named struct {
	kind, owner, name, typ string
	obj                    types.Object
}

func (n named) slot() string { return n.kind + "\t" + n.owner + "\t" + n.typ }

// listNames lists the unexported types, functions, methods and fields in the order of their declaration.
func listNames(path string, src map[string][]byte, stubs map[string]bool, imp types.Importer) (l []named, info *types.Info, fset *token.FileSet) {
	fset = token.NewFileSet()
	var files []*ast.File
	var names []string
	for n := range src {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		f, err := parser.ParseFile(fset, n, src[n], parser.SkipObjectResolution)
		if err != nil {
			fatal("%v", err)
		}
		files = append(files, f)
	}
	f, _ := parser.ParseFile(fset, "zz_salvage_stubs.go", stubSource(src, stubs), parser.SkipObjectResolution)
	files = append(files, f)
	info = &types.Info{Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{}}
	conf := types.Config{Importer: imp, Error: func(error) {}}
	pkg, _ := conf.Check(path, fset, files, info)
	str := func(t types.Type) string {
		return types.TypeString(t, func(p *types.Package) string {
			if p == pkg {
				return ""
			}
			return p.Name()
		})
	}
	sig := func(t types.Type) string { // without the names of parameters
		s, ok := t.(*types.Signature)
		if !ok {
			return str(t)
		}
		tuple := func(t *types.Tuple) *types.Tuple {
			var vs []*types.Var
			for i := 0; i < t.Len(); i++ {
				vs = append(vs, types.NewVar(token.NoPos, nil, "", t.At(i).Type()))
			}
			return types.NewTuple(vs...)
		}
		return str(types.NewSignatureType(nil, nil, nil, tuple(s.Params()), tuple(s.Results()), s.Variadic()))
	}
	shape := func(t types.Type) string { // without the names of fields
		st, ok := t.(*types.Struct)
		if !ok {
			return str(t)
		}
		var l []string
		for i := 0; i < st.NumFields(); i++ {
			l = append(l, str(st.Field(i).Type()))
		}
		return "struct{" + strings.Join(l, "; ") + "}"
	}
	add := func(kind, owner string, o types.Object, typ string) {
		if !o.Exported() && o.Name() != "_" {
			l = append(l, named{kind, owner, o.Name(), typ, o})
		}
	}
	scope := pkg.Scope()
	for _, n := range scope.Names() {
		o := scope.Lookup(n)
		switch o := o.(type) {
		case *types.Func:
			add("func", "", o, sig(o.Type()))
		case *types.TypeName:
			if o.IsAlias() {
				continue
			}
			add("type", "", o, shape(o.Type().Underlying()))
			if nt, ok := o.Type().(*types.Named); ok {
				for i := 0; i < nt.NumMethods(); i++ {
					add("method", n, nt.Method(i), sig(nt.Method(i).Type()))
				}
			}
			if st, ok := o.Type().Underlying().(*types.Struct); ok {
				for i := 0; i < st.NumFields(); i++ {
					if !st.Field(i).Embedded() {
						add("field", n, st.Field(i), str(st.Field(i).Type()))
					}
				}
			}
		}
	}
	sort.SliceStable(l, func(i, j int) bool {
		a, b := fset.Position(l[i].obj.Pos()), fset.Position(l[j].obj.Pos())
		return a.Filename < b.Filename || a.Filename == b.Filename && a.Offset < b.Offset
	})
	return l, info, fset
}

func writeNames(file string, l []named) {
	var b strings.Builder
	for _, n := range l {
		fmt.Fprintf(&b, "%s\t%s\t%s\t%s\n", n.kind, n.owner, n.name, n.typ)
	}
	if err := os.WriteFile(file, []byte(b.String()), 0644); err != nil {
		fatal("%v", err)
	}
}

func readNames(file string) (l []named) {
	b, err := os.ReadFile(file)
	if err != nil {
		fatal("%v", err)
	}
	for _, line := range strings.Split(strings.TrimSpace(string(b)), "\n") {
		p := strings.SplitN(line, "\t", 4)
		l = append(l, named{kind: p[0], owner: p[1], name: p[2], typ: p[3]})
	}
	return l
}

// oldNames gives renamed things their old names: one round; it reports whether there was something to do.
func oldNames(path string, src map[string][]byte, stubs map[string]bool, imp types.Importer, want []named) bool {
	have, info, fset := listNames(path, src, stubs, imp)
	id := func(n named) string { return n.kind + "\t" + n.owner + "\t" + n.name }
	is, was := map[string]bool{}, map[string]bool{}
	for _, n := range have {
		is[id(n)] = true
	}
	for _, n := range want {
		was[id(n)] = true
	}
	gone, new := map[string][]named{}, map[string][]named{}
	for _, n := range want {
		if !is[id(n)] {
			gone[n.slot()] = append(gone[n.slot()], n)
		}
	}
	for _, n := range have {
		if !was[id(n)] {
			new[n.slot()] = append(new[n.slot()], n)
		}
	}
	rename := map[types.Object]string{}
	for _, kind := range []string{"type", "func", "method", "field"} { // types first, others refer to them
		for slot, g := range gone {
			if strings.HasPrefix(slot, kind+"\t") && len(g) == len(new[slot]) {
				for i, n := range new[slot] {
					rename[n.obj] = g[i].name
					fmt.Printf("%s %s %s is called %s again\n", kind, n.owner, n.name, g[i].name)
				}
			}
		}
		if len(rename) > 0 {
			break
		}
	}
	if len(rename) == 0 {
		return false
	}
	var edits []edit
	note := func(m map[*ast.Ident]types.Object) {
		for ident, o := range m {
			if to, ok := rename[o]; ok {
				p := fset.Position(ident.Pos())
				edits = append(edits, edit{p.Filename, p.Offset, p.Offset + len(ident.Name), to})
			}
		}
	}
	note(info.Defs)
	note(info.Uses)
	sort.Slice(edits, func(i, j int) bool { return edits[i].from > edits[j].from })
	for _, e := range edits {
		if b, ok := src[e.file]; ok {
			src[e.file] = append(append(append([]byte{}, b[:e.from]...), e.text...), b[e.to:]...)
		}
	}
	return true
}
