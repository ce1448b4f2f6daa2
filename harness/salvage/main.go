// Command salvage copies a package that is unfinished in the tree, completing
// it just enough to compile, so that its finished parts can be run:
//
//   - a declaration that does not parse is left out,
//   - an undefined type gets an empty declaration,
//   - a function whose body is missing or does not type-check returns zero values,
//     or does what the file of stand-ins (if given) has for it,
//   - a declaration of that file is added if the package lacks it,
//   - any other declaration that does not type-check is left out.
//
// Everything else is copied unchanged, except that unexported names may be given back (names.go). What was done is printed, one line each.
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/scanner"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
)

func fatal(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "salvage: "+f+"\n", a...)
	os.Exit(1)
}

func main() {
	if len(os.Args) != 4 && len(os.Args) != 5 {
		fatal("usage: salvage IMPORTPATH DIR OUT [STANDINS]")
	}
	path, dir, out := os.Args[1], os.Args[2], os.Args[3]
	names, _ := filepath.Glob(filepath.Join(dir, "*.go"))
	src := map[string][]byte{}
	for _, n := range names {
		if strings.HasSuffix(n, "_test.go") {
			continue
		}
		b, err := os.ReadFile(n)
		if err != nil {
			fatal("%v", err)
		}
		src[filepath.Base(n)] = dropUnparsable(filepath.Base(n), b)
	}
	if len(os.Args) == 5 {
		b, err := os.ReadFile(os.Args[4])
		if err != nil {
			fatal("%v", err)
		}
		src["zz_salvage_standins.go"] = standIns(b, src)
	}
	imp := imports(src)
	stubs := map[string]bool{}
	for round := 0; ; round++ {
		if round == 60 {
			fatal("no end to the errors")
		}
		if !repair(path, src, stubs, imp) {
			break
		}
	}
	if f := os.Getenv("SALVAGE_WRITE_NAMES"); f != "" {
		l, _, _ := listNames(path, src, stubs, imp)
		writeNames(f, l)
	}
	if f := os.Getenv("SALVAGE_NAMES"); f != "" {
		want := readNames(f)
		for round := 0; round < 10 && oldNames(path, src, stubs, imp, want); round++ {
		}
	}
	if err := os.MkdirAll(out, 0755); err != nil {
		fatal("%v", err)
	}
	for n, b := range src {
		if err := os.WriteFile(filepath.Join(out, n), b, 0644); err != nil {
			fatal("%v", err)
		}
	}
	if len(stubs) > 0 {
		os.WriteFile(filepath.Join(out, "zz_salvage_stubs.go"), stubSource(src, stubs), 0644)
	}
}

var bodies = map[string]string{} // of the stand-ins, by function

// key names a function or method.
func key(fd *ast.FuncDecl) string {
	k := fd.Name.Name
	if fd.Recv != nil && len(fd.Recv.List) == 1 {
		t := fd.Recv.List[0].Type
		if s, ok := t.(*ast.StarExpr); ok {
			t = s.X
		}
		if id, ok := t.(*ast.Ident); ok {
			k = id.Name + "." + k
		}
	}
	return k
}

// standIns returns the stand-ins that the package lacks and notes the bodies of the functions among them.
func standIns(b []byte, src map[string][]byte) []byte {
	have := map[string]bool{}
	names := func(d ast.Decl) (l []string) {
		switch d := d.(type) {
		case *ast.FuncDecl:
			l = append(l, key(d))
		case *ast.GenDecl:
			for _, s := range d.Specs {
				switch s := s.(type) {
				case *ast.TypeSpec:
					l = append(l, s.Name.Name)
				case *ast.ValueSpec:
					for _, n := range s.Names {
						l = append(l, n.Name)
					}
				}
			}
		}
		return l
	}
	parse := func(n string, b []byte) (*ast.File, func(token.Pos) int) {
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, n, b, parser.ParseComments|parser.SkipObjectResolution)
		if err != nil {
			fatal("%v", err)
		}
		return f, func(p token.Pos) int { return fset.Position(p).Offset }
	}
	for n, b := range src {
		f, _ := parse(n, b)
		for _, d := range f.Decls {
			for _, n := range names(d) {
				have[n] = true
			}
		}
	}
	f, off := parse("stand-ins", b)
	for i := len(f.Decls) - 1; i >= 0; i-- {
		d := f.Decls[i]
		if fd, ok := d.(*ast.FuncDecl); ok {
			bodies[key(fd)] = string(b[off(fd.Body.Pos()):off(fd.Body.End())])
		}
		for _, n := range names(d) {
			if have[n] {
				b = append(append([]byte{}, b[:off(d.Pos())]...), b[off(d.End()):]...)
				break
			}
		}
	}
	return b
}

var declStart = regexp.MustCompile(`(?m)^(func|type|var|const)\b`)

// dropUnparsable removes the top-level declarations that contain syntax errors.
func dropUnparsable(name string, b []byte) []byte {
	for i := 0; i < 100; i++ {
		fset := token.NewFileSet()
		_, err := parser.ParseFile(fset, name, b, parser.ParseComments|parser.SkipObjectResolution)
		if err == nil {
			return b
		}
		list, ok := err.(scanner.ErrorList)
		if !ok {
			fatal("%v", err)
		}
		at := list[0].Pos.Offset
		starts := declStart.FindAllIndex(b, -1)
		from, to := -1, len(b)
		for _, s := range starts {
			if s[0] <= at {
				from = s[0]
			} else {
				to = s[0]
				break
			}
		}
		if from < 0 {
			fatal("%v", err)
		}
		fmt.Printf("%s: left out unparsable %q\n", name, first(b[from:to]))
		b = append(append([]byte{}, b[:from]...), b[to:]...)
	}
	fatal("%s: no end to the syntax errors", name)
	return nil
}

func first(b []byte) string {
	s, _, _ := strings.Cut(string(b), "\n")
	return s
}

// imports builds what the files import and returns an importer for it.
func imports(src map[string][]byte) types.Importer {
	set := map[string]bool{}
	for n, b := range src {
		f, err := parser.ParseFile(token.NewFileSet(), n, b, parser.ImportsOnly)
		if err != nil {
			fatal("%v", err)
		}
		for _, i := range f.Imports {
			p, _ := strconv.Unquote(i.Path.Value)
			set[p] = true
		}
	}
	args := []string{"list", "-export", "-deps", "-json=ImportPath,Export"}
	for p := range set {
		args = append(args, p)
	}
	sort.Strings(args[4:])
	cmd := exec.Command("go", args...)
	var errb bytes.Buffer
	cmd.Stderr = &errb
	out, err := cmd.Output()
	if err != nil {
		fatal("go list: %v\n%s", err, errb.String())
	}
	export := map[string]string{}
	d := json.NewDecoder(bytes.NewReader(out))
	for {
		var p struct{ ImportPath, Export string }
		if err := d.Decode(&p); err == io.EOF {
			break
		} else if err != nil {
			fatal("go list: %v", err)
		}
		export[p.ImportPath] = p.Export
	}
	return importer.ForCompiler(token.NewFileSet(), "gc", func(p string) (io.ReadCloser, error) {
		if export[p] == "" {
			return nil, fmt.Errorf("no export data for %s", p)
		}
		return os.Open(export[p])
	})
}

func stubSource(src map[string][]byte, stubs map[string]bool) []byte {
	pkg := "p"
	for n, b := range src {
		f, _ := parser.ParseFile(token.NewFileSet(), n, b, parser.PackageClauseOnly)
		pkg = f.Name.Name
	}
	var names []string
	for s := range stubs {
		names = append(names, s)
	}
	sort.Strings(names)
	s := "package " + pkg + "\n"
	for _, n := range names {
		s += "\ntype " + n + " struct{}\n"
	}
	return []byte(s)
}

type edit struct {
	file     string
	from, to int
	text     string
}

var undefined = regexp.MustCompile(`^undefined: (\w+)$`)

// repair type-checks the package and removes the causes of the errors found.
func repair(path string, src map[string][]byte, stubs map[string]bool, imp types.Importer) bool {
	fset := token.NewFileSet()
	var files []*ast.File
	add := func(n string, b []byte) {
		f, err := parser.ParseFile(fset, n, b, parser.ParseComments|parser.SkipObjectResolution)
		if err != nil {
			fatal("%v", err)
		}
		files = append(files, f)
	}
	var names []string
	for n := range src {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		add(n, src[n])
	}
	add("zz_salvage_stubs.go", stubSource(src, stubs))
	var errs []types.Error
	for _, f := range files {
		for _, d := range f.Decls {
			if fd, ok := d.(*ast.FuncDecl); ok && fd.Body == nil {
				errs = append(errs, types.Error{Fset: fset, Pos: fd.Pos(), Msg: "missing function body"})
			}
		}
	}
	conf := types.Config{Importer: imp, Error: func(err error) { errs = append(errs, err.(types.Error)) }}
	conf.Check(path, fset, files, nil)
	var edits []edit
	seen := map[string]bool{}
	put := func(e edit, what string) {
		k := fmt.Sprint(e.file, e.from)
		if seen[k] {
			return
		}
		seen[k] = true
		edits = append(edits, e)
		fmt.Printf("%s: %s\n", e.file, what)
	}
	changed := false
	// undefined types first: they may be the cause of everything else
	for _, e := range errs {
		m := undefined.FindStringSubmatch(e.Msg)
		if m == nil || stubs[m[1]] {
			continue
		}
		if _, d := at(fset, files, e.Pos); d != nil {
			if fd, ok := d.(*ast.FuncDecl); ok && fd.Body != nil && fd.Body.Pos() <= e.Pos && e.Pos < fd.Body.End() {
				continue // a name used in a body only: the body goes
			}
			if gd, ok := d.(*ast.GenDecl); ok && gd.Tok != token.TYPE {
				continue
			}
			fmt.Printf("%s: undefined type %s is declared empty\n", fset.Position(e.Pos).Filename, m[1])
			stubs[m[1]] = true
			changed = true
		}
	}
	if changed {
		return true
	}
	var unused []types.Error
	for _, e := range errs {
		f, d := at(fset, files, e.Pos)
		if strings.Contains(e.Msg, "imported and not used") {
			unused = append(unused, e)
			continue
		}
		if d == nil {
			fatal("%s: %s", fset.Position(e.Pos), e.Msg)
		}
		name := fset.Position(f.Pos()).Filename
		off := func(p token.Pos) int { return fset.Position(p).Offset }
		if fd, ok := d.(*ast.FuncDecl); ok && fd.Body == nil {
			put(edit{name, off(fd.End()), off(fd.End()), " " + newBody(src[name], off, fd)}, "no body: "+fd.Name.Name)
		} else if ok && fd.Body.Pos() <= e.Pos && e.Pos < fd.Body.End() {
			put(edit{name, off(fd.Body.Pos()), off(fd.Body.End()), newBody(src[name], off, fd)}, "unfinished body: "+fd.Name.Name+" ("+e.Msg+")")
		} else {
			put(edit{name, off(d.Pos()), off(d.End()), ""}, "left out: "+first(src[name][off(d.Pos()):])+" ("+e.Msg+")")
		}
	}
	if len(edits) == 0 {
		for _, e := range unused {
			f, _ := at(fset, files, e.Pos)
			for _, i := range f.Imports {
				if i.Pos() <= e.Pos && e.Pos <= i.End() {
					name := fset.Position(f.Pos()).Filename
					from := fset.Position(i.Pos()).Offset
					put(edit{name, from, fset.Position(i.Path.Pos()).Offset, "_ "}, "import not used any more: "+i.Path.Value)
				}
			}
		}
	}
	sort.Slice(edits, func(i, j int) bool { return edits[i].from > edits[j].from })
	for _, e := range edits {
		b := src[e.file]
		src[e.file] = append(append(append([]byte{}, b[:e.from]...), e.text...), b[e.to:]...)
	}
	if len(edits) == 0 && len(errs) > 0 {
		fatal("cannot repair: %s: %s", fset.Position(errs[0].Pos), errs[0].Msg)
	}
	return len(edits) > 0
}

func newBody(src []byte, off func(token.Pos) int, fd *ast.FuncDecl) string {
	if b := bodies[key(fd)]; b != "" {
		delete(bodies, key(fd)) // if it does not type-check there, zero values do
		return b
	}
	return zeroBody(src, off, fd)
}

func zeroBody(src []byte, off func(token.Pos) int, fd *ast.FuncDecl) string {
	if fd.Type.Results == nil || len(fd.Type.Results.List) == 0 {
		return "{}"
	}
	var vals []string
	for _, r := range fd.Type.Results.List {
		if len(r.Names) > 0 {
			return "{ return }"
		}
		vals = append(vals, "*new("+string(src[off(r.Type.Pos()):off(r.Type.End())])+")")
	}
	return "{ return " + strings.Join(vals, ", ") + " }"
}

// at returns the file and the top-level declaration around pos.
func at(fset *token.FileSet, files []*ast.File, pos token.Pos) (*ast.File, ast.Decl) {
	for _, f := range files {
		if f.FileStart <= pos && pos <= f.FileEnd {
			for _, d := range f.Decls {
				if d.Pos() <= pos && pos <= d.End() {
					return f, d
				}
			}
			return f, nil
		}
	}
	return nil, nil
}
