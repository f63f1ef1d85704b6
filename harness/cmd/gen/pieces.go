package main

import (
	"errors"
	"go/ast"
	"go/format"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/cloudwego/prutal/prutalgen/pkg/prutalgen"

	"verif/pgen"
	"verif/rt"
)

var errTwice = errors.New("a name is declared twice")

// declTexts gives the imports and the text of each declaration of a source
// (with its comment, up to the end of its last line), by name.
func declTexts(src string) (imports []string, decls map[string]string, err error) {
	b, err := format.Source([]byte(src))
	if err != nil {
		return nil, nil, err
	}
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, "", b, parser.ParseComments)
	if err != nil {
		return nil, nil, err
	}
	for _, x := range f.Imports {
		n := ""
		if x.Name != nil {
			n = x.Name.Name + " "
		}
		imports = append(imports, n+x.Path.Value)
	}
	decls = map[string]string{}
	for _, d := range f.Decls {
		from, name := d.Pos(), ""
		switch x := d.(type) {
		case *ast.GenDecl:
			if x.Tok == token.IMPORT {
				continue
			}
			if x.Doc != nil {
				from = x.Doc.Pos()
			}
			name = x.Tok.String()
			for _, s := range x.Specs {
				switch s := s.(type) {
				case *ast.TypeSpec:
					name += " " + s.Name.Name
				case *ast.ValueSpec:
					for _, n := range s.Names {
						name += " " + n.Name
					}
				}
			}
		case *ast.FuncDecl:
			if x.Doc != nil {
				from = x.Doc.Pos()
			}
			name = "func " + x.Name.Name
			if x.Recv != nil {
				t := x.Recv.List[0].Type
				if p, ok := t.(*ast.StarExpr); ok {
					t = p.X
				}
				name = "func (" + t.(*ast.Ident).Name + ") " + x.Name.Name
			}
		}
		a, z := fset.Position(from).Offset, fset.Position(d.End()).Offset
		if i := strings.IndexByte(string(b[z:]), '\n'); i >= 0 {
			z += i
		}
		if _, ok := decls[name]; ok {
			return nil, nil, errTwice
		}
		decls[name] = string(b[a:z])
	}
	return imports, decls, nil
}

// G15: a plugin that generates the parts of a file one by one, in any order
// and with one generator, gets what the whole file has.
func pieces(t *rt.T) {
	c := pgen.Cfg{WKT: rt.Chance(t, 50), Svc: true, Noise: rt.Chance(t, 30), OddGo: rt.Chance(t, 50), SameGo: true, Notes: rt.Chance(t, 40), Dirs: rt.Chance(t, 40), M: rt.Chance(t, 30), Enums: rt.Chance(t, 30)}
	if !c.Dirs { // directives that drop prefixes make names collide
		c.OddNm = rt.Chance(t, 50)
	}
	st := pgen.Style{}
	if !c.Notes {
		st = pgen.Style{R: t, Wild: rt.Chance(t, 30), Refs: true}
	}
	r := draw(t, c, st)
	opt := pgen.GenOpt{Getter: rt.Chance(t, 60), Marshal: rt.Chance(t, 30)}
	out := r.run(opt)
	g := prutalgen.NewGoCodeGen()
	g.Getter = opt.Getter
	if opt.Marshal {
		g.Marshaler = prutalgen.MarshalerKitexProtobuf
	}
	for _, f := range r.p.Root().Closure() {
		if f.WKT != nil {
			continue
		}
		m := out.Proto[f]
		wantImports, want, err := declTexts(out.Src[f])
		if err == errTwice { // a directive drops the prefixes that keep names apart
			continue
		}
		if err != nil {
			t.Fatalf("%s: %v\n%s", f.Path, err, out.Src[f])
		}
		got, from := map[string]string{}, map[string]string{}
		imported := map[string]bool{}
		shared := rt.Chance(t, 40) // one writer that is reset in between
		sw := prutalgen.NewCodeWriter("// header", m.GoPackage)
		piece := func(name string, fn func(w *prutalgen.CodeWriter)) {
			w := sw
			if !shared {
				w = prutalgen.NewCodeWriter("", m.GoPackage)
			} else {
				w.Reset("", m.GoPackage)
			}
			if err := pgen.Guard(func() { fn(w) }); err != nil {
				t.Fatalf("%s: generating %s on its own: %v", f.Path, name, err)
			}
			imp, ds, err := declTexts(string(w.Bytes()))
			if err != nil {
				t.Fatalf("%s: the code of %s on its own: %v\n%s", f.Path, name, err, w.Bytes())
			}
			for _, x := range imp {
				imported[x] = true
			}
			for k, s := range ds {
				if o, ok := from[k]; ok {
					t.Fatalf("%s: %s is generated with %s and with %s", f.Path, k, o, name)
				}
				from[k], got[k] = name, s
			}
		}
		var todo []func()
		add := func(name string, fn func(w *prutalgen.CodeWriter)) {
			todo = append(todo, func() { piece(name, fn) })
		}
		for _, e := range m.Enums {
			add("enum "+e.Name, func(w *prutalgen.CodeWriter) { g.EnumGen(e, w) })
		}
		var nested func(x *prutalgen.Message)
		nested = func(x *prutalgen.Message) {
			for _, e := range x.Enums {
				add("enum "+x.Name+"."+e.Name, func(w *prutalgen.CodeWriter) { g.EnumGen(e, w) })
			}
			for _, y := range x.Messages {
				nested(y)
			}
		}
		for _, x := range m.Messages {
			add("message "+x.Name, func(w *prutalgen.CodeWriter) { g.MessageGen(x, w) })
			nested(x)
		}
		for i := len(todo) - 1; i > 0; i-- {
			j := t.Int(i + 1)
			todo[i], todo[j] = todo[j], todo[i]
		}
		for _, fn := range todo {
			fn()
		}
		for k, s := range want {
			if got[k] != s {
				t.Fatalf("%s: %s differs when it is generated on its own\n---- in the file\n%s\n---- on its own\n%s", f.Path, k, s, got[k])
			}
		}
		for k := range got {
			if _, ok := want[k]; !ok {
				t.Fatalf("%s: %s is generated on its own only", f.Path, k)
			}
		}
		var gotImports []string
		for x := range imported {
			gotImports = append(gotImports, x)
		}
		sort.Strings(gotImports)
		sort.Strings(wantImports)
		if strings.Join(gotImports, "|") != strings.Join(wantImports, "|") {
			t.Fatalf("%s: the imports of the file are %q, those of its parts %q", f.Path, wantImports, gotImports)
		}
		if len(todo) > 1 {
			t.NonTrivial(true)
		}

		// a file that is not formatted is the same file
		dir, clean := scratch()
		defer clean()
		g.Format = false
		if err := pgen.Guard(func() {
			if e := g.Gen(m, prutalgen.GenByImport, dir); e != nil {
				panic("error: " + e.Error())
			}
		}); err != nil {
			t.Fatalf("%s: without formatting: %v", f.Path, err)
		}
		g.Format = true
		fn := g.SourcePath(m, prutalgen.GenByImport, dir, ".pb.go")
		b, err := os.ReadFile(fn)
		if err != nil {
			t.Fatalf("%s: without formatting: %v", f.Path, err)
		}
		if s, err := format.Source(b); err != nil || string(s) != out.Src[f] {
			t.Fatalf("%s: the code without formatting is another one (%v)\n%s\n---- formatted\n%s", f.Path, err, b, out.Src[f])
		}
		// names of other files that a plugin adds
		for _, suf := range []string{"_x.go", ".pb.go", ""} {
			want := strings.TrimSuffix(fn, ".pb.go") + suf
			if s := g.SourcePath(m, prutalgen.GenByImport, dir, suf); s != want {
				t.Fatalf("%s: the path with suffix %q is %q instead of %q", f.Path, suf, s, want)
			}
			want = strings.TrimSuffix(filepath.Join(out.Dir, filepath.FromSlash(f.Path)), ".proto") + suf
			if s := g.SourcePath(m, prutalgen.GenBySourceRelative, dir, suf); s != want {
				t.Fatalf("%s: the path by source with suffix %q is %q instead of %q", f.Path, suf, s, want)
			}
		}
	}
}
