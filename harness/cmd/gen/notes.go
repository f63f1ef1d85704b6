package main

import (
	"fmt"
	"go/ast"
	"strings"

	"google.golang.org/protobuf/compiler/protogen"
	"google.golang.org/protobuf/reflect/protoreflect"

	"verif/pgen"
	"verif/rt"
)

// words are the words of a comment, without its marks.
func words(s string) (out []string) {
	// these characters cannot be in Go code
	s = strings.NewReplacer("\x00", "", "\ufeff", "").Replace(s)
	for _, w := range strings.Fields(s) {
		switch w {
		case "//", "/*", "*/", "*":
			continue
		}
		w = strings.TrimPrefix(w, "//")
		out = append(out, w)
	}
	return
}

func groupText(gs ...*ast.CommentGroup) string {
	var b strings.Builder
	for _, g := range gs {
		if g != nil {
			for _, c := range g.List {
				if !strings.HasPrefix(c.Text, "//prutalgen:") && !strings.HasPrefix(c.Text, "// prutalgen:") {
					b.WriteString(c.Text + "\n")
				}
			}
		}
	}
	return b.String()
}

// place is where the comments of an element are in Go code.
type place struct{ doc, inline string }

// places finds the comments of the types, fields and constants of a file.
func places(f *ast.File) map[string]place {
	m := map[string]place{}
	for _, d := range f.Decls {
		g, ok := d.(*ast.GenDecl)
		if !ok {
			continue
		}
		for _, s := range g.Specs {
			switch s := s.(type) {
			case *ast.TypeSpec:
				m[s.Name.Name] = place{groupText(g.Doc, s.Doc), groupText(s.Comment)}
				if st, ok := s.Type.(*ast.StructType); ok {
					for _, x := range st.Fields.List {
						for _, n := range x.Names {
							m[s.Name.Name+"."+n.Name] = place{groupText(x.Doc), groupText(x.Comment)}
						}
					}
				}
			case *ast.ValueSpec:
				doc := groupText(s.Doc)
				if !g.Lparen.IsValid() {
					doc = groupText(g.Doc, s.Doc)
				}
				for _, n := range s.Names {
					m[n.Name] = place{doc, groupText(s.Comment)}
				}
			}
		}
	}
	return m
}

// G16: the comments of the schema are at the elements they belong to
func notesCarried(t *rt.T) {
	r := draw(t, pgen.Cfg{Notes: true, Enums: rt.Chance(t, 30), OddNm: rt.Chance(t, 30), SameGo: rt.Chance(t, 30), Dirs: rt.Chance(t, 30), Noise: true, Resv: rt.Chance(t, 30)}, pgen.Style{})
	if r.clashes() || r.p.ByValueCycle() {
		t.Skip()
	}
	out := r.run(pgen.GenOpt{Getter: rt.Chance(t, 50), Marshal: rt.Chance(t, 30)})
	c := r.check(out)
	count := 0
	for f := range r.texts {
		pl := places(c.Files[f])
		all := 0
		want := func(what, key string, n pgen.Note, in bool) {
			p, ok := pl[key]
			if !ok {
				t.Fatalf("%s: there is no %s\n%s", what, key, out.Src[f])
			}
			cmp := func(where, got, want string) {
				g, w := strings.Join(words(got), " "), strings.Join(words(want), " ")
				if g != w {
					t.Fatalf("%s: the comment %s %s is %q instead of %q\n%s", what, where, key, g, w, out.Src[f])
				}
			}
			head := strings.Join(n.Head, "\n")
			if strings.TrimSpace(head) != "" {
				count++
			}
			all += len(n.Head)
			if n.Inline != "" && in {
				count++
				all++
			}
			cmp("before", p.doc, head)
			if in {
				cmp("behind", p.inline, n.Inline)
			}
		}
		enum := func(e *pgen.Enum, o *protogen.Enum) {
			want("enum "+e.Name, o.GoIdent.GoName, e.Note, len(e.DirsIn) == 0)
			names := constNames(e, o)
			for i, v := range e.Vals {
				want("value "+v.Name, names[i], v.Note, true)
			}
		}
		var message func(m *pgen.Message, o *protogen.Message)
		message = func(m *pgen.Message, o *protogen.Message) {
			want("message "+m.Name, o.GoIdent.GoName, m.Note, len(m.DirsIn) == 0)
			byNum := map[protoreflect.FieldNumber]*protogen.Field{}
			for _, x := range o.Fields {
				byNum[x.Desc.Number()] = x
			}
			for _, x := range m.Fields() {
				g := byNum[protoreflect.FieldNumber(x.Num)]
				key := o.GoIdent.GoName + "." + g.GoName
				if realOneof(g) != nil {
					key = g.GoIdent.GoName + "." + g.GoName
				}
				want("field "+m.Name+"."+x.Name, key, x.Note, len(x.DirsIn) == 0)
			}
			for i, e := range m.Enums() {
				enum(e, o.Enums[i])
			}
			i := 0
			for _, n := range o.Messages {
				if !n.Desc.IsMapEntry() {
					message(m.Messages()[i], n)
					i++
				}
			}
		}
		of := r.file(f)
		for i, e := range f.Enums() {
			enum(e, of.Enums[i])
		}
		for i, m := range f.Messages() {
			message(m, of.Messages[i])
		}
		// each comment is there once
		if n := strings.Count(out.Src[f], "#"); len(f.Services()) == 0 && n != all+strings.Count(headerOf(out.Src[f]), "#") {
			ids := ""
			for _, l := range strings.Split(out.Src[f], "\n") {
				if strings.Contains(l, "#") {
					ids += l + "\n"
				}
			}
			t.Fatalf("%d comments are in the code instead of %d:\n%s", n, all, ids)
		}
	}
	t.NonTrivial(count > 0)
	t.LabelIf(count > 5, "many")
}

func headerOf(src string) string {
	h, _, _ := body(src)
	return fmt.Sprint(h)
}
