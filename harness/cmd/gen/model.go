package main

import (
	"fmt"
	"go/token"
	"path/filepath"
	"sort"
	"strings"

	"github.com/cloudwego/prutal/prutalgen/pkg/prutalgen"
	"google.golang.org/protobuf/compiler/protogen"
	"google.golang.org/protobuf/reflect/protoreflect"

	"verif/pgen"
	"verif/rt"
)

// differ collects what differs between the model and the schema.
type differ struct {
	t     *rt.T
	exact bool // plain text: comments and the order of options are as written
	where string
	decls map[any]bool // all messages and enums of the loaded files
}

func (d *differ) at(s string) *differ { return &differ{d.t, d.exact, d.where + "/" + s, d.decls} }

// declared collects the declarations of a file.
func (d *differ) declared(es []*prutalgen.Enum, ms []*prutalgen.Message) {
	for _, e := range es {
		d.decls[e] = true
	}
	for _, m := range ms {
		d.decls[m] = true
		d.declared(m.Enums, m.Messages)
	}
}

// typ compares what the model says about the type of a field or method with
// the declaration it is meant to be (none: a scalar) as used in file p.
func (d *differ) typ(what string, x *prutalgen.Type, p *prutalgen.Proto, m *pgen.Message, e *pgen.Enum, scalar string) {
	d.eq(what, fullName(x), typeName(m, e, scalar))
	d.eq(what+" is a message", x.IsMessage(), m != nil)
	d.eq(what+" is an enum", x.IsEnum(), e != nil)
	imp, name := p.GoImport, ""
	switch {
	case m != nil:
		d.eq(what+" belongs to a loaded file", d.decls[x.Message()], true)
		imp, name = x.Message().Proto.GoImport, x.Message().GoName
	case e != nil:
		d.eq(what+" belongs to a loaded file", d.decls[x.Enum()], true)
		imp, name = x.Enum().Proto.GoImport, x.Enum().GoName
	default:
		name = goScalars[scalar]
	}
	if m != nil || e != nil { // (a scalar belongs to no package)
		d.eq(what+": Go import path", x.GoImport(), imp)
	}
	d.eq(what+": is external", x.IsExternalType(), imp != p.GoImport)
	got := x.GoName()
	if imp != p.GoImport {
		q, base, ok := strings.Cut(got, ".")
		d.eq(what+": Go name has a package", ok && token.IsIdentifier(q), true)
		got = base
	}
	d.eq(what+": Go name", got, name)
	d.eq(what+": text", x.String(), x.GoName())
}

var goScalars = map[string]string{"double": "float64", "float": "float32", "int32": "int32", "int64": "int64", "uint32": "uint32", "uint64": "uint64",
	"sint32": "int32", "sint64": "int64", "fixed32": "uint32", "fixed64": "uint64", "sfixed32": "int32", "sfixed64": "int64", "bool": "bool", "string": "string", "bytes": "[]byte"}

func (d *differ) eq(what string, got, want any) {
	if g, w := fmt.Sprintf("%#v", got), fmt.Sprintf("%#v", want); g != w {
		d.t.Fatalf("%s: %s is %s, want %s", d.where, what, g, w)
	}
}

// options compares the options; unquoted by the rules of the language.
func (d *differ) options(got prutalgen.Options, want []pgen.Opt) {
	var g, w []string
	for _, o := range got {
		if strings.HasPrefix(strings.TrimSpace(o.Value), "{") {
			// (what an aggregate looks like is not defined; that it is there is)
			g = append(g, o.Name+" = {")
			continue
		}
		g = append(g, o.Name+" = "+o.Value)
	}
	for _, o := range want {
		v := o.Val
		if strings.HasPrefix(v, "{") {
			v = "{"
			if o.Name == "features" { // also as if set one by one
				w = append(w, o.Name+" = {")
				for _, kv := range strings.FieldsFunc(strings.Trim(o.Val, "{ }"), func(r rune) bool { return r == ' ' || r == ',' || r == ';' || r == ':' }) {
					if kv != strings.ToUpper(kv) {
						w = append(w, "features."+kv+" = ")
					} else {
						w[len(w)-1] += kv
					}
				}
				continue
			}
		} else if v[0] == '\'' || v[0] == '"' {
			v = strings.ReplaceAll(strings.ReplaceAll(strings.ReplaceAll(v, "\" \"", ""), "\"", ""), "'", "")
		}
		w = append(w, o.Name+" = "+v)
	}
	if !d.exact {
		sort.Strings(g)
		sort.Strings(w)
	}
	d.eq("options", g, w)
	for _, o := range want {
		v, ok := got.Get(o.Name)
		if !ok || !got.Is(o.Name, v) || got.Is(o.Name, v+"x") {
			d.t.Fatalf("%s: Get(%q) is %q, %v", d.where, o.Name, v, ok)
		}
	}
	if v, ok := got.Get("no_such_option"); ok || got.Is("no_such_option", "") {
		d.t.Fatalf("%s: an option that is not there is %q", d.where, v)
	}
}

// comments compares the comments and directives of an element.
func (d *differ) comments(head, inline string, ds prutalgen.Directives, n pgen.Note, dirs, dirsIn []string) {
	all := append(append([]string{}, dirs...), dirsIn...)
	d.eq("directives", append([]string{}, ds...), all)
	for _, s := range append(all, "no_pointer", "x") {
		has := false
		for _, x := range all {
			has = has || x == s
		}
		if ds.Has(s) != has {
			d.t.Fatalf("%s: Has(%q) is %v", d.where, s, !has)
		}
	}
	if !d.exact {
		return
	}
	want := append([]string{}, n.Head...)
	for _, x := range dirs {
		want = append(want, "//prutalgen:"+x)
	}
	// (the layout of directives is free)
	norm := func(s string) string {
		var out []string
		for _, l := range strings.Split(s, "\n") {
			x, ok := strings.CutPrefix(l, "//prutalgen:")
			if !ok {
				out = append(out, l)
				continue
			}
			for _, v := range strings.Split(x, ",") {
				out = append(out, "//prutalgen:"+strings.TrimSpace(v))
			}
		}
		return strings.Join(out, "\n")
	}
	head, inline = norm(head), norm(inline)
	// characters that cannot be in Go code may be left out
	clean := strings.NewReplacer("\x00", "", "\ufeff", "").Replace
	d.eq("head comment", clean(head), clean(strings.Join(want, "\n")))
	in := n.Inline
	if len(dirsIn) > 0 {
		in = norm("//prutalgen:" + strings.Join(dirsIn, ","))
	}
	d.eq("inline comment", clean(inline), clean(in))
}

func (d *differ) enum(g *prutalgen.Enum, e *pgen.Enum, o *protogen.Enum) {
	d = d.at(e.Name)
	d.eq("name", g.Name, e.Name)
	d.eq("full name", g.FullName(), e.Full())
	d.eq("Go name", g.GoName, o.GoIdent.GoName)
	d.comments(g.HeadComment, g.InlineComment, g.Directives, e.Note, e.Dirs, e.DirsIn)
	d.options(g.Options, e.AllOpts())
	d.eq("number of values", len(g.Fields), len(e.Vals))
	names := constNames(e, o)
	for i, v := range e.Vals {
		x := g.Fields[i]
		d := d.at(v.Name)
		d.eq("name", x.Name, v.Name)
		d.eq("value", x.Value, v.Num)
		d.eq("Go name", x.GoName, names[i])
		d.eq("enum", x.Enum == g, true)
		d.options(x.Options, v.Opts)
		d.comments(x.HeadComment, x.InlineComment, x.Directives, v.Note, v.Dirs, nil)
	}
	for k := 0; k < 6; k++ {
		v := int32(d.t.Int(70)) - 5
		if k == 5 {
			v = rt.Pick(d.t, int32(19500), 1<<31-1, -1<<31, 536870912)
		}
		in := false
		for _, r := range e.Reserved {
			for _, x := range r.Ranges {
				in = in || int64(v) >= x[0] && int64(v) <= x[1]
			}
		}
		d.eq(fmt.Sprintf("reserved(%d)", v), g.IsReservedField(v), in)
	}
}

func typeName(m *pgen.Message, e *pgen.Enum, scalar string) string {
	switch {
	case m != nil:
		return m.Full()
	case e != nil:
		return e.Full()
	}
	return scalar
}

func (d *differ) message(g *prutalgen.Message, m *pgen.Message, o *protogen.Message) {
	d = d.at(m.Name)
	d.eq("name", g.Name, m.Name)
	d.eq("full name", g.FullName(), m.Full())
	d.eq("Go name", g.GoName, o.GoIdent.GoName)
	d.comments(g.HeadComment, g.InlineComment, g.Directives, m.Note, m.Dirs, m.DirsIn)
	d.options(g.Options, m.AllOpts())
	d.eq("number of oneofs", len(g.Oneofs), len(m.Oneofs()))
	for i, x := range m.Oneofs() {
		d := d.at(x.Name)
		y := g.Oneofs[i]
		d.eq("name", y.Name, x.Name)
		d.eq("Go name", y.FieldName(), o.Oneofs[i].GoName)
		d.eq("interface", y.FieldType(), "is"+o.GoIdent.GoName+"_"+o.Oneofs[i].GoName)
		d.eq("message", y.Msg == g, true)
		d.options(y.Options, x.Opts)
		d.eq("number of members", len(y.Fields), len(x.Fields))
		for j, f := range x.Fields {
			d.eq("member", y.Fields[j].Name, f.Name)
		}
	}
	fs := m.Fields()
	d.eq("number of fields", len(g.Fields), len(fs))
	for i, f := range fs {
		x, of := g.Fields[i], o.Fields[i]
		d := d.at(f.Name)
		d.eq("name", x.Name, f.Name)
		d.eq("Go name", x.GoName, of.GoName)
		d.eq("number", x.FieldNumber, f.Num)
		d.eq("repeated", x.Repeated, f.Repeated())
		d.eq("required", x.Required, of.Desc.Cardinality() == protoreflect.Required)
		d.eq("optional", x.Optional, f.Label == "optional")
		d.eq("map", x.IsMap(), f.IsMap())
		d.typ("type", x.Type, g.Proto, f.Msg, f.Enum, f.Type)
		d.eq("is a message", x.IsMessage(), f.Msg != nil && !f.IsMap())
		d.eq("is an enum", x.IsEnum(), f.Enum != nil && !f.IsMap())
		if s := x.String(); !strings.Contains(s, fmt.Sprint(f.Num)) || !strings.Contains(s, x.GoName) {
			d.t.Fatalf("%s: its text is %q", d.where, s)
		}
		if f.Repeated() { // (of a field that is not, it says how one would be)
			d.eq("packed", x.IsPackedEncoding(), of.Desc.IsPacked())
		}
		d.eq("message", x.Msg == g, true)
		if f.IsMap() {
			d.typ("key type", x.Key, g.Proto, nil, nil, f.Key)
		}
		switch {
		case f.Up == nil:
			d.eq("oneof", x.Oneof == nil, true)
		case x.Oneof == nil:
			d.t.Fatalf("%s: it is a member of no oneof, want %s", d.where, f.Up.Name)
		default:
			d.eq("oneof", x.Oneof.Name, f.Up.Name)
			d.eq("wrapper", x.OneofStructName(), of.GoIdent.GoName)
		}
		d.comments(x.HeadComment, x.InlineComment, x.Directives, f.Note, f.Dirs, f.DirsIn)
		d.options(x.Options, f.AllOpts())
	}
	for k := 0; k < 8; k++ {
		v := int32(1 + d.t.Int(70))
		if k > 5 {
			v = rt.Pick(d.t, int32(18999), 19000, 19999, 20000, 536870911, 100)
		}
		in := v >= 19000 && v <= 19999
		for _, r := range m.Reserved() {
			for _, x := range r.Ranges {
				in = in || int64(v) >= x[0] && int64(v) <= x[1]
			}
		}
		d.eq(fmt.Sprintf("reserved(%d)", v), g.IsReservedField(v), in)
	}
	// (the order of nested declarations of one kind is that of the text)
	d.eq("number of nested messages", len(g.Messages), len(m.Messages()))
	var ms []*protogen.Message
	for _, x := range o.Messages {
		if !x.Desc.IsMapEntry() {
			ms = append(ms, x)
		}
	}
	for i, x := range m.Messages() {
		d.eq("parent", g.Messages[i].Msg == g && g.Messages[i].Proto == g.Proto, true)
		d.message(g.Messages[i], x, ms[i])
	}
	d.eq("number of nested enums", len(g.Enums), len(m.Enums()))
	for i, x := range m.Enums() {
		d.eq("parent", g.Enums[i].Msg == g && g.Enums[i].Proto == g.Proto, true)
		d.enum(g.Enums[i], x, o.Enums[i])
	}
}

// G13: the parsed model says what the text says
func modelFidelity(t *rt.T) {
	c := pgen.Cfg{WKT: rt.Chance(t, 40), Svc: true, Noise: true, Ext: rt.Chance(t, 40), Resv: true, OddGo: rt.Chance(t, 30), SameGo: true, Dirs: rt.Chance(t, 50), M: rt.Chance(t, 30), Enums: rt.Chance(t, 20)}
	exact := rt.Chance(t, 55)
	c.Notes = exact
	st := pgen.Style{}
	if !exact {
		st = pgen.Style{R: t, Wild: true, Refs: true, Lits: true}
	}
	r := draw(t, c, st)
	dir, clean := scratch()
	defer clean()
	pgen.WriteTexts(dir, r.texts)
	ps, _, err := pgen.Load([]string{dir}, r.p.Root().Path, r.p.M)
	if err != nil {
		t.Fatalf("a valid schema is refused: %v", err)
	}
	cl := r.p.Root().Closure()
	d := &differ{t: t, exact: exact, where: "model", decls: map[any]bool{}}
	d.eq("number of files", len(ps), len(cl))
	byFile := map[string]*prutalgen.Proto{}
	pos := map[*prutalgen.Proto]int{}
	for i, p := range ps {
		byFile[p.ProtoFile] = p
		pos[p] = i
		d.declared(p.Enums, p.Messages)
	}
	d.eq("first file", ps[0].ProtoFile, filepath.Join(dir, filepath.FromSlash(r.p.Root().Path)))
	n := 0
	for _, f := range cl {
		name := f.Path
		if f.WKT == nil {
			name = filepath.Join(dir, filepath.FromSlash(f.Path))
		}
		p := byFile[name]
		if p == nil {
			t.Fatalf("file %s is not among the loaded files", f.Path)
		}
		d := d.at(f.Path)
		of := r.file(f)
		d.eq("package", p.Package, f.Pkg)
		d.eq("Go import path", p.GoImport, string(of.GoImportPath))
		// (an M option without a name: the official generator takes the name from
		// the file's go_package all the same, which is a matter of taste)
		m, over := r.p.M[f.Path]
		if want := string(of.GoPackageName); token.IsIdentifier(want) && (!over || strings.Contains(m, ";")) {
			d.eq("Go package", p.GoPackage, want)
		}
		text := p.String()
		for _, m := range p.Messages {
			if !strings.Contains(text, "Message "+m.FullName()+" {") {
				t.Fatalf("%s: its text does not mention message %s:\n%s", f.Path, m.FullName(), text)
			}
		}
		d.eq("syntax", p.Edition, f.Syn.String())
		d.eq("is proto2", p.IsProto2(), f.Syn == pgen.P2)
		d.eq("is proto3", p.IsProto3(), f.Syn == pgen.P3)
		d.eq("is 2023", p.IsEdition2023(), f.Syn == pgen.E23)
		var deps, want []string
		for _, x := range p.Imports {
			deps = append(deps, fmt.Sprint(x.ProtoFile, x.Public))
			if x.Proto != byFile[x.ProtoFile] {
				t.Fatalf("%s: its import of %s is another model than the loaded one", f.Path, x.ProtoFile)
			}
			if pos[x.Proto] <= pos[p] {
				t.Fatalf("%s comes after %s, which it imports", f.Path, x.ProtoFile)
			}
		}
		for _, x := range f.Deps {
			s := x.F.Path
			if x.F.WKT == nil {
				s = filepath.Join(dir, filepath.FromSlash(s))
			}
			want = append(want, fmt.Sprint(s, x.Public))
		}
		if !exact || f.WKT != nil {
			sort.Strings(deps)
			sort.Strings(want)
		}
		d.eq("imports", deps, want)
		if f.WKT != nil {
			continue
		}
		d.options(p.Options, f.AllOpts())
		(&differ{t, false, d.where, nil}).comments("", "", p.Directives, pgen.Note{}, f.Dirs, nil)
		d.eq("number of enums", len(p.Enums), len(f.Enums()))
		for i, e := range f.Enums() {
			n++
			d.eq("file", p.Enums[i].Proto == p && p.Enums[i].Msg == nil, true)
			d.enum(p.Enums[i], e, of.Enums[i])
		}
		d.eq("number of messages", len(p.Messages), len(f.Messages()))
		for i, m := range f.Messages() {
			n++
			d.eq("file", p.Messages[i].Proto == p && p.Messages[i].Msg == nil, true)
			d.message(p.Messages[i], m, of.Messages[i])
		}
		d.eq("number of services", len(p.Services), len(f.Services()))
		for i, s := range f.Services() {
			n++
			g := p.Services[i]
			d := d.at(s.Name)
			d.eq("name", g.Name, s.Name)
			d.eq("Go name", g.GoName, of.Services[i].GoName)
			d.eq("file", g.Proto == p, true)
			d.comments(g.HeadComment, g.InlineComment, g.Directives, s.Note, s.Dirs, s.DirsIn)
			d.options(g.Options, s.Opts)
			d.eq("number of methods", len(g.Methods), len(s.Methods))
			for j, m := range s.Methods {
				x := g.Methods[j]
				d := d.at(m.Name)
				d.eq("name", x.Name, m.Name)
				d.eq("Go name", x.GoName, of.Services[i].Methods[j].GoName)
				d.eq("service", x.Service == g, true)
				d.typ("request", x.Request, p, m.In, nil, "")
				d.typ("response", x.Return, p, m.Out, nil, "")
				d.eq("request stream", x.RequestStream, m.SIn)
				d.eq("response stream", x.ReturnStream, m.SOu)
				d.comments(x.HeadComment, x.InlineComment, x.Directives, m.Note, m.Dirs, m.DirsIn)
				d.options(x.Options, m.Opts)
			}
		}
	}
	t.NonTrivial(n > 0)
	t.LabelIf(exact, "comments")
}
