package main

import (
	"fmt"
	"go/format"
	"go/token"
	"go/types"
	"reflect"
	"strings"

	"google.golang.org/protobuf/compiler/protogen"
	"google.golang.org/protobuf/reflect/protoreflect"

	"verif/pgen"
	"verif/rt"
)

// G01: the generated code compiles and is formatted
func compiles(t *rt.T) {
	cfg := pgen.Cfg{WKT: true, Svc: true, Noise: true, Ext: true, Resv: true, OddGo: true, SameGo: true, Notes: true}
	if rt.Chance(t, 35) {
		cfg.Dirs, cfg.ByValue = true, rt.Chance(t, 50)
	}
	r := draw(t, cfg, pgen.Style{Wild: rt.Chance(t, 30), Refs: true, Lits: true})
	if cfg.Dirs && (r.clashes() || r.p.ByValueCycle()) {
		t.Skip()
	}
	t.LabelIf(cfg.Dirs, "directives")
	out := r.run(pgen.GenOpt{Getter: rt.Chance(t, 60), Marshal: rt.Chance(t, 40)})
	c := r.check(out)
	n := 0
	for f, src := range out.Src {
		b, err := format.Source([]byte(src))
		if err != nil {
			t.Fatalf("%s: %v", f.Path, err)
		}
		if string(b) != src {
			t.Fatalf("the code of %s is not formatted:\n%s", f.Path, src)
		}
		// (an explicit name that is no identifier has no expected replacement)
		if got, want := c.Files[f].Name.Name, string(r.file(f).GoPackageName); got != want && token.IsIdentifier(want) {
			t.Fatalf("the code of %s is of package %s, want %s", f.Path, got, want)
		}
		if !strings.HasPrefix(src, "// Code generated by prutalgen. DO NOT EDIT.\n") {
			t.Fatalf("the code of %s does not say that it is generated:\n%s", f.Path, src)
		}
		n += len(f.AllMessages()) + len(f.AllEnums())
	}
	t.NonTrivial(n > 1)
	t.LabelIf(len(out.Src) > 1, "several files")
}

// G05: field types and tags
func fieldTypes(t *rt.T) {
	r := draw(t, pgen.Cfg{WKT: true, SameGo: true, Msgs: 3, Resv: true}, pgen.Style{Refs: true, Lits: true})
	out := r.run(pgen.GenOpt{Getter: rt.Chance(t, 20)})
	c := r.check(out)
	n := 0
	for f := range out.Src {
		eachMessage(r.file(f), func(m *protogen.Message) {
			n += len(m.Fields)
			if err := checkMessage(c, m, func(*protogen.Field) bool { return false }); err != nil {
				t.Fatalf("%s: %v", m.Desc.FullName(), err)
			}
		})
		t.Label("syntax " + f.Syn.String())
	}
	t.NonTrivial(n > 0)
}

// checkMessage compares the struct of m with what its descriptor asks for.
func checkMessage(c *pgen.Checked, m *protogen.Message, noptr func(*protogen.Field) bool) error {
	_, s, err := structOf(c, m.GoIdent)
	if err != nil {
		return err
	}
	want := map[string]bool{}
	for _, f := range m.Fields {
		if o := realOneof(f); o != nil {
			if want[o.GoName] {
				continue
			}
			want[o.GoName] = true
			if err := checkOneof(c, m, s, o, noptr); err != nil {
				return err
			}
			continue
		}
		want[f.GoName] = true
		v, tag, ok := fieldOf(s, f.GoName)
		if !ok {
			return fmt.Errorf("field %s: the struct has no field %s: %s", f.Desc.Name(), f.GoName, s)
		}
		if err := checkField(f, v, tag, noptr(f)); err != nil {
			return err
		}
	}
	for i := 0; i < s.NumFields(); i++ {
		v := s.Field(i)
		if v.Exported() && !want[v.Name()] {
			return fmt.Errorf("the struct has a field %s that the schema does not ask for", v.Name())
		}
	}
	return nil
}

func checkField(f *protogen.Field, v *types.Var, tag string, noptr bool) error {
	if got, want := typeText(v.Type()), goType(f, noptr); got != want {
		return fmt.Errorf("field %s has type %s, want %s", f.Desc.Name(), got, want)
	}
	st := reflect.StructTag(tag)
	if err := checkTag(st.Get("protobuf"), f.Desc, int32(f.Desc.Number()), string(f.Desc.Name())); err != nil {
		return fmt.Errorf("field %s: %v", f.Desc.Name(), err)
	}
	if f.Desc.IsMap() {
		if err := checkTag(st.Get("protobuf_key"), f.Desc.MapKey(), 1, "key"); err != nil {
			return fmt.Errorf("key of map %s: %v", f.Desc.Name(), err)
		}
		if err := checkTag(st.Get("protobuf_val"), f.Desc.MapValue(), 2, "value"); err != nil {
			return fmt.Errorf("value of map %s: %v", f.Desc.Name(), err)
		}
	} else if st.Get("protobuf_key") != "" || st.Get("protobuf_val") != "" {
		return fmt.Errorf("field %s is no map but has tags for one: %s", f.Desc.Name(), tag)
	}
	if got, want := st.Get("json"), string(f.Desc.Name())+",omitempty"; got != want {
		return fmt.Errorf("field %s has the json tag %q, want %q", f.Desc.Name(), got, want)
	}
	if st.Get("protobuf_oneof") != "" {
		return fmt.Errorf("field %s is tagged as a oneof: %s", f.Desc.Name(), tag)
	}
	return nil
}

// checkTag compares a protobuf tag with the descriptor of the field.
func checkTag(tag string, f protoreflect.FieldDescriptor, num int32, name string) error {
	if tag == "" {
		return fmt.Errorf("no tag")
	}
	ps := strings.Split(tag, ",")
	if len(ps) < 4 {
		return fmt.Errorf("tag %q is too short", tag)
	}
	label := "opt"
	switch f.Cardinality() {
	case protoreflect.Repeated:
		label = "rep"
	case protoreflect.Required:
		label = "req"
	}
	if ps[0] != wireEnc[f.Kind()] || ps[1] != fmt.Sprint(num) || ps[2] != label {
		return fmt.Errorf("tag %q, want %s,%d,%s", tag, wireEnc[f.Kind()], num, label)
	}
	packed, nm := false, ""
	for _, s := range ps[3:] {
		if s == "packed" {
			packed = true
		}
		if x, ok := strings.CutPrefix(s, "name="); ok {
			nm = x
		}
	}
	if packed != (f.IsList() && f.IsPacked()) {
		return fmt.Errorf("tag %q: packed is %v, want %v", tag, packed, f.IsPacked())
	}
	if nm != name {
		return fmt.Errorf("tag %q: name is %q, want %q", tag, nm, name)
	}
	return nil
}

func checkOneof(c *pgen.Checked, m *protogen.Message, s *types.Struct, o *protogen.Oneof, noptr func(*protogen.Field) bool) error {
	v, tag, ok := fieldOf(s, o.GoName)
	if !ok {
		return fmt.Errorf("oneof %s: the struct has no field %s: %s", o.Desc.Name(), o.GoName, s)
	}
	if got, want := reflect.StructTag(tag).Get("protobuf_oneof"), string(o.Desc.Name()); got != want {
		return fmt.Errorf("oneof %s has the tag %q", want, got)
	}
	it, ok := v.Type().Underlying().(*types.Interface)
	if !ok {
		return fmt.Errorf("oneof %s has type %s, no interface", o.Desc.Name(), v.Type())
	}
	if got, want := typeText(v.Type()), string(m.GoIdent.GoImportPath)+".is"+m.GoIdent.GoName+"_"+o.GoName; got != want {
		return fmt.Errorf("oneof %s has type %s, want %s", o.Desc.Name(), got, want)
	}
	for _, f := range o.Fields {
		n, ws, err := structOf(c, f.GoIdent)
		if err != nil {
			return fmt.Errorf("wrapper of %s: %v", f.Desc.Name(), err)
		}
		if !types.Implements(types.NewPointer(n), it) {
			return fmt.Errorf("*%s does not implement %s", f.GoIdent.GoName, v.Type())
		}
		if ws.NumFields() != 1 {
			return fmt.Errorf("wrapper %s has %d fields", f.GoIdent.GoName, ws.NumFields())
		}
		wv, wtag, ok := fieldOf(ws, f.GoName)
		if !ok {
			return fmt.Errorf("wrapper %s has no field %s", f.GoIdent.GoName, f.GoName)
		}
		if err := checkField(f, wv, wtag, noptr(f)); err != nil {
			return err
		}
	}
	// nothing else may be a member
	pkg := c.Pkgs[string(m.GoIdent.GoImportPath)]
	members := map[string]bool{}
	for _, f := range o.Fields {
		members[f.GoIdent.GoName] = true
	}
	for _, name := range pkg.Scope().Names() {
		tn, ok := pkg.Scope().Lookup(name).(*types.TypeName)
		if !ok || members[name] || types.IsInterface(tn.Type()) {
			continue
		}
		if types.Implements(types.NewPointer(tn.Type()), it) {
			return fmt.Errorf("%s implements %s but is no member", name, v.Type())
		}
	}
	return nil
}
