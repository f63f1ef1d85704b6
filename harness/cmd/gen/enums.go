package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/types"
	"reflect"
	"strings"

	"google.golang.org/protobuf/compiler/protogen"

	"verif/pgen"
	"verif/rt"
)

// mapLit evaluates the map that variable name is initialized with.
func mapLit(c *pgen.Checked, f *pgen.File, name string) (map[string]string, bool) {
	for _, d := range c.Files[f].Decls {
		g, ok := d.(*ast.GenDecl)
		if !ok {
			continue
		}
		for _, s := range g.Specs {
			v, ok := s.(*ast.ValueSpec)
			if !ok || len(v.Names) != 1 || v.Names[0].Name != name || len(v.Values) != 1 {
				continue
			}
			l, ok := v.Values[0].(*ast.CompositeLit)
			if !ok {
				return nil, false
			}
			out := map[string]string{}
			for _, e := range l.Elts {
				kv := e.(*ast.KeyValueExpr)
				out[c.Info.Types[kv.Key].Value.ExactString()] = c.Info.Types[kv.Value].Value.ExactString()
			}
			return out, true
		}
	}
	return nil, false
}

// checkEnum compares the code of e with what the schema says; names are those
// of the constants, mapping tells whether there are maps.
func checkEnum(c *pgen.Checked, f *pgen.File, e *protogen.Enum, names []string, mapping bool) error {
	n, err := typeOf(c, e.GoIdent)
	if err != nil {
		return err
	}
	if n.Underlying() != types.Typ[types.Int32] {
		return fmt.Errorf("it is a %s", n.Underlying())
	}
	pkg := n.Obj().Pkg()
	wantName, wantValue := map[string]string{}, map[string]string{}
	consts := map[string]bool{}
	for i, v := range e.Values {
		o, ok := pkg.Scope().Lookup(names[i]).(*types.Const)
		if !ok {
			return fmt.Errorf("there is no constant %s", names[i])
		}
		consts[names[i]] = true
		if o.Type() != n {
			return fmt.Errorf("constant %s has type %s", names[i], o.Type())
		}
		if got, _ := constant.Int64Val(o.Val()); got != int64(v.Desc.Number()) {
			return fmt.Errorf("constant %s is %d, want %d", names[i], got, v.Desc.Number())
		}
		num := fmt.Sprint(v.Desc.Number())
		name := constant.MakeString(string(v.Desc.Name())).ExactString()
		if wantName[num] == "" {
			wantName[num] = name
		}
		wantValue[name] = num
	}
	for _, s := range pkg.Scope().Names() {
		if o, ok := pkg.Scope().Lookup(s).(*types.Const); ok && o.Type() == n && !consts[s] {
			return fmt.Errorf("there is an unexpected constant %s = %s", s, o.Val())
		}
	}
	for _, x := range []struct {
		suffix string
		ty     string
		want   map[string]string
	}{{"_name", "map[int32]string", wantName}, {"_value", "map[string]int32", wantValue}} {
		name := e.GoIdent.GoName + x.suffix
		o := pkg.Scope().Lookup(name)
		if !mapping {
			if o != nil {
				return fmt.Errorf("there is %s, but mapping is off", o)
			}
			continue
		}
		if v, ok := o.(*types.Var); !ok || typeText(v.Type()) != x.ty {
			return fmt.Errorf("%s is not a %s but %v", name, x.ty, o)
		}
		got, ok := mapLit(c, f, name)
		if ok && !reflect.DeepEqual(got, x.want) {
			return fmt.Errorf("%s is %v, want %v", name, got, x.want)
		}
	}
	m := types.NewMethodSet(n).Lookup(pkg, "String")
	if mapping != (m != nil) {
		return fmt.Errorf("mapping is %v but the String method is %v", mapping, m)
	}
	if m != nil && typeText(m.Type()) != "func() string" {
		return fmt.Errorf("the String method is a %s", m.Type())
	}
	return nil
}

// G06: enums
func enums(t *rt.T) {
	r := draw(t, pgen.Cfg{Enums: true, SameGo: true, Noise: rt.Chance(t, 30), Resv: true, OddGo: rt.Chance(t, 20)}, pgen.Style{Lits: true, Wild: rt.Chance(t, 20), Refs: true})
	out := r.run(pgen.GenOpt{})
	c := r.check(out)
	n := 0
	for f := range out.Src {
		eachEnum(r.file(f), func(e *protogen.Enum) {
			n++
			var names []string
			for _, v := range e.Values {
				names = append(names, v.GoIdent.GoName)
			}
			if err := checkEnum(c, f, e, names, true); err != nil {
				t.Fatalf("enum %s: %v\n%s", e.Desc.FullName(), err, out.Src[f])
			}
			if strings.Contains(string(e.Desc.FullName()), ".") {
				t.Label("qualified")
			}
		})
		checkEnumModel(t, out, f)
	}
	t.NonTrivial(n > 0)
}

// checkEnumModel compares the parsed enums with the schema.
func checkEnumModel(t *rt.T, out *pgen.Out, f *pgen.File) {
	got := map[string]string{}
	want := map[string]string{}
	pf := out.Proto[f]
	for _, e := range pf.Enums {
		got[e.FullName()] = e.String()
	}
	eachProtoMessage(pf, func(m *protoMessage) {
		for _, e := range m.Enums {
			got[e.FullName()] = e.String()
		}
	})
	for _, e := range f.AllEnums() {
		want[e.Full()] = ""
		if got[e.Full()] == "" {
			t.Fatalf("%s: enum %s is missing in the model", f.Path, e.Full())
		}
	}
	if len(got) != len(want) {
		t.Fatalf("%s: the model has the enums %v, want %d", f.Path, got, len(want))
	}
}
