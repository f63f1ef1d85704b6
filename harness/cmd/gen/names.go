package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"google.golang.org/protobuf/compiler/protogen"

	"verif/pgen"
	"verif/rt"
)

// G03: the names of the generated API are those of the official generator
func goNames(t *rt.T) {
	r := draw(t, pgen.Cfg{OddNm: true, SameGo: true, Svc: true, Resv: true}, pgen.Style{Wild: rt.Chance(t, 10)})
	getter := rt.Chance(t, 50)
	marshal := rt.Chance(t, 30)
	out := r.run(pgen.GenOpt{Getter: getter, Marshal: marshal})
	c := r.check(out)
	want := map[string]map[string]string{} // package -> identifier -> what
	odd := 0
	for f := range out.Src {
		of := r.file(f)
		w := want[string(of.GoImportPath)]
		if w == nil {
			w = map[string]string{}
			want[string(of.GoImportPath)] = w
		}
		eachEnum(of, func(e *protogen.Enum) {
			w[e.GoIdent.GoName] = "type"
			w[e.GoIdent.GoName+"_name"] = "var"
			w[e.GoIdent.GoName+"_value"] = "var"
			for _, v := range e.Values {
				w[v.GoIdent.GoName] = "const"
			}
		})
		eachMessage(of, func(m *protogen.Message) {
			w[m.GoIdent.GoName] = "type"
			var fields []string
			methods := map[string]string{"Reset": "func()"}
			if marshal {
				methods["Marshal"] = "func(in []byte) ([]byte, error)"
				methods["Unmarshal"] = "func(in []byte) error"
			}
			seen := map[*protogen.Oneof]bool{}
			for _, fl := range m.Fields {
				if !strings.EqualFold(strings.ReplaceAll(fl.GoName, "_", ""), strings.ReplaceAll(string(fl.Desc.Name()), "_", "")) || strings.HasSuffix(fl.GoName, "_") {
					odd++
				}
				if getter {
					ty := goType(fl, false)
					if strings.HasPrefix(ty, "*") && fl.Message == nil {
						ty = ty[1:]
					}
					methods["Get"+fl.GoName] = "func() " + ty
				}
				o := realOneof(fl)
				if o == nil {
					fields = append(fields, fl.GoName)
					continue
				}
				w[fl.GoIdent.GoName] = "type"
				if !seen[o] {
					seen[o] = true
					fields = append(fields, o.GoName)
					if getter {
						methods["Get"+o.GoName] = "func() " + string(m.GoIdent.GoImportPath) + ".is" + m.GoIdent.GoName + "_" + o.GoName
					}
				}
			}
			if len(seen) > 0 {
				methods["XXX_OneofWrappers"] = "func() []interface{}"
			}
			n, s, err := structOf(c, m.GoIdent)
			if err != nil {
				t.Fatalf("%s: %v", m.Desc.FullName(), err)
			}
			var got []string
			for i := 0; i < s.NumFields(); i++ {
				if s.Field(i).Exported() {
					got = append(got, s.Field(i).Name())
				}
			}
			if fmt.Sprint(got) != fmt.Sprint(fields) {
				t.Fatalf("%s: the fields of the struct are %v, want %v", m.Desc.FullName(), got, fields)
			}
			gotM := map[string]string{}
			ms := types.NewMethodSet(types.NewPointer(n))
			for i := 0; i < ms.Len(); i++ {
				o := ms.At(i).Obj()
				gotM[o.Name()] = typeText(o.Type())
			}
			for k, v := range methods {
				if gotM[k] != v {
					t.Fatalf("%s: method %s is %q, want %q; there are %v", m.Desc.FullName(), k, gotM[k], v, gotM)
				}
			}
			for k := range gotM {
				if strings.HasPrefix(k, "Get") && methods[k] == "" {
					t.Fatalf("%s: unexpected method %s", m.Desc.FullName(), k)
				}
			}
		})
	}
	for path, w := range want {
		p := c.Pkgs[path]
		var names []string
		for k := range w {
			names = append(names, k)
		}
		sort.Strings(names)
		for _, k := range names {
			o := p.Scope().Lookup(k)
			if o == nil {
				t.Fatalf("package %s has no %s %s; it has %v", path, w[k], k, p.Scope().Names())
			}
			kind := "?"
			switch o.(type) {
			case *types.TypeName:
				kind = "type"
			case *types.Var:
				kind = "var"
			case *types.Const:
				kind = "const"
			}
			if kind != w[k] {
				t.Fatalf("%s.%s is a %s, want a %s", path, k, kind, w[k])
			}
		}
		for _, k := range p.Scope().Names() {
			if p.Scope().Lookup(k).Exported() && w[k] == "" {
				t.Fatalf("package %s has an unexpected %s; expected are %v", path, k, names)
			}
		}
	}
	// the model too
	for f := range out.Src {
		of := r.file(f)
		pf := out.Proto[f]
		if pf.GoImport != string(of.GoImportPath) || pf.Package != f.Pkg {
			t.Fatalf("%s: the model has Go path %s and package %s, want %s and %s", f.Path, pf.GoImport, pf.Package, of.GoImportPath, f.Pkg)
		}
		if len(pf.Services) != len(of.Services) {
			t.Fatalf("%s: %d services, want %d", f.Path, len(pf.Services), len(of.Services))
		}
		for i, s := range of.Services {
			ps := pf.Services[i]
			if ps.GoName != s.GoName || ps.Name != string(s.Desc.Name()) || len(ps.Methods) != len(s.Methods) {
				t.Fatalf("service %s is %s with %d methods, want %s with %d", s.Desc.FullName(), ps.GoName, len(ps.Methods), s.GoName, len(s.Methods))
			}
			for j, m := range s.Methods {
				if pm := ps.Methods[j]; pm.GoName != m.GoName || pm.Name != string(m.Desc.Name()) {
					t.Fatalf("method %s is %s, want %s", m.Desc.FullName(), pm.GoName, m.GoName)
				}
			}
		}
	}
	t.NonTrivial(odd > 0)
	t.LabelIf(odd > 0, "names changed")
}
