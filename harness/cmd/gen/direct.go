package main

import (
	"google.golang.org/protobuf/compiler/protogen"

	"verif/pgen"
	"verif/rt"
)

// G12: directives and gogoproto options
func directives(t *rt.T) {
	r := draw(t, pgen.Cfg{Dirs: true, ByValue: true, SameGo: rt.Chance(t, 40), Notes: rt.Chance(t, 40), Noise: rt.Chance(t, 20), Enums: rt.Chance(t, 40)}, pgen.Style{Refs: true, Wild: rt.Chance(t, 15)})
	if r.p.ByValueCycle() {
		t.Skip()
	}
	if r.clashes() {
		t.Skip()
	}
	enumOf := r.enums()
	out := r.run(pgen.GenOpt{Getter: rt.Chance(t, 60)})
	c := r.check(out)
	special := 0
	for f := range out.Src {
		of := r.file(f)
		eachEnum(of, func(e *protogen.Enum) {
			pe := enumOf[string(e.Desc.FullName())]
			if pe.NoMapping() {
				special++
				t.Label("no mapping")
			}
			if err := checkEnum(c, f, e, constNames(pe, e), !pe.NoMapping()); err != nil {
				t.Fatalf("enum %s: %v\n%s", e.Desc.FullName(), err, out.Src[f])
			}
			for _, v := range pe.Vals {
				if v.NoPrefix() {
					special++
					t.Label("no prefix")
					break
				}
			}
		})
		msgs := map[string]*pgen.Message{}
		for _, m := range f.AllMessages() {
			msgs[m.Full()] = m
		}
		eachMessage(of, func(m *protogen.Message) {
			pm := msgs[string(m.Desc.FullName())]
			fields := map[string]*pgen.Field{}
			for _, fl := range pm.Fields() {
				fields[fl.Name] = fl
			}
			noptr := func(fl *protogen.Field) bool {
				x := fields[string(fl.Desc.Name())]
				if x.NoPtr() {
					special++
					t.Label("no pointer")
				}
				return x.NoPtr()
			}
			if err := checkMessage(c, m, noptr); err != nil {
				t.Fatalf("%s: %v\n%s", m.Desc.FullName(), err, out.Src[f])
			}
			_, s, _ := structOf(c, m.GoIdent)
			v, tag, ok := fieldOf(s, "unknownFields")
			if ok != pm.KeepsUnknown() {
				t.Fatalf("%s: the struct keeps unknown fields: %v, want %v\n%s", m.Desc.FullName(), ok, pm.KeepsUnknown(), out.Src[f])
			}
			if ok {
				special++
				t.Label("unknown fields")
				if typeText(v.Type()) != "[]byte" {
					t.Fatalf("%s: unknownFields is a %s %s", m.Desc.FullName(), v.Type(), tag)
				}
			}
		})
	}
	t.NonTrivial(special > 0)
}

// constNames are the names of the constants of e, by the directives in effect.
func constNames(pe *pgen.Enum, e *protogen.Enum) (out []string) {
	for i, v := range e.Values {
		if pe.Vals[i].NoPrefix() {
			out = append(out, pgen.Camel(pe.Vals[i].Name))
		} else {
			out = append(out, v.GoIdent.GoName)
		}
	}
	return
}

// enums maps full names to the enums of the project.
func (r *ready) enums() map[string]*pgen.Enum {
	out := map[string]*pgen.Enum{}
	for _, f := range r.p.Root().Closure() {
		for _, e := range f.AllEnums() {
			out[e.Full()] = e
		}
	}
	return out
}

// clashes reports whether constants without prefix clash with other names:
// then no legal code exists.
func (r *ready) clashes() (clash bool) {
	idents := map[string]map[string]bool{}
	put := func(f *protogen.File, s string) {
		p := string(f.GoImportPath)
		if idents[p] == nil {
			idents[p] = map[string]bool{}
		}
		if idents[p][s] {
			note("clash")
			clash = true
		}
		idents[p][s] = true
	}
	enumOf := r.enums()
	for _, f := range r.p.Root().Closure() {
		of := r.file(f)
		if f.WKT != nil {
			continue
		}
		eachEnum(of, func(e *protogen.Enum) {
			put(of, e.GoIdent.GoName)
			put(of, e.GoIdent.GoName+"_name")
			put(of, e.GoIdent.GoName+"_value")
			for _, s := range constNames(enumOf[string(e.Desc.FullName())], e) {
				put(of, s)
			}
		})
		eachMessage(of, func(m *protogen.Message) {
			put(of, m.GoIdent.GoName)
			for _, fl := range m.Fields {
				if realOneof(fl) != nil {
					put(of, fl.GoIdent.GoName)
				}
			}
		})
	}
	return
}
