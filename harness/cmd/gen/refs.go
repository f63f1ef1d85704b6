package main

import (
	"fmt"

	"github.com/cloudwego/prutal/prutalgen/pkg/prutalgen"
	"google.golang.org/protobuf/compiler/protogen"

	"verif/pgen"
	"verif/rt"
)

func fullName(ty *prutalgen.Type) string {
	switch {
	case ty.Message() != nil:
		return ty.Message().FullName()
	case ty.Enum() != nil:
		return ty.Enum().FullName()
	}
	return ty.Name
}

// G04: references mean what the language says
func references(t *rt.T) {
	r := draw(t, pgen.Cfg{Shadow: true, SameGo: true, Svc: true, WKT: rt.Chance(t, 30), OddGo: rt.Chance(t, 30)}, pgen.Style{Refs: true, Wild: rt.Chance(t, 10)})
	out := r.run(pgen.GenOpt{Getter: rt.Chance(t, 30)})
	c := r.check(out)
	refs := 0
	for f := range out.Src {
		of := r.file(f)
		eachMessage(of, func(m *protogen.Message) {
			for _, fl := range m.Fields {
				if fl.Message != nil || fl.Enum != nil {
					refs++
				}
			}
			if err := checkMessage(c, m, func(*protogen.Field) bool { return false }); err != nil {
				t.Fatalf("%s: %v", m.Desc.FullName(), err)
			}
		})
		// what the model says
		byName := map[string]*prutalgen.Message{}
		var walk func(ms []*prutalgen.Message)
		walk = func(ms []*prutalgen.Message) {
			for _, m := range ms {
				byName[m.FullName()] = m
				walk(m.Messages)
			}
		}
		walk(out.Proto[f].Messages)
		for _, m := range f.AllMessages() {
			pm := byName[m.Full()]
			if pm == nil {
				t.Fatalf("message %s is missing in the model", m.Full())
			}
			if len(pm.Fields) != len(m.Fields()) {
				t.Fatalf("message %s has %d fields in the model, want %d", m.Full(), len(pm.Fields), len(m.Fields()))
			}
			for i, fl := range m.Fields() {
				pf := pm.Fields[i]
				want := fl.Type
				path := f.GoPath
				if fl.Msg != nil {
					want, path = fl.Msg.Full(), fl.Msg.F.GoPath
				} else if fl.Enum != nil {
					want, path = fl.Enum.Full(), fl.Enum.F.GoPath
				}
				if got := fullName(pf.Type); got != want {
					t.Fatalf("field %s of %s has type %s, want %s", fl.Name, m.Full(), got, want)
				}
				if pf.Type.IsExternalType() != (path != f.GoPath) || pf.Type.GoImport() != path {
					t.Fatalf("field %s of %s: the type is of package %s (external: %v), want %s", fl.Name, m.Full(), pf.Type.GoImport(), pf.Type.IsExternalType(), path)
				}
				if pf.IsMessage() != (fl.Msg != nil && !fl.IsMap()) || pf.IsEnum() != (fl.Enum != nil && !fl.IsMap()) {
					t.Fatalf("field %s of %s: IsMessage %v, IsEnum %v", fl.Name, m.Full(), pf.IsMessage(), pf.IsEnum())
				}
			}
		}
		for i, s := range f.Services() {
			for j, m := range s.Methods {
				pm := out.Proto[f].Services[i].Methods[j]
				for _, x := range []struct {
					ty   *prutalgen.Type
					want *pgen.Message
					what string
				}{{pm.Request, m.In, "request"}, {pm.Return, m.Out, "response"}} {
					refs++
					if got := fullName(x.ty); got != x.want.Full() {
						t.Fatalf("the %s of %s.%s is %s, want %s", x.what, s.Name, m.Name, got, x.want.Full())
					}
					if err := methodType(r, f, x.ty, x.want); err != nil {
						t.Fatalf("the %s of %s.%s: %v", x.what, s.Name, m.Name, err)
					}
				}
			}
		}
	}
	t.NonTrivial(refs > 1)
	t.LabelIf(len(out.Src) > 1, "several files")
}

// methodType checks how the model refers to the Go type of a request or response.
func methodType(r *ready, f *pgen.File, ty *prutalgen.Type, want *pgen.Message) error {
	ext := want.F.GoPath != f.GoPath
	if ty.IsExternalType() != ext || ty.GoImport() != want.F.GoPath {
		return fmt.Errorf("it is of package %s (external: %v), want %s", ty.GoImport(), ty.IsExternalType(), want.F.GoPath)
	}
	var id protogen.GoIdent
	eachMessage(r.file(want.F), func(m *protogen.Message) {
		if string(m.Desc.FullName()) == want.Full() {
			id = m.GoIdent
		}
	})
	name := id.GoName
	if ext {
		if s := string(r.file(want.F).GoPackageName); !isIdent(s) {
			return nil
		} else {
			name = s + "." + name
		}
	}
	if got := ty.GoName(); got != name {
		return fmt.Errorf("its Go name is %s, want %s", got, name)
	}
	return nil
}
