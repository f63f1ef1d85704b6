package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"verif/pgen"
	"verif/rt"
)

// G08: exactly the valid schemas are accepted

type mutation struct {
	name string
	fn   func(k *killer) bool // makes the schema invalid; false if it does not apply
}

type killer struct {
	t *rt.T
	p *pgen.Project
	f *pgen.File // the file that is damaged
}

func one[T any](k *killer, vs []T) (v T, ok bool) {
	if len(vs) == 0 {
		return v, false
	}
	return vs[k.t.Int(len(vs))], true
}

func (k *killer) fields(ok func(*pgen.Field) bool) (out []*pgen.Field) {
	for _, m := range k.f.AllMessages() {
		for _, f := range m.Fields() {
			if ok == nil || ok(f) {
				out = append(out, f)
			}
		}
	}
	return
}

func (k *killer) withFields(n int) (out []*pgen.Message) {
	for _, m := range k.f.AllMessages() {
		if len(m.Fields()) >= n {
			out = append(out, m)
		}
	}
	return
}

func (k *killer) field(ok func(*pgen.Field) bool) *pgen.Field {
	f, _ := one(k, k.fields(ok))
	return f
}

// two picks two different fields of one message.
func (k *killer) two() (a, b *pgen.Field) {
	m, ok := one(k, k.withFields(2))
	if !ok {
		return nil, nil
	}
	fs := m.Fields()
	i := k.t.Int(len(fs))
	j := k.t.Int(len(fs) - 1)
	if j >= i {
		j++
	}
	return fs[i], fs[j]
}

func (k *killer) setRaw(vs ...string) bool {
	f := k.field(nil)
	if f == nil {
		return false
	}
	f.Raw = rt.Pick(k.t, vs...)
	return true
}

func (k *killer) setType(s string, ok func(*pgen.Field) bool) bool {
	f := k.field(ok)
	if f == nil {
		return false
	}
	f.Msg, f.Enum, f.Type = nil, nil, s
	return true
}

func addReserved(m *pgen.Message, at int, r *pgen.Reserved) {
	r.Max = 536870911
	at %= len(m.Decls) + 1
	m.Decls = append(m.Decls[:at], append([]any{r}, m.Decls[at:]...)...)
}

func single(f *pgen.Field) bool { return f.Key == "" && f.Up == nil && f.Label != "repeated" }

var mutations = []mutation{
	{"duplicate field number", func(k *killer) bool {
		a, b := k.two()
		if a == nil {
			return false
		}
		b.Num = a.Num
		return true
	}},
	{"field number 0", func(k *killer) bool { return k.setRaw("0", "00", "0x0") }},
	{"field number too large", func(k *killer) bool {
		return k.setRaw("536870912", "536870913", "2147483647", "2147483648", "4294967295", "4294967297", "18446744073709551617", "99999999999999999999999999", "0x20000000", "0xffffffff1", "0x100000001", "04000000000")
	}},
	{"field number of the implementation", func(k *killer) bool { return k.setRaw("19000", "19999", "19500", "0x4a38", "045070") }},
	{"no field number", func(k *killer) bool { return k.setRaw("x", "1.5", "-1", "'1'", "1e3", "true", "+1") }},
	{"reserved field number", func(k *killer) bool {
		f := k.field(nil)
		if f == nil {
			return false
		}
		n := int64(f.Num)
		r := &pgen.Reserved{Ranges: [][2]int64{{n, n}}}
		switch k.t.Int(5) {
		case 0:
			r.Ranges = [][2]int64{{max(1, n-int64(k.t.Int(20))), n}}
		case 1:
			r.Ranges = [][2]int64{{n, n + int64(k.t.Int(20))}}
		case 2:
			r.Ranges = [][2]int64{{max(1, n-int64(k.t.Int(20))), 536870911}}
		case 3:
			r.Ranges = [][2]int64{{18500, 18500}, {n, n}, {18600, 18610}}
		}
		addReserved(f.M, k.t.Int(100), r)
		return true
	}},
	{"reserved field name", func(k *killer) bool {
		f := k.field(nil)
		if f == nil || k.f.Syn == pgen.E23 {
			return false
		}
		r := &pgen.Reserved{Names: []string{f.Name}}
		switch k.t.Int(3) {
		case 0:
			r.Names = []string{"zzz", f.Name}
		case 1:
			r.Names = []string{f.Name, "zzz"}
		}
		addReserved(f.M, k.t.Int(100), r)
		return true
	}},
	{"duplicate field name", func(k *killer) bool {
		a, b := k.two()
		if a == nil {
			return false
		}
		b.Name = a.Name
		return true
	}},
	{"duplicate type name", func(k *killer) bool {
		var types []any
		scope := k.f.Decls
		if m, ok := one(k, k.f.AllMessages()); ok && rt.Chance(k.t, 40) {
			scope = m.Decls
		}
		for _, d := range scope {
			switch d.(type) {
			case *pgen.Message, *pgen.Enum:
				types = append(types, d)
			}
		}
		if len(types) == 0 {
			return false
		}
		set := func(d any, s string) string {
			switch x := d.(type) {
			case *pgen.Message:
				if s != "" {
					x.Name = s
				}
				return x.Name
			case *pgen.Enum:
				if s != "" {
					x.Name = s
				}
				return x.Name
			}
			return ""
		}
		if len(types) == 1 || rt.Chance(k.t, 30) { // the same declaration again
			d := types[k.t.Int(len(types))]
			for _, m := range k.f.AllMessages() {
				for i, x := range m.Decls {
					if x == d {
						m.Decls = append(m.Decls[:i:i], append([]any{d}, m.Decls[i:]...)...)
						return true
					}
				}
			}
			k.f.Decls = append(k.f.Decls, d)
			return true
		}
		i := k.t.Int(len(types) - 1)
		set(types[i+1], set(types[i], ""))
		return true
	}},
	{"unknown type", func(k *killer) bool {
		return k.setType(rt.Pick(k.t, "NoSuchType", "no.such.Type", ".NoSuchType", ".google.protobuf.Nothing", "Int32", "int", "float64", "uint", "map_"), nil)
	}},
	{"a field, value or package as type", func(k *killer) bool {
		var names []string
		for _, m := range k.f.AllMessages() {
			for _, f := range m.Fields() {
				names = append(names, "."+m.Full()+"."+f.Name)
			}
		}
		if k.f.Pkg != "" {
			names = append(names, "."+k.f.Pkg)
		}
		for _, s := range k.f.Services() {
			if k.f.Pkg == "" {
				names = append(names, "."+s.Name)
			} else {
				names = append(names, "."+k.f.Pkg+"."+s.Name)
			}
		}
		s, ok := one(k, names)
		return ok && k.setType(s, nil)
	}},
	{"type of a file that is not imported", func(k *killer) bool {
		var names []string
		for _, f := range k.p.Files {
			if f == k.f || k.f.Visible()[f] {
				continue
			}
			for _, m := range f.AllMessages() {
				names = append(names, "."+m.Full())
			}
			for _, e := range f.AllEnums() {
				names = append(names, "."+e.Full())
			}
		}
		if !k.f.Visible()[pgen.WellKnown("timestamp")] {
			names = append(names, ".google.protobuf.Timestamp")
		}
		s, ok := one(k, names)
		return ok && k.setType(s, nil)
	}},
	{"import of a missing file", func(k *killer) bool {
		k.f.Deps = append(k.f.Deps, &pgen.Dep{F: &pgen.File{Path: rt.Pick(k.t, "missing.proto", "a/missing.proto", "google/protobuf/missing.proto", "", "f.proto/x")}, Public: rt.Chance(k.t, 30)})
		return true
	}},
	{"import cycle", func(k *killer) bool {
		var up []string
		for _, x := range k.p.Root().Closure() {
			for _, y := range x.Closure() {
				if y == k.f { // (x may be k.f)
					up = append(up, x.Path)
				}
			}
		}
		s, ok := one(k, up)
		k.f.Deps = append(k.f.Deps, &pgen.Dep{F: &pgen.File{Path: s}, Public: rt.Chance(k.t, 30)})
		return ok
	}},
	{"required", func(k *killer) bool {
		f := k.field(single)
		if f == nil || k.f.Syn == pgen.P2 {
			return false
		}
		f.Label, f.Presence, f.Default = "required", "", ""
		return true
	}},
	{"syntax", func(k *killer) bool {
		k.f.RawSyn = rt.Pick(k.t, "syntax = \"proto4\";", "syntax = \"proto\";", "edition = \"2022\";", "edition = \"1\";", "syntax = \"\";", "syntax = 'PROTO3';", "syntax = \"proto3 \";", "syntax = proto3;", "syntax \"proto3\";", "syntax = \"proto3\"", "syntax = \"proto3\"; syntax = \"proto3\";", "edition = 2023;")
		return true
	}},
	{"go_package", func(k *killer) bool {
		if _, ok := k.p.M[k.f.Path]; ok {
			return false
		}
		k.f.GoPkg = ""
		return true
	}},
	{"enum number twice", func(k *killer) bool {
		for _, e := range k.f.AllEnums() {
			if len(e.Vals) < 2 {
				continue
			}
			i := k.t.Int(len(e.Vals) - 1)
			j := i + 1 + k.t.Int(len(e.Vals)-1-i)
			e.Vals[j].Num = e.Vals[i].Num
			e.Alias = false
			if rt.Chance(k.t, 20) {
				e.Opts = append(e.Opts, pgen.Opt{Name: "allow_alias", Val: "false"})
			}
			return true
		}
		return false
	}},
	{"reserved enum number", func(k *killer) bool {
		e, ok := one(k, k.f.AllEnums())
		if !ok {
			return false
		}
		n := int64(e.Vals[k.t.Int(len(e.Vals))].Num)
		if n < 0 { // the grammar has no negative ranges
			return false
		}
		r := &pgen.Reserved{Max: 2147483647, Ranges: [][2]int64{{n, n}}}
		switch k.t.Int(4) {
		case 0:
			r.Ranges = [][2]int64{{max(0, n-5), n}}
		case 1:
			r.Ranges = [][2]int64{{n, min(n+7, 2147483646)}}
			if n > 2147483646 {
				r.Ranges = [][2]int64{{n, n}}
			}
		case 2:
			r.Ranges = [][2]int64{{max(0, n-5), r.Max}}
		}
		e.Reserved = append(e.Reserved, r)
		return true
	}},
	{"reserved enum name", func(k *killer) bool {
		e, ok := one(k, k.f.AllEnums())
		if !ok || k.f.Syn == pgen.E23 {
			return false
		}
		e.Reserved = append(e.Reserved, &pgen.Reserved{Names: []string{e.Vals[k.t.Int(len(e.Vals))].Name}})
		return true
	}},
	{"enum number out of range", func(k *killer) bool {
		e, ok := one(k, k.f.AllEnums())
		if !ok {
			return false
		}
		e.Vals[len(e.Vals)-1].Raw = rt.Pick(k.t, "2147483648", "-2147483649", "4294967295", "0x80000000", "-0x80000001", "020000000000", "4294967296", "18446744073709551616", "-18446744073709551615", "1.0", "x", "--1", "'1'")
		return true
	}},
	{"enum value name twice", func(k *killer) bool {
		e, ok := one(k, k.f.AllEnums())
		if !ok || len(e.Vals) < 2 {
			return false
		}
		e.Vals[1].Name = e.Vals[0].Name
		return true
	}},
	{"option value", func(k *killer) bool {
		var opt pgen.Opt
		switch k.t.Int(6) {
		case 0:
			opt = pgen.Opt{Name: "packed", Val: rt.Pick(k.t, "maybe", "1", "TRUE", "'yes'")}
		case 1:
			opt = pgen.Opt{Name: "features.field_presence", Val: rt.Pick(k.t, "SOMETIMES", "explicit", "1", "PACKED")}
		case 2:
			opt = pgen.Opt{Name: "features.repeated_field_encoding", Val: rt.Pick(k.t, "packed", "EXPLICIT", "UNPACKED")}
		case 3:
			opt = pgen.Opt{Name: "features.message_encoding", Val: rt.Pick(k.t, "DELIMITED", "GROUP")}
		case 4:
			opt = pgen.Opt{Name: "features", Val: rt.Pick(k.t, "{ message_encoding: DELIMITED }", "{ field_presence: NEVER }", "{ repeated_field_encoding: PACKED, field_presence: X }")}
		case 5:
			e, ok := one(k, k.f.AllEnums())
			if !ok {
				return false
			}
			e.Opts = append(e.Opts, pgen.Opt{Name: "allow_alias", Val: rt.Pick(k.t, "maybe", "1", "True")})
			e.Alias = false
			return true
		}
		if opt.Name != "packed" {
			if k.f.Syn != pgen.E23 {
				return false
			}
			if rt.Chance(k.t, 30) {
				k.f.Opts = append(k.f.Opts, opt)
				k.f.Presence, k.f.Packing = "", ""
				return true
			}
		}
		f := k.field(nil)
		if f == nil {
			return false
		}
		f.Packed, f.Packing, f.Presence, f.Opts = "", "", "", append(f.Opts, opt)
		return true
	}},
	{"map key", func(k *killer) bool {
		f := k.field(func(f *pgen.Field) bool { return f.IsMap() })
		if f == nil {
			return false
		}
		f.Key = rt.Pick(k.t, "float", "double", "bytes", ".x.Y", "Foo", "repeated int32", "")
		if f.Key == "" {
			f.Key = "int32, int32"
		}
		return true
	}},
	{"label", func(k *killer) bool {
		f := k.field(func(f *pgen.Field) bool { return f.IsMap() || f.Up != nil || k.f.Syn == pgen.P2 && single(f) })
		if f == nil {
			return false
		}
		f.Presence, f.Packing = "", ""
		if f.IsMap() || f.Up != nil {
			f.Label = rt.Pick(k.t, "repeated", "optional", "required")
		} else {
			f.Label = rt.Pick(k.t, "optional repeated", "repeated repeated", "some", "required optional")
		}
		return true
	}},
	{"map in oneof", func(k *killer) bool {
		f := k.field(func(f *pgen.Field) bool { return f.Up != nil })
		if f == nil {
			return false
		}
		f.Key = "string"
		return true
	}},
	{"second package", func(k *killer) bool {
		if k.f.Pkg == "" {
			return false
		}
		k.f.Pkg += "; package " + rt.Pick(k.t, "other", k.f.Pkg)
		for _, f := range k.fields(nil) { // keep out of the way
			f.Msg, f.Enum, f.Type = nil, nil, "int32"
		}
		return true
	}},
	{"reserved bound", func(k *killer) bool {
		far := int64(2147483648) + int64(k.t.Int(2))*1000000000000
		if e, ok := one(k, k.f.AllEnums()); ok && rt.Chance(k.t, 40) {
			n := int64(2147480000)
			e.Reserved = append(e.Reserved, &pgen.Reserved{Ranges: [][2]int64{rt.Pick(k.t, [2]int64{n, far}, [2]int64{far, far})}})
			return true
		}
		m, ok := one(k, k.f.AllMessages())
		if ok {
			addReserved(m, k.t.Int(100), &pgen.Reserved{Ranges: [][2]int64{rt.Pick(k.t, [2]int64{18800, far}, [2]int64{far, far}, [2]int64{far, far + 5})}})
		}
		return ok
	}},
	{"names of two kinds", func(k *killer) bool {
		decls := &k.f.Decls
		m, ok := one(k, k.f.AllMessages())
		if ok && rt.Chance(k.t, 60) {
			decls = &m.Decls
		} else {
			m = nil
		}
		var names []string
		for _, d := range *decls {
			switch x := d.(type) {
			case *pgen.Message:
				names = append(names, x.Name)
			case *pgen.Enum:
				names = append(names, x.Name)
				for _, v := range x.Vals {
					names = append(names, v.Name)
				}
			case *pgen.Service:
				names = append(names, x.Name)
			case *pgen.Field:
				names = append(names, x.Name)
			case *pgen.Oneof:
				names = append(names, x.Name)
				for _, f := range x.Fields {
					names = append(names, f.Name)
				}
			}
		}
		name, ok := one(k, names)
		if !ok {
			return false
		}
		var d any
		switch k.t.Int(4) {
		case 0:
			d = &pgen.Message{F: k.f, Up: m, Name: name}
		case 1:
			e := &pgen.Enum{F: k.f, Up: m, Name: name}
			e.Vals = []*pgen.EnumVal{{E: e, Name: "zero_of_it"}}
			d = e
		case 2:
			e := &pgen.Enum{F: k.f, Up: m, Name: "EnumOfIt"}
			e.Vals = []*pgen.EnumVal{{E: e, Name: name}}
			d = e
		case 3:
			if m == nil {
				d = &pgen.Service{F: k.f, Name: name}
			} else {
				o := &pgen.Oneof{M: m, Name: name}
				o.Fields = []*pgen.Field{{M: m, Up: o, Name: "member_of_it", Type: "int32", Num: 300000000}}
				d = o
			}
		}
		at := k.t.Int(len(*decls) + 1)
		*decls = append((*decls)[:at:at], append([]any{d}, (*decls)[at:]...)...)
		return true
	}},
	{"method name twice", func(k *killer) bool {
		s, ok := one(k, k.f.Services())
		if !ok || len(s.Methods) == 0 {
			return false
		}
		x := *s.Methods[k.t.Int(len(s.Methods))]
		x.In, x.Out = x.Out, x.In
		s.Methods = append(s.Methods, &x)
		return true
	}},
	{"method of no message", func(k *killer) bool {
		for _, s := range k.f.Services() {
			if len(s.Methods) == 0 {
				continue
			}
			m := s.Methods[k.t.Int(len(s.Methods))]
			bad := &pgen.Message{F: &pgen.File{}, Name: rt.Pick(k.t, "NoSuchType", "int32", "string", "no.such.Type")}
			if es := k.f.AllEnums(); len(es) > 0 && rt.Chance(k.t, 50) {
				bad.Name = es[k.t.Int(len(es))].Full()
			}
			if rt.Chance(k.t, 50) {
				m.In = bad
			} else {
				m.Out = bad
			}
			return true
		}
		return false
	}},
}

// textMutations damage the text (in plain style, with one token list).
var textMutations = []struct {
	name string
	fn   func(t *rt.T, s string) (string, bool)
}{
	{"stray character", func(t *rt.T, s string) (string, bool) {
		at, ok := outside(t, s)
		return s[:at] + rt.Pick(t, "@", "#", "$", "`", "~", "?", "!", "\\", "|", "&", "^", "%", "\x00", "é", "\x01", "*") + s[at:], ok
	}},
	{"unterminated", func(t *rt.T, s string) (string, bool) {
		at, ok := outside(t, s)
		return s[:at] + rt.Pick(t, "\"", "'", "/*") + s[at:], ok
	}},
	{"stray token", func(t *rt.T, s string) (string, bool) {
		at, ok := outside(t, s)
		return s[:at] + rt.Pick(t, " ) ", " ( ", " } ", " { ", " ] ", " [ ", " = ", " , ", " < ", " > ", " 12 ", " + ", " : ") + s[at:], ok
	}},
	{"missing token", func(t *rt.T, s string) (string, bool) {
		var at []int
		for i := 0; i < len(s); i++ {
			if strings.IndexByte("{}=()<>", s[i]) >= 0 {
				at = append(at, i)
			} else if s[i] == ';' && strings.Contains(s[:i], "{") && i+1 < len(s) && !strings.Contains(s[strings.LastIndexByte(s[:i], '\n')+1:i], "= {") { // (in an aggregate it may be missing)
				at = append(at, i)
			}
		}
		if len(at) == 0 {
			return s, false
		}
		i := at[t.Int(len(at))]
		return s[:i] + s[i+1:], true
	}},
	{"end of file", func(t *rt.T, s string) (string, bool) {
		i := strings.LastIndexByte(strings.TrimSpace(s), '}')
		if i < 0 {
			return s, false
		}
		j := strings.IndexByte(s, '{')
		for n := 0; n < 20; n++ {
			k := j + 1 + t.Int(i-j)
			if depth(s[:k]) > 0 {
				return s[:k], true
			}
		}
		return s, false
	}},
	{"extra closing", func(t *rt.T, s string) (string, bool) { return s + rt.Pick(t, "}", "\n}\n", ")", ";}", "{}"), true }},
	{"keyword", func(t *rt.T, s string) (string, bool) {
		for _, w := range []string{"message ", "enum ", "oneof ", "service ", "rpc ", "returns (", "map<", "import ", "option "} {
			i := strings.Index(s, w)
			for w[len(w)-1] == ' ' && i >= 0 && strings.TrimSpace(s[strings.LastIndexByte(s[:i], '\n')+1:i]) != "" {
				n := strings.Index(s[i+1:], w) // not at the beginning of a line
				if n < 0 {
					i = -1
				} else {
					i += 1 + n
				}
			}
			if i >= 0 && rt.Chance(t, 35) {
				return s[:i] + rt.Pick(t, "mesage ", "Message ", "struct ", "enums ", "") + s[i+len(w):], true
			}
		}
		return s, false
	}},
}

func depth(s string) int { return strings.Count(s, "{") - strings.Count(s, "}") }

// outside picks a position between two tokens of s, which has no comments
// and no strings with spaces.
func outside(t *rt.T, s string) (int, bool) {
	var at []int
	for i := 1; i < len(s); i++ {
		if s[i] == ' ' || s[i] == '\n' {
			at = append(at, i)
		}
	}
	if len(at) == 0 {
		return 0, false
	}
	return at[t.Int(len(at))], true
}

func rejects(t *rt.T) {
	text := rt.Chance(t, 25)
	c := pgen.Cfg{Svc: true, WKT: rt.Chance(t, 20), SameGo: true, Enums: rt.Chance(t, 30), Resv: rt.Chance(t, 30), M: rt.Chance(t, 20)}
	if !text {
		c.Noise, c.Ext, c.Notes = rt.Chance(t, 30), rt.Chance(t, 30), rt.Chance(t, 20)
	}
	r := draw(t, c, pgen.Style{})
	cl := r.p.Root().Closure()
	k := &killer{t: t, p: r.p}
	for k.f == nil || k.f.WKT != nil {
		k.f = cl[t.Int(len(cl))]
		if k.f.WKT != nil {
			k.f = r.p.Root()
		}
	}
	for _, f := range cl {
		f.Visible()
	}
	what := ""
	if text {
		for try := 0; what == ""; try++ {
			if try > 10 {
				t.Skip()
			}
			m := textMutations[t.Int(len(textMutations))]
			if s, ok := m.fn(t, r.texts[k.f]); ok {
				r.texts[k.f], what = s, m.name
			}
		}
	} else {
		for try := 0; what == ""; try++ {
			if try > 20 {
				t.Skip()
			}
			if m := mutations[t.Int(len(mutations))]; m.fn(k) {
				what = m.name
			}
		}
		st := pgen.Style{R: t, Wild: rt.Chance(t, 20), Lits: rt.Chance(t, 30)}
		r.texts[k.f] = pgen.Render(k.f, st)
	}
	t.Label(what)
	t.NonTrivial(true)
	t.Key(what, r.texts[k.f])
	t.Logf("%s in %s; the texts now:\n%s", what, k.f.Path, pgen.DumpTexts(r.p, r.texts))
	dir, clean := scratch()
	defer clean()
	out, err := r.p.Run(dir, r.texts, pgen.GenOpt{Getter: true})
	switch err.(type) {
	case nil:
		t.Fatalf("the schema is invalid (%s in %s) but accepted: code of %d files was generated", what, k.f.Path, len(out.Src))
	case pgen.Fatal:
	default:
		t.Fatalf("the schema is invalid (%s in %s); instead of a message there is %v", what, k.f.Path, err)
	}
	// what is refused leaves no code behind
	filepath.Walk(filepath.Join(dir, "out"), func(p string, fi os.FileInfo, err error) error {
		if err == nil && !fi.IsDir() && what != "" {
			t.Fatalf("the schema is refused (%v) but code was written: %s", err, filepath.Base(p))
		}
		return nil
	})
	_ = fmt.Sprint
}
