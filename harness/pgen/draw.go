package pgen

import (
	"fmt"
	"math"
	"strings"

	"verif/rt"
)

// Cfg says what may appear in a project.
type Cfg struct {
	Files    int    // most files (default 4)
	Msgs     int    // most top-level messages per file (default 4)
	Prefix   string // of Go import paths (default example.com)
	Dir      string // of all files ("dir/")
	WKT      bool   // imports of well-known types
	Dirs     bool   // prutalgen directives and gogoproto options
	Svc      bool   // services
	Notes    bool   // comments on elements
	Noise    bool   // options that mean nothing to the generator
	Ext      bool   // extensions and extend
	Resv     bool   // reserved declarations
	OddGo    bool   // odd Go packages
	M        bool   // M options
	PlainNm  bool   // no names that need conflict resolution
	SameGo   bool   // files may share a Go package
	ByValue  bool   // with Dirs: also by-value messages
	OddNm    bool   // many names that need conversion or conflict resolution, more nesting and oneofs
	Enums    bool   // many enums
	Shadow   bool   // few names for packages and types, so that they hide each other
	NoSyntax int    // force a syntax: 1+Syntax
}

type drawer struct {
	rt.Rnd
	c    Cfg
	p    *Project
	note int
	many string // the name of all Go packages
}

var fieldNames = []string{"a", "b", "c", "name", "value", "id", "foo", "foo_bar", "fooBar", "bar", "baz", "x", "f1", "key", "data"}
var oddFieldNames = []string{
	"FooBar", "Foo", "FOO", "FOO_BAR", "foo__bar", "foo_", "_foo", "_foo_bar", "foo_1", "foo1", "foo_1_bar", "x_y_z", "xXX", "X", "a_B", "A1", "f_1a", "a1b", "__a", "a__", "aB_c",
	"reset", "string", "String", "marshal", "unmarshal", "proto_message", "ProtoMessage", "descriptor", "extension_map", "extension_range_array", "Reset", "marshal_", "reset_",
	"get_foo", "get_name", "GetFoo", "get_a", "getX", "get_get_foo", "get_reset", "get_string", "proto_reflect",
	"type", "func", "range", "map", "interface", "struct", "return", "var", "package", "nil", "int", "error", "len", "bool", "bytes", "int32", "uint64", "double", "float", "fixed32", "sint64",
	"syntax", "edition", "import", "weak", "public", "option", "optional", "repeated", "oneof", "reserved", "extensions", "to", "max", "enum", "message", "service", "extend", "rpc", "stream", "returns", "true", "false", "required",
	"unknown_fields", "size_cache", "state", "xxx_unrecognized", "p", "ok", "s",
}
var typeNames = []string{"A", "B", "C", "Foo", "Bar", "Baz", "Node", "Inner", "Outer", "Item", "Empty"}
var oddTypeNames = []string{"foo", "foo_bar", "FooBar", "Foo_Bar", "Foo_bar", "M1", "m2", "_M", "X_y", "String", "Reset", "Timestamp", "Any", "google", "HTTPServer", "Foo1Bar", "foo_1", "a", "b", "Unmarshal", "M", "Value", "Name", "a_b", "A_", "x"}
var enumNames = []string{"E", "Kind", "Color", "Status", "Level"}
var oddEnumNames = []string{"kind", "color_kind", "Foo_Kind", "_E", "E1", "e", "Mode_", "HTTPCode"}
var valNames = []string{"ZERO", "ONE", "TWO", "UNKNOWN", "FOO", "BAR", "RED", "GREEN"}
var oddValNames = []string{"foo", "Bar", "foo_bar", "KIND_A", "A", "B", "E_X", "_X", "x1", "NULL", "type", "func", "String", "max", "to", "true", "required"}

// pick returns an unused name: used returns whether it may be taken.
func (d *drawer) name(plain, odd []string, take func(string) bool) string {
	for try := 0; ; try++ {
		var s string
		if d.c.PlainNm || d.c.Shadow || d.Int(100) >= d.oddPct() {
			s = plain[d.Int(len(plain))]
		} else {
			s = odd[d.Int(len(odd))]
		}
		if try > 2 {
			s = fmt.Sprintf("%s%d", plain[d.Int(len(plain))], try+d.Int(7))
		}
		if take(s) {
			return s
		}
	}
}

func (d *drawer) oddPct() int {
	if d.c.OddNm {
		return 65
	}
	return 35
}

func (d *drawer) some(n, more int) int {
	if d.c.OddNm {
		return more
	}
	return n
}

func (p *Project) take(full, kind string) bool {
	if k, ok := p.used[full]; ok {
		return k == "package" && kind == "package"
	}
	p.used[full] = kind
	return true
}

func (d *drawer) chance(pct int) bool { return rt.Chance(d, pct) }

func pick[T any](d *drawer, vs ...T) T { return vs[d.Int(len(vs))] }

// Draw makes a project.
func Draw(r rt.Rnd, c Cfg) *Project {
	if c.Files == 0 {
		c.Files = 4
	}
	if c.Msgs == 0 {
		c.Msgs = 4
	}
	if c.Prefix == "" {
		c.Prefix = "example.com"
	}
	d := &drawer{Rnd: r, c: c, p: &Project{used: map[string]string{}, M: map[string]string{}}}
	n := 1 + rt.Weighted(r, 45, 30, 15, 10)
	if n > c.Files {
		n = c.Files
	}
	if c.OddGo && c.Files == 4 && d.chance(4) {
		// many Go packages of one name in one file
		d.many = pick(d, "pb", "foo", "string", "v1")
		n = 5 + d.Int(3)
		d.c.Msgs = 1
	}
	for i := 0; i < n; i++ {
		d.file(i, n)
	}
	for _, f := range d.p.Files {
		d.decls(f)
	}
	for _, f := range d.p.Files {
		for _, m := range f.AllMessages() {
			d.fill(m)
		}
	}
	for _, f := range d.p.Files {
		if c.Ext && (d.chance(25)) {
			d.extend(f)
		}
		if c.Svc {
			for k := rt.Weighted(d, 45, 40, 15); k > 0; k-- {
				d.service(f)
			}
		}
	}
	if c.Resv {
		for _, f := range d.p.Files {
			for _, m := range f.AllMessages() {
				d.reserve(m)
			}
			for _, e := range f.AllEnums() {
				d.reserveEnum(e)
			}
		}
	}
	d.goPackages()
	return d.p
}

func (d *drawer) file(i, n int) {
	f := &File{Prj: d.p}
	f.Path = d.c.Dir + pick(d, "", "", "", "sub/", "a/b/", "sub-dir/", "v1.2/", "a.proto/") + fmt.Sprintf(pick(d, "f%d.proto", "file%d.proto", "x-%d.proto", "Y%d.proto", "f%d.v1.proto", "v1.%d.proto", "f%d.proto.proto", "f %d.proto", pick(d, "f%d", "f%d.idl", "f%d.proto2", "proto.%d")), i)
	f.Syn = []Syntax{P3, P2, E23}[rt.Weighted(d, 40, 30, 30)]
	if d.c.NoSyntax > 0 {
		f.Syn = Syntax(d.c.NoSyntax - 1)
	}
	f.NoSyntax = f.Syn == P2 && d.chance(20)
	for try := 0; ; try++ {
		f.Pkg = pick(d, "", "a", "b", "a.b", "a.b.c", "foo", "foo.bar", "foo.bar.baz", "b.a", "pkg.v1", "google.api", "x.A", "_p.q1")
		if d.c.Shadow {
			f.Pkg = pick(d, "a", "", "a.b", "b", "a.a", "b.a", "a.b.c", "c", "b.c")
		}
		if try > 3 {
			f.Pkg = fmt.Sprintf("p%d", try+i)
		}
		ok := true
		parts := strings.Split(f.Pkg, ".")
		for k := range parts {
			if f.Pkg != "" && !d.p.take(strings.Join(parts[:k+1], "."), "package") {
				ok = false
			}
		}
		if ok {
			break
		}
	}
	if f.Syn == E23 {
		f.Presence = pick(d, "", "", "EXPLICIT", "IMPLICIT")
		f.Packing = pick(d, "", "", "PACKED", "EXPANDED")
		f.EnumType = pick(d, "", "", "OPEN", "CLOSED")
		f.AggrFeat = d.chance(15)
		if f.Presence == "IMPLICIT" && f.EnumType == "CLOSED" {
			f.EnumType = ""
		}
	}
	for _, x := range d.p.Files {
		if d.chance(map[bool]int{true: 70, false: 45}[i == n-1]) || d.many != "" && i == n-1 {
			f.Deps = append(f.Deps, &Dep{F: x, Public: d.chance(30)})
			if y := f.Deps[len(f.Deps)-1]; !y.Public && d.chance(4) {
				y.Weak = true
			}
		}
	}
	if d.c.WKT {
		for k := rt.Weighted(d, 65, 25, 10); k > 0; k-- {
			w := WellKnown(pick(d, "timestamp", "duration", "wrappers", "struct", "any", "empty", "field_mask", "api", "type", "source_context", "descriptor"))
			dup := false
			for _, x := range f.Deps {
				dup = dup || x.F == w
			}
			if !dup {
				f.Deps = append(f.Deps, &Dep{F: w, Public: d.chance(10)})
			}
		}
	}
	// the order of imports is free
	for k := len(f.Deps) - 1; k > 0; k-- {
		j := d.Int(k + 1)
		f.Deps[k], f.Deps[k-j+0] = f.Deps[k-j+0], f.Deps[k]
	}
	if d.c.Noise {
		f.Opts = d.noise(f, "java_package = \"com.x\"", "optimize_for = SPEED", "cc_enable_arenas = true", "java_multiple_files = false", "objc_class_prefix = 'X'", "deprecated = true", "csharp_namespace = \"A.B\"")
	}
	if d.c.Dirs && !f.NoSyntax {
		f.Dirs = d.dirs("unknown_fields", "no_unknown_fields", "no_enum_prefix", "no_enum_mapping", "no_pointer")
		f.GogoUnk = pick(d, "", "", "", "true", "false")
		f.GogoEnum = pick(d, "", "", "", "true", "false")
	}
	d.p.Files = append(d.p.Files, f)
}

// dirs draws directives, mostly none.
func (d *drawer) dirs(all ...string) (out []string) {
	if !d.c.Dirs || !d.chance(22) {
		return nil
	}
	for k := 1 + rt.Weighted(d, 70, 25, 5); k > 0; k-- {
		s := all[d.Int(len(all))]
		if d.chance(6) {
			s = pick(d, "something_else", "nopointer", "no_enum", "unknown")
		}
		out = append(out, s)
	}
	return
}

// noise draws options; std are standard ones.
func (d *drawer) noise(f *File, std ...string) (out []Opt) {
	if !d.c.Noise || !d.chance(30) {
		return nil
	}
	seen := map[string]bool{}
	for k := 1 + d.Int(2); k > 0; k-- {
		var o Opt
		if len(std) > 0 && d.chance(50) {
			n, v, _ := strings.Cut(std[d.Int(len(std))], " = ")
			o = Opt{n, v}
		} else {
			o = Opt{pick(d, "(my_opt)", "(foo.bar)", "(foo.bar).baz", "(.a.b.c)", "(gogoproto.goproto_getters)", "(x).y.z"), pick(d, "true", "1", "-12", "0x1F", "'s'", "\"a;b//c\"", "1.5", "-1e10", "IDENT", "{ a: 1 }", "{ a: \"x\", b: 2; c { }", "inf", "\"a\" \"b\"")}
			if strings.HasPrefix(o.Name, "(.") {
				o.Name = "(a.b.c)"
			}
			if strings.HasPrefix(o.Val, "{ a: \"x\"") {
				o.Val = "{ a: \"x\", b: 2; c: { d: false } }"
			}
		}
		if !seen[o.Name] {
			seen[o.Name] = true
			out = append(out, o)
		}
	}
	return
}

func (d *drawer) decls(f *File) {
	nm := rt.Weighted(d, 4, 30, 30, 20, 16)
	if nm > d.c.Msgs {
		nm = d.c.Msgs
	}
	ne := rt.Weighted(d, 50, 35, 15)
	if d.c.Enums {
		nm, ne = nm/2, 1+d.Int(3)
	}
	for nm+ne > 0 {
		if ne > 0 && (nm == 0 || d.chance(40)) {
			ne--
			if e := d.enum(f, nil); e != nil {
				f.Decls = append(f.Decls, e)
			}
		} else {
			nm--
			f.Decls = append(f.Decls, d.message(f, nil, 0))
		}
	}
}

func (d *drawer) message(f *File, up *Message, depth int) *Message {
	m := &Message{F: f, Up: up}
	names := typeNames
	if d.c.Shadow {
		names = []string{"a", "b", "c", "d"}
	}
	m.Name = d.name(names, oddTypeNames, func(s string) bool {
		if d.c.OddNm && up != nil && len(up.Decls) > 0 && d.chance(25) {
			// next to A, A_ makes M_A_ taken as well as M_A
			switch x := up.Decls[d.Int(len(up.Decls))].(type) {
			case *Message:
				s = x.Name + "_"
			case *Enum:
				s = x.Name + "_"
			}
		}
		m.Name = s
		return d.p.take(m.Full(), "message")
	})
	if depth < 3 {
		for k := rt.Weighted(d, d.some(70, 40), 22, 8); k > 0; k-- {
			m.Decls = append(m.Decls, d.message(f, m, depth+1))
		}
		for k := rt.Weighted(d, map[bool]int{true: 30, false: 75}[d.c.Enums], 20, 5); k > 0; k-- {
			if e := d.enum(f, m); e != nil {
				m.Decls = append(m.Decls, e)
			}
		}
	}
	m.Opts = d.noise(f, "deprecated = true")
	m.Dirs = d.dirs("unknown_fields", "no_unknown_fields", "no_pointer", "no_enum_prefix")
	m.DirsIn = d.dirs("unknown_fields", "no_unknown_fields", "no_pointer")
	if d.c.Dirs {
		m.GogoUnk = pick(d, "", "", "", "", "true", "false")
	}
	m.Note = d.notes("M")
	if d.c.Ext && f.Syn != P3 && d.chance(25) {
		m.exts = true
		m.Decls = append(m.Decls, &ExtRange{100, 199})
		if d.chance(30) {
			m.Decls = append(m.Decls, &ExtRange{1000, 536870911})
		}
	}
	return m
}

func (d *drawer) notes(kind string) (n Note) {
	if !d.c.Notes {
		return
	}
	text := func() string {
		d.note++
		return fmt.Sprintf("%s%d#%s", kind, d.note, pick(d, "", " text", " 100%d %s %", " `x`", " \\n \\", " \"q\" 'r'", " {PRUTALGEN_GO_IMPORTS}", " é世界", " a = 1; }", " // more", " TODO: x", " \ufeffx\x00y", "\x00", "\ufeff", " a\u2028b\u0085c", " \x01\x7f"))
	}
	if d.chance(35) {
		for k := 1 + rt.Weighted(d, 60, 25, 15); k > 0; k-- {
			switch d.Int(4) {
			case 0:
				n.Head = append(n.Head, "/* "+text()+" */")
			case 1:
				n.Head = append(n.Head, "/* "+text()+"\n * second line\n */")
			default:
				n.Head = append(n.Head, "// "+text())
			}
		}
	}
	if d.chance(12) {
		n.Apart = pick(d, "// apart", "/* apart */", "/* apart\n\n more */", "// apart\n// more") + pick(d, "\n\n", "\n\n", "\n  \n", "\r\n\r\n", "\n\t\n\n", "\n \n  ")
		if d.c.Dirs && d.chance(40) {
			n.Apart = pick(d, "//prutalgen:no_pointer,unknown_fields", "//prutalgen:no_enum_prefix,no_enum_mapping", "// apart\n//prutalgen:no_pointer") + pick(d, "\n\n", "\n  \n", "\r\n\r\n")
		}
	}
	if d.chance(30) {
		if d.chance(30) {
			n.Inline = "/* " + text() + pick(d, " */", " */", "\n * second line */", "\n\n  */")
		} else {
			n.Inline = "// " + text()
		}
	}
	return
}

func (d *drawer) enum(f *File, up *Message) *Enum {
	e := &Enum{F: f, Up: up}
	names := enumNames
	if d.c.Shadow {
		names = []string{"d", "a", "e", "c"}
	}
	e.Name = d.name(names, oddEnumNames, func(s string) bool {
		e.Name = s
		return d.p.take(e.Full(), "enum")
	})
	if f.Syn == E23 {
		e.EnumType = pick(d, "", "", "", "OPEN", "CLOSED")
	}
	scope := f.Pkg
	if up != nil {
		scope = up.Full()
	}
	e.Alias = d.chance(20)
	nums := map[int32]bool{}
	prefixed := d.chance(50)
	alias := false
	jn := map[string]bool{}
	for k := 1 + d.Int(5); k > 0; k-- {
		v := &EnumVal{E: e}
		v.Name = d.name(valNames, oddValNames, func(s string) bool {
			if prefixed {
				s = strings.ToUpper(e.Name) + "_" + s
			}
			// names that differ only in prefix or case conflict
			c := strings.ToLower(strings.ReplaceAll(s, "_", ""))
			c = strings.TrimPrefix(c, strings.ToLower(strings.ReplaceAll(e.Name, "_", "")))
			if jn[c] || !d.p.take(join(scope, s), "other") {
				return false
			}
			jn[c] = true
			return true
		})
		if prefixed {
			v.Name = strings.ToUpper(e.Name) + "_" + v.Name
		}
		if len(e.Vals) == 0 && (!e.Closed() || d.chance(60)) {
			v.Num = 0
		} else {
			for try := int32(0); ; try++ {
				v.Num = []int32{int32(len(e.Vals)), int32(d.Int(20)), int32(d.Int(40)) - 20, int32(d.Int(100000)), pick[int32](d, math.MaxInt32, math.MinInt32, math.MinInt32+1, -1, 19000, 19999, 536870912, 255, 256)}[rt.Weighted(d, 40, 20, 12, 10, 18)]
				if try > 8 {
					v.Num = try + int32(len(e.Vals))
				}
				if nums[v.Num] {
					if !e.Alias {
						continue
					}
					alias = true
				}
				break
			}
		}
		nums[v.Num] = true
		v.Opts = d.noise(f, "deprecated = true")
		v.Dirs = d.dirs("no_enum_prefix")
		v.Note = d.notes("V")
		e.Vals = append(e.Vals, v)
	}
	e.Alias = alias
	e.Opts = d.noise(f, "deprecated = true")
	e.Dirs = d.dirs("no_enum_prefix", "no_enum_mapping")
	e.DirsIn = d.dirs("no_enum_prefix", "no_enum_mapping")
	if d.c.Dirs {
		e.GogoPfx = pick(d, "", "", "", "", "true", "false")
	}
	e.Note = d.notes("E")
	return e
}

// Scalars are the scalar types of the language.
var Scalars = []string{"int32", "string", "bool", "int64", "uint32", "uint64", "sint32", "sint64", "fixed32", "fixed64", "sfixed32", "sfixed64", "float", "double", "bytes"}
var keyTypes = []string{"string", "int32", "int64", "uint32", "uint64", "sint32", "sint64", "fixed32", "fixed64", "sfixed32", "sfixed64", "bool"}

func packable(t string) bool { return t != "" && t != "string" && t != "bytes" }

// Packable reports whether the element type can be packed.
func (f *Field) Packable() bool { return f.Enum != nil || packable(f.Type) }

// msgs lists the messages that f may refer to, those of f first.
func (d *drawer) targets(f *File) (ms []*Message, es []*Enum) {
	ms = append(ms, f.AllMessages()...)
	es = append(es, f.AllEnums()...)
	for _, x := range f.Closure() {
		if x != f && f.Visible()[x] {
			ms = append(ms, x.AllMessages()...)
			es = append(es, x.AllEnums()...)
		}
	}
	return
}

func (d *drawer) fill(m *Message) {
	nf := rt.Weighted(d, 6, 14, 20, 18, 16, 12, 8, 6)
	jn := map[string]bool{}
	nums := map[int32]bool{}
	take := func(s string) bool {
		j := strings.ToLower(strings.ReplaceAll(s, "_", ""))
		if jn[j] || !d.p.take(m.Full()+"."+s, "other") {
			return false
		}
		jn[j] = true
		return true
	}
	num := func() int32 {
		for try := 0; ; try++ {
			var n int
			switch rt.Weighted(d, 55, 15, 10, 10, 10) {
			case 0:
				n = len(nums) + 1 + d.Int(2)
			case 1:
				n = 1 + d.Int(15)
			case 2:
				n = 16 + d.Int(100)
			case 3:
				n = 1 + d.Int(20000)
			case 4:
				n = pick(d, 536870911, 536870910, 18999, 20000, 15, 16, 2047, 2048, 999, 1000, 1001)
			}
			if try > 8 {
				n = try + len(nums)
			}
			if n >= 19000 && n <= 19999 || nums[int32(n)] || m.exts && (n >= 100 && n < 200 || n >= 1000) {
				continue
			}
			nums[int32(n)] = true
			return int32(n)
		}
	}
	var fs []any
	for i := 0; i < nf; i++ {
		if d.chance(d.some(13, 25)) {
			o := &Oneof{M: m, Opts: nil}
			o.Name = d.name(append([]string{"o", "kind", "choice", "one"}, fieldNames...), oddFieldNames, take)
			for k := 1 + d.Int(3); k > 0; k-- {
				f := d.field(m, o)
				plain := fieldNames
				if d.c.OddNm && d.chance(50) { // names whose wrappers are like nested types
					var like []string
					for _, x := range m.Messages() {
						like = append(like, strings.ToLower(x.Name[:1])+x.Name[1:], strings.ToLower(x.Name))
					}
					for _, x := range m.Enums() {
						like = append(like, strings.ToLower(x.Name[:1])+x.Name[1:])
					}
					if len(like) > 0 {
						plain = like
					}
				}
				f.Name = d.name(plain, oddFieldNames, take)
				f.Num = num()
				o.Fields = append(o.Fields, f)
			}
			if d.chance(10) {
				o.Opts = d.noise(m.F)
			}
			fs = append(fs, o)
			continue
		}
		f := d.field(m, nil)
		f.Name = d.name(fieldNames, oddFieldNames, func(s string) bool {
			if f.Key != "" { // the name of the entry message
				if _, ok := d.p.used[m.Full()+"."+entryName(s)]; ok {
					return false
				}
			}
			if !take(s) {
				return false
			}
			if f.Key != "" {
				d.p.take(m.Full()+"."+entryName(s), "other")
			}
			return true
		})
		f.Num = num()
		fs = append(fs, f)
	}
	// mix fields with the nested declarations
	for _, x := range fs {
		at := len(m.Decls)
		if d.chance(40) {
			at = d.Int(len(m.Decls) + 1)
		}
		m.Decls = append(m.Decls[:at], append([]any{x}, m.Decls[at:]...)...)
	}
}

func entryName(s string) string {
	var b []byte
	up := true
	for i := 0; i < len(s); i++ {
		switch {
		case s[i] == '_':
			up = true
		case up:
			b = append(b, strings.ToUpper(s[i:i+1])...)
			up = false
		default:
			b = append(b, s[i])
		}
	}
	return string(b) + "Entry"
}

func (d *drawer) field(m *Message, o *Oneof) *Field {
	f := &Field{M: m, Up: o}
	ms, es := d.targets(m.F)
	d.typ(f, ms, es)
	if o == nil {
		switch w := rt.Weighted(d, 55, 30, 15); {
		case w == 2:
			f.Key = keyTypes[d.Int(len(keyTypes))]
		case w == 1:
			f.Label = "repeated"
		case m.F.Syn == P2:
			f.Label = pick(d, "optional", "optional", "required")
		case m.F.Syn == P3 && d.chance(35):
			f.Label = "optional"
		}
	}
	d.adjustEnum(f, es)
	if f.Repeated() && f.Packable() {
		switch {
		case m.F.Syn == E23:
			f.Packing = pick(d, "", "", "PACKED", "EXPANDED")
		default:
			f.Packed = pick(d, "", "", "true", "false")
		}
	}
	if m.F.Syn == E23 && o == nil && !f.Repeated() && f.Key == "" {
		f.Presence = pick(d, "", "", "", "EXPLICIT", "IMPLICIT", "LEGACY_REQUIRED")
		if f.Presence == "IMPLICIT" && (f.Msg != nil || f.Enum != nil && f.Enum.Closed()) {
			f.Presence = ""
		}
		if f.Presence == "" && m.F.Presence == "IMPLICIT" && f.Enum != nil && f.Enum.Closed() {
			f.Presence = "EXPLICIT"
		}
		f.AggrFeat = d.chance(15)
	}
	if d.c.Noise {
		std := []string{"deprecated = true", "deprecated = false"}
		if f.Type == "string" && f.Key == "" {
			std = append(std, "ctype = STRING")
		}
		if f.Msg != nil && f.Key == "" {
			std = append(std, "lazy = false")
		}
		if (f.Type == "int64" || f.Type == "uint64") && f.Key == "" {
			std = append(std, "jstype = JS_STRING")
		}
		f.Opts = d.noise(m.F, std...)
		if d.chance(10) {
			f.JSON = fmt.Sprintf("j%d", d.Int(1000))
		}
	}
	if d.c.Dirs {
		d.byValue(f)
	}
	f.Note = d.notes("F")
	return f
}

// byValue makes the field a non-pointer one, where that gives a legal Go type.
func (d *drawer) byValue(f *Field) {
	if f.Msg != nil && (!d.c.ByValue || f.Msg.F.WKT != nil) {
		return
	}
	switch d.Int(10) {
	case 0:
		f.Dirs = []string{"no_pointer"}
	case 1:
		f.DirsIn = []string{"no_pointer"}
	case 2:
		f.NullOpt = "false"
	case 3:
		f.NullOpt = "true"
	}
}

func (d *drawer) typ(f *Field, ms []*Message, es []*Enum) {
	w := rt.Weighted(d, 58, 28, 14)
	if d.c.Shadow {
		w = rt.Weighted(d, 8, 70, 22)
	}
	if w == 1 && len(ms) == 0 || w == 2 && len(es) == 0 {
		w = 0
	}
	switch w {
	case 0:
		f.Type = Scalars[d.Int(len(Scalars))]
	case 1:
		f.Msg = ms[d.Int(len(ms))]
	case 2:
		f.Enum = es[d.Int(len(es))]
	}
}

func scalarFor(i int) string { return Scalars[i%len(Scalars)] }

// adjustEnum replaces an enum that the field must not use.
func (d *drawer) adjustEnum(f *Field, es []*Enum) {
	if f.Enum == nil || !f.Enum.Closed() {
		return
	}
	bad := f.M.F.Syn == P3 || f.Key != "" && f.Enum.Vals[0].Num != 0
	if bad {
		f.Enum, f.Type = nil, scalarFor(d.Int(len(Scalars)))
	}
	// implicit presence with a closed enum in 2023 is handled in field
	if f.Enum != nil && f.Key != "" && f.M.F.Syn == E23 && f.Enum.Closed() {
		f.Enum, f.Type = nil, scalarFor(d.Int(len(Scalars)))
	}
}

func (d *drawer) extend(f *File) {
	if f.Syn == P3 {
		return
	}
	ms, _ := d.targets(f)
	var cand []*Message
	for _, m := range ms {
		if m.exts {
			cand = append(cand, m)
		}
	}
	if len(cand) == 0 {
		return
	}
	x := &Extend{F: f, Msg: cand[d.Int(len(cand))]}
	scope := f.Pkg
	if all := f.AllMessages(); len(all) > 0 && d.chance(40) {
		x.Up = all[d.Int(len(all))]
		scope = x.Up.Full()
	}
	for k := 1 + d.Int(2); k > 0; k-- {
		num := int32(100 + d.Int(100))
		key := fmt.Sprintf("#%s.%d", x.Msg.Full(), num)
		if !d.p.take(key, "other") {
			continue
		}
		fl := &Field{M: x.Up, Num: num, Type: scalarFor(d.Int(len(Scalars))), Label: pick(d, "optional", "repeated")}
		if f.Syn == E23 && fl.Label == "optional" {
			fl.Label = ""
		}
		fl.Name = d.name([]string{"ext", "ext_a", "my_ext"}, []string{"Ext", "_ext"}, func(s string) bool { return d.p.take(join(scope, s), "other") })
		x.Fields = append(x.Fields, fl)
	}
	if len(x.Fields) == 0 {
		return
	}
	if x.Up != nil {
		x.Up.Decls = append(x.Up.Decls, x)
	} else {
		f.Decls = append(f.Decls, x)
	}
}

func (d *drawer) service(f *File) {
	ms, _ := d.targets(f)
	if len(ms) == 0 {
		return
	}
	s := &Service{F: f, Note: d.notes("S")}
	s.Name = d.name([]string{"Svc", "Service", "Greeter"}, []string{"svc_a", "my_service", "_Svc", "HTTP"}, func(n string) bool { return d.p.take(join(f.Pkg, n), "service") })
	for k := d.Int(4); k > 0; k-- {
		m := &Method{S: s, In: ms[d.Int(len(ms))], Out: ms[d.Int(len(ms))], SIn: d.chance(25), SOu: d.chance(25), Block: d.chance(30), Note: d.notes("R")}
		m.Name = d.name([]string{"Get", "List", "Call", "Echo"}, []string{"get_x", "do", "_M", "stream", "rpc", "Foo_bar"}, func(n string) bool { return d.p.take(join(f.Pkg, s.Name)+"."+n, "other") })
		m.Opts = d.noise(f, "deprecated = true", "idempotency_level = IDEMPOTENT")
		m.Block = m.Block || len(m.Opts) > 0
		m.Dirs = d.dirs("one", "two", "no_pointer", "x.y")
		m.DirsIn = d.dirs("three", "unknown_fields")
		s.Methods = append(s.Methods, m)
	}
	s.Opts = d.noise(f, "deprecated = true")
	s.Dirs = d.dirs("one", "two", "no_pointer", "x.y")
	s.DirsIn = d.dirs("three", "no_enum_prefix")
	f.Decls = append(f.Decls, s)
}

func (d *drawer) reserve(m *Message) {
	if !d.chance(25) {
		return
	}
	r := &Reserved{Max: 536870911}
	used := map[int32]bool{}
	for _, f := range m.Fields() {
		used[f.Num] = true
	}
	if d.chance(70) {
		free := func(a, b int64) bool {
			for n := range used {
				if int64(n) >= a && int64(n) <= b {
					return false
				}
			}
			if m.exts && b >= 100 {
				return false
			}
			for _, x := range r.Ranges {
				if a <= x[1] && x[0] <= b {
					return false
				}
			}
			return true
		}
		for k := 1 + d.Int(3); k > 0; k-- {
			a := int64(1 + d.Int(60))
			b := a
			switch d.Int(4) {
			case 0:
				b = a + int64(d.Int(12))
			case 1:
				if d.chance(30) {
					a, b = int64(100+d.Int(100000)), r.Max
				}
			}
			if free(a, b) {
				r.Ranges = append(r.Ranges, [2]int64{a, b})
			}
		}
	} else {
		for k := 1 + d.Int(2); k > 0; k-- {
			s := pick(d, "gone", "old_name", "removed", "foo2", "was")
			if _, ok := d.p.used[m.Full()+"."+s]; !ok && !has(r.Names, s) {
				r.Names = append(r.Names, s)
			}
		}
	}
	if len(r.Ranges)+len(r.Names) > 0 && !(m.F.Syn == E23 && len(r.Names) > 0) {
		at := d.Int(len(m.Decls) + 1)
		m.Decls = append(m.Decls[:at], append([]any{r}, m.Decls[at:]...)...)
	}
}

func has(ss []string, s string) bool {
	for _, x := range ss {
		if x == s {
			return true
		}
	}
	return false
}

func (d *drawer) reserveEnum(e *Enum) {
	if !d.chance(20) {
		return
	}
	r := &Reserved{Max: math.MaxInt32}
	a := int64(d.Int(50))
	b := a
	if d.chance(40) {
		b = a + int64(d.Int(10))
	} else if d.chance(15) {
		b = r.Max
	}
	for _, v := range e.Vals {
		if int64(v.Num) >= a && int64(v.Num) <= b {
			return
		}
	}
	r.Ranges = append(r.Ranges, [2]int64{a, b})
	e.Reserved = append(e.Reserved, r)
}

func (d *drawer) goPackages() {
	bases := []string{"pb", "a", "b", "v1", "foo"}
	odd := []string{"foo-bar", "foo.bar", "x", "strconv", "prutal", "string", "type", "3d", "go", "p", "s", "ok", "int32", "fmt", "len", "nil", "Foo", "a_b", "timestamppb", "error", "range", "v1.2-x", "_x"}
	aliases := []string{"apb", "x", "foo", "foo-bar", "type", "v1", "strconv", "string", "Foo"}
	type gp struct{ opt, path string }
	var have []gp
	for i, f := range d.p.Files {
		var g gp
		if d.c.SameGo && len(have) > 0 && d.chance(30) {
			g = have[d.Int(len(have))]
		} else {
			base := bases[d.Int(len(bases))]
			if d.c.OddGo && d.chance(45) {
				base = odd[d.Int(len(odd))]
			}
			if d.many != "" {
				base = d.many
			}
			g.path = fmt.Sprintf("%s/g%d/%s", d.c.Prefix, i, base)
			g.opt = g.path
			if d.c.OddGo && d.chance(25) {
				g.opt += ";" + aliases[d.Int(len(aliases))]
			}
			have = append(have, g)
		}
		f.GoPkg, f.GoPath = g.opt, g.path
		if d.goCycle() {
			g.path = fmt.Sprintf("%s/h%d/pb", d.c.Prefix, i)
			g.opt = g.path
			f.GoPkg, f.GoPath = g.path, g.path
			have = append(have, g)
		}
	}
	for i, f := range d.p.Files {
		if d.c.M && d.chance(30) {
			// the option on the command line wins
			shared := false
			for j, x := range d.p.Files {
				shared = shared || j != i && x.GoPath == f.GoPath
			}
			if shared {
				continue
			}
			d.p.M[f.Path] = fmt.Sprintf("%s/m%d/%s", d.c.Prefix, i, bases[d.Int(len(bases))])
			f.GoPath = d.p.M[f.Path]
			if d.c.OddGo && d.chance(25) {
				d.p.M[f.Path] += ";" + aliases[d.Int(len(aliases))]
			}
			if d.chance(50) {
				f.GoPkg = ""
			}
		}
	}
}

// goCycle reports whether the Go packages would import each other.
func (d *drawer) goCycle() bool {
	edges := map[string]map[string]bool{}
	for _, f := range d.p.Files {
		if f.GoPath == "" {
			continue
		}
		for x := range f.Visible() {
			if x.GoPath != "" && x.GoPath != f.GoPath {
				if edges[f.GoPath] == nil {
					edges[f.GoPath] = map[string]bool{}
				}
				edges[f.GoPath][x.GoPath] = true
			}
		}
	}
	state := map[string]int{}
	var visit func(s string) bool
	visit = func(s string) bool {
		if state[s] == 1 {
			return true
		}
		if state[s] == 2 {
			return false
		}
		state[s] = 1
		for t := range edges[s] {
			if visit(t) {
				return true
			}
		}
		state[s] = 2
		return false
	}
	for s := range edges {
		if visit(s) {
			return true
		}
	}
	return false
}
