package pgen

import (
	"fmt"
	"math"
	"sort"
	"strings"
	"sync"

	"google.golang.org/protobuf/compiler/protogen"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protodesc"
	"google.golang.org/protobuf/reflect/protoreflect"
	"google.golang.org/protobuf/reflect/protoregistry"
	"google.golang.org/protobuf/types/descriptorpb"
	"google.golang.org/protobuf/types/known/anypb"
	"google.golang.org/protobuf/types/known/apipb"
	"google.golang.org/protobuf/types/known/durationpb"
	"google.golang.org/protobuf/types/known/emptypb"
	"google.golang.org/protobuf/types/known/fieldmaskpb"
	"google.golang.org/protobuf/types/known/sourcecontextpb"
	"google.golang.org/protobuf/types/known/structpb"
	"google.golang.org/protobuf/types/known/timestamppb"
	"google.golang.org/protobuf/types/known/typepb"
	"google.golang.org/protobuf/types/known/wrapperspb"
	"google.golang.org/protobuf/types/pluginpb"
)

var wktFiles = map[string]protoreflect.FileDescriptor{
	"any": anypb.File_google_protobuf_any_proto, "api": apipb.File_google_protobuf_api_proto, "duration": durationpb.File_google_protobuf_duration_proto,
	"empty": emptypb.File_google_protobuf_empty_proto, "field_mask": fieldmaskpb.File_google_protobuf_field_mask_proto,
	"source_context": sourcecontextpb.File_google_protobuf_source_context_proto, "struct": structpb.File_google_protobuf_struct_proto,
	"timestamp": timestamppb.File_google_protobuf_timestamp_proto, "type": typepb.File_google_protobuf_type_proto,
	"wrappers": wrapperspb.File_google_protobuf_wrappers_proto, "descriptor": descriptorpb.File_google_protobuf_descriptor_proto,
}

// WellKnownNames lists the well-known files.
func WellKnownNames() (out []string) {
	for n := range wktFiles {
		out = append(out, n)
	}
	sort.Strings(out)
	return
}

var (
	wktOnce sync.Once
	wkt     map[string]*File
)

// newer are types that the files built into prutalgen do not have yet.
var newer = map[string]bool{"EnforceNamingStyle": true, "VisibilityFeature": true, "DefaultSymbolVisibility": true, "SymbolVisibility": true}

// WellKnown returns the file google/protobuf/<name>.proto.
func WellKnown(name string) *File {
	wktOnce.Do(func() {
		wkt = map[string]*File{}
		var get func(fd protoreflect.FileDescriptor) *File
		get = func(fd protoreflect.FileDescriptor) *File {
			n := strings.TrimSuffix(strings.TrimPrefix(fd.Path(), "google/protobuf/"), ".proto")
			if wkt[n] != nil {
				return wkt[n]
			}
			f := &File{Path: fd.Path(), Pkg: string(fd.Package()), WKT: protodesc.ToFileDescriptorProto(fd)}
			f.GoPkg = f.WKT.GetOptions().GetGoPackage()
			f.GoPath, _, _ = strings.Cut(f.GoPkg, ";")
			f.Syn = P2
			if f.WKT.GetSyntax() == "proto3" {
				f.Syn = P3
			}
			wkt[n] = f
			for i := 0; i < fd.Imports().Len(); i++ {
				f.Deps = append(f.Deps, &Dep{F: get(fd.Imports().Get(i).FileDescriptor), Public: fd.Imports().Get(i).IsPublic})
			}
			enum := func(d *descriptorpb.EnumDescriptorProto, up *Message) *Enum {
				e := &Enum{F: f, Up: up, Name: d.GetName()}
				for _, v := range d.Value {
					e.Vals = append(e.Vals, &EnumVal{E: e, Name: v.GetName(), Num: v.GetNumber()})
				}
				return e
			}
			var msg func(d *descriptorpb.DescriptorProto, up *Message) *Message
			msg = func(d *descriptorpb.DescriptorProto, up *Message) *Message {
				m := &Message{F: f, Up: up, Name: d.GetName()}
				m.exts = n == "descriptor" && up == nil && strings.HasSuffix(m.Name, "Options")
				for _, x := range d.NestedType {
					if newer[x.GetName()] {
						continue
					}
					if !x.GetOptions().GetMapEntry() {
						m.Decls = append(m.Decls, msg(x, m))
					}
				}
				for _, x := range d.EnumType {
					if newer[x.GetName()] {
						continue
					}
					m.Decls = append(m.Decls, enum(x, m))
				}
				return m
			}
			for _, x := range f.WKT.MessageType {
				f.Decls = append(f.Decls, msg(x, nil))
			}
			for _, x := range f.WKT.EnumType {
				if newer[x.GetName()] {
					continue
				}
				f.Decls = append(f.Decls, enum(x, nil))
			}
			f.Visible()
			return f
		}
		var names []string
		for n := range wktFiles {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			get(wktFiles[n])
		}
	})
	return wkt[name]
}

// symbols maps the full names that f can see to their kind.
func (f *File) symbols() map[string]string {
	s := map[string]string{}
	for x := range f.Visible() {
		parts := strings.Split(x.Pkg, ".")
		for i := range parts {
			if x.Pkg != "" {
				s[strings.Join(parts[:i+1], ".")] = "package"
			}
		}
		enum := func(e *Enum) {
			s[e.Full()] = "enum"
			for _, v := range e.Vals {
				s[e.Full()[:len(e.Full())-len(e.Name)]+v.Name] = "other"
			}
		}
		for _, e := range x.Enums() {
			enum(e)
		}
		for _, m := range x.AllMessages() {
			s[m.Full()] = "message"
			for _, e := range m.Enums() {
				enum(e)
			}
			for _, fl := range m.Fields() {
				s[m.Full()+"."+fl.Name] = "other"
				if fl.IsMap() {
					s[m.Full()+"."+entryName(fl.Name)] = "message"
				}
			}
			for _, o := range m.Oneofs() {
				s[m.Full()+"."+o.Name] = "other"
			}
		}
		for _, v := range x.Services() {
			s[join(x.Pkg, v.Name)] = "service"
			for _, m := range v.Methods {
				s[join(x.Pkg, v.Name)+"."+m.Name] = "other"
			}
		}
		ext := func(ds []any, scope string) {
			for _, e := range sub[*Extend](ds) {
				for _, fl := range e.Fields {
					s[join(scope, fl.Name)] = "other"
				}
			}
		}
		ext(x.Decls, x.Pkg)
		for _, m := range x.AllMessages() {
			ext(m.Decls, m.Full())
		}
	}
	return s
}

// resolve finds what name means in scope, by the rules of the language.
func resolve(syms map[string]string, scope, name string) string {
	if strings.HasPrefix(name, ".") {
		return name[1:]
	}
	first, rest, compound := strings.Cut(name, ".")
	_ = rest
	for {
		k, ok := syms[join(scope, first)]
		if ok {
			if compound {
				if k != "other" {
					full := join(scope, name)
					if k2 := syms[full]; k2 == "message" || k2 == "enum" {
						return full
					}
					return ""
				}
			} else if k == "message" || k == "enum" {
				return join(scope, first)
			}
		}
		if scope == "" {
			return ""
		}
		if i := strings.LastIndexByte(scope, '.'); i >= 0 {
			scope = scope[:i]
		} else {
			scope = ""
		}
	}
}

var statementWords = map[string]bool{"message": true, "enum": true, "option": true, "extend": true, "extensions": true, "reserved": true, "oneof": true, "map": true, "optional": true, "required": true, "repeated": true, "group": true, "rpc": true, "service": true, "import": true, "package": true, "stream": true, "export": true, "local": true}

// refs lists the ways to write a reference to full from scope.
func refs(syms map[string]string, scope, full string) []string {
	out := []string{"." + full}
	parts := strings.Split(full, ".")
	for i := range parts {
		s := strings.Join(parts[i:], ".")
		if statementWords[parts[i]] || scalarWord[parts[i]] {
			continue
		}
		if resolve(syms, scope, s) == full {
			out = append(out, s)
		}
	}
	return out
}

var scalarWord = map[string]bool{}

func init() {
	for _, s := range Scalars {
		scalarWord[s] = true
	}
}

var fdTypes = map[string]descriptorpb.FieldDescriptorProto_Type{
	"double": 1, "float": 2, "int64": 3, "uint64": 4, "int32": 5, "fixed64": 6, "fixed32": 7, "bool": 8, "string": 9, "bytes": 12, "uint32": 13, "sfixed32": 15, "sfixed64": 16, "sint32": 17, "sint64": 18,
}

func (f *Field) setType(d *descriptorpb.FieldDescriptorProto) {
	switch {
	case f.Msg != nil:
		d.Type = descriptorpb.FieldDescriptorProto_TYPE_MESSAGE.Enum()
		d.TypeName = proto.String("." + f.Msg.Full())
	case f.Enum != nil:
		d.Type = descriptorpb.FieldDescriptorProto_TYPE_ENUM.Enum()
		d.TypeName = proto.String("." + f.Enum.Full())
	default:
		d.Type = fdTypes[f.Type].Enum()
	}
}

func presence(s string) *descriptorpb.FeatureSet_FieldPresence {
	if s == "" {
		return nil
	}
	return descriptorpb.FeatureSet_FieldPresence(descriptorpb.FeatureSet_FieldPresence_value[s]).Enum()
}

func packing(s string) *descriptorpb.FeatureSet_RepeatedFieldEncoding {
	if s == "" {
		return nil
	}
	return descriptorpb.FeatureSet_RepeatedFieldEncoding(descriptorpb.FeatureSet_RepeatedFieldEncoding_value[s]).Enum()
}

func enumType(s string) *descriptorpb.FeatureSet_EnumType {
	if s == "" {
		return nil
	}
	return descriptorpb.FeatureSet_EnumType(descriptorpb.FeatureSet_EnumType_value[s]).Enum()
}

func (e *Enum) desc() *descriptorpb.EnumDescriptorProto {
	d := &descriptorpb.EnumDescriptorProto{Name: proto.String(e.Name)}
	for _, v := range e.Vals {
		d.Value = append(d.Value, &descriptorpb.EnumValueDescriptorProto{Name: proto.String(v.Name), Number: proto.Int32(v.Num)})
	}
	for _, r := range e.Reserved {
		for _, x := range r.Ranges {
			d.ReservedRange = append(d.ReservedRange, &descriptorpb.EnumDescriptorProto_EnumReservedRange{Start: proto.Int32(int32(x[0])), End: proto.Int32(int32(x[1]))})
		}
		d.ReservedName = append(d.ReservedName, r.Names...)
	}
	if e.Alias || e.EnumType != "" {
		d.Options = &descriptorpb.EnumOptions{}
		if e.Alias {
			d.Options.AllowAlias = proto.Bool(true)
		}
		if e.EnumType != "" {
			d.Options.Features = &descriptorpb.FeatureSet{EnumType: enumType(e.EnumType)}
		}
	}
	return d
}

func (f *Field) desc() *descriptorpb.FieldDescriptorProto {
	d := &descriptorpb.FieldDescriptorProto{Name: proto.String(f.Name), Number: proto.Int32(f.Num), Label: descriptorpb.FieldDescriptorProto_LABEL_OPTIONAL.Enum()}
	if f.JSON != "" {
		d.JsonName = proto.String(f.JSON)
	}
	switch f.Label {
	case "repeated":
		d.Label = descriptorpb.FieldDescriptorProto_LABEL_REPEATED.Enum()
	case "required":
		d.Label = descriptorpb.FieldDescriptorProto_LABEL_REQUIRED.Enum()
	}
	f.setType(d)
	if f.Packed != "" {
		d.Options = &descriptorpb.FieldOptions{Packed: proto.Bool(f.Packed == "true")}
	}
	if f.Presence != "" || f.Packing != "" {
		d.Options = &descriptorpb.FieldOptions{Features: &descriptorpb.FeatureSet{FieldPresence: presence(f.Presence), RepeatedFieldEncoding: packing(f.Packing)}}
	}
	return d
}

func (m *Message) desc() *descriptorpb.DescriptorProto {
	d := &descriptorpb.DescriptorProto{Name: proto.String(m.Name)}
	for _, o := range m.Oneofs() {
		d.OneofDecl = append(d.OneofDecl, &descriptorpb.OneofDescriptorProto{Name: proto.String(o.Name)})
	}
	ix := map[*Oneof]int32{}
	for i, o := range m.Oneofs() {
		ix[o] = int32(i)
	}
	names := map[string]bool{}
	for _, f := range m.Fields() {
		names[f.Name] = true
	}
	for _, o := range m.Oneofs() {
		names[o.Name] = true
	}
	for _, f := range m.Fields() {
		p := f.desc()
		if f.Up != nil {
			p.OneofIndex = proto.Int32(ix[f.Up])
		}
		if f.IsMap() {
			e := &descriptorpb.DescriptorProto{Name: proto.String(entryName(f.Name)), Options: &descriptorpb.MessageOptions{MapEntry: proto.Bool(true)}}
			k := &Field{Name: "key", Num: 1, Type: f.Key}
			v := &Field{Name: "value", Num: 2, Type: f.Type, Msg: f.Msg, Enum: f.Enum}
			e.Field = append(e.Field, k.desc(), v.desc())
			d.NestedType = append(d.NestedType, e)
			p.Label = descriptorpb.FieldDescriptorProto_LABEL_REPEATED.Enum()
			p.Type = descriptorpb.FieldDescriptorProto_TYPE_MESSAGE.Enum()
			p.TypeName = proto.String("." + m.Full() + "." + e.GetName())
		}
		if m.F.Syn == P3 && f.Label == "optional" {
			p.Proto3Optional = proto.Bool(true)
			n := "_" + f.Name
			for names[n] {
				n = "X" + n
			}
			names[n] = true
			p.OneofIndex = proto.Int32(int32(len(d.OneofDecl)))
			d.OneofDecl = append(d.OneofDecl, &descriptorpb.OneofDescriptorProto{Name: proto.String(n)})
		}
		d.Field = append(d.Field, p)
	}
	// synthetic oneofs go last already; real ones keep their order
	for _, x := range m.Messages() {
		d.NestedType = append(d.NestedType, x.desc())
	}
	for _, x := range m.Enums() {
		d.EnumType = append(d.EnumType, x.desc())
	}
	for _, x := range m.Decls {
		switch x := x.(type) {
		case *Reserved:
			for _, r := range x.Ranges {
				d.ReservedRange = append(d.ReservedRange, &descriptorpb.DescriptorProto_ReservedRange{Start: proto.Int32(int32(r[0])), End: proto.Int32(int32(min(r[1], 536870911) + 1))})
			}
			d.ReservedName = append(d.ReservedName, x.Names...)
		case *ExtRange:
			d.ExtensionRange = append(d.ExtensionRange, &descriptorpb.DescriptorProto_ExtensionRange{Start: proto.Int32(x.From), End: proto.Int32(x.To + 1)})
		case *Extend:
			d.Extension = append(d.Extension, x.desc()...)
		}
	}
	return d
}

func (x *Extend) desc() (out []*descriptorpb.FieldDescriptorProto) {
	for _, f := range x.Fields {
		p := f.desc()
		p.Extendee = proto.String("." + x.Msg.Full())
		out = append(out, p)
	}
	return
}

// Desc describes the file.
func (f *File) Desc() *descriptorpb.FileDescriptorProto {
	if f.WKT != nil {
		return f.WKT
	}
	d := &descriptorpb.FileDescriptorProto{Name: proto.String(f.Path), Options: &descriptorpb.FileOptions{}}
	if f.Pkg != "" {
		d.Package = proto.String(f.Pkg)
	}
	if f.GoPkg != "" {
		d.Options.GoPackage = proto.String(f.GoPkg)
	}
	switch f.Syn {
	case P3:
		d.Syntax = proto.String("proto3")
	case E23:
		d.Syntax = proto.String("editions")
		d.Edition = descriptorpb.Edition_EDITION_2023.Enum()
		if f.Presence != "" || f.Packing != "" || f.EnumType != "" {
			d.Options.Features = &descriptorpb.FeatureSet{FieldPresence: presence(f.Presence), RepeatedFieldEncoding: packing(f.Packing), EnumType: enumType(f.EnumType)}
		}
	}
	for i, x := range f.Deps {
		d.Dependency = append(d.Dependency, x.F.Path)
		if x.Public {
			d.PublicDependency = append(d.PublicDependency, int32(i))
		}
	}
	for _, x := range f.Decls {
		switch x := x.(type) {
		case *Message:
			d.MessageType = append(d.MessageType, x.desc())
		case *Enum:
			d.EnumType = append(d.EnumType, x.desc())
		case *Extend:
			d.Extension = append(d.Extension, x.desc()...)
		case *Service:
			s := &descriptorpb.ServiceDescriptorProto{Name: proto.String(x.Name)}
			for _, m := range x.Methods {
				md := &descriptorpb.MethodDescriptorProto{Name: proto.String(m.Name), InputType: proto.String("." + m.In.Full()), OutputType: proto.String("." + m.Out.Full())}
				if m.SIn {
					md.ClientStreaming = proto.Bool(true)
				}
				if m.SOu {
					md.ServerStreaming = proto.Bool(true)
				}
				s.Method = append(s.Method, md)
			}
			d.Service = append(d.Service, s)
		}
	}
	return d
}

// FileSet describes root and all it imports, dependencies first.
func FileSet(root *File) *descriptorpb.FileDescriptorSet {
	fs := &descriptorpb.FileDescriptorSet{}
	for _, f := range root.Closure() {
		fs.File = append(fs.File, f.Desc())
	}
	return fs
}

// Registry builds the descriptors; an error means the schema is not valid.
func Registry(root *File) (*protoregistry.Files, error) { return protodesc.NewFiles(FileSet(root)) }

// Official runs the official generator's front end on root.
func Official(p *Project, root *File) (*protogen.Plugin, error) {
	var ps []string
	for k, v := range p.M {
		ps = append(ps, "M"+k+"="+v)
	}
	sort.Strings(ps)
	req := &pluginpb.CodeGeneratorRequest{ProtoFile: FileSet(root).File, Parameter: proto.String(strings.Join(ps, ","))}
	for _, f := range root.Closure() {
		if f.WKT == nil {
			req.FileToGenerate = append(req.FileToGenerate, f.Path)
		}
	}
	// protogen modifies the request's files
	req = proto.Clone(req).(*pluginpb.CodeGeneratorRequest)
	g, err := protogen.Options{}.New(req)
	if err != nil {
		return nil, err
	}
	return g, nil
}

// Collides reports whether the Go names of the official generator already
// clash for this schema (then no expectation exists).
func Collides(g *protogen.Plugin) string {
	type key struct{ pkg, name string }
	seen := map[key]string{}
	res := ""
	put := func(id protogen.GoIdent, what string) {
		k := key{string(id.GoImportPath), id.GoName}
		if o, ok := seen[k]; ok {
			res = fmt.Sprintf("%s and %s are both %s", o, what, id.GoName)
		}
		seen[k] = what
	}
	enum := func(e *protogen.Enum) {
		put(e.GoIdent, "enum "+string(e.Desc.FullName()))
		for _, s := range []string{"_name", "_value"} {
			put(protogen.GoIdent{GoName: e.GoIdent.GoName + s, GoImportPath: e.GoIdent.GoImportPath}, "map of "+string(e.Desc.FullName()))
		}
		for _, v := range e.Values {
			put(v.GoIdent, "value "+string(v.Desc.FullName()))
		}
	}
	var msg func(m *protogen.Message)
	msg = func(m *protogen.Message) {
		if m.Desc.IsMapEntry() {
			return
		}
		put(m.GoIdent, "message "+string(m.Desc.FullName()))
		mem := map[string]string{"Reset": "method", "String": "method", "ProtoMessage": "method", "Descriptor": "method", "XXX_OneofWrappers": "method", "Marshal": "method", "Unmarshal": "method", "unknownFields": "field", "XXX_unrecognized": "field"}
		putm := func(n, what string) {
			if o, ok := mem[n]; ok {
				res = fmt.Sprintf("%s: %s and %s are both %s", m.Desc.FullName(), o, what, n)
			}
			mem[n] = what
		}
		for _, o := range m.Oneofs {
			if o.Desc.IsSynthetic() {
				continue
			}
			putm(o.GoName, "oneof "+o.GoName)
			putm("Get"+o.GoName, "getter of oneof "+o.GoName)
			put(protogen.GoIdent{GoName: "is" + m.GoIdent.GoName + "_" + o.GoName, GoImportPath: m.GoIdent.GoImportPath}, "interface of "+o.GoName)
		}
		for _, f := range m.Fields {
			if f.Oneof == nil || f.Oneof.Desc.IsSynthetic() {
				putm(f.GoName, "field "+f.GoName)
			} else {
				put(f.GoIdent, "wrapper of "+string(f.Desc.FullName()))
			}
			putm("Get"+f.GoName, "getter of "+f.GoName)
		}
		for _, e := range m.Enums {
			enum(e)
		}
		for _, x := range m.Messages {
			msg(x)
		}
	}
	for _, f := range g.Files {
		for _, e := range f.Enums {
			enum(e)
		}
		for _, m := range f.Messages {
			msg(m)
		}
	}
	return res
}

const maxI32 = math.MaxInt32
