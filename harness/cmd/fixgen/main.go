// fixgen writes the compiled fixtures: Go types for shapes that reflect.StructOf
// cannot build (oneofs, recursion) in ../../fixtures, and the same kind of
// schemas compiled by the official protoc-gen-go in ../../fixtures/pb.
// Run from /verif/harness: go run ./cmd/fixgen . Its output is committed.
package main

import (
	"bytes"
	"fmt"
	"go/format"
	"os"
	"os/exec"
	"sort"
	"strings"

	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/descriptorpb"
	"google.golang.org/protobuf/types/pluginpb"

	"verif/rt"
	"verif/sch"
)

func main() {
	official := false
	x := schemas(official)
	writeGo(x)
	p := schemas(true)
	writePB(p)
}

func schemas(official bool) []*sch.Msg {
	var roots []*sch.Msg
	n := 48
	for i := 0; i < n; i++ {
		r := rt.NewSeeded(uint64(1000 + i))
		m := sch.Gen(r, sch.Opt{Depth: 2, MaxFields: 10, Oneof: true, ByValue: !official, Unknown: !official, Official: official})
		for _, y := range m.All() {
			y.Name = fmt.Sprintf("S%d%s", i, y.Name)
		}
		roots = append(roots, m)
	}
	roots = append(roots, hand(official)...)
	return roots
}

type mk struct {
	m   *sch.Msg
	num int
}

func (k *mk) add(f sch.Field) *mk {
	k.num++
	if f.Num == 0 {
		f.Num = k.num
	}
	f.Name = fmt.Sprintf("f%d", f.Num)
	k.m.Fields = append(k.m.Fields, &f)
	return k
}

func hand(official bool) []*sch.Msg {
	unk := func(i int) int {
		if official {
			return sch.UnkBytes
		}
		return i
	}
	var out []*sch.Msg
	// recursion in every position
	rec := &sch.Msg{Name: "Rec", Oneofs: 1, Unknown: unk(sch.UnkBytes)}
	k := &mk{m: rec}
	M := sch.MsgK
	k.add(sch.Field{Kind: M, Msg: rec, Shape: sch.Explicit})
	k.add(sch.Field{Kind: M, Msg: rec, Shape: sch.Repeated})
	k.add(sch.Field{Kind: M, Msg: rec, Shape: sch.Map, Key: sch.StringK})
	k.add(sch.Field{Kind: M, Msg: rec, Shape: sch.Map, Key: sch.I32K})
	k.add(sch.Field{Kind: M, Msg: rec, Shape: sch.Map, Key: sch.U64K})
	k.add(sch.Field{Kind: M, Msg: rec, Shape: sch.Map, Key: sch.BoolK})
	k.add(sch.Field{Kind: M, Msg: rec, Shape: sch.Oneof})
	k.add(sch.Field{Kind: sch.I32K, Shape: sch.Oneof})
	k.add(sch.Field{Kind: sch.I32K, Shape: sch.Implicit})
	k.add(sch.Field{Kind: sch.StringK, Shape: sch.Explicit})
	k.add(sch.Field{Kind: sch.BytesK, Shape: sch.Repeated})
	out = append(out, rec)
	// mutual recursion
	a := &sch.Msg{Name: "MutA", Unknown: unk(sch.UnkPtr)}
	b := &sch.Msg{Name: "MutB", Unknown: unk(sch.UnkNone)}
	(&mk{m: a}).add(sch.Field{Kind: M, Msg: b, Shape: sch.Explicit}).add(sch.Field{Kind: sch.S64K, Shape: sch.Repeated, Packed: true}).
		add(sch.Field{Kind: M, Msg: a, Shape: sch.Repeated})
	(&mk{m: b}).add(sch.Field{Kind: M, Msg: a, Shape: sch.Explicit}).add(sch.Field{Kind: M, Msg: a, Shape: sch.Map, Key: sch.S32K}).
		add(sch.Field{Kind: sch.DoubleK, Shape: sch.Implicit})
	out = append(out, a)
	// every scalar in every shape
	for _, sh := range []sch.Shape{sch.Implicit, sch.Explicit, sch.Repeated, sch.Oneof} {
		m := &sch.Msg{Name: "All" + strings.Title(sh.String()), Unknown: unk(sch.UnkXXX)}
		k := &mk{m: m}
		for _, kd := range sch.ScalarKinds {
			switch {
			case sh == sch.Repeated && kd != sch.StringK && kd != sch.BytesK:
				k.add(sch.Field{Kind: kd, Shape: sh, Packed: true})
				k.add(sch.Field{Kind: kd, Shape: sh})
			case sh == sch.Oneof:
				// one oneof per kind, with a second member, and a field between
				k.add(sch.Field{Kind: kd, Shape: sh, OneofIx: m.Oneofs})
				k.add(sch.Field{Kind: sch.StringK, Shape: sh, OneofIx: m.Oneofs})
				m.Oneofs++
			default:
				k.add(sch.Field{Kind: kd, Shape: sh})
			}
		}
		out = append(out, m)
	}
	// every map
	leaf := &sch.Msg{Name: "Leaf", Unknown: unk(sch.UnkBytes)}
	(&mk{m: leaf}).add(sch.Field{Kind: sch.I32K, Shape: sch.Implicit}).add(sch.Field{Kind: sch.StringK, Shape: sch.Repeated})
	for ki, kk := range sch.KeyKinds {
		m := &sch.Msg{Name: fmt.Sprintf("Maps%d", ki), Unknown: unk(sch.UnkXXXPtr)}
		k := &mk{m: m}
		for _, vk := range sch.ScalarKinds {
			k.add(sch.Field{Kind: vk, Shape: sch.Map, Key: kk})
		}
		k.add(sch.Field{Kind: M, Msg: leaf, Shape: sch.Map, Key: kk})
		if !official {
			k.add(sch.Field{Kind: M, Msg: leaf, Shape: sch.Map, Key: kk, ByValue: true})
		}
		out = append(out, m)
	}
	// one big oneof with every kind, message included, and large numbers
	m := &sch.Msg{Name: "BigOneof", Oneofs: 1, Unknown: unk(sch.UnkBytes)}
	k = &mk{m: m}
	for i, kd := range sch.ScalarKinds {
		k.add(sch.Field{Kind: kd, Shape: sch.Oneof, Num: []int{1, 15, 16, 999, 1000, 1001, 1002, 2047, 2048, 262143, 262144, 33554431, 33554432, 536870911, 536870910, 17}[i]})
	}
	k.add(sch.Field{Kind: M, Msg: leaf, Shape: sch.Oneof, Num: 500})
	k.add(sch.Field{Kind: M, Msg: rec, Shape: sch.Oneof, Num: 501})
	k.add(sch.Field{Kind: sch.BoolK, Shape: sch.Implicit, Num: 502})
	out = append(out, m)
	if !official {
		// recursion through by-value elements
		v := &sch.Msg{Name: "RecVal", Unknown: sch.UnkBytes}
		k := &mk{m: v}
		k.add(sch.Field{Kind: M, Msg: v, Shape: sch.Repeated, ByValue: true})
		k.add(sch.Field{Kind: M, Msg: v, Shape: sch.Map, Key: sch.StringK, ByValue: true})
		k.add(sch.Field{Kind: M, Msg: v, Shape: sch.Map, Key: sch.I64K, ByValue: true})
		k.add(sch.Field{Kind: M, Msg: leaf, Shape: sch.Explicit, ByValue: true})
		k.add(sch.Field{Kind: sch.U32K, Shape: sch.Explicit})
		k.add(sch.Field{Kind: sch.BytesK, Shape: sch.PtrBytes})
		k.add(sch.Field{Kind: sch.StringK, Shape: sch.Implicit})
		out = append(out, v)
		// by-value message in a oneof
		o := &sch.Msg{Name: "OneofVal", Oneofs: 1, Unknown: sch.UnkPtr}
		k = &mk{m: o}
		k.add(sch.Field{Kind: M, Msg: leaf, Shape: sch.Oneof, ByValue: true})
		k.add(sch.Field{Kind: sch.U32K, Shape: sch.Oneof})
		out = append(out, o)
	}
	return out
}

func goType(f *sch.Field) string {
	var e string
	switch f.Kind {
	case sch.MsgK:
		e = f.Msg.Name
		if !f.ByValue {
			e = "*" + e
		}
	case sch.EnumK:
		e = "sch.E"
	default:
		e = kindGo(f.Kind)
	}
	switch f.Shape {
	case sch.Explicit, sch.Required:
		if f.Kind != sch.MsgK && f.Kind != sch.BytesK {
			return "*" + e
		}
	case sch.PtrBytes:
		return "*" + e
	case sch.Repeated:
		return "[]" + e
	case sch.Map:
		return "map[" + kindGo(f.Key) + "]" + e
	}
	return e
}

func kindGo(k sch.Kind) string {
	switch k {
	case sch.BoolK:
		return "bool"
	case sch.I32K, sch.S32K, sch.SF32K:
		return "int32"
	case sch.U32K, sch.F32K:
		return "uint32"
	case sch.I64K, sch.S64K, sch.SF64K:
		return "int64"
	case sch.U64K, sch.F64K:
		return "uint64"
	case sch.FloatK:
		return "float32"
	case sch.DoubleK:
		return "float64"
	case sch.StringK:
		return "string"
	}
	return "[]byte"
}

func all(roots []*sch.Msg) []*sch.Msg {
	var out []*sch.Msg
	seen := map[*sch.Msg]bool{}
	for _, m := range roots {
		for _, x := range m.All() {
			if !seen[x] {
				seen[x] = true
				out = append(out, x)
			}
		}
	}
	return out
}

func writeGo(roots []*sch.Msg) {
	var b bytes.Buffer
	b.WriteString("// Code generated by cmd/fixgen. DO NOT EDIT.\n\npackage fixtures\n\nimport (\n\t\"reflect\"\n\n\t\"verif/sch\"\n)\n\n")
	b.WriteString("const model = " + fmt.Sprintf("%q", sch.EncodeModel(roots)) + "\n\n")
	b.WriteString("var entries = []Entry{\n")
	for _, m := range all(roots) {
		fmt.Fprintf(&b, "\t{%q, reflect.TypeFor[%s](), (*%s)(nil).XXX_OneofWrappers()},\n", m.Name, m.Name, m.Name)
	}
	b.WriteString("}\n\n")
	for mi, m := range all(roots) {
		fmt.Fprintf(&b, "type %s struct {\n", m.Name)
		done := map[int]bool{}
		for fi, f := range m.Fields {
			if f.Shape == sch.Oneof {
				if !done[f.OneofIx] {
					done[f.OneofIx] = true
					fmt.Fprintf(&b, "\tO%d is%s_O%d `protobuf_oneof:\"o%d\"`\n", f.OneofIx, m.Name, f.OneofIx, f.OneofIx)
				}
				continue
			}
			fmt.Fprintf(&b, "\tF%d %s `%s`\n", f.Num, goType(f), f.Tag())
			if (mi+fi)%7 == 3 {
				fmt.Fprintf(&b, "\tCanary%d %s\n", fi, []string{"uint8", "string", "uint64", "[3]byte"}[(mi+fi)/7%4])
			}
		}
		switch m.Unknown {
		case sch.UnkBytes:
			b.WriteString("\tunknownFields []byte\n")
		case sch.UnkPtr:
			b.WriteString("\tunknownFields *[]byte\n")
		case sch.UnkXXX:
			b.WriteString("\tXXX_unrecognized []byte `json:\"-\"`\n")
		case sch.UnkXXXPtr:
			b.WriteString("\tXXX_unrecognized *[]byte `json:\"-\"`\n")
		}
		b.WriteString("}\n\n")
		for i := 0; i < m.Oneofs; i++ {
			fmt.Fprintf(&b, "type is%s_O%d interface{ is%s_O%d() }\n\n", m.Name, i, m.Name, i)
		}
		fmt.Fprintf(&b, "func (*%s) XXX_OneofWrappers() []any {\n\treturn []any{", m.Name)
		for _, f := range m.Fields {
			if f.Shape == sch.Oneof {
				fmt.Fprintf(&b, "(*%s_F%d)(nil), ", m.Name, f.Num)
			}
		}
		b.WriteString("}\n}\n\n")
		for _, f := range m.Fields {
			if f.Shape == sch.Oneof {
				fmt.Fprintf(&b, "type %s_F%d struct {\n\tF%d %s `%s`\n}\n\nfunc (*%s_F%d) is%s_O%d() {}\n\n", m.Name, f.Num, f.Num, goType(f), f.Tag(), m.Name, f.Num, m.Name, f.OneofIx)
			}
		}
	}
	src, err := format.Source(b.Bytes())
	if err != nil {
		panic(err)
	}
	check(os.WriteFile("fixtures/types.go", src, 0o644))
}

func check(err error) {
	if err != nil {
		panic(err)
	}
}

func writePB(roots []*sch.Msg) {
	fd := sch.FileProto("fxpb.proto", "fxpb", roots...)
	fd.Options.GoPackage = proto.String("verif/fixtures/pb;pb")
	// more official code: proto2 and proto3 files
	p3 := syntaxFile("proto3")
	p2 := syntaxFile("proto2")
	req := &pluginpb.CodeGeneratorRequest{
		FileToGenerate: []string{"fxpb.proto", "fxp3.proto", "fxp2.proto"},
		Parameter:      proto.String("paths=source_relative"),
		ProtoFile:      []*descriptorpb.FileDescriptorProto{fd, p3, p2},
	}
	in, err := proto.Marshal(req)
	check(err)
	cmd := exec.Command("go", "run", "google.golang.org/protobuf/cmd/protoc-gen-go")
	cmd.Stdin = bytes.NewReader(in)
	cmd.Stderr = os.Stderr
	out, err := cmd.Output()
	check(err)
	var resp pluginpb.CodeGeneratorResponse
	check(proto.Unmarshal(out, &resp))
	if resp.Error != nil {
		panic(*resp.Error)
	}
	for _, f := range resp.File {
		check(os.WriteFile("fixtures/pb/"+f.GetName(), []byte(f.GetContent()), 0o644))
	}
	var b bytes.Buffer
	b.WriteString("// Code generated by cmd/fixgen. DO NOT EDIT.\n\npackage pb\n\nimport \"reflect\"\n\n")
	b.WriteString("const Model = " + fmt.Sprintf("%q", sch.EncodeModel(roots)) + "\n\n")
	b.WriteString("// Entry is a generated type with its oneof wrappers.\ntype Entry struct {\n\tName string\n\tT reflect.Type\n\tWrappers []any\n}\n\n")
	b.WriteString("var Entries = []Entry{\n")
	for _, m := range all(roots) {
		fmt.Fprintf(&b, "\t{%q, reflect.TypeFor[%s](), []any{", m.Name, m.Name)
		for _, f := range m.Fields {
			if f.Shape == sch.Oneof {
				fmt.Fprintf(&b, "(*%s_F%d)(nil), ", m.Name, f.Num)
			}
		}
		b.WriteString("}},\n")
	}
	b.WriteString("}\n")
	src, err := format.Source(b.Bytes())
	check(err)
	check(os.WriteFile("fixtures/pb/entries.go", src, 0o644))
}

// syntaxFile is a proto2 or proto3 file with all the field shapes of the syntax.
func syntaxFile(syntax string) *descriptorpb.FileDescriptorProto {
	pre := "P" + syntax[5:]
	pkg := "fxp" + syntax[5:]
	fd := &descriptorpb.FileDescriptorProto{
		Name: proto.String(pkg + ".proto"), Package: proto.String(pkg),
		Options: &descriptorpb.FileOptions{GoPackage: proto.String("verif/fixtures/pb;pb")},
	}
	if syntax == "proto3" {
		fd.Syntax = proto.String(syntax)
	}
	en := &descriptorpb.EnumDescriptorProto{Name: proto.String(pre + "E")}
	for i, n := range []string{"ZERO", "ONE", "NEG"} {
		en.Value = append(en.Value, &descriptorpb.EnumValueDescriptorProto{Name: proto.String(pre + n), Number: proto.Int32([]int32{0, 1, -7}[i])})
	}
	fd.EnumType = append(fd.EnumType, en)
	m := &descriptorpb.DescriptorProto{Name: proto.String(pre + "All")}
	num := int32(0)
	add := func(k sch.Kind, label descriptorpb.FieldDescriptorProto_Label) *descriptorpb.FieldDescriptorProto {
		num++
		f := &descriptorpb.FieldDescriptorProto{Name: proto.String(fmt.Sprintf("some_field_%d", num)), Number: proto.Int32(num), Label: label.Enum(), Type: descriptorpb.FieldDescriptorProto_Type(k).Enum()}
		switch k {
		case sch.EnumK:
			f.TypeName = proto.String("." + pkg + "." + pre + "E")
		case sch.MsgK:
			f.TypeName = proto.String("." + pkg + "." + pre + "All")
		}
		m.Field = append(m.Field, f)
		return f
	}
	kinds := append(append([]sch.Kind{}, sch.ScalarKinds...), sch.MsgK)
	var synth []*descriptorpb.FieldDescriptorProto
	m.OneofDecl = append(m.OneofDecl, &descriptorpb.OneofDescriptorProto{Name: proto.String("pick")})
	for _, k := range kinds {
		add(k, descriptorpb.FieldDescriptorProto_LABEL_OPTIONAL)
		rep := add(k, descriptorpb.FieldDescriptorProto_LABEL_REPEATED)
		if syntax == "proto2" && k != sch.StringK && k != sch.BytesK && k != sch.MsgK {
			rep2 := add(k, descriptorpb.FieldDescriptorProto_LABEL_REPEATED)
			rep2.Options = &descriptorpb.FieldOptions{Packed: proto.Bool(true)}
			d := add(k, descriptorpb.FieldDescriptorProto_LABEL_OPTIONAL)
			d.DefaultValue = proto.String("1")
			if k == sch.BoolK {
				d.DefaultValue = proto.String("true")
			}
			if k == sch.EnumK {
				d.DefaultValue = proto.String("P2ONE")
			}
		}
		if syntax == "proto2" && (k == sch.StringK || k == sch.BytesK) {
			d := add(k, descriptorpb.FieldDescriptorProto_LABEL_OPTIONAL)
			d.DefaultValue = proto.String("a,3,rep,packed")
		}
		_ = rep
		o := add(k, descriptorpb.FieldDescriptorProto_LABEL_OPTIONAL)
		o.OneofIndex = proto.Int32(0)
		if syntax == "proto3" && k != sch.MsgK {
			p := add(k, descriptorpb.FieldDescriptorProto_LABEL_OPTIONAL)
			p.Proto3Optional = proto.Bool(true)
			synth = append(synth, p)
		}
	}
	sort.SliceStable(m.Field, func(i, j int) bool { return m.Field[i].OneofIndex == nil && m.Field[j].OneofIndex != nil })
	for _, p := range synth {
		p.OneofIndex = proto.Int32(int32(len(m.OneofDecl)))
		m.OneofDecl = append(m.OneofDecl, &descriptorpb.OneofDescriptorProto{Name: proto.String("_" + p.GetName())})
	}
	if syntax == "proto2" {
		m.ExtensionRange = append(m.ExtensionRange, &descriptorpb.DescriptorProto_ExtensionRange{Start: proto.Int32(1000), End: proto.Int32(2000)})
	}
	fd.MessageType = append(fd.MessageType, m)
	return fd
}
