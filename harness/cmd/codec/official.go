package main

import (
	"bytes"
	"fmt"

	"github.com/cloudwego/prutal"
	"google.golang.org/protobuf/encoding/protowire"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
	"google.golang.org/protobuf/types/descriptorpb"
	"google.golang.org/protobuf/types/known/anypb"
	"google.golang.org/protobuf/types/known/apipb"
	"google.golang.org/protobuf/types/known/durationpb"
	"google.golang.org/protobuf/types/known/emptypb"
	"google.golang.org/protobuf/types/known/fieldmaskpb"
	"google.golang.org/protobuf/types/known/sourcecontextpb"
	"google.golang.org/protobuf/types/known/structpb"
	"google.golang.org/protobuf/types/known/timestamppb"
	"google.golang.org/protobuf/types/known/typepb"
	"google.golang.org/protobuf/types/known/wrapperspb"
	"google.golang.org/protobuf/types/pluginpb"

	"verif/fixtures/pb"
	"verif/rt"
	"verif/sch"
)

var officialTypes = []proto.Message{
	&pb.P2All{}, &pb.P3All{}, &pb.P2All{}, &pb.P3All{}, &pb.P2All{}, &pb.P3All{},
	&timestamppb.Timestamp{}, &durationpb.Duration{}, &anypb.Any{}, &emptypb.Empty{}, &fieldmaskpb.FieldMask{},
	&structpb.Struct{}, &structpb.Value{}, &structpb.ListValue{}, &structpb.Struct{}, &structpb.Value{},
	&wrapperspb.BoolValue{}, &wrapperspb.BytesValue{}, &wrapperspb.DoubleValue{}, &wrapperspb.FloatValue{}, &wrapperspb.Int32Value{},
	&wrapperspb.Int64Value{}, &wrapperspb.StringValue{}, &wrapperspb.UInt32Value{}, &wrapperspb.UInt64Value{},
	&apipb.Api{}, &apipb.Method{}, &typepb.Type{}, &typepb.Field{}, &typepb.Enum{}, &sourcecontextpb.SourceContext{},
	&descriptorpb.FileDescriptorProto{}, &descriptorpb.DescriptorProto{}, &descriptorpb.FieldDescriptorProto{}, &descriptorpb.FileOptions{},
	&descriptorpb.FeatureSet{}, &descriptorpb.SourceCodeInfo{}, &descriptorpb.UninterpretedOption{}, &descriptorpb.FileDescriptorSet{},
	&descriptorpb.FeatureSetDefaults{}, &descriptorpb.GeneratedCodeInfo{}, &descriptorpb.ServiceDescriptorProto{},
	&pluginpb.CodeGeneratorRequest{}, &pluginpb.CodeGeneratorResponse{},
}

// normTags writes the tags of unknown fields in their shortest form, as some of
// the official decoders do.
func normTags(m proto.Message) proto.Message {
	m = proto.Clone(m)
	var walk func(r protoreflect.Message)
	walk = func(r protoreflect.Message) {
		var out []byte
		for b := r.GetUnknown(); len(b) > 0; {
			num, typ, n := protowire.ConsumeTag(b)
			k := protowire.ConsumeFieldValue(num, typ, b[max(n, 0):])
			if n < 0 || k < 0 {
				out = append(out, b...)
				break
			}
			out = append(protowire.AppendTag(out, num, typ), b[n:n+k]...)
			b = b[n+k:]
		}
		if len(out) > 0 {
			r.SetUnknown(out)
		}
		r.Range(func(fd protoreflect.FieldDescriptor, v protoreflect.Value) bool {
			switch {
			case fd.IsMap():
				if fd.MapValue().Message() != nil {
					v.Map().Range(func(_ protoreflect.MapKey, v protoreflect.Value) bool { walk(v.Message()); return true })
				}
			case fd.Message() == nil:
			case fd.IsList():
				for i := 0; i < v.List().Len(); i++ {
					walk(v.List().Get(i).Message())
				}
			default:
				walk(v.Message())
			}
			return true
		})
	}
	walk(m.ProtoReflect())
	return m
}

func sameOfficial(a, b proto.Message) bool {
	return proto.Equal(a, b) || proto.Equal(normTags(a), normTags(b))
}

// C16: generated code of the official compiler is used by both implementations
func official(t *rt.T) {
	proto0 := officialTypes[t.Int(len(officialTypes))]
	fresh := func() proto.Message { return proto0.ProtoReflect().New().Interface() }
	md := proto0.ProtoReflect().Descriptor()
	t.Label(string(md.FullName().Parent()))
	part := proto.UnmarshalOptions{AllowPartial: true, Resolver: sch.NoExts}
	ref := sch.GenValue(t, md, sch.VOpt{Unknown: true, UTF8: true})
	w := refEncode(ref)
	a := fresh()
	if err := part.Unmarshal(w, a); err != nil {
		panic(fmt.Sprintf("harness: %v %s %x", err, md.FullName(), w))
	}
	t.Logf("%s %s", md.FullName(), text(a))
	b, err := prutal.Marshal(a)
	if err != nil {
		t.Fatalf("Marshal of %T: %v", a, err)
	}
	n, err := prutal.Size(a)
	if err != nil || n != len(b) || n != (proto.MarshalOptions{AllowPartial: true}).Size(a) {
		t.Fatalf("Size of %T = %d, %v; official %d; Marshal %d bytes", a, n, err, (proto.MarshalOptions{AllowPartial: true}).Size(a), len(b))
	}
	c := fresh()
	if err := part.Unmarshal(b, c); err != nil {
		t.Fatalf("proto.Unmarshal rejects the output for %T %s: %v", a, hexs(b), err)
	}
	if !proto.Equal(a, c) {
		t.Fatalf("proto.Unmarshal reads\n%s\nwant\n%s", text(c), text(a))
	}
	// decoding, of the official encoding or of any valid one
	x := w
	if t.Int(3) > 0 {
		x, _ = sch.GenWire(t, md, sch.WOpt{Unknown: true, UTF8: true, Budget: 30})
	}
	d, e := fresh(), fresh()
	if err := part.Unmarshal(x, e); err != nil {
		panic(fmt.Sprintf("harness: the reference rejects a valid encoding of %s: %v %x", md.FullName(), err, x))
	}
	t.Logf("wire %s", hexs(x))
	if err := prutal.Unmarshal(x, d); err != nil {
		t.Fatalf("Unmarshal of %T: %v", d, err)
	}
	if !sameOfficial(d, e) {
		t.Fatalf("%T: decoded\n%s\nwant\n%s", d, text(d), text(e))
	}
	// what was decoded is a message like any other for the official packages
	y, err := proto.MarshalOptions{AllowPartial: true, Deterministic: true}.Marshal(normTags(d))
	if err != nil {
		t.Fatalf("proto.Marshal of what was decoded: %v", err)
	}
	z, err := proto.MarshalOptions{AllowPartial: true, Deterministic: true}.Marshal(normTags(e))
	if err != nil {
		panic("harness: " + err.Error())
	}
	if !bytes.Equal(y, z) {
		t.Fatalf("proto.Marshal of what was decoded gives %s, want %s", hexs(y), hexs(z))
	}
	if !sameOfficial(proto.Clone(d), e) {
		t.Fatalf("proto.Clone of what was decoded differs")
	}
	// more of the same message, decoded by either one
	if t.Int(2) == 0 {
		x2, _ := sch.GenWire(t, md, sch.WOpt{UTF8: true, Budget: 10})
		e.ProtoReflect().SetUnknown(nil) // they are reset with each prutal.Unmarshal
		if err := (proto.UnmarshalOptions{AllowPartial: true, Merge: true, Resolver: sch.NoExts}).Unmarshal(x2, e); err != nil {
			panic("harness: " + err.Error())
		}
		if err := prutal.Unmarshal(x2, d); err != nil {
			t.Fatalf("Unmarshal of %T again: %v", d, err)
		}
		if !sameOfficial(d, e) {
			t.Fatalf("%T: merged\n%s\nwant\n%s", d, text(d), text(e))
		}
	}
	t.Key(b, x, string(md.FullName()))
	t.NonTrivial(len(b) > 0 || len(x) > 0)
	t.Sample(func() string { return fmt.Sprintf("%s wire %s", md.FullName(), hexs(x)) })
}
