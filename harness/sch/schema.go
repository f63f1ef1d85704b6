// Package sch is the random schema model of the codec checks. One model yields
// the reference descriptor (google.golang.org/protobuf) and the Go type.
package sch

import (
	"fmt"
	"sort"
	"strings"

	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protodesc"
	"google.golang.org/protobuf/reflect/protoreflect"
	"google.golang.org/protobuf/types/descriptorpb"

	"verif/rt"
)

type Shape int

const (
	Implicit Shape = iota // T, zero value means absent
	Explicit              // *T (bytes: []byte, nil means absent)
	PtrBytes              // *[]byte
	Required              // as Explicit, proto2 required
	Repeated
	Map
	Oneof
)

func (s Shape) String() string {
	return [...]string{"implicit", "explicit", "ptrbytes", "required", "repeated", "map", "oneof"}[s]
}

// storage of unknown fields in the Go struct
const (
	UnkNone     = iota
	UnkBytes    // unknownFields []byte
	UnkPtr      // unknownFields *[]byte
	UnkXXX      // XXX_unrecognized []byte
	UnkXXXPtr   // XXX_unrecognized *[]byte
	NumUnknowns = 5
)

type Kind = protoreflect.Kind

const (
	BoolK   = protoreflect.BoolKind
	EnumK   = protoreflect.EnumKind
	I32K    = protoreflect.Int32Kind
	S32K    = protoreflect.Sint32Kind
	U32K    = protoreflect.Uint32Kind
	I64K    = protoreflect.Int64Kind
	S64K    = protoreflect.Sint64Kind
	U64K    = protoreflect.Uint64Kind
	SF32K   = protoreflect.Sfixed32Kind
	F32K    = protoreflect.Fixed32Kind
	FloatK  = protoreflect.FloatKind
	SF64K   = protoreflect.Sfixed64Kind
	F64K    = protoreflect.Fixed64Kind
	DoubleK = protoreflect.DoubleKind
	StringK = protoreflect.StringKind
	BytesK  = protoreflect.BytesKind
	MsgK    = protoreflect.MessageKind
)

var NumericKinds = []Kind{I32K, I64K, U32K, U64K, S32K, S64K, F32K, F64K, SF32K, SF64K, FloatK, DoubleK, BoolK, EnumK}
var ScalarKinds = append(append([]Kind{}, NumericKinds...), StringK, BytesK)
var KeyKinds = []Kind{I32K, I64K, U32K, U64K, S32K, S64K, F32K, F64K, SF32K, SF64K, BoolK, StringK}

type Field struct {
	Name    string
	Num     int
	Kind    Kind
	Shape   Shape
	Packed  bool
	Key     Kind // map only
	Msg     *Msg // MsgK: the message type
	ByValue bool // messages: stored by value instead of through a pointer
	OneofIx int  // which oneof of the message
}

type Msg struct {
	Name    string
	Fields  []*Field
	Oneofs  int
	Unknown int
	Desc    protoreflect.MessageDescriptor
}

// Opt steers Gen.
type Opt struct {
	MaxFields  int
	MinFields  int  // of the outermost message
	Depth      int  // nesting of message fields
	ByValue    bool // allow by-value messages
	Oneof      bool // allow oneofs (needs generated Go code)
	Official   bool // only shapes that protoc-gen-go produces
	Maps       int  // weight of maps (0: default)
	NoMaps     bool
	Unknown    bool // random unknown-field storage (else UnkBytes)
	ForceUnk   bool // every message stores unknown fields
	NoLargeNum bool
}

type gen struct {
	r    rt.Rnd
	o    Opt
	n    int
	msgs []*Msg
}

// Gen makes a random message; the result's message graph is acyclic.
func Gen(r rt.Rnd, o Opt) *Msg {
	if o.MaxFields == 0 {
		o.MaxFields = 8
	}
	g := &gen{r: r, o: o}
	return g.msg(o.Depth)
}

func (g *gen) fieldNum(used map[int]bool) int {
	for {
		var n int
		w := rt.Weighted(g.r, 40, 20, 14, 10, 8, 4, 4)
		if g.o.NoLargeNum && w > 3 {
			w = 0
		}
		switch w {
		case 0:
			n = 1 + g.r.Int(15)
		case 1:
			n = 1 + g.r.Int(40)
		case 2:
			n = 16 + g.r.Int(1000)
		case 3:
			n = 995 + g.r.Int(12) // around the direct-map boundary
		case 4:
			n = rt.Pick(g.r, 2047, 2048, 18999, 20000, 262143, 262144)
		case 5:
			n = rt.Pick(g.r, 536870911, 536870910, 33554431, 33554432)
		case 6:
			n = 1 + g.r.Int(536870911)
		}
		if n >= 19000 && n <= 19999 {
			continue
		}
		for used[n] { // construct instead of rejecting
			n++
			if n >= 19000 && n <= 19999 {
				n = 20000
			}
			if n > 536870911 {
				n = 1
			}
		}
		used[n] = true
		return n
	}
}

func (g *gen) msg(depth int) *Msg {
	g.n++
	m := &Msg{Name: fmt.Sprintf("M%d", g.n)}
	g.msgs = append(g.msgs, m)
	switch {
	case g.o.Official:
		m.Unknown = UnkBytes
	case g.o.ForceUnk:
		m.Unknown = 1 + g.r.Int(NumUnknowns-1)
	case g.o.Unknown:
		m.Unknown = g.r.Int(NumUnknowns)
	default:
		m.Unknown = UnkBytes
	}
	nf := 1 + g.r.Int(g.o.MaxFields)
	if rt.Chance(g.r, 3) {
		nf = 0
	}
	if depth == g.o.Depth {
		nf = max(nf, g.o.MinFields)
	}
	used := map[int]bool{}
	if g.o.Oneof && nf > 0 {
		m.Oneofs = g.r.Int(3)
	}
	for i := 0; i < nf; i++ {
		f := &Field{Num: g.fieldNum(used)}
		f.Name = fmt.Sprintf("f%d", f.Num)
		m.Fields = append(m.Fields, f)
		wm := 4
		if g.o.Maps > 0 {
			wm = g.o.Maps
		}
		if g.o.NoMaps {
			wm = 0
		}
		wo := 0
		if m.Oneofs > 0 {
			wo = 6
		}
		switch rt.Weighted(g.r, 6, 5, 5, wm, wo, 1) {
		case 0:
			f.Shape = Implicit
		case 1:
			f.Shape = Explicit
		case 2:
			f.Shape = Repeated
		case 3:
			f.Shape = Map
		case 4:
			f.Shape = Oneof
			f.OneofIx = g.r.Int(m.Oneofs)
		case 5:
			f.Shape = Required
		}
		if f.Shape == Map {
			f.Key = KeyKinds[g.r.Int(len(KeyKinds))]
		}
		if depth > 0 && rt.Chance(g.r, 28) {
			f.Kind = MsgK
			if len(g.msgs) > 3 && rt.Chance(g.r, 30) {
				// reuse an already completed message type (no cycles)
				if r := g.reusable(m, depth); r != nil {
					f.Msg = r
				}
			}
			if f.Msg == nil {
				f.Msg = g.msg(depth - 1)
			}
			if g.o.ByValue && f.Shape != Oneof {
				f.ByValue = rt.Chance(g.r, 40)
			}
			if f.Shape == Implicit {
				f.Shape = Explicit // messages always have presence
			}
			if f.Shape == Required && f.ByValue {
				f.Shape = Explicit
			}
			continue
		}
		f.Kind = ScalarKinds[g.r.Int(len(ScalarKinds))]
		if f.Shape == Repeated && f.Kind != StringK && f.Kind != BytesK {
			f.Packed = rt.Chance(g.r, 55)
		}
		if f.Shape == Explicit && f.Kind == BytesK && !g.o.Official && rt.Chance(g.r, 50) {
			f.Shape = PtrBytes
		}
	}
	m.dropEmptyOneofs()
	m.done(depth)
	return m
}

func (m *Msg) dropEmptyOneofs() {
	remap := map[int]int{}
	for _, f := range m.Fields {
		if f.Shape == Oneof {
			if _, ok := remap[f.OneofIx]; !ok {
				remap[f.OneofIx] = len(remap)
			}
			f.OneofIx = remap[f.OneofIx]
		}
	}
	m.Oneofs = len(remap)
}

func (m *Msg) done(depth int) { m.Desc = nil }

func (m *Msg) height() int {
	h := 0
	for _, f := range m.Fields {
		if f.Msg != nil {
			if x := 1 + f.Msg.height(); x > h {
				h = x
			}
		}
	}
	return h
}

// reusable picks a finished message of small enough height.
func (g *gen) reusable(self *Msg, depth int) *Msg {
	var c []*Msg
	open := map[*Msg]bool{self: true}
	for _, m := range g.msgs {
		if !open[m] && !m.reaches(self) && len(m.Fields) > 0 && g.finished(m) && m.height() < depth {
			c = append(c, m)
		}
	}
	if len(c) == 0 {
		return nil
	}
	return c[g.r.Int(len(c))]
}

// finished: an unfinished message has a field of unset kind, or reaches one.
func (g *gen) finished(m *Msg) bool {
	for _, f := range m.Fields {
		if f.Kind == 0 || (f.Kind == MsgK && (f.Msg == nil || !g.finished(f.Msg))) {
			return false
		}
	}
	return true
}

func (m *Msg) reaches(x *Msg) bool {
	if m == x {
		return true
	}
	for _, f := range m.Fields {
		if f.Msg != nil && f.Msg.reaches(x) {
			return true
		}
	}
	return false
}

// All returns m and all messages reachable from it, each once.
func (m *Msg) All() []*Msg {
	var out []*Msg
	seen := map[*Msg]bool{}
	var walk func(*Msg)
	walk = func(x *Msg) {
		if seen[x] {
			return
		}
		seen[x] = true
		out = append(out, x)
		for _, f := range x.Fields {
			if f.Msg != nil {
				walk(f.Msg)
			}
		}
	}
	walk(m)
	return out
}

func (m *Msg) ByNum(n int) *Field {
	for _, f := range m.Fields {
		if f.Num == n {
			return f
		}
	}
	return nil
}

func fdType(k Kind) descriptorpb.FieldDescriptorProto_Type {
	return descriptorpb.FieldDescriptorProto_Type(k)
}

func camel(s string) string {
	if s == "" {
		return s
	}
	return strings.ToUpper(s[:1]) + s[1:]
}

// FileProto renders all messages reachable from ms as one edition-2023 file.
func FileProto(name, pkg string, ms ...*Msg) *descriptorpb.FileDescriptorProto {
	fd := &descriptorpb.FileDescriptorProto{
		Name: proto.String(name), Package: proto.String(pkg),
		Syntax: proto.String("editions"), Edition: descriptorpb.Edition_EDITION_2023.Enum(),
		Options: &descriptorpb.FileOptions{Features: &descriptorpb.FeatureSet{
			Utf8Validation: descriptorpb.FeatureSet_NONE.Enum(),
			FieldPresence:  descriptorpb.FeatureSet_EXPLICIT.Enum(),
			EnumType:       descriptorpb.FeatureSet_OPEN.Enum(),
		}},
	}
	fd.EnumType = append(fd.EnumType, &descriptorpb.EnumDescriptorProto{
		Name: proto.String("E"),
		Value: []*descriptorpb.EnumValueDescriptorProto{
			{Name: proto.String("E_ZERO"), Number: proto.Int32(0)},
			{Name: proto.String("E_ONE"), Number: proto.Int32(1)},
			{Name: proto.String("E_NEG"), Number: proto.Int32(-1)},
			{Name: proto.String("E_BIG"), Number: proto.Int32(2147483647)},
			{Name: proto.String("E_MIN"), Number: proto.Int32(-2147483648)},
		},
	})
	seen := map[*Msg]bool{}
	for _, m := range ms {
		for _, x := range m.All() {
			if !seen[x] {
				seen[x] = true
				fd.MessageType = append(fd.MessageType, x.proto(pkg))
			}
		}
	}
	return fd
}

func (m *Msg) proto(pkg string) *descriptorpb.DescriptorProto {
	d := &descriptorpb.DescriptorProto{Name: proto.String(m.Name)}
	for i := 0; i < m.Oneofs; i++ {
		d.OneofDecl = append(d.OneofDecl, &descriptorpb.OneofDescriptorProto{Name: proto.String(fmt.Sprintf("o%d", i))})
	}
	typ := func(f *descriptorpb.FieldDescriptorProto, k Kind, msg *Msg) {
		f.Type = fdType(k).Enum()
		switch k {
		case MsgK:
			f.TypeName = proto.String("." + pkg + "." + msg.Name)
		case EnumK:
			f.TypeName = proto.String("." + pkg + ".E")
		}
	}
	fields := append([]*Field{}, m.Fields...)
	sort.SliceStable(fields, func(i, j int) bool { return fields[i].oneofKey() < fields[j].oneofKey() })
	for _, f := range fields {
		p := &descriptorpb.FieldDescriptorProto{
			Name: proto.String(f.Name), Number: proto.Int32(int32(f.Num)),
			Label: descriptorpb.FieldDescriptorProto_LABEL_OPTIONAL.Enum(),
		}
		feat := &descriptorpb.FeatureSet{}
		switch f.Shape {
		case Implicit:
			feat.FieldPresence = descriptorpb.FeatureSet_IMPLICIT.Enum()
		case Required:
			feat.FieldPresence = descriptorpb.FeatureSet_LEGACY_REQUIRED.Enum()
		case Repeated:
			p.Label = descriptorpb.FieldDescriptorProto_LABEL_REPEATED.Enum()
			if f.Kind != StringK && f.Kind != BytesK && f.Kind != MsgK {
				if f.Packed {
					feat.RepeatedFieldEncoding = descriptorpb.FeatureSet_PACKED.Enum()
				} else {
					feat.RepeatedFieldEncoding = descriptorpb.FeatureSet_EXPANDED.Enum()
				}
			}
		case Oneof:
			p.OneofIndex = proto.Int32(int32(f.OneofIx))
		}
		if !proto.Equal(feat, &descriptorpb.FeatureSet{}) {
			p.Options = &descriptorpb.FieldOptions{Features: feat}
		}
		if f.Shape == Map {
			p.Label = descriptorpb.FieldDescriptorProto_LABEL_REPEATED.Enum()
			en := camel(f.Name) + "Entry"
			e := &descriptorpb.DescriptorProto{Name: proto.String(en), Options: &descriptorpb.MessageOptions{MapEntry: proto.Bool(true)}}
			k := &descriptorpb.FieldDescriptorProto{Name: proto.String("key"), Number: proto.Int32(1), Label: descriptorpb.FieldDescriptorProto_LABEL_OPTIONAL.Enum()}
			v := &descriptorpb.FieldDescriptorProto{Name: proto.String("value"), Number: proto.Int32(2), Label: descriptorpb.FieldDescriptorProto_LABEL_OPTIONAL.Enum()}
			typ(k, f.Key, nil)
			typ(v, f.Kind, f.Msg)
			e.Field = append(e.Field, k, v)
			d.NestedType = append(d.NestedType, e)
			p.Type = descriptorpb.FieldDescriptorProto_TYPE_MESSAGE.Enum()
			p.TypeName = proto.String("." + pkg + "." + m.Name + "." + en)
		} else {
			typ(p, f.Kind, f.Msg)
		}
		d.Field = append(d.Field, p)
	}
	return d
}

// oneofKey groups the members of each oneof, which must be declared consecutively.
func (f *Field) oneofKey() int {
	if f.Shape != Oneof {
		return -1
	}
	return f.OneofIx
}

// Describe builds the descriptors of m and of everything reachable from it.
func Describe(ms ...*Msg) {
	fd, err := protodesc.NewFile(FileProto("t.proto", "t", ms...), nil)
	if err != nil {
		panic(fmt.Sprintf("harness: schema rejected by protodesc: %v", err))
	}
	Attach(fd, ms...)
}

// Attach links already built descriptors to the model.
func Attach(fd protoreflect.FileDescriptor, ms ...*Msg) {
	for _, m := range ms {
		for _, x := range m.All() {
			x.Desc = fd.Messages().ByName(protoreflect.Name(x.Name))
			if x.Desc == nil {
				panic("harness: no descriptor for " + x.Name)
			}
		}
	}
}

// String renders the schema for reports.
func (m *Msg) String() string {
	var b strings.Builder
	for _, x := range m.All() {
		fmt.Fprintf(&b, "message %s{unknown=%d ", x.Name, x.Unknown)
		for _, f := range x.Fields {
			k := f.Kind.String()
			if f.Msg != nil {
				k = f.Msg.Name
				if f.ByValue {
					k = "value:" + k
				}
			}
			switch f.Shape {
			case Map:
				k = "map<" + f.Key.String() + "," + k + ">"
			case Repeated:
				k = "repeated " + k
				if f.Packed {
					k += "[packed]"
				}
			case Oneof:
				k = fmt.Sprintf("oneof%d %s", f.OneofIx, k)
			default:
				k = f.Shape.String() + " " + k
			}
			fmt.Fprintf(&b, "%s=%d; ", k, f.Num)
		}
		b.WriteString("} ")
	}
	return b.String()
}
