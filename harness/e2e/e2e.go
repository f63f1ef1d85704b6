// Package e2e is linked with generated code: it exercises the generated types
// with the library against the reference built from the schema's descriptors.
package e2e

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"os"
	"reflect"
	"strconv"
	"strings"

	"github.com/cloudwego/prutal"
	"google.golang.org/protobuf/encoding/prototext"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protodesc"
	"google.golang.org/protobuf/reflect/protoreflect"
	"google.golang.org/protobuf/types/descriptorpb"
	"google.golang.org/protobuf/types/dynamicpb"
	"google.golang.org/protobuf/types/known/structpb"

	"verif/rt"
	"verif/sch"
)

// Proj is the generated code of one project.
type Proj struct {
	Msgs  map[string]any // full name -> nil pointer
	Enums map[string]any // full name -> zero value
}

// Job says what to do with it.
type Job struct {
	Files   []byte // FileDescriptorSet
	Seed    uint64
	Rounds  int
	Wire    bool            // check the wire format
	Getter  bool            // check the getters, which exist
	Marshal bool            // methods Marshal and Unmarshal exist
	Enums   map[string]bool // enums with a String method
	Hint    string
}

// Result is what Main prints.
type Result struct {
	OK     bool
	Proj   int
	Msg    string
	Values int // messages compared
	Calls  int // getters called
}

type failed string

func failf(f string, a ...any) { panic(failed(fmt.Sprintf(f, a...))) }

// Main runs the jobs in the file named on the command line.
func Main(ps []Proj) {
	b, err := os.ReadFile(os.Args[1])
	if err != nil {
		panic(err)
	}
	var jobs []Job
	if err := json.Unmarshal(b, &jobs); err != nil {
		panic(err)
	}
	res := Result{OK: true}
	for i := range jobs {
		if msg := run(&ps[i], &jobs[i], &res); msg != "" {
			res.OK, res.Proj, res.Msg = false, i, msg
			break
		}
	}
	out, _ := json.Marshal(res)
	fmt.Printf("RESULT %s\n", out)
}

type runner struct {
	p   *Proj
	j   *Job
	r   *rt.Source
	ms  map[protoreflect.FullName]*sch.Msg
	byT map[reflect.Type]*sch.Msg
	tt  sch.Types
	res *Result
}

func run(p *Proj, j *Job, res *Result) (msg string) {
	var set descriptorpb.FileDescriptorSet
	if err := proto.Unmarshal(j.Files, &set); err != nil {
		panic(err)
	}
	reg, err := protodesc.NewFiles(&set)
	if err != nil {
		panic(err)
	}
	defer func() {
		switch e := recover().(type) {
		case nil:
		case failed:
			msg = string(e)
		default:
			panic(e)
		}
	}()
	x := &runner{p: p, j: j, r: rt.NewSeeded(j.Seed), ms: map[protoreflect.FullName]*sch.Msg{}, tt: sch.Types{}, res: res}
	var names []string
	for n := range p.Msgs {
		names = append(names, n)
	}
	sortStrings(names)
	for _, n := range names {
		d, err := reg.FindDescriptorByName(protoreflect.FullName(n))
		if err != nil {
			panic(err)
		}
		m := x.bind(d.(protoreflect.MessageDescriptor), reflect.TypeOf(p.Msgs[n]).Elem())
		for i := 0; i < j.Rounds; i++ {
			if j.Wire {
				x.wire(m)
			}
			if j.Getter && m.Desc.ParentFile().Path() != "" {
				x.getters(m)
			}
		}
	}
	names = names[:0]
	for n := range p.Enums {
		names = append(names, n)
	}
	sortStrings(names)
	for _, n := range names {
		d, err := reg.FindDescriptorByName(protoreflect.FullName(n))
		if err != nil {
			panic(err)
		}
		if j.Enums[n] {
			x.enum(d.(protoreflect.EnumDescriptor), p.Enums[n])
		}
	}
	return ""
}

func sortStrings(s []string) {
	for i := range s {
		for k := i; k > 0 && s[k] < s[k-1]; k-- {
			s[k], s[k-1] = s[k-1], s[k]
		}
	}
}

func num(tag string) int {
	for _, s := range strings.Split(tag, ",") {
		if n, err := strconv.Atoi(s); err == nil {
			return n
		}
	}
	return -1
}

// bind makes the model of a message from its descriptor and its Go type.
func (x *runner) bind(d protoreflect.MessageDescriptor, t reflect.Type) *sch.Msg {
	if m := x.ms[d.FullName()]; m != nil {
		if x.tt[m].T != t {
			failf("%s is %s here and %s there", d.FullName(), t, x.tt[m].T)
		}
		return m
	}
	if t.Kind() != reflect.Struct {
		failf("%s is %s in Go", d.FullName(), t)
	}
	m := &sch.Msg{Name: string(d.FullName()), Desc: d, Oneofs: d.Oneofs().Len()}
	x.ms[d.FullName()] = m
	g := &sch.Go{T: t, Fields: map[int]int{}, Unk: -1, Wrap: map[int]reflect.Type{}, Oneofs: make([]int, d.Oneofs().Len())}
	x.tt[m] = g
	for i := range g.Oneofs {
		g.Oneofs[i] = -1
	}
	for i := 0; i < t.NumField(); i++ {
		sf := t.Field(i)
		if tag := sf.Tag.Get("protobuf"); tag != "" {
			g.Fields[num(tag)] = i
		} else if o := sf.Tag.Get("protobuf_oneof"); o != "" {
			od := d.Oneofs().ByName(protoreflect.Name(o))
			if od == nil {
				failf("%s has no oneof %s", d.FullName(), o)
			}
			g.Oneofs[od.Index()] = i
		} else if sf.Name == "unknownFields" || sf.Name == "XXX_unrecognized" {
			g.Unk = i
			m.Unknown = sch.UnkBytes
		}
	}
	var ws []any
	if w, ok := reflect.New(t).Interface().(interface{ XXX_OneofWrappers() []any }); ok {
		ws = w.XXX_OneofWrappers()
	} else if d.FullName() == "google.protobuf.Value" {
		ws = []any{(*structpb.Value_NullValue)(nil), (*structpb.Value_NumberValue)(nil), (*structpb.Value_StringValue)(nil), (*structpb.Value_BoolValue)(nil), (*structpb.Value_StructValue)(nil), (*structpb.Value_ListValue)(nil)}
	}
	for _, w := range ws {
		wt := reflect.TypeOf(w).Elem()
		g.Wrap[num(wt.Field(0).Tag.Get("protobuf"))] = wt
	}
	for i := 0; i < d.Fields().Len(); i++ {
		fd := d.Fields().Get(i)
		f := &sch.Field{Name: string(fd.Name()), Num: int(fd.Number()), Kind: fd.Kind(), Packed: fd.IsPacked()}
		m.Fields = append(m.Fields, f)
		var ft reflect.Type
		if o := fd.ContainingOneof(); o != nil && !o.IsSynthetic() {
			f.Shape, f.OneofIx = sch.Oneof, o.Index()
			if g.Wrap[f.Num] == nil || g.Oneofs[f.OneofIx] < 0 {
				failf("%s has no Go field", fd.FullName())
			}
			ft = g.Wrap[f.Num].Field(0).Type
		} else {
			ix, ok := g.Fields[f.Num]
			if !ok {
				failf("%s has no Go field", fd.FullName())
			}
			ft = t.Field(ix).Type
			switch {
			case fd.IsMap():
				f.Shape, f.Key, f.Kind = sch.Map, fd.MapKey().Kind(), fd.MapValue().Kind()
			case fd.IsList():
				f.Shape = sch.Repeated
			case fd.Message() != nil:
				f.Shape = sch.Explicit
			case ft.Kind() == reflect.Pointer && ft.Elem().Kind() == reflect.Slice:
				f.Shape = sch.PtrBytes
			case ft.Kind() == reflect.Pointer || (fd.Kind() == sch.BytesK && fd.HasPresence()):
				f.Shape = sch.Explicit
			default:
				f.Shape = sch.Implicit
			}
		}
		et := ft
		switch f.Shape {
		case sch.Map:
			if ft.Kind() != reflect.Map {
				failf("%s is a %s in Go", fd.FullName(), ft)
			}
			et = ft.Elem()
			fd = fd.MapValue()
		case sch.Repeated:
			if ft.Kind() != reflect.Slice {
				failf("%s is a %s in Go", fd.FullName(), ft)
			}
			et = ft.Elem()
		}
		if f.Kind == sch.MsgK {
			f.ByValue = et.Kind() == reflect.Struct
			if !f.ByValue {
				if et.Kind() != reflect.Pointer {
					failf("%s is a %s in Go", fd.FullName(), ft)
				}
				et = et.Elem()
			}
			f.Msg = x.bind(fd.Message(), et)
		}
	}
	return m
}

func text(m proto.Message) string {
	return prototext.MarshalOptions{AllowPartial: true, EmitUnknown: true}.Format(m)
}

func refDecode(md protoreflect.MessageDescriptor, b []byte) (*dynamicpb.Message, error) {
	ref := dynamicpb.NewMessage(md)
	err := (proto.UnmarshalOptions{AllowPartial: true, Resolver: sch.NoExts}).Unmarshal(sch.RefForm(md, b), ref)
	return ref, err
}

func refEncode(m proto.Message) []byte {
	b, err := proto.MarshalOptions{AllowPartial: true, Deterministic: true}.Marshal(m)
	if err != nil {
		panic(fmt.Sprintf("reference cannot encode: %v", err))
	}
	return b
}

// normalize removes what the Go type cannot hold: also the presence of fields
// that the directives make plain values.
func (x *runner) normalize(m *sch.Msg, v protoreflect.Message) {
	sch.Normalize(m, v)
	x.plain(m, v)
}

func (x *runner) plain(m *sch.Msg, v protoreflect.Message) {
	for _, f := range m.Fields {
		fd := m.Desc.Fields().ByNumber(protoreflect.FieldNumber(f.Num))
		if !v.Has(fd) {
			continue
		}
		if f.Msg != nil {
			switch f.Shape {
			case sch.Repeated:
				for i, l := 0, v.Get(fd).List(); i < l.Len(); i++ {
					x.plain(f.Msg, l.Get(i).Message())
				}
			case sch.Map:
				v.Get(fd).Map().Range(func(_ protoreflect.MapKey, e protoreflect.Value) bool {
					x.plain(f.Msg, e.Message())
					return true
				})
			default:
				x.plain(f.Msg, v.Get(fd).Message())
			}
			continue
		}
		if f.Shape == sch.Implicit && fd.HasPresence() && zero(f.Kind, v.Get(fd)) {
			v.Clear(fd)
		}
	}
	sch.Normalize(m, v)
}

func zero(k sch.Kind, v protoreflect.Value) bool {
	switch k {
	case sch.BoolK:
		return !v.Bool()
	case sch.EnumK:
		return v.Enum() == 0
	case sch.FloatK, sch.DoubleK:
		return v.Float() == 0 && !math.Signbit(v.Float())
	case sch.StringK:
		return v.String() == ""
	case sch.BytesK:
		return len(v.Bytes()) == 0
	case sch.U32K, sch.U64K, sch.F32K, sch.F64K:
		return v.Uint() == 0
	}
	return v.Int() == 0
}

func (x *runner) value(m *sch.Msg) (*dynamicpb.Message, reflect.Value) {
	ref := sch.GenValue(x.r, m.Desc, sch.VOpt{Unknown: true, UTF8: true, Budget: 30})
	x.normalize(m, ref)
	v := x.tt.New(m)
	x.tt.FromPB(x.r, m, ref, v.Elem())
	return ref, v
}

func (x *runner) same(what string, m *sch.Msg, want *dynamicpb.Message, v reflect.Value) {
	got := x.tt.ToPB(m, v.Elem())
	x.normalize(m, got)
	if !proto.Equal(want, got) {
		failf("%s: %s:\ngot  %s\nwant %s", m.Name, what, text(got), text(want))
	}
	x.res.Values++
}

func (x *runner) wire(m *sch.Msg) {
	ref, v := x.value(m)
	check := func(what string, b []byte) {
		got, err := refDecode(m.Desc, b)
		if err != nil {
			failf("%s: the official decoder rejects what %s gives for %s: %v (%x)", m.Name, what, text(ref), err, b)
		}
		x.normalize(m, got)
		if !proto.Equal(got, ref) {
			failf("%s: the official decoder reads from what %s gives:\ngot  %s\nwant %s\nwire %x", m.Name, what, text(got), text(ref), b)
		}
		x.res.Values++
	}
	b, err := prutal.Marshal(v.Interface())
	if err != nil {
		failf("%s: Marshal of %s: %v", m.Name, text(ref), err)
	}
	check("Marshal", b)
	if n, err := prutal.Size(v.Interface()); err != nil || n != len(b) {
		failf("%s: Size is %d, %v; the encoding has %d bytes", m.Name, n, err, len(b))
	}
	got := x.tt.New(m)
	if err := prutal.Unmarshal(b, got.Interface()); err != nil {
		failf("%s: Unmarshal of %x: %v", m.Name, b, err)
	}
	x.same("round trip", m, ref, got)

	// what the official encoder writes
	rb := refEncode(ref)
	got = x.tt.New(m)
	if err := prutal.Unmarshal(rb, got.Interface()); err != nil {
		failf("%s: Unmarshal of the official encoding %x: %v", m.Name, rb, err)
	}
	x.same(fmt.Sprintf("Unmarshal of the official encoding %x", rb), m, ref, got)

	// any valid encoding
	w, _ := sch.GenWire(x.r, m.Desc, sch.WOpt{UTF8: true, Unknown: true, Budget: 20})
	want, err := refDecode(m.Desc, w)
	if err != nil {
		panic(fmt.Sprintf("harness: the reference rejects a valid encoding: %v", err))
	}
	x.normalize(m, want)
	got = x.tt.New(m)
	if err := prutal.Unmarshal(w, got.Interface()); err != nil {
		failf("%s: Unmarshal of %x: %v", m.Name, w, err)
	}
	x.same(fmt.Sprintf("Unmarshal of %x", w), m, want, got)

	if _, ours := x.p.Msgs[m.Name]; !ours {
		return
	}
	km, ok := v.Interface().(interface{ Marshal([]byte) ([]byte, error) })
	ku, ok2 := got.Interface().(interface{ Unmarshal([]byte) error })
	if ok != x.j.Marshal || ok2 != x.j.Marshal {
		failf("%s: it has a Marshal method: %v, an Unmarshal method: %v; want %v", m.Name, ok, ok2, x.j.Marshal)
	}
	if ok {
		pre := []byte("prefix")[:x.r.Int(7)]
		out, err := km.Marshal(append(make([]byte, 0, x.r.Int(200)), pre...))
		if err != nil || !bytes.HasPrefix(out, pre) || len(out) != len(pre)+len(b) {
			failf("%s: method Marshal gives %x, %v; want %x then an encoding of %d bytes", m.Name, out, err, pre, len(b))
		}
		check("method Marshal", out[len(pre):])
		fresh := x.tt.New(m)
		ku = fresh.Interface().(interface{ Unmarshal([]byte) error })
		if err := ku.Unmarshal(rb); err != nil {
			failf("%s: method Unmarshal of %x: %v", m.Name, rb, err)
		}
		x.same("method Unmarshal", m, ref, fresh)
	}
	rs, ok := v.Interface().(interface{ Reset() })
	if !ok {
		failf("%s: it has no Reset method", m.Name)
	}
	rs.Reset()
	if !v.Elem().IsZero() {
		failf("%s: Reset leaves %+v", m.Name, v.Elem().Interface())
	}
}

// sameGo compares a getter's result with the field's value: identity of what
// is referenced, bits of numbers.
func sameGo(a, b reflect.Value) bool {
	if a.Type() != b.Type() {
		return false
	}
	switch a.Kind() {
	case reflect.Float32, reflect.Float64:
		return math.Float64bits(a.Float()) == math.Float64bits(b.Float())
	case reflect.Pointer, reflect.Map:
		return a.Pointer() == b.Pointer()
	case reflect.Slice:
		return a.IsNil() == b.IsNil() && a.Len() == b.Len() && (a.Len() == 0 || a.Pointer() == b.Pointer())
	case reflect.Interface:
		return a.IsNil() == b.IsNil() && (a.IsNil() || a.Elem().Pointer() == b.Elem().Pointer())
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			if !sameGo(a.Field(i), b.Field(i)) {
				return false
			}
		}
		return true
	case reflect.Array:
		for i := 0; i < a.Len(); i++ {
			if !sameGo(a.Index(i), b.Index(i)) {
				return false
			}
		}
		return true
	case reflect.Func:
		return a.IsNil() && b.IsNil()
	}
	return a.Equal(b)
}

func (x *runner) getters(m *sch.Msg) {
	if _, ours := x.p.Msgs[m.Name]; !ours {
		return
	}
	g := x.tt[m]
	ref, v := x.value(m)
	empty := reflect.New(g.T)
	null := reflect.Zero(reflect.PointerTo(g.T))
	call := func(recv reflect.Value, name, what string) reflect.Value {
		f := recv.MethodByName(name)
		if !f.IsValid() {
			failf("%s has no method %s", m.Name, name)
		}
		if f.Type().NumIn() != 0 || f.Type().NumOut() != 1 {
			failf("%s: method %s is a %s", m.Name, name, f.Type())
		}
		x.res.Calls++
		defer func() {
			if e := recover(); e != nil {
				failf("%s: %s of %s panics: %v", m.Name, name, what, e)
			}
		}()
		return f.Call(nil)[0]
	}
	want := func(recv reflect.Value, name, what string, w reflect.Value) {
		if got := call(recv, name, what); !sameGo(got, w) {
			failf("%s: %s of %s is %#v, want %#v (message %s)", m.Name, name, what, got, w, text(ref))
		}
	}
	for _, ix := range g.Oneofs {
		if ix < 0 {
			continue // synthetic
		}
		name := "Get" + g.T.Field(ix).Name
		want(v, name, "a message", v.Elem().Field(ix))
		want(empty, name, "an empty message", empty.Elem().Field(ix))
		want(null, name, "nil", empty.Elem().Field(ix))
	}
	for _, f := range m.Fields {
		fd := m.Desc.Fields().ByNumber(protoreflect.FieldNumber(f.Num))
		var name string
		var val, dflt reflect.Value
		isSet := true
		if f.Shape == sch.Oneof {
			name = g.Wrap[f.Num].Field(0).Name
			dflt = reflect.Zero(g.Wrap[f.Num].Field(0).Type)
			iv := v.Elem().Field(g.Oneofs[f.OneofIx])
			isSet = !iv.IsNil() && iv.Elem().Type().Elem() == g.Wrap[f.Num]
			if isSet {
				val = iv.Elem().Elem().Field(0)
			}
		} else {
			name = g.T.Field(g.Fields[f.Num]).Name
			val = v.Elem().Field(g.Fields[f.Num])
			dflt = reflect.Zero(val.Type())
			if val.Kind() == reflect.Pointer && f.Kind != sch.MsgK || f.Shape == sch.PtrBytes {
				isSet = !val.IsNil()
				if isSet {
					val = val.Elem()
				}
				dflt = reflect.Zero(dflt.Type().Elem())
			}
		}
		// explicit defaults are not supported; enums without a zero have no agreed default
		known := !fd.HasDefault()
		if fd.Kind() == sch.EnumK && !fd.IsList() && fd.Default().Enum() != 0 {
			known = false
		}
		name = "Get" + name
		if isSet {
			want(v, name, "a message", val)
		} else if known {
			want(v, name, "a message without the field", dflt)
		}
		if known {
			want(empty, name, "an empty message", dflt)
			want(null, name, "nil", dflt)
		} else {
			call(empty, name, "an empty message")
			call(null, name, "nil")
		}
	}
}

func (x *runner) enum(d protoreflect.EnumDescriptor, z any) {
	t := reflect.TypeOf(z)
	str := func(n int32) string {
		v := reflect.New(t).Elem()
		v.SetInt(int64(n))
		s, ok := v.Interface().(fmt.Stringer)
		if !ok {
			failf("enum %s has no String method", d.FullName())
		}
		x.res.Calls++
		return s.String()
	}
	check := func(n int32) {
		want := strconv.Itoa(int(n))
		if v := d.Values().ByNumber(protoreflect.EnumNumber(n)); v != nil {
			want = string(v.Name())
		}
		if got := str(n); got != want {
			failf("enum %s: String of %d is %q, want %q", d.FullName(), n, got, want)
		}
	}
	for i := 0; i < d.Values().Len(); i++ {
		n := int32(d.Values().Get(i).Number())
		check(n)
		check(n + 1)
		check(n - 1)
	}
	for i := 0; i < 8; i++ {
		check(int32(sch.Int(x.r)))
	}
}
