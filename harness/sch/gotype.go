package sch

import (
	"bytes"
	"fmt"
	"math"
	"reflect"
	"strconv"
	"strings"
	"unsafe"

	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
	"google.golang.org/protobuf/types/dynamicpb"

	"verif/rt"
)

// E is the enum type of all generated Go structs.
type E int32

// Go binds a model message to a Go struct type.
type Go struct {
	T      reflect.Type
	Fields map[int]int          // field number -> struct field index (not for oneof members)
	Oneofs []int                // oneof index -> struct field index
	Wrap   map[int]reflect.Type // oneof member number -> wrapper struct type
	Unk    int                  // struct field index of the unknown-field storage, or -1
	Canary []int                // untagged fields: must never change
}

// Types maps the messages of one schema to Go types.
type Types map[*Msg]*Go

func scalarGo(k Kind) reflect.Type {
	switch k {
	case BoolK:
		return reflect.TypeFor[bool]()
	case EnumK:
		return reflect.TypeFor[E]()
	case I32K, S32K, SF32K:
		return reflect.TypeFor[int32]()
	case U32K, F32K:
		return reflect.TypeFor[uint32]()
	case I64K, S64K, SF64K:
		return reflect.TypeFor[int64]()
	case U64K, F64K:
		return reflect.TypeFor[uint64]()
	case FloatK:
		return reflect.TypeFor[float32]()
	case DoubleK:
		return reflect.TypeFor[float64]()
	case StringK:
		return reflect.TypeFor[string]()
	case BytesK:
		return reflect.TypeFor[[]byte]()
	}
	panic("harness: no Go type for " + k.String())
}

func wireWord(k Kind) string {
	switch k {
	case BoolK, EnumK, I32K, I64K, U32K, U64K:
		return "varint"
	case S32K:
		return "zigzag32"
	case S64K:
		return "zigzag64"
	case F32K, SF32K, FloatK:
		return "fixed32"
	case F64K, SF64K, DoubleK:
		return "fixed64"
	}
	return "bytes"
}

// Tag renders the struct tag of a field the way protoc-gen-go and its
// relatives do, in one of three styles chosen by the field number.
func (f *Field) Tag() string {
	k := f.Kind
	if f.Shape == Map {
		k = MsgK
	}
	p := []string{wireWord(k), strconv.Itoa(f.Num)}
	switch f.Shape {
	case Required:
		p = append(p, "req")
	case Repeated, Map:
		p = append(p, "rep")
	default:
		p = append(p, "opt")
	}
	if f.Packed {
		p = append(p, "packed")
	}
	style := f.Num % 3
	if style != 0 {
		p = append(p, "name="+f.Name)
	}
	if style == 2 {
		p = append(p, "json=j"+f.Name)
	}
	if f.Shape == Implicit || (style == 1 && f.Shape != Required && f.Shape != PtrBytes) {
		p = append(p, "proto3")
	}
	if style != 0 && f.Kind == EnumK && f.Shape != Map {
		p = append(p, "enum=t.E")
	}
	if f.Shape == Oneof || (style == 1 && f.Shape == Explicit && f.Kind != MsgK) {
		p = append(p, "oneof")
	}
	if style == 2 && (f.Shape == Explicit || f.Shape == Required) {
		switch f.Kind {
		case StringK:
			p = append(p, `def=a,7,rep,packed,b`)
		case BytesK:
			p = append(p, `def=x,req,varint,3`)
		case MsgK:
		case BoolK, EnumK:
			p = append(p, "def=1")
		default:
			p = append(p, "def=42")
		}
	}
	t := `protobuf:"` + strings.Join(p, ",") + `"`
	if f.Shape == Map {
		t += fmt.Sprintf(` protobuf_key:"%s,1,opt,name=key"`, wireWord(f.Key))
		t += fmt.Sprintf(` protobuf_val:"%s,2,opt,name=value"`, wireWord(f.Kind))
	}
	if style == 2 {
		t += ` json:"j` + f.Name + `,omitempty"`
	}
	return t
}

func elem(f *Field, tt Types) reflect.Type {
	if f.Kind != MsgK {
		return scalarGo(f.Kind)
	}
	t := tt[f.Msg].T
	if f.ByValue {
		return t
	}
	return reflect.PointerTo(t)
}

// GoFieldType is the type of the struct field (for oneof members: of the wrapper's field).
func (f *Field) GoFieldType(tt Types) reflect.Type {
	e := elem(f, tt)
	switch f.Shape {
	case Explicit, Required:
		if f.Kind == MsgK || f.Kind == BytesK {
			return e
		}
		return reflect.PointerTo(e)
	case PtrBytes:
		return reflect.PointerTo(e)
	case Repeated:
		return reflect.SliceOf(e)
	case Map:
		return reflect.MapOf(scalarGo(f.Key), e)
	}
	return e
}

const pkgPath = "verif/sch"

var canaryTypes = []reflect.Type{
	reflect.TypeFor[uint8](), reflect.TypeFor[uint32](), reflect.TypeFor[uint64](), reflect.TypeFor[[3]byte](), reflect.TypeFor[string](),
}

// BuildTypes makes Go types with reflect.StructOf (no oneofs, no cycles).
func BuildTypes(r rt.Rnd, root *Msg) Types {
	tt := Types{}
	var build func(m *Msg)
	build = func(m *Msg) {
		if tt[m] != nil {
			return
		}
		for _, f := range m.Fields {
			if f.Msg != nil {
				build(f.Msg)
			}
		}
		g := &Go{Fields: map[int]int{}, Unk: -1}
		var sf []reflect.StructField
		can := func() {
			if r != nil && rt.Chance(r, 15) {
				t := canaryTypes[r.Int(len(canaryTypes))]
				g.Canary = append(g.Canary, len(sf))
				sf = append(sf, reflect.StructField{Name: fmt.Sprintf("Canary%d", len(sf)), Type: t})
			}
		}
		for _, f := range m.Fields {
			can()
			g.Fields[f.Num] = len(sf)
			sf = append(sf, reflect.StructField{Name: fmt.Sprintf("F%d", f.Num), Type: f.GoFieldType(tt), Tag: reflect.StructTag(f.Tag())})
		}
		can()
		bt := reflect.TypeFor[[]byte]()
		g.Unk = len(sf)
		switch m.Unknown {
		case UnkBytes:
			sf = append(sf, reflect.StructField{Name: "unknownFields", PkgPath: pkgPath, Type: bt})
		case UnkPtr:
			sf = append(sf, reflect.StructField{Name: "unknownFields", PkgPath: pkgPath, Type: reflect.PointerTo(bt)})
		case UnkXXX:
			sf = append(sf, reflect.StructField{Name: "XXX_unrecognized", Type: bt, Tag: `json:"-"`})
		case UnkXXXPtr:
			sf = append(sf, reflect.StructField{Name: "XXX_unrecognized", Type: reflect.PointerTo(bt), Tag: `json:"-"`})
		default:
			g.Unk = -1
		}
		can()
		g.T = reflect.StructOf(sf)
		tt[m] = g
	}
	build(root)
	return tt
}

// Bind links the model to existing (compiled) Go struct types.
func Bind(tt Types, m *Msg, t reflect.Type, wrappers []any) {
	g := &Go{T: t, Fields: map[int]int{}, Unk: -1, Wrap: map[int]reflect.Type{}}
	g.Oneofs = make([]int, m.Oneofs)
	for i := 0; i < t.NumField(); i++ {
		sf := t.Field(i)
		if tag := sf.Tag.Get("protobuf"); tag != "" {
			n, _ := strconv.Atoi(strings.Split(tag, ",")[1])
			g.Fields[n] = i
		} else if o := sf.Tag.Get("protobuf_oneof"); o != "" {
			ix, _ := strconv.Atoi(o[1:])
			g.Oneofs[ix] = i
		} else if sf.Name == "unknownFields" || sf.Name == "XXX_unrecognized" {
			g.Unk = i
		} else if strings.HasPrefix(sf.Name, "Canary") {
			g.Canary = append(g.Canary, i)
		}
	}
	for _, w := range wrappers {
		wt := reflect.TypeOf(w).Elem()
		n, _ := strconv.Atoi(strings.Split(wt.Field(0).Tag.Get("protobuf"), ",")[1])
		g.Wrap[n] = wt
	}
	for _, f := range m.Fields {
		if f.Shape == Oneof {
			if g.Wrap[f.Num] == nil {
				panic("harness: no wrapper for " + f.Name)
			}
		} else if _, ok := g.Fields[f.Num]; !ok {
			panic("harness: no Go field for " + f.Name)
		}
	}
	tt[m] = g
}

// New allocates a message and sets its canaries.
func (tt Types) New(m *Msg) reflect.Value {
	v := reflect.New(tt[m].T)
	tt.setCanaries(m, v.Elem())
	return v
}

func (tt Types) setCanaries(m *Msg, v reflect.Value) {
	for _, i := range tt[m].Canary {
		f := v.Field(i)
		switch f.Kind() {
		case reflect.Uint8, reflect.Uint32, reflect.Uint64:
			f.SetUint(0xa5a5a5a5a5a5a5a5 >> (64 - f.Type().Bits()))
		case reflect.Array:
			for j := 0; j < f.Len(); j++ {
				f.Index(j).SetUint(0xa5)
			}
		case reflect.String:
			f.SetString("canary")
		}
	}
}

// CheckCanaries reports a changed untagged field of the top-level message.
func (tt Types) CheckCanaries(m *Msg, v reflect.Value) error {
	want := tt.New(m).Elem()
	for _, i := range tt[m].Canary {
		if !reflect.DeepEqual(v.Field(i).Interface(), want.Field(i).Interface()) {
			return fmt.Errorf("untagged field %s changed: %v", v.Type().Field(i).Name, v.Field(i).Interface())
		}
	}
	return nil
}

// UnkPtr returns the address of the unknown-field bytes, allocating with alloc.
func (g *Go) unkSlice(v reflect.Value, alloc bool) *[]byte {
	if g.Unk < 0 {
		return nil
	}
	if !v.CanAddr() {
		c := reflect.New(v.Type()).Elem()
		c.Set(v)
		v = c
	}
	f := v.Field(g.Unk)
	p := f.Addr().UnsafePointer()
	if f.Type().Kind() == reflect.Pointer {
		pp := (**[]byte)(p)
		if *pp == nil && alloc {
			*pp = new([]byte)
		}
		return *pp
	}
	return (*[]byte)(p)
}

func toPB(f *Field, v reflect.Value, fd protoreflect.FieldDescriptor, k Kind) protoreflect.Value {
	switch k {
	case BoolK:
		return protoreflect.ValueOfBool(v.Bool())
	case EnumK:
		return protoreflect.ValueOfEnum(protoreflect.EnumNumber(v.Int()))
	case I32K, S32K, SF32K:
		return protoreflect.ValueOfInt32(int32(v.Int()))
	case U32K, F32K:
		return protoreflect.ValueOfUint32(uint32(v.Uint()))
	case I64K, S64K, SF64K:
		return protoreflect.ValueOfInt64(v.Int())
	case U64K, F64K:
		return protoreflect.ValueOfUint64(v.Uint())
	case FloatK:
		return protoreflect.ValueOfFloat32(float32(v.Float()))
	case DoubleK:
		return protoreflect.ValueOfFloat64(v.Float())
	case StringK:
		return protoreflect.ValueOfString(strings.Clone(v.String()))
	case BytesK:
		return protoreflect.ValueOfBytes(append([]byte{}, v.Bytes()...))
	}
	panic("harness: toPB " + k.String())
}

// checkRoom panics if a slice is longer than its memory: what is behind belongs
// to others.
func checkRoom(v reflect.Value) {
	if v.Kind() == reflect.Slice && v.Len() > v.Cap() {
		panic(fmt.Sprintf("a slice has %d elements and a capacity of %d", v.Len(), v.Cap()))
	}
}

// ToPB converts the Go struct v (of m's type) to the reference message.
func (tt Types) ToPB(m *Msg, v reflect.Value) *dynamicpb.Message {
	out := dynamicpb.NewMessage(m.Desc)
	g := tt[m]
	fds := m.Desc.Fields()
	msgOf := func(f *Field, e reflect.Value) protoreflect.Value {
		if !f.ByValue {
			if e.IsNil() {
				return protoreflect.ValueOfMessage(dynamicpb.NewMessage(f.Msg.Desc))
			}
			e = e.Elem()
		}
		return protoreflect.ValueOfMessage(tt.ToPB(f.Msg, e))
	}
	conv := func(f *Field, e reflect.Value, fd protoreflect.FieldDescriptor) protoreflect.Value {
		if f.Kind == MsgK {
			return msgOf(f, e)
		}
		return toPB(f, e, fd, f.Kind)
	}
	for _, f := range m.Fields {
		fd := fds.ByNumber(protoreflect.FieldNumber(f.Num))
		if f.Shape == Oneof {
			iv := v.Field(g.Oneofs[f.OneofIx])
			if iv.IsNil() || iv.Elem().Type().Elem() != g.Wrap[f.Num] || iv.Elem().IsNil() {
				continue
			}
			out.Set(fd, conv(f, iv.Elem().Elem().Field(0), fd))
			continue
		}
		fv := v.Field(g.Fields[f.Num])
		switch f.Shape {
		case Implicit:
			pv := toPB(f, fv, fd, f.Kind)
			if out.Set(fd, pv); !out.Has(fd) {
				out.Clear(fd)
			}
		case Explicit, Required:
			switch {
			case f.Kind == MsgK && f.ByValue:
				sub := tt.ToPB(f.Msg, fv)
				if !emptyMsg(sub) {
					out.Set(fd, protoreflect.ValueOfMessage(sub))
				}
			case f.Kind == MsgK || f.Kind == BytesK:
				if !fv.IsNil() {
					out.Set(fd, conv(f, fv, fd))
				}
			default:
				if !fv.IsNil() {
					out.Set(fd, conv(f, fv.Elem(), fd))
				}
			}
		case PtrBytes:
			if !fv.IsNil() {
				out.Set(fd, conv(f, fv.Elem(), fd))
			}
		case Repeated:
			checkRoom(fv)
			if fv.Len() > 0 {
				l := out.Mutable(fd).List()
				for i := 0; i < fv.Len(); i++ {
					l.Append(conv(f, fv.Index(i), fd))
				}
			}
		case Map:
			if fv.Len() > 0 {
				mm := out.Mutable(fd).Map()
				for it := fv.MapRange(); it.Next(); {
					mm.Set(toPB(f, it.Key(), fd, f.Key).MapKey(), conv(f, it.Value(), fd.MapValue()))
				}
			}
		}
	}
	if u := g.unkSlice(v, false); u != nil && len(*u) > 0 {
		out.SetUnknown(append([]byte{}, *u...))
	}
	return out
}

func emptyMsg(m protoreflect.Message) bool {
	empty := len(m.GetUnknown()) == 0
	m.Range(func(protoreflect.FieldDescriptor, protoreflect.Value) bool { empty = false; return false })
	return empty
}

// Normalize removes from the reference message what the Go type cannot hold:
// unknown fields without storage and empty by-value messages.
func Normalize(m *Msg, x protoreflect.Message) {
	if m.Unknown == UnkNone {
		x.SetUnknown(nil)
	}
	for _, f := range m.Fields {
		fd := x.Descriptor().Fields().ByNumber(protoreflect.FieldNumber(f.Num))
		if f.Msg == nil || !x.Has(fd) {
			continue
		}
		switch f.Shape {
		case Repeated:
			l := x.Get(fd).List()
			for i := 0; i < l.Len(); i++ {
				Normalize(f.Msg, l.Get(i).Message())
			}
		case Map:
			x.Get(fd).Map().Range(func(_ protoreflect.MapKey, v protoreflect.Value) bool {
				Normalize(f.Msg, v.Message())
				return true
			})
		default:
			sub := x.Get(fd).Message()
			Normalize(f.Msg, sub)
			if f.ByValue && emptyMsg(sub) {
				x.Clear(fd)
			}
		}
	}
}

func fromPB(dst reflect.Value, k Kind, v protoreflect.Value) {
	switch k {
	case BoolK:
		dst.SetBool(v.Bool())
	case EnumK:
		dst.SetInt(int64(v.Enum()))
	case I32K, S32K, SF32K, I64K, S64K, SF64K:
		dst.SetInt(v.Int())
	case U32K, F32K, U64K, F64K:
		dst.SetUint(v.Uint())
	case FloatK, DoubleK:
		dst.SetFloat(v.Float())
	case StringK:
		dst.SetString(v.String())
	case BytesK:
		dst.SetBytes(append(make([]byte, 0, len(v.Bytes())), v.Bytes()...))
	default:
		panic("harness: fromPB")
	}
}

// FromPB fills the zero Go struct dst from the reference message. With r set,
// representations the message does not determine are drawn (nil or empty
// slices and maps, nil elements for empty messages).
func (tt Types) FromPB(r rt.Rnd, m *Msg, x protoreflect.Message, dst reflect.Value) {
	g := tt[m]
	tt.setCanaries(m, dst)
	fds := m.Desc.Fields()
	set := func(f *Field, e reflect.Value, v protoreflect.Value) {
		if f.Kind != MsgK {
			fromPB(e, f.Kind, v)
			return
		}
		if f.ByValue {
			tt.FromPB(r, f.Msg, v.Message(), e)
			return
		}
		if r != nil && (f.Shape == Repeated || f.Shape == Map || f.Shape == Oneof) && emptyMsg(v.Message()) && rt.Chance(r, 30) {
			return // a nil element stands for an empty message
		}
		p := reflect.New(tt[f.Msg].T)
		tt.FromPB(r, f.Msg, v.Message(), p.Elem())
		e.Set(p)
	}
	for _, f := range m.Fields {
		fd := fds.ByNumber(protoreflect.FieldNumber(f.Num))
		has := x.Has(fd)
		if f.Shape == Oneof {
			if has {
				w := reflect.New(g.Wrap[f.Num])
				set(f, w.Elem().Field(0), x.Get(fd))
				dst.Field(g.Oneofs[f.OneofIx]).Set(w)
			}
			continue
		}
		fv := dst.Field(g.Fields[f.Num])
		if !has {
			if r != nil && (f.Shape == Repeated || f.Shape == Map || (f.Shape == Implicit && f.Kind == BytesK && strings.Contains(string(g.T.Field(g.Fields[f.Num]).Tag), ",proto3"))) && rt.Chance(r, 20) {
				if f.Shape == Map {
					fv.Set(reflect.MakeMap(fv.Type()))
				} else {
					fv.Set(reflect.MakeSlice(fv.Type(), 0, 3))
				}
			}
			continue
		}
		v := x.Get(fd)
		switch f.Shape {
		case Implicit:
			set(f, fv, v)
		case Explicit, Required:
			if f.Kind == MsgK || f.Kind == BytesK {
				set(f, fv, v)
				continue
			}
			p := reflect.New(fv.Type().Elem())
			set(f, p.Elem(), v)
			fv.Set(p)
		case PtrBytes:
			p := reflect.New(fv.Type().Elem())
			set(f, p.Elem(), v)
			fv.Set(p)
		case Repeated:
			l := v.List()
			s := reflect.MakeSlice(fv.Type(), l.Len(), l.Len())
			for i := 0; i < l.Len(); i++ {
				set(f, s.Index(i), l.Get(i))
			}
			fv.Set(s)
		case Map:
			mm := reflect.MakeMap(fv.Type())
			v.Map().Range(func(k protoreflect.MapKey, e protoreflect.Value) bool {
				kv := reflect.New(fv.Type().Key()).Elem()
				fromPB(kv, f.Key, k.Value())
				ev := reflect.New(fv.Type().Elem()).Elem()
				set(f, ev, e)
				mm.SetMapIndex(kv, ev)
				return true
			})
			fv.Set(mm)
		}
	}
	if u := x.GetUnknown(); len(u) > 0 && g.Unk >= 0 {
		*g.unkSlice(dst, true) = append([]byte{}, u...)
	}
}

// Equal compares reference messages: semantic equality including presence,
// oneof cases, NaN, and the exact unknown bytes of every message.
func Equal(a, b proto.Message) bool {
	if !proto.Equal(a, b) {
		return false
	}
	return true
}

// GoEqual compares two Go messages of type m bit for bit; only distinctions that
// carry no meaning (nil or empty list, map, implicit bytes, nil or empty
// element message) are ignored.
func (tt Types) GoEqual(m *Msg, a, b reflect.Value, path string) error {
	g := tt[m]
	elemEq := func(f *Field, x, y reflect.Value, path string) error {
		if f.Kind == MsgK {
			if !f.ByValue {
				if x.IsNil() && y.IsNil() {
					return nil
				}
				z := tt.New(f.Msg)
				if x.IsNil() {
					x = z
				}
				if y.IsNil() {
					y = z
				}
				x, y = x.Elem(), y.Elem()
			}
			return tt.GoEqual(f.Msg, x, y, path)
		}
		ok := false
		switch f.Kind {
		case FloatK:
			ok = math.Float32bits(*(*float32)(ptrOf(x))) == math.Float32bits(*(*float32)(ptrOf(y)))
		case DoubleK:
			ok = math.Float64bits(*(*float64)(ptrOf(x))) == math.Float64bits(*(*float64)(ptrOf(y)))
		case BytesK:
			checkRoom(x)
			checkRoom(y)
			ok = bytes.Equal(x.Bytes(), y.Bytes())
		default:
			ok = x.Interface() == y.Interface()
		}
		if !ok {
			return fmt.Errorf("%s: %#v != %#v", path, x.Interface(), y.Interface())
		}
		return nil
	}
	for _, f := range m.Fields {
		p := fmt.Sprintf("%s.%d", path, f.Num)
		if f.Shape == Oneof {
			x, y := a.Field(g.Oneofs[f.OneofIx]), b.Field(g.Oneofs[f.OneofIx])
			is := func(v reflect.Value) bool {
				return !v.IsNil() && v.Elem().Type().Elem() == g.Wrap[f.Num]
			}
			if is(x) != is(y) {
				return fmt.Errorf("%s: oneof member set %v != %v", p, is(x), is(y))
			}
			if is(x) {
				if err := elemEq(f, x.Elem().Elem().Field(0), y.Elem().Elem().Field(0), p); err != nil {
					return err
				}
			}
			continue
		}
		x, y := a.Field(g.Fields[f.Num]), b.Field(g.Fields[f.Num])
		switch f.Shape {
		case Implicit:
			if err := elemEq(f, x, y, p); err != nil {
				return err
			}
		case Explicit, Required, PtrBytes:
			if f.Kind == MsgK && f.ByValue {
				if err := elemEq(f, x, y, p); err != nil {
					return err
				}
				continue
			}
			if x.IsNil() != y.IsNil() {
				return fmt.Errorf("%s: set %v != %v", p, !x.IsNil(), !y.IsNil())
			}
			if x.IsNil() {
				continue
			}
			if x.Kind() == reflect.Pointer && f.Kind != MsgK {
				x, y = x.Elem(), y.Elem()
			}
			if err := elemEq(f, x, y, p); err != nil {
				return err
			}
		case Repeated:
			checkRoom(x)
			checkRoom(y)
			if x.Len() != y.Len() {
				return fmt.Errorf("%s: length %d != %d", p, x.Len(), y.Len())
			}
			for i := 0; i < x.Len(); i++ {
				if err := elemEq(f, x.Index(i), y.Index(i), fmt.Sprintf("%s[%d]", p, i)); err != nil {
					return err
				}
			}
		case Map:
			if x.Len() != y.Len() {
				return fmt.Errorf("%s: map size %d != %d", p, x.Len(), y.Len())
			}
			for it := x.MapRange(); it.Next(); {
				yv := y.MapIndex(it.Key())
				if !yv.IsValid() {
					return fmt.Errorf("%s: key %#v missing", p, it.Key().Interface())
				}
				// make addressable
				xa, ya := reflect.New(yv.Type()).Elem(), reflect.New(yv.Type()).Elem()
				xa.Set(it.Value())
				ya.Set(yv)
				if err := elemEq(f, xa, ya, fmt.Sprintf("%s[%#v]", p, it.Key().Interface())); err != nil {
					return err
				}
			}
		}
	}
	ux, uy := g.unkSlice(a, false), g.unkSlice(b, false)
	var bx, by []byte
	if ux != nil {
		bx = *ux
	}
	if uy != nil {
		by = *uy
	}
	if !bytes.Equal(bx, by) {
		return fmt.Errorf("%s: unknown fields %x != %x", path, bx, by)
	}
	return nil
}

func ptrOf(v reflect.Value) unsafe.Pointer {
	if v.CanAddr() {
		return v.Addr().UnsafePointer()
	}
	p := reflect.New(v.Type())
	p.Elem().Set(v)
	return p.UnsafePointer()
}
