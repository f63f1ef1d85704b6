package main

import (
	"bytes"
	"fmt"
	"math"
	"reflect"
	"runtime"
	"slices"
	"strings"
	"unsafe"

	"github.com/cloudwego/prutal"
	"google.golang.org/protobuf/encoding/protowire"

	"verif/rt"
)

// ---- C07: many small values behind each other ----

// arElem has values of all sizes and alignments that hold no pointers.
type arElem struct {
	A *int64    `protobuf:"varint,1,opt"`
	B string    `protobuf:"bytes,2,opt"`
	C *float64  `protobuf:"fixed64,3,opt"`
	D []byte    `protobuf:"bytes,4,opt"`
	E []int64   `protobuf:"varint,5,rep,packed"`
	F []float32 `protobuf:"fixed32,6,rep"`
	G *bool     `protobuf:"varint,7,opt"`
	H *int32    `protobuf:"varint,8,opt"`
	I []bool    `protobuf:"varint,9,rep,packed"`
	J []float64 `protobuf:"fixed64,10,rep"`
	K []int32   `protobuf:"zigzag32,11,rep"`
	L *uint64   `protobuf:"varint,12,opt"`
	M *uint32   `protobuf:"fixed32,13,opt"`
	N []int64   `protobuf:"zigzag64,14,rep"`
}

type arMsg struct {
	E []*arElem        `protobuf:"bytes,1,rep"`
	S []string         `protobuf:"bytes,2,rep"`
	B [][]byte         `protobuf:"bytes,3,rep"`
	M map[string]int64 `protobuf:"bytes,4,rep" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
}

func ptr[T any](v T) *T { return &v }

// arenaValue makes a message of n elements and its encoding. Each message
// prefers some fields and lengths.
func arenaValue(t *rt.T, n int) (*arMsg, []byte) {
	like := t.U64() | t.U64()
	maxlen := 1 + t.Int(40)
	many := t.Int(6) == 0
	r := rt.NewSeeded(t.U64())
	count := func() int {
		if many {
			return r.Int(70)
		}
		return 1 + r.Int(10)
	}
	str := func() []byte {
		k := r.Int(maxlen + 1)
		if r.Int(60) == 0 {
			k = r.Int(1200)
		}
		return rt.Bytes(r, k)
	}
	m := &arMsg{}
	var b []byte
	for i := 0; i < n; i++ {
		switch {
		case like>>20&7 == 0 && r.Int(3) == 0:
			s := str()
			m.S = append(m.S, string(s))
			b = protowire.AppendBytes(protowire.AppendTag(b, 2, protowire.BytesType), s)
			continue
		case like>>23&7 == 0 && r.Int(3) == 0:
			s := str()
			m.B = append(m.B, s)
			b = protowire.AppendBytes(protowire.AppendTag(b, 3, protowire.BytesType), s)
			continue
		case like>>26&7 == 0 && r.Int(4) == 0:
			s, v := str(), int64(r.U64())
			if m.M == nil {
				m.M = map[string]int64{}
			}
			m.M[string(s)] = v
			x := protowire.AppendBytes(protowire.AppendTag(nil, 1, protowire.BytesType), s)
			x = protowire.AppendVarint(protowire.AppendTag(x, 2, protowire.VarintType), uint64(v))
			b = protowire.AppendBytes(protowire.AppendTag(b, 4, protowire.BytesType), x)
			continue
		}
		e := &arElem{}
		var x []byte
		tag := func(n int, ty protowire.Type) { x = protowire.AppendTag(x, protowire.Number(n), ty) }
		for f := 1; f <= 14; f++ {
			if like>>f&1 == 0 && r.Int(8) > 0 || r.Int(3) == 0 {
				continue
			}
			v := r.U64()
			switch f {
			case 1:
				e.A = ptr(int64(v))
				tag(f, protowire.VarintType)
				x = protowire.AppendVarint(x, v)
			case 2:
				s := str()
				e.B = string(s)
				tag(f, protowire.BytesType)
				x = protowire.AppendBytes(x, s)
			case 3:
				e.C = ptr(float64(int64(v)))
				tag(f, protowire.Fixed64Type)
				x = protowire.AppendFixed64(x, math.Float64bits(*e.C))
			case 4:
				e.D = str()
				tag(f, protowire.BytesType)
				x = protowire.AppendBytes(x, e.D)
			case 5:
				var p []byte
				for k := count(); k > 0; k-- {
					v := r.U64() >> (r.U64() & 63)
					e.E = append(e.E, int64(v))
					p = protowire.AppendVarint(p, v)
				}
				if len(e.E) > 0 {
					tag(f, protowire.BytesType)
					x = protowire.AppendBytes(x, p)
				}
			case 6:
				for k := count(); k > 0; k-- {
					v := float32(int32(r.U64()))
					e.F = append(e.F, v)
					tag(f, protowire.Fixed32Type)
					x = protowire.AppendFixed32(x, math.Float32bits(v))
				}
			case 7:
				e.G = ptr(v&1 > 0)
				tag(f, protowire.VarintType)
				x = protowire.AppendVarint(x, v&1)
			case 8:
				e.H = ptr(int32(v))
				tag(f, protowire.VarintType)
				x = protowire.AppendVarint(x, uint64(int64(*e.H)))
			case 9:
				var p []byte
				for k := count(); k > 0; k-- {
					v := r.U64() & 1
					e.I = append(e.I, v > 0)
					p = protowire.AppendVarint(p, v)
				}
				if len(e.I) > 0 {
					tag(f, protowire.BytesType)
					x = protowire.AppendBytes(x, p)
				}
			case 10:
				for k := count(); k > 0; k-- {
					v := float64(int64(r.U64()))
					e.J = append(e.J, v)
					tag(f, protowire.Fixed64Type)
					x = protowire.AppendFixed64(x, math.Float64bits(v))
				}
			case 11:
				for k := count(); k > 0; k-- {
					v := int32(r.U64())
					e.K = append(e.K, v)
					tag(f, protowire.VarintType)
					x = protowire.AppendVarint(x, protowire.EncodeZigZag(int64(v)))
				}
			case 12:
				e.L = ptr(v)
				tag(f, protowire.VarintType)
				x = protowire.AppendVarint(x, v)
			case 13:
				e.M = ptr(uint32(v))
				tag(f, protowire.Fixed32Type)
				x = protowire.AppendFixed32(x, uint32(v))
			case 14:
				for k := count(); k > 0; k-- {
					v := int64(r.U64())
					e.N = append(e.N, v)
					tag(f, protowire.VarintType)
					x = protowire.AppendVarint(x, protowire.EncodeZigZag(v))
				}
			}
		}
		m.E = append(m.E, e)
		b = protowire.AppendBytes(protowire.AppendTag(b, 1, protowire.BytesType), x)
	}
	return m, b
}

// sameArena is reflect.DeepEqual, but empty and nil are the same.
func sameArena(a, b reflect.Value, path string) error {
	switch a.Kind() {
	case reflect.Pointer:
		if a.IsNil() || b.IsNil() {
			if a.IsNil() != b.IsNil() {
				return fmt.Errorf("%s: is nil: %v, want %v", path, b.IsNil(), a.IsNil())
			}
			return nil
		}
		return sameArena(a.Elem(), b.Elem(), path)
	case reflect.Slice:
		if a.Len() != b.Len() {
			return fmt.Errorf("%s: %d elements, want %d", path, b.Len(), a.Len())
		}
		for i := 0; i < a.Len(); i++ {
			if err := sameArena(a.Index(i), b.Index(i), fmt.Sprintf("%s[%d]", path, i)); err != nil {
				return err
			}
		}
		return nil
	case reflect.Map:
		if a.Len() != b.Len() {
			return fmt.Errorf("%s: %d entries, want %d", path, b.Len(), a.Len())
		}
		for it := a.MapRange(); it.Next(); {
			if v := b.MapIndex(it.Key()); !v.IsValid() || v.Int() != it.Value().Int() {
				return fmt.Errorf("%s[%q] = %v, want %v", path, it.Key(), v, it.Value())
			}
		}
		return nil
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			if err := sameArena(a.Field(i), b.Field(i), path+"."+a.Type().Field(i).Name); err != nil {
				return err
			}
		}
		return nil
	}
	if x, y := a.Interface(), b.Interface(); x != y {
		return fmt.Errorf("%s = %#v, want %#v", path, y, x)
	}
	return nil
}

// C07: in messages of many small values, none is damaged by its neighbours,
// whatever lies at the end of a block
func arena(t *rt.T) {
	n := 1 + t.Int(3)
	var want, got []*arMsg
	var rs []region
	total := 0
	for i := 0; i < n; i++ {
		m, b := arenaValue(t, 20+t.Int(400))
		total += len(b)
		x := &arMsg{}
		if err := prutal.Unmarshal(b, x); err != nil {
			t.Fatalf("Unmarshal: %v", err)
		}
		w := &walker{}
		w.walk(reflect.ValueOf(x), fmt.Sprintf("message %d ", i))
		if w.err != nil {
			t.Fatalf("%v", w.err)
		}
		rs = append(rs, w.out...)
		want, got = append(want, m), append(got, x)
	}
	if err := disjoint(rs); err != nil {
		t.Fatalf("%v", err)
	}
	for _, x := range got {
		fillSpare(reflect.ValueOf(x))
	}
	for i := range want {
		if err := sameArena(reflect.ValueOf(want[i]), reflect.ValueOf(got[i]), fmt.Sprintf("message %d", i)); err != nil {
			t.Fatalf("%v", err)
		}
	}
	runtime.KeepAlive(got)
	t.Key(fmt.Sprint(total, len(rs)), fmt.Sprint(t.Choices))
	t.NonTrivial(total > 4096)
	t.Sample(func() string { return fmt.Sprintf("%d messages, %d bytes, %d memory regions", n, total, len(rs)) })
}

// ---- C08: where unknown fields are kept ----

type (
	stPart    struct{ unknownFields []byte }
	stPart2   struct{ XXX_unrecognized []byte }
	stPartPtr struct {
		N             uint64
		unknownFields *[]byte
	}
	stDirect struct {
		A             int64 `protobuf:"varint,1,opt"`
		unknownFields []byte
		B             string `protobuf:"bytes,2,opt"`
	}
	stOld struct {
		A                int64 `protobuf:"varint,1,opt"`
		XXX_unrecognized []byte
		B                string `protobuf:"bytes,2,opt"`
	}
	stPointer struct {
		A             int64 `protobuf:"varint,1,opt"`
		unknownFields *[]byte
		B             string `protobuf:"bytes,2,opt"`
	}
	stBoth struct { // the first name counts
		XXX_unrecognized []byte
		A                int64 `protobuf:"varint,1,opt"`
		unknownFields    []byte
		B                string `protobuf:"bytes,2,opt"`
	}
	stPromoted struct {
		A int64  `protobuf:"varint,1,opt"`
		B string `protobuf:"bytes,2,opt"`
		stPart
	}
	stPromotedFirst struct {
		stPart
		A int64  `protobuf:"varint,1,opt"`
		B string `protobuf:"bytes,2,opt"`
	}
	stPromotedOld struct {
		A int64  `protobuf:"varint,1,opt"`
		B string `protobuf:"bytes,2,opt"`
		stPart2
	}
	stPromotedPtr struct {
		A int64  `protobuf:"varint,1,opt"`
		B string `protobuf:"bytes,2,opt"`
		*stPartPtr
	}
	stPromotedAndOld struct {
		stPart
		A                int64 `protobuf:"varint,1,opt"`
		XXX_unrecognized []byte
		B                string `protobuf:"bytes,2,opt"`
	}
	stString struct {
		A             int64 `protobuf:"varint,1,opt"`
		unknownFields string
		B             string `protobuf:"bytes,2,opt"`
	}
	stInts struct {
		A                int64  `protobuf:"varint,1,opt"`
		B                string `protobuf:"bytes,2,opt"`
		XXX_unrecognized []int32
	}
	stMap struct {
		A             int64 `protobuf:"varint,1,opt"`
		unknownFields map[int32][]byte
		B             string `protobuf:"bytes,2,opt"`
	}
	stNamed struct {
		A             int64 `protobuf:"varint,1,opt"`
		unknownFields stBytes
		B             string `protobuf:"bytes,2,opt"`
	}
	stBytes       []byte
	stWrongAndOld struct {
		unknownFields    int64
		A                int64 `protobuf:"varint,1,opt"`
		XXX_unrecognized *[]byte
		B                string `protobuf:"bytes,2,opt"`
	}
	stOther struct {
		A       int64 `protobuf:"varint,1,opt"`
		Unknown []byte
		B       string `protobuf:"bytes,2,opt"`
	}
	stField struct { // a normal field of that name
		A                int64  `protobuf:"varint,1,opt"`
		B                string `protobuf:"bytes,2,opt"`
		XXX_unrecognized int32  `protobuf:"varint,3,opt"`
	}
	stList struct {
		L []stPromoted    `protobuf:"bytes,1,rep"`
		P []*stPromoted   `protobuf:"bytes,2,rep"`
		D []stDirect      `protobuf:"bytes,3,rep"`
		Q []*stPointer    `protobuf:"bytes,4,rep"`
		O []stWrongAndOld `protobuf:"bytes,5,rep"`
	}
)

// storages: type -> name of the field that keeps unknown fields
var storages = []struct {
	t    reflect.Type
	name string
}{
	{reflect.TypeFor[stDirect](), "unknownFields"}, {reflect.TypeFor[stOld](), "XXX_unrecognized"}, {reflect.TypeFor[stPointer](), "unknownFields"},
	{reflect.TypeFor[stBoth](), "unknownFields"}, {reflect.TypeFor[stPromoted](), ""}, {reflect.TypeFor[stPromotedFirst](), ""},
	{reflect.TypeFor[stPromotedOld](), ""}, {reflect.TypeFor[stPromotedPtr](), ""}, {reflect.TypeFor[stPromotedAndOld](), "XXX_unrecognized"},
	{reflect.TypeFor[stString](), ""}, {reflect.TypeFor[stInts](), ""}, {reflect.TypeFor[stMap](), ""}, {reflect.TypeFor[stNamed](), ""},
	{reflect.TypeFor[stWrongAndOld](), "XXX_unrecognized"}, {reflect.TypeFor[stOther](), ""}, {reflect.TypeFor[stField](), ""},
}

// put sets the contents of all memory of a field that is no protobuf field.
func put(v reflect.Value) {
	v = reflect.NewAt(v.Type(), v.Addr().UnsafePointer()).Elem()
	switch v.Kind() {
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			put(v.Field(i))
		}
	case reflect.Slice:
		v.Set(reflect.MakeSlice(v.Type(), 3, 5))
		for i := 0; i < 3; i++ {
			put(v.Index(i))
		}
	case reflect.String:
		v.SetString("old")
	case reflect.Pointer:
		v.Set(reflect.New(v.Type().Elem()))
		put(v.Elem())
	case reflect.Map:
		v.Set(reflect.MakeMap(v.Type()))
	case reflect.Int32, reflect.Int64:
		v.SetInt(77)
	case reflect.Uint64, reflect.Uint8:
		v.SetUint(78)
	}
}

// C08: unknown fields go to the field meant for them if there is one, and
// nowhere else
func unknownStorage(t *rt.T) {
	st := storages[t.Int(len(storages))]
	v := reflect.New(st.t)
	filled := t.Int(2) == 0
	if filled {
		for i := 0; i < st.t.NumField(); i++ {
			put(v.Elem().Field(i))
		}
	}
	var in, unknown []byte
	a, b := int64(0), ""
	if filled {
		a, b = 77, "old"
	}
	for k := t.Int(6); k > 0; k-- {
		switch t.Int(4) {
		case 0:
			a = int64(t.U64())
			in = protowire.AppendVarint(protowire.AppendTag(in, 1, protowire.VarintType), uint64(a))
		case 1:
			b = strings.Repeat("b", t.Int(20))
			in = protowire.AppendString(protowire.AppendTag(in, 2, protowire.BytesType), b)
		default:
			u := protowire.AppendBytes(protowire.AppendTag(nil, protowire.Number(4+t.Int(30)), protowire.BytesType), rt.Bytes(t, t.Int(12)))
			in, unknown = append(in, u...), append(unknown, u...)
		}
	}
	before := reflect.New(st.t)
	if filled {
		for i := 0; i < st.t.NumField(); i++ {
			put(before.Elem().Field(i))
		}
	}
	list := 0
	var err error
	x := v
	if t.Int(3) == 0 && !filled { // nested in a list
		l := &stList{}
		lv := reflect.ValueOf(l).Elem()
		for i := 0; i < lv.NumField(); i++ {
			et := lv.Type().Field(i).Type.Elem()
			if et == st.t || et.Kind() == reflect.Pointer && et.Elem() == st.t {
				list = i + 1
			}
		}
		if list > 0 {
			var w []byte
			n := 1 + t.Int(12)
			for i := 0; i < n; i++ {
				w = protowire.AppendBytes(protowire.AppendTag(w, protowire.Number(list), protowire.BytesType), in)
			}
			err = prutal.Unmarshal(w, l)
			if k := lv.Field(list - 1).Len(); err == nil && k != n {
				t.Fatalf("%d elements, want %d", k, n)
			}
			if err == nil {
				x = lv.Field(list - 1).Index(t.Int(n))
				if x.Kind() == reflect.Struct {
					x = x.Addr()
				}
			}
		}
	}
	if list == 0 {
		err = prutal.Unmarshal(in, v.Interface())
	}
	if err != nil {
		t.Fatalf("Unmarshal of %x into %v: %v", in, st.t, err)
	}
	for i := 0; i < st.t.NumField(); i++ {
		f := st.t.Field(i)
		get := func(v reflect.Value) reflect.Value {
			return reflect.NewAt(f.Type, unsafe.Add(v.UnsafePointer(), f.Offset)).Elem()
		}
		y, y0 := get(x), get(before)
		switch f.Name {
		case "A":
			if y.Int() != a {
				t.Fatalf("%v: A = %d, want %d (wire %x)", st.t, y.Int(), a, in)
			}
		case "B":
			if y.String() != b {
				t.Fatalf("%v: B = %q, want %q (wire %x)", st.t, y.String(), b, in)
			}
		case st.name:
			if y.Kind() == reflect.Pointer {
				if y.IsNil() {
					if len(unknown) > 0 {
						t.Fatalf("%v: no unknown fields, want %x", st.t, unknown)
					}
					continue
				}
				y = y.Elem()
			}
			if !bytes.Equal(y.Bytes(), unknown) {
				t.Fatalf("%v: unknown fields %x, want %x", st.t, y.Bytes(), unknown)
			}
		default:
			if !reflect.DeepEqual(y.Interface(), y0.Interface()) {
				t.Fatalf("%v: field %s was changed from %#v to %#v (wire %x)", st.t, f.Name, y0.Interface(), y.Interface(), in)
			}
		}
	}
	// encoding writes the known fields, then those kept
	out, err := prutal.Marshal(x.Interface())
	if err != nil {
		t.Fatalf("Marshal of %v: %v", st.t, err)
	}
	var want []byte
	if a != 0 {
		want = protowire.AppendVarint(protowire.AppendTag(want, 1, protowire.VarintType), uint64(a))
	}
	if b != "" {
		want = protowire.AppendString(protowire.AppendTag(want, 2, protowire.BytesType), b)
	}
	if st.t == reflect.TypeFor[stField]() && filled {
		want = protowire.AppendVarint(protowire.AppendTag(want, 3, protowire.VarintType), 77)
	}
	if st.name != "" {
		want = append(want, unknown...)
	}
	if !slices.Equal(out, want) {
		t.Fatalf("%v: encoded as %x, want %x", st.t, out, want)
	}
	if n, err := prutal.Size(x.Interface()); err != nil || n != len(want) {
		t.Fatalf("%v: Size %d, %v, want %d", st.t, n, err, len(want))
	}
	t.LabelIf(st.name == "", "no room")
	t.LabelIf(list > 0, "nested")
	t.Key(st.t.String(), in, filled, list)
	t.NonTrivial(len(unknown) > 0)
	t.Sample(func() string { return fmt.Sprintf("%v wire %x", st.t, in) })
}
