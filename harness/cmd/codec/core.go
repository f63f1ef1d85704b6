package main

import (
	"bytes"
	"fmt"
	"reflect"
	"testing"

	"github.com/cloudwego/prutal"
	"github.com/cloudwego/prutal/pkg/grpccodec"
	"google.golang.org/protobuf/encoding/protowire"

	"verif/rt"
	"verif/sch"
)

func mustMarshal(t *rt.T, v any) []byte {
	b, err := prutal.Marshal(v)
	if err != nil {
		t.Fatalf("Marshal: %v", err)
	}
	return b
}

// C01: Unmarshal(Marshal(v)) == v
func roundTrip(t *rt.T) { roundTripNew(t, pickSchema(t, stdOpt)) }

func roundTripNew(t *rt.T, s schema) {
	_, v := s.value(t, sch.VOpt{Unknown: true, Big: true})
	roundTripOf(t, s, v)
}

func roundTripOf(t *rt.T, s schema, v interface {
	Interface() any
}) {
	b := mustMarshal(t, v.Interface())
	t.Key(b, s.m.Name)
	t.NonTrivial(len(b) > 0)
	t.Sample(func() string { return s.m.String() + " wire " + hexs(b) })
	in := clone(b)
	got := s.new()
	if err := prutal.Unmarshal(in, got.Interface()); err != nil {
		t.Fatalf("Unmarshal of own output %s: %v", hexs(b), err)
	}
	rv := valueOf(v.Interface())
	if err := s.tt.GoEqual(s.m, rv, got.Elem(), ""); err != nil {
		t.Fatalf("round trip: %v (wire %s)", err, hexs(b))
	}
	if err := s.tt.CheckCanaries(s.m, got.Elem()); err != nil {
		t.Fatalf("round trip: %v", err)
	}
	if !bytes.Equal(in, b) {
		t.Fatalf("Unmarshal changed its input: %s -> %s", hexs(b), hexs(in))
	}
}

// C01: nested lengths at the boundaries of the length prefix
func lenPrefix(t *rt.T) {
	s := plain(rt.Pick(t, "Rec", "RecVal", "Rec"))
	depth := 1 + t.Int(4)
	size := rt.Pick(t, 127, 128, 16383, 16384, 129, 16385)
	if t.Int(12) == 0 {
		size = rt.Pick(t, 2097151, 2097152)
	}
	size += -6 + t.Int(10)
	if size < 0 {
		size = 0
	}
	// payload as a string field of the innermost message
	str := 10
	if s.m.Name == "RecVal" {
		str = 7
	}
	p := rt.Bytes(t, 17)
	pay := bytes.Repeat(p, size/17+1)[:size]
	w := protowire.AppendTag(nil, protowire.Number(str), protowire.BytesType)
	w = protowire.AppendBytes(w, pay)
	for i := 0; i < depth; i++ {
		var num protowire.Number
		if s.m.Name == "Rec" {
			num = protowire.Number(rt.Pick(t, 1, 2, 3, 4, 5, 6, 7))
		} else {
			num = protowire.Number(rt.Pick(t, 1, 2, 3))
		}
		f := s.m.ByNum(int(num))
		inner := w
		if f.Shape == sch.Map {
			var e []byte
			switch f.Key {
			case sch.StringK:
				e = protowire.AppendTag(e, 1, protowire.BytesType)
				e = protowire.AppendBytes(e, rt.Bytes(t, t.Int(5)))
			default:
				e = protowire.AppendTag(e, 1, protowire.VarintType)
				e = protowire.AppendVarint(e, uint64(t.Int(2)))
			}
			e = protowire.AppendTag(e, 2, protowire.BytesType)
			inner = protowire.AppendBytes(e, w)
		}
		w = protowire.AppendTag(nil, num, protowire.BytesType)
		w = protowire.AppendBytes(w, inner)
	}
	t.Logf("payload of %d bytes at depth %d, %d bytes in all", size, depth, len(w))
	v := s.new()
	if err := prutal.Unmarshal(w, v.Interface()); err != nil {
		t.Fatalf("Unmarshal: %v", err)
	}
	b := mustMarshal(t, v.Interface())
	c, err := canonical(s.m, b)
	if err != nil {
		t.Fatalf("output: %v", err)
	}
	if !bytes.Equal(c, w) {
		t.Fatalf("re-encoding differs: %d bytes, first difference at %d", len(c), firstDiff(c, w))
	}
	if n, err := prutal.Size(v.Interface()); err != nil || n != len(b) {
		t.Fatalf("Size = %d, %v; want %d", n, err, len(b))
	}
	t.Key(fmt.Sprint(size, depth), w[:min(len(w), 64)])
	t.NonTrivial(true)
	t.Sample(func() string { return fmt.Sprintf("%s: payload %d bytes at depth %d", s.m.Name, size, depth) })
}

func firstDiff(a, b []byte) int {
	for i := range a {
		if i >= len(b) || a[i] != b[i] {
			return i
		}
	}
	return len(a)
}

// C02: the output is the official encoding up to record order
func encodeCompat(t *rt.T) { encodeCompatOf(t, pickSchema(t, stdOpt)) }

func encodeCompatOf(t *rt.T, s schema) {
	ref, v := s.value(t, sch.VOpt{Unknown: true, Big: true})
	b := mustMarshal(t, v.Interface())
	t.Key(b, s.m.Name)
	t.NonTrivial(len(b) > 0)
	t.Sample(func() string { return s.m.String() + " wire " + hexs(b) })
	got, err := refDecode(s.m.Desc, b)
	if err != nil {
		t.Fatalf("the official decoder rejects the output %s: %v", hexs(b), err)
	}
	sch.Normalize(s.m, got)
	if !sch.Equal(got, ref) {
		t.Fatalf("the official decoder reads\n%s\nfrom %s, want\n%s", text(got), hexs(b), text(ref))
	}
	want, err := canonical(s.m, refEncode(ref))
	if err != nil {
		panic("harness: " + err.Error())
	}
	have, err := canonical(s.m, b)
	if err != nil {
		t.Fatalf("output: %v", err)
	}
	if !bytes.Equal(want, have) {
		t.Fatalf("encoding differs from the official one:\ngot  %s\nwant %s", hexs(have), hexs(want))
	}
}

// C03: any valid encoding decodes as the official decoder does
func decodeAny(t *rt.T) { decodeAnyOf(t, pickSchema(t, stdOpt)) }

func decodeAnyOf(t *rt.T, s schema) {
	b, st := s.wire(t, sch.WOpt{Unknown: true, Mismatch: true})
	decodeOf(t, s, b, st)
}

func decodePlain(t *rt.T) {
	s := pickSchema(t, stdOpt)
	b, st := s.wire(t, sch.WOpt{Plain: true, Budget: 80})
	decodeOf(t, s, b, st)
}

func decodeOf(t *rt.T, s schema, b []byte, st sch.WStats) {
	t.Logf("wire %s", hexs(b))
	t.LabelIf(st.Unknown > 0, "unknown")
	t.LabelIf(st.Mismatch > 0, "mismatch")
	t.LabelIf(st.Merge > 0, "merge")
	t.LabelIf(st.Chunks > 0, "packed")
	t.LabelIf(st.Unpacked > 0, "otherpacking")
	t.LabelIf(st.OddEntry > 0, "oddentry")
	t.LabelIf(st.Oneof > 0, "oneof")
	t.Key(b, s.m.Name)
	t.NonTrivial(len(b) > 0)
	t.Sample(func() string { return s.m.String() + " wire " + hexs(b) })
	want, err := refDecode(s.m.Desc, b)
	if err != nil {
		panic(fmt.Sprintf("harness: the reference rejects a valid encoding: %v", err))
	}
	sch.Normalize(s.m, want)
	v := s.new()
	if err := prutal.Unmarshal(b, v.Interface()); err != nil {
		t.Fatalf("Unmarshal rejects a valid encoding: %v\nwant %s", err, text(want))
	}
	s.sameAs(t, "decoded", want, v)
}

// C04: Size(v) == len(Marshal(v))
func sizeExact(t *rt.T) { sizeExactOf(t, pickSchema(t, stdOpt)) }

func sizeExactOf(t *rt.T, s schema) {
	_, v := s.value(t, sch.VOpt{Unknown: true, Big: true})
	b := mustMarshal(t, v.Interface())
	n, err := prutal.Size(v.Interface())
	if err != nil {
		t.Fatalf("Size: %v", err)
	}
	if n != len(b) {
		t.Fatalf("Size = %d, but Marshal returns %d bytes: %s", n, len(b), hexs(b))
	}
	// the same message after a change
	more, _ := s.wire(t, sch.WOpt{Unknown: true})
	if err := prutal.Unmarshal(more, v.Interface()); err != nil {
		t.Fatalf("Unmarshal of %s: %v", hexs(more), err)
	}
	n2, err := prutal.Size(v.Interface())
	if b2 := mustMarshal(t, v.Interface()); err != nil || n2 != len(b2) {
		t.Fatalf("after decoding more (%s) into it, the message has Size %d, %v (before: %d), but Marshal returns %d bytes: %s", hexs(more), n2, err, n, len(b2), hexs(b2))
	}
	t.LabelIf(n2 != n, "changed")
	t.Key(b, s.m.Name)
	t.NonTrivial(n > 0)
	t.Sample(func() string { return fmt.Sprintf("%s size %d wire %s", s.m.String(), n, hexs(b)) })
}

// C04: Size does not allocate
func sizeNoAlloc(t *rt.T) {
	s := pickSchema(t, sch.Opt{Depth: 2, ByValue: true, Unknown: true, MaxFields: 5})
	_, v := s.value(t, sch.VOpt{Unknown: true})
	x := v.Interface()
	n, err := prutal.Size(x)
	if err != nil {
		t.Fatalf("Size: %v", err)
	}
	a := testing.AllocsPerRun(20, func() { prutal.Size(x) })
	if a != 0 { // a GC may have emptied a pool: look again
		for i := 0; i < 5 && a != 0; i++ {
			a = testing.AllocsPerRun(50, func() { prutal.Size(x) })
		}
	}
	if a != 0 {
		t.Fatalf("Size allocates %v objects per call", a)
	}
	t.Key(fmt.Sprint(n), s.m.String(), fmt.Sprint(t.Choices))
	t.NonTrivial(n > 0)
	t.Sample(func() string { return fmt.Sprintf("%s size %d", s.m.String(), n) })
}

// C05: MarshalAppend keeps what is there and appends exactly the encoding
func appendPrefix(t *rt.T) { appendPrefixOf(t, pickSchema(t, stdOpt)) }

func appendPrefixOf(t *rt.T, s schema) {
	_, v := s.value(t, sch.VOpt{Unknown: true, Big: true})
	plainOut := mustMarshal(t, v.Interface())
	want, err := canonical(s.m, plainOut)
	if err != nil {
		t.Fatalf("output: %v", err)
	}
	front := rt.Bytes(t, t.Int(8))
	prefix := rt.Bytes(t, t.Int(24))
	room := rt.Pick(t, 0, 1, 4, 17, len(plainOut)-1, len(plainOut), len(plainOut)+1, len(plainOut)+2, len(plainOut)+16, len(plainOut)*2)
	if room < 0 {
		room = 0
	}
	buf := make([]byte, len(front)+len(prefix), len(front)+len(prefix)+room)
	copy(buf, front)
	copy(buf[len(front):], prefix)
	spare := buf[len(buf):cap(buf)]
	for i := range spare {
		spare[i] = 0x5a
	}
	dst := buf[len(front):]
	if t.Int(8) == 0 {
		prefix, dst = nil, nil
	}
	out, err := prutal.MarshalAppend(dst, v.Interface())
	if err != nil {
		t.Fatalf("MarshalAppend: %v", err)
	}
	t.Logf("front %d prefix %d room %d message %d bytes", len(front), len(prefix), room, len(plainOut))
	if len(out) < len(prefix) || !bytes.Equal(out[:len(prefix)], prefix) {
		t.Fatalf("the prefix is not preserved: %s, want %s first", hexs(out), hexs(prefix))
	}
	if !bytes.Equal(buf[:len(front)], front) {
		t.Fatalf("bytes before the slice changed: %s, want %s", hexs(buf[:len(front)]), hexs(front))
	}
	if len(out)-len(prefix) != len(plainOut) {
		t.Fatalf("%d bytes appended, Marshal returns %d", len(out)-len(prefix), len(plainOut))
	}
	if len(out) > 0 && len(buf) < cap(buf) && prefix != nil && len(out) <= cap(dst) && &out[:cap(out)][cap(out)-1] == &buf[:cap(buf)][cap(buf)-1] {
		// encoded in place: what is behind the result belongs to others
		for i, x := range buf[len(front)+len(out) : cap(buf)] {
			if x != 0x5a {
				t.Fatalf("byte %d behind the result was overwritten with %02x", i, x)
			}
		}
		t.Label("in place")
	}
	have, err := canonical(s.m, out[len(prefix):])
	if err != nil {
		t.Fatalf("appended: %v", err)
	}
	if !bytes.Equal(have, want) {
		t.Fatalf("appended %s, Marshal returns %s", hexs(have), hexs(want))
	}
	// a second message goes after the first one
	out2, err := prutal.MarshalAppend(out, v.Interface())
	if err != nil {
		t.Fatalf("MarshalAppend: %v", err)
	}
	if len(out2) != len(out)+len(plainOut) || !bytes.Equal(out2[:len(out)], out) {
		t.Fatalf("appending again changed the first message")
	}
	t.Key(out, fmt.Sprint(room), s.m.Name)
	t.NonTrivial(len(plainOut) > 0 && len(prefix) > 0)
	t.Sample(func() string {
		return fmt.Sprintf("prefix %x room %d message %s", prefix, room, hexs(plainOut))
	})
}

// C14: the gRPC codec is the codec
func grpcCodec(t *rt.T) {
	s := pickSchema(t, stdOpt)
	ref, v := s.value(t, sch.VOpt{Unknown: true})
	var c grpccodec.PrutalCodec
	if c.Name() != "proto" {
		t.Fatalf("codec name %q", c.Name())
	}
	b, err := c.Marshal(v.Interface())
	if err != nil {
		t.Fatalf("Marshal: %v", err)
	}
	got, err := refDecode(s.m.Desc, b)
	if err != nil {
		t.Fatalf("the official decoder rejects %s: %v", hexs(b), err)
	}
	sch.Normalize(s.m, got)
	if !sch.Equal(got, ref) {
		t.Fatalf("the official peer reads %s, want %s", text(got), text(ref))
	}
	keep := clone(b)
	// what an earlier call returned stays valid
	for i := t.Int(4); i > 0; i-- {
		if _, err := c.Marshal(v.Interface()); err != nil {
			t.Fatalf("Marshal: %v", err)
		}
	}
	if !bytes.Equal(keep, b) {
		t.Fatalf("a later Marshal changed the payload returned earlier")
	}
	// a payload of an official peer, in a buffer that gRPC reuses
	w := refEncode(ref)
	in := clone(w)
	x := s.new()
	if err := c.Unmarshal(in, x.Interface()); err != nil {
		t.Fatalf("Unmarshal of an official payload: %v", err)
	}
	for i := range in {
		in[i] ^= 0xff
	}
	s.sameAs(t, "decoded (buffer reused since)", ref, x)
	// errors are errors
	if len(w) > 0 {
		bad := clone(w[:t.Int(len(w))])
		_, refErr := refDecode(s.m.Desc, bad)
		y := s.new()
		err := c.Unmarshal(bad, y.Interface())
		if (err != nil) != (refErr != nil) {
			t.Fatalf("truncated payload %s: error %v, official %v", hexs(bad), err, refErr)
		}
	}
	if _, err := c.Marshal(struct{}{}); err == nil {
		t.Fatalf("Marshal accepts a non-pointer")
	}
	if err := c.Unmarshal(nil, 1); err == nil {
		t.Fatalf("Unmarshal accepts a non-pointer")
	}
	t.Key(b, s.m.Name)
	t.NonTrivial(len(b) > 0)
	t.Sample(func() string { return s.m.String() + " wire " + hexs(b) })
}

// C14: the codec accepts and refuses what the library does
func grpcVerdicts(t *rt.T) {
	var c grpccodec.PrutalCodec
	var fresh func() any // a value to encode, a target to decode into
	kind := ""
	s := pickSchema(t, stdOpt)
	wire := refEncode(sch.GenValue(t, s.m.Desc, sch.VOpt{Unknown: true}))
	switch t.Int(5) {
	case 0:
		kind = "no message"
		x := badArgument(t)
		fresh = func() any { return x }
	case 1:
		kind = "nil pointer"
		x := rt.Pick(t, any((*cGood)(nil)), any((*int)(nil)), any((**cGood)(nil)), any((*[]byte)(nil)), reflect.Zero(s.new().Type()).Interface())
		fresh = func() any { return x }
	case 2:
		kind = "unsupported type"
		x := reflect.StructOf([]reflect.StructField{{Name: "A", Type: badTypes[t.Int(len(badTypes))], Tag: reflect.StructTag(`protobuf:"varint,1,opt,name=a"`)}})
		fresh = func() any { return reflect.New(x).Interface() }
	case 3:
		kind = "too deep"
		loadFixtures()
		r := plain("Rec")
		v := r.new()
		f := routes(r.m, r.m)
		for _, f := range f {
			if f.Shape == sch.Repeated && !f.ByValue {
				fv := v.Elem().Field(r.tt[r.m].Fields[f.Num])
				fv.Set(reflect.Append(fv, v))
				break
			}
		}
		fresh = func() any { return v.Interface() }
	default:
		kind = "message"
		var old []byte
		if t.Int(2) == 0 { // a target in use
			old = refEncode(sch.GenValue(t, s.m.Desc, sch.VOpt{Unknown: true}))
		}
		fresh = func() any {
			v := s.new()
			if err := prutal.Unmarshal(old, v.Interface()); err != nil {
				panic(err)
			}
			return v.Interface()
		}
	}
	x := fresh()
	t.Logf("%s: %T", kind, x)
	_, e1 := prutal.Marshal(x)
	_, e2 := c.Marshal(x)
	if (e1 != nil) != (e2 != nil) {
		t.Fatalf("Marshal of %T: library %v, codec %v", x, e1, e2)
	}
	in := wire
	switch t.Int(4) {
	case 0:
		in = nil
	case 1:
		in = []byte{}
	case 2:
		in = clone(wire)
		for i := t.Int(4); i >= 0 && len(in) > 0; i-- {
			in[t.Int(len(in))] = byte(t.Int(256))
		}
	}
	if kind == "too deep" {
		return
	}
	x, y := fresh(), fresh()
	e1 = prutal.Unmarshal(in, x)
	e2 = c.Unmarshal(in, y)
	if (e1 != nil) != (e2 != nil) {
		t.Fatalf("Unmarshal of %s into %T: library %v, codec %v", hexs(in), x, e1, e2)
	}
	if e1 == nil {
		b1, m1 := canonical(s.m, mustMarshal(t, x))
		b2, m2 := canonical(s.m, mustMarshal(t, y))
		if m1 != nil || m2 != nil || !bytes.Equal(b1, b2) {
			t.Fatalf("Unmarshal of %s: library %s, %v, codec %s, %v", hexs(in), hexs(b1), m1, hexs(b2), m2)
		}
	}
	t.LabelIf(e1 != nil, "refused")
	t.Label(kind)
	t.Key(kind, in, fmt.Sprintf("%T", x))
	t.NonTrivial(len(in) > 0 || kind != "message")
	t.Sample(func() string { return fmt.Sprintf("%s %T input %s: %v", kind, x, hexs(in), e1) })
}
