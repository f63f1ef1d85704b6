package main

import (
	"bytes"
	"fmt"
	"reflect"

	"github.com/cloudwego/prutal"
	"google.golang.org/protobuf/encoding/protowire"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/dynamicpb"

	"verif/rt"
	"verif/sch"
)

// older drops fields of a schema, as an older version of it would lack them.
// Every message of the result stores unknown fields.
func older(t *rt.T, m *sch.Msg) *sch.Msg {
	done := map[*sch.Msg]*sch.Msg{}
	var conv func(m *sch.Msg) *sch.Msg
	conv = func(m *sch.Msg) *sch.Msg {
		if o := done[m]; o != nil {
			return o
		}
		o := &sch.Msg{Name: m.Name, Unknown: 1 + t.Int(sch.NumUnknowns-1)}
		done[m] = o
		for _, f := range m.Fields {
			if t.Int(5) < 2 {
				continue
			}
			g := *f
			if f.Msg != nil {
				g.Msg = conv(f.Msg)
			}
			o.Fields = append(o.Fields, &g)
		}
		return o
	}
	return conv(m)
}

// C08: a program with an older schema passes everything on
func unknownPass(t *rt.T) {
	m := sch.Gen(t, sch.Opt{Depth: 2, ByValue: true, Unknown: true})
	for _, x := range m.All() {
		x.Unknown = sch.UnkBytes
	}
	sch.Describe(m)
	o := older(t, m)
	sch.Describe(o)
	s := schema{m: o, tt: sch.BuildTypes(t, o), from: "random"}
	t.LogLazy(func() string { return "new " + m.String() + "\nold " + o.String() })
	var b []byte
	if t.Int(2) == 0 {
		b, _ = sch.GenWire(t, m.Desc, sch.WOpt{Unknown: true, Mismatch: true})
	} else {
		b = refEncode(sch.GenValue(t, m.Desc, sch.VOpt{Unknown: true}))
	}
	t.Logf("wire %s", hexs(b))
	v := s.new()
	if err := prutal.Unmarshal(b, v.Interface()); err != nil {
		t.Fatalf("Unmarshal: %v", err)
	}
	// the unknown bytes are exactly those the official decoder keeps
	wantOld, err := refDecode(o.Desc, b)
	if err != nil {
		panic(fmt.Sprintf("harness: the reference rejects a valid encoding: %v", err))
	}
	sch.Normalize(o, wantOld)
	s.sameAs(t, "decoded with the older schema", wantOld, v)
	hops := 1 + t.Int(2)
	out := b
	for i := 0; i < hops; i++ {
		x := s.new()
		if err := prutal.Unmarshal(out, x.Interface()); err != nil {
			t.Fatalf("hop %d: Unmarshal: %v", i, err)
		}
		n, err := prutal.Size(x.Interface())
		out = mustMarshal(t, x.Interface())
		if err != nil || n != len(out) {
			t.Fatalf("hop %d: Size %d, %v; %d bytes", i, n, err, len(out))
		}
	}
	want, err := refDecode(m.Desc, b)
	if err != nil {
		panic(fmt.Sprintf("harness: the reference rejects a valid encoding: %v", err))
	}
	got, err := refDecode(m.Desc, out)
	if err != nil {
		t.Fatalf("the reader with the new schema rejects %s: %v", hexs(out), err)
	}
	// by-value messages cannot tell empty from unset
	sch.Normalize(m, want)
	sch.Normalize(m, got)
	if !sch.Equal(want, got) {
		t.Fatalf("passed on through the older schema:\ngot  %s\nwant %s\n(wire %s)", text(got), text(want), hexs(out))
	}
	lost := 0
	for _, x := range m.All() {
		lost += len(x.Fields)
	}
	for _, x := range o.All() {
		lost -= len(x.Fields)
	}
	t.LabelIf(lost > 0, "fields missing")
	t.Key(b, o.String())
	t.NonTrivial(len(b) > 0 && lost > 0)
	t.Sample(func() string { return "new " + m.String() + " old " + o.String() + " wire " + hexs(b) })
}

// C08: unknown fields of the previous content of a target do not leak
func unknownReset(t *rt.T) {
	s := pickSchema(t, sch.Opt{Depth: 1, ByValue: true, Unknown: true})
	mk := func() []byte {
		var b []byte
		for i := t.Int(4); i > 0; i-- {
			b = append(b, sch.UnknownRecords(t, s.m.Desc, 1)...)
		}
		return b
	}
	u1, u2 := mk(), mk()
	v := s.new()
	if err := prutal.Unmarshal(u1, v.Interface()); err != nil {
		t.Fatalf("Unmarshal: %v", err)
	}
	if err := prutal.Unmarshal(u2, v.Interface()); err != nil {
		t.Fatalf("Unmarshal: %v", err)
	}
	want := dynamicpb.NewMessage(s.m.Desc)
	if len(u2) > 0 {
		want.SetUnknown(u2)
	}
	sch.Normalize(s.m, want)
	s.sameAs(t, fmt.Sprintf("unknown fields %x after %x", u2, u1), want, v)
	t.Key(u1, u2)
	t.NonTrivial(len(u1) > 0)
	t.Sample(func() string { return fmt.Sprintf("%s %x then %x", s.m.String(), u1, u2) })
}

// C09: presence. Every field is unset, set to its zero value, or set to another
// value, and the other side can tell (as far as the schema can).
func presence(t *rt.T) {
	s := pickSchema(t, sch.Opt{Depth: 2, Unknown: true, NoMaps: true})
	md := s.m.Desc
	ref := dynamicpb.NewMessage(md)
	fds := md.Fields()
	set, zero := 0, 0
	for i := 0; i < fds.Len(); i++ {
		fd := fds.Get(i)
		k := t.Int(3)
		if k == 0 || fd.IsMap() {
			continue
		}
		set++
		if fd.IsList() {
			l := ref.Mutable(fd).List()
			for j := 0; j < k; j++ {
				l.Append(l.NewElement())
			}
			continue
		}
		if fd.Message() != nil {
			x := ref.NewField(fd)
			if k == 2 {
				sub := x.Message()
				if sf := sub.Descriptor().Fields(); sf.Len() > 0 {
					f := sf.Get(t.Int(sf.Len()))
					if !f.IsList() && !f.IsMap() && f.Message() == nil {
						sub.Set(f, f.Default())
						zero++
					}
				}
			}
			ref.Set(fd, x)
			continue
		}
		if k == 1 {
			zero++
			ref.Set(fd, fd.Default())
			continue
		}
		one := sch.GenValue(t, md, sch.VOpt{Budget: 1})
		if one.Has(fd) {
			ref.Set(fd, one.Get(fd))
		}
	}
	sch.Normalize(s.m, ref)
	t.LogLazy(func() string { return "value " + text(ref) })
	v := s.new()
	s.tt.FromPB(t, s.m, ref, v.Elem())
	b := mustMarshal(t, v.Interface())
	got, err := refDecode(md, b)
	if err != nil {
		t.Fatalf("the official decoder rejects %s: %v", hexs(b), err)
	}
	sch.Normalize(s.m, got)
	if !sch.Equal(got, ref) {
		t.Fatalf("the official decoder reads\n%s\nwant\n%s", text(got), text(ref))
	}
	// an implicit field that is zero is not on the wire
	if rs, ok := records(b); ok {
		for _, r := range rs {
			f := s.m.ByNum(int(r.num))
			if f != nil && f.Shape == sch.Implicit && !ref.Has(fds.ByNumber(r.num)) {
				t.Fatalf("zero value of field %d without presence is on the wire: %s", r.num, hexs(b))
			}
		}
	}
	w := refEncode(ref)
	x := s.new()
	if err := prutal.Unmarshal(w, x.Interface()); err != nil {
		t.Fatalf("Unmarshal: %v", err)
	}
	s.sameAs(t, "decoded", ref, x)
	if err := s.tt.GoEqual(s.m, v.Elem(), x.Elem(), ""); err != nil {
		t.Fatalf("decoded differs: %v", err)
	}
	t.LabelIf(zero > 0, "zero but set")
	t.Key(b, s.m.Name)
	t.NonTrivial(set > 0)
	t.Sample(func() string { return s.m.String() + " value " + text(ref) })
}

// C09: of several members of a oneof, the last on the wire counts; message
// members merge only while the member stays the same
func oneofLast(t *rt.T) {
	loadFixtures()
	var c []schema
	for _, m := range plainMs {
		if m.Oneofs > 0 {
			c = append(c, schema{m, plainTT, "plain", nil})
		}
	}
	for _, m := range offMs {
		if m.Oneofs > 0 {
			c = append(c, schema{m, offTT, "official", nil})
		}
	}
	s := c[t.Int(len(c))]
	var members []*sch.Field
	for _, f := range s.m.Fields {
		if f.Shape == sch.Oneof {
			members = append(members, f)
		}
	}
	var b []byte
	n := 1 + t.Int(6)
	last := -1
	for i := 0; i < n; i++ {
		k := t.Int(len(members))
		if last >= 0 && t.Int(3) == 0 {
			k = last
		}
		last = k
		f := members[k]
		fd := s.m.Desc.Fields().ByNumber(protowire.Number(f.Num))
		one := dynamicpb.NewMessage(s.m.Desc)
		if f.Kind == sch.MsgK {
			one.Set(fd, one.NewField(fd))
			if t.Int(3) > 0 {
				sub := sch.GenValue(t, fd.Message(), sch.VOpt{Budget: 6})
				proto.Merge(one.Mutable(fd).Message().Interface(), sub)
			}
		} else if t.Int(2) == 0 {
			one.Set(fd, fd.Default())
		} else {
			for j := 0; j < 4 && !one.Has(fd); j++ {
				x := sch.GenValue(t, s.m.Desc, sch.VOpt{Budget: 1})
				if x.Has(fd) {
					one.Set(fd, x.Get(fd))
				}
			}
			if !one.Has(fd) {
				one.Set(fd, fd.Default())
			}
		}
		b = append(b, refEncode(one)...)
	}
	t.Logf("%s wire %s", s.m.String(), hexs(b))
	want, err := refDecode(s.m.Desc, b)
	if err != nil {
		panic("harness: " + err.Error())
	}
	sch.Normalize(s.m, want)
	v := s.new()
	if err := prutal.Unmarshal(b, v.Interface()); err != nil {
		t.Fatalf("Unmarshal: %v", err)
	}
	s.sameAs(t, "decoded", want, v)
	out := mustMarshal(t, v.Interface())
	got, err := refDecode(s.m.Desc, out)
	if err != nil {
		t.Fatalf("output: %v", err)
	}
	sch.Normalize(s.m, got)
	if !sch.Equal(got, want) {
		t.Fatalf("encoded again: %s, want %s", text(got), text(want))
	}
	t.Key(b, s.m.Name)
	t.NonTrivial(n > 1)
	t.Sample(func() string { return s.m.Name + " wire " + hexs(b) })
}

// C13: decoding into a message that has content merges into it
func mergeInto(t *rt.T) { mergeIntoOf(t, pickSchema(t, stdOpt)) }

func mergeIntoOf(t *rt.T, s schema) {
	// first content: generated value or decoded
	var ref *dynamicpb.Message
	var v reflect.Value
	if t.Int(2) == 0 {
		ref, v = s.value(t, sch.VOpt{Unknown: true, Budget: 30})
		// hidden elements behind the end of lists
		if t.Int(2) == 0 {
			hide(t, s, v.Elem())
		}
	} else {
		b, _ := s.wire(t, sch.WOpt{Unknown: true, Mismatch: true, Budget: 20})
		t.Logf("first %s", hexs(b))
		v = s.new()
		if err := prutal.Unmarshal(b, v.Interface()); err != nil {
			t.Fatalf("Unmarshal: %v", err)
		}
		var err error
		if ref, err = refDecode(s.m.Desc, b); err != nil {
			panic("harness: " + err.Error())
		}
		sch.Normalize(s.m, ref)
	}
	for hop := 1 + t.Int(2); hop > 0; hop-- {
		// what the program kept of the old content
		kept := collectBytes(v.Elem())
		b, st := s.wire(t, sch.WOpt{Unknown: true, Mismatch: true, Budget: 20})
		t.Logf("then %s", hexs(b))
		t.LabelIf(st.Merge > 0, "merge")
		// nil elements stand for empty messages; the unknown fields of the
		// top-level message are those of the last input
		ref.SetUnknown(nil)
		if err := refMergeInto(ref, b); err != nil {
			panic("harness: " + err.Error())
		}
		sch.Normalize(s.m, ref)
		if err := prutal.Unmarshal(b, v.Interface()); err != nil {
			t.Fatalf("Unmarshal: %v", err)
		}
		s.sameAs(t, "merged", ref, v)
		for _, k := range kept {
			if !bytes.Equal(k.b, k.was) {
				t.Fatalf("decoding wrote into a []byte the program kept from before: %x -> %x", k.was, k.b)
			}
		}
		t.Key(b, s.m.Name)
		t.NonTrivial(len(b) > 0)
	}
	t.Sample(func() string { return s.m.String() + " result " + text(ref) })
}

type keptBytes struct{ b, was []byte }

// collectBytes finds the bytes fields (not the unknown fields) of a value.
func collectBytes(v reflect.Value) (out []keptBytes) {
	var walk func(v reflect.Value)
	walk = func(v reflect.Value) {
		switch v.Kind() {
		case reflect.Slice:
			if v.Type().Elem().Kind() == reflect.Uint8 {
				if v.Len() > 0 {
					b := v.Bytes()
					out = append(out, keptBytes{b, clone(b)})
				}
				return
			}
			for i := 0; i < v.Len(); i++ {
				walk(v.Index(i))
			}
		case reflect.Pointer, reflect.Interface:
			if !v.IsNil() {
				walk(v.Elem())
			}
		case reflect.Map:
			for it := v.MapRange(); it.Next(); {
				walk(it.Value())
			}
		case reflect.Struct:
			for i := 0; i < v.NumField(); i++ {
				switch v.Type().Field(i).Name {
				case "state", "sizeCache", "unknownFields", "XXX_unrecognized":
					continue
				}
				walk(v.Field(i))
			}
		}
	}
	walk(v)
	return
}

// hide shortens lists so that old elements stay behind their end, or gives them
// spare capacity with content; the visible content does not change.
func hide(t *rt.T, s schema, v reflect.Value) {
	g := s.tt[s.m]
	for _, f := range s.m.Fields {
		if f.Shape != sch.Repeated {
			continue
		}
		fv := v.Field(g.Fields[f.Num])
		n := fv.Len()
		if n == 0 {
			continue
		}
		k := 1 + t.Int(4)
		x := reflect.MakeSlice(fv.Type(), n+k, n+k)
		reflect.Copy(x, fv)
		for i := 0; i < k; i++ {
			x.Index(n + i).Set(fv.Index(i % n))
		}
		fv.Set(x.Slice(0, n))
	}
}
