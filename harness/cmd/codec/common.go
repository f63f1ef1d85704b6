package main

import (
	"bytes"
	"fmt"
	"reflect"
	"sort"
	"sync"

	"google.golang.org/protobuf/encoding/prototext"
	"google.golang.org/protobuf/encoding/protowire"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
	"google.golang.org/protobuf/types/dynamicpb"

	"verif/fixtures"
	"verif/rt"
	"verif/sch"
)

// schema is a message model bound to Go types.
type schema struct {
	m    *sch.Msg
	tt   sch.Types
	from string
	big  *bulk
}

func (s schema) new() reflect.Value { return s.tt.New(s.m) }

var (
	fxOnce           sync.Once
	plainMs, offMs   []*sch.Msg
	plainTT, offTT   sch.Types
	plainIx, offIx   = map[string]*sch.Msg{}, map[string]*sch.Msg{}
	recursiveMessage = map[string]bool{"Rec": true, "MutA": true, "RecVal": true}
)

func loadFixtures() {
	fxOnce.Do(func() {
		plainMs, plainTT = fixtures.Plain()
		offMs, offTT = fixtures.Official()
		for _, m := range plainMs {
			plainIx[m.Name] = m
		}
		for _, m := range offMs {
			offIx[m.Name] = m
		}
	})
}

func plain(name string) schema {
	loadFixtures()
	return schema{plainIx[name], plainTT, "plain", nil}
}

// pickSchema draws a schema: a random one with reflect-built types, or one of
// the compiled fixtures (oneofs, recursion, official generated code).
func pickSchema(t *rt.T, o sch.Opt) schema {
	loadFixtures()
	switch rt.Weighted(t, 50, 33, 17) {
	case 1:
		m := plainMs[t.Int(len(plainMs))]
		t.Label("compiled")
		t.LogLazy(func() string { return "fixture " + m.String() })
		return schema{m, plainTT, "plain", nil}
	case 2:
		m := offMs[t.Int(len(offMs))]
		t.Label("official")
		t.LogLazy(func() string { return "official " + m.String() })
		return schema{m, offTT, "official", nil}
	}
	return randSchema(t, o)
}

func randSchema(t *rt.T, o sch.Opt) schema {
	m := sch.Gen(t, o)
	sch.Describe(m)
	tt := sch.BuildTypes(t, m)
	t.Label("random")
	t.LogLazy(func() string { return m.String() })
	return schema{m, tt, "random", nil}
}

// stdOpt is what most checks use.
var stdOpt = sch.Opt{Depth: 2, ByValue: true, Unknown: true}

// value draws a message and its Go representation.
func (s schema) value(t *rt.T, o sch.VOpt) (*dynamicpb.Message, reflect.Value) {
	r := s.big.value(t, &o)
	ref := sch.GenValue(r, s.m.Desc, o)
	sch.Normalize(s.m, ref)
	v := s.new()
	s.tt.FromPB(r, s.m, ref, v.Elem())
	t.LogLazy(func() string { return "value " + text(ref) })
	return ref, v
}

// wire draws a valid encoding.
func (s schema) wire(t *rt.T, o sch.WOpt) ([]byte, sch.WStats) {
	r := s.big.wire(t, &o)
	return sch.GenWire(r, s.m.Desc, o)
}

func text(m proto.Message) string {
	s := prototext.MarshalOptions{AllowPartial: true, EmitUnknown: true}.Format(m)
	if len(s) > 20000 {
		s = s[:20000] + "..."
	}
	return s
}

// refDecode decodes with the reference; b may be anything.
func refDecode(md protoreflect.MessageDescriptor, b []byte) (*dynamicpb.Message, error) {
	ref := dynamicpb.NewMessage(md)
	err := (proto.UnmarshalOptions{AllowPartial: true, Resolver: sch.NoExts}).Unmarshal(sch.RefForm(md, b), ref)
	return ref, err
}

// refMergeInto decodes into an existing reference message.
func refMergeInto(ref *dynamicpb.Message, b []byte) error {
	return (proto.UnmarshalOptions{AllowPartial: true, Merge: true, Resolver: sch.NoExts}).Unmarshal(sch.RefForm(ref.Descriptor(), b), ref)
}

func refEncode(m proto.Message) []byte {
	b, err := proto.MarshalOptions{AllowPartial: true, Deterministic: true}.Marshal(m)
	if err != nil {
		panic(fmt.Sprintf("harness: reference cannot encode: %v", err))
	}
	return b
}

// sameAs compares the Go message with the reference.
func (s schema) sameAs(t *rt.T, what string, want *dynamicpb.Message, v reflect.Value) {
	got := s.tt.ToPB(s.m, v.Elem())
	sch.Normalize(s.m, got)
	if !sch.Equal(want, got) {
		t.Fatalf("%s:\ngot  %s\nwant %s", what, text(got), text(want))
	}
	if err := s.tt.CheckCanaries(s.m, v.Elem()); err != nil {
		t.Fatalf("%s: %v", what, err)
	}
}

// canonical sorts the records of an encoding by field number (stable; map
// entries by content), recursively; unknown records go last, in order. Empty
// by-value messages, which mean nothing, are dropped.
func canonical(m *sch.Msg, b []byte) ([]byte, error) {
	type rec struct {
		num   int
		isMap bool
		b     []byte
	}
	var recs []rec
	var unk []byte
	for len(b) > 0 {
		num, typ, n := protowire.ConsumeTag(b)
		if n < 0 {
			return nil, fmt.Errorf("bad tag in output: % x", b)
		}
		k := protowire.ConsumeFieldValue(num, typ, b[n:])
		if k < 0 {
			return nil, fmt.Errorf("bad value of field %d in output: % x", num, b)
		}
		raw, val := b[:n+k], b[n:n+k]
		b = b[n+k:]
		f := m.ByNum(int(num))
		if f == nil {
			unk = append(unk, raw...)
			continue
		}
		if protowire.SizeVarint(protowire.EncodeTag(num, typ)) != n {
			return nil, fmt.Errorf("overlong tag of field %d: % x", num, raw)
		}
		if typ != protowire.BytesType || (f.Shape != sch.Map && f.Kind != sch.MsgK) {
			recs = append(recs, rec{int(num), false, raw})
			continue
		}
		p, ln := protowire.ConsumeBytes(val)
		if ln != protowire.SizeBytes(len(p)) {
			return nil, fmt.Errorf("overlong length of field %d: % x", num, raw)
		}
		var err error
		if f.Shape == sch.Map {
			if f.Kind == sch.MsgK {
				// entry: key then value
				_, kt, a := protowire.ConsumeTag(p)
				var kn int
				if a > 0 {
					kn = protowire.ConsumeFieldValue(1, kt, p[a:])
				}
				if a <= 0 || kn < 0 {
					return nil, fmt.Errorf("bad map entry of field %d: % x", num, raw)
				}
				key := p[:a+kn]
				vn, vt, c := protowire.ConsumeTag(p[a+kn:])
				if c <= 0 || vn != 2 || vt != protowire.BytesType {
					return nil, fmt.Errorf("bad map entry value of field %d: % x", num, raw)
				}
				vb, d := protowire.ConsumeBytes(p[a+kn+c:])
				if d < 0 || a+kn+c+d != len(p) {
					return nil, fmt.Errorf("bad map entry value of field %d: % x", num, raw)
				}
				if vb, err = canonical(f.Msg, vb); err != nil {
					return nil, err
				}
				q := append([]byte{}, key...)
				q = protowire.AppendTag(q, 2, protowire.BytesType)
				p = protowire.AppendBytes(q, vb)
			}
		} else if p, err = canonical(f.Msg, p); err != nil {
			return nil, err
		}
		if f.ByValue && f.Shape == sch.Explicit && len(p) == 0 {
			continue
		}
		nr := protowire.AppendTag(nil, num, typ)
		nr = protowire.AppendBytes(nr, p)
		recs = append(recs, rec{int(num), f.Shape == sch.Map, nr})
	}
	sort.SliceStable(recs, func(i, j int) bool {
		if recs[i].num != recs[j].num {
			return recs[i].num < recs[j].num
		}
		return recs[i].isMap && bytes.Compare(recs[i].b, recs[j].b) < 0
	})
	var out []byte
	for _, r := range recs {
		out = append(out, r.b...)
	}
	return append(out, unk...), nil
}

func clone(b []byte) []byte { return append([]byte{}, b...) }

func hexs(b []byte) string {
	if len(b) > 600 {
		return fmt.Sprintf("%x...(%d bytes)", b[:600], len(b))
	}
	return fmt.Sprintf("%x", b)
}
