package main

import (
	"bytes"
	"fmt"
	"math"
	"reflect"
	"runtime"
	"runtime/metrics"

	"github.com/cloudwego/prutal"
	"google.golang.org/protobuf/encoding/protowire"
	"google.golang.org/protobuf/reflect/protoreflect"
	"google.golang.org/protobuf/types/dynamicpb"

	"verif/rt"
	"verif/sch"
)

// ---- C06: malformed input ----

type rec struct {
	num      protowire.Number
	typ      protowire.Type
	tag, val []byte
}

func records(b []byte) (out []rec, ok bool) {
	for len(b) > 0 {
		num, typ, n := protowire.ConsumeTag(b)
		if n < 0 {
			return out, false
		}
		k := protowire.ConsumeFieldValue(num, typ, b[n:])
		if k < 0 {
			return out, false
		}
		out = append(out, rec{num, typ, b[:n], b[n : n+k]})
		b = b[n+k:]
	}
	return out, true
}

// mutate damages an encoding, at this level or inside a length-delimited
// record (whose length is then adjusted, so that only the inside is damaged).
func mutate(t *rt.T, b []byte, depth int) []byte {
	if depth < 6 && t.Int(3) > 0 {
		if rs, ok := records(b); ok {
			var c []int
			for i, r := range rs {
				if r.typ == protowire.BytesType && len(r.val) > 1 {
					c = append(c, i)
				}
			}
			if len(c) > 0 {
				k := c[t.Int(len(c))]
				var out []byte
				for i, r := range rs {
					out = append(out, r.tag...)
					if i == k {
						p, _ := protowire.ConsumeBytes(r.val)
						out = protowire.AppendBytes(out, mutate(t, clone(p), depth+1))
					} else {
						out = append(out, r.val...)
					}
				}
				return out
			}
		}
	}
	pos := func() int { return t.Int(len(b) + 1) }
	splice := func(at, del int, ins []byte) []byte {
		if at+del > len(b) {
			del = len(b) - at
		}
		out := append([]byte{}, b[:at]...)
		out = append(out, ins...)
		return append(out, b[at+del:]...)
	}
	switch t.Int(13) {
	case 12: // a length-delimited record in two pieces, anywhere
		if rs, ok := records(b); ok {
			var c []int
			for i, r := range rs {
				if r.typ == protowire.BytesType && len(r.val) > 1 {
					c = append(c, i)
				}
			}
			if len(c) > 0 {
				k := c[t.Int(len(c))]
				var out []byte
				for i, r := range rs {
					out = append(out, r.tag...)
					if i == k {
						p, _ := protowire.ConsumeBytes(r.val)
						at := t.Int(len(p) + 1)
						if t.Int(3) == 0 { // with a group around the cut
							p = append(append(clone(p[:at]), 0x7b, 0x7c), p[at:]...)
							at++
						}
						out = append(protowire.AppendBytes(out, p[:at]), r.tag...)
						out = protowire.AppendBytes(out, p[at:])
					} else {
						out = append(out, r.val...)
					}
				}
				return out
			}
		}
		return b
	case 0:
		return b[:t.Int(len(b)+1)]
	case 1:
		if len(b) == 0 {
			return []byte{byte(t.Int(256))}
		}
		b = clone(b)
		b[t.Int(len(b))] = byte(t.Int(256))
		return b
	case 2:
		if len(b) == 0 {
			return []byte{0x80}
		}
		b = clone(b)
		b[t.Int(len(b))] ^= 1 << t.Int(8)
		return b
	case 3:
		return splice(pos(), 0, rt.Bytes(t, 1+t.Int(6)))
	case 4:
		return splice(pos(), 1+t.Int(6), nil)
	case 5:
		p := pos()
		q := p + t.Int(len(b)-p+1)
		return splice(pos(), 0, clone(b[p:q]))
	case 6: // a length or value out of range
		v := rt.Pick(t, uint64(len(b)), uint64(len(b)+1), math.MaxInt32, math.MaxInt32+1, math.MaxUint32, math.MaxUint32+1, math.MaxInt64, math.MaxInt64+1, math.MaxUint64, math.MaxInt64-7, math.MaxUint64-9, 1<<62, 100<<20)
		return splice(pos(), 1, protowire.AppendVarint(nil, v))
	case 7: // varints that are too long or too large
		n := 1 + t.Int(12)
		x := make([]byte, n)
		for i := range x {
			x[i] = byte(rt.Pick(t, 0x80, 0xff, 0x81))
		}
		x = append(x, byte(t.Int(256)))
		return splice(pos(), t.Int(2), x)
	case 8: // bad tag
		tag := rt.Pick(t, []byte{0x06}, []byte{0x07}, []byte{0}, []byte{0x02}, []byte{0x0e}, []byte{0x0f}, []byte{0x0b}, []byte{0x0c}, []byte{0x0b, 0x0c}, []byte{0x0b, 0x14}, []byte{0x80, 0x80, 0x80, 0x80, 0x10}, []byte{0xf8, 0xff, 0xff, 0xff, 0x7f, 0x01}, []byte{0x82, 0x80, 0x80, 0x80, 0x80, 0x80, 0x01, 0x00})
		if rs, ok := records(b); ok && len(rs) > 0 && t.Int(2) == 0 {
			at := 0
			for _, r := range rs[:t.Int(len(rs)+1)] {
				at += len(r.tag) + len(r.val)
			}
			return splice(at, 0, tag)
		}
		return splice(pos(), 0, tag)
	case 9: // a record of an out-of-range or known number at a record boundary
		num := rt.Pick[uint64](t, 1, 2, 3, 1<<29-1, 1<<29, 1<<31-1, 1<<31, 0)
		x := protowire.AppendVarint(nil, num<<3|uint64(t.Int(8)))
		x = append(x, rt.Bytes(t, t.Int(4))...)
		return append(clone(b), x...)
	case 10:
		return rt.Bytes(t, t.Int(12))
	default: // wire type of a record changed
		if rs, ok := records(b); ok && len(rs) > 0 {
			k := t.Int(len(rs))
			var out []byte
			for i, r := range rs {
				if i == k {
					out = protowire.AppendVarint(out, uint64(r.num)<<3|uint64(t.Int(8)))
				} else {
					out = append(out, r.tag...)
				}
				out = append(out, r.val...)
			}
			return out
		}
		return splice(pos(), 1, rt.Bytes(t, 1))
	}
}

// refTry decodes with the reference; panicked tells that it could not cope.
func refTry(md protoreflect.MessageDescriptor, b []byte) (ref *dynamicpb.Message, err error, panicked bool) {
	defer func() {
		if e := recover(); e != nil {
			panicked = true
		}
	}()
	ref, err = refDecode(md, b)
	return
}

func malformed(t *rt.T) { malformedOf(t, pickSchema(t, stdOpt)) }

func malformedOf(t *rt.T, s schema) {
	var b []byte
	if t.Int(2) == 0 {
		b, _ = sch.GenWire(t, s.m.Desc, sch.WOpt{Unknown: true, Mismatch: true, Budget: 25})
	} else {
		ref := sch.GenValue(t, s.m.Desc, sch.VOpt{Unknown: true, Budget: 25})
		b = refEncode(ref)
	}
	good := b
	for i := t.Int(3); i >= 0; i-- {
		b = mutate(t, b, 0)
	}
	t.Logf("wire %s", hexs(b))
	t.Key(b, s.m.Name)
	t.Sample(func() string { return s.m.String() + " wire " + hexs(b) })
	want, refErr, bad := refTry(s.m.Desc, b)
	if bad {
		t.Skip()
	}
	t.NonTrivial(refErr != nil)
	t.LabelIf(refErr != nil, "rejected")
	v := s.new()
	in := clone(b)
	err := prutal.Unmarshal(in, v.Interface())
	if (err != nil) != (refErr != nil) {
		t.Fatalf("Unmarshal of %s: error %v; the official decoder: %v", hexs(b), err, refErr)
	}
	if err == nil {
		sch.Normalize(s.m, want)
		s.sameAs(t, "decoded", want, v)
	} else {
		if e := s.tt.CheckCanaries(s.m, v.Elem()); e != nil {
			t.Fatalf("after a rejected input: %v", e)
		}
		// what was decoded so far is a message still
		out, e := prutal.Marshal(v.Interface())
		if e != nil {
			t.Fatalf("Marshal of what a rejected input left: %v", e)
		}
		if n, e := prutal.Size(v.Interface()); e != nil || n != len(out) {
			t.Fatalf("Size of what a rejected input left = %d, %v; want %d", n, e, len(out))
		}
		if _, e := refDecode(s.m.Desc, out); e != nil {
			t.Fatalf("what a rejected input left is encoded as %s, which the official decoder rejects: %v", hexs(out), e)
		}
	}
	// and later calls are not affected
	if t.Int(3) == 0 {
		want, err := refDecode(s.m.Desc, good)
		if err != nil {
			panic(fmt.Sprintf("harness: the reference rejects a valid encoding: %v", err))
		}
		sch.Normalize(s.m, want)
		x := s.new()
		if err := prutal.Unmarshal(good, x.Interface()); err != nil {
			t.Fatalf("Unmarshal of a valid encoding after a damaged one: %v", err)
		}
		s.sameAs(t, "decoded after a damaged input", want, x)
	}
}

// heapAllocated is cheap but late: small objects are counted when a span of
// the P is full or at the next GC, with those of the cases before
func heapAllocated() uint64 {
	m := []metrics.Sample{{Name: "/gc/heap/allocs:bytes"}}
	metrics.Read(m)
	return m[0].Value.Uint64()
}

func exactlyAllocated(f func()) uint64 {
	var m0, m1 runtime.MemStats
	runtime.ReadMemStats(&m0)
	f()
	runtime.ReadMemStats(&m1)
	return m1.TotalAlloc - m0.TotalAlloc
}

// largest Go struct (with its slice and map overhead) of a schema
func (s schema) maxStruct() int {
	n := 0
	for _, m := range s.m.All() {
		if x := int(s.tt[m].T.Size()); x > n {
			n = x
		}
	}
	return n
}

// C06: memory use is proportional to the input, whatever it claims
func boundedAlloc(t *rt.T) {
	s := pickSchema(t, sch.Opt{Depth: 2, ByValue: true, Unknown: true})
	// a small pattern, repeated, inside one record or at the top, possibly damaged
	fds := s.m.Desc.Fields()
	var b []byte
	unit, _ := sch.GenWire(t, s.m.Desc, sch.WOpt{Unknown: true, Mismatch: true, Budget: 1 + t.Int(4)})
	if len(unit) > 4096 {
		unit = nil
	}
	n := rt.Pick(t, 1, 10, 100, 1000, 4000)
	kind := t.Int(4)
	var fd protoreflect.FieldDescriptor
	if fds.Len() > 0 {
		fd = fds.Get(t.Int(fds.Len()))
	}
	switch {
	case kind == 0 || fd == nil:
		for i := 0; i < n && len(b) < 1<<17; i++ {
			b = append(b, unit...)
		}
	case fd.IsMap(): // one entry with many records
		b = bigEntry(t, fd, n)
	case fd.IsList() && fd.Kind() != sch.StringK && fd.Kind() != sch.BytesK && fd.Message() == nil:
		for i := 0; i < n; i++ { // many short packed records
			x := []byte{1, 1, 1, 1, 1, 1, 1, 1}
			if kind == 2 {
				x = nil
			}
			b = protowire.AppendTag(b, fd.Number(), protowire.BytesType)
			b = protowire.AppendBytes(b, x)
		}
	case fd.Message() != nil: // message split over many records
		sub, _ := sch.GenWire(t, fd.Message(), sch.WOpt{Unknown: true, Budget: 2})
		if len(sub) > 4096 {
			sub = nil
		}
		for i := 0; i < n && len(b) < 1<<17; i++ {
			b = protowire.AppendTag(b, fd.Number(), protowire.BytesType)
			b = protowire.AppendBytes(b, sub)
		}
	default:
		for i := 0; i < n && len(b) < 1<<17; i++ {
			b = append(b, unit...)
		}
	}
	if t.Int(2) == 0 {
		b = mutate(t, b, 0)
	}
	// a claimed length
	if fd != nil && t.Int(2) == 0 {
		b = protowire.AppendTag(b, fd.Number(), protowire.BytesType)
		b = protowire.AppendVarint(b, rt.Pick[uint64](t, 1<<20, 100<<20, 1<<30, 1<<31, 1<<33, 1<<40, 1<<62))
	}
	t.Logf("%d bytes: %s", len(b), hexs(b))
	x0 := s.new()
	prutal.Unmarshal(nil, x0.Interface()) // the type is parsed
	v := s.new()
	limit := uint64(256<<10) + uint64(len(b))*uint64(1024+8*s.maxStruct())
	a := heapAllocated()
	err := prutal.Unmarshal(b, v.Interface())
	a = heapAllocated() - a
	runtime.KeepAlive(v)
	for i := 0; i < 5 && a > limit; i++ { // exact
		v := s.new()
		a = min(a, exactlyAllocated(func() { err = prutal.Unmarshal(b, v.Interface()) }))
	}
	if a > limit {
		t.Fatalf("decoding %d bytes allocated %d (limit %d), error %v", len(b), a, limit, err)
	}
	t.LabelIf(err != nil, "rejected")
	t.Key(b, s.m.Name)
	t.NonTrivial(len(b) > 8)
	t.Sample(func() string { return fmt.Sprintf("%s %d bytes, allocated %d", s.m.String(), len(b), a) })
}

func bigEntry(t *rt.T, fd protoreflect.FieldDescriptor, n int) []byte {
	var p []byte
	one := func(fd protoreflect.FieldDescriptor) []byte {
		if fd.Message() != nil {
			sub, _ := sch.GenWire(t, fd.Message(), sch.WOpt{Unknown: true, Budget: 1})
			if len(sub) > 512 {
				sub = nil
			}
			return protowire.AppendBytes(protowire.AppendTag(nil, fd.Number(), protowire.BytesType), sub)
		}
		switch fd.Kind() {
		case sch.StringK, sch.BytesK:
			return protowire.AppendBytes(protowire.AppendTag(nil, fd.Number(), protowire.BytesType), []byte("abc"))
		case sch.F32K, sch.SF32K, sch.FloatK:
			return protowire.AppendFixed32(protowire.AppendTag(nil, fd.Number(), protowire.Fixed32Type), 7)
		case sch.F64K, sch.SF64K, sch.DoubleK:
			return protowire.AppendFixed64(protowire.AppendTag(nil, fd.Number(), protowire.Fixed64Type), 7)
		}
		return protowire.AppendVarint(protowire.AppendTag(nil, fd.Number(), protowire.VarintType), 1)
	}
	k, v := one(fd.MapKey()), one(fd.MapValue())
	u := sch.UnknownRecords(t, nil, 1)
	mask := 1 + t.Int(7)
	for i := 0; i < n && len(p) < 1<<17; i++ {
		if mask&1 != 0 {
			p = append(p, v...)
		}
		if mask&2 != 0 {
			p = append(p, k...)
		}
		if mask&4 != 0 {
			p = append(p, u...)
		}
	}
	return protowire.AppendBytes(protowire.AppendTag(nil, fd.Number(), protowire.BytesType), p)
}

// ---- C10: nesting ----

// routes lists the fields of m whose message is to.
func routes(m, to *sch.Msg) []*sch.Field {
	var out []*sch.Field
	for _, f := range m.Fields {
		if f.Msg == to {
			out = append(out, f)
		}
	}
	return out
}

// C10: Marshal, Size and Unmarshal agree on what is nested too deeply
func nesting(t *rt.T) {
	loadFixtures()
	c := []schema{plain("Rec"), plain("RecVal"), plain("MutA"), plain("Rec"), plain("RecVal")}
	for _, m := range offMs {
		if len(routes(m, m)) > 0 {
			c = append(c, schema{m, offTT, "official", nil})
		}
	}
	s := c[t.Int(len(c))]
	cyc := []*sch.Msg{s.m}
	if s.m.Name == "MutA" { // mutual recursion
		for _, f := range s.m.Fields {
			if f.Msg != nil && f.Msg.Name == "MutB" {
				cyc = append(cyc, f.Msg)
				break
			}
		}
	}
	depth := rt.Pick(t, 999, 1000, 1001, 998, 1002, 100, 3, 0, 20, 500, 1500, 5000, 20000, t.Int(1500), t.Int(1500))
	if t.Int(40) == 0 {
		depth = 100000
	}
	// one route per level: a short repeated pattern of routes
	pat := 1 + t.Int(4)
	var pattern []*sch.Field
	for i := 0; i < pat*len(cyc); i++ {
		rs := routes(cyc[i%len(cyc)], cyc[(i+1)%len(cyc)])
		pattern = append(pattern, rs[t.Int(len(rs))])
	}
	// build inside out: level depth-1 first
	lvl := func(i int) (*sch.Msg, *sch.Field) { return cyc[i%len(cyc)], pattern[i%len(pattern)] }
	inner, _ := lvl(depth)
	v := s.tt.New(inner)
	keys := make(map[*sch.Field]reflect.Value)
	wireKeys := map[*sch.Field][]byte{}
	for _, f := range pattern {
		if f.Shape == sch.Map && wireKeys[f] == nil {
			keys[f], wireKeys[f] = mapKey(t, s.tt, f)
		}
	}
	if f := pattern[(depth+len(pattern)-1)%len(pattern)]; depth > 0 && t.Int(3) == 0 && !f.ByValue && (f.Shape == sch.Repeated || f.Shape == sch.Map || f.Shape == sch.Oneof) {
		v = reflect.Zero(v.Type()) // nil where a message has to be
		t.Label("nil inside")
	}
	for i := depth - 1; i >= 0; i-- {
		m, f := lvl(i)
		o := reflect.New(s.tt[m].T)
		e := o.Elem()
		x := v
		if f.ByValue {
			x = v.Elem()
		}
		switch f.Shape {
		case sch.Oneof:
			w := reflect.New(s.tt[m].Wrap[f.Num])
			w.Elem().Field(0).Set(x)
			e.Field(s.tt[m].Oneofs[f.OneofIx]).Set(w)
		case sch.Repeated:
			fv := e.Field(s.tt[m].Fields[f.Num])
			fv.Set(reflect.Append(fv, x))
		case sch.Map:
			fv := e.Field(s.tt[m].Fields[f.Num])
			fv.Set(reflect.MakeMap(fv.Type()))
			fv.SetMapIndex(keys[f], x)
		default:
			e.Field(s.tt[m].Fields[f.Num]).Set(x)
		}
		v = o
	}
	// the wire, built backwards
	rev := make([]byte, 0, depth*8)
	push := func(b []byte) {
		for j := len(b) - 1; j >= 0; j-- {
			rev = append(rev, b[j])
		}
	}
	// a message in a struct by value is always there
	for _, f := range inner.Fields {
		if f.Msg != nil && f.ByValue && f.Shape != sch.Repeated && f.Shape != sch.Map {
			push(protowire.AppendBytes(protowire.AppendTag(nil, protowire.Number(f.Num), protowire.BytesType), nil))
		}
	}
	for i := depth - 1; i >= 0; i-- {
		_, f := lvl(i)
		n := len(rev)
		push(protowire.AppendVarint(nil, uint64(n)))
		if f.Shape == sch.Map {
			push(protowire.AppendTag(nil, 2, protowire.BytesType))
			push(wireKeys[f])
			push(protowire.AppendVarint(nil, uint64(len(rev)))) // all so far is inside the entry
		}
		push(protowire.AppendTag(nil, protowire.Number(f.Num), protowire.BytesType))
	}
	w := make([]byte, len(rev))
	for i := range rev {
		w[i] = rev[len(rev)-1-i]
	}
	var names []string
	for _, f := range pattern {
		names = append(names, fmt.Sprintf("%s:%d(%s)", f.Shape, f.Num, map[bool]string{true: "value", false: "pointer"}[f.ByValue]))
	}
	t.Logf("%s depth %d through %v", s.m.Name, depth, names)
	n, errS := prutal.Size(v.Interface())
	b, errM := prutal.Marshal(v.Interface())
	got := s.new()
	errU := prutal.Unmarshal(w, got.Interface())
	if (errM != nil) != (errS != nil) || (errM != nil) != (errU != nil) {
		t.Fatalf("%d nested messages: Marshal %v, Size %v, Unmarshal %v", depth, errM, errS, errU)
	}
	if depth <= 100 && errM != nil {
		t.Fatalf("%d nested messages: %v", depth, errM)
	}
	if depth >= 20000 && errM == nil {
		t.Fatalf("%d nested messages are accepted: nesting is not limited", depth)
	}
	if errM == nil {
		if n != len(b) {
			t.Fatalf("Size %d, Marshal %d bytes", n, len(b))
		}
		b2, err := prutal.Marshal(got.Interface())
		if err != nil || len(b2) != len(b) {
			t.Fatalf("re-encoding what was decoded: %d bytes, %v; want %d", len(b2), err, len(b))
		}
		if !bytes.Equal(b, b2) {
			t.Fatalf("re-encoding differs at %d", firstDiff(b, b2))
		}
	}
	t.LabelIf(errM != nil, "too deep")
	t.Key(fmt.Sprint(s.m.Name, depth, names))
	t.NonTrivial(depth > 2)
	t.Sample(func() string { return fmt.Sprintf("%s depth %d through %v: %v", s.m.Name, depth, names, errM) })
}

func mapKey(t *rt.T, tt sch.Types, f *sch.Field) (reflect.Value, []byte) {
	n := uint64(1 + t.Int(100))
	gt := f.GoFieldType(tt).Key()
	kv := reflect.New(gt).Elem()
	switch f.Key {
	case sch.StringK:
		kv.SetString("k")
		return kv, []byte{0x0a, 1, 'k'}
	case sch.BoolK:
		kv.SetBool(true)
		return kv, []byte{0x08, 1}
	case sch.I32K, sch.I64K:
		kv.SetInt(int64(n))
		return kv, []byte{0x08, byte(n)}
	case sch.U32K, sch.U64K:
		kv.SetUint(n)
		return kv, []byte{0x08, byte(n)}
	case sch.S32K, sch.S64K:
		kv.SetInt(int64(n))
		return kv, protowire.AppendVarint([]byte{0x08}, n*2)
	case sch.F32K, sch.SF32K:
		if f.Key == sch.F32K {
			kv.SetUint(n)
		} else {
			kv.SetInt(int64(n))
		}
		return kv, protowire.AppendFixed32([]byte{0x0d}, uint32(n))
	default:
		if f.Key == sch.F64K {
			kv.SetUint(n)
		} else {
			kv.SetInt(int64(n))
		}
		return kv, protowire.AppendFixed64([]byte{0x09}, n)
	}
}

// C10: a value that contains itself is an error, not a crash
func cycles(t *rt.T) {
	s := plain(rt.Pick(t, "Rec", "MutA", "Rec", "RecVal"))
	// a ring of k messages through drawn routes
	k := 1 + t.Int(4)
	ms := []*sch.Msg{s.m}
	if s.m.Name == "MutA" {
		b := plain("MutB").m
		ms = []*sch.Msg{s.m, b}
		k *= 2
	}
	node := make([]reflect.Value, k)
	for i := range node {
		node[i] = s.tt.New(ms[i%len(ms)])
	}
	var names []string
	for i := range node {
		m := ms[i%len(ms)]
		var rs []*sch.Field
		for _, f := range routes(m, ms[(i+1)%len(ms)]) {
			if !f.ByValue || f.Shape == sch.Repeated {
				rs = append(rs, f)
			}
		}
		if len(rs) == 0 {
			t.Skip()
		}
		f := rs[t.Int(len(rs))]
		names = append(names, fmt.Sprintf("%s:%d", f.Shape, f.Num))
		x := node[(i+1)%k]
		e := node[i].Elem()
		switch f.Shape {
		case sch.Oneof:
			w := reflect.New(s.tt[m].Wrap[f.Num])
			w.Elem().Field(0).Set(x)
			e.Field(s.tt[m].Oneofs[f.OneofIx]).Set(w)
		case sch.Repeated:
			fv := e.Field(s.tt[m].Fields[f.Num])
			if f.ByValue {
				// a slice whose element holds the slice itself
				sl := reflect.MakeSlice(fv.Type(), 1, 1)
				fv.Set(sl)
				sl.Index(0).Field(s.tt[f.Msg].Fields[f.Num]).Set(sl)
			} else {
				fv.Set(reflect.Append(fv, x))
			}
		case sch.Map:
			fv := e.Field(s.tt[m].Fields[f.Num])
			fv.Set(reflect.MakeMap(fv.Type()))
			kv, _ := mapKey(t, s.tt, f)
			fv.SetMapIndex(kv, x)
		default:
			e.Field(s.tt[m].Fields[f.Num]).Set(x)
		}
	}
	t.Logf("%s ring of %d through %v", s.m.Name, k, names)
	if _, err := prutal.Size(node[0].Interface()); err == nil {
		t.Fatalf("Size of a cyclic value reports no error")
	}
	if _, err := prutal.Marshal(node[0].Interface()); err == nil {
		t.Fatalf("Marshal of a cyclic value reports no error")
	}
	t.Key(fmt.Sprint(names))
	t.NonTrivial(true)
	t.Sample(func() string { return fmt.Sprintf("%s ring of %d through %v", s.m.Name, k, names) })
}

// C06: an input that ends inside the value of a scalar field leaves nothing that
// was not in the input
func cutValue(t *rt.T) {
	s := pickSchema(t, stdOpt)
	fds := s.m.Desc.Fields()
	var c []protoreflect.FieldDescriptor
	for i := 0; i < fds.Len(); i++ {
		if fd := fds.Get(i); !fd.IsMap() && fd.Message() == nil {
			c = append(c, fd)
		}
	}
	if len(c) == 0 {
		t.Skip()
	}
	head, _ := sch.GenWire(t, s.m.Desc, sch.WOpt{Budget: 10})
	fd := c[t.Int(len(c))]
	typ := sch.WireType(fd.Kind())
	var full, zero []byte
	switch typ {
	case protowire.VarintType:
		full, zero = protowire.AppendVarint(nil, 1<<63), []byte{0}
	case protowire.Fixed32Type:
		full, zero = []byte{1, 2, 3, 4}, make([]byte, 4)
	case protowire.Fixed64Type:
		full, zero = []byte{1, 2, 3, 4, 5, 6, 7, 8}, make([]byte, 8)
	default:
		full, zero = protowire.AppendBytes(nil, bytes.Repeat([]byte("x"), 1+t.Int(300))), []byte{0}
	}
	head = protowire.AppendTag(head, fd.Number(), typ)
	in := append(clone(head), full[:t.Int(len(full))]...)
	t.Logf("wire %s", hexs(in))
	v := s.new()
	if t.Idx%64 == 0 {
		runtime.GC() // the memory that comes next was in use (and is overwritten when freed)
	}
	if err := prutal.Unmarshal(in, v.Interface()); err == nil {
		t.Fatalf("Unmarshal of an input that ends inside a value: no error")
	}
	// with the value being absent, or zero
	tag := protowire.AppendTag(nil, fd.Number(), typ)
	var errs []error
	for _, w := range [][]byte{head[:len(head)-len(tag)], append(clone(head), zero...)} {
		x := s.new()
		if err := prutal.Unmarshal(w, x.Interface()); err != nil {
			t.Fatalf("Unmarshal of %s: %v", hexs(w), err)
		}
		err := s.tt.GoEqual(s.m, x.Elem(), v.Elem(), s.m.Name)
		if err == nil {
			errs = nil
			break
		}
		errs = append(errs, err)
	}
	if errs != nil {
		t.Fatalf("after an input that ends inside the value of field %d: %v", fd.Number(), errs)
	}
	t.LabelIf(fd.IsList(), "list")
	t.LabelIf(fd.ContainingOneof() != nil, "oneof")
	t.Key(in, s.m.Name)
	t.NonTrivial(true)
	t.Sample(func() string { return s.m.String() + " wire " + hexs(in) })
}
