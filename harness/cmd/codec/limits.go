package main

import (
	"bytes"
	"fmt"
	"reflect"

	"github.com/cloudwego/prutal"
	"google.golang.org/protobuf/encoding/protowire"

	"verif/rt"
	"verif/sch"
)

// C10: unknown groups inside each other end in a verdict
func nestedGroups(t *rt.T) {
	s := pickSchema(t, stdOpt)
	depth := rt.Pick(t, 1, 2, 50, 100, 999, 1000, 1001, 9990, 9999, 10000, 10001, 10010, 20000, 100000, t.Int(12000))
	if t.Int(200) == 0 {
		depth = 5000000
	}
	// group numbers no field of the schema has
	var nums []protowire.Number
	for len(nums) < 1+t.Int(3) {
		n := protowire.Number(1 + t.Int(200000))
		if s.m.Desc.Fields().ByNumber(n) == nil {
			nums = append(nums, n)
		}
	}
	var b []byte
	for i := 0; i < depth; i++ {
		b = protowire.AppendTag(b, nums[i%len(nums)], protowire.StartGroupType)
	}
	closed := depth
	bad := t.Int(4) == 0
	if bad {
		closed = t.Int(depth)
	}
	for i := depth - 1; i >= depth-closed; i-- {
		b = protowire.AppendTag(b, nums[i%len(nums)], protowire.EndGroupType)
	}
	v := s.new()
	err := prutal.Unmarshal(b, v.Interface())
	t.Logf("%d groups, %d of them closed, numbers %v: %v", depth, closed, nums, err)
	if bad && err == nil {
		t.Fatalf("%d groups are not closed, but no error is reported", depth-closed)
	}
	if !bad && depth <= 100 && err != nil {
		t.Fatalf("%d nested unknown groups: %v", depth, err)
	}
	if err == nil {
		out, err := prutal.Marshal(v.Interface())
		if err != nil {
			t.Fatalf("Marshal: %v", err)
		}
		want := 0
		if s.m.Unknown != sch.UnkNone {
			want = len(b)
		}
		if base := mustMarshal(t, s.new().Interface()); len(out) != want+len(base) {
			t.Fatalf("%d bytes of unknown groups are encoded as %d", want, len(out)-len(base))
		}
		if n, err := prutal.Size(v.Interface()); err != nil || n != len(out) {
			t.Fatalf("Size %d, %v; Marshal %d bytes", n, err, len(out))
		}
	}
	t.LabelIf(err != nil && !bad, "too deep")
	t.Key(fmt.Sprint(s.m.Name, depth, nums, closed))
	t.NonTrivial(depth > 2)
	t.Sample(func() string { return fmt.Sprintf("%d groups, %d closed: %v", depth, closed, err) })
}

// C05: where encoding fails, the destination is as before
func appendFails(t *rt.T) {
	loadFixtures()
	s := plain(rt.Pick(t, "Rec", "Rec", "MutA"))
	_, v := s.value(t, sch.VOpt{Unknown: true, Budget: 20})
	// a part that is too deep, or contains itself
	m := s.m
	next := m
	if m.Name == "MutA" {
		next = plain("MutB").m
	}
	var rs []*sch.Field
	for _, f := range routes(m, next) {
		if !f.ByValue {
			rs = append(rs, f)
		}
	}
	f := rs[t.Int(len(rs))]
	var bad reflect.Value
	if m == next && t.Int(2) == 0 {
		bad = v
	} else {
		bad = s.tt.New(next)
		x, y := bad, v
		g := routes(next, m)[0]
		for _, r := range routes(next, m) {
			if !r.ByValue {
				g = r
			}
		}
		attach(t, s, next, g, x, y)
	}
	attach(t, s, m, f, v, bad)
	front, prefix := rt.Bytes(t, t.Int(8)), rt.Bytes(t, t.Int(24))
	room := rt.Pick(t, 0, 1, 7, 64, 4096, 1<<20)
	buf := make([]byte, len(front)+len(prefix), len(front)+len(prefix)+room)
	copy(buf, front)
	copy(buf[len(front):], prefix)
	t.Logf("%s through %s:%d, front %d prefix %d room %d", m.Name, f.Shape, f.Num, len(front), len(prefix), room)
	out, err := prutal.MarshalAppend(buf[len(front):], v.Interface())
	if err == nil {
		t.Fatalf("encoding a value that contains itself gives %d bytes and no error", len(out))
	}
	if !bytes.Equal(buf[:len(front)], front) || !bytes.Equal(buf[len(front):], prefix) {
		t.Fatalf("after the error %v, the destination is %s, it was %s", err, hexs(buf), hexs(append(front, prefix...)))
	}
	// and the encoder works as before
	_, v2 := s.value(t, sch.VOpt{Unknown: true, Budget: 10})
	n, err := prutal.Size(v2.Interface())
	out, err2 := prutal.MarshalAppend(buf[len(front):], v2.Interface())
	if err != nil || err2 != nil || len(out) != len(prefix)+n || !bytes.Equal(out[:len(prefix)], prefix) {
		t.Fatalf("after an error: Size %d, %v; %d bytes behind the prefix, %v", n, err, len(out)-len(prefix), err2)
	}
	t.Key(m.Name, fmt.Sprint(f.Num, front, prefix, room))
	t.NonTrivial(len(prefix) > 0)
	t.Sample(func() string {
		return fmt.Sprintf("%s through %s:%d, prefix %x room %d", m.Name, f.Shape, f.Num, prefix, room)
	})
}

// attach puts message x into field f of the message to.
func attach(t *rt.T, s schema, m *sch.Msg, f *sch.Field, to, x reflect.Value) {
	e := to.Elem()
	switch f.Shape {
	case sch.Oneof:
		w := reflect.New(s.tt[m].Wrap[f.Num])
		w.Elem().Field(0).Set(x)
		e.Field(s.tt[m].Oneofs[f.OneofIx]).Set(w)
	case sch.Repeated:
		fv := e.Field(s.tt[m].Fields[f.Num])
		fv.Set(reflect.Append(fv, x))
	case sch.Map:
		fv := e.Field(s.tt[m].Fields[f.Num])
		if fv.IsNil() {
			fv.Set(reflect.MakeMap(fv.Type()))
		}
		k, _ := mapKey(t, s.tt, f)
		fv.SetMapIndex(k, x)
	default:
		e.Field(s.tt[m].Fields[f.Num]).Set(x)
	}
}
