package main

import (
	"bytes"
	"fmt"
	"reflect"
	"runtime"
	"sort"
	"unsafe"

	"github.com/cloudwego/prutal"
	"google.golang.org/protobuf/types/dynamicpb"

	"verif/rt"
	"verif/sch"
)

// region is memory that a value refers to.
type region struct {
	a, n   uintptr
	shared bool // immutable (string content): may be shared with other strings
	what   string
}

type walker struct {
	out  []region
	err  error
	seen map[uintptr]bool
}

func (w *walker) add(p unsafe.Pointer, n uintptr, shared bool, align int, what string) {
	if n == 0 {
		return
	}
	a := uintptr(p)
	if align > 1 && a%uintptr(align) != 0 && w.err == nil {
		w.err = fmt.Errorf("%s at %#x is not aligned to %d", what, a, align)
	}
	w.out = append(w.out, region{a, n, shared, what})
}

// walk collects the memory v refers to (not v's own memory).
func (w *walker) walk(v reflect.Value, path string) {
	switch v.Kind() {
	case reflect.String:
		s := v.String()
		w.add(unsafe.Pointer(unsafe.StringData(s)), uintptr(len(s)), true, 1, path)
	case reflect.Slice:
		if v.Cap() == 0 {
			return
		}
		et := v.Type().Elem()
		w.add(v.UnsafePointer(), uintptr(v.Cap())*et.Size(), false, et.Align(), path)
		if et.Kind() == reflect.Uint8 {
			return
		}
		for i := 0; i < v.Len(); i++ {
			w.walk(v.Index(i), fmt.Sprintf("%s[%d]", path, i))
		}
	case reflect.Pointer:
		if v.IsNil() {
			return
		}
		w.add(v.UnsafePointer(), v.Type().Elem().Size(), false, v.Type().Elem().Align(), path)
		w.walk(v.Elem(), "*"+path)
	case reflect.Map:
		for it := v.MapRange(); it.Next(); {
			w.walk(it.Key(), path+".key")
			w.walk(it.Value(), fmt.Sprintf("%s[%v]", path, it.Key()))
		}
	case reflect.Interface:
		if !v.IsNil() {
			w.walk(v.Elem(), path)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			f := v.Type().Field(i)
			if f.Name == "state" || f.Name == "sizeCache" || len(f.Name) > 6 && f.Name[:6] == "Canary" {
				continue
			}
			w.walk(v.Field(i), path+"."+f.Name)
		}
	}
}

// disjoint reports two regions that must not overlap but do.
func disjoint(rs []region) error {
	sort.Slice(rs, func(i, j int) bool { return rs[i].a < rs[j].a })
	// sweep, keeping the furthest end of mutable and of shared regions
	var mut, shr region
	for _, r := range rs {
		if mut.n > 0 && r.a < mut.a+mut.n {
			return fmt.Errorf("%s (%#x+%d) overlaps %s (%#x+%d)", r.what, r.a, r.n, mut.what, mut.a, mut.n)
		}
		if !r.shared && shr.n > 0 && r.a < shr.a+shr.n {
			return fmt.Errorf("%s (%#x+%d) overlaps %s (%#x+%d)", r.what, r.a, r.n, shr.what, shr.a, shr.n)
		}
		if r.shared {
			if r.a+r.n > shr.a+shr.n {
				shr = r
			}
		} else if r.a+r.n > mut.a+mut.n {
			mut = r
		}
	}
	return nil
}

// fillSpare overwrites the spare capacity of every slice.
func fillSpare(v reflect.Value) {
	switch v.Kind() {
	case reflect.Slice:
		n := v.Len()
		et := v.Type().Elem()
		if v.Cap() > n && !hasPointers(et) {
			p := unsafe.Add(v.UnsafePointer(), uintptr(n)*et.Size())
			b := unsafe.Slice((*byte)(p), uintptr(v.Cap()-n)*et.Size())
			for i := range b {
				b[i] = 0xee
			}
		}
		if et.Kind() != reflect.Uint8 {
			for i := 0; i < n; i++ {
				fillSpare(v.Index(i))
			}
		}
	case reflect.Pointer, reflect.Interface:
		if !v.IsNil() {
			fillSpare(v.Elem())
		}
	case reflect.Map:
		for it := v.MapRange(); it.Next(); {
			fillSpare(it.Value())
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if n := v.Type().Field(i).Name; n == "state" || n == "sizeCache" {
				continue
			}
			fillSpare(v.Field(i))
		}
	}
}

func hasPointers(t reflect.Type) bool {
	switch t.Kind() {
	case reflect.String, reflect.Slice, reflect.Map, reflect.Pointer, reflect.Interface, reflect.Chan, reflect.Func, reflect.UnsafePointer:
		return true
	case reflect.Array:
		return hasPointers(t.Elem())
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			if hasPointers(t.Field(i).Type) {
				return true
			}
		}
	}
	return false
}

type decoded struct {
	s    schema
	want *dynamicpb.Message
	v    reflect.Value
	in   []byte
	old  [][]byte // earlier inputs
}

// drawDecoded decodes a generated message, or several into the same target.
func drawDecoded(t *rt.T, s schema) decoded {
	d := decoded{s: s, want: dynamicpb.NewMessage(s.m.Desc), v: s.new()}
	for n := rt.Pick(t, 1, 1, 1, 1, 2, 3); n > 0; n-- {
		var b []byte
		switch {
		case len(d.in) > 0 && t.Int(3) == 0: // the same once more: keys of maps are there already
			b = bytes.Clone(d.in)
		case t.Int(3) > 0:
			b, _ = s.wire(t, sch.WOpt{Unknown: true, Mismatch: true})
		default:
			b = refEncode(sch.GenValue(t, s.m.Desc, sch.VOpt{Unknown: true, Big: true}))
		}
		d.want.SetUnknown(nil)
		if err := refMergeInto(d.want, b); err != nil {
			panic(fmt.Sprintf("harness: the reference rejects a valid encoding: %v", err))
		}
		if err := prutal.Unmarshal(b, d.v.Interface()); err != nil {
			t.Fatalf("Unmarshal of %s: %v", hexs(b), err)
		}
		if d.in != nil {
			d.old = append(d.old, d.in)
		}
		d.in = b
	}
	sch.Normalize(s.m, d.want)
	return d
}

// C07: what was decoded shares no memory with the input, with other values or
// between its own parts
func noAliasing(t *rt.T) {
	noAliasingOf(t, func(t *rt.T) schema { return pickSchema(t, stdOpt) })
}

func noAliasingOf(t *rt.T, pick func(t *rt.T) schema) {
	n := 1 + t.Int(4)
	var ds []decoded
	var rs []region
	total := 0
	var failed []reflect.Value
	for i := 0; i < n; i++ {
		s := pick(t)
		if t.Int(5) == 0 { // what a failing call left in its target counts as well
			b := refEncode(sch.GenValue(t, s.m.Desc, sch.VOpt{Unknown: true, Big: true}))
			b = append(b, rt.Pick(t, "\x0a\x7f", "\x07", "\x80", "\x00\x00")...)
			x := s.new()
			if err := prutal.Unmarshal(b, x.Interface()); err == nil {
				t.Fatalf("Unmarshal accepts %s", hexs(b))
			}
			w := &walker{}
			w.walk(x, fmt.Sprintf("value %d (failed) ", i))
			rs = append(rs, w.out...)
			failed = append(failed, x)
			t.Label("failed")
			continue
		}
		d := drawDecoded(t, s)
		ds = append(ds, d)
		total += len(d.in)
		w := &walker{}
		w.walk(d.v, fmt.Sprintf("value %d ", i))
		if w.err != nil {
			t.Fatalf("%v (wire %s)", w.err, hexs(d.in))
		}
		rs = append(rs, w.out...)
		for _, in := range append(d.old, d.in) {
			if cap(in) > 0 {
				rs = append(rs, region{uintptr(unsafe.Pointer(unsafe.SliceData(in))), uintptr(cap(in)), false, fmt.Sprintf("input %d", i)})
			}
		}
	}
	if err := disjoint(rs); err != nil {
		t.Fatalf("%v", err)
	}
	runtime.KeepAlive(failed)
	if len(ds) == 0 {
		t.Skip()
	}
	for i, d := range ds {
		for _, in := range append(d.old, d.in) {
			in = in[:cap(in)]
			for j := range in {
				in[j] ^= 0xff
			}
		}
		d.s.sameAs(t, fmt.Sprintf("value %d, after its input buffer was overwritten", i), d.want, d.v)
	}
	for _, d := range ds {
		fillSpare(d.v)
	}
	for i, d := range ds {
		d.s.sameAs(t, fmt.Sprintf("value %d, after the spare capacity of all slices was used", i), d.want, d.v)
	}
	runtime.KeepAlive(ds)
	t.LabelIf(n > 1, "several")
	t.Key(fmt.Sprint(total, len(rs)), fmt.Sprint(t.Choices[:min(len(t.Choices), 60)]))
	t.NonTrivial(len(rs) > n)
	t.Sample(func() string {
		return fmt.Sprintf("%d messages, %d bytes, %d memory regions, first %s", n, total, len(rs), text(ds[0].want))
	})
}

var gcSink [][]byte

// C07: what was decoded survives the garbage collector (the run sets
// GODEBUG=clobberfree=1, which overwrites memory as it is freed)
func survivesGC(t *rt.T) {
	n := 4 + t.Int(12)
	var ds []decoded
	total := 0
	for i := 0; i < n; i++ {
		var s schema
		if t.Int(8) == 0 {
			s = randSchema(t, stdOpt)
		} else if t.Int(5) == 0 {
			s = kindSchema(t)
		} else {
			loadFixtures()
			if t.Int(3) > 0 {
				s = schema{plainMs[t.Int(len(plainMs))], plainTT, "plain", nil}
			} else {
				s = schema{offMs[t.Int(len(offMs))], offTT, "official", nil}
			}
		}
		d := drawDecoded(t, s)
		total += len(d.in)
		d.in, d.old = nil, nil
		if t.Int(4) > 0 { // the others become garbage, next to what is kept
			ds = append(ds, d)
		}
	}
	runtime.GC()
	var junk [][]byte
	for _, sz := range []int{8, 16, 24, 32, 48, 64, 96, 128, 256, 512, 1024, 4096} {
		for j := 0; j < 4; j++ {
			b := make([]byte, sz)
			for k := range b {
				b[k] = 0xaa
			}
			junk = append(junk, b)
		}
	}
	runtime.GC()
	for i, d := range ds {
		d.s.sameAs(t, fmt.Sprintf("value %d after garbage collection", i), d.want, d.v)
	}
	runtime.KeepAlive(junk)
	t.Key(fmt.Sprint(total), fmt.Sprint(t.Choices[:min(len(t.Choices), 60)]))
	t.NonTrivial(total > 0)
	t.Sample(func() string { return fmt.Sprintf("%d messages kept of %d, %d bytes", len(ds), n, total) })
}

// snapshot copies all memory of a value.
func snapshot(v reflect.Value) map[uintptr][]byte {
	w := &walker{}
	w.walk(v, "")
	out := map[uintptr][]byte{}
	for _, r := range w.out {
		b := unsafe.Slice((*byte)(*(*unsafe.Pointer)(unsafe.Pointer(&r.a))), r.n)
		out[r.a] = append([]byte{}, b...)
	}
	return out
}

// C15: Marshal, Size and MarshalAppend leave the value alone, and repeat
func pureMarshal(t *rt.T) { pureMarshalOf(t, pickSchema(t, stdOpt)) }

func pureMarshalOf(t *rt.T, s schema) {
	ref, v := s.value(t, sch.VOpt{Unknown: true})
	before := snapshot(v)
	x := v.Interface()
	var outs [][]byte
	for i := 0; i < 3; i++ {
		switch t.Int(3) {
		case 0:
			outs = append(outs, mustMarshal(t, x))
		case 1:
			b, err := prutal.MarshalAppend(make([]byte, 0, t.Int(200)), x)
			if err != nil {
				t.Fatalf("MarshalAppend: %v", err)
			}
			outs = append(outs, b)
		case 2:
			n, err := prutal.Size(x)
			if err != nil {
				t.Fatalf("Size: %v", err)
			}
			b := mustMarshal(t, x)
			if n != len(b) {
				t.Fatalf("Size %d, Marshal %d bytes", n, len(b))
			}
			outs = append(outs, b)
		}
	}
	var keep [][]byte
	for _, b := range outs {
		keep = append(keep, clone(b))
	}
	after := snapshot(v)
	if len(before) != len(after) {
		t.Fatalf("the value refers to other memory after Marshal")
	}
	for a, b := range before {
		c, ok := after[a]
		if !ok || !bytes.Equal(b, c) {
			t.Fatalf("Marshal changed the memory of the value: %x -> %x", b, c)
		}
	}
	c0, err := canonical(s.m, outs[0])
	if err != nil {
		t.Fatalf("output: %v", err)
	}
	hasMap := false
	for _, m := range s.m.All() {
		for _, f := range m.Fields {
			hasMap = hasMap || f.Shape == sch.Map
		}
	}
	for _, b := range outs[1:] {
		c, err := canonical(s.m, b)
		if err != nil {
			t.Fatalf("output: %v", err)
		}
		if !bytes.Equal(c, c0) || (!hasMap && !bytes.Equal(b, outs[0])) {
			t.Fatalf("the same value is encoded as %s and as %s", hexs(outs[0]), hexs(b))
		}
	}
	// the results are independent of each other, of the value and of later calls
	var rs []region
	for i, b := range outs {
		if cap(b) > 0 {
			rs = append(rs, region{uintptr(unsafe.Pointer(unsafe.SliceData(b))), uintptr(cap(b)), false, fmt.Sprintf("output %d", i)})
		}
	}
	w := &walker{}
	w.walk(v, "value ")
	k := len(w.out)
	for i := range w.out {
		w.out[i].shared = true // a generated value may share memory within itself
	}
	if err := disjoint(append(rs, w.out[:k]...)); err != nil {
		t.Fatalf("%v", err)
	}
	// equal values have equal encodings
	v2 := s.new()
	s.tt.FromPB(nil, s.m, ref, v2.Elem())
	b2 := mustMarshal(t, v2.Interface())
	c2, err := canonical(s.m, b2)
	if err != nil {
		t.Fatalf("output: %v", err)
	}
	if !bytes.Equal(c2, c0) {
		t.Fatalf("equal values are encoded as %s and as %s", hexs(outs[0]), hexs(b2))
	}
	for i := range outs {
		if !bytes.Equal(keep[i], outs[i]) {
			t.Fatalf("a later call changed an earlier result")
		}
	}
	runtime.KeepAlive(v)
	t.LabelIf(!hasMap, "nomap")
	t.Key(outs[0], s.m.Name)
	t.NonTrivial(len(outs[0]) > 0)
	t.Sample(func() string { return s.m.String() + " wire " + hexs(outs[0]) })
}
