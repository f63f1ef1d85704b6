package main

import (
	"bytes"
	"fmt"
	"reflect"
	"runtime"
	"strings"

	"github.com/cloudwego/prutal"
	"github.com/cloudwego/prutal/pkg/grpccodec"
	"google.golang.org/protobuf/encoding/protowire"
	"google.golang.org/protobuf/types/dynamicpb"

	"verif/rt"
	"verif/sch"
)

// slot is a message of the program and what it must mean.
type slot struct {
	s   schema
	ref *dynamicpb.Message
	v   reflect.Value
}

func (x *slot) clear() {
	x.ref, x.v = dynamicpb.NewMessage(x.s.m.Desc), x.s.new()
	sch.Normalize(x.s.m, x.ref)
}

// C17: what a call does depends on its arguments only, whatever was called
// before, on which messages and types, and whether it failed.
func history(t *rt.T) {
	var ss []schema
	for n := 1 + t.Int(3); n > 0; n-- {
		switch t.Int(4) {
		case 0:
			ss = append(ss, plain(rt.Pick(t, "Rec", "MutA", "RecVal")))
		case 1:
			ss = append(ss, kindSchema(t))
		default:
			ss = append(ss, pickSchema(t, stdOpt))
		}
	}
	slots := make([]*slot, 2+t.Int(3))
	for i := range slots {
		slots[i] = &slot{s: ss[t.Int(len(ss))]}
		slots[i].clear()
	}
	var hist []string
	t.LogLazy(func() string { return strings.Join(hist, "\n") })
	log := func(f string, a ...any) { hist = append(hist, fmt.Sprintf(f, a...)) }
	var kept []keptBytes // all outputs
	failed, worked := 0, 0
	var c grpccodec.PrutalCodec
	unmarshal := func(b []byte, x any) error {
		if t.Int(5) == 0 {
			return c.Unmarshal(b, x)
		}
		return prutal.Unmarshal(b, x)
	}
	encoding := func(i int) []byte {
		x := slots[i]
		var out []byte
		var err error
		how := ""
		switch t.Int(5) {
		case 0:
			how = "codec.Marshal"
			out, err = c.Marshal(x.v.Interface())
		case 1:
			how = "MarshalAppend to spare capacity"
			out, err = prutal.MarshalAppend(make([]byte, 0, t.Int(300)), x.v.Interface())
		default:
			how = "Marshal"
			out, err = prutal.Marshal(x.v.Interface())
		}
		log("%s of message %d: %s", how, i, hexs(out))
		if err != nil {
			t.Fatalf("%s of message %d: %v", how, i, err)
		}
		kept = append(kept, keptBytes{out, clone(out)})
		got, err := refDecode(x.s.m.Desc, out)
		if err != nil {
			t.Fatalf("%s of message %d: the official decoder rejects %s: %v", how, i, hexs(out), err)
		}
		sch.Normalize(x.s.m, got)
		if !sch.Equal(got, x.ref) {
			t.Fatalf("%s of message %d gives %s\nwhich means %s\nwant        %s", how, i, hexs(out), text(got), text(x.ref))
		}
		worked++
		return out
	}
	decode := func(i int, b []byte) {
		x := slots[i]
		in := clone(b)
		log("Unmarshal of %s into message %d", hexs(b), i)
		if err := unmarshal(in, x.v.Interface()); err != nil {
			t.Fatalf("Unmarshal of a valid encoding into message %d: %v", i, err)
		}
		for k := range in { // the caller uses its buffer again
			in[k] ^= 0xa5
		}
		x.ref.SetUnknown(nil)
		if err := refMergeInto(x.ref, b); err != nil {
			panic("harness: " + err.Error())
		}
		sch.Normalize(x.s.m, x.ref)
		x.s.sameAs(t, fmt.Sprintf("message %d", i), x.ref, x.v)
		worked++
	}
	for n := 3 + t.Int(rt.Pick(t, 8, 25)); n > 0; n-- {
		i := t.Int(len(slots))
		x := slots[i]
		switch rt.Weighted(t, 20, 12, 25, 6, 6, 5, 6, 8, 1) {
		case 0: // a valid encoding
			b, _ := sch.GenWire(t, x.s.m.Desc, sch.WOpt{Unknown: true, Mismatch: true, Budget: 12})
			decode(i, b)
		case 1: // a damaged one, into the message or a new one
			b, _ := sch.GenWire(t, x.s.m.Desc, sch.WOpt{Unknown: true, Mismatch: true, Budget: 12})
			for k := t.Int(2); k >= 0; k-- {
				b = mutate(t, b, 0)
			}
			want, refErr, bad := refTry(x.s.m.Desc, b)
			if bad {
				continue
			}
			if refErr == nil || t.Int(2) == 0 {
				x.clear()
			}
			in := clone(b)
			err := unmarshal(in, x.v.Interface())
			log("Unmarshal of damaged %s into message %d: %v", hexs(b), i, err)
			for k := range in {
				in[k] ^= 0xa5
			}
			if (err != nil) != (refErr != nil) {
				t.Fatalf("Unmarshal of %s: error %v; the official decoder: %v", hexs(b), err, refErr)
			}
			if err == nil {
				sch.Normalize(x.s.m, want)
				x.ref = want
				x.s.sameAs(t, fmt.Sprintf("message %d", i), x.ref, x.v)
				worked++
			} else {
				failed++
				x.clear()
			}
		case 2:
			encoding(i)
		case 3:
			k, err := prutal.Size(x.v.Interface())
			log("Size of message %d: %d", i, k)
			b := mustMarshal(t, x.v.Interface())
			if err != nil || k != len(b) {
				t.Fatalf("Size of message %d is %d, %v; its encoding has %d bytes", i, k, err, len(b))
			}
		case 4: // a new value
			x.ref, x.v = x.s.value(t, sch.VOpt{Unknown: true, Budget: 15})
			log("message %d is %s", i, text(x.ref))
		case 5: // a value that cannot be encoded, an input that is too deep
			r := plain("Rec")
			var rs []*sch.Field
			for _, f := range routes(r.m, r.m) {
				if !f.ByValue {
					rs = append(rs, f)
				}
			}
			f := rs[t.Int(len(rs))]
			if t.Int(2) == 0 {
				_, v := r.value(t, sch.VOpt{Unknown: true, Budget: 8})
				if f.Shape == sch.Repeated && v.Elem().Field(r.tt[r.m].Fields[f.Num]).Len() > 0 {
					continue // several of them: no end
				}
				attach(t, r, r.m, f, v, v)
				var err error
				switch t.Int(3) {
				case 0:
					_, err = prutal.Size(v.Interface())
				case 1:
					_, err = prutal.MarshalAppend(make([]byte, 3, 64), v.Interface())
				default:
					_, err = prutal.Marshal(v.Interface())
				}
				log("encoding a %s that contains itself (field %d): %v", r.m.Name, f.Num, err)
				if err == nil {
					t.Fatalf("a %s that contains itself is encoded", r.m.Name)
				}
			} else {
				depth := rt.Pick(t, 3, 20, 100, 300, 1000, 9000, 12000)
				nums := []protowire.Number{protowire.Number(f.Num)}
				if f.Shape == sch.Map {
					depth = min(depth, 1000)
					nums = append(nums, 2)
				}
				// from the inside; what is innermost is cut
				tail := protowire.AppendTag(nil, protowire.Number(f.Num), protowire.BytesType)
				lens := []int{len(tail)}
				for k := 1; k < depth*len(nums); k++ {
					n := nums[len(nums)-1-(k-1)%len(nums)]
					l := lens[k-1]
					lens = append(lens, protowire.SizeTag(n)+protowire.SizeBytes(l))
				}
				var b []byte
				for k := len(lens) - 1; k >= 0; k-- {
					b = protowire.AppendTag(b, nums[len(nums)-1-k%len(nums)], protowire.BytesType)
					b = protowire.AppendVarint(b, uint64(lens[k]))
				}
				b = append(b, tail...)
				err := unmarshal(b, r.new().Interface())
				log("decoding %d levels of %s (field %d), the last one is cut: %v", depth, r.m.Name, f.Num, err)
				if err == nil {
					t.Fatalf("a deep %s that is cut is decoded", r.m.Name)
				}
			}
			failed++
		case 6: // no message
			y := badArgument(t)
			_, e1 := prutal.Marshal(y)
			e2 := unmarshal(rt.Bytes(t, t.Int(4)), y)
			log("Marshal and Unmarshal of %T: %v, %v", y, e1, e2)
			if e1 == nil || e2 == nil {
				t.Fatalf("Marshal and Unmarshal of %T: %v, %v", y, e1, e2)
			}
			failed++
		case 7: // from one message to another one
			j := t.Int(len(slots))
			if i == j || slots[j].s.m != x.s.m {
				continue
			}
			decode(j, encoding(i))
		case 8:
			log("garbage collection")
			runtime.GC()
		}
	}
	for i, x := range slots {
		x.s.sameAs(t, fmt.Sprintf("message %d at the end", i), x.ref, x.v)
		encoding(i)
	}
	for i, k := range kept {
		if !bytes.Equal(k.b, k.was) {
			t.Fatalf("output %d (%s) changed later to %s", i, hexs(k.was), hexs(k.b))
		}
	}
	t.Key(strings.Join(hist, "\n"))
	t.LabelIf(failed > 0, "with failing calls")
	t.NonTrivial(failed > 0 && worked > len(slots))
	t.Sample(func() string { return strings.Join(hist, "; ") })
}
