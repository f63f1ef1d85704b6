package sch

import (
	"google.golang.org/protobuf/encoding/protowire"
	"google.golang.org/protobuf/reflect/protoreflect"

	"verif/rt"
)

// WOpt steers GenWire.
type WOpt struct {
	Budget   int
	Unknown  bool // unknown records
	Mismatch bool // records whose wire type does not fit the known field
	Plain    bool // only what a straightforward encoder emits (any order)
	UTF8     bool // strings are valid UTF-8
	Records  int  // number of records of the message
	Many     int  // number of elements of the first packed list
	Long     int  // length of the first string or []byte
}

// WStats tells what an encoding contains.
type WStats struct {
	Records, Unknown, Mismatch, Merge, Chunks, Unpacked, OddEntry, EmptyChunk, Oneof int
}

type wgen struct {
	r  rt.Rnd
	o  WOpt
	n  int
	vg *vgen
	S  WStats

	keys map[protoreflect.FullName][][]byte // of map entries so far
}

// GenWire draws a valid encoding of md: any record order, repetition of singular
// fields, packed or unpacked lists in any number of chunks, map entries with
// missing, swapped, repeated or foreign records, overlong varints, unknown records.
func GenWire(r rt.Rnd, md protoreflect.MessageDescriptor, o WOpt) ([]byte, WStats) {
	if o.Budget == 0 {
		o.Budget = 40
	}
	g := &wgen{r: r, o: o}
	g.vg = &vgen{r: r, o: VOpt{Budget: 20, UTF8: o.UTF8, Many: o.Many, Long: o.Long}}
	b := g.msg(md, 0)
	return b, g.S
}

// WireType is the wire type of a scalar.
func WireType(k Kind) protowire.Type {
	switch wireWord(k) {
	case "fixed32":
		return protowire.Fixed32Type
	case "fixed64":
		return protowire.Fixed64Type
	case "bytes":
		return protowire.BytesType
	}
	return protowire.VarintType
}

func (g *wgen) scalarPayload(b []byte, k Kind) []byte {
	r := g.r
	switch WireType(k) {
	case protowire.Fixed32Type:
		v := g.vg.scalar(F32K).Uint()
		if k == FloatK {
			v = uint64(floatBits(g.vg.scalar(FloatK)))
		}
		return protowire.AppendFixed32(b, uint32(v))
	case protowire.Fixed64Type:
		v := g.vg.scalar(F64K).Uint()
		if k == DoubleK {
			v = doubleBits(g.vg.scalar(DoubleK))
		}
		return protowire.AppendFixed64(b, v)
	case protowire.BytesType:
		var p []byte
		if k == StringK {
			p = g.vg.str()
		} else {
			p = rt.Bytes(r, g.vg.len())
		}
		b = Varint(r, b, uint64(len(p)))
		return append(b, p...)
	}
	v := Int(r)
	if k == BoolK && r.Int(4) != 0 {
		v = uint64(r.Int(2))
	}
	return Varint(r, b, v)
}

func (g *wgen) msg(md protoreflect.MessageDescriptor, depth int) []byte {
	r := g.r
	var b []byte
	fds := md.Fields()
	n := r.Int(9)
	if g.n > g.o.Budget {
		n = r.Int(2)
	}
	if depth == 0 && g.o.Records > 0 {
		n = g.o.Records
	}
	last := -1
	for i := 0; i < n; i++ {
		g.n++
		g.S.Records++
		w := []int{fds.Len() * 3, 0, 0}
		if g.o.Unknown {
			w[1] = 2
		}
		if g.o.Mismatch {
			w[2] = 2
		}
		if fds.Len() == 0 {
			w = []int{0, 1, 0}
			if !g.o.Unknown {
				break
			}
		}
		switch rt.Weighted(r, w...) {
		case 1:
			g.S.Unknown++
			b = append(b, UnknownRecord(r, unusedNum(r, md), 2)...)
			continue
		case 2:
			fd := fds.Get(r.Int(fds.Len()))
			rec := UnknownRecord(r, fd.Number(), 1)
			_, typ, _ := protowire.ConsumeTag(rec)
			if fits(fd, typ) {
				continue
			}
			g.S.Mismatch++
			b = append(b, rec...)
			continue
		}
		fi := r.Int(fds.Len())
		if last >= 0 && rt.Chance(r, 35) { // runs of one field
			fi = last
		}
		if fi == last {
			if fd := fds.Get(fi); !fd.IsList() && !fd.IsMap() && fd.Message() != nil {
				g.S.Merge++
			}
		}
		last = fi
		fd := fds.Get(fi)
		if fd.ContainingOneof() != nil {
			g.S.Oneof++
		}
		b = g.field(b, fd, depth)
	}
	return b
}

func fits(fd protoreflect.FieldDescriptor, typ protowire.Type) bool {
	if fd.IsMap() || fd.Message() != nil {
		return typ == protowire.BytesType
	}
	wt := WireType(fd.Kind())
	return typ == wt || (fd.IsList() && typ == protowire.BytesType)
}

func (g *wgen) lenPrefixed(b []byte, num protowire.Number, p []byte) []byte {
	b = Tag(g.r, b, num, protowire.BytesType)
	b = Varint(g.r, b, uint64(len(p)))
	return append(b, p...)
}

func (g *wgen) field(b []byte, fd protoreflect.FieldDescriptor, depth int) []byte {
	r := g.r
	num := fd.Number()
	if fd.IsMap() {
		return g.lenPrefixed(b, num, g.entry(fd, depth))
	}
	if fd.Message() != nil {
		if depth > 8 {
			return g.lenPrefixed(b, num, nil)
		}
		return g.lenPrefixed(b, num, g.msg(fd.Message(), depth+1))
	}
	k := fd.Kind()
	if fd.IsList() && WireType(k) != protowire.BytesType {
		packed := fd.IsPacked()
		if !g.o.Plain {
			packed = r.Int(2) == 1
		}
		if packed != fd.IsPacked() {
			g.S.Unpacked++
		}
		if packed {
			g.S.Chunks++
			many := g.vg.many()
			n := g.vg.count()
			if n == 0 {
				g.S.EmptyChunk++
			}
			var p []byte
			for i := 0; i < n; i++ {
				if i > 24 && !many {
					p = append(p, p[:wireElemLen(p, k)]...)
					continue
				}
				p = g.scalarPayload(p, k)
			}
			return g.lenPrefixed(b, num, p)
		}
	}
	b = Tag(r, b, num, WireType(k))
	return g.scalarPayload(b, k)
}

func wireElemLen(p []byte, k Kind) int {
	switch WireType(k) {
	case protowire.Fixed32Type:
		return 4
	case protowire.Fixed64Type:
		return 8
	}
	_, n := protowire.ConsumeVarint(p)
	return n
}

func (g *wgen) entry(fd protoreflect.FieldDescriptor, depth int) []byte {
	r := g.r
	key := func(b []byte) []byte {
		b = Tag(r, b, 1, WireType(fd.MapKey().Kind()))
		old := g.keys[fd.FullName()]
		if len(old) > 0 && rt.Chance(r, 25) { // a key that was there before
			return append(b, old[r.Int(len(old))]...)
		}
		n := len(b)
		b = g.scalarPayload(b, fd.MapKey().Kind())
		if g.keys == nil {
			g.keys = map[protoreflect.FullName][][]byte{}
		}
		if len(old) < 8 {
			g.keys[fd.FullName()] = append(old, append([]byte(nil), b[n:]...))
		}
		return b
	}
	val := func(b []byte) []byte {
		v := fd.MapValue()
		if v.Message() != nil {
			if depth > 8 {
				return g.lenPrefixed(b, 2, nil)
			}
			return g.lenPrefixed(b, 2, g.msg(v.Message(), depth+1))
		}
		b = Tag(r, b, 2, WireType(v.Kind()))
		return g.scalarPayload(b, v.Kind())
	}
	if g.o.Plain || r.Int(5) < 3 {
		return val(key(nil))
	}
	g.S.OddEntry++
	var b []byte
	for i := r.Int(5); i > 0; i-- {
		switch rt.Weighted(r, 4, 4, 1, 1) {
		case 0:
			b = key(b)
		case 1:
			b = val(b)
		case 2:
			b = append(b, UnknownRecord(r, protowire.Number(3+r.Int(40)), 1)...)
		case 3:
			num := protowire.Number(1 + r.Int(2))
			rec := UnknownRecord(r, num, 1)
			_, typ, _ := protowire.ConsumeTag(rec)
			kk := fd.MapKey()
			if num == 2 {
				kk = fd.MapValue()
			}
			if fits(kk, typ) {
				continue
			}
			b = append(b, rec...)
		}
	}
	return b
}

// RefForm rewrites a valid encoding for the reference decoder: records of map
// entries that carry neither the key nor the value (by number and wire type) are
// dropped. They mean nothing, but dynamicpb panics on some of them (a key whose
// wire type does not fit, after one that fits).
func RefForm(md protoreflect.MessageDescriptor, b []byte) []byte {
	out := make([]byte, 0, len(b))
	for len(b) > 0 {
		num, typ, n := protowire.ConsumeTag(b)
		m := -1
		if n >= 0 {
			m = protowire.ConsumeFieldValue(num, typ, b[n:])
		}
		if m < 0 {
			return append(out, b...) // malformed: as is
		}
		rec := b[:n+m]
		val := rec[n:]
		b = b[n+m:]
		fd := md.Fields().ByNumber(num)
		if fd == nil || fd.Message() == nil || typ != protowire.BytesType {
			out = append(out, rec...)
			continue
		}
		p, _ := protowire.ConsumeBytes(val)
		if fd.IsMap() {
			p = refEntry(fd, p)
		} else {
			p = RefForm(fd.Message(), p)
		}
		out = protowire.AppendTag(out, num, typ)
		out = protowire.AppendBytes(out, p)
	}
	return out
}

func refEntry(fd protoreflect.FieldDescriptor, b []byte) []byte {
	out := make([]byte, 0, len(b))
	for len(b) > 0 {
		num, typ, n := protowire.ConsumeTag(b)
		m := -1
		if n >= 0 {
			m = protowire.ConsumeFieldValue(num, typ, b[n:])
		}
		if m < 0 {
			return append(out, b...)
		}
		rec := b[:n+m]
		val := rec[n:]
		b = b[n+m:]
		switch {
		case num > protowire.MaxValidNumber:
			out = append(out, rec...) // keep: the reference rejects it
		case num == 1 && fits(fd.MapKey(), typ):
			out = append(out, rec...)
		case num == 2 && fits(fd.MapValue(), typ):
			if fd.MapValue().Message() != nil {
				p, _ := protowire.ConsumeBytes(val)
				out = protowire.AppendTag(out, num, typ)
				out = protowire.AppendBytes(out, RefForm(fd.MapValue().Message(), p))
			} else {
				out = append(out, rec...)
			}
		}
	}
	return out
}
