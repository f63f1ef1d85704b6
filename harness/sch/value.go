package sch

import (
	"math"
	"unicode/utf8"

	"google.golang.org/protobuf/encoding/protowire"
	"google.golang.org/protobuf/reflect/protoreflect"
	"google.golang.org/protobuf/types/dynamicpb"

	"verif/rt"
)

// VOpt steers GenValue.
type VOpt struct {
	Unknown bool // random unknown fields
	Budget  int  // rough number of elements
	Big     bool // allow long strings (length-prefix boundaries)
	UTF8    bool // strings are valid UTF-8
	Many    int  // number of elements of the first list or map
	Long    int  // length of the first string or []byte
	Tail    int  // number of unknown records of the message
	All     bool // most fields are set
}

type vgen struct {
	r rt.Rnd
	o VOpt
	n int
}

// GenValue draws a message of the given descriptor.
func GenValue(r rt.Rnd, md protoreflect.MessageDescriptor, o VOpt) *dynamicpb.Message {
	if o.Budget == 0 {
		o.Budget = 60
	}
	g := &vgen{r: r, o: o}
	return g.msg(md, 0)
}

// Int draws an integer whose magnitude covers all varint lengths and the
// boundaries between them.
func Int(r rt.Rnd) uint64 {
	switch r.Int(6) {
	case 0:
		return uint64(r.Int(4))
	case 1:
		return uint64(r.Int(300))
	case 2: // around a 7-bit boundary
		k := uint(r.Int(10)) * 7
		v := uint64(1)<<k - uint64(r.Int(2))
		return v
	case 3: // around 2^31, 2^32, 2^63
		return rt.Pick(r, uint64(1)<<31, 1<<31-1, 1<<32, 1<<32-1, 1<<63, 1<<63-1, math.MaxUint64, math.MaxUint64-1)
	case 4: // small negative
		return uint64(-int64(1 + r.Int(200)))
	}
	return r.U64() >> uint(r.Int(64))
}

var floats = []float64{0, math.Copysign(0, -1), 1, -1, 0.5, math.MaxFloat64, math.SmallestNonzeroFloat64, math.Inf(1), math.Inf(-1), math.NaN(), 1e-40}
var floats32 = []float32{0, float32(math.Copysign(0, -1)), 1, -1, 0.5, math.MaxFloat32, math.SmallestNonzeroFloat32, float32(math.Inf(1)), float32(math.Inf(-1)), float32(math.NaN()), 1e-40}

func (g *vgen) len() int {
	r := g.r
	if n := g.o.Long; n > 0 {
		g.o.Long = 0
		return n
	}
	switch rt.Weighted(r, 3, 10, 5, 2, 1) {
	case 0:
		return 0
	case 1:
		return 1 + r.Int(12)
	case 2:
		return r.Int(60)
	case 3:
		g.n += 5
		return 120 + r.Int(16) // one/two byte length boundary
	default:
		if g.o.Big && g.n < 40 {
			g.n += 30
			return rt.Pick(r, 16383-r.Int(12), 16384+r.Int(4), 4096, 5000, 2048, 1024)
		}
		return r.Int(300)
	}
}

func (g *vgen) scalar(k Kind) protoreflect.Value {
	r := g.r
	switch k {
	case BoolK:
		return protoreflect.ValueOfBool(r.Int(2) == 1)
	case EnumK:
		return protoreflect.ValueOfEnum(protoreflect.EnumNumber(int32(Int(r))))
	case I32K, S32K, SF32K:
		return protoreflect.ValueOfInt32(int32(Int(r)))
	case U32K, F32K:
		return protoreflect.ValueOfUint32(uint32(Int(r)))
	case I64K, S64K, SF64K:
		return protoreflect.ValueOfInt64(int64(Int(r)))
	case U64K, F64K:
		return protoreflect.ValueOfUint64(Int(r))
	case FloatK:
		if r.Int(2) == 0 {
			return protoreflect.ValueOfFloat32(floats32[r.Int(len(floats32))])
		}
		return protoreflect.ValueOfFloat32(math.Float32frombits(uint32(r.U64())&^0x7f800000 | uint32(r.Int(255))<<23))
	case DoubleK:
		if r.Int(2) == 0 {
			return protoreflect.ValueOfFloat64(floats[r.Int(len(floats))])
		}
		return protoreflect.ValueOfFloat64(math.Float64frombits(r.U64()))
	case StringK:
		return protoreflect.ValueOfString(string(g.str()))
	case BytesK:
		return protoreflect.ValueOfBytes(rt.Bytes(r, g.len()))
	}
	panic("harness: scalar " + k.String())
}

// spread draws a map key of all the range of its kind.
func (g *vgen) spread(k Kind) protoreflect.Value {
	r := g.r
	switch k {
	case I32K, S32K, SF32K:
		return protoreflect.ValueOfInt32(int32(r.U64()))
	case U32K, F32K:
		return protoreflect.ValueOfUint32(uint32(r.U64()))
	case I64K, S64K, SF64K:
		return protoreflect.ValueOfInt64(int64(r.U64()))
	case U64K, F64K:
		return protoreflect.ValueOfUint64(r.U64())
	case StringK:
		return protoreflect.ValueOfString(string(rt.Bytes(r, 8)))
	}
	return g.scalar(k)
}

func (g *vgen) str() []byte {
	b := rt.Bytes(g.r, g.len())
	if g.o.UTF8 {
		var u []byte
		for _, c := range b { // any length in bytes, some longer runes
			if c < 0x80 {
				u = append(u, c)
			} else if len(b)-len(u) >= 2 && len(u)+2 <= len(b) {
				u = utf8.AppendRune(u, rune(0x80+int(c)))
			}
		}
		for len(u) < len(b) {
			u = append(u, 'z')
		}
		b = u
	}
	return b
}

// many tells that the list or map that count was asked about is large.
func (g *vgen) many() bool { return g.o.Many > 0 }

func (g *vgen) count() int {
	r := g.r
	if n := g.o.Many; n > 0 {
		g.o.Many = 0
		return n
	}
	if g.n > g.o.Budget {
		return r.Int(2)
	}
	switch rt.Weighted(r, 8, 4, 1) {
	case 0:
		return 1 + r.Int(4)
	case 1:
		return r.Int(20)
	default:
		return 60 + r.Int(80)
	}
}

func (g *vgen) msg(md protoreflect.MessageDescriptor, depth int) *dynamicpb.Message {
	r := g.r
	m := dynamicpb.NewMessage(md)
	fds := md.Fields()
	pct := 65
	if g.o.All && depth == 0 {
		pct = 95
	} else if g.n > g.o.Budget {
		pct = 15
	}
	for i := 0; i < fds.Len(); i++ {
		fd := fds.Get(i)
		if !rt.Chance(r, pct) {
			continue
		}
		if fd.Message() != nil && (depth > 12 || (depth > 3 && !rt.Chance(r, 40))) {
			continue
		}
		g.n++
		one := func(fd protoreflect.FieldDescriptor) protoreflect.Value {
			if fd.Message() != nil {
				return protoreflect.ValueOfMessage(g.msg(fd.Message(), depth+1))
			}
			return g.scalar(fd.Kind())
		}
		switch {
		case fd.IsMap():
			many := g.many()
			n := g.count()
			if fd.MapKey().Kind() == BoolK && n > 2 {
				n = 2
			}
			if fd.MapValue().Message() != nil && n > 6 && !many {
				n = 6
			}
			mm := m.Mutable(fd).Map()
			for j := 0; j < n; j++ {
				g.n++
				k := g.scalar(fd.MapKey().Kind()).MapKey()
				for i := 0; i < 3 && many && mm.Has(k); i++ {
					k = g.spread(fd.MapKey().Kind()).MapKey()
				}
				mm.Set(k, one(fd.MapValue()))
			}
			if mm.Len() == 0 {
				m.Clear(fd)
			}
		case fd.IsList():
			many := g.many()
			n := g.count()
			if fd.Message() != nil && n > 8 && !many {
				n = 8
			}
			l := m.Mutable(fd).List()
			for j := 0; j < n; j++ {
				g.n++
				if j > 24 && !many && fd.Message() == nil && fd.Kind() != StringK && fd.Kind() != BytesK {
					l.Append(l.Get(j % 20))
					continue
				}
				l.Append(one(fd))
			}
			if l.Len() == 0 {
				m.Clear(fd)
			}
		default:
			v := one(fd)
			m.Set(fd, v)
		}
	}
	if n := g.o.Tail; n > 0 {
		g.o.Tail = 0
		m.SetUnknown(UnknownRecords(r, md, n))
	} else if g.o.Unknown && rt.Chance(r, 30) {
		m.SetUnknown(UnknownRecords(r, md, 1+r.Int(3)))
	}
	return m
}

// UnknownRecords draws n well-formed records whose numbers are not fields of md.
func UnknownRecords(r rt.Rnd, md protoreflect.MessageDescriptor, n int) []byte {
	var b []byte
	for i := 0; i < n; i++ {
		num := unusedNum(r, md)
		b = append(b, UnknownRecord(r, num, 2)...)
	}
	return b
}

func unusedNum(r rt.Rnd, md protoreflect.MessageDescriptor) protowire.Number {
	num := protowire.Number(1 + r.Int(40))
	switch r.Int(6) {
	case 1:
		num = protowire.Number(995 + r.Int(12))
	case 2:
		num = protowire.Number(1 + r.Int(536870911))
	case 3:
		num = 536870911
	}
	for md != nil && md.Fields().ByNumber(num) != nil {
		num++
		if num > 536870911 {
			num = 1
		}
	}
	return num
}

// UnknownRecord draws one well-formed record (tag included), groups too.
func UnknownRecord(r rt.Rnd, num protowire.Number, depth int) []byte {
	var b []byte
	k := r.Int(5)
	if depth == 0 && k == 4 {
		k = 0
	}
	switch k {
	case 0:
		b = Tag(r, b, num, protowire.VarintType)
		b = Varint(r, b, Int(r))
	case 1:
		b = Tag(r, b, num, protowire.Fixed32Type)
		b = protowire.AppendFixed32(b, uint32(r.U64()))
	case 2:
		b = Tag(r, b, num, protowire.Fixed64Type)
		b = protowire.AppendFixed64(b, r.U64())
	case 3:
		b = Tag(r, b, num, protowire.BytesType)
		p := rt.Bytes(r, rt.Pick(r, 0, 1, 5, 20, 127, 128, 130))
		b = Varint(r, b, uint64(len(p)))
		b = append(b, p...)
	case 4:
		b = Tag(r, b, num, protowire.StartGroupType)
		for i := r.Int(3); i > 0; i-- {
			b = append(b, UnknownRecord(r, protowire.Number(1+r.Int(30)), depth-1)...)
		}
		b = Tag(r, b, num, protowire.EndGroupType)
	}
	return b
}

// Varint appends v, in a minority of cases in an overlong (valid) form.
func Varint(r rt.Rnd, b []byte, v uint64) []byte {
	b = protowire.AppendVarint(b, v)
	if rt.Chance(r, 6) {
		pad := 10 - protowire.SizeVarint(v)
		if pad > 0 {
			pad = 1 + r.Int(pad)
			b[len(b)-1] |= 0x80
			for i := 1; i < pad; i++ {
				b = append(b, 0x80)
			}
			b = append(b, 0)
		}
	}
	return b
}

// Tag appends a tag, sometimes overlong.
func Tag(r rt.Rnd, b []byte, num protowire.Number, typ protowire.Type) []byte {
	return Varint(r, b, protowire.EncodeTag(num, typ))
}

func floatBits(v protoreflect.Value) uint32  { return math.Float32bits(float32(v.Float())) }
func doubleBits(v protoreflect.Value) uint64 { return math.Float64bits(v.Float()) }
