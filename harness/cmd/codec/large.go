package main

import (
	"verif/rt"
	"verif/sch"
)

// bulk makes the values and encodings of a schema large: one of its sizes is
// drawn around the places where a counter or a length needs another byte, or a
// growing buffer another step. The elements come from a seed, so that a case
// stays a short sequence of choices.
type bulk struct {
	many    func(t *rt.T) int // elements of a list or map
	long    func(t *rt.T) int // bytes of a string
	tail    func(t *rt.T) int // unknown records
	records func(t *rt.T) int // records of an encoding
}

func (b *bulk) value(t *rt.T, o *sch.VOpt) rt.Rnd {
	if b == nil {
		return t
	}
	if b.many != nil {
		o.Many = b.many(t)
	}
	if b.long != nil {
		o.Long = b.long(t)
	}
	if b.tail != nil {
		o.Tail = b.tail(t)
	}
	o.All, o.Budget = true, 300
	t.Logf("sizes: %d elements, %d bytes, %d unknown records", o.Many, o.Long, o.Tail)
	return rt.NewSeeded(t.U64())
}

func (b *bulk) wire(t *rt.T, o *sch.WOpt) rt.Rnd {
	if b == nil {
		return t
	}
	if b.many != nil {
		o.Many = b.many(t)
	}
	if b.long != nil {
		o.Long = b.long(t)
	}
	if b.records != nil {
		o.Records = b.records(t)
	}
	o.Budget = 300
	t.Logf("sizes: %d records, %d elements, %d bytes", o.Records, o.Many, o.Long)
	return rt.NewSeeded(t.U64())
}

// around draws a number near one of the given ones, or anything up to the last.
func around(t *rt.T, ns ...int) int {
	if t.Int(5) == 0 {
		return 1 + t.Int(ns[len(ns)-1])
	}
	n := ns[t.Int(len(ns))] - 4 + t.Int(9)
	if n < 1 {
		n = 1
	}
	return n
}

// kindWhere draws a message with one field, which satisfies one of the
// conditions.
func kindWhere(t *rt.T, conds ...func(f *sch.Field) bool) schema {
	cond := conds[t.Int(len(conds))]
	all := kindSchemas()
	if cond != nil {
		var some []schema
		for _, s := range all {
			if cond(s.m.Fields[0]) {
				some = append(some, s)
			}
		}
		all = some
	}
	s := all[t.Int(len(all))]
	t.LogLazy(func() string { return s.m.String() })
	return s
}

// largeSchema draws a schema whose values are large in one way.
func largeSchema(t *rt.T) schema {
	switch t.Int(8) {
	case 0, 1: // many fields
		n := around(t, 64, 128, 256, 512, 700)
		r := rt.NewSeeded(t.U64())
		m := sch.Gen(r, sch.Opt{MaxFields: 1, MinFields: n, ByValue: true, Unknown: true})
		sch.Describe(m)
		s := schema{m, sch.BuildTypes(r, m), "random", &bulk{
			records: func(t *rt.T) int { return around(t, 64, 256, 1024, 3000) }}}
		t.Label("wide")
		t.LogLazy(func() string { return m.String() })
		return s
	case 2: // long strings and []byte
		s := kindWhere(t, func(f *sch.Field) bool {
			return (f.Kind == sch.StringK || f.Kind == sch.BytesK) && f.Shape != sch.Map
		}, func(f *sch.Field) bool {
			return f.Shape == sch.Map && (f.Kind == sch.StringK || f.Kind == sch.BytesK || f.Key == sch.StringK)
		})
		t.Label("long")
		s.big = &bulk{long: func(t *rt.T) int { return around(t, 65536, 32768, 16384, 1<<20, 2097152, 3<<20) }}
		return s
	case 3: // many unknown fields
		s := kindSchema(t)
		for i := 0; i < 40 && s.m.Unknown == 0; i++ {
			s = kindSchema(t)
		}
		t.Label("tail")
		s.big = &bulk{tail: func(t *rt.T) int { return around(t, 64, 256, 4096, 20000) }, records: func(t *rt.T) int { return around(t, 64, 256, 4096, 20000) }}
		return s
	default:
		s := kindWhere(t, func(f *sch.Field) bool {
			return f.Shape == sch.Repeated && f.Packed
		}, func(f *sch.Field) bool {
			return f.Shape == sch.Repeated && !f.Packed
		}, func(f *sch.Field) bool {
			return f.Shape == sch.Map
		})
		n := []int{128, 256, 1024, 4096, 16384, 65536, 100000}
		switch f := s.m.Fields[0]; {
		case f.Kind == sch.MsgK:
			n = n[:5]
		case f.Shape == sch.Map || f.Kind == sch.StringK || f.Kind == sch.BytesK:
		case f.Kind == sch.BoolK && t.Int(2) == 0:
			n = []int{1 << 20, 2097152}
		case t.Int(2) == 0: // packed lists of 2 MiB
			n = []int{262144, 524288, 300000}
		}
		t.Label("many")
		s.big = &bulk{many: func(t *rt.T) int { return around(t, n...) }, records: func(t *rt.T) int { return around(t, 128, 256, 1024, 4096, 16384) }}
		return s
	}
}

const ruleLarge = "each case takes a message of up to 700 fields, or one field of the list of all kinds with up to 100000 elements (scalars: 2000000), strings of up to 3 MiB or up to 20000 unknown records, and "
