package main

import (
	"fmt"
	"sync"

	"verif/rt"
	"verif/sch"
)

var (
	kindOnce sync.Once
	kindAll  []schema
)

// kindSchema draws a message with one field; the list of them has every kind
// of field that the random schemas can have, so that code that is specific to
// one combination gets as many cases as any other.
func kindSchema(t *rt.T) schema {
	all := kindSchemas()
	s := all[t.Int(len(all))]
	t.LabelIf(s.m.Fields[0].Shape == sch.Map, "map")
	t.LogLazy(func() string { return s.m.String() })
	return s
}

func kindSchemas() []schema {
	kindOnce.Do(func() {
		add := func(f sch.Field) {
			num := 1 + len(kindAll)%18
			f.Num, f.Name = num, "f"
			m := &sch.Msg{Name: fmt.Sprintf("K%d", len(kindAll)), Unknown: len(kindAll) % 2, Fields: []*sch.Field{&f}}
			sch.Describe(m)
			kindAll = append(kindAll, schema{m, sch.BuildTypes(nil, m), "kinds", nil})
		}
		sub := func() *sch.Msg {
			return &sch.Msg{Name: "S", Unknown: sch.UnkBytes, Fields: []*sch.Field{
				{Name: "a", Num: 1, Kind: sch.S32K, Shape: sch.Explicit},
				{Name: "b", Num: 2, Kind: sch.StringK, Shape: sch.Implicit},
				{Name: "c", Num: 3, Kind: sch.F64K, Shape: sch.Repeated},
			}}
		}
		for _, k := range sch.ScalarKinds {
			add(sch.Field{Kind: k, Shape: sch.Implicit})
			add(sch.Field{Kind: k, Shape: sch.Explicit})
			add(sch.Field{Kind: k, Shape: sch.Required})
			add(sch.Field{Kind: k, Shape: sch.Repeated})
			if k != sch.StringK && k != sch.BytesK {
				add(sch.Field{Kind: k, Shape: sch.Repeated, Packed: true})
			}
		}
		add(sch.Field{Kind: sch.BytesK, Shape: sch.PtrBytes})
		for _, byValue := range []bool{false, true} {
			add(sch.Field{Kind: sch.MsgK, Msg: sub(), ByValue: byValue, Shape: sch.Explicit})
			add(sch.Field{Kind: sch.MsgK, Msg: sub(), ByValue: byValue, Shape: sch.Repeated})
		}
		for _, key := range sch.KeyKinds {
			for _, k := range sch.ScalarKinds {
				add(sch.Field{Kind: k, Key: key, Shape: sch.Map})
			}
			for _, byValue := range []bool{false, true} {
				add(sch.Field{Kind: sch.MsgK, Msg: sub(), ByValue: byValue, Key: key, Shape: sch.Map})
			}
		}
	})
	return kindAll
}
