package sch

import (
	"encoding/json"
	"fmt"
)

type jField struct {
	N  string `json:"n"`
	No int    `json:"i"`
	K  int    `json:"k"`
	S  int    `json:"s,omitempty"`
	P  bool   `json:"p,omitempty"`
	Ky int    `json:"y,omitempty"`
	M  int    `json:"m,omitempty"` // 1 + index
	V  bool   `json:"v,omitempty"`
	O  int    `json:"o,omitempty"`
}

type jMsg struct {
	Name string   `json:"name"`
	O    int      `json:"o,omitempty"`
	U    int      `json:"u,omitempty"`
	F    []jField `json:"f"`
}

// EncodeModel serializes a schema; roots come first.
func EncodeModel(roots []*Msg) string {
	var all []*Msg
	ix := map[*Msg]int{}
	add := func(m *Msg) {
		if _, ok := ix[m]; !ok {
			ix[m] = len(all)
			all = append(all, m)
		}
	}
	for _, m := range roots {
		add(m)
	}
	for i := 0; i < len(all); i++ {
		for _, m := range all[i].All() {
			add(m)
		}
	}
	var out []jMsg
	for _, m := range all {
		j := jMsg{Name: m.Name, O: m.Oneofs, U: m.Unknown}
		for _, f := range m.Fields {
			jf := jField{N: f.Name, No: f.Num, K: int(f.Kind), S: int(f.Shape), P: f.Packed, Ky: int(f.Key), V: f.ByValue, O: f.OneofIx}
			if f.Msg != nil {
				jf.M = 1 + ix[f.Msg]
			}
			j.F = append(j.F, jf)
		}
		out = append(out, j)
	}
	b, err := json.Marshal(out)
	if err != nil {
		panic(err)
	}
	return string(b)
}

// DecodeModel is the inverse of EncodeModel; it returns all messages.
func DecodeModel(s string) []*Msg {
	var in []jMsg
	if err := json.Unmarshal([]byte(s), &in); err != nil {
		panic(fmt.Sprintf("harness: model: %v", err))
	}
	ms := make([]*Msg, len(in))
	for i, j := range in {
		ms[i] = &Msg{Name: j.Name, Oneofs: j.O, Unknown: j.U}
	}
	for i, j := range in {
		for _, f := range j.F {
			g := &Field{Name: f.N, Num: f.No, Kind: Kind(f.K), Shape: Shape(f.S), Packed: f.P, Key: Kind(f.Ky), ByValue: f.V, OneofIx: f.O}
			if f.M > 0 {
				g.Msg = ms[f.M-1]
			}
			ms[i].Fields = append(ms[i].Fields, g)
		}
	}
	return ms
}
