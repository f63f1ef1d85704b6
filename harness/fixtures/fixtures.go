// Package fixtures holds compiled Go types with their schema models.
package fixtures

import (
	"reflect"

	"google.golang.org/protobuf/reflect/protoreflect"

	"verif/fixtures/pb"
	"verif/sch"
)

// Entry is a Go type with its oneof wrappers.
type Entry struct {
	Name     string
	T        reflect.Type
	Wrappers []any
}

// Plain are the hand-rolled types (XXX_OneofWrappers, any unknown storage, by-value messages).
func Plain() ([]*sch.Msg, sch.Types) {
	ms := sch.DecodeModel(model)
	sch.Describe(ms...)
	tt := sch.Types{}
	by := map[string]Entry{}
	for _, e := range entries {
		by[e.Name] = e
	}
	for _, m := range ms {
		sch.Bind(tt, m, by[m.Name].T, by[m.Name].Wrappers)
	}
	return ms, tt
}

// Official are the types made by protoc-gen-go from the edition-2023 schemas.
func Official() ([]*sch.Msg, sch.Types) {
	ms := sch.DecodeModel(pb.Model)
	tt := sch.Types{}
	by := map[string]pb.Entry{}
	for _, e := range pb.Entries {
		by[e.Name] = e
	}
	var fd protoreflect.FileDescriptor = pb.File_fxpb_proto
	sch.Attach(fd, ms...)
	for _, m := range ms {
		sch.Bind(tt, m, by[m.Name].T, by[m.Name].Wrappers)
	}
	return ms, tt
}
