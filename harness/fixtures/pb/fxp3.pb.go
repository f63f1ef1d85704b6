// Code generated by protoc-gen-go. DO NOT EDIT.
// versions:
// 	protoc-gen-go v1.36.11
// 	protoc        (unknown)
// source: fxp3.proto

package pb

import (
	protoreflect "google.golang.org/protobuf/reflect/protoreflect"
	protoimpl "google.golang.org/protobuf/runtime/protoimpl"
	reflect "reflect"
	sync "sync"
	unsafe "unsafe"
)

const (
	// Verify that this generated code is sufficiently up-to-date.
	_ = protoimpl.EnforceVersion(20 - protoimpl.MinVersion)
	// Verify that runtime/protoimpl is sufficiently up-to-date.
	_ = protoimpl.EnforceVersion(protoimpl.MaxVersion - 20)
)

type P3E int32

const (
	P3E_P3ZERO P3E = 0
	P3E_P3ONE  P3E = 1
	P3E_P3NEG  P3E = -7
)

// Enum value maps for P3E.
var (
	P3E_name = map[int32]string{
		0:  "P3ZERO",
		1:  "P3ONE",
		-7: "P3NEG",
	}
	P3E_value = map[string]int32{
		"P3ZERO": 0,
		"P3ONE":  1,
		"P3NEG":  -7,
	}
)

func (x P3E) Enum() *P3E {
	p := new(P3E)
	*p = x
	return p
}

func (x P3E) String() string {
	return protoimpl.X.EnumStringOf(x.Descriptor(), protoreflect.EnumNumber(x))
}

func (P3E) Descriptor() protoreflect.EnumDescriptor {
	return file_fxp3_proto_enumTypes[0].Descriptor()
}

func (P3E) Type() protoreflect.EnumType {
	return &file_fxp3_proto_enumTypes[0]
}

func (x P3E) Number() protoreflect.EnumNumber {
	return protoreflect.EnumNumber(x)
}

// Deprecated: Use P3E.Descriptor instead.
func (P3E) EnumDescriptor() ([]byte, []int) {
	return file_fxp3_proto_rawDescGZIP(), []int{0}
}

type P3All struct {
	state        protoimpl.MessageState `protogen:"open.v1"`
	SomeField_1  int32                  `protobuf:"varint,1,opt,name=some_field_1,json=someField1,proto3" json:"some_field_1,omitempty"`
	SomeField_2  []int32                `protobuf:"varint,2,rep,packed,name=some_field_2,json=someField2,proto3" json:"some_field_2,omitempty"`
	SomeField_4  *int32                 `protobuf:"varint,4,opt,name=some_field_4,json=someField4,proto3,oneof" json:"some_field_4,omitempty"`
	SomeField_5  int64                  `protobuf:"varint,5,opt,name=some_field_5,json=someField5,proto3" json:"some_field_5,omitempty"`
	SomeField_6  []int64                `protobuf:"varint,6,rep,packed,name=some_field_6,json=someField6,proto3" json:"some_field_6,omitempty"`
	SomeField_8  *int64                 `protobuf:"varint,8,opt,name=some_field_8,json=someField8,proto3,oneof" json:"some_field_8,omitempty"`
	SomeField_9  uint32                 `protobuf:"varint,9,opt,name=some_field_9,json=someField9,proto3" json:"some_field_9,omitempty"`
	SomeField_10 []uint32               `protobuf:"varint,10,rep,packed,name=some_field_10,json=someField10,proto3" json:"some_field_10,omitempty"`
	SomeField_12 *uint32                `protobuf:"varint,12,opt,name=some_field_12,json=someField12,proto3,oneof" json:"some_field_12,omitempty"`
	SomeField_13 uint64                 `protobuf:"varint,13,opt,name=some_field_13,json=someField13,proto3" json:"some_field_13,omitempty"`
	SomeField_14 []uint64               `protobuf:"varint,14,rep,packed,name=some_field_14,json=someField14,proto3" json:"some_field_14,omitempty"`
	SomeField_16 *uint64                `protobuf:"varint,16,opt,name=some_field_16,json=someField16,proto3,oneof" json:"some_field_16,omitempty"`
	SomeField_17 int32                  `protobuf:"zigzag32,17,opt,name=some_field_17,json=someField17,proto3" json:"some_field_17,omitempty"`
	SomeField_18 []int32                `protobuf:"zigzag32,18,rep,packed,name=some_field_18,json=someField18,proto3" json:"some_field_18,omitempty"`
	SomeField_20 *int32                 `protobuf:"zigzag32,20,opt,name=some_field_20,json=someField20,proto3,oneof" json:"some_field_20,omitempty"`
	SomeField_21 int64                  `protobuf:"zigzag64,21,opt,name=some_field_21,json=someField21,proto3" json:"some_field_21,omitempty"`
	SomeField_22 []int64                `protobuf:"zigzag64,22,rep,packed,name=some_field_22,json=someField22,proto3" json:"some_field_22,omitempty"`
	SomeField_24 *int64                 `protobuf:"zigzag64,24,opt,name=some_field_24,json=someField24,proto3,oneof" json:"some_field_24,omitempty"`
	SomeField_25 uint32                 `protobuf:"fixed32,25,opt,name=some_field_25,json=someField25,proto3" json:"some_field_25,omitempty"`
	SomeField_26 []uint32               `protobuf:"fixed32,26,rep,packed,name=some_field_26,json=someField26,proto3" json:"some_field_26,omitempty"`
	SomeField_28 *uint32                `protobuf:"fixed32,28,opt,name=some_field_28,json=someField28,proto3,oneof" json:"some_field_28,omitempty"`
	SomeField_29 uint64                 `protobuf:"fixed64,29,opt,name=some_field_29,json=someField29,proto3" json:"some_field_29,omitempty"`
	SomeField_30 []uint64               `protobuf:"fixed64,30,rep,packed,name=some_field_30,json=someField30,proto3" json:"some_field_30,omitempty"`
	SomeField_32 *uint64                `protobuf:"fixed64,32,opt,name=some_field_32,json=someField32,proto3,oneof" json:"some_field_32,omitempty"`
	SomeField_33 int32                  `protobuf:"fixed32,33,opt,name=some_field_33,json=someField33,proto3" json:"some_field_33,omitempty"`
	SomeField_34 []int32                `protobuf:"fixed32,34,rep,packed,name=some_field_34,json=someField34,proto3" json:"some_field_34,omitempty"`
	SomeField_36 *int32                 `protobuf:"fixed32,36,opt,name=some_field_36,json=someField36,proto3,oneof" json:"some_field_36,omitempty"`
	SomeField_37 int64                  `protobuf:"fixed64,37,opt,name=some_field_37,json=someField37,proto3" json:"some_field_37,omitempty"`
	SomeField_38 []int64                `protobuf:"fixed64,38,rep,packed,name=some_field_38,json=someField38,proto3" json:"some_field_38,omitempty"`
	SomeField_40 *int64                 `protobuf:"fixed64,40,opt,name=some_field_40,json=someField40,proto3,oneof" json:"some_field_40,omitempty"`
	SomeField_41 float32                `protobuf:"fixed32,41,opt,name=some_field_41,json=someField41,proto3" json:"some_field_41,omitempty"`
	SomeField_42 []float32              `protobuf:"fixed32,42,rep,packed,name=some_field_42,json=someField42,proto3" json:"some_field_42,omitempty"`
	SomeField_44 *float32               `protobuf:"fixed32,44,opt,name=some_field_44,json=someField44,proto3,oneof" json:"some_field_44,omitempty"`
	SomeField_45 float64                `protobuf:"fixed64,45,opt,name=some_field_45,json=someField45,proto3" json:"some_field_45,omitempty"`
	SomeField_46 []float64              `protobuf:"fixed64,46,rep,packed,name=some_field_46,json=someField46,proto3" json:"some_field_46,omitempty"`
	SomeField_48 *float64               `protobuf:"fixed64,48,opt,name=some_field_48,json=someField48,proto3,oneof" json:"some_field_48,omitempty"`
	SomeField_49 bool                   `protobuf:"varint,49,opt,name=some_field_49,json=someField49,proto3" json:"some_field_49,omitempty"`
	SomeField_50 []bool                 `protobuf:"varint,50,rep,packed,name=some_field_50,json=someField50,proto3" json:"some_field_50,omitempty"`
	SomeField_52 *bool                  `protobuf:"varint,52,opt,name=some_field_52,json=someField52,proto3,oneof" json:"some_field_52,omitempty"`
	SomeField_53 P3E                    `protobuf:"varint,53,opt,name=some_field_53,json=someField53,proto3,enum=fxp3.P3E" json:"some_field_53,omitempty"`
	SomeField_54 []P3E                  `protobuf:"varint,54,rep,packed,name=some_field_54,json=someField54,proto3,enum=fxp3.P3E" json:"some_field_54,omitempty"`
	SomeField_56 *P3E                   `protobuf:"varint,56,opt,name=some_field_56,json=someField56,proto3,enum=fxp3.P3E,oneof" json:"some_field_56,omitempty"`
	SomeField_57 string                 `protobuf:"bytes,57,opt,name=some_field_57,json=someField57,proto3" json:"some_field_57,omitempty"`
	SomeField_58 []string               `protobuf:"bytes,58,rep,name=some_field_58,json=someField58,proto3" json:"some_field_58,omitempty"`
	SomeField_60 *string                `protobuf:"bytes,60,opt,name=some_field_60,json=someField60,proto3,oneof" json:"some_field_60,omitempty"`
	SomeField_61 []byte                 `protobuf:"bytes,61,opt,name=some_field_61,json=someField61,proto3" json:"some_field_61,omitempty"`
	SomeField_62 [][]byte               `protobuf:"bytes,62,rep,name=some_field_62,json=someField62,proto3" json:"some_field_62,omitempty"`
	SomeField_64 []byte                 `protobuf:"bytes,64,opt,name=some_field_64,json=someField64,proto3,oneof" json:"some_field_64,omitempty"`
	SomeField_65 *P3All                 `protobuf:"bytes,65,opt,name=some_field_65,json=someField65,proto3" json:"some_field_65,omitempty"`
	SomeField_66 []*P3All               `protobuf:"bytes,66,rep,name=some_field_66,json=someField66,proto3" json:"some_field_66,omitempty"`
	// Types that are valid to be assigned to Pick:
	//
	//	*P3All_SomeField_3
	//	*P3All_SomeField_7
	//	*P3All_SomeField_11
	//	*P3All_SomeField_15
	//	*P3All_SomeField_19
	//	*P3All_SomeField_23
	//	*P3All_SomeField_27
	//	*P3All_SomeField_31
	//	*P3All_SomeField_35
	//	*P3All_SomeField_39
	//	*P3All_SomeField_43
	//	*P3All_SomeField_47
	//	*P3All_SomeField_51
	//	*P3All_SomeField_55
	//	*P3All_SomeField_59
	//	*P3All_SomeField_63
	//	*P3All_SomeField_67
	Pick          isP3All_Pick `protobuf_oneof:"pick"`
	unknownFields protoimpl.UnknownFields
	sizeCache     protoimpl.SizeCache
}

func (x *P3All) Reset() {
	*x = P3All{}
	mi := &file_fxp3_proto_msgTypes[0]
	ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
	ms.StoreMessageInfo(mi)
}

func (x *P3All) String() string {
	return protoimpl.X.MessageStringOf(x)
}

func (*P3All) ProtoMessage() {}

func (x *P3All) ProtoReflect() protoreflect.Message {
	mi := &file_fxp3_proto_msgTypes[0]
	if x != nil {
		ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
		if ms.LoadMessageInfo() == nil {
			ms.StoreMessageInfo(mi)
		}
		return ms
	}
	return mi.MessageOf(x)
}

// Deprecated: Use P3All.ProtoReflect.Descriptor instead.
func (*P3All) Descriptor() ([]byte, []int) {
	return file_fxp3_proto_rawDescGZIP(), []int{0}
}

func (x *P3All) GetSomeField_1() int32 {
	if x != nil {
		return x.SomeField_1
	}
	return 0
}

func (x *P3All) GetSomeField_2() []int32 {
	if x != nil {
		return x.SomeField_2
	}
	return nil
}

func (x *P3All) GetSomeField_4() int32 {
	if x != nil && x.SomeField_4 != nil {
		return *x.SomeField_4
	}
	return 0
}

func (x *P3All) GetSomeField_5() int64 {
	if x != nil {
		return x.SomeField_5
	}
	return 0
}

func (x *P3All) GetSomeField_6() []int64 {
	if x != nil {
		return x.SomeField_6
	}
	return nil
}

func (x *P3All) GetSomeField_8() int64 {
	if x != nil && x.SomeField_8 != nil {
		return *x.SomeField_8
	}
	return 0
}

func (x *P3All) GetSomeField_9() uint32 {
	if x != nil {
		return x.SomeField_9
	}
	return 0
}

func (x *P3All) GetSomeField_10() []uint32 {
	if x != nil {
		return x.SomeField_10
	}
	return nil
}

func (x *P3All) GetSomeField_12() uint32 {
	if x != nil && x.SomeField_12 != nil {
		return *x.SomeField_12
	}
	return 0
}

func (x *P3All) GetSomeField_13() uint64 {
	if x != nil {
		return x.SomeField_13
	}
	return 0
}

func (x *P3All) GetSomeField_14() []uint64 {
	if x != nil {
		return x.SomeField_14
	}
	return nil
}

func (x *P3All) GetSomeField_16() uint64 {
	if x != nil && x.SomeField_16 != nil {
		return *x.SomeField_16
	}
	return 0
}

func (x *P3All) GetSomeField_17() int32 {
	if x != nil {
		return x.SomeField_17
	}
	return 0
}

func (x *P3All) GetSomeField_18() []int32 {
	if x != nil {
		return x.SomeField_18
	}
	return nil
}

func (x *P3All) GetSomeField_20() int32 {
	if x != nil && x.SomeField_20 != nil {
		return *x.SomeField_20
	}
	return 0
}

func (x *P3All) GetSomeField_21() int64 {
	if x != nil {
		return x.SomeField_21
	}
	return 0
}

func (x *P3All) GetSomeField_22() []int64 {
	if x != nil {
		return x.SomeField_22
	}
	return nil
}

func (x *P3All) GetSomeField_24() int64 {
	if x != nil && x.SomeField_24 != nil {
		return *x.SomeField_24
	}
	return 0
}

func (x *P3All) GetSomeField_25() uint32 {
	if x != nil {
		return x.SomeField_25
	}
	return 0
}

func (x *P3All) GetSomeField_26() []uint32 {
	if x != nil {
		return x.SomeField_26
	}
	return nil
}

func (x *P3All) GetSomeField_28() uint32 {
	if x != nil && x.SomeField_28 != nil {
		return *x.SomeField_28
	}
	return 0
}

func (x *P3All) GetSomeField_29() uint64 {
	if x != nil {
		return x.SomeField_29
	}
	return 0
}

func (x *P3All) GetSomeField_30() []uint64 {
	if x != nil {
		return x.SomeField_30
	}
	return nil
}

func (x *P3All) GetSomeField_32() uint64 {
	if x != nil && x.SomeField_32 != nil {
		return *x.SomeField_32
	}
	return 0
}

func (x *P3All) GetSomeField_33() int32 {
	if x != nil {
		return x.SomeField_33
	}
	return 0
}

func (x *P3All) GetSomeField_34() []int32 {
	if x != nil {
		return x.SomeField_34
	}
	return nil
}

func (x *P3All) GetSomeField_36() int32 {
	if x != nil && x.SomeField_36 != nil {
		return *x.SomeField_36
	}
	return 0
}

func (x *P3All) GetSomeField_37() int64 {
	if x != nil {
		return x.SomeField_37
	}
	return 0
}

func (x *P3All) GetSomeField_38() []int64 {
	if x != nil {
		return x.SomeField_38
	}
	return nil
}

func (x *P3All) GetSomeField_40() int64 {
	if x != nil && x.SomeField_40 != nil {
		return *x.SomeField_40
	}
	return 0
}

func (x *P3All) GetSomeField_41() float32 {
	if x != nil {
		return x.SomeField_41
	}
	return 0
}

func (x *P3All) GetSomeField_42() []float32 {
	if x != nil {
		return x.SomeField_42
	}
	return nil
}

func (x *P3All) GetSomeField_44() float32 {
	if x != nil && x.SomeField_44 != nil {
		return *x.SomeField_44
	}
	return 0
}

func (x *P3All) GetSomeField_45() float64 {
	if x != nil {
		return x.SomeField_45
	}
	return 0
}

func (x *P3All) GetSomeField_46() []float64 {
	if x != nil {
		return x.SomeField_46
	}
	return nil
}

func (x *P3All) GetSomeField_48() float64 {
	if x != nil && x.SomeField_48 != nil {
		return *x.SomeField_48
	}
	return 0
}

func (x *P3All) GetSomeField_49() bool {
	if x != nil {
		return x.SomeField_49
	}
	return false
}

func (x *P3All) GetSomeField_50() []bool {
	if x != nil {
		return x.SomeField_50
	}
	return nil
}

func (x *P3All) GetSomeField_52() bool {
	if x != nil && x.SomeField_52 != nil {
		return *x.SomeField_52
	}
	return false
}

func (x *P3All) GetSomeField_53() P3E {
	if x != nil {
		return x.SomeField_53
	}
	return P3E_P3ZERO
}

func (x *P3All) GetSomeField_54() []P3E {
	if x != nil {
		return x.SomeField_54
	}
	return nil
}

func (x *P3All) GetSomeField_56() P3E {
	if x != nil && x.SomeField_56 != nil {
		return *x.SomeField_56
	}
	return P3E_P3ZERO
}

func (x *P3All) GetSomeField_57() string {
	if x != nil {
		return x.SomeField_57
	}
	return ""
}

func (x *P3All) GetSomeField_58() []string {
	if x != nil {
		return x.SomeField_58
	}
	return nil
}

func (x *P3All) GetSomeField_60() string {
	if x != nil && x.SomeField_60 != nil {
		return *x.SomeField_60
	}
	return ""
}

func (x *P3All) GetSomeField_61() []byte {
	if x != nil {
		return x.SomeField_61
	}
	return nil
}

func (x *P3All) GetSomeField_62() [][]byte {
	if x != nil {
		return x.SomeField_62
	}
	return nil
}

func (x *P3All) GetSomeField_64() []byte {
	if x != nil {
		return x.SomeField_64
	}
	return nil
}

func (x *P3All) GetSomeField_65() *P3All {
	if x != nil {
		return x.SomeField_65
	}
	return nil
}

func (x *P3All) GetSomeField_66() []*P3All {
	if x != nil {
		return x.SomeField_66
	}
	return nil
}

func (x *P3All) GetPick() isP3All_Pick {
	if x != nil {
		return x.Pick
	}
	return nil
}

func (x *P3All) GetSomeField_3() int32 {
	if x != nil {
		if x, ok := x.Pick.(*P3All_SomeField_3); ok {
			return x.SomeField_3
		}
	}
	return 0
}

func (x *P3All) GetSomeField_7() int64 {
	if x != nil {
		if x, ok := x.Pick.(*P3All_SomeField_7); ok {
			return x.SomeField_7
		}
	}
	return 0
}

func (x *P3All) GetSomeField_11() uint32 {
	if x != nil {
		if x, ok := x.Pick.(*P3All_SomeField_11); ok {
			return x.SomeField_11
		}
	}
	return 0
}

func (x *P3All) GetSomeField_15() uint64 {
	if x != nil {
		if x, ok := x.Pick.(*P3All_SomeField_15); ok {
			return x.SomeField_15
		}
	}
	return 0
}

func (x *P3All) GetSomeField_19() int32 {
	if x != nil {
		if x, ok := x.Pick.(*P3All_SomeField_19); ok {
			return x.SomeField_19
		}
	}
	return 0
}

func (x *P3All) GetSomeField_23() int64 {
	if x != nil {
		if x, ok := x.Pick.(*P3All_SomeField_23); ok {
			return x.SomeField_23
		}
	}
	return 0
}

func (x *P3All) GetSomeField_27() uint32 {
	if x != nil {
		if x, ok := x.Pick.(*P3All_SomeField_27); ok {
			return x.SomeField_27
		}
	}
	return 0
}

func (x *P3All) GetSomeField_31() uint64 {
	if x != nil {
		if x, ok := x.Pick.(*P3All_SomeField_31); ok {
			return x.SomeField_31
		}
	}
	return 0
}

func (x *P3All) GetSomeField_35() int32 {
	if x != nil {
		if x, ok := x.Pick.(*P3All_SomeField_35); ok {
			return x.SomeField_35
		}
	}
	return 0
}

func (x *P3All) GetSomeField_39() int64 {
	if x != nil {
		if x, ok := x.Pick.(*P3All_SomeField_39); ok {
			return x.SomeField_39
		}
	}
	return 0
}

func (x *P3All) GetSomeField_43() float32 {
	if x != nil {
		if x, ok := x.Pick.(*P3All_SomeField_43); ok {
			return x.SomeField_43
		}
	}
	return 0
}

func (x *P3All) GetSomeField_47() float64 {
	if x != nil {
		if x, ok := x.Pick.(*P3All_SomeField_47); ok {
			return x.SomeField_47
		}
	}
	return 0
}

func (x *P3All) GetSomeField_51() bool {
	if x != nil {
		if x, ok := x.Pick.(*P3All_SomeField_51); ok {
			return x.SomeField_51
		}
	}
	return false
}

func (x *P3All) GetSomeField_55() P3E {
	if x != nil {
		if x, ok := x.Pick.(*P3All_SomeField_55); ok {
			return x.SomeField_55
		}
	}
	return P3E_P3ZERO
}

func (x *P3All) GetSomeField_59() string {
	if x != nil {
		if x, ok := x.Pick.(*P3All_SomeField_59); ok {
			return x.SomeField_59
		}
	}
	return ""
}

func (x *P3All) GetSomeField_63() []byte {
	if x != nil {
		if x, ok := x.Pick.(*P3All_SomeField_63); ok {
			return x.SomeField_63
		}
	}
	return nil
}

func (x *P3All) GetSomeField_67() *P3All {
	if x != nil {
		if x, ok := x.Pick.(*P3All_SomeField_67); ok {
			return x.SomeField_67
		}
	}
	return nil
}

type isP3All_Pick interface {
	isP3All_Pick()
}

type P3All_SomeField_3 struct {
	SomeField_3 int32 `protobuf:"varint,3,opt,name=some_field_3,json=someField3,proto3,oneof"`
}

type P3All_SomeField_7 struct {
	SomeField_7 int64 `protobuf:"varint,7,opt,name=some_field_7,json=someField7,proto3,oneof"`
}

type P3All_SomeField_11 struct {
	SomeField_11 uint32 `protobuf:"varint,11,opt,name=some_field_11,json=someField11,proto3,oneof"`
}

type P3All_SomeField_15 struct {
	SomeField_15 uint64 `protobuf:"varint,15,opt,name=some_field_15,json=someField15,proto3,oneof"`
}

type P3All_SomeField_19 struct {
	SomeField_19 int32 `protobuf:"zigzag32,19,opt,name=some_field_19,json=someField19,proto3,oneof"`
}

type P3All_SomeField_23 struct {
	SomeField_23 int64 `protobuf:"zigzag64,23,opt,name=some_field_23,json=someField23,proto3,oneof"`
}

type P3All_SomeField_27 struct {
	SomeField_27 uint32 `protobuf:"fixed32,27,opt,name=some_field_27,json=someField27,proto3,oneof"`
}

type P3All_SomeField_31 struct {
	SomeField_31 uint64 `protobuf:"fixed64,31,opt,name=some_field_31,json=someField31,proto3,oneof"`
}

type P3All_SomeField_35 struct {
	SomeField_35 int32 `protobuf:"fixed32,35,opt,name=some_field_35,json=someField35,proto3,oneof"`
}

type P3All_SomeField_39 struct {
	SomeField_39 int64 `protobuf:"fixed64,39,opt,name=some_field_39,json=someField39,proto3,oneof"`
}

type P3All_SomeField_43 struct {
	SomeField_43 float32 `protobuf:"fixed32,43,opt,name=some_field_43,json=someField43,proto3,oneof"`
}

type P3All_SomeField_47 struct {
	SomeField_47 float64 `protobuf:"fixed64,47,opt,name=some_field_47,json=someField47,proto3,oneof"`
}

type P3All_SomeField_51 struct {
	SomeField_51 bool `protobuf:"varint,51,opt,name=some_field_51,json=someField51,proto3,oneof"`
}

type P3All_SomeField_55 struct {
	SomeField_55 P3E `protobuf:"varint,55,opt,name=some_field_55,json=someField55,proto3,enum=fxp3.P3E,oneof"`
}

type P3All_SomeField_59 struct {
	SomeField_59 string `protobuf:"bytes,59,opt,name=some_field_59,json=someField59,proto3,oneof"`
}

type P3All_SomeField_63 struct {
	SomeField_63 []byte `protobuf:"bytes,63,opt,name=some_field_63,json=someField63,proto3,oneof"`
}

type P3All_SomeField_67 struct {
	SomeField_67 *P3All `protobuf:"bytes,67,opt,name=some_field_67,json=someField67,proto3,oneof"`
}

func (*P3All_SomeField_3) isP3All_Pick() {}

func (*P3All_SomeField_7) isP3All_Pick() {}

func (*P3All_SomeField_11) isP3All_Pick() {}

func (*P3All_SomeField_15) isP3All_Pick() {}

func (*P3All_SomeField_19) isP3All_Pick() {}

func (*P3All_SomeField_23) isP3All_Pick() {}

func (*P3All_SomeField_27) isP3All_Pick() {}

func (*P3All_SomeField_31) isP3All_Pick() {}

func (*P3All_SomeField_35) isP3All_Pick() {}

func (*P3All_SomeField_39) isP3All_Pick() {}

func (*P3All_SomeField_43) isP3All_Pick() {}

func (*P3All_SomeField_47) isP3All_Pick() {}

func (*P3All_SomeField_51) isP3All_Pick() {}

func (*P3All_SomeField_55) isP3All_Pick() {}

func (*P3All_SomeField_59) isP3All_Pick() {}

func (*P3All_SomeField_63) isP3All_Pick() {}

func (*P3All_SomeField_67) isP3All_Pick() {}

var File_fxp3_proto protoreflect.FileDescriptor

const file_fxp3_proto_rawDesc = "" +
	"\n" +
	"\n" +
	"fxp3.proto\x12\x04fxp3\"\xee\x0f\n" +
	"\x05P3All\x12\x14\n" +
	"\fsome_field_1\x18\x01 \x01(\x05\x12\x14\n" +
	"\fsome_field_2\x18\x02 \x03(\x05\x12\x19\n" +
	"\fsome_field_4\x18\x04 \x01(\x05H\x01\x88\x01\x01\x12\x14\n" +
	"\fsome_field_5\x18\x05 \x01(\x03\x12\x14\n" +
	"\fsome_field_6\x18\x06 \x03(\x03\x12\x19\n" +
	"\fsome_field_8\x18\b \x01(\x03H\x02\x88\x01\x01\x12\x14\n" +
	"\fsome_field_9\x18\t \x01(\r\x12\x15\n" +
	"\rsome_field_10\x18\n" +
	" \x03(\r\x12\x1a\n" +
	"\rsome_field_12\x18\f \x01(\rH\x03\x88\x01\x01\x12\x15\n" +
	"\rsome_field_13\x18\r \x01(\x04\x12\x15\n" +
	"\rsome_field_14\x18\x0e \x03(\x04\x12\x1a\n" +
	"\rsome_field_16\x18\x10 \x01(\x04H\x04\x88\x01\x01\x12\x15\n" +
	"\rsome_field_17\x18\x11 \x01(\x11\x12\x15\n" +
	"\rsome_field_18\x18\x12 \x03(\x11\x12\x1a\n" +
	"\rsome_field_20\x18\x14 \x01(\x11H\x05\x88\x01\x01\x12\x15\n" +
	"\rsome_field_21\x18\x15 \x01(\x12\x12\x15\n" +
	"\rsome_field_22\x18\x16 \x03(\x12\x12\x1a\n" +
	"\rsome_field_24\x18\x18 \x01(\x12H\x06\x88\x01\x01\x12\x15\n" +
	"\rsome_field_25\x18\x19 \x01(\a\x12\x15\n" +
	"\rsome_field_26\x18\x1a \x03(\a\x12\x1a\n" +
	"\rsome_field_28\x18\x1c \x01(\aH\a\x88\x01\x01\x12\x15\n" +
	"\rsome_field_29\x18\x1d \x01(\x06\x12\x15\n" +
	"\rsome_field_30\x18\x1e \x03(\x06\x12\x1a\n" +
	"\rsome_field_32\x18  \x01(\x06H\b\x88\x01\x01\x12\x15\n" +
	"\rsome_field_33\x18! \x01(\x0f\x12\x15\n" +
	"\rsome_field_34\x18\" \x03(\x0f\x12\x1a\n" +
	"\rsome_field_36\x18$ \x01(\x0fH\t\x88\x01\x01\x12\x15\n" +
	"\rsome_field_37\x18% \x01(\x10\x12\x15\n" +
	"\rsome_field_38\x18& \x03(\x10\x12\x1a\n" +
	"\rsome_field_40\x18( \x01(\x10H\n" +
	"\x88\x01\x01\x12\x15\n" +
	"\rsome_field_41\x18) \x01(\x02\x12\x15\n" +
	"\rsome_field_42\x18* \x03(\x02\x12\x1a\n" +
	"\rsome_field_44\x18, \x01(\x02H\v\x88\x01\x01\x12\x15\n" +
	"\rsome_field_45\x18- \x01(\x01\x12\x15\n" +
	"\rsome_field_46\x18. \x03(\x01\x12\x1a\n" +
	"\rsome_field_48\x180 \x01(\x01H\f\x88\x01\x01\x12\x15\n" +
	"\rsome_field_49\x181 \x01(\b\x12\x15\n" +
	"\rsome_field_50\x182 \x03(\b\x12\x1a\n" +
	"\rsome_field_52\x184 \x01(\bH\r\x88\x01\x01\x12 \n" +
	"\rsome_field_53\x185 \x01(\x0e2\t.fxp3.P3E\x12 \n" +
	"\rsome_field_54\x186 \x03(\x0e2\t.fxp3.P3E\x12%\n" +
	"\rsome_field_56\x188 \x01(\x0e2\t.fxp3.P3EH\x0e\x88\x01\x01\x12\x15\n" +
	"\rsome_field_57\x189 \x01(\t\x12\x15\n" +
	"\rsome_field_58\x18: \x03(\t\x12\x1a\n" +
	"\rsome_field_60\x18< \x01(\tH\x0f\x88\x01\x01\x12\x15\n" +
	"\rsome_field_61\x18= \x01(\f\x12\x15\n" +
	"\rsome_field_62\x18> \x03(\f\x12\x1a\n" +
	"\rsome_field_64\x18@ \x01(\fH\x10\x88\x01\x01\x12\"\n" +
	"\rsome_field_65\x18A \x01(\v2\v.fxp3.P3All\x12\"\n" +
	"\rsome_field_66\x18B \x03(\v2\v.fxp3.P3All\x12\x16\n" +
	"\fsome_field_3\x18\x03 \x01(\x05H\x00\x12\x16\n" +
	"\fsome_field_7\x18\a \x01(\x03H\x00\x12\x17\n" +
	"\rsome_field_11\x18\v \x01(\rH\x00\x12\x17\n" +
	"\rsome_field_15\x18\x0f \x01(\x04H\x00\x12\x17\n" +
	"\rsome_field_19\x18\x13 \x01(\x11H\x00\x12\x17\n" +
	"\rsome_field_23\x18\x17 \x01(\x12H\x00\x12\x17\n" +
	"\rsome_field_27\x18\x1b \x01(\aH\x00\x12\x17\n" +
	"\rsome_field_31\x18\x1f \x01(\x06H\x00\x12\x17\n" +
	"\rsome_field_35\x18# \x01(\x0fH\x00\x12\x17\n" +
	"\rsome_field_39\x18' \x01(\x10H\x00\x12\x17\n" +
	"\rsome_field_43\x18+ \x01(\x02H\x00\x12\x17\n" +
	"\rsome_field_47\x18/ \x01(\x01H\x00\x12\x17\n" +
	"\rsome_field_51\x183 \x01(\bH\x00\x12\"\n" +
	"\rsome_field_55\x187 \x01(\x0e2\t.fxp3.P3EH\x00\x12\x17\n" +
	"\rsome_field_59\x18; \x01(\tH\x00\x12\x17\n" +
	"\rsome_field_63\x18? \x01(\fH\x00\x12$\n" +
	"\rsome_field_67\x18C \x01(\v2\v.fxp3.P3AllH\x00B\x06\n" +
	"\x04pickB\x0f\n" +
	"\r_some_field_4B\x0f\n" +
	"\r_some_field_8B\x10\n" +
	"\x0e_some_field_12B\x10\n" +
	"\x0e_some_field_16B\x10\n" +
	"\x0e_some_field_20B\x10\n" +
	"\x0e_some_field_24B\x10\n" +
	"\x0e_some_field_28B\x10\n" +
	"\x0e_some_field_32B\x10\n" +
	"\x0e_some_field_36B\x10\n" +
	"\x0e_some_field_40B\x10\n" +
	"\x0e_some_field_44B\x10\n" +
	"\x0e_some_field_48B\x10\n" +
	"\x0e_some_field_52B\x10\n" +
	"\x0e_some_field_56B\x10\n" +
	"\x0e_some_field_60B\x10\n" +
	"\x0e_some_field_64*0\n" +
	"\x03P3E\x12\n" +
	"\n" +
	"\x06P3ZERO\x10\x00\x12\t\n" +
	"\x05P3ONE\x10\x01\x12\x12\n" +
	"\x05P3NEG\x10\xf9\xff\xff\xff\xff\xff\xff\xff\xff\x01B\x16Z\x14verif/fixtures/pb;pbb\x06proto3"

var (
	file_fxp3_proto_rawDescOnce sync.Once
	file_fxp3_proto_rawDescData []byte
)

func file_fxp3_proto_rawDescGZIP() []byte {
	file_fxp3_proto_rawDescOnce.Do(func() {
		file_fxp3_proto_rawDescData = protoimpl.X.CompressGZIP(unsafe.Slice(unsafe.StringData(file_fxp3_proto_rawDesc), len(file_fxp3_proto_rawDesc)))
	})
	return file_fxp3_proto_rawDescData
}

var file_fxp3_proto_enumTypes = make([]protoimpl.EnumInfo, 1)
var file_fxp3_proto_msgTypes = make([]protoimpl.MessageInfo, 1)
var file_fxp3_proto_goTypes = []any{
	(P3E)(0),      // 0: fxp3.P3E
	(*P3All)(nil), // 1: fxp3.P3All
}
var file_fxp3_proto_depIdxs = []int32{
	0, // 0: fxp3.P3All.some_field_53:type_name -> fxp3.P3E
	0, // 1: fxp3.P3All.some_field_54:type_name -> fxp3.P3E
	0, // 2: fxp3.P3All.some_field_56:type_name -> fxp3.P3E
	1, // 3: fxp3.P3All.some_field_65:type_name -> fxp3.P3All
	1, // 4: fxp3.P3All.some_field_66:type_name -> fxp3.P3All
	0, // 5: fxp3.P3All.some_field_55:type_name -> fxp3.P3E
	1, // 6: fxp3.P3All.some_field_67:type_name -> fxp3.P3All
	7, // [7:7] is the sub-list for method output_type
	7, // [7:7] is the sub-list for method input_type
	7, // [7:7] is the sub-list for extension type_name
	7, // [7:7] is the sub-list for extension extendee
	0, // [0:7] is the sub-list for field type_name
}

func init() { file_fxp3_proto_init() }
func file_fxp3_proto_init() {
	if File_fxp3_proto != nil {
		return
	}
	file_fxp3_proto_msgTypes[0].OneofWrappers = []any{
		(*P3All_SomeField_3)(nil),
		(*P3All_SomeField_7)(nil),
		(*P3All_SomeField_11)(nil),
		(*P3All_SomeField_15)(nil),
		(*P3All_SomeField_19)(nil),
		(*P3All_SomeField_23)(nil),
		(*P3All_SomeField_27)(nil),
		(*P3All_SomeField_31)(nil),
		(*P3All_SomeField_35)(nil),
		(*P3All_SomeField_39)(nil),
		(*P3All_SomeField_43)(nil),
		(*P3All_SomeField_47)(nil),
		(*P3All_SomeField_51)(nil),
		(*P3All_SomeField_55)(nil),
		(*P3All_SomeField_59)(nil),
		(*P3All_SomeField_63)(nil),
		(*P3All_SomeField_67)(nil),
	}
	type x struct{}
	out := protoimpl.TypeBuilder{
		File: protoimpl.DescBuilder{
			GoPackagePath: reflect.TypeOf(x{}).PkgPath(),
			RawDescriptor: unsafe.Slice(unsafe.StringData(file_fxp3_proto_rawDesc), len(file_fxp3_proto_rawDesc)),
			NumEnums:      1,
			NumMessages:   1,
			NumExtensions: 0,
			NumServices:   0,
		},
		GoTypes:           file_fxp3_proto_goTypes,
		DependencyIndexes: file_fxp3_proto_depIdxs,
		EnumInfos:         file_fxp3_proto_enumTypes,
		MessageInfos:      file_fxp3_proto_msgTypes,
	}.Build()
	File_fxp3_proto = out.File
	file_fxp3_proto_goTypes = nil
	file_fxp3_proto_depIdxs = nil
}
