// Code generated by protoc-gen-go. DO NOT EDIT.
// versions:
// 	protoc-gen-go v1.36.11
// 	protoc        (unknown)
// source: fxp2.proto

package pb

import (
	protoreflect "google.golang.org/protobuf/reflect/protoreflect"
	protoimpl "google.golang.org/protobuf/runtime/protoimpl"
	reflect "reflect"
	sync "sync"
	unsafe "unsafe"
)

const (
	// Verify that this generated code is sufficiently up-to-date.
	_ = protoimpl.EnforceVersion(20 - protoimpl.MinVersion)
	// Verify that runtime/protoimpl is sufficiently up-to-date.
	_ = protoimpl.EnforceVersion(protoimpl.MaxVersion - 20)
)

type P2E int32

const (
	P2E_P2ZERO P2E = 0
	P2E_P2ONE  P2E = 1
	P2E_P2NEG  P2E = -7
)

// Enum value maps for P2E.
var (
	P2E_name = map[int32]string{
		0:  "P2ZERO",
		1:  "P2ONE",
		-7: "P2NEG",
	}
	P2E_value = map[string]int32{
		"P2ZERO": 0,
		"P2ONE":  1,
		"P2NEG":  -7,
	}
)

func (x P2E) Enum() *P2E {
	p := new(P2E)
	*p = x
	return p
}

func (x P2E) String() string {
	return protoimpl.X.EnumStringOf(x.Descriptor(), protoreflect.EnumNumber(x))
}

func (P2E) Descriptor() protoreflect.EnumDescriptor {
	return file_fxp2_proto_enumTypes[0].Descriptor()
}

func (P2E) Type() protoreflect.EnumType {
	return &file_fxp2_proto_enumTypes[0]
}

func (x P2E) Number() protoreflect.EnumNumber {
	return protoreflect.EnumNumber(x)
}

// Deprecated: Do not use.
func (x *P2E) UnmarshalJSON(b []byte) error {
	num, err := protoimpl.X.UnmarshalJSONEnum(x.Descriptor(), b)
	if err != nil {
		return err
	}
	*x = P2E(num)
	return nil
}

// Deprecated: Use P2E.Descriptor instead.
func (P2E) EnumDescriptor() ([]byte, []int) {
	return file_fxp2_proto_rawDescGZIP(), []int{0}
}

type P2All struct {
	state        protoimpl.MessageState `protogen:"open.v1"`
	SomeField_1  *int32                 `protobuf:"varint,1,opt,name=some_field_1,json=someField1" json:"some_field_1,omitempty"`
	SomeField_2  []int32                `protobuf:"varint,2,rep,name=some_field_2,json=someField2" json:"some_field_2,omitempty"`
	SomeField_3  []int32                `protobuf:"varint,3,rep,packed,name=some_field_3,json=someField3" json:"some_field_3,omitempty"`
	SomeField_4  *int32                 `protobuf:"varint,4,opt,name=some_field_4,json=someField4,def=1" json:"some_field_4,omitempty"`
	SomeField_6  *int64                 `protobuf:"varint,6,opt,name=some_field_6,json=someField6" json:"some_field_6,omitempty"`
	SomeField_7  []int64                `protobuf:"varint,7,rep,name=some_field_7,json=someField7" json:"some_field_7,omitempty"`
	SomeField_8  []int64                `protobuf:"varint,8,rep,packed,name=some_field_8,json=someField8" json:"some_field_8,omitempty"`
	SomeField_9  *int64                 `protobuf:"varint,9,opt,name=some_field_9,json=someField9,def=1" json:"some_field_9,omitempty"`
	SomeField_11 *uint32                `protobuf:"varint,11,opt,name=some_field_11,json=someField11" json:"some_field_11,omitempty"`
	SomeField_12 []uint32               `protobuf:"varint,12,rep,name=some_field_12,json=someField12" json:"some_field_12,omitempty"`
	SomeField_13 []uint32               `protobuf:"varint,13,rep,packed,name=some_field_13,json=someField13" json:"some_field_13,omitempty"`
	SomeField_14 *uint32                `protobuf:"varint,14,opt,name=some_field_14,json=someField14,def=1" json:"some_field_14,omitempty"`
	SomeField_16 *uint64                `protobuf:"varint,16,opt,name=some_field_16,json=someField16" json:"some_field_16,omitempty"`
	SomeField_17 []uint64               `protobuf:"varint,17,rep,name=some_field_17,json=someField17" json:"some_field_17,omitempty"`
	SomeField_18 []uint64               `protobuf:"varint,18,rep,packed,name=some_field_18,json=someField18" json:"some_field_18,omitempty"`
	SomeField_19 *uint64                `protobuf:"varint,19,opt,name=some_field_19,json=someField19,def=1" json:"some_field_19,omitempty"`
	SomeField_21 *int32                 `protobuf:"zigzag32,21,opt,name=some_field_21,json=someField21" json:"some_field_21,omitempty"`
	SomeField_22 []int32                `protobuf:"zigzag32,22,rep,name=some_field_22,json=someField22" json:"some_field_22,omitempty"`
	SomeField_23 []int32                `protobuf:"zigzag32,23,rep,packed,name=some_field_23,json=someField23" json:"some_field_23,omitempty"`
	SomeField_24 *int32                 `protobuf:"zigzag32,24,opt,name=some_field_24,json=someField24,def=1" json:"some_field_24,omitempty"`
	SomeField_26 *int64                 `protobuf:"zigzag64,26,opt,name=some_field_26,json=someField26" json:"some_field_26,omitempty"`
	SomeField_27 []int64                `protobuf:"zigzag64,27,rep,name=some_field_27,json=someField27" json:"some_field_27,omitempty"`
	SomeField_28 []int64                `protobuf:"zigzag64,28,rep,packed,name=some_field_28,json=someField28" json:"some_field_28,omitempty"`
	SomeField_29 *int64                 `protobuf:"zigzag64,29,opt,name=some_field_29,json=someField29,def=1" json:"some_field_29,omitempty"`
	SomeField_31 *uint32                `protobuf:"fixed32,31,opt,name=some_field_31,json=someField31" json:"some_field_31,omitempty"`
	SomeField_32 []uint32               `protobuf:"fixed32,32,rep,name=some_field_32,json=someField32" json:"some_field_32,omitempty"`
	SomeField_33 []uint32               `protobuf:"fixed32,33,rep,packed,name=some_field_33,json=someField33" json:"some_field_33,omitempty"`
	SomeField_34 *uint32                `protobuf:"fixed32,34,opt,name=some_field_34,json=someField34,def=1" json:"some_field_34,omitempty"`
	SomeField_36 *uint64                `protobuf:"fixed64,36,opt,name=some_field_36,json=someField36" json:"some_field_36,omitempty"`
	SomeField_37 []uint64               `protobuf:"fixed64,37,rep,name=some_field_37,json=someField37" json:"some_field_37,omitempty"`
	SomeField_38 []uint64               `protobuf:"fixed64,38,rep,packed,name=some_field_38,json=someField38" json:"some_field_38,omitempty"`
	SomeField_39 *uint64                `protobuf:"fixed64,39,opt,name=some_field_39,json=someField39,def=1" json:"some_field_39,omitempty"`
	SomeField_41 *int32                 `protobuf:"fixed32,41,opt,name=some_field_41,json=someField41" json:"some_field_41,omitempty"`
	SomeField_42 []int32                `protobuf:"fixed32,42,rep,name=some_field_42,json=someField42" json:"some_field_42,omitempty"`
	SomeField_43 []int32                `protobuf:"fixed32,43,rep,packed,name=some_field_43,json=someField43" json:"some_field_43,omitempty"`
	SomeField_44 *int32                 `protobuf:"fixed32,44,opt,name=some_field_44,json=someField44,def=1" json:"some_field_44,omitempty"`
	SomeField_46 *int64                 `protobuf:"fixed64,46,opt,name=some_field_46,json=someField46" json:"some_field_46,omitempty"`
	SomeField_47 []int64                `protobuf:"fixed64,47,rep,name=some_field_47,json=someField47" json:"some_field_47,omitempty"`
	SomeField_48 []int64                `protobuf:"fixed64,48,rep,packed,name=some_field_48,json=someField48" json:"some_field_48,omitempty"`
	SomeField_49 *int64                 `protobuf:"fixed64,49,opt,name=some_field_49,json=someField49,def=1" json:"some_field_49,omitempty"`
	SomeField_51 *float32               `protobuf:"fixed32,51,opt,name=some_field_51,json=someField51" json:"some_field_51,omitempty"`
	SomeField_52 []float32              `protobuf:"fixed32,52,rep,name=some_field_52,json=someField52" json:"some_field_52,omitempty"`
	SomeField_53 []float32              `protobuf:"fixed32,53,rep,packed,name=some_field_53,json=someField53" json:"some_field_53,omitempty"`
	SomeField_54 *float32               `protobuf:"fixed32,54,opt,name=some_field_54,json=someField54,def=1" json:"some_field_54,omitempty"`
	SomeField_56 *float64               `protobuf:"fixed64,56,opt,name=some_field_56,json=someField56" json:"some_field_56,omitempty"`
	SomeField_57 []float64              `protobuf:"fixed64,57,rep,name=some_field_57,json=someField57" json:"some_field_57,omitempty"`
	SomeField_58 []float64              `protobuf:"fixed64,58,rep,packed,name=some_field_58,json=someField58" json:"some_field_58,omitempty"`
	SomeField_59 *float64               `protobuf:"fixed64,59,opt,name=some_field_59,json=someField59,def=1" json:"some_field_59,omitempty"`
	SomeField_61 *bool                  `protobuf:"varint,61,opt,name=some_field_61,json=someField61" json:"some_field_61,omitempty"`
	SomeField_62 []bool                 `protobuf:"varint,62,rep,name=some_field_62,json=someField62" json:"some_field_62,omitempty"`
	SomeField_63 []bool                 `protobuf:"varint,63,rep,packed,name=some_field_63,json=someField63" json:"some_field_63,omitempty"`
	SomeField_64 *bool                  `protobuf:"varint,64,opt,name=some_field_64,json=someField64,def=1" json:"some_field_64,omitempty"`
	SomeField_66 *P2E                   `protobuf:"varint,66,opt,name=some_field_66,json=someField66,enum=fxp2.P2E" json:"some_field_66,omitempty"`
	SomeField_67 []P2E                  `protobuf:"varint,67,rep,name=some_field_67,json=someField67,enum=fxp2.P2E" json:"some_field_67,omitempty"`
	SomeField_68 []P2E                  `protobuf:"varint,68,rep,packed,name=some_field_68,json=someField68,enum=fxp2.P2E" json:"some_field_68,omitempty"`
	SomeField_69 *P2E                   `protobuf:"varint,69,opt,name=some_field_69,json=someField69,enum=fxp2.P2E,def=1" json:"some_field_69,omitempty"`
	SomeField_71 *string                `protobuf:"bytes,71,opt,name=some_field_71,json=someField71" json:"some_field_71,omitempty"`
	SomeField_72 []string               `protobuf:"bytes,72,rep,name=some_field_72,json=someField72" json:"some_field_72,omitempty"`
	SomeField_73 *string                `protobuf:"bytes,73,opt,name=some_field_73,json=someField73,def=a,3,rep,packed" json:"some_field_73,omitempty"`
	SomeField_75 []byte                 `protobuf:"bytes,75,opt,name=some_field_75,json=someField75" json:"some_field_75,omitempty"`
	SomeField_76 [][]byte               `protobuf:"bytes,76,rep,name=some_field_76,json=someField76" json:"some_field_76,omitempty"`
	SomeField_77 []byte                 `protobuf:"bytes,77,opt,name=some_field_77,json=someField77,def=a,3,rep,packed" json:"some_field_77,omitempty"`
	SomeField_79 *P2All                 `protobuf:"bytes,79,opt,name=some_field_79,json=someField79" json:"some_field_79,omitempty"`
	SomeField_80 []*P2All               `protobuf:"bytes,80,rep,name=some_field_80,json=someField80" json:"some_field_80,omitempty"`
	// Types that are valid to be assigned to Pick:
	//
	//	*P2All_SomeField_5
	//	*P2All_SomeField_10
	//	*P2All_SomeField_15
	//	*P2All_SomeField_20
	//	*P2All_SomeField_25
	//	*P2All_SomeField_30
	//	*P2All_SomeField_35
	//	*P2All_SomeField_40
	//	*P2All_SomeField_45
	//	*P2All_SomeField_50
	//	*P2All_SomeField_55
	//	*P2All_SomeField_60
	//	*P2All_SomeField_65
	//	*P2All_SomeField_70
	//	*P2All_SomeField_74
	//	*P2All_SomeField_78
	//	*P2All_SomeField_81
	Pick            isP2All_Pick `protobuf_oneof:"pick"`
	extensionFields protoimpl.ExtensionFields
	unknownFields   protoimpl.UnknownFields
	sizeCache       protoimpl.SizeCache
}

// Default values for P2All fields.
const (
	Default_P2All_SomeField_4  = int32(1)
	Default_P2All_SomeField_9  = int64(1)
	Default_P2All_SomeField_14 = uint32(1)
	Default_P2All_SomeField_19 = uint64(1)
	Default_P2All_SomeField_24 = int32(1)
	Default_P2All_SomeField_29 = int64(1)
	Default_P2All_SomeField_34 = uint32(1)
	Default_P2All_SomeField_39 = uint64(1)
	Default_P2All_SomeField_44 = int32(1)
	Default_P2All_SomeField_49 = int64(1)
	Default_P2All_SomeField_54 = float32(1)
	Default_P2All_SomeField_59 = float64(1)
	Default_P2All_SomeField_64 = bool(true)
	Default_P2All_SomeField_69 = P2E_P2ONE
	Default_P2All_SomeField_73 = string("a,3,rep,packed")
)

// Default values for P2All fields.
var (
	Default_P2All_SomeField_77 = []byte("a,3,rep,packed")
)

func (x *P2All) Reset() {
	*x = P2All{}
	mi := &file_fxp2_proto_msgTypes[0]
	ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
	ms.StoreMessageInfo(mi)
}

func (x *P2All) String() string {
	return protoimpl.X.MessageStringOf(x)
}

func (*P2All) ProtoMessage() {}

func (x *P2All) ProtoReflect() protoreflect.Message {
	mi := &file_fxp2_proto_msgTypes[0]
	if x != nil {
		ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
		if ms.LoadMessageInfo() == nil {
			ms.StoreMessageInfo(mi)
		}
		return ms
	}
	return mi.MessageOf(x)
}

// Deprecated: Use P2All.ProtoReflect.Descriptor instead.
func (*P2All) Descriptor() ([]byte, []int) {
	return file_fxp2_proto_rawDescGZIP(), []int{0}
}

func (x *P2All) GetSomeField_1() int32 {
	if x != nil && x.SomeField_1 != nil {
		return *x.SomeField_1
	}
	return 0
}

func (x *P2All) GetSomeField_2() []int32 {
	if x != nil {
		return x.SomeField_2
	}
	return nil
}

func (x *P2All) GetSomeField_3() []int32 {
	if x != nil {
		return x.SomeField_3
	}
	return nil
}

func (x *P2All) GetSomeField_4() int32 {
	if x != nil && x.SomeField_4 != nil {
		return *x.SomeField_4
	}
	return Default_P2All_SomeField_4
}

func (x *P2All) GetSomeField_6() int64 {
	if x != nil && x.SomeField_6 != nil {
		return *x.SomeField_6
	}
	return 0
}

func (x *P2All) GetSomeField_7() []int64 {
	if x != nil {
		return x.SomeField_7
	}
	return nil
}

func (x *P2All) GetSomeField_8() []int64 {
	if x != nil {
		return x.SomeField_8
	}
	return nil
}

func (x *P2All) GetSomeField_9() int64 {
	if x != nil && x.SomeField_9 != nil {
		return *x.SomeField_9
	}
	return Default_P2All_SomeField_9
}

func (x *P2All) GetSomeField_11() uint32 {
	if x != nil && x.SomeField_11 != nil {
		return *x.SomeField_11
	}
	return 0
}

func (x *P2All) GetSomeField_12() []uint32 {
	if x != nil {
		return x.SomeField_12
	}
	return nil
}

func (x *P2All) GetSomeField_13() []uint32 {
	if x != nil {
		return x.SomeField_13
	}
	return nil
}

func (x *P2All) GetSomeField_14() uint32 {
	if x != nil && x.SomeField_14 != nil {
		return *x.SomeField_14
	}
	return Default_P2All_SomeField_14
}

func (x *P2All) GetSomeField_16() uint64 {
	if x != nil && x.SomeField_16 != nil {
		return *x.SomeField_16
	}
	return 0
}

func (x *P2All) GetSomeField_17() []uint64 {
	if x != nil {
		return x.SomeField_17
	}
	return nil
}

func (x *P2All) GetSomeField_18() []uint64 {
	if x != nil {
		return x.SomeField_18
	}
	return nil
}

func (x *P2All) GetSomeField_19() uint64 {
	if x != nil && x.SomeField_19 != nil {
		return *x.SomeField_19
	}
	return Default_P2All_SomeField_19
}

func (x *P2All) GetSomeField_21() int32 {
	if x != nil && x.SomeField_21 != nil {
		return *x.SomeField_21
	}
	return 0
}

func (x *P2All) GetSomeField_22() []int32 {
	if x != nil {
		return x.SomeField_22
	}
	return nil
}

func (x *P2All) GetSomeField_23() []int32 {
	if x != nil {
		return x.SomeField_23
	}
	return nil
}

func (x *P2All) GetSomeField_24() int32 {
	if x != nil && x.SomeField_24 != nil {
		return *x.SomeField_24
	}
	return Default_P2All_SomeField_24
}

func (x *P2All) GetSomeField_26() int64 {
	if x != nil && x.SomeField_26 != nil {
		return *x.SomeField_26
	}
	return 0
}

func (x *P2All) GetSomeField_27() []int64 {
	if x != nil {
		return x.SomeField_27
	}
	return nil
}

func (x *P2All) GetSomeField_28() []int64 {
	if x != nil {
		return x.SomeField_28
	}
	return nil
}

func (x *P2All) GetSomeField_29() int64 {
	if x != nil && x.SomeField_29 != nil {
		return *x.SomeField_29
	}
	return Default_P2All_SomeField_29
}

func (x *P2All) GetSomeField_31() uint32 {
	if x != nil && x.SomeField_31 != nil {
		return *x.SomeField_31
	}
	return 0
}

func (x *P2All) GetSomeField_32() []uint32 {
	if x != nil {
		return x.SomeField_32
	}
	return nil
}

func (x *P2All) GetSomeField_33() []uint32 {
	if x != nil {
		return x.SomeField_33
	}
	return nil
}

func (x *P2All) GetSomeField_34() uint32 {
	if x != nil && x.SomeField_34 != nil {
		return *x.SomeField_34
	}
	return Default_P2All_SomeField_34
}

func (x *P2All) GetSomeField_36() uint64 {
	if x != nil && x.SomeField_36 != nil {
		return *x.SomeField_36
	}
	return 0
}

func (x *P2All) GetSomeField_37() []uint64 {
	if x != nil {
		return x.SomeField_37
	}
	return nil
}

func (x *P2All) GetSomeField_38() []uint64 {
	if x != nil {
		return x.SomeField_38
	}
	return nil
}

func (x *P2All) GetSomeField_39() uint64 {
	if x != nil && x.SomeField_39 != nil {
		return *x.SomeField_39
	}
	return Default_P2All_SomeField_39
}

func (x *P2All) GetSomeField_41() int32 {
	if x != nil && x.SomeField_41 != nil {
		return *x.SomeField_41
	}
	return 0
}

func (x *P2All) GetSomeField_42() []int32 {
	if x != nil {
		return x.SomeField_42
	}
	return nil
}

func (x *P2All) GetSomeField_43() []int32 {
	if x != nil {
		return x.SomeField_43
	}
	return nil
}

func (x *P2All) GetSomeField_44() int32 {
	if x != nil && x.SomeField_44 != nil {
		return *x.SomeField_44
	}
	return Default_P2All_SomeField_44
}

func (x *P2All) GetSomeField_46() int64 {
	if x != nil && x.SomeField_46 != nil {
		return *x.SomeField_46
	}
	return 0
}

func (x *P2All) GetSomeField_47() []int64 {
	if x != nil {
		return x.SomeField_47
	}
	return nil
}

func (x *P2All) GetSomeField_48() []int64 {
	if x != nil {
		return x.SomeField_48
	}
	return nil
}

func (x *P2All) GetSomeField_49() int64 {
	if x != nil && x.SomeField_49 != nil {
		return *x.SomeField_49
	}
	return Default_P2All_SomeField_49
}

func (x *P2All) GetSomeField_51() float32 {
	if x != nil && x.SomeField_51 != nil {
		return *x.SomeField_51
	}
	return 0
}

func (x *P2All) GetSomeField_52() []float32 {
	if x != nil {
		return x.SomeField_52
	}
	return nil
}

func (x *P2All) GetSomeField_53() []float32 {
	if x != nil {
		return x.SomeField_53
	}
	return nil
}

func (x *P2All) GetSomeField_54() float32 {
	if x != nil && x.SomeField_54 != nil {
		return *x.SomeField_54
	}
	return Default_P2All_SomeField_54
}

func (x *P2All) GetSomeField_56() float64 {
	if x != nil && x.SomeField_56 != nil {
		return *x.SomeField_56
	}
	return 0
}

func (x *P2All) GetSomeField_57() []float64 {
	if x != nil {
		return x.SomeField_57
	}
	return nil
}

func (x *P2All) GetSomeField_58() []float64 {
	if x != nil {
		return x.SomeField_58
	}
	return nil
}

func (x *P2All) GetSomeField_59() float64 {
	if x != nil && x.SomeField_59 != nil {
		return *x.SomeField_59
	}
	return Default_P2All_SomeField_59
}

func (x *P2All) GetSomeField_61() bool {
	if x != nil && x.SomeField_61 != nil {
		return *x.SomeField_61
	}
	return false
}

func (x *P2All) GetSomeField_62() []bool {
	if x != nil {
		return x.SomeField_62
	}
	return nil
}

func (x *P2All) GetSomeField_63() []bool {
	if x != nil {
		return x.SomeField_63
	}
	return nil
}

func (x *P2All) GetSomeField_64() bool {
	if x != nil && x.SomeField_64 != nil {
		return *x.SomeField_64
	}
	return Default_P2All_SomeField_64
}

func (x *P2All) GetSomeField_66() P2E {
	if x != nil && x.SomeField_66 != nil {
		return *x.SomeField_66
	}
	return P2E_P2ZERO
}

func (x *P2All) GetSomeField_67() []P2E {
	if x != nil {
		return x.SomeField_67
	}
	return nil
}

func (x *P2All) GetSomeField_68() []P2E {
	if x != nil {
		return x.SomeField_68
	}
	return nil
}

func (x *P2All) GetSomeField_69() P2E {
	if x != nil && x.SomeField_69 != nil {
		return *x.SomeField_69
	}
	return Default_P2All_SomeField_69
}

func (x *P2All) GetSomeField_71() string {
	if x != nil && x.SomeField_71 != nil {
		return *x.SomeField_71
	}
	return ""
}

func (x *P2All) GetSomeField_72() []string {
	if x != nil {
		return x.SomeField_72
	}
	return nil
}

func (x *P2All) GetSomeField_73() string {
	if x != nil && x.SomeField_73 != nil {
		return *x.SomeField_73
	}
	return Default_P2All_SomeField_73
}

func (x *P2All) GetSomeField_75() []byte {
	if x != nil {
		return x.SomeField_75
	}
	return nil
}

func (x *P2All) GetSomeField_76() [][]byte {
	if x != nil {
		return x.SomeField_76
	}
	return nil
}

func (x *P2All) GetSomeField_77() []byte {
	if x != nil && x.SomeField_77 != nil {
		return x.SomeField_77
	}
	return append([]byte(nil), Default_P2All_SomeField_77...)
}

func (x *P2All) GetSomeField_79() *P2All {
	if x != nil {
		return x.SomeField_79
	}
	return nil
}

func (x *P2All) GetSomeField_80() []*P2All {
	if x != nil {
		return x.SomeField_80
	}
	return nil
}

func (x *P2All) GetPick() isP2All_Pick {
	if x != nil {
		return x.Pick
	}
	return nil
}

func (x *P2All) GetSomeField_5() int32 {
	if x != nil {
		if x, ok := x.Pick.(*P2All_SomeField_5); ok {
			return x.SomeField_5
		}
	}
	return 0
}

func (x *P2All) GetSomeField_10() int64 {
	if x != nil {
		if x, ok := x.Pick.(*P2All_SomeField_10); ok {
			return x.SomeField_10
		}
	}
	return 0
}

func (x *P2All) GetSomeField_15() uint32 {
	if x != nil {
		if x, ok := x.Pick.(*P2All_SomeField_15); ok {
			return x.SomeField_15
		}
	}
	return 0
}

func (x *P2All) GetSomeField_20() uint64 {
	if x != nil {
		if x, ok := x.Pick.(*P2All_SomeField_20); ok {
			return x.SomeField_20
		}
	}
	return 0
}

func (x *P2All) GetSomeField_25() int32 {
	if x != nil {
		if x, ok := x.Pick.(*P2All_SomeField_25); ok {
			return x.SomeField_25
		}
	}
	return 0
}

func (x *P2All) GetSomeField_30() int64 {
	if x != nil {
		if x, ok := x.Pick.(*P2All_SomeField_30); ok {
			return x.SomeField_30
		}
	}
	return 0
}

func (x *P2All) GetSomeField_35() uint32 {
	if x != nil {
		if x, ok := x.Pick.(*P2All_SomeField_35); ok {
			return x.SomeField_35
		}
	}
	return 0
}

func (x *P2All) GetSomeField_40() uint64 {
	if x != nil {
		if x, ok := x.Pick.(*P2All_SomeField_40); ok {
			return x.SomeField_40
		}
	}
	return 0
}

func (x *P2All) GetSomeField_45() int32 {
	if x != nil {
		if x, ok := x.Pick.(*P2All_SomeField_45); ok {
			return x.SomeField_45
		}
	}
	return 0
}

func (x *P2All) GetSomeField_50() int64 {
	if x != nil {
		if x, ok := x.Pick.(*P2All_SomeField_50); ok {
			return x.SomeField_50
		}
	}
	return 0
}

func (x *P2All) GetSomeField_55() float32 {
	if x != nil {
		if x, ok := x.Pick.(*P2All_SomeField_55); ok {
			return x.SomeField_55
		}
	}
	return 0
}

func (x *P2All) GetSomeField_60() float64 {
	if x != nil {
		if x, ok := x.Pick.(*P2All_SomeField_60); ok {
			return x.SomeField_60
		}
	}
	return 0
}

func (x *P2All) GetSomeField_65() bool {
	if x != nil {
		if x, ok := x.Pick.(*P2All_SomeField_65); ok {
			return x.SomeField_65
		}
	}
	return false
}

func (x *P2All) GetSomeField_70() P2E {
	if x != nil {
		if x, ok := x.Pick.(*P2All_SomeField_70); ok {
			return x.SomeField_70
		}
	}
	return P2E_P2ZERO
}

func (x *P2All) GetSomeField_74() string {
	if x != nil {
		if x, ok := x.Pick.(*P2All_SomeField_74); ok {
			return x.SomeField_74
		}
	}
	return ""
}

func (x *P2All) GetSomeField_78() []byte {
	if x != nil {
		if x, ok := x.Pick.(*P2All_SomeField_78); ok {
			return x.SomeField_78
		}
	}
	return nil
}

func (x *P2All) GetSomeField_81() *P2All {
	if x != nil {
		if x, ok := x.Pick.(*P2All_SomeField_81); ok {
			return x.SomeField_81
		}
	}
	return nil
}

type isP2All_Pick interface {
	isP2All_Pick()
}

type P2All_SomeField_5 struct {
	SomeField_5 int32 `protobuf:"varint,5,opt,name=some_field_5,json=someField5,oneof"`
}

type P2All_SomeField_10 struct {
	SomeField_10 int64 `protobuf:"varint,10,opt,name=some_field_10,json=someField10,oneof"`
}

type P2All_SomeField_15 struct {
	SomeField_15 uint32 `protobuf:"varint,15,opt,name=some_field_15,json=someField15,oneof"`
}

type P2All_SomeField_20 struct {
	SomeField_20 uint64 `protobuf:"varint,20,opt,name=some_field_20,json=someField20,oneof"`
}

type P2All_SomeField_25 struct {
	SomeField_25 int32 `protobuf:"zigzag32,25,opt,name=some_field_25,json=someField25,oneof"`
}

type P2All_SomeField_30 struct {
	SomeField_30 int64 `protobuf:"zigzag64,30,opt,name=some_field_30,json=someField30,oneof"`
}

type P2All_SomeField_35 struct {
	SomeField_35 uint32 `protobuf:"fixed32,35,opt,name=some_field_35,json=someField35,oneof"`
}

type P2All_SomeField_40 struct {
	SomeField_40 uint64 `protobuf:"fixed64,40,opt,name=some_field_40,json=someField40,oneof"`
}

type P2All_SomeField_45 struct {
	SomeField_45 int32 `protobuf:"fixed32,45,opt,name=some_field_45,json=someField45,oneof"`
}

type P2All_SomeField_50 struct {
	SomeField_50 int64 `protobuf:"fixed64,50,opt,name=some_field_50,json=someField50,oneof"`
}

type P2All_SomeField_55 struct {
	SomeField_55 float32 `protobuf:"fixed32,55,opt,name=some_field_55,json=someField55,oneof"`
}

type P2All_SomeField_60 struct {
	SomeField_60 float64 `protobuf:"fixed64,60,opt,name=some_field_60,json=someField60,oneof"`
}

type P2All_SomeField_65 struct {
	SomeField_65 bool `protobuf:"varint,65,opt,name=some_field_65,json=someField65,oneof"`
}

type P2All_SomeField_70 struct {
	SomeField_70 P2E `protobuf:"varint,70,opt,name=some_field_70,json=someField70,enum=fxp2.P2E,oneof"`
}

type P2All_SomeField_74 struct {
	SomeField_74 string `protobuf:"bytes,74,opt,name=some_field_74,json=someField74,oneof"`
}

type P2All_SomeField_78 struct {
	SomeField_78 []byte `protobuf:"bytes,78,opt,name=some_field_78,json=someField78,oneof"`
}

type P2All_SomeField_81 struct {
	SomeField_81 *P2All `protobuf:"bytes,81,opt,name=some_field_81,json=someField81,oneof"`
}

func (*P2All_SomeField_5) isP2All_Pick() {}

func (*P2All_SomeField_10) isP2All_Pick() {}

func (*P2All_SomeField_15) isP2All_Pick() {}

func (*P2All_SomeField_20) isP2All_Pick() {}

func (*P2All_SomeField_25) isP2All_Pick() {}

func (*P2All_SomeField_30) isP2All_Pick() {}

func (*P2All_SomeField_35) isP2All_Pick() {}

func (*P2All_SomeField_40) isP2All_Pick() {}

func (*P2All_SomeField_45) isP2All_Pick() {}

func (*P2All_SomeField_50) isP2All_Pick() {}

func (*P2All_SomeField_55) isP2All_Pick() {}

func (*P2All_SomeField_60) isP2All_Pick() {}

func (*P2All_SomeField_65) isP2All_Pick() {}

func (*P2All_SomeField_70) isP2All_Pick() {}

func (*P2All_SomeField_74) isP2All_Pick() {}

func (*P2All_SomeField_78) isP2All_Pick() {}

func (*P2All_SomeField_81) isP2All_Pick() {}

var File_fxp2_proto protoreflect.FileDescriptor

const file_fxp2_proto_rawDesc = "" +
	"\n" +
	"\n" +
	"fxp2.proto\x12\x04fxp2\"\xde\x10\n" +
	"\x05P2All\x12\x14\n" +
	"\fsome_field_1\x18\x01 \x01(\x05\x12\x14\n" +
	"\fsome_field_2\x18\x02 \x03(\x05\x12\x18\n" +
	"\fsome_field_3\x18\x03 \x03(\x05B\x02\x10\x01\x12\x17\n" +
	"\fsome_field_4\x18\x04 \x01(\x05:\x011\x12\x14\n" +
	"\fsome_field_6\x18\x06 \x01(\x03\x12\x14\n" +
	"\fsome_field_7\x18\a \x03(\x03\x12\x18\n" +
	"\fsome_field_8\x18\b \x03(\x03B\x02\x10\x01\x12\x17\n" +
	"\fsome_field_9\x18\t \x01(\x03:\x011\x12\x15\n" +
	"\rsome_field_11\x18\v \x01(\r\x12\x15\n" +
	"\rsome_field_12\x18\f \x03(\r\x12\x19\n" +
	"\rsome_field_13\x18\r \x03(\rB\x02\x10\x01\x12\x18\n" +
	"\rsome_field_14\x18\x0e \x01(\r:\x011\x12\x15\n" +
	"\rsome_field_16\x18\x10 \x01(\x04\x12\x15\n" +
	"\rsome_field_17\x18\x11 \x03(\x04\x12\x19\n" +
	"\rsome_field_18\x18\x12 \x03(\x04B\x02\x10\x01\x12\x18\n" +
	"\rsome_field_19\x18\x13 \x01(\x04:\x011\x12\x15\n" +
	"\rsome_field_21\x18\x15 \x01(\x11\x12\x15\n" +
	"\rsome_field_22\x18\x16 \x03(\x11\x12\x19\n" +
	"\rsome_field_23\x18\x17 \x03(\x11B\x02\x10\x01\x12\x18\n" +
	"\rsome_field_24\x18\x18 \x01(\x11:\x011\x12\x15\n" +
	"\rsome_field_26\x18\x1a \x01(\x12\x12\x15\n" +
	"\rsome_field_27\x18\x1b \x03(\x12\x12\x19\n" +
	"\rsome_field_28\x18\x1c \x03(\x12B\x02\x10\x01\x12\x18\n" +
	"\rsome_field_29\x18\x1d \x01(\x12:\x011\x12\x15\n" +
	"\rsome_field_31\x18\x1f \x01(\a\x12\x15\n" +
	"\rsome_field_32\x18  \x03(\a\x12\x19\n" +
	"\rsome_field_33\x18! \x03(\aB\x02\x10\x01\x12\x18\n" +
	"\rsome_field_34\x18\" \x01(\a:\x011\x12\x15\n" +
	"\rsome_field_36\x18$ \x01(\x06\x12\x15\n" +
	"\rsome_field_37\x18% \x03(\x06\x12\x19\n" +
	"\rsome_field_38\x18& \x03(\x06B\x02\x10\x01\x12\x18\n" +
	"\rsome_field_39\x18' \x01(\x06:\x011\x12\x15\n" +
	"\rsome_field_41\x18) \x01(\x0f\x12\x15\n" +
	"\rsome_field_42\x18* \x03(\x0f\x12\x19\n" +
	"\rsome_field_43\x18+ \x03(\x0fB\x02\x10\x01\x12\x18\n" +
	"\rsome_field_44\x18, \x01(\x0f:\x011\x12\x15\n" +
	"\rsome_field_46\x18. \x01(\x10\x12\x15\n" +
	"\rsome_field_47\x18/ \x03(\x10\x12\x19\n" +
	"\rsome_field_48\x180 \x03(\x10B\x02\x10\x01\x12\x18\n" +
	"\rsome_field_49\x181 \x01(\x10:\x011\x12\x15\n" +
	"\rsome_field_51\x183 \x01(\x02\x12\x15\n" +
	"\rsome_field_52\x184 \x03(\x02\x12\x19\n" +
	"\rsome_field_53\x185 \x03(\x02B\x02\x10\x01\x12\x18\n" +
	"\rsome_field_54\x186 \x01(\x02:\x011\x12\x15\n" +
	"\rsome_field_56\x188 \x01(\x01\x12\x15\n" +
	"\rsome_field_57\x189 \x03(\x01\x12\x19\n" +
	"\rsome_field_58\x18: \x03(\x01B\x02\x10\x01\x12\x18\n" +
	"\rsome_field_59\x18; \x01(\x01:\x011\x12\x15\n" +
	"\rsome_field_61\x18= \x01(\b\x12\x15\n" +
	"\rsome_field_62\x18> \x03(\b\x12\x19\n" +
	"\rsome_field_63\x18? \x03(\bB\x02\x10\x01\x12\x1b\n" +
	"\rsome_field_64\x18@ \x01(\b:\x04true\x12 \n" +
	"\rsome_field_66\x18B \x01(\x0e2\t.fxp2.P2E\x12 \n" +
	"\rsome_field_67\x18C \x03(\x0e2\t.fxp2.P2E\x12$\n" +
	"\rsome_field_68\x18D \x03(\x0e2\t.fxp2.P2EB\x02\x10\x01\x12'\n" +
	"\rsome_field_69\x18E \x01(\x0e2\t.fxp2.P2E:\x05P2ONE\x12\x15\n" +
	"\rsome_field_71\x18G \x01(\t\x12\x15\n" +
	"\rsome_field_72\x18H \x03(\t\x12%\n" +
	"\rsome_field_73\x18I \x01(\t:\x0ea,3,rep,packed\x12\x15\n" +
	"\rsome_field_75\x18K \x01(\f\x12\x15\n" +
	"\rsome_field_76\x18L \x03(\f\x12%\n" +
	"\rsome_field_77\x18M \x01(\f:\x0ea,3,rep,packed\x12\"\n" +
	"\rsome_field_79\x18O \x01(\v2\v.fxp2.P2All\x12\"\n" +
	"\rsome_field_80\x18P \x03(\v2\v.fxp2.P2All\x12\x16\n" +
	"\fsome_field_5\x18\x05 \x01(\x05H\x00\x12\x17\n" +
	"\rsome_field_10\x18\n" +
	" \x01(\x03H\x00\x12\x17\n" +
	"\rsome_field_15\x18\x0f \x01(\rH\x00\x12\x17\n" +
	"\rsome_field_20\x18\x14 \x01(\x04H\x00\x12\x17\n" +
	"\rsome_field_25\x18\x19 \x01(\x11H\x00\x12\x17\n" +
	"\rsome_field_30\x18\x1e \x01(\x12H\x00\x12\x17\n" +
	"\rsome_field_35\x18# \x01(\aH\x00\x12\x17\n" +
	"\rsome_field_40\x18( \x01(\x06H\x00\x12\x17\n" +
	"\rsome_field_45\x18- \x01(\x0fH\x00\x12\x17\n" +
	"\rsome_field_50\x182 \x01(\x10H\x00\x12\x17\n" +
	"\rsome_field_55\x187 \x01(\x02H\x00\x12\x17\n" +
	"\rsome_field_60\x18< \x01(\x01H\x00\x12\x17\n" +
	"\rsome_field_65\x18A \x01(\bH\x00\x12\"\n" +
	"\rsome_field_70\x18F \x01(\x0e2\t.fxp2.P2EH\x00\x12\x17\n" +
	"\rsome_field_74\x18J \x01(\tH\x00\x12\x17\n" +
	"\rsome_field_78\x18N \x01(\fH\x00\x12$\n" +
	"\rsome_field_81\x18Q \x01(\v2\v.fxp2.P2AllH\x00*\x06\b\xe8\a\x10\xd0\x0fB\x06\n" +
	"\x04pick*0\n" +
	"\x03P2E\x12\n" +
	"\n" +
	"\x06P2ZERO\x10\x00\x12\t\n" +
	"\x05P2ONE\x10\x01\x12\x12\n" +
	"\x05P2NEG\x10\xf9\xff\xff\xff\xff\xff\xff\xff\xff\x01B\x16Z\x14verif/fixtures/pb;pb"

var (
	file_fxp2_proto_rawDescOnce sync.Once
	file_fxp2_proto_rawDescData []byte
)

func file_fxp2_proto_rawDescGZIP() []byte {
	file_fxp2_proto_rawDescOnce.Do(func() {
		file_fxp2_proto_rawDescData = protoimpl.X.CompressGZIP(unsafe.Slice(unsafe.StringData(file_fxp2_proto_rawDesc), len(file_fxp2_proto_rawDesc)))
	})
	return file_fxp2_proto_rawDescData
}

var file_fxp2_proto_enumTypes = make([]protoimpl.EnumInfo, 1)
var file_fxp2_proto_msgTypes = make([]protoimpl.MessageInfo, 1)
var file_fxp2_proto_goTypes = []any{
	(P2E)(0),      // 0: fxp2.P2E
	(*P2All)(nil), // 1: fxp2.P2All
}
var file_fxp2_proto_depIdxs = []int32{
	0, // 0: fxp2.P2All.some_field_66:type_name -> fxp2.P2E
	0, // 1: fxp2.P2All.some_field_67:type_name -> fxp2.P2E
	0, // 2: fxp2.P2All.some_field_68:type_name -> fxp2.P2E
	0, // 3: fxp2.P2All.some_field_69:type_name -> fxp2.P2E
	1, // 4: fxp2.P2All.some_field_79:type_name -> fxp2.P2All
	1, // 5: fxp2.P2All.some_field_80:type_name -> fxp2.P2All
	0, // 6: fxp2.P2All.some_field_70:type_name -> fxp2.P2E
	1, // 7: fxp2.P2All.some_field_81:type_name -> fxp2.P2All
	8, // [8:8] is the sub-list for method output_type
	8, // [8:8] is the sub-list for method input_type
	8, // [8:8] is the sub-list for extension type_name
	8, // [8:8] is the sub-list for extension extendee
	0, // [0:8] is the sub-list for field type_name
}

func init() { file_fxp2_proto_init() }
func file_fxp2_proto_init() {
	if File_fxp2_proto != nil {
		return
	}
	file_fxp2_proto_msgTypes[0].OneofWrappers = []any{
		(*P2All_SomeField_5)(nil),
		(*P2All_SomeField_10)(nil),
		(*P2All_SomeField_15)(nil),
		(*P2All_SomeField_20)(nil),
		(*P2All_SomeField_25)(nil),
		(*P2All_SomeField_30)(nil),
		(*P2All_SomeField_35)(nil),
		(*P2All_SomeField_40)(nil),
		(*P2All_SomeField_45)(nil),
		(*P2All_SomeField_50)(nil),
		(*P2All_SomeField_55)(nil),
		(*P2All_SomeField_60)(nil),
		(*P2All_SomeField_65)(nil),
		(*P2All_SomeField_70)(nil),
		(*P2All_SomeField_74)(nil),
		(*P2All_SomeField_78)(nil),
		(*P2All_SomeField_81)(nil),
	}
	type x struct{}
	out := protoimpl.TypeBuilder{
		File: protoimpl.DescBuilder{
			GoPackagePath: reflect.TypeOf(x{}).PkgPath(),
			RawDescriptor: unsafe.Slice(unsafe.StringData(file_fxp2_proto_rawDesc), len(file_fxp2_proto_rawDesc)),
			NumEnums:      1,
			NumMessages:   1,
			NumExtensions: 0,
			NumServices:   0,
		},
		GoTypes:           file_fxp2_proto_goTypes,
		DependencyIndexes: file_fxp2_proto_depIdxs,
		EnumInfos:         file_fxp2_proto_enumTypes,
		MessageInfos:      file_fxp2_proto_msgTypes,
	}.Build()
	File_fxp2_proto = out.File
	file_fxp2_proto_goTypes = nil
	file_fxp2_proto_depIdxs = nil
}
