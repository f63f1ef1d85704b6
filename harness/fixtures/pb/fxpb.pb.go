// Code generated by protoc-gen-go. DO NOT EDIT.
// versions:
// 	protoc-gen-go v1.36.11
// 	protoc        (unknown)
// source: fxpb.proto

package pb

import (
	protoreflect "google.golang.org/protobuf/reflect/protoreflect"
	protoimpl "google.golang.org/protobuf/runtime/protoimpl"
	reflect "reflect"
	sync "sync"
	unsafe "unsafe"
)

const (
	// Verify that this generated code is sufficiently up-to-date.
	_ = protoimpl.EnforceVersion(20 - protoimpl.MinVersion)
	// Verify that runtime/protoimpl is sufficiently up-to-date.
	_ = protoimpl.EnforceVersion(protoimpl.MaxVersion - 20)
)

type E int32

const (
	E_E_ZERO E = 0
	E_E_ONE  E = 1
	E_E_NEG  E = -1
	E_E_BIG  E = 2147483647
	E_E_MIN  E = -2147483648
)

// Enum value maps for E.
var (
	E_name = map[int32]string{
		0:           "E_ZERO",
		1:           "E_ONE",
		-1:          "E_NEG",
		2147483647:  "E_BIG",
		-2147483648: "E_MIN",
	}
	E_value = map[string]int32{
		"E_ZERO": 0,
		"E_ONE":  1,
		"E_NEG":  -1,
		"E_BIG":  2147483647,
		"E_MIN":  -2147483648,
	}
)

func (x E) Enum() *E {
	p := new(E)
	*p = x
	return p
}

func (x E) String() string {
	return protoimpl.X.EnumStringOf(x.Descriptor(), protoreflect.EnumNumber(x))
}

func (E) Descriptor() protoreflect.EnumDescriptor {
	return file_fxpb_proto_enumTypes[0].Descriptor()
}

func (E) Type() protoreflect.EnumType {
	return &file_fxpb_proto_enumTypes[0]
}

func (x E) Number() protoreflect.EnumNumber {
	return protoreflect.EnumNumber(x)
}

// Deprecated: Use E.Descriptor instead.
func (E) EnumDescriptor() ([]byte, []int) {
	return file_fxpb_proto_rawDescGZIP(), []int{0}
}

type S0M1 struct {
	state   protoimpl.MessageState `protogen:"open.v1"`
	F20     []*S0M2                `protobuf:"bytes,20,rep,name=f20" json:"f20,omitempty"`
	F15     *float64               `protobuf:"fixed64,15,req,name=f15" json:"f15,omitempty"`
	F2048   *S0M7                  `protobuf:"bytes,2048,opt,name=f2048" json:"f2048,omitempty"`
	F262144 map[uint32]uint32      `protobuf:"bytes,262144,rep,name=f262144" json:"f262144,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value"`
	F9      int32                  `protobuf:"fixed32,9,opt,name=f9" json:"f9,omitempty"`
	F778    *uint64                `protobuf:"fixed64,778,opt,name=f778" json:"f778,omitempty"`
	F352    map[int32]uint64       `protobuf:"bytes,352,rep,name=f352" json:"f352,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value"`
	// Types that are valid to be assigned to O0:
	//
	//	*S0M1_F11
	//	*S0M1_F28
	O0            isS0M1_O0 `protobuf_oneof:"o0"`
	unknownFields protoimpl.UnknownFields
	sizeCache     protoimpl.SizeCache
}

func (x *S0M1) Reset() {
	*x = S0M1{}
	mi := &file_fxpb_proto_msgTypes[0]
	ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
	ms.StoreMessageInfo(mi)
}

func (x *S0M1) String() string {
	return protoimpl.X.MessageStringOf(x)
}

func (*S0M1) ProtoMessage() {}

func (x *S0M1) ProtoReflect() protoreflect.Message {
	mi := &file_fxpb_proto_msgTypes[0]
	if x != nil {
		ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
		if ms.LoadMessageInfo() == nil {
			ms.StoreMessageInfo(mi)
		}
		return ms
	}
	return mi.MessageOf(x)
}

// Deprecated: Use S0M1.ProtoReflect.Descriptor instead.
func (*S0M1) Descriptor() ([]byte, []int) {
	return file_fxpb_proto_rawDescGZIP(), []int{0}
}

func (x *S0M1) GetF20() []*S0M2 {
	if x != nil {
		return x.F20
	}
	return nil
}

func (x *S0M1) GetF15() float64 {
	if x != nil && x.F15 != nil {
		return *x.F15
	}
	return 0
}

func (x *S0M1) GetF2048() *S0M7 {
	if x != nil {
		return x.F2048
	}
	return nil
}

func (x *S0M1) GetF262144() map[uint32]uint32 {
	if x != nil {
		return x.F262144
	}
	return nil
}

func (x *S0M1) GetF9() int32 {
	if x != nil {
		return x.F9
	}
	return 0
}

func (x *S0M1) GetF778() uint64 {
	if x != nil && x.F778 != nil {
		return *x.F778
	}
	return 0
}

func (x *S0M1) GetF352() map[int32]uint64 {
	if x != nil {
		return x.F352
	}
	return nil
}

func (x *S0M1) GetO0() isS0M1_O0 {
	if x != nil {
		return x.O0
	}
	return nil
}

func (x *S0M1) GetF11() *S0M3 {
	if x != nil {
		if x, ok := x.O0.(*S0M1_F11); ok {
			return x.F11
		}
	}
	return nil
}

func (x *S0M1) GetF28() []byte {
	if x != nil {
		if x, ok := x.O0.(*S0M1_F28); ok {
			return x.F28
		}
	}
	return nil
}

type isS0M1_O0 interface {
	isS0M1_O0()
}

type S0M1_F11 struct {
	F11 *S0M3 `protobuf:"bytes,11,opt,name=f11,oneof"`
}

type S0M1_F28 struct {
	F28 []byte `protobuf:"bytes,28,opt,name=f28,oneof"`
}

func (*S0M1_F11) isS0M1_O0() {}

func (*S0M1_F28) isS0M1_O0() {}

type S0M2 struct {
	state protoimpl.MessageState `protogen:"open.v1"`
	F1    *string                `protobuf:"bytes,1,opt,name=f1" json:"f1,omitempty"`
	// Types that are valid to be assigned to O0:
	//
	//	*S0M2_F4
	//	*S0M2_F14
	O0            isS0M2_O0 `protobuf_oneof:"o0"`
	unknownFields protoimpl.UnknownFields
	sizeCache     protoimpl.SizeCache
}

func (x *S0M2) Reset() {
	*x = S0M2{}
	mi := &file_fxpb_proto_msgTypes[1]
	ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
	ms.StoreMessageInfo(mi)
}

func (x *S0M2) String() string {
	return protoimpl.X.MessageStringOf(x)
}

func (*S0M2) ProtoMessage() {}

func (x *S0M2) ProtoReflect() protoreflect.Message {
	mi := &file_fxpb_proto_msgTypes[1]
	if x != nil {
		ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
		if ms.LoadMessageInfo() == nil {
			ms.StoreMessageInfo(mi)
		}
		return ms
	}
	return mi.MessageOf(x)
}

// Deprecated: Use S0M2.ProtoReflect.Descriptor instead.
func (*S0M2) Descriptor() ([]byte, []int) {
	return file_fxpb_proto_rawDescGZIP(), []int{1}
}

func (x *S0M2) GetF1() string {
	if x != nil && x.F1 != nil {
		return *x.F1
	}
	return ""
}

func (x *S0M2) GetO0() isS0M2_O0 {
	if x != nil {
		return x.O0
	}
	return nil
}

func (x *S0M2) GetF4() float32 {
	if x != nil {
		if x, ok := x.O0.(*S0M2_F4); ok {
			return x.F4
		}
	}
	return 0
}

func (x *S0M2) GetF14() int32 {
	if x != nil {
		if x, ok := x.O0.(*S0M2_F14); ok {
			return x.F14
		}
	}
	return 0
}

type isS0M2_O0 interface {
	isS0M2_O0()
}

type S0M2_F4 struct {
	F4 float32 `protobuf:"fixed32,4,opt,name=f4,oneof"`
}

type S0M2_F14 struct {
	F14 int32 `protobuf:"zigzag32,14,opt,name=f14,oneof"`
}

func (*S0M2_F4) isS0M2_O0() {}

func (*S0M2_F14) isS0M2_O0() {}

type S0M3 struct {
	state         protoimpl.MessageState `protogen:"open.v1"`
	F4            []*S0M4                `protobuf:"bytes,4,rep,name=f4" json:"f4,omitempty"`
	F995          *int64                 `protobuf:"zigzag64,995,opt,name=f995" json:"f995,omitempty"`
	F25           uint32                 `protobuf:"fixed32,25,opt,name=f25" json:"f25,omitempty"`
	F18999        float32                `protobuf:"fixed32,18999,opt,name=f18999" json:"f18999,omitempty"`
	F374          *E                     `protobuf:"varint,374,opt,name=f374,enum=fxpb.E" json:"f374,omitempty"`
	F33554431     *S0M5                  `protobuf:"bytes,33554431,opt,name=f33554431" json:"f33554431,omitempty"`
	F182          uint64                 `protobuf:"varint,182,opt,name=f182" json:"f182,omitempty"`
	F3            *uint64                `protobuf:"fixed64,3,opt,name=f3" json:"f3,omitempty"`
	F7            map[int64]*S0M6        `protobuf:"bytes,7,rep,name=f7" json:"f7,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	unknownFields protoimpl.UnknownFields
	sizeCache     protoimpl.SizeCache
}

func (x *S0M3) Reset() {
	*x = S0M3{}
	mi := &file_fxpb_proto_msgTypes[2]
	ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
	ms.StoreMessageInfo(mi)
}

func (x *S0M3) String() string {
	return protoimpl.X.MessageStringOf(x)
}

func (*S0M3) ProtoMessage() {}

func (x *S0M3) ProtoReflect() protoreflect.Message {
	mi := &file_fxpb_proto_msgTypes[2]
	if x != nil {
		ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
		if ms.LoadMessageInfo() == nil {
			ms.StoreMessageInfo(mi)
		}
		return ms
	}
	return mi.MessageOf(x)
}

// Deprecated: Use S0M3.ProtoReflect.Descriptor instead.
func (*S0M3) Descriptor() ([]byte, []int) {
	return file_fxpb_proto_rawDescGZIP(), []int{2}
}

func (x *S0M3) GetF4() []*S0M4 {
	if x != nil {
		return x.F4
	}
	return nil
}

func (x *S0M3) GetF995() int64 {
	if x != nil && x.F995 != nil {
		return *x.F995
	}
	return 0
}

func (x *S0M3) GetF25() uint32 {
	if x != nil {
		return x.F25
	}
	return 0
}

func (x *S0M3) GetF18999() float32 {
	if x != nil {
		return x.F18999
	}
	return 0
}

func (x *S0M3) GetF374() E {
	if x != nil && x.F374 != nil {
		return *x.F374
	}
	return E_E_ZERO
}

func (x *S0M3) GetF33554431() *S0M5 {
	if x != nil {
		return x.F33554431
	}
	return nil
}

func (x *S0M3) GetF182() uint64 {
	if x != nil {
		return x.F182
	}
	return 0
}

func (x *S0M3) GetF3() uint64 {
	if x != nil && x.F3 != nil {
		return *x.F3
	}
	return 0
}

func (x *S0M3) GetF7() map[int64]*S0M6 {
	if x != nil {
		return x.F7
	}
	return nil
}

type S0M4 struct {
	state protoimpl.MessageState `protogen:"open.v1"`
	F6    []string               `protobuf:"bytes,6,rep,name=f6" json:"f6,omitempty"`
	F13   []int64                `protobuf:"zigzag64,13,rep,packed,name=f13" json:"f13,omitempty"`
	// Types that are valid to be assigned to O0:
	//
	//	*S0M4_F20000
	O0            isS0M4_O0 `protobuf_oneof:"o0"`
	unknownFields protoimpl.UnknownFields
	sizeCache     protoimpl.SizeCache
}

func (x *S0M4) Reset() {
	*x = S0M4{}
	mi := &file_fxpb_proto_msgTypes[3]
	ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
	ms.StoreMessageInfo(mi)
}

func (x *S0M4) String() string {
	return protoimpl.X.MessageStringOf(x)
}

func (*S0M4) ProtoMessage() {}

func (x *S0M4) ProtoReflect() protoreflect.Message {
	mi := &file_fxpb_proto_msgTypes[3]
	if x != nil {
		ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
		if ms.LoadMessageInfo() == nil {
			ms.StoreMessageInfo(mi)
		}
		return ms
	}
	return mi.MessageOf(x)
}

// Deprecated: Use S0M4.ProtoReflect.Descriptor instead.
func (*S0M4) Descriptor() ([]byte, []int) {
	return file_fxpb_proto_rawDescGZIP(), []int{3}
}

func (x *S0M4) GetF6() []string {
	if x != nil {
		return x.F6
	}
	return nil
}

func (x *S0M4) GetF13() []int64 {
	if x != nil {
		return x.F13
	}
	return nil
}

func (x *S0M4) GetO0() isS0M4_O0 {
	if x != nil {
		return x.O0
	}
	return nil
}

func (x *S0M4) GetF20000() int32 {
	if x != nil {
		if x, ok := x.O0.(*S0M4_F20000); ok {
			return x.F20000
		}
	}
	return 0
}

type isS0M4_O0 interface {
	isS0M4_O0()
}

type S0M4_F20000 struct {
	F20000 int32 `protobuf:"fixed32,20000,opt,name=f20000,oneof"`
}

func (*S0M4_F20000) isS0M4_O0() {}

type S0M5 struct {
	state protoimpl.MessageState `protogen:"open.v1"`
	F1006 map[uint64]bool        `protobuf:"bytes,1006,rep,name=f1006" json:"f1006,omitempty" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	F719  int32                  `protobuf:"fixed32,719,opt,name=f719" json:"f719,omitempty"`
	F9    [][]byte               `protobuf:"bytes,9,rep,name=f9" json:"f9,omitempty"`
	F19   map[int64]string       `protobuf:"bytes,19,rep,name=f19" json:"f19,omitempty" protobuf_key:"zigzag64,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	F618  int64                  `protobuf:"zigzag64,618,opt,name=f618" json:"f618,omitempty"`
	F662  *float64               `protobuf:"fixed64,662,opt,name=f662" json:"f662,omitempty"`
	F3    map[int32]uint32       `protobuf:"bytes,3,rep,name=f3" json:"f3,omitempty" protobuf_key:"zigzag32,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	// Types that are valid to be assigned to O0:
	//
	//	*S0M5_F24
	O0 isS0M5_O0 `protobuf_oneof:"o0"`
	// Types that are valid to be assigned to O1:
	//
	//	*S0M5_F16
	//	*S0M5_F10
	O1            isS0M5_O1 `protobuf_oneof:"o1"`
	unknownFields protoimpl.UnknownFields
	sizeCache     protoimpl.SizeCache
}

func (x *S0M5) Reset() {
	*x = S0M5{}
	mi := &file_fxpb_proto_msgTypes[4]
	ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
	ms.StoreMessageInfo(mi)
}

func (x *S0M5) String() string {
	return protoimpl.X.MessageStringOf(x)
}

func (*S0M5) ProtoMessage() {}

func (x *S0M5) ProtoReflect() protoreflect.Message {
	mi := &file_fxpb_proto_msgTypes[4]
	if x != nil {
		ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
		if ms.LoadMessageInfo() == nil {
			ms.StoreMessageInfo(mi)
		}
		return ms
	}
	return mi.MessageOf(x)
}

// Deprecated: Use S0M5.ProtoReflect.Descriptor instead.
func (*S0M5) Descriptor() ([]byte, []int) {
	return file_fxpb_proto_rawDescGZIP(), []int{4}
}

func (x *S0M5) GetF1006() map[uint64]bool {
	if x != nil {
		return x.F1006
	}
	return nil
}

func (x *S0M5) GetF719() int32 {
	if x != nil {
		return x.F719
	}
	return 0
}

func (x *S0M5) GetF9() [][]byte {
	if x != nil {
		return x.F9
	}
	return nil
}

func (x *S0M5) GetF19() map[int64]string {
	if x != nil {
		return x.F19
	}
	return nil
}

func (x *S0M5) GetF618() int64 {
	if x != nil {
		return x.F618
	}
	return 0
}

func (x *S0M5) GetF662() float64 {
	if x != nil && x.F662 != nil {
		return *x.F662
	}
	return 0
}

func (x *S0M5) GetF3() map[int32]uint32 {
	if x != nil {
		return x.F3
	}
	return nil
}

func (x *S0M5) GetO0() isS0M5_O0 {
	if x != nil {
		return x.O0
	}
	return nil
}

func (x *S0M5) GetF24() int32 {
	if x != nil {
		if x, ok := x.O0.(*S0M5_F24); ok {
			return x.F24
		}
	}
	return 0
}

func (x *S0M5) GetO1() isS0M5_O1 {
	if x != nil {
		return x.O1
	}
	return nil
}

func (x *S0M5) GetF16() E {
	if x != nil {
		if x, ok := x.O1.(*S0M5_F16); ok {
			return x.F16
		}
	}
	return E_E_ZERO
}

func (x *S0M5) GetF10() uint32 {
	if x != nil {
		if x, ok := x.O1.(*S0M5_F10); ok {
			return x.F10
		}
	}
	return 0
}

type isS0M5_O0 interface {
	isS0M5_O0()
}

type S0M5_F24 struct {
	F24 int32 `protobuf:"fixed32,24,opt,name=f24,oneof"`
}

func (*S0M5_F24) isS0M5_O0() {}

type isS0M5_O1 interface {
	isS0M5_O1()
}

type S0M5_F16 struct {
	F16 E `protobuf:"varint,16,opt,name=f16,enum=fxpb.E,oneof"`
}

type S0M5_F10 struct {
	F10 uint32 `protobuf:"varint,10,opt,name=f10,oneof"`
}

func (*S0M5_F16) isS0M5_O1() {}

func (*S0M5_F10) isS0M5_O1() {}

type S0M6 struct {
	state protoimpl.MessageState `protogen:"open.v1"`
	F11   uint64                 `protobuf:"fixed64,11,opt,name=f11" json:"f11,omitempty"`
	F13   *float32               `protobuf:"fixed32,13,opt,name=f13" json:"f13,omitempty"`
	F543  []string               `protobuf:"bytes,543,rep,name=f543" json:"f543,omitempty"`
	// Types that are valid to be assigned to O0:
	//
	//	*S0M6_F8
	O0            isS0M6_O0 `protobuf_oneof:"o0"`
	unknownFields protoimpl.UnknownFields
	sizeCache     protoimpl.SizeCache
}

func (x *S0M6) Reset() {
	*x = S0M6{}
	mi := &file_fxpb_proto_msgTypes[5]
	ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
	ms.StoreMessageInfo(mi)
}

func (x *S0M6) String() string {
	return protoimpl.X.MessageStringOf(x)
}

func (*S0M6) ProtoMessage() {}

func (x *S0M6) ProtoReflect() protoreflect.Message {
	mi := &file_fxpb_proto_msgTypes[5]
	if x != nil {
		ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
		if ms.LoadMessageInfo() == nil {
			ms.StoreMessageInfo(mi)
		}
		return ms
	}
	return mi.MessageOf(x)
}

// Deprecated: Use S0M6.ProtoReflect.Descriptor instead.
func (*S0M6) Descriptor() ([]byte, []int) {
	return file_fxpb_proto_rawDescGZIP(), []int{5}
}

func (x *S0M6) GetF11() uint64 {
	if x != nil {
		return x.F11
	}
	return 0
}

func (x *S0M6) GetF13() float32 {
	if x != nil && x.F13 != nil {
		return *x.F13
	}
	return 0
}

func (x *S0M6) GetF543() []string {
	if x != nil {
		return x.F543
	}
	return nil
}

func (x *S0M6) GetO0() isS0M6_O0 {
	if x != nil {
		return x.O0
	}
	return nil
}

func (x *S0M6) GetF8() int64 {
	if x != nil {
		if x, ok := x.O0.(*S0M6_F8); ok {
			return x.F8
		}
	}
	return 0
}

type isS0M6_O0 interface {
	isS0M6_O0()
}

type S0M6_F8 struct {
	F8 int64 `protobuf:"zigzag64,8,opt,name=f8,oneof"`
}

func (*S0M6_F8) isS0M6_O0() {}

type S0M7 struct {
	state         protoimpl.MessageState `protogen:"open.v1"`
	F998          int64                  `protobuf:"zigzag64,998,opt,name=f998" json:"f998,omitempty"`
	F447          []*S0M5                `protobuf:"bytes,447,rep,name=f447" json:"f447,omitempty"`
	F4            *float64               `protobuf:"fixed64,4,opt,name=f4" json:"f4,omitempty"`
	unknownFields protoimpl.UnknownFields
	sizeCache     protoimpl.SizeCache
}

func (x *S0M7) Reset() {
	*x = S0M7{}
	mi := &file_fxpb_proto_msgTypes[6]
	ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
	ms.StoreMessageInfo(mi)
}

func (x *S0M7) String() string {
	return protoimpl.X.MessageStringOf(x)
}

func (*S0M7) ProtoMessage() {}

func (x *S0M7) ProtoReflect() protoreflect.Message {
	mi := &file_fxpb_proto_msgTypes[6]
	if x != nil {
		ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
		if ms.LoadMessageInfo() == nil {
			ms.StoreMessageInfo(mi)
		}
		return ms
	}
	return mi.MessageOf(x)
}

// Deprecated: Use S0M7.ProtoReflect.Descriptor instead.
func (*S0M7) Descriptor() ([]byte, []int) {
	return file_fxpb_proto_rawDescGZIP(), []int{6}
}

func (x *S0M7) GetF998() int64 {
	if x != nil {
		return x.F998
	}
	return 0
}

func (x *S0M7) GetF447() []*S0M5 {
	if x != nil {
		return x.F447
	}
	return nil
}

func (x *S0M7) GetF4() float64 {
	if x != nil && x.F4 != nil {
		return *x.F4
	}
	return 0
}

type S1M1 struct {
	state      protoimpl.MessageState `protogen:"open.v1"`
	F996       map[int64]uint32       `protobuf:"bytes,996,rep,name=f996" json:"f996,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value"`
	F20000     map[uint32]int32       `protobuf:"bytes,20000,rep,name=f20000" json:"f20000,omitempty" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"zigzag32,2,opt,name=value"`
	F3         []*S1M2                `protobuf:"bytes,3,rep,name=f3" json:"f3,omitempty"`
	F1         map[bool]bool          `protobuf:"bytes,1,rep,name=f1" json:"f1,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	F11        *float64               `protobuf:"fixed64,11,opt,name=f11" json:"f11,omitempty"`
	F254258837 *uint32                `protobuf:"varint,254258837,opt,name=f254258837" json:"f254258837,omitempty"`
	F12        []byte                 `protobuf:"bytes,12,opt,name=f12" json:"f12,omitempty"`
	F10        *uint64                `protobuf:"fixed64,10,opt,name=f10" json:"f10,omitempty"`
	// Types that are valid to be assigned to O0:
	//
	//	*S1M1_F1001
	//	*S1M1_F13
	O0            isS1M1_O0 `protobuf_oneof:"o0"`
	unknownFields protoimpl.UnknownFields
	sizeCache     protoimpl.SizeCache
}

func (x *S1M1) Reset() {
	*x = S1M1{}
	mi := &file_fxpb_proto_msgTypes[7]
	ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
	ms.StoreMessageInfo(mi)
}

func (x *S1M1) String() string {
	return protoimpl.X.MessageStringOf(x)
}

func (*S1M1) ProtoMessage() {}

func (x *S1M1) ProtoReflect() protoreflect.Message {
	mi := &file_fxpb_proto_msgTypes[7]
	if x != nil {
		ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
		if ms.LoadMessageInfo() == nil {
			ms.StoreMessageInfo(mi)
		}
		return ms
	}
	return mi.MessageOf(x)
}

// Deprecated: Use S1M1.ProtoReflect.Descriptor instead.
func (*S1M1) Descriptor() ([]byte, []int) {
	return file_fxpb_proto_rawDescGZIP(), []int{7}
}

func (x *S1M1) GetF996() map[int64]uint32 {
	if x != nil {
		return x.F996
	}
	return nil
}

func (x *S1M1) GetF20000() map[uint32]int32 {
	if x != nil {
		return x.F20000
	}
	return nil
}

func (x *S1M1) GetF3() []*S1M2 {
	if x != nil {
		return x.F3
	}
	return nil
}

func (x *S1M1) GetF1() map[bool]bool {
	if x != nil {
		return x.F1
	}
	return nil
}

func (x *S1M1) GetF11() float64 {
	if x != nil && x.F11 != nil {
		return *x.F11
	}
	return 0
}

func (x *S1M1) GetF254258837() uint32 {
	if x != nil && x.F254258837 != nil {
		return *x.F254258837
	}
	return 0
}

func (x *S1M1) GetF12() []byte {
	if x != nil {
		return x.F12
	}
	return nil
}

func (x *S1M1) GetF10() uint64 {
	if x != nil && x.F10 != nil {
		return *x.F10
	}
	return 0
}

func (x *S1M1) GetO0() isS1M1_O0 {
	if x != nil {
		return x.O0
	}
	return nil
}

func (x *S1M1) GetF1001() int32 {
	if x != nil {
		if x, ok := x.O0.(*S1M1_F1001); ok {
			return x.F1001
		}
	}
	return 0
}

func (x *S1M1) GetF13() float64 {
	if x != nil {
		if x, ok := x.O0.(*S1M1_F13); ok {
			return x.F13
		}
	}
	return 0
}

type isS1M1_O0 interface {
	isS1M1_O0()
}

type S1M1_F1001 struct {
	F1001 int32 `protobuf:"varint,1001,opt,name=f1001,oneof"`
}

type S1M1_F13 struct {
	F13 float64 `protobuf:"fixed64,13,opt,name=f13,oneof"`
}

func (*S1M1_F1001) isS1M1_O0() {}

func (*S1M1_F13) isS1M1_O0() {}

type S1M2 struct {
	state         protoimpl.MessageState `protogen:"open.v1"`
	F215          *float64               `protobuf:"fixed64,215,opt,name=f215" json:"f215,omitempty"`
	F10           []byte                 `protobuf:"bytes,10,opt,name=f10" json:"f10,omitempty"`
	F11           int32                  `protobuf:"fixed32,11,opt,name=f11" json:"f11,omitempty"`
	unknownFields protoimpl.UnknownFields
	sizeCache     protoimpl.SizeCache
}

func (x *S1M2) Reset() {
	*x = S1M2{}
	mi := &file_fxpb_proto_msgTypes[8]
	ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
	ms.StoreMessageInfo(mi)
}

func (x *S1M2) String() string {
	return protoimpl.X.MessageStringOf(x)
}

func (*S1M2) ProtoMessage() {}

func (x *S1M2) ProtoReflect() protoreflect.Message {
	mi := &file_fxpb_proto_msgTypes[8]
	if x != nil {
		ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
		if ms.LoadMessageInfo() == nil {
			ms.StoreMessageInfo(mi)
		}
		return ms
	}
	return mi.MessageOf(x)
}

// Deprecated: Use S1M2.ProtoReflect.Descriptor instead.
func (*S1M2) Descriptor() ([]byte, []int) {
	return file_fxpb_proto_rawDescGZIP(), []int{8}
}

func (x *S1M2) GetF215() float64 {
	if x != nil && x.F215 != nil {
		return *x.F215
	}
	return 0
}

func (x *S1M2) GetF10() []byte {
	if x != nil {
		return x.F10
	}
	return nil
}

func (x *S1M2) GetF11() int32 {
	if x != nil {
		return x.F11
	}
	return 0
}

type S2M1 struct {
	state protoimpl.MessageState `protogen:"open.v1"`
	F15   bool                   `protobuf:"varint,15,opt,name=f15" json:"f15,omitempty"`
	F1006 int32                  `protobuf:"fixed32,1006,opt,name=f1006" json:"f1006,omitempty"`
	F8    []float32              `protobuf:"fixed32,8,rep,name=f8" json:"f8,omitempty"`
	F9    []*S2M2                `protobuf:"bytes,9,rep,name=f9" json:"f9,omitempty"`
	F21   E                      `protobuf:"varint,21,opt,name=f21,enum=fxpb.E" json:"f21,omitempty"`
	F20   *S2M3                  `protobuf:"bytes,20,opt,name=f20" json:"f20,omitempty"`
	F1    map[int64]uint64       `protobuf:"bytes,1,rep,name=f1" json:"f1,omitempty" protobuf_key:"zigzag64,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value"`
	// Types that are valid to be assigned to O0:
	//
	//	*S2M1_F12
	//	*S2M1_F13
	//	*S2M1_F14
	O0            isS2M1_O0 `protobuf_oneof:"o0"`
	unknownFields protoimpl.UnknownFields
	sizeCache     protoimpl.SizeCache
}

func (x *S2M1) Reset() {
	*x = S2M1{}
	mi := &file_fxpb_proto_msgTypes[9]
	ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
	ms.StoreMessageInfo(mi)
}

func (x *S2M1) String() string {
	return protoimpl.X.MessageStringOf(x)
}

func (*S2M1) ProtoMessage() {}

func (x *S2M1) ProtoReflect() protoreflect.Message {
	mi := &file_fxpb_proto_msgTypes[9]
	if x != nil {
		ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
		if ms.LoadMessageInfo() == nil {
			ms.StoreMessageInfo(mi)
		}
		return ms
	}
	return mi.MessageOf(x)
}

// Deprecated: Use S2M1.ProtoReflect.Descriptor instead.
func (*S2M1) Descriptor() ([]byte, []int) {
	return file_fxpb_proto_rawDescGZIP(), []int{9}
}

func (x *S2M1) GetF15() bool {
	if x != nil {
		return x.F15
	}
	return false
}

func (x *S2M1) GetF1006() int32 {
	if x != nil {
		return x.F1006
	}
	return 0
}

func (x *S2M1) GetF8() []float32 {
	if x != nil {
		return x.F8
	}
	return nil
}

func (x *S2M1) GetF9() []*S2M2 {
	if x != nil {
		return x.F9
	}
	return nil
}

func (x *S2M1) GetF21() E {
	if x != nil {
		return x.F21
	}
	return E_E_ZERO
}

func (x *S2M1) GetF20() *S2M3 {
	if x != nil {
		return x.F20
	}
	return nil
}

func (x *S2M1) GetF1() map[int64]uint64 {
	if x != nil {
		return x.F1
	}
	return nil
}

func (x *S2M1) GetO0() isS2M1_O0 {
	if x != nil {
		return x.O0
	}
	return nil
}

func (x *S2M1) GetF12() *S2M5 {
	if x != nil {
		if x, ok := x.O0.(*S2M1_F12); ok {
			return x.F12
		}
	}
	return nil
}

func (x *S2M1) GetF13() []byte {
	if x != nil {
		if x, ok := x.O0.(*S2M1_F13); ok {
			return x.F13
		}
	}
	return nil
}

func (x *S2M1) GetF14() int64 {
	if x != nil {
		if x, ok := x.O0.(*S2M1_F14); ok {
			return x.F14
		}
	}
	return 0
}

type isS2M1_O0 interface {
	isS2M1_O0()
}

type S2M1_F12 struct {
	F12 *S2M5 `protobuf:"bytes,12,opt,name=f12,oneof"`
}

type S2M1_F13 struct {
	F13 []byte `protobuf:"bytes,13,opt,name=f13,oneof"`
}

type S2M1_F14 struct {
	F14 int64 `protobuf:"fixed64,14,opt,name=f14,oneof"`
}

func (*S2M1_F12) isS2M1_O0() {}

func (*S2M1_F13) isS2M1_O0() {}

func (*S2M1_F14) isS2M1_O0() {}

type S2M2 struct {
	state         protoimpl.MessageState `protogen:"open.v1"`
	F3            map[int64]int64        `protobuf:"bytes,3,rep,name=f3" json:"f3,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	F4            int64                  `protobuf:"varint,4,opt,name=f4" json:"f4,omitempty"`
	F32           *float32               `protobuf:"fixed32,32,opt,name=f32" json:"f32,omitempty"`
	unknownFields protoimpl.UnknownFields
	sizeCache     protoimpl.SizeCache
}

func (x *S2M2) Reset() {
	*x = S2M2{}
	mi := &file_fxpb_proto_msgTypes[10]
	ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
	ms.StoreMessageInfo(mi)
}

func (x *S2M2) String() string {
	return protoimpl.X.MessageStringOf(x)
}

func (*S2M2) ProtoMessage() {}

func (x *S2M2) ProtoReflect() protoreflect.Message {
	mi := &file_fxpb_proto_msgTypes[10]
	if x != nil {
		ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
		if ms.LoadMessageInfo() == nil {
			ms.StoreMessageInfo(mi)
		}
		return ms
	}
	return mi.MessageOf(x)
}

// Deprecated: Use S2M2.ProtoReflect.Descriptor instead.
func (*S2M2) Descriptor() ([]byte, []int) {
	return file_fxpb_proto_rawDescGZIP(), []int{10}
}

func (x *S2M2) GetF3() map[int64]int64 {
	if x != nil {
		return x.F3
	}
	return nil
}

func (x *S2M2) GetF4() int64 {
	if x != nil {
		return x.F4
	}
	return 0
}

func (x *S2M2) GetF32() float32 {
	if x != nil && x.F32 != nil {
		return *x.F32
	}
	return 0
}

type S2M3 struct {
	state         protoimpl.MessageState `protogen:"open.v1"`
	F244          *S2M4                  `protobuf:"bytes,244,opt,name=f244" json:"f244,omitempty"`
	F13           *int32                 `protobuf:"zigzag32,13,opt,name=f13" json:"f13,omitempty"`
	F17           uint64                 `protobuf:"fixed64,17,opt,name=f17" json:"f17,omitempty"`
	F3            *bool                  `protobuf:"varint,3,opt,name=f3" json:"f3,omitempty"`
	F12           *float32               `protobuf:"fixed32,12,opt,name=f12" json:"f12,omitempty"`
	F14           int64                  `protobuf:"zigzag64,14,opt,name=f14" json:"f14,omitempty"`
	F51084766     map[int32]uint32       `protobuf:"bytes,51084766,rep,name=f51084766" json:"f51084766,omitempty" protobuf_key:"zigzag32,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	unknownFields protoimpl.UnknownFields
	sizeCache     protoimpl.SizeCache
}

func (x *S2M3) Reset() {
	*x = S2M3{}
	mi := &file_fxpb_proto_msgTypes[11]
	ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
	ms.StoreMessageInfo(mi)
}

func (x *S2M3) String() string {
	return protoimpl.X.MessageStringOf(x)
}

func (*S2M3) ProtoMessage() {}

func (x *S2M3) ProtoReflect() protoreflect.Message {
	mi := &file_fxpb_proto_msgTypes[11]
	if x != nil {
		ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
		if ms.LoadMessageInfo() == nil {
			ms.StoreMessageInfo(mi)
		}
		return ms
	}
	return mi.MessageOf(x)
}

// Deprecated: Use S2M3.ProtoReflect.Descriptor instead.
func (*S2M3) Descriptor() ([]byte, []int) {
	return file_fxpb_proto_rawDescGZIP(), []int{11}
}

func (x *S2M3) GetF244() *S2M4 {
	if x != nil {
		return x.F244
	}
	return nil
}

func (x *S2M3) GetF13() int32 {
	if x != nil && x.F13 != nil {
		return *x.F13
	}
	return 0
}

func (x *S2M3) GetF17() uint64 {
	if x != nil {
		return x.F17
	}
	return 0
}

func (x *S2M3) GetF3() bool {
	if x != nil && x.F3 != nil {
		return *x.F3
	}
	return false
}

func (x *S2M3) GetF12() float32 {
	if x != nil && x.F12 != nil {
		return *x.F12
	}
	return 0
}

func (x *S2M3) GetF14() int64 {
	if x != nil {
		return x.F14
	}
	return 0
}

func (x *S2M3) GetF51084766() map[int32]uint32 {
	if x != nil {
		return x.F51084766
	}
	return nil
}

type S2M4 struct {
	state protoimpl.MessageState `protogen:"open.v1"`
	F998  int32                  `protobuf:"varint,998,opt,name=f998" json:"f998,omitempty"`
	// Types that are valid to be assigned to O0:
	//
	//	*S2M4_F18
	O0            isS2M4_O0 `protobuf_oneof:"o0"`
	unknownFields protoimpl.UnknownFields
	sizeCache     protoimpl.SizeCache
}

func (x *S2M4) Reset() {
	*x = S2M4{}
	mi := &file_fxpb_proto_msgTypes[12]
	ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
	ms.StoreMessageInfo(mi)
}

func (x *S2M4) String() string {
	return protoimpl.X.MessageStringOf(x)
}

func (*S2M4) ProtoMessage() {}

func (x *S2M4) ProtoReflect() protoreflect.Message {
	mi := &file_fxpb_proto_msgTypes[12]
	if x != nil {
		ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
		if ms.LoadMessageInfo() == nil {
			ms.StoreMessageInfo(mi)
		}
		return ms
	}
	return mi.MessageOf(x)
}

// Deprecated: Use S2M4.ProtoReflect.Descriptor instead.
func (*S2M4) Descriptor() ([]byte, []int) {
	return file_fxpb_proto_rawDescGZIP(), []int{12}
}

func (x *S2M4) GetF998() int32 {
	if x != nil {
		return x.F998
	}
	return 0
}

func (x *S2M4) GetO0() isS2M4_O0 {
	if x != nil {
		return x.O0
	}
	return nil
}

func (x *S2M4) GetF18() uint64 {
	if x != nil {
		if x, ok := x.O0.(*S2M4_F18); ok {
			return x.F18
		}
	}
	return 0
}

type isS2M4_O0 interface {
	isS2M4_O0()
}

type S2M4_F18 struct {
	F18 uint64 `protobuf:"varint,18,opt,name=f18,oneof"`
}

func (*S2M4_F18) isS2M4_O0() {}

type S2M5 struct {
	state         protoimpl.MessageState `protogen:"open.v1"`
	F1006         *int32                 `protobuf:"fixed32,1006,opt,name=f1006" json:"f1006,omitempty"`
	F6            *E                     `protobuf:"varint,6,req,name=f6,enum=fxpb.E" json:"f6,omitempty"`
	F12           map[int32]string       `protobuf:"bytes,12,rep,name=f12" json:"f12,omitempty" protobuf_key:"zigzag32,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	F3            []*S2M6                `protobuf:"bytes,3,rep,name=f3" json:"f3,omitempty"`
	unknownFields protoimpl.UnknownFields
	sizeCache     protoimpl.SizeCache
}

func (x *S2M5) Reset() {
	*x = S2M5{}
	mi := &file_fxpb_proto_msgTypes[13]
	ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
	ms.StoreMessageInfo(mi)
}

func (x *S2M5) String() string {
	return protoimpl.X.MessageStringOf(x)
}

func (*S2M5) ProtoMessage() {}

func (x *S2M5) ProtoReflect() protoreflect.Message {
	mi := &file_fxpb_proto_msgTypes[13]
	if x != nil {
		ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
		if ms.LoadMessageInfo() == nil {
			ms.StoreMessageInfo(mi)
		}
		return ms
	}
	return mi.MessageOf(x)
}

// Deprecated: Use S2M5.ProtoReflect.Descriptor instead.
func (*S2M5) Descriptor() ([]byte, []int) {
	return file_fxpb_proto_rawDescGZIP(), []int{13}
}

func (x *S2M5) GetF1006() int32 {
	if x != nil && x.F1006 != nil {
		return *x.F1006
	}
	return 0
}

func (x *S2M5) GetF6() E {
	if x != nil && x.F6 != nil {
		return *x.F6
	}
	return E_E_ZERO
}

func (x *S2M5) GetF12() map[int32]string {
	if x != nil {
		return x.F12
	}
	return nil
}

func (x *S2M5) GetF3() []*S2M6 {
	if x != nil {
		return x.F3
	}
	return nil
}

type S2M6 struct {
	state         protoimpl.MessageState `protogen:"open.v1"`
	F5            *float64               `protobuf:"fixed64,5,opt,name=f5" json:"f5,omitempty"`
	F38           float64                `protobuf:"fixed64,38,opt,name=f38" json:"f38,omitempty"`
	F14           uint32                 `protobuf:"fixed32,14,opt,name=f14" json:"f14,omitempty"`
	F12           []int64                `protobuf:"varint,12,rep,packed,name=f12" json:"f12,omitempty"`
	F13           []int64                `protobuf:"fixed64,13,rep,packed,name=f13" json:"f13,omitempty"`
	unknownFields protoimpl.UnknownFields
	sizeCache     protoimpl.SizeCache
}

func (x *S2M6) Reset() {
	*x = S2M6{}
	mi := &file_fxpb_proto_msgTypes[14]
	ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
	ms.StoreMessageInfo(mi)
}

func (x *S2M6) String() string {
	return protoimpl.X.MessageStringOf(x)
}

func (*S2M6) ProtoMessage() {}

func (x *S2M6) ProtoReflect() protoreflect.Message {
	mi := &file_fxpb_proto_msgTypes[14]
	if x != nil {
		ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
		if ms.LoadMessageInfo() == nil {
			ms.StoreMessageInfo(mi)
		}
		return ms
	}
	return mi.MessageOf(x)
}

// Deprecated: Use S2M6.ProtoReflect.Descriptor instead.
func (*S2M6) Descriptor() ([]byte, []int) {
	return file_fxpb_proto_rawDescGZIP(), []int{14}
}

func (x *S2M6) GetF5() float64 {
	if x != nil && x.F5 != nil {
		return *x.F5
	}
	return 0
}

func (x *S2M6) GetF38() float64 {
	if x != nil {
		return x.F38
	}
	return 0
}

func (x *S2M6) GetF14() uint32 {
	if x != nil {
		return x.F14
	}
	return 0
}

func (x *S2M6) GetF12() []int64 {
	if x != nil {
		return x.F12
	}
	return nil
}

func (x *S2M6) GetF13() []int64 {
	if x != nil {
		return x.F13
	}
	return nil
}

type S3M1 struct {
	state         protoimpl.MessageState `protogen:"open.v1"`
	unknownFields protoimpl.UnknownFields
	sizeCache     protoimpl.SizeCache
}

func (x *S3M1) Reset() {
	*x = S3M1{}
	mi := &file_fxpb_proto_msgTypes[15]
	ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
	ms.StoreMessageInfo(mi)
}

func (x *S3M1) String() string {
	return protoimpl.X.MessageStringOf(x)
}

func (*S3M1) ProtoMessage() {}

func (x *S3M1) ProtoReflect() protoreflect.Message {
	mi := &file_fxpb_proto_msgTypes[15]
	if x != nil {
		ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
		if ms.LoadMessageInfo() == nil {
			ms.StoreMessageInfo(mi)
		}
		return ms
	}
	return mi.MessageOf(x)
}

// Deprecated: Use S3M1.ProtoReflect.Descriptor instead.
func (*S3M1) Descriptor() ([]byte, []int) {
	return file_fxpb_proto_rawDescGZIP(), []int{15}
}

type S4M1 struct {
	state      protoimpl.MessageState `protogen:"open.v1"`
	F18999     uint32                 `protobuf:"varint,18999,opt,name=f18999" json:"f18999,omitempty"`
	F260404734 map[uint64]*S4M2       `protobuf:"bytes,260404734,rep,name=f260404734" json:"f260404734,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	F479       string                 `protobuf:"bytes,479,opt,name=f479" json:"f479,omitempty"`
	F10        *float32               `protobuf:"fixed32,10,opt,name=f10" json:"f10,omitempty"`
	F11        []*S4M4                `protobuf:"bytes,11,rep,name=f11" json:"f11,omitempty"`
	// Types that are valid to be assigned to O0:
	//
	//	*S4M1_F262144
	//	*S4M1_F17
	//	*S4M1_F5
	O0            isS4M1_O0 `protobuf_oneof:"o0"`
	unknownFields protoimpl.UnknownFields
	sizeCache     protoimpl.SizeCache
}

func (x *S4M1) Reset() {
	*x = S4M1{}
	mi := &file_fxpb_proto_msgTypes[16]
	ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
	ms.StoreMessageInfo(mi)
}

func (x *S4M1) String() string {
	return protoimpl.X.MessageStringOf(x)
}

func (*S4M1) ProtoMessage() {}

func (x *S4M1) ProtoReflect() protoreflect.Message {
	mi := &file_fxpb_proto_msgTypes[16]
	if x != nil {
		ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
		if ms.LoadMessageInfo() == nil {
			ms.StoreMessageInfo(mi)
		}
		return ms
	}
	return mi.MessageOf(x)
}

// Deprecated: Use S4M1.ProtoReflect.Descriptor instead.
func (*S4M1) Descriptor() ([]byte, []int) {
	return file_fxpb_proto_rawDescGZIP(), []int{16}
}

func (x *S4M1) GetF18999() uint32 {
	if x != nil {
		return x.F18999
	}
	return 0
}

func (x *S4M1) GetF260404734() map[uint64]*S4M2 {
	if x != nil {
		return x.F260404734
	}
	return nil
}

func (x *S4M1) GetF479() string {
	if x != nil {
		return x.F479
	}
	return ""
}

func (x *S4M1) GetF10() float32 {
	if x != nil && x.F10 != nil {
		return *x.F10
	}
	return 0
}

func (x *S4M1) GetF11() []*S4M4 {
	if x != nil {
		return x.F11
	}
	return nil
}

func (x *S4M1) GetO0() isS4M1_O0 {
	if x != nil {
		return x.O0
	}
	return nil
}

func (x *S4M1) GetF262144() bool {
	if x != nil {
		if x, ok := x.O0.(*S4M1_F262144); ok {
			return x.F262144
		}
	}
	return false
}

func (x *S4M1) GetF17() *S4M3 {
	if x != nil {
		if x, ok := x.O0.(*S4M1_F17); ok {
			return x.F17
		}
	}
	return nil
}

func (x *S4M1) GetF5() uint32 {
	if x != nil {
		if x, ok := x.O0.(*S4M1_F5); ok {
			return x.F5
		}
	}
	return 0
}

type isS4M1_O0 interface {
	isS4M1_O0()
}

type S4M1_F262144 struct {
	F262144 bool `protobuf:"varint,262144,opt,name=f262144,oneof"`
}

type S4M1_F17 struct {
	F17 *S4M3 `protobuf:"bytes,17,opt,name=f17,oneof"`
}

type S4M1_F5 struct {
	F5 uint32 `protobuf:"varint,5,opt,name=f5,oneof"`
}

func (*S4M1_F262144) isS4M1_O0() {}

func (*S4M1_F17) isS4M1_O0() {}

func (*S4M1_F5) isS4M1_O0() {}

type S4M2 struct {
	state         protoimpl.MessageState `protogen:"open.v1"`
	F4            []int64                `protobuf:"varint,4,rep,packed,name=f4" json:"f4,omitempty"`
	F5            map[int64]string       `protobuf:"bytes,5,rep,name=f5" json:"f5,omitempty" protobuf_key:"zigzag64,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	F6            map[uint64]int32       `protobuf:"bytes,6,rep,name=f6" json:"f6,omitempty" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"zigzag32,2,opt,name=value"`
	F319          *string                `protobuf:"bytes,319,opt,name=f319" json:"f319,omitempty"`
	unknownFields protoimpl.UnknownFields
	sizeCache     protoimpl.SizeCache
}

func (x *S4M2) Reset() {
	*x = S4M2{}
	mi := &file_fxpb_proto_msgTypes[17]
	ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
	ms.StoreMessageInfo(mi)
}

func (x *S4M2) String() string {
	return protoimpl.X.MessageStringOf(x)
}

func (*S4M2) ProtoMessage() {}

func (x *S4M2) ProtoReflect() protoreflect.Message {
	mi := &file_fxpb_proto_msgTypes[17]
	if x != nil {
		ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
		if ms.LoadMessageInfo() == nil {
			ms.StoreMessageInfo(mi)
		}
		return ms
	}
	return mi.MessageOf(x)
}

// Deprecated: Use S4M2.ProtoReflect.Descriptor instead.
func (*S4M2) Descriptor() ([]byte, []int) {
	return file_fxpb_proto_rawDescGZIP(), []int{17}
}

func (x *S4M2) GetF4() []int64 {
	if x != nil {
		return x.F4
	}
	return nil
}

func (x *S4M2) GetF5() map[int64]string {
	if x != nil {
		return x.F5
	}
	return nil
}

func (x *S4M2) GetF6() map[uint64]int32 {
	if x != nil {
		return x.F6
	}
	return nil
}

func (x *S4M2) GetF319() string {
	if x != nil && x.F319 != nil {
		return *x.F319
	}
	return ""
}

type S4M3 struct {
	state         protoimpl.MessageState `protogen:"open.v1"`
	F8            int64                  `protobuf:"fixed64,8,opt,name=f8" json:"f8,omitempty"`
	unknownFields protoimpl.UnknownFields
	sizeCache     protoimpl.SizeCache
}

func (x *S4M3) Reset() {
	*x = S4M3{}
	mi := &file_fxpb_proto_msgTypes[18]
	ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
	ms.StoreMessageInfo(mi)
}

func (x *S4M3) String() string {
	return protoimpl.X.MessageStringOf(x)
}

func (*S4M3) ProtoMessage() {}

func (x *S4M3) ProtoReflect() protoreflect.Message {
	mi := &file_fxpb_proto_msgTypes[18]
	if x != nil {
		ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
		if ms.LoadMessageInfo() == nil {
			ms.StoreMessageInfo(mi)
		}
		return ms
	}
	return mi.MessageOf(x)
}

// Deprecated: Use S4M3.ProtoReflect.Descriptor instead.
func (*S4M3) Descriptor() ([]byte, []int) {
	return file_fxpb_proto_rawDescGZIP(), []int{18}
}

func (x *S4M3) GetF8() int64 {
	if x != nil {
		return x.F8
	}
	return 0
}

type S4M4 struct {
	state         protoimpl.MessageState `protogen:"open.v1"`
	F1            map[int64]uint32       `protobuf:"bytes,1,rep,name=f1" json:"f1,omitempty" protobuf_key:"zigzag64,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value"`
	F8            []uint64               `protobuf:"varint,8,rep,name=f8" json:"f8,omitempty"`
	F13           []bool                 `protobuf:"varint,13,rep,name=f13" json:"f13,omitempty"`
	F999          []*S4M3                `protobuf:"bytes,999,rep,name=f999" json:"f999,omitempty"`
	F996          E                      `protobuf:"varint,996,opt,name=f996,enum=fxpb.E" json:"f996,omitempty"`
	F7            uint64                 `protobuf:"fixed64,7,opt,name=f7" json:"f7,omitempty"`
	F2047         *S4M2                  `protobuf:"bytes,2047,opt,name=f2047" json:"f2047,omitempty"`
	F32           map[int32]int64        `protobuf:"bytes,32,rep,name=f32" json:"f32,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	F995          *float64               `protobuf:"fixed64,995,opt,name=f995" json:"f995,omitempty"`
	unknownFields protoimpl.UnknownFields
	sizeCache     protoimpl.SizeCache
}

func (x *S4M4) Reset() {
	*x = S4M4{}
	mi := &file_fxpb_proto_msgTypes[19]
	ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
	ms.StoreMessageInfo(mi)
}

func (x *S4M4) String() string {
	return protoimpl.X.MessageStringOf(x)
}

func (*S4M4) ProtoMessage() {}

func (x *S4M4) ProtoReflect() protoreflect.Message {
	mi := &file_fxpb_proto_msgTypes[19]
	if x != nil {
		ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
		if ms.LoadMessageInfo() == nil {
			ms.StoreMessageInfo(mi)
		}
		return ms
	}
	return mi.MessageOf(x)
}

// Deprecated: Use S4M4.ProtoReflect.Descriptor instead.
func (*S4M4) Descriptor() ([]byte, []int) {
	return file_fxpb_proto_rawDescGZIP(), []int{19}
}

func (x *S4M4) GetF1() map[int64]uint32 {
	if x != nil {
		return x.F1
	}
	return nil
}

func (x *S4M4) GetF8() []uint64 {
	if x != nil {
		return x.F8
	}
	return nil
}

func (x *S4M4) GetF13() []bool {
	if x != nil {
		return x.F13
	}
	return nil
}

func (x *S4M4) GetF999() []*S4M3 {
	if x != nil {
		return x.F999
	}
	return nil
}

func (x *S4M4) GetF996() E {
	if x != nil {
		return x.F996
	}
	return E_E_ZERO
}

func (x *S4M4) GetF7() uint64 {
	if x != nil {
		return x.F7
	}
	return 0
}

func (x *S4M4) GetF2047() *S4M2 {
	if x != nil {
		return x.F2047
	}
	return nil
}

func (x *S4M4) GetF32() map[int32]int64 {
	if x != nil {
		return x.F32
	}
	return nil
}

func (x *S4M4) GetF995() float64 {
	if x != nil && x.F995 != nil {
		return *x.F995
	}
	return 0
}

type S5M1 struct {
	state protoimpl.MessageState `protogen:"open.v1"`
	F3    map[uint32]*S5M2       `protobuf:"bytes,3,rep,name=f3" json:"f3,omitempty" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	F2    uint64                 `protobuf:"fixed64,2,opt,name=f2" json:"f2,omitempty"`
	F914  []int64                `protobuf:"fixed64,914,rep,packed,name=f914" json:"f914,omitempty"`
	F8    *S5M4                  `protobuf:"bytes,8,opt,name=f8" json:"f8,omitempty"`
	F30   []*S5M4                `protobuf:"bytes,30,rep,name=f30" json:"f30,omitempty"`
	F815  *uint32                `protobuf:"fixed32,815,req,name=f815" json:"f815,omitempty"`
	// Types that are valid to be assigned to O0:
	//
	//	*S5M1_F12
	//	*S5M1_F459918137
	O0            isS5M1_O0 `protobuf_oneof:"o0"`
	unknownFields protoimpl.UnknownFields
	sizeCache     protoimpl.SizeCache
}

func (x *S5M1) Reset() {
	*x = S5M1{}
	mi := &file_fxpb_proto_msgTypes[20]
	ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
	ms.StoreMessageInfo(mi)
}

func (x *S5M1) String() string {
	return protoimpl.X.MessageStringOf(x)
}

func (*S5M1) ProtoMessage() {}

func (x *S5M1) ProtoReflect() protoreflect.Message {
	mi := &file_fxpb_proto_msgTypes[20]
	if x != nil {
		ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
		if ms.LoadMessageInfo() == nil {
			ms.StoreMessageInfo(mi)
		}
		return ms
	}
	return mi.MessageOf(x)
}

// Deprecated: Use S5M1.ProtoReflect.Descriptor instead.
func (*S5M1) Descriptor() ([]byte, []int) {
	return file_fxpb_proto_rawDescGZIP(), []int{20}
}

func (x *S5M1) GetF3() map[uint32]*S5M2 {
	if x != nil {
		return x.F3
	}
	return nil
}

func (x *S5M1) GetF2() uint64 {
	if x != nil {
		return x.F2
	}
	return 0
}

func (x *S5M1) GetF914() []int64 {
	if x != nil {
		return x.F914
	}
	return nil
}

func (x *S5M1) GetF8() *S5M4 {
	if x != nil {
		return x.F8
	}
	return nil
}

func (x *S5M1) GetF30() []*S5M4 {
	if x != nil {
		return x.F30
	}
	return nil
}

func (x *S5M1) GetF815() uint32 {
	if x != nil && x.F815 != nil {
		return *x.F815
	}
	return 0
}

func (x *S5M1) GetO0() isS5M1_O0 {
	if x != nil {
		return x.O0
	}
	return nil
}

func (x *S5M1) GetF12() uint64 {
	if x != nil {
		if x, ok := x.O0.(*S5M1_F12); ok {
			return x.F12
		}
	}
	return 0
}

func (x *S5M1) GetF459918137() int64 {
	if x != nil {
		if x, ok := x.O0.(*S5M1_F459918137); ok {
			return x.F459918137
		}
	}
	return 0
}

type isS5M1_O0 interface {
	isS5M1_O0()
}

type S5M1_F12 struct {
	F12 uint64 `protobuf:"fixed64,12,opt,name=f12,oneof"`
}

type S5M1_F459918137 struct {
	F459918137 int64 `protobuf:"varint,459918137,opt,name=f459918137,oneof"`
}

func (*S5M1_F12) isS5M1_O0() {}

func (*S5M1_F459918137) isS5M1_O0() {}

type S5M2 struct {
	state         protoimpl.MessageState `protogen:"open.v1"`
	F10           *uint64                `protobuf:"varint,10,req,name=f10" json:"f10,omitempty"`
	F5            []byte                 `protobuf:"bytes,5,opt,name=f5" json:"f5,omitempty"`
	F1            *S5M3                  `protobuf:"bytes,1,opt,name=f1" json:"f1,omitempty"`
	unknownFields protoimpl.UnknownFields
	sizeCache     protoimpl.SizeCache
}

func (x *S5M2) Reset() {
	*x = S5M2{}
	mi := &file_fxpb_proto_msgTypes[21]
	ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
	ms.StoreMessageInfo(mi)
}

func (x *S5M2) String() string {
	return protoimpl.X.MessageStringOf(x)
}

func (*S5M2) ProtoMessage() {}

func (x *S5M2) ProtoReflect() protoreflect.Message {
	mi := &file_fxpb_proto_msgTypes[21]
	if x != nil {
		ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
		if ms.LoadMessageInfo() == nil {
			ms.StoreMessageInfo(mi)
		}
		return ms
	}
	return mi.MessageOf(x)
}

// Deprecated: Use S5M2.ProtoReflect.Descriptor instead.
func (*S5M2) Descriptor() ([]byte, []int) {
	return file_fxpb_proto_rawDescGZIP(), []int{21}
}

func (x *S5M2) GetF10() uint64 {
	if x != nil && x.F10 != nil {
		return *x.F10
	}
	return 0
}

func (x *S5M2) GetF5() []byte {
	if x != nil {
		return x.F5
	}
	return nil
}

func (x *S5M2) GetF1() *S5M3 {
	if x != nil {
		return x.F1
	}
	return nil
}

type S5M3 struct {
	state         protoimpl.MessageState `protogen:"open.v1"`
	F2            []int32                `protobuf:"varint,2,rep,packed,name=f2" json:"f2,omitempty"`
	F35           [][]byte               `protobuf:"bytes,35,rep,name=f35" json:"f35,omitempty"`
	F3            E                      `protobuf:"varint,3,opt,name=f3,enum=fxpb.E" json:"f3,omitempty"`
	F179418204    *int64                 `protobuf:"zigzag64,179418204,opt,name=f179418204" json:"f179418204,omitempty"`
	F1002         int64                  `protobuf:"varint,1002,opt,name=f1002" json:"f1002,omitempty"`
	F18999        float64                `protobuf:"fixed64,18999,opt,name=f18999" json:"f18999,omitempty"`
	unknownFields protoimpl.UnknownFields
	sizeCache     protoimpl.SizeCache
}

func (x *S5M3) Reset() {
	*x = S5M3{}
	mi := &file_fxpb_proto_msgTypes[22]
	ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
	ms.StoreMessageInfo(mi)
}

func (x *S5M3) String() string {
	return protoimpl.X.MessageStringOf(x)
}

func (*S5M3) ProtoMessage() {}

func (x *S5M3) ProtoReflect() protoreflect.Message {
	mi := &file_fxpb_proto_msgTypes[22]
	if x != nil {
		ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
		if ms.LoadMessageInfo() == nil {
			ms.StoreMessageInfo(mi)
		}
		return ms
	}
	return mi.MessageOf(x)
}

// Deprecated: Use S5M3.ProtoReflect.Descriptor instead.
func (*S5M3) Descriptor() ([]byte, []int) {
	return file_fxpb_proto_rawDescGZIP(), []int{22}
}

func (x *S5M3) GetF2() []int32 {
	if x != nil {
		return x.F2
	}
	return nil
}

func (x *S5M3) GetF35() [][]byte {
	if x != nil {
		return x.F35
	}
	return nil
}

func (x *S5M3) GetF3() E {
	if x != nil {
		return x.F3
	}
	return E_E_ZERO
}

func (x *S5M3) GetF179418204() int64 {
	if x != nil && x.F179418204 != nil {
		return *x.F179418204
	}
	return 0
}

func (x *S5M3) GetF1002() int64 {
	if x != nil {
		return x.F1002
	}
	return 0
}

func (x *S5M3) GetF18999() float64 {
	if x != nil {
		return x.F18999
	}
	return 0
}

type S5M4 struct {
	state protoimpl.MessageState `protogen:"open.v1"`
	F38   int64                  `protobuf:"fixed64,38,opt,name=f38" json:"f38,omitempty"`
	F12   *E                     `protobuf:"varint,12,opt,name=f12,enum=fxpb.E" json:"f12,omitempty"`
	F26   []E                    `protobuf:"varint,26,rep,name=f26,enum=fxpb.E" json:"f26,omitempty"`
	// Types that are valid to be assigned to O0:
	//
	//	*S5M4_F1003
	O0            isS5M4_O0 `protobuf_oneof:"o0"`
	unknownFields protoimpl.UnknownFields
	sizeCache     protoimpl.SizeCache
}

func (x *S5M4) Reset() {
	*x = S5M4{}
	mi := &file_fxpb_proto_msgTypes[23]
	ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
	ms.StoreMessageInfo(mi)
}

func (x *S5M4) String() string {
	return protoimpl.X.MessageStringOf(x)
}

func (*S5M4) ProtoMessage() {}

func (x *S5M4) ProtoReflect() protoreflect.Message {
	mi := &file_fxpb_proto_msgTypes[23]
	if x != nil {
		ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
		if ms.LoadMessageInfo() == nil {
			ms.StoreMessageInfo(mi)
		}
		return ms
	}
	return mi.MessageOf(x)
}

// Deprecated: Use S5M4.ProtoReflect.Descriptor instead.
func (*S5M4) Descriptor() ([]byte, []int) {
	return file_fxpb_proto_rawDescGZIP(), []int{23}
}

func (x *S5M4) GetF38() int64 {
	if x != nil {
		return x.F38
	}
	return 0
}

func (x *S5M4) GetF12() E {
	if x != nil && x.F12 != nil {
		return *x.F12
	}
	return E_E_ZERO
}

func (x *S5M4) GetF26() []E {
	if x != nil {
		return x.F26
	}
	return nil
}

func (x *S5M4) GetO0() isS5M4_O0 {
	if x != nil {
		return x.O0
	}
	return nil
}

func (x *S5M4) GetF1003() uint32 {
	if x != nil {
		if x, ok := x.O0.(*S5M4_F1003); ok {
			return x.F1003
		}
	}
	return 0
}

type isS5M4_O0 interface {
	isS5M4_O0()
}

type S5M4_F1003 struct {
	F1003 uint32 `protobuf:"fixed32,1003,opt,name=f1003,oneof"`
}

func (*S5M4_F1003) isS5M4_O0() {}

type S6M1 struct {
	state         protoimpl.MessageState `protogen:"open.v1"`
	F4            []uint64               `protobuf:"fixed64,4,rep,packed,name=f4" json:"f4,omitempty"`
	unknownFields protoimpl.UnknownFields
	sizeCache     protoimpl.SizeCache
}

func (x *S6M1) Reset() {
	*x = S6M1{}
	mi := &file_fxpb_proto_msgTypes[24]
	ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
	ms.StoreMessageInfo(mi)
}

func (x *S6M1) String() string {
	return protoimpl.X.MessageStringOf(x)
}

func (*S6M1) ProtoMessage() {}

func (x *S6M1) ProtoReflect() protoreflect.Message {
	mi := &file_fxpb_proto_msgTypes[24]
	if x != nil {
		ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
		if ms.LoadMessageInfo() == nil {
			ms.StoreMessageInfo(mi)
		}
		return ms
	}
	return mi.MessageOf(x)
}

// Deprecated: Use S6M1.ProtoReflect.Descriptor instead.
func (*S6M1) Descriptor() ([]byte, []int) {
	return file_fxpb_proto_rawDescGZIP(), []int{24}
}

func (x *S6M1) GetF4() []uint64 {
	if x != nil {
		return x.F4
	}
	return nil
}

type S7M1 struct {
	state         protoimpl.MessageState `protogen:"open.v1"`
	F995          map[int64]*S7M2        `protobuf:"bytes,995,rep,name=f995" json:"f995,omitempty" protobuf_key:"zigzag64,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	F10           []int32                `protobuf:"zigzag32,10,rep,name=f10" json:"f10,omitempty"`
	unknownFields protoimpl.UnknownFields
	sizeCache     protoimpl.SizeCache
}

func (x *S7M1) Reset() {
	*x = S7M1{}
	mi := &file_fxpb_proto_msgTypes[25]
	ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
	ms.StoreMessageInfo(mi)
}

func (x *S7M1) String() string {
	return protoimpl.X.MessageStringOf(x)
}

func (*S7M1) ProtoMessage() {}

func (x *S7M1) ProtoReflect() protoreflect.Message {
	mi := &file_fxpb_proto_msgTypes[25]
	if x != nil {
		ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
		if ms.LoadMessageInfo() == nil {
			ms.StoreMessageInfo(mi)
		}
		return ms
	}
	return mi.MessageOf(x)
}

// Deprecated: Use S7M1.ProtoReflect.Descriptor instead.
func (*S7M1) Descriptor() ([]byte, []int) {
	return file_fxpb_proto_rawDescGZIP(), []int{25}
}

func (x *S7M1) GetF995() map[int64]*S7M2 {
	if x != nil {
		return x.F995
	}
	return nil
}

func (x *S7M1) GetF10() []int32 {
	if x != nil {
		return x.F10
	}
	return nil
}

type S7M2 struct {
	state         protoimpl.MessageState `protogen:"open.v1"`
	F13           map[int32]int32        `protobuf:"bytes,13,rep,name=f13" json:"f13,omitempty" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	F3            []int32                `protobuf:"varint,3,rep,name=f3" json:"f3,omitempty"`
	F145035270    *S7M3                  `protobuf:"bytes,145035270,opt,name=f145035270" json:"f145035270,omitempty"`
	F4            *E                     `protobuf:"varint,4,opt,name=f4,enum=fxpb.E" json:"f4,omitempty"`
	F977          *uint64                `protobuf:"fixed64,977,req,name=f977" json:"f977,omitempty"`
	F2            int32                  `protobuf:"zigzag32,2,opt,name=f2" json:"f2,omitempty"`
	unknownFields protoimpl.UnknownFields
	sizeCache     protoimpl.SizeCache
}

func (x *S7M2) Reset() {
	*x = S7M2{}
	mi := &file_fxpb_proto_msgTypes[26]
	ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
	ms.StoreMessageInfo(mi)
}

func (x *S7M2) String() string {
	return protoimpl.X.MessageStringOf(x)
}

func (*S7M2) ProtoMessage() {}

func (x *S7M2) ProtoReflect() protoreflect.Message {
	mi := &file_fxpb_proto_msgTypes[26]
	if x != nil {
		ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
		if ms.LoadMessageInfo() == nil {
			ms.StoreMessageInfo(mi)
		}
		return ms
	}
	return mi.MessageOf(x)
}

// Deprecated: Use S7M2.ProtoReflect.Descriptor instead.
func (*S7M2) Descriptor() ([]byte, []int) {
	return file_fxpb_proto_rawDescGZIP(), []int{26}
}

func (x *S7M2) GetF13() map[int32]int32 {
	if x != nil {
		return x.F13
	}
	return nil
}

func (x *S7M2) GetF3() []int32 {
	if x != nil {
		return x.F3
	}
	return nil
}

func (x *S7M2) GetF145035270() *S7M3 {
	if x != nil {
		return x.F145035270
	}
	return nil
}

func (x *S7M2) GetF4() E {
	if x != nil && x.F4 != nil {
		return *x.F4
	}
	return E_E_ZERO
}

func (x *S7M2) GetF977() uint64 {
	if x != nil && x.F977 != nil {
		return *x.F977
	}
	return 0
}

func (x *S7M2) GetF2() int32 {
	if x != nil {
		return x.F2
	}
	return 0
}

type S7M3 struct {
	state      protoimpl.MessageState `protogen:"open.v1"`
	F203293200 []int64                `protobuf:"fixed64,203293200,rep,name=f203293200" json:"f203293200,omitempty"`
	F3         []int64                `protobuf:"zigzag64,3,rep,packed,name=f3" json:"f3,omitempty"`
	F1005      *int32                 `protobuf:"varint,1005,opt,name=f1005" json:"f1005,omitempty"`
	F38        []uint32               `protobuf:"varint,38,rep,name=f38" json:"f38,omitempty"`
	F10        bool                   `protobuf:"varint,10,opt,name=f10" json:"f10,omitempty"`
	F25        *float64               `protobuf:"fixed64,25,opt,name=f25" json:"f25,omitempty"`
	// Types that are valid to be assigned to O0:
	//
	//	*S7M3_F6
	//	*S7M3_F262143
	O0            isS7M3_O0 `protobuf_oneof:"o0"`
	unknownFields protoimpl.UnknownFields
	sizeCache     protoimpl.SizeCache
}

func (x *S7M3) Reset() {
	*x = S7M3{}
	mi := &file_fxpb_proto_msgTypes[27]
	ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
	ms.StoreMessageInfo(mi)
}

func (x *S7M3) String() string {
	return protoimpl.X.MessageStringOf(x)
}

func (*S7M3) ProtoMessage() {}

func (x *S7M3) ProtoReflect() protoreflect.Message {
	mi := &file_fxpb_proto_msgTypes[27]
	if x != nil {
		ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
		if ms.LoadMessageInfo() == nil {
			ms.StoreMessageInfo(mi)
		}
		return ms
	}
	return mi.MessageOf(x)
}

// Deprecated: Use S7M3.ProtoReflect.Descriptor instead.
func (*S7M3) Descriptor() ([]byte, []int) {
	return file_fxpb_proto_rawDescGZIP(), []int{27}
}

func (x *S7M3) GetF203293200() []int64 {
	if x != nil {
		return x.F203293200
	}
	return nil
}

func (x *S7M3) GetF3() []int64 {
	if x != nil {
		return x.F3
	}
	return nil
}

func (x *S7M3) GetF1005() int32 {
	if x != nil && x.F1005 != nil {
		return *x.F1005
	}
	return 0
}

func (x *S7M3) GetF38() []uint32 {
	if x != nil {
		return x.F38
	}
	return nil
}

func (x *S7M3) GetF10() bool {
	if x != nil {
		return x.F10
	}
	return false
}

func (x *S7M3) GetF25() float64 {
	if x != nil && x.F25 != nil {
		return *x.F25
	}
	return 0
}

func (x *S7M3) GetO0() isS7M3_O0 {
	if x != nil {
		return x.O0
	}
	return nil
}

func (x *S7M3) GetF6() int32 {
	if x != nil {
		if x, ok := x.O0.(*S7M3_F6); ok {
			return x.F6
		}
	}
	return 0
}

func (x *S7M3) GetF262143() uint64 {
	if x != nil {
		if x, ok := x.O0.(*S7M3_F262143); ok {
			return x.F262143
		}
	}
	return 0
}

type isS7M3_O0 interface {
	isS7M3_O0()
}

type S7M3_F6 struct {
	F6 int32 `protobuf:"varint,6,opt,name=f6,oneof"`
}

type S7M3_F262143 struct {
	F262143 uint64 `protobuf:"varint,262143,opt,name=f262143,oneof"`
}

func (*S7M3_F6) isS7M3_O0() {}

func (*S7M3_F262143) isS7M3_O0() {}

type S8M1 struct {
	state protoimpl.MessageState `protogen:"open.v1"`
	F2047 int32                  `protobuf:"fixed32,2047,opt,name=f2047" json:"f2047,omitempty"`
	F998  uint64                 `protobuf:"varint,998,opt,name=f998" json:"f998,omitempty"`
	F2    map[int32][]byte       `protobuf:"bytes,2,rep,name=f2" json:"f2,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	// Types that are valid to be assigned to O0:
	//
	//	*S8M1_F27
	O0            isS8M1_O0 `protobuf_oneof:"o0"`
	unknownFields protoimpl.UnknownFields
	sizeCache     protoimpl.SizeCache
}

func (x *S8M1) Reset() {
	*x = S8M1{}
	mi := &file_fxpb_proto_msgTypes[28]
	ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
	ms.StoreMessageInfo(mi)
}

func (x *S8M1) String() string {
	return protoimpl.X.MessageStringOf(x)
}

func (*S8M1) ProtoMessage() {}

func (x *S8M1) ProtoReflect() protoreflect.Message {
	mi := &file_fxpb_proto_msgTypes[28]
	if x != nil {
		ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
		if ms.LoadMessageInfo() == nil {
			ms.StoreMessageInfo(mi)
		}
		return ms
	}
	return mi.MessageOf(x)
}

// Deprecated: Use S8M1.ProtoReflect.Descriptor instead.
func (*S8M1) Descriptor() ([]byte, []int) {
	return file_fxpb_proto_rawDescGZIP(), []int{28}
}

func (x *S8M1) GetF2047() int32 {
	if x != nil {
		return x.F2047
	}
	return 0
}

func (x *S8M1) GetF998() uint64 {
	if x != nil {
		return x.F998
	}
	return 0
}

func (x *S8M1) GetF2() map[int32][]byte {
	if x != nil {
		return x.F2
	}
	return nil
}

func (x *S8M1) GetO0() isS8M1_O0 {
	if x != nil {
		return x.O0
	}
	return nil
}

func (x *S8M1) GetF27() string {
	if x != nil {
		if x, ok := x.O0.(*S8M1_F27); ok {
			return x.F27
		}
	}
	return ""
}

type isS8M1_O0 interface {
	isS8M1_O0()
}

type S8M1_F27 struct {
	F27 string `protobuf:"bytes,27,opt,name=f27,oneof"`
}

func (*S8M1_F27) isS8M1_O0() {}

type S9M1 struct {
	state         protoimpl.MessageState `protogen:"open.v1"`
	F16           map[int32]uint64       `protobuf:"bytes,16,rep,name=f16" json:"f16,omitempty" protobuf_key:"zigzag32,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	F13           uint32                 `protobuf:"fixed32,13,opt,name=f13" json:"f13,omitempty"`
	F9            *uint32                `protobuf:"varint,9,opt,name=f9" json:"f9,omitempty"`
	F1            uint64                 `protobuf:"fixed64,1,opt,name=f1" json:"f1,omitempty"`
	F7            *S9M2                  `protobuf:"bytes,7,opt,name=f7" json:"f7,omitempty"`
	unknownFields protoimpl.UnknownFields
	sizeCache     protoimpl.SizeCache
}

func (x *S9M1) Reset() {
	*x = S9M1{}
	mi := &file_fxpb_proto_msgTypes[29]
	ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
	ms.StoreMessageInfo(mi)
}

func (x *S9M1) String() string {
	return protoimpl.X.MessageStringOf(x)
}

func (*S9M1) ProtoMessage() {}

func (x *S9M1) ProtoReflect() protoreflect.Message {
	mi := &file_fxpb_proto_msgTypes[29]
	if x != nil {
		ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
		if ms.LoadMessageInfo() == nil {
			ms.StoreMessageInfo(mi)
		}
		return ms
	}
	return mi.MessageOf(x)
}

// Deprecated: Use S9M1.ProtoReflect.Descriptor instead.
func (*S9M1) Descriptor() ([]byte, []int) {
	return file_fxpb_proto_rawDescGZIP(), []int{29}
}

func (x *S9M1) GetF16() map[int32]uint64 {
	if x != nil {
		return x.F16
	}
	return nil
}

func (x *S9M1) GetF13() uint32 {
	if x != nil {
		return x.F13
	}
	return 0
}

func (x *S9M1) GetF9() uint32 {
	if x != nil && x.F9 != nil {
		return *x.F9
	}
	return 0
}

func (x *S9M1) GetF1() uint64 {
	if x != nil {
		return x.F1
	}
	return 0
}

func (x *S9M1) GetF7() *S9M2 {
	if x != nil {
		return x.F7
	}
	return nil
}

type S9M2 struct {
	state         protoimpl.MessageState `protogen:"open.v1"`
	F998          []*S9M3                `protobuf:"bytes,998,rep,name=f998" json:"f998,omitempty"`
	F5            uint64                 `protobuf:"fixed64,5,opt,name=f5" json:"f5,omitempty"`
	F1006         *S9M4                  `protobuf:"bytes,1006,req,name=f1006" json:"f1006,omitempty"`
	F20000        *S9M5                  `protobuf:"bytes,20000,opt,name=f20000" json:"f20000,omitempty"`
	unknownFields protoimpl.UnknownFields
	sizeCache     protoimpl.SizeCache
}

func (x *S9M2) Reset() {
	*x = S9M2{}
	mi := &file_fxpb_proto_msgTypes[30]
	ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
	ms.StoreMessageInfo(mi)
}

func (x *S9M2) String() string {
	return protoimpl.X.MessageStringOf(x)
}

func (*S9M2) ProtoMessage() {}

func (x *S9M2) ProtoReflect() protoreflect.Message {
	mi := &file_fxpb_proto_msgTypes[30]
	if x != nil {
		ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
		if ms.LoadMessageInfo() == nil {
			ms.StoreMessageInfo(mi)
		}
		return ms
	}
	return mi.MessageOf(x)
}

// Deprecated: Use S9M2.ProtoReflect.Descriptor instead.
func (*S9M2) Descriptor() ([]byte, []int) {
	return file_fxpb_proto_rawDescGZIP(), []int{30}
}

func (x *S9M2) GetF998() []*S9M3 {
	if x != nil {
		return x.F998
	}
	return nil
}

func (x *S9M2) GetF5() uint64 {
	if x != nil {
		return x.F5
	}
	return 0
}

func (x *S9M2) GetF1006() *S9M4 {
	if x != nil {
		return x.F1006
	}
	return nil
}

func (x *S9M2) GetF20000() *S9M5 {
	if x != nil {
		return x.F20000
	}
	return nil
}

type S9M3 struct {
	state         protoimpl.MessageState `protogen:"open.v1"`
	F6            *E                     `protobuf:"varint,6,opt,name=f6,enum=fxpb.E" json:"f6,omitempty"`
	F479          *uint64                `protobuf:"varint,479,opt,name=f479" json:"f479,omitempty"`
	F995          *int32                 `protobuf:"zigzag32,995,req,name=f995" json:"f995,omitempty"`
	F3            [][]byte               `protobuf:"bytes,3,rep,name=f3" json:"f3,omitempty"`
	F37           *uint32                `protobuf:"varint,37,opt,name=f37" json:"f37,omitempty"`
	F996          int32                  `protobuf:"fixed32,996,opt,name=f996" json:"f996,omitempty"`
	F5            []E                    `protobuf:"varint,5,rep,packed,name=f5,enum=fxpb.E" json:"f5,omitempty"`
	F28           [][]byte               `protobuf:"bytes,28,rep,name=f28" json:"f28,omitempty"`
	unknownFields protoimpl.UnknownFields
	sizeCache     protoimpl.SizeCache
}

func (x *S9M3) Reset() {
	*x = S9M3{}
	mi := &file_fxpb_proto_msgTypes[31]
	ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
	ms.StoreMessageInfo(mi)
}

func (x *S9M3) String() string {
	return protoimpl.X.MessageStringOf(x)
}

func (*S9M3) ProtoMessage() {}

func (x *S9M3) ProtoReflect() protoreflect.Message {
	mi := &file_fxpb_proto_msgTypes[31]
	if x != nil {
		ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
		if ms.LoadMessageInfo() == nil {
			ms.StoreMessageInfo(mi)
		}
		return ms
	}
	return mi.MessageOf(x)
}

// Deprecated: Use S9M3.ProtoReflect.Descriptor instead.
func (*S9M3) Descriptor() ([]byte, []int) {
	return file_fxpb_proto_rawDescGZIP(), []int{31}
}

func (x *S9M3) GetF6() E {
	if x != nil && x.F6 != nil {
		return *x.F6
	}
	return E_E_ZERO
}

func (x *S9M3) GetF479() uint64 {
	if x != nil && x.F479 != nil {
		return *x.F479
	}
	return 0
}

func (x *S9M3) GetF995() int32 {
	if x != nil && x.F995 != nil {
		return *x.F995
	}
	return 0
}

func (x *S9M3) GetF3() [][]byte {
	if x != nil {
		return x.F3
	}
	return nil
}

func (x *S9M3) GetF37() uint32 {
	if x != nil && x.F37 != nil {
		return *x.F37
	}
	return 0
}

func (x *S9M3) GetF996() int32 {
	if x != nil {
		return x.F996
	}
	return 0
}

func (x *S9M3) GetF5() []E {
	if x != nil {
		return x.F5
	}
	return nil
}

func (x *S9M3) GetF28() [][]byte {
	if x != nil {
		return x.F28
	}
	return nil
}

type S9M4 struct {
	state      protoimpl.MessageState `protogen:"open.v1"`
	F69        map[uint64]int64       `protobuf:"bytes,69,rep,name=f69" json:"f69,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	F1         map[string]uint32      `protobuf:"bytes,1,rep,name=f1" json:"f1,omitempty" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value"`
	F282239034 uint32                 `protobuf:"fixed32,282239034,opt,name=f282239034" json:"f282239034,omitempty"`
	F13        uint32                 `protobuf:"fixed32,13,opt,name=f13" json:"f13,omitempty"`
	// Types that are valid to be assigned to O0:
	//
	//	*S9M4_F9
	O0            isS9M4_O0 `protobuf_oneof:"o0"`
	unknownFields protoimpl.UnknownFields
	sizeCache     protoimpl.SizeCache
}

func (x *S9M4) Reset() {
	*x = S9M4{}
	mi := &file_fxpb_proto_msgTypes[32]
	ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
	ms.StoreMessageInfo(mi)
}

func (x *S9M4) String() string {
	return protoimpl.X.MessageStringOf(x)
}

func (*S9M4) ProtoMessage() {}

func (x *S9M4) ProtoReflect() protoreflect.Message {
	mi := &file_fxpb_proto_msgTypes[32]
	if x != nil {
		ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
		if ms.LoadMessageInfo() == nil {
			ms.StoreMessageInfo(mi)
		}
		return ms
	}
	return mi.MessageOf(x)
}

// Deprecated: Use S9M4.ProtoReflect.Descriptor instead.
func (*S9M4) Descriptor() ([]byte, []int) {
	return file_fxpb_proto_rawDescGZIP(), []int{32}
}

func (x *S9M4) GetF69() map[uint64]int64 {
	if x != nil {
		return x.F69
	}
	return nil
}

func (x *S9M4) GetF1() map[string]uint32 {
	if x != nil {
		return x.F1
	}
	return nil
}

func (x *S9M4) GetF282239034() uint32 {
	if x != nil {
		return x.F282239034
	}
	return 0
}

func (x *S9M4) GetF13() uint32 {
	if x != nil {
		return x.F13
	}
	return 0
}

func (x *S9M4) GetO0() isS9M4_O0 {
	if x != nil {
		return x.O0
	}
	return nil
}

func (x *S9M4) GetF9() bool {
	if x != nil {
		if x, ok := x.O0.(*S9M4_F9); ok {
			return x.F9
		}
	}
	return false
}

type isS9M4_O0 interface {
	isS9M4_O0()
}

type S9M4_F9 struct {
	F9 bool `protobuf:"varint,9,opt,name=f9,oneof"`
}

func (*S9M4_F9) isS9M4_O0() {}

type S9M5 struct {
	state         protoimpl.MessageState `protogen:"open.v1"`
	F16154991     *int32                 `protobuf:"fixed32,16154991,opt,name=f16154991" json:"f16154991,omitempty"`
	unknownFields protoimpl.UnknownFields
	sizeCache     protoimpl.SizeCache
}

func (x *S9M5) Reset() {
	*x = S9M5{}
	mi := &file_fxpb_proto_msgTypes[33]
	ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
	ms.StoreMessageInfo(mi)
}

func (x *S9M5) String() string {
	return protoimpl.X.MessageStringOf(x)
}

func (*S9M5) ProtoMessage() {}

func (x *S9M5) ProtoReflect() protoreflect.Message {
	mi := &file_fxpb_proto_msgTypes[33]
	if x != nil {
		ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
		if ms.LoadMessageInfo() == nil {
			ms.StoreMessageInfo(mi)
		}
		return ms
	}
	return mi.MessageOf(x)
}

// Deprecated: Use S9M5.ProtoReflect.Descriptor instead.
func (*S9M5) Descriptor() ([]byte, []int) {
	return file_fxpb_proto_rawDescGZIP(), []int{33}
}

func (x *S9M5) GetF16154991() int32 {
	if x != nil && x.F16154991 != nil {
		return *x.F16154991
	}
	return 0
}

type S10M1 struct {
	state         protoimpl.MessageState `protogen:"open.v1"`
	F8            *S10M2                 `protobuf:"bytes,8,opt,name=f8" json:"f8,omitempty"`
	F7            uint32                 `protobuf:"fixed32,7,opt,name=f7" json:"f7,omitempty"`
	F1002         *S10M4                 `protobuf:"bytes,1002,opt,name=f1002" json:"f1002,omitempty"`
	F1000         bool                   `protobuf:"varint,1000,opt,name=f1000" json:"f1000,omitempty"`
	F9            *S10M3                 `protobuf:"bytes,9,opt,name=f9" json:"f9,omitempty"`
	F262144       *S10M6                 `protobuf:"bytes,262144,opt,name=f262144" json:"f262144,omitempty"`
	F625          *S10M4                 `protobuf:"bytes,625,opt,name=f625" json:"f625,omitempty"`
	F11           map[uint64]bool        `protobuf:"bytes,11,rep,name=f11" json:"f11,omitempty" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	unknownFields protoimpl.UnknownFields
	sizeCache     protoimpl.SizeCache
}

func (x *S10M1) Reset() {
	*x = S10M1{}
	mi := &file_fxpb_proto_msgTypes[34]
	ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
	ms.StoreMessageInfo(mi)
}

func (x *S10M1) String() string {
	return protoimpl.X.MessageStringOf(x)
}

func (*S10M1) ProtoMessage() {}

func (x *S10M1) ProtoReflect() protoreflect.Message {
	mi := &file_fxpb_proto_msgTypes[34]
	if x != nil {
		ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
		if ms.LoadMessageInfo() == nil {
			ms.StoreMessageInfo(mi)
		}
		return ms
	}
	return mi.MessageOf(x)
}

// Deprecated: Use S10M1.ProtoReflect.Descriptor instead.
func (*S10M1) Descriptor() ([]byte, []int) {
	return file_fxpb_proto_rawDescGZIP(), []int{34}
}

func (x *S10M1) GetF8() *S10M2 {
	if x != nil {
		return x.F8
	}
	return nil
}

func (x *S10M1) GetF7() uint32 {
	if x != nil {
		return x.F7
	}
	return 0
}

func (x *S10M1) GetF1002() *S10M4 {
	if x != nil {
		return x.F1002
	}
	return nil
}

func (x *S10M1) GetF1000() bool {
	if x != nil {
		return x.F1000
	}
	return false
}

func (x *S10M1) GetF9() *S10M3 {
	if x != nil {
		return x.F9
	}
	return nil
}

func (x *S10M1) GetF262144() *S10M6 {
	if x != nil {
		return x.F262144
	}
	return nil
}

func (x *S10M1) GetF625() *S10M4 {
	if x != nil {
		return x.F625
	}
	return nil
}

func (x *S10M1) GetF11() map[uint64]bool {
	if x != nil {
		return x.F11
	}
	return nil
}

type S10M2 struct {
	state         protoimpl.MessageState `protogen:"open.v1"`
	F14           []int32                `protobuf:"varint,14,rep,name=f14" json:"f14,omitempty"`
	F7            int32                  `protobuf:"zigzag32,7,opt,name=f7" json:"f7,omitempty"`
	F4            map[int32]*S10M3       `protobuf:"bytes,4,rep,name=f4" json:"f4,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	F5            []byte                 `protobuf:"bytes,5,opt,name=f5" json:"f5,omitempty"`
	F428859739    []int32                `protobuf:"varint,428859739,rep,packed,name=f428859739" json:"f428859739,omitempty"`
	F6            *uint32                `protobuf:"varint,6,opt,name=f6" json:"f6,omitempty"`
	F12           uint64                 `protobuf:"fixed64,12,opt,name=f12" json:"f12,omitempty"`
	unknownFields protoimpl.UnknownFields
	sizeCache     protoimpl.SizeCache
}

func (x *S10M2) Reset() {
	*x = S10M2{}
	mi := &file_fxpb_proto_msgTypes[35]
	ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
	ms.StoreMessageInfo(mi)
}

func (x *S10M2) String() string {
	return protoimpl.X.MessageStringOf(x)
}

func (*S10M2) ProtoMessage() {}

func (x *S10M2) ProtoReflect() protoreflect.Message {
	mi := &file_fxpb_proto_msgTypes[35]
	if x != nil {
		ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
		if ms.LoadMessageInfo() == nil {
			ms.StoreMessageInfo(mi)
		}
		return ms
	}
	return mi.MessageOf(x)
}

// Deprecated: Use S10M2.ProtoReflect.Descriptor instead.
func (*S10M2) Descriptor() ([]byte, []int) {
	return file_fxpb_proto_rawDescGZIP(), []int{35}
}

func (x *S10M2) GetF14() []int32 {
	if x != nil {
		return x.F14
	}
	return nil
}

func (x *S10M2) GetF7() int32 {
	if x != nil {
		return x.F7
	}
	return 0
}

func (x *S10M2) GetF4() map[int32]*S10M3 {
	if x != nil {
		return x.F4
	}
	return nil
}

func (x *S10M2) GetF5() []byte {
	if x != nil {
		return x.F5
	}
	return nil
}

func (x *S10M2) GetF428859739() []int32 {
	if x != nil {
		return x.F428859739
	}
	return nil
}

func (x *S10M2) GetF6() uint32 {
	if x != nil && x.F6 != nil {
		return *x.F6
	}
	return 0
}

func (x *S10M2) GetF12() uint64 {
	if x != nil {
		return x.F12
	}
	return 0
}

type S10M3 struct {
	state protoimpl.MessageState `protogen:"open.v1"`
	F902  E                      `protobuf:"varint,902,opt,name=f902,enum=fxpb.E" json:"f902,omitempty"`
	// Types that are valid to be assigned to O0:
	//
	//	*S10M3_F410
	//	*S10M3_F999
	//	*S10M3_F1003
	O0            isS10M3_O0 `protobuf_oneof:"o0"`
	unknownFields protoimpl.UnknownFields
	sizeCache     protoimpl.SizeCache
}

func (x *S10M3) Reset() {
	*x = S10M3{}
	mi := &file_fxpb_proto_msgTypes[36]
	ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
	ms.StoreMessageInfo(mi)
}

func (x *S10M3) String() string {
	return protoimpl.X.MessageStringOf(x)
}

func (*S10M3) ProtoMessage() {}

func (x *S10M3) ProtoReflect() protoreflect.Message {
	mi := &file_fxpb_proto_msgTypes[36]
	if x != nil {
		ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
		if ms.LoadMessageInfo() == nil {
			ms.StoreMessageInfo(mi)
		}
		return ms
	}
	return mi.MessageOf(x)
}

// Deprecated: Use S10M3.ProtoReflect.Descriptor instead.
func (*S10M3) Descriptor() ([]byte, []int) {
	return file_fxpb_proto_rawDescGZIP(), []int{36}
}

func (x *S10M3) GetF902() E {
	if x != nil {
		return x.F902
	}
	return E_E_ZERO
}

func (x *S10M3) GetO0() isS10M3_O0 {
	if x != nil {
		return x.O0
	}
	return nil
}

func (x *S10M3) GetF410() []byte {
	if x != nil {
		if x, ok := x.O0.(*S10M3_F410); ok {
			return x.F410
		}
	}
	return nil
}

func (x *S10M3) GetF999() int32 {
	if x != nil {
		if x, ok := x.O0.(*S10M3_F999); ok {
			return x.F999
		}
	}
	return 0
}

func (x *S10M3) GetF1003() float32 {
	if x != nil {
		if x, ok := x.O0.(*S10M3_F1003); ok {
			return x.F1003
		}
	}
	return 0
}

type isS10M3_O0 interface {
	isS10M3_O0()
}

type S10M3_F410 struct {
	F410 []byte `protobuf:"bytes,410,opt,name=f410,oneof"`
}

type S10M3_F999 struct {
	F999 int32 `protobuf:"fixed32,999,opt,name=f999,oneof"`
}

type S10M3_F1003 struct {
	F1003 float32 `protobuf:"fixed32,1003,opt,name=f1003,oneof"`
}

func (*S10M3_F410) isS10M3_O0() {}

func (*S10M3_F999) isS10M3_O0() {}

func (*S10M3_F1003) isS10M3_O0() {}

type S10M4 struct {
	state         protoimpl.MessageState `protogen:"open.v1"`
	F2            E                      `protobuf:"varint,2,opt,name=f2,enum=fxpb.E" json:"f2,omitempty"`
	F262144       *S10M3                 `protobuf:"bytes,262144,opt,name=f262144" json:"f262144,omitempty"`
	F39           map[int32]uint64       `protobuf:"bytes,39,rep,name=f39" json:"f39,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value"`
	F1005         []*S10M5               `protobuf:"bytes,1005,rep,name=f1005" json:"f1005,omitempty"`
	unknownFields protoimpl.UnknownFields
	sizeCache     protoimpl.SizeCache
}

func (x *S10M4) Reset() {
	*x = S10M4{}
	mi := &file_fxpb_proto_msgTypes[37]
	ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
	ms.StoreMessageInfo(mi)
}

func (x *S10M4) String() string {
	return protoimpl.X.MessageStringOf(x)
}

func (*S10M4) ProtoMessage() {}

func (x *S10M4) ProtoReflect() protoreflect.Message {
	mi := &file_fxpb_proto_msgTypes[37]
	if x != nil {
		ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
		if ms.LoadMessageInfo() == nil {
			ms.StoreMessageInfo(mi)
		}
		return ms
	}
	return mi.MessageOf(x)
}

// Deprecated: Use S10M4.ProtoReflect.Descriptor instead.
func (*S10M4) Descriptor() ([]byte, []int) {
	return file_fxpb_proto_rawDescGZIP(), []int{37}
}

func (x *S10M4) GetF2() E {
	if x != nil {
		return x.F2
	}
	return E_E_ZERO
}

func (x *S10M4) GetF262144() *S10M3 {
	if x != nil {
		return x.F262144
	}
	return nil
}

func (x *S10M4) GetF39() map[int32]uint64 {
	if x != nil {
		return x.F39
	}
	return nil
}

func (x *S10M4) GetF1005() []*S10M5 {
	if x != nil {
		return x.F1005
	}
	return nil
}

type S10M5 struct {
	state protoimpl.MessageState `protogen:"open.v1"`
	F997  map[int32]bool         `protobuf:"bytes,997,rep,name=f997" json:"f997,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	F4    *uint64                `protobuf:"varint,4,opt,name=f4" json:"f4,omitempty"`
	F5    []int64                `protobuf:"varint,5,rep,name=f5" json:"f5,omitempty"`
	// Types that are valid to be assigned to O0:
	//
	//	*S10M5_F25
	O0            isS10M5_O0 `protobuf_oneof:"o0"`
	unknownFields protoimpl.UnknownFields
	sizeCache     protoimpl.SizeCache
}

func (x *S10M5) Reset() {
	*x = S10M5{}
	mi := &file_fxpb_proto_msgTypes[38]
	ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
	ms.StoreMessageInfo(mi)
}

func (x *S10M5) String() string {
	return protoimpl.X.MessageStringOf(x)
}

func (*S10M5) ProtoMessage() {}

func (x *S10M5) ProtoReflect() protoreflect.Message {
	mi := &file_fxpb_proto_msgTypes[38]
	if x != nil {
		ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
		if ms.LoadMessageInfo() == nil {
			ms.StoreMessageInfo(mi)
		}
		return ms
	}
	return mi.MessageOf(x)
}

// Deprecated: Use S10M5.ProtoReflect.Descriptor instead.
func (*S10M5) Descriptor() ([]byte, []int) {
	return file_fxpb_proto_rawDescGZIP(), []int{38}
}

func (x *S10M5) GetF997() map[int32]bool {
	if x != nil {
		return x.F997
	}
	return nil
}

func (x *S10M5) GetF4() uint64 {
	if x != nil && x.F4 != nil {
		return *x.F4
	}
	return 0
}

func (x *S10M5) GetF5() []int64 {
	if x != nil {
		return x.F5
	}
	return nil
}

func (x *S10M5) GetO0() isS10M5_O0 {
	if x != nil {
		return x.O0
	}
	return nil
}

func (x *S10M5) GetF25() string {
	if x != nil {
		if x, ok := x.O0.(*S10M5_F25); ok {
			return x.F25
		}
	}
	return ""
}

type isS10M5_O0 interface {
	isS10M5_O0()
}

type S10M5_F25 struct {
	F25 string `protobuf:"bytes,25,opt,name=f25,oneof"`
}

func (*S10M5_F25) isS10M5_O0() {}

type S10M6 struct {
	state      protoimpl.MessageState `protogen:"open.v1"`
	F357298165 [][]byte               `protobuf:"bytes,357298165,rep,name=f357298165" json:"f357298165,omitempty"`
	// Types that are valid to be assigned to O0:
	//
	//	*S10M6_F1
	//	*S10M6_F375
	O0            isS10M6_O0 `protobuf_oneof:"o0"`
	unknownFields protoimpl.UnknownFields
	sizeCache     protoimpl.SizeCache
}

func (x *S10M6) Reset() {
	*x = S10M6{}
	mi := &file_fxpb_proto_msgTypes[39]
	ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
	ms.StoreMessageInfo(mi)
}

func (x *S10M6) String() string {
	return protoimpl.X.MessageStringOf(x)
}

func (*S10M6) ProtoMessage() {}

func (x *S10M6) ProtoReflect() protoreflect.Message {
	mi := &file_fxpb_proto_msgTypes[39]
	if x != nil {
		ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
		if ms.LoadMessageInfo() == nil {
			ms.StoreMessageInfo(mi)
		}
		return ms
	}
	return mi.MessageOf(x)
}

// Deprecated: Use S10M6.ProtoReflect.Descriptor instead.
func (*S10M6) Descriptor() ([]byte, []int) {
	return file_fxpb_proto_rawDescGZIP(), []int{39}
}

func (x *S10M6) GetF357298165() [][]byte {
	if x != nil {
		return x.F357298165
	}
	return nil
}

func (x *S10M6) GetO0() isS10M6_O0 {
	if x != nil {
		return x.O0
	}
	return nil
}

func (x *S10M6) GetF1() E {
	if x != nil {
		if x, ok := x.O0.(*S10M6_F1); ok {
			return x.F1
		}
	}
	return E_E_ZERO
}

func (x *S10M6) GetF375() float32 {
	if x != nil {
		if x, ok := x.O0.(*S10M6_F375); ok {
			return x.F375
		}
	}
	return 0
}

type isS10M6_O0 interface {
	isS10M6_O0()
}

type S10M6_F1 struct {
	F1 E `protobuf:"varint,1,opt,name=f1,enum=fxpb.E,oneof"`
}

type S10M6_F375 struct {
	F375 float32 `protobuf:"fixed32,375,opt,name=f375,oneof"`
}

func (*S10M6_F1) isS10M6_O0() {}

func (*S10M6_F375) isS10M6_O0() {}

type S11M1 struct {
	state         protoimpl.MessageState `protogen:"open.v1"`
	F998          []int64                `protobuf:"varint,998,rep,name=f998" json:"f998,omitempty"`
	F9            map[int32][]byte       `protobuf:"bytes,9,rep,name=f9" json:"f9,omitempty" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	F6            *S11M2                 `protobuf:"bytes,6,opt,name=f6" json:"f6,omitempty"`
	F10           int64                  `protobuf:"varint,10,opt,name=f10" json:"f10,omitempty"`
	unknownFields protoimpl.UnknownFields
	sizeCache     protoimpl.SizeCache
}

func (x *S11M1) Reset() {
	*x = S11M1{}
	mi := &file_fxpb_proto_msgTypes[40]
	ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
	ms.StoreMessageInfo(mi)
}

func (x *S11M1) String() string {
	return protoimpl.X.MessageStringOf(x)
}

func (*S11M1) ProtoMessage() {}

func (x *S11M1) ProtoReflect() protoreflect.Message {
	mi := &file_fxpb_proto_msgTypes[40]
	if x != nil {
		ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
		if ms.LoadMessageInfo() == nil {
			ms.StoreMessageInfo(mi)
		}
		return ms
	}
	return mi.MessageOf(x)
}

// Deprecated: Use S11M1.ProtoReflect.Descriptor instead.
func (*S11M1) Descriptor() ([]byte, []int) {
	return file_fxpb_proto_rawDescGZIP(), []int{40}
}

func (x *S11M1) GetF998() []int64 {
	if x != nil {
		return x.F998
	}
	return nil
}

func (x *S11M1) GetF9() map[int32][]byte {
	if x != nil {
		return x.F9
	}
	return nil
}

func (x *S11M1) GetF6() *S11M2 {
	if x != nil {
		return x.F6
	}
	return nil
}

func (x *S11M1) GetF10() int64 {
	if x != nil {
		return x.F10
	}
	return 0
}

type S11M2 struct {
	state protoimpl.MessageState `protogen:"open.v1"`
	F1002 *uint32                `protobuf:"fixed32,1002,req,name=f1002" json:"f1002,omitempty"`
	// Types that are valid to be assigned to O0:
	//
	//	*S11M2_F3
	O0            isS11M2_O0 `protobuf_oneof:"o0"`
	unknownFields protoimpl.UnknownFields
	sizeCache     protoimpl.SizeCache
}

func (x *S11M2) Reset() {
	*x = S11M2{}
	mi := &file_fxpb_proto_msgTypes[41]
	ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
	ms.StoreMessageInfo(mi)
}

func (x *S11M2) String() string {
	return protoimpl.X.MessageStringOf(x)
}

func (*S11M2) ProtoMessage() {}

func (x *S11M2) ProtoReflect() protoreflect.Message {
	mi := &file_fxpb_proto_msgTypes[41]
	if x != nil {
		ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
		if ms.LoadMessageInfo() == nil {
			ms.StoreMessageInfo(mi)
		}
		return ms
	}
	return mi.MessageOf(x)
}

// Deprecated: Use S11M2.ProtoReflect.Descriptor instead.
func (*S11M2) Descriptor() ([]byte, []int) {
	return file_fxpb_proto_rawDescGZIP(), []int{41}
}

func (x *S11M2) GetF1002() uint32 {
	if x != nil && x.F1002 != nil {
		return *x.F1002
	}
	return 0
}

func (x *S11M2) GetO0() isS11M2_O0 {
	if x != nil {
		return x.O0
	}
	return nil
}

func (x *S11M2) GetF3() uint64 {
	if x != nil {
		if x, ok := x.O0.(*S11M2_F3); ok {
			return x.F3
		}
	}
	return 0
}

type isS11M2_O0 interface {
	isS11M2_O0()
}

type S11M2_F3 struct {
	F3 uint64 `protobuf:"fixed64,3,opt,name=f3,oneof"`
}

func (*S11M2_F3) isS11M2_O0() {}

type S12M1 struct {
	state         protoimpl.MessageState `protogen:"open.v1"`
	F32           map[string]int32       `protobuf:"bytes,32,rep,name=f32" json:"f32,omitempty" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"zigzag32,2,opt,name=value"`
	F536870910    int64                  `protobuf:"fixed64,536870910,opt,name=f536870910" json:"f536870910,omitempty"`
	F2047         *S12M2                 `protobuf:"bytes,2047,opt,name=f2047" json:"f2047,omitempty"`
	F926          []uint64               `protobuf:"fixed64,926,rep,name=f926" json:"f926,omitempty"`
	F13           uint32                 `protobuf:"varint,13,opt,name=f13" json:"f13,omitempty"`
	F2048         int64                  `protobuf:"zigzag64,2048,opt,name=f2048" json:"f2048,omitempty"`
	F536870911    map[uint32]*S12M4      `protobuf:"bytes,536870911,rep,name=f536870911" json:"f536870911,omitempty" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	F15           uint32                 `protobuf:"varint,15,opt,name=f15" json:"f15,omitempty"`
	F12           map[int32]int32        `protobuf:"bytes,12,rep,name=f12" json:"f12,omitempty" protobuf_key:"zigzag32,1,opt,name=key" protobuf_val:"zigzag32,2,opt,name=value"`
	F35           *S12M8                 `protobuf:"bytes,35,opt,name=f35" json:"f35,omitempty"`
	unknownFields protoimpl.UnknownFields
	sizeCache     protoimpl.SizeCache
}

func (x *S12M1) Reset() {
	*x = S12M1{}
	mi := &file_fxpb_proto_msgTypes[42]
	ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
	ms.StoreMessageInfo(mi)
}

func (x *S12M1) String() string {
	return protoimpl.X.MessageStringOf(x)
}

func (*S12M1) ProtoMessage() {}

func (x *S12M1) ProtoReflect() protoreflect.Message {
	mi := &file_fxpb_proto_msgTypes[42]
	if x != nil {
		ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
		if ms.LoadMessageInfo() == nil {
			ms.StoreMessageInfo(mi)
		}
		return ms
	}
	return mi.MessageOf(x)
}

// Deprecated: Use S12M1.ProtoReflect.Descriptor instead.
func (*S12M1) Descriptor() ([]byte, []int) {
	return file_fxpb_proto_rawDescGZIP(), []int{42}
}

func (x *S12M1) GetF32() map[string]int32 {
	if x != nil {
		return x.F32
	}
	return nil
}

func (x *S12M1) GetF536870910() int64 {
	if x != nil {
		return x.F536870910
	}
	return 0
}

func (x *S12M1) GetF2047() *S12M2 {
	if x != nil {
		return x.F2047
	}
	return nil
}

func (x *S12M1) GetF926() []uint64 {
	if x != nil {
		return x.F926
	}
	return nil
}

func (x *S12M1) GetF13() uint32 {
	if x != nil {
		return x.F13
	}
	return 0
}

func (x *S12M1) GetF2048() int64 {
	if x != nil {
		return x.F2048
	}
	return 0
}

func (x *S12M1) GetF536870911() map[uint32]*S12M4 {
	if x != nil {
		return x.F536870911
	}
	return nil
}

func (x *S12M1) GetF15() uint32 {
	if x != nil {
		return x.F15
	}
	return 0
}

func (x *S12M1) GetF12() map[int32]int32 {
	if x != nil {
		return x.F12
	}
	return nil
}

func (x *S12M1) GetF35() *S12M8 {
	if x != nil {
		return x.F35
	}
	return nil
}

type S12M2 struct {
	state         protoimpl.MessageState `protogen:"open.v1"`
	F528          *S12M3                 `protobuf:"bytes,528,opt,name=f528" json:"f528,omitempty"`
	unknownFields protoimpl.UnknownFields
	sizeCache     protoimpl.SizeCache
}

func (x *S12M2) Reset() {
	*x = S12M2{}
	mi := &file_fxpb_proto_msgTypes[43]
	ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
	ms.StoreMessageInfo(mi)
}

func (x *S12M2) String() string {
	return protoimpl.X.MessageStringOf(x)
}

func (*S12M2) ProtoMessage() {}

func (x *S12M2) ProtoReflect() protoreflect.Message {
	mi := &file_fxpb_proto_msgTypes[43]
	if x != nil {
		ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
		if ms.LoadMessageInfo() == nil {
			ms.StoreMessageInfo(mi)
		}
		return ms
	}
	return mi.MessageOf(x)
}

// Deprecated: Use S12M2.ProtoReflect.Descriptor instead.
func (*S12M2) Descriptor() ([]byte, []int) {
	return file_fxpb_proto_rawDescGZIP(), []int{43}
}

func (x *S12M2) GetF528() *S12M3 {
	if x != nil {
		return x.F528
	}
	return nil
}

type S12M3 struct {
	state         protoimpl.MessageState `protogen:"open.v1"`
	F536870911    *float64               `protobuf:"fixed64,536870911,opt,name=f536870911" json:"f536870911,omitempty"`
	F37           int64                  `protobuf:"fixed64,37,opt,name=f37" json:"f37,omitempty"`
	F15           *float64               `protobuf:"fixed64,15,req,name=f15" json:"f15,omitempty"`
	F8            map[uint64]E           `protobuf:"bytes,8,rep,name=f8" json:"f8,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"varint,2,opt,name=value,enum=fxpb.E"`
	F38           *int32                 `protobuf:"fixed32,38,opt,name=f38" json:"f38,omitempty"`
	F1008         *bool                  `protobuf:"varint,1008,opt,name=f1008" json:"f1008,omitempty"`
	F1000         *string                `protobuf:"bytes,1000,opt,name=f1000" json:"f1000,omitempty"`
	F1006         []int64                `protobuf:"zigzag64,1006,rep,name=f1006" json:"f1006,omitempty"`
	F2            []float64              `protobuf:"fixed64,2,rep,packed,name=f2" json:"f2,omitempty"`
	F11           float32                `protobuf:"fixed32,11,opt,name=f11" json:"f11,omitempty"`
	unknownFields protoimpl.UnknownFields
	sizeCache     protoimpl.SizeCache
}

func (x *S12M3) Reset() {
	*x = S12M3{}
	mi := &file_fxpb_proto_msgTypes[44]
	ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
	ms.StoreMessageInfo(mi)
}

func (x *S12M3) String() string {
	return protoimpl.X.MessageStringOf(x)
}

func (*S12M3) ProtoMessage() {}

func (x *S12M3) ProtoReflect() protoreflect.Message {
	mi := &file_fxpb_proto_msgTypes[44]
	if x != nil {
		ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
		if ms.LoadMessageInfo() == nil {
			ms.StoreMessageInfo(mi)
		}
		return ms
	}
	return mi.MessageOf(x)
}

// Deprecated: Use S12M3.ProtoReflect.Descriptor instead.
func (*S12M3) Descriptor() ([]byte, []int) {
	return file_fxpb_proto_rawDescGZIP(), []int{44}
}

func (x *S12M3) GetF536870911() float64 {
	if x != nil && x.F536870911 != nil {
		return *x.F536870911
	}
	return 0
}

func (x *S12M3) GetF37() int64 {
	if x != nil {
		return x.F37
	}
	return 0
}

func (x *S12M3) GetF15() float64 {
	if x != nil && x.F15 != nil {
		return *x.F15
	}
	return 0
}

func (x *S12M3) GetF8() map[uint64]E {
	if x != nil {
		return x.F8
	}
	return nil
}

func (x *S12M3) GetF38() int32 {
	if x != nil && x.F38 != nil {
		return *x.F38
	}
	return 0
}

func (x *S12M3) GetF1008() bool {
	if x != nil && x.F1008 != nil {
		return *x.F1008
	}
	return false
}

func (x *S12M3) GetF1000() string {
	if x != nil && x.F1000 != nil {
		return *x.F1000
	}
	return ""
}

func (x *S12M3) GetF1006() []int64 {
	if x != nil {
		return x.F1006
	}
	return nil
}

func (x *S12M3) GetF2() []float64 {
	if x != nil {
		return x.F2
	}
	return nil
}

func (x *S12M3) GetF11() float32 {
	if x != nil {
		return x.F11
	}
	return 0
}

type S12M4 struct {
	state protoimpl.MessageState `protogen:"open.v1"`
	F38   []float32              `protobuf:"fixed32,38,rep,packed,name=f38" json:"f38,omitempty"`
	F1006 *S12M5                 `protobuf:"bytes,1006,opt,name=f1006" json:"f1006,omitempty"`
	F8    *S12M7                 `protobuf:"bytes,8,opt,name=f8" json:"f8,omitempty"`
	// Types that are valid to be assigned to O0:
	//
	//	*S12M4_F15
	//	*S12M4_F999
	//	*S12M4_F10
	//	*S12M4_F3
	O0            isS12M4_O0 `protobuf_oneof:"o0"`
	unknownFields protoimpl.UnknownFields
	sizeCache     protoimpl.SizeCache
}

func (x *S12M4) Reset() {
	*x = S12M4{}
	mi := &file_fxpb_proto_msgTypes[45]
	ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
	ms.StoreMessageInfo(mi)
}

func (x *S12M4) String() string {
	return protoimpl.X.MessageStringOf(x)
}

func (*S12M4) ProtoMessage() {}

func (x *S12M4) ProtoReflect() protoreflect.Message {
	mi := &file_fxpb_proto_msgTypes[45]
	if x != nil {
		ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
		if ms.LoadMessageInfo() == nil {
			ms.StoreMessageInfo(mi)
		}
		return ms
	}
	return mi.MessageOf(x)
}

// Deprecated: Use S12M4.ProtoReflect.Descriptor instead.
func (*S12M4) Descriptor() ([]byte, []int) {
	return file_fxpb_proto_rawDescGZIP(), []int{45}
}

func (x *S12M4) GetF38() []float32 {
	if x != nil {
		return x.F38
	}
	return nil
}

func (x *S12M4) GetF1006() *S12M5 {
	if x != nil {
		return x.F1006
	}
	return nil
}

func (x *S12M4) GetF8() *S12M7 {
	if x != nil {
		return x.F8
	}
	return nil
}

func (x *S12M4) GetO0() isS12M4_O0 {
	if x != nil {
		return x.O0
	}
	return nil
}

func (x *S12M4) GetF15() *S12M6 {
	if x != nil {
		if x, ok := x.O0.(*S12M4_F15); ok {
			return x.F15
		}
	}
	return nil
}

func (x *S12M4) GetF999() int32 {
	if x != nil {
		if x, ok := x.O0.(*S12M4_F999); ok {
			return x.F999
		}
	}
	return 0
}

func (x *S12M4) GetF10() bool {
	if x != nil {
		if x, ok := x.O0.(*S12M4_F10); ok {
			return x.F10
		}
	}
	return false
}

func (x *S12M4) GetF3() []byte {
	if x != nil {
		if x, ok := x.O0.(*S12M4_F3); ok {
			return x.F3
		}
	}
	return nil
}

type isS12M4_O0 interface {
	isS12M4_O0()
}

type S12M4_F15 struct {
	F15 *S12M6 `protobuf:"bytes,15,opt,name=f15,oneof"`
}

type S12M4_F999 struct {
	F999 int32 `protobuf:"zigzag32,999,opt,name=f999,oneof"`
}

type S12M4_F10 struct {
	F10 bool `protobuf:"varint,10,opt,name=f10,oneof"`
}

type S12M4_F3 struct {
	F3 []byte `protobuf:"bytes,3,opt,name=f3,oneof"`
}

func (*S12M4_F15) isS12M4_O0() {}

func (*S12M4_F999) isS12M4_O0() {}

func (*S12M4_F10) isS12M4_O0() {}

func (*S12M4_F3) isS12M4_O0() {}

type S12M5 struct {
	state         protoimpl.MessageState `protogen:"open.v1"`
	F33554432     uint32                 `protobuf:"fixed32,33554432,opt,name=f33554432" json:"f33554432,omitempty"`
	unknownFields protoimpl.UnknownFields
	sizeCache     protoimpl.SizeCache
}

func (x *S12M5) Reset() {
	*x = S12M5{}
	mi := &file_fxpb_proto_msgTypes[46]
	ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
	ms.StoreMessageInfo(mi)
}

func (x *S12M5) String() string {
	return protoimpl.X.MessageStringOf(x)
}

func (*S12M5) ProtoMessage() {}

func (x *S12M5) ProtoReflect() protoreflect.Message {
	mi := &file_fxpb_proto_msgTypes[46]
	if x != nil {
		ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
		if ms.LoadMessageInfo() == nil {
			ms.StoreMessageInfo(mi)
		}
		return ms
	}
	return mi.MessageOf(x)
}

// Deprecated: Use S12M5.ProtoReflect.Descriptor instead.
func (*S12M5) Descriptor() ([]byte, []int) {
	return file_fxpb_proto_rawDescGZIP(), []int{46}
}

func (x *S12M5) GetF33554432() uint32 {
	if x != nil {
		return x.F33554432
	}
	return 0
}

type S12M6 struct {
	state         protoimpl.MessageState `protogen:"open.v1"`
	F8            *int64                 `protobuf:"varint,8,opt,name=f8" json:"f8,omitempty"`
	F7            map[string]float64     `protobuf:"bytes,7,rep,name=f7" json:"f7,omitempty" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value"`
	unknownFields protoimpl.UnknownFields
	sizeCache     protoimpl.SizeCache
}

func (x *S12M6) Reset() {
	*x = S12M6{}
	mi := &file_fxpb_proto_msgTypes[47]
	ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
	ms.StoreMessageInfo(mi)
}

func (x *S12M6) String() string {
	return protoimpl.X.MessageStringOf(x)
}

func (*S12M6) ProtoMessage() {}

func (x *S12M6) ProtoReflect() protoreflect.Message {
	mi := &file_fxpb_proto_msgTypes[47]
	if x != nil {
		ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
		if ms.LoadMessageInfo() == nil {
			ms.StoreMessageInfo(mi)
		}
		return ms
	}
	return mi.MessageOf(x)
}

// Deprecated: Use S12M6.ProtoReflect.Descriptor instead.
func (*S12M6) Descriptor() ([]byte, []int) {
	return file_fxpb_proto_rawDescGZIP(), []int{47}
}

func (x *S12M6) GetF8() int64 {
	if x != nil && x.F8 != nil {
		return *x.F8
	}
	return 0
}

func (x *S12M6) GetF7() map[string]float64 {
	if x != nil {
		return x.F7
	}
	return nil
}

type S12M7 struct {
	state         protoimpl.MessageState `protogen:"open.v1"`
	F19           []float64              `protobuf:"fixed64,19,rep,packed,name=f19" json:"f19,omitempty"`
	F23           []uint64               `protobuf:"varint,23,rep,packed,name=f23" json:"f23,omitempty"`
	F10           *uint32                `protobuf:"fixed32,10,opt,name=f10" json:"f10,omitempty"`
	F11           bool                   `protobuf:"varint,11,opt,name=f11" json:"f11,omitempty"`
	F777          uint32                 `protobuf:"fixed32,777,opt,name=f777" json:"f777,omitempty"`
	unknownFields protoimpl.UnknownFields
	sizeCache     protoimpl.SizeCache
}

func (x *S12M7) Reset() {
	*x = S12M7{}
	mi := &file_fxpb_proto_msgTypes[48]
	ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
	ms.StoreMessageInfo(mi)
}

func (x *S12M7) String() string {
	return protoimpl.X.MessageStringOf(x)
}

func (*S12M7) ProtoMessage() {}

func (x *S12M7) ProtoReflect() protoreflect.Message {
	mi := &file_fxpb_proto_msgTypes[48]
	if x != nil {
		ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
		if ms.LoadMessageInfo() == nil {
			ms.StoreMessageInfo(mi)
		}
		return ms
	}
	return mi.MessageOf(x)
}

// Deprecated: Use S12M7.ProtoReflect.Descriptor instead.
func (*S12M7) Descriptor() ([]byte, []int) {
	return file_fxpb_proto_rawDescGZIP(), []int{48}
}

func (x *S12M7) GetF19() []float64 {
	if x != nil {
		return x.F19
	}
	return nil
}

func (x *S12M7) GetF23() []uint64 {
	if x != nil {
		return x.F23
	}
	return nil
}

func (x *S12M7) GetF10() uint32 {
	if x != nil && x.F10 != nil {
		return *x.F10
	}
	return 0
}

func (x *S12M7) GetF11() bool {
	if x != nil {
		return x.F11
	}
	return false
}

func (x *S12M7) GetF777() uint32 {
	if x != nil {
		return x.F777
	}
	return 0
}

type S12M8 struct {
	state         protoimpl.MessageState `protogen:"open.v1"`
	F5            uint64                 `protobuf:"fixed64,5,opt,name=f5" json:"f5,omitempty"`
	unknownFields protoimpl.UnknownFields
	sizeCache     protoimpl.SizeCache
}

func (x *S12M8) Reset() {
	*x = S12M8{}
	mi := &file_fxpb_proto_msgTypes[49]
	ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
	ms.StoreMessageInfo(mi)
}

func (x *S12M8) String() string {
	return protoimpl.X.MessageStringOf(x)
}

func (*S12M8) ProtoMessage() {}

func (x *S12M8) ProtoReflect() protoreflect.Message {
	mi := &file_fxpb_proto_msgTypes[49]
	if x != nil {
		ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
		if ms.LoadMessageInfo() == nil {
			ms.StoreMessageInfo(mi)
		}
		return ms
	}
	return mi.MessageOf(x)
}

// Deprecated: Use S12M8.ProtoReflect.Descriptor instead.
func (*S12M8) Descriptor() ([]byte, []int) {
	return file_fxpb_proto_rawDescGZIP(), []int{49}
}

func (x *S12M8) GetF5() uint64 {
	if x != nil {
		return x.F5
	}
	return 0
}

type S13M1 struct {
	state      protoimpl.MessageState `protogen:"open.v1"`
	F2         []uint32               `protobuf:"fixed32,2,rep,packed,name=f2" json:"f2,omitempty"`
	F11        []uint64               `protobuf:"varint,11,rep,packed,name=f11" json:"f11,omitempty"`
	F516       []uint64               `protobuf:"fixed64,516,rep,packed,name=f516" json:"f516,omitempty"`
	F529169674 *S13M2                 `protobuf:"bytes,529169674,opt,name=f529169674" json:"f529169674,omitempty"`
	// Types that are valid to be assigned to O0:
	//
	//	*S13M1_F960
	//	*S13M1_F6
	//	*S13M1_F14
	O0 isS13M1_O0 `protobuf_oneof:"o0"`
	// Types that are valid to be assigned to O1:
	//
	//	*S13M1_F15
	O1            isS13M1_O1 `protobuf_oneof:"o1"`
	unknownFields protoimpl.UnknownFields
	sizeCache     protoimpl.SizeCache
}

func (x *S13M1) Reset() {
	*x = S13M1{}
	mi := &file_fxpb_proto_msgTypes[50]
	ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
	ms.StoreMessageInfo(mi)
}

func (x *S13M1) String() string {
	return protoimpl.X.MessageStringOf(x)
}

func (*S13M1) ProtoMessage() {}

func (x *S13M1) ProtoReflect() protoreflect.Message {
	mi := &file_fxpb_proto_msgTypes[50]
	if x != nil {
		ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
		if ms.LoadMessageInfo() == nil {
			ms.StoreMessageInfo(mi)
		}
		return ms
	}
	return mi.MessageOf(x)
}

// Deprecated: Use S13M1.ProtoReflect.Descriptor instead.
func (*S13M1) Descriptor() ([]byte, []int) {
	return file_fxpb_proto_rawDescGZIP(), []int{50}
}

func (x *S13M1) GetF2() []uint32 {
	if x != nil {
		return x.F2
	}
	return nil
}

func (x *S13M1) GetF11() []uint64 {
	if x != nil {
		return x.F11
	}
	return nil
}

func (x *S13M1) GetF516() []uint64 {
	if x != nil {
		return x.F516
	}
	return nil
}

func (x *S13M1) GetF529169674() *S13M2 {
	if x != nil {
		return x.F529169674
	}
	return nil
}

func (x *S13M1) GetO0() isS13M1_O0 {
	if x != nil {
		return x.O0
	}
	return nil
}

func (x *S13M1) GetF960() uint32 {
	if x != nil {
		if x, ok := x.O0.(*S13M1_F960); ok {
			return x.F960
		}
	}
	return 0
}

func (x *S13M1) GetF6() []byte {
	if x != nil {
		if x, ok := x.O0.(*S13M1_F6); ok {
			return x.F6
		}
	}
	return nil
}

func (x *S13M1) GetF14() float32 {
	if x != nil {
		if x, ok := x.O0.(*S13M1_F14); ok {
			return x.F14
		}
	}
	return 0
}

func (x *S13M1) GetO1() isS13M1_O1 {
	if x != nil {
		return x.O1
	}
	return nil
}

func (x *S13M1) GetF15() int64 {
	if x != nil {
		if x, ok := x.O1.(*S13M1_F15); ok {
			return x.F15
		}
	}
	return 0
}

type isS13M1_O0 interface {
	isS13M1_O0()
}

type S13M1_F960 struct {
	F960 uint32 `protobuf:"varint,960,opt,name=f960,oneof"`
}

type S13M1_F6 struct {
	F6 []byte `protobuf:"bytes,6,opt,name=f6,oneof"`
}

type S13M1_F14 struct {
	F14 float32 `protobuf:"fixed32,14,opt,name=f14,oneof"`
}

func (*S13M1_F960) isS13M1_O0() {}

func (*S13M1_F6) isS13M1_O0() {}

func (*S13M1_F14) isS13M1_O0() {}

type isS13M1_O1 interface {
	isS13M1_O1()
}

type S13M1_F15 struct {
	F15 int64 `protobuf:"zigzag64,15,opt,name=f15,oneof"`
}

func (*S13M1_F15) isS13M1_O1() {}

type S13M2 struct {
	state         protoimpl.MessageState `protogen:"open.v1"`
	F7            []uint32               `protobuf:"fixed32,7,rep,packed,name=f7" json:"f7,omitempty"`
	F2            *S13M3                 `protobuf:"bytes,2,opt,name=f2" json:"f2,omitempty"`
	F11           E                      `protobuf:"varint,11,opt,name=f11,enum=fxpb.E" json:"f11,omitempty"`
	F920          map[uint32]*S13M4      `protobuf:"bytes,920,rep,name=f920" json:"f920,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	F3            uint32                 `protobuf:"fixed32,3,opt,name=f3" json:"f3,omitempty"`
	F700          []float64              `protobuf:"fixed64,700,rep,name=f700" json:"f700,omitempty"`
	F19           map[int64]*S13M5       `protobuf:"bytes,19,rep,name=f19" json:"f19,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	unknownFields protoimpl.UnknownFields
	sizeCache     protoimpl.SizeCache
}

func (x *S13M2) Reset() {
	*x = S13M2{}
	mi := &file_fxpb_proto_msgTypes[51]
	ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
	ms.StoreMessageInfo(mi)
}

func (x *S13M2) String() string {
	return protoimpl.X.MessageStringOf(x)
}

func (*S13M2) ProtoMessage() {}

func (x *S13M2) ProtoReflect() protoreflect.Message {
	mi := &file_fxpb_proto_msgTypes[51]
	if x != nil {
		ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
		if ms.LoadMessageInfo() == nil {
			ms.StoreMessageInfo(mi)
		}
		return ms
	}
	return mi.MessageOf(x)
}

// Deprecated: Use S13M2.ProtoReflect.Descriptor instead.
func (*S13M2) Descriptor() ([]byte, []int) {
	return file_fxpb_proto_rawDescGZIP(), []int{51}
}

func (x *S13M2) GetF7() []uint32 {
	if x != nil {
		return x.F7
	}
	return nil
}

func (x *S13M2) GetF2() *S13M3 {
	if x != nil {
		return x.F2
	}
	return nil
}

func (x *S13M2) GetF11() E {
	if x != nil {
		return x.F11
	}
	return E_E_ZERO
}

func (x *S13M2) GetF920() map[uint32]*S13M4 {
	if x != nil {
		return x.F920
	}
	return nil
}

func (x *S13M2) GetF3() uint32 {
	if x != nil {
		return x.F3
	}
	return 0
}

func (x *S13M2) GetF700() []float64 {
	if x != nil {
		return x.F700
	}
	return nil
}

func (x *S13M2) GetF19() map[int64]*S13M5 {
	if x != nil {
		return x.F19
	}
	return nil
}

type S13M3 struct {
	state         protoimpl.MessageState `protogen:"open.v1"`
	F13           int64                  `protobuf:"zigzag64,13,opt,name=f13" json:"f13,omitempty"`
	F2            *int64                 `protobuf:"zigzag64,2,opt,name=f2" json:"f2,omitempty"`
	F14           []int32                `protobuf:"fixed32,14,rep,packed,name=f14" json:"f14,omitempty"`
	F1000         float32                `protobuf:"fixed32,1000,opt,name=f1000" json:"f1000,omitempty"`
	unknownFields protoimpl.UnknownFields
	sizeCache     protoimpl.SizeCache
}

func (x *S13M3) Reset() {
	*x = S13M3{}
	mi := &file_fxpb_proto_msgTypes[52]
	ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
	ms.StoreMessageInfo(mi)
}

func (x *S13M3) String() string {
	return protoimpl.X.MessageStringOf(x)
}

func (*S13M3) ProtoMessage() {}

func (x *S13M3) ProtoReflect() protoreflect.Message {
	mi := &file_fxpb_proto_msgTypes[52]
	if x != nil {
		ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
		if ms.LoadMessageInfo() == nil {
			ms.StoreMessageInfo(mi)
		}
		return ms
	}
	return mi.MessageOf(x)
}

// Deprecated: Use S13M3.ProtoReflect.Descriptor instead.
func (*S13M3) Descriptor() ([]byte, []int) {
	return file_fxpb_proto_rawDescGZIP(), []int{52}
}

func (x *S13M3) GetF13() int64 {
	if x != nil {
		return x.F13
	}
	return 0
}

func (x *S13M3) GetF2() int64 {
	if x != nil && x.F2 != nil {
		return *x.F2
	}
	return 0
}

func (x *S13M3) GetF14() []int32 {
	if x != nil {
		return x.F14
	}
	return nil
}

func (x *S13M3) GetF1000() float32 {
	if x != nil {
		return x.F1000
	}
	return 0
}

type S13M4 struct {
	state         protoimpl.MessageState `protogen:"open.v1"`
	F88060806     []bool                 `protobuf:"varint,88060806,rep,name=f88060806" json:"f88060806,omitempty"`
	F14           []uint32               `protobuf:"fixed32,14,rep,packed,name=f14" json:"f14,omitempty"`
	F20000        string                 `protobuf:"bytes,20000,opt,name=f20000" json:"f20000,omitempty"`
	F11           []int64                `protobuf:"zigzag64,11,rep,packed,name=f11" json:"f11,omitempty"`
	F1003         E                      `protobuf:"varint,1003,opt,name=f1003,enum=fxpb.E" json:"f1003,omitempty"`
	F13           *uint64                `protobuf:"varint,13,opt,name=f13" json:"f13,omitempty"`
	F12           map[int32]uint32       `protobuf:"bytes,12,rep,name=f12" json:"f12,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value"`
	F35           uint64                 `protobuf:"fixed64,35,opt,name=f35" json:"f35,omitempty"`
	unknownFields protoimpl.UnknownFields
	sizeCache     protoimpl.SizeCache
}

func (x *S13M4) Reset() {
	*x = S13M4{}
	mi := &file_fxpb_proto_msgTypes[53]
	ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
	ms.StoreMessageInfo(mi)
}

func (x *S13M4) String() string {
	return protoimpl.X.MessageStringOf(x)
}

func (*S13M4) ProtoMessage() {}

func (x *S13M4) ProtoReflect() protoreflect.Message {
	mi := &file_fxpb_proto_msgTypes[53]
	if x != nil {
		ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
		if ms.LoadMessageInfo() == nil {
			ms.StoreMessageInfo(mi)
		}
		return ms
	}
	return mi.MessageOf(x)
}

// Deprecated: Use S13M4.ProtoReflect.Descriptor instead.
func (*S13M4) Descriptor() ([]byte, []int) {
	return file_fxpb_proto_rawDescGZIP(), []int{53}
}

func (x *S13M4) GetF88060806() []bool {
	if x != nil {
		return x.F88060806
	}
	return nil
}

func (x *S13M4) GetF14() []uint32 {
	if x != nil {
		return x.F14
	}
	return nil
}

func (x *S13M4) GetF20000() string {
	if x != nil {
		return x.F20000
	}
	return ""
}

func (x *S13M4) GetF11() []int64 {
	if x != nil {
		return x.F11
	}
	return nil
}

func (x *S13M4) GetF1003() E {
	if x != nil {
		return x.F1003
	}
	return E_E_ZERO
}

func (x *S13M4) GetF13() uint64 {
	if x != nil && x.F13 != nil {
		return *x.F13
	}
	return 0
}

func (x *S13M4) GetF12() map[int32]uint32 {
	if x != nil {
		return x.F12
	}
	return nil
}

func (x *S13M4) GetF35() uint64 {
	if x != nil {
		return x.F35
	}
	return 0
}

type S13M5 struct {
	state         protoimpl.MessageState `protogen:"open.v1"`
	F5            []int32                `protobuf:"zigzag32,5,rep,packed,name=f5" json:"f5,omitempty"`
	F203781525    *bool                  `protobuf:"varint,203781525,opt,name=f203781525" json:"f203781525,omitempty"`
	F337848773    int64                  `protobuf:"zigzag64,337848773,opt,name=f337848773" json:"f337848773,omitempty"`
	F11           *float32               `protobuf:"fixed32,11,opt,name=f11" json:"f11,omitempty"`
	F15           uint32                 `protobuf:"fixed32,15,opt,name=f15" json:"f15,omitempty"`
	unknownFields protoimpl.UnknownFields
	sizeCache     protoimpl.SizeCache
}

func (x *S13M5) Reset() {
	*x = S13M5{}
	mi := &file_fxpb_proto_msgTypes[54]
	ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
	ms.StoreMessageInfo(mi)
}

func (x *S13M5) String() string {
	return protoimpl.X.MessageStringOf(x)
}

func (*S13M5) ProtoMessage() {}

func (x *S13M5) ProtoReflect() protoreflect.Message {
	mi := &file_fxpb_proto_msgTypes[54]
	if x != nil {
		ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
		if ms.LoadMessageInfo() == nil {
			ms.StoreMessageInfo(mi)
		}
		return ms
	}
	return mi.MessageOf(x)
}

// Deprecated: Use S13M5.ProtoReflect.Descriptor instead.
func (*S13M5) Descriptor() ([]byte, []int) {
	return file_fxpb_proto_rawDescGZIP(), []int{54}
}

func (x *S13M5) GetF5() []int32 {
	if x != nil {
		return x.F5
	}
	return nil
}

func (x *S13M5) GetF203781525() bool {
	if x != nil && x.F203781525 != nil {
		return *x.F203781525
	}
	return false
}

func (x *S13M5) GetF337848773() int64 {
	if x != nil {
		return x.F337848773
	}
	return 0
}

func (x *S13M5) GetF11() float32 {
	if x != nil && x.F11 != nil {
		return *x.F11
	}
	return 0
}

func (x *S13M5) GetF15() uint32 {
	if x != nil {
		return x.F15
	}
	return 0
}

type S14M1 struct {
	state  protoimpl.MessageState `protogen:"open.v1"`
	F35    *S14M2                 `protobuf:"bytes,35,opt,name=f35" json:"f35,omitempty"`
	F9     *S14M6                 `protobuf:"bytes,9,opt,name=f9" json:"f9,omitempty"`
	F20000 *bool                  `protobuf:"varint,20000,opt,name=f20000" json:"f20000,omitempty"`
	F21    []uint64               `protobuf:"fixed64,21,rep,packed,name=f21" json:"f21,omitempty"`
	F6     map[int32]*S14M9       `protobuf:"bytes,6,rep,name=f6" json:"f6,omitempty" protobuf_key:"zigzag32,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	// Types that are valid to be assigned to O0:
	//
	//	*S14M1_F647
	O0            isS14M1_O0 `protobuf_oneof:"o0"`
	unknownFields protoimpl.UnknownFields
	sizeCache     protoimpl.SizeCache
}

func (x *S14M1) Reset() {
	*x = S14M1{}
	mi := &file_fxpb_proto_msgTypes[55]
	ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
	ms.StoreMessageInfo(mi)
}

func (x *S14M1) String() string {
	return protoimpl.X.MessageStringOf(x)
}

func (*S14M1) ProtoMessage() {}

func (x *S14M1) ProtoReflect() protoreflect.Message {
	mi := &file_fxpb_proto_msgTypes[55]
	if x != nil {
		ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
		if ms.LoadMessageInfo() == nil {
			ms.StoreMessageInfo(mi)
		}
		return ms
	}
	return mi.MessageOf(x)
}

// Deprecated: Use S14M1.ProtoReflect.Descriptor instead.
func (*S14M1) Descriptor() ([]byte, []int) {
	return file_fxpb_proto_rawDescGZIP(), []int{55}
}

func (x *S14M1) GetF35() *S14M2 {
	if x != nil {
		return x.F35
	}
	return nil
}

func (x *S14M1) GetF9() *S14M6 {
	if x != nil {
		return x.F9
	}
	return nil
}

func (x *S14M1) GetF20000() bool {
	if x != nil && x.F20000 != nil {
		return *x.F20000
	}
	return false
}

func (x *S14M1) GetF21() []uint64 {
	if x != nil {
		return x.F21
	}
	return nil
}

func (x *S14M1) GetF6() map[int32]*S14M9 {
	if x != nil {
		return x.F6
	}
	return nil
}

func (x *S14M1) GetO0() isS14M1_O0 {
	if x != nil {
		return x.O0
	}
	return nil
}

func (x *S14M1) GetF647() string {
	if x != nil {
		if x, ok := x.O0.(*S14M1_F647); ok {
			return x.F647
		}
	}
	return ""
}

type isS14M1_O0 interface {
	isS14M1_O0()
}

type S14M1_F647 struct {
	F647 string `protobuf:"bytes,647,opt,name=f647,oneof"`
}

func (*S14M1_F647) isS14M1_O0() {}

type S14M2 struct {
	state protoimpl.MessageState `protogen:"open.v1"`
	F1    []int64                `protobuf:"varint,1,rep,packed,name=f1" json:"f1,omitempty"`
	F378  []bool                 `protobuf:"varint,378,rep,name=f378" json:"f378,omitempty"`
	F14   *float64               `protobuf:"fixed64,14,opt,name=f14" json:"f14,omitempty"`
	F10   *S14M3                 `protobuf:"bytes,10,opt,name=f10" json:"f10,omitempty"`
	F6    *S14M4                 `protobuf:"bytes,6,opt,name=f6" json:"f6,omitempty"`
	F9    int64                  `protobuf:"zigzag64,9,opt,name=f9" json:"f9,omitempty"`
	F28   *S14M5                 `protobuf:"bytes,28,opt,name=f28" json:"f28,omitempty"`
	// Types that are valid to be assigned to O0:
	//
	//	*S14M2_F15
	//	*S14M2_F259
	O0            isS14M2_O0 `protobuf_oneof:"o0"`
	unknownFields protoimpl.UnknownFields
	sizeCache     protoimpl.SizeCache
}

func (x *S14M2) Reset() {
	*x = S14M2{}
	mi := &file_fxpb_proto_msgTypes[56]
	ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
	ms.StoreMessageInfo(mi)
}

func (x *S14M2) String() string {
	return protoimpl.X.MessageStringOf(x)
}

func (*S14M2) ProtoMessage() {}

func (x *S14M2) ProtoReflect() protoreflect.Message {
	mi := &file_fxpb_proto_msgTypes[56]
	if x != nil {
		ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
		if ms.LoadMessageInfo() == nil {
			ms.StoreMessageInfo(mi)
		}
		return ms
	}
	return mi.MessageOf(x)
}

// Deprecated: Use S14M2.ProtoReflect.Descriptor instead.
func (*S14M2) Descriptor() ([]byte, []int) {
	return file_fxpb_proto_rawDescGZIP(), []int{56}
}

func (x *S14M2) GetF1() []int64 {
	if x != nil {
		return x.F1
	}
	return nil
}

func (x *S14M2) GetF378() []bool {
	if x != nil {
		return x.F378
	}
	return nil
}

func (x *S14M2) GetF14() float64 {
	if x != nil && x.F14 != nil {
		return *x.F14
	}
	return 0
}

func (x *S14M2) GetF10() *S14M3 {
	if x != nil {
		return x.F10
	}
	return nil
}

func (x *S14M2) GetF6() *S14M4 {
	if x != nil {
		return x.F6
	}
	return nil
}

func (x *S14M2) GetF9() int64 {
	if x != nil {
		return x.F9
	}
	return 0
}

func (x *S14M2) GetF28() *S14M5 {
	if x != nil {
		return x.F28
	}
	return nil
}

func (x *S14M2) GetO0() isS14M2_O0 {
	if x != nil {
		return x.O0
	}
	return nil
}

func (x *S14M2) GetF15() string {
	if x != nil {
		if x, ok := x.O0.(*S14M2_F15); ok {
			return x.F15
		}
	}
	return ""
}

func (x *S14M2) GetF259() uint64 {
	if x != nil {
		if x, ok := x.O0.(*S14M2_F259); ok {
			return x.F259
		}
	}
	return 0
}

type isS14M2_O0 interface {
	isS14M2_O0()
}

type S14M2_F15 struct {
	F15 string `protobuf:"bytes,15,opt,name=f15,oneof"`
}

type S14M2_F259 struct {
	F259 uint64 `protobuf:"varint,259,opt,name=f259,oneof"`
}

func (*S14M2_F15) isS14M2_O0() {}

func (*S14M2_F259) isS14M2_O0() {}

type S14M3 struct {
	state         protoimpl.MessageState `protogen:"open.v1"`
	F1004         []int32                `protobuf:"zigzag32,1004,rep,packed,name=f1004" json:"f1004,omitempty"`
	F846          *string                `protobuf:"bytes,846,opt,name=f846" json:"f846,omitempty"`
	F19           []uint32               `protobuf:"fixed32,19,rep,name=f19" json:"f19,omitempty"`
	F8            *uint32                `protobuf:"varint,8,opt,name=f8" json:"f8,omitempty"`
	F642          *uint32                `protobuf:"fixed32,642,opt,name=f642" json:"f642,omitempty"`
	F58           map[int32]int32        `protobuf:"bytes,58,rep,name=f58" json:"f58,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"zigzag32,2,opt,name=value"`
	F9            uint32                 `protobuf:"varint,9,opt,name=f9" json:"f9,omitempty"`
	F30           uint64                 `protobuf:"varint,30,opt,name=f30" json:"f30,omitempty"`
	unknownFields protoimpl.UnknownFields
	sizeCache     protoimpl.SizeCache
}

func (x *S14M3) Reset() {
	*x = S14M3{}
	mi := &file_fxpb_proto_msgTypes[57]
	ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
	ms.StoreMessageInfo(mi)
}

func (x *S14M3) String() string {
	return protoimpl.X.MessageStringOf(x)
}

func (*S14M3) ProtoMessage() {}

func (x *S14M3) ProtoReflect() protoreflect.Message {
	mi := &file_fxpb_proto_msgTypes[57]
	if x != nil {
		ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
		if ms.LoadMessageInfo() == nil {
			ms.StoreMessageInfo(mi)
		}
		return ms
	}
	return mi.MessageOf(x)
}

// Deprecated: Use S14M3.ProtoReflect.Descriptor instead.
func (*S14M3) Descriptor() ([]byte, []int) {
	return file_fxpb_proto_rawDescGZIP(), []int{57}
}

func (x *S14M3) GetF1004() []int32 {
	if x != nil {
		return x.F1004
	}
	return nil
}

func (x *S14M3) GetF846() string {
	if x != nil && x.F846 != nil {
		return *x.F846
	}
	return ""
}

func (x *S14M3) GetF19() []uint32 {
	if x != nil {
		return x.F19
	}
	return nil
}

func (x *S14M3) GetF8() uint32 {
	if x != nil && x.F8 != nil {
		return *x.F8
	}
	return 0
}

func (x *S14M3) GetF642() uint32 {
	if x != nil && x.F642 != nil {
		return *x.F642
	}
	return 0
}

func (x *S14M3) GetF58() map[int32]int32 {
	if x != nil {
		return x.F58
	}
	return nil
}

func (x *S14M3) GetF9() uint32 {
	if x != nil {
		return x.F9
	}
	return 0
}

func (x *S14M3) GetF30() uint64 {
	if x != nil {
		return x.F30
	}
	return 0
}

type S14M4 struct {
	state         protoimpl.MessageState `protogen:"open.v1"`
	F14           *uint32                `protobuf:"varint,14,req,name=f14" json:"f14,omitempty"`
	F2            map[int32]uint32       `protobuf:"bytes,2,rep,name=f2" json:"f2,omitempty" protobuf_key:"zigzag32,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value"`
	F3            []int32                `protobuf:"fixed32,3,rep,packed,name=f3" json:"f3,omitempty"`
	F15           int64                  `protobuf:"zigzag64,15,opt,name=f15" json:"f15,omitempty"`
	F996          *int32                 `protobuf:"zigzag32,996,req,name=f996" json:"f996,omitempty"`
	F887          *int64                 `protobuf:"varint,887,opt,name=f887" json:"f887,omitempty"`
	F11           E                      `protobuf:"varint,11,opt,name=f11,enum=fxpb.E" json:"f11,omitempty"`
	F18           []byte                 `protobuf:"bytes,18,req,name=f18" json:"f18,omitempty"`
	unknownFields protoimpl.UnknownFields
	sizeCache     protoimpl.SizeCache
}

func (x *S14M4) Reset() {
	*x = S14M4{}
	mi := &file_fxpb_proto_msgTypes[58]
	ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
	ms.StoreMessageInfo(mi)
}

func (x *S14M4) String() string {
	return protoimpl.X.MessageStringOf(x)
}

func (*S14M4) ProtoMessage() {}

func (x *S14M4) ProtoReflect() protoreflect.Message {
	mi := &file_fxpb_proto_msgTypes[58]
	if x != nil {
		ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
		if ms.LoadMessageInfo() == nil {
			ms.StoreMessageInfo(mi)
		}
		return ms
	}
	return mi.MessageOf(x)
}

// Deprecated: Use S14M4.ProtoReflect.Descriptor instead.
func (*S14M4) Descriptor() ([]byte, []int) {
	return file_fxpb_proto_rawDescGZIP(), []int{58}
}

func (x *S14M4) GetF14() uint32 {
	if x != nil && x.F14 != nil {
		return *x.F14
	}
	return 0
}

func (x *S14M4) GetF2() map[int32]uint32 {
	if x != nil {
		return x.F2
	}
	return nil
}

func (x *S14M4) GetF3() []int32 {
	if x != nil {
		return x.F3
	}
	return nil
}

func (x *S14M4) GetF15() int64 {
	if x != nil {
		return x.F15
	}
	return 0
}

func (x *S14M4) GetF996() int32 {
	if x != nil && x.F996 != nil {
		return *x.F996
	}
	return 0
}

func (x *S14M4) GetF887() int64 {
	if x != nil && x.F887 != nil {
		return *x.F887
	}
	return 0
}

func (x *S14M4) GetF11() E {
	if x != nil {
		return x.F11
	}
	return E_E_ZERO
}

func (x *S14M4) GetF18() []byte {
	if x != nil {
		return x.F18
	}
	return nil
}

type S14M5 struct {
	state         protoimpl.MessageState `protogen:"open.v1"`
	F262144       []int64                `protobuf:"zigzag64,262144,rep,packed,name=f262144" json:"f262144,omitempty"`
	F2            bool                   `protobuf:"varint,2,opt,name=f2" json:"f2,omitempty"`
	unknownFields protoimpl.UnknownFields
	sizeCache     protoimpl.SizeCache
}

func (x *S14M5) Reset() {
	*x = S14M5{}
	mi := &file_fxpb_proto_msgTypes[59]
	ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
	ms.StoreMessageInfo(mi)
}

func (x *S14M5) String() string {
	return protoimpl.X.MessageStringOf(x)
}

func (*S14M5) ProtoMessage() {}

func (x *S14M5) ProtoReflect() protoreflect.Message {
	mi := &file_fxpb_proto_msgTypes[59]
	if x != nil {
		ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
		if ms.LoadMessageInfo() == nil {
			ms.StoreMessageInfo(mi)
		}
		return ms
	}
	return mi.MessageOf(x)
}

// Deprecated: Use S14M5.ProtoReflect.Descriptor instead.
func (*S14M5) Descriptor() ([]byte, []int) {
	return file_fxpb_proto_rawDescGZIP(), []int{59}
}

func (x *S14M5) GetF262144() []int64 {
	if x != nil {
		return x.F262144
	}
	return nil
}

func (x *S14M5) GetF2() bool {
	if x != nil {
		return x.F2
	}
	return false
}

type S14M6 struct {
	state protoimpl.MessageState `protogen:"open.v1"`
	F648  *S14M7                 `protobuf:"bytes,648,opt,name=f648" json:"f648,omitempty"`
	F11   map[int32]int64        `protobuf:"bytes,11,rep,name=f11" json:"f11,omitempty" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"zigzag64,2,opt,name=value"`
	F208  E                      `protobuf:"varint,208,opt,name=f208,enum=fxpb.E" json:"f208,omitempty"`
	F19   map[int64]*S14M3       `protobuf:"bytes,19,rep,name=f19" json:"f19,omitempty" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	F14   []*S14M8               `protobuf:"bytes,14,rep,name=f14" json:"f14,omitempty"`
	// Types that are valid to be assigned to O0:
	//
	//	*S14M6_F5
	//	*S14M6_F15
	O0            isS14M6_O0 `protobuf_oneof:"o0"`
	unknownFields protoimpl.UnknownFields
	sizeCache     protoimpl.SizeCache
}

func (x *S14M6) Reset() {
	*x = S14M6{}
	mi := &file_fxpb_proto_msgTypes[60]
	ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
	ms.StoreMessageInfo(mi)
}

func (x *S14M6) String() string {
	return protoimpl.X.MessageStringOf(x)
}

func (*S14M6) ProtoMessage() {}

func (x *S14M6) ProtoReflect() protoreflect.Message {
	mi := &file_fxpb_proto_msgTypes[60]
	if x != nil {
		ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
		if ms.LoadMessageInfo() == nil {
			ms.StoreMessageInfo(mi)
		}
		return ms
	}
	return mi.MessageOf(x)
}

// Deprecated: Use S14M6.ProtoReflect.Descriptor instead.
func (*S14M6) Descriptor() ([]byte, []int) {
	return file_fxpb_proto_rawDescGZIP(), []int{60}
}

func (x *S14M6) GetF648() *S14M7 {
	if x != nil {
		return x.F648
	}
	return nil
}

func (x *S14M6) GetF11() map[int32]int64 {
	if x != nil {
		return x.F11
	}
	return nil
}

func (x *S14M6) GetF208() E {
	if x != nil {
		return x.F208
	}
	return E_E_ZERO
}

func (x *S14M6) GetF19() map[int64]*S14M3 {
	if x != nil {
		return x.F19
	}
	return nil
}

func (x *S14M6) GetF14() []*S14M8 {
	if x != nil {
		return x.F14
	}
	return nil
}

func (x *S14M6) GetO0() isS14M6_O0 {
	if x != nil {
		return x.O0
	}
	return nil
}

func (x *S14M6) GetF5() *S14M4 {
	if x != nil {
		if x, ok := x.O0.(*S14M6_F5); ok {
			return x.F5
		}
	}
	return nil
}

func (x *S14M6) GetF15() int64 {
	if x != nil {
		if x, ok := x.O0.(*S14M6_F15); ok {
			return x.F15
		}
	}
	return 0
}

type isS14M6_O0 interface {
	isS14M6_O0()
}

type S14M6_F5 struct {
	F5 *S14M4 `protobuf:"bytes,5,opt,name=f5,oneof"`
}

type S14M6_F15 struct {
	F15 int64 `protobuf:"zigzag64,15,opt,name=f15,oneof"`
}

func (*S14M6_F5) isS14M6_O0() {}

func (*S14M6_F15) isS14M6_O0() {}

type S14M7 struct {
	state         protoimpl.MessageState `protogen:"open.v1"`
	F2            *int64                 `protobuf:"zigzag64,2,opt,name=f2" json:"f2,omitempty"`
	F18999        *uint64                `protobuf:"fixed64,18999,opt,name=f18999" json:"f18999,omitempty"`
	F11           []int64                `protobuf:"fixed64,11,rep,packed,name=f11" json:"f11,omitempty"`
	F340          *bool                  `protobuf:"varint,340,opt,name=f340" json:"f340,omitempty"`
	F12           []uint32               `protobuf:"varint,12,rep,packed,name=f12" json:"f12,omitempty"`
	F2048         *uint32                `protobuf:"varint,2048,opt,name=f2048" json:"f2048,omitempty"`
	unknownFields protoimpl.UnknownFields
	sizeCache     protoimpl.SizeCache
}

func (x *S14M7) Reset() {
	*x = S14M7{}
	mi := &file_fxpb_proto_msgTypes[61]
	ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
	ms.StoreMessageInfo(mi)
}

func (x *S14M7) String() string {
	return protoimpl.X.MessageStringOf(x)
}

func (*S14M7) ProtoMessage() {}

func (x *S14M7) ProtoReflect() protoreflect.Message {
	mi := &file_fxpb_proto_msgTypes[61]
	if x != nil {
		ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
		if ms.LoadMessageInfo() == nil {
			ms.StoreMessageInfo(mi)
		}
		return ms
	}
	return mi.MessageOf(x)
}

// Deprecated: Use S14M7.ProtoReflect.Descriptor instead.
func (*S14M7) Descriptor() ([]byte, []int) {
	return file_fxpb_proto_rawDescGZIP(), []int{61}
}

func (x *S14M7) GetF2() int64 {
	if x != nil && x.F2 != nil {
		return *x.F2
	}
	return 0
}

func (x *S14M7) GetF18999() uint64 {
	if x != nil && x.F18999 != nil {
		return *x.F18999
	}
	return 0
}

func (x *S14M7) GetF11() []int64 {
	if x != nil {
		return x.F11
	}
	return nil
}

func (x *S14M7) GetF340() bool {
	if x != nil && x.F340 != nil {
		return *x.F340
	}
	return false
}

func (x *S14M7) GetF12() []uint32 {
	if x != nil {
		return x.F12
	}
	return nil
}

func (x *S14M7) GetF2048() uint32 {
	if x != nil && x.F2048 != nil {
		return *x.F2048
	}
	return 0
}

type S14M8 struct {
	state protoimpl.MessageState `protogen:"open.v1"`
	F5    []uint64               `protobuf:"fixed64,5,rep,packed,name=f5" json:"f5,omitempty"`
	F4    *bool                  `protobuf:"varint,4,opt,name=f4" json:"f4,omitempty"`
	F1000 uint32                 `protobuf:"varint,1000,opt,name=f1000" json:"f1000,omitempty"`
	F3    uint32                 `protobuf:"varint,3,opt,name=f3" json:"f3,omitempty"`
	F1002 *int32                 `protobuf:"varint,1002,opt,name=f1002" json:"f1002,omitempty"`
	// Types that are valid to be assigned to O0:
	//
	//	*S14M8_F2047
	O0            isS14M8_O0 `protobuf_oneof:"o0"`
	unknownFields protoimpl.UnknownFields
	sizeCache     protoimpl.SizeCache
}

func (x *S14M8) Reset() {
	*x = S14M8{}
	mi := &file_fxpb_proto_msgTypes[62]
	ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
	ms.StoreMessageInfo(mi)
}

func (x *S14M8) String() string {
	return protoimpl.X.MessageStringOf(x)
}

func (*S14M8) ProtoMessage() {}

func (x *S14M8) ProtoReflect() protoreflect.Message {
	mi := &file_fxpb_proto_msgTypes[62]
	if x != nil {
		ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
		if ms.LoadMessageInfo() == nil {
			ms.StoreMessageInfo(mi)
		}
		return ms
	}
	return mi.MessageOf(x)
}

// Deprecated: Use S14M8.ProtoReflect.Descriptor instead.
func (*S14M8) Descriptor() ([]byte, []int) {
	return file_fxpb_proto_rawDescGZIP(), []int{62}
}

func (x *S14M8) GetF5() []uint64 {
	if x != nil {
		return x.F5
	}
	return nil
}

func (x *S14M8) GetF4() bool {
	if x != nil && x.F4 != nil {
		return *x.F4
	}
	return false
}

func (x *S14M8) GetF1000() uint32 {
	if x != nil {
		return x.F1000
	}
	return 0
}

func (x *S14M8) GetF3() uint32 {
	if x != nil {
		return x.F3
	}
	return 0
}

func (x *S14M8) GetF1002() int32 {
	if x != nil && x.F1002 != nil {
		return *x.F1002
	}
	return 0
}

func (x *S14M8) GetO0() isS14M8_O0 {
	if x != nil {
		return x.O0
	}
	return nil
}

func (x *S14M8) GetF2047() uint64 {
	if x != nil {
		if x, ok := x.O0.(*S14M8_F2047); ok {
			return x.F2047
		}
	}
	return 0
}

type isS14M8_O0 interface {
	isS14M8_O0()
}

type S14M8_F2047 struct {
	F2047 uint64 `protobuf:"fixed64,2047,opt,name=f2047,oneof"`
}

func (*S14M8_F2047) isS14M8_O0() {}

type S14M9 struct {
	state         protoimpl.MessageState `protogen:"open.v1"`
	F6            bool                   `protobuf:"varint,6,opt,name=f6" json:"f6,omitempty"`
	F2047         map[int32]float64      `protobuf:"bytes,2047,rep,name=f2047" json:"f2047,omitempty" protobuf_key:"zigzag32,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value"`
	F13           uint32                 `protobuf:"varint,13,opt,name=f13" json:"f13,omitempty"`
	F21           string                 `protobuf:"bytes,21,opt,name=f21" json:"f21,omitempty"`
	F868          []int64                `protobuf:"zigzag64,868,rep,packed,name=f868" json:"f868,omitempty"`
	unknownFields protoimpl.UnknownFields
	sizeCache     protoimpl.SizeCache
}

func (x *S14M9) Reset() {
	*x = S14M9{}
	mi := &file_fxpb_proto_msgTypes[63]
	ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
	ms.StoreMessageInfo(mi)
}

func (x *S14M9) String() string {
	return protoimpl.X.MessageStringOf(x)
}

func (*S14M9) ProtoMessage() {}

func (x *S14M9) ProtoReflect() protoreflect.Message {
	mi := &file_fxpb_proto_msgTypes[63]
	if x != nil {
		ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
		if ms.LoadMessageInfo() == nil {
			ms.StoreMessageInfo(mi)
		}
		return ms
	}
	return mi.MessageOf(x)
}

// Deprecated: Use S14M9.ProtoReflect.Descriptor instead.
func (*S14M9) Descriptor() ([]byte, []int) {
	return file_fxpb_proto_rawDescGZIP(), []int{63}
}

func (x *S14M9) GetF6() bool {
	if x != nil {
		return x.F6
	}
	return false
}

func (x *S14M9) GetF2047() map[int32]float64 {
	if x != nil {
		return x.F2047
	}
	return nil
}

func (x *S14M9) GetF13() uint32 {
	if x != nil {
		return x.F13
	}
	return 0
}

func (x *S14M9) GetF21() string {
	if x != nil {
		return x.F21
	}
	return ""
}

func (x *S14M9) GetF868() []int64 {
	if x != nil {
		return x.F868
	}
	return nil
}

type S15M1 struct {
	state     protoimpl.MessageState `protogen:"open.v1"`
	F3        *uint32                `protobuf:"varint,3,opt,name=f3" json:"f3,omitempty"`
	F2        *S15M2                 `protobuf:"bytes,2,opt,name=f2" json:"f2,omitempty"`
	F21       map[int32]uint64       `protobuf:"bytes,21,rep,name=f21" json:"f21,omitempty" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value"`
	F735      map[uint32]int32       `protobuf:"bytes,735,rep,name=f735" json:"f735,omitempty" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"zigzag32,2,opt,name=value"`
	F262143   []int64                `protobuf:"varint,262143,rep,packed,name=f262143" json:"f262143,omitempty"`
	F33554431 *int64                 `protobuf:"zigzag64,33554431,req,name=f33554431" json:"f33554431,omitempty"`
	// Types that are valid to be assigned to O0:
	//
	//	*S15M1_F124
	//	*S15M1_F536870911
	O0            isS15M1_O0 `protobuf_oneof:"o0"`
	unknownFields protoimpl.UnknownFields
	sizeCache     protoimpl.SizeCache
}

func (x *S15M1) Reset() {
	*x = S15M1{}
	mi := &file_fxpb_proto_msgTypes[64]
	ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
	ms.StoreMessageInfo(mi)
}

func (x *S15M1) String() string {
	return protoimpl.X.MessageStringOf(x)
}

func (*S15M1) ProtoMessage() {}

func (x *S15M1) ProtoReflect() protoreflect.Message {
	mi := &file_fxpb_proto_msgTypes[64]
	if x != nil {
		ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
		if ms.LoadMessageInfo() == nil {
			ms.StoreMessageInfo(mi)
		}
		return ms
	}
	return mi.MessageOf(x)
}

// Deprecated: Use S15M1.ProtoReflect.Descriptor instead.
func (*S15M1) Descriptor() ([]byte, []int) {
	return file_fxpb_proto_rawDescGZIP(), []int{64}
}

func (x *S15M1) GetF3() uint32 {
	if x != nil && x.F3 != nil {
		return *x.F3
	}
	return 0
}

func (x *S15M1) GetF2() *S15M2 {
	if x != nil {
		return x.F2
	}
	return nil
}

func (x *S15M1) GetF21() map[int32]uint64 {
	if x != nil {
		return x.F21
	}
	return nil
}

func (x *S15M1) GetF735() map[uint32]int32 {
	if x != nil {
		return x.F735
	}
	return nil
}

func (x *S15M1) GetF262143() []int64 {
	if x != nil {
		return x.F262143
	}
	return nil
}

func (x *S15M1) GetF33554431() int64 {
	if x != nil && x.F33554431 != nil {
		return *x.F33554431
	}
	return 0
}

func (x *S15M1) GetO0() isS15M1_O0 {
	if x != nil {
		return x.O0
	}
	return nil
}

func (x *S15M1) GetF124() int32 {
	if x != nil {
		if x, ok := x.O0.(*S15M1_F124); ok {
			return x.F124
		}
	}
	return 0
}

func (x *S15M1) GetF536870911() []byte {
	if x != nil {
		if x, ok := x.O0.(*S15M1_F536870911); ok {
			return x.F536870911
		}
	}
	return nil
}

type isS15M1_O0 interface {
	isS15M1_O0()
}

type S15M1_F124 struct {
	F124 int32 `protobuf:"varint,124,opt,name=f124,oneof"`
}

type S15M1_F536870911 struct {
	F536870911 []byte `protobuf:"bytes,536870911,opt,name=f536870911,oneof"`
}

func (*S15M1_F124) isS15M1_O0() {}

func (*S15M1_F536870911) isS15M1_O0() {}

type S15M2 struct {
	state         protoimpl.MessageState `protogen:"open.v1"`
	F2            map[uint32]int64       `protobuf:"bytes,2,rep,name=f2" json:"f2,omitempty" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value"`
	F904          int32                  `protobuf:"zigzag32,904,opt,name=f904" json:"f904,omitempty"`
	unknownFields protoimpl.UnknownFields
	sizeCache     protoimpl.SizeCache
}

func (x *S15M2) Reset() {
	*x = S15M2{}
	mi := &file_fxpb_proto_msgTypes[65]
	ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
	ms.StoreMessageInfo(mi)
}

func (x *S15M2) String() string {
	return protoimpl.X.MessageStringOf(x)
}

func (*S15M2) ProtoMessage() {}

func (x *S15M2) ProtoReflect() protoreflect.Message {
	mi := &file_fxpb_proto_msgTypes[65]
	if x != nil {
		ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
		if ms.LoadMessageInfo() == nil {
			ms.StoreMessageInfo(mi)
		}
		return ms
	}
	return mi.MessageOf(x)
}

// Deprecated: Use S15M2.ProtoReflect.Descriptor instead.
func (*S15M2) Descriptor() ([]byte, []int) {
	return file_fxpb_proto_rawDescGZIP(), []int{65}
}

func (x *S15M2) GetF2() map[uint32]int64 {
	if x != nil {
		return x.F2
	}
	return nil
}

func (x *S15M2) GetF904() int32 {
	if x != nil {
		return x.F904
	}
	return 0
}

type S16M1 struct {
	state         protoimpl.MessageState `protogen:"open.v1"`
	unknownFields protoimpl.UnknownFields
	sizeCache     protoimpl.SizeCache
}

func (x *S16M1) Reset() {
	*x = S16M1{}
	mi := &file_fxpb_proto_msgTypes[66]
	ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
	ms.StoreMessageInfo(mi)
}

func (x *S16M1) String() string {
	return protoimpl.X.MessageStringOf(x)
}

func (*S16M1) ProtoMessage() {}

func (x *S16M1) ProtoReflect() protoreflect.Message {
	mi := &file_fxpb_proto_msgTypes[66]
	if x != nil {
		ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
		if ms.LoadMessageInfo() == nil {
			ms.StoreMessageInfo(mi)
		}
		return ms
	}
	return mi.MessageOf(x)
}

// Deprecated: Use S16M1.ProtoReflect.Descriptor instead.
func (*S16M1) Descriptor() ([]byte, []int) {
	return file_fxpb_proto_rawDescGZIP(), []int{66}
}

type S17M1 struct {
	state      protoimpl.MessageState `protogen:"open.v1"`
	F379689147 []byte                 `protobuf:"bytes,379689147,opt,name=f379689147" json:"f379689147,omitempty"`
	F7         *S17M2                 `protobuf:"bytes,7,opt,name=f7" json:"f7,omitempty"`
	F9         map[int32]*S17M3       `protobuf:"bytes,9,rep,name=f9" json:"f9,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	F2048      []uint32               `protobuf:"fixed32,2048,rep,packed,name=f2048" json:"f2048,omitempty"`
	F1002      *S17M4                 `protobuf:"bytes,1002,opt,name=f1002" json:"f1002,omitempty"`
	F1003      *int32                 `protobuf:"varint,1003,opt,name=f1003" json:"f1003,omitempty"`
	// Types that are valid to be assigned to O0:
	//
	//	*S17M1_F12
	//	*S17M1_F13
	//	*S17M1_F10
	O0            isS17M1_O0 `protobuf_oneof:"o0"`
	unknownFields protoimpl.UnknownFields
	sizeCache     protoimpl.SizeCache
}

func (x *S17M1) Reset() {
	*x = S17M1{}
	mi := &file_fxpb_proto_msgTypes[67]
	ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
	ms.StoreMessageInfo(mi)
}

func (x *S17M1) String() string {
	return protoimpl.X.MessageStringOf(x)
}

func (*S17M1) ProtoMessage() {}

func (x *S17M1) ProtoReflect() protoreflect.Message {
	mi := &file_fxpb_proto_msgTypes[67]
	if x != nil {
		ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
		if ms.LoadMessageInfo() == nil {
			ms.StoreMessageInfo(mi)
		}
		return ms
	}
	return mi.MessageOf(x)
}

// Deprecated: Use S17M1.ProtoReflect.Descriptor instead.
func (*S17M1) Descriptor() ([]byte, []int) {
	return file_fxpb_proto_rawDescGZIP(), []int{67}
}

func (x *S17M1) GetF379689147() []byte {
	if x != nil {
		return x.F379689147
	}
	return nil
}

func (x *S17M1) GetF7() *S17M2 {
	if x != nil {
		return x.F7
	}
	return nil
}

func (x *S17M1) GetF9() map[int32]*S17M3 {
	if x != nil {
		return x.F9
	}
	return nil
}

func (x *S17M1) GetF2048() []uint32 {
	if x != nil {
		return x.F2048
	}
	return nil
}

func (x *S17M1) GetF1002() *S17M4 {
	if x != nil {
		return x.F1002
	}
	return nil
}

func (x *S17M1) GetF1003() int32 {
	if x != nil && x.F1003 != nil {
		return *x.F1003
	}
	return 0
}

func (x *S17M1) GetO0() isS17M1_O0 {
	if x != nil {
		return x.O0
	}
	return nil
}

func (x *S17M1) GetF12() int32 {
	if x != nil {
		if x, ok := x.O0.(*S17M1_F12); ok {
			return x.F12
		}
	}
	return 0
}

func (x *S17M1) GetF13() []byte {
	if x != nil {
		if x, ok := x.O0.(*S17M1_F13); ok {
			return x.F13
		}
	}
	return nil
}

func (x *S17M1) GetF10() float64 {
	if x != nil {
		if x, ok := x.O0.(*S17M1_F10); ok {
			return x.F10
		}
	}
	return 0
}

type isS17M1_O0 interface {
	isS17M1_O0()
}

type S17M1_F12 struct {
	F12 int32 `protobuf:"fixed32,12,opt,name=f12,oneof"`
}

type S17M1_F13 struct {
	F13 []byte `protobuf:"bytes,13,opt,name=f13,oneof"`
}

type S17M1_F10 struct {
	F10 float64 `protobuf:"fixed64,10,opt,name=f10,oneof"`
}

func (*S17M1_F12) isS17M1_O0() {}

func (*S17M1_F13) isS17M1_O0() {}

func (*S17M1_F10) isS17M1_O0() {}

type S17M2 struct {
	state         protoimpl.MessageState `protogen:"open.v1"`
	F2            float32                `protobuf:"fixed32,2,opt,name=f2" json:"f2,omitempty"`
	F9            []byte                 `protobuf:"bytes,9,opt,name=f9" json:"f9,omitempty"`
	F141          *float32               `protobuf:"fixed32,141,opt,name=f141" json:"f141,omitempty"`
	F6            map[int32]uint64       `protobuf:"bytes,6,rep,name=f6" json:"f6,omitempty" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	F5            *int32                 `protobuf:"fixed32,5,req,name=f5" json:"f5,omitempty"`
	unknownFields protoimpl.UnknownFields
	sizeCache     protoimpl.SizeCache
}

func (x *S17M2) Reset() {
	*x = S17M2{}
	mi := &file_fxpb_proto_msgTypes[68]
	ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
	ms.StoreMessageInfo(mi)
}

func (x *S17M2) String() string {
	return protoimpl.X.MessageStringOf(x)
}

func (*S17M2) ProtoMessage() {}

func (x *S17M2) ProtoReflect() protoreflect.Message {
	mi := &file_fxpb_proto_msgTypes[68]
	if x != nil {
		ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
		if ms.LoadMessageInfo() == nil {
			ms.StoreMessageInfo(mi)
		}
		return ms
	}
	return mi.MessageOf(x)
}

// Deprecated: Use S17M2.ProtoReflect.Descriptor instead.
func (*S17M2) Descriptor() ([]byte, []int) {
	return file_fxpb_proto_rawDescGZIP(), []int{68}
}

func (x *S17M2) GetF2() float32 {
	if x != nil {
		return x.F2
	}
	return 0
}

func (x *S17M2) GetF9() []byte {
	if x != nil {
		return x.F9
	}
	return nil
}

func (x *S17M2) GetF141() float32 {
	if x != nil && x.F141 != nil {
		return *x.F141
	}
	return 0
}

func (x *S17M2) GetF6() map[int32]uint64 {
	if x != nil {
		return x.F6
	}
	return nil
}

func (x *S17M2) GetF5() int32 {
	if x != nil && x.F5 != nil {
		return *x.F5
	}
	return 0
}

type S17M3 struct {
	state         protoimpl.MessageState `protogen:"open.v1"`
	unknownFields protoimpl.UnknownFields
	sizeCache     protoimpl.SizeCache
}

func (x *S17M3) Reset() {
	*x = S17M3{}
	mi := &file_fxpb_proto_msgTypes[69]
	ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
	ms.StoreMessageInfo(mi)
}

func (x *S17M3) String() string {
	return protoimpl.X.MessageStringOf(x)
}

func (*S17M3) ProtoMessage() {}

func (x *S17M3) ProtoReflect() protoreflect.Message {
	mi := &file_fxpb_proto_msgTypes[69]
	if x != nil {
		ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
		if ms.LoadMessageInfo() == nil {
			ms.StoreMessageInfo(mi)
		}
		return ms
	}
	return mi.MessageOf(x)
}

// Deprecated: Use S17M3.ProtoReflect.Descriptor instead.
func (*S17M3) Descriptor() ([]byte, []int) {
	return file_fxpb_proto_rawDescGZIP(), []int{69}
}

type S17M4 struct {
	state         protoimpl.MessageState `protogen:"open.v1"`
	F1002         string                 `protobuf:"bytes,1002,opt,name=f1002" json:"f1002,omitempty"`
	F860          map[uint32]float32     `protobuf:"bytes,860,rep,name=f860" json:"f860,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value"`
	F10           map[int32]*S17M2       `protobuf:"bytes,10,rep,name=f10" json:"f10,omitempty" protobuf_key:"zigzag32,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	unknownFields protoimpl.UnknownFields
	sizeCache     protoimpl.SizeCache
}

func (x *S17M4) Reset() {
	*x = S17M4{}
	mi := &file_fxpb_proto_msgTypes[70]
	ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
	ms.StoreMessageInfo(mi)
}

func (x *S17M4) String() string {
	return protoimpl.X.MessageStringOf(x)
}

func (*S17M4) ProtoMessage() {}

func (x *S17M4) ProtoReflect() protoreflect.Message {
	mi := &file_fxpb_proto_msgTypes[70]
	if x != nil {
		ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
		if ms.LoadMessageInfo() == nil {
			ms.StoreMessageInfo(mi)
		}
		return ms
	}
	return mi.MessageOf(x)
}

// Deprecated: Use S17M4.ProtoReflect.Descriptor instead.
func (*S17M4) Descriptor() ([]byte, []int) {
	return file_fxpb_proto_rawDescGZIP(), []int{70}
}

func (x *S17M4) GetF1002() string {
	if x != nil {
		return x.F1002
	}
	return ""
}

func (x *S17M4) GetF860() map[uint32]float32 {
	if x != nil {
		return x.F860
	}
	return nil
}

func (x *S17M4) GetF10() map[int32]*S17M2 {
	if x != nil {
		return x.F10
	}
	return nil
}

type S18M1 struct {
	state         protoimpl.MessageState `protogen:"open.v1"`
	F5            string                 `protobuf:"bytes,5,opt,name=f5" json:"f5,omitempty"`
	F10           *float64               `protobuf:"fixed64,10,opt,name=f10" json:"f10,omitempty"`
	F11           *S18M2                 `protobuf:"bytes,11,opt,name=f11" json:"f11,omitempty"`
	F911          []uint32               `protobuf:"fixed32,911,rep,packed,name=f911" json:"f911,omitempty"`
	F1001         map[bool]uint32        `protobuf:"bytes,1001,rep,name=f1001" json:"f1001,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value"`
	F8            *float64               `protobuf:"fixed64,8,req,name=f8" json:"f8,omitempty"`
	F2047         []float32              `protobuf:"fixed32,2047,rep,packed,name=f2047" json:"f2047,omitempty"`
	unknownFields protoimpl.UnknownFields
	sizeCache     protoimpl.SizeCache
}

func (x *S18M1) Reset() {
	*x = S18M1{}
	mi := &file_fxpb_proto_msgTypes[71]
	ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
	ms.StoreMessageInfo(mi)
}

func (x *S18M1) String() string {
	return protoimpl.X.MessageStringOf(x)
}

func (*S18M1) ProtoMessage() {}

func (x *S18M1) ProtoReflect() protoreflect.Message {
	mi := &file_fxpb_proto_msgTypes[71]
	if x != nil {
		ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
		if ms.LoadMessageInfo() == nil {
			ms.StoreMessageInfo(mi)
		}
		return ms
	}
	return mi.MessageOf(x)
}

// Deprecated: Use S18M1.ProtoReflect.Descriptor instead.
func (*S18M1) Descriptor() ([]byte, []int) {
	return file_fxpb_proto_rawDescGZIP(), []int{71}
}

func (x *S18M1) GetF5() string {
	if x != nil {
		return x.F5
	}
	return ""
}

func (x *S18M1) GetF10() float64 {
	if x != nil && x.F10 != nil {
		return *x.F10
	}
	return 0
}

func (x *S18M1) GetF11() *S18M2 {
	if x != nil {
		return x.F11
	}
	return nil
}

func (x *S18M1) GetF911() []uint32 {
	if x != nil {
		return x.F911
	}
	return nil
}

func (x *S18M1) GetF1001() map[bool]uint32 {
	if x != nil {
		return x.F1001
	}
	return nil
}

func (x *S18M1) GetF8() float64 {
	if x != nil && x.F8 != nil {
		return *x.F8
	}
	return 0
}

func (x *S18M1) GetF2047() []float32 {
	if x != nil {
		return x.F2047
	}
	return nil
}

type S18M2 struct {
	state         protoimpl.MessageState `protogen:"open.v1"`
	F11           []uint64               `protobuf:"fixed64,11,rep,name=f11" json:"f11,omitempty"`
	F6            uint32                 `protobuf:"fixed32,6,opt,name=f6" json:"f6,omitempty"`
	F1            int64                  `protobuf:"fixed64,1,opt,name=f1" json:"f1,omitempty"`
	F33554431     []byte                 `protobuf:"bytes,33554431,opt,name=f33554431" json:"f33554431,omitempty"`
	unknownFields protoimpl.UnknownFields
	sizeCache     protoimpl.SizeCache
}

func (x *S18M2) Reset() {
	*x = S18M2{}
	mi := &file_fxpb_proto_msgTypes[72]
	ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
	ms.StoreMessageInfo(mi)
}

func (x *S18M2) String() string {
	return protoimpl.X.MessageStringOf(x)
}

func (*S18M2) ProtoMessage() {}

func (x *S18M2) ProtoReflect() protoreflect.Message {
	mi := &file_fxpb_proto_msgTypes[72]
	if x != nil {
		ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
		if ms.LoadMessageInfo() == nil {
			ms.StoreMessageInfo(mi)
		}
		return ms
	}
	return mi.MessageOf(x)
}

// Deprecated: Use S18M2.ProtoReflect.Descriptor instead.
func (*S18M2) Descriptor() ([]byte, []int) {
	return file_fxpb_proto_rawDescGZIP(), []int{72}
}

func (x *S18M2) GetF11() []uint64 {
	if x != nil {
		return x.F11
	}
	return nil
}

func (x *S18M2) GetF6() uint32 {
	if x != nil {
		return x.F6
	}
	return 0
}

func (x *S18M2) GetF1() int64 {
	if x != nil {
		return x.F1
	}
	return 0
}

func (x *S18M2) GetF33554431() []byte {
	if x != nil {
		return x.F33554431
	}
	return nil
}

type S19M1 struct {
	state   protoimpl.MessageState `protogen:"open.v1"`
	F262143 *S19M2                 `protobuf:"bytes,262143,opt,name=f262143" json:"f262143,omitempty"`
	F13     []int64                `protobuf:"varint,13,rep,name=f13" json:"f13,omitempty"`
	F1004   *float32               `protobuf:"fixed32,1004,opt,name=f1004" json:"f1004,omitempty"`
	F35     uint64                 `protobuf:"fixed64,35,opt,name=f35" json:"f35,omitempty"`
	F262145 []uint32               `protobuf:"fixed32,262145,rep,name=f262145" json:"f262145,omitempty"`
	F117    uint64                 `protobuf:"varint,117,opt,name=f117" json:"f117,omitempty"`
	// Types that are valid to be assigned to O0:
	//
	//	*S19M1_F262144
	O0            isS19M1_O0 `protobuf_oneof:"o0"`
	unknownFields protoimpl.UnknownFields
	sizeCache     protoimpl.SizeCache
}

func (x *S19M1) Reset() {
	*x = S19M1{}
	mi := &file_fxpb_proto_msgTypes[73]
	ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
	ms.StoreMessageInfo(mi)
}

func (x *S19M1) String() string {
	return protoimpl.X.MessageStringOf(x)
}

func (*S19M1) ProtoMessage() {}

func (x *S19M1) ProtoReflect() protoreflect.Message {
	mi := &file_fxpb_proto_msgTypes[73]
	if x != nil {
		ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
		if ms.LoadMessageInfo() == nil {
			ms.StoreMessageInfo(mi)
		}
		return ms
	}
	return mi.MessageOf(x)
}

// Deprecated: Use S19M1.ProtoReflect.Descriptor instead.
func (*S19M1) Descriptor() ([]byte, []int) {
	return file_fxpb_proto_rawDescGZIP(), []int{73}
}

func (x *S19M1) GetF262143() *S19M2 {
	if x != nil {
		return x.F262143
	}
	return nil
}

func (x *S19M1) GetF13() []int64 {
	if x != nil {
		return x.F13
	}
	return nil
}

func (x *S19M1) GetF1004() float32 {
	if x != nil && x.F1004 != nil {
		return *x.F1004
	}
	return 0
}

func (x *S19M1) GetF35() uint64 {
	if x != nil {
		return x.F35
	}
	return 0
}

func (x *S19M1) GetF262145() []uint32 {
	if x != nil {
		return x.F262145
	}
	return nil
}

func (x *S19M1) GetF117() uint64 {
	if x != nil {
		return x.F117
	}
	return 0
}

func (x *S19M1) GetO0() isS19M1_O0 {
	if x != nil {
		return x.O0
	}
	return nil
}

func (x *S19M1) GetF262144() int64 {
	if x != nil {
		if x, ok := x.O0.(*S19M1_F262144); ok {
			return x.F262144
		}
	}
	return 0
}

type isS19M1_O0 interface {
	isS19M1_O0()
}

type S19M1_F262144 struct {
	F262144 int64 `protobuf:"fixed64,262144,opt,name=f262144,oneof"`
}

func (*S19M1_F262144) isS19M1_O0() {}

type S19M2 struct {
	state         protoimpl.MessageState `protogen:"open.v1"`
	F517791607    map[uint64]*S19M3      `protobuf:"bytes,517791607,rep,name=f517791607" json:"f517791607,omitempty" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	F8            map[uint32]*S19M4      `protobuf:"bytes,8,rep,name=f8" json:"f8,omitempty" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	unknownFields protoimpl.UnknownFields
	sizeCache     protoimpl.SizeCache
}

func (x *S19M2) Reset() {
	*x = S19M2{}
	mi := &file_fxpb_proto_msgTypes[74]
	ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
	ms.StoreMessageInfo(mi)
}

func (x *S19M2) String() string {
	return protoimpl.X.MessageStringOf(x)
}

func (*S19M2) ProtoMessage() {}

func (x *S19M2) ProtoReflect() protoreflect.Message {
	mi := &file_fxpb_proto_msgTypes[74]
	if x != nil {
		ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
		if ms.LoadMessageInfo() == nil {
			ms.StoreMessageInfo(mi)
		}
		return ms
	}
	return mi.MessageOf(x)
}

// Deprecated: Use S19M2.ProtoReflect.Descriptor instead.
func (*S19M2) Descriptor() ([]byte, []int) {
	return file_fxpb_proto_rawDescGZIP(), []int{74}
}

func (x *S19M2) GetF517791607() map[uint64]*S19M3 {
	if x != nil {
		return x.F517791607
	}
	return nil
}

func (x *S19M2) GetF8() map[uint32]*S19M4 {
	if x != nil {
		return x.F8
	}
	return nil
}

type S19M3 struct {
	state         protoimpl.MessageState `protogen:"open.v1"`
	F292          *uint64                `protobuf:"varint,292,req,name=f292" json:"f292,omitempty"`
	unknownFields protoimpl.UnknownFields
	sizeCache     protoimpl.SizeCache
}

func (x *S19M3) Reset() {
	*x = S19M3{}
	mi := &file_fxpb_proto_msgTypes[75]
	ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
	ms.StoreMessageInfo(mi)
}

func (x *S19M3) String() string {
	return protoimpl.X.MessageStringOf(x)
}

func (*S19M3) ProtoMessage() {}

func (x *S19M3) ProtoReflect() protoreflect.Message {
	mi := &file_fxpb_proto_msgTypes[75]
	if x != nil {
		ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
		if ms.LoadMessageInfo() == nil {
			ms.StoreMessageInfo(mi)
		}
		return ms
	}
	return mi.MessageOf(x)
}

// Deprecated: Use S19M3.ProtoReflect.Descriptor instead.
func (*S19M3) Descriptor() ([]byte, []int) {
	return file_fxpb_proto_rawDescGZIP(), []int{75}
}

func (x *S19M3) GetF292() uint64 {
	if x != nil && x.F292 != nil {
		return *x.F292
	}
	return 0
}

type S19M4 struct {
	state         protoimpl.MessageState `protogen:"open.v1"`
	unknownFields protoimpl.UnknownFields
	sizeCache     protoimpl.SizeCache
}

func (x *S19M4) Reset() {
	*x = S19M4{}
	mi := &file_fxpb_proto_msgTypes[76]
	ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
	ms.StoreMessageInfo(mi)
}

func (x *S19M4) String() string {
	return protoimpl.X.MessageStringOf(x)
}

func (*S19M4) ProtoMessage() {}

func (x *S19M4) ProtoReflect() protoreflect.Message {
	mi := &file_fxpb_proto_msgTypes[76]
	if x != nil {
		ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
		if ms.LoadMessageInfo() == nil {
			ms.StoreMessageInfo(mi)
		}
		return ms
	}
	return mi.MessageOf(x)
}

// Deprecated: Use S19M4.ProtoReflect.Descriptor instead.
func (*S19M4) Descriptor() ([]byte, []int) {
	return file_fxpb_proto_rawDescGZIP(), []int{76}
}

type S20M1 struct {
	state         protoimpl.MessageState `protogen:"open.v1"`
	unknownFields protoimpl.UnknownFields
	sizeCache     protoimpl.SizeCache
}

func (x *S20M1) Reset() {
	*x = S20M1{}
	mi := &file_fxpb_proto_msgTypes[77]
	ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
	ms.StoreMessageInfo(mi)
}

func (x *S20M1) String() string {
	return protoimpl.X.MessageStringOf(x)
}

func (*S20M1) ProtoMessage() {}

func (x *S20M1) ProtoReflect() protoreflect.Message {
	mi := &file_fxpb_proto_msgTypes[77]
	if x != nil {
		ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
		if ms.LoadMessageInfo() == nil {
			ms.StoreMessageInfo(mi)
		}
		return ms
	}
	return mi.MessageOf(x)
}

// Deprecated: Use S20M1.ProtoReflect.Descriptor instead.
func (*S20M1) Descriptor() ([]byte, []int) {
	return file_fxpb_proto_rawDescGZIP(), []int{77}
}

type S21M1 struct {
	state         protoimpl.MessageState `protogen:"open.v1"`
	F12           map[int32]int32        `protobuf:"bytes,12,rep,name=f12" json:"f12,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"zigzag32,2,opt,name=value"`
	F439665010    *int32                 `protobuf:"fixed32,439665010,opt,name=f439665010" json:"f439665010,omitempty"`
	F18999        []*S21M2               `protobuf:"bytes,18999,rep,name=f18999" json:"f18999,omitempty"`
	F181823282    []*S21M4               `protobuf:"bytes,181823282,rep,name=f181823282" json:"f181823282,omitempty"`
	F13           *S21M7                 `protobuf:"bytes,13,opt,name=f13" json:"f13,omitempty"`
	F20000        []float32              `protobuf:"fixed32,20000,rep,name=f20000" json:"f20000,omitempty"`
	F15           []*S21M2               `protobuf:"bytes,15,rep,name=f15" json:"f15,omitempty"`
	F1000         bool                   `protobuf:"varint,1000,opt,name=f1000" json:"f1000,omitempty"`
	unknownFields protoimpl.UnknownFields
	sizeCache     protoimpl.SizeCache
}

func (x *S21M1) Reset() {
	*x = S21M1{}
	mi := &file_fxpb_proto_msgTypes[78]
	ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
	ms.StoreMessageInfo(mi)
}

func (x *S21M1) String() string {
	return protoimpl.X.MessageStringOf(x)
}

func (*S21M1) ProtoMessage() {}

func (x *S21M1) ProtoReflect() protoreflect.Message {
	mi := &file_fxpb_proto_msgTypes[78]
	if x != nil {
		ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
		if ms.LoadMessageInfo() == nil {
			ms.StoreMessageInfo(mi)
		}
		return ms
	}
	return mi.MessageOf(x)
}

// Deprecated: Use S21M1.ProtoReflect.Descriptor instead.
func (*S21M1) Descriptor() ([]byte, []int) {
	return file_fxpb_proto_rawDescGZIP(), []int{78}
}

func (x *S21M1) GetF12() map[int32]int32 {
	if x != nil {
		return x.F12
	}
	return nil
}

func (x *S21M1) GetF439665010() int32 {
	if x != nil && x.F439665010 != nil {
		return *x.F439665010
	}
	return 0
}

func (x *S21M1) GetF18999() []*S21M2 {
	if x != nil {
		return x.F18999
	}
	return nil
}

func (x *S21M1) GetF181823282() []*S21M4 {
	if x != nil {
		return x.F181823282
	}
	return nil
}

func (x *S21M1) GetF13() *S21M7 {
	if x != nil {
		return x.F13
	}
	return nil
}

func (x *S21M1) GetF20000() []float32 {
	if x != nil {
		return x.F20000
	}
	return nil
}

func (x *S21M1) GetF15() []*S21M2 {
	if x != nil {
		return x.F15
	}
	return nil
}

func (x *S21M1) GetF1000() bool {
	if x != nil {
		return x.F1000
	}
	return false
}

type S21M2 struct {
	state         protoimpl.MessageState `protogen:"open.v1"`
	F188          []*S21M3               `protobuf:"bytes,188,rep,name=f188" json:"f188,omitempty"`
	F6            *string                `protobuf:"bytes,6,opt,name=f6" json:"f6,omitempty"`
	unknownFields protoimpl.UnknownFields
	sizeCache     protoimpl.SizeCache
}

func (x *S21M2) Reset() {
	*x = S21M2{}
	mi := &file_fxpb_proto_msgTypes[79]
	ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
	ms.StoreMessageInfo(mi)
}

func (x *S21M2) String() string {
	return protoimpl.X.MessageStringOf(x)
}

func (*S21M2) ProtoMessage() {}

func (x *S21M2) ProtoReflect() protoreflect.Message {
	mi := &file_fxpb_proto_msgTypes[79]
	if x != nil {
		ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
		if ms.LoadMessageInfo() == nil {
			ms.StoreMessageInfo(mi)
		}
		return ms
	}
	return mi.MessageOf(x)
}

// Deprecated: Use S21M2.ProtoReflect.Descriptor instead.
func (*S21M2) Descriptor() ([]byte, []int) {
	return file_fxpb_proto_rawDescGZIP(), []int{79}
}

func (x *S21M2) GetF188() []*S21M3 {
	if x != nil {
		return x.F188
	}
	return nil
}

func (x *S21M2) GetF6() string {
	if x != nil && x.F6 != nil {
		return *x.F6
	}
	return ""
}

type S21M3 struct {
	state         protoimpl.MessageState `protogen:"open.v1"`
	F12           *int64                 `protobuf:"fixed64,12,opt,name=f12" json:"f12,omitempty"`
	F10           *int32                 `protobuf:"varint,10,opt,name=f10" json:"f10,omitempty"`
	F13           []E                    `protobuf:"varint,13,rep,name=f13,enum=fxpb.E" json:"f13,omitempty"`
	F14           []uint64               `protobuf:"fixed64,14,rep,name=f14" json:"f14,omitempty"`
	F5            map[int32]bool         `protobuf:"bytes,5,rep,name=f5" json:"f5,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	unknownFields protoimpl.UnknownFields
	sizeCache     protoimpl.SizeCache
}

func (x *S21M3) Reset() {
	*x = S21M3{}
	mi := &file_fxpb_proto_msgTypes[80]
	ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
	ms.StoreMessageInfo(mi)
}

func (x *S21M3) String() string {
	return protoimpl.X.MessageStringOf(x)
}

func (*S21M3) ProtoMessage() {}

func (x *S21M3) ProtoReflect() protoreflect.Message {
	mi := &file_fxpb_proto_msgTypes[80]
	if x != nil {
		ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
		if ms.LoadMessageInfo() == nil {
			ms.StoreMessageInfo(mi)
		}
		return ms
	}
	return mi.MessageOf(x)
}

// Deprecated: Use S21M3.ProtoReflect.Descriptor instead.
func (*S21M3) Descriptor() ([]byte, []int) {
	return file_fxpb_proto_rawDescGZIP(), []int{80}
}

func (x *S21M3) GetF12() int64 {
	if x != nil && x.F12 != nil {
		return *x.F12
	}
	return 0
}

func (x *S21M3) GetF10() int32 {
	if x != nil && x.F10 != nil {
		return *x.F10
	}
	return 0
}

func (x *S21M3) GetF13() []E {
	if x != nil {
		return x.F13
	}
	return nil
}

func (x *S21M3) GetF14() []uint64 {
	if x != nil {
		return x.F14
	}
	return nil
}

func (x *S21M3) GetF5() map[int32]bool {
	if x != nil {
		return x.F5
	}
	return nil
}

type S21M4 struct {
	state         protoimpl.MessageState `protogen:"open.v1"`
	F21           *string                `protobuf:"bytes,21,opt,name=f21" json:"f21,omitempty"`
	F1000         []*S21M3               `protobuf:"bytes,1000,rep,name=f1000" json:"f1000,omitempty"`
	F367          int64                  `protobuf:"zigzag64,367,opt,name=f367" json:"f367,omitempty"`
	F262143       uint32                 `protobuf:"varint,262143,opt,name=f262143" json:"f262143,omitempty"`
	F13           []*S21M3               `protobuf:"bytes,13,rep,name=f13" json:"f13,omitempty"`
	F1            []float64              `protobuf:"fixed64,1,rep,packed,name=f1" json:"f1,omitempty"`
	F27           []*S21M5               `protobuf:"bytes,27,rep,name=f27" json:"f27,omitempty"`
	F1003         *uint64                `protobuf:"fixed64,1003,req,name=f1003" json:"f1003,omitempty"`
	F1005         *S21M6                 `protobuf:"bytes,1005,opt,name=f1005" json:"f1005,omitempty"`
	unknownFields protoimpl.UnknownFields
	sizeCache     protoimpl.SizeCache
}

func (x *S21M4) Reset() {
	*x = S21M4{}
	mi := &file_fxpb_proto_msgTypes[81]
	ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
	ms.StoreMessageInfo(mi)
}

func (x *S21M4) String() string {
	return protoimpl.X.MessageStringOf(x)
}

func (*S21M4) ProtoMessage() {}

func (x *S21M4) ProtoReflect() protoreflect.Message {
	mi := &file_fxpb_proto_msgTypes[81]
	if x != nil {
		ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
		if ms.LoadMessageInfo() == nil {
			ms.StoreMessageInfo(mi)
		}
		return ms
	}
	return mi.MessageOf(x)
}

// Deprecated: Use S21M4.ProtoReflect.Descriptor instead.
func (*S21M4) Descriptor() ([]byte, []int) {
	return file_fxpb_proto_rawDescGZIP(), []int{81}
}

func (x *S21M4) GetF21() string {
	if x != nil && x.F21 != nil {
		return *x.F21
	}
	return ""
}

func (x *S21M4) GetF1000() []*S21M3 {
	if x != nil {
		return x.F1000
	}
	return nil
}

func (x *S21M4) GetF367() int64 {
	if x != nil {
		return x.F367
	}
	return 0
}

func (x *S21M4) GetF262143() uint32 {
	if x != nil {
		return x.F262143
	}
	return 0
}

func (x *S21M4) GetF13() []*S21M3 {
	if x != nil {
		return x.F13
	}
	return nil
}

func (x *S21M4) GetF1() []float64 {
	if x != nil {
		return x.F1
	}
	return nil
}

func (x *S21M4) GetF27() []*S21M5 {
	if x != nil {
		return x.F27
	}
	return nil
}

func (x *S21M4) GetF1003() uint64 {
	if x != nil && x.F1003 != nil {
		return *x.F1003
	}
	return 0
}

func (x *S21M4) GetF1005() *S21M6 {
	if x != nil {
		return x.F1005
	}
	return nil
}

type S21M5 struct {
	state         protoimpl.MessageState `protogen:"open.v1"`
	F2048         []string               `protobuf:"bytes,2048,rep,name=f2048" json:"f2048,omitempty"`
	F865          map[int64]int64        `protobuf:"bytes,865,rep,name=f865" json:"f865,omitempty" protobuf_key:"zigzag64,1,opt,name=key" protobuf_val:"zigzag64,2,opt,name=value"`
	F4            *string                `protobuf:"bytes,4,opt,name=f4" json:"f4,omitempty"`
	F262144       []byte                 `protobuf:"bytes,262144,opt,name=f262144" json:"f262144,omitempty"`
	F15           *int32                 `protobuf:"fixed32,15,req,name=f15" json:"f15,omitempty"`
	F675          []int32                `protobuf:"varint,675,rep,name=f675" json:"f675,omitempty"`
	F142          int32                  `protobuf:"varint,142,opt,name=f142" json:"f142,omitempty"`
	F149          int64                  `protobuf:"varint,149,opt,name=f149" json:"f149,omitempty"`
	unknownFields protoimpl.UnknownFields
	sizeCache     protoimpl.SizeCache
}

func (x *S21M5) Reset() {
	*x = S21M5{}
	mi := &file_fxpb_proto_msgTypes[82]
	ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
	ms.StoreMessageInfo(mi)
}

func (x *S21M5) String() string {
	return protoimpl.X.MessageStringOf(x)
}

func (*S21M5) ProtoMessage() {}

func (x *S21M5) ProtoReflect() protoreflect.Message {
	mi := &file_fxpb_proto_msgTypes[82]
	if x != nil {
		ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
		if ms.LoadMessageInfo() == nil {
			ms.StoreMessageInfo(mi)
		}
		return ms
	}
	return mi.MessageOf(x)
}

// Deprecated: Use S21M5.ProtoReflect.Descriptor instead.
func (*S21M5) Descriptor() ([]byte, []int) {
	return file_fxpb_proto_rawDescGZIP(), []int{82}
}

func (x *S21M5) GetF2048() []string {
	if x != nil {
		return x.F2048
	}
	return nil
}

func (x *S21M5) GetF865() map[int64]int64 {
	if x != nil {
		return x.F865
	}
	return nil
}

func (x *S21M5) GetF4() string {
	if x != nil && x.F4 != nil {
		return *x.F4
	}
	return ""
}

func (x *S21M5) GetF262144() []byte {
	if x != nil {
		return x.F262144
	}
	return nil
}

func (x *S21M5) GetF15() int32 {
	if x != nil && x.F15 != nil {
		return *x.F15
	}
	return 0
}

func (x *S21M5) GetF675() []int32 {
	if x != nil {
		return x.F675
	}
	return nil
}

func (x *S21M5) GetF142() int32 {
	if x != nil {
		return x.F142
	}
	return 0
}

func (x *S21M5) GetF149() int64 {
	if x != nil {
		return x.F149
	}
	return 0
}

type S21M6 struct {
	state      protoimpl.MessageState `protogen:"open.v1"`
	F10        *uint64                `protobuf:"fixed64,10,opt,name=f10" json:"f10,omitempty"`
	F20000     map[int64]int64        `protobuf:"bytes,20000,rep,name=f20000" json:"f20000,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"zigzag64,2,opt,name=value"`
	F243096375 []float64              `protobuf:"fixed64,243096375,rep,packed,name=f243096375" json:"f243096375,omitempty"`
	F33554432  map[int64]int64        `protobuf:"bytes,33554432,rep,name=f33554432" json:"f33554432,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	F536870911 int32                  `protobuf:"varint,536870911,opt,name=f536870911" json:"f536870911,omitempty"`
	F11        []int64                `protobuf:"varint,11,rep,name=f11" json:"f11,omitempty"`
	// Types that are valid to be assigned to O0:
	//
	//	*S21M6_F354
	//	*S21M6_F33
	//	*S21M6_F2
	O0            isS21M6_O0 `protobuf_oneof:"o0"`
	unknownFields protoimpl.UnknownFields
	sizeCache     protoimpl.SizeCache
}

func (x *S21M6) Reset() {
	*x = S21M6{}
	mi := &file_fxpb_proto_msgTypes[83]
	ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
	ms.StoreMessageInfo(mi)
}

func (x *S21M6) String() string {
	return protoimpl.X.MessageStringOf(x)
}

func (*S21M6) ProtoMessage() {}

func (x *S21M6) ProtoReflect() protoreflect.Message {
	mi := &file_fxpb_proto_msgTypes[83]
	if x != nil {
		ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
		if ms.LoadMessageInfo() == nil {
			ms.StoreMessageInfo(mi)
		}
		return ms
	}
	return mi.MessageOf(x)
}

// Deprecated: Use S21M6.ProtoReflect.Descriptor instead.
func (*S21M6) Descriptor() ([]byte, []int) {
	return file_fxpb_proto_rawDescGZIP(), []int{83}
}

func (x *S21M6) GetF10() uint64 {
	if x != nil && x.F10 != nil {
		return *x.F10
	}
	return 0
}

func (x *S21M6) GetF20000() map[int64]int64 {
	if x != nil {
		return x.F20000
	}
	return nil
}

func (x *S21M6) GetF243096375() []float64 {
	if x != nil {
		return x.F243096375
	}
	return nil
}

func (x *S21M6) GetF33554432() map[int64]int64 {
	if x != nil {
		return x.F33554432
	}
	return nil
}

func (x *S21M6) GetF536870911() int32 {
	if x != nil {
		return x.F536870911
	}
	return 0
}

func (x *S21M6) GetF11() []int64 {
	if x != nil {
		return x.F11
	}
	return nil
}

func (x *S21M6) GetO0() isS21M6_O0 {
	if x != nil {
		return x.O0
	}
	return nil
}

func (x *S21M6) GetF354() uint32 {
	if x != nil {
		if x, ok := x.O0.(*S21M6_F354); ok {
			return x.F354
		}
	}
	return 0
}

func (x *S21M6) GetF33() int64 {
	if x != nil {
		if x, ok := x.O0.(*S21M6_F33); ok {
			return x.F33
		}
	}
	return 0
}

func (x *S21M6) GetF2() float64 {
	if x != nil {
		if x, ok := x.O0.(*S21M6_F2); ok {
			return x.F2
		}
	}
	return 0
}

type isS21M6_O0 interface {
	isS21M6_O0()
}

type S21M6_F354 struct {
	F354 uint32 `protobuf:"fixed32,354,opt,name=f354,oneof"`
}

type S21M6_F33 struct {
	F33 int64 `protobuf:"zigzag64,33,opt,name=f33,oneof"`
}

type S21M6_F2 struct {
	F2 float64 `protobuf:"fixed64,2,opt,name=f2,oneof"`
}

func (*S21M6_F354) isS21M6_O0() {}

func (*S21M6_F33) isS21M6_O0() {}

func (*S21M6_F2) isS21M6_O0() {}

type S21M7 struct {
	state         protoimpl.MessageState `protogen:"open.v1"`
	F3            map[string]bool        `protobuf:"bytes,3,rep,name=f3" json:"f3,omitempty" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	F4            map[int64]uint32       `protobuf:"bytes,4,rep,name=f4" json:"f4,omitempty" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value"`
	F34           map[uint32]*S21M8      `protobuf:"bytes,34,rep,name=f34" json:"f34,omitempty" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	F5            *S21M9                 `protobuf:"bytes,5,opt,name=f5" json:"f5,omitempty"`
	F1004         []int64                `protobuf:"fixed64,1004,rep,packed,name=f1004" json:"f1004,omitempty"`
	F341          int32                  `protobuf:"fixed32,341,opt,name=f341" json:"f341,omitempty"`
	F9            []bool                 `protobuf:"varint,9,rep,packed,name=f9" json:"f9,omitempty"`
	F6            *S21M10                `protobuf:"bytes,6,opt,name=f6" json:"f6,omitempty"`
	F18999        *S21M11                `protobuf:"bytes,18999,opt,name=f18999" json:"f18999,omitempty"`
	unknownFields protoimpl.UnknownFields
	sizeCache     protoimpl.SizeCache
}

func (x *S21M7) Reset() {
	*x = S21M7{}
	mi := &file_fxpb_proto_msgTypes[84]
	ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
	ms.StoreMessageInfo(mi)
}

func (x *S21M7) String() string {
	return protoimpl.X.MessageStringOf(x)
}

func (*S21M7) ProtoMessage() {}

func (x *S21M7) ProtoReflect() protoreflect.Message {
	mi := &file_fxpb_proto_msgTypes[84]
	if x != nil {
		ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
		if ms.LoadMessageInfo() == nil {
			ms.StoreMessageInfo(mi)
		}
		return ms
	}
	return mi.MessageOf(x)
}

// Deprecated: Use S21M7.ProtoReflect.Descriptor instead.
func (*S21M7) Descriptor() ([]byte, []int) {
	return file_fxpb_proto_rawDescGZIP(), []int{84}
}

func (x *S21M7) GetF3() map[string]bool {
	if x != nil {
		return x.F3
	}
	return nil
}

func (x *S21M7) GetF4() map[int64]uint32 {
	if x != nil {
		return x.F4
	}
	return nil
}

func (x *S21M7) GetF34() map[uint32]*S21M8 {
	if x != nil {
		return x.F34
	}
	return nil
}

func (x *S21M7) GetF5() *S21M9 {
	if x != nil {
		return x.F5
	}
	return nil
}

func (x *S21M7) GetF1004() []int64 {
	if x != nil {
		return x.F1004
	}
	return nil
}

func (x *S21M7) GetF341() int32 {
	if x != nil {
		return x.F341
	}
	return 0
}

func (x *S21M7) GetF9() []bool {
	if x != nil {
		return x.F9
	}
	return nil
}

func (x *S21M7) GetF6() *S21M10 {
	if x != nil {
		return x.F6
	}
	return nil
}

func (x *S21M7) GetF18999() *S21M11 {
	if x != nil {
		return x.F18999
	}
	return nil
}

type S21M8 struct {
	state         protoimpl.MessageState `protogen:"open.v1"`
	F10           []string               `protobuf:"bytes,10,rep,name=f10" json:"f10,omitempty"`
	unknownFields protoimpl.UnknownFields
	sizeCache     protoimpl.SizeCache
}

func (x *S21M8) Reset() {
	*x = S21M8{}
	mi := &file_fxpb_proto_msgTypes[85]
	ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
	ms.StoreMessageInfo(mi)
}

func (x *S21M8) String() string {
	return protoimpl.X.MessageStringOf(x)
}

func (*S21M8) ProtoMessage() {}

func (x *S21M8) ProtoReflect() protoreflect.Message {
	mi := &file_fxpb_proto_msgTypes[85]
	if x != nil {
		ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
		if ms.LoadMessageInfo() == nil {
			ms.StoreMessageInfo(mi)
		}
		return ms
	}
	return mi.MessageOf(x)
}

// Deprecated: Use S21M8.ProtoReflect.Descriptor instead.
func (*S21M8) Descriptor() ([]byte, []int) {
	return file_fxpb_proto_rawDescGZIP(), []int{85}
}

func (x *S21M8) GetF10() []string {
	if x != nil {
		return x.F10
	}
	return nil
}

type S21M9 struct {
	state         protoimpl.MessageState `protogen:"open.v1"`
	F3            []bool                 `protobuf:"varint,3,rep,packed,name=f3" json:"f3,omitempty"`
	F231191318    []int64                `protobuf:"zigzag64,231191318,rep,packed,name=f231191318" json:"f231191318,omitempty"`
	unknownFields protoimpl.UnknownFields
	sizeCache     protoimpl.SizeCache
}

func (x *S21M9) Reset() {
	*x = S21M9{}
	mi := &file_fxpb_proto_msgTypes[86]
	ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
	ms.StoreMessageInfo(mi)
}

func (x *S21M9) String() string {
	return protoimpl.X.MessageStringOf(x)
}

func (*S21M9) ProtoMessage() {}

func (x *S21M9) ProtoReflect() protoreflect.Message {
	mi := &file_fxpb_proto_msgTypes[86]
	if x != nil {
		ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
		if ms.LoadMessageInfo() == nil {
			ms.StoreMessageInfo(mi)
		}
		return ms
	}
	return mi.MessageOf(x)
}

// Deprecated: Use S21M9.ProtoReflect.Descriptor instead.
func (*S21M9) Descriptor() ([]byte, []int) {
	return file_fxpb_proto_rawDescGZIP(), []int{86}
}

func (x *S21M9) GetF3() []bool {
	if x != nil {
		return x.F3
	}
	return nil
}

func (x *S21M9) GetF231191318() []int64 {
	if x != nil {
		return x.F231191318
	}
	return nil
}

type S21M10 struct {
	state protoimpl.MessageState `protogen:"open.v1"`
	F6    *uint64                `protobuf:"fixed64,6,opt,name=f6" json:"f6,omitempty"`
	F999  int32                  `protobuf:"varint,999,opt,name=f999" json:"f999,omitempty"`
	F400  map[int64]int64        `protobuf:"bytes,400,rep,name=f400" json:"f400,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value"`
	// Types that are valid to be assigned to O0:
	//
	//	*S21M10_F9
	O0            isS21M10_O0 `protobuf_oneof:"o0"`
	unknownFields protoimpl.UnknownFields
	sizeCache     protoimpl.SizeCache
}

func (x *S21M10) Reset() {
	*x = S21M10{}
	mi := &file_fxpb_proto_msgTypes[87]
	ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
	ms.StoreMessageInfo(mi)
}

func (x *S21M10) String() string {
	return protoimpl.X.MessageStringOf(x)
}

func (*S21M10) ProtoMessage() {}

func (x *S21M10) ProtoReflect() protoreflect.Message {
	mi := &file_fxpb_proto_msgTypes[87]
	if x != nil {
		ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
		if ms.LoadMessageInfo() == nil {
			ms.StoreMessageInfo(mi)
		}
		return ms
	}
	return mi.MessageOf(x)
}

// Deprecated: Use S21M10.ProtoReflect.Descriptor instead.
func (*S21M10) Descriptor() ([]byte, []int) {
	return file_fxpb_proto_rawDescGZIP(), []int{87}
}

func (x *S21M10) GetF6() uint64 {
	if x != nil && x.F6 != nil {
		return *x.F6
	}
	return 0
}

func (x *S21M10) GetF999() int32 {
	if x != nil {
		return x.F999
	}
	return 0
}

func (x *S21M10) GetF400() map[int64]int64 {
	if x != nil {
		return x.F400
	}
	return nil
}

func (x *S21M10) GetO0() isS21M10_O0 {
	if x != nil {
		return x.O0
	}
	return nil
}

func (x *S21M10) GetF9() float64 {
	if x != nil {
		if x, ok := x.O0.(*S21M10_F9); ok {
			return x.F9
		}
	}
	return 0
}

type isS21M10_O0 interface {
	isS21M10_O0()
}

type S21M10_F9 struct {
	F9 float64 `protobuf:"fixed64,9,opt,name=f9,oneof"`
}

func (*S21M10_F9) isS21M10_O0() {}

type S21M11 struct {
	state protoimpl.MessageState `protogen:"open.v1"`
	F303  uint32                 `protobuf:"fixed32,303,opt,name=f303" json:"f303,omitempty"`
	F1    []int32                `protobuf:"zigzag32,1,rep,packed,name=f1" json:"f1,omitempty"`
	F27   map[bool]float32       `protobuf:"bytes,27,rep,name=f27" json:"f27,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value"`
	F16   *int32                 `protobuf:"fixed32,16,req,name=f16" json:"f16,omitempty"`
	F13   []byte                 `protobuf:"bytes,13,opt,name=f13" json:"f13,omitempty"`
	F874  []int64                `protobuf:"fixed64,874,rep,packed,name=f874" json:"f874,omitempty"`
	F4    map[uint32]string      `protobuf:"bytes,4,rep,name=f4" json:"f4,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	// Types that are valid to be assigned to O0:
	//
	//	*S21M11_F15
	//	*S21M11_F2
	O0            isS21M11_O0 `protobuf_oneof:"o0"`
	unknownFields protoimpl.UnknownFields
	sizeCache     protoimpl.SizeCache
}

func (x *S21M11) Reset() {
	*x = S21M11{}
	mi := &file_fxpb_proto_msgTypes[88]
	ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
	ms.StoreMessageInfo(mi)
}

func (x *S21M11) String() string {
	return protoimpl.X.MessageStringOf(x)
}

func (*S21M11) ProtoMessage() {}

func (x *S21M11) ProtoReflect() protoreflect.Message {
	mi := &file_fxpb_proto_msgTypes[88]
	if x != nil {
		ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
		if ms.LoadMessageInfo() == nil {
			ms.StoreMessageInfo(mi)
		}
		return ms
	}
	return mi.MessageOf(x)
}

// Deprecated: Use S21M11.ProtoReflect.Descriptor instead.
func (*S21M11) Descriptor() ([]byte, []int) {
	return file_fxpb_proto_rawDescGZIP(), []int{88}
}

func (x *S21M11) GetF303() uint32 {
	if x != nil {
		return x.F303
	}
	return 0
}

func (x *S21M11) GetF1() []int32 {
	if x != nil {
		return x.F1
	}
	return nil
}

func (x *S21M11) GetF27() map[bool]float32 {
	if x != nil {
		return x.F27
	}
	return nil
}

func (x *S21M11) GetF16() int32 {
	if x != nil && x.F16 != nil {
		return *x.F16
	}
	return 0
}

func (x *S21M11) GetF13() []byte {
	if x != nil {
		return x.F13
	}
	return nil
}

func (x *S21M11) GetF874() []int64 {
	if x != nil {
		return x.F874
	}
	return nil
}

func (x *S21M11) GetF4() map[uint32]string {
	if x != nil {
		return x.F4
	}
	return nil
}

func (x *S21M11) GetO0() isS21M11_O0 {
	if x != nil {
		return x.O0
	}
	return nil
}

func (x *S21M11) GetF15() []byte {
	if x != nil {
		if x, ok := x.O0.(*S21M11_F15); ok {
			return x.F15
		}
	}
	return nil
}

func (x *S21M11) GetF2() uint64 {
	if x != nil {
		if x, ok := x.O0.(*S21M11_F2); ok {
			return x.F2
		}
	}
	return 0
}

type isS21M11_O0 interface {
	isS21M11_O0()
}

type S21M11_F15 struct {
	F15 []byte `protobuf:"bytes,15,opt,name=f15,oneof"`
}

type S21M11_F2 struct {
	F2 uint64 `protobuf:"varint,2,opt,name=f2,oneof"`
}

func (*S21M11_F15) isS21M11_O0() {}

func (*S21M11_F2) isS21M11_O0() {}

type S22M1 struct {
	state         protoimpl.MessageState `protogen:"open.v1"`
	F11           map[int32]*S22M2       `protobuf:"bytes,11,rep,name=f11" json:"f11,omitempty" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	F576          int32                  `protobuf:"varint,576,opt,name=f576" json:"f576,omitempty"`
	F448          map[int64]string       `protobuf:"bytes,448,rep,name=f448" json:"f448,omitempty" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	F5            map[int64]uint32       `protobuf:"bytes,5,rep,name=f5" json:"f5,omitempty" protobuf_key:"zigzag64,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	F741          []uint64               `protobuf:"varint,741,rep,packed,name=f741" json:"f741,omitempty"`
	F2            map[bool]bool          `protobuf:"bytes,2,rep,name=f2" json:"f2,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	unknownFields protoimpl.UnknownFields
	sizeCache     protoimpl.SizeCache
}

func (x *S22M1) Reset() {
	*x = S22M1{}
	mi := &file_fxpb_proto_msgTypes[89]
	ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
	ms.StoreMessageInfo(mi)
}

func (x *S22M1) String() string {
	return protoimpl.X.MessageStringOf(x)
}

func (*S22M1) ProtoMessage() {}

func (x *S22M1) ProtoReflect() protoreflect.Message {
	mi := &file_fxpb_proto_msgTypes[89]
	if x != nil {
		ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
		if ms.LoadMessageInfo() == nil {
			ms.StoreMessageInfo(mi)
		}
		return ms
	}
	return mi.MessageOf(x)
}

// Deprecated: Use S22M1.ProtoReflect.Descriptor instead.
func (*S22M1) Descriptor() ([]byte, []int) {
	return file_fxpb_proto_rawDescGZIP(), []int{89}
}

func (x *S22M1) GetF11() map[int32]*S22M2 {
	if x != nil {
		return x.F11
	}
	return nil
}

func (x *S22M1) GetF576() int32 {
	if x != nil {
		return x.F576
	}
	return 0
}

func (x *S22M1) GetF448() map[int64]string {
	if x != nil {
		return x.F448
	}
	return nil
}

func (x *S22M1) GetF5() map[int64]uint32 {
	if x != nil {
		return x.F5
	}
	return nil
}

func (x *S22M1) GetF741() []uint64 {
	if x != nil {
		return x.F741
	}
	return nil
}

func (x *S22M1) GetF2() map[bool]bool {
	if x != nil {
		return x.F2
	}
	return nil
}

type S22M2 struct {
	state         protoimpl.MessageState `protogen:"open.v1"`
	F365394437    *S22M3                 `protobuf:"bytes,365394437,opt,name=f365394437" json:"f365394437,omitempty"`
	unknownFields protoimpl.UnknownFields
	sizeCache     protoimpl.SizeCache
}

func (x *S22M2) Reset() {
	*x = S22M2{}
	mi := &file_fxpb_proto_msgTypes[90]
	ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
	ms.StoreMessageInfo(mi)
}

func (x *S22M2) String() string {
	return protoimpl.X.MessageStringOf(x)
}

func (*S22M2) ProtoMessage() {}

func (x *S22M2) ProtoReflect() protoreflect.Message {
	mi := &file_fxpb_proto_msgTypes[90]
	if x != nil {
		ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
		if ms.LoadMessageInfo() == nil {
			ms.StoreMessageInfo(mi)
		}
		return ms
	}
	return mi.MessageOf(x)
}

// Deprecated: Use S22M2.ProtoReflect.Descriptor instead.
func (*S22M2) Descriptor() ([]byte, []int) {
	return file_fxpb_proto_rawDescGZIP(), []int{90}
}

func (x *S22M2) GetF365394437() *S22M3 {
	if x != nil {
		return x.F365394437
	}
	return nil
}

type S22M3 struct {
	state         protoimpl.MessageState `protogen:"open.v1"`
	F6            *bool                  `protobuf:"varint,6,opt,name=f6" json:"f6,omitempty"`
	F457905322    *uint64                `protobuf:"fixed64,457905322,opt,name=f457905322" json:"f457905322,omitempty"`
	F910          map[bool]uint64        `protobuf:"bytes,910,rep,name=f910" json:"f910,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value"`
	F1005         map[uint32]E           `protobuf:"bytes,1005,rep,name=f1005" json:"f1005,omitempty" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"varint,2,opt,name=value,enum=fxpb.E"`
	F262144       uint64                 `protobuf:"varint,262144,opt,name=f262144" json:"f262144,omitempty"`
	F3            map[int32]E            `protobuf:"bytes,3,rep,name=f3" json:"f3,omitempty" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"varint,2,opt,name=value,enum=fxpb.E"`
	unknownFields protoimpl.UnknownFields
	sizeCache     protoimpl.SizeCache
}

func (x *S22M3) Reset() {
	*x = S22M3{}
	mi := &file_fxpb_proto_msgTypes[91]
	ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
	ms.StoreMessageInfo(mi)
}

func (x *S22M3) String() string {
	return protoimpl.X.MessageStringOf(x)
}

func (*S22M3) ProtoMessage() {}

func (x *S22M3) ProtoReflect() protoreflect.Message {
	mi := &file_fxpb_proto_msgTypes[91]
	if x != nil {
		ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
		if ms.LoadMessageInfo() == nil {
			ms.StoreMessageInfo(mi)
		}
		return ms
	}
	return mi.MessageOf(x)
}

// Deprecated: Use S22M3.ProtoReflect.Descriptor instead.
func (*S22M3) Descriptor() ([]byte, []int) {
	return file_fxpb_proto_rawDescGZIP(), []int{91}
}

func (x *S22M3) GetF6() bool {
	if x != nil && x.F6 != nil {
		return *x.F6
	}
	return false
}

func (x *S22M3) GetF457905322() uint64 {
	if x != nil && x.F457905322 != nil {
		return *x.F457905322
	}
	return 0
}

func (x *S22M3) GetF910() map[bool]uint64 {
	if x != nil {
		return x.F910
	}
	return nil
}

func (x *S22M3) GetF1005() map[uint32]E {
	if x != nil {
		return x.F1005
	}
	return nil
}

func (x *S22M3) GetF262144() uint64 {
	if x != nil {
		return x.F262144
	}
	return 0
}

func (x *S22M3) GetF3() map[int32]E {
	if x != nil {
		return x.F3
	}
	return nil
}

type S23M1 struct {
	state         protoimpl.MessageState `protogen:"open.v1"`
	F15           bool                   `protobuf:"varint,15,opt,name=f15" json:"f15,omitempty"`
	unknownFields protoimpl.UnknownFields
	sizeCache     protoimpl.SizeCache
}

func (x *S23M1) Reset() {
	*x = S23M1{}
	mi := &file_fxpb_proto_msgTypes[92]
	ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
	ms.StoreMessageInfo(mi)
}

func (x *S23M1) String() string {
	return protoimpl.X.MessageStringOf(x)
}

func (*S23M1) ProtoMessage() {}

func (x *S23M1) ProtoReflect() protoreflect.Message {
	mi := &file_fxpb_proto_msgTypes[92]
	if x != nil {
		ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
		if ms.LoadMessageInfo() == nil {
			ms.StoreMessageInfo(mi)
		}
		return ms
	}
	return mi.MessageOf(x)
}

// Deprecated: Use S23M1.ProtoReflect.Descriptor instead.
func (*S23M1) Descriptor() ([]byte, []int) {
	return file_fxpb_proto_rawDescGZIP(), []int{92}
}

func (x *S23M1) GetF15() bool {
	if x != nil {
		return x.F15
	}
	return false
}

type S24M1 struct {
	state protoimpl.MessageState `protogen:"open.v1"`
	F1006 E                      `protobuf:"varint,1006,opt,name=f1006,enum=fxpb.E" json:"f1006,omitempty"`
	F326  *S24M2                 `protobuf:"bytes,326,opt,name=f326" json:"f326,omitempty"`
	F4    map[int64]*S24M5       `protobuf:"bytes,4,rep,name=f4" json:"f4,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	F3    map[int64]float64      `protobuf:"bytes,3,rep,name=f3" json:"f3,omitempty" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value"`
	F18   map[int32]*S24M6       `protobuf:"bytes,18,rep,name=f18" json:"f18,omitempty" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	F71   *S24M5                 `protobuf:"bytes,71,opt,name=f71" json:"f71,omitempty"`
	F999  []E                    `protobuf:"varint,999,rep,name=f999,enum=fxpb.E" json:"f999,omitempty"`
	F33   [][]byte               `protobuf:"bytes,33,rep,name=f33" json:"f33,omitempty"`
	F1003 []*S24M9               `protobuf:"bytes,1003,rep,name=f1003" json:"f1003,omitempty"`
	// Types that are valid to be assigned to O0:
	//
	//	*S24M1_F1000
	O0            isS24M1_O0 `protobuf_oneof:"o0"`
	unknownFields protoimpl.UnknownFields
	sizeCache     protoimpl.SizeCache
}

func (x *S24M1) Reset() {
	*x = S24M1{}
	mi := &file_fxpb_proto_msgTypes[93]
	ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
	ms.StoreMessageInfo(mi)
}

func (x *S24M1) String() string {
	return protoimpl.X.MessageStringOf(x)
}

func (*S24M1) ProtoMessage() {}

func (x *S24M1) ProtoReflect() protoreflect.Message {
	mi := &file_fxpb_proto_msgTypes[93]
	if x != nil {
		ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
		if ms.LoadMessageInfo() == nil {
			ms.StoreMessageInfo(mi)
		}
		return ms
	}
	return mi.MessageOf(x)
}

// Deprecated: Use S24M1.ProtoReflect.Descriptor instead.
func (*S24M1) Descriptor() ([]byte, []int) {
	return file_fxpb_proto_rawDescGZIP(), []int{93}
}

func (x *S24M1) GetF1006() E {
	if x != nil {
		return x.F1006
	}
	return E_E_ZERO
}

func (x *S24M1) GetF326() *S24M2 {
	if x != nil {
		return x.F326
	}
	return nil
}

func (x *S24M1) GetF4() map[int64]*S24M5 {
	if x != nil {
		return x.F4
	}
	return nil
}

func (x *S24M1) GetF3() map[int64]float64 {
	if x != nil {
		return x.F3
	}
	return nil
}

func (x *S24M1) GetF18() map[int32]*S24M6 {
	if x != nil {
		return x.F18
	}
	return nil
}

func (x *S24M1) GetF71() *S24M5 {
	if x != nil {
		return x.F71
	}
	return nil
}

func (x *S24M1) GetF999() []E {
	if x != nil {
		return x.F999
	}
	return nil
}

func (x *S24M1) GetF33() [][]byte {
	if x != nil {
		return x.F33
	}
	return nil
}

func (x *S24M1) GetF1003() []*S24M9 {
	if x != nil {
		return x.F1003
	}
	return nil
}

func (x *S24M1) GetO0() isS24M1_O0 {
	if x != nil {
		return x.O0
	}
	return nil
}

func (x *S24M1) GetF1000() float64 {
	if x != nil {
		if x, ok := x.O0.(*S24M1_F1000); ok {
			return x.F1000
		}
	}
	return 0
}

type isS24M1_O0 interface {
	isS24M1_O0()
}

type S24M1_F1000 struct {
	F1000 float64 `protobuf:"fixed64,1000,opt,name=f1000,oneof"`
}

func (*S24M1_F1000) isS24M1_O0() {}

type S24M2 struct {
	state         protoimpl.MessageState `protogen:"open.v1"`
	F7            []*S24M3               `protobuf:"bytes,7,rep,name=f7" json:"f7,omitempty"`
	F481          *E                     `protobuf:"varint,481,opt,name=f481,enum=fxpb.E" json:"f481,omitempty"`
	F5            *uint64                `protobuf:"fixed64,5,opt,name=f5" json:"f5,omitempty"`
	F4            map[int32]int64        `protobuf:"bytes,4,rep,name=f4" json:"f4,omitempty" protobuf_key:"zigzag32,1,opt,name=key" protobuf_val:"zigzag64,2,opt,name=value"`
	F20000        *S24M4                 `protobuf:"bytes,20000,opt,name=f20000" json:"f20000,omitempty"`
	F2047         map[uint32]uint64      `protobuf:"bytes,2047,rep,name=f2047" json:"f2047,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	unknownFields protoimpl.UnknownFields
	sizeCache     protoimpl.SizeCache
}

func (x *S24M2) Reset() {
	*x = S24M2{}
	mi := &file_fxpb_proto_msgTypes[94]
	ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
	ms.StoreMessageInfo(mi)
}

func (x *S24M2) String() string {
	return protoimpl.X.MessageStringOf(x)
}

func (*S24M2) ProtoMessage() {}

func (x *S24M2) ProtoReflect() protoreflect.Message {
	mi := &file_fxpb_proto_msgTypes[94]
	if x != nil {
		ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
		if ms.LoadMessageInfo() == nil {
			ms.StoreMessageInfo(mi)
		}
		return ms
	}
	return mi.MessageOf(x)
}

// Deprecated: Use S24M2.ProtoReflect.Descriptor instead.
func (*S24M2) Descriptor() ([]byte, []int) {
	return file_fxpb_proto_rawDescGZIP(), []int{94}
}

func (x *S24M2) GetF7() []*S24M3 {
	if x != nil {
		return x.F7
	}
	return nil
}

func (x *S24M2) GetF481() E {
	if x != nil && x.F481 != nil {
		return *x.F481
	}
	return E_E_ZERO
}

func (x *S24M2) GetF5() uint64 {
	if x != nil && x.F5 != nil {
		return *x.F5
	}
	return 0
}

func (x *S24M2) GetF4() map[int32]int64 {
	if x != nil {
		return x.F4
	}
	return nil
}

func (x *S24M2) GetF20000() *S24M4 {
	if x != nil {
		return x.F20000
	}
	return nil
}

func (x *S24M2) GetF2047() map[uint32]uint64 {
	if x != nil {
		return x.F2047
	}
	return nil
}

type S24M3 struct {
	state         protoimpl.MessageState `protogen:"open.v1"`
	F1013         map[int64]bool         `protobuf:"bytes,1013,rep,name=f1013" json:"f1013,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	unknownFields protoimpl.UnknownFields
	sizeCache     protoimpl.SizeCache
}

func (x *S24M3) Reset() {
	*x = S24M3{}
	mi := &file_fxpb_proto_msgTypes[95]
	ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
	ms.StoreMessageInfo(mi)
}

func (x *S24M3) String() string {
	return protoimpl.X.MessageStringOf(x)
}

func (*S24M3) ProtoMessage() {}

func (x *S24M3) ProtoReflect() protoreflect.Message {
	mi := &file_fxpb_proto_msgTypes[95]
	if x != nil {
		ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
		if ms.LoadMessageInfo() == nil {
			ms.StoreMessageInfo(mi)
		}
		return ms
	}
	return mi.MessageOf(x)
}

// Deprecated: Use S24M3.ProtoReflect.Descriptor instead.
func (*S24M3) Descriptor() ([]byte, []int) {
	return file_fxpb_proto_rawDescGZIP(), []int{95}
}

func (x *S24M3) GetF1013() map[int64]bool {
	if x != nil {
		return x.F1013
	}
	return nil
}

type S24M4 struct {
	state protoimpl.MessageState `protogen:"open.v1"`
	F877  int32                  `protobuf:"zigzag32,877,opt,name=f877" json:"f877,omitempty"`
	F628  *string                `protobuf:"bytes,628,opt,name=f628" json:"f628,omitempty"`
	F388  uint32                 `protobuf:"fixed32,388,opt,name=f388" json:"f388,omitempty"`
	// Types that are valid to be assigned to O0:
	//
	//	*S24M4_F1005
	O0            isS24M4_O0 `protobuf_oneof:"o0"`
	unknownFields protoimpl.UnknownFields
	sizeCache     protoimpl.SizeCache
}

func (x *S24M4) Reset() {
	*x = S24M4{}
	mi := &file_fxpb_proto_msgTypes[96]
	ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
	ms.StoreMessageInfo(mi)
}

func (x *S24M4) String() string {
	return protoimpl.X.MessageStringOf(x)
}

func (*S24M4) ProtoMessage() {}

func (x *S24M4) ProtoReflect() protoreflect.Message {
	mi := &file_fxpb_proto_msgTypes[96]
	if x != nil {
		ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
		if ms.LoadMessageInfo() == nil {
			ms.StoreMessageInfo(mi)
		}
		return ms
	}
	return mi.MessageOf(x)
}

// Deprecated: Use S24M4.ProtoReflect.Descriptor instead.
func (*S24M4) Descriptor() ([]byte, []int) {
	return file_fxpb_proto_rawDescGZIP(), []int{96}
}

func (x *S24M4) GetF877() int32 {
	if x != nil {
		return x.F877
	}
	return 0
}

func (x *S24M4) GetF628() string {
	if x != nil && x.F628 != nil {
		return *x.F628
	}
	return ""
}

func (x *S24M4) GetF388() uint32 {
	if x != nil {
		return x.F388
	}
	return 0
}

func (x *S24M4) GetO0() isS24M4_O0 {
	if x != nil {
		return x.O0
	}
	return nil
}

func (x *S24M4) GetF1005() uint32 {
	if x != nil {
		if x, ok := x.O0.(*S24M4_F1005); ok {
			return x.F1005
		}
	}
	return 0
}

type isS24M4_O0 interface {
	isS24M4_O0()
}

type S24M4_F1005 struct {
	F1005 uint32 `protobuf:"varint,1005,opt,name=f1005,oneof"`
}

func (*S24M4_F1005) isS24M4_O0() {}

type S24M5 struct {
	state protoimpl.MessageState `protogen:"open.v1"`
	F4    []uint32               `protobuf:"fixed32,4,rep,packed,name=f4" json:"f4,omitempty"`
	F8    []uint64               `protobuf:"fixed64,8,rep,packed,name=f8" json:"f8,omitempty"`
	F998  []string               `protobuf:"bytes,998,rep,name=f998" json:"f998,omitempty"`
	F1002 []int64                `protobuf:"varint,1002,rep,name=f1002" json:"f1002,omitempty"`
	// Types that are valid to be assigned to O0:
	//
	//	*S24M5_F1003
	O0            isS24M5_O0 `protobuf_oneof:"o0"`
	unknownFields protoimpl.UnknownFields
	sizeCache     protoimpl.SizeCache
}

func (x *S24M5) Reset() {
	*x = S24M5{}
	mi := &file_fxpb_proto_msgTypes[97]
	ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
	ms.StoreMessageInfo(mi)
}

func (x *S24M5) String() string {
	return protoimpl.X.MessageStringOf(x)
}

func (*S24M5) ProtoMessage() {}

func (x *S24M5) ProtoReflect() protoreflect.Message {
	mi := &file_fxpb_proto_msgTypes[97]
	if x != nil {
		ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
		if ms.LoadMessageInfo() == nil {
			ms.StoreMessageInfo(mi)
		}
		return ms
	}
	return mi.MessageOf(x)
}

// Deprecated: Use S24M5.ProtoReflect.Descriptor instead.
func (*S24M5) Descriptor() ([]byte, []int) {
	return file_fxpb_proto_rawDescGZIP(), []int{97}
}

func (x *S24M5) GetF4() []uint32 {
	if x != nil {
		return x.F4
	}
	return nil
}

func (x *S24M5) GetF8() []uint64 {
	if x != nil {
		return x.F8
	}
	return nil
}

func (x *S24M5) GetF998() []string {
	if x != nil {
		return x.F998
	}
	return nil
}

func (x *S24M5) GetF1002() []int64 {
	if x != nil {
		return x.F1002
	}
	return nil
}

func (x *S24M5) GetO0() isS24M5_O0 {
	if x != nil {
		return x.O0
	}
	return nil
}

func (x *S24M5) GetF1003() []byte {
	if x != nil {
		if x, ok := x.O0.(*S24M5_F1003); ok {
			return x.F1003
		}
	}
	return nil
}

type isS24M5_O0 interface {
	isS24M5_O0()
}

type S24M5_F1003 struct {
	F1003 []byte `protobuf:"bytes,1003,opt,name=f1003,oneof"`
}

func (*S24M5_F1003) isS24M5_O0() {}

type S24M6 struct {
	state protoimpl.MessageState `protogen:"open.v1"`
	F1    map[int64]*S24M7       `protobuf:"bytes,1,rep,name=f1" json:"f1,omitempty" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	F15   *S24M8                 `protobuf:"bytes,15,opt,name=f15" json:"f15,omitempty"`
	// Types that are valid to be assigned to O0:
	//
	//	*S24M6_F14
	//	*S24M6_F4
	O0            isS24M6_O0 `protobuf_oneof:"o0"`
	unknownFields protoimpl.UnknownFields
	sizeCache     protoimpl.SizeCache
}

func (x *S24M6) Reset() {
	*x = S24M6{}
	mi := &file_fxpb_proto_msgTypes[98]
	ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
	ms.StoreMessageInfo(mi)
}

func (x *S24M6) String() string {
	return protoimpl.X.MessageStringOf(x)
}

func (*S24M6) ProtoMessage() {}

func (x *S24M6) ProtoReflect() protoreflect.Message {
	mi := &file_fxpb_proto_msgTypes[98]
	if x != nil {
		ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
		if ms.LoadMessageInfo() == nil {
			ms.StoreMessageInfo(mi)
		}
		return ms
	}
	return mi.MessageOf(x)
}

// Deprecated: Use S24M6.ProtoReflect.Descriptor instead.
func (*S24M6) Descriptor() ([]byte, []int) {
	return file_fxpb_proto_rawDescGZIP(), []int{98}
}

func (x *S24M6) GetF1() map[int64]*S24M7 {
	if x != nil {
		return x.F1
	}
	return nil
}

func (x *S24M6) GetF15() *S24M8 {
	if x != nil {
		return x.F15
	}
	return nil
}

func (x *S24M6) GetO0() isS24M6_O0 {
	if x != nil {
		return x.O0
	}
	return nil
}

func (x *S24M6) GetF14() []byte {
	if x != nil {
		if x, ok := x.O0.(*S24M6_F14); ok {
			return x.F14
		}
	}
	return nil
}

func (x *S24M6) GetF4() int64 {
	if x != nil {
		if x, ok := x.O0.(*S24M6_F4); ok {
			return x.F4
		}
	}
	return 0
}

type isS24M6_O0 interface {
	isS24M6_O0()
}

type S24M6_F14 struct {
	F14 []byte `protobuf:"bytes,14,opt,name=f14,oneof"`
}

type S24M6_F4 struct {
	F4 int64 `protobuf:"zigzag64,4,opt,name=f4,oneof"`
}

func (*S24M6_F14) isS24M6_O0() {}

func (*S24M6_F4) isS24M6_O0() {}

type S24M7 struct {
	state      protoimpl.MessageState `protogen:"open.v1"`
	F511       []uint64               `protobuf:"fixed64,511,rep,name=f511" json:"f511,omitempty"`
	F6         []uint32               `protobuf:"varint,6,rep,name=f6" json:"f6,omitempty"`
	F536870910 *int32                 `protobuf:"fixed32,536870910,opt,name=f536870910" json:"f536870910,omitempty"`
	F262144    *int64                 `protobuf:"zigzag64,262144,opt,name=f262144" json:"f262144,omitempty"`
	F9         []int32                `protobuf:"zigzag32,9,rep,name=f9" json:"f9,omitempty"`
	// Types that are valid to be assigned to O0:
	//
	//	*S24M7_F12
	//	*S24M7_F13
	O0            isS24M7_O0 `protobuf_oneof:"o0"`
	unknownFields protoimpl.UnknownFields
	sizeCache     protoimpl.SizeCache
}

func (x *S24M7) Reset() {
	*x = S24M7{}
	mi := &file_fxpb_proto_msgTypes[99]
	ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
	ms.StoreMessageInfo(mi)
}

func (x *S24M7) String() string {
	return protoimpl.X.MessageStringOf(x)
}

func (*S24M7) ProtoMessage() {}

func (x *S24M7) ProtoReflect() protoreflect.Message {
	mi := &file_fxpb_proto_msgTypes[99]
	if x != nil {
		ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
		if ms.LoadMessageInfo() == nil {
			ms.StoreMessageInfo(mi)
		}
		return ms
	}
	return mi.MessageOf(x)
}

// Deprecated: Use S24M7.ProtoReflect.Descriptor instead.
func (*S24M7) Descriptor() ([]byte, []int) {
	return file_fxpb_proto_rawDescGZIP(), []int{99}
}

func (x *S24M7) GetF511() []uint64 {
	if x != nil {
		return x.F511
	}
	return nil
}

func (x *S24M7) GetF6() []uint32 {
	if x != nil {
		return x.F6
	}
	return nil
}

func (x *S24M7) GetF536870910() int32 {
	if x != nil && x.F536870910 != nil {
		return *x.F536870910
	}
	return 0
}

func (x *S24M7) GetF262144() int64 {
	if x != nil && x.F262144 != nil {
		return *x.F262144
	}
	return 0
}

func (x *S24M7) GetF9() []int32 {
	if x != nil {
		return x.F9
	}
	return nil
}

func (x *S24M7) GetO0() isS24M7_O0 {
	if x != nil {
		return x.O0
	}
	return nil
}

func (x *S24M7) GetF12() int32 {
	if x != nil {
		if x, ok := x.O0.(*S24M7_F12); ok {
			return x.F12
		}
	}
	return 0
}

func (x *S24M7) GetF13() bool {
	if x != nil {
		if x, ok := x.O0.(*S24M7_F13); ok {
			return x.F13
		}
	}
	return false
}

type isS24M7_O0 interface {
	isS24M7_O0()
}

type S24M7_F12 struct {
	F12 int32 `protobuf:"varint,12,opt,name=f12,oneof"`
}

type S24M7_F13 struct {
	F13 bool `protobuf:"varint,13,opt,name=f13,oneof"`
}

func (*S24M7_F12) isS24M7_O0() {}

func (*S24M7_F13) isS24M7_O0() {}

type S24M8 struct {
	state         protoimpl.MessageState `protogen:"open.v1"`
	F31           *int32                 `protobuf:"fixed32,31,opt,name=f31" json:"f31,omitempty"`
	unknownFields protoimpl.UnknownFields
	sizeCache     protoimpl.SizeCache
}

func (x *S24M8) Reset() {
	*x = S24M8{}
	mi := &file_fxpb_proto_msgTypes[100]
	ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
	ms.StoreMessageInfo(mi)
}

func (x *S24M8) String() string {
	return protoimpl.X.MessageStringOf(x)
}

func (*S24M8) ProtoMessage() {}

func (x *S24M8) ProtoReflect() protoreflect.Message {
	mi := &file_fxpb_proto_msgTypes[100]
	if x != nil {
		ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
		if ms.LoadMessageInfo() == nil {
			ms.StoreMessageInfo(mi)
		}
		return ms
	}
	return mi.MessageOf(x)
}

// Deprecated: Use S24M8.ProtoReflect.Descriptor instead.
func (*S24M8) Descriptor() ([]byte, []int) {
	return file_fxpb_proto_rawDescGZIP(), []int{100}
}

func (x *S24M8) GetF31() int32 {
	if x != nil && x.F31 != nil {
		return *x.F31
	}
	return 0
}

type S24M9 struct {
	state      protoimpl.MessageState `protogen:"open.v1"`
	F7         map[int32]int64        `protobuf:"bytes,7,rep,name=f7" json:"f7,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	F9         *int32                 `protobuf:"fixed32,9,opt,name=f9" json:"f9,omitempty"`
	F536870911 uint32                 `protobuf:"fixed32,536870911,opt,name=f536870911" json:"f536870911,omitempty"`
	F11        *int32                 `protobuf:"varint,11,req,name=f11" json:"f11,omitempty"`
	F1006      []int32                `protobuf:"zigzag32,1006,rep,packed,name=f1006" json:"f1006,omitempty"`
	F25        uint64                 `protobuf:"fixed64,25,opt,name=f25" json:"f25,omitempty"`
	// Types that are valid to be assigned to O0:
	//
	//	*S24M9_F26
	//	*S24M9_F10
	O0            isS24M9_O0 `protobuf_oneof:"o0"`
	unknownFields protoimpl.UnknownFields
	sizeCache     protoimpl.SizeCache
}

func (x *S24M9) Reset() {
	*x = S24M9{}
	mi := &file_fxpb_proto_msgTypes[101]
	ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
	ms.StoreMessageInfo(mi)
}

func (x *S24M9) String() string {
	return protoimpl.X.MessageStringOf(x)
}

func (*S24M9) ProtoMessage() {}

func (x *S24M9) ProtoReflect() protoreflect.Message {
	mi := &file_fxpb_proto_msgTypes[101]
	if x != nil {
		ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
		if ms.LoadMessageInfo() == nil {
			ms.StoreMessageInfo(mi)
		}
		return ms
	}
	return mi.MessageOf(x)
}

// Deprecated: Use S24M9.ProtoReflect.Descriptor instead.
func (*S24M9) Descriptor() ([]byte, []int) {
	return file_fxpb_proto_rawDescGZIP(), []int{101}
}

func (x *S24M9) GetF7() map[int32]int64 {
	if x != nil {
		return x.F7
	}
	return nil
}

func (x *S24M9) GetF9() int32 {
	if x != nil && x.F9 != nil {
		return *x.F9
	}
	return 0
}

func (x *S24M9) GetF536870911() uint32 {
	if x != nil {
		return x.F536870911
	}
	return 0
}

func (x *S24M9) GetF11() int32 {
	if x != nil && x.F11 != nil {
		return *x.F11
	}
	return 0
}

func (x *S24M9) GetF1006() []int32 {
	if x != nil {
		return x.F1006
	}
	return nil
}

func (x *S24M9) GetF25() uint64 {
	if x != nil {
		return x.F25
	}
	return 0
}

func (x *S24M9) GetO0() isS24M9_O0 {
	if x != nil {
		return x.O0
	}
	return nil
}

func (x *S24M9) GetF26() *S24M10 {
	if x != nil {
		if x, ok := x.O0.(*S24M9_F26); ok {
			return x.F26
		}
	}
	return nil
}

func (x *S24M9) GetF10() []byte {
	if x != nil {
		if x, ok := x.O0.(*S24M9_F10); ok {
			return x.F10
		}
	}
	return nil
}

type isS24M9_O0 interface {
	isS24M9_O0()
}

type S24M9_F26 struct {
	F26 *S24M10 `protobuf:"bytes,26,opt,name=f26,oneof"`
}

type S24M9_F10 struct {
	F10 []byte `protobuf:"bytes,10,opt,name=f10,oneof"`
}

func (*S24M9_F26) isS24M9_O0() {}

func (*S24M9_F10) isS24M9_O0() {}

type S24M10 struct {
	state protoimpl.MessageState `protogen:"open.v1"`
	F15   *string                `protobuf:"bytes,15,opt,name=f15" json:"f15,omitempty"`
	F6    map[uint64][]byte      `protobuf:"bytes,6,rep,name=f6" json:"f6,omitempty" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	F11   []int32                `protobuf:"fixed32,11,rep,packed,name=f11" json:"f11,omitempty"`
	F4    []int64                `protobuf:"zigzag64,4,rep,name=f4" json:"f4,omitempty"`
	F24   *int64                 `protobuf:"zigzag64,24,opt,name=f24" json:"f24,omitempty"`
	F1    []byte                 `protobuf:"bytes,1,opt,name=f1" json:"f1,omitempty"`
	// Types that are valid to be assigned to O0:
	//
	//	*S24M10_F40
	O0 isS24M10_O0 `protobuf_oneof:"o0"`
	// Types that are valid to be assigned to O1:
	//
	//	*S24M10_F3
	O1            isS24M10_O1 `protobuf_oneof:"o1"`
	unknownFields protoimpl.UnknownFields
	sizeCache     protoimpl.SizeCache
}

func (x *S24M10) Reset() {
	*x = S24M10{}
	mi := &file_fxpb_proto_msgTypes[102]
	ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
	ms.StoreMessageInfo(mi)
}

func (x *S24M10) String() string {
	return protoimpl.X.MessageStringOf(x)
}

func (*S24M10) ProtoMessage() {}

func (x *S24M10) ProtoReflect() protoreflect.Message {
	mi := &file_fxpb_proto_msgTypes[102]
	if x != nil {
		ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
		if ms.LoadMessageInfo() == nil {
			ms.StoreMessageInfo(mi)
		}
		return ms
	}
	return mi.MessageOf(x)
}

// Deprecated: Use S24M10.ProtoReflect.Descriptor instead.
func (*S24M10) Descriptor() ([]byte, []int) {
	return file_fxpb_proto_rawDescGZIP(), []int{102}
}

func (x *S24M10) GetF15() string {
	if x != nil && x.F15 != nil {
		return *x.F15
	}
	return ""
}

func (x *S24M10) GetF6() map[uint64][]byte {
	if x != nil {
		return x.F6
	}
	return nil
}

func (x *S24M10) GetF11() []int32 {
	if x != nil {
		return x.F11
	}
	return nil
}

func (x *S24M10) GetF4() []int64 {
	if x != nil {
		return x.F4
	}
	return nil
}

func (x *S24M10) GetF24() int64 {
	if x != nil && x.F24 != nil {
		return *x.F24
	}
	return 0
}

func (x *S24M10) GetF1() []byte {
	if x != nil {
		return x.F1
	}
	return nil
}

func (x *S24M10) GetO0() isS24M10_O0 {
	if x != nil {
		return x.O0
	}
	return nil
}

func (x *S24M10) GetF40() string {
	if x != nil {
		if x, ok := x.O0.(*S24M10_F40); ok {
			return x.F40
		}
	}
	return ""
}

func (x *S24M10) GetO1() isS24M10_O1 {
	if x != nil {
		return x.O1
	}
	return nil
}

func (x *S24M10) GetF3() float64 {
	if x != nil {
		if x, ok := x.O1.(*S24M10_F3); ok {
			return x.F3
		}
	}
	return 0
}

type isS24M10_O0 interface {
	isS24M10_O0()
}

type S24M10_F40 struct {
	F40 string `protobuf:"bytes,40,opt,name=f40,oneof"`
}

func (*S24M10_F40) isS24M10_O0() {}

type isS24M10_O1 interface {
	isS24M10_O1()
}

type S24M10_F3 struct {
	F3 float64 `protobuf:"fixed64,3,opt,name=f3,oneof"`
}

func (*S24M10_F3) isS24M10_O1() {}

type S25M1 struct {
	state         protoimpl.MessageState `protogen:"open.v1"`
	F310          *uint32                `protobuf:"fixed32,310,opt,name=f310" json:"f310,omitempty"`
	unknownFields protoimpl.UnknownFields
	sizeCache     protoimpl.SizeCache
}

func (x *S25M1) Reset() {
	*x = S25M1{}
	mi := &file_fxpb_proto_msgTypes[103]
	ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
	ms.StoreMessageInfo(mi)
}

func (x *S25M1) String() string {
	return protoimpl.X.MessageStringOf(x)
}

func (*S25M1) ProtoMessage() {}

func (x *S25M1) ProtoReflect() protoreflect.Message {
	mi := &file_fxpb_proto_msgTypes[103]
	if x != nil {
		ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
		if ms.LoadMessageInfo() == nil {
			ms.StoreMessageInfo(mi)
		}
		return ms
	}
	return mi.MessageOf(x)
}

// Deprecated: Use S25M1.ProtoReflect.Descriptor instead.
func (*S25M1) Descriptor() ([]byte, []int) {
	return file_fxpb_proto_rawDescGZIP(), []int{103}
}

func (x *S25M1) GetF310() uint32 {
	if x != nil && x.F310 != nil {
		return *x.F310
	}
	return 0
}

type S26M1 struct {
	state         protoimpl.MessageState `protogen:"open.v1"`
	F13           *bool                  `protobuf:"varint,13,opt,name=f13" json:"f13,omitempty"`
	F2            map[int64]string       `protobuf:"bytes,2,rep,name=f2" json:"f2,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	F468529711    []byte                 `protobuf:"bytes,468529711,opt,name=f468529711" json:"f468529711,omitempty"`
	F104          map[int64]int32        `protobuf:"bytes,104,rep,name=f104" json:"f104,omitempty" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	F22           []float64              `protobuf:"fixed64,22,rep,name=f22" json:"f22,omitempty"`
	F38           map[int32]uint64       `protobuf:"bytes,38,rep,name=f38" json:"f38,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	unknownFields protoimpl.UnknownFields
	sizeCache     protoimpl.SizeCache
}

func (x *S26M1) Reset() {
	*x = S26M1{}
	mi := &file_fxpb_proto_msgTypes[104]
	ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
	ms.StoreMessageInfo(mi)
}

func (x *S26M1) String() string {
	return protoimpl.X.MessageStringOf(x)
}

func (*S26M1) ProtoMessage() {}

func (x *S26M1) ProtoReflect() protoreflect.Message {
	mi := &file_fxpb_proto_msgTypes[104]
	if x != nil {
		ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
		if ms.LoadMessageInfo() == nil {
			ms.StoreMessageInfo(mi)
		}
		return ms
	}
	return mi.MessageOf(x)
}

// Deprecated: Use S26M1.ProtoReflect.Descriptor instead.
func (*S26M1) Descriptor() ([]byte, []int) {
	return file_fxpb_proto_rawDescGZIP(), []int{104}
}

func (x *S26M1) GetF13() bool {
	if x != nil && x.F13 != nil {
		return *x.F13
	}
	return false
}

func (x *S26M1) GetF2() map[int64]string {
	if x != nil {
		return x.F2
	}
	return nil
}

func (x *S26M1) GetF468529711() []byte {
	if x != nil {
		return x.F468529711
	}
	return nil
}

func (x *S26M1) GetF104() map[int64]int32 {
	if x != nil {
		return x.F104
	}
	return nil
}

func (x *S26M1) GetF22() []float64 {
	if x != nil {
		return x.F22
	}
	return nil
}

func (x *S26M1) GetF38() map[int32]uint64 {
	if x != nil {
		return x.F38
	}
	return nil
}

type S27M1 struct {
	state         protoimpl.MessageState `protogen:"open.v1"`
	F618          map[int32][]byte       `protobuf:"bytes,618,rep,name=f618" json:"f618,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	unknownFields protoimpl.UnknownFields
	sizeCache     protoimpl.SizeCache
}

func (x *S27M1) Reset() {
	*x = S27M1{}
	mi := &file_fxpb_proto_msgTypes[105]
	ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
	ms.StoreMessageInfo(mi)
}

func (x *S27M1) String() string {
	return protoimpl.X.MessageStringOf(x)
}

func (*S27M1) ProtoMessage() {}

func (x *S27M1) ProtoReflect() protoreflect.Message {
	mi := &file_fxpb_proto_msgTypes[105]
	if x != nil {
		ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
		if ms.LoadMessageInfo() == nil {
			ms.StoreMessageInfo(mi)
		}
		return ms
	}
	return mi.MessageOf(x)
}

// Deprecated: Use S27M1.ProtoReflect.Descriptor instead.
func (*S27M1) Descriptor() ([]byte, []int) {
	return file_fxpb_proto_rawDescGZIP(), []int{105}
}

func (x *S27M1) GetF618() map[int32][]byte {
	if x != nil {
		return x.F618
	}
	return nil
}

type S28M1 struct {
	state         protoimpl.MessageState `protogen:"open.v1"`
	unknownFields protoimpl.UnknownFields
	sizeCache     protoimpl.SizeCache
}

func (x *S28M1) Reset() {
	*x = S28M1{}
	mi := &file_fxpb_proto_msgTypes[106]
	ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
	ms.StoreMessageInfo(mi)
}

func (x *S28M1) String() string {
	return protoimpl.X.MessageStringOf(x)
}

func (*S28M1) ProtoMessage() {}

func (x *S28M1) ProtoReflect() protoreflect.Message {
	mi := &file_fxpb_proto_msgTypes[106]
	if x != nil {
		ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
		if ms.LoadMessageInfo() == nil {
			ms.StoreMessageInfo(mi)
		}
		return ms
	}
	return mi.MessageOf(x)
}

// Deprecated: Use S28M1.ProtoReflect.Descriptor instead.
func (*S28M1) Descriptor() ([]byte, []int) {
	return file_fxpb_proto_rawDescGZIP(), []int{106}
}

type S29M1 struct {
	state         protoimpl.MessageState `protogen:"open.v1"`
	F8            *float64               `protobuf:"fixed64,8,opt,name=f8" json:"f8,omitempty"`
	F12           []E                    `protobuf:"varint,12,rep,packed,name=f12,enum=fxpb.E" json:"f12,omitempty"`
	F2            []int64                `protobuf:"zigzag64,2,rep,packed,name=f2" json:"f2,omitempty"`
	unknownFields protoimpl.UnknownFields
	sizeCache     protoimpl.SizeCache
}

func (x *S29M1) Reset() {
	*x = S29M1{}
	mi := &file_fxpb_proto_msgTypes[107]
	ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
	ms.StoreMessageInfo(mi)
}

func (x *S29M1) String() string {
	return protoimpl.X.MessageStringOf(x)
}

func (*S29M1) ProtoMessage() {}

func (x *S29M1) ProtoReflect() protoreflect.Message {
	mi := &file_fxpb_proto_msgTypes[107]
	if x != nil {
		ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
		if ms.LoadMessageInfo() == nil {
			ms.StoreMessageInfo(mi)
		}
		return ms
	}
	return mi.MessageOf(x)
}

// Deprecated: Use S29M1.ProtoReflect.Descriptor instead.
func (*S29M1) Descriptor() ([]byte, []int) {
	return file_fxpb_proto_rawDescGZIP(), []int{107}
}

func (x *S29M1) GetF8() float64 {
	if x != nil && x.F8 != nil {
		return *x.F8
	}
	return 0
}

func (x *S29M1) GetF12() []E {
	if x != nil {
		return x.F12
	}
	return nil
}

func (x *S29M1) GetF2() []int64 {
	if x != nil {
		return x.F2
	}
	return nil
}

type S30M1 struct {
	state         protoimpl.MessageState `protogen:"open.v1"`
	F8            *uint64                `protobuf:"fixed64,8,opt,name=f8" json:"f8,omitempty"`
	unknownFields protoimpl.UnknownFields
	sizeCache     protoimpl.SizeCache
}

func (x *S30M1) Reset() {
	*x = S30M1{}
	mi := &file_fxpb_proto_msgTypes[108]
	ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
	ms.StoreMessageInfo(mi)
}

func (x *S30M1) String() string {
	return protoimpl.X.MessageStringOf(x)
}

func (*S30M1) ProtoMessage() {}

func (x *S30M1) ProtoReflect() protoreflect.Message {
	mi := &file_fxpb_proto_msgTypes[108]
	if x != nil {
		ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
		if ms.LoadMessageInfo() == nil {
			ms.StoreMessageInfo(mi)
		}
		return ms
	}
	return mi.MessageOf(x)
}

// Deprecated: Use S30M1.ProtoReflect.Descriptor instead.
func (*S30M1) Descriptor() ([]byte, []int) {
	return file_fxpb_proto_rawDescGZIP(), []int{108}
}

func (x *S30M1) GetF8() uint64 {
	if x != nil && x.F8 != nil {
		return *x.F8
	}
	return 0
}

type S31M1 struct {
	state     protoimpl.MessageState `protogen:"open.v1"`
	F12       map[int32]int64        `protobuf:"bytes,12,rep,name=f12" json:"f12,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"zigzag64,2,opt,name=value"`
	F3        *uint64                `protobuf:"fixed64,3,opt,name=f3" json:"f3,omitempty"`
	F9        map[uint64]uint32      `protobuf:"bytes,9,rep,name=f9" json:"f9,omitempty" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value"`
	F33554433 []int64                `protobuf:"varint,33554433,rep,packed,name=f33554433" json:"f33554433,omitempty"`
	F13       *S31M4                 `protobuf:"bytes,13,opt,name=f13" json:"f13,omitempty"`
	// Types that are valid to be assigned to O0:
	//
	//	*S31M1_F15
	//	*S31M1_F22
	O0 isS31M1_O0 `protobuf_oneof:"o0"`
	// Types that are valid to be assigned to O1:
	//
	//	*S31M1_F33554432
	//	*S31M1_F996
	//	*S31M1_F2
	O1            isS31M1_O1 `protobuf_oneof:"o1"`
	unknownFields protoimpl.UnknownFields
	sizeCache     protoimpl.SizeCache
}

func (x *S31M1) Reset() {
	*x = S31M1{}
	mi := &file_fxpb_proto_msgTypes[109]
	ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
	ms.StoreMessageInfo(mi)
}

func (x *S31M1) String() string {
	return protoimpl.X.MessageStringOf(x)
}

func (*S31M1) ProtoMessage() {}

func (x *S31M1) ProtoReflect() protoreflect.Message {
	mi := &file_fxpb_proto_msgTypes[109]
	if x != nil {
		ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
		if ms.LoadMessageInfo() == nil {
			ms.StoreMessageInfo(mi)
		}
		return ms
	}
	return mi.MessageOf(x)
}

// Deprecated: Use S31M1.ProtoReflect.Descriptor instead.
func (*S31M1) Descriptor() ([]byte, []int) {
	return file_fxpb_proto_rawDescGZIP(), []int{109}
}

func (x *S31M1) GetF12() map[int32]int64 {
	if x != nil {
		return x.F12
	}
	return nil
}

func (x *S31M1) GetF3() uint64 {
	if x != nil && x.F3 != nil {
		return *x.F3
	}
	return 0
}

func (x *S31M1) GetF9() map[uint64]uint32 {
	if x != nil {
		return x.F9
	}
	return nil
}

func (x *S31M1) GetF33554433() []int64 {
	if x != nil {
		return x.F33554433
	}
	return nil
}

func (x *S31M1) GetF13() *S31M4 {
	if x != nil {
		return x.F13
	}
	return nil
}

func (x *S31M1) GetO0() isS31M1_O0 {
	if x != nil {
		return x.O0
	}
	return nil
}

func (x *S31M1) GetF15() float64 {
	if x != nil {
		if x, ok := x.O0.(*S31M1_F15); ok {
			return x.F15
		}
	}
	return 0
}

func (x *S31M1) GetF22() int32 {
	if x != nil {
		if x, ok := x.O0.(*S31M1_F22); ok {
			return x.F22
		}
	}
	return 0
}

func (x *S31M1) GetO1() isS31M1_O1 {
	if x != nil {
		return x.O1
	}
	return nil
}

func (x *S31M1) GetF33554432() *S31M2 {
	if x != nil {
		if x, ok := x.O1.(*S31M1_F33554432); ok {
			return x.F33554432
		}
	}
	return nil
}

func (x *S31M1) GetF996() int32 {
	if x != nil {
		if x, ok := x.O1.(*S31M1_F996); ok {
			return x.F996
		}
	}
	return 0
}

func (x *S31M1) GetF2() uint64 {
	if x != nil {
		if x, ok := x.O1.(*S31M1_F2); ok {
			return x.F2
		}
	}
	return 0
}

type isS31M1_O0 interface {
	isS31M1_O0()
}

type S31M1_F15 struct {
	F15 float64 `protobuf:"fixed64,15,opt,name=f15,oneof"`
}

type S31M1_F22 struct {
	F22 int32 `protobuf:"fixed32,22,opt,name=f22,oneof"`
}

func (*S31M1_F15) isS31M1_O0() {}

func (*S31M1_F22) isS31M1_O0() {}

type isS31M1_O1 interface {
	isS31M1_O1()
}

type S31M1_F33554432 struct {
	F33554432 *S31M2 `protobuf:"bytes,33554432,opt,name=f33554432,oneof"`
}

type S31M1_F996 struct {
	F996 int32 `protobuf:"fixed32,996,opt,name=f996,oneof"`
}

type S31M1_F2 struct {
	F2 uint64 `protobuf:"fixed64,2,opt,name=f2,oneof"`
}

func (*S31M1_F33554432) isS31M1_O1() {}

func (*S31M1_F996) isS31M1_O1() {}

func (*S31M1_F2) isS31M1_O1() {}

type S31M2 struct {
	state         protoimpl.MessageState `protogen:"open.v1"`
	F14           []bool                 `protobuf:"varint,14,rep,name=f14" json:"f14,omitempty"`
	F15           *S31M3                 `protobuf:"bytes,15,opt,name=f15" json:"f15,omitempty"`
	F12           map[int64]int32        `protobuf:"bytes,12,rep,name=f12" json:"f12,omitempty" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	F4            uint32                 `protobuf:"varint,4,opt,name=f4" json:"f4,omitempty"`
	unknownFields protoimpl.UnknownFields
	sizeCache     protoimpl.SizeCache
}

func (x *S31M2) Reset() {
	*x = S31M2{}
	mi := &file_fxpb_proto_msgTypes[110]
	ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
	ms.StoreMessageInfo(mi)
}

func (x *S31M2) String() string {
	return protoimpl.X.MessageStringOf(x)
}

func (*S31M2) ProtoMessage() {}

func (x *S31M2) ProtoReflect() protoreflect.Message {
	mi := &file_fxpb_proto_msgTypes[110]
	if x != nil {
		ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
		if ms.LoadMessageInfo() == nil {
			ms.StoreMessageInfo(mi)
		}
		return ms
	}
	return mi.MessageOf(x)
}

// Deprecated: Use S31M2.ProtoReflect.Descriptor instead.
func (*S31M2) Descriptor() ([]byte, []int) {
	return file_fxpb_proto_rawDescGZIP(), []int{110}
}

func (x *S31M2) GetF14() []bool {
	if x != nil {
		return x.F14
	}
	return nil
}

func (x *S31M2) GetF15() *S31M3 {
	if x != nil {
		return x.F15
	}
	return nil
}

func (x *S31M2) GetF12() map[int64]int32 {
	if x != nil {
		return x.F12
	}
	return nil
}

func (x *S31M2) GetF4() uint32 {
	if x != nil {
		return x.F4
	}
	return 0
}

type S31M3 struct {
	state protoimpl.MessageState `protogen:"open.v1"`
	F15   []bool                 `protobuf:"varint,15,rep,name=f15" json:"f15,omitempty"`
	// Types that are valid to be assigned to O0:
	//
	//	*S31M3_F840
	O0            isS31M3_O0 `protobuf_oneof:"o0"`
	unknownFields protoimpl.UnknownFields
	sizeCache     protoimpl.SizeCache
}

func (x *S31M3) Reset() {
	*x = S31M3{}
	mi := &file_fxpb_proto_msgTypes[111]
	ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
	ms.StoreMessageInfo(mi)
}

func (x *S31M3) String() string {
	return protoimpl.X.MessageStringOf(x)
}

func (*S31M3) ProtoMessage() {}

func (x *S31M3) ProtoReflect() protoreflect.Message {
	mi := &file_fxpb_proto_msgTypes[111]
	if x != nil {
		ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
		if ms.LoadMessageInfo() == nil {
			ms.StoreMessageInfo(mi)
		}
		return ms
	}
	return mi.MessageOf(x)
}

// Deprecated: Use S31M3.ProtoReflect.Descriptor instead.
func (*S31M3) Descriptor() ([]byte, []int) {
	return file_fxpb_proto_rawDescGZIP(), []int{111}
}

func (x *S31M3) GetF15() []bool {
	if x != nil {
		return x.F15
	}
	return nil
}

func (x *S31M3) GetO0() isS31M3_O0 {
	if x != nil {
		return x.O0
	}
	return nil
}

func (x *S31M3) GetF840() bool {
	if x != nil {
		if x, ok := x.O0.(*S31M3_F840); ok {
			return x.F840
		}
	}
	return false
}

type isS31M3_O0 interface {
	isS31M3_O0()
}

type S31M3_F840 struct {
	F840 bool `protobuf:"varint,840,opt,name=f840,oneof"`
}

func (*S31M3_F840) isS31M3_O0() {}

type S31M4 struct {
	state      protoimpl.MessageState `protogen:"open.v1"`
	F28        float64                `protobuf:"fixed64,28,opt,name=f28" json:"f28,omitempty"`
	F535736848 *S31M5                 `protobuf:"bytes,535736848,opt,name=f535736848" json:"f535736848,omitempty"`
	F4         *uint32                `protobuf:"fixed32,4,opt,name=f4" json:"f4,omitempty"`
	// Types that are valid to be assigned to O0:
	//
	//	*S31M4_F846
	O0            isS31M4_O0 `protobuf_oneof:"o0"`
	unknownFields protoimpl.UnknownFields
	sizeCache     protoimpl.SizeCache
}

func (x *S31M4) Reset() {
	*x = S31M4{}
	mi := &file_fxpb_proto_msgTypes[112]
	ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
	ms.StoreMessageInfo(mi)
}

func (x *S31M4) String() string {
	return protoimpl.X.MessageStringOf(x)
}

func (*S31M4) ProtoMessage() {}

func (x *S31M4) ProtoReflect() protoreflect.Message {
	mi := &file_fxpb_proto_msgTypes[112]
	if x != nil {
		ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
		if ms.LoadMessageInfo() == nil {
			ms.StoreMessageInfo(mi)
		}
		return ms
	}
	return mi.MessageOf(x)
}

// Deprecated: Use S31M4.ProtoReflect.Descriptor instead.
func (*S31M4) Descriptor() ([]byte, []int) {
	return file_fxpb_proto_rawDescGZIP(), []int{112}
}

func (x *S31M4) GetF28() float64 {
	if x != nil {
		return x.F28
	}
	return 0
}

func (x *S31M4) GetF535736848() *S31M5 {
	if x != nil {
		return x.F535736848
	}
	return nil
}

func (x *S31M4) GetF4() uint32 {
	if x != nil && x.F4 != nil {
		return *x.F4
	}
	return 0
}

func (x *S31M4) GetO0() isS31M4_O0 {
	if x != nil {
		return x.O0
	}
	return nil
}

func (x *S31M4) GetF846() int64 {
	if x != nil {
		if x, ok := x.O0.(*S31M4_F846); ok {
			return x.F846
		}
	}
	return 0
}

type isS31M4_O0 interface {
	isS31M4_O0()
}

type S31M4_F846 struct {
	F846 int64 `protobuf:"varint,846,opt,name=f846,oneof"`
}

func (*S31M4_F846) isS31M4_O0() {}

type S31M5 struct {
	state         protoimpl.MessageState `protogen:"open.v1"`
	F262144       []float64              `protobuf:"fixed64,262144,rep,name=f262144" json:"f262144,omitempty"`
	F234          []int32                `protobuf:"zigzag32,234,rep,name=f234" json:"f234,omitempty"`
	F160649364    []E                    `protobuf:"varint,160649364,rep,packed,name=f160649364,enum=fxpb.E" json:"f160649364,omitempty"`
	F19           []byte                 `protobuf:"bytes,19,opt,name=f19" json:"f19,omitempty"`
	unknownFields protoimpl.UnknownFields
	sizeCache     protoimpl.SizeCache
}

func (x *S31M5) Reset() {
	*x = S31M5{}
	mi := &file_fxpb_proto_msgTypes[113]
	ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
	ms.StoreMessageInfo(mi)
}

func (x *S31M5) String() string {
	return protoimpl.X.MessageStringOf(x)
}

func (*S31M5) ProtoMessage() {}

func (x *S31M5) ProtoReflect() protoreflect.Message {
	mi := &file_fxpb_proto_msgTypes[113]
	if x != nil {
		ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
		if ms.LoadMessageInfo() == nil {
			ms.StoreMessageInfo(mi)
		}
		return ms
	}
	return mi.MessageOf(x)
}

// Deprecated: Use S31M5.ProtoReflect.Descriptor instead.
func (*S31M5) Descriptor() ([]byte, []int) {
	return file_fxpb_proto_rawDescGZIP(), []int{113}
}

func (x *S31M5) GetF262144() []float64 {
	if x != nil {
		return x.F262144
	}
	return nil
}

func (x *S31M5) GetF234() []int32 {
	if x != nil {
		return x.F234
	}
	return nil
}

func (x *S31M5) GetF160649364() []E {
	if x != nil {
		return x.F160649364
	}
	return nil
}

func (x *S31M5) GetF19() []byte {
	if x != nil {
		return x.F19
	}
	return nil
}

type S32M1 struct {
	state         protoimpl.MessageState `protogen:"open.v1"`
	F2            []*S32M2               `protobuf:"bytes,2,rep,name=f2" json:"f2,omitempty"`
	F536870911    []int64                `protobuf:"zigzag64,536870911,rep,name=f536870911" json:"f536870911,omitempty"`
	F999          string                 `protobuf:"bytes,999,opt,name=f999" json:"f999,omitempty"`
	F528931624    map[uint64][]byte      `protobuf:"bytes,528931624,rep,name=f528931624" json:"f528931624,omitempty" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	unknownFields protoimpl.UnknownFields
	sizeCache     protoimpl.SizeCache
}

func (x *S32M1) Reset() {
	*x = S32M1{}
	mi := &file_fxpb_proto_msgTypes[114]
	ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
	ms.StoreMessageInfo(mi)
}

func (x *S32M1) String() string {
	return protoimpl.X.MessageStringOf(x)
}

func (*S32M1) ProtoMessage() {}

func (x *S32M1) ProtoReflect() protoreflect.Message {
	mi := &file_fxpb_proto_msgTypes[114]
	if x != nil {
		ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
		if ms.LoadMessageInfo() == nil {
			ms.StoreMessageInfo(mi)
		}
		return ms
	}
	return mi.MessageOf(x)
}

// Deprecated: Use S32M1.ProtoReflect.Descriptor instead.
func (*S32M1) Descriptor() ([]byte, []int) {
	return file_fxpb_proto_rawDescGZIP(), []int{114}
}

func (x *S32M1) GetF2() []*S32M2 {
	if x != nil {
		return x.F2
	}
	return nil
}

func (x *S32M1) GetF536870911() []int64 {
	if x != nil {
		return x.F536870911
	}
	return nil
}

func (x *S32M1) GetF999() string {
	if x != nil {
		return x.F999
	}
	return ""
}

func (x *S32M1) GetF528931624() map[uint64][]byte {
	if x != nil {
		return x.F528931624
	}
	return nil
}

type S32M2 struct {
	state protoimpl.MessageState `protogen:"open.v1"`
	F6    []*S32M3               `protobuf:"bytes,6,rep,name=f6" json:"f6,omitempty"`
	F9    [][]byte               `protobuf:"bytes,9,rep,name=f9" json:"f9,omitempty"`
	F5    map[uint32]E           `protobuf:"bytes,5,rep,name=f5" json:"f5,omitempty" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"varint,2,opt,name=value,enum=fxpb.E"`
	F13   []int32                `protobuf:"zigzag32,13,rep,name=f13" json:"f13,omitempty"`
	// Types that are valid to be assigned to O0:
	//
	//	*S32M2_F2047
	O0            isS32M2_O0 `protobuf_oneof:"o0"`
	unknownFields protoimpl.UnknownFields
	sizeCache     protoimpl.SizeCache
}

func (x *S32M2) Reset() {
	*x = S32M2{}
	mi := &file_fxpb_proto_msgTypes[115]
	ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
	ms.StoreMessageInfo(mi)
}

func (x *S32M2) String() string {
	return protoimpl.X.MessageStringOf(x)
}

func (*S32M2) ProtoMessage() {}

func (x *S32M2) ProtoReflect() protoreflect.Message {
	mi := &file_fxpb_proto_msgTypes[115]
	if x != nil {
		ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
		if ms.LoadMessageInfo() == nil {
			ms.StoreMessageInfo(mi)
		}
		return ms
	}
	return mi.MessageOf(x)
}

// Deprecated: Use S32M2.ProtoReflect.Descriptor instead.
func (*S32M2) Descriptor() ([]byte, []int) {
	return file_fxpb_proto_rawDescGZIP(), []int{115}
}

func (x *S32M2) GetF6() []*S32M3 {
	if x != nil {
		return x.F6
	}
	return nil
}

func (x *S32M2) GetF9() [][]byte {
	if x != nil {
		return x.F9
	}
	return nil
}

func (x *S32M2) GetF5() map[uint32]E {
	if x != nil {
		return x.F5
	}
	return nil
}

func (x *S32M2) GetF13() []int32 {
	if x != nil {
		return x.F13
	}
	return nil
}

func (x *S32M2) GetO0() isS32M2_O0 {
	if x != nil {
		return x.O0
	}
	return nil
}

func (x *S32M2) GetF2047() int32 {
	if x != nil {
		if x, ok := x.O0.(*S32M2_F2047); ok {
			return x.F2047
		}
	}
	return 0
}

type isS32M2_O0 interface {
	isS32M2_O0()
}

type S32M2_F2047 struct {
	F2047 int32 `protobuf:"fixed32,2047,opt,name=f2047,oneof"`
}

func (*S32M2_F2047) isS32M2_O0() {}

type S32M3 struct {
	state         protoimpl.MessageState `protogen:"open.v1"`
	F18           map[uint32]uint64      `protobuf:"bytes,18,rep,name=f18" json:"f18,omitempty" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value"`
	F6            map[uint32]uint64      `protobuf:"bytes,6,rep,name=f6" json:"f6,omitempty" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	F1            []uint32               `protobuf:"varint,1,rep,packed,name=f1" json:"f1,omitempty"`
	F1001         []int64                `protobuf:"fixed64,1001,rep,name=f1001" json:"f1001,omitempty"`
	F21           []int32                `protobuf:"zigzag32,21,rep,name=f21" json:"f21,omitempty"`
	F15           []int32                `protobuf:"fixed32,15,rep,packed,name=f15" json:"f15,omitempty"`
	F89           *int64                 `protobuf:"fixed64,89,opt,name=f89" json:"f89,omitempty"`
	F13           *bool                  `protobuf:"varint,13,req,name=f13" json:"f13,omitempty"`
	F14           []int32                `protobuf:"zigzag32,14,rep,packed,name=f14" json:"f14,omitempty"`
	F8            []uint64               `protobuf:"fixed64,8,rep,packed,name=f8" json:"f8,omitempty"`
	unknownFields protoimpl.UnknownFields
	sizeCache     protoimpl.SizeCache
}

func (x *S32M3) Reset() {
	*x = S32M3{}
	mi := &file_fxpb_proto_msgTypes[116]
	ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
	ms.StoreMessageInfo(mi)
}

func (x *S32M3) String() string {
	return protoimpl.X.MessageStringOf(x)
}

func (*S32M3) ProtoMessage() {}

func (x *S32M3) ProtoReflect() protoreflect.Message {
	mi := &file_fxpb_proto_msgTypes[116]
	if x != nil {
		ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
		if ms.LoadMessageInfo() == nil {
			ms.StoreMessageInfo(mi)
		}
		return ms
	}
	return mi.MessageOf(x)
}

// Deprecated: Use S32M3.ProtoReflect.Descriptor instead.
func (*S32M3) Descriptor() ([]byte, []int) {
	return file_fxpb_proto_rawDescGZIP(), []int{116}
}

func (x *S32M3) GetF18() map[uint32]uint64 {
	if x != nil {
		return x.F18
	}
	return nil
}

func (x *S32M3) GetF6() map[uint32]uint64 {
	if x != nil {
		return x.F6
	}
	return nil
}

func (x *S32M3) GetF1() []uint32 {
	if x != nil {
		return x.F1
	}
	return nil
}

func (x *S32M3) GetF1001() []int64 {
	if x != nil {
		return x.F1001
	}
	return nil
}

func (x *S32M3) GetF21() []int32 {
	if x != nil {
		return x.F21
	}
	return nil
}

func (x *S32M3) GetF15() []int32 {
	if x != nil {
		return x.F15
	}
	return nil
}

func (x *S32M3) GetF89() int64 {
	if x != nil && x.F89 != nil {
		return *x.F89
	}
	return 0
}

func (x *S32M3) GetF13() bool {
	if x != nil && x.F13 != nil {
		return *x.F13
	}
	return false
}

func (x *S32M3) GetF14() []int32 {
	if x != nil {
		return x.F14
	}
	return nil
}

func (x *S32M3) GetF8() []uint64 {
	if x != nil {
		return x.F8
	}
	return nil
}

type S33M1 struct {
	state     protoimpl.MessageState `protogen:"open.v1"`
	F33554432 *float32               `protobuf:"fixed32,33554432,opt,name=f33554432" json:"f33554432,omitempty"`
	F34       map[int64]int64        `protobuf:"bytes,34,rep,name=f34" json:"f34,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"zigzag64,2,opt,name=value"`
	F11       string                 `protobuf:"bytes,11,opt,name=f11" json:"f11,omitempty"`
	F6        *uint64                `protobuf:"fixed64,6,opt,name=f6" json:"f6,omitempty"`
	F1001     uint64                 `protobuf:"varint,1001,opt,name=f1001" json:"f1001,omitempty"`
	F9        map[int64]uint32       `protobuf:"bytes,9,rep,name=f9" json:"f9,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value"`
	F18999    *bool                  `protobuf:"varint,18999,opt,name=f18999" json:"f18999,omitempty"`
	F2        *bool                  `protobuf:"varint,2,opt,name=f2" json:"f2,omitempty"`
	// Types that are valid to be assigned to O0:
	//
	//	*S33M1_F27
	O0 isS33M1_O0 `protobuf_oneof:"o0"`
	// Types that are valid to be assigned to O1:
	//
	//	*S33M1_F20000
	O1            isS33M1_O1 `protobuf_oneof:"o1"`
	unknownFields protoimpl.UnknownFields
	sizeCache     protoimpl.SizeCache
}

func (x *S33M1) Reset() {
	*x = S33M1{}
	mi := &file_fxpb_proto_msgTypes[117]
	ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
	ms.StoreMessageInfo(mi)
}

func (x *S33M1) String() string {
	return protoimpl.X.MessageStringOf(x)
}

func (*S33M1) ProtoMessage() {}

func (x *S33M1) ProtoReflect() protoreflect.Message {
	mi := &file_fxpb_proto_msgTypes[117]
	if x != nil {
		ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
		if ms.LoadMessageInfo() == nil {
			ms.StoreMessageInfo(mi)
		}
		return ms
	}
	return mi.MessageOf(x)
}

// Deprecated: Use S33M1.ProtoReflect.Descriptor instead.
func (*S33M1) Descriptor() ([]byte, []int) {
	return file_fxpb_proto_rawDescGZIP(), []int{117}
}

func (x *S33M1) GetF33554432() float32 {
	if x != nil && x.F33554432 != nil {
		return *x.F33554432
	}
	return 0
}

func (x *S33M1) GetF34() map[int64]int64 {
	if x != nil {
		return x.F34
	}
	return nil
}

func (x *S33M1) GetF11() string {
	if x != nil {
		return x.F11
	}
	return ""
}

func (x *S33M1) GetF6() uint64 {
	if x != nil && x.F6 != nil {
		return *x.F6
	}
	return 0
}

func (x *S33M1) GetF1001() uint64 {
	if x != nil {
		return x.F1001
	}
	return 0
}

func (x *S33M1) GetF9() map[int64]uint32 {
	if x != nil {
		return x.F9
	}
	return nil
}

func (x *S33M1) GetF18999() bool {
	if x != nil && x.F18999 != nil {
		return *x.F18999
	}
	return false
}

func (x *S33M1) GetF2() bool {
	if x != nil && x.F2 != nil {
		return *x.F2
	}
	return false
}

func (x *S33M1) GetO0() isS33M1_O0 {
	if x != nil {
		return x.O0
	}
	return nil
}

func (x *S33M1) GetF27() int64 {
	if x != nil {
		if x, ok := x.O0.(*S33M1_F27); ok {
			return x.F27
		}
	}
	return 0
}

func (x *S33M1) GetO1() isS33M1_O1 {
	if x != nil {
		return x.O1
	}
	return nil
}

func (x *S33M1) GetF20000() *S33M2 {
	if x != nil {
		if x, ok := x.O1.(*S33M1_F20000); ok {
			return x.F20000
		}
	}
	return nil
}

type isS33M1_O0 interface {
	isS33M1_O0()
}

type S33M1_F27 struct {
	F27 int64 `protobuf:"varint,27,opt,name=f27,oneof"`
}

func (*S33M1_F27) isS33M1_O0() {}

type isS33M1_O1 interface {
	isS33M1_O1()
}

type S33M1_F20000 struct {
	F20000 *S33M2 `protobuf:"bytes,20000,opt,name=f20000,oneof"`
}

func (*S33M1_F20000) isS33M1_O1() {}

type S33M2 struct {
	state   protoimpl.MessageState `protogen:"open.v1"`
	F999    uint32                 `protobuf:"varint,999,opt,name=f999" json:"f999,omitempty"`
	F262144 []uint64               `protobuf:"varint,262144,rep,packed,name=f262144" json:"f262144,omitempty"`
	F35     uint64                 `protobuf:"varint,35,opt,name=f35" json:"f35,omitempty"`
	F13     []float32              `protobuf:"fixed32,13,rep,name=f13" json:"f13,omitempty"`
	F29     *S33M3                 `protobuf:"bytes,29,opt,name=f29" json:"f29,omitempty"`
	F11     map[string]int64       `protobuf:"bytes,11,rep,name=f11" json:"f11,omitempty" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"zigzag64,2,opt,name=value"`
	F1004   *S33M5                 `protobuf:"bytes,1004,opt,name=f1004" json:"f1004,omitempty"`
	F3      float32                `protobuf:"fixed32,3,opt,name=f3" json:"f3,omitempty"`
	// Types that are valid to be assigned to O0:
	//
	//	*S33M2_F9
	//	*S33M2_F33554432
	O0            isS33M2_O0 `protobuf_oneof:"o0"`
	unknownFields protoimpl.UnknownFields
	sizeCache     protoimpl.SizeCache
}

func (x *S33M2) Reset() {
	*x = S33M2{}
	mi := &file_fxpb_proto_msgTypes[118]
	ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
	ms.StoreMessageInfo(mi)
}

func (x *S33M2) String() string {
	return protoimpl.X.MessageStringOf(x)
}

func (*S33M2) ProtoMessage() {}

func (x *S33M2) ProtoReflect() protoreflect.Message {
	mi := &file_fxpb_proto_msgTypes[118]
	if x != nil {
		ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
		if ms.LoadMessageInfo() == nil {
			ms.StoreMessageInfo(mi)
		}
		return ms
	}
	return mi.MessageOf(x)
}

// Deprecated: Use S33M2.ProtoReflect.Descriptor instead.
func (*S33M2) Descriptor() ([]byte, []int) {
	return file_fxpb_proto_rawDescGZIP(), []int{118}
}

func (x *S33M2) GetF999() uint32 {
	if x != nil {
		return x.F999
	}
	return 0
}

func (x *S33M2) GetF262144() []uint64 {
	if x != nil {
		return x.F262144
	}
	return nil
}

func (x *S33M2) GetF35() uint64 {
	if x != nil {
		return x.F35
	}
	return 0
}

func (x *S33M2) GetF13() []float32 {
	if x != nil {
		return x.F13
	}
	return nil
}

func (x *S33M2) GetF29() *S33M3 {
	if x != nil {
		return x.F29
	}
	return nil
}

func (x *S33M2) GetF11() map[string]int64 {
	if x != nil {
		return x.F11
	}
	return nil
}

func (x *S33M2) GetF1004() *S33M5 {
	if x != nil {
		return x.F1004
	}
	return nil
}

func (x *S33M2) GetF3() float32 {
	if x != nil {
		return x.F3
	}
	return 0
}

func (x *S33M2) GetO0() isS33M2_O0 {
	if x != nil {
		return x.O0
	}
	return nil
}

func (x *S33M2) GetF9() float32 {
	if x != nil {
		if x, ok := x.O0.(*S33M2_F9); ok {
			return x.F9
		}
	}
	return 0
}

func (x *S33M2) GetF33554432() *S33M4 {
	if x != nil {
		if x, ok := x.O0.(*S33M2_F33554432); ok {
			return x.F33554432
		}
	}
	return nil
}

type isS33M2_O0 interface {
	isS33M2_O0()
}

type S33M2_F9 struct {
	F9 float32 `protobuf:"fixed32,9,opt,name=f9,oneof"`
}

type S33M2_F33554432 struct {
	F33554432 *S33M4 `protobuf:"bytes,33554432,opt,name=f33554432,oneof"`
}

func (*S33M2_F9) isS33M2_O0() {}

func (*S33M2_F33554432) isS33M2_O0() {}

type S33M3 struct {
	state         protoimpl.MessageState `protogen:"open.v1"`
	F6            map[int64]int32        `protobuf:"bytes,6,rep,name=f6" json:"f6,omitempty" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"zigzag32,2,opt,name=value"`
	F15           [][]byte               `protobuf:"bytes,15,rep,name=f15" json:"f15,omitempty"`
	unknownFields protoimpl.UnknownFields
	sizeCache     protoimpl.SizeCache
}

func (x *S33M3) Reset() {
	*x = S33M3{}
	mi := &file_fxpb_proto_msgTypes[119]
	ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
	ms.StoreMessageInfo(mi)
}

func (x *S33M3) String() string {
	return protoimpl.X.MessageStringOf(x)
}

func (*S33M3) ProtoMessage() {}

func (x *S33M3) ProtoReflect() protoreflect.Message {
	mi := &file_fxpb_proto_msgTypes[119]
	if x != nil {
		ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
		if ms.LoadMessageInfo() == nil {
			ms.StoreMessageInfo(mi)
		}
		return ms
	}
	return mi.MessageOf(x)
}

// Deprecated: Use S33M3.ProtoReflect.Descriptor instead.
func (*S33M3) Descriptor() ([]byte, []int) {
	return file_fxpb_proto_rawDescGZIP(), []int{119}
}

func (x *S33M3) GetF6() map[int64]int32 {
	if x != nil {
		return x.F6
	}
	return nil
}

func (x *S33M3) GetF15() [][]byte {
	if x != nil {
		return x.F15
	}
	return nil
}

type S33M4 struct {
	state         protoimpl.MessageState `protogen:"open.v1"`
	F15           float64                `protobuf:"fixed64,15,opt,name=f15" json:"f15,omitempty"`
	F13           [][]byte               `protobuf:"bytes,13,rep,name=f13" json:"f13,omitempty"`
	F2048         *uint64                `protobuf:"fixed64,2048,opt,name=f2048" json:"f2048,omitempty"`
	F996          float32                `protobuf:"fixed32,996,opt,name=f996" json:"f996,omitempty"`
	F995          []uint32               `protobuf:"varint,995,rep,packed,name=f995" json:"f995,omitempty"`
	F14           uint32                 `protobuf:"fixed32,14,opt,name=f14" json:"f14,omitempty"`
	F16           []uint32               `protobuf:"fixed32,16,rep,name=f16" json:"f16,omitempty"`
	F9            *E                     `protobuf:"varint,9,opt,name=f9,enum=fxpb.E" json:"f9,omitempty"`
	F17           []bool                 `protobuf:"varint,17,rep,name=f17" json:"f17,omitempty"`
	unknownFields protoimpl.UnknownFields
	sizeCache     protoimpl.SizeCache
}

func (x *S33M4) Reset() {
	*x = S33M4{}
	mi := &file_fxpb_proto_msgTypes[120]
	ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
	ms.StoreMessageInfo(mi)
}

func (x *S33M4) String() string {
	return protoimpl.X.MessageStringOf(x)
}

func (*S33M4) ProtoMessage() {}

func (x *S33M4) ProtoReflect() protoreflect.Message {
	mi := &file_fxpb_proto_msgTypes[120]
	if x != nil {
		ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
		if ms.LoadMessageInfo() == nil {
			ms.StoreMessageInfo(mi)
		}
		return ms
	}
	return mi.MessageOf(x)
}

// Deprecated: Use S33M4.ProtoReflect.Descriptor instead.
func (*S33M4) Descriptor() ([]byte, []int) {
	return file_fxpb_proto_rawDescGZIP(), []int{120}
}

func (x *S33M4) GetF15() float64 {
	if x != nil {
		return x.F15
	}
	return 0
}

func (x *S33M4) GetF13() [][]byte {
	if x != nil {
		return x.F13
	}
	return nil
}

func (x *S33M4) GetF2048() uint64 {
	if x != nil && x.F2048 != nil {
		return *x.F2048
	}
	return 0
}

func (x *S33M4) GetF996() float32 {
	if x != nil {
		return x.F996
	}
	return 0
}

func (x *S33M4) GetF995() []uint32 {
	if x != nil {
		return x.F995
	}
	return nil
}

func (x *S33M4) GetF14() uint32 {
	if x != nil {
		return x.F14
	}
	return 0
}

func (x *S33M4) GetF16() []uint32 {
	if x != nil {
		return x.F16
	}
	return nil
}

func (x *S33M4) GetF9() E {
	if x != nil && x.F9 != nil {
		return *x.F9
	}
	return E_E_ZERO
}

func (x *S33M4) GetF17() []bool {
	if x != nil {
		return x.F17
	}
	return nil
}

type S33M5 struct {
	state         protoimpl.MessageState `protogen:"open.v1"`
	F536870911    map[string]string      `protobuf:"bytes,536870911,rep,name=f536870911" json:"f536870911,omitempty" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	F5            *int64                 `protobuf:"varint,5,opt,name=f5" json:"f5,omitempty"`
	F12           map[int32]uint32       `protobuf:"bytes,12,rep,name=f12" json:"f12,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value"`
	F10           *int32                 `protobuf:"zigzag32,10,opt,name=f10" json:"f10,omitempty"`
	F15           map[uint32]uint32      `protobuf:"bytes,15,rep,name=f15" json:"f15,omitempty" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value"`
	unknownFields protoimpl.UnknownFields
	sizeCache     protoimpl.SizeCache
}

func (x *S33M5) Reset() {
	*x = S33M5{}
	mi := &file_fxpb_proto_msgTypes[121]
	ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
	ms.StoreMessageInfo(mi)
}

func (x *S33M5) String() string {
	return protoimpl.X.MessageStringOf(x)
}

func (*S33M5) ProtoMessage() {}

func (x *S33M5) ProtoReflect() protoreflect.Message {
	mi := &file_fxpb_proto_msgTypes[121]
	if x != nil {
		ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
		if ms.LoadMessageInfo() == nil {
			ms.StoreMessageInfo(mi)
		}
		return ms
	}
	return mi.MessageOf(x)
}

// Deprecated: Use S33M5.ProtoReflect.Descriptor instead.
func (*S33M5) Descriptor() ([]byte, []int) {
	return file_fxpb_proto_rawDescGZIP(), []int{121}
}

func (x *S33M5) GetF536870911() map[string]string {
	if x != nil {
		return x.F536870911
	}
	return nil
}

func (x *S33M5) GetF5() int64 {
	if x != nil && x.F5 != nil {
		return *x.F5
	}
	return 0
}

func (x *S33M5) GetF12() map[int32]uint32 {
	if x != nil {
		return x.F12
	}
	return nil
}

func (x *S33M5) GetF10() int32 {
	if x != nil && x.F10 != nil {
		return *x.F10
	}
	return 0
}

func (x *S33M5) GetF15() map[uint32]uint32 {
	if x != nil {
		return x.F15
	}
	return nil
}

type S34M1 struct {
	state protoimpl.MessageState `protogen:"open.v1"`
	F2047 *S34M2                 `protobuf:"bytes,2047,opt,name=f2047" json:"f2047,omitempty"`
	F458  uint32                 `protobuf:"varint,458,opt,name=f458" json:"f458,omitempty"`
	F14   []uint32               `protobuf:"fixed32,14,rep,name=f14" json:"f14,omitempty"`
	// Types that are valid to be assigned to O0:
	//
	//	*S34M1_F997
	//	*S34M1_F54
	O0            isS34M1_O0 `protobuf_oneof:"o0"`
	unknownFields protoimpl.UnknownFields
	sizeCache     protoimpl.SizeCache
}

func (x *S34M1) Reset() {
	*x = S34M1{}
	mi := &file_fxpb_proto_msgTypes[122]
	ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
	ms.StoreMessageInfo(mi)
}

func (x *S34M1) String() string {
	return protoimpl.X.MessageStringOf(x)
}

func (*S34M1) ProtoMessage() {}

func (x *S34M1) ProtoReflect() protoreflect.Message {
	mi := &file_fxpb_proto_msgTypes[122]
	if x != nil {
		ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
		if ms.LoadMessageInfo() == nil {
			ms.StoreMessageInfo(mi)
		}
		return ms
	}
	return mi.MessageOf(x)
}

// Deprecated: Use S34M1.ProtoReflect.Descriptor instead.
func (*S34M1) Descriptor() ([]byte, []int) {
	return file_fxpb_proto_rawDescGZIP(), []int{122}
}

func (x *S34M1) GetF2047() *S34M2 {
	if x != nil {
		return x.F2047
	}
	return nil
}

func (x *S34M1) GetF458() uint32 {
	if x != nil {
		return x.F458
	}
	return 0
}

func (x *S34M1) GetF14() []uint32 {
	if x != nil {
		return x.F14
	}
	return nil
}

func (x *S34M1) GetO0() isS34M1_O0 {
	if x != nil {
		return x.O0
	}
	return nil
}

func (x *S34M1) GetF997() *S34M3 {
	if x != nil {
		if x, ok := x.O0.(*S34M1_F997); ok {
			return x.F997
		}
	}
	return nil
}

func (x *S34M1) GetF54() int32 {
	if x != nil {
		if x, ok := x.O0.(*S34M1_F54); ok {
			return x.F54
		}
	}
	return 0
}

type isS34M1_O0 interface {
	isS34M1_O0()
}

type S34M1_F997 struct {
	F997 *S34M3 `protobuf:"bytes,997,opt,name=f997,oneof"`
}

type S34M1_F54 struct {
	F54 int32 `protobuf:"varint,54,opt,name=f54,oneof"`
}

func (*S34M1_F997) isS34M1_O0() {}

func (*S34M1_F54) isS34M1_O0() {}

type S34M2 struct {
	state         protoimpl.MessageState `protogen:"open.v1"`
	F1002         E                      `protobuf:"varint,1002,opt,name=f1002,enum=fxpb.E" json:"f1002,omitempty"`
	F2047         uint64                 `protobuf:"fixed64,2047,opt,name=f2047" json:"f2047,omitempty"`
	unknownFields protoimpl.UnknownFields
	sizeCache     protoimpl.SizeCache
}

func (x *S34M2) Reset() {
	*x = S34M2{}
	mi := &file_fxpb_proto_msgTypes[123]
	ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
	ms.StoreMessageInfo(mi)
}

func (x *S34M2) String() string {
	return protoimpl.X.MessageStringOf(x)
}

func (*S34M2) ProtoMessage() {}

func (x *S34M2) ProtoReflect() protoreflect.Message {
	mi := &file_fxpb_proto_msgTypes[123]
	if x != nil {
		ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
		if ms.LoadMessageInfo() == nil {
			ms.StoreMessageInfo(mi)
		}
		return ms
	}
	return mi.MessageOf(x)
}

// Deprecated: Use S34M2.ProtoReflect.Descriptor instead.
func (*S34M2) Descriptor() ([]byte, []int) {
	return file_fxpb_proto_rawDescGZIP(), []int{123}
}

func (x *S34M2) GetF1002() E {
	if x != nil {
		return x.F1002
	}
	return E_E_ZERO
}

func (x *S34M2) GetF2047() uint64 {
	if x != nil {
		return x.F2047
	}
	return 0
}

type S34M3 struct {
	state   protoimpl.MessageState `protogen:"open.v1"`
	F6      map[bool]int32         `protobuf:"bytes,6,rep,name=f6" json:"f6,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value"`
	F26     *S34M4                 `protobuf:"bytes,26,opt,name=f26" json:"f26,omitempty"`
	F54     []string               `protobuf:"bytes,54,rep,name=f54" json:"f54,omitempty"`
	F9      uint32                 `protobuf:"varint,9,opt,name=f9" json:"f9,omitempty"`
	F996    []string               `protobuf:"bytes,996,rep,name=f996" json:"f996,omitempty"`
	F262144 float32                `protobuf:"fixed32,262144,opt,name=f262144" json:"f262144,omitempty"`
	F1004   map[uint32]E           `protobuf:"bytes,1004,rep,name=f1004" json:"f1004,omitempty" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"varint,2,opt,name=value,enum=fxpb.E"`
	// Types that are valid to be assigned to O0:
	//
	//	*S34M3_F4
	//	*S34M3_F7
	O0 isS34M3_O0 `protobuf_oneof:"o0"`
	// Types that are valid to be assigned to O1:
	//
	//	*S34M3_F3
	O1            isS34M3_O1 `protobuf_oneof:"o1"`
	unknownFields protoimpl.UnknownFields
	sizeCache     protoimpl.SizeCache
}

func (x *S34M3) Reset() {
	*x = S34M3{}
	mi := &file_fxpb_proto_msgTypes[124]
	ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
	ms.StoreMessageInfo(mi)
}

func (x *S34M3) String() string {
	return protoimpl.X.MessageStringOf(x)
}

func (*S34M3) ProtoMessage() {}

func (x *S34M3) ProtoReflect() protoreflect.Message {
	mi := &file_fxpb_proto_msgTypes[124]
	if x != nil {
		ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
		if ms.LoadMessageInfo() == nil {
			ms.StoreMessageInfo(mi)
		}
		return ms
	}
	return mi.MessageOf(x)
}

// Deprecated: Use S34M3.ProtoReflect.Descriptor instead.
func (*S34M3) Descriptor() ([]byte, []int) {
	return file_fxpb_proto_rawDescGZIP(), []int{124}
}

func (x *S34M3) GetF6() map[bool]int32 {
	if x != nil {
		return x.F6
	}
	return nil
}

func (x *S34M3) GetF26() *S34M4 {
	if x != nil {
		return x.F26
	}
	return nil
}

func (x *S34M3) GetF54() []string {
	if x != nil {
		return x.F54
	}
	return nil
}

func (x *S34M3) GetF9() uint32 {
	if x != nil {
		return x.F9
	}
	return 0
}

func (x *S34M3) GetF996() []string {
	if x != nil {
		return x.F996
	}
	return nil
}

func (x *S34M3) GetF262144() float32 {
	if x != nil {
		return x.F262144
	}
	return 0
}

func (x *S34M3) GetF1004() map[uint32]E {
	if x != nil {
		return x.F1004
	}
	return nil
}

func (x *S34M3) GetO0() isS34M3_O0 {
	if x != nil {
		return x.O0
	}
	return nil
}

func (x *S34M3) GetF4() int32 {
	if x != nil {
		if x, ok := x.O0.(*S34M3_F4); ok {
			return x.F4
		}
	}
	return 0
}

func (x *S34M3) GetF7() *S34M5 {
	if x != nil {
		if x, ok := x.O0.(*S34M3_F7); ok {
			return x.F7
		}
	}
	return nil
}

func (x *S34M3) GetO1() isS34M3_O1 {
	if x != nil {
		return x.O1
	}
	return nil
}

func (x *S34M3) GetF3() bool {
	if x != nil {
		if x, ok := x.O1.(*S34M3_F3); ok {
			return x.F3
		}
	}
	return false
}

type isS34M3_O0 interface {
	isS34M3_O0()
}

type S34M3_F4 struct {
	F4 int32 `protobuf:"zigzag32,4,opt,name=f4,oneof"`
}

type S34M3_F7 struct {
	F7 *S34M5 `protobuf:"bytes,7,opt,name=f7,oneof"`
}

func (*S34M3_F4) isS34M3_O0() {}

func (*S34M3_F7) isS34M3_O0() {}

type isS34M3_O1 interface {
	isS34M3_O1()
}

type S34M3_F3 struct {
	F3 bool `protobuf:"varint,3,opt,name=f3,oneof"`
}

func (*S34M3_F3) isS34M3_O1() {}

type S34M4 struct {
	state      protoimpl.MessageState `protogen:"open.v1"`
	F33554432  int64                  `protobuf:"zigzag64,33554432,opt,name=f33554432" json:"f33554432,omitempty"`
	F795       *float32               `protobuf:"fixed32,795,opt,name=f795" json:"f795,omitempty"`
	F1         *uint32                `protobuf:"fixed32,1,opt,name=f1" json:"f1,omitempty"`
	F536870910 []uint64               `protobuf:"varint,536870910,rep,name=f536870910" json:"f536870910,omitempty"`
	F14        *E                     `protobuf:"varint,14,opt,name=f14,enum=fxpb.E" json:"f14,omitempty"`
	F334       uint64                 `protobuf:"fixed64,334,opt,name=f334" json:"f334,omitempty"`
	// Types that are valid to be assigned to O0:
	//
	//	*S34M4_F10
	//	*S34M4_F1003
	//	*S34M4_F7
	//	*S34M4_F2
	O0            isS34M4_O0 `protobuf_oneof:"o0"`
	unknownFields protoimpl.UnknownFields
	sizeCache     protoimpl.SizeCache
}

func (x *S34M4) Reset() {
	*x = S34M4{}
	mi := &file_fxpb_proto_msgTypes[125]
	ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
	ms.StoreMessageInfo(mi)
}

func (x *S34M4) String() string {
	return protoimpl.X.MessageStringOf(x)
}

func (*S34M4) ProtoMessage() {}

func (x *S34M4) ProtoReflect() protoreflect.Message {
	mi := &file_fxpb_proto_msgTypes[125]
	if x != nil {
		ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
		if ms.LoadMessageInfo() == nil {
			ms.StoreMessageInfo(mi)
		}
		return ms
	}
	return mi.MessageOf(x)
}

// Deprecated: Use S34M4.ProtoReflect.Descriptor instead.
func (*S34M4) Descriptor() ([]byte, []int) {
	return file_fxpb_proto_rawDescGZIP(), []int{125}
}

func (x *S34M4) GetF33554432() int64 {
	if x != nil {
		return x.F33554432
	}
	return 0
}

func (x *S34M4) GetF795() float32 {
	if x != nil && x.F795 != nil {
		return *x.F795
	}
	return 0
}

func (x *S34M4) GetF1() uint32 {
	if x != nil && x.F1 != nil {
		return *x.F1
	}
	return 0
}

func (x *S34M4) GetF536870910() []uint64 {
	if x != nil {
		return x.F536870910
	}
	return nil
}

func (x *S34M4) GetF14() E {
	if x != nil && x.F14 != nil {
		return *x.F14
	}
	return E_E_ZERO
}

func (x *S34M4) GetF334() uint64 {
	if x != nil {
		return x.F334
	}
	return 0
}

func (x *S34M4) GetO0() isS34M4_O0 {
	if x != nil {
		return x.O0
	}
	return nil
}

func (x *S34M4) GetF10() E {
	if x != nil {
		if x, ok := x.O0.(*S34M4_F10); ok {
			return x.F10
		}
	}
	return E_E_ZERO
}

func (x *S34M4) GetF1003() float64 {
	if x != nil {
		if x, ok := x.O0.(*S34M4_F1003); ok {
			return x.F1003
		}
	}
	return 0
}

func (x *S34M4) GetF7() uint64 {
	if x != nil {
		if x, ok := x.O0.(*S34M4_F7); ok {
			return x.F7
		}
	}
	return 0
}

func (x *S34M4) GetF2() int32 {
	if x != nil {
		if x, ok := x.O0.(*S34M4_F2); ok {
			return x.F2
		}
	}
	return 0
}

type isS34M4_O0 interface {
	isS34M4_O0()
}

type S34M4_F10 struct {
	F10 E `protobuf:"varint,10,opt,name=f10,enum=fxpb.E,oneof"`
}

type S34M4_F1003 struct {
	F1003 float64 `protobuf:"fixed64,1003,opt,name=f1003,oneof"`
}

type S34M4_F7 struct {
	F7 uint64 `protobuf:"varint,7,opt,name=f7,oneof"`
}

type S34M4_F2 struct {
	F2 int32 `protobuf:"zigzag32,2,opt,name=f2,oneof"`
}

func (*S34M4_F10) isS34M4_O0() {}

func (*S34M4_F1003) isS34M4_O0() {}

func (*S34M4_F7) isS34M4_O0() {}

func (*S34M4_F2) isS34M4_O0() {}

type S34M5 struct {
	state protoimpl.MessageState `protogen:"open.v1"`
	F1    []string               `protobuf:"bytes,1,rep,name=f1" json:"f1,omitempty"`
	// Types that are valid to be assigned to O0:
	//
	//	*S34M5_F7
	O0            isS34M5_O0 `protobuf_oneof:"o0"`
	unknownFields protoimpl.UnknownFields
	sizeCache     protoimpl.SizeCache
}

func (x *S34M5) Reset() {
	*x = S34M5{}
	mi := &file_fxpb_proto_msgTypes[126]
	ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
	ms.StoreMessageInfo(mi)
}

func (x *S34M5) String() string {
	return protoimpl.X.MessageStringOf(x)
}

func (*S34M5) ProtoMessage() {}

func (x *S34M5) ProtoReflect() protoreflect.Message {
	mi := &file_fxpb_proto_msgTypes[126]
	if x != nil {
		ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
		if ms.LoadMessageInfo() == nil {
			ms.StoreMessageInfo(mi)
		}
		return ms
	}
	return mi.MessageOf(x)
}

// Deprecated: Use S34M5.ProtoReflect.Descriptor instead.
func (*S34M5) Descriptor() ([]byte, []int) {
	return file_fxpb_proto_rawDescGZIP(), []int{126}
}

func (x *S34M5) GetF1() []string {
	if x != nil {
		return x.F1
	}
	return nil
}

func (x *S34M5) GetO0() isS34M5_O0 {
	if x != nil {
		return x.O0
	}
	return nil
}

func (x *S34M5) GetF7() uint32 {
	if x != nil {
		if x, ok := x.O0.(*S34M5_F7); ok {
			return x.F7
		}
	}
	return 0
}

type isS34M5_O0 interface {
	isS34M5_O0()
}

type S34M5_F7 struct {
	F7 uint32 `protobuf:"varint,7,opt,name=f7,oneof"`
}

func (*S34M5_F7) isS34M5_O0() {}

type S35M1 struct {
	state protoimpl.MessageState `protogen:"open.v1"`
	F170  map[int32]int32        `protobuf:"bytes,170,rep,name=f170" json:"f170,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	F39   map[int64][]byte       `protobuf:"bytes,39,rep,name=f39" json:"f39,omitempty" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	F827  uint32                 `protobuf:"varint,827,opt,name=f827" json:"f827,omitempty"`
	// Types that are valid to be assigned to O0:
	//
	//	*S35M1_F2047
	//	*S35M1_F12
	O0            isS35M1_O0 `protobuf_oneof:"o0"`
	unknownFields protoimpl.UnknownFields
	sizeCache     protoimpl.SizeCache
}

func (x *S35M1) Reset() {
	*x = S35M1{}
	mi := &file_fxpb_proto_msgTypes[127]
	ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
	ms.StoreMessageInfo(mi)
}

func (x *S35M1) String() string {
	return protoimpl.X.MessageStringOf(x)
}

func (*S35M1) ProtoMessage() {}

func (x *S35M1) ProtoReflect() protoreflect.Message {
	mi := &file_fxpb_proto_msgTypes[127]
	if x != nil {
		ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
		if ms.LoadMessageInfo() == nil {
			ms.StoreMessageInfo(mi)
		}
		return ms
	}
	return mi.MessageOf(x)
}

// Deprecated: Use S35M1.ProtoReflect.Descriptor instead.
func (*S35M1) Descriptor() ([]byte, []int) {
	return file_fxpb_proto_rawDescGZIP(), []int{127}
}

func (x *S35M1) GetF170() map[int32]int32 {
	if x != nil {
		return x.F170
	}
	return nil
}

func (x *S35M1) GetF39() map[int64][]byte {
	if x != nil {
		return x.F39
	}
	return nil
}

func (x *S35M1) GetF827() uint32 {
	if x != nil {
		return x.F827
	}
	return 0
}

func (x *S35M1) GetO0() isS35M1_O0 {
	if x != nil {
		return x.O0
	}
	return nil
}

func (x *S35M1) GetF2047() *S35M2 {
	if x != nil {
		if x, ok := x.O0.(*S35M1_F2047); ok {
			return x.F2047
		}
	}
	return nil
}

func (x *S35M1) GetF12() float32 {
	if x != nil {
		if x, ok := x.O0.(*S35M1_F12); ok {
			return x.F12
		}
	}
	return 0
}

type isS35M1_O0 interface {
	isS35M1_O0()
}

type S35M1_F2047 struct {
	F2047 *S35M2 `protobuf:"bytes,2047,opt,name=f2047,oneof"`
}

type S35M1_F12 struct {
	F12 float32 `protobuf:"fixed32,12,opt,name=f12,oneof"`
}

func (*S35M1_F2047) isS35M1_O0() {}

func (*S35M1_F12) isS35M1_O0() {}

type S35M2 struct {
	state     protoimpl.MessageState `protogen:"open.v1"`
	F262144   map[int32]int64        `protobuf:"bytes,262144,rep,name=f262144" json:"f262144,omitempty" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"zigzag64,2,opt,name=value"`
	F33554432 map[uint64]*S35M3      `protobuf:"bytes,33554432,rep,name=f33554432" json:"f33554432,omitempty" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	F12       []uint64               `protobuf:"fixed64,12,rep,name=f12" json:"f12,omitempty"`
	F14       []E                    `protobuf:"varint,14,rep,name=f14,enum=fxpb.E" json:"f14,omitempty"`
	F15       map[uint64]int32       `protobuf:"bytes,15,rep,name=f15" json:"f15,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	// Types that are valid to be assigned to O0:
	//
	//	*S35M2_F815
	O0 isS35M2_O0 `protobuf_oneof:"o0"`
	// Types that are valid to be assigned to O1:
	//
	//	*S35M2_F17
	O1            isS35M2_O1 `protobuf_oneof:"o1"`
	unknownFields protoimpl.UnknownFields
	sizeCache     protoimpl.SizeCache
}

func (x *S35M2) Reset() {
	*x = S35M2{}
	mi := &file_fxpb_proto_msgTypes[128]
	ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
	ms.StoreMessageInfo(mi)
}

func (x *S35M2) String() string {
	return protoimpl.X.MessageStringOf(x)
}

func (*S35M2) ProtoMessage() {}

func (x *S35M2) ProtoReflect() protoreflect.Message {
	mi := &file_fxpb_proto_msgTypes[128]
	if x != nil {
		ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
		if ms.LoadMessageInfo() == nil {
			ms.StoreMessageInfo(mi)
		}
		return ms
	}
	return mi.MessageOf(x)
}

// Deprecated: Use S35M2.ProtoReflect.Descriptor instead.
func (*S35M2) Descriptor() ([]byte, []int) {
	return file_fxpb_proto_rawDescGZIP(), []int{128}
}

func (x *S35M2) GetF262144() map[int32]int64 {
	if x != nil {
		return x.F262144
	}
	return nil
}

func (x *S35M2) GetF33554432() map[uint64]*S35M3 {
	if x != nil {
		return x.F33554432
	}
	return nil
}

func (x *S35M2) GetF12() []uint64 {
	if x != nil {
		return x.F12
	}
	return nil
}

func (x *S35M2) GetF14() []E {
	if x != nil {
		return x.F14
	}
	return nil
}

func (x *S35M2) GetF15() map[uint64]int32 {
	if x != nil {
		return x.F15
	}
	return nil
}

func (x *S35M2) GetO0() isS35M2_O0 {
	if x != nil {
		return x.O0
	}
	return nil
}

func (x *S35M2) GetF815() *S35M4 {
	if x != nil {
		if x, ok := x.O0.(*S35M2_F815); ok {
			return x.F815
		}
	}
	return nil
}

func (x *S35M2) GetO1() isS35M2_O1 {
	if x != nil {
		return x.O1
	}
	return nil
}

func (x *S35M2) GetF17() float64 {
	if x != nil {
		if x, ok := x.O1.(*S35M2_F17); ok {
			return x.F17
		}
	}
	return 0
}

type isS35M2_O0 interface {
	isS35M2_O0()
}

type S35M2_F815 struct {
	F815 *S35M4 `protobuf:"bytes,815,opt,name=f815,oneof"`
}

func (*S35M2_F815) isS35M2_O0() {}

type isS35M2_O1 interface {
	isS35M2_O1()
}

type S35M2_F17 struct {
	F17 float64 `protobuf:"fixed64,17,opt,name=f17,oneof"`
}

func (*S35M2_F17) isS35M2_O1() {}

type S35M3 struct {
	state   protoimpl.MessageState `protogen:"open.v1"`
	F7      int32                  `protobuf:"varint,7,opt,name=f7" json:"f7,omitempty"`
	F10     E                      `protobuf:"varint,10,opt,name=f10,enum=fxpb.E" json:"f10,omitempty"`
	F262143 int64                  `protobuf:"varint,262143,opt,name=f262143" json:"f262143,omitempty"`
	// Types that are valid to be assigned to O0:
	//
	//	*S35M3_F8
	//	*S35M3_F16
	//	*S35M3_F50
	//	*S35M3_F9
	O0            isS35M3_O0 `protobuf_oneof:"o0"`
	unknownFields protoimpl.UnknownFields
	sizeCache     protoimpl.SizeCache
}

func (x *S35M3) Reset() {
	*x = S35M3{}
	mi := &file_fxpb_proto_msgTypes[129]
	ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
	ms.StoreMessageInfo(mi)
}

func (x *S35M3) String() string {
	return protoimpl.X.MessageStringOf(x)
}

func (*S35M3) ProtoMessage() {}

func (x *S35M3) ProtoReflect() protoreflect.Message {
	mi := &file_fxpb_proto_msgTypes[129]
	if x != nil {
		ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
		if ms.LoadMessageInfo() == nil {
			ms.StoreMessageInfo(mi)
		}
		return ms
	}
	return mi.MessageOf(x)
}

// Deprecated: Use S35M3.ProtoReflect.Descriptor instead.
func (*S35M3) Descriptor() ([]byte, []int) {
	return file_fxpb_proto_rawDescGZIP(), []int{129}
}

func (x *S35M3) GetF7() int32 {
	if x != nil {
		return x.F7
	}
	return 0
}

func (x *S35M3) GetF10() E {
	if x != nil {
		return x.F10
	}
	return E_E_ZERO
}

func (x *S35M3) GetF262143() int64 {
	if x != nil {
		return x.F262143
	}
	return 0
}

func (x *S35M3) GetO0() isS35M3_O0 {
	if x != nil {
		return x.O0
	}
	return nil
}

func (x *S35M3) GetF8() uint64 {
	if x != nil {
		if x, ok := x.O0.(*S35M3_F8); ok {
			return x.F8
		}
	}
	return 0
}

func (x *S35M3) GetF16() int64 {
	if x != nil {
		if x, ok := x.O0.(*S35M3_F16); ok {
			return x.F16
		}
	}
	return 0
}

func (x *S35M3) GetF50() uint64 {
	if x != nil {
		if x, ok := x.O0.(*S35M3_F50); ok {
			return x.F50
		}
	}
	return 0
}

func (x *S35M3) GetF9() []byte {
	if x != nil {
		if x, ok := x.O0.(*S35M3_F9); ok {
			return x.F9
		}
	}
	return nil
}

type isS35M3_O0 interface {
	isS35M3_O0()
}

type S35M3_F8 struct {
	F8 uint64 `protobuf:"fixed64,8,opt,name=f8,oneof"`
}

type S35M3_F16 struct {
	F16 int64 `protobuf:"zigzag64,16,opt,name=f16,oneof"`
}

type S35M3_F50 struct {
	F50 uint64 `protobuf:"fixed64,50,opt,name=f50,oneof"`
}

type S35M3_F9 struct {
	F9 []byte `protobuf:"bytes,9,opt,name=f9,oneof"`
}

func (*S35M3_F8) isS35M3_O0() {}

func (*S35M3_F16) isS35M3_O0() {}

func (*S35M3_F50) isS35M3_O0() {}

func (*S35M3_F9) isS35M3_O0() {}

type S35M4 struct {
	state protoimpl.MessageState `protogen:"open.v1"`
	F13   bool                   `protobuf:"varint,13,opt,name=f13" json:"f13,omitempty"`
	F208  uint32                 `protobuf:"fixed32,208,opt,name=f208" json:"f208,omitempty"`
	F374  map[string]uint32      `protobuf:"bytes,374,rep,name=f374" json:"f374,omitempty" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value"`
	F570  []bool                 `protobuf:"varint,570,rep,name=f570" json:"f570,omitempty"`
	F14   map[int32]float64      `protobuf:"bytes,14,rep,name=f14" json:"f14,omitempty" protobuf_key:"zigzag32,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value"`
	// Types that are valid to be assigned to O0:
	//
	//	*S35M4_F561
	O0            isS35M4_O0 `protobuf_oneof:"o0"`
	unknownFields protoimpl.UnknownFields
	sizeCache     protoimpl.SizeCache
}

func (x *S35M4) Reset() {
	*x = S35M4{}
	mi := &file_fxpb_proto_msgTypes[130]
	ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
	ms.StoreMessageInfo(mi)
}

func (x *S35M4) String() string {
	return protoimpl.X.MessageStringOf(x)
}

func (*S35M4) ProtoMessage() {}

func (x *S35M4) ProtoReflect() protoreflect.Message {
	mi := &file_fxpb_proto_msgTypes[130]
	if x != nil {
		ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
		if ms.LoadMessageInfo() == nil {
			ms.StoreMessageInfo(mi)
		}
		return ms
	}
	return mi.MessageOf(x)
}

// Deprecated: Use S35M4.ProtoReflect.Descriptor instead.
func (*S35M4) Descriptor() ([]byte, []int) {
	return file_fxpb_proto_rawDescGZIP(), []int{130}
}

func (x *S35M4) GetF13() bool {
	if x != nil {
		return x.F13
	}
	return false
}

func (x *S35M4) GetF208() uint32 {
	if x != nil {
		return x.F208
	}
	return 0
}

func (x *S35M4) GetF374() map[string]uint32 {
	if x != nil {
		return x.F374
	}
	return nil
}

func (x *S35M4) GetF570() []bool {
	if x != nil {
		return x.F570
	}
	return nil
}

func (x *S35M4) GetF14() map[int32]float64 {
	if x != nil {
		return x.F14
	}
	return nil
}

func (x *S35M4) GetO0() isS35M4_O0 {
	if x != nil {
		return x.O0
	}
	return nil
}

func (x *S35M4) GetF561() float64 {
	if x != nil {
		if x, ok := x.O0.(*S35M4_F561); ok {
			return x.F561
		}
	}
	return 0
}

type isS35M4_O0 interface {
	isS35M4_O0()
}

type S35M4_F561 struct {
	F561 float64 `protobuf:"fixed64,561,opt,name=f561,oneof"`
}

func (*S35M4_F561) isS35M4_O0() {}

type S36M1 struct {
	state protoimpl.MessageState `protogen:"open.v1"`
	F3    *S36M2                 `protobuf:"bytes,3,opt,name=f3" json:"f3,omitempty"`
	F1002 int64                  `protobuf:"fixed64,1002,opt,name=f1002" json:"f1002,omitempty"`
	F4    *int32                 `protobuf:"zigzag32,4,opt,name=f4" json:"f4,omitempty"`
	F5    *S36M7                 `protobuf:"bytes,5,opt,name=f5" json:"f5,omitempty"`
	F1000 uint64                 `protobuf:"varint,1000,opt,name=f1000" json:"f1000,omitempty"`
	F122  []*S36M8               `protobuf:"bytes,122,rep,name=f122" json:"f122,omitempty"`
	F6    *S36M10                `protobuf:"bytes,6,req,name=f6" json:"f6,omitempty"`
	// Types that are valid to be assigned to O0:
	//
	//	*S36M1_F7
	//	*S36M1_F2048
	O0            isS36M1_O0 `protobuf_oneof:"o0"`
	unknownFields protoimpl.UnknownFields
	sizeCache     protoimpl.SizeCache
}

func (x *S36M1) Reset() {
	*x = S36M1{}
	mi := &file_fxpb_proto_msgTypes[131]
	ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
	ms.StoreMessageInfo(mi)
}

func (x *S36M1) String() string {
	return protoimpl.X.MessageStringOf(x)
}

func (*S36M1) ProtoMessage() {}

func (x *S36M1) ProtoReflect() protoreflect.Message {
	mi := &file_fxpb_proto_msgTypes[131]
	if x != nil {
		ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
		if ms.LoadMessageInfo() == nil {
			ms.StoreMessageInfo(mi)
		}
		return ms
	}
	return mi.MessageOf(x)
}

// Deprecated: Use S36M1.ProtoReflect.Descriptor instead.
func (*S36M1) Descriptor() ([]byte, []int) {
	return file_fxpb_proto_rawDescGZIP(), []int{131}
}

func (x *S36M1) GetF3() *S36M2 {
	if x != nil {
		return x.F3
	}
	return nil
}

func (x *S36M1) GetF1002() int64 {
	if x != nil {
		return x.F1002
	}
	return 0
}

func (x *S36M1) GetF4() int32 {
	if x != nil && x.F4 != nil {
		return *x.F4
	}
	return 0
}

func (x *S36M1) GetF5() *S36M7 {
	if x != nil {
		return x.F5
	}
	return nil
}

func (x *S36M1) GetF1000() uint64 {
	if x != nil {
		return x.F1000
	}
	return 0
}

func (x *S36M1) GetF122() []*S36M8 {
	if x != nil {
		return x.F122
	}
	return nil
}

func (x *S36M1) GetF6() *S36M10 {
	if x != nil {
		return x.F6
	}
	return nil
}

func (x *S36M1) GetO0() isS36M1_O0 {
	if x != nil {
		return x.O0
	}
	return nil
}

func (x *S36M1) GetF7() int32 {
	if x != nil {
		if x, ok := x.O0.(*S36M1_F7); ok {
			return x.F7
		}
	}
	return 0
}

func (x *S36M1) GetF2048() *S36M6 {
	if x != nil {
		if x, ok := x.O0.(*S36M1_F2048); ok {
			return x.F2048
		}
	}
	return nil
}

type isS36M1_O0 interface {
	isS36M1_O0()
}

type S36M1_F7 struct {
	F7 int32 `protobuf:"varint,7,opt,name=f7,oneof"`
}

type S36M1_F2048 struct {
	F2048 *S36M6 `protobuf:"bytes,2048,opt,name=f2048,oneof"`
}

func (*S36M1_F7) isS36M1_O0() {}

func (*S36M1_F2048) isS36M1_O0() {}

type S36M2 struct {
	state      protoimpl.MessageState `protogen:"open.v1"`
	F4         *uint64                `protobuf:"varint,4,opt,name=f4" json:"f4,omitempty"`
	F277627129 []bool                 `protobuf:"varint,277627129,rep,packed,name=f277627129" json:"f277627129,omitempty"`
	F262144    *S36M3                 `protobuf:"bytes,262144,req,name=f262144" json:"f262144,omitempty"`
	F5         *E                     `protobuf:"varint,5,opt,name=f5,enum=fxpb.E" json:"f5,omitempty"`
	F15        *S36M4                 `protobuf:"bytes,15,opt,name=f15" json:"f15,omitempty"`
	F471002382 *S36M5                 `protobuf:"bytes,471002382,opt,name=f471002382" json:"f471002382,omitempty"`
	// Types that are valid to be assigned to O0:
	//
	//	*S36M2_F9
	O0            isS36M2_O0 `protobuf_oneof:"o0"`
	unknownFields protoimpl.UnknownFields
	sizeCache     protoimpl.SizeCache
}

func (x *S36M2) Reset() {
	*x = S36M2{}
	mi := &file_fxpb_proto_msgTypes[132]
	ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
	ms.StoreMessageInfo(mi)
}

func (x *S36M2) String() string {
	return protoimpl.X.MessageStringOf(x)
}

func (*S36M2) ProtoMessage() {}

func (x *S36M2) ProtoReflect() protoreflect.Message {
	mi := &file_fxpb_proto_msgTypes[132]
	if x != nil {
		ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
		if ms.LoadMessageInfo() == nil {
			ms.StoreMessageInfo(mi)
		}
		return ms
	}
	return mi.MessageOf(x)
}

// Deprecated: Use S36M2.ProtoReflect.Descriptor instead.
func (*S36M2) Descriptor() ([]byte, []int) {
	return file_fxpb_proto_rawDescGZIP(), []int{132}
}

func (x *S36M2) GetF4() uint64 {
	if x != nil && x.F4 != nil {
		return *x.F4
	}
	return 0
}

func (x *S36M2) GetF277627129() []bool {
	if x != nil {
		return x.F277627129
	}
	return nil
}

func (x *S36M2) GetF262144() *S36M3 {
	if x != nil {
		return x.F262144
	}
	return nil
}

func (x *S36M2) GetF5() E {
	if x != nil && x.F5 != nil {
		return *x.F5
	}
	return E_E_ZERO
}

func (x *S36M2) GetF15() *S36M4 {
	if x != nil {
		return x.F15
	}
	return nil
}

func (x *S36M2) GetF471002382() *S36M5 {
	if x != nil {
		return x.F471002382
	}
	return nil
}

func (x *S36M2) GetO0() isS36M2_O0 {
	if x != nil {
		return x.O0
	}
	return nil
}

func (x *S36M2) GetF9() int64 {
	if x != nil {
		if x, ok := x.O0.(*S36M2_F9); ok {
			return x.F9
		}
	}
	return 0
}

type isS36M2_O0 interface {
	isS36M2_O0()
}

type S36M2_F9 struct {
	F9 int64 `protobuf:"fixed64,9,opt,name=f9,oneof"`
}

func (*S36M2_F9) isS36M2_O0() {}

type S36M3 struct {
	state protoimpl.MessageState `protogen:"open.v1"`
	F217  *int32                 `protobuf:"zigzag32,217,opt,name=f217" json:"f217,omitempty"`
	F2    map[int32]int64        `protobuf:"bytes,2,rep,name=f2" json:"f2,omitempty" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	F3    *E                     `protobuf:"varint,3,opt,name=f3,enum=fxpb.E" json:"f3,omitempty"`
	F997  map[int32]int64        `protobuf:"bytes,997,rep,name=f997" json:"f997,omitempty" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value"`
	F11   map[int64][]byte       `protobuf:"bytes,11,rep,name=f11" json:"f11,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	F12   float64                `protobuf:"fixed64,12,opt,name=f12" json:"f12,omitempty"`
	F7    []int32                `protobuf:"fixed32,7,rep,packed,name=f7" json:"f7,omitempty"`
	F35   uint32                 `protobuf:"fixed32,35,opt,name=f35" json:"f35,omitempty"`
	// Types that are valid to be assigned to O0:
	//
	//	*S36M3_F37
	O0            isS36M3_O0 `protobuf_oneof:"o0"`
	unknownFields protoimpl.UnknownFields
	sizeCache     protoimpl.SizeCache
}

func (x *S36M3) Reset() {
	*x = S36M3{}
	mi := &file_fxpb_proto_msgTypes[133]
	ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
	ms.StoreMessageInfo(mi)
}

func (x *S36M3) String() string {
	return protoimpl.X.MessageStringOf(x)
}

func (*S36M3) ProtoMessage() {}

func (x *S36M3) ProtoReflect() protoreflect.Message {
	mi := &file_fxpb_proto_msgTypes[133]
	if x != nil {
		ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
		if ms.LoadMessageInfo() == nil {
			ms.StoreMessageInfo(mi)
		}
		return ms
	}
	return mi.MessageOf(x)
}

// Deprecated: Use S36M3.ProtoReflect.Descriptor instead.
func (*S36M3) Descriptor() ([]byte, []int) {
	return file_fxpb_proto_rawDescGZIP(), []int{133}
}

func (x *S36M3) GetF217() int32 {
	if x != nil && x.F217 != nil {
		return *x.F217
	}
	return 0
}

func (x *S36M3) GetF2() map[int32]int64 {
	if x != nil {
		return x.F2
	}
	return nil
}

func (x *S36M3) GetF3() E {
	if x != nil && x.F3 != nil {
		return *x.F3
	}
	return E_E_ZERO
}

func (x *S36M3) GetF997() map[int32]int64 {
	if x != nil {
		return x.F997
	}
	return nil
}

func (x *S36M3) GetF11() map[int64][]byte {
	if x != nil {
		return x.F11
	}
	return nil
}

func (x *S36M3) GetF12() float64 {
	if x != nil {
		return x.F12
	}
	return 0
}

func (x *S36M3) GetF7() []int32 {
	if x != nil {
		return x.F7
	}
	return nil
}

func (x *S36M3) GetF35() uint32 {
	if x != nil {
		return x.F35
	}
	return 0
}

func (x *S36M3) GetO0() isS36M3_O0 {
	if x != nil {
		return x.O0
	}
	return nil
}

func (x *S36M3) GetF37() E {
	if x != nil {
		if x, ok := x.O0.(*S36M3_F37); ok {
			return x.F37
		}
	}
	return E_E_ZERO
}

type isS36M3_O0 interface {
	isS36M3_O0()
}

type S36M3_F37 struct {
	F37 E `protobuf:"varint,37,opt,name=f37,enum=fxpb.E,oneof"`
}

func (*S36M3_F37) isS36M3_O0() {}

type S36M4 struct {
	state         protoimpl.MessageState `protogen:"open.v1"`
	F998          map[uint64]uint32      `protobuf:"bytes,998,rep,name=f998" json:"f998,omitempty" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value"`
	F1003         *uint64                `protobuf:"fixed64,1003,opt,name=f1003" json:"f1003,omitempty"`
	F6            [][]byte               `protobuf:"bytes,6,rep,name=f6" json:"f6,omitempty"`
	F39           map[int64]bool         `protobuf:"bytes,39,rep,name=f39" json:"f39,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	unknownFields protoimpl.UnknownFields
	sizeCache     protoimpl.SizeCache
}

func (x *S36M4) Reset() {
	*x = S36M4{}
	mi := &file_fxpb_proto_msgTypes[134]
	ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
	ms.StoreMessageInfo(mi)
}

func (x *S36M4) String() string {
	return protoimpl.X.MessageStringOf(x)
}

func (*S36M4) ProtoMessage() {}

func (x *S36M4) ProtoReflect() protoreflect.Message {
	mi := &file_fxpb_proto_msgTypes[134]
	if x != nil {
		ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
		if ms.LoadMessageInfo() == nil {
			ms.StoreMessageInfo(mi)
		}
		return ms
	}
	return mi.MessageOf(x)
}

// Deprecated: Use S36M4.ProtoReflect.Descriptor instead.
func (*S36M4) Descriptor() ([]byte, []int) {
	return file_fxpb_proto_rawDescGZIP(), []int{134}
}

func (x *S36M4) GetF998() map[uint64]uint32 {
	if x != nil {
		return x.F998
	}
	return nil
}

func (x *S36M4) GetF1003() uint64 {
	if x != nil && x.F1003 != nil {
		return *x.F1003
	}
	return 0
}

func (x *S36M4) GetF6() [][]byte {
	if x != nil {
		return x.F6
	}
	return nil
}

func (x *S36M4) GetF39() map[int64]bool {
	if x != nil {
		return x.F39
	}
	return nil
}

type S36M5 struct {
	state      protoimpl.MessageState `protogen:"open.v1"`
	F7         int32                  `protobuf:"zigzag32,7,opt,name=f7" json:"f7,omitempty"`
	F784       map[bool][]byte        `protobuf:"bytes,784,rep,name=f784" json:"f784,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	F536870910 *float64               `protobuf:"fixed64,536870910,opt,name=f536870910" json:"f536870910,omitempty"`
	F999       *int64                 `protobuf:"fixed64,999,opt,name=f999" json:"f999,omitempty"`
	F16        *uint64                `protobuf:"fixed64,16,opt,name=f16" json:"f16,omitempty"`
	F1001      *float32               `protobuf:"fixed32,1001,req,name=f1001" json:"f1001,omitempty"`
	F30        int32                  `protobuf:"varint,30,opt,name=f30" json:"f30,omitempty"`
	// Types that are valid to be assigned to O0:
	//
	//	*S36M5_F33
	O0            isS36M5_O0 `protobuf_oneof:"o0"`
	unknownFields protoimpl.UnknownFields
	sizeCache     protoimpl.SizeCache
}

func (x *S36M5) Reset() {
	*x = S36M5{}
	mi := &file_fxpb_proto_msgTypes[135]
	ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
	ms.StoreMessageInfo(mi)
}

func (x *S36M5) String() string {
	return protoimpl.X.MessageStringOf(x)
}

func (*S36M5) ProtoMessage() {}

func (x *S36M5) ProtoReflect() protoreflect.Message {
	mi := &file_fxpb_proto_msgTypes[135]
	if x != nil {
		ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
		if ms.LoadMessageInfo() == nil {
			ms.StoreMessageInfo(mi)
		}
		return ms
	}
	return mi.MessageOf(x)
}

// Deprecated: Use S36M5.ProtoReflect.Descriptor instead.
func (*S36M5) Descriptor() ([]byte, []int) {
	return file_fxpb_proto_rawDescGZIP(), []int{135}
}

func (x *S36M5) GetF7() int32 {
	if x != nil {
		return x.F7
	}
	return 0
}

func (x *S36M5) GetF784() map[bool][]byte {
	if x != nil {
		return x.F784
	}
	return nil
}

func (x *S36M5) GetF536870910() float64 {
	if x != nil && x.F536870910 != nil {
		return *x.F536870910
	}
	return 0
}

func (x *S36M5) GetF999() int64 {
	if x != nil && x.F999 != nil {
		return *x.F999
	}
	return 0
}

func (x *S36M5) GetF16() uint64 {
	if x != nil && x.F16 != nil {
		return *x.F16
	}
	return 0
}

func (x *S36M5) GetF1001() float32 {
	if x != nil && x.F1001 != nil {
		return *x.F1001
	}
	return 0
}

func (x *S36M5) GetF30() int32 {
	if x != nil {
		return x.F30
	}
	return 0
}

func (x *S36M5) GetO0() isS36M5_O0 {
	if x != nil {
		return x.O0
	}
	return nil
}

func (x *S36M5) GetF33() []byte {
	if x != nil {
		if x, ok := x.O0.(*S36M5_F33); ok {
			return x.F33
		}
	}
	return nil
}

type isS36M5_O0 interface {
	isS36M5_O0()
}

type S36M5_F33 struct {
	F33 []byte `protobuf:"bytes,33,opt,name=f33,oneof"`
}

func (*S36M5_F33) isS36M5_O0() {}

type S36M6 struct {
	state         protoimpl.MessageState `protogen:"open.v1"`
	F12           []float64              `protobuf:"fixed64,12,rep,packed,name=f12" json:"f12,omitempty"`
	unknownFields protoimpl.UnknownFields
	sizeCache     protoimpl.SizeCache
}

func (x *S36M6) Reset() {
	*x = S36M6{}
	mi := &file_fxpb_proto_msgTypes[136]
	ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
	ms.StoreMessageInfo(mi)
}

func (x *S36M6) String() string {
	return protoimpl.X.MessageStringOf(x)
}

func (*S36M6) ProtoMessage() {}

func (x *S36M6) ProtoReflect() protoreflect.Message {
	mi := &file_fxpb_proto_msgTypes[136]
	if x != nil {
		ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
		if ms.LoadMessageInfo() == nil {
			ms.StoreMessageInfo(mi)
		}
		return ms
	}
	return mi.MessageOf(x)
}

// Deprecated: Use S36M6.ProtoReflect.Descriptor instead.
func (*S36M6) Descriptor() ([]byte, []int) {
	return file_fxpb_proto_rawDescGZIP(), []int{136}
}

func (x *S36M6) GetF12() []float64 {
	if x != nil {
		return x.F12
	}
	return nil
}

type S36M7 struct {
	state         protoimpl.MessageState `protogen:"open.v1"`
	F13           *int64                 `protobuf:"fixed64,13,opt,name=f13" json:"f13,omitempty"`
	F14           [][]byte               `protobuf:"bytes,14,rep,name=f14" json:"f14,omitempty"`
	F15           float64                `protobuf:"fixed64,15,opt,name=f15" json:"f15,omitempty"`
	F9            []*S36M6               `protobuf:"bytes,9,rep,name=f9" json:"f9,omitempty"`
	F11           *S36M4                 `protobuf:"bytes,11,opt,name=f11" json:"f11,omitempty"`
	unknownFields protoimpl.UnknownFields
	sizeCache     protoimpl.SizeCache
}

func (x *S36M7) Reset() {
	*x = S36M7{}
	mi := &file_fxpb_proto_msgTypes[137]
	ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
	ms.StoreMessageInfo(mi)
}

func (x *S36M7) String() string {
	return protoimpl.X.MessageStringOf(x)
}

func (*S36M7) ProtoMessage() {}

func (x *S36M7) ProtoReflect() protoreflect.Message {
	mi := &file_fxpb_proto_msgTypes[137]
	if x != nil {
		ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
		if ms.LoadMessageInfo() == nil {
			ms.StoreMessageInfo(mi)
		}
		return ms
	}
	return mi.MessageOf(x)
}

// Deprecated: Use S36M7.ProtoReflect.Descriptor instead.
func (*S36M7) Descriptor() ([]byte, []int) {
	return file_fxpb_proto_rawDescGZIP(), []int{137}
}

func (x *S36M7) GetF13() int64 {
	if x != nil && x.F13 != nil {
		return *x.F13
	}
	return 0
}

func (x *S36M7) GetF14() [][]byte {
	if x != nil {
		return x.F14
	}
	return nil
}

func (x *S36M7) GetF15() float64 {
	if x != nil {
		return x.F15
	}
	return 0
}

func (x *S36M7) GetF9() []*S36M6 {
	if x != nil {
		return x.F9
	}
	return nil
}

func (x *S36M7) GetF11() *S36M4 {
	if x != nil {
		return x.F11
	}
	return nil
}

type S36M8 struct {
	state         protoimpl.MessageState `protogen:"open.v1"`
	F644          map[int32]*S36M9       `protobuf:"bytes,644,rep,name=f644" json:"f644,omitempty" protobuf_key:"zigzag32,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	F791          *uint32                `protobuf:"fixed32,791,opt,name=f791" json:"f791,omitempty"`
	unknownFields protoimpl.UnknownFields
	sizeCache     protoimpl.SizeCache
}

func (x *S36M8) Reset() {
	*x = S36M8{}
	mi := &file_fxpb_proto_msgTypes[138]
	ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
	ms.StoreMessageInfo(mi)
}

func (x *S36M8) String() string {
	return protoimpl.X.MessageStringOf(x)
}

func (*S36M8) ProtoMessage() {}

func (x *S36M8) ProtoReflect() protoreflect.Message {
	mi := &file_fxpb_proto_msgTypes[138]
	if x != nil {
		ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
		if ms.LoadMessageInfo() == nil {
			ms.StoreMessageInfo(mi)
		}
		return ms
	}
	return mi.MessageOf(x)
}

// Deprecated: Use S36M8.ProtoReflect.Descriptor instead.
func (*S36M8) Descriptor() ([]byte, []int) {
	return file_fxpb_proto_rawDescGZIP(), []int{138}
}

func (x *S36M8) GetF644() map[int32]*S36M9 {
	if x != nil {
		return x.F644
	}
	return nil
}

func (x *S36M8) GetF791() uint32 {
	if x != nil && x.F791 != nil {
		return *x.F791
	}
	return 0
}

type S36M9 struct {
	state         protoimpl.MessageState `protogen:"open.v1"`
	F999          []uint64               `protobuf:"varint,999,rep,name=f999" json:"f999,omitempty"`
	unknownFields protoimpl.UnknownFields
	sizeCache     protoimpl.SizeCache
}

func (x *S36M9) Reset() {
	*x = S36M9{}
	mi := &file_fxpb_proto_msgTypes[139]
	ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
	ms.StoreMessageInfo(mi)
}

func (x *S36M9) String() string {
	return protoimpl.X.MessageStringOf(x)
}

func (*S36M9) ProtoMessage() {}

func (x *S36M9) ProtoReflect() protoreflect.Message {
	mi := &file_fxpb_proto_msgTypes[139]
	if x != nil {
		ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
		if ms.LoadMessageInfo() == nil {
			ms.StoreMessageInfo(mi)
		}
		return ms
	}
	return mi.MessageOf(x)
}

// Deprecated: Use S36M9.ProtoReflect.Descriptor instead.
func (*S36M9) Descriptor() ([]byte, []int) {
	return file_fxpb_proto_rawDescGZIP(), []int{139}
}

func (x *S36M9) GetF999() []uint64 {
	if x != nil {
		return x.F999
	}
	return nil
}

type S36M10 struct {
	state         protoimpl.MessageState `protogen:"open.v1"`
	F285          []*S36M11              `protobuf:"bytes,285,rep,name=f285" json:"f285,omitempty"`
	unknownFields protoimpl.UnknownFields
	sizeCache     protoimpl.SizeCache
}

func (x *S36M10) Reset() {
	*x = S36M10{}
	mi := &file_fxpb_proto_msgTypes[140]
	ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
	ms.StoreMessageInfo(mi)
}

func (x *S36M10) String() string {
	return protoimpl.X.MessageStringOf(x)
}

func (*S36M10) ProtoMessage() {}

func (x *S36M10) ProtoReflect() protoreflect.Message {
	mi := &file_fxpb_proto_msgTypes[140]
	if x != nil {
		ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
		if ms.LoadMessageInfo() == nil {
			ms.StoreMessageInfo(mi)
		}
		return ms
	}
	return mi.MessageOf(x)
}

// Deprecated: Use S36M10.ProtoReflect.Descriptor instead.
func (*S36M10) Descriptor() ([]byte, []int) {
	return file_fxpb_proto_rawDescGZIP(), []int{140}
}

func (x *S36M10) GetF285() []*S36M11 {
	if x != nil {
		return x.F285
	}
	return nil
}

type S36M11 struct {
	state         protoimpl.MessageState `protogen:"open.v1"`
	F2047         uint32                 `protobuf:"fixed32,2047,opt,name=f2047" json:"f2047,omitempty"`
	F3            []string               `protobuf:"bytes,3,rep,name=f3" json:"f3,omitempty"`
	F477          map[int64]int32        `protobuf:"bytes,477,rep,name=f477" json:"f477,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value"`
	F753          []int32                `protobuf:"varint,753,rep,name=f753" json:"f753,omitempty"`
	unknownFields protoimpl.UnknownFields
	sizeCache     protoimpl.SizeCache
}

func (x *S36M11) Reset() {
	*x = S36M11{}
	mi := &file_fxpb_proto_msgTypes[141]
	ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
	ms.StoreMessageInfo(mi)
}

func (x *S36M11) String() string {
	return protoimpl.X.MessageStringOf(x)
}

func (*S36M11) ProtoMessage() {}

func (x *S36M11) ProtoReflect() protoreflect.Message {
	mi := &file_fxpb_proto_msgTypes[141]
	if x != nil {
		ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
		if ms.LoadMessageInfo() == nil {
			ms.StoreMessageInfo(mi)
		}
		return ms
	}
	return mi.MessageOf(x)
}

// Deprecated: Use S36M11.ProtoReflect.Descriptor instead.
func (*S36M11) Descriptor() ([]byte, []int) {
	return file_fxpb_proto_rawDescGZIP(), []int{141}
}

func (x *S36M11) GetF2047() uint32 {
	if x != nil {
		return x.F2047
	}
	return 0
}

func (x *S36M11) GetF3() []string {
	if x != nil {
		return x.F3
	}
	return nil
}

func (x *S36M11) GetF477() map[int64]int32 {
	if x != nil {
		return x.F477
	}
	return nil
}

func (x *S36M11) GetF753() []int32 {
	if x != nil {
		return x.F753
	}
	return nil
}

type S37M1 struct {
	state protoimpl.MessageState `protogen:"open.v1"`
	F932  float64                `protobuf:"fixed64,932,opt,name=f932" json:"f932,omitempty"`
	F4    map[string]*S37M2      `protobuf:"bytes,4,rep,name=f4" json:"f4,omitempty" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	// Types that are valid to be assigned to O0:
	//
	//	*S37M1_F997
	O0            isS37M1_O0 `protobuf_oneof:"o0"`
	unknownFields protoimpl.UnknownFields
	sizeCache     protoimpl.SizeCache
}

func (x *S37M1) Reset() {
	*x = S37M1{}
	mi := &file_fxpb_proto_msgTypes[142]
	ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
	ms.StoreMessageInfo(mi)
}

func (x *S37M1) String() string {
	return protoimpl.X.MessageStringOf(x)
}

func (*S37M1) ProtoMessage() {}

func (x *S37M1) ProtoReflect() protoreflect.Message {
	mi := &file_fxpb_proto_msgTypes[142]
	if x != nil {
		ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
		if ms.LoadMessageInfo() == nil {
			ms.StoreMessageInfo(mi)
		}
		return ms
	}
	return mi.MessageOf(x)
}

// Deprecated: Use S37M1.ProtoReflect.Descriptor instead.
func (*S37M1) Descriptor() ([]byte, []int) {
	return file_fxpb_proto_rawDescGZIP(), []int{142}
}

func (x *S37M1) GetF932() float64 {
	if x != nil {
		return x.F932
	}
	return 0
}

func (x *S37M1) GetF4() map[string]*S37M2 {
	if x != nil {
		return x.F4
	}
	return nil
}

func (x *S37M1) GetO0() isS37M1_O0 {
	if x != nil {
		return x.O0
	}
	return nil
}

func (x *S37M1) GetF997() *S37M4 {
	if x != nil {
		if x, ok := x.O0.(*S37M1_F997); ok {
			return x.F997
		}
	}
	return nil
}

type isS37M1_O0 interface {
	isS37M1_O0()
}

type S37M1_F997 struct {
	F997 *S37M4 `protobuf:"bytes,997,opt,name=f997,oneof"`
}

func (*S37M1_F997) isS37M1_O0() {}

type S37M2 struct {
	state protoimpl.MessageState `protogen:"open.v1"`
	F14   []int64                `protobuf:"fixed64,14,rep,name=f14" json:"f14,omitempty"`
	F15   *S37M3                 `protobuf:"bytes,15,req,name=f15" json:"f15,omitempty"`
	// Types that are valid to be assigned to O0:
	//
	//	*S37M2_F1
	O0 isS37M2_O0 `protobuf_oneof:"o0"`
	// Types that are valid to be assigned to O1:
	//
	//	*S37M2_F262144
	O1            isS37M2_O1 `protobuf_oneof:"o1"`
	unknownFields protoimpl.UnknownFields
	sizeCache     protoimpl.SizeCache
}

func (x *S37M2) Reset() {
	*x = S37M2{}
	mi := &file_fxpb_proto_msgTypes[143]
	ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
	ms.StoreMessageInfo(mi)
}

func (x *S37M2) String() string {
	return protoimpl.X.MessageStringOf(x)
}

func (*S37M2) ProtoMessage() {}

func (x *S37M2) ProtoReflect() protoreflect.Message {
	mi := &file_fxpb_proto_msgTypes[143]
	if x != nil {
		ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
		if ms.LoadMessageInfo() == nil {
			ms.StoreMessageInfo(mi)
		}
		return ms
	}
	return mi.MessageOf(x)
}

// Deprecated: Use S37M2.ProtoReflect.Descriptor instead.
func (*S37M2) Descriptor() ([]byte, []int) {
	return file_fxpb_proto_rawDescGZIP(), []int{143}
}

func (x *S37M2) GetF14() []int64 {
	if x != nil {
		return x.F14
	}
	return nil
}

func (x *S37M2) GetF15() *S37M3 {
	if x != nil {
		return x.F15
	}
	return nil
}

func (x *S37M2) GetO0() isS37M2_O0 {
	if x != nil {
		return x.O0
	}
	return nil
}

func (x *S37M2) GetF1() uint64 {
	if x != nil {
		if x, ok := x.O0.(*S37M2_F1); ok {
			return x.F1
		}
	}
	return 0
}

func (x *S37M2) GetO1() isS37M2_O1 {
	if x != nil {
		return x.O1
	}
	return nil
}

func (x *S37M2) GetF262144() uint64 {
	if x != nil {
		if x, ok := x.O1.(*S37M2_F262144); ok {
			return x.F262144
		}
	}
	return 0
}

type isS37M2_O0 interface {
	isS37M2_O0()
}

type S37M2_F1 struct {
	F1 uint64 `protobuf:"varint,1,opt,name=f1,oneof"`
}

func (*S37M2_F1) isS37M2_O0() {}

type isS37M2_O1 interface {
	isS37M2_O1()
}

type S37M2_F262144 struct {
	F262144 uint64 `protobuf:"fixed64,262144,opt,name=f262144,oneof"`
}

func (*S37M2_F262144) isS37M2_O1() {}

type S37M3 struct {
	state      protoimpl.MessageState `protogen:"open.v1"`
	F1         map[int32]int32        `protobuf:"bytes,1,rep,name=f1" json:"f1,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"zigzag32,2,opt,name=value"`
	F859       []byte                 `protobuf:"bytes,859,opt,name=f859" json:"f859,omitempty"`
	F433580546 map[int64]int32        `protobuf:"bytes,433580546,rep,name=f433580546" json:"f433580546,omitempty" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	F995       []int32                `protobuf:"zigzag32,995,rep,packed,name=f995" json:"f995,omitempty"`
	F381643977 float64                `protobuf:"fixed64,381643977,opt,name=f381643977" json:"f381643977,omitempty"`
	// Types that are valid to be assigned to O0:
	//
	//	*S37M3_F9
	O0 isS37M3_O0 `protobuf_oneof:"o0"`
	// Types that are valid to be assigned to O1:
	//
	//	*S37M3_F536870910
	O1            isS37M3_O1 `protobuf_oneof:"o1"`
	unknownFields protoimpl.UnknownFields
	sizeCache     protoimpl.SizeCache
}

func (x *S37M3) Reset() {
	*x = S37M3{}
	mi := &file_fxpb_proto_msgTypes[144]
	ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
	ms.StoreMessageInfo(mi)
}

func (x *S37M3) String() string {
	return protoimpl.X.MessageStringOf(x)
}

func (*S37M3) ProtoMessage() {}

func (x *S37M3) ProtoReflect() protoreflect.Message {
	mi := &file_fxpb_proto_msgTypes[144]
	if x != nil {
		ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
		if ms.LoadMessageInfo() == nil {
			ms.StoreMessageInfo(mi)
		}
		return ms
	}
	return mi.MessageOf(x)
}

// Deprecated: Use S37M3.ProtoReflect.Descriptor instead.
func (*S37M3) Descriptor() ([]byte, []int) {
	return file_fxpb_proto_rawDescGZIP(), []int{144}
}

func (x *S37M3) GetF1() map[int32]int32 {
	if x != nil {
		return x.F1
	}
	return nil
}

func (x *S37M3) GetF859() []byte {
	if x != nil {
		return x.F859
	}
	return nil
}

func (x *S37M3) GetF433580546() map[int64]int32 {
	if x != nil {
		return x.F433580546
	}
	return nil
}

func (x *S37M3) GetF995() []int32 {
	if x != nil {
		return x.F995
	}
	return nil
}

func (x *S37M3) GetF381643977() float64 {
	if x != nil {
		return x.F381643977
	}
	return 0
}

func (x *S37M3) GetO0() isS37M3_O0 {
	if x != nil {
		return x.O0
	}
	return nil
}

func (x *S37M3) GetF9() int64 {
	if x != nil {
		if x, ok := x.O0.(*S37M3_F9); ok {
			return x.F9
		}
	}
	return 0
}

func (x *S37M3) GetO1() isS37M3_O1 {
	if x != nil {
		return x.O1
	}
	return nil
}

func (x *S37M3) GetF536870910() uint64 {
	if x != nil {
		if x, ok := x.O1.(*S37M3_F536870910); ok {
			return x.F536870910
		}
	}
	return 0
}

type isS37M3_O0 interface {
	isS37M3_O0()
}

type S37M3_F9 struct {
	F9 int64 `protobuf:"zigzag64,9,opt,name=f9,oneof"`
}

func (*S37M3_F9) isS37M3_O0() {}

type isS37M3_O1 interface {
	isS37M3_O1()
}

type S37M3_F536870910 struct {
	F536870910 uint64 `protobuf:"varint,536870910,opt,name=f536870910,oneof"`
}

func (*S37M3_F536870910) isS37M3_O1() {}

type S37M4 struct {
	state      protoimpl.MessageState `protogen:"open.v1"`
	F823       []byte                 `protobuf:"bytes,823,opt,name=f823" json:"f823,omitempty"`
	F2         *S37M3                 `protobuf:"bytes,2,opt,name=f2" json:"f2,omitempty"`
	F18999     uint64                 `protobuf:"varint,18999,opt,name=f18999" json:"f18999,omitempty"`
	F40        map[int32]int64        `protobuf:"bytes,40,rep,name=f40" json:"f40,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"zigzag64,2,opt,name=value"`
	F20000     *bool                  `protobuf:"varint,20000,opt,name=f20000" json:"f20000,omitempty"`
	F3         *S37M6                 `protobuf:"bytes,3,opt,name=f3" json:"f3,omitempty"`
	F11        *float32               `protobuf:"fixed32,11,opt,name=f11" json:"f11,omitempty"`
	F178568561 []byte                 `protobuf:"bytes,178568561,opt,name=f178568561" json:"f178568561,omitempty"`
	// Types that are valid to be assigned to O0:
	//
	//	*S37M4_F7
	O0 isS37M4_O0 `protobuf_oneof:"o0"`
	// Types that are valid to be assigned to O1:
	//
	//	*S37M4_F15
	O1            isS37M4_O1 `protobuf_oneof:"o1"`
	unknownFields protoimpl.UnknownFields
	sizeCache     protoimpl.SizeCache
}

func (x *S37M4) Reset() {
	*x = S37M4{}
	mi := &file_fxpb_proto_msgTypes[145]
	ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
	ms.StoreMessageInfo(mi)
}

func (x *S37M4) String() string {
	return protoimpl.X.MessageStringOf(x)
}

func (*S37M4) ProtoMessage() {}

func (x *S37M4) ProtoReflect() protoreflect.Message {
	mi := &file_fxpb_proto_msgTypes[145]
	if x != nil {
		ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
		if ms.LoadMessageInfo() == nil {
			ms.StoreMessageInfo(mi)
		}
		return ms
	}
	return mi.MessageOf(x)
}

// Deprecated: Use S37M4.ProtoReflect.Descriptor instead.
func (*S37M4) Descriptor() ([]byte, []int) {
	return file_fxpb_proto_rawDescGZIP(), []int{145}
}

func (x *S37M4) GetF823() []byte {
	if x != nil {
		return x.F823
	}
	return nil
}

func (x *S37M4) GetF2() *S37M3 {
	if x != nil {
		return x.F2
	}
	return nil
}

func (x *S37M4) GetF18999() uint64 {
	if x != nil {
		return x.F18999
	}
	return 0
}

func (x *S37M4) GetF40() map[int32]int64 {
	if x != nil {
		return x.F40
	}
	return nil
}

func (x *S37M4) GetF20000() bool {
	if x != nil && x.F20000 != nil {
		return *x.F20000
	}
	return false
}

func (x *S37M4) GetF3() *S37M6 {
	if x != nil {
		return x.F3
	}
	return nil
}

func (x *S37M4) GetF11() float32 {
	if x != nil && x.F11 != nil {
		return *x.F11
	}
	return 0
}

func (x *S37M4) GetF178568561() []byte {
	if x != nil {
		return x.F178568561
	}
	return nil
}

func (x *S37M4) GetO0() isS37M4_O0 {
	if x != nil {
		return x.O0
	}
	return nil
}

func (x *S37M4) GetF7() *S37M5 {
	if x != nil {
		if x, ok := x.O0.(*S37M4_F7); ok {
			return x.F7
		}
	}
	return nil
}

func (x *S37M4) GetO1() isS37M4_O1 {
	if x != nil {
		return x.O1
	}
	return nil
}

func (x *S37M4) GetF15() *S37M3 {
	if x != nil {
		if x, ok := x.O1.(*S37M4_F15); ok {
			return x.F15
		}
	}
	return nil
}

type isS37M4_O0 interface {
	isS37M4_O0()
}

type S37M4_F7 struct {
	F7 *S37M5 `protobuf:"bytes,7,opt,name=f7,oneof"`
}

func (*S37M4_F7) isS37M4_O0() {}

type isS37M4_O1 interface {
	isS37M4_O1()
}

type S37M4_F15 struct {
	F15 *S37M3 `protobuf:"bytes,15,opt,name=f15,oneof"`
}

func (*S37M4_F15) isS37M4_O1() {}

type S37M5 struct {
	state         protoimpl.MessageState `protogen:"open.v1"`
	F1003         *int64                 `protobuf:"zigzag64,1003,opt,name=f1003" json:"f1003,omitempty"`
	unknownFields protoimpl.UnknownFields
	sizeCache     protoimpl.SizeCache
}

func (x *S37M5) Reset() {
	*x = S37M5{}
	mi := &file_fxpb_proto_msgTypes[146]
	ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
	ms.StoreMessageInfo(mi)
}

func (x *S37M5) String() string {
	return protoimpl.X.MessageStringOf(x)
}

func (*S37M5) ProtoMessage() {}

func (x *S37M5) ProtoReflect() protoreflect.Message {
	mi := &file_fxpb_proto_msgTypes[146]
	if x != nil {
		ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
		if ms.LoadMessageInfo() == nil {
			ms.StoreMessageInfo(mi)
		}
		return ms
	}
	return mi.MessageOf(x)
}

// Deprecated: Use S37M5.ProtoReflect.Descriptor instead.
func (*S37M5) Descriptor() ([]byte, []int) {
	return file_fxpb_proto_rawDescGZIP(), []int{146}
}

func (x *S37M5) GetF1003() int64 {
	if x != nil && x.F1003 != nil {
		return *x.F1003
	}
	return 0
}

type S37M6 struct {
	state         protoimpl.MessageState `protogen:"open.v1"`
	F7            *E                     `protobuf:"varint,7,req,name=f7,enum=fxpb.E" json:"f7,omitempty"`
	unknownFields protoimpl.UnknownFields
	sizeCache     protoimpl.SizeCache
}

func (x *S37M6) Reset() {
	*x = S37M6{}
	mi := &file_fxpb_proto_msgTypes[147]
	ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
	ms.StoreMessageInfo(mi)
}

func (x *S37M6) String() string {
	return protoimpl.X.MessageStringOf(x)
}

func (*S37M6) ProtoMessage() {}

func (x *S37M6) ProtoReflect() protoreflect.Message {
	mi := &file_fxpb_proto_msgTypes[147]
	if x != nil {
		ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
		if ms.LoadMessageInfo() == nil {
			ms.StoreMessageInfo(mi)
		}
		return ms
	}
	return mi.MessageOf(x)
}

// Deprecated: Use S37M6.ProtoReflect.Descriptor instead.
func (*S37M6) Descriptor() ([]byte, []int) {
	return file_fxpb_proto_rawDescGZIP(), []int{147}
}

func (x *S37M6) GetF7() E {
	if x != nil && x.F7 != nil {
		return *x.F7
	}
	return E_E_ZERO
}

type S38M1 struct {
	state protoimpl.MessageState `protogen:"open.v1"`
	F1006 float32                `protobuf:"fixed32,1006,opt,name=f1006" json:"f1006,omitempty"`
	F15   map[int64]*S38M2       `protobuf:"bytes,15,rep,name=f15" json:"f15,omitempty" protobuf_key:"zigzag64,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	// Types that are valid to be assigned to O0:
	//
	//	*S38M1_F13
	O0            isS38M1_O0 `protobuf_oneof:"o0"`
	unknownFields protoimpl.UnknownFields
	sizeCache     protoimpl.SizeCache
}

func (x *S38M1) Reset() {
	*x = S38M1{}
	mi := &file_fxpb_proto_msgTypes[148]
	ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
	ms.StoreMessageInfo(mi)
}

func (x *S38M1) String() string {
	return protoimpl.X.MessageStringOf(x)
}

func (*S38M1) ProtoMessage() {}

func (x *S38M1) ProtoReflect() protoreflect.Message {
	mi := &file_fxpb_proto_msgTypes[148]
	if x != nil {
		ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
		if ms.LoadMessageInfo() == nil {
			ms.StoreMessageInfo(mi)
		}
		return ms
	}
	return mi.MessageOf(x)
}

// Deprecated: Use S38M1.ProtoReflect.Descriptor instead.
func (*S38M1) Descriptor() ([]byte, []int) {
	return file_fxpb_proto_rawDescGZIP(), []int{148}
}

func (x *S38M1) GetF1006() float32 {
	if x != nil {
		return x.F1006
	}
	return 0
}

func (x *S38M1) GetF15() map[int64]*S38M2 {
	if x != nil {
		return x.F15
	}
	return nil
}

func (x *S38M1) GetO0() isS38M1_O0 {
	if x != nil {
		return x.O0
	}
	return nil
}

func (x *S38M1) GetF13() float32 {
	if x != nil {
		if x, ok := x.O0.(*S38M1_F13); ok {
			return x.F13
		}
	}
	return 0
}

type isS38M1_O0 interface {
	isS38M1_O0()
}

type S38M1_F13 struct {
	F13 float32 `protobuf:"fixed32,13,opt,name=f13,oneof"`
}

func (*S38M1_F13) isS38M1_O0() {}

type S38M2 struct {
	state protoimpl.MessageState `protogen:"open.v1"`
	F465  []int64                `protobuf:"varint,465,rep,packed,name=f465" json:"f465,omitempty"`
	F6    []int64                `protobuf:"fixed64,6,rep,packed,name=f6" json:"f6,omitempty"`
	// Types that are valid to be assigned to O0:
	//
	//	*S38M2_F997
	O0 isS38M2_O0 `protobuf_oneof:"o0"`
	// Types that are valid to be assigned to O1:
	//
	//	*S38M2_F4
	O1            isS38M2_O1 `protobuf_oneof:"o1"`
	unknownFields protoimpl.UnknownFields
	sizeCache     protoimpl.SizeCache
}

func (x *S38M2) Reset() {
	*x = S38M2{}
	mi := &file_fxpb_proto_msgTypes[149]
	ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
	ms.StoreMessageInfo(mi)
}

func (x *S38M2) String() string {
	return protoimpl.X.MessageStringOf(x)
}

func (*S38M2) ProtoMessage() {}

func (x *S38M2) ProtoReflect() protoreflect.Message {
	mi := &file_fxpb_proto_msgTypes[149]
	if x != nil {
		ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
		if ms.LoadMessageInfo() == nil {
			ms.StoreMessageInfo(mi)
		}
		return ms
	}
	return mi.MessageOf(x)
}

// Deprecated: Use S38M2.ProtoReflect.Descriptor instead.
func (*S38M2) Descriptor() ([]byte, []int) {
	return file_fxpb_proto_rawDescGZIP(), []int{149}
}

func (x *S38M2) GetF465() []int64 {
	if x != nil {
		return x.F465
	}
	return nil
}

func (x *S38M2) GetF6() []int64 {
	if x != nil {
		return x.F6
	}
	return nil
}

func (x *S38M2) GetO0() isS38M2_O0 {
	if x != nil {
		return x.O0
	}
	return nil
}

func (x *S38M2) GetF997() *S38M3 {
	if x != nil {
		if x, ok := x.O0.(*S38M2_F997); ok {
			return x.F997
		}
	}
	return nil
}

func (x *S38M2) GetO1() isS38M2_O1 {
	if x != nil {
		return x.O1
	}
	return nil
}

func (x *S38M2) GetF4() int64 {
	if x != nil {
		if x, ok := x.O1.(*S38M2_F4); ok {
			return x.F4
		}
	}
	return 0
}

type isS38M2_O0 interface {
	isS38M2_O0()
}

type S38M2_F997 struct {
	F997 *S38M3 `protobuf:"bytes,997,opt,name=f997,oneof"`
}

func (*S38M2_F997) isS38M2_O0() {}

type isS38M2_O1 interface {
	isS38M2_O1()
}

type S38M2_F4 struct {
	F4 int64 `protobuf:"varint,4,opt,name=f4,oneof"`
}

func (*S38M2_F4) isS38M2_O1() {}

type S38M3 struct {
	state         protoimpl.MessageState `protogen:"open.v1"`
	F6            E                      `protobuf:"varint,6,opt,name=f6,enum=fxpb.E" json:"f6,omitempty"`
	unknownFields protoimpl.UnknownFields
	sizeCache     protoimpl.SizeCache
}

func (x *S38M3) Reset() {
	*x = S38M3{}
	mi := &file_fxpb_proto_msgTypes[150]
	ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
	ms.StoreMessageInfo(mi)
}

func (x *S38M3) String() string {
	return protoimpl.X.MessageStringOf(x)
}

func (*S38M3) ProtoMessage() {}

func (x *S38M3) ProtoReflect() protoreflect.Message {
	mi := &file_fxpb_proto_msgTypes[150]
	if x != nil {
		ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
		if ms.LoadMessageInfo() == nil {
			ms.StoreMessageInfo(mi)
		}
		return ms
	}
	return mi.MessageOf(x)
}

// Deprecated: Use S38M3.ProtoReflect.Descriptor instead.
func (*S38M3) Descriptor() ([]byte, []int) {
	return file_fxpb_proto_rawDescGZIP(), []int{150}
}

func (x *S38M3) GetF6() E {
	if x != nil {
		return x.F6
	}
	return E_E_ZERO
}

type S39M1 struct {
	state protoimpl.MessageState `protogen:"open.v1"`
	F24   map[uint64]uint32      `protobuf:"bytes,24,rep,name=f24" json:"f24,omitempty" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	F3    *S39M3                 `protobuf:"bytes,3,opt,name=f3" json:"f3,omitempty"`
	F6    int32                  `protobuf:"fixed32,6,opt,name=f6" json:"f6,omitempty"`
	F7    *S39M4                 `protobuf:"bytes,7,req,name=f7" json:"f7,omitempty"`
	F8    map[bool]*S39M6        `protobuf:"bytes,8,rep,name=f8" json:"f8,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	// Types that are valid to be assigned to O0:
	//
	//	*S39M1_F5
	O0            isS39M1_O0 `protobuf_oneof:"o0"`
	unknownFields protoimpl.UnknownFields
	sizeCache     protoimpl.SizeCache
}

func (x *S39M1) Reset() {
	*x = S39M1{}
	mi := &file_fxpb_proto_msgTypes[151]
	ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
	ms.StoreMessageInfo(mi)
}

func (x *S39M1) String() string {
	return protoimpl.X.MessageStringOf(x)
}

func (*S39M1) ProtoMessage() {}

func (x *S39M1) ProtoReflect() protoreflect.Message {
	mi := &file_fxpb_proto_msgTypes[151]
	if x != nil {
		ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
		if ms.LoadMessageInfo() == nil {
			ms.StoreMessageInfo(mi)
		}
		return ms
	}
	return mi.MessageOf(x)
}

// Deprecated: Use S39M1.ProtoReflect.Descriptor instead.
func (*S39M1) Descriptor() ([]byte, []int) {
	return file_fxpb_proto_rawDescGZIP(), []int{151}
}

func (x *S39M1) GetF24() map[uint64]uint32 {
	if x != nil {
		return x.F24
	}
	return nil
}

func (x *S39M1) GetF3() *S39M3 {
	if x != nil {
		return x.F3
	}
	return nil
}

func (x *S39M1) GetF6() int32 {
	if x != nil {
		return x.F6
	}
	return 0
}

func (x *S39M1) GetF7() *S39M4 {
	if x != nil {
		return x.F7
	}
	return nil
}

func (x *S39M1) GetF8() map[bool]*S39M6 {
	if x != nil {
		return x.F8
	}
	return nil
}

func (x *S39M1) GetO0() isS39M1_O0 {
	if x != nil {
		return x.O0
	}
	return nil
}

func (x *S39M1) GetF5() *S39M2 {
	if x != nil {
		if x, ok := x.O0.(*S39M1_F5); ok {
			return x.F5
		}
	}
	return nil
}

type isS39M1_O0 interface {
	isS39M1_O0()
}

type S39M1_F5 struct {
	F5 *S39M2 `protobuf:"bytes,5,opt,name=f5,oneof"`
}

func (*S39M1_F5) isS39M1_O0() {}

type S39M2 struct {
	state protoimpl.MessageState `protogen:"open.v1"`
	F997  []byte                 `protobuf:"bytes,997,opt,name=f997" json:"f997,omitempty"`
	// Types that are valid to be assigned to O0:
	//
	//	*S39M2_F8
	O0            isS39M2_O0 `protobuf_oneof:"o0"`
	unknownFields protoimpl.UnknownFields
	sizeCache     protoimpl.SizeCache
}

func (x *S39M2) Reset() {
	*x = S39M2{}
	mi := &file_fxpb_proto_msgTypes[152]
	ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
	ms.StoreMessageInfo(mi)
}

func (x *S39M2) String() string {
	return protoimpl.X.MessageStringOf(x)
}

func (*S39M2) ProtoMessage() {}

func (x *S39M2) ProtoReflect() protoreflect.Message {
	mi := &file_fxpb_proto_msgTypes[152]
	if x != nil {
		ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
		if ms.LoadMessageInfo() == nil {
			ms.StoreMessageInfo(mi)
		}
		return ms
	}
	return mi.MessageOf(x)
}

// Deprecated: Use S39M2.ProtoReflect.Descriptor instead.
func (*S39M2) Descriptor() ([]byte, []int) {
	return file_fxpb_proto_rawDescGZIP(), []int{152}
}

func (x *S39M2) GetF997() []byte {
	if x != nil {
		return x.F997
	}
	return nil
}

func (x *S39M2) GetO0() isS39M2_O0 {
	if x != nil {
		return x.O0
	}
	return nil
}

func (x *S39M2) GetF8() int64 {
	if x != nil {
		if x, ok := x.O0.(*S39M2_F8); ok {
			return x.F8
		}
	}
	return 0
}

type isS39M2_O0 interface {
	isS39M2_O0()
}

type S39M2_F8 struct {
	F8 int64 `protobuf:"fixed64,8,opt,name=f8,oneof"`
}

func (*S39M2_F8) isS39M2_O0() {}

type S39M3 struct {
	state         protoimpl.MessageState `protogen:"open.v1"`
	F13           *int64                 `protobuf:"zigzag64,13,opt,name=f13" json:"f13,omitempty"`
	F16           *string                `protobuf:"bytes,16,opt,name=f16" json:"f16,omitempty"`
	F12           map[uint32]bool        `protobuf:"bytes,12,rep,name=f12" json:"f12,omitempty" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	F536870911    map[string]uint64      `protobuf:"bytes,536870911,rep,name=f536870911" json:"f536870911,omitempty" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value"`
	F14           int64                  `protobuf:"varint,14,opt,name=f14" json:"f14,omitempty"`
	F7            map[bool]int64         `protobuf:"bytes,7,rep,name=f7" json:"f7,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value"`
	F10           uint64                 `protobuf:"fixed64,10,opt,name=f10" json:"f10,omitempty"`
	unknownFields protoimpl.UnknownFields
	sizeCache     protoimpl.SizeCache
}

func (x *S39M3) Reset() {
	*x = S39M3{}
	mi := &file_fxpb_proto_msgTypes[153]
	ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
	ms.StoreMessageInfo(mi)
}

func (x *S39M3) String() string {
	return protoimpl.X.MessageStringOf(x)
}

func (*S39M3) ProtoMessage() {}

func (x *S39M3) ProtoReflect() protoreflect.Message {
	mi := &file_fxpb_proto_msgTypes[153]
	if x != nil {
		ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
		if ms.LoadMessageInfo() == nil {
			ms.StoreMessageInfo(mi)
		}
		return ms
	}
	return mi.MessageOf(x)
}

// Deprecated: Use S39M3.ProtoReflect.Descriptor instead.
func (*S39M3) Descriptor() ([]byte, []int) {
	return file_fxpb_proto_rawDescGZIP(), []int{153}
}

func (x *S39M3) GetF13() int64 {
	if x != nil && x.F13 != nil {
		return *x.F13
	}
	return 0
}

func (x *S39M3) GetF16() string {
	if x != nil && x.F16 != nil {
		return *x.F16
	}
	return ""
}

func (x *S39M3) GetF12() map[uint32]bool {
	if x != nil {
		return x.F12
	}
	return nil
}

func (x *S39M3) GetF536870911() map[string]uint64 {
	if x != nil {
		return x.F536870911
	}
	return nil
}

func (x *S39M3) GetF14() int64 {
	if x != nil {
		return x.F14
	}
	return 0
}

func (x *S39M3) GetF7() map[bool]int64 {
	if x != nil {
		return x.F7
	}
	return nil
}

func (x *S39M3) GetF10() uint64 {
	if x != nil {
		return x.F10
	}
	return 0
}

type S39M4 struct {
	state         protoimpl.MessageState `protogen:"open.v1"`
	F7            []string               `protobuf:"bytes,7,rep,name=f7" json:"f7,omitempty"`
	F14           []int64                `protobuf:"zigzag64,14,rep,name=f14" json:"f14,omitempty"`
	F20000        map[uint32]float64     `protobuf:"bytes,20000,rep,name=f20000" json:"f20000,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value"`
	F26           map[int32]uint64       `protobuf:"bytes,26,rep,name=f26" json:"f26,omitempty" protobuf_key:"zigzag32,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	F12           *S39M5                 `protobuf:"bytes,12,opt,name=f12" json:"f12,omitempty"`
	F3            *uint64                `protobuf:"varint,3,opt,name=f3" json:"f3,omitempty"`
	F200408845    map[int64]int32        `protobuf:"bytes,200408845,rep,name=f200408845" json:"f200408845,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	F4            *uint32                `protobuf:"fixed32,4,opt,name=f4" json:"f4,omitempty"`
	F428          map[uint64]int64       `protobuf:"bytes,428,rep,name=f428" json:"f428,omitempty" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"zigzag64,2,opt,name=value"`
	F536870910    *S39M5                 `protobuf:"bytes,536870910,opt,name=f536870910" json:"f536870910,omitempty"`
	unknownFields protoimpl.UnknownFields
	sizeCache     protoimpl.SizeCache
}

func (x *S39M4) Reset() {
	*x = S39M4{}
	mi := &file_fxpb_proto_msgTypes[154]
	ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
	ms.StoreMessageInfo(mi)
}

func (x *S39M4) String() string {
	return protoimpl.X.MessageStringOf(x)
}

func (*S39M4) ProtoMessage() {}

func (x *S39M4) ProtoReflect() protoreflect.Message {
	mi := &file_fxpb_proto_msgTypes[154]
	if x != nil {
		ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
		if ms.LoadMessageInfo() == nil {
			ms.StoreMessageInfo(mi)
		}
		return ms
	}
	return mi.MessageOf(x)
}

// Deprecated: Use S39M4.ProtoReflect.Descriptor instead.
func (*S39M4) Descriptor() ([]byte, []int) {
	return file_fxpb_proto_rawDescGZIP(), []int{154}
}

func (x *S39M4) GetF7() []string {
	if x != nil {
		return x.F7
	}
	return nil
}

func (x *S39M4) GetF14() []int64 {
	if x != nil {
		return x.F14
	}
	return nil
}

func (x *S39M4) GetF20000() map[uint32]float64 {
	if x != nil {
		return x.F20000
	}
	return nil
}

func (x *S39M4) GetF26() map[int32]uint64 {
	if x != nil {
		return x.F26
	}
	return nil
}

func (x *S39M4) GetF12() *S39M5 {
	if x != nil {
		return x.F12
	}
	return nil
}

func (x *S39M4) GetF3() uint64 {
	if x != nil && x.F3 != nil {
		return *x.F3
	}
	return 0
}

func (x *S39M4) GetF200408845() map[int64]int32 {
	if x != nil {
		return x.F200408845
	}
	return nil
}

func (x *S39M4) GetF4() uint32 {
	if x != nil && x.F4 != nil {
		return *x.F4
	}
	return 0
}

func (x *S39M4) GetF428() map[uint64]int64 {
	if x != nil {
		return x.F428
	}
	return nil
}

func (x *S39M4) GetF536870910() *S39M5 {
	if x != nil {
		return x.F536870910
	}
	return nil
}

type S39M5 struct {
	state         protoimpl.MessageState `protogen:"open.v1"`
	F4            string                 `protobuf:"bytes,4,opt,name=f4" json:"f4,omitempty"`
	F80           *int32                 `protobuf:"fixed32,80,opt,name=f80" json:"f80,omitempty"`
	F13           *int32                 `protobuf:"fixed32,13,opt,name=f13" json:"f13,omitempty"`
	F38           []int32                `protobuf:"varint,38,rep,name=f38" json:"f38,omitempty"`
	F18999        map[uint32]int64       `protobuf:"bytes,18999,rep,name=f18999" json:"f18999,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value"`
	F9            []bool                 `protobuf:"varint,9,rep,name=f9" json:"f9,omitempty"`
	F10           []byte                 `protobuf:"bytes,10,opt,name=f10" json:"f10,omitempty"`
	unknownFields protoimpl.UnknownFields
	sizeCache     protoimpl.SizeCache
}

func (x *S39M5) Reset() {
	*x = S39M5{}
	mi := &file_fxpb_proto_msgTypes[155]
	ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
	ms.StoreMessageInfo(mi)
}

func (x *S39M5) String() string {
	return protoimpl.X.MessageStringOf(x)
}

func (*S39M5) ProtoMessage() {}

func (x *S39M5) ProtoReflect() protoreflect.Message {
	mi := &file_fxpb_proto_msgTypes[155]
	if x != nil {
		ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
		if ms.LoadMessageInfo() == nil {
			ms.StoreMessageInfo(mi)
		}
		return ms
	}
	return mi.MessageOf(x)
}

// Deprecated: Use S39M5.ProtoReflect.Descriptor instead.
func (*S39M5) Descriptor() ([]byte, []int) {
	return file_fxpb_proto_rawDescGZIP(), []int{155}
}

func (x *S39M5) GetF4() string {
	if x != nil {
		return x.F4
	}
	return ""
}

func (x *S39M5) GetF80() int32 {
	if x != nil && x.F80 != nil {
		return *x.F80
	}
	return 0
}

func (x *S39M5) GetF13() int32 {
	if x != nil && x.F13 != nil {
		return *x.F13
	}
	return 0
}

func (x *S39M5) GetF38() []int32 {
	if x != nil {
		return x.F38
	}
	return nil
}

func (x *S39M5) GetF18999() map[uint32]int64 {
	if x != nil {
		return x.F18999
	}
	return nil
}

func (x *S39M5) GetF9() []bool {
	if x != nil {
		return x.F9
	}
	return nil
}

func (x *S39M5) GetF10() []byte {
	if x != nil {
		return x.F10
	}
	return nil
}

type S39M6 struct {
	state         protoimpl.MessageState `protogen:"open.v1"`
	F536870911    []int64                `protobuf:"zigzag64,536870911,rep,name=f536870911" json:"f536870911,omitempty"`
	unknownFields protoimpl.UnknownFields
	sizeCache     protoimpl.SizeCache
}

func (x *S39M6) Reset() {
	*x = S39M6{}
	mi := &file_fxpb_proto_msgTypes[156]
	ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
	ms.StoreMessageInfo(mi)
}

func (x *S39M6) String() string {
	return protoimpl.X.MessageStringOf(x)
}

func (*S39M6) ProtoMessage() {}

func (x *S39M6) ProtoReflect() protoreflect.Message {
	mi := &file_fxpb_proto_msgTypes[156]
	if x != nil {
		ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
		if ms.LoadMessageInfo() == nil {
			ms.StoreMessageInfo(mi)
		}
		return ms
	}
	return mi.MessageOf(x)
}

// Deprecated: Use S39M6.ProtoReflect.Descriptor instead.
func (*S39M6) Descriptor() ([]byte, []int) {
	return file_fxpb_proto_rawDescGZIP(), []int{156}
}

func (x *S39M6) GetF536870911() []int64 {
	if x != nil {
		return x.F536870911
	}
	return nil
}

type S40M1 struct {
	state         protoimpl.MessageState `protogen:"open.v1"`
	F11           uint64                 `protobuf:"varint,11,opt,name=f11" json:"f11,omitempty"`
	F1            []int64                `protobuf:"fixed64,1,rep,name=f1" json:"f1,omitempty"`
	F8            [][]byte               `protobuf:"bytes,8,rep,name=f8" json:"f8,omitempty"`
	F999          *int32                 `protobuf:"fixed32,999,opt,name=f999" json:"f999,omitempty"`
	unknownFields protoimpl.UnknownFields
	sizeCache     protoimpl.SizeCache
}

func (x *S40M1) Reset() {
	*x = S40M1{}
	mi := &file_fxpb_proto_msgTypes[157]
	ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
	ms.StoreMessageInfo(mi)
}

func (x *S40M1) String() string {
	return protoimpl.X.MessageStringOf(x)
}

func (*S40M1) ProtoMessage() {}

func (x *S40M1) ProtoReflect() protoreflect.Message {
	mi := &file_fxpb_proto_msgTypes[157]
	if x != nil {
		ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
		if ms.LoadMessageInfo() == nil {
			ms.StoreMessageInfo(mi)
		}
		return ms
	}
	return mi.MessageOf(x)
}

// Deprecated: Use S40M1.ProtoReflect.Descriptor instead.
func (*S40M1) Descriptor() ([]byte, []int) {
	return file_fxpb_proto_rawDescGZIP(), []int{157}
}

func (x *S40M1) GetF11() uint64 {
	if x != nil {
		return x.F11
	}
	return 0
}

func (x *S40M1) GetF1() []int64 {
	if x != nil {
		return x.F1
	}
	return nil
}

func (x *S40M1) GetF8() [][]byte {
	if x != nil {
		return x.F8
	}
	return nil
}

func (x *S40M1) GetF999() int32 {
	if x != nil && x.F999 != nil {
		return *x.F999
	}
	return 0
}

type S41M1 struct {
	state     protoimpl.MessageState `protogen:"open.v1"`
	F85119314 *int64                 `protobuf:"zigzag64,85119314,opt,name=f85119314" json:"f85119314,omitempty"`
	F10       *string                `protobuf:"bytes,10,opt,name=f10" json:"f10,omitempty"`
	// Types that are valid to be assigned to O0:
	//
	//	*S41M1_F36
	O0            isS41M1_O0 `protobuf_oneof:"o0"`
	unknownFields protoimpl.UnknownFields
	sizeCache     protoimpl.SizeCache
}

func (x *S41M1) Reset() {
	*x = S41M1{}
	mi := &file_fxpb_proto_msgTypes[158]
	ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
	ms.StoreMessageInfo(mi)
}

func (x *S41M1) String() string {
	return protoimpl.X.MessageStringOf(x)
}

func (*S41M1) ProtoMessage() {}

func (x *S41M1) ProtoReflect() protoreflect.Message {
	mi := &file_fxpb_proto_msgTypes[158]
	if x != nil {
		ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
		if ms.LoadMessageInfo() == nil {
			ms.StoreMessageInfo(mi)
		}
		return ms
	}
	return mi.MessageOf(x)
}

// Deprecated: Use S41M1.ProtoReflect.Descriptor instead.
func (*S41M1) Descriptor() ([]byte, []int) {
	return file_fxpb_proto_rawDescGZIP(), []int{158}
}

func (x *S41M1) GetF85119314() int64 {
	if x != nil && x.F85119314 != nil {
		return *x.F85119314
	}
	return 0
}

func (x *S41M1) GetF10() string {
	if x != nil && x.F10 != nil {
		return *x.F10
	}
	return ""
}

func (x *S41M1) GetO0() isS41M1_O0 {
	if x != nil {
		return x.O0
	}
	return nil
}

func (x *S41M1) GetF36() *S41M2 {
	if x != nil {
		if x, ok := x.O0.(*S41M1_F36); ok {
			return x.F36
		}
	}
	return nil
}

type isS41M1_O0 interface {
	isS41M1_O0()
}

type S41M1_F36 struct {
	F36 *S41M2 `protobuf:"bytes,36,opt,name=f36,oneof"`
}

func (*S41M1_F36) isS41M1_O0() {}

type S41M2 struct {
	state         protoimpl.MessageState `protogen:"open.v1"`
	F4            *S41M3                 `protobuf:"bytes,4,opt,name=f4" json:"f4,omitempty"`
	F13           []float32              `protobuf:"fixed32,13,rep,name=f13" json:"f13,omitempty"`
	F179486644    float64                `protobuf:"fixed64,179486644,opt,name=f179486644" json:"f179486644,omitempty"`
	unknownFields protoimpl.UnknownFields
	sizeCache     protoimpl.SizeCache
}

func (x *S41M2) Reset() {
	*x = S41M2{}
	mi := &file_fxpb_proto_msgTypes[159]
	ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
	ms.StoreMessageInfo(mi)
}

func (x *S41M2) String() string {
	return protoimpl.X.MessageStringOf(x)
}

func (*S41M2) ProtoMessage() {}

func (x *S41M2) ProtoReflect() protoreflect.Message {
	mi := &file_fxpb_proto_msgTypes[159]
	if x != nil {
		ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
		if ms.LoadMessageInfo() == nil {
			ms.StoreMessageInfo(mi)
		}
		return ms
	}
	return mi.MessageOf(x)
}

// Deprecated: Use S41M2.ProtoReflect.Descriptor instead.
func (*S41M2) Descriptor() ([]byte, []int) {
	return file_fxpb_proto_rawDescGZIP(), []int{159}
}

func (x *S41M2) GetF4() *S41M3 {
	if x != nil {
		return x.F4
	}
	return nil
}

func (x *S41M2) GetF13() []float32 {
	if x != nil {
		return x.F13
	}
	return nil
}

func (x *S41M2) GetF179486644() float64 {
	if x != nil {
		return x.F179486644
	}
	return 0
}

type S41M3 struct {
	state protoimpl.MessageState `protogen:"open.v1"`
	F626  *uint64                `protobuf:"fixed64,626,opt,name=f626" json:"f626,omitempty"`
	F26   []int32                `protobuf:"zigzag32,26,rep,name=f26" json:"f26,omitempty"`
	F4    *int64                 `protobuf:"fixed64,4,opt,name=f4" json:"f4,omitempty"`
	// Types that are valid to be assigned to O0:
	//
	//	*S41M3_F3
	O0            isS41M3_O0 `protobuf_oneof:"o0"`
	unknownFields protoimpl.UnknownFields
	sizeCache     protoimpl.SizeCache
}

func (x *S41M3) Reset() {
	*x = S41M3{}
	mi := &file_fxpb_proto_msgTypes[160]
	ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
	ms.StoreMessageInfo(mi)
}

func (x *S41M3) String() string {
	return protoimpl.X.MessageStringOf(x)
}

func (*S41M3) ProtoMessage() {}

func (x *S41M3) ProtoReflect() protoreflect.Message {
	mi := &file_fxpb_proto_msgTypes[160]
	if x != nil {
		ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
		if ms.LoadMessageInfo() == nil {
			ms.StoreMessageInfo(mi)
		}
		return ms
	}
	return mi.MessageOf(x)
}

// Deprecated: Use S41M3.ProtoReflect.Descriptor instead.
func (*S41M3) Descriptor() ([]byte, []int) {
	return file_fxpb_proto_rawDescGZIP(), []int{160}
}

func (x *S41M3) GetF626() uint64 {
	if x != nil && x.F626 != nil {
		return *x.F626
	}
	return 0
}

func (x *S41M3) GetF26() []int32 {
	if x != nil {
		return x.F26
	}
	return nil
}

func (x *S41M3) GetF4() int64 {
	if x != nil && x.F4 != nil {
		return *x.F4
	}
	return 0
}

func (x *S41M3) GetO0() isS41M3_O0 {
	if x != nil {
		return x.O0
	}
	return nil
}

func (x *S41M3) GetF3() uint32 {
	if x != nil {
		if x, ok := x.O0.(*S41M3_F3); ok {
			return x.F3
		}
	}
	return 0
}

type isS41M3_O0 interface {
	isS41M3_O0()
}

type S41M3_F3 struct {
	F3 uint32 `protobuf:"fixed32,3,opt,name=f3,oneof"`
}

func (*S41M3_F3) isS41M3_O0() {}

type S42M1 struct {
	state         protoimpl.MessageState `protogen:"open.v1"`
	F15           []float64              `protobuf:"fixed64,15,rep,packed,name=f15" json:"f15,omitempty"`
	F515          map[uint64]int32       `protobuf:"bytes,515,rep,name=f515" json:"f515,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"zigzag32,2,opt,name=value"`
	F997          *int32                 `protobuf:"zigzag32,997,opt,name=f997" json:"f997,omitempty"`
	F1006         []uint32               `protobuf:"varint,1006,rep,packed,name=f1006" json:"f1006,omitempty"`
	unknownFields protoimpl.UnknownFields
	sizeCache     protoimpl.SizeCache
}

func (x *S42M1) Reset() {
	*x = S42M1{}
	mi := &file_fxpb_proto_msgTypes[161]
	ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
	ms.StoreMessageInfo(mi)
}

func (x *S42M1) String() string {
	return protoimpl.X.MessageStringOf(x)
}

func (*S42M1) ProtoMessage() {}

func (x *S42M1) ProtoReflect() protoreflect.Message {
	mi := &file_fxpb_proto_msgTypes[161]
	if x != nil {
		ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
		if ms.LoadMessageInfo() == nil {
			ms.StoreMessageInfo(mi)
		}
		return ms
	}
	return mi.MessageOf(x)
}

// Deprecated: Use S42M1.ProtoReflect.Descriptor instead.
func (*S42M1) Descriptor() ([]byte, []int) {
	return file_fxpb_proto_rawDescGZIP(), []int{161}
}

func (x *S42M1) GetF15() []float64 {
	if x != nil {
		return x.F15
	}
	return nil
}

func (x *S42M1) GetF515() map[uint64]int32 {
	if x != nil {
		return x.F515
	}
	return nil
}

func (x *S42M1) GetF997() int32 {
	if x != nil && x.F997 != nil {
		return *x.F997
	}
	return 0
}

func (x *S42M1) GetF1006() []uint32 {
	if x != nil {
		return x.F1006
	}
	return nil
}

type S43M1 struct {
	state      protoimpl.MessageState `protogen:"open.v1"`
	F366708338 map[bool]bool          `protobuf:"bytes,366708338,rep,name=f366708338" json:"f366708338,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	// Types that are valid to be assigned to O0:
	//
	//	*S43M1_F18999
	O0            isS43M1_O0 `protobuf_oneof:"o0"`
	unknownFields protoimpl.UnknownFields
	sizeCache     protoimpl.SizeCache
}

func (x *S43M1) Reset() {
	*x = S43M1{}
	mi := &file_fxpb_proto_msgTypes[162]
	ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
	ms.StoreMessageInfo(mi)
}

func (x *S43M1) String() string {
	return protoimpl.X.MessageStringOf(x)
}

func (*S43M1) ProtoMessage() {}

func (x *S43M1) ProtoReflect() protoreflect.Message {
	mi := &file_fxpb_proto_msgTypes[162]
	if x != nil {
		ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
		if ms.LoadMessageInfo() == nil {
			ms.StoreMessageInfo(mi)
		}
		return ms
	}
	return mi.MessageOf(x)
}

// Deprecated: Use S43M1.ProtoReflect.Descriptor instead.
func (*S43M1) Descriptor() ([]byte, []int) {
	return file_fxpb_proto_rawDescGZIP(), []int{162}
}

func (x *S43M1) GetF366708338() map[bool]bool {
	if x != nil {
		return x.F366708338
	}
	return nil
}

func (x *S43M1) GetO0() isS43M1_O0 {
	if x != nil {
		return x.O0
	}
	return nil
}

func (x *S43M1) GetF18999() *S43M2 {
	if x != nil {
		if x, ok := x.O0.(*S43M1_F18999); ok {
			return x.F18999
		}
	}
	return nil
}

type isS43M1_O0 interface {
	isS43M1_O0()
}

type S43M1_F18999 struct {
	F18999 *S43M2 `protobuf:"bytes,18999,opt,name=f18999,oneof"`
}

func (*S43M1_F18999) isS43M1_O0() {}

type S43M2 struct {
	state protoimpl.MessageState `protogen:"open.v1"`
	F1004 map[uint64]*S43M3      `protobuf:"bytes,1004,rep,name=f1004" json:"f1004,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	F996  []int64                `protobuf:"varint,996,rep,name=f996" json:"f996,omitempty"`
	F5    int64                  `protobuf:"varint,5,opt,name=f5" json:"f5,omitempty"`
	F12   int32                  `protobuf:"zigzag32,12,opt,name=f12" json:"f12,omitempty"`
	F8    *string                `protobuf:"bytes,8,req,name=f8" json:"f8,omitempty"`
	F2    map[int32]uint32       `protobuf:"bytes,2,rep,name=f2" json:"f2,omitempty" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value"`
	F6    map[int32][]byte       `protobuf:"bytes,6,rep,name=f6" json:"f6,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	F223  []uint64               `protobuf:"fixed64,223,rep,packed,name=f223" json:"f223,omitempty"`
	// Types that are valid to be assigned to O0:
	//
	//	*S43M2_F7
	O0            isS43M2_O0 `protobuf_oneof:"o0"`
	unknownFields protoimpl.UnknownFields
	sizeCache     protoimpl.SizeCache
}

func (x *S43M2) Reset() {
	*x = S43M2{}
	mi := &file_fxpb_proto_msgTypes[163]
	ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
	ms.StoreMessageInfo(mi)
}

func (x *S43M2) String() string {
	return protoimpl.X.MessageStringOf(x)
}

func (*S43M2) ProtoMessage() {}

func (x *S43M2) ProtoReflect() protoreflect.Message {
	mi := &file_fxpb_proto_msgTypes[163]
	if x != nil {
		ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
		if ms.LoadMessageInfo() == nil {
			ms.StoreMessageInfo(mi)
		}
		return ms
	}
	return mi.MessageOf(x)
}

// Deprecated: Use S43M2.ProtoReflect.Descriptor instead.
func (*S43M2) Descriptor() ([]byte, []int) {
	return file_fxpb_proto_rawDescGZIP(), []int{163}
}

func (x *S43M2) GetF1004() map[uint64]*S43M3 {
	if x != nil {
		return x.F1004
	}
	return nil
}

func (x *S43M2) GetF996() []int64 {
	if x != nil {
		return x.F996
	}
	return nil
}

func (x *S43M2) GetF5() int64 {
	if x != nil {
		return x.F5
	}
	return 0
}

func (x *S43M2) GetF12() int32 {
	if x != nil {
		return x.F12
	}
	return 0
}

func (x *S43M2) GetF8() string {
	if x != nil && x.F8 != nil {
		return *x.F8
	}
	return ""
}

func (x *S43M2) GetF2() map[int32]uint32 {
	if x != nil {
		return x.F2
	}
	return nil
}

func (x *S43M2) GetF6() map[int32][]byte {
	if x != nil {
		return x.F6
	}
	return nil
}

func (x *S43M2) GetF223() []uint64 {
	if x != nil {
		return x.F223
	}
	return nil
}

func (x *S43M2) GetO0() isS43M2_O0 {
	if x != nil {
		return x.O0
	}
	return nil
}

func (x *S43M2) GetF7() float64 {
	if x != nil {
		if x, ok := x.O0.(*S43M2_F7); ok {
			return x.F7
		}
	}
	return 0
}

type isS43M2_O0 interface {
	isS43M2_O0()
}

type S43M2_F7 struct {
	F7 float64 `protobuf:"fixed64,7,opt,name=f7,oneof"`
}

func (*S43M2_F7) isS43M2_O0() {}

type S43M3 struct {
	state         protoimpl.MessageState `protogen:"open.v1"`
	F3            int32                  `protobuf:"fixed32,3,opt,name=f3" json:"f3,omitempty"`
	F396          map[int64]int64        `protobuf:"bytes,396,rep,name=f396" json:"f396,omitempty" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"zigzag64,2,opt,name=value"`
	F7            *int32                 `protobuf:"zigzag32,7,opt,name=f7" json:"f7,omitempty"`
	F1            []string               `protobuf:"bytes,1,rep,name=f1" json:"f1,omitempty"`
	F12           []uint64               `protobuf:"varint,12,rep,packed,name=f12" json:"f12,omitempty"`
	unknownFields protoimpl.UnknownFields
	sizeCache     protoimpl.SizeCache
}

func (x *S43M3) Reset() {
	*x = S43M3{}
	mi := &file_fxpb_proto_msgTypes[164]
	ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
	ms.StoreMessageInfo(mi)
}

func (x *S43M3) String() string {
	return protoimpl.X.MessageStringOf(x)
}

func (*S43M3) ProtoMessage() {}

func (x *S43M3) ProtoReflect() protoreflect.Message {
	mi := &file_fxpb_proto_msgTypes[164]
	if x != nil {
		ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
		if ms.LoadMessageInfo() == nil {
			ms.StoreMessageInfo(mi)
		}
		return ms
	}
	return mi.MessageOf(x)
}

// Deprecated: Use S43M3.ProtoReflect.Descriptor instead.
func (*S43M3) Descriptor() ([]byte, []int) {
	return file_fxpb_proto_rawDescGZIP(), []int{164}
}

func (x *S43M3) GetF3() int32 {
	if x != nil {
		return x.F3
	}
	return 0
}

func (x *S43M3) GetF396() map[int64]int64 {
	if x != nil {
		return x.F396
	}
	return nil
}

func (x *S43M3) GetF7() int32 {
	if x != nil && x.F7 != nil {
		return *x.F7
	}
	return 0
}

func (x *S43M3) GetF1() []string {
	if x != nil {
		return x.F1
	}
	return nil
}

func (x *S43M3) GetF12() []uint64 {
	if x != nil {
		return x.F12
	}
	return nil
}

type S44M1 struct {
	state         protoimpl.MessageState `protogen:"open.v1"`
	F1002         *S44M2                 `protobuf:"bytes,1002,opt,name=f1002" json:"f1002,omitempty"`
	F2            map[int64]int64        `protobuf:"bytes,2,rep,name=f2" json:"f2,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	F9            map[int64]uint64       `protobuf:"bytes,9,rep,name=f9" json:"f9,omitempty" protobuf_key:"zigzag64,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value"`
	F8            []*S44M3               `protobuf:"bytes,8,rep,name=f8" json:"f8,omitempty"`
	F14           *int64                 `protobuf:"varint,14,opt,name=f14" json:"f14,omitempty"`
	unknownFields protoimpl.UnknownFields
	sizeCache     protoimpl.SizeCache
}

func (x *S44M1) Reset() {
	*x = S44M1{}
	mi := &file_fxpb_proto_msgTypes[165]
	ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
	ms.StoreMessageInfo(mi)
}

func (x *S44M1) String() string {
	return protoimpl.X.MessageStringOf(x)
}

func (*S44M1) ProtoMessage() {}

func (x *S44M1) ProtoReflect() protoreflect.Message {
	mi := &file_fxpb_proto_msgTypes[165]
	if x != nil {
		ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
		if ms.LoadMessageInfo() == nil {
			ms.StoreMessageInfo(mi)
		}
		return ms
	}
	return mi.MessageOf(x)
}

// Deprecated: Use S44M1.ProtoReflect.Descriptor instead.
func (*S44M1) Descriptor() ([]byte, []int) {
	return file_fxpb_proto_rawDescGZIP(), []int{165}
}

func (x *S44M1) GetF1002() *S44M2 {
	if x != nil {
		return x.F1002
	}
	return nil
}

func (x *S44M1) GetF2() map[int64]int64 {
	if x != nil {
		return x.F2
	}
	return nil
}

func (x *S44M1) GetF9() map[int64]uint64 {
	if x != nil {
		return x.F9
	}
	return nil
}

func (x *S44M1) GetF8() []*S44M3 {
	if x != nil {
		return x.F8
	}
	return nil
}

func (x *S44M1) GetF14() int64 {
	if x != nil && x.F14 != nil {
		return *x.F14
	}
	return 0
}

type S44M2 struct {
	state         protoimpl.MessageState `protogen:"open.v1"`
	F9            int32                  `protobuf:"zigzag32,9,opt,name=f9" json:"f9,omitempty"`
	F19           map[bool]int32         `protobuf:"bytes,19,rep,name=f19" json:"f19,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"zigzag32,2,opt,name=value"`
	F2            map[int64]uint64       `protobuf:"bytes,2,rep,name=f2" json:"f2,omitempty" protobuf_key:"zigzag64,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value"`
	F35           *string                `protobuf:"bytes,35,req,name=f35" json:"f35,omitempty"`
	unknownFields protoimpl.UnknownFields
	sizeCache     protoimpl.SizeCache
}

func (x *S44M2) Reset() {
	*x = S44M2{}
	mi := &file_fxpb_proto_msgTypes[166]
	ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
	ms.StoreMessageInfo(mi)
}

func (x *S44M2) String() string {
	return protoimpl.X.MessageStringOf(x)
}

func (*S44M2) ProtoMessage() {}

func (x *S44M2) ProtoReflect() protoreflect.Message {
	mi := &file_fxpb_proto_msgTypes[166]
	if x != nil {
		ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
		if ms.LoadMessageInfo() == nil {
			ms.StoreMessageInfo(mi)
		}
		return ms
	}
	return mi.MessageOf(x)
}

// Deprecated: Use S44M2.ProtoReflect.Descriptor instead.
func (*S44M2) Descriptor() ([]byte, []int) {
	return file_fxpb_proto_rawDescGZIP(), []int{166}
}

func (x *S44M2) GetF9() int32 {
	if x != nil {
		return x.F9
	}
	return 0
}

func (x *S44M2) GetF19() map[bool]int32 {
	if x != nil {
		return x.F19
	}
	return nil
}

func (x *S44M2) GetF2() map[int64]uint64 {
	if x != nil {
		return x.F2
	}
	return nil
}

func (x *S44M2) GetF35() string {
	if x != nil && x.F35 != nil {
		return *x.F35
	}
	return ""
}

type S44M3 struct {
	state         protoimpl.MessageState `protogen:"open.v1"`
	unknownFields protoimpl.UnknownFields
	sizeCache     protoimpl.SizeCache
}

func (x *S44M3) Reset() {
	*x = S44M3{}
	mi := &file_fxpb_proto_msgTypes[167]
	ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
	ms.StoreMessageInfo(mi)
}

func (x *S44M3) String() string {
	return protoimpl.X.MessageStringOf(x)
}

func (*S44M3) ProtoMessage() {}

func (x *S44M3) ProtoReflect() protoreflect.Message {
	mi := &file_fxpb_proto_msgTypes[167]
	if x != nil {
		ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
		if ms.LoadMessageInfo() == nil {
			ms.StoreMessageInfo(mi)
		}
		return ms
	}
	return mi.MessageOf(x)
}

// Deprecated: Use S44M3.ProtoReflect.Descriptor instead.
func (*S44M3) Descriptor() ([]byte, []int) {
	return file_fxpb_proto_rawDescGZIP(), []int{167}
}

type S45M1 struct {
	state     protoimpl.MessageState `protogen:"open.v1"`
	F24       map[uint64]int32       `protobuf:"bytes,24,rep,name=f24" json:"f24,omitempty" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	F33554431 []*S45M2               `protobuf:"bytes,33554431,rep,name=f33554431" json:"f33554431,omitempty"`
	F17       int64                  `protobuf:"varint,17,opt,name=f17" json:"f17,omitempty"`
	F11       *S45M4                 `protobuf:"bytes,11,opt,name=f11" json:"f11,omitempty"`
	// Types that are valid to be assigned to O0:
	//
	//	*S45M1_F10
	O0 isS45M1_O0 `protobuf_oneof:"o0"`
	// Types that are valid to be assigned to O1:
	//
	//	*S45M1_F210
	O1            isS45M1_O1 `protobuf_oneof:"o1"`
	unknownFields protoimpl.UnknownFields
	sizeCache     protoimpl.SizeCache
}

func (x *S45M1) Reset() {
	*x = S45M1{}
	mi := &file_fxpb_proto_msgTypes[168]
	ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
	ms.StoreMessageInfo(mi)
}

func (x *S45M1) String() string {
	return protoimpl.X.MessageStringOf(x)
}

func (*S45M1) ProtoMessage() {}

func (x *S45M1) ProtoReflect() protoreflect.Message {
	mi := &file_fxpb_proto_msgTypes[168]
	if x != nil {
		ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
		if ms.LoadMessageInfo() == nil {
			ms.StoreMessageInfo(mi)
		}
		return ms
	}
	return mi.MessageOf(x)
}

// Deprecated: Use S45M1.ProtoReflect.Descriptor instead.
func (*S45M1) Descriptor() ([]byte, []int) {
	return file_fxpb_proto_rawDescGZIP(), []int{168}
}

func (x *S45M1) GetF24() map[uint64]int32 {
	if x != nil {
		return x.F24
	}
	return nil
}

func (x *S45M1) GetF33554431() []*S45M2 {
	if x != nil {
		return x.F33554431
	}
	return nil
}

func (x *S45M1) GetF17() int64 {
	if x != nil {
		return x.F17
	}
	return 0
}

func (x *S45M1) GetF11() *S45M4 {
	if x != nil {
		return x.F11
	}
	return nil
}

func (x *S45M1) GetO0() isS45M1_O0 {
	if x != nil {
		return x.O0
	}
	return nil
}

func (x *S45M1) GetF10() uint64 {
	if x != nil {
		if x, ok := x.O0.(*S45M1_F10); ok {
			return x.F10
		}
	}
	return 0
}

func (x *S45M1) GetO1() isS45M1_O1 {
	if x != nil {
		return x.O1
	}
	return nil
}

func (x *S45M1) GetF210() int64 {
	if x != nil {
		if x, ok := x.O1.(*S45M1_F210); ok {
			return x.F210
		}
	}
	return 0
}

type isS45M1_O0 interface {
	isS45M1_O0()
}

type S45M1_F10 struct {
	F10 uint64 `protobuf:"varint,10,opt,name=f10,oneof"`
}

func (*S45M1_F10) isS45M1_O0() {}

type isS45M1_O1 interface {
	isS45M1_O1()
}

type S45M1_F210 struct {
	F210 int64 `protobuf:"fixed64,210,opt,name=f210,oneof"`
}

func (*S45M1_F210) isS45M1_O1() {}

type S45M2 struct {
	state         protoimpl.MessageState `protogen:"open.v1"`
	F4            []int32                `protobuf:"zigzag32,4,rep,name=f4" json:"f4,omitempty"`
	F33554432     *E                     `protobuf:"varint,33554432,opt,name=f33554432,enum=fxpb.E" json:"f33554432,omitempty"`
	F10           *int32                 `protobuf:"varint,10,opt,name=f10" json:"f10,omitempty"`
	F8            *S45M3                 `protobuf:"bytes,8,opt,name=f8" json:"f8,omitempty"`
	F33           []uint32               `protobuf:"varint,33,rep,name=f33" json:"f33,omitempty"`
	F3            map[bool][]byte        `protobuf:"bytes,3,rep,name=f3" json:"f3,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	F536870911    map[int32]uint64       `protobuf:"bytes,536870911,rep,name=f536870911" json:"f536870911,omitempty" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value"`
	F1006         E                      `protobuf:"varint,1006,opt,name=f1006,enum=fxpb.E" json:"f1006,omitempty"`
	unknownFields protoimpl.UnknownFields
	sizeCache     protoimpl.SizeCache
}

func (x *S45M2) Reset() {
	*x = S45M2{}
	mi := &file_fxpb_proto_msgTypes[169]
	ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
	ms.StoreMessageInfo(mi)
}

func (x *S45M2) String() string {
	return protoimpl.X.MessageStringOf(x)
}

func (*S45M2) ProtoMessage() {}

func (x *S45M2) ProtoReflect() protoreflect.Message {
	mi := &file_fxpb_proto_msgTypes[169]
	if x != nil {
		ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
		if ms.LoadMessageInfo() == nil {
			ms.StoreMessageInfo(mi)
		}
		return ms
	}
	return mi.MessageOf(x)
}

// Deprecated: Use S45M2.ProtoReflect.Descriptor instead.
func (*S45M2) Descriptor() ([]byte, []int) {
	return file_fxpb_proto_rawDescGZIP(), []int{169}
}

func (x *S45M2) GetF4() []int32 {
	if x != nil {
		return x.F4
	}
	return nil
}

func (x *S45M2) GetF33554432() E {
	if x != nil && x.F33554432 != nil {
		return *x.F33554432
	}
	return E_E_ZERO
}

func (x *S45M2) GetF10() int32 {
	if x != nil && x.F10 != nil {
		return *x.F10
	}
	return 0
}

func (x *S45M2) GetF8() *S45M3 {
	if x != nil {
		return x.F8
	}
	return nil
}

func (x *S45M2) GetF33() []uint32 {
	if x != nil {
		return x.F33
	}
	return nil
}

func (x *S45M2) GetF3() map[bool][]byte {
	if x != nil {
		return x.F3
	}
	return nil
}

func (x *S45M2) GetF536870911() map[int32]uint64 {
	if x != nil {
		return x.F536870911
	}
	return nil
}

func (x *S45M2) GetF1006() E {
	if x != nil {
		return x.F1006
	}
	return E_E_ZERO
}

type S45M3 struct {
	state         protoimpl.MessageState `protogen:"open.v1"`
	F11           []int32                `protobuf:"fixed32,11,rep,packed,name=f11" json:"f11,omitempty"`
	F2            int64                  `protobuf:"fixed64,2,opt,name=f2" json:"f2,omitempty"`
	F15           []uint64               `protobuf:"fixed64,15,rep,packed,name=f15" json:"f15,omitempty"`
	F9            string                 `protobuf:"bytes,9,opt,name=f9" json:"f9,omitempty"`
	F36           []uint64               `protobuf:"varint,36,rep,packed,name=f36" json:"f36,omitempty"`
	F1004         []uint32               `protobuf:"varint,1004,rep,name=f1004" json:"f1004,omitempty"`
	F7            map[int32]int32        `protobuf:"bytes,7,rep,name=f7" json:"f7,omitempty" protobuf_key:"zigzag32,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	F10           []float64              `protobuf:"fixed64,10,rep,packed,name=f10" json:"f10,omitempty"`
	F1000         []uint32               `protobuf:"fixed32,1000,rep,packed,name=f1000" json:"f1000,omitempty"`
	unknownFields protoimpl.UnknownFields
	sizeCache     protoimpl.SizeCache
}

func (x *S45M3) Reset() {
	*x = S45M3{}
	mi := &file_fxpb_proto_msgTypes[170]
	ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
	ms.StoreMessageInfo(mi)
}

func (x *S45M3) String() string {
	return protoimpl.X.MessageStringOf(x)
}

func (*S45M3) ProtoMessage() {}

func (x *S45M3) ProtoReflect() protoreflect.Message {
	mi := &file_fxpb_proto_msgTypes[170]
	if x != nil {
		ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
		if ms.LoadMessageInfo() == nil {
			ms.StoreMessageInfo(mi)
		}
		return ms
	}
	return mi.MessageOf(x)
}

// Deprecated: Use S45M3.ProtoReflect.Descriptor instead.
func (*S45M3) Descriptor() ([]byte, []int) {
	return file_fxpb_proto_rawDescGZIP(), []int{170}
}

func (x *S45M3) GetF11() []int32 {
	if x != nil {
		return x.F11
	}
	return nil
}

func (x *S45M3) GetF2() int64 {
	if x != nil {
		return x.F2
	}
	return 0
}

func (x *S45M3) GetF15() []uint64 {
	if x != nil {
		return x.F15
	}
	return nil
}

func (x *S45M3) GetF9() string {
	if x != nil {
		return x.F9
	}
	return ""
}

func (x *S45M3) GetF36() []uint64 {
	if x != nil {
		return x.F36
	}
	return nil
}

func (x *S45M3) GetF1004() []uint32 {
	if x != nil {
		return x.F1004
	}
	return nil
}

func (x *S45M3) GetF7() map[int32]int32 {
	if x != nil {
		return x.F7
	}
	return nil
}

func (x *S45M3) GetF10() []float64 {
	if x != nil {
		return x.F10
	}
	return nil
}

func (x *S45M3) GetF1000() []uint32 {
	if x != nil {
		return x.F1000
	}
	return nil
}

type S45M4 struct {
	state         protoimpl.MessageState `protogen:"open.v1"`
	F262144       []*S45M5               `protobuf:"bytes,262144,rep,name=f262144" json:"f262144,omitempty"`
	F33554431     []*S45M3               `protobuf:"bytes,33554431,rep,name=f33554431" json:"f33554431,omitempty"`
	F338          uint32                 `protobuf:"varint,338,opt,name=f338" json:"f338,omitempty"`
	unknownFields protoimpl.UnknownFields
	sizeCache     protoimpl.SizeCache
}

func (x *S45M4) Reset() {
	*x = S45M4{}
	mi := &file_fxpb_proto_msgTypes[171]
	ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
	ms.StoreMessageInfo(mi)
}

func (x *S45M4) String() string {
	return protoimpl.X.MessageStringOf(x)
}

func (*S45M4) ProtoMessage() {}

func (x *S45M4) ProtoReflect() protoreflect.Message {
	mi := &file_fxpb_proto_msgTypes[171]
	if x != nil {
		ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
		if ms.LoadMessageInfo() == nil {
			ms.StoreMessageInfo(mi)
		}
		return ms
	}
	return mi.MessageOf(x)
}

// Deprecated: Use S45M4.ProtoReflect.Descriptor instead.
func (*S45M4) Descriptor() ([]byte, []int) {
	return file_fxpb_proto_rawDescGZIP(), []int{171}
}

func (x *S45M4) GetF262144() []*S45M5 {
	if x != nil {
		return x.F262144
	}
	return nil
}

func (x *S45M4) GetF33554431() []*S45M3 {
	if x != nil {
		return x.F33554431
	}
	return nil
}

func (x *S45M4) GetF338() uint32 {
	if x != nil {
		return x.F338
	}
	return 0
}

type S45M5 struct {
	state         protoimpl.MessageState `protogen:"open.v1"`
	F5            *int64                 `protobuf:"zigzag64,5,opt,name=f5" json:"f5,omitempty"`
	unknownFields protoimpl.UnknownFields
	sizeCache     protoimpl.SizeCache
}

func (x *S45M5) Reset() {
	*x = S45M5{}
	mi := &file_fxpb_proto_msgTypes[172]
	ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
	ms.StoreMessageInfo(mi)
}

func (x *S45M5) String() string {
	return protoimpl.X.MessageStringOf(x)
}

func (*S45M5) ProtoMessage() {}

func (x *S45M5) ProtoReflect() protoreflect.Message {
	mi := &file_fxpb_proto_msgTypes[172]
	if x != nil {
		ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
		if ms.LoadMessageInfo() == nil {
			ms.StoreMessageInfo(mi)
		}
		return ms
	}
	return mi.MessageOf(x)
}

// Deprecated: Use S45M5.ProtoReflect.Descriptor instead.
func (*S45M5) Descriptor() ([]byte, []int) {
	return file_fxpb_proto_rawDescGZIP(), []int{172}
}

func (x *S45M5) GetF5() int64 {
	if x != nil && x.F5 != nil {
		return *x.F5
	}
	return 0
}

type S46M1 struct {
	state         protoimpl.MessageState `protogen:"open.v1"`
	F434          *float32               `protobuf:"fixed32,434,req,name=f434" json:"f434,omitempty"`
	F35           *bool                  `protobuf:"varint,35,opt,name=f35" json:"f35,omitempty"`
	F1005         []uint32               `protobuf:"varint,1005,rep,name=f1005" json:"f1005,omitempty"`
	F4            []byte                 `protobuf:"bytes,4,req,name=f4" json:"f4,omitempty"`
	F9            *uint64                `protobuf:"fixed64,9,opt,name=f9" json:"f9,omitempty"`
	F521757425    uint64                 `protobuf:"varint,521757425,opt,name=f521757425" json:"f521757425,omitempty"`
	F25           *S46M2                 `protobuf:"bytes,25,opt,name=f25" json:"f25,omitempty"`
	F7            *S46M2                 `protobuf:"bytes,7,opt,name=f7" json:"f7,omitempty"`
	unknownFields protoimpl.UnknownFields
	sizeCache     protoimpl.SizeCache
}

func (x *S46M1) Reset() {
	*x = S46M1{}
	mi := &file_fxpb_proto_msgTypes[173]
	ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
	ms.StoreMessageInfo(mi)
}

func (x *S46M1) String() string {
	return protoimpl.X.MessageStringOf(x)
}

func (*S46M1) ProtoMessage() {}

func (x *S46M1) ProtoReflect() protoreflect.Message {
	mi := &file_fxpb_proto_msgTypes[173]
	if x != nil {
		ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
		if ms.LoadMessageInfo() == nil {
			ms.StoreMessageInfo(mi)
		}
		return ms
	}
	return mi.MessageOf(x)
}

// Deprecated: Use S46M1.ProtoReflect.Descriptor instead.
func (*S46M1) Descriptor() ([]byte, []int) {
	return file_fxpb_proto_rawDescGZIP(), []int{173}
}

func (x *S46M1) GetF434() float32 {
	if x != nil && x.F434 != nil {
		return *x.F434
	}
	return 0
}

func (x *S46M1) GetF35() bool {
	if x != nil && x.F35 != nil {
		return *x.F35
	}
	return false
}

func (x *S46M1) GetF1005() []uint32 {
	if x != nil {
		return x.F1005
	}
	return nil
}

func (x *S46M1) GetF4() []byte {
	if x != nil {
		return x.F4
	}
	return nil
}

func (x *S46M1) GetF9() uint64 {
	if x != nil && x.F9 != nil {
		return *x.F9
	}
	return 0
}

func (x *S46M1) GetF521757425() uint64 {
	if x != nil {
		return x.F521757425
	}
	return 0
}

func (x *S46M1) GetF25() *S46M2 {
	if x != nil {
		return x.F25
	}
	return nil
}

func (x *S46M1) GetF7() *S46M2 {
	if x != nil {
		return x.F7
	}
	return nil
}

type S46M2 struct {
	state         protoimpl.MessageState `protogen:"open.v1"`
	F8948839      map[string]*S46M3      `protobuf:"bytes,8948839,rep,name=f8948839" json:"f8948839,omitempty" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	F11           map[string]int32       `protobuf:"bytes,11,rep,name=f11" json:"f11,omitempty" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"zigzag32,2,opt,name=value"`
	F6            map[int32]*S46M4       `protobuf:"bytes,6,rep,name=f6" json:"f6,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	F5            int32                  `protobuf:"varint,5,opt,name=f5" json:"f5,omitempty"`
	F10           *int32                 `protobuf:"varint,10,opt,name=f10" json:"f10,omitempty"`
	F15           int32                  `protobuf:"varint,15,opt,name=f15" json:"f15,omitempty"`
	F996          map[int32]int32        `protobuf:"bytes,996,rep,name=f996" json:"f996,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	F474          *S46M5                 `protobuf:"bytes,474,opt,name=f474" json:"f474,omitempty"`
	unknownFields protoimpl.UnknownFields
	sizeCache     protoimpl.SizeCache
}

func (x *S46M2) Reset() {
	*x = S46M2{}
	mi := &file_fxpb_proto_msgTypes[174]
	ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
	ms.StoreMessageInfo(mi)
}

func (x *S46M2) String() string {
	return protoimpl.X.MessageStringOf(x)
}

func (*S46M2) ProtoMessage() {}

func (x *S46M2) ProtoReflect() protoreflect.Message {
	mi := &file_fxpb_proto_msgTypes[174]
	if x != nil {
		ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
		if ms.LoadMessageInfo() == nil {
			ms.StoreMessageInfo(mi)
		}
		return ms
	}
	return mi.MessageOf(x)
}

// Deprecated: Use S46M2.ProtoReflect.Descriptor instead.
func (*S46M2) Descriptor() ([]byte, []int) {
	return file_fxpb_proto_rawDescGZIP(), []int{174}
}

func (x *S46M2) GetF8948839() map[string]*S46M3 {
	if x != nil {
		return x.F8948839
	}
	return nil
}

func (x *S46M2) GetF11() map[string]int32 {
	if x != nil {
		return x.F11
	}
	return nil
}

func (x *S46M2) GetF6() map[int32]*S46M4 {
	if x != nil {
		return x.F6
	}
	return nil
}

func (x *S46M2) GetF5() int32 {
	if x != nil {
		return x.F5
	}
	return 0
}

func (x *S46M2) GetF10() int32 {
	if x != nil && x.F10 != nil {
		return *x.F10
	}
	return 0
}

func (x *S46M2) GetF15() int32 {
	if x != nil {
		return x.F15
	}
	return 0
}

func (x *S46M2) GetF996() map[int32]int32 {
	if x != nil {
		return x.F996
	}
	return nil
}

func (x *S46M2) GetF474() *S46M5 {
	if x != nil {
		return x.F474
	}
	return nil
}

type S46M3 struct {
	state protoimpl.MessageState `protogen:"open.v1"`
	F2048 []int32                `protobuf:"varint,2048,rep,name=f2048" json:"f2048,omitempty"`
	F13   map[uint64]int32       `protobuf:"bytes,13,rep,name=f13" json:"f13,omitempty" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"zigzag32,2,opt,name=value"`
	F2    *int64                 `protobuf:"varint,2,opt,name=f2" json:"f2,omitempty"`
	F4    int32                  `protobuf:"fixed32,4,opt,name=f4" json:"f4,omitempty"`
	F5    int64                  `protobuf:"fixed64,5,opt,name=f5" json:"f5,omitempty"`
	// Types that are valid to be assigned to O0:
	//
	//	*S46M3_F17083450
	//	*S46M3_F15
	O0            isS46M3_O0 `protobuf_oneof:"o0"`
	unknownFields protoimpl.UnknownFields
	sizeCache     protoimpl.SizeCache
}

func (x *S46M3) Reset() {
	*x = S46M3{}
	mi := &file_fxpb_proto_msgTypes[175]
	ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
	ms.StoreMessageInfo(mi)
}

func (x *S46M3) String() string {
	return protoimpl.X.MessageStringOf(x)
}

func (*S46M3) ProtoMessage() {}

func (x *S46M3) ProtoReflect() protoreflect.Message {
	mi := &file_fxpb_proto_msgTypes[175]
	if x != nil {
		ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
		if ms.LoadMessageInfo() == nil {
			ms.StoreMessageInfo(mi)
		}
		return ms
	}
	return mi.MessageOf(x)
}

// Deprecated: Use S46M3.ProtoReflect.Descriptor instead.
func (*S46M3) Descriptor() ([]byte, []int) {
	return file_fxpb_proto_rawDescGZIP(), []int{175}
}

func (x *S46M3) GetF2048() []int32 {
	if x != nil {
		return x.F2048
	}
	return nil
}

func (x *S46M3) GetF13() map[uint64]int32 {
	if x != nil {
		return x.F13
	}
	return nil
}

func (x *S46M3) GetF2() int64 {
	if x != nil && x.F2 != nil {
		return *x.F2
	}
	return 0
}

func (x *S46M3) GetF4() int32 {
	if x != nil {
		return x.F4
	}
	return 0
}

func (x *S46M3) GetF5() int64 {
	if x != nil {
		return x.F5
	}
	return 0
}

func (x *S46M3) GetO0() isS46M3_O0 {
	if x != nil {
		return x.O0
	}
	return nil
}

func (x *S46M3) GetF17083450() int32 {
	if x != nil {
		if x, ok := x.O0.(*S46M3_F17083450); ok {
			return x.F17083450
		}
	}
	return 0
}

func (x *S46M3) GetF15() float64 {
	if x != nil {
		if x, ok := x.O0.(*S46M3_F15); ok {
			return x.F15
		}
	}
	return 0
}

type isS46M3_O0 interface {
	isS46M3_O0()
}

type S46M3_F17083450 struct {
	F17083450 int32 `protobuf:"varint,17083450,opt,name=f17083450,oneof"`
}

type S46M3_F15 struct {
	F15 float64 `protobuf:"fixed64,15,opt,name=f15,oneof"`
}

func (*S46M3_F17083450) isS46M3_O0() {}

func (*S46M3_F15) isS46M3_O0() {}

type S46M4 struct {
	state         protoimpl.MessageState `protogen:"open.v1"`
	unknownFields protoimpl.UnknownFields
	sizeCache     protoimpl.SizeCache
}

func (x *S46M4) Reset() {
	*x = S46M4{}
	mi := &file_fxpb_proto_msgTypes[176]
	ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
	ms.StoreMessageInfo(mi)
}

func (x *S46M4) String() string {
	return protoimpl.X.MessageStringOf(x)
}

func (*S46M4) ProtoMessage() {}

func (x *S46M4) ProtoReflect() protoreflect.Message {
	mi := &file_fxpb_proto_msgTypes[176]
	if x != nil {
		ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
		if ms.LoadMessageInfo() == nil {
			ms.StoreMessageInfo(mi)
		}
		return ms
	}
	return mi.MessageOf(x)
}

// Deprecated: Use S46M4.ProtoReflect.Descriptor instead.
func (*S46M4) Descriptor() ([]byte, []int) {
	return file_fxpb_proto_rawDescGZIP(), []int{176}
}

type S46M5 struct {
	state         protoimpl.MessageState `protogen:"open.v1"`
	F249548881    *bool                  `protobuf:"varint,249548881,opt,name=f249548881" json:"f249548881,omitempty"`
	F1002         []int64                `protobuf:"fixed64,1002,rep,name=f1002" json:"f1002,omitempty"`
	F9            bool                   `protobuf:"varint,9,opt,name=f9" json:"f9,omitempty"`
	F28           []int64                `protobuf:"varint,28,rep,packed,name=f28" json:"f28,omitempty"`
	F1            []byte                 `protobuf:"bytes,1,opt,name=f1" json:"f1,omitempty"`
	F13           []float64              `protobuf:"fixed64,13,rep,packed,name=f13" json:"f13,omitempty"`
	F262143       map[int32]E            `protobuf:"bytes,262143,rep,name=f262143" json:"f262143,omitempty" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"varint,2,opt,name=value,enum=fxpb.E"`
	F33554432     int64                  `protobuf:"fixed64,33554432,opt,name=f33554432" json:"f33554432,omitempty"`
	unknownFields protoimpl.UnknownFields
	sizeCache     protoimpl.SizeCache
}

func (x *S46M5) Reset() {
	*x = S46M5{}
	mi := &file_fxpb_proto_msgTypes[177]
	ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
	ms.StoreMessageInfo(mi)
}

func (x *S46M5) String() string {
	return protoimpl.X.MessageStringOf(x)
}

func (*S46M5) ProtoMessage() {}

func (x *S46M5) ProtoReflect() protoreflect.Message {
	mi := &file_fxpb_proto_msgTypes[177]
	if x != nil {
		ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
		if ms.LoadMessageInfo() == nil {
			ms.StoreMessageInfo(mi)
		}
		return ms
	}
	return mi.MessageOf(x)
}

// Deprecated: Use S46M5.ProtoReflect.Descriptor instead.
func (*S46M5) Descriptor() ([]byte, []int) {
	return file_fxpb_proto_rawDescGZIP(), []int{177}
}

func (x *S46M5) GetF249548881() bool {
	if x != nil && x.F249548881 != nil {
		return *x.F249548881
	}
	return false
}

func (x *S46M5) GetF1002() []int64 {
	if x != nil {
		return x.F1002
	}
	return nil
}

func (x *S46M5) GetF9() bool {
	if x != nil {
		return x.F9
	}
	return false
}

func (x *S46M5) GetF28() []int64 {
	if x != nil {
		return x.F28
	}
	return nil
}

func (x *S46M5) GetF1() []byte {
	if x != nil {
		return x.F1
	}
	return nil
}

func (x *S46M5) GetF13() []float64 {
	if x != nil {
		return x.F13
	}
	return nil
}

func (x *S46M5) GetF262143() map[int32]E {
	if x != nil {
		return x.F262143
	}
	return nil
}

func (x *S46M5) GetF33554432() int64 {
	if x != nil {
		return x.F33554432
	}
	return 0
}

type S47M1 struct {
	state  protoimpl.MessageState `protogen:"open.v1"`
	F563   *S47M2                 `protobuf:"bytes,563,req,name=f563" json:"f563,omitempty"`
	F18999 []uint32               `protobuf:"fixed32,18999,rep,name=f18999" json:"f18999,omitempty"`
	F998   int32                  `protobuf:"fixed32,998,opt,name=f998" json:"f998,omitempty"`
	F187   *S47M5                 `protobuf:"bytes,187,opt,name=f187" json:"f187,omitempty"`
	F671   bool                   `protobuf:"varint,671,opt,name=f671" json:"f671,omitempty"`
	// Types that are valid to be assigned to O0:
	//
	//	*S47M1_F995
	O0            isS47M1_O0 `protobuf_oneof:"o0"`
	unknownFields protoimpl.UnknownFields
	sizeCache     protoimpl.SizeCache
}

func (x *S47M1) Reset() {
	*x = S47M1{}
	mi := &file_fxpb_proto_msgTypes[178]
	ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
	ms.StoreMessageInfo(mi)
}

func (x *S47M1) String() string {
	return protoimpl.X.MessageStringOf(x)
}

func (*S47M1) ProtoMessage() {}

func (x *S47M1) ProtoReflect() protoreflect.Message {
	mi := &file_fxpb_proto_msgTypes[178]
	if x != nil {
		ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
		if ms.LoadMessageInfo() == nil {
			ms.StoreMessageInfo(mi)
		}
		return ms
	}
	return mi.MessageOf(x)
}

// Deprecated: Use S47M1.ProtoReflect.Descriptor instead.
func (*S47M1) Descriptor() ([]byte, []int) {
	return file_fxpb_proto_rawDescGZIP(), []int{178}
}

func (x *S47M1) GetF563() *S47M2 {
	if x != nil {
		return x.F563
	}
	return nil
}

func (x *S47M1) GetF18999() []uint32 {
	if x != nil {
		return x.F18999
	}
	return nil
}

func (x *S47M1) GetF998() int32 {
	if x != nil {
		return x.F998
	}
	return 0
}

func (x *S47M1) GetF187() *S47M5 {
	if x != nil {
		return x.F187
	}
	return nil
}

func (x *S47M1) GetF671() bool {
	if x != nil {
		return x.F671
	}
	return false
}

func (x *S47M1) GetO0() isS47M1_O0 {
	if x != nil {
		return x.O0
	}
	return nil
}

func (x *S47M1) GetF995() *S47M3 {
	if x != nil {
		if x, ok := x.O0.(*S47M1_F995); ok {
			return x.F995
		}
	}
	return nil
}

type isS47M1_O0 interface {
	isS47M1_O0()
}

type S47M1_F995 struct {
	F995 *S47M3 `protobuf:"bytes,995,opt,name=f995,oneof"`
}

func (*S47M1_F995) isS47M1_O0() {}

type S47M2 struct {
	state         protoimpl.MessageState `protogen:"open.v1"`
	unknownFields protoimpl.UnknownFields
	sizeCache     protoimpl.SizeCache
}

func (x *S47M2) Reset() {
	*x = S47M2{}
	mi := &file_fxpb_proto_msgTypes[179]
	ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
	ms.StoreMessageInfo(mi)
}

func (x *S47M2) String() string {
	return protoimpl.X.MessageStringOf(x)
}

func (*S47M2) ProtoMessage() {}

func (x *S47M2) ProtoReflect() protoreflect.Message {
	mi := &file_fxpb_proto_msgTypes[179]
	if x != nil {
		ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
		if ms.LoadMessageInfo() == nil {
			ms.StoreMessageInfo(mi)
		}
		return ms
	}
	return mi.MessageOf(x)
}

// Deprecated: Use S47M2.ProtoReflect.Descriptor instead.
func (*S47M2) Descriptor() ([]byte, []int) {
	return file_fxpb_proto_rawDescGZIP(), []int{179}
}

type S47M3 struct {
	state protoimpl.MessageState `protogen:"open.v1"`
	F11   map[int32]float32      `protobuf:"bytes,11,rep,name=f11" json:"f11,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value"`
	F1006 []uint64               `protobuf:"fixed64,1006,rep,name=f1006" json:"f1006,omitempty"`
	F398  uint32                 `protobuf:"varint,398,opt,name=f398" json:"f398,omitempty"`
	// Types that are valid to be assigned to O0:
	//
	//	*S47M3_F18999
	//	*S47M3_F999
	//	*S47M3_F997
	O0 isS47M3_O0 `protobuf_oneof:"o0"`
	// Types that are valid to be assigned to O1:
	//
	//	*S47M3_F998
	O1            isS47M3_O1 `protobuf_oneof:"o1"`
	unknownFields protoimpl.UnknownFields
	sizeCache     protoimpl.SizeCache
}

func (x *S47M3) Reset() {
	*x = S47M3{}
	mi := &file_fxpb_proto_msgTypes[180]
	ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
	ms.StoreMessageInfo(mi)
}

func (x *S47M3) String() string {
	return protoimpl.X.MessageStringOf(x)
}

func (*S47M3) ProtoMessage() {}

func (x *S47M3) ProtoReflect() protoreflect.Message {
	mi := &file_fxpb_proto_msgTypes[180]
	if x != nil {
		ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
		if ms.LoadMessageInfo() == nil {
			ms.StoreMessageInfo(mi)
		}
		return ms
	}
	return mi.MessageOf(x)
}

// Deprecated: Use S47M3.ProtoReflect.Descriptor instead.
func (*S47M3) Descriptor() ([]byte, []int) {
	return file_fxpb_proto_rawDescGZIP(), []int{180}
}

func (x *S47M3) GetF11() map[int32]float32 {
	if x != nil {
		return x.F11
	}
	return nil
}

func (x *S47M3) GetF1006() []uint64 {
	if x != nil {
		return x.F1006
	}
	return nil
}

func (x *S47M3) GetF398() uint32 {
	if x != nil {
		return x.F398
	}
	return 0
}

func (x *S47M3) GetO0() isS47M3_O0 {
	if x != nil {
		return x.O0
	}
	return nil
}

func (x *S47M3) GetF18999() *S47M4 {
	if x != nil {
		if x, ok := x.O0.(*S47M3_F18999); ok {
			return x.F18999
		}
	}
	return nil
}

func (x *S47M3) GetF999() int64 {
	if x != nil {
		if x, ok := x.O0.(*S47M3_F999); ok {
			return x.F999
		}
	}
	return 0
}

func (x *S47M3) GetF997() float64 {
	if x != nil {
		if x, ok := x.O0.(*S47M3_F997); ok {
			return x.F997
		}
	}
	return 0
}

func (x *S47M3) GetO1() isS47M3_O1 {
	if x != nil {
		return x.O1
	}
	return nil
}

func (x *S47M3) GetF998() uint64 {
	if x != nil {
		if x, ok := x.O1.(*S47M3_F998); ok {
			return x.F998
		}
	}
	return 0
}

type isS47M3_O0 interface {
	isS47M3_O0()
}

type S47M3_F18999 struct {
	F18999 *S47M4 `protobuf:"bytes,18999,opt,name=f18999,oneof"`
}

type S47M3_F999 struct {
	F999 int64 `protobuf:"zigzag64,999,opt,name=f999,oneof"`
}

type S47M3_F997 struct {
	F997 float64 `protobuf:"fixed64,997,opt,name=f997,oneof"`
}

func (*S47M3_F18999) isS47M3_O0() {}

func (*S47M3_F999) isS47M3_O0() {}

func (*S47M3_F997) isS47M3_O0() {}

type isS47M3_O1 interface {
	isS47M3_O1()
}

type S47M3_F998 struct {
	F998 uint64 `protobuf:"varint,998,opt,name=f998,oneof"`
}

func (*S47M3_F998) isS47M3_O1() {}

type S47M4 struct {
	state protoimpl.MessageState `protogen:"open.v1"`
	F17   map[uint32]int32       `protobuf:"bytes,17,rep,name=f17" json:"f17,omitempty" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	F6    *int64                 `protobuf:"fixed64,6,opt,name=f6" json:"f6,omitempty"`
	F7    map[int64][]byte       `protobuf:"bytes,7,rep,name=f7" json:"f7,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	F12   map[int32]int32        `protobuf:"bytes,12,rep,name=f12" json:"f12,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value"`
	F18   *string                `protobuf:"bytes,18,opt,name=f18" json:"f18,omitempty"`
	F8    *int64                 `protobuf:"zigzag64,8,req,name=f8" json:"f8,omitempty"`
	// Types that are valid to be assigned to O0:
	//
	//	*S47M4_F40
	//	*S47M4_F1
	O0            isS47M4_O0 `protobuf_oneof:"o0"`
	unknownFields protoimpl.UnknownFields
	sizeCache     protoimpl.SizeCache
}

func (x *S47M4) Reset() {
	*x = S47M4{}
	mi := &file_fxpb_proto_msgTypes[181]
	ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
	ms.StoreMessageInfo(mi)
}

func (x *S47M4) String() string {
	return protoimpl.X.MessageStringOf(x)
}

func (*S47M4) ProtoMessage() {}

func (x *S47M4) ProtoReflect() protoreflect.Message {
	mi := &file_fxpb_proto_msgTypes[181]
	if x != nil {
		ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
		if ms.LoadMessageInfo() == nil {
			ms.StoreMessageInfo(mi)
		}
		return ms
	}
	return mi.MessageOf(x)
}

// Deprecated: Use S47M4.ProtoReflect.Descriptor instead.
func (*S47M4) Descriptor() ([]byte, []int) {
	return file_fxpb_proto_rawDescGZIP(), []int{181}
}

func (x *S47M4) GetF17() map[uint32]int32 {
	if x != nil {
		return x.F17
	}
	return nil
}

func (x *S47M4) GetF6() int64 {
	if x != nil && x.F6 != nil {
		return *x.F6
	}
	return 0
}

func (x *S47M4) GetF7() map[int64][]byte {
	if x != nil {
		return x.F7
	}
	return nil
}

func (x *S47M4) GetF12() map[int32]int32 {
	if x != nil {
		return x.F12
	}
	return nil
}

func (x *S47M4) GetF18() string {
	if x != nil && x.F18 != nil {
		return *x.F18
	}
	return ""
}

func (x *S47M4) GetF8() int64 {
	if x != nil && x.F8 != nil {
		return *x.F8
	}
	return 0
}

func (x *S47M4) GetO0() isS47M4_O0 {
	if x != nil {
		return x.O0
	}
	return nil
}

func (x *S47M4) GetF40() int64 {
	if x != nil {
		if x, ok := x.O0.(*S47M4_F40); ok {
			return x.F40
		}
	}
	return 0
}

func (x *S47M4) GetF1() uint32 {
	if x != nil {
		if x, ok := x.O0.(*S47M4_F1); ok {
			return x.F1
		}
	}
	return 0
}

type isS47M4_O0 interface {
	isS47M4_O0()
}

type S47M4_F40 struct {
	F40 int64 `protobuf:"zigzag64,40,opt,name=f40,oneof"`
}

type S47M4_F1 struct {
	F1 uint32 `protobuf:"varint,1,opt,name=f1,oneof"`
}

func (*S47M4_F40) isS47M4_O0() {}

func (*S47M4_F1) isS47M4_O0() {}

type S47M5 struct {
	state         protoimpl.MessageState `protogen:"open.v1"`
	F8            *uint32                `protobuf:"fixed32,8,opt,name=f8" json:"f8,omitempty"`
	F13           []uint32               `protobuf:"fixed32,13,rep,packed,name=f13" json:"f13,omitempty"`
	F536870911    map[int32]*S47M6       `protobuf:"bytes,536870911,rep,name=f536870911" json:"f536870911,omitempty" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	unknownFields protoimpl.UnknownFields
	sizeCache     protoimpl.SizeCache
}

func (x *S47M5) Reset() {
	*x = S47M5{}
	mi := &file_fxpb_proto_msgTypes[182]
	ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
	ms.StoreMessageInfo(mi)
}

func (x *S47M5) String() string {
	return protoimpl.X.MessageStringOf(x)
}

func (*S47M5) ProtoMessage() {}

func (x *S47M5) ProtoReflect() protoreflect.Message {
	mi := &file_fxpb_proto_msgTypes[182]
	if x != nil {
		ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
		if ms.LoadMessageInfo() == nil {
			ms.StoreMessageInfo(mi)
		}
		return ms
	}
	return mi.MessageOf(x)
}

// Deprecated: Use S47M5.ProtoReflect.Descriptor instead.
func (*S47M5) Descriptor() ([]byte, []int) {
	return file_fxpb_proto_rawDescGZIP(), []int{182}
}

func (x *S47M5) GetF8() uint32 {
	if x != nil && x.F8 != nil {
		return *x.F8
	}
	return 0
}

func (x *S47M5) GetF13() []uint32 {
	if x != nil {
		return x.F13
	}
	return nil
}

func (x *S47M5) GetF536870911() map[int32]*S47M6 {
	if x != nil {
		return x.F536870911
	}
	return nil
}

type S47M6 struct {
	state protoimpl.MessageState `protogen:"open.v1"`
	F2048 *uint64                `protobuf:"varint,2048,opt,name=f2048" json:"f2048,omitempty"`
	// Types that are valid to be assigned to O0:
	//
	//	*S47M6_F1
	//	*S47M6_F536870910
	O0            isS47M6_O0 `protobuf_oneof:"o0"`
	unknownFields protoimpl.UnknownFields
	sizeCache     protoimpl.SizeCache
}

func (x *S47M6) Reset() {
	*x = S47M6{}
	mi := &file_fxpb_proto_msgTypes[183]
	ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
	ms.StoreMessageInfo(mi)
}

func (x *S47M6) String() string {
	return protoimpl.X.MessageStringOf(x)
}

func (*S47M6) ProtoMessage() {}

func (x *S47M6) ProtoReflect() protoreflect.Message {
	mi := &file_fxpb_proto_msgTypes[183]
	if x != nil {
		ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
		if ms.LoadMessageInfo() == nil {
			ms.StoreMessageInfo(mi)
		}
		return ms
	}
	return mi.MessageOf(x)
}

// Deprecated: Use S47M6.ProtoReflect.Descriptor instead.
func (*S47M6) Descriptor() ([]byte, []int) {
	return file_fxpb_proto_rawDescGZIP(), []int{183}
}

func (x *S47M6) GetF2048() uint64 {
	if x != nil && x.F2048 != nil {
		return *x.F2048
	}
	return 0
}

func (x *S47M6) GetO0() isS47M6_O0 {
	if x != nil {
		return x.O0
	}
	return nil
}

func (x *S47M6) GetF1() int64 {
	if x != nil {
		if x, ok := x.O0.(*S47M6_F1); ok {
			return x.F1
		}
	}
	return 0
}

func (x *S47M6) GetF536870910() uint64 {
	if x != nil {
		if x, ok := x.O0.(*S47M6_F536870910); ok {
			return x.F536870910
		}
	}
	return 0
}

type isS47M6_O0 interface {
	isS47M6_O0()
}

type S47M6_F1 struct {
	F1 int64 `protobuf:"fixed64,1,opt,name=f1,oneof"`
}

type S47M6_F536870910 struct {
	F536870910 uint64 `protobuf:"fixed64,536870910,opt,name=f536870910,oneof"`
}

func (*S47M6_F1) isS47M6_O0() {}

func (*S47M6_F536870910) isS47M6_O0() {}

type Rec struct {
	state protoimpl.MessageState `protogen:"open.v1"`
	F1    *Rec                   `protobuf:"bytes,1,opt,name=f1" json:"f1,omitempty"`
	F2    []*Rec                 `protobuf:"bytes,2,rep,name=f2" json:"f2,omitempty"`
	F3    map[string]*Rec        `protobuf:"bytes,3,rep,name=f3" json:"f3,omitempty" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	F4    map[int32]*Rec         `protobuf:"bytes,4,rep,name=f4" json:"f4,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	F5    map[uint64]*Rec        `protobuf:"bytes,5,rep,name=f5" json:"f5,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	F6    map[bool]*Rec          `protobuf:"bytes,6,rep,name=f6" json:"f6,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	F9    int32                  `protobuf:"varint,9,opt,name=f9" json:"f9,omitempty"`
	F10   *string                `protobuf:"bytes,10,opt,name=f10" json:"f10,omitempty"`
	F11   [][]byte               `protobuf:"bytes,11,rep,name=f11" json:"f11,omitempty"`
	// Types that are valid to be assigned to O0:
	//
	//	*Rec_F7
	//	*Rec_F8
	O0            isRec_O0 `protobuf_oneof:"o0"`
	unknownFields protoimpl.UnknownFields
	sizeCache     protoimpl.SizeCache
}

func (x *Rec) Reset() {
	*x = Rec{}
	mi := &file_fxpb_proto_msgTypes[184]
	ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
	ms.StoreMessageInfo(mi)
}

func (x *Rec) String() string {
	return protoimpl.X.MessageStringOf(x)
}

func (*Rec) ProtoMessage() {}

func (x *Rec) ProtoReflect() protoreflect.Message {
	mi := &file_fxpb_proto_msgTypes[184]
	if x != nil {
		ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
		if ms.LoadMessageInfo() == nil {
			ms.StoreMessageInfo(mi)
		}
		return ms
	}
	return mi.MessageOf(x)
}

// Deprecated: Use Rec.ProtoReflect.Descriptor instead.
func (*Rec) Descriptor() ([]byte, []int) {
	return file_fxpb_proto_rawDescGZIP(), []int{184}
}

func (x *Rec) GetF1() *Rec {
	if x != nil {
		return x.F1
	}
	return nil
}

func (x *Rec) GetF2() []*Rec {
	if x != nil {
		return x.F2
	}
	return nil
}

func (x *Rec) GetF3() map[string]*Rec {
	if x != nil {
		return x.F3
	}
	return nil
}

func (x *Rec) GetF4() map[int32]*Rec {
	if x != nil {
		return x.F4
	}
	return nil
}

func (x *Rec) GetF5() map[uint64]*Rec {
	if x != nil {
		return x.F5
	}
	return nil
}

func (x *Rec) GetF6() map[bool]*Rec {
	if x != nil {
		return x.F6
	}
	return nil
}

func (x *Rec) GetF9() int32 {
	if x != nil {
		return x.F9
	}
	return 0
}

func (x *Rec) GetF10() string {
	if x != nil && x.F10 != nil {
		return *x.F10
	}
	return ""
}

func (x *Rec) GetF11() [][]byte {
	if x != nil {
		return x.F11
	}
	return nil
}

func (x *Rec) GetO0() isRec_O0 {
	if x != nil {
		return x.O0
	}
	return nil
}

func (x *Rec) GetF7() *Rec {
	if x != nil {
		if x, ok := x.O0.(*Rec_F7); ok {
			return x.F7
		}
	}
	return nil
}

func (x *Rec) GetF8() int32 {
	if x != nil {
		if x, ok := x.O0.(*Rec_F8); ok {
			return x.F8
		}
	}
	return 0
}

type isRec_O0 interface {
	isRec_O0()
}

type Rec_F7 struct {
	F7 *Rec `protobuf:"bytes,7,opt,name=f7,oneof"`
}

type Rec_F8 struct {
	F8 int32 `protobuf:"varint,8,opt,name=f8,oneof"`
}

func (*Rec_F7) isRec_O0() {}

func (*Rec_F8) isRec_O0() {}

type MutA struct {
	state         protoimpl.MessageState `protogen:"open.v1"`
	F1            *MutB                  `protobuf:"bytes,1,opt,name=f1" json:"f1,omitempty"`
	F2            []int64                `protobuf:"zigzag64,2,rep,packed,name=f2" json:"f2,omitempty"`
	F3            []*MutA                `protobuf:"bytes,3,rep,name=f3" json:"f3,omitempty"`
	unknownFields protoimpl.UnknownFields
	sizeCache     protoimpl.SizeCache
}

func (x *MutA) Reset() {
	*x = MutA{}
	mi := &file_fxpb_proto_msgTypes[185]
	ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
	ms.StoreMessageInfo(mi)
}

func (x *MutA) String() string {
	return protoimpl.X.MessageStringOf(x)
}

func (*MutA) ProtoMessage() {}

func (x *MutA) ProtoReflect() protoreflect.Message {
	mi := &file_fxpb_proto_msgTypes[185]
	if x != nil {
		ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
		if ms.LoadMessageInfo() == nil {
			ms.StoreMessageInfo(mi)
		}
		return ms
	}
	return mi.MessageOf(x)
}

// Deprecated: Use MutA.ProtoReflect.Descriptor instead.
func (*MutA) Descriptor() ([]byte, []int) {
	return file_fxpb_proto_rawDescGZIP(), []int{185}
}

func (x *MutA) GetF1() *MutB {
	if x != nil {
		return x.F1
	}
	return nil
}

func (x *MutA) GetF2() []int64 {
	if x != nil {
		return x.F2
	}
	return nil
}

func (x *MutA) GetF3() []*MutA {
	if x != nil {
		return x.F3
	}
	return nil
}

type MutB struct {
	state         protoimpl.MessageState `protogen:"open.v1"`
	F1            *MutA                  `protobuf:"bytes,1,opt,name=f1" json:"f1,omitempty"`
	F2            map[int32]*MutA        `protobuf:"bytes,2,rep,name=f2" json:"f2,omitempty" protobuf_key:"zigzag32,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	F3            float64                `protobuf:"fixed64,3,opt,name=f3" json:"f3,omitempty"`
	unknownFields protoimpl.UnknownFields
	sizeCache     protoimpl.SizeCache
}

func (x *MutB) Reset() {
	*x = MutB{}
	mi := &file_fxpb_proto_msgTypes[186]
	ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
	ms.StoreMessageInfo(mi)
}

func (x *MutB) String() string {
	return protoimpl.X.MessageStringOf(x)
}

func (*MutB) ProtoMessage() {}

func (x *MutB) ProtoReflect() protoreflect.Message {
	mi := &file_fxpb_proto_msgTypes[186]
	if x != nil {
		ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
		if ms.LoadMessageInfo() == nil {
			ms.StoreMessageInfo(mi)
		}
		return ms
	}
	return mi.MessageOf(x)
}

// Deprecated: Use MutB.ProtoReflect.Descriptor instead.
func (*MutB) Descriptor() ([]byte, []int) {
	return file_fxpb_proto_rawDescGZIP(), []int{186}
}

func (x *MutB) GetF1() *MutA {
	if x != nil {
		return x.F1
	}
	return nil
}

func (x *MutB) GetF2() map[int32]*MutA {
	if x != nil {
		return x.F2
	}
	return nil
}

func (x *MutB) GetF3() float64 {
	if x != nil {
		return x.F3
	}
	return 0
}

type AllImplicit struct {
	state         protoimpl.MessageState `protogen:"open.v1"`
	F1            int32                  `protobuf:"varint,1,opt,name=f1" json:"f1,omitempty"`
	F2            int64                  `protobuf:"varint,2,opt,name=f2" json:"f2,omitempty"`
	F3            uint32                 `protobuf:"varint,3,opt,name=f3" json:"f3,omitempty"`
	F4            uint64                 `protobuf:"varint,4,opt,name=f4" json:"f4,omitempty"`
	F5            int32                  `protobuf:"zigzag32,5,opt,name=f5" json:"f5,omitempty"`
	F6            int64                  `protobuf:"zigzag64,6,opt,name=f6" json:"f6,omitempty"`
	F7            uint32                 `protobuf:"fixed32,7,opt,name=f7" json:"f7,omitempty"`
	F8            uint64                 `protobuf:"fixed64,8,opt,name=f8" json:"f8,omitempty"`
	F9            int32                  `protobuf:"fixed32,9,opt,name=f9" json:"f9,omitempty"`
	F10           int64                  `protobuf:"fixed64,10,opt,name=f10" json:"f10,omitempty"`
	F11           float32                `protobuf:"fixed32,11,opt,name=f11" json:"f11,omitempty"`
	F12           float64                `protobuf:"fixed64,12,opt,name=f12" json:"f12,omitempty"`
	F13           bool                   `protobuf:"varint,13,opt,name=f13" json:"f13,omitempty"`
	F14           E                      `protobuf:"varint,14,opt,name=f14,enum=fxpb.E" json:"f14,omitempty"`
	F15           string                 `protobuf:"bytes,15,opt,name=f15" json:"f15,omitempty"`
	F16           []byte                 `protobuf:"bytes,16,opt,name=f16" json:"f16,omitempty"`
	unknownFields protoimpl.UnknownFields
	sizeCache     protoimpl.SizeCache
}

func (x *AllImplicit) Reset() {
	*x = AllImplicit{}
	mi := &file_fxpb_proto_msgTypes[187]
	ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
	ms.StoreMessageInfo(mi)
}

func (x *AllImplicit) String() string {
	return protoimpl.X.MessageStringOf(x)
}

func (*AllImplicit) ProtoMessage() {}

func (x *AllImplicit) ProtoReflect() protoreflect.Message {
	mi := &file_fxpb_proto_msgTypes[187]
	if x != nil {
		ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
		if ms.LoadMessageInfo() == nil {
			ms.StoreMessageInfo(mi)
		}
		return ms
	}
	return mi.MessageOf(x)
}

// Deprecated: Use AllImplicit.ProtoReflect.Descriptor instead.
func (*AllImplicit) Descriptor() ([]byte, []int) {
	return file_fxpb_proto_rawDescGZIP(), []int{187}
}

func (x *AllImplicit) GetF1() int32 {
	if x != nil {
		return x.F1
	}
	return 0
}

func (x *AllImplicit) GetF2() int64 {
	if x != nil {
		return x.F2
	}
	return 0
}

func (x *AllImplicit) GetF3() uint32 {
	if x != nil {
		return x.F3
	}
	return 0
}

func (x *AllImplicit) GetF4() uint64 {
	if x != nil {
		return x.F4
	}
	return 0
}

func (x *AllImplicit) GetF5() int32 {
	if x != nil {
		return x.F5
	}
	return 0
}

func (x *AllImplicit) GetF6() int64 {
	if x != nil {
		return x.F6
	}
	return 0
}

func (x *AllImplicit) GetF7() uint32 {
	if x != nil {
		return x.F7
	}
	return 0
}

func (x *AllImplicit) GetF8() uint64 {
	if x != nil {
		return x.F8
	}
	return 0
}

func (x *AllImplicit) GetF9() int32 {
	if x != nil {
		return x.F9
	}
	return 0
}

func (x *AllImplicit) GetF10() int64 {
	if x != nil {
		return x.F10
	}
	return 0
}

func (x *AllImplicit) GetF11() float32 {
	if x != nil {
		return x.F11
	}
	return 0
}

func (x *AllImplicit) GetF12() float64 {
	if x != nil {
		return x.F12
	}
	return 0
}

func (x *AllImplicit) GetF13() bool {
	if x != nil {
		return x.F13
	}
	return false
}

func (x *AllImplicit) GetF14() E {
	if x != nil {
		return x.F14
	}
	return E_E_ZERO
}

func (x *AllImplicit) GetF15() string {
	if x != nil {
		return x.F15
	}
	return ""
}

func (x *AllImplicit) GetF16() []byte {
	if x != nil {
		return x.F16
	}
	return nil
}

type AllExplicit struct {
	state         protoimpl.MessageState `protogen:"open.v1"`
	F1            *int32                 `protobuf:"varint,1,opt,name=f1" json:"f1,omitempty"`
	F2            *int64                 `protobuf:"varint,2,opt,name=f2" json:"f2,omitempty"`
	F3            *uint32                `protobuf:"varint,3,opt,name=f3" json:"f3,omitempty"`
	F4            *uint64                `protobuf:"varint,4,opt,name=f4" json:"f4,omitempty"`
	F5            *int32                 `protobuf:"zigzag32,5,opt,name=f5" json:"f5,omitempty"`
	F6            *int64                 `protobuf:"zigzag64,6,opt,name=f6" json:"f6,omitempty"`
	F7            *uint32                `protobuf:"fixed32,7,opt,name=f7" json:"f7,omitempty"`
	F8            *uint64                `protobuf:"fixed64,8,opt,name=f8" json:"f8,omitempty"`
	F9            *int32                 `protobuf:"fixed32,9,opt,name=f9" json:"f9,omitempty"`
	F10           *int64                 `protobuf:"fixed64,10,opt,name=f10" json:"f10,omitempty"`
	F11           *float32               `protobuf:"fixed32,11,opt,name=f11" json:"f11,omitempty"`
	F12           *float64               `protobuf:"fixed64,12,opt,name=f12" json:"f12,omitempty"`
	F13           *bool                  `protobuf:"varint,13,opt,name=f13" json:"f13,omitempty"`
	F14           *E                     `protobuf:"varint,14,opt,name=f14,enum=fxpb.E" json:"f14,omitempty"`
	F15           *string                `protobuf:"bytes,15,opt,name=f15" json:"f15,omitempty"`
	F16           []byte                 `protobuf:"bytes,16,opt,name=f16" json:"f16,omitempty"`
	unknownFields protoimpl.UnknownFields
	sizeCache     protoimpl.SizeCache
}

func (x *AllExplicit) Reset() {
	*x = AllExplicit{}
	mi := &file_fxpb_proto_msgTypes[188]
	ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
	ms.StoreMessageInfo(mi)
}

func (x *AllExplicit) String() string {
	return protoimpl.X.MessageStringOf(x)
}

func (*AllExplicit) ProtoMessage() {}

func (x *AllExplicit) ProtoReflect() protoreflect.Message {
	mi := &file_fxpb_proto_msgTypes[188]
	if x != nil {
		ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
		if ms.LoadMessageInfo() == nil {
			ms.StoreMessageInfo(mi)
		}
		return ms
	}
	return mi.MessageOf(x)
}

// Deprecated: Use AllExplicit.ProtoReflect.Descriptor instead.
func (*AllExplicit) Descriptor() ([]byte, []int) {
	return file_fxpb_proto_rawDescGZIP(), []int{188}
}

func (x *AllExplicit) GetF1() int32 {
	if x != nil && x.F1 != nil {
		return *x.F1
	}
	return 0
}

func (x *AllExplicit) GetF2() int64 {
	if x != nil && x.F2 != nil {
		return *x.F2
	}
	return 0
}

func (x *AllExplicit) GetF3() uint32 {
	if x != nil && x.F3 != nil {
		return *x.F3
	}
	return 0
}

func (x *AllExplicit) GetF4() uint64 {
	if x != nil && x.F4 != nil {
		return *x.F4
	}
	return 0
}

func (x *AllExplicit) GetF5() int32 {
	if x != nil && x.F5 != nil {
		return *x.F5
	}
	return 0
}

func (x *AllExplicit) GetF6() int64 {
	if x != nil && x.F6 != nil {
		return *x.F6
	}
	return 0
}

func (x *AllExplicit) GetF7() uint32 {
	if x != nil && x.F7 != nil {
		return *x.F7
	}
	return 0
}

func (x *AllExplicit) GetF8() uint64 {
	if x != nil && x.F8 != nil {
		return *x.F8
	}
	return 0
}

func (x *AllExplicit) GetF9() int32 {
	if x != nil && x.F9 != nil {
		return *x.F9
	}
	return 0
}

func (x *AllExplicit) GetF10() int64 {
	if x != nil && x.F10 != nil {
		return *x.F10
	}
	return 0
}

func (x *AllExplicit) GetF11() float32 {
	if x != nil && x.F11 != nil {
		return *x.F11
	}
	return 0
}

func (x *AllExplicit) GetF12() float64 {
	if x != nil && x.F12 != nil {
		return *x.F12
	}
	return 0
}

func (x *AllExplicit) GetF13() bool {
	if x != nil && x.F13 != nil {
		return *x.F13
	}
	return false
}

func (x *AllExplicit) GetF14() E {
	if x != nil && x.F14 != nil {
		return *x.F14
	}
	return E_E_ZERO
}

func (x *AllExplicit) GetF15() string {
	if x != nil && x.F15 != nil {
		return *x.F15
	}
	return ""
}

func (x *AllExplicit) GetF16() []byte {
	if x != nil {
		return x.F16
	}
	return nil
}

type AllRepeated struct {
	state         protoimpl.MessageState `protogen:"open.v1"`
	F1            []int32                `protobuf:"varint,1,rep,packed,name=f1" json:"f1,omitempty"`
	F2            []int32                `protobuf:"varint,2,rep,name=f2" json:"f2,omitempty"`
	F3            []int64                `protobuf:"varint,3,rep,packed,name=f3" json:"f3,omitempty"`
	F4            []int64                `protobuf:"varint,4,rep,name=f4" json:"f4,omitempty"`
	F5            []uint32               `protobuf:"varint,5,rep,packed,name=f5" json:"f5,omitempty"`
	F6            []uint32               `protobuf:"varint,6,rep,name=f6" json:"f6,omitempty"`
	F7            []uint64               `protobuf:"varint,7,rep,packed,name=f7" json:"f7,omitempty"`
	F8            []uint64               `protobuf:"varint,8,rep,name=f8" json:"f8,omitempty"`
	F9            []int32                `protobuf:"zigzag32,9,rep,packed,name=f9" json:"f9,omitempty"`
	F10           []int32                `protobuf:"zigzag32,10,rep,name=f10" json:"f10,omitempty"`
	F11           []int64                `protobuf:"zigzag64,11,rep,packed,name=f11" json:"f11,omitempty"`
	F12           []int64                `protobuf:"zigzag64,12,rep,name=f12" json:"f12,omitempty"`
	F13           []uint32               `protobuf:"fixed32,13,rep,packed,name=f13" json:"f13,omitempty"`
	F14           []uint32               `protobuf:"fixed32,14,rep,name=f14" json:"f14,omitempty"`
	F15           []uint64               `protobuf:"fixed64,15,rep,packed,name=f15" json:"f15,omitempty"`
	F16           []uint64               `protobuf:"fixed64,16,rep,name=f16" json:"f16,omitempty"`
	F17           []int32                `protobuf:"fixed32,17,rep,packed,name=f17" json:"f17,omitempty"`
	F18           []int32                `protobuf:"fixed32,18,rep,name=f18" json:"f18,omitempty"`
	F19           []int64                `protobuf:"fixed64,19,rep,packed,name=f19" json:"f19,omitempty"`
	F20           []int64                `protobuf:"fixed64,20,rep,name=f20" json:"f20,omitempty"`
	F21           []float32              `protobuf:"fixed32,21,rep,packed,name=f21" json:"f21,omitempty"`
	F22           []float32              `protobuf:"fixed32,22,rep,name=f22" json:"f22,omitempty"`
	F23           []float64              `protobuf:"fixed64,23,rep,packed,name=f23" json:"f23,omitempty"`
	F24           []float64              `protobuf:"fixed64,24,rep,name=f24" json:"f24,omitempty"`
	F25           []bool                 `protobuf:"varint,25,rep,packed,name=f25" json:"f25,omitempty"`
	F26           []bool                 `protobuf:"varint,26,rep,name=f26" json:"f26,omitempty"`
	F27           []E                    `protobuf:"varint,27,rep,packed,name=f27,enum=fxpb.E" json:"f27,omitempty"`
	F28           []E                    `protobuf:"varint,28,rep,name=f28,enum=fxpb.E" json:"f28,omitempty"`
	F29           []string               `protobuf:"bytes,29,rep,name=f29" json:"f29,omitempty"`
	F30           [][]byte               `protobuf:"bytes,30,rep,name=f30" json:"f30,omitempty"`
	unknownFields protoimpl.UnknownFields
	sizeCache     protoimpl.SizeCache
}

func (x *AllRepeated) Reset() {
	*x = AllRepeated{}
	mi := &file_fxpb_proto_msgTypes[189]
	ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
	ms.StoreMessageInfo(mi)
}

func (x *AllRepeated) String() string {
	return protoimpl.X.MessageStringOf(x)
}

func (*AllRepeated) ProtoMessage() {}

func (x *AllRepeated) ProtoReflect() protoreflect.Message {
	mi := &file_fxpb_proto_msgTypes[189]
	if x != nil {
		ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
		if ms.LoadMessageInfo() == nil {
			ms.StoreMessageInfo(mi)
		}
		return ms
	}
	return mi.MessageOf(x)
}

// Deprecated: Use AllRepeated.ProtoReflect.Descriptor instead.
func (*AllRepeated) Descriptor() ([]byte, []int) {
	return file_fxpb_proto_rawDescGZIP(), []int{189}
}

func (x *AllRepeated) GetF1() []int32 {
	if x != nil {
		return x.F1
	}
	return nil
}

func (x *AllRepeated) GetF2() []int32 {
	if x != nil {
		return x.F2
	}
	return nil
}

func (x *AllRepeated) GetF3() []int64 {
	if x != nil {
		return x.F3
	}
	return nil
}

func (x *AllRepeated) GetF4() []int64 {
	if x != nil {
		return x.F4
	}
	return nil
}

func (x *AllRepeated) GetF5() []uint32 {
	if x != nil {
		return x.F5
	}
	return nil
}

func (x *AllRepeated) GetF6() []uint32 {
	if x != nil {
		return x.F6
	}
	return nil
}

func (x *AllRepeated) GetF7() []uint64 {
	if x != nil {
		return x.F7
	}
	return nil
}

func (x *AllRepeated) GetF8() []uint64 {
	if x != nil {
		return x.F8
	}
	return nil
}

func (x *AllRepeated) GetF9() []int32 {
	if x != nil {
		return x.F9
	}
	return nil
}

func (x *AllRepeated) GetF10() []int32 {
	if x != nil {
		return x.F10
	}
	return nil
}

func (x *AllRepeated) GetF11() []int64 {
	if x != nil {
		return x.F11
	}
	return nil
}

func (x *AllRepeated) GetF12() []int64 {
	if x != nil {
		return x.F12
	}
	return nil
}

func (x *AllRepeated) GetF13() []uint32 {
	if x != nil {
		return x.F13
	}
	return nil
}

func (x *AllRepeated) GetF14() []uint32 {
	if x != nil {
		return x.F14
	}
	return nil
}

func (x *AllRepeated) GetF15() []uint64 {
	if x != nil {
		return x.F15
	}
	return nil
}

func (x *AllRepeated) GetF16() []uint64 {
	if x != nil {
		return x.F16
	}
	return nil
}

func (x *AllRepeated) GetF17() []int32 {
	if x != nil {
		return x.F17
	}
	return nil
}

func (x *AllRepeated) GetF18() []int32 {
	if x != nil {
		return x.F18
	}
	return nil
}

func (x *AllRepeated) GetF19() []int64 {
	if x != nil {
		return x.F19
	}
	return nil
}

func (x *AllRepeated) GetF20() []int64 {
	if x != nil {
		return x.F20
	}
	return nil
}

func (x *AllRepeated) GetF21() []float32 {
	if x != nil {
		return x.F21
	}
	return nil
}

func (x *AllRepeated) GetF22() []float32 {
	if x != nil {
		return x.F22
	}
	return nil
}

func (x *AllRepeated) GetF23() []float64 {
	if x != nil {
		return x.F23
	}
	return nil
}

func (x *AllRepeated) GetF24() []float64 {
	if x != nil {
		return x.F24
	}
	return nil
}

func (x *AllRepeated) GetF25() []bool {
	if x != nil {
		return x.F25
	}
	return nil
}

func (x *AllRepeated) GetF26() []bool {
	if x != nil {
		return x.F26
	}
	return nil
}

func (x *AllRepeated) GetF27() []E {
	if x != nil {
		return x.F27
	}
	return nil
}

func (x *AllRepeated) GetF28() []E {
	if x != nil {
		return x.F28
	}
	return nil
}

func (x *AllRepeated) GetF29() []string {
	if x != nil {
		return x.F29
	}
	return nil
}

func (x *AllRepeated) GetF30() [][]byte {
	if x != nil {
		return x.F30
	}
	return nil
}

type AllOneof struct {
	state protoimpl.MessageState `protogen:"open.v1"`
	// Types that are valid to be assigned to O0:
	//
	//	*AllOneof_F1
	//	*AllOneof_F2
	O0 isAllOneof_O0 `protobuf_oneof:"o0"`
	// Types that are valid to be assigned to O1:
	//
	//	*AllOneof_F3
	//	*AllOneof_F4
	O1 isAllOneof_O1 `protobuf_oneof:"o1"`
	// Types that are valid to be assigned to O2:
	//
	//	*AllOneof_F5
	//	*AllOneof_F6
	O2 isAllOneof_O2 `protobuf_oneof:"o2"`
	// Types that are valid to be assigned to O3:
	//
	//	*AllOneof_F7
	//	*AllOneof_F8
	O3 isAllOneof_O3 `protobuf_oneof:"o3"`
	// Types that are valid to be assigned to O4:
	//
	//	*AllOneof_F9
	//	*AllOneof_F10
	O4 isAllOneof_O4 `protobuf_oneof:"o4"`
	// Types that are valid to be assigned to O5:
	//
	//	*AllOneof_F11
	//	*AllOneof_F12
	O5 isAllOneof_O5 `protobuf_oneof:"o5"`
	// Types that are valid to be assigned to O6:
	//
	//	*AllOneof_F13
	//	*AllOneof_F14
	O6 isAllOneof_O6 `protobuf_oneof:"o6"`
	// Types that are valid to be assigned to O7:
	//
	//	*AllOneof_F15
	//	*AllOneof_F16
	O7 isAllOneof_O7 `protobuf_oneof:"o7"`
	// Types that are valid to be assigned to O8:
	//
	//	*AllOneof_F17
	//	*AllOneof_F18
	O8 isAllOneof_O8 `protobuf_oneof:"o8"`
	// Types that are valid to be assigned to O9:
	//
	//	*AllOneof_F19
	//	*AllOneof_F20
	O9 isAllOneof_O9 `protobuf_oneof:"o9"`
	// Types that are valid to be assigned to O10:
	//
	//	*AllOneof_F21
	//	*AllOneof_F22
	O10 isAllOneof_O10 `protobuf_oneof:"o10"`
	// Types that are valid to be assigned to O11:
	//
	//	*AllOneof_F23
	//	*AllOneof_F24
	O11 isAllOneof_O11 `protobuf_oneof:"o11"`
	// Types that are valid to be assigned to O12:
	//
	//	*AllOneof_F25
	//	*AllOneof_F26
	O12 isAllOneof_O12 `protobuf_oneof:"o12"`
	// Types that are valid to be assigned to O13:
	//
	//	*AllOneof_F27
	//	*AllOneof_F28
	O13 isAllOneof_O13 `protobuf_oneof:"o13"`
	// Types that are valid to be assigned to O14:
	//
	//	*AllOneof_F29
	//	*AllOneof_F30
	O14 isAllOneof_O14 `protobuf_oneof:"o14"`
	// Types that are valid to be assigned to O15:
	//
	//	*AllOneof_F31
	//	*AllOneof_F32
	O15           isAllOneof_O15 `protobuf_oneof:"o15"`
	unknownFields protoimpl.UnknownFields
	sizeCache     protoimpl.SizeCache
}

func (x *AllOneof) Reset() {
	*x = AllOneof{}
	mi := &file_fxpb_proto_msgTypes[190]
	ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
	ms.StoreMessageInfo(mi)
}

func (x *AllOneof) String() string {
	return protoimpl.X.MessageStringOf(x)
}

func (*AllOneof) ProtoMessage() {}

func (x *AllOneof) ProtoReflect() protoreflect.Message {
	mi := &file_fxpb_proto_msgTypes[190]
	if x != nil {
		ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
		if ms.LoadMessageInfo() == nil {
			ms.StoreMessageInfo(mi)
		}
		return ms
	}
	return mi.MessageOf(x)
}

// Deprecated: Use AllOneof.ProtoReflect.Descriptor instead.
func (*AllOneof) Descriptor() ([]byte, []int) {
	return file_fxpb_proto_rawDescGZIP(), []int{190}
}

func (x *AllOneof) GetO0() isAllOneof_O0 {
	if x != nil {
		return x.O0
	}
	return nil
}

func (x *AllOneof) GetF1() int32 {
	if x != nil {
		if x, ok := x.O0.(*AllOneof_F1); ok {
			return x.F1
		}
	}
	return 0
}

func (x *AllOneof) GetF2() string {
	if x != nil {
		if x, ok := x.O0.(*AllOneof_F2); ok {
			return x.F2
		}
	}
	return ""
}

func (x *AllOneof) GetO1() isAllOneof_O1 {
	if x != nil {
		return x.O1
	}
	return nil
}

func (x *AllOneof) GetF3() int64 {
	if x != nil {
		if x, ok := x.O1.(*AllOneof_F3); ok {
			return x.F3
		}
	}
	return 0
}

func (x *AllOneof) GetF4() string {
	if x != nil {
		if x, ok := x.O1.(*AllOneof_F4); ok {
			return x.F4
		}
	}
	return ""
}

func (x *AllOneof) GetO2() isAllOneof_O2 {
	if x != nil {
		return x.O2
	}
	return nil
}

func (x *AllOneof) GetF5() uint32 {
	if x != nil {
		if x, ok := x.O2.(*AllOneof_F5); ok {
			return x.F5
		}
	}
	return 0
}

func (x *AllOneof) GetF6() string {
	if x != nil {
		if x, ok := x.O2.(*AllOneof_F6); ok {
			return x.F6
		}
	}
	return ""
}

func (x *AllOneof) GetO3() isAllOneof_O3 {
	if x != nil {
		return x.O3
	}
	return nil
}

func (x *AllOneof) GetF7() uint64 {
	if x != nil {
		if x, ok := x.O3.(*AllOneof_F7); ok {
			return x.F7
		}
	}
	return 0
}

func (x *AllOneof) GetF8() string {
	if x != nil {
		if x, ok := x.O3.(*AllOneof_F8); ok {
			return x.F8
		}
	}
	return ""
}

func (x *AllOneof) GetO4() isAllOneof_O4 {
	if x != nil {
		return x.O4
	}
	return nil
}

func (x *AllOneof) GetF9() int32 {
	if x != nil {
		if x, ok := x.O4.(*AllOneof_F9); ok {
			return x.F9
		}
	}
	return 0
}

func (x *AllOneof) GetF10() string {
	if x != nil {
		if x, ok := x.O4.(*AllOneof_F10); ok {
			return x.F10
		}
	}
	return ""
}

func (x *AllOneof) GetO5() isAllOneof_O5 {
	if x != nil {
		return x.O5
	}
	return nil
}

func (x *AllOneof) GetF11() int64 {
	if x != nil {
		if x, ok := x.O5.(*AllOneof_F11); ok {
			return x.F11
		}
	}
	return 0
}

func (x *AllOneof) GetF12() string {
	if x != nil {
		if x, ok := x.O5.(*AllOneof_F12); ok {
			return x.F12
		}
	}
	return ""
}

func (x *AllOneof) GetO6() isAllOneof_O6 {
	if x != nil {
		return x.O6
	}
	return nil
}

func (x *AllOneof) GetF13() uint32 {
	if x != nil {
		if x, ok := x.O6.(*AllOneof_F13); ok {
			return x.F13
		}
	}
	return 0
}

func (x *AllOneof) GetF14() string {
	if x != nil {
		if x, ok := x.O6.(*AllOneof_F14); ok {
			return x.F14
		}
	}
	return ""
}

func (x *AllOneof) GetO7() isAllOneof_O7 {
	if x != nil {
		return x.O7
	}
	return nil
}

func (x *AllOneof) GetF15() uint64 {
	if x != nil {
		if x, ok := x.O7.(*AllOneof_F15); ok {
			return x.F15
		}
	}
	return 0
}

func (x *AllOneof) GetF16() string {
	if x != nil {
		if x, ok := x.O7.(*AllOneof_F16); ok {
			return x.F16
		}
	}
	return ""
}

func (x *AllOneof) GetO8() isAllOneof_O8 {
	if x != nil {
		return x.O8
	}
	return nil
}

func (x *AllOneof) GetF17() int32 {
	if x != nil {
		if x, ok := x.O8.(*AllOneof_F17); ok {
			return x.F17
		}
	}
	return 0
}

func (x *AllOneof) GetF18() string {
	if x != nil {
		if x, ok := x.O8.(*AllOneof_F18); ok {
			return x.F18
		}
	}
	return ""
}

func (x *AllOneof) GetO9() isAllOneof_O9 {
	if x != nil {
		return x.O9
	}
	return nil
}

func (x *AllOneof) GetF19() int64 {
	if x != nil {
		if x, ok := x.O9.(*AllOneof_F19); ok {
			return x.F19
		}
	}
	return 0
}

func (x *AllOneof) GetF20() string {
	if x != nil {
		if x, ok := x.O9.(*AllOneof_F20); ok {
			return x.F20
		}
	}
	return ""
}

func (x *AllOneof) GetO10() isAllOneof_O10 {
	if x != nil {
		return x.O10
	}
	return nil
}

func (x *AllOneof) GetF21() float32 {
	if x != nil {
		if x, ok := x.O10.(*AllOneof_F21); ok {
			return x.F21
		}
	}
	return 0
}

func (x *AllOneof) GetF22() string {
	if x != nil {
		if x, ok := x.O10.(*AllOneof_F22); ok {
			return x.F22
		}
	}
	return ""
}

func (x *AllOneof) GetO11() isAllOneof_O11 {
	if x != nil {
		return x.O11
	}
	return nil
}

func (x *AllOneof) GetF23() float64 {
	if x != nil {
		if x, ok := x.O11.(*AllOneof_F23); ok {
			return x.F23
		}
	}
	return 0
}

func (x *AllOneof) GetF24() string {
	if x != nil {
		if x, ok := x.O11.(*AllOneof_F24); ok {
			return x.F24
		}
	}
	return ""
}

func (x *AllOneof) GetO12() isAllOneof_O12 {
	if x != nil {
		return x.O12
	}
	return nil
}

func (x *AllOneof) GetF25() bool {
	if x != nil {
		if x, ok := x.O12.(*AllOneof_F25); ok {
			return x.F25
		}
	}
	return false
}

func (x *AllOneof) GetF26() string {
	if x != nil {
		if x, ok := x.O12.(*AllOneof_F26); ok {
			return x.F26
		}
	}
	return ""
}

func (x *AllOneof) GetO13() isAllOneof_O13 {
	if x != nil {
		return x.O13
	}
	return nil
}

func (x *AllOneof) GetF27() E {
	if x != nil {
		if x, ok := x.O13.(*AllOneof_F27); ok {
			return x.F27
		}
	}
	return E_E_ZERO
}

func (x *AllOneof) GetF28() string {
	if x != nil {
		if x, ok := x.O13.(*AllOneof_F28); ok {
			return x.F28
		}
	}
	return ""
}

func (x *AllOneof) GetO14() isAllOneof_O14 {
	if x != nil {
		return x.O14
	}
	return nil
}

func (x *AllOneof) GetF29() string {
	if x != nil {
		if x, ok := x.O14.(*AllOneof_F29); ok {
			return x.F29
		}
	}
	return ""
}

func (x *AllOneof) GetF30() string {
	if x != nil {
		if x, ok := x.O14.(*AllOneof_F30); ok {
			return x.F30
		}
	}
	return ""
}

func (x *AllOneof) GetO15() isAllOneof_O15 {
	if x != nil {
		return x.O15
	}
	return nil
}

func (x *AllOneof) GetF31() []byte {
	if x != nil {
		if x, ok := x.O15.(*AllOneof_F31); ok {
			return x.F31
		}
	}
	return nil
}

func (x *AllOneof) GetF32() string {
	if x != nil {
		if x, ok := x.O15.(*AllOneof_F32); ok {
			return x.F32
		}
	}
	return ""
}

type isAllOneof_O0 interface {
	isAllOneof_O0()
}

type AllOneof_F1 struct {
	F1 int32 `protobuf:"varint,1,opt,name=f1,oneof"`
}

type AllOneof_F2 struct {
	F2 string `protobuf:"bytes,2,opt,name=f2,oneof"`
}

func (*AllOneof_F1) isAllOneof_O0() {}

func (*AllOneof_F2) isAllOneof_O0() {}

type isAllOneof_O1 interface {
	isAllOneof_O1()
}

type AllOneof_F3 struct {
	F3 int64 `protobuf:"varint,3,opt,name=f3,oneof"`
}

type AllOneof_F4 struct {
	F4 string `protobuf:"bytes,4,opt,name=f4,oneof"`
}

func (*AllOneof_F3) isAllOneof_O1() {}

func (*AllOneof_F4) isAllOneof_O1() {}

type isAllOneof_O2 interface {
	isAllOneof_O2()
}

type AllOneof_F5 struct {
	F5 uint32 `protobuf:"varint,5,opt,name=f5,oneof"`
}

type AllOneof_F6 struct {
	F6 string `protobuf:"bytes,6,opt,name=f6,oneof"`
}

func (*AllOneof_F5) isAllOneof_O2() {}

func (*AllOneof_F6) isAllOneof_O2() {}

type isAllOneof_O3 interface {
	isAllOneof_O3()
}

type AllOneof_F7 struct {
	F7 uint64 `protobuf:"varint,7,opt,name=f7,oneof"`
}

type AllOneof_F8 struct {
	F8 string `protobuf:"bytes,8,opt,name=f8,oneof"`
}

func (*AllOneof_F7) isAllOneof_O3() {}

func (*AllOneof_F8) isAllOneof_O3() {}

type isAllOneof_O4 interface {
	isAllOneof_O4()
}

type AllOneof_F9 struct {
	F9 int32 `protobuf:"zigzag32,9,opt,name=f9,oneof"`
}

type AllOneof_F10 struct {
	F10 string `protobuf:"bytes,10,opt,name=f10,oneof"`
}

func (*AllOneof_F9) isAllOneof_O4() {}

func (*AllOneof_F10) isAllOneof_O4() {}

type isAllOneof_O5 interface {
	isAllOneof_O5()
}

type AllOneof_F11 struct {
	F11 int64 `protobuf:"zigzag64,11,opt,name=f11,oneof"`
}

type AllOneof_F12 struct {
	F12 string `protobuf:"bytes,12,opt,name=f12,oneof"`
}

func (*AllOneof_F11) isAllOneof_O5() {}

func (*AllOneof_F12) isAllOneof_O5() {}

type isAllOneof_O6 interface {
	isAllOneof_O6()
}

type AllOneof_F13 struct {
	F13 uint32 `protobuf:"fixed32,13,opt,name=f13,oneof"`
}

type AllOneof_F14 struct {
	F14 string `protobuf:"bytes,14,opt,name=f14,oneof"`
}

func (*AllOneof_F13) isAllOneof_O6() {}

func (*AllOneof_F14) isAllOneof_O6() {}

type isAllOneof_O7 interface {
	isAllOneof_O7()
}

type AllOneof_F15 struct {
	F15 uint64 `protobuf:"fixed64,15,opt,name=f15,oneof"`
}

type AllOneof_F16 struct {
	F16 string `protobuf:"bytes,16,opt,name=f16,oneof"`
}

func (*AllOneof_F15) isAllOneof_O7() {}

func (*AllOneof_F16) isAllOneof_O7() {}

type isAllOneof_O8 interface {
	isAllOneof_O8()
}

type AllOneof_F17 struct {
	F17 int32 `protobuf:"fixed32,17,opt,name=f17,oneof"`
}

type AllOneof_F18 struct {
	F18 string `protobuf:"bytes,18,opt,name=f18,oneof"`
}

func (*AllOneof_F17) isAllOneof_O8() {}

func (*AllOneof_F18) isAllOneof_O8() {}

type isAllOneof_O9 interface {
	isAllOneof_O9()
}

type AllOneof_F19 struct {
	F19 int64 `protobuf:"fixed64,19,opt,name=f19,oneof"`
}

type AllOneof_F20 struct {
	F20 string `protobuf:"bytes,20,opt,name=f20,oneof"`
}

func (*AllOneof_F19) isAllOneof_O9() {}

func (*AllOneof_F20) isAllOneof_O9() {}

type isAllOneof_O10 interface {
	isAllOneof_O10()
}

type AllOneof_F21 struct {
	F21 float32 `protobuf:"fixed32,21,opt,name=f21,oneof"`
}

type AllOneof_F22 struct {
	F22 string `protobuf:"bytes,22,opt,name=f22,oneof"`
}

func (*AllOneof_F21) isAllOneof_O10() {}

func (*AllOneof_F22) isAllOneof_O10() {}

type isAllOneof_O11 interface {
	isAllOneof_O11()
}

type AllOneof_F23 struct {
	F23 float64 `protobuf:"fixed64,23,opt,name=f23,oneof"`
}

type AllOneof_F24 struct {
	F24 string `protobuf:"bytes,24,opt,name=f24,oneof"`
}

func (*AllOneof_F23) isAllOneof_O11() {}

func (*AllOneof_F24) isAllOneof_O11() {}

type isAllOneof_O12 interface {
	isAllOneof_O12()
}

type AllOneof_F25 struct {
	F25 bool `protobuf:"varint,25,opt,name=f25,oneof"`
}

type AllOneof_F26 struct {
	F26 string `protobuf:"bytes,26,opt,name=f26,oneof"`
}

func (*AllOneof_F25) isAllOneof_O12() {}

func (*AllOneof_F26) isAllOneof_O12() {}

type isAllOneof_O13 interface {
	isAllOneof_O13()
}

type AllOneof_F27 struct {
	F27 E `protobuf:"varint,27,opt,name=f27,enum=fxpb.E,oneof"`
}

type AllOneof_F28 struct {
	F28 string `protobuf:"bytes,28,opt,name=f28,oneof"`
}

func (*AllOneof_F27) isAllOneof_O13() {}

func (*AllOneof_F28) isAllOneof_O13() {}

type isAllOneof_O14 interface {
	isAllOneof_O14()
}

type AllOneof_F29 struct {
	F29 string `protobuf:"bytes,29,opt,name=f29,oneof"`
}

type AllOneof_F30 struct {
	F30 string `protobuf:"bytes,30,opt,name=f30,oneof"`
}

func (*AllOneof_F29) isAllOneof_O14() {}

func (*AllOneof_F30) isAllOneof_O14() {}

type isAllOneof_O15 interface {
	isAllOneof_O15()
}

type AllOneof_F31 struct {
	F31 []byte `protobuf:"bytes,31,opt,name=f31,oneof"`
}

type AllOneof_F32 struct {
	F32 string `protobuf:"bytes,32,opt,name=f32,oneof"`
}

func (*AllOneof_F31) isAllOneof_O15() {}

func (*AllOneof_F32) isAllOneof_O15() {}

type Maps0 struct {
	state         protoimpl.MessageState `protogen:"open.v1"`
	F1            map[int32]int32        `protobuf:"bytes,1,rep,name=f1" json:"f1,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	F2            map[int32]int64        `protobuf:"bytes,2,rep,name=f2" json:"f2,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	F3            map[int32]uint32       `protobuf:"bytes,3,rep,name=f3" json:"f3,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	F4            map[int32]uint64       `protobuf:"bytes,4,rep,name=f4" json:"f4,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	F5            map[int32]int32        `protobuf:"bytes,5,rep,name=f5" json:"f5,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"zigzag32,2,opt,name=value"`
	F6            map[int32]int64        `protobuf:"bytes,6,rep,name=f6" json:"f6,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"zigzag64,2,opt,name=value"`
	F7            map[int32]uint32       `protobuf:"bytes,7,rep,name=f7" json:"f7,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value"`
	F8            map[int32]uint64       `protobuf:"bytes,8,rep,name=f8" json:"f8,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value"`
	F9            map[int32]int32        `protobuf:"bytes,9,rep,name=f9" json:"f9,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value"`
	F10           map[int32]int64        `protobuf:"bytes,10,rep,name=f10" json:"f10,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value"`
	F11           map[int32]float32      `protobuf:"bytes,11,rep,name=f11" json:"f11,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value"`
	F12           map[int32]float64      `protobuf:"bytes,12,rep,name=f12" json:"f12,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value"`
	F13           map[int32]bool         `protobuf:"bytes,13,rep,name=f13" json:"f13,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	F14           map[int32]E            `protobuf:"bytes,14,rep,name=f14" json:"f14,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"varint,2,opt,name=value,enum=fxpb.E"`
	F15           map[int32]string       `protobuf:"bytes,15,rep,name=f15" json:"f15,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	F16           map[int32][]byte       `protobuf:"bytes,16,rep,name=f16" json:"f16,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	F17           map[int32]*Leaf        `protobuf:"bytes,17,rep,name=f17" json:"f17,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	unknownFields protoimpl.UnknownFields
	sizeCache     protoimpl.SizeCache
}

func (x *Maps0) Reset() {
	*x = Maps0{}
	mi := &file_fxpb_proto_msgTypes[191]
	ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
	ms.StoreMessageInfo(mi)
}

func (x *Maps0) String() string {
	return protoimpl.X.MessageStringOf(x)
}

func (*Maps0) ProtoMessage() {}

func (x *Maps0) ProtoReflect() protoreflect.Message {
	mi := &file_fxpb_proto_msgTypes[191]
	if x != nil {
		ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
		if ms.LoadMessageInfo() == nil {
			ms.StoreMessageInfo(mi)
		}
		return ms
	}
	return mi.MessageOf(x)
}

// Deprecated: Use Maps0.ProtoReflect.Descriptor instead.
func (*Maps0) Descriptor() ([]byte, []int) {
	return file_fxpb_proto_rawDescGZIP(), []int{191}
}

func (x *Maps0) GetF1() map[int32]int32 {
	if x != nil {
		return x.F1
	}
	return nil
}

func (x *Maps0) GetF2() map[int32]int64 {
	if x != nil {
		return x.F2
	}
	return nil
}

func (x *Maps0) GetF3() map[int32]uint32 {
	if x != nil {
		return x.F3
	}
	return nil
}

func (x *Maps0) GetF4() map[int32]uint64 {
	if x != nil {
		return x.F4
	}
	return nil
}

func (x *Maps0) GetF5() map[int32]int32 {
	if x != nil {
		return x.F5
	}
	return nil
}

func (x *Maps0) GetF6() map[int32]int64 {
	if x != nil {
		return x.F6
	}
	return nil
}

func (x *Maps0) GetF7() map[int32]uint32 {
	if x != nil {
		return x.F7
	}
	return nil
}

func (x *Maps0) GetF8() map[int32]uint64 {
	if x != nil {
		return x.F8
	}
	return nil
}

func (x *Maps0) GetF9() map[int32]int32 {
	if x != nil {
		return x.F9
	}
	return nil
}

func (x *Maps0) GetF10() map[int32]int64 {
	if x != nil {
		return x.F10
	}
	return nil
}

func (x *Maps0) GetF11() map[int32]float32 {
	if x != nil {
		return x.F11
	}
	return nil
}

func (x *Maps0) GetF12() map[int32]float64 {
	if x != nil {
		return x.F12
	}
	return nil
}

func (x *Maps0) GetF13() map[int32]bool {
	if x != nil {
		return x.F13
	}
	return nil
}

func (x *Maps0) GetF14() map[int32]E {
	if x != nil {
		return x.F14
	}
	return nil
}

func (x *Maps0) GetF15() map[int32]string {
	if x != nil {
		return x.F15
	}
	return nil
}

func (x *Maps0) GetF16() map[int32][]byte {
	if x != nil {
		return x.F16
	}
	return nil
}

func (x *Maps0) GetF17() map[int32]*Leaf {
	if x != nil {
		return x.F17
	}
	return nil
}

type Leaf struct {
	state         protoimpl.MessageState `protogen:"open.v1"`
	F1            int32                  `protobuf:"varint,1,opt,name=f1" json:"f1,omitempty"`
	F2            []string               `protobuf:"bytes,2,rep,name=f2" json:"f2,omitempty"`
	unknownFields protoimpl.UnknownFields
	sizeCache     protoimpl.SizeCache
}

func (x *Leaf) Reset() {
	*x = Leaf{}
	mi := &file_fxpb_proto_msgTypes[192]
	ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
	ms.StoreMessageInfo(mi)
}

func (x *Leaf) String() string {
	return protoimpl.X.MessageStringOf(x)
}

func (*Leaf) ProtoMessage() {}

func (x *Leaf) ProtoReflect() protoreflect.Message {
	mi := &file_fxpb_proto_msgTypes[192]
	if x != nil {
		ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
		if ms.LoadMessageInfo() == nil {
			ms.StoreMessageInfo(mi)
		}
		return ms
	}
	return mi.MessageOf(x)
}

// Deprecated: Use Leaf.ProtoReflect.Descriptor instead.
func (*Leaf) Descriptor() ([]byte, []int) {
	return file_fxpb_proto_rawDescGZIP(), []int{192}
}

func (x *Leaf) GetF1() int32 {
	if x != nil {
		return x.F1
	}
	return 0
}

func (x *Leaf) GetF2() []string {
	if x != nil {
		return x.F2
	}
	return nil
}

type Maps1 struct {
	state         protoimpl.MessageState `protogen:"open.v1"`
	F1            map[int64]int32        `protobuf:"bytes,1,rep,name=f1" json:"f1,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	F2            map[int64]int64        `protobuf:"bytes,2,rep,name=f2" json:"f2,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	F3            map[int64]uint32       `protobuf:"bytes,3,rep,name=f3" json:"f3,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	F4            map[int64]uint64       `protobuf:"bytes,4,rep,name=f4" json:"f4,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	F5            map[int64]int32        `protobuf:"bytes,5,rep,name=f5" json:"f5,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"zigzag32,2,opt,name=value"`
	F6            map[int64]int64        `protobuf:"bytes,6,rep,name=f6" json:"f6,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"zigzag64,2,opt,name=value"`
	F7            map[int64]uint32       `protobuf:"bytes,7,rep,name=f7" json:"f7,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value"`
	F8            map[int64]uint64       `protobuf:"bytes,8,rep,name=f8" json:"f8,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value"`
	F9            map[int64]int32        `protobuf:"bytes,9,rep,name=f9" json:"f9,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value"`
	F10           map[int64]int64        `protobuf:"bytes,10,rep,name=f10" json:"f10,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value"`
	F11           map[int64]float32      `protobuf:"bytes,11,rep,name=f11" json:"f11,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value"`
	F12           map[int64]float64      `protobuf:"bytes,12,rep,name=f12" json:"f12,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value"`
	F13           map[int64]bool         `protobuf:"bytes,13,rep,name=f13" json:"f13,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	F14           map[int64]E            `protobuf:"bytes,14,rep,name=f14" json:"f14,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"varint,2,opt,name=value,enum=fxpb.E"`
	F15           map[int64]string       `protobuf:"bytes,15,rep,name=f15" json:"f15,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	F16           map[int64][]byte       `protobuf:"bytes,16,rep,name=f16" json:"f16,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	F17           map[int64]*Leaf        `protobuf:"bytes,17,rep,name=f17" json:"f17,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	unknownFields protoimpl.UnknownFields
	sizeCache     protoimpl.SizeCache
}

func (x *Maps1) Reset() {
	*x = Maps1{}
	mi := &file_fxpb_proto_msgTypes[193]
	ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
	ms.StoreMessageInfo(mi)
}

func (x *Maps1) String() string {
	return protoimpl.X.MessageStringOf(x)
}

func (*Maps1) ProtoMessage() {}

func (x *Maps1) ProtoReflect() protoreflect.Message {
	mi := &file_fxpb_proto_msgTypes[193]
	if x != nil {
		ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
		if ms.LoadMessageInfo() == nil {
			ms.StoreMessageInfo(mi)
		}
		return ms
	}
	return mi.MessageOf(x)
}

// Deprecated: Use Maps1.ProtoReflect.Descriptor instead.
func (*Maps1) Descriptor() ([]byte, []int) {
	return file_fxpb_proto_rawDescGZIP(), []int{193}
}

func (x *Maps1) GetF1() map[int64]int32 {
	if x != nil {
		return x.F1
	}
	return nil
}

func (x *Maps1) GetF2() map[int64]int64 {
	if x != nil {
		return x.F2
	}
	return nil
}

func (x *Maps1) GetF3() map[int64]uint32 {
	if x != nil {
		return x.F3
	}
	return nil
}

func (x *Maps1) GetF4() map[int64]uint64 {
	if x != nil {
		return x.F4
	}
	return nil
}

func (x *Maps1) GetF5() map[int64]int32 {
	if x != nil {
		return x.F5
	}
	return nil
}

func (x *Maps1) GetF6() map[int64]int64 {
	if x != nil {
		return x.F6
	}
	return nil
}

func (x *Maps1) GetF7() map[int64]uint32 {
	if x != nil {
		return x.F7
	}
	return nil
}

func (x *Maps1) GetF8() map[int64]uint64 {
	if x != nil {
		return x.F8
	}
	return nil
}

func (x *Maps1) GetF9() map[int64]int32 {
	if x != nil {
		return x.F9
	}
	return nil
}

func (x *Maps1) GetF10() map[int64]int64 {
	if x != nil {
		return x.F10
	}
	return nil
}

func (x *Maps1) GetF11() map[int64]float32 {
	if x != nil {
		return x.F11
	}
	return nil
}

func (x *Maps1) GetF12() map[int64]float64 {
	if x != nil {
		return x.F12
	}
	return nil
}

func (x *Maps1) GetF13() map[int64]bool {
	if x != nil {
		return x.F13
	}
	return nil
}

func (x *Maps1) GetF14() map[int64]E {
	if x != nil {
		return x.F14
	}
	return nil
}

func (x *Maps1) GetF15() map[int64]string {
	if x != nil {
		return x.F15
	}
	return nil
}

func (x *Maps1) GetF16() map[int64][]byte {
	if x != nil {
		return x.F16
	}
	return nil
}

func (x *Maps1) GetF17() map[int64]*Leaf {
	if x != nil {
		return x.F17
	}
	return nil
}

type Maps2 struct {
	state         protoimpl.MessageState `protogen:"open.v1"`
	F1            map[uint32]int32       `protobuf:"bytes,1,rep,name=f1" json:"f1,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	F2            map[uint32]int64       `protobuf:"bytes,2,rep,name=f2" json:"f2,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	F3            map[uint32]uint32      `protobuf:"bytes,3,rep,name=f3" json:"f3,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	F4            map[uint32]uint64      `protobuf:"bytes,4,rep,name=f4" json:"f4,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	F5            map[uint32]int32       `protobuf:"bytes,5,rep,name=f5" json:"f5,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"zigzag32,2,opt,name=value"`
	F6            map[uint32]int64       `protobuf:"bytes,6,rep,name=f6" json:"f6,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"zigzag64,2,opt,name=value"`
	F7            map[uint32]uint32      `protobuf:"bytes,7,rep,name=f7" json:"f7,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value"`
	F8            map[uint32]uint64      `protobuf:"bytes,8,rep,name=f8" json:"f8,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value"`
	F9            map[uint32]int32       `protobuf:"bytes,9,rep,name=f9" json:"f9,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value"`
	F10           map[uint32]int64       `protobuf:"bytes,10,rep,name=f10" json:"f10,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value"`
	F11           map[uint32]float32     `protobuf:"bytes,11,rep,name=f11" json:"f11,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value"`
	F12           map[uint32]float64     `protobuf:"bytes,12,rep,name=f12" json:"f12,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value"`
	F13           map[uint32]bool        `protobuf:"bytes,13,rep,name=f13" json:"f13,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	F14           map[uint32]E           `protobuf:"bytes,14,rep,name=f14" json:"f14,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"varint,2,opt,name=value,enum=fxpb.E"`
	F15           map[uint32]string      `protobuf:"bytes,15,rep,name=f15" json:"f15,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	F16           map[uint32][]byte      `protobuf:"bytes,16,rep,name=f16" json:"f16,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	F17           map[uint32]*Leaf       `protobuf:"bytes,17,rep,name=f17" json:"f17,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	unknownFields protoimpl.UnknownFields
	sizeCache     protoimpl.SizeCache
}

func (x *Maps2) Reset() {
	*x = Maps2{}
	mi := &file_fxpb_proto_msgTypes[194]
	ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
	ms.StoreMessageInfo(mi)
}

func (x *Maps2) String() string {
	return protoimpl.X.MessageStringOf(x)
}

func (*Maps2) ProtoMessage() {}

func (x *Maps2) ProtoReflect() protoreflect.Message {
	mi := &file_fxpb_proto_msgTypes[194]
	if x != nil {
		ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
		if ms.LoadMessageInfo() == nil {
			ms.StoreMessageInfo(mi)
		}
		return ms
	}
	return mi.MessageOf(x)
}

// Deprecated: Use Maps2.ProtoReflect.Descriptor instead.
func (*Maps2) Descriptor() ([]byte, []int) {
	return file_fxpb_proto_rawDescGZIP(), []int{194}
}

func (x *Maps2) GetF1() map[uint32]int32 {
	if x != nil {
		return x.F1
	}
	return nil
}

func (x *Maps2) GetF2() map[uint32]int64 {
	if x != nil {
		return x.F2
	}
	return nil
}

func (x *Maps2) GetF3() map[uint32]uint32 {
	if x != nil {
		return x.F3
	}
	return nil
}

func (x *Maps2) GetF4() map[uint32]uint64 {
	if x != nil {
		return x.F4
	}
	return nil
}

func (x *Maps2) GetF5() map[uint32]int32 {
	if x != nil {
		return x.F5
	}
	return nil
}

func (x *Maps2) GetF6() map[uint32]int64 {
	if x != nil {
		return x.F6
	}
	return nil
}

func (x *Maps2) GetF7() map[uint32]uint32 {
	if x != nil {
		return x.F7
	}
	return nil
}

func (x *Maps2) GetF8() map[uint32]uint64 {
	if x != nil {
		return x.F8
	}
	return nil
}

func (x *Maps2) GetF9() map[uint32]int32 {
	if x != nil {
		return x.F9
	}
	return nil
}

func (x *Maps2) GetF10() map[uint32]int64 {
	if x != nil {
		return x.F10
	}
	return nil
}

func (x *Maps2) GetF11() map[uint32]float32 {
	if x != nil {
		return x.F11
	}
	return nil
}

func (x *Maps2) GetF12() map[uint32]float64 {
	if x != nil {
		return x.F12
	}
	return nil
}

func (x *Maps2) GetF13() map[uint32]bool {
	if x != nil {
		return x.F13
	}
	return nil
}

func (x *Maps2) GetF14() map[uint32]E {
	if x != nil {
		return x.F14
	}
	return nil
}

func (x *Maps2) GetF15() map[uint32]string {
	if x != nil {
		return x.F15
	}
	return nil
}

func (x *Maps2) GetF16() map[uint32][]byte {
	if x != nil {
		return x.F16
	}
	return nil
}

func (x *Maps2) GetF17() map[uint32]*Leaf {
	if x != nil {
		return x.F17
	}
	return nil
}

type Maps3 struct {
	state         protoimpl.MessageState `protogen:"open.v1"`
	F1            map[uint64]int32       `protobuf:"bytes,1,rep,name=f1" json:"f1,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	F2            map[uint64]int64       `protobuf:"bytes,2,rep,name=f2" json:"f2,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	F3            map[uint64]uint32      `protobuf:"bytes,3,rep,name=f3" json:"f3,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	F4            map[uint64]uint64      `protobuf:"bytes,4,rep,name=f4" json:"f4,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	F5            map[uint64]int32       `protobuf:"bytes,5,rep,name=f5" json:"f5,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"zigzag32,2,opt,name=value"`
	F6            map[uint64]int64       `protobuf:"bytes,6,rep,name=f6" json:"f6,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"zigzag64,2,opt,name=value"`
	F7            map[uint64]uint32      `protobuf:"bytes,7,rep,name=f7" json:"f7,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value"`
	F8            map[uint64]uint64      `protobuf:"bytes,8,rep,name=f8" json:"f8,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value"`
	F9            map[uint64]int32       `protobuf:"bytes,9,rep,name=f9" json:"f9,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value"`
	F10           map[uint64]int64       `protobuf:"bytes,10,rep,name=f10" json:"f10,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value"`
	F11           map[uint64]float32     `protobuf:"bytes,11,rep,name=f11" json:"f11,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value"`
	F12           map[uint64]float64     `protobuf:"bytes,12,rep,name=f12" json:"f12,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value"`
	F13           map[uint64]bool        `protobuf:"bytes,13,rep,name=f13" json:"f13,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	F14           map[uint64]E           `protobuf:"bytes,14,rep,name=f14" json:"f14,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"varint,2,opt,name=value,enum=fxpb.E"`
	F15           map[uint64]string      `protobuf:"bytes,15,rep,name=f15" json:"f15,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	F16           map[uint64][]byte      `protobuf:"bytes,16,rep,name=f16" json:"f16,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	F17           map[uint64]*Leaf       `protobuf:"bytes,17,rep,name=f17" json:"f17,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	unknownFields protoimpl.UnknownFields
	sizeCache     protoimpl.SizeCache
}

func (x *Maps3) Reset() {
	*x = Maps3{}
	mi := &file_fxpb_proto_msgTypes[195]
	ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
	ms.StoreMessageInfo(mi)
}

func (x *Maps3) String() string {
	return protoimpl.X.MessageStringOf(x)
}

func (*Maps3) ProtoMessage() {}

func (x *Maps3) ProtoReflect() protoreflect.Message {
	mi := &file_fxpb_proto_msgTypes[195]
	if x != nil {
		ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
		if ms.LoadMessageInfo() == nil {
			ms.StoreMessageInfo(mi)
		}
		return ms
	}
	return mi.MessageOf(x)
}

// Deprecated: Use Maps3.ProtoReflect.Descriptor instead.
func (*Maps3) Descriptor() ([]byte, []int) {
	return file_fxpb_proto_rawDescGZIP(), []int{195}
}

func (x *Maps3) GetF1() map[uint64]int32 {
	if x != nil {
		return x.F1
	}
	return nil
}

func (x *Maps3) GetF2() map[uint64]int64 {
	if x != nil {
		return x.F2
	}
	return nil
}

func (x *Maps3) GetF3() map[uint64]uint32 {
	if x != nil {
		return x.F3
	}
	return nil
}

func (x *Maps3) GetF4() map[uint64]uint64 {
	if x != nil {
		return x.F4
	}
	return nil
}

func (x *Maps3) GetF5() map[uint64]int32 {
	if x != nil {
		return x.F5
	}
	return nil
}

func (x *Maps3) GetF6() map[uint64]int64 {
	if x != nil {
		return x.F6
	}
	return nil
}

func (x *Maps3) GetF7() map[uint64]uint32 {
	if x != nil {
		return x.F7
	}
	return nil
}

func (x *Maps3) GetF8() map[uint64]uint64 {
	if x != nil {
		return x.F8
	}
	return nil
}

func (x *Maps3) GetF9() map[uint64]int32 {
	if x != nil {
		return x.F9
	}
	return nil
}

func (x *Maps3) GetF10() map[uint64]int64 {
	if x != nil {
		return x.F10
	}
	return nil
}

func (x *Maps3) GetF11() map[uint64]float32 {
	if x != nil {
		return x.F11
	}
	return nil
}

func (x *Maps3) GetF12() map[uint64]float64 {
	if x != nil {
		return x.F12
	}
	return nil
}

func (x *Maps3) GetF13() map[uint64]bool {
	if x != nil {
		return x.F13
	}
	return nil
}

func (x *Maps3) GetF14() map[uint64]E {
	if x != nil {
		return x.F14
	}
	return nil
}

func (x *Maps3) GetF15() map[uint64]string {
	if x != nil {
		return x.F15
	}
	return nil
}

func (x *Maps3) GetF16() map[uint64][]byte {
	if x != nil {
		return x.F16
	}
	return nil
}

func (x *Maps3) GetF17() map[uint64]*Leaf {
	if x != nil {
		return x.F17
	}
	return nil
}

type Maps4 struct {
	state         protoimpl.MessageState `protogen:"open.v1"`
	F1            map[int32]int32        `protobuf:"bytes,1,rep,name=f1" json:"f1,omitempty" protobuf_key:"zigzag32,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	F2            map[int32]int64        `protobuf:"bytes,2,rep,name=f2" json:"f2,omitempty" protobuf_key:"zigzag32,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	F3            map[int32]uint32       `protobuf:"bytes,3,rep,name=f3" json:"f3,omitempty" protobuf_key:"zigzag32,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	F4            map[int32]uint64       `protobuf:"bytes,4,rep,name=f4" json:"f4,omitempty" protobuf_key:"zigzag32,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	F5            map[int32]int32        `protobuf:"bytes,5,rep,name=f5" json:"f5,omitempty" protobuf_key:"zigzag32,1,opt,name=key" protobuf_val:"zigzag32,2,opt,name=value"`
	F6            map[int32]int64        `protobuf:"bytes,6,rep,name=f6" json:"f6,omitempty" protobuf_key:"zigzag32,1,opt,name=key" protobuf_val:"zigzag64,2,opt,name=value"`
	F7            map[int32]uint32       `protobuf:"bytes,7,rep,name=f7" json:"f7,omitempty" protobuf_key:"zigzag32,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value"`
	F8            map[int32]uint64       `protobuf:"bytes,8,rep,name=f8" json:"f8,omitempty" protobuf_key:"zigzag32,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value"`
	F9            map[int32]int32        `protobuf:"bytes,9,rep,name=f9" json:"f9,omitempty" protobuf_key:"zigzag32,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value"`
	F10           map[int32]int64        `protobuf:"bytes,10,rep,name=f10" json:"f10,omitempty" protobuf_key:"zigzag32,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value"`
	F11           map[int32]float32      `protobuf:"bytes,11,rep,name=f11" json:"f11,omitempty" protobuf_key:"zigzag32,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value"`
	F12           map[int32]float64      `protobuf:"bytes,12,rep,name=f12" json:"f12,omitempty" protobuf_key:"zigzag32,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value"`
	F13           map[int32]bool         `protobuf:"bytes,13,rep,name=f13" json:"f13,omitempty" protobuf_key:"zigzag32,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	F14           map[int32]E            `protobuf:"bytes,14,rep,name=f14" json:"f14,omitempty" protobuf_key:"zigzag32,1,opt,name=key" protobuf_val:"varint,2,opt,name=value,enum=fxpb.E"`
	F15           map[int32]string       `protobuf:"bytes,15,rep,name=f15" json:"f15,omitempty" protobuf_key:"zigzag32,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	F16           map[int32][]byte       `protobuf:"bytes,16,rep,name=f16" json:"f16,omitempty" protobuf_key:"zigzag32,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	F17           map[int32]*Leaf        `protobuf:"bytes,17,rep,name=f17" json:"f17,omitempty" protobuf_key:"zigzag32,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	unknownFields protoimpl.UnknownFields
	sizeCache     protoimpl.SizeCache
}

func (x *Maps4) Reset() {
	*x = Maps4{}
	mi := &file_fxpb_proto_msgTypes[196]
	ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
	ms.StoreMessageInfo(mi)
}

func (x *Maps4) String() string {
	return protoimpl.X.MessageStringOf(x)
}

func (*Maps4) ProtoMessage() {}

func (x *Maps4) ProtoReflect() protoreflect.Message {
	mi := &file_fxpb_proto_msgTypes[196]
	if x != nil {
		ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
		if ms.LoadMessageInfo() == nil {
			ms.StoreMessageInfo(mi)
		}
		return ms
	}
	return mi.MessageOf(x)
}

// Deprecated: Use Maps4.ProtoReflect.Descriptor instead.
func (*Maps4) Descriptor() ([]byte, []int) {
	return file_fxpb_proto_rawDescGZIP(), []int{196}
}

func (x *Maps4) GetF1() map[int32]int32 {
	if x != nil {
		return x.F1
	}
	return nil
}

func (x *Maps4) GetF2() map[int32]int64 {
	if x != nil {
		return x.F2
	}
	return nil
}

func (x *Maps4) GetF3() map[int32]uint32 {
	if x != nil {
		return x.F3
	}
	return nil
}

func (x *Maps4) GetF4() map[int32]uint64 {
	if x != nil {
		return x.F4
	}
	return nil
}

func (x *Maps4) GetF5() map[int32]int32 {
	if x != nil {
		return x.F5
	}
	return nil
}

func (x *Maps4) GetF6() map[int32]int64 {
	if x != nil {
		return x.F6
	}
	return nil
}

func (x *Maps4) GetF7() map[int32]uint32 {
	if x != nil {
		return x.F7
	}
	return nil
}

func (x *Maps4) GetF8() map[int32]uint64 {
	if x != nil {
		return x.F8
	}
	return nil
}

func (x *Maps4) GetF9() map[int32]int32 {
	if x != nil {
		return x.F9
	}
	return nil
}

func (x *Maps4) GetF10() map[int32]int64 {
	if x != nil {
		return x.F10
	}
	return nil
}

func (x *Maps4) GetF11() map[int32]float32 {
	if x != nil {
		return x.F11
	}
	return nil
}

func (x *Maps4) GetF12() map[int32]float64 {
	if x != nil {
		return x.F12
	}
	return nil
}

func (x *Maps4) GetF13() map[int32]bool {
	if x != nil {
		return x.F13
	}
	return nil
}

func (x *Maps4) GetF14() map[int32]E {
	if x != nil {
		return x.F14
	}
	return nil
}

func (x *Maps4) GetF15() map[int32]string {
	if x != nil {
		return x.F15
	}
	return nil
}

func (x *Maps4) GetF16() map[int32][]byte {
	if x != nil {
		return x.F16
	}
	return nil
}

func (x *Maps4) GetF17() map[int32]*Leaf {
	if x != nil {
		return x.F17
	}
	return nil
}

type Maps5 struct {
	state         protoimpl.MessageState `protogen:"open.v1"`
	F1            map[int64]int32        `protobuf:"bytes,1,rep,name=f1" json:"f1,omitempty" protobuf_key:"zigzag64,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	F2            map[int64]int64        `protobuf:"bytes,2,rep,name=f2" json:"f2,omitempty" protobuf_key:"zigzag64,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	F3            map[int64]uint32       `protobuf:"bytes,3,rep,name=f3" json:"f3,omitempty" protobuf_key:"zigzag64,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	F4            map[int64]uint64       `protobuf:"bytes,4,rep,name=f4" json:"f4,omitempty" protobuf_key:"zigzag64,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	F5            map[int64]int32        `protobuf:"bytes,5,rep,name=f5" json:"f5,omitempty" protobuf_key:"zigzag64,1,opt,name=key" protobuf_val:"zigzag32,2,opt,name=value"`
	F6            map[int64]int64        `protobuf:"bytes,6,rep,name=f6" json:"f6,omitempty" protobuf_key:"zigzag64,1,opt,name=key" protobuf_val:"zigzag64,2,opt,name=value"`
	F7            map[int64]uint32       `protobuf:"bytes,7,rep,name=f7" json:"f7,omitempty" protobuf_key:"zigzag64,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value"`
	F8            map[int64]uint64       `protobuf:"bytes,8,rep,name=f8" json:"f8,omitempty" protobuf_key:"zigzag64,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value"`
	F9            map[int64]int32        `protobuf:"bytes,9,rep,name=f9" json:"f9,omitempty" protobuf_key:"zigzag64,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value"`
	F10           map[int64]int64        `protobuf:"bytes,10,rep,name=f10" json:"f10,omitempty" protobuf_key:"zigzag64,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value"`
	F11           map[int64]float32      `protobuf:"bytes,11,rep,name=f11" json:"f11,omitempty" protobuf_key:"zigzag64,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value"`
	F12           map[int64]float64      `protobuf:"bytes,12,rep,name=f12" json:"f12,omitempty" protobuf_key:"zigzag64,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value"`
	F13           map[int64]bool         `protobuf:"bytes,13,rep,name=f13" json:"f13,omitempty" protobuf_key:"zigzag64,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	F14           map[int64]E            `protobuf:"bytes,14,rep,name=f14" json:"f14,omitempty" protobuf_key:"zigzag64,1,opt,name=key" protobuf_val:"varint,2,opt,name=value,enum=fxpb.E"`
	F15           map[int64]string       `protobuf:"bytes,15,rep,name=f15" json:"f15,omitempty" protobuf_key:"zigzag64,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	F16           map[int64][]byte       `protobuf:"bytes,16,rep,name=f16" json:"f16,omitempty" protobuf_key:"zigzag64,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	F17           map[int64]*Leaf        `protobuf:"bytes,17,rep,name=f17" json:"f17,omitempty" protobuf_key:"zigzag64,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	unknownFields protoimpl.UnknownFields
	sizeCache     protoimpl.SizeCache
}

func (x *Maps5) Reset() {
	*x = Maps5{}
	mi := &file_fxpb_proto_msgTypes[197]
	ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
	ms.StoreMessageInfo(mi)
}

func (x *Maps5) String() string {
	return protoimpl.X.MessageStringOf(x)
}

func (*Maps5) ProtoMessage() {}

func (x *Maps5) ProtoReflect() protoreflect.Message {
	mi := &file_fxpb_proto_msgTypes[197]
	if x != nil {
		ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
		if ms.LoadMessageInfo() == nil {
			ms.StoreMessageInfo(mi)
		}
		return ms
	}
	return mi.MessageOf(x)
}

// Deprecated: Use Maps5.ProtoReflect.Descriptor instead.
func (*Maps5) Descriptor() ([]byte, []int) {
	return file_fxpb_proto_rawDescGZIP(), []int{197}
}

func (x *Maps5) GetF1() map[int64]int32 {
	if x != nil {
		return x.F1
	}
	return nil
}

func (x *Maps5) GetF2() map[int64]int64 {
	if x != nil {
		return x.F2
	}
	return nil
}

func (x *Maps5) GetF3() map[int64]uint32 {
	if x != nil {
		return x.F3
	}
	return nil
}

func (x *Maps5) GetF4() map[int64]uint64 {
	if x != nil {
		return x.F4
	}
	return nil
}

func (x *Maps5) GetF5() map[int64]int32 {
	if x != nil {
		return x.F5
	}
	return nil
}

func (x *Maps5) GetF6() map[int64]int64 {
	if x != nil {
		return x.F6
	}
	return nil
}

func (x *Maps5) GetF7() map[int64]uint32 {
	if x != nil {
		return x.F7
	}
	return nil
}

func (x *Maps5) GetF8() map[int64]uint64 {
	if x != nil {
		return x.F8
	}
	return nil
}

func (x *Maps5) GetF9() map[int64]int32 {
	if x != nil {
		return x.F9
	}
	return nil
}

func (x *Maps5) GetF10() map[int64]int64 {
	if x != nil {
		return x.F10
	}
	return nil
}

func (x *Maps5) GetF11() map[int64]float32 {
	if x != nil {
		return x.F11
	}
	return nil
}

func (x *Maps5) GetF12() map[int64]float64 {
	if x != nil {
		return x.F12
	}
	return nil
}

func (x *Maps5) GetF13() map[int64]bool {
	if x != nil {
		return x.F13
	}
	return nil
}

func (x *Maps5) GetF14() map[int64]E {
	if x != nil {
		return x.F14
	}
	return nil
}

func (x *Maps5) GetF15() map[int64]string {
	if x != nil {
		return x.F15
	}
	return nil
}

func (x *Maps5) GetF16() map[int64][]byte {
	if x != nil {
		return x.F16
	}
	return nil
}

func (x *Maps5) GetF17() map[int64]*Leaf {
	if x != nil {
		return x.F17
	}
	return nil
}

type Maps6 struct {
	state         protoimpl.MessageState `protogen:"open.v1"`
	F1            map[uint32]int32       `protobuf:"bytes,1,rep,name=f1" json:"f1,omitempty" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	F2            map[uint32]int64       `protobuf:"bytes,2,rep,name=f2" json:"f2,omitempty" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	F3            map[uint32]uint32      `protobuf:"bytes,3,rep,name=f3" json:"f3,omitempty" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	F4            map[uint32]uint64      `protobuf:"bytes,4,rep,name=f4" json:"f4,omitempty" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	F5            map[uint32]int32       `protobuf:"bytes,5,rep,name=f5" json:"f5,omitempty" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"zigzag32,2,opt,name=value"`
	F6            map[uint32]int64       `protobuf:"bytes,6,rep,name=f6" json:"f6,omitempty" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"zigzag64,2,opt,name=value"`
	F7            map[uint32]uint32      `protobuf:"bytes,7,rep,name=f7" json:"f7,omitempty" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value"`
	F8            map[uint32]uint64      `protobuf:"bytes,8,rep,name=f8" json:"f8,omitempty" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value"`
	F9            map[uint32]int32       `protobuf:"bytes,9,rep,name=f9" json:"f9,omitempty" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value"`
	F10           map[uint32]int64       `protobuf:"bytes,10,rep,name=f10" json:"f10,omitempty" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value"`
	F11           map[uint32]float32     `protobuf:"bytes,11,rep,name=f11" json:"f11,omitempty" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value"`
	F12           map[uint32]float64     `protobuf:"bytes,12,rep,name=f12" json:"f12,omitempty" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value"`
	F13           map[uint32]bool        `protobuf:"bytes,13,rep,name=f13" json:"f13,omitempty" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	F14           map[uint32]E           `protobuf:"bytes,14,rep,name=f14" json:"f14,omitempty" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"varint,2,opt,name=value,enum=fxpb.E"`
	F15           map[uint32]string      `protobuf:"bytes,15,rep,name=f15" json:"f15,omitempty" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	F16           map[uint32][]byte      `protobuf:"bytes,16,rep,name=f16" json:"f16,omitempty" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	F17           map[uint32]*Leaf       `protobuf:"bytes,17,rep,name=f17" json:"f17,omitempty" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	unknownFields protoimpl.UnknownFields
	sizeCache     protoimpl.SizeCache
}

func (x *Maps6) Reset() {
	*x = Maps6{}
	mi := &file_fxpb_proto_msgTypes[198]
	ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
	ms.StoreMessageInfo(mi)
}

func (x *Maps6) String() string {
	return protoimpl.X.MessageStringOf(x)
}

func (*Maps6) ProtoMessage() {}

func (x *Maps6) ProtoReflect() protoreflect.Message {
	mi := &file_fxpb_proto_msgTypes[198]
	if x != nil {
		ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
		if ms.LoadMessageInfo() == nil {
			ms.StoreMessageInfo(mi)
		}
		return ms
	}
	return mi.MessageOf(x)
}

// Deprecated: Use Maps6.ProtoReflect.Descriptor instead.
func (*Maps6) Descriptor() ([]byte, []int) {
	return file_fxpb_proto_rawDescGZIP(), []int{198}
}

func (x *Maps6) GetF1() map[uint32]int32 {
	if x != nil {
		return x.F1
	}
	return nil
}

func (x *Maps6) GetF2() map[uint32]int64 {
	if x != nil {
		return x.F2
	}
	return nil
}

func (x *Maps6) GetF3() map[uint32]uint32 {
	if x != nil {
		return x.F3
	}
	return nil
}

func (x *Maps6) GetF4() map[uint32]uint64 {
	if x != nil {
		return x.F4
	}
	return nil
}

func (x *Maps6) GetF5() map[uint32]int32 {
	if x != nil {
		return x.F5
	}
	return nil
}

func (x *Maps6) GetF6() map[uint32]int64 {
	if x != nil {
		return x.F6
	}
	return nil
}

func (x *Maps6) GetF7() map[uint32]uint32 {
	if x != nil {
		return x.F7
	}
	return nil
}

func (x *Maps6) GetF8() map[uint32]uint64 {
	if x != nil {
		return x.F8
	}
	return nil
}

func (x *Maps6) GetF9() map[uint32]int32 {
	if x != nil {
		return x.F9
	}
	return nil
}

func (x *Maps6) GetF10() map[uint32]int64 {
	if x != nil {
		return x.F10
	}
	return nil
}

func (x *Maps6) GetF11() map[uint32]float32 {
	if x != nil {
		return x.F11
	}
	return nil
}

func (x *Maps6) GetF12() map[uint32]float64 {
	if x != nil {
		return x.F12
	}
	return nil
}

func (x *Maps6) GetF13() map[uint32]bool {
	if x != nil {
		return x.F13
	}
	return nil
}

func (x *Maps6) GetF14() map[uint32]E {
	if x != nil {
		return x.F14
	}
	return nil
}

func (x *Maps6) GetF15() map[uint32]string {
	if x != nil {
		return x.F15
	}
	return nil
}

func (x *Maps6) GetF16() map[uint32][]byte {
	if x != nil {
		return x.F16
	}
	return nil
}

func (x *Maps6) GetF17() map[uint32]*Leaf {
	if x != nil {
		return x.F17
	}
	return nil
}

type Maps7 struct {
	state         protoimpl.MessageState `protogen:"open.v1"`
	F1            map[uint64]int32       `protobuf:"bytes,1,rep,name=f1" json:"f1,omitempty" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	F2            map[uint64]int64       `protobuf:"bytes,2,rep,name=f2" json:"f2,omitempty" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	F3            map[uint64]uint32      `protobuf:"bytes,3,rep,name=f3" json:"f3,omitempty" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	F4            map[uint64]uint64      `protobuf:"bytes,4,rep,name=f4" json:"f4,omitempty" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	F5            map[uint64]int32       `protobuf:"bytes,5,rep,name=f5" json:"f5,omitempty" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"zigzag32,2,opt,name=value"`
	F6            map[uint64]int64       `protobuf:"bytes,6,rep,name=f6" json:"f6,omitempty" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"zigzag64,2,opt,name=value"`
	F7            map[uint64]uint32      `protobuf:"bytes,7,rep,name=f7" json:"f7,omitempty" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value"`
	F8            map[uint64]uint64      `protobuf:"bytes,8,rep,name=f8" json:"f8,omitempty" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value"`
	F9            map[uint64]int32       `protobuf:"bytes,9,rep,name=f9" json:"f9,omitempty" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value"`
	F10           map[uint64]int64       `protobuf:"bytes,10,rep,name=f10" json:"f10,omitempty" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value"`
	F11           map[uint64]float32     `protobuf:"bytes,11,rep,name=f11" json:"f11,omitempty" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value"`
	F12           map[uint64]float64     `protobuf:"bytes,12,rep,name=f12" json:"f12,omitempty" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value"`
	F13           map[uint64]bool        `protobuf:"bytes,13,rep,name=f13" json:"f13,omitempty" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	F14           map[uint64]E           `protobuf:"bytes,14,rep,name=f14" json:"f14,omitempty" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"varint,2,opt,name=value,enum=fxpb.E"`
	F15           map[uint64]string      `protobuf:"bytes,15,rep,name=f15" json:"f15,omitempty" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	F16           map[uint64][]byte      `protobuf:"bytes,16,rep,name=f16" json:"f16,omitempty" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	F17           map[uint64]*Leaf       `protobuf:"bytes,17,rep,name=f17" json:"f17,omitempty" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	unknownFields protoimpl.UnknownFields
	sizeCache     protoimpl.SizeCache
}

func (x *Maps7) Reset() {
	*x = Maps7{}
	mi := &file_fxpb_proto_msgTypes[199]
	ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
	ms.StoreMessageInfo(mi)
}

func (x *Maps7) String() string {
	return protoimpl.X.MessageStringOf(x)
}

func (*Maps7) ProtoMessage() {}

func (x *Maps7) ProtoReflect() protoreflect.Message {
	mi := &file_fxpb_proto_msgTypes[199]
	if x != nil {
		ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
		if ms.LoadMessageInfo() == nil {
			ms.StoreMessageInfo(mi)
		}
		return ms
	}
	return mi.MessageOf(x)
}

// Deprecated: Use Maps7.ProtoReflect.Descriptor instead.
func (*Maps7) Descriptor() ([]byte, []int) {
	return file_fxpb_proto_rawDescGZIP(), []int{199}
}

func (x *Maps7) GetF1() map[uint64]int32 {
	if x != nil {
		return x.F1
	}
	return nil
}

func (x *Maps7) GetF2() map[uint64]int64 {
	if x != nil {
		return x.F2
	}
	return nil
}

func (x *Maps7) GetF3() map[uint64]uint32 {
	if x != nil {
		return x.F3
	}
	return nil
}

func (x *Maps7) GetF4() map[uint64]uint64 {
	if x != nil {
		return x.F4
	}
	return nil
}

func (x *Maps7) GetF5() map[uint64]int32 {
	if x != nil {
		return x.F5
	}
	return nil
}

func (x *Maps7) GetF6() map[uint64]int64 {
	if x != nil {
		return x.F6
	}
	return nil
}

func (x *Maps7) GetF7() map[uint64]uint32 {
	if x != nil {
		return x.F7
	}
	return nil
}

func (x *Maps7) GetF8() map[uint64]uint64 {
	if x != nil {
		return x.F8
	}
	return nil
}

func (x *Maps7) GetF9() map[uint64]int32 {
	if x != nil {
		return x.F9
	}
	return nil
}

func (x *Maps7) GetF10() map[uint64]int64 {
	if x != nil {
		return x.F10
	}
	return nil
}

func (x *Maps7) GetF11() map[uint64]float32 {
	if x != nil {
		return x.F11
	}
	return nil
}

func (x *Maps7) GetF12() map[uint64]float64 {
	if x != nil {
		return x.F12
	}
	return nil
}

func (x *Maps7) GetF13() map[uint64]bool {
	if x != nil {
		return x.F13
	}
	return nil
}

func (x *Maps7) GetF14() map[uint64]E {
	if x != nil {
		return x.F14
	}
	return nil
}

func (x *Maps7) GetF15() map[uint64]string {
	if x != nil {
		return x.F15
	}
	return nil
}

func (x *Maps7) GetF16() map[uint64][]byte {
	if x != nil {
		return x.F16
	}
	return nil
}

func (x *Maps7) GetF17() map[uint64]*Leaf {
	if x != nil {
		return x.F17
	}
	return nil
}

type Maps8 struct {
	state         protoimpl.MessageState `protogen:"open.v1"`
	F1            map[int32]int32        `protobuf:"bytes,1,rep,name=f1" json:"f1,omitempty" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	F2            map[int32]int64        `protobuf:"bytes,2,rep,name=f2" json:"f2,omitempty" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	F3            map[int32]uint32       `protobuf:"bytes,3,rep,name=f3" json:"f3,omitempty" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	F4            map[int32]uint64       `protobuf:"bytes,4,rep,name=f4" json:"f4,omitempty" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	F5            map[int32]int32        `protobuf:"bytes,5,rep,name=f5" json:"f5,omitempty" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"zigzag32,2,opt,name=value"`
	F6            map[int32]int64        `protobuf:"bytes,6,rep,name=f6" json:"f6,omitempty" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"zigzag64,2,opt,name=value"`
	F7            map[int32]uint32       `protobuf:"bytes,7,rep,name=f7" json:"f7,omitempty" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value"`
	F8            map[int32]uint64       `protobuf:"bytes,8,rep,name=f8" json:"f8,omitempty" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value"`
	F9            map[int32]int32        `protobuf:"bytes,9,rep,name=f9" json:"f9,omitempty" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value"`
	F10           map[int32]int64        `protobuf:"bytes,10,rep,name=f10" json:"f10,omitempty" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value"`
	F11           map[int32]float32      `protobuf:"bytes,11,rep,name=f11" json:"f11,omitempty" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value"`
	F12           map[int32]float64      `protobuf:"bytes,12,rep,name=f12" json:"f12,omitempty" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value"`
	F13           map[int32]bool         `protobuf:"bytes,13,rep,name=f13" json:"f13,omitempty" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	F14           map[int32]E            `protobuf:"bytes,14,rep,name=f14" json:"f14,omitempty" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"varint,2,opt,name=value,enum=fxpb.E"`
	F15           map[int32]string       `protobuf:"bytes,15,rep,name=f15" json:"f15,omitempty" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	F16           map[int32][]byte       `protobuf:"bytes,16,rep,name=f16" json:"f16,omitempty" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	F17           map[int32]*Leaf        `protobuf:"bytes,17,rep,name=f17" json:"f17,omitempty" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	unknownFields protoimpl.UnknownFields
	sizeCache     protoimpl.SizeCache
}

func (x *Maps8) Reset() {
	*x = Maps8{}
	mi := &file_fxpb_proto_msgTypes[200]
	ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
	ms.StoreMessageInfo(mi)
}

func (x *Maps8) String() string {
	return protoimpl.X.MessageStringOf(x)
}

func (*Maps8) ProtoMessage() {}

func (x *Maps8) ProtoReflect() protoreflect.Message {
	mi := &file_fxpb_proto_msgTypes[200]
	if x != nil {
		ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
		if ms.LoadMessageInfo() == nil {
			ms.StoreMessageInfo(mi)
		}
		return ms
	}
	return mi.MessageOf(x)
}

// Deprecated: Use Maps8.ProtoReflect.Descriptor instead.
func (*Maps8) Descriptor() ([]byte, []int) {
	return file_fxpb_proto_rawDescGZIP(), []int{200}
}

func (x *Maps8) GetF1() map[int32]int32 {
	if x != nil {
		return x.F1
	}
	return nil
}

func (x *Maps8) GetF2() map[int32]int64 {
	if x != nil {
		return x.F2
	}
	return nil
}

func (x *Maps8) GetF3() map[int32]uint32 {
	if x != nil {
		return x.F3
	}
	return nil
}

func (x *Maps8) GetF4() map[int32]uint64 {
	if x != nil {
		return x.F4
	}
	return nil
}

func (x *Maps8) GetF5() map[int32]int32 {
	if x != nil {
		return x.F5
	}
	return nil
}

func (x *Maps8) GetF6() map[int32]int64 {
	if x != nil {
		return x.F6
	}
	return nil
}

func (x *Maps8) GetF7() map[int32]uint32 {
	if x != nil {
		return x.F7
	}
	return nil
}

func (x *Maps8) GetF8() map[int32]uint64 {
	if x != nil {
		return x.F8
	}
	return nil
}

func (x *Maps8) GetF9() map[int32]int32 {
	if x != nil {
		return x.F9
	}
	return nil
}

func (x *Maps8) GetF10() map[int32]int64 {
	if x != nil {
		return x.F10
	}
	return nil
}

func (x *Maps8) GetF11() map[int32]float32 {
	if x != nil {
		return x.F11
	}
	return nil
}

func (x *Maps8) GetF12() map[int32]float64 {
	if x != nil {
		return x.F12
	}
	return nil
}

func (x *Maps8) GetF13() map[int32]bool {
	if x != nil {
		return x.F13
	}
	return nil
}

func (x *Maps8) GetF14() map[int32]E {
	if x != nil {
		return x.F14
	}
	return nil
}

func (x *Maps8) GetF15() map[int32]string {
	if x != nil {
		return x.F15
	}
	return nil
}

func (x *Maps8) GetF16() map[int32][]byte {
	if x != nil {
		return x.F16
	}
	return nil
}

func (x *Maps8) GetF17() map[int32]*Leaf {
	if x != nil {
		return x.F17
	}
	return nil
}

type Maps9 struct {
	state         protoimpl.MessageState `protogen:"open.v1"`
	F1            map[int64]int32        `protobuf:"bytes,1,rep,name=f1" json:"f1,omitempty" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	F2            map[int64]int64        `protobuf:"bytes,2,rep,name=f2" json:"f2,omitempty" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	F3            map[int64]uint32       `protobuf:"bytes,3,rep,name=f3" json:"f3,omitempty" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	F4            map[int64]uint64       `protobuf:"bytes,4,rep,name=f4" json:"f4,omitempty" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	F5            map[int64]int32        `protobuf:"bytes,5,rep,name=f5" json:"f5,omitempty" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"zigzag32,2,opt,name=value"`
	F6            map[int64]int64        `protobuf:"bytes,6,rep,name=f6" json:"f6,omitempty" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"zigzag64,2,opt,name=value"`
	F7            map[int64]uint32       `protobuf:"bytes,7,rep,name=f7" json:"f7,omitempty" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value"`
	F8            map[int64]uint64       `protobuf:"bytes,8,rep,name=f8" json:"f8,omitempty" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value"`
	F9            map[int64]int32        `protobuf:"bytes,9,rep,name=f9" json:"f9,omitempty" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value"`
	F10           map[int64]int64        `protobuf:"bytes,10,rep,name=f10" json:"f10,omitempty" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value"`
	F11           map[int64]float32      `protobuf:"bytes,11,rep,name=f11" json:"f11,omitempty" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value"`
	F12           map[int64]float64      `protobuf:"bytes,12,rep,name=f12" json:"f12,omitempty" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value"`
	F13           map[int64]bool         `protobuf:"bytes,13,rep,name=f13" json:"f13,omitempty" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	F14           map[int64]E            `protobuf:"bytes,14,rep,name=f14" json:"f14,omitempty" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"varint,2,opt,name=value,enum=fxpb.E"`
	F15           map[int64]string       `protobuf:"bytes,15,rep,name=f15" json:"f15,omitempty" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	F16           map[int64][]byte       `protobuf:"bytes,16,rep,name=f16" json:"f16,omitempty" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	F17           map[int64]*Leaf        `protobuf:"bytes,17,rep,name=f17" json:"f17,omitempty" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	unknownFields protoimpl.UnknownFields
	sizeCache     protoimpl.SizeCache
}

func (x *Maps9) Reset() {
	*x = Maps9{}
	mi := &file_fxpb_proto_msgTypes[201]
	ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
	ms.StoreMessageInfo(mi)
}

func (x *Maps9) String() string {
	return protoimpl.X.MessageStringOf(x)
}

func (*Maps9) ProtoMessage() {}

func (x *Maps9) ProtoReflect() protoreflect.Message {
	mi := &file_fxpb_proto_msgTypes[201]
	if x != nil {
		ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
		if ms.LoadMessageInfo() == nil {
			ms.StoreMessageInfo(mi)
		}
		return ms
	}
	return mi.MessageOf(x)
}

// Deprecated: Use Maps9.ProtoReflect.Descriptor instead.
func (*Maps9) Descriptor() ([]byte, []int) {
	return file_fxpb_proto_rawDescGZIP(), []int{201}
}

func (x *Maps9) GetF1() map[int64]int32 {
	if x != nil {
		return x.F1
	}
	return nil
}

func (x *Maps9) GetF2() map[int64]int64 {
	if x != nil {
		return x.F2
	}
	return nil
}

func (x *Maps9) GetF3() map[int64]uint32 {
	if x != nil {
		return x.F3
	}
	return nil
}

func (x *Maps9) GetF4() map[int64]uint64 {
	if x != nil {
		return x.F4
	}
	return nil
}

func (x *Maps9) GetF5() map[int64]int32 {
	if x != nil {
		return x.F5
	}
	return nil
}

func (x *Maps9) GetF6() map[int64]int64 {
	if x != nil {
		return x.F6
	}
	return nil
}

func (x *Maps9) GetF7() map[int64]uint32 {
	if x != nil {
		return x.F7
	}
	return nil
}

func (x *Maps9) GetF8() map[int64]uint64 {
	if x != nil {
		return x.F8
	}
	return nil
}

func (x *Maps9) GetF9() map[int64]int32 {
	if x != nil {
		return x.F9
	}
	return nil
}

func (x *Maps9) GetF10() map[int64]int64 {
	if x != nil {
		return x.F10
	}
	return nil
}

func (x *Maps9) GetF11() map[int64]float32 {
	if x != nil {
		return x.F11
	}
	return nil
}

func (x *Maps9) GetF12() map[int64]float64 {
	if x != nil {
		return x.F12
	}
	return nil
}

func (x *Maps9) GetF13() map[int64]bool {
	if x != nil {
		return x.F13
	}
	return nil
}

func (x *Maps9) GetF14() map[int64]E {
	if x != nil {
		return x.F14
	}
	return nil
}

func (x *Maps9) GetF15() map[int64]string {
	if x != nil {
		return x.F15
	}
	return nil
}

func (x *Maps9) GetF16() map[int64][]byte {
	if x != nil {
		return x.F16
	}
	return nil
}

func (x *Maps9) GetF17() map[int64]*Leaf {
	if x != nil {
		return x.F17
	}
	return nil
}

type Maps10 struct {
	state         protoimpl.MessageState `protogen:"open.v1"`
	F1            map[bool]int32         `protobuf:"bytes,1,rep,name=f1" json:"f1,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	F2            map[bool]int64         `protobuf:"bytes,2,rep,name=f2" json:"f2,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	F3            map[bool]uint32        `protobuf:"bytes,3,rep,name=f3" json:"f3,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	F4            map[bool]uint64        `protobuf:"bytes,4,rep,name=f4" json:"f4,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	F5            map[bool]int32         `protobuf:"bytes,5,rep,name=f5" json:"f5,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"zigzag32,2,opt,name=value"`
	F6            map[bool]int64         `protobuf:"bytes,6,rep,name=f6" json:"f6,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"zigzag64,2,opt,name=value"`
	F7            map[bool]uint32        `protobuf:"bytes,7,rep,name=f7" json:"f7,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value"`
	F8            map[bool]uint64        `protobuf:"bytes,8,rep,name=f8" json:"f8,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value"`
	F9            map[bool]int32         `protobuf:"bytes,9,rep,name=f9" json:"f9,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value"`
	F10           map[bool]int64         `protobuf:"bytes,10,rep,name=f10" json:"f10,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value"`
	F11           map[bool]float32       `protobuf:"bytes,11,rep,name=f11" json:"f11,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value"`
	F12           map[bool]float64       `protobuf:"bytes,12,rep,name=f12" json:"f12,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value"`
	F13           map[bool]bool          `protobuf:"bytes,13,rep,name=f13" json:"f13,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	F14           map[bool]E             `protobuf:"bytes,14,rep,name=f14" json:"f14,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"varint,2,opt,name=value,enum=fxpb.E"`
	F15           map[bool]string        `protobuf:"bytes,15,rep,name=f15" json:"f15,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	F16           map[bool][]byte        `protobuf:"bytes,16,rep,name=f16" json:"f16,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	F17           map[bool]*Leaf         `protobuf:"bytes,17,rep,name=f17" json:"f17,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	unknownFields protoimpl.UnknownFields
	sizeCache     protoimpl.SizeCache
}

func (x *Maps10) Reset() {
	*x = Maps10{}
	mi := &file_fxpb_proto_msgTypes[202]
	ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
	ms.StoreMessageInfo(mi)
}

func (x *Maps10) String() string {
	return protoimpl.X.MessageStringOf(x)
}

func (*Maps10) ProtoMessage() {}

func (x *Maps10) ProtoReflect() protoreflect.Message {
	mi := &file_fxpb_proto_msgTypes[202]
	if x != nil {
		ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
		if ms.LoadMessageInfo() == nil {
			ms.StoreMessageInfo(mi)
		}
		return ms
	}
	return mi.MessageOf(x)
}

// Deprecated: Use Maps10.ProtoReflect.Descriptor instead.
func (*Maps10) Descriptor() ([]byte, []int) {
	return file_fxpb_proto_rawDescGZIP(), []int{202}
}

func (x *Maps10) GetF1() map[bool]int32 {
	if x != nil {
		return x.F1
	}
	return nil
}

func (x *Maps10) GetF2() map[bool]int64 {
	if x != nil {
		return x.F2
	}
	return nil
}

func (x *Maps10) GetF3() map[bool]uint32 {
	if x != nil {
		return x.F3
	}
	return nil
}

func (x *Maps10) GetF4() map[bool]uint64 {
	if x != nil {
		return x.F4
	}
	return nil
}

func (x *Maps10) GetF5() map[bool]int32 {
	if x != nil {
		return x.F5
	}
	return nil
}

func (x *Maps10) GetF6() map[bool]int64 {
	if x != nil {
		return x.F6
	}
	return nil
}

func (x *Maps10) GetF7() map[bool]uint32 {
	if x != nil {
		return x.F7
	}
	return nil
}

func (x *Maps10) GetF8() map[bool]uint64 {
	if x != nil {
		return x.F8
	}
	return nil
}

func (x *Maps10) GetF9() map[bool]int32 {
	if x != nil {
		return x.F9
	}
	return nil
}

func (x *Maps10) GetF10() map[bool]int64 {
	if x != nil {
		return x.F10
	}
	return nil
}

func (x *Maps10) GetF11() map[bool]float32 {
	if x != nil {
		return x.F11
	}
	return nil
}

func (x *Maps10) GetF12() map[bool]float64 {
	if x != nil {
		return x.F12
	}
	return nil
}

func (x *Maps10) GetF13() map[bool]bool {
	if x != nil {
		return x.F13
	}
	return nil
}

func (x *Maps10) GetF14() map[bool]E {
	if x != nil {
		return x.F14
	}
	return nil
}

func (x *Maps10) GetF15() map[bool]string {
	if x != nil {
		return x.F15
	}
	return nil
}

func (x *Maps10) GetF16() map[bool][]byte {
	if x != nil {
		return x.F16
	}
	return nil
}

func (x *Maps10) GetF17() map[bool]*Leaf {
	if x != nil {
		return x.F17
	}
	return nil
}

type Maps11 struct {
	state         protoimpl.MessageState `protogen:"open.v1"`
	F1            map[string]int32       `protobuf:"bytes,1,rep,name=f1" json:"f1,omitempty" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	F2            map[string]int64       `protobuf:"bytes,2,rep,name=f2" json:"f2,omitempty" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	F3            map[string]uint32      `protobuf:"bytes,3,rep,name=f3" json:"f3,omitempty" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	F4            map[string]uint64      `protobuf:"bytes,4,rep,name=f4" json:"f4,omitempty" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	F5            map[string]int32       `protobuf:"bytes,5,rep,name=f5" json:"f5,omitempty" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"zigzag32,2,opt,name=value"`
	F6            map[string]int64       `protobuf:"bytes,6,rep,name=f6" json:"f6,omitempty" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"zigzag64,2,opt,name=value"`
	F7            map[string]uint32      `protobuf:"bytes,7,rep,name=f7" json:"f7,omitempty" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value"`
	F8            map[string]uint64      `protobuf:"bytes,8,rep,name=f8" json:"f8,omitempty" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value"`
	F9            map[string]int32       `protobuf:"bytes,9,rep,name=f9" json:"f9,omitempty" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value"`
	F10           map[string]int64       `protobuf:"bytes,10,rep,name=f10" json:"f10,omitempty" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value"`
	F11           map[string]float32     `protobuf:"bytes,11,rep,name=f11" json:"f11,omitempty" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value"`
	F12           map[string]float64     `protobuf:"bytes,12,rep,name=f12" json:"f12,omitempty" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value"`
	F13           map[string]bool        `protobuf:"bytes,13,rep,name=f13" json:"f13,omitempty" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	F14           map[string]E           `protobuf:"bytes,14,rep,name=f14" json:"f14,omitempty" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"varint,2,opt,name=value,enum=fxpb.E"`
	F15           map[string]string      `protobuf:"bytes,15,rep,name=f15" json:"f15,omitempty" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	F16           map[string][]byte      `protobuf:"bytes,16,rep,name=f16" json:"f16,omitempty" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	F17           map[string]*Leaf       `protobuf:"bytes,17,rep,name=f17" json:"f17,omitempty" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	unknownFields protoimpl.UnknownFields
	sizeCache     protoimpl.SizeCache
}

func (x *Maps11) Reset() {
	*x = Maps11{}
	mi := &file_fxpb_proto_msgTypes[203]
	ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
	ms.StoreMessageInfo(mi)
}

func (x *Maps11) String() string {
	return protoimpl.X.MessageStringOf(x)
}

func (*Maps11) ProtoMessage() {}

func (x *Maps11) ProtoReflect() protoreflect.Message {
	mi := &file_fxpb_proto_msgTypes[203]
	if x != nil {
		ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
		if ms.LoadMessageInfo() == nil {
			ms.StoreMessageInfo(mi)
		}
		return ms
	}
	return mi.MessageOf(x)
}

// Deprecated: Use Maps11.ProtoReflect.Descriptor instead.
func (*Maps11) Descriptor() ([]byte, []int) {
	return file_fxpb_proto_rawDescGZIP(), []int{203}
}

func (x *Maps11) GetF1() map[string]int32 {
	if x != nil {
		return x.F1
	}
	return nil
}

func (x *Maps11) GetF2() map[string]int64 {
	if x != nil {
		return x.F2
	}
	return nil
}

func (x *Maps11) GetF3() map[string]uint32 {
	if x != nil {
		return x.F3
	}
	return nil
}

func (x *Maps11) GetF4() map[string]uint64 {
	if x != nil {
		return x.F4
	}
	return nil
}

func (x *Maps11) GetF5() map[string]int32 {
	if x != nil {
		return x.F5
	}
	return nil
}

func (x *Maps11) GetF6() map[string]int64 {
	if x != nil {
		return x.F6
	}
	return nil
}

func (x *Maps11) GetF7() map[string]uint32 {
	if x != nil {
		return x.F7
	}
	return nil
}

func (x *Maps11) GetF8() map[string]uint64 {
	if x != nil {
		return x.F8
	}
	return nil
}

func (x *Maps11) GetF9() map[string]int32 {
	if x != nil {
		return x.F9
	}
	return nil
}

func (x *Maps11) GetF10() map[string]int64 {
	if x != nil {
		return x.F10
	}
	return nil
}

func (x *Maps11) GetF11() map[string]float32 {
	if x != nil {
		return x.F11
	}
	return nil
}

func (x *Maps11) GetF12() map[string]float64 {
	if x != nil {
		return x.F12
	}
	return nil
}

func (x *Maps11) GetF13() map[string]bool {
	if x != nil {
		return x.F13
	}
	return nil
}

func (x *Maps11) GetF14() map[string]E {
	if x != nil {
		return x.F14
	}
	return nil
}

func (x *Maps11) GetF15() map[string]string {
	if x != nil {
		return x.F15
	}
	return nil
}

func (x *Maps11) GetF16() map[string][]byte {
	if x != nil {
		return x.F16
	}
	return nil
}

func (x *Maps11) GetF17() map[string]*Leaf {
	if x != nil {
		return x.F17
	}
	return nil
}

type BigOneof struct {
	state protoimpl.MessageState `protogen:"open.v1"`
	F502  bool                   `protobuf:"varint,502,opt,name=f502" json:"f502,omitempty"`
	// Types that are valid to be assigned to O0:
	//
	//	*BigOneof_F1
	//	*BigOneof_F15
	//	*BigOneof_F16
	//	*BigOneof_F999
	//	*BigOneof_F1000
	//	*BigOneof_F1001
	//	*BigOneof_F1002
	//	*BigOneof_F2047
	//	*BigOneof_F2048
	//	*BigOneof_F262143
	//	*BigOneof_F262144
	//	*BigOneof_F33554431
	//	*BigOneof_F33554432
	//	*BigOneof_F536870911
	//	*BigOneof_F536870910
	//	*BigOneof_F17
	//	*BigOneof_F500
	//	*BigOneof_F501
	O0            isBigOneof_O0 `protobuf_oneof:"o0"`
	unknownFields protoimpl.UnknownFields
	sizeCache     protoimpl.SizeCache
}

func (x *BigOneof) Reset() {
	*x = BigOneof{}
	mi := &file_fxpb_proto_msgTypes[204]
	ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
	ms.StoreMessageInfo(mi)
}

func (x *BigOneof) String() string {
	return protoimpl.X.MessageStringOf(x)
}

func (*BigOneof) ProtoMessage() {}

func (x *BigOneof) ProtoReflect() protoreflect.Message {
	mi := &file_fxpb_proto_msgTypes[204]
	if x != nil {
		ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
		if ms.LoadMessageInfo() == nil {
			ms.StoreMessageInfo(mi)
		}
		return ms
	}
	return mi.MessageOf(x)
}

// Deprecated: Use BigOneof.ProtoReflect.Descriptor instead.
func (*BigOneof) Descriptor() ([]byte, []int) {
	return file_fxpb_proto_rawDescGZIP(), []int{204}
}

func (x *BigOneof) GetF502() bool {
	if x != nil {
		return x.F502
	}
	return false
}

func (x *BigOneof) GetO0() isBigOneof_O0 {
	if x != nil {
		return x.O0
	}
	return nil
}

func (x *BigOneof) GetF1() int32 {
	if x != nil {
		if x, ok := x.O0.(*BigOneof_F1); ok {
			return x.F1
		}
	}
	return 0
}

func (x *BigOneof) GetF15() int64 {
	if x != nil {
		if x, ok := x.O0.(*BigOneof_F15); ok {
			return x.F15
		}
	}
	return 0
}

func (x *BigOneof) GetF16() uint32 {
	if x != nil {
		if x, ok := x.O0.(*BigOneof_F16); ok {
			return x.F16
		}
	}
	return 0
}

func (x *BigOneof) GetF999() uint64 {
	if x != nil {
		if x, ok := x.O0.(*BigOneof_F999); ok {
			return x.F999
		}
	}
	return 0
}

func (x *BigOneof) GetF1000() int32 {
	if x != nil {
		if x, ok := x.O0.(*BigOneof_F1000); ok {
			return x.F1000
		}
	}
	return 0
}

func (x *BigOneof) GetF1001() int64 {
	if x != nil {
		if x, ok := x.O0.(*BigOneof_F1001); ok {
			return x.F1001
		}
	}
	return 0
}

func (x *BigOneof) GetF1002() uint32 {
	if x != nil {
		if x, ok := x.O0.(*BigOneof_F1002); ok {
			return x.F1002
		}
	}
	return 0
}

func (x *BigOneof) GetF2047() uint64 {
	if x != nil {
		if x, ok := x.O0.(*BigOneof_F2047); ok {
			return x.F2047
		}
	}
	return 0
}

func (x *BigOneof) GetF2048() int32 {
	if x != nil {
		if x, ok := x.O0.(*BigOneof_F2048); ok {
			return x.F2048
		}
	}
	return 0
}

func (x *BigOneof) GetF262143() int64 {
	if x != nil {
		if x, ok := x.O0.(*BigOneof_F262143); ok {
			return x.F262143
		}
	}
	return 0
}

func (x *BigOneof) GetF262144() float32 {
	if x != nil {
		if x, ok := x.O0.(*BigOneof_F262144); ok {
			return x.F262144
		}
	}
	return 0
}

func (x *BigOneof) GetF33554431() float64 {
	if x != nil {
		if x, ok := x.O0.(*BigOneof_F33554431); ok {
			return x.F33554431
		}
	}
	return 0
}

func (x *BigOneof) GetF33554432() bool {
	if x != nil {
		if x, ok := x.O0.(*BigOneof_F33554432); ok {
			return x.F33554432
		}
	}
	return false
}

func (x *BigOneof) GetF536870911() E {
	if x != nil {
		if x, ok := x.O0.(*BigOneof_F536870911); ok {
			return x.F536870911
		}
	}
	return E_E_ZERO
}

func (x *BigOneof) GetF536870910() string {
	if x != nil {
		if x, ok := x.O0.(*BigOneof_F536870910); ok {
			return x.F536870910
		}
	}
	return ""
}

func (x *BigOneof) GetF17() []byte {
	if x != nil {
		if x, ok := x.O0.(*BigOneof_F17); ok {
			return x.F17
		}
	}
	return nil
}

func (x *BigOneof) GetF500() *Leaf {
	if x != nil {
		if x, ok := x.O0.(*BigOneof_F500); ok {
			return x.F500
		}
	}
	return nil
}

func (x *BigOneof) GetF501() *Rec {
	if x != nil {
		if x, ok := x.O0.(*BigOneof_F501); ok {
			return x.F501
		}
	}
	return nil
}

type isBigOneof_O0 interface {
	isBigOneof_O0()
}

type BigOneof_F1 struct {
	F1 int32 `protobuf:"varint,1,opt,name=f1,oneof"`
}

type BigOneof_F15 struct {
	F15 int64 `protobuf:"varint,15,opt,name=f15,oneof"`
}

type BigOneof_F16 struct {
	F16 uint32 `protobuf:"varint,16,opt,name=f16,oneof"`
}

type BigOneof_F999 struct {
	F999 uint64 `protobuf:"varint,999,opt,name=f999,oneof"`
}

type BigOneof_F1000 struct {
	F1000 int32 `protobuf:"zigzag32,1000,opt,name=f1000,oneof"`
}

type BigOneof_F1001 struct {
	F1001 int64 `protobuf:"zigzag64,1001,opt,name=f1001,oneof"`
}

type BigOneof_F1002 struct {
	F1002 uint32 `protobuf:"fixed32,1002,opt,name=f1002,oneof"`
}

type BigOneof_F2047 struct {
	F2047 uint64 `protobuf:"fixed64,2047,opt,name=f2047,oneof"`
}

type BigOneof_F2048 struct {
	F2048 int32 `protobuf:"fixed32,2048,opt,name=f2048,oneof"`
}

type BigOneof_F262143 struct {
	F262143 int64 `protobuf:"fixed64,262143,opt,name=f262143,oneof"`
}

type BigOneof_F262144 struct {
	F262144 float32 `protobuf:"fixed32,262144,opt,name=f262144,oneof"`
}

type BigOneof_F33554431 struct {
	F33554431 float64 `protobuf:"fixed64,33554431,opt,name=f33554431,oneof"`
}

type BigOneof_F33554432 struct {
	F33554432 bool `protobuf:"varint,33554432,opt,name=f33554432,oneof"`
}

type BigOneof_F536870911 struct {
	F536870911 E `protobuf:"varint,536870911,opt,name=f536870911,enum=fxpb.E,oneof"`
}

type BigOneof_F536870910 struct {
	F536870910 string `protobuf:"bytes,536870910,opt,name=f536870910,oneof"`
}

type BigOneof_F17 struct {
	F17 []byte `protobuf:"bytes,17,opt,name=f17,oneof"`
}

type BigOneof_F500 struct {
	F500 *Leaf `protobuf:"bytes,500,opt,name=f500,oneof"`
}

type BigOneof_F501 struct {
	F501 *Rec `protobuf:"bytes,501,opt,name=f501,oneof"`
}

func (*BigOneof_F1) isBigOneof_O0() {}

func (*BigOneof_F15) isBigOneof_O0() {}

func (*BigOneof_F16) isBigOneof_O0() {}

func (*BigOneof_F999) isBigOneof_O0() {}

func (*BigOneof_F1000) isBigOneof_O0() {}

func (*BigOneof_F1001) isBigOneof_O0() {}

func (*BigOneof_F1002) isBigOneof_O0() {}

func (*BigOneof_F2047) isBigOneof_O0() {}

func (*BigOneof_F2048) isBigOneof_O0() {}

func (*BigOneof_F262143) isBigOneof_O0() {}

func (*BigOneof_F262144) isBigOneof_O0() {}

func (*BigOneof_F33554431) isBigOneof_O0() {}

func (*BigOneof_F33554432) isBigOneof_O0() {}

func (*BigOneof_F536870911) isBigOneof_O0() {}

func (*BigOneof_F536870910) isBigOneof_O0() {}

func (*BigOneof_F17) isBigOneof_O0() {}

func (*BigOneof_F500) isBigOneof_O0() {}

func (*BigOneof_F501) isBigOneof_O0() {}

var File_fxpb_proto protoreflect.FileDescriptor

const file_fxpb_proto_rawDesc = "" +
	"\n" +
	"\n" +
	"fxpb.proto\x12\x04fxpb\"\xcf\x02\n" +
	"\x04S0M1\x12\x17\n" +
	"\x03f20\x18\x14 \x03(\v2\n" +
	".fxpb.S0M2\x12\x12\n" +
	"\x03f15\x18\x0f \x01(\x01B\x05\xaa\x01\x02\b\x03\x12\x1a\n" +
	"\x05f2048\x18\x80\x10 \x01(\v2\n" +
	".fxpb.S0M7\x12*\n" +
	"\af262144\x18\x80\x80\x10 \x03(\v2\x17.fxpb.S0M1.F262144Entry\x12\x11\n" +
	"\x02f9\x18\t \x01(\x0fB\x05\xaa\x01\x02\b\x02\x12\r\n" +
	"\x04f778\x18\x8a\x06 \x01(\x06\x12#\n" +
	"\x04f352\x18\xe0\x02 \x03(\v2\x14.fxpb.S0M1.F352Entry\x12\x19\n" +
	"\x03f11\x18\v \x01(\v2\n" +
	".fxpb.S0M3H\x00\x12\r\n" +
	"\x03f28\x18\x1c \x01(\fH\x00\x1a.\n" +
	"\fF262144Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\r\x12\r\n" +
	"\x05value\x18\x02 \x01(\a:\x028\x01\x1a+\n" +
	"\tF352Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\x05\x12\r\n" +
	"\x05value\x18\x02 \x01(\x06:\x028\x01B\x04\n" +
	"\x02o0\"5\n" +
	"\x04S0M2\x12\n" +
	"\n" +
	"\x02f1\x18\x01 \x01(\t\x12\f\n" +
	"\x02f4\x18\x04 \x01(\x02H\x00\x12\r\n" +
	"\x03f14\x18\x0e \x01(\x11H\x00B\x04\n" +
	"\x02o0\"\x8d\x02\n" +
	"\x04S0M3\x12\x16\n" +
	"\x02f4\x18\x04 \x03(\v2\n" +
	".fxpb.S0M4\x12\r\n" +
	"\x04f995\x18\xe3\a \x01(\x12\x12\x12\n" +
	"\x03f25\x18\x19 \x01(\aB\x05\xaa\x01\x02\b\x02\x12\x17\n" +
	"\x06f18999\x18\xb7\x94\x01 \x01(\x02B\x05\xaa\x01\x02\b\x02\x12\x16\n" +
	"\x04f374\x18\xf6\x02 \x01(\x0e2\a.fxpb.E\x12 \n" +
	"\tf33554431\x18\xff\xff\xff\x0f \x01(\v2\n" +
	".fxpb.S0M5\x12\x14\n" +
	"\x04f182\x18\xb6\x01 \x01(\x04B\x05\xaa\x01\x02\b\x02\x12\n" +
	"\n" +
	"\x02f3\x18\x03 \x01(\x06\x12\x1e\n" +
	"\x02f7\x18\a \x03(\v2\x12.fxpb.S0M3.F7Entry\x1a5\n" +
	"\aF7Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\x03\x12\x19\n" +
	"\x05value\x18\x02 \x01(\v2\n" +
	".fxpb.S0M6:\x028\x01\"@\n" +
	"\x04S0M4\x12\n" +
	"\n" +
	"\x02f6\x18\x06 \x03(\t\x12\x12\n" +
	"\x03f13\x18\r \x03(\x12B\x05\xaa\x01\x02\x18\x01\x12\x12\n" +
	"\x06f20000\x18\xa0\x9c\x01 \x01(\x0fH\x00B\x04\n" +
	"\x02o0\"\xfd\x02\n" +
	"\x04S0M5\x12%\n" +
	"\x05f1006\x18\xee\a \x03(\v2\x15.fxpb.S0M5.F1006Entry\x12\x14\n" +
	"\x04f719\x18\xcf\x05 \x01(\x0fB\x05\xaa\x01\x02\b\x02\x12\n" +
	"\n" +
	"\x02f9\x18\t \x03(\f\x12 \n" +
	"\x03f19\x18\x13 \x03(\v2\x13.fxpb.S0M5.F19Entry\x12\x14\n" +
	"\x04f618\x18\xea\x04 \x01(\x12B\x05\xaa\x01\x02\b\x02\x12\r\n" +
	"\x04f662\x18\x96\x05 \x01(\x01\x12\x1e\n" +
	"\x02f3\x18\x03 \x03(\v2\x12.fxpb.S0M5.F3Entry\x12\r\n" +
	"\x03f24\x18\x18 \x01(\x0fH\x00\x12\x16\n" +
	"\x03f16\x18\x10 \x01(\x0e2\a.fxpb.EH\x01\x12\r\n" +
	"\x03f10\x18\n" +
	" \x01(\rH\x01\x1a,\n" +
	"\n" +
	"F1006Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\x06\x12\r\n" +
	"\x05value\x18\x02 \x01(\b:\x028\x01\x1a*\n" +
	"\bF19Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\x12\x12\r\n" +
	"\x05value\x18\x02 \x01(\t:\x028\x01\x1a)\n" +
	"\aF3Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\x11\x12\r\n" +
	"\x05value\x18\x02 \x01(\r:\x028\x01B\x04\n" +
	"\x02o0B\x04\n" +
	"\x02o1\"J\n" +
	"\x04S0M6\x12\x12\n" +
	"\x03f11\x18\v \x01(\x06B\x05\xaa\x01\x02\b\x02\x12\v\n" +
	"\x03f13\x18\r \x01(\x02\x12\r\n" +
	"\x04f543\x18\x9f\x04 \x03(\t\x12\f\n" +
	"\x02f8\x18\b \x01(\x12H\x00B\x04\n" +
	"\x02o0\"C\n" +
	"\x04S0M7\x12\x14\n" +
	"\x04f998\x18\xe6\a \x01(\x12B\x05\xaa\x01\x02\b\x02\x12\x19\n" +
	"\x04f447\x18\xbf\x03 \x03(\v2\n" +
	".fxpb.S0M5\x12\n" +
	"\n" +
	"\x02f4\x18\x04 \x01(\x01\"\x80\x03\n" +
	"\x04S1M1\x12#\n" +
	"\x04f996\x18\xe4\a \x03(\v2\x14.fxpb.S1M1.F996Entry\x12(\n" +
	"\x06f20000\x18\xa0\x9c\x01 \x03(\v2\x16.fxpb.S1M1.F20000Entry\x12\x16\n" +
	"\x02f3\x18\x03 \x03(\v2\n" +
	".fxpb.S1M2\x12\x1e\n" +
	"\x02f1\x18\x01 \x03(\v2\x12.fxpb.S1M1.F1Entry\x12\v\n" +
	"\x03f11\x18\v \x01(\x01\x12\x15\n" +
	"\n" +
	"f254258837\x18\x95ݞy \x01(\r\x12\x12\n" +
	"\x03f12\x18\f \x01(\fB\x05\xaa\x01\x02\b\x02\x12\v\n" +
	"\x03f10\x18\n" +
	" \x01(\x06\x12\x10\n" +
	"\x05f1001\x18\xe9\a \x01(\x05H\x00\x12\r\n" +
	"\x03f13\x18\r \x01(\x01H\x00\x1a+\n" +
	"\tF996Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\x03\x12\r\n" +
	"\x05value\x18\x02 \x01(\a:\x028\x01\x1a-\n" +
	"\vF20000Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\a\x12\r\n" +
	"\x05value\x18\x02 \x01(\x11:\x028\x01\x1a)\n" +
	"\aF1Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\b\x12\r\n" +
	"\x05value\x18\x02 \x01(\b:\x028\x01B\x04\n" +
	"\x02o0\"6\n" +
	"\x04S1M2\x12\r\n" +
	"\x04f215\x18\xd7\x01 \x01(\x01\x12\v\n" +
	"\x03f10\x18\n" +
	" \x01(\f\x12\x12\n" +
	"\x03f11\x18\v \x01(\x0fB\x05\xaa\x01\x02\b\x02\"\x9c\x02\n" +
	"\x04S2M1\x12\x12\n" +
	"\x03f15\x18\x0f \x01(\bB\x05\xaa\x01\x02\b\x02\x12\x15\n" +
	"\x05f1006\x18\xee\a \x01(\x0fB\x05\xaa\x01\x02\b\x02\x12\x11\n" +
	"\x02f8\x18\b \x03(\x02B\x05\xaa\x01\x02\x18\x02\x12\x16\n" +
	"\x02f9\x18\t \x03(\v2\n" +
	".fxpb.S2M2\x12\x1b\n" +
	"\x03f21\x18\x15 \x01(\x0e2\a.fxpb.EB\x05\xaa\x01\x02\b\x02\x12\x17\n" +
	"\x03f20\x18\x14 \x01(\v2\n" +
	".fxpb.S2M3\x12\x1e\n" +
	"\x02f1\x18\x01 \x03(\v2\x12.fxpb.S2M1.F1Entry\x12\x19\n" +
	"\x03f12\x18\f \x01(\v2\n" +
	".fxpb.S2M5H\x00\x12\r\n" +
	"\x03f13\x18\r \x01(\fH\x00\x12\r\n" +
	"\x03f14\x18\x0e \x01(\x10H\x00\x1a)\n" +
	"\aF1Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\x12\x12\r\n" +
	"\x05value\x18\x02 \x01(\x06:\x028\x01B\x04\n" +
	"\x02o0\"q\n" +
	"\x04S2M2\x12\x1e\n" +
	"\x02f3\x18\x03 \x03(\v2\x12.fxpb.S2M2.F3Entry\x12\x11\n" +
	"\x02f4\x18\x04 \x01(\x03B\x05\xaa\x01\x02\b\x02\x12\v\n" +
	"\x03f32\x18  \x01(\x02\x1a)\n" +
	"\aF3Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\x03\x12\r\n" +
	"\x05value\x18\x02 \x01(\x03:\x028\x01\"\xd2\x01\n" +
	"\x04S2M3\x12\x19\n" +
	"\x04f244\x18\xf4\x01 \x01(\v2\n" +
	".fxpb.S2M4\x12\v\n" +
	"\x03f13\x18\r \x01(\x11\x12\x12\n" +
	"\x03f17\x18\x11 \x01(\x06B\x05\xaa\x01\x02\b\x02\x12\n" +
	"\n" +
	"\x02f3\x18\x03 \x01(\b\x12\v\n" +
	"\x03f12\x18\f \x01(\x02\x12\x12\n" +
	"\x03f14\x18\x0e \x01(\x12B\x05\xaa\x01\x02\b\x02\x12/\n" +
	"\tf51084766\x18\xde\xfb\xad\x18 \x03(\v2\x19.fxpb.S2M3.F51084766Entry\x1a0\n" +
	"\x0eF51084766Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\x11\x12\r\n" +
	"\x05value\x18\x02 \x01(\r:\x028\x01\"1\n" +
	"\x04S2M4\x12\x14\n" +
	"\x04f998\x18\xe6\a \x01(\x05B\x05\xaa\x01\x02\b\x02\x12\r\n" +
	"\x03f18\x18\x12 \x01(\x04H\x00B\x04\n" +
	"\x02o0\"\x98\x01\n" +
	"\x04S2M5\x12\x0e\n" +
	"\x05f1006\x18\xee\a \x01(\x0f\x12\x1a\n" +
	"\x02f6\x18\x06 \x01(\x0e2\a.fxpb.EB\x05\xaa\x01\x02\b\x03\x12 \n" +
	"\x03f12\x18\f \x03(\v2\x13.fxpb.S2M5.F12Entry\x12\x16\n" +
	"\x02f3\x18\x03 \x03(\v2\n" +
	".fxpb.S2M6\x1a*\n" +
	"\bF12Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\x11\x12\r\n" +
	"\x05value\x18\x02 \x01(\t:\x028\x01\"b\n" +
	"\x04S2M6\x12\n" +
	"\n" +
	"\x02f5\x18\x05 \x01(\x01\x12\x12\n" +
	"\x03f38\x18& \x01(\x01B\x05\xaa\x01\x02\b\x02\x12\x12\n" +
	"\x03f14\x18\x0e \x01(\aB\x05\xaa\x01\x02\b\x02\x12\x12\n" +
	"\x03f12\x18\f \x03(\x03B\x05\xaa\x01\x02\x18\x01\x12\x12\n" +
	"\x03f13\x18\r \x03(\x10B\x05\xaa\x01\x02\x18\x01\"\x06\n" +
	"\x04S3M1\"\x91\x02\n" +
	"\x04S4M1\x12\x17\n" +
	"\x06f18999\x18\xb7\x94\x01 \x01(\rB\x05\xaa\x01\x02\b\x02\x121\n" +
	"\n" +
	"f260404734\x18\xfe\xeb\x95| \x03(\v2\x1a.fxpb.S4M1.F260404734Entry\x12\x14\n" +
	"\x04f479\x18\xdf\x03 \x01(\tB\x05\xaa\x01\x02\b\x02\x12\v\n" +
	"\x03f10\x18\n" +
	" \x01(\x02\x12\x17\n" +
	"\x03f11\x18\v \x03(\v2\n" +
	".fxpb.S4M4\x12\x13\n" +
	"\af262144\x18\x80\x80\x10 \x01(\bH\x00\x12\x19\n" +
	"\x03f17\x18\x11 \x01(\v2\n" +
	".fxpb.S4M3H\x00\x12\f\n" +
	"\x02f5\x18\x05 \x01(\rH\x00\x1a=\n" +
	"\x0fF260404734Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\x04\x12\x19\n" +
	"\x05value\x18\x02 \x01(\v2\n" +
	".fxpb.S4M2:\x028\x01B\x04\n" +
	"\x02o0\"\xbe\x01\n" +
	"\x04S4M2\x12\x11\n" +
	"\x02f4\x18\x04 \x03(\x03B\x05\xaa\x01\x02\x18\x01\x12\x1e\n" +
	"\x02f5\x18\x05 \x03(\v2\x12.fxpb.S4M2.F5Entry\x12\x1e\n" +
	"\x02f6\x18\x06 \x03(\v2\x12.fxpb.S4M2.F6Entry\x12\r\n" +
	"\x04f319\x18\xbf\x02 \x01(\t\x1a)\n" +
	"\aF5Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\x12\x12\r\n" +
	"\x05value\x18\x02 \x01(\t:\x028\x01\x1a)\n" +
	"\aF6Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\x06\x12\r\n" +
	"\x05value\x18\x02 \x01(\x11:\x028\x01\"\x19\n" +
	"\x04S4M3\x12\x11\n" +
	"\x02f8\x18\b \x01(\x10B\x05\xaa\x01\x02\b\x02\"\xbe\x02\n" +
	"\x04S4M4\x12\x1e\n" +
	"\x02f1\x18\x01 \x03(\v2\x12.fxpb.S4M4.F1Entry\x12\x11\n" +
	"\x02f8\x18\b \x03(\x04B\x05\xaa\x01\x02\x18\x02\x12\x12\n" +
	"\x03f13\x18\r \x03(\bB\x05\xaa\x01\x02\x18\x02\x12\x19\n" +
	"\x04f999\x18\xe7\a \x03(\v2\n" +
	".fxpb.S4M3\x12\x1d\n" +
	"\x04f996\x18\xe4\a \x01(\x0e2\a.fxpb.EB\x05\xaa\x01\x02\b\x02\x12\x11\n" +
	"\x02f7\x18\a \x01(\x06B\x05\xaa\x01\x02\b\x02\x12\x1a\n" +
	"\x05f2047\x18\xff\x0f \x01(\v2\n" +
	".fxpb.S4M2\x12 \n" +
	"\x03f32\x18  \x03(\v2\x13.fxpb.S4M4.F32Entry\x12\r\n" +
	"\x04f995\x18\xe3\a \x01(\x01\x1a)\n" +
	"\aF1Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\x12\x12\r\n" +
	"\x05value\x18\x02 \x01(\a:\x028\x01\x1a*\n" +
	"\bF32Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\x05\x12\r\n" +
	"\x05value\x18\x02 \x01(\x03:\x028\x01\"\xfc\x01\n" +
	"\x04S5M1\x12\x1e\n" +
	"\x02f3\x18\x03 \x03(\v2\x12.fxpb.S5M1.F3Entry\x12\x11\n" +
	"\x02f2\x18\x02 \x01(\x06B\x05\xaa\x01\x02\b\x02\x12\x14\n" +
	"\x04f914\x18\x92\a \x03(\x10B\x05\xaa\x01\x02\x18\x01\x12\x16\n" +
	"\x02f8\x18\b \x01(\v2\n" +
	".fxpb.S5M4\x12\x17\n" +
	"\x03f30\x18\x1e \x03(\v2\n" +
	".fxpb.S5M4\x12\x14\n" +
	"\x04f815\x18\xaf\x06 \x01(\aB\x05\xaa\x01\x02\b\x03\x12\r\n" +
	"\x03f12\x18\f \x01(\x06H\x00\x12\x18\n" +
	"\n" +
	"f459918137\x18\xb9\x96\xa7\xdb\x01 \x01(\x03H\x00\x1a5\n" +
	"\aF3Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\a\x12\x19\n" +
	"\x05value\x18\x02 \x01(\v2\n" +
	".fxpb.S5M2:\x028\x01B\x04\n" +
	"\x02o0\"E\n" +
	"\x04S5M2\x12\x12\n" +
	"\x03f10\x18\n" +
	" \x01(\x04B\x05\xaa\x01\x02\b\x03\x12\x11\n" +
	"\x02f5\x18\x05 \x01(\fB\x05\xaa\x01\x02\b\x02\x12\x16\n" +
	"\x02f1\x18\x01 \x01(\v2\n" +
	".fxpb.S5M3\"\x89\x01\n" +
	"\x04S5M3\x12\x11\n" +
	"\x02f2\x18\x02 \x03(\x05B\x05\xaa\x01\x02\x18\x01\x12\v\n" +
	"\x03f35\x18# \x03(\f\x12\x1a\n" +
	"\x02f3\x18\x03 \x01(\x0e2\a.fxpb.EB\x05\xaa\x01\x02\b\x02\x12\x15\n" +
	"\n" +
	"f179418204\x18\xdc\xe8\xc6U \x01(\x12\x12\x15\n" +
	"\x05f1002\x18\xea\a \x01(\x03B\x05\xaa\x01\x02\b\x02\x12\x17\n" +
	"\x06f18999\x18\xb7\x94\x01 \x01(\x01B\x05\xaa\x01\x02\b\x02\"e\n" +
	"\x04S5M4\x12\x12\n" +
	"\x03f38\x18& \x01(\x10B\x05\xaa\x01\x02\b\x02\x12\x14\n" +
	"\x03f12\x18\f \x01(\x0e2\a.fxpb.E\x12\x1b\n" +
	"\x03f26\x18\x1a \x03(\x0e2\a.fxpb.EB\x05\xaa\x01\x02\x18\x02\x12\x10\n" +
	"\x05f1003\x18\xeb\a \x01(\aH\x00B\x04\n" +
	"\x02o0\"\x19\n" +
	"\x04S6M1\x12\x11\n" +
	"\x02f4\x18\x04 \x03(\x06B\x05\xaa\x01\x02\x18\x01\"x\n" +
	"\x04S7M1\x12#\n" +
	"\x04f995\x18\xe3\a \x03(\v2\x14.fxpb.S7M1.F995Entry\x12\x12\n" +
	"\x03f10\x18\n" +
	" \x03(\x11B\x05\xaa\x01\x02\x18\x02\x1a7\n" +
	"\tF995Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\x12\x12\x19\n" +
	"\x05value\x18\x02 \x01(\v2\n" +
	".fxpb.S7M2:\x028\x01\"\xc8\x01\n" +
	"\x04S7M2\x12 \n" +
	"\x03f13\x18\r \x03(\v2\x13.fxpb.S7M2.F13Entry\x12\x11\n" +
	"\x02f3\x18\x03 \x03(\x05B\x05\xaa\x01\x02\x18\x02\x12!\n" +
	"\n" +
	"f145035270\x18\x86\xa0\x94E \x01(\v2\n" +
	".fxpb.S7M3\x12\x13\n" +
	"\x02f4\x18\x04 \x01(\x0e2\a.fxpb.E\x12\x14\n" +
	"\x04f977\x18\xd1\a \x01(\x06B\x05\xaa\x01\x02\b\x03\x12\x11\n" +
	"\x02f2\x18\x02 \x01(\x11B\x05\xaa\x01\x02\b\x02\x1a*\n" +
	"\bF13Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\x0f\x12\r\n" +
	"\x05value\x18\x02 \x01(\x05:\x028\x01\"\xa5\x01\n" +
	"\x04S7M3\x12\x1c\n" +
	"\n" +
	"f203293200\x18\x90\x84\xf8` \x03(\x10B\x05\xaa\x01\x02\x18\x02\x12\x11\n" +
	"\x02f3\x18\x03 \x03(\x12B\x05\xaa\x01\x02\x18\x01\x12\x0e\n" +
	"\x05f1005\x18\xed\a \x01(\x05\x12\x12\n" +
	"\x03f38\x18& \x03(\rB\x05\xaa\x01\x02\x18\x02\x12\x12\n" +
	"\x03f10\x18\n" +
	" \x01(\bB\x05\xaa\x01\x02\b\x02\x12\v\n" +
	"\x03f25\x18\x19 \x01(\x01\x12\f\n" +
	"\x02f6\x18\x06 \x01(\x05H\x00\x12\x13\n" +
	"\af262143\x18\xff\xff\x0f \x01(\x04H\x00B\x04\n" +
	"\x02o0\"\x93\x01\n" +
	"\x04S8M1\x12\x15\n" +
	"\x05f2047\x18\xff\x0f \x01(\x0fB\x05\xaa\x01\x02\b\x02\x12\x14\n" +
	"\x04f998\x18\xe6\a \x01(\x04B\x05\xaa\x01\x02\b\x02\x12\x1e\n" +
	"\x02f2\x18\x02 \x03(\v2\x12.fxpb.S8M1.F2Entry\x12\r\n" +
	"\x03f27\x18\x1b \x01(\tH\x00\x1a)\n" +
	"\aF2Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\x05\x12\r\n" +
	"\x05value\x18\x02 \x01(\f:\x028\x01B\x04\n" +
	"\x02o0\"\x9f\x01\n" +
	"\x04S9M1\x12 \n" +
	"\x03f16\x18\x10 \x03(\v2\x13.fxpb.S9M1.F16Entry\x12\x12\n" +
	"\x03f13\x18\r \x01(\aB\x05\xaa\x01\x02\b\x02\x12\n" +
	"\n" +
	"\x02f9\x18\t \x01(\r\x12\x11\n" +
	"\x02f1\x18\x01 \x01(\x06B\x05\xaa\x01\x02\b\x02\x12\x16\n" +
	"\x02f7\x18\a \x01(\v2\n" +
	".fxpb.S9M2\x1a*\n" +
	"\bF16Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\x11\x12\r\n" +
	"\x05value\x18\x02 \x01(\x04:\x028\x01\"u\n" +
	"\x04S9M2\x12\x19\n" +
	"\x04f998\x18\xe6\a \x03(\v2\n" +
	".fxpb.S9M3\x12\x11\n" +
	"\x02f5\x18\x05 \x01(\x06B\x05\xaa\x01\x02\b\x02\x12!\n" +
	"\x05f1006\x18\xee\a \x01(\v2\n" +
	".fxpb.S9M4B\x05\xaa\x01\x02\b\x03\x12\x1c\n" +
	"\x06f20000\x18\xa0\x9c\x01 \x01(\v2\n" +
	".fxpb.S9M5\"\x98\x01\n" +
	"\x04S9M3\x12\x13\n" +
	"\x02f6\x18\x06 \x01(\x0e2\a.fxpb.E\x12\r\n" +
	"\x04f479\x18\xdf\x03 \x01(\x04\x12\x14\n" +
	"\x04f995\x18\xe3\a \x01(\x11B\x05\xaa\x01\x02\b\x03\x12\n" +
	"\n" +
	"\x02f3\x18\x03 \x03(\f\x12\v\n" +
	"\x03f37\x18% \x01(\r\x12\x14\n" +
	"\x04f996\x18\xe4\a \x01(\x0fB\x05\xaa\x01\x02\b\x02\x12\x1a\n" +
	"\x02f5\x18\x05 \x03(\x0e2\a.fxpb.EB\x05\xaa\x01\x02\x18\x01\x12\v\n" +
	"\x03f28\x18\x1c \x03(\f\"\xe6\x01\n" +
	"\x04S9M4\x12 \n" +
	"\x03f69\x18E \x03(\v2\x13.fxpb.S9M4.F69Entry\x12\x1e\n" +
	"\x02f1\x18\x01 \x03(\v2\x12.fxpb.S9M4.F1Entry\x12\x1d\n" +
	"\n" +
	"f282239034\x18\xba\xc0ʆ\x01 \x01(\aB\x05\xaa\x01\x02\b\x02\x12\x12\n" +
	"\x03f13\x18\r \x01(\aB\x05\xaa\x01\x02\b\x02\x12\f\n" +
	"\x02f9\x18\t \x01(\bH\x00\x1a*\n" +
	"\bF69Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\x04\x12\r\n" +
	"\x05value\x18\x02 \x01(\x03:\x028\x01\x1a)\n" +
	"\aF1Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\t\x12\r\n" +
	"\x05value\x18\x02 \x01(\a:\x028\x01B\x04\n" +
	"\x02o0\"\x1c\n" +
	"\x04S9M5\x12\x14\n" +
	"\tf16154991\x18\xef\x82\xda\a \x01(\x0f\"\x8b\x02\n" +
	"\x05S10M1\x12\x17\n" +
	"\x02f8\x18\b \x01(\v2\v.fxpb.S10M2\x12\x11\n" +
	"\x02f7\x18\a \x01(\aB\x05\xaa\x01\x02\b\x02\x12\x1b\n" +
	"\x05f1002\x18\xea\a \x01(\v2\v.fxpb.S10M4\x12\x15\n" +
	"\x05f1000\x18\xe8\a \x01(\bB\x05\xaa\x01\x02\b\x02\x12\x17\n" +
	"\x02f9\x18\t \x01(\v2\v.fxpb.S10M3\x12\x1e\n" +
	"\af262144\x18\x80\x80\x10 \x01(\v2\v.fxpb.S10M6\x12\x1a\n" +
	"\x04f625\x18\xf1\x04 \x01(\v2\v.fxpb.S10M4\x12!\n" +
	"\x03f11\x18\v \x03(\v2\x14.fxpb.S10M1.F11Entry\x1a*\n" +
	"\bF11Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\x06\x12\r\n" +
	"\x05value\x18\x02 \x01(\b:\x028\x01\"\xd2\x01\n" +
	"\x05S10M2\x12\x12\n" +
	"\x03f14\x18\x0e \x03(\x05B\x05\xaa\x01\x02\x18\x02\x12\x11\n" +
	"\x02f7\x18\a \x01(\x11B\x05\xaa\x01\x02\b\x02\x12\x1f\n" +
	"\x02f4\x18\x04 \x03(\v2\x13.fxpb.S10M2.F4Entry\x12\n" +
	"\n" +
	"\x02f5\x18\x05 \x01(\f\x12\x1d\n" +
	"\n" +
	"f428859739\x18\xdb¿\xcc\x01 \x03(\x05B\x05\xaa\x01\x02\x18\x01\x12\n" +
	"\n" +
	"\x02f6\x18\x06 \x01(\r\x12\x12\n" +
	"\x03f12\x18\f \x01(\x06B\x05\xaa\x01\x02\b\x02\x1a6\n" +
	"\aF4Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\x05\x12\x1a\n" +
	"\x05value\x18\x02 \x01(\v2\v.fxpb.S10M3:\x028\x01\"`\n" +
	"\x05S10M3\x12\x1d\n" +
	"\x04f902\x18\x86\a \x01(\x0e2\a.fxpb.EB\x05\xaa\x01\x02\b\x02\x12\x0f\n" +
	"\x04f410\x18\x9a\x03 \x01(\fH\x00\x12\x0f\n" +
	"\x04f999\x18\xe7\a \x01(\x0fH\x00\x12\x10\n" +
	"\x05f1003\x18\xeb\a \x01(\x02H\x00B\x04\n" +
	"\x02o0\"\xaf\x01\n" +
	"\x05S10M4\x12\x1a\n" +
	"\x02f2\x18\x02 \x01(\x0e2\a.fxpb.EB\x05\xaa\x01\x02\b\x02\x12\x1e\n" +
	"\af262144\x18\x80\x80\x10 \x01(\v2\v.fxpb.S10M3\x12!\n" +
	"\x03f39\x18' \x03(\v2\x14.fxpb.S10M4.F39Entry\x12\x1b\n" +
	"\x05f1005\x18\xed\a \x03(\v2\v.fxpb.S10M5\x1a*\n" +
	"\bF39Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\x05\x12\r\n" +
	"\x05value\x18\x02 \x01(\x06:\x028\x01\"\x8e\x01\n" +
	"\x05S10M5\x12$\n" +
	"\x04f997\x18\xe5\a \x03(\v2\x15.fxpb.S10M5.F997Entry\x12\n" +
	"\n" +
	"\x02f4\x18\x04 \x01(\x04\x12\x11\n" +
	"\x02f5\x18\x05 \x03(\x03B\x05\xaa\x01\x02\x18\x02\x12\r\n" +
	"\x03f25\x18\x19 \x01(\tH\x00\x1a+\n" +
	"\tF997Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\x05\x12\r\n" +
	"\x05value\x18\x02 \x01(\b:\x028\x01B\x04\n" +
	"\x02o0\"M\n" +
	"\x05S10M6\x12\x16\n" +
	"\n" +
	"f357298165\x18\xf5߯\xaa\x01 \x03(\f\x12\x15\n" +
	"\x02f1\x18\x01 \x01(\x0e2\a.fxpb.EH\x00\x12\x0f\n" +
	"\x04f375\x18\xf7\x02 \x01(\x02H\x00B\x04\n" +
	"\x02o0\"\x96\x01\n" +
	"\x05S11M1\x12\x14\n" +
	"\x04f998\x18\xe6\a \x03(\x03B\x05\xaa\x01\x02\x18\x02\x12\x1f\n" +
	"\x02f9\x18\t \x03(\v2\x13.fxpb.S11M1.F9Entry\x12\x17\n" +
	"\x02f6\x18\x06 \x01(\v2\v.fxpb.S11M2\x12\x12\n" +
	"\x03f10\x18\n" +
	" \x01(\x03B\x05\xaa\x01\x02\b\x02\x1a)\n" +
	"\aF9Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\x0f\x12\r\n" +
	"\x05value\x18\x02 \x01(\f:\x028\x01\"2\n" +
	"\x05S11M2\x12\x15\n" +
	"\x05f1002\x18\xea\a \x01(\aB\x05\xaa\x01\x02\b\x03\x12\f\n" +
	"\x02f3\x18\x03 \x01(\x06H\x00B\x04\n" +
	"\x02o0\"\xc5\x03\n" +
	"\x05S12M1\x12!\n" +
	"\x03f32\x18  \x03(\v2\x14.fxpb.S12M1.F32Entry\x12\x1d\n" +
	"\n" +
	"f536870910\x18\xfe\xff\xff\xff\x01 \x01(\x10B\x05\xaa\x01\x02\b\x02\x12\x1b\n" +
	"\x05f2047\x18\xff\x0f \x01(\v2\v.fxpb.S12M2\x12\x14\n" +
	"\x04f926\x18\x9e\a \x03(\x06B\x05\xaa\x01\x02\x18\x02\x12\x12\n" +
	"\x03f13\x18\r \x01(\rB\x05\xaa\x01\x02\b\x02\x12\x15\n" +
	"\x05f2048\x18\x80\x10 \x01(\x12B\x05\xaa\x01\x02\b\x02\x123\n" +
	"\n" +
	"f536870911\x18\xff\xff\xff\xff\x01 \x03(\v2\x1b.fxpb.S12M1.F536870911Entry\x12\x12\n" +
	"\x03f15\x18\x0f \x01(\rB\x05\xaa\x01\x02\b\x02\x12!\n" +
	"\x03f12\x18\f \x03(\v2\x14.fxpb.S12M1.F12Entry\x12\x18\n" +
	"\x03f35\x18# \x01(\v2\v.fxpb.S12M8\x1a*\n" +
	"\bF32Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\t\x12\r\n" +
	"\x05value\x18\x02 \x01(\x11:\x028\x01\x1a>\n" +
	"\x0fF536870911Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\a\x12\x1a\n" +
	"\x05value\x18\x02 \x01(\v2\v.fxpb.S12M4:\x028\x01\x1a*\n" +
	"\bF12Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\x11\x12\r\n" +
	"\x05value\x18\x02 \x01(\x11:\x028\x01\"#\n" +
	"\x05S12M2\x12\x1a\n" +
	"\x04f528\x18\x90\x04 \x01(\v2\v.fxpb.S12M3\"\x87\x02\n" +
	"\x05S12M3\x12\x16\n" +
	"\n" +
	"f536870911\x18\xff\xff\xff\xff\x01 \x01(\x01\x12\x12\n" +
	"\x03f37\x18% \x01(\x10B\x05\xaa\x01\x02\b\x02\x12\x12\n" +
	"\x03f15\x18\x0f \x01(\x01B\x05\xaa\x01\x02\b\x03\x12\x1f\n" +
	"\x02f8\x18\b \x03(\v2\x13.fxpb.S12M3.F8Entry\x12\v\n" +
	"\x03f38\x18& \x01(\x0f\x12\x0e\n" +
	"\x05f1008\x18\xf0\a \x01(\b\x12\x0e\n" +
	"\x05f1000\x18\xe8\a \x01(\t\x12\x15\n" +
	"\x05f1006\x18\xee\a \x03(\x12B\x05\xaa\x01\x02\x18\x02\x12\x11\n" +
	"\x02f2\x18\x02 \x03(\x01B\x05\xaa\x01\x02\x18\x01\x12\x12\n" +
	"\x03f11\x18\v \x01(\x02B\x05\xaa\x01\x02\b\x02\x1a2\n" +
	"\aF8Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\x04\x12\x16\n" +
	"\x05value\x18\x02 \x01(\x0e2\a.fxpb.E:\x028\x01\"\xa1\x01\n" +
	"\x05S12M4\x12\x12\n" +
	"\x03f38\x18& \x03(\x02B\x05\xaa\x01\x02\x18\x01\x12\x1b\n" +
	"\x05f1006\x18\xee\a \x01(\v2\v.fxpb.S12M5\x12\x17\n" +
	"\x02f8\x18\b \x01(\v2\v.fxpb.S12M7\x12\x1a\n" +
	"\x03f15\x18\x0f \x01(\v2\v.fxpb.S12M6H\x00\x12\x0f\n" +
	"\x04f999\x18\xe7\a \x01(\x11H\x00\x12\r\n" +
	"\x03f10\x18\n" +
	" \x01(\bH\x00\x12\f\n" +
	"\x02f3\x18\x03 \x01(\fH\x00B\x04\n" +
	"\x02o0\"$\n" +
	"\x05S12M5\x12\x1b\n" +
	"\tf33554432\x18\x80\x80\x80\x10 \x01(\aB\x05\xaa\x01\x02\b\x02\"_\n" +
	"\x05S12M6\x12\n" +
	"\n" +
	"\x02f8\x18\b \x01(\x03\x12\x1f\n" +
	"\x02f7\x18\a \x03(\v2\x13.fxpb.S12M6.F7Entry\x1a)\n" +
	"\aF7Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\t\x12\r\n" +
	"\x05value\x18\x02 \x01(\x01:\x028\x01\"f\n" +
	"\x05S12M7\x12\x12\n" +
	"\x03f19\x18\x13 \x03(\x01B\x05\xaa\x01\x02\x18\x01\x12\x12\n" +
	"\x03f23\x18\x17 \x03(\x04B\x05\xaa\x01\x02\x18\x01\x12\v\n" +
	"\x03f10\x18\n" +
	" \x01(\a\x12\x12\n" +
	"\x03f11\x18\v \x01(\bB\x05\xaa\x01\x02\b\x02\x12\x14\n" +
	"\x04f777\x18\x89\x06 \x01(\aB\x05\xaa\x01\x02\b\x02\"\x1a\n" +
	"\x05S12M8\x12\x11\n" +
	"\x02f5\x18\x05 \x01(\x06B\x05\xaa\x01\x02\b\x02\"\xb2\x01\n" +
	"\x05S13M1\x12\x11\n" +
	"\x02f2\x18\x02 \x03(\aB\x05\xaa\x01\x02\x18\x01\x12\x12\n" +
	"\x03f11\x18\v \x03(\x04B\x05\xaa\x01\x02\x18\x01\x12\x14\n" +
	"\x04f516\x18\x84\x04 \x03(\x06B\x05\xaa\x01\x02\x18\x01\x12#\n" +
	"\n" +
	"f529169674\x18\x8a\xfa\xa9\xfc\x01 \x01(\v2\v.fxpb.S13M2\x12\x0f\n" +
	"\x04f960\x18\xc0\a \x01(\rH\x00\x12\f\n" +
	"\x02f6\x18\x06 \x01(\fH\x00\x12\r\n" +
	"\x03f14\x18\x0e \x01(\x02H\x00\x12\r\n" +
	"\x03f15\x18\x0f \x01(\x12H\x01B\x04\n" +
	"\x02o0B\x04\n" +
	"\x02o1\"\xb5\x02\n" +
	"\x05S13M2\x12\x11\n" +
	"\x02f7\x18\a \x03(\aB\x05\xaa\x01\x02\x18\x01\x12\x17\n" +
	"\x02f2\x18\x02 \x01(\v2\v.fxpb.S13M3\x12\x1b\n" +
	"\x03f11\x18\v \x01(\x0e2\a.fxpb.EB\x05\xaa\x01\x02\b\x02\x12$\n" +
	"\x04f920\x18\x98\a \x03(\v2\x15.fxpb.S13M2.F920Entry\x12\x11\n" +
	"\x02f3\x18\x03 \x01(\aB\x05\xaa\x01\x02\b\x02\x12\x14\n" +
	"\x04f700\x18\xbc\x05 \x03(\x01B\x05\xaa\x01\x02\x18\x02\x12!\n" +
	"\x03f19\x18\x13 \x03(\v2\x14.fxpb.S13M2.F19Entry\x1a8\n" +
	"\tF920Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\r\x12\x1a\n" +
	"\x05value\x18\x02 \x01(\v2\v.fxpb.S13M4:\x028\x01\x1a7\n" +
	"\bF19Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\x03\x12\x1a\n" +
	"\x05value\x18\x02 \x01(\v2\v.fxpb.S13M5:\x028\x01\"R\n" +
	"\x05S13M3\x12\x12\n" +
	"\x03f13\x18\r \x01(\x12B\x05\xaa\x01\x02\b\x02\x12\n" +
	"\n" +
	"\x02f2\x18\x02 \x01(\x12\x12\x12\n" +
	"\x03f14\x18\x0e \x03(\x0fB\x05\xaa\x01\x02\x18\x01\x12\x15\n" +
	"\x05f1000\x18\xe8\a \x01(\x02B\x05\xaa\x01\x02\b\x02\"\xf5\x01\n" +
	"\x05S13M4\x12\x1b\n" +
	"\tf88060806\x18\x86\xe7\xfe) \x03(\bB\x05\xaa\x01\x02\x18\x02\x12\x12\n" +
	"\x03f14\x18\x0e \x03(\aB\x05\xaa\x01\x02\x18\x01\x12\x17\n" +
	"\x06f20000\x18\xa0\x9c\x01 \x01(\tB\x05\xaa\x01\x02\b\x02\x12\x12\n" +
	"\x03f11\x18\v \x03(\x12B\x05\xaa\x01\x02\x18\x01\x12\x1e\n" +
	"\x05f1003\x18\xeb\a \x01(\x0e2\a.fxpb.EB\x05\xaa\x01\x02\b\x02\x12\v\n" +
	"\x03f13\x18\r \x01(\x04\x12!\n" +
	"\x03f12\x18\f \x03(\v2\x14.fxpb.S13M4.F12Entry\x12\x12\n" +
	"\x03f35\x18# \x01(\x06B\x05\xaa\x01\x02\b\x02\x1a*\n" +
	"\bF12Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\x05\x12\r\n" +
	"\x05value\x18\x02 \x01(\a:\x028\x01\"q\n" +
	"\x05S13M5\x12\x11\n" +
	"\x02f5\x18\x05 \x03(\x11B\x05\xaa\x01\x02\x18\x01\x12\x15\n" +
	"\n" +
	"f203781525\x18\x95\xeb\x95a \x01(\b\x12\x1d\n" +
	"\n" +
	"f337848773\x18\xc5ӌ\xa1\x01 \x01(\x12B\x05\xaa\x01\x02\b\x02\x12\v\n" +
	"\x03f11\x18\v \x01(\x02\x12\x12\n" +
	"\x03f15\x18\x0f \x01(\aB\x05\xaa\x01\x02\b\x02\"\xd0\x01\n" +
	"\x05S14M1\x12\x18\n" +
	"\x03f35\x18# \x01(\v2\v.fxpb.S14M2\x12\x17\n" +
	"\x02f9\x18\t \x01(\v2\v.fxpb.S14M6\x12\x10\n" +
	"\x06f20000\x18\xa0\x9c\x01 \x01(\b\x12\x12\n" +
	"\x03f21\x18\x15 \x03(\x06B\x05\xaa\x01\x02\x18\x01\x12\x1f\n" +
	"\x02f6\x18\x06 \x03(\v2\x13.fxpb.S14M1.F6Entry\x12\x0f\n" +
	"\x04f647\x18\x87\x05 \x01(\tH\x00\x1a6\n" +
	"\aF6Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\x11\x12\x1a\n" +
	"\x05value\x18\x02 \x01(\v2\v.fxpb.S14M9:\x028\x01B\x04\n" +
	"\x02o0\"\xc3\x01\n" +
	"\x05S14M2\x12\x11\n" +
	"\x02f1\x18\x01 \x03(\x03B\x05\xaa\x01\x02\x18\x01\x12\x14\n" +
	"\x04f378\x18\xfa\x02 \x03(\bB\x05\xaa\x01\x02\x18\x02\x12\v\n" +
	"\x03f14\x18\x0e \x01(\x01\x12\x18\n" +
	"\x03f10\x18\n" +
	" \x01(\v2\v.fxpb.S14M3\x12\x17\n" +
	"\x02f6\x18\x06 \x01(\v2\v.fxpb.S14M4\x12\x11\n" +
	"\x02f9\x18\t \x01(\x12B\x05\xaa\x01\x02\b\x02\x12\x18\n" +
	"\x03f28\x18\x1c \x01(\v2\v.fxpb.S14M5\x12\r\n" +
	"\x03f15\x18\x0f \x01(\tH\x00\x12\x0f\n" +
	"\x04f259\x18\x83\x02 \x01(\x04H\x00B\x04\n" +
	"\x02o0\"\xd2\x01\n" +
	"\x05S14M3\x12\x15\n" +
	"\x05f1004\x18\xec\a \x03(\x11B\x05\xaa\x01\x02\x18\x01\x12\r\n" +
	"\x04f846\x18\xce\x06 \x01(\t\x12\x12\n" +
	"\x03f19\x18\x13 \x03(\aB\x05\xaa\x01\x02\x18\x02\x12\n" +
	"\n" +
	"\x02f8\x18\b \x01(\r\x12\r\n" +
	"\x04f642\x18\x82\x05 \x01(\a\x12!\n" +
	"\x03f58\x18: \x03(\v2\x14.fxpb.S14M3.F58Entry\x12\x11\n" +
	"\x02f9\x18\t \x01(\rB\x05\xaa\x01\x02\b\x02\x12\x12\n" +
	"\x03f30\x18\x1e \x01(\x04B\x05\xaa\x01\x02\b\x02\x1a*\n" +
	"\bF58Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\x05\x12\r\n" +
	"\x05value\x18\x02 \x01(\x11:\x028\x01\"\xe4\x01\n" +
	"\x05S14M4\x12\x12\n" +
	"\x03f14\x18\x0e \x01(\rB\x05\xaa\x01\x02\b\x03\x12\x1f\n" +
	"\x02f2\x18\x02 \x03(\v2\x13.fxpb.S14M4.F2Entry\x12\x11\n" +
	"\x02f3\x18\x03 \x03(\x0fB\x05\xaa\x01\x02\x18\x01\x12\x12\n" +
	"\x03f15\x18\x0f \x01(\x12B\x05\xaa\x01\x02\b\x02\x12\x14\n" +
	"\x04f996\x18\xe4\a \x01(\x11B\x05\xaa\x01\x02\b\x03\x12\r\n" +
	"\x04f887\x18\xf7\x06 \x01(\x03\x12\x1b\n" +
	"\x03f11\x18\v \x01(\x0e2\a.fxpb.EB\x05\xaa\x01\x02\b\x02\x12\x12\n" +
	"\x03f18\x18\x12 \x01(\fB\x05\xaa\x01\x02\b\x03\x1a)\n" +
	"\aF2Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\x11\x12\r\n" +
	"\x05value\x18\x02 \x01(\a:\x028\x01\"4\n" +
	"\x05S14M5\x12\x18\n" +
	"\af262144\x18\x80\x80\x10 \x03(\x12B\x05\xaa\x01\x02\x18\x01\x12\x11\n" +
	"\x02f2\x18\x02 \x01(\bB\x05\xaa\x01\x02\b\x02\"\xb7\x02\n" +
	"\x05S14M6\x12\x1a\n" +
	"\x04f648\x18\x88\x05 \x01(\v2\v.fxpb.S14M7\x12!\n" +
	"\x03f11\x18\v \x03(\v2\x14.fxpb.S14M6.F11Entry\x12\x1d\n" +
	"\x04f208\x18\xd0\x01 \x01(\x0e2\a.fxpb.EB\x05\xaa\x01\x02\b\x02\x12!\n" +
	"\x03f19\x18\x13 \x03(\v2\x14.fxpb.S14M6.F19Entry\x12\x18\n" +
	"\x03f14\x18\x0e \x03(\v2\v.fxpb.S14M8\x12\x19\n" +
	"\x02f5\x18\x05 \x01(\v2\v.fxpb.S14M4H\x00\x12\r\n" +
	"\x03f15\x18\x0f \x01(\x12H\x00\x1a*\n" +
	"\bF11Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\x0f\x12\r\n" +
	"\x05value\x18\x02 \x01(\x12:\x028\x01\x1a7\n" +
	"\bF19Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\x10\x12\x1a\n" +
	"\x05value\x18\x02 \x01(\v2\v.fxpb.S14M3:\x028\x01B\x04\n" +
	"\x02o0\"l\n" +
	"\x05S14M7\x12\n" +
	"\n" +
	"\x02f2\x18\x02 \x01(\x12\x12\x10\n" +
	"\x06f18999\x18\xb7\x94\x01 \x01(\x06\x12\x12\n" +
	"\x03f11\x18\v \x03(\x10B\x05\xaa\x01\x02\x18\x01\x12\r\n" +
	"\x04f340\x18\xd4\x02 \x01(\b\x12\x12\n" +
	"\x03f12\x18\f \x03(\rB\x05\xaa\x01\x02\x18\x01\x12\x0e\n" +
	"\x05f2048\x18\x80\x10 \x01(\r\"x\n" +
	"\x05S14M8\x12\x11\n" +
	"\x02f5\x18\x05 \x03(\x06B\x05\xaa\x01\x02\x18\x01\x12\n" +
	"\n" +
	"\x02f4\x18\x04 \x01(\b\x12\x15\n" +
	"\x05f1000\x18\xe8\a \x01(\rB\x05\xaa\x01\x02\b\x02\x12\x11\n" +
	"\x02f3\x18\x03 \x01(\rB\x05\xaa\x01\x02\b\x02\x12\x0e\n" +
	"\x05f1002\x18\xea\a \x01(\x05\x12\x10\n" +
	"\x05f2047\x18\xff\x0f \x01(\x06H\x00B\x04\n" +
	"\x02o0\"\xae\x01\n" +
	"\x05S14M9\x12\x11\n" +
	"\x02f6\x18\x06 \x01(\bB\x05\xaa\x01\x02\b\x02\x12&\n" +
	"\x05f2047\x18\xff\x0f \x03(\v2\x16.fxpb.S14M9.F2047Entry\x12\x12\n" +
	"\x03f13\x18\r \x01(\rB\x05\xaa\x01\x02\b\x02\x12\x12\n" +
	"\x03f21\x18\x15 \x01(\tB\x05\xaa\x01\x02\b\x02\x12\x14\n" +
	"\x04f868\x18\xe4\x06 \x03(\x12B\x05\xaa\x01\x02\x18\x01\x1a,\n" +
	"\n" +
	"F2047Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\x11\x12\r\n" +
	"\x05value\x18\x02 \x01(\x01:\x028\x01\"\xb5\x02\n" +
	"\x05S15M1\x12\n" +
	"\n" +
	"\x02f3\x18\x03 \x01(\r\x12\x17\n" +
	"\x02f2\x18\x02 \x01(\v2\v.fxpb.S15M2\x12!\n" +
	"\x03f21\x18\x15 \x03(\v2\x14.fxpb.S15M1.F21Entry\x12$\n" +
	"\x04f735\x18\xdf\x05 \x03(\v2\x15.fxpb.S15M1.F735Entry\x12\x18\n" +
	"\af262143\x18\xff\xff\x0f \x03(\x03B\x05\xaa\x01\x02\x18\x01\x12\x1b\n" +
	"\tf33554431\x18\xff\xff\xff\x0f \x01(\x12B\x05\xaa\x01\x02\b\x03\x12\x0e\n" +
	"\x04f124\x18| \x01(\x05H\x00\x12\x18\n" +
	"\n" +
	"f536870911\x18\xff\xff\xff\xff\x01 \x01(\fH\x00\x1a*\n" +
	"\bF21Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\x0f\x12\r\n" +
	"\x05value\x18\x02 \x01(\x06:\x028\x01\x1a+\n" +
	"\tF735Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\a\x12\r\n" +
	"\x05value\x18\x02 \x01(\x11:\x028\x01B\x04\n" +
	"\x02o0\"i\n" +
	"\x05S15M2\x12\x1f\n" +
	"\x02f2\x18\x02 \x03(\v2\x13.fxpb.S15M2.F2Entry\x12\x14\n" +
	"\x04f904\x18\x88\a \x01(\x11B\x05\xaa\x01\x02\b\x02\x1a)\n" +
	"\aF2Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\a\x12\r\n" +
	"\x05value\x18\x02 \x01(\x10:\x028\x01\"\a\n" +
	"\x05S16M1\"\x88\x02\n" +
	"\x05S17M1\x12\x16\n" +
	"\n" +
	"f379689147\x18\xbb\xb1\x86\xb5\x01 \x01(\f\x12\x17\n" +
	"\x02f7\x18\a \x01(\v2\v.fxpb.S17M2\x12\x1f\n" +
	"\x02f9\x18\t \x03(\v2\x13.fxpb.S17M1.F9Entry\x12\x15\n" +
	"\x05f2048\x18\x80\x10 \x03(\aB\x05\xaa\x01\x02\x18\x01\x12\x1b\n" +
	"\x05f1002\x18\xea\a \x01(\v2\v.fxpb.S17M4\x12\x0e\n" +
	"\x05f1003\x18\xeb\a \x01(\x05\x12\r\n" +
	"\x03f12\x18\f \x01(\x0fH\x00\x12\r\n" +
	"\x03f13\x18\r \x01(\fH\x00\x12\r\n" +
	"\x03f10\x18\n" +
	" \x01(\x01H\x00\x1a6\n" +
	"\aF9Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\x05\x12\x1a\n" +
	"\x05value\x18\x02 \x01(\v2\v.fxpb.S17M3:\x028\x01B\x04\n" +
	"\x02o0\"\x94\x01\n" +
	"\x05S17M2\x12\x11\n" +
	"\x02f2\x18\x02 \x01(\x02B\x05\xaa\x01\x02\b\x02\x12\n" +
	"\n" +
	"\x02f9\x18\t \x01(\f\x12\r\n" +
	"\x04f141\x18\x8d\x01 \x01(\x02\x12\x1f\n" +
	"\x02f6\x18\x06 \x03(\v2\x13.fxpb.S17M2.F6Entry\x12\x11\n" +
	"\x02f5\x18\x05 \x01(\x0fB\x05\xaa\x01\x02\b\x03\x1a)\n" +
	"\aF6Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\x0f\x12\r\n" +
	"\x05value\x18\x02 \x01(\x04:\x028\x01\"\a\n" +
	"\x05S17M3\"\xcd\x01\n" +
	"\x05S17M4\x12\x15\n" +
	"\x05f1002\x18\xea\a \x01(\tB\x05\xaa\x01\x02\b\x02\x12$\n" +
	"\x04f860\x18\xdc\x06 \x03(\v2\x15.fxpb.S17M4.F860Entry\x12!\n" +
	"\x03f10\x18\n" +
	" \x03(\v2\x14.fxpb.S17M4.F10Entry\x1a+\n" +
	"\tF860Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\r\x12\r\n" +
	"\x05value\x18\x02 \x01(\x02:\x028\x01\x1a7\n" +
	"\bF10Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\x11\x12\x1a\n" +
	"\x05value\x18\x02 \x01(\v2\v.fxpb.S17M2:\x028\x01\"\xd7\x01\n" +
	"\x05S18M1\x12\x11\n" +
	"\x02f5\x18\x05 \x01(\tB\x05\xaa\x01\x02\b\x02\x12\v\n" +
	"\x03f10\x18\n" +
	" \x01(\x01\x12\x18\n" +
	"\x03f11\x18\v \x01(\v2\v.fxpb.S18M2\x12\x14\n" +
	"\x04f911\x18\x8f\a \x03(\aB\x05\xaa\x01\x02\x18\x01\x12&\n" +
	"\x05f1001\x18\xe9\a \x03(\v2\x16.fxpb.S18M1.F1001Entry\x12\x11\n" +
	"\x02f8\x18\b \x01(\x01B\x05\xaa\x01\x02\b\x03\x12\x15\n" +
	"\x05f2047\x18\xff\x0f \x03(\x02B\x05\xaa\x01\x02\x18\x01\x1a,\n" +
	"\n" +
	"F1001Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\b\x12\r\n" +
	"\x05value\x18\x02 \x01(\a:\x028\x01\"^\n" +
	"\x05S18M2\x12\x12\n" +
	"\x03f11\x18\v \x03(\x06B\x05\xaa\x01\x02\x18\x02\x12\x11\n" +
	"\x02f6\x18\x06 \x01(\aB\x05\xaa\x01\x02\b\x02\x12\x11\n" +
	"\x02f1\x18\x01 \x01(\x10B\x05\xaa\x01\x02\b\x02\x12\x1b\n" +
	"\tf33554431\x18\xff\xff\xff\x0f \x01(\fB\x05\xaa\x01\x02\b\x02\"\xa9\x01\n" +
	"\x05S19M1\x12\x1e\n" +
	"\af262143\x18\xff\xff\x0f \x01(\v2\v.fxpb.S19M2\x12\x12\n" +
	"\x03f13\x18\r \x03(\x03B\x05\xaa\x01\x02\x18\x02\x12\x0e\n" +
	"\x05f1004\x18\xec\a \x01(\x02\x12\x12\n" +
	"\x03f35\x18# \x01(\x06B\x05\xaa\x01\x02\b\x02\x12\x18\n" +
	"\af262145\x18\x81\x80\x10 \x03(\aB\x05\xaa\x01\x02\x18\x02\x12\x13\n" +
	"\x04f117\x18u \x01(\x04B\x05\xaa\x01\x02\b\x02\x12\x13\n" +
	"\af262144\x18\x80\x80\x10 \x01(\x10H\x00B\x04\n" +
	"\x02o0\"\xd5\x01\n" +
	"\x05S19M2\x123\n" +
	"\n" +
	"f517791607\x18\xf7\xbe\xf3\xf6\x01 \x03(\v2\x1b.fxpb.S19M2.F517791607Entry\x12\x1f\n" +
	"\x02f8\x18\b \x03(\v2\x13.fxpb.S19M2.F8Entry\x1a>\n" +
	"\x0fF517791607Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\x06\x12\x1a\n" +
	"\x05value\x18\x02 \x01(\v2\v.fxpb.S19M3:\x028\x01\x1a6\n" +
	"\aF8Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\a\x12\x1a\n" +
	"\x05value\x18\x02 \x01(\v2\v.fxpb.S19M4:\x028\x01\"\x1d\n" +
	"\x05S19M3\x12\x14\n" +
	"\x04f292\x18\xa4\x02 \x01(\x04B\x05\xaa\x01\x02\b\x03\"\a\n" +
	"\x05S19M4\"\a\n" +
	"\x05S20M1\"\x95\x02\n" +
	"\x05S21M1\x12!\n" +
	"\x03f12\x18\f \x03(\v2\x14.fxpb.S21M1.F12Entry\x12\x16\n" +
	"\n" +
	"f439665010\x18\xf2\x82\xd3\xd1\x01 \x01(\x0f\x12\x1d\n" +
	"\x06f18999\x18\xb7\x94\x01 \x03(\v2\v.fxpb.S21M2\x12\"\n" +
	"\n" +
	"f181823282\x18\xb2\xce\xd9V \x03(\v2\v.fxpb.S21M4\x12\x18\n" +
	"\x03f13\x18\r \x01(\v2\v.fxpb.S21M7\x12\x17\n" +
	"\x06f20000\x18\xa0\x9c\x01 \x03(\x02B\x05\xaa\x01\x02\x18\x02\x12\x18\n" +
	"\x03f15\x18\x0f \x03(\v2\v.fxpb.S21M2\x12\x15\n" +
	"\x05f1000\x18\xe8\a \x01(\bB\x05\xaa\x01\x02\b\x02\x1a*\n" +
	"\bF12Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\x05\x12\r\n" +
	"\x05value\x18\x02 \x01(\x11:\x028\x01\"/\n" +
	"\x05S21M2\x12\x1a\n" +
	"\x04f188\x18\xbc\x01 \x03(\v2\v.fxpb.S21M3\x12\n" +
	"\n" +
	"\x02f6\x18\x06 \x01(\t\"\x9e\x01\n" +
	"\x05S21M3\x12\v\n" +
	"\x03f12\x18\f \x01(\x10\x12\v\n" +
	"\x03f10\x18\n" +
	" \x01(\x05\x12\x1b\n" +
	"\x03f13\x18\r \x03(\x0e2\a.fxpb.EB\x05\xaa\x01\x02\x18\x02\x12\x12\n" +
	"\x03f14\x18\x0e \x03(\x06B\x05\xaa\x01\x02\x18\x02\x12\x1f\n" +
	"\x02f5\x18\x05 \x03(\v2\x13.fxpb.S21M3.F5Entry\x1a)\n" +
	"\aF5Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\x05\x12\r\n" +
	"\x05value\x18\x02 \x01(\b:\x028\x01\"\xdc\x01\n" +
	"\x05S21M4\x12\v\n" +
	"\x03f21\x18\x15 \x01(\t\x12\x1b\n" +
	"\x05f1000\x18\xe8\a \x03(\v2\v.fxpb.S21M3\x12\x14\n" +
	"\x04f367\x18\xef\x02 \x01(\x12B\x05\xaa\x01\x02\b\x02\x12\x18\n" +
	"\af262143\x18\xff\xff\x0f \x01(\rB\x05\xaa\x01\x02\b\x02\x12\x18\n" +
	"\x03f13\x18\r \x03(\v2\v.fxpb.S21M3\x12\x11\n" +
	"\x02f1\x18\x01 \x03(\x01B\x05\xaa\x01\x02\x18\x01\x12\x18\n" +
	"\x03f27\x18\x1b \x03(\v2\v.fxpb.S21M5\x12\x15\n" +
	"\x05f1003\x18\xeb\a \x01(\x06B\x05\xaa\x01\x02\b\x03\x12\x1b\n" +
	"\x05f1005\x18\xed\a \x01(\v2\v.fxpb.S21M6\"\xdf\x01\n" +
	"\x05S21M5\x12\x0e\n" +
	"\x05f2048\x18\x80\x10 \x03(\t\x12$\n" +
	"\x04f865\x18\xe1\x06 \x03(\v2\x15.fxpb.S21M5.F865Entry\x12\n" +
	"\n" +
	"\x02f4\x18\x04 \x01(\t\x12\x11\n" +
	"\af262144\x18\x80\x80\x10 \x01(\f\x12\x12\n" +
	"\x03f15\x18\x0f \x01(\x0fB\x05\xaa\x01\x02\b\x03\x12\x14\n" +
	"\x04f675\x18\xa3\x05 \x03(\x05B\x05\xaa\x01\x02\x18\x02\x12\x14\n" +
	"\x04f142\x18\x8e\x01 \x01(\x05B\x05\xaa\x01\x02\b\x02\x12\x14\n" +
	"\x04f149\x18\x95\x01 \x01(\x03B\x05\xaa\x01\x02\b\x02\x1a+\n" +
	"\tF865Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\x12\x12\r\n" +
	"\x05value\x18\x02 \x01(\x12:\x028\x01\"\xd7\x02\n" +
	"\x05S21M6\x12\v\n" +
	"\x03f10\x18\n" +
	" \x01(\x06\x12)\n" +
	"\x06f20000\x18\xa0\x9c\x01 \x03(\v2\x17.fxpb.S21M6.F20000Entry\x12\x1c\n" +
	"\n" +
	"f243096375\x18\xb7\xb6\xf5s \x03(\x01B\x05\xaa\x01\x02\x18\x01\x120\n" +
	"\tf33554432\x18\x80\x80\x80\x10 \x03(\v2\x1a.fxpb.S21M6.F33554432Entry\x12\x1d\n" +
	"\n" +
	"f536870911\x18\xff\xff\xff\xff\x01 \x01(\x05B\x05\xaa\x01\x02\b\x02\x12\x12\n" +
	"\x03f11\x18\v \x03(\x03B\x05\xaa\x01\x02\x18\x02\x12\x0f\n" +
	"\x04f354\x18\xe2\x02 \x01(\aH\x00\x12\r\n" +
	"\x03f33\x18! \x01(\x12H\x00\x12\f\n" +
	"\x02f2\x18\x02 \x01(\x01H\x00\x1a-\n" +
	"\vF20000Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\x03\x12\r\n" +
	"\x05value\x18\x02 \x01(\x12:\x028\x01\x1a0\n" +
	"\x0eF33554432Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\x03\x12\r\n" +
	"\x05value\x18\x02 \x01(\x03:\x028\x01B\x04\n" +
	"\x02o0\"\x8e\x03\n" +
	"\x05S21M7\x12\x1f\n" +
	"\x02f3\x18\x03 \x03(\v2\x13.fxpb.S21M7.F3Entry\x12\x1f\n" +
	"\x02f4\x18\x04 \x03(\v2\x13.fxpb.S21M7.F4Entry\x12!\n" +
	"\x03f34\x18\" \x03(\v2\x14.fxpb.S21M7.F34Entry\x12\x17\n" +
	"\x02f5\x18\x05 \x01(\v2\v.fxpb.S21M9\x12\x15\n" +
	"\x05f1004\x18\xec\a \x03(\x10B\x05\xaa\x01\x02\x18\x01\x12\x14\n" +
	"\x04f341\x18\xd5\x02 \x01(\x0fB\x05\xaa\x01\x02\b\x02\x12\x11\n" +
	"\x02f9\x18\t \x03(\bB\x05\xaa\x01\x02\x18\x01\x12\x18\n" +
	"\x02f6\x18\x06 \x01(\v2\f.fxpb.S21M10\x12\x1e\n" +
	"\x06f18999\x18\xb7\x94\x01 \x01(\v2\f.fxpb.S21M11\x1a)\n" +
	"\aF3Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\t\x12\r\n" +
	"\x05value\x18\x02 \x01(\b:\x028\x01\x1a)\n" +
	"\aF4Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\x10\x12\r\n" +
	"\x05value\x18\x02 \x01(\a:\x028\x01\x1a7\n" +
	"\bF34Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\a\x12\x1a\n" +
	"\x05value\x18\x02 \x01(\v2\v.fxpb.S21M8:\x028\x01\"\x14\n" +
	"\x05S21M8\x12\v\n" +
	"\x03f10\x18\n" +
	" \x03(\t\"8\n" +
	"\x05S21M9\x12\x11\n" +
	"\x02f3\x18\x03 \x03(\bB\x05\xaa\x01\x02\x18\x01\x12\x1c\n" +
	"\n" +
	"f231191318\x18\x96\xe6\x9en \x03(\x12B\x05\xaa\x01\x02\x18\x01\"\x92\x01\n" +
	"\x06S21M10\x12\n" +
	"\n" +
	"\x02f6\x18\x06 \x01(\x06\x12\x14\n" +
	"\x04f999\x18\xe7\a \x01(\x05B\x05\xaa\x01\x02\b\x02\x12%\n" +
	"\x04f400\x18\x90\x03 \x03(\v2\x16.fxpb.S21M10.F400Entry\x12\f\n" +
	"\x02f9\x18\t \x01(\x01H\x00\x1a+\n" +
	"\tF400Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\x03\x12\r\n" +
	"\x05value\x18\x02 \x01(\x10:\x028\x01B\x04\n" +
	"\x02o0\"\xaf\x02\n" +
	"\x06S21M11\x12\x14\n" +
	"\x04f303\x18\xaf\x02 \x01(\aB\x05\xaa\x01\x02\b\x02\x12\x11\n" +
	"\x02f1\x18\x01 \x03(\x11B\x05\xaa\x01\x02\x18\x01\x12\"\n" +
	"\x03f27\x18\x1b \x03(\v2\x15.fxpb.S21M11.F27Entry\x12\x12\n" +
	"\x03f16\x18\x10 \x01(\x0fB\x05\xaa\x01\x02\b\x03\x12\x12\n" +
	"\x03f13\x18\r \x01(\fB\x05\xaa\x01\x02\b\x02\x12\x14\n" +
	"\x04f874\x18\xea\x06 \x03(\x10B\x05\xaa\x01\x02\x18\x01\x12 \n" +
	"\x02f4\x18\x04 \x03(\v2\x14.fxpb.S21M11.F4Entry\x12\r\n" +
	"\x03f15\x18\x0f \x01(\fH\x00\x12\f\n" +
	"\x02f2\x18\x02 \x01(\x04H\x00\x1a*\n" +
	"\bF27Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\b\x12\r\n" +
	"\x05value\x18\x02 \x01(\x02:\x028\x01\x1a)\n" +
	"\aF4Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\r\x12\r\n" +
	"\x05value\x18\x02 \x01(\t:\x028\x01B\x04\n" +
	"\x02o0\"\xfa\x02\n" +
	"\x05S22M1\x12!\n" +
	"\x03f11\x18\v \x03(\v2\x14.fxpb.S22M1.F11Entry\x12\x14\n" +
	"\x04f576\x18\xc0\x04 \x01(\x05B\x05\xaa\x01\x02\b\x02\x12$\n" +
	"\x04f448\x18\xc0\x03 \x03(\v2\x15.fxpb.S22M1.F448Entry\x12\x1f\n" +
	"\x02f5\x18\x05 \x03(\v2\x13.fxpb.S22M1.F5Entry\x12\x14\n" +
	"\x04f741\x18\xe5\x05 \x03(\x04B\x05\xaa\x01\x02\x18\x01\x12\x1f\n" +
	"\x02f2\x18\x02 \x03(\v2\x13.fxpb.S22M1.F2Entry\x1a7\n" +
	"\bF11Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\x0f\x12\x1a\n" +
	"\x05value\x18\x02 \x01(\v2\v.fxpb.S22M2:\x028\x01\x1a+\n" +
	"\tF448Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\x10\x12\r\n" +
	"\x05value\x18\x02 \x01(\t:\x028\x01\x1a)\n" +
	"\aF5Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\x12\x12\r\n" +
	"\x05value\x18\x02 \x01(\r:\x028\x01\x1a)\n" +
	"\aF2Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\b\x12\r\n" +
	"\x05value\x18\x02 \x01(\b:\x028\x01\",\n" +
	"\x05S22M2\x12#\n" +
	"\n" +
	"f365394437\x18\x85\xf4\x9d\xae\x01 \x01(\v2\v.fxpb.S22M3\"\xcc\x02\n" +
	"\x05S22M3\x12\n" +
	"\n" +
	"\x02f6\x18\x06 \x01(\b\x12\x16\n" +
	"\n" +
	"f457905322\x18\xaa\xa9\xac\xda\x01 \x01(\x06\x12$\n" +
	"\x04f910\x18\x8e\a \x03(\v2\x15.fxpb.S22M3.F910Entry\x12&\n" +
	"\x05f1005\x18\xed\a \x03(\v2\x16.fxpb.S22M3.F1005Entry\x12\x18\n" +
	"\af262144\x18\x80\x80\x10 \x01(\x04B\x05\xaa\x01\x02\b\x02\x12\x1f\n" +
	"\x02f3\x18\x03 \x03(\v2\x13.fxpb.S22M3.F3Entry\x1a+\n" +
	"\tF910Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\b\x12\r\n" +
	"\x05value\x18\x02 \x01(\x06:\x028\x01\x1a5\n" +
	"\n" +
	"F1005Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\a\x12\x16\n" +
	"\x05value\x18\x02 \x01(\x0e2\a.fxpb.E:\x028\x01\x1a2\n" +
	"\aF3Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\x0f\x12\x16\n" +
	"\x05value\x18\x02 \x01(\x0e2\a.fxpb.E:\x028\x01\"\x1b\n" +
	"\x05S23M1\x12\x12\n" +
	"\x03f15\x18\x0f \x01(\bB\x05\xaa\x01\x02\b\x02\"\xbf\x03\n" +
	"\x05S24M1\x12\x1e\n" +
	"\x05f1006\x18\xee\a \x01(\x0e2\a.fxpb.EB\x05\xaa\x01\x02\b\x02\x12\x1a\n" +
	"\x04f326\x18\xc6\x02 \x01(\v2\v.fxpb.S24M2\x12\x1f\n" +
	"\x02f4\x18\x04 \x03(\v2\x13.fxpb.S24M1.F4Entry\x12\x1f\n" +
	"\x02f3\x18\x03 \x03(\v2\x13.fxpb.S24M1.F3Entry\x12!\n" +
	"\x03f18\x18\x12 \x03(\v2\x14.fxpb.S24M1.F18Entry\x12\x18\n" +
	"\x03f71\x18G \x01(\v2\v.fxpb.S24M5\x12\x1d\n" +
	"\x04f999\x18\xe7\a \x03(\x0e2\a.fxpb.EB\x05\xaa\x01\x02\x18\x02\x12\v\n" +
	"\x03f33\x18! \x03(\f\x12\x1b\n" +
	"\x05f1003\x18\xeb\a \x03(\v2\v.fxpb.S24M9\x12\x10\n" +
	"\x05f1000\x18\xe8\a \x01(\x01H\x00\x1a6\n" +
	"\aF4Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\x03\x12\x1a\n" +
	"\x05value\x18\x02 \x01(\v2\v.fxpb.S24M5:\x028\x01\x1a)\n" +
	"\aF3Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\x10\x12\r\n" +
	"\x05value\x18\x02 \x01(\x01:\x028\x01\x1a7\n" +
	"\bF18Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\x0f\x12\x1a\n" +
	"\x05value\x18\x02 \x01(\v2\v.fxpb.S24M6:\x028\x01B\x04\n" +
	"\x02o0\"\x85\x02\n" +
	"\x05S24M2\x12\x17\n" +
	"\x02f7\x18\a \x03(\v2\v.fxpb.S24M3\x12\x16\n" +
	"\x04f481\x18\xe1\x03 \x01(\x0e2\a.fxpb.E\x12\n" +
	"\n" +
	"\x02f5\x18\x05 \x01(\x06\x12\x1f\n" +
	"\x02f4\x18\x04 \x03(\v2\x13.fxpb.S24M2.F4Entry\x12\x1d\n" +
	"\x06f20000\x18\xa0\x9c\x01 \x01(\v2\v.fxpb.S24M4\x12&\n" +
	"\x05f2047\x18\xff\x0f \x03(\v2\x16.fxpb.S24M2.F2047Entry\x1a)\n" +
	"\aF4Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\x11\x12\r\n" +
	"\x05value\x18\x02 \x01(\x12:\x028\x01\x1a,\n" +
	"\n" +
	"F2047Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\r\x12\r\n" +
	"\x05value\x18\x02 \x01(\x04:\x028\x01\"]\n" +
	"\x05S24M3\x12&\n" +
	"\x05f1013\x18\xf5\a \x03(\v2\x16.fxpb.S24M3.F1013Entry\x1a,\n" +
	"\n" +
	"F1013Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\x03\x12\r\n" +
	"\x05value\x18\x02 \x01(\b:\x028\x01\"Z\n" +
	"\x05S24M4\x12\x14\n" +
	"\x04f877\x18\xed\x06 \x01(\x11B\x05\xaa\x01\x02\b\x02\x12\r\n" +
	"\x04f628\x18\xf4\x04 \x01(\t\x12\x14\n" +
	"\x04f388\x18\x84\x03 \x01(\aB\x05\xaa\x01\x02\b\x02\x12\x10\n" +
	"\x05f1005\x18\xed\a \x01(\rH\x00B\x04\n" +
	"\x02o0\"k\n" +
	"\x05S24M5\x12\x11\n" +
	"\x02f4\x18\x04 \x03(\aB\x05\xaa\x01\x02\x18\x01\x12\x11\n" +
	"\x02f8\x18\b \x03(\x06B\x05\xaa\x01\x02\x18\x01\x12\r\n" +
	"\x04f998\x18\xe6\a \x03(\t\x12\x15\n" +
	"\x05f1002\x18\xea\a \x03(\x03B\x05\xaa\x01\x02\x18\x02\x12\x10\n" +
	"\x05f1003\x18\xeb\a \x01(\fH\x00B\x04\n" +
	"\x02o0\"\x9d\x01\n" +
	"\x05S24M6\x12\x1f\n" +
	"\x02f1\x18\x01 \x03(\v2\x13.fxpb.S24M6.F1Entry\x12\x18\n" +
	"\x03f15\x18\x0f \x01(\v2\v.fxpb.S24M8\x12\r\n" +
	"\x03f14\x18\x0e \x01(\fH\x00\x12\f\n" +
	"\x02f4\x18\x04 \x01(\x12H\x00\x1a6\n" +
	"\aF1Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\x10\x12\x1a\n" +
	"\x05value\x18\x02 \x01(\v2\v.fxpb.S24M7:\x028\x01B\x04\n" +
	"\x02o0\"\x92\x01\n" +
	"\x05S24M7\x12\x14\n" +
	"\x04f511\x18\xff\x03 \x03(\x06B\x05\xaa\x01\x02\x18\x02\x12\x11\n" +
	"\x02f6\x18\x06 \x03(\rB\x05\xaa\x01\x02\x18\x02\x12\x16\n" +
	"\n" +
	"f536870910\x18\xfe\xff\xff\xff\x01 \x01(\x0f\x12\x11\n" +
	"\af262144\x18\x80\x80\x10 \x01(\x12\x12\x11\n" +
	"\x02f9\x18\t \x03(\x11B\x05\xaa\x01\x02\x18\x02\x12\r\n" +
	"\x03f12\x18\f \x01(\x05H\x00\x12\r\n" +
	"\x03f13\x18\r \x01(\bH\x00B\x04\n" +
	"\x02o0\"\x14\n" +
	"\x05S24M8\x12\v\n" +
	"\x03f31\x18\x1f \x01(\x0f\"\xef\x01\n" +
	"\x05S24M9\x12\x1f\n" +
	"\x02f7\x18\a \x03(\v2\x13.fxpb.S24M9.F7Entry\x12\n" +
	"\n" +
	"\x02f9\x18\t \x01(\x0f\x12\x1d\n" +
	"\n" +
	"f536870911\x18\xff\xff\xff\xff\x01 \x01(\aB\x05\xaa\x01\x02\b\x02\x12\x12\n" +
	"\x03f11\x18\v \x01(\x05B\x05\xaa\x01\x02\b\x03\x12\x15\n" +
	"\x05f1006\x18\xee\a \x03(\x11B\x05\xaa\x01\x02\x18\x01\x12\x12\n" +
	"\x03f25\x18\x19 \x01(\x06B\x05\xaa\x01\x02\b\x02\x12\x1b\n" +
	"\x03f26\x18\x1a \x01(\v2\f.fxpb.S24M10H\x00\x12\r\n" +
	"\x03f10\x18\n" +
	" \x01(\fH\x00\x1a)\n" +
	"\aF7Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\x05\x12\r\n" +
	"\x05value\x18\x02 \x01(\x03:\x028\x01B\x04\n" +
	"\x02o0\"\xd2\x01\n" +
	"\x06S24M10\x12\v\n" +
	"\x03f15\x18\x0f \x01(\t\x12 \n" +
	"\x02f6\x18\x06 \x03(\v2\x14.fxpb.S24M10.F6Entry\x12\x12\n" +
	"\x03f11\x18\v \x03(\x0fB\x05\xaa\x01\x02\x18\x01\x12\x11\n" +
	"\x02f4\x18\x04 \x03(\x12B\x05\xaa\x01\x02\x18\x02\x12\v\n" +
	"\x03f24\x18\x18 \x01(\x12\x12\x11\n" +
	"\x02f1\x18\x01 \x01(\fB\x05\xaa\x01\x02\b\x02\x12\r\n" +
	"\x03f40\x18( \x01(\tH\x00\x12\f\n" +
	"\x02f3\x18\x03 \x01(\x01H\x01\x1a)\n" +
	"\aF6Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\x06\x12\r\n" +
	"\x05value\x18\x02 \x01(\f:\x028\x01B\x04\n" +
	"\x02o0B\x04\n" +
	"\x02o1\"\x16\n" +
	"\x05S25M1\x12\r\n" +
	"\x04f310\x18\xb6\x02 \x01(\a\"\xad\x02\n" +
	"\x05S26M1\x12\v\n" +
	"\x03f13\x18\r \x01(\b\x12\x1f\n" +
	"\x02f2\x18\x02 \x03(\v2\x13.fxpb.S26M1.F2Entry\x12\x16\n" +
	"\n" +
	"f468529711\x18\xaf\xe4\xb4\xdf\x01 \x01(\f\x12#\n" +
	"\x04f104\x18h \x03(\v2\x15.fxpb.S26M1.F104Entry\x12\x12\n" +
	"\x03f22\x18\x16 \x03(\x01B\x05\xaa\x01\x02\x18\x02\x12!\n" +
	"\x03f38\x18& \x03(\v2\x14.fxpb.S26M1.F38Entry\x1a)\n" +
	"\aF2Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\x03\x12\r\n" +
	"\x05value\x18\x02 \x01(\t:\x028\x01\x1a+\n" +
	"\tF104Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\x10\x12\r\n" +
	"\x05value\x18\x02 \x01(\x05:\x028\x01\x1a*\n" +
	"\bF38Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\x05\x12\r\n" +
	"\x05value\x18\x02 \x01(\x04:\x028\x01\"Z\n" +
	"\x05S27M1\x12$\n" +
	"\x04f618\x18\xea\x04 \x03(\v2\x15.fxpb.S27M1.F618Entry\x1a+\n" +
	"\tF618Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\x05\x12\r\n" +
	"\x05value\x18\x02 \x01(\f:\x028\x01\"\a\n" +
	"\x05S28M1\"C\n" +
	"\x05S29M1\x12\n" +
	"\n" +
	"\x02f8\x18\b \x01(\x01\x12\x1b\n" +
	"\x03f12\x18\f \x03(\x0e2\a.fxpb.EB\x05\xaa\x01\x02\x18\x01\x12\x11\n" +
	"\x02f2\x18\x02 \x03(\x12B\x05\xaa\x01\x02\x18\x01\"\x13\n" +
	"\x05S30M1\x12\n" +
	"\n" +
	"\x02f8\x18\b \x01(\x06\"\xd3\x02\n" +
	"\x05S31M1\x12!\n" +
	"\x03f12\x18\f \x03(\v2\x14.fxpb.S31M1.F12Entry\x12\n" +
	"\n" +
	"\x02f3\x18\x03 \x01(\x06\x12\x1f\n" +
	"\x02f9\x18\t \x03(\v2\x13.fxpb.S31M1.F9Entry\x12\x1b\n" +
	"\tf33554433\x18\x81\x80\x80\x10 \x03(\x03B\x05\xaa\x01\x02\x18\x01\x12\x18\n" +
	"\x03f13\x18\r \x01(\v2\v.fxpb.S31M4\x12\r\n" +
	"\x03f15\x18\x0f \x01(\x01H\x00\x12\r\n" +
	"\x03f22\x18\x16 \x01(\x0fH\x00\x12#\n" +
	"\tf33554432\x18\x80\x80\x80\x10 \x01(\v2\v.fxpb.S31M2H\x01\x12\x0f\n" +
	"\x04f996\x18\xe4\a \x01(\x0fH\x01\x12\f\n" +
	"\x02f2\x18\x02 \x01(\x06H\x01\x1a*\n" +
	"\bF12Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\x05\x12\r\n" +
	"\x05value\x18\x02 \x01(\x12:\x028\x01\x1a)\n" +
	"\aF9Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\x06\x12\r\n" +
	"\x05value\x18\x02 \x01(\a:\x028\x01B\x04\n" +
	"\x02o0B\x04\n" +
	"\x02o1\"\x97\x01\n" +
	"\x05S31M2\x12\x12\n" +
	"\x03f14\x18\x0e \x03(\bB\x05\xaa\x01\x02\x18\x02\x12\x18\n" +
	"\x03f15\x18\x0f \x01(\v2\v.fxpb.S31M3\x12!\n" +
	"\x03f12\x18\f \x03(\v2\x14.fxpb.S31M2.F12Entry\x12\x11\n" +
	"\x02f4\x18\x04 \x01(\rB\x05\xaa\x01\x02\b\x02\x1a*\n" +
	"\bF12Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\x10\x12\r\n" +
	"\x05value\x18\x02 \x01(\x05:\x028\x01\"2\n" +
	"\x05S31M3\x12\x12\n" +
	"\x03f15\x18\x0f \x03(\bB\x05\xaa\x01\x02\x18\x02\x12\x0f\n" +
	"\x04f840\x18\xc8\x06 \x01(\bH\x00B\x04\n" +
	"\x02o0\"c\n" +
	"\x05S31M4\x12\x12\n" +
	"\x03f28\x18\x1c \x01(\x01B\x05\xaa\x01\x02\b\x02\x12#\n" +
	"\n" +
	"f535736848\x18\x90\xe4\xba\xff\x01 \x01(\v2\v.fxpb.S31M5\x12\n" +
	"\n" +
	"\x02f4\x18\x04 \x01(\a\x12\x0f\n" +
	"\x04f846\x18\xce\x06 \x01(\x03H\x00B\x04\n" +
	"\x02o0\"r\n" +
	"\x05S31M5\x12\x18\n" +
	"\af262144\x18\x80\x80\x10 \x03(\x01B\x05\xaa\x01\x02\x18\x02\x12\x14\n" +
	"\x04f234\x18\xea\x01 \x03(\x11B\x05\xaa\x01\x02\x18\x02\x12%\n" +
	"\n" +
	"f160649364\x18\x94\xa1\xcdL \x03(\x0e2\a.fxpb.EB\x05\xaa\x01\x02\x18\x01\x12\x12\n" +
	"\x03f19\x18\x13 \x01(\fB\x05\xaa\x01\x02\b\x02\"\xbd\x01\n" +
	"\x05S32M1\x12\x17\n" +
	"\x02f2\x18\x02 \x03(\v2\v.fxpb.S32M2\x12\x1d\n" +
	"\n" +
	"f536870911\x18\xff\xff\xff\xff\x01 \x03(\x12B\x05\xaa\x01\x02\x18\x02\x12\x14\n" +
	"\x04f999\x18\xe7\a \x01(\tB\x05\xaa\x01\x02\b\x02\x123\n" +
	"\n" +
	"f528931624\x18\xa8\xb6\x9b\xfc\x01 \x03(\v2\x1b.fxpb.S32M1.F528931624Entry\x1a1\n" +
	"\x0fF528931624Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\x06\x12\r\n" +
	"\x05value\x18\x02 \x01(\f:\x028\x01\"\xad\x01\n" +
	"\x05S32M2\x12\x17\n" +
	"\x02f6\x18\x06 \x03(\v2\v.fxpb.S32M3\x12\n" +
	"\n" +
	"\x02f9\x18\t \x03(\f\x12\x1f\n" +
	"\x02f5\x18\x05 \x03(\v2\x13.fxpb.S32M2.F5Entry\x12\x12\n" +
	"\x03f13\x18\r \x03(\x11B\x05\xaa\x01\x02\x18\x02\x12\x10\n" +
	"\x05f2047\x18\xff\x0f \x01(\x0fH\x00\x1a2\n" +
	"\aF5Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\a\x12\x16\n" +
	"\x05value\x18\x02 \x01(\x0e2\a.fxpb.E:\x028\x01B\x04\n" +
	"\x02o0\"\xbc\x02\n" +
	"\x05S32M3\x12!\n" +
	"\x03f18\x18\x12 \x03(\v2\x14.fxpb.S32M3.F18Entry\x12\x1f\n" +
	"\x02f6\x18\x06 \x03(\v2\x13.fxpb.S32M3.F6Entry\x12\x11\n" +
	"\x02f1\x18\x01 \x03(\rB\x05\xaa\x01\x02\x18\x01\x12\x15\n" +
	"\x05f1001\x18\xe9\a \x03(\x10B\x05\xaa\x01\x02\x18\x02\x12\x12\n" +
	"\x03f21\x18\x15 \x03(\x11B\x05\xaa\x01\x02\x18\x02\x12\x12\n" +
	"\x03f15\x18\x0f \x03(\x0fB\x05\xaa\x01\x02\x18\x01\x12\v\n" +
	"\x03f89\x18Y \x01(\x10\x12\x12\n" +
	"\x03f13\x18\r \x01(\bB\x05\xaa\x01\x02\b\x03\x12\x12\n" +
	"\x03f14\x18\x0e \x03(\x11B\x05\xaa\x01\x02\x18\x01\x12\x11\n" +
	"\x02f8\x18\b \x03(\x06B\x05\xaa\x01\x02\x18\x01\x1a*\n" +
	"\bF18Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\a\x12\r\n" +
	"\x05value\x18\x02 \x01(\x06:\x028\x01\x1a)\n" +
	"\aF6Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\a\x12\r\n" +
	"\x05value\x18\x02 \x01(\x04:\x028\x01\"\xc9\x02\n" +
	"\x05S33M1\x12\x14\n" +
	"\tf33554432\x18\x80\x80\x80\x10 \x01(\x02\x12!\n" +
	"\x03f34\x18\" \x03(\v2\x14.fxpb.S33M1.F34Entry\x12\x12\n" +
	"\x03f11\x18\v \x01(\tB\x05\xaa\x01\x02\b\x02\x12\n" +
	"\n" +
	"\x02f6\x18\x06 \x01(\x06\x12\x15\n" +
	"\x05f1001\x18\xe9\a \x01(\x04B\x05\xaa\x01\x02\b\x02\x12\x1f\n" +
	"\x02f9\x18\t \x03(\v2\x13.fxpb.S33M1.F9Entry\x12\x10\n" +
	"\x06f18999\x18\xb7\x94\x01 \x01(\b\x12\n" +
	"\n" +
	"\x02f2\x18\x02 \x01(\b\x12\r\n" +
	"\x03f27\x18\x1b \x01(\x03H\x00\x12\x1f\n" +
	"\x06f20000\x18\xa0\x9c\x01 \x01(\v2\v.fxpb.S33M2H\x01\x1a*\n" +
	"\bF34Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\x03\x12\r\n" +
	"\x05value\x18\x02 \x01(\x12:\x028\x01\x1a)\n" +
	"\aF9Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\x03\x12\r\n" +
	"\x05value\x18\x02 \x01(\a:\x028\x01B\x04\n" +
	"\x02o0B\x04\n" +
	"\x02o1\"\xb1\x02\n" +
	"\x05S33M2\x12\x14\n" +
	"\x04f999\x18\xe7\a \x01(\rB\x05\xaa\x01\x02\b\x02\x12\x18\n" +
	"\af262144\x18\x80\x80\x10 \x03(\x04B\x05\xaa\x01\x02\x18\x01\x12\x12\n" +
	"\x03f35\x18# \x01(\x04B\x05\xaa\x01\x02\b\x02\x12\x12\n" +
	"\x03f13\x18\r \x03(\x02B\x05\xaa\x01\x02\x18\x02\x12\x18\n" +
	"\x03f29\x18\x1d \x01(\v2\v.fxpb.S33M3\x12!\n" +
	"\x03f11\x18\v \x03(\v2\x14.fxpb.S33M2.F11Entry\x12\x1b\n" +
	"\x05f1004\x18\xec\a \x01(\v2\v.fxpb.S33M5\x12\x11\n" +
	"\x02f3\x18\x03 \x01(\x02B\x05\xaa\x01\x02\b\x02\x12\f\n" +
	"\x02f9\x18\t \x01(\x02H\x00\x12#\n" +
	"\tf33554432\x18\x80\x80\x80\x10 \x01(\v2\v.fxpb.S33M4H\x00\x1a*\n" +
	"\bF11Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\t\x12\r\n" +
	"\x05value\x18\x02 \x01(\x12:\x028\x01B\x04\n" +
	"\x02o0\"`\n" +
	"\x05S33M3\x12\x1f\n" +
	"\x02f6\x18\x06 \x03(\v2\x13.fxpb.S33M3.F6Entry\x12\v\n" +
	"\x03f15\x18\x0f \x03(\f\x1a)\n" +
	"\aF6Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\x10\x12\r\n" +
	"\x05value\x18\x02 \x01(\x11:\x028\x01\"\xb5\x01\n" +
	"\x05S33M4\x12\x12\n" +
	"\x03f15\x18\x0f \x01(\x01B\x05\xaa\x01\x02\b\x02\x12\v\n" +
	"\x03f13\x18\r \x03(\f\x12\x0e\n" +
	"\x05f2048\x18\x80\x10 \x01(\x06\x12\x14\n" +
	"\x04f996\x18\xe4\a \x01(\x02B\x05\xaa\x01\x02\b\x02\x12\x14\n" +
	"\x04f995\x18\xe3\a \x03(\rB\x05\xaa\x01\x02\x18\x01\x12\x12\n" +
	"\x03f14\x18\x0e \x01(\aB\x05\xaa\x01\x02\b\x02\x12\x12\n" +
	"\x03f16\x18\x10 \x03(\aB\x05\xaa\x01\x02\x18\x02\x12\x13\n" +
	"\x02f9\x18\t \x01(\x0e2\a.fxpb.E\x12\x12\n" +
	"\x03f17\x18\x11 \x03(\bB\x05\xaa\x01\x02\x18\x02\"\xa6\x02\n" +
	"\x05S33M5\x123\n" +
	"\n" +
	"f536870911\x18\xff\xff\xff\xff\x01 \x03(\v2\x1b.fxpb.S33M5.F536870911Entry\x12\n" +
	"\n" +
	"\x02f5\x18\x05 \x01(\x03\x12!\n" +
	"\x03f12\x18\f \x03(\v2\x14.fxpb.S33M5.F12Entry\x12\v\n" +
	"\x03f10\x18\n" +
	" \x01(\x11\x12!\n" +
	"\x03f15\x18\x0f \x03(\v2\x14.fxpb.S33M5.F15Entry\x1a1\n" +
	"\x0fF536870911Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\t\x12\r\n" +
	"\x05value\x18\x02 \x01(\t:\x028\x01\x1a*\n" +
	"\bF12Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\x05\x12\r\n" +
	"\x05value\x18\x02 \x01(\a:\x028\x01\x1a*\n" +
	"\bF15Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\a\x12\r\n" +
	"\x05value\x18\x02 \x01(\a:\x028\x01\"\x81\x01\n" +
	"\x05S34M1\x12\x1b\n" +
	"\x05f2047\x18\xff\x0f \x01(\v2\v.fxpb.S34M2\x12\x14\n" +
	"\x04f458\x18\xca\x03 \x01(\rB\x05\xaa\x01\x02\b\x02\x12\x12\n" +
	"\x03f14\x18\x0e \x03(\aB\x05\xaa\x01\x02\x18\x02\x12\x1c\n" +
	"\x04f997\x18\xe5\a \x01(\v2\v.fxpb.S34M3H\x00\x12\r\n" +
	"\x03f54\x186 \x01(\x05H\x00B\x04\n" +
	"\x02o0\">\n" +
	"\x05S34M2\x12\x1e\n" +
	"\x05f1002\x18\xea\a \x01(\x0e2\a.fxpb.EB\x05\xaa\x01\x02\b\x02\x12\x15\n" +
	"\x05f2047\x18\xff\x0f \x01(\x06B\x05\xaa\x01\x02\b\x02\"\xd8\x02\n" +
	"\x05S34M3\x12\x1f\n" +
	"\x02f6\x18\x06 \x03(\v2\x13.fxpb.S34M3.F6Entry\x12\x18\n" +
	"\x03f26\x18\x1a \x01(\v2\v.fxpb.S34M4\x12\v\n" +
	"\x03f54\x186 \x03(\t\x12\x11\n" +
	"\x02f9\x18\t \x01(\rB\x05\xaa\x01\x02\b\x02\x12\r\n" +
	"\x04f996\x18\xe4\a \x03(\t\x12\x18\n" +
	"\af262144\x18\x80\x80\x10 \x01(\x02B\x05\xaa\x01\x02\b\x02\x12&\n" +
	"\x05f1004\x18\xec\a \x03(\v2\x16.fxpb.S34M3.F1004Entry\x12\f\n" +
	"\x02f4\x18\x04 \x01(\x11H\x00\x12\x19\n" +
	"\x02f7\x18\a \x01(\v2\v.fxpb.S34M5H\x00\x12\f\n" +
	"\x02f3\x18\x03 \x01(\bH\x01\x1a)\n" +
	"\aF6Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\b\x12\r\n" +
	"\x05value\x18\x02 \x01(\x0f:\x028\x01\x1a5\n" +
	"\n" +
	"F1004Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\a\x12\x16\n" +
	"\x05value\x18\x02 \x01(\x0e2\a.fxpb.E:\x028\x01B\x04\n" +
	"\x02o0B\x04\n" +
	"\x02o1\"\xd6\x01\n" +
	"\x05S34M4\x12\x1b\n" +
	"\tf33554432\x18\x80\x80\x80\x10 \x01(\x12B\x05\xaa\x01\x02\b\x02\x12\r\n" +
	"\x04f795\x18\x9b\x06 \x01(\x02\x12\n" +
	"\n" +
	"\x02f1\x18\x01 \x01(\a\x12\x1d\n" +
	"\n" +
	"f536870910\x18\xfe\xff\xff\xff\x01 \x03(\x04B\x05\xaa\x01\x02\x18\x02\x12\x14\n" +
	"\x03f14\x18\x0e \x01(\x0e2\a.fxpb.E\x12\x14\n" +
	"\x04f334\x18\xce\x02 \x01(\x06B\x05\xaa\x01\x02\b\x02\x12\x16\n" +
	"\x03f10\x18\n" +
	" \x01(\x0e2\a.fxpb.EH\x00\x12\x10\n" +
	"\x05f1003\x18\xeb\a \x01(\x01H\x00\x12\f\n" +
	"\x02f7\x18\a \x01(\x04H\x00\x12\f\n" +
	"\x02f2\x18\x02 \x01(\x11H\x00B\x04\n" +
	"\x02o0\"'\n" +
	"\x05S34M5\x12\n" +
	"\n" +
	"\x02f1\x18\x01 \x03(\t\x12\f\n" +
	"\x02f7\x18\a \x01(\rH\x00B\x04\n" +
	"\x02o0\"\xf3\x01\n" +
	"\x05S35M1\x12$\n" +
	"\x04f170\x18\xaa\x01 \x03(\v2\x15.fxpb.S35M1.F170Entry\x12!\n" +
	"\x03f39\x18' \x03(\v2\x14.fxpb.S35M1.F39Entry\x12\x14\n" +
	"\x04f827\x18\xbb\x06 \x01(\rB\x05\xaa\x01\x02\b\x02\x12\x1d\n" +
	"\x05f2047\x18\xff\x0f \x01(\v2\v.fxpb.S35M2H\x00\x12\r\n" +
	"\x03f12\x18\f \x01(\x02H\x00\x1a+\n" +
	"\tF170Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\x05\x12\r\n" +
	"\x05value\x18\x02 \x01(\x05:\x028\x01\x1a*\n" +
	"\bF39Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\x10\x12\r\n" +
	"\x05value\x18\x02 \x01(\f:\x028\x01B\x04\n" +
	"\x02o0\"\x8e\x03\n" +
	"\x05S35M2\x12+\n" +
	"\af262144\x18\x80\x80\x10 \x03(\v2\x18.fxpb.S35M2.F262144Entry\x120\n" +
	"\tf33554432\x18\x80\x80\x80\x10 \x03(\v2\x1a.fxpb.S35M2.F33554432Entry\x12\x12\n" +
	"\x03f12\x18\f \x03(\x06B\x05\xaa\x01\x02\x18\x02\x12\x1b\n" +
	"\x03f14\x18\x0e \x03(\x0e2\a.fxpb.EB\x05\xaa\x01\x02\x18\x02\x12!\n" +
	"\x03f15\x18\x0f \x03(\v2\x14.fxpb.S35M2.F15Entry\x12\x1c\n" +
	"\x04f815\x18\xaf\x06 \x01(\v2\v.fxpb.S35M4H\x00\x12\r\n" +
	"\x03f17\x18\x11 \x01(\x01H\x01\x1a.\n" +
	"\fF262144Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\x0f\x12\r\n" +
	"\x05value\x18\x02 \x01(\x12:\x028\x01\x1a=\n" +
	"\x0eF33554432Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\x06\x12\x1a\n" +
	"\x05value\x18\x02 \x01(\v2\v.fxpb.S35M3:\x028\x01\x1a*\n" +
	"\bF15Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\x04\x12\r\n" +
	"\x05value\x18\x02 \x01(\x05:\x028\x01B\x04\n" +
	"\x02o0B\x04\n" +
	"\x02o1\"\x91\x01\n" +
	"\x05S35M3\x12\x11\n" +
	"\x02f7\x18\a \x01(\x05B\x05\xaa\x01\x02\b\x02\x12\x1b\n" +
	"\x03f10\x18\n" +
	" \x01(\x0e2\a.fxpb.EB\x05\xaa\x01\x02\b\x02\x12\x18\n" +
	"\af262143\x18\xff\xff\x0f \x01(\x03B\x05\xaa\x01\x02\b\x02\x12\f\n" +
	"\x02f8\x18\b \x01(\x06H\x00\x12\r\n" +
	"\x03f16\x18\x10 \x01(\x12H\x00\x12\r\n" +
	"\x03f50\x182 \x01(\x06H\x00\x12\f\n" +
	"\x02f9\x18\t \x01(\fH\x00B\x04\n" +
	"\x02o0\"\x80\x02\n" +
	"\x05S35M4\x12\x12\n" +
	"\x03f13\x18\r \x01(\bB\x05\xaa\x01\x02\b\x02\x12\x14\n" +
	"\x04f208\x18\xd0\x01 \x01(\aB\x05\xaa\x01\x02\b\x02\x12$\n" +
	"\x04f374\x18\xf6\x02 \x03(\v2\x15.fxpb.S35M4.F374Entry\x12\x14\n" +
	"\x04f570\x18\xba\x04 \x03(\bB\x05\xaa\x01\x02\x18\x02\x12!\n" +
	"\x03f14\x18\x0e \x03(\v2\x14.fxpb.S35M4.F14Entry\x12\x0f\n" +
	"\x04f561\x18\xb1\x04 \x01(\x01H\x00\x1a+\n" +
	"\tF374Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\t\x12\r\n" +
	"\x05value\x18\x02 \x01(\a:\x028\x01\x1a*\n" +
	"\bF14Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\x11\x12\r\n" +
	"\x05value\x18\x02 \x01(\x01:\x028\x01B\x04\n" +
	"\x02o0\"\xe2\x01\n" +
	"\x05S36M1\x12\x17\n" +
	"\x02f3\x18\x03 \x01(\v2\v.fxpb.S36M2\x12\x15\n" +
	"\x05f1002\x18\xea\a \x01(\x10B\x05\xaa\x01\x02\b\x02\x12\n" +
	"\n" +
	"\x02f4\x18\x04 \x01(\x11\x12\x17\n" +
	"\x02f5\x18\x05 \x01(\v2\v.fxpb.S36M7\x12\x15\n" +
	"\x05f1000\x18\xe8\a \x01(\x04B\x05\xaa\x01\x02\b\x02\x12\x19\n" +
	"\x04f122\x18z \x03(\v2\v.fxpb.S36M8\x12\x1f\n" +
	"\x02f6\x18\x06 \x01(\v2\f.fxpb.S36M10B\x05\xaa\x01\x02\b\x03\x12\f\n" +
	"\x02f7\x18\a \x01(\x05H\x00\x12\x1d\n" +
	"\x05f2048\x18\x80\x10 \x01(\v2\v.fxpb.S36M6H\x00B\x04\n" +
	"\x02o0\"\xc1\x01\n" +
	"\x05S36M2\x12\n" +
	"\n" +
	"\x02f4\x18\x04 \x01(\x04\x12\x1d\n" +
	"\n" +
	"f277627129\x18\xf9\x81\xb1\x84\x01 \x03(\bB\x05\xaa\x01\x02\x18\x01\x12%\n" +
	"\af262144\x18\x80\x80\x10 \x01(\v2\v.fxpb.S36M3B\x05\xaa\x01\x02\b\x03\x12\x13\n" +
	"\x02f5\x18\x05 \x01(\x0e2\a.fxpb.E\x12\x18\n" +
	"\x03f15\x18\x0f \x01(\v2\v.fxpb.S36M4\x12#\n" +
	"\n" +
	"f471002382\x18\x8e\xda\xcb\xe0\x01 \x01(\v2\v.fxpb.S36M5\x12\f\n" +
	"\x02f9\x18\t \x01(\x10H\x00B\x04\n" +
	"\x02o0\"\xf2\x02\n" +
	"\x05S36M3\x12\r\n" +
	"\x04f217\x18\xd9\x01 \x01(\x11\x12\x1f\n" +
	"\x02f2\x18\x02 \x03(\v2\x13.fxpb.S36M3.F2Entry\x12\x13\n" +
	"\x02f3\x18\x03 \x01(\x0e2\a.fxpb.E\x12$\n" +
	"\x04f997\x18\xe5\a \x03(\v2\x15.fxpb.S36M3.F997Entry\x12!\n" +
	"\x03f11\x18\v \x03(\v2\x14.fxpb.S36M3.F11Entry\x12\x12\n" +
	"\x03f12\x18\f \x01(\x01B\x05\xaa\x01\x02\b\x02\x12\x11\n" +
	"\x02f7\x18\a \x03(\x0fB\x05\xaa\x01\x02\x18\x01\x12\x12\n" +
	"\x03f35\x18# \x01(\aB\x05\xaa\x01\x02\b\x02\x12\x16\n" +
	"\x03f37\x18% \x01(\x0e2\a.fxpb.EH\x00\x1a)\n" +
	"\aF2Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\x0f\x12\r\n" +
	"\x05value\x18\x02 \x01(\x03:\x028\x01\x1a+\n" +
	"\tF997Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\x0f\x12\r\n" +
	"\x05value\x18\x02 \x01(\x10:\x028\x01\x1a*\n" +
	"\bF11Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\x03\x12\r\n" +
	"\x05value\x18\x02 \x01(\f:\x028\x01B\x04\n" +
	"\x02o0\"\xc5\x01\n" +
	"\x05S36M4\x12$\n" +
	"\x04f998\x18\xe6\a \x03(\v2\x15.fxpb.S36M4.F998Entry\x12\x0e\n" +
	"\x05f1003\x18\xeb\a \x01(\x06\x12\n" +
	"\n" +
	"\x02f6\x18\x06 \x03(\f\x12!\n" +
	"\x03f39\x18' \x03(\v2\x14.fxpb.S36M4.F39Entry\x1a+\n" +
	"\tF998Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\x06\x12\r\n" +
	"\x05value\x18\x02 \x01(\a:\x028\x01\x1a*\n" +
	"\bF39Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\x03\x12\r\n" +
	"\x05value\x18\x02 \x01(\b:\x028\x01\"\xe1\x01\n" +
	"\x05S36M5\x12\x11\n" +
	"\x02f7\x18\a \x01(\x11B\x05\xaa\x01\x02\b\x02\x12$\n" +
	"\x04f784\x18\x90\x06 \x03(\v2\x15.fxpb.S36M5.F784Entry\x12\x16\n" +
	"\n" +
	"f536870910\x18\xfe\xff\xff\xff\x01 \x01(\x01\x12\r\n" +
	"\x04f999\x18\xe7\a \x01(\x10\x12\v\n" +
	"\x03f16\x18\x10 \x01(\x06\x12\x15\n" +
	"\x05f1001\x18\xe9\a \x01(\x02B\x05\xaa\x01\x02\b\x03\x12\x12\n" +
	"\x03f30\x18\x1e \x01(\x05B\x05\xaa\x01\x02\b\x02\x12\r\n" +
	"\x03f33\x18! \x01(\fH\x00\x1a+\n" +
	"\tF784Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\b\x12\r\n" +
	"\x05value\x18\x02 \x01(\f:\x028\x01B\x04\n" +
	"\x02o0\"\x1b\n" +
	"\x05S36M6\x12\x12\n" +
	"\x03f12\x18\f \x03(\x01B\x05\xaa\x01\x02\x18\x01\"h\n" +
	"\x05S36M7\x12\v\n" +
	"\x03f13\x18\r \x01(\x10\x12\v\n" +
	"\x03f14\x18\x0e \x03(\f\x12\x12\n" +
	"\x03f15\x18\x0f \x01(\x01B\x05\xaa\x01\x02\b\x02\x12\x17\n" +
	"\x02f9\x18\t \x03(\v2\v.fxpb.S36M6\x12\x18\n" +
	"\x03f11\x18\v \x01(\v2\v.fxpb.S36M4\"v\n" +
	"\x05S36M8\x12$\n" +
	"\x04f644\x18\x84\x05 \x03(\v2\x15.fxpb.S36M8.F644Entry\x12\r\n" +
	"\x04f791\x18\x97\x06 \x01(\a\x1a8\n" +
	"\tF644Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\x11\x12\x1a\n" +
	"\x05value\x18\x02 \x01(\v2\v.fxpb.S36M9:\x028\x01\"\x1d\n" +
	"\x05S36M9\x12\x14\n" +
	"\x04f999\x18\xe7\a \x03(\x04B\x05\xaa\x01\x02\x18\x02\"%\n" +
	"\x06S36M10\x12\x1b\n" +
	"\x04f285\x18\x9d\x02 \x03(\v2\f.fxpb.S36M11\"\x95\x01\n" +
	"\x06S36M11\x12\x15\n" +
	"\x05f2047\x18\xff\x0f \x01(\aB\x05\xaa\x01\x02\b\x02\x12\n" +
	"\n" +
	"\x02f3\x18\x03 \x03(\t\x12%\n" +
	"\x04f477\x18\xdd\x03 \x03(\v2\x16.fxpb.S36M11.F477Entry\x12\x14\n" +
	"\x04f753\x18\xf1\x05 \x03(\x05B\x05\xaa\x01\x02\x18\x02\x1a+\n" +
	"\tF477Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\x03\x12\r\n" +
	"\x05value\x18\x02 \x01(\x0f:\x028\x01\"\x9a\x01\n" +
	"\x05S37M1\x12\x14\n" +
	"\x04f932\x18\xa4\a \x01(\x01B\x05\xaa\x01\x02\b\x02\x12\x1f\n" +
	"\x02f4\x18\x04 \x03(\v2\x13.fxpb.S37M1.F4Entry\x12\x1c\n" +
	"\x04f997\x18\xe5\a \x01(\v2\v.fxpb.S37M4H\x00\x1a6\n" +
	"\aF4Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\t\x12\x1a\n" +
	"\x05value\x18\x02 \x01(\v2\v.fxpb.S37M2:\x028\x01B\x04\n" +
	"\x02o0\"k\n" +
	"\x05S37M2\x12\x12\n" +
	"\x03f14\x18\x0e \x03(\x10B\x05\xaa\x01\x02\x18\x02\x12\x1f\n" +
	"\x03f15\x18\x0f \x01(\v2\v.fxpb.S37M3B\x05\xaa\x01\x02\b\x03\x12\f\n" +
	"\x02f1\x18\x01 \x01(\x04H\x00\x12\x13\n" +
	"\af262144\x18\x80\x80\x10 \x01(\x06H\x01B\x04\n" +
	"\x02o0B\x04\n" +
	"\x02o1\"\xba\x02\n" +
	"\x05S37M3\x12\x1f\n" +
	"\x02f1\x18\x01 \x03(\v2\x13.fxpb.S37M3.F1Entry\x12\x14\n" +
	"\x04f859\x18\xdb\x06 \x01(\fB\x05\xaa\x01\x02\b\x02\x123\n" +
	"\n" +
	"f433580546\x18\x82\xd4\xdf\xce\x01 \x03(\v2\x1b.fxpb.S37M3.F433580546Entry\x12\x14\n" +
	"\x04f995\x18\xe3\a \x03(\x11B\x05\xaa\x01\x02\x18\x01\x12\x1d\n" +
	"\n" +
	"f381643977\x18\xc9\xd9\xfd\xb5\x01 \x01(\x01B\x05\xaa\x01\x02\b\x02\x12\f\n" +
	"\x02f9\x18\t \x01(\x12H\x00\x12\x18\n" +
	"\n" +
	"f536870910\x18\xfe\xff\xff\xff\x01 \x01(\x04H\x01\x1a)\n" +
	"\aF1Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\x05\x12\r\n" +
	"\x05value\x18\x02 \x01(\x11:\x028\x01\x1a1\n" +
	"\x0fF433580546Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\x10\x12\r\n" +
	"\x05value\x18\x02 \x01(\x05:\x028\x01B\x04\n" +
	"\x02o0B\x04\n" +
	"\x02o1\"\xb0\x02\n" +
	"\x05S37M4\x12\r\n" +
	"\x04f823\x18\xb7\x06 \x01(\f\x12\x17\n" +
	"\x02f2\x18\x02 \x01(\v2\v.fxpb.S37M3\x12\x17\n" +
	"\x06f18999\x18\xb7\x94\x01 \x01(\x04B\x05\xaa\x01\x02\b\x02\x12!\n" +
	"\x03f40\x18( \x03(\v2\x14.fxpb.S37M4.F40Entry\x12\x10\n" +
	"\x06f20000\x18\xa0\x9c\x01 \x01(\b\x12\x17\n" +
	"\x02f3\x18\x03 \x01(\v2\v.fxpb.S37M6\x12\v\n" +
	"\x03f11\x18\v \x01(\x02\x12\x1c\n" +
	"\n" +
	"f178568561\x18\xf1\xfa\x92U \x01(\fB\x05\xaa\x01\x02\b\x02\x12\x19\n" +
	"\x02f7\x18\a \x01(\v2\v.fxpb.S37M5H\x00\x12\x1a\n" +
	"\x03f15\x18\x0f \x01(\v2\v.fxpb.S37M3H\x01\x1a*\n" +
	"\bF40Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\x05\x12\r\n" +
	"\x05value\x18\x02 \x01(\x12:\x028\x01B\x04\n" +
	"\x02o0B\x04\n" +
	"\x02o1\"\x17\n" +
	"\x05S37M5\x12\x0e\n" +
	"\x05f1003\x18\xeb\a \x01(\x12\"#\n" +
	"\x05S37M6\x12\x1a\n" +
	"\x02f7\x18\a \x01(\x0e2\a.fxpb.EB\x05\xaa\x01\x02\b\x03\"\x8f\x01\n" +
	"\x05S38M1\x12\x15\n" +
	"\x05f1006\x18\xee\a \x01(\x02B\x05\xaa\x01\x02\b\x02\x12!\n" +
	"\x03f15\x18\x0f \x03(\v2\x14.fxpb.S38M1.F15Entry\x12\r\n" +
	"\x03f13\x18\r \x01(\x02H\x00\x1a7\n" +
	"\bF15Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\x12\x12\x1a\n" +
	"\x05value\x18\x02 \x01(\v2\v.fxpb.S38M2:\x028\x01B\x04\n" +
	"\x02o0\"h\n" +
	"\x05S38M2\x12\x14\n" +
	"\x04f465\x18\xd1\x03 \x03(\x03B\x05\xaa\x01\x02\x18\x01\x12\x11\n" +
	"\x02f6\x18\x06 \x03(\x10B\x05\xaa\x01\x02\x18\x01\x12\x1c\n" +
	"\x04f997\x18\xe5\a \x01(\v2\v.fxpb.S38M3H\x00\x12\f\n" +
	"\x02f4\x18\x04 \x01(\x03H\x01B\x04\n" +
	"\x02o0B\x04\n" +
	"\x02o1\"#\n" +
	"\x05S38M3\x12\x1a\n" +
	"\x02f6\x18\x06 \x01(\x0e2\a.fxpb.EB\x05\xaa\x01\x02\b\x02\"\x9c\x02\n" +
	"\x05S39M1\x12!\n" +
	"\x03f24\x18\x18 \x03(\v2\x14.fxpb.S39M1.F24Entry\x12\x17\n" +
	"\x02f3\x18\x03 \x01(\v2\v.fxpb.S39M3\x12\x11\n" +
	"\x02f6\x18\x06 \x01(\x0fB\x05\xaa\x01\x02\b\x02\x12\x1e\n" +
	"\x02f7\x18\a \x01(\v2\v.fxpb.S39M4B\x05\xaa\x01\x02\b\x03\x12\x1f\n" +
	"\x02f8\x18\b \x03(\v2\x13.fxpb.S39M1.F8Entry\x12\x19\n" +
	"\x02f5\x18\x05 \x01(\v2\v.fxpb.S39M2H\x00\x1a*\n" +
	"\bF24Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\x06\x12\r\n" +
	"\x05value\x18\x02 \x01(\r:\x028\x01\x1a6\n" +
	"\aF8Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\b\x12\x1a\n" +
	"\x05value\x18\x02 \x01(\v2\v.fxpb.S39M6:\x028\x01B\x04\n" +
	"\x02o0\"*\n" +
	"\x05S39M2\x12\r\n" +
	"\x04f997\x18\xe5\a \x01(\f\x12\f\n" +
	"\x02f8\x18\b \x01(\x10H\x00B\x04\n" +
	"\x02o0\"\xcc\x02\n" +
	"\x05S39M3\x12\v\n" +
	"\x03f13\x18\r \x01(\x12\x12\v\n" +
	"\x03f16\x18\x10 \x01(\t\x12!\n" +
	"\x03f12\x18\f \x03(\v2\x14.fxpb.S39M3.F12Entry\x123\n" +
	"\n" +
	"f536870911\x18\xff\xff\xff\xff\x01 \x03(\v2\x1b.fxpb.S39M3.F536870911Entry\x12\x12\n" +
	"\x03f14\x18\x0e \x01(\x03B\x05\xaa\x01\x02\b\x02\x12\x1f\n" +
	"\x02f7\x18\a \x03(\v2\x13.fxpb.S39M3.F7Entry\x12\x12\n" +
	"\x03f10\x18\n" +
	" \x01(\x06B\x05\xaa\x01\x02\b\x02\x1a*\n" +
	"\bF12Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\a\x12\r\n" +
	"\x05value\x18\x02 \x01(\b:\x028\x01\x1a1\n" +
	"\x0fF536870911Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\t\x12\r\n" +
	"\x05value\x18\x02 \x01(\x06:\x028\x01\x1a)\n" +
	"\aF7Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\b\x12\r\n" +
	"\x05value\x18\x02 \x01(\x10:\x028\x01\"\xe1\x03\n" +
	"\x05S39M4\x12\n" +
	"\n" +
	"\x02f7\x18\a \x03(\t\x12\x12\n" +
	"\x03f14\x18\x0e \x03(\x12B\x05\xaa\x01\x02\x18\x02\x12)\n" +
	"\x06f20000\x18\xa0\x9c\x01 \x03(\v2\x17.fxpb.S39M4.F20000Entry\x12!\n" +
	"\x03f26\x18\x1a \x03(\v2\x14.fxpb.S39M4.F26Entry\x12\x18\n" +
	"\x03f12\x18\f \x01(\v2\v.fxpb.S39M5\x12\n" +
	"\n" +
	"\x02f3\x18\x03 \x01(\x04\x122\n" +
	"\n" +
	"f200408845\x18\x8d\xfe\xc7_ \x03(\v2\x1b.fxpb.S39M4.F200408845Entry\x12\n" +
	"\n" +
	"\x02f4\x18\x04 \x01(\a\x12$\n" +
	"\x04f428\x18\xac\x03 \x03(\v2\x15.fxpb.S39M4.F428Entry\x12#\n" +
	"\n" +
	"f536870910\x18\xfe\xff\xff\xff\x01 \x01(\v2\v.fxpb.S39M5\x1a-\n" +
	"\vF20000Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\r\x12\r\n" +
	"\x05value\x18\x02 \x01(\x01:\x028\x01\x1a*\n" +
	"\bF26Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\x11\x12\r\n" +
	"\x05value\x18\x02 \x01(\x04:\x028\x01\x1a1\n" +
	"\x0fF200408845Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\x03\x12\r\n" +
	"\x05value\x18\x02 \x01(\x05:\x028\x01\x1a+\n" +
	"\tF428Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\x06\x12\r\n" +
	"\x05value\x18\x02 \x01(\x12:\x028\x01\"\xc2\x01\n" +
	"\x05S39M5\x12\x11\n" +
	"\x02f4\x18\x04 \x01(\tB\x05\xaa\x01\x02\b\x02\x12\v\n" +
	"\x03f80\x18P \x01(\x0f\x12\v\n" +
	"\x03f13\x18\r \x01(\x0f\x12\x12\n" +
	"\x03f38\x18& \x03(\x05B\x05\xaa\x01\x02\x18\x02\x12)\n" +
	"\x06f18999\x18\xb7\x94\x01 \x03(\v2\x17.fxpb.S39M5.F18999Entry\x12\x11\n" +
	"\x02f9\x18\t \x03(\bB\x05\xaa\x01\x02\x18\x02\x12\v\n" +
	"\x03f10\x18\n" +
	" \x01(\f\x1a-\n" +
	"\vF18999Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\r\x12\r\n" +
	"\x05value\x18\x02 \x01(\x10:\x028\x01\"&\n" +
	"\x05S39M6\x12\x1d\n" +
	"\n" +
	"f536870911\x18\xff\xff\xff\xff\x01 \x03(\x12B\x05\xaa\x01\x02\x18\x02\"I\n" +
	"\x05S40M1\x12\x12\n" +
	"\x03f11\x18\v \x01(\x04B\x05\xaa\x01\x02\b\x02\x12\x11\n" +
	"\x02f1\x18\x01 \x03(\x10B\x05\xaa\x01\x02\x18\x02\x12\n" +
	"\n" +
	"\x02f8\x18\b \x03(\f\x12\r\n" +
	"\x04f999\x18\xe7\a \x01(\x0f\"L\n" +
	"\x05S41M1\x12\x14\n" +
	"\tf85119314\x18Ң\xcb( \x01(\x12\x12\v\n" +
	"\x03f10\x18\n" +
	" \x01(\t\x12\x1a\n" +
	"\x03f36\x18$ \x01(\v2\v.fxpb.S41M2H\x00B\x04\n" +
	"\x02o0\"R\n" +
	"\x05S41M2\x12\x17\n" +
	"\x02f4\x18\x04 \x01(\v2\v.fxpb.S41M3\x12\x12\n" +
	"\x03f13\x18\r \x03(\x02B\x05\xaa\x01\x02\x18\x02\x12\x1c\n" +
	"\n" +
	"f179486644\x18\xb4\xff\xcaU \x01(\x01B\x05\xaa\x01\x02\b\x02\"J\n" +
	"\x05S41M3\x12\r\n" +
	"\x04f626\x18\xf2\x04 \x01(\x06\x12\x12\n" +
	"\x03f26\x18\x1a \x03(\x11B\x05\xaa\x01\x02\x18\x02\x12\n" +
	"\n" +
	"\x02f4\x18\x04 \x01(\x10\x12\f\n" +
	"\x02f3\x18\x03 \x01(\aH\x00B\x04\n" +
	"\x02o0\"\x94\x01\n" +
	"\x05S42M1\x12\x12\n" +
	"\x03f15\x18\x0f \x03(\x01B\x05\xaa\x01\x02\x18\x01\x12$\n" +
	"\x04f515\x18\x83\x04 \x03(\v2\x15.fxpb.S42M1.F515Entry\x12\r\n" +
	"\x04f997\x18\xe5\a \x01(\x11\x12\x15\n" +
	"\x05f1006\x18\xee\a \x03(\rB\x05\xaa\x01\x02\x18\x01\x1a+\n" +
	"\tF515Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\x04\x12\r\n" +
	"\x05value\x18\x02 \x01(\x11:\x028\x01\"\x96\x01\n" +
	"\x05S43M1\x123\n" +
	"\n" +
	"f366708338\x18\xf2\x8c\xee\xae\x01 \x03(\v2\x1b.fxpb.S43M1.F366708338Entry\x12\x1f\n" +
	"\x06f18999\x18\xb7\x94\x01 \x01(\v2\v.fxpb.S43M2H\x00\x1a1\n" +
	"\x0fF366708338Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\b\x12\r\n" +
	"\x05value\x18\x02 \x01(\b:\x028\x01B\x04\n" +
	"\x02o0\"\xfc\x02\n" +
	"\x05S43M2\x12&\n" +
	"\x05f1004\x18\xec\a \x03(\v2\x16.fxpb.S43M2.F1004Entry\x12\x14\n" +
	"\x04f996\x18\xe4\a \x03(\x03B\x05\xaa\x01\x02\x18\x02\x12\x11\n" +
	"\x02f5\x18\x05 \x01(\x03B\x05\xaa\x01\x02\b\x02\x12\x12\n" +
	"\x03f12\x18\f \x01(\x11B\x05\xaa\x01\x02\b\x02\x12\x11\n" +
	"\x02f8\x18\b \x01(\tB\x05\xaa\x01\x02\b\x03\x12\x1f\n" +
	"\x02f2\x18\x02 \x03(\v2\x13.fxpb.S43M2.F2Entry\x12\x1f\n" +
	"\x02f6\x18\x06 \x03(\v2\x13.fxpb.S43M2.F6Entry\x12\x14\n" +
	"\x04f223\x18\xdf\x01 \x03(\x06B\x05\xaa\x01\x02\x18\x01\x12\f\n" +
	"\x02f7\x18\a \x01(\x01H\x00\x1a9\n" +
	"\n" +
	"F1004Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\x04\x12\x1a\n" +
	"\x05value\x18\x02 \x01(\v2\v.fxpb.S43M3:\x028\x01\x1a)\n" +
	"\aF2Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\x0f\x12\r\n" +
	"\x05value\x18\x02 \x01(\a:\x028\x01\x1a)\n" +
	"\aF6Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\x05\x12\r\n" +
	"\x05value\x18\x02 \x01(\f:\x028\x01B\x04\n" +
	"\x02o0\"\x99\x01\n" +
	"\x05S43M3\x12\x11\n" +
	"\x02f3\x18\x03 \x01(\x0fB\x05\xaa\x01\x02\b\x02\x12$\n" +
	"\x04f396\x18\x8c\x03 \x03(\v2\x15.fxpb.S43M3.F396Entry\x12\n" +
	"\n" +
	"\x02f7\x18\a \x01(\x11\x12\n" +
	"\n" +
	"\x02f1\x18\x01 \x03(\t\x12\x12\n" +
	"\x03f12\x18\f \x03(\x04B\x05\xaa\x01\x02\x18\x01\x1a+\n" +
	"\tF396Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\x10\x12\r\n" +
	"\x05value\x18\x02 \x01(\x12:\x028\x01\"\xe2\x01\n" +
	"\x05S44M1\x12\x1b\n" +
	"\x05f1002\x18\xea\a \x01(\v2\v.fxpb.S44M2\x12\x1f\n" +
	"\x02f2\x18\x02 \x03(\v2\x13.fxpb.S44M1.F2Entry\x12\x1f\n" +
	"\x02f9\x18\t \x03(\v2\x13.fxpb.S44M1.F9Entry\x12\x17\n" +
	"\x02f8\x18\b \x03(\v2\v.fxpb.S44M3\x12\v\n" +
	"\x03f14\x18\x0e \x01(\x03\x1a)\n" +
	"\aF2Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\x03\x12\r\n" +
	"\x05value\x18\x02 \x01(\x03:\x028\x01\x1a)\n" +
	"\aF9Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\x12\x12\r\n" +
	"\x05value\x18\x02 \x01(\x06:\x028\x01\"\xc9\x01\n" +
	"\x05S44M2\x12\x11\n" +
	"\x02f9\x18\t \x01(\x11B\x05\xaa\x01\x02\b\x02\x12!\n" +
	"\x03f19\x18\x13 \x03(\v2\x14.fxpb.S44M2.F19Entry\x12\x1f\n" +
	"\x02f2\x18\x02 \x03(\v2\x13.fxpb.S44M2.F2Entry\x12\x12\n" +
	"\x03f35\x18# \x01(\tB\x05\xaa\x01\x02\b\x03\x1a*\n" +
	"\bF19Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\b\x12\r\n" +
	"\x05value\x18\x02 \x01(\x11:\x028\x01\x1a)\n" +
	"\aF2Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\x12\x12\r\n" +
	"\x05value\x18\x02 \x01(\x06:\x028\x01\"\a\n" +
	"\x05S44M3\"\xd3\x01\n" +
	"\x05S45M1\x12!\n" +
	"\x03f24\x18\x18 \x03(\v2\x14.fxpb.S45M1.F24Entry\x12!\n" +
	"\tf33554431\x18\xff\xff\xff\x0f \x03(\v2\v.fxpb.S45M2\x12\x12\n" +
	"\x03f17\x18\x11 \x01(\x03B\x05\xaa\x01\x02\b\x02\x12\x18\n" +
	"\x03f11\x18\v \x01(\v2\v.fxpb.S45M4\x12\r\n" +
	"\x03f10\x18\n" +
	" \x01(\x04H\x00\x12\x0f\n" +
	"\x04f210\x18\xd2\x01 \x01(\x10H\x01\x1a*\n" +
	"\bF24Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\x06\x12\r\n" +
	"\x05value\x18\x02 \x01(\x05:\x028\x01B\x04\n" +
	"\x02o0B\x04\n" +
	"\x02o1\"\xc7\x02\n" +
	"\x05S45M2\x12\x11\n" +
	"\x02f4\x18\x04 \x03(\x11B\x05\xaa\x01\x02\x18\x02\x12\x1d\n" +
	"\tf33554432\x18\x80\x80\x80\x10 \x01(\x0e2\a.fxpb.E\x12\v\n" +
	"\x03f10\x18\n" +
	" \x01(\x05\x12\x17\n" +
	"\x02f8\x18\b \x01(\v2\v.fxpb.S45M3\x12\x12\n" +
	"\x03f33\x18! \x03(\rB\x05\xaa\x01\x02\x18\x02\x12\x1f\n" +
	"\x02f3\x18\x03 \x03(\v2\x13.fxpb.S45M2.F3Entry\x123\n" +
	"\n" +
	"f536870911\x18\xff\xff\xff\xff\x01 \x03(\v2\x1b.fxpb.S45M2.F536870911Entry\x12\x1e\n" +
	"\x05f1006\x18\xee\a \x01(\x0e2\a.fxpb.EB\x05\xaa\x01\x02\b\x02\x1a)\n" +
	"\aF3Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\b\x12\r\n" +
	"\x05value\x18\x02 \x01(\f:\x028\x01\x1a1\n" +
	"\x0fF536870911Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\x0f\x12\r\n" +
	"\x05value\x18\x02 \x01(\x06:\x028\x01\"\xf7\x01\n" +
	"\x05S45M3\x12\x12\n" +
	"\x03f11\x18\v \x03(\x0fB\x05\xaa\x01\x02\x18\x01\x12\x11\n" +
	"\x02f2\x18\x02 \x01(\x10B\x05\xaa\x01\x02\b\x02\x12\x12\n" +
	"\x03f15\x18\x0f \x03(\x06B\x05\xaa\x01\x02\x18\x01\x12\x11\n" +
	"\x02f9\x18\t \x01(\tB\x05\xaa\x01\x02\b\x02\x12\x12\n" +
	"\x03f36\x18$ \x03(\x04B\x05\xaa\x01\x02\x18\x01\x12\x15\n" +
	"\x05f1004\x18\xec\a \x03(\rB\x05\xaa\x01\x02\x18\x02\x12\x1f\n" +
	"\x02f7\x18\a \x03(\v2\x13.fxpb.S45M3.F7Entry\x12\x12\n" +
	"\x03f10\x18\n" +
	" \x03(\x01B\x05\xaa\x01\x02\x18\x01\x12\x15\n" +
	"\x05f1000\x18\xe8\a \x03(\aB\x05\xaa\x01\x02\x18\x01\x1a)\n" +
	"\aF7Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\x11\x12\r\n" +
	"\x05value\x18\x02 \x01(\x05:\x028\x01\"`\n" +
	"\x05S45M4\x12\x1e\n" +
	"\af262144\x18\x80\x80\x10 \x03(\v2\v.fxpb.S45M5\x12!\n" +
	"\tf33554431\x18\xff\xff\xff\x0f \x03(\v2\v.fxpb.S45M3\x12\x14\n" +
	"\x04f338\x18\xd2\x02 \x01(\rB\x05\xaa\x01\x02\b\x02\"\x13\n" +
	"\x05S45M5\x12\n" +
	"\n" +
	"\x02f5\x18\x05 \x01(\x12\"\xb2\x01\n" +
	"\x05S46M1\x12\x14\n" +
	"\x04f434\x18\xb2\x03 \x01(\x02B\x05\xaa\x01\x02\b\x03\x12\v\n" +
	"\x03f35\x18# \x01(\b\x12\x15\n" +
	"\x05f1005\x18\xed\a \x03(\rB\x05\xaa\x01\x02\x18\x02\x12\x11\n" +
	"\x02f4\x18\x04 \x01(\fB\x05\xaa\x01\x02\b\x03\x12\n" +
	"\n" +
	"\x02f9\x18\t \x01(\x06\x12\x1d\n" +
	"\n" +
	"f521757425\x18\xf1\xc5\xe5\xf8\x01 \x01(\x04B\x05\xaa\x01\x02\b\x02\x12\x18\n" +
	"\x03f25\x18\x19 \x01(\v2\v.fxpb.S46M2\x12\x17\n" +
	"\x02f7\x18\a \x01(\v2\v.fxpb.S46M2\"\xc0\x03\n" +
	"\x05S46M2\x12.\n" +
	"\bf8948839\x18瘢\x04 \x03(\v2\x19.fxpb.S46M2.F8948839Entry\x12!\n" +
	"\x03f11\x18\v \x03(\v2\x14.fxpb.S46M2.F11Entry\x12\x1f\n" +
	"\x02f6\x18\x06 \x03(\v2\x13.fxpb.S46M2.F6Entry\x12\x11\n" +
	"\x02f5\x18\x05 \x01(\x05B\x05\xaa\x01\x02\b\x02\x12\v\n" +
	"\x03f10\x18\n" +
	" \x01(\x05\x12\x12\n" +
	"\x03f15\x18\x0f \x01(\x05B\x05\xaa\x01\x02\b\x02\x12$\n" +
	"\x04f996\x18\xe4\a \x03(\v2\x15.fxpb.S46M2.F996Entry\x12\x1a\n" +
	"\x04f474\x18\xda\x03 \x01(\v2\v.fxpb.S46M5\x1a<\n" +
	"\rF8948839Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\t\x12\x1a\n" +
	"\x05value\x18\x02 \x01(\v2\v.fxpb.S46M3:\x028\x01\x1a*\n" +
	"\bF11Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\t\x12\r\n" +
	"\x05value\x18\x02 \x01(\x11:\x028\x01\x1a6\n" +
	"\aF6Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\x05\x12\x1a\n" +
	"\x05value\x18\x02 \x01(\v2\v.fxpb.S46M4:\x028\x01\x1a+\n" +
	"\tF996Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\x05\x12\r\n" +
	"\x05value\x18\x02 \x01(\x05:\x028\x01\"\xcc\x01\n" +
	"\x05S46M3\x12\x15\n" +
	"\x05f2048\x18\x80\x10 \x03(\x05B\x05\xaa\x01\x02\x18\x02\x12!\n" +
	"\x03f13\x18\r \x03(\v2\x14.fxpb.S46M3.F13Entry\x12\n" +
	"\n" +
	"\x02f2\x18\x02 \x01(\x03\x12\x11\n" +
	"\x02f4\x18\x04 \x01(\x0fB\x05\xaa\x01\x02\b\x02\x12\x11\n" +
	"\x02f5\x18\x05 \x01(\x10B\x05\xaa\x01\x02\b\x02\x12\x16\n" +
	"\tf17083450\x18\xbaؒ\b \x01(\x05H\x00\x12\r\n" +
	"\x03f15\x18\x0f \x01(\x01H\x00\x1a*\n" +
	"\bF13Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\x06\x12\r\n" +
	"\x05value\x18\x02 \x01(\x11:\x028\x01B\x04\n" +
	"\x02o0\"\a\n" +
	"\x05S46M4\"\xff\x01\n" +
	"\x05S46M5\x12\x15\n" +
	"\n" +
	"f249548881\x18Ѡ\xffv \x01(\b\x12\x15\n" +
	"\x05f1002\x18\xea\a \x03(\x10B\x05\xaa\x01\x02\x18\x02\x12\x11\n" +
	"\x02f9\x18\t \x01(\bB\x05\xaa\x01\x02\b\x02\x12\x12\n" +
	"\x03f28\x18\x1c \x03(\x03B\x05\xaa\x01\x02\x18\x01\x12\n" +
	"\n" +
	"\x02f1\x18\x01 \x01(\f\x12\x12\n" +
	"\x03f13\x18\r \x03(\x01B\x05\xaa\x01\x02\x18\x01\x12+\n" +
	"\af262143\x18\xff\xff\x0f \x03(\v2\x18.fxpb.S46M5.F262143Entry\x12\x1b\n" +
	"\tf33554432\x18\x80\x80\x80\x10 \x01(\x10B\x05\xaa\x01\x02\b\x02\x1a7\n" +
	"\fF262143Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\x0f\x12\x16\n" +
	"\x05value\x18\x02 \x01(\x0e2\a.fxpb.E:\x028\x01\"\xaf\x01\n" +
	"\x05S47M1\x12!\n" +
	"\x04f563\x18\xb3\x04 \x01(\v2\v.fxpb.S47M2B\x05\xaa\x01\x02\b\x03\x12\x17\n" +
	"\x06f18999\x18\xb7\x94\x01 \x03(\aB\x05\xaa\x01\x02\x18\x02\x12\x14\n" +
	"\x04f998\x18\xe6\a \x01(\x0fB\x05\xaa\x01\x02\b\x02\x12\x1a\n" +
	"\x04f187\x18\xbb\x01 \x01(\v2\v.fxpb.S47M5\x12\x14\n" +
	"\x04f671\x18\x9f\x05 \x01(\bB\x05\xaa\x01\x02\b\x02\x12\x1c\n" +
	"\x04f995\x18\xe3\a \x01(\v2\v.fxpb.S47M3H\x00B\x04\n" +
	"\x02o0\"\a\n" +
	"\x05S47M2\"\xe3\x01\n" +
	"\x05S47M3\x12!\n" +
	"\x03f11\x18\v \x03(\v2\x14.fxpb.S47M3.F11Entry\x12\x15\n" +
	"\x05f1006\x18\xee\a \x03(\x06B\x05\xaa\x01\x02\x18\x02\x12\x14\n" +
	"\x04f398\x18\x8e\x03 \x01(\rB\x05\xaa\x01\x02\b\x02\x12\x1f\n" +
	"\x06f18999\x18\xb7\x94\x01 \x01(\v2\v.fxpb.S47M4H\x00\x12\x0f\n" +
	"\x04f999\x18\xe7\a \x01(\x12H\x00\x12\x0f\n" +
	"\x04f997\x18\xe5\a \x01(\x01H\x00\x12\x0f\n" +
	"\x04f998\x18\xe6\a \x01(\x04H\x01\x1a*\n" +
	"\bF11Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\x05\x12\r\n" +
	"\x05value\x18\x02 \x01(\x02:\x028\x01B\x04\n" +
	"\x02o0B\x04\n" +
	"\x02o1\"\xc0\x02\n" +
	"\x05S47M4\x12!\n" +
	"\x03f17\x18\x11 \x03(\v2\x14.fxpb.S47M4.F17Entry\x12\n" +
	"\n" +
	"\x02f6\x18\x06 \x01(\x10\x12\x1f\n" +
	"\x02f7\x18\a \x03(\v2\x13.fxpb.S47M4.F7Entry\x12!\n" +
	"\x03f12\x18\f \x03(\v2\x14.fxpb.S47M4.F12Entry\x12\v\n" +
	"\x03f18\x18\x12 \x01(\t\x12\x11\n" +
	"\x02f8\x18\b \x01(\x12B\x05\xaa\x01\x02\b\x03\x12\r\n" +
	"\x03f40\x18( \x01(\x12H\x00\x12\f\n" +
	"\x02f1\x18\x01 \x01(\rH\x00\x1a*\n" +
	"\bF17Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\a\x12\r\n" +
	"\x05value\x18\x02 \x01(\x05:\x028\x01\x1a)\n" +
	"\aF7Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\x03\x12\r\n" +
	"\x05value\x18\x02 \x01(\f:\x028\x01\x1a*\n" +
	"\bF12Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\x05\x12\r\n" +
	"\x05value\x18\x02 \x01(\x0f:\x028\x01B\x04\n" +
	"\x02o0\"\x9c\x01\n" +
	"\x05S47M5\x12\n" +
	"\n" +
	"\x02f8\x18\b \x01(\a\x12\x12\n" +
	"\x03f13\x18\r \x03(\aB\x05\xaa\x01\x02\x18\x01\x123\n" +
	"\n" +
	"f536870911\x18\xff\xff\xff\xff\x01 \x03(\v2\x1b.fxpb.S47M5.F536870911Entry\x1a>\n" +
	"\x0fF536870911Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\x0f\x12\x1a\n" +
	"\x05value\x18\x02 \x01(\v2\v.fxpb.S47M6:\x028\x01\"E\n" +
	"\x05S47M6\x12\x0e\n" +
	"\x05f2048\x18\x80\x10 \x01(\x04\x12\f\n" +
	"\x02f1\x18\x01 \x01(\x10H\x00\x12\x18\n" +
	"\n" +
	"f536870910\x18\xfe\xff\xff\xff\x01 \x01(\x06H\x00B\x04\n" +
	"\x02o0\"\xe1\x03\n" +
	"\x03Rec\x12\x15\n" +
	"\x02f1\x18\x01 \x01(\v2\t.fxpb.Rec\x12\x15\n" +
	"\x02f2\x18\x02 \x03(\v2\t.fxpb.Rec\x12\x1d\n" +
	"\x02f3\x18\x03 \x03(\v2\x11.fxpb.Rec.F3Entry\x12\x1d\n" +
	"\x02f4\x18\x04 \x03(\v2\x11.fxpb.Rec.F4Entry\x12\x1d\n" +
	"\x02f5\x18\x05 \x03(\v2\x11.fxpb.Rec.F5Entry\x12\x1d\n" +
	"\x02f6\x18\x06 \x03(\v2\x11.fxpb.Rec.F6Entry\x12\x11\n" +
	"\x02f9\x18\t \x01(\x05B\x05\xaa\x01\x02\b\x02\x12\v\n" +
	"\x03f10\x18\n" +
	" \x01(\t\x12\v\n" +
	"\x03f11\x18\v \x03(\f\x12\x17\n" +
	"\x02f7\x18\a \x01(\v2\t.fxpb.RecH\x00\x12\f\n" +
	"\x02f8\x18\b \x01(\x05H\x00\x1a4\n" +
	"\aF3Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\t\x12\x18\n" +
	"\x05value\x18\x02 \x01(\v2\t.fxpb.Rec:\x028\x01\x1a4\n" +
	"\aF4Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\x05\x12\x18\n" +
	"\x05value\x18\x02 \x01(\v2\t.fxpb.Rec:\x028\x01\x1a4\n" +
	"\aF5Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\x04\x12\x18\n" +
	"\x05value\x18\x02 \x01(\v2\t.fxpb.Rec:\x028\x01\x1a4\n" +
	"\aF6Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\b\x12\x18\n" +
	"\x05value\x18\x02 \x01(\v2\t.fxpb.Rec:\x028\x01B\x04\n" +
	"\x02o0\"I\n" +
	"\x04MutA\x12\x16\n" +
	"\x02f1\x18\x01 \x01(\v2\n" +
	".fxpb.MutB\x12\x11\n" +
	"\x02f2\x18\x02 \x03(\x12B\x05\xaa\x01\x02\x18\x01\x12\x16\n" +
	"\x02f3\x18\x03 \x03(\v2\n" +
	".fxpb.MutA\"\x88\x01\n" +
	"\x04MutB\x12\x16\n" +
	"\x02f1\x18\x01 \x01(\v2\n" +
	".fxpb.MutA\x12\x1e\n" +
	"\x02f2\x18\x02 \x03(\v2\x12.fxpb.MutB.F2Entry\x12\x11\n" +
	"\x02f3\x18\x03 \x01(\x01B\x05\xaa\x01\x02\b\x02\x1a5\n" +
	"\aF2Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\x11\x12\x19\n" +
	"\x05value\x18\x02 \x01(\v2\n" +
	".fxpb.MutA:\x028\x01\"\xcd\x02\n" +
	"\vAllImplicit\x12\x11\n" +
	"\x02f1\x18\x01 \x01(\x05B\x05\xaa\x01\x02\b\x02\x12\x11\n" +
	"\x02f2\x18\x02 \x01(\x03B\x05\xaa\x01\x02\b\x02\x12\x11\n" +
	"\x02f3\x18\x03 \x01(\rB\x05\xaa\x01\x02\b\x02\x12\x11\n" +
	"\x02f4\x18\x04 \x01(\x04B\x05\xaa\x01\x02\b\x02\x12\x11\n" +
	"\x02f5\x18\x05 \x01(\x11B\x05\xaa\x01\x02\b\x02\x12\x11\n" +
	"\x02f6\x18\x06 \x01(\x12B\x05\xaa\x01\x02\b\x02\x12\x11\n" +
	"\x02f7\x18\a \x01(\aB\x05\xaa\x01\x02\b\x02\x12\x11\n" +
	"\x02f8\x18\b \x01(\x06B\x05\xaa\x01\x02\b\x02\x12\x11\n" +
	"\x02f9\x18\t \x01(\x0fB\x05\xaa\x01\x02\b\x02\x12\x12\n" +
	"\x03f10\x18\n" +
	" \x01(\x10B\x05\xaa\x01\x02\b\x02\x12\x12\n" +
	"\x03f11\x18\v \x01(\x02B\x05\xaa\x01\x02\b\x02\x12\x12\n" +
	"\x03f12\x18\f \x01(\x01B\x05\xaa\x01\x02\b\x02\x12\x12\n" +
	"\x03f13\x18\r \x01(\bB\x05\xaa\x01\x02\b\x02\x12\x1b\n" +
	"\x03f14\x18\x0e \x01(\x0e2\a.fxpb.EB\x05\xaa\x01\x02\b\x02\x12\x12\n" +
	"\x03f15\x18\x0f \x01(\tB\x05\xaa\x01\x02\b\x02\x12\x12\n" +
	"\x03f16\x18\x10 \x01(\fB\x05\xaa\x01\x02\b\x02\"\xdd\x01\n" +
	"\vAllExplicit\x12\n" +
	"\n" +
	"\x02f1\x18\x01 \x01(\x05\x12\n" +
	"\n" +
	"\x02f2\x18\x02 \x01(\x03\x12\n" +
	"\n" +
	"\x02f3\x18\x03 \x01(\r\x12\n" +
	"\n" +
	"\x02f4\x18\x04 \x01(\x04\x12\n" +
	"\n" +
	"\x02f5\x18\x05 \x01(\x11\x12\n" +
	"\n" +
	"\x02f6\x18\x06 \x01(\x12\x12\n" +
	"\n" +
	"\x02f7\x18\a \x01(\a\x12\n" +
	"\n" +
	"\x02f8\x18\b \x01(\x06\x12\n" +
	"\n" +
	"\x02f9\x18\t \x01(\x0f\x12\v\n" +
	"\x03f10\x18\n" +
	" \x01(\x10\x12\v\n" +
	"\x03f11\x18\v \x01(\x02\x12\v\n" +
	"\x03f12\x18\f \x01(\x01\x12\v\n" +
	"\x03f13\x18\r \x01(\b\x12\x14\n" +
	"\x03f14\x18\x0e \x01(\x0e2\a.fxpb.E\x12\v\n" +
	"\x03f15\x18\x0f \x01(\t\x12\v\n" +
	"\x03f16\x18\x10 \x01(\f\"\xe0\x04\n" +
	"\vAllRepeated\x12\x11\n" +
	"\x02f1\x18\x01 \x03(\x05B\x05\xaa\x01\x02\x18\x01\x12\x11\n" +
	"\x02f2\x18\x02 \x03(\x05B\x05\xaa\x01\x02\x18\x02\x12\x11\n" +
	"\x02f3\x18\x03 \x03(\x03B\x05\xaa\x01\x02\x18\x01\x12\x11\n" +
	"\x02f4\x18\x04 \x03(\x03B\x05\xaa\x01\x02\x18\x02\x12\x11\n" +
	"\x02f5\x18\x05 \x03(\rB\x05\xaa\x01\x02\x18\x01\x12\x11\n" +
	"\x02f6\x18\x06 \x03(\rB\x05\xaa\x01\x02\x18\x02\x12\x11\n" +
	"\x02f7\x18\a \x03(\x04B\x05\xaa\x01\x02\x18\x01\x12\x11\n" +
	"\x02f8\x18\b \x03(\x04B\x05\xaa\x01\x02\x18\x02\x12\x11\n" +
	"\x02f9\x18\t \x03(\x11B\x05\xaa\x01\x02\x18\x01\x12\x12\n" +
	"\x03f10\x18\n" +
	" \x03(\x11B\x05\xaa\x01\x02\x18\x02\x12\x12\n" +
	"\x03f11\x18\v \x03(\x12B\x05\xaa\x01\x02\x18\x01\x12\x12\n" +
	"\x03f12\x18\f \x03(\x12B\x05\xaa\x01\x02\x18\x02\x12\x12\n" +
	"\x03f13\x18\r \x03(\aB\x05\xaa\x01\x02\x18\x01\x12\x12\n" +
	"\x03f14\x18\x0e \x03(\aB\x05\xaa\x01\x02\x18\x02\x12\x12\n" +
	"\x03f15\x18\x0f \x03(\x06B\x05\xaa\x01\x02\x18\x01\x12\x12\n" +
	"\x03f16\x18\x10 \x03(\x06B\x05\xaa\x01\x02\x18\x02\x12\x12\n" +
	"\x03f17\x18\x11 \x03(\x0fB\x05\xaa\x01\x02\x18\x01\x12\x12\n" +
	"\x03f18\x18\x12 \x03(\x0fB\x05\xaa\x01\x02\x18\x02\x12\x12\n" +
	"\x03f19\x18\x13 \x03(\x10B\x05\xaa\x01\x02\x18\x01\x12\x12\n" +
	"\x03f20\x18\x14 \x03(\x10B\x05\xaa\x01\x02\x18\x02\x12\x12\n" +
	"\x03f21\x18\x15 \x03(\x02B\x05\xaa\x01\x02\x18\x01\x12\x12\n" +
	"\x03f22\x18\x16 \x03(\x02B\x05\xaa\x01\x02\x18\x02\x12\x12\n" +
	"\x03f23\x18\x17 \x03(\x01B\x05\xaa\x01\x02\x18\x01\x12\x12\n" +
	"\x03f24\x18\x18 \x03(\x01B\x05\xaa\x01\x02\x18\x02\x12\x12\n" +
	"\x03f25\x18\x19 \x03(\bB\x05\xaa\x01\x02\x18\x01\x12\x12\n" +
	"\x03f26\x18\x1a \x03(\bB\x05\xaa\x01\x02\x18\x02\x12\x1b\n" +
	"\x03f27\x18\x1b \x03(\x0e2\a.fxpb.EB\x05\xaa\x01\x02\x18\x01\x12\x1b\n" +
	"\x03f28\x18\x1c \x03(\x0e2\a.fxpb.EB\x05\xaa\x01\x02\x18\x02\x12\v\n" +
	"\x03f29\x18\x1d \x03(\t\x12\v\n" +
	"\x03f30\x18\x1e \x03(\f\"\xd0\x04\n" +
	"\bAllOneof\x12\f\n" +
	"\x02f1\x18\x01 \x01(\x05H\x00\x12\f\n" +
	"\x02f2\x18\x02 \x01(\tH\x00\x12\f\n" +
	"\x02f3\x18\x03 \x01(\x03H\x01\x12\f\n" +
	"\x02f4\x18\x04 \x01(\tH\x01\x12\f\n" +
	"\x02f5\x18\x05 \x01(\rH\x02\x12\f\n" +
	"\x02f6\x18\x06 \x01(\tH\x02\x12\f\n" +
	"\x02f7\x18\a \x01(\x04H\x03\x12\f\n" +
	"\x02f8\x18\b \x01(\tH\x03\x12\f\n" +
	"\x02f9\x18\t \x01(\x11H\x04\x12\r\n" +
	"\x03f10\x18\n" +
	" \x01(\tH\x04\x12\r\n" +
	"\x03f11\x18\v \x01(\x12H\x05\x12\r\n" +
	"\x03f12\x18\f \x01(\tH\x05\x12\r\n" +
	"\x03f13\x18\r \x01(\aH\x06\x12\r\n" +
	"\x03f14\x18\x0e \x01(\tH\x06\x12\r\n" +
	"\x03f15\x18\x0f \x01(\x06H\a\x12\r\n" +
	"\x03f16\x18\x10 \x01(\tH\a\x12\r\n" +
	"\x03f17\x18\x11 \x01(\x0fH\b\x12\r\n" +
	"\x03f18\x18\x12 \x01(\tH\b\x12\r\n" +
	"\x03f19\x18\x13 \x01(\x10H\t\x12\r\n" +
	"\x03f20\x18\x14 \x01(\tH\t\x12\r\n" +
	"\x03f21\x18\x15 \x01(\x02H\n" +
	"\x12\r\n" +
	"\x03f22\x18\x16 \x01(\tH\n" +
	"\x12\r\n" +
	"\x03f23\x18\x17 \x01(\x01H\v\x12\r\n" +
	"\x03f24\x18\x18 \x01(\tH\v\x12\r\n" +
	"\x03f25\x18\x19 \x01(\bH\f\x12\r\n" +
	"\x03f26\x18\x1a \x01(\tH\f\x12\x16\n" +
	"\x03f27\x18\x1b \x01(\x0e2\a.fxpb.EH\r\x12\r\n" +
	"\x03f28\x18\x1c \x01(\tH\r\x12\r\n" +
	"\x03f29\x18\x1d \x01(\tH\x0e\x12\r\n" +
	"\x03f30\x18\x1e \x01(\tH\x0e\x12\r\n" +
	"\x03f31\x18\x1f \x01(\fH\x0f\x12\r\n" +
	"\x03f32\x18  \x01(\tH\x0fB\x04\n" +
	"\x02o0B\x04\n" +
	"\x02o1B\x04\n" +
	"\x02o2B\x04\n" +
	"\x02o3B\x04\n" +
	"\x02o4B\x04\n" +
	"\x02o5B\x04\n" +
	"\x02o6B\x04\n" +
	"\x02o7B\x04\n" +
	"\x02o8B\x04\n" +
	"\x02o9B\x05\n" +
	"\x03o10B\x05\n" +
	"\x03o11B\x05\n" +
	"\x03o12B\x05\n" +
	"\x03o13B\x05\n" +
	"\x03o14B\x05\n" +
	"\x03o15\"\xc0\n" +
	"\n" +
	"\x05Maps0\x12\x1f\n" +
	"\x02f1\x18\x01 \x03(\v2\x13.fxpb.Maps0.F1Entry\x12\x1f\n" +
	"\x02f2\x18\x02 \x03(\v2\x13.fxpb.Maps0.F2Entry\x12\x1f\n" +
	"\x02f3\x18\x03 \x03(\v2\x13.fxpb.Maps0.F3Entry\x12\x1f\n" +
	"\x02f4\x18\x04 \x03(\v2\x13.fxpb.Maps0.F4Entry\x12\x1f\n" +
	"\x02f5\x18\x05 \x03(\v2\x13.fxpb.Maps0.F5Entry\x12\x1f\n" +
	"\x02f6\x18\x06 \x03(\v2\x13.fxpb.Maps0.F6Entry\x12\x1f\n" +
	"\x02f7\x18\a \x03(\v2\x13.fxpb.Maps0.F7Entry\x12\x1f\n" +
	"\x02f8\x18\b \x03(\v2\x13.fxpb.Maps0.F8Entry\x12\x1f\n" +
	"\x02f9\x18\t \x03(\v2\x13.fxpb.Maps0.F9Entry\x12!\n" +
	"\x03f10\x18\n" +
	" \x03(\v2\x14.fxpb.Maps0.F10Entry\x12!\n" +
	"\x03f11\x18\v \x03(\v2\x14.fxpb.Maps0.F11Entry\x12!\n" +
	"\x03f12\x18\f \x03(\v2\x14.fxpb.Maps0.F12Entry\x12!\n" +
	"\x03f13\x18\r \x03(\v2\x14.fxpb.Maps0.F13Entry\x12!\n" +
	"\x03f14\x18\x0e \x03(\v2\x14.fxpb.Maps0.F14Entry\x12!\n" +
	"\x03f15\x18\x0f \x03(\v2\x14.fxpb.Maps0.F15Entry\x12!\n" +
	"\x03f16\x18\x10 \x03(\v2\x14.fxpb.Maps0.F16Entry\x12!\n" +
	"\x03f17\x18\x11 \x03(\v2\x14.fxpb.Maps0.F17Entry\x1a)\n" +
	"\aF1Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\x05\x12\r\n" +
	"\x05value\x18\x02 \x01(\x05:\x028\x01\x1a)\n" +
	"\aF2Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\x05\x12\r\n" +
	"\x05value\x18\x02 \x01(\x03:\x028\x01\x1a)\n" +
	"\aF3Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\x05\x12\r\n" +
	"\x05value\x18\x02 \x01(\r:\x028\x01\x1a)\n" +
	"\aF4Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\x05\x12\r\n" +
	"\x05value\x18\x02 \x01(\x04:\x028\x01\x1a)\n" +
	"\aF5Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\x05\x12\r\n" +
	"\x05value\x18\x02 \x01(\x11:\x028\x01\x1a)\n" +
	"\aF6Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\x05\x12\r\n" +
	"\x05value\x18\x02 \x01(\x12:\x028\x01\x1a)\n" +
	"\aF7Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\x05\x12\r\n" +
	"\x05value\x18\x02 \x01(\a:\x028\x01\x1a)\n" +
	"\aF8Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\x05\x12\r\n" +
	"\x05value\x18\x02 \x01(\x06:\x028\x01\x1a)\n" +
	"\aF9Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\x05\x12\r\n" +
	"\x05value\x18\x02 \x01(\x0f:\x028\x01\x1a*\n" +
	"\bF10Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\x05\x12\r\n" +
	"\x05value\x18\x02 \x01(\x10:\x028\x01\x1a*\n" +
	"\bF11Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\x05\x12\r\n" +
	"\x05value\x18\x02 \x01(\x02:\x028\x01\x1a*\n" +
	"\bF12Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\x05\x12\r\n" +
	"\x05value\x18\x02 \x01(\x01:\x028\x01\x1a*\n" +
	"\bF13Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\x05\x12\r\n" +
	"\x05value\x18\x02 \x01(\b:\x028\x01\x1a3\n" +
	"\bF14Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\x05\x12\x16\n" +
	"\x05value\x18\x02 \x01(\x0e2\a.fxpb.E:\x028\x01\x1a*\n" +
	"\bF15Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\x05\x12\r\n" +
	"\x05value\x18\x02 \x01(\t:\x028\x01\x1a*\n" +
	"\bF16Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\x05\x12\r\n" +
	"\x05value\x18\x02 \x01(\f:\x028\x01\x1a6\n" +
	"\bF17Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\x05\x12\x19\n" +
	"\x05value\x18\x02 \x01(\v2\n" +
	".fxpb.Leaf:\x028\x01\"%\n" +
	"\x04Leaf\x12\x11\n" +
	"\x02f1\x18\x01 \x01(\x05B\x05\xaa\x01\x02\b\x02\x12\n" +
	"\n" +
	"\x02f2\x18\x02 \x03(\t\"\xc0\n" +
	"\n" +
	"\x05Maps1\x12\x1f\n" +
	"\x02f1\x18\x01 \x03(\v2\x13.fxpb.Maps1.F1Entry\x12\x1f\n" +
	"\x02f2\x18\x02 \x03(\v2\x13.fxpb.Maps1.F2Entry\x12\x1f\n" +
	"\x02f3\x18\x03 \x03(\v2\x13.fxpb.Maps1.F3Entry\x12\x1f\n" +
	"\x02f4\x18\x04 \x03(\v2\x13.fxpb.Maps1.F4Entry\x12\x1f\n" +
	"\x02f5\x18\x05 \x03(\v2\x13.fxpb.Maps1.F5Entry\x12\x1f\n" +
	"\x02f6\x18\x06 \x03(\v2\x13.fxpb.Maps1.F6Entry\x12\x1f\n" +
	"\x02f7\x18\a \x03(\v2\x13.fxpb.Maps1.F7Entry\x12\x1f\n" +
	"\x02f8\x18\b \x03(\v2\x13.fxpb.Maps1.F8Entry\x12\x1f\n" +
	"\x02f9\x18\t \x03(\v2\x13.fxpb.Maps1.F9Entry\x12!\n" +
	"\x03f10\x18\n" +
	" \x03(\v2\x14.fxpb.Maps1.F10Entry\x12!\n" +
	"\x03f11\x18\v \x03(\v2\x14.fxpb.Maps1.F11Entry\x12!\n" +
	"\x03f12\x18\f \x03(\v2\x14.fxpb.Maps1.F12Entry\x12!\n" +
	"\x03f13\x18\r \x03(\v2\x14.fxpb.Maps1.F13Entry\x12!\n" +
	"\x03f14\x18\x0e \x03(\v2\x14.fxpb.Maps1.F14Entry\x12!\n" +
	"\x03f15\x18\x0f \x03(\v2\x14.fxpb.Maps1.F15Entry\x12!\n" +
	"\x03f16\x18\x10 \x03(\v2\x14.fxpb.Maps1.F16Entry\x12!\n" +
	"\x03f17\x18\x11 \x03(\v2\x14.fxpb.Maps1.F17Entry\x1a)\n" +
	"\aF1Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\x03\x12\r\n" +
	"\x05value\x18\x02 \x01(\x05:\x028\x01\x1a)\n" +
	"\aF2Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\x03\x12\r\n" +
	"\x05value\x18\x02 \x01(\x03:\x028\x01\x1a)\n" +
	"\aF3Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\x03\x12\r\n" +
	"\x05value\x18\x02 \x01(\r:\x028\x01\x1a)\n" +
	"\aF4Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\x03\x12\r\n" +
	"\x05value\x18\x02 \x01(\x04:\x028\x01\x1a)\n" +
	"\aF5Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\x03\x12\r\n" +
	"\x05value\x18\x02 \x01(\x11:\x028\x01\x1a)\n" +
	"\aF6Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\x03\x12\r\n" +
	"\x05value\x18\x02 \x01(\x12:\x028\x01\x1a)\n" +
	"\aF7Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\x03\x12\r\n" +
	"\x05value\x18\x02 \x01(\a:\x028\x01\x1a)\n" +
	"\aF8Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\x03\x12\r\n" +
	"\x05value\x18\x02 \x01(\x06:\x028\x01\x1a)\n" +
	"\aF9Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\x03\x12\r\n" +
	"\x05value\x18\x02 \x01(\x0f:\x028\x01\x1a*\n" +
	"\bF10Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\x03\x12\r\n" +
	"\x05value\x18\x02 \x01(\x10:\x028\x01\x1a*\n" +
	"\bF11Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\x03\x12\r\n" +
	"\x05value\x18\x02 \x01(\x02:\x028\x01\x1a*\n" +
	"\bF12Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\x03\x12\r\n" +
	"\x05value\x18\x02 \x01(\x01:\x028\x01\x1a*\n" +
	"\bF13Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\x03\x12\r\n" +
	"\x05value\x18\x02 \x01(\b:\x028\x01\x1a3\n" +
	"\bF14Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\x03\x12\x16\n" +
	"\x05value\x18\x02 \x01(\x0e2\a.fxpb.E:\x028\x01\x1a*\n" +
	"\bF15Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\x03\x12\r\n" +
	"\x05value\x18\x02 \x01(\t:\x028\x01\x1a*\n" +
	"\bF16Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\x03\x12\r\n" +
	"\x05value\x18\x02 \x01(\f:\x028\x01\x1a6\n" +
	"\bF17Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\x03\x12\x19\n" +
	"\x05value\x18\x02 \x01(\v2\n" +
	".fxpb.Leaf:\x028\x01\"\xc0\n" +
	"\n" +
	"\x05Maps2\x12\x1f\n" +
	"\x02f1\x18\x01 \x03(\v2\x13.fxpb.Maps2.F1Entry\x12\x1f\n" +
	"\x02f2\x18\x02 \x03(\v2\x13.fxpb.Maps2.F2Entry\x12\x1f\n" +
	"\x02f3\x18\x03 \x03(\v2\x13.fxpb.Maps2.F3Entry\x12\x1f\n" +
	"\x02f4\x18\x04 \x03(\v2\x13.fxpb.Maps2.F4Entry\x12\x1f\n" +
	"\x02f5\x18\x05 \x03(\v2\x13.fxpb.Maps2.F5Entry\x12\x1f\n" +
	"\x02f6\x18\x06 \x03(\v2\x13.fxpb.Maps2.F6Entry\x12\x1f\n" +
	"\x02f7\x18\a \x03(\v2\x13.fxpb.Maps2.F7Entry\x12\x1f\n" +
	"\x02f8\x18\b \x03(\v2\x13.fxpb.Maps2.F8Entry\x12\x1f\n" +
	"\x02f9\x18\t \x03(\v2\x13.fxpb.Maps2.F9Entry\x12!\n" +
	"\x03f10\x18\n" +
	" \x03(\v2\x14.fxpb.Maps2.F10Entry\x12!\n" +
	"\x03f11\x18\v \x03(\v2\x14.fxpb.Maps2.F11Entry\x12!\n" +
	"\x03f12\x18\f \x03(\v2\x14.fxpb.Maps2.F12Entry\x12!\n" +
	"\x03f13\x18\r \x03(\v2\x14.fxpb.Maps2.F13Entry\x12!\n" +
	"\x03f14\x18\x0e \x03(\v2\x14.fxpb.Maps2.F14Entry\x12!\n" +
	"\x03f15\x18\x0f \x03(\v2\x14.fxpb.Maps2.F15Entry\x12!\n" +
	"\x03f16\x18\x10 \x03(\v2\x14.fxpb.Maps2.F16Entry\x12!\n" +
	"\x03f17\x18\x11 \x03(\v2\x14.fxpb.Maps2.F17Entry\x1a)\n" +
	"\aF1Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\r\x12\r\n" +
	"\x05value\x18\x02 \x01(\x05:\x028\x01\x1a)\n" +
	"\aF2Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\r\x12\r\n" +
	"\x05value\x18\x02 \x01(\x03:\x028\x01\x1a)\n" +
	"\aF3Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\r\x12\r\n" +
	"\x05value\x18\x02 \x01(\r:\x028\x01\x1a)\n" +
	"\aF4Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\r\x12\r\n" +
	"\x05value\x18\x02 \x01(\x04:\x028\x01\x1a)\n" +
	"\aF5Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\r\x12\r\n" +
	"\x05value\x18\x02 \x01(\x11:\x028\x01\x1a)\n" +
	"\aF6Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\r\x12\r\n" +
	"\x05value\x18\x02 \x01(\x12:\x028\x01\x1a)\n" +
	"\aF7Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\r\x12\r\n" +
	"\x05value\x18\x02 \x01(\a:\x028\x01\x1a)\n" +
	"\aF8Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\r\x12\r\n" +
	"\x05value\x18\x02 \x01(\x06:\x028\x01\x1a)\n" +
	"\aF9Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\r\x12\r\n" +
	"\x05value\x18\x02 \x01(\x0f:\x028\x01\x1a*\n" +
	"\bF10Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\r\x12\r\n" +
	"\x05value\x18\x02 \x01(\x10:\x028\x01\x1a*\n" +
	"\bF11Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\r\x12\r\n" +
	"\x05value\x18\x02 \x01(\x02:\x028\x01\x1a*\n" +
	"\bF12Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\r\x12\r\n" +
	"\x05value\x18\x02 \x01(\x01:\x028\x01\x1a*\n" +
	"\bF13Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\r\x12\r\n" +
	"\x05value\x18\x02 \x01(\b:\x028\x01\x1a3\n" +
	"\bF14Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\r\x12\x16\n" +
	"\x05value\x18\x02 \x01(\x0e2\a.fxpb.E:\x028\x01\x1a*\n" +
	"\bF15Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\r\x12\r\n" +
	"\x05value\x18\x02 \x01(\t:\x028\x01\x1a*\n" +
	"\bF16Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\r\x12\r\n" +
	"\x05value\x18\x02 \x01(\f:\x028\x01\x1a6\n" +
	"\bF17Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\r\x12\x19\n" +
	"\x05value\x18\x02 \x01(\v2\n" +
	".fxpb.Leaf:\x028\x01\"\xc0\n" +
	"\n" +
	"\x05Maps3\x12\x1f\n" +
	"\x02f1\x18\x01 \x03(\v2\x13.fxpb.Maps3.F1Entry\x12\x1f\n" +
	"\x02f2\x18\x02 \x03(\v2\x13.fxpb.Maps3.F2Entry\x12\x1f\n" +
	"\x02f3\x18\x03 \x03(\v2\x13.fxpb.Maps3.F3Entry\x12\x1f\n" +
	"\x02f4\x18\x04 \x03(\v2\x13.fxpb.Maps3.F4Entry\x12\x1f\n" +
	"\x02f5\x18\x05 \x03(\v2\x13.fxpb.Maps3.F5Entry\x12\x1f\n" +
	"\x02f6\x18\x06 \x03(\v2\x13.fxpb.Maps3.F6Entry\x12\x1f\n" +
	"\x02f7\x18\a \x03(\v2\x13.fxpb.Maps3.F7Entry\x12\x1f\n" +
	"\x02f8\x18\b \x03(\v2\x13.fxpb.Maps3.F8Entry\x12\x1f\n" +
	"\x02f9\x18\t \x03(\v2\x13.fxpb.Maps3.F9Entry\x12!\n" +
	"\x03f10\x18\n" +
	" \x03(\v2\x14.fxpb.Maps3.F10Entry\x12!\n" +
	"\x03f11\x18\v \x03(\v2\x14.fxpb.Maps3.F11Entry\x12!\n" +
	"\x03f12\x18\f \x03(\v2\x14.fxpb.Maps3.F12Entry\x12!\n" +
	"\x03f13\x18\r \x03(\v2\x14.fxpb.Maps3.F13Entry\x12!\n" +
	"\x03f14\x18\x0e \x03(\v2\x14.fxpb.Maps3.F14Entry\x12!\n" +
	"\x03f15\x18\x0f \x03(\v2\x14.fxpb.Maps3.F15Entry\x12!\n" +
	"\x03f16\x18\x10 \x03(\v2\x14.fxpb.Maps3.F16Entry\x12!\n" +
	"\x03f17\x18\x11 \x03(\v2\x14.fxpb.Maps3.F17Entry\x1a)\n" +
	"\aF1Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\x04\x12\r\n" +
	"\x05value\x18\x02 \x01(\x05:\x028\x01\x1a)\n" +
	"\aF2Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\x04\x12\r\n" +
	"\x05value\x18\x02 \x01(\x03:\x028\x01\x1a)\n" +
	"\aF3Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\x04\x12\r\n" +
	"\x05value\x18\x02 \x01(\r:\x028\x01\x1a)\n" +
	"\aF4Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\x04\x12\r\n" +
	"\x05value\x18\x02 \x01(\x04:\x028\x01\x1a)\n" +
	"\aF5Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\x04\x12\r\n" +
	"\x05value\x18\x02 \x01(\x11:\x028\x01\x1a)\n" +
	"\aF6Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\x04\x12\r\n" +
	"\x05value\x18\x02 \x01(\x12:\x028\x01\x1a)\n" +
	"\aF7Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\x04\x12\r\n" +
	"\x05value\x18\x02 \x01(\a:\x028\x01\x1a)\n" +
	"\aF8Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\x04\x12\r\n" +
	"\x05value\x18\x02 \x01(\x06:\x028\x01\x1a)\n" +
	"\aF9Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\x04\x12\r\n" +
	"\x05value\x18\x02 \x01(\x0f:\x028\x01\x1a*\n" +
	"\bF10Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\x04\x12\r\n" +
	"\x05value\x18\x02 \x01(\x10:\x028\x01\x1a*\n" +
	"\bF11Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\x04\x12\r\n" +
	"\x05value\x18\x02 \x01(\x02:\x028\x01\x1a*\n" +
	"\bF12Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\x04\x12\r\n" +
	"\x05value\x18\x02 \x01(\x01:\x028\x01\x1a*\n" +
	"\bF13Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\x04\x12\r\n" +
	"\x05value\x18\x02 \x01(\b:\x028\x01\x1a3\n" +
	"\bF14Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\x04\x12\x16\n" +
	"\x05value\x18\x02 \x01(\x0e2\a.fxpb.E:\x028\x01\x1a*\n" +
	"\bF15Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\x04\x12\r\n" +
	"\x05value\x18\x02 \x01(\t:\x028\x01\x1a*\n" +
	"\bF16Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\x04\x12\r\n" +
	"\x05value\x18\x02 \x01(\f:\x028\x01\x1a6\n" +
	"\bF17Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\x04\x12\x19\n" +
	"\x05value\x18\x02 \x01(\v2\n" +
	".fxpb.Leaf:\x028\x01\"\xc0\n" +
	"\n" +
	"\x05Maps4\x12\x1f\n" +
	"\x02f1\x18\x01 \x03(\v2\x13.fxpb.Maps4.F1Entry\x12\x1f\n" +
	"\x02f2\x18\x02 \x03(\v2\x13.fxpb.Maps4.F2Entry\x12\x1f\n" +
	"\x02f3\x18\x03 \x03(\v2\x13.fxpb.Maps4.F3Entry\x12\x1f\n" +
	"\x02f4\x18\x04 \x03(\v2\x13.fxpb.Maps4.F4Entry\x12\x1f\n" +
	"\x02f5\x18\x05 \x03(\v2\x13.fxpb.Maps4.F5Entry\x12\x1f\n" +
	"\x02f6\x18\x06 \x03(\v2\x13.fxpb.Maps4.F6Entry\x12\x1f\n" +
	"\x02f7\x18\a \x03(\v2\x13.fxpb.Maps4.F7Entry\x12\x1f\n" +
	"\x02f8\x18\b \x03(\v2\x13.fxpb.Maps4.F8Entry\x12\x1f\n" +
	"\x02f9\x18\t \x03(\v2\x13.fxpb.Maps4.F9Entry\x12!\n" +
	"\x03f10\x18\n" +
	" \x03(\v2\x14.fxpb.Maps4.F10Entry\x12!\n" +
	"\x03f11\x18\v \x03(\v2\x14.fxpb.Maps4.F11Entry\x12!\n" +
	"\x03f12\x18\f \x03(\v2\x14.fxpb.Maps4.F12Entry\x12!\n" +
	"\x03f13\x18\r \x03(\v2\x14.fxpb.Maps4.F13Entry\x12!\n" +
	"\x03f14\x18\x0e \x03(\v2\x14.fxpb.Maps4.F14Entry\x12!\n" +
	"\x03f15\x18\x0f \x03(\v2\x14.fxpb.Maps4.F15Entry\x12!\n" +
	"\x03f16\x18\x10 \x03(\v2\x14.fxpb.Maps4.F16Entry\x12!\n" +
	"\x03f17\x18\x11 \x03(\v2\x14.fxpb.Maps4.F17Entry\x1a)\n" +
	"\aF1Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\x11\x12\r\n" +
	"\x05value\x18\x02 \x01(\x05:\x028\x01\x1a)\n" +
	"\aF2Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\x11\x12\r\n" +
	"\x05value\x18\x02 \x01(\x03:\x028\x01\x1a)\n" +
	"\aF3Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\x11\x12\r\n" +
	"\x05value\x18\x02 \x01(\r:\x028\x01\x1a)\n" +
	"\aF4Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\x11\x12\r\n" +
	"\x05value\x18\x02 \x01(\x04:\x028\x01\x1a)\n" +
	"\aF5Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\x11\x12\r\n" +
	"\x05value\x18\x02 \x01(\x11:\x028\x01\x1a)\n" +
	"\aF6Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\x11\x12\r\n" +
	"\x05value\x18\x02 \x01(\x12:\x028\x01\x1a)\n" +
	"\aF7Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\x11\x12\r\n" +
	"\x05value\x18\x02 \x01(\a:\x028\x01\x1a)\n" +
	"\aF8Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\x11\x12\r\n" +
	"\x05value\x18\x02 \x01(\x06:\x028\x01\x1a)\n" +
	"\aF9Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\x11\x12\r\n" +
	"\x05value\x18\x02 \x01(\x0f:\x028\x01\x1a*\n" +
	"\bF10Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\x11\x12\r\n" +
	"\x05value\x18\x02 \x01(\x10:\x028\x01\x1a*\n" +
	"\bF11Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\x11\x12\r\n" +
	"\x05value\x18\x02 \x01(\x02:\x028\x01\x1a*\n" +
	"\bF12Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\x11\x12\r\n" +
	"\x05value\x18\x02 \x01(\x01:\x028\x01\x1a*\n" +
	"\bF13Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\x11\x12\r\n" +
	"\x05value\x18\x02 \x01(\b:\x028\x01\x1a3\n" +
	"\bF14Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\x11\x12\x16\n" +
	"\x05value\x18\x02 \x01(\x0e2\a.fxpb.E:\x028\x01\x1a*\n" +
	"\bF15Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\x11\x12\r\n" +
	"\x05value\x18\x02 \x01(\t:\x028\x01\x1a*\n" +
	"\bF16Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\x11\x12\r\n" +
	"\x05value\x18\x02 \x01(\f:\x028\x01\x1a6\n" +
	"\bF17Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\x11\x12\x19\n" +
	"\x05value\x18\x02 \x01(\v2\n" +
	".fxpb.Leaf:\x028\x01\"\xc0\n" +
	"\n" +
	"\x05Maps5\x12\x1f\n" +
	"\x02f1\x18\x01 \x03(\v2\x13.fxpb.Maps5.F1Entry\x12\x1f\n" +
	"\x02f2\x18\x02 \x03(\v2\x13.fxpb.Maps5.F2Entry\x12\x1f\n" +
	"\x02f3\x18\x03 \x03(\v2\x13.fxpb.Maps5.F3Entry\x12\x1f\n" +
	"\x02f4\x18\x04 \x03(\v2\x13.fxpb.Maps5.F4Entry\x12\x1f\n" +
	"\x02f5\x18\x05 \x03(\v2\x13.fxpb.Maps5.F5Entry\x12\x1f\n" +
	"\x02f6\x18\x06 \x03(\v2\x13.fxpb.Maps5.F6Entry\x12\x1f\n" +
	"\x02f7\x18\a \x03(\v2\x13.fxpb.Maps5.F7Entry\x12\x1f\n" +
	"\x02f8\x18\b \x03(\v2\x13.fxpb.Maps5.F8Entry\x12\x1f\n" +
	"\x02f9\x18\t \x03(\v2\x13.fxpb.Maps5.F9Entry\x12!\n" +
	"\x03f10\x18\n" +
	" \x03(\v2\x14.fxpb.Maps5.F10Entry\x12!\n" +
	"\x03f11\x18\v \x03(\v2\x14.fxpb.Maps5.F11Entry\x12!\n" +
	"\x03f12\x18\f \x03(\v2\x14.fxpb.Maps5.F12Entry\x12!\n" +
	"\x03f13\x18\r \x03(\v2\x14.fxpb.Maps5.F13Entry\x12!\n" +
	"\x03f14\x18\x0e \x03(\v2\x14.fxpb.Maps5.F14Entry\x12!\n" +
	"\x03f15\x18\x0f \x03(\v2\x14.fxpb.Maps5.F15Entry\x12!\n" +
	"\x03f16\x18\x10 \x03(\v2\x14.fxpb.Maps5.F16Entry\x12!\n" +
	"\x03f17\x18\x11 \x03(\v2\x14.fxpb.Maps5.F17Entry\x1a)\n" +
	"\aF1Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\x12\x12\r\n" +
	"\x05value\x18\x02 \x01(\x05:\x028\x01\x1a)\n" +
	"\aF2Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\x12\x12\r\n" +
	"\x05value\x18\x02 \x01(\x03:\x028\x01\x1a)\n" +
	"\aF3Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\x12\x12\r\n" +
	"\x05value\x18\x02 \x01(\r:\x028\x01\x1a)\n" +
	"\aF4Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\x12\x12\r\n" +
	"\x05value\x18\x02 \x01(\x04:\x028\x01\x1a)\n" +
	"\aF5Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\x12\x12\r\n" +
	"\x05value\x18\x02 \x01(\x11:\x028\x01\x1a)\n" +
	"\aF6Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\x12\x12\r\n" +
	"\x05value\x18\x02 \x01(\x12:\x028\x01\x1a)\n" +
	"\aF7Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\x12\x12\r\n" +
	"\x05value\x18\x02 \x01(\a:\x028\x01\x1a)\n" +
	"\aF8Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\x12\x12\r\n" +
	"\x05value\x18\x02 \x01(\x06:\x028\x01\x1a)\n" +
	"\aF9Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\x12\x12\r\n" +
	"\x05value\x18\x02 \x01(\x0f:\x028\x01\x1a*\n" +
	"\bF10Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\x12\x12\r\n" +
	"\x05value\x18\x02 \x01(\x10:\x028\x01\x1a*\n" +
	"\bF11Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\x12\x12\r\n" +
	"\x05value\x18\x02 \x01(\x02:\x028\x01\x1a*\n" +
	"\bF12Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\x12\x12\r\n" +
	"\x05value\x18\x02 \x01(\x01:\x028\x01\x1a*\n" +
	"\bF13Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\x12\x12\r\n" +
	"\x05value\x18\x02 \x01(\b:\x028\x01\x1a3\n" +
	"\bF14Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\x12\x12\x16\n" +
	"\x05value\x18\x02 \x01(\x0e2\a.fxpb.E:\x028\x01\x1a*\n" +
	"\bF15Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\x12\x12\r\n" +
	"\x05value\x18\x02 \x01(\t:\x028\x01\x1a*\n" +
	"\bF16Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\x12\x12\r\n" +
	"\x05value\x18\x02 \x01(\f:\x028\x01\x1a6\n" +
	"\bF17Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\x12\x12\x19\n" +
	"\x05value\x18\x02 \x01(\v2\n" +
	".fxpb.Leaf:\x028\x01\"\xc0\n" +
	"\n" +
	"\x05Maps6\x12\x1f\n" +
	"\x02f1\x18\x01 \x03(\v2\x13.fxpb.Maps6.F1Entry\x12\x1f\n" +
	"\x02f2\x18\x02 \x03(\v2\x13.fxpb.Maps6.F2Entry\x12\x1f\n" +
	"\x02f3\x18\x03 \x03(\v2\x13.fxpb.Maps6.F3Entry\x12\x1f\n" +
	"\x02f4\x18\x04 \x03(\v2\x13.fxpb.Maps6.F4Entry\x12\x1f\n" +
	"\x02f5\x18\x05 \x03(\v2\x13.fxpb.Maps6.F5Entry\x12\x1f\n" +
	"\x02f6\x18\x06 \x03(\v2\x13.fxpb.Maps6.F6Entry\x12\x1f\n" +
	"\x02f7\x18\a \x03(\v2\x13.fxpb.Maps6.F7Entry\x12\x1f\n" +
	"\x02f8\x18\b \x03(\v2\x13.fxpb.Maps6.F8Entry\x12\x1f\n" +
	"\x02f9\x18\t \x03(\v2\x13.fxpb.Maps6.F9Entry\x12!\n" +
	"\x03f10\x18\n" +
	" \x03(\v2\x14.fxpb.Maps6.F10Entry\x12!\n" +
	"\x03f11\x18\v \x03(\v2\x14.fxpb.Maps6.F11Entry\x12!\n" +
	"\x03f12\x18\f \x03(\v2\x14.fxpb.Maps6.F12Entry\x12!\n" +
	"\x03f13\x18\r \x03(\v2\x14.fxpb.Maps6.F13Entry\x12!\n" +
	"\x03f14\x18\x0e \x03(\v2\x14.fxpb.Maps6.F14Entry\x12!\n" +
	"\x03f15\x18\x0f \x03(\v2\x14.fxpb.Maps6.F15Entry\x12!\n" +
	"\x03f16\x18\x10 \x03(\v2\x14.fxpb.Maps6.F16Entry\x12!\n" +
	"\x03f17\x18\x11 \x03(\v2\x14.fxpb.Maps6.F17Entry\x1a)\n" +
	"\aF1Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\a\x12\r\n" +
	"\x05value\x18\x02 \x01(\x05:\x028\x01\x1a)\n" +
	"\aF2Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\a\x12\r\n" +
	"\x05value\x18\x02 \x01(\x03:\x028\x01\x1a)\n" +
	"\aF3Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\a\x12\r\n" +
	"\x05value\x18\x02 \x01(\r:\x028\x01\x1a)\n" +
	"\aF4Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\a\x12\r\n" +
	"\x05value\x18\x02 \x01(\x04:\x028\x01\x1a)\n" +
	"\aF5Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\a\x12\r\n" +
	"\x05value\x18\x02 \x01(\x11:\x028\x01\x1a)\n" +
	"\aF6Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\a\x12\r\n" +
	"\x05value\x18\x02 \x01(\x12:\x028\x01\x1a)\n" +
	"\aF7Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\a\x12\r\n" +
	"\x05value\x18\x02 \x01(\a:\x028\x01\x1a)\n" +
	"\aF8Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\a\x12\r\n" +
	"\x05value\x18\x02 \x01(\x06:\x028\x01\x1a)\n" +
	"\aF9Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\a\x12\r\n" +
	"\x05value\x18\x02 \x01(\x0f:\x028\x01\x1a*\n" +
	"\bF10Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\a\x12\r\n" +
	"\x05value\x18\x02 \x01(\x10:\x028\x01\x1a*\n" +
	"\bF11Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\a\x12\r\n" +
	"\x05value\x18\x02 \x01(\x02:\x028\x01\x1a*\n" +
	"\bF12Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\a\x12\r\n" +
	"\x05value\x18\x02 \x01(\x01:\x028\x01\x1a*\n" +
	"\bF13Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\a\x12\r\n" +
	"\x05value\x18\x02 \x01(\b:\x028\x01\x1a3\n" +
	"\bF14Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\a\x12\x16\n" +
	"\x05value\x18\x02 \x01(\x0e2\a.fxpb.E:\x028\x01\x1a*\n" +
	"\bF15Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\a\x12\r\n" +
	"\x05value\x18\x02 \x01(\t:\x028\x01\x1a*\n" +
	"\bF16Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\a\x12\r\n" +
	"\x05value\x18\x02 \x01(\f:\x028\x01\x1a6\n" +
	"\bF17Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\a\x12\x19\n" +
	"\x05value\x18\x02 \x01(\v2\n" +
	".fxpb.Leaf:\x028\x01\"\xc0\n" +
	"\n" +
	"\x05Maps7\x12\x1f\n" +
	"\x02f1\x18\x01 \x03(\v2\x13.fxpb.Maps7.F1Entry\x12\x1f\n" +
	"\x02f2\x18\x02 \x03(\v2\x13.fxpb.Maps7.F2Entry\x12\x1f\n" +
	"\x02f3\x18\x03 \x03(\v2\x13.fxpb.Maps7.F3Entry\x12\x1f\n" +
	"\x02f4\x18\x04 \x03(\v2\x13.fxpb.Maps7.F4Entry\x12\x1f\n" +
	"\x02f5\x18\x05 \x03(\v2\x13.fxpb.Maps7.F5Entry\x12\x1f\n" +
	"\x02f6\x18\x06 \x03(\v2\x13.fxpb.Maps7.F6Entry\x12\x1f\n" +
	"\x02f7\x18\a \x03(\v2\x13.fxpb.Maps7.F7Entry\x12\x1f\n" +
	"\x02f8\x18\b \x03(\v2\x13.fxpb.Maps7.F8Entry\x12\x1f\n" +
	"\x02f9\x18\t \x03(\v2\x13.fxpb.Maps7.F9Entry\x12!\n" +
	"\x03f10\x18\n" +
	" \x03(\v2\x14.fxpb.Maps7.F10Entry\x12!\n" +
	"\x03f11\x18\v \x03(\v2\x14.fxpb.Maps7.F11Entry\x12!\n" +
	"\x03f12\x18\f \x03(\v2\x14.fxpb.Maps7.F12Entry\x12!\n" +
	"\x03f13\x18\r \x03(\v2\x14.fxpb.Maps7.F13Entry\x12!\n" +
	"\x03f14\x18\x0e \x03(\v2\x14.fxpb.Maps7.F14Entry\x12!\n" +
	"\x03f15\x18\x0f \x03(\v2\x14.fxpb.Maps7.F15Entry\x12!\n" +
	"\x03f16\x18\x10 \x03(\v2\x14.fxpb.Maps7.F16Entry\x12!\n" +
	"\x03f17\x18\x11 \x03(\v2\x14.fxpb.Maps7.F17Entry\x1a)\n" +
	"\aF1Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\x06\x12\r\n" +
	"\x05value\x18\x02 \x01(\x05:\x028\x01\x1a)\n" +
	"\aF2Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\x06\x12\r\n" +
	"\x05value\x18\x02 \x01(\x03:\x028\x01\x1a)\n" +
	"\aF3Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\x06\x12\r\n" +
	"\x05value\x18\x02 \x01(\r:\x028\x01\x1a)\n" +
	"\aF4Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\x06\x12\r\n" +
	"\x05value\x18\x02 \x01(\x04:\x028\x01\x1a)\n" +
	"\aF5Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\x06\x12\r\n" +
	"\x05value\x18\x02 \x01(\x11:\x028\x01\x1a)\n" +
	"\aF6Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\x06\x12\r\n" +
	"\x05value\x18\x02 \x01(\x12:\x028\x01\x1a)\n" +
	"\aF7Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\x06\x12\r\n" +
	"\x05value\x18\x02 \x01(\a:\x028\x01\x1a)\n" +
	"\aF8Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\x06\x12\r\n" +
	"\x05value\x18\x02 \x01(\x06:\x028\x01\x1a)\n" +
	"\aF9Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\x06\x12\r\n" +
	"\x05value\x18\x02 \x01(\x0f:\x028\x01\x1a*\n" +
	"\bF10Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\x06\x12\r\n" +
	"\x05value\x18\x02 \x01(\x10:\x028\x01\x1a*\n" +
	"\bF11Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\x06\x12\r\n" +
	"\x05value\x18\x02 \x01(\x02:\x028\x01\x1a*\n" +
	"\bF12Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\x06\x12\r\n" +
	"\x05value\x18\x02 \x01(\x01:\x028\x01\x1a*\n" +
	"\bF13Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\x06\x12\r\n" +
	"\x05value\x18\x02 \x01(\b:\x028\x01\x1a3\n" +
	"\bF14Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\x06\x12\x16\n" +
	"\x05value\x18\x02 \x01(\x0e2\a.fxpb.E:\x028\x01\x1a*\n" +
	"\bF15Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\x06\x12\r\n" +
	"\x05value\x18\x02 \x01(\t:\x028\x01\x1a*\n" +
	"\bF16Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\x06\x12\r\n" +
	"\x05value\x18\x02 \x01(\f:\x028\x01\x1a6\n" +
	"\bF17Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\x06\x12\x19\n" +
	"\x05value\x18\x02 \x01(\v2\n" +
	".fxpb.Leaf:\x028\x01\"\xc0\n" +
	"\n" +
	"\x05Maps8\x12\x1f\n" +
	"\x02f1\x18\x01 \x03(\v2\x13.fxpb.Maps8.F1Entry\x12\x1f\n" +
	"\x02f2\x18\x02 \x03(\v2\x13.fxpb.Maps8.F2Entry\x12\x1f\n" +
	"\x02f3\x18\x03 \x03(\v2\x13.fxpb.Maps8.F3Entry\x12\x1f\n" +
	"\x02f4\x18\x04 \x03(\v2\x13.fxpb.Maps8.F4Entry\x12\x1f\n" +
	"\x02f5\x18\x05 \x03(\v2\x13.fxpb.Maps8.F5Entry\x12\x1f\n" +
	"\x02f6\x18\x06 \x03(\v2\x13.fxpb.Maps8.F6Entry\x12\x1f\n" +
	"\x02f7\x18\a \x03(\v2\x13.fxpb.Maps8.F7Entry\x12\x1f\n" +
	"\x02f8\x18\b \x03(\v2\x13.fxpb.Maps8.F8Entry\x12\x1f\n" +
	"\x02f9\x18\t \x03(\v2\x13.fxpb.Maps8.F9Entry\x12!\n" +
	"\x03f10\x18\n" +
	" \x03(\v2\x14.fxpb.Maps8.F10Entry\x12!\n" +
	"\x03f11\x18\v \x03(\v2\x14.fxpb.Maps8.F11Entry\x12!\n" +
	"\x03f12\x18\f \x03(\v2\x14.fxpb.Maps8.F12Entry\x12!\n" +
	"\x03f13\x18\r \x03(\v2\x14.fxpb.Maps8.F13Entry\x12!\n" +
	"\x03f14\x18\x0e \x03(\v2\x14.fxpb.Maps8.F14Entry\x12!\n" +
	"\x03f15\x18\x0f \x03(\v2\x14.fxpb.Maps8.F15Entry\x12!\n" +
	"\x03f16\x18\x10 \x03(\v2\x14.fxpb.Maps8.F16Entry\x12!\n" +
	"\x03f17\x18\x11 \x03(\v2\x14.fxpb.Maps8.F17Entry\x1a)\n" +
	"\aF1Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\x0f\x12\r\n" +
	"\x05value\x18\x02 \x01(\x05:\x028\x01\x1a)\n" +
	"\aF2Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\x0f\x12\r\n" +
	"\x05value\x18\x02 \x01(\x03:\x028\x01\x1a)\n" +
	"\aF3Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\x0f\x12\r\n" +
	"\x05value\x18\x02 \x01(\r:\x028\x01\x1a)\n" +
	"\aF4Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\x0f\x12\r\n" +
	"\x05value\x18\x02 \x01(\x04:\x028\x01\x1a)\n" +
	"\aF5Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\x0f\x12\r\n" +
	"\x05value\x18\x02 \x01(\x11:\x028\x01\x1a)\n" +
	"\aF6Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\x0f\x12\r\n" +
	"\x05value\x18\x02 \x01(\x12:\x028\x01\x1a)\n" +
	"\aF7Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\x0f\x12\r\n" +
	"\x05value\x18\x02 \x01(\a:\x028\x01\x1a)\n" +
	"\aF8Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\x0f\x12\r\n" +
	"\x05value\x18\x02 \x01(\x06:\x028\x01\x1a)\n" +
	"\aF9Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\x0f\x12\r\n" +
	"\x05value\x18\x02 \x01(\x0f:\x028\x01\x1a*\n" +
	"\bF10Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\x0f\x12\r\n" +
	"\x05value\x18\x02 \x01(\x10:\x028\x01\x1a*\n" +
	"\bF11Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\x0f\x12\r\n" +
	"\x05value\x18\x02 \x01(\x02:\x028\x01\x1a*\n" +
	"\bF12Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\x0f\x12\r\n" +
	"\x05value\x18\x02 \x01(\x01:\x028\x01\x1a*\n" +
	"\bF13Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\x0f\x12\r\n" +
	"\x05value\x18\x02 \x01(\b:\x028\x01\x1a3\n" +
	"\bF14Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\x0f\x12\x16\n" +
	"\x05value\x18\x02 \x01(\x0e2\a.fxpb.E:\x028\x01\x1a*\n" +
	"\bF15Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\x0f\x12\r\n" +
	"\x05value\x18\x02 \x01(\t:\x028\x01\x1a*\n" +
	"\bF16Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\x0f\x12\r\n" +
	"\x05value\x18\x02 \x01(\f:\x028\x01\x1a6\n" +
	"\bF17Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\x0f\x12\x19\n" +
	"\x05value\x18\x02 \x01(\v2\n" +
	".fxpb.Leaf:\x028\x01\"\xc0\n" +
	"\n" +
	"\x05Maps9\x12\x1f\n" +
	"\x02f1\x18\x01 \x03(\v2\x13.fxpb.Maps9.F1Entry\x12\x1f\n" +
	"\x02f2\x18\x02 \x03(\v2\x13.fxpb.Maps9.F2Entry\x12\x1f\n" +
	"\x02f3\x18\x03 \x03(\v2\x13.fxpb.Maps9.F3Entry\x12\x1f\n" +
	"\x02f4\x18\x04 \x03(\v2\x13.fxpb.Maps9.F4Entry\x12\x1f\n" +
	"\x02f5\x18\x05 \x03(\v2\x13.fxpb.Maps9.F5Entry\x12\x1f\n" +
	"\x02f6\x18\x06 \x03(\v2\x13.fxpb.Maps9.F6Entry\x12\x1f\n" +
	"\x02f7\x18\a \x03(\v2\x13.fxpb.Maps9.F7Entry\x12\x1f\n" +
	"\x02f8\x18\b \x03(\v2\x13.fxpb.Maps9.F8Entry\x12\x1f\n" +
	"\x02f9\x18\t \x03(\v2\x13.fxpb.Maps9.F9Entry\x12!\n" +
	"\x03f10\x18\n" +
	" \x03(\v2\x14.fxpb.Maps9.F10Entry\x12!\n" +
	"\x03f11\x18\v \x03(\v2\x14.fxpb.Maps9.F11Entry\x12!\n" +
	"\x03f12\x18\f \x03(\v2\x14.fxpb.Maps9.F12Entry\x12!\n" +
	"\x03f13\x18\r \x03(\v2\x14.fxpb.Maps9.F13Entry\x12!\n" +
	"\x03f14\x18\x0e \x03(\v2\x14.fxpb.Maps9.F14Entry\x12!\n" +
	"\x03f15\x18\x0f \x03(\v2\x14.fxpb.Maps9.F15Entry\x12!\n" +
	"\x03f16\x18\x10 \x03(\v2\x14.fxpb.Maps9.F16Entry\x12!\n" +
	"\x03f17\x18\x11 \x03(\v2\x14.fxpb.Maps9.F17Entry\x1a)\n" +
	"\aF1Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\x10\x12\r\n" +
	"\x05value\x18\x02 \x01(\x05:\x028\x01\x1a)\n" +
	"\aF2Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\x10\x12\r\n" +
	"\x05value\x18\x02 \x01(\x03:\x028\x01\x1a)\n" +
	"\aF3Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\x10\x12\r\n" +
	"\x05value\x18\x02 \x01(\r:\x028\x01\x1a)\n" +
	"\aF4Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\x10\x12\r\n" +
	"\x05value\x18\x02 \x01(\x04:\x028\x01\x1a)\n" +
	"\aF5Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\x10\x12\r\n" +
	"\x05value\x18\x02 \x01(\x11:\x028\x01\x1a)\n" +
	"\aF6Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\x10\x12\r\n" +
	"\x05value\x18\x02 \x01(\x12:\x028\x01\x1a)\n" +
	"\aF7Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\x10\x12\r\n" +
	"\x05value\x18\x02 \x01(\a:\x028\x01\x1a)\n" +
	"\aF8Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\x10\x12\r\n" +
	"\x05value\x18\x02 \x01(\x06:\x028\x01\x1a)\n" +
	"\aF9Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\x10\x12\r\n" +
	"\x05value\x18\x02 \x01(\x0f:\x028\x01\x1a*\n" +
	"\bF10Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\x10\x12\r\n" +
	"\x05value\x18\x02 \x01(\x10:\x028\x01\x1a*\n" +
	"\bF11Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\x10\x12\r\n" +
	"\x05value\x18\x02 \x01(\x02:\x028\x01\x1a*\n" +
	"\bF12Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\x10\x12\r\n" +
	"\x05value\x18\x02 \x01(\x01:\x028\x01\x1a*\n" +
	"\bF13Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\x10\x12\r\n" +
	"\x05value\x18\x02 \x01(\b:\x028\x01\x1a3\n" +
	"\bF14Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\x10\x12\x16\n" +
	"\x05value\x18\x02 \x01(\x0e2\a.fxpb.E:\x028\x01\x1a*\n" +
	"\bF15Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\x10\x12\r\n" +
	"\x05value\x18\x02 \x01(\t:\x028\x01\x1a*\n" +
	"\bF16Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\x10\x12\r\n" +
	"\x05value\x18\x02 \x01(\f:\x028\x01\x1a6\n" +
	"\bF17Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\x10\x12\x19\n" +
	"\x05value\x18\x02 \x01(\v2\n" +
	".fxpb.Leaf:\x028\x01\"\xd2\n" +
	"\n" +
	"\x06Maps10\x12 \n" +
	"\x02f1\x18\x01 \x03(\v2\x14.fxpb.Maps10.F1Entry\x12 \n" +
	"\x02f2\x18\x02 \x03(\v2\x14.fxpb.Maps10.F2Entry\x12 \n" +
	"\x02f3\x18\x03 \x03(\v2\x14.fxpb.Maps10.F3Entry\x12 \n" +
	"\x02f4\x18\x04 \x03(\v2\x14.fxpb.Maps10.F4Entry\x12 \n" +
	"\x02f5\x18\x05 \x03(\v2\x14.fxpb.Maps10.F5Entry\x12 \n" +
	"\x02f6\x18\x06 \x03(\v2\x14.fxpb.Maps10.F6Entry\x12 \n" +
	"\x02f7\x18\a \x03(\v2\x14.fxpb.Maps10.F7Entry\x12 \n" +
	"\x02f8\x18\b \x03(\v2\x14.fxpb.Maps10.F8Entry\x12 \n" +
	"\x02f9\x18\t \x03(\v2\x14.fxpb.Maps10.F9Entry\x12\"\n" +
	"\x03f10\x18\n" +
	" \x03(\v2\x15.fxpb.Maps10.F10Entry\x12\"\n" +
	"\x03f11\x18\v \x03(\v2\x15.fxpb.Maps10.F11Entry\x12\"\n" +
	"\x03f12\x18\f \x03(\v2\x15.fxpb.Maps10.F12Entry\x12\"\n" +
	"\x03f13\x18\r \x03(\v2\x15.fxpb.Maps10.F13Entry\x12\"\n" +
	"\x03f14\x18\x0e \x03(\v2\x15.fxpb.Maps10.F14Entry\x12\"\n" +
	"\x03f15\x18\x0f \x03(\v2\x15.fxpb.Maps10.F15Entry\x12\"\n" +
	"\x03f16\x18\x10 \x03(\v2\x15.fxpb.Maps10.F16Entry\x12\"\n" +
	"\x03f17\x18\x11 \x03(\v2\x15.fxpb.Maps10.F17Entry\x1a)\n" +
	"\aF1Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\b\x12\r\n" +
	"\x05value\x18\x02 \x01(\x05:\x028\x01\x1a)\n" +
	"\aF2Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\b\x12\r\n" +
	"\x05value\x18\x02 \x01(\x03:\x028\x01\x1a)\n" +
	"\aF3Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\b\x12\r\n" +
	"\x05value\x18\x02 \x01(\r:\x028\x01\x1a)\n" +
	"\aF4Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\b\x12\r\n" +
	"\x05value\x18\x02 \x01(\x04:\x028\x01\x1a)\n" +
	"\aF5Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\b\x12\r\n" +
	"\x05value\x18\x02 \x01(\x11:\x028\x01\x1a)\n" +
	"\aF6Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\b\x12\r\n" +
	"\x05value\x18\x02 \x01(\x12:\x028\x01\x1a)\n" +
	"\aF7Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\b\x12\r\n" +
	"\x05value\x18\x02 \x01(\a:\x028\x01\x1a)\n" +
	"\aF8Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\b\x12\r\n" +
	"\x05value\x18\x02 \x01(\x06:\x028\x01\x1a)\n" +
	"\aF9Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\b\x12\r\n" +
	"\x05value\x18\x02 \x01(\x0f:\x028\x01\x1a*\n" +
	"\bF10Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\b\x12\r\n" +
	"\x05value\x18\x02 \x01(\x10:\x028\x01\x1a*\n" +
	"\bF11Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\b\x12\r\n" +
	"\x05value\x18\x02 \x01(\x02:\x028\x01\x1a*\n" +
	"\bF12Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\b\x12\r\n" +
	"\x05value\x18\x02 \x01(\x01:\x028\x01\x1a*\n" +
	"\bF13Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\b\x12\r\n" +
	"\x05value\x18\x02 \x01(\b:\x028\x01\x1a3\n" +
	"\bF14Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\b\x12\x16\n" +
	"\x05value\x18\x02 \x01(\x0e2\a.fxpb.E:\x028\x01\x1a*\n" +
	"\bF15Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\b\x12\r\n" +
	"\x05value\x18\x02 \x01(\t:\x028\x01\x1a*\n" +
	"\bF16Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\b\x12\r\n" +
	"\x05value\x18\x02 \x01(\f:\x028\x01\x1a6\n" +
	"\bF17Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\b\x12\x19\n" +
	"\x05value\x18\x02 \x01(\v2\n" +
	".fxpb.Leaf:\x028\x01\"\xd2\n" +
	"\n" +
	"\x06Maps11\x12 \n" +
	"\x02f1\x18\x01 \x03(\v2\x14.fxpb.Maps11.F1Entry\x12 \n" +
	"\x02f2\x18\x02 \x03(\v2\x14.fxpb.Maps11.F2Entry\x12 \n" +
	"\x02f3\x18\x03 \x03(\v2\x14.fxpb.Maps11.F3Entry\x12 \n" +
	"\x02f4\x18\x04 \x03(\v2\x14.fxpb.Maps11.F4Entry\x12 \n" +
	"\x02f5\x18\x05 \x03(\v2\x14.fxpb.Maps11.F5Entry\x12 \n" +
	"\x02f6\x18\x06 \x03(\v2\x14.fxpb.Maps11.F6Entry\x12 \n" +
	"\x02f7\x18\a \x03(\v2\x14.fxpb.Maps11.F7Entry\x12 \n" +
	"\x02f8\x18\b \x03(\v2\x14.fxpb.Maps11.F8Entry\x12 \n" +
	"\x02f9\x18\t \x03(\v2\x14.fxpb.Maps11.F9Entry\x12\"\n" +
	"\x03f10\x18\n" +
	" \x03(\v2\x15.fxpb.Maps11.F10Entry\x12\"\n" +
	"\x03f11\x18\v \x03(\v2\x15.fxpb.Maps11.F11Entry\x12\"\n" +
	"\x03f12\x18\f \x03(\v2\x15.fxpb.Maps11.F12Entry\x12\"\n" +
	"\x03f13\x18\r \x03(\v2\x15.fxpb.Maps11.F13Entry\x12\"\n" +
	"\x03f14\x18\x0e \x03(\v2\x15.fxpb.Maps11.F14Entry\x12\"\n" +
	"\x03f15\x18\x0f \x03(\v2\x15.fxpb.Maps11.F15Entry\x12\"\n" +
	"\x03f16\x18\x10 \x03(\v2\x15.fxpb.Maps11.F16Entry\x12\"\n" +
	"\x03f17\x18\x11 \x03(\v2\x15.fxpb.Maps11.F17Entry\x1a)\n" +
	"\aF1Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\t\x12\r\n" +
	"\x05value\x18\x02 \x01(\x05:\x028\x01\x1a)\n" +
	"\aF2Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\t\x12\r\n" +
	"\x05value\x18\x02 \x01(\x03:\x028\x01\x1a)\n" +
	"\aF3Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\t\x12\r\n" +
	"\x05value\x18\x02 \x01(\r:\x028\x01\x1a)\n" +
	"\aF4Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\t\x12\r\n" +
	"\x05value\x18\x02 \x01(\x04:\x028\x01\x1a)\n" +
	"\aF5Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\t\x12\r\n" +
	"\x05value\x18\x02 \x01(\x11:\x028\x01\x1a)\n" +
	"\aF6Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\t\x12\r\n" +
	"\x05value\x18\x02 \x01(\x12:\x028\x01\x1a)\n" +
	"\aF7Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\t\x12\r\n" +
	"\x05value\x18\x02 \x01(\a:\x028\x01\x1a)\n" +
	"\aF8Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\t\x12\r\n" +
	"\x05value\x18\x02 \x01(\x06:\x028\x01\x1a)\n" +
	"\aF9Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\t\x12\r\n" +
	"\x05value\x18\x02 \x01(\x0f:\x028\x01\x1a*\n" +
	"\bF10Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\t\x12\r\n" +
	"\x05value\x18\x02 \x01(\x10:\x028\x01\x1a*\n" +
	"\bF11Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\t\x12\r\n" +
	"\x05value\x18\x02 \x01(\x02:\x028\x01\x1a*\n" +
	"\bF12Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\t\x12\r\n" +
	"\x05value\x18\x02 \x01(\x01:\x028\x01\x1a*\n" +
	"\bF13Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\t\x12\r\n" +
	"\x05value\x18\x02 \x01(\b:\x028\x01\x1a3\n" +
	"\bF14Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\t\x12\x16\n" +
	"\x05value\x18\x02 \x01(\x0e2\a.fxpb.E:\x028\x01\x1a*\n" +
	"\bF15Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\t\x12\r\n" +
	"\x05value\x18\x02 \x01(\t:\x028\x01\x1a*\n" +
	"\bF16Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\t\x12\r\n" +
	"\x05value\x18\x02 \x01(\f:\x028\x01\x1a6\n" +
	"\bF17Entry\x12\v\n" +
	"\x03key\x18\x01 \x01(\t\x12\x19\n" +
	"\x05value\x18\x02 \x01(\v2\n" +
	".fxpb.Leaf:\x028\x01\"\x9c\x03\n" +
	"\bBigOneof\x12\x14\n" +
	"\x04f502\x18\xf6\x03 \x01(\bB\x05\xaa\x01\x02\b\x02\x12\f\n" +
	"\x02f1\x18\x01 \x01(\x05H\x00\x12\r\n" +
	"\x03f15\x18\x0f \x01(\x03H\x00\x12\r\n" +
	"\x03f16\x18\x10 \x01(\rH\x00\x12\x0f\n" +
	"\x04f999\x18\xe7\a \x01(\x04H\x00\x12\x10\n" +
	"\x05f1000\x18\xe8\a \x01(\x11H\x00\x12\x10\n" +
	"\x05f1001\x18\xe9\a \x01(\x12H\x00\x12\x10\n" +
	"\x05f1002\x18\xea\a \x01(\aH\x00\x12\x10\n" +
	"\x05f2047\x18\xff\x0f \x01(\x06H\x00\x12\x10\n" +
	"\x05f2048\x18\x80\x10 \x01(\x0fH\x00\x12\x13\n" +
	"\af262143\x18\xff\xff\x0f \x01(\x10H\x00\x12\x13\n" +
	"\af262144\x18\x80\x80\x10 \x01(\x02H\x00\x12\x16\n" +
	"\tf33554431\x18\xff\xff\xff\x0f \x01(\x01H\x00\x12\x16\n" +
	"\tf33554432\x18\x80\x80\x80\x10 \x01(\bH\x00\x12!\n" +
	"\n" +
	"f536870911\x18\xff\xff\xff\xff\x01 \x01(\x0e2\a.fxpb.EH\x00\x12\x18\n" +
	"\n" +
	"f536870910\x18\xfe\xff\xff\xff\x01 \x01(\tH\x00\x12\r\n" +
	"\x03f17\x18\x11 \x01(\fH\x00\x12\x1b\n" +
	"\x04f500\x18\xf4\x03 \x01(\v2\n" +
	".fxpb.LeafH\x00\x12\x1a\n" +
	"\x04f501\x18\xf5\x03 \x01(\v2\t.fxpb.RecH\x00B\x04\n" +
	"\x02o0*Q\n" +
	"\x01E\x12\n" +
	"\n" +
	"\x06E_ZERO\x10\x00\x12\t\n" +
	"\x05E_ONE\x10\x01\x12\x12\n" +
	"\x05E_NEG\x10\xff\xff\xff\xff\xff\xff\xff\xff\xff\x01\x12\r\n" +
	"\x05E_BIG\x10\xff\xff\xff\xff\a\x12\x12\n" +
	"\x05E_MIN\x10\x80\x80\x80\x80\xf8\xff\xff\xff\xff\x01B\x1fZ\x14verif/fixtures/pb;pb\x92\x03\x06\b\x01\x10\x01 \x03b\beditionsp\xe8\a"

var (
	file_fxpb_proto_rawDescOnce sync.Once
	file_fxpb_proto_rawDescData []byte
)

func file_fxpb_proto_rawDescGZIP() []byte {
	file_fxpb_proto_rawDescOnce.Do(func() {
		file_fxpb_proto_rawDescData = protoimpl.X.CompressGZIP(unsafe.Slice(unsafe.StringData(file_fxpb_proto_rawDesc), len(file_fxpb_proto_rawDesc)))
	})
	return file_fxpb_proto_rawDescData
}

var file_fxpb_proto_enumTypes = make([]protoimpl.EnumInfo, 1)
var file_fxpb_proto_msgTypes = make([]protoimpl.MessageInfo, 570)
var file_fxpb_proto_goTypes = []any{
	(E)(0),              // 0: fxpb.E
	(*S0M1)(nil),        // 1: fxpb.S0M1
	(*S0M2)(nil),        // 2: fxpb.S0M2
	(*S0M3)(nil),        // 3: fxpb.S0M3
	(*S0M4)(nil),        // 4: fxpb.S0M4
	(*S0M5)(nil),        // 5: fxpb.S0M5
	(*S0M6)(nil),        // 6: fxpb.S0M6
	(*S0M7)(nil),        // 7: fxpb.S0M7
	(*S1M1)(nil),        // 8: fxpb.S1M1
	(*S1M2)(nil),        // 9: fxpb.S1M2
	(*S2M1)(nil),        // 10: fxpb.S2M1
	(*S2M2)(nil),        // 11: fxpb.S2M2
	(*S2M3)(nil),        // 12: fxpb.S2M3
	(*S2M4)(nil),        // 13: fxpb.S2M4
	(*S2M5)(nil),        // 14: fxpb.S2M5
	(*S2M6)(nil),        // 15: fxpb.S2M6
	(*S3M1)(nil),        // 16: fxpb.S3M1
	(*S4M1)(nil),        // 17: fxpb.S4M1
	(*S4M2)(nil),        // 18: fxpb.S4M2
	(*S4M3)(nil),        // 19: fxpb.S4M3
	(*S4M4)(nil),        // 20: fxpb.S4M4
	(*S5M1)(nil),        // 21: fxpb.S5M1
	(*S5M2)(nil),        // 22: fxpb.S5M2
	(*S5M3)(nil),        // 23: fxpb.S5M3
	(*S5M4)(nil),        // 24: fxpb.S5M4
	(*S6M1)(nil),        // 25: fxpb.S6M1
	(*S7M1)(nil),        // 26: fxpb.S7M1
	(*S7M2)(nil),        // 27: fxpb.S7M2
	(*S7M3)(nil),        // 28: fxpb.S7M3
	(*S8M1)(nil),        // 29: fxpb.S8M1
	(*S9M1)(nil),        // 30: fxpb.S9M1
	(*S9M2)(nil),        // 31: fxpb.S9M2
	(*S9M3)(nil),        // 32: fxpb.S9M3
	(*S9M4)(nil),        // 33: fxpb.S9M4
	(*S9M5)(nil),        // 34: fxpb.S9M5
	(*S10M1)(nil),       // 35: fxpb.S10M1
	(*S10M2)(nil),       // 36: fxpb.S10M2
	(*S10M3)(nil),       // 37: fxpb.S10M3
	(*S10M4)(nil),       // 38: fxpb.S10M4
	(*S10M5)(nil),       // 39: fxpb.S10M5
	(*S10M6)(nil),       // 40: fxpb.S10M6
	(*S11M1)(nil),       // 41: fxpb.S11M1
	(*S11M2)(nil),       // 42: fxpb.S11M2
	(*S12M1)(nil),       // 43: fxpb.S12M1
	(*S12M2)(nil),       // 44: fxpb.S12M2
	(*S12M3)(nil),       // 45: fxpb.S12M3
	(*S12M4)(nil),       // 46: fxpb.S12M4
	(*S12M5)(nil),       // 47: fxpb.S12M5
	(*S12M6)(nil),       // 48: fxpb.S12M6
	(*S12M7)(nil),       // 49: fxpb.S12M7
	(*S12M8)(nil),       // 50: fxpb.S12M8
	(*S13M1)(nil),       // 51: fxpb.S13M1
	(*S13M2)(nil),       // 52: fxpb.S13M2
	(*S13M3)(nil),       // 53: fxpb.S13M3
	(*S13M4)(nil),       // 54: fxpb.S13M4
	(*S13M5)(nil),       // 55: fxpb.S13M5
	(*S14M1)(nil),       // 56: fxpb.S14M1
	(*S14M2)(nil),       // 57: fxpb.S14M2
	(*S14M3)(nil),       // 58: fxpb.S14M3
	(*S14M4)(nil),       // 59: fxpb.S14M4
	(*S14M5)(nil),       // 60: fxpb.S14M5
	(*S14M6)(nil),       // 61: fxpb.S14M6
	(*S14M7)(nil),       // 62: fxpb.S14M7
	(*S14M8)(nil),       // 63: fxpb.S14M8
	(*S14M9)(nil),       // 64: fxpb.S14M9
	(*S15M1)(nil),       // 65: fxpb.S15M1
	(*S15M2)(nil),       // 66: fxpb.S15M2
	(*S16M1)(nil),       // 67: fxpb.S16M1
	(*S17M1)(nil),       // 68: fxpb.S17M1
	(*S17M2)(nil),       // 69: fxpb.S17M2
	(*S17M3)(nil),       // 70: fxpb.S17M3
	(*S17M4)(nil),       // 71: fxpb.S17M4
	(*S18M1)(nil),       // 72: fxpb.S18M1
	(*S18M2)(nil),       // 73: fxpb.S18M2
	(*S19M1)(nil),       // 74: fxpb.S19M1
	(*S19M2)(nil),       // 75: fxpb.S19M2
	(*S19M3)(nil),       // 76: fxpb.S19M3
	(*S19M4)(nil),       // 77: fxpb.S19M4
	(*S20M1)(nil),       // 78: fxpb.S20M1
	(*S21M1)(nil),       // 79: fxpb.S21M1
	(*S21M2)(nil),       // 80: fxpb.S21M2
	(*S21M3)(nil),       // 81: fxpb.S21M3
	(*S21M4)(nil),       // 82: fxpb.S21M4
	(*S21M5)(nil),       // 83: fxpb.S21M5
	(*S21M6)(nil),       // 84: fxpb.S21M6
	(*S21M7)(nil),       // 85: fxpb.S21M7
	(*S21M8)(nil),       // 86: fxpb.S21M8
	(*S21M9)(nil),       // 87: fxpb.S21M9
	(*S21M10)(nil),      // 88: fxpb.S21M10
	(*S21M11)(nil),      // 89: fxpb.S21M11
	(*S22M1)(nil),       // 90: fxpb.S22M1
	(*S22M2)(nil),       // 91: fxpb.S22M2
	(*S22M3)(nil),       // 92: fxpb.S22M3
	(*S23M1)(nil),       // 93: fxpb.S23M1
	(*S24M1)(nil),       // 94: fxpb.S24M1
	(*S24M2)(nil),       // 95: fxpb.S24M2
	(*S24M3)(nil),       // 96: fxpb.S24M3
	(*S24M4)(nil),       // 97: fxpb.S24M4
	(*S24M5)(nil),       // 98: fxpb.S24M5
	(*S24M6)(nil),       // 99: fxpb.S24M6
	(*S24M7)(nil),       // 100: fxpb.S24M7
	(*S24M8)(nil),       // 101: fxpb.S24M8
	(*S24M9)(nil),       // 102: fxpb.S24M9
	(*S24M10)(nil),      // 103: fxpb.S24M10
	(*S25M1)(nil),       // 104: fxpb.S25M1
	(*S26M1)(nil),       // 105: fxpb.S26M1
	(*S27M1)(nil),       // 106: fxpb.S27M1
	(*S28M1)(nil),       // 107: fxpb.S28M1
	(*S29M1)(nil),       // 108: fxpb.S29M1
	(*S30M1)(nil),       // 109: fxpb.S30M1
	(*S31M1)(nil),       // 110: fxpb.S31M1
	(*S31M2)(nil),       // 111: fxpb.S31M2
	(*S31M3)(nil),       // 112: fxpb.S31M3
	(*S31M4)(nil),       // 113: fxpb.S31M4
	(*S31M5)(nil),       // 114: fxpb.S31M5
	(*S32M1)(nil),       // 115: fxpb.S32M1
	(*S32M2)(nil),       // 116: fxpb.S32M2
	(*S32M3)(nil),       // 117: fxpb.S32M3
	(*S33M1)(nil),       // 118: fxpb.S33M1
	(*S33M2)(nil),       // 119: fxpb.S33M2
	(*S33M3)(nil),       // 120: fxpb.S33M3
	(*S33M4)(nil),       // 121: fxpb.S33M4
	(*S33M5)(nil),       // 122: fxpb.S33M5
	(*S34M1)(nil),       // 123: fxpb.S34M1
	(*S34M2)(nil),       // 124: fxpb.S34M2
	(*S34M3)(nil),       // 125: fxpb.S34M3
	(*S34M4)(nil),       // 126: fxpb.S34M4
	(*S34M5)(nil),       // 127: fxpb.S34M5
	(*S35M1)(nil),       // 128: fxpb.S35M1
	(*S35M2)(nil),       // 129: fxpb.S35M2
	(*S35M3)(nil),       // 130: fxpb.S35M3
	(*S35M4)(nil),       // 131: fxpb.S35M4
	(*S36M1)(nil),       // 132: fxpb.S36M1
	(*S36M2)(nil),       // 133: fxpb.S36M2
	(*S36M3)(nil),       // 134: fxpb.S36M3
	(*S36M4)(nil),       // 135: fxpb.S36M4
	(*S36M5)(nil),       // 136: fxpb.S36M5
	(*S36M6)(nil),       // 137: fxpb.S36M6
	(*S36M7)(nil),       // 138: fxpb.S36M7
	(*S36M8)(nil),       // 139: fxpb.S36M8
	(*S36M9)(nil),       // 140: fxpb.S36M9
	(*S36M10)(nil),      // 141: fxpb.S36M10
	(*S36M11)(nil),      // 142: fxpb.S36M11
	(*S37M1)(nil),       // 143: fxpb.S37M1
	(*S37M2)(nil),       // 144: fxpb.S37M2
	(*S37M3)(nil),       // 145: fxpb.S37M3
	(*S37M4)(nil),       // 146: fxpb.S37M4
	(*S37M5)(nil),       // 147: fxpb.S37M5
	(*S37M6)(nil),       // 148: fxpb.S37M6
	(*S38M1)(nil),       // 149: fxpb.S38M1
	(*S38M2)(nil),       // 150: fxpb.S38M2
	(*S38M3)(nil),       // 151: fxpb.S38M3
	(*S39M1)(nil),       // 152: fxpb.S39M1
	(*S39M2)(nil),       // 153: fxpb.S39M2
	(*S39M3)(nil),       // 154: fxpb.S39M3
	(*S39M4)(nil),       // 155: fxpb.S39M4
	(*S39M5)(nil),       // 156: fxpb.S39M5
	(*S39M6)(nil),       // 157: fxpb.S39M6
	(*S40M1)(nil),       // 158: fxpb.S40M1
	(*S41M1)(nil),       // 159: fxpb.S41M1
	(*S41M2)(nil),       // 160: fxpb.S41M2
	(*S41M3)(nil),       // 161: fxpb.S41M3
	(*S42M1)(nil),       // 162: fxpb.S42M1
	(*S43M1)(nil),       // 163: fxpb.S43M1
	(*S43M2)(nil),       // 164: fxpb.S43M2
	(*S43M3)(nil),       // 165: fxpb.S43M3
	(*S44M1)(nil),       // 166: fxpb.S44M1
	(*S44M2)(nil),       // 167: fxpb.S44M2
	(*S44M3)(nil),       // 168: fxpb.S44M3
	(*S45M1)(nil),       // 169: fxpb.S45M1
	(*S45M2)(nil),       // 170: fxpb.S45M2
	(*S45M3)(nil),       // 171: fxpb.S45M3
	(*S45M4)(nil),       // 172: fxpb.S45M4
	(*S45M5)(nil),       // 173: fxpb.S45M5
	(*S46M1)(nil),       // 174: fxpb.S46M1
	(*S46M2)(nil),       // 175: fxpb.S46M2
	(*S46M3)(nil),       // 176: fxpb.S46M3
	(*S46M4)(nil),       // 177: fxpb.S46M4
	(*S46M5)(nil),       // 178: fxpb.S46M5
	(*S47M1)(nil),       // 179: fxpb.S47M1
	(*S47M2)(nil),       // 180: fxpb.S47M2
	(*S47M3)(nil),       // 181: fxpb.S47M3
	(*S47M4)(nil),       // 182: fxpb.S47M4
	(*S47M5)(nil),       // 183: fxpb.S47M5
	(*S47M6)(nil),       // 184: fxpb.S47M6
	(*Rec)(nil),         // 185: fxpb.Rec
	(*MutA)(nil),        // 186: fxpb.MutA
	(*MutB)(nil),        // 187: fxpb.MutB
	(*AllImplicit)(nil), // 188: fxpb.AllImplicit
	(*AllExplicit)(nil), // 189: fxpb.AllExplicit
	(*AllRepeated)(nil), // 190: fxpb.AllRepeated
	(*AllOneof)(nil),    // 191: fxpb.AllOneof
	(*Maps0)(nil),       // 192: fxpb.Maps0
	(*Leaf)(nil),        // 193: fxpb.Leaf
	(*Maps1)(nil),       // 194: fxpb.Maps1
	(*Maps2)(nil),       // 195: fxpb.Maps2
	(*Maps3)(nil),       // 196: fxpb.Maps3
	(*Maps4)(nil),       // 197: fxpb.Maps4
	(*Maps5)(nil),       // 198: fxpb.Maps5
	(*Maps6)(nil),       // 199: fxpb.Maps6
	(*Maps7)(nil),       // 200: fxpb.Maps7
	(*Maps8)(nil),       // 201: fxpb.Maps8
	(*Maps9)(nil),       // 202: fxpb.Maps9
	(*Maps10)(nil),      // 203: fxpb.Maps10
	(*Maps11)(nil),      // 204: fxpb.Maps11
	(*BigOneof)(nil),    // 205: fxpb.BigOneof
	nil,                 // 206: fxpb.S0M1.F262144Entry
	nil,                 // 207: fxpb.S0M1.F352Entry
	nil,                 // 208: fxpb.S0M3.F7Entry
	nil,                 // 209: fxpb.S0M5.F1006Entry
	nil,                 // 210: fxpb.S0M5.F19Entry
	nil,                 // 211: fxpb.S0M5.F3Entry
	nil,                 // 212: fxpb.S1M1.F996Entry
	nil,                 // 213: fxpb.S1M1.F20000Entry
	nil,                 // 214: fxpb.S1M1.F1Entry
	nil,                 // 215: fxpb.S2M1.F1Entry
	nil,                 // 216: fxpb.S2M2.F3Entry
	nil,                 // 217: fxpb.S2M3.F51084766Entry
	nil,                 // 218: fxpb.S2M5.F12Entry
	nil,                 // 219: fxpb.S4M1.F260404734Entry
	nil,                 // 220: fxpb.S4M2.F5Entry
	nil,                 // 221: fxpb.S4M2.F6Entry
	nil,                 // 222: fxpb.S4M4.F1Entry
	nil,                 // 223: fxpb.S4M4.F32Entry
	nil,                 // 224: fxpb.S5M1.F3Entry
	nil,                 // 225: fxpb.S7M1.F995Entry
	nil,                 // 226: fxpb.S7M2.F13Entry
	nil,                 // 227: fxpb.S8M1.F2Entry
	nil,                 // 228: fxpb.S9M1.F16Entry
	nil,                 // 229: fxpb.S9M4.F69Entry
	nil,                 // 230: fxpb.S9M4.F1Entry
	nil,                 // 231: fxpb.S10M1.F11Entry
	nil,                 // 232: fxpb.S10M2.F4Entry
	nil,                 // 233: fxpb.S10M4.F39Entry
	nil,                 // 234: fxpb.S10M5.F997Entry
	nil,                 // 235: fxpb.S11M1.F9Entry
	nil,                 // 236: fxpb.S12M1.F32Entry
	nil,                 // 237: fxpb.S12M1.F536870911Entry
	nil,                 // 238: fxpb.S12M1.F12Entry
	nil,                 // 239: fxpb.S12M3.F8Entry
	nil,                 // 240: fxpb.S12M6.F7Entry
	nil,                 // 241: fxpb.S13M2.F920Entry
	nil,                 // 242: fxpb.S13M2.F19Entry
	nil,                 // 243: fxpb.S13M4.F12Entry
	nil,                 // 244: fxpb.S14M1.F6Entry
	nil,                 // 245: fxpb.S14M3.F58Entry
	nil,                 // 246: fxpb.S14M4.F2Entry
	nil,                 // 247: fxpb.S14M6.F11Entry
	nil,                 // 248: fxpb.S14M6.F19Entry
	nil,                 // 249: fxpb.S14M9.F2047Entry
	nil,                 // 250: fxpb.S15M1.F21Entry
	nil,                 // 251: fxpb.S15M1.F735Entry
	nil,                 // 252: fxpb.S15M2.F2Entry
	nil,                 // 253: fxpb.S17M1.F9Entry
	nil,                 // 254: fxpb.S17M2.F6Entry
	nil,                 // 255: fxpb.S17M4.F860Entry
	nil,                 // 256: fxpb.S17M4.F10Entry
	nil,                 // 257: fxpb.S18M1.F1001Entry
	nil,                 // 258: fxpb.S19M2.F517791607Entry
	nil,                 // 259: fxpb.S19M2.F8Entry
	nil,                 // 260: fxpb.S21M1.F12Entry
	nil,                 // 261: fxpb.S21M3.F5Entry
	nil,                 // 262: fxpb.S21M5.F865Entry
	nil,                 // 263: fxpb.S21M6.F20000Entry
	nil,                 // 264: fxpb.S21M6.F33554432Entry
	nil,                 // 265: fxpb.S21M7.F3Entry
	nil,                 // 266: fxpb.S21M7.F4Entry
	nil,                 // 267: fxpb.S21M7.F34Entry
	nil,                 // 268: fxpb.S21M10.F400Entry
	nil,                 // 269: fxpb.S21M11.F27Entry
	nil,                 // 270: fxpb.S21M11.F4Entry
	nil,                 // 271: fxpb.S22M1.F11Entry
	nil,                 // 272: fxpb.S22M1.F448Entry
	nil,                 // 273: fxpb.S22M1.F5Entry
	nil,                 // 274: fxpb.S22M1.F2Entry
	nil,                 // 275: fxpb.S22M3.F910Entry
	nil,                 // 276: fxpb.S22M3.F1005Entry
	nil,                 // 277: fxpb.S22M3.F3Entry
	nil,                 // 278: fxpb.S24M1.F4Entry
	nil,                 // 279: fxpb.S24M1.F3Entry
	nil,                 // 280: fxpb.S24M1.F18Entry
	nil,                 // 281: fxpb.S24M2.F4Entry
	nil,                 // 282: fxpb.S24M2.F2047Entry
	nil,                 // 283: fxpb.S24M3.F1013Entry
	nil,                 // 284: fxpb.S24M6.F1Entry
	nil,                 // 285: fxpb.S24M9.F7Entry
	nil,                 // 286: fxpb.S24M10.F6Entry
	nil,                 // 287: fxpb.S26M1.F2Entry
	nil,                 // 288: fxpb.S26M1.F104Entry
	nil,                 // 289: fxpb.S26M1.F38Entry
	nil,                 // 290: fxpb.S27M1.F618Entry
	nil,                 // 291: fxpb.S31M1.F12Entry
	nil,                 // 292: fxpb.S31M1.F9Entry
	nil,                 // 293: fxpb.S31M2.F12Entry
	nil,                 // 294: fxpb.S32M1.F528931624Entry
	nil,                 // 295: fxpb.S32M2.F5Entry
	nil,                 // 296: fxpb.S32M3.F18Entry
	nil,                 // 297: fxpb.S32M3.F6Entry
	nil,                 // 298: fxpb.S33M1.F34Entry
	nil,                 // 299: fxpb.S33M1.F9Entry
	nil,                 // 300: fxpb.S33M2.F11Entry
	nil,                 // 301: fxpb.S33M3.F6Entry
	nil,                 // 302: fxpb.S33M5.F536870911Entry
	nil,                 // 303: fxpb.S33M5.F12Entry
	nil,                 // 304: fxpb.S33M5.F15Entry
	nil,                 // 305: fxpb.S34M3.F6Entry
	nil,                 // 306: fxpb.S34M3.F1004Entry
	nil,                 // 307: fxpb.S35M1.F170Entry
	nil,                 // 308: fxpb.S35M1.F39Entry
	nil,                 // 309: fxpb.S35M2.F262144Entry
	nil,                 // 310: fxpb.S35M2.F33554432Entry
	nil,                 // 311: fxpb.S35M2.F15Entry
	nil,                 // 312: fxpb.S35M4.F374Entry
	nil,                 // 313: fxpb.S35M4.F14Entry
	nil,                 // 314: fxpb.S36M3.F2Entry
	nil,                 // 315: fxpb.S36M3.F997Entry
	nil,                 // 316: fxpb.S36M3.F11Entry
	nil,                 // 317: fxpb.S36M4.F998Entry
	nil,                 // 318: fxpb.S36M4.F39Entry
	nil,                 // 319: fxpb.S36M5.F784Entry
	nil,                 // 320: fxpb.S36M8.F644Entry
	nil,                 // 321: fxpb.S36M11.F477Entry
	nil,                 // 322: fxpb.S37M1.F4Entry
	nil,                 // 323: fxpb.S37M3.F1Entry
	nil,                 // 324: fxpb.S37M3.F433580546Entry
	nil,                 // 325: fxpb.S37M4.F40Entry
	nil,                 // 326: fxpb.S38M1.F15Entry
	nil,                 // 327: fxpb.S39M1.F24Entry
	nil,                 // 328: fxpb.S39M1.F8Entry
	nil,                 // 329: fxpb.S39M3.F12Entry
	nil,                 // 330: fxpb.S39M3.F536870911Entry
	nil,                 // 331: fxpb.S39M3.F7Entry
	nil,                 // 332: fxpb.S39M4.F20000Entry
	nil,                 // 333: fxpb.S39M4.F26Entry
	nil,                 // 334: fxpb.S39M4.F200408845Entry
	nil,                 // 335: fxpb.S39M4.F428Entry
	nil,                 // 336: fxpb.S39M5.F18999Entry
	nil,                 // 337: fxpb.S42M1.F515Entry
	nil,                 // 338: fxpb.S43M1.F366708338Entry
	nil,                 // 339: fxpb.S43M2.F1004Entry
	nil,                 // 340: fxpb.S43M2.F2Entry
	nil,                 // 341: fxpb.S43M2.F6Entry
	nil,                 // 342: fxpb.S43M3.F396Entry
	nil,                 // 343: fxpb.S44M1.F2Entry
	nil,                 // 344: fxpb.S44M1.F9Entry
	nil,                 // 345: fxpb.S44M2.F19Entry
	nil,                 // 346: fxpb.S44M2.F2Entry
	nil,                 // 347: fxpb.S45M1.F24Entry
	nil,                 // 348: fxpb.S45M2.F3Entry
	nil,                 // 349: fxpb.S45M2.F536870911Entry
	nil,                 // 350: fxpb.S45M3.F7Entry
	nil,                 // 351: fxpb.S46M2.F8948839Entry
	nil,                 // 352: fxpb.S46M2.F11Entry
	nil,                 // 353: fxpb.S46M2.F6Entry
	nil,                 // 354: fxpb.S46M2.F996Entry
	nil,                 // 355: fxpb.S46M3.F13Entry
	nil,                 // 356: fxpb.S46M5.F262143Entry
	nil,                 // 357: fxpb.S47M3.F11Entry
	nil,                 // 358: fxpb.S47M4.F17Entry
	nil,                 // 359: fxpb.S47M4.F7Entry
	nil,                 // 360: fxpb.S47M4.F12Entry
	nil,                 // 361: fxpb.S47M5.F536870911Entry
	nil,                 // 362: fxpb.Rec.F3Entry
	nil,                 // 363: fxpb.Rec.F4Entry
	nil,                 // 364: fxpb.Rec.F5Entry
	nil,                 // 365: fxpb.Rec.F6Entry
	nil,                 // 366: fxpb.MutB.F2Entry
	nil,                 // 367: fxpb.Maps0.F1Entry
	nil,                 // 368: fxpb.Maps0.F2Entry
	nil,                 // 369: fxpb.Maps0.F3Entry
	nil,                 // 370: fxpb.Maps0.F4Entry
	nil,                 // 371: fxpb.Maps0.F5Entry
	nil,                 // 372: fxpb.Maps0.F6Entry
	nil,                 // 373: fxpb.Maps0.F7Entry
	nil,                 // 374: fxpb.Maps0.F8Entry
	nil,                 // 375: fxpb.Maps0.F9Entry
	nil,                 // 376: fxpb.Maps0.F10Entry
	nil,                 // 377: fxpb.Maps0.F11Entry
	nil,                 // 378: fxpb.Maps0.F12Entry
	nil,                 // 379: fxpb.Maps0.F13Entry
	nil,                 // 380: fxpb.Maps0.F14Entry
	nil,                 // 381: fxpb.Maps0.F15Entry
	nil,                 // 382: fxpb.Maps0.F16Entry
	nil,                 // 383: fxpb.Maps0.F17Entry
	nil,                 // 384: fxpb.Maps1.F1Entry
	nil,                 // 385: fxpb.Maps1.F2Entry
	nil,                 // 386: fxpb.Maps1.F3Entry
	nil,                 // 387: fxpb.Maps1.F4Entry
	nil,                 // 388: fxpb.Maps1.F5Entry
	nil,                 // 389: fxpb.Maps1.F6Entry
	nil,                 // 390: fxpb.Maps1.F7Entry
	nil,                 // 391: fxpb.Maps1.F8Entry
	nil,                 // 392: fxpb.Maps1.F9Entry
	nil,                 // 393: fxpb.Maps1.F10Entry
	nil,                 // 394: fxpb.Maps1.F11Entry
	nil,                 // 395: fxpb.Maps1.F12Entry
	nil,                 // 396: fxpb.Maps1.F13Entry
	nil,                 // 397: fxpb.Maps1.F14Entry
	nil,                 // 398: fxpb.Maps1.F15Entry
	nil,                 // 399: fxpb.Maps1.F16Entry
	nil,                 // 400: fxpb.Maps1.F17Entry
	nil,                 // 401: fxpb.Maps2.F1Entry
	nil,                 // 402: fxpb.Maps2.F2Entry
	nil,                 // 403: fxpb.Maps2.F3Entry
	nil,                 // 404: fxpb.Maps2.F4Entry
	nil,                 // 405: fxpb.Maps2.F5Entry
	nil,                 // 406: fxpb.Maps2.F6Entry
	nil,                 // 407: fxpb.Maps2.F7Entry
	nil,                 // 408: fxpb.Maps2.F8Entry
	nil,                 // 409: fxpb.Maps2.F9Entry
	nil,                 // 410: fxpb.Maps2.F10Entry
	nil,                 // 411: fxpb.Maps2.F11Entry
	nil,                 // 412: fxpb.Maps2.F12Entry
	nil,                 // 413: fxpb.Maps2.F13Entry
	nil,                 // 414: fxpb.Maps2.F14Entry
	nil,                 // 415: fxpb.Maps2.F15Entry
	nil,                 // 416: fxpb.Maps2.F16Entry
	nil,                 // 417: fxpb.Maps2.F17Entry
	nil,                 // 418: fxpb.Maps3.F1Entry
	nil,                 // 419: fxpb.Maps3.F2Entry
	nil,                 // 420: fxpb.Maps3.F3Entry
	nil,                 // 421: fxpb.Maps3.F4Entry
	nil,                 // 422: fxpb.Maps3.F5Entry
	nil,                 // 423: fxpb.Maps3.F6Entry
	nil,                 // 424: fxpb.Maps3.F7Entry
	nil,                 // 425: fxpb.Maps3.F8Entry
	nil,                 // 426: fxpb.Maps3.F9Entry
	nil,                 // 427: fxpb.Maps3.F10Entry
	nil,                 // 428: fxpb.Maps3.F11Entry
	nil,                 // 429: fxpb.Maps3.F12Entry
	nil,                 // 430: fxpb.Maps3.F13Entry
	nil,                 // 431: fxpb.Maps3.F14Entry
	nil,                 // 432: fxpb.Maps3.F15Entry
	nil,                 // 433: fxpb.Maps3.F16Entry
	nil,                 // 434: fxpb.Maps3.F17Entry
	nil,                 // 435: fxpb.Maps4.F1Entry
	nil,                 // 436: fxpb.Maps4.F2Entry
	nil,                 // 437: fxpb.Maps4.F3Entry
	nil,                 // 438: fxpb.Maps4.F4Entry
	nil,                 // 439: fxpb.Maps4.F5Entry
	nil,                 // 440: fxpb.Maps4.F6Entry
	nil,                 // 441: fxpb.Maps4.F7Entry
	nil,                 // 442: fxpb.Maps4.F8Entry
	nil,                 // 443: fxpb.Maps4.F9Entry
	nil,                 // 444: fxpb.Maps4.F10Entry
	nil,                 // 445: fxpb.Maps4.F11Entry
	nil,                 // 446: fxpb.Maps4.F12Entry
	nil,                 // 447: fxpb.Maps4.F13Entry
	nil,                 // 448: fxpb.Maps4.F14Entry
	nil,                 // 449: fxpb.Maps4.F15Entry
	nil,                 // 450: fxpb.Maps4.F16Entry
	nil,                 // 451: fxpb.Maps4.F17Entry
	nil,                 // 452: fxpb.Maps5.F1Entry
	nil,                 // 453: fxpb.Maps5.F2Entry
	nil,                 // 454: fxpb.Maps5.F3Entry
	nil,                 // 455: fxpb.Maps5.F4Entry
	nil,                 // 456: fxpb.Maps5.F5Entry
	nil,                 // 457: fxpb.Maps5.F6Entry
	nil,                 // 458: fxpb.Maps5.F7Entry
	nil,                 // 459: fxpb.Maps5.F8Entry
	nil,                 // 460: fxpb.Maps5.F9Entry
	nil,                 // 461: fxpb.Maps5.F10Entry
	nil,                 // 462: fxpb.Maps5.F11Entry
	nil,                 // 463: fxpb.Maps5.F12Entry
	nil,                 // 464: fxpb.Maps5.F13Entry
	nil,                 // 465: fxpb.Maps5.F14Entry
	nil,                 // 466: fxpb.Maps5.F15Entry
	nil,                 // 467: fxpb.Maps5.F16Entry
	nil,                 // 468: fxpb.Maps5.F17Entry
	nil,                 // 469: fxpb.Maps6.F1Entry
	nil,                 // 470: fxpb.Maps6.F2Entry
	nil,                 // 471: fxpb.Maps6.F3Entry
	nil,                 // 472: fxpb.Maps6.F4Entry
	nil,                 // 473: fxpb.Maps6.F5Entry
	nil,                 // 474: fxpb.Maps6.F6Entry
	nil,                 // 475: fxpb.Maps6.F7Entry
	nil,                 // 476: fxpb.Maps6.F8Entry
	nil,                 // 477: fxpb.Maps6.F9Entry
	nil,                 // 478: fxpb.Maps6.F10Entry
	nil,                 // 479: fxpb.Maps6.F11Entry
	nil,                 // 480: fxpb.Maps6.F12Entry
	nil,                 // 481: fxpb.Maps6.F13Entry
	nil,                 // 482: fxpb.Maps6.F14Entry
	nil,                 // 483: fxpb.Maps6.F15Entry
	nil,                 // 484: fxpb.Maps6.F16Entry
	nil,                 // 485: fxpb.Maps6.F17Entry
	nil,                 // 486: fxpb.Maps7.F1Entry
	nil,                 // 487: fxpb.Maps7.F2Entry
	nil,                 // 488: fxpb.Maps7.F3Entry
	nil,                 // 489: fxpb.Maps7.F4Entry
	nil,                 // 490: fxpb.Maps7.F5Entry
	nil,                 // 491: fxpb.Maps7.F6Entry
	nil,                 // 492: fxpb.Maps7.F7Entry
	nil,                 // 493: fxpb.Maps7.F8Entry
	nil,                 // 494: fxpb.Maps7.F9Entry
	nil,                 // 495: fxpb.Maps7.F10Entry
	nil,                 // 496: fxpb.Maps7.F11Entry
	nil,                 // 497: fxpb.Maps7.F12Entry
	nil,                 // 498: fxpb.Maps7.F13Entry
	nil,                 // 499: fxpb.Maps7.F14Entry
	nil,                 // 500: fxpb.Maps7.F15Entry
	nil,                 // 501: fxpb.Maps7.F16Entry
	nil,                 // 502: fxpb.Maps7.F17Entry
	nil,                 // 503: fxpb.Maps8.F1Entry
	nil,                 // 504: fxpb.Maps8.F2Entry
	nil,                 // 505: fxpb.Maps8.F3Entry
	nil,                 // 506: fxpb.Maps8.F4Entry
	nil,                 // 507: fxpb.Maps8.F5Entry
	nil,                 // 508: fxpb.Maps8.F6Entry
	nil,                 // 509: fxpb.Maps8.F7Entry
	nil,                 // 510: fxpb.Maps8.F8Entry
	nil,                 // 511: fxpb.Maps8.F9Entry
	nil,                 // 512: fxpb.Maps8.F10Entry
	nil,                 // 513: fxpb.Maps8.F11Entry
	nil,                 // 514: fxpb.Maps8.F12Entry
	nil,                 // 515: fxpb.Maps8.F13Entry
	nil,                 // 516: fxpb.Maps8.F14Entry
	nil,                 // 517: fxpb.Maps8.F15Entry
	nil,                 // 518: fxpb.Maps8.F16Entry
	nil,                 // 519: fxpb.Maps8.F17Entry
	nil,                 // 520: fxpb.Maps9.F1Entry
	nil,                 // 521: fxpb.Maps9.F2Entry
	nil,                 // 522: fxpb.Maps9.F3Entry
	nil,                 // 523: fxpb.Maps9.F4Entry
	nil,                 // 524: fxpb.Maps9.F5Entry
	nil,                 // 525: fxpb.Maps9.F6Entry
	nil,                 // 526: fxpb.Maps9.F7Entry
	nil,                 // 527: fxpb.Maps9.F8Entry
	nil,                 // 528: fxpb.Maps9.F9Entry
	nil,                 // 529: fxpb.Maps9.F10Entry
	nil,                 // 530: fxpb.Maps9.F11Entry
	nil,                 // 531: fxpb.Maps9.F12Entry
	nil,                 // 532: fxpb.Maps9.F13Entry
	nil,                 // 533: fxpb.Maps9.F14Entry
	nil,                 // 534: fxpb.Maps9.F15Entry
	nil,                 // 535: fxpb.Maps9.F16Entry
	nil,                 // 536: fxpb.Maps9.F17Entry
	nil,                 // 537: fxpb.Maps10.F1Entry
	nil,                 // 538: fxpb.Maps10.F2Entry
	nil,                 // 539: fxpb.Maps10.F3Entry
	nil,                 // 540: fxpb.Maps10.F4Entry
	nil,                 // 541: fxpb.Maps10.F5Entry
	nil,                 // 542: fxpb.Maps10.F6Entry
	nil,                 // 543: fxpb.Maps10.F7Entry
	nil,                 // 544: fxpb.Maps10.F8Entry
	nil,                 // 545: fxpb.Maps10.F9Entry
	nil,                 // 546: fxpb.Maps10.F10Entry
	nil,                 // 547: fxpb.Maps10.F11Entry
	nil,                 // 548: fxpb.Maps10.F12Entry
	nil,                 // 549: fxpb.Maps10.F13Entry
	nil,                 // 550: fxpb.Maps10.F14Entry
	nil,                 // 551: fxpb.Maps10.F15Entry
	nil,                 // 552: fxpb.Maps10.F16Entry
	nil,                 // 553: fxpb.Maps10.F17Entry
	nil,                 // 554: fxpb.Maps11.F1Entry
	nil,                 // 555: fxpb.Maps11.F2Entry
	nil,                 // 556: fxpb.Maps11.F3Entry
	nil,                 // 557: fxpb.Maps11.F4Entry
	nil,                 // 558: fxpb.Maps11.F5Entry
	nil,                 // 559: fxpb.Maps11.F6Entry
	nil,                 // 560: fxpb.Maps11.F7Entry
	nil,                 // 561: fxpb.Maps11.F8Entry
	nil,                 // 562: fxpb.Maps11.F9Entry
	nil,                 // 563: fxpb.Maps11.F10Entry
	nil,                 // 564: fxpb.Maps11.F11Entry
	nil,                 // 565: fxpb.Maps11.F12Entry
	nil,                 // 566: fxpb.Maps11.F13Entry
	nil,                 // 567: fxpb.Maps11.F14Entry
	nil,                 // 568: fxpb.Maps11.F15Entry
	nil,                 // 569: fxpb.Maps11.F16Entry
	nil,                 // 570: fxpb.Maps11.F17Entry
}
var file_fxpb_proto_depIdxs = []int32{
	2,   // 0: fxpb.S0M1.f20:type_name -> fxpb.S0M2
	7,   // 1: fxpb.S0M1.f2048:type_name -> fxpb.S0M7
	206, // 2: fxpb.S0M1.f262144:type_name -> fxpb.S0M1.F262144Entry
	207, // 3: fxpb.S0M1.f352:type_name -> fxpb.S0M1.F352Entry
	3,   // 4: fxpb.S0M1.f11:type_name -> fxpb.S0M3
	4,   // 5: fxpb.S0M3.f4:type_name -> fxpb.S0M4
	0,   // 6: fxpb.S0M3.f374:type_name -> fxpb.E
	5,   // 7: fxpb.S0M3.f33554431:type_name -> fxpb.S0M5
	208, // 8: fxpb.S0M3.f7:type_name -> fxpb.S0M3.F7Entry
	209, // 9: fxpb.S0M5.f1006:type_name -> fxpb.S0M5.F1006Entry
	210, // 10: fxpb.S0M5.f19:type_name -> fxpb.S0M5.F19Entry
	211, // 11: fxpb.S0M5.f3:type_name -> fxpb.S0M5.F3Entry
	0,   // 12: fxpb.S0M5.f16:type_name -> fxpb.E
	5,   // 13: fxpb.S0M7.f447:type_name -> fxpb.S0M5
	212, // 14: fxpb.S1M1.f996:type_name -> fxpb.S1M1.F996Entry
	213, // 15: fxpb.S1M1.f20000:type_name -> fxpb.S1M1.F20000Entry
	9,   // 16: fxpb.S1M1.f3:type_name -> fxpb.S1M2
	214, // 17: fxpb.S1M1.f1:type_name -> fxpb.S1M1.F1Entry
	11,  // 18: fxpb.S2M1.f9:type_name -> fxpb.S2M2
	0,   // 19: fxpb.S2M1.f21:type_name -> fxpb.E
	12,  // 20: fxpb.S2M1.f20:type_name -> fxpb.S2M3
	215, // 21: fxpb.S2M1.f1:type_name -> fxpb.S2M1.F1Entry
	14,  // 22: fxpb.S2M1.f12:type_name -> fxpb.S2M5
	216, // 23: fxpb.S2M2.f3:type_name -> fxpb.S2M2.F3Entry
	13,  // 24: fxpb.S2M3.f244:type_name -> fxpb.S2M4
	217, // 25: fxpb.S2M3.f51084766:type_name -> fxpb.S2M3.F51084766Entry
	0,   // 26: fxpb.S2M5.f6:type_name -> fxpb.E
	218, // 27: fxpb.S2M5.f12:type_name -> fxpb.S2M5.F12Entry
	15,  // 28: fxpb.S2M5.f3:type_name -> fxpb.S2M6
	219, // 29: fxpb.S4M1.f260404734:type_name -> fxpb.S4M1.F260404734Entry
	20,  // 30: fxpb.S4M1.f11:type_name -> fxpb.S4M4
	19,  // 31: fxpb.S4M1.f17:type_name -> fxpb.S4M3
	220, // 32: fxpb.S4M2.f5:type_name -> fxpb.S4M2.F5Entry
	221, // 33: fxpb.S4M2.f6:type_name -> fxpb.S4M2.F6Entry
	222, // 34: fxpb.S4M4.f1:type_name -> fxpb.S4M4.F1Entry
	19,  // 35: fxpb.S4M4.f999:type_name -> fxpb.S4M3
	0,   // 36: fxpb.S4M4.f996:type_name -> fxpb.E
	18,  // 37: fxpb.S4M4.f2047:type_name -> fxpb.S4M2
	223, // 38: fxpb.S4M4.f32:type_name -> fxpb.S4M4.F32Entry
	224, // 39: fxpb.S5M1.f3:type_name -> fxpb.S5M1.F3Entry
	24,  // 40: fxpb.S5M1.f8:type_name -> fxpb.S5M4
	24,  // 41: fxpb.S5M1.f30:type_name -> fxpb.S5M4
	23,  // 42: fxpb.S5M2.f1:type_name -> fxpb.S5M3
	0,   // 43: fxpb.S5M3.f3:type_name -> fxpb.E
	0,   // 44: fxpb.S5M4.f12:type_name -> fxpb.E
	0,   // 45: fxpb.S5M4.f26:type_name -> fxpb.E
	225, // 46: fxpb.S7M1.f995:type_name -> fxpb.S7M1.F995Entry
	226, // 47: fxpb.S7M2.f13:type_name -> fxpb.S7M2.F13Entry
	28,  // 48: fxpb.S7M2.f145035270:type_name -> fxpb.S7M3
	0,   // 49: fxpb.S7M2.f4:type_name -> fxpb.E
	227, // 50: fxpb.S8M1.f2:type_name -> fxpb.S8M1.F2Entry
	228, // 51: fxpb.S9M1.f16:type_name -> fxpb.S9M1.F16Entry
	31,  // 52: fxpb.S9M1.f7:type_name -> fxpb.S9M2
	32,  // 53: fxpb.S9M2.f998:type_name -> fxpb.S9M3
	33,  // 54: fxpb.S9M2.f1006:type_name -> fxpb.S9M4
	34,  // 55: fxpb.S9M2.f20000:type_name -> fxpb.S9M5
	0,   // 56: fxpb.S9M3.f6:type_name -> fxpb.E
	0,   // 57: fxpb.S9M3.f5:type_name -> fxpb.E
	229, // 58: fxpb.S9M4.f69:type_name -> fxpb.S9M4.F69Entry
	230, // 59: fxpb.S9M4.f1:type_name -> fxpb.S9M4.F1Entry
	36,  // 60: fxpb.S10M1.f8:type_name -> fxpb.S10M2
	38,  // 61: fxpb.S10M1.f1002:type_name -> fxpb.S10M4
	37,  // 62: fxpb.S10M1.f9:type_name -> fxpb.S10M3
	40,  // 63: fxpb.S10M1.f262144:type_name -> fxpb.S10M6
	38,  // 64: fxpb.S10M1.f625:type_name -> fxpb.S10M4
	231, // 65: fxpb.S10M1.f11:type_name -> fxpb.S10M1.F11Entry
	232, // 66: fxpb.S10M2.f4:type_name -> fxpb.S10M2.F4Entry
	0,   // 67: fxpb.S10M3.f902:type_name -> fxpb.E
	0,   // 68: fxpb.S10M4.f2:type_name -> fxpb.E
	37,  // 69: fxpb.S10M4.f262144:type_name -> fxpb.S10M3
	233, // 70: fxpb.S10M4.f39:type_name -> fxpb.S10M4.F39Entry
	39,  // 71: fxpb.S10M4.f1005:type_name -> fxpb.S10M5
	234, // 72: fxpb.S10M5.f997:type_name -> fxpb.S10M5.F997Entry
	0,   // 73: fxpb.S10M6.f1:type_name -> fxpb.E
	235, // 74: fxpb.S11M1.f9:type_name -> fxpb.S11M1.F9Entry
	42,  // 75: fxpb.S11M1.f6:type_name -> fxpb.S11M2
	236, // 76: fxpb.S12M1.f32:type_name -> fxpb.S12M1.F32Entry
	44,  // 77: fxpb.S12M1.f2047:type_name -> fxpb.S12M2
	237, // 78: fxpb.S12M1.f536870911:type_name -> fxpb.S12M1.F536870911Entry
	238, // 79: fxpb.S12M1.f12:type_name -> fxpb.S12M1.F12Entry
	50,  // 80: fxpb.S12M1.f35:type_name -> fxpb.S12M8
	45,  // 81: fxpb.S12M2.f528:type_name -> fxpb.S12M3
	239, // 82: fxpb.S12M3.f8:type_name -> fxpb.S12M3.F8Entry
	47,  // 83: fxpb.S12M4.f1006:type_name -> fxpb.S12M5
	49,  // 84: fxpb.S12M4.f8:type_name -> fxpb.S12M7
	48,  // 85: fxpb.S12M4.f15:type_name -> fxpb.S12M6
	240, // 86: fxpb.S12M6.f7:type_name -> fxpb.S12M6.F7Entry
	52,  // 87: fxpb.S13M1.f529169674:type_name -> fxpb.S13M2
	53,  // 88: fxpb.S13M2.f2:type_name -> fxpb.S13M3
	0,   // 89: fxpb.S13M2.f11:type_name -> fxpb.E
	241, // 90: fxpb.S13M2.f920:type_name -> fxpb.S13M2.F920Entry
	242, // 91: fxpb.S13M2.f19:type_name -> fxpb.S13M2.F19Entry
	0,   // 92: fxpb.S13M4.f1003:type_name -> fxpb.E
	243, // 93: fxpb.S13M4.f12:type_name -> fxpb.S13M4.F12Entry
	57,  // 94: fxpb.S14M1.f35:type_name -> fxpb.S14M2
	61,  // 95: fxpb.S14M1.f9:type_name -> fxpb.S14M6
	244, // 96: fxpb.S14M1.f6:type_name -> fxpb.S14M1.F6Entry
	58,  // 97: fxpb.S14M2.f10:type_name -> fxpb.S14M3
	59,  // 98: fxpb.S14M2.f6:type_name -> fxpb.S14M4
	60,  // 99: fxpb.S14M2.f28:type_name -> fxpb.S14M5
	245, // 100: fxpb.S14M3.f58:type_name -> fxpb.S14M3.F58Entry
	246, // 101: fxpb.S14M4.f2:type_name -> fxpb.S14M4.F2Entry
	0,   // 102: fxpb.S14M4.f11:type_name -> fxpb.E
	62,  // 103: fxpb.S14M6.f648:type_name -> fxpb.S14M7
	247, // 104: fxpb.S14M6.f11:type_name -> fxpb.S14M6.F11Entry
	0,   // 105: fxpb.S14M6.f208:type_name -> fxpb.E
	248, // 106: fxpb.S14M6.f19:type_name -> fxpb.S14M6.F19Entry
	63,  // 107: fxpb.S14M6.f14:type_name -> fxpb.S14M8
	59,  // 108: fxpb.S14M6.f5:type_name -> fxpb.S14M4
	249, // 109: fxpb.S14M9.f2047:type_name -> fxpb.S14M9.F2047Entry
	66,  // 110: fxpb.S15M1.f2:type_name -> fxpb.S15M2
	250, // 111: fxpb.S15M1.f21:type_name -> fxpb.S15M1.F21Entry
	251, // 112: fxpb.S15M1.f735:type_name -> fxpb.S15M1.F735Entry
	252, // 113: fxpb.S15M2.f2:type_name -> fxpb.S15M2.F2Entry
	69,  // 114: fxpb.S17M1.f7:type_name -> fxpb.S17M2
	253, // 115: fxpb.S17M1.f9:type_name -> fxpb.S17M1.F9Entry
	71,  // 116: fxpb.S17M1.f1002:type_name -> fxpb.S17M4
	254, // 117: fxpb.S17M2.f6:type_name -> fxpb.S17M2.F6Entry
	255, // 118: fxpb.S17M4.f860:type_name -> fxpb.S17M4.F860Entry
	256, // 119: fxpb.S17M4.f10:type_name -> fxpb.S17M4.F10Entry
	73,  // 120: fxpb.S18M1.f11:type_name -> fxpb.S18M2
	257, // 121: fxpb.S18M1.f1001:type_name -> fxpb.S18M1.F1001Entry
	75,  // 122: fxpb.S19M1.f262143:type_name -> fxpb.S19M2
	258, // 123: fxpb.S19M2.f517791607:type_name -> fxpb.S19M2.F517791607Entry
	259, // 124: fxpb.S19M2.f8:type_name -> fxpb.S19M2.F8Entry
	260, // 125: fxpb.S21M1.f12:type_name -> fxpb.S21M1.F12Entry
	80,  // 126: fxpb.S21M1.f18999:type_name -> fxpb.S21M2
	82,  // 127: fxpb.S21M1.f181823282:type_name -> fxpb.S21M4
	85,  // 128: fxpb.S21M1.f13:type_name -> fxpb.S21M7
	80,  // 129: fxpb.S21M1.f15:type_name -> fxpb.S21M2
	81,  // 130: fxpb.S21M2.f188:type_name -> fxpb.S21M3
	0,   // 131: fxpb.S21M3.f13:type_name -> fxpb.E
	261, // 132: fxpb.S21M3.f5:type_name -> fxpb.S21M3.F5Entry
	81,  // 133: fxpb.S21M4.f1000:type_name -> fxpb.S21M3
	81,  // 134: fxpb.S21M4.f13:type_name -> fxpb.S21M3
	83,  // 135: fxpb.S21M4.f27:type_name -> fxpb.S21M5
	84,  // 136: fxpb.S21M4.f1005:type_name -> fxpb.S21M6
	262, // 137: fxpb.S21M5.f865:type_name -> fxpb.S21M5.F865Entry
	263, // 138: fxpb.S21M6.f20000:type_name -> fxpb.S21M6.F20000Entry
	264, // 139: fxpb.S21M6.f33554432:type_name -> fxpb.S21M6.F33554432Entry
	265, // 140: fxpb.S21M7.f3:type_name -> fxpb.S21M7.F3Entry
	266, // 141: fxpb.S21M7.f4:type_name -> fxpb.S21M7.F4Entry
	267, // 142: fxpb.S21M7.f34:type_name -> fxpb.S21M7.F34Entry
	87,  // 143: fxpb.S21M7.f5:type_name -> fxpb.S21M9
	88,  // 144: fxpb.S21M7.f6:type_name -> fxpb.S21M10
	89,  // 145: fxpb.S21M7.f18999:type_name -> fxpb.S21M11
	268, // 146: fxpb.S21M10.f400:type_name -> fxpb.S21M10.F400Entry
	269, // 147: fxpb.S21M11.f27:type_name -> fxpb.S21M11.F27Entry
	270, // 148: fxpb.S21M11.f4:type_name -> fxpb.S21M11.F4Entry
	271, // 149: fxpb.S22M1.f11:type_name -> fxpb.S22M1.F11Entry
	272, // 150: fxpb.S22M1.f448:type_name -> fxpb.S22M1.F448Entry
	273, // 151: fxpb.S22M1.f5:type_name -> fxpb.S22M1.F5Entry
	274, // 152: fxpb.S22M1.f2:type_name -> fxpb.S22M1.F2Entry
	92,  // 153: fxpb.S22M2.f365394437:type_name -> fxpb.S22M3
	275, // 154: fxpb.S22M3.f910:type_name -> fxpb.S22M3.F910Entry
	276, // 155: fxpb.S22M3.f1005:type_name -> fxpb.S22M3.F1005Entry
	277, // 156: fxpb.S22M3.f3:type_name -> fxpb.S22M3.F3Entry
	0,   // 157: fxpb.S24M1.f1006:type_name -> fxpb.E
	95,  // 158: fxpb.S24M1.f326:type_name -> fxpb.S24M2
	278, // 159: fxpb.S24M1.f4:type_name -> fxpb.S24M1.F4Entry
	279, // 160: fxpb.S24M1.f3:type_name -> fxpb.S24M1.F3Entry
	280, // 161: fxpb.S24M1.f18:type_name -> fxpb.S24M1.F18Entry
	98,  // 162: fxpb.S24M1.f71:type_name -> fxpb.S24M5
	0,   // 163: fxpb.S24M1.f999:type_name -> fxpb.E
	102, // 164: fxpb.S24M1.f1003:type_name -> fxpb.S24M9
	96,  // 165: fxpb.S24M2.f7:type_name -> fxpb.S24M3
	0,   // 166: fxpb.S24M2.f481:type_name -> fxpb.E
	281, // 167: fxpb.S24M2.f4:type_name -> fxpb.S24M2.F4Entry
	97,  // 168: fxpb.S24M2.f20000:type_name -> fxpb.S24M4
	282, // 169: fxpb.S24M2.f2047:type_name -> fxpb.S24M2.F2047Entry
	283, // 170: fxpb.S24M3.f1013:type_name -> fxpb.S24M3.F1013Entry
	284, // 171: fxpb.S24M6.f1:type_name -> fxpb.S24M6.F1Entry
	101, // 172: fxpb.S24M6.f15:type_name -> fxpb.S24M8
	285, // 173: fxpb.S24M9.f7:type_name -> fxpb.S24M9.F7Entry
	103, // 174: fxpb.S24M9.f26:type_name -> fxpb.S24M10
	286, // 175: fxpb.S24M10.f6:type_name -> fxpb.S24M10.F6Entry
	287, // 176: fxpb.S26M1.f2:type_name -> fxpb.S26M1.F2Entry
	288, // 177: fxpb.S26M1.f104:type_name -> fxpb.S26M1.F104Entry
	289, // 178: fxpb.S26M1.f38:type_name -> fxpb.S26M1.F38Entry
	290, // 179: fxpb.S27M1.f618:type_name -> fxpb.S27M1.F618Entry
	0,   // 180: fxpb.S29M1.f12:type_name -> fxpb.E
	291, // 181: fxpb.S31M1.f12:type_name -> fxpb.S31M1.F12Entry
	292, // 182: fxpb.S31M1.f9:type_name -> fxpb.S31M1.F9Entry
	113, // 183: fxpb.S31M1.f13:type_name -> fxpb.S31M4
	111, // 184: fxpb.S31M1.f33554432:type_name -> fxpb.S31M2
	112, // 185: fxpb.S31M2.f15:type_name -> fxpb.S31M3
	293, // 186: fxpb.S31M2.f12:type_name -> fxpb.S31M2.F12Entry
	114, // 187: fxpb.S31M4.f535736848:type_name -> fxpb.S31M5
	0,   // 188: fxpb.S31M5.f160649364:type_name -> fxpb.E
	116, // 189: fxpb.S32M1.f2:type_name -> fxpb.S32M2
	294, // 190: fxpb.S32M1.f528931624:type_name -> fxpb.S32M1.F528931624Entry
	117, // 191: fxpb.S32M2.f6:type_name -> fxpb.S32M3
	295, // 192: fxpb.S32M2.f5:type_name -> fxpb.S32M2.F5Entry
	296, // 193: fxpb.S32M3.f18:type_name -> fxpb.S32M3.F18Entry
	297, // 194: fxpb.S32M3.f6:type_name -> fxpb.S32M3.F6Entry
	298, // 195: fxpb.S33M1.f34:type_name -> fxpb.S33M1.F34Entry
	299, // 196: fxpb.S33M1.f9:type_name -> fxpb.S33M1.F9Entry
	119, // 197: fxpb.S33M1.f20000:type_name -> fxpb.S33M2
	120, // 198: fxpb.S33M2.f29:type_name -> fxpb.S33M3
	300, // 199: fxpb.S33M2.f11:type_name -> fxpb.S33M2.F11Entry
	122, // 200: fxpb.S33M2.f1004:type_name -> fxpb.S33M5
	121, // 201: fxpb.S33M2.f33554432:type_name -> fxpb.S33M4
	301, // 202: fxpb.S33M3.f6:type_name -> fxpb.S33M3.F6Entry
	0,   // 203: fxpb.S33M4.f9:type_name -> fxpb.E
	302, // 204: fxpb.S33M5.f536870911:type_name -> fxpb.S33M5.F536870911Entry
	303, // 205: fxpb.S33M5.f12:type_name -> fxpb.S33M5.F12Entry
	304, // 206: fxpb.S33M5.f15:type_name -> fxpb.S33M5.F15Entry
	124, // 207: fxpb.S34M1.f2047:type_name -> fxpb.S34M2
	125, // 208: fxpb.S34M1.f997:type_name -> fxpb.S34M3
	0,   // 209: fxpb.S34M2.f1002:type_name -> fxpb.E
	305, // 210: fxpb.S34M3.f6:type_name -> fxpb.S34M3.F6Entry
	126, // 211: fxpb.S34M3.f26:type_name -> fxpb.S34M4
	306, // 212: fxpb.S34M3.f1004:type_name -> fxpb.S34M3.F1004Entry
	127, // 213: fxpb.S34M3.f7:type_name -> fxpb.S34M5
	0,   // 214: fxpb.S34M4.f14:type_name -> fxpb.E
	0,   // 215: fxpb.S34M4.f10:type_name -> fxpb.E
	307, // 216: fxpb.S35M1.f170:type_name -> fxpb.S35M1.F170Entry
	308, // 217: fxpb.S35M1.f39:type_name -> fxpb.S35M1.F39Entry
	129, // 218: fxpb.S35M1.f2047:type_name -> fxpb.S35M2
	309, // 219: fxpb.S35M2.f262144:type_name -> fxpb.S35M2.F262144Entry
	310, // 220: fxpb.S35M2.f33554432:type_name -> fxpb.S35M2.F33554432Entry
	0,   // 221: fxpb.S35M2.f14:type_name -> fxpb.E
	311, // 222: fxpb.S35M2.f15:type_name -> fxpb.S35M2.F15Entry
	131, // 223: fxpb.S35M2.f815:type_name -> fxpb.S35M4
	0,   // 224: fxpb.S35M3.f10:type_name -> fxpb.E
	312, // 225: fxpb.S35M4.f374:type_name -> fxpb.S35M4.F374Entry
	313, // 226: fxpb.S35M4.f14:type_name -> fxpb.S35M4.F14Entry
	133, // 227: fxpb.S36M1.f3:type_name -> fxpb.S36M2
	138, // 228: fxpb.S36M1.f5:type_name -> fxpb.S36M7
	139, // 229: fxpb.S36M1.f122:type_name -> fxpb.S36M8
	141, // 230: fxpb.S36M1.f6:type_name -> fxpb.S36M10
	137, // 231: fxpb.S36M1.f2048:type_name -> fxpb.S36M6
	134, // 232: fxpb.S36M2.f262144:type_name -> fxpb.S36M3
	0,   // 233: fxpb.S36M2.f5:type_name -> fxpb.E
	135, // 234: fxpb.S36M2.f15:type_name -> fxpb.S36M4
	136, // 235: fxpb.S36M2.f471002382:type_name -> fxpb.S36M5
	314, // 236: fxpb.S36M3.f2:type_name -> fxpb.S36M3.F2Entry
	0,   // 237: fxpb.S36M3.f3:type_name -> fxpb.E
	315, // 238: fxpb.S36M3.f997:type_name -> fxpb.S36M3.F997Entry
	316, // 239: fxpb.S36M3.f11:type_name -> fxpb.S36M3.F11Entry
	0,   // 240: fxpb.S36M3.f37:type_name -> fxpb.E
	317, // 241: fxpb.S36M4.f998:type_name -> fxpb.S36M4.F998Entry
	318, // 242: fxpb.S36M4.f39:type_name -> fxpb.S36M4.F39Entry
	319, // 243: fxpb.S36M5.f784:type_name -> fxpb.S36M5.F784Entry
	137, // 244: fxpb.S36M7.f9:type_name -> fxpb.S36M6
	135, // 245: fxpb.S36M7.f11:type_name -> fxpb.S36M4
	320, // 246: fxpb.S36M8.f644:type_name -> fxpb.S36M8.F644Entry
	142, // 247: fxpb.S36M10.f285:type_name -> fxpb.S36M11
	321, // 248: fxpb.S36M11.f477:type_name -> fxpb.S36M11.F477Entry
	322, // 249: fxpb.S37M1.f4:type_name -> fxpb.S37M1.F4Entry
	146, // 250: fxpb.S37M1.f997:type_name -> fxpb.S37M4
	145, // 251: fxpb.S37M2.f15:type_name -> fxpb.S37M3
	323, // 252: fxpb.S37M3.f1:type_name -> fxpb.S37M3.F1Entry
	324, // 253: fxpb.S37M3.f433580546:type_name -> fxpb.S37M3.F433580546Entry
	145, // 254: fxpb.S37M4.f2:type_name -> fxpb.S37M3
	325, // 255: fxpb.S37M4.f40:type_name -> fxpb.S37M4.F40Entry
	148, // 256: fxpb.S37M4.f3:type_name -> fxpb.S37M6
	147, // 257: fxpb.S37M4.f7:type_name -> fxpb.S37M5
	145, // 258: fxpb.S37M4.f15:type_name -> fxpb.S37M3
	0,   // 259: fxpb.S37M6.f7:type_name -> fxpb.E
	326, // 260: fxpb.S38M1.f15:type_name -> fxpb.S38M1.F15Entry
	151, // 261: fxpb.S38M2.f997:type_name -> fxpb.S38M3
	0,   // 262: fxpb.S38M3.f6:type_name -> fxpb.E
	327, // 263: fxpb.S39M1.f24:type_name -> fxpb.S39M1.F24Entry
	154, // 264: fxpb.S39M1.f3:type_name -> fxpb.S39M3
	155, // 265: fxpb.S39M1.f7:type_name -> fxpb.S39M4
	328, // 266: fxpb.S39M1.f8:type_name -> fxpb.S39M1.F8Entry
	153, // 267: fxpb.S39M1.f5:type_name -> fxpb.S39M2
	329, // 268: fxpb.S39M3.f12:type_name -> fxpb.S39M3.F12Entry
	330, // 269: fxpb.S39M3.f536870911:type_name -> fxpb.S39M3.F536870911Entry
	331, // 270: fxpb.S39M3.f7:type_name -> fxpb.S39M3.F7Entry
	332, // 271: fxpb.S39M4.f20000:type_name -> fxpb.S39M4.F20000Entry
	333, // 272: fxpb.S39M4.f26:type_name -> fxpb.S39M4.F26Entry
	156, // 273: fxpb.S39M4.f12:type_name -> fxpb.S39M5
	334, // 274: fxpb.S39M4.f200408845:type_name -> fxpb.S39M4.F200408845Entry
	335, // 275: fxpb.S39M4.f428:type_name -> fxpb.S39M4.F428Entry
	156, // 276: fxpb.S39M4.f536870910:type_name -> fxpb.S39M5
	336, // 277: fxpb.S39M5.f18999:type_name -> fxpb.S39M5.F18999Entry
	160, // 278: fxpb.S41M1.f36:type_name -> fxpb.S41M2
	161, // 279: fxpb.S41M2.f4:type_name -> fxpb.S41M3
	337, // 280: fxpb.S42M1.f515:type_name -> fxpb.S42M1.F515Entry
	338, // 281: fxpb.S43M1.f366708338:type_name -> fxpb.S43M1.F366708338Entry
	164, // 282: fxpb.S43M1.f18999:type_name -> fxpb.S43M2
	339, // 283: fxpb.S43M2.f1004:type_name -> fxpb.S43M2.F1004Entry
	340, // 284: fxpb.S43M2.f2:type_name -> fxpb.S43M2.F2Entry
	341, // 285: fxpb.S43M2.f6:type_name -> fxpb.S43M2.F6Entry
	342, // 286: fxpb.S43M3.f396:type_name -> fxpb.S43M3.F396Entry
	167, // 287: fxpb.S44M1.f1002:type_name -> fxpb.S44M2
	343, // 288: fxpb.S44M1.f2:type_name -> fxpb.S44M1.F2Entry
	344, // 289: fxpb.S44M1.f9:type_name -> fxpb.S44M1.F9Entry
	168, // 290: fxpb.S44M1.f8:type_name -> fxpb.S44M3
	345, // 291: fxpb.S44M2.f19:type_name -> fxpb.S44M2.F19Entry
	346, // 292: fxpb.S44M2.f2:type_name -> fxpb.S44M2.F2Entry
	347, // 293: fxpb.S45M1.f24:type_name -> fxpb.S45M1.F24Entry
	170, // 294: fxpb.S45M1.f33554431:type_name -> fxpb.S45M2
	172, // 295: fxpb.S45M1.f11:type_name -> fxpb.S45M4
	0,   // 296: fxpb.S45M2.f33554432:type_name -> fxpb.E
	171, // 297: fxpb.S45M2.f8:type_name -> fxpb.S45M3
	348, // 298: fxpb.S45M2.f3:type_name -> fxpb.S45M2.F3Entry
	349, // 299: fxpb.S45M2.f536870911:type_name -> fxpb.S45M2.F536870911Entry
	0,   // 300: fxpb.S45M2.f1006:type_name -> fxpb.E
	350, // 301: fxpb.S45M3.f7:type_name -> fxpb.S45M3.F7Entry
	173, // 302: fxpb.S45M4.f262144:type_name -> fxpb.S45M5
	171, // 303: fxpb.S45M4.f33554431:type_name -> fxpb.S45M3
	175, // 304: fxpb.S46M1.f25:type_name -> fxpb.S46M2
	175, // 305: fxpb.S46M1.f7:type_name -> fxpb.S46M2
	351, // 306: fxpb.S46M2.f8948839:type_name -> fxpb.S46M2.F8948839Entry
	352, // 307: fxpb.S46M2.f11:type_name -> fxpb.S46M2.F11Entry
	353, // 308: fxpb.S46M2.f6:type_name -> fxpb.S46M2.F6Entry
	354, // 309: fxpb.S46M2.f996:type_name -> fxpb.S46M2.F996Entry
	178, // 310: fxpb.S46M2.f474:type_name -> fxpb.S46M5
	355, // 311: fxpb.S46M3.f13:type_name -> fxpb.S46M3.F13Entry
	356, // 312: fxpb.S46M5.f262143:type_name -> fxpb.S46M5.F262143Entry
	180, // 313: fxpb.S47M1.f563:type_name -> fxpb.S47M2
	183, // 314: fxpb.S47M1.f187:type_name -> fxpb.S47M5
	181, // 315: fxpb.S47M1.f995:type_name -> fxpb.S47M3
	357, // 316: fxpb.S47M3.f11:type_name -> fxpb.S47M3.F11Entry
	182, // 317: fxpb.S47M3.f18999:type_name -> fxpb.S47M4
	358, // 318: fxpb.S47M4.f17:type_name -> fxpb.S47M4.F17Entry
	359, // 319: fxpb.S47M4.f7:type_name -> fxpb.S47M4.F7Entry
	360, // 320: fxpb.S47M4.f12:type_name -> fxpb.S47M4.F12Entry
	361, // 321: fxpb.S47M5.f536870911:type_name -> fxpb.S47M5.F536870911Entry
	185, // 322: fxpb.Rec.f1:type_name -> fxpb.Rec
	185, // 323: fxpb.Rec.f2:type_name -> fxpb.Rec
	362, // 324: fxpb.Rec.f3:type_name -> fxpb.Rec.F3Entry
	363, // 325: fxpb.Rec.f4:type_name -> fxpb.Rec.F4Entry
	364, // 326: fxpb.Rec.f5:type_name -> fxpb.Rec.F5Entry
	365, // 327: fxpb.Rec.f6:type_name -> fxpb.Rec.F6Entry
	185, // 328: fxpb.Rec.f7:type_name -> fxpb.Rec
	187, // 329: fxpb.MutA.f1:type_name -> fxpb.MutB
	186, // 330: fxpb.MutA.f3:type_name -> fxpb.MutA
	186, // 331: fxpb.MutB.f1:type_name -> fxpb.MutA
	366, // 332: fxpb.MutB.f2:type_name -> fxpb.MutB.F2Entry
	0,   // 333: fxpb.AllImplicit.f14:type_name -> fxpb.E
	0,   // 334: fxpb.AllExplicit.f14:type_name -> fxpb.E
	0,   // 335: fxpb.AllRepeated.f27:type_name -> fxpb.E
	0,   // 336: fxpb.AllRepeated.f28:type_name -> fxpb.E
	0,   // 337: fxpb.AllOneof.f27:type_name -> fxpb.E
	367, // 338: fxpb.Maps0.f1:type_name -> fxpb.Maps0.F1Entry
	368, // 339: fxpb.Maps0.f2:type_name -> fxpb.Maps0.F2Entry
	369, // 340: fxpb.Maps0.f3:type_name -> fxpb.Maps0.F3Entry
	370, // 341: fxpb.Maps0.f4:type_name -> fxpb.Maps0.F4Entry
	371, // 342: fxpb.Maps0.f5:type_name -> fxpb.Maps0.F5Entry
	372, // 343: fxpb.Maps0.f6:type_name -> fxpb.Maps0.F6Entry
	373, // 344: fxpb.Maps0.f7:type_name -> fxpb.Maps0.F7Entry
	374, // 345: fxpb.Maps0.f8:type_name -> fxpb.Maps0.F8Entry
	375, // 346: fxpb.Maps0.f9:type_name -> fxpb.Maps0.F9Entry
	376, // 347: fxpb.Maps0.f10:type_name -> fxpb.Maps0.F10Entry
	377, // 348: fxpb.Maps0.f11:type_name -> fxpb.Maps0.F11Entry
	378, // 349: fxpb.Maps0.f12:type_name -> fxpb.Maps0.F12Entry
	379, // 350: fxpb.Maps0.f13:type_name -> fxpb.Maps0.F13Entry
	380, // 351: fxpb.Maps0.f14:type_name -> fxpb.Maps0.F14Entry
	381, // 352: fxpb.Maps0.f15:type_name -> fxpb.Maps0.F15Entry
	382, // 353: fxpb.Maps0.f16:type_name -> fxpb.Maps0.F16Entry
	383, // 354: fxpb.Maps0.f17:type_name -> fxpb.Maps0.F17Entry
	384, // 355: fxpb.Maps1.f1:type_name -> fxpb.Maps1.F1Entry
	385, // 356: fxpb.Maps1.f2:type_name -> fxpb.Maps1.F2Entry
	386, // 357: fxpb.Maps1.f3:type_name -> fxpb.Maps1.F3Entry
	387, // 358: fxpb.Maps1.f4:type_name -> fxpb.Maps1.F4Entry
	388, // 359: fxpb.Maps1.f5:type_name -> fxpb.Maps1.F5Entry
	389, // 360: fxpb.Maps1.f6:type_name -> fxpb.Maps1.F6Entry
	390, // 361: fxpb.Maps1.f7:type_name -> fxpb.Maps1.F7Entry
	391, // 362: fxpb.Maps1.f8:type_name -> fxpb.Maps1.F8Entry
	392, // 363: fxpb.Maps1.f9:type_name -> fxpb.Maps1.F9Entry
	393, // 364: fxpb.Maps1.f10:type_name -> fxpb.Maps1.F10Entry
	394, // 365: fxpb.Maps1.f11:type_name -> fxpb.Maps1.F11Entry
	395, // 366: fxpb.Maps1.f12:type_name -> fxpb.Maps1.F12Entry
	396, // 367: fxpb.Maps1.f13:type_name -> fxpb.Maps1.F13Entry
	397, // 368: fxpb.Maps1.f14:type_name -> fxpb.Maps1.F14Entry
	398, // 369: fxpb.Maps1.f15:type_name -> fxpb.Maps1.F15Entry
	399, // 370: fxpb.Maps1.f16:type_name -> fxpb.Maps1.F16Entry
	400, // 371: fxpb.Maps1.f17:type_name -> fxpb.Maps1.F17Entry
	401, // 372: fxpb.Maps2.f1:type_name -> fxpb.Maps2.F1Entry
	402, // 373: fxpb.Maps2.f2:type_name -> fxpb.Maps2.F2Entry
	403, // 374: fxpb.Maps2.f3:type_name -> fxpb.Maps2.F3Entry
	404, // 375: fxpb.Maps2.f4:type_name -> fxpb.Maps2.F4Entry
	405, // 376: fxpb.Maps2.f5:type_name -> fxpb.Maps2.F5Entry
	406, // 377: fxpb.Maps2.f6:type_name -> fxpb.Maps2.F6Entry
	407, // 378: fxpb.Maps2.f7:type_name -> fxpb.Maps2.F7Entry
	408, // 379: fxpb.Maps2.f8:type_name -> fxpb.Maps2.F8Entry
	409, // 380: fxpb.Maps2.f9:type_name -> fxpb.Maps2.F9Entry
	410, // 381: fxpb.Maps2.f10:type_name -> fxpb.Maps2.F10Entry
	411, // 382: fxpb.Maps2.f11:type_name -> fxpb.Maps2.F11Entry
	412, // 383: fxpb.Maps2.f12:type_name -> fxpb.Maps2.F12Entry
	413, // 384: fxpb.Maps2.f13:type_name -> fxpb.Maps2.F13Entry
	414, // 385: fxpb.Maps2.f14:type_name -> fxpb.Maps2.F14Entry
	415, // 386: fxpb.Maps2.f15:type_name -> fxpb.Maps2.F15Entry
	416, // 387: fxpb.Maps2.f16:type_name -> fxpb.Maps2.F16Entry
	417, // 388: fxpb.Maps2.f17:type_name -> fxpb.Maps2.F17Entry
	418, // 389: fxpb.Maps3.f1:type_name -> fxpb.Maps3.F1Entry
	419, // 390: fxpb.Maps3.f2:type_name -> fxpb.Maps3.F2Entry
	420, // 391: fxpb.Maps3.f3:type_name -> fxpb.Maps3.F3Entry
	421, // 392: fxpb.Maps3.f4:type_name -> fxpb.Maps3.F4Entry
	422, // 393: fxpb.Maps3.f5:type_name -> fxpb.Maps3.F5Entry
	423, // 394: fxpb.Maps3.f6:type_name -> fxpb.Maps3.F6Entry
	424, // 395: fxpb.Maps3.f7:type_name -> fxpb.Maps3.F7Entry
	425, // 396: fxpb.Maps3.f8:type_name -> fxpb.Maps3.F8Entry
	426, // 397: fxpb.Maps3.f9:type_name -> fxpb.Maps3.F9Entry
	427, // 398: fxpb.Maps3.f10:type_name -> fxpb.Maps3.F10Entry
	428, // 399: fxpb.Maps3.f11:type_name -> fxpb.Maps3.F11Entry
	429, // 400: fxpb.Maps3.f12:type_name -> fxpb.Maps3.F12Entry
	430, // 401: fxpb.Maps3.f13:type_name -> fxpb.Maps3.F13Entry
	431, // 402: fxpb.Maps3.f14:type_name -> fxpb.Maps3.F14Entry
	432, // 403: fxpb.Maps3.f15:type_name -> fxpb.Maps3.F15Entry
	433, // 404: fxpb.Maps3.f16:type_name -> fxpb.Maps3.F16Entry
	434, // 405: fxpb.Maps3.f17:type_name -> fxpb.Maps3.F17Entry
	435, // 406: fxpb.Maps4.f1:type_name -> fxpb.Maps4.F1Entry
	436, // 407: fxpb.Maps4.f2:type_name -> fxpb.Maps4.F2Entry
	437, // 408: fxpb.Maps4.f3:type_name -> fxpb.Maps4.F3Entry
	438, // 409: fxpb.Maps4.f4:type_name -> fxpb.Maps4.F4Entry
	439, // 410: fxpb.Maps4.f5:type_name -> fxpb.Maps4.F5Entry
	440, // 411: fxpb.Maps4.f6:type_name -> fxpb.Maps4.F6Entry
	441, // 412: fxpb.Maps4.f7:type_name -> fxpb.Maps4.F7Entry
	442, // 413: fxpb.Maps4.f8:type_name -> fxpb.Maps4.F8Entry
	443, // 414: fxpb.Maps4.f9:type_name -> fxpb.Maps4.F9Entry
	444, // 415: fxpb.Maps4.f10:type_name -> fxpb.Maps4.F10Entry
	445, // 416: fxpb.Maps4.f11:type_name -> fxpb.Maps4.F11Entry
	446, // 417: fxpb.Maps4.f12:type_name -> fxpb.Maps4.F12Entry
	447, // 418: fxpb.Maps4.f13:type_name -> fxpb.Maps4.F13Entry
	448, // 419: fxpb.Maps4.f14:type_name -> fxpb.Maps4.F14Entry
	449, // 420: fxpb.Maps4.f15:type_name -> fxpb.Maps4.F15Entry
	450, // 421: fxpb.Maps4.f16:type_name -> fxpb.Maps4.F16Entry
	451, // 422: fxpb.Maps4.f17:type_name -> fxpb.Maps4.F17Entry
	452, // 423: fxpb.Maps5.f1:type_name -> fxpb.Maps5.F1Entry
	453, // 424: fxpb.Maps5.f2:type_name -> fxpb.Maps5.F2Entry
	454, // 425: fxpb.Maps5.f3:type_name -> fxpb.Maps5.F3Entry
	455, // 426: fxpb.Maps5.f4:type_name -> fxpb.Maps5.F4Entry
	456, // 427: fxpb.Maps5.f5:type_name -> fxpb.Maps5.F5Entry
	457, // 428: fxpb.Maps5.f6:type_name -> fxpb.Maps5.F6Entry
	458, // 429: fxpb.Maps5.f7:type_name -> fxpb.Maps5.F7Entry
	459, // 430: fxpb.Maps5.f8:type_name -> fxpb.Maps5.F8Entry
	460, // 431: fxpb.Maps5.f9:type_name -> fxpb.Maps5.F9Entry
	461, // 432: fxpb.Maps5.f10:type_name -> fxpb.Maps5.F10Entry
	462, // 433: fxpb.Maps5.f11:type_name -> fxpb.Maps5.F11Entry
	463, // 434: fxpb.Maps5.f12:type_name -> fxpb.Maps5.F12Entry
	464, // 435: fxpb.Maps5.f13:type_name -> fxpb.Maps5.F13Entry
	465, // 436: fxpb.Maps5.f14:type_name -> fxpb.Maps5.F14Entry
	466, // 437: fxpb.Maps5.f15:type_name -> fxpb.Maps5.F15Entry
	467, // 438: fxpb.Maps5.f16:type_name -> fxpb.Maps5.F16Entry
	468, // 439: fxpb.Maps5.f17:type_name -> fxpb.Maps5.F17Entry
	469, // 440: fxpb.Maps6.f1:type_name -> fxpb.Maps6.F1Entry
	470, // 441: fxpb.Maps6.f2:type_name -> fxpb.Maps6.F2Entry
	471, // 442: fxpb.Maps6.f3:type_name -> fxpb.Maps6.F3Entry
	472, // 443: fxpb.Maps6.f4:type_name -> fxpb.Maps6.F4Entry
	473, // 444: fxpb.Maps6.f5:type_name -> fxpb.Maps6.F5Entry
	474, // 445: fxpb.Maps6.f6:type_name -> fxpb.Maps6.F6Entry
	475, // 446: fxpb.Maps6.f7:type_name -> fxpb.Maps6.F7Entry
	476, // 447: fxpb.Maps6.f8:type_name -> fxpb.Maps6.F8Entry
	477, // 448: fxpb.Maps6.f9:type_name -> fxpb.Maps6.F9Entry
	478, // 449: fxpb.Maps6.f10:type_name -> fxpb.Maps6.F10Entry
	479, // 450: fxpb.Maps6.f11:type_name -> fxpb.Maps6.F11Entry
	480, // 451: fxpb.Maps6.f12:type_name -> fxpb.Maps6.F12Entry
	481, // 452: fxpb.Maps6.f13:type_name -> fxpb.Maps6.F13Entry
	482, // 453: fxpb.Maps6.f14:type_name -> fxpb.Maps6.F14Entry
	483, // 454: fxpb.Maps6.f15:type_name -> fxpb.Maps6.F15Entry
	484, // 455: fxpb.Maps6.f16:type_name -> fxpb.Maps6.F16Entry
	485, // 456: fxpb.Maps6.f17:type_name -> fxpb.Maps6.F17Entry
	486, // 457: fxpb.Maps7.f1:type_name -> fxpb.Maps7.F1Entry
	487, // 458: fxpb.Maps7.f2:type_name -> fxpb.Maps7.F2Entry
	488, // 459: fxpb.Maps7.f3:type_name -> fxpb.Maps7.F3Entry
	489, // 460: fxpb.Maps7.f4:type_name -> fxpb.Maps7.F4Entry
	490, // 461: fxpb.Maps7.f5:type_name -> fxpb.Maps7.F5Entry
	491, // 462: fxpb.Maps7.f6:type_name -> fxpb.Maps7.F6Entry
	492, // 463: fxpb.Maps7.f7:type_name -> fxpb.Maps7.F7Entry
	493, // 464: fxpb.Maps7.f8:type_name -> fxpb.Maps7.F8Entry
	494, // 465: fxpb.Maps7.f9:type_name -> fxpb.Maps7.F9Entry
	495, // 466: fxpb.Maps7.f10:type_name -> fxpb.Maps7.F10Entry
	496, // 467: fxpb.Maps7.f11:type_name -> fxpb.Maps7.F11Entry
	497, // 468: fxpb.Maps7.f12:type_name -> fxpb.Maps7.F12Entry
	498, // 469: fxpb.Maps7.f13:type_name -> fxpb.Maps7.F13Entry
	499, // 470: fxpb.Maps7.f14:type_name -> fxpb.Maps7.F14Entry
	500, // 471: fxpb.Maps7.f15:type_name -> fxpb.Maps7.F15Entry
	501, // 472: fxpb.Maps7.f16:type_name -> fxpb.Maps7.F16Entry
	502, // 473: fxpb.Maps7.f17:type_name -> fxpb.Maps7.F17Entry
	503, // 474: fxpb.Maps8.f1:type_name -> fxpb.Maps8.F1Entry
	504, // 475: fxpb.Maps8.f2:type_name -> fxpb.Maps8.F2Entry
	505, // 476: fxpb.Maps8.f3:type_name -> fxpb.Maps8.F3Entry
	506, // 477: fxpb.Maps8.f4:type_name -> fxpb.Maps8.F4Entry
	507, // 478: fxpb.Maps8.f5:type_name -> fxpb.Maps8.F5Entry
	508, // 479: fxpb.Maps8.f6:type_name -> fxpb.Maps8.F6Entry
	509, // 480: fxpb.Maps8.f7:type_name -> fxpb.Maps8.F7Entry
	510, // 481: fxpb.Maps8.f8:type_name -> fxpb.Maps8.F8Entry
	511, // 482: fxpb.Maps8.f9:type_name -> fxpb.Maps8.F9Entry
	512, // 483: fxpb.Maps8.f10:type_name -> fxpb.Maps8.F10Entry
	513, // 484: fxpb.Maps8.f11:type_name -> fxpb.Maps8.F11Entry
	514, // 485: fxpb.Maps8.f12:type_name -> fxpb.Maps8.F12Entry
	515, // 486: fxpb.Maps8.f13:type_name -> fxpb.Maps8.F13Entry
	516, // 487: fxpb.Maps8.f14:type_name -> fxpb.Maps8.F14Entry
	517, // 488: fxpb.Maps8.f15:type_name -> fxpb.Maps8.F15Entry
	518, // 489: fxpb.Maps8.f16:type_name -> fxpb.Maps8.F16Entry
	519, // 490: fxpb.Maps8.f17:type_name -> fxpb.Maps8.F17Entry
	520, // 491: fxpb.Maps9.f1:type_name -> fxpb.Maps9.F1Entry
	521, // 492: fxpb.Maps9.f2:type_name -> fxpb.Maps9.F2Entry
	522, // 493: fxpb.Maps9.f3:type_name -> fxpb.Maps9.F3Entry
	523, // 494: fxpb.Maps9.f4:type_name -> fxpb.Maps9.F4Entry
	524, // 495: fxpb.Maps9.f5:type_name -> fxpb.Maps9.F5Entry
	525, // 496: fxpb.Maps9.f6:type_name -> fxpb.Maps9.F6Entry
	526, // 497: fxpb.Maps9.f7:type_name -> fxpb.Maps9.F7Entry
	527, // 498: fxpb.Maps9.f8:type_name -> fxpb.Maps9.F8Entry
	528, // 499: fxpb.Maps9.f9:type_name -> fxpb.Maps9.F9Entry
	529, // 500: fxpb.Maps9.f10:type_name -> fxpb.Maps9.F10Entry
	530, // 501: fxpb.Maps9.f11:type_name -> fxpb.Maps9.F11Entry
	531, // 502: fxpb.Maps9.f12:type_name -> fxpb.Maps9.F12Entry
	532, // 503: fxpb.Maps9.f13:type_name -> fxpb.Maps9.F13Entry
	533, // 504: fxpb.Maps9.f14:type_name -> fxpb.Maps9.F14Entry
	534, // 505: fxpb.Maps9.f15:type_name -> fxpb.Maps9.F15Entry
	535, // 506: fxpb.Maps9.f16:type_name -> fxpb.Maps9.F16Entry
	536, // 507: fxpb.Maps9.f17:type_name -> fxpb.Maps9.F17Entry
	537, // 508: fxpb.Maps10.f1:type_name -> fxpb.Maps10.F1Entry
	538, // 509: fxpb.Maps10.f2:type_name -> fxpb.Maps10.F2Entry
	539, // 510: fxpb.Maps10.f3:type_name -> fxpb.Maps10.F3Entry
	540, // 511: fxpb.Maps10.f4:type_name -> fxpb.Maps10.F4Entry
	541, // 512: fxpb.Maps10.f5:type_name -> fxpb.Maps10.F5Entry
	542, // 513: fxpb.Maps10.f6:type_name -> fxpb.Maps10.F6Entry
	543, // 514: fxpb.Maps10.f7:type_name -> fxpb.Maps10.F7Entry
	544, // 515: fxpb.Maps10.f8:type_name -> fxpb.Maps10.F8Entry
	545, // 516: fxpb.Maps10.f9:type_name -> fxpb.Maps10.F9Entry
	546, // 517: fxpb.Maps10.f10:type_name -> fxpb.Maps10.F10Entry
	547, // 518: fxpb.Maps10.f11:type_name -> fxpb.Maps10.F11Entry
	548, // 519: fxpb.Maps10.f12:type_name -> fxpb.Maps10.F12Entry
	549, // 520: fxpb.Maps10.f13:type_name -> fxpb.Maps10.F13Entry
	550, // 521: fxpb.Maps10.f14:type_name -> fxpb.Maps10.F14Entry
	551, // 522: fxpb.Maps10.f15:type_name -> fxpb.Maps10.F15Entry
	552, // 523: fxpb.Maps10.f16:type_name -> fxpb.Maps10.F16Entry
	553, // 524: fxpb.Maps10.f17:type_name -> fxpb.Maps10.F17Entry
	554, // 525: fxpb.Maps11.f1:type_name -> fxpb.Maps11.F1Entry
	555, // 526: fxpb.Maps11.f2:type_name -> fxpb.Maps11.F2Entry
	556, // 527: fxpb.Maps11.f3:type_name -> fxpb.Maps11.F3Entry
	557, // 528: fxpb.Maps11.f4:type_name -> fxpb.Maps11.F4Entry
	558, // 529: fxpb.Maps11.f5:type_name -> fxpb.Maps11.F5Entry
	559, // 530: fxpb.Maps11.f6:type_name -> fxpb.Maps11.F6Entry
	560, // 531: fxpb.Maps11.f7:type_name -> fxpb.Maps11.F7Entry
	561, // 532: fxpb.Maps11.f8:type_name -> fxpb.Maps11.F8Entry
	562, // 533: fxpb.Maps11.f9:type_name -> fxpb.Maps11.F9Entry
	563, // 534: fxpb.Maps11.f10:type_name -> fxpb.Maps11.F10Entry
	564, // 535: fxpb.Maps11.f11:type_name -> fxpb.Maps11.F11Entry
	565, // 536: fxpb.Maps11.f12:type_name -> fxpb.Maps11.F12Entry
	566, // 537: fxpb.Maps11.f13:type_name -> fxpb.Maps11.F13Entry
	567, // 538: fxpb.Maps11.f14:type_name -> fxpb.Maps11.F14Entry
	568, // 539: fxpb.Maps11.f15:type_name -> fxpb.Maps11.F15Entry
	569, // 540: fxpb.Maps11.f16:type_name -> fxpb.Maps11.F16Entry
	570, // 541: fxpb.Maps11.f17:type_name -> fxpb.Maps11.F17Entry
	0,   // 542: fxpb.BigOneof.f536870911:type_name -> fxpb.E
	193, // 543: fxpb.BigOneof.f500:type_name -> fxpb.Leaf
	185, // 544: fxpb.BigOneof.f501:type_name -> fxpb.Rec
	6,   // 545: fxpb.S0M3.F7Entry.value:type_name -> fxpb.S0M6
	18,  // 546: fxpb.S4M1.F260404734Entry.value:type_name -> fxpb.S4M2
	22,  // 547: fxpb.S5M1.F3Entry.value:type_name -> fxpb.S5M2
	27,  // 548: fxpb.S7M1.F995Entry.value:type_name -> fxpb.S7M2
	37,  // 549: fxpb.S10M2.F4Entry.value:type_name -> fxpb.S10M3
	46,  // 550: fxpb.S12M1.F536870911Entry.value:type_name -> fxpb.S12M4
	0,   // 551: fxpb.S12M3.F8Entry.value:type_name -> fxpb.E
	54,  // 552: fxpb.S13M2.F920Entry.value:type_name -> fxpb.S13M4
	55,  // 553: fxpb.S13M2.F19Entry.value:type_name -> fxpb.S13M5
	64,  // 554: fxpb.S14M1.F6Entry.value:type_name -> fxpb.S14M9
	58,  // 555: fxpb.S14M6.F19Entry.value:type_name -> fxpb.S14M3
	70,  // 556: fxpb.S17M1.F9Entry.value:type_name -> fxpb.S17M3
	69,  // 557: fxpb.S17M4.F10Entry.value:type_name -> fxpb.S17M2
	76,  // 558: fxpb.S19M2.F517791607Entry.value:type_name -> fxpb.S19M3
	77,  // 559: fxpb.S19M2.F8Entry.value:type_name -> fxpb.S19M4
	86,  // 560: fxpb.S21M7.F34Entry.value:type_name -> fxpb.S21M8
	91,  // 561: fxpb.S22M1.F11Entry.value:type_name -> fxpb.S22M2
	0,   // 562: fxpb.S22M3.F1005Entry.value:type_name -> fxpb.E
	0,   // 563: fxpb.S22M3.F3Entry.value:type_name -> fxpb.E
	98,  // 564: fxpb.S24M1.F4Entry.value:type_name -> fxpb.S24M5
	99,  // 565: fxpb.S24M1.F18Entry.value:type_name -> fxpb.S24M6
	100, // 566: fxpb.S24M6.F1Entry.value:type_name -> fxpb.S24M7
	0,   // 567: fxpb.S32M2.F5Entry.value:type_name -> fxpb.E
	0,   // 568: fxpb.S34M3.F1004Entry.value:type_name -> fxpb.E
	130, // 569: fxpb.S35M2.F33554432Entry.value:type_name -> fxpb.S35M3
	140, // 570: fxpb.S36M8.F644Entry.value:type_name -> fxpb.S36M9
	144, // 571: fxpb.S37M1.F4Entry.value:type_name -> fxpb.S37M2
	150, // 572: fxpb.S38M1.F15Entry.value:type_name -> fxpb.S38M2
	157, // 573: fxpb.S39M1.F8Entry.value:type_name -> fxpb.S39M6
	165, // 574: fxpb.S43M2.F1004Entry.value:type_name -> fxpb.S43M3
	176, // 575: fxpb.S46M2.F8948839Entry.value:type_name -> fxpb.S46M3
	177, // 576: fxpb.S46M2.F6Entry.value:type_name -> fxpb.S46M4
	0,   // 577: fxpb.S46M5.F262143Entry.value:type_name -> fxpb.E
	184, // 578: fxpb.S47M5.F536870911Entry.value:type_name -> fxpb.S47M6
	185, // 579: fxpb.Rec.F3Entry.value:type_name -> fxpb.Rec
	185, // 580: fxpb.Rec.F4Entry.value:type_name -> fxpb.Rec
	185, // 581: fxpb.Rec.F5Entry.value:type_name -> fxpb.Rec
	185, // 582: fxpb.Rec.F6Entry.value:type_name -> fxpb.Rec
	186, // 583: fxpb.MutB.F2Entry.value:type_name -> fxpb.MutA
	0,   // 584: fxpb.Maps0.F14Entry.value:type_name -> fxpb.E
	193, // 585: fxpb.Maps0.F17Entry.value:type_name -> fxpb.Leaf
	0,   // 586: fxpb.Maps1.F14Entry.value:type_name -> fxpb.E
	193, // 587: fxpb.Maps1.F17Entry.value:type_name -> fxpb.Leaf
	0,   // 588: fxpb.Maps2.F14Entry.value:type_name -> fxpb.E
	193, // 589: fxpb.Maps2.F17Entry.value:type_name -> fxpb.Leaf
	0,   // 590: fxpb.Maps3.F14Entry.value:type_name -> fxpb.E
	193, // 591: fxpb.Maps3.F17Entry.value:type_name -> fxpb.Leaf
	0,   // 592: fxpb.Maps4.F14Entry.value:type_name -> fxpb.E
	193, // 593: fxpb.Maps4.F17Entry.value:type_name -> fxpb.Leaf
	0,   // 594: fxpb.Maps5.F14Entry.value:type_name -> fxpb.E
	193, // 595: fxpb.Maps5.F17Entry.value:type_name -> fxpb.Leaf
	0,   // 596: fxpb.Maps6.F14Entry.value:type_name -> fxpb.E
	193, // 597: fxpb.Maps6.F17Entry.value:type_name -> fxpb.Leaf
	0,   // 598: fxpb.Maps7.F14Entry.value:type_name -> fxpb.E
	193, // 599: fxpb.Maps7.F17Entry.value:type_name -> fxpb.Leaf
	0,   // 600: fxpb.Maps8.F14Entry.value:type_name -> fxpb.E
	193, // 601: fxpb.Maps8.F17Entry.value:type_name -> fxpb.Leaf
	0,   // 602: fxpb.Maps9.F14Entry.value:type_name -> fxpb.E
	193, // 603: fxpb.Maps9.F17Entry.value:type_name -> fxpb.Leaf
	0,   // 604: fxpb.Maps10.F14Entry.value:type_name -> fxpb.E
	193, // 605: fxpb.Maps10.F17Entry.value:type_name -> fxpb.Leaf
	0,   // 606: fxpb.Maps11.F14Entry.value:type_name -> fxpb.E
	193, // 607: fxpb.Maps11.F17Entry.value:type_name -> fxpb.Leaf
	608, // [608:608] is the sub-list for method output_type
	608, // [608:608] is the sub-list for method input_type
	608, // [608:608] is the sub-list for extension type_name
	608, // [608:608] is the sub-list for extension extendee
	0,   // [0:608] is the sub-list for field type_name
}

func init() { file_fxpb_proto_init() }
func file_fxpb_proto_init() {
	if File_fxpb_proto != nil {
		return
	}
	file_fxpb_proto_msgTypes[0].OneofWrappers = []any{
		(*S0M1_F11)(nil),
		(*S0M1_F28)(nil),
	}
	file_fxpb_proto_msgTypes[1].OneofWrappers = []any{
		(*S0M2_F4)(nil),
		(*S0M2_F14)(nil),
	}
	file_fxpb_proto_msgTypes[3].OneofWrappers = []any{
		(*S0M4_F20000)(nil),
	}
	file_fxpb_proto_msgTypes[4].OneofWrappers = []any{
		(*S0M5_F24)(nil),
		(*S0M5_F16)(nil),
		(*S0M5_F10)(nil),
	}
	file_fxpb_proto_msgTypes[5].OneofWrappers = []any{
		(*S0M6_F8)(nil),
	}
	file_fxpb_proto_msgTypes[7].OneofWrappers = []any{
		(*S1M1_F1001)(nil),
		(*S1M1_F13)(nil),
	}
	file_fxpb_proto_msgTypes[9].OneofWrappers = []any{
		(*S2M1_F12)(nil),
		(*S2M1_F13)(nil),
		(*S2M1_F14)(nil),
	}
	file_fxpb_proto_msgTypes[12].OneofWrappers = []any{
		(*S2M4_F18)(nil),
	}
	file_fxpb_proto_msgTypes[16].OneofWrappers = []any{
		(*S4M1_F262144)(nil),
		(*S4M1_F17)(nil),
		(*S4M1_F5)(nil),
	}
	file_fxpb_proto_msgTypes[20].OneofWrappers = []any{
		(*S5M1_F12)(nil),
		(*S5M1_F459918137)(nil),
	}
	file_fxpb_proto_msgTypes[23].OneofWrappers = []any{
		(*S5M4_F1003)(nil),
	}
	file_fxpb_proto_msgTypes[27].OneofWrappers = []any{
		(*S7M3_F6)(nil),
		(*S7M3_F262143)(nil),
	}
	file_fxpb_proto_msgTypes[28].OneofWrappers = []any{
		(*S8M1_F27)(nil),
	}
	file_fxpb_proto_msgTypes[32].OneofWrappers = []any{
		(*S9M4_F9)(nil),
	}
	file_fxpb_proto_msgTypes[36].OneofWrappers = []any{
		(*S10M3_F410)(nil),
		(*S10M3_F999)(nil),
		(*S10M3_F1003)(nil),
	}
	file_fxpb_proto_msgTypes[38].OneofWrappers = []any{
		(*S10M5_F25)(nil),
	}
	file_fxpb_proto_msgTypes[39].OneofWrappers = []any{
		(*S10M6_F1)(nil),
		(*S10M6_F375)(nil),
	}
	file_fxpb_proto_msgTypes[41].OneofWrappers = []any{
		(*S11M2_F3)(nil),
	}
	file_fxpb_proto_msgTypes[45].OneofWrappers = []any{
		(*S12M4_F15)(nil),
		(*S12M4_F999)(nil),
		(*S12M4_F10)(nil),
		(*S12M4_F3)(nil),
	}
	file_fxpb_proto_msgTypes[50].OneofWrappers = []any{
		(*S13M1_F960)(nil),
		(*S13M1_F6)(nil),
		(*S13M1_F14)(nil),
		(*S13M1_F15)(nil),
	}
	file_fxpb_proto_msgTypes[55].OneofWrappers = []any{
		(*S14M1_F647)(nil),
	}
	file_fxpb_proto_msgTypes[56].OneofWrappers = []any{
		(*S14M2_F15)(nil),
		(*S14M2_F259)(nil),
	}
	file_fxpb_proto_msgTypes[60].OneofWrappers = []any{
		(*S14M6_F5)(nil),
		(*S14M6_F15)(nil),
	}
	file_fxpb_proto_msgTypes[62].OneofWrappers = []any{
		(*S14M8_F2047)(nil),
	}
	file_fxpb_proto_msgTypes[64].OneofWrappers = []any{
		(*S15M1_F124)(nil),
		(*S15M1_F536870911)(nil),
	}
	file_fxpb_proto_msgTypes[67].OneofWrappers = []any{
		(*S17M1_F12)(nil),
		(*S17M1_F13)(nil),
		(*S17M1_F10)(nil),
	}
	file_fxpb_proto_msgTypes[73].OneofWrappers = []any{
		(*S19M1_F262144)(nil),
	}
	file_fxpb_proto_msgTypes[83].OneofWrappers = []any{
		(*S21M6_F354)(nil),
		(*S21M6_F33)(nil),
		(*S21M6_F2)(nil),
	}
	file_fxpb_proto_msgTypes[87].OneofWrappers = []any{
		(*S21M10_F9)(nil),
	}
	file_fxpb_proto_msgTypes[88].OneofWrappers = []any{
		(*S21M11_F15)(nil),
		(*S21M11_F2)(nil),
	}
	file_fxpb_proto_msgTypes[93].OneofWrappers = []any{
		(*S24M1_F1000)(nil),
	}
	file_fxpb_proto_msgTypes[96].OneofWrappers = []any{
		(*S24M4_F1005)(nil),
	}
	file_fxpb_proto_msgTypes[97].OneofWrappers = []any{
		(*S24M5_F1003)(nil),
	}
	file_fxpb_proto_msgTypes[98].OneofWrappers = []any{
		(*S24M6_F14)(nil),
		(*S24M6_F4)(nil),
	}
	file_fxpb_proto_msgTypes[99].OneofWrappers = []any{
		(*S24M7_F12)(nil),
		(*S24M7_F13)(nil),
	}
	file_fxpb_proto_msgTypes[101].OneofWrappers = []any{
		(*S24M9_F26)(nil),
		(*S24M9_F10)(nil),
	}
	file_fxpb_proto_msgTypes[102].OneofWrappers = []any{
		(*S24M10_F40)(nil),
		(*S24M10_F3)(nil),
	}
	file_fxpb_proto_msgTypes[109].OneofWrappers = []any{
		(*S31M1_F15)(nil),
		(*S31M1_F22)(nil),
		(*S31M1_F33554432)(nil),
		(*S31M1_F996)(nil),
		(*S31M1_F2)(nil),
	}
	file_fxpb_proto_msgTypes[111].OneofWrappers = []any{
		(*S31M3_F840)(nil),
	}
	file_fxpb_proto_msgTypes[112].OneofWrappers = []any{
		(*S31M4_F846)(nil),
	}
	file_fxpb_proto_msgTypes[115].OneofWrappers = []any{
		(*S32M2_F2047)(nil),
	}
	file_fxpb_proto_msgTypes[117].OneofWrappers = []any{
		(*S33M1_F27)(nil),
		(*S33M1_F20000)(nil),
	}
	file_fxpb_proto_msgTypes[118].OneofWrappers = []any{
		(*S33M2_F9)(nil),
		(*S33M2_F33554432)(nil),
	}
	file_fxpb_proto_msgTypes[122].OneofWrappers = []any{
		(*S34M1_F997)(nil),
		(*S34M1_F54)(nil),
	}
	file_fxpb_proto_msgTypes[124].OneofWrappers = []any{
		(*S34M3_F4)(nil),
		(*S34M3_F7)(nil),
		(*S34M3_F3)(nil),
	}
	file_fxpb_proto_msgTypes[125].OneofWrappers = []any{
		(*S34M4_F10)(nil),
		(*S34M4_F1003)(nil),
		(*S34M4_F7)(nil),
		(*S34M4_F2)(nil),
	}
	file_fxpb_proto_msgTypes[126].OneofWrappers = []any{
		(*S34M5_F7)(nil),
	}
	file_fxpb_proto_msgTypes[127].OneofWrappers = []any{
		(*S35M1_F2047)(nil),
		(*S35M1_F12)(nil),
	}
	file_fxpb_proto_msgTypes[128].OneofWrappers = []any{
		(*S35M2_F815)(nil),
		(*S35M2_F17)(nil),
	}
	file_fxpb_proto_msgTypes[129].OneofWrappers = []any{
		(*S35M3_F8)(nil),
		(*S35M3_F16)(nil),
		(*S35M3_F50)(nil),
		(*S35M3_F9)(nil),
	}
	file_fxpb_proto_msgTypes[130].OneofWrappers = []any{
		(*S35M4_F561)(nil),
	}
	file_fxpb_proto_msgTypes[131].OneofWrappers = []any{
		(*S36M1_F7)(nil),
		(*S36M1_F2048)(nil),
	}
	file_fxpb_proto_msgTypes[132].OneofWrappers = []any{
		(*S36M2_F9)(nil),
	}
	file_fxpb_proto_msgTypes[133].OneofWrappers = []any{
		(*S36M3_F37)(nil),
	}
	file_fxpb_proto_msgTypes[135].OneofWrappers = []any{
		(*S36M5_F33)(nil),
	}
	file_fxpb_proto_msgTypes[142].OneofWrappers = []any{
		(*S37M1_F997)(nil),
	}
	file_fxpb_proto_msgTypes[143].OneofWrappers = []any{
		(*S37M2_F1)(nil),
		(*S37M2_F262144)(nil),
	}
	file_fxpb_proto_msgTypes[144].OneofWrappers = []any{
		(*S37M3_F9)(nil),
		(*S37M3_F536870910)(nil),
	}
	file_fxpb_proto_msgTypes[145].OneofWrappers = []any{
		(*S37M4_F7)(nil),
		(*S37M4_F15)(nil),
	}
	file_fxpb_proto_msgTypes[148].OneofWrappers = []any{
		(*S38M1_F13)(nil),
	}
	file_fxpb_proto_msgTypes[149].OneofWrappers = []any{
		(*S38M2_F997)(nil),
		(*S38M2_F4)(nil),
	}
	file_fxpb_proto_msgTypes[151].OneofWrappers = []any{
		(*S39M1_F5)(nil),
	}
	file_fxpb_proto_msgTypes[152].OneofWrappers = []any{
		(*S39M2_F8)(nil),
	}
	file_fxpb_proto_msgTypes[158].OneofWrappers = []any{
		(*S41M1_F36)(nil),
	}
	file_fxpb_proto_msgTypes[160].OneofWrappers = []any{
		(*S41M3_F3)(nil),
	}
	file_fxpb_proto_msgTypes[162].OneofWrappers = []any{
		(*S43M1_F18999)(nil),
	}
	file_fxpb_proto_msgTypes[163].OneofWrappers = []any{
		(*S43M2_F7)(nil),
	}
	file_fxpb_proto_msgTypes[168].OneofWrappers = []any{
		(*S45M1_F10)(nil),
		(*S45M1_F210)(nil),
	}
	file_fxpb_proto_msgTypes[175].OneofWrappers = []any{
		(*S46M3_F17083450)(nil),
		(*S46M3_F15)(nil),
	}
	file_fxpb_proto_msgTypes[178].OneofWrappers = []any{
		(*S47M1_F995)(nil),
	}
	file_fxpb_proto_msgTypes[180].OneofWrappers = []any{
		(*S47M3_F18999)(nil),
		(*S47M3_F999)(nil),
		(*S47M3_F997)(nil),
		(*S47M3_F998)(nil),
	}
	file_fxpb_proto_msgTypes[181].OneofWrappers = []any{
		(*S47M4_F40)(nil),
		(*S47M4_F1)(nil),
	}
	file_fxpb_proto_msgTypes[183].OneofWrappers = []any{
		(*S47M6_F1)(nil),
		(*S47M6_F536870910)(nil),
	}
	file_fxpb_proto_msgTypes[184].OneofWrappers = []any{
		(*Rec_F7)(nil),
		(*Rec_F8)(nil),
	}
	file_fxpb_proto_msgTypes[190].OneofWrappers = []any{
		(*AllOneof_F1)(nil),
		(*AllOneof_F2)(nil),
		(*AllOneof_F3)(nil),
		(*AllOneof_F4)(nil),
		(*AllOneof_F5)(nil),
		(*AllOneof_F6)(nil),
		(*AllOneof_F7)(nil),
		(*AllOneof_F8)(nil),
		(*AllOneof_F9)(nil),
		(*AllOneof_F10)(nil),
		(*AllOneof_F11)(nil),
		(*AllOneof_F12)(nil),
		(*AllOneof_F13)(nil),
		(*AllOneof_F14)(nil),
		(*AllOneof_F15)(nil),
		(*AllOneof_F16)(nil),
		(*AllOneof_F17)(nil),
		(*AllOneof_F18)(nil),
		(*AllOneof_F19)(nil),
		(*AllOneof_F20)(nil),
		(*AllOneof_F21)(nil),
		(*AllOneof_F22)(nil),
		(*AllOneof_F23)(nil),
		(*AllOneof_F24)(nil),
		(*AllOneof_F25)(nil),
		(*AllOneof_F26)(nil),
		(*AllOneof_F27)(nil),
		(*AllOneof_F28)(nil),
		(*AllOneof_F29)(nil),
		(*AllOneof_F30)(nil),
		(*AllOneof_F31)(nil),
		(*AllOneof_F32)(nil),
	}
	file_fxpb_proto_msgTypes[204].OneofWrappers = []any{
		(*BigOneof_F1)(nil),
		(*BigOneof_F15)(nil),
		(*BigOneof_F16)(nil),
		(*BigOneof_F999)(nil),
		(*BigOneof_F1000)(nil),
		(*BigOneof_F1001)(nil),
		(*BigOneof_F1002)(nil),
		(*BigOneof_F2047)(nil),
		(*BigOneof_F2048)(nil),
		(*BigOneof_F262143)(nil),
		(*BigOneof_F262144)(nil),
		(*BigOneof_F33554431)(nil),
		(*BigOneof_F33554432)(nil),
		(*BigOneof_F536870911)(nil),
		(*BigOneof_F536870910)(nil),
		(*BigOneof_F17)(nil),
		(*BigOneof_F500)(nil),
		(*BigOneof_F501)(nil),
	}
	type x struct{}
	out := protoimpl.TypeBuilder{
		File: protoimpl.DescBuilder{
			GoPackagePath: reflect.TypeOf(x{}).PkgPath(),
			RawDescriptor: unsafe.Slice(unsafe.StringData(file_fxpb_proto_rawDesc), len(file_fxpb_proto_rawDesc)),
			NumEnums:      1,
			NumMessages:   570,
			NumExtensions: 0,
			NumServices:   0,
		},
		GoTypes:           file_fxpb_proto_goTypes,
		DependencyIndexes: file_fxpb_proto_depIdxs,
		EnumInfos:         file_fxpb_proto_enumTypes,
		MessageInfos:      file_fxpb_proto_msgTypes,
	}.Build()
	File_fxpb_proto = out.File
	file_fxpb_proto_goTypes = nil
	file_fxpb_proto_depIdxs = nil
}
