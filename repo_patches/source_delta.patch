From 3ba0ca8a1141d9b1d095141d645ecd8930ae5fde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:49 +0000
Subject: [PATCH 01/46] fix: struct tag "def=" values may contain commas

The value of the trailing "def=" part is not escaped, so a default such as
"a,packed" was parsed as further tag parts.
---
 internal/desc/tag.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/desc/tag.go b/internal/desc/tag.go
index 9d94720..4612cc9 100644
--- a/internal/desc/tag.go
+++ b/internal/desc/tag.go
@@ -28,6 +28,10 @@ import (
 var errGroupNotSupported = errors.New("group encoding not supported")
 
 func (p *FieldDesc) parseStructTag(tag string) error {
+	// "def=" is always the last part and its value may contain commas.
+	if i := strings.Index(tag, ",def="); i >= 0 {
+		tag = tag[:i]
+	}
 	ss := strings.Split(tag, ",")
 	for _, s := range ss {
 		s = strings.TrimSpace(s)
-- 
2.43.0


From 7bf40f396d4ac8b3de514db188681b5346fcdeb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:03 +0000
Subject: [PATCH 02/46] fix: decode any non-zero varint as true

A bool is true for every non-zero varint value, in overlong encodings too.
The scalar and generic map decoders looked at the lowest bit only, the packed
decoder made one element out of every byte, and the bool map decoders assumed
a one-byte varint.
---
 internal/prutal/decoder.go      | 12 ++++++------
 internal/wire/decoder_map.go    |  6 +++++-
 internal/wire/decoder_packed.go | 11 ++++++++---
 3 files changed, 19 insertions(+), 10 deletions(-)

diff --git a/internal/prutal/decoder.go b/internal/prutal/decoder.go
index eeb5e53..adc1b4b 100644
--- a/internal/prutal/decoder.go
+++ b/internal/prutal/decoder.go
@@ -199,8 +199,8 @@ func (d *Decoder) DecodeStruct(b []byte, base unsafe.Pointer, s *desc.StructDesc
 				*(*int64)(p) = int64(u64)
 			case reflect.Uint64:
 				*(*uint64)(p) = u64
-			case reflect.Bool: // 1 for true, 0 for false
-				*(*byte)(p) = byte(u64 & 0x1)
+			case reflect.Bool: // any non-zero value is true
+				*(*bool)(p) = u64 != 0
 			}
 			i += n
 
@@ -342,8 +342,8 @@ func (d *Decoder) DecodeMapKey(b []byte, p unsafe.Pointer, f *desc.FieldDesc) (i
 			*(*int64)(p) = int64(u64)
 		case reflect.Uint64:
 			*(*uint64)(p) = u64
-		case reflect.Bool: // 1 for true, 0 for false
-			*(*byte)(p) = byte(u64 & 0x1)
+		case reflect.Bool: // any non-zero value is true
+			*(*bool)(p) = u64 != 0
 		}
 		i += n
 
@@ -448,8 +448,8 @@ func (d *Decoder) DecodeMapValue(b []byte, p unsafe.Pointer, f *desc.FieldDesc,
 			*(*int64)(p) = int64(u64)
 		case reflect.Uint64:
 			*(*uint64)(p) = u64
-		case reflect.Bool: // 1 for true, 0 for false
-			*(*byte)(p) = byte(u64 & 0x1)
+		case reflect.Bool: // any non-zero value is true
+			*(*bool)(p) = u64 != 0
 		}
 		i += n
 
diff --git a/internal/wire/decoder_map.go b/internal/wire/decoder_map.go
index fd5dff3..79cebbb 100644
--- a/internal/wire/decoder_map.go
+++ b/internal/wire/decoder_map.go
@@ -177,7 +177,11 @@ func decodeMap_Bool(b []byte, num int32) (bool, int, error) {
 	if typ != TypeVarint {
 		return false, 0, newTypeNotMatchErr(typ, TypeVarint)
 	}
-	return b[1] != 0, 2, nil
+	v, n := protowire.ConsumeVarint(b[1:])
+	if n < 0 {
+		return false, 0, protowire.ParseError(n)
+	}
+	return v != 0, n + 1, nil // +1 for the tag byte
 }
 
 func DecodeMap_VarintU32_VarintU32(b []byte, mp unsafe.Pointer) error {
diff --git a/internal/wire/decoder_packed.go b/internal/wire/decoder_packed.go
index 49b399b..541f2f4 100644
--- a/internal/wire/decoder_packed.go
+++ b/internal/wire/decoder_packed.go
@@ -185,9 +185,14 @@ func DecodePackedFixed32(b []byte, h unsafe.Pointer) error {
 }
 
 func DecodePackedBool(b []byte, h unsafe.Pointer) error {
-	vv := make([]bool, len(b))
-	for i, c := range b {
-		vv[i] = c > 0
+	vv := make([]bool, 0, len(b))
+	for len(b) > 0 {
+		v, n := protowire.ConsumeVarint(b)
+		if n < 0 {
+			return io.ErrUnexpectedEOF
+		}
+		vv = append(vv, v != 0)
+		b = b[n:]
 	}
 	*(*[]bool)(h) = vv
 	return nil
-- 
2.43.0


From 4563f50cb86fc588d3a168d7253822c85caa6c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:22 +0000
Subject: [PATCH 03/46] fix: append packed records to the repeated field

A packed record replaced what earlier records of the field had stored, so
elements were lost when a list is split into several packed records or mixes
packed and unpacked ones.
---
 internal/wire/decoder_packed.go | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/internal/wire/decoder_packed.go b/internal/wire/decoder_packed.go
index 541f2f4..7e5cb0e 100644
--- a/internal/wire/decoder_packed.go
+++ b/internal/wire/decoder_packed.go
@@ -34,6 +34,13 @@ func init() {
 	packedDecoderFuncs[CoderBool] = DecodePackedBool
 }
 
+// growSlice returns s with room for n more elements. The packed decoders append
+// to what the field already holds: a repeated field may be split into any number
+// of packed and unpacked records.
+func growSlice[T any](s []T, n int) []T {
+	return append(s, make([]T, n)...)[:len(s)]
+}
+
 func DecodePackedVarintU64(b []byte, h unsafe.Pointer) error {
 	sz := 0
 	for _, v := range b {
@@ -41,7 +48,7 @@ func DecodePackedVarintU64(b []byte, h unsafe.Pointer) error {
 			sz++
 		}
 	}
-	vv := make([]uint64, 0, sz)
+	vv := growSlice(*(*[]uint64)(h), sz)
 	for len(b) > 0 {
 		var v uint64
 		var n int
@@ -71,7 +78,7 @@ func DecodePackedVarintU32(b []byte, h unsafe.Pointer) error {
 			sz++
 		}
 	}
-	vv := make([]uint32, 0, sz)
+	vv := growSlice(*(*[]uint32)(h), sz)
 	for len(b) > 0 {
 		var v uint64
 		var n int
@@ -101,7 +108,7 @@ func DecodePackedZigZag64(b []byte, h unsafe.Pointer) error {
 			sz++
 		}
 	}
-	vv := make([]int64, 0, sz)
+	vv := growSlice(*(*[]int64)(h), sz)
 	for len(b) > 0 {
 		var v uint64
 		var n int
@@ -131,7 +138,7 @@ func DecodePackedZigZag32(b []byte, h unsafe.Pointer) error {
 			sz++
 		}
 	}
-	vv := make([]int32, 0, sz)
+	vv := growSlice(*(*[]int32)(h), sz)
 	for len(b) > 0 {
 		var v uint64
 		var n int
@@ -158,7 +165,7 @@ func DecodePackedFixed64(b []byte, h unsafe.Pointer) error {
 	if len(b)&7 != 0 {
 		return io.ErrUnexpectedEOF
 	}
-	vv := make([]uint64, 0, len(b)/8)
+	vv := growSlice(*(*[]uint64)(h), len(b)/8)
 	for len(b) > 0 {
 		_ = b[7]
 		vv = append(vv,
@@ -174,7 +181,7 @@ func DecodePackedFixed32(b []byte, h unsafe.Pointer) error {
 	if len(b)&3 != 0 {
 		return io.ErrUnexpectedEOF
 	}
-	vv := make([]uint32, 0, len(b)/4)
+	vv := growSlice(*(*[]uint32)(h), len(b)/4)
 	for len(b) > 0 {
 		_ = b[3]
 		vv = append(vv, uint32(b[0])<<0|uint32(b[1])<<8|uint32(b[2])<<16|uint32(b[3])<<24)
@@ -185,7 +192,7 @@ func DecodePackedFixed32(b []byte, h unsafe.Pointer) error {
 }
 
 func DecodePackedBool(b []byte, h unsafe.Pointer) error {
-	vv := make([]bool, 0, len(b))
+	vv := growSlice(*(*[]bool)(h), len(b))
 	for len(b) > 0 {
 		v, n := protowire.ConsumeVarint(b)
 		if n < 0 {
-- 
2.43.0


From ecda83ef5e6d1a4de1b143696721a5118680e604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:45 +0000
Subject: [PATCH 04/46] fix: accept records that are not encoded as the field
 is declared

Repeated scalar fields must accept packed and unpacked records regardless of
the declaration. A record with any other wire type than that of the field is an
unknown field, as in the official implementation, and no longer fails the
whole message.
---
 internal/desc/desc.go      |  6 ++++++
 internal/desc/funcs.go     |  8 +++++---
 internal/prutal/decoder.go | 27 ++++++++++++---------------
 3 files changed, 23 insertions(+), 18 deletions(-)

diff --git a/internal/desc/desc.go b/internal/desc/desc.go
index 8331c3f..eaae31e 100644
--- a/internal/desc/desc.go
+++ b/internal/desc/desc.go
@@ -207,6 +207,12 @@ func (f *FieldDesc) IsOneof() bool {
 	return f.OneofType != nil
 }
 
+// AcceptWireType reports whether a record of wire type t carries a value of the field.
+// Repeated scalar fields accept packed and unpacked records, however they are declared.
+func (f *FieldDesc) AcceptWireType(t wire.Type) bool {
+	return t == wireTypes[f.TagType] || (t == wire.TypeBytes && f.DecodeFunc != nil)
+}
+
 func (f *FieldDesc) parse(rt reflect.Type) (err error) {
 	tag := f.Tag.Get("protobuf")
 	if tag == "" {
diff --git a/internal/desc/funcs.go b/internal/desc/funcs.go
index e824be2..e3e3ef2 100644
--- a/internal/desc/funcs.go
+++ b/internal/desc/funcs.go
@@ -65,11 +65,13 @@ func getDecodeFunc(f *FieldDesc) wire.DecodeFunc {
 		// Returns nil for maps with complex types (e.g., struct values, nested maps)
 		return getMapDecodeFunc(f)
 	}
-	if f.Packed {
-		// Returns optimized decoder for packed repeated scalar fields
+	if f.IsList {
+		// Returns optimized decoder for packed records of repeated scalar fields,
+		// which must be accepted even if the field is not declared as packed.
+		// Returns nil for strings, bytes and messages
 		return getPackedDecodeFunc(f)
 	}
-	// Non-packed, non-map fields use generic decoding
+	// Non-repeated fields use generic decoding
 	return nil
 }
 
diff --git a/internal/prutal/decoder.go b/internal/prutal/decoder.go
index adc1b4b..2afb516 100644
--- a/internal/prutal/decoder.go
+++ b/internal/prutal/decoder.go
@@ -118,18 +118,18 @@ func (d *Decoder) DecodeStruct(b []byte, base unsafe.Pointer, s *desc.StructDesc
 				tmv = nil
 			}
 			f = s.GetField(int32(num))
-			if f == nil {
-				// field not found, skip bytes
-				m := protowire.ConsumeFieldValue(num, typ, b[i:])
-				if m < 0 {
-					return i, protowire.ParseError(m)
-				}
-				i += m
-				if s.HasUnknownFields {
-					appendToUnknownFields(s, base, b[i-m-n:i])
-				}
-				continue
+		}
+		if f == nil || !f.AcceptWireType(typ) {
+			// field not found or not encoded as declared, skip bytes
+			m := protowire.ConsumeFieldValue(num, typ, b[i:])
+			if m < 0 {
+				return i, protowire.ParseError(m)
+			}
+			i += m
+			if s.HasUnknownFields {
+				appendToUnknownFields(s, base, b[i-m-n:i])
 			}
+			continue
 		}
 
 		p := unsafe.Add(base, f.Offset)
@@ -148,11 +148,8 @@ func (d *Decoder) DecodeStruct(b []byte, base unsafe.Pointer, s *desc.StructDesc
 
 		if f.Repeated && t.IsSlice {
 			t = t.V
-			if typ == wire.TypeBytes && f.Packed {
+			if typ == wire.TypeBytes && f.DecodeFunc != nil {
 				// packed repeated fields, only scalar types except string or bytes
-				if f.DecodeFunc == nil {
-					panic(fmt.Sprintf("BUG? unknown packed field %q (#%d)", f.Name, f.ID))
-				}
 				packed, n := protowire.ConsumeBytes(b[i:])
 				if n < 0 {
 					return i, protowire.ParseError(n)
-- 
2.43.0


From f9093a636f83c5cc9199d282afc54ea10759ff0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:11 +0000
Subject: [PATCH 05/46] fix: decode any valid map entry

Keys or values may be missing, repeated or swapped, and unknown fields may be
present. The decoders required exactly a key followed by a value and ignored
whatever came after.
---
 internal/prutal/decoder.go | 67 ++++++++++++++++++++++++++++++++++++++
 1 file changed, 67 insertions(+)

diff --git a/internal/prutal/decoder.go b/internal/prutal/decoder.go
index 2afb516..e282f2b 100644
--- a/internal/prutal/decoder.go
+++ b/internal/prutal/decoder.go
@@ -94,6 +94,7 @@ func (d *Decoder) DecodeStruct(b []byte, base unsafe.Pointer, s *desc.StructDesc
 	i := 0
 
 	var (
+		err error
 		f   *desc.FieldDesc  // cache last field, optmize for repeated
 		tmv *desc.TmpMapVars // cache for map, optmize for repeated map
 	)
@@ -262,6 +263,9 @@ func (d *Decoder) DecodeStruct(b []byte, base unsafe.Pointer, s *desc.StructDesc
 					*(*string)(p) = ""
 				}
 			case reflect.Map:
+				if fb, err = canonicalMapEntry(fb, f); err != nil {
+					return i, err
+				}
 				// Fast path: use specialized decoders from wire package for primitive key-value pairs
 				// These are pre-generated functions optimized for specific map types (e.g., map[uint32]int64)
 				// Available for numeric/bool keys with numeric/bool values only
@@ -526,6 +530,69 @@ func (d *Decoder) DecodeMapValue(b []byte, p unsafe.Pointer, f *desc.FieldDesc,
 	return i, nil
 }
 
+// canonicalMapEntry returns b if it's exactly one key followed by one value as
+// the map decoders expect. Otherwise it returns the equivalent of b in that form.
+// An entry is like any other message: fields may be missing or
+// repeated, may be in any order, and unknown fields may be present.
+func canonicalMapEntry(b []byte, f *desc.FieldDesc) ([]byte, error) {
+	var key, val []byte
+	canonical := true
+	for i, nrec := 0, 0; i < len(b); nrec++ {
+		num, typ, n := protowire.ConsumeTag(b[i:])
+		if n < 0 {
+			return nil, protowire.ParseError(n)
+		}
+		m := protowire.ConsumeFieldValue(num, typ, b[i+n:])
+		if m < 0 {
+			return nil, protowire.ParseError(m)
+		}
+		v := b[i+n : i+n+m]
+		i += n + m
+		canonical = canonical && n == 1 && nrec < 2 && int(num) == nrec+1
+		switch {
+		case num == 1 && typ == f.KeyWireType:
+			key = v
+		case num == 2 && typ == f.ValWireType:
+			if val != nil && f.T.V.RealKind() == reflect.Struct {
+				// same message field, merge it.
+				p0, _ := protowire.ConsumeBytes(val)
+				p1, _ := protowire.ConsumeBytes(v)
+				val = wire.AppendVarint(nil, uint64(len(p0)+len(p1)))
+				val = append(append(val, p0...), p1...)
+			} else {
+				val = v
+			}
+		default: // unknown field
+			canonical = false
+		}
+	}
+	if canonical && key != nil && val != nil {
+		return b, nil
+	}
+	if key == nil {
+		key = zeroFieldValue(f.KeyWireType)
+	}
+	if val == nil {
+		val = zeroFieldValue(f.ValWireType)
+	}
+	b = make([]byte, 0, 2+len(key)+len(val))
+	b = append(wire.AppendKeyTag(b, f.KeyWireType), key...)
+	b = append(wire.AppendValTag(b, f.ValWireType), val...)
+	return b, nil
+}
+
+// zeroFieldValue returns the encoded default value of the given wire type.
+func zeroFieldValue(t wire.Type) []byte {
+	switch t {
+	case wire.TypeFixed32:
+		return make([]byte, 4)
+	case wire.TypeFixed64:
+		return make([]byte, 8)
+	default: // zero varint or length
+		return make([]byte, 1)
+	}
+}
+
 func (d *Decoder) DecodeMapPair(b []byte, p unsafe.Pointer, f *desc.FieldDesc, tmp *desc.TmpMapVars, maxdepth int) (int, error) {
 	tmp.Reset()
 
-- 
2.43.0


From 718e617841c3da77479583d69aed55abd1ce2188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:25 +0000
Subject: [PATCH 06/46] fix: merge repeated occurrences of a singular message
 field

The last occurrence replaced the earlier ones instead of being merged into
them. Unknown fields are reset once per Unmarshal, not once per occurrence.
---
 internal/prutal/decoder.go | 18 ++++++++++--------
 internal/prutal/prutal.go  |  8 ++++++--
 2 files changed, 16 insertions(+), 10 deletions(-)

diff --git a/internal/prutal/decoder.go b/internal/prutal/decoder.go
index e282f2b..e6b54ea 100644
--- a/internal/prutal/decoder.go
+++ b/internal/prutal/decoder.go
@@ -99,11 +99,6 @@ func (d *Decoder) DecodeStruct(b []byte, base unsafe.Pointer, s *desc.StructDesc
 		tmv *desc.TmpMapVars // cache for map, optmize for repeated map
 	)
 
-	// reset unknownfields = unknownfields[:0]
-	if s.HasUnknownFields {
-		resetUnknownFields(s, base)
-	}
-
 	for i < len(b) {
 		// next field tag
 		num, typ, n := protowire.ConsumeTag(b[i:])
@@ -137,13 +132,20 @@ func (d *Decoder) DecodeStruct(b []byte, base unsafe.Pointer, s *desc.StructDesc
 		t := f.T
 		tag := f.TagType
 		if f.IsOneof() {
-			data := d.Malloc(int(t.Size), t.Align, t.MallocAbiType)
-			hack.IfaceUpdate(p, f.IfaceTab, data)
+			data := hack.IfaceData(p)
+			if data == nil || hack.IfaceTypePtr(p) != hack.ReflectTypePtr(f.OneofType) || t.RealKind() != reflect.Struct {
+				data = d.Malloc(int(t.Size), t.Align, t.MallocAbiType)
+				hack.IfaceUpdate(p, f.IfaceTab, data)
+			} // else: merge into the message
 			p = data
 		}
 
 		if t.IsPointer {
-			p = d.mallocIfPointer(p, t)
+			if t.V.Kind == reflect.Struct && *(*unsafe.Pointer)(p) != nil {
+				p = *(*unsafe.Pointer)(p) // merge into the message
+			} else {
+				p = d.mallocIfPointer(p, t)
+			}
 			t = t.V
 		}
 
diff --git a/internal/prutal/prutal.go b/internal/prutal/prutal.go
index a0c96bd..d834199 100644
--- a/internal/prutal/prutal.go
+++ b/internal/prutal/prutal.go
@@ -76,12 +76,16 @@ func Unmarshal(b []byte, v interface{}) error {
 	if rv.Kind() != reflect.Pointer {
 		return errNotPointer
 	}
-	desc, err := desc.GetOrParse(rv)
+	s, err := desc.GetOrParse(rv)
 	if err != nil {
 		return err
 	}
+	// reset unknownfields = unknownfields[:0]
+	if s.HasUnknownFields {
+		resetUnknownFields(s, rv.UnsafePointer())
+	}
 	d := decoderPool.Get().(*Decoder)
-	_, err = d.DecodeStruct(b, rv.UnsafePointer(), desc, defaultRecursionMaxDepth)
+	_, err = d.DecodeStruct(b, rv.UnsafePointer(), s, defaultRecursionMaxDepth)
 	decoderPool.Put(d)
 	return err
 }
-- 
2.43.0


From 19791a374c76f0d3c80ab64cf1da861c79b20a18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:49 +0000
Subject: [PATCH 07/46] fix: truncate sint32 varints to 32 bits before zigzag
 decoding

---
 internal/protowire/wire_ext.go  |  6 ++++++
 internal/prutal/decoder.go      | 12 +++++++++---
 internal/wire/decoder_map.go    | 26 +++++++++++++-------------
 internal/wire/decoder_packed.go |  2 +-
 4 files changed, 29 insertions(+), 17 deletions(-)

diff --git a/internal/protowire/wire_ext.go b/internal/protowire/wire_ext.go
index 61a098e..d184aaa 100644
--- a/internal/protowire/wire_ext.go
+++ b/internal/protowire/wire_ext.go
@@ -36,3 +36,9 @@ func (t Type) String() string {
 		return "t-" + strconv.Itoa(int(t))
 	}
 }
+
+// DecodeZigZag32 decodes a zig-zag-encoded sint32 value.
+// Like for all 32-bit integers, the varint is truncated to 32 bits before it's used.
+func DecodeZigZag32(x uint64) int32 {
+	return int32(DecodeZigZag(x & 0xffffffff))
+}
diff --git a/internal/prutal/decoder.go b/internal/prutal/decoder.go
index e6b54ea..c063458 100644
--- a/internal/prutal/decoder.go
+++ b/internal/prutal/decoder.go
@@ -187,7 +187,9 @@ func (d *Decoder) DecodeStruct(b []byte, base unsafe.Pointer, s *desc.StructDesc
 			if n < 0 {
 				return 0, protowire.ParseError(n)
 			}
-			if tag == desc.TypeZigZag32 || tag == desc.TypeZigZag64 {
+			if tag == desc.TypeZigZag32 {
+				u64 = uint64(protowire.DecodeZigZag32(u64))
+			} else if tag == desc.TypeZigZag64 {
 				u64 = uint64(protowire.DecodeZigZag(u64))
 			}
 			switch t.Kind {
@@ -333,7 +335,9 @@ func (d *Decoder) DecodeMapKey(b []byte, p unsafe.Pointer, f *desc.FieldDesc) (i
 		if n < 0 {
 			return 0, protowire.ParseError(n)
 		}
-		if tag == desc.TypeZigZag32 || tag == desc.TypeZigZag64 {
+		if tag == desc.TypeZigZag32 {
+			u64 = uint64(protowire.DecodeZigZag32(u64))
+		} else if tag == desc.TypeZigZag64 {
 			u64 = uint64(protowire.DecodeZigZag(u64))
 		}
 		switch t.Kind {
@@ -439,7 +443,9 @@ func (d *Decoder) DecodeMapValue(b []byte, p unsafe.Pointer, f *desc.FieldDesc,
 		if n < 0 {
 			return 0, protowire.ParseError(n)
 		}
-		if tag == desc.TypeZigZag32 || tag == desc.TypeZigZag64 {
+		if tag == desc.TypeZigZag32 {
+			u64 = uint64(protowire.DecodeZigZag32(u64))
+		} else if tag == desc.TypeZigZag64 {
 			u64 = uint64(protowire.DecodeZigZag(u64))
 		}
 		switch t.Kind {
diff --git a/internal/wire/decoder_map.go b/internal/wire/decoder_map.go
index 79cebbb..88a6eee 100644
--- a/internal/wire/decoder_map.go
+++ b/internal/wire/decoder_map.go
@@ -240,7 +240,7 @@ func DecodeMap_VarintU32_ZigZag32(b []byte, mp unsafe.Pointer) error {
 		return err
 	}
 	m := ensureMapNotNil[uint32, int32](mp)
-	(*m)[uint32(k)] = int32(protowire.DecodeZigZag(v))
+	(*m)[uint32(k)] = protowire.DecodeZigZag32(v)
 	return nil
 }
 
@@ -345,7 +345,7 @@ func DecodeMap_VarintU64_ZigZag32(b []byte, mp unsafe.Pointer) error {
 		return err
 	}
 	m := ensureMapNotNil[uint64, int32](mp)
-	(*m)[k] = int32(protowire.DecodeZigZag(v))
+	(*m)[k] = protowire.DecodeZigZag32(v)
 	return nil
 }
 
@@ -450,7 +450,7 @@ func DecodeMap_ZigZag64_ZigZag32(b []byte, mp unsafe.Pointer) error {
 		return err
 	}
 	m := ensureMapNotNil[int64, int32](mp)
-	(*m)[protowire.DecodeZigZag(k)] = int32(protowire.DecodeZigZag(v))
+	(*m)[protowire.DecodeZigZag(k)] = protowire.DecodeZigZag32(v)
 	return nil
 }
 
@@ -510,7 +510,7 @@ func DecodeMap_ZigZag32_VarintU64(b []byte, mp unsafe.Pointer) error {
 		return err
 	}
 	m := ensureMapNotNil[int32, uint64](mp)
-	(*m)[int32(protowire.DecodeZigZag(k))] = v
+	(*m)[protowire.DecodeZigZag32(k)] = v
 	return nil
 }
 
@@ -525,7 +525,7 @@ func DecodeMap_ZigZag32_VarintU32(b []byte, mp unsafe.Pointer) error {
 		return err
 	}
 	m := ensureMapNotNil[int32, uint32](mp)
-	(*m)[int32(protowire.DecodeZigZag(k))] = uint32(v)
+	(*m)[protowire.DecodeZigZag32(k)] = uint32(v)
 	return nil
 }
 
@@ -540,7 +540,7 @@ func DecodeMap_ZigZag32_ZigZag64(b []byte, mp unsafe.Pointer) error {
 		return err
 	}
 	m := ensureMapNotNil[int32, int64](mp)
-	(*m)[int32(protowire.DecodeZigZag(k))] = protowire.DecodeZigZag(v)
+	(*m)[protowire.DecodeZigZag32(k)] = protowire.DecodeZigZag(v)
 	return nil
 }
 
@@ -555,7 +555,7 @@ func DecodeMap_ZigZag32_ZigZag32(b []byte, mp unsafe.Pointer) error {
 		return err
 	}
 	m := ensureMapNotNil[int32, int32](mp)
-	(*m)[int32(protowire.DecodeZigZag(k))] = int32(protowire.DecodeZigZag(v))
+	(*m)[protowire.DecodeZigZag32(k)] = protowire.DecodeZigZag32(v)
 	return nil
 }
 
@@ -570,7 +570,7 @@ func DecodeMap_ZigZag32_Fixed64(b []byte, mp unsafe.Pointer) error {
 		return err
 	}
 	m := ensureMapNotNil[int32, uint64](mp)
-	(*m)[int32(protowire.DecodeZigZag(k))] = v
+	(*m)[protowire.DecodeZigZag32(k)] = v
 	return nil
 }
 
@@ -585,7 +585,7 @@ func DecodeMap_ZigZag32_Fixed32(b []byte, mp unsafe.Pointer) error {
 		return err
 	}
 	m := ensureMapNotNil[int32, uint32](mp)
-	(*m)[int32(protowire.DecodeZigZag(k))] = v
+	(*m)[protowire.DecodeZigZag32(k)] = v
 	return nil
 }
 
@@ -600,7 +600,7 @@ func DecodeMap_ZigZag32_Bool(b []byte, mp unsafe.Pointer) error {
 		return err
 	}
 	m := ensureMapNotNil[int32, bool](mp)
-	(*m)[int32(protowire.DecodeZigZag(k))] = v
+	(*m)[protowire.DecodeZigZag32(k)] = v
 	return nil
 }
 
@@ -660,7 +660,7 @@ func DecodeMap_Fixed64_ZigZag32(b []byte, mp unsafe.Pointer) error {
 		return err
 	}
 	m := ensureMapNotNil[uint64, int32](mp)
-	(*m)[k] = int32(protowire.DecodeZigZag(v))
+	(*m)[k] = protowire.DecodeZigZag32(v)
 	return nil
 }
 
@@ -766,7 +766,7 @@ func DecodeMap_Fixed32_ZigZag32(b []byte, mp unsafe.Pointer) error {
 		return err
 	}
 	m := ensureMapNotNil[uint32, int32](mp)
-	(*m)[k] = int32(protowire.DecodeZigZag(v))
+	(*m)[k] = protowire.DecodeZigZag32(v)
 	return nil
 }
 
@@ -872,7 +872,7 @@ func DecodeMap_Bool_ZigZag32(b []byte, mp unsafe.Pointer) error {
 		return err
 	}
 	m := ensureMapNotNil[bool, int32](mp)
-	(*m)[k] = int32(protowire.DecodeZigZag(v))
+	(*m)[k] = protowire.DecodeZigZag32(v)
 	return nil
 }
 
diff --git a/internal/wire/decoder_packed.go b/internal/wire/decoder_packed.go
index 7e5cb0e..879ec27 100644
--- a/internal/wire/decoder_packed.go
+++ b/internal/wire/decoder_packed.go
@@ -154,7 +154,7 @@ func DecodePackedZigZag32(b []byte, h unsafe.Pointer) error {
 		if n < 0 {
 			return io.ErrUnexpectedEOF
 		}
-		vv = append(vv, int32(protowire.DecodeZigZag(v)))
+		vv = append(vv, protowire.DecodeZigZag32(v))
 		b = b[n:]
 	}
 	*(*[]int32)(h) = vv
-- 
2.43.0


From 10f9e4c9bb9c2db5abe9d24139dc23693fb4df27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:01 +0000
Subject: [PATCH 08/46] fix: encode set oneof members and bytes fields with
 presence even if they are empty

---
 internal/desc/desc.go      | 7 +++++++
 internal/desc/tag.go       | 6 ++++++
 internal/prutal/encoder.go | 5 ++++-
 internal/prutal/sizer.go   | 5 ++++-
 4 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/internal/desc/desc.go b/internal/desc/desc.go
index eaae31e..03eb015 100644
--- a/internal/desc/desc.go
+++ b/internal/desc/desc.go
@@ -160,6 +160,12 @@ type FieldDesc struct {
 	IsList   bool
 	IsMap    bool
 
+	// true if the tag says the field has no presence: proto3 and not optional
+	Implicit bool
+
+	// only for []byte with presence. It's set even if it's empty, unless it's nil
+	KeepEmpty bool
+
 	TagType TagType
 	WireTag uint64 //  wire.EncodeTag(f.ID, wireType)
 
@@ -229,6 +235,7 @@ func (f *FieldDesc) finalizeField() (err error) {
 	t := f.T
 	f.IsList = f.Repeated && t.Kind != reflect.Map
 	f.IsMap = t.Kind == reflect.Map
+	f.KeepEmpty = t.Kind == KindBytes && !f.Implicit
 
 	if f.IsMap {
 		f.KeyType, err = parseKVTag(f.Tag.Get("protobuf_key"))
diff --git a/internal/desc/tag.go b/internal/desc/tag.go
index 4612cc9..333d489 100644
--- a/internal/desc/tag.go
+++ b/internal/desc/tag.go
@@ -33,12 +33,17 @@ func (p *FieldDesc) parseStructTag(tag string) error {
 		tag = tag[:i]
 	}
 	ss := strings.Split(tag, ",")
+	proto3, oneof := false, false
 	for _, s := range ss {
 		s = strings.TrimSpace(s)
 		if s == "" {
 			continue
 		}
 		switch {
+		case s == "proto3":
+			proto3 = true
+		case s == "oneof": // oneof member or proto3 optional
+			oneof = true
 		case s == "opt":
 			// not in use
 		case s == "req":
@@ -69,6 +74,7 @@ func (p *FieldDesc) parseStructTag(tag string) error {
 			p.ID = int32(n)
 		}
 	}
+	p.Implicit = proto3 && !oneof
 	if p.TagType == 0 {
 		return errors.New("unknown tag type")
 	}
diff --git a/internal/prutal/encoder.go b/internal/prutal/encoder.go
index 868c131..d85998e 100644
--- a/internal/prutal/encoder.go
+++ b/internal/prutal/encoder.go
@@ -69,6 +69,8 @@ func (e *Encoder) AppendStruct(b []byte, base unsafe.Pointer, s *desc.StructDesc
 		// this also checks pointer types
 		skipzero := false
 		switch {
+		case f.IsOneof(): // the member is set, it has presence even if it's zero value
+			skipzero = t.IsPointer && t.V.Kind != reflect.Struct && *(*unsafe.Pointer)(p) == nil
 		case t.Size == 8: // int64, uint64, float64 or pointer on amd64
 			skipzero = *(*uint64)(p) == 0
 		case t.Size == 4: // int32, uint32, float32 or pointer on 386
@@ -76,7 +78,8 @@ func (e *Encoder) AppendStruct(b []byte, base unsafe.Pointer, s *desc.StructDesc
 		case t.Size == 1: // bool?
 			skipzero = *(*uint8)(p) == 0
 		case t.SliceLike: // for slice or string, both can use StringHeader
-			skipzero = ((*hack.StringHeader)(p)).Len == 0
+			h := (*hack.StringHeader)(p)
+			skipzero = h.Len == 0 && !(f.KeepEmpty && h.Data != nil)
 		}
 		if skipzero {
 			continue
diff --git a/internal/prutal/sizer.go b/internal/prutal/sizer.go
index a185d90..5d4b8a4 100644
--- a/internal/prutal/sizer.go
+++ b/internal/prutal/sizer.go
@@ -51,6 +51,8 @@ func SizeStruct(base unsafe.Pointer, s *desc.StructDesc, maxdepth int) (int, err
 		// skip zero values — same logic as encoder
 		skipzero := false
 		switch {
+		case f.IsOneof(): // the member is set, it has presence even if it's zero value
+			skipzero = t.IsPointer && t.V.Kind != reflect.Struct && *(*unsafe.Pointer)(p) == nil
 		case t.Size == 8:
 			skipzero = *(*uint64)(p) == 0
 		case t.Size == 4:
@@ -58,7 +60,8 @@ func SizeStruct(base unsafe.Pointer, s *desc.StructDesc, maxdepth int) (int, err
 		case t.Size == 1:
 			skipzero = *(*uint8)(p) == 0
 		case t.SliceLike:
-			skipzero = ((*hack.StringHeader)(p)).Len == 0
+			h := (*hack.StringHeader)(p)
+			skipzero = h.Len == 0 && !(f.KeepEmpty && h.Data != nil)
 		}
 		if skipzero {
 			continue
-- 
2.43.0


From 208d5063962641c21fc54d6699dbaaecee4bcaf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:21 +0000
Subject: [PATCH 09/46] fix: count a map value as one nesting level, as the
 encoder does

---
 internal/prutal/decoder.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/prutal/decoder.go b/internal/prutal/decoder.go
index c063458..1597783 100644
--- a/internal/prutal/decoder.go
+++ b/internal/prutal/decoder.go
@@ -287,7 +287,7 @@ func (d *Decoder) DecodeStruct(b []byte, base unsafe.Pointer, s *desc.StructDesc
 					if tmv == nil {
 						tmv = f.T.MapTmpVarsPool.Get().(*desc.TmpMapVars)
 					}
-					if _, err := d.DecodeMapPair(fb, p, f, tmv, maxdepth-1); err != nil {
+					if _, err := d.DecodeMapPair(fb, p, f, tmv, maxdepth); err != nil {
 						return i, err
 					}
 				}
-- 
2.43.0


From 0760cb98314dc16ebcc57bdb79148fff41324ffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:22 +0000
Subject: [PATCH 10/46] fix: zero struct elements before decoding into spare
 capacity

---
 internal/prutal/decoder.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/prutal/decoder.go b/internal/prutal/decoder.go
index 1597783..6f441e0 100644
--- a/internal/prutal/decoder.go
+++ b/internal/prutal/decoder.go
@@ -174,6 +174,9 @@ func (d *Decoder) DecodeStruct(b []byte, base unsafe.Pointer, s *desc.StructDesc
 			if t.IsPointer {
 				p = d.mallocIfPointer(p, t)
 				t = t.V
+			} else if t.Kind == reflect.Struct {
+				// spare capacity may hold an old element
+				reflect.NewAt(t.T, p).Elem().SetZero()
 			}
 		}
 
-- 
2.43.0


From 29a66b857941d0b4903cb06112fe038f55788038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:40 +0000
Subject: [PATCH 11/46] fix: reject struct tags without a valid field number

---
 internal/desc/tag.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/desc/tag.go b/internal/desc/tag.go
index 333d489..c5c9e5e 100644
--- a/internal/desc/tag.go
+++ b/internal/desc/tag.go
@@ -22,6 +22,7 @@ import (
 	"strconv"
 	"strings"
 
+	"github.com/cloudwego/prutal/internal/protowire"
 	"github.com/cloudwego/prutal/internal/wire"
 )
 
@@ -75,6 +76,9 @@ func (p *FieldDesc) parseStructTag(tag string) error {
 		}
 	}
 	p.Implicit = proto3 && !oneof
+	if p.ID < 1 || p.ID > int32(protowire.MaxValidNumber) {
+		return fmt.Errorf("invalid field number in tag %q", tag)
+	}
 	if p.TagType == 0 {
 		return errors.New("unknown tag type")
 	}
-- 
2.43.0


From 06698fbf1c9a4721544463dbb2e331e2f0548e21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:41 +0000
Subject: [PATCH 12/46] fix: don't reuse types cached while parsing a rejected
 type

---
 internal/desc/desc.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/internal/desc/desc.go b/internal/desc/desc.go
index 03eb015..e54f221 100644
--- a/internal/desc/desc.go
+++ b/internal/desc/desc.go
@@ -66,6 +66,7 @@ func GetOrParse(rv reflect.Value) (*StructDesc, error) {
 
 	t, err := parseType(rt)
 	if err != nil {
+		resetParseCache()
 		return nil, err
 	}
 	s := t.S
@@ -73,12 +74,20 @@ func GetOrParse(rv reflect.Value) (*StructDesc, error) {
 		panic("t.S == nil")
 	}
 	if err := s.FinalizeFields(); err != nil {
+		resetParseCache()
 		return nil, err
 	}
 	cache.Set(typ, s)
 	return s, nil
 }
 
+// resetParseCache must be called if a type is rejected.
+// Types that refer to it may have been cached before the error was found.
+func resetParseCache() {
+	cachedStructs = map[reflect.Type]*StructDesc{}
+	cachedTypes = map[reflect.Type]*Type{}
+}
+
 const maxDirectFieldMapID = 1000
 
 type StructDesc struct {
-- 
2.43.0


From ff0bc50d88a50ea72b04e33cad4cf45fdb4572a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:08 +0000
Subject: [PATCH 13/46] fix: reject field types that RealKind flattens to a
 supported one

---
 internal/desc/desc.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/internal/desc/desc.go b/internal/desc/desc.go
index e54f221..a7f795a 100644
--- a/internal/desc/desc.go
+++ b/internal/desc/desc.go
@@ -313,7 +313,12 @@ func (f *FieldDesc) checkTypeMatch() error {
 			if el.IsSlice || el.Kind == reflect.Map {
 				return fmt.Errorf("unsupported nested repeated field type %s", t.T)
 			}
+			if t.V.IsPointer && el.Kind != reflect.Struct {
+				return fmt.Errorf("unsupported repeated field type %s", t.T)
+			}
 		}
+	} else if t.IsSlice || (t.IsPointer && (t.V.IsSlice || t.V.Kind == reflect.Map)) {
+		return fmt.Errorf("unsupported field type %s", t.T)
 	}
 
 	if err := IsFieldTypeMatchReflectKind(f.TagType, t.RealKind()); err != nil {
@@ -323,6 +328,11 @@ func (f *FieldDesc) checkTypeMatch() error {
 		if !f.Repeated {
 			return errors.New("must be repeated field for map")
 		}
+		// same as above, RealKind must not flatten the key and value types
+		if t.K.IsPointer || t.V.IsSlice || t.V.Kind == reflect.Map ||
+			(t.V.IsPointer && t.V.V.Kind != reflect.Struct) {
+			return fmt.Errorf("unsupported map field type %s", t.T)
+		}
 		if err := IsFieldKeyTypeMatchReflectKind(f.KeyType, t.K.RealKind()); err != nil {
 			return err
 		}
-- 
2.43.0


From 416b4b7d611c5164a2829c542ce807e125c1576e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:09 +0000
Subject: [PATCH 14/46] fix: return an error instead of writing through a nil
 pointer in Unmarshal

---
 internal/prutal/prutal.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/internal/prutal/prutal.go b/internal/prutal/prutal.go
index d834199..84b2e65 100644
--- a/internal/prutal/prutal.go
+++ b/internal/prutal/prutal.go
@@ -24,7 +24,10 @@ import (
 	"github.com/cloudwego/prutal/internal/hack"
 )
 
-var errNotPointer = errors.New("input not pointer type")
+var (
+	errNotPointer = errors.New("input not pointer type")
+	errNilPointer = errors.New("input nil pointer")
+)
 
 func MarshalAppend(b []byte, v interface{}) ([]byte, error) {
 	hack.PanicIfHackErr()
@@ -76,6 +79,9 @@ func Unmarshal(b []byte, v interface{}) error {
 	if rv.Kind() != reflect.Pointer {
 		return errNotPointer
 	}
+	if rv.IsNil() {
+		return errNilPointer
+	}
 	s, err := desc.GetOrParse(rv)
 	if err != nil {
 		return err
-- 
2.43.0


From 2accb849e0b483c90442e43a9cf2be626f79ca58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:38 +0000
Subject: [PATCH 15/46] fix: reject field numbers out of range in the input

---
 internal/prutal/decoder.go | 6 ++++++
 internal/prutal/errors.go  | 1 +
 2 files changed, 7 insertions(+)

diff --git a/internal/prutal/decoder.go b/internal/prutal/decoder.go
index 6f441e0..44b8a65 100644
--- a/internal/prutal/decoder.go
+++ b/internal/prutal/decoder.go
@@ -105,6 +105,9 @@ func (d *Decoder) DecodeStruct(b []byte, base unsafe.Pointer, s *desc.StructDesc
 		if n < 0 {
 			return 0, protowire.ParseError(n)
 		}
+		if num > protowire.MaxValidNumber {
+			return i, errFieldNumber
+		}
 		i += n
 
 		// get field or skip
@@ -553,6 +556,9 @@ func canonicalMapEntry(b []byte, f *desc.FieldDesc) ([]byte, error) {
 		if n < 0 {
 			return nil, protowire.ParseError(n)
 		}
+		if num > protowire.MaxValidNumber {
+			return nil, errFieldNumber
+		}
 		m := protowire.ConsumeFieldValue(num, typ, b[i+n:])
 		if m < 0 {
 			return nil, protowire.ParseError(m)
diff --git a/internal/prutal/errors.go b/internal/prutal/errors.go
index 39d1878..413ac0e 100644
--- a/internal/prutal/errors.go
+++ b/internal/prutal/errors.go
@@ -28,6 +28,7 @@ const defaultRecursionMaxDepth = 1000
 
 var (
 	errMaxDepthExceeded = errors.New("max depth exceeded")
+	errFieldNumber      = errors.New("invalid field number")
 )
 
 func newWireTypeNotMatch(t0 wire.Type, t1 desc.TagType) error {
-- 
2.43.0


From e629ee7df27fe82191368f1eab83495dabac195d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:41 +0000
Subject: [PATCH 16/46] fix: merge values repeated in a map entry in linear
 time

---
 internal/prutal/decoder.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/internal/prutal/decoder.go b/internal/prutal/decoder.go
index 44b8a65..41093d6 100644
--- a/internal/prutal/decoder.go
+++ b/internal/prutal/decoder.go
@@ -550,6 +550,7 @@ func (d *Decoder) DecodeMapValue(b []byte, p unsafe.Pointer, f *desc.FieldDesc,
 // repeated, may be in any order, and unknown fields may be present.
 func canonicalMapEntry(b []byte, f *desc.FieldDesc) ([]byte, error) {
 	var key, val []byte
+	var msg []byte // payload of a message value that is repeated
 	canonical := true
 	for i, nrec := 0, 0; i < len(b); nrec++ {
 		num, typ, n := protowire.ConsumeTag(b[i:])
@@ -572,10 +573,12 @@ func canonicalMapEntry(b []byte, f *desc.FieldDesc) ([]byte, error) {
 		case num == 2 && typ == f.ValWireType:
 			if val != nil && f.T.V.RealKind() == reflect.Struct {
 				// same message field, merge it.
-				p0, _ := protowire.ConsumeBytes(val)
-				p1, _ := protowire.ConsumeBytes(v)
-				val = wire.AppendVarint(nil, uint64(len(p0)+len(p1)))
-				val = append(append(val, p0...), p1...)
+				p, _ := protowire.ConsumeBytes(v)
+				if msg == nil {
+					p0, _ := protowire.ConsumeBytes(val)
+					msg = append(make([]byte, 0, len(p0)+len(p)), p0...)
+				}
+				msg = append(msg, p...)
 			} else {
 				val = v
 			}
@@ -592,6 +595,9 @@ func canonicalMapEntry(b []byte, f *desc.FieldDesc) ([]byte, error) {
 	if val == nil {
 		val = zeroFieldValue(f.ValWireType)
 	}
+	if msg != nil {
+		val = append(wire.AppendVarint(nil, uint64(len(msg))), msg...)
+	}
 	b = make([]byte, 0, 2+len(key)+len(val))
 	b = append(wire.AppendKeyTag(b, f.KeyWireType), key...)
 	b = append(wire.AppendValTag(b, f.ValWireType), val...)
-- 
2.43.0


From 355ea7988de83b94279800cb4e596f6b872ca369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:14 +0000
Subject: [PATCH 17/46] fix: don't leave values uninitialized when the input is
 cut off

---
 internal/prutal/decoder.go | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/internal/prutal/decoder.go b/internal/prutal/decoder.go
index 41093d6..bd3f423 100644
--- a/internal/prutal/decoder.go
+++ b/internal/prutal/decoder.go
@@ -50,6 +50,16 @@ func (d *Decoder) Malloc(n, align int, abiType uintptr) unsafe.Pointer {
 	return d.s.Malloc(n, align) // only for noscan objects like string.Data, []int etc...
 }
 
+// mallocZero returns a zero value of the given type.
+// It must not be left uninitialized, the input may end before its value.
+func (d *Decoder) mallocZero(t *desc.Type) unsafe.Pointer {
+	p := d.Malloc(int(t.Size), t.Align, t.MallocAbiType)
+	if t.MallocAbiType == 0 { // memory of span is not zeroed
+		zeron(p, int(t.Size))
+	}
+	return p
+}
+
 func (d *Decoder) mallocIfPointer(p unsafe.Pointer, t *desc.Type) (ret unsafe.Pointer) {
 	if !t.IsPointer {
 		return p
@@ -58,7 +68,7 @@ func (d *Decoder) mallocIfPointer(p unsafe.Pointer, t *desc.Type) (ret unsafe.Po
 	// we need to malloc the type first before assigning a value to it
 	// *p = new(type)
 	t = t.V
-	ret = d.Malloc(int(t.Size), t.Align, t.MallocAbiType)
+	ret = d.mallocZero(t)
 	*(*unsafe.Pointer)(p) = ret
 	return
 }
@@ -137,7 +147,7 @@ func (d *Decoder) DecodeStruct(b []byte, base unsafe.Pointer, s *desc.StructDesc
 		if f.IsOneof() {
 			data := hack.IfaceData(p)
 			if data == nil || hack.IfaceTypePtr(p) != hack.ReflectTypePtr(f.OneofType) || t.RealKind() != reflect.Struct {
-				data = d.Malloc(int(t.Size), t.Align, t.MallocAbiType)
+				data = d.mallocZero(t)
 				hack.IfaceUpdate(p, f.IfaceTab, data)
 			} // else: merge into the message
 			p = data
@@ -180,6 +190,9 @@ func (d *Decoder) DecodeStruct(b []byte, base unsafe.Pointer, s *desc.StructDesc
 			} else if t.Kind == reflect.Struct {
 				// spare capacity may hold an old element
 				reflect.NewAt(t.T, p).Elem().SetZero()
+			} else if t.MallocAbiType == 0 {
+				// the input may end before the value of the element
+				zeron(p, int(t.Size))
 			}
 		}
 
@@ -664,3 +677,11 @@ func copyn(dst, src unsafe.Pointer, n int) {
 		unsafe.Slice((*byte)(src), n),
 	)
 }
+
+// zeron zeroes n bytes at p, which must not contain pointers.
+func zeron(p unsafe.Pointer, n int) {
+	b := unsafe.Slice((*byte)(p), n)
+	for i := range b {
+		b[i] = 0
+	}
+}
-- 
2.43.0


From 2c5fe207301b57d6b4d8150837659c36cd66f641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:00 +0000
Subject: [PATCH 18/46] fix: make the go package name a valid identifier

---
 prutalgen/pkg/prutalgen/proto.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/prutalgen/pkg/prutalgen/proto.go b/prutalgen/pkg/prutalgen/proto.go
index 405f991..4c8461d 100644
--- a/prutalgen/pkg/prutalgen/proto.go
+++ b/prutalgen/pkg/prutalgen/proto.go
@@ -23,6 +23,7 @@ import (
 	"strings"
 
 	"github.com/cloudwego/prutal/prutalgen/internal/parser"
+	"github.com/cloudwego/prutal/prutalgen/internal/protobuf/strs"
 	"github.com/cloudwego/prutal/prutalgen/internal/protobuf/text"
 )
 
@@ -75,9 +76,9 @@ func (p *Proto) setGoPackage(s string) {
 	pkg = strings.TrimSpace(pkg)
 	p.GoImport = imp
 	if pkg != "" {
-		p.GoPackage = pkg
+		p.GoPackage = strs.GoSanitized(pkg)
 	} else if p.GoImport != "" {
-		p.GoPackage = path.Base(p.GoImport)
+		p.GoPackage = strs.GoSanitized(path.Base(p.GoImport))
 	}
 }
 
-- 
2.43.0


From c848d09e4d273e1c20eeb4a67f820dfcde37e24e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:23 +0000
Subject: [PATCH 19/46] fix: accept the min int32 as an enum value

---
 prutalgen/pkg/prutalgen/enum.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/prutalgen/pkg/prutalgen/enum.go b/prutalgen/pkg/prutalgen/enum.go
index 3b71511..3931ed1 100644
--- a/prutalgen/pkg/prutalgen/enum.go
+++ b/prutalgen/pkg/prutalgen/enum.go
@@ -185,15 +185,13 @@ func (x *protoLoader) ExitEnumField(c *parser.EnumFieldContext) {
 	f.Directives.Parse(f.HeadComment, f.InlineComment)
 
 	//  (MINUS)? intLit
-	if num, ok := text.UnmarshalI32(c.IntLit().GetText()); !ok {
+	// parse with the sign, coz the min int32 has no positive counterpart
+	if num, ok := text.UnmarshalI32(getText(c.MINUS()) + c.IntLit().GetText()); !ok {
 		t := c.IntLit()
 		x.Fatalf("%s - parse enum %q err", getTokenPos(t), t.GetText())
 	} else {
 		f.Value = num
 	}
-	if t := c.MINUS(); t != nil {
-		f.Value = -f.Value
-	}
 
 	// enumValueOptions
 	if oo := c.EnumValueOptions(); oo != nil {
-- 
2.43.0


From 74bea97b21130a4d82e8f66589a48552a8a80dfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:23 +0000
Subject: [PATCH 20/46] fix: allow enum values from 19000 to 19999

---
 prutalgen/pkg/prutalgen/enum.go     | 3 ++-
 prutalgen/pkg/prutalgen/reserved.go | 5 +++++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/prutalgen/pkg/prutalgen/enum.go b/prutalgen/pkg/prutalgen/enum.go
index 3931ed1..d93d648 100644
--- a/prutalgen/pkg/prutalgen/enum.go
+++ b/prutalgen/pkg/prutalgen/enum.go
@@ -70,7 +70,8 @@ func (e *Enum) FullName() string {
 }
 
 func (e *Enum) IsReservedField(v int32) bool {
-	return e.reserved.In(v)
+	// the range reserved for the protobuf implementation is only for field numbers
+	return e.reserved.declared(v)
 }
 
 func (e *Enum) genNoPrefix() bool {
diff --git a/prutalgen/pkg/prutalgen/reserved.go b/prutalgen/pkg/prutalgen/reserved.go
index f3661af..2d9d37c 100644
--- a/prutalgen/pkg/prutalgen/reserved.go
+++ b/prutalgen/pkg/prutalgen/reserved.go
@@ -39,6 +39,11 @@ func (rr reservedRanges) In(v int32) bool {
 	if v >= protobufReservedMin && v <= protobufReservedMax {
 		return true
 	}
+	return rr.declared(v)
+}
+
+// declared reports whether v is in one of the declared ranges
+func (rr reservedRanges) declared(v int32) bool {
 	for _, r := range rr {
 		if v >= r.from && v <= r.to {
 			return true
-- 
2.43.0


From 457832f96944d043357df12d4502cb8837f460fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:22 +0000
Subject: [PATCH 21/46] fix: resolve type names by the scoping rules of the
 language

---
 prutalgen/pkg/prutalgen/message.go |  15 ++++
 prutalgen/pkg/prutalgen/proto.go   |  10 ++-
 prutalgen/pkg/prutalgen/type.go    | 138 +++++++++++++++++++----------
 3 files changed, 116 insertions(+), 47 deletions(-)

diff --git a/prutalgen/pkg/prutalgen/message.go b/prutalgen/pkg/prutalgen/message.go
index cf1c73a..7e63e15 100644
--- a/prutalgen/pkg/prutalgen/message.go
+++ b/prutalgen/pkg/prutalgen/message.go
@@ -115,6 +115,21 @@ func (m *Message) getType(name string) any {
 	return nil
 }
 
+// hasNestedType reports whether the message has a nested message or enum with the given name
+func (m *Message) hasNestedType(name string) bool {
+	for _, x := range m.Enums {
+		if x.Name == name {
+			return true
+		}
+	}
+	for _, x := range m.Messages {
+		if x.Name == name {
+			return true
+		}
+	}
+	return false
+}
+
 func (m *Message) resolve() {
 	p := m.Proto
 	name := strings.TrimPrefix(m.FullName(), p.Package+".")
diff --git a/prutalgen/pkg/prutalgen/proto.go b/prutalgen/pkg/prutalgen/proto.go
index 4c8461d..90d40f8 100644
--- a/prutalgen/pkg/prutalgen/proto.go
+++ b/prutalgen/pkg/prutalgen/proto.go
@@ -82,7 +82,8 @@ func (p *Proto) setGoPackage(s string) {
 	}
 }
 
-func (p *Proto) getType(name string) any {
+// getDeclaredType returns the message or enum declared in the file
+func (p *Proto) getDeclaredType(name string) any {
 	for _, m := range p.Messages {
 		if v := m.getType(name); v != nil {
 			return v
@@ -93,6 +94,13 @@ func (p *Proto) getType(name string) any {
 			return e
 		}
 	}
+	return nil
+}
+
+func (p *Proto) getType(name string) any {
+	if v := p.getDeclaredType(name); v != nil {
+		return v
+	}
 	for _, x := range p.Imports {
 		if !x.Public {
 			continue
diff --git a/prutalgen/pkg/prutalgen/type.go b/prutalgen/pkg/prutalgen/type.go
index 7f7c8ab..229c581 100644
--- a/prutalgen/pkg/prutalgen/type.go
+++ b/prutalgen/pkg/prutalgen/type.go
@@ -137,65 +137,111 @@ func (t *Type) resolve(allowScalar bool) {
 		}
 	}
 
-	if m != nil {
-		if v := m.getType(t.Name); v != nil {
-			t.typ = v
-			return
+	//  (DOT)? (ident DOT)* ident
+	var def *Proto // the file which defines the type
+	t.typ, def = lookupType(p, m, t.Name)
+	if t.typ != nil {
+		if def != nil && def.GoImport != p.GoImport {
+			t.p = def
 		}
+		// a name starts with "." is fully-qualified
+		t.Name = strings.TrimLeft(t.Name, ".")
+		return
 	}
+	p.Fatalf("line %d: type %q not found.", t.rule.GetStart().GetLine(), t.Name)
+}
 
-	//  (DOT)? (ident DOT)* ident
-
-	// search Message
-	if m != nil {
-		for x := m; x != nil; x = x.Msg {
-			t.typ = x.getType(t.Name)
-			if t.typ != nil {
-				return
-			}
-			for _, e := range x.Enums {
-				if e.Name == t.Name {
-					t.typ = e
-					return
-				}
-			}
-			for _, m := range x.Messages {
-				if v := m.getType(t.Name); v != nil {
-					t.typ = v
-					return
+// lookupType searches for the type which `name` refers to,
+// when it's used in message m (can be nil) of file p.
+//
+// A name is resolved from the innermost scope to the outermost one:
+// message m, its parents, and then the package of p and its parents.
+// The first part of the name decides the scope to use.
+//
+// It returns (nil, nil) if not found.
+//
+// see: https://protobuf.com/docs/language-spec#reference-resolution
+func lookupType(p *Proto, m *Message, name string) (any, *Proto) {
+	if strings.HasPrefix(name, ".") {
+		return lookupFullName(visibleProtos(p), name[1:])
+	}
+	first, _, _ := strings.Cut(name, ".")
+	for ; m != nil; m = m.Msg {
+		if m.hasNestedType(first) {
+			return m.getType(m.Name + "." + name), p
+		}
+	}
+	visible := visibleProtos(p)
+	scope := p.Package
+	for {
+		full := name
+		if scope != "" {
+			full = scope + "." + name
+		}
+		prefix := full[:len(full)-len(name)+len(first)]
+		if v, _ := lookupFullName(visible, prefix); v != nil {
+			return lookupFullName(visible, full)
+		}
+		if first != name { // first part can be (part of) a package
+			for _, x := range visible {
+				if x.Package == prefix || hasPathPrefix(x.Package, prefix) {
+					return lookupFullName(visible, full)
 				}
 			}
 		}
-	}
-
-	// search proto and imports
-	protos := make([]*Proto, 0, len(p.Imports)+1)
-	protos = append(protos, p) // always check p
-	for _, x := range p.Imports {
-		if p.Package == x.Package { // same package
-			protos = append(protos, x.Proto)
+		if scope == "" {
+			return nil, nil
 		}
+		scope = parentScope(scope)
 	}
+}
 
-	// if name starts with "." it means the type is in local package
-	if !strings.HasPrefix(t.Name, ".") {
-		for _, x := range p.Imports {
-			if hasPathPrefix(t.Name, x.Package) {
-				protos = append(protos, x.Proto)
+// lookupFullName searches for a type with its fully-qualified name
+func lookupFullName(pp []*Proto, name string) (any, *Proto) {
+	for _, p := range pp {
+		s := name
+		if p.Package != "" {
+			v, ok := trimPathPrefix(name, p.Package)
+			if !ok {
+				continue
 			}
+			s = v
+		}
+		if v := p.getDeclaredType(s); v != nil {
+			return v, p
 		}
-	} else {
-		// trim "." for searching type
-		t.Name = strings.TrimLeft(t.Name, ".")
 	}
-	for _, x := range protos {
-		t.typ = x.getType(t.Name)
-		if t.typ != nil {
-			if x.GoImport != p.GoImport {
-				t.p = x
-			}
+	return nil, nil
+}
+
+// visibleProtos returns p and all files with types that can be used in p:
+// its imports, and everything that is publicly imported by them.
+func visibleProtos(p *Proto) []*Proto {
+	ret := []*Proto{p}
+	seen := map[*Proto]bool{p: true}
+	var add func(x *Proto)
+	add = func(x *Proto) {
+		if seen[x] {
 			return
 		}
+		seen[x] = true
+		ret = append(ret, x)
+		for _, imp := range x.Imports {
+			if imp.Public {
+				add(imp.Proto)
+			}
+		}
 	}
-	p.Fatalf("line %d: type %q not found.", t.rule.GetStart().GetLine(), t.Name)
+	for _, imp := range p.Imports {
+		add(imp.Proto)
+	}
+	return ret
+}
+
+func parentScope(scope string) string {
+	i := strings.LastIndexByte(scope, '.')
+	if i < 0 {
+		return ""
+	}
+	return scope[:i]
 }
-- 
2.43.0


From d5c0ea13107c0a0229a78eadde163a14f456d4f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:22 +0000
Subject: [PATCH 22/46] fix: generate the enums of all nested messages

---
 prutalgen/pkg/prutalgen/code.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/prutalgen/pkg/prutalgen/code.go b/prutalgen/pkg/prutalgen/code.go
index 5ae3659..c7f4c2e 100644
--- a/prutalgen/pkg/prutalgen/code.go
+++ b/prutalgen/pkg/prutalgen/code.go
@@ -118,10 +118,7 @@ func (g *GoCodeGen) ProtoGen(p *Proto, w *CodeWriter) {
 	// always generate enums before messages
 	// same order as protobuf
 	for _, m := range p.Messages {
-		for _, e := range m.Enums {
-			w.F("")
-			g.EnumGen(e, w)
-		}
+		g.nestedEnumGen(m, w)
 	}
 
 	for _, m := range p.Messages {
@@ -130,6 +127,17 @@ func (g *GoCodeGen) ProtoGen(p *Proto, w *CodeWriter) {
 	}
 }
 
+// nestedEnumGen generates the enums declared in m and in the messages embedded in it
+func (g *GoCodeGen) nestedEnumGen(m *Message, w *CodeWriter) {
+	for _, e := range m.Enums {
+		w.F("")
+		g.EnumGen(e, w)
+	}
+	for _, x := range m.Messages {
+		g.nestedEnumGen(x, w)
+	}
+}
+
 func (g *GoCodeGen) EnumGen(e *Enum, w *CodeWriter) {
 	if e.HeadComment != "" {
 		w.F("%s", e.HeadComment)
-- 
2.43.0


From 4f5362e1168d4943db7f246caf7bfb520f13aa3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:33 +0000
Subject: [PATCH 23/46] fix: keep percent signs in comments of enums

---
 prutalgen/pkg/prutalgen/code.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prutalgen/pkg/prutalgen/code.go b/prutalgen/pkg/prutalgen/code.go
index c7f4c2e..f029137 100644
--- a/prutalgen/pkg/prutalgen/code.go
+++ b/prutalgen/pkg/prutalgen/code.go
@@ -142,7 +142,7 @@ func (g *GoCodeGen) EnumGen(e *Enum, w *CodeWriter) {
 	if e.HeadComment != "" {
 		w.F("%s", e.HeadComment)
 	}
-	w.F("type %s int32"+e.InlineComment, e.GoName)
+	w.F("type %s int32 %s", e.GoName, e.InlineComment)
 	w.F("")
 	if len(e.Fields) > 0 {
 		w.F("const (")
-- 
2.43.0


From 6da97fa8654c3465fb73cc0ff2da55d2711183c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:55 +0000
Subject: [PATCH 24/46] fix: accept hexadecimal and octal numbers in reserved
 ranges

---
 prutalgen/pkg/prutalgen/utils.go | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/prutalgen/pkg/prutalgen/utils.go b/prutalgen/pkg/prutalgen/utils.go
index 1b56bb7..8a11150 100644
--- a/prutalgen/pkg/prutalgen/utils.go
+++ b/prutalgen/pkg/prutalgen/utils.go
@@ -20,7 +20,6 @@ import (
 	"fmt"
 	"os"
 	"path/filepath"
-	"strconv"
 
 	"github.com/cloudwego/prutal/prutalgen/internal/antlr"
 
@@ -67,11 +66,11 @@ func getTokenPos(v antlr.ParserRuleContext) string {
 }
 
 func parseI32(c antlr.ParserRuleContext) (int32, error) {
-	v, err := strconv.ParseInt(c.GetText(), 10, 32)
-	if err != nil {
-		return 0, fmt.Errorf("%s - %w", getTokenPos(c), err)
+	v, ok := text.UnmarshalI32(c.GetText())
+	if !ok {
+		return 0, fmt.Errorf("%s - parse number %q err", getTokenPos(c), c.GetText())
 	}
-	return int32(v), nil
+	return v, nil
 }
 
 func isfalse(v string) bool { return v == "false" }
-- 
2.43.0


From a91e0301182b2a5b9321c69d215aeb4b9e6ca6c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:19 +0000
Subject: [PATCH 25/46] fix: refer to imported packages by a unique and valid
 name

---
 prutalgen/pkg/prutalgen/code.go  |  5 +--
 prutalgen/pkg/prutalgen/field.go |  3 +-
 prutalgen/pkg/prutalgen/proto.go | 54 ++++++++++++++++++++++++++++++++
 prutalgen/pkg/prutalgen/type.go  | 13 ++++++--
 4 files changed, 67 insertions(+), 8 deletions(-)

diff --git a/prutalgen/pkg/prutalgen/code.go b/prutalgen/pkg/prutalgen/code.go
index f029137..2c8fd77 100644
--- a/prutalgen/pkg/prutalgen/code.go
+++ b/prutalgen/pkg/prutalgen/code.go
@@ -362,10 +362,7 @@ func (g *GoCodeGen) FieldGen(f *Field, w *CodeWriter) {
 	}
 	w.F("%s %s `%s` %s", f.GoName, f.GoTypeName(), g.FieldStructTag(f), f.InlineComment)
 	if f.Type.IsExternalType() {
-		w.UsePkg(f.Type.GoImport(), "")
-	}
-	if f.Key != nil && f.Key.IsExternalType() {
-		w.UsePkg(f.Key.GoImport(), "")
+		w.UsePkg(f.Type.GoImport(), f.Type.goImportName())
 	}
 }
 
diff --git a/prutalgen/pkg/prutalgen/field.go b/prutalgen/pkg/prutalgen/field.go
index cddc007..4e4c890 100644
--- a/prutalgen/pkg/prutalgen/field.go
+++ b/prutalgen/pkg/prutalgen/field.go
@@ -18,7 +18,6 @@ package prutalgen
 
 import (
 	"fmt"
-	"path"
 	"strings"
 
 	"github.com/cloudwego/prutal/prutalgen/internal/antlr"
@@ -216,7 +215,7 @@ func (f *Field) GoZero() string {
 			if !tp.IsExternalType() {
 				return zero
 			}
-			return path.Base(tp.GoImport()) + "." + zero
+			return tp.goImportName() + "." + zero
 		}
 		return "0"
 	}
diff --git a/prutalgen/pkg/prutalgen/proto.go b/prutalgen/pkg/prutalgen/proto.go
index 90d40f8..75fb9d9 100644
--- a/prutalgen/pkg/prutalgen/proto.go
+++ b/prutalgen/pkg/prutalgen/proto.go
@@ -19,7 +19,10 @@ package prutalgen
 import (
 	"errors"
 	"fmt"
+	"go/token"
+	"go/types"
 	"path"
+	"strconv"
 	"strings"
 
 	"github.com/cloudwego/prutal/prutalgen/internal/parser"
@@ -54,6 +57,9 @@ type Proto struct {
 
 	Services []*Service
 
+	// import path -> package name, for packages used by the fields of messages
+	importNames map[string]string
+
 	l LoggerIface
 }
 
@@ -82,6 +88,53 @@ func (p *Proto) setGoPackage(s string) {
 	}
 }
 
+func (p *Proto) goPackageName() string {
+	if p.GoPackage != "" {
+		return p.GoPackage
+	}
+	return path.Base(p.GoImport)
+}
+
+// goReservedNames are identifiers used by the generated code,
+// they must not be hidden by, or hide, the name of an imported package.
+var goReservedNames = append([]string{
+	"strconv", "prutal", // imports
+	"x", "p", "ok", "s", "in", // receivers, params and vars
+}, types.Universe.Names()...)
+
+// resolveImportNames gives each package used by the fields a unique name
+func (p *Proto) resolveImportNames() {
+	p.importNames = map[string]string{}
+	used := make(map[string]bool)
+	for _, s := range goReservedNames {
+		used[s] = true
+	}
+	var resolve func(mm []*Message)
+	resolve = func(mm []*Message) {
+		for _, m := range mm {
+			for _, f := range m.Fields {
+				x := f.Type.p
+				if x == nil || p.importNames[x.GoImport] != "" {
+					continue
+				}
+				pkg := x.goPackageName()
+				if token.IsExported(pkg) { // may conflict with the types of p
+					pkg = strings.ToLower(pkg)
+				}
+				name := pkg
+				// if it's renamed, make sure that the name is always generated, see UsePkg
+				for i := 1; used[name] || (name != x.goPackageName() && name == path.Base(x.GoImport)); i++ {
+					name = pkg + strconv.Itoa(i)
+				}
+				used[name] = true
+				p.importNames[x.GoImport] = name
+			}
+			resolve(m.Messages)
+		}
+	}
+	resolve(p.Messages)
+}
+
 // getDeclaredType returns the message or enum declared in the file
 func (p *Proto) getDeclaredType(name string) any {
 	for _, m := range p.Messages {
@@ -153,6 +206,7 @@ func (p *Proto) resolve() {
 	for _, s := range p.Services {
 		s.resolve()
 	}
+	p.resolveImportNames()
 }
 
 func (p *Proto) verify() error {
diff --git a/prutalgen/pkg/prutalgen/type.go b/prutalgen/pkg/prutalgen/type.go
index 229c581..e8db07c 100644
--- a/prutalgen/pkg/prutalgen/type.go
+++ b/prutalgen/pkg/prutalgen/type.go
@@ -17,7 +17,6 @@
 package prutalgen
 
 import (
-	"path"
 	"strings"
 
 	"github.com/cloudwego/prutal/prutalgen/internal/antlr"
@@ -59,7 +58,17 @@ func (t *Type) GoName() string {
 	if t.p == nil {
 		return ret
 	}
-	return path.Base(t.p.GoImport) + "." + ret
+	return t.goImportName() + "." + ret
+}
+
+// goImportName returns the package name for referring to an external type
+func (t *Type) goImportName() string {
+	if t.f != nil && t.f.Msg != nil && t.f.Msg.Proto != nil {
+		if s := t.f.Msg.Proto.importNames[t.p.GoImport]; s != "" {
+			return s
+		}
+	}
+	return t.p.goPackageName()
 }
 
 func (t *Type) IsExternalType() bool {
-- 
2.43.0


From 4c98af404a6097113f106bfc56cf80e0b3d21b0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:46 +0000
Subject: [PATCH 26/46] fix: respect packed = false of proto3 fields

---
 prutalgen/pkg/prutalgen/field.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prutalgen/pkg/prutalgen/field.go b/prutalgen/pkg/prutalgen/field.go
index 4e4c890..f471475 100644
--- a/prutalgen/pkg/prutalgen/field.go
+++ b/prutalgen/pkg/prutalgen/field.go
@@ -105,7 +105,7 @@ func (f *Field) IsPackedEncoding() bool {
 		}
 		return v == "PACKED"
 	}
-	return true // proto3
+	return !f.Options.Is(option_packed, "false") // proto3
 }
 
 func (f *Field) resolve() {
-- 
2.43.0


From 7b5966cca1fed1a79857051bc195633875bba351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:46 +0000
Subject: [PATCH 27/46] fix: support field_presence = LEGACY_REQUIRED of
 edition 2023

---
 prutalgen/pkg/prutalgen/consts.go | 2 ++
 prutalgen/pkg/prutalgen/field.go  | 5 ++++-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/prutalgen/pkg/prutalgen/consts.go b/prutalgen/pkg/prutalgen/consts.go
index 1f416fe..7a8e62f 100644
--- a/prutalgen/pkg/prutalgen/consts.go
+++ b/prutalgen/pkg/prutalgen/consts.go
@@ -45,6 +45,8 @@ const (
 
 	f_repeated_field_encoding = "features.repeated_field_encoding"
 	f_field_presence          = "features.field_presence"
+
+	presenceLegacyRequired = "LEGACY_REQUIRED" // value of field_presence, for fields only
 )
 
 const ( // proto2 options
diff --git a/prutalgen/pkg/prutalgen/field.go b/prutalgen/pkg/prutalgen/field.go
index f471475..da9978e 100644
--- a/prutalgen/pkg/prutalgen/field.go
+++ b/prutalgen/pkg/prutalgen/field.go
@@ -188,7 +188,7 @@ func (f *Field) IsPointer() bool {
 	if p.IsEdition2023() {
 		s, ok := f.Options.Get(f_field_presence)
 		if ok {
-			return s == "EXPLICIT"
+			return s == "EXPLICIT" || s == presenceLegacyRequired
 		}
 		s, ok = p.Options.Get(f_field_presence)
 		if ok {
@@ -315,6 +315,9 @@ func (x *protoLoader) newField(c fieldWithKeyTypeContext) *Field {
 			f.Options = append(f.Options, &Option{Name: o.OptionName().GetText(), Value: v})
 		}
 	}
+	if x.currentProto().IsEdition2023() && f.Options.Is(f_field_presence, presenceLegacyRequired) {
+		f.Required = true // same as `required` of proto2
+	}
 	return f
 }
 
-- 
2.43.0


From 49245fe22ef220f1d3b86dd959ee555d87bb401a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:10 +0000
Subject: [PATCH 28/46] fix: respect features set by features = {...}

---
 prutalgen/pkg/prutalgen/consts.go |  2 ++
 prutalgen/pkg/prutalgen/field.go  |  4 +--
 prutalgen/pkg/prutalgen/option.go | 46 +++++++++++++++++++++++--------
 3 files changed, 38 insertions(+), 14 deletions(-)

diff --git a/prutalgen/pkg/prutalgen/consts.go b/prutalgen/pkg/prutalgen/consts.go
index 7a8e62f..e32ec2a 100644
--- a/prutalgen/pkg/prutalgen/consts.go
+++ b/prutalgen/pkg/prutalgen/consts.go
@@ -43,6 +43,8 @@ const (
 	// editions features
 	// see: https://protobuf.dev/editions/features/
 
+	option_features = "features"
+
 	f_repeated_field_encoding = "features.repeated_field_encoding"
 	f_field_presence          = "features.field_presence"
 
diff --git a/prutalgen/pkg/prutalgen/field.go b/prutalgen/pkg/prutalgen/field.go
index da9978e..52023e4 100644
--- a/prutalgen/pkg/prutalgen/field.go
+++ b/prutalgen/pkg/prutalgen/field.go
@@ -308,11 +308,11 @@ func (x *protoLoader) newField(c fieldWithKeyTypeContext) *Field {
 	f.FieldNumber = num
 	if oo := c.FieldOptions(); oo != nil {
 		for _, o := range oo.AllFieldOption() {
-			v, err := unmarshalConst(o.Constant().GetText())
+			oo, err := newOptions(o.OptionName(), o.Constant())
 			if err != nil {
 				x.Fatalf("%s - field option syntax err: %s", getTokenPos(o), err)
 			}
-			f.Options = append(f.Options, &Option{Name: o.OptionName().GetText(), Value: v})
+			f.Options = append(f.Options, oo...)
 		}
 	}
 	if x.currentProto().IsEdition2023() && f.Options.Is(f_field_presence, presenceLegacyRequired) {
diff --git a/prutalgen/pkg/prutalgen/option.go b/prutalgen/pkg/prutalgen/option.go
index a486496..9b7bd9c 100644
--- a/prutalgen/pkg/prutalgen/option.go
+++ b/prutalgen/pkg/prutalgen/option.go
@@ -59,45 +59,67 @@ func (oo Options) Is(name string, value string) bool {
 	return ok && s == value
 }
 
-func (x *protoLoader) ExitOptionStatement(c *parser.OptionStatementContext) {
-	v, err := unmarshalConst(c.Constant().GetText())
+// newOptions returns the option with the given name and value.
+//
+// For features = { name: value }, it also returns the features as if each of them
+// is set by features.name = value
+func newOptions(name parser.IOptionNameContext, c parser.IConstantContext) (Options, error) {
+	v, err := unmarshalConst(c.GetText())
 	if err != nil {
-		x.Fatalf("%s - option syntax err: %s", getTokenPos(c), err)
+		return nil, err
 	}
+	oo := Options{{Name: name.GetText(), Value: v}}
+	if b := c.BlockLit(); b != nil && oo[0].Name == option_features {
+		for i, k := range b.AllIdent() {
+			v, err := unmarshalConst(b.Constant(i).GetText())
+			if err != nil {
+				return nil, err
+			}
+			oo = append(oo, &Option{Name: option_features + "." + k.GetText(), Value: v})
+		}
+	}
+	return oo, nil
+}
 
+func (x *protoLoader) ExitOptionStatement(c *parser.OptionStatementContext) {
 	// name may include extensions like (gogoproto.goproto_unrecognized_all)
 	// we ignore parsing it, coz it's only used by protoc.
 	// but we will keep it for optimization cases like `[(gogoproto.nullable) = false];`
-	o := &Option{Name: c.OptionName().GetText(), Value: v}
+	oo, err := newOptions(c.OptionName(), c.Constant())
+	if err != nil {
+		x.Fatalf("%s - option syntax err: %s", getTokenPos(c), err)
+	}
 
-	if !verifyOption(o.Name, o.Value) {
-		x.Fatalf("%s - option %q unsupported value %q", getTokenPos(c), o.Name, o.Value)
+	for _, o := range oo {
+		if !verifyOption(o.Name, o.Value) {
+			x.Fatalf("%s - option %q unsupported value %q", getTokenPos(c), o.Name, o.Value)
+		}
 	}
 
 	switch getRuleIndex(c.GetParent()) {
 	case parser.ProtobufParserRULE_proto:
 		p := x.currentProto()
-		p.Options = append(p.Options, o)
+		p.Options = append(p.Options, oo...)
 
 	case parser.ProtobufParserRULE_messageElement:
 		m := x.currentMsg()
-		m.Options = append(m.Options, o)
+		m.Options = append(m.Options, oo...)
 
 	case parser.ProtobufParserRULE_oneof:
 		of := x.currentOneof()
-		of.Options = append(of.Options, o)
+		of.Options = append(of.Options, oo...)
 
 	case parser.ProtobufParserRULE_enumElement:
-		x.enum.Options = append(x.enum.Options, o)
+		x.enum.Options = append(x.enum.Options, oo...)
 
 	case parser.ProtobufParserRULE_serviceElement:
 		s := x.currentService()
-		s.Options = append(s.Options, o)
+		s.Options = append(s.Options, oo...)
 
 	case parser.ProtobufParserRULE_rpc:
 		s := x.currentService()
 		rpc := last(s.Methods)
-		rpc.Options = append(rpc.Options, o)
+		rpc.Options = append(rpc.Options, oo...)
 
 	default:
 		return
-- 
2.43.0


From d23d444bc6842c9dd4d1b021f5e53f17ab349340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:54 +0000
Subject: [PATCH 29/46] fix: report characters which are not part of any token
 as syntax errors

---
 prutalgen/pkg/prutalgen/prutalgen.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/prutalgen/pkg/prutalgen/prutalgen.go b/prutalgen/pkg/prutalgen/prutalgen.go
index 812778b..0496fac 100644
--- a/prutalgen/pkg/prutalgen/prutalgen.go
+++ b/prutalgen/pkg/prutalgen/prutalgen.go
@@ -242,6 +242,8 @@ func (x *protoLoader) parseInput(in antlr.CharStream) {
 	defer pop(&x.streams)
 
 	e := &errorListener{l: x.l}
+	lexer.RemoveErrorListeners()
+	lexer.AddErrorListener(e)
 	ps := parser.NewProtobufParser(s)
 	ps.RemoveErrorListeners()
 	ps.AddErrorListener(e)
-- 
2.43.0


From 70c6056ee8fbc013b2756b49fc951732d5698e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:55 +0000
Subject: [PATCH 30/46] fix: let the M opt take precedence over go_package

---
 prutalgen/pkg/prutalgen/prutalgen.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/prutalgen/pkg/prutalgen/prutalgen.go b/prutalgen/pkg/prutalgen/prutalgen.go
index 0496fac..7582ca7 100644
--- a/prutalgen/pkg/prutalgen/prutalgen.go
+++ b/prutalgen/pkg/prutalgen/prutalgen.go
@@ -225,6 +225,7 @@ func (x *protoLoader) loadEmbeddedProto(file string) *Proto {
 
 		l: x.l,
 	}
+	p.setGoPackage(x.proto2gopkg[file])
 	push(&x.protostack, p)
 	defer pop(&x.protostack)
 	x.protos = append(x.protos, p)
@@ -256,8 +257,9 @@ func (x *protoLoader) parseInput(in antlr.CharStream) {
 	comment := x.consumeHeadComment(proto)
 	p.Directives.Parse(comment)
 
+	// the M opt takes precedence over go_package, same as protoc-gen-go
 	gopkg, ok := p.Options.Get("go_package")
-	if ok {
+	if ok && p.GoPackage == "" {
 		p.setGoPackage(gopkg)
 	}
 	if p.GoPackage == "" {
-- 
2.43.0


From e9ece0f1dae0e1e773169f24be39842ca829627e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:56 +0000
Subject: [PATCH 31/46] fix: accept options separated by commas in go_opt

---
 prutalgen/pkg/utils/args/go_opts.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/prutalgen/pkg/utils/args/go_opts.go b/prutalgen/pkg/utils/args/go_opts.go
index 4b16270..45d552d 100644
--- a/prutalgen/pkg/utils/args/go_opts.go
+++ b/prutalgen/pkg/utils/args/go_opts.go
@@ -28,10 +28,15 @@ type GoOpts struct {
 	StringArgs
 }
 
+// opts returns all the options. Each arg can have more than one option, separated by commas
+func (o *GoOpts) opts() []string {
+	return strings.Split(o.String(), ",")
+}
+
 // GenPathType ... prutalgen.GenByImport or prutalgen.GenBySourceRelative
 func (o *GoOpts) GenPathType() prutalgen.GenPathType {
 	ret := prutalgen.GenByImport // default value
-	for _, s := range o.StringArgs {
+	for _, s := range o.opts() {
 		if s == "paths=import" {
 			ret = prutalgen.GenByImport
 		} else if s == "paths=source_relative" {
@@ -45,7 +50,7 @@ func (o *GoOpts) GenPathType() prutalgen.GenPathType {
 // see: https://protobuf.dev/reference/go/go-generated/#package
 func (o *GoOpts) Proto2pkg() map[string]string {
 	ret := make(map[string]string)
-	for _, s := range o.StringArgs {
+	for _, s := range o.opts() {
 		if s == "" || s[0] != 'M' {
 			continue
 		}
-- 
2.43.0


From e1c99ca266450ecb604213094374786a58116c0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:58 +0000
Subject: [PATCH 32/46] fix: concatenate adjacent string literals

---
 prutalgen/internal/protobuf/text/decode_string.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/prutalgen/internal/protobuf/text/decode_string.go b/prutalgen/internal/protobuf/text/decode_string.go
index d60e44d..e4ff888 100644
--- a/prutalgen/internal/protobuf/text/decode_string.go
+++ b/prutalgen/internal/protobuf/text/decode_string.go
@@ -166,5 +166,15 @@ func indexNeedEscapeInString(s string) int {
 // internal/encoding/defval package for unmarshaling bytes.
 func UnmarshalString(s string) (string, error) {
 	d := NewDecoder([]byte(s))
-	return d.parseString()
+	ret, err := d.parseString()
+	for err == nil && len(d.in) > 0 && (d.in[0] == '"' || d.in[0] == '\'') {
+		// adjacent strings are concatenated, same as parseStringValue
+		var next string
+		next, err = d.parseString()
+		ret += next
+	}
+	if err != nil {
+		return "", err
+	}
+	return ret, nil
 }
-- 
2.43.0


From b6202c059c4f7a08851f50da652403abf9d8406c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:59 +0000
Subject: [PATCH 33/46] fix: accept \X escapes in string literals

---
 prutalgen/internal/protobuf/text/decode_string.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prutalgen/internal/protobuf/text/decode_string.go b/prutalgen/internal/protobuf/text/decode_string.go
index e4ff888..9d54a37 100644
--- a/prutalgen/internal/protobuf/text/decode_string.go
+++ b/prutalgen/internal/protobuf/text/decode_string.go
@@ -96,7 +96,7 @@ func (d *Decoder) parseString() (string, error) {
 					return "", d.newSyntaxError("invalid octal escape code %q in string", in[:1+n])
 				}
 				in, out = in[1+n:], append(out, byte(v))
-			case 'x':
+			case 'x', 'X':
 				// One or two hexadecimal characters.
 				n := len(in[2:]) - len(bytes.TrimLeft(in[2:], "0123456789abcdefABCDEF"))
 				if n > 2 {
-- 
2.43.0


From edfbe3eb75ed50ba8e5b80e2ebe5cc4bfc74a610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:20 +0000
Subject: [PATCH 34/46] fix: reject field numbers out of range

---
 prutalgen/pkg/prutalgen/message.go  | 4 +++-
 prutalgen/pkg/prutalgen/reserved.go | 2 ++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/prutalgen/pkg/prutalgen/message.go b/prutalgen/pkg/prutalgen/message.go
index 7e63e15..e34e363 100644
--- a/prutalgen/pkg/prutalgen/message.go
+++ b/prutalgen/pkg/prutalgen/message.go
@@ -228,7 +228,9 @@ func (m *Message) verify() error {
 	}
 	exists := map[int32]bool{}
 	for _, x := range m.Fields {
-		if m.IsReservedField(x.FieldNumber) {
+		if x.FieldNumber < 1 || x.FieldNumber > maxFieldNumber {
+			errs = append(errs, fmt.Errorf("field %q field number = %d is out of range [1, %d]", x.Name, x.FieldNumber, maxFieldNumber))
+		} else if m.IsReservedField(x.FieldNumber) {
 			errs = append(errs, fmt.Errorf("field %q field number = %d is reserved", x.Name, x.FieldNumber))
 		} else if exists[x.FieldNumber] {
 			errs = append(errs, fmt.Errorf("field %q field number = %d is duplicated", x.Name, x.FieldNumber))
diff --git a/prutalgen/pkg/prutalgen/reserved.go b/prutalgen/pkg/prutalgen/reserved.go
index 2d9d37c..41a62f7 100644
--- a/prutalgen/pkg/prutalgen/reserved.go
+++ b/prutalgen/pkg/prutalgen/reserved.go
@@ -23,6 +23,8 @@ import (
 )
 
 const (
+	maxFieldNumber = 1<<29 - 1
+
 	// reserved by protobuf implementation
 	protobufReservedMin = 19000
 	protobufReservedMax = 19999
-- 
2.43.0


From 15ffa7c03a80a1c97610fa042a18bc3d7eb5a652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:49 +0000
Subject: [PATCH 35/46] fix: enforce reserved names

---
 prutalgen/pkg/prutalgen/enum.go     |  6 +++++-
 prutalgen/pkg/prutalgen/message.go  |  6 +++++-
 prutalgen/pkg/prutalgen/reserved.go | 29 +++++++++++++++++++++++++++++
 3 files changed, 39 insertions(+), 2 deletions(-)

diff --git a/prutalgen/pkg/prutalgen/enum.go b/prutalgen/pkg/prutalgen/enum.go
index d93d648..d495729 100644
--- a/prutalgen/pkg/prutalgen/enum.go
+++ b/prutalgen/pkg/prutalgen/enum.go
@@ -37,7 +37,8 @@ type Enum struct {
 	Fields  []*EnumField
 	Options Options
 
-	reserved reservedRanges
+	reserved      reservedRanges
+	reservedNames map[string]bool
 
 	Msg   *Message // for embedded enum only
 	Proto *Proto
@@ -127,6 +128,9 @@ func (e *Enum) verify() error {
 			errs = append(errs, fmt.Errorf("%q = %d is duplicated", f.Name, f.Value))
 		}
 		m[f.Value] = true
+		if e.reservedNames[f.Name] {
+			errs = append(errs, fmt.Errorf("name %q is reserved", f.Name))
+		}
 	}
 	return errors.Join(errs...)
 }
diff --git a/prutalgen/pkg/prutalgen/message.go b/prutalgen/pkg/prutalgen/message.go
index e34e363..fc7b6da 100644
--- a/prutalgen/pkg/prutalgen/message.go
+++ b/prutalgen/pkg/prutalgen/message.go
@@ -43,7 +43,8 @@ type Message struct {
 	Oneofs  []*Oneof
 	Options Options
 
-	reserved reservedRanges
+	reserved      reservedRanges
+	reservedNames map[string]bool
 
 	Msg   *Message // for embedded message only
 	Proto *Proto
@@ -236,6 +237,9 @@ func (m *Message) verify() error {
 			errs = append(errs, fmt.Errorf("field %q field number = %d is duplicated", x.Name, x.FieldNumber))
 		}
 		exists[x.FieldNumber] = true
+		if m.reservedNames[x.Name] {
+			errs = append(errs, fmt.Errorf("field name %q is reserved", x.Name))
+		}
 	}
 	return errors.Join(errs...)
 }
diff --git a/prutalgen/pkg/prutalgen/reserved.go b/prutalgen/pkg/prutalgen/reserved.go
index 41a62f7..7d50c78 100644
--- a/prutalgen/pkg/prutalgen/reserved.go
+++ b/prutalgen/pkg/prutalgen/reserved.go
@@ -20,6 +20,7 @@ import (
 	"math"
 
 	"github.com/cloudwego/prutal/prutalgen/internal/parser"
+	"github.com/cloudwego/prutal/prutalgen/internal/protobuf/text"
 )
 
 const (
@@ -57,6 +58,7 @@ func (rr reservedRanges) declared(v int32) bool {
 func (x *protoLoader) ExitReserved(c *parser.ReservedContext) {
 	rc := c.Ranges()
 	if rc == nil {
+		x.reserveNames(c)
 		return
 	}
 	rr := rc.AllOneRange()
@@ -91,3 +93,30 @@ func (x *protoLoader) ExitReserved(c *parser.ReservedContext) {
 		e.reserved = append(e.reserved, ranges...)
 	}
 }
+
+func (x *protoLoader) reserveNames(c *parser.ReservedContext) {
+	names := map[string]bool{}
+	for _, s := range c.ReservedFieldNames().AllStrLit() {
+		v, err := text.UnmarshalString(s.GetText())
+		if err != nil {
+			x.Fatalf("%s - reserved name syntax err: %s", getTokenPos(s), err)
+		}
+		names[v] = true
+	}
+
+	var p *map[string]bool
+	switch getRuleIndex(c.GetParent()) {
+	case parser.ProtobufParserRULE_messageElement:
+		p = &x.currentMsg().reservedNames
+
+	case parser.ProtobufParserRULE_enumElement:
+		p = &x.enum.reservedNames
+
+	default:
+		return
+	}
+	for v := range *p {
+		names[v] = true
+	}
+	*p = names
+}
-- 
2.43.0


From 03659bd19e33ce0bdebc109d942ad4791e0be69a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:51 +0000
Subject: [PATCH 36/46] fix: verify options of fields, reject message_encoding
 = DELIMITED

---
 prutalgen/pkg/prutalgen/consts.go |  1 +
 prutalgen/pkg/prutalgen/field.go  |  5 +++++
 prutalgen/pkg/prutalgen/option.go | 10 ++++++++++
 3 files changed, 16 insertions(+)

diff --git a/prutalgen/pkg/prutalgen/consts.go b/prutalgen/pkg/prutalgen/consts.go
index e32ec2a..fbccf7f 100644
--- a/prutalgen/pkg/prutalgen/consts.go
+++ b/prutalgen/pkg/prutalgen/consts.go
@@ -47,6 +47,7 @@ const (
 
 	f_repeated_field_encoding = "features.repeated_field_encoding"
 	f_field_presence          = "features.field_presence"
+	f_message_encoding        = "features.message_encoding"
 
 	presenceLegacyRequired = "LEGACY_REQUIRED" // value of field_presence, for fields only
 )
diff --git a/prutalgen/pkg/prutalgen/field.go b/prutalgen/pkg/prutalgen/field.go
index 52023e4..7c8a0d7 100644
--- a/prutalgen/pkg/prutalgen/field.go
+++ b/prutalgen/pkg/prutalgen/field.go
@@ -312,6 +312,11 @@ func (x *protoLoader) newField(c fieldWithKeyTypeContext) *Field {
 			if err != nil {
 				x.Fatalf("%s - field option syntax err: %s", getTokenPos(o), err)
 			}
+			for _, v := range oo {
+				if !verifyFieldOption(v.Name, v.Value) {
+					x.Fatalf("%s - option %q unsupported value %q", getTokenPos(o), v.Name, v.Value)
+				}
+			}
 			f.Options = append(f.Options, oo...)
 		}
 	}
diff --git a/prutalgen/pkg/prutalgen/option.go b/prutalgen/pkg/prutalgen/option.go
index 9b7bd9c..b280996 100644
--- a/prutalgen/pkg/prutalgen/option.go
+++ b/prutalgen/pkg/prutalgen/option.go
@@ -134,6 +134,9 @@ func verifyOption(name, v string) bool {
 	case f_field_presence:
 		return v == "EXPLICIT" || v == "IMPLICIT"
 
+	case f_message_encoding:
+		return v == "LENGTH_PREFIXED" // DELIMITED is not supported
+
 	case option_packed, option_allow_alias:
 		return verifyTrueOrFalse(v)
 
@@ -142,6 +145,13 @@ func verifyOption(name, v string) bool {
 	}
 }
 
+func verifyFieldOption(name, v string) bool {
+	if name == f_field_presence && v == presenceLegacyRequired {
+		return true // only for fields
+	}
+	return verifyOption(name, v)
+}
+
 func verifyTrueOrFalse(v string) bool {
 	switch v {
 	case "true", "false":
-- 
2.43.0


From dc419a82e344af909dd05e3574078d0d4985857b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:26 +0000
Subject: [PATCH 37/46] fix: reject duplicated names in a scope

---
 prutalgen/pkg/prutalgen/enum.go    | 10 ++++++++++
 prutalgen/pkg/prutalgen/message.go | 25 +++++++++++++++++++++++++
 prutalgen/pkg/prutalgen/proto.go   | 22 ++++++++++++++++++++++
 3 files changed, 57 insertions(+)

diff --git a/prutalgen/pkg/prutalgen/enum.go b/prutalgen/pkg/prutalgen/enum.go
index d495729..d824b2f 100644
--- a/prutalgen/pkg/prutalgen/enum.go
+++ b/prutalgen/pkg/prutalgen/enum.go
@@ -118,6 +118,16 @@ func (e *Enum) resolve() {
 	}
 }
 
+// declaredNames returns the name of the enum and the names of its values,
+// which are all declared in the scope containing the enum.
+func (e *Enum) declaredNames() []string {
+	ret := []string{e.Name}
+	for _, f := range e.Fields {
+		ret = append(ret, f.Name)
+	}
+	return ret
+}
+
 func (e *Enum) verify() error {
 	errs := []error{}
 	m := map[int32]bool{}
diff --git a/prutalgen/pkg/prutalgen/message.go b/prutalgen/pkg/prutalgen/message.go
index fc7b6da..04b4423 100644
--- a/prutalgen/pkg/prutalgen/message.go
+++ b/prutalgen/pkg/prutalgen/message.go
@@ -215,6 +215,24 @@ func (m *Message) resolveFieldConflicts() {
 	}
 }
 
+// declaredNames returns all names declared in the scope of the message
+func (m *Message) declaredNames() []string {
+	ret := make([]string, 0, len(m.Fields)+len(m.Oneofs)+len(m.Messages)+len(m.Enums))
+	for _, x := range m.Fields {
+		ret = append(ret, x.Name)
+	}
+	for _, x := range m.Oneofs {
+		ret = append(ret, x.Name)
+	}
+	for _, x := range m.Messages {
+		ret = append(ret, x.Name)
+	}
+	for _, x := range m.Enums {
+		ret = append(ret, x.declaredNames()...)
+	}
+	return ret
+}
+
 func (m *Message) verify() error {
 	var errs []error
 	for _, x := range m.Enums {
@@ -227,6 +245,13 @@ func (m *Message) verify() error {
 			errs = append(errs, fmt.Errorf("message %s verify err: %w", x.FullName(), err))
 		}
 	}
+	names := map[string]bool{}
+	for _, s := range m.declaredNames() {
+		if names[s] {
+			errs = append(errs, fmt.Errorf("name %q is duplicated", s))
+		}
+		names[s] = true
+	}
 	exists := map[int32]bool{}
 	for _, x := range m.Fields {
 		if x.FieldNumber < 1 || x.FieldNumber > maxFieldNumber {
diff --git a/prutalgen/pkg/prutalgen/proto.go b/prutalgen/pkg/prutalgen/proto.go
index 75fb9d9..ea7dc6a 100644
--- a/prutalgen/pkg/prutalgen/proto.go
+++ b/prutalgen/pkg/prutalgen/proto.go
@@ -226,9 +226,31 @@ func (p *Proto) verify() error {
 			errs = append(errs, fmt.Errorf("service %q verify err: %w", s.Name, err))
 		}
 	}
+	names := map[string]bool{}
+	for _, s := range p.declaredNames() {
+		if names[s] {
+			errs = append(errs, fmt.Errorf("name %q is duplicated", s))
+		}
+		names[s] = true
+	}
 	return errors.Join(errs...)
 }
 
+// declaredNames returns all top level names of the file
+func (p *Proto) declaredNames() []string {
+	ret := make([]string, 0, len(p.Enums)+len(p.Messages)+len(p.Services))
+	for _, e := range p.Enums {
+		ret = append(ret, e.declaredNames()...)
+	}
+	for _, m := range p.Messages {
+		ret = append(ret, m.Name)
+	}
+	for _, s := range p.Services {
+		ret = append(ret, s.Name)
+	}
+	return ret
+}
+
 // listeners
 
 func (x *protoLoader) ExitEdition(c *parser.EditionContext) {
-- 
2.43.0


From 5d0e4c352d7c6d3137d332fcce9eb732e1e0261c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:28 +0000
Subject: [PATCH 38/46] fix: reject methods whose types are not messages

---
 prutalgen/pkg/prutalgen/service.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/prutalgen/pkg/prutalgen/service.go b/prutalgen/pkg/prutalgen/service.go
index 972e1dc..50e9d74 100644
--- a/prutalgen/pkg/prutalgen/service.go
+++ b/prutalgen/pkg/prutalgen/service.go
@@ -17,6 +17,8 @@
 package prutalgen
 
 import (
+	"errors"
+	"fmt"
 	"strings"
 
 	"github.com/cloudwego/prutal/prutalgen/internal/parser"
@@ -45,7 +47,17 @@ func (s *Service) resolve() {
 	}
 }
 
-func (s *Service) verify() error { return nil }
+func (s *Service) verify() error {
+	var errs []error
+	for _, m := range s.Methods {
+		for _, t := range []*Type{m.Request, m.Return} {
+			if !t.IsMessage() {
+				errs = append(errs, fmt.Errorf("method %q: type %q is not a message", m.Name, t.Name))
+			}
+		}
+	}
+	return errors.Join(errs...)
+}
 
 type Method struct {
 	HeadComment   string
-- 
2.43.0


From 0da4dc66def697b37653736282d887e217acd2c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:18 +0000
Subject: [PATCH 39/46] fix: reject cut off message values that are repeated in
 a map entry

---
 internal/prutal/decoder.go | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/internal/prutal/decoder.go b/internal/prutal/decoder.go
index bd3f423..f8179b8 100644
--- a/internal/prutal/decoder.go
+++ b/internal/prutal/decoder.go
@@ -587,8 +587,14 @@ func canonicalMapEntry(b []byte, f *desc.FieldDesc) ([]byte, error) {
 			if val != nil && f.T.V.RealKind() == reflect.Struct {
 				// same message field, merge it.
 				p, _ := protowire.ConsumeBytes(v)
+				if err := checkRecords(p); err != nil {
+					return nil, err
+				}
 				if msg == nil {
 					p0, _ := protowire.ConsumeBytes(val)
+					if err := checkRecords(p0); err != nil {
+						return nil, err
+					}
 					msg = append(make([]byte, 0, len(p0)+len(p)), p0...)
 				}
 				msg = append(msg, p...)
@@ -617,6 +623,19 @@ func canonicalMapEntry(b []byte, f *desc.FieldDesc) ([]byte, error) {
 	return b, nil
 }
 
+// checkRecords checks that b is a sequence of complete records,
+// then its records remain the same when b is concatenated with other ones.
+func checkRecords(b []byte) error {
+	for len(b) > 0 {
+		_, _, n := protowire.ConsumeField(b)
+		if n < 0 {
+			return protowire.ParseError(n)
+		}
+		b = b[n:]
+	}
+	return nil
+}
+
 // zeroFieldValue returns the encoded default value of the given wire type.
 func zeroFieldValue(t wire.Type) []byte {
 	switch t {
-- 
2.43.0


From 2bf28e4562fc178dc19d42da3108a3236c02cd32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:49 +0000
Subject: [PATCH 40/46] fix: reject duplicated method names

---
 prutalgen/pkg/prutalgen/service.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/prutalgen/pkg/prutalgen/service.go b/prutalgen/pkg/prutalgen/service.go
index 50e9d74..50d643d 100644
--- a/prutalgen/pkg/prutalgen/service.go
+++ b/prutalgen/pkg/prutalgen/service.go
@@ -49,7 +49,12 @@ func (s *Service) resolve() {
 
 func (s *Service) verify() error {
 	var errs []error
+	names := map[string]bool{}
 	for _, m := range s.Methods {
+		if names[m.Name] {
+			errs = append(errs, fmt.Errorf("method name %q is duplicated", m.Name))
+		}
+		names[m.Name] = true
 		for _, t := range []*Type{m.Request, m.Return} {
 			if !t.IsMessage() {
 				errs = append(errs, fmt.Errorf("method %q: type %q is not a message", m.Name, t.Name))
-- 
2.43.0


From 2597c430071326094d5c2fae4611482fb847e940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:37 +0000
Subject: [PATCH 41/46] fix: refuse cyclic imports of embedded files

---
 prutalgen/pkg/prutalgen/prutalgen.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/prutalgen/pkg/prutalgen/prutalgen.go b/prutalgen/pkg/prutalgen/prutalgen.go
index 7582ca7..30e0afa 100644
--- a/prutalgen/pkg/prutalgen/prutalgen.go
+++ b/prutalgen/pkg/prutalgen/prutalgen.go
@@ -214,6 +214,10 @@ func (x *protoLoader) loadProto(file string) *Proto {
 }
 
 func (x *protoLoader) loadEmbeddedProto(file string) *Proto {
+	if proto := x.getByFile(file, true); proto != nil {
+		x.Fatalf("cyclic import of embedded file %q is NOT allowed", file)
+		return proto
+	}
 	if proto := x.getByFile(file, false); proto != nil {
 		return proto // parsed
 	}
-- 
2.43.0


From ea424b3570c0eb14d567a0d4d28f9bc04ad73666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:37 +0000
Subject: [PATCH 42/46] fix: accept all escapes in string literals, and \v as
 white space

---
 prutalgen/internal/Protobuf.g4              | 5 +++--
 prutalgen/internal/parser/protobuf_lexer.go | 7 ++++---
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/prutalgen/internal/Protobuf.g4 b/prutalgen/internal/Protobuf.g4
index fef2c9d..b129055 100644
--- a/prutalgen/internal/Protobuf.g4
+++ b/prutalgen/internal/Protobuf.g4
@@ -546,8 +546,9 @@ fragment OCT_ESCAPE
     : '\\' OCTAL_DIGIT OCTAL_DIGIT OCTAL_DIGIT
     ;
 
+// also the start of \u, \U and of short octal and hex escapes, see text.UnmarshalString
 fragment CHAR_ESCAPE
-    : '\\' ('a' | 'b' | 'f' | 'n' | 'r' | 't' | 'v' | '\\' | '\'' | '"')
+    : '\\' [abfnrtv\\'"?uUxX0-7]
     ;
 
 BOOL_LIT
@@ -610,7 +611,7 @@ fragment HEX_DIGIT
 // comments
 // keep it in channel 2, may use it later to check empty lines
 WS
-    : [ \t\r\n\u000C]+ -> channel(2)
+    : [ \t\r\n\u000B\u000C]+ -> channel(2)
     ;
 
 LINE_COMMENT
diff --git a/prutalgen/internal/parser/protobuf_lexer.go b/prutalgen/internal/parser/protobuf_lexer.go
index bb7c300..d293c78 100644
--- a/prutalgen/internal/parser/protobuf_lexer.go
+++ b/prutalgen/internal/parser/protobuf_lexer.go
@@ -146,10 +146,11 @@ func protobuflexerLexerInit() {
 		103, 52, 105, 53, 107, 54, 109, 0, 111, 0, 113, 0, 115, 0, 117, 55, 119,
 		56, 121, 0, 123, 0, 125, 57, 127, 0, 129, 0, 131, 0, 133, 58, 135, 0, 137,
 		0, 139, 0, 141, 0, 143, 59, 145, 60, 147, 61, 1, 0, 11, 3, 0, 0, 0, 10,
-		10, 92, 92, 2, 0, 88, 88, 120, 120, 9, 0, 34, 34, 39, 39, 92, 92, 97, 98,
-		102, 102, 110, 110, 114, 114, 116, 116, 118, 118, 2, 0, 69, 69, 101, 101,
+		10, 92, 92, 2, 0, 88, 88, 120, 120, 13, 0, 34, 34, 39, 39, 48, 55, 63,
+		63, 85, 85, 88, 88, 92, 92, 97, 98, 102, 102, 110, 110, 114, 114, 116, 118,
+		120, 120, 2, 0, 69, 69, 101, 101,
 		1, 0, 49, 57, 3, 0, 65, 90, 95, 95, 97, 122, 1, 0, 48, 57, 1, 0, 48, 55,
-		3, 0, 48, 57, 65, 70, 97, 102, 3, 0, 9, 10, 12, 13, 32, 32, 2, 0, 10, 10,
+		3, 0, 48, 57, 65, 70, 97, 102, 2, 0, 9, 13, 32, 32, 2, 0, 10, 10,
 		13, 13, 617, 0, 1, 1, 0, 0, 0, 0, 3, 1, 0, 0, 0, 0, 5, 1, 0, 0, 0, 0, 7,
 		1, 0, 0, 0, 0, 9, 1, 0, 0, 0, 0, 11, 1, 0, 0, 0, 0, 13, 1, 0, 0, 0, 0,
 		15, 1, 0, 0, 0, 0, 17, 1, 0, 0, 0, 0, 19, 1, 0, 0, 0, 0, 21, 1, 0, 0, 0,
-- 
2.43.0


From 7bd3b6120a3a6c197a8242bfc1d5c60f19cf3cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:37 +0000
Subject: [PATCH 43/46] fix: accept the keyword required as an identifier

---
 prutalgen/internal/Protobuf.g4               |  1 +
 prutalgen/internal/parser/protobuf_parser.go | 19 ++++++++++++-------
 2 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/prutalgen/internal/Protobuf.g4 b/prutalgen/internal/Protobuf.g4
index b129055..88f0462 100644
--- a/prutalgen/internal/Protobuf.g4
+++ b/prutalgen/internal/Protobuf.g4
@@ -631,6 +631,7 @@ keywords
     | PACKAGE
     | OPTION
     | OPTIONAL
+    | REQUIRED
     | REPEATED
     | ONEOF
     | MAP
diff --git a/prutalgen/internal/parser/protobuf_parser.go b/prutalgen/internal/parser/protobuf_parser.go
index c684e88..26a4a98 100644
--- a/prutalgen/internal/parser/protobuf_parser.go
+++ b/prutalgen/internal/parser/protobuf_parser.go
@@ -124,7 +124,7 @@ func protobufParserInit() {
 		32, 34, 36, 38, 40, 42, 44, 46, 48, 50, 52, 54, 56, 58, 60, 62, 64, 66,
 		68, 70, 72, 74, 76, 78, 80, 82, 84, 86, 88, 90, 92, 94, 96, 98, 100, 102,
 		104, 0, 7, 1, 0, 1, 2, 1, 0, 4, 5, 1, 0, 8, 10, 1, 0, 13, 24, 1, 0, 52,
-		53, 2, 0, 39, 39, 50, 50, 3, 0, 1, 8, 10, 38, 55, 55, 544, 0, 107, 1, 0,
+		53, 2, 0, 39, 39, 50, 50, 2, 0, 1, 38, 55, 55, 544, 0, 107, 1, 0,
 		0, 0, 2, 121, 1, 0, 0, 0, 4, 126, 1, 0, 0, 0, 6, 133, 1, 0, 0, 0, 8, 137,
 		1, 0, 0, 0, 10, 151, 1, 0, 0, 0, 12, 153, 1, 0, 0, 0, 14, 156, 1, 0, 0,
 		0, 16, 170, 1, 0, 0, 0, 18, 178, 1, 0, 0, 0, 20, 182, 1, 0, 0, 0, 22, 184,
@@ -1600,7 +1600,7 @@ func (p *ProtobufParser) OptionName() (localctx IOptionNameContext) {
 	}
 
 	switch p.GetTokenStream().LA(1) {
-	case ProtobufParserSYNTAX, ProtobufParserEDITION, ProtobufParserIMPORT, ProtobufParserWEAK, ProtobufParserPUBLIC, ProtobufParserPACKAGE, ProtobufParserOPTION, ProtobufParserOPTIONAL, ProtobufParserREPEATED, ProtobufParserONEOF, ProtobufParserMAP, ProtobufParserINT32, ProtobufParserINT64, ProtobufParserUINT32, ProtobufParserUINT64, ProtobufParserSINT32, ProtobufParserSINT64, ProtobufParserFIXED32, ProtobufParserFIXED64, ProtobufParserSFIXED32, ProtobufParserSFIXED64, ProtobufParserBOOL, ProtobufParserSTRING, ProtobufParserDOUBLE, ProtobufParserFLOAT, ProtobufParserBYTES, ProtobufParserRESERVED, ProtobufParserEXTENSIONS, ProtobufParserTO, ProtobufParserMAX, ProtobufParserENUM, ProtobufParserMESSAGE, ProtobufParserSERVICE, ProtobufParserEXTEND, ProtobufParserRPC, ProtobufParserSTREAM, ProtobufParserRETURNS, ProtobufParserBOOL_LIT, ProtobufParserIDENTIFIER:
+	case ProtobufParserSYNTAX, ProtobufParserEDITION, ProtobufParserIMPORT, ProtobufParserWEAK, ProtobufParserPUBLIC, ProtobufParserPACKAGE, ProtobufParserOPTION, ProtobufParserOPTIONAL, ProtobufParserREQUIRED, ProtobufParserREPEATED, ProtobufParserONEOF, ProtobufParserMAP, ProtobufParserINT32, ProtobufParserINT64, ProtobufParserUINT32, ProtobufParserUINT64, ProtobufParserSINT32, ProtobufParserSINT64, ProtobufParserFIXED32, ProtobufParserFIXED64, ProtobufParserSFIXED32, ProtobufParserSFIXED64, ProtobufParserBOOL, ProtobufParserSTRING, ProtobufParserDOUBLE, ProtobufParserFLOAT, ProtobufParserBYTES, ProtobufParserRESERVED, ProtobufParserEXTENSIONS, ProtobufParserTO, ProtobufParserMAX, ProtobufParserENUM, ProtobufParserMESSAGE, ProtobufParserSERVICE, ProtobufParserEXTEND, ProtobufParserRPC, ProtobufParserSTREAM, ProtobufParserRETURNS, ProtobufParserBOOL_LIT, ProtobufParserIDENTIFIER:
 		p.EnterOuterAlt(localctx, 1)
 		{
 			p.SetState(143)
@@ -2712,7 +2712,7 @@ func (p *ProtobufParser) Oneof() (localctx IOneofContext) {
 	}
 	_la = p.GetTokenStream().LA(1)
 
-	for (int64(_la) & ^0x3f) == 0 && ((int64(1)<<_la)&324823222635724286) != 0 {
+	for (int64(_la) & ^0x3f) == 0 && ((int64(1)<<_la)&324823222635724798) != 0 {
 		p.SetState(190)
 		p.GetErrorHandler().Sync(p)
 		if p.HasError() {
@@ -5190,7 +5190,7 @@ func (p *ProtobufParser) EnumBody() (localctx IEnumBodyContext) {
 	}
 	_la = p.GetTokenStream().LA(1)
 
-	for (int64(_la) & ^0x3f) == 0 && ((int64(1)<<_la)&324260272682302974) != 0 {
+	for (int64(_la) & ^0x3f) == 0 && ((int64(1)<<_la)&324260272682303486) != 0 {
 		{
 			p.SetState(299)
 			p.EnumElement()
@@ -8199,7 +8199,7 @@ func (p *ProtobufParser) BlockLit() (localctx IBlockLitContext) {
 	}
 	_la = p.GetTokenStream().LA(1)
 
-	for (int64(_la) & ^0x3f) == 0 && ((int64(1)<<_la)&324259722926489086) != 0 {
+	for (int64(_la) & ^0x3f) == 0 && ((int64(1)<<_la)&324259722926489598) != 0 {
 		{
 			p.SetState(434)
 			p.Ident()
@@ -8471,7 +8471,7 @@ func (p *ProtobufParser) Ident() (localctx IIdentContext) {
 			}
 		}
 
-	case ProtobufParserSYNTAX, ProtobufParserEDITION, ProtobufParserIMPORT, ProtobufParserWEAK, ProtobufParserPUBLIC, ProtobufParserPACKAGE, ProtobufParserOPTION, ProtobufParserOPTIONAL, ProtobufParserREPEATED, ProtobufParserONEOF, ProtobufParserMAP, ProtobufParserINT32, ProtobufParserINT64, ProtobufParserUINT32, ProtobufParserUINT64, ProtobufParserSINT32, ProtobufParserSINT64, ProtobufParserFIXED32, ProtobufParserFIXED64, ProtobufParserSFIXED32, ProtobufParserSFIXED64, ProtobufParserBOOL, ProtobufParserSTRING, ProtobufParserDOUBLE, ProtobufParserFLOAT, ProtobufParserBYTES, ProtobufParserRESERVED, ProtobufParserEXTENSIONS, ProtobufParserTO, ProtobufParserMAX, ProtobufParserENUM, ProtobufParserMESSAGE, ProtobufParserSERVICE, ProtobufParserEXTEND, ProtobufParserRPC, ProtobufParserSTREAM, ProtobufParserRETURNS, ProtobufParserBOOL_LIT:
+	case ProtobufParserSYNTAX, ProtobufParserEDITION, ProtobufParserIMPORT, ProtobufParserWEAK, ProtobufParserPUBLIC, ProtobufParserPACKAGE, ProtobufParserOPTION, ProtobufParserOPTIONAL, ProtobufParserREQUIRED, ProtobufParserREPEATED, ProtobufParserONEOF, ProtobufParserMAP, ProtobufParserINT32, ProtobufParserINT64, ProtobufParserUINT32, ProtobufParserUINT64, ProtobufParserSINT32, ProtobufParserSINT64, ProtobufParserFIXED32, ProtobufParserFIXED64, ProtobufParserSFIXED32, ProtobufParserSFIXED64, ProtobufParserBOOL, ProtobufParserSTRING, ProtobufParserDOUBLE, ProtobufParserFLOAT, ProtobufParserBYTES, ProtobufParserRESERVED, ProtobufParserEXTENSIONS, ProtobufParserTO, ProtobufParserMAX, ProtobufParserENUM, ProtobufParserMESSAGE, ProtobufParserSERVICE, ProtobufParserEXTEND, ProtobufParserRPC, ProtobufParserSTREAM, ProtobufParserRETURNS, ProtobufParserBOOL_LIT:
 		p.EnterOuterAlt(localctx, 2)
 		{
 			p.SetState(450)
@@ -10141,6 +10141,7 @@ type IKeywordsContext interface {
 	PACKAGE() antlr.TerminalNode
 	OPTION() antlr.TerminalNode
 	OPTIONAL() antlr.TerminalNode
+	REQUIRED() antlr.TerminalNode
 	REPEATED() antlr.TerminalNode
 	ONEOF() antlr.TerminalNode
 	MAP() antlr.TerminalNode
@@ -10240,6 +10241,10 @@ func (s *KeywordsContext) OPTIONAL() antlr.TerminalNode {
 	return s.GetToken(ProtobufParserOPTIONAL, 0)
 }
 
+func (s *KeywordsContext) REQUIRED() antlr.TerminalNode {
+	return s.GetToken(ProtobufParserREQUIRED, 0)
+}
+
 func (s *KeywordsContext) REPEATED() antlr.TerminalNode {
 	return s.GetToken(ProtobufParserREPEATED, 0)
 }
@@ -10390,7 +10395,7 @@ func (p *ProtobufParser) Keywords() (localctx IKeywordsContext) {
 		p.SetState(510)
 		_la = p.GetTokenStream().LA(1)
 
-		if !((int64(_la) & ^0x3f) == 0 && ((int64(1)<<_la)&36029346774777342) != 0) {
+		if !((int64(_la) & ^0x3f) == 0 && ((int64(1)<<_la)&36029346774777854) != 0) {
 			p.GetErrorHandler().RecoverInline(p)
 		} else {
 			p.GetErrorHandler().ReportMatch(p)
-- 
2.43.0


From 49da1de1c81e9e0707ccb73bc19371b7c65763f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:15 +0000
Subject: [PATCH 44/46] fix: accept proto files that start with a byte order
 mark

---
 prutalgen/pkg/prutalgen/prutalgen.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/prutalgen/pkg/prutalgen/prutalgen.go b/prutalgen/pkg/prutalgen/prutalgen.go
index 30e0afa..1c529e5 100644
--- a/prutalgen/pkg/prutalgen/prutalgen.go
+++ b/prutalgen/pkg/prutalgen/prutalgen.go
@@ -205,11 +205,11 @@ func (x *protoLoader) loadProto(file string) *Proto {
 	x.protos = append(x.protos, p)
 
 	x.Infof("parsing")
-	is, err := antlr.NewFileStream(p.ProtoFile)
+	data, err := os.ReadFile(p.ProtoFile)
 	if err != nil {
 		x.Fatalf("open file err: %s", err)
 	}
-	x.parseInput(is)
+	x.parseInput(data)
 	return p
 }
 
@@ -233,14 +233,17 @@ func (x *protoLoader) loadEmbeddedProto(file string) *Proto {
 	push(&x.protostack, p)
 	defer pop(&x.protostack)
 	x.protos = append(x.protos, p)
-	is := antlr.NewIoStream(bytes.NewReader(data))
-	x.parseInput(is)
+	x.parseInput(data)
 	return p
 }
 
-func (x *protoLoader) parseInput(in antlr.CharStream) {
+var utf8BOM = []byte("\xef\xbb\xbf")
+
+func (x *protoLoader) parseInput(data []byte) {
 	p := x.currentProto()
 
+	// a file may start with a byte order mark
+	in := antlr.NewIoStream(bytes.NewReader(bytes.TrimPrefix(data, utf8BOM)))
 	lexer := parser.NewProtobufLexer(in)
 	s := antlr.NewCommonTokenStream(lexer, antlr.TokenDefaultChannel)
 	push(&x.streams, newStreamContext(s))
-- 
2.43.0


From b24f4214743cd6ebe0b0834a21bc7d9902b10b1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:17 +0000
Subject: [PATCH 45/46] fix: generate no NUL and byte order mark characters in
 comments

---
 prutalgen/pkg/prutalgen/comment.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/prutalgen/pkg/prutalgen/comment.go b/prutalgen/pkg/prutalgen/comment.go
index fb5fec7..48cd421 100644
--- a/prutalgen/pkg/prutalgen/comment.go
+++ b/prutalgen/pkg/prutalgen/comment.go
@@ -55,6 +55,13 @@ func filterCommentOrWhitespace(tt []antlr.Token) (ret []antlr.Token, hasComment
 	return ret, true
 }
 
+// invalidGoChars removes the characters which must not be used in Go source code, even in comments
+var invalidGoChars = strings.NewReplacer("\x00", "", "\ufeff", "")
+
+func commentText(t antlr.Token) string {
+	return invalidGoChars.Replace(t.GetText())
+}
+
 func (x *streamContext) consumeHeadComment(c antlr.ParserRuleContext) string {
 	tt, ok := filterCommentOrWhitespace(
 		x.s.GetHiddenTokensToLeft(c.GetStart().GetTokenIndex(), -1),
@@ -70,7 +77,7 @@ func (x *streamContext) consumeHeadComment(c antlr.ParserRuleContext) string {
 		if x.commentConsumed[ti] {
 			break
 		}
-		s := t.GetText()
+		s := commentText(t)
 		if tp == parser.ProtobufParserWS {
 			if strings.Count(s, "\n") > 1 {
 				// normally only one new line between 2 comment tokens are expected
@@ -116,7 +123,7 @@ func (x *streamContext) consumeInlineComment(c antlr.ParserRuleContext) string {
 		}
 		// parser.ProtobufParserLINE_COMMENT or parser.ProtobufParserCOMMENT
 		x.commentConsumed[t.GetTokenIndex()] = true
-		return strings.TrimSpace(t.GetText())
+		return strings.TrimSpace(commentText(t))
 	}
 	return ""
 }
-- 
2.43.0


From 5fd5e3631e4a9f99e2eeae6b01d35019830c1dde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:34 +0000
Subject: [PATCH 46/46] fix: quote arguments with newlines in the header
 comment

---
 prutalgen/pkg/prutalgen/code.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/prutalgen/pkg/prutalgen/code.go b/prutalgen/pkg/prutalgen/code.go
index 2c8fd77..eb2de30 100644
--- a/prutalgen/pkg/prutalgen/code.go
+++ b/prutalgen/pkg/prutalgen/code.go
@@ -51,7 +51,9 @@ var shellsafeRE = regexp.MustCompile(`^[a-zA-Z0-9\-_.=/]+$`)
 func argsQuote(args []string) string {
 	args = append([]string(nil), args...)
 	for i, a := range args {
-		if !shellsafeRE.MatchString(a) {
+		if !strconv.CanBackquote(strings.ReplaceAll(a, "`", "")) {
+			args[i] = strconv.Quote(a) // newlines, control chars or invalid UTF-8, which would break the comment
+		} else if !shellsafeRE.MatchString(a) {
 			args[i] = "'" + strings.ReplaceAll(a, `'`, `\'`) + "'"
 		}
 	}
-- 
2.43.0

