From 2d7a3e1208a6b1d86329bd17e744e1c6afa3d4e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:34 +0000
Subject: [PATCH 01/15] fix: skip fields that are not in the schema when
 decoding

Decode indexed the offsets array with the field id found on the wire and
panicked for any id larger than the largest one in the schema.
---
 zeropb.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/zeropb.go b/zeropb.go
index ee03185..c4c464c 100644
--- a/zeropb.go
+++ b/zeropb.go
@@ -441,7 +441,10 @@ func Decode(buf []byte, offsets Offsets, repeatedFields RepeatedFields) error {
 
 		// TODO(dan): It's odd that we're passing in only the repeatedness of the
 		// field. Maybe pass in some sort of field descriptor instead?
-		if _, ok := repeatedFields[fieldID]; ok {
+		if tag>>3 >= uint64(len(offsets.a)) {
+			// This field isn't in the schema (it was probably written using a newer
+			// version), so there's no place to store its offset. Skip over it.
+		} else if _, ok := repeatedFields[fieldID]; ok {
 			// For a repeated field, set the offset if this is the first one we've
 			// found but don't overwrite an earlier offset. The repeated field
 			// iterator will start from this offset and re-parse the rest of the
-- 
2.43.0


From ec35860b5133337722be82c03013dbba93572a6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:52 +0000
Subject: [PATCH 02/15] fix: return an error from Decode for malformed input

Over-long varints, lengths that overflow an int and wire types other than the
four supported ones made Decode panic or loop forever.
---
 zeropb.go | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/zeropb.go b/zeropb.go
index c4c464c..dacd242 100644
--- a/zeropb.go
+++ b/zeropb.go
@@ -427,7 +427,7 @@ func Decode(buf []byte, offsets Offsets, repeatedFields RepeatedFields) error {
 			return io.ErrUnexpectedEOF
 		}
 		tag, size := binary.Uvarint(buf[idx:])
-		if size == 0 {
+		if size <= 0 {
 			return io.ErrUnexpectedEOF
 		}
 		idx += size
@@ -437,6 +437,11 @@ func Decode(buf []byte, offsets Offsets, repeatedFields RepeatedFields) error {
 
 		fieldID := int(tag >> 3)
 		typ := tag & 0x7
+		switch typ {
+		case proto.WireVarint, proto.WireFixed32, proto.WireFixed64, proto.WireBytes:
+		default:
+			return errors.Errorf(`unsupported type: %d`, typ)
+		}
 		// fmt.Printf("tag=%x field=%d typ=%d idx=%d\n", tag, fieldID, typ, idx)
 
 		// TODO(dan): It's odd that we're passing in only the repeatedness of the
@@ -497,17 +502,21 @@ func fieldDataSize(typ uint64, buf []byte) int {
 	switch typ {
 	case proto.WireVarint:
 		_, size := binary.Uvarint(buf)
+		if size < 0 {
+			// The varint overflows a uint64.
+			return 0
+		}
 		return size
 	case proto.WireFixed32:
 		return 4
 	case proto.WireFixed64:
 		return 8
 	case proto.WireBytes:
-		len, lenSize := binary.Uvarint(buf)
-		if lenSize == 0 {
+		dataLen, lenSize := binary.Uvarint(buf)
+		if lenSize <= 0 || dataLen > uint64(len(buf)-lenSize) {
 			return 0
 		}
-		return lenSize + int(len)
+		return lenSize + int(dataLen)
 	default:
 		panic(errors.Errorf(`unsupported type: %d`, typ))
 	}
-- 
2.43.0


From 03c09029e3224707340f0ee57357f12036e89dbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:52 +0000
Subject: [PATCH 03/15] fix: limit the capacity of slices handed out from the
 message

Appending to a bytes field, or growing an embedded message read from its
parent, overwrote the fields that follow it in the parent.
---
 zeropb.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/zeropb.go b/zeropb.go
index dacd242..82f8329 100644
--- a/zeropb.go
+++ b/zeropb.go
@@ -165,7 +165,9 @@ func GetBytes(buf []byte, offsets Offsets, fieldID int) []byte {
 	}
 	len, lenSize := binary.Uvarint(buf[offset:])
 	offset += uint64(lenSize)
-	return buf[offset : offset+len]
+	// Limit the capacity so that appending to the returned slice can't overwrite
+	// whatever follows it in the message.
+	return buf[offset : offset+len : offset+len]
 }
 
 // SetBool set an encoded bool field with the given field id, overwriting an
@@ -484,7 +486,9 @@ func FindNextField(buf []byte, field int) ([]byte, []byte) {
 	// NB: FindNextField doesn't do the same bounds checking that Decode does
 	// because Decode has already validated the input.
 	msgLen, lenSize := binary.Uvarint(buf)
-	msg := buf[lenSize : lenSize+int(msgLen)]
+	// Limit the capacity so that appending to the returned slice can't overwrite
+	// whatever follows it in the message.
+	msg := buf[lenSize : lenSize+int(msgLen) : lenSize+int(msgLen)]
 	for idx := lenSize + int(msgLen); idx < len(buf); {
 		tag, size := binary.Uvarint(buf[idx:])
 		idx += size
-- 
2.43.0


From eec5a84cf88b2ebeb8fdcfe06cdafc32e8e67871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:52 +0000
Subject: [PATCH 04/15] fix: allow a message's own values to be stored back
 into it

Replacing a field with one of a different size moves the rest of the message,
so a value that was read from the same message changed before it was copied.
---
 zeropb.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/zeropb.go b/zeropb.go
index 82f8329..b8475cb 100644
--- a/zeropb.go
+++ b/zeropb.go
@@ -357,6 +357,12 @@ func setSingle(buf *[]byte, offsets Offsets, fieldID, typ int, valLen, val []byt
 			return
 		}
 
+		// The new value may be a view of this message (say, a field read from it).
+		// Removing the old value moves the bytes under it, so take a copy first.
+		if overlaps(*buf, val) {
+			val = append([]byte(nil), val...)
+		}
+
 		fieldBegin, fieldEnd := offset-uint64(tagLen), offset+uint64(oldLen)
 		// TODO(dan): sanity check that we got the same tag bytes here?
 		copy((*buf)[fieldBegin:], (*buf)[fieldEnd:])
@@ -390,6 +396,15 @@ func setSingle(buf *[]byte, offsets Offsets, fieldID, typ int, valLen, val []byt
 	*buf = append(*buf, val...)
 }
 
+// overlaps returns true if the two slices share any memory.
+func overlaps(a, b []byte) bool {
+	if len(a) == 0 || len(b) == 0 {
+		return false
+	}
+	aBegin, bBegin := uintptr(unsafe.Pointer(&a[0])), uintptr(unsafe.Pointer(&b[0]))
+	return aBegin < bBegin+uintptr(len(b)) && bBegin < aBegin+uintptr(len(a))
+}
+
 func appendSingle(buf *[]byte, offsets Offsets, fieldID, typ int, valLen, val []byte) {
 	var scratch [binary.MaxVarintLen64]byte
 
-- 
2.43.0


From fdc4f4b362adbb1c146c230bc08f88503a6ed279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:26 +0000
Subject: [PATCH 05/15] fix: replace the whole field when its tag is not
 minimally encoded

The tag was assumed to be in its shortest form when cutting out the old value,
which left part of a longer one behind and corrupted the message.
---
 zeropb.go | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/zeropb.go b/zeropb.go
index b8475cb..26c74a7 100644
--- a/zeropb.go
+++ b/zeropb.go
@@ -363,8 +363,7 @@ func setSingle(buf *[]byte, offsets Offsets, fieldID, typ int, valLen, val []byt
 			val = append([]byte(nil), val...)
 		}
 
-		fieldBegin, fieldEnd := offset-uint64(tagLen), offset+uint64(oldLen)
-		// TODO(dan): sanity check that we got the same tag bytes here?
+		fieldBegin, fieldEnd := tagBegin(*buf, offset, fieldID), offset+uint64(oldLen)
 		copy((*buf)[fieldBegin:], (*buf)[fieldEnd:])
 		removedBytes := fieldEnd - fieldBegin
 		(*buf) = (*buf)[:uint64(len(*buf))-removedBytes]
@@ -396,6 +395,24 @@ func setSingle(buf *[]byte, offsets Offsets, fieldID, typ int, valLen, val []byt
 	*buf = append(*buf, val...)
 }
 
+// tagBegin returns the position of the first byte of the tag of the given field,
+// given the position right after it (i.e. its offset).
+//
+// A tag may have been encoded using more bytes than necessary, in which case it
+// ends with a 0x00 byte preceded by any number of 0x80 bytes. Neither can be the
+// last byte of a tag in its shortest form, so it's always clear which it is.
+func tagBegin(buf []byte, offset uint64, fieldID int) uint64 {
+	last := offset - 1
+	if buf[last] == 0x00 && last > 0 {
+		for last--; buf[last] == 0x80 && last > 0; last-- {
+		}
+	}
+	for tag := uint64(fieldID) << 3; tag >= 0x80 && last > 0; tag >>= 7 {
+		last--
+	}
+	return last
+}
+
 // overlaps returns true if the two slices share any memory.
 func overlaps(a, b []byte) bool {
 	if len(a) == 0 || len(b) == 0 {
-- 
2.43.0


From 1027ff7e82ae953407ad7bb67a33972eab9f32ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:34 +0000
Subject: [PATCH 06/15] fix: do not misread fields encoded with an unexpected
 wire type

A field whose wire type doesn't match the schema was read as if it did, which
returned values made up from unrelated bytes, panicked, or, when the field was
set, cut the wrong bytes out of the message. Treat it as not present instead.
---
 zeropb.go | 73 +++++++++++++++++++++++++++++++++++++------------------
 1 file changed, 49 insertions(+), 24 deletions(-)

diff --git a/zeropb.go b/zeropb.go
index 26c74a7..5877ea9 100644
--- a/zeropb.go
+++ b/zeropb.go
@@ -15,7 +15,7 @@ import (
 
 // GetBool gets an encoded bool field with the given field id.
 func GetBool(buf []byte, offsets Offsets, fieldID int) bool {
-	offset, ok := offsets.Get(fieldID)
+	offset, ok := getOffset(buf, offsets, fieldID, proto.WireVarint)
 	if !ok {
 		return false
 	}
@@ -25,7 +25,7 @@ func GetBool(buf []byte, offsets Offsets, fieldID int) bool {
 
 // GetInt32 gets an encoded int32 field with the given field id.
 func GetInt32(buf []byte, offsets Offsets, fieldID int) int32 {
-	offset, ok := offsets.Get(fieldID)
+	offset, ok := getOffset(buf, offsets, fieldID, proto.WireVarint)
 	if !ok {
 		return 0
 	}
@@ -35,7 +35,7 @@ func GetInt32(buf []byte, offsets Offsets, fieldID int) int32 {
 
 // GetInt64 gets an encoded int64 field with the given field id.
 func GetInt64(buf []byte, offsets Offsets, fieldID int) int64 {
-	offset, ok := offsets.Get(fieldID)
+	offset, ok := getOffset(buf, offsets, fieldID, proto.WireVarint)
 	if !ok {
 		return 0
 	}
@@ -45,7 +45,7 @@ func GetInt64(buf []byte, offsets Offsets, fieldID int) int64 {
 
 // GetUint32 gets an encoded uint32 field with the given field id.
 func GetUint32(buf []byte, offsets Offsets, fieldID int) uint32 {
-	offset, ok := offsets.Get(fieldID)
+	offset, ok := getOffset(buf, offsets, fieldID, proto.WireVarint)
 	if !ok {
 		return 0
 	}
@@ -55,7 +55,7 @@ func GetUint32(buf []byte, offsets Offsets, fieldID int) uint32 {
 
 // GetUint64 gets an encoded uint64 field with the given field id.
 func GetUint64(buf []byte, offsets Offsets, fieldID int) uint64 {
-	offset, ok := offsets.Get(fieldID)
+	offset, ok := getOffset(buf, offsets, fieldID, proto.WireVarint)
 	if !ok {
 		return 0
 	}
@@ -65,7 +65,7 @@ func GetUint64(buf []byte, offsets Offsets, fieldID int) uint64 {
 
 // GetZigZagInt32 gets a zig-zag encoded int32 field with the given field id.
 func GetZigZagInt32(buf []byte, offsets Offsets, fieldID int) int32 {
-	offset, ok := offsets.Get(fieldID)
+	offset, ok := getOffset(buf, offsets, fieldID, proto.WireVarint)
 	if !ok {
 		return 0
 	}
@@ -75,7 +75,7 @@ func GetZigZagInt32(buf []byte, offsets Offsets, fieldID int) int32 {
 
 // GetZigZagInt64 gets a zig-zag encoded int64 field with the given field id.
 func GetZigZagInt64(buf []byte, offsets Offsets, fieldID int) int64 {
-	offset, ok := offsets.Get(fieldID)
+	offset, ok := getOffset(buf, offsets, fieldID, proto.WireVarint)
 	if !ok {
 		return 0
 	}
@@ -86,7 +86,7 @@ func GetZigZagInt64(buf []byte, offsets Offsets, fieldID int) int64 {
 // GetFixedUint32 gets a little-endian encoded uint32 field with the given field
 // id.
 func GetFixedUint32(buf []byte, offsets Offsets, fieldID int) uint32 {
-	offset, ok := offsets.Get(fieldID)
+	offset, ok := getOffset(buf, offsets, fieldID, proto.WireFixed32)
 	if !ok {
 		return 0
 	}
@@ -96,7 +96,7 @@ func GetFixedUint32(buf []byte, offsets Offsets, fieldID int) uint32 {
 // GetFixedUint64 gets a little-endian encoded uint64 field with the given field
 // id.
 func GetFixedUint64(buf []byte, offsets Offsets, fieldID int) uint64 {
-	offset, ok := offsets.Get(fieldID)
+	offset, ok := getOffset(buf, offsets, fieldID, proto.WireFixed64)
 	if !ok {
 		return 0
 	}
@@ -106,7 +106,7 @@ func GetFixedUint64(buf []byte, offsets Offsets, fieldID int) uint64 {
 // GetFixedInt32 gets a little-endian encoded int32 field with the given field
 // id.
 func GetFixedInt32(buf []byte, offsets Offsets, fieldID int) int32 {
-	offset, ok := offsets.Get(fieldID)
+	offset, ok := getOffset(buf, offsets, fieldID, proto.WireFixed32)
 	if !ok {
 		return 0
 	}
@@ -116,7 +116,7 @@ func GetFixedInt32(buf []byte, offsets Offsets, fieldID int) int32 {
 // GetFixedInt64 gets a little-endian encoded int64 field with the given field
 // id.
 func GetFixedInt64(buf []byte, offsets Offsets, fieldID int) int64 {
-	offset, ok := offsets.Get(fieldID)
+	offset, ok := getOffset(buf, offsets, fieldID, proto.WireFixed64)
 	if !ok {
 		return 0
 	}
@@ -126,7 +126,7 @@ func GetFixedInt64(buf []byte, offsets Offsets, fieldID int) int64 {
 // GetFloat32 gets a little-endian, IEEE 754 encoded float32 field with the
 // given field id.
 func GetFloat32(buf []byte, offsets Offsets, fieldID int) float32 {
-	offset, ok := offsets.Get(fieldID)
+	offset, ok := getOffset(buf, offsets, fieldID, proto.WireFixed32)
 	if !ok {
 		return 0
 	}
@@ -137,7 +137,7 @@ func GetFloat32(buf []byte, offsets Offsets, fieldID int) float32 {
 // GetFloat64 gets a little-endian, IEEE 754 encoded float64 field with the
 // given field id.
 func GetFloat64(buf []byte, offsets Offsets, fieldID int) float64 {
-	offset, ok := offsets.Get(fieldID)
+	offset, ok := getOffset(buf, offsets, fieldID, proto.WireFixed64)
 	if !ok {
 		return 0
 	}
@@ -147,7 +147,7 @@ func GetFloat64(buf []byte, offsets Offsets, fieldID int) float64 {
 
 // GetString gets an encoded string field with the given field id.
 func GetString(buf []byte, offsets Offsets, fieldID int) string {
-	offset, ok := offsets.Get(fieldID)
+	offset, ok := getOffset(buf, offsets, fieldID, proto.WireBytes)
 	if !ok {
 		return ``
 	}
@@ -159,7 +159,7 @@ func GetString(buf []byte, offsets Offsets, fieldID int) string {
 
 // GetBytes gets an encoded []byte field with the given field id.
 func GetBytes(buf []byte, offsets Offsets, fieldID int) []byte {
-	offset, ok := offsets.Get(fieldID)
+	offset, ok := getOffset(buf, offsets, fieldID, proto.WireBytes)
 	if !ok {
 		return nil
 	}
@@ -334,8 +334,11 @@ func setSingle(buf *[]byte, offsets Offsets, fieldID, typ int, valLen, val []byt
 	tagLen := binary.PutUvarint(scratch[:], tag)
 
 	if offset, ok := offsets.Get(fieldID); ok {
+		// The old value may have been decoded with a different type.
+		oldTagBegin := tagBegin(*buf, offset, fieldID)
+		oldTyp := int((*buf)[oldTagBegin] & 0x7)
 		var oldLen int
-		switch typ {
+		switch oldTyp {
 		case proto.WireVarint:
 			_, oldLen = binary.Uvarint((*buf)[offset:])
 		case proto.WireFixed32:
@@ -346,12 +349,12 @@ func setSingle(buf *[]byte, offsets Offsets, fieldID, typ int, valLen, val []byt
 			oldValLen, oldValLenLen := binary.Uvarint((*buf)[offset:])
 			oldLen = int(oldValLen) + oldValLenLen
 		default:
-			panic(typ)
+			panic(oldTyp)
 		}
 
 		// Performance optimization: if the new value is exactly the same length as
 		// the old one, simply overwrite it.
-		if int(oldLen) == len(valLen)+len(val) {
+		if oldTyp == typ && int(oldLen) == len(valLen)+len(val) {
 			offset += uint64(copy((*buf)[offset:], valLen))
 			offset += uint64(copy((*buf)[offset:], val))
 			return
@@ -363,7 +366,7 @@ func setSingle(buf *[]byte, offsets Offsets, fieldID, typ int, valLen, val []byt
 			val = append([]byte(nil), val...)
 		}
 
-		fieldBegin, fieldEnd := tagBegin(*buf, offset, fieldID), offset+uint64(oldLen)
+		fieldBegin, fieldEnd := oldTagBegin, offset+uint64(oldLen)
 		copy((*buf)[fieldBegin:], (*buf)[fieldEnd:])
 		removedBytes := fieldEnd - fieldBegin
 		(*buf) = (*buf)[:uint64(len(*buf))-removedBytes]
@@ -395,6 +398,17 @@ func setSingle(buf *[]byte, offsets Offsets, fieldID, typ int, valLen, val []byt
 	*buf = append(*buf, val...)
 }
 
+// getOffset returns the offset of the given field or false if it's not present.
+// The field is also considered not present if the encoded message has it with
+// some type other than the requested one.
+func getOffset(buf []byte, offsets Offsets, fieldID, typ int) (uint64, bool) {
+	offset, ok := offsets.Get(fieldID)
+	if !ok || int(buf[tagBegin(buf, offset, fieldID)]&0x7) != typ {
+		return 0, false
+	}
+	return offset, true
+}
+
 // tagBegin returns the position of the first byte of the tag of the given field,
 // given the position right after it (i.e. its offset).
 //
@@ -447,7 +461,12 @@ func GetRepeatedNonPacked(buf []byte, offsets Offsets, fieldID int) []byte {
 	if !ok {
 		return nil
 	}
-	return buf[offset:]
+	buf, typ := buf[offset:], uint64(buf[tagBegin(buf, offset, fieldID)]&0x7)
+	if typ != proto.WireBytes {
+		// Skip to the first one that does have the right type.
+		return findField(buf[fieldDataSize(typ, buf):], fieldID)
+	}
+	return buf
 }
 
 // Decode parses and validates a proto message, filling in a map of field id ->
@@ -521,17 +540,23 @@ func FindNextField(buf []byte, field int) ([]byte, []byte) {
 	// Limit the capacity so that appending to the returned slice can't overwrite
 	// whatever follows it in the message.
 	msg := buf[lenSize : lenSize+int(msgLen) : lenSize+int(msgLen)]
-	for idx := lenSize + int(msgLen); idx < len(buf); {
+	return findField(buf[lenSize+int(msgLen):], field), msg
+}
+
+// findField parses tags and their data, returning what's left of buf after the
+// first tag of the given field that has a bytes type, or nil if there is none.
+func findField(buf []byte, field int) []byte {
+	for idx := 0; idx < len(buf); {
 		tag, size := binary.Uvarint(buf[idx:])
 		idx += size
 		f := int(tag >> 3)
 		typ := tag & 0x7
-		if f == field {
-			return buf[idx:], msg
+		if f == field && typ == proto.WireBytes {
+			return buf[idx:]
 		}
 		idx += fieldDataSize(typ, buf[idx:])
 	}
-	return nil, msg
+	return nil
 }
 
 func fieldDataSize(typ uint64, buf []byte) int {
-- 
2.43.0


From 473e527d5fbff459c70c0d6c58f599323d42bd5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:35 +0000
Subject: [PATCH 07/15] fix: only replace the .proto suffix when naming
 generated files

Every occurrence of .proto in the path was replaced, including ones in
directory names.
---
 generate/generate.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/generate/generate.go b/generate/generate.go
index 865c09f..0642a17 100644
--- a/generate/generate.go
+++ b/generate/generate.go
@@ -49,7 +49,7 @@ func generateFile(req *FileDescriptorProto) (*CodeGeneratorResponse_File, error)
 		generateMessage(st, indent, *m)
 	}
 
-	name := strings.ReplaceAll(req.GetName(), `.proto`, `.zeropb.go`)
+	name := strings.TrimSuffix(req.GetName(), `.proto`) + `.zeropb.go`
 	content := buf.String()
 	res := &CodeGeneratorResponse_File{Name: &name, Content: &content}
 	return res, nil
-- 
2.43.0


From 4ff02a51c1c8a45914fa2860feb3d9b3181f60a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:35 +0000
Subject: [PATCH 08/15] fix: do not import zeropb in generated files without
 messages

The import was unused, so the generated file didn't compile.
---
 generate/generate.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/generate/generate.go b/generate/generate.go
index 0642a17..5dafaec 100644
--- a/generate/generate.go
+++ b/generate/generate.go
@@ -40,7 +40,10 @@ func generateFile(req *FileDescriptorProto) (*CodeGeneratorResponse_File, error)
 	st.Write(indent, "// Code generated by protoc-gen-zeropb. DO NOT EDIT.\n\n")
 	// TODO(dan): Use the go package if it's set.
 	st.Write(indent, "package ", req.GetPackage(), "\n\n")
-	st.Write(indent, `import "github.com/danhhz/zeropb"`, "\n\n")
+	if len(req.MessageType) > 0 {
+		// Go doesn't allow unused imports.
+		st.Write(indent, `import "github.com/danhhz/zeropb"`, "\n\n")
+	}
 
 	for _, m := range req.MessageType {
 		if m == nil {
-- 
2.43.0


From 5ac3daf9477d1d5fe65ef4089b371557c9689762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:36 +0000
Subject: [PATCH 09/15] fix: generate a valid go package name for every proto
 package

Proto packages with dots in them, missing proto packages and ones that are go
keywords were copied as they are, so the generated file didn't compile.
---
 generate/generate.go | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/generate/generate.go b/generate/generate.go
index 5dafaec..ca26314 100644
--- a/generate/generate.go
+++ b/generate/generate.go
@@ -3,6 +3,8 @@
 package generate
 
 import (
+	"go/token"
+	"path"
 	"strings"
 	"unicode"
 )
@@ -39,7 +41,7 @@ func generateFile(req *FileDescriptorProto) (*CodeGeneratorResponse_File, error)
 	var indent StringTreeIndent
 	st.Write(indent, "// Code generated by protoc-gen-zeropb. DO NOT EDIT.\n\n")
 	// TODO(dan): Use the go package if it's set.
-	st.Write(indent, "package ", req.GetPackage(), "\n\n")
+	st.Write(indent, "package ", goPackageName(req), "\n\n")
 	if len(req.MessageType) > 0 {
 		// Go doesn't allow unused imports.
 		st.Write(indent, `import "github.com/danhhz/zeropb"`, "\n\n")
@@ -58,6 +60,25 @@ func generateFile(req *FileDescriptorProto) (*CodeGeneratorResponse_File, error)
 	return res, nil
 }
 
+// goPackageName returns the proto package as a valid go package name. If there
+// isn't one, it's derived from the name of the file.
+func goPackageName(req *FileDescriptorProto) string {
+	name := req.GetPackage()
+	if name == `` {
+		name = strings.TrimSuffix(path.Base(req.GetName()), `.proto`)
+	}
+	name = strings.Map(func(r rune) rune {
+		if !unicode.IsLetter(r) && !unicode.IsDigit(r) {
+			return '_'
+		}
+		return r
+	}, name)
+	if token.Lookup(name).IsKeyword() || strings.IndexFunc(name, unicode.IsDigit) == 0 {
+		name = `_` + name
+	}
+	return name
+}
+
 func generateMessage(st *StringTree, indent StringTreeIndent, m DescriptorProto) {
 	messageGoType := m.GetName()
 
-- 
2.43.0


From cdc371295e2fd05ac3309d148d774c80fc0853b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:10 +0000
Subject: [PATCH 10/15] fix: give every generated method and iterator its own
 name

Several repeated fields of one message type, and fields whose accessors are
named like each other or like the methods every message has (for example one
called encode, or foo next to set_foo), produced code that didn't compile.
---
 generate/generate.go | 59 ++++++++++++++++++++++++++++++++++++++------
 1 file changed, 51 insertions(+), 8 deletions(-)

diff --git a/generate/generate.go b/generate/generate.go
index ca26314..5cb835f 100644
--- a/generate/generate.go
+++ b/generate/generate.go
@@ -47,11 +47,15 @@ func generateFile(req *FileDescriptorProto) (*CodeGeneratorResponse_File, error)
 		st.Write(indent, `import "github.com/danhhz/zeropb"`, "\n\n")
 	}
 
+	typeNames := names{}
+	for _, m := range req.MessageType {
+		typeNames.add(m.GetName())
+	}
 	for _, m := range req.MessageType {
 		if m == nil {
 			continue
 		}
-		generateMessage(st, indent, *m)
+		generateMessage(st, indent, *m, typeNames)
 	}
 
 	name := strings.TrimSuffix(req.GetName(), `.proto`) + `.zeropb.go`
@@ -79,7 +83,9 @@ func goPackageName(req *FileDescriptorProto) string {
 	return name
 }
 
-func generateMessage(st *StringTree, indent StringTreeIndent, m DescriptorProto) {
+func generateMessage(
+	st *StringTree, indent StringTreeIndent, m DescriptorProto, typeNames names,
+) {
 	messageGoType := m.GetName()
 
 	var largestFieldID int32
@@ -122,6 +128,8 @@ func generateMessage(st *StringTree, indent StringTreeIndent, m DescriptorProto)
 	st.Write(indent.Next(), offsets, ".Clear()\n")
 	st.Write(indent, "}\n\n")
 
+	methodNames := names{}
+	methodNames.add(`Encode`, `Decode`, `Reset`)
 	for _, f := range m.Field {
 		if f == nil {
 			continue
@@ -130,14 +138,14 @@ func generateMessage(st *StringTree, indent StringTreeIndent, m DescriptorProto)
 		case FieldDescriptorProto_LABEL_OPTIONAL, FieldDescriptorProto_LABEL_REQUIRED:
 			switch f.GetType() {
 			case FieldDescriptorProto_TYPE_MESSAGE:
-				generateMessageField(st, indent, messageGoType, *f)
+				generateMessageField(st, indent, messageGoType, *f, methodNames)
 			default:
-				generateSimpleField(st, indent, messageGoType, *f)
+				generateSimpleField(st, indent, messageGoType, *f, methodNames)
 			}
 		case FieldDescriptorProto_LABEL_REPEATED:
 			switch f.GetType() {
 			case FieldDescriptorProto_TYPE_MESSAGE:
-				generateRepeatedMessageField(st, indent, messageGoType, *f)
+				generateRepeatedMessageField(st, indent, messageGoType, *f, methodNames, typeNames)
 			default:
 				// WIP implement repeated simple fields
 				continue
@@ -148,8 +156,9 @@ func generateMessage(st *StringTree, indent StringTreeIndent, m DescriptorProto)
 
 func generateSimpleField(
 	st *StringTree, indent StringTreeIndent, messageGoType string, f FieldDescriptorProto,
+	methodNames names,
 ) {
-	fieldGoName := toGoCase(f.GetName())
+	fieldGoName := methodNames.unique(toGoCase(f.GetName()), ``, `Set`)
 	fieldGoType, fieldFnName := fieldToGoTypeSimple(f.GetType())
 
 	st.Write(indent, "func (m *", messageGoType, ") ", fieldGoName, "() ", fieldGoType, " {\n")
@@ -163,8 +172,9 @@ func generateSimpleField(
 
 func generateMessageField(
 	st *StringTree, indent StringTreeIndent, messageGoType string, f FieldDescriptorProto,
+	methodNames names,
 ) {
-	fieldGoName := toGoCase(f.GetName())
+	fieldGoName := methodNames.unique(toGoCase(f.GetName()), ``, `Set`)
 	fieldGoType := fieldToGoTypeMessage(f.GetTypeName())
 
 	st.Write(indent, "func (m *", messageGoType, ") ", fieldGoName, "(x *", fieldGoType, ") (bool, error) {\n")
@@ -183,10 +193,16 @@ func generateMessageField(
 
 func generateRepeatedMessageField(
 	st *StringTree, indent StringTreeIndent, messageGoType string, f FieldDescriptorProto,
+	methodNames, typeNames names,
 ) {
-	fieldGoName := toGoCase(f.GetName())
+	fieldGoName := methodNames.unique(toGoCase(f.GetName()), ``, `AppendTo`)
 	fieldGoType := fieldToGoTypeMessage(f.GetTypeName())
 	itGoType := messageGoType + fieldGoType + "Iterator"
+	if _, ok := typeNames[itGoType]; ok {
+		// There's more than one repeated field with this type.
+		itGoType = messageGoType + fieldGoName + fieldGoType + "Iterator"
+	}
+	itGoType = typeNames.unique(itGoType, ``)
 
 	st.Write(indent, "type ", itGoType, " []byte\n\n")
 
@@ -209,6 +225,33 @@ func generateRepeatedMessageField(
 	st.Write(indent, "}\n\n")
 }
 
+// names is a set of go identifiers that are already taken in some scope.
+type names map[string]struct{}
+
+func (n names) add(strs ...string) {
+	for _, s := range strs {
+		n[s] = struct{}{}
+	}
+}
+
+// unique returns the given name, changed as little as necessary to be a valid
+// identifier and to not be taken with any of the given prefixes, all of which
+// are then added to the set.
+func (n names) unique(name string, prefixes ...string) string {
+	if name == `` || strings.IndexFunc(name, unicode.IsDigit) == 0 {
+		name = `X` + name
+	}
+	for i := 0; i < len(prefixes); i++ {
+		if _, ok := n[prefixes[i]+name]; ok {
+			name, i = name+`_`, -1
+		}
+	}
+	for _, prefix := range prefixes {
+		n.add(prefix + name)
+	}
+	return name
+}
+
 func toGoCase(s string) string {
 	titleNext := true
 	mapFn := func(r rune) rune {
-- 
2.43.0


From c240200a95e7e077f4dace73f535c0f7e5445c92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:10 +0000
Subject: [PATCH 11/15] fix: exit with a non-zero status when a plugin fails

protoc otherwise takes the failure for a success that generated nothing.
---
 cmd/protoc-gen-text/main.go   | 1 +
 cmd/protoc-gen-zeropb/main.go | 1 +
 2 files changed, 2 insertions(+)

diff --git a/cmd/protoc-gen-text/main.go b/cmd/protoc-gen-text/main.go
index 815ad11..369de75 100644
--- a/cmd/protoc-gen-text/main.go
+++ b/cmd/protoc-gen-text/main.go
@@ -29,5 +29,6 @@ func run() error {
 func main() {
 	if err := run(); err != nil {
 		fmt.Fprintf(os.Stderr, "%+v\n", err)
+		os.Exit(1)
 	}
 }
diff --git a/cmd/protoc-gen-zeropb/main.go b/cmd/protoc-gen-zeropb/main.go
index 2915585..97a5529 100644
--- a/cmd/protoc-gen-zeropb/main.go
+++ b/cmd/protoc-gen-zeropb/main.go
@@ -37,5 +37,6 @@ func run() error {
 func main() {
 	if err := run(); err != nil {
 		fmt.Fprintf(os.Stderr, "%+v\n", err)
+		os.Exit(1)
 	}
 }
-- 
2.43.0


From 48741a23bae4ca0f5ffe274b890ae264d6b03067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:06 +0000
Subject: [PATCH 12/15] fix: keep the string passed to SetString alive while
 it's stored

---
 zeropb.go | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/zeropb.go b/zeropb.go
index 5877ea9..dd612b4 100644
--- a/zeropb.go
+++ b/zeropb.go
@@ -6,7 +6,6 @@ import (
 	"encoding/binary"
 	"io"
 	"math"
-	"reflect"
 	"unsafe"
 
 	"github.com/golang/protobuf/proto"
@@ -296,12 +295,12 @@ func SetFloat64(buf *[]byte, offsets Offsets, fieldID int, x float64) {
 // old value if present.
 func SetString(buf *[]byte, offsets Offsets, fieldID int, x string) {
 	var scratch [binary.MaxVarintLen64]byte
-	hdr := *(*reflect.StringHeader)(unsafe.Pointer(&x))
-	data := *(*[]byte)(unsafe.Pointer(&reflect.SliceHeader{
-		Data: hdr.Data,
-		Len:  hdr.Len,
-		Cap:  hdr.Len,
-	}))
+	// Never hold the address of the string data as just a uintptr (such as in a
+	// reflect.StringHeader), the garbage collector could free it.
+	data := *(*[]byte)(unsafe.Pointer(&struct {
+		x   string
+		cap int
+	}{x, len(x)}))
 	n := binary.PutUvarint(scratch[:], uint64(len(data)))
 	var valLen, val []byte = scratch[:n], data
 	setSingle(buf, offsets, fieldID, proto.WireBytes, valLen, val)
-- 
2.43.0


From 9e56c69cd756008de6fd55c1bce0257d30f696af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:59 +0000
Subject: [PATCH 13/15] fix: store a view that includes the field's own old
 length intact

---
 zeropb.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/zeropb.go b/zeropb.go
index dd612b4..d27a668 100644
--- a/zeropb.go
+++ b/zeropb.go
@@ -354,8 +354,10 @@ func setSingle(buf *[]byte, offsets Offsets, fieldID, typ int, valLen, val []byt
 		// Performance optimization: if the new value is exactly the same length as
 		// the old one, simply overwrite it.
 		if oldTyp == typ && int(oldLen) == len(valLen)+len(val) {
-			offset += uint64(copy((*buf)[offset:], valLen))
-			offset += uint64(copy((*buf)[offset:], val))
+			// The new value may be a view of this message that includes the old
+			// length, so don't overwrite that until the value has been copied.
+			copy((*buf)[offset+uint64(len(valLen)):], val)
+			copy((*buf)[offset:], valLen)
 			return
 		}
 
-- 
2.43.0


From ee8efeeab9141d4827307fb4e23f8b02bec09a5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:29 +0000
Subject: [PATCH 14/15] fix: compute tags in 64 bits also where an int has 32

---
 zeropb.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/zeropb.go b/zeropb.go
index d27a668..dda2328 100644
--- a/zeropb.go
+++ b/zeropb.go
@@ -329,7 +329,7 @@ func setSingle(buf *[]byte, offsets Offsets, fieldID, typ int, valLen, val []byt
 	// default value.
 
 	var scratch [binary.MaxVarintLen64]byte
-	tag := uint64(fieldID<<3 | typ)
+	tag := uint64(fieldID)<<3 | uint64(typ)
 	tagLen := binary.PutUvarint(scratch[:], tag)
 
 	if offset, ok := offsets.Get(fieldID); ok {
@@ -440,7 +440,7 @@ func overlaps(a, b []byte) bool {
 func appendSingle(buf *[]byte, offsets Offsets, fieldID, typ int, valLen, val []byte) {
 	var scratch [binary.MaxVarintLen64]byte
 
-	tag := uint64(fieldID<<3 | typ)
+	tag := uint64(fieldID)<<3 | uint64(typ)
 	tagLen := binary.PutUvarint(scratch[:], tag)
 	*buf = append(*buf, scratch[:tagLen]...)
 
-- 
2.43.0


From a5d8712a6c1287b8c054c05463fdbcab98b0511c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:00:42 +0000
Subject: [PATCH 15/15] fix: never use the blank identifier or nothing as the
 package name

---
 generate/generate.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/generate/generate.go b/generate/generate.go
index 5cb835f..d24a4e4 100644
--- a/generate/generate.go
+++ b/generate/generate.go
@@ -77,7 +77,8 @@ func goPackageName(req *FileDescriptorProto) string {
 		}
 		return r
 	}, name)
-	if token.Lookup(name).IsKeyword() || strings.IndexFunc(name, unicode.IsDigit) == 0 {
+	// The blank identifier isn't a valid package name either.
+	for name == `` || name == `_` || token.Lookup(name).IsKeyword() || strings.IndexFunc(name, unicode.IsDigit) == 0 {
 		name = `_` + name
 	}
 	return name
-- 
2.43.0

