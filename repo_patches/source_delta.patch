From 800741bb5ea3598db658da3216bca5181db7087e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:49 +0000
Subject: [PATCH 01/55] fix: carry a whole byte when a skip completes it

skipBits compared the bit counter with > 8, so skipping to exactly a byte
boundary left the counter at 8 and broke everything that followed.
---
 decoder.go | 2 +-
 encoder.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/decoder.go b/decoder.go
index 64e942c..18720de 100644
--- a/decoder.go
+++ b/decoder.go
@@ -152,7 +152,7 @@ func (d *decoder) readBytes(count int) []byte {
 
 func (d *decoder) skipBits(count int) {
 	d.bitCounter += uint8(count % 8)
-	if d.bitCounter > 8 {
+	if d.bitCounter >= 8 {
 		d.bitCounter -= 8
 		count += 8
 	}
diff --git a/encoder.go b/encoder.go
index b783ffc..c47e4aa 100644
--- a/encoder.go
+++ b/encoder.go
@@ -111,7 +111,7 @@ func (e *encoder) writeS64(f field, x int64) { e.write64(f, uint64(x)) }
 
 func (e *encoder) skipBits(count int) {
 	e.bitCounter += count % 8
-	if e.bitCounter > 8 {
+	if e.bitCounter >= 8 {
 		e.bitCounter -= 8
 		count += 8
 	}
-- 
2.43.0


From fc0706ffdb136346cf65f434b94eab404e05cc8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:51 +0000
Subject: [PATCH 02/55] fix: count skip and if when sizing bit fields

The size of a bit field ignored its skip, and inside a struct its if
expression as well, so Pack allocated too little or too much.
---
 structstack.go | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/structstack.go b/structstack.go
index 6e056a5..edb6d88 100644
--- a/structstack.go
+++ b/structstack.go
@@ -149,7 +149,7 @@ func (s *structstack) fieldbits(f field, val reflect.Value) (size int) {
 	}
 
 	if b := s.evalBits(f); b != 0 {
-		return b
+		return b + skipBits
 	}
 
 	alen := 1
@@ -208,11 +208,7 @@ func (s *structstack) fieldbits(f field, val reflect.Value) (size int) {
 		size += skipBits
 		s.push(val)
 		for _, field := range cachedFieldsFromStruct(f.BinaryType) {
-			if field.BitSize != 0 {
-				size += int(field.BitSize)
-			} else {
-				size += s.fieldbits(field, val.Field(field.Index))
-			}
+			size += s.fieldbits(field, val.Field(field.Index))
 		}
 		s.pop(val)
 		return size
-- 
2.43.0


From dd4661448a52622e16e5ff532f6e660f514fad22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:30 +0000
Subject: [PATCH 03/55] fix: size pointers like they are encoded

The size of a pointer field left out its skip, and a nil pointer, which the
encoder skips, was an error when sizing, so Pack could never write one.
---
 structstack.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/structstack.go b/structstack.go
index edb6d88..ef859e6 100644
--- a/structstack.go
+++ b/structstack.go
@@ -190,7 +190,11 @@ func (s *structstack) fieldbits(f field, val reflect.Value) (size int) {
 
 		switch f.NativeType.Kind() {
 		case reflect.Ptr:
-			return s.fieldbits(f.Elem(), val.Elem())
+			// Nil pointers are not encoded.
+			if val.IsNil() {
+				return size
+			}
+			return size + s.fieldbits(f.Elem(), val.Elem())
 		case reflect.Slice, reflect.String, reflect.Array:
 			// Optimization: if the element type is trivial, we can derive the
 			// length from a single element.
-- 
2.43.0


From 933fefcb62f76982e2b0554954efda7757e1fed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:49 +0000
Subject: [PATCH 04/55] fix: do not treat types of varying size as
 constant-size

The constant-size shortcut took structs with if, bits or switch fields,
pointers and types with their own SizeOf for constant-size, so slices of them
got the size of a zero element times the length. Following pointers also
overflowed the stack on recursive types.
---
 field.go | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/field.go b/field.go
index ad64761..947ac2c 100644
--- a/field.go
+++ b/field.go
@@ -114,7 +114,7 @@ func (f *field) Elem() field {
 		TIndex:     -1,
 		SIndex:     -1,
 		Skip:       0,
-		Trivial:    isTypeTrivial(t.Elem()),
+		Trivial:    isTypeTrivial(t.Elem()) && !hasOwnSize(dt.Elem()),
 	}
 }
 
@@ -319,7 +319,7 @@ func cachedFieldsFromStruct(typ reflect.Type) (result fields) {
 
 // isTypeTrivial determines if a given type is constant-size.
 func isTypeTrivial(typ reflect.Type) bool {
-	if typ == nil {
+	if typ == nil || hasOwnSize(typ) {
 		return false
 	}
 	switch typ.Kind() {
@@ -340,11 +340,14 @@ func isTypeTrivial(typ reflect.Type) bool {
 		reflect.Complex64,
 		reflect.Complex128:
 		return true
-	case reflect.Array, reflect.Ptr:
+	case reflect.Array:
 		return isTypeTrivial(typ.Elem())
 	case reflect.Struct:
 		for _, field := range cachedFieldsFromStruct(typ) {
-			if !isTypeTrivial(field.BinaryType) {
+			if field.IfExpr != nil || field.BitsExpr != nil || field.SwitchExpr != nil {
+				return false
+			}
+			if !isTypeTrivial(field.BinaryType) || hasOwnSize(field.NativeType) {
 				return false
 			}
 		}
@@ -354,6 +357,17 @@ func isTypeTrivial(typ reflect.Type) bool {
 	}
 }
 
+var (
+	sizerType    = reflect.TypeOf((*Sizer)(nil)).Elem()
+	bitSizerType = reflect.TypeOf((*BitSizer)(nil)).Elem()
+)
+
+// hasOwnSize determines if values of a given type report their own size.
+func hasOwnSize(typ reflect.Type) bool {
+	ptr := reflect.PtrTo(typ)
+	return ptr.Implements(sizerType) || ptr.Implements(bitSizerType)
+}
+
 func (f *field) sizer(v reflect.Value) (Sizer, bool) {
 	if s, ok := v.Interface().(Sizer); ok {
 		return s, true
-- 
2.43.0


From eb99054a3e5ff56f260d6325fce02d9fde2bc67f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:50 +0000
Subject: [PATCH 05/55] fix: size short slices in fixed-size arrays

A slice shorter than the array it is declared as is padded by the encoder, but
sizing it indexed out of range when its elements vary in size.
---
 structstack.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/structstack.go b/structstack.go
index ef859e6..84be4c7 100644
--- a/structstack.go
+++ b/structstack.go
@@ -203,7 +203,12 @@ func (s *structstack) fieldbits(f field, val reflect.Value) (size int) {
 				size += s.fieldbits(elem, reflect.Zero(elem.BinaryType)) * alen
 			} else {
 				for i := 0; i < alen; i++ {
-					size += s.fieldbits(elem, val.Index(i))
+					if i < val.Len() {
+						size += s.fieldbits(elem, val.Index(i))
+					} else {
+						// Padded with zero values up to the array length.
+						size += s.fieldbits(elem, reflect.New(elem.BinaryType).Elem())
+					}
 				}
 			}
 		}
-- 
2.43.0


From 87b2d85edb5c290f55290101b0d4964f1bff6802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:29 +0000
Subject: [PATCH 06/55] fix: read exactly the bytes of a byte slice or string

Skip was counted twice for strings and byte slices, and byte slices whose
elements have another encoding (a wider type or their own Unpack) were read as
if they were plain bytes.
---
 decoder.go | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/decoder.go b/decoder.go
index 18720de..e8fa32a 100644
--- a/decoder.go
+++ b/decoder.go
@@ -17,6 +17,8 @@ type Unpacker interface {
 	Unpack(buf []byte, order binary.ByteOrder) ([]byte, error)
 }
 
+var byteType = reflect.TypeOf(byte(0))
+
 type decoder struct {
 	structstack
 	order      binary.ByteOrder
@@ -336,7 +338,7 @@ func (d *decoder) read(f field, v reflect.Value) {
 		switch f.NativeType.Kind() {
 		case reflect.String:
 			// When using strings, treat as C string.
-			str := string(d.readBytes(d.fieldbytes(f, v)))
+			str := string(d.readBytes(d.fieldbytes(f, v) - f.Skip))
 			nul := strings.IndexByte(str, 0)
 			if nul != -1 {
 				str = str[0:nul]
@@ -373,14 +375,13 @@ func (d *decoder) read(f field, v reflect.Value) {
 
 	case reflect.Slice, reflect.String:
 		fixed := func() {
-			switch f.NativeType.Elem().Kind() {
-			case reflect.Uint8:
-				v.SetBytes(d.readBytes(d.fieldbytes(f, v)))
-			default:
-				ef := f.Elem()
-				for i := 0; i < alen; i++ {
-					d.read(ef, v.Index(i))
-				}
+			ef := f.Elem()
+			if ef.NativeType == byteType && ef.BinaryType == byteType {
+				v.SetBytes(d.readBytes(alen))
+				return
+			}
+			for i := 0; i < alen; i++ {
+				d.read(ef, v.Index(i))
 			}
 		}
 		switch f.NativeType.Kind() {
-- 
2.43.0


From 16d27559dfb36b2c1460802330bf75382346c9fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:30 +0000
Subject: [PATCH 07/55] fix: read strings and byte slices at the current bit

readBytes ignored the bit counter, so bytes after a bit field that does not
end on a byte boundary were read shifted.
---
 decoder.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/decoder.go b/decoder.go
index e8fa32a..2379431 100644
--- a/decoder.go
+++ b/decoder.go
@@ -147,8 +147,17 @@ func (d *decoder) readS32(f field) int32 { return int32(d.read32(f, true)) }
 func (d *decoder) readS64(f field) int64 { return int64(d.read64(f, true)) }
 
 func (d *decoder) readBytes(count int) []byte {
-	x := d.buf[0:count]
-	d.buf = d.buf[count:]
+	x := d.buf[0:count:len(d.buf)]
+	if d.bitCounter == 0 {
+		d.buf = d.buf[count:]
+		return x
+	}
+	x = make([]byte, count)
+	for i := range x {
+		for j := 0; j < 8; j++ {
+			x[i] = x[i]<<1 | d.readBit()
+		}
+	}
 	return x
 }
 
-- 
2.43.0


From 60662ab06dad38a008120c15a13340291e084a12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:09 +0000
Subject: [PATCH 08/55] fix: clip the capacity of decoded byte slices

Decoded byte slices share the input's memory with its full capacity, so
appending to one overwrote the input and every byte slice decoded after it.
---
 decoder.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/decoder.go b/decoder.go
index 2379431..dd94290 100644
--- a/decoder.go
+++ b/decoder.go
@@ -147,7 +147,7 @@ func (d *decoder) readS32(f field) int32 { return int32(d.read32(f, true)) }
 func (d *decoder) readS64(f field) int64 { return int64(d.read64(f, true)) }
 
 func (d *decoder) readBytes(count int) []byte {
-	x := d.buf[0:count:len(d.buf)]
+	x := d.buf[0:count:count]
 	if d.bitCounter == 0 {
 		d.buf = d.buf[count:]
 		return x
-- 
2.43.0


From 93ac945059c4b9bb10395fa737f8b50edc3596d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:10 +0000
Subject: [PATCH 09/55] fix: reset every case when decoding a switch

The loop that zeroes the cases used the index of the switch field itself, so it
reset one arbitrary case over and over, or panicked.
---
 decoder.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/decoder.go b/decoder.go
index dd94290..7709ce6 100644
--- a/decoder.go
+++ b/decoder.go
@@ -228,8 +228,10 @@ func (d *decoder) switc(f field, v reflect.Value, on interface{}) {
 
 	// Zero out values for decoding.
 	for i := 0; i < l; i++ {
-		v := v.Field(f.Index)
-		v.Set(reflect.Zero(v.Type()))
+		v := v.Field(sfields[i].Index)
+		if v.CanSet() {
+			v.Set(reflect.Zero(v.Type()))
+		}
 	}
 
 	for i := 0; i < l; i++ {
-- 
2.43.0


From f3294f855460b122667d56089a571c95656efa12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:11 +0000
Subject: [PATCH 10/55] fix: resolve sizeof and sizefrom after ignored fields

Positions in the list of encoded fields were mixed up with struct field
indices, so a counter after an unexported or ignored field was tied to the
wrong field or panicked.
---
 field.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/field.go b/field.go
index 947ac2c..c0ed324 100644
--- a/field.go
+++ b/field.go
@@ -170,6 +170,7 @@ func fieldsFromStruct(typ reflect.Type) (result fields) {
 
 	count := typ.NumField()
 
+	// Maps the name of a counted field to the counter's index in result.
 	sizeOfMap := map[string]int{}
 
 	for i := 0; i < count; i++ {
@@ -217,11 +218,11 @@ func fieldsFromStruct(typ reflect.Type) (result fields) {
 			if !validSizeType(val.Type) {
 				panic(ErrInvalidSizeOf)
 			}
-			sindex = j
-			result[sindex].TIndex = i
+			sindex = result[j].Index
+			result[j].TIndex = i
 			delete(sizeOfMap, val.Name)
 		} else if opts.SizeOf != "" {
-			sizeOfMap[opts.SizeOf] = i
+			sizeOfMap[opts.SizeOf] = len(result)
 		}
 
 		// SizeFrom
@@ -229,11 +230,10 @@ func fieldsFromStruct(typ reflect.Type) (result fields) {
 			if !validSizeType(val.Type) {
 				panic(ErrInvalidSizeFrom)
 			}
-			for j := 0; j < i; j++ {
-				val := result[j]
+			for j, val := range result {
 				if opts.SizeFrom == val.Name {
-					sindex = j
-					result[sindex].TIndex = i
+					sindex = val.Index
+					result[j].TIndex = i
 				}
 			}
 			if sindex == -1 {
-- 
2.43.0


From 5f2ac83b6615192bbb989643ee662d3cc573da78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:34 +0000
Subject: [PATCH 11/55] fix: pack values passed without a pointer

Fields of an unaddressable struct were skipped as if they could not be set, so
packing a struct by value gave zeros and unpacking into one did nothing
without an error, contrary to the documentation.
---
 packing.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/packing.go b/packing.go
index a54025d..423c005 100644
--- a/packing.go
+++ b/packing.go
@@ -22,6 +22,7 @@ package restruct
 
 import (
 	"encoding/binary"
+	"fmt"
 	"reflect"
 )
 
@@ -29,6 +30,11 @@ func fieldFromIntf(v interface{}) (field, reflect.Value) {
 	val := reflect.ValueOf(v)
 	if val.Kind() == reflect.Ptr {
 		val = val.Elem()
+	} else if val.IsValid() {
+		// Work on an addressable copy, so that values behave like pointers.
+		addr := reflect.New(val.Type()).Elem()
+		addr.Set(val)
+		val = addr
 	}
 	f := fieldFromType(val.Type())
 	return f, val
@@ -94,6 +100,10 @@ func Unpack(data []byte, order binary.ByteOrder, v interface{}) (err error) {
 		}
 	}()
 
+	if _, ok := v.(Unpacker); !ok && reflect.ValueOf(v).Kind() != reflect.Ptr {
+		return fmt.Errorf("cannot unpack into unaddressable value of type %T", v)
+	}
+
 	f, val := fieldFromIntf(v)
 	ss := structstack{allowexpr: expressionsEnabled, buf: data}
 	d := decoder{structstack: ss, order: order}
-- 
2.43.0


From ec528429feb238c82f7572b200b6de91a3fee8fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:35 +0000
Subject: [PATCH 12/55] fix: encode plain int and uint as 32 bits

They were sized as 32 bits but neither read nor written, which shifted all
later fields.
---
 decoder.go | 4 ++--
 encoder.go | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/decoder.go b/decoder.go
index 7709ce6..c193182 100644
--- a/decoder.go
+++ b/decoder.go
@@ -432,7 +432,7 @@ func (d *decoder) read(f field, v reflect.Value) {
 		d.setInt(f, v, int64(d.readS8(f)))
 	case reflect.Int16:
 		d.setInt(f, v, int64(d.readS16(f)))
-	case reflect.Int32:
+	case reflect.Int, reflect.Int32:
 		d.setInt(f, v, int64(d.readS32(f)))
 	case reflect.Int64:
 		d.setInt(f, v, d.readS64(f))
@@ -441,7 +441,7 @@ func (d *decoder) read(f field, v reflect.Value) {
 		d.setUint(f, v, uint64(d.readU8(f)))
 	case reflect.Uint16:
 		d.setUint(f, v, uint64(d.readU16(f)))
-	case reflect.Uint32:
+	case reflect.Uint, reflect.Uint32:
 		d.setUint(f, v, uint64(d.readU32(f)))
 	case reflect.Uint64:
 		d.setUint(f, v, d.readU64(f))
diff --git a/encoder.go b/encoder.go
index c47e4aa..842352d 100644
--- a/encoder.go
+++ b/encoder.go
@@ -341,7 +341,7 @@ func (e *encoder) write(f field, v reflect.Value) {
 		e.writeS8(f, int8(e.intFromField(f, ov)))
 	case reflect.Int16:
 		e.writeS16(f, int16(e.intFromField(f, ov)))
-	case reflect.Int32:
+	case reflect.Int, reflect.Int32:
 		e.writeS32(f, int32(e.intFromField(f, ov)))
 	case reflect.Int64:
 		e.writeS64(f, int64(e.intFromField(f, ov)))
@@ -350,7 +350,7 @@ func (e *encoder) write(f field, v reflect.Value) {
 		e.write8(f, uint8(e.uintFromField(f, ov)))
 	case reflect.Uint16:
 		e.write16(f, uint16(e.uintFromField(f, ov)))
-	case reflect.Uint32:
+	case reflect.Uint, reflect.Uint32:
 		e.write32(f, uint32(e.uintFromField(f, ov)))
 	case reflect.Uint64:
 		e.write64(f, uint64(e.uintFromField(f, ov)))
-- 
2.43.0


From eff9f5fb58cfddc8b638ba8509dc6607c3290a21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:35 +0000
Subject: [PATCH 13/55] fix: fail when a length does not fit its counter

The length was silently truncated to the counter's width, so Pack produced data
that decodes to something else.
---
 encoder.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/encoder.go b/encoder.go
index 842352d..964d0e0 100644
--- a/encoder.go
+++ b/encoder.go
@@ -270,11 +270,21 @@ func (e *encoder) write(f field, v reflect.Value) {
 	// If this is a sizeof field, pull the current slice length into it.
 	if f.TIndex != -1 {
 		sv := struc.Field(f.TIndex)
+		bits := e.bitSize
+		if bits == 0 {
+			bits = 8 * int(f.BinaryType.Size())
+		}
 
 		switch f.BinaryType.Kind() {
 		case reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
+			if x := int64(sv.Len()); v.OverflowInt(x) || x>>uint(bits-1) != 0 {
+				panic(fmt.Errorf("length %d does not fit in %s", x, f.Name))
+			}
 			v.SetInt(int64(sv.Len()))
 		case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
+			if x := uint64(sv.Len()); v.OverflowUint(x) || x>>uint(bits) != 0 {
+				panic(fmt.Errorf("length %d does not fit in %s", x, f.Name))
+			}
 			v.SetUint(uint64(sv.Len()))
 		default:
 			panic(fmt.Errorf("unsupported size type %s: %s", f.BinaryType.String(), f.Name))
-- 
2.43.0


From e35ed9971b2fe66fb1012c26976236c8cf21bacb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:03 +0000
Subject: [PATCH 14/55] fix: size values with the counters they are packed with

Conditions and size expressions that use a counter were evaluated with its
stale value when sizing but with its new value when packing.
---
 encoder.go     | 21 +--------------------
 structstack.go | 29 +++++++++++++++++++++++++++++
 2 files changed, 30 insertions(+), 20 deletions(-)

diff --git a/encoder.go b/encoder.go
index 964d0e0..9ca4a96 100644
--- a/encoder.go
+++ b/encoder.go
@@ -269,26 +269,7 @@ func (e *encoder) write(f field, v reflect.Value) {
 
 	// If this is a sizeof field, pull the current slice length into it.
 	if f.TIndex != -1 {
-		sv := struc.Field(f.TIndex)
-		bits := e.bitSize
-		if bits == 0 {
-			bits = 8 * int(f.BinaryType.Size())
-		}
-
-		switch f.BinaryType.Kind() {
-		case reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
-			if x := int64(sv.Len()); v.OverflowInt(x) || x>>uint(bits-1) != 0 {
-				panic(fmt.Errorf("length %d does not fit in %s", x, f.Name))
-			}
-			v.SetInt(int64(sv.Len()))
-		case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
-			if x := uint64(sv.Len()); v.OverflowUint(x) || x>>uint(bits) != 0 {
-				panic(fmt.Errorf("length %d does not fit in %s", x, f.Name))
-			}
-			v.SetUint(uint64(sv.Len()))
-		default:
-			panic(fmt.Errorf("unsupported size type %s: %s", f.BinaryType.String(), f.Name))
-		}
+		e.setcount(f, v, struc, e.bitSize)
 	}
 
 	ov := v
diff --git a/structstack.go b/structstack.go
index 84be4c7..8d0bc6d 100644
--- a/structstack.go
+++ b/structstack.go
@@ -216,6 +216,12 @@ func (s *structstack) fieldbits(f field, val reflect.Value) (size int) {
 	case reflect.Struct:
 		size += skipBits
 		s.push(val)
+		// Expressions may use counters, so bring them up to date first.
+		for _, field := range cachedFieldsFromStruct(f.BinaryType) {
+			if sv := val.Field(field.Index); field.BinaryType != nil && field.TIndex != -1 && sv.CanSet() {
+				s.setcount(field, sv, val, int(field.BitSize))
+			}
+		}
 		for _, field := range cachedFieldsFromStruct(f.BinaryType) {
 			size += s.fieldbits(field, val.Field(field.Index))
 		}
@@ -276,6 +282,29 @@ func (s *structstack) setancestor(f field, v reflect.Value, ancestor reflect.Val
 	return false
 }
 
+// setcount stores the length of the target of a sizeof field in its value.
+func (s *structstack) setcount(f field, v reflect.Value, struc reflect.Value, bits int) {
+	sv := struc.Field(f.TIndex)
+	if bits == 0 {
+		bits = 8 * int(f.BinaryType.Size())
+	}
+
+	switch f.BinaryType.Kind() {
+	case reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
+		if x := int64(sv.Len()); v.OverflowInt(x) || x>>uint(bits-1) != 0 {
+			panic(fmt.Errorf("length %d does not fit in %s", x, f.Name))
+		}
+		v.SetInt(int64(sv.Len()))
+	case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
+		if x := uint64(sv.Len()); v.OverflowUint(x) || x>>uint(bits) != 0 {
+			panic(fmt.Errorf("length %d does not fit in %s", x, f.Name))
+		}
+		v.SetUint(uint64(sv.Len()))
+	default:
+		panic(fmt.Errorf("unsupported size type %s: %s", f.BinaryType.String(), f.Name))
+	}
+}
+
 func (s *structstack) root() reflect.Value {
 	if len(s.stack) > 0 {
 		return s.stack[0]
-- 
2.43.0


From b4a458243fa90405b2f77a057f2040d7932c1e60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:38 +0000
Subject: [PATCH 15/55] fix: keep all bits of little endian bit fields

Little endian bit fields wider than 8 bits dropped bits from their lowest byte
unless the width was a multiple of 8.
---
 decoder.go | 13 +++++++++++--
 encoder.go | 13 +++++++++++--
 2 files changed, 22 insertions(+), 4 deletions(-)

diff --git a/decoder.go b/decoder.go
index c193182..3c8ae8b 100644
--- a/decoder.go
+++ b/decoder.go
@@ -72,8 +72,17 @@ func (d *decoder) readBits(f field, outBuf []byte) {
 		// TODO: This needs to be optimized in a way that can be easily
 		// understood; the previous optimized version was simply too hard to
 		// reason about.
-		for i := 0; i < decodedBits; i++ {
-			putBit(outBuf, decodedBits, i, d.readBit())
+		//
+		// In little endian, whole bytes come before the remaining high bits.
+		whole := 0
+		if d.order == binary.LittleEndian {
+			whole = decodedBits / 8
+		}
+		for i := 0; i < 8*whole; i++ {
+			putBit(outBuf[:whole], 8*whole, i, d.readBit())
+		}
+		for i := 0; i < decodedBits-8*whole; i++ {
+			putBit(outBuf[whole:], decodedBits-8*whole, i, d.readBit())
 		}
 	}
 }
diff --git a/encoder.go b/encoder.go
index 9ca4a96..5081ed6 100644
--- a/encoder.go
+++ b/encoder.go
@@ -71,8 +71,17 @@ func (e *encoder) writeBits(f field, inBuf []byte) {
 		// TODO: This needs to be optimized in a way that can be easily
 		// understood; the previous optimized version was simply too hard to
 		// reason about.
-		for i := 0; i < encodedBits; i++ {
-			e.writeBit(getBit(inBuf, encodedBits, i))
+		//
+		// In little endian, whole bytes come before the remaining high bits.
+		whole := 0
+		if e.order == binary.LittleEndian {
+			whole = encodedBits / 8
+		}
+		for i := 0; i < 8*whole; i++ {
+			e.writeBit(getBit(inBuf[:whole], 8*whole, i))
+		}
+		for i := 0; i < encodedBits-8*whole; i++ {
+			e.writeBit(getBit(inBuf[whole:], encodedBits-8*whole, i))
 		}
 	}
 }
-- 
2.43.0


From 6408ee7539ad890864641c7fd18091d8b7d56fa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:39 +0000
Subject: [PATCH 16/55] fix: recognise other little endian byte orders in bit
 fields

Bit fields packed with binary.NativeEndian lost their value, since only
binary.LittleEndian itself was taken for little endian.
---
 decoder.go | 10 ++++++++--
 encoder.go |  4 ++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/decoder.go b/decoder.go
index 3c8ae8b..a0296f6 100644
--- a/decoder.go
+++ b/decoder.go
@@ -27,6 +27,12 @@ type decoder struct {
 	bitSize    int
 }
 
+// isLittleEndian tells if an order is little endian; there are others than
+// binary.LittleEndian, such as binary.NativeEndian.
+func isLittleEndian(order binary.ByteOrder) bool {
+	return order.Uint16([]byte{1, 0}) == 1
+}
+
 func putBit(buf []byte, bitSize int, bit int, val byte) {
 	bit = bitSize - 1 - bit
 	buf[len(buf)-bit/8-1] |= (val) << (uint(bit) % 8)
@@ -56,7 +62,7 @@ func (d *decoder) readBits(f field, outBuf []byte) {
 		// because there is no other obvious way to deal with it.
 		//
 		// Crop output buffer to relevant bytes only.
-		if d.order == binary.LittleEndian {
+		if isLittleEndian(d.order) {
 			outBuf = outBuf[:(decodedBits+7)/8]
 		} else {
 			outBuf = outBuf[len(outBuf)-(decodedBits+7)/8:]
@@ -75,7 +81,7 @@ func (d *decoder) readBits(f field, outBuf []byte) {
 		//
 		// In little endian, whole bytes come before the remaining high bits.
 		whole := 0
-		if d.order == binary.LittleEndian {
+		if isLittleEndian(d.order) {
 			whole = decodedBits / 8
 		}
 		for i := 0; i < 8*whole; i++ {
diff --git a/encoder.go b/encoder.go
index 5081ed6..3942e03 100644
--- a/encoder.go
+++ b/encoder.go
@@ -55,7 +55,7 @@ func (e *encoder) writeBits(f field, inBuf []byte) {
 		// because there is no other obvious way to deal with it.
 		//
 		// Crop input buffer to relevant bytes only.
-		if e.order == binary.LittleEndian {
+		if isLittleEndian(e.order) {
 			inBuf = inBuf[:(encodedBits+7)/8]
 		} else {
 			inBuf = inBuf[len(inBuf)-(encodedBits+7)/8:]
@@ -74,7 +74,7 @@ func (e *encoder) writeBits(f field, inBuf []byte) {
 		//
 		// In little endian, whole bytes come before the remaining high bits.
 		whole := 0
-		if e.order == binary.LittleEndian {
+		if isLittleEndian(e.order) {
 			whole = encodedBits / 8
 		}
 		for i := 0; i < 8*whole; i++ {
-- 
2.43.0


From badf7d86ac1781f675796833a39e57724a07c7e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:57 +0000
Subject: [PATCH 17/55] fix: return an error for panics that are not errors

Non-error panics, such as those of reflect for a negative count and this
package's own for a disabled or non-boolean expression, escaped to the caller,
in Unpack as panic(nil).
---
 packing.go | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/packing.go b/packing.go
index 423c005..d0412d8 100644
--- a/packing.go
+++ b/packing.go
@@ -40,6 +40,15 @@ func fieldFromIntf(v interface{}) (field, reflect.Value) {
 	return f, val
 }
 
+// errorFromPanic returns the error for a recovered panic. Not only this package
+// panics: for example, reflect panics with strings.
+func errorFromPanic(r interface{}) error {
+	if err, ok := r.(error); ok {
+		return err
+	}
+	return fmt.Errorf("%v", r)
+}
+
 /*
 Unpack reads data from a byteslice into a value.
 
@@ -93,10 +102,7 @@ Flags are comma-separated keys. The following are available:
 func Unpack(data []byte, order binary.ByteOrder, v interface{}) (err error) {
 	defer func() {
 		if r := recover(); r != nil {
-			var ok bool
-			if err, ok = r.(error); !ok {
-				panic(err)
-			}
+			err = errorFromPanic(r)
 		}
 	}()
 
@@ -118,7 +124,7 @@ SizeOf returns the binary encoded size of the given value, in bytes.
 func SizeOf(v interface{}) (size int, err error) {
 	defer func() {
 		if r := recover(); r != nil {
-			err = r.(error)
+			err = errorFromPanic(r)
 		}
 	}()
 
@@ -133,7 +139,7 @@ BitSize returns the binary encoded size of the given value, in bits.
 func BitSize(v interface{}) (size int, err error) {
 	defer func() {
 		if r := recover(); r != nil {
-			err = r.(error)
+			err = errorFromPanic(r)
 		}
 	}()
 
@@ -155,7 +161,7 @@ func Pack(order binary.ByteOrder, v interface{}) (data []byte, err error) {
 	defer func() {
 		if r := recover(); r != nil {
 			data = nil
-			err = r.(error)
+			err = errorFromPanic(r)
 		}
 	}()
 
-- 
2.43.0


From 87b19ce148b7a76992bcf0f4b2751bf20b70f32e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:50 +0000
Subject: [PATCH 18/55] fix: fail when the input ends inside padding

Padding that ends in the middle of a byte was accepted without that byte.
---
 decoder.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/decoder.go b/decoder.go
index a0296f6..6049181 100644
--- a/decoder.go
+++ b/decoder.go
@@ -183,6 +183,9 @@ func (d *decoder) skipBits(count int) {
 		count += 8
 	}
 	d.buf = d.buf[count/8:]
+	if d.bitCounter != 0 {
+		_ = d.buf[0] // The skipped bits must be there.
+	}
 }
 
 func (d *decoder) skip(f field, v reflect.Value) {
-- 
2.43.0


From 7f3cfba230681422738447a3d17249d04fe0a3ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:52 +0000
Subject: [PATCH 19/55] fix: start while slices empty

Elements were appended to whatever the slice held before.
---
 decoder.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/decoder.go b/decoder.go
index 6049181..b24d963 100644
--- a/decoder.go
+++ b/decoder.go
@@ -431,6 +431,7 @@ func (d *decoder) read(f field, v reflect.Value) {
 			if f.WhileExpr != nil {
 				switch f.NativeType.Kind() {
 				case reflect.Slice:
+					v.Set(reflect.MakeSlice(f.NativeType, 0, 0))
 					ef := f.Elem()
 					for d.evalWhile(f) {
 						nv := reflect.New(ef.NativeType).Elem()
-- 
2.43.0


From 5f7d4b9bc090059760d4a3d77e7c4170c2ac165d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:27 +0000
Subject: [PATCH 20/55] fix: honour if, byte order and skip on switches and
 custom codecs

Switch fields and fields with their own Pack or Unpack were handled before the
if expression, the order and the skip of the field, which were ignored without
an error.
---
 decoder.go     | 30 +++++++++++++++---------------
 encoder.go     | 30 +++++++++++++++---------------
 structstack.go | 28 ++++++++++++++--------------
 3 files changed, 44 insertions(+), 44 deletions(-)

diff --git a/decoder.go b/decoder.go
index b24d963..eb2fa30 100644
--- a/decoder.go
+++ b/decoder.go
@@ -294,23 +294,9 @@ func (d *decoder) read(f field, v reflect.Value) {
 		return
 	}
 
-	if f.SwitchExpr != nil {
-		d.switc(f, v, d.evalExpr(f.SwitchExpr))
-		return
-	}
-
 	struc := d.ancestor(0)
 
-	if f.Name != "_" {
-		if s, ok := d.unpacker(v); ok {
-			var err error
-			d.buf, err = s.Unpack(d.buf, d.order)
-			if err != nil {
-				panic(err)
-			}
-			return
-		}
-	} else {
+	if f.Name == "_" {
 		d.skipBits(d.fieldbits(f, v))
 		return
 	}
@@ -331,6 +317,20 @@ func (d *decoder) read(f field, v reflect.Value) {
 		d.skipBits(f.Skip * 8)
 	}
 
+	if f.SwitchExpr != nil {
+		d.switc(f, v, d.evalExpr(f.SwitchExpr))
+		return
+	}
+
+	if s, ok := d.unpacker(v); ok {
+		var err error
+		d.buf, err = s.Unpack(d.buf, d.order)
+		if err != nil {
+			panic(err)
+		}
+		return
+	}
+
 	d.bitSize = d.evalBits(f)
 	alen := d.evalSize(f)
 
diff --git a/encoder.go b/encoder.go
index 3942e03..fd4ae61 100644
--- a/encoder.go
+++ b/encoder.go
@@ -237,23 +237,9 @@ func (e *encoder) write(f field, v reflect.Value) {
 		return
 	}
 
-	if f.SwitchExpr != nil {
-		e.switc(f, v, e.evalExpr(f.SwitchExpr))
-		return
-	}
-
 	struc := e.ancestor(0)
 
-	if f.Name != "_" {
-		if s, ok := e.packer(v); ok {
-			var err error
-			e.buf, err = s.Pack(e.buf, e.order)
-			if err != nil {
-				panic(err)
-			}
-			return
-		}
-	} else {
+	if f.Name == "_" {
 		e.skipBits(e.fieldbits(f, v))
 		return
 	}
@@ -274,6 +260,20 @@ func (e *encoder) write(f field, v reflect.Value) {
 		e.skipBits(f.Skip * 8)
 	}
 
+	if f.SwitchExpr != nil {
+		e.switc(f, v, e.evalExpr(f.SwitchExpr))
+		return
+	}
+
+	if s, ok := e.packer(v); ok {
+		var err error
+		e.buf, err = s.Pack(e.buf, e.order)
+		if err != nil {
+			panic(err)
+		}
+		return
+	}
+
 	e.bitSize = e.evalBits(f)
 
 	// If this is a sizeof field, pull the current slice length into it.
diff --git a/structstack.go b/structstack.go
index 8d0bc6d..81b8a07 100644
--- a/structstack.go
+++ b/structstack.go
@@ -127,25 +127,25 @@ func (s *structstack) fieldbits(f field, val reflect.Value) (size int) {
 		return 0
 	}
 
+	// Non-trivial, unnamed fields do not make sense. You can't set a field
+	// with no name, so the elements can't possibly differ.
+	// N.B.: Though skip will still work, use struct{} instead for skip.
+	if f.Name == "_" && !isTypeTrivial(val.Type()) {
+		return skipBits
+	}
+
+	if !s.evalIf(f) {
+		return 0
+	}
+
 	if f.SwitchExpr != nil {
-		return s.switcbits(f, val, s.evalExpr(f.SwitchExpr))
+		return skipBits + s.switcbits(f, val, s.evalExpr(f.SwitchExpr))
 	}
 
 	if f.Name != "_" {
-		if s, ok := f.bitSizeUsingInterface(val); ok {
-			return s
+		if b, ok := f.bitSizeUsingInterface(val); ok {
+			return skipBits + b
 		}
-	} else {
-		// Non-trivial, unnamed fields do not make sense. You can't set a field
-		// with no name, so the elements can't possibly differ.
-		// N.B.: Though skip will still work, use struct{} instead for skip.
-		if !isTypeTrivial(val.Type()) {
-			return skipBits
-		}
-	}
-
-	if !s.evalIf(f) {
-		return 0
 	}
 
 	if b := s.evalBits(f); b != 0 {
-- 
2.43.0


From fc7e2ccff36dc24488a868ce12744105a4d872cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:29 +0000
Subject: [PATCH 21/55] fix: do not call custom codecs on nil pointers

A nil pointer to a type with its own Pack, Unpack or SizeOf had the method
called on it, and a pointer that was not nil was decoded into in place, unlike
pointers to all other types.
---
 decoder.go | 5 +++++
 encoder.go | 4 ++++
 field.go   | 4 ++++
 3 files changed, 13 insertions(+)

diff --git a/decoder.go b/decoder.go
index eb2fa30..42d4616 100644
--- a/decoder.go
+++ b/decoder.go
@@ -193,6 +193,11 @@ func (d *decoder) skip(f field, v reflect.Value) {
 }
 
 func (d *decoder) unpacker(v reflect.Value) (Unpacker, bool) {
+	// Pointers get a new target first.
+	if v.Kind() == reflect.Ptr {
+		return nil, false
+	}
+
 	if s, ok := v.Interface().(Unpacker); ok {
 		return s, true
 	}
diff --git a/encoder.go b/encoder.go
index fd4ae61..0701751 100644
--- a/encoder.go
+++ b/encoder.go
@@ -132,6 +132,10 @@ func (e *encoder) skip(f field, v reflect.Value) {
 }
 
 func (e *encoder) packer(v reflect.Value) (Packer, bool) {
+	if v.Kind() == reflect.Ptr && v.IsNil() {
+		return nil, false
+	}
+
 	if s, ok := v.Interface().(Packer); ok {
 		return s, true
 	}
diff --git a/field.go b/field.go
index c0ed324..ade39d7 100644
--- a/field.go
+++ b/field.go
@@ -401,6 +401,10 @@ func (f *field) bitSizer(v reflect.Value) (BitSizer, bool) {
 }
 
 func (f *field) bitSizeUsingInterface(val reflect.Value) (int, bool) {
+	if val.Kind() == reflect.Ptr && val.IsNil() {
+		return 0, false
+	}
+
 	if s, ok := f.bitSizer(val); ok {
 		return s.BitSize(), true
 	}
-- 
2.43.0


From 5aaa612e1b5cd3744eb496ef97bc5b47a254641f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:30 +0000
Subject: [PATCH 22/55] fix: match switch cases by value

Cases were compared as interfaces, so an integer literal never equalled a field
of any type but the one literals happen to have.
---
 decoder.go     |  2 +-
 encoder.go     |  2 +-
 structstack.go | 30 +++++++++++++++++++++++++++++-
 3 files changed, 31 insertions(+), 3 deletions(-)

diff --git a/decoder.go b/decoder.go
index 42d4616..d0bede5 100644
--- a/decoder.go
+++ b/decoder.go
@@ -273,7 +273,7 @@ func (d *decoder) switc(f field, v reflect.Value, on interface{}) {
 			panic(fmt.Errorf("%s: only cases are valid inside switches", f.Name))
 		}
 
-		if d.evalExpr(f.CaseExpr) == on {
+		if casematches(d.evalExpr(f.CaseExpr), on) {
 			d.read(f, v)
 			return
 		}
diff --git a/encoder.go b/encoder.go
index 0701751..ccfd636 100644
--- a/encoder.go
+++ b/encoder.go
@@ -215,7 +215,7 @@ func (e *encoder) switc(f field, v reflect.Value, on interface{}) {
 			panic(fmt.Errorf("%s: only cases are valid inside switches", f.Name))
 		}
 
-		if e.evalExpr(f.CaseExpr) == on {
+		if casematches(e.evalExpr(f.CaseExpr), on) {
 			e.write(f, v)
 			return
 		}
diff --git a/structstack.go b/structstack.go
index 81b8a07..b824bdf 100644
--- a/structstack.go
+++ b/structstack.go
@@ -71,6 +71,34 @@ func (s *structstack) evalWhile(f field) bool {
 	panic("expected bool value for while expr")
 }
 
+// casematches tells if the value of a case equals the value of its switch.
+// Numbers are compared by value: a literal has no particular type.
+func casematches(c, on interface{}) bool {
+	cv, ov := reflect.ValueOf(c), reflect.ValueOf(on)
+	cs, cu, cok := integer(cv)
+	os, ou, ook := integer(ov)
+	switch {
+	case cok && ook:
+		return cs == os && cu == ou
+	case cv.Kind() == reflect.String && ov.Kind() == reflect.String:
+		return cv.String() == ov.String()
+	case cv.Kind() == reflect.Bool && ov.Kind() == reflect.Bool:
+		return cv.Bool() == ov.Bool()
+	}
+	return c == on
+}
+
+// integer returns if an integer is negative, and its bits.
+func integer(v reflect.Value) (neg bool, bits uint64, ok bool) {
+	switch v.Kind() {
+	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
+		return v.Int() < 0, uint64(v.Int()), true
+	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
+		return false, v.Uint(), true
+	}
+	return false, 0, false
+}
+
 func (s *structstack) switcbits(f field, v reflect.Value, on interface{}) (size int) {
 	var def *switchcase
 
@@ -97,7 +125,7 @@ func (s *structstack) switcbits(f field, v reflect.Value, on interface{}) (size
 			panic(fmt.Errorf("%s: only cases are valid inside switches", f.Name))
 		}
 
-		if s.evalExpr(f.CaseExpr) == on {
+		if casematches(s.evalExpr(f.CaseExpr), on) {
 			return s.fieldbits(f, v)
 		}
 	}
-- 
2.43.0


From bf7c0224757afd1f4c3762b9db06b78ffa09f7ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:31 +0000
Subject: [PATCH 23/55] fix: check counts against the input before allocating

A counter in a few bytes of input could ask for any amount of memory, which
ends the process instead of returning an error.
---
 decoder.go | 7 +++++++
 field.go   | 5 +++--
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/decoder.go b/decoder.go
index d0bede5..638427b 100644
--- a/decoder.go
+++ b/decoder.go
@@ -3,6 +3,7 @@ package restruct
 import (
 	"encoding/binary"
 	"fmt"
+	"io"
 	"math"
 	"reflect"
 	"strings"
@@ -445,6 +446,12 @@ func (d *decoder) read(f field, v reflect.Value) {
 					}
 				}
 			} else {
+				// Do not allocate more than the input can fill.
+				if ef := f.Elem(); ef.Trivial {
+					if n := d.fieldbits(ef, reflect.New(ef.BinaryType).Elem()); n > 0 && alen > 8*len(d.buf)/n {
+						panic(io.ErrUnexpectedEOF)
+					}
+				}
 				v.Set(reflect.MakeSlice(f.NativeType, alen, alen))
 				fixed()
 			}
diff --git a/field.go b/field.go
index ade39d7..786d0e2 100644
--- a/field.go
+++ b/field.go
@@ -360,12 +360,13 @@ func isTypeTrivial(typ reflect.Type) bool {
 var (
 	sizerType    = reflect.TypeOf((*Sizer)(nil)).Elem()
 	bitSizerType = reflect.TypeOf((*BitSizer)(nil)).Elem()
+	unpackerType = reflect.TypeOf((*Unpacker)(nil)).Elem()
 )
 
-// hasOwnSize determines if values of a given type report their own size.
+// hasOwnSize determines if values of a given type determine their own size.
 func hasOwnSize(typ reflect.Type) bool {
 	ptr := reflect.PtrTo(typ)
-	return ptr.Implements(sizerType) || ptr.Implements(bitSizerType)
+	return ptr.Implements(sizerType) || ptr.Implements(bitSizerType) || ptr.Implements(unpackerType)
 }
 
 func (f *field) sizer(v reflect.Value) (Sizer, bool) {
-- 
2.43.0


From de8c2a11208cda5a73a411be6a9ddaa14d0979bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:07 +0000
Subject: [PATCH 24/55] fix: convert untyped float constants

---
 expr/value.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/expr/value.go b/expr/value.go
index 40896a0..370a134 100644
--- a/expr/value.go
+++ b/expr/value.go
@@ -92,9 +92,9 @@ func promote(from Value, to Type) Value {
 	case UntypedFloat:
 		switch to.Kind() {
 		case Float32:
-			return val{reflect.ValueOf(float32(reflect.ValueOf(from.Value).Float())), to}
+			return val{reflect.ValueOf(float32(from.Value().Float())), to}
 		case Float64:
-			return val{reflect.ValueOf(float64(reflect.ValueOf(from.Value).Float())), to}
+			return val{reflect.ValueOf(from.Value().Float()), to}
 		default:
 			panic(ConversionError{From: ftype, To: to})
 		}
-- 
2.43.0


From 53d1b0531520ec59471d0a18e3782ea64343e1d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:08 +0000
Subject: [PATCH 25/55] fix: parse the and-not operator

---
 expr/parse.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/expr/parse.go b/expr/parse.go
index 587bce5..b5e7036 100644
--- a/expr/parse.go
+++ b/expr/parse.go
@@ -166,6 +166,10 @@ func (p *parser) parseexpr(depth int) node {
 			binary(binaryand, 7)
 			continue
 		}
+		if p.accept(andnottoken) {
+			binary(binaryandnot, 7)
+			continue
+		}
 		if depth >= 6 {
 			break
 		}
-- 
2.43.0


From 2957d5fd7665a32c874342f920bb64ccd4011d76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:10 +0000
Subject: [PATCH 26/55] fix: scan a minus after an operand as an operator

---
 expr/lex.go | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/expr/lex.go b/expr/lex.go
index c79c63e..9bc2b71 100644
--- a/expr/lex.go
+++ b/expr/lex.go
@@ -154,6 +154,10 @@ type scanner struct {
 	r   io.RuneScanner
 	p   int
 	eof bool
+
+	// operand is true after a token that ends an operand; a minus sign that
+	// follows is an operator, not the sign of a number.
+	operand bool
 }
 
 func newscanner(r io.RuneScanner) *scanner {
@@ -394,6 +398,16 @@ func (s *scanner) scanrune() token {
 	}
 }
 
+// endsoperand returns true if a token of the given kind can end an operand.
+func endsoperand(k tokenkind) bool {
+	switch k {
+	case identtoken, inttoken, floattoken, booltoken, strtoken, runetoken, nilkeyword,
+		rightparentoken, rightbrackettoken:
+		return true
+	}
+	return false
+}
+
 func (s *scanner) scan() (t token) {
 	defer func() {
 		if r := recover(); r != nil {
@@ -411,6 +425,7 @@ func (s *scanner) scan() (t token) {
 
 	defer func() {
 		t.pos = p
+		s.operand = endsoperand(t.kind)
 	}()
 
 	switch {
@@ -434,7 +449,7 @@ func (s *scanner) scan() (t token) {
 		switch {
 		default:
 			return s.tokensym(subtoken, "-")
-		case s.peekmatch(isdigit):
+		case !s.operand && s.peekmatch(isdigit):
 			return s.scannumber(token{sval: "-"})
 		}
 	case s.accept('*'):
-- 
2.43.0


From f9b71cd286545a6badec9e8a8b8a2ca3ddc34edc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:11 +0000
Subject: [PATCH 27/55] fix: do not loop on unterminated strings

---
 expr/lex.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/expr/lex.go b/expr/lex.go
index 9bc2b71..7008164 100644
--- a/expr/lex.go
+++ b/expr/lex.go
@@ -3,6 +3,7 @@ package expr
 //go:generate stringer -type=tokenkind
 
 import (
+	"errors"
 	"fmt"
 	"io"
 	"strconv"
@@ -379,6 +380,8 @@ func (s *scanner) scanstring(quote byte) token {
 		switch {
 		case s.accept(rune(quote)):
 			return token{kind: strtoken, sval: string(str)}
+		case s.accept(eof):
+			panic(errors.New("unterminated string"))
 		case s.accept('\\'):
 			str = append(str, s.scanescape(quote)...)
 		default:
-- 
2.43.0


From b9f2df9da7b6394359fa8045c46485eeb897779e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:36 +0000
Subject: [PATCH 28/55] fix: parse branches of ternaries as whole expressions

---
 expr/parse.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/expr/parse.go b/expr/parse.go
index b5e7036..7d3f209 100644
--- a/expr/parse.go
+++ b/expr/parse.go
@@ -231,7 +231,7 @@ func (p *parser) parseexpr(depth int) node {
 			continue
 		}
 		if p.accept(ternarytoken) {
-			ternary(3)
+			ternary(2)
 			continue
 		}
 		if depth >= 2 {
-- 
2.43.0


From 2b396f55cfa173a463d72508e86cec19f9dcc303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:37 +0000
Subject: [PATCH 29/55] fix: match closing brackets with opening ones

---
 expr/parse.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/expr/parse.go b/expr/parse.go
index 7d3f209..d3e5a8a 100644
--- a/expr/parse.go
+++ b/expr/parse.go
@@ -102,6 +102,7 @@ func (p *parser) parseexpr(depth int) node {
 		n = newnilnode(p.t)
 	case p.accept(leftparentoken):
 		n = p.parseexpr(1)
+		p.expect(rightparentoken)
 	default:
 	}
 
@@ -115,10 +116,12 @@ func (p *parser) parseexpr(depth int) node {
 		}
 		if n != nil && p.accept(leftparentoken) {
 			binary(binarycall, 1)
+			p.expect(rightparentoken)
 			continue
 		}
 		if n != nil && p.accept(leftbrackettoken) {
 			binary(binarysubscript, 1)
+			p.expect(rightbrackettoken)
 			continue
 		}
 		if n == nil && p.accept(addtoken) {
@@ -241,7 +244,7 @@ func (p *parser) parseexpr(depth int) node {
 			binary(binarygroup, 2)
 			continue
 		}
-		if depth >= 1 && (p.accept(rightparentoken) || p.accept(rightbrackettoken)) {
+		if depth >= 1 {
 			break
 		}
 		p.expect(eoftoken)
-- 
2.43.0


From cd569b87939c2acf861521ba70e8c8fad0761691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:39 +0000
Subject: [PATCH 30/55] fix: reject missing operands and parse calls without
 arguments

---
 expr/ast.go   |  3 +++
 expr/eval.go  |  3 +++
 expr/parse.go | 12 +++++++++++-
 3 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/expr/ast.go b/expr/ast.go
index c7cb7d0..b211802 100644
--- a/expr/ast.go
+++ b/expr/ast.go
@@ -185,6 +185,9 @@ type binaryexpr struct {
 }
 
 func (n binaryexpr) source() string {
+	if n.b == nil {
+		return n.a.source() + "()"
+	}
 	a, b := n.a.source(), n.b.source()
 	switch n.op {
 	case binarylogicalor:
diff --git a/expr/eval.go b/expr/eval.go
index 182f164..a00fc5d 100644
--- a/expr/eval.go
+++ b/expr/eval.go
@@ -80,6 +80,9 @@ func evalunary(resolver Resolver, node unaryexpr) Value {
 }
 
 func flattengroup(n node) []node {
+	if n == nil {
+		return nil
+	}
 	if n, ok := n.(binaryexpr); ok {
 		if n.op == binarygroup {
 			return append(flattengroup(n.a), flattengroup(n.b)...)
diff --git a/expr/parse.go b/expr/parse.go
index d3e5a8a..b81ca4c 100644
--- a/expr/parse.go
+++ b/expr/parse.go
@@ -71,12 +71,15 @@ func (p *parser) parseexpr(depth int) node {
 
 	binary := func(op binaryop, depth int) {
 		if n == nil {
-			panic("unexpected binary op")
+			panic(fmt.Errorf("expected operand, got %s", p.t.kind))
 		}
 		n = binaryexpr{op: op, a: n, b: p.parseexpr(depth)}
 	}
 
 	ternary := func(depth int) {
+		if n == nil {
+			panic(fmt.Errorf("expected operand, got %s", p.t.kind))
+		}
 		t := ternaryexpr{}
 		t.a = n
 		t.b = p.parseexpr(depth)
@@ -115,6 +118,10 @@ func (p *parser) parseexpr(depth int) node {
 			continue
 		}
 		if n != nil && p.accept(leftparentoken) {
+			if p.accept(rightparentoken) {
+				n = binaryexpr{op: binarycall, a: n}
+				continue
+			}
 			binary(binarycall, 1)
 			p.expect(rightparentoken)
 			continue
@@ -250,6 +257,9 @@ func (p *parser) parseexpr(depth int) node {
 		p.expect(eoftoken)
 		break
 	}
+	if n == nil {
+		panic(fmt.Errorf("expected operand, got %s", p.readtoken().kind))
+	}
 	return n
 }
 
-- 
2.43.0


From e2d222ebdabd9fba41f74ced8315d3d8a802f937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:41 +0000
Subject: [PATCH 31/55] fix: return errors for bad expressions instead of
 panicking

---
 expr/eval.go | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/expr/eval.go b/expr/eval.go
index a00fc5d..d764fb5 100644
--- a/expr/eval.go
+++ b/expr/eval.go
@@ -6,25 +6,30 @@ import (
 
 // EvalProgram returns the result of executing the program with the given resolver.
 func EvalProgram(resolver Resolver, program *Program) (v interface{}, err error) {
-	defer func() {
-		if r := recover(); r != nil {
-			if rerr, ok := r.(error); ok {
-				err = rerr
-			} else {
-				panic(r)
-			}
-		}
-	}()
+	defer recovererr(&err)
 
 	v = evalnode(resolver, program.root).RawValue()
 	return
 }
 
 // Eval returns the result of evaluating the provided expression.
-func Eval(resolver Resolver, expr string) (interface{}, error) {
+func Eval(resolver Resolver, expr string) (v interface{}, err error) {
+	defer recovererr(&err)
+
 	return EvalProgram(resolver, ParseString(expr))
 }
 
+// recovererr stores the value of a recovered panic as an error.
+func recovererr(err *error) {
+	if r := recover(); r != nil {
+		if rerr, ok := r.(error); ok {
+			*err = rerr
+		} else {
+			*err = fmt.Errorf("%v", r)
+		}
+	}
+}
+
 func evalnode(resolver Resolver, node node) Value {
 	switch n := node.(type) {
 	case identnode:
-- 
2.43.0


From a2cd380466fd6f71acb003bb2ca1b83ebe10d136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:59 +0000
Subject: [PATCH 32/55] fix: compute with values of named types

---
 expr/eval.go  |  4 ++--
 expr/value.go | 18 ++++++++++++++++--
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/expr/eval.go b/expr/eval.go
index d764fb5..2501392 100644
--- a/expr/eval.go
+++ b/expr/eval.go
@@ -8,7 +8,7 @@ import (
 func EvalProgram(resolver Resolver, program *Program) (v interface{}, err error) {
 	defer recovererr(&err)
 
-	v = evalnode(resolver, program.root).RawValue()
+	v = evalnode(resolver, program.root).Value().Interface()
 	return
 }
 
@@ -162,7 +162,7 @@ func evalbinary(resolver Resolver, node binaryexpr) Value {
 }
 
 func evalternary(resolver Resolver, node ternaryexpr) Value {
-	a := evalnode(resolver, node.a).Value().Interface()
+	a := evalnode(resolver, node.a).RawValue()
 	cond, ok := a.(bool)
 	if !ok {
 		panic(fmt.Errorf("unexpected type %T for ternary", cond))
diff --git a/expr/value.go b/expr/value.go
index 370a134..dec41d5 100644
--- a/expr/value.go
+++ b/expr/value.go
@@ -179,6 +179,10 @@ func (v val) Value() reflect.Value {
 }
 
 func (v val) RawValue() interface{} {
+	// Values of named types have the operations of their underlying types.
+	if t, ok := primRType[v.t.Kind()]; ok && v.v.IsValid() && v.v.Type() != t {
+		return v.v.Convert(t).Interface()
+	}
 	return v.v.Interface()
 }
 
@@ -855,12 +859,22 @@ func (v val) Index(rhs Value) Value {
 	case *SliceType:
 		return val{v.v.Index(promote(rhs, NewPrimitiveType(Int)).RawValue().(int)), t.Elem()}
 	case *MapType:
-		return val{v.v.MapIndex(promote(rhs, t.Key()).Value()), t.Value()}
+		return val{v.v.MapIndex(convert(promote(rhs, t.Key()), v.v.Type().Key())), t.Value()}
 	default:
 		panic(InvalidOpError{Op: "[]", V: v})
 	}
 }
 
+// convert returns v as a value of the runtime type t, which may be another
+// named type with the same underlying type.
+func convert(v Value, t reflect.Type) reflect.Value {
+	rv := v.Value()
+	if _, ok := primRType[v.Type().Kind()]; ok && rv.IsValid() && rv.Type() != t {
+		return rv.Convert(t)
+	}
+	return rv
+}
+
 func (v val) Call(in []Value) Value {
 	ft, ok := v.t.(*FuncType)
 	if !ok {
@@ -871,7 +885,7 @@ func (v val) Call(in []Value) Value {
 	}
 	inconv := []reflect.Value{}
 	for i, n := range in {
-		inconv = append(inconv, promote(n, ft.In(i)).Value())
+		inconv = append(inconv, convert(promote(n, ft.In(i)), v.v.Type().In(i)))
 	}
 	out := v.v.Call(inconv)
 	if len(out) != 1 {
-- 
2.43.0


From f81845670a5fa3531c3b4159306a190fde67b14d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:01 +0000
Subject: [PATCH 33/55] fix: index maps

---
 expr/type.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/expr/type.go b/expr/type.go
index f863ea8..65f2b1c 100644
--- a/expr/type.go
+++ b/expr/type.go
@@ -287,7 +287,7 @@ type MapType struct {
 
 // NewMapType returns a new map type.
 func NewMapType(key Type, val Type) Type {
-	return MapType{key: key, val: val}
+	return &MapType{key: key, val: val}
 }
 
 // String implements Type.
-- 
2.43.0


From 31f547f6c69daa81a9b6a792bf76636ee05ae2f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:25 +0000
Subject: [PATCH 34/55] fix: accept conditions of named bool types

---
 structstack.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/structstack.go b/structstack.go
index b824bdf..e09778b 100644
--- a/structstack.go
+++ b/structstack.go
@@ -58,15 +58,15 @@ func (s *structstack) evalIf(f field) bool {
 	if f.IfExpr == nil {
 		return true
 	}
-	if b, ok := s.evalExpr(f.IfExpr).(bool); ok {
-		return b
+	if b := reflect.ValueOf(s.evalExpr(f.IfExpr)); b.Kind() == reflect.Bool {
+		return b.Bool()
 	}
 	panic("expected bool value for if expr")
 }
 
 func (s *structstack) evalWhile(f field) bool {
-	if b, ok := s.evalExpr(f.WhileExpr).(bool); ok {
-		return b
+	if b := reflect.ValueOf(s.evalExpr(f.WhileExpr)); b.Kind() == reflect.Bool {
+		return b.Bool()
 	}
 	panic("expected bool value for while expr")
 }
-- 
2.43.0


From d369536dd1370b171d5778bcdd7b0c212849ceba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:27 +0000
Subject: [PATCH 35/55] fix: publish only complete types

---
 expr/type.go | 59 +++++++++++++++++++++++++++++++++++++---------------
 1 file changed, 42 insertions(+), 17 deletions(-)

diff --git a/expr/type.go b/expr/type.go
index 65f2b1c..d8b30e5 100644
--- a/expr/type.go
+++ b/expr/type.go
@@ -478,13 +478,10 @@ func toreflecttype(t Type) reflect.Type {
 var typemap = map[reflect.Type]Type{}
 var typemutex = sync.Mutex{}
 
-func savetype(reflect reflect.Type, expr Type) Type {
-	typemutex.Lock()
-	defer typemutex.Unlock()
-
-	typemap[reflect] = expr
-	return expr
-}
+// typebuilder converts runtime types into expr types. Types being built are
+// entered before their elements, so that recursive types end; they become
+// visible to others once all of them are complete.
+type typebuilder map[reflect.Type]Type
 
 func loadtype(reflect reflect.Type) (Type, bool) {
 	typemutex.Lock()
@@ -502,6 +499,28 @@ func fromreflecttype(t reflect.Type) Type {
 		return et
 	}
 
+	b := typebuilder{}
+	et := b.build(t)
+
+	typemutex.Lock()
+	defer typemutex.Unlock()
+
+	for t, et := range b {
+		if _, ok := typemap[t]; !ok {
+			typemap[t] = et
+		}
+	}
+	return et
+}
+
+func (b typebuilder) build(t reflect.Type) Type {
+	if et, ok := b[t]; ok {
+		return et
+	}
+	if et, ok := loadtype(t); ok {
+		return et
+	}
+
 	switch t.Kind() {
 	case reflect.Bool, reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32,
 		reflect.Int64, reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32,
@@ -509,30 +528,36 @@ func fromreflecttype(t reflect.Type) Type {
 		reflect.String:
 		return primType[t.Kind()]
 	case reflect.Array:
-		return NewArrayType(t.Len(), fromreflecttype(t.Elem()))
+		return NewArrayType(t.Len(), b.build(t.Elem()))
 	case reflect.Func:
+		et := &FuncType{}
+		b[t] = et
 		nin := t.NumIn()
 		in := make([]Type, 0, nin)
 		for i := 0; i < nin; i++ {
-			in = append(in, fromreflecttype(t.In(i)))
+			in = append(in, b.build(t.In(i)))
 		}
 		nout := t.NumOut()
 		out := make([]Type, 0, nout)
 		for i := 0; i < nout; i++ {
-			out = append(out, fromreflecttype(t.Out(i)))
+			out = append(out, b.build(t.Out(i)))
 		}
-		return NewFuncType(in, out, t.IsVariadic())
+		*et = *NewFuncType(in, out, t.IsVariadic())
+		return et
 	case reflect.Map:
-		return NewMapType(fromreflecttype(t.Key()), fromreflecttype(t.Elem()))
+		et := &MapType{}
+		b[t] = et
+		*et = MapType{key: b.build(t.Key()), val: b.build(t.Elem())}
+		return et
 	case reflect.Ptr:
 		et := &PtrType{}
-		savetype(t, et)
-		*et = *NewPtrType(fromreflecttype(t.Elem()))
+		b[t] = et
+		*et = *NewPtrType(b.build(t.Elem()))
 		return et
 	case reflect.Slice:
 		et := &SliceType{}
-		savetype(t, et)
-		*et = *NewSliceType(fromreflecttype(t.Elem()))
+		b[t] = et
+		*et = *NewSliceType(b.build(t.Elem()))
 		return et
 	case reflect.Struct:
 		fields := make([]Field, 0, t.NumField())
@@ -540,7 +565,7 @@ func fromreflecttype(t reflect.Type) Type {
 			field := t.Field(i)
 			fields = append(fields, Field{
 				Name: field.Name,
-				Type: fromreflecttype(field.Type),
+				Type: b.build(field.Type),
 			})
 		}
 		return NewStructType(fields)
-- 
2.43.0


From e7a7fdb3f92ec4cbdb8b3878516a7e2ffa973cb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:58 +0000
Subject: [PATCH 36/55] fix: compare and convert untyped nil values

---
 expr/value.go | 37 ++++++++++++++++++++++++++++++-------
 1 file changed, 30 insertions(+), 7 deletions(-)

diff --git a/expr/value.go b/expr/value.go
index dec41d5..40f51ae 100644
--- a/expr/value.go
+++ b/expr/value.go
@@ -140,8 +140,6 @@ func promote(from Value, to Type) Value {
 		default:
 			panic(ConversionError{From: ftype, To: to})
 		}
-	case UntypedNil:
-		return val{reflect.Zero(toreflecttype(to)), to}
 	default:
 		panic(ConversionError{From: ftype, To: to})
 	}
@@ -316,12 +314,33 @@ func (v val) LogicalAnd(rhs Value) Value {
 	return val{reflect.ValueOf(lv && rv), NewPrimitiveType(Bool)}
 }
 
+// equalnil compares a value with an untyped nil. Neither value is one if ok is
+// false.
+func equalnil(v, rhs Value) (eq, ok bool) {
+	if v.Type().Kind() == UntypedNil {
+		v, rhs = rhs, v
+	}
+	if rhs.Type().Kind() != UntypedNil {
+		return false, false
+	}
+	if v.Type().Kind() == UntypedNil || !assignable(rhs.Type(), v.Type()) {
+		panic(ConversionError{From: rhs.Type(), To: v.Type()})
+	}
+	return v.Value().IsNil(), true
+}
+
 func (v val) Equal(rhs Value) Value {
+	if eq, ok := equalnil(v, rhs); ok {
+		return val{reflect.ValueOf(eq), NewPrimitiveType(Bool)}
+	}
 	l, r := coerce(v, rhs)
 	return val{reflect.ValueOf(l.RawValue() == r.RawValue()), NewPrimitiveType(Bool)}
 }
 
 func (v val) NotEqual(rhs Value) Value {
+	if eq, ok := equalnil(v, rhs); ok {
+		return val{reflect.ValueOf(!eq), NewPrimitiveType(Bool)}
+	}
 	l, r := coerce(v, rhs)
 	return val{reflect.ValueOf(l.RawValue() != r.RawValue()), NewPrimitiveType(Bool)}
 }
@@ -859,15 +878,19 @@ func (v val) Index(rhs Value) Value {
 	case *SliceType:
 		return val{v.v.Index(promote(rhs, NewPrimitiveType(Int)).RawValue().(int)), t.Elem()}
 	case *MapType:
-		return val{v.v.MapIndex(convert(promote(rhs, t.Key()), v.v.Type().Key())), t.Value()}
+		return val{v.v.MapIndex(convert(rhs, t.Key(), v.v.Type().Key())), t.Value()}
 	default:
 		panic(InvalidOpError{Op: "[]", V: v})
 	}
 }
 
-// convert returns v as a value of the runtime type t, which may be another
-// named type with the same underlying type.
-func convert(v Value, t reflect.Type) reflect.Value {
+// convert returns v as a value of type to. The runtime type t of the result
+// may be another named type with the same underlying type.
+func convert(v Value, to Type, t reflect.Type) reflect.Value {
+	if v.Type().Kind() == UntypedNil && assignable(v.Type(), to) {
+		return reflect.Zero(t)
+	}
+	v = promote(v, to)
 	rv := v.Value()
 	if _, ok := primRType[v.Type().Kind()]; ok && rv.IsValid() && rv.Type() != t {
 		return rv.Convert(t)
@@ -885,7 +908,7 @@ func (v val) Call(in []Value) Value {
 	}
 	inconv := []reflect.Value{}
 	for i, n := range in {
-		inconv = append(inconv, convert(promote(n, ft.In(i)), v.v.Type().In(i)))
+		inconv = append(inconv, convert(n, ft.In(i), v.v.Type().In(i)))
 	}
 	out := v.v.Call(inconv)
 	if len(out) != 1 {
-- 
2.43.0


From 854eda74aa9cc6d2043b8c012d68efe3c8168059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:59 +0000
Subject: [PATCH 37/55] fix: negate untyped integer constants as signed values

---
 expr/value.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/expr/value.go b/expr/value.go
index 40f51ae..bcb58ca 100644
--- a/expr/value.go
+++ b/expr/value.go
@@ -205,6 +205,9 @@ func (v val) Negate() Value {
 	case uint32:
 		return val{reflect.ValueOf(-n), v.t}
 	case uint64:
+		if v.t.Kind() == UntypedInt {
+			return literalintval(-int64(n))
+		}
 		return val{reflect.ValueOf(-n), v.t}
 	case uintptr:
 		return val{reflect.ValueOf(-n), v.t}
@@ -247,6 +250,9 @@ func (v val) BitNot() Value {
 	case uint32:
 		return val{reflect.ValueOf(^n), v.t}
 	case uint64:
+		if v.t.Kind() == UntypedInt {
+			return literalintval(^int64(n))
+		}
 		return val{reflect.ValueOf(^n), v.t}
 	case uintptr:
 		return val{reflect.ValueOf(^n), v.t}
-- 
2.43.0


From d28b096e25ad9b522e619c1b6f5c63279e051506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:37 +0000
Subject: [PATCH 38/55] fix: size unnamed fields of struct types

---
 field.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/field.go b/field.go
index 786d0e2..1a7a06c 100644
--- a/field.go
+++ b/field.go
@@ -406,6 +406,11 @@ func (f *field) bitSizeUsingInterface(val reflect.Value) (int, bool) {
 		return 0, false
 	}
 
+	// Parts of unnamed fields can not be used.
+	if !val.CanInterface() {
+		return 0, false
+	}
+
 	if s, ok := f.bitSizer(val); ok {
 		return s.BitSize(), true
 	}
-- 
2.43.0


From c4277d670cdf36b7eddfd5236d04a665dc0c24c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:09 +0000
Subject: [PATCH 39/55] fix: allow expressions on values with unsupported parts

---
 expr/type.go | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/expr/type.go b/expr/type.go
index d8b30e5..4fd894c 100644
--- a/expr/type.go
+++ b/expr/type.go
@@ -429,6 +429,21 @@ func (t FuncType) Out(i int) Type {
 	return t.out[i]
 }
 
+// opaquetype is the type of values that are not supported by the language.
+type opaquetype struct {
+	t reflect.Type
+}
+
+// String implements Type.
+func (t opaquetype) String() string {
+	return t.t.String()
+}
+
+// Kind implements Type.
+func (opaquetype) Kind() Kind {
+	return Invalid
+}
+
 // TypeEqual returns true if the two types are equal.
 func TypeEqual(a, b Type) bool {
 	// TODO: this could be a bit more precise.
@@ -570,7 +585,8 @@ func (b typebuilder) build(t reflect.Type) Type {
 		}
 		return NewStructType(fields)
 	default:
-		panic(ErrNotRepresentable)
+		// There are no operations on these, but values may contain them.
+		return &opaquetype{t}
 	}
 }
 
-- 
2.43.0


From 2f43ed3552e34c53c6dea9cfdf00332a0638901d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:39 +0000
Subject: [PATCH 40/55] fix: fail when a value exceeds its array

---
 encoder.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/encoder.go b/encoder.go
index ccfd636..7b02afb 100644
--- a/encoder.go
+++ b/encoder.go
@@ -315,6 +315,9 @@ func (e *encoder) write(f field, v reflect.Value) {
 			if f.BinaryType.Kind() == reflect.Array {
 				cap = f.BinaryType.Len()
 			}
+			if len > cap {
+				panic(fmt.Errorf("%s: length %d exceeds array length %d", f.Name, len, cap))
+			}
 			for i := 0; i < len; i++ {
 				e.write(ef, ov.Index(i))
 			}
-- 
2.43.0


From 5a501a5033490ac902b3250b3db369a218217685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:19 +0000
Subject: [PATCH 41/55] fix: read signed exponents of floating-point literals

---
 expr/lex.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/expr/lex.go b/expr/lex.go
index 7008164..570d5be 100644
--- a/expr/lex.go
+++ b/expr/lex.go
@@ -7,6 +7,7 @@ import (
 	"fmt"
 	"io"
 	"strconv"
+	"strings"
 	"unicode"
 	"unicode/utf8"
 )
@@ -39,6 +40,10 @@ func isnumber(c rune) bool {
 	return isdigit(c) || ishex(c) || c == '.' || lower(c) == 'x'
 }
 
+func issign(c rune) bool {
+	return c == '+' || c == '-'
+}
+
 func isident(c rune) bool {
 	return isletter(c) || isdigit(c)
 }
@@ -285,6 +290,12 @@ func (s *scanner) scannumber(t token) token {
 	for {
 		if r, ok := s.acceptfn(isnumber); ok {
 			t.sval += string(r)
+			if lower(r) == 'e' && !strings.ContainsAny(t.sval, "xX") {
+				// The exponent of a decimal floating-point number.
+				if r, ok := s.acceptfn(issign); ok {
+					t.sval += string(r)
+				}
+			}
 			continue
 		}
 		break
-- 
2.43.0


From 1bb46d2b250e7acdc29d2c9eea022e503e414554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:21 +0000
Subject: [PATCH 42/55] fix: reject malformed and out of range integer literals

---
 expr/lex.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/expr/lex.go b/expr/lex.go
index 570d5be..4ea394e 100644
--- a/expr/lex.go
+++ b/expr/lex.go
@@ -281,6 +281,11 @@ func (s *scanner) scanident() token {
 	return t
 }
 
+// isinteger returns true for the text of an integer literal.
+func isinteger(s string) bool {
+	return strings.ContainsAny(s, "xX") || !strings.ContainsAny(s, ".eE")
+}
+
 func (s *scanner) scannumber(t token) token {
 	if r, ok := s.acceptfn(isnumber); ok {
 		t.sval += string(r)
@@ -311,6 +316,9 @@ func (s *scanner) scannumber(t token) token {
 		t.fval = float64(t.ival)
 		t.kind = inttoken
 		t.sign = true
+	} else if isinteger(t.sval) {
+		// Malformed or out of range; not a floating-point number.
+		return token{kind: errtoken, eval: err}
 	} else if t.fval, err = strconv.ParseFloat(t.sval, 64); err == nil {
 		t.ival = int64(t.fval)
 		t.uval = uint64(t.fval)
-- 
2.43.0


From 4de98414940612f57af27879375b255c3d3edeb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:23 +0000
Subject: [PATCH 43/55] fix: escapes in rune literals

---
 expr/lex.go | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/expr/lex.go b/expr/lex.go
index 4ea394e..07d7bf3 100644
--- a/expr/lex.go
+++ b/expr/lex.go
@@ -335,6 +335,14 @@ func runebytes(r rune) []byte {
 	return runebuf[:l]
 }
 
+// escapedrune returns the encoding of an escaped code point.
+func escapedrune(code uint64) []byte {
+	if code > utf8.MaxRune || !utf8.ValidRune(rune(code)) {
+		panic(fmt.Errorf("escape is invalid code point %x", code))
+	}
+	return runebytes(rune(code))
+}
+
 func (s *scanner) scanescape(quote byte) []byte {
 	switch {
 	case s.accept('a'):
@@ -377,7 +385,7 @@ func (s *scanner) scanescape(quote byte) []byte {
 		if err != nil {
 			panic(err)
 		}
-		return runebytes(rune(code))
+		return escapedrune(code)
 	case s.accept('U'):
 		hex := string([]rune{
 			s.expectfn(ishex), s.expectfn(ishex), s.expectfn(ishex), s.expectfn(ishex),
@@ -387,7 +395,7 @@ func (s *scanner) scanescape(quote byte) []byte {
 		if err != nil {
 			panic(err)
 		}
-		return runebytes(rune(code))
+		return escapedrune(code)
 	default:
 		panic(fmt.Errorf("unexpected escape code %c", s.readrune()))
 	}
@@ -413,8 +421,14 @@ func (s *scanner) scanrune() token {
 	defer s.expect('\'')
 	switch {
 	case s.accept('\\'):
-		r := []rune(string(s.scanescape('\'')))
-		return token{kind: runetoken, ival: int64(r[0])}
+		b := s.scanescape('\'')
+		if len(b) == 1 {
+			// Octal and hexadecimal escapes denote a code point here.
+			return token{kind: runetoken, ival: int64(b[0])}
+		}
+		return token{kind: runetoken, ival: int64([]rune(string(b))[0])}
+	case s.peekmatch(func(r rune) bool { return r == '\'' }):
+		panic(errors.New("empty rune literal or unescaped quote"))
 	default:
 		return token{kind: runetoken, ival: int64(s.readrune())}
 	}
-- 
2.43.0


From 2668a4483329cbd0bb9e7a6755e556d218186cc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:22 +0000
Subject: [PATCH 44/55] fix: shift by rune and computed constants

---
 expr/value.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/expr/value.go b/expr/value.go
index bcb58ca..a05f271 100644
--- a/expr/value.go
+++ b/expr/value.go
@@ -732,6 +732,12 @@ func (v val) Lsh(rhs Value) Value {
 		shift = uint64(rv)
 	case uintptr:
 		shift = uint64(rv)
+	case int64:
+		// A constant, such as a rune, that is not negative.
+		if rhs.Type().Kind() != UntypedInt || rv < 0 {
+			panic(InvalidOpError{Op: "<<", V: rhs})
+		}
+		shift = uint64(rv)
 	default:
 		panic(InvalidOpError{Op: "<<", V: rhs})
 	}
@@ -781,6 +787,12 @@ func (v val) Rsh(rhs Value) Value {
 		shift = uint64(rv)
 	case uintptr:
 		shift = uint64(rv)
+	case int64:
+		// A constant, such as a rune, that is not negative.
+		if rhs.Type().Kind() != UntypedInt || rv < 0 {
+			panic(InvalidOpError{Op: ">>", V: rhs})
+		}
+		shift = uint64(rv)
 	default:
 		panic(InvalidOpError{Op: ">>", V: rhs})
 	}
-- 
2.43.0


From 9af2a57c8278f166eadf7b68555a69e3b852df4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:39 +0000
Subject: [PATCH 45/55] fix: do not allocate more elements than the input can
 hold

---
 decoder.go | 40 ++++++++++++++++++++++++++++++++++++----
 1 file changed, 36 insertions(+), 4 deletions(-)

diff --git a/decoder.go b/decoder.go
index 638427b..9437ad2 100644
--- a/decoder.go
+++ b/decoder.go
@@ -193,6 +193,40 @@ func (d *decoder) skip(f field, v reflect.Value) {
 	d.skipBits(d.fieldbits(f, v))
 }
 
+// minBits returns a lower bound of the encoded size of a field.
+func minBits(f field, depth int) (size int) {
+	if f.BinaryType == nil || f.IfExpr != nil || depth > 4 {
+		return 0
+	}
+	size = f.Skip * 8
+	switch {
+	case hasOwnSize(f.NativeType), f.SwitchExpr != nil, f.BitsExpr != nil,
+		f.Name == "_" && !isTypeTrivial(f.NativeType):
+		return size
+	case f.BitSize != 0:
+		return size + int(f.BitSize)
+	}
+	switch f.BinaryType.Kind() {
+	case reflect.Struct:
+		for _, field := range cachedFieldsFromStruct(f.BinaryType) {
+			size += minBits(field, depth+1)
+		}
+	case reflect.Array:
+		if n := f.BinaryType.Len(); n > 0 {
+			size += n * minBits(f.Elem(), depth+1)
+		}
+	case reflect.Ptr:
+		size += minBits(f.Elem(), depth+1)
+	case reflect.Bool, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64,
+		reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64,
+		reflect.Float32, reflect.Float64, reflect.Complex64, reflect.Complex128:
+		size += 8 * int(f.BinaryType.Size())
+	case reflect.Int, reflect.Uint:
+		size += 32
+	}
+	return size
+}
+
 func (d *decoder) unpacker(v reflect.Value) (Unpacker, bool) {
 	// Pointers get a new target first.
 	if v.Kind() == reflect.Ptr {
@@ -447,10 +481,8 @@ func (d *decoder) read(f field, v reflect.Value) {
 				}
 			} else {
 				// Do not allocate more than the input can fill.
-				if ef := f.Elem(); ef.Trivial {
-					if n := d.fieldbits(ef, reflect.New(ef.BinaryType).Elem()); n > 0 && alen > 8*len(d.buf)/n {
-						panic(io.ErrUnexpectedEOF)
-					}
+				if n := minBits(f.Elem(), 0); n > 0 && alen > 8*len(d.buf)/n {
+					panic(io.ErrUnexpectedEOF)
 				}
 				v.Set(reflect.MakeSlice(f.NativeType, alen, alen))
 				fixed()
-- 
2.43.0


From a057d338fef4e5452790035540249b21a7d44c8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:44 +0000
Subject: [PATCH 46/55] fix: empty option values in struct tags are errors

---
 tag.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/tag.go b/tag.go
index 92ee33b..5a280b2 100644
--- a/tag.go
+++ b/tag.go
@@ -97,6 +97,9 @@ func (opts *tagOptions) parse(tag string) error {
 			}
 		}
 		result := tag[:i]
+		if result == "" {
+			return "", errors.New("expected identifier")
+		}
 		tag = tag[i:]
 		return result, nil
 	}
@@ -169,6 +172,9 @@ func (opts *tagOptions) parse(tag string) error {
 			}
 		}
 		result := tag[:i]
+		if result == "" {
+			return "", errors.New("expected expression")
+		}
 		tag = tag[i:]
 		return result, nil
 	}
-- 
2.43.0


From f27f83e4efe53069b06f2e862c3ef855d750f3d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:47 +0000
Subject: [PATCH 47/55] fix: array lengths in struct tags are Go integer
 literals

---
 typestr.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/typestr.go b/typestr.go
index 4dcc3a1..0a4ceb3 100644
--- a/typestr.go
+++ b/typestr.go
@@ -63,7 +63,7 @@ func typeOfExpr(expr ast.Expr) (reflect.Type, error) {
 			if lexpr.Kind != token.INT {
 				return nil, fmt.Errorf("invalid array size type")
 			}
-			len, err := strconv.Atoi(lexpr.Value)
+			len, err := strconv.ParseInt(lexpr.Value, 0, 0)
 			if err != nil {
 				return nil, err
 			}
@@ -73,7 +73,7 @@ func typeOfExpr(expr ast.Expr) (reflect.Type, error) {
 			if err != nil {
 				return nil, err
 			}
-			return reflect.ArrayOf(len, sub), nil
+			return reflect.ArrayOf(int(len), sub), nil
 		}
 	case *ast.Ident:
 		// Primitive types
-- 
2.43.0


From 45ab7bc8579d7423ed6a8bbd77c314f3d4d92fec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:10 +0000
Subject: [PATCH 48/55] fix: sizeof is not ignored on counted fields

---
 field.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/field.go b/field.go
index 1a7a06c..000cc8c 100644
--- a/field.go
+++ b/field.go
@@ -221,7 +221,8 @@ func fieldsFromStruct(typ reflect.Type) (result fields) {
 			sindex = result[j].Index
 			result[j].TIndex = i
 			delete(sizeOfMap, val.Name)
-		} else if opts.SizeOf != "" {
+		}
+		if opts.SizeOf != "" {
 			sizeOfMap[opts.SizeOf] = len(result)
 		}
 
-- 
2.43.0


From 8109778acecb1507da6f169312966bbbc756f5e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:47 +0000
Subject: [PATCH 49/55] fix: sizefrom must name a field even if a counter is
 known

---
 field.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/field.go b/field.go
index 000cc8c..263d07c 100644
--- a/field.go
+++ b/field.go
@@ -231,13 +231,15 @@ func fieldsFromStruct(typ reflect.Type) (result fields) {
 			if !validSizeType(val.Type) {
 				panic(ErrInvalidSizeFrom)
 			}
+			found := false
 			for j, val := range result {
 				if opts.SizeFrom == val.Name {
 					sindex = val.Index
 					result[j].TIndex = i
+					found = true
 				}
 			}
-			if sindex == -1 {
+			if !found {
 				panic(fmt.Errorf("couldn't find SizeFrom field %s", opts.SizeFrom))
 			}
 		}
-- 
2.43.0


From b66e28cf7d1857d60d7a67027bfb9c8a835936da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:04 +0000
Subject: [PATCH 50/55] fix: pad fixed-size arrays with zero values of the
 field's own element type

---
 encoder.go     | 2 +-
 structstack.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/encoder.go b/encoder.go
index 7b02afb..6ec25ff 100644
--- a/encoder.go
+++ b/encoder.go
@@ -322,7 +322,7 @@ func (e *encoder) write(f field, v reflect.Value) {
 				e.write(ef, ov.Index(i))
 			}
 			for i := len; i < cap; i++ {
-				e.write(ef, reflect.New(f.BinaryType.Elem()).Elem())
+				e.write(ef, reflect.New(ef.NativeType).Elem())
 			}
 		default:
 			panic(fmt.Errorf("invalid array cast type: %s", f.NativeType.String()))
diff --git a/structstack.go b/structstack.go
index e09778b..9274adb 100644
--- a/structstack.go
+++ b/structstack.go
@@ -235,7 +235,7 @@ func (s *structstack) fieldbits(f field, val reflect.Value) (size int) {
 						size += s.fieldbits(elem, val.Index(i))
 					} else {
 						// Padded with zero values up to the array length.
-						size += s.fieldbits(elem, reflect.New(elem.BinaryType).Elem())
+						size += s.fieldbits(elem, reflect.New(elem.NativeType).Elem())
 					}
 				}
 			}
-- 
2.43.0


From e9ac78634eeb54c62edcca08df766caf6d64c1d4 Mon Sep 17 00:00:00 2001
From: x <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:09 +0000
Subject: [PATCH 51/55] fix: types of functions without parameters or results
 are equal however they are made

---
 expr/type.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/expr/type.go b/expr/type.go
index 4fd894c..84d6077 100644
--- a/expr/type.go
+++ b/expr/type.go
@@ -324,6 +324,7 @@ type StructType struct {
 
 // NewStructType returns a new struct type.
 func NewStructType(fields []Field) *StructType {
+	fields = append([]Field{}, fields...)
 	fieldMap := map[string]Field{}
 	for _, field := range fields {
 		fieldMap[field.Name] = field
@@ -391,7 +392,7 @@ type FuncType struct {
 
 // NewFuncType returns a new function type.
 func NewFuncType(in []Type, out []Type, variadic bool) *FuncType {
-	return &FuncType{in: in, out: out, variadic: variadic}
+	return &FuncType{in: append([]Type{}, in...), out: append([]Type{}, out...), variadic: variadic}
 }
 
 // String implements Type.
-- 
2.43.0


From be547c0c6e61f9d461d54b066f7d7b9ceb8b0d71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:11 +0000
Subject: [PATCH 52/55] fix: writing a recursive slice, map or pointer type
 ends

---
 expr/type.go | 30 ++++++++++++++++++++++++++----
 1 file changed, 26 insertions(+), 4 deletions(-)

diff --git a/expr/type.go b/expr/type.go
index 84d6077..4ce8af5 100644
--- a/expr/type.go
+++ b/expr/type.go
@@ -109,6 +109,28 @@ type Type interface {
 	String() string
 }
 
+// typestring writes a type, eliding types that are being written already.
+func typestring(t Type, outer []Type) string {
+	for _, o := range outer {
+		if o == t {
+			return "..."
+		}
+	}
+	switch t := t.(type) {
+	case *ArrayType:
+		return fmt.Sprintf("[%d]%s", t.count, typestring(t.elem, append(outer, t)))
+	case *SliceType:
+		return "[]" + typestring(t.elem, append(outer, t))
+	case *MapType:
+		outer = append(outer, t)
+		return "map[" + typestring(t.key, outer) + "]" + typestring(t.val, outer)
+	case *PtrType:
+		return "*" + typestring(t.elem, append(outer, t))
+	default:
+		return t.String()
+	}
+}
+
 // PrimitiveType is the type of primitives.
 type PrimitiveType struct {
 	kind Kind
@@ -237,7 +259,7 @@ func NewArrayType(count int, elem Type) *ArrayType {
 
 // String implements Type.
 func (t ArrayType) String() string {
-	return fmt.Sprintf("[%d]%s", t.count, t.elem.String())
+	return fmt.Sprintf("[%d]%s", t.count, typestring(t.elem, nil))
 }
 
 // Kind implements Type.
@@ -267,7 +289,7 @@ func NewSliceType(elem Type) *SliceType {
 
 // String implements Type.
 func (t SliceType) String() string {
-	return "[]" + t.elem.String()
+	return "[]" + typestring(t.elem, nil)
 }
 
 // Kind implements Type.
@@ -292,7 +314,7 @@ func NewMapType(key Type, val Type) Type {
 
 // String implements Type.
 func (t MapType) String() string {
-	return "map[" + t.key.String() + "]" + t.val.String()
+	return "map[" + typestring(t.key, nil) + "]" + typestring(t.val, nil)
 }
 
 // Kind implements Type.
@@ -370,7 +392,7 @@ func NewPtrType(elem Type) *PtrType {
 
 // String implements Type.
 func (t PtrType) String() string {
-	return "*" + t.elem.String()
+	return "*" + typestring(t.elem, nil)
 }
 
 // Kind implements Type.
-- 
2.43.0


From 48553decb6a42cf976f3d73ba41d254a91e98f8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:32 +0000
Subject: [PATCH 53/55] fix: indexing a map by a missing key gives the zero
 value

---
 expr/value.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/expr/value.go b/expr/value.go
index a05f271..485abf9 100644
--- a/expr/value.go
+++ b/expr/value.go
@@ -896,7 +896,11 @@ func (v val) Index(rhs Value) Value {
 	case *SliceType:
 		return val{v.v.Index(promote(rhs, NewPrimitiveType(Int)).RawValue().(int)), t.Elem()}
 	case *MapType:
-		return val{v.v.MapIndex(convert(rhs, t.Key(), v.v.Type().Key())), t.Value()}
+		elem := v.v.MapIndex(convert(rhs, t.Key(), v.v.Type().Key()))
+		if !elem.IsValid() {
+			elem = reflect.Zero(v.v.Type().Elem())
+		}
+		return val{elem, t.Value()}
 	default:
 		panic(InvalidOpError{Op: "[]", V: v})
 	}
-- 
2.43.0


From f3672d63a4c8f6159be4563fc016fcc7810e5c1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:49 +0000
Subject: [PATCH 54/55] fix: variadic functions take any number of final
 arguments

---
 expr/value.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/expr/value.go b/expr/value.go
index 485abf9..7a5dd0f 100644
--- a/expr/value.go
+++ b/expr/value.go
@@ -925,12 +925,21 @@ func (v val) Call(in []Value) Value {
 	if !ok {
 		panic("Call invoked on non-function")
 	}
-	if len(in) != ft.NumIn() {
+	nfixed := ft.NumIn()
+	if ft.IsVariadic() {
+		nfixed--
+	}
+	if len(in) < nfixed || (len(in) > nfixed && !ft.IsVariadic()) {
 		panic("invalid number of arguments to function")
 	}
 	inconv := []reflect.Value{}
 	for i, n := range in {
-		inconv = append(inconv, convert(n, ft.In(i), v.v.Type().In(i)))
+		if i < nfixed {
+			inconv = append(inconv, convert(n, ft.In(i), v.v.Type().In(i)))
+			continue
+		}
+		elem := ft.In(nfixed).(*SliceType).Elem()
+		inconv = append(inconv, convert(n, elem, v.v.Type().In(nfixed).Elem()))
 	}
 	out := v.v.Call(inconv)
 	if len(out) != 1 {
-- 
2.43.0


From d4f9114c037bf821905e4eb8b57ae4c14a11ef27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:26 +0000
Subject: [PATCH 55/55] fix: fields that share a counter must agree, and all
 counters of a field are set

---
 encoder.go |  6 ++++++
 field.go   | 14 ++++++++------
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/encoder.go b/encoder.go
index 6ec25ff..50b1ddc 100644
--- a/encoder.go
+++ b/encoder.go
@@ -307,6 +307,12 @@ func (e *encoder) write(f field, v reflect.Value) {
 					panic(fmt.Errorf("length does not match size expression (%d != %d)", ov.Len(), l))
 				}
 			}
+			if f.SIndex != -1 {
+				// The counter may hold the length of another field.
+				if neg, l, ok := integer(struc.Field(f.SIndex)); ok && (neg || l != uint64(ov.Len())) {
+					panic(fmt.Errorf("%s: length %d does not match its counter", f.Name, ov.Len()))
+				}
+			}
 			fallthrough
 		case reflect.Array:
 			ef := f.Elem()
diff --git a/field.go b/field.go
index 263d07c..5076119 100644
--- a/field.go
+++ b/field.go
@@ -170,8 +170,8 @@ func fieldsFromStruct(typ reflect.Type) (result fields) {
 
 	count := typ.NumField()
 
-	// Maps the name of a counted field to the counter's index in result.
-	sizeOfMap := map[string]int{}
+	// Maps the name of a counted field to its counters' indices in result.
+	sizeOfMap := map[string][]int{}
 
 	for i := 0; i < count; i++ {
 		val := typ.Field(i)
@@ -214,16 +214,18 @@ func fieldsFromStruct(typ reflect.Type) (result fields) {
 		// SizeOf
 		sindex := -1
 		tindex := -1
-		if j, ok := sizeOfMap[val.Name]; ok {
+		if counters, ok := sizeOfMap[val.Name]; ok {
 			if !validSizeType(val.Type) {
 				panic(ErrInvalidSizeOf)
 			}
-			sindex = result[j].Index
-			result[j].TIndex = i
+			for _, j := range counters {
+				sindex = result[j].Index
+				result[j].TIndex = i
+			}
 			delete(sizeOfMap, val.Name)
 		}
 		if opts.SizeOf != "" {
-			sizeOfMap[opts.SizeOf] = len(result)
+			sizeOfMap[opts.SizeOf] = append(sizeOfMap[opts.SizeOf], len(result))
 		}
 
 		// SizeFrom
-- 
2.43.0

