From 303d8254b09dd37224932aad1f95f6b76a0a173f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:33 +0000
Subject: [PATCH 01/20] fix: single-element arrays of pointers are stored
 inline in interfaces

---
 types.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/types.go b/types.go
index b4aaab4..aecdde4 100644
--- a/types.go
+++ b/types.go
@@ -66,12 +66,16 @@ func isInteger(t reflect.Type) bool {
 	}
 }
 
+// isInlined returns whether values of type t are
+// stored directly in the data word of an interface.
 func isInlined(t reflect.Type) bool {
 	switch t.Kind() {
-	case reflect.Ptr, reflect.Map:
+	case reflect.Ptr, reflect.Map, reflect.Chan, reflect.Func, reflect.UnsafePointer:
 		return true
 	case reflect.Struct:
 		return t.NumField() == 1 && isInlined(t.Field(0).Type)
+	case reflect.Array:
+		return t.Len() == 1 && isInlined(t.Elem())
 	default:
 		return false
 	}
-- 
2.43.0


From d0ada94a83a207361ec5a3dd7b4fa069d5cc0d18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:56 +0000
Subject: [PATCH 02/20] fix: pass map and pointer-shaped receivers to marshaler
 methods correctly

---
 encode.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/encode.go b/encode.go
index 7525b1f..f6e1c3e 100644
--- a/encode.go
+++ b/encode.go
@@ -671,7 +671,7 @@ func encodeMarshaler(
 			i = *(*interface{ M() })(p)
 		}
 	} else {
-		i = packEface(p, t, t.Kind() == reflect.Ptr && !canAddr)
+		i = packEface(p, t, isInlined(t) && !canAddr)
 	}
 	return fn(i, dst, opts, t)
 }
-- 
2.43.0


From b22fbdd899881f9746636be86734725281142640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:36 +0000
Subject: [PATCH 03/20] fix: nil values of a sync.Map encode as null

---
 json.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/json.go b/json.go
index 337396f..df3513b 100644
--- a/json.go
+++ b/json.go
@@ -183,6 +183,9 @@ func marshalJSON(v interface{}, opts encOpts) ([]byte, error) {
 }
 
 func appendJSON(dst []byte, v interface{}, opts encOpts) ([]byte, error) {
+	if v == nil {
+		return append(dst, "null"...), nil
+	}
 	ins := cachedInstr(reflect.TypeOf(v))
 	var err error
 	dst, err = ins(unpackEface(v).word, dst, opts)
-- 
2.43.0


From 9fcec415d2dc5843ea7774a1c919bdcf041f68cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:40 +0000
Subject: [PATCH 04/20] fix: values of non-empty interface types are read with
 the right layout

---
 encode.go      | 14 +++++++-------
 instruction.go |  3 +++
 2 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/encode.go b/encode.go
index f6e1c3e..f33edb2 100644
--- a/encode.go
+++ b/encode.go
@@ -63,14 +63,14 @@ func encodeFloat64(p unsafe.Pointer, dst []byte, _ encOpts) ([]byte, error) {
 }
 
 func encodeInterface(p unsafe.Pointer, dst []byte, opts encOpts) ([]byte, error) {
-	v := *(*interface{})(p)
-	if v == nil {
-		return append(dst, "null"...), nil
-	}
-	typ := reflect.TypeOf(v)
-	ins := cachedInstr(typ)
+	return appendJSON(dst, *(*interface{})(p), opts)
+}
 
-	return ins(unpackEface(v).word, dst, opts)
+// encodeMethodInterface is similar to encodeInterface,
+// but for the interface types that have methods, whose
+// memory layout differs.
+func encodeMethodInterface(p unsafe.Pointer, dst []byte, opts encOpts) ([]byte, error) {
+	return appendJSON(dst, *(*interface{ M() })(p), opts)
 }
 
 func encodeNumber(p unsafe.Pointer, dst []byte, opts encOpts) ([]byte, error) {
diff --git a/instruction.go b/instruction.go
index 138d7d2..5077d86 100644
--- a/instruction.go
+++ b/instruction.go
@@ -99,6 +99,9 @@ func newInstruction(t reflect.Type, canAddr, quoted bool) instruction {
 	}
 	switch t.Kind() {
 	case reflect.Interface:
+		if t.NumMethod() != 0 {
+			return encodeMethodInterface
+		}
 		return encodeInterface
 	case reflect.Struct:
 		return newStructInstr(t, canAddr)
-- 
2.43.0


From 4b1cae00ee7d3e6391148ba66da86938b328aa76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:45 +0000
Subject: [PATCH 05/20] fix: escape the text returned by MarshalText

---
 encode.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/encode.go b/encode.go
index f33edb2..37fb873 100644
--- a/encode.go
+++ b/encode.go
@@ -716,13 +716,13 @@ func encodeJSONMarshaler(i interface{}, dst []byte, opts encOpts, t reflect.Type
 	return appendCompactJSON(dst, b, !opts.flags.has(noHTMLEscaping))
 }
 
-func encodeTextMarshaler(i interface{}, dst []byte, _ encOpts, t reflect.Type) ([]byte, error) {
+func encodeTextMarshaler(i interface{}, dst []byte, opts encOpts, t reflect.Type) ([]byte, error) {
 	b, err := i.(encoding.TextMarshaler).MarshalText()
 	if err != nil {
 		return dst, &MarshalerError{t, err, marshalerText}
 	}
 	dst = append(dst, '"')
-	dst = append(dst, b...)
+	dst = appendEscapedBytes(dst, b, opts)
 	dst = append(dst, '"')
 
 	return dst, nil
-- 
2.43.0


From 50b83023408f379c7ca28df5b2b9e308cf7ecebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:49 +0000
Subject: [PATCH 06/20] fix: escape the content of string fields with the
 string option twice

---
 encode.go | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/encode.go b/encode.go
index 37fb873..9d7230d 100644
--- a/encode.go
+++ b/encode.go
@@ -43,9 +43,22 @@ func encodeString(p unsafe.Pointer, dst []byte, opts encOpts) ([]byte, error) {
 
 //nolint:unparam
 func encodeQuotedString(p unsafe.Pointer, dst []byte, opts encOpts) ([]byte, error) {
-	dst = append(dst, `"\"`...)
-	dst = appendEscapedBytes(dst, sp2b(p), opts)
-	dst = append(dst, `\""`...)
+	if opts.flags.has(noStringEscaping) {
+		dst = append(dst, `"\"`...)
+		dst = append(dst, sp2b(p)...)
+		dst = append(dst, `\""`...)
+
+		return dst, nil
+	}
+	// The value is the JSON encoding of the string,
+	// itself encoded as a JSON string.
+	buf := cachedBuffer()
+	buf.B, _ = encodeString(p, buf.B, opts)
+
+	dst = append(dst, '"')
+	dst = appendEscapedBytes(dst, buf.B, opts)
+	dst = append(dst, '"')
+	bufferPool.Put(buf)
 
 	return dst, nil
 }
-- 
2.43.0


From bd5149d717bc665e7da44b56bbfd0111ea2f0a45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:54 +0000
Subject: [PATCH 07/20] fix: sibling embedded structs must not share their
 offset sequence

---
 struct.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/struct.go b/struct.go
index 7d51a22..34080c1 100644
--- a/struct.go
+++ b/struct.go
@@ -304,7 +304,7 @@ func scanFields(f field, fields, next []field, cnt, ncnt typeCount) ([]field, []
 				typ:      typ,
 				name:     typ.Name(),
 				index:    index,
-				embedSeq: append(f.embedSeq, seq{sf.Offset, isPtr}),
+				embedSeq: append(f.embedSeq[:len(f.embedSeq):len(f.embedSeq)], seq{sf.Offset, isPtr}),
 			})
 		}
 	}
-- 
2.43.0


From d5b4be2372d36d5092ace09b5a3b2a0e473a3618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:58 +0000
Subject: [PATCH 08/20] fix: keep the object well-formed when omitnil drops its
 first field

---
 encode.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/encode.go b/encode.go
index 9d7230d..7b219de 100644
--- a/encode.go
+++ b/encode.go
@@ -1,7 +1,6 @@
 package jettison
 
 import (
-	"bytes"
 	"encoding"
 	"encoding/base64"
 	"encoding/json"
@@ -250,21 +249,22 @@ fieldLoop:
 		if noHTMLEscape {
 			key = f.keyNonEsc
 		}
-		lastKeyOffset := len(dst)
+		off := len(dst)
 		dst = append(dst, nxt)
-		if nxt == '{' {
-			lastKeyOffset++
-		}
-		nxt = ','
 		dst = append(dst, key...)
+		val := len(dst)
 
 		var err error
 		if dst, err = f.instr(fp, dst, opts); err != nil {
 			return dst, err
 		}
-		if f.omitNullMarshaler && len(dst) > 4 && bytes.Compare(dst[len(dst)-4:], []byte("null")) == 0 {
-			dst = dst[:lastKeyOffset]
+		if f.omitNullMarshaler && string(dst[val:]) == "null" {
+			// Remove the key along with the separator, the
+			// next field is still the first if this one was.
+			dst = dst[:off]
+			continue
 		}
+		nxt = ','
 	}
 	if nxt == '{' {
 		return append(dst, "{}"...), nil
-- 
2.43.0


From e331f0e125750d176c83fa550c2165bad9b9a0b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:03 +0000
Subject: [PATCH 09/20] fix: fields promoted through embedded pointers are
 addressable

---
 instruction.go |  2 +-
 struct.go      | 11 +++++++++++
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/instruction.go b/instruction.go
index 5077d86..8a2ff5c 100644
--- a/instruction.go
+++ b/instruction.go
@@ -316,7 +316,7 @@ func newStructFieldsInstr(t reflect.Type, canAddr bool) instruction {
 		// Generate instruction and empty func of the field.
 		// Only strings, floats, integers, and booleans
 		// types can be quoted.
-		f.instr = newInstruction(ftyp, canAddr, f.quoted && isBasicType(etyp))
+		f.instr = newInstruction(ftyp, canAddr || f.hasIndir(), f.quoted && isBasicType(etyp))
 		if f.omitEmpty {
 			f.empty = cachedEmptyFuncOf(ftyp)
 		}
diff --git a/struct.go b/struct.go
index 34080c1..1a42d4d 100644
--- a/struct.go
+++ b/struct.go
@@ -39,6 +39,17 @@ type field struct {
 	embedSeq []seq
 }
 
+// hasIndir returns whether the field is reached
+// through a pointer, which makes it addressable.
+func (f *field) hasIndir() bool {
+	for _, s := range f.embedSeq {
+		if s.indir {
+			return true
+		}
+	}
+	return false
+}
+
 type typeCount map[reflect.Type]int
 
 // byIndex sorts a list of fields by index sequence.
-- 
2.43.0


From be52755da238e1e9e4aa4bb4571a072ee3fe5f94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:07 +0000
Subject: [PATCH 10/20] fix: semicolons are valid in tag names

---
 struct.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/struct.go b/struct.go
index 1a42d4d..32794bc 100644
--- a/struct.go
+++ b/struct.go
@@ -10,7 +10,7 @@ import (
 	"unicode"
 )
 
-const validChars = "!#$%&()*+-./:<=>?@[]^_{|}~ "
+const validChars = "!#$%&()*+-./:;<=>?@[]^_{|}~ "
 
 var fieldsCache sync.Map // map[reflect.Type][]field
 
-- 
2.43.0


From 97a2d54ca0b60a10297fd6f0d14a1deb996bd62a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:12 +0000
Subject: [PATCH 11/20] fix: reject invalid JSON held by a RawMessage

---
 encode.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/encode.go b/encode.go
index 7b219de..a4f4ff0 100644
--- a/encode.go
+++ b/encode.go
@@ -111,6 +111,11 @@ func encodeRawMessage(p unsafe.Pointer, dst []byte, opts encOpts) ([]byte, error
 	if opts.flags.has(noCompact) {
 		return append(dst, v...), nil
 	}
+	if !json.Valid(v) {
+		return dst, &MarshalerError{jsonRawMessageType, &SyntaxError{
+			msg: "json: invalid value",
+		}, marshalerJSON}
+	}
 	return appendCompactJSON(dst, v, !opts.flags.has(noHTMLEscaping))
 }
 
-- 
2.43.0


From 55c16753269b820430af32993669c34ea8b8136d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:58 +0000
Subject: [PATCH 12/20] fix: honor the string option on json.Number and
 time.Duration fields

---
 encode.go      | 11 +++++++++++
 instruction.go | 10 ++++++++--
 2 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/encode.go b/encode.go
index a4f4ff0..9d6a209 100644
--- a/encode.go
+++ b/encode.go
@@ -169,6 +169,17 @@ func encodeDuration(p unsafe.Pointer, dst []byte, opts encOpts) ([]byte, error)
 	}
 }
 
+// encodeQuotedDuration is similar to encodeDuration,
+// but the numeric formats are enclosed with quotes.
+func encodeQuotedDuration(p unsafe.Pointer, dst []byte, opts encOpts) ([]byte, error) {
+	if opts.durationFmt == DurationString {
+		return encodeDuration(p, dst, opts)
+	}
+	dst = append(dst, '"')
+	dst, err := encodeDuration(p, dst, opts)
+	return append(dst, '"'), err
+}
+
 func appendFloat(dst []byte, f float64, bs int) ([]byte, error) {
 	if math.IsInf(f, 0) || math.IsNaN(f) {
 		return dst, &UnsupportedValueError{
diff --git a/instruction.go b/instruction.go
index 8a2ff5c..2b99cf9 100644
--- a/instruction.go
+++ b/instruction.go
@@ -88,7 +88,7 @@ func newInstruction(t reflect.Type, canAddr, quoted bool) instruction {
 	// be interpreted as a basic type. Also, the time.Time
 	// type implements the TextMarshaler interface, but we
 	// want to use a special instruction instead.
-	if ins := newGoTypeInstr(t); ins != nil {
+	if ins := newGoTypeInstr(t, quoted); ins != nil {
 		return ins
 	}
 	if ins := newMarshalerTypeInstr(t, canAddr); ins != nil {
@@ -117,15 +117,21 @@ func newInstruction(t reflect.Type, canAddr, quoted bool) instruction {
 	return newUnsupportedTypeInstr(t)
 }
 
-func newGoTypeInstr(t reflect.Type) instruction {
+func newGoTypeInstr(t reflect.Type, quoted bool) instruction {
 	switch t {
 	case syncMapType:
 		return encodeSyncMap
 	case timeTimeType:
 		return encodeTime
 	case timeDurationType:
+		if quoted {
+			return encodeQuotedDuration
+		}
 		return encodeDuration
 	case jsonNumberType:
+		if quoted {
+			return wrapQuotedInstr(encodeNumber)
+		}
 		return encodeNumber
 	case jsonRawMessageType:
 		return encodeRawMessage
-- 
2.43.0


From 1d39c95723dd5cf9d1d9421f9e11c2600b66147a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:03 +0000
Subject: [PATCH 13/20] fix: use the AppendJSON methods of the elements of byte
 slices and arrays

---
 instruction.go | 8 ++------
 types.go       | 7 +++++++
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/instruction.go b/instruction.go
index 2b99cf9..7e14542 100644
--- a/instruction.go
+++ b/instruction.go
@@ -346,10 +346,7 @@ func newArrayInstr(t reflect.Type, canAddr bool) instruction {
 	// by default, this behavior is defined by
 	// the encoder's options during marshaling.
 	if etyp.Kind() == reflect.Uint8 {
-		pe := reflect.PtrTo(etyp)
-		if !pe.Implements(jsonMarshalerType) && !pe.Implements(textMarshalerType) {
-			isba = true
-		}
+		isba = !isMarshaler(reflect.PtrTo(etyp))
 	}
 	return func(p unsafe.Pointer, dst []byte, opts encOpts) ([]byte, error) {
 		return encodeArray(p, dst, opts, ins, size, t.Len(), isba)
@@ -360,8 +357,7 @@ func newSliceInstr(t reflect.Type) instruction {
 	etyp := t.Elem()
 
 	if etyp.Kind() == reflect.Uint8 {
-		pe := reflect.PtrTo(etyp)
-		if !pe.Implements(jsonMarshalerType) && !pe.Implements(textMarshalerType) {
+		if !isMarshaler(reflect.PtrTo(etyp)) {
 			return encodeByteSlice
 		}
 	}
diff --git a/types.go b/types.go
index aecdde4..f3a1cc5 100644
--- a/types.go
+++ b/types.go
@@ -81,6 +81,13 @@ func isInlined(t reflect.Type) bool {
 	}
 }
 
+// isMarshaler returns whether t implements one
+// of the marshaler interfaces.
+func isMarshaler(t reflect.Type) bool {
+	return t.Implements(appendMarshalerCtxType) || t.Implements(appendMarshalerType) ||
+		t.Implements(jsonMarshalerType) || t.Implements(textMarshalerType)
+}
+
 func isNilable(t reflect.Type) bool {
 	switch t.Kind() {
 	case reflect.Ptr, reflect.Interface, reflect.Slice, reflect.Map:
-- 
2.43.0


From 88b60e226089b0bcb05570ff36f49365c4cf006d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:07 +0000
Subject: [PATCH 14/20] fix: NoUTF8Coercion must not disable the escaping of
 U+2028 and U+2029

---
 encode.go | 52 ++++++++++++++++++++++++----------------------------
 1 file changed, 24 insertions(+), 28 deletions(-)

diff --git a/encode.go b/encode.go
index 9d6a209..d45ca3f 100644
--- a/encode.go
+++ b/encode.go
@@ -882,37 +882,33 @@ func appendEscapedBytes(dst []byte, b []byte, opts encOpts) []byte {
 		}
 		r, size := utf8.DecodeRune(b[i:])
 
-		if !noCoerce {
-			// Coerce to valid UTF-8, by replacing invalid
-			// bytes with the Unicode replacement rune.
-			if r == utf8.RuneError && size == 1 {
-				if at < i {
-					dst = append(dst, b[at:i]...)
-				}
-				dst = append(dst, `\ufffd`...)
-				i += size
-				at = i
-				continue
+		// Coerce to valid UTF-8, by replacing invalid
+		// bytes with the Unicode replacement rune.
+		if !noCoerce && r == utf8.RuneError && size == 1 {
+			if at < i {
+				dst = append(dst, b[at:i]...)
 			}
-			// U+2028 is LINE SEPARATOR.
-			// U+2029 is PARAGRAPH SEPARATOR.
-			// They are both technically valid characters in
-			// JSON strings, but don't work in JSONP, which has
-			// to be evaluated as JavaScript, and can lead to
-			// security holes there. It is valid JSON to escape
-			// them, so we do so unconditionally.
-			// See http://timelessrepo.com/json-isnt-a-javascript-subset.
-			if r == '\u2028' || r == '\u2029' {
-				if at < i {
-					dst = append(dst, b[at:i]...)
-				}
-				dst = append(dst, `\u202`...)
-				dst = append(dst, hex[r&0xF])
-				i += size
-				at = i
-				continue
+			dst = append(dst, `\ufffd`...)
+			i += size
+			at = i
+			continue
+		}
+		// U+2028 is LINE SEPARATOR.
+		// U+2029 is PARAGRAPH SEPARATOR.
+		// They are both technically valid characters in
+		// JSON strings, but don't work in JSONP, which has
+		// to be evaluated as JavaScript, and can lead to
+		// security holes there. It is valid JSON to escape
+		// them, so we do so unconditionally.
+		// See http://timelessrepo.com/json-isnt-a-javascript-subset.
+		if r == '\u2028' || r == '\u2029' {
+			if at < i {
+				dst = append(dst, b[at:i]...)
 			}
+			dst = append(dst, `\u202`...)
+			dst = append(dst, hex[r&0xF])
 			i += size
+			at = i
 			continue
 		}
 		i += size
-- 
2.43.0


From 52be2fd8cbfd9a8d428bda35d3309e356398f5a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:50 +0000
Subject: [PATCH 15/20] fix: encode the times of the year 0

---
 time.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/time.go b/time.go
index 892ab6b..9132b59 100644
--- a/time.go
+++ b/time.go
@@ -2,7 +2,10 @@ package jettison
 
 import "time"
 
-const epoch = 62135683200 // 1970-01-01T00:00:00
+const (
+	epoch = 62135683200    // 1970-01-01T00:00:00
+	era   = 146097 * 86400 // seconds in 400 Gregorian years
+)
 
 // DurationFmt represents the format used
 // to encode a time.Duration value.
@@ -177,10 +180,12 @@ func appendRFC3339Time(t time.Time, dst []byte, nano bool) []byte {
 	// Base layout chars with opening quote.
 	buf[0], buf[5], buf[8], buf[11], buf[14], buf[17] = '"', '-', '-', 'T', ':', ':'
 
-	// Year.
+	// Year. The calendar is moved by an era so that
+	// the number of days is positive for the year 0.
 	_, offset := t.Zone()
-	sec := t.Unix() + int64(offset) + epoch
+	sec := t.Unix() + int64(offset) + epoch + era
 	y, m, d := rdnToYmd(uint32(sec / 86400))
+	y -= 400
 	for i := 4; i >= 1; i-- {
 		buf[i] = byte(y%10) + '0'
 		y /= 10
-- 
2.43.0


From aae63fff7d0f80c1bd677675f57c40dbdca3ee38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:54 +0000
Subject: [PATCH 16/20] fix: escape the times formatted with a custom layout

---
 encode.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/encode.go b/encode.go
index d45ca3f..7d0abda 100644
--- a/encode.go
+++ b/encode.go
@@ -138,8 +138,11 @@ func encodeTime(p unsafe.Pointer, dst []byte, opts encOpts) ([]byte, error) {
 	case time.RFC3339Nano:
 		return appendRFC3339Time(t, dst, true), nil
 	default:
+		// The layout and the name of the time zone may
+		// contain characters that must be escaped.
+		var buf [64]byte
 		dst = append(dst, '"')
-		dst = t.AppendFormat(dst, opts.timeLayout)
+		dst = appendEscapedBytes(dst, t.AppendFormat(buf[:0], opts.timeLayout), opts)
 		dst = append(dst, '"')
 		return dst, nil
 	}
-- 
2.43.0


From 00c6a795e1890a14bd57e589a563325bc25d871d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:35 +0000
Subject: [PATCH 17/20] fix: encode map keys with the precedence of
 encoding/json

---
 encode.go      | 34 ++++++++++++++--------------------
 instruction.go | 25 ++++++++++++-------------
 2 files changed, 26 insertions(+), 33 deletions(-)

diff --git a/encode.go b/encode.go
index 7d0abda..e7c76af 100644
--- a/encode.go
+++ b/encode.go
@@ -635,29 +635,23 @@ func appendSyncMapKey(dst []byte, key interface{}, opts encOpts) ([]byte, error)
 	}
 	var err error
 
-	// Quotes the key if the type is not
-	// encoded with quotes by default.
-	quoted := !isStr && !isTxt
-
-	// Ensure map key precedence for keys of type
-	// string by using the encodeString function
-	// directly instead of the generic appendJSON.
-	if isStr {
+	// Ensure map key precedence by using the
+	// functions of each type directly instead
+	// of the generic appendJSON.
+	switch {
+	case isStr:
 		dst, err = encodeString(unpackEface(key).word, dst, opts)
-		runtime.KeepAlive(key)
-	} else {
-		if quoted {
-			dst = append(dst, '"')
+	case isTxt:
+		if kt.Kind() == reflect.Ptr && unpackEface(key).word == nil {
+			return append(dst, `""`...), nil
 		}
-		dst, err = appendJSON(dst, key, opts)
-	}
-	if err != nil {
-		return dst, err
-	}
-	if quoted {
-		dst = append(dst, '"')
+		dst, err = encodeTextMarshaler(key, dst, opts, kt)
+	default:
+		dst, err = newBasicTypeInstr(kt, true)(unpackEface(key).word, dst, opts)
 	}
-	return dst, nil
+	runtime.KeepAlive(key)
+
+	return dst, err
 }
 
 func encodeMarshaler(
diff --git a/instruction.go b/instruction.go
index 7e14542..86c06f4 100644
--- a/instruction.go
+++ b/instruction.go
@@ -387,20 +387,19 @@ func newMapInstr(t reflect.Type) instruction {
 	// The standard library has a strict precedence order
 	// for map key types, defined by the documentation of
 	// the json.Marshal function. That's why we bypass the
-	// newTypeInstr function if key type is string.
-	if isString(kt) {
+	// newInstruction function, which would also consider
+	// the other marshalers and the special Go types.
+	switch {
+	case isString(kt):
 		ki = encodeString
-	} else {
-		ki = newInstruction(kt, false, false)
-	}
-	// Wrap the key instruction for types that
-	// do not encode with quotes by default.
-	if !isString(kt) && !kt.Implements(textMarshalerType) {
-		ki = wrapQuotedInstr(ki)
-	}
-	// See issue golang.org/issue/33675 for reference.
-	if kt.Implements(textMarshalerType) && kt.Kind() == reflect.Ptr {
-		ki = wrapTextMarshalerNilCheck(ki)
+	case kt.Implements(textMarshalerType):
+		ki = newTextMarshalerInstr(kt, false)
+		// See issue golang.org/issue/33675 for reference.
+		if kt.Kind() == reflect.Ptr || kt.Kind() == reflect.Interface {
+			ki = wrapTextMarshalerNilCheck(ki)
+		}
+	default:
+		ki = newBasicTypeInstr(kt, true)
 	}
 	vi = newInstruction(et, false, false)
 
-- 
2.43.0


From 6a698b14c0551c881bd97c4708b0c773091b999f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:17 +0000
Subject: [PATCH 18/20] fix: sort the entries of maps by unescaped key

---
 encode.go      | 74 ++++++++++++++++++++++++++++++++++++--------------
 instruction.go | 16 +++++++----
 map.go         |  1 +
 3 files changed, 65 insertions(+), 26 deletions(-)

diff --git a/encode.go b/encode.go
index e7c76af..a4570fe 100644
--- a/encode.go
+++ b/encode.go
@@ -420,24 +420,27 @@ func encodeUnsortedMap(
 	var (
 		n   int
 		err error
+		buf = cachedBuffer()
 	)
 	for ; it.key != nil; mapiternext(it) {
 		if n != 0 {
 			dst = append(dst, ',')
 		}
 		// Encode entry's key.
-		if dst, err = ki(it.key, dst, opts); err != nil {
-			return dst, err
+		if buf.B, err = ki(it.key, buf.B[:0], opts); err != nil {
+			break
 		}
-		dst = append(dst, ':')
+		dst = appendKey(dst, buf.B, opts)
 
 		// Encode entry's value.
 		if dst, err = vi(it.val, dst, opts); err != nil {
-			return dst, err
+			break
 		}
 		n++
 	}
-	return dst, nil
+	bufferPool.Put(buf)
+
+	return dst, err
 }
 
 // encodeUnsortedMap appends the elements of the map
@@ -460,16 +463,16 @@ func encodeSortedMap(
 	for ; it.key != nil; mapiternext(it) {
 		kv := kv{}
 
-		// Encode the key and store the buffer
+		// Append the raw key and store the buffer
 		// portion to use during sort.
 		if buf.B, err = ki(it.key, buf.B, opts); err != nil {
 			break
 		}
-		// Omit quotes of keys.
-		kv.key = buf.B[off+1 : len(buf.B)-1]
+		kv.key = buf.B[off:len(buf.B)]
+		off = len(buf.B)
 
-		// Add separator after key.
-		buf.B = append(buf.B, ':')
+		// Append the encoded key and the separator.
+		buf.B = appendKey(buf.B, kv.key, opts)
 
 		// Encode the value and store the buffer
 		// portion corresponding to the semicolon
@@ -539,16 +542,17 @@ func encodeUnsortedSyncMap(sm *sync.Map, dst []byte, opts encOpts) ([]byte, erro
 	var (
 		n   int
 		err error
+		buf = cachedBuffer()
 	)
 	sm.Range(func(key, value interface{}) bool {
 		if n != 0 {
 			dst = append(dst, ',')
 		}
 		// Encode the key.
-		if dst, err = appendSyncMapKey(dst, key, opts); err != nil {
+		if buf.B, err = appendSyncMapKey(buf.B[:0], key, opts); err != nil {
 			return false
 		}
-		dst = append(dst, ':')
+		dst = appendKey(dst, buf.B, opts)
 
 		// Encode the value.
 		if dst, err = appendJSON(dst, value, opts); err != nil {
@@ -557,6 +561,8 @@ func encodeUnsortedSyncMap(sm *sync.Map, dst []byte, opts encOpts) ([]byte, erro
 		n++
 		return true
 	})
+	bufferPool.Put(buf)
+
 	return dst, err
 }
 
@@ -577,16 +583,16 @@ func encodeSortedSyncMap(sm *sync.Map, dst []byte, opts encOpts) ([]byte, error)
 	sm.Range(func(key, value interface{}) bool {
 		kv := kv{}
 
-		// Encode the key and store the buffer
+		// Append the raw key and store the buffer
 		// portion to use during the later sort.
 		if buf.B, err = appendSyncMapKey(buf.B, key, opts); err != nil {
 			return false
 		}
-		// Omit quotes of keys.
-		kv.key = buf.B[off+1 : len(buf.B)-1]
+		kv.key = buf.B[off:len(buf.B)]
+		off = len(buf.B)
 
-		// Add separator after key.
-		buf.B = append(buf.B, ':')
+		// Append the encoded key and the separator.
+		buf.B = appendKey(buf.B, kv.key, opts)
 
 		// Encode the value and store the buffer
 		// portion corresponding to the semicolon
@@ -620,6 +626,32 @@ func encodeSortedSyncMap(sm *sync.Map, dst []byte, opts encOpts) ([]byte, error)
 	return dst, err
 }
 
+// appendKey appends to dst the JSON string of the
+// raw text of a map key, followed by a colon.
+func appendKey(dst, key []byte, opts encOpts) []byte {
+	dst = append(dst, '"')
+	dst = appendEscapedBytes(dst, key, opts)
+	return append(dst, '"', ':')
+}
+
+// appendStringKey appends to dst the raw text of
+// a map key of kind string.
+func appendStringKey(p unsafe.Pointer, dst []byte, _ encOpts) ([]byte, error) {
+	return append(dst, *(*string)(p)...), nil
+}
+
+// appendTextKey appends to dst the raw text of a
+// map key that implements encoding.TextMarshaler.
+func appendTextKey(i interface{}, dst []byte, _ encOpts, t reflect.Type) ([]byte, error) {
+	b, err := i.(encoding.TextMarshaler).MarshalText()
+	if err != nil {
+		return dst, &MarshalerError{t, err, marshalerText}
+	}
+	return append(dst, b...), nil
+}
+
+// appendSyncMapKey appends to dst the raw text
+// of the key of a sync.Map.
 func appendSyncMapKey(dst []byte, key interface{}, opts encOpts) ([]byte, error) {
 	if key == nil {
 		return dst, errors.New("unsupported nil key in sync.Map")
@@ -640,14 +672,14 @@ func appendSyncMapKey(dst []byte, key interface{}, opts encOpts) ([]byte, error)
 	// of the generic appendJSON.
 	switch {
 	case isStr:
-		dst, err = encodeString(unpackEface(key).word, dst, opts)
+		dst, err = appendStringKey(unpackEface(key).word, dst, opts)
 	case isTxt:
 		if kt.Kind() == reflect.Ptr && unpackEface(key).word == nil {
-			return append(dst, `""`...), nil
+			return dst, nil
 		}
-		dst, err = encodeTextMarshaler(key, dst, opts, kt)
+		dst, err = appendTextKey(key, dst, opts, kt)
 	default:
-		dst, err = newBasicTypeInstr(kt, true)(unpackEface(key).word, dst, opts)
+		dst, err = newBasicTypeInstr(kt, false)(unpackEface(key).word, dst, opts)
 	}
 	runtime.KeepAlive(key)
 
diff --git a/instruction.go b/instruction.go
index 86c06f4..31aa1a1 100644
--- a/instruction.go
+++ b/instruction.go
@@ -257,6 +257,12 @@ func newTextMarshalerInstr(t reflect.Type, hasPtr bool) instruction {
 	}
 }
 
+func newTextKeyInstr(t reflect.Type) instruction {
+	return func(p unsafe.Pointer, dst []byte, opts encOpts) ([]byte, error) {
+		return encodeMarshaler(p, dst, opts, t, false, appendTextKey)
+	}
+}
+
 func newStructInstr(t reflect.Type, canAddr bool) instruction {
 	id := fmt.Sprintf("%p-%t", typeID(t), canAddr)
 
@@ -375,7 +381,7 @@ func newSliceInstr(t reflect.Type) instruction {
 
 func newMapInstr(t reflect.Type) instruction {
 	var (
-		ki instruction
+		ki instruction // appends the raw text of a key
 		vi instruction
 	)
 	kt := t.Key()
@@ -391,15 +397,15 @@ func newMapInstr(t reflect.Type) instruction {
 	// the other marshalers and the special Go types.
 	switch {
 	case isString(kt):
-		ki = encodeString
+		ki = appendStringKey
 	case kt.Implements(textMarshalerType):
-		ki = newTextMarshalerInstr(kt, false)
+		ki = newTextKeyInstr(kt)
 		// See issue golang.org/issue/33675 for reference.
 		if kt.Kind() == reflect.Ptr || kt.Kind() == reflect.Interface {
 			ki = wrapTextMarshalerNilCheck(ki)
 		}
 	default:
-		ki = newBasicTypeInstr(kt, true)
+		ki = newBasicTypeInstr(kt, false)
 	}
 	vi = newInstruction(et, false, false)
 
@@ -429,7 +435,7 @@ func wrapQuotedInstr(ins instruction) instruction {
 func wrapTextMarshalerNilCheck(ins instruction) instruction {
 	return func(p unsafe.Pointer, dst []byte, opts encOpts) ([]byte, error) {
 		if *(*unsafe.Pointer)(p) == nil {
-			return append(dst, `""`...), nil
+			return dst, nil
 		}
 		return ins(p, dst, opts)
 	}
diff --git a/map.go b/map.go
index cb54fff..499ecdc 100644
--- a/map.go
+++ b/map.go
@@ -12,6 +12,7 @@ var (
 )
 
 // kv represents a map key/value pair.
+// The key is the raw, unescaped text.
 type kv struct {
 	key    []byte
 	keyval []byte
-- 
2.43.0


From bde4ac3f539a59e9146c928ca1507df3c11c2489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:59 +0000
Subject: [PATCH 19/20] fix: build the instructions of recursive named types

---
 instruction.go | 29 ++++++++++++++++++++++++++---
 1 file changed, 26 insertions(+), 3 deletions(-)

diff --git a/instruction.go b/instruction.go
index 31aa1a1..39a7e73 100644
--- a/instruction.go
+++ b/instruction.go
@@ -105,16 +105,29 @@ func newInstruction(t reflect.Type, canAddr, quoted bool) instruction {
 		return encodeInterface
 	case reflect.Struct:
 		return newStructInstr(t, canAddr)
+	case reflect.Map, reflect.Slice, reflect.Array, reflect.Ptr:
+		// A named type can refer to itself, except
+		// a pointer to a basic type, which is the
+		// only one that can be quoted.
+		if t.Name() != "" && !quoted {
+			return newRecursiveInstr(t, canAddr, newCompositeInstr)
+		}
+		return newCompositeInstr(t, canAddr, quoted)
+	}
+	return newUnsupportedTypeInstr(t)
+}
+
+func newCompositeInstr(t reflect.Type, canAddr, quoted bool) instruction {
+	switch t.Kind() {
 	case reflect.Map:
 		return newMapInstr(t)
 	case reflect.Slice:
 		return newSliceInstr(t)
 	case reflect.Array:
 		return newArrayInstr(t, canAddr)
-	case reflect.Ptr:
+	default:
 		return newPtrInstr(t, quoted)
 	}
-	return newUnsupportedTypeInstr(t)
 }
 
 func newGoTypeInstr(t reflect.Type, quoted bool) instruction {
@@ -264,6 +277,16 @@ func newTextKeyInstr(t reflect.Type) instruction {
 }
 
 func newStructInstr(t reflect.Type, canAddr bool) instruction {
+	return newRecursiveInstr(t, canAddr, func(t reflect.Type, canAddr, _ bool) instruction {
+		return newStructFieldsInstr(t, canAddr)
+	})
+}
+
+// newRecursiveInstr returns the instruction that build
+// creates for t, which may refer to itself.
+func newRecursiveInstr(
+	t reflect.Type, canAddr bool, build func(reflect.Type, bool, bool) instruction,
+) instruction {
 	id := fmt.Sprintf("%p-%t", typeID(t), canAddr)
 
 	if instr, ok := structInstrCache.Load(id); ok {
@@ -291,7 +314,7 @@ func newStructInstr(t reflect.Type, canAddr bool) instruction {
 	}
 	// Generate the real instruction and replace
 	// the indirect func with it.
-	ins = newStructFieldsInstr(t, canAddr)
+	ins = build(t, canAddr, false)
 	wg.Done()
 	structInstrCache.Store(id, ins)
 
-- 
2.43.0


From 4fafa7fcfd9762fc5d866b346bf713da6e24ea72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:20 +0000
Subject: [PATCH 20/20] fix: the time options apply to pointers to time.Time

A *time.Time has the MarshalJSON method of time.Time, which was
preferred over the encoding of times, so that TimeLayout and
UnixTime had no effect on it.
---
 instruction.go | 4 ++++
 types.go       | 1 +
 2 files changed, 5 insertions(+)

diff --git a/instruction.go b/instruction.go
index 39a7e73..555e823 100644
--- a/instruction.go
+++ b/instruction.go
@@ -136,6 +136,10 @@ func newGoTypeInstr(t reflect.Type, quoted bool) instruction {
 		return encodeSyncMap
 	case timeTimeType:
 		return encodeTime
+	case timeTimePtrType:
+		// The pointer type has the methods of
+		// the type it points to.
+		return newPtrInstr(t, false)
 	case timeDurationType:
 		if quoted {
 			return encodeQuotedDuration
diff --git a/types.go b/types.go
index f3a1cc5..37fc5a7 100644
--- a/types.go
+++ b/types.go
@@ -11,6 +11,7 @@ import (
 
 var (
 	timeTimeType           = reflect.TypeOf(time.Time{})
+	timeTimePtrType        = reflect.PtrTo(timeTimeType)
 	timeDurationType       = reflect.TypeOf(time.Duration(0))
 	syncMapType            = reflect.TypeOf((*sync.Map)(nil)).Elem()
 	jsonNumberType         = reflect.TypeOf(json.Number(""))
-- 
2.43.0

