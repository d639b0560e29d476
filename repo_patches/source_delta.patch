From 7cf8ee9211eafcf973bc5611d2860f54295150b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:21 +0000
Subject: [PATCH 01/80] fix: bencode: accept an empty dictionary key when
 decoding

---
 bencode/decode.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/bencode/decode.go b/bencode/decode.go
index 98dbaa3..210cf27 100644
--- a/bencode/decode.go
+++ b/bencode/decode.go
@@ -226,7 +226,7 @@ func (d *Decoder) consumeDictionary(buf *bytes.Buffer) error {
 		buf.WriteByte('d')
 	}
 	lastKey := ""
-	for {
+	for first := true; ; first = false {
 		c, err := d.ReadByte()
 		if err != nil {
 			return err
@@ -241,7 +241,7 @@ func (d *Decoder) consumeDictionary(buf *bytes.Buffer) error {
 		if err != nil {
 			return err
 		}
-		if lastKey >= key {
+		if !first && lastKey >= key {
 			return errors.New("consumeDictionary: dictionary keys not sorted")
 		}
 		lastKey = key
@@ -417,7 +417,7 @@ func (d *Decoder) decodeMap(v reflect.Value) error {
 		v.Set(reflect.MakeMap(t))
 	}
 	lastKey := ""
-	for {
+	for first := true; ; first = false {
 		c, err := d.ReadByte()
 		if err != nil {
 			return err
@@ -432,7 +432,7 @@ func (d *Decoder) decodeMap(v reflect.Value) error {
 		if err := d.decodeString(key); err != nil {
 			return err
 		}
-		if lastKey >= key.String() {
+		if !first && lastKey >= key.String() {
 			return errors.New("decodeMap: dictionary keys not sorted")
 		}
 		lastKey = key.String()
@@ -465,7 +465,7 @@ func (d *Decoder) decodeStruct(v reflect.Value) error {
 	d.offset += 1
 	keyToField := getFieldsForStruct(v).keyToField
 	lastKey := ""
-	for {
+	for first := true; ; first = false {
 		c, err := d.ReadByte()
 		if err != nil {
 			return err
@@ -480,7 +480,7 @@ func (d *Decoder) decodeStruct(v reflect.Value) error {
 		if err := d.decodeString(key); err != nil {
 			return err
 		}
-		if lastKey >= key.String() {
+		if !first && lastKey >= key.String() {
 			return errors.New("decodeStruct: dictionary keys not sorted")
 		}
 		lastKey = key.String()
-- 
2.43.0


From 85107afdf49e9cb0e867a21bb69265f75c62c72c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:21 +0000
Subject: [PATCH 02/80] fix: bencode: refuse signed string lengths instead of
 panicking

---
 bencode/decode.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/bencode/decode.go b/bencode/decode.go
index 210cf27..9fb32f1 100644
--- a/bencode/decode.go
+++ b/bencode/decode.go
@@ -123,13 +123,23 @@ func (d *Decoder) consume(buf *bytes.Buffer) error {
 	}
 }
 
+// parseLength parses a string length, which must consist of digits only.
+func parseLength(s string) (int, error) {
+	for i := range len(s) {
+		if !isDigit(s[i]) {
+			return 0, fmt.Errorf("invalid string length: %q", s)
+		}
+	}
+	return strconv.Atoi(s)
+}
+
 func (d *Decoder) consumeString(buf *bytes.Buffer) (string, error) {
 	lengthStr, err := d.ReadString(':')
 	if err != nil {
 		return "", d.newSyntaxError("consumeString: unterminated string prefix: %w", err)
 	}
 	lengthStr = lengthStr[:len(lengthStr)-1]
-	length, err := strconv.Atoi(lengthStr)
+	length, err := parseLength(lengthStr)
 	if err != nil {
 		return "", d.newSyntaxError("consumeString: %w", err)
 	}
@@ -261,7 +271,7 @@ func (d *Decoder) decodeString(v reflect.Value) error {
 	if err != nil {
 		return d.newSyntaxError("decodeString: unterminated string prefix: %w", err)
 	}
-	length, err := strconv.Atoi(lengthStr[:len(lengthStr)-1])
+	length, err := parseLength(lengthStr[:len(lengthStr)-1])
 	if err != nil {
 		return d.newSyntaxError("decodeString: %w", err)
 	}
-- 
2.43.0


From c863401af7608506951a586ba8d6c37fa0645028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:21 +0000
Subject: [PATCH 03/80] fix: bencode: do not allocate a string before its bytes
 arrive

---
 bencode/decode.go | 32 ++++++++++++++++++++++++--------
 1 file changed, 24 insertions(+), 8 deletions(-)

diff --git a/bencode/decode.go b/bencode/decode.go
index 9fb32f1..9b0c486 100644
--- a/bencode/decode.go
+++ b/bencode/decode.go
@@ -133,6 +133,24 @@ func parseLength(s string) (int, error) {
 	return strconv.Atoi(s)
 }
 
+// readChunk bounds how much is allocated ahead of the data for a string, as
+// its claimed length cannot be trusted.
+const readChunk = 64 << 10
+
+func (d *Decoder) readN(length int) ([]byte, error) {
+	if length <= readChunk {
+		b := make([]byte, length)
+		n, err := io.ReadFull(d, b)
+		return b[:n], err
+	}
+	var buf bytes.Buffer
+	_, err := io.CopyN(&buf, d, int64(length))
+	if err == io.EOF {
+		err = io.ErrUnexpectedEOF
+	}
+	return buf.Bytes(), err
+}
+
 func (d *Decoder) consumeString(buf *bytes.Buffer) (string, error) {
 	lengthStr, err := d.ReadString(':')
 	if err != nil {
@@ -144,12 +162,11 @@ func (d *Decoder) consumeString(buf *bytes.Buffer) (string, error) {
 		return "", d.newSyntaxError("consumeString: %w", err)
 	}
 	d.offset += len(lengthStr) + 1
-	bytes := make([]byte, length)
-	n, err := io.ReadFull(d, bytes)
+	bytes, err := d.readN(length)
 	if err != nil {
-		return "", d.newSyntaxError("consumeString: unexpected string eof: %d < %d: %w", n, length, err)
+		return "", d.newSyntaxError("consumeString: unexpected string eof: %d < %d: %w", len(bytes), length, err)
 	}
-	d.offset += n
+	d.offset += len(bytes)
 	if buf != nil {
 		buf.Write([]byte(lengthStr))
 		buf.WriteByte(':')
@@ -276,12 +293,11 @@ func (d *Decoder) decodeString(v reflect.Value) error {
 		return d.newSyntaxError("decodeString: %w", err)
 	}
 	d.offset += len(lengthStr)
-	bytes := make([]byte, length)
-	n, err := io.ReadFull(d, bytes)
+	bytes, err := d.readN(length)
 	if err != nil {
-		return d.newSyntaxError("decodeString: unexpected string eof: %d < %d: %w", n, length, err)
+		return d.newSyntaxError("decodeString: unexpected string eof: %d < %d: %w", len(bytes), length, err)
 	}
-	d.offset += n
+	d.offset += len(bytes)
 	if v.Kind() == reflect.Slice {
 		v.SetBytes(bytes)
 	} else {
-- 
2.43.0


From c8997deed8638baf8bf57deaacc62cf24d94eee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:21 +0000
Subject: [PATCH 04/80] fix: bencode: report integers that overflow the
 destination

---
 bencode/decode.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/bencode/decode.go b/bencode/decode.go
index 9b0c486..f58c814 100644
--- a/bencode/decode.go
+++ b/bencode/decode.go
@@ -341,6 +341,9 @@ func (d *Decoder) decodeInt(v reflect.Value) error {
 		return d.newSyntaxError("decodeInt: %w", err)
 	}
 	d.offset += len(intStr) + 1
+	if v.OverflowInt(i) {
+		return d.newSyntaxError("decodeInt: %d overflows %s", i, v.Type())
+	}
 	v.SetInt(i)
 	return nil
 }
@@ -367,6 +370,9 @@ func (d *Decoder) decodeUint(v reflect.Value) error {
 		return d.newSyntaxError("decodeUint: %w", err)
 	}
 	d.offset += len(intStr) + 1
+	if v.OverflowUint(i) {
+		return d.newSyntaxError("decodeUint: %d overflows %s", i, v.Type())
+	}
 	v.SetUint(i)
 	return nil
 }
-- 
2.43.0


From ba417083f59a98103ff9588e9ed461e0689c2c16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:21 +0000
Subject: [PATCH 05/80] fix: bencode: accept exactly minimal integers, of any
 size when skipped

---
 bencode/decode.go | 31 ++++++++++++++++---------------
 1 file changed, 16 insertions(+), 15 deletions(-)

diff --git a/bencode/decode.go b/bencode/decode.go
index f58c814..fdb244e 100644
--- a/bencode/decode.go
+++ b/bencode/decode.go
@@ -8,6 +8,7 @@ import (
 	"io"
 	"reflect"
 	"strconv"
+	"strings"
 )
 
 func Unmarshal(b []byte, v any) error {
@@ -189,13 +190,9 @@ func (d *Decoder) consumeInt(buf *bytes.Buffer) error {
 		return d.newSyntaxError("consumeInt: unterminated int: %w", err)
 	}
 	intStr = intStr[:len(intStr)-1]
-	if leadingZero(intStr) {
+	if !validInt(intStr) {
 		return d.newSyntaxError("consumeInt: invalid int: %s", intStr)
 	}
-	_, err = strconv.ParseInt(intStr, 10, 64)
-	if err != nil {
-		return d.newSyntaxError("consumeInt: %w", err)
-	}
 	d.offset += len(intStr) + 1
 	if buf != nil {
 		buf.WriteByte('i')
@@ -306,17 +303,21 @@ func (d *Decoder) decodeString(v reflect.Value) error {
 	return nil
 }
 
-func leadingZero(intStr string) bool {
-	if len(intStr) == 0 {
-		return false
+// validInt reports whether intStr is an integer in minimal decimal form.
+func validInt(intStr string) bool {
+	if intStr == "0" {
+		return true
 	}
-	if intStr[0] == '0' {
-		return len(intStr) > 1
+	digits := strings.TrimPrefix(intStr, "-")
+	if digits == "" || digits[0] == '0' {
+		return false
 	}
-	if intStr[0] == '-' && len(intStr) >= 2 {
-		return intStr[1] == '0'
+	for i := range len(digits) {
+		if !isDigit(digits[i]) {
+			return false
+		}
 	}
-	return false
+	return true
 }
 
 func (d *Decoder) decodeInt(v reflect.Value) error {
@@ -333,7 +334,7 @@ func (d *Decoder) decodeInt(v reflect.Value) error {
 		return d.newSyntaxError("decodeInt: unterminated int: %w", err)
 	}
 	intStr = intStr[:len(intStr)-1]
-	if leadingZero(intStr) {
+	if !validInt(intStr) {
 		return d.newSyntaxError("decodeInt: invalid int: %s", intStr)
 	}
 	i, err := strconv.ParseInt(intStr, 10, 64)
@@ -362,7 +363,7 @@ func (d *Decoder) decodeUint(v reflect.Value) error {
 		return d.newSyntaxError("decodeUint: unterminated int: %w", err)
 	}
 	intStr = intStr[:len(intStr)-1]
-	if leadingZero(intStr) {
+	if !validInt(intStr) {
 		return d.newSyntaxError("decodeUint: invalid int: %s", intStr)
 	}
 	i, err := strconv.ParseUint(intStr, 10, 64)
-- 
2.43.0


From 3b7878f548a73503edf8de323bdf5531bc5975b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:21 +0000
Subject: [PATCH 06/80] fix: bencode: allocate nil pointers met while decoding

---
 bencode/decode.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/bencode/decode.go b/bencode/decode.go
index fdb244e..30dc2b0 100644
--- a/bencode/decode.go
+++ b/bencode/decode.go
@@ -51,10 +51,16 @@ func (d *Decoder) newSyntaxError(t string, args ...any) error {
 var unmarshalerType = reflect.TypeFor[Unmarshaler]()
 
 func (d *Decoder) decode(v reflect.Value) error {
+	if v.Kind() == reflect.Pointer && v.IsNil() {
+		if !v.CanSet() {
+			return &UnsupportedTypeError{v.Type()}
+		}
+		v.Set(reflect.New(v.Type().Elem()))
+	}
 	if v.Kind() != reflect.Pointer && reflect.PointerTo(v.Type()).Implements(unmarshalerType) && v.CanAddr() {
 		return d.decodeUnmarshaler(v.Addr())
 	}
-	if v.Type().Implements(unmarshalerType) {
+	if v.Type().Implements(unmarshalerType) && !(v.Kind() == reflect.Interface && v.IsNil()) {
 		return d.decodeUnmarshaler(v)
 	}
 	switch v.Kind() {
@@ -529,6 +535,9 @@ func (d *Decoder) decodeStruct(v reflect.Value) error {
 			elem = elem.Field(i)
 			if elem.Kind() == reflect.Pointer {
 				if elem.IsNil() {
+					if !elem.CanSet() {
+						return &UnsupportedTypeError{elem.Type()}
+					}
 					elem.Set(reflect.New(elem.Type().Elem()))
 				}
 				elem = elem.Elem()
-- 
2.43.0


From 4722fea2e9926c88dca5609625edecf20f437f47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:21 +0000
Subject: [PATCH 07/80] fix: bencode: replace a non-pointer held by an
 interface

---
 bencode/decode.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bencode/decode.go b/bencode/decode.go
index 30dc2b0..6e0ddd9 100644
--- a/bencode/decode.go
+++ b/bencode/decode.go
@@ -552,8 +552,8 @@ func (d *Decoder) decodeStruct(v reflect.Value) error {
 }
 
 func (d *Decoder) decodeInterface(v reflect.Value) error {
-	if !v.IsNil() {
-		return d.decode(v.Elem())
+	if e := v.Elem(); e.IsValid() && (e.CanSet() || e.Kind() == reflect.Pointer && !e.IsNil()) {
+		return d.decode(e)
 	} else if v.NumMethod() != 0 {
 		// Can only decode into an any.
 		return &UnsupportedTypeError{v.Type()}
-- 
2.43.0


From cc80e2cc53176f34a0b6e7bd98b85182fe388887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:22 +0000
Subject: [PATCH 08/80] fix: bencode: drop earlier elements beyond the end of a
 decoded list

---
 bencode/decode.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/bencode/decode.go b/bencode/decode.go
index 6e0ddd9..9c506b8 100644
--- a/bencode/decode.go
+++ b/bencode/decode.go
@@ -433,6 +433,14 @@ func (d *Decoder) decodeSlice(v reflect.Value) error {
 		}
 		i++
 	}
+	// Drop what the destination held beyond the decoded elements.
+	if v.Kind() == reflect.Slice {
+		v.SetLen(i)
+	} else {
+		for ; i < v.Len(); i++ {
+			v.Index(i).SetZero()
+		}
+	}
 	d.offset += 1
 	return nil
 }
-- 
2.43.0


From b3e2fe8918c3f5d5856b2620be74cc3e43376ac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:22 +0000
Subject: [PATCH 09/80] fix: bencode: limit nesting so that input cannot
 overflow the stack

---
 bencode/decode.go | 33 +++++++++++++++++++++++++++++++++
 1 file changed, 33 insertions(+)

diff --git a/bencode/decode.go b/bencode/decode.go
index 9c506b8..f9c3fb6 100644
--- a/bencode/decode.go
+++ b/bencode/decode.go
@@ -20,6 +20,18 @@ func Unmarshal(b []byte, v any) error {
 type Decoder struct {
 	*bufio.Reader
 	offset int
+	depth  int
+}
+
+// maxDepth limits the nesting of decoded values, so that hostile input cannot
+// exhaust the stack.
+const maxDepth = 10000
+
+func (d *Decoder) enter() error {
+	if d.depth++; d.depth > maxDepth {
+		return d.newSyntaxError("nesting exceeds %d levels", maxDepth)
+	}
+	return nil
 }
 
 func NewDecoder(r io.Reader) *Decoder {
@@ -37,6 +49,7 @@ func (d *Decoder) Decode(v any) error {
 	if rv.Kind() != reflect.Pointer || rv.IsNil() {
 		return errors.New("bencode: must decode into non-nil pointer")
 	}
+	d.depth = 0
 	return d.decode(rv)
 }
 
@@ -217,6 +230,9 @@ func (d *Decoder) consumeList(buf *bytes.Buffer) error {
 		return d.newSyntaxError("consumeList: unexpected list prefix: %c", b)
 	}
 	d.offset += 1
+	if err := d.enter(); err != nil {
+		return err
+	}
 	if buf != nil {
 		buf.WriteByte('l')
 	}
@@ -236,6 +252,7 @@ func (d *Decoder) consumeList(buf *bytes.Buffer) error {
 			return err
 		}
 	}
+	d.depth--
 	d.offset += 1
 	if buf != nil {
 		buf.WriteByte('e')
@@ -252,6 +269,9 @@ func (d *Decoder) consumeDictionary(buf *bytes.Buffer) error {
 		return d.newSyntaxError("consumeDictionary: unexpected dictionary prefix: %c", c)
 	}
 	d.offset += 1
+	if err := d.enter(); err != nil {
+		return err
+	}
 	if buf != nil {
 		buf.WriteByte('d')
 	}
@@ -279,6 +299,7 @@ func (d *Decoder) consumeDictionary(buf *bytes.Buffer) error {
 			return err
 		}
 	}
+	d.depth--
 	d.offset += 1
 	if buf != nil {
 		buf.WriteByte('e')
@@ -393,6 +414,9 @@ func (d *Decoder) decodeSlice(v reflect.Value) error {
 		return d.newSyntaxError("decodeSlice: unexpected list prefix: %c", b)
 	}
 	d.offset += 1
+	if err := d.enter(); err != nil {
+		return err
+	}
 	if v.Kind() == reflect.Slice && v.IsNil() {
 		v.Set(reflect.MakeSlice(v.Type(), 0, 0))
 	}
@@ -441,6 +465,7 @@ func (d *Decoder) decodeSlice(v reflect.Value) error {
 			v.Index(i).SetZero()
 		}
 	}
+	d.depth--
 	d.offset += 1
 	return nil
 }
@@ -454,6 +479,9 @@ func (d *Decoder) decodeMap(v reflect.Value) error {
 		return d.newSyntaxError("decodeMap: unexpected dictionary prefix: %c", c)
 	}
 	d.offset += 1
+	if err := d.enter(); err != nil {
+		return err
+	}
 	t := v.Type()
 	kt := t.Key()
 	et := t.Elem()
@@ -490,6 +518,7 @@ func (d *Decoder) decodeMap(v reflect.Value) error {
 		}
 		v.SetMapIndex(key, elem.Elem())
 	}
+	d.depth--
 	d.offset += 1
 	return nil
 }
@@ -510,6 +539,9 @@ func (d *Decoder) decodeStruct(v reflect.Value) error {
 		return d.newSyntaxError("decodeStruct: unexpected dictionary prefix: %c", c)
 	}
 	d.offset += 1
+	if err := d.enter(); err != nil {
+		return err
+	}
 	keyToField := getFieldsForStruct(v).keyToField
 	lastKey := ""
 	for first := true; ; first = false {
@@ -555,6 +587,7 @@ func (d *Decoder) decodeStruct(v reflect.Value) error {
 			return err
 		}
 	}
+	d.depth--
 	d.offset += 1
 	return nil
 }
-- 
2.43.0


From 3540bc798de725a39378ae77b2621282b64a6bff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:56 +0000
Subject: [PATCH 10/80] fix: bencode: leave out the key along with a nil
 dictionary value

---
 bencode/encode.go | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/bencode/encode.go b/bencode/encode.go
index 5be9af2..71257ce 100644
--- a/bencode/encode.go
+++ b/bencode/encode.go
@@ -203,10 +203,14 @@ func (e *Encoder) encodeMap(v reflect.Value) error {
 		return strings.Compare(a.String(), b.String())
 	})
 	for _, key := range keys {
+		elem := v.MapIndex(key)
+		if isNil(elem) {
+			continue
+		}
 		if err := e.encodeString(key); err != nil {
 			return err
 		}
-		if err := e.encode(v.MapIndex(key)); err != nil {
+		if err := e.encode(elem); err != nil {
 			return err
 		}
 	}
@@ -358,13 +362,23 @@ func getFieldsForStruct(v reflect.Value) *fieldInfo {
 	return fi
 }
 
+// isNil reports whether v is nil, or leads to nil through pointers and
+// interfaces.
 func isNil(v reflect.Value) bool {
-	switch v.Kind() {
-	case reflect.Slice, reflect.Map, reflect.Interface, reflect.Pointer:
-		return v.IsNil()
-	default:
-		return false
+	for range ptrDepthLimit {
+		switch v.Kind() {
+		case reflect.Slice, reflect.Map:
+			return v.IsNil()
+		case reflect.Interface, reflect.Pointer:
+			if v.IsNil() {
+				return true
+			}
+			v = v.Elem()
+		default:
+			return false
+		}
 	}
+	return false
 }
 
 func isEmptyValue(v reflect.Value) bool {
-- 
2.43.0


From c27309ddbc41efbe0394051e92770d1ded2d3ba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:56 +0000
Subject: [PATCH 11/80] fix: bencode: do not call custom marshalers on nil

---
 bencode/encode.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/bencode/encode.go b/bencode/encode.go
index 71257ce..43e6d58 100644
--- a/bencode/encode.go
+++ b/bencode/encode.go
@@ -33,7 +33,11 @@ func NewEncoder(w io.Writer) *Encoder {
 }
 
 func (e *Encoder) Encode(v any) error {
-	return e.encode(reflect.ValueOf(v))
+	rv := reflect.ValueOf(v)
+	if !rv.IsValid() {
+		return errors.New("bencode: cannot encode nil")
+	}
+	return e.encode(rv)
 }
 
 type UnsupportedTypeError struct {
@@ -60,10 +64,13 @@ func (e *Encoder) writeString(s string) (n int, err error) {
 var marshalerType = reflect.TypeFor[Marshaler]()
 
 func (e *Encoder) encode(v reflect.Value) error {
+	if v.Kind() == reflect.Pointer && v.IsNil() {
+		return nil
+	}
 	if v.Kind() != reflect.Pointer && reflect.PointerTo(v.Type()).Implements(marshalerType) && v.CanAddr() {
 		return e.encodeMarshaler(v.Addr())
 	}
-	if v.Type().Implements(marshalerType) {
+	if v.Type().Implements(marshalerType) && !(v.Kind() == reflect.Interface && v.IsNil()) {
 		return e.encodeMarshaler(v)
 	}
 	switch v.Kind() {
-- 
2.43.0


From 1a665cf8e8abc9d08cd1fada0bea55739a2b78a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:56 +0000
Subject: [PATCH 12/80] fix: bencode: call pointer-receiver marshalers of
 values in maps and interfaces

---
 bencode/encode.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/bencode/encode.go b/bencode/encode.go
index 43e6d58..b28f942 100644
--- a/bencode/encode.go
+++ b/bencode/encode.go
@@ -67,7 +67,13 @@ func (e *Encoder) encode(v reflect.Value) error {
 	if v.Kind() == reflect.Pointer && v.IsNil() {
 		return nil
 	}
-	if v.Kind() != reflect.Pointer && reflect.PointerTo(v.Type()).Implements(marshalerType) && v.CanAddr() {
+	if v.Kind() != reflect.Pointer && reflect.PointerTo(v.Type()).Implements(marshalerType) {
+		if !v.CanAddr() {
+			// Values in maps and interfaces need a copy to call the method on.
+			p := reflect.New(v.Type()).Elem()
+			p.Set(v)
+			v = p
+		}
 		return e.encodeMarshaler(v.Addr())
 	}
 	if v.Type().Implements(marshalerType) && !(v.Kind() == reflect.Interface && v.IsNil()) {
-- 
2.43.0


From eafaed8570776c0912e5b7cf15cd87e23fb087f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:57 +0000
Subject: [PATCH 13/80] fix: bencode: stop at cycles of pointers, and allow
 encoding after an error

---
 bencode/encode.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/bencode/encode.go b/bencode/encode.go
index b28f942..04e2d99 100644
--- a/bencode/encode.go
+++ b/bencode/encode.go
@@ -37,6 +37,7 @@ func (e *Encoder) Encode(v any) error {
 	if !rv.IsValid() {
 		return errors.New("bencode: cannot encode nil")
 	}
+	e.ptrDepth = 0
 	return e.encode(rv)
 }
 
@@ -101,7 +102,14 @@ func (e *Encoder) encode(v reflect.Value) error {
 		if v.IsNil() {
 			return nil
 		}
-		return e.encode(v.Elem())
+		if e.ptrDepth++; e.ptrDepth > ptrDepthLimit {
+			return errors.New("bencode: maximum pointer depth exceeded")
+		}
+		if err := e.encode(v.Elem()); err != nil {
+			return err
+		}
+		e.ptrDepth--
+		return nil
 	default:
 		return &UnsupportedTypeError{v.Type()}
 	}
-- 
2.43.0


From 32d127ecbaa12d7f8621b451b8022b9ff99dfec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:21 +0000
Subject: [PATCH 14/80] fix: bitfield: answer no for indexes outside the field

---
 bitfield/bitfield.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bitfield/bitfield.go b/bitfield/bitfield.go
index 3ff6b4a..b65143c 100644
--- a/bitfield/bitfield.go
+++ b/bitfield/bitfield.go
@@ -11,6 +11,9 @@ func New(n int) Bitfield {
 }
 
 func (b Bitfield) Has(i int) bool {
+	if i < 0 || i/8 >= len(b) {
+		return false
+	}
 	bi := i / 8
 	bj := 7 - (i % 8)
 	return b[bi]&(1<<bj) != 0
-- 
2.43.0


From bcf71091ae3077e5c2c2902718c44fd27b6cd4a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:21 +0000
Subject: [PATCH 15/80] fix: tracker: refuse info hashes and peer ids of the
 wrong length

---
 api/tracker/tracker.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/api/tracker/tracker.go b/api/tracker/tracker.go
index 364d879..fcd2f1d 100644
--- a/api/tracker/tracker.go
+++ b/api/tracker/tracker.go
@@ -83,6 +83,9 @@ func (r *Request) Decode(rawQuery string) error {
 		}
 		switch dest := f.dest.(type) {
 		case *[20]byte:
+			if len(v) != len(dest) {
+				return fmt.Errorf("%s has %d bytes, expected %d", f.key, len(v), len(dest))
+			}
 			copy((*dest)[:], v)
 		case *string:
 			*dest = v
-- 
2.43.0


From 271e8b3bf528114580889d9d09db9a1b7e08249a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:21 +0000
Subject: [PATCH 16/80] fix: tracker: encode an absent peer list as an empty
 one

---
 api/tracker/tracker.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/api/tracker/tracker.go b/api/tracker/tracker.go
index fcd2f1d..017efbd 100644
--- a/api/tracker/tracker.go
+++ b/api/tracker/tracker.go
@@ -133,6 +133,9 @@ func (p *Peers) MarshalBencoding() ([]byte, error) {
 		}
 		return bencode.Marshal(compact)
 	}
+	if p.List == nil {
+		return bencode.Marshal([]*Peer{})
+	}
 	return bencode.Marshal(p.List)
 }
 
-- 
2.43.0


From 3222359fe24cd1842a626d24c0902b7394264dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:21 +0000
Subject: [PATCH 17/80] fix: tracker: refuse ports that do not fit the compact
 form

---
 api/tracker/tracker.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/api/tracker/tracker.go b/api/tracker/tracker.go
index 017efbd..dbda563 100644
--- a/api/tracker/tracker.go
+++ b/api/tracker/tracker.go
@@ -4,6 +4,7 @@ import (
 	"encoding/binary"
 	"errors"
 	"fmt"
+	"math"
 	"net"
 	"net/url"
 	"strconv"
@@ -147,6 +148,9 @@ func compactPeers(peers []*Peer) ([]byte, error) {
 		if ip == nil {
 			return nil, fmt.Errorf(`peer "ip" is not an ipv4: %+v`, p.IP)
 		}
+		if p.Port < 0 || p.Port > math.MaxUint16 {
+			return nil, fmt.Errorf(`peer "port" is out of range: %d`, p.Port)
+		}
 		b[i] = ip[0]
 		b[i+1] = ip[1]
 		b[i+2] = ip[2]
-- 
2.43.0


From f4d25f6d4058a393d3bf44f839fe7e3c3062977f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:22 +0000
Subject: [PATCH 18/80] fix: tracker: report malformed peers instead of
 panicking

---
 api/tracker/tracker.go | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/api/tracker/tracker.go b/api/tracker/tracker.go
index dbda563..44f1788 100644
--- a/api/tracker/tracker.go
+++ b/api/tracker/tracker.go
@@ -199,11 +199,22 @@ func parseCompactPeers(compact string) ([]*Peer, error) {
 func parsePeers(peerMaps []any) ([]*Peer, error) {
 	var peers []*Peer
 	for _, m := range peerMaps {
-		m := m.(map[string]any)
-		peer := &Peer{
-			ID:   m["peer id"].(string),
-			IP:   m["ip"].(string),
-			Port: m["port"].(int),
+		m, ok := m.(map[string]any)
+		if !ok {
+			return nil, errors.New("peer is not a dictionary")
+		}
+		peer := &Peer{}
+		if peer.IP, ok = m["ip"].(string); !ok {
+			return nil, errors.New(`peer "ip" is not a string`)
+		}
+		if peer.Port, ok = m["port"].(int); !ok {
+			return nil, errors.New(`peer "port" is not an integer`)
+		}
+		// Trackers asked for no peer ids leave them out.
+		if id, present := m["peer id"]; present {
+			if peer.ID, ok = id.(string); !ok {
+				return nil, errors.New(`peer "peer id" is not a string`)
+			}
 		}
 		peers = append(peers, peer)
 	}
-- 
2.43.0


From ffd709c9cf64ee2b27348c29517dc23d64fd166f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:22 +0000
Subject: [PATCH 19/80] fix: peer: read the handshake length in full

---
 api/peer/peer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/api/peer/peer.go b/api/peer/peer.go
index 2b3713e..cf0653b 100644
--- a/api/peer/peer.go
+++ b/api/peer/peer.go
@@ -67,7 +67,7 @@ func (h *Handshake) MarshalBinary() ([]byte, error) {
 
 func (h *Handshake) Decode(r io.Reader) error {
 	data := make([]byte, HandshakeLength)
-	if _, err := r.Read(data[:1]); err != nil {
+	if _, err := io.ReadFull(r, data[:1]); err != nil {
 		return err
 	}
 	protocolLen := int(data[0])
-- 
2.43.0


From 1912162e9b5c2cd5ed6ca4997829d467f13a891b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:22 +0000
Subject: [PATCH 20/80] fix: peer: refuse messages too short for their type

---
 api/peer/peer.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/api/peer/peer.go b/api/peer/peer.go
index cf0653b..14cfbb5 100644
--- a/api/peer/peer.go
+++ b/api/peer/peer.go
@@ -120,6 +120,14 @@ var typeName = map[MessageType]string{
 	CANCEL:         "CANCEL",
 }
 
+// minPayload holds the length of the fixed fields of each type of message.
+var minPayload = map[MessageType]int{
+	HAVE:    4,
+	REQUEST: 12,
+	PIECE:   8,
+	CANCEL:  12,
+}
+
 func (m MessageType) String() string {
 	n, ok := typeName[m]
 	if !ok {
@@ -360,6 +368,9 @@ func (m *Message) Decode(r io.Reader) error {
 	}
 	m.Type = MessageType(payload[0])
 	payload = payload[1:]
+	if len(payload) < minPayload[m.Type] {
+		return fmt.Errorf("%d bytes are too short for a %s message", len(payload), m.Type)
+	}
 	switch m.Type {
 	case CHOKE, UNCHOKE, INTERESTED, NOT_INTERESTED:
 	case BITFIELD:
-- 
2.43.0


From eb569fc509d9f39d458374b0e1c57db68648c25e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:22 +0000
Subject: [PATCH 21/80] fix: peer: do not allocate a message before its bytes
 arrive

---
 api/peer/peer.go | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/api/peer/peer.go b/api/peer/peer.go
index 14cfbb5..c196637 100644
--- a/api/peer/peer.go
+++ b/api/peer/peer.go
@@ -362,8 +362,8 @@ func (m *Message) Decode(r io.Reader) error {
 		m.Type = KEEPALIVE
 		return nil
 	}
-	payload := make([]byte, length)
-	if _, err := io.ReadFull(r, payload); err != nil {
+	payload, err := readPayload(r, int64(length))
+	if err != nil {
 		return err
 	}
 	m.Type = MessageType(payload[0])
@@ -389,6 +389,22 @@ func (m *Message) Decode(r io.Reader) error {
 	return nil
 }
 
+// readPayload reads the n bytes of a message. The length is the word of the
+// remote peer, so memory is only taken up as the bytes arrive.
+func readPayload(r io.Reader, n int64) ([]byte, error) {
+	if n <= 32*1024 {
+		payload := make([]byte, n)
+		_, err := io.ReadFull(r, payload)
+		return payload, err
+	}
+	var bu bytes.Buffer
+	_, err := io.CopyN(&bu, r, n)
+	if err == io.EOF {
+		err = io.ErrUnexpectedEOF
+	}
+	return bu.Bytes(), err
+}
+
 func (m *Message) UnmarshalBinary(data []byte) error {
 	return m.Decode(bytes.NewReader(data))
 }
-- 
2.43.0


From 1dfe73f8b2d3f28582222ad04270cfd7edf267ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:22 +0000
Subject: [PATCH 22/80] fix: peer: describe unknown message types instead of
 panicking

---
 api/peer/peer.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/api/peer/peer.go b/api/peer/peer.go
index c196637..68e01fe 100644
--- a/api/peer/peer.go
+++ b/api/peer/peer.go
@@ -131,7 +131,7 @@ var minPayload = map[MessageType]int{
 func (m MessageType) String() string {
 	n, ok := typeName[m]
 	if !ok {
-		panic("unknown message type")
+		return fmt.Sprintf("UNKNOWN(%d)", int(m))
 	}
 	return n
 }
@@ -288,7 +288,7 @@ func (m *Message) LogValue() slog.Value {
 			slog.Int("length", len(m.Piece())),
 			slog.String("piece", "<omitted>"))
 	default:
-		panic("unknown message type")
+		return slog.GroupValue(slog.String("type", m.Type.String()))
 	}
 }
 
-- 
2.43.0


From 35439664551b1bc01097807aa859af9707710a5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:13 +0000
Subject: [PATCH 23/80] fix: pex: recognise the announcing peer however it
 spells its address

---
 pex/http.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pex/http.go b/pex/http.go
index 5051d25..e0cb79c 100644
--- a/pex/http.go
+++ b/pex/http.go
@@ -123,11 +123,10 @@ func (t *HTTP) ServeHTTP(rw http.ResponseWriter, req *http.Request) {
 	peer.UpdatedAt = time.Now()
 	peer.LastEvent = r.Event
 	peers := &trackerapi.Peers{Compact: r.Compact}
-	for _, p := range torrent.Peers {
+	for paddr, p := range torrent.Peers {
 		if p.LastEvent == "stopped" || time.Since(p.UpdatedAt) > time.Minute {
 			continue
 		}
-		paddr := fmt.Sprintf("%s:%d", p.tp.IP, p.tp.Port)
 		if paddr != addr {
 			peers.List = append(peers.List, p.tp)
 		}
-- 
2.43.0


From 10743fed238957d906af42ea6454181062d4495e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:14 +0000
Subject: [PATCH 24/80] fix: pex: leave IPv6 peers out of compact responses

---
 pex/http.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pex/http.go b/pex/http.go
index e0cb79c..aa3dc52 100644
--- a/pex/http.go
+++ b/pex/http.go
@@ -127,9 +127,14 @@ func (t *HTTP) ServeHTTP(rw http.ResponseWriter, req *http.Request) {
 		if p.LastEvent == "stopped" || time.Since(p.UpdatedAt) > time.Minute {
 			continue
 		}
-		if paddr != addr {
-			peers.List = append(peers.List, p.tp)
+		if paddr == addr {
+			continue
+		}
+		if r.Compact && net.ParseIP(p.tp.IP).To4() == nil {
+			// The compact form has no room for IPv6 peers.
+			continue
 		}
+		peers.List = append(peers.List, p.tp)
 	}
 	res := &trackerapi.Response{
 		Interval: 30,
-- 
2.43.0


From c9608ecbc5bdba965c122eeffa4a7031ddf93cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:14 +0000
Subject: [PATCH 25/80] fix: pex: refuse ports outside 1 to 65535

---
 pex/http.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pex/http.go b/pex/http.go
index aa3dc52..3740e3a 100644
--- a/pex/http.go
+++ b/pex/http.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 	"log/slog"
 	"maps"
+	"math"
 	"net"
 	"net/http"
 	"sync"
@@ -102,7 +103,7 @@ func (t *HTTP) ServeHTTP(rw http.ResponseWriter, req *http.Request) {
 		fail(errors.New("bad ip"))
 		return
 	}
-	if r.Port == 0 {
+	if r.Port < 1 || r.Port > math.MaxUint16 {
 		fail(errors.New("bad port"))
 		return
 	}
-- 
2.43.0


From 4c51fa4244fce0806389ffec70d11d869a5dc1bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:14 +0000
Subject: [PATCH 26/80] fix: pex: list a peer with the id it announced last

---
 pex/http.go | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/pex/http.go b/pex/http.go
index 3740e3a..a91f566 100644
--- a/pex/http.go
+++ b/pex/http.go
@@ -112,15 +112,14 @@ func (t *HTTP) ServeHTTP(rw http.ResponseWriter, req *http.Request) {
 	defer torrent.mu.Unlock()
 	peer, ok := torrent.Peers[addr]
 	if !ok {
-		peer = &Peer{
-			tp: &trackerapi.Peer{
-				ID:   string(r.PeerID[:]),
-				IP:   ip,
-				Port: r.Port,
-			},
-		}
+		peer = &Peer{}
 		torrent.Peers[addr] = peer
 	}
+	peer.tp = &trackerapi.Peer{
+		ID:   string(r.PeerID[:]),
+		IP:   ip,
+		Port: r.Port,
+	}
 	peer.UpdatedAt = time.Now()
 	peer.LastEvent = r.Event
 	peers := &trackerapi.Peers{Compact: r.Compact}
-- 
2.43.0


From 43e539ed58bcc109b258b2da04702a3256aafbc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:10 +0000
Subject: [PATCH 27/80] fix: storage: refuse blocks outside the torrent instead
 of panicking

---
 storage/storage.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/storage/storage.go b/storage/storage.go
index 5214f08..f7b18d3 100644
--- a/storage/storage.go
+++ b/storage/storage.go
@@ -95,6 +95,9 @@ func (s *Storage) ResetPiece(index int) *Piece {
 
 func (s *Storage) GetBlock(index, begin, length int) ([]byte, error) {
 	slog.Debug("GetBlock", "name", s.Torrent.Info.Name, "index", index, "begin", begin, "length", length)
+	if err := checkRange(s.Torrent.Info, index, begin, length); err != nil {
+		return nil, err
+	}
 	s.Torrent.mu.RLock()
 	defer s.Torrent.mu.RUnlock()
 	if s.Torrent.coalesced {
@@ -224,10 +227,25 @@ func (s *Storage) getBlockFromPiece(piece *Piece, begin, length int) ([]byte, er
 	return data[:n], nil
 }
 
+// checkRange tells whether the bytes lie within a single piece.
+func checkRange(info *metainfo.Info, index, begin, length int) error {
+	if index < 0 || index >= len(info.Pieces) {
+		return fmt.Errorf("storage: no such piece: %d", index)
+	}
+	pieceLength := info.GetPieceLength(index)
+	if begin < 0 || begin > pieceLength || length < 0 || length > pieceLength-begin {
+		return fmt.Errorf("storage: block out of range: %d+%d > %d", begin, length, pieceLength)
+	}
+	return nil
+}
+
 func checkBlockSize(info *metainfo.Info, index, begin, length int) error {
 	if begin%BLOCK_LENGTH != 0 {
 		return fmt.Errorf("storage: misaligned block: %d %% %d != 0", begin, BLOCK_LENGTH)
 	}
+	if err := checkRange(info, index, begin, 1); err != nil {
+		return err
+	}
 	pieceLength := info.GetPieceLength(index)
 	expectedBlockLength := BLOCK_LENGTH
 	lastBlock := BLOCK_LENGTH * (pieceLength / BLOCK_LENGTH)
-- 
2.43.0


From e175e5c8a2807d3cf9ad7d63be35da1dfbf931ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:10 +0000
Subject: [PATCH 28/80] fix: storage: take locks in one order in GetBlock and
 PutBlock

---
 storage/storage.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/storage/storage.go b/storage/storage.go
index f7b18d3..d9a21ea 100644
--- a/storage/storage.go
+++ b/storage/storage.go
@@ -98,14 +98,15 @@ func (s *Storage) GetBlock(index, begin, length int) ([]byte, error) {
 	if err := checkRange(s.Torrent.Info, index, begin, length); err != nil {
 		return nil, err
 	}
+	// The same order as in PutBlock: the piece before the torrent.
+	piece := s.Torrent.pieces[index]
+	piece.mu.RLock()
+	defer piece.mu.RUnlock()
 	s.Torrent.mu.RLock()
 	defer s.Torrent.mu.RUnlock()
 	if s.Torrent.coalesced {
 		return s.getBlockFromTorrent(index, begin, length)
 	}
-	piece := s.Torrent.pieces[index]
-	piece.mu.RLock()
-	defer piece.mu.RUnlock()
 	if !piece.coalesced {
 		return nil, ErrIncompletePiece
 	}
-- 
2.43.0


From c4cd281dfae9f7345af079d56b35404df9e91528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:10 +0000
Subject: [PATCH 29/80] fix: storage: allow resetting failed and complete
 pieces

---
 storage/torrent.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/storage/torrent.go b/storage/torrent.go
index 2a5bfa7..afbb12d 100644
--- a/storage/torrent.go
+++ b/storage/torrent.go
@@ -102,7 +102,15 @@ func (p *Piece) Wait() error {
 }
 
 func (p *Piece) reset() {
-	p.err.Deliver(errors.New("storage: piece reset"))
+	if p.coalesced {
+		return
+	}
+	select {
+	case <-p.err.Done:
+		// Everyone waiting already knows that the piece failed.
+	default:
+		p.err.Deliver(errors.New("storage: piece reset"))
+	}
 	p.err = future.New[error]()
 	p.blocks = nil
 	p.completeBlocks = 0
-- 
2.43.0


From 0558a4aab7e3b210f43421894175d42b4e05e692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:11 +0000
Subject: [PATCH 30/80] fix: storage: count the bytes of exactly the complete
 pieces as downloaded

---
 storage/storage.go | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/storage/storage.go b/storage/storage.go
index d9a21ea..83ca295 100644
--- a/storage/storage.go
+++ b/storage/storage.go
@@ -38,17 +38,16 @@ func New(targetDir, workDir string, info *metainfo.Info) *Storage {
 }
 
 func (s *Storage) Load() error {
-	st, err := os.Stat(filepath.Join(s.TargetDir, s.Torrent.FileName()))
+	_, err := os.Stat(filepath.Join(s.TargetDir, s.Torrent.FileName()))
 	if err != nil && !errors.Is(err, os.ErrNotExist) {
 		return err
 	}
 	if err == nil {
 		// Complete torrent exists on disk
 		for i := range len(s.Torrent.Info.Pieces) {
-			s.Torrent.completePiece(s.Torrent.pieces[i])
+			s.completePiece(s.Torrent.pieces[i])
 		}
 		s.Torrent.complete()
-		s.downloaded.Add(st.Size())
 	} else {
 		// Check for complete pieces on disk
 		direntries, err := os.ReadDir(filepath.Join(s.WorkDir, s.Torrent.WorkDir()))
@@ -62,12 +61,7 @@ func (s *Storage) Load() error {
 				if err != nil {
 					continue
 				}
-				st, err := os.Stat(filepath.Join(s.WorkDir, s.Torrent.WorkDir(), dr.Name()))
-				if err != nil {
-					return err
-				}
-				s.downloaded.Add(st.Size())
-				s.Torrent.completePiece(s.Torrent.pieces[i])
+				s.completePiece(s.Torrent.pieces[i])
 			}
 			if err = s.coalescePieces(); err != nil {
 				return err
@@ -133,7 +127,6 @@ func (s *Storage) PutBlock(index, begin int, data []byte) error {
 	s.Torrent.mu.Lock()
 	defer s.Torrent.mu.Unlock()
 	if err := s.coalesceBlocks(piece); err != nil {
-		s.downloaded.Add(int64(piece.Length))
 		piece.err.Deliver(err)
 		return err
 	}
@@ -295,10 +288,15 @@ func (s *Storage) coalesceBlocks(piece *Piece) error {
 	if err = os.Rename(temp.Name(), filepath.Join(s.WorkDir, s.Torrent.WorkDir(), piece.FileName())); err != nil {
 		return err
 	}
-	s.Torrent.completePiece(piece)
+	s.completePiece(piece)
 	return nil
 }
 
+func (s *Storage) completePiece(piece *Piece) {
+	s.Torrent.completePiece(piece)
+	s.downloaded.Add(int64(piece.Length))
+}
+
 func (s *Storage) coalescePieces() error {
 	if s.Torrent.completePieces != len(s.Torrent.pieces) {
 		return nil
-- 
2.43.0


From a81ea63efb61ac43a73d4d725cf02789f69fc8b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:44 +0000
Subject: [PATCH 31/80] fix: storage: name temporaries so that long torrent
 names fit

---
 storage/storage.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/storage/storage.go b/storage/storage.go
index 83ca295..0807888 100644
--- a/storage/storage.go
+++ b/storage/storage.go
@@ -313,7 +313,7 @@ func (s *Storage) coalescePiecesForSingleFile() error {
 	if err := os.MkdirAll(tempDir, 0o0700); err != nil {
 		return err
 	}
-	temp, err := os.CreateTemp(tempDir, s.Torrent.FileName())
+	temp, err := os.CreateTemp(tempDir, s.Torrent.WorkDir())
 	if err != nil {
 		return err
 	}
@@ -343,7 +343,7 @@ func (s *Storage) coalescePiecesForMultiFile() error {
 	if err := os.MkdirAll(tempDir, 0o0700); err != nil {
 		return err
 	}
-	temp, err := os.MkdirTemp(tempDir, s.Torrent.FileName())
+	temp, err := os.MkdirTemp(tempDir, s.Torrent.WorkDir())
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 8a4122c66e3c8f0d8cad7a5e9f8799fa849088de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:44 +0000
Subject: [PATCH 32/80] fix: storage: refuse torrents whose paths lead out of
 their directory

---
 storage/storage.go | 32 ++++++++++++++++++++++++++++++++
 1 file changed, 32 insertions(+)

diff --git a/storage/storage.go b/storage/storage.go
index 0807888..28b29e6 100644
--- a/storage/storage.go
+++ b/storage/storage.go
@@ -9,6 +9,7 @@ import (
 	"log/slog"
 	"os"
 	"path/filepath"
+	"strings"
 	"sync/atomic"
 
 	"github.com/browles/drip/api/metainfo"
@@ -38,6 +39,9 @@ func New(targetDir, workDir string, info *metainfo.Info) *Storage {
 }
 
 func (s *Storage) Load() error {
+	if err := checkPaths(s.Torrent.Info); err != nil {
+		return err
+	}
 	_, err := os.Stat(filepath.Join(s.TargetDir, s.Torrent.FileName()))
 	if err != nil && !errors.Is(err, os.ErrNotExist) {
 		return err
@@ -221,6 +225,31 @@ func (s *Storage) getBlockFromPiece(piece *Piece, begin, length int) ([]byte, er
 	return data[:n], nil
 }
 
+// checkPaths refuses names that would lead out of the torrent's own file or
+// directory.
+func checkPaths(info *metainfo.Info) error {
+	check := func(name string) error {
+		if name == "" || name == "." || name == ".." || strings.ContainsAny(name, "/\x00") || strings.ContainsRune(name, filepath.Separator) {
+			return fmt.Errorf("storage: unacceptable file name: %q", name)
+		}
+		return nil
+	}
+	if err := check(info.Name); err != nil {
+		return err
+	}
+	for _, file := range info.Files {
+		if len(file.Path) == 0 {
+			return errors.New("storage: file without a path")
+		}
+		for _, name := range file.Path {
+			if err := check(name); err != nil {
+				return err
+			}
+		}
+	}
+	return nil
+}
+
 // checkRange tells whether the bytes lie within a single piece.
 func checkRange(info *metainfo.Info, index, begin, length int) error {
 	if index < 0 || index >= len(info.Pieces) {
@@ -302,6 +331,9 @@ func (s *Storage) coalescePieces() error {
 		return nil
 	}
 	slog.Debug("coalescePieces", "name", s.Torrent.Info.Name)
+	if err := checkPaths(s.Torrent.Info); err != nil {
+		return err
+	}
 	if len(s.Torrent.Info.Files) > 0 {
 		return s.coalescePiecesForMultiFile()
 	}
-- 
2.43.0


From dc91acb2d9ac3fb0e002f7861039f2cb55cd36a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:42 +0000
Subject: [PATCH 33/80] fix: p2p: report the missing bytes of multi-file
 torrents to trackers

---
 p2p/multitracker.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/p2p/multitracker.go b/p2p/multitracker.go
index f0adc4e..44d4675 100644
--- a/p2p/multitracker.go
+++ b/p2p/multitracker.go
@@ -109,7 +109,7 @@ func (mt *Tracker) get(event eventName) (*trackerapi.Response, error) {
 		Port:       mt.server.Port,
 		Uploaded:   mt.server.Uploaded(),
 		Downloaded: mt.server.Downloaded(),
-		Left:       mt.server.Info.Length - mt.server.Storage.Downloaded(),
+		Left:       mt.server.Info.GetLength() - mt.server.Storage.Downloaded(),
 		Event:      string(event),
 		Compact:    true,
 	}
-- 
2.43.0


From 28439e7ddd02958851bb01426880c8cd8b10ae05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:42 +0000
Subject: [PATCH 34/80] fix: p2p: keep the query of the announce URL

---
 p2p/multitracker.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/p2p/multitracker.go b/p2p/multitracker.go
index 44d4675..7685166 100644
--- a/p2p/multitracker.go
+++ b/p2p/multitracker.go
@@ -117,7 +117,11 @@ func (mt *Tracker) get(event eventName) (*trackerapi.Response, error) {
 	if err != nil {
 		return nil, err
 	}
-	url.RawQuery = req.Encode()
+	query := req.Encode()
+	if url.RawQuery != "" {
+		query = url.RawQuery + "&" + query
+	}
+	url.RawQuery = query
 	httpRes, err := http.Get(url.String())
 	if err != nil {
 		return nil, err
-- 
2.43.0


From f9c3497275d721ccbd92786b497557dc4b26161b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:42 +0000
Subject: [PATCH 35/80] fix: p2p: give up on trackers that do not answer

---
 p2p/multitracker.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/p2p/multitracker.go b/p2p/multitracker.go
index 7685166..4acfdff 100644
--- a/p2p/multitracker.go
+++ b/p2p/multitracker.go
@@ -8,6 +8,7 @@ import (
 	"net/http"
 	"net/url"
 	"slices"
+	"time"
 
 	"github.com/browles/drip/api/metainfo"
 	trackerapi "github.com/browles/drip/api/tracker"
@@ -72,6 +73,9 @@ func (mt *Multitracker) get(event eventName) (res *trackerapi.Response, err erro
 	return
 }
 
+// httpClient gives up on trackers that do not answer.
+var httpClient = &http.Client{Timeout: 30 * time.Second}
+
 type Tracker struct {
 	URL    string
 	server *Server
@@ -122,10 +126,11 @@ func (mt *Tracker) get(event eventName) (*trackerapi.Response, error) {
 		query = url.RawQuery + "&" + query
 	}
 	url.RawQuery = query
-	httpRes, err := http.Get(url.String())
+	httpRes, err := httpClient.Get(url.String())
 	if err != nil {
 		return nil, err
 	}
+	defer httpRes.Body.Close()
 	data, err := io.ReadAll(httpRes.Body)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 5ffcc661c03615a3dbb5c9a7cdf0324548c97c21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:42 +0000
Subject: [PATCH 36/80] fix: p2p: report an error when there is no tracker to
 announce to

---
 p2p/multitracker.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/p2p/multitracker.go b/p2p/multitracker.go
index 4acfdff..f94e010 100644
--- a/p2p/multitracker.go
+++ b/p2p/multitracker.go
@@ -15,6 +15,8 @@ import (
 	"github.com/browles/drip/bencode"
 )
 
+var ErrNoTracker = errors.New("p2p: torrent has no tracker")
+
 // https://www.bittorrent.org/beps/bep_0012.html
 type Multitracker struct {
 	TrackerTiers [][]*Tracker
@@ -59,6 +61,7 @@ func (mt *Multitracker) Announce() (*trackerapi.Response, error) {
 }
 
 func (mt *Multitracker) get(event eventName) (res *trackerapi.Response, err error) {
+	err = ErrNoTracker
 	for _, tier := range mt.TrackerTiers {
 		for j, tracker := range tier {
 			res, err = tracker.get(event)
-- 
2.43.0


From c4e0da0551cf37e7c87430f3fc08c1f560755092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:42 +0000
Subject: [PATCH 37/80] fix: p2p: keep every tracker when announces overlap

---
 p2p/multitracker.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/p2p/multitracker.go b/p2p/multitracker.go
index f94e010..49e4c6d 100644
--- a/p2p/multitracker.go
+++ b/p2p/multitracker.go
@@ -8,6 +8,7 @@ import (
 	"net/http"
 	"net/url"
 	"slices"
+	"sync"
 	"time"
 
 	"github.com/browles/drip/api/metainfo"
@@ -20,6 +21,8 @@ var ErrNoTracker = errors.New("p2p: torrent has no tracker")
 // https://www.bittorrent.org/beps/bep_0012.html
 type Multitracker struct {
 	TrackerTiers [][]*Tracker
+
+	mu sync.Mutex // guards the order within the tiers
 }
 
 func NewMultitracker(mi *metainfo.Metainfo, s *Server) *Multitracker {
@@ -63,9 +66,15 @@ func (mt *Multitracker) Announce() (*trackerapi.Response, error) {
 func (mt *Multitracker) get(event eventName) (res *trackerapi.Response, err error) {
 	err = ErrNoTracker
 	for _, tier := range mt.TrackerTiers {
-		for j, tracker := range tier {
+		mt.mu.Lock()
+		trackers := slices.Clone(tier)
+		mt.mu.Unlock()
+		for _, tracker := range trackers {
 			res, err = tracker.get(event)
 			if err == nil {
+				mt.mu.Lock()
+				defer mt.mu.Unlock()
+				j := slices.Index(tier, tracker)
 				copy(tier[1:j+1], tier[0:j])
 				tier[0] = tracker
 				return
-- 
2.43.0


From e3fd71b772b69afca91d61c4e461d6f362997563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:09 +0000
Subject: [PATCH 38/80] fix: p2p: release the lock when refusing a connection

---
 p2p/server.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/p2p/server.go b/p2p/server.go
index d71d7b7..83428d3 100644
--- a/p2p/server.go
+++ b/p2p/server.go
@@ -270,10 +270,12 @@ func (p2p *Server) AddPeer(tp *tracker.Peer) error {
 func (p2p *Server) Connect(peer *Peer) error {
 	p2p.mu.Lock()
 	if len(p2p.activePeers) >= 50 {
+		p2p.mu.Unlock()
 		return ErrTooManyConnections
 	}
 	if idip, ok := p2p.knownIDIPs[peer.Addr()]; ok {
 		if _, ok := p2p.activePeers[idip]; ok {
+			p2p.mu.Unlock()
 			return ErrAlreadyConnected
 		}
 	}
-- 
2.43.0


From bc47bd7c7433d6d5520ccc64ed8d451227f41f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:09 +0000
Subject: [PATCH 39/80] fix: p2p: close the connections of refused peers

---
 p2p/peer.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/p2p/peer.go b/p2p/peer.go
index 672f31f..672067b 100644
--- a/p2p/peer.go
+++ b/p2p/peer.go
@@ -163,6 +163,7 @@ func (p *Peer) NotInterest() error {
 }
 
 func (peer *Peer) serve(ctx context.Context) {
+	defer peer.Close()
 	if err := peer.server.Connect(peer); err != nil {
 		if !errors.Is(err, ErrAlreadyConnected) {
 			slog.Error("serve.Connect", "err", err)
-- 
2.43.0


From 0c53d0c2a57996652e544909a4555911cf6ac0a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:09 +0000
Subject: [PATCH 40/80] fix: p2p: free the slot of a peer that fails while
 connecting

---
 p2p/server.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/p2p/server.go b/p2p/server.go
index 83428d3..354a47e 100644
--- a/p2p/server.go
+++ b/p2p/server.go
@@ -302,6 +302,7 @@ func (p2p *Server) Connect(peer *Peer) error {
 	p2p.activePeers[peer.IDIP()] = peer
 	bf := p2p.Storage.Torrent.Bitfield
 	if err := peer.Send(peerapi.Bitfield(bf)); err != nil {
+		p2p.disconnect(peer)
 		return err
 	}
 	return nil
-- 
2.43.0


From 4eae9124187c44a80e3dd8a322c67f28e07fa1e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:09 +0000
Subject: [PATCH 41/80] fix: p2p: leave a newer connection alone when an old
 one goes away

---
 p2p/server.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/p2p/server.go b/p2p/server.go
index 354a47e..b9fce3c 100644
--- a/p2p/server.go
+++ b/p2p/server.go
@@ -461,6 +461,10 @@ func (p2p *Server) disconnect(peer *Peer) error {
 	for _, i := range peer.Bitfield.Items() {
 		delete(p2p.indexToPeers[i], peer)
 	}
+	if p2p.activePeers[peer.IDIP()] != peer {
+		// Already disconnected: what is recorded belongs to a newer connection.
+		return peer.Close()
+	}
 	for addr := range p2p.knownAddrs[peer.IDIP()] {
 		if idip, ok := p2p.knownIDIPs[addr]; ok && idip == peer.IDIP() {
 			delete(p2p.knownIDIPs, addr)
-- 
2.43.0


From 2e717b758816751ebef1e6871979403d2a4fdae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:09 +0000
Subject: [PATCH 42/80] fix: p2p: refuse announcements of pieces that do not
 exist

---
 p2p/peer.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/p2p/peer.go b/p2p/peer.go
index 672067b..9a85639 100644
--- a/p2p/peer.go
+++ b/p2p/peer.go
@@ -208,6 +208,9 @@ func (peer *Peer) HandleMessage(m *peerapi.Message) error {
 	case peerapi.HAVE:
 		return peer.HandleHave(m.Index())
 	case peerapi.BITFIELD:
+		if len(m.Bitfield()) != len(peer.Bitfield) {
+			return fmt.Errorf("p2p: bitfield of the wrong size: %d", len(m.Bitfield()))
+		}
 		for _, i := range m.Bitfield().Items() {
 			if err := peer.HandleHave(i); err != nil {
 				return err
@@ -224,6 +227,9 @@ func (peer *Peer) HandleMessage(m *peerapi.Message) error {
 }
 
 func (peer *Peer) HandleHave(i int) error {
+	if i < 0 || i >= len(peer.server.Info.Pieces) {
+		return fmt.Errorf("p2p: no such piece: %d", i)
+	}
 	peer.Bitfield.Add(i)
 	peer.server.RecordIndex(i, peer)
 	if !peer.server.Storage.Torrent.Bitfield.Has(i) {
-- 
2.43.0


From a966c276023160d0b6f28526dc6850f717f0bb13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:09 +0000
Subject: [PATCH 43/80] fix: p2p: pick the rarest piece, not the rarest
 position

---
 p2p/server.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/p2p/server.go b/p2p/server.go
index b9fce3c..a11a9d2 100644
--- a/p2p/server.go
+++ b/p2p/server.go
@@ -390,11 +390,11 @@ func (p2p *Server) requestPieceFromPeer(ctx context.Context, peer *Peer) error {
 		delete(p2p.queuedPeers, peer)
 		return peer.NotInterest()
 	}
-	sort.Slice(pieces, func(i, j int) bool {
-		if len(p2p.indexToPeers[i]) == len(p2p.indexToPeers[j]) {
-			return rand.Float64() < 0.5
-		}
-		return len(p2p.indexToPeers[i]) < len(p2p.indexToPeers[j])
+	rand.Shuffle(len(pieces), func(i, j int) {
+		pieces[i], pieces[j] = pieces[j], pieces[i]
+	})
+	sort.SliceStable(pieces, func(i, j int) bool {
+		return len(p2p.indexToPeers[pieces[i]]) < len(p2p.indexToPeers[pieces[j]])
 	})
 	for _, index := range pieces {
 		if p2p.inflight[index] != nil {
-- 
2.43.0


From 1e27f67fe702cf6000999f68fb57c859ac4e5581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:10 +0000
Subject: [PATCH 44/80] fix: p2p: lock the table of pieces in flight, and clear
 it before queueing

---
 p2p/server.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/p2p/server.go b/p2p/server.go
index a11a9d2..59fd88c 100644
--- a/p2p/server.go
+++ b/p2p/server.go
@@ -402,8 +402,11 @@ func (p2p *Server) requestPieceFromPeer(ctx context.Context, peer *Peer) error {
 		}
 		p2p.inflight[index] = peer
 		go func() {
-			defer delete(p2p.inflight, index)
-			if err := p2p.requestPiece(ctx, peer, index); err != nil {
+			err := p2p.requestPiece(ctx, peer, index)
+			p2p.mu.Lock()
+			delete(p2p.inflight, index)
+			p2p.mu.Unlock()
+			if err != nil {
 				slog.Error("requestPieceFromPeer.requestPiece", "err", err)
 				if _, ok := err.(*storage.ChecksumError); ok {
 					if err := p2p.Block(peer); err != nil {
-- 
2.43.0


From 3fdfaa98abddb2fe507df1cb88f777a30d61f6d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:10 +0000
Subject: [PATCH 45/80] fix: p2p: note a choke before failing the requests it
 drops

---
 p2p/peer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/p2p/peer.go b/p2p/peer.go
index 9a85639..964ddcc 100644
--- a/p2p/peer.go
+++ b/p2p/peer.go
@@ -121,6 +121,7 @@ func (p *Peer) Receive() (m *peerapi.Message, err error) {
 		p.mu.Unlock()
 	case peerapi.CHOKE:
 		p.mu.Lock()
+		p.RemoteChoked.Store(true)
 		for br := range p.inflightRequests {
 			p.completeRequest(&br, ErrChoked)
 		}
@@ -197,7 +198,6 @@ func (peer *Peer) HandleMessage(m *peerapi.Message) error {
 	switch m.Type {
 	case peerapi.KEEPALIVE:
 	case peerapi.CHOKE:
-		peer.RemoteChoked.Store(true)
 	case peerapi.UNCHOKE:
 		peer.RemoteChoked.Store(false)
 		peer.server.QueuePeer(peer)
-- 
2.43.0


From f47772fd8d2ede668f041f1f5ad367d466a73ca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:09 +0000
Subject: [PATCH 46/80] fix: p2p: take blocks only from the peer that was asked
 for them

---
 p2p/peer.go | 42 ++++++++++++++++++++++++++++--------------
 1 file changed, 28 insertions(+), 14 deletions(-)

diff --git a/p2p/peer.go b/p2p/peer.go
index 964ddcc..f21910e 100644
--- a/p2p/peer.go
+++ b/p2p/peer.go
@@ -114,11 +114,6 @@ func (p *Peer) Receive() (m *peerapi.Message, err error) {
 	}
 	slog.Debug("Receive", "peer", p.IDIP(), "message", m)
 	switch m.Type {
-	case peerapi.PIECE:
-		p.mu.Lock()
-		br := blockRequest{m.Index(), m.Begin(), len(m.Piece())}
-		p.completeRequest(&br, nil)
-		p.mu.Unlock()
 	case peerapi.CHOKE:
 		p.mu.Lock()
 		p.RemoteChoked.Store(true)
@@ -272,15 +267,24 @@ func (peer *Peer) HandleCancel(index, begin, length int) {
 }
 
 func (peer *Peer) HandlePiece(index, begin int, data []byte) error {
-	err := peer.server.Storage.PutBlock(index, begin, data)
-	if err != nil && !errors.Is(err, storage.ErrBlockExists) {
-		return err
+	// Only blocks that this peer was asked for count: others may belong to
+	// a piece that another peer is delivering.
+	br := &blockRequest{index, begin, len(data)}
+	fut := peer.takeRequest(br)
+	if fut == nil {
+		slog.Debug("HandlePiece: not requested", "peer", peer.IDIP(), "index", index, "begin", begin)
+		return nil
 	}
+	err := peer.server.Storage.PutBlock(index, begin, data)
 	if err == nil {
 		peer.downloaded.Add(int64(len(data)))
 		peer.server.downloaded.Add(int64(len(data)))
 	}
-	return nil
+	if errors.Is(err, storage.ErrBlockExists) {
+		err = nil
+	}
+	fut.Deliver(err)
+	return err
 }
 
 func (peer *Peer) requestPiece(ctx context.Context, index int) (err error) {
@@ -320,22 +324,32 @@ func (p *Peer) requestBlock(ctx context.Context, br *blockRequest) (err error) {
 		p.inflightRequests[*br] = fut
 	}
 	p.mu.Unlock()
-	defer func() {
-		p.mu.Lock()
-		defer p.mu.Unlock()
-		delete(p.inflightRequests, *br)
-	}()
 	if err := p.Send(peerapi.Request(br.index, br.begin, br.length)); err != nil {
+		if p.takeRequest(br) == nil {
+			fut.Wait()
+		}
 		return err
 	}
 	select {
 	case <-ctx.Done():
+		if p.takeRequest(br) == nil {
+			return fut.Wait()
+		}
 		return ctx.Err()
 	case <-fut.Done:
 		return fut.Wait()
 	}
 }
 
+// takeRequest removes a request, whoever gets it settles it.
+func (p *Peer) takeRequest(br *blockRequest) *future.Future[error] {
+	p.mu.Lock()
+	defer p.mu.Unlock()
+	fut := p.inflightRequests[*br]
+	delete(p.inflightRequests, *br)
+	return fut
+}
+
 func (p *Peer) completeRequest(br *blockRequest, err error) {
 	slog.Debug("completeRequest", "index", br.index, "begin", br.begin, "length", br.length, "err", err)
 	if fut, ok := p.inflightRequests[*br]; ok {
-- 
2.43.0


From a2cd280324c922d3d5f4695b519f5c6f92c6e608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:09 +0000
Subject: [PATCH 47/80] fix: p2p: cancel the requests of a piece that is given
 up

---
 p2p/peer.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/p2p/peer.go b/p2p/peer.go
index f21910e..76d5fec 100644
--- a/p2p/peer.go
+++ b/p2p/peer.go
@@ -316,6 +316,9 @@ func (p *Peer) requestBlock(ctx context.Context, br *blockRequest) (err error) {
 	if p.RemoteChoked.Load() {
 		return ErrChoked
 	}
+	if err := ctx.Err(); err != nil {
+		return err
+	}
 	slog.Debug("requestBlock", "index", br.index, "begin", br.begin, "length", br.length)
 	p.mu.Lock()
 	fut, ok := p.inflightRequests[*br]
@@ -335,6 +338,9 @@ func (p *Peer) requestBlock(ctx context.Context, br *blockRequest) (err error) {
 		if p.takeRequest(br) == nil {
 			return fut.Wait()
 		}
+		if !p.RemoteChoked.Load() {
+			p.Send(peerapi.Cancel(br.index, br.begin, br.length))
+		}
 		return ctx.Err()
 	case <-fut.Done:
 		return fut.Wait()
-- 
2.43.0


From 607e2d4adaeb7f48b10552df671775be447344e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:26 +0000
Subject: [PATCH 48/80] fix: p2p: do not wait for a download queue nobody reads
 any more

---
 p2p/server.go | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/p2p/server.go b/p2p/server.go
index 59fd88c..459600d 100644
--- a/p2p/server.go
+++ b/p2p/server.go
@@ -34,6 +34,7 @@ type Server struct {
 	downloadQueue chan *Peer
 	tcp           net.Listener
 	cancel        context.CancelFunc
+	done          <-chan struct{}
 	uploaded      atomic.Int64
 	downloaded    atomic.Int64
 
@@ -96,6 +97,7 @@ func (p2p *Server) Start() error {
 	p2p.cancel = cancel
 	defer cancel()
 	eg, ctx := errgroup.WithContext(ctx)
+	p2p.done = ctx.Done()
 	go func() {
 		<-ctx.Done()
 		p2p.Stop()
@@ -414,7 +416,7 @@ func (p2p *Server) requestPieceFromPeer(ctx context.Context, peer *Peer) error {
 					}
 				}
 			}
-			p2p.downloadQueue <- peer
+			p2p.enqueue(peer)
 		}()
 		return nil
 	}
@@ -423,7 +425,7 @@ func (p2p *Server) requestPieceFromPeer(ctx context.Context, peer *Peer) error {
 		case <-ctx.Done():
 			return
 		case <-time.After(5 * time.Second):
-			p2p.downloadQueue <- peer
+			p2p.enqueue(peer)
 		}
 	}()
 	return nil
@@ -456,10 +458,18 @@ func (p2p *Server) queuePeer(peer *Peer) bool {
 		return false
 	}
 	p2p.queuedPeers[peer] = struct{}{}
-	p2p.downloadQueue <- peer
+	p2p.enqueue(peer)
 	return true
 }
 
+// enqueue hands the peer to RequestPieces, if that still runs.
+func (p2p *Server) enqueue(peer *Peer) {
+	select {
+	case p2p.downloadQueue <- peer:
+	case <-p2p.done:
+	}
+}
+
 func (p2p *Server) disconnect(peer *Peer) error {
 	for _, i := range peer.Bitfield.Items() {
 		delete(p2p.indexToPeers[i], peer)
-- 
2.43.0


From be907234f72e52d5f4065dad6d404fc5c36d0b4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:37 +0000
Subject: [PATCH 49/80] fix: p2p: let others try before asking a failing peer
 again

---
 p2p/peer.go   |  2 ++
 p2p/server.go | 11 +++++++++++
 2 files changed, 13 insertions(+)

diff --git a/p2p/peer.go b/p2p/peer.go
index 76d5fec..681baef 100644
--- a/p2p/peer.go
+++ b/p2p/peer.go
@@ -31,6 +31,8 @@ type Peer struct {
 	downloaded atomic.Int64
 	uploaded   atomic.Int64
 
+	failures int // pieces in a row that did not arrive
+
 	mu sync.Mutex
 	net.Conn
 	inflightRequests map[blockRequest]*future.Future[error]
diff --git a/p2p/server.go b/p2p/server.go
index 459600d..5cf3a74 100644
--- a/p2p/server.go
+++ b/p2p/server.go
@@ -416,6 +416,17 @@ func (p2p *Server) requestPieceFromPeer(ctx context.Context, peer *Peer) error {
 					}
 				}
 			}
+			switch {
+			case err == nil:
+				peer.failures = 0
+			case !errors.Is(err, ErrChoked):
+				// Leave the piece to other peers for a while.
+				peer.failures++
+				select {
+				case <-ctx.Done():
+				case <-time.After(5 * time.Second << min(peer.failures, 8)):
+				}
+			}
 			p2p.enqueue(peer)
 		}()
 		return nil
-- 
2.43.0


From 51e5c3e7fd187943acc99a455d56d485e03dcb86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:00 +0000
Subject: [PATCH 50/80] fix: p2p: accept tracker replies without peers

---
 p2p/server.go | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/p2p/server.go b/p2p/server.go
index 5cf3a74..943f8dd 100644
--- a/p2p/server.go
+++ b/p2p/server.go
@@ -110,12 +110,7 @@ func (p2p *Server) Start() error {
 	if err != nil {
 		return err
 	}
-	for _, p := range res.Peers.List {
-		err := p2p.AddPeer(p)
-		if err != nil {
-			slog.Error("Start.AddPeer", "err", err)
-		}
-	}
+	p2p.addPeers(res.Peers)
 	eg.Go(func() error { return p2p.every(ctx, p2p.Announce, time.Duration(res.Interval)*time.Second) })
 	if err := p2p.UnchokePeers(ctx); err != nil {
 		return err
@@ -232,14 +227,20 @@ func (p2p *Server) Announce(ctx context.Context) error {
 	if err != nil {
 		return err
 	}
-	slog.Debug("Announce", "num_peers", len(res.Peers.List))
-	for _, tp := range res.Peers.List {
-		err := p2p.AddPeer(tp)
-		if err != nil {
-			slog.Error("Announce.AddPeer", "err", err)
+	p2p.addPeers(res.Peers)
+	return nil
+}
+
+func (p2p *Server) addPeers(peers *tracker.Peers) {
+	if peers == nil {
+		return
+	}
+	slog.Debug("addPeers", "num_peers", len(peers.List))
+	for _, tp := range peers.List {
+		if err := p2p.AddPeer(tp); err != nil {
+			slog.Error("addPeers.AddPeer", "err", err)
 		}
 	}
-	return nil
 }
 
 func (p2p *Server) QueuePeer(peer *Peer) bool {
-- 
2.43.0


From 108a52730c71fef1b1d9156f252d8f569c64e455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:00 +0000
Subject: [PATCH 51/80] fix: p2p: survive senseless announce intervals

---
 p2p/server.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/p2p/server.go b/p2p/server.go
index 943f8dd..a9d61c5 100644
--- a/p2p/server.go
+++ b/p2p/server.go
@@ -6,6 +6,7 @@ import (
 	"fmt"
 	"log/slog"
 	"maps"
+	"math"
 	"math/rand"
 	"net"
 	"sort"
@@ -111,7 +112,7 @@ func (p2p *Server) Start() error {
 		return err
 	}
 	p2p.addPeers(res.Peers)
-	eg.Go(func() error { return p2p.every(ctx, p2p.Announce, time.Duration(res.Interval)*time.Second) })
+	eg.Go(func() error { return p2p.every(ctx, p2p.Announce, announceInterval(res.Interval)) })
 	if err := p2p.UnchokePeers(ctx); err != nil {
 		return err
 	}
@@ -513,6 +514,14 @@ func (p2p *Server) newPeer(conn net.Conn) *Peer {
 	return peer
 }
 
+// announceInterval makes sense of the interval a tracker asks for.
+func announceInterval(seconds int) time.Duration {
+	if seconds <= 0 {
+		return 30 * time.Minute
+	}
+	return time.Duration(min(int64(seconds), math.MaxInt64/int64(time.Second))) * time.Second
+}
+
 func (p2p *Server) every(ctx context.Context, f func(ctx context.Context) error, d time.Duration) error {
 	ticker := time.NewTicker(d)
 	defer ticker.Stop()
-- 
2.43.0


From 57eda63c91a7c08f02ca96fe4a925c513e897398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:00 +0000
Subject: [PATCH 52/80] fix: p2p: keep the session when an announce fails

---
 p2p/server.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/p2p/server.go b/p2p/server.go
index a9d61c5..a4d2295 100644
--- a/p2p/server.go
+++ b/p2p/server.go
@@ -112,7 +112,13 @@ func (p2p *Server) Start() error {
 		return err
 	}
 	p2p.addPeers(res.Peers)
-	eg.Go(func() error { return p2p.every(ctx, p2p.Announce, announceInterval(res.Interval)) })
+	announce := func(ctx context.Context) error {
+		if err := p2p.Announce(ctx); err != nil {
+			slog.Error("Start.Announce", "err", err)
+		}
+		return nil
+	}
+	eg.Go(func() error { return p2p.every(ctx, announce, announceInterval(res.Interval)) })
 	if err := p2p.UnchokePeers(ctx); err != nil {
 		return err
 	}
-- 
2.43.0


From 903ceb7f3e1e85bdbf3a2afc2999c4439fecc67d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:00 +0000
Subject: [PATCH 53/80] fix: p2p: announce the stop once, and after closing the
 connections

---
 p2p/server.go | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/p2p/server.go b/p2p/server.go
index a4d2295..c63e144 100644
--- a/p2p/server.go
+++ b/p2p/server.go
@@ -36,6 +36,7 @@ type Server struct {
 	tcp           net.Listener
 	cancel        context.CancelFunc
 	done          <-chan struct{}
+	stopped       bool
 	uploaded      atomic.Int64
 	downloaded    atomic.Int64
 
@@ -95,10 +96,13 @@ func (p2p *Server) Start() error {
 	}
 	slog.Info("Start", "network", "tcp", "port", p2p.Port)
 	ctx, cancel := context.WithCancel(context.Background())
-	p2p.cancel = cancel
 	defer cancel()
 	eg, ctx := errgroup.WithContext(ctx)
+	p2p.mu.Lock()
+	p2p.cancel = cancel
 	p2p.done = ctx.Done()
+	p2p.stopped = false
+	p2p.mu.Unlock()
 	go func() {
 		<-ctx.Done()
 		p2p.Stop()
@@ -127,18 +131,24 @@ func (p2p *Server) Start() error {
 
 func (p2p *Server) Stop() error {
 	p2p.mu.Lock()
-	defer p2p.mu.Unlock()
 	if p2p.cancel == nil {
+		p2p.mu.Unlock()
 		return errors.New("p2p: server not started")
 	}
+	if p2p.stopped {
+		p2p.mu.Unlock()
+		return nil
+	}
+	p2p.stopped = true
 	p2p.cancel()
 	p2p.tcp.Close()
 	var errs []error
-	_, err := p2p.Tracker.Stop()
-	errs = append(errs, err)
 	for _, p := range p2p.activePeers {
 		errs = append(errs, p2p.disconnect(p))
 	}
+	p2p.mu.Unlock()
+	_, err := p2p.Tracker.Stop()
+	errs = append(errs, err)
 	return errors.Join(errs...)
 }
 
-- 
2.43.0


From cb5abd6cd12bedfe3e643c8866c98fe798b3700a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:01 +0000
Subject: [PATCH 54/80] fix: p2p: give up dialing after a while, and when
 stopped

---
 p2p/server.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/p2p/server.go b/p2p/server.go
index c63e144..eadb13c 100644
--- a/p2p/server.go
+++ b/p2p/server.go
@@ -364,9 +364,10 @@ func (p2p *Server) Uploaded() int64 {
 	return p2p.uploaded.Load()
 }
 
-func (p2p *Server) dialTCP(peer *tracker.Peer) (*Peer, error) {
+func (p2p *Server) dialTCP(ctx context.Context, peer *tracker.Peer) (*Peer, error) {
 	slog.Debug("dialTCP", "ip", peer.IP, "port", peer.Port)
-	conn, err := net.Dial("tcp", fmt.Sprintf("%s:%d", peer.IP, peer.Port))
+	dialer := &net.Dialer{Timeout: 30 * time.Second}
+	conn, err := dialer.DialContext(ctx, "tcp", fmt.Sprintf("%s:%d", peer.IP, peer.Port))
 	if err != nil {
 		return nil, err
 	}
@@ -386,7 +387,7 @@ func (p2p *Server) dialPeer(ctx context.Context, tp *tracker.Peer) error {
 		return nil
 	}
 	p2p.mu.Unlock()
-	peer, err := p2p.dialTCP(tp)
+	peer, err := p2p.dialTCP(ctx, tp)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From cb6c9a6e010342543b69183aae799d55399829c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:01 +0000
Subject: [PATCH 55/80] fix: p2p: dial and recognise IPv6 peers

---
 p2p/server.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/p2p/server.go b/p2p/server.go
index eadb13c..af27fac 100644
--- a/p2p/server.go
+++ b/p2p/server.go
@@ -10,6 +10,7 @@ import (
 	"math/rand"
 	"net"
 	"sort"
+	"strconv"
 	"sync"
 	"sync/atomic"
 	"time"
@@ -367,7 +368,7 @@ func (p2p *Server) Uploaded() int64 {
 func (p2p *Server) dialTCP(ctx context.Context, peer *tracker.Peer) (*Peer, error) {
 	slog.Debug("dialTCP", "ip", peer.IP, "port", peer.Port)
 	dialer := &net.Dialer{Timeout: 30 * time.Second}
-	conn, err := dialer.DialContext(ctx, "tcp", fmt.Sprintf("%s:%d", peer.IP, peer.Port))
+	conn, err := dialer.DialContext(ctx, "tcp", net.JoinHostPort(peer.IP, strconv.Itoa(peer.Port)))
 	if err != nil {
 		return nil, err
 	}
@@ -559,5 +560,5 @@ func remoteAddr(tp *tracker.Peer) (addr, error) {
 	if ip == nil {
 		return "", errors.New("p2p: bad ip")
 	}
-	return addr(fmt.Sprintf("%s:%d", ip.String(), tp.Port)), nil
+	return addr(net.JoinHostPort(ip.String(), strconv.Itoa(tp.Port))), nil
 }
-- 
2.43.0


From d37d00846273288d9f4263ef9b6f76493da39eb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:34 +0000
Subject: [PATCH 56/80] fix: p2p: drop peers that do not read, and do not wait
 for them while receiving

---
 p2p/peer.go | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/p2p/peer.go b/p2p/peer.go
index 681baef..4e1f13a 100644
--- a/p2p/peer.go
+++ b/p2p/peer.go
@@ -33,7 +33,8 @@ type Peer struct {
 
 	failures int // pieces in a row that did not arrive
 
-	mu sync.Mutex
+	writeMu sync.Mutex // held while a message is written
+	mu      sync.Mutex // guards the requests
 	net.Conn
 	inflightRequests map[blockRequest]*future.Future[error]
 	canceledRequests map[blockRequest]struct{}
@@ -96,8 +97,13 @@ func (p *Peer) Addr() addr {
 }
 
 func (p *Peer) Send(m *peerapi.Message) error {
-	p.mu.Lock()
-	defer p.mu.Unlock()
+	p.writeMu.Lock()
+	defer p.writeMu.Unlock()
+	return p.send(m)
+}
+
+// send needs writeMu.
+func (p *Peer) send(m *peerapi.Message) error {
 	if m.Type == peerapi.REQUEST {
 		if p.RemoteChoked.Load() {
 			return ErrChoked
@@ -105,7 +111,13 @@ func (p *Peer) Send(m *peerapi.Message) error {
 		p.SetReadDeadline(time.Now().Add(2 * time.Minute))
 	}
 	slog.Debug("Send", "peer", p.IDIP(), "message", m)
-	return peerapi.Write(p.Conn, m)
+	p.SetWriteDeadline(time.Now().Add(30 * time.Second))
+	if err := peerapi.Write(p.Conn, m); err != nil {
+		// Nothing can follow a message that was cut off.
+		p.Close()
+		return err
+	}
+	return nil
 }
 
 func (p *Peer) Receive() (m *peerapi.Message, err error) {
-- 
2.43.0


From d57c4a661974f8a1e661fd8ce703ee43eb1f8cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:35 +0000
Subject: [PATCH 57/80] fix: p2p: do not hold up the session while greeting a
 peer

---
 p2p/server.go | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/p2p/server.go b/p2p/server.go
index af27fac..8e6b778 100644
--- a/p2p/server.go
+++ b/p2p/server.go
@@ -9,6 +9,7 @@ import (
 	"math"
 	"math/rand"
 	"net"
+	"slices"
 	"sort"
 	"strconv"
 	"sync"
@@ -305,10 +306,26 @@ func (p2p *Server) Connect(peer *Peer) error {
 	if err := peer.Handshake(); err != nil {
 		return err
 	}
+	// The bitfield goes out before anything else that is sent to the peer.
+	peer.writeMu.Lock()
+	defer peer.writeMu.Unlock()
+	bf, err := p2p.register(peer)
+	if err != nil {
+		return err
+	}
+	if err := peer.send(peerapi.Bitfield(bf)); err != nil {
+		p2p.Disconnect(peer)
+		return err
+	}
+	return nil
+}
+
+// register makes the peer an active one, and returns what it is to be told.
+func (p2p *Server) register(peer *Peer) (bitfield.Bitfield, error) {
 	p2p.mu.Lock()
 	defer p2p.mu.Unlock()
 	if len(p2p.activePeers) >= 50 {
-		return ErrTooManyConnections
+		return nil, ErrTooManyConnections
 	}
 	addrs, ok := p2p.knownAddrs[peer.IDIP()]
 	if !ok {
@@ -318,15 +335,10 @@ func (p2p *Server) Connect(peer *Peer) error {
 	addrs[peer.Addr()] = struct{}{}
 	p2p.knownIDIPs[peer.Addr()] = peer.IDIP()
 	if _, ok := p2p.activePeers[peer.IDIP()]; ok {
-		return ErrAlreadyConnected
+		return nil, ErrAlreadyConnected
 	}
 	p2p.activePeers[peer.IDIP()] = peer
-	bf := p2p.Storage.Torrent.Bitfield
-	if err := peer.Send(peerapi.Bitfield(bf)); err != nil {
-		p2p.disconnect(peer)
-		return err
-	}
-	return nil
+	return slices.Clone(p2p.Storage.Torrent.Bitfield), nil
 }
 
 func (p2p *Server) Disconnect(peer *Peer) error {
-- 
2.43.0


From 2a39d16b48eae8a4b282d37fdbf81a33fa554eb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:35 +0000
Subject: [PATCH 58/80] fix: p2p: announce a piece to all peers even if some
 fail

---
 p2p/server.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/p2p/server.go b/p2p/server.go
index 8e6b778..c0ce04e 100644
--- a/p2p/server.go
+++ b/p2p/server.go
@@ -485,10 +485,12 @@ func (p2p *Server) requestPiece(ctx context.Context, p *Peer, i int) error {
 		if p.Closed.Load() {
 			continue
 		}
-		err := p.Send(peerapi.Have(i))
-		if err != nil {
-			return err
-		}
+		// Peers that fail or do not read are no concern of the others.
+		go func() {
+			if err := p.Send(peerapi.Have(i)); err != nil {
+				slog.Error("requestPiece.Have", "err", err)
+			}
+		}()
 	}
 	return nil
 }
-- 
2.43.0


From bc070d1aa67372f894e2bbbc672d095128ab6085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:35 +0000
Subject: [PATCH 59/80] fix: p2p: tell a peer that it is unchoked before
 sending it data

---
 p2p/peer.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/p2p/peer.go b/p2p/peer.go
index 4e1f13a..46e0315 100644
--- a/p2p/peer.go
+++ b/p2p/peer.go
@@ -152,8 +152,11 @@ func (p *Peer) Choke() error {
 }
 
 func (p *Peer) Unchoke() error {
+	// No data goes out before the peer is told.
+	p.writeMu.Lock()
+	defer p.writeMu.Unlock()
 	if p.Choked.CompareAndSwap(true, false) {
-		return p.Send(peerapi.Unchoke())
+		return p.send(peerapi.Unchoke())
 	}
 	return nil
 }
-- 
2.43.0


From 6805a35ca2b8a51586708250b23d7739a64d829a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:26 +0000
Subject: [PATCH 60/80] fix: p2p: be interested in exactly the peers that have
 missing pieces

---
 p2p/peer.go   | 30 +++++++++++++++++-------------
 p2p/server.go | 14 +++++++++++++-
 2 files changed, 30 insertions(+), 14 deletions(-)

diff --git a/p2p/peer.go b/p2p/peer.go
index 46e0315..55b14bc 100644
--- a/p2p/peer.go
+++ b/p2p/peer.go
@@ -161,18 +161,20 @@ func (p *Peer) Unchoke() error {
 	return nil
 }
 
-func (p *Peer) Interest() error {
-	if p.Interested.CompareAndSwap(false, true) {
-		return p.Send(peerapi.Interested())
+// UpdateInterest tells the peer whether it has pieces that we lack, if that
+// has changed.
+func (p *Peer) UpdateInterest() error {
+	p.writeMu.Lock()
+	defer p.writeMu.Unlock()
+	wanted := p.server.wants(p)
+	if wanted == p.Interested.Load() {
+		return nil
 	}
-	return nil
-}
-
-func (p *Peer) NotInterest() error {
-	if p.Interested.CompareAndSwap(true, false) {
-		return p.Send(peerapi.NotInterested())
+	p.Interested.Store(wanted)
+	if wanted {
+		return p.send(peerapi.Interested())
 	}
-	return nil
+	return p.send(peerapi.NotInterested())
 }
 
 func (peer *Peer) serve(ctx context.Context) {
@@ -218,7 +220,10 @@ func (peer *Peer) HandleMessage(m *peerapi.Message) error {
 	case peerapi.NOT_INTERESTED:
 		peer.RemoteInterested.Store(false)
 	case peerapi.HAVE:
-		return peer.HandleHave(m.Index())
+		if err := peer.HandleHave(m.Index()); err != nil {
+			return err
+		}
+		go peer.UpdateInterest()
 	case peerapi.BITFIELD:
 		if len(m.Bitfield()) != len(peer.Bitfield) {
 			return fmt.Errorf("p2p: bitfield of the wrong size: %d", len(m.Bitfield()))
@@ -228,6 +233,7 @@ func (peer *Peer) HandleMessage(m *peerapi.Message) error {
 				return err
 			}
 		}
+		go peer.UpdateInterest()
 	case peerapi.REQUEST:
 		return peer.HandleRequest(m.Index(), m.Begin(), m.Length())
 	case peerapi.CANCEL:
@@ -242,11 +248,9 @@ func (peer *Peer) HandleHave(i int) error {
 	if i < 0 || i >= len(peer.server.Info.Pieces) {
 		return fmt.Errorf("p2p: no such piece: %d", i)
 	}
-	peer.Bitfield.Add(i)
 	peer.server.RecordIndex(i, peer)
 	if !peer.server.Storage.Torrent.Bitfield.Has(i) {
 		peer.server.QueuePeer(peer)
-		return peer.Interest()
 	}
 	return nil
 }
diff --git a/p2p/server.go b/p2p/server.go
index c0ce04e..73c03bb 100644
--- a/p2p/server.go
+++ b/p2p/server.go
@@ -367,6 +367,14 @@ func (p2p *Server) RecordIndex(i int, peer *Peer) {
 		p2p.indexToPeers[i] = m
 	}
 	m[peer] = struct{}{}
+	peer.Bitfield.Add(i)
+}
+
+// wants tells whether the peer has pieces that we lack.
+func (p2p *Server) wants(peer *Peer) bool {
+	p2p.mu.Lock()
+	defer p2p.mu.Unlock()
+	return len(peer.Bitfield.Difference(p2p.Storage.Torrent.Bitfield).Items()) > 0
 }
 
 func (p2p *Server) Downloaded() int64 {
@@ -422,7 +430,7 @@ func (p2p *Server) requestPieceFromPeer(ctx context.Context, peer *Peer) error {
 	pieces := pieceBf.Items()
 	if len(pieces) == 0 {
 		delete(p2p.queuedPeers, peer)
-		return peer.NotInterest()
+		return nil
 	}
 	rand.Shuffle(len(pieces), func(i, j int) {
 		pieces[i], pieces[j] = pieces[j], pieces[i]
@@ -489,6 +497,10 @@ func (p2p *Server) requestPiece(ctx context.Context, p *Peer, i int) error {
 		go func() {
 			if err := p.Send(peerapi.Have(i)); err != nil {
 				slog.Error("requestPiece.Have", "err", err)
+				return
+			}
+			if err := p.UpdateInterest(); err != nil {
+				slog.Error("requestPiece.UpdateInterest", "err", err)
 			}
 		}()
 	}
-- 
2.43.0


From 6c19bae9462d55cea95debd2b0af26431593ab1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:26 +0000
Subject: [PATCH 61/80] fix: p2p: answer every request, and read on meanwhile

---
 p2p/peer.go   | 60 +++++++++++++++++++++++++++++++++++++++++++--------
 p2p/server.go |  2 +-
 2 files changed, 52 insertions(+), 10 deletions(-)

diff --git a/p2p/peer.go b/p2p/peer.go
index 55b14bc..ac2f07d 100644
--- a/p2p/peer.go
+++ b/p2p/peer.go
@@ -6,6 +6,7 @@ import (
 	"fmt"
 	"log/slog"
 	"net"
+	"slices"
 	"sync"
 	"sync/atomic"
 	"time"
@@ -37,7 +38,8 @@ type Peer struct {
 	mu      sync.Mutex // guards the requests
 	net.Conn
 	inflightRequests map[blockRequest]*future.Future[error]
-	canceledRequests map[blockRequest]struct{}
+	remoteRequests   []blockRequest // not answered yet
+	requested        chan struct{}
 }
 
 type blockRequest struct {
@@ -46,6 +48,9 @@ type blockRequest struct {
 	length int
 }
 
+// maxRemoteRequests limits what a peer may ask for ahead.
+const maxRemoteRequests = 2000
+
 var ErrChoked = errors.New("p2p: peer connection is choked")
 
 func (p *Peer) Close() error {
@@ -190,6 +195,7 @@ func (peer *Peer) serve(ctx context.Context) {
 			slog.Error("serve.Disconnect", "err", err)
 		}
 	}()
+	go peer.upload(ctx)
 	for {
 		select {
 		case <-ctx.Done():
@@ -259,14 +265,48 @@ func (peer *Peer) HandleRequest(index, begin, length int) error {
 	if peer.Choked.Load() {
 		return ErrChoked
 	}
-	req := blockRequest{index, begin, length}
 	peer.mu.Lock()
-	if _, ok := peer.canceledRequests[req]; ok {
-		delete(peer.canceledRequests, req)
-		peer.mu.Unlock()
-		return nil
+	defer peer.mu.Unlock()
+	if len(peer.remoteRequests) >= maxRemoteRequests {
+		return errors.New("p2p: too many requests")
+	}
+	peer.remoteRequests = append(peer.remoteRequests, blockRequest{index, begin, length})
+	select {
+	case peer.requested <- struct{}{}:
+	default:
+	}
+	return nil
+}
+
+// upload answers the requests of the peer, apart from the goroutine that
+// reads them: two clients that only read on when the other has read would
+// block each other.
+func (peer *Peer) upload(ctx context.Context) {
+	for {
+		select {
+		case <-ctx.Done():
+			return
+		case <-peer.requested:
+		}
+		for {
+			peer.mu.Lock()
+			if len(peer.remoteRequests) == 0 {
+				peer.mu.Unlock()
+				break
+			}
+			req := peer.remoteRequests[0]
+			peer.remoteRequests = peer.remoteRequests[1:]
+			peer.mu.Unlock()
+			if err := peer.uploadBlock(req); err != nil {
+				slog.Error("upload.uploadBlock", "err", err)
+				peer.Close()
+				return
+			}
+		}
 	}
-	peer.mu.Unlock()
+}
+
+func (peer *Peer) uploadBlock(req blockRequest) error {
 	data, err := peer.server.Storage.GetBlock(req.index, req.begin, req.length)
 	if err != nil {
 		return err
@@ -283,8 +323,10 @@ func (peer *Peer) HandleRequest(index, begin, length int) error {
 func (peer *Peer) HandleCancel(index, begin, length int) {
 	peer.mu.Lock()
 	defer peer.mu.Unlock()
-	k := blockRequest{index, begin, length}
-	peer.canceledRequests[k] = struct{}{}
+	// Only what has not been answered can be canceled.
+	peer.remoteRequests = slices.DeleteFunc(peer.remoteRequests, func(req blockRequest) bool {
+		return req == blockRequest{index, begin, length}
+	})
 }
 
 func (peer *Peer) HandlePiece(index, begin int, data []byte) error {
diff --git a/p2p/server.go b/p2p/server.go
index 73c03bb..f9aff24 100644
--- a/p2p/server.go
+++ b/p2p/server.go
@@ -551,7 +551,7 @@ func (p2p *Server) newPeer(conn net.Conn) *Peer {
 		server:           p2p,
 		Conn:             conn,
 		inflightRequests: make(map[blockRequest]*future.Future[error]),
-		canceledRequests: make(map[blockRequest]struct{}),
+		requested:        make(chan struct{}, 1),
 	}
 	peer.RemoteChoked.Store(true)
 	peer.Choked.Store(true)
-- 
2.43.0


From 0aa93391095cefc3a8b8e0c260ec1952245cb0b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:50 +0000
Subject: [PATCH 62/80] fix: p2p: do not send requests that a choke has dropped

---
 p2p/peer.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/p2p/peer.go b/p2p/peer.go
index ac2f07d..f41b6c0 100644
--- a/p2p/peer.go
+++ b/p2p/peer.go
@@ -390,7 +390,7 @@ func (p *Peer) requestBlock(ctx context.Context, br *blockRequest) (err error) {
 		p.inflightRequests[*br] = fut
 	}
 	p.mu.Unlock()
-	if err := p.Send(peerapi.Request(br.index, br.begin, br.length)); err != nil {
+	if err := p.sendRequest(br, fut); err != nil {
 		if p.takeRequest(br) == nil {
 			fut.Wait()
 		}
@@ -410,6 +410,18 @@ func (p *Peer) requestBlock(ctx context.Context, br *blockRequest) (err error) {
 	}
 }
 
+// sendRequest sends a request, unless a choke has dropped it meanwhile.
+func (p *Peer) sendRequest(br *blockRequest, fut *future.Future[error]) error {
+	p.writeMu.Lock()
+	defer p.writeMu.Unlock()
+	select {
+	case <-fut.Done:
+		return fut.Wait()
+	default:
+	}
+	return p.send(peerapi.Request(br.index, br.begin, br.length))
+}
+
 // takeRequest removes a request, whoever gets it settles it.
 func (p *Peer) takeRequest(br *blockRequest) *future.Future[error] {
 	p.mu.Lock()
-- 
2.43.0


From b021aa60eb0c2c05bcbe7334ce4a63213cd494cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:00 +0000
Subject: [PATCH 63/80] fix: p2p: announce nothing after the stop

---
 p2p/server.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/p2p/server.go b/p2p/server.go
index f9aff24..64bcc88 100644
--- a/p2p/server.go
+++ b/p2p/server.go
@@ -575,6 +575,10 @@ func (p2p *Server) every(ctx context.Context, f func(ctx context.Context) error,
 			return ctx.Err()
 		case <-ticker.C:
 		}
+		// Both may have been ready.
+		if err := ctx.Err(); err != nil {
+			return err
+		}
 		if err := f(ctx); err != nil {
 			return err
 		}
-- 
2.43.0


From d50c1229fff1a09432dfff6318498cf74ed5055b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:23 +0000
Subject: [PATCH 64/80] fix: do not read the bitfield of a torrent while pieces
 are being added

Peers looked at Storage.Torrent.Bitfield while PutBlock was changing it,
without any lock in common.
---
 p2p/peer.go        |  2 +-
 p2p/server.go      |  7 +++----
 storage/torrent.go | 19 +++++++++++++++++++
 3 files changed, 23 insertions(+), 5 deletions(-)

diff --git a/p2p/peer.go b/p2p/peer.go
index f41b6c0..709e327 100644
--- a/p2p/peer.go
+++ b/p2p/peer.go
@@ -255,7 +255,7 @@ func (peer *Peer) HandleHave(i int) error {
 		return fmt.Errorf("p2p: no such piece: %d", i)
 	}
 	peer.server.RecordIndex(i, peer)
-	if !peer.server.Storage.Torrent.Bitfield.Has(i) {
+	if !peer.server.Storage.Torrent.Has(i) {
 		peer.server.QueuePeer(peer)
 	}
 	return nil
diff --git a/p2p/server.go b/p2p/server.go
index 64bcc88..02a9905 100644
--- a/p2p/server.go
+++ b/p2p/server.go
@@ -9,7 +9,6 @@ import (
 	"math"
 	"math/rand"
 	"net"
-	"slices"
 	"sort"
 	"strconv"
 	"sync"
@@ -338,7 +337,7 @@ func (p2p *Server) register(peer *Peer) (bitfield.Bitfield, error) {
 		return nil, ErrAlreadyConnected
 	}
 	p2p.activePeers[peer.IDIP()] = peer
-	return slices.Clone(p2p.Storage.Torrent.Bitfield), nil
+	return p2p.Storage.Torrent.Have(), nil
 }
 
 func (p2p *Server) Disconnect(peer *Peer) error {
@@ -374,7 +373,7 @@ func (p2p *Server) RecordIndex(i int, peer *Peer) {
 func (p2p *Server) wants(peer *Peer) bool {
 	p2p.mu.Lock()
 	defer p2p.mu.Unlock()
-	return len(peer.Bitfield.Difference(p2p.Storage.Torrent.Bitfield).Items()) > 0
+	return len(peer.Bitfield.Difference(p2p.Storage.Torrent.Have()).Items()) > 0
 }
 
 func (p2p *Server) Downloaded() int64 {
@@ -425,7 +424,7 @@ func (p2p *Server) requestPieceFromPeer(ctx context.Context, peer *Peer) error {
 		delete(p2p.queuedPeers, peer)
 		return nil
 	}
-	bf := p2p.Storage.Torrent.Bitfield
+	bf := p2p.Storage.Torrent.Have()
 	pieceBf := peer.Bitfield.Difference(bf)
 	pieces := pieceBf.Items()
 	if len(pieces) == 0 {
diff --git a/storage/torrent.go b/storage/torrent.go
index afbb12d..cfc4b7f 100644
--- a/storage/torrent.go
+++ b/storage/torrent.go
@@ -3,6 +3,7 @@ package storage
 import (
 	"errors"
 	"fmt"
+	"slices"
 	"sync"
 
 	"github.com/browles/drip/api/metainfo"
@@ -14,6 +15,8 @@ type Torrent struct {
 	Info     *metainfo.Info
 	Bitfield bitfield.Bitfield
 
+	bitfieldMu sync.Mutex // guards the Bitfield once there are peers
+
 	mu             sync.RWMutex
 	coalesced      bool
 	completePieces int
@@ -49,11 +52,27 @@ func (t *Torrent) Wait() error {
 	return fut.Wait()
 }
 
+// Has tells whether a piece is complete, also while others are being added.
+func (t *Torrent) Has(index int) bool {
+	t.bitfieldMu.Lock()
+	defer t.bitfieldMu.Unlock()
+	return t.Bitfield.Has(index)
+}
+
+// Have returns a copy of the Bitfield, also while pieces are being added.
+func (t *Torrent) Have() bitfield.Bitfield {
+	t.bitfieldMu.Lock()
+	defer t.bitfieldMu.Unlock()
+	return slices.Clone(t.Bitfield)
+}
+
 func (t *Torrent) completePiece(piece *Piece) {
 	piece.coalesced = true
 	piece.err.Deliver(nil)
 	piece.blocks = nil
+	t.bitfieldMu.Lock()
 	t.Bitfield.Add(piece.Index)
+	t.bitfieldMu.Unlock()
 	t.completePieces++
 }
 
-- 
2.43.0


From a8ba283fcdeaf24abe0f95972d5c80d10fa09562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:44 +0000
Subject: [PATCH 65/80] fix: bencode: decode new list elements into zero
 values, not into what the slice's spare capacity held

---
 bencode/decode.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bencode/decode.go b/bencode/decode.go
index f9c3fb6..096df68 100644
--- a/bencode/decode.go
+++ b/bencode/decode.go
@@ -442,6 +442,8 @@ func (d *Decoder) decodeSlice(v reflect.Value) error {
 			}
 			if i >= v.Len() {
 				v.SetLen(i + 1)
+				// What lay beyond the length is no part of the destination.
+				v.Index(i).SetZero()
 			}
 		}
 		if i < v.Len() {
-- 
2.43.0


From ae8fdfeb1d6165c9c6a4e15a611ef70777b53541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:02 +0000
Subject: [PATCH 66/80] fix: p2p: dial peers again whose connection has ended

Two clients that dialed each other at the same moment each refused the
connection the other one kept, and lost both; after a break in the network
nobody dialed a peer that it had dialed before. Neither was ever tried again,
and the download did not complete.
---
 p2p/server.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/p2p/server.go b/p2p/server.go
index 02a9905..b468ca1 100644
--- a/p2p/server.go
+++ b/p2p/server.go
@@ -277,6 +277,9 @@ func (p2p *Server) AddPeer(tp *tracker.Peer) error {
 	if _, ok := p2p.knownPeers[addr]; ok {
 		return nil
 	}
+	if idip, ok := p2p.knownIDIPs[addr]; ok && p2p.activePeers[idip] != nil {
+		return nil
+	}
 	if _, ok := p2p.blockedPeers[addr]; ok {
 		return nil
 	}
@@ -411,6 +414,13 @@ func (p2p *Server) dialPeer(ctx context.Context, tp *tracker.Peer) error {
 	if err != nil {
 		return err
 	}
+	// There is somebody: when the connection has ended, and a tracker still
+	// knows the peer, it is dialed again.
+	defer func() {
+		p2p.mu.Lock()
+		delete(p2p.knownPeers, addr)
+		p2p.mu.Unlock()
+	}()
 	ctx, cancel := context.WithCancel(ctx)
 	peer.cancel = cancel
 	peer.serve(ctx)
-- 
2.43.0


From 1e0a6e638e85318ecf521867a4d7c3e63626dd6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:27 +0000
Subject: [PATCH 67/80] fix: storage: complete a torrent of nothing but empty
 files

---
 storage/storage.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/storage/storage.go b/storage/storage.go
index 28b29e6..f6203be 100644
--- a/storage/storage.go
+++ b/storage/storage.go
@@ -67,6 +67,9 @@ func (s *Storage) Load() error {
 				}
 				s.completePiece(s.Torrent.pieces[i])
 			}
+		}
+		// A torrent of nothing but empty files has no pieces to wait for.
+		if err == nil || s.Torrent.Info.GetLength() == 0 {
 			if err = s.coalescePieces(); err != nil {
 				return err
 			}
-- 
2.43.0


From 9a7e075093976d45d4a69ca8b71260109ddd681e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:49 +0000
Subject: [PATCH 68/80] fix: bencode: give up on destinations that lead back to
 themselves

---
 bencode/decode.go | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/bencode/decode.go b/bencode/decode.go
index 096df68..21ca398 100644
--- a/bencode/decode.go
+++ b/bencode/decode.go
@@ -21,6 +21,7 @@ type Decoder struct {
 	*bufio.Reader
 	offset int
 	depth  int
+	hops   int // pointers and interfaces followed since the last list or dictionary
 }
 
 // maxDepth limits the nesting of decoded values, so that hostile input cannot
@@ -31,9 +32,22 @@ func (d *Decoder) enter() error {
 	if d.depth++; d.depth > maxDepth {
 		return d.newSyntaxError("nesting exceeds %d levels", maxDepth)
 	}
+	d.hops = 0
 	return nil
 }
 
+// follow decodes into what the pointer or interface v leads to, unless v leads
+// back to itself.
+func (d *Decoder) follow(v reflect.Value) error {
+	hops := d.hops
+	if d.hops++; d.hops > ptrDepthLimit {
+		return errors.New("bencode: maximum pointer depth exceeded")
+	}
+	err := d.decode(v.Elem())
+	d.hops = hops
+	return err
+}
+
 func NewDecoder(r io.Reader) *Decoder {
 	if br, ok := r.(*bufio.Reader); ok {
 		return &Decoder{Reader: br}
@@ -50,6 +64,7 @@ func (d *Decoder) Decode(v any) error {
 		return errors.New("bencode: must decode into non-nil pointer")
 	}
 	d.depth = 0
+	d.hops = 0
 	return d.decode(rv)
 }
 
@@ -97,7 +112,7 @@ func (d *Decoder) decode(v reflect.Value) error {
 	case reflect.Interface:
 		return d.decodeInterface(v)
 	case reflect.Pointer:
-		return d.decode(v.Elem())
+		return d.follow(v)
 	default:
 		return &UnsupportedTypeError{v.Type()}
 	}
@@ -596,7 +611,7 @@ func (d *Decoder) decodeStruct(v reflect.Value) error {
 
 func (d *Decoder) decodeInterface(v reflect.Value) error {
 	if e := v.Elem(); e.IsValid() && (e.CanSet() || e.Kind() == reflect.Pointer && !e.IsNil()) {
-		return d.decode(e)
+		return d.follow(v)
 	} else if v.NumMethod() != 0 {
 		// Can only decode into an any.
 		return &UnsupportedTypeError{v.Type()}
-- 
2.43.0


From aaaba0324348d9c2258dad777cd4f475abe11511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:40 +0000
Subject: [PATCH 69/80] fix: p2p: block a peer that delivered a bad piece

The address was looked up after the connection had ended and its addresses
had been forgotten, so nothing was ever blocked, and the peer was dialed again
as soon as a tracker listed it.
---
 p2p/peer.go   | 6 ++++++
 p2p/server.go | 5 -----
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/p2p/peer.go b/p2p/peer.go
index 709e327..900a0a9 100644
--- a/p2p/peer.go
+++ b/p2p/peer.go
@@ -346,6 +346,12 @@ func (peer *Peer) HandlePiece(index, begin int, data []byte) error {
 	if errors.Is(err, storage.ErrBlockExists) {
 		err = nil
 	}
+	if _, ok := err.(*storage.ChecksumError); ok {
+		// Before the connection ends, and where it led is forgotten.
+		if err := peer.server.Block(peer); err != nil {
+			slog.Error("HandlePiece.Block", "err", err)
+		}
+	}
 	fut.Deliver(err)
 	return err
 }
diff --git a/p2p/server.go b/p2p/server.go
index b468ca1..1a079a8 100644
--- a/p2p/server.go
+++ b/p2p/server.go
@@ -459,11 +459,6 @@ func (p2p *Server) requestPieceFromPeer(ctx context.Context, peer *Peer) error {
 			p2p.mu.Unlock()
 			if err != nil {
 				slog.Error("requestPieceFromPeer.requestPiece", "err", err)
-				if _, ok := err.(*storage.ChecksumError); ok {
-					if err := p2p.Block(peer); err != nil {
-						slog.Error("requestPieceFromPeer.Block", "err", err)
-					}
-				}
 			}
 			switch {
 			case err == nil:
-- 
2.43.0


From f26e843106df7b5250cafbebe9c0944836873a19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:27 +0000
Subject: [PATCH 70/80] fix: storage: report errors at the close of a written
 file

What could not be written may only be noticed when the file is closed; the
piece or the torrent was then complete without its data.
---
 storage/storage.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/storage/storage.go b/storage/storage.go
index f6203be..f895c2b 100644
--- a/storage/storage.go
+++ b/storage/storage.go
@@ -314,6 +314,10 @@ func (s *Storage) coalesceBlocks(piece *Piece) error {
 	if hash != piece.SHA1 {
 		return &ChecksumError{piece.Index, hash, piece.SHA1}
 	}
+	// Some of what was written may only fail now.
+	if err = temp.Close(); err != nil {
+		return err
+	}
 	if err = os.MkdirAll(filepath.Join(s.WorkDir, s.Torrent.WorkDir()), 0o0700); err != nil {
 		return err
 	}
@@ -363,6 +367,9 @@ func (s *Storage) coalescePiecesForSingleFile() error {
 	if _, err := io.Copy(temp, r); err != nil {
 		return err
 	}
+	if err = temp.Close(); err != nil {
+		return err
+	}
 	if err = os.Rename(temp.Name(), filepath.Join(s.TargetDir, s.Torrent.FileName())); err != nil {
 		return err
 	}
@@ -401,7 +408,9 @@ func (s *Storage) coalescePiecesForMultiFile() error {
 		if _, err = io.CopyN(f, r, int64(file.Length)); err != nil {
 			return err
 		}
-		f.Close()
+		if err = f.Close(); err != nil {
+			return err
+		}
 	}
 	if err = os.Rename(temp, filepath.Join(s.TargetDir, s.Torrent.FileName())); err != nil {
 		return err
-- 
2.43.0


From 4065ddb6842e5ecde2774849c236bd075f225a1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:12 +0000
Subject: [PATCH 71/80] fix: storage: close files also when reading or
 assembling fails

The last piece file of a torrent with several files stayed open even when it
was assembled without errors, and with it the space of the removed file.
---
 storage/lazy_file_reader.go |  7 +++++++
 storage/storage.go          | 11 ++++++++---
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/storage/lazy_file_reader.go b/storage/lazy_file_reader.go
index a02b37f..e3258ad 100644
--- a/storage/lazy_file_reader.go
+++ b/storage/lazy_file_reader.go
@@ -28,6 +28,13 @@ func (lfr *lazyFileReader) checkOpen() error {
 	return nil
 }
 
+func (lfr *lazyFileReader) Close() error {
+	if lfr.f == nil {
+		return nil
+	}
+	return lfr.f.Close()
+}
+
 func (lfr *lazyFileReader) checkClose() {
 	if lfr.read == lfr.size {
 		lfr.f.Close()
diff --git a/storage/storage.go b/storage/storage.go
index f895c2b..5f2724a 100644
--- a/storage/storage.go
+++ b/storage/storage.go
@@ -200,11 +200,11 @@ func (s *Storage) getBlockFromMultiFile(index, begin, length int) ([]byte, error
 				return nil, err
 			}
 			n, err := f.ReadAt(data[curr:], int64(offset))
+			f.Close()
 			curr += n
 			if err != nil && !errors.Is(err, io.EOF) {
 				return nil, err
 			}
-			f.Close()
 		}
 		total += file.Length
 	}
@@ -361,7 +361,9 @@ func (s *Storage) coalescePiecesForSingleFile() error {
 	var pieceReaders []io.Reader
 	for _, piece := range s.Torrent.pieces {
 		path := filepath.Join(s.WorkDir, s.Torrent.WorkDir(), piece.FileName())
-		pieceReaders = append(pieceReaders, &lazyFileReader{path: path})
+		lfr := &lazyFileReader{path: path}
+		defer lfr.Close()
+		pieceReaders = append(pieceReaders, lfr)
 	}
 	r := io.MultiReader(pieceReaders...)
 	if _, err := io.Copy(temp, r); err != nil {
@@ -393,7 +395,9 @@ func (s *Storage) coalescePiecesForMultiFile() error {
 	var pieceReaders []io.Reader
 	for _, piece := range s.Torrent.pieces {
 		path := filepath.Join(s.WorkDir, s.Torrent.WorkDir(), piece.FileName())
-		pieceReaders = append(pieceReaders, &lazyFileReader{path: path})
+		lfr := &lazyFileReader{path: path}
+		defer lfr.Close()
+		pieceReaders = append(pieceReaders, lfr)
 	}
 	r := io.MultiReader(pieceReaders...)
 	for _, file := range s.Torrent.Info.Files {
@@ -406,6 +410,7 @@ func (s *Storage) coalescePiecesForMultiFile() error {
 			return err
 		}
 		if _, err = io.CopyN(f, r, int64(file.Length)); err != nil {
+			f.Close()
 			return err
 		}
 		if err = f.Close(); err != nil {
-- 
2.43.0


From 906e1a6f18734facd17dcf3707801edd284f1dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:43 +0000
Subject: [PATCH 72/80] fix: storage: refuse torrents that contradict
 themselves

With a wrong number of pieces, lengths that are negative or wrap around, or
files in one another's place, a download never ended, or ended in wrong files;
a single piece of exabytes ended the process with its first block.
---
 storage/storage.go | 50 ++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 50 insertions(+)

diff --git a/storage/storage.go b/storage/storage.go
index 5f2724a..def6004 100644
--- a/storage/storage.go
+++ b/storage/storage.go
@@ -7,6 +7,7 @@ import (
 	"fmt"
 	"io"
 	"log/slog"
+	"math"
 	"os"
 	"path/filepath"
 	"strings"
@@ -42,6 +43,9 @@ func (s *Storage) Load() error {
 	if err := checkPaths(s.Torrent.Info); err != nil {
 		return err
 	}
+	if err := checkLengths(s.Torrent.Info); err != nil {
+		return err
+	}
 	_, err := os.Stat(filepath.Join(s.TargetDir, s.Torrent.FileName()))
 	if err != nil && !errors.Is(err, os.ErrNotExist) {
 		return err
@@ -240,6 +244,8 @@ func checkPaths(info *metainfo.Info) error {
 	if err := check(info.Name); err != nil {
 		return err
 	}
+	type dir map[string]dir // nil for files
+	root := make(dir)
 	for _, file := range info.Files {
 		if len(file.Path) == 0 {
 			return errors.New("storage: file without a path")
@@ -249,6 +255,50 @@ func checkPaths(info *metainfo.Info) error {
 				return err
 			}
 		}
+		at := root
+		for i, name := range file.Path {
+			sub, ok := at[name]
+			if last := i == len(file.Path)-1; ok && (last || sub == nil) {
+				return fmt.Errorf("storage: files in one another's place: %q", file.Path)
+			} else if !ok && !last {
+				sub = make(dir)
+			}
+			at[name] = sub
+			at = sub
+		}
+	}
+	return nil
+}
+
+// checkLengths refuses lengths that contradict one another, and pieces with
+// blocks that no message can name.
+func checkLengths(info *metainfo.Info) error {
+	if info.PieceLength <= 0 {
+		return fmt.Errorf("storage: unacceptable piece length: %d", info.PieceLength)
+	}
+	length := info.Length
+	if len(info.Files) > 0 {
+		length = 0
+		for _, file := range info.Files {
+			if file.Length < 0 || file.Length > math.MaxInt64-length {
+				return fmt.Errorf("storage: unacceptable file length: %d", file.Length)
+			}
+			length += file.Length
+		}
+	}
+	if length < 0 {
+		return fmt.Errorf("storage: unacceptable length: %d", length)
+	}
+	pieceLength := int64(info.PieceLength)
+	pieces := length / pieceLength
+	if length%pieceLength != 0 {
+		pieces++
+	}
+	if int64(len(info.Pieces)) != pieces {
+		return fmt.Errorf("storage: wrong number of pieces: %d != %d", len(info.Pieces), pieces)
+	}
+	if min(length, pieceLength) > 1<<32 {
+		return fmt.Errorf("storage: pieces too long: %d", pieceLength)
 	}
 	return nil
 }
-- 
2.43.0


From e1ba4b4d38b16fc07c1b734f468382a77354079d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:15 +0000
Subject: [PATCH 73/80] fix: storage: a torrent in place is complete also if
 its pieces cannot be removed

Some pieces were gone then, and reading them failed until the next start.
---
 storage/storage.go | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/storage/storage.go b/storage/storage.go
index def6004..1f0652e 100644
--- a/storage/storage.go
+++ b/storage/storage.go
@@ -425,9 +425,7 @@ func (s *Storage) coalescePiecesForSingleFile() error {
 	if err = os.Rename(temp.Name(), filepath.Join(s.TargetDir, s.Torrent.FileName())); err != nil {
 		return err
 	}
-	if err := os.RemoveAll(filepath.Join(s.WorkDir, s.Torrent.WorkDir())); err != nil {
-		return err
-	}
+	s.removePieces()
 	s.Torrent.complete()
 	return nil
 }
@@ -470,9 +468,15 @@ func (s *Storage) coalescePiecesForMultiFile() error {
 	if err = os.Rename(temp, filepath.Join(s.TargetDir, s.Torrent.FileName())); err != nil {
 		return err
 	}
-	if err := os.RemoveAll(filepath.Join(s.WorkDir, s.Torrent.WorkDir())); err != nil {
-		return err
-	}
+	s.removePieces()
 	s.Torrent.complete()
 	return nil
 }
+
+// removePieces removes the pieces of a complete torrent, which nothing depends
+// on any more.
+func (s *Storage) removePieces() {
+	if err := os.RemoveAll(filepath.Join(s.WorkDir, s.Torrent.WorkDir())); err != nil {
+		slog.Error("removePieces", "name", s.Torrent.Info.Name, "err", err)
+	}
+}
-- 
2.43.0


From 3a7ac7b929f05e1e99a7ffeb687b25839c64bd79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:44 +0000
Subject: [PATCH 74/80] fix: storage: remove what a dead process was writing

Each one left a temporary file of up to the size of the torrent for ever.
---
 storage/storage.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/storage/storage.go b/storage/storage.go
index 1f0652e..3946003 100644
--- a/storage/storage.go
+++ b/storage/storage.go
@@ -50,6 +50,7 @@ func (s *Storage) Load() error {
 	if err != nil && !errors.Is(err, os.ErrNotExist) {
 		return err
 	}
+	s.removeTemp()
 	if err == nil {
 		// Complete torrent exists on disk
 		for i := range len(s.Torrent.Info.Pieces) {
@@ -480,3 +481,20 @@ func (s *Storage) removePieces() {
 		slog.Error("removePieces", "name", s.Torrent.Info.Name, "err", err)
 	}
 }
+
+// removeTemp removes what an earlier process was writing when it ended.
+func (s *Storage) removeTemp() {
+	tempDir := filepath.Join(s.WorkDir, "temp")
+	direntries, err := os.ReadDir(tempDir)
+	if err != nil && !errors.Is(err, os.ErrNotExist) {
+		slog.Error("removeTemp", "name", s.Torrent.Info.Name, "err", err)
+	}
+	for _, dr := range direntries {
+		if !strings.HasPrefix(dr.Name(), s.Torrent.WorkDir()) {
+			continue
+		}
+		if err := os.RemoveAll(filepath.Join(tempDir, dr.Name())); err != nil {
+			slog.Error("removeTemp", "name", s.Torrent.Info.Name, "err", err)
+		}
+	}
+}
-- 
2.43.0


From dee2fec738833f6618bdce5099b0765ceb7c00a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:32 +0000
Subject: [PATCH 75/80] fix: p2p: do not read replies of trackers without end

A tracker could use up all memory within the thirty seconds of a request.
---
 p2p/multitracker.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/p2p/multitracker.go b/p2p/multitracker.go
index 49e4c6d..cb75ad2 100644
--- a/p2p/multitracker.go
+++ b/p2p/multitracker.go
@@ -88,6 +88,9 @@ func (mt *Multitracker) get(event eventName) (res *trackerapi.Response, err erro
 // httpClient gives up on trackers that do not answer.
 var httpClient = &http.Client{Timeout: 30 * time.Second}
 
+// maxReply is the length of the longest reply of a tracker that is read.
+const maxReply = 1 << 20
+
 type Tracker struct {
 	URL    string
 	server *Server
@@ -143,7 +146,7 @@ func (mt *Tracker) get(event eventName) (*trackerapi.Response, error) {
 		return nil, err
 	}
 	defer httpRes.Body.Close()
-	data, err := io.ReadAll(httpRes.Body)
+	data, err := io.ReadAll(io.LimitReader(httpRes.Body, maxReply))
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From c0999e80c23ccc18793c2aee3f33bd12833cb1d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:27 +0000
Subject: [PATCH 76/80] fix: p2p: go on when a connection cannot be accepted

Too many open files, for one, ended the session.
---
 p2p/server.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/p2p/server.go b/p2p/server.go
index 1a079a8..1626867 100644
--- a/p2p/server.go
+++ b/p2p/server.go
@@ -161,9 +161,18 @@ func (p2p *Server) Serve(ctx context.Context) error {
 		default:
 		}
 		conn, err := p2p.tcp.Accept()
-		if err != nil {
+		if errors.Is(err, net.ErrClosed) {
 			return err
 		}
+		if err != nil {
+			// Other peers are served meanwhile, and may leave.
+			slog.Error("Serve.Accept", "err", err)
+			select {
+			case <-ctx.Done():
+			case <-time.After(time.Second):
+			}
+			continue
+		}
 		select {
 		case p2p.peerSemaphore <- struct{}{}:
 		default:
-- 
2.43.0


From 587fd1b7cdddbba64d9c6e8e7e63862416d43bce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:43 +0000
Subject: [PATCH 77/80] fix: p2p: announce a piece also when assembling the
 torrent has failed

The piece that was to complete the torrent is verified and served, but
requestPiece gave up before telling the peers.
---
 p2p/server.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/p2p/server.go b/p2p/server.go
index 1626867..ee9ffa1 100644
--- a/p2p/server.go
+++ b/p2p/server.go
@@ -496,9 +496,11 @@ func (p2p *Server) requestPieceFromPeer(ctx context.Context, peer *Peer) error {
 }
 
 func (p2p *Server) requestPiece(ctx context.Context, p *Peer, i int) error {
-	if err := p.requestPiece(ctx, i); err != nil {
+	err := p.requestPiece(ctx, i)
+	if err != nil && !p2p.Storage.Torrent.Has(i) {
 		return err
 	}
+	// The piece is there, even if the torrent could not be assembled.
 	p2p.mu.Lock()
 	peers := maps.Clone(p2p.activePeers)
 	p2p.mu.Unlock()
@@ -517,7 +519,7 @@ func (p2p *Server) requestPiece(ctx context.Context, p *Peer, i int) error {
 			}
 		}()
 	}
-	return nil
+	return err
 }
 
 func (p2p *Server) queuePeer(peer *Peer) bool {
-- 
2.43.0


From 5b7b3f75d40063f47954e9e4f8d2929be3e3c003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:54 +0000
Subject: [PATCH 78/80] fix: storage: take only whole files of a piece's own
 name for pieces

A file such as 7.piece in the work directory of a torrent of three pieces
crashed the client; 1.piece~ passed for piece 1, and so did a piece that was
cut short when the power failed.
---
 storage/storage.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/storage/storage.go b/storage/storage.go
index 3946003..969fbbe 100644
--- a/storage/storage.go
+++ b/storage/storage.go
@@ -67,10 +67,22 @@ func (s *Storage) Load() error {
 			for _, dr := range direntries {
 				var i int
 				_, err := fmt.Sscanf(dr.Name(), "%d.piece", &i)
+				if err != nil || i < 0 || i >= len(s.Torrent.pieces) {
+					continue
+				}
+				piece := s.Torrent.pieces[i]
+				if dr.Name() != piece.FileName() {
+					continue
+				}
+				// Pieces may have been cut short when the power failed.
+				fi, err := dr.Info()
 				if err != nil {
+					return err
+				}
+				if !fi.Mode().IsRegular() || fi.Size() != int64(piece.Length) {
 					continue
 				}
-				s.completePiece(s.Torrent.pieces[i])
+				s.completePiece(piece)
 			}
 		}
 		// A torrent of nothing but empty files has no pieces to wait for.
-- 
2.43.0


From 0b1fd85607e7aab73df5d2852751974e42d1b855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:55 +0000
Subject: [PATCH 79/80] fix: p2p: dial peers again that could not be reached

A peer that once did not answer was never dialed again, although it was back
and trackers kept listing it. With many peers listed, those that have been
dialed least come first, so that the dead ones do not take all the room.
---
 p2p/server.go | 33 +++++++++++++++++++++++++++------
 1 file changed, 27 insertions(+), 6 deletions(-)

diff --git a/p2p/server.go b/p2p/server.go
index ee9ffa1..c4cf6c4 100644
--- a/p2p/server.go
+++ b/p2p/server.go
@@ -1,6 +1,7 @@
 package p2p
 
 import (
+	"cmp"
 	"context"
 	"errors"
 	"fmt"
@@ -9,6 +10,7 @@ import (
 	"math"
 	"math/rand"
 	"net"
+	"slices"
 	"sort"
 	"strconv"
 	"sync"
@@ -43,6 +45,7 @@ type Server struct {
 
 	mu           sync.Mutex
 	knownPeers   map[addr]*tracker.Peer
+	dials        map[addr]int
 	knownAddrs   map[idip]map[addr]struct{}
 	knownIDIPs   map[addr]idip
 	blockedPeers map[addr]struct{}
@@ -74,6 +77,7 @@ func New(mi *metainfo.Metainfo, peerID [20]byte, storage *storage.Storage, port
 		downloadQueue: make(chan *Peer),
 
 		knownPeers:   make(map[addr]*tracker.Peer),
+		dials:        make(map[addr]int),
 		knownAddrs:   make(map[idip]map[addr]struct{}),
 		knownIDIPs:   make(map[addr]idip),
 		blockedPeers: make(map[addr]struct{}),
@@ -263,13 +267,29 @@ func (p2p *Server) addPeers(peers *tracker.Peers) {
 		return
 	}
 	slog.Debug("addPeers", "num_peers", len(peers.List))
-	for _, tp := range peers.List {
+	for _, tp := range p2p.leastDialed(peers.List) {
 		if err := p2p.AddPeer(tp); err != nil {
 			slog.Error("addPeers.AddPeer", "err", err)
 		}
 	}
 }
 
+// leastDialed puts those first whose turn it is, should there be no room for
+// all.
+func (p2p *Server) leastDialed(peers []*tracker.Peer) []*tracker.Peer {
+	p2p.mu.Lock()
+	defer p2p.mu.Unlock()
+	dials := make(map[*tracker.Peer]int, len(peers))
+	for _, tp := range peers {
+		if addr, err := remoteAddr(tp); err == nil {
+			dials[tp] = p2p.dials[addr]
+		}
+	}
+	peers = slices.Clone(peers)
+	slices.SortStableFunc(peers, func(a, b *tracker.Peer) int { return cmp.Compare(dials[a], dials[b]) })
+	return peers
+}
+
 func (p2p *Server) QueuePeer(peer *Peer) bool {
 	p2p.mu.Lock()
 	defer p2p.mu.Unlock()
@@ -295,6 +315,7 @@ func (p2p *Server) AddPeer(tp *tracker.Peer) error {
 	select {
 	case p2p.newPeerQueue <- tp:
 		p2p.knownPeers[addr] = tp
+		p2p.dials[addr]++
 	default:
 	}
 	return nil
@@ -419,17 +440,17 @@ func (p2p *Server) dialPeer(ctx context.Context, tp *tracker.Peer) error {
 		return nil
 	}
 	p2p.mu.Unlock()
-	peer, err := p2p.dialTCP(ctx, tp)
-	if err != nil {
-		return err
-	}
-	// There is somebody: when the connection has ended, and a tracker still
+	// When the dial has failed, or the connection ended, and a tracker still
 	// knows the peer, it is dialed again.
 	defer func() {
 		p2p.mu.Lock()
 		delete(p2p.knownPeers, addr)
 		p2p.mu.Unlock()
 	}()
+	peer, err := p2p.dialTCP(ctx, tp)
+	if err != nil {
+		return err
+	}
 	ctx, cancel := context.WithCancel(ctx)
 	peer.cancel = cancel
 	peer.serve(ctx)
-- 
2.43.0


From fff57bca354aa85085f8e2b76950eb4383f68b7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:27:40 +0000
Subject: [PATCH 80/80] fix: tracker: forget the compact form when a list of
 peers is decoded

---
 api/tracker/tracker.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/api/tracker/tracker.go b/api/tracker/tracker.go
index 44f1788..fb66fd6 100644
--- a/api/tracker/tracker.go
+++ b/api/tracker/tracker.go
@@ -172,6 +172,7 @@ func (p *Peers) UnmarshalBencoding(data []byte) error {
 		p.Compact = true
 		p.List, err = parseCompactPeers(v)
 	case []any:
+		p.Compact = false
 		p.List, err = parsePeers(v)
 	default:
 		return errors.New("unknown peers format")
-- 
2.43.0

