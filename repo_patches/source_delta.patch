From 619f473f9e15ce84e21bf91d10a6a0403eda5d06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:10 +0000
Subject: [PATCH 01/70] fix: amf reads must not depend on one Read returning
 everything

readBytes issued a single Read, so values split over several reads failed to
decode, and it allocated whatever length the peer claimed before any of the
bytes had arrived.
---
 amf/helper.go | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/amf/helper.go b/amf/helper.go
index da0e6d4..0868f6c 100755
--- a/amf/helper.go
+++ b/amf/helper.go
@@ -1,6 +1,7 @@
 package amf
 
 import (
+	"bytes"
 	"fmt"
 	"io"
 )
@@ -29,6 +30,9 @@ type Encoder interface {
 	EncodeBatch(w io.Writer, args ...interface{}) error
 }
 
+// 一次性预分配的最大字节数
+const maxPrealloc = 64 * 1024
+
 // 写1字节
 func writeByte(w io.Writer, b byte) error {
 	bytes := make([]byte, 1)
@@ -62,16 +66,24 @@ func readByte(r io.Reader) (byte, error) {
 
 // 读多字节
 func readBytes(r io.Reader, n int) ([]byte, error) {
+	// 长度来自对端, 数据未到达前不按照其预先分配大块内存
+	if n > maxPrealloc {
+		var buf bytes.Buffer
+		m, err := io.CopyN(&buf, r, int64(n))
+		if err == io.EOF && m > 0 {
+			err = io.ErrUnexpectedEOF
+		}
+
+		return buf.Bytes(), err
+	}
+
+	// 一次Read不保证读满, 因此需要读满n字节
 	bytes := make([]byte, n)
-	m, err := r.Read(bytes)
+	_, err := io.ReadFull(r, bytes)
 	if err != nil {
 		return bytes, err
 	}
 
-	if m != n {
-		return bytes, fmt.Errorf("expected %d bytes, but got %d bytes", m, n)
-	}
-
 	return bytes, nil
 }
 
-- 
2.43.0


From 065049fec9c33bfec1878e65973385b9710d57bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:42 +0000
Subject: [PATCH 02/70] fix: truncated AMF3 XML and byte arrays were padded
 with zeros

---
 amf/amf3.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/amf/amf3.go b/amf/amf3.go
index 9f0ae62..091191a 100755
--- a/amf/amf3.go
+++ b/amf/amf3.go
@@ -437,8 +437,7 @@ func (ed *EnDecAMF3) decodeXmlDoc(r io.Reader) (string, error) {
 	}
 
 	// 按数值取值
-	buf := make([]byte, refVal)
-	_, err = r.Read(buf)
+	buf, err := readBytes(r, int(refVal))
 	if err != nil {
 		return "", err
 	}
@@ -478,8 +477,7 @@ func (ed *EnDecAMF3) decodeByteArray(r io.Reader) ([]byte, error) {
 	}
 
 	// 按数值取值
-	result := make([]byte, refVal)
-	_, err = r.Read(result)
+	result, err := readBytes(r, int(refVal))
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 11eaa2a0de3912b30d66a1ffd1a7cf08909ab7f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:43 +0000
Subject: [PATCH 03/70] fix: AMF0 reference one past the table panicked

---
 amf/amf0.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amf/amf0.go b/amf/amf0.go
index 5ecee4d..4dccb4f 100755
--- a/amf/amf0.go
+++ b/amf/amf0.go
@@ -182,7 +182,7 @@ func (ed *EnDecAMF0) decodeReference(r io.Reader) (interface{}, error) {
 		return nil, err
 	}
 
-	if int(ref) > len(ed.deRefCache) {
+	if int(ref) >= len(ed.deRefCache) {
 		return nil, fmt.Errorf("bad reference %d (current length %d)", ref, len(ed.deRefCache))
 	}
 
-- 
2.43.0


From 9eb359235c10dd3a28a19b0ab1ed51bd980e7136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:44 +0000
Subject: [PATCH 04/70] fix: AMF0 references to strict arrays and typed objects

A strict array was remembered as nil, a typed object as an empty value taking
two table entries, so references to them or to anything after them resolved to
the wrong value.
---
 amf/amf0.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/amf/amf0.go b/amf/amf0.go
index 4dccb4f..6c5c0d8 100755
--- a/amf/amf0.go
+++ b/amf/amf0.go
@@ -148,6 +148,11 @@ func (ed *EnDecAMF0) decodeObject(r io.Reader) (Object, error) {
 	result := make(Object)
 	ed.deRefCache = append(ed.deRefCache, result)
 
+	return ed.decodeObjectBody(r, result)
+}
+
+// 读取对象的键值对到result中, 直到遇见结束符
+func (ed *EnDecAMF0) decodeObjectBody(r io.Reader, result Object) (Object, error) {
 	for {
 		// 读取字符串
 		key, err := ed.decodeString(r)
@@ -217,6 +222,7 @@ func (ed *EnDecAMF0) decodeStrictArray(r io.Reader) (Array, error) {
 
 	// 初始化数组
 	var result Array
+	ref := len(ed.deRefCache)
 	ed.deRefCache = append(ed.deRefCache, result)
 
 	// 填充数组
@@ -228,6 +234,7 @@ func (ed *EnDecAMF0) decodeStrictArray(r io.Reader) (Array, error) {
 
 		result = append(result, val)
 	}
+	ed.deRefCache[ref] = result
 
 	return result, nil
 }
@@ -267,6 +274,7 @@ func (ed *EnDecAMF0) decodeLongString(r io.Reader) (string, error) {
 func (ed *EnDecAMF0) decodeTypedObject(r io.Reader) (TypedObject, error) {
 	// 数组化类型数组
 	var result TypedObject
+	ref := len(ed.deRefCache)
 	ed.deRefCache = append(ed.deRefCache, result)
 
 	// 读取类型
@@ -276,7 +284,10 @@ func (ed *EnDecAMF0) decodeTypedObject(r io.Reader) (TypedObject, error) {
 	}
 
 	// 读取对象
-	objectVal, err := ed.decodeObject(r)
+	objectVal := make(Object)
+	ed.deRefCache[ref] = TypedObject{Type: typeVal, Object: objectVal}
+
+	objectVal, err = ed.decodeObjectBody(r, objectVal)
 	if err != nil {
 		return result, err
 	}
-- 
2.43.0


From 2c998c0d2669233c054a4cd2180128dd5c1c775a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:46 +0000
Subject: [PATCH 05/70] fix: AMF0 dates were written with a stray number marker

---
 amf/amf0.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/amf/amf0.go b/amf/amf0.go
index 6c5c0d8..912e20c 100755
--- a/amf/amf0.go
+++ b/amf/amf0.go
@@ -616,12 +616,11 @@ func (ed *EnDecAMF0) encodeDate(w io.Writer, val time.Time) (int, error) {
 	}
 	n := 1
 
-	var m = 0
-	m, err = ed.encodeNumber(w, float64(val.Unix())*1000.0)
+	err = binary.Write(w, binary.BigEndian, float64(val.Unix())*1000.0)
 	if err != nil {
 		return 0, err
 	}
-	n += m
+	n += 8
 
 	err = binary.Write(w, binary.BigEndian, int16(0))
 	if err != nil {
-- 
2.43.0


From 7a7b1ad0daa8a53b741d07727677ededdb769f5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:47 +0000
Subject: [PATCH 06/70] fix: report write errors of the AMF3 and XML document
 markers

---
 amf/amf0.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/amf/amf0.go b/amf/amf0.go
index 912e20c..48a79e6 100755
--- a/amf/amf0.go
+++ b/amf/amf0.go
@@ -368,7 +368,7 @@ func (ed *EnDecAMF0) EncodeBatch(w io.Writer, args ...interface{}) error {
 func (ed *EnDecAMF0) EncodeWithAMF3(w io.Writer, val interface{}) (int, error) {
 	err := writeByte(w, avmPlusObjectMarkerOnAMF0)
 	if err != nil {
-		return 0, nil
+		return 0, err
 	}
 
 	n, err := ed.EnDecAMF3.Encode(w, val)
@@ -383,7 +383,7 @@ func (ed *EnDecAMF0) EncodeWithAMF3(w io.Writer, val interface{}) (int, error) {
 func (ed *EnDecAMF0) EncodeXmlDocument(w io.Writer, val string) (int, error) {
 	err := writeByte(w, xmlDocumentMarkerOnAMF0)
 	if err != nil {
-		return 0, nil
+		return 0, err
 	}
 
 	n, err := ed.encodeLongString(w, val, false)
-- 
2.43.0


From e2bc83efe066517110db82ac230e1a58f6fea930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:48 +0000
Subject: [PATCH 07/70] fix: refuse AMF0 keys and type names that cannot be
 encoded

Keys and type names above 65535 bytes got a wrapped length, and an empty key
reads as the end of the object; both corrupted everything after them.
---
 amf/amf0.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/amf/amf0.go b/amf/amf0.go
index 48a79e6..fb89efa 100755
--- a/amf/amf0.go
+++ b/amf/amf0.go
@@ -502,6 +502,11 @@ func (ed *EnDecAMF0) encodeString(w io.Writer, val string, encodeMarker bool) (i
 	var n int
 	var err error
 
+	// 长度字段只有2字节
+	if len(val) > 65535 {
+		return 0, fmt.Errorf("string is too long(%d > 65535)", len(val))
+	}
+
 	if encodeMarker {
 		err = writeByte(w, stringMarkerOnAMF0)
 		if err != nil {
@@ -540,6 +545,11 @@ func (ed *EnDecAMF0) encodeObject(w io.Writer, val Object, encodeMarker bool) (i
 
 	var m = 0
 	for k, v := range val {
+		// 空key等同于对象结束符
+		if k == "" {
+			return 0, fmt.Errorf("object key must not be empty")
+		}
+
 		// 数组key
 		m, err = ed.encodeString(w, k, false)
 		if err != nil {
-- 
2.43.0


From 680e8440d189b2384876fb4f7cf5cce40aafe238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:50 +0000
Subject: [PATCH 08/70] fix: AMF3 trait and external message flags above bit 0
 were ignored

Dynamic and externalizable objects were decoded as sealed ones, and external
message fields other than the first were skipped.
---
 amf/amf3.go          | 4 ++--
 amf/amf3_external.go | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/amf/amf3.go b/amf/amf3.go
index 091191a..601f805 100755
--- a/amf/amf3.go
+++ b/amf/amf3.go
@@ -299,10 +299,10 @@ func (ed *EnDecAMF3) decodeObject(r io.Reader) (interface{}, error) {
 		trait = ed.traitTable[index]
 	} else {
 		// Note: no property names are included in the trait information
-		trait.Externalizable = (refVal & 0x02) == 1
+		trait.Externalizable = (refVal & 0x02) != 0
 
 		// Note: another dynamic member follows until the string-type is the empty string.
-		trait.Dynamic = (refVal & 0x04) == 1
+		trait.Dynamic = (refVal & 0x04) != 0
 
 		// Note: use the empty string for anonymous classes
 		trait.Type, err = ed.decodeString(r)
diff --git a/amf/amf3_external.go b/amf/amf3_external.go
index f3481b2..eab8d67 100755
--- a/amf/amf3_external.go
+++ b/amf/amf3_external.go
@@ -71,7 +71,7 @@ func (ed *EnDecAMF3) decodeExternal(r io.Reader, obj *Object, fieldSets ...[]str
 		// 只有在flagSet里设置为1的值才会被解开
 		for p, field := range fieldNames {
 			flagBit := uint8(math.Exp2(float64(p)))
-			if (flags & flagBit) == 1 {
+			if (flags & flagBit) != 0 {
 				tmp, err := ed.Decode(r)
 				if err != nil {
 					return err
-- 
2.43.0


From a409a318be962a852a600fabd9862cfd429aeac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:22 +0000
Subject: [PATCH 09/70] fix: AMF3 object references resolve to the referenced
 value

Objects were remembered as nil and arrays as empty values, empty XML documents
and byte arrays took no table entry and array collections took two, so object
references resolved to the wrong value.
---
 amf/amf3.go | 18 +++++-------------
 1 file changed, 5 insertions(+), 13 deletions(-)

diff --git a/amf/amf3.go b/amf/amf3.go
index 601f805..1a55b26 100755
--- a/amf/amf3.go
+++ b/amf/amf3.go
@@ -237,6 +237,7 @@ func (ed *EnDecAMF3) decodeArray(r io.Reader) (EcmaArrayAMF3, error) {
 
 	// 初始化数组
 	var result EcmaArrayAMF3
+	ref := len(ed.deObjTable)
 	ed.deObjTable = append(ed.deObjTable, result)
 	result.associative = make(Object)
 	result.dense = make(Array, refVal)
@@ -263,6 +264,7 @@ func (ed *EnDecAMF3) decodeArray(r io.Reader) (EcmaArrayAMF3, error) {
 			return EcmaArrayAMF3{}, err
 		}
 	}
+	ed.deObjTable[ref] = result
 
 	return result, nil
 }
@@ -324,6 +326,7 @@ func (ed *EnDecAMF3) decodeObject(r io.Reader) (interface{}, error) {
 	}
 
 	var result interface{}
+	ref := len(ed.deObjTable)
 	ed.deObjTable = append(ed.deObjTable, result)
 
 	// objects can be externalizable, meaning that the system has no concrete understanding of
@@ -348,9 +351,6 @@ func (ed *EnDecAMF3) decodeObject(r io.Reader) (interface{}, error) {
 			if err != nil {
 				return nil, err
 			}
-
-			// store an extra reference to array collection container
-			ed.deObjTable = append(ed.deObjTable, result)
 		default:
 			// 调用外部函数
 			fn, ok := ed.externalHandlers[trait.Type]
@@ -365,11 +365,13 @@ func (ed *EnDecAMF3) decodeObject(r io.Reader) (interface{}, error) {
 		}
 
 		// 外部函数调用完即可结束
+		ed.deObjTable[ref] = result
 		return result, nil
 	}
 
 	// 解析Properties, Dynamic
 	obj := make(Object)
+	ed.deObjTable[ref] = obj
 
 	// non-externalizable objects have property keys in traits, iterate through them
 	// and add the read values to the object
@@ -431,11 +433,6 @@ func (ed *EnDecAMF3) decodeXmlDoc(r io.Reader) (string, error) {
 		return result, nil
 	}
 
-	// xml字符个数
-	if refVal == 0 {
-		return "", nil
-	}
-
 	// 按数值取值
 	buf, err := readBytes(r, int(refVal))
 	if err != nil {
@@ -471,11 +468,6 @@ func (ed *EnDecAMF3) decodeByteArray(r io.Reader) ([]byte, error) {
 		return result, nil
 	}
 
-	// 字节个数
-	if refVal == 0 {
-		return nil, nil
-	}
-
 	// 按数值取值
 	result, err := readBytes(r, int(refVal))
 	if err != nil {
-- 
2.43.0


From 11166d76b97c465c464c88dd098d70386f170451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:24 +0000
Subject: [PATCH 10/70] fix: AMF3 integers outside 0..2^28-1 are written as
 doubles

Negative integers failed to encode after their marker had been written, and
integers from 2^28 on are negative numbers to every AMF3 reader.
---
 amf/amf3.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/amf/amf3.go b/amf/amf3.go
index 1a55b26..3b77d37 100755
--- a/amf/amf3.go
+++ b/amf/amf3.go
@@ -557,13 +557,13 @@ func (ed *EnDecAMF3) Encode(w io.Writer, val interface{}) (int, error) {
 
 		return ed.encodeFalse(w)
 	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32:
-		if v.Int() >= -536870911 && v.Int() < 536870911 {
+		if v.Int() >= 0 && v.Int() < 268435456 {
 			return ed.encodeInteger(w, uint32(v.Int()))
 		}
 
 		return ed.encodeDouble(w, float64(v.Int()))
 	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32:
-		if v.Uint() < 536870911 {
+		if v.Uint() < 268435456 {
 			return ed.encodeInteger(w, uint32(v.Uint()))
 		}
 
-- 
2.43.0


From fe0b687760ce15b8748bae013ad53ce2c5e2e969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:25 +0000
Subject: [PATCH 11/70] fix: registering an external handler on an AMF0 codec
 panicked

---
 amf/amf3.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/amf/amf3.go b/amf/amf3.go
index 3b77d37..65999ed 100755
--- a/amf/amf3.go
+++ b/amf/amf3.go
@@ -66,6 +66,10 @@ func NewEnDecAMF3() *EnDecAMF3 {
 
 // RegisterExternalHandler 注册远程调用
 func (ed *EnDecAMF3) RegisterExternalHandler(name string, f ExternalHandler) {
+	if ed.externalHandlers == nil {
+		ed.externalHandlers = make(map[string]ExternalHandler)
+	}
+
 	ed.externalHandlers[name] = f
 }
 
-- 
2.43.0


From ff5af69fd73f99a0cc4590afaf5838cdf05ca35f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:26 +0000
Subject: [PATCH 12/70] fix: a batch that ends inside a value is an error, not
 the end

DecodeBatch took every EOF for the end of the batch and silently dropped the
truncated last value.
---
 amf/amf0.go | 8 +++++++-
 amf/amf3.go | 8 +++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/amf/amf0.go b/amf/amf0.go
index fb89efa..37ade43 100755
--- a/amf/amf0.go
+++ b/amf/amf0.go
@@ -42,12 +42,18 @@ func NewEnDecAMF0() *EnDecAMF0 {
 }
 
 // Decode AMF0协议解析器入口
-func (ed *EnDecAMF0) Decode(r io.Reader) (interface{}, error) {
+func (ed *EnDecAMF0) Decode(r io.Reader) (val interface{}, err error) {
 	// 读取第一个字节(包类型)
 	marker, err := readByte(r)
 	if err != nil {
 		return nil, err
 	}
+	defer func() {
+		// 只有在值的开头遇见EOF才是正常结束
+		if err == io.EOF {
+			err = io.ErrUnexpectedEOF
+		}
+	}()
 
 	switch marker {
 	case numberMarkerOnAMF0:
diff --git a/amf/amf3.go b/amf/amf3.go
index 65999ed..349d96b 100755
--- a/amf/amf3.go
+++ b/amf/amf3.go
@@ -74,11 +74,17 @@ func (ed *EnDecAMF3) RegisterExternalHandler(name string, f ExternalHandler) {
 }
 
 // Decode AMF3解析器入口
-func (ed *EnDecAMF3) Decode(r io.Reader) (interface{}, error) {
+func (ed *EnDecAMF3) Decode(r io.Reader) (val interface{}, err error) {
 	marker, err := readByte(r)
 	if err != nil {
 		return nil, err
 	}
+	defer func() {
+		// 只有在值的开头遇见EOF才是正常结束
+		if err == io.EOF {
+			err = io.ErrUnexpectedEOF
+		}
+	}()
 
 	switch marker {
 	case undefinedMarkerOnAMF3, nullMarkerOnAMF3:
-- 
2.43.0


From 32b58dea2985d6900d12b6b60868ba4c6f0e53a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:27 +0000
Subject: [PATCH 13/70] fix: strip the metadata header that was read, not a
 fixed 16 bytes

The header may be a long string or AMF3 encoded; stripping a fixed number of
bytes cut into the payload or panicked.
---
 amf/metadata.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amf/metadata.go b/amf/metadata.go
index 299f42f..5abfd16 100755
--- a/amf/metadata.go
+++ b/amf/metadata.go
@@ -76,7 +76,7 @@ func DelMetaHeader(p []byte, d Decoder) ([]byte, error) {
 	}
 
 	if vv == SetDataFrame {
-		p = p[len(setFrameFrame):]
+		p = p[len(p)-r.Len():]
 	}
 
 	return p, nil
-- 
2.43.0


From 3c5b2269b89d99354846a5a0cb630f4ee520e982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:46 +0000
Subject: [PATCH 14/70] fix: AMF3 counts claimed by the peer must not size
 allocations

An array header of a few bytes made the decoder allocate gigabytes.
---
 amf/amf3.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/amf/amf3.go b/amf/amf3.go
index 349d96b..b31de3c 100755
--- a/amf/amf3.go
+++ b/amf/amf3.go
@@ -250,7 +250,7 @@ func (ed *EnDecAMF3) decodeArray(r io.Reader) (EcmaArrayAMF3, error) {
 	ref := len(ed.deObjTable)
 	ed.deObjTable = append(ed.deObjTable, result)
 	result.associative = make(Object)
-	result.dense = make(Array, refVal)
+	result.dense = make(Array, 0)
 
 	// list of assoicative array, terminated by an empty string
 	for key != "" {
@@ -269,10 +269,12 @@ func (ed *EnDecAMF3) decodeArray(r io.Reader) (EcmaArrayAMF3, error) {
 
 	// list of dense array
 	for i := uint32(0); i < refVal; i++ {
-		result.dense[i], err = ed.Decode(r)
+		val, err := ed.Decode(r)
 		if err != nil {
 			return EcmaArrayAMF3{}, err
 		}
+
+		result.dense = append(result.dense, val)
 	}
 	ed.deObjTable[ref] = result
 
@@ -324,12 +326,13 @@ func (ed *EnDecAMF3) decodeObject(r io.Reader) (interface{}, error) {
 
 		// Note: traits have property keys, encoded as amf3 strings
 		count := int(refVal >> 3)
-		trait.Properties = make([]string, count)
 		for i := 0; i < count; i++ {
-			trait.Properties[i], err = ed.decodeString(r)
+			prop, err := ed.decodeString(r)
 			if err != nil {
 				return nil, err
 			}
+
+			trait.Properties = append(trait.Properties, prop)
 		}
 
 		ed.traitTable = append(ed.traitTable, trait)
-- 
2.43.0


From efcbbd059233835a90a01888579c07a35a195cdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:40 +0000
Subject: [PATCH 15/70] fix: deeply nested AMF values exhausted the stack

---
 amf/amf0.go   | 8 ++++++++
 amf/amf3.go   | 8 ++++++++
 amf/helper.go | 3 +++
 3 files changed, 19 insertions(+)

diff --git a/amf/amf0.go b/amf/amf0.go
index 37ade43..73d7ca3 100755
--- a/amf/amf0.go
+++ b/amf/amf0.go
@@ -33,6 +33,7 @@ const (
 // EnDecAMF0 AMF0协议解析器
 type EnDecAMF0 struct {
 	deRefCache []interface{}
+	depth      int
 	EnDecAMF3
 }
 
@@ -55,6 +56,13 @@ func (ed *EnDecAMF0) Decode(r io.Reader) (val interface{}, err error) {
 		}
 	}()
 
+	// 嵌套层数来自对端, 不加限制会耗尽栈空间
+	if ed.depth >= maxDepth {
+		return nil, fmt.Errorf("decode amf0: nested too deeply(max %d)", maxDepth)
+	}
+	ed.depth++
+	defer func() { ed.depth-- }()
+
 	switch marker {
 	case numberMarkerOnAMF0:
 		// marker: 1 byte 0x00
diff --git a/amf/amf3.go b/amf/amf3.go
index b31de3c..998bf97 100755
--- a/amf/amf3.go
+++ b/amf/amf3.go
@@ -55,6 +55,7 @@ type EnDecAMF3 struct {
 	deObjTable       []interface{}
 	traitTable       []TraitAMF3
 	externalHandlers map[string]ExternalHandler
+	depth            int
 }
 
 // NewEnDecAMF3 AMF3协议解析器
@@ -86,6 +87,13 @@ func (ed *EnDecAMF3) Decode(r io.Reader) (val interface{}, err error) {
 		}
 	}()
 
+	// 嵌套层数来自对端, 不加限制会耗尽栈空间
+	if ed.depth >= maxDepth {
+		return nil, fmt.Errorf("decode amf3: nested too deeply(max %d)", maxDepth)
+	}
+	ed.depth++
+	defer func() { ed.depth-- }()
+
 	switch marker {
 	case undefinedMarkerOnAMF3, nullMarkerOnAMF3:
 		return nil, nil
diff --git a/amf/helper.go b/amf/helper.go
index 0868f6c..3d773e1 100755
--- a/amf/helper.go
+++ b/amf/helper.go
@@ -33,6 +33,9 @@ type Encoder interface {
 // 一次性预分配的最大字节数
 const maxPrealloc = 64 * 1024
 
+// 值的最大嵌套层数
+const maxDepth = 1000
+
 // 写1字节
 func writeByte(w io.Writer, b byte) error {
 	bytes := make([]byte, 1)
-- 
2.43.0


From 1afd69f32d93d2de8e5e5cf3f11edade422b4f33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:41 +0000
Subject: [PATCH 16/70] fix: composition time is a signed 24-bit field

---
 container/flv/tag.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/container/flv/tag.go b/container/flv/tag.go
index f369bd1..648c2fc 100755
--- a/container/flv/tag.go
+++ b/container/flv/tag.go
@@ -130,10 +130,8 @@ func (tag *Tag) parseVideoHeader(b []byte) (int, error) {
 		// [2] H264包类型
 		tag.media.avcType = b[1]
 
-		// [3:5] 时间戳
-		for i := 2; i < 5; i++ {
-			tag.media.compositionTime = tag.media.compositionTime<<8 + int32(b[i])
-		}
+		// [3:5] 时间戳(有符号24位整数)
+		tag.media.compositionTime = int32(uint32(b[2])<<24|uint32(b[3])<<16|uint32(b[4])<<8) >> 8
 		n += 4
 	}
 
-- 
2.43.0


From aabcb04fca93d9228fe5b8fe8da7c5df1e9c850d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:42 +0000
Subject: [PATCH 17/70] fix: parsing a tag must not keep fields of the previous
 one

---
 container/flv/tag.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/container/flv/tag.go b/container/flv/tag.go
index 648c2fc..9ec010b 100755
--- a/container/flv/tag.go
+++ b/container/flv/tag.go
@@ -119,6 +119,9 @@ func (tag *Tag) parseVideoHeader(b []byte) (int, error) {
 
 	var n int
 
+	// 清除上一次解析的结果
+	tag.media = mediaTag{}
+
 	// [1] 帧类型 和 编码ID
 	flags := b[0]
 	tag.media.frameType = flags >> 4
@@ -146,6 +149,9 @@ func (tag *Tag) parseAudioHeader(b []byte) (int, error) {
 
 	var n int
 
+	// 清除上一次解析的结果
+	tag.media = mediaTag{}
+
 	// [1] 音频格式, 码率, 大小以及声音类型
 	flags := b[0]
 	tag.media.soundFormat = flags >> 4
-- 
2.43.0


From eb3f59b546daff209b00cd427d965b676d120717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:43 +0000
Subject: [PATCH 18/70] fix: refuse data that does not fit the 24-bit FLV data
 size

---
 container/flv/muxer.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/container/flv/muxer.go b/container/flv/muxer.go
index ae3d35a..12cfd0b 100755
--- a/container/flv/muxer.go
+++ b/container/flv/muxer.go
@@ -119,6 +119,9 @@ func (m *muxer) mux(p *packet.Packet, pts uint32, w io.Writer) error {
 	}
 
 	// Flv data length
+	if len(p.Data) > 0x00ffffff {
+		return fmt.Errorf("data is too long for a flv tag(%d)", len(p.Data))
+	}
 	dataLen := uint32(len(p.Data))
 
 	/* 1字节, [0:1]Reserved, [2]Filter(unencrypted), [3:7]TagType */
-- 
2.43.0


From 346a37d07989c7cf8b3304cd942f2b5d4b2598c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:44 +0000
Subject: [PATCH 19/70] fix: a new AVC sequence header replaces the previous
 one

---
 parser/h264/parser.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/parser/h264/parser.go b/parser/h264/parser.go
index 052869e..42cbed1 100755
--- a/parser/h264/parser.go
+++ b/parser/h264/parser.go
@@ -87,9 +87,8 @@ func (p *Parser) parseSpecificInfo(src []byte) error {
 	pps = append(pps, startCode...)
 	pps = append(pps, tmpBuf[3:]...)
 
-	// 向specificInfo填充SPS和PPS
-	p.specificInfo = append(p.specificInfo, sps...)
-	p.specificInfo = append(p.specificInfo, pps...)
+	// 向specificInfo填充SPS和PPS(替换上一个序列头)
+	p.specificInfo = append(sps, pps...)
 
 	return nil
 }
-- 
2.43.0


From 265684a2a34a16df777d04f0e6b4d27a8df04682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:45 +0000
Subject: [PATCH 20/70] fix: PPS ends at its declared length

---
 parser/h264/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/h264/parser.go b/parser/h264/parser.go
index 42cbed1..484c18a 100755
--- a/parser/h264/parser.go
+++ b/parser/h264/parser.go
@@ -85,7 +85,7 @@ func (p *Parser) parseSpecificInfo(src []byte) error {
 		return errors.New("incomplete pps data")
 	}
 	pps = append(pps, startCode...)
-	pps = append(pps, tmpBuf[3:]...)
+	pps = append(pps, tmpBuf[3:3+seq.ppsLen]...)
 
 	// 向specificInfo填充SPS和PPS(替换上一个序列头)
 	p.specificInfo = append(sps, pps...)
-- 
2.43.0


From f2925fe3a6046a298bd2c0f55feaea66e89de559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:11 +0000
Subject: [PATCH 21/70] fix: a refused AAC configuration must not take effect

---
 parser/aac/parser.go | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/parser/aac/parser.go b/parser/aac/parser.go
index 3864545..ed3ab11 100755
--- a/parser/aac/parser.go
+++ b/parser/aac/parser.go
@@ -59,17 +59,19 @@ func (p *Parser) specificInfo(src []byte) error {
 		return errors.New("audio mpeg-specific, len(src)<2")
 	}
 
-	// 填充数据
-	p.gotSpecific = true
-	p.cfgInfo.objectType = (src[0] >> 3) & 0xff                    /* [0:4]编码类型 */
-	p.cfgInfo.sampleRateIndex = ((src[0] & 0x07) << 1) | src[1]>>7 /* [0:3]音频采样率索引值 */
-	p.cfgInfo.channel = (src[1] >> 3) & 0x0f                       /* [0:3]音频输出声道 */
+	sampleRateIndex := ((src[0] & 0x07) << 1) | src[1]>>7 /* [0:3]音频采样率索引值 */
 
 	// 兼容性报告
-	if p.cfgInfo.sampleRateIndex == 0xf {
+	if sampleRateIndex == 0xf {
 		return errors.New("incompatible extension sampling frequency")
 	}
 
+	// 填充数据
+	p.gotSpecific = true
+	p.cfgInfo.objectType = (src[0] >> 3) & 0xff /* [0:4]编码类型 */
+	p.cfgInfo.sampleRateIndex = sampleRateIndex
+	p.cfgInfo.channel = (src[1] >> 3) & 0x0f /* [0:3]音频输出声道 */
+
 	return nil
 }
 
-- 
2.43.0


From ffc3cd29ec40e10d74b2732b8359ce36c41bb385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:12 +0000
Subject: [PATCH 22/70] fix: refuse AAC frames that do not fit the 13-bit ADTS
 length

---
 parser/aac/parser.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/parser/aac/parser.go b/parser/aac/parser.go
index ed3ab11..ca466bb 100755
--- a/parser/aac/parser.go
+++ b/parser/aac/parser.go
@@ -81,6 +81,11 @@ func (p *Parser) addADTSToFrame(src []byte, w io.Writer) error {
 		return fmt.Errorf("audio data invalid, data size(%d), has specific config(%v)", len(src), p.gotSpecific)
 	}
 
+	// 帧长度字段只有13位
+	if len(src)+adtsHeaderLen > 0x1fff {
+		return fmt.Errorf("audio data is too long for an adts frame(%d)", len(src))
+	}
+
 	// 音频帧大小
 	aacFrameLen := uint16(len(src))
 
-- 
2.43.0


From 8575631e0dbdd2568803d7965bf28778adeef72b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:13 +0000
Subject: [PATCH 23/70] fix: refused audio packets must not define the sample
 rate

---
 parser/parser.go | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 6c6885e..7aea0e7 100755
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -50,18 +50,33 @@ func (c *CodecParser) Parse(p *packet.Packet, w io.Writer) error {
 		// 根据音频编码器做不同处理
 		ah := p.Header.(packet.AudioPacketHeader)
 		if ah.IsSoundAAC() {
-			if c.aac == nil {
-				c.aac = aac.NewParser()
+			// 解析成功后才启用, 否则采样率会来自一个从未被接受的编码
+			a := c.aac
+			if a == nil {
+				a = aac.NewParser()
 			}
 
-			return c.aac.Parse(p.Media, ah.AACType(), w)
+			err := a.Parse(p.Media, ah.AACType(), w)
+			if err != nil {
+				return err
+			}
+			c.aac = a
+
+			return nil
 		}
 		if ah.IsSoundMP3() {
-			if c.mp3 == nil {
-				c.mp3 = mp3.NewParser()
+			m := c.mp3
+			if m == nil {
+				m = mp3.NewParser()
+			}
+
+			err := m.Parse(p.Media)
+			if err != nil {
+				return err
 			}
+			c.mp3 = m
 
-			return c.mp3.Parse(p.Media)
+			return nil
 		}
 
 		// 默认返回错误
-- 
2.43.0


From 59e05eb7e52addab93c072a3eb5d619caf6c139e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:34 +0000
Subject: [PATCH 24/70] fix: key frames of 176 to 183 PES bytes panicked

---
 container/ts/muxer.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/container/ts/muxer.go b/container/ts/muxer.go
index 1509302..b0211d9 100755
--- a/container/ts/muxer.go
+++ b/container/ts/muxer.go
@@ -11,8 +11,7 @@ import (
 )
 
 const (
-	tsDefaultDataLen = 184
-	tsPacketLen      = 188
+	tsPacketLen = 188
 )
 
 const (
@@ -121,7 +120,7 @@ func (muxer *Muxer) Mux(p *packet.Packet, dts, pts int64, w io.Writer) error {
 		maxPayloadLen := tsPacketLen - i
 
 		// 计算待填充的长度
-		if pesTotalLen < tsDefaultDataLen {
+		if pesTotalLen < int(maxPayloadLen) {
 			// 除去pes外, 还应填充的无效字节长度
 			remainBytes := maxPayloadLen - byte(pesTotalLen)
 
-- 
2.43.0


From 9516e9f3a6e6323853a3d3667b5daeff4826c537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:35 +0000
Subject: [PATCH 25/70] fix: marker bits of the PTS and DTS fields

---
 container/ts/table/pes.go | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/container/ts/table/pes.go b/container/ts/table/pes.go
index 4a86e77..09c4500 100644
--- a/container/ts/table/pes.go
+++ b/container/ts/table/pes.go
@@ -37,15 +37,18 @@ func (pe *Pes) GeneratePesHeader(mt int, mediaDataLen int, pts, dts int64) int {
 		return 0
 	}
 
-	// pts
-	ptsB5 := pe.encodeTs(pe.PesHeader[7], pts)
-	copy(pe.PesHeader[9:], ptsB5[:])
-	if mt == packet.PktVideo && pts != dts {
+	hasDts := mt == packet.PktVideo && pts != dts
+	if hasDts {
 		pe.PesHeader[7] |= 0x40
 		pe.PesHeader[8] += 0x05
+	}
 
-		// dts
-		dtsB5 := pe.encodeTs(pe.PesHeader[7], dts)
+	// pts, 前缀: 0010(只有pts), 0011(pts和dts)
+	ptsB5 := pe.encodeTs(pe.PesHeader[7], pts)
+	copy(pe.PesHeader[9:], ptsB5[:])
+	if hasDts {
+		// dts, 前缀: 0001
+		dtsB5 := pe.encodeTs(0x40, dts)
 		copy(pe.PesHeader[14:], dtsB5[:])
 	}
 
-- 
2.43.0


From ead6ddb08c98808b8514ea5b1b44b7734deab508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:36 +0000
Subject: [PATCH 26/70] fix: PTS and DTS wrap modulo 2^33

---
 container/ts/table/pes.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/container/ts/table/pes.go b/container/ts/table/pes.go
index 09c4500..74306ca 100644
--- a/container/ts/table/pes.go
+++ b/container/ts/table/pes.go
@@ -68,9 +68,7 @@ func (pe *Pes) GeneratePesHeader(mt int, mediaDataLen int, pts, dts int64) int {
 // 33位时间戳编码成40位时间戳
 func (pe *Pes) encodeTs(flag byte, ts int64) [5]byte {
 	var val uint16
-	if ts > 0x1ffffffff {
-		ts -= 0x1ffffffff
-	}
+	ts &= 0x1ffffffff
 
 	var u33 [5]byte
 
-- 
2.43.0


From 7ec439facd475110fe92a83b3df06398c842a848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:37 +0000
Subject: [PATCH 27/70] fix: TS mixer times overflowed 32 bits and lost the
 offset's sign

---
 container/ts/mixer.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/container/ts/mixer.go b/container/ts/mixer.go
index c6df3cc..dc46238 100644
--- a/container/ts/mixer.go
+++ b/container/ts/mixer.go
@@ -167,11 +167,12 @@ func (m *Mixer) SetTsHeader() error {
 // 视频的PTS=DTS+时间增量
 // 音频的PTS=DTS
 func (m *Mixer) Update(p *packet.Packet, pktTs, avcTs uint32) error {
-	m.dts = int64(pktTs * avcHZ)
+	m.dts = int64(pktTs) * avcHZ
 
 	switch p.Type {
 	case packet.PktVideo:
-		m.pts = m.dts + int64(avcTs*avcHZ)
+		// 时间增量是有符号数
+		m.pts = m.dts + int64(int32(avcTs))*avcHZ
 	case packet.PktAudio:
 		// 音频采样率
 		sampleRate, err := m.parser.SampleRate()
-- 
2.43.0


From 5003609432ef255a75b39a80c0d4fe462e860e21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:38 +0000
Subject: [PATCH 28/70] fix: the SDT continuity counter never advanced

---
 container/ts/muxer.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/container/ts/muxer.go b/container/ts/muxer.go
index b0211d9..f47b5c9 100755
--- a/container/ts/muxer.go
+++ b/container/ts/muxer.go
@@ -25,6 +25,7 @@ type Muxer struct {
 	audioCc  byte /* 包递增计数器 */
 	patCc    byte /* 包递增计数器 */
 	pmtCc    byte /* 包递增计数器 */
+	sdtCc    byte /* 包递增计数器 */
 	sdt      [tsPacketLen]byte
 	pat      [tsPacketLen]byte
 	pmt      [tsPacketLen]byte
@@ -188,6 +189,13 @@ func (muxer *Muxer) Mux(p *packet.Packet, dts, pts int64, w io.Writer) error {
 func (muxer *Muxer) SDT(desc *bytes.Buffer) []byte {
 	sdt := table.NewSdt()
 
+	// 填写包递增计数器, 共4位, 超出则归零
+	if muxer.sdtCc > 0xf {
+		muxer.sdtCc = 0
+	}
+	sdt.TsHeader[3] |= muxer.sdtCc & 0x0f
+	muxer.sdtCc++
+
 	// 填充TS头
 	i := 0
 	copy(muxer.sdt[i:], sdt.TsHeader)
-- 
2.43.0


From 51b7b2c359b4857b49a906df12e3066d89ebe682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:03 +0000
Subject: [PATCH 29/70] fix: refuse names that do not fit a descriptor's
 one-byte length

---
 container/ts/table/descriptor.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/container/ts/table/descriptor.go b/container/ts/table/descriptor.go
index 54c1472..d14d812 100644
--- a/container/ts/table/descriptor.go
+++ b/container/ts/table/descriptor.go
@@ -3,8 +3,12 @@ package table
 import (
 	"bytes"
 	"encoding/binary"
+	"fmt"
 )
 
+// 描述体的最大长度(长度字段只有1字节)
+const maxDescriptorLen = 0xff
+
 // Descriptor 描述表
 type Descriptor struct {
 	data *bytes.Buffer
@@ -24,6 +28,10 @@ func (d *Descriptor) GetBuffer() *bytes.Buffer {
 
 // Service serviceType: pmt表的program pid
 func (d *Descriptor) Service(serviceType byte, serviceProviderName string, serviceName string) error {
+	if len(serviceProviderName)+len(serviceName)+3 > maxDescriptorLen {
+		return fmt.Errorf("service names are too long(%d + %d)", len(serviceProviderName), len(serviceName))
+	}
+
 	serviceProviderNameLen := byte(len(serviceProviderName))
 
 	serviceNameLen := byte(len(serviceName))
@@ -60,6 +68,9 @@ func (d *Descriptor) Service(serviceType byte, serviceProviderName string, servi
 // NetworkName 网络名称
 func (d *Descriptor) NetworkName(name string) error {
 	nameLen := len(name)
+	if nameLen > maxDescriptorLen {
+		return fmt.Errorf("network name is too long(%d)", nameLen)
+	}
 	descriptorLen := byte(nameLen)
 
 	_, err := d.data.Write([]byte{0x40, descriptorLen})
-- 
2.43.0


From 9251e8ccf9ffff479c9c8488cf5f1ead1df7332e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:04 +0000
Subject: [PATCH 30/70] fix: a service description larger than the SDT packet
 panicked

---
 container/ts/mixer.go | 5 +++++
 container/ts/muxer.go | 8 ++++++++
 2 files changed, 13 insertions(+)

diff --git a/container/ts/mixer.go b/container/ts/mixer.go
index dc46238..d8700ff 100644
--- a/container/ts/mixer.go
+++ b/container/ts/mixer.go
@@ -3,6 +3,7 @@ package ts
 
 import (
 	"bytes"
+	"fmt"
 	"io"
 
 	"github.com/moggle-mog/goav/container/ts/table"
@@ -98,6 +99,10 @@ func (m *Mixer) SaveMetadata(md amf.Object) error {
 		return err
 	}
 
+	if desc.GetBuffer().Len() > sdtMaxDescLen {
+		return fmt.Errorf("service description is too long(%d > %d)", desc.GetBuffer().Len(), sdtMaxDescLen)
+	}
+
 	m.cache.metadata = desc.GetBuffer()
 	return nil
 }
diff --git a/container/ts/muxer.go b/container/ts/muxer.go
index f47b5c9..53867e6 100755
--- a/container/ts/muxer.go
+++ b/container/ts/muxer.go
@@ -12,6 +12,9 @@ import (
 
 const (
 	tsPacketLen = 188
+
+	// SDT表中描述信息的最大长度: 5字节TS头, 16字节SDT头, 4字节CRC32
+	sdtMaxDescLen = tsPacketLen - 5 - 16 - 4
 )
 
 const (
@@ -189,6 +192,11 @@ func (muxer *Muxer) Mux(p *packet.Packet, dts, pts int64, w io.Writer) error {
 func (muxer *Muxer) SDT(desc *bytes.Buffer) []byte {
 	sdt := table.NewSdt()
 
+	// 一个TS包放不下的描述信息不写入
+	if desc.Len() > sdtMaxDescLen {
+		desc = &bytes.Buffer{}
+	}
+
 	// 填写包递增计数器, 共4位, 超出则归零
 	if muxer.sdtCc > 0xf {
 		muxer.sdtCc = 0
-- 
2.43.0


From 7f636f9a55f60baf10a529c6c6cd09102862be3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:05 +0000
Subject: [PATCH 31/70] fix: saving a sequence header made a gap in the
 continuity counters

---
 container/ts/mixer.go | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/container/ts/mixer.go b/container/ts/mixer.go
index d8700ff..cae66fe 100644
--- a/container/ts/mixer.go
+++ b/container/ts/mixer.go
@@ -109,28 +109,33 @@ func (m *Mixer) SaveMetadata(md amf.Object) error {
 
 // SaveAVCHeader 保存AVC序列头（flv->avc sequence header）
 func (m *Mixer) SaveAVCHeader(p *packet.Packet) error {
-	m.cache.types.IsVideo()
-
 	err := m.parse(p, m.cache.avcSeqHdr)
 	if err != nil {
 		return err
 	}
 
-	m.cache.avcSeqHdr.Reset()
-	return m.muxer.Mux(p, 0, 0, m.cache.avcSeqHdr)
+	m.cache.types.IsVideo()
+	return m.muxToCache(p, m.cache.avcSeqHdr)
 }
 
 // SaveAACHeader 保存AAC序列头（flv->aac sequence header）
 func (m *Mixer) SaveAACHeader(p *packet.Packet) error {
-	m.cache.types.IsAudio()
-
 	err := m.parse(p, m.cache.aacSeqHdr)
 	if err != nil {
 		return err
 	}
 
-	m.cache.aacSeqHdr.Reset()
-	return m.muxer.Mux(p, 0, 0, m.cache.aacSeqHdr)
+	m.cache.types.IsAudio()
+	return m.muxToCache(p, m.cache.aacSeqHdr)
+}
+
+// 复用序列头到缓存中, 缓存的数据不属于输出流, 不占用输出流的包递增计数
+func (m *Mixer) muxToCache(p *packet.Packet, cache *bytes.Buffer) error {
+	videoCc, audioCc := m.muxer.videoCc, m.muxer.audioCc
+	defer func() { m.muxer.videoCc, m.muxer.audioCc = videoCc, audioCc }()
+
+	cache.Reset()
+	return m.muxer.Mux(p, 0, 0, cache)
 }
 
 // SetTsHeader 封装PAT和PMT
-- 
2.43.0


From 1c237d500a41380a441be0edafce9f7ce442c0bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:27 +0000
Subject: [PATCH 32/70] fix: a group of pictures held one packet more than its
 limit

---
 gop/array.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gop/array.go b/gop/array.go
index c299980..be16e06 100755
--- a/gop/array.go
+++ b/gop/array.go
@@ -26,7 +26,7 @@ func (a *array) reset() {
 // 将数据包保存到数组中
 func (a *array) write(p *packet.Packet) error {
 	// 如果关键帧间隔太长, 会导致在有限容量内不能完整存储视频
-	if len(a.packets) > maxGop {
+	if len(a.packets) >= maxGop {
 		return errors.New("the group of picture is too large")
 	}
 
-- 
2.43.0


From 6629848468873485032a4de5512584085a539700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:28 +0000
Subject: [PATCH 33/70] fix: a refused FLV header must not replace the saved
 one

---
 container/flv/mixer.go | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/container/flv/mixer.go b/container/flv/mixer.go
index 316677a..f025eb5 100644
--- a/container/flv/mixer.go
+++ b/container/flv/mixer.go
@@ -48,13 +48,13 @@ func (m *Mixer) Mux(p *packet.Packet, pts uint32) error {
 
 // SaveMetadata 保存元数据
 func (m *Mixer) SaveMetadata(md amf.Object) error {
-	m.cache.metadata.Reset()
-
 	mdPkt, err := m.muxer.metadata(md)
 	if err != nil {
 		return err
 	}
 
+	// 只有成功后才替换上一次保存的数据
+	m.cache.metadata.Reset()
 	_, err = m.cache.metadata.Write(mdPkt)
 	if err != nil {
 		return err
@@ -65,20 +65,30 @@ func (m *Mixer) SaveMetadata(md amf.Object) error {
 
 // SaveAVCHeader 保存AVC序列头
 func (m *Mixer) SaveAVCHeader(p *packet.Packet) error {
-	m.cache.types.IsVideo()
-	m.cache.avcSeqHdr.Reset()
+	// 序列头pts为0, 作为视频的开端
+	var hdr bytes.Buffer
+	err := m.muxer.mux(p, 0, &hdr)
+	if err != nil {
+		return err
+	}
 
-	// 复位缓存(序列头pts为0, 作为视频的开端)
-	return m.muxer.mux(p, 0, m.cache.avcSeqHdr)
+	m.cache.types.IsVideo()
+	m.cache.avcSeqHdr = &hdr
+	return nil
 }
 
 // SaveAACHeader 保存AAC序列头
 func (m *Mixer) SaveAACHeader(p *packet.Packet) error {
-	m.cache.types.IsAudio()
-	m.cache.aacSeqHdr.Reset()
+	// 序列头pts为0, 作为音频的开端
+	var hdr bytes.Buffer
+	err := m.muxer.mux(p, 0, &hdr)
+	if err != nil {
+		return err
+	}
 
-	// 复位缓存(序列头pts为0, 作为音频的开端)
-	return m.muxer.mux(p, 0, m.cache.aacSeqHdr)
+	m.cache.types.IsAudio()
+	m.cache.aacSeqHdr = &hdr
+	return nil
 }
 
 // SetFlvHeader 设置FLV的头部数据，每次调用都会增加TS头部计数
-- 
2.43.0


From 7e258e3fa7163e4eb9569259ffefe96be58dc4b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:29 +0000
Subject: [PATCH 34/70] fix: a parameter with an empty value panicked

---
 sips/header_args.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sips/header_args.go b/sips/header_args.go
index 267ac18..74f9beb 100644
--- a/sips/header_args.go
+++ b/sips/header_args.go
@@ -29,7 +29,7 @@ func ParseArgsPairs(value string) Args {
 			m[pair] = ""
 		} else {
 			v := pair[i+1:]
-			if v[0] == '"' && v[len(v)-1] == '"' {
+			if len(v) >= 2 && v[0] == '"' && v[len(v)-1] == '"' {
 				v = v[1 : len(v)-1]
 			}
 			m[pair[:i]] = v
-- 
2.43.0


From a55000380fa26af535492ff2d1e1314964be5921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:30 +0000
Subject: [PATCH 35/70] fix: empty list elements are not parameters

---
 sips/header_args.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sips/header_args.go b/sips/header_args.go
index 74f9beb..cfef2a3 100644
--- a/sips/header_args.go
+++ b/sips/header_args.go
@@ -25,6 +25,11 @@ func NewArgs() Args {
 func ParseArgsPairs(value string) Args {
 	m := make(Args)
 	for _, pair := range m.ParseList(strings.TrimSpace(value)) {
+		// 忽略空元素
+		if pair == "" {
+			continue
+		}
+
 		if i := strings.Index(pair, "="); i < 0 {
 			m[pair] = ""
 		} else {
-- 
2.43.0


From 26bb4216975cc7344fbdc8394c5cf4bc3bef77d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:31 +0000
Subject: [PATCH 36/70] fix: a continuation line before any header panicked

---
 sips/sips.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sips/sips.go b/sips/sips.go
index a3eb121..5e8805d 100644
--- a/sips/sips.go
+++ b/sips/sips.go
@@ -200,6 +200,11 @@ func (s *SIP) ParseHeader(header []byte) {
 	// multiline headers must begin by SP or TAB
 	if header[0] == '\t' || header[0] == ' ' {
 
+		// There is no header to continue
+		if len(s.Headers[s.lastHeaderParsed]) == 0 {
+			return
+		}
+
 		header = bytes.TrimSpace(header)
 		s.Headers[s.lastHeaderParsed][len(s.Headers[s.lastHeaderParsed])-1] += fmt.Sprintf(" %s", string(header))
 		return
-- 
2.43.0


From d8b26efa4bb72c701e84fe3ca9401ff17277af0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:07 +0000
Subject: [PATCH 37/70] fix: the SIP body is exactly Content-Length bytes

---
 sips/sips.go | 37 ++++++++-----------------------------
 1 file changed, 8 insertions(+), 29 deletions(-)

diff --git a/sips/sips.go b/sips/sips.go
index 5e8805d..0c49f1a 100644
--- a/sips/sips.go
+++ b/sips/sips.go
@@ -65,42 +65,21 @@ func (s *SIP) fillHeader() {
 	s.Via = s.Headers.GetSIPVia()
 }
 
-func (s *SIP) fillBody(r *bufio.Reader, supplement int) ([]byte, error) {
-
-	var body []byte
+func (s *SIP) fillBody(r *bufio.Reader) ([]byte, error) {
 
 	size, err := s.Headers.GetContentLength()
 	if err != nil {
 		return nil, err
 	}
-	size -= supplement
-
-	for size > 0 {
-
-		// read one block
-		buf := make([]byte, 4*1024)
-
-		n, err := r.Read(buf)
-		if err != nil {
-			if err != io.EOF {
-				return nil, err
-			}
 
-			if n == 0 {
-				break
-			}
-
-			// save remain byte
-			size -= n
-			body = append(body, buf[:n]...)
-			break
-		}
-
-		size -= n
-		body = append(body, buf[:n]...)
+	// The bytes after the body belong to the next message
+	var body bytes.Buffer
+	_, err = body.ReadFrom(io.LimitReader(r, int64(size)))
+	if err != nil {
+		return nil, err
 	}
 
-	return body, nil
+	return body.Bytes(), nil
 }
 
 // Parse parses the slices from reader into the SIP struct.
@@ -160,7 +139,7 @@ func (s *SIP) Parse(r *bufio.Reader) error {
 	// header fields and body.  Any Content-Length greater than or equal to
 	// zero is a valid value.  If no body is present in a message, then the
 	// Content-Length header field value MUST be set to zero.
-	body, err := s.fillBody(r, len(buffer)-offset)
+	body, err := s.fillBody(r)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 0f36ba561aa724b0ba39a3405620e80edf4e54f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:08 +0000
Subject: [PATCH 38/70] fix: headers in compact form were not found by their
 long name

---
 sips/header.go | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/sips/header.go b/sips/header.go
index f19592c..f965298 100644
--- a/sips/header.go
+++ b/sips/header.go
@@ -50,12 +50,11 @@ func (s SIPHeader) GetAllHeaders() map[string][]string {
 func (s SIPHeader) GetHeader(headerName string) []string {
 	headerName = strings.ToLower(headerName)
 	h := make([]string, 0)
-	if _, ok := s[headerName]; ok {
-		if len(s[headerName]) > 0 {
-			return s[headerName]
-		} else if len(s[compactSipHeadersCorrespondence[headerName]]) > 0 {
-			return s[compactSipHeadersCorrespondence[headerName]]
-		}
+	if len(s[headerName]) > 0 {
+		return s[headerName]
+	}
+	if compact, ok := compactSipHeadersCorrespondence[headerName]; ok && len(s[compact]) > 0 {
+		return s[compact]
 	}
 	return h
 }
@@ -65,12 +64,11 @@ func (s SIPHeader) GetHeader(headerName string) []string {
 // headers with the same name, it returns the first.
 func (s SIPHeader) GetFirstHeader(headerName string) string {
 	headerName = strings.ToLower(headerName)
-	if _, ok := s[headerName]; ok {
-		if len(s[headerName]) > 0 {
-			return s[headerName][0]
-		} else if len(s[compactSipHeadersCorrespondence[headerName]]) > 0 {
-			return s[compactSipHeadersCorrespondence[headerName]][0]
-		}
+	if len(s[headerName]) > 0 {
+		return s[headerName][0]
+	}
+	if compact, ok := compactSipHeadersCorrespondence[headerName]; ok && len(s[compact]) > 0 {
+		return s[compact][0]
 	}
 	return ""
 }
-- 
2.43.0


From 36f84c4a41815bec0d6875c522dea536ce9086db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:09 +0000
Subject: [PATCH 39/70] fix: a header without values swallowed the next header
 line

---
 sips/header.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sips/header.go b/sips/header.go
index f965298..d2ee7e2 100644
--- a/sips/header.go
+++ b/sips/header.go
@@ -92,6 +92,11 @@ func (s SIPHeader) Bytes() []byte {
 
 	for k, v := range s {
 
+		// A header without value has no line
+		if len(v) == 0 {
+			continue
+		}
+
 		buf.WriteString(k)
 		buf.WriteString(":")
 		for _, v1 := range v {
-- 
2.43.0


From 4d9d0cb7e70650bfdf01971e10999a7c3a2a0ecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:10 +0000
Subject: [PATCH 40/70] fix: tabs around a header value are not part of it

---
 sips/sips.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sips/sips.go b/sips/sips.go
index 0c49f1a..b25c632 100644
--- a/sips/sips.go
+++ b/sips/sips.go
@@ -193,8 +193,8 @@ func (s *SIP) ParseHeader(header []byte) {
 	index := bytes.Index(header, []byte(":"))
 	if index >= 0 {
 
-		headerName := strings.ToLower(string(bytes.Trim(header[:index], " ")))
-		headerValue := string(bytes.Trim(header[index+1:], " "))
+		headerName := strings.ToLower(string(bytes.Trim(header[:index], " \t")))
+		headerValue := string(bytes.Trim(header[index+1:], " \t"))
 
 		// Add header to object
 		s.Headers[headerName] = append(s.Headers[headerName], headerValue)
-- 
2.43.0


From 3eda79280d724a7e4b47ee331aada1868df7fa33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:18 +0000
Subject: [PATCH 41/70] fix: setting the content length left a stale compact
 one behind

---
 sips/header.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sips/header.go b/sips/header.go
index d2ee7e2..f21be29 100644
--- a/sips/header.go
+++ b/sips/header.go
@@ -168,6 +168,8 @@ func (s SIPHeader) CopyFrom(src SIPHeader, names ...string) {
 
 // SetContentLength sets Content-Length header
 func (s SIPHeader) SetContentLength(size int) {
+	// replaces the compact form as well
+	delete(s, compactSipHeadersCorrespondence["content-length"])
 	s.SetFirstHeader("content-length", strconv.Itoa(size))
 }
 
-- 
2.43.0


From c1821e485ff9187b8654be219cfd3c5c5bb3e9b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:19 +0000
Subject: [PATCH 42/70] fix: display names were lost or cut at punctuation

---
 sips/base.go |  1 -
 sips/user.go | 51 +++++++++++++++++++++++++++++++--------------------
 2 files changed, 31 insertions(+), 21 deletions(-)

diff --git a/sips/base.go b/sips/base.go
index 57e9156..48606fe 100644
--- a/sips/base.go
+++ b/sips/base.go
@@ -4,7 +4,6 @@ package sips
 // field token
 const (
 	_FieldBase = iota
-	_FieldName
 	_FieldUser
 	_FieldHost
 	_FieldPort
diff --git a/sips/user.go b/sips/user.go
index 131d5c5..d5b545c 100644
--- a/sips/user.go
+++ b/sips/user.go
@@ -48,13 +48,14 @@ func NewSIPUser(uri string) *SIPUser {
 		Args:    make(Args),
 		Src:     uri,
 	}
+	su.Name, uri = splitName(uri)
 	pos, state := 0, _FieldBase
 
-	var name, user, host, port []byte
+	var user, host, port []byte
 
 	for pos < len(uri) && uri[pos] != ';' {
 
-		if uri[pos] == '>' || (uri[pos] == ' ' && state != _FieldName) {
+		if uri[pos] == '>' || uri[pos] == ' ' {
 			state = _FieldBase
 			pos++
 			continue
@@ -78,19 +79,6 @@ func NewSIPUser(uri string) *SIPUser {
 				pos = pos + 5
 				continue
 			}
-
-			if uri[pos] == '"' || su.URIType == "" {
-				state = _FieldName
-				continue
-			}
-		case _FieldName:
-
-			if uri[pos] == '"' || uri[pos] == '<' {
-				state = _FieldBase
-				pos++
-				continue
-			}
-			name = append(name, uri[pos])
 		case _FieldUser:
 
 			if uri[pos] == '@' {
@@ -115,15 +103,10 @@ func NewSIPUser(uri string) *SIPUser {
 		pos++
 	}
 
-	su.Name = string(name)
 	su.User = string(user)
 	su.Host = string(host)
 	su.Port = string(port)
 
-	if len(su.Name) > 0 {
-		su.Name = strings.TrimSpace(su.Name)
-	}
-
 	if pos < len(uri) {
 		su.Args = ParseArgs(uri[pos:])
 	}
@@ -131,6 +114,34 @@ func NewSIPUser(uri string) *SIPUser {
 	return su
 }
 
+// splitName splits the display name, quoted or not, from the rest of uri
+func splitName(uri string) (string, string) {
+
+	uri = strings.TrimSpace(uri)
+
+	if strings.HasPrefix(uri, `"`) {
+
+		var name []byte
+		for i := 1; i < len(uri); i++ {
+
+			if uri[i] == '"' {
+				return strings.TrimSpace(string(name)), uri[i+1:]
+			}
+			if uri[i] == '\\' && i+1 < len(uri) {
+				i++
+			}
+			name = append(name, uri[i])
+		}
+	}
+
+	// The name ends at '<', but a '<' within the parameters starts nothing
+	if i := strings.IndexAny(uri, "<;"); i > 0 && uri[i] == '<' {
+		return strings.Trim(uri[:i], ` "`), uri[i:]
+	}
+
+	return "", uri
+}
+
 // Bytes package SIPUser struct into slice
 func (s *SIPUser) Bytes() []byte {
 
-- 
2.43.0


From 9c85a51767937c3ac61004c55d01ce6d0673c262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:20 +0000
Subject: [PATCH 43/70] fix: URIs without a user part, and tel URIs

---
 sips/base.go    | 28 ++++++++++++++++++++++++++++
 sips/request.go |  8 ++------
 sips/user.go    |  8 ++------
 3 files changed, 32 insertions(+), 12 deletions(-)

diff --git a/sips/base.go b/sips/base.go
index 48606fe..8bd314a 100644
--- a/sips/base.go
+++ b/sips/base.go
@@ -1,6 +1,8 @@
 // sips from https://github.com/google/gopacket/blob/master/layers/base.go
 package sips
 
+import "strings"
+
 // field token
 const (
 	_FieldBase = iota
@@ -30,6 +32,32 @@ func (b *BaseLayer) LayerContents() []byte { return b.Contents }
 // LayerPayload returns the bytes contained within the packet layer.
 func (b *BaseLayer) LayerPayload() []byte { return b.Payload }
 
+// fixHostPort moves the host and port of a URI without user part, which were
+// read as user, to where they belong. A tel URI has a user part only.
+func fixHostPort(uriType, user, host, port string) (string, string, string) {
+
+	if uriType == "tel" || host != "" {
+		return user, host, port
+	}
+
+	if i := strings.IndexByte(user, ':'); i >= 0 {
+		return "", user[:i], user[i+1:]
+	}
+
+	return "", user, port
+}
+
+// userHost returns the user@host part of a URI, the user part is optional and
+// a tel URI has a user part only.
+func userHost(uriType, user, host string) string {
+
+	if user == "" || (uriType == "tel" && host == "") {
+		return user + host
+	}
+
+	return user + "@" + host
+}
+
 // Substring gets a string from a slice of bytes
 // Checks the bounds to avoid any range errors
 func Substring(v string, from, to int) string {
diff --git a/sips/request.go b/sips/request.go
index ee83d33..1282d46 100644
--- a/sips/request.go
+++ b/sips/request.go
@@ -93,9 +93,7 @@ func NewSIPRequest(uri string) *SIPRequest {
 		pos++
 	}
 
-	sr.User = string(user)
-	sr.Host = string(host)
-	sr.Port = string(port)
+	sr.User, sr.Host, sr.Port = fixHostPort(sr.URIType, string(user), string(host), string(port))
 
 	if pos < len(uri) {
 		sr.Args = ParseArgs(uri[pos:])
@@ -114,9 +112,7 @@ func (s *SIPRequest) Bytes() []byte {
 	buf.WriteString(":")
 
 	// user@host
-	buf.WriteString(s.User)
-	buf.WriteString("@")
-	buf.WriteString(s.Host)
+	buf.WriteString(userHost(s.URIType, s.User, s.Host))
 
 	if len(s.Port) > 0 {
 		buf.WriteString(":")
diff --git a/sips/user.go b/sips/user.go
index d5b545c..19a94b2 100644
--- a/sips/user.go
+++ b/sips/user.go
@@ -103,9 +103,7 @@ func NewSIPUser(uri string) *SIPUser {
 		pos++
 	}
 
-	su.User = string(user)
-	su.Host = string(host)
-	su.Port = string(port)
+	su.User, su.Host, su.Port = fixHostPort(su.URIType, string(user), string(host), string(port))
 
 	if pos < len(uri) {
 		su.Args = ParseArgs(uri[pos:])
@@ -161,9 +159,7 @@ func (s *SIPUser) Bytes() []byte {
 	buf.WriteString("<")
 	buf.WriteString(s.URIType)
 	buf.WriteString(":")
-	buf.WriteString(s.User)
-	buf.WriteString("@")
-	buf.WriteString(s.Host)
+	buf.WriteString(userHost(s.URIType, s.User, s.Host))
 
 	if len(s.Port) > 0 {
 
-- 
2.43.0


From 0d512758de3059bce2bcfb18105e1e402a307f9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:39 +0000
Subject: [PATCH 44/70] fix: a parameter within angle brackets kept the closing
 bracket

---
 sips/user.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/sips/user.go b/sips/user.go
index 19a94b2..246ce83 100644
--- a/sips/user.go
+++ b/sips/user.go
@@ -106,7 +106,13 @@ func NewSIPUser(uri string) *SIPUser {
 	su.User, su.Host, su.Port = fixHostPort(su.URIType, string(user), string(host), string(port))
 
 	if pos < len(uri) {
-		su.Args = ParseArgs(uri[pos:])
+		// parameters within the angle brackets end at '>'
+		args := uri[pos:]
+		if strings.Contains(uri[:pos], "<") && !strings.Contains(uri[:pos], ">") {
+			args = strings.Replace(args, ">", "", 1)
+		}
+
+		su.Args = ParseArgs(args)
 	}
 
 	return su
-- 
2.43.0


From 1929f2633e3938ff02ee405c3c456793ef64e3ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:07 +0000
Subject: [PATCH 45/70] fix: reason phrases of 480 and 504

---
 sips/status.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sips/status.go b/sips/status.go
index 241bc11..3911b38 100644
--- a/sips/status.go
+++ b/sips/status.go
@@ -99,7 +99,7 @@ var statusTexts = map[SIPStatus]string{
 	StatusBadExtension:                "Bad Extension",
 	StatusExtensionRequired:           "Extension Required",
 	StatusIntervalTooBrief:            "Interval Too Brief",
-	StatusNoResponse:                  "No Response",
+	StatusNoResponse:                  "Temporarily Unavailable",
 	StatusCallTransactionDoesNotExist: "Call/Transaction Does Not Exist",
 	StatusLoopDetected:                "Loop Detected",
 	StatusTooManyHops:                 "Too Many Hops",
@@ -114,7 +114,7 @@ var statusTexts = map[SIPStatus]string{
 	StatusNotImplemented:              "Not Implemented",
 	StatusBadGateway:                  "Bad Gateway",
 	StatusServiceUnavailable:          "Service Unavailable",
-	StatusServerTimeout:               "Server Timeout",
+	StatusServerTimeout:               "Server Time-out",
 	StatusVersionNotSupported:         "Version Not Supported",
 	StatusMessageTooLarge:             "Message Too Large",
 	StatusBusyEverywhere:              "Busy Everywhere",
-- 
2.43.0


From 44775053424fe6ec473cc1ca49af40d11dd36a01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:28 +0000
Subject: [PATCH 46/70] fix: join folded SIP header lines before parsing them,
 in linear time

---
 sips/sips.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/sips/sips.go b/sips/sips.go
index b25c632..9ad53c7 100644
--- a/sips/sips.go
+++ b/sips/sips.go
@@ -89,6 +89,8 @@ func (s *SIP) Parse(r *bufio.Reader) error {
 	var countLines int
 	var offset int
 	var buffer []byte
+	// The header being read, its folded lines joined by one space
+	var header []byte
 
 	for {
 
@@ -126,13 +128,18 @@ func (s *SIP) Parse(r *bufio.Reader) error {
 				return err
 			}
 
+		} else if line[0] == '\t' || line[0] == ' ' {
+			header = append(header, ' ')
+			header = append(header, bytes.TrimSpace(line)...)
 		} else {
-			s.ParseHeader(line)
+			s.ParseHeader(header)
+			header = append(header[:0], line...)
 		}
 
 		countLines++
 	}
 
+	s.ParseHeader(header)
 	s.fillHeader()
 
 	// The size of the message-body does not include the CRLF separating
-- 
2.43.0


From f7d5fec79a9e9de749a9fa388776165d8de70d11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:49 +0000
Subject: [PATCH 47/70] fix: accept any white space between CSeq number and
 method

---
 sips/cseq.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/sips/cseq.go b/sips/cseq.go
index 9e3fbde..847be87 100644
--- a/sips/cseq.go
+++ b/sips/cseq.go
@@ -34,7 +34,7 @@ func NewSIPCseq(uri string) *SIPCseq {
 		switch state {
 		case _FieldID:
 
-			if uri[pos] == ' ' {
+			if uri[pos] == ' ' || uri[pos] == '\t' {
 				state = _FieldMethod
 				pos++
 				continue
@@ -42,6 +42,12 @@ func NewSIPCseq(uri string) *SIPCseq {
 			id = append(id, uri[pos])
 		case _FieldMethod:
 
+			// any white space separates the number from the method
+			if len(method) == 0 && (uri[pos] == ' ' || uri[pos] == '\t') {
+				pos++
+				continue
+			}
+
 			method = append(method, uri[pos])
 		}
 
-- 
2.43.0


From 79253450cc9432c94fe3aaf9406faa25e55190f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:50 +0000
Subject: [PATCH 48/70] fix: only ASCII letters match SIP methods and versions

---
 sips/base.go    | 11 +++++++++++
 sips/method.go  |  7 ++-----
 sips/version.go |  7 ++-----
 3 files changed, 15 insertions(+), 10 deletions(-)

diff --git a/sips/base.go b/sips/base.go
index 8bd314a..0d12d1f 100644
--- a/sips/base.go
+++ b/sips/base.go
@@ -58,6 +58,17 @@ func userHost(uriType, user, host string) string {
 	return user + "@" + host
 }
 
+// upperASCII maps ASCII letters to upper case and leaves all others alone, so
+// that no other letter (as the dotless i) is taken for one of them.
+func upperASCII(s string) string {
+	return strings.Map(func(r rune) rune {
+		if r >= 'a' && r <= 'z' {
+			return r - 'a' + 'A'
+		}
+		return r
+	}, s)
+}
+
 // Substring gets a string from a slice of bytes
 // Checks the bounds to avoid any range errors
 func Substring(v string, from, to int) string {
diff --git a/sips/method.go b/sips/method.go
index 438cd6b..01e7871 100644
--- a/sips/method.go
+++ b/sips/method.go
@@ -1,10 +1,7 @@
 // sips From https://github.com/google/gopacket/blob/master/layers/sip.go
 package sips
 
-import (
-	"fmt"
-	"strings"
-)
+import "fmt"
 
 // SIPMethod defines the different methods of the SIP Protocol
 // defined in the different RFC's
@@ -70,7 +67,7 @@ func (sm SIPMethod) String() string {
 // GetSIPMethod returns the constant of a SIP method
 // from its string
 func GetSIPMethod(method string) (SIPMethod, error) {
-	switch strings.ToUpper(method) {
+	switch upperASCII(method) {
 	case "INVITE":
 		return SIPMethodInvite, nil
 	case "ACK":
diff --git a/sips/version.go b/sips/version.go
index 03d236d..1f86c86 100644
--- a/sips/version.go
+++ b/sips/version.go
@@ -1,10 +1,7 @@
 // sips From https://github.com/google/gopacket/blob/master/layers/sip.go
 package sips
 
-import (
-	"fmt"
-	"strings"
-)
+import "fmt"
 
 // SIPVersion defines the different versions of the SIP Protocol
 type SIPVersion uint8
@@ -29,7 +26,7 @@ func (sv SIPVersion) String() string {
 
 // GetSIPVersion is used to get SIP version constant
 func GetSIPVersion(version string) (SIPVersion, error) {
-	switch strings.ToUpper(version) {
+	switch upperASCII(version) {
 	case "SIP/1.0":
 		return SIPVersion1, nil
 	case "SIP/2.0":
-- 
2.43.0


From b99a61211f2522a27e62bdb93cbd792703ddc5c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:09 +0000
Subject: [PATCH 49/70] fix: accept the SIP version of a status line in any
 letter case

---
 sips/request.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sips/request.go b/sips/request.go
index 1282d46..dd94f49 100644
--- a/sips/request.go
+++ b/sips/request.go
@@ -167,7 +167,7 @@ func (s *SIP) ParseFirstLine(firstLine []byte) error {
 	}
 
 	// Determine the SIP packet type
-	if strings.HasPrefix(splits[0], "SIP") {
+	if strings.HasPrefix(upperASCII(splits[0]), "SIP") {
 
 		// --> Response
 		s.IsResponse = true
-- 
2.43.0


From cd523ddb229bd64b92e573a416e49cec2eb859d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:35 +0000
Subject: [PATCH 50/70] fix: read SIP header lines longer than the reader's
 buffer

---
 sips/sips.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sips/sips.go b/sips/sips.go
index 9ad53c7..4e38929 100644
--- a/sips/sips.go
+++ b/sips/sips.go
@@ -95,13 +95,13 @@ func (s *SIP) Parse(r *bufio.Reader) error {
 	for {
 
 		// Read next line
-		line, err := r.ReadSlice(byte('\n'))
+		line, err := r.ReadBytes('\n')
 		if err != nil {
 			if err != io.EOF {
 				return err
 			}
 
-			// ReadSlice返回EOF时line可能不为空，因此仍需收尾
+			// ReadBytes返回EOF时line可能不为空，因此仍需收尾
 			if len(line) == 0 {
 				break
 			}
-- 
2.43.0


From 928800211eeffe8be14c4428bd10dae6ae0a5fe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:48 +0000
Subject: [PATCH 51/70] fix: muxing a metadata packet to FLV no longer alters
 the packet

---
 container/flv/muxer.go | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/container/flv/muxer.go b/container/flv/muxer.go
index 12cfd0b..ac6b7e3 100755
--- a/container/flv/muxer.go
+++ b/container/flv/muxer.go
@@ -96,6 +96,7 @@ func (m *muxer) metadata(metadata amf.Object) ([]byte, error) {
 // Mux 将数据转换为FLV格式
 func (m *muxer) mux(p *packet.Packet, pts uint32, w io.Writer) error {
 	var typeID uint32
+	data := p.Data
 
 	// 数据预处理
 	switch p.Type {
@@ -108,21 +109,21 @@ func (m *muxer) mux(p *packet.Packet, pts uint32, w io.Writer) error {
 		typeID = packet.TagScriptDataAMF0
 
 		// 从[SetDataFrame, data]数据中提取出data(SetDataFrame是RTMP信令, 在rtmp场景外, 应该剔除在外, 只保留数据)
-		data, err := amf.DelMetaHeader(p.Data, amf.NewEnDecAMF0())
+		// 包可能被多个输出共享(如GOP缓存), 不能修改包本身
+		var err error
+		data, err = amf.DelMetaHeader(p.Data, amf.NewEnDecAMF0())
 		if err != nil {
 			return err
 		}
-
-		p.Data = data
 	default:
 		return fmt.Errorf("unexpected type=%d", p.Type)
 	}
 
 	// Flv data length
-	if len(p.Data) > 0x00ffffff {
-		return fmt.Errorf("data is too long for a flv tag(%d)", len(p.Data))
+	if len(data) > 0x00ffffff {
+		return fmt.Errorf("data is too long for a flv tag(%d)", len(data))
 	}
-	dataLen := uint32(len(p.Data))
+	dataLen := uint32(len(data))
 
 	/* 1字节, [0:1]Reserved, [2]Filter(unencrypted), [3:7]TagType */
 	/* 3字节, DataSize, 其中包含2字节的media header */
@@ -141,7 +142,7 @@ func (m *muxer) mux(p *packet.Packet, pts uint32, w io.Writer) error {
 	}
 
 	// 长度: dataLen
-	_, err = w.Write(p.Data)
+	_, err = w.Write(data)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 8dfbbc3ec0190315078c8f55a2a23e0116979852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:37 +0000
Subject: [PATCH 52/70] fix: muxing a packet to TS no longer alters the packet

---
 container/ts/mixer.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/container/ts/mixer.go b/container/ts/mixer.go
index cae66fe..5783766 100644
--- a/container/ts/mixer.go
+++ b/container/ts/mixer.go
@@ -72,12 +72,15 @@ func (m *Mixer) parse(p *packet.Packet, cache *bytes.Buffer) error {
 
 // Mux 转换为ts格式（需要使用p.Media）
 func (m *Mixer) Mux(p *packet.Packet) error {
-	err := m.parse(p, m.cache.media)
+	// 包可能被多个输出共享(如GOP缓存), 不能修改包本身
+	q := *p
+
+	err := m.parse(&q, m.cache.media)
 	if err != nil {
 		return err
 	}
 
-	return m.muxer.Mux(p, m.dts, m.pts, m.ts)
+	return m.muxer.Mux(&q, m.dts, m.pts, m.ts)
 }
 
 // SaveMetadata 保存元数据
-- 
2.43.0


From d2d88407b73da0e4b022c11589659c07796be550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:50 +0000
Subject: [PATCH 53/70] fix: quoted SIP names and values keep every character
 but line breaks

---
 sips/base.go        | 9 +++++++++
 sips/header_args.go | 3 +--
 sips/user.go        | 3 +--
 3 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/sips/base.go b/sips/base.go
index 0d12d1f..60d8c5f 100644
--- a/sips/base.go
+++ b/sips/base.go
@@ -58,6 +58,15 @@ func userHost(uriType, user, host string) string {
 	return user + "@" + host
 }
 
+// quote returns s as a quoted-string, where a backslash makes the next byte
+// literal: only quotes and backslashes need one. A line break can not be part
+// of it.
+func quote(s string) string {
+	return `"` + quoter.Replace(s) + `"`
+}
+
+var quoter = strings.NewReplacer(`\`, `\\`, `"`, `\"`, "\r", `\r`, "\n", `\n`)
+
 // upperASCII maps ASCII letters to upper case and leaves all others alone, so
 // that no other letter (as the dotless i) is taken for one of them.
 func upperASCII(s string) string {
diff --git a/sips/header_args.go b/sips/header_args.go
index cfef2a3..319c54b 100644
--- a/sips/header_args.go
+++ b/sips/header_args.go
@@ -4,7 +4,6 @@ package sips
 
 import (
 	"bytes"
-	"strconv"
 	"strings"
 )
 
@@ -134,7 +133,7 @@ func (a Args) CommaString() string {
 
 	var result string
 	for key, value := range a {
-		result += key + "=" + strconv.Quote(value) + ", "
+		result += key + "=" + quote(value) + ", "
 	}
 	return result[:len(result)-2]
 }
diff --git a/sips/user.go b/sips/user.go
index 246ce83..cf20fcf 100644
--- a/sips/user.go
+++ b/sips/user.go
@@ -6,7 +6,6 @@ package sips
 
 import (
 	"bytes"
-	"strconv"
 	"strings"
 )
 
@@ -156,7 +155,7 @@ func (s *SIPUser) Bytes() []byte {
 		if s.Name == "Anonymous" {
 			buf.WriteString(s.Name)
 		} else {
-			buf.WriteString(strconv.Quote(s.Name))
+			buf.WriteString(quote(s.Name))
 		}
 
 		buf.WriteString(" ")
-- 
2.43.0


From f5da67b38b2b865c9dbe39fcf73ffc86cde50a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:53 +0000
Subject: [PATCH 54/70] fix: unfolding a SIP header strips spaces and tabs only

---
 sips/sips.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sips/sips.go b/sips/sips.go
index 4e38929..b31fe72 100644
--- a/sips/sips.go
+++ b/sips/sips.go
@@ -130,7 +130,7 @@ func (s *SIP) Parse(r *bufio.Reader) error {
 
 		} else if line[0] == '\t' || line[0] == ' ' {
 			header = append(header, ' ')
-			header = append(header, bytes.TrimSpace(line)...)
+			header = append(header, bytes.Trim(line, " \t")...)
 		} else {
 			s.ParseHeader(header)
 			header = append(header[:0], line...)
@@ -191,7 +191,7 @@ func (s *SIP) ParseHeader(header []byte) {
 			return
 		}
 
-		header = bytes.TrimSpace(header)
+		header = bytes.Trim(header, " \t")
 		s.Headers[s.lastHeaderParsed][len(s.Headers[s.lastHeaderParsed])-1] += fmt.Sprintf(" %s", string(header))
 		return
 	}
-- 
2.43.0


From 89c5c489236d5e7add95f8d546c241b3c8604d60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:34 +0000
Subject: [PATCH 55/70] fix: IPv6 hosts of SIP URIs, addresses and Via values
 are parsed

---
 sips/base.go    | 15 +++++++++++++--
 sips/request.go |  2 +-
 sips/user.go    |  2 +-
 sips/via.go     |  2 +-
 4 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/sips/base.go b/sips/base.go
index 60d8c5f..c7a521f 100644
--- a/sips/base.go
+++ b/sips/base.go
@@ -40,13 +40,24 @@ func fixHostPort(uriType, user, host, port string) (string, string, string) {
 		return user, host, port
 	}
 
-	if i := strings.IndexByte(user, ':'); i >= 0 {
-		return "", user[:i], user[i+1:]
+	// The colons of an IPv6 address are within brackets
+	end := 0
+	if strings.HasPrefix(user, "[") {
+		end = strings.IndexByte(user, ']') + 1
+	}
+
+	if i := strings.IndexByte(user[end:], ':'); i >= 0 {
+		return "", user[:end+i], user[end+i+1:]
 	}
 
 	return "", user, port
 }
 
+// inBrackets tells whether host is an IPv6 address that has not ended yet.
+func inBrackets(host []byte) bool {
+	return len(host) > 0 && host[0] == '[' && host[len(host)-1] != ']'
+}
+
 // userHost returns the user@host part of a URI, the user part is optional and
 // a tel URI has a user part only.
 func userHost(uriType, user, host string) string {
diff --git a/sips/request.go b/sips/request.go
index dd94f49..b89edbc 100644
--- a/sips/request.go
+++ b/sips/request.go
@@ -79,7 +79,7 @@ func NewSIPRequest(uri string) *SIPRequest {
 			user = append(user, uri[pos])
 		case _FieldHost:
 
-			if uri[pos] == ':' {
+			if uri[pos] == ':' && !inBrackets(host) {
 				state = _FieldPort
 				pos++
 				continue
diff --git a/sips/user.go b/sips/user.go
index cf20fcf..7d088bb 100644
--- a/sips/user.go
+++ b/sips/user.go
@@ -88,7 +88,7 @@ func NewSIPUser(uri string) *SIPUser {
 			user = append(user, uri[pos])
 		case _FieldHost:
 
-			if uri[pos] == ':' {
+			if uri[pos] == ':' && !inBrackets(host) {
 				state = _FieldPort
 				pos++
 				continue
diff --git a/sips/via.go b/sips/via.go
index 18c90de..124f04f 100644
--- a/sips/via.go
+++ b/sips/via.go
@@ -75,7 +75,7 @@ func NewSIPVia(uri string) *SIPVia {
 			}
 		case _FieldHost:
 
-			if uri[pos] == ':' {
+			if uri[pos] == ':' && !inBrackets(host) {
 				state = _FieldPort
 				pos++
 				continue
-- 
2.43.0


From 6e457eedf6b5f996225c07fd8894d497d300bd81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:02 +0000
Subject: [PATCH 56/70] fix: a Via may name any transport, as WS or WSS

---
 sips/via.go | 22 ++++++++--------------
 1 file changed, 8 insertions(+), 14 deletions(-)

diff --git a/sips/via.go b/sips/via.go
index 124f04f..78ec01c 100644
--- a/sips/via.go
+++ b/sips/via.go
@@ -39,7 +39,7 @@ func NewSIPVia(uri string) *SIPVia {
 
 	for pos < len(uri) && uri[pos] != ';' {
 
-		if uri[pos] == ' ' {
+		if uri[pos] == ' ' || uri[pos] == '\t' {
 			pos++
 			continue
 		}
@@ -54,24 +54,18 @@ func NewSIPVia(uri string) *SIPVia {
 			// transaction created by that request.  This parameter is used by both
 			// the client and the server.
 			str := Substring(uri, pos, pos+8)
-			if str == "SIP/2.0/" {
+			if upperASCII(str) == "SIP/2.0/" {
 
 				state = _FieldHost
 				pos = pos + 8
+				start := pos
 
-				str = Substring(uri, pos, pos+3)
-				if str == "UDP" || str == "TCP" || str == "TLS" {
-					sv.Trans = str
-					pos = pos + 3
-					continue
-				}
-
-				str = Substring(uri, pos, pos+4)
-				if str == "SCTP" {
-					sv.Trans = str
-					pos = pos + 4
-					continue
+				// The transport is any token
+				for pos < len(uri) && uri[pos] != ' ' && uri[pos] != '\t' && uri[pos] != ';' {
+					pos++
 				}
+				sv.Trans = uri[start:pos]
+				continue
 			}
 		case _FieldHost:
 
-- 
2.43.0


From c0fe8793958ada9cd9ab371993600c0621165b49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:25 +0000
Subject: [PATCH 57/70] fix: SIP URI schemes are case-insensitive

---
 sips/request.go | 9 +++++----
 sips/user.go    | 9 +++++----
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/sips/request.go b/sips/request.go
index b89edbc..5d492ca 100644
--- a/sips/request.go
+++ b/sips/request.go
@@ -54,18 +54,19 @@ func NewSIPRequest(uri string) *SIPRequest {
 		switch state {
 		case _FieldBase:
 
-			str := Substring(uri, pos, pos+4)
+			// Schemes are case-insensitive
+			str := strings.ToLower(Substring(uri, pos, pos+4))
 			if str == "sip:" || str == "tel:" {
 				state = _FieldUser
-				sr.URIType = uri[pos : pos+3]
+				sr.URIType = str[:3]
 				pos = pos + 4
 				continue
 			}
 
-			str = Substring(uri, pos, pos+5)
+			str = strings.ToLower(Substring(uri, pos, pos+5))
 			if str == "sips:" {
 				state = _FieldUser
-				sr.URIType = uri[pos : pos+4]
+				sr.URIType = str[:4]
 				pos = pos + 5
 				continue
 			}
diff --git a/sips/user.go b/sips/user.go
index 7d088bb..110d0ae 100644
--- a/sips/user.go
+++ b/sips/user.go
@@ -63,18 +63,19 @@ func NewSIPUser(uri string) *SIPUser {
 		switch state {
 		case _FieldBase:
 
-			str := Substring(uri, pos, pos+4)
+			// Schemes are case-insensitive
+			str := strings.ToLower(Substring(uri, pos, pos+4))
 			if str == "sip:" || str == "tel:" {
 				state = _FieldUser
-				su.URIType = uri[pos : pos+3]
+				su.URIType = str[:3]
 				pos = pos + 4
 				continue
 			}
 
-			str = Substring(uri, pos, pos+5)
+			str = strings.ToLower(Substring(uri, pos, pos+5))
 			if str == "sips:" {
 				state = _FieldUser
-				su.URIType = uri[pos : pos+4]
+				su.URIType = str[:4]
 				pos = pos + 5
 				continue
 			}
-- 
2.43.0


From b2a461ec3faa8beb2a11f3bdbefa81420e789f05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:21 +0000
Subject: [PATCH 58/70] fix: parameter lists keep bytes that are not UTF-8

---
 sips/header_args.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/sips/header_args.go b/sips/header_args.go
index 319c54b..1126e0b 100644
--- a/sips/header_args.go
+++ b/sips/header_args.go
@@ -62,10 +62,11 @@ func (a Args) ParseList(value string) []string {
 	var list []string
 	var escape, quote bool
 	b := new(bytes.Buffer)
-	for _, r := range value {
+	for i := 0; i < len(value); i++ {
+		r := value[i]
 		switch {
 		case escape:
-			b.WriteRune(r)
+			b.WriteByte(r)
 			escape = false
 		case quote:
 			if r == '\\' {
@@ -74,16 +75,16 @@ func (a Args) ParseList(value string) []string {
 				if r == '"' {
 					quote = false
 				}
-				b.WriteRune(r)
+				b.WriteByte(r)
 			}
 		case r == ',' || r == ';' || r == '\n':
 			list = append(list, strings.TrimSpace(b.String()))
 			b.Reset()
 		case r == '"':
 			quote = true
-			b.WriteRune(r)
+			b.WriteByte(r)
 		default:
-			b.WriteRune(r)
+			b.WriteByte(r)
 		}
 	}
 	// Append last part.
-- 
2.43.0


From d4ae38af2c9cd5eaa6a7dc217b341b623125c8ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:46 +0000
Subject: [PATCH 59/70] fix: dates keep their milliseconds (AMF0 and AMF3)

---
 amf/amf0.go   | 2 +-
 amf/amf3.go   | 8 +++++---
 amf/helper.go | 6 ++++++
 3 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/amf/amf0.go b/amf/amf0.go
index 73d7ca3..5b0c4d4 100755
--- a/amf/amf0.go
+++ b/amf/amf0.go
@@ -640,7 +640,7 @@ func (ed *EnDecAMF0) encodeDate(w io.Writer, val time.Time) (int, error) {
 	}
 	n := 1
 
-	err = binary.Write(w, binary.BigEndian, float64(val.Unix())*1000.0)
+	err = binary.Write(w, binary.BigEndian, unixMilli(val))
 	if err != nil {
 		return 0, err
 	}
diff --git a/amf/amf3.go b/amf/amf3.go
index 998bf97..8f5dd10 100755
--- a/amf/amf3.go
+++ b/amf/amf3.go
@@ -5,6 +5,7 @@ import (
 	"errors"
 	"fmt"
 	"io"
+	"math"
 	"reflect"
 	"sort"
 	"time"
@@ -216,8 +217,9 @@ func (ed *EnDecAMF3) decodeDate(r io.Reader) (time.Time, error) {
 		return time.Time{}, fmt.Errorf("unable to read double: %s", err)
 	}
 
-	// 将毫秒转换为秒
-	result := time.Unix(int64(f64/1000), 0).UTC()
+	// 将毫秒转换为秒和不足一秒的部分(向下取整, 1970年以前的时间为负数)
+	sec := math.Floor(f64 / 1000)
+	result := time.Unix(int64(sec), int64(f64-sec*1000)*int64(time.Millisecond)).UTC()
 	ed.deObjTable = append(ed.deObjTable, result)
 
 	return result, nil
@@ -723,7 +725,7 @@ func (ed *EnDecAMF3) encodeDate(w io.Writer, val time.Time) (int, error) {
 	}
 	n++
 
-	u64 := float64(val.Unix()) * 1000.0
+	u64 := unixMilli(val)
 	err = binary.Write(w, binary.BigEndian, &u64)
 	if err != nil {
 		return 0, err
diff --git a/amf/helper.go b/amf/helper.go
index 3d773e1..0463604 100755
--- a/amf/helper.go
+++ b/amf/helper.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"fmt"
 	"io"
+	"time"
 )
 
 // Array AMF数组接口
@@ -104,3 +105,8 @@ func nextByteMustBe(r io.Reader, target byte) error {
 
 	return nil
 }
+
+// unixMilli 1970年以来的毫秒数
+func unixMilli(t time.Time) float64 {
+	return float64(t.Unix())*1000 + float64(t.Nanosecond()/int(time.Millisecond))
+}
-- 
2.43.0


From 454c14e09bd27e44983f8b711d0b3daac8a85cce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:46 +0000
Subject: [PATCH 60/70] fix: every SPS and PPS of an AVC configuration is kept

---
 parser/h264/parser.go | 45 ++++++++++++++++++++++++++++++-------------
 1 file changed, 32 insertions(+), 13 deletions(-)

diff --git a/parser/h264/parser.go b/parser/h264/parser.go
index 484c18a..533e72d 100755
--- a/parser/h264/parser.go
+++ b/parser/h264/parser.go
@@ -66,26 +66,45 @@ func (p *Parser) parseSpecificInfo(src []byte) error {
 	seq.reserved2 = src[5] >> 5
 
 	// 提取SPS
-	seq.spsNum = src[5] & 0x1f                /* [3:7]SPS数量, 一般为1 */
-	seq.spsLen = int(src[6])<<8 | int(src[7]) /* [0:15]SPS长度 */
-	if len(src[8:]) < seq.spsLen || seq.spsLen <= 0 {
-		return errors.New("incomplete sps data")
+	seq.spsNum = src[5] & 0x1f /* [3:7]SPS数量, 一般为1 */
+	tmpBuf := src[6:]
+	for i := 0; i < int(seq.spsNum); i++ {
+		if len(tmpBuf) < 2 {
+			return errors.New("incomplete sps header")
+		}
+		seq.spsLen = int(tmpBuf[0])<<8 | int(tmpBuf[1]) /* [0:15]SPS长度 */
+		if len(tmpBuf[2:]) < seq.spsLen || seq.spsLen <= 0 {
+			return errors.New("incomplete sps data")
+		}
+		sps = append(sps, startCode...)
+		sps = append(sps, tmpBuf[2:(2+seq.spsLen)]...)
+		tmpBuf = tmpBuf[(2 + seq.spsLen):]
+	}
+	if len(sps) == 0 {
+		return errors.New("no sps data")
 	}
-	sps = append(sps, startCode...)
-	sps = append(sps, src[8:(8+seq.spsLen)]...)
 
 	// 提取PPS
-	tmpBuf := src[(8 + seq.spsLen):]
 	if len(tmpBuf) < 4 {
 		return errors.New("incomplete pps header")
 	}
-	seq.ppsNum = tmpBuf[0]                          /* PPS数量 */
-	seq.ppsLen = int(tmpBuf[1])<<8 | int(tmpBuf[2]) /* [0:15]PPS长度 */
-	if len(tmpBuf[3:]) < seq.ppsLen || seq.ppsLen <= 0 {
-		return errors.New("incomplete pps data")
+	seq.ppsNum = tmpBuf[0] /* PPS数量 */
+	tmpBuf = tmpBuf[1:]
+	for i := 0; i < int(seq.ppsNum); i++ {
+		if len(tmpBuf) < 2 {
+			return errors.New("incomplete pps header")
+		}
+		seq.ppsLen = int(tmpBuf[0])<<8 | int(tmpBuf[1]) /* [0:15]PPS长度 */
+		if len(tmpBuf[2:]) < seq.ppsLen || seq.ppsLen <= 0 {
+			return errors.New("incomplete pps data")
+		}
+		pps = append(pps, startCode...)
+		pps = append(pps, tmpBuf[2:(2+seq.ppsLen)]...)
+		tmpBuf = tmpBuf[(2 + seq.ppsLen):]
+	}
+	if len(pps) == 0 {
+		return errors.New("no pps data")
 	}
-	pps = append(pps, startCode...)
-	pps = append(pps, tmpBuf[3:3+seq.ppsLen]...)
 
 	// 向specificInfo填充SPS和PPS(替换上一个序列头)
 	p.specificInfo = append(sps, pps...)
-- 
2.43.0


From 30acc986b1727ec45eecb4255544fdcff579b5c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:46 +0000
Subject: [PATCH 61/70] fix: the size of NAL unit lengths is the one the AVC
 configuration gives

---
 parser/h264/parser.go | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/parser/h264/parser.go b/parser/h264/parser.go
index 533e72d..e49ce98 100755
--- a/parser/h264/parser.go
+++ b/parser/h264/parser.go
@@ -11,12 +11,15 @@ import (
 type Parser struct {
 	specificInfo []byte        /* {0: sps, 1: pps}, 均包含start code */
 	spsPps       *bytes.Buffer /* sps和pps共用, 均包含start code */
+	naluLen      int           /* [AVCC格式]NALU长度字段的字节数, 由序列头指定 */
 }
 
 // NewParser 初始化h264解析器(pps/sps)
 func NewParser() *Parser {
 	return &Parser{
 		spsPps: bytes.NewBuffer(make([]byte, maxSpsPpsLen)),
+
+		naluLen: naluBytesLen,
 	}
 }
 
@@ -108,6 +111,7 @@ func (p *Parser) parseSpecificInfo(src []byte) error {
 
 	// 向specificInfo填充SPS和PPS(替换上一个序列头)
 	p.specificInfo = append(sps, pps...)
+	p.naluLen = int(seq.naluLen)
 
 	return nil
 }
@@ -123,12 +127,12 @@ func (p *Parser) isStartAtNaluHeader(src []byte) bool {
 
 // [AVCC格式] 提取NALU的长度
 func (p *Parser) naluSize(src []byte) (int, error) {
-	if len(src) < naluBytesLen {
+	if len(src) < p.naluLen {
 		return 0, errors.New("[hvcc]incomplete nalu data")
 	}
 
 	// [0:31] nalu单元的长度，不包括长度字段
-	buf := src[:naluBytesLen]
+	buf := src[:p.naluLen]
 	l := len(buf)
 
 	var size = 0
@@ -143,7 +147,7 @@ func (p *Parser) naluSize(src []byte) (int, error) {
 func (p *Parser) getAnnexbH264(src []byte, w io.Writer) error {
 	dataSize := len(src)
 
-	if dataSize == 0 || dataSize < naluBytesLen {
+	if dataSize == 0 || dataSize < p.naluLen {
 		return errors.New("incomplete h264 header")
 	}
 
@@ -172,8 +176,8 @@ func (p *Parser) getAnnexbH264(src []byte, w io.Writer) error {
 			return errors.New("invalid nalu body size")
 		}
 
-		index += naluBytesLen
-		dataSize -= naluBytesLen
+		index += p.naluLen
+		dataSize -= p.naluLen
 
 		// 紧跟着 Nalu size 后面的是 NALU 数据，没有四个字节 start code，直接从 h264 头开始
 		if dataSize < nalLen {
-- 
2.43.0


From 515d02ba8934a4ef00191c33b9c23b248df0eeea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:16 +0000
Subject: [PATCH 62/70] fix: any non-zero byte of an AMF0 boolean is true

---
 amf/amf0.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/amf/amf0.go b/amf/amf0.go
index 5b0c4d4..5f692c7 100755
--- a/amf/amf0.go
+++ b/amf/amf0.go
@@ -76,14 +76,14 @@ func (ed *EnDecAMF0) Decode(r io.Reader) (val interface{}, err error) {
 		return f64, nil
 	case booleanMarkerOnAMF0:
 		// marker: 1 byte 0x01
-		// format: 1 byte, 0x00 = false, 0x01 = true
+		// format: 1 byte, 0x00 = false, otherwise(typically 0x01) true
 		var flag byte
 		flag, err = readByte(r)
 		if err != nil {
 			return nil, err
 		}
 
-		return flag == 1, nil
+		return flag != 0, nil
 	case stringMarkerOnAMF0:
 		return ed.decodeString(r)
 	case objectMarkerOnAMF0:
-- 
2.43.0


From 823cc0a57d04aeb89b6f1a953c7cce468b6fa7f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:44 +0000
Subject: [PATCH 63/70] fix: the user part of a SIP URI may hold a semicolon

---
 sips/request.go | 5 ++++-
 sips/user.go    | 8 +++++++-
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/sips/request.go b/sips/request.go
index 5d492ca..f53cf22 100644
--- a/sips/request.go
+++ b/sips/request.go
@@ -47,9 +47,12 @@ func NewSIPRequest(uri string) *SIPRequest {
 	}
 	pos, state := 0, _FieldBase
 
+	// the user part ends at '@' and may hold a ';'
+	at := strings.IndexByte(uri, '@')
+
 	var user, host, port []byte
 
-	for pos < len(uri) && uri[pos] != ';' {
+	for pos < len(uri) && (uri[pos] != ';' || state == _FieldUser && sr.URIType != "tel" && pos < at) {
 
 		switch state {
 		case _FieldBase:
diff --git a/sips/user.go b/sips/user.go
index 110d0ae..ba999cb 100644
--- a/sips/user.go
+++ b/sips/user.go
@@ -50,9 +50,15 @@ func NewSIPUser(uri string) *SIPUser {
 	su.Name, uri = splitName(uri)
 	pos, state := 0, _FieldBase
 
+	// the user part ends at '@' and, within angle brackets, may hold a ';'
+	at := -1
+	if strings.HasPrefix(strings.TrimLeft(uri, " "), "<") {
+		at = strings.IndexByte(Substring(uri, 0, strings.IndexByte(uri, '>')), '@')
+	}
+
 	var user, host, port []byte
 
-	for pos < len(uri) && uri[pos] != ';' {
+	for pos < len(uri) && (uri[pos] != ';' || state == _FieldUser && su.URIType != "tel" && pos < at) {
 
 		if uri[pos] == '>' || uri[pos] == ' ' {
 			state = _FieldBase
-- 
2.43.0


From 27155de9b6dc7a7a01c467fb503c41d69cf179a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:45 +0000
Subject: [PATCH 64/70] fix: empty lines before the start line of a SIP message
 are ignored

---
 sips/sips.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/sips/sips.go b/sips/sips.go
index b31fe72..f3e2329 100644
--- a/sips/sips.go
+++ b/sips/sips.go
@@ -107,12 +107,17 @@ func (s *SIP) Parse(r *bufio.Reader) error {
 			}
 		}
 
-		buffer = append(buffer, line...)
-		offset += len(line)
-
 		// Trim the new line delimiters
 		trim := bytes.Trim(line, "\r\n")
 
+		// RFC 3261 - 7.5 - empty lines before the first line are ignored
+		if len(trim) == 0 && countLines == 0 {
+			continue
+		}
+
+		buffer = append(buffer, line...)
+		offset += len(line)
+
 		// Empty line, we hit Body
 		if len(trim) == 0 {
 			offset -= len(line)
-- 
2.43.0


From db6fe0fc6e770fbe8d12c377094e2de539496bf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:59 +0000
Subject: [PATCH 65/70] fix: a folded header line is joined by one space, also
 behind white space

---
 sips/sips.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sips/sips.go b/sips/sips.go
index f3e2329..014e40c 100644
--- a/sips/sips.go
+++ b/sips/sips.go
@@ -134,7 +134,7 @@ func (s *SIP) Parse(r *bufio.Reader) error {
 			}
 
 		} else if line[0] == '\t' || line[0] == ' ' {
-			header = append(header, ' ')
+			header = append(bytes.TrimRight(header, " \t"), ' ')
 			header = append(header, bytes.Trim(line, " \t")...)
 		} else {
 			s.ParseHeader(header)
-- 
2.43.0


From 3e4e0ceb9380b851386fddf492caf4ed2014d7ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:59 +0000
Subject: [PATCH 66/70] fix: white space around the '=' of a SIP parameter is
 no part of it

---
 sips/header_args.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sips/header_args.go b/sips/header_args.go
index 1126e0b..8f9ad2c 100644
--- a/sips/header_args.go
+++ b/sips/header_args.go
@@ -32,11 +32,12 @@ func ParseArgsPairs(value string) Args {
 		if i := strings.Index(pair, "="); i < 0 {
 			m[pair] = ""
 		} else {
-			v := pair[i+1:]
+			// white space may surround the '='
+			v := strings.TrimSpace(pair[i+1:])
 			if len(v) >= 2 && v[0] == '"' && v[len(v)-1] == '"' {
 				v = v[1 : len(v)-1]
 			}
-			m[pair[:i]] = v
+			m[strings.TrimSpace(pair[:i])] = v
 		}
 	}
 	return m
-- 
2.43.0


From 216b5d86ed0a846afe9b06ee049d6736474a12b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:36 +0000
Subject: [PATCH 67/70] fix: the Via values behind a comma are not mixed into
 the first one

---
 sips/base.go | 20 ++++++++++++++++++++
 sips/via.go  |  1 +
 2 files changed, 21 insertions(+)

diff --git a/sips/base.go b/sips/base.go
index c7a521f..92d16f3 100644
--- a/sips/base.go
+++ b/sips/base.go
@@ -53,6 +53,26 @@ func fixHostPort(uriType, user, host, port string) (string, string, string) {
 	return "", user, port
 }
 
+// firstValue returns the first of the values of a header that are separated by
+// commas. A comma within quotes separates nothing.
+func firstValue(s string) string {
+
+	quoted := false
+	for i := 0; i < len(s); i++ {
+
+		switch {
+		case quoted && s[i] == '\\':
+			i++
+		case s[i] == '"':
+			quoted = !quoted
+		case s[i] == ',' && !quoted:
+			return s[:i]
+		}
+	}
+
+	return s
+}
+
 // inBrackets tells whether host is an IPv6 address that has not ended yet.
 func inBrackets(host []byte) bool {
 	return len(host) > 0 && host[0] == '[' && host[len(host)-1] != ']'
diff --git a/sips/via.go b/sips/via.go
index 78ec01c..148e117 100644
--- a/sips/via.go
+++ b/sips/via.go
@@ -33,6 +33,7 @@ func NewSIPVia(uri string) *SIPVia {
 		Args: make(Args),
 		Src:  uri,
 	}
+	uri = firstValue(uri)
 	pos, state := 0, _FieldBase
 
 	var host, port []byte
-- 
2.43.0


From 9f6615b93270ea095af8191a338b3c00572a9c02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:37 +0000
Subject: [PATCH 68/70] fix: white space around the slashes of a Via value

---
 sips/via.go | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/sips/via.go b/sips/via.go
index 148e117..718937a 100644
--- a/sips/via.go
+++ b/sips/via.go
@@ -1,7 +1,10 @@
 // sips ref https://github.com/marv2097/siprocket/blob/master/sipVia.go
 package sips
 
-import "bytes"
+import (
+	"bytes"
+	"strings"
+)
 
 // SIPVia a single line that is in the format of a Via line
 //
@@ -54,11 +57,10 @@ func NewSIPVia(uri string) *SIPVia {
 			// contain a branch parameter.  This parameter is used to identify the
 			// transaction created by that request.  This parameter is used by both
 			// the client and the server.
-			str := Substring(uri, pos, pos+8)
-			if upperASCII(str) == "SIP/2.0/" {
+			if n := protocolLen(uri[pos:]); n > 0 {
 
 				state = _FieldHost
-				pos = pos + 8
+				pos = pos + n
 				start := pos
 
 				// The transport is any token
@@ -94,6 +96,22 @@ func NewSIPVia(uri string) *SIPVia {
 	return sv
 }
 
+// protocolLen returns the length of the protocol name and version at the start
+// of s, where white space may surround the slashes, 0 if there is none.
+func protocolLen(s string) int {
+
+	rest := s
+	for _, token := range []string{"SIP", "/", "2.0", "/"} {
+
+		if upperASCII(Substring(rest, 0, len(token))) != token {
+			return 0
+		}
+		rest = strings.TrimLeft(rest[len(token):], " \t")
+	}
+
+	return len(s) - len(rest)
+}
+
 // Bytes package SIPVia struct into slice
 func (s *SIPVia) Bytes() []byte {
 
-- 
2.43.0


From f5f4ef6180bbcfdb7e397618d628eed817285be1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:37 +0000
Subject: [PATCH 69/70] fix: a header in both its long and its compact form was
 found in one of them only

---
 sips/header.go | 15 +++++++++++++++
 sips/sips.go   |  5 +++++
 2 files changed, 20 insertions(+)

diff --git a/sips/header.go b/sips/header.go
index f21be29..536cbf7 100644
--- a/sips/header.go
+++ b/sips/header.go
@@ -31,6 +31,15 @@ var compactSipHeadersCorrespondence = map[string]string{
 	"via":                 "v",
 }
 
+// The long names of the compact ones
+var longSipHeadersCorrespondence = make(map[string]string)
+
+func init() {
+	for long, compact := range compactSipHeadersCorrespondence {
+		longSipHeadersCorrespondence[compact] = long
+	}
+}
+
 // SIPHeader sip's header
 type SIPHeader map[string][]string
 
@@ -56,6 +65,9 @@ func (s SIPHeader) GetHeader(headerName string) []string {
 	if compact, ok := compactSipHeadersCorrespondence[headerName]; ok && len(s[compact]) > 0 {
 		return s[compact]
 	}
+	if long, ok := longSipHeadersCorrespondence[headerName]; ok && len(s[long]) > 0 {
+		return s[long]
+	}
 	return h
 }
 
@@ -70,6 +82,9 @@ func (s SIPHeader) GetFirstHeader(headerName string) string {
 	if compact, ok := compactSipHeadersCorrespondence[headerName]; ok && len(s[compact]) > 0 {
 		return s[compact][0]
 	}
+	if long, ok := longSipHeadersCorrespondence[headerName]; ok && len(s[long]) > 0 {
+		return s[long][0]
+	}
 	return ""
 }
 
diff --git a/sips/sips.go b/sips/sips.go
index 014e40c..abebd7d 100644
--- a/sips/sips.go
+++ b/sips/sips.go
@@ -208,6 +208,11 @@ func (s *SIP) ParseHeader(header []byte) {
 		headerName := strings.ToLower(string(bytes.Trim(header[:index], " \t")))
 		headerValue := string(bytes.Trim(header[index+1:], " \t"))
 
+		// The long and the compact form name the same header, a message may use both
+		if long, ok := longSipHeadersCorrespondence[headerName]; ok {
+			headerName = long
+		}
+
 		// Add header to object
 		s.Headers[headerName] = append(s.Headers[headerName], headerValue)
 		s.lastHeaderParsed = headerName
-- 
2.43.0


From 9f54b3b96457931e4078265d02d4e2561ae27a7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:30 +0000
Subject: [PATCH 70/70] fix: an AMF0 long string longer than a 32-bit int
 panicked

---
 amf/amf0.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/amf/amf0.go b/amf/amf0.go
index 5f692c7..b5c2472 100755
--- a/amf/amf0.go
+++ b/amf/amf0.go
@@ -4,6 +4,7 @@ import (
 	"encoding/binary"
 	"fmt"
 	"io"
+	"math"
 	"reflect"
 	"time"
 )
@@ -277,6 +278,11 @@ func (ed *EnDecAMF0) decodeLongString(r io.Reader) (string, error) {
 		return "", err
 	}
 
+	// 32位平台的int放不下这么长的字符串
+	if uint64(length) > math.MaxInt {
+		return "", fmt.Errorf("decode amf0: long string of %d bytes is too long", length)
+	}
+
 	buf, err := readBytes(r, int(length))
 	if err != nil {
 		return "", err
-- 
2.43.0

