From 467543f9bd16c93581c167fc6750fca1cfbd9e82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:16 +0000
Subject: [PATCH 01/45] fix: parsing an empty bare word no longer panics

---
 jsonutils.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsonutils.go b/jsonutils.go
index 97e6883..cb4f20a 100644
--- a/jsonutils.go
+++ b/jsonutils.go
@@ -259,7 +259,7 @@ func (s *sJsonParseSession) parseJSONValue(str []byte, offset int) (JSONObject,
 		return nil, i, errors.Wrap(e, "parseString")
 	} else if quote {
 		return &JSONString{data: val}, i, nil
-	} else if val[0] == '<' && val[len(val)-1] == '>' {
+	} else if len(val) > 0 && val[0] == '<' && val[len(val)-1] == '>' {
 		// Pointer <nnnn>
 		val = val[1 : len(val)-1]
 		ival, err := strconv.ParseInt(val, 10, 64)
-- 
2.43.0


From cc36714a7844d2d69ddf8cf22e3d12711ee78ccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:17 +0000
Subject: [PATCH 02/45] fix: a node id that is not an integer is a parse error,
 not a panic

---
 jsonutils.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/jsonutils.go b/jsonutils.go
index cb4f20a..688a07f 100644
--- a/jsonutils.go
+++ b/jsonutils.go
@@ -476,7 +476,11 @@ func (s *sJsonParseSession) parseDict(str []byte, offset int) (sortedmap.SSorted
 		}
 		if key == jsonPointerKey {
 			// node id
-			nodeId = int(val.(*JSONInt).data)
+			idVal, ok := val.(*JSONInt)
+			if !ok {
+				return smap, i, nodeId, NewJSONError(str, i, "Invalid node id")
+			}
+			nodeId = int(idVal.data)
 		} else {
 			smap = sortedmap.Add(smap, key, val)
 		}
-- 
2.43.0


From 5555416e0cfda0b0172998fd8b5c31f55fdd6a10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:18 +0000
Subject: [PATCH 03/45] fix: a repeated node id no longer panics the parser

---
 parse_session.go | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/parse_session.go b/parse_session.go
index 632dce9..c1937be 100644
--- a/parse_session.go
+++ b/parse_session.go
@@ -14,10 +14,6 @@
 
 package jsonutils
 
-import (
-	"fmt"
-)
-
 type sNodeReferer struct {
 	node     JSONObject
 	pointers []*sJSONPointer
@@ -45,9 +41,8 @@ func (s *sJsonParseSession) saveReferer(nodeId int, ptr *sJSONPointer) {
 
 func (s *sJsonParseSession) saveNode(nodeId int, node JSONObject) {
 	if nr, ok := s.objectMap[nodeId]; ok {
-		if nr.node != nil {
-			panic(fmt.Sprintf("nodeId %d alreayd exists: %s != %s", nodeId, nr.node, node))
-		} else {
+		// a deprecated alias repeats the node of the field it stands for, keep the first
+		if nr.node == nil {
 			nr.node = node
 		}
 	} else {
-- 
2.43.0


From 7f38ee7577b64eb24da49436d49dd71ec4b570af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:40 +0000
Subject: [PATCH 04/45] fix: an unclosed object or array is rejected as
 truncated

---
 jsonutils.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/jsonutils.go b/jsonutils.go
index 688a07f..94b6917 100644
--- a/jsonutils.go
+++ b/jsonutils.go
@@ -498,6 +498,9 @@ func (s *sJsonParseSession) parseDict(str []byte, offset int) (sortedmap.SSorted
 			return smap, i, nodeId, NewJSONError(str, i, "Unexpected char")
 		}
 	}
+	if !stop {
+		return smap, i, nodeId, NewJSONError(str, i, "Truncated")
+	}
 	return smap, i, nodeId, nil
 }
 
@@ -552,6 +555,9 @@ func (s *sJsonParseSession) parseArray(str []byte, offset int) ([]JSONObject, in
 			return list, i, NewJSONError(str, i, "Unexpected char")
 		}
 	}
+	if !stop {
+		return list, i, NewJSONError(str, i, "Truncated")
+	}
 	return list, i, nil
 }
 
-- 
2.43.0


From bcf1228622429f0299a3f854994c1e7697b760b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:41 +0000
Subject: [PATCH 05/45] fix: an unclosed quoted string is rejected as truncated

---
 jsonutils.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/jsonutils.go b/jsonutils.go
index 94b6917..e7a3752 100644
--- a/jsonutils.go
+++ b/jsonutils.go
@@ -166,6 +166,7 @@ func parseQuoteString(str []byte, offset int, quotec byte) (string, int, error)
 		runebytes = make([]byte, 4)
 		runen     int
 		i         = offset
+		closed    bool
 	)
 ret:
 	for i < len(str) {
@@ -224,12 +225,16 @@ ret:
 			}
 		case quotec:
 			i++
+			closed = true
 			break ret
 		default:
 			buffer = append(buffer, str[i])
 			i++
 		}
 	}
+	if !closed {
+		return "", i, NewJSONError(str, i, "Truncated")
+	}
 	return string(buffer), i, nil
 }
 
-- 
2.43.0


From c41d9e2ce940af1f725da9d58cb2108315e188ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:42 +0000
Subject: [PATCH 06/45] fix: decode an escaped surrogate pair as one code point

---
 jsonutils.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/jsonutils.go b/jsonutils.go
index e7a3752..35c0927 100644
--- a/jsonutils.go
+++ b/jsonutils.go
@@ -20,6 +20,7 @@ import (
 	"strconv"
 	"strings"
 	"time"
+	"unicode/utf16"
 	"unicode/utf8"
 
 	"yunion.io/x/log"
@@ -184,9 +185,17 @@ ret:
 					if e != nil {
 						return "", i, NewJSONError(str, i, e.Error())
 					}
+					i += 4
+					if utf16.IsSurrogate(r) && i+6 < len(str) && str[i] == '\\' && str[i+1] == 'u' {
+						// \uD83D\uDE00 is one code point beyond the BMP
+						r2, e := hexstr2rune(str[i+2 : i+6])
+						if e == nil && utf16.DecodeRune(r, r2) != utf8.RuneError {
+							r = utf16.DecodeRune(r, r2)
+							i += 6
+						}
+					}
 					runen = utf8.EncodeRune(runebytes, r)
 					buffer = append(buffer, runebytes[0:runen]...)
-					i += 4
 				case 'x':
 					i++
 					if i+2 >= len(str) {
-- 
2.43.0


From 5a3a8f7eb7cac448b7aeee4075c14fafcfb3e470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:44 +0000
Subject: [PATCH 07/45] fix: escape object keys in the pretty rendering

---
 jsonutils.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/jsonutils.go b/jsonutils.go
index 35c0927..56ad097 100644
--- a/jsonutils.go
+++ b/jsonutils.go
@@ -615,9 +615,8 @@ func (this *JSONDict) prettyString(level int) string {
 		buffer.WriteByte('\n')
 		buffer.WriteString(tab)
 		buffer.WriteString("  ")
-		buffer.WriteByte('"')
-		buffer.WriteString(k)
-		buffer.WriteString("\":")
+		buffer.WriteString(quoteString(k))
+		buffer.WriteByte(':')
 		_, okdict := v.(*JSONDict)
 		_, okarray := v.(*JSONArray)
 		if okdict || okarray {
-- 
2.43.0


From 986ea2afa7a90b4cccaeb7b2c1a9e9a7c142f7c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:45 +0000
Subject: [PATCH 08/45] fix: keep node ids in the pretty rendering

---
 jsonutils.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/jsonutils.go b/jsonutils.go
index 56ad097..ad98727 100644
--- a/jsonutils.go
+++ b/jsonutils.go
@@ -16,6 +16,7 @@ package jsonutils
 
 import (
 	"bytes"
+	"fmt"
 	"reflect"
 	"strconv"
 	"strings"
@@ -606,6 +607,12 @@ func (this *JSONDict) prettyString(level int) string {
 	buffer.WriteString(tab)
 	buffer.WriteByte('{')
 	var idx = 0
+	if this.nodeId > 0 {
+		buffer.WriteByte('\n')
+		buffer.WriteString(tab)
+		buffer.WriteString(fmt.Sprintf("  %s: %d", quoteString(jsonPointerKey), this.nodeId))
+		idx++
+	}
 	for iter := sortedmap.NewIterator(this.data); iter.HasMore(); iter.Next() {
 		k, vInf := iter.Get()
 		v := vInf.(JSONObject)
@@ -628,7 +635,7 @@ func (this *JSONDict) prettyString(level int) string {
 		}
 		idx++
 	}
-	if len(this.data) > 0 {
+	if idx > 0 {
 		buffer.WriteByte('\n')
 		buffer.WriteString(tab)
 	}
-- 
2.43.0


From 620ef4f8490008c8911db3364901b44a8791e3c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:11 +0000
Subject: [PATCH 09/45] fix: unmarshal a number or boolean document instead of
 zeroing the target

---
 unmarshal.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/unmarshal.go b/unmarshal.go
index 4209253..4f4d5cb 100644
--- a/unmarshal.go
+++ b/unmarshal.go
@@ -54,6 +54,18 @@ func (this *JSONString) Unmarshal(obj interface{}, keys ...string) error {
 	return jsonUnmarshal(this, obj, keys)
 }
 
+func (this *JSONInt) Unmarshal(obj interface{}, keys ...string) error {
+	return jsonUnmarshal(this, obj, keys)
+}
+
+func (this *JSONFloat) Unmarshal(obj interface{}, keys ...string) error {
+	return jsonUnmarshal(this, obj, keys)
+}
+
+func (this *JSONBool) Unmarshal(obj interface{}, keys ...string) error {
+	return jsonUnmarshal(this, obj, keys)
+}
+
 func jsonUnmarshal(jo JSONObject, o interface{}, keys []string) error {
 	if len(keys) > 0 {
 		var err error = nil
-- 
2.43.0


From 2e3ca5e4681e54bb091c17ff8c5a87735c232b54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:12 +0000
Subject: [PATCH 10/45] fix: unmarshal a boolean or float into an unsigned
 integer without panicking

---
 unmarshal.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/unmarshal.go b/unmarshal.go
index 4f4d5cb..fb1f62f 100644
--- a/unmarshal.go
+++ b/unmarshal.go
@@ -194,13 +194,18 @@ func (this *JSONBool) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Valu
 		}
 	}
 	switch val.Kind() {
-	case reflect.Int, reflect.Uint, reflect.Int8, reflect.Uint8,
-		reflect.Int16, reflect.Uint16, reflect.Int32, reflect.Uint32, reflect.Int64, reflect.Uint64:
+	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
 		if this.data {
 			val.SetInt(1)
 		} else {
 			val.SetInt(0)
 		}
+	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
+		if this.data {
+			val.SetUint(1)
+		} else {
+			val.SetUint(0)
+		}
 	case reflect.Float32, reflect.Float64:
 		if this.data {
 			val.SetFloat(1.0)
@@ -282,9 +287,10 @@ func (this *JSONFloat) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Val
 		}
 	}
 	switch val.Kind() {
-	case reflect.Int, reflect.Uint, reflect.Int8, reflect.Uint8,
-		reflect.Int16, reflect.Uint16, reflect.Int32, reflect.Uint32, reflect.Int64, reflect.Uint64:
+	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
 		val.SetInt(int64(this.data))
+	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
+		val.SetUint(uint64(this.data))
 	case reflect.Float32, reflect.Float64:
 		val.SetFloat(this.data)
 	case reflect.Bool:
-- 
2.43.0


From cdc41599f0d6c9251cd5f00ea477abd66ca2ffe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:13 +0000
Subject: [PATCH 11/45] fix: a tristate unmarshaled from a string or number is
 true, false or none

---
 unmarshal.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/unmarshal.go b/unmarshal.go
index fb1f62f..af653f3 100644
--- a/unmarshal.go
+++ b/unmarshal.go
@@ -126,6 +126,7 @@ func (this *JSONInt) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Value
 		} else {
 			val.Set(tristate.TriStateTrueValue)
 		}
+		return nil
 	}
 	switch val.Kind() {
 	case reflect.Int, reflect.Int8, reflect.Int16,
@@ -285,6 +286,7 @@ func (this *JSONFloat) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Val
 		} else {
 			val.Set(tristate.TriStateTrueValue)
 		}
+		return nil
 	}
 	switch val.Kind() {
 	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
@@ -379,6 +381,7 @@ func (this *JSONString) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Va
 		default:
 			val.Set(tristate.TriStateNoneValue)
 		}
+		return nil
 	}
 	switch val.Kind() {
 	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
-- 
2.43.0


From 6cf1c95bca54fb051da0e97ef105f2df5b33ffb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:14 +0000
Subject: [PATCH 12/45] fix: a value that does not implement the target
 interface is a type mismatch, not a panic

---
 unmarshal.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/unmarshal.go b/unmarshal.go
index af653f3..50aca02 100644
--- a/unmarshal.go
+++ b/unmarshal.go
@@ -151,6 +151,9 @@ func (this *JSONInt) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Value
 		}
 		return this.unmarshalValue(s, val.Elem())
 	case reflect.Interface:
+		if val.NumMethod() > 0 {
+			return errors.Wrapf(ErrTypeMismatch, "JSONInt vs. %s", val.Type())
+		}
 		val.Set(reflect.ValueOf(this.data))
 	default:
 		return errors.Wrapf(ErrTypeMismatch, "JSONInt vs. %s", val.Type())
@@ -227,6 +230,9 @@ func (this *JSONBool) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Valu
 		}
 		return this.unmarshalValue(s, val.Elem())
 	case reflect.Interface:
+		if val.NumMethod() > 0 {
+			return errors.Wrapf(ErrTypeMismatch, "JSONBool vs. %s", val.Type())
+		}
 		val.Set(reflect.ValueOf(this.data))
 	default:
 		return errors.Wrapf(ErrTypeMismatch, "JSONBool vs. %s", val.Type())
@@ -309,6 +315,9 @@ func (this *JSONFloat) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Val
 		}
 		return this.unmarshalValue(s, val.Elem())
 	case reflect.Interface:
+		if val.NumMethod() > 0 {
+			return errors.Wrapf(ErrTypeMismatch, "JSONFloat vs. %s", val.Type())
+		}
 		val.Set(reflect.ValueOf(this.data))
 	default:
 		return errors.Wrapf(ErrTypeMismatch, "JSONFloat vs. %s", val.Type())
@@ -418,6 +427,9 @@ func (this *JSONString) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Va
 		}
 		return this.unmarshalValue(s, val.Elem())
 	case reflect.Interface:
+		if val.NumMethod() > 0 {
+			return errors.Wrapf(ErrTypeMismatch, "JSONString vs. %s", val.Type())
+		}
 		val.Set(reflect.ValueOf(this.data))
 	case reflect.Slice:
 		dataLen := 1
@@ -468,6 +480,9 @@ func (this *JSONArray) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Val
 		}
 		return ErrTypeMismatch // fmt.Errorf("JSONArray type mismatch %s", val.Type())
 	case reflect.Interface:
+		if val.NumMethod() > 0 {
+			return errors.Wrapf(ErrTypeMismatch, "JSONArray vs. %s", val.Type())
+		}
 		val.Set(reflect.ValueOf(this.data))
 	case reflect.Slice, reflect.Array:
 		if val.Kind() == reflect.Array {
-- 
2.43.0


From 8b33f8ec2a0d0b94e698d681d01b9c380714d895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:39 +0000
Subject: [PATCH 13/45] fix: unmarshal a string into *JSONBool without
 overwriting JSONTrue or JSONFalse

---
 unmarshal.go | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/unmarshal.go b/unmarshal.go
index 50aca02..800cf8b 100644
--- a/unmarshal.go
+++ b/unmarshal.go
@@ -364,7 +364,6 @@ func (this *JSONString) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Va
 		}
 		return nil
 	case JSONBoolPtrType:
-		json := val.Interface().(*JSONBool)
 		var data bool
 		switch strings.ToLower(this.data) {
 		case "true", "yes", "on", "1":
@@ -372,11 +371,8 @@ func (this *JSONString) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Va
 		default:
 			data = false
 		}
-		if json == nil {
-			json = &JSONBool{data: data}
-		} else {
-			json.data = data
-		}
+		// never write into the current target, it may be the shared JSONTrue or JSONFalse
+		val.Set(reflect.ValueOf(NewBool(data)))
 		return nil
 	case JSONIntType, JSONFloatType, JSONArrayType, JSONDictType,
 		JSONBoolPtrType, JSONIntPtrType, JSONFloatPtrType, JSONArrayPtrType, JSONDictPtrType:
-- 
2.43.0


From c444ba0d828394a7f9a3cb785c4a273cb56f7dd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:41 +0000
Subject: [PATCH 14/45] fix: unmarshal into *JSONString or *JSONInt without
 overwriting a node another document holds

---
 unmarshal.go | 35 ++++-------------------------------
 1 file changed, 4 insertions(+), 31 deletions(-)

diff --git a/unmarshal.go b/unmarshal.go
index 800cf8b..72c50e2 100644
--- a/unmarshal.go
+++ b/unmarshal.go
@@ -109,14 +109,7 @@ func (this *JSONInt) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Value
 		json.data = fmt.Sprintf("%d", this.data)
 		return nil
 	case JSONStringPtrType:
-		json := val.Interface().(*JSONString)
-		data := fmt.Sprintf("%d", this.data)
-		if json == nil {
-			json = NewString(data)
-			val.Set(reflect.ValueOf(json))
-		} else {
-			json.data = data
-		}
+		val.Set(reflect.ValueOf(NewString(fmt.Sprintf("%d", this.data))))
 		return nil
 	case JSONBoolType, JSONFloatType, JSONArrayType, JSONDictType, JSONBoolPtrType, JSONFloatPtrType, JSONArrayPtrType, JSONDictPtrType:
 		return ErrTypeMismatch // fmt.Errorf("JSONInt type mismatch %s", val.Type())
@@ -179,14 +172,7 @@ func (this *JSONBool) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Valu
 		json.data = strconv.FormatBool(this.data)
 		return nil
 	case JSONStringPtrType:
-		json := val.Interface().(*JSONString)
-		data := strconv.FormatBool(this.data)
-		if json == nil {
-			json = NewString(data)
-			val.Set(reflect.ValueOf(json))
-		} else {
-			json.data = data
-		}
+		val.Set(reflect.ValueOf(NewString(strconv.FormatBool(this.data))))
 		return nil
 	case JSONIntType, JSONFloatType, JSONArrayType, JSONDictType, JSONIntPtrType, JSONFloatPtrType, JSONArrayPtrType, JSONDictPtrType:
 		return ErrTypeMismatch // fmt.Errorf("JSONBool type mismatch %s", val.Type())
@@ -258,27 +244,14 @@ func (this *JSONFloat) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Val
 		json.data = fmt.Sprintf("%f", this.data)
 		return nil
 	case JSONStringPtrType:
-		json := val.Interface().(*JSONString)
-		data := fmt.Sprintf("%f", this.data)
-		if json == nil {
-			json = NewString(data)
-			val.Set(reflect.ValueOf(json))
-		} else {
-			json.data = data
-		}
+		val.Set(reflect.ValueOf(NewString(fmt.Sprintf("%f", this.data))))
 		return nil
 	case JSONIntType:
 		json := val.Interface().(JSONInt)
 		json.data = int64(this.data)
 		return nil
 	case JSONIntPtrType:
-		json := val.Interface().(*JSONInt)
-		if json == nil {
-			json = NewInt(int64(this.data))
-			val.Set(reflect.ValueOf(json))
-		} else {
-			json.data = int64(this.data)
-		}
+		val.Set(reflect.ValueOf(NewInt(int64(this.data))))
 		return nil
 	case JSONBoolType:
 		json := val.Interface().(JSONBool)
-- 
2.43.0


From 34a125d0669d6e60c1fe32329553270b3a79f60d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:42 +0000
Subject: [PATCH 15/45] fix: unmarshal into a JSONInt, JSONFloat, JSONBool or
 JSONString value stores the value

---
 unmarshal.go | 28 ++++++++++------------------
 1 file changed, 10 insertions(+), 18 deletions(-)

diff --git a/unmarshal.go b/unmarshal.go
index 72c50e2..0a68085 100644
--- a/unmarshal.go
+++ b/unmarshal.go
@@ -98,15 +98,13 @@ func (this *JSONInt) unmarshalValue(s *sJsonUnmarshalSession, val reflect.Value)
 func (this *JSONInt) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Value) error {
 	switch val.Type() {
 	case JSONIntType:
-		json := val.Interface().(JSONInt)
-		json.data = this.data
+		val.Set(reflect.ValueOf(*this))
 		return nil
 	case JSONIntPtrType, JSONObjectType:
 		val.Set(reflect.ValueOf(this))
 		return nil
 	case JSONStringType:
-		json := val.Interface().(JSONString)
-		json.data = fmt.Sprintf("%d", this.data)
+		val.Set(reflect.ValueOf(JSONString{data: fmt.Sprintf("%d", this.data)}))
 		return nil
 	case JSONStringPtrType:
 		val.Set(reflect.ValueOf(NewString(fmt.Sprintf("%d", this.data))))
@@ -161,15 +159,13 @@ func (this *JSONBool) unmarshalValue(s *sJsonUnmarshalSession, val reflect.Value
 func (this *JSONBool) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Value) error {
 	switch val.Type() {
 	case JSONBoolType:
-		json := val.Interface().(JSONBool)
-		json.data = this.data
+		val.Set(reflect.ValueOf(*this))
 		return nil
 	case JSONBoolPtrType, JSONObjectType:
 		val.Set(reflect.ValueOf(this))
 		return nil
 	case JSONStringType:
-		json := val.Interface().(JSONString)
-		json.data = strconv.FormatBool(this.data)
+		val.Set(reflect.ValueOf(JSONString{data: strconv.FormatBool(this.data)}))
 		return nil
 	case JSONStringPtrType:
 		val.Set(reflect.ValueOf(NewString(strconv.FormatBool(this.data))))
@@ -233,29 +229,25 @@ func (this *JSONFloat) unmarshalValue(s *sJsonUnmarshalSession, val reflect.Valu
 func (this *JSONFloat) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Value) error {
 	switch val.Type() {
 	case JSONFloatType:
-		json := val.Interface().(JSONFloat)
-		json.data = this.data
+		val.Set(reflect.ValueOf(*this))
 		return nil
 	case JSONFloatPtrType, JSONObjectType:
 		val.Set(reflect.ValueOf(this))
 		return nil
 	case JSONStringType:
-		json := val.Interface().(JSONString)
-		json.data = fmt.Sprintf("%f", this.data)
+		val.Set(reflect.ValueOf(JSONString{data: fmt.Sprintf("%f", this.data)}))
 		return nil
 	case JSONStringPtrType:
 		val.Set(reflect.ValueOf(NewString(fmt.Sprintf("%f", this.data))))
 		return nil
 	case JSONIntType:
-		json := val.Interface().(JSONInt)
-		json.data = int64(this.data)
+		val.Set(reflect.ValueOf(JSONInt{data: int64(this.data)}))
 		return nil
 	case JSONIntPtrType:
 		val.Set(reflect.ValueOf(NewInt(int64(this.data))))
 		return nil
 	case JSONBoolType:
-		json := val.Interface().(JSONBool)
-		json.data = (int(this.data) != 0)
+		val.Set(reflect.ValueOf(JSONBool{data: (int(this.data) != 0)}))
 		return nil
 	case JSONArrayType, JSONDictType, JSONBoolPtrType, JSONArrayPtrType, JSONDictPtrType:
 		return ErrTypeMismatch // fmt.Errorf("JSONFloat type mismatch %s", val.Type())
@@ -308,8 +300,7 @@ func (this *JSONString) unmarshalValue(s *sJsonUnmarshalSession, val reflect.Val
 func (this *JSONString) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Value) error {
 	switch val.Type() {
 	case JSONStringType:
-		json := val.Interface().(JSONString)
-		json.data = this.data
+		val.Set(reflect.ValueOf(*this))
 		return nil
 	case JSONStringPtrType, JSONObjectType:
 		val.Set(reflect.ValueOf(this))
@@ -335,6 +326,7 @@ func (this *JSONString) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Va
 		default:
 			json.data = false
 		}
+		val.Set(reflect.ValueOf(json))
 		return nil
 	case JSONBoolPtrType:
 		var data bool
-- 
2.43.0


From 99c7b5dcfe11ac7978fa6182bffa5043bc0bd496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:43 +0000
Subject: [PATCH 16/45] fix: marshal a named boolean type without panicking

---
 marshal.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marshal.go b/marshal.go
index 12d6c1e..6679e59 100644
--- a/marshal.go
+++ b/marshal.go
@@ -386,7 +386,7 @@ func (s *sJsonMarshalSession) _marshalValue(objValue reflect.Value, info *reflec
 		strValue := objValue.Convert(gotypes.StringType)
 		return marshalString(strValue.Interface().(string), info, omitEmpty)
 	case reflect.Bool:
-		return marshalBoolean(objValue.Interface().(bool), info, omitEmpty)
+		return marshalBoolean(objValue.Bool(), info, omitEmpty)
 	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64,
 		reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
 		intValue := objValue.Convert(gotypes.Int64Type)
-- 
2.43.0


From 1ef3a2de709667fa85fb36abe03b4fa562b8f059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:44 +0000
Subject: [PATCH 17/45] fix: marshal maps with integer keys under their decimal
 text

---
 marshal.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marshal.go b/marshal.go
index 6679e59..0e24bad 100644
--- a/marshal.go
+++ b/marshal.go
@@ -85,7 +85,7 @@ func (s *sJsonMarshalSession) marshalMap(val reflect.Value, info *reflectutils.S
 		key := keys[i]
 		val := s.marshalValue(val.MapIndex(key), nil, omitEmpty)
 		if val != nil {
-			objPairs = append(objPairs, JSONPair{key: fmt.Sprintf("%s", key), val: val})
+			objPairs = append(objPairs, JSONPair{key: fmt.Sprintf("%v", key), val: val})
 		}
 	}
 	dict := NewDict(objPairs...)
-- 
2.43.0


From d446ae3055aad1d5974a8643e1d8845e29a2b1ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:46 +0000
Subject: [PATCH 18/45] fix: rendering a float does not write to it, so
 concurrent readers do not race

---
 string.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/string.go b/string.go
index dfa791b..cf56025 100644
--- a/string.go
+++ b/string.go
@@ -33,10 +33,11 @@ func (this *JSONInt) String() string {
 }
 
 func (this *JSONFloat) String() string {
-	if this.bit != 32 && this.bit != 64 {
-		this.bit = 64
+	bit := this.bit
+	if bit != 32 && bit != 64 {
+		bit = 64
 	}
-	return strconv.FormatFloat(this.data, 'f', -1, this.bit)
+	return strconv.FormatFloat(this.data, 'f', -1, bit)
 }
 
 func (this *JSONBool) String() string {
-- 
2.43.0


From 53ce275429c37b6a3904d283d98c6d3e3e3085f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:47 +0000
Subject: [PATCH 19/45] fix: marshal terminates when a deprecated field leads
 into a loop of deprecated fields

---
 marshal.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/marshal.go b/marshal.go
index 0e24bad..1e76171 100644
--- a/marshal.go
+++ b/marshal.go
@@ -141,9 +141,10 @@ func (s *sJsonMarshalSession) struct2JSONPairs(val reflect.Value, omitEmpty bool
 	depPairs := make([]JSONPair, 0, len(depFields))
 	for depKey, key := range depFields {
 		findLoop := false
-		for {
+		// the loop need not pass through depKey itself
+		for steps := 0; ; steps++ {
 			if okey, ok := depFields[key]; ok {
-				if okey == depKey {
+				if okey == depKey || steps >= len(depFields) {
 					// loop detected
 					findLoop = true
 					break
-- 
2.43.0


From 4034bc6e2adcaf8d5c6ba769397fc469225d9403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:13 +0000
Subject: [PATCH 20/45] fix: a reference unmarshaled before its object resolves
 to the object, not to a pointer to it

---
 unmarshal.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/unmarshal.go b/unmarshal.go
index 0a68085..09dbc93 100644
--- a/unmarshal.go
+++ b/unmarshal.go
@@ -472,7 +472,8 @@ func (this *JSONArray) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Val
 }
 
 func (this *JSONDict) unmarshalValue(s *sJsonUnmarshalSession, val reflect.Value) error {
-	if this.nodeId > 0 && val.CanAddr() {
+	// a pointer is not the node, the value it points to is
+	if this.nodeId > 0 && val.CanAddr() && val.Kind() != reflect.Ptr {
 		s.saveNodeValue(this.nodeId, val.Addr())
 	}
 	return tryStdUnmarshal(s, this, val, this._unmarshalValue)
-- 
2.43.0


From 27d52f9cc7fa88b12300b974656ead9fd8aafed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:15 +0000
Subject: [PATCH 21/45] fix: a reference into a target of another type is a
 type mismatch, not a panic

---
 unmarshal.go         |  5 ++++-
 unmarshal_session.go | 18 ++++++++++++++----
 2 files changed, 18 insertions(+), 5 deletions(-)

diff --git a/unmarshal.go b/unmarshal.go
index 09dbc93..8b3a4c7 100644
--- a/unmarshal.go
+++ b/unmarshal.go
@@ -474,7 +474,10 @@ func (this *JSONArray) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Val
 func (this *JSONDict) unmarshalValue(s *sJsonUnmarshalSession, val reflect.Value) error {
 	// a pointer is not the node, the value it points to is
 	if this.nodeId > 0 && val.CanAddr() && val.Kind() != reflect.Ptr {
-		s.saveNodeValue(this.nodeId, val.Addr())
+		err := s.saveNodeValue(this.nodeId, val.Addr())
+		if err != nil {
+			return errors.Wrap(err, "saveNodeValue")
+		}
 	}
 	return tryStdUnmarshal(s, this, val, this._unmarshalValue)
 }
diff --git a/unmarshal_session.go b/unmarshal_session.go
index 1b5d89c..f588126 100644
--- a/unmarshal_session.go
+++ b/unmarshal_session.go
@@ -16,6 +16,8 @@ package jsonutils
 
 import (
 	"reflect"
+
+	"yunion.io/x/pkg/errors"
 )
 
 type sJsonNodeValues struct {
@@ -34,7 +36,7 @@ func newJsonUnmarshalSession() *sJsonUnmarshalSession {
 	}
 }
 
-func (s *sJsonUnmarshalSession) saveNodeValue(nodeId int, val reflect.Value) {
+func (s *sJsonUnmarshalSession) saveNodeValue(nodeId int, val reflect.Value) error {
 	if nv, ok := s.objectMap[nodeId]; !ok {
 		s.objectMap[nodeId] = &sJsonNodeValues{
 			nodeValue:    val,
@@ -43,15 +45,23 @@ func (s *sJsonUnmarshalSession) saveNodeValue(nodeId int, val reflect.Value) {
 	} else {
 		nv.nodeValue = val
 		nv.nodeValueSet = true
-		for i := range nv.targetValues {
-			nv.targetValues[i].Set(val)
-		}
+		targets := nv.targetValues
 		nv.targetValues = nil
+		for i := range targets {
+			if !val.Type().AssignableTo(targets[i].Type()) {
+				return errors.Wrapf(ErrTypeMismatch, "reference to %s vs. %s", val.Type(), targets[i].Type())
+			}
+			targets[i].Set(val)
+		}
 	}
+	return nil
 }
 
 func (s *sJsonUnmarshalSession) setPointerValue(nodeId int, val reflect.Value) error {
 	if nv, ok := s.objectMap[nodeId]; ok && nv.nodeValueSet {
+		if !nv.nodeValue.Type().AssignableTo(val.Type()) {
+			return errors.Wrapf(ErrTypeMismatch, "reference to %s vs. %s", nv.nodeValue.Type(), val.Type())
+		}
 		val.Set(nv.nodeValue)
 	} else if ok && !nv.nodeValueSet {
 		nv.targetValues = append(nv.targetValues, val)
-- 
2.43.0


From a55c3cbf7005fb2244f5c5806d16d39e559958c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:16 +0000
Subject: [PATCH 22/45] fix: a document holding references equals itself

---
 jsonpointer.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/jsonpointer.go b/jsonpointer.go
index b525c7c..e2b39dd 100644
--- a/jsonpointer.go
+++ b/jsonpointer.go
@@ -164,7 +164,9 @@ func (ptr *sJSONPointer) Unmarshal(obj interface{}, keys ...string) error {
 }
 
 func (ptr *sJSONPointer) Equals(obj JSONObject) bool {
-	return ptr.getNode().Equals(obj)
+	// following the reference would not terminate on a loop
+	ptr2, ok := obj.(*sJSONPointer)
+	return ok && ptr.nodeId == ptr2.nodeId
 }
 
 func (ptr *sJSONPointer) Interface() interface{} {
-- 
2.43.0


From 23c023fe2f2a60f8c244e99dfede1913e22dca53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:17 +0000
Subject: [PATCH 23/45] fix: a query string array keeps elements of different
 depth

---
 stringsegment.go | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/stringsegment.go b/stringsegment.go
index 78edf2b..42b5927 100644
--- a/stringsegment.go
+++ b/stringsegment.go
@@ -94,12 +94,8 @@ type sStringSegments [][]sTextNumber
 func (ss sStringSegments) Len() int      { return len(ss) }
 func (ss sStringSegments) Swap(i, j int) { ss[i], ss[j] = ss[j], ss[i] }
 func (ss sStringSegments) Less(i, j int) bool {
-	if len(ss[i]) < len(ss[j]) {
-		return true
-	} else if len(ss[i]) > len(ss[j]) {
-		return false
-	}
-	for ii := range ss[i] {
+	// elements of an array must come in order of their index, however deep they are
+	for ii := 0; ii < len(ss[i]) && ii < len(ss[j]); ii++ {
 		ret := ss[i][ii].compare(ss[j][ii])
 		if ret < 0 {
 			return true
@@ -107,7 +103,7 @@ func (ss sStringSegments) Less(i, j int) bool {
 			return false
 		}
 	}
-	return false
+	return len(ss[i]) < len(ss[j])
 }
 
 func strings2stringSegments(strs []string) sStringSegments {
-- 
2.43.0


From 7cc34f1d90f5fe92171df01d3f53414e2d85ca46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:19 +0000
Subject: [PATCH 24/45] fix: query string keys with leading zeros or a plus
 sign are names

---
 stringsegment.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/stringsegment.go b/stringsegment.go
index 42b5927..dbc77e8 100644
--- a/stringsegment.go
+++ b/stringsegment.go
@@ -65,7 +65,8 @@ func (tn sTextNumber) String() string {
 
 func string2TextNumber(str string) sTextNumber {
 	num, err := strconv.ParseInt(str, 10, 64)
-	if err != nil {
+	if err != nil || strconv.FormatInt(num, 10) != str {
+		// 007 or +7 is a name, its text must survive
 		return sTextNumber{text: str, isNumber: false}
 	} else {
 		return sTextNumber{number: num, isNumber: true}
-- 
2.43.0


From 5edad748f1c4bcd4187d1a8c44fbe3b861e453b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:51 +0000
Subject: [PATCH 25/45] fix: deep copy keeps references and node ids

---
 clone.go | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/clone.go b/clone.go
index f92cfc3..914d14e 100644
--- a/clone.go
+++ b/clone.go
@@ -82,6 +82,24 @@ func (this *JSONDict) DeepCopy() interface{} {
 }
 
 func DeepCopy(obj JSONObject) JSONObject {
+	s := &sDeepCopySession{
+		dicts: make(map[JSONObject]*JSONDict),
+	}
+	ret := s.deepCopy(obj)
+	for _, ptr := range s.pointers {
+		if dict, ok := s.dicts[ptr.node]; ok {
+			ptr.node = dict
+		}
+	}
+	return ret
+}
+
+type sDeepCopySession struct {
+	dicts    map[JSONObject]*JSONDict
+	pointers []*sJSONPointer
+}
+
+func (s *sDeepCopySession) deepCopy(obj JSONObject) JSONObject {
 	if obj == nil || reflect.ValueOf(obj).IsNil() {
 		return nil
 	}
@@ -102,22 +120,28 @@ func DeepCopy(obj JSONObject) JSONObject {
 		elemsC := make([]JSONObject, v.Length())
 		for i := 0; i < v.Length(); i++ {
 			elem, _ := v.GetAt(i)
-			elemC := DeepCopy(elem)
+			elemC := s.deepCopy(elem)
 			elemsC[i] = elemC
 		}
 		vc := NewArray(elemsC...)
 		return vc
 	case *JSONDict:
 		vc := NewDict()
+		vc.nodeId = v.nodeId
+		s.dicts[v] = vc
 		m, _ := v.GetMap()
 		for mk, mv := range m {
-			mvc := DeepCopy(mv)
+			mvc := s.deepCopy(mv)
 			vc.Set(mk, mvc)
 		}
 		return vc
 	case *JSONValue:
 		vc := *v
 		return &vc
+	case *sJSONPointer:
+		vc := *v
+		s.pointers = append(s.pointers, &vc)
+		return &vc
 	}
 	return nil
 }
-- 
2.43.0


From 5fbfacf88c39e79961a8c3adf33d75293a36ba80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:53 +0000
Subject: [PATCH 26/45] fix: copying an object keeps its node id

---
 clone.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/clone.go b/clone.go
index 914d14e..a2cf2bf 100644
--- a/clone.go
+++ b/clone.go
@@ -27,6 +27,7 @@ func (this *JSONDict) Copy(excludes ...string) *JSONDict {
 
 func (this *JSONDict) CopyExcludes(excludes ...string) *JSONDict {
 	dict := NewDict()
+	dict.nodeId = this.nodeId
 	for iter := sortedmap.NewIterator(this.data); iter.HasMore(); iter.Next() {
 		k, v := iter.Get()
 		exists, _ := utils.InStringArray(k, excludes)
@@ -39,6 +40,7 @@ func (this *JSONDict) CopyExcludes(excludes ...string) *JSONDict {
 
 func (this *JSONDict) CopyIncludes(includes ...string) *JSONDict {
 	dict := NewDict()
+	dict.nodeId = this.nodeId
 	for iter := sortedmap.NewIterator(this.data); iter.HasMore(); iter.Next() {
 		k, v := iter.Get()
 		exists, _ := utils.InStringArray(k, includes)
-- 
2.43.0


From eba08f7a8eb96f0afc7086e23e1320ecc941e9cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:05 +0000
Subject: [PATCH 27/45] fix: marshal never emits a reference ahead of the
 object it refers to

---
 marshal.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/marshal.go b/marshal.go
index 1e76171..0e26218 100644
--- a/marshal.go
+++ b/marshal.go
@@ -120,6 +120,10 @@ func findValueByKey(pairs []JSONPair, key string) JSONObject {
 
 func (s *sJsonMarshalSession) struct2JSONPairs(val reflect.Value, omitEmpty bool) []JSONPair {
 	fields := reflectutils.FetchStructFieldValueSet(val)
+	// visit in the order of the rendered text, so that no reference comes before its object
+	sort.SliceStable(fields, func(i, j int) bool {
+		return fields[i].Info.MarshalName() < fields[j].Info.MarshalName()
+	})
 	objPairs := make([]JSONPair, 0, len(fields))
 	depFields := make(map[string]string)
 	for i := 0; i < len(fields); i += 1 {
-- 
2.43.0


From 9d6d02dca068b01076a399912c81e1c1676cd94d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:59 +0000
Subject: [PATCH 28/45] fix: YAML rendering of control characters and unusual
 line breaks is not empty

---
 yamlutils.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/yamlutils.go b/yamlutils.go
index 19d3e58..71ac9aa 100644
--- a/yamlutils.go
+++ b/yamlutils.go
@@ -14,7 +14,15 @@
 
 package jsonutils
 
-import "github.com/ghodss/yaml"
+import (
+	"fmt"
+	"regexp"
+
+	"github.com/ghodss/yaml"
+)
+
+// characters legal in JSON strings that YAML either forbids or reads as line breaks
+var yamlEscapeReg = regexp.MustCompile("[\u007f-\u009f\u2028\u2029\ufffe\uffff]")
 
 func ParseYAML(str string) (JSONObject, error) {
 	jsonBytes, err := yaml.YAMLToJSON([]byte(str))
@@ -25,7 +33,10 @@ func ParseYAML(str string) (JSONObject, error) {
 }
 
 func yamlString(obj JSONObject) string {
-	yamlBytes, _ := yaml.JSONToYAML([]byte(obj.String()))
+	jsonStr := yamlEscapeReg.ReplaceAllStringFunc(obj.String(), func(ch string) string {
+		return fmt.Sprintf("\\u%04x", []rune(ch)[0])
+	})
+	yamlBytes, _ := yaml.JSONToYAML([]byte(jsonStr))
 	return string(yamlBytes)
 }
 
-- 
2.43.0


From 106294046fad33708ff0f2f2677fe0758625b928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:45 +0000
Subject: [PATCH 29/45] fix: an object is no integer, float or boolean, asking
 for one does not recurse forever

---
 access.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/access.go b/access.go
index 7d687d3..4db6cc6 100644
--- a/access.go
+++ b/access.go
@@ -384,6 +384,9 @@ func (this *JSONDict) Int(keys ...string) (int64, error) {
 	if err != nil {
 		return 0, errors.Wrap(err, "Get")
 	}
+	if _, ok := obj.(*JSONDict); ok {
+		return 0, ErrInvalidJsonInt
+	}
 	return obj.Int()
 	/* jint, ok := obj.(*JSONInt)
 	   if ! ok {
@@ -430,6 +433,9 @@ func (this *JSONDict) Float(keys ...string) (float64, error) {
 	if err != nil {
 		return 0, errors.Wrap(err, "Get")
 	}
+	if _, ok := obj.(*JSONDict); ok {
+		return 0, ErrInvalidJsonFloat
+	}
 	return obj.Float()
 	/* jfloat, ok := obj.(*JSONFloat)
 	   if ! ok {
@@ -470,6 +476,9 @@ func (this *JSONDict) Bool(keys ...string) (bool, error) {
 	if err != nil {
 		return false, errors.Wrap(err, "Get")
 	}
+	if _, ok := obj.(*JSONDict); ok {
+		return false, ErrInvalidJsonBoolean
+	}
 	return obj.Bool()
 	/* jbool, ok := obj.(*JSONBool)
 	   if ! ok {
-- 
2.43.0


From a4ee520e27b8077615a6bfa286a6937c3c50e65b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:25 +0000
Subject: [PATCH 30/45] fix: a number that does not fit its target is an error,
 not stored truncated

---
 unmarshal.go | 48 ++++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 40 insertions(+), 8 deletions(-)

diff --git a/unmarshal.go b/unmarshal.go
index 8b3a4c7..6e7a4ef 100644
--- a/unmarshal.go
+++ b/unmarshal.go
@@ -91,6 +91,32 @@ func (this *JSONValue) unmarshalValue(s *sJsonUnmarshalSession, val reflect.Valu
 	return nil
 }
 
+// setInt, setUint and setFloat refuse a number that val cannot hold, rather than store another one
+
+func setInt(val reflect.Value, data int64) error {
+	if val.OverflowInt(data) {
+		return errors.Wrapf(ErrTypeMismatch, "%d does not fit %s", data, val.Type())
+	}
+	val.SetInt(data)
+	return nil
+}
+
+func setUint(val reflect.Value, data uint64) error {
+	if val.OverflowUint(data) {
+		return errors.Wrapf(ErrTypeMismatch, "%d does not fit %s", data, val.Type())
+	}
+	val.SetUint(data)
+	return nil
+}
+
+func setFloat(val reflect.Value, data float64) error {
+	if val.OverflowFloat(data) {
+		return errors.Wrapf(ErrTypeMismatch, "%v does not fit %s", data, val.Type())
+	}
+	val.SetFloat(data)
+	return nil
+}
+
 func (this *JSONInt) unmarshalValue(s *sJsonUnmarshalSession, val reflect.Value) error {
 	return tryStdUnmarshal(s, this, val, this._unmarshalValue)
 }
@@ -122,10 +148,10 @@ func (this *JSONInt) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Value
 	switch val.Kind() {
 	case reflect.Int, reflect.Int8, reflect.Int16,
 		reflect.Int32, reflect.Int64:
-		val.SetInt(this.data)
+		return setInt(val, this.data)
 	case reflect.Uint, reflect.Uint8, reflect.Uint16,
 		reflect.Uint32, reflect.Uint64:
-		val.SetUint(uint64(this.data))
+		return setUint(val, uint64(this.data))
 	case reflect.Float32, reflect.Float64:
 		val.SetFloat(float64(this.data))
 	case reflect.Bool:
@@ -261,11 +287,17 @@ func (this *JSONFloat) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Val
 	}
 	switch val.Kind() {
 	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
-		val.SetInt(int64(this.data))
+		if !(this.data >= -(1<<63) && this.data < 1<<63) {
+			return errors.Wrapf(ErrTypeMismatch, "%v does not fit %s", this.data, val.Type())
+		}
+		return setInt(val, int64(this.data))
 	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
-		val.SetUint(uint64(this.data))
+		if !(this.data > -1 && this.data < 1<<64) {
+			return errors.Wrapf(ErrTypeMismatch, "%v does not fit %s", this.data, val.Type())
+		}
+		return setUint(val, uint64(this.data))
 	case reflect.Float32, reflect.Float64:
-		val.SetFloat(this.data)
+		return setFloat(val, this.data)
 	case reflect.Bool:
 		if this.data == 0 {
 			val.SetBool(false)
@@ -360,7 +392,7 @@ func (this *JSONString) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Va
 			if err != nil {
 				return err
 			}
-			val.SetInt(intVal)
+			return setInt(val, intVal)
 		}
 	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
 		if len(this.data) > 0 {
@@ -368,7 +400,7 @@ func (this *JSONString) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Va
 			if err != nil {
 				return err
 			}
-			val.SetUint(intVal)
+			return setUint(val, intVal)
 		}
 	case reflect.Float32, reflect.Float64:
 		if len(this.data) > 0 {
@@ -376,7 +408,7 @@ func (this *JSONString) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Va
 			if err != nil {
 				return err
 			}
-			val.SetFloat(floatVal)
+			return setFloat(val, floatVal)
 		}
 	case reflect.Bool:
 		val.SetBool(utils.ToBool(this.data))
-- 
2.43.0


From c1c16c9724a345e9ec112c95110e5a580cb2a9fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:18 +0000
Subject: [PATCH 31/45] fix: unmarshal an array or object behind a pointer to a
 pointer instead of failing

---
 unmarshal.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/unmarshal.go b/unmarshal.go
index 6e7a4ef..44c88d7 100644
--- a/unmarshal.go
+++ b/unmarshal.go
@@ -465,7 +465,7 @@ func (this *JSONArray) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Val
 		return nil
 	case reflect.Ptr:
 		kind := val.Type().Elem().Kind()
-		if kind == reflect.Array || kind == reflect.Slice {
+		if kind == reflect.Array || kind == reflect.Slice || kind == reflect.Ptr {
 			if val.IsNil() {
 				val.Set(reflect.New(val.Type().Elem()))
 			}
@@ -565,7 +565,7 @@ func (this *JSONDict) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Valu
 		}
 	case reflect.Ptr:
 		kind := val.Type().Elem().Kind()
-		if kind == reflect.Struct || kind == reflect.Map {
+		if kind == reflect.Struct || kind == reflect.Map || kind == reflect.Ptr {
 			if val.IsNil() {
 				newVal := reflect.New(val.Type().Elem())
 				val.Set(newVal)
-- 
2.43.0


From af24b7f78bdb2f3a001e70ed4062c51d18ea21f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:19 +0000
Subject: [PATCH 32/45] fix: an unsigned integer marshaled as a string keeps
 its value

---
 marshal.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/marshal.go b/marshal.go
index 0e26218..63ccf14 100644
--- a/marshal.go
+++ b/marshal.go
@@ -23,8 +23,10 @@ Convert any object to JSONObject
 
 import (
 	"fmt"
+	"math"
 	"reflect"
 	"sort"
+	"strconv"
 	"time"
 
 	"yunion.io/x/log"
@@ -392,8 +394,14 @@ func (s *sJsonMarshalSession) _marshalValue(objValue reflect.Value, info *reflec
 		return marshalString(strValue.Interface().(string), info, omitEmpty)
 	case reflect.Bool:
 		return marshalBoolean(objValue.Bool(), info, omitEmpty)
+	case reflect.Uint64, reflect.Uint:
+		if data := objValue.Uint(); data > math.MaxInt64 && info != nil && info.ForceString {
+			// the text is not bound to the range of a signed integer
+			return NewString(strconv.FormatUint(data, 10))
+		}
+		fallthrough
 	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64,
-		reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
+		reflect.Uint8, reflect.Uint16, reflect.Uint32:
 		intValue := objValue.Convert(gotypes.Int64Type)
 		return marshalInt64(intValue.Interface().(int64), info, omitEmpty)
 	case reflect.Float32:
-- 
2.43.0


From dbcacbbb181ff0bee2ed04f0b06cc8bdf394b8a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:34 +0000
Subject: [PATCH 33/45] fix: a loop through a pointer to a slice or to a
 pointer is referred to by an object on it

---
 json_pointer_trace.go | 33 ++++++++++++++++++++++++++-------
 jsonpointer.go        | 12 +++++++++++-
 2 files changed, 37 insertions(+), 8 deletions(-)

diff --git a/json_pointer_trace.go b/json_pointer_trace.go
index 465cf11..d4b418c 100644
--- a/json_pointer_trace.go
+++ b/json_pointer_trace.go
@@ -16,13 +16,16 @@ package jsonutils
 
 import (
 	"fmt"
+	"reflect"
 	"strings"
 )
 
 type sJsonPointerNode struct {
-	pointer *sJSONPointer
-	inf     interface{}
-	refcnt  int
+	// isObject tells whether it points to an object, which can carry a node id
+	isObject bool
+	pointer  *sJSONPointer
+	inf      interface{}
+	refcnt   int
 }
 
 func (n *sJsonPointerNode) String() string {
@@ -41,9 +44,10 @@ func newJsonPointerTrace() *sJsonPointerTrace {
 
 func (t *sJsonPointerTrace) push(inf interface{}, ptr *sJSONPointer) *sJsonPointerNode {
 	node := &sJsonPointerNode{
-		pointer: ptr,
-		inf:     inf,
-		refcnt:  1,
+		isObject: pointsToObject(inf),
+		pointer:  ptr,
+		inf:      inf,
+		refcnt:   1,
 	}
 	t.trace = append(t.trace, node)
 	// log.Debugf("push: %s", t.String())
@@ -53,7 +57,7 @@ func (t *sJsonPointerTrace) push(inf interface{}, ptr *sJSONPointer) *sJsonPoint
 func (t *sJsonPointerTrace) find(inf interface{}) *sJsonPointerNode {
 	var ret *sJsonPointerNode
 	for i := range t.trace {
-		if t.trace[i].inf == inf {
+		if t.trace[i].inf == inf && (t.trace[i].isObject || !t.hasObjectAfter(i)) {
 			ret = t.trace[i]
 		}
 		if ret != nil {
@@ -63,6 +67,21 @@ func (t *sJsonPointerTrace) find(inf interface{}) *sJsonPointerNode {
 	return ret
 }
 
+// hasObjectAfter tells whether an object that the loop can refer to follows node i
+func (t *sJsonPointerTrace) hasObjectAfter(i int) bool {
+	for _, n := range t.trace[i+1:] {
+		if n.isObject {
+			return true
+		}
+	}
+	return false
+}
+
+func pointsToObject(inf interface{}) bool {
+	kind := reflect.TypeOf(inf).Elem().Kind()
+	return kind == reflect.Struct || kind == reflect.Map
+}
+
 func (t *sJsonPointerTrace) pop() {
 	if len(t.trace) > 0 && t.trace[len(t.trace)-1].refcnt == 1 {
 		t.trace = t.trace[0 : len(t.trace)-1]
diff --git a/jsonpointer.go b/jsonpointer.go
index e2b39dd..24d7da1 100644
--- a/jsonpointer.go
+++ b/jsonpointer.go
@@ -37,7 +37,10 @@ func (s *sJsonMarshalSession) newJsonPointer(inf interface{}) *sJSONPointer {
 	jsonPtr := &sJSONPointer{
 		nodeId: s.nodeIndex,
 	}
-	s.nodeMap[s.nodeIndex] = s.objectTrace.push(inf, jsonPtr)
+	node := s.objectTrace.push(inf, jsonPtr)
+	if node.isObject {
+		s.nodeMap[s.nodeIndex] = node
+	}
 	return jsonPtr
 }
 
@@ -73,6 +76,13 @@ func (dict *JSONDict) setNodeId(nodeId int) {
 }
 
 func (ptr *sJSONPointer) unmarshalValue(s *sJsonUnmarshalSession, val reflect.Value) error {
+	for val.Kind() == reflect.Ptr && val.Type().Elem().Kind() == reflect.Ptr {
+		// the reference is for the innermost pointer
+		if val.IsNil() {
+			val.Set(reflect.New(val.Type().Elem()))
+		}
+		val = val.Elem()
+	}
 	return s.setPointerValue(ptr.nodeId, val)
 }
 
-- 
2.43.0


From 120c1aecd646aa84c476287961b104f37fb8075d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:40 +0000
Subject: [PATCH 34/45] fix: query parameters that disagree about their place
 are an error, not dropped or misplaced

---
 querystring.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/querystring.go b/querystring.go
index faded21..1e0b7ea 100644
--- a/querystring.go
+++ b/querystring.go
@@ -27,6 +27,9 @@ import (
 
 func addQueryStringSeg(body JSONObject, segs []sTextNumber, val []string) (JSONObject, error) {
 	if len(segs) == 0 {
+		if body != nil {
+			return nil, errors.Wrapf(ErrTypeMismatch, "%s already set", body)
+		}
 		if len(val) == 1 {
 			return NewString(val[0]), nil
 		} else if len(val) > 1 {
@@ -55,10 +58,16 @@ func addQueryStringSeg(body JSONObject, segs []sTextNumber, val []string) (JSONO
 			if err != nil {
 				return nil, errors.Wrapf(err, "get jsondict %s with %s fail", body, key)
 			}
-			addQueryStringSeg(next, segs[1:], val)
+			_, err = addQueryStringSeg(next, segs[1:], val)
+			if err != nil {
+				return nil, errors.Wrapf(err, "addQueryStringSeg %s with %s fail", body, key)
+			}
 		}
 		return jbody, nil
 	case *JSONArray:
+		if !segs[0].isNumber {
+			return nil, errors.Wrapf(ErrTypeMismatch, "invalid array index %s", segs[0])
+		}
 		index := segs[0].number
 		arrSize := int64(jbody.Size())
 		if index < arrSize {
@@ -66,7 +75,10 @@ func addQueryStringSeg(body JSONObject, segs []sTextNumber, val []string) (JSONO
 			if err != nil {
 				return nil, errors.Wrapf(err, "get jsonarray %s at %d fail", body, index)
 			}
-			addQueryStringSeg(next, segs[1:], val)
+			_, err = addQueryStringSeg(next, segs[1:], val)
+			if err != nil {
+				return nil, errors.Wrapf(err, "addQueryStringSeg %s at %d fail", body, index)
+			}
 		} else if arrSize == index {
 			// new
 			next, err := addQueryStringSeg(nil, segs[1:], val)
-- 
2.43.0


From 48e7702b15a2fa6cb19b299cbfcfd3187eb0d68d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:02 +0000
Subject: [PATCH 35/45] fix: an embedded unexported struct with an
 AfterUnmarshal method no longer panics unmarshal

---
 unmarshal.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/unmarshal.go b/unmarshal.go
index 44c88d7..3a165c8 100644
--- a/unmarshal.go
+++ b/unmarshal.go
@@ -677,7 +677,8 @@ func callStructAfterUnmarshal(val reflect.Value) {
 		}
 		valPtr := val.Addr()
 		afterMarshalFunc := valPtr.MethodByName("AfterUnmarshal")
-		if afterMarshalFunc.IsValid() && !afterMarshalFunc.IsNil() {
+		// fields of an unexported embedded struct are not set, and its methods cannot be called
+		if afterMarshalFunc.IsValid() && afterMarshalFunc.CanInterface() && !afterMarshalFunc.IsNil() {
 			afterMarshalFunc.Call([]reflect.Value{})
 		}
 	case reflect.Ptr:
-- 
2.43.0


From cf797261a22913df92cd75da8516b22b2db60f5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:22 +0000
Subject: [PATCH 36/45] fix: an object for an interface registered without a
 concrete type, or with one that does not implement it, no longer panics

---
 unmarshal.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/unmarshal.go b/unmarshal.go
index 3a165c8..b5d5f90 100644
--- a/unmarshal.go
+++ b/unmarshal.go
@@ -543,9 +543,15 @@ func (this *JSONDict) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Valu
 				return err
 			}
 			if objPtr == nil {
-				val.Set(reflect.ValueOf(this.data)) // ???
+				if !reflect.TypeOf(this).Implements(val.Type()) {
+					return errors.Wrapf(ErrTypeMismatch, "JSONDict vs. %s", val.Type())
+				}
+				val.Set(reflect.ValueOf(this))
 				return nil
 			}
+			if !reflect.TypeOf(objPtr).Implements(val.Type()) {
+				return errors.Wrapf(ErrTypeMismatch, "%T vs. %s", objPtr, val.Type())
+			}
 			err = this.unmarshalValue(s, reflect.ValueOf(objPtr))
 			if err != nil {
 				return errors.Wrap(err, "unmarshalValue")
-- 
2.43.0


From 20c3c905cbcf32d40299108e3e9d6d9154009210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:11 +0000
Subject: [PATCH 37/45] fix: a registered allocator may return a value or a nil
 pointer without unmarshal panicking

---
 reflect.go   | 20 +++++++++++++++++++-
 unmarshal.go |  5 +++--
 2 files changed, 22 insertions(+), 3 deletions(-)

diff --git a/reflect.go b/reflect.go
index db73dd7..f6924ba 100644
--- a/reflect.go
+++ b/reflect.go
@@ -77,10 +77,28 @@ func JSONDeserialize(objType reflect.Type, strVal string) (gotypes.ISerializable
 	if objPtr == nil {
 		return json, nil
 	}
-	err = json.Unmarshal(objPtr)
+	objVal := serializableValue(objPtr)
+	if objVal.CanAddr() {
+		err = json.Unmarshal(objVal.Addr().Interface())
+	} else {
+		err = json.Unmarshal(objPtr)
+	}
 	if err != nil {
 		return nil, errors.Wrap(err, "json.Unmarshal")
 	}
+	objPtr = objVal.Interface().(gotypes.ISerializable)
 	objPtr = gotypes.Transform(objType, objPtr)
 	return objPtr, nil
 }
+
+// serializableValue is the value of a newly allocated object as unmarshal takes it: one that is
+// neither a pointer nor a map, or is nil, is moved to a variable, as it cannot be set where it is
+func serializableValue(obj gotypes.ISerializable) reflect.Value {
+	val := reflect.ValueOf(obj)
+	if (val.Kind() == reflect.Ptr || val.Kind() == reflect.Map) && !val.IsNil() {
+		return val
+	}
+	newVal := reflect.New(val.Type()).Elem()
+	newVal.Set(val)
+	return newVal
+}
diff --git a/unmarshal.go b/unmarshal.go
index b5d5f90..0e50972 100644
--- a/unmarshal.go
+++ b/unmarshal.go
@@ -552,7 +552,8 @@ func (this *JSONDict) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Valu
 			if !reflect.TypeOf(objPtr).Implements(val.Type()) {
 				return errors.Wrapf(ErrTypeMismatch, "%T vs. %s", objPtr, val.Type())
 			}
-			err = this.unmarshalValue(s, reflect.ValueOf(objPtr))
+			objVal := serializableValue(objPtr)
+			err = this.unmarshalValue(s, objVal)
 			if err != nil {
 				return errors.Wrap(err, "unmarshalValue")
 			}
@@ -565,7 +566,7 @@ func (this *JSONDict) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Valu
 			// ...
 			// objPtr = gotypes.Transform(val.Type(), objPtr)
 			//
-			val.Set(reflect.ValueOf(objPtr).Convert(val.Type()))
+			val.Set(objVal.Convert(val.Type()))
 		} else {
 			return errors.Wrapf(ErrInterfaceUnsupported, "JSONDict.unmarshalValue: %s", val.Type())
 		}
-- 
2.43.0


From 90763f8a26bd338d600b164fd8d8f2bbf47e3495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:32 +0000
Subject: [PATCH 38/45] fix: an empty parsed array unmarshaled into an
 interface is an empty slice, not a nil one that marshals as null

---
 unmarshal.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unmarshal.go b/unmarshal.go
index 0e50972..edf1c53 100644
--- a/unmarshal.go
+++ b/unmarshal.go
@@ -476,7 +476,7 @@ func (this *JSONArray) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Val
 		if val.NumMethod() > 0 {
 			return errors.Wrapf(ErrTypeMismatch, "JSONArray vs. %s", val.Type())
 		}
-		val.Set(reflect.ValueOf(this.data))
+		val.Set(reflect.ValueOf(append([]JSONObject{}, this.data...)))
 	case reflect.Slice, reflect.Array:
 		if val.Kind() == reflect.Array {
 			if val.Len() != len(this.data) {
-- 
2.43.0


From 68a6eb8a5ec871bdadd3ede4c2eb0d5f6ef88d14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:09 +0000
Subject: [PATCH 39/45] fix: map entries are visited in the order of their
 keys' texts also when the keys are not strings, so that marshalling a graph
 always gives the same document

---
 marshal.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/marshal.go b/marshal.go
index 63ccf14..52f0268 100644
--- a/marshal.go
+++ b/marshal.go
@@ -66,7 +66,12 @@ type tMapKeys []reflect.Value
 
 func (a tMapKeys) Len() int           { return len(a) }
 func (a tMapKeys) Swap(i, j int)      { a[i], a[j] = a[j], a[i] }
-func (a tMapKeys) Less(i, j int) bool { return a[i].String() < a[j].String() }
+func (a tMapKeys) Less(i, j int) bool { return mapKeyText(a[i]) < mapKeyText(a[j]) }
+
+// mapKeyText is what a map key, of whatever type, is marshalled as
+func mapKeyText(key reflect.Value) string {
+	return fmt.Sprintf("%v", key)
+}
 
 func (s *sJsonMarshalSession) marshalMap(val reflect.Value, info *reflectutils.SStructFieldInfo, omitEmpty bool) JSONObject {
 	if val.IsNil() {
@@ -87,7 +92,7 @@ func (s *sJsonMarshalSession) marshalMap(val reflect.Value, info *reflectutils.S
 		key := keys[i]
 		val := s.marshalValue(val.MapIndex(key), nil, omitEmpty)
 		if val != nil {
-			objPairs = append(objPairs, JSONPair{key: fmt.Sprintf("%v", key), val: val})
+			objPairs = append(objPairs, JSONPair{key: mapKeyText(key), val: val})
 		}
 	}
 	dict := NewDict(objPairs...)
-- 
2.43.0


From 223f0b52d78f00238f17530f52206090dd5208b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:37 +0000
Subject: [PATCH 40/45] fix: YAML rendering of objects with keys of more than a
 thousand characters

---
 yamlutils.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/yamlutils.go b/yamlutils.go
index 71ac9aa..c433fbc 100644
--- a/yamlutils.go
+++ b/yamlutils.go
@@ -17,6 +17,7 @@ package jsonutils
 import (
 	"fmt"
 	"regexp"
+	"strings"
 
 	"github.com/ghodss/yaml"
 )
@@ -24,6 +25,12 @@ import (
 // characters legal in JSON strings that YAML either forbids or reads as line breaks
 var yamlEscapeReg = regexp.MustCompile("[\u007f-\u009f\u2028\u2029\ufffe\uffff]")
 
+// strings in compact JSON text, keys with their colon
+var yamlStringReg = regexp.MustCompile(`"(\\.|[^"\\])*":?`)
+
+// a longer key is a key to YAML only if a question mark announces it
+const yamlMaxKeyLength = 1000
+
 func ParseYAML(str string) (JSONObject, error) {
 	jsonBytes, err := yaml.YAMLToJSON([]byte(str))
 	if err != nil {
@@ -36,6 +43,12 @@ func yamlString(obj JSONObject) string {
 	jsonStr := yamlEscapeReg.ReplaceAllStringFunc(obj.String(), func(ch string) string {
 		return fmt.Sprintf("\\u%04x", []rune(ch)[0])
 	})
+	jsonStr = yamlStringReg.ReplaceAllStringFunc(jsonStr, func(str string) string {
+		if len(str) > yamlMaxKeyLength && strings.HasSuffix(str, ":") {
+			return "? " + str
+		}
+		return str
+	})
 	yamlBytes, _ := yaml.JSONToYAML([]byte(jsonStr))
 	return string(yamlBytes)
 }
-- 
2.43.0


From fc3140837422d006554efe2864fbcfce50b114a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:59 +0000
Subject: [PATCH 41/45] fix: the largest single-precision float, written in its
 shortest digits, is a little beyond it and was refused when read back

---
 unmarshal.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/unmarshal.go b/unmarshal.go
index edf1c53..b090ce6 100644
--- a/unmarshal.go
+++ b/unmarshal.go
@@ -23,6 +23,7 @@ Fill the value of JSONObject into any object
 
 import (
 	"fmt"
+	"math"
 	"reflect"
 	"strconv"
 	"strings"
@@ -110,7 +111,8 @@ func setUint(val reflect.Value, data uint64) error {
 }
 
 func setFloat(val reflect.Value, data float64) error {
-	if val.OverflowFloat(data) {
+	// a number that rounds to the largest one fits
+	if val.OverflowFloat(data) && (val.Kind() != reflect.Float32 || math.IsInf(float64(float32(data)), 0)) {
 		return errors.Wrapf(ErrTypeMismatch, "%v does not fit %s", data, val.Type())
 	}
 	val.SetFloat(data)
-- 
2.43.0


From 00b9c3861bad8e02f8e48aea6f20f331ee70e516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:11 +0000
Subject: [PATCH 42/45] fix: a reference inside a map that comes before the
 object it names was lost when a text with node ids was unmarshalled

---
 unmarshal.go         |  6 ++++++
 unmarshal_session.go | 14 ++++++++++++++
 2 files changed, 20 insertions(+)

diff --git a/unmarshal.go b/unmarshal.go
index b090ce6..fb9b88a 100644
--- a/unmarshal.go
+++ b/unmarshal.go
@@ -78,6 +78,7 @@ func jsonUnmarshal(jo JSONObject, o interface{}, keys []string) error {
 	s := newJsonUnmarshalSession()
 	value := reflect.ValueOf(o)
 	err := jo.unmarshalValue(s, reflect.Indirect(value))
+	s.storeMapEntries()
 	if err != nil {
 		return errors.Wrap(err, "jo.unmarshalValue")
 	}
@@ -607,11 +608,16 @@ func (this *JSONDict) unmarshalMap(s *sJsonUnmarshalSession, val reflect.Value)
 		}
 		valVal := reflect.New(valType.Elem()).Elem()
 
+		deferred := s.deferred
 		err := v.unmarshalValue(s, valVal)
 		if err != nil {
 			return errors.Wrap(err, "JSONDict.unmarshalMap")
 		}
 		val.SetMapIndex(keyVal, valVal)
+		if s.deferred > deferred {
+			goMap := reflect.ValueOf(val.Interface())
+			s.mapEntries = append(s.mapEntries, func() { goMap.SetMapIndex(keyVal, valVal) })
+		}
 	}
 	return nil
 }
diff --git a/unmarshal_session.go b/unmarshal_session.go
index f588126..077ee43 100644
--- a/unmarshal_session.go
+++ b/unmarshal_session.go
@@ -28,6 +28,10 @@ type sJsonNodeValues struct {
 
 type sJsonUnmarshalSession struct {
 	objectMap map[int]*sJsonNodeValues
+	// deferred counts the references read before the object they name
+	deferred int
+	// mapEntries store the map values that hold such references once more
+	mapEntries []func()
 }
 
 func newJsonUnmarshalSession() *sJsonUnmarshalSession {
@@ -65,7 +69,9 @@ func (s *sJsonUnmarshalSession) setPointerValue(nodeId int, val reflect.Value) e
 		val.Set(nv.nodeValue)
 	} else if ok && !nv.nodeValueSet {
 		nv.targetValues = append(nv.targetValues, val)
+		s.deferred++
 	} else {
+		s.deferred++
 		s.objectMap[nodeId] = &sJsonNodeValues{
 			nodeValueSet: false,
 			targetValues: []reflect.Value{
@@ -75,3 +81,11 @@ func (s *sJsonUnmarshalSession) setPointerValue(nodeId int, val reflect.Value) e
 	}
 	return nil
 }
+
+// storeMapEntries stores the values of maps again that held references still to be resolved,
+// as a map holds copies
+func (s *sJsonUnmarshalSession) storeMapEntries() {
+	for _, store := range s.mapEntries {
+		store()
+	}
+}
-- 
2.43.0


From 1a542c51166afd55993712178ef1e79dea8741ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:42:19 +0000
Subject: [PATCH 43/45] fix: elements that a slice gains within its capacity
 are zeroed before they are filled

---
 unmarshal.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/unmarshal.go b/unmarshal.go
index fb9b88a..dcb52bf 100644
--- a/unmarshal.go
+++ b/unmarshal.go
@@ -433,7 +433,9 @@ func (this *JSONString) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Va
 			newVal := reflect.MakeSlice(val.Type(), dataLen, dataLen)
 			val.Set(newVal)
 		} else if val.Len() != dataLen {
+			oldLen := val.Len()
 			val.SetLen(dataLen)
+			zeroElements(val, oldLen)
 		}
 		return this.unmarshalValue(s, val.Index(0))
 	default:
@@ -442,6 +444,14 @@ func (this *JSONString) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Va
 	return nil
 }
 
+// zeroElements zeros the elements from start on, which may hold what was
+// beyond the length of the slice before
+func zeroElements(val reflect.Value, start int) {
+	for i := start; i < val.Len(); i++ {
+		val.Index(i).Set(reflect.Zero(val.Type().Elem()))
+	}
+}
+
 func (this *JSONArray) unmarshalValue(s *sJsonUnmarshalSession, val reflect.Value) error {
 	return tryStdUnmarshal(s, this, val, this._unmarshalValue)
 }
@@ -491,7 +501,9 @@ func (this *JSONArray) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Val
 				newVal := reflect.MakeSlice(val.Type(), dataLen, dataLen)
 				val.Set(newVal)
 			} else if val.Len() != dataLen {
+				oldLen := val.Len()
 				val.SetLen(dataLen)
+				zeroElements(val, oldLen)
 			}
 		}
 		for i, json := range this.data {
-- 
2.43.0


From 8f38a53d050942c4a3abc79ce8b4cdccd92881d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:34:08 +0000
Subject: [PATCH 44/45] fix: the plain value of a marshaled loop was looked for
 without end, until the stack overflowed

---
 jsonpointer.go | 31 +++++++++++++++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/jsonpointer.go b/jsonpointer.go
index 24d7da1..a6c0bd1 100644
--- a/jsonpointer.go
+++ b/jsonpointer.go
@@ -19,6 +19,8 @@ import (
 	"reflect"
 	"strings"
 	"time"
+
+	"yunion.io/x/pkg/sortedmap"
 )
 
 const (
@@ -180,9 +182,38 @@ func (ptr *sJSONPointer) Equals(obj JSONObject) bool {
 }
 
 func (ptr *sJSONPointer) Interface() interface{} {
+	if refersTo(ptr.node, ptr.node, make(map[JSONObject]bool)) {
+		// following a reference back to where it comes from would not terminate
+		return nil
+	}
 	return ptr.getNode().Interface()
 }
 
+// refersTo tells whether a reference in obj leads to node
+func refersTo(obj, node JSONObject, visited map[JSONObject]bool) bool {
+	switch v := obj.(type) {
+	case *sJSONPointer:
+		if v.node == nil || visited[v.node] {
+			return false
+		}
+		visited[v.node] = true
+		return v.node == node || refersTo(v.node, node, visited)
+	case *JSONDict:
+		for iter := sortedmap.NewIterator(v.data); iter.HasMore(); iter.Next() {
+			if _, member := iter.Get(); refersTo(member.(JSONObject), node, visited) {
+				return true
+			}
+		}
+	case *JSONArray:
+		for i := range v.data {
+			if refersTo(v.data[i], node, visited) {
+				return true
+			}
+		}
+	}
+	return false
+}
+
 func (ptr *sJSONPointer) isCompond() bool {
 	return ptr.getNode().isCompond()
 }
-- 
2.43.0


From a296d007a7fbc952877522f930c5337cdb167d8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:34:10 +0000
Subject: [PATCH 45/45] fix: a pointer to a slice met again after it was
 marshaled became a reference to no object

---
 json_pointer_trace.go | 21 ++++++++++++++++-----
 jsonpointer.go        |  1 +
 2 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/json_pointer_trace.go b/json_pointer_trace.go
index d4b418c..6ed955f 100644
--- a/json_pointer_trace.go
+++ b/json_pointer_trace.go
@@ -23,9 +23,11 @@ import (
 type sJsonPointerNode struct {
 	// isObject tells whether it points to an object, which can carry a node id
 	isObject bool
-	pointer  *sJSONPointer
-	inf      interface{}
-	refcnt   int
+	// done tells whether it has been marshalled, what follows is not part of it then
+	done    bool
+	pointer *sJSONPointer
+	inf     interface{}
+	refcnt  int
 }
 
 func (n *sJsonPointerNode) String() string {
@@ -57,7 +59,7 @@ func (t *sJsonPointerTrace) push(inf interface{}, ptr *sJSONPointer) *sJsonPoint
 func (t *sJsonPointerTrace) find(inf interface{}) *sJsonPointerNode {
 	var ret *sJsonPointerNode
 	for i := range t.trace {
-		if t.trace[i].inf == inf && (t.trace[i].isObject || !t.hasObjectAfter(i)) {
+		if t.trace[i].inf == inf && (t.trace[i].isObject || !t.trace[i].done && !t.hasObjectAfter(i)) {
 			ret = t.trace[i]
 		}
 		if ret != nil {
@@ -67,10 +69,19 @@ func (t *sJsonPointerTrace) find(inf interface{}) *sJsonPointerNode {
 	return ret
 }
 
+// done marks the node of ptr as marshalled
+func (t *sJsonPointerTrace) done(ptr *sJSONPointer) {
+	for _, n := range t.trace {
+		if n.pointer == ptr {
+			n.done = true
+		}
+	}
+}
+
 // hasObjectAfter tells whether an object that the loop can refer to follows node i
 func (t *sJsonPointerTrace) hasObjectAfter(i int) bool {
 	for _, n := range t.trace[i+1:] {
-		if n.isObject {
+		if n.isObject && !n.done {
 			return true
 		}
 	}
diff --git a/jsonpointer.go b/jsonpointer.go
index a6c0bd1..87ccdf6 100644
--- a/jsonpointer.go
+++ b/jsonpointer.go
@@ -50,6 +50,7 @@ func (s *sJsonMarshalSession) setJsonObject(ptr *sJSONPointer, obj JSONObject) {
 	if _, ok := obj.(*JSONDict); ok {
 		ptr.node = obj
 	}
+	s.objectTrace.done(ptr)
 	s.objectTrace.pop()
 }
 
-- 
2.43.0

