From 3ab6b56fc2b621fa3a74a9453d818bf140121b08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:34 +0000
Subject: [PATCH 01/51] fix: a key missing from an object is not looked up in
 later objects

---
 inter_core.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/inter_core.go b/inter_core.go
index 1ef3958..5e89dc9 100755
--- a/inter_core.go
+++ b/inter_core.go
@@ -314,7 +314,7 @@ func core(json []byte, justStart bool, path ...string) (int, int, int, error) {
 										continue
 									}
 									if curr == 93 || curr == 125 {
-										if innerLevel < k+1 {
+										if innerLevel <= k+1 {
 											return -1, -1, -1, errKeyNotFound(currentPath)
 										}
 										innerLevel--
@@ -374,7 +374,7 @@ func core(json []byte, justStart bool, path ...string) (int, int, int, error) {
 					}
 					// Close brace
 					if curr == 93 || curr == 125 {
-						if level < k+1 {
+						if level <= k+1 {
 							return -1, -1, -1, errKeyNotFound(currentPath)
 						}
 						level--
-- 
2.43.0


From ea691297d64d0f47986f0df03ed21cb6977961cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:35 +0000
Subject: [PATCH 02/51] fix: a path through a scalar value is an error

---
 inter_core.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/inter_core.go b/inter_core.go
index 5e89dc9..861e99a 100755
--- a/inter_core.go
+++ b/inter_core.go
@@ -264,9 +264,19 @@ func core(json []byte, justStart bool, path ...string) (int, int, int, error) {
 									if k == len(path)-1 {
 										keyStart = start
 										break
-									} else {
-										continue
 									}
+									// path goes on, so value must be an object or an array
+									next := offset
+									for next < len(json) && space(json[next]) {
+										next++
+									}
+									if next == len(json) {
+										return -1, -1, -1, errBadJSON(offset)
+									}
+									if json[next] != 91 && json[next] != 123 {
+										return -1, -1, -1, errKeyNotFound(path[k+1])
+									}
+									continue
 								}
 							}
 							// Include comma character to json chars for jump function
-- 
2.43.0


From 7e9a3453c7d81623b546035d7ed9f38c75b4307d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:35 +0000
Subject: [PATCH 03/51] fix: first element of an empty array is an error for
 every function

---
 inter_core.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/inter_core.go b/inter_core.go
index 861e99a..741c555 100755
--- a/inter_core.go
+++ b/inter_core.go
@@ -416,6 +416,9 @@ func core(json []byte, justStart bool, path ...string) (int, int, int, error) {
 		continue
 	}
 	if justStart {
+		if json[offset] == 93 {
+			return -1, -1, -1, errEmptyArray()
+		}
 		return keyStart, offset, 0, nil
 	}
 	// If value starts with open braces
-- 
2.43.0


From 792649ed7131ff7d6e898ea695c1af851dd47662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:35 +0000
Subject: [PATCH 04/51] fix: Insert before a last element that has space in
 front of it

---
 inter_add.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inter_add.go b/inter_add.go
index 5eb2cad..b024872 100755
--- a/inter_add.go
+++ b/inter_add.go
@@ -223,7 +223,7 @@ func Insert(json []byte, index int, value []byte, path ...string) ([]byte, error
 		val := make([]byte, 0, len(value)+1)
 		val = append(val, 44)
 		val = append(val, value...)
-		json = replace(json, val, start-1, start-1)
+		json = replace(json, val, startEdge, startEdge)
 		return json, nil
 	}
 	return json, errBadJSON(start)
-- 
2.43.0


From e452e951dcb48bd2e963408966e998465242f855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:01 +0000
Subject: [PATCH 05/51] fix: AddKeyValue, Add and Insert do not take a string
 for a container

---
 inter_add.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/inter_add.go b/inter_add.go
index b024872..6e0a6d0 100755
--- a/inter_add.go
+++ b/inter_add.go
@@ -47,6 +47,10 @@ func AddKeyValue(json []byte, key string, value []byte, path ...string) ([]byte,
 		if err != nil {
 			return json, err
 		}
+		// string values start after their quote
+		if json[start-1] == 34 {
+			return json, errObjectExpected()
+		}
 	}
 	if json[start] == 123 && json[end-1] == 125 {
 		empty := true
@@ -117,6 +121,10 @@ func Add(json []byte, value []byte, path ...string) ([]byte, error) {
 		if err != nil {
 			return json, err
 		}
+		// string values start after their quote
+		if json[start-1] == 34 {
+			return json, errArrayExpected()
+		}
 	}
 	if json[start] == 91 && json[end-1] == 93 {
 		empty := true
@@ -177,6 +185,10 @@ func Insert(json []byte, index int, value []byte, path ...string) ([]byte, error
 		if err != nil {
 			return json, err
 		}
+		// string values start after their quote
+		if json[start-1] == 34 {
+			return json, errArrayExpected()
+		}
 	}
 	if json[start] != 91 || json[end-1] != 93 {
 		return json, errArrayExpected()
-- 
2.43.0


From 8b24607003ac9897aa99f818a03fb3395855b07b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:01 +0000
Subject: [PATCH 06/51] fix: path slices of callers are never written to

---
 inter_add.go      | 5 ++---
 inter_get.go      | 4 ++--
 inter_set.go      | 2 +-
 jin_object_add.go | 2 +-
 utils.go          | 7 +++++++
 walk.go           | 4 ++--
 6 files changed, 15 insertions(+), 9 deletions(-)

diff --git a/inter_add.go b/inter_add.go
index 6e0a6d0..2c0c7f1 100755
--- a/inter_add.go
+++ b/inter_add.go
@@ -64,8 +64,7 @@ func AddKeyValue(json []byte, key string, value []byte, path ...string) ([]byte,
 			json = replace(json, val, end-1, end-1)
 			return json, nil
 		}
-		path = append(path, key)
-		_, _, _, err = core(json, false, path...)
+		_, _, _, err = core(json, false, appendPath(path, key)...)
 		if err != nil {
 			if ErrEqual(err, ErrCodeKeyNotFound) {
 				val := []byte(`,"` + key + `":` + string(value))
@@ -193,7 +192,7 @@ func Insert(json []byte, index int, value []byte, path ...string) ([]byte, error
 	if json[start] != 91 || json[end-1] != 93 {
 		return json, errArrayExpected()
 	}
-	_, start, end, err = core(json, false, append(path, strconv.Itoa(index))...)
+	_, start, end, err = core(json, false, appendPath(path, strconv.Itoa(index))...)
 	if err != nil {
 		return json, err
 	}
diff --git a/inter_get.go b/inter_get.go
index 369126f..9a4acc9 100755
--- a/inter_get.go
+++ b/inter_get.go
@@ -631,7 +631,7 @@ func GetAll(json []byte, keys []string, path ...string) ([]string, error) {
 	var val string
 	results := make([]string, 0, len(keys))
 	for _, k := range keys {
-		val, err = GetString(json, append(path, k)...)
+		val, err = GetString(json, appendPath(path, k)...)
 		if err != nil {
 			return nil, err
 		}
@@ -647,7 +647,7 @@ func GetAllMap(json []byte, keys []string, path ...string) (map[string]string, e
 	var val string
 	results := make(map[string]string)
 	for _, k := range keys {
-		val, err = GetString(json, append(path, k)...)
+		val, err = GetString(json, appendPath(path, k)...)
 		if err != nil {
 			return nil, err
 		}
diff --git a/inter_set.go b/inter_set.go
index f32c914..47cd875 100755
--- a/inter_set.go
+++ b/inter_set.go
@@ -92,7 +92,7 @@ func SetKey(json []byte, newKey string, path ...string) ([]byte, error) {
 // Store sets or adds a new value to the body
 // like a real json store event
 func Store(json []byte, key string, value []byte, path ...string) ([]byte, error) {
-	_, start, end, err := core(json, false, append(path, key)...)
+	_, start, end, err := core(json, false, appendPath(path, key)...)
 	if err != nil {
 		if ErrEqual(err, ErrCodeKeyNotFound) {
 			return AddKeyValue(json, key, value, path...)
diff --git a/jin_object_add.go b/jin_object_add.go
index 49e602d..e4c29c8 100644
--- a/jin_object_add.go
+++ b/jin_object_add.go
@@ -108,7 +108,7 @@ func (j *JO) InsertBool(index int, value bool, path ...string) error {
 }
 
 func (j *JO) Store(key string, value []byte, path ...string) error {
-	_, start, end, err := core(j.body, false, append(path, key)...)
+	_, start, end, err := core(j.body, false, appendPath(path, key)...)
 	if err != nil {
 		if ErrEqual(err, ErrCodeKeyNotFound) {
 			j.body, err = AddKeyValue(j.body, key, value, path...)
diff --git a/utils.go b/utils.go
index 09ff21e..9d38b3b 100755
--- a/utils.go
+++ b/utils.go
@@ -13,6 +13,13 @@ func replace(json, newValue []byte, start, end int) []byte {
 	return newJSON
 }
 
+// appendPath adds a step to a path without writing to the array behind it.
+func appendPath(path []string, step string) []string {
+	newPath := make([]string, 0, len(path)+1)
+	newPath = append(newPath, path...)
+	return append(newPath, step)
+}
+
 func space(curr byte) bool {
 	// space
 	if curr == 32 {
diff --git a/walk.go b/walk.go
index 2c13fbd..b9c2ba0 100644
--- a/walk.go
+++ b/walk.go
@@ -20,7 +20,7 @@ func walk(json []byte, path []string, callback func(k string, v []byte, p []stri
 	switch t {
 	case TypeObject:
 		err := IterateKeyValue(json, func(keyBytes, _ []byte) (bool, error) {
-			err = walk(json, append(path, string(keyBytes)), callback)
+			err = walk(json, appendPath(path, string(keyBytes)), callback)
 			if err != nil {
 				return false, err
 			}
@@ -32,7 +32,7 @@ func walk(json []byte, path []string, callback func(k string, v []byte, p []stri
 	case TypeArray:
 		i := 0
 		err := IterateArray(json, func(_ []byte) (bool, error) {
-			err = walk(json, append(path, strconv.Itoa(i)), callback)
+			err = walk(json, appendPath(path, strconv.Itoa(i)), callback)
 			if err != nil {
 				return false, err
 			}
-- 
2.43.0


From 8b6e6c9cac568a801f6e9b958521655a9a5e1faf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:01 +0000
Subject: [PATCH 07/51] fix: AddKeyValueString and InsertString return the
 document with an error

---
 inter_add.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/inter_add.go b/inter_add.go
index 2c0c7f1..41cb214 100755
--- a/inter_add.go
+++ b/inter_add.go
@@ -244,7 +244,7 @@ func Insert(json []byte, index int, value []byte, path ...string) ([]byte, error
 // Type of new value must be a string.
 func AddKeyValueString(json []byte, key, value string, path ...string) ([]byte, error) {
 	if len(key) == 0 {
-		return nil, errNullKey()
+		return json, errNullKey()
 	}
 	return AddKeyValue(json, key, []byte(formatType(value)), path...)
 }
@@ -385,7 +385,7 @@ func AddBool(json []byte, value bool, path ...string) ([]byte, error) {
 // Type of new value must be an string.
 func InsertString(json []byte, index int, value string, path ...string) ([]byte, error) {
 	if index < 0 {
-		return nil, errIndexOutOfRange()
+		return json, errIndexOutOfRange()
 	}
 	return Insert(json, index, []byte(formatType(value)), path...)
 }
-- 
2.43.0


From 3f2d6474a6a4906a80d5add986cf5481fc29b53e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:02 +0000
Subject: [PATCH 08/51] fix: sized integers are written in decimal

---
 inter_add.go | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/inter_add.go b/inter_add.go
index 41cb214..87095fa 100755
--- a/inter_add.go
+++ b/inter_add.go
@@ -264,7 +264,7 @@ func AddKeyValueUint(json []byte, key string, value uint, path ...string) ([]byt
 	if len(key) == 0 {
 		return json, errNullKey()
 	}
-	return AddKeyValue(json, key, []byte(strconv.FormatUint(uint64(value), 64)), path...)
+	return AddKeyValue(json, key, []byte(strconv.FormatUint(uint64(value), 10)), path...)
 }
 
 // AddKeyValueInt32 is a variation of AddKeyValue() func.
@@ -273,7 +273,7 @@ func AddKeyValueInt32(json []byte, key string, value int32, path ...string) ([]b
 	if len(key) == 0 {
 		return json, errNullKey()
 	}
-	return AddKeyValue(json, key, []byte(strconv.FormatInt(int64(value), 32)), path...)
+	return AddKeyValue(json, key, []byte(strconv.FormatInt(int64(value), 10)), path...)
 }
 
 // AddKeyValueInt64 is a variation of AddKeyValue() func.
@@ -282,7 +282,7 @@ func AddKeyValueInt64(json []byte, key string, value int64, path ...string) ([]b
 	if len(key) == 0 {
 		return json, errNullKey()
 	}
-	return AddKeyValue(json, key, []byte(strconv.FormatInt(value, 64)), path...)
+	return AddKeyValue(json, key, []byte(strconv.FormatInt(value, 10)), path...)
 }
 
 // AddKeyValueUint32 is a variation of AddKeyValue() func.
@@ -291,7 +291,7 @@ func AddKeyValueUint32(json []byte, key string, value uint32, path ...string) ([
 	if len(key) == 0 {
 		return json, errNullKey()
 	}
-	return AddKeyValue(json, key, []byte(strconv.FormatUint(uint64(value), 32)), path...)
+	return AddKeyValue(json, key, []byte(strconv.FormatUint(uint64(value), 10)), path...)
 }
 
 // AddKeyValueUint64 is a variation of AddKeyValue() func.
@@ -300,7 +300,7 @@ func AddKeyValueUint64(json []byte, key string, value uint64, path ...string) ([
 	if len(key) == 0 {
 		return json, errNullKey()
 	}
-	return AddKeyValue(json, key, []byte(strconv.FormatUint(value, 64)), path...)
+	return AddKeyValue(json, key, []byte(strconv.FormatUint(value, 10)), path...)
 }
 
 // AddKeyValueFloat is a variation of AddKeyValue() func.
@@ -339,31 +339,31 @@ func AddInt(json []byte, value int, path ...string) ([]byte, error) {
 // AddInt32 is a variation of Add() func.
 // Type of new value must be an integer.
 func AddInt32(json []byte, value int32, path ...string) ([]byte, error) {
-	return Add(json, []byte(strconv.FormatInt(int64(value), 32)), path...)
+	return Add(json, []byte(strconv.FormatInt(int64(value), 10)), path...)
 }
 
 // AddInt64 is a variation of Add() func.
 // Type of new value must be an integer.
 func AddInt64(json []byte, value int64, path ...string) ([]byte, error) {
-	return Add(json, []byte(strconv.FormatInt(value, 64)), path...)
+	return Add(json, []byte(strconv.FormatInt(value, 10)), path...)
 }
 
 // AddUint is a variation of Add() func.
 // Type of new value must be an integer.
 func AddUint(json []byte, value uint, path ...string) ([]byte, error) {
-	return Add(json, []byte(strconv.FormatUint(uint64(value), 64)), path...)
+	return Add(json, []byte(strconv.FormatUint(uint64(value), 10)), path...)
 }
 
 // AddUint32 is a variation of Add() func.
 // Type of new value must be an integer.
 func AddUint32(json []byte, value uint32, path ...string) ([]byte, error) {
-	return Add(json, []byte(strconv.FormatUint(uint64(value), 32)), path...)
+	return Add(json, []byte(strconv.FormatUint(uint64(value), 10)), path...)
 }
 
 // AddUint64 is a variation of Add() func.
 // Type of new value must be an integer.
 func AddUint64(json []byte, value uint64, path ...string) ([]byte, error) {
-	return Add(json, []byte(strconv.FormatUint(value, 64)), path...)
+	return Add(json, []byte(strconv.FormatUint(value, 10)), path...)
 }
 
 // AddFloat is a variation of Add() func.
@@ -405,7 +405,7 @@ func InsertInt32(json []byte, index int, value int32, path ...string) ([]byte, e
 	if index < 0 {
 		return json, errIndexOutOfRange()
 	}
-	return Insert(json, index, []byte(strconv.FormatInt(int64(value), 32)), path...)
+	return Insert(json, index, []byte(strconv.FormatInt(int64(value), 10)), path...)
 }
 
 // InsertInt64 is a variation of Insert() func.
@@ -414,7 +414,7 @@ func InsertInt64(json []byte, index int, value int64, path ...string) ([]byte, e
 	if index < 0 {
 		return json, errIndexOutOfRange()
 	}
-	return Insert(json, index, []byte(strconv.FormatInt(value, 64)), path...)
+	return Insert(json, index, []byte(strconv.FormatInt(value, 10)), path...)
 }
 
 // InsertUint is a variation of Insert() func.
@@ -423,7 +423,7 @@ func InsertUint(json []byte, index int, value uint, path ...string) ([]byte, err
 	if index < 0 {
 		return json, errIndexOutOfRange()
 	}
-	return Insert(json, index, []byte(strconv.FormatUint(uint64(value), 64)), path...)
+	return Insert(json, index, []byte(strconv.FormatUint(uint64(value), 10)), path...)
 }
 
 // InsertUint32 is a variation of Insert() func.
@@ -432,7 +432,7 @@ func InsertUint32(json []byte, index int, value uint32, path ...string) ([]byte,
 	if index < 0 {
 		return json, errIndexOutOfRange()
 	}
-	return Insert(json, index, []byte(strconv.FormatUint(uint64(value), 32)), path...)
+	return Insert(json, index, []byte(strconv.FormatUint(uint64(value), 10)), path...)
 }
 
 // InsertUint64 is a variation of Insert() func.
@@ -441,7 +441,7 @@ func InsertUint64(json []byte, index int, value uint64, path ...string) ([]byte,
 	if index < 0 {
 		return json, errIndexOutOfRange()
 	}
-	return Insert(json, index, []byte(strconv.FormatUint(value, 64)), path...)
+	return Insert(json, index, []byte(strconv.FormatUint(value, 10)), path...)
 }
 
 // InsertFloat is a variation of Insert() func.
-- 
2.43.0


From 7b780217fc0937f43895a4f645f1a58c8decb77a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:30 +0000
Subject: [PATCH 09/51] fix: strings are written as numbers only if they are
 JSON numbers

---
 utils.go | 55 +++++++++++++++++++++++++++++++++++++++----------------
 1 file changed, 39 insertions(+), 16 deletions(-)

diff --git a/utils.go b/utils.go
index 9d38b3b..69c6b67 100755
--- a/utils.go
+++ b/utils.go
@@ -1,7 +1,6 @@
 package jin
 
 import (
-	"strconv"
 	"unsafe"
 )
 
@@ -65,13 +64,7 @@ func formatType(val string) string {
 	if isBool(val) {
 		return val
 	}
-	if isInt(val) {
-		if val[0] == 48 && len(val) > 1 {
-			return `"` + val + `"`
-		}
-		return val
-	}
-	if isFloat(val) {
+	if isNumber(val) {
 		return val
 	}
 	if val == "null" {
@@ -98,14 +91,44 @@ func isBool(val string) bool {
 	return val == "true" || val == "false"
 }
 
-func isFloat(val string) bool {
-	_, err := strconv.ParseFloat(val, 64)
-	return err == nil
-}
-
-func isInt(val string) bool {
-	_, err := strconv.ParseInt(val, 10, 32)
-	return err == nil
+// isNumber reports whether val is a number in JSON notation.
+func isNumber(val string) bool {
+	i := 0
+	digits := func() bool {
+		start := i
+		for i < len(val) && val[i] >= 48 && val[i] <= 57 {
+			i++
+		}
+		return i > start
+	}
+	// minus
+	if i < len(val) && val[i] == 45 {
+		i++
+	}
+	// no other digit after a leading zero
+	if i < len(val) && val[i] == 48 {
+		i++
+	} else if !digits() {
+		return false
+	}
+	// fraction
+	if i < len(val) && val[i] == 46 {
+		i++
+		if !digits() {
+			return false
+		}
+	}
+	// exponent
+	if i < len(val) && (val[i] == 101 || val[i] == 69) {
+		i++
+		if i < len(val) && (val[i] == 43 || val[i] == 45) {
+			i++
+		}
+		if !digits() {
+			return false
+		}
+	}
+	return i == len(val)
 }
 
 func cleanValueString(str string) string {
-- 
2.43.0


From d277114bbf9458e04a4c9cd0294d8acbd6feeaf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:31 +0000
Subject: [PATCH 10/51] fix: JO.StoreString writes a string

---
 jin_object_add.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jin_object_add.go b/jin_object_add.go
index e4c29c8..64a41b8 100644
--- a/jin_object_add.go
+++ b/jin_object_add.go
@@ -127,7 +127,7 @@ func (j *JO) Store(key string, value []byte, path ...string) error {
 // StoreString jin_object method for same function name with interpreter
 func (j *JO) StoreString(key string, value string, path ...string) error {
 	var err error
-	j.body, err = Store(j.body, key, []byte(value), path...)
+	j.body, err = StoreString(j.body, key, value, path...)
 	return err
 }
 
-- 
2.43.0


From 4cf1c72a7e55cfdc03354b5c54191d142561b4cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:31 +0000
Subject: [PATCH 11/51] fix: IsObject is false for arrays

---
 inter_type.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inter_type.go b/inter_type.go
index fd8015a..512dbba 100755
--- a/inter_type.go
+++ b/inter_type.go
@@ -15,7 +15,7 @@ const (
 // If path points to an object it will return true, otherwise it will return false.
 // In this instance 'object' means everything that has starts and ends with curly brace.
 func IsObject(json []byte, path ...string) (bool, error) {
-	state, _, err := typeControlCore(json, []byte{91, 123}, true, path...)
+	state, _, err := typeControlCore(json, []byte{123}, true, path...)
 	if err != nil {
 		return false, err
 	}
-- 
2.43.0


From 8ab9b6517af4f382a53b4f629252dc4613b8ce3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:32 +0000
Subject: [PATCH 12/51] fix: IsEmpty looks at every byte of a container

---
 inter_type.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inter_type.go b/inter_type.go
index 512dbba..a336fc7 100755
--- a/inter_type.go
+++ b/inter_type.go
@@ -119,7 +119,7 @@ func IsEmpty(json []byte, path ...string) (bool, error) {
 		if braceStart+2 != braceEnd {
 			return false, errBadJSON(end)
 		}
-		for i := start + 1; i < end-1; i++ {
+		for i := start + 1; i < end; i++ {
 			if !space(json[i]) {
 				return false, nil
 			}
-- 
2.43.0


From d9dba08df4df215ed5d85840318853c910a89898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:32 +0000
Subject: [PATCH 13/51] fix: GetType of numbers outside the float64 range

---
 inter_type.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inter_type.go b/inter_type.go
index a336fc7..63b096d 100755
--- a/inter_type.go
+++ b/inter_type.go
@@ -74,7 +74,7 @@ func GetType(json []byte, path ...string) (string, error) {
 		return TypeNumber, nil
 	}
 	_, err = strconv.ParseFloat(val, 64)
-	if err == nil {
+	if err == nil || isNumber(val) {
 		return TypeNumber, nil
 	}
 	return TypeString, nil
-- 
2.43.0


From 98c23f4b4ee2ecee9c05c5c53f4ec099a344ab17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:32 +0000
Subject: [PATCH 14/51] fix: GetMap below the root and Length of a single
 element root

---
 inter_get.go | 4 ++--
 utils.go     | 2 ++
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/inter_get.go b/inter_get.go
index 9a4acc9..3e074dd 100755
--- a/inter_get.go
+++ b/inter_get.go
@@ -599,7 +599,7 @@ func GetMap(json []byte, path ...string) (map[string]string, error) {
 		return nil, err
 	}
 	mainMap := make(map[string]string)
-	if json[start] == 123 && json[end] == 125 {
+	if json[start] == 123 && json[end-1] == 125 {
 		err = IterateKeyValue(json, func(key, val []byte) (bool, error) {
 			mainMap[string(key)] = string(val)
 			return true, nil
@@ -609,7 +609,7 @@ func GetMap(json []byte, path ...string) (map[string]string, error) {
 		}
 		return mainMap, nil
 	}
-	if json[start] == 91 && json[end] == 93 {
+	if json[start] == 91 && json[end-1] == 93 {
 		count := 0
 		err = IterateArray(json, func(val []byte) (bool, error) {
 			mainMap[strconv.Itoa(count)] = string(val)
diff --git a/utils.go b/utils.go
index 69c6b67..4957006 100755
--- a/utils.go
+++ b/utils.go
@@ -208,6 +208,8 @@ func getStartEnd(json []byte, path ...string) (int, int, error) {
 			end--
 			continue
 		}
+		// end is exclusive, as with a path
+		end++
 	}
 	return start, end, nil
 }
-- 
2.43.0


From cd82a09494235f249cfb1c4718b47e1d74e229bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:33 +0000
Subject: [PATCH 15/51] fix: a path into an empty root is an error

---
 inter_get.go  | 8 ++++----
 inter_iter.go | 5 ++---
 others.go     | 2 +-
 3 files changed, 7 insertions(+), 8 deletions(-)

diff --git a/inter_get.go b/inter_get.go
index 3e074dd..060983d 100755
--- a/inter_get.go
+++ b/inter_get.go
@@ -311,7 +311,7 @@ func GetBoolArray(json []byte, path ...string) ([]bool, error) {
 // Gets all keys that path has pointed.
 func GetKeys(json []byte, path ...string) ([]string, error) {
 	var keys []string
-	if string(json) == "{}" {
+	if len(path) == 0 && string(json) == "{}" {
 		return nil, errEmpty()
 	}
 	var start int
@@ -401,7 +401,7 @@ func GetKeys(json []byte, path ...string) ([]string, error) {
 // Gets all values that path has pointed.
 func GetValues(json []byte, path ...string) ([]string, error) {
 	var values []string
-	if string(json) == "{}" {
+	if len(path) == 0 && string(json) == "{}" {
 		return nil, errEmpty()
 	}
 	var start int
@@ -493,7 +493,7 @@ func GetValues(json []byte, path ...string) ([]string, error) {
 func GetKeysValues(json []byte, path ...string) ([]string, []string, error) {
 	var values []string
 	var keys []string
-	if string(json) == "{}" {
+	if len(path) == 0 && string(json) == "{}" {
 		return nil, nil, errEmpty()
 	}
 	var start int
@@ -591,7 +591,7 @@ func GetKeysValues(json []byte, path ...string) ([]string, []string, error) {
 
 // GetMap Gets all keys and values pair with string to string map.
 func GetMap(json []byte, path ...string) (map[string]string, error) {
-	if string(json) == "[]" || string(json) == "{}" {
+	if len(path) == 0 && (string(json) == "[]" || string(json) == "{}") {
 		return nil, nil
 	}
 	start, end, err := getStartEnd(json, path...)
diff --git a/inter_iter.go b/inter_iter.go
index 0b3138b..1626d56 100755
--- a/inter_iter.go
+++ b/inter_iter.go
@@ -8,10 +8,9 @@ func IterateArray(json []byte, callback func([]byte) (bool, error), path ...stri
 	case 0, 1:
 		return errBadJSON(0)
 	case 2:
-		if string(json) == "[]" {
+		if len(path) == 0 && string(json) == "[]" {
 			return nil
 		}
-		return errBadJSON(0)
 	}
 	var start int
 	var err error
@@ -106,7 +105,7 @@ func IterateArray(json []byte, callback func([]byte) (bool, error), path ...stri
 // It stripes quotation marks from string values befour return.
 // Path value can be left blank for access main JSON.
 func IterateKeyValue(json []byte, callback func([]byte, []byte) (bool, error), path ...string) error {
-	if string(json) == "{}" {
+	if len(path) == 0 && string(json) == "{}" {
 		return errEmpty()
 	}
 	var start int
diff --git a/others.go b/others.go
index f35b3c2..67e17f7 100755
--- a/others.go
+++ b/others.go
@@ -3,7 +3,7 @@ package jin
 // Length function gives the length of any array or object
 // that path has pointed.
 func Length(json []byte, path ...string) (int, error) {
-	if string(json) == "[]" || string(json) == "{}" {
+	if len(path) == 0 && (string(json) == "[]" || string(json) == "{}") {
 		return 0, nil
 	}
 	start, end, err := getStartEnd(json, path...)
-- 
2.43.0


From a25b693c89e97a6a5c85f1b0c06460a948d1ea1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:33 +0000
Subject: [PATCH 16/51] fix: iteration calls back nothing for empty containers

---
 inter_iter.go | 9 +++++++++
 utils.go      | 9 +++++++++
 2 files changed, 18 insertions(+)

diff --git a/inter_iter.go b/inter_iter.go
index 1626d56..2319de5 100755
--- a/inter_iter.go
+++ b/inter_iter.go
@@ -37,6 +37,7 @@ func IterateArray(json []byte, callback func([]byte) (bool, error), path ...stri
 		return errArrayExpected()
 	}
 	start++
+	empty := true
 	inQuote := false
 	level := 0
 	for i := start; i < len(json); i++ {
@@ -76,6 +77,9 @@ func IterateArray(json []byte, callback func([]byte) (bool, error), path ...stri
 				}
 				if curr == 93 {
 					if level == 0 {
+						if empty && onlySpace(json[start:i]) {
+							return nil
+						}
 						_, innerError := callback(cleanValue(json[start:i]))
 						return innerError
 					}
@@ -92,6 +96,7 @@ func IterateArray(json []byte, callback func([]byte) (bool, error), path ...stri
 					if !keepGoing {
 						return nil
 					}
+					empty = false
 					start = i + 1
 					continue
 				}
@@ -175,6 +180,10 @@ func IterateKeyValue(json []byte, callback func([]byte, []byte) (bool, error), p
 				if curr == 93 || curr == 125 {
 					if curr == 125 {
 						if level == 1 {
+							// no key means no member
+							if key == nil {
+								return nil
+							}
 							for j := start; j < i; j++ {
 								if !space(json[j]) {
 									start = j
diff --git a/utils.go b/utils.go
index 4957006..aa54ec7 100755
--- a/utils.go
+++ b/utils.go
@@ -39,6 +39,15 @@ func space(curr byte) bool {
 	return false
 }
 
+func onlySpace(arr []byte) bool {
+	for _, b := range arr {
+		if !space(b) {
+			return false
+		}
+	}
+	return true
+}
+
 func createTabs(n int) []byte {
 	res := make([]byte, n)
 	for i := range res {
-- 
2.43.0


From 176db021f07238d46e586aca5327b00f1ca4f0ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:33 +0000
Subject: [PATCH 17/51] fix: IterateKeyValue returns the error of the last
 callback

---
 inter_iter.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/inter_iter.go b/inter_iter.go
index 2319de5..679727b 100755
--- a/inter_iter.go
+++ b/inter_iter.go
@@ -197,11 +197,11 @@ func IterateKeyValue(json []byte, callback func([]byte, []byte) (bool, error), p
 								}
 							}
 							if json[start] == 34 && json[end] == 34 {
-								callback(key, json[start+1:end])
-								return nil
+								_, innerError := callback(key, json[start+1:end])
+								return innerError
 							}
-							callback(key, json[start:end+1])
-							return nil
+							_, innerError := callback(key, json[start:end+1])
+							return innerError
 						}
 					}
 					if level == 1 {
-- 
2.43.0


From 2c68e76bc9a6d7b591597dbac88957a9bbd6ddbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:34 +0000
Subject: [PATCH 18/51] fix: IterateKeyValue trims values of one character

---
 inter_iter.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inter_iter.go b/inter_iter.go
index 679727b..fc9f140 100755
--- a/inter_iter.go
+++ b/inter_iter.go
@@ -219,7 +219,7 @@ func IterateKeyValue(json []byte, callback func([]byte, []byte) (bool, error), p
 								break
 							}
 						}
-						for j := i - 1; j > start; j-- {
+						for j := i - 1; j > start-1; j-- {
 							if !space(json[j]) {
 								end = j
 								break
-- 
2.43.0


From c1fcda3502db444ddc15bd32e7b6127bc4da16c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:48 +0000
Subject: [PATCH 19/51] fix: GetValues and GetKeysValues give no value for an
 empty object

---
 inter_get.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/inter_get.go b/inter_get.go
index 060983d..0eda3af 100755
--- a/inter_get.go
+++ b/inter_get.go
@@ -426,6 +426,7 @@ func GetValues(json []byte, path ...string) ([]string, error) {
 		isJSONChar[v] = true
 	}
 	if json[start] == 123 {
+		empty := true
 		inQuote := false
 		level := 0
 		for i := start; i < len(json); i++ {
@@ -461,6 +462,9 @@ func GetValues(json []byte, path ...string) ([]string, error) {
 				}
 				if curr == 93 || curr == 125 {
 					if level == 1 {
+						if empty {
+							break
+						}
 						value := cleanValueString(string(json[start:i]))
 						values = append(values, value)
 						break
@@ -470,6 +474,7 @@ func GetValues(json []byte, path ...string) ([]string, error) {
 				}
 				if curr == 58 {
 					if level == 1 {
+						empty = false
 						start = i + 1
 					}
 					continue
@@ -560,6 +565,9 @@ func GetKeysValues(json []byte, path ...string) ([]string, []string, error) {
 				}
 				if curr == 93 || curr == 125 {
 					if level == 1 {
+						if len(keys) == 0 {
+							break
+						}
 						value := cleanValueString(string(json[start:i]))
 						values = append(values, value)
 						break
-- 
2.43.0


From 4c0720ca2d9f23e0b40ae2c9187af0546d24a940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:48 +0000
Subject: [PATCH 20/51] fix: space behind values of one character is trimmed

---
 utils.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils.go b/utils.go
index aa54ec7..f871692 100755
--- a/utils.go
+++ b/utils.go
@@ -147,7 +147,7 @@ func cleanValueString(str string) string {
 		start++
 	}
 	end := lens - 1
-	for space(str[end]) && end > 1 {
+	for space(str[end]) && end > start {
 		end--
 	}
 	if str[start] == 34 && str[end] == 34 {
-- 
2.43.0


From 0a15c36e1ed769b1bcd62ba21735628aaa70a088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:49 +0000
Subject: [PATCH 21/51] fix: empty arrays read as empty typed arrays

---
 inter_get.go | 9 +++++++++
 others.go    | 3 +++
 parse_get.go | 9 +++++++++
 utils.go     | 3 +++
 4 files changed, 24 insertions(+)

diff --git a/inter_get.go b/inter_get.go
index 0eda3af..8cc47b3 100755
--- a/inter_get.go
+++ b/inter_get.go
@@ -137,6 +137,9 @@ func GetIntArray(json []byte, path ...string) ([]int, error) {
 					if curr == 93 {
 						if level == 0 {
 							element := val[start:i]
+							if len(newArray) == 0 && onlySpace([]byte(element)) {
+								break
+							}
 							num, err := strconv.Atoi(cleanValueString(element))
 							if err != nil {
 								return nil, errIntegerParse(cleanValueString(element))
@@ -203,6 +206,9 @@ func GetFloatArray(json []byte, path ...string) ([]float64, error) {
 					if curr == 93 {
 						if level == 0 {
 							element := val[start:i]
+							if len(newArray) == 0 && onlySpace([]byte(element)) {
+								break
+							}
 							num, err := strconv.ParseFloat(cleanValueString(element), 64)
 							if err != nil {
 								return nil, errFloatParse(cleanValueString(element))
@@ -269,6 +275,9 @@ func GetBoolArray(json []byte, path ...string) ([]bool, error) {
 					if curr == 93 {
 						if level == 0 {
 							element := val[start:i]
+							if len(newArray) == 0 && onlySpace([]byte(element)) {
+								break
+							}
 							element = cleanValueString(element)
 							if element == "true" || element == "false" {
 								if element == "true" {
diff --git a/others.go b/others.go
index 67e17f7..b481cc3 100755
--- a/others.go
+++ b/others.go
@@ -215,6 +215,9 @@ func ParseArray(arr string) []string {
 					if curr == 93 {
 						if level == 0 {
 							val := arr[start:i]
+							if len(newArray) == 0 && onlySpace([]byte(val)) {
+								break
+							}
 							val = cleanValueString(val)
 							newArray = append(newArray, val)
 							break
diff --git a/parse_get.go b/parse_get.go
index a0027a0..c93f46d 100755
--- a/parse_get.go
+++ b/parse_get.go
@@ -162,6 +162,9 @@ func (p *Parser) GetIntArray(path ...string) ([]int, error) {
 					if curr == 93 {
 						if level == 0 {
 							element := val[start:i]
+							if len(newArray) == 0 && onlySpace([]byte(element)) {
+								break
+							}
 							num, err := strconv.Atoi(cleanValueString(element))
 							if err != nil {
 								return nil, errIntegerParse(cleanValueString(element))
@@ -228,6 +231,9 @@ func (p *Parser) GetFloatArray(path ...string) ([]float64, error) {
 					if curr == 93 {
 						if level == 0 {
 							element := val[start:i]
+							if len(newArray) == 0 && onlySpace([]byte(element)) {
+								break
+							}
 							num, err := strconv.ParseFloat(cleanValueString(element), 64)
 							if err != nil {
 								return nil, errFloatParse(cleanValueString(element))
@@ -294,6 +300,9 @@ func (p *Parser) GetBoolArray(path ...string) ([]bool, error) {
 					if curr == 93 {
 						if level == 0 {
 							element := val[start:i]
+							if len(newArray) == 0 && onlySpace([]byte(element)) {
+								break
+							}
 							element = cleanValueString(element)
 							if element == "true" || element == "false" {
 								if element == "true" {
diff --git a/utils.go b/utils.go
index f871692..2a82a49 100755
--- a/utils.go
+++ b/utils.go
@@ -141,6 +141,9 @@ func isNumber(val string) bool {
 }
 
 func cleanValueString(str string) string {
+	if len(str) == 0 {
+		return str
+	}
 	start := 0
 	lens := len(str)
 	for space(str[start]) && start < lens-1 {
-- 
2.43.0


From e76765b000c38cdea7ad16be7dabafa02e6546de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:49 +0000
Subject: [PATCH 22/51] fix: typed array getters accept space around a root
 array

---
 inter_get.go | 5 +++++
 parse_get.go | 9 ++++++++-
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/inter_get.go b/inter_get.go
index 8cc47b3..8374414 100755
--- a/inter_get.go
+++ b/inter_get.go
@@ -2,6 +2,7 @@ package jin
 
 import (
 	"strconv"
+	"strings"
 )
 
 // Get returns the value that path has pointed.
@@ -85,6 +86,7 @@ func GetStringArray(json []byte, path ...string) ([]string, error) {
 	if err != nil {
 		return nil, err
 	}
+	val = strings.Trim(val, " \t\n\r")
 	lena := len(val)
 	if lena < 2 {
 		return nil, errStringArrayParse(val)
@@ -107,6 +109,7 @@ func GetIntArray(json []byte, path ...string) ([]int, error) {
 	if err != nil {
 		return nil, err
 	}
+	val = strings.Trim(val, " \t\n\r")
 	lena := len(val)
 	if lena < 2 {
 		return nil, errIntegerArrayParse(val)
@@ -176,6 +179,7 @@ func GetFloatArray(json []byte, path ...string) ([]float64, error) {
 	if err != nil {
 		return nil, err
 	}
+	val = strings.Trim(val, " \t\n\r")
 	lena := len(val)
 	if lena < 2 {
 		return nil, errFloatArrayParse(val)
@@ -245,6 +249,7 @@ func GetBoolArray(json []byte, path ...string) ([]bool, error) {
 	if err != nil {
 		return nil, err
 	}
+	val = strings.Trim(val, " \t\n\r")
 	lena := len(val)
 	if lena < 2 {
 		return nil, errBoolArrayParse(val)
diff --git a/parse_get.go b/parse_get.go
index c93f46d..4380ba0 100755
--- a/parse_get.go
+++ b/parse_get.go
@@ -1,6 +1,9 @@
 package jin
 
-import "strconv"
+import (
+	"strconv"
+	"strings"
+)
 
 // JSON returns underlying json value as byte array
 func (p *Parser) JSON() []byte {
@@ -110,6 +113,7 @@ func (p *Parser) GetStringArray(path ...string) ([]string, error) {
 	if err != nil {
 		return nil, err
 	}
+	val = strings.Trim(val, " \t\n\r")
 	lena := len(val)
 	if lena < 2 {
 		return nil, errStringArrayParse(val)
@@ -132,6 +136,7 @@ func (p *Parser) GetIntArray(path ...string) ([]int, error) {
 	if err != nil {
 		return nil, err
 	}
+	val = strings.Trim(val, " \t\n\r")
 	lena := len(val)
 	if lena < 2 {
 		return nil, errIntegerArrayParse(val)
@@ -201,6 +206,7 @@ func (p *Parser) GetFloatArray(path ...string) ([]float64, error) {
 	if err != nil {
 		return nil, err
 	}
+	val = strings.Trim(val, " \t\n\r")
 	lena := len(val)
 	if lena < 2 {
 		return nil, errFloatArrayParse(val)
@@ -270,6 +276,7 @@ func (p *Parser) GetBoolArray(path ...string) ([]bool, error) {
 	if err != nil {
 		return nil, err
 	}
+	val = strings.Trim(val, " \t\n\r")
 	lena := len(val)
 	if lena < 2 {
 		return nil, errBoolArrayParse(val)
-- 
2.43.0


From a3f2eb8ed9262c1f005fb88b79835e93790ae598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:49 +0000
Subject: [PATCH 23/51] fix: builders accept empty lists

---
 make.go | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/make.go b/make.go
index 15dd856..94238c4 100755
--- a/make.go
+++ b/make.go
@@ -169,7 +169,7 @@ func MakeEmptyArray() []byte {
 // Do not use any slice/array for parameter.
 // It will accept this kind types but won't be able to make valid representation for use!
 func MakeArray(elements ...interface{}) []byte {
-	if elements == nil {
+	if len(elements) == 0 {
 		return []byte{91, 93}
 	}
 	js := make([]byte, 0, 128)
@@ -187,7 +187,7 @@ func MakeArray(elements ...interface{}) []byte {
 // Parameter type must be slice of string.
 // For more information look MakeArray() function.
 func MakeArrayString(values []string) []byte {
-	if values == nil {
+	if len(values) == 0 {
 		return []byte(`[]`)
 	}
 	js := make([]byte, 0, 128)
@@ -205,7 +205,7 @@ func MakeArrayString(values []string) []byte {
 // Parameter type must be slice of integer.
 // For more information look MakeArray() function.
 func MakeArrayInt(values []int) []byte {
-	if values == nil {
+	if len(values) == 0 {
 		return []byte{91, 93}
 	}
 	js := make([]byte, 0, 128)
@@ -223,7 +223,7 @@ func MakeArrayInt(values []int) []byte {
 // Parameter type must be slice of boolean.
 // For more information look MakeArray() function.
 func MakeArrayBool(values []bool) []byte {
-	if values == nil {
+	if len(values) == 0 {
 		return []byte{91, 93}
 	}
 	js := make([]byte, 0, 128)
@@ -249,7 +249,7 @@ func MakeArrayBool(values []bool) []byte {
 // Parameter type must be slice of float64.
 // For more information look MakeArray() function.
 func MakeArrayFloat(values []float64) []byte {
-	if values == nil {
+	if len(values) == 0 {
 		return []byte{91, 93}
 	}
 	js := make([]byte, 0, 128)
@@ -279,7 +279,7 @@ func MakeArrayFloat(values []float64) []byte {
 // Parameter type must be slice of byte.
 // For more information look MakeArray() function.
 func MakeArrayBytes(values ...[]byte) []byte {
-	if values == nil {
+	if len(values) == 0 {
 		return []byte{91, 93}
 	}
 	js := make([]byte, 0, 128)
@@ -305,7 +305,7 @@ func MakeJson(keys []string, values []interface{}) []byte {
 	if len(keys) != len(values) {
 		return nil
 	}
-	if keys == nil {
+	if len(keys) == 0 {
 		return []byte{123, 125}
 	}
 	js := make([]byte, 0, 128)
@@ -328,7 +328,7 @@ func MakeJsonString(keys, values []string) []byte {
 	if len(keys) != len(values) {
 		return nil
 	}
-	if keys == nil {
+	if len(keys) == 0 {
 		return []byte{123, 125}
 	}
 	js := make([]byte, 0, 128)
@@ -348,7 +348,7 @@ func MakeJsonString(keys, values []string) []byte {
 
 // MakeJsonWithMap creates an JSON formation from given string-string-map, and returns them as byte slice.
 func MakeJsonWithMap(json map[string]string) []byte {
-	if json == nil {
+	if len(json) == 0 {
 		return []byte{123, 125}
 	}
 	js := make([]byte, 0, 128)
-- 
2.43.0


From d3b7d297e65c3131dba6b9e80bd12001c78e40d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:49 +0000
Subject: [PATCH 24/51] fix: MakeArrayFloat writes the numbers

---
 make.go | 14 +-------------
 1 file changed, 1 insertion(+), 13 deletions(-)

diff --git a/make.go b/make.go
index 94238c4..802193a 100755
--- a/make.go
+++ b/make.go
@@ -255,19 +255,7 @@ func MakeArrayFloat(values []float64) []byte {
 	js := make([]byte, 0, 128)
 	js = append(js, 91)
 	for _, v := range values {
-		num := strconv.FormatFloat(v, 'f', -1, 64)
-		start := 0
-		for i := 0; i < len(num); i++ {
-			if num[i] == 'e' {
-				start = i
-			}
-		}
-		exp, _ := strconv.Atoi(num[start+2:])
-		if exp == 0 {
-			js = append(js, []byte(num[:start])...)
-		} else {
-			js = append(js, []byte(num)...)
-		}
+		js = append(js, []byte(strconv.FormatFloat(v, 'f', -1, 64))...)
 		js = append(js, 44)
 	}
 	js = js[:len(js)-1]
-- 
2.43.0


From f6c4e578a3f3a0d17fe476e55f1a93793ee8d891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:50 +0000
Subject: [PATCH 25/51] fix: Indent of strings that end with a backslash

---
 others.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/others.go b/others.go
index b481cc3..7ee86bc 100755
--- a/others.go
+++ b/others.go
@@ -106,11 +106,16 @@ func Indent(json []byte) []byte {
 	level := 0
 	for i := 0; i < len(json); i++ {
 		curr := json[i]
-		if curr == 34 {
+		if curr == 92 {
 			newJSON = append(newJSON, curr)
-			if json[i-1] == 92 {
-				continue
+			if i+1 < len(json) {
+				newJSON = append(newJSON, json[i+1])
 			}
+			i++
+			continue
+		}
+		if curr == 34 {
+			newJSON = append(newJSON, curr)
 			inQuote = !inQuote
 			continue
 		}
-- 
2.43.0


From 00e840197bf2b4628f85cc4bddfac9db454d1fff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:50 +0000
Subject: [PATCH 26/51] fix: Walk stops when the callback asks for it

---
 walk.go | 50 +++++++++++++++++++-------------------------------
 1 file changed, 19 insertions(+), 31 deletions(-)

diff --git a/walk.go b/walk.go
index b9c2ba0..38fc827 100644
--- a/walk.go
+++ b/walk.go
@@ -4,44 +4,38 @@ import "strconv"
 
 func (j *JO) Walk(callback func(k string, v []byte, p []string) (bool, error)) error {
 	path := []string{}
-	return walk(j.body, path, callback)
+	_, err := walk(j.body, path, callback)
+	return err
 }
 
 func Walk(json []byte, callback func(k string, v []byte, p []string) (bool, error)) error {
 	path := []string{}
-	return walk(json, path, callback)
+	_, err := walk(json, path, callback)
+	return err
 }
 
-func walk(json []byte, path []string, callback func(k string, v []byte, p []string) (bool, error)) error {
+// walk reports whether the walk has to go on.
+func walk(json []byte, path []string, callback func(k string, v []byte, p []string) (bool, error)) (bool, error) {
 	t, err := GetType(json, path...)
 	if err != nil {
-		return err
+		return false, err
 	}
+	keepGoing := true
 	switch t {
 	case TypeObject:
-		err := IterateKeyValue(json, func(keyBytes, _ []byte) (bool, error) {
-			err = walk(json, appendPath(path, string(keyBytes)), callback)
-			if err != nil {
-				return false, err
-			}
-			return true, nil
+		err = IterateKeyValue(json, func(keyBytes, _ []byte) (bool, error) {
+			var err error
+			keepGoing, err = walk(json, appendPath(path, string(keyBytes)), callback)
+			return keepGoing, err
 		}, path...)
-		if err != nil {
-			return err
-		}
 	case TypeArray:
 		i := 0
-		err := IterateArray(json, func(_ []byte) (bool, error) {
-			err = walk(json, appendPath(path, strconv.Itoa(i)), callback)
-			if err != nil {
-				return false, err
-			}
+		err = IterateArray(json, func(_ []byte) (bool, error) {
+			var err error
+			keepGoing, err = walk(json, appendPath(path, strconv.Itoa(i)), callback)
 			i++
-			return true, nil
+			return keepGoing, err
 		}, path...)
-		if err != nil {
-			return err
-		}
 	default:
 		key := ""
 		if len(path) != 0 {
@@ -49,15 +43,9 @@ func walk(json []byte, path []string, callback func(k string, v []byte, p []stri
 		}
 		val, err := Get(json, path...)
 		if err != nil {
-			return err
-		}
-		keepGoing, err := callback(key, val, path)
-		if err != nil {
-			return err
-		}
-		if !keepGoing {
-			return nil
+			return false, err
 		}
+		return callback(key, val, path)
 	}
-	return nil
+	return keepGoing, err
 }
-- 
2.43.0


From 50f7ebb83e21169df15c312431621e78402ed6b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:50 +0000
Subject: [PATCH 27/51] fix: a Scheme shares its key lists with nobody

---
 make.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/make.go b/make.go
index 802193a..53529dd 100755
--- a/make.go
+++ b/make.go
@@ -18,6 +18,7 @@ type Scheme struct {
 // It needs key(s) for create JSON.
 // More information on Type Scheme example.
 func MakeScheme(keys ...string) *Scheme {
+	keys = append([]string(nil), keys...)
 	return &Scheme{keys: keys, originalKeys: keys}
 }
 
@@ -115,7 +116,7 @@ func (s *Scheme) Add(key string) bool {
 			return false
 		}
 	}
-	s.keys = append(s.keys, key)
+	s.keys = appendPath(s.keys, key)
 	return true
 }
 
@@ -151,13 +152,13 @@ func (s *Scheme) Restore() {
 // GetOriginalKeys is a simple get function for get Schemes original keys.
 // More information on Type Scheme example.
 func (s *Scheme) GetOriginalKeys() []string {
-	return s.originalKeys
+	return append([]string(nil), s.originalKeys...)
 }
 
 // GetCurrentKeys is a simple get function for get Schemes current keys.
 // More information on Type Scheme example.
 func (s *Scheme) GetCurrentKeys() []string {
-	return s.keys
+	return append([]string(nil), s.keys...)
 }
 
 // MakeEmptyArray simply creates "[]" this as byte slice.
-- 
2.43.0


From 3cfdbc0939422f68a3c59da7a1da9b965d98511e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:50 +0000
Subject: [PATCH 28/51] fix: CheckAbs of an empty object

---
 make.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/make.go b/make.go
index 53529dd..124f729 100755
--- a/make.go
+++ b/make.go
@@ -85,7 +85,7 @@ func (s *Scheme) Check(json []byte) bool {
 // CheckAbs checks the json is absolutely fitting the scheme or not
 func (s *Scheme) CheckAbs(json []byte) bool {
 	keys, err := GetKeys(json)
-	if err != nil {
+	if err != nil && !ErrEqual(err, ErrCodeEmpty) {
 		return false
 	}
 	if len(keys) != len(s.keys) {
-- 
2.43.0


From 4725b87da86452d5e86221f3126d338b1b4dd6c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:12 +0000
Subject: [PATCH 29/51] fix: MutateJson keeps strings strings

---
 inter_get.go | 12 ++++++++++++
 make.go      | 25 ++++++++++++-------------
 2 files changed, 24 insertions(+), 13 deletions(-)

diff --git a/inter_get.go b/inter_get.go
index 8374414..b1c2643 100755
--- a/inter_get.go
+++ b/inter_get.go
@@ -21,6 +21,18 @@ func Get(json []byte, path ...string) ([]byte, error) {
 	return json[start:end], err
 }
 
+// getRaw is Get() func with the quotation marks of string values.
+func getRaw(json []byte, path ...string) ([]byte, error) {
+	_, start, end, err := core(json, false, path...)
+	if err != nil {
+		return nil, err
+	}
+	if json[start-1] == 34 {
+		return json[start-1 : end+1], nil
+	}
+	return json[start:end], nil
+}
+
 // GetString is a variation of Get() func.
 // GetString returns the value that path has pointed as string.
 func GetString(json []byte, path ...string) (string, error) {
diff --git a/make.go b/make.go
index 124f729..1c601c8 100755
--- a/make.go
+++ b/make.go
@@ -37,16 +37,16 @@ func (s *Scheme) MakeJsonString(values ...string) []byte {
 // MutateJson use for mutating a json to another json with a scheme.
 func (s *Scheme) MutateJson(json []byte) ([]byte, error) {
 	newJson := []byte(`{}`)
-	var err, err2 error
-	var val string
+	var err error
+	var val []byte
 	for _, k := range s.keys {
-		val, err = GetString(json, k)
-		val = formatType(val)
-		newJson, err2 = AddKeyValueString(newJson, k, val)
-		if err == nil {
-			if err2 != nil {
-				return nil, err
-			}
+		val, err = getRaw(json, k)
+		if err != nil {
+			val = []byte(`""`)
+		}
+		newJson, err = AddKeyValue(newJson, k, val)
+		if err != nil {
+			return nil, err
 		}
 	}
 	return newJson, nil
@@ -56,14 +56,13 @@ func (s *Scheme) MutateJson(json []byte) ([]byte, error) {
 func (s *Scheme) MutateJsonAbs(json []byte) ([]byte, error) {
 	newJson := []byte(`{}`)
 	var err error
-	var val string
+	var val []byte
 	for _, k := range s.keys {
-		val, err = GetString(json, k)
+		val, err = getRaw(json, k)
 		if err != nil {
 			return nil, err
 		}
-		val = formatType(val)
-		newJson, err = AddKeyValueString(newJson, k, val)
+		newJson, err = AddKeyValue(newJson, k, val)
 		if err != nil {
 			return nil, err
 		}
-- 
2.43.0


From ed540f86a8dbd93c6149120004145090b3affda8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:12 +0000
Subject: [PATCH 30/51] fix: Parse of arrays with a single scalar element

---
 parse_core.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/parse_core.go b/parse_core.go
index 0dee1ff..da27e4e 100755
--- a/parse_core.go
+++ b/parse_core.go
@@ -87,6 +87,13 @@ func pCore(json []byte, core *node) error {
 					newNode := &node{up: core, label: strconv.Itoa(indexList.last()), value: json[valStart:i]}
 					core.down = append(core.down, newNode)
 					valStart = i + 1
+				case 91:
+					// single element, if there is any
+					if !onlySpace(json[valStart:i]) {
+						newNode := &node{up: core, label: strconv.Itoa(indexList.last()), value: json[valStart:i]}
+						core.down = append(core.down, newNode)
+						valStart = i + 1
+					}
 				}
 				core.value = json[braceList.pop() : i+1]
 				indexList.pop()
-- 
2.43.0


From fd58df580661e8d6b2e2f8b96f8d8b5faada96e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:51 +0000
Subject: [PATCH 31/51] fix: Parser.Set leaves no children of the old value

---
 parse_set.go   | 40 ++--------------------------------------
 parse_utils.go | 10 ++++++++++
 2 files changed, 12 insertions(+), 38 deletions(-)

diff --git a/parse_set.go b/parse_set.go
index d257432..7f16a5c 100755
--- a/parse_set.go
+++ b/parse_set.go
@@ -7,47 +7,11 @@ import "strconv"
 // Path variable can not be null,
 // otherwise it will provide an error message.
 func (p *Parser) Set(newVal []byte, path ...string) error {
-	lenp := len(path)
-	lenv := len(newVal)
-	var curr *node
-	var err error
-	if lenp == 0 {
-		return errNullPath()
-	}
-	curr, err = p.core.walk(path)
+	json, err := Set(p.json, newVal, path...)
 	if err != nil {
 		return err
 	}
-	if lenv >= 2 {
-		if newVal[0] == 91 || newVal[0] == 123 {
-			newCore := createNode(nil)
-			pCore(newVal, newCore)
-			newCore.label = curr.label
-			newCore.up = curr.up
-			index := curr.getIndex()
-			curr.up.down[index] = newCore
-			newCore.value = newVal
-			p.json, _ = Set(p.json, newVal, path...)
-			for i := 0; i < lenp-1; i++ {
-				newCore = newCore.up
-				newCore.value, err = Get(p.json, path[:lenp-1-i]...)
-				if err != nil {
-					return err
-				}
-			}
-			return nil
-		}
-	}
-	curr.value = newVal
-	p.json, _ = Set(p.json, newVal, path...)
-	for i := 0; i < lenp-1; i++ {
-		curr = curr.up
-		curr.value, err = Get(p.json, path[:lenp-1-i]...)
-		if err != nil {
-			return err
-		}
-	}
-	return nil
+	return p.update(json)
 }
 
 // SetString is a variation of Set() func.
diff --git a/parse_utils.go b/parse_utils.go
index 0bdd206..f8f1140 100755
--- a/parse_utils.go
+++ b/parse_utils.go
@@ -81,6 +81,16 @@ func Parse(json []byte) (*Parser, error) {
 	return &pars, nil
 }
 
+// update replaces the document and rebuilds the nodes from it.
+func (p *Parser) update(json []byte) error {
+	pars, err := Parse(json)
+	if err != nil {
+		return err
+	}
+	p.core, p.json = pars.core, pars.json
+	return nil
+}
+
 func (n *node) insert(up *node, index int) error {
 	lend := len(up.down)
 	if lend != 0 {
-- 
2.43.0


From 0ec6774579cfee844360fcd3f6ba421056e5d6b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:51 +0000
Subject: [PATCH 32/51] fix: Parser.SetKey changes nothing when it fails

---
 parse_set.go | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/parse_set.go b/parse_set.go
index 7f16a5c..591a059 100755
--- a/parse_set.go
+++ b/parse_set.go
@@ -68,14 +68,9 @@ func (p *Parser) SetKey(newKey string, path ...string) error {
 			return errKeyAlreadyExist(newKey)
 		}
 	}
-	curr.label = newKey
-	p.json, _ = SetKey(p.json, newKey, path...)
-	for i := 0; i < lenp-1; i++ {
-		curr = curr.up
-		curr.value, _ = Get(p.json, path[:lenp-1-i]...)
-		if err != nil {
-			return err
-		}
+	json, err := SetKey(p.json, newKey, path...)
+	if err != nil {
+		return err
 	}
-	return nil
+	return p.update(json)
 }
-- 
2.43.0


From 867a2d3ee8bec951ac0bfdc78d61a9d182bae9b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:51 +0000
Subject: [PATCH 33/51] fix: Parser.SetString of empty strings and strings that
 end with a quote

---
 parse_set.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/parse_set.go b/parse_set.go
index 591a059..f8cd356 100755
--- a/parse_set.go
+++ b/parse_set.go
@@ -17,10 +17,10 @@ func (p *Parser) Set(newVal []byte, path ...string) error {
 // SetString is a variation of Set() func.
 // SetString takes the set value as string.
 func (p *Parser) SetString(newValue string, path ...string) error {
-	if newValue[0] != 34 && newValue[len(newValue)-1] != 34 {
-		return p.Set([]byte(`"`+newValue+`"`), path...)
+	if len(newValue) > 1 && newValue[0] == 34 && newValue[len(newValue)-1] == 34 {
+		return p.Set([]byte(newValue), path...)
 	}
-	return p.Set([]byte(newValue), path...)
+	return p.Set([]byte(`"`+newValue+`"`), path...)
 }
 
 // SetInt is a variation of Set() func.
-- 
2.43.0


From 2ac728015d7658b83c9092df459b15f62b9b36ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:51 +0000
Subject: [PATCH 34/51] fix: Parser.AddKeyValue looks for the key in the object
 it adds to

---
 parse_add.go | 101 ++-------------------------------------------------
 1 file changed, 3 insertions(+), 98 deletions(-)

diff --git a/parse_add.go b/parse_add.go
index 8361fd1..2c5f765 100755
--- a/parse_add.go
+++ b/parse_add.go
@@ -8,109 +8,14 @@ import (
 // Path variable must point to an object,
 // otherwise it will provide an error message.
 func (p *Parser) AddKeyValue(key string, newVal []byte, path ...string) error {
-	lenp := len(path)
-	lenv := len(key)
-	var curr *node
-	var err error
-	if lenv == 0 {
+	if len(key) == 0 {
 		return errNullKey()
 	}
-	json, err := p.Get(path...)
+	json, err := AddKeyValue(p.json, key, newVal, path...)
 	if err != nil {
 		return err
 	}
-	curr = p.core
-	if lenp == 0 {
-		for _, d := range curr.down {
-			if d.label == key {
-				return errKeyAlreadyExist(key)
-			}
-		}
-		if len(json) >= 2 {
-			if json[0] == 123 && json[len(json)-1] == 125 {
-				newKV := []byte(`,"` + key + `":` + string(newVal))
-				if lenv >= 2 {
-					if newVal[0] == 91 || newVal[0] == 123 {
-						newNode := createNode(nil)
-						pCore(newVal, newNode)
-						newNode.label = key
-						newNode.value = newVal
-						if len(p.json) == 2 {
-							p.json = replace(p.json, newKV[1:], len(p.json)-1, len(p.json)-1)
-						} else {
-							p.json = replace(p.json, newKV, len(p.json)-1, len(p.json)-1)
-						}
-						curr.down = append(curr.down, newNode)
-						newNode.up = curr
-						return nil
-					}
-				}
-				p.json = replace(p.json, newKV, len(p.json)-1, len(p.json)-1)
-				newNode := createNode(nil)
-				newNode.label = key
-				newNode.value = newVal
-				curr.down = append(curr.down, newNode)
-				newNode.up = curr
-				return nil
-			}
-			return errObjectExpected()
-		}
-		return errBadJSON(0)
-	}
-	curr, err = p.core.walk(path)
-	if err != nil {
-		return err
-	}
-	for _, d := range curr.up.down {
-		if d.label == key {
-			return errKeyAlreadyExist(key)
-		}
-	}
-	if len(json) >= 2 {
-		if json[0] == 123 && json[len(json)-1] == 125 {
-			if lenv >= 2 {
-				if newVal[0] == 91 || newVal[0] == 123 {
-					newNode := createNode(nil)
-					pCore(newVal, newNode)
-					newNode.label = key
-					newNode.value = newVal
-					curr.down = append(curr.down, newNode)
-					newNode.up = curr
-					p.json, err = AddKeyValue(p.json, key, newVal, path...)
-					if err != nil {
-						return err
-					}
-					for i := 0; i < lenp; i++ {
-						newNode = newNode.up
-						newNode.value, err = Get(p.json, path[:lenp-i]...)
-						if err != nil {
-							return err
-						}
-					}
-					return nil
-				}
-			}
-			newNode := createNode(nil)
-			newNode.label = key
-			newNode.value = newVal
-			curr.down = append(curr.down, newNode)
-			newNode.up = curr
-			p.json, err = AddKeyValue(p.json, key, newVal, path...)
-			if err != nil {
-				return err
-			}
-			for i := 0; i < lenp; i++ {
-				newNode = newNode.up
-				newNode.value, err = Get(p.json, path[:lenp-i]...)
-				if err != nil {
-					return err
-				}
-			}
-			return nil
-		}
-		return errObjectExpected()
-	}
-	return errBadJSON(0)
+	return p.update(json)
 }
 
 // Add adds a value to an array.
-- 
2.43.0


From 34cfadaa74e4785d8d7b8434886e0ee73ecc6d03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:52 +0000
Subject: [PATCH 35/51] fix: Parser.Add to an empty array

---
 parse_add.go | 98 ++--------------------------------------------------
 1 file changed, 3 insertions(+), 95 deletions(-)

diff --git a/parse_add.go b/parse_add.go
index 2c5f765..4798bdb 100755
--- a/parse_add.go
+++ b/parse_add.go
@@ -22,106 +22,14 @@ func (p *Parser) AddKeyValue(key string, newVal []byte, path ...string) error {
 // Path variable must point to an array,
 // otherwise it will provide an error message.
 func (p *Parser) Add(newVal []byte, path ...string) error {
-	lenp := len(path)
-	lenv := len(newVal)
-	var curr *node
-	var err error
-	if lenv == 0 {
+	if len(newVal) == 0 {
 		return errNullKey()
 	}
-	json, err := p.Get(path...)
+	json, err := Add(p.json, newVal, path...)
 	if err != nil {
 		return err
 	}
-	if err != nil {
-		return err
-	}
-	if lenp == 0 {
-		curr = p.core
-		if len(json) >= 2 {
-			if json[0] == 91 && json[len(json)-1] == 93 {
-				newValue := []byte(`,` + string(newVal))
-				if lenv >= 2 {
-					if newVal[0] == 91 || newVal[0] == 123 {
-						newNode := createNode(nil)
-						pCore(newVal, newNode)
-						index := len(curr.down)
-						newNode.label = strconv.Itoa(index)
-						newNode.value = newVal
-						if len(p.json) == 2 {
-							p.json = replace(p.json, newValue[1:], len(p.json)-1, len(p.json)-1)
-						} else {
-							p.json = replace(p.json, newValue, len(p.json)-1, len(p.json)-1)
-						}
-						curr.down = append(curr.down, newNode)
-						newNode.up = curr
-						return nil
-					}
-				}
-				p.json = replace(p.json, newValue, len(p.json)-1, len(p.json)-1)
-				newNode := createNode(nil)
-				index := len(curr.down)
-				newNode.label = strconv.Itoa(index)
-				newNode.value = newVal
-				curr.down = append(curr.down, newNode)
-				newNode.up = curr
-				return nil
-			}
-			return errArrayExpected()
-		}
-		return errBadJSON(0)
-	}
-	curr, err = p.core.walk(path)
-	if err != nil {
-		return err
-	}
-	if len(json) >= 2 {
-		if json[0] == 91 && json[len(json)-1] == 93 {
-			if lenv >= 2 {
-				if newVal[0] == 91 || newVal[0] == 123 {
-					newNode := createNode(nil)
-					pCore(newVal, newNode)
-					index := len(curr.down)
-					newNode.label = strconv.Itoa(index)
-					newNode.value = newVal
-					curr.down = append(curr.down, newNode)
-					newNode.up = curr
-					p.json, err = Add(p.json, newVal, path...)
-					if err != nil {
-						return err
-					}
-					for i := 0; i < lenp-1; i++ {
-						newNode = newNode.up
-						newNode.value, err = Get(p.json, path[:lenp-i]...)
-						if err != nil {
-							return err
-						}
-					}
-					return nil
-				}
-			}
-			newNode := createNode(nil)
-			index := len(curr.down)
-			newNode.label = strconv.Itoa(index)
-			newNode.value = newVal
-			curr.down = append(curr.down, newNode)
-			newNode.up = curr
-			p.json, err = Add(p.json, newVal, path...)
-			if err != nil {
-				return err
-			}
-			for i := 0; i < lenp; i++ {
-				newNode = newNode.up
-				newNode.value, err = Get(p.json, path[:lenp-i]...)
-				if err != nil {
-					return err
-				}
-			}
-			return nil
-		}
-		return errArrayExpected()
-	}
-	return errBadJSON(0)
+	return p.update(json)
 }
 
 // Insert inserts a value to an array.
-- 
2.43.0


From 5ac6f8b75ed566494e1d1c21e013541fd1a0337e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:52 +0000
Subject: [PATCH 36/51] fix: Parser.Insert puts the element at its index

---
 parse_add.go | 111 ++-------------------------------------------------
 1 file changed, 3 insertions(+), 108 deletions(-)

diff --git a/parse_add.go b/parse_add.go
index 4798bdb..2a0b05f 100755
--- a/parse_add.go
+++ b/parse_add.go
@@ -36,119 +36,14 @@ func (p *Parser) Add(newVal []byte, path ...string) error {
 // Path variable must point to an array,
 // otherwise it will provide an error message.
 func (p *Parser) Insert(newIndex int, newVal []byte, path ...string) error {
-	lenp := len(path)
-	lenv := len(newVal)
-	var curr *node
-	var err error
-	if lenv == 0 {
+	if len(newVal) == 0 {
 		return errNullKey()
 	}
-	json, err := p.Get(path...)
+	json, err := Insert(p.json, newIndex, newVal, path...)
 	if err != nil {
 		return err
 	}
-	curr = p.core
-	if lenp == 0 {
-		if len(json) >= 2 {
-			if json[0] == 91 && json[len(json)-1] == 93 {
-				if lenv >= 2 {
-					if newVal[0] == 91 || newVal[0] == 123 {
-						newNode := createNode(nil)
-						pCore(newVal, newNode)
-						err = newNode.insert(curr, newIndex)
-						if err != nil {
-							return err
-						}
-						p.json, err = Insert(p.json, newIndex, newVal, path...)
-						if err != nil {
-							return err
-						}
-						err = newNode.insert(curr, newIndex)
-						if err != nil {
-							return err
-						}
-						curr.down = append(curr.down, newNode)
-						newNode.up = curr
-						return nil
-					}
-				}
-				newNode := createNode(nil)
-				err = newNode.insert(curr, newIndex)
-				if err != nil {
-					return err
-				}
-				newNode.value = newVal
-				curr.down = append(curr.down, newNode)
-				p.json, err = Insert(p.json, newIndex, newVal, path...)
-				if err != nil {
-					return err
-				}
-				err = newNode.insert(curr, newIndex)
-				if err != nil {
-					return err
-				}
-				newNode.up = curr
-				return nil
-			}
-			return errArrayExpected()
-		}
-		return errBadJSON(0)
-	}
-	curr, err = p.core.walk(path)
-	if err != nil {
-		return err
-	}
-	if len(json) >= 2 {
-		if json[0] == 91 && json[len(json)-1] == 93 {
-			if lenv >= 2 {
-				if newVal[0] == 91 || newVal[0] == 123 {
-					newNode := createNode(nil)
-					pCore(newVal, newNode)
-					err = newNode.insert(curr, newIndex)
-					if err != nil {
-						return err
-					}
-					newNode.value = newVal
-					curr.down = append(curr.down, newNode)
-					newNode.up = curr
-					p.json, err = Insert(p.json, newIndex, newVal, path...)
-					if err != nil {
-						return err
-					}
-					for i := 0; i < lenp; i++ {
-						newNode = newNode.up
-						newNode.value, err = Get(p.json, path[:lenp-i]...)
-						if err != nil {
-							return err
-						}
-					}
-					return nil
-				}
-			}
-			newNode := createNode(nil)
-			err = newNode.insert(curr, newIndex)
-			if err != nil {
-				return err
-			}
-			newNode.value = newVal
-			curr.down = append(curr.down, newNode)
-			newNode.up = curr
-			p.json, err = Insert(p.json, newIndex, newVal, path...)
-			if err != nil {
-				return err
-			}
-			for i := 0; i < lenp; i++ {
-				newNode = newNode.up
-				newNode.value, err = Get(p.json, path[:lenp-i]...)
-				if err != nil {
-					return err
-				}
-			}
-			return nil
-		}
-		return errArrayExpected()
-	}
-	return errBadJSON(0)
+	return p.update(json)
 }
 
 // AddKeyValueString is a variation of AddKeyValue() func.
-- 
2.43.0


From 1e3a7e26011fbcaecd648f80d06a0ba7ae7801a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:52 +0000
Subject: [PATCH 37/51] fix: Parser.Delete moves the later elements up

---
 parse_delete.go | 22 ++--------------------
 1 file changed, 2 insertions(+), 20 deletions(-)

diff --git a/parse_delete.go b/parse_delete.go
index 726979c..180d791 100755
--- a/parse_delete.go
+++ b/parse_delete.go
@@ -4,27 +4,9 @@ package jin
 // Path value must be provided,
 // otherwise it will provide an error message.
 func (p *Parser) Delete(path ...string) error {
-	var err error
-	var curr *node
-	lenp := len(path)
-	if lenp == 0 {
-		return errNullPath()
-	}
-	curr, err = p.core.walk(path)
+	json, err := Delete(p.json, path...)
 	if err != nil {
 		return err
 	}
-	curr.deAttach()
-	p.json, err = Delete(p.json, path...)
-	if err != nil {
-		return err
-	}
-	for i := 0; i < lenp-1; i++ {
-		curr = curr.up
-		curr.value, err = Get(p.json, path[:lenp-i-1]...)
-		if err != nil {
-			return err
-		}
-	}
-	return nil
+	return p.update(json)
 }
-- 
2.43.0


From f7e250e98a387dde06a4eb2ed2c22eed66e523fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:57 +0000
Subject: [PATCH 38/51] fix: remove node functions nothing uses any more

---
 parse_utils.go | 41 -----------------------------------------
 1 file changed, 41 deletions(-)

diff --git a/parse_utils.go b/parse_utils.go
index f8f1140..bac27c5 100755
--- a/parse_utils.go
+++ b/parse_utils.go
@@ -2,7 +2,6 @@ package jin
 
 import (
 	"fmt"
-	"strconv"
 )
 
 type node struct {
@@ -20,11 +19,6 @@ type Parser struct {
 	json []byte
 }
 
-func createNode(up *node) *node {
-	Node := node{up: up}
-	return &Node
-}
-
 func packKeyValue(label string, value []byte) []byte {
 	byteOutput := make([]byte, 0, 16)
 	byteOutput = append(byteOutput, 34)
@@ -91,32 +85,6 @@ func (p *Parser) update(json []byte) error {
 	return nil
 }
 
-func (n *node) insert(up *node, index int) error {
-	lend := len(up.down)
-	if lend != 0 {
-		if lend-1 < index {
-			return errIndexOutOfRange()
-		}
-		for i := index; i < lend; i++ {
-			up.down[i].label = strconv.Itoa(i + 1)
-		}
-		n.label = strconv.Itoa(index)
-		n.up = up
-		return nil
-	}
-	return errIndexOutOfRange()
-}
-
-func (n *node) deAttach() {
-	newDown := make([]*node, 0, len(n.up.down)-1)
-	for _, d := range n.up.down {
-		if d.label != n.label {
-			newDown = append(newDown, d)
-		}
-	}
-	n.up.down = newDown
-}
-
 func (n *node) walk(path []string) (*node, error) {
 	for _, p := range path {
 		for _, d := range n.down {
@@ -132,15 +100,6 @@ func (n *node) walk(path []string) (*node, error) {
 	return n, nil
 }
 
-func (n *node) getIndex() int {
-	for i, v := range n.up.down {
-		if v.label == n.label {
-			return i
-		}
-	}
-	return -1
-}
-
 // Tree is a simple tool for visualizing JSONs as semi-tree formation.
 // This function returns that form as string.
 func (p *Parser) Tree() string {
-- 
2.43.0


From 81fbfb9a3a96c37896158f2cee9fe415f7bf9e5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:27 +0000
Subject: [PATCH 39/51] fix: documents that are empty or nothing but space are
 bad JSON

---
 inter_core.go | 22 ++++++++++------------
 inter_get.go  | 27 ++++++++++++---------------
 inter_iter.go | 18 ++++++++----------
 inter_type.go | 22 ++++++++--------------
 parse_core.go |  5 +----
 utils.go      | 13 ++++---------
 6 files changed, 43 insertions(+), 64 deletions(-)

diff --git a/inter_core.go b/inter_core.go
index 741c555..433b560 100755
--- a/inter_core.go
+++ b/inter_core.go
@@ -31,13 +31,12 @@ func core(json []byte, justStart bool, path ...string) (int, int, int, error) {
 		isJSONChar[v] = true
 	}
 	// trim spaces of start
-	for space(json[offset]) {
-		// json length overflow control
-		if offset > len(json)-1 {
-			return -1, -1, -1, errBadJSON(offset)
-		}
+	for offset < len(json) && space(json[offset]) {
 		offset++
-		continue
+	}
+	// json length overflow control
+	if offset == len(json) {
+		return -1, -1, -1, errBadJSON(offset)
 	}
 	// braceType determine whether or not search will be a key search or index search
 	braceType := json[offset]
@@ -407,13 +406,12 @@ func core(json []byte, justStart bool, path ...string) (int, int, int, error) {
 		return -1, -1, -1, errBadJSON(0)
 	}
 	// skip spaces from top.
-	for space(json[offset]) {
-		// json length overflow control
-		if offset > len(json)-1 {
-			return -1, -1, -1, errBadJSON(offset)
-		}
+	for offset < len(json) && space(json[offset]) {
 		offset++
-		continue
+	}
+	// json length overflow control
+	if offset == len(json) {
+		return -1, -1, -1, errBadJSON(offset)
 	}
 	if justStart {
 		if json[offset] == 93 {
diff --git a/inter_get.go b/inter_get.go
index b1c2643..1d996ed 100755
--- a/inter_get.go
+++ b/inter_get.go
@@ -343,12 +343,11 @@ func GetKeys(json []byte, path ...string) ([]string, error) {
 	var start int
 	var err error
 	if len(path) == 0 {
-		for space(json[start]) {
-			if start > len(json)-1 {
-				return nil, errBadJSON(start)
-			}
+		for start < len(json) && space(json[start]) {
 			start++
-			continue
+		}
+		if start == len(json) {
+			return nil, errBadJSON(start)
 		}
 	} else {
 		_, start, _, err = core(json, true, path...)
@@ -433,12 +432,11 @@ func GetValues(json []byte, path ...string) ([]string, error) {
 	var start int
 	var err error
 	if len(path) == 0 {
-		for space(json[start]) {
-			if start > len(json)-1 {
-				return nil, errBadJSON(start)
-			}
+		for start < len(json) && space(json[start]) {
 			start++
-			continue
+		}
+		if start == len(json) {
+			return nil, errBadJSON(start)
 		}
 	} else {
 		_, start, _, err = core(json, true, path...)
@@ -530,12 +528,11 @@ func GetKeysValues(json []byte, path ...string) ([]string, []string, error) {
 	var start int
 	var err error
 	if len(path) == 0 {
-		for space(json[start]) {
-			if start > len(json)-1 {
-				return nil, nil, errBadJSON(start)
-			}
+		for start < len(json) && space(json[start]) {
 			start++
-			continue
+		}
+		if start == len(json) {
+			return nil, nil, errBadJSON(start)
 		}
 	} else {
 		_, start, _, err = core(json, true, path...)
diff --git a/inter_iter.go b/inter_iter.go
index fc9f140..de8de7f 100755
--- a/inter_iter.go
+++ b/inter_iter.go
@@ -15,12 +15,11 @@ func IterateArray(json []byte, callback func([]byte) (bool, error), path ...stri
 	var start int
 	var err error
 	if len(path) == 0 {
-		for space(json[start]) {
-			if start > len(json)-2 {
-				return errBadJSON(start)
-			}
+		for start < len(json) && space(json[start]) {
 			start++
-			continue
+		}
+		if start == len(json) {
+			return errBadJSON(start)
 		}
 	} else {
 		_, start, _, err = core(json, true, path...)
@@ -117,12 +116,11 @@ func IterateKeyValue(json []byte, callback func([]byte, []byte) (bool, error), p
 	var err error
 	var end int
 	if len(path) == 0 {
-		for space(json[start]) {
-			if start > len(json)-1 {
-				return errBadJSON(start)
-			}
+		for start < len(json) && space(json[start]) {
 			start++
-			continue
+		}
+		if start == len(json) {
+			return errBadJSON(start)
 		}
 	} else {
 		_, start, _, err = core(json, true, path...)
diff --git a/inter_type.go b/inter_type.go
index 63b096d..023302a 100755
--- a/inter_type.go
+++ b/inter_type.go
@@ -92,19 +92,14 @@ func IsEmpty(json []byte, path ...string) (bool, error) {
 	var end int = len(json) - 1
 	var err error
 	if len(path) == 0 {
-		for space(json[start]) {
-			if start > len(json)-1 {
-				return false, errBadJSON(start)
-			}
+		for start < len(json) && space(json[start]) {
 			start++
-			continue
+		}
+		if start == len(json) {
+			return false, errBadJSON(start)
 		}
 		for space(json[end]) {
-			if end < 1 {
-				return false, errBadJSON(end)
-			}
 			end--
-			continue
 		}
 	} else {
 		_, start, end, err = core(json, false, path...)
@@ -137,12 +132,11 @@ func typeControlCore(json []byte, control []byte, equal bool, path ...string) (b
 	var start int
 	var err error
 	if len(path) == 0 {
-		for space(json[start]) {
-			if start > len(json)-1 {
-				return false, -1, errBadJSON(start)
-			}
+		for start < len(json) && space(json[start]) {
 			start++
-			continue
+		}
+		if start == len(json) {
+			return false, -1, errBadJSON(start)
 		}
 	} else {
 		_, start, _, err = core(json, true, path...)
diff --git a/parse_core.go b/parse_core.go
index da27e4e..b803175 100755
--- a/parse_core.go
+++ b/parse_core.go
@@ -21,10 +21,7 @@ func pCore(json []byte, core *node) error {
 	for _, v := range chars {
 		isJSONChar[v] = true
 	}
-	for space(json[start]) {
-		if start > len(json)-1 {
-			return nil
-		}
+	for start < lenj && space(json[start]) {
 		start++
 	}
 	for i := start; i < lenj; i++ {
diff --git a/utils.go b/utils.go
index 2a82a49..c141245 100755
--- a/utils.go
+++ b/utils.go
@@ -205,20 +205,15 @@ func getStartEnd(json []byte, path ...string) (int, int, error) {
 			return -1, -1, err
 		}
 	} else {
-		for space(json[start]) {
-			if start > len(json)-1 {
-				return -1, -1, errBadJSON(start)
-			}
+		for start < lenj && space(json[start]) {
 			start++
-			continue
+		}
+		if start == lenj {
+			return -1, -1, errBadJSON(start)
 		}
 		end = lenj - 1
 		for space(json[end]) {
-			if end < start {
-				return -1, -1, errBadJSON(start)
-			}
 			end--
-			continue
 		}
 		// end is exclusive, as with a path
 		end++
-- 
2.43.0


From 433e7d070ab5ec6cb1f9f9a44b8c79526838e48c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:27 +0000
Subject: [PATCH 40/51] fix: Indent of documents with too many closing braces

---
 others.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/others.go b/others.go
index 7ee86bc..2c9f744 100755
--- a/others.go
+++ b/others.go
@@ -135,7 +135,9 @@ func Indent(json []byte) []byte {
 					continue
 				}
 				if curr == 93 {
-					level--
+					if level > 0 {
+						level--
+					}
 					// NL
 					newJSON = append(newJSON, 10)
 					// tab
@@ -155,7 +157,9 @@ func Indent(json []byte) []byte {
 					continue
 				}
 				if curr == 125 {
-					level--
+					if level > 0 {
+						level--
+					}
 					// NL
 					newJSON = append(newJSON, 10)
 					// tab
-- 
2.43.0


From ddb80c05ac0dbdc90216db8dd3f269c82eb0f01e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:27 +0000
Subject: [PATCH 41/51] fix: a lone quote is not a string

---
 utils.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/utils.go b/utils.go
index c141245..96e6930 100755
--- a/utils.go
+++ b/utils.go
@@ -153,7 +153,7 @@ func cleanValueString(str string) string {
 	for space(str[end]) && end > start {
 		end--
 	}
-	if str[start] == 34 && str[end] == 34 {
+	if str[start] == 34 && str[end] == 34 && start < end {
 		start++
 		end--
 	}
@@ -179,7 +179,7 @@ func cleanValue(str []byte) []byte {
 		}
 		end--
 	}
-	if str[start] == 34 && str[end] == 34 {
+	if str[start] == 34 && str[end] == 34 && start < end {
 		start++
 		end--
 	}
-- 
2.43.0


From 43053706c11870139ebfad53e64bf1bead5f6f76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:44 +0000
Subject: [PATCH 42/51] fix: AddKeyValue, Add and Insert to empty documents

---
 inter_add.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/inter_add.go b/inter_add.go
index 87095fa..9963e34 100755
--- a/inter_add.go
+++ b/inter_add.go
@@ -42,6 +42,10 @@ func AddKeyValue(json []byte, key string, value []byte, path ...string) ([]byte,
 				}
 			}
 		}
+		// nothing but space
+		if end == 0 {
+			return json, errBadJSON(0)
+		}
 	} else {
 		_, start, end, err = core(json, false, path...)
 		if err != nil {
@@ -115,6 +119,10 @@ func Add(json []byte, value []byte, path ...string) ([]byte, error) {
 				}
 			}
 		}
+		// nothing but space
+		if end == 0 {
+			return json, errBadJSON(0)
+		}
 	} else {
 		_, start, end, err = core(json, false, path...)
 		if err != nil {
@@ -152,6 +160,9 @@ func Insert(json []byte, index int, value []byte, path ...string) ([]byte, error
 	var start int
 	var end int
 	var err error
+	if len(json) < 2 {
+		return json, errBadJSON(0)
+	}
 	if len(path) == 0 {
 		for i := 0; i < len(json); i++ {
 			if !space(json[i]) {
@@ -179,6 +190,10 @@ func Insert(json []byte, index int, value []byte, path ...string) ([]byte, error
 				}
 			}
 		}
+		// nothing but space
+		if end == 0 {
+			return json, errBadJSON(0)
+		}
 	} else {
 		_, start, end, err = core(json, false, path...)
 		if err != nil {
-- 
2.43.0


From 21381885e6db89705dc9804a5a4b169812ca8374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:47 +0000
Subject: [PATCH 43/51] fix: Parse fails on braces that do not match

---
 parse_core.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/parse_core.go b/parse_core.go
index b803175..abbe1e0 100755
--- a/parse_core.go
+++ b/parse_core.go
@@ -76,6 +76,10 @@ func pCore(json []byte, core *node) error {
 				last = curr
 				continue
 			case 93, 125:
+				// no open brace to close
+				if core.up == nil {
+					return errBadJSON(i)
+				}
 				switch last {
 				case 58:
 					newNode := &node{up: core, label: byteArrayToString(key), value: json[valStart:i]}
@@ -98,6 +102,10 @@ func pCore(json []byte, core *node) error {
 				last = curr
 				continue
 			case 58:
+				// no key before the column
+				if end < start {
+					return errBadJSON(i)
+				}
 				key = json[start:end]
 				valStart = i + 1
 				last = 58
@@ -118,5 +126,9 @@ func pCore(json []byte, core *node) error {
 			}
 		}
 	}
+	// open braces are left
+	if core.up != nil {
+		return errBadJSON(lenj)
+	}
 	return nil
 }
-- 
2.43.0


From 5068c2b7d761bb7e3df7a4f38fe86701a04d4287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:14 +0000
Subject: [PATCH 44/51] fix: core does not look behind the end of a document
 that breaks off

---
 inter_core.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/inter_core.go b/inter_core.go
index 433b560..4d43806 100755
--- a/inter_core.go
+++ b/inter_core.go
@@ -35,7 +35,7 @@ func core(json []byte, justStart bool, path ...string) (int, int, int, error) {
 		offset++
 	}
 	// json length overflow control
-	if offset == len(json) {
+	if offset >= len(json) {
 		return -1, -1, -1, errBadJSON(offset)
 	}
 	// braceType determine whether or not search will be a key search or index search
@@ -410,7 +410,7 @@ func core(json []byte, justStart bool, path ...string) (int, int, int, error) {
 		offset++
 	}
 	// json length overflow control
-	if offset == len(json) {
+	if offset >= len(json) {
 		return -1, -1, -1, errBadJSON(offset)
 	}
 	if justStart {
-- 
2.43.0


From fe132a98f4771a66a9bbd177c9da54fa72d927a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:14 +0000
Subject: [PATCH 45/51] fix: a colon without a key is bad JSON

---
 inter_get.go  | 6 ++++++
 inter_iter.go | 3 +++
 2 files changed, 9 insertions(+)

diff --git a/inter_get.go b/inter_get.go
index 1d996ed..579a8d7 100755
--- a/inter_get.go
+++ b/inter_get.go
@@ -410,6 +410,9 @@ func GetKeys(json []byte, path ...string) ([]string, error) {
 				}
 				if curr == 58 {
 					if level == 1 {
+						if keyEnd <= keyStart {
+							return nil, errBadJSON(i)
+						}
 						key := json[keyStart+1 : keyEnd]
 						keys = append(keys, string(key))
 					}
@@ -600,6 +603,9 @@ func GetKeysValues(json []byte, path ...string) ([]string, []string, error) {
 				}
 				if curr == 58 {
 					if level == 1 {
+						if keyEnd <= keyStart {
+							return nil, nil, errBadJSON(i)
+						}
 						key := json[keyStart+1 : keyEnd]
 						keys = append(keys, string(key))
 						start = i + 1
diff --git a/inter_iter.go b/inter_iter.go
index de8de7f..8a01e48 100755
--- a/inter_iter.go
+++ b/inter_iter.go
@@ -243,6 +243,9 @@ func IterateKeyValue(json []byte, callback func([]byte, []byte) (bool, error), p
 						continue
 					}
 					if curr == 58 {
+						if keyEnd <= keyStart {
+							return errBadJSON(i)
+						}
 						key = json[keyStart+1 : keyEnd]
 						start = i + 1
 						continue
-- 
2.43.0


From 1da5833478741b62f7e00fecb937e1fbe8473825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:14 +0000
Subject: [PATCH 46/51] fix: IterateKeyValue of members without a value

---
 inter_iter.go | 52 ++++++---------------------------------------------
 1 file changed, 6 insertions(+), 46 deletions(-)

diff --git a/inter_iter.go b/inter_iter.go
index 8a01e48..40c5177 100755
--- a/inter_iter.go
+++ b/inter_iter.go
@@ -114,7 +114,6 @@ func IterateKeyValue(json []byte, callback func([]byte, []byte) (bool, error), p
 	}
 	var start int
 	var err error
-	var end int
 	if len(path) == 0 {
 		for start < len(json) && space(json[start]) {
 			start++
@@ -182,23 +181,7 @@ func IterateKeyValue(json []byte, callback func([]byte, []byte) (bool, error), p
 							if key == nil {
 								return nil
 							}
-							for j := start; j < i; j++ {
-								if !space(json[j]) {
-									start = j
-									break
-								}
-							}
-							for j := i - 1; j > start-1; j-- {
-								if !space(json[j]) {
-									end = j
-									break
-								}
-							}
-							if json[start] == 34 && json[end] == 34 {
-								_, innerError := callback(key, json[start+1:end])
-								return innerError
-							}
-							_, innerError := callback(key, json[start:end+1])
+							_, innerError := callback(key, cleanValue(json[start:i]))
 							return innerError
 						}
 					}
@@ -210,35 +193,12 @@ func IterateKeyValue(json []byte, callback func([]byte, []byte) (bool, error), p
 				}
 				if level == 1 {
 					if curr == 44 {
-						end = i - 1
-						for j := start; j < i; j++ {
-							if !space(json[j]) {
-								start = j
-								break
-							}
-						}
-						for j := i - 1; j > start-1; j-- {
-							if !space(json[j]) {
-								end = j
-								break
-							}
+						keepGoing, innerError := callback(key, cleanValue(json[start:i]))
+						if innerError != nil {
+							return innerError
 						}
-						if json[start] == 34 && json[end] == 34 {
-							keepGoing, innerError := callback(key, json[start+1:end])
-							if innerError != nil {
-								return innerError
-							}
-							if !keepGoing {
-								return nil
-							}
-						} else {
-							keepGoing, innerError := callback(key, json[start:end+1])
-							if innerError != nil {
-								return innerError
-							}
-							if !keepGoing {
-								return nil
-							}
+						if !keepGoing {
+							return nil
 						}
 						continue
 					}
-- 
2.43.0


From d7f6df5f4ecb57da9fdb27798c24b270c0de58c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:24 +0000
Subject: [PATCH 47/51] fix: a colon without a key is not the empty key

---
 inter_core.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inter_core.go b/inter_core.go
index 4d43806..3e0e238 100755
--- a/inter_core.go
+++ b/inter_core.go
@@ -244,7 +244,7 @@ func core(json []byte, justStart bool, path ...string) (int, int, int, error) {
 						if curr == 58 {
 							// comp between current path and key
 							// length comp between current path and key
-							if len(currentPath) == end-start {
+							if start > 0 && len(currentPath) == end-start {
 								same := true
 								// compare all elements
 								for j := 0; j < len(currentPath); j++ {
-- 
2.43.0


From f7bd27aca623ebcbf39c70b78520e325281aed4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:24 +0000
Subject: [PATCH 48/51] fix: edits at the end of a document that breaks off

---
 inter_add.go      | 2 +-
 inter_delete.go   | 2 +-
 inter_set.go      | 4 ++--
 jin_object_add.go | 2 +-
 4 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/inter_add.go b/inter_add.go
index 9963e34..bd1fa70 100755
--- a/inter_add.go
+++ b/inter_add.go
@@ -214,7 +214,7 @@ func Insert(json []byte, index int, value []byte, path ...string) ([]byte, error
 	if json[start-1] == 34 {
 		start--
 	}
-	if json[end] == 34 {
+	if end < len(json) && json[end] == 34 {
 		end++
 	}
 	var startEdge int
diff --git a/inter_delete.go b/inter_delete.go
index c96ffd5..27a8e0d 100755
--- a/inter_delete.go
+++ b/inter_delete.go
@@ -21,7 +21,7 @@ func Delete(json []byte, path ...string) ([]byte, error) {
 	if json[start-1] == 34 {
 		start--
 	}
-	if json[e] == 34 {
+	if e < len(json) && json[e] == 34 {
 		e++
 	}
 	var startEdge int
diff --git a/inter_set.go b/inter_set.go
index 47cd875..8c76348 100755
--- a/inter_set.go
+++ b/inter_set.go
@@ -16,7 +16,7 @@ func Set(json []byte, newValue []byte, path ...string) ([]byte, error) {
 	if err != nil {
 		return json, err
 	}
-	if json[start-1] == 34 && json[end] == 34 {
+	if json[start-1] == 34 && end < len(json) && json[end] == 34 {
 		return replace(json, newValue, start-1, end+1), nil
 	}
 	return replace(json, newValue, start, end), nil
@@ -99,7 +99,7 @@ func Store(json []byte, key string, value []byte, path ...string) ([]byte, error
 		}
 		return json, err
 	}
-	if json[start-1] == 34 && json[end] == 34 {
+	if json[start-1] == 34 && end < len(json) && json[end] == 34 {
 		return replace(json, value, start-1, end+1), nil
 	}
 	return replace(json, value, start, end), nil
diff --git a/jin_object_add.go b/jin_object_add.go
index 64a41b8..24dfa8a 100644
--- a/jin_object_add.go
+++ b/jin_object_add.go
@@ -116,7 +116,7 @@ func (j *JO) Store(key string, value []byte, path ...string) error {
 		}
 		return err
 	}
-	if j.body[start-1] == 34 && j.body[end] == 34 {
+	if j.body[start-1] == 34 && end < len(j.body) && j.body[end] == 34 {
 		j.body = replace(j.body, value, start-1, end+1)
 		return nil
 	}
-- 
2.43.0


From 5322c9965a47dec685edc732515a8b2c55daf800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:28 +0000
Subject: [PATCH 49/51] fix: Delete does not take the start of a document that
 breaks off for its end

---
 inter_delete.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inter_delete.go b/inter_delete.go
index 27a8e0d..ac817c3 100755
--- a/inter_delete.go
+++ b/inter_delete.go
@@ -42,7 +42,7 @@ func Delete(json []byte, path ...string) ([]byte, error) {
 		json = replace(json, []byte{}, start, e)
 		return json, nil
 	}
-	if json[endEdge] == 44 {
+	if endEdge != 0 && json[endEdge] == 44 {
 		json = replace(json, []byte{}, start, endEdge+1)
 		return json, nil
 	}
-- 
2.43.0


From 70a08b2c5f8240f61af2bf7aee86a144b8d5a515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:56 +0000
Subject: [PATCH 50/51] fix: IsEmpty of a string spelled like an empty
 container

---
 inter_type.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/inter_type.go b/inter_type.go
index 023302a..20efb27 100755
--- a/inter_type.go
+++ b/inter_type.go
@@ -106,6 +106,10 @@ func IsEmpty(json []byte, path ...string) (bool, error) {
 		if err != nil {
 			return false, err
 		}
+		// a string, whatever its text looks like
+		if json[start-1] == 34 {
+			return false, errObjectExpected()
+		}
 		end--
 	}
 	braceStart := json[start]
-- 
2.43.0


From fac9f9840aef7303e8321c4ea7fe3cf2354af521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:56 +0000
Subject: [PATCH 51/51] fix: text in braces that is not JSON is stored as a
 string

---
 utils.go | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/utils.go b/utils.go
index 96e6930..819143d 100755
--- a/utils.go
+++ b/utils.go
@@ -1,6 +1,7 @@
 package jin
 
 import (
+	"encoding/json"
 	"unsafe"
 )
 
@@ -85,13 +86,11 @@ func formatType(val string) string {
 	if start == 34 && end == 34 {
 		return val
 	}
-	// if its starts with `[` and ends with `]` return it self
-	if start == 91 && end == 93 {
-		return val
-	}
-	// if its starts with `{` and ends with `}` return it self
-	if start == 123 && end == 125 {
-		return val
+	// an array or an object, not just text in braces, return it self
+	if start == 91 && end == 93 || start == 123 && end == 125 {
+		if json.Valid([]byte(val)) {
+			return val
+		}
 	}
 	return `"` + val + `"`
 }
-- 
2.43.0

