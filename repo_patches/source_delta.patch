From 053535cce2312e2006b391f100cafe377c235292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:42 +0000
Subject: [PATCH 01/39] fix: blank documents no longer index past their end

---
 inter_core.go | 4 ++--
 inter_get.go  | 6 +++---
 inter_iter.go | 2 +-
 inter_type.go | 4 ++--
 parse_core.go | 2 +-
 utils.go      | 2 +-
 6 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/inter_core.go b/inter_core.go
index 1ef3958..f63529e 100755
--- a/inter_core.go
+++ b/inter_core.go
@@ -33,7 +33,7 @@ func core(json []byte, justStart bool, path ...string) (int, int, int, error) {
 	// trim spaces of start
 	for space(json[offset]) {
 		// json length overflow control
-		if offset > len(json)-1 {
+		if offset > len(json)-2 {
 			return -1, -1, -1, errBadJSON(offset)
 		}
 		offset++
@@ -399,7 +399,7 @@ func core(json []byte, justStart bool, path ...string) (int, int, int, error) {
 	// skip spaces from top.
 	for space(json[offset]) {
 		// json length overflow control
-		if offset > len(json)-1 {
+		if offset > len(json)-2 {
 			return -1, -1, -1, errBadJSON(offset)
 		}
 		offset++
diff --git a/inter_get.go b/inter_get.go
index 369126f..d20861c 100755
--- a/inter_get.go
+++ b/inter_get.go
@@ -318,7 +318,7 @@ func GetKeys(json []byte, path ...string) ([]string, error) {
 	var err error
 	if len(path) == 0 {
 		for space(json[start]) {
-			if start > len(json)-1 {
+			if start > len(json)-2 {
 				return nil, errBadJSON(start)
 			}
 			start++
@@ -408,7 +408,7 @@ func GetValues(json []byte, path ...string) ([]string, error) {
 	var err error
 	if len(path) == 0 {
 		for space(json[start]) {
-			if start > len(json)-1 {
+			if start > len(json)-2 {
 				return nil, errBadJSON(start)
 			}
 			start++
@@ -500,7 +500,7 @@ func GetKeysValues(json []byte, path ...string) ([]string, []string, error) {
 	var err error
 	if len(path) == 0 {
 		for space(json[start]) {
-			if start > len(json)-1 {
+			if start > len(json)-2 {
 				return nil, nil, errBadJSON(start)
 			}
 			start++
diff --git a/inter_iter.go b/inter_iter.go
index 0b3138b..e28210e 100755
--- a/inter_iter.go
+++ b/inter_iter.go
@@ -114,7 +114,7 @@ func IterateKeyValue(json []byte, callback func([]byte, []byte) (bool, error), p
 	var end int
 	if len(path) == 0 {
 		for space(json[start]) {
-			if start > len(json)-1 {
+			if start > len(json)-2 {
 				return errBadJSON(start)
 			}
 			start++
diff --git a/inter_type.go b/inter_type.go
index fd8015a..8c25ddc 100755
--- a/inter_type.go
+++ b/inter_type.go
@@ -93,7 +93,7 @@ func IsEmpty(json []byte, path ...string) (bool, error) {
 	var err error
 	if len(path) == 0 {
 		for space(json[start]) {
-			if start > len(json)-1 {
+			if start > len(json)-2 {
 				return false, errBadJSON(start)
 			}
 			start++
@@ -138,7 +138,7 @@ func typeControlCore(json []byte, control []byte, equal bool, path ...string) (b
 	var err error
 	if len(path) == 0 {
 		for space(json[start]) {
-			if start > len(json)-1 {
+			if start > len(json)-2 {
 				return false, -1, errBadJSON(start)
 			}
 			start++
diff --git a/parse_core.go b/parse_core.go
index 0dee1ff..93016d1 100755
--- a/parse_core.go
+++ b/parse_core.go
@@ -22,7 +22,7 @@ func pCore(json []byte, core *node) error {
 		isJSONChar[v] = true
 	}
 	for space(json[start]) {
-		if start > len(json)-1 {
+		if start > len(json)-2 {
 			return nil
 		}
 		start++
diff --git a/utils.go b/utils.go
index 09ff21e..f93bc69 100755
--- a/utils.go
+++ b/utils.go
@@ -164,7 +164,7 @@ func getStartEnd(json []byte, path ...string) (int, int, error) {
 		}
 	} else {
 		for space(json[start]) {
-			if start > len(json)-1 {
+			if start > len(json)-2 {
 				return -1, -1, errBadJSON(start)
 			}
 			start++
-- 
2.43.0


From d41523cc6282405f8f6e707f05f04d1062cc9fa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:02 +0000
Subject: [PATCH 02/39] fix: empty documents give an error instead of an index
 panic

---
 inter_add.go  | 9 +++++++++
 inter_get.go  | 9 +++++++++
 inter_iter.go | 3 +++
 3 files changed, 21 insertions(+)

diff --git a/inter_add.go b/inter_add.go
index 5eb2cad..b1fdc09 100755
--- a/inter_add.go
+++ b/inter_add.go
@@ -42,6 +42,9 @@ func AddKeyValue(json []byte, key string, value []byte, path ...string) ([]byte,
 				}
 			}
 		}
+		if end <= start {
+			return json, errBadJSON(start)
+		}
 	} else {
 		_, start, end, err = core(json, false, path...)
 		if err != nil {
@@ -112,6 +115,9 @@ func Add(json []byte, value []byte, path ...string) ([]byte, error) {
 				}
 			}
 		}
+		if end <= start {
+			return json, errBadJSON(start)
+		}
 	} else {
 		_, start, end, err = core(json, false, path...)
 		if err != nil {
@@ -172,6 +178,9 @@ func Insert(json []byte, index int, value []byte, path ...string) ([]byte, error
 				}
 			}
 		}
+		if end <= start {
+			return json, errBadJSON(start)
+		}
 	} else {
 		_, start, end, err = core(json, false, path...)
 		if err != nil {
diff --git a/inter_get.go b/inter_get.go
index d20861c..a7e5b8e 100755
--- a/inter_get.go
+++ b/inter_get.go
@@ -314,6 +314,9 @@ func GetKeys(json []byte, path ...string) ([]string, error) {
 	if string(json) == "{}" {
 		return nil, errEmpty()
 	}
+	if len(json) == 0 {
+		return nil, errBadJSON(0)
+	}
 	var start int
 	var err error
 	if len(path) == 0 {
@@ -404,6 +407,9 @@ func GetValues(json []byte, path ...string) ([]string, error) {
 	if string(json) == "{}" {
 		return nil, errEmpty()
 	}
+	if len(json) == 0 {
+		return nil, errBadJSON(0)
+	}
 	var start int
 	var err error
 	if len(path) == 0 {
@@ -496,6 +502,9 @@ func GetKeysValues(json []byte, path ...string) ([]string, []string, error) {
 	if string(json) == "{}" {
 		return nil, nil, errEmpty()
 	}
+	if len(json) == 0 {
+		return nil, nil, errBadJSON(0)
+	}
 	var start int
 	var err error
 	if len(path) == 0 {
diff --git a/inter_iter.go b/inter_iter.go
index e28210e..d823189 100755
--- a/inter_iter.go
+++ b/inter_iter.go
@@ -109,6 +109,9 @@ func IterateKeyValue(json []byte, callback func([]byte, []byte) (bool, error), p
 	if string(json) == "{}" {
 		return errEmpty()
 	}
+	if len(json) == 0 {
+		return errBadJSON(0)
+	}
 	var start int
 	var err error
 	var end int
-- 
2.43.0


From 6721b9da325d370c7a516af8fdff558830d7e9ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:02 +0000
Subject: [PATCH 03/39] fix: a path into a top-level scalar addresses nothing

---
 inter_core.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/inter_core.go b/inter_core.go
index f63529e..67a68d7 100755
--- a/inter_core.go
+++ b/inter_core.go
@@ -41,6 +41,10 @@ func core(json []byte, justStart bool, path ...string) (int, int, int, error) {
 	}
 	// braceType determine whether or not search will be a key search or index search
 	braceType := json[offset]
+	// only an array or an object can be searched.
+	if braceType != 91 && braceType != 123 {
+		return -1, -1, -1, errKeyNotFound(currentPath)
+	}
 	// if last path pointing at a key, that placeholder stores key start point.
 	keyStart := -1
 	// main iteration off all bytes.
-- 
2.43.0


From 8e170e731588bd39ae3831d526fc2927659188c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:02 +0000
Subject: [PATCH 04/39] fix: a path through a scalar member does not continue
 in the next member

---
 inter_core.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/inter_core.go b/inter_core.go
index 67a68d7..fb48059 100755
--- a/inter_core.go
+++ b/inter_core.go
@@ -269,6 +269,15 @@ func core(json []byte, justStart bool, path ...string) (int, int, int, error) {
 										keyStart = start
 										break
 									} else {
+										// only an array or an object can be searched for the rest of the path.
+										for j := offset; j < len(json); j++ {
+											if !space(json[j]) {
+												if json[j] != 91 && json[j] != 123 {
+													return -1, -1, -1, errKeyNotFound(path[k+1])
+												}
+												break
+											}
+										}
 										continue
 									}
 								}
-- 
2.43.0


From 5bcfbf0c2d4c96ec0e0dd4b8e27a07375765f978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:03 +0000
Subject: [PATCH 05/39] fix: a key search ends with its object

---
 inter_core.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/inter_core.go b/inter_core.go
index fb48059..9fbdb02 100755
--- a/inter_core.go
+++ b/inter_core.go
@@ -327,7 +327,7 @@ func core(json []byte, justStart bool, path ...string) (int, int, int, error) {
 										continue
 									}
 									if curr == 93 || curr == 125 {
-										if innerLevel < k+1 {
+										if innerLevel < k+2 {
 											return -1, -1, -1, errKeyNotFound(currentPath)
 										}
 										innerLevel--
@@ -387,7 +387,7 @@ func core(json []byte, justStart bool, path ...string) (int, int, int, error) {
 					}
 					// Close brace
 					if curr == 93 || curr == 125 {
-						if level < k+1 {
+						if level < k+2 {
 							return -1, -1, -1, errKeyNotFound(currentPath)
 						}
 						level--
-- 
2.43.0


From 0fafa404eb9851e4a2ddc41a24222625875d64e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:03 +0000
Subject: [PATCH 06/39] fix: the first element of an empty array is reported as
 missing by every search

---
 inter_core.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/inter_core.go b/inter_core.go
index 9fbdb02..c772f9c 100755
--- a/inter_core.go
+++ b/inter_core.go
@@ -82,6 +82,9 @@ func core(json []byte, justStart bool, path ...string) (int, int, int, error) {
 							if k != len(path)-1 {
 								return -1, -1, -1, errIndexOutOfRange()
 							}
+							if curr == 93 {
+								return -1, -1, -1, errEmptyArray()
+							}
 							break
 						}
 					}
-- 
2.43.0


From 8a505ab39371b2c81ca9cf5d99e5b36f700f8217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:53 +0000
Subject: [PATCH 07/39] fix: path slices are never extended in the memory of
 the caller

---
 inter_add.go      | 4 ++--
 inter_get.go      | 4 ++--
 inter_set.go      | 2 +-
 jin_object_add.go | 2 +-
 walk.go           | 4 ++--
 5 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/inter_add.go b/inter_add.go
index b1fdc09..6f07326 100755
--- a/inter_add.go
+++ b/inter_add.go
@@ -63,7 +63,7 @@ func AddKeyValue(json []byte, key string, value []byte, path ...string) ([]byte,
 			json = replace(json, val, end-1, end-1)
 			return json, nil
 		}
-		path = append(path, key)
+		path = append(path[:len(path):len(path)], key)
 		_, _, _, err = core(json, false, path...)
 		if err != nil {
 			if ErrEqual(err, ErrCodeKeyNotFound) {
@@ -190,7 +190,7 @@ func Insert(json []byte, index int, value []byte, path ...string) ([]byte, error
 	if json[start] != 91 || json[end-1] != 93 {
 		return json, errArrayExpected()
 	}
-	_, start, end, err = core(json, false, append(path, strconv.Itoa(index))...)
+	_, start, end, err = core(json, false, append(path[:len(path):len(path)], strconv.Itoa(index))...)
 	if err != nil {
 		return json, err
 	}
diff --git a/inter_get.go b/inter_get.go
index a7e5b8e..b7cff5b 100755
--- a/inter_get.go
+++ b/inter_get.go
@@ -640,7 +640,7 @@ func GetAll(json []byte, keys []string, path ...string) ([]string, error) {
 	var val string
 	results := make([]string, 0, len(keys))
 	for _, k := range keys {
-		val, err = GetString(json, append(path, k)...)
+		val, err = GetString(json, append(path[:len(path):len(path)], k)...)
 		if err != nil {
 			return nil, err
 		}
@@ -656,7 +656,7 @@ func GetAllMap(json []byte, keys []string, path ...string) (map[string]string, e
 	var val string
 	results := make(map[string]string)
 	for _, k := range keys {
-		val, err = GetString(json, append(path, k)...)
+		val, err = GetString(json, append(path[:len(path):len(path)], k)...)
 		if err != nil {
 			return nil, err
 		}
diff --git a/inter_set.go b/inter_set.go
index f32c914..9cef95c 100755
--- a/inter_set.go
+++ b/inter_set.go
@@ -92,7 +92,7 @@ func SetKey(json []byte, newKey string, path ...string) ([]byte, error) {
 // Store sets or adds a new value to the body
 // like a real json store event
 func Store(json []byte, key string, value []byte, path ...string) ([]byte, error) {
-	_, start, end, err := core(json, false, append(path, key)...)
+	_, start, end, err := core(json, false, append(path[:len(path):len(path)], key)...)
 	if err != nil {
 		if ErrEqual(err, ErrCodeKeyNotFound) {
 			return AddKeyValue(json, key, value, path...)
diff --git a/jin_object_add.go b/jin_object_add.go
index 49e602d..c482b32 100644
--- a/jin_object_add.go
+++ b/jin_object_add.go
@@ -108,7 +108,7 @@ func (j *JO) InsertBool(index int, value bool, path ...string) error {
 }
 
 func (j *JO) Store(key string, value []byte, path ...string) error {
-	_, start, end, err := core(j.body, false, append(path, key)...)
+	_, start, end, err := core(j.body, false, append(path[:len(path):len(path)], key)...)
 	if err != nil {
 		if ErrEqual(err, ErrCodeKeyNotFound) {
 			j.body, err = AddKeyValue(j.body, key, value, path...)
diff --git a/walk.go b/walk.go
index 2c13fbd..65e0fea 100644
--- a/walk.go
+++ b/walk.go
@@ -20,7 +20,7 @@ func walk(json []byte, path []string, callback func(k string, v []byte, p []stri
 	switch t {
 	case TypeObject:
 		err := IterateKeyValue(json, func(keyBytes, _ []byte) (bool, error) {
-			err = walk(json, append(path, string(keyBytes)), callback)
+			err = walk(json, append(path[:len(path):len(path)], string(keyBytes)), callback)
 			if err != nil {
 				return false, err
 			}
@@ -32,7 +32,7 @@ func walk(json []byte, path []string, callback func(k string, v []byte, p []stri
 	case TypeArray:
 		i := 0
 		err := IterateArray(json, func(_ []byte) (bool, error) {
-			err = walk(json, append(path, strconv.Itoa(i)), callback)
+			err = walk(json, append(path[:len(path):len(path)], strconv.Itoa(i)), callback)
 			if err != nil {
 				return false, err
 			}
-- 
2.43.0


From dfe589f4f952fda83675e1e5e557c4fc5e726b98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:53 +0000
Subject: [PATCH 08/39] fix: Scheme.Add does not write to the saved keys or the
 slice of the caller

---
 make.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/make.go b/make.go
index 15dd856..0ae2659 100755
--- a/make.go
+++ b/make.go
@@ -115,7 +115,7 @@ func (s *Scheme) Add(key string) bool {
 			return false
 		}
 	}
-	s.keys = append(s.keys, key)
+	s.keys = append(s.keys[:len(s.keys):len(s.keys)], key)
 	return true
 }
 
-- 
2.43.0


From d77b60f34b063e8c42f275eb36bf5a390610c653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:54 +0000
Subject: [PATCH 09/39] fix: Insert before the last element places the comma
 after the new value

---
 inter_add.go | 46 ++++++----------------------------------------
 1 file changed, 6 insertions(+), 40 deletions(-)

diff --git a/inter_add.go b/inter_add.go
index 6f07326..43309a7 100755
--- a/inter_add.go
+++ b/inter_add.go
@@ -190,52 +190,18 @@ func Insert(json []byte, index int, value []byte, path ...string) ([]byte, error
 	if json[start] != 91 || json[end-1] != 93 {
 		return json, errArrayExpected()
 	}
-	_, start, end, err = core(json, false, append(path[:len(path):len(path)], strconv.Itoa(index))...)
+	_, start, _, err = core(json, false, append(path[:len(path):len(path)], strconv.Itoa(index))...)
 	if err != nil {
 		return json, err
 	}
 	if json[start-1] == 34 {
 		start--
 	}
-	if json[end] == 34 {
-		end++
-	}
-	var startEdge int
-	var endEdge int
-	for i := start - 1; i > 0; i-- {
-		if !space(json[i]) {
-			startEdge = i
-			break
-		}
-	}
-	for i := end; i < len(json); i++ {
-		if !space(json[i]) {
-			endEdge = i
-			break
-		}
-	}
-	if (json[startEdge] == 91 || json[startEdge] == 123) && json[startEdge]+2 == json[endEdge] {
-		val := make([]byte, 0, len(value)+1)
-		val = append(val, value...)
-		val = append(val, 44)
-		json = replace(json, val, start, start)
-		return json, nil
-	}
-	if json[endEdge] == 44 {
-		val := make([]byte, 0, len(value)+1)
-		val = append(val, value...)
-		val = append(val, 44)
-		json = replace(json, val, start, start)
-		return json, nil
-	}
-	if json[startEdge] == 44 {
-		val := make([]byte, 0, len(value)+1)
-		val = append(val, 44)
-		val = append(val, value...)
-		json = replace(json, val, start-1, start-1)
-		return json, nil
-	}
-	return json, errBadJSON(start)
+	val := make([]byte, 0, len(value)+1)
+	val = append(val, value...)
+	val = append(val, 44)
+	json = replace(json, val, start, start)
+	return json, nil
 }
 
 // AddKeyValueString is a variation of AddKeyValue() func.
-- 
2.43.0


From b96e3d00fbcc3cebb3d44f715e3da6cb5b793ca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:54 +0000
Subject: [PATCH 10/39] fix: Insert rejects documents that are too short

---
 inter_add.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/inter_add.go b/inter_add.go
index 43309a7..4ce93c5 100755
--- a/inter_add.go
+++ b/inter_add.go
@@ -151,6 +151,9 @@ func Insert(json []byte, index int, value []byte, path ...string) ([]byte, error
 	var start int
 	var end int
 	var err error
+	if len(json) < 2 {
+		return json, errBadJSON(0)
+	}
 	if len(path) == 0 {
 		for i := 0; i < len(json); i++ {
 			if !space(json[i]) {
-- 
2.43.0


From e84ab3453fe21cdd4c21448a3dee210309dc3a56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:54 +0000
Subject: [PATCH 11/39] fix: Delete of a value at the end of a truncated
 document does not index past it

---
 inter_delete.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inter_delete.go b/inter_delete.go
index c96ffd5..27a8e0d 100755
--- a/inter_delete.go
+++ b/inter_delete.go
@@ -21,7 +21,7 @@ func Delete(json []byte, path ...string) ([]byte, error) {
 	if json[start-1] == 34 {
 		start--
 	}
-	if json[e] == 34 {
+	if e < len(json) && json[e] == 34 {
 		e++
 	}
 	var startEdge int
-- 
2.43.0


From 31348cf03091a12a230d2e27301e3b76c4aa31c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:55 +0000
Subject: [PATCH 12/39] fix: SetKey reports an existing key with its own error
 code

---
 inter_set.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inter_set.go b/inter_set.go
index 9cef95c..fe094d2 100755
--- a/inter_set.go
+++ b/inter_set.go
@@ -86,7 +86,7 @@ func SetKey(json []byte, newKey string, path ...string) ([]byte, error) {
 		}
 		return json, err
 	}
-	return json, errBadJSON(keyStart)
+	return json, errKeyAlreadyExist(newKey)
 }
 
 // Store sets or adds a new value to the body
-- 
2.43.0


From 7866cfba606431a84023565aea231f595a712bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:55 +0000
Subject: [PATCH 13/39] fix: AddKeyValueString and InsertString return the
 document with their errors

---
 inter_add.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/inter_add.go b/inter_add.go
index 4ce93c5..81bd684 100755
--- a/inter_add.go
+++ b/inter_add.go
@@ -211,7 +211,7 @@ func Insert(json []byte, index int, value []byte, path ...string) ([]byte, error
 // Type of new value must be a string.
 func AddKeyValueString(json []byte, key, value string, path ...string) ([]byte, error) {
 	if len(key) == 0 {
-		return nil, errNullKey()
+		return json, errNullKey()
 	}
 	return AddKeyValue(json, key, []byte(formatType(value)), path...)
 }
@@ -352,7 +352,7 @@ func AddBool(json []byte, value bool, path ...string) ([]byte, error) {
 // Type of new value must be an string.
 func InsertString(json []byte, index int, value string, path ...string) ([]byte, error) {
 	if index < 0 {
-		return nil, errIndexOutOfRange()
+		return json, errIndexOutOfRange()
 	}
 	return Insert(json, index, []byte(formatType(value)), path...)
 }
-- 
2.43.0


From 91460f98289c18ba2415edbc0daefd43195a98f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:56 +0000
Subject: [PATCH 14/39] fix: typed integers are written in base 10

---
 inter_add.go | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/inter_add.go b/inter_add.go
index 81bd684..6dc02d0 100755
--- a/inter_add.go
+++ b/inter_add.go
@@ -231,7 +231,7 @@ func AddKeyValueUint(json []byte, key string, value uint, path ...string) ([]byt
 	if len(key) == 0 {
 		return json, errNullKey()
 	}
-	return AddKeyValue(json, key, []byte(strconv.FormatUint(uint64(value), 64)), path...)
+	return AddKeyValue(json, key, []byte(strconv.FormatUint(uint64(value), 10)), path...)
 }
 
 // AddKeyValueInt32 is a variation of AddKeyValue() func.
@@ -240,7 +240,7 @@ func AddKeyValueInt32(json []byte, key string, value int32, path ...string) ([]b
 	if len(key) == 0 {
 		return json, errNullKey()
 	}
-	return AddKeyValue(json, key, []byte(strconv.FormatInt(int64(value), 32)), path...)
+	return AddKeyValue(json, key, []byte(strconv.FormatInt(int64(value), 10)), path...)
 }
 
 // AddKeyValueInt64 is a variation of AddKeyValue() func.
@@ -249,7 +249,7 @@ func AddKeyValueInt64(json []byte, key string, value int64, path ...string) ([]b
 	if len(key) == 0 {
 		return json, errNullKey()
 	}
-	return AddKeyValue(json, key, []byte(strconv.FormatInt(value, 64)), path...)
+	return AddKeyValue(json, key, []byte(strconv.FormatInt(value, 10)), path...)
 }
 
 // AddKeyValueUint32 is a variation of AddKeyValue() func.
@@ -258,7 +258,7 @@ func AddKeyValueUint32(json []byte, key string, value uint32, path ...string) ([
 	if len(key) == 0 {
 		return json, errNullKey()
 	}
-	return AddKeyValue(json, key, []byte(strconv.FormatUint(uint64(value), 32)), path...)
+	return AddKeyValue(json, key, []byte(strconv.FormatUint(uint64(value), 10)), path...)
 }
 
 // AddKeyValueUint64 is a variation of AddKeyValue() func.
@@ -267,7 +267,7 @@ func AddKeyValueUint64(json []byte, key string, value uint64, path ...string) ([
 	if len(key) == 0 {
 		return json, errNullKey()
 	}
-	return AddKeyValue(json, key, []byte(strconv.FormatUint(value, 64)), path...)
+	return AddKeyValue(json, key, []byte(strconv.FormatUint(value, 10)), path...)
 }
 
 // AddKeyValueFloat is a variation of AddKeyValue() func.
@@ -306,31 +306,31 @@ func AddInt(json []byte, value int, path ...string) ([]byte, error) {
 // AddInt32 is a variation of Add() func.
 // Type of new value must be an integer.
 func AddInt32(json []byte, value int32, path ...string) ([]byte, error) {
-	return Add(json, []byte(strconv.FormatInt(int64(value), 32)), path...)
+	return Add(json, []byte(strconv.FormatInt(int64(value), 10)), path...)
 }
 
 // AddInt64 is a variation of Add() func.
 // Type of new value must be an integer.
 func AddInt64(json []byte, value int64, path ...string) ([]byte, error) {
-	return Add(json, []byte(strconv.FormatInt(value, 64)), path...)
+	return Add(json, []byte(strconv.FormatInt(value, 10)), path...)
 }
 
 // AddUint is a variation of Add() func.
 // Type of new value must be an integer.
 func AddUint(json []byte, value uint, path ...string) ([]byte, error) {
-	return Add(json, []byte(strconv.FormatUint(uint64(value), 64)), path...)
+	return Add(json, []byte(strconv.FormatUint(uint64(value), 10)), path...)
 }
 
 // AddUint32 is a variation of Add() func.
 // Type of new value must be an integer.
 func AddUint32(json []byte, value uint32, path ...string) ([]byte, error) {
-	return Add(json, []byte(strconv.FormatUint(uint64(value), 32)), path...)
+	return Add(json, []byte(strconv.FormatUint(uint64(value), 10)), path...)
 }
 
 // AddUint64 is a variation of Add() func.
 // Type of new value must be an integer.
 func AddUint64(json []byte, value uint64, path ...string) ([]byte, error) {
-	return Add(json, []byte(strconv.FormatUint(value, 64)), path...)
+	return Add(json, []byte(strconv.FormatUint(value, 10)), path...)
 }
 
 // AddFloat is a variation of Add() func.
@@ -372,7 +372,7 @@ func InsertInt32(json []byte, index int, value int32, path ...string) ([]byte, e
 	if index < 0 {
 		return json, errIndexOutOfRange()
 	}
-	return Insert(json, index, []byte(strconv.FormatInt(int64(value), 32)), path...)
+	return Insert(json, index, []byte(strconv.FormatInt(int64(value), 10)), path...)
 }
 
 // InsertInt64 is a variation of Insert() func.
@@ -381,7 +381,7 @@ func InsertInt64(json []byte, index int, value int64, path ...string) ([]byte, e
 	if index < 0 {
 		return json, errIndexOutOfRange()
 	}
-	return Insert(json, index, []byte(strconv.FormatInt(value, 64)), path...)
+	return Insert(json, index, []byte(strconv.FormatInt(value, 10)), path...)
 }
 
 // InsertUint is a variation of Insert() func.
@@ -390,7 +390,7 @@ func InsertUint(json []byte, index int, value uint, path ...string) ([]byte, err
 	if index < 0 {
 		return json, errIndexOutOfRange()
 	}
-	return Insert(json, index, []byte(strconv.FormatUint(uint64(value), 64)), path...)
+	return Insert(json, index, []byte(strconv.FormatUint(uint64(value), 10)), path...)
 }
 
 // InsertUint32 is a variation of Insert() func.
@@ -399,7 +399,7 @@ func InsertUint32(json []byte, index int, value uint32, path ...string) ([]byte,
 	if index < 0 {
 		return json, errIndexOutOfRange()
 	}
-	return Insert(json, index, []byte(strconv.FormatUint(uint64(value), 32)), path...)
+	return Insert(json, index, []byte(strconv.FormatUint(uint64(value), 10)), path...)
 }
 
 // InsertUint64 is a variation of Insert() func.
@@ -408,7 +408,7 @@ func InsertUint64(json []byte, index int, value uint64, path ...string) ([]byte,
 	if index < 0 {
 		return json, errIndexOutOfRange()
 	}
-	return Insert(json, index, []byte(strconv.FormatUint(value, 64)), path...)
+	return Insert(json, index, []byte(strconv.FormatUint(value, 10)), path...)
 }
 
 // InsertFloat is a variation of Insert() func.
-- 
2.43.0


From 688fc8631ac99ab509ce6999cedb729b45ca3f9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:25 +0000
Subject: [PATCH 15/39] fix: cleaning of empty texts, lone quotes and one-byte
 texts with trailing space

---
 utils.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/utils.go b/utils.go
index f93bc69..73f8a78 100755
--- a/utils.go
+++ b/utils.go
@@ -102,16 +102,19 @@ func isInt(val string) bool {
 }
 
 func cleanValueString(str string) string {
+	if len(str) == 0 {
+		return str
+	}
 	start := 0
 	lens := len(str)
 	for space(str[start]) && start < lens-1 {
 		start++
 	}
 	end := lens - 1
-	for space(str[end]) && end > 1 {
+	for space(str[end]) && end > start {
 		end--
 	}
-	if str[start] == 34 && str[end] == 34 {
+	if start < end && str[start] == 34 && str[end] == 34 {
 		start++
 		end--
 	}
@@ -137,7 +140,7 @@ func cleanValue(str []byte) []byte {
 		}
 		end--
 	}
-	if str[start] == 34 && str[end] == 34 {
+	if start < end && str[start] == 34 && str[end] == 34 {
 		start++
 		end--
 	}
-- 
2.43.0


From 588e0378e6c8e127d2143246911620db245fb964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:26 +0000
Subject: [PATCH 16/39] fix: IterateArray does not call back for an empty array

---
 inter_iter.go | 6 +++++-
 utils.go      | 9 +++++++++
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/inter_iter.go b/inter_iter.go
index d823189..d7edaa0 100755
--- a/inter_iter.go
+++ b/inter_iter.go
@@ -8,7 +8,7 @@ func IterateArray(json []byte, callback func([]byte) (bool, error), path ...stri
 	case 0, 1:
 		return errBadJSON(0)
 	case 2:
-		if string(json) == "[]" {
+		if string(json) == "[]" && len(path) == 0 {
 			return nil
 		}
 		return errBadJSON(0)
@@ -38,6 +38,7 @@ func IterateArray(json []byte, callback func([]byte) (bool, error), path ...stri
 		return errArrayExpected()
 	}
 	start++
+	first := start
 	inQuote := false
 	level := 0
 	for i := start; i < len(json); i++ {
@@ -77,6 +78,9 @@ func IterateArray(json []byte, callback func([]byte) (bool, error), path ...stri
 				}
 				if curr == 93 {
 					if level == 0 {
+						if start == first && isBlank(json[start:i]) {
+							return nil
+						}
 						_, innerError := callback(cleanValue(json[start:i]))
 						return innerError
 					}
diff --git a/utils.go b/utils.go
index 73f8a78..3bb47da 100755
--- a/utils.go
+++ b/utils.go
@@ -33,6 +33,15 @@ func space(curr byte) bool {
 	return false
 }
 
+func isBlank(str []byte) bool {
+	for _, b := range str {
+		if !space(b) {
+			return false
+		}
+	}
+	return true
+}
+
 func createTabs(n int) []byte {
 	res := make([]byte, n)
 	for i := range res {
-- 
2.43.0


From a5fe16db86c33f062856ea70f54e61883062a94b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:26 +0000
Subject: [PATCH 17/39] fix: IterateKeyValue skips empty objects and returns
 the error of the last callback

---
 inter_iter.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/inter_iter.go b/inter_iter.go
index d7edaa0..a25c72e 100755
--- a/inter_iter.go
+++ b/inter_iter.go
@@ -183,6 +183,9 @@ func IterateKeyValue(json []byte, callback func([]byte, []byte) (bool, error), p
 				if curr == 93 || curr == 125 {
 					if curr == 125 {
 						if level == 1 {
+							if key == nil {
+								return nil
+							}
 							for j := start; j < i; j++ {
 								if !space(json[j]) {
 									start = j
@@ -196,11 +199,11 @@ func IterateKeyValue(json []byte, callback func([]byte, []byte) (bool, error), p
 								}
 							}
 							if json[start] == 34 && json[end] == 34 {
-								callback(key, json[start+1:end])
-								return nil
+								_, innerError := callback(key, json[start+1:end])
+								return innerError
 							}
-							callback(key, json[start:end+1])
-							return nil
+							_, innerError := callback(key, json[start:end+1])
+							return innerError
 						}
 					}
 					if level == 1 {
-- 
2.43.0


From 8f6e1629a809b3ccdb4f5210dbb60c86fd5ac496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:27 +0000
Subject: [PATCH 18/39] fix: a colon without a key is a format error in the
 object listings

---
 inter_get.go  | 6 ++++++
 inter_iter.go | 4 ++++
 2 files changed, 10 insertions(+)

diff --git a/inter_get.go b/inter_get.go
index b7cff5b..2d47a2c 100755
--- a/inter_get.go
+++ b/inter_get.go
@@ -388,6 +388,9 @@ func GetKeys(json []byte, path ...string) ([]string, error) {
 				}
 				if curr == 58 {
 					if level == 1 {
+						if keyEnd <= keyStart {
+							return nil, errBadJSON(i)
+						}
 						key := json[keyStart+1 : keyEnd]
 						keys = append(keys, string(key))
 					}
@@ -578,6 +581,9 @@ func GetKeysValues(json []byte, path ...string) ([]string, []string, error) {
 				}
 				if curr == 58 {
 					if level == 1 {
+						if keyEnd <= keyStart {
+							return nil, nil, errBadJSON(i)
+						}
 						key := json[keyStart+1 : keyEnd]
 						keys = append(keys, string(key))
 						start = i + 1
diff --git a/inter_iter.go b/inter_iter.go
index a25c72e..d68e98b 100755
--- a/inter_iter.go
+++ b/inter_iter.go
@@ -186,6 +186,7 @@ func IterateKeyValue(json []byte, callback func([]byte, []byte) (bool, error), p
 							if key == nil {
 								return nil
 							}
+							end = i - 1
 							for j := start; j < i; j++ {
 								if !space(json[j]) {
 									start = j
@@ -247,6 +248,9 @@ func IterateKeyValue(json []byte, callback func([]byte, []byte) (bool, error), p
 						continue
 					}
 					if curr == 58 {
+						if keyEnd <= keyStart {
+							return errBadJSON(i)
+						}
 						key = json[keyStart+1 : keyEnd]
 						start = i + 1
 						continue
-- 
2.43.0


From df60a8b17535856367ba0f4701ec55aa21aab59a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:27 +0000
Subject: [PATCH 19/39] fix: GetValues and GetKeysValues report no value for an
 empty object

---
 inter_get.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/inter_get.go b/inter_get.go
index 2d47a2c..b2da7be 100755
--- a/inter_get.go
+++ b/inter_get.go
@@ -435,6 +435,7 @@ func GetValues(json []byte, path ...string) ([]string, error) {
 		isJSONChar[v] = true
 	}
 	if json[start] == 123 {
+		first := start
 		inQuote := false
 		level := 0
 		for i := start; i < len(json); i++ {
@@ -470,6 +471,9 @@ func GetValues(json []byte, path ...string) ([]string, error) {
 				}
 				if curr == 93 || curr == 125 {
 					if level == 1 {
+						if start == first {
+							break
+						}
 						value := cleanValueString(string(json[start:i]))
 						values = append(values, value)
 						break
@@ -572,6 +576,9 @@ func GetKeysValues(json []byte, path ...string) ([]string, []string, error) {
 				}
 				if curr == 93 || curr == 125 {
 					if level == 1 {
+						if len(keys) == 0 {
+							break
+						}
 						value := cleanValueString(string(json[start:i]))
 						values = append(values, value)
 						break
-- 
2.43.0


From 255398ab42bf19e9ff5a75f9a254f61f7f44de3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:27 +0000
Subject: [PATCH 20/39] fix: a path into an empty top-level container addresses
 nothing

---
 inter_get.go | 2 +-
 others.go    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/inter_get.go b/inter_get.go
index b2da7be..dfef004 100755
--- a/inter_get.go
+++ b/inter_get.go
@@ -613,7 +613,7 @@ func GetKeysValues(json []byte, path ...string) ([]string, []string, error) {
 
 // GetMap Gets all keys and values pair with string to string map.
 func GetMap(json []byte, path ...string) (map[string]string, error) {
-	if string(json) == "[]" || string(json) == "{}" {
+	if len(path) == 0 && (string(json) == "[]" || string(json) == "{}") {
 		return nil, nil
 	}
 	start, end, err := getStartEnd(json, path...)
diff --git a/others.go b/others.go
index f35b3c2..67e17f7 100755
--- a/others.go
+++ b/others.go
@@ -3,7 +3,7 @@ package jin
 // Length function gives the length of any array or object
 // that path has pointed.
 func Length(json []byte, path ...string) (int, error) {
-	if string(json) == "[]" || string(json) == "{}" {
+	if len(path) == 0 && (string(json) == "[]" || string(json) == "{}") {
 		return 0, nil
 	}
 	start, end, err := getStartEnd(json, path...)
-- 
2.43.0


From b7780f13677db8c01e8ad528b9aede94233e7567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:28 +0000
Subject: [PATCH 21/39] fix: Length of one-element containers and GetMap of
 nested containers

---
 inter_get.go | 4 ++--
 utils.go     | 1 +
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/inter_get.go b/inter_get.go
index dfef004..ac4be3b 100755
--- a/inter_get.go
+++ b/inter_get.go
@@ -621,7 +621,7 @@ func GetMap(json []byte, path ...string) (map[string]string, error) {
 		return nil, err
 	}
 	mainMap := make(map[string]string)
-	if json[start] == 123 && json[end] == 125 {
+	if json[start] == 123 && json[end-1] == 125 {
 		err = IterateKeyValue(json, func(key, val []byte) (bool, error) {
 			mainMap[string(key)] = string(val)
 			return true, nil
@@ -631,7 +631,7 @@ func GetMap(json []byte, path ...string) (map[string]string, error) {
 		}
 		return mainMap, nil
 	}
-	if json[start] == 91 && json[end] == 93 {
+	if json[start] == 91 && json[end-1] == 93 {
 		count := 0
 		err = IterateArray(json, func(val []byte) (bool, error) {
 			mainMap[strconv.Itoa(count)] = string(val)
diff --git a/utils.go b/utils.go
index 3bb47da..bbb65f1 100755
--- a/utils.go
+++ b/utils.go
@@ -190,6 +190,7 @@ func getStartEnd(json []byte, path ...string) (int, int, error) {
 			end--
 			continue
 		}
+		end++
 	}
 	return start, end, nil
 }
-- 
2.43.0


From f52e0bd87e504acf8ded1bd11395ce1560b7298f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:28 +0000
Subject: [PATCH 22/39] fix: IsObject is false for arrays

---
 inter_type.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inter_type.go b/inter_type.go
index 8c25ddc..4fc34ef 100755
--- a/inter_type.go
+++ b/inter_type.go
@@ -15,7 +15,7 @@ const (
 // If path points to an object it will return true, otherwise it will return false.
 // In this instance 'object' means everything that has starts and ends with curly brace.
 func IsObject(json []byte, path ...string) (bool, error) {
-	state, _, err := typeControlCore(json, []byte{91, 123}, true, path...)
+	state, _, err := typeControlCore(json, []byte{123}, true, path...)
 	if err != nil {
 		return false, err
 	}
-- 
2.43.0


From ef4f6343e1b802e29b9ce5f688e8c9b6210beb25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:29 +0000
Subject: [PATCH 23/39] fix: IsEmpty looks at the last byte of the container

---
 inter_type.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inter_type.go b/inter_type.go
index 4fc34ef..0bd9bf6 100755
--- a/inter_type.go
+++ b/inter_type.go
@@ -119,7 +119,7 @@ func IsEmpty(json []byte, path ...string) (bool, error) {
 		if braceStart+2 != braceEnd {
 			return false, errBadJSON(end)
 		}
-		for i := start + 1; i < end-1; i++ {
+		for i := start + 1; i < end; i++ {
 			if !space(json[i]) {
 				return false, nil
 			}
-- 
2.43.0


From 551a02e877916f53197830411e1fc9627cf228a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:29 +0000
Subject: [PATCH 24/39] fix: GetType of a top-level scalar ignores surrounding
 white space

---
 inter_type.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/inter_type.go b/inter_type.go
index 0bd9bf6..11a3c23 100755
--- a/inter_type.go
+++ b/inter_type.go
@@ -63,6 +63,7 @@ func GetType(json []byte, path ...string) (string, error) {
 	if err != nil {
 		return "", err
 	}
+	val = cleanValueString(val)
 	switch val {
 	case "true", "false":
 		return TypeBoolean, nil
-- 
2.43.0


From 703dfb5ea95a61cb18c9bb78b24dd3b7049213f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:18 +0000
Subject: [PATCH 25/39] fix: array getters return an empty slice for an empty
 array with white space

---
 inter_get.go | 9 +++++++++
 others.go    | 3 +++
 parse_get.go | 9 +++++++++
 3 files changed, 21 insertions(+)

diff --git a/inter_get.go b/inter_get.go
index ac4be3b..806149a 100755
--- a/inter_get.go
+++ b/inter_get.go
@@ -137,6 +137,9 @@ func GetIntArray(json []byte, path ...string) ([]int, error) {
 					if curr == 93 {
 						if level == 0 {
 							element := val[start:i]
+							if len(newArray) == 0 && isBlank([]byte(element)) {
+								break
+							}
 							num, err := strconv.Atoi(cleanValueString(element))
 							if err != nil {
 								return nil, errIntegerParse(cleanValueString(element))
@@ -203,6 +206,9 @@ func GetFloatArray(json []byte, path ...string) ([]float64, error) {
 					if curr == 93 {
 						if level == 0 {
 							element := val[start:i]
+							if len(newArray) == 0 && isBlank([]byte(element)) {
+								break
+							}
 							num, err := strconv.ParseFloat(cleanValueString(element), 64)
 							if err != nil {
 								return nil, errFloatParse(cleanValueString(element))
@@ -269,6 +275,9 @@ func GetBoolArray(json []byte, path ...string) ([]bool, error) {
 					if curr == 93 {
 						if level == 0 {
 							element := val[start:i]
+							if len(newArray) == 0 && isBlank([]byte(element)) {
+								break
+							}
 							element = cleanValueString(element)
 							if element == "true" || element == "false" {
 								if element == "true" {
diff --git a/others.go b/others.go
index 67e17f7..e971880 100755
--- a/others.go
+++ b/others.go
@@ -215,6 +215,9 @@ func ParseArray(arr string) []string {
 					if curr == 93 {
 						if level == 0 {
 							val := arr[start:i]
+							if len(newArray) == 0 && isBlank([]byte(val)) {
+								break
+							}
 							val = cleanValueString(val)
 							newArray = append(newArray, val)
 							break
diff --git a/parse_get.go b/parse_get.go
index a0027a0..d466291 100755
--- a/parse_get.go
+++ b/parse_get.go
@@ -162,6 +162,9 @@ func (p *Parser) GetIntArray(path ...string) ([]int, error) {
 					if curr == 93 {
 						if level == 0 {
 							element := val[start:i]
+							if len(newArray) == 0 && isBlank([]byte(element)) {
+								break
+							}
 							num, err := strconv.Atoi(cleanValueString(element))
 							if err != nil {
 								return nil, errIntegerParse(cleanValueString(element))
@@ -228,6 +231,9 @@ func (p *Parser) GetFloatArray(path ...string) ([]float64, error) {
 					if curr == 93 {
 						if level == 0 {
 							element := val[start:i]
+							if len(newArray) == 0 && isBlank([]byte(element)) {
+								break
+							}
 							num, err := strconv.ParseFloat(cleanValueString(element), 64)
 							if err != nil {
 								return nil, errFloatParse(cleanValueString(element))
@@ -294,6 +300,9 @@ func (p *Parser) GetBoolArray(path ...string) ([]bool, error) {
 					if curr == 93 {
 						if level == 0 {
 							element := val[start:i]
+							if len(newArray) == 0 && isBlank([]byte(element)) {
+								break
+							}
 							element = cleanValueString(element)
 							if element == "true" || element == "false" {
 								if element == "true" {
-- 
2.43.0


From d0b8714c62f1afe88b7183ccc638acf210290bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:19 +0000
Subject: [PATCH 26/39] fix: Indent honours escapes and unbalanced closing
 brackets

---
 others.go | 11 ++++++++---
 utils.go  |  3 +++
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/others.go b/others.go
index e971880..95c4f43 100755
--- a/others.go
+++ b/others.go
@@ -106,11 +106,16 @@ func Indent(json []byte) []byte {
 	level := 0
 	for i := 0; i < len(json); i++ {
 		curr := json[i]
-		if curr == 34 {
+		if curr == 92 {
 			newJSON = append(newJSON, curr)
-			if json[i-1] == 92 {
-				continue
+			if i+1 < len(json) {
+				newJSON = append(newJSON, json[i+1])
 			}
+			i++
+			continue
+		}
+		if curr == 34 {
+			newJSON = append(newJSON, curr)
 			inQuote = !inQuote
 			continue
 		}
diff --git a/utils.go b/utils.go
index bbb65f1..82604f0 100755
--- a/utils.go
+++ b/utils.go
@@ -43,6 +43,9 @@ func isBlank(str []byte) bool {
 }
 
 func createTabs(n int) []byte {
+	if n < 0 {
+		n = 0
+	}
 	res := make([]byte, n)
 	for i := range res {
 		res[i] = 9
-- 
2.43.0


From ef16d2a731e74dde76820835f2b6c4c07bc1830c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:19 +0000
Subject: [PATCH 27/39] fix: builders return {} and [] for empty lists

---
 make.go | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/make.go b/make.go
index 0ae2659..2066431 100755
--- a/make.go
+++ b/make.go
@@ -169,7 +169,7 @@ func MakeEmptyArray() []byte {
 // Do not use any slice/array for parameter.
 // It will accept this kind types but won't be able to make valid representation for use!
 func MakeArray(elements ...interface{}) []byte {
-	if elements == nil {
+	if len(elements) == 0 {
 		return []byte{91, 93}
 	}
 	js := make([]byte, 0, 128)
@@ -187,7 +187,7 @@ func MakeArray(elements ...interface{}) []byte {
 // Parameter type must be slice of string.
 // For more information look MakeArray() function.
 func MakeArrayString(values []string) []byte {
-	if values == nil {
+	if len(values) == 0 {
 		return []byte(`[]`)
 	}
 	js := make([]byte, 0, 128)
@@ -205,7 +205,7 @@ func MakeArrayString(values []string) []byte {
 // Parameter type must be slice of integer.
 // For more information look MakeArray() function.
 func MakeArrayInt(values []int) []byte {
-	if values == nil {
+	if len(values) == 0 {
 		return []byte{91, 93}
 	}
 	js := make([]byte, 0, 128)
@@ -223,7 +223,7 @@ func MakeArrayInt(values []int) []byte {
 // Parameter type must be slice of boolean.
 // For more information look MakeArray() function.
 func MakeArrayBool(values []bool) []byte {
-	if values == nil {
+	if len(values) == 0 {
 		return []byte{91, 93}
 	}
 	js := make([]byte, 0, 128)
@@ -249,7 +249,7 @@ func MakeArrayBool(values []bool) []byte {
 // Parameter type must be slice of float64.
 // For more information look MakeArray() function.
 func MakeArrayFloat(values []float64) []byte {
-	if values == nil {
+	if len(values) == 0 {
 		return []byte{91, 93}
 	}
 	js := make([]byte, 0, 128)
@@ -279,7 +279,7 @@ func MakeArrayFloat(values []float64) []byte {
 // Parameter type must be slice of byte.
 // For more information look MakeArray() function.
 func MakeArrayBytes(values ...[]byte) []byte {
-	if values == nil {
+	if len(values) == 0 {
 		return []byte{91, 93}
 	}
 	js := make([]byte, 0, 128)
@@ -305,7 +305,7 @@ func MakeJson(keys []string, values []interface{}) []byte {
 	if len(keys) != len(values) {
 		return nil
 	}
-	if keys == nil {
+	if len(keys) == 0 {
 		return []byte{123, 125}
 	}
 	js := make([]byte, 0, 128)
@@ -328,7 +328,7 @@ func MakeJsonString(keys, values []string) []byte {
 	if len(keys) != len(values) {
 		return nil
 	}
-	if keys == nil {
+	if len(keys) == 0 {
 		return []byte{123, 125}
 	}
 	js := make([]byte, 0, 128)
@@ -348,7 +348,7 @@ func MakeJsonString(keys, values []string) []byte {
 
 // MakeJsonWithMap creates an JSON formation from given string-string-map, and returns them as byte slice.
 func MakeJsonWithMap(json map[string]string) []byte {
-	if json == nil {
+	if len(json) == 0 {
 		return []byte{123, 125}
 	}
 	js := make([]byte, 0, 128)
-- 
2.43.0


From 97951350cc7b4b9e15ade29e13b30ffdfc4d70b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:19 +0000
Subject: [PATCH 28/39] fix: MakeArrayFloat writes every number

---
 make.go | 14 +-------------
 1 file changed, 1 insertion(+), 13 deletions(-)

diff --git a/make.go b/make.go
index 2066431..0de36c2 100755
--- a/make.go
+++ b/make.go
@@ -255,19 +255,7 @@ func MakeArrayFloat(values []float64) []byte {
 	js := make([]byte, 0, 128)
 	js = append(js, 91)
 	for _, v := range values {
-		num := strconv.FormatFloat(v, 'f', -1, 64)
-		start := 0
-		for i := 0; i < len(num); i++ {
-			if num[i] == 'e' {
-				start = i
-			}
-		}
-		exp, _ := strconv.Atoi(num[start+2:])
-		if exp == 0 {
-			js = append(js, []byte(num[:start])...)
-		} else {
-			js = append(js, []byte(num)...)
-		}
+		js = append(js, []byte(strconv.FormatFloat(v, 'f', -1, 64))...)
 		js = append(js, 44)
 	}
 	js = js[:len(js)-1]
-- 
2.43.0


From 5a3847d0aae9f13f9a6e9c9ef067901e744dbf13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:44 +0000
Subject: [PATCH 29/39] fix: formatType leaves only JSON numbers unquoted

---
 utils.go | 56 ++++++++++++++++++++++++++++++++++++++------------------
 1 file changed, 38 insertions(+), 18 deletions(-)

diff --git a/utils.go b/utils.go
index 82604f0..6ee3b41 100755
--- a/utils.go
+++ b/utils.go
@@ -1,9 +1,6 @@
 package jin
 
-import (
-	"strconv"
-	"unsafe"
-)
+import "unsafe"
 
 func replace(json, newValue []byte, start, end int) []byte {
 	newJSON := make([]byte, 0, len(json)-end+start+len(newValue))
@@ -70,13 +67,7 @@ func formatType(val string) string {
 	if isBool(val) {
 		return val
 	}
-	if isInt(val) {
-		if val[0] == 48 && len(val) > 1 {
-			return `"` + val + `"`
-		}
-		return val
-	}
-	if isFloat(val) {
+	if isNumber(val) {
 		return val
 	}
 	if val == "null" {
@@ -85,7 +76,7 @@ func formatType(val string) string {
 	start := val[0]
 	end := val[len(val)-1]
 	// if its starts with `"` and ends with `"`  return it self
-	if start == 34 && end == 34 {
+	if len(val) > 1 && start == 34 && end == 34 {
 		return val
 	}
 	// if its starts with `[` and ends with `]` return it self
@@ -103,14 +94,43 @@ func isBool(val string) bool {
 	return val == "true" || val == "false"
 }
 
-func isFloat(val string) bool {
-	_, err := strconv.ParseFloat(val, 64)
-	return err == nil
+// isNumber reports whether val is a number by the JSON grammar.
+func isNumber(val string) bool {
+	if len(val) > 0 && val[0] == 45 {
+		val = val[1:]
+	}
+	digits := countDigits(val)
+	if digits == 0 || (digits > 1 && val[0] == 48) {
+		return false
+	}
+	val = val[digits:]
+	if len(val) > 0 && val[0] == 46 {
+		digits = countDigits(val[1:])
+		if digits == 0 {
+			return false
+		}
+		val = val[digits+1:]
+	}
+	if len(val) > 0 && (val[0] == 101 || val[0] == 69) {
+		val = val[1:]
+		if len(val) > 0 && (val[0] == 43 || val[0] == 45) {
+			val = val[1:]
+		}
+		digits = countDigits(val)
+		if digits == 0 {
+			return false
+		}
+		val = val[digits:]
+	}
+	return len(val) == 0
 }
 
-func isInt(val string) bool {
-	_, err := strconv.ParseInt(val, 10, 32)
-	return err == nil
+func countDigits(val string) int {
+	count := 0
+	for count < len(val) && val[count] >= 48 && val[count] <= 57 {
+		count++
+	}
+	return count
 }
 
 func cleanValueString(str string) string {
-- 
2.43.0


From e84d49d2ed92956450d4df504451746f32e2b508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:44 +0000
Subject: [PATCH 30/39] fix: JO.Store and JO.StoreString behave as Store and
 StoreString

---
 jin_object_add.go | 19 ++++---------------
 1 file changed, 4 insertions(+), 15 deletions(-)

diff --git a/jin_object_add.go b/jin_object_add.go
index c482b32..5b17b92 100644
--- a/jin_object_add.go
+++ b/jin_object_add.go
@@ -108,26 +108,15 @@ func (j *JO) InsertBool(index int, value bool, path ...string) error {
 }
 
 func (j *JO) Store(key string, value []byte, path ...string) error {
-	_, start, end, err := core(j.body, false, append(path[:len(path):len(path)], key)...)
-	if err != nil {
-		if ErrEqual(err, ErrCodeKeyNotFound) {
-			j.body, err = AddKeyValue(j.body, key, value, path...)
-			return err
-		}
-		return err
-	}
-	if j.body[start-1] == 34 && j.body[end] == 34 {
-		j.body = replace(j.body, value, start-1, end+1)
-		return nil
-	}
-	j.body = replace(j.body, value, start, end)
-	return nil
+	var err error
+	j.body, err = Store(j.body, key, value, path...)
+	return err
 }
 
 // StoreString jin_object method for same function name with interpreter
 func (j *JO) StoreString(key string, value string, path ...string) error {
 	var err error
-	j.body, err = Store(j.body, key, []byte(value), path...)
+	j.body, err = StoreString(j.body, key, value, path...)
 	return err
 }
 
-- 
2.43.0


From 97e3c438be047d8051be55cb7708d17be20aa498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:44 +0000
Subject: [PATCH 31/39] fix: ErrEqual does not take a signed digit for a code

---
 errors.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/errors.go b/errors.go
index 06f7350..cbbed01 100755
--- a/errors.go
+++ b/errors.go
@@ -35,6 +35,9 @@ func ErrEqual(err error, code int) bool {
 		return false
 	}
 	codeStr := str[len(str)-2:]
+	if codeStr[0] < 48 || codeStr[0] > 57 {
+		return false
+	}
 	c, err := strconv.Atoi(codeStr)
 	if err != nil {
 		return false
-- 
2.43.0


From 7caf63eda125d7644e2da2a4b9cde6ec7f242702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:51 +0000
Subject: [PATCH 32/39] fix: Parse keeps one-element arrays and rejects
 unbalanced brackets

---
 parse_core.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/parse_core.go b/parse_core.go
index 93016d1..19b112b 100755
--- a/parse_core.go
+++ b/parse_core.go
@@ -79,6 +79,9 @@ func pCore(json []byte, core *node) error {
 				last = curr
 				continue
 			case 93, 125:
+				if core.up == nil {
+					return errBadJSON(i)
+				}
 				switch last {
 				case 58:
 					newNode := &node{up: core, label: byteArrayToString(key), value: json[valStart:i]}
@@ -87,6 +90,11 @@ func pCore(json []byte, core *node) error {
 					newNode := &node{up: core, label: strconv.Itoa(indexList.last()), value: json[valStart:i]}
 					core.down = append(core.down, newNode)
 					valStart = i + 1
+				case 91:
+					if !isBlank(json[valStart:i]) {
+						newNode := &node{up: core, label: strconv.Itoa(indexList.last()), value: json[valStart:i]}
+						core.down = append(core.down, newNode)
+					}
 				}
 				core.value = json[braceList.pop() : i+1]
 				indexList.pop()
@@ -94,6 +102,9 @@ func pCore(json []byte, core *node) error {
 				last = curr
 				continue
 			case 58:
+				if end < start {
+					return errBadJSON(i)
+				}
 				key = json[start:end]
 				valStart = i + 1
 				last = 58
@@ -114,5 +125,8 @@ func pCore(json []byte, core *node) error {
 			}
 		}
 	}
+	if core.up != nil {
+		return errBadJSON(lenj - 1)
+	}
 	return nil
 }
-- 
2.43.0


From 1cb1961a232ab1d142f83018013f29fac0063ae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:12 +0000
Subject: [PATCH 33/39] fix: Parser edits keep text and tree in step

---
 parse_add.go    | 310 ++----------------------------------------------
 parse_delete.go |  22 +---
 parse_set.go    |  68 +----------
 parse_utils.go  |  50 ++------
 4 files changed, 24 insertions(+), 426 deletions(-)

diff --git a/parse_add.go b/parse_add.go
index 8361fd1..2a0b05f 100755
--- a/parse_add.go
+++ b/parse_add.go
@@ -8,334 +8,42 @@ import (
 // Path variable must point to an object,
 // otherwise it will provide an error message.
 func (p *Parser) AddKeyValue(key string, newVal []byte, path ...string) error {
-	lenp := len(path)
-	lenv := len(key)
-	var curr *node
-	var err error
-	if lenv == 0 {
+	if len(key) == 0 {
 		return errNullKey()
 	}
-	json, err := p.Get(path...)
-	if err != nil {
-		return err
-	}
-	curr = p.core
-	if lenp == 0 {
-		for _, d := range curr.down {
-			if d.label == key {
-				return errKeyAlreadyExist(key)
-			}
-		}
-		if len(json) >= 2 {
-			if json[0] == 123 && json[len(json)-1] == 125 {
-				newKV := []byte(`,"` + key + `":` + string(newVal))
-				if lenv >= 2 {
-					if newVal[0] == 91 || newVal[0] == 123 {
-						newNode := createNode(nil)
-						pCore(newVal, newNode)
-						newNode.label = key
-						newNode.value = newVal
-						if len(p.json) == 2 {
-							p.json = replace(p.json, newKV[1:], len(p.json)-1, len(p.json)-1)
-						} else {
-							p.json = replace(p.json, newKV, len(p.json)-1, len(p.json)-1)
-						}
-						curr.down = append(curr.down, newNode)
-						newNode.up = curr
-						return nil
-					}
-				}
-				p.json = replace(p.json, newKV, len(p.json)-1, len(p.json)-1)
-				newNode := createNode(nil)
-				newNode.label = key
-				newNode.value = newVal
-				curr.down = append(curr.down, newNode)
-				newNode.up = curr
-				return nil
-			}
-			return errObjectExpected()
-		}
-		return errBadJSON(0)
-	}
-	curr, err = p.core.walk(path)
+	json, err := AddKeyValue(p.json, key, newVal, path...)
 	if err != nil {
 		return err
 	}
-	for _, d := range curr.up.down {
-		if d.label == key {
-			return errKeyAlreadyExist(key)
-		}
-	}
-	if len(json) >= 2 {
-		if json[0] == 123 && json[len(json)-1] == 125 {
-			if lenv >= 2 {
-				if newVal[0] == 91 || newVal[0] == 123 {
-					newNode := createNode(nil)
-					pCore(newVal, newNode)
-					newNode.label = key
-					newNode.value = newVal
-					curr.down = append(curr.down, newNode)
-					newNode.up = curr
-					p.json, err = AddKeyValue(p.json, key, newVal, path...)
-					if err != nil {
-						return err
-					}
-					for i := 0; i < lenp; i++ {
-						newNode = newNode.up
-						newNode.value, err = Get(p.json, path[:lenp-i]...)
-						if err != nil {
-							return err
-						}
-					}
-					return nil
-				}
-			}
-			newNode := createNode(nil)
-			newNode.label = key
-			newNode.value = newVal
-			curr.down = append(curr.down, newNode)
-			newNode.up = curr
-			p.json, err = AddKeyValue(p.json, key, newVal, path...)
-			if err != nil {
-				return err
-			}
-			for i := 0; i < lenp; i++ {
-				newNode = newNode.up
-				newNode.value, err = Get(p.json, path[:lenp-i]...)
-				if err != nil {
-					return err
-				}
-			}
-			return nil
-		}
-		return errObjectExpected()
-	}
-	return errBadJSON(0)
+	return p.update(json)
 }
 
 // Add adds a value to an array.
 // Path variable must point to an array,
 // otherwise it will provide an error message.
 func (p *Parser) Add(newVal []byte, path ...string) error {
-	lenp := len(path)
-	lenv := len(newVal)
-	var curr *node
-	var err error
-	if lenv == 0 {
+	if len(newVal) == 0 {
 		return errNullKey()
 	}
-	json, err := p.Get(path...)
-	if err != nil {
-		return err
-	}
+	json, err := Add(p.json, newVal, path...)
 	if err != nil {
 		return err
 	}
-	if lenp == 0 {
-		curr = p.core
-		if len(json) >= 2 {
-			if json[0] == 91 && json[len(json)-1] == 93 {
-				newValue := []byte(`,` + string(newVal))
-				if lenv >= 2 {
-					if newVal[0] == 91 || newVal[0] == 123 {
-						newNode := createNode(nil)
-						pCore(newVal, newNode)
-						index := len(curr.down)
-						newNode.label = strconv.Itoa(index)
-						newNode.value = newVal
-						if len(p.json) == 2 {
-							p.json = replace(p.json, newValue[1:], len(p.json)-1, len(p.json)-1)
-						} else {
-							p.json = replace(p.json, newValue, len(p.json)-1, len(p.json)-1)
-						}
-						curr.down = append(curr.down, newNode)
-						newNode.up = curr
-						return nil
-					}
-				}
-				p.json = replace(p.json, newValue, len(p.json)-1, len(p.json)-1)
-				newNode := createNode(nil)
-				index := len(curr.down)
-				newNode.label = strconv.Itoa(index)
-				newNode.value = newVal
-				curr.down = append(curr.down, newNode)
-				newNode.up = curr
-				return nil
-			}
-			return errArrayExpected()
-		}
-		return errBadJSON(0)
-	}
-	curr, err = p.core.walk(path)
-	if err != nil {
-		return err
-	}
-	if len(json) >= 2 {
-		if json[0] == 91 && json[len(json)-1] == 93 {
-			if lenv >= 2 {
-				if newVal[0] == 91 || newVal[0] == 123 {
-					newNode := createNode(nil)
-					pCore(newVal, newNode)
-					index := len(curr.down)
-					newNode.label = strconv.Itoa(index)
-					newNode.value = newVal
-					curr.down = append(curr.down, newNode)
-					newNode.up = curr
-					p.json, err = Add(p.json, newVal, path...)
-					if err != nil {
-						return err
-					}
-					for i := 0; i < lenp-1; i++ {
-						newNode = newNode.up
-						newNode.value, err = Get(p.json, path[:lenp-i]...)
-						if err != nil {
-							return err
-						}
-					}
-					return nil
-				}
-			}
-			newNode := createNode(nil)
-			index := len(curr.down)
-			newNode.label = strconv.Itoa(index)
-			newNode.value = newVal
-			curr.down = append(curr.down, newNode)
-			newNode.up = curr
-			p.json, err = Add(p.json, newVal, path...)
-			if err != nil {
-				return err
-			}
-			for i := 0; i < lenp; i++ {
-				newNode = newNode.up
-				newNode.value, err = Get(p.json, path[:lenp-i]...)
-				if err != nil {
-					return err
-				}
-			}
-			return nil
-		}
-		return errArrayExpected()
-	}
-	return errBadJSON(0)
+	return p.update(json)
 }
 
 // Insert inserts a value to an array.
 // Path variable must point to an array,
 // otherwise it will provide an error message.
 func (p *Parser) Insert(newIndex int, newVal []byte, path ...string) error {
-	lenp := len(path)
-	lenv := len(newVal)
-	var curr *node
-	var err error
-	if lenv == 0 {
+	if len(newVal) == 0 {
 		return errNullKey()
 	}
-	json, err := p.Get(path...)
+	json, err := Insert(p.json, newIndex, newVal, path...)
 	if err != nil {
 		return err
 	}
-	curr = p.core
-	if lenp == 0 {
-		if len(json) >= 2 {
-			if json[0] == 91 && json[len(json)-1] == 93 {
-				if lenv >= 2 {
-					if newVal[0] == 91 || newVal[0] == 123 {
-						newNode := createNode(nil)
-						pCore(newVal, newNode)
-						err = newNode.insert(curr, newIndex)
-						if err != nil {
-							return err
-						}
-						p.json, err = Insert(p.json, newIndex, newVal, path...)
-						if err != nil {
-							return err
-						}
-						err = newNode.insert(curr, newIndex)
-						if err != nil {
-							return err
-						}
-						curr.down = append(curr.down, newNode)
-						newNode.up = curr
-						return nil
-					}
-				}
-				newNode := createNode(nil)
-				err = newNode.insert(curr, newIndex)
-				if err != nil {
-					return err
-				}
-				newNode.value = newVal
-				curr.down = append(curr.down, newNode)
-				p.json, err = Insert(p.json, newIndex, newVal, path...)
-				if err != nil {
-					return err
-				}
-				err = newNode.insert(curr, newIndex)
-				if err != nil {
-					return err
-				}
-				newNode.up = curr
-				return nil
-			}
-			return errArrayExpected()
-		}
-		return errBadJSON(0)
-	}
-	curr, err = p.core.walk(path)
-	if err != nil {
-		return err
-	}
-	if len(json) >= 2 {
-		if json[0] == 91 && json[len(json)-1] == 93 {
-			if lenv >= 2 {
-				if newVal[0] == 91 || newVal[0] == 123 {
-					newNode := createNode(nil)
-					pCore(newVal, newNode)
-					err = newNode.insert(curr, newIndex)
-					if err != nil {
-						return err
-					}
-					newNode.value = newVal
-					curr.down = append(curr.down, newNode)
-					newNode.up = curr
-					p.json, err = Insert(p.json, newIndex, newVal, path...)
-					if err != nil {
-						return err
-					}
-					for i := 0; i < lenp; i++ {
-						newNode = newNode.up
-						newNode.value, err = Get(p.json, path[:lenp-i]...)
-						if err != nil {
-							return err
-						}
-					}
-					return nil
-				}
-			}
-			newNode := createNode(nil)
-			err = newNode.insert(curr, newIndex)
-			if err != nil {
-				return err
-			}
-			newNode.value = newVal
-			curr.down = append(curr.down, newNode)
-			newNode.up = curr
-			p.json, err = Insert(p.json, newIndex, newVal, path...)
-			if err != nil {
-				return err
-			}
-			for i := 0; i < lenp; i++ {
-				newNode = newNode.up
-				newNode.value, err = Get(p.json, path[:lenp-i]...)
-				if err != nil {
-					return err
-				}
-			}
-			return nil
-		}
-		return errArrayExpected()
-	}
-	return errBadJSON(0)
+	return p.update(json)
 }
 
 // AddKeyValueString is a variation of AddKeyValue() func.
diff --git a/parse_delete.go b/parse_delete.go
index 726979c..180d791 100755
--- a/parse_delete.go
+++ b/parse_delete.go
@@ -4,27 +4,9 @@ package jin
 // Path value must be provided,
 // otherwise it will provide an error message.
 func (p *Parser) Delete(path ...string) error {
-	var err error
-	var curr *node
-	lenp := len(path)
-	if lenp == 0 {
-		return errNullPath()
-	}
-	curr, err = p.core.walk(path)
+	json, err := Delete(p.json, path...)
 	if err != nil {
 		return err
 	}
-	curr.deAttach()
-	p.json, err = Delete(p.json, path...)
-	if err != nil {
-		return err
-	}
-	for i := 0; i < lenp-1; i++ {
-		curr = curr.up
-		curr.value, err = Get(p.json, path[:lenp-i-1]...)
-		if err != nil {
-			return err
-		}
-	}
-	return nil
+	return p.update(json)
 }
diff --git a/parse_set.go b/parse_set.go
index d257432..b5bc6c9 100755
--- a/parse_set.go
+++ b/parse_set.go
@@ -7,47 +7,11 @@ import "strconv"
 // Path variable can not be null,
 // otherwise it will provide an error message.
 func (p *Parser) Set(newVal []byte, path ...string) error {
-	lenp := len(path)
-	lenv := len(newVal)
-	var curr *node
-	var err error
-	if lenp == 0 {
-		return errNullPath()
-	}
-	curr, err = p.core.walk(path)
+	json, err := Set(p.json, newVal, path...)
 	if err != nil {
 		return err
 	}
-	if lenv >= 2 {
-		if newVal[0] == 91 || newVal[0] == 123 {
-			newCore := createNode(nil)
-			pCore(newVal, newCore)
-			newCore.label = curr.label
-			newCore.up = curr.up
-			index := curr.getIndex()
-			curr.up.down[index] = newCore
-			newCore.value = newVal
-			p.json, _ = Set(p.json, newVal, path...)
-			for i := 0; i < lenp-1; i++ {
-				newCore = newCore.up
-				newCore.value, err = Get(p.json, path[:lenp-1-i]...)
-				if err != nil {
-					return err
-				}
-			}
-			return nil
-		}
-	}
-	curr.value = newVal
-	p.json, _ = Set(p.json, newVal, path...)
-	for i := 0; i < lenp-1; i++ {
-		curr = curr.up
-		curr.value, err = Get(p.json, path[:lenp-1-i]...)
-		if err != nil {
-			return err
-		}
-	}
-	return nil
+	return p.update(json)
 }
 
 // SetString is a variation of Set() func.
@@ -85,33 +49,9 @@ func (p *Parser) SetBool(newValue bool, path ...string) error {
 // otherwise it will provide an error message.
 // Path variable can not be null,
 func (p *Parser) SetKey(newKey string, path ...string) error {
-	lenp := len(path)
-	lenv := len(newKey)
-	var curr *node
-	var err error
-	if lenp == 0 {
-		return errNullPath()
-	}
-	if lenv == 0 {
-		return errNullKey()
-	}
-	curr, err = p.core.walk(path)
+	json, err := SetKey(p.json, newKey, path...)
 	if err != nil {
 		return err
 	}
-	for _, d := range curr.up.down {
-		if d.label == newKey {
-			return errKeyAlreadyExist(newKey)
-		}
-	}
-	curr.label = newKey
-	p.json, _ = SetKey(p.json, newKey, path...)
-	for i := 0; i < lenp-1; i++ {
-		curr = curr.up
-		curr.value, _ = Get(p.json, path[:lenp-1-i]...)
-		if err != nil {
-			return err
-		}
-	}
-	return nil
+	return p.update(json)
 }
diff --git a/parse_utils.go b/parse_utils.go
index 0bdd206..b7f6ff0 100755
--- a/parse_utils.go
+++ b/parse_utils.go
@@ -1,9 +1,6 @@
 package jin
 
-import (
-	"fmt"
-	"strconv"
-)
+import "fmt"
 
 type node struct {
 	label string
@@ -20,11 +17,6 @@ type Parser struct {
 	json []byte
 }
 
-func createNode(up *node) *node {
-	Node := node{up: up}
-	return &Node
-}
-
 func packKeyValue(label string, value []byte) []byte {
 	byteOutput := make([]byte, 0, 16)
 	byteOutput = append(byteOutput, 34)
@@ -81,30 +73,15 @@ func Parse(json []byte) (*Parser, error) {
 	return &pars, nil
 }
 
-func (n *node) insert(up *node, index int) error {
-	lend := len(up.down)
-	if lend != 0 {
-		if lend-1 < index {
-			return errIndexOutOfRange()
-		}
-		for i := index; i < lend; i++ {
-			up.down[i].label = strconv.Itoa(i + 1)
-		}
-		n.label = strconv.Itoa(index)
-		n.up = up
-		return nil
-	}
-	return errIndexOutOfRange()
-}
-
-func (n *node) deAttach() {
-	newDown := make([]*node, 0, len(n.up.down)-1)
-	for _, d := range n.up.down {
-		if d.label != n.label {
-			newDown = append(newDown, d)
-		}
+// update makes json the document of the Parser, text and tree together.
+func (p *Parser) update(json []byte) error {
+	pars, err := Parse(json)
+	if err != nil {
+		return err
 	}
-	n.up.down = newDown
+	p.core = pars.core
+	p.json = pars.json
+	return nil
 }
 
 func (n *node) walk(path []string) (*node, error) {
@@ -122,15 +99,6 @@ func (n *node) walk(path []string) (*node, error) {
 	return n, nil
 }
 
-func (n *node) getIndex() int {
-	for i, v := range n.up.down {
-		if v.label == n.label {
-			return i
-		}
-	}
-	return -1
-}
-
 // Tree is a simple tool for visualizing JSONs as semi-tree formation.
 // This function returns that form as string.
 func (p *Parser) Tree() string {
-- 
2.43.0


From 0829e5e508a3a1fb40ee82cabbe6a29a716ded60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:13 +0000
Subject: [PATCH 34/39] fix: Parser.SetString accepts the empty string

---
 parse_set.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parse_set.go b/parse_set.go
index b5bc6c9..a0ffa7c 100755
--- a/parse_set.go
+++ b/parse_set.go
@@ -17,7 +17,7 @@ func (p *Parser) Set(newVal []byte, path ...string) error {
 // SetString is a variation of Set() func.
 // SetString takes the set value as string.
 func (p *Parser) SetString(newValue string, path ...string) error {
-	if newValue[0] != 34 && newValue[len(newValue)-1] != 34 {
+	if len(newValue) == 0 || (newValue[0] != 34 && newValue[len(newValue)-1] != 34) {
 		return p.Set([]byte(`"`+newValue+`"`), path...)
 	}
 	return p.Set([]byte(newValue), path...)
-- 
2.43.0


From 87024f1737543f1d00a00a97827939935bd829cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:44 +0000
Subject: [PATCH 35/39] fix: GetType names numbers beyond the float64 range

---
 inter_type.go | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/inter_type.go b/inter_type.go
index 11a3c23..f5fcdef 100755
--- a/inter_type.go
+++ b/inter_type.go
@@ -1,7 +1,5 @@
 package jin
 
-import "strconv"
-
 const (
 	TypeArray   string = "array"
 	TypeObject  string = "object"
@@ -70,12 +68,7 @@ func GetType(json []byte, path ...string) (string, error) {
 	case "null":
 		return TypeNull, nil
 	}
-	_, err = strconv.ParseInt(val, 10, 64)
-	if err == nil {
-		return TypeNumber, nil
-	}
-	_, err = strconv.ParseFloat(val, 64)
-	if err == nil {
+	if isNumber(val) {
 		return TypeNumber, nil
 	}
 	return TypeString, nil
-- 
2.43.0


From 6c04075d5cc5c01280eb722c3ec8978d8821360f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:02 +0000
Subject: [PATCH 36/39] fix: a path that runs off the end of a truncated
 document is an error

---
 inter_core.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inter_core.go b/inter_core.go
index c772f9c..8963c1f 100755
--- a/inter_core.go
+++ b/inter_core.go
@@ -409,7 +409,7 @@ func core(json []byte, justStart bool, path ...string) (int, int, int, error) {
 	}
 	// this means not search operation has take place
 	// it must be some kinda error or bad format
-	if offset == 0 {
+	if offset == 0 || offset > len(json)-1 {
 		return -1, -1, -1, errBadJSON(0)
 	}
 	// skip spaces from top.
-- 
2.43.0


From 8c788e0500af1a6de6262a387dae4f18640b25d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:02 +0000
Subject: [PATCH 37/39] fix: a string that looks like a container is not one to
 Add, AddKeyValue and Insert

---
 inter_add.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/inter_add.go b/inter_add.go
index 6dc02d0..51b8d32 100755
--- a/inter_add.go
+++ b/inter_add.go
@@ -51,7 +51,7 @@ func AddKeyValue(json []byte, key string, value []byte, path ...string) ([]byte,
 			return json, err
 		}
 	}
-	if json[start] == 123 && json[end-1] == 125 {
+	if json[start] == 123 && json[end-1] == 125 && !(start > 0 && json[start-1] == 34) {
 		empty := true
 		for i := start + 1; i < end-1; i++ {
 			if !space(json[i]) {
@@ -124,7 +124,7 @@ func Add(json []byte, value []byte, path ...string) ([]byte, error) {
 			return json, err
 		}
 	}
-	if json[start] == 91 && json[end-1] == 93 {
+	if json[start] == 91 && json[end-1] == 93 && !(start > 0 && json[start-1] == 34) {
 		empty := true
 		for i := start + 1; i < end-1; i++ {
 			if !space(json[i]) {
@@ -190,7 +190,7 @@ func Insert(json []byte, index int, value []byte, path ...string) ([]byte, error
 			return json, err
 		}
 	}
-	if json[start] != 91 || json[end-1] != 93 {
+	if json[start] != 91 || json[end-1] != 93 || (start > 0 && json[start-1] == 34) {
 		return json, errArrayExpected()
 	}
 	_, start, _, err = core(json, false, append(path[:len(path):len(path)], strconv.Itoa(index))...)
-- 
2.43.0


From c96ec3814f013c307ec185056fa9a9227d89b842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:03 +0000
Subject: [PATCH 38/39] fix: IterateKeyValue trims white space after a one-byte
 value

---
 inter_iter.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inter_iter.go b/inter_iter.go
index d68e98b..0b41b12 100755
--- a/inter_iter.go
+++ b/inter_iter.go
@@ -222,7 +222,7 @@ func IterateKeyValue(json []byte, callback func([]byte, []byte) (bool, error), p
 								break
 							}
 						}
-						for j := i - 1; j > start; j-- {
+						for j := i - 1; j > start-1; j-- {
 							if !space(json[j]) {
 								end = j
 								break
-- 
2.43.0


From 2220d0ce76d72f1f15c95fab41eea2d58cf2d12b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:08 +0000
Subject: [PATCH 39/39] fix: a colon without a key does not match the empty key

---
 inter_core.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inter_core.go b/inter_core.go
index 8963c1f..fe721bb 100755
--- a/inter_core.go
+++ b/inter_core.go
@@ -252,7 +252,7 @@ func core(json []byte, justStart bool, path ...string) (int, int, int, error) {
 						if curr == 58 {
 							// comp between current path and key
 							// length comp between current path and key
-							if len(currentPath) == end-start {
+							if start > 0 && len(currentPath) == end-start {
 								same := true
 								// compare all elements
 								for j := 0; j < len(currentPath); j++ {
-- 
2.43.0

