From 570bfc4c87f0f49ddba5f3ca3e648fccac3367ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:48 +0000
Subject: [PATCH 01/38] fix: raise the divide by 0 error for a modulus between
 -1 and 1

The operands of % are truncated to integers, so x % 0.5 divided by an
integer 0 and killed the process with SIGFPE, both in the VM and during
constant folding.
---
 compiler.c | 2 +-
 vm.c       | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/compiler.c b/compiler.c
index 613d016..7aa71d1 100644
--- a/compiler.c
+++ b/compiler.c
@@ -432,7 +432,7 @@ static Value foldConstant(Iseq *seq, Insn *cur, Insn *bin, Insn *ain) {
             }
             return NUMBER_VAL(aNum / bNum);
         case OP_MODULO:
-            if (bNum == 0.00) {
+            if ((int)bNum == 0) {
                 fprintf(stderr, "[Warning]: Divide by 0 found on line %d during constant folding\n", bin->lineno);
                 return UNDEF_VAL;
             }
diff --git a/vm.c b/vm.c
index 928b982..c1d8cb2 100644
--- a/vm.c
+++ b/vm.c
@@ -2385,7 +2385,8 @@ static InterpretResult vm_run() {
       Value b = VM_PEEK(0);\
       Value a = VM_PEEK(1);\
       if (IS_NUMBER(a) && IS_NUMBER(b)) {\
-          if (UNLIKELY(((opcode == OP_DIVIDE || opcode == OP_MODULO) && AS_NUMBER(b) == 0.00))) {\
+          if (UNLIKELY((opcode == OP_DIVIDE && AS_NUMBER(b) == 0.00) ||\
+                  (opcode == OP_MODULO && (type)AS_NUMBER(b) == 0))) {\
               throwErrorFmt(lxErrClass, "Can't divide by 0");\
           }\
           VM_POP();\
-- 
2.43.0


From 4178e6478cdc950727dd8e9f00be6faae5544808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:48 +0000
Subject: [PATCH 02/38] fix: raise a TypeError for %, |, & and ^ on objects

These operators have no overload method, so the error message for a
missing method dereferenced a NULL method name and crashed.
---
 vm.c | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/vm.c b/vm.c
index c1d8cb2..4dc9f32 100644
--- a/vm.c
+++ b/vm.c
@@ -2391,13 +2391,10 @@ static InterpretResult vm_run() {
           }\
           VM_POP();\
           VM_PUSHSWAP(NUMBER_VAL((type)AS_NUMBER(a) op (type)AS_NUMBER(b)));\
-      } else if (IS_INSTANCE_LIKE(a)) {\
+      } else if (IS_INSTANCE_LIKE(a) && methodNameForBinop(opcode)) {\
           ObjInstance *inst = AS_INSTANCE(a);\
           ObjString *methodName = methodNameForBinop(opcode);\
-          Obj *callable = NULL;\
-          if (methodName) {\
-            callable = instanceFindMethod(inst, methodName);\
-          }\
+          Obj *callable = instanceFindMethod(inst, methodName);\
           if (UNLIKELY(!callable)) {\
               throwErrorFmt(lxNameErrClass, "Method %s#%s not found for operation '%s'", className(inst->klass), methodName->chars, #op);\
           }\
-- 
2.43.0


From ded102c28531f0442325844ffc805bb263c66e7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:48 +0000
Subject: [PATCH 03/38] fix: compare numbers by value with == and !=

With NaN tagging the bit patterns were compared, so 0 == -0 was false
although 0 <= -0 and 0 >= -0 are true.
---
 vm.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vm.c b/vm.c
index 4dc9f32..2abf774 100644
--- a/vm.c
+++ b/vm.c
@@ -881,7 +881,7 @@ static bool isValueOpEqual(Value lhs, Value rhs) {
         return AS_OBJ(lhs) == AS_OBJ(rhs);
     } else if (IS_NUMBER(lhs)) { // 2 numbers, same values are equal
 #ifdef NAN_TAGGING
-        return lhs == rhs;
+        return IS_NUMBER(rhs) && AS_NUMBER(lhs) == AS_NUMBER(rhs);
 #else
         return AS_NUMBER(lhs) == AS_NUMBER(rhs);
 #endif
-- 
2.43.0


From 1c0ab7d7857ce51bba2d33b15883efde3c0cf253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:11 +0000
Subject: [PATCH 04/38] fix: an object is not equal to a number with the same
 bits as its address

---
 vm.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vm.c b/vm.c
index 2abf774..c216708 100644
--- a/vm.c
+++ b/vm.c
@@ -878,7 +878,7 @@ static bool isValueOpEqual(Value lhs, Value rhs) {
             }
         }
         // 2 objects, same pointers to Obj are equal
-        return AS_OBJ(lhs) == AS_OBJ(rhs);
+        return IS_OBJ(rhs) && AS_OBJ(lhs) == AS_OBJ(rhs);
     } else if (IS_NUMBER(lhs)) { // 2 numbers, same values are equal
 #ifdef NAN_TAGGING
         return IS_NUMBER(rhs) && AS_NUMBER(lhs) == AS_NUMBER(rhs);
-- 
2.43.0


From c6d92d045f7dc1672481a2ae2ab6f7e1b5e988ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:29 +0000
Subject: [PATCH 05/38] fix: pushFront moves every element up, not only the
 first

---
 value.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/value.c b/value.c
index 1958653..9abe63c 100644
--- a/value.c
+++ b/value.c
@@ -57,7 +57,7 @@ void writeValueArrayBeg(ValueArray *array, Value value) {
 
     Value *dest = array->values+1;
     Value *src = array->values;
-    memmove(dest, src, sizeof(Value));
+    memmove(dest, src, sizeof(Value) * array->count);
     array->values[0] = value;
     array->count++;
 }
-- 
2.43.0


From 99dd1f5472996c8ba577f273ff7a10d9fb5b239a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:29 +0000
Subject: [PATCH 06/38] fix: Array#deleteAt with a negative index deletes
 nothing

---
 object.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/object.c b/object.c
index dc1f4ad..5940756 100644
--- a/object.c
+++ b/object.c
@@ -945,7 +945,7 @@ bool arrayDeleteAt(Value self, int idx, Value *found) {
     }
     arrayDedup(AS_ARRAY(self));
     ValueArray *ary = &AS_ARRAY(self)->valAry;
-    if (ary->count > idx) {
+    if (idx >= 0 && ary->count > idx) {
         Value val = ary->values[idx];
         removeValueArray(ary, idx);
         *found = val;
-- 
2.43.0


From 08e5e8e9ac2fdc87d4f4c4137a482b979c6cce63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:29 +0000
Subject: [PATCH 07/38] fix: assigning to an element of an array made from a
 literal leaves the literal alone

---
 array.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/array.c b/array.c
index 80f9f84..093b08d 100644
--- a/array.c
+++ b/array.c
@@ -256,6 +256,7 @@ static Value lxArrayOpIndexSet(int argCount, Value *args) {
     if (isFrozen((Obj*)selfObj)) {
         throwErrorFmt(lxErrClass, "%s", "Array is frozen, cannot modify");
     }
+    arrayDedup(selfObj);
     ValueArray *ary = &selfObj->valAry;
     int idx = (int)AS_NUMBER(num);
     if (idx < 0) {
-- 
2.43.0


From d30a4a1e702b2a4dd516acd1a4e535d8f64f0149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:21 +0000
Subject: [PATCH 08/38] fix: Map#each visits every entry, whatever slot it is
 in

---
 map.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/map.c b/map.c
index 47088ad..a9828c6 100644
--- a/map.c
+++ b/map.c
@@ -347,7 +347,11 @@ static Value lxMapEach(int argCount, Value *args) {
     }
     volatile BlockStackEntry *bentry = NULL;
     while (true) {
-        if (startIdx == map->count) {
+        // NOTE: startIdx is a slot index, not an entry count
+        while (startIdx <= map->capacityMask && IS_UNDEF(map->entries[startIdx].key)) {
+            startIdx++;
+        }
+        if (startIdx > map->capacityMask) {
             return *args;
         }
         SETUP_BLOCK(block, bentry, status, th->errInfo)
-- 
2.43.0


From aed5f1a4bd26d15ca1ed8d7fffa762dd0674a8bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:21 +0000
Subject: [PATCH 09/38] fix: merge and mergeWith check that they are given a
 map before using it

---
 map.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/map.c b/map.c
index a9828c6..e897636 100644
--- a/map.c
+++ b/map.c
@@ -250,8 +250,8 @@ static Value lxMapMerge(int argCount, Value *args) {
     CHECK_ARITY("Map#merge", 2, 2, argCount);
     Value self = args[0];
     Value other = args[1];
-    Table *otherMap = AS_MAP(other)->table;
     CHECK_ARG_IS_A(other, lxMapClass, 1);
+    Table *otherMap = AS_MAP(other)->table;
     Value ret = callMethod(AS_OBJ(self), INTERN("dup"), 0, NULL, NULL);
     Table *retMap = AS_MAP(ret)->table;
     Entry e; int idx = 0;
@@ -269,8 +269,8 @@ static Value lxMapMergeWith(int argCount, Value *args) {
     Value self = args[0];
     Value other = args[1];
     Table *myMap = AS_MAP(self)->table;
-    Table *otherMap = AS_MAP(other)->table;
     CHECK_ARG_IS_A(other, lxMapClass, 1);
+    Table *otherMap = AS_MAP(other)->table;
     if (isFrozen(AS_OBJ(self))) {
         throwErrorFmt(lxErrClass, "%s", "Map is frozen, cannot modify");
     }
-- 
2.43.0


From 9e04498ec578047cf8845836b6279035f32cc243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:52 +0000
Subject: [PATCH 10/38] fix: strings with the same hash are equal only if their
 bytes are

---
 object.c | 4 ++--
 table.c  | 6 ++----
 value.c  | 5 +----
 3 files changed, 5 insertions(+), 10 deletions(-)

diff --git a/object.c b/object.c
index 5940756..c565269 100644
--- a/object.c
+++ b/object.c
@@ -157,8 +157,8 @@ void pushString(Value self, Value pushed) {
 bool objStringEquals(ObjString *a, ObjString *b) {
     DBG_ASSERT(a && b);
     if (a->length != b->length) return false;
-    if (a->hash > 0 && b->hash > 0) return a->hash == b->hash;
-    return strcmp(a->chars, b->chars) == 0;
+    if (a->hash > 0 && b->hash > 0 && a->hash != b->hash) return false;
+    return a == b || a->length == 0 || memcmp(a->chars, b->chars, a->length) == 0;
 }
 
 // Copies `chars`, adds them to end of string.
diff --git a/table.c b/table.c
index fd83380..3fae7a6 100644
--- a/table.c
+++ b/table.c
@@ -203,10 +203,8 @@ ObjString *tableFindString(Table *table, const char* chars, size_t length,
         if (UNLIKELY(IS_UNDEF(entry->key))) return NULL;
         if (IS_STRING(entry->key)) {
             ObjString *stringKey = AS_STRING(entry->key);
-            if (stringKey->hash && stringKey->hash == hash) {
-                return stringKey;
-            }
-            if (stringKey->length == length &&
+            // NOTE: different strings can have the same hash
+            if ((!stringKey->hash || stringKey->hash == hash) && stringKey->length == length &&
                     memcmp(stringKey->chars, chars, length) == 0) {
                 // We found it.
                 return stringKey;
diff --git a/value.c b/value.c
index 9abe63c..021a81e 100644
--- a/value.c
+++ b/value.c
@@ -486,10 +486,7 @@ bool valEqual(Value a, Value b) {
             if (IS_STRING(a) && IS_STRING(b)) {
                 ObjString *aStr = AS_STRING(a);
                 ObjString *bStr = AS_STRING(b);
-                if (aStr->hash && bStr->hash) {
-                    return aStr->hash == bStr->hash;
-                }
-                return aStr->length == bStr->length && strcmp(aStr->chars, bStr->chars) == 0;
+                return objStringEquals(aStr, bStr);
             }
             if (IS_INSTANCE_LIKE(a)) {
                 return AS_BOOL(callMethod(AS_OBJ(a), vm.opEqualsString, 1, &b, NULL));
-- 
2.43.0


From 86dd001fae0fb32aaeb6a942d7e496ab526a0cba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:52 +0000
Subject: [PATCH 11/38] fix: 0 and -0 are the same map key

---
 value.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/value.c b/value.c
index 021a81e..47f14ef 100644
--- a/value.c
+++ b/value.c
@@ -488,6 +488,10 @@ bool valEqual(Value a, Value b) {
                 ObjString *bStr = AS_STRING(b);
                 return objStringEquals(aStr, bStr);
             }
+            if (IS_NUMBER(a) && IS_NUMBER(b)) {
+                // by value, so that 0 and -0 are the same key. NaN is equal to itself here.
+                return AS_NUMBER(a) == AS_NUMBER(b) || a == b;
+            }
             if (IS_INSTANCE_LIKE(a)) {
                 return AS_BOOL(callMethod(AS_OBJ(a), vm.opEqualsString, 1, &b, NULL));
             }
-- 
2.43.0


From 2f0efa702670fd3d36d706d7234284a7c3552603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:51 +0000
Subject: [PATCH 12/38] fix: inserting past the end of a string raises an
 ArgumentError instead of aborting

---
 object.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/object.c b/object.c
index c565269..23e659c 100644
--- a/object.c
+++ b/object.c
@@ -842,6 +842,9 @@ void stringInsertAt(Value self, Value insert, size_t at, bool replaceAt) {
     }
     ObjString *selfBuf = AS_STRING(self);
     ObjString *insertBuf = AS_STRING(insert);
+    if (at > selfBuf->length) {
+        throwArgErrorFmt("%s", "index too big");
+    }
     insertObjString(selfBuf, insertBuf, at, replaceAt);
 }
 
-- 
2.43.0


From 236bee9959ddd51ff9f272c7da04fa05c2dcf87d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:51 +0000
Subject: [PATCH 13/38] fix: a string can be pushed to or inserted into itself

---
 object.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/object.c b/object.c
index 23e659c..02dd0d2 100644
--- a/object.c
+++ b/object.c
@@ -151,6 +151,9 @@ void pushString(Value self, Value pushed) {
     }
     ObjString *lhsBuf = AS_STRING(self);
     ObjString *rhsBuf = AS_STRING(pushed);
+    if (rhsBuf == lhsBuf) { // the buffer can move
+        rhsBuf = dupString(lhsBuf);
+    }
     pushObjString(lhsBuf, rhsBuf);
 }
 
@@ -845,6 +848,9 @@ void stringInsertAt(Value self, Value insert, size_t at, bool replaceAt) {
     if (at > selfBuf->length) {
         throwArgErrorFmt("%s", "index too big");
     }
+    if (insertBuf == selfBuf) { // the bytes to insert move
+        insertBuf = dupString(selfBuf);
+    }
     insertObjString(selfBuf, insertBuf, at, replaceAt);
 }
 
-- 
2.43.0


From e8b4ec617c3e2684cadc904857308edaafdf52a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:51 +0000
Subject: [PATCH 14/38] fix: padRight raises an error on a frozen string and
 leaves a shared literal alone

---
 string.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/string.c b/string.c
index 6b6ac1a..1346615 100644
--- a/string.c
+++ b/string.c
@@ -256,6 +256,10 @@ static Value lxStringPadRight(int argCount, Value *args) {
     if (newLen <= oldLen) {
       return self;
     }
+    if (isFrozen(AS_OBJ(self))) {
+        throwErrorFmt(lxErrClass, "%s", "String is frozen, cannot modify");
+    }
+    dedupString(selfStr);
     int bytesToPad = newLen - oldLen;
     while (bytesToPad > 0) {
       pushCString(selfStr, padStr->chars, 1);
-- 
2.43.0


From 996eb413a88d8d311b7065686cfc55bf7f78ed4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:51 +0000
Subject: [PATCH 15/38] fix: compact and compactLeft keep the only non-blank
 byte of a string

---
 string.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/string.c b/string.c
index 1346615..4cf1122 100644
--- a/string.c
+++ b/string.c
@@ -313,15 +313,15 @@ static Value lxStringCompact(int argCount, Value *args) {
     char *orig = AS_CSTRING(self);
     ObjString *new = copyString("", 0, NEWOBJ_FLAG_NONE);
     char *start = orig;
-    char *end = start + strlen(orig)-1;
+    char *end = start + strlen(orig);
     while (start < end && isspace(*start)) {
       start++;
     }
-    while (end > start && isspace(*end)) {
+    while (end > start && isspace(*(end-1))) {
       end--;
     }
     if (start < end) {
-      pushCString(new, start, end-start+1);
+      pushCString(new, start, end-start);
     }
     return OBJ_VAL(new);
 }
@@ -332,12 +332,12 @@ static Value lxStringCompactLeft(int argCount, Value *args) {
     char *orig = AS_CSTRING(self);
     ObjString *new = copyString("", 0, NEWOBJ_FLAG_NONE);
     char *start = orig;
-    char *end = start + strlen(orig)-1;
+    char *end = start + strlen(orig);
     while (start < end && isspace(*start)) {
       start++;
     }
     if (start < end) {
-      pushCString(new, start, end-start+1);
+      pushCString(new, start, end-start);
     }
     return OBJ_VAL(new);
 }
-- 
2.43.0


From 8ca833e6650f179f315a4d890035b5f51990845c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:51 +0000
Subject: [PATCH 16/38] fix: splitting at an empty separator ends

---
 string.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/string.c b/string.c
index 4cf1122..b8491b1 100644
--- a/string.c
+++ b/string.c
@@ -228,6 +228,13 @@ static Value lxStringSplit(int argCount, Value *args) {
     char *end = hay + strlen(hay);
 
     char *res = NULL;
+    // with an empty separator every byte is a part
+    while (*needle == '\0' && hay < end) {
+      ObjString *part = copyString(hay, 1, NEWOBJ_FLAG_NONE);
+      hay++;
+      arrayPush(ret, OBJ_VAL(part));
+    }
+
     // ex: hay: "hello,,there", needle: ",,"
     // TODO: support regexes as pat
     while (hay < end && (res = strstr(hay, needle)) != NULL) {
-- 
2.43.0


From efd3a4bcc9cecbcec92479b8896f925f839e226c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:51 +0000
Subject: [PATCH 17/38] fix: String#index checks that it is given a string

---
 string.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/string.c b/string.c
index b8491b1..e884c16 100644
--- a/string.c
+++ b/string.c
@@ -353,6 +353,7 @@ static Value lxStringIndex(int argCount, Value *args) {
     CHECK_ARITY("String#index", 2, 2, argCount);
     Value self = args[0];
     Value needleVal = args[1];
+    CHECK_ARG_IS_A(needleVal, lxStringClass, 1);
     char *hay = AS_CSTRING(self);
     char *needle = AS_CSTRING(needleVal);
     char *found = strstr(hay, needle);
-- 
2.43.0


From adeac6e21d2e88a58837e854ad093ae519f3ca5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:18 +0000
Subject: [PATCH 18/38] fix: hashKey of an array or a map does not take numbers
 for the collection itself

---
 array.c | 2 +-
 map.c   | 3 +--
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/array.c b/array.c
index 093b08d..fd4d41d 100644
--- a/array.c
+++ b/array.c
@@ -292,7 +292,7 @@ static Value lxArrayHashKey(int argCount, Value *args) {
     ValueArray *ary = &AS_ARRAY(self)->valAry;
     Value el; int idx = 0;
     VALARRAY_FOREACH(ary, el, idx) {
-        if (AS_OBJ(el) == AS_OBJ(self)) { // avoid infinite recursion
+        if (el == self) { // avoid infinite recursion
             hash = hash ^ 1667; // XXX: no reason for this number
             continue;
         }
diff --git a/map.c b/map.c
index e897636..9fcdb8b 100644
--- a/map.c
+++ b/map.c
@@ -193,12 +193,11 @@ static Value lxMapEquals(int argCount, Value *args) {
 static Value lxMapHashKey(int argCount, Value *args) {
     CHECK_ARITY("Map#hashKey", 1, 1, argCount);
     Value self = *args;
-    Obj *selfObj = AS_OBJ(self);
     uint32_t hash = 166779; // XXX: no reason for this number
     Table *map = AS_MAP(self)->table;
     Entry e; int idx = 0;
     TABLE_FOREACH(map, e, idx, {
-        if (AS_OBJ(e.key) == selfObj || AS_OBJ(e.value) == selfObj) { // avoid infinite recursion
+        if (e.key == self || e.value == self) { // avoid infinite recursion
             hash = hash ^ 16667; // XXX: no reason for this number
             continue;
         }
-- 
2.43.0


From cd2cb32ff443edf801cff4e705702f242dec3724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:36 +0000
Subject: [PATCH 19/38] fix: the optimizer keeps the targets of jumps, breaks,
 loops and catch rows

---
 compiler.c | 168 +++++++++++++++++++++--------------------------------
 1 file changed, 67 insertions(+), 101 deletions(-)

diff --git a/compiler.c b/compiler.c
index 7aa71d1..bd8410d 100644
--- a/compiler.c
+++ b/compiler.c
@@ -491,62 +491,73 @@ static void patchJumpInsnWithOffset(Insn *jump, int offset) {
     jump->operands[0] += offset;
 }
 
-/* Remove the given instruction. If there's a forward jump to this instruction or
- * to an instruction after it, the jump needs to be patched. If there's a backwards jump
- * to this instruction or to an instruction before it, the jump needs to be patched.
+static inline bool isBreak(Insn *in);
+
+static inline bool isAnyJump(Insn *in) {
+    return isJump(in) || isLoop(in) || isBreak(in);
+}
+
+// word offset of the instruction that the jump found at `offset` continues at
+static int jumpTargetOffset(Insn *in, int offset) {
+    if (isLoop(in)) return offset - (int)in->operands[0];
+    if (isBreak(in)) return offset + (int)in->operands[0];
+    return offset + (int)in->operands[0] + 1;
+}
+
+/* `delta` words are about to be added to the end of the given instruction (or, if
+ * negative, removed). Patch all jumps and catch table rows, so that they keep their
+ * targets.
  */
-static void rmInsnAndPatchJumps(Iseq *seq, Insn *insn) {
-    int insnIdx = iseqInsnIndex(seq, insn);
-    ASSERT(insnIdx >= 0);
-    OPT_DEBUG(2, "rmInsnAndPatchLabels insnIdx: %d\n", insnIdx);
+static void patchOffsetsAfter(Iseq *seq, Insn *insn, int delta) {
+    int insnStart = 0;
     Insn *in = seq->insns;
-    int idx = 0;
-    while (in) {
-        if (in == insn) { // it will be removed at the end of the function
-            in = in->next;
-            idx++;
-            continue;
-        }
-        // jump instruction found before removed instruction, if it jumps
-        // to the removed instruction or after it, then patch the jump
-        if (idx < insnIdx && isJump(in)) {
-            OPT_DEBUG(2, "Found jump at %d", idx);
-            ASSERT(in->jumpTo || in->jumpToPrev);
-            Insn *jumpTo = in->jumpTo;
-            if (!jumpTo) {
-                jumpTo = in->jumpToPrev->next;
-            }
-            ASSERT(jumpTo);
-            int jumpToIndex = iseqInsnIndex(seq, jumpTo);
-            ASSERT(jumpToIndex >= 0);
-            OPT_DEBUG(2, "Jump to index: %d", jumpToIndex);
-            if (jumpToIndex >= insnIdx) {
-                if (jumpToIndex == insnIdx) {
-                    in->jumpTo = insn->next; // TODO: might be last instruction, in which case the jump should be removed
-                }
-                OPT_DEBUG(2, "Patching jump, offset before: %d", in->operands[0]);
-                patchJumpInsnWithOffset(in, -(insn->numOperands+1));
-                OPT_DEBUG(2, "Patched jump, offset after: %d", in->operands[0]);
-            }
-        // loop instruction found after removed instruction, if it jumps
-        // to the removed instruction or before it, then patch the loop
-        } else if (idx > insnIdx && isLoop(in)) {
-            OPT_DEBUG(2, "Found loop at %d", idx);
-            ASSERT(in->jumpTo);
-            int jumpToIndex = iseqInsnIndex(seq, in->jumpTo);
-            ASSERT(jumpToIndex >= 0);
-            OPT_DEBUG(2, "Jump to index: %d", jumpToIndex);
-            if (jumpToIndex <= insnIdx) {
-                if (jumpToIndex == insnIdx) {
-                    in->jumpTo = insn->next;
-                }
+    while (in && in != insn) {
+        insnStart += in->numOperands+1;
+        in = in->next;
+    }
+    ASSERT(in);
+    int offset = 0;
+    for (in = seq->insns; in; in = in->next) {
+        if (in != insn && isAnyJump(in) && in->operands[0] != 0) {
+            int target = jumpTargetOffset(in, offset);
+            int diff = (target > insnStart ? delta : 0) - (offset > insnStart ? delta : 0);
+            if (isLoop(in)) diff = -diff;
+            if (diff != 0) {
                 OPT_DEBUG(2, "Patching jump, offset before: %d", in->operands[0]);
-                patchJumpInsnWithOffset(in, -(insn->numOperands+1));
+                patchJumpInsnWithOffset(in, diff);
                 OPT_DEBUG(2, "Patched jump, offset after: %d", in->operands[0]);
             }
         }
-        in = in->next;
-        idx++;
+        offset += in->numOperands+1;
+    }
+    for (CatchTable *row = seq->catchTbl; row; row = row->next) {
+        if (row->ifrom > insnStart) row->ifrom += delta;
+        if (row->ito > insnStart) row->ito += delta;
+        if (row->itarget > insnStart) row->itarget += delta;
+    }
+}
+
+// mark the targets of all jumps
+static void markJumpTargets(Iseq *seq) {
+    int offset = 0;
+    for (Insn *in = seq->insns; in; in = in->next) {
+        if (isAnyJump(in) && in->operands[0] != 0) {
+            Insn *target = insnAtOffset(seq, jumpTargetOffset(in, offset));
+            if (target) target->isLabel = true;
+        }
+        offset += in->numOperands+1;
+    }
+    for (CatchTable *row = seq->catchTbl; row; row = row->next) {
+        Insn *target = insnAtOffset(seq, row->itarget);
+        if (target) target->isLabel = true;
+    }
+}
+
+// Remove the given instruction. Jumps to it continue at the next one.
+static void rmInsnAndPatchJumps(Iseq *seq, Insn *insn) {
+    patchOffsetsAfter(seq, insn, -(insn->numOperands+1));
+    if (insn->isLabel && insn->next) {
+        insn->next->isLabel = true;
     }
     iseqRmInsn(seq, insn);
 }
@@ -564,8 +575,10 @@ static int replaceJumpInsn(Iseq *seq, Insn *jumpInsn) {
             }
         case OP_JUMP_IF_FALSE:
             if (!jumpInsn->isLabel) {
+                patchOffsetsAfter(seq, jumpInsn, -1);
                 jumpInsn->code = OP_POP;
                 jumpInsn->numOperands = 0;
+                seq->wordCount -= 1;
             }
             return 0;
         default:
@@ -632,58 +645,10 @@ static void addInsnOperand(Iseq *seq, Insn *insn, bytecode_t operand) {
     if (insn->numOperands == MAX_INSN_OPERANDS) {
         UNREACHABLE("too many operands"); // TODO: error out
     }
+    patchOffsetsAfter(seq, insn, 1);
     insn->operands[insn->numOperands] = operand;
     insn->numOperands+=1;
     seq->wordCount += 1;
-    int insnIdx = iseqInsnIndex(seq, insn);
-    ASSERT(insnIdx >= 0);
-    Insn *in = seq->insns;
-    int idx = 0;
-    while (in) {
-        if (in == insn) {
-            in = in->next;
-            idx++;
-            continue;
-        }
-        // jump instruction found before altered instruction, if it jumps
-        // to the altered instruction or after it, then patch the jump
-        if (idx < insnIdx && isJump(in)) {
-            OPT_DEBUG(2, "Found jump at %d", idx);
-            Insn *jumpTo = in->jumpTo;
-            if (!jumpTo) {
-                jumpTo = in->jumpToPrev->next;
-            }
-            ASSERT(jumpTo);
-            int jumpToIndex = iseqInsnIndex(seq, jumpTo);
-            ASSERT(jumpToIndex >= 0);
-            OPT_DEBUG(2, "Jump to index: %d", jumpToIndex);
-            if (jumpToIndex >= insnIdx) {
-                if (jumpToIndex == insnIdx) {
-                    in->jumpTo = insn->next; // TODO: might be last instruction, in which case the jump should be removed
-                    in->jumpToPrev = NULL;
-                }
-                OPT_DEBUG(2, "Patching jump, offset before: %d", in->operands[0]);
-                patchJumpInsnWithOffset(in, 1);
-                OPT_DEBUG(2, "Patched jump, offset after: %d", in->operands[0]);
-            }
-        } else if (idx > insnIdx && isLoop(in)) {
-            OPT_DEBUG(2, "Found loop at %d", idx);
-            ASSERT(in->jumpTo);
-            int jumpToIndex = iseqInsnIndex(seq, in->jumpTo);
-            ASSERT(jumpToIndex >= 0);
-            OPT_DEBUG(2, "Jump to index: %d", jumpToIndex);
-            if (jumpToIndex <= insnIdx) {
-                if (jumpToIndex == insnIdx) {
-                    in->jumpTo = insn->next;
-                }
-                OPT_DEBUG(2, "Patching jump, offset before: %d\n", in->operands[0]);
-                patchJumpInsnWithOffset(in, 1);
-                OPT_DEBUG(2, "Patched jump, offset after: %d\n", in->operands[0]);
-            }
-        }
-        in = in->next;
-        idx++;
-    }
 }
 
 static void optimizeIseq(Iseq *iseq) {
@@ -692,6 +657,7 @@ static void optimizeIseq(Iseq *iseq) {
     Insn *prev = NULL;
     Insn *prevp = NULL;
     int idx = 0;
+    markJumpTargets(iseq);
     while (cur) {
         COMP_TRACE("optimize idx %d", idx);
         prev = cur->prev; // can be NULL
@@ -699,7 +665,7 @@ static void optimizeIseq(Iseq *iseq) {
         // constant folding, ex: turn 2+2 into 4
         if (isBinOp(cur)) {
             if (prev && ((prevp = prev->prev) != NULL)) {
-                if (isNumConstOp(prev) && isNumConstOp(prevp)) {
+                if (isNumConstOp(prev) && isNumConstOp(prevp) && !isJumpTarget(prev) && !isJumpTarget(cur)) {
                     COMP_TRACE("constant folding candidate found");
                     Value newVal = foldConstant(iseq, cur, prev, prevp);
                     if (IS_UNDEF(newVal)) { // such as divide by 0
@@ -765,7 +731,7 @@ static void optimizeIseq(Iseq *iseq) {
 
         // 1+1; OP_CONSTANT '2', OP_POP => nothing (unused constant expression)
         if (!compilerOpts.noRemoveUnusedExpressions) {
-            if (isPop(cur) && (prev && noSideEffectsConst(prev))) {
+            if (isPop(cur) && (prev && noSideEffectsConst(prev)) && !isJumpTarget(cur)) {
                 Insn *next = cur->next;
                 // OP_BLOCK_CONTINUE takes the popped value from previous pop, so needs it
                 if (!next || next->code != OP_BLOCK_CONTINUE) {
-- 
2.43.0


From 913966957a007176880f5c84eb28812a303f8869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:35 +0000
Subject: [PATCH 20/38] fix: continue works in for loops, nested loops and
 nested scopes, and break closes captured variables

---
 compiler.c | 58 ++++++++++++++++++++++++++++++++----------------------
 1 file changed, 34 insertions(+), 24 deletions(-)

diff --git a/compiler.c b/compiler.c
index bd8410d..620e27a 100644
--- a/compiler.c
+++ b/compiler.c
@@ -862,8 +862,29 @@ static inline Insn *emitJump(OpCode jumpOp) {
     return emitOp1(jumpOp, 0); // patched later
 }
 
+// `break` and `continue` leave the scopes of the loop body, so its locals need to be
+// popped. Returns the number of pops left to do.
+static int popLoopLocals(bool always) {
+    bool captured = false;
+    for (int i = loopLocalCount; i < current->localCount; i++) {
+        captured = captured || current->locals[i].isUpvalue;
+    }
+    if (!captured && !always) {
+        return current->localCount - loopLocalCount;
+    }
+    for (int i = current->localCount-1; i >= loopLocalCount; i--) {
+        if (current->locals[i].isUpvalue) {
+            emitCloseUpvalue();
+        } else {
+            popLocal(&current->locals[i]);
+        }
+    }
+    return 0;
+}
+
 static inline Insn *emitBreak(void) {
-    Insn *br = emitOp2(OP_BREAK, 0, current->localCount - loopLocalCount); // patched later
+    int numPops = popLoopLocals(false);
+    Insn *br = emitOp2(OP_BREAK, 0, numPops); // patched later
     return br;
 }
 
@@ -912,28 +933,15 @@ static inline bool isContinue(Insn *in) {
             (in->flags & INSN_FL_CONTINUE) != 0);
 }
 
-static Insn *getInsnTail(int tail_index) {
-    Insn *cur = currentIseq()->tail;
-    int idx = tail_index;
-    while (cur && idx > 0) {
-        cur = cur->prev;
-        idx--;
-    }
-    return cur;
-}
-
+// the continues found after `a` jump to the end of the loop body, after `b`
 static void patchContinuesBetween(Insn *a, Insn *b) {
   Insn *cur = a;
-  while (cur != b) {
-    if (isContinue(cur)) {
-      int insn_tail_index = cur->extra; // number of pops to keep
-      Insn *jumpTo = getInsnTail(insn_tail_index);
-      if (insn_tail_index > 0) {
-          ASSERT(isPopType2(jumpTo));
-      }
-      patchJump(cur, -1, jumpTo);
-      COMP_TRACE("jump offset found, patching continue (pops=%d)", insn_tail_index);
+  while (cur) {
+    if (isContinue(cur) && cur->operands[0] == 0) {
+      patchJump(cur, -1, b);
+      COMP_TRACE("jump offset found, patching continue");
     }
+    if (cur == b) break;
     cur = cur->next;
   }
 }
@@ -2046,6 +2054,7 @@ static void emitNode(Node *n) {
         loopLocalCount = oldLoopLocalCount;
 
         curLoopType = lastLoopType;
+        patchContinuesBetween(forJump, currentIseq()->tail);
         Node *incrExpr = n->children->data[2];
         if (incrExpr) {
             emitNode(incrExpr);
@@ -2147,13 +2156,14 @@ static void emitNode(Node *n) {
                 emitOp0(OP_POP);
             }
             emitOp0(OP_BLOCK_CONTINUE);
-        } else if (curLoopType == LOOP_T_FOREACH) {
+        } else if (curLoopType == LOOP_T_FOREACH || curLoopType == LOOP_T_FOR) {
+            popLoopLocals(true);
             Insn *in = emitJump(OP_JUMP);
             in->flags = INSN_FL_CONTINUE;
-            in->extra = current->localCount-loopLocalCount;
         } else {
-            ASSERT(curLoopType == LOOP_T_WHILE || curLoopType == LOOP_T_FOR);
-            emitLoop(loopStart); // WHILE or FOR
+            ASSERT(curLoopType == LOOP_T_WHILE);
+            popLoopLocals(true);
+            emitLoop(loopStart);
         }
         break;
     }
-- 
2.43.0


From 156a41e4ea08a5ecdbb5509f20ae0ec77b597b33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:23 +0000
Subject: [PATCH 21/38] fix: a loop whose body is optimized away jumps to
 itself instead of failing an assertion

---
 compiler.c | 7 ++++---
 vm.c       | 3 +--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/compiler.c b/compiler.c
index 620e27a..e52b2b8 100644
--- a/compiler.c
+++ b/compiler.c
@@ -485,7 +485,8 @@ static void patchJumpInsnWithOffset(Insn *jump, int offset) {
     if (jump->operands[0]+offset > BYTECODE_MAX) {
         ASSERT(0); // TODO: error out
     }
-    if (jump->operands[0]+offset <= 0) {
+    // a loop without a body jumps to itself
+    if (!isLoop(jump) && jump->operands[0]+offset <= 0) {
         ASSERT(0); // TODO: error out
     }
     jump->operands[0] += offset;
@@ -518,7 +519,7 @@ static void patchOffsetsAfter(Iseq *seq, Insn *insn, int delta) {
     ASSERT(in);
     int offset = 0;
     for (in = seq->insns; in; in = in->next) {
-        if (in != insn && isAnyJump(in) && in->operands[0] != 0) {
+        if (in != insn && isAnyJump(in) && (isLoop(in) || in->operands[0] != 0)) {
             int target = jumpTargetOffset(in, offset);
             int diff = (target > insnStart ? delta : 0) - (offset > insnStart ? delta : 0);
             if (isLoop(in)) diff = -diff;
@@ -541,7 +542,7 @@ static void patchOffsetsAfter(Iseq *seq, Insn *insn, int delta) {
 static void markJumpTargets(Iseq *seq) {
     int offset = 0;
     for (Insn *in = seq->insns; in; in = in->next) {
-        if (isAnyJump(in) && in->operands[0] != 0) {
+        if (isAnyJump(in) && (isLoop(in) || in->operands[0] != 0)) {
             Insn *target = insnAtOffset(seq, jumpTargetOffset(in, offset));
             if (target) target->isLabel = true;
         }
diff --git a/vm.c b/vm.c
index c216708..5930657 100644
--- a/vm.c
+++ b/vm.c
@@ -2920,8 +2920,7 @@ vmLoop:
           DISPATCH_BOTTOM();
       }
       CASE_OP(LOOP): {
-          bytecode_t ipOffset = READ_WORD();
-          ASSERT(ipOffset > 0);
+          bytecode_t ipOffset = READ_WORD(); // 0 for a loop without a body
           // add 1 for the instruction we just read, and 1 to go 1 before the
           // instruction we want to execute next.
           frame->ip -= (ipOffset+2);
-- 
2.43.0


From 31edf2cfdade1848d05587c670ad515da4e8372a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:53 +0000
Subject: [PATCH 22/38] fix: a closure assigning a captured local updates the
 variable of the enclosing function

---
 vm.c | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/vm.c b/vm.c
index 5930657..4b70f10 100644
--- a/vm.c
+++ b/vm.c
@@ -2300,6 +2300,30 @@ static void closeUpvalues(Value *last) {
     }
 }
 
+// Assign a captured variable. While it's still open it lives in the stack slot
+// of the frame that declared it, and that frame reads its locals from its
+// scope's localsTable (see OP_GET_LOCAL), so both must get the new value.
+static void setUpvalue(ObjUpvalue *upvalue, Value val) {
+    Value *local = upvalue->value;
+    *local = val;
+    if (local == &upvalue->closed) return;
+    LxThread *th = vm.curThread;
+    VMExecContext *ectx = NULL; int eidx = 0;
+    vec_foreach_rev(&th->v_ecs, ectx, eidx) {
+        if (local < ectx->stack || local >= ectx->stack + ectx->stack_capa) continue;
+        for (int i = (int)ectx->frameCount - 1; i >= 0; i--) {
+            CallFrame *frame = &ectx->frames[i];
+            if (frame->isCCall || frame->scope == NULL || frame->slots > local) continue;
+            // the frame that declared the variable
+            int slot = (int)(local - frame->slots);
+            if (slot < frame->scope->localsTable.size) {
+                frame->scope->localsTable.tbl[slot] = val;
+            }
+            return;
+        }
+    }
+}
+
 static Value unpackValue(Value val, bytecode_t idx) {
     if (IS_AN_ARRAY(val)) {
         if ((int)idx < ARRAY_SIZE(val)) {
@@ -2782,7 +2806,7 @@ vmLoop:
           bytecode_t slot = READ_WORD();
           bytecode_t varName = READ_WORD(); // for debugging
           (void)varName;
-          *frame->closure->upvalues[slot]->value = peek(0);
+          setUpvalue(frame->closure->upvalues[slot], peek(0));
           DISPATCH_BOTTOM();
       }
       CASE_OP(CLOSE_UPVALUE): {
-- 
2.43.0


From 3e470731281d6d438d12d9068b295a437c16e4aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:44 +0000
Subject: [PATCH 23/38] fix: deep recursion: the operand stack and call frames
 don't move or overflow before their limit

---
 vm.c | 10 +++-------
 vm.h |  8 +++++---
 2 files changed, 8 insertions(+), 10 deletions(-)

diff --git a/vm.c b/vm.c
index 4b70f10..c4c9084 100644
--- a/vm.c
+++ b/vm.c
@@ -670,17 +670,13 @@ static inline bool isOpStackEmpty(void) {
 void push(Value value) {
     ASSERT_VALID_STACK();
     register VMExecContext *ctx = EC;
-    if (UNLIKELY(ctx->stackTop >= ctx->stack + STACK_MAX)) {
+    if (UNLIKELY(ctx->stackTop >= ctx->stack + ctx->stack_capa)) {
         errorPrintScriptBacktrace("Stack overflow.");
         int status = 1;
         vm.curThread->status = THREAD_ZOMBIE;
         vm.numLivingThreads--;
         pthread_exit(&status);
     }
-    if (UNLIKELY(ctx->stackTop >= ctx->stack + ctx->stack_capa)) {
-        ctx->stack = GROW_ARRAY(ctx->stack, Value, ctx->stack_capa, ctx->stack_capa*2);
-        ctx->stack_capa *= 2;
-    }
     if (IS_OBJ(value)) {
         DBG_ASSERT(AS_OBJ(value)->type != OBJ_T_NONE);
         OBJ_SET_PUSHED_VM_STACK(AS_OBJ(value)); // for gen gc
@@ -691,7 +687,7 @@ void push(Value value) {
 
 static inline void vm_push(register LxThread *th, register VMExecContext *ctx, Value value) {
     ASSERT_VALID_STACK();
-    if (UNLIKELY(ctx->stackTop >= ctx->stack + STACK_MAX)) {
+    if (UNLIKELY(ctx->stackTop >= ctx->stack + ctx->stack_capa)) {
         errorPrintScriptBacktrace("Stack overflow.");
         int status = 1;
         th->status = THREAD_ZOMBIE;
@@ -3670,7 +3666,7 @@ static Value doVMEval(char *src, char *filename, int lineno, ObjInstance *instan
     VMExecContext *ectx = EC;
     ectx->evalContext = true;
     ectx->stack = oldFrame->slots;
-    ectx->stack_capa = old_ectx->stack_capa;
+    ectx->stack_capa = old_ectx->stack_capa - (oldFrame->slots - old_ectx->stack);
     ectx->stackTop = old_ectx->stackTop;
     VM_DEBUG(1, "VM eval called in func '%s', ip: %d", callFrameName(prevFrame),
         prevFrame->ip - prevFrame->closure->function->chunk->code);
diff --git a/vm.h b/vm.h
index f15822f..40c1765 100644
--- a/vm.h
+++ b/vm.h
@@ -16,10 +16,12 @@
 extern "C" {
 #endif
 
-#define STACK_INITIAL 256
-#define STACK_MAX 1024
-#define FRAMES_INITIAL 64
+// NOTE: vm_run() holds pointers into the stack and into the call frames, as do
+// open upvalues and jump buffers, so neither can move once it's allocated.
+#define STACK_MAX (FRAMES_MAX*16)
+#define STACK_INITIAL STACK_MAX
 #define FRAMES_MAX 1024
+#define FRAMES_INITIAL FRAMES_MAX
 
 #ifndef NDEBUG
 #define THREAD_DEBUG(lvl, ...) thread_debug(lvl, __VA_ARGS__)
-- 
2.43.0


From 00ebeaa37d2c82d36e27a675f9743978293a0f7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:27 +0000
Subject: [PATCH 24/38] fix: the optimizer does not take the captured variables
 of a closure for instructions

---
 chunk.h    | 4 ++++
 compiler.c | 8 ++++----
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/chunk.h b/chunk.h
index 6b4b09a..9621c85 100644
--- a/chunk.h
+++ b/chunk.h
@@ -56,6 +56,10 @@ typedef struct NodeLvl {
 
 #define MAX_INSN_SIZE 4
 #define MAX_INSN_OPERANDS (MAX_INSN_SIZE-1)
+// Set in the code of an Insn that isn't an operation but describes an upvalue of
+// the OP_CLOSURE before it, so that it isn't taken for one by the optimizer. It's
+// left out of the chunk.
+#define INSN_UPVALUE_INFO 0x40000000
 #define INSN_FL_NUMBER 1
 #define INSN_FL_BREAK 2
 #define INSN_FL_CONTINUE 4
diff --git a/compiler.c b/compiler.c
index e52b2b8..14ebf04 100644
--- a/compiler.c
+++ b/compiler.c
@@ -159,7 +159,7 @@ static inline Iseq *currentIseq() {
 }
 
 static Insn *emitInsn(Insn in) {
-    COMP_TRACE("emitInsn: %s", opName(in.code));
+    COMP_TRACE("emitInsn: %s", opName(in.code & ~INSN_UPVALUE_INFO));
     in.lineno = curTok ? curTok->line : 0;
     in.nlvl.depth = nodeDepth;
     in.nlvl.width = nodeWidth;
@@ -766,7 +766,7 @@ static void copyIseqToChunk(Iseq *iseq, Chunk *chunk) {
     int idx = 0;
     while (in) {
         idx++;
-        writeChunkWord(chunk, in->code, in->lineno, in->nlvl.depth, in->nlvl.width);
+        writeChunkWord(chunk, in->code & ~INSN_UPVALUE_INFO, in->lineno, in->nlvl.depth, in->nlvl.width);
         for (int i = 0; i < in->numOperands; i++) {
             writeChunkWord(chunk, in->operands[i], in->lineno, in->nlvl.depth, in->nlvl.width);
         }
@@ -1653,8 +1653,8 @@ static ObjFunction *emitFunction(Node *n, FunctionType ftype) {
     ASSERT_MEM(func->upvaluesInfo);
     for (int i = 0; i < func->upvalueCount; i++) {
         if (ftype != FUN_TYPE_BLOCK) {
-            emitOp0(fCompiler.upvalues[i].isLocal ? 1 : 0);
-            emitOp0(fCompiler.upvalues[i].index);
+            bytecode_t isLocal = fCompiler.upvalues[i].isLocal ? 1 : 0;
+            emitOp1(isLocal | INSN_UPVALUE_INFO, fCompiler.upvalues[i].index);
         }
         func->upvaluesInfo[i] = fCompiler.upvalues[i]; // copy upvalue info
     }
-- 
2.43.0


From ae767f9ea6e315dee6b4da35e39680b80e9d1cb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:32 +0000
Subject: [PATCH 25/38] fix: closures capture the foreach variables of their
 iteration, and break leaves the stack balanced

---
 compiler.c | 40 +++++++++++++++++++++++++++-------------
 1 file changed, 27 insertions(+), 13 deletions(-)

diff --git a/compiler.c b/compiler.c
index 14ebf04..9c52ae2 100644
--- a/compiler.c
+++ b/compiler.c
@@ -63,6 +63,7 @@ static int blockDepth = 0;
 static bool breakBlock = false;
 static Scope *curScope = NULL;
 static int loopLocalCount = 0; // for continue statement
+static int loopBreakLocalCount = 0; // for break statement: foreach variables are left too
 static int nextInsnIsLabel = false;
 
 CompilerOpts compilerOpts; // [external]
@@ -865,15 +866,15 @@ static inline Insn *emitJump(OpCode jumpOp) {
 
 // `break` and `continue` leave the scopes of the loop body, so its locals need to be
 // popped. Returns the number of pops left to do.
-static int popLoopLocals(bool always) {
+static int popLoopLocals(int localCount, bool always) {
     bool captured = false;
-    for (int i = loopLocalCount; i < current->localCount; i++) {
+    for (int i = localCount; i < current->localCount; i++) {
         captured = captured || current->locals[i].isUpvalue;
     }
     if (!captured && !always) {
-        return current->localCount - loopLocalCount;
+        return current->localCount - localCount;
     }
-    for (int i = current->localCount-1; i >= loopLocalCount; i--) {
+    for (int i = current->localCount-1; i >= localCount; i--) {
         if (current->locals[i].isUpvalue) {
             emitCloseUpvalue();
         } else {
@@ -884,7 +885,7 @@ static int popLoopLocals(bool always) {
 }
 
 static inline Insn *emitBreak(void) {
-    int numPops = popLoopLocals(false);
+    int numPops = popLoopLocals(loopBreakLocalCount, false);
     Insn *br = emitOp2(OP_BREAK, 0, numPops); // patched later
     return br;
 }
@@ -2013,9 +2014,12 @@ static void emitNode(Node *n) {
         pushScope(COMPILE_SCOPE_WHILE);
 
         int oldLoopLocalCount = loopLocalCount;
+        int oldLoopBreakLocalCount = loopBreakLocalCount;
         loopLocalCount = current->localCount;
+        loopBreakLocalCount = loopLocalCount;
         emitNode(n->children->data[1]); // while block
         loopLocalCount = oldLoopLocalCount;
+        loopBreakLocalCount = oldLoopBreakLocalCount;
 
         curLoopType = oldLoopType;
         loopLabel->jumpTo = whileJumpStart;
@@ -2050,9 +2054,12 @@ static void emitNode(Node *n) {
 
         curLoopType = LOOP_T_FOR;
         int oldLoopLocalCount = loopLocalCount;
+        int oldLoopBreakLocalCount = loopBreakLocalCount;
         loopLocalCount = current->localCount;
+        loopBreakLocalCount = loopLocalCount;
         emitNode(forBlock);
         loopLocalCount = oldLoopLocalCount;
+        loopBreakLocalCount = oldLoopBreakLocalCount;
 
         curLoopType = lastLoopType;
         patchContinuesBetween(forJump, currentIseq()->tail);
@@ -2075,6 +2082,7 @@ static void emitNode(Node *n) {
         vec_init(&v_slots);
         int numVars = n->children->length - 2;
         pushVarSlots(); // don't overwrite the iterator with the variables
+        int iterLocalCount = current->localCount;
         if (numVars > 1) {
             pushVarSlots(); // the iterator value
         }
@@ -2109,27 +2117,32 @@ static void emitNode(Node *n) {
         curLoopType = LOOP_T_FOREACH;
 
         int oldLoopLocalCount = loopLocalCount;
+        int oldLoopBreakLocalCount = loopBreakLocalCount;
         loopLocalCount = current->localCount;
+        loopBreakLocalCount = iterLocalCount;
         emitNode(n->children->data[i]); // foreach block
         loopLocalCount = oldLoopLocalCount;
+        loopBreakLocalCount = oldLoopBreakLocalCount;
 
         curLoopType = lastLoopType;
         Insn *afterForeach = currentIseq()->tail;
         patchContinuesBetween(beforeForeach, afterForeach);
-        if (numVars == 1) {
-            emitOp0(OP_POP); // pop the iterator value
+        // pop the iterator values, every iteration has its own variables
+        for (int j = numVars-1; j >= 0; j--) {
+            if (current->locals[v_slots.data[j]].isUpvalue) {
+                emitCloseUpvalue();
+            } else {
+                emitOp0(OP_POP);
+            }
         }
         if (numVars > 1) {
-            for (int j = 0; j < numVars; j++) {
-                emitOp0(OP_POP); // pop the iterator values
-            }
             emitOp0(OP_POP); // pop the iterator value array, for unpack
         }
         emitLoop(beforeIterNext);
         popScope(COMPILE_SCOPE_FOREACH);
         patchJump(iterDone, -1, NULL);
         emitOp0(OP_POP); // pop the iterator value
-        patchBreaks(beforeForeach, currentIseq()->tail, 0);
+        patchBreaks(beforeForeach, currentIseq()->tail, 1);
         emitOp0(OP_POP); // pop the iterator
         vec_deinit(&v_slots);
         break;
@@ -2158,12 +2171,12 @@ static void emitNode(Node *n) {
             }
             emitOp0(OP_BLOCK_CONTINUE);
         } else if (curLoopType == LOOP_T_FOREACH || curLoopType == LOOP_T_FOR) {
-            popLoopLocals(true);
+            popLoopLocals(loopLocalCount, true);
             Insn *in = emitJump(OP_JUMP);
             in->flags = INSN_FL_CONTINUE;
         } else {
             ASSERT(curLoopType == LOOP_T_WHILE);
-            popLoopLocals(true);
+            popLoopLocals(loopLocalCount, true);
             emitLoop(loopStart);
         }
         break;
@@ -2553,6 +2566,7 @@ static void initializeCompiler(void) {
     breakBlock = false;
     curScope = NULL;
     loopLocalCount = 0;
+    loopBreakLocalCount = 0;
     nextInsnIsLabel = false;
 }
 
-- 
2.43.0


From 73e93e75632f89df921055fae75aa6f2fcfe3228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:42 +0000
Subject: [PATCH 26/38] fix: errors unwind to the innermost try statement
 around them and restore its stack; ensure blocks run exactly once

---
 chunk.c    |  6 +++--
 chunk.h    |  3 ++-
 compiler.c | 42 +++++++++++++++++++++++++++--
 vm.c       | 78 ++++++++++++++++++++++++++++--------------------------
 4 files changed, 86 insertions(+), 43 deletions(-)

diff --git a/chunk.c b/chunk.c
index a342295..85dd39d 100644
--- a/chunk.c
+++ b/chunk.c
@@ -215,7 +215,8 @@ int iseqAddCatchRow(
     tblRow->itarget = itarget;
     tblRow->catchVal = catchVal;
     tblRow->isEnsure = false;
-    tblRow->isEnsureRunning = false;
+    tblRow->stackSize = -1;
+    tblRow->errSlot = -1;
     memset(&tblRow->lastThrownValue, 0, sizeof(Value));
     tblRow->next = NULL;
 
@@ -246,7 +247,8 @@ int iseqAddEnsureRow(
     tblRow->itarget = itarget;
     tblRow->catchVal = NIL_VAL;
     tblRow->isEnsure = true;
-    tblRow->isEnsureRunning = false;
+    tblRow->stackSize = -1;
+    tblRow->errSlot = -1;
     memset(&tblRow->lastThrownValue, 0, sizeof(Value));
     tblRow->next = NULL;
 
diff --git a/chunk.h b/chunk.h
index 9621c85..b14b095 100644
--- a/chunk.h
+++ b/chunk.h
@@ -25,7 +25,8 @@ typedef struct CatchTable {
 
     struct CatchTable *next; // next row in the catch table
     bool isEnsure; // is an ensure block
-    bool isEnsureRunning;
+    int stackSize; // number of locals at the start of the try block, or -1 if the stack can't be restored
+    int errSlot; // local that holds the error an ensure block was entered with, or -1 if it's on top of the stack
 } CatchTable;
 
 /**
diff --git a/compiler.c b/compiler.c
index 9c52ae2..9a182b3 100644
--- a/compiler.c
+++ b/compiler.c
@@ -63,6 +63,9 @@ static int blockDepth = 0;
 static bool breakBlock = false;
 static Scope *curScope = NULL;
 static int loopLocalCount = 0; // for continue statement
+// number of class, module and `in` bodies in the current function: they keep a value
+// on the stack that isn't a local
+static int numBodies = 0;
 static int loopBreakLocalCount = 0; // for break statement: foreach variables are left too
 static int nextInsnIsLabel = false;
 
@@ -961,6 +964,14 @@ static void emitLoop(int loopStart) {
   loopInsn->jumpTo->isLabel = true;
 }
 
+static CatchTable *catchRowAt(Iseq *seq, int idx) {
+    CatchTable *row = seq->catchTbl;
+    while (idx-- > 0) {
+        row = row->next;
+    }
+    return row;
+}
+
 static inline bool isBreak(Insn *in) {
     return (in->code == OP_BREAK);
 }
@@ -1414,7 +1425,9 @@ static void emitClass(Node *n) {
     }
 
     addFakeLocal(false); // fake local corresponds to `this` (slot 0)
+    numBodies++;
     emitChildren(n); // block node with methods and other declarations
+    numBodies--;
 
     popScope(COMPILE_SCOPE_CLASS);
 
@@ -1435,7 +1448,9 @@ static void emitModule(Node *n) {
 
     emitOp1(OP_MODULE, nameConstant);
     pushScope(COMPILE_SCOPE_MODULE);
+    numBodies++;
     emitChildren(n);
+    numBodies--;
     popScope(COMPILE_SCOPE_MODULE);
 
     // define the local or global variable for the class itself
@@ -1455,7 +1470,9 @@ static void emitIn(Node *n) {
     emitOp0(OP_IN); // sets vm.self properly
     inINBlock = true;
     pushScope(COMPILE_SCOPE_IN);
+    numBodies++;
     emitNode(n->children->data[1]); // block
+    numBodies--;
     popScope(COMPILE_SCOPE_IN);
     emitOp0(OP_POP);
     inINBlock = oldIn;
@@ -1547,6 +1564,8 @@ static CallInfo *emitCall(Node *n) {
 static ObjFunction *emitFunction(Node *n, FunctionType ftype) {
     Compiler fCompiler;
     int scopeDepth = current->scopeDepth;
+    int oldNumBodies = numBodies;
+    numBodies = 0;
     initCompiler(&fCompiler, scopeDepth, ftype, &n->tok, NULL);
     CompileScopeType stype = COMPILE_SCOPE_FUNCTION;
 
@@ -1641,6 +1660,7 @@ static ObjFunction *emitFunction(Node *n, FunctionType ftype) {
     }
     popScope(stype);
     func = endCompiler();
+    numBodies = oldNumBodies;
     ASSERT(func->chunk);
 
     // save the chunk as a constant in the parent (now current) chunk
@@ -2422,6 +2442,8 @@ static void emitNode(Node *n) {
         vec_void_t vjumps;
         vec_init(&vjumps);
         int ifrom = iseq->wordCount; // start of try block
+        bool knownStack = numBodies == 0 && current->type != FUN_TYPE_EVAL;
+        int stackSize = knownStack ? current->localCount : -1;
         emitNode(n->children->data[0]); // try block
         bool skipJumpToEnd = false;
         if (n->children->length == 2) {
@@ -2469,6 +2491,7 @@ static void emitNode(Node *n) {
                             iseq, ifrom, ito,
                             itarget, OBJ_VAL(className)
                             );
+                    catchRowAt(iseq, (int)catchTblRowIdx)->stackSize = stackSize;
                     pushScope(COMPILE_SCOPE_TRY);
                     // given variable expression to bind to (Ex: (catch Error err))
                     if (catchStmt->children->length > 2) {
@@ -2512,9 +2535,23 @@ static void emitNode(Node *n) {
                             patchJump(jump, -1, currentIseq()->tail);
                         }
                         vec_clear(&vjumps);
-                        double catchTblRowIdx = iseqAddEnsureRow(iseq, ifrom, ito, itarget);
-                        bytecode_t rethrowIfArg = makeConstant(NUMBER_VAL(catchTblRowIdx), CONST_T_NUMLIT);
+                        // The error to rethrow at the end of the block is kept in a local. There's
+                        // none if the block is entered from above, otherwise the VM sets it.
                         pushScope(COMPILE_SCOPE_TRY);
+                        ito = iseq->wordCount; // errors thrown in a catch block too
+                        emitNil();
+                        int errSlot = addFakeLocal(true);
+                        if (knownStack) {
+                            Token errTok = syntheticToken("_");
+                            emitOp2(OP_SET_LOCAL, (bytecode_t)errSlot, identifierConstant(&errTok));
+                        } else {
+                            errSlot = -1; // it stays on top of the stack
+                        }
+                        itarget = iseq->wordCount;
+                        int catchTblRowIdx = iseqAddEnsureRow(iseq, ifrom, ito, itarget);
+                        catchRowAt(iseq, catchTblRowIdx)->stackSize = stackSize;
+                        catchRowAt(iseq, catchTblRowIdx)->errSlot = errSlot;
+                        bytecode_t rethrowIfArg = makeConstant(NUMBER_VAL(errSlot), CONST_T_NUMLIT);
                         emitNode(vec_last(ensureStmt->children)); // ensure block
                         emitOp1(OP_RETHROW_IF_ERR, rethrowIfArg);
                         popScope(COMPILE_SCOPE_TRY);
@@ -2567,6 +2604,7 @@ static void initializeCompiler(void) {
     curScope = NULL;
     loopLocalCount = 0;
     loopBreakLocalCount = 0;
+    numBodies = 0;
     nextInsnIsLabel = false;
 }
 
diff --git a/vm.c b/vm.c
index c4c9084..c29efd1 100644
--- a/vm.c
+++ b/vm.c
@@ -2000,37 +2000,19 @@ static bool findThrowJumpLoc(ObjClass *klass, bytecode_t **ipOut, CatchTable **r
     CatchTable *tbl = currentChunk()->catchTbl;
     CatchTable *row = tbl;
     int currentIpOff = (int)(getFrame()->ip - currentChunk()->code);
-    bool poppedEC = false;
     VM_DEBUG(2, "findthrowjumploc");
-    CatchTable *ensureRow = NULL;
     while (row || EC->frameCount >= 1) {
         VM_DEBUG(2, "framecount: %d, num ECs: %d", EC->frameCount, th->v_ecs.length);
         if (row == NULL) { // no more catch table rows, pop a call frame
             VM_DEBUG(2, "row null");
-            if (ensureRow) {
-                if (ensureRow->isEnsureRunning) {
-                    ensureRow->isEnsureRunning = false;
-                } else {
-                  // found target ensure
-                  *ipOut = currentChunk()->code + ensureRow->itarget;
-                  *rowFound = ensureRow;
-                  while (getFrame()->isCCall) {
-                    popFrame();
-                  }
-                  ensureRow->isEnsureRunning = true;
-                  VM_DEBUG(2, "Catch jump location found (ensure)");
-                  return true;
-                }
-            }
             if (th->v_ecs.length == 0 || (th->v_ecs.length == 1 && EC->frameCount == 1)) {
                 return false;
             }
             if (EC->frameCount == 1) { // there's at least 1 more context to go through
                 pop_EC();
-                poppedEC = true;
+                currentIpOff = (int)(getFrame()->ip - currentChunk()->code);
                 ASSERT(EC->stackTop > getFrame()->slots);
                 row = currentChunk()->catchTbl;
-                ensureRow = NULL;
                 continue;
             } else { // more frames in this context to go through
                 ASSERT(EC->frameCount > 1);
@@ -2040,16 +2022,24 @@ static bool findThrowJumpLoc(ObjClass *klass, bytecode_t **ipOut, CatchTable **r
                 popFrame();
                 VM_DEBUG(2, "frame popped");
                 row = currentChunk()->catchTbl;
-                ensureRow = NULL;
                 continue;
             }
         }
-        // jump to location in catch row, if catch found
-        if (row->isEnsure) {
-            ensureRow = row;
+        // rows of inner try statements come first
+        if (currentIpOff <= row->ifrom || currentIpOff > row->ito) {
             row = row->next;
             continue;
         }
+        // jump to location in row, if catch or ensure found
+        if (row->isEnsure) {
+            *ipOut = currentChunk()->code + row->itarget;
+            *rowFound = row;
+            while (getFrame()->isCCall) {
+                popFrame();
+            }
+            VM_DEBUG(2, "Catch jump location found (ensure)");
+            return true;
+        }
         Value klassFound;
         ObjClass *cref = NULL;
         if (vm.curThread->v_crefStack.length > 0) {
@@ -2063,16 +2053,14 @@ static bool findThrowJumpLoc(ObjClass *klass, bytecode_t **ipOut, CatchTable **r
         VM_DEBUG(2, "a class found for row: %s", classNameFull(AS_CLASS(klassFound))->chars);
         if (IS_SUBCLASS(klass, AS_CLASS(klassFound))) {
             VM_DEBUG(2, "good class found for row");
-            if (poppedEC || (currentIpOff > row->ifrom && currentIpOff <= row->ito)) {
-                // found target catch
-                *ipOut = currentChunk()->code + row->itarget;
-                *rowFound = row;
-                while (getFrame()->isCCall) {
-                    popFrame();
-                }
-                VM_DEBUG(2, "Catch jump location found");
-                return true;
+            // found target catch
+            *ipOut = currentChunk()->code + row->itarget;
+            *rowFound = row;
+            while (getFrame()->isCCall) {
+                popFrame();
             }
+            VM_DEBUG(2, "Catch jump location found");
+            return true;
         }
         row = row->next;
     }
@@ -2138,6 +2126,20 @@ NORETURN void throwError(Value self) {
         ASSERT(catchRow);
         catchRow->lastThrownValue = self;
         getFrame()->ip = ipNew;
+        // drop what was on the stack above the locals that surround the try statement
+        if (catchRow->stackSize >= 0) {
+            Value *newTop = getFrame()->slots + catchRow->stackSize;
+            if (EC->stackTop > newTop) {
+                closeUpvalues(newTop);
+                EC->stackTop = newTop;
+            }
+        }
+        if (catchRow->isEnsure) {
+            push(self); // see OP_RETHROW_IF_ERR
+            if (catchRow->errSlot >= 0) {
+                getFrame()->slots[catchRow->errSlot] = self;
+            }
+        }
         DBG_ASSERT(getFrame()->closure->function->chunk->catchTbl);
         DBG_ASSERT(getFrame()->jmpBufSet);
         longjmp(getFrame()->jmpBuf, JUMP_PERFORMED);
@@ -3452,12 +3454,12 @@ find_instance_method:
           DISPATCH_BOTTOM();
       }
       CASE_OP(RETHROW_IF_ERR): {
-          Value catchTblIdx = READ_CONSTANT();
-          ASSERT(IS_NUMBER(catchTblIdx));
-          double idx = AS_NUMBER(catchTblIdx);
-          CatchTable *ensureRow = getCatchTableRow((int)idx);
-          if (ensureRow->isEnsureRunning && !IS_NIL(th->lastErrorThrown)) {
-              throwError(th->lastErrorThrown);
+          Value errSlot = READ_CONSTANT();
+          ASSERT(IS_NUMBER(errSlot));
+          int slot = (int)AS_NUMBER(errSlot);
+          Value err = slot >= 0 ? frame->slots[slot] : VM_PEEK(0);
+          if (!IS_NIL(err)) {
+              throwError(err);
           }
           DISPATCH_BOTTOM();
       }
-- 
2.43.0


From 296a2b33a616aac2b9d6dfcc6b4d8165fb9adbca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:50 +0000
Subject: [PATCH 27/38] fix: super finds the next method when several modules
 are included, and from objects with a singleton class

---
 vm.c | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/vm.c b/vm.c
index c29efd1..a31305a 100644
--- a/vm.c
+++ b/vm.c
@@ -1046,7 +1046,8 @@ static inline bool isThrowable(Value val) {
 
 bool lookupMethod(ObjInstance *obj, Obj *klass, ObjString *propName, MethodType mtype, Value *ret, bool lookInGivenClass) {
     Obj *givenClass = klass;
-    if (klass == TO_OBJ(obj->klass) && obj->singletonKlass) {
+    // the singleton class comes before the class, it's not looked at for `super`
+    if (lookInGivenClass && klass == TO_OBJ(obj->klass) && obj->singletonKlass) {
         klass = TO_OBJ(obj->singletonKlass);
     }
     Value key = OBJ_VAL(propName);
@@ -3149,17 +3150,19 @@ find_instance_method:
           if (TO_OBJ(klass)->type == OBJ_T_MODULE) {
               ObjModule *mod = (ObjModule*)klass;
               klass = AS_INSTANCE(instanceVal)->klass;
+              if (AS_INSTANCE(instanceVal)->singletonKlass) {
+                  klass = AS_INSTANCE(instanceVal)->singletonKlass;
+              }
               Obj *iclass = TO_OBJ(klass);
-              while (iclass != TO_OBJ(mod)) {
-                  iclass = CLASSINFO(iclass)->superclass;
-                  if (iclass->type == OBJ_T_CLASS) {
-                      // do nothing
-                  } else if (iclass->type == OBJ_T_ICLASS) {
+              // find the place the module was included at
+              while (iclass != NULL) {
+                  if (iclass->type == OBJ_T_ICLASS && ((ObjIClass*)iclass)->mod == mod) {
                       iclassFound = (ObjIClass*)iclass;
-                      iclass = TO_OBJ(((ObjIClass*)iclass)->mod);
+                      break;
                   }
+                  iclass = CLASS_SUPER(iclass);
               }
-              ASSERT(iclass == TO_OBJ(mod));
+              ASSERT(iclassFound);
               klass = (ObjClass*)iclassFound;
           }
           bool found;
-- 
2.43.0


From b27e490b13ae0ae6de29431dfff5b2caad73bd62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:50 +0000
Subject: [PATCH 28/38] fix: superClass does not skip the class after an
 included module

---
 runtime.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runtime.c b/runtime.c
index b1ff811..0a7afdd 100644
--- a/runtime.c
+++ b/runtime.c
@@ -1058,7 +1058,7 @@ Value lxClassGetSuperclass(int argCount, Value *args) {
         if (superClass->type == OBJ_T_CLASS) { // found
             break;
         } else { // iclass (module)
-            klass = CLASS_SUPER(superClass);
+            klass = superClass;
         }
     }
     if (superClass) {
-- 
2.43.0


From 6a4f4b40e206563c582327cbb5cf02fdc54779b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:50 +0000
Subject: [PATCH 29/38] fix: getters of modules that extend an object are found

---
 object.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/object.c b/object.c
index 02dd0d2..98ddba2 100644
--- a/object.c
+++ b/object.c
@@ -600,6 +600,7 @@ Obj *instanceFindGetter(ObjInstance *obj, ObjString *name) {
     if (obj->singletonKlass) {
         klass = (Obj*)obj->singletonKlass;
     }
+    bool inSingleton = obj->singletonKlass != NULL;
     Value getter;
     Value nameVal = OBJ_VAL(name);
     while (klass) {
@@ -607,10 +608,11 @@ Obj *instanceFindGetter(ObjInstance *obj, ObjString *name) {
         if (tableGet(mtable, nameVal, &getter)) {
             return AS_OBJ(getter);
         }
-        if (klass == TO_OBJ(obj->singletonKlass)) {
+        klass = CLASS_SUPER(klass);
+        // the class comes after the singleton class and the modules included in it
+        if (inSingleton && !(klass && klass->type == OBJ_T_ICLASS && ((ObjIClass*)klass)->klass == obj->singletonKlass)) {
             klass = TO_OBJ(obj->klass);
-        } else {
-            klass = CLASS_SUPER(klass);
+            inSingleton = false;
         }
     }
     return NULL;
-- 
2.43.0


From 83d3be562dcb3bd8899fb4cd7c1d0a2401f2f075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:36 +0000
Subject: [PATCH 30/38] fix: a full GC removes the right entries when several
 joined threads have ended

---
 memory.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/memory.c b/memory.c
index 579a1db..dc422ef 100644
--- a/memory.c
+++ b/memory.c
@@ -1265,7 +1265,8 @@ void collectGarbage(void) {
     }
 
     int zombieIdx; int zidx = 0;
-    vec_foreach(&v_zombies, zombieIdx, zidx) {
+    // from the back, removing one moves the ones after it
+    vec_foreach_rev(&v_zombies, zombieIdx, zidx) {
         vec_splice(&vm.threads, zombieIdx, 1);
     }
     vec_deinit(&v_zombies);
-- 
2.43.0


From 27c633a80b51a2616c825eee2c1b50b7a2456f6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:36 +0000
Subject: [PATCH 31/38] fix: the GC marks the singleton classes of maps and
 regexes

---
 memory.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/memory.c b/memory.c
index dc422ef..6b5d68f 100644
--- a/memory.c
+++ b/memory.c
@@ -847,7 +847,7 @@ void blackenObject(Obj *obj) {
             ObjMap *map = (ObjMap*)obj;
             grayObject((Obj*)map->klass);
             if (map->singletonKlass) {
-                grayObject((Obj*)map->klass);
+                grayObject((Obj*)map->singletonKlass);
             }
             if (map->finalizerFunc) {
                 grayObject(map->finalizerFunc);
@@ -861,7 +861,7 @@ void blackenObject(Obj *obj) {
             ObjRegex *reObj = (ObjRegex*)obj;
             grayObject((Obj*)reObj->klass);
             if (reObj->singletonKlass) {
-                grayObject((Obj*)reObj->klass);
+                grayObject((Obj*)reObj->singletonKlass);
             }
             if (reObj->finalizerFunc) {
                 grayObject(reObj->finalizerFunc);
-- 
2.43.0


From 513198cd89540e64712bb3a96a87b6bd2d26503b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:37 +0000
Subject: [PATCH 32/38] fix: a young GC marks the references of the objects it
 finds while marking

---
 memory.c | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/memory.c b/memory.c
index 6b5d68f..1746868 100644
--- a/memory.c
+++ b/memory.c
@@ -438,18 +438,14 @@ void collectYoungGarbage() {
     int numCollected = 0;
     ObjAny *newFreeList = freeList;
 
-    int grayCount = vm.grayCount;
-    while (grayCount > 0) {
-        // Pop an item from the gray stack.
-        grayCount--;
-        Obj *marked = vm.grayStack[grayCount];
+    // blackenObject() adds to the end of the gray stack, they stay there until
+    // they're whitened below
+    for (int grayIdx = 0; grayIdx < vm.grayCount; grayIdx++) {
+        Obj *marked = vm.grayStack[grayIdx];
         DBG_ASSERT(marked);
-        int oldCount = vm.grayCount;
         if (IS_YOUNG_OBJ(marked)) {
             blackenObject(marked); // NOTE: only grays young references
         }
-        int newCount = vm.grayCount;
-        grayCount += (newCount-oldCount);
     }
 
     int numNotYoung = 0;
-- 
2.43.0


From 10039f81ed3d575fe5db186cbac0618d1f8d3155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:08 +0000
Subject: [PATCH 33/38] fix: closed variables are remembered for the young GC

---
 vm.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/vm.c b/vm.c
index a31305a..03a5c0a 100644
--- a/vm.c
+++ b/vm.c
@@ -2293,6 +2293,7 @@ static void closeUpvalues(Value *last) {
         // Copy the value into the upvalue itself and point the upvalue to it.
         upvalue->closed = *upvalue->value;
         upvalue->value = &upvalue->closed;
+        OBJ_WRITE(OBJ_VAL(upvalue), upvalue->closed);
 
         // Pop it off the open upvalue list.
         th->openUpvalues = upvalue->next;
@@ -2305,7 +2306,10 @@ static void closeUpvalues(Value *last) {
 static void setUpvalue(ObjUpvalue *upvalue, Value val) {
     Value *local = upvalue->value;
     *local = val;
-    if (local == &upvalue->closed) return;
+    if (local == &upvalue->closed) {
+        OBJ_WRITE(OBJ_VAL(upvalue), val);
+        return;
+    }
     LxThread *th = vm.curThread;
     VMExecContext *ectx = NULL; int eidx = 0;
     vec_foreach_rev(&th->v_ecs, ectx, eidx) {
-- 
2.43.0


From 86b766a10c43c4525d1103dc168baa029299ccda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:14 +0000
Subject: [PATCH 34/38] fix: names of methods and fields are remembered for the
 young GC

---
 object.c | 1 +
 vm.c     | 3 +++
 2 files changed, 4 insertions(+)

diff --git a/object.c b/object.c
index 98ddba2..0674a85 100644
--- a/object.c
+++ b/object.c
@@ -1096,6 +1096,7 @@ void setProp(Value self, ObjString *propName, Value val) {
     ObjInstance *inst = AS_INSTANCE(self);
     OBJ_WRITE(self, val);
     tableSet(inst->fields, OBJ_VAL(propName), val);
+    OBJ_WRITE(OBJ_VAL(inst), OBJ_VAL(propName));
 }
 
 bool instanceIsA(ObjInstance *inst, ObjClass *klass) {
diff --git a/vm.c b/vm.c
index 03a5c0a..b2c7ccf 100644
--- a/vm.c
+++ b/vm.c
@@ -1112,6 +1112,7 @@ void propertySet(ObjInstance *obj, ObjString *propName, Value rval) {
         pop();
     } else {
         tableSet(obj->fields, OBJ_VAL(propName), rval);
+        OBJ_WRITE(OBJ_VAL(obj), OBJ_VAL(propName));
         if (IS_OBJ(rval)) {
             OBJ_WRITE(OBJ_VAL(obj), rval);
         }
@@ -1153,6 +1154,7 @@ void defineMethod(Value classOrMod, ObjString *name, Value method) {
         (void)klassName;
         VM_DEBUG(2, "defining method '%s' in class '%s'", name->chars, klassName);
         tableSet(CLASSINFO(klass)->methods, OBJ_VAL(name), method);
+        OBJ_WRITE(OBJ_VAL(klass), OBJ_VAL(name));
         OBJ_WRITE(OBJ_VAL(klass), method);
         GC_OLD(AS_OBJ(method));
         Value methodName = OBJ_VAL(name);
@@ -1163,6 +1165,7 @@ void defineMethod(Value classOrMod, ObjString *name, Value method) {
         (void)modName;
         VM_DEBUG(2, "defining method '%s' in module '%s'", name->chars, modName);
         tableSet(CLASSINFO(mod)->methods, OBJ_VAL(name), method);
+        OBJ_WRITE(OBJ_VAL(mod), OBJ_VAL(name));
         OBJ_WRITE(OBJ_VAL(mod), method);
         GC_OLD(AS_OBJ(method));
     } else {
-- 
2.43.0


From 4b43571c0ad66d7e5687115f4cc72854ecbd8540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:45 +0000
Subject: [PATCH 35/38] fix: freeing a native method does not look at its
 class, it may be freed already

---
 memory.c | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/memory.c b/memory.c
index 1746868..14a953a 100644
--- a/memory.c
+++ b/memory.c
@@ -1004,11 +1004,8 @@ void freeObject(Obj *obj) {
             break;
         }
         case OBJ_T_NATIVE_FUNCTION: {
+            // NOTE: its class may already have been freed in this same GC run
             GC_TRACE_DEBUG(5, "Freeing ObjNative: p=%p", obj);
-            if (!inFinalFree) { // method override
-                ObjNative *native = (ObjNative*)obj; (void)native;
-                GC_TRACE_DEBUG(5, "Freeing ObjNative: p=%p, class=%s", obj, className((ObjClass*)native->klass));
-            }
             obj->type = OBJ_T_NONE;
             break;
         }
-- 
2.43.0


From 3b92a7e15bfc4a3611439f9a185e8040ecf65f61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:35:01 +0000
Subject: [PATCH 36/38] fix: a full GC keeps the slots that were already free,
 each collection lost them

---
 memory.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/memory.c b/memory.c
index 14a953a..c3abe38 100644
--- a/memory.c
+++ b/memory.c
@@ -1403,6 +1403,7 @@ void collectGarbage(void) {
     // Collect the white (unmarked) objects.
     int iter = 0; (void)iter;
     unsigned long numObjectsFreed = 0;
+    unsigned long numSlotsFree = 0; // already free before
     unsigned long numObjectsKept = 0;
     unsigned long numObjectsHiddenNotMarked = 0; // got saved by NoGC flag
 
@@ -1431,7 +1432,12 @@ freeLoop:
         while (p < pend) {
             Obj *obj = (Obj*)p;
             if (obj->type == OBJ_T_NONE) {
-                if (phase == 2) objectsFree++;
+                if (phase == 2) {
+                    // still free
+                    objectsFree++;
+                    obj->nextFree = newFreeList;
+                    newFreeList = p;
+                }
                 p++;
                 continue;
             }
@@ -1445,7 +1451,6 @@ freeLoop:
                         obj->nextFree = newFreeList;
                         freeObject(obj);
                         newFreeList = p;
-                        numObjectsFreed++;
                     } else {
                         GC_TRACE_DEBUG(4, "Skipped freeing stack object: p=%p", obj);
                     }
@@ -1457,6 +1462,7 @@ freeLoop:
                             callFinalizer(obj);
                             if (activeFinalizers == 0) {
                                 phase = 2; i = 0;
+                                freeList = NULL;
                                 goto freeLoop;
                             }
                         }
@@ -1478,6 +1484,7 @@ freeLoop:
 
         if (phase == 2) {
             freeList = newFreeList;
+            numSlotsFree += objectsFree;
             if (objectsFree == HEAP_SLOTS) {
                 vec_push(&vFreeHeaps, heapList[i]);
             } else if (objectsFree >= (HEAP_SLOTS/2)) {
@@ -1503,7 +1510,7 @@ freeLoop:
         /*freedHeap = true;*/
     /*}*/
 
-    if (!freedHeap && numObjectsFreed < FREE_MIN) {
+    if (!freedHeap && numObjectsFreed + numSlotsFree < FREE_MIN) {
         addHeap();
     }
 
-- 
2.43.0


From 9cfa078060cc386f3d4efa7d6770c81365337d4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:43 +0000
Subject: [PATCH 37/38] fix: the GC keeps open upvalues, the thread's list of
 them links them

---
 memory.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/memory.c b/memory.c
index c3abe38..dfb9a84 100644
--- a/memory.c
+++ b/memory.c
@@ -423,6 +423,8 @@ void collectYoungGarbage() {
             ObjUpvalue *up = th->openUpvalues;
             while (up) {
                 ASSERT(up->value);
+                // the list links it, even when no closure does anymore
+                grayObject((Obj*)up);
                 grayValue(*up->value);
                 up = up->next;
             }
@@ -1320,6 +1322,8 @@ void collectGarbage(void) {
             ObjUpvalue *up = th->openUpvalues;
             while (up) {
                 ASSERT(up->value);
+                // the list links it, even when no closure does anymore
+                grayObject((Obj*)up);
                 grayValue(*up->value);
                 up = up->next;
                 numOpenUpsFound++;
-- 
2.43.0


From db4a39d7a1ad1647a3a468ddde24c5aa1e9ffb37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:29:44 +0000
Subject: [PATCH 38/38] fix: only the whole word __LINE__ is the number of the
 line

---
 scanner.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scanner.c b/scanner.c
index c3762ae..06eb5d2 100644
--- a/scanner.c
+++ b/scanner.c
@@ -256,7 +256,7 @@ static Token identifier() {
         }
     }
 
-    if (type == TOKEN_IDENTIFIER && memcmp(current->source+current->tokenStartIdx, "__LINE__", length) == 0) {
+    if (type == TOKEN_IDENTIFIER && length == 8 && memcmp(current->source+current->tokenStartIdx, "__LINE__", length) == 0) {
         Token token = makeToken(TOKEN_NUMBER);
         char *numBuf = (char*)calloc(1, 8);
         ASSERT_MEM(numBuf);
-- 
2.43.0

