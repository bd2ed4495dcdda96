From 334d90223990cb6a8575ec7d72c1f25cc9664d37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:22 +0000
Subject: [PATCH 001/242] fix: == of a number with a value of another type
 compared only the integer part of the difference

---
 src/jsiValue.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jsiValue.c b/src/jsiValue.c
index 5efe30f..37b6121 100644
--- a/src/jsiValue.c
+++ b/src/jsiValue.c
@@ -916,7 +916,7 @@ int Jsi_ValueCmp(Jsi_Interp *interp, Jsi_Value *v1, Jsi_Value* v2, int flags)
             Jsi_Number n1, n2;
             Jsi_ValueToNumberInt(interp, v1, 0, &n1);
             Jsi_ValueToNumberInt(interp, v2, 0, &n2);
-            r = (n2 - n1);
+            r = (n2 == n1 ? 0 : (n2 < n1 ? -1 : 1));
         }
     } else {
         switch (v1->vt) {
-- 
2.43.0


From f9e356c9895c5ae3bd590fe214b320eef5b238f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:29 +0000
Subject: [PATCH 002/242] fix: a boolean made from an integer result keeps that
 integer, so (a != b) == true could be false

---
 src/jsiValue.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jsiValue.c b/src/jsiValue.c
index 37b6121..859e271 100644
--- a/src/jsiValue.c
+++ b/src/jsiValue.c
@@ -1609,7 +1609,7 @@ Jsi_Value* Jsi_ValueMakeBool(Jsi_Interp *interp, Jsi_Value **vPtr, int b) {
     else
         Jsi_ValueReset(interp, vPtr);
     v->vt = JSI_VT_BOOL;
-    v->d.val = b;
+    v->d.val = (b != 0);
     return v;
 }
 
@@ -1734,7 +1734,7 @@ Jsi_Value* Jsi_ValueNewBlob(Jsi_Interp *interp, unsigned char *s, uint len) {
 Jsi_Value* Jsi_ValueNewBoolean(Jsi_Interp *interp, int bval) {
     Jsi_Value *v = Jsi_ValueNew(interp);
     v->vt = JSI_VT_BOOL;
-    v->d.val = bval;
+    v->d.val = (bval != 0);
     return v;
 }
 
-- 
2.43.0


From f1eed9c0939cf5505b31a6f3296fb34b10671cc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:31 +0000
Subject: [PATCH 003/242] fix: compound assignment to a member failed with
 'Invalid lookup/push' when it first reached a fresh stack slot

---
 src/jsiEval.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/jsiEval.c b/src/jsiEval.c
index 3ab20bb..c7a4550 100644
--- a/src/jsiEval.c
+++ b/src/jsiEval.c
@@ -1355,6 +1355,8 @@ Jsi_RC jsiEvalCodeSub(jsi_Pstate *ps, Jsi_OpCodes *opcodes,
                 jsiVarDeref(interp,1);
                 break;
             case OP_PUSHTOP2: {
+                if (!_jsi_STACKIDX(fp->Sp+1)) // Slot not used before.
+                    _jsi_STACKIDX(fp->Sp+1) = Jsi_ValueNew1(interp);
                 Jsi_Value *vp1 = _jsi_STACKIDX(fp->Sp);
                 Jsi_Value *vp2 = _jsi_STACKIDX(fp->Sp+1);
                 if (!vp1 || !vp2 || fp->Sp<2)
-- 
2.43.0


From a323e76445b9ef2a19871a2f41bef5b60235160e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:22 +0000
Subject: [PATCH 004/242] fix: instanceof missed constructors whose prototype
 was linked with Object.setPrototypeOf

---
 src/jsiValue.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/jsiValue.c b/src/jsiValue.c
index 859e271..7ff0434 100644
--- a/src/jsiValue.c
+++ b/src/jsiValue.c
@@ -1829,7 +1829,8 @@ int Jsi_ValueInstanceOf( Jsi_Interp *interp, Jsi_Value* v1, Jsi_Value* v2)
         return 0;
     sproto = v1->d.obj->__proto__ ;
     while (sproto) {
-        if (sproto == proto)
+        if (sproto == proto || (sproto->vt == JSI_VT_OBJECT && proto->vt == JSI_VT_OBJECT
+            && sproto->d.obj == proto->d.obj)) // setPrototypeOf makes a new value of the object.
             return 1;
         if (sproto->vt != JSI_VT_OBJECT)
             return 0;
-- 
2.43.0


From eb65ce3bb36a0f144b589ba84f3ede160f0d62e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:38 +0000
Subject: [PATCH 005/242] fix: Array.sort truncated the result of the compare
 function, so differences below one counted as equal

---
 src/jsiArray.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jsiArray.c b/src/jsiArray.c
index c650f8e..1cbe0ed 100644
--- a/src/jsiArray.c
+++ b/src/jsiArray.c
@@ -985,7 +985,7 @@ static int SortSubCmd(const void *p1, const void *p2, void *thunk)
             if (rc == JSI_OK) {
                 Jsi_Number d = 0;
                 if (Jsi_ValueGetNumber(interp, retP, &d) == JSI_OK)
-                    rc = -(int)d;
+                    rc = (d>0 ? -1 : (d<0 ? 1 : 0));
                 else {
                     if (!si->errCnt)
                         Jsi_LogWarn("invalid function return");
-- 
2.43.0


From a9bbda9fcd0d2185b6ce858ed59efa9c4b5bc2da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:03 +0000
Subject: [PATCH 006/242] fix: an exception thrown by the compare function of
 Array.sort was lost

---
 src/jsiArray.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/jsiArray.c b/src/jsiArray.c
index 1cbe0ed..6c1bcfe 100644
--- a/src/jsiArray.c
+++ b/src/jsiArray.c
@@ -937,6 +937,7 @@ typedef struct {
     bool unique;
     Jsi_Value *compare;
     int errCnt;
+    Jsi_RC rc;
 } SortInfo;
 
 static const char *sortArrayStrs[] = {"default", "desc", "dict", "nocase", 0};
@@ -975,14 +976,14 @@ static int SortSubCmd(const void *p1, const void *p2, void *thunk)
         VALCHK(v2);
         if (!si->compare)
             rc = Jsi_ValueCmp(interp, v1, v2, sortFlags);
-        else {
+        else if (si->rc == JSI_OK) {
             Jsi_Value *vv[2] = {v1, v2};
             Jsi_Value *retP = Jsi_ValueNew1(interp);
             Jsi_Value *vpargs = Jsi_ValueMakeObject(interp, NULL, Jsi_ObjNewArray(interp, vv, 2, 0));
             Jsi_IncrRefCount(interp, vpargs);
-            rc = Jsi_FunctionInvoke(interp, si->compare, vpargs, &retP, NULL);
+            si->rc = Jsi_FunctionInvoke(interp, si->compare, vpargs, &retP, NULL);
             Jsi_DecrRefCount(interp, vpargs);
-            if (rc == JSI_OK) {
+            if (si->rc == JSI_OK) {
                 Jsi_Number d = 0;
                 if (Jsi_ValueGetNumber(interp, retP, &d) == JSI_OK)
                     rc = (d>0 ? -1 : (d<0 ? 1 : 0));
@@ -1086,7 +1087,7 @@ static Jsi_RC jsi_ArraySortCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_
 #endif
         return JSI_ERROR;
     }
-    if (si.unique) {
+    if (si.unique && si.rc == JSI_OK) {
         int n, diff = 1, dupCnt=0;
         for (n=0, i=1; i<(int)obj->arrCnt; i++) {
             if (obj->arr[n] == obj->arr[i])
@@ -1123,7 +1124,7 @@ done:
     v = Jsi_ValueMakeObject(interp, NULL, obj);
     Jsi_ValueReplace(interp, ret, v);
     obj->modifying = 0;
-    return JSI_OK;
+    return si.rc;
 }
 
 static Jsi_RC jsi_ArraySpliceCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,Jsi_Value **ret, Jsi_Func *funcPtr)
-- 
2.43.0


From fcd0f304dfe4ac41c51e191279e1553269664e02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:15 +0000
Subject: [PATCH 007/242] fix: an exception thrown in a getter was lost and the
 member read as undefined

---
 src/jsiEval.c  | 9 ++++++++-
 src/jsiInt.h   | 1 +
 src/jsiValue.c | 1 +
 3 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/jsiEval.c b/src/jsiEval.c
index c7a4550..5f4b062 100644
--- a/src/jsiEval.c
+++ b/src/jsiEval.c
@@ -994,7 +994,14 @@ static Jsi_RC jsiEvalSubscript(Jsi_Interp *interp, Jsi_Value *src, Jsi_Value *id
         return rc;
     Jsi_Value res = VALINIT, 
         *resPtr = &res,
-        *vp = jsi_ValueSubscript(interp, src, idx, &resPtr, right_val);
+        *vp;
+    interp->getterRc = JSI_OK;
+    vp = jsi_ValueSubscript(interp, src, idx, &resPtr, right_val);
+    if (interp->getterRc != JSI_OK) { // Exception in a getter.
+        rc = interp->getterRc;
+        interp->getterRc = JSI_OK;
+        return rc;
+    }
     if (!vp && bsc == 0) {
         /* eg. so we can list available commands for  "db.xx()" */
         if (idx->vt == JSI_VT_STRING)
diff --git a/src/jsiInt.h b/src/jsiInt.h
index 3598052..e97f9b5 100644
--- a/src/jsiInt.h
+++ b/src/jsiInt.h
@@ -1259,6 +1259,7 @@ struct Jsi_Interp {
     Jsi_Value *RegExp_prototype;
     Jsi_Value *Date_prototype;
     Jsi_Value *GetterValue;
+    Jsi_RC getterRc;    // Failure of a getter called in a lookup.
     
     Jsi_Value *NaNValue;
     Jsi_Value *InfValue;
diff --git a/src/jsiValue.c b/src/jsiValue.c
index 7ff0434..dc06023 100644
--- a/src/jsiValue.c
+++ b/src/jsiValue.c
@@ -1003,6 +1003,7 @@ static Jsi_Value *jsi_ValueLookupBase(Jsi_Interp *interp, Jsi_Value *target, Jsi
                 return v;
             }
             //else Jsi_DecrRefCount(interp, vres);
+            interp->getterRc = rc;
             return NULL;
         }
         
-- 
2.43.0


From 7a6cd7eefbd09da4d6d010bd6843f82ad9b904f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:30 +0000
Subject: [PATCH 008/242] fix: assigning to a parameter in a callback, bound or
 applied function modified the caller's array element

---
 src/jsiProto.c | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/jsiProto.c b/src/jsiProto.c
index 1acb3aa..0054014 100644
--- a/src/jsiProto.c
+++ b/src/jsiProto.c
@@ -154,9 +154,16 @@ static Jsi_RC jsi_SharedArgs(Jsi_Interp *interp, Jsi_Value *args, Jsi_Func *func
                 continue;
             if (v && dv)
                 v = Jsi_ValueDup(interp, v);
-            else if (v)
+            else if (v) {
+                Jsi_Obj *aobj = args->d.obj;
+                if (v->refCnt>1 && aobj->arr && (uint)i<aobj->arrCnt && aobj->arr[i] == v) {
+                    // Value is in use by caller, eg. array element in forEach: give function its own.
+                    Jsi_Value *nv = Jsi_ValueDup(interp, v);
+                    Jsi_DecrRefCount(interp, v);
+                    aobj->arr[i] = v = nv;
+                }
                 Jsi_IncrRefCount(interp, v);
-            else {
+            } else {
                 v = Jsi_ValueNew(interp);
             }
             Jsi_ValueInsert(interp, args, argkey, v, JSI_OM_DONTENUM | JSI_OM_INNERSHARED);
@@ -472,11 +479,13 @@ Jsi_RC Jsi_FunctionApply(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,
             Jsi_LogError("second argument to Function.prototype.apply must be an array");
             goto done;
         }
-    } else {
-        isalloc = 1;
+        Jsi_Obj *aobj = fargs->d.obj; // Copy, as the callee may modify its arguments.
+        Jsi_ObjListifyArray(interp, aobj);
+        fargs = Jsi_ValueMakeObject(interp, NULL, Jsi_ObjNewArray(interp, aobj->arr, aobj->arrCnt, 1));
+    } else
         fargs = Jsi_ValueMakeObject(interp, NULL, Jsi_ObjNewType(interp, JSI_OT_ARRAY));
-        Jsi_IncrRefCount(interp, fargs);
-    }
+    isalloc = 1;
+    Jsi_IncrRefCount(interp, fargs);
     rc = jsi_FuncCallSub(interp, fargs, _this, ret, funcPtr, fthis, 0);
     
 done:
-- 
2.43.0


From 025a6bc59f59b6f9d48775b366b5cb5e3b6fcd40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:32 +0000
Subject: [PATCH 009/242] fix: Object.assign, merge, create, values and Array
 filter, flat shared members with their source and dropped members set from
 variables

---
 src/jsiArray.c |  7 +++++--
 src/jsiObj.c   |  8 +++++++-
 src/jsiProto.c | 34 +++++++++++++++++++++++++---------
 3 files changed, 37 insertions(+), 12 deletions(-)

diff --git a/src/jsiArray.c b/src/jsiArray.c
index 6c1bcfe..625d998 100644
--- a/src/jsiArray.c
+++ b/src/jsiArray.c
@@ -255,7 +255,11 @@ static Jsi_RC jsi_ArrayFlatSub(Jsi_Interp *interp, Jsi_Obj* nobj, Jsi_Value *arr
         if (t && depth>0 && Jsi_ValueIsArray(interp, t))
             rc = jsi_ArrayFlatSub(interp, nobj, t , depth-1);
         else if (t && t->vt != JSI_VT_UNDEF)
+        {
+            t = Jsi_ValueDup(interp, t);
             Jsi_ObjArrayAdd(interp, nobj, t);
+            Jsi_DecrRefCount(interp, t);
+        }
         if ((uint)(++n + clen)>interp->maxArrayList)
             rc = Jsi_LogError("array size exceeded");
     }
@@ -452,8 +456,7 @@ static Jsi_RC jsi_ArrayFilterCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value
         }
         if (fval) {
             if (Jsi_ValueIsArray(interp, _this) && _this->d.obj == obj && i<(int)obj->arrCnt && obj->arr[i]) {
-                nobj->arr[n] = obj->arr[i];
-                Jsi_IncrRefCount(interp, nobj->arr[n]);
+                nobj->arr[n] = Jsi_ValueDup(interp, obj->arr[i]);
             } else
                 nobj->arr[n] = Jsi_ValueDup(interp, nrPtr);
             n++;
diff --git a/src/jsiObj.c b/src/jsiObj.c
index 63f8e52..b2a99ff 100644
--- a/src/jsiObj.c
+++ b/src/jsiObj.c
@@ -128,7 +128,13 @@ static Jsi_RC ObjListifyValuesCallback(Jsi_Tree *tree, Jsi_TreeEntry *hPtr, void
     Jsi_Interp *interp = tree->opts.interp;
     Jsi_Obj *obj = (Jsi_Obj*)data;
     Jsi_Value *val = (Jsi_Value*)Jsi_TreeValueGet(hPtr);
-    if (!val || Jsi_ObjArrayAdd(interp, obj, val) != JSI_OK) 
+    if (!val)
+        return JSI_ERROR;
+    val = Jsi_ValueDup(interp, val); // Elements are not shared with the object.
+    val->f.bits.frozen = 0;
+    Jsi_RC rc = Jsi_ObjArrayAdd(interp, obj, val);
+    Jsi_DecrRefCount(interp, val);
+    if (rc != JSI_OK)
         return JSI_ERROR;
     return JSI_OK;
 }
diff --git a/src/jsiProto.c b/src/jsiProto.c
index 0054014..960bfe1 100644
--- a/src/jsiProto.c
+++ b/src/jsiProto.c
@@ -503,6 +503,16 @@ static Jsi_RC ObjectValueOfCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_
     return JSI_OK;
 }
 
+// Insert a copy of val, so objects do not share it.
+static Jsi_RC jsi_ObjInsertDup(Jsi_Interp *interp, Jsi_Obj *obj, const char *key, Jsi_Value *val)
+{
+    Jsi_Value *v = Jsi_ValueDup(interp, val);
+    v->f.bits.frozen = 0;
+    Jsi_RC rc = Jsi_ObjInsert(interp, obj, key, v, 0);
+    Jsi_DecrRefCount(interp, v);
+    return rc;
+}
+
 static Jsi_RC ObjectMergeCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,
     Jsi_Value **ret, Jsi_Func *funcPtr)
 {
@@ -518,15 +528,15 @@ static Jsi_RC ObjectMergeCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_th
     for (tPtr = Jsi_TreeSearchFirst(_this->d.obj->tree, &search, 0, NULL);
         tPtr && rc == JSI_OK; tPtr = Jsi_TreeSearchNext(&search)) {
         Jsi_Value *v = (Jsi_Value *)Jsi_TreeValueGet(tPtr);
-        if (v && v->f.bits.dontenum == 0)
-            rc = Jsi_ObjInsert(interp, obj, (const char *)Jsi_TreeKeyGet(tPtr), v, 0);
+        if (v && tPtr->f.bits.dontenum == 0)
+            rc = jsi_ObjInsertDup(interp, obj, (const char *)Jsi_TreeKeyGet(tPtr), v);
     }
     Jsi_TreeSearchDone(&search);
     for (tPtr = Jsi_TreeSearchFirst(v->d.obj->tree, &search, 0, NULL);
         tPtr && rc == JSI_OK; tPtr = Jsi_TreeSearchNext(&search)) {
         Jsi_Value *v = (Jsi_Value *)Jsi_TreeValueGet(tPtr);
-        if (v && v->f.bits.dontenum == 0)
-            rc = Jsi_ObjInsert(interp, obj, (const char *)Jsi_TreeKeyGet(tPtr), v, 0);
+        if (v && tPtr->f.bits.dontenum == 0)
+            rc = jsi_ObjInsertDup(interp, obj, (const char *)Jsi_TreeKeyGet(tPtr), v);
     }
     Jsi_TreeSearchDone(&search);
 
@@ -556,8 +566,8 @@ static Jsi_RC ObjectAssignCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_t
         for (tPtr = Jsi_TreeSearchFirst(vs->d.obj->tree, &search, 0, NULL);
             tPtr && rc == JSI_OK; tPtr = Jsi_TreeSearchNext(&search)) {
             Jsi_Value *v2 = (Jsi_Value *)Jsi_TreeValueGet(tPtr);
-            if (v2 && v2->f.bits.dontenum == 0)
-                rc = Jsi_ObjInsert(interp, obj, (const char *)Jsi_TreeKeyGet(tPtr), v2, 0);
+            if (v2 && tPtr->f.bits.dontenum == 0)
+                rc = jsi_ObjInsertDup(interp, obj, (const char *)Jsi_TreeKeyGet(tPtr), v2);
         }
         Jsi_TreeSearchDone(&search);
     }
@@ -663,8 +673,8 @@ static Jsi_RC ObjectCreateCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_t
         for (tPtr = Jsi_TreeSearchFirst(pobj->tree, &search, 0, NULL);
             tPtr && rc == JSI_OK; tPtr = Jsi_TreeSearchNext(&search)) {
             Jsi_Value *v = (Jsi_Value *)Jsi_TreeValueGet(tPtr);
-            if (v && v->f.bits.dontenum == 0)
-                rc = Jsi_ObjInsert(interp, obj, (const char *)Jsi_TreeKeyGet(tPtr), v, 0);
+            if (v && tPtr->f.bits.dontenum == 0)
+                rc = jsi_ObjInsertDup(interp, obj, (const char *)Jsi_TreeKeyGet(tPtr), v);
         }
         Jsi_TreeSearchDone(&search);
     }
@@ -680,7 +690,13 @@ static Jsi_RC ObjectPropertyIsEnumerableCmd(Jsi_Interp *interp, Jsi_Value *args,
 
     char *key = Jsi_ValueArrayIndexToStr(interp, args,0, NULL);
     v = Jsi_ValueObjLookup(interp, _this, key, 0);
-    b = (v && (v->f.bits.dontenum==0));
+    b = (v != NULL);
+    if (v && _this->vt == JSI_VT_OBJECT && _this->d.obj->tree) {
+        Jsi_MapEntry *kPtr = Jsi_MapEntryFind(interp->strKeyTbl, key);
+        Jsi_TreeEntry *tPtr = (kPtr?Jsi_TreeEntryFind(_this->d.obj->tree, Jsi_MapKeyGet(kPtr, 0)):NULL);
+        if (tPtr) // Flag of the member: values may carry flags from a variable.
+            b = (tPtr->f.bits.dontenum==0);
+    }
 
     Jsi_ValueMakeBool(interp, ret, b);
     return JSI_OK;
-- 
2.43.0


From be6cf4d88cf67e3d978829d19274feab3b47a62b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:38 +0000
Subject: [PATCH 010/242] fix: values copied from a constant or frozen member
 stayed read-only in their new place

---
 src/jsiEval.c  | 4 ++++
 src/jsiInt.h   | 3 +++
 src/jsiObj.c   | 4 +++-
 src/jsiProto.c | 2 +-
 4 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/jsiEval.c b/src/jsiEval.c
index 5f4b062..b0d7bcd 100644
--- a/src/jsiEval.c
+++ b/src/jsiEval.c
@@ -182,6 +182,7 @@ static Jsi_RC inline jsiValueAssign(Jsi_Interp *interp, Jsi_Value *dst, Jsi_Valu
             Jsi_ValueCopy(interp,v, src);
         SIGASSERT(v, VALUE);
         v->f.bits.readonly = ro;
+        v->f.bits.frozen = 0;
 #ifdef JSI_MEM_DEBUG
     if (!v->VD.label2)
         v->VD.label2 = "ValueAssign";
@@ -1060,12 +1061,14 @@ static Jsi_RC jsi_ObjArraySetDup(Jsi_Interp *interp, Jsi_Obj *obj, Jsi_Value *va
     if (obj->arr[n])
     {
         Jsi_ValueCopy(interp, obj->arr[n], value);
+        jsi_ValueFlagsReset(obj->arr[n]);
         return JSI_OK;
     }
     Assert(obj->arrCnt<=obj->arrMaxSize);
     Jsi_Value *v = Jsi_ValueNew1(interp);
     int m;
     Jsi_ValueCopy(interp,v, value);
+    jsi_ValueFlagsReset(v);
     obj->arr[n] = v;
     m = Jsi_ObjGetLength(interp, obj);
     if ((n+1) > m)
@@ -1106,6 +1109,7 @@ static Jsi_RC jsi_ValueObjKeyAssign(Jsi_Interp *interp, Jsi_Value *target, Jsi_V
         return Jsi_LogError("set prototype unsupported");
     }
     Jsi_Value *v = Jsi_ValueDup(interp, value);
+    jsi_ValueFlagsReset(v);
 
     if (Jsi_ValueInsert(interp, target, kstr, v, flag) != JSI_OK) {
         Jsi_DecrRefCount(interp, v);
diff --git a/src/jsiInt.h b/src/jsiInt.h
index e97f9b5..7936da6 100644
--- a/src/jsiInt.h
+++ b/src/jsiInt.h
@@ -591,6 +591,9 @@ struct Jsi_Value {
 #endif
 };
 
+/* Clear flags that belong to a variable or member, from a new copy of its value. */
+#define jsi_ValueFlagsReset(v) ((v)->f.bits.readonly = (v)->f.bits.frozen = 0)
+
 #ifndef JSI_SMALL_HASH_TABLE
 #define JSI_SMALL_HASH_TABLE 0x10
 #endif
diff --git a/src/jsiObj.c b/src/jsiObj.c
index b2a99ff..eb0b0ee 100644
--- a/src/jsiObj.c
+++ b/src/jsiObj.c
@@ -131,7 +131,7 @@ static Jsi_RC ObjListifyValuesCallback(Jsi_Tree *tree, Jsi_TreeEntry *hPtr, void
     if (!val)
         return JSI_ERROR;
     val = Jsi_ValueDup(interp, val); // Elements are not shared with the object.
-    val->f.bits.frozen = 0;
+    jsi_ValueFlagsReset(val);
     Jsi_RC rc = Jsi_ObjArrayAdd(interp, obj, val);
     Jsi_DecrRefCount(interp, val);
     if (rc != JSI_OK)
@@ -490,6 +490,7 @@ Jsi_Obj *Jsi_ObjNewArray(Jsi_Interp *interp, Jsi_Value **items, int count, int c
             } else {
                 obj->arr[i] = Jsi_ValueNew1(interp);
                 Jsi_ValueCopy(interp, obj->arr[i], items[i]);
+                jsi_ValueFlagsReset(obj->arr[i]);
             }
         }
     }
@@ -706,6 +707,7 @@ Jsi_Obj *jsi_ObjNewObj(Jsi_Interp *interp, Jsi_Value **items, int count, bool un
             }
         }
         v = Jsi_ValueDup(interp, v);
+        jsi_ValueFlagsReset(v);
         ObjInsertFromValue(interp, obj, items[i], v, unique);
         Jsi_DecrRefCount(interp, v);
     }
diff --git a/src/jsiProto.c b/src/jsiProto.c
index 960bfe1..663e159 100644
--- a/src/jsiProto.c
+++ b/src/jsiProto.c
@@ -507,7 +507,7 @@ static Jsi_RC ObjectValueOfCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_
 static Jsi_RC jsi_ObjInsertDup(Jsi_Interp *interp, Jsi_Obj *obj, const char *key, Jsi_Value *val)
 {
     Jsi_Value *v = Jsi_ValueDup(interp, val);
-    v->f.bits.frozen = 0;
+    jsi_ValueFlagsReset(v);
     Jsi_RC rc = Jsi_ObjInsert(interp, obj, key, v, 0);
     Jsi_DecrRefCount(interp, v);
     return rc;
-- 
2.43.0


From a80f0128e50bca94b5a9197c67285424fee8deaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:24 +0000
Subject: [PATCH 011/242] fix: ++ and -- on an inherited member modified the
 prototype

---
 src/jsiEval.c | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/jsiEval.c b/src/jsiEval.c
index b0d7bcd..8988438 100644
--- a/src/jsiEval.c
+++ b/src/jsiEval.c
@@ -950,6 +950,8 @@ static void jsiPushFunc(jsi_Pstate *ps, jsi_OpCode *ip, jsi_ScopeChain *scope, J
     jsiPush(interp,1);
 }
 
+static Jsi_RC jsi_ValueObjKeyAssign(Jsi_Interp *interp, Jsi_Value *target, Jsi_Value *keyval, Jsi_Value *value, int flag);
+
 static Jsi_RC jsiEvalSubscript(Jsi_Interp *interp, Jsi_Value *src, Jsi_Value *idx, jsi_OpCode *ip,  jsi_OpCode *end,
     Jsi_Value *currentScope)
 {
@@ -1027,6 +1029,21 @@ static Jsi_RC jsiEvalSubscript(Jsi_Interp *interp, Jsi_Value *src, Jsi_Value *id
         } else {
             if (vp == resPtr)
               return Jsi_LogError("bad eval");
+            if (obj && obj->__proto__ && ip+1<end && (ip[1].op == OP_INC || ip[1].op == OP_DEC) && !vp->f.bits.isgetter
+                && Jsi_ValueObjLookup(interp, src, Jsi_ValueToString(interp, idx, NULL), 0) != vp) {
+                // An inherited member: modify a copy in the object, not the prototype.
+                Jsi_Value *nv = Jsi_ValueDup(interp, vp);
+                jsi_ValueFlagsReset(nv);
+                rc = jsi_ValueObjKeyAssign(interp, src, idx, nv, 0);
+                Jsi_DecrRefCount(interp, nv);
+                Jsi_DecrRefCount(interp, vp);
+                if (rc != JSI_OK)
+                    return rc;
+                vp = Jsi_ValueObjLookup(interp, src, Jsi_ValueToString(interp, idx, NULL), 0);
+                if (!vp)
+                    return Jsi_LogError("bad eval");
+                Jsi_IncrRefCount(interp, vp);
+            }
             res.vt = JSI_VT_VARIABLE;
             res.d.lval = vp;
             if (ro)
-- 
2.43.0


From 7f907a79167671a7c769710d2b6b2669093d4253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:34 +0000
Subject: [PATCH 012/242] fix: Object.setPrototypeOf freed the replaced
 prototype twice or kept one it did not own

---
 src/jsiProto.c | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/jsiProto.c b/src/jsiProto.c
index 663e159..19a1273 100644
--- a/src/jsiProto.c
+++ b/src/jsiProto.c
@@ -592,11 +592,14 @@ static Jsi_RC jsi_SetPrototypeOfCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Val
     Jsi_Value *a = Jsi_ValueArrayIndex(interp, args,1);
     if (!v || !a || v->vt != JSI_VT_OBJECT || a->vt != JSI_VT_OBJECT)
         return JSI_ERROR;
-    if (a->d.obj->tree->numEntries && a->d.obj != v->d.obj) {
-        v->d.obj->__proto__ = Jsi_ValueDup(interp, a);
-        v->d.obj->clearProto = 1;
-    } else
-        v->d.obj->__proto__ = a->d.obj->__proto__;
+    Jsi_Obj *obj = v->d.obj;
+    Jsi_Value *oproto = (obj->clearProto?obj->__proto__:NULL), *nproto = a;
+    if (!a->d.obj->tree->numEntries || a->d.obj == obj)
+        nproto = a->d.obj->__proto__;
+    obj->__proto__ = (nproto?Jsi_ValueDup(interp, nproto):NULL);
+    obj->clearProto = (nproto != NULL);
+    if (oproto)
+        Jsi_DecrRefCount(interp, oproto);
     return JSI_OK;
 }
 #endif
-- 
2.43.0


From 48be599329303f17c6c9761afaf9bc4a49b32dbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:34 +0000
Subject: [PATCH 013/242] fix: a cyclic prototype chain crashed the first
 lookup of an unknown member

---
 src/jsiProto.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/jsiProto.c b/src/jsiProto.c
index 19a1273..e27ea58 100644
--- a/src/jsiProto.c
+++ b/src/jsiProto.c
@@ -596,6 +596,10 @@ static Jsi_RC jsi_SetPrototypeOfCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Val
     Jsi_Value *oproto = (obj->clearProto?obj->__proto__:NULL), *nproto = a;
     if (!a->d.obj->tree->numEntries || a->d.obj == obj)
         nproto = a->d.obj->__proto__;
+    Jsi_Value *cv = nproto;
+    for (; cv && cv->vt == JSI_VT_OBJECT; cv = cv->d.obj->__proto__)
+        if (cv->d.obj == obj)
+            return Jsi_LogError("cyclic prototype");
     obj->__proto__ = (nproto?Jsi_ValueDup(interp, nproto):NULL);
     obj->clearProto = (nproto != NULL);
     if (oproto)
-- 
2.43.0


From 1edc9d5fc6ef9cc56aa33d63771ce627c26786af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:44 +0000
Subject: [PATCH 014/242] fix: JSON.stringify did not escape member names and
 JSON.parse did not unescape them

---
 src/jsiJSON.c  | 4 ++--
 src/jsiUtils.c | 2 ++
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/jsiJSON.c b/src/jsiJSON.c
index ff6a0da..4bc2e38 100644
--- a/src/jsiJSON.c
+++ b/src/jsiJSON.c
@@ -132,7 +132,7 @@ jsonGenObject(Jsi_Interp *interp, Jsi_JsonParser *p, const char *js, uint pos, u
             nv = jsonGen1Value(interp, p, js, i, &i, 0);
         Jsi_DSInit(&dStr);
         if (t)
-            Jsi_DSAppendLen(&dStr, t, len);
+            jsonNewDString(interp, &dStr, t, len);
         Jsi_ObjInsert(interp, obj, Jsi_DSValue(&dStr), nv, 0);
         Jsi_DSFree(&dStr);
     }
@@ -308,7 +308,7 @@ int Jsi_OptionsProcessJSON(Jsi_Interp *interp, Jsi_OptionSpec *opts, void *data,
         name = Jsi_JsonGetTokstr(p, json, i, &len);
         Jsi_DSSetLength(&nStr, 0);
         if (name)
-            Jsi_DSAppendLen(&nStr, name, len);
+            jsonNewDString(interp, &nStr, name, len);
         name = Jsi_DSValue(&nStr);
         i++;
         switch (p->tokens[i].type) {
diff --git a/src/jsiUtils.c b/src/jsiUtils.c
index 704bb71..d879687 100644
--- a/src/jsiUtils.c
+++ b/src/jsiUtils.c
@@ -693,6 +693,8 @@ static Jsi_RC jsi_ObjectGetFmt(Jsi_Interp *interp, const char *key, Jsi_Value *v
     if (((ow->quote&JSI_OUTPUT_JSON) == 0 || (ow->quote&JSI_JSON_STRICT) == 0) && Jsi_StrIsAlnum(key)
         && !Jsi_HashEntryFind(interp->lexkeyTbl, key))
         Jsi_DSAppend(dStr, key, NULL);
+    else if (ow->quote&JSI_OUTPUT_JSON)
+        Jsi_JSONQuote(interp, key, -1, dStr);
     else
         /* JSON/spaces, etc requires quoting the name. */
         Jsi_DSAppend(dStr, "\"", key, "\"", NULL);
-- 
2.43.0


From 413832775d6208348f20c9453785a336433e7569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:07 +0000
Subject: [PATCH 015/242] fix: JSON.parse dropped an escaped slash

---
 src/jsiJSON.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/jsiJSON.c b/src/jsiJSON.c
index 4bc2e38..55b21bd 100644
--- a/src/jsiJSON.c
+++ b/src/jsiJSON.c
@@ -20,6 +20,7 @@ static void jsonNewDString(Jsi_Interp *interp, Jsi_DString *dStr, const char* st
                 case 't': *dp++ = '\t'; break;
                 case '\"': *dp++ = '\"'; break;
                 case '\\': *dp++ = '\\'; break;
+                case '/': *dp++ = '/'; break;
                 case 'u': 
                     if ((ulen=Jsi_UtfDecode(cp+2, dp))) {
                         dp += ulen;
-- 
2.43.0


From c0edf1cebc1d0dce471386b976bfc7aec23f752d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:07 +0000
Subject: [PATCH 016/242] fix: JSON.stringify and JSON.parse lost characters
 beyond U+FFFF

---
 src/jsiJSON.c  | 14 +++++++++++++-
 src/jsiUtf8.c  | 15 +++++++++++++--
 src/jsiUtils.c |  2 +-
 3 files changed, 27 insertions(+), 4 deletions(-)

diff --git a/src/jsiJSON.c b/src/jsiJSON.c
index 55b21bd..9f1b99e 100644
--- a/src/jsiJSON.c
+++ b/src/jsiJSON.c
@@ -23,6 +23,17 @@ static void jsonNewDString(Jsi_Interp *interp, Jsi_DString *dStr, const char* st
                 case '/': *dp++ = '/'; break;
                 case 'u': 
                     if ((ulen=Jsi_UtfDecode(cp+2, dp))) {
+                        Jsi_UniChar hi, lo;
+                        char lbuf[5];
+                        Jsi_UtfToUniChar(dp, &hi);
+                        if (ulen==3 && hi>=0xd800 && hi<=0xdbff && (cp-str)+12<=len && cp[6]=='\\' && cp[7]=='u'
+                            && Jsi_UtfDecode(cp+8, lbuf)==3) {
+                            Jsi_UtfToUniChar(lbuf, &lo);
+                            if (lo>=0xdc00 && lo<=0xdfff) { // Surrogate pair.
+                                ulen = Jsi_UniCharToUtf(0x10000 + ((hi-0xd800)<<10) + (lo-0xdc00), dp);
+                                cp += 6;
+                            }
+                        }
                         dp += ulen;
                         cp += 4;
                     } else {                    
@@ -407,7 +418,7 @@ Jsi_JSONQuote(Jsi_Interp *interp, const char *str, int len, Jsi_DString *dsPtr)
     int i = 0;
     if (len<0)
         len = Jsi_Strlen(str);
-    char cbuf[10];
+    char cbuf[20];
     Jsi_DSAppend(dsPtr,"\"",NULL);
     while (*cp && i++<len) {
         if (*cp == '\\' /* || *cp == '/' */ || *cp == '\"') {
@@ -427,6 +438,7 @@ Jsi_JSONQuote(Jsi_Interp *interp, const char *str, int len, Jsi_DString *dsPtr)
                     if ((ilen = Jsi_UtfEncode(cp, cbuf))) {
                         Jsi_DSAppend(dsPtr,cbuf,NULL);
                         cp += (ilen-1);
+                        i += (ilen-1);
                     }
             }
         } else {
diff --git a/src/jsiUtf8.c b/src/jsiUtf8.c
index c7e3b05..22a0d6b 100644
--- a/src/jsiUtf8.c
+++ b/src/jsiUtf8.c
@@ -218,14 +218,25 @@ uint Jsi_UtfToUniChar(const char *utf, Jsi_UniChar *uc)
 #endif
 }
 
-// Encode UTF number to \uNNNN form.  Returns size.
+// Encode UTF number to \uNNNN form, or to a pair of these if over 0xffff.  Returns size.
 uint Jsi_UtfEncode(const char *innum, char *outstr) {
     int32_t ival;
     int ilen;
+    ilen = Jsi_UtfToUniChar((char*)innum, &ival);
+    if (ival > 0xffff) {
+        int32_t hi = 0xd800 + ((ival-0x10000)>>10);
+        outstr[0] = '\\';
+        outstr[1] = 'u';
+        outstr[2] = jsi_toHexChar((hi&0xF000)>>12);
+        outstr[3] = jsi_toHexChar((hi&0xF00)>>8);
+        outstr[4] = jsi_toHexChar((hi&0xF0)>>4);
+        outstr[5] = jsi_toHexChar((hi&0x0F));
+        ival = 0xdc00 + ((ival-0x10000)&0x3ff);
+        outstr += 6;
+    }
     outstr[0] = '\\';
     outstr[1] = 'u';
     outstr[6] = 0;
-    ilen = Jsi_UtfToUniChar((char*)innum, &ival);
     outstr[2] = jsi_toHexChar((ival&0xF000)>>12);
     outstr[3] = jsi_toHexChar((ival&0xF00)>>8);
     outstr[4] = jsi_toHexChar((ival&0xF0)>>4);
diff --git a/src/jsiUtils.c b/src/jsiUtils.c
index d879687..5d6d1ab 100644
--- a/src/jsiUtils.c
+++ b/src/jsiUtils.c
@@ -803,7 +803,7 @@ outstr:
                 } else if (isprint(*str) || !isjson)
                     Jsi_DSAppendLen(dStr,str, 1);
                 else {
-                    char ubuf[10];
+                    char ubuf[20];
                     int l = Jsi_UtfEncode(str, ubuf);
                     Jsi_DSAppend(dStr,ubuf, NULL);
                     str += l-1;
-- 
2.43.0


From 25207ed46d75d315479b7e6faab13ace158d21c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:40 +0000
Subject: [PATCH 017/242] fix: JSON.stringify wrote a comma before the first
 member after an undefined one, and undefined as an array element

---
 src/jsiUtils.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/jsiUtils.c b/src/jsiUtils.c
index 5d6d1ab..51d52a8 100644
--- a/src/jsiUtils.c
+++ b/src/jsiUtils.c
@@ -683,9 +683,9 @@ static Jsi_RC jsi_ObjectGetFmt(Jsi_Interp *interp, const char *key, Jsi_Value *v
 {
     Jsi_DString *dStr = ow->dStr;
     int isfmt = ow->quote&JSI_JSON_FORMAT;
-    ow->subcnt++;
     if ((ow->quote&JSI_OUTPUT_JSON) && v && v->vt == JSI_VT_UNDEF)
         return JSI_OK;
+    ow->subcnt++;
     if (ow->subcnt>1)
         Jsi_DSAppend(dStr, ", ", NULL);
     if (isfmt)
@@ -858,7 +858,9 @@ outstr:
                     nv = Jsi_ValueArrayIndex(interp, v, i);
                     if (i) Jsi_DSAppend(dStr,", ", NULL);
                     owPtr->depth++;
-                    if (nv) {
+                    if (isjson && (!nv || nv->vt == JSI_VT_UNDEF))
+                        Jsi_DSAppend(dStr, "null", NULL);
+                    else if (nv) {
                         if (jsiValueGetString(interp, nv, dStr, owPtr) != JSI_OK) {
                             owPtr->depth--;
                             return JSI_ERROR;
-- 
2.43.0


From 21b9c13699a53be3c59fe577447a6365355551f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:42 +0000
Subject: [PATCH 018/242] fix: JSON.parse of true, false or null followed by
 white space gave undefined

---
 src/jsiJSON.c | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/jsiJSON.c b/src/jsiJSON.c
index 9f1b99e..8b44962 100644
--- a/src/jsiJSON.c
+++ b/src/jsiJSON.c
@@ -179,6 +179,18 @@ jsonGenArray(Jsi_Interp *interp, Jsi_JsonParser *p, const char *js, uint pos, ui
     return v;
 }
 
+// True if js is just word, ignoring trailing space.
+static bool jsonIsWord(const char *js, const char *word)
+{
+    uint len = Jsi_Strlen(word);
+    if (Jsi_Strncmp(js, word, len))
+        return 0;
+    js += len;
+    while (isspace(*js))
+        js++;
+    return *js == 0;
+}
+
 Jsi_RC Jsi_JSONParse(Jsi_Interp *interp, const char *js, Jsi_Value **ret, int flags)
 {
     uint i = 0, r;
@@ -195,9 +207,9 @@ Jsi_RC Jsi_JSONParse(Jsi_Interp *interp, const char *js, Jsi_Value **ret, int fl
     if (js[0] == 0)
         return JSI_OK;
     switch (js[0]) {
-        case 't': if (Jsi_Strcmp(js,"true")==0) { if (ret) Jsi_ValueMakeBool(interp, ret, 1); return JSI_OK; } break;
-        case 'f': if (Jsi_Strcmp(js,"false")==0) { if (ret) Jsi_ValueMakeBool(interp, ret, 0); return JSI_OK; } break;
-        case 'n': if (Jsi_Strcmp(js,"null")==0) { if (ret) Jsi_ValueMakeNull(interp, ret); return JSI_OK; } break;
+        case 't': if (jsonIsWord(js,"true")) { if (ret) Jsi_ValueMakeBool(interp, ret, 1); return JSI_OK; } break;
+        case 'f': if (jsonIsWord(js,"false")) { if (ret) Jsi_ValueMakeBool(interp, ret, 0); return JSI_OK; } break;
+        case 'n': if (jsonIsWord(js,"null")) { if (ret) Jsi_ValueMakeNull(interp, ret); return JSI_OK; } break;
         case '0': case '1': case '2': case '3': case '4': case '5': 
         case '6': case '7': case '8': case '9': case '-':
             if (Jsi_GetDouble(interp, js, &d) == JSI_OK) { if (ret) Jsi_ValueMakeNumber(interp, ret, d); return JSI_OK; } break;
-- 
2.43.0


From 5601381bf4d761cc126cd8c08e64996cfea3333b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:42 +0000
Subject: [PATCH 019/242] fix: JSON.stringify wrote null for subnormal numbers

---
 src/jsiUtils.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jsiUtils.c b/src/jsiUtils.c
index 51d52a8..a5dec5e 100644
--- a/src/jsiUtils.c
+++ b/src/jsiUtils.c
@@ -753,7 +753,7 @@ static Jsi_RC jsiValueGetString(Jsi_Interp *interp, Jsi_Value* v, Jsi_DString *d
         case JSI_VT_NUMBER:
             num = v->d.num;
 outnum:
-            if (isjson && !Jsi_NumberIsNormal(num)) {
+            if (isjson && !Jsi_NumberIsNormal(num) && !Jsi_NumberIsSubnormal(num)) {
                 Jsi_DSAppend(dStr, "null", NULL);
             } else if (Jsi_NumberIsInteger(num)) {
                 Jsi_NumberItoA10((Jsi_Wide)num, buf, sizeof(buf));
-- 
2.43.0


From 431e989bbf1d8e38cea22fd1250ca5937a65df31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:11 +0000
Subject: [PATCH 020/242] fix: getters, setters and arrow functions did not
 open a scope: their variables, or those of the enclosing function, were
 misplaced

---
 src/parser.y | 30 +++++++++++++++++-------------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/src/parser.y b/src/parser.y
index 6afaba5..2da05b4 100644
--- a/src/parser.y
+++ b/src/parser.y
@@ -44,7 +44,7 @@
 %type <opcodes> array commonstatement delete_statement do_statement expr expr_opt exprlist exprlist_opt itemident itemfunc itemres
 %type <opcodes> fcall_exprs for_cond for_init for_statement func_expr func_statement func_statement_block if_statement item items iterstatement lvalue
 %type <opcodes> object objexport statement statements statement_or_empty switch_statement try_statement value vardec vardecs while_statement with_statement
-%type <scopes> args args_opt argsa arrowargs
+%type <scopes> args args_opt argsa arrowargs arrowhead
 %type <inum> typeid inof rettype argtype localvar
 %type <sstr> identifier_opt label_opt func_prefix
 %type <vstr> strlit
@@ -583,7 +583,11 @@ argsa:
 arrowargs:
     IDENTIFIER                      { $$ = jsi_argInsert(pstate, NULL, $1, NULL, &@1, 0); }
     | '(' IDENTIFIER ',' argsa ')'  { $$ = jsi_argInsert(pstate, $4, $2, NULL, &@1, 1); }
-    | '('  ')'            { $$ = jsi_ArgsOptAdd(pstate, jsi_ScopeStrsNew()); }
+    | '('  ')'            { $$ = jsi_ScopeStrsNew(); }
+;
+
+/* The scope must be pushed before the body is parsed, for its "var" declarations. */
+arrowhead: arrowargs ARROW { $$ = jsi_ArgsOptAdd(pstate, $1); }
 ;
 
 func_statement_block: '{' statements '}'    { $$ = $2; }
@@ -632,14 +636,12 @@ expr:
         else $$ = codes_join($2, code_dec(pstate, &@2, 0));
     }
     | '(' expr ')'          { $$ = $2; }
-    | arrowargs ARROW expr %prec MIN_PRI {
-        jsi_PstatePush(pstate);
-        $$ = code_push_func(pstate,  &@1, jsi_FuncMake(pstate, $1, codes_join($3, code_ret(pstate, &@3, 1)), &@1, NULL, 1)); 
+    | arrowhead expr %prec MIN_PRI {
+        $$ = code_push_func(pstate,  &@1, jsi_FuncMake(pstate, $1, codes_join($2, code_ret(pstate, &@2, 1)), &@1, NULL, 1)); 
         jsi_PstatePop(pstate);
     }
-    | arrowargs ARROW func_statement_block {
-        jsi_PstatePush(pstate);
-        $$ = code_push_func(pstate,  &@1, jsi_FuncMake(pstate, $1, $3, &@1, NULL, 1));
+    | arrowhead func_statement_block {
+        $$ = code_push_func(pstate,  &@1, jsi_FuncMake(pstate, $1, $2, &@1, NULL, 1));
         jsi_PstatePop(pstate);
     }
     | expr AND expr         {
@@ -927,16 +929,18 @@ item:
     | _FALSE ':' expr { $$ = codes_join_item(code_push_bool(0), $3);  }
     | UNDEF ':' expr { $$ = codes_join_item(code_push_undef(), $3);  }
     | TYPENULL ':' expr { $$ = codes_join_item(code_push_null(), $3);  }
-    | OBJSET IDENTIFIER '(' IDENTIFIER ')' func_statement_block {
+    | OBJSET IDENTIFIER '(' IDENTIFIER ')' { jsi_PstatePush(pstate); } func_statement_block {
         Jsi_ScopeStrs *args = jsi_argInsert(pstate, NULL, $4, NULL, &@4, 0 );
         $$ = codes_join_item(code_push_string(pstate,&@2, $2), 
-            code_push_func(pstate,  &@3, jsi_FuncMake(pstate, args, $6, &@1, $2, 2)));
+            code_push_func(pstate,  &@3, jsi_FuncMake(pstate, args, $7, &@1, $2, 2)));
+        jsi_PstatePop(pstate);
     }
-    | OBJGET IDENTIFIER '(' ')' func_statement_block {
-        Jsi_ScopeStrs *args = jsi_ArgsOptAdd(pstate, jsi_ScopeStrsNew());
+    | OBJGET IDENTIFIER '(' ')' { jsi_PstatePush(pstate); } func_statement_block {
+        Jsi_ScopeStrs *args = jsi_ScopeStrsNew();
         $$ = codes_join_item(code_push_string(pstate,&@2, $2), 
-            code_push_func(pstate,  &@3, jsi_FuncMake(pstate, args, $5, &@1, $2, 4)));
+            code_push_func(pstate,  &@3, jsi_FuncMake(pstate, args, $6, &@1, $2, 4)));
         $$->codes[0].setget = 1;
+        jsi_PstatePop(pstate);
     }
 ;
 
-- 
2.43.0


From d4db0459532aa21573ad5463a5f3f927e14c7606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:01 +0000
Subject: [PATCH 021/242] fix: a syntax error inside a function left its scope
 open in the parser

---
 src/jsiEval.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/jsiEval.c b/src/jsiEval.c
index 8988438..1e042ad 100644
--- a/src/jsiEval.c
+++ b/src/jsiEval.c
@@ -43,7 +43,10 @@ static jsi_Pstate* jsiNewParser(Jsi_Interp* interp, const char *codeStr, Jsi_Cha
     interp->inParse++;
     topPs = interp->parsePs;
     interp->parsePs = ps;
+    int curScope = interp->cur_scope;
     yyparse(ps);
+    while (interp->cur_scope > curScope) // Leave scopes opened before a syntax error.
+        jsi_PstatePop(ps);
     interp->parsePs = topPs;
     interp->inParse--;
     
-- 
2.43.0


From 1a7f0e5c1a8212fa02e0fae16c82e491ac64879c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:00 +0000
Subject: [PATCH 022/242] fix: ++ and -- on a member with a setter called it on
 the wrong object, lost its exceptions, and called it for other members

---
 src/jsiEval.c | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/src/jsiEval.c b/src/jsiEval.c
index 1e042ad..7c19407 100644
--- a/src/jsiEval.c
+++ b/src/jsiEval.c
@@ -1151,6 +1151,7 @@ Jsi_RC jsiEvalCodeSub(jsi_Pstate *ps, Jsi_OpCodes *opcodes,
     jsi_TryList  *trylist = NULL;
     jsi_Frame *fp = interp->framePtr;
     Jsi_HashEntry *hPtrGet = NULL;
+    Jsi_Value *getThis = NULL; // Object of the accessor being updated by ++/--.
     bool strict = !interp->noCheck;
     const char *curFile = NULL, *throwStr;
     
@@ -1163,8 +1164,13 @@ Jsi_RC jsiEvalCodeSub(jsi_Pstate *ps, Jsi_OpCodes *opcodes,
     
     while(ip < end && rc == JSI_OK) {
         int plop = ip->op;
-        if (lop != OP_SUBSCRIPT)
+        if (lop != OP_SUBSCRIPT) {
             hPtrGet = NULL;
+            if (getThis) {
+                Jsi_DecrRefCount(interp, getThis);
+                getThis = NULL;
+            }
+        }
 
         if (ip->logidx) { // Mask out LogDebug, etc if not enabled.
             uint oli = ip->logidx, logflag2 = jsi_GetLogFlag(interp, ip->logidx, NULL);
@@ -1316,6 +1322,13 @@ Jsi_RC jsiEvalCodeSub(jsi_Pstate *ps, Jsi_OpCodes *opcodes,
             }
             case OP_SUBSCRIPT: {
                 jsiVarDeref(interp,2);
+                interp->hPtrGet = NULL;
+                if (getThis) {
+                    Jsi_DecrRefCount(interp, getThis);
+                    getThis = NULL;
+                }
+                if (ip+1<end && (ip[1].op == OP_INC || ip[1].op == OP_DEC) && _jsi_TOQ->vt == JSI_VT_OBJECT)
+                    getThis = Jsi_ValueDup(interp, _jsi_TOQ);
                 rc = jsiEvalSubscript(interp, _jsi_TOQ, _jsi_TOP, ip, end, currentScope);
                 jsiPop(interp, 1);
                 hPtrGet = interp->hPtrGet;
@@ -1765,12 +1778,13 @@ Jsi_RC jsiEvalCodeSub(jsi_Pstate *ps, Jsi_OpCodes *opcodes,
                 if (ip->data) {
                     t->d.num -= inc;
                 }
-                if (hPtrGet) {
+                if (hPtrGet && getThis && rc == JSI_OK) {
                     // Re-update after modifying a primative from "get()".
-                    Jsi_Value *v2 = (fp->Sp>1?_jsi_TOQ:_jsi_TOP);
-                    jsi_SetterCall(interp, hPtrGet, v, v2, 0);
-                    hPtrGet = NULL;
+                    Jsi_Value *nv = Jsi_ValueDup(interp, v);
+                    rc = jsi_SetterCall(interp, hPtrGet, nv, getThis, 0);
+                    Jsi_DecrRefCount(interp, nv);
                 }
+                hPtrGet = NULL;
                 break;
             }
             case OP_TYPEOF: {
@@ -2166,6 +2180,8 @@ undef_eval:
         ip++;
     }
 done:
+    if (getThis)
+        Jsi_DecrRefCount(interp, getThis);
     while (trylist) {
         JSI_RESTORE_SCOPE();
         pop_try(trylist);
-- 
2.43.0


From 79887e0a99f6a384171bd48d77d6241a3506c4f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:20 +0000
Subject: [PATCH 023/242] fix: calls without arguments from C, such as of
 getters, all shared one scope for their variables

---
 src/jsiFunc.c   | 27 +++++++++------------------
 src/jsiInt.h    |  1 -
 src/jsiInterp.c |  1 -
 3 files changed, 9 insertions(+), 20 deletions(-)

diff --git a/src/jsiFunc.c b/src/jsiFunc.c
index 85c3faf..9f1f065 100644
--- a/src/jsiFunc.c
+++ b/src/jsiFunc.c
@@ -761,13 +761,6 @@ static Jsi_RC jsi_FunctionInvoke(Jsi_Interp *interp, Jsi_Value *tocall, Jsi_Valu
         ret = &interp->nullFuncRet;
         Jsi_ValueMakeUndef(interp, ret);
     }
-    if (!args) {
-        if (!interp->nullFuncArg) {
-            interp->nullFuncArg = Jsi_ValueMakeObject(interp, NULL, Jsi_ObjNewArray(interp, NULL, 0, 0));
-            Jsi_IncrRefCount(interp, interp->nullFuncArg);
-        }
-        args = interp->nullFuncArg;
-    }
     /* func to call */
     Jsi_Func *funcPtr = tocall->d.obj->d.fobj->func;
     SIGASSERT(funcPtr, FUNC);
@@ -780,12 +773,18 @@ static Jsi_RC jsi_FunctionInvoke(Jsi_Interp *interp, Jsi_Value *tocall, Jsi_Valu
     }
     
     /* prepare args */
-    if (args->vt != JSI_VT_OBJECT || !Jsi_ObjIsArray(interp, args->d.obj)) 
+    Jsi_Value *nargs = NULL;
+    if (!args) { // New for each call, as this becomes the scope of its variables.
+        args = nargs = Jsi_ValueMakeObject(interp, NULL, Jsi_ObjNewArray(interp, NULL, 0, 0));
+        Jsi_IncrRefCount(interp, nargs);
+    } else if (args->vt != JSI_VT_OBJECT || !Jsi_ObjIsArray(interp, args->d.obj)) 
         return Jsi_LogError("argument must be an array");
     /* new this */
     Jsi_Value *fthis = Jsi_ValueDup(interp, _this ? _this : tocall);
     Jsi_RC rc = jsi_FuncCallSub(interp, args, tocall, ret, funcPtr, fthis, 0);
     Jsi_DecrRefCount(interp, fthis);
+    if (nargs)
+        Jsi_DecrRefCount(interp, nargs);
     return rc;
 }
 
@@ -902,11 +901,7 @@ int Jsi_FunctionInvokeBool(Jsi_Interp *interp, Jsi_Value *func, Jsi_Value *arg,
     Jsi_RC rc;
     int bres = 0;
     if (!arg) {
-        if (!interp->nullFuncArg) {
-            interp->nullFuncArg = Jsi_ValueMakeObject(interp, NULL, Jsi_ObjNewArray(interp, NULL, 0, 0));
-            Jsi_IncrRefCount(interp, interp->nullFuncArg);
-        }
-        vpargs = interp->nullFuncArg;
+        vpargs = Jsi_ValueMakeObject(interp, NULL, Jsi_ObjNewArray(interp, NULL, 0, 0));
     } else {
         vpargs = Jsi_ValueMakeObject(interp, NULL, Jsi_ObjNewArray(interp, &arg, 1, 1));
     }
@@ -933,11 +928,7 @@ Jsi_RC Jsi_FunctionInvokeString(Jsi_Interp *interp, Jsi_Value *func, Jsi_Value *
     Jsi_Value *vpargs, *frPtr = Jsi_ValueNew1(interp);
     Jsi_RC rc;
     if (!arg) {
-        if (!interp->nullFuncArg) {
-            interp->nullFuncArg = Jsi_ValueMakeObject(interp, NULL, Jsi_ObjNewArray(interp, NULL, 0, 0));
-            Jsi_IncrRefCount(interp, interp->nullFuncArg);
-        }
-        vpargs = interp->nullFuncArg;
+        vpargs = Jsi_ValueMakeObject(interp, NULL, Jsi_ObjNewArray(interp, NULL, 0, 0));
     } else {
         vpargs = Jsi_ValueMakeObject(interp, NULL, Jsi_ObjNewArray(interp, &arg, 1, 1));
     }
diff --git a/src/jsiInt.h b/src/jsiInt.h
index 7936da6..230e1d1 100644
--- a/src/jsiInt.h
+++ b/src/jsiInt.h
@@ -1267,7 +1267,6 @@ struct Jsi_Interp {
     Jsi_Value *NaNValue;
     Jsi_Value *InfValue;
     Jsi_Value *NullValue;
-    Jsi_Value *nullFuncArg; /* Efficient call of no-arg func */
     Jsi_Value *nullFuncRet;
     Jsi_Value *autoFiles;
     Jsi_Obj* cleanObjs[4];
diff --git a/src/jsiInterp.c b/src/jsiInterp.c
index 3ad7609..d19dd74 100644
--- a/src/jsiInterp.c
+++ b/src/jsiInterp.c
@@ -1922,7 +1922,6 @@ static Jsi_RC jsiInterpDelete(Jsi_Interp* interp, void *unused)
         Jsi_MutexDelete(interp, interp->QMutex);
         Jsi_DSFree(&interp->interpEvalQ);
     }
-    Jsi_DecrRefCountIF(interp, interp->nullFuncArg);
     Jsi_DecrRefCountIF(interp, interp->NullValue);
     Jsi_OptionsFree(interp, InterpOptions, interp, 0);
     Jsi_DecrRefCountIF(interp, interp->Object_prototype);
-- 
2.43.0


From 057cc64365acb63a344f5118207298045945f3f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:23 +0000
Subject: [PATCH 024/242] fix: a pre-order tree search without a start key
 looked up a NULL key

---
 src/jsi.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jsi.h b/src/jsi.h
index bfe25a0..ccc8419 100644
--- a/src/jsi.h
+++ b/src/jsi.h
@@ -181,7 +181,7 @@ typedef enum {
     
     JSI_TREE_ORDER_IN=0, JSI_TREE_ORDER_PRE=0x10, JSI_TREE_ORDER_POST=0x20, // Jsi_TreeSearchFirst()
     JSI_TREE_ORDER_LEVEL=0x30, JSI_TREE_ORDER_MASK=0x30,
-    JSI_TREE_SEARCH_KEY=0x10, // Use key even if NULL
+    JSI_TREE_SEARCH_KEY=0x40, // Use key even if NULL
     JSI_TREE_USERFLAG_MASK=0x7f,
     JSI_LIST_REVERSE=0x8, // Jsi_ListSearchFirst
     JSI_MUTEX_RECURSIVE=2,
-- 
2.43.0


From 234a90d5011e2e33db72c8fac7c98409a061f83b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:23 +0000
Subject: [PATCH 025/242] fix: a pre-order tree search skipped and repeated
 entries

---
 src/jsiTree.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/jsiTree.c b/src/jsiTree.c
index ba250f7..7fa3a65 100644
--- a/src/jsiTree.c
+++ b/src/jsiTree.c
@@ -708,10 +708,9 @@ static Jsi_TreeEntry *searchAdd(Jsi_TreeSearch *searchPtr,  Jsi_TreeEntry *hPtr)
                 if (searchPtr->top<=0) return NULL;
                 hPtr = searchPtr->Ptrs[--searchPtr->top];
             }
-            searchPtr->Ptrs[searchPtr->top++] = hPtr;
             if (hPtr->left) searchPtr->Ptrs[searchPtr->top++] = hPtr->left;
             if (hPtr->right) searchPtr->Ptrs[searchPtr->top++] = hPtr->right;
-            break;
+            return hPtr;
             
         case JSI_TREE_ORDER_IN:
             while (1) {
-- 
2.43.0


From a3476f384bbebe31682719581df99a2e8a7337fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:23 +0000
Subject: [PATCH 026/242] fix: one-word tree keys whose difference does not fit
 an int were confused

---
 src/jsiTree.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jsiTree.c b/src/jsiTree.c
index 7fa3a65..c11ff4c 100644
--- a/src/jsiTree.c
+++ b/src/jsiTree.c
@@ -270,7 +270,7 @@ static int StringCompare(Jsi_Tree *treePtr, const void *key1, const void *key2)
 
 static int OneWordCompare(Jsi_Tree *treePtr, const void *key1, const void *key2)
 {
-    return ((uintptr_t )key1 - (uintptr_t)key2);
+    return ((uintptr_t)key1 < (uintptr_t)key2 ? -1 : (uintptr_t)key1 > (uintptr_t)key2);
 }
 
 static int TreeArrayCompare(Jsi_Tree *treePtr, const void *key1, const void *key2)
-- 
2.43.0


From 1ec6e33bf1f33c6c1289b3652bf80cc5a993604b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:23 +0000
Subject: [PATCH 027/242] fix: deleting an inner entry of a tree with struct
 keys broke the tree

---
 src/jsiTree.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/jsiTree.c b/src/jsiTree.c
index c11ff4c..ccfc819 100644
--- a/src/jsiTree.c
+++ b/src/jsiTree.c
@@ -622,6 +622,7 @@ int Jsi_TreeEntryDelete (Jsi_TreeEntry *entryPtr)
                 *cd = *cs;
                 *cs = ct;
             }
+            n = pred;
         }
                 
         }
-- 
2.43.0


From c629679659ef4bdfa434b49b1c58b357bc7241b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:23 +0000
Subject: [PATCH 028/242] fix: a tree search lost its pending entries when it
 outgrew the static table

---
 src/jsiTree.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jsiTree.c b/src/jsiTree.c
index ccfc819..3d1bee2 100644
--- a/src/jsiTree.c
+++ b/src/jsiTree.c
@@ -646,7 +646,7 @@ static void searchSpace(Jsi_TreeSearch *searchPtr, int n)
     if ((searchPtr->top+n) >= searchPtr->max) {
         int i, cnt = (searchPtr->max *= 2);
         if (searchPtr->Ptrs == searchPtr->staticPtrs)
-            searchPtr->Ptrs = (Jsi_TreeEntry**)Jsi_Calloc(cnt, sizeof(Jsi_TreeEntry*));
+            searchPtr->Ptrs = (Jsi_TreeEntry**)memcpy(Jsi_Calloc(cnt, sizeof(Jsi_TreeEntry*)), searchPtr->staticPtrs, sizeof(searchPtr->staticPtrs));
         else
             searchPtr->Ptrs = (Jsi_TreeEntry**)Jsi_Realloc(searchPtr->Ptrs, cnt* sizeof(Jsi_TreeEntry*));
         for (i=0; i<cnt; i++)
-- 
2.43.0


From 3295789a51932f48bb2cc5404ae51709a2b3194e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:23 +0000
Subject: [PATCH 029/242] fix: a hash could not be used after Jsi_HashClear

---
 src/jsiHash.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/jsiHash.c b/src/jsiHash.c
index 6f09d95..20a430a 100644
--- a/src/jsiHash.c
+++ b/src/jsiHash.c
@@ -513,7 +513,14 @@ Jsi_HashClear(Jsi_Hash *tablePtr)
     
     if (tablePtr->buckets != tablePtr->staticBuckets) {
         Jsi_Free(tablePtr->buckets);
+        tablePtr->buckets = tablePtr->staticBuckets;
+        memset(tablePtr->staticBuckets, 0, sizeof(tablePtr->staticBuckets));
     }
+    tablePtr->numEntries = 0;
+    tablePtr->numBuckets = JSI_SMALL_HASH_TABLE;
+    tablePtr->rebuildSize = JSI_SMALL_HASH_TABLE * REBUILD_MULTIPLIER;
+    tablePtr->downShift = DOWNSHIFT_START;
+    tablePtr->mask = (jsi_Hash)(tablePtr->numBuckets - 1);
     if (tablePtr->opts.lockHashProc)
         (*tablePtr->opts.lockHashProc)(tablePtr, 0);
 }
-- 
2.43.0


From 608ac7921318213c1893104d31f62f65c5f6342b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:23 +0000
Subject: [PATCH 030/242] fix: entries of a hash with string-key keys were lost
 on delete and rebuild

---
 src/jsiHash.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jsiHash.c b/src/jsiHash.c
index 20a430a..96f3dc0 100644
--- a/src/jsiHash.c
+++ b/src/jsiHash.c
@@ -371,7 +371,7 @@ RebuildTable(Jsi_Hash *tablePtr)
     tablePtr->mask = tablePtr->numBuckets - 1;
 
  
-    if (tablePtr->keyType == JSI_KEYS_ONEWORD) {
+    if (tablePtr->keyType == JSI_KEYS_ONEWORD || tablePtr->keyType == JSI_KEYS_STRINGKEY) {
 
         for (oldChainPtr = oldBuckets; oldChainPtr < endPtr; oldChainPtr++) {
             for (hPtr = *oldChainPtr; hPtr != NULL; hPtr = nextPtr) {
@@ -459,7 +459,7 @@ Jsi_HashEntryDelete(Jsi_HashEntry *entryPtr)
 #endif
     if (tablePtr->opts.lockHashProc && (*tablePtr->opts.lockHashProc)(tablePtr, 1) != JSI_OK)
         return 0;
-    if (tablePtr->keyType == JSI_KEYS_ONEWORD) {
+    if (tablePtr->keyType == JSI_KEYS_ONEWORD || tablePtr->keyType == JSI_KEYS_STRINGKEY) {
         hindex = RANDOM_INDEX(tablePtr, (const void *)entryPtr->hval);
     } else {
         hindex = (entryPtr->hval & tablePtr->mask);
-- 
2.43.0


From 3283aa89974cde225107b52211b5674562efa070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:23 +0000
Subject: [PATCH 031/242] fix: deleting the only entry of a list left the list
 pointing at it

---
 src/jsiUtils.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jsiUtils.c b/src/jsiUtils.c
index a5dec5e..8f600b5 100644
--- a/src/jsiUtils.c
+++ b/src/jsiUtils.c
@@ -1595,7 +1595,7 @@ Jsi_ListEntry *Jsi_ListEntryNew(Jsi_List* list, const void *value, Jsi_ListEntry
 
 int Jsi_ListEntryDelete(Jsi_ListEntry *l) {
     SIGASSERT(l, LISTENTRY);
-    if (l->next || l->prev)
+    if (l->next || l->prev || l->list->head == l)
         Jsi_ListPop(l->list, l);
     Jsi_Free(l);
     return 1;
-- 
2.43.0


From 38ccdab4f8df4b70b2da050a59883cd13b47f18c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:23 +0000
Subject: [PATCH 032/242] fix: popping the first list entry left the next one
 pointing back at it

---
 src/jsiUtils.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/jsiUtils.c b/src/jsiUtils.c
index 8f600b5..48a748f 100644
--- a/src/jsiUtils.c
+++ b/src/jsiUtils.c
@@ -1566,8 +1566,10 @@ Jsi_ListEntry* Jsi_ListPop(Jsi_List *list, Jsi_ListEntry *item)
     if (item == list->head) {
         if (list->head == list->tail)
             list->head = list->tail = NULL;
-        else
+        else {
             list->head = list->head->next;
+            list->head->prev = NULL;
+        }
     }
     else if (item == list->tail) {
         list->tail = list->tail->prev;
-- 
2.43.0


From b50554f1a4893a92ab3dd5c6bec59901bf0257a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:23 +0000
Subject: [PATCH 033/242] fix: growing an empty dynamic string left it
 unterminated

---
 src/jsiDString.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jsiDString.c b/src/jsiDString.c
index 7335fe7..6c690da 100644
--- a/src/jsiDString.c
+++ b/src/jsiDString.c
@@ -207,7 +207,7 @@ uint Jsi_DSSetLength(Jsi_DString *dsPtr, uint length)
                 LogError("malloc failed %d", dsPtr->spaceAvl+1);
                 return -1;
             }
-            if (isStatic && dsPtr->len>0)
+            if (isStatic)
                 memcpy(newString, dsPtr->Str, (size_t) (dsPtr->len+1));
             dsPtr->strA = newString;
         }
-- 
2.43.0


From 9922135ff6e5ab83e87f4e8877af0a75bd5925a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:35 +0000
Subject: [PATCH 034/242] fix: Jsi_DSPrintf lost or cut what it formatted when
 that or the string was 8192 bytes or more

---
 src/jsiDString.c | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/jsiDString.c b/src/jsiDString.c
index 6c690da..ea2c388 100644
--- a/src/jsiDString.c
+++ b/src/jsiDString.c
@@ -159,28 +159,28 @@ Jsi_DSPrintf(Jsi_DString *dsPtr, const char *fmt, ...)
     }
     va_start(argList, fmt);
     n = vsnprintf(bPtr, bsiz, fmt, argList);
+    va_end(argList);
     if ((n+len)>JSI_MAX_ALLOC_BUF) {
         LogError("vsnprintf error: rc=%d, len=%d", n, len);
-        va_end(argList);
         return dstr;
     }
     if (n >= bsiz) {
         uint m = len+n+1;
-        if (Jsi_DSSetLength(dsPtr, m) < m) {
-            va_end(argList);
+        if (Jsi_DSSetLength(dsPtr, m) < m)
             return jsi_DSValue(dsPtr);
-        }
         dstr = jsi_DSValue(dsPtr);
-        m = vsnprintf(dstr+len, len+1, fmt, argList);
+        va_start(argList, fmt);
+        m = vsnprintf(dstr+len, n+1, fmt, argList);
+        va_end(argList);
         if (m != n) {
             LogError("len mismatch: %d != %d",  m, n);
-            va_end(argList);
             return dstr;
         }
+        dsPtr->len += n;
     } else if (needAppend) {
         Jsi_DSAppendLen(dsPtr, buf, n);
-    }
-    va_end(argList);
+    } else
+        dsPtr->len += n;
     return jsi_DSValue(dsPtr);
 }
 
-- 
2.43.0


From 1fbe0c5b72076af5ad336df5e5ba5a42ffc92540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:23 +0000
Subject: [PATCH 035/242] fix: a dynamic string initialized with a long string
 was taken to have room left

---
 src/jsiDString.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/jsiDString.c b/src/jsiDString.c
index ea2c388..4f8c110 100644
--- a/src/jsiDString.c
+++ b/src/jsiDString.c
@@ -38,8 +38,10 @@ static void jsi_DsDoInit(Jsi_DString *dsPtr) {
         if ((dsPtr->len = Jsi_Strlen(dsPtr->strA))<dsPtr->spaceAvl) {
             Jsi_Strcpy(dsPtr->Str, dsPtr->strA);
             dsPtr->strA = NULL;
-        } else
+        } else {
             dsPtr->strA = Jsi_Strdup(dsPtr->strA);
+            dsPtr->spaceAvl = dsPtr->len;
+        }
     } else 
         dsPtr->len = Jsi_Strlen(dsPtr->Str);
 }
-- 
2.43.0


From 5bf51532ee43ce9a125f49abfec9a48cf5fada32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:23 +0000
Subject: [PATCH 036/242] fix: Jsi_TreeClear rebalanced the tree it was taking
 apart and so lost entries

---
 src/jsiTree.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/jsiTree.c b/src/jsiTree.c
index 3d1bee2..dae3d2d 100644
--- a/src/jsiTree.c
+++ b/src/jsiTree.c
@@ -501,8 +501,11 @@ void Jsi_TreeClear (Jsi_Tree *treePtr)
     SIGASSERTV(treePtr, TREE);
     if (treePtr->opts.lockTreeProc && (*treePtr->opts.lockTreeProc)(treePtr, 1) != JSI_OK)
         return;
+    treePtr->flags.destroyed = 1;   /* Do not rebalance while taking it apart. */
     destroy_node(treePtr->opts.interp, treePtr->root);
+    treePtr->flags.destroyed = 0;
     treePtr->root = NULL;
+    treePtr->epoch++;
     if (treePtr->opts.lockTreeProc)
         (*treePtr->opts.lockTreeProc)(treePtr, 0);
 }
@@ -636,7 +639,7 @@ dodel:
     if (treePtr->opts.freeTreeProc && n && n->value)
         (treePtr->opts.freeTreeProc)(treePtr->opts.interp, n, n->value);
     Jsi_Free(n);
-    if (treePtr->opts.lockTreeProc)
+    if (cnt && treePtr->opts.lockTreeProc)
         (*treePtr->opts.lockTreeProc)(treePtr, 0);
     return cnt;
 }
-- 
2.43.0


From 486a4992bb87556501eae2a67cb975f090d90c9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:23 +0000
Subject: [PATCH 037/242] fix: dictionary order was not an order: B < _ and _ <
 a, but a < B

---
 src/jsiChar.c | 19 ++++---------------
 1 file changed, 4 insertions(+), 15 deletions(-)

diff --git a/src/jsiChar.c b/src/jsiChar.c
index 25457a0..70f4585 100644
--- a/src/jsiChar.c
+++ b/src/jsiChar.c
@@ -249,22 +249,11 @@ Jsi_DictionaryCompare( const char *left, const char *right)
     }
     diff = UCHAR(*left) - UCHAR(*right);
     if (diff) {
-      if (isupper(UCHAR(*left)) && islower(UCHAR(*right))) {
-        diff = UCHAR(tolower(*left)) - UCHAR(*right);
-        if (diff) {
-          return diff;
-        } else if (secondaryDiff == 0) {
-          secondaryDiff = -1;
-        }
-      } else if (isupper(UCHAR(*right)) && islower(UCHAR(*left))) {
-        diff = UCHAR(*left) - UCHAR(tolower(UCHAR(*right)));
-        if (diff) {
-          return diff;
-        } else if (secondaryDiff == 0) {
-          secondaryDiff = 1;
-        }
-      } else {
+      diff = tolower(UCHAR(*left)) - tolower(UCHAR(*right));
+      if (diff) {
         return diff;
+      } else if (secondaryDiff == 0) {
+        secondaryDiff = (isupper(UCHAR(*left)) ? -1 : 1);
       }
     }
     if (*left == 0) {
-- 
2.43.0


From dd14c8a575df68ab6511769b55158a5cab9c29ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:23 +0000
Subject: [PATCH 038/242] fix: string keys of a tree that differ in commas only
 were taken to be the same key

---
 src/jsiTree.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jsiTree.c b/src/jsiTree.c
index dae3d2d..1030cb8 100644
--- a/src/jsiTree.c
+++ b/src/jsiTree.c
@@ -264,8 +264,8 @@ static int StringPtrCompare(Jsi_Tree *treePtr, const void *key1, const void *key
 
 static int StringCompare(Jsi_Tree *treePtr, const void *key1, const void *key2)
 {
-    return Jsi_DictionaryCompare((char*)key1, (char*)key2);
-    //return Jsi_Strcmp((char*)key1, (char*)key2);
+    int rc = Jsi_DictionaryCompare((char*)key1, (char*)key2);
+    return (rc ? rc : Jsi_Strcmp((char*)key1, (char*)key2));
 }
 
 static int OneWordCompare(Jsi_Tree *treePtr, const void *key1, const void *key2)
-- 
2.43.0


From a67ad19def8b51cb206e846a1d1aa5d44c6396fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:54 +0000
Subject: [PATCH 039/242] fix: a tree search that outgrew the static table
 wrote through null pointers

---
 src/jsiTree.c | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/jsiTree.c b/src/jsiTree.c
index 1030cb8..3cee529 100644
--- a/src/jsiTree.c
+++ b/src/jsiTree.c
@@ -647,14 +647,11 @@ dodel:
 static void searchSpace(Jsi_TreeSearch *searchPtr, int n)
 {
     if ((searchPtr->top+n) >= searchPtr->max) {
-        int i, cnt = (searchPtr->max *= 2);
+        int cnt = (searchPtr->max *= 2);
         if (searchPtr->Ptrs == searchPtr->staticPtrs)
             searchPtr->Ptrs = (Jsi_TreeEntry**)memcpy(Jsi_Calloc(cnt, sizeof(Jsi_TreeEntry*)), searchPtr->staticPtrs, sizeof(searchPtr->staticPtrs));
         else
             searchPtr->Ptrs = (Jsi_TreeEntry**)Jsi_Realloc(searchPtr->Ptrs, cnt* sizeof(Jsi_TreeEntry*));
-        for (i=0; i<cnt; i++)
-            SIGINIT((searchPtr->Ptrs[i]),TREEENTRY);
-
     }
 }
 
-- 
2.43.0


From ce869a8bc30383150a63c9ef51e0e279a062293a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:50 +0000
Subject: [PATCH 040/242] fix: a substring that starts with a multibyte
 character came out with extra bytes

---
 src/jsiUtf8.c | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/jsiUtf8.c b/src/jsiUtf8.c
index 22a0d6b..69666cb 100644
--- a/src/jsiUtf8.c
+++ b/src/jsiUtf8.c
@@ -103,7 +103,7 @@ char* Jsi_UtfSubstr(const char *str, int bLen, int n, int len, Jsi_DString *dStr
     ustart = n;
     ulen = len;
 #else
-    int m, e, l;
+    int m, e;
     ulen = ustart = 0;
     m = Jsi_UtfIndexToOffset(str, n);
     if (m>=0) {
@@ -112,11 +112,9 @@ char* Jsi_UtfSubstr(const char *str, int bLen, int n, int len, Jsi_DString *dStr
             ulen = Jsi_Strlen(str+m);
         } else {
             e = Jsi_UtfIndexToOffset(str+m, len);
-            l = Jsi_NumUtfBytes(str[m]);
-            if (l<0) l = 1;
-            if (e>=0 && l>0) {
+            if (e>=0) {
                 ustart = m;
-                ulen = e+l-1;
+                ulen = e;
             }
         }
     }
-- 
2.43.0


From 16a415520032d9c1502f454dc77477e15a0458ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:50 +0000
Subject: [PATCH 041/242] fix: substr of an empty string with a negative start
 never returned

---
 src/jsiChar.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/jsiChar.c b/src/jsiChar.c
index 70f4585..29dc7f9 100644
--- a/src/jsiChar.c
+++ b/src/jsiChar.c
@@ -86,6 +86,7 @@ empty:
     
     if (alen<0)
         alen = Jsi_Strlen(a);
+    if (alen<=0) goto empty;
     while (start < 0) start += alen;
     if (start >= alen) goto empty;
     
-- 
2.43.0


From dd4abd7cfa0b8fe6b460bdc0b828d67520b41d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:50 +0000
Subject: [PATCH 042/242] fix: case conversion dropped a multibyte character at
 the end of a string

---
 src/jsiString.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jsiString.c b/src/jsiString.c
index c8bd24d..bf50999 100644
--- a/src/jsiString.c
+++ b/src/jsiString.c
@@ -401,7 +401,7 @@ char *jsi_utf_tocase(const char *cp, int blen, int upper, Jsi_DString *dsPtr)
             int32_t c;
             Jsi_UtfToUniChar(cp, &c);
             int n = Jsi_UniCharToUtf(c, unibuf);
-            if ((m+n)>=blen)
+            if ((m+n)>blen)
                 break;
             unibuf[n] = 0;
             cp += n;
-- 
2.43.0


From 8c9bca6db6dd4c41008d8f4a051a12193e4a3a4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:50 +0000
Subject: [PATCH 043/242] fix: String.slice counted bytes, not characters, and
 gave the last one for a start past the end

---
 src/jsiString.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/jsiString.c b/src/jsiString.c
index bf50999..80d2ba2 100644
--- a/src/jsiString.c
+++ b/src/jsiString.c
@@ -555,7 +555,7 @@ static Jsi_RC StringSliceCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_th
 
     Jsi_Value *start = Jsi_ValueArrayIndex(interp, args, skip);
     Jsi_Value *end = Jsi_ValueArrayIndex(interp, args, 1+skip);
-    int istart, iend, len = Jsi_Strlen(vstr);
+    int istart, iend, len = sLen;
 
     if (Jsi_GetIntFromValue(interp, start, &istart)) {
         return JSI_ERROR;
@@ -564,8 +564,8 @@ static Jsi_RC StringSliceCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_th
         istart = len+istart;
     if (istart < 0)
         istart = 0;
-    if (istart>=len)
-        istart = len-1;
+    if (istart>len)
+        istart = len;
     iend = len;
     if (end) {
         if (Jsi_GetIntFromValue(interp, end, &iend)) {
-- 
2.43.0


From 7119e1de5427598f5609c0db078d64584c48281a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:50 +0000
Subject: [PATCH 044/242] fix: indexOf, lastIndexOf and search gave byte
 offsets for strings that are indexed by character

---
 src/jsiString.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/jsiString.c b/src/jsiString.c
index 80d2ba2..d7c2939 100644
--- a/src/jsiString.c
+++ b/src/jsiString.c
@@ -249,7 +249,9 @@ static Jsi_RC StringIndexOfCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_
         if (istart < 0) istart = 0;
     }
 
-    int r = Jsi_Strpos(v, istart, vseq, 0);
+    int r = (istart>sLen ? -1 : Jsi_Strpos(v, Jsi_UtfIndexToOffset(v, istart), vseq, 0));
+    if (r>0)
+        r = Jsi_NumUtfChars(v, r);
     Jsi_ValueMakeNumber(interp, ret, r);
 
     return JSI_OK;
@@ -509,7 +511,9 @@ static Jsi_RC StringLastIndexOfCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Valu
         if (istart < 0) istart = 0;
     }
 
-    int r = Jsi_Strrpos(v, istart, vseq, 0);
+    int r = (istart>sLen ? -1 : Jsi_Strrpos(v, Jsi_UtfIndexToOffset(v, istart), vseq, 0));
+    if (r>0)
+        r = Jsi_NumUtfChars(v, r);
     Jsi_ValueMakeNumber(interp, ret, r);
 
     return JSI_OK;;
@@ -899,7 +903,7 @@ static Jsi_RC StringSearchCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_t
         char *ce, *cp = Jsi_ValueString(interp, seq, NULL);
         int n = -1;
         if ((ce = Jsi_Strstr(source_str, cp))) {
-            n = (ce-source_str);
+            n = Jsi_NumUtfChars(source_str, ce-source_str);
         }
         Jsi_ValueMakeNumber(interp, ret, n);
         return JSI_OK;
@@ -927,7 +931,7 @@ static Jsi_RC StringSearchCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_t
         }
 
     }
-    Jsi_ValueMakeNumber(interp, ret, (Jsi_Number)pos[0].rm_so);
+    Jsi_ValueMakeNumber(interp, ret, (Jsi_Number)Jsi_NumUtfChars(v, pos[0].rm_so));
     return JSI_OK;
 }
 
-- 
2.43.0


From 442ea947a1aee54d90a5e7aa81f24e4b1be6ddbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:50 +0000
Subject: [PATCH 045/242] fix: concat lost what follows a NUL character of the
 string it is applied to

---
 src/jsiString.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jsiString.c b/src/jsiString.c
index d7c2939..b25c326 100644
--- a/src/jsiString.c
+++ b/src/jsiString.c
@@ -527,7 +527,7 @@ static Jsi_RC StringConcatCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_t
     ChkString(_this, funcPtr, vstr, &sLen, &bLen);
     
     Jsi_DString dStr = {};
-    Jsi_DSAppend(&dStr, vstr, NULL);
+    Jsi_DSAppendLen(&dStr, vstr, bLen);
     int i, argc = Jsi_ValueGetLength(interp, args);
     for (i=skip; i<argc; i++)
     {
-- 
2.43.0


From d1bf4afecb54ee8947d10f89284c77e7a6554653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:50 +0000
Subject: [PATCH 046/242] fix: in String.replace $' was not what follows the
 match, and a $ at the end added a NUL

---
 src/jsiString.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jsiString.c b/src/jsiString.c
index b25c326..54b38cf 100644
--- a/src/jsiString.c
+++ b/src/jsiString.c
@@ -772,7 +772,7 @@ static Jsi_RC StringReplaceCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_
                 int idx;
                 int c = replace_str[j];
      
-                if (c == '$' && j < replace_len) {
+                if (c == '$' && j+1 < replace_len) {
                     c = replace_str[++j];
                     if ((c >= '0') && (c <= '9')) {
                         idx = c - '0';
@@ -783,7 +783,7 @@ static Jsi_RC StringReplaceCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_
                         continue;
                     }
                     else if (c == '\'') {
-                        Jsi_DSAppendLen(&dStr, p + pmatch[0].rm_eo, pmatch[0].rm_eo-Jsi_Strlen(p));
+                        Jsi_DSAppend(&dStr, p + pmatch[0].rm_eo, NULL);
                         continue;
                     }
                     else if (c == '`') {
-- 
2.43.0


From 1a916087a0a55812334c42b6f5132d274b4b5714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:08 +0000
Subject: [PATCH 047/242] fix: replace with the g flag stopped at an empty
 match and after the first match of a pattern starting with ^

---
 src/jsiString.c | 35 ++++++++++++++++++-----------------
 1 file changed, 18 insertions(+), 17 deletions(-)

diff --git a/src/jsiString.c b/src/jsiString.c
index 54b38cf..b8e3a00 100644
--- a/src/jsiString.c
+++ b/src/jsiString.c
@@ -807,8 +807,6 @@ static Jsi_RC StringReplaceCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_
         } else {
             Jsi_DString sStr;
             Jsi_DSInit(&sStr); 
-            if (pmatch[0].rm_so <= 0 && pmatch[0].rm_eo <= 0)
-                break;
             int olen = -1;
             char *ostr = jsi_SubstrDup(p, -1, pmatch[0].rm_so, pmatch[0].rm_eo - pmatch[0].rm_so, &olen);
             Jsi_Value *inStr = Jsi_ValueMakeBlob(interp, NULL, (uchar*)ostr, olen);
@@ -835,7 +833,7 @@ static Jsi_RC StringReplaceCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_
                         items[i] = Jsi_ValueMakeBlob(interp, NULL, (uchar*)ostr, olen);
                     }
                 }
-                items[i++] = Jsi_ValueMakeNumber(interp, NULL, eoffset+pmatch[0].rm_so);
+                items[i++] = Jsi_ValueMakeNumber(interp, NULL, Jsi_NumUtfChars(source_str, eoffset+pmatch[0].rm_so));
                 items[i++] = strVal;
                 vpargs = Jsi_ValueMakeObject(interp, NULL, Jsi_ObjNewArray(interp, items, i, 0));
                 Jsi_IncrRefCount(interp, vpargs);
@@ -858,25 +856,28 @@ static Jsi_RC StringReplaceCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_
         eoffset += pmatch[0].rm_eo;
         p += pmatch[0].rm_eo;
         n -= pmatch[0].rm_eo;
-        /* If -all is not specified, or there is no source left, we are done */
-        if (!isglob || n == 0 || pmatch[0].rm_eo == 0) {
-            break;
-        }
-        /* An anchored pattern without -line must be done */
-        if ((re->eflags & JSI_REG_NEWLINE) == 0 && re->pattern[0] == '^') {
+        /* If -all is not specified we are done */
+        if (!isglob)
             break;
-        }
         
-        /* If the pattern is empty, need to step forwards */
-        if (re->pattern[0] == '\0' && n) {
+        /* After an empty match, need to step forwards */
+        if (pmatch[0].rm_so == pmatch[0].rm_eo) {
+            if (n <= 0)
+                break;
             /* Need to copy the char we are moving over */
-            Jsi_DSAppendLen(&dStr, p, 1);
-            p++;
-            n--;
+            int32_t uc;
+            int clen = Jsi_UtfToUniChar(p, &uc);
+            Jsi_DSAppendLen(&dStr, p, clen);
+            p += clen;
+            n -= clen;
+            eoffset += clen;
         }
 
-        regexec_flags |= REG_NOTBOL;
-    } while (n);
+        if ((re->eflags & JSI_REG_NEWLINE) && p > source_str && p[-1] == '\n')
+            regexec_flags &= ~REG_NOTBOL;
+        else
+            regexec_flags |= REG_NOTBOL;
+    } while (n >= 0);
 
     /*
      * Copy the portion of the string after the last match to the
-- 
2.43.0


From d97802d264326efd1936bacfc34a9dead0a61639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:08 +0000
Subject: [PATCH 048/242] fix: exec and match lost groups that did not take
 part or equal the one before, and empty matches; exec with g ran on over
 later matches

---
 src/jsiRegexp.c | 41 ++++++++++++++++++++++++-----------------
 1 file changed, 24 insertions(+), 17 deletions(-)

diff --git a/src/jsiRegexp.c b/src/jsiRegexp.c
index 13db680..9f87ad1 100644
--- a/src/jsiRegexp.c
+++ b/src/jsiRegexp.c
@@ -256,32 +256,39 @@ Jsi_RC jsi_RegExpMatches(Jsi_Interp *interp, Jsi_Value *pattern, const char *str
         }
     
         int i;
-        for (i = 0; i < MAX_SUBREGEX; ++i) {
-            if (pos[i].rm_so <= 0 && pos[i].rm_eo <= 0)
-                break;
-            if (i && pos[i].rm_so == pos[i-1].rm_so && pos[i].rm_eo == pos[i-1].rm_eo)
-                continue;
-    
+        for (i = 0; i <= (int)reg->re_nsub && i < MAX_SUBREGEX; ++i) {
             int olen = -1;
-            char *ostr = jsi_SubstrDup(str, -1, pos[i].rm_so, pos[i].rm_eo - pos[i].rm_so, &olen);
-            Jsi_Value *val = Jsi_ValueMakeBlob(interp, NULL, (uchar*)ostr, olen);
-            if (ofs)
-                *ofs = pos[i].rm_eo;
+            Jsi_Value *val;
+            if (pos[i].rm_so < 0)
+                val = Jsi_ValueNewNull(interp);
+            else {
+                char *ostr = jsi_SubstrDup(str, -1, pos[i].rm_so, pos[i].rm_eo - pos[i].rm_so, &olen);
+                val = Jsi_ValueMakeBlob(interp, NULL, (uchar*)ostr, olen);
+            }
             Jsi_ValueInsertArray(interp, ret, num_matches, val, 0);
             num_matches++;
             if ( match && isglob)
                 break;
         }
-        if (num_matches && match && !isglob)
-            return JSI_OK;
-        if (num_matches == 1 && (ofs || !isglob))
+        if (ofs)
+            *ofs = pos[0].rm_eo;
+        if (ofs || !isglob)
             break;
         
+        const char *sp = str;
         str += pos[0].rm_eo;
-        n -= pos[0].rm_eo;
-
-        regexec_flags |= REG_NOTBOL;
-    } while (n && pos[0].rm_eo>0);
+        /* After an empty match, need to step forwards. */
+        if (pos[0].rm_so == pos[0].rm_eo) {
+            if (!*str)
+                break;
+            int32_t uc;
+            str += Jsi_UtfToUniChar(str, &uc);
+        }
+        if ((re->eflags & JSI_REG_NEWLINE) && str > sp && str[-1] == '\n')
+            regexec_flags &= ~REG_NOTBOL;
+        else
+            regexec_flags |= REG_NOTBOL;
+    } while (1);
     
     return JSI_OK;
 }
-- 
2.43.0


From 0071e79ddce153c378893c0b351ce7505627a6d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:54 +0000
Subject: [PATCH 049/242] fix: regular expressions of the same text shared
 their lastIndex

---
 src/jsiRegexp.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/jsiRegexp.c b/src/jsiRegexp.c
index 9f87ad1..c71dc8a 100644
--- a/src/jsiRegexp.c
+++ b/src/jsiRegexp.c
@@ -323,8 +323,9 @@ static Jsi_RC RegexpExecCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_thi
         l = Jsi_ValueObjLookup(interp, v, "lastIndex", 0);
         if (l && (Jsi_ValueGetNumber(interp, l, &lv) != JSI_OK || !Jsi_NumberIsNormal(lv))) 
             return Jsi_LogError("lastIndex not a number");
-        if (l)
-            re->lastIndex = (int)lv;
+        re->lastIndex = (int)lv;
+        if (re->lastIndex < 0)
+            re->lastIndex = 0;
     }
     int ofs = 0;
     Jsi_RC rc = jsi_RegExpMatches(interp, v, re->lastIndex<slen?str+re->lastIndex:"", -1, *ret, isglob?&ofs:NULL, 0);
-- 
2.43.0


From a1a5976e517db14402e8b5dd707d8206abd28dbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:54 +0000
Subject: [PATCH 050/242] fix: exec with g took lastIndex for a byte offset,
 let ^ match there, and matched past the end of the string

---
 src/jsiInt.h    |  2 +-
 src/jsiRegexp.c | 18 ++++++++++++++----
 src/jsiString.c |  2 +-
 3 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/jsiInt.h b/src/jsiInt.h
index 230e1d1..29c5f17 100644
--- a/src/jsiInt.h
+++ b/src/jsiInt.h
@@ -1544,7 +1544,7 @@ extern Jsi_RC jsi_CDataDataSetCmdSub(Jsi_Interp *interp, Jsi_Value *args, Jsi_Va
 extern Jsi_RC jsi_AliasInvoke(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this, Jsi_Value **ret, Jsi_Func *funcPtr);
 extern Jsi_Number jsi_VersionNormalize(Jsi_Number ver, char *obuf, size_t osiz);
 extern const char* jsi_FuncGetCode(Jsi_Interp *interp, Jsi_Func *func, int *lenPtr);
-extern Jsi_RC jsi_RegExpMatches(Jsi_Interp *interp, Jsi_Value *pattern, const char *str, int slen, Jsi_Value *ret, int *ofs, bool match);
+extern Jsi_RC jsi_RegExpMatches(Jsi_Interp *interp, Jsi_Value *pattern, const char *str, int slen, Jsi_Value *ret, int *ofs, bool match, int start);
 extern Jsi_RC Jsi_CleanValue(Jsi_Interp *interp, Jsi_Interp *tointerp, Jsi_Value *val, Jsi_Value **ret); //TODO: EXPORT
 extern void jsi_SysPutsCmdPrefix(Jsi_Interp *interp, jsi_LogOptions *popts,Jsi_DString *dStr, int* quote, const char **fnPtr);
 extern void jsi_DumpStackTrace(Jsi_Interp *interp);
diff --git a/src/jsiRegexp.c b/src/jsiRegexp.c
index c71dc8a..d43a4fe 100644
--- a/src/jsiRegexp.c
+++ b/src/jsiRegexp.c
@@ -213,7 +213,7 @@ Jsi_RC Jsi_RegExpMatch(Jsi_Interp *interp, Jsi_Value *pattern, const char *v, in
 
 
 
-Jsi_RC jsi_RegExpMatches(Jsi_Interp *interp, Jsi_Value *pattern, const char *str, int n, Jsi_Value *ret, int *ofs, bool match)
+Jsi_RC jsi_RegExpMatches(Jsi_Interp *interp, Jsi_Value *pattern, const char *str, int n, Jsi_Value *ret, int *ofs, bool match, int start)
 {
     Jsi_Regex *re;
     int regexec_flags = 0;
@@ -228,6 +228,11 @@ Jsi_RC jsi_RegExpMatches(Jsi_Interp *interp, Jsi_Value *pattern, const char *str
     
     regmatch_t pos[MAX_SUBREGEX] = {};
     int num_matches = 0, r;
+    if (start > 0) {
+        str += start;
+        if (!(re->eflags & JSI_REG_NEWLINE) || str[-1] != '\n')
+            regexec_flags |= REG_NOTBOL;
+    }
     int isglob = (re->eflags&JSI_REG_GLOB);
     Jsi_Obj *obj;
     
@@ -295,7 +300,7 @@ Jsi_RC jsi_RegExpMatches(Jsi_Interp *interp, Jsi_Value *pattern, const char *str
 
 Jsi_RC Jsi_RegExpMatches(Jsi_Interp *interp, Jsi_Value *pattern, const char *str, int slen, Jsi_Value *ret)
 {
-    return jsi_RegExpMatches(interp, pattern, str, slen, ret, NULL, 0);
+    return jsi_RegExpMatches(interp, pattern, str, slen, ret, NULL, 0, 0);
 }
 
 
@@ -328,11 +333,16 @@ static Jsi_RC RegexpExecCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_thi
             re->lastIndex = 0;
     }
     int ofs = 0;
-    Jsi_RC rc = jsi_RegExpMatches(interp, v, re->lastIndex<slen?str+re->lastIndex:"", -1, *ret, isglob?&ofs:NULL, 0);
+    Jsi_RC rc = JSI_OK;
+    int start = Jsi_UtfIndexToOffset(str, re->lastIndex);
+    if (re->lastIndex > (int)Jsi_NumUtfChars(str, slen))
+        Jsi_ValueMakeNull(interp, ret);
+    else
+        rc = jsi_RegExpMatches(interp, v, str, slen, *ret, isglob?&ofs:NULL, 0, start);
     if (isglob) {
         if (rc != JSI_OK)
             return rc;
-        re->lastIndex += ofs;
+        re->lastIndex += Jsi_NumUtfChars(str+start, ofs);
         if (Jsi_ValueIsNull(interp, *ret))
             re->lastIndex = 0;
         lv = (Jsi_Number)re->lastIndex;
diff --git a/src/jsiString.c b/src/jsiString.c
index b8e3a00..5fe090e 100644
--- a/src/jsiString.c
+++ b/src/jsiString.c
@@ -273,7 +273,7 @@ static Jsi_RC StringMatchCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_th
             return JSI_ERROR;
     }
     /* TODO: differentiate from re.exec() */
-    return jsi_RegExpMatches(interp, seq, v, bLen, *ret, NULL, 1);
+    return jsi_RegExpMatches(interp, seq, v, bLen, *ret, NULL, 1, 0);
 }
 
 static Jsi_RC StringFromCharCodeCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,
-- 
2.43.0


From f359f4581973e65f292edc9611fc2760324d5c5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:49 +0000
Subject: [PATCH 051/242] fix: replace of a string called its function with the
 whole string and not with the match

---
 src/jsiString.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jsiString.c b/src/jsiString.c
index 5fe090e..db36235 100644
--- a/src/jsiString.c
+++ b/src/jsiString.c
@@ -695,7 +695,7 @@ static Jsi_RC StringReplaceCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_
                 }
                 Jsi_DSAppendLen(&dStr, replace_str, replace_len);
             } else {
-                Jsi_Value *inStr = Jsi_ValueNewStringDup(interp, source_str);
+                Jsi_Value *inStr = Jsi_ValueNewStringDup(interp, cp);
                 Jsi_IncrRefCount(interp, inStr);
                 Jsi_RC rc = Jsi_FunctionInvokeString(interp, repVal, inStr, &dStr, _this);
                 if (Jsi_InterpGone(interp))
-- 
2.43.0


From bb052893f01497985ccc42d42daedc74330e57ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:28 +0000
Subject: [PATCH 052/242] fix: in a replacement $` left out what precedes the
 match before

---
 src/jsiString.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jsiString.c b/src/jsiString.c
index db36235..06141dd 100644
--- a/src/jsiString.c
+++ b/src/jsiString.c
@@ -787,7 +787,7 @@ static Jsi_RC StringReplaceCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_
                         continue;
                     }
                     else if (c == '`') {
-                        Jsi_DSAppendLen(&dStr, p, pmatch[0].rm_so);
+                        Jsi_DSAppendLen(&dStr, source_str, p - source_str + pmatch[0].rm_so);
                         continue;
                     }
                     else {
-- 
2.43.0


From 0ce9eaf3ab0b5a0678921c069a96021b47eaddf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:06 +0000
Subject: [PATCH 053/242] fix: parseInt of a string with a sign or leading
 space was NaN

---
 src/jsiValue.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jsiValue.c b/src/jsiValue.c
index dc06023..94b2b97 100644
--- a/src/jsiValue.c
+++ b/src/jsiValue.c
@@ -614,7 +614,7 @@ donum:
                 }
             } else {
                 a = (Jsi_Number)strtol(sptr, &endPtr, 0);
-                if (!isdigit(*sptr))
+                if (endPtr == sptr)
                     a = interp->NaNValue->d.num;
             }
             break;
-- 
2.43.0


From b601b8fdb19bb7b20f1b58d73b14cccde76a23d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:06 +0000
Subject: [PATCH 054/242] fix: parseInt with a base was 0 for a string that has
 no digits

---
 src/jsiCmds.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/jsiCmds.c b/src/jsiCmds.c
index 58061ec..6075348 100644
--- a/src/jsiCmds.c
+++ b/src/jsiCmds.c
@@ -576,6 +576,8 @@ static Jsi_RC parseIntCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,
         if (str == NULL || JSI_OK != Jsi_GetIntFromValue(interp, bv, &base) || base<2 || base>36)
             return JSI_ERROR;
         d = (Jsi_Number)strtoll(str, &eptr, base);
+        if (eptr == str)
+            goto nanval;
     }
     if (Jsi_NumberIsNaN(d) || (Jsi_NumberIsFinite(d)==0 && Jsi_GetDoubleFromValue(interp, v, &d) != JSI_OK))
 nanval:
-- 
2.43.0


From 0899051da38af4b8a76c40a7be5ef57ff15ec727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:06 +0000
Subject: [PATCH 055/242] fix: toFixed cut the digits of a large number off at
 100 characters

---
 src/jsiNumber.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/jsiNumber.c b/src/jsiNumber.c
index bbf9dac..2041382 100644
--- a/src/jsiNumber.c
+++ b/src/jsiNumber.c
@@ -122,7 +122,7 @@ static Jsi_RC NumberConstructor(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *
 static Jsi_RC NumberToFixedCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,
     Jsi_Value **ret, Jsi_Func *funcPtr)
 {
-    char buf[JSI_MAX_NUMBER_STRING+1];
+    char buf[JSI_MAX_NUMBER_STRING+DBL_MAX_10_EXP+10];
     int prec = 0, skip = 0;
     Jsi_Number num;
     Jsi_Value *v;
@@ -131,6 +131,7 @@ static Jsi_RC NumberToFixedCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_
     if (pa && Jsi_GetIntFromValue(interp, pa, &prec) != JSI_OK)
         return JSI_ERROR;
     if (prec<0) prec = 0;
+    if (prec>JSI_MAX_NUMBER_STRING) return Jsi_LogError("precision must be between 0 and %d", JSI_MAX_NUMBER_STRING);
     Jsi_GetDoubleFromValue(interp, v, &num);
     snprintf(buf, sizeof(buf), "%.*" JSI_NUMFFMT, prec, num);
     Jsi_ValueMakeStringDup(interp, ret, buf);
-- 
2.43.0


From fcef0969296ce22ed0d1a43050e704a971f7dbbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:06 +0000
Subject: [PATCH 056/242] fix: toExponential lost the exponent for a precision
 near 100

---
 src/jsiNumber.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/jsiNumber.c b/src/jsiNumber.c
index 2041382..6510d00 100644
--- a/src/jsiNumber.c
+++ b/src/jsiNumber.c
@@ -163,7 +163,7 @@ static Jsi_RC NumberToPrecisionCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Valu
 static Jsi_RC NumberToExponentialCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,
     Jsi_Value **ret, Jsi_Func *funcPtr)
 {
-    char buf[JSI_MAX_NUMBER_STRING+1];
+    char buf[JSI_MAX_NUMBER_STRING+20];
     int prec = 0, skip = 0;
     Jsi_Number num;
     Jsi_Value *v;
@@ -171,6 +171,7 @@ static Jsi_RC NumberToExponentialCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Va
     if (Jsi_GetIntFromValue(interp, Jsi_ValueArrayIndex(interp, args, skip), &prec) != JSI_OK)
         return JSI_ERROR;
     if (prec<0) prec = 0;
+    if (prec>JSI_MAX_NUMBER_STRING) return Jsi_LogError("precision must be between 0 and %d", JSI_MAX_NUMBER_STRING);
     Jsi_GetDoubleFromValue(interp, v, &num);
     snprintf(buf, sizeof(buf), "%.*" JSI_NUMEFMT, prec, num);
 #ifdef __WIN32
-- 
2.43.0


From 3e4747ac068ee91df19d1be580708f2f0e7faed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:06 +0000
Subject: [PATCH 057/242] fix: Math.pow was NaN where it overflows or is
 subnormal

---
 src/jsiMath.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jsiMath.c b/src/jsiMath.c
index 51d66c9..3181f24 100644
--- a/src/jsiMath.c
+++ b/src/jsiMath.c
@@ -30,7 +30,7 @@ static Jsi_RC fname (Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,\
     if (Jsi_GetNumberFromValue(interp, val2, &num2) != JSI_OK)\
         return JSI_ERROR;\
     num2 = func (num1,num2); \
-    Jsi_ValueMakeNumber(interp, ret, (Jsi_NumberIsNormal(num2)? num2 : NAN));\
+    Jsi_ValueMakeNumber(interp, ret, num2);\
     return JSI_OK;\
 }
 
-- 
2.43.0


From 3d17cda6a8eae272be90d7278a3165b7cf79109b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:06 +0000
Subject: [PATCH 058/242] fix: format counted bytes for the width and precision
 of %s, and could cut a character in two

---
 src/jsiFormat.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/jsiFormat.c b/src/jsiFormat.c
index 7dc4747..4e0d2d1 100644
--- a/src/jsiFormat.c
+++ b/src/jsiFormat.c
@@ -289,12 +289,13 @@ Jsi_RC Jsi_FormatString(Jsi_Interp *interp, Jsi_Value *args, Jsi_DString *dStr)
             }
 doprec:
             formatted_bytes = formatted_chars;
+            formatted_chars = Jsi_NumUtfChars(formatted_buf, formatted_bytes);
             if (gotPrecision && (precision < formatted_chars)) {
                 /* Need to build a (null terminated) truncated string */
                 Jsi_DSSetLength(&pStr, 0);
-                formatted_bytes = formatted_chars = precision;
-                formatted_buf = Jsi_DSAppendLen(&pStr, formatted_buf, precision);
-                //formatted_bytes = Jsi_UtfIndexToOffset(formatted_buf, precision);
+                formatted_chars = precision;
+                formatted_bytes = Jsi_UtfIndexToOffset(formatted_buf, precision);
+                formatted_buf = Jsi_DSAppendLen(&pStr, formatted_buf, formatted_bytes);
             }
             break;
         case 'c':
-- 
2.43.0


From bfb5d9fe1958c217668c630610fef796ebda47ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:45 +0000
Subject: [PATCH 059/242] fix: a subnormal number became the string "undefined"

---
 src/jsiValue.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jsiValue.c b/src/jsiValue.c
index 94b2b97..63c0ab3 100644
--- a/src/jsiValue.c
+++ b/src/jsiValue.c
@@ -467,7 +467,7 @@ char* Jsi_NumberToString(Jsi_Interp *interp, Jsi_Number d, char *buf, int bsiz)
 {
      if (Jsi_NumberIsInteger(d)) {
         Jsi_NumberItoA10((Jsi_Wide)d, buf, bsiz);
-    } else if (Jsi_NumberIsNormal(d)) {
+    } else if (Jsi_NumberIsNormal(d) || Jsi_NumberIsSubnormal(d)) {
         Jsi_NumberDtoA(interp, d, buf, bsiz, 0);
     } else if (Jsi_NumberIsNaN(d)) {
         Jsi_Strcpy(buf, "NaN");
@@ -513,7 +513,7 @@ fmtnum:
                 Jsi_NumberItoA10((Jsi_Wide)d, unibuf, sizeof(unibuf));
                 kflag = 0;
                 ntxt = unibuf;
-            } else if (Jsi_NumberIsNormal(d)) {
+            } else if (Jsi_NumberIsNormal(d) || Jsi_NumberIsSubnormal(d)) {
                 Jsi_NumberDtoA(interp, d, unibuf, sizeof(unibuf), 0);
                 kflag = 0;
                 ntxt = unibuf;
-- 
2.43.0


From 230362363c952f834d6cb28a8fd7659021861fcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:31 +0000
Subject: [PATCH 060/242] fix: format %q with a precision gave an empty text

---
 src/jsiFormat.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/jsiFormat.c b/src/jsiFormat.c
index 4e0d2d1..28e15a3 100644
--- a/src/jsiFormat.c
+++ b/src/jsiFormat.c
@@ -263,9 +263,9 @@ Jsi_RC Jsi_FormatString(Jsi_Interp *interp, Jsi_Value *args, Jsi_DString *dStr)
         case 'q': {
             v = Jsi_ValueArrayIndex(interp, args, argIndex);
             if (!Jsi_ValueIsString(interp, v)) {
-                Jsi_DSSetLength(&pStr, 0);
-                Jsi_ValueGetDString(interp,  v, &pStr, JSI_OUTPUT_JSON);
-                formatted_buf = Jsi_DSValue(&pStr);
+                Jsi_DSSetLength(&jStr, 0);
+                Jsi_ValueGetDString(interp,  v, &jStr, JSI_OUTPUT_JSON);
+                formatted_buf = Jsi_DSValue(&jStr);
                 formatted_chars = Jsi_Strlen(formatted_buf);
                 goto doprec;
             }
-- 
2.43.0


From 87fc7b7351fcde099563fed242305a2289b5603b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:38 +0000
Subject: [PATCH 061/242] fix: the sha3_256, sha3_384 and sha3_512 hashes were
 each other's

---
 src/jsiCrypto.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/jsiCrypto.c b/src/jsiCrypto.c
index 37c3807..d2feb3b 100644
--- a/src/jsiCrypto.c
+++ b/src/jsiCrypto.c
@@ -583,15 +583,15 @@ static void sha256_final(jsi_SHA256_CTX *ctx, uchar hash[])
 #define SHA3_224_DIGEST_LENGTH  28
 #define SHA3_224_CBLOCK        144
 
-#define SHA3_256                 1
+#define SHA3_256                 3
 #define SHA3_256_DIGEST_LENGTH  32
 #define SHA3_256_CBLOCK        136
 
-#define SHA3_384                 2
+#define SHA3_384                 1
 #define SHA3_384_DIGEST_LENGTH  48
 #define SHA3_384_CBLOCK        104
 
-#define SHA3_512                3
+#define SHA3_512                 2
 #define SHA3_512_DIGEST_LENGTH 64
 #define SHA3_512_CBLOCK        72
 
-- 
2.43.0


From 6f3cb0b4259e5ea4db28580f86ce71d1422fa9f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:38 +0000
Subject: [PATCH 062/242] fix: sha3 hashes shorter than 512 bits had garbage
 after them

---
 src/jsiCrypto.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jsiCrypto.c b/src/jsiCrypto.c
index d2feb3b..e5a7053 100644
--- a/src/jsiCrypto.c
+++ b/src/jsiCrypto.c
@@ -762,7 +762,7 @@ static int jsi_Sha3Digest(unsigned char *digest, const char *str, int len, int t
         len = Jsi_Strlen(str);
     SHA3_Update(&ctx, (unsigned char*)str, len);
     SHA3_Final(digest, &ctx);
-    return 64;
+    return (int)ctx.dgstlen;
 }
 #endif
 
-- 
2.43.0


From 0fcba3dff147ca1eca336bb7b72cd4b63591af43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:38 +0000
Subject: [PATCH 063/242] fix: sha3 of data longer than one block was wrong

---
 src/jsiCrypto.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/jsiCrypto.c b/src/jsiCrypto.c
index e5a7053..dcdd2c3 100644
--- a/src/jsiCrypto.c
+++ b/src/jsiCrypto.c
@@ -728,6 +728,7 @@ static void SHA3_Update (SHA3_CTX* ctx, void *in, size_t len) {
 
 static void SHA3_Final (void* dgst, SHA3_CTX* ctx)
 {
+  memset(ctx->blk + ctx->index, 0, ctx->blklen - ctx->index);
   // add 3 bits, Keccak uses 1
   // a lot of online implementations are using 1 instead of 6
   // since the NIST specifications haven't been finalized.
-- 
2.43.0


From 3c3160e699ff19d5358d5e17cd98e5b7d9e06dcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:32 +0000
Subject: [PATCH 064/242] fix: hexStr gave an empty string, or an error for
 every decode

---
 src/jsiUtils.c | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/jsiUtils.c b/src/jsiUtils.c
index 48a748f..600d0bd 100644
--- a/src/jsiUtils.c
+++ b/src/jsiUtils.c
@@ -2532,22 +2532,30 @@ void jsi_ToHexStr(const uchar *indata, int dlen, char *out) {
 static int jsi_FromHexStr(const char *in, uchar *outdata) {
     int n = 0;
     while (in[0] && in[1]) {
-        if (!isxdigit(in[0]) || isxdigit(in[0]))
+        if (!isxdigit((uchar)in[0]) || !isxdigit((uchar)in[1]))
             return -1;
         outdata[n++] = jsi_fromHexChar(in[0]) << 4 | jsi_fromHexChar(in[1]);
         in+=2;
     }
+    if (in[0])
+        return -1;
     return n;
 }
 
 
 int Jsi_HexStr(const uchar *data, int len, Jsi_DString *dStr, bool decode) {
     int olen = (decode?(len/2+1):(len*2+1));
-    Jsi_DSSetLength(dStr, olen);
-    if (!decode)
-        return jsi_FromHexStr((const char*)data, (uchar*)Jsi_DSValue(dStr));
-    jsi_ToHexStr((const uchar*)data, len, Jsi_DSValue(dStr));
-    return olen-1;
+    char *cp = (char*)Jsi_Malloc(olen);
+    if (decode)
+        olen = jsi_FromHexStr((const char*)data, (uchar*)cp);
+    else {
+        jsi_ToHexStr((const uchar*)data, len, cp);
+        olen--;
+    }
+    if (olen>0)
+        Jsi_DSAppendLen(dStr, cp, olen);
+    Jsi_Free(cp);
+    return olen;
 }
 #ifndef JSI_LITE_ONLY
 
-- 
2.43.0


From 098f76c103c0d6a6d0eb009434b323400ea1c04f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:32 +0000
Subject: [PATCH 065/242] fix: encodeURI and encodeURIComponent left % alone,
 so decoding changed it

---
 src/jsiCmds.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jsiCmds.c b/src/jsiCmds.c
index 6075348..c4cde22 100644
--- a/src/jsiCmds.c
+++ b/src/jsiCmds.c
@@ -1182,7 +1182,7 @@ static char *url_encode(char *str, bool comp) {
 
   char *pstr = str, *buf = (char*)Jsi_Malloc(Jsi_Strlen(str) * 3 + 1), *pbuf = buf;
   while (*pstr) {
-    if (isalnum(*pstr) || (!Jsi_Strchr(ncomps, *pstr) && (!comp || !Jsi_Strchr(comps, *pstr))))
+    if (isalnum(*pstr) || (*pstr != '%' && !Jsi_Strchr(ncomps, *pstr) && (!comp || !Jsi_Strchr(comps, *pstr))))
       *pbuf++ = *pstr;
     else if (*pstr == ' ') 
       *pbuf++ = '+';
-- 
2.43.0


From 8638970898dbd446061b713d9cd761129221d676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:20 +0000
Subject: [PATCH 066/242] fix: encrypt left data of 2 to 4 bytes in the clear

---
 src/jsiCrypto.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jsiCrypto.c b/src/jsiCrypto.c
index dcdd2c3..e013f2f 100644
--- a/src/jsiCrypto.c
+++ b/src/jsiCrypto.c
@@ -902,7 +902,7 @@ Jsi_RC Jsi_Encrypt(Jsi_Interp *interp, Jsi_DString *inout, const char *key, uint
         pad = (uint)buf[--nlen];
         Jsi_DSSetLength(inout, nlen);
     } else {
-        while (nlen%4) {
+        while (nlen%4 || nlen<8) { // XXTEA needs two words.
             Jsi_DSAppendLen(inout, "\0", 1);
             nlen++;
             pad++;
-- 
2.43.0


From 289159a527c76853fc112fefdb8a4a2f61c9f885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:51 +0000
Subject: [PATCH 067/242] fix: strptime overflowed a buffer on a run of signs

---
 src/jsiCmds.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jsiCmds.c b/src/jsiCmds.c
index c4cde22..e2993fa 100644
--- a/src/jsiCmds.c
+++ b/src/jsiCmds.c
@@ -2034,7 +2034,7 @@ Jsi_RC Jsi_DatetimeParse(Jsi_Interp *interp, const char *str, const char *fmt, i
             char ss[3];
             t = mktime(&tm);
             if (rv[0] == ' ') rv++;
-            if (rv[0] && sscanf(rv, "%[+-]%2d:%2d", ss, &th, &ts) == 3) {
+            if (rv[0] && sscanf(rv, "%1[+-]%2d:%2d", ss, &th, &ts) == 3) {
                 int sign = (rv[0] == '-' ? 1 : -1);
                 tofs = (3600*th+60*ts)*sign;
             }
-- 
2.43.0


From 8d86a088b51cbb4245c1f414f1925765035135f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:51 +0000
Subject: [PATCH 068/242] fix: strptime with utc was an hour off for times the
 local zone skips, and NaN one second before 1970

---
 src/jsiCmds.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/jsiCmds.c b/src/jsiCmds.c
index e2993fa..99fc412 100644
--- a/src/jsiCmds.c
+++ b/src/jsiCmds.c
@@ -2032,7 +2032,15 @@ Jsi_RC Jsi_DatetimeParse(Jsi_Interp *interp, const char *str, const char *fmt, i
         {
             int th, ts;
             char ss[3];
+            tm.tm_wday = -1;
+#ifdef __WIN32
             t = mktime(&tm);
+#else
+            if (isUtc) // The time may not exist in the local zone.
+                t = timegm(&tm);
+            else
+                t = mktime(&tm);
+#endif
             if (rv[0] == ' ') rv++;
             if (rv[0] && sscanf(rv, "%1[+-]%2d:%2d", ss, &th, &ts) == 3) {
                 int sign = (rv[0] == '-' ? 1 : -1);
@@ -2042,12 +2050,10 @@ Jsi_RC Jsi_DatetimeParse(Jsi_Interp *interp, const char *str, const char *fmt, i
 #ifdef __WIN32
                 time_t tt = 0;
                 tofs += (int)time(&tt);
-#else
-                tofs += tm.tm_gmtoff;
 #endif
             }
         }
-        if (t==-1) {
+        if (t==-1 && tm.tm_wday==-1) {
             rc = JSI_ERROR;
             if (!noMsg)
                 Jsi_LogError("mktime failed");
-- 
2.43.0


From d49d63b965bb170c4b952d38b73056b150133a44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:51 +0000
Subject: [PATCH 069/242] fix: strptime of a time without a date took its hour
 for the year

---
 src/jsiCmds.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/jsiCmds.c b/src/jsiCmds.c
index 99fc412..d3be069 100644
--- a/src/jsiCmds.c
+++ b/src/jsiCmds.c
@@ -2014,6 +2014,8 @@ Jsi_RC Jsi_DatetimeParse(Jsi_Interp *interp, const char *str, const char *fmt, i
     } else {
         if (fmt) j++;
         while (timeFmts[j]) {
+            memset(&tm, 0, sizeof(tm));
+            tm.tm_isdst = -1;
             rv = strptime(str, timeFmts[j], &tm);
             if (rv != NULL)
                 break;
-- 
2.43.0


From fdf0229545554ba2d06cae9b4386d3070a47088d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:51 +0000
Subject: [PATCH 070/242] fix: strptime took a fraction of more than three
 digits for milliseconds

---
 src/jsiCmds.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/jsiCmds.c b/src/jsiCmds.c
index d3be069..ff74ac4 100644
--- a/src/jsiCmds.c
+++ b/src/jsiCmds.c
@@ -2028,8 +2028,9 @@ Jsi_RC Jsi_DatetimeParse(Jsi_Interp *interp, const char *str, const char *fmt, i
             Jsi_LogError("datetime parse failed");
     } else {
         if (*rv == '.' && isdigit(rv[1]) && isdigit(rv[2]) && isdigit(rv[3])) {
-            ms = atof(rv+1);
+            ms = (rv[1]-'0')*100 + (rv[2]-'0')*10 + (rv[3]-'0');
             rv += 4;
+            while (isdigit(*rv)) rv++;
         }
         {
             int th, ts;
-- 
2.43.0


From 45c1c8c002c325c58403d669878aa93982bb4f02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:52 +0000
Subject: [PATCH 071/242] fix: strptime with %f in the format never matched

---
 src/jsiCmds.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jsiCmds.c b/src/jsiCmds.c
index ff74ac4..9587383 100644
--- a/src/jsiCmds.c
+++ b/src/jsiCmds.c
@@ -2007,7 +2007,7 @@ Jsi_RC Jsi_DatetimeParse(Jsi_Interp *interp, const char *str, const char *fmt, i
     if (fmt && fmt[0]) {
         const char *efp = Jsi_Strstr(fmt, "%f");
         if (efp && efp > fmt && efp[-1] != '%' && (Jsi_Strlen(fmt)+10)<(int)sizeof(fmt1)) {
-            snprintf(fmt1, sizeof(fmt1), "%.*s:%%S.", (int)(efp-fmt), fmt);
+            snprintf(fmt1, sizeof(fmt1), "%.*s", (int)(efp-fmt)-(efp[-1]=='.'), fmt);
             fmt = fmt1;
         }
         rv = strptime(str, fmt, &tm);
-- 
2.43.0


From 129216ccb827d51bf3ba27973f48b1d32e82b2a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:52 +0000
Subject: [PATCH 072/242] fix: strftime of a time before 1970 was a second late
 with negative milliseconds

---
 src/jsiCmds.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/jsiCmds.c b/src/jsiCmds.c
index 9587383..8fbd53a 100644
--- a/src/jsiCmds.c
+++ b/src/jsiCmds.c
@@ -9,6 +9,7 @@ char *strptime(const char *buf, const char *fmt, struct tm *tm);
 #include <sys/time.h>
 #include <signal.h>
 #include <limits.h>
+#include <math.h>
 #ifndef __WIN32
 #include <sys/wait.h>
 #endif
@@ -2075,7 +2076,7 @@ Jsi_RC Jsi_DatetimeFormat(Jsi_Interp *interp, Jsi_Number num, const char *fmt, i
     Jsi_RC rc = JSI_OK;
     fmt2[0] = 0;
     
-    tt = (time_t)(num/1000);
+    tt = (time_t)floor(num/1000);
     if (fmt==NULL)
         fmt = timeFmts[0];
     else if (*fmt == 0) {
@@ -2115,7 +2116,7 @@ Jsi_RC Jsi_DatetimeFormat(Jsi_Interp *interp, Jsi_Number num, const char *fmt, i
     else {
         Jsi_DSAppendLen(dStr, buf, -1);
         if (efp) {
-            snprintf(buf, sizeof(buf), "%3.3d", (int)(((Jsi_Wide)num)%1000));
+            snprintf(buf, sizeof(buf), "%3.3d", (int)((Jsi_Wide)floor(num)-(Jsi_Wide)tt*1000));
             Jsi_DSAppendLen(dStr, buf[1]=='.'?buf+2:buf, -1);
         }
     }
-- 
2.43.0


From 0db3b5884a317bc9e42466ea8b8583a68101a649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:06 +0000
Subject: [PATCH 073/242] fix: a timer due in the first millisecond of a second
 ran at once

---
 src/jsiCmds.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/jsiCmds.c b/src/jsiCmds.c
index 8fbd53a..f56dbd1 100644
--- a/src/jsiCmds.c
+++ b/src/jsiCmds.c
@@ -271,8 +271,7 @@ int Jsi_EventProcess(Jsi_Interp *interp, int maxEvents)
             break;
         case JSI_EVENT_TIMER:
             if (cur_sec <= evPtr->when_sec && (cur_sec != evPtr->when_sec || cur_ms < evPtr-> when_ms)) {
-                if (evPtr->when_sec && evPtr->when_ms)
-                    continue;
+                continue;
             }
             cnt++;
             evPtr->count++;
-- 
2.43.0


From bc95bdbbe9831ce78b21e5fbda806dc97a5ef1f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:06 +0000
Subject: [PATCH 074/242] fix: update returned up to a second early when the
 clock passed a full second

---
 src/jsiCmds.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jsiCmds.c b/src/jsiCmds.c
index f56dbd1..3dc7bf9 100644
--- a/src/jsiCmds.c
+++ b/src/jsiCmds.c
@@ -424,7 +424,7 @@ static Jsi_RC SysUpdateCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this
         if (cur_sec == start_sec)
             diftime = (long long)(cur_ms-start_ms);
         else
-            diftime = (cur_sec-start_sec)*1000LL + cur_ms + (1000-start_ms);
+            diftime = (cur_sec-start_sec)*1000LL + (cur_ms-start_ms);
         if (udata.minTime>0 && diftime >= (long long)udata.minTime)
             break;
         if (udata.maxPasses && ++lcnt >= udata.maxPasses)
-- 
2.43.0


From f5375adc0f1c2631a51ee020c6a76e3c76d2664b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:06 +0000
Subject: [PATCH 075/242] fix: update ignored its maxEvents option

---
 src/jsiCmds.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/jsiCmds.c b/src/jsiCmds.c
index 3dc7bf9..ae0dfe5 100644
--- a/src/jsiCmds.c
+++ b/src/jsiCmds.c
@@ -385,7 +385,7 @@ A positive mintime will result in sleeps between event checks.")
 static Jsi_RC SysUpdateCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,
     Jsi_Value **ret, Jsi_Func *funcPtr)
 {
-    int maxEvents = -1, hasopts = 0;
+    int hasopts = 0;
     int cnt = 0, lcnt = 0;
     Jsi_RC rc = JSI_OK;
     Jsi_Value *opts = Jsi_ValueArrayIndex(interp, args, 0);
@@ -394,6 +394,7 @@ static Jsi_RC SysUpdateCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this
     jsiGetTime(&start_sec, &start_ms);
     jsiUpdateData udata = {};
     udata.sleep = 1;
+    udata.maxEvents = -1;
        
     if (opts != NULL) {
         Jsi_Number dms = 0;
@@ -412,13 +413,13 @@ static Jsi_RC SysUpdateCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this
         long long diftime;
         if (!interp->EventHdlId && (interp->interpStrEvents || Jsi_DSLength(&interp->interpEvalQ)))
             jsi_AddEventHandler(interp); 
-        int ne = Jsi_EventProcess(interp, maxEvents);
+        int ne = Jsi_EventProcess(interp, udata.maxEvents<0 ? -1 : udata.maxEvents-cnt);
         if (ne<0)
             break;
         cnt += ne;
         if (Jsi_InterpGone(interp))
             return JSI_ERROR;
-        if (udata.minTime==0)
+        if (udata.minTime==0 || (udata.maxEvents>=0 && cnt>=udata.maxEvents))
             break;
         jsiGetTime(&cur_sec, &cur_ms);
         if (cur_sec == start_sec)
-- 
2.43.0


From 7b6a740f691314a9a1eea0c0c4ad479d3c467309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:06 +0000
Subject: [PATCH 076/242] fix: update counted timers whose callback was still
 running, and dropped their signals

---
 src/jsiCmds.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jsiCmds.c b/src/jsiCmds.c
index ae0dfe5..c9ee62b 100644
--- a/src/jsiCmds.c
+++ b/src/jsiCmds.c
@@ -261,6 +261,8 @@ int Jsi_EventProcess(Jsi_Interp *interp, int maxEvents)
         SIGASSERT(evPtr,EVENT);
         if ((int)evPtr->id > newIdx) /* Avoid infinite loop of event creating events. */
             continue;
+        if (evPtr->busy)
+            continue;
         switch (evPtr->evType) {
         case JSI_EVENT_SIGNAL:
 #ifndef JSI_OMIT_SIGNAL   /* TODO: win signals? */
@@ -281,8 +283,6 @@ int Jsi_EventProcess(Jsi_Interp *interp, int maxEvents)
         default:
             assert(0);
         }
-        if (evPtr->busy)
-            continue;
         evPtr->busy = 1;
         if (evPtr->handler) {
             rc = evPtr->handler(interp, evPtr->data);
-- 
2.43.0


From c2e2e853901cacd9f6325f309f253c69659f0388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:06 +0000
Subject: [PATCH 077/242] fix: a timer cleared by a callback was used after it
 was freed, and timers could be skipped in a pass

---
 src/jsiCmds.c | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/src/jsiCmds.c b/src/jsiCmds.c
index c9ee62b..21a3f5d 100644
--- a/src/jsiCmds.c
+++ b/src/jsiCmds.c
@@ -253,10 +253,16 @@ int Jsi_EventProcess(Jsi_Interp *interp, int maxEvents)
     /*if (Jsi_MutexLock(interp, interp->Mutex) != JSI_OK)
         return JSI_ERROR;*/
 
+    /* Callbacks may add and remove events, so do not walk the table while calling them. */
+    uint i, num = 0;
+    uintptr_t *ids = (uintptr_t*)Jsi_Calloc(Jsi_HashSize(interp->eventTbl)+1, sizeof(*ids));
     for (hPtr = Jsi_HashSearchFirst(interp->eventTbl, &search);
-            hPtr != NULL; hPtr = Jsi_HashSearchNext(&search)) {
+            hPtr != NULL; hPtr = Jsi_HashSearchNext(&search))
+        ids[num++] = (uintptr_t)Jsi_HashKeyGet(hPtr);
 
-        if (!(evPtr = (Jsi_Event*)Jsi_HashValueGet(hPtr)))
+    for (i = 0; i<num; i++) {
+        hPtr = Jsi_HashEntryFind(interp->eventTbl, (void*)ids[i]);
+        if (!hPtr || !(evPtr = (Jsi_Event*)Jsi_HashValueGet(hPtr)))
             continue;
         SIGASSERT(evPtr,EVENT);
         if ((int)evPtr->id > newIdx) /* Avoid infinite loop of event creating events. */
@@ -293,9 +299,11 @@ int Jsi_EventProcess(Jsi_Interp *interp, int maxEvents)
             }
             if (!nret)
                 nret = Jsi_ValueNew1(interp);
-            rc = Jsi_FunctionInvoke(interp, evPtr->funcVal, vpargs, &nret, NULL);
+            Jsi_Value *funcVal = evPtr->funcVal;
+            Jsi_IncrRefCount(interp, funcVal);
+            rc = Jsi_FunctionInvoke(interp, funcVal, vpargs, &nret, NULL);
+            Jsi_DecrRefCount(interp, funcVal);
         }
-        evPtr->busy = 0;
         if (interp->deleting) {
             cnt = -1;
             goto bail;
@@ -307,9 +315,13 @@ int Jsi_EventProcess(Jsi_Interp *interp, int maxEvents)
             }
             Jsi_LogError("event function call failure");
         }
-        if (evPtr->once) {
+        hPtr = Jsi_HashEntryFind(interp->eventTbl, (void*)ids[i]);
+        if (!hPtr || Jsi_HashValueGet(hPtr) != evPtr) {
+            /* Was removed by the callback. */
+        } else if (evPtr->once) {
             Jsi_EventFree(interp, evPtr);
         } else {
+            evPtr->busy = 0;
             evPtr->when_sec = cur_sec + evPtr->initialms / 1000;
             evPtr->when_ms = cur_ms + evPtr->initialms % 1000;
             if (evPtr->when_ms >= 1000) {
@@ -321,6 +333,7 @@ int Jsi_EventProcess(Jsi_Interp *interp, int maxEvents)
             break;
     }
 bail:
+    Jsi_Free(ids);
     if (vpargs)
         Jsi_DecrRefCount(interp, vpargs);
     if (nret)
-- 
2.43.0


From af798cf32af104b31c0bb25735c6221510726798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:22 +0000
Subject: [PATCH 078/242] fix: signal names with both - and SIG were not known

---
 src/jsiSignal.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jsiSignal.c b/src/jsiSignal.c
index 5396908..04b72af 100644
--- a/src/jsiSignal.c
+++ b/src/jsiSignal.c
@@ -103,7 +103,7 @@ static int find_signal_by_name(Jsi_Interp *interp, const char *name)
     if (*pt == '-') {
         pt++;
     }
-    if (Jsi_Strncasecmp(name, "sig", 3) == 0) {
+    if (Jsi_Strncasecmp(pt, "sig", 3) == 0) {
         pt += 3;
     }
     if (isdigit(UCHAR(pt[0]))) {
-- 
2.43.0


From 05ba901d5b0f9169a756a580a9d5982e3cb5d5cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:22 +0000
Subject: [PATCH 079/242] fix: the text "nown signal" was taken for a signal
 name

---
 src/jsiSignal.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/jsiSignal.c b/src/jsiSignal.c
index 04b72af..671717e 100644
--- a/src/jsiSignal.c
+++ b/src/jsiSignal.c
@@ -117,7 +117,8 @@ static int find_signal_by_name(Jsi_Interp *interp, const char *name)
             /* Jsi_SignalId() returns names such as SIGINT, and
              * returns "unknown signal id" if unknown, so this will work
              */
-            if (Jsi_Strncasecmp(Jsi_SignalName(i) + 3, pt, -1) == 0) {
+            const char *id = Jsi_SignalId(i);
+            if (id && Jsi_Strncasecmp(id + 3, pt, -1) == 0) {
                 return i;
             }
         }
-- 
2.43.0


From 99fae872d531e578bf393b8c764412db83107ccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:22 +0000
Subject: [PATCH 080/242] fix: a signal that can not be handled, such as KILL,
 was listed as handled

---
 src/jsiSignal.c | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/src/jsiSignal.c b/src/jsiSignal.c
index 671717e..7246e28 100644
--- a/src/jsiSignal.c
+++ b/src/jsiSignal.c
@@ -135,7 +135,7 @@ bool jsi_SignalIsSet(Jsi_Interp *interp, int sigNum) {
     return (((*sigloc) & sig_to_bit(sigNum)) != 0);
 }
 
-static void jsi_SignalSet(Jsi_Interp *interp, int sig) {
+static Jsi_RC jsi_SignalSet(Jsi_Interp *interp, int sig) {
     struct sigaction sa;
 
     sa.sa_flags = 0;
@@ -143,16 +143,19 @@ static void jsi_SignalSet(Jsi_Interp *interp, int sig) {
     sa.sa_handler = signal_handler;
 
     if (SIGNAL_ACTION_HANDLE != signal_handling[sig]) {
-
+        int rc;
         if (signal_handling[sig] == SIGNAL_ACTION_DEFAULT) {
             saOldPtr[sig] = &saOld[sig];
-            sigaction(sig, &sa, saOldPtr[sig]);
+            rc = sigaction(sig, &sa, saOldPtr[sig]);
         }
         else {
-            sigaction(sig, &sa, 0);
+            rc = sigaction(sig, &sa, 0);
         }
+        if (rc != 0)
+            return Jsi_LogError("can not handle signal: %d", sig);
         signal_handling[sig] = SIGNAL_ACTION_HANDLE;
     }
+    return JSI_OK;
 }
 
 static Jsi_RC SignalSub(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,
@@ -160,7 +163,7 @@ static Jsi_RC SignalSub(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,
 {
 
     struct sigaction sa;
-    int i, argc = Jsi_ValueGetLength(interp, args);
+    int i, rc = 0, argc = Jsi_ValueGetLength(interp, args);
     
     if (&interp->sigmask != sigloc) {
         Jsi_LogWarn("not primary interp");
@@ -206,17 +209,19 @@ static Jsi_RC SignalSub(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,
                 case SIGNAL_ACTION_IGNORE:
                     if (signal_handling[sig] == SIGNAL_ACTION_DEFAULT) {
                         saOldPtr[sig] = &saOld[sig];
-                        sigaction(sig, &sa, saOldPtr[sig]);
+                        rc = sigaction(sig, &sa, saOldPtr[sig]);
                     }
                     else {
-                        sigaction(sig, &sa, 0);
+                        rc = sigaction(sig, &sa, 0);
                     }
                     break;
 
                 case SIGNAL_ACTION_DEFAULT:
                     /* Restore old handler */
-                    sigaction(sig, saOldPtr[sig], NULL);
+                    rc = sigaction(sig, saOldPtr[sig], NULL);
             }
+            if (rc != 0)
+                return Jsi_LogError("can not change signal: %s", sstr);
             signal_handling[sig] = action;
         }
     }
@@ -324,6 +329,8 @@ static Jsi_RC SignalCallbackCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *
     }
     if (sigNum < 0 || sigNum >= MAX_SIGNALS) 
         return Jsi_LogError("unknown signal: %d", sigNum);
+    if (jsi_SignalSet(interp, sigNum) != JSI_OK)
+        return JSI_ERROR;
     while (1) {
         id = interp->eventIdx++;
         Jsi_HashEntry *hPtr = Jsi_HashEntryNew(interp->eventTbl, (void*)id, &isNew);
@@ -340,7 +347,6 @@ static Jsi_RC SignalCallbackCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *
         Jsi_HashValueSet(hPtr, ev);
         break;
     }
-    jsi_SignalSet(interp, sigNum);
     Jsi_ValueMakeNumber(interp, ret, (Jsi_Number)id);
     return JSI_OK;
 }
-- 
2.43.0


From f43b7e9645005d166f5436efcd9387d63506b504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:12 +0000
Subject: [PATCH 081/242] fix: a signal that came while another one was being
 cleared was lost

---
 src/jsiSignal.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jsiSignal.c b/src/jsiSignal.c
index 7246e28..4962d5b 100644
--- a/src/jsiSignal.c
+++ b/src/jsiSignal.c
@@ -26,7 +26,7 @@ static void signal_handler(int sig)
     /* We just remember which signals occurred. Jsi_Eval() will
      * notice this as soon as it can and throw an error
      */
-    *sigloc |= sig_to_bit(sig);
+    __sync_fetch_and_or(sigloc, sig_to_bit(sig));
 }
 
 static void signal_ignorer(int sig)
@@ -128,7 +128,7 @@ static int find_signal_by_name(Jsi_Interp *interp, const char *name)
 
 void jsi_SignalClear(Jsi_Interp *interp, int sigNum) {
     Jsi_Wide nsig = sig_to_bit(sigNum);
-    (*sigloc) &= ~nsig;
+    __sync_fetch_and_and(sigloc, ~nsig); /* A signal handler may change other bits now. */
 }
 
 bool jsi_SignalIsSet(Jsi_Interp *interp, int sigNum) {
-- 
2.43.0


From a8ba5be269dd1dca8af42e54f04c619f2be5bbb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:30 +0000
Subject: [PATCH 082/242] fix: Sqlite query/onecolumn/exists crashed on blank
 or comment text after the last statement

---
 src/jsiSqlite.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/jsiSqlite.c b/src/jsiSqlite.c
index 395ec53..9572ae4 100644
--- a/src/jsiSqlite.c
+++ b/src/jsiSqlite.c
@@ -782,6 +782,7 @@ static Jsi_RC dbEvalStep(DbEvalContext *p) {
         if( p->pPreStmt==0 ) {
             rc = dbPrepareAndBind(p->db, p->zSql, &p->zSql, &p->pPreStmt);
             if( rc!=JSI_OK ) return rc;
+            if( p->pPreStmt==0 ) continue; /* White space or a comment. */
         }
         rc = dbEvalStepSub(p, 1, NULL);
         if (rc != JSI_BREAK)
@@ -987,6 +988,8 @@ static Jsi_RC dbPrepareAndBind(
 ) {
     if (dbPrepareStmt(db, zIn, pzOut, ppPreStmt) != JSI_OK)
         return JSI_ERROR;
+    if (!*ppPreStmt)
+        return JSI_OK;
     return dbBindStmt(db, *ppPreStmt);
 }
 #endif
-- 
2.43.0


From dfbc81a95b24b241f79793be9bc0bff3d7e46461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:30 +0000
Subject: [PATCH 083/242] fix: Sqlite running a query inside the callback of
 the same query aborted

---
 src/jsiSqlite.c | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/jsiSqlite.c b/src/jsiSqlite.c
index 9572ae4..e3e39ef 100644
--- a/src/jsiSqlite.c
+++ b/src/jsiSqlite.c
@@ -156,7 +156,7 @@ struct SqlCollate {
 typedef struct SqlPreparedStmt SqlPreparedStmt;
 struct SqlPreparedStmt {
     Sqlite_Sig sig;
-    int deleting;
+    int deleting, inUse;
     SqlPreparedStmt *pNext;  /* Next in linked list */
     SqlPreparedStmt *pPrev;  /* Previous on the list */
     sqlite3_stmt    *pStmt;  /* The prepared statement */
@@ -619,7 +619,8 @@ static void dbReleaseStmt(
     }*/
     //pPreStmt->nParm = 0;
 
-    if( db->stmtCacheMax<=0 || discard ) {
+    pPreStmt->inUse = 0;
+    if( db->stmtCacheMax<=0 || discard || !pPreStmt->entry ) {
         /* If the cache is turned off, deallocated the statement */
         dbPrepStmtFree(db, pPreStmt);
     } else {
@@ -694,7 +695,10 @@ static Jsi_RC dbPrepareStmt(
     }
     //nSql = Jsi_Strlen(zSql);
     Jsi_HashEntry *entry = Jsi_HashEntryFind(db->stmtHash, zSql);
-    if (entry && ((pPreStmt = (SqlPreparedStmt*)Jsi_HashValueGet(entry)))) {
+    /* A statement that an outer query is stepping can not be shared. */
+    if (entry && ((pPreStmt = (SqlPreparedStmt*)Jsi_HashValueGet(entry))) && pPreStmt->inUse)
+        pPreStmt = 0;
+    if (pPreStmt) {
         
         if (db->debug & TMODE_PREPARE)
             JSI_DBQUERY_PRINTF( "DEBUG: prepare cache-hit: %s\n", zSql);
@@ -747,16 +751,18 @@ static Jsi_RC dbPrepareStmt(
         pPreStmt->nSql = (*pzOut - zSql);
         pPreStmt->zSql = sqlite3_sql(pStmt);
         bool isNew = 0;
-        pPreStmt->entry = Jsi_HashEntryNew(db->stmtHash, zSql, &isNew);
-        if (!isNew)
-            JSI_DBQUERY_PRINTF( "sqlite dup stmt entry");
-        Jsi_HashValueSet(pPreStmt->entry, pPreStmt);
+        Jsi_HashEntry *hPtr = Jsi_HashEntryNew(db->stmtHash, zSql, &isNew);
+        if (isNew) {
+            pPreStmt->entry = hPtr;
+            Jsi_HashValueSet(hPtr, pPreStmt);
+        }
             
         //pPreStmt->apParm = (Jsi_Value **)&pPreStmt[1];
     }
     assert( pPreStmt );
     assert( Jsi_Strlen(pPreStmt->zSql)==pPreStmt->nSql );
     assert( 0==memcmp(pPreStmt->zSql, zSql, pPreStmt->nSql) );
+    pPreStmt->inUse = 1;
     *ppPreStmt = pPreStmt;
     //pPreStmt->nParm = iParm; 
     return rc;
-- 
2.43.0


From 0f3d7f1148940cd6ca68431effc0deb457887f5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:30 +0000
Subject: [PATCH 084/242] fix: Sqlite bind: the type of one parameter was
 applied to the ones after it

---
 src/jsiSqlite.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/jsiSqlite.c b/src/jsiSqlite.c
index e3e39ef..6a203d0 100644
--- a/src/jsiSqlite.c
+++ b/src/jsiSqlite.c
@@ -803,7 +803,7 @@ static Jsi_RC dbBindStmt(Jsi_Db *db, SqlPreparedStmt *prep)
 {
     sqlite3_stmt *pStmt = prep->pStmt;    /* Object used to cache statement */
     Jsi_Interp *interp = db->interp;
-    int i, btype = 0, bindArr=0, n;
+    int i, btype, bindArr, n;
     Jsi_RC rc = JSI_OK;
     Jsi_Number r;
     Jsi_Wide wv;
@@ -815,6 +815,7 @@ static Jsi_RC dbBindStmt(Jsi_Db *db, SqlPreparedStmt *prep)
    /* Bind values to parameters that begin with @, $, :, or ? */
     for(i=1; i<=nVar; i++) {
         tname[0] = 0;
+        btype = bindArr = 0;
         int isInt = 0, isBlob = 0;
         const char *zVar = sqlite3_bind_parameter_name(pStmt, i);
         if (zVar == NULL) {
-- 
2.43.0


From 95dbced48fe9a9fd85c19724e23a0ddf75dfbcde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:30 +0000
Subject: [PATCH 085/242] fix: Sqlite bind: error for a missing array element
 named the wrong element

---
 src/jsiSqlite.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jsiSqlite.c b/src/jsiSqlite.c
index 6a203d0..8ab7051 100644
--- a/src/jsiSqlite.c
+++ b/src/jsiSqlite.c
@@ -822,7 +822,7 @@ static Jsi_RC dbBindStmt(Jsi_Db *db, SqlPreparedStmt *prep)
             if (!db->optPtr || !(apv=db->optPtr->values)) 
                 return Jsi_LogErrorExt("? bind without values for param %d", i);
             if (!(pv =Jsi_ValueArrayIndex(interp, apv, i-1))) 
-                return Jsi_LogErrorExt("array element %d missing", nVar);
+                return Jsi_LogErrorExt("array element %d missing", i-1);
         }
         else if((zVar[0]=='$' || zVar[0]==':' || zVar[0]=='@') ) {
             int zvLen = Jsi_Strlen(zVar);
-- 
2.43.0


From a70930cee737ed74cbd460118aa6f943f001cd85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:30 +0000
Subject: [PATCH 086/242] fix: Sqlite bind: with bindWarn an unknown parameter
 kept the value of an earlier query

---
 src/jsiSqlite.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/jsiSqlite.c b/src/jsiSqlite.c
index 8ab7051..4508377 100644
--- a/src/jsiSqlite.c
+++ b/src/jsiSqlite.c
@@ -812,6 +812,7 @@ static Jsi_RC dbBindStmt(Jsi_Db *db, SqlPreparedStmt *prep)
     int nVar = sqlite3_bind_parameter_count(pStmt);
     char tname[50];
     
+    sqlite3_clear_bindings(pStmt);
    /* Bind values to parameters that begin with @, $, :, or ? */
     for(i=1; i<=nVar; i++) {
         tname[0] = 0;
-- 
2.43.0


From 9fd3d34ca4cfdc030caa083a968077606141a6bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:30 +0000
Subject: [PATCH 087/242] fix: Sqlite query option mapundef was ignored

---
 src/jsiSqlite.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jsiSqlite.c b/src/jsiSqlite.c
index 4508377..0221931 100644
--- a/src/jsiSqlite.c
+++ b/src/jsiSqlite.c
@@ -953,7 +953,7 @@ static Jsi_RC dbBindStmt(Jsi_Db *db, SqlPreparedStmt *prep)
                     sqlite3_bind_int64(pStmt, i,wv);
                 else
                     sqlite3_bind_double(pStmt, i,(double)r);
-            } else if (Jsi_ValueIsNull(interp, pv) || (Jsi_ValueIsUndef(interp, pv) && db->queryOpts.mapundef)) {
+            } else if (Jsi_ValueIsNull(interp, pv) || (Jsi_ValueIsUndef(interp, pv) && db->optPtr->mapundef)) {
                 sqlite3_bind_null(pStmt, i);
             } else if (Jsi_ValueIsString(interp, pv)) {
                 const char *sstr = Jsi_ValueGetStringLen(interp, pv, &n);
-- 
2.43.0


From cc4635380106c7019fd541899fbbb33b76886661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:30 +0000
Subject: [PATCH 088/242] fix: Sqlite bind: typeCheck rejected a bool for type
 bool, and used types when disabled

---
 src/jsiSqlite.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jsiSqlite.c b/src/jsiSqlite.c
index 0221931..58a07db 100644
--- a/src/jsiSqlite.c
+++ b/src/jsiSqlite.c
@@ -893,7 +893,7 @@ static Jsi_RC dbBindStmt(Jsi_Db *db, SqlPreparedStmt *prep)
                 Jsi_LogWarnExt("unknown bind param: %s", zVar);
         } else {
             int match = 1, cast = (db->optPtr->typeCheck==dbTypeCheck_Cast);
-            if (btype && !Jsi_ValueIsUndef(interp, pv)) {
+            if (btype && db->optPtr->typeCheck != dbTypeCheck_None && !Jsi_ValueIsUndef(interp, pv)) {
                 switch (btype) {
                     case JSI_OPTION_STRBUF:
                         isBlob = 1;
@@ -923,7 +923,7 @@ static Jsi_RC dbBindStmt(Jsi_Db *db, SqlPreparedStmt *prep)
                         if (cast)
                             Jsi_ValueToBool(interp, pv);
                         else
-                            match = Jsi_ValueIsNumber(interp, pv);
+                            match = Jsi_ValueIsBoolean(interp, pv);
                         break;
                     case JSI_OPTION_TIME_D:
                         if (cast)
-- 
2.43.0


From 5949ee8f51a312b5e9eec4710e77221fe2106a4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:30 +0000
Subject: [PATCH 089/242] fix: Sqlite query ignored an exception thrown by its
 callback

---
 src/jsiSqlite.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/jsiSqlite.c b/src/jsiSqlite.c
index 58a07db..2f9af6a 100644
--- a/src/jsiSqlite.c
+++ b/src/jsiSqlite.c
@@ -1954,10 +1954,12 @@ static Jsi_RC dbEvalCallCmd( DbEvalContext *p, Jsi_Interp *interp, Jsi_RC result
             Jsi_ObjInsert(interp, argso, apColName[i], nnv, 0);
         }
         Jsi_IncrRefCount(interp, varg1);
-        bool rb = Jsi_FunctionInvokeBool(interp, p->tocall, varg1, NULL);
+        int rb = Jsi_FunctionInvokeBool(interp, p->tocall, varg1, NULL);
         Jsi_DecrRefCount(interp, varg1);
         if (Jsi_InterpGone(interp))
             return JSI_ERROR;
+        if (rb == 2) /* Exception in callback. */
+            return JSI_ERROR;
         if (rb)
             break;
     }
-- 
2.43.0


From e1ce57b538c1b7c328c8addc71f97861be92aa8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:30 +0000
Subject: [PATCH 090/242] fix: Sqlite transaction: the type argument could not
 be used

---
 src/jsiSqlite.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/jsiSqlite.c b/src/jsiSqlite.c
index 2f9af6a..1009e30 100644
--- a/src/jsiSqlite.c
+++ b/src/jsiSqlite.c
@@ -3411,14 +3411,13 @@ static Jsi_RC SqliteTransactionCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Valu
     int rc;
     Jsi_Db *db;
 
-    int argc = Jsi_ValueGetLength(interp, args);
     if (!(db = dbGetDbHandle(interp, _this, funcPtr))) return JSI_ERROR;
 
+    Jsi_Value *arg = Jsi_ValueArrayIndex(interp, args, 1);
     Jsi_Value *pScript;
     const char *zBegin = "SAVEPOINT _jsi_transaction";
 
-    if( db->nTransaction==0 && argc==2 ) {
-        Jsi_Value *arg = Jsi_ValueArrayIndex(interp, args, 0);
+    if( db->nTransaction==0 && arg && !Jsi_ValueIsUndef(interp, arg) ) {
         static const char *TTYPE_strs[] = {
             "deferred",   "exclusive",  "immediate", 0
         };
@@ -3442,7 +3441,7 @@ static Jsi_RC SqliteTransactionCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Valu
             break;
         }
     }
-    pScript = Jsi_ValueArrayIndex(interp, args, argc-1);
+    pScript = Jsi_ValueArrayIndex(interp, args, 0);
     if(!Jsi_ValueIsFunction(interp, pScript)) 
         return Jsi_LogErrorExt("expected function");
 
-- 
2.43.0


From 639c84fd4408981d798f8f0eaa3aafb9e2cd207d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:30 +0000
Subject: [PATCH 091/242] fix: Sqlite bind with a type converted the variable
 itself

---
 src/jsiSqlite.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/jsiSqlite.c b/src/jsiSqlite.c
index 1009e30..61a4a80 100644
--- a/src/jsiSqlite.c
+++ b/src/jsiSqlite.c
@@ -808,7 +808,7 @@ static Jsi_RC dbBindStmt(Jsi_Db *db, SqlPreparedStmt *prep)
     Jsi_Number r;
     Jsi_Wide wv;
  
-    Jsi_Value *pv = NULL, *apv = NULL;
+    Jsi_Value *pv = NULL, *apv = NULL, *cpv = NULL;
     int nVar = sqlite3_bind_parameter_count(pStmt);
     char tname[50];
     
@@ -894,6 +894,13 @@ static Jsi_RC dbBindStmt(Jsi_Db *db, SqlPreparedStmt *prep)
         } else {
             int match = 1, cast = (db->optPtr->typeCheck==dbTypeCheck_Cast);
             if (btype && db->optPtr->typeCheck != dbTypeCheck_None && !Jsi_ValueIsUndef(interp, pv)) {
+                if (cast) { /* Convert a copy: not the variable. */
+                    if (cpv)
+                        Jsi_DecrRefCount(interp, cpv);
+                    cpv = Jsi_ValueNew1(interp);
+                    Jsi_ValueCopy(interp, cpv, pv);
+                    pv = cpv;
+                }
                 switch (btype) {
                     case JSI_OPTION_STRBUF:
                         isBlob = 1;
@@ -985,6 +992,8 @@ static Jsi_RC dbBindStmt(Jsi_Db *db, SqlPreparedStmt *prep)
 
         }
     }
+    if (cpv)
+        Jsi_DecrRefCount(interp, cpv);
     return rc;
 }
 
-- 
2.43.0


From cc17a5530525b409b464be86278b4d7fb22eaf5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:30 +0000
Subject: [PATCH 092/242] fix: Sqlite query mode insert with a limit added rows
 in CSV form

---
 src/jsiSqlite.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/jsiSqlite.c b/src/jsiSqlite.c
index 61a4a80..d800471 100644
--- a/src/jsiSqlite.c
+++ b/src/jsiSqlite.c
@@ -2926,6 +2926,7 @@ static Jsi_RC SqliteQueryCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_th
             if (opts.limit && cnt>=opts.limit) break;
         }
         Jsi_DSFree(&vStr);
+        break;
     }
 
     case _JSI_EF_TABS:
-- 
2.43.0


From cf9f0ef3b083ae8c0d5861c0f9608c64e05120b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:30 +0000
Subject: [PATCH 093/242] fix: Sqlite query mode insert used the first row to
 decide which columns are NULL

---
 src/jsiSqlite.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jsiSqlite.c b/src/jsiSqlite.c
index d800471..708cbed 100644
--- a/src/jsiSqlite.c
+++ b/src/jsiSqlite.c
@@ -2902,7 +2902,7 @@ static Jsi_RC SqliteQueryCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_th
                 
                 azArg = Jsi_DSValue(&vStr);
                 const char *zSep = i>0 ? ",": "";
-                if(apColType && apColType[i]==SQLITE_NULL) {
+                if( ptype==SQLITE_NULL ) {
                   Jsi_DSAppend(dStr, zSep, "NULL", NULL);
                 }else if( ptype ==SQLITE_TEXT ) {
                   if( zSep[0] ) Jsi_DSAppend(dStr,zSep, NULL);
-- 
2.43.0


From 1cb4906fbdb0f6fbfebe81798e21e4585316c3b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:30 +0000
Subject: [PATCH 094/242] fix: Sqlite query json modes wrote an infinite number
 as Infinity, which is not JSON

---
 src/jsiSqlite.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/jsiSqlite.c b/src/jsiSqlite.c
index 708cbed..f0971bf 100644
--- a/src/jsiSqlite.c
+++ b/src/jsiSqlite.c
@@ -1798,7 +1798,12 @@ static void dbEvalSetColumnJSON(DbEvalContext *p, int iCol, Jsi_DString *dStr) {
         return;
     }
     case SQLITE_FLOAT: {
-        Jsi_NumberToString(interp, sqlite3_column_double(pStmt, iCol), nbuf, sizeof(nbuf));
+        Jsi_Number nval = sqlite3_column_double(pStmt, iCol);
+        if (!Jsi_NumberIsFinite(nval)) {
+            Jsi_DSAppend(dStr, "null", NULL);
+            return;
+        }
+        Jsi_NumberToString(interp, nval, nbuf, sizeof(nbuf));
         Jsi_DSAppend(dStr, nbuf, NULL);
         return;
     }
-- 
2.43.0


From 357d8f34fbbfde21c0a9aefb002e328823dcdf46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:30 +0000
Subject: [PATCH 095/242] fix: Sqlite query option nullvalue was ignored

---
 src/jsiSqlite.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/jsiSqlite.c b/src/jsiSqlite.c
index f0971bf..76187a1 100644
--- a/src/jsiSqlite.c
+++ b/src/jsiSqlite.c
@@ -1857,6 +1857,8 @@ static void dbEvalSetColumn(DbEvalContext *p, int iCol, Jsi_DString *dStr) {
         return;
     }
     case SQLITE_NULL: {
+        if (p->db->optPtr->nullvalue)
+            Jsi_DSAppend(dStr, p->db->optPtr->nullvalue, NULL);
         return;
     }
     }
-- 
2.43.0


From 94ddfb8ceb78b6872da0472720d4e64cbf17bba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:30 +0000
Subject: [PATCH 096/242] fix: Sqlite query mode csv did not quote values with
 a separator of several characters

---
 src/jsiSqlite.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jsiSqlite.c b/src/jsiSqlite.c
index 76187a1..2f2dbc2 100644
--- a/src/jsiSqlite.c
+++ b/src/jsiSqlite.c
@@ -2494,7 +2494,7 @@ static void dbOutputCsv(QueryOpts *p, const char *z, Jsi_DString *dStr, int bSep
         int nSep = Jsi_Strlen(p->separator);
         for(i=0; z[i]; i++) {
             if( needCsvQuote[((unsigned char*)z)[i]] || 
-                (z[i]==p->separator[0] && (nSep==1 || memcmp(z, p->separator, nSep)==0)) ) {
+                (z[i]==p->separator[0] && (nSep==1 || Jsi_Strncmp(z+i, p->separator, nSep)==0)) ) {
                 i = 0;
                 break;
             }
-- 
2.43.0


From 64db5e91d16127ed030e4d8e1500b29eb25377ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:30 +0000
Subject: [PATCH 097/242] fix: Sqlite query mode csv did not quote column names

---
 src/jsiSqlite.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/jsiSqlite.c b/src/jsiSqlite.c
index 2f2dbc2..5170293 100644
--- a/src/jsiSqlite.c
+++ b/src/jsiSqlite.c
@@ -2947,7 +2947,10 @@ static Jsi_RC SqliteQueryCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_th
                 for(i=0; i<nCol; i++) {
                     if (i)
                         Jsi_DSAppend(dStr, opts.separator, NULL);
-                    Jsi_DSAppend(dStr, apColName[i], NULL);
+                    if (opts.mode == _JSI_EF_CSV)
+                        dbOutputCsv(&opts, apColName[i], dStr, 0);
+                    else
+                        Jsi_DSAppend(dStr, apColName[i], NULL);
                 }
             }
 
-- 
2.43.0


From 1f255229ecce56d637b6d219cd73b7f8fc7f320c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:30 +0000
Subject: [PATCH 098/242] fix: Sqlite regexp read a third argument that was not
 there, and crashed on NULL

---
 src/jsiSqlite.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/jsiSqlite.c b/src/jsiSqlite.c
index 5170293..ca3ffde 100644
--- a/src/jsiSqlite.c
+++ b/src/jsiSqlite.c
@@ -1424,7 +1424,9 @@ static void jsiSqlFuncRegexp(sqlite3_context *context, int argc, sqlite3_value**
         return;
     }
     const char *str = (char *)sqlite3_value_text(argv[1]);
-    char *spat = (char *)sqlite3_value_text(argv[0]), *mod = (char *)sqlite3_value_text(argv[2]);
+    char *spat = (char *)sqlite3_value_text(argv[0]), *mod = (argc>2 ? (char *)sqlite3_value_text(argv[2]) : NULL);
+    if (!str || !spat)
+        return; /* NULL */
     int rc = 0;
     bool isNew = 0;
     Jsi_Value *pat = NULL;
-- 
2.43.0


From 31a7b37a664b27e4453df6a7675ec51903c483f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:30 +0000
Subject: [PATCH 099/242] fix: Sqlite regexp cache mixed up modifiers, and
 failed instead of not caching when full

---
 src/jsiSqlite.c | 30 ++++++++++++++++--------------
 1 file changed, 16 insertions(+), 14 deletions(-)

diff --git a/src/jsiSqlite.c b/src/jsiSqlite.c
index ca3ffde..d48196f 100644
--- a/src/jsiSqlite.c
+++ b/src/jsiSqlite.c
@@ -1431,32 +1431,34 @@ static void jsiSqlFuncRegexp(sqlite3_context *context, int argc, sqlite3_value**
     bool isNew = 0;
     Jsi_Value *pat = NULL;
     Jsi_HashEntry *hPtr;
-    if (db->regexpHash && ((hPtr = Jsi_HashEntryFind(db->regexpHash, spat))))
+    bool cache = (db->maxRegexCache != 0);
+    Jsi_DString kStr = {};
+    const char *key = Jsi_DSAppend(&kStr, mod?mod:"", "/", spat, NULL);
+    if (db->regexpHash && ((hPtr = Jsi_HashEntryFind(db->regexpHash, key))))
         pat = (Jsi_Value*)Jsi_HashValueGet(hPtr);
-    if (!pat) {
-        if (db->regexpHash && db->maxRegexCache>0 && (int)Jsi_HashSize(db->regexpHash)>=db->maxRegexCache) {
-            Jsi_LogErrorExt("Regex hash reached max size: %d", db->maxRegexCache);
-            return;
-        }
+    if (pat)
+        cache = 1;
+    else {
+        if (db->regexpHash && db->maxRegexCache>0 && (int)Jsi_HashSize(db->regexpHash)>=db->maxRegexCache)
+            cache = 0;
         pat = Jsi_ValueNewRegExp(interp, spat, mod);
-        if (!pat)
+        if (!pat) {
+            Jsi_DSFree(&kStr);
             return;
+        }
         Jsi_IncrRefCount(interp, pat);
-        if (db->maxRegexCache) {
+        if (cache) {
             if (!db->regexpHash)
                 db->regexpHash = Jsi_HashNew(interp, JSI_KEYS_STRING, jsiSqlfreeValueTbl);
-            hPtr = Jsi_HashEntryNew(db->regexpHash, spat, &isNew);
-            if (!hPtr) {
-                Jsi_DecrRefCount(interp, pat);
-                return;
-            }
+            hPtr = Jsi_HashEntryNew(db->regexpHash, key, &isNew);
             Jsi_HashValueSet(hPtr, pat);
         }
     }
     if (Jsi_RegExpMatch(interp, pat, str, &rc, NULL)==JSI_OK)
         sqlite3_result_int(context, rc);
-    if (!db->maxRegexCache)
+    if (!cache)
         Jsi_DecrRefCount(interp, pat);
+    Jsi_DSFree(&kStr);
 }
 
 static void jsiSqlFunc(sqlite3_context *context, int argc, sqlite3_value**argv) {
-- 
2.43.0


From daf4ce7b774833b96fa7cf657b0ead1410c262e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:30 +0000
Subject: [PATCH 100/242] fix: Sqlite functions of one name with different
 numbers of arguments ran the same script

---
 src/jsiSqlite.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/jsiSqlite.c b/src/jsiSqlite.c
index d48196f..e192c7c 100644
--- a/src/jsiSqlite.c
+++ b/src/jsiSqlite.c
@@ -133,6 +133,7 @@ struct SqlFunc {
     char        *pScript;   /* The char* representation of the script */
     Jsi_DString dScript;
     char        *zName;     /* Name of this function */
+    int         nArg;       /* Number of arguments, or -1. */
     SqlFunc     *pNext;     /* Next function on the list of them all */
 };
 
@@ -3245,7 +3246,7 @@ static Jsi_RC SqliteFilenameCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *
 ** one if an existing one cannot be found.  Return a pointer to the
 ** structure.
 */
-static SqlFunc *dbFindSqlFunc(Jsi_Db *db, const char *zName) {
+static SqlFunc *dbFindSqlFunc(Jsi_Db *db, const char *zName, int nArg) {
     SqlFunc *p, *pNew;
     int i;
     pNew = (SqlFunc*)Jsi_Calloc(1, sizeof(*pNew) + Jsi_Strlen(zName) + 1 );
@@ -3256,11 +3257,12 @@ static SqlFunc *dbFindSqlFunc(Jsi_Db *db, const char *zName) {
     }
     pNew->zName[i] = 0;
     for(p=db->pFunc; p; p=p->pNext) {
-        if( Jsi_Strcmp(p->zName, pNew->zName)==0 ) {
+        if( p->nArg==nArg && Jsi_Strcmp(p->zName, pNew->zName)==0 ) {
             Jsi_Free((char*)pNew);
             return p;
         }
     }
+    pNew->nArg = nArg;
     pNew->interp = db->interp;
     pNew->pScript = 0;
     Jsi_DSInit(&pNew->dScript);
@@ -3311,12 +3313,14 @@ static Jsi_RC SqliteFunctionCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *
       }else{
         pScript = objv[3];
       }*/
-    pFunc = dbFindSqlFunc(db, zName);
+    pFunc = dbFindSqlFunc(db, zName, nArg);
     if( pFunc==0 ) return JSI_ERROR;
     SQLSIGASSERT(pFunc,FUNC);
 
+    Jsi_IncrRefCount(interp, tocall);
+    if (pFunc->tocall)
+        Jsi_DecrRefCount(interp, pFunc->tocall);
     pFunc->tocall = tocall;
-    Jsi_IncrRefCount(interp, pFunc->tocall);
     rc = sqlite3_create_function(db->db, zName, nArg, SQLITE_UTF8,
                                  pFunc, jsiSqlFunc, 0, 0);
                                  
-- 
2.43.0


From cc16f74d8dbe121deeeebce53ee6d338c998c95f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:30 +0000
Subject: [PATCH 101/242] fix: Sqlite function returning null gave SQL the text
 'null'

---
 src/jsiSqlite.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/jsiSqlite.c b/src/jsiSqlite.c
index e192c7c..0f1df97 100644
--- a/src/jsiSqlite.c
+++ b/src/jsiSqlite.c
@@ -1491,6 +1491,8 @@ static void jsiSqlFunc(sqlite3_context *context, int argc, sqlite3_value**argv)
     } else if (Jsi_ValueIsBoolean(interp, ret)) {
         Jsi_GetBoolFromValue(interp, ret, &b);
         sqlite3_result_int(context, b);
+    } else if (Jsi_ValueIsNull(interp, ret) || Jsi_ValueIsUndef(interp, ret)) {
+        sqlite3_result_null(context);
     } else if (Jsi_ValueIsNumber(interp, ret)) {
         Jsi_Number d;
         // if (Jsi_GetIntFromValueBase(interp, ret, &i, 0, JSI_NO_ERRMSG);
-- 
2.43.0


From c1fbc18cf9e6e9b09433db23168dc76dcad984fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:30 +0000
Subject: [PATCH 102/242] fix: Sqlite import of csv ran past the end of a line
 with quotes or too many columns, and kept part of a file with an unterminated
 quote

---
 src/jsiSqlite.c | 49 +++++++++++++++++++++----------------------------
 1 file changed, 21 insertions(+), 28 deletions(-)

diff --git a/src/jsiSqlite.c b/src/jsiSqlite.c
index 0f1df97..369ac9b 100644
--- a/src/jsiSqlite.c
+++ b/src/jsiSqlite.c
@@ -2129,6 +2129,7 @@ static Jsi_RC SqliteImportCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_t
     char **azCol;               /* zLine[] broken up into columns */
     const char *onCommit;              /* How to commit changes */
     Jsi_Channel in;                   /* The input file */
+    Jsi_DString sStr = {};      /* A value that spans lines */
     int lineno = 0;             /* Line number of input file */
     int created = 0;
     const char *zSep;
@@ -2276,8 +2277,8 @@ static Jsi_RC SqliteImportCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_t
         if (opts.csv && Jsi_Strchr(zLine,'"')) 
         {
             char *zn, *z = zLine;
-            Jsi_DString sStr = {};
             int qcnt = 0;
+            Jsi_DSSetLength(&sStr, 0);
             i = -1;
             while (*z) if (*z++ == '"') qcnt++;
             z = zLine;
@@ -2296,51 +2297,40 @@ static Jsi_RC SqliteImportCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_t
                 z = Jsi_DSValue(&sStr);
             }
             if (qcnt%2) {
-                Jsi_DSFree(&sStr);
-                Jsi_Free(zLine);
-                Jsi_Close(interp, in);
+                if (zLine)
+                    Jsi_Free(zLine);
                 Jsi_LogErrorExt("unterminated string at line: %d", lineno);
+                onCommit = "ROLLBACK";
                 break;
             }
             while (z) {
+                char *zo = z;
+                if (++i < nCol)
+                    azCol[i] = z;
                 if (*z != '\"') { /* Handle un-quoted value */
                     zn = Jsi_Strstr(z, zSep);
-                    azCol[++i] = z;
                     if (!zn)
                         break;
                     *zn = 0;
                     z = zn+nSep;
                     continue;
                 }
-                /* Handle quoted value */
-                zn = ++z;
-                Jsi_DString cStr = {};
-                while (1) {
-                    if (!zn)
-                        break;
-                    if (*zn != '"')
-                        Jsi_DSAppendLen(&cStr, zn, 1);
-                    else {
-                        if (zn[1] == '"') {
+                /* Handle quoted value: unquote in place. */
+                for (zn = z+1, z = NULL; *zn; zn++) {
+                    if (*zn == '"') {
+                        if (zn[1] == '"')
                             zn++;
-                            Jsi_DSAppendLen(&cStr, "\"", 1);
-                        } else if (zn[1] == 0) {
+                        else if (zn[1] == 0)
                             break;
-                        } else if (Jsi_Strncmp(zn+1,zSep, nSep)==0) {
-                            *zn = 0;
-                            zn += (nSep + 1);
+                        else if (Jsi_Strncmp(zn+1,zSep, nSep)==0) {
+                            z = zn + 1 + nSep;
                             break;
-                        } else {
-                            /* Invalid, comma should be right after close quote, so just eat quote. */
-                            Jsi_DSAppendLen(&cStr, zn, 1);
                         }
+                        /* Invalid, comma should be right after close quote, so just keep quote. */
                     }
-                    zn++;
+                    *zo++ = *zn;
                 }
-                Jsi_Strcpy(z, Jsi_DSValue(&cStr));
-                Jsi_DSFree(&cStr);
-                azCol[++i] = z;
-                z = zn;
+                *zo = 0;
             }
         } else {
             azCol[0] = zLine;
@@ -2358,6 +2348,8 @@ static Jsi_RC SqliteImportCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_t
         if( i+1!=nCol ) {
             Jsi_LogErrorExt("%s line %d: expected %d columns of data but found %d",
                  zFile, lineno, nCol, i+1);
+            if (zLine)
+                Jsi_Free(zLine);
             onCommit = "ROLLBACK";
             break;
         }
@@ -2381,6 +2373,7 @@ static Jsi_RC SqliteImportCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_t
             break;
         }
     }
+    Jsi_DSFree(&sStr);
     Jsi_Free(azCol);
     Jsi_Close(interp, in);
     sqlite3_finalize(pStmt);
-- 
2.43.0


From e7ad245897177a6a50e41dadf2a76e6b7fb49184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:30 +0000
Subject: [PATCH 103/242] fix: Sqlite import ended an enclosing transaction,
 dropped an existing table on error, and ignored a failed commit

---
 src/jsiSqlite.c | 65 +++++++++++++++++++++++--------------------------
 1 file changed, 31 insertions(+), 34 deletions(-)

diff --git a/src/jsiSqlite.c b/src/jsiSqlite.c
index 369ac9b..08098ad 100644
--- a/src/jsiSqlite.c
+++ b/src/jsiSqlite.c
@@ -2109,10 +2109,8 @@ On success, return the number of lines processed, not necessarily same \
 as 'changeCnt' due to the conflict algorithm selected. \
 ")
 
-static Jsi_RC SqliteImportCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,
-                         Jsi_Value **ret, Jsi_Func *funcPtr)
+static Jsi_RC dbImport(Jsi_Interp *interp, Jsi_Db *db, Jsi_Value *args, Jsi_Value **ret)
 {
-    Jsi_Db *db;
     Jsi_RC rv = JSI_OK;
     int rc;
     char *zTable;               /* Insert data into this table */
@@ -2127,15 +2125,12 @@ static Jsi_RC SqliteImportCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_t
     char *zSql;                 /* An SQL statement */
     char *zLine;                /* A single line of input from the file */
     char **azCol;               /* zLine[] broken up into columns */
-    const char *onCommit;              /* How to commit changes */
     Jsi_Channel in;                   /* The input file */
     Jsi_DString sStr = {};      /* A value that spans lines */
     int lineno = 0;             /* Line number of input file */
-    int created = 0;
     const char *zSep;
     const char *zNull;
 
-    if (!(db = dbGetDbHandle(interp, _this, funcPtr))) return JSI_ERROR;
     Jsi_Value *arg = Jsi_ValueArrayIndex(interp, args, 2);
     ImportData opts = {};
 
@@ -2208,7 +2203,6 @@ static Jsi_RC SqliteImportCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_t
         Jsi_DSFree(&cStr);
         if (rc) 
             return Jsi_LogErrorExt("%s", sqlite3_errmsg(db->db));
-        created = 1;
     }
     
     nByte = Jsi_Strlen(zSql);
@@ -2221,15 +2215,11 @@ static Jsi_RC SqliteImportCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_t
         nCol = sqlite3_column_count(pStmt);
     }
     sqlite3_finalize(pStmt);
-    if( nCol==0 ) {
-        rc = JSI_ERROR;
-        goto bail;
-    }
+    if( nCol==0 )
+        return JSI_ERROR;
     zSql = (char*)Jsi_Malloc( nByte + 50 + nCol*2 );
     if( zSql==0 ) {
-        Jsi_LogErrorExt("Error: can't malloc()");
-        rc = JSI_ERROR;
-        goto bail;
+        return Jsi_LogErrorExt("Error: can't malloc()");
     }
     sqlite3_snprintf(nByte+50, zSql, "INSERT OR %q INTO '%q' VALUES(?",
                      zConflict, zTable);
@@ -2257,11 +2247,9 @@ static Jsi_RC SqliteImportCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_t
     if( azCol==0 ) {
         Jsi_LogErrorExt("Error: can't malloc()");
         Jsi_Close(interp, in);
-        rc = JSI_ERROR;
-        goto bail;
+        sqlite3_finalize(pStmt);
+        return JSI_ERROR;
     }
-    (void)sqlite3_exec(db->db, "BEGIN", 0, 0, 0);
-    onCommit = "COMMIT";
     while ((zLine = dbLocalGetline(interp, 0, in))!=0 ) {
         char *z;
         i = 0;
@@ -2300,7 +2288,7 @@ static Jsi_RC SqliteImportCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_t
                 if (zLine)
                     Jsi_Free(zLine);
                 Jsi_LogErrorExt("unterminated string at line: %d", lineno);
-                onCommit = "ROLLBACK";
+                rv = JSI_ERROR;
                 break;
             }
             while (z) {
@@ -2350,7 +2338,7 @@ static Jsi_RC SqliteImportCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_t
                  zFile, lineno, nCol, i+1);
             if (zLine)
                 Jsi_Free(zLine);
-            onCommit = "ROLLBACK";
+            rv = JSI_ERROR;
             break;
         }
         for(i=0; i<nCol; i++) {
@@ -2369,7 +2357,7 @@ static Jsi_RC SqliteImportCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_t
             Jsi_Free(zLine);
         if( rc!=SQLITE_OK ) {
             Jsi_LogErrorExt("%s at line: %d", sqlite3_errmsg(db->db), lineno);
-            onCommit = "ROLLBACK";
+            rv = JSI_ERROR;
             break;
         }
     }
@@ -2377,26 +2365,35 @@ static Jsi_RC SqliteImportCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_t
     Jsi_Free(azCol);
     Jsi_Close(interp, in);
     sqlite3_finalize(pStmt);
-    (void)sqlite3_exec(db->db, onCommit, 0, 0, 0);
 
-    if( onCommit[0] == 'C' ) {
+    if( rv == JSI_OK ) {
         /* success, set result as number of lines processed */
         Jsi_ValueMakeNumber(interp, ret, (Jsi_Number)lineno);
-        rv = JSI_OK;
-    } else {
-        rv = JSI_ERROR;
-    }
-    
-bail:
-    if (rc != JSI_OK && created && opts.conflict == CC_ROLLBACK) {
-        Jsi_DString cStr = {};
-        Jsi_DSAppend(&cStr, "DROP TABLE IF EXISTS '", zTable, "';", NULL);
-        (void)sqlite3_exec(db->db, Jsi_DSValue(&cStr), 0, 0, 0);
-        Jsi_DSFree(&cStr);
     }
     return rv;
 }
 
+/* Import all of the file or, on error, nothing. */
+static Jsi_RC SqliteImportCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,
+                         Jsi_Value **ret, Jsi_Func *funcPtr)
+{
+    Jsi_Db *db;
+    if (!(db = dbGetDbHandle(interp, _this, funcPtr))) return JSI_ERROR;
+    db->disableAuth++;
+    int rc = sqlite3_exec(db->db, "SAVEPOINT _jsi_import", 0, 0, 0);
+    db->disableAuth--;
+    if (rc != SQLITE_OK)
+        return Jsi_LogErrorExt("%s", sqlite3_errmsg(db->db));
+    Jsi_RC rv = dbImport(interp, db, args, ret);
+    db->disableAuth++;
+    if (rv == JSI_OK && sqlite3_exec(db->db, "RELEASE _jsi_import", 0, 0, 0) != SQLITE_OK)
+        rv = Jsi_LogErrorExt("%s", sqlite3_errmsg(db->db));
+    if (rv != JSI_OK)
+        (void)sqlite3_exec(db->db, "ROLLBACK TO _jsi_import; RELEASE _jsi_import", 0, 0, 0);
+    db->disableAuth--;
+    return rv;
+}
+
 #define FN_evaluate JSI_INFO("\
 Supports multiple semicolon seperated commands.\n\
 Variable binding is NOT performed, results are discarded, and  \
-- 
2.43.0


From c191eb38269ef6bcb3f79dffc74799584e11398a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:30 +0000
Subject: [PATCH 104/242] fix: Sqlite import with a limit returned one line too
 many

---
 src/jsiSqlite.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jsiSqlite.c b/src/jsiSqlite.c
index 08098ad..717627a 100644
--- a/src/jsiSqlite.c
+++ b/src/jsiSqlite.c
@@ -2253,11 +2253,11 @@ static Jsi_RC dbImport(Jsi_Interp *interp, Jsi_Db *db, Jsi_Value *args, Jsi_Valu
     while ((zLine = dbLocalGetline(interp, 0, in))!=0 ) {
         char *z;
         i = 0;
-        lineno++;
-        if (opts.limit>0 && lineno > opts.limit) {
+        if (opts.limit>0 && lineno >= opts.limit) {
             Jsi_Free(zLine);
             break;
         }
+        lineno++;
         if (lineno == 1 && opts.headers) {
             Jsi_Free(zLine);
             continue;
-- 
2.43.0


From 001890e29fd4147655a7bb78fcf9357a1b14697b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:05 +0000
Subject: [PATCH 105/242] fix: Sqlite query with a bad obj name returned as if
 it had run

---
 src/jsiSqlite.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jsiSqlite.c b/src/jsiSqlite.c
index 717627a..014d55f 100644
--- a/src/jsiSqlite.c
+++ b/src/jsiSqlite.c
@@ -2653,7 +2653,7 @@ static Jsi_RC SqliteQueryCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_th
         goto bail;
     }
     if (opts.obj.name) {
-        if (Jsi_SqlObjBinds(interp, &eStr, &opts.obj) != JSI_OK)
+        if ((rc = Jsi_SqlObjBinds(interp, &eStr, &opts.obj)) != JSI_OK)
             goto bail;
         zSql = Jsi_DSValue(&eStr);
     }
-- 
2.43.0


From 44a790e2546215e8c631a31f3ce3098638c29182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:05 +0000
Subject: [PATCH 106/242] fix: Sqlite create from an object failed when a field
 was named like an SQL keyword

---
 src/jsiUtils.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jsiUtils.c b/src/jsiUtils.c
index 600d0bd..0370c30 100644
--- a/src/jsiUtils.c
+++ b/src/jsiUtils.c
@@ -640,9 +640,9 @@ Jsi_RC Jsi_SqlObjBinds(Jsi_Interp* interp, Jsi_DString* zStr, Jsi_SqlObjOpts* op
             if (dflt)
                 Jsi_DSAppend(&sStr," DEFAULT ", dflt, NULL);
             if (chk) {
-                Jsi_DSPrintf(&sStr," CONSTRAINT '%s Invalid' CHECK(typeof(%s) %s", kstr, kstr, chk);
+                Jsi_DSPrintf(&sStr," CONSTRAINT '%s Invalid' CHECK(typeof([%s]) %s", kstr, kstr, chk);
                 if (chk2)
-                    Jsi_DSPrintf(&sStr," AND %s IN %s", kstr, chk2);
+                    Jsi_DSPrintf(&sStr," AND [%s] IN %s", kstr, chk2);
                 Jsi_DSAppend(&sStr,")", NULL);
             }
         }
-- 
2.43.0


From 25f1d66b9c82b9e4289be7ad4b41c7b8dc4ce245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:05 +0000
Subject: [PATCH 107/242] fix: Sqlite create from an object failed when a
 default value had a quote in it

---
 src/jsiUtils.c | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/jsiUtils.c b/src/jsiUtils.c
index 0370c30..002d5b3 100644
--- a/src/jsiUtils.c
+++ b/src/jsiUtils.c
@@ -537,6 +537,17 @@ bool jsi_StrInArray(Jsi_Interp* interp, Jsi_Value *arr, const char *str) {
 }
 
 /* Modify Sql to append bind fields for Object */
+// Append as an SQL string.
+static const char *jsi_SqlQuote(Jsi_DString *dStr, const char *str) {
+    Jsi_DSAppend(dStr, "'", NULL);
+    for (; *str; str++) {
+        if (*str == '\'')
+            Jsi_DSAppend(dStr, "'", NULL);
+        Jsi_DSAppendLen(dStr, str, 1);
+    }
+    return Jsi_DSAppend(dStr, "'", NULL);
+}
+
 Jsi_RC Jsi_SqlObjBinds(Jsi_Interp* interp, Jsi_DString* zStr, Jsi_SqlObjOpts* opts) {
     const char *varName = opts->name; 
     bool addTypes = !opts->noTypes, addDefaults = !opts->defaultNull,
@@ -612,17 +623,17 @@ Jsi_RC Jsi_SqlObjBinds(Jsi_Interp* interp, Jsi_DString* zStr, Jsi_SqlObjOpts* op
                     typ = "CHARJSON";
                     if (addDefaults) {
                         Jsi_DSFree(&jStr);
-                        Jsi_DSAppend(&jStr, "'", NULL);
-                        Jsi_ValueGetDString(interp, v, &jStr, JSI_OUTPUT_JSON|JSI_JSON_STRICT);
-                        Jsi_DSAppend(&jStr, "'", NULL);
-                        dflt = Jsi_DSValue(&jStr);
+                        Jsi_DString oStr = {};
+                        Jsi_ValueGetDString(interp, v, &oStr, JSI_OUTPUT_JSON|JSI_JSON_STRICT);
+                        dflt = jsi_SqlQuote(&jStr, Jsi_DSValue(&oStr));
+                        Jsi_DSFree(&oStr);
                     }
                 } else {
                     typ = "TEXT";
                     if (addDefaults) {
                         if ((cp=Jsi_ValueString(interp, v, NULL))) {
                             Jsi_DSFree(&jStr);
-                            dflt = Jsi_DSAppend(&jStr, "'", cp, "'", NULL);
+                            dflt = jsi_SqlQuote(&jStr, cp);
                         } else
                             dflt = "NULL";
                     }
-- 
2.43.0


From 57f8de307930af139f55f877fa517620aecd6dbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:05 +0000
Subject: [PATCH 108/242] fix: Sqlite obj option noDefaults was ignored, and
 the column of a null field could then not hold null

---
 src/jsiUtils.c | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/jsiUtils.c b/src/jsiUtils.c
index 002d5b3..44c99f8 100644
--- a/src/jsiUtils.c
+++ b/src/jsiUtils.c
@@ -550,7 +550,7 @@ static const char *jsi_SqlQuote(Jsi_DString *dStr, const char *str) {
 
 Jsi_RC Jsi_SqlObjBinds(Jsi_Interp* interp, Jsi_DString* zStr, Jsi_SqlObjOpts* opts) {
     const char *varName = opts->name; 
-    bool addTypes = !opts->noTypes, addDefaults = !opts->defaultNull,
+    bool addTypes = !opts->noTypes, addDefaults = !opts->noDefaults,
         nullDefaults = opts->defaultNull, addCheck  = !opts->noChecks;
     Jsi_Value *v, *vnPtr = Jsi_VarLookup(interp, varName);
     if (!vnPtr || !Jsi_ValueIsObjType(interp, vnPtr, JSI_OT_OBJECT))
@@ -629,21 +629,19 @@ Jsi_RC Jsi_SqlObjBinds(Jsi_Interp* interp, Jsi_DString* zStr, Jsi_SqlObjOpts* op
                         Jsi_DSFree(&oStr);
                     }
                 } else {
-                    typ = "TEXT";
+                    cp = Jsi_ValueString(interp, v, NULL);
+                    bool hasNull = (!cp || nullDefaults);
+                    if (!addCheck || !hasNull)
+                        typ = "TEXT";
                     if (addDefaults) {
-                        if ((cp=Jsi_ValueString(interp, v, NULL))) {
+                        if (cp) {
                             Jsi_DSFree(&jStr);
                             dflt = jsi_SqlQuote(&jStr, cp);
                         } else
                             dflt = "NULL";
                     }
-                    if (addCheck) {
-                        if (dflt && !Jsi_Strcmp(dflt,"NULL")) {
-                            chk = NULL; // "IN ('text','null')";
-                            typ = NULL;
-                        } else
-                            chk = "== 'text'";
-                    }
+                    if (addCheck && !hasNull)
+                        chk = "== 'text'";
                 }
             }
             if (typ)
-- 
2.43.0


From 6db2f8d947cd8c673a9211d78d57bdc55dc251d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:02 +0000
Subject: [PATCH 109/242] fix: Sqlite onCommit and onRollback were called
 without their argument, so every commit failed

---
 src/jsiSqlite.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jsiSqlite.c b/src/jsiSqlite.c
index 014d55f..dc10394 100644
--- a/src/jsiSqlite.c
+++ b/src/jsiSqlite.c
@@ -1217,7 +1217,7 @@ static int dbCommitHandler(void *cd) {
     items[0] = Jsi_ValueNewObj(interp, db->fobj);
     vpargs = Jsi_ValueMakeObject(interp, NULL, Jsi_ObjNewArray(interp, items, 1, 0));
     Jsi_IncrRefCount(interp, vpargs);
-    if( JSI_OK!=Jsi_FunctionInvoke(interp, db->onCommit, NULL, &ret, NULL) ) {
+    if( JSI_OK!=Jsi_FunctionInvoke(interp, db->onCommit, vpargs, &ret, NULL) ) {
         db->errCnt++;
         rc = 1;
     } else
@@ -1261,7 +1261,7 @@ static void dbRollbackHandler(void *cd) {
     items[0] = Jsi_ValueNewObj(interp, db->fobj);
     vpargs = Jsi_ValueMakeObject(interp, NULL, Jsi_ObjNewArray(interp, items, 1, 0));
     Jsi_IncrRefCount(interp, vpargs);
-    Jsi_FunctionInvoke(interp, db->onRollback, NULL, &ret, NULL);
+    Jsi_FunctionInvoke(interp, db->onRollback, vpargs, &ret, NULL);
     Jsi_DecrRefCount(interp, vpargs);
     Jsi_DecrRefCount(interp, ret);
 }
-- 
2.43.0


From 91d88d50d305c8eb726e914b824cc4531bda5880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:02 +0000
Subject: [PATCH 110/242] fix: Sqlite onAuth and onWalHook aborted

---
 src/jsiSqlite.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jsiSqlite.c b/src/jsiSqlite.c
index dc10394..e47a0b9 100644
--- a/src/jsiSqlite.c
+++ b/src/jsiSqlite.c
@@ -1241,7 +1241,7 @@ static int dbWalHandler( void *cd, sqlite3 *sdb, const char *zDb, int nEntry ){
     items[2] = Jsi_ValueMakeNumber(interp, NULL, (Jsi_Number)nEntry);
     vpargs = Jsi_ValueMakeObject(interp, NULL, Jsi_ObjNewArray(interp, items, 3, 0));
     Jsi_IncrRefCount(interp, vpargs);
-    ret = Jsi_ValueNew(interp);
+    ret = Jsi_ValueNew1(interp);
     rc = Jsi_FunctionInvoke(interp, db->onWalHook, vpargs, &ret, NULL);
     Jsi_DecrRefCount(interp, vpargs);
     if (rc != JSI_OK) {
@@ -1646,7 +1646,7 @@ static int dbAuthCallback(
     items[i++] = Jsi_ValueMakeStringDup(interp, NULL, zArg4 ? zArg4 : "");
     vpargs = Jsi_ValueMakeObject(interp, NULL, Jsi_ObjNewArray(interp, items, i, 0));
     Jsi_IncrRefCount(interp, vpargs);
-    ret = Jsi_ValueNew(interp);
+    ret = Jsi_ValueNew1(interp);
     rc = Jsi_FunctionInvoke(interp, db->onAuth, vpargs, &ret, NULL);
     Jsi_DecrRefCount(interp, vpargs);
 
-- 
2.43.0


From 0a88f7b51825479f5fb9a9cb154f320d9b570894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:02 +0000
Subject: [PATCH 111/242] fix: any Sqlite conf call removed the callbacks that
 were set

---
 src/jsiSqlite.c | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/jsiSqlite.c b/src/jsiSqlite.c
index e47a0b9..2e97408 100644
--- a/src/jsiSqlite.c
+++ b/src/jsiSqlite.c
@@ -3542,52 +3542,52 @@ static Jsi_RC SqliteBackupCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_t
 
 void dbSetupCallbacks(Jsi_Db *db, Jsi_Db *ojdb)
 {
-    if (db->onAuth && (!ojdb || !ojdb->onAuth) )
+    if (db->onAuth)
         sqlite3_set_authorizer(db->db, dbAuthCallback, db);
     else
         sqlite3_set_authorizer(db->db, 0, 0);
 
-    if (db->onCommit && (!ojdb || !ojdb->onCommit) )
+    if (db->onCommit)
         sqlite3_commit_hook(db->db, dbCommitHandler, db);
     else
         sqlite3_commit_hook(db->db, 0, 0);
 
-    if (db->onBusy && (!ojdb || !ojdb->onBusy) )
+    if (db->onBusy)
         sqlite3_busy_handler(db->db, dbBusyHandler, db);
     else
         sqlite3_busy_handler(db->db, 0, 0);
     
-    if (db->onTrace && (!ojdb || !ojdb->onTrace) )
+    if (db->onTrace)
         sqlite3_trace(db->db, dbTraceHandler, db);
     else
         sqlite3_trace(db->db, 0, 0);
 
-    if (db->onNeedCollate && (!ojdb || !ojdb->onNeedCollate) )
+    if (db->onNeedCollate)
         sqlite3_collation_needed(db->db, db, dbCollateNeeded);
     else
         sqlite3_collation_needed(db->db, 0, 0);
 
-    if (db->onUpdate && (!ojdb || !ojdb->onUpdate) )
+    if (db->onUpdate)
         sqlite3_update_hook(db->db, dbUpdateHandler, db);
     else
         sqlite3_update_hook(db->db, 0, 0);
 
-    if (db->onWalHook && (!ojdb || !ojdb->onWalHook) )
+    if (db->onWalHook)
         sqlite3_wal_hook(db->db, dbWalHandler, db);
     else
         sqlite3_wal_hook(db->db, 0, 0);
 
-    if (db->onRollback && (!ojdb || !ojdb->onRollback) )
+    if (db->onRollback)
         sqlite3_rollback_hook(db->db, dbRollbackHandler, db);
     else
         sqlite3_rollback_hook(db->db, 0, 0);
 
-    if (db->onProfile && (!ojdb || !ojdb->onProfile) )
+    if (db->onProfile)
         sqlite3_profile(db->db, dbProfileHandler, db);
     else
         sqlite3_profile(db->db, 0, 0);
 
-    if (db->onProgress && db->progressSteps && (!ojdb || !ojdb->onProgress || ojdb->progressSteps != db->progressSteps) )
+    if (db->onProgress && db->progressSteps)
         sqlite3_progress_handler(db->db, db->progressSteps, dbProgressHandler, db);
     else
         sqlite3_progress_handler(db->db, 0, 0, 0);
-- 
2.43.0


From 13c0b4563e5deacaba556de915a91190a7293d4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:02 +0000
Subject: [PATCH 112/242] fix: Sqlite onBusy was never called

---
 src/jsiSqlite.c | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/jsiSqlite.c b/src/jsiSqlite.c
index 2e97408..b469c5a 100644
--- a/src/jsiSqlite.c
+++ b/src/jsiSqlite.c
@@ -3555,7 +3555,7 @@ void dbSetupCallbacks(Jsi_Db *db, Jsi_Db *ojdb)
     if (db->onBusy)
         sqlite3_busy_handler(db->db, dbBusyHandler, db);
     else
-        sqlite3_busy_handler(db->db, 0, 0);
+        sqlite3_busy_timeout(db->db, db->timeout);
     
     if (db->onTrace)
         sqlite3_trace(db->db, dbTraceHandler, db);
@@ -3595,9 +3595,6 @@ void dbSetupCallbacks(Jsi_Db *db, Jsi_Db *ojdb)
     if (!ojdb || db->load != ojdb->load)
         sqlite3_enable_load_extension(db->db, db->load);
 
-    if (!ojdb || db->timeout != ojdb->timeout)
-        sqlite3_busy_timeout( db->db, db->timeout );
-
 /*    if (db->onUnlock && (!ojdb || !ojdb->onUnlock) )
         sqlite3_unlock_notify(db->db, dbUnlockNotify, (void*)db);
     else
-- 
2.43.0


From 0bd2850bb7cc534fe4c4fc2a5a9b532675d5ffca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:02 +0000
Subject: [PATCH 113/242] fix: Sqlite collate used its function after it was
 freed

---
 src/jsiSqlite.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/jsiSqlite.c b/src/jsiSqlite.c
index b469c5a..dd60163 100644
--- a/src/jsiSqlite.c
+++ b/src/jsiSqlite.c
@@ -1084,6 +1084,7 @@ static void dbDeleteCmd(Jsi_Db *db)
     while( db->pCollate ) {
         SqlCollate *pCollate = db->pCollate;
         db->pCollate = pCollate->pNext;
+        Jsi_DecrRefCount(interp, pCollate->zScript);
         Jsi_Free((char*)pCollate);
     }
 
@@ -2065,6 +2066,7 @@ static Jsi_RC SqliteCollateCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_
     pCollate->interp = interp;
     pCollate->pNext = db->pCollate;
     pCollate->zScript = func; /*(char*)&pCollate[1];*/
+    Jsi_IncrRefCount(interp, func);
     db->pCollate = pCollate;
 
     if( sqlite3_create_collation(db->db, zName, SQLITE_UTF8, pCollate, dbSqlCollate) )
-- 
2.43.0


From 0b440a7cd10452e415205344e852922531962624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:02 +0000
Subject: [PATCH 114/242] fix: Sqlite collate read past the end of the text it
 compared

---
 src/jsiSqlite.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/jsiSqlite.c b/src/jsiSqlite.c
index dd60163..6447da8 100644
--- a/src/jsiSqlite.c
+++ b/src/jsiSqlite.c
@@ -1319,6 +1319,14 @@ static void dbCollateNeeded(
 
 }
 
+/* The text of a collation is not null terminated. */
+static Jsi_Value *dbCollateStr(Jsi_Interp *interp, const void *z, int n) {
+    uchar *uptr = (uchar*)Jsi_Malloc(n+1);
+    memcpy(uptr, z, n);
+    uptr[n] = 0;
+    return Jsi_ValueMakeBlob(interp, NULL, uptr, n);
+}
+
 /*
 ** This routine is called to evaluate an SQL collation function implemented
 ** using JSI script.
@@ -1338,9 +1346,10 @@ static int dbSqlCollate(
     Jsi_Value *vpargs, *items[3], *ret;
 
     items[0] = Jsi_ValueNewObj(interp, p->db->fobj);
-    items[1] = Jsi_ValueMakeStringDup(interp, NULL, (char*)zA);
-    items[2] = Jsi_ValueMakeStringDup(interp, NULL, (char*)zB);
+    items[1] = dbCollateStr(interp, zA, nA);
+    items[2] = dbCollateStr(interp, zB, nB);
     vpargs = Jsi_ValueMakeObject(interp, NULL, Jsi_ObjNewArray(interp, items, 3, 0));
+    Jsi_IncrRefCount(interp, vpargs);
     ret = Jsi_ValueNew1(interp);
     rc = Jsi_FunctionInvoke(interp, p->zScript, vpargs, &ret, NULL);
     if( JSI_OK!=rc ) {
-- 
2.43.0


From 6c51af0641ab50a03eb7510e5e3851d80680669f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:24 +0000
Subject: [PATCH 115/242] fix: Sqlite func refused functions of more than 6
 arguments

---
 src/jsiSqlite.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jsiSqlite.c b/src/jsiSqlite.c
index 6447da8..75d2351 100644
--- a/src/jsiSqlite.c
+++ b/src/jsiSqlite.c
@@ -3299,7 +3299,7 @@ static Jsi_RC SqliteFunctionCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *
     } else {
         Jsi_FunctionArguments(interp, tocall, &nArg);
     }
-    if (nArg > SQLITE_LIMIT_FUNCTION_ARG) 
+    if (nArg > sqlite3_limit(db->db, SQLITE_LIMIT_FUNCTION_ARG, -1)) 
         return Jsi_LogErrorExt("to many args");
     /*  if( argc==6 ){
         const char *z = Jsi_GetString(objv[3]);
-- 
2.43.0


From a25c551567cb9fbc9a14aa36ad7d511b0b993e3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:24 +0000
Subject: [PATCH 116/242] fix: Sqlite func returned normally when the function
 could not be created

---
 src/jsiSqlite.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/jsiSqlite.c b/src/jsiSqlite.c
index 75d2351..4e966e9 100644
--- a/src/jsiSqlite.c
+++ b/src/jsiSqlite.c
@@ -3328,8 +3328,7 @@ static Jsi_RC SqliteFunctionCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *
                                  pFunc, jsiSqlFunc, 0, 0);
                                  
     if( rc!=SQLITE_OK ) {
-        rc = JSI_ERROR;
-        Jsi_LogErrorExt("function create error: %s", (char *)sqlite3_errmsg(db->db));
+        return Jsi_LogErrorExt("function create error: %s", (char *)sqlite3_errmsg(db->db));
     }
     return JSI_OK;
 }
-- 
2.43.0


From 410c6bf7cfc0e8d9a6387042e6d17a0cdca0833d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:04 +0000
Subject: [PATCH 117/242] fix: Sqlite import left its transaction open when the
 rollback could not be released

---
 src/jsiSqlite.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/jsiSqlite.c b/src/jsiSqlite.c
index 4e966e9..48fbdc6 100644
--- a/src/jsiSqlite.c
+++ b/src/jsiSqlite.c
@@ -2391,6 +2391,7 @@ static Jsi_RC SqliteImportCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_t
     Jsi_Db *db;
     if (!(db = dbGetDbHandle(interp, _this, funcPtr))) return JSI_ERROR;
     db->disableAuth++;
+    bool outer = sqlite3_get_autocommit(db->db);
     int rc = sqlite3_exec(db->db, "SAVEPOINT _jsi_import", 0, 0, 0);
     db->disableAuth--;
     if (rc != SQLITE_OK)
@@ -2400,7 +2401,7 @@ static Jsi_RC SqliteImportCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_t
     if (rv == JSI_OK && sqlite3_exec(db->db, "RELEASE _jsi_import", 0, 0, 0) != SQLITE_OK)
         rv = Jsi_LogErrorExt("%s", sqlite3_errmsg(db->db));
     if (rv != JSI_OK)
-        (void)sqlite3_exec(db->db, "ROLLBACK TO _jsi_import; RELEASE _jsi_import", 0, 0, 0);
+        (void)sqlite3_exec(db->db, (outer?"ROLLBACK":"ROLLBACK TO _jsi_import; RELEASE _jsi_import"), 0, 0, 0);
     db->disableAuth--;
     return rv;
 }
-- 
2.43.0


From 6c58ac331616279d9b5e05dcaf63ea709632e2dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:04 +0000
Subject: [PATCH 118/242] fix: after an error that rolled back the whole Sqlite
 transaction, the rest of it ran and stayed

---
 src/jsiSqlite.c | 35 +++++++++++++++++++++++++++++++++++
 1 file changed, 35 insertions(+)

diff --git a/src/jsiSqlite.c b/src/jsiSqlite.c
index 48fbdc6..468efaf 100644
--- a/src/jsiSqlite.c
+++ b/src/jsiSqlite.c
@@ -247,6 +247,7 @@ typedef struct Jsi_Db {
     int timeout;
     int stepCnt, sortCnt;          /* Statistics for most recent operation */
     int nTransaction;          /* Number of nested [transaction] methods */
+    int transLost;             /* An error rolled back all of the current transaction. */
     int errCnt;               /* Count of errors. */
     Jsi_Value *vfs;
     int hasOpts;
@@ -485,6 +486,19 @@ static void dbReleaseColumnNames(DbEvalContext *p);
 static void dbReleaseStmt( Jsi_Db *db, SqlPreparedStmt *pPreStmt, int discard );
 
 
+/* Some errors, such as a full disk, end the whole transaction: what follows in it may not run on its own. */
+static void dbTransFailed(Jsi_Db *db) {
+    if (db->nTransaction>0 && sqlite3_get_autocommit(db->db))
+        db->transLost = 1;
+}
+
+static Jsi_RC dbTransCheck(Jsi_Db *db) {
+    Jsi_Interp *interp = db->interp;
+    if (db->transLost && sqlite3_get_autocommit(db->db))
+        return Jsi_LogErrorExt("transaction was rolled back by an earlier error");
+    return JSI_OK;
+}
+
 /* Step statement. Return JSI_OK if there is a ROW result, JSI_BREAK if done, else JSI_ERROR. */
 static Jsi_RC dbEvalStepSub(DbEvalContext *p, int release, int *erc) {
     int rcs;
@@ -521,6 +535,7 @@ static Jsi_RC dbEvalStepSub(DbEvalContext *p, int release, int *erc) {
         /* If a run-time error occurs, report the error and stop reading
         ** the SQL.  */
         Jsi_LogErrorExt("%s", sqlite3_errmsg(db->db));
+        dbTransFailed(db);
         dbReleaseStmt(db, pPreStmt, 1);
         return JSI_ERROR;
     } else {
@@ -689,6 +704,8 @@ static Jsi_RC dbPrepareStmt(
     JSI_NOTUSED(interp);
 
     *ppPreStmt = 0;
+    if (dbTransCheck(db) != JSI_OK)
+        return JSI_ERROR;
 
     /* Trim spaces from the start of zSql and calculate the remaining length. */
     while( isspace(zSql[0]) ) {
@@ -1750,6 +1767,15 @@ static Jsi_RC dbTransPostCmd(
     const char *zEnd;
 
     db->nTransaction--;
+    if (db->transLost && sqlite3_get_autocommit(db->db)) {
+        if (rc != JSI_ERROR)
+            rc = dbTransCheck(db);
+        if (db->nTransaction==0)
+            db->transLost = 0;
+        return rc;
+    }
+    if (db->nTransaction==0)
+        db->transLost = 0;
     zEnd = azEnd[(rc==JSI_ERROR)*2 + (db->nTransaction==0)];
 
     db->disableAuth++;
@@ -1769,6 +1795,7 @@ static Jsi_RC dbTransPostCmd(
             rc = JSI_ERROR;
         }
         sqlite3_exec(db->db, "ROLLBACK", 0, 0, 0);
+        dbTransFailed(db);
     }
     db->disableAuth--;
 
@@ -2390,6 +2417,8 @@ static Jsi_RC SqliteImportCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_t
 {
     Jsi_Db *db;
     if (!(db = dbGetDbHandle(interp, _this, funcPtr))) return JSI_ERROR;
+    if (dbTransCheck(db) != JSI_OK)
+        return JSI_ERROR;
     db->disableAuth++;
     bool outer = sqlite3_get_autocommit(db->db);
     int rc = sqlite3_exec(db->db, "SAVEPOINT _jsi_import", 0, 0, 0);
@@ -2402,6 +2431,7 @@ static Jsi_RC SqliteImportCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_t
         rv = Jsi_LogErrorExt("%s", sqlite3_errmsg(db->db));
     if (rv != JSI_OK)
         (void)sqlite3_exec(db->db, (outer?"ROLLBACK":"ROLLBACK TO _jsi_import; RELEASE _jsi_import"), 0, 0, 0);
+    dbTransFailed(db);
     db->disableAuth--;
     return rv;
 }
@@ -2425,6 +2455,8 @@ static Jsi_RC SqliteEvalCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_thi
         Jsi_LogInfo("SQL-EVAL: %s", zSql);
     Jsi_LogTraceExt("SQL-EVAL: %s", zSql);
 
+    if (dbTransCheck(db) != JSI_OK)
+        return JSI_ERROR;
     while( zSql && zSql[0] && (SQLITE_OK == rc) ) {
         rc = sqlite3_prepare_v2(db->db, zSql, -1, &pStmt, &zLeftover);
 
@@ -2461,6 +2493,7 @@ static Jsi_RC SqliteEvalCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_thi
         if (zStart[0] == '\n') lnum++;
         zStart++;
     }
+    dbTransFailed(db);
     zErrMsg = sqlite3_errmsg(db->db);
     Jsi_LogErrorExt("sqlite error: %s in statement at line %d", (zErrMsg ? zErrMsg : ""), lnum);
     return JSI_ERROR;
@@ -3477,6 +3510,8 @@ static Jsi_RC SqliteTransactionCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Valu
         return Jsi_LogErrorExt("expected function");
 
     /* Run the SQLite BEGIN command to open a transaction or savepoint. */
+    if (dbTransCheck(db) != JSI_OK)
+        return JSI_ERROR;
     db->disableAuth++;
     rc = sqlite3_exec(db->db, zBegin, 0, 0 ,0);
     db->disableAuth--;
-- 
2.43.0


From 02d8a5771c96e16dfeadcd2cf6389bce0df210ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:07 +0000
Subject: [PATCH 119/242] fix: in column mode of a Sqlite query, a name as wide
 as its column ran into the next one

---
 src/jsiSqlite.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jsiSqlite.c b/src/jsiSqlite.c
index 468efaf..254a1cf 100644
--- a/src/jsiSqlite.c
+++ b/src/jsiSqlite.c
@@ -2886,9 +2886,9 @@ static Jsi_RC SqliteQueryCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_th
                     }
                     w = (j<wids[i] ? j : wids[i]);
                     Jsi_DSAppendLen(dStr, apColName[i], w);
-                    w = (j<wids[i] ? wids[i]-j+1 : 0);
-                    while (w-- > 0)
+                    for (; w < wids[i]; w++)
                         Jsi_DSAppend(dStr, " ", NULL);
+                    Jsi_DSAppend(dStr, (i<nCol-1 ? opts.separator : " "), NULL);
                 }
                 for(i=0; i<nCol && opts.headers; i++) {
                     w = wids[i];
-- 
2.43.0


From b3718333f8a84f42435a2ac698e899ccae0f5191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:07 +0000
Subject: [PATCH 120/242] fix: column mode of a Sqlite query cut and padded
 text by bytes, splitting characters

---
 src/jsiSqlite.c | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/jsiSqlite.c b/src/jsiSqlite.c
index 254a1cf..e7e44c9 100644
--- a/src/jsiSqlite.c
+++ b/src/jsiSqlite.c
@@ -2873,7 +2873,7 @@ static Jsi_RC SqliteQueryCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_th
                 wids = (int*)Jsi_Calloc(nCol, sizeof(int));
                 Jsi_DSInit(&sStr);
                 for(i=0; i<nCol; i++) {
-                    int j = Jsi_Strlen(apColName[i]);
+                    int j = Jsi_NumUtfChars(apColName[i], -1);
                     wids[i] = (j<10?10:j);
                     if (width) {
                         Jsi_Value *wv = Jsi_ValueArrayIndex(interp, width, i);
@@ -2885,14 +2885,12 @@ static Jsi_RC SqliteQueryCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_th
                         }
                     }
                     w = (j<wids[i] ? j : wids[i]);
-                    Jsi_DSAppendLen(dStr, apColName[i], w);
+                    Jsi_DSAppendLen(dStr, apColName[i], Jsi_UtfIndexToOffset(apColName[i], w));
                     for (; w < wids[i]; w++)
                         Jsi_DSAppend(dStr, " ", NULL);
                     Jsi_DSAppend(dStr, (i<nCol-1 ? opts.separator : " "), NULL);
                 }
                 for(i=0; i<nCol && opts.headers; i++) {
-                    w = wids[i];
-                    w -= Jsi_Strlen(apColName[i]);
                     if (i) {
                         Jsi_DSAppend(dStr, opts.separator, NULL);
                         Jsi_DSAppend(&sStr, opts.separator, NULL);
@@ -2913,9 +2911,9 @@ static Jsi_RC SqliteQueryCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_th
                     Jsi_DSAppend(dStr, opts.separator, NULL);
                 Jsi_DSSetLength(&vStr, 0);
                 dbEvalSetColumn(&sEval, i, &vStr);
-                int nl = Jsi_DSLength(&vStr);
+                int nl = Jsi_NumUtfChars(Jsi_DSValue(&vStr), -1);
                 if (nl > wids[i]) {
-                    Jsi_DSSetLength(&vStr, wids[i]);
+                    Jsi_DSSetLength(&vStr, Jsi_UtfIndexToOffset(Jsi_DSValue(&vStr), wids[i]));
                     w = 0;
                 } else {
                     w = wids[i]-nl;
-- 
2.43.0


From ae0624813ae2ce0c2ccbd42faa93916ea15f513d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:07 +0000
Subject: [PATCH 121/242] fix: insert mode of a Sqlite query wrote an infinite
 value as SQL that can not be read

---
 src/jsiSqlite.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/jsiSqlite.c b/src/jsiSqlite.c
index e7e44c9..1481eec 100644
--- a/src/jsiSqlite.c
+++ b/src/jsiSqlite.c
@@ -2954,6 +2954,8 @@ static Jsi_RC SqliteQueryCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_th
                 }else if( ptype ==SQLITE_TEXT ) {
                   if( zSep[0] ) Jsi_DSAppend(dStr,zSep, NULL);
                   dbOutputQuotedString(dStr, azArg);
+                }else if (ptype==SQLITE_FLOAT && !Jsi_NumberIsFinite(dv = sqlite3_column_double(pStmt, i))) {
+                  Jsi_DSAppend(dStr, zSep, (dv>0 ? "1e999" : "-1e999"), NULL);
                 }else if (ptype==SQLITE_INTEGER || ptype ==SQLITE_FLOAT) {
                   Jsi_DSAppend(dStr, zSep, azArg, NULL);
                 }else if (ptype ==SQLITE_BLOB) {
-- 
2.43.0


From 5604417d8edee02581cb9dfb1f240eacf797403b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:07 +0000
Subject: [PATCH 122/242] fix: insert mode of a Sqlite query did not escape a
 quote in the table name

---
 src/jsiSqlite.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/jsiSqlite.c b/src/jsiSqlite.c
index 1481eec..b291ff5 100644
--- a/src/jsiSqlite.c
+++ b/src/jsiSqlite.c
@@ -2937,7 +2937,12 @@ static Jsi_RC SqliteQueryCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_th
             int i;
             int nCol;
             const char *tbl = (opts.table ? opts.table : "table");
-            Jsi_DSAppend(dStr, "INSERT INTO \"", tbl, "\" VALUES(", NULL);
+            Jsi_DSAppend(dStr, "INSERT INTO \"", NULL);
+            for (; *tbl; tbl++) {
+                if (*tbl == '"') Jsi_DSAppend(dStr, "\"", NULL);
+                Jsi_DSAppendLen(dStr, tbl, 1);
+            }
+            Jsi_DSAppend(dStr, "\" VALUES(", NULL);
             dbEvalRowInfo(&sEval, &nCol, &apColName, &apColType);
             for(i=0; i<nCol; i++) {
                 Jsi_Number dv;
-- 
2.43.0


From 8988f3b733cbfdef72c0fdf63227a2030eb97bb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:36 +0000
Subject: [PATCH 123/242] fix: Sqlite import misread quoted column names: the
 last one, and those with a quote or separator in them

---
 src/jsiSqlite.c | 37 +++++++++++++++++++++++++------------
 1 file changed, 25 insertions(+), 12 deletions(-)

diff --git a/src/jsiSqlite.c b/src/jsiSqlite.c
index b291ff5..2ba2d25 100644
--- a/src/jsiSqlite.c
+++ b/src/jsiSqlite.c
@@ -2210,23 +2210,36 @@ static Jsi_RC dbImport(Jsi_Interp *interp, Jsi_Db *db, Jsi_Value *args, Jsi_Valu
             return JSI_ERROR;
         }
         Jsi_Close(interp, in);
-        char *zn, *ze, *z = zLine;
+        char *zn, *ze, *zo, *zq, *z = zLine;
         Jsi_DString cStr = {};
         int zlen = 0, icnt = 0;
-        Jsi_DSAppend(&cStr, "CREATE TABLE IF NOT EXISTS '", zTable, "' (", NULL);
+        zq = sqlite3_mprintf("CREATE TABLE IF NOT EXISTS '%q' (", zTable);
+        Jsi_DSAppend(&cStr, zq, NULL);
+        sqlite3_free(zq);
         while (1) {
-            zn = Jsi_Strstr(z, zSep);
-            if (!zn) zlen = Jsi_Strlen(z);
-            else zlen = zn-z;
+            if (opts.csv && *z=='"') { /* Unquote in place, as for the values. */
+                for (ze = z+1, zo = z, zn = NULL; *ze; ze++) {
+                    if (*ze == '"') {
+                        if (ze[1] == '"')
+                            ze++;
+                        else if (ze[1] == 0)
+                            break;
+                        else if (Jsi_Strncmp(ze+1,zSep, nSep)==0) {
+                            zn = ze+1;
+                            break;
+                        }
+                    }
+                    *zo++ = *ze;
+                }
+                *zo = 0;
+            } else if ((zn = Jsi_Strstr(z, zSep)))
+                *zn = 0;
+            zlen = Jsi_Strlen(z);
             if (zlen<=0) break;
-            ze = z+zlen-1;
-            Jsi_DSAppend(&cStr, (icnt?",":""), "'", NULL);
+            zq = sqlite3_mprintf("%s'%q'", (icnt?",":""), z);
+            Jsi_DSAppend(&cStr, zq, NULL);
+            sqlite3_free(zq);
             icnt++;
-            if (opts.csv && *z=='"' && zn>z && *ze == '"')
-                Jsi_DSAppendLen(&cStr, z+1, zlen-2);
-            else
-                Jsi_DSAppendLen(&cStr, z, zlen);
-            Jsi_DSAppend(&cStr, "'", NULL);
             if (!zn) break;
             z = zn+nSep;
         }
-- 
2.43.0


From 0367e1ff8195c36b045e64c385c5884e9df81a19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:39 +0000
Subject: [PATCH 124/242] fix: an option whose value is verified, such as width
 of a Sqlite query, was written outside of its structure

---
 src/jsiOptions.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/jsiOptions.c b/src/jsiOptions.c
index 1a2f903..f300202 100644
--- a/src/jsiOptions.c
+++ b/src/jsiOptions.c
@@ -1166,7 +1166,7 @@ static Jsi_RC jsi_ValueToVerify(Jsi_Interp *interp, Jsi_OptionSpec* spec, Jsi_Va
 {
     if (inStr)
         return JSI_ERROR;
-    Jsi_Value **s = (Jsi_Value**)((char*)record) + spec->offset;
+    Jsi_Value **s = (Jsi_Value**)(((char*)record) + spec->offset);
     Jsi_ValueHandlerProc *vfunc = (Jsi_ValueHandlerProc*)spec->data;
     if (!vfunc) 
         return Jsi_LogError("custom value spec did not set data: %s", spec->name);
@@ -1178,9 +1178,10 @@ static Jsi_RC jsi_ValueToVerify(Jsi_Interp *interp, Jsi_OptionSpec* spec, Jsi_Va
     }
     if (vfunc(interp, inValue, spec, record) != JSI_OK)
         return JSI_ERROR;
-    *s = inValue;
+    Jsi_IncrRefCount(interp, inValue);
     if (*s)
-        Jsi_IncrRefCount(interp, *s);
+        Jsi_DecrRefCount(interp, *s);
+    *s = inValue;
     return JSI_OK;
 }
 
@@ -1199,6 +1200,8 @@ static void jsi_VerifyFree(Jsi_Interp *interp, Jsi_OptionSpec* spec, void *ptr)
     Jsi_Value **v = (Jsi_Value**)ptr;
     if (v && *v)
         Jsi_DecrRefCount(interp, *v);
+    if (v)
+        *v = NULL;
 }
 
 static Jsi_OptionCustom jsi_OptSwitchValueVerify = {
-- 
2.43.0


From 8075e8ebe1861efc73ea9f9afd5945a5d0964c8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:29 +0000
Subject: [PATCH 125/242] fix: an empty blob read by a Sqlite query was null

---
 src/jsiSqlite.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/jsiSqlite.c b/src/jsiSqlite.c
index 2ba2d25..790ffe3 100644
--- a/src/jsiSqlite.c
+++ b/src/jsiSqlite.c
@@ -1817,11 +1817,11 @@ static void dbEvalSetColumnJSON(DbEvalContext *p, int iCol, Jsi_DString *dStr) {
     case SQLITE_BLOB: {
         int bytes = sqlite3_column_bytes(pStmt, iCol);
         const char *zBlob = (char*)sqlite3_column_blob(pStmt, iCol);
-        if( !zBlob ) {
+        if( !zBlob && bytes>0 ) {
             Jsi_DSAppend(dStr, "null", NULL);
             return;
         }
-        Jsi_JSONQuote(interp, zBlob, bytes, dStr);
+        Jsi_JSONQuote(interp, (zBlob?zBlob:""), bytes, dStr);
         return;
     }
     case SQLITE_INTEGER: {
@@ -1923,10 +1923,11 @@ static Jsi_Value* dbEvalSetColumnValue(DbEvalContext *p, int iCol, Jsi_Value **v
     case SQLITE_BLOB: {
         int bytes = sqlite3_column_bytes(pStmt, iCol);
         const char *zBlob = (char*)sqlite3_column_blob(pStmt, iCol);
-        if( !zBlob )
+        if( !zBlob && bytes>0 )
             return Jsi_ValueMakeNull(interp, val);
         unsigned char *uptr = (unsigned char*)Jsi_Malloc(bytes+1);
-        memcpy(uptr, zBlob, bytes);
+        if (bytes>0)
+            memcpy(uptr, zBlob, bytes);
         uptr[bytes] = 0;
         return Jsi_ValueMakeBlob(interp, val, uptr, bytes);
         break;
-- 
2.43.0


From 8c5b85b523f753e6108948ca5e10fbb1c93ebd29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:36 +0000
Subject: [PATCH 126/242] fix: an error inside a catch or finally, or after a
 throw left a with, did not reach the enclosing catch with its message

---
 src/jsiEval.c  | 27 ++++++++++++++++++++-------
 src/jsiInt.h   |  3 ++-
 src/jsiUtils.c |  3 +--
 3 files changed, 23 insertions(+), 10 deletions(-)

diff --git a/src/jsiEval.c b/src/jsiEval.c
index 7c19407..89289a7 100644
--- a/src/jsiEval.c
+++ b/src/jsiEval.c
@@ -310,20 +310,34 @@ static const char *jsiEvalPrint(Jsi_Value *v)
     }
     return buf;
 }
+/* Will an error that happens now reach a catch? */
+bool jsi_InTry(Jsi_Interp *interp) {
+    jsi_Frame *fp = interp->framePtr;
+    return (fp->tryDepth - fp->withDepth - fp->catchDepth)>0;
+}
+
+static void jsiTryState(Jsi_Interp* interp, jsi_TryList *t, bool inCatch, bool inFinal)
+{
+    interp->framePtr->catchDepth += (inCatch|inFinal) - (t->inCatch|t->inFinal);
+    t->inCatch = inCatch;
+    t->inFinal = inFinal;
+}
+
 /* destroy top of trylist */
 #define pop_try(head) jsiPopTry(interp, &head)
 static void jsiPopTry(Jsi_Interp* interp, jsi_TryList **head)
 {
     interp->framePtr->tryDepth--;
     jsi_TryList *t = (*head)->next;
+    if ((*head)->type == jsi_TL_WITH)
+        interp->framePtr->withDepth--;
+    jsiTryState(interp, *head, 0, 0);
     Jsi_Free(*head);
     *head = t;
-    interp->tryList = t;
 }
 
 static void jsiPushTry(Jsi_Interp* interp, jsi_TryList **head, jsi_TryList *n)
 {
-    interp->tryList = n;
     interp->framePtr->tryDepth++;
     n->next = *head;
     *head = n;
@@ -2012,7 +2026,7 @@ undef_eval:
                     throwStr = "catch";
                     rc = JSI_ERROR;
                 } else {
-                    trylist->inCatch=1;
+                    jsiTryState(interp, trylist, 1, 0);
                     /* new scope and make var */
                     scope = jsi_ScopeChainDupNext(interp, scope, currentScope);
                     currentScope = jsi_ObjValueNew(interp);
@@ -2040,7 +2054,7 @@ undef_eval:
                 if (trylist == NULL || trylist->type != jsi_TL_TRY)
                     Jsi_LogBug("Unexpected ECATCH opcode??");
 
-                trylist->inCatch=0;
+                jsiTryState(interp, trylist, 0, 0);
                 ip = trylist->d.td.fstart - 1;
                 break;
             }
@@ -2049,7 +2063,7 @@ undef_eval:
                     Jsi_LogBug("Unexpected SFINAL opcode??");
 
                 /* restore scatch scope chain */
-                trylist->inFinal = 1;
+                jsiTryState(interp, trylist, 0, 1);
                 JSI_RESTORE_SCOPE();
                 break;
             }
@@ -2057,7 +2071,7 @@ undef_eval:
                 if (trylist == NULL || trylist->type != jsi_TL_TRY)
                     Jsi_LogBug("Unexpected EFINAL opcode??");
 
-                trylist->inFinal = 0;
+                jsiTryState(interp, trylist, 0, 0);
                 int last_op = trylist->d.td.last_op;
                 jsi_OpCode *tojmp = (last_op == jsi_LOP_JMP ? trylist->d.td.ld.tojmp : 0);
                 
@@ -2144,7 +2158,6 @@ undef_eval:
                 JSI_RESTORE_SCOPE();
                 
                 pop_try(trylist);
-                fp->withDepth--;
                 break;
             }
             case OP_DEBUG: {
diff --git a/src/jsiInt.h b/src/jsiInt.h
index 29c5f17..ab7b077 100644
--- a/src/jsiInt.h
+++ b/src/jsiInt.h
@@ -715,6 +715,7 @@ typedef struct jsi_Frame {
     int Sp;
     int tryDepth;
     int withDepth;
+    int catchDepth;        // Number of enclosing trys that are in their catch or finally.
     jsi_ScopeChain* ingsc;
     Jsi_Value *fargs;      // Function call args.
     Jsi_Value *incsc;      // Initial args
@@ -1106,7 +1107,6 @@ struct Jsi_Interp {
     Jsi_Value *safeWriteDirs;
     const char *safeExecPattern;
     Jsi_DebugInterp debugOpts;
-    struct jsi_TryList *tryList;
     bool deleting;
     bool destroying;
     uint EventHdlId;
@@ -1548,6 +1548,7 @@ extern Jsi_RC jsi_RegExpMatches(Jsi_Interp *interp, Jsi_Value *pattern, const ch
 extern Jsi_RC Jsi_CleanValue(Jsi_Interp *interp, Jsi_Interp *tointerp, Jsi_Value *val, Jsi_Value **ret); //TODO: EXPORT
 extern void jsi_SysPutsCmdPrefix(Jsi_Interp *interp, jsi_LogOptions *popts,Jsi_DString *dStr, int* quote, const char **fnPtr);
 extern void jsi_DumpStackTrace(Jsi_Interp *interp);
+extern bool jsi_InTry(Jsi_Interp *interp);
 extern char jsi_toHexChar(char code);
 extern char jsi_fromHexChar(char ch);
 extern bool Jsi_StrIsAlnum(const char *cp);
diff --git a/src/jsiUtils.c b/src/jsiUtils.c
index 44c99f8..a993f9e 100644
--- a/src/jsiUtils.c
+++ b/src/jsiUtils.c
@@ -209,8 +209,7 @@ Jsi_RC Jsi_LogMsg(Jsi_Interp *interp, Jsi_PkgOpts* popts, uint code, const char
         if (interp->framePtr->level > 1 && !fp->tryDepth)
             jsi_DumpStackTrace(interp);
 
-        if ((fp->tryDepth - fp->withDepth)>0 && interp->inParse<=0 
-            && (!interp->tryList || !(interp->tryList->inCatch|interp->tryList->inFinal))) { 
+        if (jsi_InTry(interp) && interp->inParse<=0) {
             /* Should only do the first or traceback? */
             if (!interp->errMsgBuf[0]) {
                 
-- 
2.43.0


From 902e1c8141da3c92c6decdf2d5e6298fa6b30dd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:36 +0000
Subject: [PATCH 127/242] fix: a catch could receive an earlier exception that
 had been handled, such as one in a timer, and finally could lose the one it
 held

---
 src/jsiCmds.c |  1 +
 src/jsiEval.c | 70 +++++++++++++++++++++++++++++++++++----------------
 src/jsiInt.h  |  2 ++
 3 files changed, 52 insertions(+), 21 deletions(-)

diff --git a/src/jsiCmds.c b/src/jsiCmds.c
index 21a3f5d..59968f9 100644
--- a/src/jsiCmds.c
+++ b/src/jsiCmds.c
@@ -314,6 +314,7 @@ int Jsi_EventProcess(Jsi_Interp *interp, int maxEvents)
                 goto bail;
             }
             Jsi_LogError("event function call failure");
+            jsi_ErrorReset(interp);
         }
         hPtr = Jsi_HashEntryFind(interp->eventTbl, (void*)ids[i]);
         if (!hPtr || Jsi_HashValueGet(hPtr) != evPtr) {
diff --git a/src/jsiEval.c b/src/jsiEval.c
index 89289a7..9f196f8 100644
--- a/src/jsiEval.c
+++ b/src/jsiEval.c
@@ -75,8 +75,11 @@ static Jsi_RC jsiEvalOp(Jsi_Interp* interp, jsi_Pstate *ps, char *program,
         interp->ps = newps;
         r = jsi_evalcode(newps, NULL, newps->opcodes, scope, currentScope, _this, ret, interp->framePtr->filePtr);
         if (r) {
-            Jsi_ValueDup2(interp, &ps->last_exception, newps->last_exception);
+            if (newps->last_exception)
+                Jsi_ValueDup2(interp, &ps->last_exception, newps->last_exception);
         }
+        if (newps->last_exception)
+            Jsi_ValueReset(interp, &newps->last_exception);
         newps->eval_flag = oef;
         interp->ps = ps;
     } else  {
@@ -316,6 +319,27 @@ bool jsi_InTry(Jsi_Interp *interp) {
     return (fp->tryDepth - fp->withDepth - fp->catchDepth)>0;
 }
 
+/* Forget an exception that was handled in C: it must not be seen by a later catch. */
+void jsi_ErrorReset(Jsi_Interp *interp) {
+    if (interp->ps->last_exception && interp->ps->last_exception->vt != JSI_VT_UNDEF)
+        Jsi_ValueReset(interp, &interp->ps->last_exception);
+    if (interp->framePtr->tryDepth)
+        interp->errMsgBuf[0] = 0;
+}
+
+/* Take the current exception: the value thrown, or else the message. */
+static void jsiTakeException(Jsi_Interp* interp, jsi_Pstate *ps, Jsi_Value **ret)
+{
+    if (!*ret)
+        *ret = Jsi_ValueNew1(interp);
+    if (ps->last_exception && ps->last_exception->vt != JSI_VT_UNDEF) {
+        Jsi_ValueCopy(interp, *ret, ps->last_exception);
+        Jsi_ValueReset(interp, &ps->last_exception);
+    } else
+        Jsi_ValueMakeStringDup(interp, ret, interp->errMsgBuf);
+    interp->errMsgBuf[0] = 0;
+}
+
 static void jsiTryState(Jsi_Interp* interp, jsi_TryList *t, bool inCatch, bool inFinal)
 {
     interp->framePtr->catchDepth += (inCatch|inFinal) - (t->inCatch|t->inFinal);
@@ -332,6 +356,8 @@ static void jsiPopTry(Jsi_Interp* interp, jsi_TryList **head)
     if ((*head)->type == jsi_TL_WITH)
         interp->framePtr->withDepth--;
     jsiTryState(interp, *head, 0, 0);
+    if ((*head)->pending)
+        Jsi_DecrRefCount(interp, (*head)->pending);
     Jsi_Free(*head);
     *head = t;
 }
@@ -369,13 +395,16 @@ static Jsi_RC jsiDoThrow(Jsi_Interp *interp, jsi_Pstate *ps, jsi_OpCode **ipp, j
         return JSI_ERROR;
     jsi_TryList *trylist = *tlp;
     Jsi_RC rc = JSI_OK;
-    const char *str;
+    const char *str, *estr;
     while (1) {
         if (trylist == NULL) {
             str = (top?Jsi_ValueString(interp, top, NULL):"");
             if (str) {
                 if (!Jsi_Strcmp(nam, "help"))
                     Jsi_LogInfo("...%s", str);
+                else if (!Jsi_Strcmp(nam, "finally") && ps->last_exception
+                    && (estr = Jsi_ValueString(interp, ps->last_exception, NULL)))
+                    Jsi_LogError("%s", estr);
                 else if (str[0] != '!')
                     Jsi_LogError("%s near \"%s\"", nam, str);                    
                 else {
@@ -395,12 +424,7 @@ static Jsi_RC jsiDoThrow(Jsi_Interp *interp, jsi_Pstate *ps, jsi_OpCode **ipp, j
                 break;
             } else if (*ipp >= trylist->d.td.cstart && *ipp < trylist->d.td.cend) {
                 trylist->d.td.last_op = jsi_LOP_THROW; // in "catch"
-                if ((*ipp)->op == OP_THROW && interp->framePtr->tryDepth==1) {
-                    rc = JSI_ERROR; // TODO: fix nested exception error msg propagation
-                    if (ps->last_exception &&
-                        ((str = Jsi_ValueString(interp, ps->last_exception, NULL))))
-                        Jsi_LogError("%s near \"%s\"", nam, str);
-                }
+                jsiTakeException(interp, ps, &trylist->pending);
                 *ipp = trylist->d.td.fstart - 1;
                 break;
             } else if (*ipp >= trylist->d.td.fstart && *ipp < trylist->d.td.fend) {
@@ -1318,7 +1342,7 @@ Jsi_RC jsiEvalCodeSub(jsi_Pstate *ps, Jsi_OpCodes *opcodes,
                 /* TODO: need reliable way to capture func string name to handle unknown functions.*/
                 int discard = ((ip+1)<end && ip[1].op == OP_POP);
                 switch (jsiEvalFunction(ps, ip, discard)) {        /* throw an execption */
-                    case JSI_OK: break;
+                    case JSI_OK: jsi_ErrorReset(interp); break;
                     case JSI_EXIT: rc = JSI_EXIT; break;
                     case JSI_BREAK:
                         if (fp->tryDepth<=0)
@@ -2034,16 +2058,7 @@ undef_eval:
                     fp->incsc = currentScope;
                     Jsi_IncrRefCount(interp, currentScope);
                     Jsi_Value *excpt = Jsi_ValueNew1(interp);
-                    if (ps->last_exception && ps->last_exception->vt != JSI_VT_UNDEF) {
-                        //TODO: DONE??? fix test262 crash in freeValueTbl@jsiInterp.c:565 for last_exception which is
-                        // freed in jsi_PstateFree@jsiPstate.c:251. Is this code the problem?
-                        Jsi_Value *ple = ps->last_exception;
-                        Jsi_ValueCopy(interp, excpt, ple);
-                        Jsi_ValueReset(interp, &ps->last_exception);
-                    } else {
-                        Jsi_ValueMakeStringDup(interp, &excpt, interp->errMsgBuf);
-                        interp->errMsgBuf[0] = 0;
-                    }
+                    jsiTakeException(interp, ps, &excpt);
                     Jsi_ValueInsert(interp, currentScope, (char*)ip->data, excpt, JSI_OM_DONTENUM);
                     Jsi_DecrRefCount(interp, excpt);
                     context_id = ps->_context_id++;
@@ -2075,6 +2090,8 @@ undef_eval:
                 int last_op = trylist->d.td.last_op;
                 jsi_OpCode *tojmp = (last_op == jsi_LOP_JMP ? trylist->d.td.ld.tojmp : 0);
                 
+                if (last_op == jsi_LOP_THROW && trylist->pending)
+                    Jsi_ValueDup2(interp, &ps->last_exception, trylist->pending);
                 pop_try(trylist);
 
                 if (last_op == jsi_LOP_THROW) {
@@ -2286,8 +2303,17 @@ Jsi_RC jsi_evalcode(jsi_Pstate *ps, Jsi_Func *func, Jsi_OpCodes *opcodes,
     interp->refCount++;
     interp->level++;
     Jsi_IncrRefCount(interp, fargs);
+    // An exception on its way while C code calls back is kept, unless the call ends in another one.
+    Jsi_Value *excpt = NULL;
+    if (interp->errMsgBuf[0] || (ps->last_exception && ps->last_exception->vt != JSI_VT_UNDEF))
+        jsiTakeException(interp, ps, &excpt);
     rc = jsiEvalCodeSub(ps, opcodes, scope, fargs, _this, *vret);
     Jsi_DecrRefCount(interp, fargs);
+    if (excpt) {
+        if (rc == JSI_OK)
+            Jsi_ValueDup2(interp, &ps->last_exception, excpt);
+        Jsi_DecrRefCount(interp, excpt);
+    }
     if (interp->didReturn == 0 && !interp->exited && rc == JSI_OK) {
         if ((interp->evalFlags&JSI_EVAL_RETURN)==0)
             Jsi_ValueMakeUndef(interp, vret);
@@ -2752,8 +2778,10 @@ cont:
         //interp->curFile = curFile;
         if (rc == JSI_ERROR && ignore)
             rc = JSI_OK;
-        else if (ps->last_exception || oldps->last_exception)
-            Jsi_ValueDup2(interp, &oldps->last_exception, ps->last_exception); //TODO: dup even if null?
+        else if (rc == JSI_ERROR && ps->last_exception)
+            Jsi_ValueDup2(interp, &oldps->last_exception, ps->last_exception);
+        if (ps->last_exception)
+            Jsi_ValueReset(interp, &ps->last_exception);
         interp->ps = oldps;
         interp->evalFlags = oldef;
         if (rc == JSI_OK && ps && !ostr)
diff --git a/src/jsiInt.h b/src/jsiInt.h
index ab7b077..c83cbaf 100644
--- a/src/jsiInt.h
+++ b/src/jsiInt.h
@@ -1085,6 +1085,7 @@ typedef struct jsi_TryList {
     struct jsi_TryList *next;
     bool inCatch;
     bool inFinal;
+    Jsi_Value *pending;                 /* exception that waits for the finally block to end */
 } jsi_TryList;
 
 
@@ -1549,6 +1550,7 @@ extern Jsi_RC Jsi_CleanValue(Jsi_Interp *interp, Jsi_Interp *tointerp, Jsi_Value
 extern void jsi_SysPutsCmdPrefix(Jsi_Interp *interp, jsi_LogOptions *popts,Jsi_DString *dStr, int* quote, const char **fnPtr);
 extern void jsi_DumpStackTrace(Jsi_Interp *interp);
 extern bool jsi_InTry(Jsi_Interp *interp);
+extern void jsi_ErrorReset(Jsi_Interp *interp);
 extern char jsi_toHexChar(char code);
 extern char jsi_fromHexChar(char ch);
 extern bool Jsi_StrIsAlnum(const char *cp);
-- 
2.43.0


From dce47235a289177f48869f54f7a0259961848b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:32 +0000
Subject: [PATCH 128/242] fix: strings from a sub-interp were cut at a NUL, and
 could be used after the sub-interp was deleted

---
 src/jsiInterp.c | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/src/jsiInterp.c b/src/jsiInterp.c
index d19dd74..e5c250d 100644
--- a/src/jsiInterp.c
+++ b/src/jsiInterp.c
@@ -228,7 +228,7 @@ Jsi_RC Jsi_CleanValue(Jsi_Interp *interp, Jsi_Interp *tointerp, Jsi_Value *val,
 {
     Jsi_RC rc = JSI_OK;
     const char *cp;
-    int len, iskey;
+    int len;
     Jsi_Obj *obj;
     switch (val->vt) {
         case JSI_VT_UNDEF: Jsi_ValueMakeUndef(tointerp, ret); return rc;
@@ -236,14 +236,9 @@ Jsi_RC Jsi_CleanValue(Jsi_Interp *interp, Jsi_Interp *tointerp, Jsi_Value *val,
         case JSI_VT_BOOL: Jsi_ValueMakeBool(tointerp, ret, val->d.val); return rc;
         case JSI_VT_NUMBER: Jsi_ValueMakeNumber(tointerp, ret, val->d.num); return rc;
         case JSI_VT_STRING:
-            iskey = 1;//val->f.bits.isstrkey;
             cp = val->d.s.str;
             len = val->d.s.len;
 makestr:
-            if (iskey) {
-                Jsi_ValueMakeStringKey(interp, ret, cp);
-                return rc;
-            }
             jsi_ValueMakeBlobDup(tointerp, ret, (uchar*)cp, len);
             return rc;
         case JSI_VT_OBJECT:
@@ -254,7 +249,6 @@ makestr:
                 case JSI_OT_STRING:
                     cp = obj->d.s.str;
                     len = obj->d.s.len;
-                    iskey = obj->isstrkey;
                     goto makestr;
                 default: break;
             }
-- 
2.43.0


From 4b2ab5a53abe3eec0bf9010f124691d482af02d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:32 +0000
Subject: [PATCH 129/242] fix: an exception that left a sub-interp, or an alias
 called in one, lost its value, or was seen again by a later catch

---
 src/jsiInterp.c | 52 +++++++++++++++++++++++++++++++++++--------------
 1 file changed, 37 insertions(+), 15 deletions(-)

diff --git a/src/jsiInterp.c b/src/jsiInterp.c
index e5c250d..652b20e 100644
--- a/src/jsiInterp.c
+++ b/src/jsiInterp.c
@@ -223,6 +223,24 @@ Jsi_RC Jsi_CommandInvokeJSON(Jsi_Interp *interp, const char *cmdstr, const char
     return Jsi_LogError("can not find cmd: %s", cmdstr);
 }
 
+/* Move the exception that ended a call in one interp to the interp that made the call. */
+static void jsi_InterpErrMove(Jsi_Interp *interp, Jsi_Interp *tointerp)
+{
+    Jsi_Value *v = interp->ps->last_exception;
+    if (v && v->vt != JSI_VT_UNDEF) {
+        if (!tointerp->ps->last_exception)
+            tointerp->ps->last_exception = Jsi_ValueNew1(tointerp);
+        Jsi_CleanValue(interp, tointerp, v, &tointerp->ps->last_exception);
+        Jsi_ValueReset(interp, &interp->ps->last_exception);
+    }
+    if (interp->errMsgBuf[0]) {
+        Jsi_Strcpy(tointerp->errMsgBuf, interp->errMsgBuf);
+        tointerp->errLine = interp->errLine;
+        tointerp->errFile = interp->errFile;
+        interp->errMsgBuf[0] = 0;
+    }
+}
+
 /* Clean-copying of value between interps: uses JSON parse if needed. */
 Jsi_RC Jsi_CleanValue(Jsi_Interp *interp, Jsi_Interp *tointerp, Jsi_Value *val, Jsi_Value **ret)
 {
@@ -343,7 +361,12 @@ Jsi_RC jsi_AliasInvoke(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,
         srPtr = Jsi_ValueNew1(dinterp);
         srpPtr = &srPtr;
     }
+    bool inTry = (dinterp != interp && jsi_InTry(interp));
+    if (inTry)
+        dinterp->framePtr->tryDepth++;
     Jsi_RC rc = Jsi_FunctionInvoke(dinterp, ac->func, nargs, srpPtr, NULL);
+    if (inTry)
+        dinterp->framePtr->tryDepth--;
     ac->refCount--;
     if (inc)
         Jsi_DecrRefCount(dinterp, nargs);
@@ -357,12 +380,8 @@ Jsi_RC jsi_AliasInvoke(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,
     if (dinterp != interp) {
         Jsi_CleanValue(dinterp, interp, *srpPtr, ret);
         Jsi_DecrRefCount(dinterp, srPtr);
-        if (rc != JSI_OK && dinterp->errMsgBuf[0] && interp != dinterp) {
-            Jsi_Strcpy(interp->errMsgBuf, dinterp->errMsgBuf);
-            interp->errLine = dinterp->errLine;
-            interp->errFile = dinterp->errFile;
-            dinterp->errMsgBuf[0] = 0;
-        }
+        if (rc != JSI_OK)
+            jsi_InterpErrMove(dinterp, interp);
     }
     return rc;
 }
@@ -2127,7 +2146,8 @@ static Jsi_RC InterpEvalCmd_(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_th
         if (interp->isSafe)
             sinterp->noCheck = 0;
         sinterp->level++;
-        if (interp->framePtr->tryDepth)
+        bool inTry = jsi_InTry(interp);
+        if (inTry)
             sinterp->framePtr->tryDepth++;
         if (isFile) {
             int sflags = 0;
@@ -2146,15 +2166,10 @@ static Jsi_RC InterpEvalCmd_(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_th
             rc = (jsi_evalStrFile(sinterp, NULL, cp, 0, lev) == 0 ? JSI_OK : JSI_ERROR);
         }
         sinterp->noCheck = onoerror;
-        if (interp->framePtr->tryDepth) {
+        if (inTry)
             sinterp->framePtr->tryDepth--;
-            if (rc != JSI_OK && interp != sinterp) {
-                Jsi_Strcpy(interp->errMsgBuf, sinterp->errMsgBuf);
-                interp->errLine = sinterp->errLine;
-                interp->errFile = sinterp->errFile;
-                sinterp->errMsgBuf[0] = 0;
-            }
-        }
+        if (rc != JSI_OK && interp != sinterp)
+            jsi_InterpErrMove(sinterp, interp);
         sinterp->level--;
     } else {
         if (Jsi_MutexLock(interp, sinterp->QMutex) != JSI_OK)
@@ -2521,7 +2536,14 @@ static Jsi_RC InterpCallCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_thi
         Jsi_Value *srPtr = Jsi_ValueNew1(sinterp);
         /* TODO: call from this interp may not be safe if threaded.
          * Could instead use async code below then wait for unlock on se->mutex. */
+        bool inTry = (!isthrd && jsi_InTry(interp));
+        if (inTry)
+            sinterp->framePtr->tryDepth++;
         rc = Jsi_CommandInvokeJSON(sinterp, fname, cp, &srPtr);
+        if (inTry)
+            sinterp->framePtr->tryDepth--;
+        if (rc != JSI_OK && !isthrd)
+            jsi_InterpErrMove(sinterp, interp);
         Jsi_DSSetLength(&dStr, 0);
         Jsi_CleanValue(sinterp, interp, srPtr, ret);
         //Jsi_ValueCopy(interp, *ret, srPtr);
-- 
2.43.0


From 6547938f52ded0402b89871c9051ef0701aecdca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:32 +0000
Subject: [PATCH 130/242] fix: call of a deleted alias read through a null
 pointer

---
 src/jsiInterp.c | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/jsiInterp.c b/src/jsiInterp.c
index 652b20e..2e32ae9 100644
--- a/src/jsiInterp.c
+++ b/src/jsiInterp.c
@@ -290,14 +290,12 @@ Jsi_RC jsi_AliasInvoke(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,
     Jsi_Value **ret, Jsi_Func *funcPtr)
 {
     AliasCmd *ac = (AliasCmd *)funcPtr->cmdSpec->reserved[2];
-    Jsi_Interp *dinterp = ac->dinterp;
     Jsi_Value *nargs = NULL;
     int inc=0, argc = Jsi_ValueGetLength(interp, args);
-    if (!ac) {
-        Jsi_LogBug("BAD ALIAS INVOKE OF DELETED");
-        return JSI_ERROR;
-    }
+    if (!ac)
+        return Jsi_LogError("alias was deleted");
     SIGASSERT(ac,ALIASCMD);
+    Jsi_Interp *dinterp = ac->dinterp;
     bool isthrd = (interp != dinterp && interp->threadId != dinterp->threadId);
     Jsi_Value *nrPtr = Jsi_ValueNew1(dinterp);
 
-- 
2.43.0


From 6b8aa5bd48309eebf52391291fa57a9a4439481e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:32 +0000
Subject: [PATCH 131/242] fix: an alias with invalid arguments was refused but
 left behind, unusable

---
 src/jsiInterp.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/jsiInterp.c b/src/jsiInterp.c
index 2e32ae9..e3ae1d6 100644
--- a/src/jsiInterp.c
+++ b/src/jsiInterp.c
@@ -489,13 +489,13 @@ static Jsi_RC InterpAliasCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_th
         Jsi_HashEntryDelete(hPtr);
         return JSI_OK;
     }
-    hPtr = Jsi_HashEntryNew(aliases, (void*)key, &isNew);
-    if (!hPtr)
-        return Jsi_LogError("create failed: %s", key);
     if (!Jsi_ValueIsFunction(interp, afunc))
         return Jsi_LogError("arg 2: expected function");
     if (Jsi_ValueIsNull(interp, aargs) == 0 && Jsi_ValueIsArray(interp, aargs) == 0)
         return Jsi_LogError("arg 3: expected array or null");
+    hPtr = Jsi_HashEntryNew(aliases, (void*)key, &isNew);
+    if (!hPtr)
+        return Jsi_LogError("create failed: %s", key);
     if (!isNew) {
         jsi_AliasFree(interp, NULL, Jsi_HashValueGet(hPtr));
     }
-- 
2.43.0


From b186f0591a17f709c79053e0e15e2d2e8d3a4e48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:26 +0000
Subject: [PATCH 132/242] fix: value and uplevel of a sub-interp that is not
 running always failed

---
 src/jsiInterp.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jsiInterp.c b/src/jsiInterp.c
index e3ae1d6..ffc13a2 100644
--- a/src/jsiInterp.c
+++ b/src/jsiInterp.c
@@ -2123,7 +2123,7 @@ static Jsi_RC InterpEvalCmd_(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_th
         lev = (int)nlev;
         if (lev <= 0)
             lev = f->level+lev;
-        if (lev <= 0 || lev > f->level)
+        if (lev < 0 || (lev == 0 && f->level > 0) || lev > f->level)
             return Jsi_LogError("level %d not between 1 and %d", (int)nlev, f->level);
     }
 
@@ -2281,7 +2281,7 @@ static Jsi_RC InterpValueCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_th
     int lev = (int)nlev;
     if (lev <= 0)
         lev = f->level+lev;
-    if (lev <= 0 || lev > f->level)
+    if (lev < 0 || (lev == 0 && f->level > 0) || lev > f->level)
         return Jsi_LogError("level %d not between 1 and %d", (int)nlev, f->level);
     while (f->level != lev  && f->parent)
         f = f->parent;
-- 
2.43.0


From 892b465ab0db041b90a3569c88e1416946031ced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:08 +0000
Subject: [PATCH 133/242] fix: a caught error had no message when the same
 place had failed before and that was handled elsewhere

---
 src/jsiUtils.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jsiUtils.c b/src/jsiUtils.c
index a993f9e..c470d6d 100644
--- a/src/jsiUtils.c
+++ b/src/jsiUtils.c
@@ -162,7 +162,7 @@ Jsi_RC Jsi_LogMsg(Jsi_Interp *interp, Jsi_PkgOpts* popts, uint code, const char
         return (code==JSI_LOG_ERROR?JSI_ERROR:JSI_OK);
     if (code == JSI_LOG_ERROR) {
         if (interp->curIp) {
-            if (interp->curIpLastError == interp->curIp)
+            if (interp->curIpLastError == interp->curIp && (!jsi_InTry(interp) || interp->errMsgBuf[0]))
                 return JSI_ERROR;
             interp->curIpLastError = interp->curIp;
         }
-- 
2.43.0


From a5b8f122dba62b0b82872d08a3f7d75e557e70bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:47 +0000
Subject: [PATCH 134/242] fix: deleting an alias in the function it calls used
 the alias after it was freed

---
 src/jsiInterp.c | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/jsiInterp.c b/src/jsiInterp.c
index ffc13a2..74e6c43 100644
--- a/src/jsiInterp.c
+++ b/src/jsiInterp.c
@@ -174,6 +174,7 @@ typedef struct {
     InterpObj *intobj;
     Jsi_Interp *dinterp; // Dest interp.
     Jsi_Interp *subinterp;
+    bool deleted;       // Deleted while it was being called.
 } AliasCmd;
 
 
@@ -353,7 +354,11 @@ Jsi_RC jsi_AliasInvoke(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,
             return JSI_ERROR;
         }
     }
-    ac->refCount++;
+    ac->refCount++; // The function may delete the alias.
+    Jsi_Value *func = ac->func;
+    Jsi_IncrRefCount(dinterp, func);
+    if (inc==0 && nargs)
+        Jsi_IncrRefCount(dinterp, nargs);
     Jsi_Value *srPtr, **srpPtr = ret;
     if (dinterp != interp) {
         srPtr = Jsi_ValueNew1(dinterp);
@@ -362,10 +367,14 @@ Jsi_RC jsi_AliasInvoke(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,
     bool inTry = (dinterp != interp && jsi_InTry(interp));
     if (inTry)
         dinterp->framePtr->tryDepth++;
-    Jsi_RC rc = Jsi_FunctionInvoke(dinterp, ac->func, nargs, srpPtr, NULL);
+    Jsi_RC rc = Jsi_FunctionInvoke(dinterp, func, nargs, srpPtr, NULL);
+    Jsi_DecrRefCount(dinterp, func);
     if (inTry)
         dinterp->framePtr->tryDepth--;
-    ac->refCount--;
+    if (inc==0 && nargs)
+        Jsi_DecrRefCount(dinterp, nargs);
+    if (--ac->refCount<=0 && ac->deleted)
+        Jsi_Free(ac);
     if (inc)
         Jsi_DecrRefCount(dinterp, nargs);
     Jsi_DecrRefCount(dinterp, nrPtr);
@@ -405,6 +414,10 @@ static Jsi_RC jsi_AliasFree(Jsi_Interp *interp, Jsi_HashEntry *hPtr, void *data)
         //    Jsi_LogBug("alias free with X.Y dot name leaks memory: %s", ac->cmdName);
     } else
         Jsi_DecrRefCount(ac->subinterp, ac->cmdVal);
+    if (ac->refCount>0) {
+        ac->deleted = 1;
+        return JSI_OK;
+    }
     _JSI_MEMCLEAR(ac);
     Jsi_Free(ac);
     return JSI_OK;
-- 
2.43.0


From d23b545c7068d03d09bdc550de7a9179ec261bde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:47 +0000
Subject: [PATCH 135/242] fix: an alias that could not be created was reported
 as a bug of the program and left behind

---
 src/jsiInterp.c | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/jsiInterp.c b/src/jsiInterp.c
index 74e6c43..14126a3 100644
--- a/src/jsiInterp.c
+++ b/src/jsiInterp.c
@@ -429,7 +429,7 @@ static Jsi_RC jsi_AliasCreateCmd(Jsi_Interp* interp, const char* key, AliasCmd*
     key = Jsi_KeyAdd(interp, key);
     Jsi_Value *cmd = jsi_CommandCreate(interp, key, jsi_AliasInvoke, NULL, 0, 0);
     if (!cmd)
-        return Jsi_LogBug("command create failure");
+        return JSI_ERROR;
     ac->cmdVal = cmd;
     Jsi_Func *fobj = cmd->d.obj->d.fobj->func;
     fobj->cmdSpec->reserved[2] = ac;
@@ -525,8 +525,17 @@ static Jsi_RC InterpAliasCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_th
     ac->dinterp = interp;
     ac->subinterp = sinterp;
     Jsi_HashValueSet(hPtr, ac);
-    if (!isthrd)
-        return jsi_AliasCreateCmd(sinterp, key, ac);
+    if (!isthrd) {
+        if (jsi_AliasCreateCmd(sinterp, key, ac) == JSI_OK)
+            return JSI_OK;
+        Jsi_HashValueSet(hPtr, NULL);
+        Jsi_HashEntryDelete(hPtr);
+        Jsi_DecrRefCount(interp, ac->func);
+        if (ac->args)
+            Jsi_DecrRefCount(interp, ac->args);
+        Jsi_Free(ac);
+        return Jsi_LogError("can not create alias: %s", key);
+    }
 
     Jsi_Value *vasync = Jsi_ValueArrayIndex(interp, args, 3);
     bool async = 0;
-- 
2.43.0


From 921a0ef8f37111fb2c737661c1ce1c42cca75266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:28 +0000
Subject: [PATCH 136/242] fix: call of an undefined name was reported as about
 an earlier, other subscript

---
 src/jsiEval.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/jsiEval.c b/src/jsiEval.c
index 9f196f8..c9b4680 100644
--- a/src/jsiEval.c
+++ b/src/jsiEval.c
@@ -771,6 +771,8 @@ static Jsi_RC jsiFunctionSubCall(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value
     if (tocall->vt == JSI_VT_UNDEF && tocall->f.bits.lookupfailed && tocall->d.lookupFail && !interp->noAutoLoad) {
         spnam = tocall->d.lookupFail;
         tocall->f.bits.lookupfailed = 0;
+        if (interp->lastSubscriptFail) // Is not about this name.
+            Jsi_ValueReset(interp, &interp->lastSubscriptFail);
         tocall = jsi_LoadFunction(interp, spnam, tocall);
         interp->lastPushStr = (char*)spnam;
         interp->curIp = ip;
-- 
2.43.0


From 991d53fe7871b45604bdd1ecf19d86e8d85e853a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:55 +0000
Subject: [PATCH 137/242] fix: an exception was lost when it left an eval of
 the same text as the running code

---
 src/jsiEval.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/jsiEval.c b/src/jsiEval.c
index c9b4680..b05eaff 100644
--- a/src/jsiEval.c
+++ b/src/jsiEval.c
@@ -75,10 +75,10 @@ static Jsi_RC jsiEvalOp(Jsi_Interp* interp, jsi_Pstate *ps, char *program,
         interp->ps = newps;
         r = jsi_evalcode(newps, NULL, newps->opcodes, scope, currentScope, _this, ret, interp->framePtr->filePtr);
         if (r) {
-            if (newps->last_exception)
+            if (newps->last_exception && newps != ps)
                 Jsi_ValueDup2(interp, &ps->last_exception, newps->last_exception);
         }
-        if (newps->last_exception)
+        if (newps->last_exception && newps != ps) // Same when it is the code that is running already.
             Jsi_ValueReset(interp, &newps->last_exception);
         newps->eval_flag = oef;
         interp->ps = ps;
@@ -2780,9 +2780,9 @@ cont:
         //interp->curFile = curFile;
         if (rc == JSI_ERROR && ignore)
             rc = JSI_OK;
-        else if (rc == JSI_ERROR && ps->last_exception)
+        else if (rc == JSI_ERROR && ps->last_exception && ps != oldps)
             Jsi_ValueDup2(interp, &oldps->last_exception, ps->last_exception);
-        if (ps->last_exception)
+        if (ps->last_exception && ps != oldps) // Same when it is the code that is running already.
             Jsi_ValueReset(interp, &ps->last_exception);
         interp->ps = oldps;
         interp->evalFlags = oldef;
-- 
2.43.0


From 5ca5078acd945c993aee0b88f6abd3912ca01935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:56 +0000
Subject: [PATCH 138/242] fix: a string thrown in a finally that nothing
 catches was not reported

---
 src/jsiEval.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/jsiEval.c b/src/jsiEval.c
index b05eaff..3ec4b3c 100644
--- a/src/jsiEval.c
+++ b/src/jsiEval.c
@@ -419,6 +419,8 @@ static Jsi_RC jsiDoThrow(Jsi_Interp *interp, jsi_Pstate *ps, jsi_OpCode **ipp, j
         if (trylist->type == jsi_TL_TRY) {
             int n = interp->framePtr->Sp - trylist->d.td.tsp;
             jsiPop(interp, n);
+            if (n>0 && top && !Jsi_Strcmp(nam, "throw"))
+                top = ps->last_exception;
             if (*ipp >= trylist->d.td.tstart && *ipp < trylist->d.td.tend) {
                 *ipp = trylist->d.td.cstart - 1; // in "try"
                 break;
-- 
2.43.0


From e9a0f0f149e2d8ce8a8908a69d586f92b5143236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:30 +0000
Subject: [PATCH 139/242] fix: an error that a finally in a function passed on,
 and nothing caught, was not reported

---
 src/jsiEval.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/jsiEval.c b/src/jsiEval.c
index 3ec4b3c..f65fe64 100644
--- a/src/jsiEval.c
+++ b/src/jsiEval.c
@@ -399,12 +399,12 @@ static Jsi_RC jsiDoThrow(Jsi_Interp *interp, jsi_Pstate *ps, jsi_OpCode **ipp, j
     while (1) {
         if (trylist == NULL) {
             str = (top?Jsi_ValueString(interp, top, NULL):"");
-            if (str) {
+            if (!Jsi_Strcmp(nam, "finally") && ps->last_exception
+                && (estr = Jsi_ValueString(interp, ps->last_exception, NULL)))
+                Jsi_LogError("%s", estr);
+            else if (str) {
                 if (!Jsi_Strcmp(nam, "help"))
                     Jsi_LogInfo("...%s", str);
-                else if (!Jsi_Strcmp(nam, "finally") && ps->last_exception
-                    && (estr = Jsi_ValueString(interp, ps->last_exception, NULL)))
-                    Jsi_LogError("%s", estr);
                 else if (str[0] != '!')
                     Jsi_LogError("%s near \"%s\"", nam, str);                    
                 else {
-- 
2.43.0


From 41effa779e1c376ac0642a128a0169fc2dac8408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:02 +0000
Subject: [PATCH 140/242] fix: arrays and objects in udata and safeReadDirs of
 a new sub-interp had no methods

---
 src/jsiInterp.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/jsiInterp.c b/src/jsiInterp.c
index 14126a3..982f750 100644
--- a/src/jsiInterp.c
+++ b/src/jsiInterp.c
@@ -1499,6 +1499,14 @@ static Jsi_Interp* jsi_InterpNew(Jsi_Interp *parent, Jsi_Value *opts, Jsi_Interp
 
     if (interp->pkgDirs) // Fix-up because above, array was not yet initialized.
         interp->pkgDirs->d.obj->__proto__ = interp->Array_prototype;
+    Jsi_Value **opvs[] = { &interp->udata, &interp->safeReadDirs, &interp->safeWriteDirs }; // Nor were these.
+    uint opi;
+    for (opi=0; opi<sizeof(opvs)/sizeof(opvs[0]); opi++) {
+        if (!*opvs[opi]) continue;
+        Jsi_Value *opv = Jsi_ValueDupJSON(interp, *opvs[opi]);
+        Jsi_DecrRefCount(interp, *opvs[opi]);
+        *opvs[opi] = opv;
+    }
 
     Jsi_Value *modObj = Jsi_ValueNewObj(interp, Jsi_ObjNewType(interp, JSI_OT_OBJECT));
     Jsi_ValueInsert(interp, interp->csc, "Jsi_Auto", modObj, JSI_OM_DONTDEL);
-- 
2.43.0


From 28b9e70dc0646cf36a49d0092db19b85424eac10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:12 +0000
Subject: [PATCH 141/242] fix: a safe interp could change its safeReadDirs and
 safeWriteDirs, through the arrays that conf returns

---
 src/jsiOptions.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/jsiOptions.c b/src/jsiOptions.c
index f300202..d6a09a1 100644
--- a/src/jsiOptions.c
+++ b/src/jsiOptions.c
@@ -779,7 +779,12 @@ jsi_GetOption(Jsi_Interp *interp, Jsi_OptionSpec *specPtr, void* record, const c
     case JSI_OPTION_VALUE:
     case JSI_OPTION_REGEXP:
     case JSI_OPTION_ARRAY:
-        if (*(Jsi_Value **)ptr)
+        if (*(Jsi_Value **)ptr && (specPtr->flags&JSI_OPT_INIT_ONLY) && (specPtr->id == JSI_OPTION_ARRAY || specPtr->id == JSI_OPTION_OBJ)) {
+            // Must not be changed through the value returned.
+            Jsi_Value *cval = Jsi_ValueDupJSON(interp, *(Jsi_Value **)ptr);
+            Jsi_ValueCopy(interp, *valuePtr, cval);
+            Jsi_DecrRefCount(interp, cval);
+        } else if (*(Jsi_Value **)ptr)
             Jsi_ValueCopy(interp, *valuePtr, *(Jsi_Value **)ptr);
         else
             Jsi_ValueMakeNull(interp, valuePtr);
-- 
2.43.0


From 9ca0084be17030f45066d084d5b1a93f776cd894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:05 +0000
Subject: [PATCH 142/242] fix: an exception that left the script of a new
 sub-interp lost its value

---
 src/jsiInterp.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/jsiInterp.c b/src/jsiInterp.c
index 982f750..9dd0a12 100644
--- a/src/jsiInterp.c
+++ b/src/jsiInterp.c
@@ -2859,7 +2859,9 @@ static Jsi_RC InterpConstructor(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *
     if (0) {
 #endif //JSI_OMIT_THREADS
     } else {
-        //sinterp->framePtr->tryDepth++;
+        bool inTry = jsi_InTry(interp);
+        if (inTry)
+            sinterp->framePtr->tryDepth++;
         if (sinterp->scriptStr != 0) {
             rc = Jsi_EvalString(sinterp, sinterp->scriptStr, JSI_EVAL_ISMAIN);
         } else if (sinterp->scriptFile && !sinterp->debugOpts.debugCallback) {
@@ -2869,14 +2871,12 @@ static Jsi_RC InterpConstructor(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *
             else
                 rc = Jsi_EvalFile(sinterp, sinterp->scriptFile, JSI_EVAL_ISMAIN);
         }
-        //sinterp->framePtr->tryDepth--;
+        if (inTry)
+            sinterp->framePtr->tryDepth--;
         if (rc == JSI_EXIT)
             return JSI_OK;
         if (rc != JSI_OK) {
-            /*Jsi_Strcpy(interp->errMsgBuf, sinterp->errMsgBuf);
-            interp->errLine = sinterp->errLine;
-            interp->errFile = sinterp->errFile;
-            sinterp->errMsgBuf[0] = 0;*/
+            jsi_InterpErrMove(sinterp, interp);
             goto bail;
         }
     }
-- 
2.43.0


From 4beb35f47a8516ea4b5c8daedcd4b4ac69e5ae81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:41 +0000
Subject: [PATCH 143/242] fix: a denied read in a safe sub-interp crashed

---
 src/jsiFilesys.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jsiFilesys.c b/src/jsiFilesys.c
index 3d38a24..3ed05f6 100644
--- a/src/jsiFilesys.c
+++ b/src/jsiFilesys.c
@@ -522,7 +522,7 @@ Jsi_Channel Jsi_Open(Jsi_Interp *interp, Jsi_Value *file, const char *modeString
         if (interp->isSafe) {
             if ((rc && Jsi_InterpAccess(interp, file, JSI_INTACCESS_CREATE) != JSI_OK)
             || (Jsi_InterpAccess(interp, file, aflag) != JSI_OK
-                && (aflag || !interp->opts.argv[0] || Jsi_Strcmp(fileName, Jsi_FileRealpathStr(interp, interp->opts.argv[0], pbuf))))
+                && (aflag || !interp->opts.argv || !interp->opts.argv[0] || Jsi_Strcmp(fileName, Jsi_FileRealpathStr(interp, interp->opts.argv[0], pbuf))))
             ) {
                 if (writ || Jsi_Strcmp(fileName, jsiIntData.execName)) {
                     Jsi_LogError("%s access denied: %s", writ?"write":"read", fileName);
-- 
2.43.0


From 2d697b0cf429733dd31e5817d518e6d76985102b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:41 +0000
Subject: [PATCH 144/242] fix: a safe interp could load shared libraries

---
 src/jsiLoad.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/jsiLoad.c b/src/jsiLoad.c
index faf5d39..d501368 100644
--- a/src/jsiLoad.c
+++ b/src/jsiLoad.c
@@ -46,6 +46,8 @@ Jsi_RC Jsi_LoadLibrary(Jsi_Interp *interp, const char *pathName, bool noInit)
 {
     if (interp->noLoad)
         return Jsi_LogError("shared lib load is disabled");
+    if (interp->isSafe)
+        return Jsi_LogError("no load in safe mode");
 #ifdef __WIN32
     HMODULE handle = LoadLibrary(pathName);
 #else
-- 
2.43.0


From f1666e150a4ed56b0bf51fee27131f0c7b57fdeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:41 +0000
Subject: [PATCH 145/242] fix: a newline in a restricted exec command started a
 second command

---
 src/jsiCmds.c | 2 +-
 src/jsiVfs.c  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jsiCmds.c b/src/jsiCmds.c
index 59968f9..b294790 100644
--- a/src/jsiCmds.c
+++ b/src/jsiCmds.c
@@ -1545,7 +1545,7 @@ Jsi_RC jsi_SysExecCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,
     }
     if (restricted || edata.noRedir) {
         // Sanity check command string to disallow shell escapes, redirection, etc.
-        if (strcspn(cp, "<>|;&$`=") != strlen(cp))
+        if (strcspn(cp, "<>|;&$`=\n") != strlen(cp))
             return Jsi_LogError("restricted chars in exec string: %s", cp);
     }
     int isbg = 0, ec = 0;
diff --git a/src/jsiVfs.c b/src/jsiVfs.c
index 6bbc090..c5e1047 100644
--- a/src/jsiVfs.c
+++ b/src/jsiVfs.c
@@ -825,7 +825,7 @@ static Jsi_RC VfsExecCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,
     if (!cmd || !cmd[0]) 
         return Jsi_LogError("Expected command");
     const char *ops[] = {"fossil info ", "fossil ls ", "fossil cat ", "fossil tag ", NULL};
-    const char *chs = ";&|><*?`$(){}[]!#";
+    const char *chs = ";&|><*?`$(){}[]!#\n";
     int i;
     for (i=0; chs[i]; i++)
         if (Jsi_Strchr(cmd, chs[i]))
-- 
2.43.0


From ce135492e44df3462372904963a37d8e0a2f2486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:03 +0000
Subject: [PATCH 146/242] fix: a safe interp could create files outside its
 safeWriteDirs, through a symlink

---
 src/jsiFilesys.c | 56 ++++++++++++++++++++++++++++++++++++++++++++++++
 src/jsiInt.h     |  2 ++
 src/jsiInterp.c  | 45 ++++++++++++++++++++++++++++----------
 3 files changed, 92 insertions(+), 11 deletions(-)

diff --git a/src/jsiFilesys.c b/src/jsiFilesys.c
index 3ed05f6..5407607 100644
--- a/src/jsiFilesys.c
+++ b/src/jsiFilesys.c
@@ -337,6 +337,62 @@ Jsi_Filesystem* Jsi_FilesystemForPath(Jsi_Interp *interp, Jsi_Value* path, void*
     return (fsl ? fsl->fsPtr : &jsiFilesystem);
 }
 
+bool jsi_FSIsNative(Jsi_Interp *interp, Jsi_Value *path) {
+    return (Jsi_FilesystemForPath(interp, path, NULL) == &jsiFilesystem);
+}
+
+/* Get in buf (of size PATH_MAX) the real path that a system call given path acts on, whose last parts need not exist.
+ * Fails when this is unknown, eg. a dangling link. With "entry" the last part is not followed when it is a link. */
+bool jsi_FSTarget(Jsi_Interp *interp, const char *str, char *buf, bool entry) {
+#ifdef __WIN32
+    return (Jsi_FileRealpathStr(interp, str, buf) != NULL);
+#else
+    if (!str || !*str) return 0;
+    Jsi_DString dStr = {}, rStr = {};
+    struct stat sb;
+    bool ok = 0;
+    Jsi_DSAppend(&dStr, (*str == '~' ? "" : str), NULL);
+    if (*str == '~') {
+        const char *tp = jsi_TildePath(interp, str, &dStr);
+        if (tp == str) Jsi_DSAppend(&dStr, str, NULL);
+    }
+    while (1) {
+        char *cur = Jsi_DSValue(&dStr), *cp;
+        int len = Jsi_DSLength(&dStr);
+        while (len>1 && cur[len-1] == '/')
+            cur[--len] = 0;
+        Jsi_DSSetLength(&dStr, len);
+        if (!len) {
+            Jsi_DSAppend(&dStr, ".", NULL);
+            cur = Jsi_DSValue(&dStr);
+        }
+        if (!entry && realpath(cur, buf)) {
+            ok = (Jsi_Strlen(buf) + Jsi_DSLength(&rStr) < PATH_MAX);
+            break;
+        }
+        if (!entry && !lstat(cur, &sb)) break;
+        entry = 0;
+        cp = Jsi_Strrchr(cur, '/');
+        const char *last = (cp ? cp+1 : cur);
+        if (!*last || !Jsi_Strcmp(last, ".") || !Jsi_Strcmp(last, "..")) break;
+        Jsi_DString tStr = {};
+        Jsi_DSAppend(&tStr, "/", last, Jsi_DSValue(&rStr), NULL);
+        Jsi_DSSetLength(&rStr, 0);
+        Jsi_DSAppend(&rStr, Jsi_DSValue(&tStr), NULL);
+        Jsi_DSFree(&tStr);
+        Jsi_DSSetLength(&dStr, !cp ? 0 : cp==cur ? 1 : cp-cur);
+    }
+    if (ok) {
+        if (!Jsi_Strcmp(buf, "/") && Jsi_DSLength(&rStr))
+            *buf = 0;
+        strcat(buf, Jsi_DSValue(&rStr));
+    }
+    Jsi_DSFree(&dStr);
+    Jsi_DSFree(&rStr);
+    return ok;
+#endif
+}
+
 int Jsi_Readlink(Jsi_Interp *interp, Jsi_Value* path, char *ret, int len) {
 #ifdef __WIN32
     return -1;
diff --git a/src/jsiInt.h b/src/jsiInt.h
index c83cbaf..ce1b8ff 100644
--- a/src/jsiInt.h
+++ b/src/jsiInt.h
@@ -1550,6 +1550,8 @@ extern Jsi_RC Jsi_CleanValue(Jsi_Interp *interp, Jsi_Interp *tointerp, Jsi_Value
 extern void jsi_SysPutsCmdPrefix(Jsi_Interp *interp, jsi_LogOptions *popts,Jsi_DString *dStr, int* quote, const char **fnPtr);
 extern void jsi_DumpStackTrace(Jsi_Interp *interp);
 extern bool jsi_InTry(Jsi_Interp *interp);
+extern bool jsi_FSIsNative(Jsi_Interp *interp, Jsi_Value *path);
+extern bool jsi_FSTarget(Jsi_Interp *interp, const char *str, char *buf, bool entry);
 extern void jsi_ErrorReset(Jsi_Interp *interp);
 extern char jsi_toHexChar(char code);
 extern char jsi_fromHexChar(char ch);
diff --git a/src/jsiInterp.c b/src/jsiInterp.c
index 9dd0a12..18dce4d 100644
--- a/src/jsiInterp.c
+++ b/src/jsiInterp.c
@@ -2995,6 +2995,16 @@ bool Jsi_InterpSafe(Jsi_Interp *interp)
     return interp->isSafe;
 }
 
+static bool jsi_SafeInDir(const char *dir, int m, const char *path)
+{
+    if (!dir || m<=0) return 0;
+    if (!Jsi_Strcmp(dir, path)) // Exact match.
+        return 1;
+    if (Jsi_Strncmp(dir, path, m))
+        return 0;
+    return ((m>1 && dir[m-1]=='/') || path[m] == '/');
+}
+
 Jsi_RC Jsi_InterpAccess(Jsi_Interp *interp, Jsi_Value* resource, int aflag)
 {
     switch (aflag) {
@@ -3025,21 +3035,34 @@ Jsi_RC Jsi_InterpAccess(Jsi_Interp *interp, Jsi_Value* resource, int aflag)
     char *str, *dstr = Jsi_Realpath(interp, resource, pbuf);
     if (!dstr)
         return JSI_ERROR;
-    for (i=0; i<argc; i++) {
+    Jsi_RC rc = JSI_ERROR;
+    for (i=0; i<argc && rc != JSI_OK; i++) {
         v = Jsi_ValueArrayIndex(interp, dirs, i);
         if (!v) continue;
         str = Jsi_ValueString(interp, v, &m);
-        if (!str || m<=0) continue;
-        if (!Jsi_Strcmp(str, dstr)) // Exact match.
-            return JSI_OK;
-        if (Jsi_Strncmp(str, dstr, m))
-            continue;
-        if (m>1 && str[m-1]=='/')
-            return JSI_OK;
-        if (dstr[m] == '/')
-            return JSI_OK;
+        if (jsi_SafeInDir(str, m, dstr))
+            rc = JSI_OK;
     }
-    return JSI_ERROR;
+    if (rc != JSI_OK || !jsi_FSIsNative(interp, resource))
+        return rc;
+    /* Recheck where the system call ends up, for a file that does not exist, or a path with "..". */
+    Jsi_DString dStr = {};
+    int k;
+    for (k=0; k<2 && rc == JSI_OK; k++) {
+        str = (k ? Jsi_ValueNormalPath(interp, resource, &dStr) : Jsi_ValueString(interp, resource, NULL));
+        rc = JSI_ERROR;
+        if (!jsi_FSTarget(interp, str, pbuf, 0))
+            break;
+        for (i=0; i<argc && rc != JSI_OK; i++) {
+            v = Jsi_ValueArrayIndex(interp, dirs, i);
+            if (!v) continue;
+            str = Jsi_ValueString(interp, v, &m);
+            if (jsi_SafeInDir(str, m, pbuf))
+                rc = JSI_OK;
+        }
+    }
+    Jsi_DSFree(&dStr);
+    return rc;
 }
 
 Jsi_Value *Jsi_InterpResult(Jsi_Interp *interp)
-- 
2.43.0


From d56e4bee521669099d3799b0c47c7841812ab0ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:01 +0000
Subject: [PATCH 147/242] fix: File.glob in a safe interp listed directories
 outside safeReadDirs

---
 src/jsiFileCmds.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/jsiFileCmds.c b/src/jsiFileCmds.c
index 17a5332..561301b 100644
--- a/src/jsiFileCmds.c
+++ b/src/jsiFileCmds.c
@@ -975,6 +975,12 @@ static Jsi_RC SubGlobsDirectory(Jsi_Interp *interp, Jsi_Obj* obj, Jsi_Value *reg
     if (dcp) {
         Jsi_ValueMakeString(interp, &rpPath, dcp);
     }*/
+    if (interp->isSafe && Jsi_InterpAccess(interp, rpPath, JSI_INTACCESS_READ) != JSI_OK) {
+        if (cnt) goto done; // Skip a directory, or link to a directory, that may not be read.
+        Jsi_LogError("read access denied by safe interp: %s", GSVal(rpPath));
+        rc = JSI_ERROR;
+        goto done;
+    }
     if ((n=Jsi_Scandir(interp, rpPath, &namelist, 0, alphasort)) < 0) {
         if (opts->recurse && deep) goto done;
         Jsi_LogError("bad directory");
-- 
2.43.0


From 50ea13c839bf9a31b7c6054d3f7fb7ccb7bb7703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:01 +0000
Subject: [PATCH 148/242] fix: a safe interp could remove or rename a symlink
 outside safeWriteDirs, that points inside

---
 src/jsiFileCmds.c | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/src/jsiFileCmds.c b/src/jsiFileCmds.c
index 561301b..5a58e24 100644
--- a/src/jsiFileCmds.c
+++ b/src/jsiFileCmds.c
@@ -58,6 +58,28 @@ static Jsi_RC jsi_SAFEACCESS(Jsi_Interp *interp, Jsi_Value *fname, bool write, b
     return JSI_OK;
 }
 
+/* Check access to the directory entry itself, when that is a symlink. */
+static Jsi_RC jsi_SAFEENTRY(Jsi_Interp *interp, Jsi_Value *fname)
+{
+    char pbuf[PATH_MAX];
+    struct stat sb;
+    const char *str = Jsi_ValueString(interp, fname, NULL);
+    if (!interp->isSafe || !str || !jsi_FSIsNative(interp, fname) || Jsi_Lstat(interp, fname, &sb) || !S_ISLNK(sb.st_mode))
+        return JSI_OK;
+    Jsi_RC rc = JSI_ERROR;
+    char *cp;
+    if (jsi_FSTarget(interp, str, pbuf, 1) && (cp = Jsi_Strrchr(pbuf, '/'))) {
+        cp[cp==pbuf] = 0;
+        Jsi_Value *dir = Jsi_ValueNewStringDup(interp, pbuf);
+        Jsi_IncrRefCount(interp, dir);
+        rc = Jsi_InterpAccess(interp, dir, JSI_INTACCESS_WRITE);
+        Jsi_DecrRefCount(interp, dir);
+    }
+    if (rc != JSI_OK)
+        return Jsi_LogError("write access denied by safe interp: %s", GSVal(fname));
+    return JSI_OK;
+}
+
 static char* getFileTypeCh(int mode, char smode[])
 {
     char c = '-';
@@ -504,6 +526,8 @@ static Jsi_RC FileRenameCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_thi
 
     SAFEACCESS(source, 1, 0)
     SAFEACCESS(dest, 1, 1)
+    if (jsi_SAFEENTRY(interp, source) != JSI_OK || jsi_SAFEENTRY(interp, dest) != JSI_OK)
+        return JSI_ERROR;
     if (vf && !Jsi_ValueIsBoolean(interp, vf)) 
         return Jsi_LogError("expected boolean");
     if (vf)
@@ -657,6 +681,8 @@ static Jsi_RC FileRemoveCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_thi
     const char *spath = GSVal(source);
     int rc, force = 0; 
     SAFEACCESS(source, 1, 0)
+    if (jsi_SAFEENTRY(interp, source) != JSI_OK)
+        return JSI_ERROR;
 
     Jsi_StatBuf st;
     if (vf && !Jsi_ValueIsBoolean(interp, vf)) 
-- 
2.43.0


From 67d4dcb7958bea5e1cf57f2bd53830ffdb2be0bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:01 +0000
Subject: [PATCH 149/242] fix: Zvfs.create removed an archive that it could not
 open for write

---
 src/jsiZvfs.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/jsiZvfs.c b/src/jsiZvfs.c
index cbeb720..3480d1e 100644
--- a/src/jsiZvfs.c
+++ b/src/jsiZvfs.c
@@ -1991,7 +1991,8 @@ static Jsi_RC CreateCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,
             goto doexit;
         }
         chan = Jsi_Open(interp, Archive, "wb+");
-        create = 1;
+        if (chan)
+            create = 1;
     }
     if (chan==0 ) {
         rc = Jsi_LogError("archive create failed for: %s", SS(Archive));
-- 
2.43.0


From 5bdd25cca5eacda04cc65e1f678db325d024277a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:01 +0000
Subject: [PATCH 150/242] fix: a safe interp could source any file with
 Interp.source

---
 src/jsiInterp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jsiInterp.c b/src/jsiInterp.c
index 18dce4d..b0a922c 100644
--- a/src/jsiInterp.c
+++ b/src/jsiInterp.c
@@ -2179,7 +2179,7 @@ static Jsi_RC InterpEvalCmd_(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_th
             sinterp->framePtr->tryDepth++;
         if (isFile) {
             int sflags = 0;
-            if (!sinterp->includeCnt) {
+            if (!sinterp->includeCnt && !(sinterp == interp && interp->isSafe)) {
                 sflags = JSI_EVAL_ARGV0|JSI_EVAL_AUTOINDEX;
                 sinterp->isMain = 1;
             }
-- 
2.43.0


From 504f1246acdcaf6ff6cd54a7eed2b1508d40048b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:01 +0000
Subject: [PATCH 151/242] fix: a safe interp got file access by creating a
 sub-interp with lockDown or confFile

---
 src/jsiInterp.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/jsiInterp.c b/src/jsiInterp.c
index b0a922c..2802c38 100644
--- a/src/jsiInterp.c
+++ b/src/jsiInterp.c
@@ -95,7 +95,7 @@ static Jsi_OptionSpec InterpOptions[] = {
     JSI_OPT(STRKEY,Jsi_Interp, jsppChars,   .help="Line preprocessor when sourcing files. Line starts with first char, and either ends with it, or matches string"),
     JSI_OPT(FUNC,  Jsi_Interp, jsppCallback,.help="Command to preprocess lines that match jsppChars. Call func(interpName:string, opCnt:number)"),
     JSI_OPT(INT,   Jsi_Interp, lockTimeout, .help="Thread time-out for mutex lock acquires (milliseconds)" ),
-    JSI_OPT(STRKEY,Jsi_Interp, lockDown,    .help="Directory to Safe-lockdown interpreter to" ),
+    JSI_OPT(STRKEY,Jsi_Interp, lockDown,    .help="Directory to Safe-lockdown interpreter to", JSI_OPT_LOCKSAFE ),
     JSI_OPT(CUSTOM,Jsi_Interp, logOpts,     .help="Options for log output to add file/line/time", .flags=0, .custom=Jsi_Opt_SwitchSuboption, .data=jsi_InterpLogOptions),
     JSI_OPT(CUSTOM,Jsi_Interp, log,         .help="Logging flags", .flags=JSI_OPT_CUST_NOCASE,  .custom=Jsi_Opt_SwitchBitset,  .data=jsi_LogCodes),
     JSI_OPT(INT,   Jsi_Interp, maxDepth,    .help="Depth limit of recursive function calls (1000)", .flags=JSI_OPT_LOCKSAFE),
@@ -1411,6 +1411,10 @@ static Jsi_Interp* jsi_InterpNew(Jsi_Interp *parent, Jsi_Value *opts, Jsi_Interp
             interp->safeWriteDirs = interp->safeReadDirs = NULL;
             interp->safeExecPattern = NULL;
         }
+        if (interp->lockDown || interp->confFile) {
+            Jsi_LogWarn("ignoring lockDown and confFile in safe sub-sub-interp");
+            interp->lockDown = interp->confFile = NULL;
+        }
         // Enforce LOCKSAFE options.
         interp->maxDepth = parent->maxDepth;
         interp->maxArrayList = parent->maxArrayList;
@@ -1449,7 +1453,7 @@ static Jsi_Interp* jsi_InterpNew(Jsi_Interp *parent, Jsi_Value *opts, Jsi_Interp
         Jsi_LogWarn("non-threaded sub-interp created by different thread than parent");
 #endif
     }
-    if (interp->safeMode != jsi_safe_None)
+    if (interp->safeMode != jsi_safe_None && !(parent && parent->isSafe))
         interp->isSafe = interp->startSafe = 1;
     if (!interp->parent) {
         if (interp->isSafe)
-- 
2.43.0


From 4b71ad39fc986c15ecc650abb09d811b3cc54a4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:01 +0000
Subject: [PATCH 152/242] fix: a safe interp could run functions of its parent,
 by updating a callback option

---
 src/jsiOptions.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/jsiOptions.c b/src/jsiOptions.c
index d6a09a1..f4c8fea 100644
--- a/src/jsiOptions.c
+++ b/src/jsiOptions.c
@@ -1810,6 +1810,8 @@ static Jsi_RC jsi_ValueToParentFunc(Jsi_Interp *interp, Jsi_OptionSpec* spec, Js
     if (!(s=Jsi_ValueString(interp, inValue, NULL))) {
         return Jsi_LogError("expected string or null");
     }
+    if (interp->isSafe && (flags&JSI_OPTS_IS_UPDATE))
+        return Jsi_LogError("isSafe disallows updating option: %s", spec->name);
     val = Jsi_NameLookup(pinterp, s);
     if (!val)
         return Jsi_LogError("value not found in parent: %s", s);
-- 
2.43.0


From 15d07c04657fbd2ef6112f3fbe3003c9ca76c037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:56 +0000
Subject: [PATCH 153/242] fix: a safe interp could use files outside its
 safe*Dirs with Sqlite: ATTACH, VACUUM INTO, backup, restore, extensions and
 symlinks

---
 src/jsiSqlite.c | 67 ++++++++++++++++++++++++++++++++++++++++---------
 1 file changed, 55 insertions(+), 12 deletions(-)

diff --git a/src/jsiSqlite.c b/src/jsiSqlite.c
index 790ffe3..3a1411e 100644
--- a/src/jsiSqlite.c
+++ b/src/jsiSqlite.c
@@ -1538,6 +1538,28 @@ static void jsiSqlFunc(sqlite3_context *context, int argc, sqlite3_value**argv)
     Jsi_DecrRefCount(interp, ret);
 }
 
+/* Can a safe interp open this database file?  If so and dStr is given, the name to use for open is left there. */
+static bool dbSafePath(Jsi_Interp *interp, const char *zFile, bool readonly, Jsi_DString *dStr)
+{
+    Jsi_StatBuf st = {};
+    Jsi_Value *v = Jsi_ValueNewStringDup(interp, zFile);
+    Jsi_IncrRefCount(interp, v);
+    bool ok = (Jsi_Strncmp(zFile, "file:", 5)
+        && Jsi_InterpAccess(interp, v, (readonly ? JSI_INTACCESS_READ : JSI_INTACCESS_WRITE)) == JSI_OK
+        && (readonly || Jsi_Stat(interp, v, &st) == 0 || Jsi_InterpAccess(interp, v, JSI_INTACCESS_CREATE) == JSI_OK));
+    if (ok && dStr) {
+        char pbuf[PATH_MAX], *cp = Jsi_Realpath(interp, v, pbuf);
+        if (!cp)
+            ok = 0;
+        else {
+            Jsi_DSSetLength(dStr, 0);
+            Jsi_DSAppend(dStr, cp, NULL);
+        }
+    }
+    Jsi_DecrRefCount(interp, v);
+    return ok;
+}
+
 /*
 ** This is the authentication function.  It appends the authentication
 ** type code and the two arguments to zCmd[] then invokes the result
@@ -1557,7 +1579,16 @@ static int dbAuthCallback(
     const char *zReply;
     Jsi_Db *db = (Jsi_Db*)pArg;
     Jsi_Interp *interp = db->interp;
-    if( db->disableAuth ) return SQLITE_OK;
+    if( Jsi_InterpSafe(interp) ) {
+        /* These are checked even when the user callback is off. */
+        if( code==SQLITE_ATTACH ) {
+            if( !zArg1 || (zArg1[0] && Jsi_Strcmp(zArg1, ":memory:") && !dbSafePath(interp, zArg1, 0, NULL)) )
+                return SQLITE_DENY;
+        } else if( code==SQLITE_PRAGMA && zArg1 && zArg2
+            && (!sqlite3_stricmp(zArg1, "temp_store_directory") || !sqlite3_stricmp(zArg1, "data_store_directory")) )
+            return SQLITE_DENY;
+    }
+    if( !db->onAuth || db->disableAuth ) return SQLITE_OK;
 
     switch( code ) {
     case SQLITE_COPY              :
@@ -3443,6 +3474,13 @@ static Jsi_RC SqliteRestoreCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_
         zSrcFile = Jsi_ValueNormalPath(interp, vFile, &dStr);
         if (zSrcFile == NULL) 
             return Jsi_LogErrorExt("bad or missing file name");
+        if (Jsi_InterpSafe(interp)) {
+            if (!dbSafePath(interp, Jsi_ValueString(interp, vFile, NULL), 1, &dStr)) {
+                Jsi_DSFree(&dStr);
+                return Jsi_LogErrorExt("Safe accces denied");
+            }
+            zSrcFile = Jsi_DSValue(&dStr);
+        }
     }
     rc = sqlite3_open_v2(zSrcFile, &pSrc, SQLITE_OPEN_READONLY, 0);
 
@@ -3577,6 +3615,13 @@ static Jsi_RC SqliteBackupCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_t
         zDestFile = Jsi_ValueNormalPath(interp, vFile, &dStr);
         if (zDestFile == NULL) 
             return Jsi_LogErrorExt("bad or missing file name");
+        if (Jsi_InterpSafe(interp)) {
+            if (!dbSafePath(interp, Jsi_ValueString(interp, vFile, NULL), 0, &dStr)) {
+                Jsi_DSFree(&dStr);
+                return Jsi_LogErrorExt("Safe accces denied");
+            }
+            zDestFile = Jsi_DSValue(&dStr);
+        }
     }
     rc = sqlite3_open(zDestFile, &pDest);
     if( rc!=SQLITE_OK ) {
@@ -3607,7 +3652,7 @@ static Jsi_RC SqliteBackupCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_t
 
 void dbSetupCallbacks(Jsi_Db *db, Jsi_Db *ojdb)
 {
-    if (db->onAuth)
+    if (db->onAuth || Jsi_InterpSafe(db->interp))
         sqlite3_set_authorizer(db->db, dbAuthCallback, db);
     else
         sqlite3_set_authorizer(db->db, 0, 0);
@@ -3658,7 +3703,7 @@ void dbSetupCallbacks(Jsi_Db *db, Jsi_Db *ojdb)
         sqlite3_progress_handler(db->db, 0, 0, 0);
     
     if (!ojdb || db->load != ojdb->load)
-        sqlite3_enable_load_extension(db->db, db->load);
+        sqlite3_enable_load_extension(db->db, (db->load && !Jsi_InterpSafe(db->interp)));
 
 /*    if (db->onUnlock && (!ojdb || !ojdb->onUnlock) )
         sqlite3_unlock_notify(db->db, dbUnlockNotify, (void*)db);
@@ -3759,7 +3804,7 @@ static Jsi_RC SqliteConstructor(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *
     Jsi_Value *vFile = Jsi_ValueArrayIndex(interp, args, 0);
     Jsi_Value *arg = Jsi_ValueArrayIndex(interp, args, 1);
     Jsi_DString dStr = {};
-    int ismem = 0, create = 0;
+    int ismem = 0;
     Jsi_Obj *fobj;
     Jsi_Value *toacc;
     const char *vf;
@@ -3773,9 +3818,6 @@ static Jsi_RC SqliteConstructor(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *
         zFile = Jsi_ValueNormalPath(interp, vFile, &dStr);
         if (zFile == NULL) 
             return Jsi_LogError("bad or missing file name");
-        Jsi_StatBuf st = {};
-        st.st_uid = -1;
-        create = (Jsi_Lstat(interp, vFile, &st) != 0);
     }
     zErrMsg = 0;
     Jsi_Db *db = (Jsi_Db*)Jsi_Calloc(1, sizeof(*db) );
@@ -3798,11 +3840,12 @@ static Jsi_RC SqliteConstructor(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *
         rc = JSI_ERROR;
         goto bail;
     }
-    if (ismem == 0 &&
-        (Jsi_InterpAccess(interp, vFile, (db->readonly ? JSI_INTACCESS_READ : JSI_INTACCESS_WRITE)) != JSI_OK
-        || (create && Jsi_InterpAccess(interp, vFile, JSI_INTACCESS_CREATE) != JSI_OK))) {
-        Jsi_LogErrorExt("Safe accces denied");
-        goto bail;
+    if (ismem == 0 && Jsi_InterpSafe(interp)) {
+        if (!dbSafePath(interp, vf, db->readonly, &dStr)) {
+            Jsi_LogErrorExt("Safe accces denied");
+            goto bail;
+        }
+        zFile = Jsi_DSValue(&dStr);
     }
 
     if (db->stmtCacheMax<0 || db->stmtCacheMax>MAX_PREPARED_STMTS) {
-- 
2.43.0


From 6315013f6290c5f0e4ba8ee963a0f15f954ab208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:26 +0000
Subject: [PATCH 154/242] fix: File.copy with force, in a safe interp, removed
 a symlink outside safeWriteDirs that points inside

---
 src/jsiFileCmds.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/jsiFileCmds.c b/src/jsiFileCmds.c
index 5a58e24..20c390d 100644
--- a/src/jsiFileCmds.c
+++ b/src/jsiFileCmds.c
@@ -589,6 +589,8 @@ static Jsi_RC FileCopyCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,
     int force = 0; 
     SAFEACCESS(source, 0, 0)
     SAFEACCESS(dest, 1, 1)
+    if (jsi_SAFEENTRY(interp, dest) != JSI_OK)
+        return JSI_ERROR;
     if (vf && !Jsi_ValueIsBoolean(interp, vf)) 
         return Jsi_LogError("expected boolean");
     if (vf)
-- 
2.43.0


From bc106910a813e00d8eeb41b89461be6541f13faa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:38 +0000
Subject: [PATCH 155/242] fix: a safe interp could read files outside
 safeReadDirs that are in safeWriteDirs, by open for update and with Sqlite

---
 src/jsiFilesys.c | 1 +
 src/jsiSqlite.c  | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/jsiFilesys.c b/src/jsiFilesys.c
index 5407607..f2a025c 100644
--- a/src/jsiFilesys.c
+++ b/src/jsiFilesys.c
@@ -577,6 +577,7 @@ Jsi_Channel Jsi_Open(Jsi_Interp *interp, Jsi_Value *file, const char *modeString
     } else {
         if (interp->isSafe) {
             if ((rc && Jsi_InterpAccess(interp, file, JSI_INTACCESS_CREATE) != JSI_OK)
+            || (Jsi_Strchr(s,'+') && !Jsi_Strchr(s,'w') && Jsi_InterpAccess(interp, file, JSI_INTACCESS_READ) != JSI_OK)
             || (Jsi_InterpAccess(interp, file, aflag) != JSI_OK
                 && (aflag || !interp->opts.argv || !interp->opts.argv[0] || Jsi_Strcmp(fileName, Jsi_FileRealpathStr(interp, interp->opts.argv[0], pbuf))))
             ) {
diff --git a/src/jsiSqlite.c b/src/jsiSqlite.c
index 3a1411e..42e4710 100644
--- a/src/jsiSqlite.c
+++ b/src/jsiSqlite.c
@@ -1546,7 +1546,7 @@ static bool dbSafePath(Jsi_Interp *interp, const char *zFile, bool readonly, Jsi
     Jsi_IncrRefCount(interp, v);
     bool ok = (Jsi_Strncmp(zFile, "file:", 5)
         && Jsi_InterpAccess(interp, v, (readonly ? JSI_INTACCESS_READ : JSI_INTACCESS_WRITE)) == JSI_OK
-        && (readonly || Jsi_Stat(interp, v, &st) == 0 || Jsi_InterpAccess(interp, v, JSI_INTACCESS_CREATE) == JSI_OK));
+        && (readonly || Jsi_InterpAccess(interp, v, (Jsi_Stat(interp, v, &st) == 0 ? JSI_INTACCESS_READ : JSI_INTACCESS_CREATE)) == JSI_OK));
     if (ok && dStr) {
         char pbuf[PATH_MAX], *cp = Jsi_Realpath(interp, v, pbuf);
         if (!cp)
-- 
2.43.0


From 57ed8661ba61a4408cbd7d69b0d33636bde3ae4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:38 +0000
Subject: [PATCH 156/242] fix: File.glob with a regexp read freed memory, and
 failed or returned the files of a glob after it

---
 src/jsiFileCmds.c | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/jsiFileCmds.c b/src/jsiFileCmds.c
index 20c390d..03f2061 100644
--- a/src/jsiFileCmds.c
+++ b/src/jsiFileCmds.c
@@ -1237,7 +1237,7 @@ static Jsi_RC FileGlobCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,
     //int len;
     //char *zPattern = NULL;
     const char *dcp, *zPattern = NULL;
-    Jsi_DString dStr;
+    Jsi_DString dStr, cStr = {};
     Jsi_DSInit(&dStr);
     
     Data.flags = JSI_FILE_TYPE_FILES;
@@ -1280,12 +1280,10 @@ static Jsi_RC FileGlobCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,
     if (!Data.limit)
         Data.limit = interp->maxArrayList;
     if (!Data.dir) {
-        Jsi_DString dStr = {};
-        dcp = Jsi_GetCwd(interp, &dStr);
+        dcp = Jsi_GetCwd(interp, &cStr);
         Data.dirLen = Jsi_Strlen(dcp);
         Data.dir = Jsi_ValueNewStringDup(interp, dcp);
         Jsi_IncrRefCount(interp, Data.dir);
-        Jsi_DSFree(&dStr);
         isOpts = 1;
     } else {
         dcp = Data.dirStr = Jsi_ValueString(interp, Data.dir, &Data.dirLen);
@@ -1313,9 +1311,10 @@ static Jsi_RC FileGlobCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,
     }
     if (pat == NULL || Jsi_ValueIsNull(interp, pat))
         dcp = "*";
-    else if (Jsi_ValueIsObjType(interp, pat, JSI_OT_REGEXP))
+    else if (Jsi_ValueIsObjType(interp, pat, JSI_OT_REGEXP)) {
         rc = SubGlobsDirectory(interp, obj, pat, NULL, dcp, &Data, 0, 0, _this);
-    else {
+        goto finish;
+    } else {
         dcp = Jsi_ValueString(interp, pat, NULL);
         if (!dcp) {
             rc = Jsi_LogError("expected string, regex or null");
@@ -1337,6 +1336,7 @@ static Jsi_RC FileGlobCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,
         dcp = Jsi_DSAppend(&dStr, dcp, NULL);
         
     rc = SubGlobsDirectory(interp, obj, NULL, zPattern, dcp, &Data, 0, 0, _this);
+finish:
     if (rc != JSI_OK)
         Jsi_ValueMakeUndef(interp, ret);   
     else if (Data.retCount)
@@ -1344,6 +1344,7 @@ static Jsi_RC FileGlobCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,
 
 done:
     Jsi_DSFree(&dStr);
+    Jsi_DSFree(&cStr);
     if (isOpts)
         Jsi_OptionsFree(interp, GlobOptions, &Data, 0);
     return rc;
-- 
2.43.0


From d6eb3e3ef354d9db95ca35ba0fd9f401dfb50299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:38 +0000
Subject: [PATCH 157/242] fix: File.glob with a function freed it, and crashed

---
 src/jsiFileCmds.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/jsiFileCmds.c b/src/jsiFileCmds.c
index 03f2061..fe7187b 100644
--- a/src/jsiFileCmds.c
+++ b/src/jsiFileCmds.c
@@ -1256,6 +1256,7 @@ static Jsi_RC FileGlobCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,
                 switch (sobj->ot) {
                     case JSI_OT_FUNCTION:
                         Data.filter = arg;
+                        Jsi_IncrRefCount(interp, arg);
                         break;
                     case JSI_OT_OBJECT:
                         if (!sobj->isarrlist) {
-- 
2.43.0


From e3a12a9cacc1325af825f5f1cb63de7a06b0a7d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:38 +0000
Subject: [PATCH 158/242] fix: File.glob cut the names of files that are longer
 than the name of the current directory

---
 src/jsiFileCmds.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/jsiFileCmds.c b/src/jsiFileCmds.c
index fe7187b..3b97603 100644
--- a/src/jsiFileCmds.c
+++ b/src/jsiFileCmds.c
@@ -1166,7 +1166,8 @@ dumpit:
             Jsi_DSAppend(&tStr, z, NULL);
             z = Jsi_DSValue(&tStr);
             uint dlen = (uint)opts->dirLen;
-            if (!opts->tails && dlen && Jsi_Strlen(z)>=dlen) {
+            const char *dstr = Jsi_ValueString(interp, opts->dir, NULL);
+            if (!opts->tails && dlen && !Jsi_Strncmp(z, dstr, dlen) && (z[dlen] == '/' || dstr[dlen-1] == '/')) {
                 z += dlen;
                 if (z[0] == '/' && !opts->prefix) z++;
             }
-- 
2.43.0


From 4728c95620924ba0673b6eba2cb72eefb20715fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:48 +0000
Subject: [PATCH 159/242] fix: File.glob with recurse and types with d did not
 recurse, and ignored the pattern

---
 src/jsiFileCmds.c | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/jsiFileCmds.c b/src/jsiFileCmds.c
index 3b97603..568f1d6 100644
--- a/src/jsiFileCmds.c
+++ b/src/jsiFileCmds.c
@@ -1076,8 +1076,6 @@ static Jsi_RC SubGlobsDirectory(Jsi_Interp *interp, Jsi_Obj* obj, Jsi_Value *reg
                     else if (bres!=0 && bres!=1)
                         rc = JSI_ERROR;
                 }
-                if (opts->types && Jsi_Strchr(opts->types, 'd'))
-                    goto dumpit;
                 zz = Jsi_DSValue(&sStr);
                 rc = SubGlobsDirectory(interp, obj, reg, zPattern, zz, opts, deep+1, cnt+1, _this);
                 Jsi_DSFree(&sStr);
@@ -1157,7 +1155,6 @@ static Jsi_RC SubGlobsDirectory(Jsi_Interp *interp, Jsi_Obj* obj, Jsi_Value *reg
             } else if (bres!=0 && bres!=1)
                 rc = JSI_ERROR;
         }
-dumpit:
         opts->cnt++;
         if (!opts->retCount) {
             Jsi_DSSetLength(&tStr, 0);
-- 
2.43.0


From c285b5858596c07a51729e46a4d6e042667343d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:48 +0000
Subject: [PATCH 160/242] fix: File.glob with noTypes left out links and
 directories of types it does not exclude

---
 src/jsiFileCmds.c | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/jsiFileCmds.c b/src/jsiFileCmds.c
index 568f1d6..fa21ac0 100644
--- a/src/jsiFileCmds.c
+++ b/src/jsiFileCmds.c
@@ -1033,8 +1033,6 @@ static Jsi_RC SubGlobsDirectory(Jsi_Interp *interp, Jsi_Obj* obj, Jsi_Value *reg
         ftyp = namelist[i]->d_type;
 #endif
         if (ftyp == DT_LNK) {
-            if (opts->noTypes && (!(flags&JSI_FILE_TYPE_LINK)))
-                continue;
             snprintf(pbuf, sizeof(pbuf), "%s%s%s", spath, (spath[0]?"/":""),  z);
             Jsi_StatBuf stat;
             Jsi_Value *vpath = Jsi_ValueNewStringConst(interp, pbuf, -1);
@@ -1086,8 +1084,6 @@ static Jsi_RC SubGlobsDirectory(Jsi_Interp *interp, Jsi_Obj* obj, Jsi_Value *reg
                 if (rc != JSI_OK)
                     goto done;
             }
-            if (opts->types==0 && opts->noTypes && (!(flags&JSI_FILE_TYPE_DIRS)))
-                continue;
         }
         // TODO: sanity check types/noTypes.
         if (opts->types) {
-- 
2.43.0


From f1c518fbb13bc258d8331fa10d90babcf8f2a9ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:48 +0000
Subject: [PATCH 161/242] fix: File.glob with a pattern like */x looked in the
 root directory, and went past the limit

---
 src/jsiFileCmds.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/jsiFileCmds.c b/src/jsiFileCmds.c
index fa21ac0..98c8893 100644
--- a/src/jsiFileCmds.c
+++ b/src/jsiFileCmds.c
@@ -1050,8 +1050,10 @@ static Jsi_RC SubGlobsDirectory(Jsi_Interp *interp, Jsi_Obj* obj, Jsi_Value *reg
             if (mid) {
                 if (zPattern != NULL && Jsi_GlobMatch(zPattern, z, 0) == 0)
                     continue;
+                if (opts->limit>0 && opts->cnt >= opts->limit)
+                    break;
                 Jsi_DString sStr = {};
-                Jsi_DSAppend(&sStr, spath, "/", z, mid, NULL);
+                Jsi_DSAppend(&sStr, spath, (spath[0]?"/":""), z, mid, NULL);
                 rc = SubGlobsDirectory(interp, obj, NULL, NULL, Jsi_DSValue(&sStr), opts, deep, cnt+1, _this);
                 Jsi_DSFree(&sStr);
                 continue;
-- 
2.43.0


From af769d21f1ea6ba198637f7658d7f9ceb4f37476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:48 +0000
Subject: [PATCH 162/242] fix: File.glob with retInfo failed on files in
 sub-directories

---
 src/jsiFileCmds.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jsiFileCmds.c b/src/jsiFileCmds.c
index 98c8893..c3a6f89 100644
--- a/src/jsiFileCmds.c
+++ b/src/jsiFileCmds.c
@@ -1178,7 +1178,7 @@ static Jsi_RC SubGlobsDirectory(Jsi_Interp *interp, Jsi_Obj* obj, Jsi_Value *reg
             }
             else {
                 Jsi_Value *info = Jsi_ValueNew1(interp);
-                snprintf(pbuf, sizeof(pbuf), "%s%s%s", spath, (spath[0]?"/":""),  z);
+                snprintf(pbuf, sizeof(pbuf), "%s%s%s", spath, (spath[0]?"/":""),  namelist[i]->d_name);
                 Jsi_Value *vpath = Jsi_ValueNewStringConst(interp, pbuf, -1);
                 Jsi_IncrRefCount(interp, vpath);
                 rc = jsi_FileStatCmd(interp, vpath, &info, 2);
-- 
2.43.0


From fe3d3f239ae0457147a0970b0a1c04c999f37bc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:48 +0000
Subject: [PATCH 163/242] fix: the exception of a filter function of File.glob
 was ignored

---
 src/jsiFileCmds.c | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/jsiFileCmds.c b/src/jsiFileCmds.c
index c3a6f89..9d61598 100644
--- a/src/jsiFileCmds.c
+++ b/src/jsiFileCmds.c
@@ -950,8 +950,7 @@ static Jsi_RC SubGlobsDirectory(Jsi_Interp *interp, Jsi_Obj* obj, Jsi_Value *reg
     struct dirent **namelist = NULL;
     char pbuf[PATH_MAX];
     Jsi_RC rc = JSI_OK;
-    int i, n, flags = opts->flags, slen;
-    bool bres = 0;
+    int i, n, flags = opts->flags, slen, bres = 0;
     Jsi_DString tStr = {}, pStr = {}, eStr = {}, zStr = {};
     Jsi_Value *rpPath = Jsi_ValueNew1(interp);
     const char *mid = NULL;
@@ -1071,10 +1070,15 @@ static Jsi_RC SubGlobsDirectory(Jsi_Interp *interp, Jsi_Obj* obj, Jsi_Value *reg
                         rc = JSI_ERROR;
                         goto done;
                     }
-                    if (!bres)
-                        continue;
-                    else if (bres!=0 && bres!=1)
+                    if (bres!=0 && bres!=1) {
+                        Jsi_DSFree(&sStr);
                         rc = JSI_ERROR;
+                        goto done;
+                    }
+                    if (!bres) {
+                        Jsi_DSFree(&sStr);
+                        continue;
+                    }
                 }
                 zz = Jsi_DSValue(&sStr);
                 rc = SubGlobsDirectory(interp, obj, reg, zPattern, zz, opts, deep+1, cnt+1, _this);
@@ -1150,8 +1154,10 @@ static Jsi_RC SubGlobsDirectory(Jsi_Interp *interp, Jsi_Obj* obj, Jsi_Value *reg
             if (!bres) {
                 opts->discardCnt++;
                 continue;
-            } else if (bres!=0 && bres!=1)
+            } else if (bres!=0 && bres!=1) {
                 rc = JSI_ERROR;
+                goto done;
+            }
         }
         opts->cnt++;
         if (!opts->retCount) {
-- 
2.43.0


From ffab4eaf245fa93c1edefa27e4c830f36f5b54e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:48 +0000
Subject: [PATCH 164/242] fix: Info.interp with an object that is not an
 interpreter failed an assertion

---
 src/jsiInterp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jsiInterp.c b/src/jsiInterp.c
index 2802c38..c1793ea 100644
--- a/src/jsiInterp.c
+++ b/src/jsiInterp.c
@@ -2365,7 +2365,7 @@ Jsi_RC jsi_InterpInfo(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,
     tbuf[0] = 0;
     if (v) {
         InterpObj *udf = NULL;
-        if (v && v->vt == JSI_VT_OBJECT && v->d.obj->ot == JSI_OT_USEROBJ)
+        if (v && v->vt == JSI_VT_OBJECT && v->d.obj->ot == JSI_OT_USEROBJ && !Jsi_Strcmp(v->d.obj->d.uobj->reg->name, "Interp"))
             udf = (InterpObj *)v->d.obj->d.uobj->data;
         if (udf && udf->subinterp) {
             SIGASSERT(udf, INTERPOBJ);
-- 
2.43.0


From 419d2b0683abe8934f6160c762e01a754f4e5499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:21 +0000
Subject: [PATCH 165/242] fix: a function that changes its arguments object, or
 redeclares a parameter in eval, freed values that are in use

---
 src/jsiProto.c | 41 ++++++++++++++++++++---------------------
 1 file changed, 20 insertions(+), 21 deletions(-)

diff --git a/src/jsiProto.c b/src/jsiProto.c
index e27ea58..18eaa72 100644
--- a/src/jsiProto.c
+++ b/src/jsiProto.c
@@ -106,44 +106,36 @@ Jsi_ScopeStrs* jsi_ParseArgStr(Jsi_Interp *interp, const char *argStr)
     return ss;
 }
 
-static Jsi_RC jsi_SharedArgs(Jsi_Interp *interp, Jsi_Value *args, Jsi_Func *func, int alloc)
+#define JSI_SHARED_ARGS 16
+
+// Give names to the arguments of a call.  The values that are to be released after it are added to heldP.
+static Jsi_RC jsi_SharedArgs(Jsi_Interp *interp, Jsi_Value *args, Jsi_Func *func, Jsi_Value ***heldP, int *cntP)
 {
     int i;
     Jsi_RC rc = JSI_OK, nrc = JSI_OK;
     Jsi_ScopeStrs *argnames;
     // Extract typechecking info from argStr for builtin commands on first call
     const char *argStr = (func->cmdSpec ? func->cmdSpec->argStr: NULL);
-    if (alloc && func->type == FC_BUILDIN && func->callCnt == 0 && func->argnames==NULL
+    if (func->type == FC_BUILDIN && func->callCnt == 0 && func->argnames==NULL
         && argStr && Jsi_Strchr(argStr, ':'))
         func->argnames = jsi_ParseArgStr(interp, argStr);
     argnames = func->argnames;
     int argc = Jsi_ValueGetLength(interp, args);
-    if (alloc && jsi_RunFuncCallCheck(interp, func, argc, func->name, NULL, NULL, 0) != JSI_OK)
+    if (jsi_RunFuncCallCheck(interp, func, argc, func->name, NULL, NULL, 0) != JSI_OK)
         nrc = JSI_ERROR;
     if (!argnames)
         return nrc;
     
     int addargs = func->callflags.bits.addargs;
+    if (argnames->count > JSI_SHARED_ARGS)
+        *heldP = (Jsi_Value**)Jsi_Calloc(argnames->count, sizeof(Jsi_Value*));
     for (i = 0; i < argnames->count; ++i) {
         int n = i-addargs;
         const char *argkey = jsi_ScopeStrsGet(argnames, i);
         if (!argkey) break;
         
         Jsi_Value *dv = NULL, *v = Jsi_ValueArrayIndex(interp, args, i);
-        if (!alloc) {
-            if (func->type == FC_BUILDIN)
-                continue;
-            if (v==NULL  && i >= addargs) {
-                v = argnames->args[n].defValue;
-                if (v) {
-                    dv = Jsi_ValueObjLookup(interp, args, argkey, 1);
-                    if (dv)
-                        v = dv;
-                }
-            }
-            if (v)
-                Jsi_DecrRefCount(interp, v);
-        } else {
+        {
             if (v==NULL  && i >= addargs)
                 dv = v = argnames->args[n].defValue;
             if (v && rc == JSI_OK && i >= addargs) {
@@ -152,9 +144,10 @@ static Jsi_RC jsi_SharedArgs(Jsi_Interp *interp, Jsi_Value *args, Jsi_Func *func
             }
             if (func->type == FC_BUILDIN)
                 continue;
-            if (v && dv)
+            if (v && dv) {
                 v = Jsi_ValueDup(interp, v);
-            else if (v) {
+                (*heldP)[(*cntP)++] = v;
+            } else if (v) {
                 Jsi_Obj *aobj = args->d.obj;
                 if (v->refCnt>1 && aobj->arr && (uint)i<aobj->arrCnt && aobj->arr[i] == v) {
                     // Value is in use by caller, eg. array element in forEach: give function its own.
@@ -163,6 +156,7 @@ static Jsi_RC jsi_SharedArgs(Jsi_Interp *interp, Jsi_Value *args, Jsi_Func *func
                     aobj->arr[i] = v = nv;
                 }
                 Jsi_IncrRefCount(interp, v);
+                (*heldP)[(*cntP)++] = v;
             } else {
                 v = Jsi_ValueNew(interp);
             }
@@ -179,7 +173,9 @@ Jsi_RC jsi_FuncCallSub(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *callee,
     Jsi_Func *pprevActive = interp->prevActiveFunc;
     Jsi_Func *prevActive = interp->activeFunc;
     Jsi_IncrRefCount(interp, args);
-    Jsi_RC rc = jsi_SharedArgs(interp, args, funcPtr, 1);
+    Jsi_Value *heldBuf[JSI_SHARED_ARGS], **held = heldBuf;
+    int heldCnt = 0;
+    Jsi_RC rc = jsi_SharedArgs(interp, args, funcPtr, &held, &heldCnt);
     const char *oldCurFunc = interp->curFunction;
     if (funcPtr->name && funcPtr->name[0] && funcPtr->type == FC_NORMAL)
         interp->curFunction = funcPtr->name;
@@ -271,7 +267,10 @@ Jsi_RC jsi_FuncCallSub(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *callee,
         interp->callDepth--;
     }
 done:
-    jsi_SharedArgs(interp, args, funcPtr, 0);
+    while (heldCnt > 0)
+        Jsi_DecrRefCount(interp, held[--heldCnt]);
+    if (held != heldBuf)
+        Jsi_Free(held);
     interp->curFunction = oldCurFunc;
     interp->activeFunc = prevActive;
     interp->prevActiveFunc = pprevActive;
-- 
2.43.0


From f4564d28f0255acbd9b2856e74fd860008ca3c96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:19 +0000
Subject: [PATCH 166/242] fix: eval in a sub-interp after it was interactive
 crashed

---
 src/jsiUtils.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/jsiUtils.c b/src/jsiUtils.c
index c470d6d..62ecb10 100644
--- a/src/jsiUtils.c
+++ b/src/jsiUtils.c
@@ -1323,10 +1323,8 @@ Jsi_RC Jsi_Interactive(Jsi_Interp* interp, int flags)
     Jsi_DSFree(&sHist);
 #endif
     Jsi_DSFree(&dStr);
-    if (interp->retValue) {
-        Jsi_DecrRefCount(interp, interp->retValue);
-        interp->retValue = NULL;
-    }
+    if (interp->retValue)
+        Jsi_ValueReset(interp, &interp->retValue);
     if (interp->exited && interp->level <= 0)
     {
         rc = JSI_EXIT;
-- 
2.43.0


From b3e5efd6b020d38bef9d57b3214d8a1edae017ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:31 +0000
Subject: [PATCH 167/242] fix: using a closed Channel read freed memory

---
 src/jsiFilesys.c | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/jsiFilesys.c b/src/jsiFilesys.c
index f2a025c..99f6994 100644
--- a/src/jsiFilesys.c
+++ b/src/jsiFilesys.c
@@ -764,7 +764,9 @@ static void fileObjErase(FileObj *fo)
         Jsi_DecrRefCount(fo->interp, fo->fname);
         Jsi_Free(fo->mode);
     }
-    fo->filename = NULL;
+    fo->filename = fo->mode = NULL;
+    fo->fname = NULL;
+    fo->chan = NULL;
 }
 
 static Jsi_RC fileObjFree(Jsi_Interp *interp, void *data)
@@ -827,6 +829,11 @@ static int try_open_file(Jsi_Interp *interp, FileObj *udf, Jsi_Value *args)
     if (!udf) \
         return Jsi_LogError("Channel.%s called with non-file object", funcPtr->cmdSpec->name);
 
+#define UdfGetOpen(udf, _this, funcPtr) \
+    UdfGet(udf, _this, funcPtr); \
+    if (!udf->filename) \
+        return Jsi_LogError("Channel.%s called on a closed channel", funcPtr->cmdSpec->name);
+
 static Jsi_RC FilesysOpenCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,
     Jsi_Value **ret, Jsi_Func *funcPtr)
 {
@@ -931,7 +938,7 @@ static Jsi_RC FilesysSeekCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_th
 {
     static const char *posStr[] = { "set", "cur", "end", NULL };
     enum { W_SET, W_CUR, W_END };
-    UdfGet(udf, _this, funcPtr);
+    UdfGetOpen(udf, _this, funcPtr);
     Jsi_Value *vPos = Jsi_ValueArrayIndex(interp, args, 0);
     Jsi_Value *vWhence = Jsi_ValueArrayIndex(interp, args, 1);
     int mode = 0, p;
@@ -955,7 +962,7 @@ static Jsi_RC FilesysSeekCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_th
 static Jsi_RC FilesysTruncateCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,
     Jsi_Value **ret, Jsi_Func *funcPtr)
 {
-    UdfGet(udf, _this, funcPtr);
+    UdfGetOpen(udf, _this, funcPtr);
     Jsi_Value *vPos = Jsi_ValueArrayIndex(interp, args, 0);
     Jsi_Number num;
     if (Jsi_ValueGetNumber(interp, vPos, &num) != JSI_OK)
@@ -968,7 +975,7 @@ static Jsi_RC FilesysTruncateCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value
 static Jsi_RC FilesysStatCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,
     Jsi_Value **ret, Jsi_Func *funcPtr)
 {
-    UdfGet(udf, _this, funcPtr);
+    UdfGetOpen(udf, _this, funcPtr);
 #if JSI__FILESYS==1
     return jsi_FileStatCmd(interp, udf->fname, ret, 0);
 #else
@@ -979,7 +986,7 @@ static Jsi_RC FilesysStatCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_th
 static Jsi_RC FilesysLstatCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,
     Jsi_Value **ret, Jsi_Func *funcPtr)
 {
-    UdfGet(udf, _this, funcPtr);
+    UdfGetOpen(udf, _this, funcPtr);
 #if JSI__FILESYS==1
     return jsi_FileStatCmd(interp, udf->fname, ret, 1);
 #else
@@ -990,7 +997,7 @@ static Jsi_RC FilesysLstatCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_t
 static Jsi_RC FilesysTellCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,
     Jsi_Value **ret, Jsi_Func *funcPtr)
 {
-    UdfGet(udf, _this, funcPtr);
+    UdfGetOpen(udf, _this, funcPtr);
     Jsi_Wide pos = Jsi_Tell(interp, udf->chan);
     Jsi_ValueMakeNumber(interp, ret, (Jsi_Number)pos);
     return JSI_OK;
@@ -999,7 +1006,7 @@ static Jsi_RC FilesysTellCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_th
 static Jsi_RC FilesysFlushCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,
     Jsi_Value **ret, Jsi_Func *funcPtr)
 {
-    UdfGet(udf, _this, funcPtr);
+    UdfGetOpen(udf, _this, funcPtr);
     int pos = Jsi_Flush(interp, udf->chan);
     Jsi_ValueMakeNumber(interp, ret, (Jsi_Number)pos);
     return JSI_OK;
@@ -1052,7 +1059,7 @@ static Jsi_RC FilesysPutsCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_th
 static Jsi_RC FilesysEofCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,
     Jsi_Value **ret, Jsi_Func *funcPtr)
 {
-    UdfGet(udf, _this, funcPtr);
+    UdfGetOpen(udf, _this, funcPtr);
     Jsi_ValueMakeBool(interp, ret, Jsi_Eof(interp, udf->chan));
     return JSI_OK;
 }
-- 
2.43.0


From d9b0970207e2f31a1b0dd3493453769c7e2d3034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:31 +0000
Subject: [PATCH 168/242] fix: Channel.open returned true when it failed

---
 src/jsiFilesys.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/jsiFilesys.c b/src/jsiFilesys.c
index 99f6994..1364fbe 100644
--- a/src/jsiFilesys.c
+++ b/src/jsiFilesys.c
@@ -840,6 +840,7 @@ static Jsi_RC FilesysOpenCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_th
     UdfGet(udf, _this, funcPtr);
     if (try_open_file(interp, udf, args) != JSI_OK) {
         Jsi_ValueMakeBool(interp, ret, 0);
+        return JSI_OK;
     }
     Jsi_ValueMakeBool(interp, ret, 1);
     return JSI_OK;
-- 
2.43.0


From 916d04882fd903e9522363b9e501e1300d3d44e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:31 +0000
Subject: [PATCH 169/242] fix: Channel.gets split lines of more than 8191
 bytes, and cut lines at a NUL byte

---
 src/jsiFilesys.c | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/jsiFilesys.c b/src/jsiFilesys.c
index 1364fbe..c5f94f6 100644
--- a/src/jsiFilesys.c
+++ b/src/jsiFilesys.c
@@ -858,22 +858,22 @@ static Jsi_RC FilesysCloseCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_t
 static Jsi_RC FilesysGetsCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,
     Jsi_Value **ret, Jsi_Func *funcPtr)
 {
-    int len;
+    int ch;
     UdfGet(udf, _this, funcPtr);
     if (!udf->filename) {
         Jsi_ValueMakeUndef(interp, ret);
         return JSI_OK;
     }
-    char buf[JSI_BUFSIZ];
-    if (!Jsi_Gets(interp, udf->chan, buf, sizeof(buf))) {
+    if ((ch = Jsi_Getc(interp, udf->chan)) < 0) {
         Jsi_ValueMakeUndef(interp, ret);
         return JSI_OK;
     }
-    buf[sizeof(buf)-1] = 0;
-    len = Jsi_Strlen(buf);
-    if (len > 0 && buf[len-1] == '\n')
-        buf[len-1] = 0;
-    Jsi_ValueMakeStringDup(interp, ret, buf);
+    Jsi_DString dStr = {};
+    for (; ch >= 0 && ch != '\n'; ch = Jsi_Getc(interp, udf->chan)) {
+        char cbuf = (char)ch;
+        Jsi_DSAppendLen(&dStr, &cbuf, 1);
+    }
+    Jsi_ValueMakeDStringObject(interp, ret, &dStr);
     return JSI_OK;
 }
 
-- 
2.43.0


From db5d7b2d0dfe27ae45dcea163f5cc238592a53f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:31 +0000
Subject: [PATCH 170/242] fix: Channel.puts cut its argument at a NUL byte

---
 src/jsiFilesys.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/jsiFilesys.c b/src/jsiFilesys.c
index c5f94f6..d9ed7fc 100644
--- a/src/jsiFilesys.c
+++ b/src/jsiFilesys.c
@@ -1047,9 +1047,11 @@ static Jsi_RC FilesysPutsCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_th
         Jsi_ValueMakeBool(interp, ret, 0);
         return JSI_OK;
     }
-    const char * cp = Jsi_ValueToString(interp, toput, NULL);
-
-    if (Jsi_Printf(interp, udf->chan, "%s\n", cp?cp:"") < 0) {
+    int len = 0;
+    const char * cp = Jsi_ValueToString(interp, toput, &len);
+    if (!cp)
+        len = 0;
+    if ((len > 0 && Jsi_Write(interp, udf->chan, cp, len) != len) || Jsi_Write(interp, udf->chan, "\n", 1) != 1) {
         Jsi_ValueMakeBool(interp, ret, 0);
         return JSI_OK;
     }
-- 
2.43.0


From 68402e090d23cccb992313a6258d5e89bb63b60c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:31 +0000
Subject: [PATCH 171/242] fix: Channel.read of 0 bytes read a whole buffer

---
 src/jsiFilesys.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/jsiFilesys.c b/src/jsiFilesys.c
index d9ed7fc..e25c87d 100644
--- a/src/jsiFilesys.c
+++ b/src/jsiFilesys.c
@@ -912,6 +912,8 @@ static Jsi_RC FilesysReadCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_th
     }
     if (argc>0 && Jsi_GetIntFromValue(interp, Jsi_ValueArrayIndex(interp, args, 0), &nsiz) != JSI_OK)
         goto bail;
+    if (nsiz==0)
+        goto bail;
     while (cnt++ < MAX_LOOP_COUNT) {
         rsiz = sizeof(buf);
         if (nsiz>0 && ((sum+rsiz)>nsiz))
-- 
2.43.0


From 9b3d62794c96e4860693a69efcc654d064a78e7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:31 +0000
Subject: [PATCH 172/242] fix: Channel.truncate did not apply to what was
 written but not yet flushed

---
 src/jsiFilesys.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/jsiFilesys.c b/src/jsiFilesys.c
index e25c87d..147cb27 100644
--- a/src/jsiFilesys.c
+++ b/src/jsiFilesys.c
@@ -166,7 +166,12 @@ static int jsi_FSLstatProc(Jsi_Interp *interp, Jsi_Value* path, Jsi_StatBuf *buf
 static int jsi_FSFlushProc(Jsi_Channel chan) { return fflush(_JSI_GETFP(chan,0));}
 static int jsi_FSTellProc(Jsi_Channel chan) { return ftell(_JSI_GETFP(chan,1));}
 static int jsi_FSEofProc(Jsi_Channel chan) { return feof(_JSI_GETFP(chan,1));}
-static int jsi_FSTruncateProc(Jsi_Channel chan, unsigned int len) { return ftruncate(fileno(_JSI_GETFP(chan,1)), len);}
+static int jsi_FSTruncateProc(Jsi_Channel chan, unsigned int len) {
+    FILE *fp = _JSI_GETFP(chan,1);
+    if (fflush(fp) != 0) /* Output before the truncate must not be written after it. */
+        return -1;
+    return ftruncate(fileno(fp), len);
+}
 static int jsi_FSRewindProc(Jsi_Channel chan) { rewind(_JSI_GETFP(chan,1)); return 0;}
 static int jsi_FSCloseProc(Jsi_Channel chan) { return fclose(_JSI_GETFP(chan,1));}
 static int jsi_FSSeekProc(Jsi_Channel chan, Jsi_Wide offset, int mode) { return fseek(_JSI_GETFP(chan,1), offset, mode);}
-- 
2.43.0


From f869a0592e87fc00c586becf6f32433d10cb4fbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:31 +0000
Subject: [PATCH 173/242] fix: File.write, File.copy and Channel.close did not
 report that data could not be written

---
 src/jsiFileCmds.c | 11 +++++++++--
 src/jsiFilesys.c  | 17 ++++++++++-------
 2 files changed, 19 insertions(+), 9 deletions(-)

diff --git a/src/jsiFileCmds.c b/src/jsiFileCmds.c
index 9d61598..c8d1d10 100644
--- a/src/jsiFileCmds.c
+++ b/src/jsiFileCmds.c
@@ -508,7 +508,11 @@ static Jsi_RC FileWriteCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this
         sum += n;
         cnt++;
     }
+    if (chan->isNative && Jsi_Flush(interp, chan) != 0)
+        len = 1;
     Jsi_Close(interp, chan);
+    if (len > 0)
+        return Jsi_LogError("write failed: %s", GSVal(fname));
     /* TODO: handle nulls. */
     Jsi_ValueMakeNumber(interp, ret, (Jsi_Number)sum);
     return JSI_OK;
@@ -551,8 +555,10 @@ static int FileCopy(Jsi_Interp *interp, Jsi_Value* src, Jsi_Value* dest, int for
         Jsi_Remove(interp, dest, 0);
     }
     Jsi_Channel och = Jsi_Open(interp, dest, "wb+");
-    if (!och)
+    if (!och) {
+        Jsi_Close(interp, ich);
         return -1;
+    }
     while (1) {
         char buf[JSI_BUFSIZ];
         int n;
@@ -565,6 +571,7 @@ static int FileCopy(Jsi_Interp *interp, Jsi_Value* src, Jsi_Value* dest, int for
             return -1;
         }
     }
+    int wrc = (och->isNative ? Jsi_Flush(interp, och) : 0);
     /* TODO: set perms. */
 #ifndef __WIN32
     Jsi_StatBuf sb;
@@ -573,7 +580,7 @@ static int FileCopy(Jsi_Interp *interp, Jsi_Value* src, Jsi_Value* dest, int for
 #endif
     Jsi_Close(interp, ich);
     Jsi_Close(interp, och);
-    return 0;
+    return wrc;
 }
 
 #define FN_copy JSI_INFO("\
diff --git a/src/jsiFilesys.c b/src/jsiFilesys.c
index 147cb27..beb64af 100644
--- a/src/jsiFilesys.c
+++ b/src/jsiFilesys.c
@@ -37,7 +37,7 @@ typedef struct FileObj {
     int objId;
 } FileObj;
 
-static void fileObjErase(FileObj *fo);
+static int fileObjErase(FileObj *fo);
 static Jsi_RC fileObjFree(Jsi_Interp *interp, void *data);
 static bool fileObjIsTrue(void *data);
 static bool fileObjEqual(void *data1, void *data2);
@@ -654,8 +654,7 @@ int Jsi_Close(Jsi_Interp *interp, Jsi_Channel chan) {
     if (chan->fsPtr==0 || !chan->fsPtr->closeProc) return -1;
     if (chan->flags&JSI_FS_NOCLOSE) return -1;
     int rc = chan->fsPtr->closeProc(chan);
-    if (rc == 0)
-        Jsi_Free(chan);
+    Jsi_Free(chan);
     return rc;
 }
 int Jsi_Flush(Jsi_Interp *interp, Jsi_Channel chan) {
@@ -761,10 +760,14 @@ char *Jsi_Realpath(Jsi_Interp *interp, Jsi_Value *src, char *newname)
 }
 
 
-static void fileObjErase(FileObj *fo)
+static int fileObjErase(FileObj *fo)
 {
+    int rc = 0;
     if (fo->filename) {
-        Jsi_Close(fo->interp, fo->chan);
+        int isStd = (fo->chan->flags&JSI_FS_NOCLOSE);
+        rc = Jsi_Close(fo->interp, fo->chan);
+        if (isStd)
+            rc = 0;
         Jsi_Free(fo->filename);
         Jsi_DecrRefCount(fo->interp, fo->fname);
         Jsi_Free(fo->mode);
@@ -772,6 +775,7 @@ static void fileObjErase(FileObj *fo)
     fo->filename = fo->mode = NULL;
     fo->fname = NULL;
     fo->chan = NULL;
+    return rc;
 }
 
 static Jsi_RC fileObjFree(Jsi_Interp *interp, void *data)
@@ -855,8 +859,7 @@ static Jsi_RC FilesysCloseCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_t
     Jsi_Value **ret, Jsi_Func *funcPtr)
 {
     UdfGet(udf, _this, funcPtr);
-    fileObjErase(udf);
-    Jsi_ValueMakeBool(interp, ret, 1);
+    Jsi_ValueMakeBool(interp, ret, fileObjErase(udf)==0);
     return JSI_OK;
 }
 
-- 
2.43.0


From 9c0779fe20c5a2c2aee9041d1ac448c282ba4009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:31 +0000
Subject: [PATCH 174/242] fix: Array.forEach, some, every and find did not end
 when the function appends to the array, and find returned a freed value

---
 src/jsiArray.c | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/jsiArray.c b/src/jsiArray.c
index 625d998..6428396 100644
--- a/src/jsiArray.c
+++ b/src/jsiArray.c
@@ -527,7 +527,8 @@ static Jsi_RC jsi_ArrayForeachCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value
     int maa = (fptr->argnames?fptr->argnames->argCnt:0);
     if (maa>3 || fptr->type == FC_BUILDIN)
         maa = 3;
-    for (i = 0; i < obj->arrCnt && rc == JSI_OK; i++) {
+    uint len = obj->arrCnt;
+    for (i = 0; i < len && i < obj->arrCnt && rc == JSI_OK; i++) {
         if (!obj->arr[i]) continue;
         vobjs[0] = obj->arr[i];
         vobjs[1] = (maa>1?Jsi_ValueNewNumber(interp, i):interp->NullValue);
@@ -572,9 +573,14 @@ static Jsi_RC jsi_ArrayFindSubCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value
     int maa = (fptr->argnames?fptr->argnames->argCnt:0);
     if (maa>3 || fptr->type == FC_BUILDIN)
         maa = 3;
-    for (i = 0; i < obj->arrCnt && rc == JSI_OK; i++) {
+    uint len = obj->arrCnt;
+    Jsi_Value *cur = NULL;
+    for (i = 0; i < len && i < obj->arrCnt && rc == JSI_OK; i++) {
         if (!obj->arr[i]) continue;
-        vobjs[0] = obj->arr[i];
+        if (cur)
+            Jsi_DecrRefCount(interp, cur);
+        vobjs[0] = cur = obj->arr[i];
+        Jsi_IncrRefCount(interp, cur);
         vobjs[1] = (maa>1?Jsi_ValueNewNumber(interp, i):interp->NullValue);
         vobjs[2] = Jsi_ValueNewObj(interp, obj);
         vpargs = Jsi_ValueMakeObject(interp, NULL, Jsi_ObjNewArray(interp, vobjs, maa, 0));
@@ -594,12 +600,14 @@ static Jsi_RC jsi_ArrayFindSubCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value
     }
     if (rc == JSI_OK) {
         if (op == 1 && fval) // Find
-            Jsi_ValueCopy(interp, *ret, obj->arr[i]); 
+            Jsi_ValueCopy(interp, *ret, cur);
         else if (op == 2 || op == 3) // Some/Every
             Jsi_ValueMakeBool(interp, ret, fval);
         else if (op == 4)
             Jsi_ValueMakeNumber(interp, ret, (Jsi_Number)(fval?(int)i:-1));
     }
+    if (cur)
+        Jsi_DecrRefCount(interp, cur);
     Jsi_DecrRefCount(interp, _this);
     if (nthis)
         Jsi_DecrRefCount(interp, nthis);
-- 
2.43.0


From eca77aa2508be168954ffe05ec59900286222a0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:31 +0000
Subject: [PATCH 175/242] fix: a glob pattern with ? or [ read past the end of
 an empty string

---
 src/jsiUtils.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/jsiUtils.c b/src/jsiUtils.c
index 62ecb10..fefb5b2 100644
--- a/src/jsiUtils.c
+++ b/src/jsiUtils.c
@@ -2198,10 +2198,14 @@ bool Jsi_GlobMatch(const char *pattern, const char *string, int nocase)
                 return 0;       /* no match */
 
             case '?':
+                if (!*string)
+                    return 0;
                 string += Jsi_UtfToUniChar(string, &c);
                 break;
 
             case '[': {
+                    if (!*string)
+                        return 0;
                     string += Jsi_UtfToUniChar(string, &c);
                     pattern = JsiCharsetMatch(pattern + 1, c, nocase ? JSI_CMP_NOCASE : 0);
                     if (!pattern) {
-- 
2.43.0


From 2a334788bd08b91745695aea4bea3ad49e06e793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:16 +0000
Subject: [PATCH 176/242] fix: truncate with a negative size made a file of 4GB

---
 src/jsiFileCmds.c | 2 ++
 src/jsiFilesys.c  | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/jsiFileCmds.c b/src/jsiFileCmds.c
index c8d1d10..8e9b09b 100644
--- a/src/jsiFileCmds.c
+++ b/src/jsiFileCmds.c
@@ -399,6 +399,8 @@ static Jsi_RC FileTruncateCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_t
     Jsi_Number siz;
     if (Jsi_GetNumberFromValue(interp, sizv, &siz) != JSI_OK)
         return JSI_ERROR;
+    if (!(siz >= 0 && siz <= UINT_MAX))
+        return Jsi_LogError("bad size for truncate");
     SAFEACCESS(fname, 1, 0)
     Jsi_Channel ch = Jsi_Open(interp, fname, "rb+");
     if (!ch)
diff --git a/src/jsiFilesys.c b/src/jsiFilesys.c
index beb64af..e1a816d 100644
--- a/src/jsiFilesys.c
+++ b/src/jsiFilesys.c
@@ -978,6 +978,8 @@ static Jsi_RC FilesysTruncateCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value
     Jsi_Number num;
     if (Jsi_ValueGetNumber(interp, vPos, &num) != JSI_OK)
         return JSI_ERROR;
+    if (!(num >= 0 && num <= UINT_MAX))
+        return Jsi_LogError("bad size for truncate");
     num = (Jsi_Number)Jsi_Truncate(interp, udf->chan, (unsigned int)num);
     Jsi_ValueMakeNumber(interp, ret, num);
     return JSI_OK;
-- 
2.43.0


From ca8405f5b0fc01adf84b79f681883dee4bcb3f0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:45 +0000
Subject: [PATCH 177/242] fix: Array.sort read freed memory when the compare
 function makes the array grow

---
 src/jsiArray.c | 48 +++++++++++++++++++++++++++++++++++-------------
 1 file changed, 35 insertions(+), 13 deletions(-)

diff --git a/src/jsiArray.c b/src/jsiArray.c
index 6428396..4fbdd88 100644
--- a/src/jsiArray.c
+++ b/src/jsiArray.c
@@ -1084,48 +1084,70 @@ static Jsi_RC jsi_ArraySortCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_
     obj->modifying = 1;
     si.flags = flags;
     Jsi_ObjListifyArray(interp, obj);
+    /* Sort a copy, as compare may change the array. */
+    Jsi_Value **arr = (Jsi_Value**)Jsi_Calloc(curlen, sizeof(*arr));
+    for (i=0; i<curlen && i<(int)obj->arrCnt; i++)
+        if ((arr[i] = obj->arr[i]))
+            Jsi_IncrRefCount(interp, arr[i]);
 #ifdef NO_QSORT_R
     /* TODO: mutex. */
     curSortInfo = &si;
-    qsort(obj->arr, curlen, sizeof(Jsi_Value*), SortSubCmd);
+    qsort(arr, curlen, sizeof(Jsi_Value*), SortSubCmd);
 #else
-    qsort_r(obj->arr, curlen, sizeof(Jsi_Value*), SortSubCmd, &si);
+    qsort_r(arr, curlen, sizeof(Jsi_Value*), SortSubCmd, &si);
 #endif
 
     if (interp->deleting) {
 #ifdef NO_QSORT_R
         curSortInfo = NULL;
 #endif
+        for (i=0; i<curlen; i++)
+            if (arr[i])
+                Jsi_DecrRefCount(interp, arr[i]);
+        Jsi_Free(arr);
         return JSI_ERROR;
     }
+    int dupCnt = 0;
     if (si.unique && si.rc == JSI_OK) {
-        int n, diff = 1, dupCnt=0;
-        for (n=0, i=1; i<(int)obj->arrCnt; i++) {
-            if (obj->arr[n] == obj->arr[i])
+        int n, diff = 1;
+        for (n=0, i=1; i<curlen; i++) {
+            if (arr[n] == arr[i])
                 diff = 1;
             else
 #ifdef NO_QSORT_R
-                diff = SortSubCmd(&obj->arr[n], &obj->arr[i]);
+                diff = SortSubCmd(&arr[n], &arr[i]);
 #else
 #ifdef __WIN32
-                diff = SortSubCmd(&si, &obj->arr[n], &obj->arr[i]);
+                diff = SortSubCmd(&si, &arr[n], &arr[i]);
 #else
-                diff = SortSubCmd(&obj->arr[n], &obj->arr[i], &si);
+                diff = SortSubCmd(&arr[n], &arr[i], &si);
 #endif
 #endif
             if (diff) {
                 n++;
                 if (n!=i)
-                    obj->arr[n] = obj->arr[i];
+                    arr[n] = arr[i];
             } else {
                 dupCnt++;
-                if (obj->arr[i])
-                    Jsi_DecrRefCount(interp, obj->arr[i]);
-                obj->arr[i] = 0;
+                if (arr[i])
+                    Jsi_DecrRefCount(interp, arr[i]);
+                arr[i] = 0;
             }
         }
-        obj->arrCnt -= dupCnt;
     }
+    if ((int)obj->arrCnt < curlen)
+        Jsi_ObjArraySizer(interp, obj, curlen);
+    for (i=0; i<curlen; i++) {
+        Jsi_Value *old = obj->arr[i];
+        obj->arr[i] = (i<curlen-dupCnt ? arr[i] : NULL);
+        arr[i] = old;
+    }
+    if ((int)obj->arrCnt == curlen)
+        obj->arrCnt -= dupCnt;
+    for (i=0; i<curlen; i++)
+        if (arr[i])
+            Jsi_DecrRefCount(interp, arr[i]);
+    Jsi_Free(arr);
 #ifdef NO_QSORT_R
     curSortInfo = NULL;
 #endif
-- 
2.43.0


From 557106d93de1d979d16733fb294ffe8de5e60bf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:45 +0000
Subject: [PATCH 178/242] fix: exec with inputStr died of SIGPIPE when the
 command did not read its input

---
 src/jsiCmds.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/jsiCmds.c b/src/jsiCmds.c
index b294790..f490eef 100644
--- a/src/jsiCmds.c
+++ b/src/jsiCmds.c
@@ -1604,10 +1604,16 @@ Jsi_RC jsi_SysExecCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,
         if (!fp) 
             exitCode = errno;
         else {
+#ifdef SIGPIPE
+            void (*osig)(int) = SIG_DFL;
+#endif
             if (edata.inputStr) {
                 edata.retCode = 1;
                 edata.retval = 0;
                 cp2 = Jsi_ValueString(interp, edata.inputStr, &sLen2);
+#ifdef SIGPIPE
+                osig = signal(SIGPIPE, SIG_IGN); /* The command may end without reading all. */
+#endif
                 while ((n=fwrite(cp2, 1, sLen2, fp))>0) {
                     sLen2 -= n;
                 }
@@ -1620,6 +1626,10 @@ Jsi_RC jsi_SysExecCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,
                 exitCode = ((ec=pclose(fp))>>8);
             else
                 exitCode = ((ec=jsi_pclose(fp, cpid))>>8);
+#ifdef SIGPIPE
+            if (edata.inputStr)
+                signal(SIGPIPE, osig);
+#endif
         }
     }
     if (exitCode && edata.noError==0 && edata.retCode==0 && edata.retAll==0) {
-- 
2.43.0


From ed692aee5da1758abd353c2a2a356cd50fc7a258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:46 +0000
Subject: [PATCH 179/242] fix: the message of an invalid format was read after
 its scope ended

---
 src/jsiFormat.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jsiFormat.c b/src/jsiFormat.c
index 28e15a3..5b57017 100644
--- a/src/jsiFormat.c
+++ b/src/jsiFormat.c
@@ -62,6 +62,7 @@ Jsi_RC Jsi_FormatString(Jsi_Interp *interp, Jsi_Value *args, Jsi_DString *dStr)
     int formatLen;
     Jsi_Value *v;
     Jsi_DString jStr, pStr, sStr;
+    char spec[100];
     char stat_buf[100], *num_buffer = stat_buf;
     int num_buffer_size = sizeof(stat_buf);
     argCnt = Jsi_ValueGetLength(interp, args);
@@ -86,7 +87,6 @@ Jsi_RC Jsi_FormatString(Jsi_Interp *interp, Jsi_Value *args, Jsi_DString *dStr)
         int step;
         int doubleType;
         char pad = ' ';
-        char spec[100];
         char *p;
 
         int formatted_chars;
-- 
2.43.0


From dfad4a5b3e1641feaa0dadf35f0197815d757a07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:29 +0000
Subject: [PATCH 180/242] fix: an invalid format with 80 flags wrote past the
 end of a buffer

---
 src/jsiFormat.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jsiFormat.c b/src/jsiFormat.c
index 5b57017..73af90e 100644
--- a/src/jsiFormat.c
+++ b/src/jsiFormat.c
@@ -62,7 +62,7 @@ Jsi_RC Jsi_FormatString(Jsi_Interp *interp, Jsi_Value *args, Jsi_DString *dStr)
     int formatLen;
     Jsi_Value *v;
     Jsi_DString jStr, pStr, sStr;
-    char spec[100];
+    char spec[200];
     char stat_buf[100], *num_buffer = stat_buf;
     int num_buffer_size = sizeof(stat_buf);
     argCnt = Jsi_ValueGetLength(interp, args);
@@ -149,7 +149,7 @@ Jsi_RC Jsi_FormatString(Jsi_Interp *interp, Jsi_Value *args, Jsi_DString *dStr)
                 continue;
             }
             *p++ = ch;
-            if ((p-spec)>(int)(sizeof(spec)-10)) {
+            if ((p-spec)>90) {
                 msg = "spec too long";
                 goto error;
             }
-- 
2.43.0


From 0a175710bf31a3608dd48840b03d4c1c95459a5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:33 +0000
Subject: [PATCH 181/242] fix: a path with ~ crashed for a user that has no
 passwd entry

---
 src/jsiFilesys.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jsiFilesys.c b/src/jsiFilesys.c
index e1a816d..d82fa79 100644
--- a/src/jsiFilesys.c
+++ b/src/jsiFilesys.c
@@ -1264,7 +1264,7 @@ const char *jsi_GetHomeDir(Jsi_Interp *interp) {
     if ((str = getenv("HOME")) == NULL) {
         struct passwd pwd, *pw;
         char buf[JSI_BUFSIZ*3];
-        if (getpwuid_r(getuid(), &pwd, buf, sizeof(buf), &pw) == 0 && pw->pw_dir)        
+        if (getpwuid_r(getuid(), &pwd, buf, sizeof(buf), &pw) == 0 && pw && pw->pw_dir)        
             str = pw->pw_dir;
     }
 #endif
@@ -1460,7 +1460,7 @@ char *Jsi_FileRealpathStr(Jsi_Interp *interp, const char *path, char *newname)
         struct passwd pw, *pwp; /* TODO: could fallback to using env HOME. */
         char buf[JSI_BUFSIZ];
         int n = getpwuid_r(getuid(), &pw, buf, sizeof(buf), &pwp);
-        const char *homedir = (n == 0 ? pwp->pw_dir : "");
+        const char *homedir = (n == 0 && pwp ? pwp->pw_dir : "");
         Jsi_DSAppend(&dStr, homedir, path[1] == '/' ? "" : "/", path+1, NULL);
 #else
         const char *homedir = getenv("HOMEPATH");
-- 
2.43.0


From 243d6c2c8ad87847744e25196e0eabbd953bcd97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:34 +0000
Subject: [PATCH 182/242] fix: a path of more than PATH_MAX bytes wrote past
 the end of a buffer in a safe interp

---
 src/jsiFilesys.c | 7 ++++++-
 src/jsiInterp.c  | 3 ++-
 src/jsiSqlite.c  | 2 ++
 3 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/jsiFilesys.c b/src/jsiFilesys.c
index d82fa79..47e573f 100644
--- a/src/jsiFilesys.c
+++ b/src/jsiFilesys.c
@@ -581,10 +581,11 @@ Jsi_Channel Jsi_Open(Jsi_Interp *interp, Jsi_Value *file, const char *modeString
             Jsi_LogError("File open failed '%s'", fileName);
     } else {
         if (interp->isSafe) {
+            char *rpath;
             if ((rc && Jsi_InterpAccess(interp, file, JSI_INTACCESS_CREATE) != JSI_OK)
             || (Jsi_Strchr(s,'+') && !Jsi_Strchr(s,'w') && Jsi_InterpAccess(interp, file, JSI_INTACCESS_READ) != JSI_OK)
             || (Jsi_InterpAccess(interp, file, aflag) != JSI_OK
-                && (aflag || !interp->opts.argv || !interp->opts.argv[0] || Jsi_Strcmp(fileName, Jsi_FileRealpathStr(interp, interp->opts.argv[0], pbuf))))
+                && (aflag || !interp->opts.argv || !interp->opts.argv[0] || !(rpath=Jsi_FileRealpathStr(interp, interp->opts.argv[0], pbuf)) || Jsi_Strcmp(fileName, rpath)))
             ) {
                 if (writ || Jsi_Strcmp(fileName, jsiIntData.execName)) {
                     Jsi_LogError("%s access denied: %s", writ?"write":"read", fileName);
@@ -1487,6 +1488,10 @@ char *Jsi_FileRealpathStr(Jsi_Interp *interp, const char *path, char *newname)
             //npath = (char*)path;
         }
     }
+    if (!apath && newname && Jsi_Strlen(npath) >= PATH_MAX) {
+        Jsi_DSFree(&dStr); Jsi_DSFree(&eStr);
+        return NULL;
+    }
     if (!apath) {
         if (newname)
             Jsi_Strcpy(apath=newname, npath);
diff --git a/src/jsiInterp.c b/src/jsiInterp.c
index c1793ea..a8af0a7 100644
--- a/src/jsiInterp.c
+++ b/src/jsiInterp.c
@@ -1635,7 +1635,8 @@ static Jsi_Interp* jsi_InterpNew(Jsi_Interp *parent, Jsi_Value *opts, Jsi_Interp
         }
         const char *vda[2] = {};
         char npath[PATH_MAX];
-        vda[0] = Jsi_FileRealpathStr(interp, path, npath);
+        if (!(vda[0] = Jsi_FileRealpathStr(interp, path, npath)))
+            vda[0] = "";
         interp->safeWriteDirs = Jsi_ValueNewArray(interp, vda, 1);
         Jsi_IncrRefCount(interp, interp->safeWriteDirs);
         if (!interp->safeReadDirs) {
diff --git a/src/jsiSqlite.c b/src/jsiSqlite.c
index 42e4710..5809e02 100644
--- a/src/jsiSqlite.c
+++ b/src/jsiSqlite.c
@@ -4734,6 +4734,8 @@ Jsi_Db* Jsi_DbNew(const char *zFile, int inFlags /* JSI_DBI_* */)
     }
     char cpath[PATH_MAX];
     char *npath = Jsi_FileRealpathStr(NULL, zFile, cpath);
+    if (!npath)
+        goto bail;
     
     if (SQLITE_OK != sqlite3_open_v2(npath, &db->db, flags, NULL)) {
         JSI_DBQUERY_PRINTF( "db open failed: %s\n", npath);
-- 
2.43.0


From 18fa87cbcc68860347b411e8c7ddd191fbaf7679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:34 +0000
Subject: [PATCH 183/242] fix: a long strftime format with %f wrote past the
 end of a buffer

---
 src/jsiCmds.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jsiCmds.c b/src/jsiCmds.c
index f490eef..4bf649b 100644
--- a/src/jsiCmds.c
+++ b/src/jsiCmds.c
@@ -2111,7 +2111,7 @@ Jsi_RC Jsi_DatetimeFormat(Jsi_Interp *interp, Jsi_Number num, const char *fmt, i
     }
     
     const char *efp = Jsi_Strstr(fmt, "%f");
-    if (efp && efp > fmt && efp[-1] != '%' && ((efp-fmt)+10)<(int)sizeof(fmt1)) {
+    if (efp && efp > fmt && efp[-1] != '%' && (Jsi_Strlen(fmt)+10)<sizeof(fmt1)) {
         int elen = (efp-fmt)+1;
         Jsi_Strncpy(fmt1, fmt, elen);
         Jsi_Strcpy(fmt1+elen, "%S.");
-- 
2.43.0


From b26b6520d15b07f6533755d2daa013fc0e87c447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:43:33 +0000
Subject: [PATCH 184/242] fix: freeing objects that are nested 20000 deep
 overflowed the stack

---
 src/jsiInt.h |  3 +++
 src/jsiObj.c | 16 +++++++++++++++-
 2 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/jsiInt.h b/src/jsiInt.h
index ce1b8ff..bbfd67c 100644
--- a/src/jsiInt.h
+++ b/src/jsiInt.h
@@ -245,6 +245,7 @@ typedef unsigned char uchar;
 
 #define ALLOC_MOD_SIZE 16      /* Increase allocs by increments of 16. */
 #define MAX_ARRAY_LIST 100000  /* Default Max size of an array convertable to list form */
+#define JSI_MAX_FREE_DEPTH 500 /* Limit recursion in free */
 #define MAX_LOOP_COUNT 10000000 /* Limit infinite loops */
 #define JSI_MAX_ALLOC_BUF  100000000 /* Limit for dynamic memory allocation hunk */
 #define JSI_MAX_SCOPE (JSI_BUFSIZ/2)
@@ -1271,6 +1272,8 @@ struct Jsi_Interp {
     Jsi_Value *nullFuncRet;
     Jsi_Value *autoFiles;
     Jsi_Obj* cleanObjs[4];
+    int freeDepth;
+    Jsi_Stack *freeLater;   // Objects to free after the ones being freed.
     Jsi_Obj* allObjs;
     Jsi_Value* allValues, *udata;
     Jsi_HashEntry *hPtrGet;
diff --git a/src/jsiObj.c b/src/jsiObj.c
index eb0b0ee..506db70 100644
--- a/src/jsiObj.c
+++ b/src/jsiObj.c
@@ -446,7 +446,21 @@ int Jsi_ObjDecrRefCount(Jsi_Interp *interp, Jsi_Obj *obj)  {
     int nref;
     if ((nref = --obj->refcnt) <= 0) {
         obj->refcnt = -1;
-        Jsi_ObjFree(interp, obj);
+        if (interp->freeDepth >= JSI_MAX_FREE_DEPTH) { /* Limit recursion: free it when the outermost free ends. */
+            if (!interp->freeLater)
+                interp->freeLater = Jsi_StackNew();
+            Jsi_StackPush(interp->freeLater, obj);
+        } else {
+            interp->freeDepth++;
+            Jsi_ObjFree(interp, obj);
+            if (interp->freeDepth == 1 && interp->freeLater) {
+                while (Jsi_StackSize(interp->freeLater))
+                    Jsi_ObjFree(interp, (Jsi_Obj*)Jsi_StackPop(interp->freeLater));
+                Jsi_StackFree(interp->freeLater);
+                interp->freeLater = NULL;
+            }
+            interp->freeDepth--;
+        }
     }
     return nref;
 }
-- 
2.43.0


From 72d4356313fdfd9c6194427a8d8e077367f9cd55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:43:33 +0000
Subject: [PATCH 185/242] fix: a regexp with parentheses nested 20000 deep
 overflowed the stack

---
 src/jsiRegexp.c | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/jsiRegexp.c b/src/jsiRegexp.c
index d43a4fe..ab0fc53 100644
--- a/src/jsiRegexp.c
+++ b/src/jsiRegexp.c
@@ -22,13 +22,13 @@ void Jsi_RegExpFree(Jsi_Regex* re) {
 }
 
 static bool jsi_regexValid(const char *str) {
-    return 1;
+    /* Limit the nesting, as regcomp is recursive. */
     const char *cp = str;
-    int cnt = 0, cnts = 0;
-    while (*cp) {
-        if (*cp=='(' && ++cnt>50) return 0;
-        else if (*cp == '}' && cp[1]=='{' && ++cnts>1) return 0;
-        cp++;
+    int depth = 0;
+    for (; *cp; cp++) {
+        if (*cp == '\\' && cp[1]) cp++;
+        else if (*cp == '(' && ++depth>1000) return 0;
+        else if (*cp == ')') depth--;
     }
     return 1;
 }
@@ -80,7 +80,12 @@ Jsi_Regex* Jsi_RegExpNew(Jsi_Interp *interp, const char *regtxt, int eflag)
     }
     *ce = 0;
     regex_t reg;
-    if (!jsi_regexValid(cp) || (rec=regcomp(&reg, cp, flag))) {
+    if (!jsi_regexValid(cp)) {
+        *ce = '/';
+        Jsi_LogError("regex nested too deep");
+        return NULL;
+    }
+    if ((rec=regcomp(&reg, cp, flag))) {
         char errbuf[200];
         errbuf[0] = 0;
         *ce++ = '/';
-- 
2.43.0


From 318efe0cede0ba007e2dbeb7068ba3f12fd0c271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:52:10 +0000
Subject: [PATCH 186/242] fix: compressed channels lost data, miscounted writes
 and wrote past the end of a buffer

---
 src/jsiFilesys.c |   1 +
 src/jsiZvfs.c    | 230 +++++++++++++++++++++++------------------------
 2 files changed, 111 insertions(+), 120 deletions(-)

diff --git a/src/jsiFilesys.c b/src/jsiFilesys.c
index 47e573f..c4c899b 100644
--- a/src/jsiFilesys.c
+++ b/src/jsiFilesys.c
@@ -537,6 +537,7 @@ Jsi_Channel Jsi_Open(Jsi_Interp *interp, Jsi_Value *file, const char *modeString
         Jsi_Chan *nch = (Jsi_Chan *)Jsi_Calloc(1,sizeof(*nch));
         *nch = *ch;
         nch->fsPtr = fsPtr;
+        Jsi_Free(ch);
         return nch;
     }
     for (i=0, n = 0; s[i]; i++) {
diff --git a/src/jsiZvfs.c b/src/jsiZvfs.c
index 3480d1e..85aa97b 100644
--- a/src/jsiZvfs.c
+++ b/src/jsiZvfs.c
@@ -124,6 +124,7 @@ typedef struct ZvfsChannelInfo {
     int iCRC;            /* Cyclic Redundancy Check of the data */
     char emuGzip;
     char useGzip;
+    char atEof;             /* A read found the end of the data. */
     Jsi_Interp *interp;
 } ZvfsChannelInfo;
 
@@ -1017,68 +1018,70 @@ static Jsi_Channel Jfz_FSOpenProc (Jsi_Interp *interp, Jsi_Value *path, const ch
     return chan;
 }
 
-static int Jfz_FSWriteProc(Jsi_Channel chan, const char *buf, int size) {
-    ZvfsChannelInfo *pInfo = (ZvfsChannelInfo*)chan->data;
+/* Compress size bytes of buf and write the output that is ready. With Z_FINISH the stream ends. */
+static int jfzDeflate(ZvfsChannelInfo *pInfo, const char *buf, int size, int flush) {
     Jsi_Interp *interp = pInfo->interp;
-    ZVFSSIGASSERT(pInfo, PINFO);
     char obuf[COMPR_BUF_SIZE];
-    if (size<0) size = 0;
-    int n, cnt = size;
-    if (!buf) size = 0;
+    int status, out;
     z_stream *stream = &pInfo->stream;
-    stream->next_out = (unsigned char*)obuf;
-    stream->avail_out = sizeof(obuf);
+    if (pInfo->emuGzip && pInfo->readSoFar == 0) { /* Add gzip header */
+        if (Jsi_Write(interp, pInfo->chan, "\37\213\10\0\0\0\0\0\0\3", 10) != 10)
+            goto writefail;
+        pInfo->readSoFar += 10;
+        pInfo->iCRC = crc32(0, NULL, 0);
+    }
+    if (pInfo->emuGzip && size>0)
+        pInfo->iCRC = crc32(pInfo->iCRC, (unsigned char*)buf, size);
+    pInfo->nByte += size;
     stream->next_in = (unsigned char*)buf;
-    stream->avail_in = n = size;
-    while (stream->avail_in > 0 || buf == NULL) {
-        stream->total_out = 0;
-        int status = deflate(stream, (buf?(size==0?Z_FULL_FLUSH:0):Z_FINISH));
-        int out = stream->total_out;
-        if (pInfo->emuGzip && buf && (status == Z_STREAM_END || status == Z_OK))
-            pInfo->iCRC = crc32(pInfo->iCRC, (unsigned char*)buf, size - stream->avail_in);
-        if ((status == Z_STREAM_END || status == Z_OK) && out>0)
-        {
-            if (pInfo->emuGzip && pInfo->readSoFar == 0 && /* Add gzip header */
-                Jsi_Write(interp, pInfo->chan, "\37\213\10\0\0\0\0\0\0\3", 10) != 10)
-                goto writefail;
-            if (out != Jsi_Write(interp, pInfo->chan, obuf, out)) {
-writefail:
-                Jsi_LogError("write failed");
-                cnt = -1;
-                break;
-            }
-            cnt += out;
-            pInfo->curPos = (pInfo->readSoFar += cnt);
-            stream->next_out = (unsigned char*)(obuf+cnt);
-            stream->avail_out = sizeof(obuf);
-            if (pInfo->emuGzip && !buf) { /* Add gzip size and crc. */
-                char psp[8];
-                put32(psp, pInfo->iCRC);
-                put32(psp+4, pInfo->nByte);
-                if (Jsi_Write(interp, pInfo->chan, (char*)psp, 8) != 8)
-                    goto writefail;
-            }
-            //cnt += out;
-        }
-        pInfo->nByte += (size - stream->avail_in);
-        if (status == Z_STREAM_END)
-            break;
-        if (status != Z_OK) {
-            Jsi_LogError("unzip failed: %s", stream->msg);
-            cnt = -1;
-            break;
+    stream->avail_in = size;
+    do {
+        stream->next_out = (unsigned char*)obuf;
+        stream->avail_out = sizeof(obuf);
+        status = deflate(stream, flush);
+        if (status != Z_OK && status != Z_STREAM_END && status != Z_BUF_ERROR) {
+            Jsi_LogError("zip failed: %s", (stream->msg?stream->msg:""));
+            return -1;
         }
-        if (!buf)
-            break;
-    }
-    return cnt;
-    
+        out = sizeof(obuf) - stream->avail_out;
+        if (out>0 && Jsi_Write(interp, pInfo->chan, obuf, out) != out)
+            goto writefail;
+        pInfo->readSoFar += out;
+    } while (status == Z_OK && (flush == Z_FINISH || stream->avail_out == 0 || stream->avail_in > 0));
+    if (pInfo->emuGzip && flush == Z_FINISH) { /* Add gzip size and crc. */
+        char psp[8];
+        put32(psp, pInfo->iCRC);
+        put32(psp+4, pInfo->nByte);
+        if (Jsi_Write(interp, pInfo->chan, (char*)psp, 8) != 8)
+            goto writefail;
+        pInfo->readSoFar += 8;
+    }
+    pInfo->curPos = pInfo->readSoFar;
+    return size;
+
+writefail:
+    Jsi_LogError("write failed");
+    return -1;
+}
+
+static int Jfz_FSWriteProc(Jsi_Channel chan, const char *buf, int size) {
+    ZvfsChannelInfo *pInfo = (ZvfsChannelInfo*)chan->data;
+    ZVFSSIGASSERT(pInfo, PINFO);
+    if (chan->flags & JSI_FS_READONLY)
+        return -1;
+    if (!buf || size<=0)
+        return 0;
+    return jfzDeflate(pInfo, buf, size, Z_NO_FLUSH);
 }
 
 static int Jfz_FSFlushProc(Jsi_Channel chan) {
-    ZVFSSIGASSERT((ZvfsChannelInfo*)chan->data, PINFO);
-    Jfz_FSWriteProc(chan, NULL, 0);
-    return 0;
+    ZvfsChannelInfo *pInfo = (ZvfsChannelInfo*)chan->data;
+    ZVFSSIGASSERT(pInfo, PINFO);
+    if (chan->flags & JSI_FS_READONLY)
+        return 0;
+    if (jfzDeflate(pInfo, NULL, 0, Z_SYNC_FLUSH) < 0)
+        return -1;
+    return Jsi_Flush(pInfo->interp, pInfo->chan);
 }
 
 static int Jfz_FSStatProc(Jsi_Interp *interp, Jsi_Value *path, Jsi_StatBuf *buf) {
@@ -1098,35 +1101,36 @@ static int Jfz_FSReadProc(Jsi_Channel chan, char *s, int size) {
     ZvfsChannelInfo *pInfo = (ZvfsChannelInfo*)chan->data;
     Jsi_Interp *interp = pInfo->interp;
     ZVFSSIGASSERT(pInfo, PINFO);
+    if (!(chan->flags & JSI_FS_READONLY))
+        return -1;
+    if (size<=0)
+        return 0;
+    if (pInfo->nByte == 0) { // An empty file is not compressed.
+        pInfo->atEof = 1;
+        return 0;
+    }
     z_stream *stream = &pInfo->stream;
-    int cnt = 0;
-    *s = 0;
-    int rem = (pInfo->nByte - pInfo->readSoFar);
-    int bsize = sizeof(pInfo->buf);
     stream->next_out = (unsigned char*)s;
-    int oaout = stream->avail_out = size;
-    if (rem <= 0)
-        return 0;
-    
-    while (cnt<size)
+    stream->avail_out = size;
+
+    while (stream->avail_out > 0)
     {
-      int status;
-      if (!stream->avail_in)
+      int rem = (pInfo->nByte - pInfo->readSoFar);
+      if (!stream->avail_in && rem > 0)
       {
         // Input buffer is empty, so read more bytes from input file.
-        int n = (rem<bsize? rem : bsize);
-
         if (pInfo->emuGzip && pInfo->readSoFar == 0) { /* Strip gzip header */
-            if (Jsi_Read(interp, pInfo->chan, pInfo->buf, 10) != 10)
+            if (rem <= 10 || Jsi_Read(interp, pInfo->chan, pInfo->buf, 10) != 10)
                 goto readFail;
-            n -= 10;
             const char *cp = pInfo->buf;
             if (cp[0] != '\37' || cp[1] != '\213' || cp[2] != '\10') {
                 Jsi_LogError("not a gzip file");
                 return -1;
             }
+            pInfo->readSoFar += 10;
+            rem -= 10;
         }
-            
+        int n = (rem<(int)sizeof(pInfo->buf)? rem : (int)sizeof(pInfo->buf));
         if (Jsi_Read(interp, pInfo->chan, pInfo->buf, n) != n)
         {
 readFail:
@@ -1137,80 +1141,68 @@ readFail:
 
         stream->next_in = (unsigned char*)pInfo->buf;
         stream->avail_in = n;
-
         rem -= n;
       }
 
-      status = inflate(stream, Z_SYNC_FLUSH);
-
-      if ((status == Z_STREAM_END) || (!stream->avail_out))
-      {
-        uint n = oaout - stream->avail_out;
-        cnt += n;
-        stream->next_out = (unsigned char*)(s+cnt);
-        stream->avail_out = (size-cnt);
-      }
+      int status = inflate(stream, Z_SYNC_FLUSH);
 
       if (status == Z_STREAM_END)
         break;
-      else if (status != Z_OK)
+      if (status == Z_BUF_ERROR && !stream->avail_in && rem > 0)
+        continue;
+      if (status != Z_OK)
       {
-        Jsi_LogError("inflate failed: %s", stream->msg);
+        Jsi_LogError("inflate failed: %s", (stream->msg?stream->msg:"truncated data"));
         return -1;
       }
     }
 
-    return cnt;
+    if (stream->avail_out > 0)
+        pInfo->atEof = 1;
+    return size - stream->avail_out;
+}
+
+static int Jfz_FSEofProc(Jsi_Channel chan) {
+    return ((ZvfsChannelInfo*)chan->data)->atEof;
+}
+
+static int Jfz_FSGetcProc(Jsi_Channel chan) {
+    char ch;
+    return (Jfz_FSReadProc(chan, &ch, 1) == 1 ? (unsigned char)ch : -1);
 }
 
 
 static int Jfz_FSCloseProc(Jsi_Channel chan) {
     ZvfsChannelInfo *pInfo = (ZvfsChannelInfo*)chan->data;
+    int rc = 0;
     ZVFSSIGASSERT(pInfo, PINFO);
     if( pInfo->zBuf ) {
         Jsi_Free(pInfo->zBuf);
     }
-    int mode = chan->flags;
-    if (mode & JSI_FS_READONLY) {
-        if (inflateEnd(&pInfo->stream) != Z_OK)
-        {
-          fprintf(stderr, "inflateEnd() failed!\n");
-          return -1;
-        }
-    } else {
-        Jfz_FSWriteProc(chan, NULL, 0);
-        if (deflateEnd(&pInfo->stream) != Z_OK)
-        {
-          fprintf(stderr, "deflateEnd() failed!\n");
-          return -1;
-        }
+    if (chan->flags & JSI_FS_READONLY)
+        inflateEnd(&pInfo->stream);
+    else {
+        if (jfzDeflate(pInfo, NULL, 0, Z_FINISH) < 0)
+            rc = -1;
+        deflateEnd(&pInfo->stream);
     }
-    if (pInfo->chan)
-        Jsi_Close(pInfo->interp, pInfo->chan);
+    if (pInfo->chan && Jsi_Close(pInfo->interp, pInfo->chan) != 0)
+        rc = -1;
     Jsi_Free((char*)pInfo);
-    return 0;
+    return rc;
 }
 
 
 static char * Jfz_FSGetsProc(Jsi_Channel chan, char *s, int size) {
-    ZvfsChannelInfo *pInfo = (ZvfsChannelInfo*)chan->data;
-    char *cp = s;
-    int n = 0;
-    *s = 0;
-    while (n<(size-1)) {
-        int m = Jfz_FSReadProc(chan, pInfo->buf, 1);
-        if (m <= 0)
+    int ch, n = 0;
+    while (n<(size-1) && (ch = Jfz_FSGetcProc(chan)) >= 0) {
+        s[n++] = (char)ch;
+        if (ch == '\n')
             break;
-        *cp = pInfo->buf[0];
-        if (*cp == '\n') {
-            n++;
-            break;
-        }
-        n++;
-        cp++;
     }
-    if (n>0)
-        s[n]=0;
+    if (n == 0)
+        return NULL;
+    s[n] = 0;
     return s;
 }
 
@@ -2245,14 +2237,14 @@ static Jsi_Filesystem Jfz_Filesystem = {
     .readProc=Jfz_FSReadProc,
     .writeProc=Jfz_FSWriteProc,
     .getsProc=Jfz_FSGetsProc,
-    .getcProc=0,
+    .getcProc=Jfz_FSGetcProc,
     .ungetcProc=0,
     .putsProc=0,
     
     .flushProc=Jfz_FSFlushProc,
     .seekProc=0,
     .tellProc=Jfz_FSTellProc,
-    .eofProc=0,
+    .eofProc=Jfz_FSEofProc,
     .truncateProc=0,
     .rewindProc=0,
     .closeProc=Jfz_FSCloseProc,
@@ -2260,10 +2252,8 @@ static Jsi_Filesystem Jfz_Filesystem = {
     /*.pathInFilesystemProc=Jfz_FSPathInFilesystemProc,
     .accessProc=Jfz_FSAccessProc,
     .scandirProc=Jfz_FSScandirProc,
-    .getcProc=Jfz_FSGetcProc,
     .ungetcProc=Jfz_FSUngetcProc,
     .seekProc=Jfz_FSSeekProc,
-    .eofProc=Jfz_FSEofProc,
     .rewindProc=Jfz_FSRewindProc,
     .listVolumesProc=Jfz_FSListVolumesProc,*/
 };
-- 
2.43.0


From 7cb6c92acde44a8f1efadd837446dd99047ff200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:52:10 +0000
Subject: [PATCH 187/242] fix: Channel.tell was wrong past 2 GB

---
 src/jsi.h        | 2 +-
 src/jsiFilesys.c | 2 +-
 src/jsiVfs.c     | 2 +-
 src/jsiZvfs.c    | 4 ++--
 4 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/jsi.h b/src/jsi.h
index ccc8419..ad2df37 100644
--- a/src/jsi.h
+++ b/src/jsi.h
@@ -1401,7 +1401,7 @@ typedef int (Jsi_FSPutsProc)(Jsi_Channel chan, const char* str);
 typedef int (Jsi_FSWriteProc)(Jsi_Channel chan, const char *buf, int size);
 typedef int (Jsi_FSFlushProc)(Jsi_Channel chan);
 typedef int (Jsi_FSSeekProc)(Jsi_Channel chan, Jsi_Wide offset, int mode);
-typedef int (Jsi_FSTellProc)(Jsi_Channel chan);
+typedef Jsi_Wide (Jsi_FSTellProc)(Jsi_Channel chan);
 typedef int (Jsi_FSCloseProc)(Jsi_Channel chan);
 typedef int (Jsi_FSRewindProc)(Jsi_Channel chan);
 typedef bool (Jsi_FSPathInFilesystemProc) (Jsi_Interp *interp, Jsi_Value* path,void* *clientDataPtr);
diff --git a/src/jsiFilesys.c b/src/jsiFilesys.c
index c4c899b..92e739f 100644
--- a/src/jsiFilesys.c
+++ b/src/jsiFilesys.c
@@ -164,7 +164,7 @@ static int jsi_FSLstatProc(Jsi_Interp *interp, Jsi_Value* path, Jsi_StatBuf *buf
 #endif
 }
 static int jsi_FSFlushProc(Jsi_Channel chan) { return fflush(_JSI_GETFP(chan,0));}
-static int jsi_FSTellProc(Jsi_Channel chan) { return ftell(_JSI_GETFP(chan,1));}
+static Jsi_Wide jsi_FSTellProc(Jsi_Channel chan) { return ftell(_JSI_GETFP(chan,1));}
 static int jsi_FSEofProc(Jsi_Channel chan) { return feof(_JSI_GETFP(chan,1));}
 static int jsi_FSTruncateProc(Jsi_Channel chan, unsigned int len) {
     FILE *fp = _JSI_GETFP(chan,1);
diff --git a/src/jsiVfs.c b/src/jsiVfs.c
index c5e1047..1c2961b 100644
--- a/src/jsiVfs.c
+++ b/src/jsiVfs.c
@@ -309,7 +309,7 @@ static int Jav_FSFlushProc(Jsi_Channel chan) {
     return 0;
 }
 
-static int Jav_FSTellProc(Jsi_Channel chan) {
+static Jsi_Wide Jav_FSTellProc(Jsi_Channel chan) {
     return chan->resInt[0];
 }
 
diff --git a/src/jsiZvfs.c b/src/jsiZvfs.c
index 85aa97b..ddf2a89 100644
--- a/src/jsiZvfs.c
+++ b/src/jsiZvfs.c
@@ -1092,7 +1092,7 @@ static int Jfz_FSLstatProc(Jsi_Interp *interp, Jsi_Value *path, Jsi_StatBuf *buf
     return Jsi_Lstat(interp, path, buf);
 }
 
-static int Jfz_FSTellProc(Jsi_Channel chan) {
+static Jsi_Wide Jfz_FSTellProc(Jsi_Channel chan) {
     ZvfsChannelInfo *pInfo = (ZvfsChannelInfo*)chan->data;
     return pInfo->curPos;
 }
@@ -1465,7 +1465,7 @@ static int Jaz_FSFlushProc(Jsi_Channel chan) {
     return 0;
 }
 
-static int Jaz_FSTellProc(Jsi_Channel chan) {
+static Jsi_Wide Jaz_FSTellProc(Jsi_Channel chan) {
     ZvfsChannelInfo *pInfo = (ZvfsChannelInfo*)chan->data;
     return pInfo->curPos;
 }
-- 
2.43.0


From 41e55c3f652879f7d03f5eafc96cc12cde71fb67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:56:19 +0000
Subject: [PATCH 188/242] fix: puts of a channel stopped at a NUL character in
 a string

---
 src/jsiValue.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/jsiValue.c b/src/jsiValue.c
index 63c0ab3..4ca46aa 100644
--- a/src/jsiValue.c
+++ b/src/jsiValue.c
@@ -564,7 +564,10 @@ fmtnum:
     ntxt = v->d.s.str;
     
 done:
-    if (lenPtr) *lenPtr = Jsi_Strlen(ntxt);
+    if (lenPtr) {
+        Jsi_String *sp = (v?jsi_ValueString(v):NULL);
+        *lenPtr = (sp && sp->str == ntxt && sp->len >= 0 ? sp->len : (int)Jsi_Strlen(ntxt));
+    }
     return ntxt;
 }
 
-- 
2.43.0


From 5cb8dd75f1bb6417b739d12d4d415e6027218298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:57:24 +0000
Subject: [PATCH 189/242] fix: a read after a write lost the output that was
 still buffered

---
 src/jsiFilesys.c | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/jsiFilesys.c b/src/jsiFilesys.c
index 92e739f..09ae1ac 100644
--- a/src/jsiFilesys.c
+++ b/src/jsiFilesys.c
@@ -176,11 +176,26 @@ static int jsi_FSRewindProc(Jsi_Channel chan) { rewind(_JSI_GETFP(chan,1)); retu
 static int jsi_FSCloseProc(Jsi_Channel chan) { return fclose(_JSI_GETFP(chan,1));}
 static int jsi_FSSeekProc(Jsi_Channel chan, Jsi_Wide offset, int mode) { return fseek(_JSI_GETFP(chan,1), offset, mode);}
 
+/* C wants a seek between input and output: without it output that is still buffered can be lost. */
+static bool jsi_fsTurn(Jsi_Channel chan, int isRead) {
+    if (!chan || !chan->fp || !chan->isNative)
+        return 1;
+    if (isRead && (chan->flags & JSI_FS_WRITEONLY))
+        return 0;
+    if (!(chan->flags & (JSI_FS_READONLY|JSI_FS_WRITEONLY)) && chan->resInt[0] == (isRead?2:1))
+        fseek(chan->fp, 0, SEEK_CUR);
+    chan->resInt[0] = (isRead?1:2);
+    return 1;
+}
+
 static int jsi_FSWriteProc(Jsi_Channel chan, const char *buf, int size) {
+    jsi_fsTurn(chan, 0);
     return fwrite(buf, 1, size, _JSI_GETFP(chan,0));
 }
 
 static int jsi_FSReadProc(Jsi_Channel chan, char *buf, int size) {
+    if (!jsi_fsTurn(chan, 1))
+        return -1;
     return fread(buf, 1, size, _JSI_GETFP(chan,0));
 }
 
@@ -218,6 +233,8 @@ static int jsi_FSReadlinkProc(Jsi_Interp *interp, Jsi_Value *path, char *buf, in
 #endif // __WIN32
 
 static int jsi_FSGetcProc(Jsi_Channel chan) {
+    if (!jsi_fsTurn(chan, 1))
+        return -1;
     return fgetc(_JSI_GETFP(chan,1));
 }
 
@@ -226,10 +243,13 @@ static int jsi_FSUngetcProc(Jsi_Channel chan, int ch) {
 }
 
 static char * jsi_FSGetsProc(Jsi_Channel chan, char *s, int size) {
+    if (!jsi_fsTurn(chan, 1))
+        return NULL;
     return fgets(s, size, _JSI_GETFP(chan,1));
 }
 
 static int jsi_FSPutsProc(Jsi_Channel chan, const char *s) {
+    jsi_fsTurn(chan, 0);
     return fputs(s, _JSI_GETFP(chan,0));
 }
 
-- 
2.43.0


From e9d12ab6480c5cbede7a93f3404adcf01b93faa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:00:24 +0000
Subject: [PATCH 190/242] fix: File.remove could not remove a dangling link

---
 src/jsiFileCmds.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jsiFileCmds.c b/src/jsiFileCmds.c
index 8e9b09b..134769d 100644
--- a/src/jsiFileCmds.c
+++ b/src/jsiFileCmds.c
@@ -700,7 +700,7 @@ static Jsi_RC FileRemoveCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_thi
         return Jsi_LogError("expected boolean");
     if (vf)
         force = vf->d.val;
-    rc = Jsi_Stat(interp, source, &st);
+    rc = Jsi_Lstat(interp, source, &st);
     if (Jsi_Strcmp(spath,"/")==0)
         return JSI_ERROR;
     if (rc != 0) {
-- 
2.43.0


From 035dd2e4632aa00018a78ad6d6b2a456c803b0bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:00:41 +0000
Subject: [PATCH 191/242] fix: File.remove with force did not report what it
 left behind

---
 src/jsiFileCmds.c | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/jsiFileCmds.c b/src/jsiFileCmds.c
index 134769d..8e3586a 100644
--- a/src/jsiFileCmds.c
+++ b/src/jsiFileCmds.c
@@ -650,7 +650,7 @@ static Jsi_RC RmdirAll(Jsi_Interp *interp, Jsi_Value *path, int force)
     /* TODO: change to Jsi_Scandir */
     dir = opendir(dirname);
     if (dir == NULL) {
-        if (force)
+        if (Jsi_Remove(interp, path, force) == 0)
             return JSI_OK;
         return Jsi_LogError("opening directory: %s", dirname);
     }
@@ -678,7 +678,8 @@ static Jsi_RC RmdirAll(Jsi_Interp *interp, Jsi_Value *path, int force)
         }
     }
     closedir(dir);
-    Jsi_Remove(interp, path, force);
+    if (Jsi_Remove(interp, path, force) != 0 && erc == JSI_OK)
+        erc = Jsi_LogError("deleting directory: %s", dirname);
     return erc;
 }
 
@@ -710,11 +711,8 @@ static Jsi_RC FileRemoveCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_thi
     }
 
     if (Jsi_Remove(interp, source, force) != 0) {
-        if (!S_ISDIR(st.st_mode)) {
-            if (force)
-                return JSI_OK;
+        if (!S_ISDIR(st.st_mode))
             return Jsi_LogError("error deleting \"%s\"", spath);
-        }
         if (force==0) 
             return Jsi_LogError("error deleting \"%s\": directory not empty", spath);
         return RmdirAll(interp, source, force);
-- 
2.43.0


From a36fb6ae9b15a7aba057b5c9932d514293c00091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:00:41 +0000
Subject: [PATCH 192/242] fix: File.mknod used the mode as the device number

---
 src/jsiFileCmds.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jsiFileCmds.c b/src/jsiFileCmds.c
index 8e3586a..c21baf4 100644
--- a/src/jsiFileCmds.c
+++ b/src/jsiFileCmds.c
@@ -426,7 +426,7 @@ static Jsi_RC FileMknodCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this
         return Jsi_LogError("expected numbers for arg 2 & 3");
     SAFEACCESS(fname, 1, 1)
     mode_t mode = (mode_t)m;
-    dev_t dev = (dev_t)m;
+    dev_t dev = (dev_t)d;
     if (mknod(nam, mode, dev))
         return Jsi_LogError("mknod failed: %s", strerror(errno));
     return JSI_OK;
-- 
2.43.0


From 18e3763f61a7cf89208b87016c7e1bae1753c956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:03:19 +0000
Subject: [PATCH 193/242] fix: File.copy of a file to itself emptied it in a
 read-only directory

---
 src/jsiFileCmds.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/jsiFileCmds.c b/src/jsiFileCmds.c
index c21baf4..5fe85c1 100644
--- a/src/jsiFileCmds.c
+++ b/src/jsiFileCmds.c
@@ -553,8 +553,14 @@ static int FileCopy(Jsi_Interp *interp, Jsi_Value* src, Jsi_Value* dest, int for
     Jsi_Channel ich = Jsi_Open(interp, src, "rb");
     if (!ich)
         return -1;
-    if (force && Jsi_Access(interp, dest, F_OK) == 0) {
-        Jsi_Remove(interp, dest, 0);
+    if (force && Jsi_Access(interp, dest, F_OK) == 0 && Jsi_Remove(interp, dest, 0) != 0) {
+        Jsi_StatBuf sst, dst;
+        if (Jsi_Stat(interp, src, &sst) == 0 && Jsi_Stat(interp, dest, &dst) == 0
+            && sst.st_dev == dst.st_dev && sst.st_ino == dst.st_ino) { /* Opening it would truncate the source. */
+            Jsi_Close(interp, ich);
+            errno = EEXIST;
+            return -1;
+        }
     }
     Jsi_Channel och = Jsi_Open(interp, dest, "wb+");
     if (!och) {
-- 
2.43.0


From 6c2ea2c3b76ee7b1f925b147ee10448042e2e3b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:10:32 +0000
Subject: [PATCH 194/242] fix: File.realpath and join of a missing file kept
 the first directory before ..

---
 src/jsiFilesys.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/jsiFilesys.c b/src/jsiFilesys.c
index 09ae1ac..40bbcfc 100644
--- a/src/jsiFilesys.c
+++ b/src/jsiFilesys.c
@@ -1442,7 +1442,7 @@ static void NormalizeUnixPath(Jsi_Interp *interp, char *path) {
         } else if (!Jsi_Strcmp(argv[i],"..")) {
             char *pcp = Jsi_DSValue(&dStr), *lcp = pcp;
             pcp = Jsi_Strrchr(pcp, '/');
-            if (pcp && pcp != Jsi_DSValue(&dStr)) {
+            if (pcp) {
                 *pcp = 0;
                 Jsi_DSSetLength(&dStr, Jsi_Strlen(lcp));
             }
@@ -1452,7 +1452,7 @@ static void NormalizeUnixPath(Jsi_Interp *interp, char *path) {
         }
     }
     Jsi_DSFree(&sStr);
-    Jsi_Strcpy(path, Jsi_DSValue(&dStr));
+    Jsi_Strcpy(path, Jsi_DSLength(&dStr) ? Jsi_DSValue(&dStr) : "/");
     Jsi_DSFree(&dStr);
     Jsi_DSFree(&eStr);
 }
@@ -1500,8 +1500,7 @@ char *Jsi_FileRealpathStr(Jsi_Interp *interp, const char *path, char *newname)
 #endif
     apath = realpath(npath, newname);
     if (!apath && path[0] != '~') {
-        if ((path[0] == '.' && path[1] == '/') || (path[0] != '/' && 
-        !(path[0] == '.' && path[1] == '.') && path[1] != ':')) {
+        if ((path[0] == '.' && path[1] == '/') || (path[0] != '/' && path[1] != ':')) {
             Jsi_GetCwd(interp, &eStr);
             Jsi_DSAppend(&eStr, "/", path, NULL);
             npath = Jsi_DSValue(&eStr);
-- 
2.43.0


From e5682525309ce4e25938f9d9685cb9eb53369661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:10:32 +0000
Subject: [PATCH 195/242] fix: File.normalize of // was empty

---
 src/jsiFilesys.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jsiFilesys.c b/src/jsiFilesys.c
index 40bbcfc..612cedd 100644
--- a/src/jsiFilesys.c
+++ b/src/jsiFilesys.c
@@ -1392,7 +1392,7 @@ char* Jsi_NormalPath(Jsi_Interp *interp, const char *path, Jsi_DString *dStr) {
         }
     }
     Jsi_DSSetLength(dStr, 0);
-    Jsi_DSAppend(dStr, Jsi_DSValue(&sStr), NULL);
+    Jsi_DSAppend(dStr, (Jsi_DSLength(&sStr) ? Jsi_DSValue(&sStr) : "/"), NULL);
 done:
     Jsi_DSFree(&sStr);
     return Jsi_DSValue(dStr);
-- 
2.43.0


From ffa0f2e33dac7b6c54368651cff91d8907dedb30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:20:50 +0000
Subject: [PATCH 196/242] fix: a package in a relative pkgDirs could not
 require another

---
 src/jsiCmds.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/jsiCmds.c b/src/jsiCmds.c
index 4bf649b..79e7e7f 100644
--- a/src/jsiCmds.c
+++ b/src/jsiCmds.c
@@ -698,6 +698,16 @@ static Jsi_RC jsi_PkgLoadOne(Jsi_Interp *interp, const char *name, const char *p
             if ((fpath = jsi_AccessFile(interp, fn, R_OK))) {
                 if (trace)
                     Jsi_Printf(interp, jsi_Stderr, "Package-Trace: source('%s') from %s\n", fn, sf);
+                if (*fn != '/') { // Found from the current directory, not that of the current script.
+                    Jsi_DString nStr = {};
+                    const char *np = Jsi_NormalPath(interp, fn, &nStr);
+                    if (np) {
+                        Jsi_DecrRefCount(interp, fpath);
+                        fpath = Jsi_ValueNewStringDup(interp, np);
+                        Jsi_IncrRefCount(interp, fpath);
+                    }
+                    Jsi_DSFree(&nStr);
+                }
                 int oisi = interp->isMain;
                 interp->isMain = 0;
                 rc = Jsi_EvalFile(interp, fpath, JSI_EVAL_GLOBAL);
-- 
2.43.0


From fec6b8b4276b5b4e793990b9cccc708c5cb69545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:20:50 +0000
Subject: [PATCH 197/242] fix: verConvert trimmed inside a version and took
 numbers that are none

---
 src/jsiCmds.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/jsiCmds.c b/src/jsiCmds.c
index 79e7e7f..ed40ad8 100644
--- a/src/jsiCmds.c
+++ b/src/jsiCmds.c
@@ -889,7 +889,7 @@ Jsi_RC jsi_GetVerFromVal(Jsi_Interp *interp, Jsi_Value *val, Jsi_Number *nPtr, b
         return Jsi_LogError("bad version");
     uint v[3] = {};
     while (*vs && (isdigit(*vs) || *vs=='.')) vs++;
-    if (*vs || sscanf(vstr, "%u.%u.%u", v, v+1, v+2) < 1 || v[0]>=100 || v[1]>=100 || v[2]>=100)
+    if (*vs || sscanf(vstr, "%9u.%9u.%9u", v, v+1, v+2) < 1 || v[0]>=100 || v[1]>=100 || v[2]>=100)
         return Jsi_LogError("bad version string: %s", vstr);
     *nPtr = jsi_VersionNormalize((Jsi_Number)v[0] + ((Jsi_Number)v[1]/100.0) + ((Jsi_Number)v[2]/10000.0), NULL, 0);
     return JSI_OK;
@@ -4027,7 +4027,7 @@ static Jsi_RC SysVerConvertCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_
     if (Jsi_ValueIsNumber(interp, val)) {
         char buf[JSI_MAX_NUMBER_STRING*2];
         Jsi_Number n;
-        if (Jsi_GetNumberFromValue(interp, val, &n) != JSI_OK)
+        if (Jsi_GetNumberFromValue(interp, val, &n) != JSI_OK || !(n >= 0.0 && n < 100.0))
             goto bail;
         jsi_VersionNormalize(n, buf, sizeof(buf));
         int trunc = 0;
@@ -4037,8 +4037,9 @@ static Jsi_RC SysVerConvertCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_
         if (trunc) {
             int len = Jsi_Strlen(buf)-1;
             while (trunc>0 && len>1) {
-                if (buf[len] == '0' && buf[len-1] == '.')
-                    buf[len-1] = 0;
+                if (buf[len] != '0' || buf[len-1] != '.')
+                    break;
+                buf[len-1] = 0;
                 len -= 2;
                 trunc--;
             }
-- 
2.43.0


From 781aaa252e3b556fa29eab018d0f845310c3b03c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:31:46 +0000
Subject: [PATCH 198/242] fix: an option whose name starts two options before
 it was called ambiguous

---
 src/jsiOptions.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/jsiOptions.c b/src/jsiOptions.c
index f4c8fea..6df7c26 100644
--- a/src/jsiOptions.c
+++ b/src/jsiOptions.c
@@ -188,15 +188,15 @@ Jsi_OptionsFind(Jsi_Interp *interp, Jsi_OptionSpec *specs, const char *name, Jsi
     c = name[0];
     length = Jsi_Strlen(name);
     matchPtr = NULL;
+    for (specPtr = specs; specPtr->id>=JSI_OPTION_BOOL && specPtr->id < JSI_OPTION_END && specPtr->name; specPtr++)
+        if (specPtr->name[0] == c && Jsi_Strcmp(specPtr->name, name) == 0)
+            return specPtr;   /* Stop on a perfect match. */
     for (specPtr = specs; specPtr->id>=JSI_OPTION_BOOL && specPtr->id < JSI_OPTION_END && specPtr->name; specPtr++) {
 
         if ((specPtr->name[0] != c)
                 || (Jsi_Strncmp(specPtr->name, name, length) != 0)) {
             continue;
         }
-        if (specPtr->name[length] == 0) {
-            return specPtr;   /* Stop on a perfect match. */
-        }
         if (matchPtr != NULL) {
             Jsi_LogError("ambiguous option \"%s\" matches both \"%s\" and \"%s\"", name, matStr, specPtr->name);
             return (Jsi_OptionSpec *) NULL;
-- 
2.43.0


From 7b1141dcc73b2387ff76f3b7287edf03ee75b764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:31:46 +0000
Subject: [PATCH 199/242] fix: a 64 bit option took numbers out of its range as
 other numbers

---
 src/jsiOptions.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/jsiOptions.c b/src/jsiOptions.c
index 6df7c26..bcd90cb 100644
--- a/src/jsiOptions.c
+++ b/src/jsiOptions.c
@@ -300,6 +300,12 @@ jsi_SetOption_(Jsi_Interp *interp, Jsi_OptionSpec *specPtr, const char *string /
             if (!Jsi_ValueIsNumber(interp, argValue))
                 goto bail;
 
+            if (Jsi_GetNumberFromValue(interp, argValue, &nv) != JSI_OK)
+                return JSI_ERROR;
+            if (!(nv >= -9223372036854775808.0 && nv < 9223372036854775808.0)
+                || (nv < 0 && !isIncr && (specPtr->id == JSI_OPTION_UINT64 || specPtr->id == JSI_OPTION_ULONG
+                || specPtr->id == JSI_OPTION_SIZE_T || specPtr->id == JSI_OPTION_UINTPTR_T)))
+                return Jsi_LogType("not a %s", jsi_OptTypeInfo[specPtr->id].cName);
             if (Jsi_GetWideFromValue(interp, argValue, &wcount) != JSI_OK) {
                 return JSI_ERROR;
             }
-- 
2.43.0


From 4ce70fc35c0be26b2923df1fa915e033e170e3e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:31:46 +0000
Subject: [PATCH 200/242] fix: a number option refused NaN but was set to it

---
 src/jsiOptions.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jsiOptions.c b/src/jsiOptions.c
index bcd90cb..a441f06 100644
--- a/src/jsiOptions.c
+++ b/src/jsiOptions.c
@@ -354,8 +354,8 @@ jsi_SetOption_(Jsi_Interp *interp, Jsi_OptionSpec *specPtr, const char *string /
             
         switch (specPtr->id) {
 #define _JSI_OPTSETNTYP(typ, n, ptr) if (!argValue) *(typ*)ptr = 0; else { if (isIncr) n += *((typ *)ptr); \
-            interp->cdataIncrVal = *((typ *)ptr) = (typ)(n); \
-            if (!interp->noCheck && Jsi_NumberIsNaN((Jsi_Number)(*((typ *)ptr)))) return Jsi_LogError("not a number"); }
+            if (!interp->noCheck && Jsi_NumberIsNaN((Jsi_Number)(typ)(n))) return Jsi_LogError("not a number"); \
+            interp->cdataIncrVal = *((typ *)ptr) = (typ)(n); }
 
             case JSI_OPTION_NUMBER: _JSI_OPTSETNTYP(Jsi_Number, nv, ptr); break;
             case JSI_OPTION_LDOUBLE: _JSI_OPTSETNTYP(ldouble, nv, ptr); break;
-- 
2.43.0


From e1320ac5a0c4d7f09f0101dbdf873b890c26b90e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:31:46 +0000
Subject: [PATCH 201/242] fix: resetting a boolean option could set it

---
 src/jsiOptions.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/jsiOptions.c b/src/jsiOptions.c
index a441f06..19232a8 100644
--- a/src/jsiOptions.c
+++ b/src/jsiOptions.c
@@ -268,9 +268,11 @@ jsi_SetOption_(Jsi_Interp *interp, Jsi_OptionSpec *specPtr, const char *string /
         break;
 
     case JSI_OPTION_BOOL: {
-        if (!argValue)
+        if (!argValue) {
             *(char*)ptr = 0;
-        else if (!Jsi_ValueIsBoolean(interp, argValue))
+            break;
+        }
+        if (!Jsi_ValueIsBoolean(interp, argValue))
             goto bail;
         Jsi_GetBoolFromValue(interp, argValue, &bn);
         *(char*)ptr = bn;
-- 
2.43.0


From 114790f9235acd34f29340e1fbc43cee17cb6b58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:31:46 +0000
Subject: [PATCH 202/242] fix: reading a string buffer option emptied it, and a
 refused value too

---
 src/jsiOptions.c | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/jsiOptions.c b/src/jsiOptions.c
index 19232a8..b5ae658 100644
--- a/src/jsiOptions.c
+++ b/src/jsiOptions.c
@@ -425,16 +425,18 @@ jsi_SetOption_(Jsi_Interp *interp, Jsi_OptionSpec *specPtr, const char *string /
         break;
         
     case JSI_OPTION_DSTRING:
+    {
+        int sLen = 0;
+        const char *scp = NULL;
+        if (argValue && !Jsi_ValueIsNull(interp, argValue) && !(scp = Jsi_ValueString(interp, argValue, &sLen)))
+            goto bail;
+        if (((Jsi_DString *)ptr)->strA)
+            Jsi_DSFree((Jsi_DString *)ptr);
         Jsi_DSInit((Jsi_DString *)ptr);
-        if (argValue && !Jsi_ValueIsNull(interp, argValue))
-        {
-            int sLen;
-            const char *scp = Jsi_ValueString(interp, argValue, &sLen);
-            if (!scp)
-                goto bail;
+        if (scp)
             Jsi_DSAppendLen((Jsi_DString *)ptr, scp, sLen);
-        }
         break;
+    }
     
     case JSI_OPTION_TIME_D: {
        if (argValue)
@@ -743,7 +745,8 @@ jsi_GetOption(Jsi_Interp *interp, Jsi_OptionSpec *specPtr, void* record, const c
         break;
         
     case JSI_OPTION_DSTRING:
-        Jsi_ValueFromDS(interp, (Jsi_DString*)ptr, valuePtr);
+        // The option keeps its string.
+        jsi_ValueMakeBlobDup(interp, valuePtr, (uchar*)Jsi_DSValue((Jsi_DString*)ptr), Jsi_DSLength((Jsi_DString*)ptr));
         break;
     
     case JSI_OPTION_TIME_W: {
-- 
2.43.0


From 33ec13c0e5500530348131a7a6dcb48c0f7718b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:31:46 +0000
Subject: [PATCH 203/242] fix: a time option of milliseconds was not set to the
 number given

---
 src/jsiOptions.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/jsiOptions.c b/src/jsiOptions.c
index b5ae658..472dbe9 100644
--- a/src/jsiOptions.c
+++ b/src/jsiOptions.c
@@ -462,11 +462,12 @@ jsi_SetOption_(Jsi_Interp *interp, Jsi_OptionSpec *specPtr, const char *string /
     case JSI_OPTION_TIME_W: {
        if (argValue)
         {
+            Jsi_Number num;
             if (Jsi_ValueIsNumber(interp, argValue)) {
-                Jsi_GetNumberFromValue(interp, argValue, (Jsi_Number*)ptr);
+                Jsi_GetNumberFromValue(interp, argValue, &num);
+                *(Jsi_Wide*)ptr = (Jsi_Wide)num;
             } else {
                 const char *scp;
-                Jsi_Number num;
                 if (Jsi_GetStringFromValue(interp, argValue, &scp, NULL) != JSI_OK) {
                     goto bail;
                 }
-- 
2.43.0


From d33aaef79cd9843d51d8f5d9d1b4122f511f7b70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:32:15 +0000
Subject: [PATCH 204/242] fix: bits above the lowest 8 of a bitset option were
 lost when set by an object, above 32 always

---
 src/jsiOptions.c | 60 +++++++++++++++++++++++++++++-------------------
 1 file changed, 37 insertions(+), 23 deletions(-)

diff --git a/src/jsiOptions.c b/src/jsiOptions.c
index 472dbe9..b28c60a 100644
--- a/src/jsiOptions.c
+++ b/src/jsiOptions.c
@@ -1633,14 +1633,18 @@ static Jsi_RC jsi_ValueToBitset(Jsi_Interp *interp, Jsi_OptionSpec* spec, Jsi_Va
                         rc = Jsi_LogError("Can not use '!' in a string starting with '='");
                     isnot = 1; cp++;
                 }
-                if (JSI_OK != Jsi_GetIndex(interp, cp, list, "enum", fflags, &n))
+                if (JSI_OK != Jsi_GetIndex(interp, cp, list, "enum", fflags, &n)) {
                     rc = JSI_ERROR;
-                if (n >= (int)(spec->size*8)) 
+                    continue;
+                }
+                if (n >= (int)(spec->size*8)) {
                     rc = Jsi_LogError("list larger than field size: %s", spec->name);
+                    continue;
+                }
                 if (isnot)
-                    m &= ~(1<<n);
+                    m &= ~((uint64_t)1<<n);
                 else
-                    m |= (1<<n);
+                    m |= ((uint64_t)1<<n);
             }
             Jsi_DSFree(&sStr);
             if (rc != JSI_OK)
@@ -1649,11 +1653,9 @@ static Jsi_RC jsi_ValueToBitset(Jsi_Interp *interp, Jsi_OptionSpec* spec, Jsi_Va
     } else {
 #ifndef JSI_LITE_ONLY
         // Supports object for update, or array for replace (or update when first string is just a '=')
-        if (!inValue) {
-            *s = 0;
-            return JSI_OK;
-        }
-        if (Jsi_ValueIsObjType(interp, inValue, JSI_OT_OBJECT) && !Jsi_ValueIsArray(interp, inValue)) {
+        if (!inValue)
+            m = 0;
+        else if (Jsi_ValueIsObjType(interp, inValue, JSI_OT_OBJECT) && !Jsi_ValueIsArray(interp, inValue)) {
             Jsi_TreeEntry *tPtr;
             Jsi_TreeSearch search;
             Jsi_Tree *tp = Jsi_TreeFromValue(interp, inValue);
@@ -1674,16 +1676,18 @@ static Jsi_RC jsi_ValueToBitset(Jsi_Interp *interp, Jsi_OptionSpec* spec, Jsi_Va
                 }
                 bool vb;
                 Jsi_ValueGetBoolean(interp, optval, &vb);
+                if (n >= (int)(spec->size*8)) {
+                    Jsi_TreeSearchDone(&search);
+                    return Jsi_LogError("list larger than field size: %s", spec->name);
+                }
                 if (!vb)
-                    m &= ~(1<<n);
+                    m &= ~((uint64_t)1<<n);
                 else
-                    m |= (1<<n);
+                    m |= ((uint64_t)1<<n);
             }
             if (tp)
                 Jsi_TreeSearchDone(&search);
-            *s = m;
-            return JSI_OK;
-        }
+        } else {
         
         if (!Jsi_ValueIsArray(interp, inValue)) 
             return Jsi_LogError("expected array or object");
@@ -1703,12 +1707,14 @@ static Jsi_RC jsi_ValueToBitset(Jsi_Interp *interp, Jsi_OptionSpec* spec, Jsi_Va
             if (*cp == '!') { isnot = 1; cp++; }
             if (JSI_OK != Jsi_GetIndex(interp, cp, list, "bitset", fflags, &n))
                 return JSI_ERROR;
+            if (n >= (int)(spec->size*8))
+                return Jsi_LogError("list larger than field size: %s", spec->name);
             if (isnot)
-                m &= ~(1<<n);
+                m &= ~((uint64_t)1<<n);
             else
-                m |= (1<<n);
+                m |= ((uint64_t)1<<n);
+        }
         }
-        *s = m;
 #endif
     }
     switch (spec->size) {
@@ -1722,16 +1728,25 @@ static Jsi_RC jsi_ValueToBitset(Jsi_Interp *interp, Jsi_OptionSpec* spec, Jsi_Va
 
 static Jsi_RC jsi_BitsetToValue(Jsi_Interp *interp, Jsi_OptionSpec* spec, Jsi_Value **outValue, Jsi_DString *outStr, void *record, Jsi_Wide flags)
 {
-    int i, n, cnt = 0, *s = (int*)(((char*)record) + spec->offset);
+    int i, cnt = 0;
+    uint64_t n;
+    char *s = ((char*)record) + spec->offset;
     const char **list = (const char**)spec->data;
     if (!list) 
         return Jsi_LogError("custom enum spec did not set data: %s", spec->name);
+    switch (spec->size) {
+        case 1: n = *(uint8_t*)s; break;
+        case 2: n = *(uint16_t*)s; break;
+        case 4: n = *(uint32_t*)s; break;
+        case 8: n = *(uint64_t*)s; break;
+        default: 
+            return Jsi_LogError("bitset size must be 1, 2, 4, or 8: %s", spec->name);
+    }
     if (outStr) {
-        n = *s;
         for (i=0; list[i]; i++) {
             if (i >= (int)(spec->size*8)) 
                 return Jsi_LogError("list larger than field size: %s", spec->name);
-            if (!(n & (1<<i)))
+            if (!(n & ((uint64_t)1<<i)))
                 continue;
             if (cnt++)
                 Jsi_DSAppendLen(outStr, ", ", 1);
@@ -1741,10 +1756,9 @@ static Jsi_RC jsi_BitsetToValue(Jsi_Interp *interp, Jsi_OptionSpec* spec, Jsi_Va
     }
 #ifndef JSI_LITE_ONLY
     Jsi_Obj *obj = Jsi_ObjNewType(interp, JSI_OT_ARRAY);
-    n = *s;
-    for (i=0; list[i]; i++) {
+    for (i=0; list[i] && i < (int)(spec->size*8); i++) {
         Jsi_Value *v;
-        if (!(n&(1<<i))) continue;
+        if (!(n&((uint64_t)1<<i))) continue;
         cnt++;
         v = Jsi_ValueMakeStringKey(interp, NULL, list[i]);
         Jsi_ObjArrayAdd(interp, obj, v);
-- 
2.43.0


From 9e291a5cb472d844cb7183a7d5d8c446a4e2782a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:32:15 +0000
Subject: [PATCH 205/242] fix: an element past the end of an array option was
 read and written

---
 src/jsiOptions.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jsiOptions.c b/src/jsiOptions.c
index b28c60a..d8211eb 100644
--- a/src/jsiOptions.c
+++ b/src/jsiOptions.c
@@ -637,7 +637,7 @@ bail:
         cp = cb+1;
         Jsi_OptionSpec *subSpec = specPtr->init.OPT_CARRAY;
         int isize, size = specPtr->arrSize;
-        if (!subSpec || size<=0 || (isize=subSpec->size)<=0)
+        if (!subSpec || size<=0 || (isize=subSpec->size)<=0 || ul>=size)
             goto bail;
         isize = isize/size;
         uchar *s = (((uchar*)rec)+specPtr->offset + isize*ul);
@@ -873,7 +873,7 @@ bail:
         cp = cb+1;
         Jsi_OptionSpec *subSpec = specPtr->init.OPT_CARRAY;
         int isize, size = specPtr->arrSize;
-        if (!subSpec || size<=0 || (isize=subSpec->size)<=0)
+        if (!subSpec || size<=0 || (isize=subSpec->size)<=0 || ul>=size)
             goto bail;
         isize = isize/size;
         uchar *s = (((uchar*)rec)+specPtr->offset + isize*ul);
-- 
2.43.0


From d51fa615d5c9b32945b94e4fb14b23b93ef0ff9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:32:15 +0000
Subject: [PATCH 206/242] fix: a time with seconds lost them when parsed with
 an empty format

---
 src/jsiCmds.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/jsiCmds.c b/src/jsiCmds.c
index ed40ad8..2639d04 100644
--- a/src/jsiCmds.c
+++ b/src/jsiCmds.c
@@ -2047,7 +2047,6 @@ Jsi_RC Jsi_DatetimeParse(Jsi_Interp *interp, const char *str, const char *fmt, i
         }
         rv = strptime(str, fmt, &tm);
     } else {
-        if (fmt) j++;
         while (timeFmts[j]) {
             memset(&tm, 0, sizeof(tm));
             tm.tm_isdst = -1;
-- 
2.43.0


From 405b00064ff776a0df24f233f34bd1392bf15083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:43:04 +0000
Subject: [PATCH 207/242] fix: a regular expression kept by a package was freed
 twice at exit

---
 src/jsiInterp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jsiInterp.c b/src/jsiInterp.c
index a8af0a7..dacff91 100644
--- a/src/jsiInterp.c
+++ b/src/jsiInterp.c
@@ -1971,7 +1971,6 @@ static Jsi_RC jsiInterpDelete(Jsi_Interp* interp, void *unused)
     Jsi_DecrRefCountIF(interp, interp->NullValue);
     Jsi_OptionsFree(interp, InterpOptions, interp, 0);
     Jsi_DecrRefCountIF(interp, interp->Object_prototype);
-    Jsi_HashDeleteIF(interp->regexpTbl);
     Jsi_HashDeleteIF(interp->userdataTbl);
     Jsi_HashDeleteIF(interp->eventTbl);
     if (interp->Function_prototype_prototype) {
@@ -1997,6 +1996,7 @@ static Jsi_RC jsiInterpDelete(Jsi_Interp* interp, void *unused)
     Jsi_HashDeleteIF(interp->loadTbl);
     Jsi_HashDeleteIF(interp->packageHash);
     Jsi_HashDeleteIF(interp->assocTbl);
+    Jsi_HashDeleteIF(interp->regexpTbl);
     interp->cleanup = 1;
     //jsi_AllObjOp(interp, NULL, -1);
 #ifdef JSI_MEM_DEBUG
-- 
2.43.0


From 9549ea388c340587a6882cdb4bc1a6f57167f39e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:47:19 +0000
Subject: [PATCH 208/242] fix: a builtin given as an SQL function without an
 argument count crashed

---
 src/jsiFunc.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/jsiFunc.c b/src/jsiFunc.c
index 9f1f065..313a267 100644
--- a/src/jsiFunc.c
+++ b/src/jsiFunc.c
@@ -602,6 +602,8 @@ Jsi_RC Jsi_FunctionArguments(Jsi_Interp *interp, Jsi_Value *func, int *argcPtr)
     funcPtr = func->d.obj->d.fobj;
     f = funcPtr->func;
     SIGASSERT(f, FUNC);
+    if (!f->argnames) /* A builtin: has no list of its arguments. */
+        return JSI_ERROR;
     *argcPtr = f->argnames->count;
     return JSI_OK;
 }
-- 
2.43.0


From 3941a59984cf10d7dfe4d0a797b6641bddd28149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:48:18 +0000
Subject: [PATCH 209/242] fix: a function kept in the data of a package was
 freed after its package

---
 src/jsiInterp.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/jsiInterp.c b/src/jsiInterp.c
index dacff91..d4295a1 100644
--- a/src/jsiInterp.c
+++ b/src/jsiInterp.c
@@ -609,10 +609,15 @@ Jsi_RC jsi_HashFree(Jsi_Interp *interp, Jsi_HashEntry *hPtr, void *ptr) {
 }
 
 
-static Jsi_RC packageHashFree(Jsi_Interp *interp, Jsi_HashEntry *hPtr, void *ptr) {
-    jsi_PkgInfo *p = (jsi_PkgInfo*)ptr;
+static void packageConfFree(Jsi_Interp *interp, jsi_PkgInfo *p) {
     if (p->popts.conf.info) Jsi_DecrRefCount(interp, p->popts.conf.info);
     if (p->popts.conf.udata) Jsi_DecrRefCount(interp, p->popts.conf.udata);
+    p->popts.conf.info = p->popts.conf.udata = NULL;
+}
+
+static Jsi_RC packageHashFree(Jsi_Interp *interp, Jsi_HashEntry *hPtr, void *ptr) {
+    jsi_PkgInfo *p = (jsi_PkgInfo*)ptr;
+    packageConfFree(interp, p);
     Jsi_Free(p);
     return JSI_OK;
 }
@@ -1875,6 +1880,8 @@ static Jsi_RC jsiInterpDelete(Jsi_Interp* interp, void *unused)
     SIGASSERT(interp,INTERP);
     bool isMainInt = (interp == jsiIntData.mainInterp);
     int mainFlag = (isMainInt ? 2 : 1);
+    Jsi_HashEntry *hPtr;
+    Jsi_HashSearch search;
     if (isMainInt)
         DeleteAllInterps();
     if (interp->opts.initProc)
@@ -1994,6 +2001,9 @@ static Jsi_RC jsiInterpDelete(Jsi_Interp* interp, void *unused)
 #endif
    // if (!interp->parent)
     Jsi_HashDeleteIF(interp->loadTbl);
+    /* Values first: these may hold functions that refer to any package. */
+    for (hPtr = Jsi_HashSearchFirst(interp->packageHash, &search); hPtr; hPtr = Jsi_HashSearchNext(&search))
+        packageConfFree(interp, (jsi_PkgInfo*)Jsi_HashValueGet(hPtr));
     Jsi_HashDeleteIF(interp->packageHash);
     Jsi_HashDeleteIF(interp->assocTbl);
     Jsi_HashDeleteIF(interp->regexpTbl);
-- 
2.43.0


From 522d9aaaee77fd654f0db11041dc915a2459ba9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:57:26 +0000
Subject: [PATCH 210/242] fix: eval in a thread unlocked a mutex twice and then
 kept it locked

---
 src/jsiInterp.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/jsiInterp.c b/src/jsiInterp.c
index d4295a1..176bd2f 100644
--- a/src/jsiInterp.c
+++ b/src/jsiInterp.c
@@ -2183,7 +2183,8 @@ static Jsi_RC InterpEvalCmd_(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_th
         Jsi_MutexUnlock(interp, sinterp->QMutex);
         return JSI_OK;
     }
-    if (interp->subOpts.mutexUnlock) Jsi_MutexUnlock(interp, interp->Mutex);
+    bool unlock = (interp->subOpts.mutexUnlock && !isthrd); /* When waiting for a thread Jsi_Sleep() unlocks. */
+    if (unlock) Jsi_MutexUnlock(interp, interp->Mutex);
     if (!isthrd) {
         int onoerror = sinterp->noCheck;
         if (interp->isSafe)
@@ -2246,7 +2247,7 @@ static Jsi_RC InterpEvalCmd_(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_th
         Jsi_Free(s);
     }
 
-    if (interp->subOpts.mutexUnlock && Jsi_MutexLock(interp, interp->Mutex) != JSI_OK) {
+    if (unlock && Jsi_MutexLock(interp, interp->Mutex) != JSI_OK) {
         return JSI_ERROR;
     }
 
-- 
2.43.0


From 7b6996e22686e3c6dcdb2c8769b1b5ae6607076f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:58:45 +0000
Subject: [PATCH 211/242] fix: a thread freed its interpreter while the parent
 used it, and did not answer those waiting

---
 src/jsiInt.h    |  1 +
 src/jsiInterp.c | 58 +++++++++++++++++++++++++++++++++++++++++++++++--
 2 files changed, 57 insertions(+), 2 deletions(-)

diff --git a/src/jsiInt.h b/src/jsiInt.h
index bbfd67c..539879a 100644
--- a/src/jsiInt.h
+++ b/src/jsiInt.h
@@ -1332,6 +1332,7 @@ struct Jsi_Interp {
     Jsi_Hash *TYPEHash;
 
     uint threadErrCnt;  /* Count of bad thread event return codes. */
+    bool threadDone;    /* The thread has ended: nothing more can be queued. */
     uint threadEvalCnt;
     uint threadMsgCnt;
     void *sleepData;
diff --git a/src/jsiInterp.c b/src/jsiInterp.c
index 176bd2f..6d999b1 100644
--- a/src/jsiInterp.c
+++ b/src/jsiInterp.c
@@ -158,6 +158,7 @@ typedef struct InterpObj {
     Jsi_Obj *fobj;
     int objId;
     int deleting;
+    bool running;       /* The thread still uses this. Locked by QMutex of subinterp. */
 } InterpObj;
 
 /* Global state of interps. */
@@ -2117,6 +2118,16 @@ static Jsi_RC interpObjFree(Jsi_Interp *interp, void *data)
     InterpObj *fo = (InterpObj *)data;
     SIGASSERT(fo,INTERPOBJ);
     if (fo->deleting) return JSI_OK;
+    Jsi_Interp *sinterp = fo->subinterp;
+    if (sinterp && sinterp->subthread) {
+        if (Jsi_MutexLock(interp, sinterp->QMutex) != JSI_OK)
+            return JSI_ERROR;
+        bool running = fo->running;
+        fo->deleting = running;
+        Jsi_MutexUnlock(interp, sinterp->QMutex);
+        if (running) /* Leave it to the thread, when it ends. */
+            return JSI_OK;
+    }
     fo->deleting = 1;
     interpObjErase(fo);
     Jsi_Free(fo);
@@ -2179,6 +2190,10 @@ static Jsi_RC InterpEvalCmd_(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_th
         /* Post to thread event in sub-interps queue. TODO: could just use event like below... */
         if (Jsi_MutexLock(interp, sinterp->QMutex) != JSI_OK)
             return JSI_ERROR;
+        if (sinterp->threadDone) {
+            Jsi_MutexUnlock(interp, sinterp->QMutex);
+            return Jsi_LogError("Sub-interp gone");
+        }
         Jsi_DSAppend(&sinterp->interpEvalQ, Jsi_Strlen(Jsi_DSValue(&sinterp->interpEvalQ))?";":"", cp, NULL);
         Jsi_MutexUnlock(interp, sinterp->QMutex);
         return JSI_OK;
@@ -2218,6 +2233,10 @@ static Jsi_RC InterpEvalCmd_(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_th
     } else {
         if (Jsi_MutexLock(interp, sinterp->QMutex) != JSI_OK)
             return JSI_ERROR;
+        if (sinterp->threadDone) {
+            Jsi_MutexUnlock(interp, sinterp->QMutex);
+            return Jsi_LogError("Sub-interp gone");
+        }
         InterpStrEvent *se, *s = (InterpStrEvent *)Jsi_Calloc(1, sizeof(*s));
         SIGINIT(s,INTERPSTREVENT);
         s->isExec = 1;
@@ -2242,9 +2261,12 @@ static Jsi_RC InterpEvalCmd_(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_th
         rc = (s->rc == 0 ? JSI_OK : JSI_ERROR);
         if (rc != JSI_OK)
             Jsi_LogError("eval failed: %s", Jsi_DSValue(&s->data));
+        else if (*Jsi_DSValue(&s->data)) /* The thread has gone on, so its own result may have changed. */
+            rc = Jsi_JSONParse(interp, Jsi_DSValue(&s->data), ret, 0);
         Jsi_DSFree(&s->func);
         Jsi_DSFree(&s->data);
         Jsi_Free(s);
+        return rc;
     }
 
     if (unlock && Jsi_MutexLock(interp, interp->Mutex) != JSI_OK) {
@@ -2456,7 +2478,7 @@ static Jsi_RC SubInterpEvalCallback(Jsi_Interp *interp, void* data)
                 Jsi_DSAppend(&se->data, interp->errMsgBuf, NULL);
                 se->errLine = interp->errLine;
                 se->errFile = interp->errFile;
-            } else {
+            } else if (interp->retValue->vt != JSI_VT_UNDEF) {
                 if (!Jsi_ValueGetDString(interp, interp->retValue, &se->data, JSI_OUTPUT_JSON))
                     se->rc = JSI_ERROR;
             }
@@ -2604,6 +2626,10 @@ static Jsi_RC InterpCallCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_thi
     /* Post to thread event in sub-interps queue. */
     if (Jsi_MutexLock(interp, sinterp->QMutex) != JSI_OK)
         return JSI_ERROR;
+    if (sinterp->threadDone) {
+        Jsi_MutexUnlock(interp, sinterp->QMutex);
+        return Jsi_LogError("Sub-interp gone");
+    }
 
     /* Is an async call. */
     InterpStrEvent *se, *s = (InterpStrEvent *)Jsi_Calloc(1, sizeof(*s));
@@ -2788,7 +2814,33 @@ static JSITHREADRET NewInterpThread(void* iPtr)
 #endif
         Jsi_MutexUnlock(interp, interp->Mutex);
     }
-    interpObjErase(udf);
+    /* Answer those who wait; the owner frees the interp, unless it has already been deleted. */
+    if (Jsi_MutexLock(interp, interp->QMutex) == JSI_OK) {
+        bool deleted;
+        InterpStrEvent *se;
+        interp->threadDone = 1;
+        while ((se = interp->interpStrEvents)) {
+            interp->interpStrEvents = se->next;
+            if (se->isExec) {
+                se->rc = JSI_ERROR;
+                Jsi_DSSet(&se->data, "Sub-interp gone");
+                se->isExec = 0;
+                continue;
+            }
+            Jsi_DSFree(&se->func);
+            Jsi_DSFree(&se->data);
+            if (se->acfunc)
+                Jsi_DecrRefCount(interp, se->acfunc);
+            Jsi_Free(se);
+        }
+        deleted = udf->deleting;
+        udf->running = 0;
+        Jsi_MutexUnlock(interp, interp->QMutex);
+        if (deleted) {
+            interpObjErase(udf);
+            Jsi_Free(udf);
+        }
+    }
 #ifndef __WIN32
     /* TODO: should we wait/notify parent??? */
     pthread_detach(pthread_self());
@@ -2859,6 +2911,8 @@ static Jsi_RC InterpConstructor(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *
     cmdPtr->fobj = fobj;
 #ifndef JSI_OMIT_THREADS
     if (sinterp->subthread) {
+        cmdPtr->running = 1;
+        sinterp->threadId = NULL; /* Not the thread of the parent, from now on. */
 #ifdef __WIN32
         if (!_beginthread( NewInterpThread, 0, cmdPtr )) {
             Jsi_LogError("thread create failed");
-- 
2.43.0


From 1d12ba314d13a10455d7e1aca12b4c5e5c5707ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:16:09 +0000
Subject: [PATCH 212/242] fix: exit with threads running freed the main
 interpreter under them

---
 src/jsiInterp.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/jsiInterp.c b/src/jsiInterp.c
index 6d999b1..8535616 100644
--- a/src/jsiInterp.c
+++ b/src/jsiInterp.c
@@ -179,6 +179,7 @@ typedef struct {
 } AliasCmd;
 
 
+static int threadsRunning = 0; /* Number of threads that have not ended. */
 static void interpObjErase(InterpObj *fo);
 static Jsi_RC interpObjFree(Jsi_Interp *interp, void *data);
 static bool interpObjIsTrue(void *data);
@@ -1883,6 +1884,8 @@ static Jsi_RC jsiInterpDelete(Jsi_Interp* interp, void *unused)
     int mainFlag = (isMainInt ? 2 : 1);
     Jsi_HashEntry *hPtr;
     Jsi_HashSearch search;
+    if (isMainInt && threadsRunning>0) /* Threads still use what would be freed. */
+        return JSI_OK;
     if (isMainInt)
         DeleteAllInterps();
     if (interp->opts.initProc)
@@ -2841,6 +2844,7 @@ static JSITHREADRET NewInterpThread(void* iPtr)
             Jsi_Free(udf);
         }
     }
+    __sync_fetch_and_sub(&threadsRunning, 1);
 #ifndef __WIN32
     /* TODO: should we wait/notify parent??? */
     pthread_detach(pthread_self());
@@ -2912,15 +2916,18 @@ static Jsi_RC InterpConstructor(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *
 #ifndef JSI_OMIT_THREADS
     if (sinterp->subthread) {
         cmdPtr->running = 1;
+        __sync_fetch_and_add(&threadsRunning, 1);
         sinterp->threadId = NULL; /* Not the thread of the parent, from now on. */
 #ifdef __WIN32
         if (!_beginthread( NewInterpThread, 0, cmdPtr )) {
+            __sync_fetch_and_sub(&threadsRunning, 1);
             Jsi_LogError("thread create failed");
             goto bail;
         }
 #else
         pthread_t nthread;
         if (pthread_create(&nthread, NULL, NewInterpThread, cmdPtr) != 0) {
+            __sync_fetch_and_sub(&threadsRunning, 1);
             Jsi_LogError("thread create failed");
             goto bail;
         }
-- 
2.43.0


From 280b4e477dfc4daa19f989c959348afa9d49017d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:17:02 +0000
Subject: [PATCH 213/242] fix: a call made while a queued call ran ran that one
 again and freed it twice

---
 src/jsiInterp.c | 29 +++++++++++++----------------
 1 file changed, 13 insertions(+), 16 deletions(-)

diff --git a/src/jsiInterp.c b/src/jsiInterp.c
index 8535616..5564051 100644
--- a/src/jsiInterp.c
+++ b/src/jsiInterp.c
@@ -2455,14 +2455,17 @@ static Jsi_RC SubInterpEvalCallback(Jsi_Interp *interp, void* data)
     }
     Jsi_MutexUnlock(interp, interp->QMutex);
     Jsi_DSFree(&dStr);
-    if (Jsi_MutexLock(interp, interp->QMutex) != JSI_OK)
-        return JSI_ERROR;
 
-    /* Process subevents. */
-    InterpStrEvent *oldse, *se = interp->interpStrEvents;
-    Jsi_MutexUnlock(interp, interp->QMutex);
-    while (se) {
-        oldse = se;
+    /* Process subevents. Each is taken off the queue first, as it may itself process events. */
+    InterpStrEvent *se;
+    while (1) {
+        if (Jsi_MutexLock(interp, interp->QMutex) != JSI_OK)
+            return JSI_ERROR;
+        if ((se = interp->interpStrEvents))
+            interp->interpStrEvents = se->next;
+        Jsi_MutexUnlock(interp, interp->QMutex);
+        if (!se)
+            break;
         int isExec = se->isExec;
         if (se->acdata) {
             jsi_AliasCreateCmd(interp, Jsi_DSValue(&se->func), (AliasCmd*)se->acdata);
@@ -2500,15 +2503,9 @@ static Jsi_RC SubInterpEvalCallback(Jsi_Interp *interp, void* data)
         if (!isExec) {
             Jsi_DSFree(&se->func);
             Jsi_DSFree(&se->data);
-        }
-        if (Jsi_MutexLock(interp, interp->QMutex) != JSI_OK)
-            return JSI_ERROR;
-        interp->interpStrEvents = se->next;
-        if (!isExec) Jsi_Free(se);
-        se = interp->interpStrEvents;
-        Jsi_MutexUnlock(interp, interp->QMutex);
-        if (isExec)
-            oldse->isExec = 0;
+            Jsi_Free(se);
+        } else /* The one who waits frees it. */
+            se->isExec = 0;
     }
 
     return rc;
-- 
2.43.0


From 254044e3fa1984c957870bbd24d9c5d94084d74c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:18:56 +0000
Subject: [PATCH 214/242] fix: an eval queued for a thread ran before or after
 calls queued around it

---
 src/jsiInt.h    |  2 +-
 src/jsiInterp.c | 16 +++++++++++++++-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/jsiInt.h b/src/jsiInt.h
index 539879a..0c8772f 100644
--- a/src/jsiInt.h
+++ b/src/jsiInt.h
@@ -892,7 +892,7 @@ typedef struct InterpStrEvent_ {
 #ifdef JSI_HAS_SIG
     jsi_Sig sig;
 #endif
-    int rc, isExec, tryDepth, errLine;
+    int rc, isExec, isEval, tryDepth, errLine;
     const char *errFile;
     Jsi_DString func;
     Jsi_DString data;
diff --git a/src/jsiInterp.c b/src/jsiInterp.c
index 5564051..034fcd4 100644
--- a/src/jsiInterp.c
+++ b/src/jsiInterp.c
@@ -2197,7 +2197,16 @@ static Jsi_RC InterpEvalCmd_(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_th
             Jsi_MutexUnlock(interp, sinterp->QMutex);
             return Jsi_LogError("Sub-interp gone");
         }
-        Jsi_DSAppend(&sinterp->interpEvalQ, Jsi_Strlen(Jsi_DSValue(&sinterp->interpEvalQ))?";":"", cp, NULL);
+        /* In the queue with the calls, so that these stay in order. */
+        InterpStrEvent *s = (InterpStrEvent *)Jsi_Calloc(1, sizeof(*s)), **sp = &sinterp->interpStrEvents;
+        SIGINIT(s,INTERPSTREVENT);
+        s->isEval = 1;
+        Jsi_DSInit(&s->func);
+        Jsi_DSInit(&s->data);
+        Jsi_DSAppend(&s->data, cp, NULL);
+        while (*sp)
+            sp = &(*sp)->next;
+        *sp = s;
         Jsi_MutexUnlock(interp, sinterp->QMutex);
         return JSI_OK;
     }
@@ -2475,6 +2484,11 @@ static Jsi_RC SubInterpEvalCallback(Jsi_Interp *interp, void* data)
                 rc = JSI_ERROR;
             Jsi_DecrRefCount(interp, se->acfunc);
         }
+        else if (se->isEval) {
+            interp->threadEvalCnt++;
+            if (Jsi_EvalString(interp, Jsi_DSValue(&se->data), 0) != JSI_OK)
+                rc = JSI_ERROR;
+        }
         else if (isExec) {
             if (se->tryDepth)
                 interp->framePtr->tryDepth++;
-- 
2.43.0


From 5b78e6e8b8ca16acbc00b08f20f14fd2989ce7f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:48:53 +0000
Subject: [PATCH 215/242] fix: small files in an archive made by Zvfs.create
 were unreadable to others

---
 src/jsiZvfs.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/jsiZvfs.c b/src/jsiZvfs.c
index ddf2a89..9ed8bb2 100644
--- a/src/jsiZvfs.c
+++ b/src/jsiZvfs.c
@@ -95,6 +95,7 @@ typedef struct ZFile {
     int nExtra;          /* Extra space in the TOC header */
     int iCRC;            /* Cyclic Redundancy Check of the data */
     int permissions;     /* File permissions. */
+    int method;          /* Compression method. */
     int flags;            /* Deletion = bit 0. */
     struct ZFile *pNext;        /* Next file in the same archive */
 } ZFile;
@@ -1709,13 +1710,14 @@ static Jsi_RC writeFile(
     p->nExtra = 0;
     p->iCRC = 0;
     p->permissions = stat.st_mode;
+    p->method = (isdir ? 0 : 8);
 
     /* Fill in as much of the header as we know.
     */
     put32(&zHdr[0], 0x04034b50);
     put16(&zHdr[4], 0x0014);
     put16(&zHdr[6], 0);
-    put16(&zHdr[8], 8);
+    put16(&zHdr[8], p->method);
     put16(&zHdr[10], p->dosTime);
     put16(&zHdr[12], p->dosDate);
     put16(&zHdr[26], nameLen);
@@ -1891,7 +1893,7 @@ static void writeTOC(Jsi_Interp *interp, Jsi_Channel chan, ZFile *pList) {
         put16(&zBuf[4], 0x0317);
         put16(&zBuf[6], 0x0014);
         put16(&zBuf[8], 0);
-        put16(&zBuf[10], pList->nByte>pList->nByteCompr ? 0x0008 : 0x0000);
+        put16(&zBuf[10], pList->method);
         put16(&zBuf[12], pList->dosTime);
         put16(&zBuf[14], pList->dosDate);
         put32(&zBuf[16], pList->iCRC);
-- 
2.43.0


From 64d1b835771809c3538f15150adc311eedc034a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:48:53 +0000
Subject: [PATCH 216/242] fix: times in an archive were a month off and had
 wrong seconds

---
 src/jsiZvfs.c | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/jsiZvfs.c b/src/jsiZvfs.c
index 9ed8bb2..e8893b2 100644
--- a/src/jsiZvfs.c
+++ b/src/jsiZvfs.c
@@ -169,7 +169,7 @@ static void deleteZFileList(ZFile *pList) {
 /* Convert DOS time to unix time. */
 static void UnixTimeDate(struct tm *tm, int *dosDate, int *dosTime) {
     *dosDate = ((((tm->tm_year-80)<<9)&0xfe00) | (((tm->tm_mon+1)<<5)&0x1e0) | (tm->tm_mday&0x1f));
-    *dosTime = (((tm->tm_hour<<11)&0xf800) | ((tm->tm_min<<5)&0x7e0) | (tm->tm_sec&0x1f));
+    *dosTime = (((tm->tm_hour<<11)&0xf800) | ((tm->tm_min<<5)&0x7e0) | ((tm->tm_sec>>1)&0x1f));
 }
 
 /* Convert DOS time to unix time. */
@@ -179,11 +179,12 @@ static time_t DosTimeDate(int dosDate, int dosTime) {
     now=time(NULL);
     tm = localtime(&now);
     tm->tm_year=(((dosDate&0xfe00)>>9) + 80);
-    tm->tm_mon=((dosDate&0x1e0)>>5);
+    tm->tm_mon=((dosDate&0x1e0)>>5)-1;
     tm->tm_mday=(dosDate & 0x1f);
     tm->tm_hour=(dosTime&0xf800)>>11;
     tm->tm_min=(dosTime&0x7e0)>>5;
-    tm->tm_sec=(dosTime&0x1f);
+    tm->tm_sec=(dosTime&0x1f)<<1;
+    tm->tm_isdst=-1;
     return mktime(tm);
 }
 
@@ -1590,13 +1591,14 @@ static void translateDosTimeDate(char *zStr, int zsiz, int dosDate, int dosTime)
                               "Jul", "Aug", "Sep", "Oct", "Nov", "Dec",
                             };
 
+    int mon = ((dosDate&0x1e0)>>5);
     snprintf(zStr, zsiz, "%02d-%s-%d %02d:%02d:%02d",
             dosDate & 0x1f,
-            zMonth[ ((dosDate&0x1e0)>>5) ],
+            zMonth[ mon>12?0:mon ],
             ((dosDate&0xfe00)>>9) + 1980,
             (dosTime&0xf800)>>11,
-            (dosTime&0x7e)>>5,
-            dosTime&0x1f
+            (dosTime&0x7e0)>>5,
+            (dosTime&0x1f)<<1
            );
 }
 
-- 
2.43.0


From 35be75f51f5f9a66b13795f9a77cd7c6beda0a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:48:53 +0000
Subject: [PATCH 217/242] fix: Zvfs.append lost the position, kind and
 directories of what was in the archive

---
 src/jsiZvfs.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/jsiZvfs.c b/src/jsiZvfs.c
index e8893b2..efded7e 100644
--- a/src/jsiZvfs.c
+++ b/src/jsiZvfs.c
@@ -96,7 +96,7 @@ typedef struct ZFile {
     int iCRC;            /* Cyclic Redundancy Check of the data */
     int permissions;     /* File permissions. */
     int method;          /* Compression method. */
-    int flags;            /* Deletion = bit 0. */
+    int flags;            /* General purpose bits. */
     struct ZFile *pNext;        /* Next file in the same archive */
 } ZFile;
 
@@ -354,7 +354,10 @@ static Jsi_RC ZvfsReadTOCStart(
         p->dosTime = INT16(zBuf, 12);
         p->nByteCompr = INT32(zBuf, 20);
         p->nByte = INT32(zBuf, 24);
-        p->nExtra = INT32(zBuf, 28);
+        p->iOffset = iData;
+        p->method = INT16(zBuf, 10);
+        p->flags = INT16(zBuf, 8);
+        p->permissions = (0xffff&(INT32(zBuf, 38) >> 16));
         p->iCRC = INT32(zBuf, 16);
 
         if (nFile < 0)
@@ -1890,11 +1893,11 @@ static void writeTOC(Jsi_Interp *interp, Jsi_Channel chan, ZFile *pList) {
 
     iTocStart = Jsi_Tell(interp, chan);
     for(; pList; pList=pList->pNext) {
-        if( pList->isSpecial ) continue;
+        if( pList->isSpecial && Jsi_Strcmp(pList->zName,"*TOC*")==0 ) continue;
         put32(&zBuf[0], 0x02014b50);
         put16(&zBuf[4], 0x0317);
         put16(&zBuf[6], 0x0014);
-        put16(&zBuf[8], 0);
+        put16(&zBuf[8], pList->flags);
         put16(&zBuf[10], pList->method);
         put16(&zBuf[12], pList->dosTime);
         put16(&zBuf[14], pList->dosDate);
-- 
2.43.0


From a527bc4236fde8bf4136af4548e0f21c3a4d73ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:48:53 +0000
Subject: [PATCH 218/242] fix: reading and seeking in a mounted archive lost
 data, did not end or gave the position in the archive

---
 src/jsiZvfs.c | 85 ++++++++++++++++++++++++++++-----------------------
 1 file changed, 47 insertions(+), 38 deletions(-)

diff --git a/src/jsiZvfs.c b/src/jsiZvfs.c
index efded7e..7a5bd3c 100644
--- a/src/jsiZvfs.c
+++ b/src/jsiZvfs.c
@@ -836,6 +836,7 @@ static int vfsInput (
     Jsi_Seek(interp, pInfo->chan, pInfo->curPos, SEEK_SET);
     if (!pInfo->isCompressed ) {
         toRead = Jsi_Read(interp, pInfo->chan, buf, toRead);
+        if (toRead == 0) toRead = -1; /* premature end */
     } else {
         int err = Z_OK;
         z_stream *stream = &pInfo->stream;
@@ -849,8 +850,7 @@ static int vfsInput (
                     len = COMPR_BUF_SIZE;
                 }
                 len = Jsi_Read(interp, pInfo->chan, (char*)pInfo->zBuf, len);
-                if (len==0) break;
-                if (len<0) { err = Z_STREAM_END+1; break; }
+                if (len<=0) { err = Z_STREAM_END+1; break; }
                 pInfo->nByteCompr -= len;
                 stream->next_in = pInfo->zBuf;
                 stream->avail_in = len;
@@ -890,14 +890,14 @@ static int vfsSeek(
     int *pErrorCode             /* Write the error code here */
 ) {
     Jsi_Interp *interp = pInfo->interp;
-    Jsi_Seek(interp, pInfo->chan, pInfo->curPos, SEEK_SET);
+    long total = (long)pInfo->readSoFar + pInfo->nByte;
     switch( mode ) {
     case SEEK_CUR: {
-        offset += pInfo->readSoFar;
+        offset += pInfo->readSoFar - (pInfo->bsiz - pInfo->bpos);
         break;
     }
     case SEEK_END: {
-        offset += pInfo->readSoFar + pInfo->nByte;
+        offset += total;
         break;
     }
     default: {
@@ -905,10 +905,15 @@ static int vfsSeek(
         break;
     }
     }
-    if (offset < 0) offset = 0;
+    if (offset < 0) {
+        *pErrorCode = EINVAL;
+        return -1;
+    }
+    if (offset > total) offset = total;
+    pInfo->bpos = pInfo->bsiz = 0;
     if( !pInfo->isCompressed ) {
-        Jsi_Seek(interp, pInfo->chan, offset + pInfo->startOfData, SEEK_SET);
-        pInfo->nByte = pInfo->nData;
+        pInfo->curPos = offset + pInfo->startOfData;
+        pInfo->nByte = total - offset;
         pInfo->readSoFar = offset;
     } else {
         if( offset<pInfo->readSoFar ) {
@@ -922,7 +927,7 @@ static int vfsSeek(
             pInfo->zBuf[0] = 0x78;
             pInfo->zBuf[1] = 0x01;
             inflateInit(&pInfo->stream);
-            Jsi_Seek(interp, pInfo->chan, pInfo->startOfData, SEEK_SET);
+            pInfo->curPos = pInfo->startOfData;
             pInfo->nByte += pInfo->readSoFar;
             pInfo->nByteCompr = pInfo->nData;
             pInfo->readSoFar = 0;
@@ -932,10 +937,12 @@ static int vfsSeek(
             char zDiscard[100];
             toRead = offset - pInfo->readSoFar;
             if( toRead>(int)sizeof(zDiscard) ) toRead = (int)sizeof(zDiscard);
-            vfsInput(pInfo, zDiscard, toRead, &errCode);
+            if (vfsInput(pInfo, zDiscard, toRead, &errCode) <= 0) {
+                *pErrorCode = errCode;
+                return -1;
+            }
         }
     }
-    pInfo->curPos = Jsi_Tell(interp, pInfo->chan);
     return pInfo->readSoFar;
 }
 
@@ -1472,12 +1479,24 @@ static int Jaz_FSFlushProc(Jsi_Channel chan) {
 
 static Jsi_Wide Jaz_FSTellProc(Jsi_Channel chan) {
     ZvfsChannelInfo *pInfo = (ZvfsChannelInfo*)chan->data;
-    return pInfo->curPos;
+    return pInfo->readSoFar - (pInfo->bsiz - pInfo->bpos);
 }
 
 static int Jaz_FSEofProc(Jsi_Channel chan) {
     ZvfsChannelInfo *pInfo = (ZvfsChannelInfo*)chan->data;
-    return (pInfo->curPos >= pInfo->pFile->nByte);
+    return (pInfo->bpos >= pInfo->bsiz && pInfo->nByte == 0);
+}
+
+/* Have data in buf: returns 0 at the end, and less on error. */
+static int jazFill(ZvfsChannelInfo *pInfo) {
+    int rc = 0;
+    if (pInfo->bpos < pInfo->bsiz)
+        return 1;
+    pInfo->bpos = pInfo->bsiz = 0;
+    int n = vfsInput(pInfo, pInfo->buf, sizeof(pInfo->buf), &rc);
+    if (n>0)
+        pInfo->bsiz = n;
+    return n;
 }
 
 static int Jaz_FSRewindProc(Jsi_Channel chan) {
@@ -1490,8 +1509,9 @@ static int Jaz_FSRewindProc(Jsi_Channel chan) {
 static int Jaz_FSSeekProc(Jsi_Channel chan, Jsi_Wide offset, int mode) {
     int rc = 0;
     ZvfsChannelInfo *pInfo = (ZvfsChannelInfo*)chan->data;
-    vfsSeek(pInfo, offset, mode, &rc);
-    return rc;
+    if (vfsSeek(pInfo, offset, mode, &rc) < 0)
+        return -1;
+    return 0;
 }
 
 /*static int Jaz_FSWriteProc(Jsi_Channel chan, const char *buf, int size) { return -1;}*/
@@ -1499,14 +1519,13 @@ static int Jaz_FSSeekProc(Jsi_Channel chan, Jsi_Wide offset, int mode) {
 static int Jaz_FSReadProc(Jsi_Channel chan, char *s, int size) {
     ZvfsChannelInfo *pInfo = (ZvfsChannelInfo*)chan->data;
     char *cp = s;
-    int n = 0, rc = 0;
+    int n = 0, rc;
     *s = 0;
     while (n<size) {
-        if (pInfo->bpos >= pInfo->bsiz) {
-            if (!(pInfo->bsiz = vfsInput(pInfo, pInfo->buf, sizeof(pInfo->buf), &rc))) {
-                break;
-            }
-            pInfo->bpos = 0;
+        if ((rc = jazFill(pInfo)) <= 0) {
+            if (rc<0 && n==0)
+                return -1;
+            break;
         }
         *cp = pInfo->buf[pInfo->bpos++];
         n++;
@@ -1519,14 +1538,9 @@ static int Jaz_FSReadProc(Jsi_Channel chan, char *s, int size) {
 
 static int Jaz_FSGetcProc(Jsi_Channel chan) {
     ZvfsChannelInfo *pInfo = (ZvfsChannelInfo*)chan->data;
-    int rc = 0;
-    if (pInfo->bpos >= pInfo->bsiz) {
-        if (!(pInfo->bsiz = vfsInput(pInfo, pInfo->buf, sizeof(pInfo->buf), &rc))) {
-            return 0;
-        }
-        pInfo->bpos = 0;
-    }
-    return pInfo->buf[pInfo->bpos++];
+    if (jazFill(pInfo) <= 0)
+        return -1;
+    return (unsigned char)pInfo->buf[pInfo->bpos++];
 }
 
 static int Jaz_FSUngetcProc(Jsi_Channel chan, int ch) {
@@ -1543,18 +1557,13 @@ static int Jaz_FSUngetcProc(Jsi_Channel chan, int ch) {
 static char * Jaz_FSGetsProc(Jsi_Channel chan, char *s, int size) {
     ZvfsChannelInfo *pInfo = (ZvfsChannelInfo*)chan->data;
     char *cp = s;
-    int n = 0, rc = 0;
+    int n = 0;
     *s = 0;
     while (n<(size-1)) {
-        if (pInfo->bpos >= pInfo->bsiz) {
-            if ((int)pInfo->stream.total_out >= pInfo->pFile->nByte)
+        if (jazFill(pInfo) <= 0) {
+            if (n==0)
                 return NULL;
-            if ((pInfo->bsiz = vfsInput(pInfo, pInfo->buf, sizeof(pInfo->buf), &rc))<=0) {
-                if (n==0)
-                    return NULL;
-                break;
-            }
-            pInfo->bpos = 0;
+            break;
         }
         *cp = pInfo->buf[pInfo->bpos++];
         if (*cp == '\n') {
-- 
2.43.0


From c94ebdb57def9f533edb494195da8bc1151a9f30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:48:53 +0000
Subject: [PATCH 219/242] fix: File.read gave what it had when reading failed

---
 src/jsiFileCmds.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/jsiFileCmds.c b/src/jsiFileCmds.c
index 5fe85c1..26a456d 100644
--- a/src/jsiFileCmds.c
+++ b/src/jsiFileCmds.c
@@ -471,7 +471,7 @@ static Jsi_RC FileReadCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,
     SAFEACCESS(fname, 0, 0)
 
     Jsi_Channel chan = Jsi_Open(interp, fname, (mode ? mode : "rb"));
-    int n, sum = 0, cnt = 0;
+    int n = 0, sum = 0, cnt = 0;
     if (!chan) 
         return Jsi_LogError("failed open for read: %s", GSVal(fname));
     Jsi_DString dStr = {};
@@ -481,6 +481,10 @@ static Jsi_RC FileReadCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,
         sum += n;
     }
     Jsi_Close(interp, chan);
+    if (n<0) {
+        Jsi_DSFree(&dStr);
+        return Jsi_LogError("failed read: %s", GSVal(fname));
+    }
     Jsi_ValueMakeDStringObject(interp, ret, &dStr);
     return JSI_OK;
 }
-- 
2.43.0


From 530aedafe7a52951f06ea53e317cd295389186c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:48:53 +0000
Subject: [PATCH 220/242] fix: unmounting an archive freed it under the files
 open in it

---
 src/jsiZvfs.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/jsiZvfs.c b/src/jsiZvfs.c
index 7a5bd3c..414ec52 100644
--- a/src/jsiZvfs.c
+++ b/src/jsiZvfs.c
@@ -55,6 +55,7 @@ typedef struct ZvfsArchive {
     struct ZvfsFile *pFiles;  /* List of files in that archive */
     Jsi_HashEntry *pEntry;
     Jsi_Channel chan;
+    int nOpen;                 /* Number of files open in it. */
 } ZvfsArchive;
 
 /*
@@ -698,6 +699,8 @@ static Jsi_RC Zvfs_Unmount(Jsi_Interp *interp, Jsi_Value *path) {
     Jsi_DSFree(&pStr);
     if (!pArchive)
         return JSI_ERROR;
+    if (pArchive->nOpen>0 && pArchive->pEntry)
+        return Jsi_LogError("files are open in %s", SS(path));
     if (pArchive->pEntry) {
         pArchive->pEntry->clientData = NULL;
         Jsi_HashEntryDelete(pArchive->pEntry);
@@ -1226,6 +1229,7 @@ static int Jaz_FSCloseProc(Jsi_Channel chan) {
         Jsi_Free(pInfo->zBuf);
         inflateEnd(&pInfo->stream);
     }
+    pInfo->pFile->pArchive->nOpen--;
     Jsi_Free((char*)pInfo);
     return 0;
 }
@@ -1292,6 +1296,7 @@ static Jsi_Channel Jaz_FSOpenProc (Jsi_Interp *interp, Jsi_Value *path, const ch
     chan = (Jsi_Channel)Jsi_Calloc(1,sizeof(Jsi_Chan));
     chan->fname = pFile->zName;
     chan->data = pInfo;
+    pFile->pArchive->nOpen++;
     return chan;
 }
 
-- 
2.43.0


From a8392c392429bbff8e857267e9bed6939c9f4947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:49:28 +0000
Subject: [PATCH 221/242] fix: an archive that could not be mounted stayed half
 mounted

---
 src/jsiZvfs.c | 34 ++++++++++++++++++++--------------
 1 file changed, 20 insertions(+), 14 deletions(-)

diff --git a/src/jsiZvfs.c b/src/jsiZvfs.c
index 414ec52..40b4a77 100644
--- a/src/jsiZvfs.c
+++ b/src/jsiZvfs.c
@@ -450,6 +450,8 @@ static Jsi_RC ZvfsNamesCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this
     return rc;
 }
 
+static void zvfsArchiveFree(Jsi_Interp *interp, ZvfsArchive *pArchive);
+
 #define FN_mount JSI_INFO("\
 Read a ZIP archive and make entries in the virutal file hash table for all \
 files contained therein.")
@@ -459,7 +461,7 @@ Jsi_RC Zvfs_Mount( Jsi_Interp *interp, Jsi_Value *archive, Jsi_Value *mount, Jsi
     char *zArchiveName = 0;    /* A copy of zArchive */
     int nFile;                 /* Number of files in the archive */
     int iPos;                  /* Current position in the archive file */
-    ZvfsArchive *pArchive;     /* The ZIP archive being mounted */
+    ZvfsArchive *pArchive, *pNew = NULL; /* The ZIP archive being mounted */
     Jsi_HashEntry *pEntry;     /* Hash table entry */
     bool isNew;                 /* Flag to tell use when a hash entry is new */
     unsigned char zBuf[100];   /* Space into which to read from the ZIP archive */
@@ -497,8 +499,7 @@ Jsi_RC Zvfs_Mount( Jsi_Interp *interp, Jsi_Value *archive, Jsi_Value *mount, Jsi
         goto bail;
     }
     iPos = Jsi_Tell(interp, chan);
-    Jsi_Read(interp, chan, (char*)zBuf, 22);
-    if (memcmp(zBuf, "\120\113\05\06", 4)) {
+    if (Jsi_Read(interp, chan, (char*)zBuf, 22) != 22 || memcmp(zBuf, "\120\113\05\06", 4)) {
         if (ret && *ret)
             Jsi_LogError("not a ZIP archive");
         goto bail;
@@ -520,7 +521,7 @@ Jsi_RC Zvfs_Mount( Jsi_Interp *interp, Jsi_Value *archive, Jsi_Value *mount, Jsi
     } else if (zMountPoint != mbuf) {
         zMountPoint = Jsi_ValueNormalPath(interp, mount, &mStr);
     }
-    pArchive = (ZvfsArchive*)Jsi_Calloc(1, sizeof(*pArchive));
+    pArchive = pNew = (ZvfsArchive*)Jsi_Calloc(1, sizeof(*pArchive));
     pArchive->Name = Jsi_ValueNewStringDup(interp, zArchiveName);
     Jsi_IncrRefCount(interp, pArchive->Name);
     Jsi_DSFree(&pStr);
@@ -560,10 +561,8 @@ Jsi_RC Zvfs_Mount( Jsi_Interp *interp, Jsi_Value *archive, Jsi_Value *mount, Jsi
         ** the size of the "extra" information, and the offset into the archive
         ** file of the file data.
         */
-        Jsi_Read(interp, chan, (char*)zBuf, 46);
-        if (memcmp(zBuf, "\120\113\01\02", 4)) {
+        if (Jsi_Read(interp, chan, (char*)zBuf, 46) != 46 || memcmp(zBuf, "\120\113\01\02", 4)) {
             Jsi_LogError("ill-formed central directory entry");
-            //TODO: cleanup.
             goto bail;
         }
         lenName = INT16(zBuf,28);
@@ -650,7 +649,11 @@ skip:
     return JSI_OK;
 
 bail:
-    if (chan)
+    Jsi_DSFree(&mStr);
+    if (pNew) {
+        pNew->chan = chan;
+        zvfsArchiveFree(interp, pNew);
+    } else if (chan)
         Jsi_Close(interp, chan);
     return JSI_ERROR;
 }
@@ -688,10 +691,7 @@ static ZvfsFile *ZvfsLookup(Jsi_Interp *interp, Jsi_Value *path) {
 static Jsi_RC Zvfs_Unmount(Jsi_Interp *interp, Jsi_Value *path) {
     char *zPath;
     ZvfsArchive *pArchive;
-    ZvfsFile *pZvfs, *pNextFile, *pDel = NULL;
-    Jsi_HashEntry *pEntry;
     Jsi_DString pStr = {};
-    Jsi_RC rc = JSI_OK;
     // TODO: use jsiMain interp for mount/unmount.
     // TODO: if pwd in mount, change it.
     zPath = Jsi_ValueNormalPath(interp, path, &pStr);
@@ -701,6 +701,15 @@ static Jsi_RC Zvfs_Unmount(Jsi_Interp *interp, Jsi_Value *path) {
         return JSI_ERROR;
     if (pArchive->nOpen>0 && pArchive->pEntry)
         return Jsi_LogError("files are open in %s", SS(path));
+    zvfsArchiveFree(interp, pArchive);
+    interp->mountCnt--;
+    return JSI_OK;
+}
+
+/* Forget an archive and the files in it. */
+static void zvfsArchiveFree(Jsi_Interp *interp, ZvfsArchive *pArchive) {
+    ZvfsFile *pZvfs, *pNextFile, *pDel = NULL;
+    Jsi_HashEntry *pEntry;
     if (pArchive->pEntry) {
         pArchive->pEntry->clientData = NULL;
         Jsi_HashEntryDelete(pArchive->pEntry);
@@ -731,8 +740,6 @@ static Jsi_RC Zvfs_Unmount(Jsi_Interp *interp, Jsi_Value *path) {
     if (pDel)
         Jsi_Free(pDel);
     Jsi_Free(pArchive);
-    interp->mountCnt--;
-    return rc;
 }
 
 /*
@@ -892,7 +899,6 @@ static int vfsSeek(
     int mode,                   /* One of SEEK_CUR, SEEK_SET or SEEK_END */
     int *pErrorCode             /* Write the error code here */
 ) {
-    Jsi_Interp *interp = pInfo->interp;
     long total = (long)pInfo->readSoFar + pInfo->nByte;
     switch( mode ) {
     case SEEK_CUR: {
-- 
2.43.0


From 326e0febc4e935714207deeb84c7132be85f543e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:49:28 +0000
Subject: [PATCH 222/242] fix: the table of a damaged archive was read past its
 end

---
 src/jsiZvfs.c | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/jsiZvfs.c b/src/jsiZvfs.c
index 40b4a77..f0199cf 100644
--- a/src/jsiZvfs.c
+++ b/src/jsiZvfs.c
@@ -299,10 +299,10 @@ static Jsi_RC ZvfsReadTOCStart(
     /* Read the "End Of Central Directory" record from the end of the
     ** ZIP archive.
     */
-    Jsi_Seek(interp, chan, -22, SEEK_END);
+    if (Jsi_Seek(interp, chan, -22, SEEK_END) != 0)
+        return JSI_BREAK;
     iPos = Jsi_Tell(interp, chan);
-    Jsi_Read(interp, chan, (char*)zBuf, 22);
-    if (memcmp(zBuf, "\120\113\05\06", 4)) {
+    if (Jsi_Read(interp, chan, (char*)zBuf, 22) != 22 || memcmp(zBuf, "\120\113\05\06", 4)) {
         /* Jsi_LogError("not a ZIP archive"); */
         return JSI_BREAK;
     }
@@ -333,8 +333,7 @@ static Jsi_RC ZvfsReadTOCStart(
         ** the size of the "extra" information, and the offset into the archive
         ** file of the file data.
         */
-        Jsi_Read(interp, chan, (char*)zBuf, 46);
-        if (memcmp(zBuf, "\120\113\01\02", 4)) 
+        if (Jsi_Read(interp, chan, (char*)zBuf, 46) != 46 || memcmp(zBuf, "\120\113\01\02", 4)) 
             return Jsi_LogError("ill-formed central directory entry");
         lenName = INT16(zBuf,28);
         lenExtra = INT16(zBuf,30) + INT16(zBuf,32);
@@ -346,7 +345,8 @@ static Jsi_RC ZvfsReadTOCStart(
         p = newZFile(lenName, pList);
         if (!p) break;
 
-        Jsi_Read(interp, chan, p->zName, lenName);
+        if (Jsi_Read(interp, chan, p->zName, lenName) != lenName)
+            return Jsi_LogError("ill-formed central directory entry");
         p->zName[lenName] = 0;
         if (lenName>0 && p->zName[lenName-1] == '/') {
             p->isSpecial = 1;
@@ -1648,11 +1648,11 @@ static Jsi_RC ZvfsListCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,
     if (chan==0)
         return JSI_ERROR;
     Jsi_RC rc = ZvfsReadTOC(interp, chan, &pList);
+    Jsi_Close(interp, chan);
     if( rc==JSI_ERROR ) {
         deleteZFileList(pList);
         return rc;
     }
-    Jsi_Close(interp, chan);
     nobj = Jsi_ObjNew(interp);
     Jsi_ValueMakeArrayObject(interp, ret, nobj);
     sobj = Jsi_ObjNew(interp);
-- 
2.43.0


From ce18ec701c5f7477fd754f99bc1984e567af8df6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:49:28 +0000
Subject: [PATCH 223/242] fix: Zvfs.truncate and offset ignored a file that is
 no archive

---
 src/jsiZvfs.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/jsiZvfs.c b/src/jsiZvfs.c
index f0199cf..9889d3d 100644
--- a/src/jsiZvfs.c
+++ b/src/jsiZvfs.c
@@ -2151,7 +2151,7 @@ static Jsi_RC ZvfsTruncateCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_t
     Jsi_Channel chan;
     ZFile *pList = NULL;
     int rc = JSI_OK;
-    bool noerror = 1; 
+    bool noerror = 0; 
     int zipStart;
 
     Jsi_Value *Archive = Jsi_ValueArrayIndex(interp, args, 0);
@@ -2171,8 +2171,10 @@ static Jsi_RC ZvfsTruncateCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_t
     if( rc!=JSI_OK ) {
         deleteZFileList(pList);
         Jsi_Close(interp, chan);
-        if (noerror)
+        if (noerror) {
+            Jsi_ValueMakeNumber(interp, ret, 0.0);
             return JSI_OK;
+        }
         return Jsi_LogError("not an archive");
     }
 
-- 
2.43.0


From 8c6b015b456ea214f1e5fdd0e17b72ffc84c5241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:50:44 +0000
Subject: [PATCH 224/242] fix: the zip command of Zip.jsi always failed

---
 lib/Zip.jsi | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/Zip.jsi b/lib/Zip.jsi
index 84d843b..c129f10 100644
--- a/lib/Zip.jsi
+++ b/lib/Zip.jsi
@@ -118,15 +118,15 @@ function Zip(args:string|array, conf:object=void) {
     }
             
     function zip(fname:string, indir:string, ...) {
-        if (argc < 3)
+        if (args.length < 3)
             return usage("too few arguments");
-        else if (argc > 3)
+        else if (args.length > 3)
             return usage("too many arguments");
         if (File.extension(fname) !== '.zip')
             return usage("must give a .zip file name");
         if (File.isfile(fname))
             File.remove(fname);
-        return create.apply(null, args);
+        return create(fname, indir);
     }
     
     var cmdList = {
-- 
2.43.0


From f8ec05581bcb5dfb386d058443780cdf9a7fa04a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:53:15 +0000
Subject: [PATCH 225/242] fix: Zvfs.append or create that failed left an
 archive that could not be read

---
 src/jsiZvfs.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/jsiZvfs.c b/src/jsiZvfs.c
index 9889d3d..e4ebeba 100644
--- a/src/jsiZvfs.c
+++ b/src/jsiZvfs.c
@@ -1980,6 +1980,7 @@ static Jsi_RC CreateCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,
     Jsi_Channel chan = 0;
     ZFile *pList = NULL, *pToc;
     Jsi_RC rc = JSI_OK;
+    Jsi_Wide oldSize = -1;
     int i, k, create = 0, argc, alen = Jsi_ValueGetLength(interp, args);
     Jsi_Value *flist = Jsi_ValueArrayIndex(interp, args, 1);
     Jsi_Value *prefix, *nSrc = NULL;
@@ -2046,6 +2047,7 @@ static Jsi_RC CreateCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,
         goto doexit;
     }
     Jsi_Seek(interp, chan, 0, SEEK_END);
+    oldSize = Jsi_Tell(interp, chan);
     /* Add new files to the end of the archive. */
     for (k=1; k<alen; k++) {
         flist = Jsi_ValueArrayIndex(interp, args, k);
@@ -2104,8 +2106,13 @@ doexit:
     /* Close the channel and exit */
     if (pList)
         deleteZFileList(pList);
-    if (chan)
+    if (chan) {
+        if (rc != JSI_OK && oldSize >= 0) { /* Leave what there was. */
+            Jsi_Flush(interp, chan);
+            Jsi_Truncate(interp, chan, oldSize);
+        }
         Jsi_Close(interp, chan);
+    }
     if (nSrc)
         Jsi_DecrRefCount(interp, nSrc);
     Jsi_DSFree(&dStr);
-- 
2.43.0


From 71018580554226f63e62a9f023eddc9475035e28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:58:49 +0000
Subject: [PATCH 226/242] fix: Zvfs.deflate failed on an empty string and
 Zvfs.inflate took cut off data for whole

---
 src/jsiZvfs.c | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/jsiZvfs.c b/src/jsiZvfs.c
index e4ebeba..7d846f5 100644
--- a/src/jsiZvfs.c
+++ b/src/jsiZvfs.c
@@ -2300,7 +2300,7 @@ static Jsi_RC ZvfsDeflateCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_th
     Jsi_Value **ret, Jsi_Func *funcPtr)
 {
     Jsi_DString dStr = {};
-    int sz, toOut, err, flag=0;
+    int sz, toOut, err;
     char buf[JSI_BUFSIZ];
     z_stream stream = {};
     const char *str = Jsi_ValueArrayIndexToStr(interp, args, 0, &sz);
@@ -2313,7 +2313,7 @@ static Jsi_RC ZvfsDeflateCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_th
         goto bail;
     
     while (1) {
-        err = deflate(&stream, flag);
+        err = deflate(&stream, Z_FINISH);
         if (err!=Z_OK && err!= Z_STREAM_END) {
             deflateEnd(&stream);
             goto bail;
@@ -2326,8 +2326,6 @@ static Jsi_RC ZvfsDeflateCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_th
             break;
         stream.avail_out = sizeof(buf);
         stream.next_out = (uchar*)buf;
-        if (!stream.avail_in)
-            flag = Z_FINISH;
     }
     err = deflateEnd(&stream);
     if (err!=Z_OK)
@@ -2362,8 +2360,13 @@ static Jsi_RC ZvfsInflateCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_th
             goto bail;
         }
         toOut = sizeof(buf) - stream.avail_out;
-        if( toOut<=0)
-            break;
+        if( toOut<=0) {
+            if (err==Z_STREAM_END)
+                break;
+            inflateEnd(&stream);
+            err = Z_BUF_ERROR;
+            goto bail;
+        }
         Jsi_DSAppendLen(&dStr, buf, toOut);
         stream.avail_out = sizeof(buf);
         stream.next_out = (uchar*)buf;
-- 
2.43.0


From 957b67f5fb272d2b5899fd22e3f2621441ff1bb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:02:03 +0000
Subject: [PATCH 227/242] fix: the list command of Zip.jsi left the archive
 mounted and ignored verbose

---
 lib/Zip.jsi | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/Zip.jsi b/lib/Zip.jsi
index c129f10..f1f8acd 100644
--- a/lib/Zip.jsi
+++ b/lib/Zip.jsi
@@ -56,13 +56,15 @@ function Zip(args:string|array, conf:object=void) {
     
     function list(fname:string) {
         fname = File.realpath(fname);
-        if (verbose)
+        if (self.verbose)
             return Zvfs.list(fname);
         if (fname === Info.executable())
             zdir = '/zvfs';
         else
             zdir = Zvfs.mount(fname);
         puts(File.glob('*', {dir:zdir,recurse:true}));
+        if (zdir != '/zvfs')
+            Zvfs.unmount(zdir);
         return 0;
     }
 
-- 
2.43.0


From 48f81a7d0680fc2ad923c1d41b9448f2f1896373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:05:39 +0000
Subject: [PATCH 228/242] fix: the exec option of the test runner always
 failed: jsish has no options --L and -ItestMode

---
 lib/Testing.jsi | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/Testing.jsi b/lib/Testing.jsi
index e34a4c8..606bdf6 100644
--- a/lib/Testing.jsi
+++ b/lib/Testing.jsi
@@ -80,7 +80,7 @@ function Testing(fileargs:array, conf:object=void):number {
 
         if (self.args === '' && asm)
             self.args = asm[1];
-        var tcmd = Info.executable() + ' --L assert';
+        var tcmd = Info.executable() + ' --I log:assert';
         var ut = 1;
         var sint = null;
         var siargs = {log:{assert:true}};
@@ -92,7 +92,7 @@ function Testing(fileargs:array, conf:object=void):number {
         if (self.echo)
             ut += 2;
         if (ut) {
-            tcmd += ' -ItestMode ' + ut;
+            tcmd += ' --I testMode:' + ut;
             siargs.testMode = ut;
         }
         tcmd += ' '+fn+' '+self.args;
-- 
2.43.0


From 22a13e3f1d78447125c54cfb0c1187a9349d368b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:05:39 +0000
Subject: [PATCH 229/242] fix: the test runner gave the arguments of one test
 script to those after it

---
 lib/Testing.jsi | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/lib/Testing.jsi b/lib/Testing.jsi
index 606bdf6..e3b9509 100644
--- a/lib/Testing.jsi
+++ b/lib/Testing.jsi
@@ -78,8 +78,9 @@ function Testing(fileargs:array, conf:object=void):number {
         var apat = "=!ARGSTART!=\n(.*)\n=!ARGEND!=";
         var asm = scr.match(apat);
 
-        if (self.args === '' && asm)
-            self.args = asm[1];
+        var sargs = self.args;
+        if (sargs === '' && asm)
+            sargs = asm[1];
         var tcmd = Info.executable() + ' --I log:assert';
         var ut = 1;
         var sint = null;
@@ -95,7 +96,7 @@ function Testing(fileargs:array, conf:object=void):number {
             tcmd += ' --I testMode:' + ut;
             siargs.testMode = ut;
         }
-        tcmd += ' '+fn+' '+self.args;
+        tcmd += ' '+fn+' '+sargs;
 
         if (expect === null && self.expectFile)
             expect = File.read(self.expectFile);
@@ -126,7 +127,7 @@ function Testing(fileargs:array, conf:object=void):number {
             if (!self.exec) {
                 siargs.stdoutStr = '';
                 //siargs.scriptFile = fn;
-                siargs.args = self.args.split(' ');
+                siargs.args = sargs.split(' ');
                 if (self.noproto)
                     siargs.subOpts = {noproto:true};
                 sint = new Interp(siargs);
-- 
2.43.0


From ae4c09c5255406a09e4c51c7b3f48555db8d9de0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:05:39 +0000
Subject: [PATCH 230/242] fix: the test runner stopped at a test with more
 lines of output than expected

---
 lib/Testing.jsi | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/Testing.jsi b/lib/Testing.jsi
index e3b9509..9c41a1d 100644
--- a/lib/Testing.jsi
+++ b/lib/Testing.jsi
@@ -256,7 +256,8 @@ function Testing(fileargs:array, conf:object=void):number {
                     for (var j = i-self.context; j<i+self.context; j++) {
                         if (j<0 || j>=rlst.length) continue;
                         if (j!==i) { puts('',rlst[j]); continue; }
-                        puts('-'+elst[i]);
+                        if (i<elen)
+                            puts('-'+elst[i]);
                         puts('+'+rlst[i]);
                     }
                     puts('====================DIFFEND');
-- 
2.43.0


From ad7b99672007b17368d014e5d84d2045174a6732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:05:39 +0000
Subject: [PATCH 231/242] fix: a line of a test starting with a regex was taken
 for one that throws, and one with a quoted string in it was a syntax error

---
 src/jsiEval.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jsiEval.c b/src/jsiEval.c
index f65fe64..7e6bae7 100644
--- a/src/jsiEval.c
+++ b/src/jsiEval.c
@@ -2378,10 +2378,10 @@ static Jsi_RC jsiJsPreprocessLine(Jsi_Interp* interp, char *buf, size_t bsiz, ui
                 Jsi_DSFree(&kStr);
                 if (rcs != JSI_OK)
                     return Jsi_LogError("failure in debugOpts.testFmtCallback");
-            } else if (ilen>3 && ubuf[0]=='/' && ubuf[0]=='/') {
+            } else if (ilen>3 && ubuf[0]=='/' && ubuf[1]=='/') {
                 char *ecp = ubuf+2;
                 while (*ecp && isspace(*ecp)) ecp++;
-                snprintf(buf, bsiz, "printf(`%%s ==>`, \"%s\"); try { %s; puts('\\n[FAIL]!: expected a throw\\n'); } "
+                snprintf(buf, bsiz, "printf(`%%s ==>`,`%s`); try { %s; puts('\\n[FAIL]!: expected a throw\\n'); } "
                     "catch(err) { puts('\\n[PASS]!: err =',err); }\n", ecp, ecp);
             } else {
                 snprintf(buf, bsiz, "printf(`%%s ==> `,`%s`),puts(%s);\n", ucp, ucp);
-- 
2.43.0


From 48956a7953be2038d7c7049c4c6929c48badfc11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:08:46 +0000
Subject: [PATCH 232/242] fix: tests with input run by exec at the same time
 took their output from one shared file

---
 lib/Testing.jsi | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/lib/Testing.jsi b/lib/Testing.jsi
index 9c41a1d..0420fe0 100644
--- a/lib/Testing.jsi
+++ b/lib/Testing.jsi
@@ -29,7 +29,6 @@ function Testing(fileargs:array, conf:object=void):number {
         nodiff:false,
         fails:0,
         flst:[],
-        outfile:'/tmp/utest.txt',
         startTime:0,
         version:1.0,
         rootdir:null,
@@ -101,14 +100,17 @@ function Testing(fileargs:array, conf:object=void):number {
         if (expect === null && self.expectFile)
             expect = File.read(self.expectFile);
 
-        var input = '';
+        var input = '', outfile;
         if (self.inFile)
             input = File.read(self.inFile);
         if (input === '' && ism)
             input = ism[1];
         if (input !== '') {
             siargs.stdinStr = input;
-            tcmd += ' 2>&1 > '+self.outfile;
+            if (self.exec) {
+                outfile = File.tempfile('/tmp/utestXXXXXX');
+                tcmd += ' 2>&1 > '+outfile;
+            }
         }
         debugger;
         //printf("ISM: <%s>", tcmd);
@@ -148,7 +150,8 @@ function Testing(fileargs:array, conf:object=void):number {
             delete sint;
         //puts('\nRES: ' +res);
         if (input !== '' && self.exec) {
-            res = File.read(self.outfile);
+            res = File.read(outfile);
+            File.remove(outfile);
             //res = res.substr(0, res.length-1);
         }
         if (self.echo) {
-- 
2.43.0


From 194e969c9666e6ebcb8f5146b374c263e33377e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:17:21 +0000
Subject: [PATCH 233/242] fix: files of a VFS could not be read when given as
 data or longer or shorter than said, and changed or went while open

---
 src/jsiVfs.c | 76 +++++++++++++++++++++++++++++++++++++---------------
 1 file changed, 55 insertions(+), 21 deletions(-)

diff --git a/src/jsiVfs.c b/src/jsiVfs.c
index 1c2961b..419d5c5 100644
--- a/src/jsiVfs.c
+++ b/src/jsiVfs.c
@@ -37,7 +37,6 @@ typedef struct VfsFile {
     const char *file, *fullpath;
     ssize_t size;
     time_t timestamp;
-    const char *dataPtr;
     Jsi_Value *data;
     Jsi_HashEntry *hPtr;
     int isdir;
@@ -45,6 +44,12 @@ typedef struct VfsFile {
     VfsData* cmdPtr;
 } VfsFile;
 
+/* An open file: has its own copy as the mount may go, or its data be changed. */
+typedef struct VfsChan {
+    char *data, *fname;
+    ssize_t size;
+} VfsChan;
+
 static void jsi_vfsDelete(Jsi_Interp *interp, VfsData* cmdPtr);
 
 static VfsData* VfsLookupMount(Jsi_Interp *interp, const char *path) {
@@ -100,7 +105,7 @@ static VfsFile *jsi_VfsLookup(Jsi_Interp *interp, Jsi_Value *path) {
 */
 static int jsi_VfsSeek(
     Jsi_Channel chan,
-    VfsFile* pInfo,    /* The file structure */
+    VfsChan* pInfo,    /* The file structure */
     long offset,                /* Offset to seek to */
     int mode,                   /* One of SEEK_CUR, SEEK_SET or SEEK_END */
     int *pErrorCode             /* Write the error code here */
@@ -129,15 +134,26 @@ static int jsi_VfsSeek(
 }
 
 static int Jav_FSCloseProc(Jsi_Channel chan) {
+    VfsChan *pInfo = (VfsChan*)chan->data;
+    Jsi_Free(pInfo->data);
+    Jsi_Free(pInfo->fname);
+    Jsi_Free(pInfo);
     return 0;
 }
 
+/* When the data of a file is known so is its size. */
+static void jsi_VfsFileSize(Jsi_Interp *interp, VfsFile *pFile) {
+    int len;
+    if (pFile->data && !pFile->isdir && Jsi_ValueString(interp, pFile->data, &len))
+        pFile->size = len;
+}
+
 static Jsi_Channel Jav_FSOpenProc (Jsi_Interp *interp, Jsi_Value *path, const char *mode)
 {
     VfsFile *pFile;
     Jsi_Channel chan;
     pFile = jsi_VfsLookup(interp, path);
-    if (!pFile)
+    if (!pFile || pFile->isdir)
         return NULL;
     VfsData *cmdPtr = pFile->cmdPtr;
     
@@ -146,7 +162,9 @@ static Jsi_Channel Jav_FSOpenProc (Jsi_Interp *interp, Jsi_Value *path, const ch
         return NULL;
     }
     
-    if (!pFile->dataPtr) {
+    if (!pFile->data) {
+        if (!cmdPtr->callback)
+            return NULL;
         Jsi_Value *retStr = Jsi_ValueNew1(interp);
         Jsi_Value *vpargs, *vargs[3];
         vargs[0] = Jsi_ValueNewStringDup(interp, "file");
@@ -162,19 +180,30 @@ static Jsi_Channel Jav_FSOpenProc (Jsi_Interp *interp, Jsi_Value *path, const ch
         Jsi_DecrRefCount(interp, vargs[2]);
         Jsi_DecrRefCount(interp, vpargs);
         if (jrc == JSI_OK && !Jsi_ValueIsUndef(interp, retStr) && Jsi_ValueString(interp, retStr, NULL)) {
+            if (pFile->data) // Given by fileconf() in the callback.
+                Jsi_DecrRefCount(interp, pFile->data);
             pFile->data = retStr;
-            pFile->dataPtr = Jsi_ValueString(interp, pFile->data, NULL);
             retStr = NULL;
         }
         if (retStr)
             Jsi_DecrRefCount(interp, retStr);
-        if (!pFile->dataPtr)
+        if (!pFile->data)
             return NULL;
+        jsi_VfsFileSize(interp, pFile);
     }
+    int len = 0;
+    const char *str = Jsi_ValueString(interp, pFile->data, &len);
+    if (!str)
+        return NULL;
 
+    VfsChan *pInfo = (VfsChan*)Jsi_Calloc(1,sizeof(*pInfo));
+    pInfo->data = (char*)Jsi_Malloc(len+1);
+    memcpy(pInfo->data, str, len);
+    pInfo->data[len] = 0;
+    pInfo->size = len;
     chan = (Jsi_Channel)Jsi_Calloc(1,sizeof(Jsi_Chan));
-    chan->fname = pFile->fullpath;
-    chan->data = pFile;
+    chan->fname = pInfo->fname = Jsi_Strdup(pFile->fullpath);
+    chan->data = pInfo;
     return chan;
 }
 
@@ -314,20 +343,20 @@ static Jsi_Wide Jav_FSTellProc(Jsi_Channel chan) {
 }
 
 static int Jav_FSEofProc(Jsi_Channel chan) {
-    VfsFile *pInfo = (VfsFile*)chan->data;
+    VfsChan *pInfo = (VfsChan*)chan->data;
     return (chan->resInt[0] >= pInfo->size);
 }
 
 static int Jav_FSRewindProc(Jsi_Channel chan) {
     int rc = 0;
-    VfsFile *pInfo = (VfsFile*)chan->data;
+    VfsChan *pInfo = (VfsChan*)chan->data;
     jsi_VfsSeek(chan, pInfo, 0, SEEK_SET, &rc);
     return rc;
 }
 
 static int Jav_FSSeekProc(Jsi_Channel chan, Jsi_Wide offset, int mode) {
     int rc = 0;
-    VfsFile *pInfo = (VfsFile*)chan->data;
+    VfsChan *pInfo = (VfsChan*)chan->data;
     jsi_VfsSeek(chan, pInfo, offset, mode, &rc);
     return rc;
 }
@@ -335,14 +364,14 @@ static int Jav_FSSeekProc(Jsi_Channel chan, Jsi_Wide offset, int mode) {
 /*static int Jav_FSWriteProc(Jsi_Channel chan, const char *buf, int size) { return -1;}*/
 
 static int Jav_FSReadProc(Jsi_Channel chan, char *s, int size) {
-    VfsFile *pInfo = (VfsFile*)chan->data;
+    VfsChan *pInfo = (VfsChan*)chan->data;
     int n, left = (pInfo->size-chan->resInt[0]);
     if (size <= left)
         n = size;
     else
         n = left;
     if (n>0)
-        memcpy(s, pInfo->dataPtr+chan->resInt[0], n);
+        memcpy(s, pInfo->data+chan->resInt[0], n);
     chan->resInt[0] += n;
     return n;
 }
@@ -352,15 +381,15 @@ static int Jav_FSWriteProc(Jsi_Channel chan, const char *buf, int size) {
 }
 
 static int Jav_FSGetcProc(Jsi_Channel chan) {
-    VfsFile *pInfo = (VfsFile*)chan->data;
+    VfsChan *pInfo = (VfsChan*)chan->data;
     if (chan->resInt[0]>=pInfo->size)
-        return 0;
-    return pInfo->dataPtr[chan->resInt[0]++];
+        return EOF;
+    return (unsigned char)pInfo->data[chan->resInt[0]++];
 }
 
 static int Jav_FSUngetcProc(Jsi_Channel chan, int ch) {
-    VfsFile *pInfo = (VfsFile*)chan->data;
-    if (pInfo->dataPtr && chan->resInt[0] > 0 && pInfo->dataPtr[chan->resInt[0]-1] == ch)
+    VfsChan *pInfo = (VfsChan*)chan->data;
+    if (chan->resInt[0] > 0 && (unsigned char)pInfo->data[chan->resInt[0]-1] == ch)
         chan->resInt[0]--;
     else {
         /* TODO: go back */
@@ -370,12 +399,12 @@ static int Jav_FSUngetcProc(Jsi_Channel chan, int ch) {
 }
 
 static char * Jav_FSGetsProc(Jsi_Channel chan, char *s, int size) {
-    VfsFile *pInfo = (VfsFile*)chan->data;
+    VfsChan *pInfo = (VfsChan*)chan->data;
     char *cp = s;
     int n = 0;
     *s = 0;
     while (n<(size-1) && chan->resInt[0]<pInfo->size) {
-        *cp = pInfo->dataPtr[chan->resInt[0]++];
+        *cp = pInfo->data[chan->resInt[0]++];
         if (*cp == '\n') {
             n++;
             break;
@@ -661,6 +690,7 @@ static Jsi_RC VfsVmountCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this
         }
         if (S_ISDIR(ff.perms))
             ff.isdir = 1;
+        jsi_VfsFileSize(interp, &ff);
 aadd:
         if (!cmdPtr->noAddDirs) {
             cp = Jsi_Strrchr(ff.fullpath, '/');
@@ -764,7 +794,11 @@ static Jsi_RC VfsFileConfCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_th
         pInfo = (typeof(pInfo))Jsi_HashValueGet(hPtr);
     if (!pInfo)
         return Jsi_LogError("file not found: %s", file);
-    return Jsi_OptionsConf(interp, VfsFileOptions, pInfo, Jsi_ValueArrayIndex(interp, args, 2), ret, 0);
+    Jsi_Value *odata = pInfo->data;
+    Jsi_RC rc = Jsi_OptionsConf(interp, VfsFileOptions, pInfo, Jsi_ValueArrayIndex(interp, args, 2), ret, 0);
+    if (pInfo->data != odata)
+        jsi_VfsFileSize(interp, pInfo);
+    return rc;
 }
 
 static Jsi_RC VfsListCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,
-- 
2.43.0


From e36561746e3ab5899ead95be106187306a602eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:17:21 +0000
Subject: [PATCH 234/242] fix: seeking in a VFS file went backwards from the
 position and beyond the end

---
 src/jsiVfs.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jsiVfs.c b/src/jsiVfs.c
index 419d5c5..07fec2c 100644
--- a/src/jsiVfs.c
+++ b/src/jsiVfs.c
@@ -112,11 +112,11 @@ static int jsi_VfsSeek(
 ) {
     switch( mode ) {
         case SEEK_CUR: {
-            chan->resInt[0] -= offset;
+            chan->resInt[0] += offset;
             break;
         }
         case SEEK_END: {
-            chan->resInt[0] = pInfo->size - offset;
+            chan->resInt[0] = pInfo->size + offset;
             break;
         }
         case SEEK_SET: {
-- 
2.43.0


From 76d5f82e49088746c4bff9e0d98e41b59826f964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:17:21 +0000
Subject: [PATCH 235/242] fix: the directories of a VFS freed the data of files
 again

---
 src/jsiVfs.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/jsiVfs.c b/src/jsiVfs.c
index 07fec2c..b0ee418 100644
--- a/src/jsiVfs.c
+++ b/src/jsiVfs.c
@@ -699,7 +699,10 @@ aadd:
                 hPtr3 = Jsi_HashEntryNew(cmdPtr->fileHash, ff.fullpath, &isNew);
                 if (hPtr3 && isNew) {
                     fptr = (typeof(fptr))Jsi_Calloc(1, sizeof(*fptr));
-                    *fptr = ff;
+                    fptr->sig = ff.sig;
+                    fptr->file = ff.file;
+                    fptr->timestamp = ff.timestamp;
+                    fptr->cmdPtr = ff.cmdPtr;
                     fptr->hPtr = hPtr3;
                     fptr->fullpath = (typeof(fptr->fullpath))Jsi_HashKeyGet(hPtr3);
                     fptr->isdir = 1;
-- 
2.43.0


From 9ac32a1e93cc3cfc17e2b57c6ad75daab9112f4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:17:21 +0000
Subject: [PATCH 236/242] fix: mounting a VFS where one is mounted unmounted
 that one, and unmounting one in its own callback freed it in use

---
 src/jsiVfs.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/jsiVfs.c b/src/jsiVfs.c
index b0ee418..11dc732 100644
--- a/src/jsiVfs.c
+++ b/src/jsiVfs.c
@@ -30,6 +30,7 @@ typedef struct VfsData {
     Jsi_Value *file, *info, *extra, *param, *user;
     Jsi_HashEntry *hPtr;
     bool noAddDirs, writeable, noPatches;
+    int busy;                  /* Number of callbacks running. */
 } VfsData;
 
 typedef struct VfsFile {
@@ -175,7 +176,9 @@ static Jsi_Channel Jav_FSOpenProc (Jsi_Interp *interp, Jsi_Value *path, const ch
         Jsi_IncrRefCount(interp, vargs[0]);
         Jsi_IncrRefCount(interp, vargs[2]);
         Jsi_IncrRefCount(interp, vpargs);
+        cmdPtr->busy++;
         Jsi_RC jrc = Jsi_FunctionInvoke(interp, cmdPtr->callback, vpargs, &retStr, NULL);
+        cmdPtr->busy--;
         Jsi_DecrRefCount(interp, vargs[0]);
         Jsi_DecrRefCount(interp, vargs[2]);
         Jsi_DecrRefCount(interp, vpargs);
@@ -604,6 +607,7 @@ static Jsi_RC VfsVmountCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this
         hPtr = Jsi_HashEntryNew(interp->vfsMountHash, cp, &isNew);
     }
     if (!hPtr || !isNew) {
+        hPtr = NULL;
         Jsi_LogError("Mount already found");
         goto bail;
     }
@@ -624,7 +628,9 @@ static Jsi_RC VfsVmountCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this
         
         Jsi_IncrRefCount(interp, vargs[0]);
         Jsi_IncrRefCount(interp, vpargs);
+        cmdPtr->busy++;
         Jsi_RC jrc = Jsi_FunctionInvoke(interp, cmdPtr->callback, vpargs, &retStr, _this);
+        cmdPtr->busy--;
         Jsi_DecrRefCount(interp, vpargs);
         Jsi_DecrRefCount(interp, vargs[0]);
         if (jrc != JSI_OK) {
@@ -648,7 +654,9 @@ static Jsi_RC VfsVmountCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this
         
         Jsi_IncrRefCount(interp, vargs[0]);
         Jsi_IncrRefCount(interp, vpargs);
+        cmdPtr->busy++;
         Jsi_RC jrc = Jsi_FunctionInvoke(interp, cmdPtr->callback, vpargs, &retStr, _this);
+        cmdPtr->busy--;
         Jsi_DecrRefCount(interp, vpargs);
         Jsi_DecrRefCount(interp, vargs[0]);
         if (jrc != JSI_OK) {
@@ -742,6 +750,8 @@ static Jsi_RC VfsUnmountCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_thi
     Jsi_RC jrc = JSI_OK;
     if (!cmdPtr) 
         return Jsi_LogError("No such mount: %s", name);
+    if (cmdPtr->busy)
+        return Jsi_LogError("mount is in use: %s", name);
     if (cmdPtr->callback) {
         Jsi_Value *retStr = Jsi_ValueNew1(interp);
         Jsi_Value *vpargs, *vargs[3];
@@ -752,7 +762,9 @@ static Jsi_RC VfsUnmountCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_thi
         
         Jsi_IncrRefCount(interp, vargs[0]);
         Jsi_IncrRefCount(interp, vpargs);
+        cmdPtr->busy++;
         jrc = Jsi_FunctionInvoke(interp, cmdPtr->callback, vpargs, &retStr, _this);
+        cmdPtr->busy--;
         Jsi_DecrRefCount(interp, vpargs);
         Jsi_DecrRefCount(interp, vargs[0]);
         Jsi_DecrRefCount(interp, retStr);
-- 
2.43.0


From f2a9231b86d18ec5fc4a72b33b4148861b92d63c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:18:47 +0000
Subject: [PATCH 237/242] fix: seeking before the start of a VFS file was no
 error

---
 src/jsiVfs.c | 32 +++++++++++---------------------
 1 file changed, 11 insertions(+), 21 deletions(-)

diff --git a/src/jsiVfs.c b/src/jsiVfs.c
index 11dc732..3f6cb7e 100644
--- a/src/jsiVfs.c
+++ b/src/jsiVfs.c
@@ -111,26 +111,17 @@ static int jsi_VfsSeek(
     int mode,                   /* One of SEEK_CUR, SEEK_SET or SEEK_END */
     int *pErrorCode             /* Write the error code here */
 ) {
-    switch( mode ) {
-        case SEEK_CUR: {
-            chan->resInt[0] += offset;
-            break;
-        }
-        case SEEK_END: {
-            chan->resInt[0] = pInfo->size + offset;
-            break;
-        }
-        case SEEK_SET: {
-            chan->resInt[0] = offset;
-            break;
-        }
-        default: {
-            /* Do nothing */
-            break;
-        }
+    ssize_t pos = offset;
+    if (mode == SEEK_CUR)
+        pos += chan->resInt[0];
+    else if (mode == SEEK_END)
+        pos += pInfo->size;
+    if (pos < 0) {
+        *pErrorCode = EINVAL;
+        return -1;
     }
-    if (chan->resInt[0] < 0) chan->resInt[0] = 0;
-    else if (chan->resInt[0] > pInfo->size) chan->resInt[0] = pInfo->size;
+    if (pos > pInfo->size) pos = pInfo->size;
+    chan->resInt[0] = pos;
     return 0;
 }
 
@@ -360,8 +351,7 @@ static int Jav_FSRewindProc(Jsi_Channel chan) {
 static int Jav_FSSeekProc(Jsi_Channel chan, Jsi_Wide offset, int mode) {
     int rc = 0;
     VfsChan *pInfo = (VfsChan*)chan->data;
-    jsi_VfsSeek(chan, pInfo, offset, mode, &rc);
-    return rc;
+    return jsi_VfsSeek(chan, pInfo, offset, mode, &rc);
 }
 
 /*static int Jav_FSWriteProc(Jsi_Channel chan, const char *buf, int size) { return -1;}*/
-- 
2.43.0


From 1ebdbf6c94acd9ff6eacb85fa01aa7b42490bdee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:18:47 +0000
Subject: [PATCH 238/242] fix: a VFS type with bad options could be neither
 used nor defined

---
 src/jsiVfs.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/jsiVfs.c b/src/jsiVfs.c
index 3f6cb7e..e6c620f 100644
--- a/src/jsiVfs.c
+++ b/src/jsiVfs.c
@@ -847,8 +847,11 @@ static Jsi_RC VfsTypeCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,
     if (!hPtr || !isNew)
         return Jsi_LogError("type failed: %s", type); // Can't happen.
 
-    if (Jsi_OptionsProcess(interp, VfsDefOptions, &cmd, opts, 0) < 0)
+    if (Jsi_OptionsProcess(interp, VfsDefOptions, &cmd, opts, 0) < 0) {
+        Jsi_HashEntryDelete(hPtr);
+        Jsi_OptionsFree(interp, VfsDefOptions, &cmd, 0);
         return JSI_ERROR;
+    }
         
     cmdPtr = (typeof(cmdPtr))Jsi_Calloc(1, sizeof(*cmdPtr));
     *cmdPtr = cmd;
-- 
2.43.0


From 1f2158059d8d793d5c82989c0b8eb90a827985e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:23:22 +0000
Subject: [PATCH 239/242] fix: a VFS mounted below another could not be read

---
 src/jsiVfs.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jsiVfs.c b/src/jsiVfs.c
index e6c620f..79eabbe 100644
--- a/src/jsiVfs.c
+++ b/src/jsiVfs.c
@@ -63,7 +63,7 @@ static VfsData* VfsLookupMount(Jsi_Interp *interp, const char *path) {
             const char *zpath = pArchive->mountStr;
             int iLen = Jsi_Strlen(zpath);
             if (!Jsi_Strncmp(zpath, path, iLen) && (path[iLen]==0 || path[iLen]=='/')) {
-                if (!match || Jsi_Strlen(match->mountStr)>(uint)iLen)
+                if (!match || Jsi_Strlen(match->mountStr)<(uint)iLen)
                     match=(VfsData*)Jsi_HashValueGet(hPtr);
             }
         }
-- 
2.43.0


From 0e85049db5962170c4aa33eaacd105137e239a89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:30:25 +0000
Subject: [PATCH 240/242] fix: every() of an empty array was false

---
 src/jsiArray.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jsiArray.c b/src/jsiArray.c
index 4fbdd88..af4e477 100644
--- a/src/jsiArray.c
+++ b/src/jsiArray.c
@@ -566,7 +566,7 @@ static Jsi_RC jsi_ArrayFindSubCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value
     Jsi_IncrRefCount(interp, _this);
     obj = _this->d.obj;
     Jsi_ObjListifyArray(interp, obj);
-    int fval = 0;
+    int fval = (op == 3);
     Jsi_Value *nrPtr = Jsi_ValueNew1(interp);
     Jsi_Value *vobjs[3];
     Jsi_Func *fptr = func->d.obj->d.fobj->func;
-- 
2.43.0


From 71f860961d8a501eed4c69ec7c7560308cf153ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:30:25 +0000
Subject: [PATCH 241/242] fix: shift() of an array that begins with a hole did
 not make it shorter

---
 src/jsiArray.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/jsiArray.c b/src/jsiArray.c
index af4e477..b3dcea6 100644
--- a/src/jsiArray.c
+++ b/src/jsiArray.c
@@ -784,9 +784,11 @@ static Jsi_RC jsi_ArrayShiftCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *
         v = obj->arr[0];
         memmove(obj->arr, obj->arr+1, n*sizeof(Jsi_Value*));
         obj->arr[n] = NULL;
-        if (!v) return JSI_OK;
-        Jsi_ValueDup2(interp, ret, v);
-        Jsi_DecrRefCount(interp, v);
+        if (v) {
+            Jsi_ValueDup2(interp, ret, v);
+            Jsi_DecrRefCount(interp, v);
+        } else
+            Jsi_ValueMakeUndef(interp, ret);
         Jsi_ObjSetLength(interp, obj, n);
     }
     return JSI_OK;
-- 
2.43.0


From cb53d89b769110feb291ec9a9b12a3fe6001c95b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:30:25 +0000
Subject: [PATCH 242/242] fix: reduce() of an array that begins with a hole
 gave the callback no first value

---
 src/jsiArray.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/jsiArray.c b/src/jsiArray.c
index b3dcea6..5422bc6 100644
--- a/src/jsiArray.c
+++ b/src/jsiArray.c
@@ -632,16 +632,16 @@ static Jsi_RC jsi_ArrayReduceSubCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Val
     obj = _this->d.obj;
     Jsi_ObjListifyArray(interp, obj);
     Jsi_Value *vobjs[4];
-    int n, rev = (op==2), start = 0, end = obj->arrCnt-1;
+    int rev = (op==2), start = 0, end = obj->arrCnt-1;
     Jsi_Func *fptr = func->d.obj->d.fobj->func;
     int maa = (fptr->argnames?fptr->argnames->argCnt:0);
     if (maa>4 || fptr->type == FC_BUILDIN)
         maa = 4;
 
     Jsi_IncrRefCount(interp, _this);
-    for (n = 0, i = (rev?end:start); (rev?i>=start:i<=end) && rc == JSI_OK; n++, i += (rev?-1:1)) {
+    for (i = (rev?end:start); (rev?i>=start:i<=end) && rc == JSI_OK; i += (rev?-1:1)) {
         if (!obj->arr[i]) continue;
-        if (n==0 && !ini) {
+        if (!ini) {
             ini = obj->arr[i];
             continue;
         }
-- 
2.43.0

