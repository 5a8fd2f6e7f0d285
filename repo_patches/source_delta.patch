From 7b633be6b4bcf9ba2e68bfd37c8c2479a2548683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:59 +0000
Subject: [PATCH 01/61] fix: assigning local and enclosing variables in one
 "set" raised RuntimeError

---
 titus/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/titus/util.py b/titus/util.py
index f249227..7d30c59 100644
--- a/titus/util.py
+++ b/titus/util.py
@@ -148,7 +148,7 @@ class DynamicScope(object):
             if symbol in self.symbols:
                 self.symbols[symbol] = value
             elif self.parent is not None:
-                self.parent.set(nameExpr)
+                self.parent.set({symbol: value})
             else:
                 raise RuntimeError()
 
-- 
2.43.0


From e281008a7b32aaf4531d31d04e05747e4fcd7cfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:59 +0000
Subject: [PATCH 02/61] fix: negative indexes in extraction paths counted from
 the end instead of failing

---
 titus/genpy.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/titus/genpy.py b/titus/genpy.py
index 7049804..a71a358 100644
--- a/titus/genpy.py
+++ b/titus/genpy.py
@@ -642,6 +642,8 @@ def get(obj, path, arrayErrCode, mapErrCode, fcnName, pos):
 
     while len(path) > 0:
         head, tail = path[0], path[1:]
+        if isinstance(obj, (list, tuple)) and head < 0:
+            raise PFARuntimeException("array index not found", arrayErrCode, fcnName, pos)
         try:
             obj = obj[head]
         except (KeyError, IndexError):
-- 
2.43.0


From 48faf61c39f6cd4361819f9aab5c869864c83819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:59 +0000
Subject: [PATCH 03/61] fix: updating a missing last path item was silently
 ignored

---
 titus/genpy.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/titus/genpy.py b/titus/genpy.py
index a71a358..1977921 100644
--- a/titus/genpy.py
+++ b/titus/genpy.py
@@ -684,7 +684,7 @@ def update(state, scope, obj, path, to, arrayErrCode, mapErrCode, fcnName, pos):
         head, tail = path[0], path[1:]
 
         if isinstance(obj, dict):
-            if len(tail) > 0 and head not in obj:
+            if head not in obj:
                 raise PFARuntimeException("map key not found", mapErrCode, fcnName, pos)
             out = {}
             for k, v in list(obj.items()):
@@ -695,7 +695,7 @@ def update(state, scope, obj, path, to, arrayErrCode, mapErrCode, fcnName, pos):
             return out
 
         elif isinstance(obj, (list, tuple)):
-            if (len(tail) > 0 and head >= len(obj)) or head < 0:
+            if head >= len(obj) or head < 0:
                 raise PFARuntimeException("array index not found", arrayErrCode, fcnName, pos)
             out = []
             for i, x in enumerate(obj):
-- 
2.43.0


From b17c548f395e85896dd9d6cf92e274a96583d42d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:59 +0000
Subject: [PATCH 04/61] fix: library functions as updaters failed with
 AttributeError

---
 titus/genpy.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/titus/genpy.py b/titus/genpy.py
index 1977921..3e9d22f 100644
--- a/titus/genpy.py
+++ b/titus/genpy.py
@@ -709,9 +709,7 @@ def update(state, scope, obj, path, to, arrayErrCode, mapErrCode, fcnName, pos):
             raise Exception
 
     elif callable(to):
-        callScope = DynamicScope(scope)
-        callScope.let({to.paramNames[0]: obj})
-        return to(state, callScope)
+        return titus.util.callfcn(state, scope, to, [obj])
 
     else:
         return to
-- 
2.43.0


From af954beb5cadc58acfcfac68f0617e18f82dc27b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:59 +0000
Subject: [PATCH 05/61] fix: calling a library function reference used an
 undefined name

---
 titus/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/titus/util.py b/titus/util.py
index 7d30c59..0e222b8 100644
--- a/titus/util.py
+++ b/titus/util.py
@@ -176,7 +176,7 @@ def callfcn(state, scope, fcn, args):
         callScope.let(args)
         return fcn(state, callScope)
     else:
-        return fcn(state, scope, pos, None, *args)
+        return fcn(state, scope, None, None, *args)
 
 def negativeIndex(length, index):
     """Helper function for interpreting negative array indexes as counting from the end of the array (just like Python).
-- 
2.43.0


From 97e5c128d03e795acc0dfec61d53e190a75a6fae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:59 +0000
Subject: [PATCH 06/61] fix: integer division lost precision and could leave
 the range of its type

---
 titus/lib/core.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/titus/lib/core.py b/titus/lib/core.py
index f1c0c2c..acabee2 100644
--- a/titus/lib/core.py
+++ b/titus/lib/core.py
@@ -99,7 +99,10 @@ class FloorDivide(LibFcn):
         if y == 0:
             raise PFARuntimeException("integer division by zero", self.errcodeBase + 0, self.name, pos)
         else:
-            return int(x / float(y))
+            quotient = abs(x) // abs(y)
+            if (x < 0) != (y < 0):
+                quotient = -quotient
+            return checkForOverflow(paramTypes[-1], quotient, self.errcodeBase + 1, self.errcodeBase + 2, self.name, pos)
 provide(FloorDivide())
 
 class Negative(LibFcn):
-- 
2.43.0


From 30f3c9a95bd88a5632a2be929a34ec5de09b1e88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:59 +0000
Subject: [PATCH 07/61] fix: powers of longs lost precision

---
 titus/lib/core.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/titus/lib/core.py b/titus/lib/core.py
index acabee2..32a2204 100644
--- a/titus/lib/core.py
+++ b/titus/lib/core.py
@@ -203,6 +203,8 @@ class Pow(LibFcn):
     errcodeBase = 18080
     def __call__(self, state, scope, pos, paramTypes, x, y):
         out = powLikeJava(x, y)
+        if paramTypes[-1] in ("int", "long") and y >= 0 and not math.isinf(out):
+            out = x ** y
         if paramTypes[-1] == "int":
             if math.isnan(out) or out < INT_MIN_VALUE or out > INT_MAX_VALUE:
                 raise PFARuntimeException("int overflow", self.errcodeBase + 0, self.name, pos)
-- 
2.43.0


From 462ebc952c3ac3591f3bac414235a853b723c310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:59 +0000
Subject: [PATCH 08/61] fix: a.median, a.mode and a.ntile compared type names
 by identity

---
 titus/lib/array.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/titus/lib/array.py b/titus/lib/array.py
index d98ae0e..7747f8b 100644
--- a/titus/lib/array.py
+++ b/titus/lib/array.py
@@ -760,7 +760,7 @@ class Median(LibFcn):
 
         if len(sa) % 2:
             return sa[half]
-        if (dataType is "float") or (dataType is "double"):
+        if (dataType == "float") or (dataType == "double"):
             return (sa[half - 1] + sa[half])/2.0
         else:
             return sa[half - 1]
@@ -807,7 +807,7 @@ class NTile(LibFcn):
         k = (len(a) - 1.0)*p
         f = math.floor(k)
         dataType = paramTypes[-1]
-        if (dataType is "float") or (dataType is "double"):
+        if (dataType == "float") or (dataType == "double"):
             c = math.ceil(k)
             if f == c:
                 return sa[int(k)]
-- 
2.43.0


From 26757626e378bb0c8ab5f5d5b72ba80b69d70ffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:59 +0000
Subject: [PATCH 09/61] fix: a.intersection repeated every common item

---
 titus/lib/array.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/titus/lib/array.py b/titus/lib/array.py
index 7747f8b..b2fbde9 100644
--- a/titus/lib/array.py
+++ b/titus/lib/array.py
@@ -865,11 +865,8 @@ class Intersection(LibFcn):
     def __call__(self, state, scope, pos, paramTypes, a, b):
         out = []
         for ai in a:
-            if ai in b:
+            if ai in b and ai not in out:
                 out.append(ai)
-        for bi in b:
-            if bi in a:
-                out.append(bi)
         return out
 provide(Intersection())
 
-- 
2.43.0


From 30efb5136d39745eb154b202f00a7ce2ace977a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:59 +0000
Subject: [PATCH 10/61] fix: map.zipmap refused maps with the same keys in
 another order

---
 titus/lib/map.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/titus/lib/map.py b/titus/lib/map.py
index ce02b54..7b8f856 100644
--- a/titus/lib/map.py
+++ b/titus/lib/map.py
@@ -504,7 +504,7 @@ class ZipMap(LibFcn):
         maps = args[:-1]
         keys = list(maps[0].keys())
         for m in maps:
-            if keys != list(m.keys()):
+            if maps[0].keys() != m.keys():
                 raise PFARuntimeException("misaligned maps", self.errcodeBase + 0, self.name, pos)
         out = {}
         for k in keys:
@@ -523,7 +523,7 @@ class ZipMapWithKey(LibFcn):
         maps = args[:-1]
         keys = list(maps[0].keys())
         for m in maps:
-            if keys != list(m.keys()):
+            if maps[0].keys() != m.keys():
                 raise PFARuntimeException("misaligned maps", self.errcodeBase + 0, self.name, pos)
         out = {}
         for k in keys:
-- 
2.43.0


From 31ceceadf83683a2d82489e8d53b08c3415f5929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:04 +0000
Subject: [PATCH 11/61] fix: a failing pool update left its init value in the
 pool

---
 titus/genpy.py | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/titus/genpy.py b/titus/genpy.py
index 3e9d22f..025aa9b 100644
--- a/titus/genpy.py
+++ b/titus/genpy.py
@@ -584,18 +584,13 @@ class Pool(PersistentStorageItem):
                 self.locks[head].acquire()
             self.locklock.release()
 
-            if head not in self.value:
-                self.value[head] = init
-            self.value[head] = update(state, scope, self.value[head], tail, to, arrayErrCode, mapErrCode, fcnName, pos)
-
-            result = self.value[head]
+            result = update(state, scope, self.value.get(head, init), tail, to, arrayErrCode, mapErrCode, fcnName, pos)
+            self.value[head] = result
             self.locks[head].release()
 
         else:
-            if head not in self.value:
-                self.value[head] = init
-            self.value[head] = update(state, scope, self.value[head], tail, to, arrayErrCode, mapErrCode, fcnName, pos)
-            result = self.value[head]
+            result = update(state, scope, self.value.get(head, init), tail, to, arrayErrCode, mapErrCode, fcnName, pos)
+            self.value[head] = result
 
         return result
 
-- 
2.43.0


From 6d8935b07213a7e34a88cc237b59517045e73ed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:04 +0000
Subject: [PATCH 12/61] fix: a failing update of a shared cell or pool item
 left it locked

---
 titus/genpy.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/titus/genpy.py b/titus/genpy.py
index 025aa9b..2f67d01 100644
--- a/titus/genpy.py
+++ b/titus/genpy.py
@@ -538,10 +538,9 @@ class Cell(PersistentStorageItem):
     def update(self, state, scope, path, to, arrayErrCode, mapErrCode, fcnName, pos):
         result = None
         if self.shared:
-            self.lock.acquire()
-            self.value = update(state, scope, self.value, path, to, arrayErrCode, mapErrCode, fcnName, pos)
-            result = self.value
-            self.lock.release()
+            with self.lock:
+                self.value = update(state, scope, self.value, path, to, arrayErrCode, mapErrCode, fcnName, pos)
+                result = self.value
         else:
             self.value = update(state, scope, self.value, path, to, arrayErrCode, mapErrCode, fcnName, pos)
             result = self.value
@@ -584,9 +583,11 @@ class Pool(PersistentStorageItem):
                 self.locks[head].acquire()
             self.locklock.release()
 
-            result = update(state, scope, self.value.get(head, init), tail, to, arrayErrCode, mapErrCode, fcnName, pos)
-            self.value[head] = result
-            self.locks[head].release()
+            try:
+                result = update(state, scope, self.value.get(head, init), tail, to, arrayErrCode, mapErrCode, fcnName, pos)
+                self.value[head] = result
+            finally:
+                self.locks[head].release()
 
         else:
             result = update(state, scope, self.value.get(head, init), tail, to, arrayErrCode, mapErrCode, fcnName, pos)
-- 
2.43.0


From cd0aa4c51b7e79aeaaf8a53dc1a032de78076723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:01 +0000
Subject: [PATCH 13/61] fix: the call graph missed calls made in attr bases,
 pool-to init and call names

---
 titus/pfaast.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/titus/pfaast.py b/titus/pfaast.py
index f3159b1..c391cf3 100644
--- a/titus/pfaast.py
+++ b/titus/pfaast.py
@@ -1839,7 +1839,7 @@ class CallUserFcn(Expression):
         scope = symbolTable.newScope(True, True)
         argResults = [x.walk(task, scope, functionTable, engineOptions, version) for x in self.args]
 
-        calls = set("u." + x for x in fcnNames)
+        calls = nameContext.calls.union(set("u." + x for x in fcnNames))
         argTypes = []
         for ctx, res in argResults:
             if isinstance(ctx, ExpressionContext):
@@ -3261,6 +3261,7 @@ class AttrGet(Expression, HasPath):
             raise PFASemanticException("expression is not an array, map, or record", self.pos)
 
         retType, calls, pathResult = self.walkPath(exprContext.retType, task, symbolTable, functionTable, engineOptions, version)
+        calls = calls.union(exprContext.calls)
         context = self.Context(retType, calls.union(set([self.desc])), exprResult, exprContext.retType, pathResult, self.pos)
         return context, task(context, engineOptions)
 
@@ -3373,6 +3374,7 @@ class AttrTo(Expression, HasPath):
             raise PFASemanticException("expression is not an array, map, or record", self.pos)
 
         setType, calls, pathResult = self.walkPath(exprContext.retType, task, symbolTable, functionTable, engineOptions, version)
+        calls = calls.union(exprContext.calls)
 
         toContext, toResult = self.to.walk(task, symbolTable, functionTable, engineOptions, version)
 
@@ -3850,6 +3852,7 @@ class PoolTo(Expression, HasPath):
         toContext, toResult = self.to.walk(task, symbolTable, functionTable, engineOptions, version)
 
         initContext, initResult = self.init.walk(task, symbolTable, functionTable, engineOptions, version)
+        calls = calls.union(initContext.calls)
 
         if not poolType.accepts(initContext.retType):
             raise PFASemanticException("pool has type {0} but attempting to init with type {1}".format(ts(poolType), ts(initContext.retType)), self.pos)
-- 
2.43.0


From 6d7356fd8a457504b8a44498b8c6a4ce9e8578cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:01 +0000
Subject: [PATCH 14/61] fix: collect and replace on a document skipped its
 merge expressions

---
 titus/pfaast.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/titus/pfaast.py b/titus/pfaast.py
index c391cf3..6f56c4b 100644
--- a/titus/pfaast.py
+++ b/titus/pfaast.py
@@ -844,6 +844,7 @@ class EngineConfig(Ast):
                titus.util.flatten(x.collect(pf) for x in self.begin) + \
                titus.util.flatten(x.collect(pf) for x in self.action) + \
                titus.util.flatten(x.collect(pf) for x in self.end) + \
+               (titus.util.flatten(x.collect(pf) for x in self.merge) if self.merge is not None else []) + \
                titus.util.flatten(x.collect(pf) for x in list(self.fcns.values())) + \
                titus.util.flatten(x.collect(pf) for x in list(self.cells.values())) + \
                titus.util.flatten(x.collect(pf) for x in list(self.pools.values()))
@@ -870,7 +871,7 @@ class EngineConfig(Ast):
                                 [x.replace(pf) for x in self.end],
                                 dict((k, v.replace(pf)) for k, v in list(self.fcns.items())),
                                 self.zero,
-                                self.merge,
+                                [x.replace(pf) for x in self.merge] if self.merge is not None else None,
                                 dict((k, v.replace(pf)) for k, v in list(self.cells.items())),
                                 dict((k, v.replace(pf)) for k, v in list(self.pools.items())),
                                 self.randseed,
-- 
2.43.0


From e4451c938380b9d52b54b238b04a59b01c0bb551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:01 +0000
Subject: [PATCH 15/61] fix: inline updaters could call pool-del or pass a
 function with side effects

---
 titus/genpy.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/titus/genpy.py b/titus/genpy.py
index 2f67d01..5c54505 100644
--- a/titus/genpy.py
+++ b/titus/genpy.py
@@ -1334,13 +1334,13 @@ def checkForDeadlock(engineConfig, engine):
 
     class CellToOrPoolTo(object):
         def isDefinedAt(self, ast):
-            return isinstance(ast, (CellTo, PoolTo))
+            return isinstance(ast, (CellTo, PoolTo, PoolDel))
         def __call__(self, slotTo):
             raise PFAInitializationException("inline function in cell-to or pool-to invokes a " + slotTo.desc)
 
     class SideEffectFunction(object):
         def isDefinedAt(self, ast):
-            return isinstance(ast, Call) and engine.hasSideEffects(ast.name)
+            return isinstance(ast, (Call, FcnRef, FcnRefFill)) and engine.hasSideEffects(ast.name)
         def __call__(self, call):
             raise PFAInitializationException("inline function in cell-to or pool-to invokes function \"{0}\", which has side-effects".format(call.name))
 
-- 
2.43.0


From e2b46125f7474e2185a54da19db9fa9cba0df8ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:40 +0000
Subject: [PATCH 16/61] fix: inline updaters could reach functions with side
 effects through call

---
 titus/genpy.py  | 2 ++
 titus/pfaast.py | 1 +
 2 files changed, 3 insertions(+)

diff --git a/titus/genpy.py b/titus/genpy.py
index 5c54505..d9b9bbd 100644
--- a/titus/genpy.py
+++ b/titus/genpy.py
@@ -1340,6 +1340,8 @@ def checkForDeadlock(engineConfig, engine):
 
     class SideEffectFunction(object):
         def isDefinedAt(self, ast):
+            if isinstance(ast, CallUserFcn):
+                return any(engine.hasSideEffects(x) for x in ast.possibleFcns)
             return isinstance(ast, (Call, FcnRef, FcnRefFill)) and engine.hasSideEffects(ast.name)
         def __call__(self, call):
             raise PFAInitializationException("inline function in cell-to or pool-to invokes function \"{0}\", which has side-effects".format(call.name))
diff --git a/titus/pfaast.py b/titus/pfaast.py
index 6f56c4b..9aa9c9c 100644
--- a/titus/pfaast.py
+++ b/titus/pfaast.py
@@ -1835,6 +1835,7 @@ class CallUserFcn(Expression):
             fcnNames = nameContext.retType.symbols
         else:
             raise PFASemanticException("\"call\" name should be an enum, but is " + ts(nameContext.retType), self.pos)
+        self.possibleFcns = ["u." + x for x in fcnNames]
         nameToNum = dict((x, i) for i, x in enumerate(fcnNames))
 
         scope = symbolTable.newScope(True, True)
-- 
2.43.0


From 74a8e612065ffc17b8876d82a531aa128f9b9af8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:40 +0000
Subject: [PATCH 17/61] fix: pool-del on a shared pool ignored the locks of
 concurrent updates

---
 titus/genpy.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/titus/genpy.py b/titus/genpy.py
index d9b9bbd..1755e9a 100644
--- a/titus/genpy.py
+++ b/titus/genpy.py
@@ -295,11 +295,7 @@ class GeneratePython(titus.pfaast.Task):
 
             out.append("""
     def pooldel(self, name, item):
-        p = self.pools[name]
-        try:
-            del p.value[item]
-        except KeyError:
-            pass
+        self.pools[name].remove(item)
         return None
 """)
 
@@ -595,6 +591,18 @@ class Pool(PersistentStorageItem):
 
         return result
 
+    def remove(self, item):
+        if self.shared:
+            with self.locklock:
+                lock = self.locks.setdefault(item, threading.Lock())
+                lock.acquire()
+            try:
+                self.value.pop(item, None)
+            finally:
+                lock.release()
+        else:
+            self.value.pop(item, None)
+
     def maybeSaveBackup(self):
         if self.rollback:
             self.oldvalue = dict(self.value)
-- 
2.43.0


From af8172eb06dc93fe37b668ad991d091f2d0eb3a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:21 +0000
Subject: [PATCH 18/61] fix: the timeout options of begin, action and end were
 not read

---
 titus/options.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/titus/options.py b/titus/options.py
index 38030e9..fb399ec 100644
--- a/titus/options.py
+++ b/titus/options.py
@@ -37,12 +37,12 @@ class EngineOptions(object):
             out = combinedOptions.get(name, default)
             try:
                 return int(out)
-            except ValueError:
+            except (ValueError, TypeError):
                 raise PFAInitializationException(name + " must be an integral number")
 
         self.timeout = longOpt("timeout", -1)
-        self.timeout_begin = longOpt("timeout", self.timeout)
-        self.timeout_action = longOpt("timeout", self.timeout)
-        self.timeout_end = longOpt("timeout", self.timeout)
+        self.timeout_begin = longOpt("timeout_begin", self.timeout)
+        self.timeout_action = longOpt("timeout_action", self.timeout)
+        self.timeout_end = longOpt("timeout_end", self.timeout)
 
         # ...
-- 
2.43.0


From 2226191d86157dd8fa9050e0065e25e32042db76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:21 +0000
Subject: [PATCH 19/61] fix: begin and end ran under the action timeout and
 loops in merge had none

---
 titus/genpy.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/titus/genpy.py b/titus/genpy.py
index 1755e9a..101fb2f 100644
--- a/titus/genpy.py
+++ b/titus/genpy.py
@@ -207,7 +207,7 @@ class GeneratePython(titus.pfaast.Task):
             if len(begin) > 0:
                 out.append("""
     def begin(self):
-        state = ExecutionState(self.options, self.rand, 'action', self.parser)
+        state = ExecutionState(self.options, self.rand, 'begin', self.parser)
         scope = DynamicScope(None)
         scope.let({'name': self.config.name, 'instance': self.instance, 'metadata': self.config.metadata})
         if self.config.version is not None:
@@ -281,7 +281,7 @@ class GeneratePython(titus.pfaast.Task):
                 
                 out.append("""
     def end(self):
-        state = ExecutionState(self.options, self.rand, 'action', self.parser)
+        state = ExecutionState(self.options, self.rand, 'end', self.parser)
         scope = DynamicScope(None)
         scope.let({'name': self.config.name, 'instance': self.instance, 'metadata': self.config.metadata, 'actionsStarted': self.actionsStarted, 'actionsFinished': self.actionsFinished})
         if self.config.version is not None:
@@ -487,7 +487,7 @@ class ExecutionState(object):
 
         if routine == "begin":
             self.timeout = options.timeout_begin
-        elif routine == "action":
+        elif routine == "action" or routine == "merge":
             self.timeout = options.timeout_action
         elif routine == "end":
             self.timeout = options.timeout_end
-- 
2.43.0


From 67898a619677db9ffa93512c282839d987f909ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:21 +0000
Subject: [PATCH 20/61] fix: comparisons of floats never placed NaN

---
 titus/datatype.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/titus/datatype.py b/titus/datatype.py
index 34f3989..a02cca9 100644
--- a/titus/datatype.py
+++ b/titus/datatype.py
@@ -1051,7 +1051,6 @@ def compare(avroType, x, y):
     elif isinstance(avroType, AvroLong) and isinstance(x, int) and x is not True and x is not False and isinstance(y, int) and y is not True and y is not False:
         return (x > y) - (x < y)
     elif isinstance(avroType, AvroFloat) and isinstance(x, (int, float)) and x is not True and x is not False and isinstance(y, (int, float)) and y is not True and y is not False:
-        return (x > y) - (x < y)
         if math.isnan(x):
             if math.isnan(y):
                 return 0
-- 
2.43.0


From 7d563df351ba012ef79b8b992ab1a2ef377c8a94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:21 +0000
Subject: [PATCH 21/61] fix: comparisons of bytes and fixed input values raised

---
 titus/datatype.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/titus/datatype.py b/titus/datatype.py
index a02cca9..3c4c331 100644
--- a/titus/datatype.py
+++ b/titus/datatype.py
@@ -1072,9 +1072,9 @@ def compare(avroType, x, y):
                 return -1
             else:
                 return (x > y) - (x < y)
-    elif isinstance(avroType, AvroBytes) and isinstance(x, str) and isinstance(y, str):
-        return (x > y) - (x < y)
-    elif isinstance(avroType, AvroFixed) and isinstance(x, str) and isinstance(y, str):
+    elif isinstance(avroType, (AvroBytes, AvroFixed)) and isinstance(x, (str, bytes)) and isinstance(y, (str, bytes)):
+        x = stringToBytes(x) if isinstance(x, str) else x
+        y = stringToBytes(y) if isinstance(y, str) else y
         return (x > y) - (x < y)
     elif isinstance(avroType, AvroString) and isinstance(x, str) and isinstance(y, str):
         return (x > y) - (x < y)
-- 
2.43.0


From eeafcee9d0bf388141fb308d3f32f461831e048f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:21 +0000
Subject: [PATCH 22/61] fix: a filtered try replaced timeouts by AttributeError

---
 titus/genpy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/titus/genpy.py b/titus/genpy.py
index 101fb2f..e0e285b 100644
--- a/titus/genpy.py
+++ b/titus/genpy.py
@@ -1298,7 +1298,7 @@ def tryCatch(state, scope, exprs, filter):
     try:
         return exprs(state, scope)
     except Exception as err:
-        if filter is None or err.message in filter or err.code in filter:
+        if filter is None or getattr(err, "message", None) in filter or getattr(err, "code", None) in filter:
             return None
         else:
             raise err
-- 
2.43.0


From 9ee755913c89e9ce985a3809b81dad58bc4984e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:02 +0000
Subject: [PATCH 23/61] fix: embedded JSON strings, booleans and out of range
 numbers were decoded as numbers

---
 titus/datatype.py | 19 ++++---------------
 1 file changed, 4 insertions(+), 15 deletions(-)

diff --git a/titus/datatype.py b/titus/datatype.py
index 3c4c331..6c70cbb 100644
--- a/titus/datatype.py
+++ b/titus/datatype.py
@@ -888,25 +888,14 @@ def jsonDecoder(avroType, value):
         if value is True or value is False:
             return value
     elif isinstance(avroType, AvroInt):
-        try:
+        if isinstance(value, (int, float)) and not isinstance(value, bool) and -2**31 <= value < 2**31:
             return int(value)
-        except (ValueError, TypeError):
-            pass
     elif isinstance(avroType, AvroLong):
-        try:
+        if isinstance(value, (int, float)) and not isinstance(value, bool) and -2**63 <= value < 2**63:
             return int(value)
-        except (ValueError, TypeError):
-            pass
-    elif isinstance(avroType, AvroFloat):
-        try:
-            return float(value)
-        except (ValueError, TypeError):
-            pass
-    elif isinstance(avroType, AvroDouble):
-        try:
+    elif isinstance(avroType, (AvroFloat, AvroDouble)):
+        if isinstance(value, (int, float)) and not isinstance(value, bool):
             return float(value)
-        except (ValueError, TypeError):
-            pass
     elif isinstance(avroType, AvroBytes):
         if isinstance(value, str):
             return value
-- 
2.43.0


From 49b567ab44b8053ec060bcf9a6f82be7c01aa15d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:44 +0000
Subject: [PATCH 24/61] fix: encoding a tagged union ignored its tag and
 encoding bytes failed

---
 titus/datatype.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/titus/datatype.py b/titus/datatype.py
index 6c70cbb..fc1d76c 100644
--- a/titus/datatype.py
+++ b/titus/datatype.py
@@ -966,11 +966,10 @@ def jsonEncoder(avroType, value, tagged=True):
         return float(value)
     elif isinstance(avroType, AvroDouble) and isinstance(value, (int, float)) and value is not True and value is not False:
         return float(value)
-    elif isinstance(avroType, AvroBytes) and isinstance(value, str):
-        return value
-    elif isinstance(avroType, AvroFixed) and isinstance(value, str):
-        if len(value) == avroType.size:
-            return value
+    elif isinstance(avroType, AvroBytes) and isinstance(value, (str, bytes)):
+        return bytesToString(value) if isinstance(value, bytes) else value
+    elif isinstance(avroType, AvroFixed) and isinstance(value, (str, bytes)) and len(value) == avroType.size:
+        return bytesToString(value) if isinstance(value, bytes) else value
     elif isinstance(avroType, AvroString) and isinstance(value, str):
         return value
     elif isinstance(avroType, AvroEnum) and isinstance(value, str) and value in avroType.symbols:
@@ -993,8 +992,10 @@ def jsonEncoder(avroType, value, tagged=True):
         return None
     elif isinstance(avroType, AvroUnion):
         if isinstance(value, dict) and len(value) == 1:
-            val, = list(value.values())
+            (tag, val), = list(value.items())
             for t in avroType.types:
+                if t.name != tag:
+                    continue
                 try:
                     out = jsonEncoder(t, val, tagged)
                 except titus.errors.AvroException:
-- 
2.43.0


From e924497634752357f9548ddd687867900cd8e48a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:39 +0000
Subject: [PATCH 25/61] fix: reporting that binary data does not match a schema
 failed

---
 titus/datatype.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/titus/datatype.py b/titus/datatype.py
index fc1d76c..551007d 100644
--- a/titus/datatype.py
+++ b/titus/datatype.py
@@ -25,7 +25,7 @@ import avro.schema
 
 import titus.errors
 import titus.util
-from titus.util import ts, stringToBytes
+from titus.util import ts, bytesToString, stringToBytes
 
 ######################################################### the most general types
 
@@ -926,7 +926,7 @@ def jsonDecoder(avroType, value):
                 elif isinstance(field.avroType, AvroNull):
                     out[field.name] = None
                 else:
-                    raise titus.errors.AvroException("{0} does not match schema {1}".format(json.dumps(value), ts(avroType)))
+                    raise titus.errors.AvroException("{0} does not match schema {1}".format(json.dumps(value, default=repr), ts(avroType)))
             return out
     elif isinstance(avroType, AvroUnion):
         if isinstance(value, dict) and len(value) == 1:
@@ -939,7 +939,7 @@ def jsonDecoder(avroType, value):
             return None
     else:
         raise Exception
-    raise titus.errors.AvroException("{0} does not match schema {1}".format(json.dumps(value), ts(avroType)))
+    raise titus.errors.AvroException("{0} does not match schema {1}".format(json.dumps(value, default=repr), ts(avroType)))
 
 def jsonEncoder(avroType, value, tagged=True):
     """Encode an object as JSON, given titus.datatype.AvroType.
@@ -986,7 +986,7 @@ def jsonEncoder(avroType, value, tagged=True):
             elif field.default is not None:
                 pass
             else:
-                raise titus.errors.AvroException("{0} does not match schema {1}".format(json.dumps(value), ts(avroType)))
+                raise titus.errors.AvroException("{0} does not match schema {1}".format(json.dumps(value, default=repr), ts(avroType)))
         return out
     elif isinstance(avroType, AvroUnion) and any(isinstance(t, AvroNull) for t in avroType.types) and value is None:
         return None
@@ -1015,7 +1015,7 @@ def jsonEncoder(avroType, value, tagged=True):
                     return {t.name: out}
                 else:
                     return out
-    raise titus.errors.AvroException("{0} does not match schema {1}".format(json.dumps(value), ts(avroType)))
+    raise titus.errors.AvroException("{0} does not match schema {1}".format(json.dumps(value, default=repr), ts(avroType)))
 
 def compare(avroType, x, y):
     """Returns -1, 0, or 1 depending on whether x is less than, equal to, or greater than y, according to the schema.
@@ -1142,7 +1142,7 @@ def compare(avroType, x, y):
             else:
                 return 0
     else:
-        raise titus.errors.AvroException("{0} or {1} does not match schema {2}".format(json.dumps(x), json.dumps(y), ts(avroType)))
+        raise titus.errors.AvroException("{0} or {1} does not match schema {2}".format(json.dumps(x, default=repr), json.dumps(y, default=repr), ts(avroType)))
 
 ########################### check data value against type
 
-- 
2.43.0


From 078b835b858c53ac2058ce61be99b7a21afeeec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:37 +0000
Subject: [PATCH 26/61] fix: snapshots with untagged unions, binary data or
 external sources could not be loaded

---
 titus/genpy.py | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/titus/genpy.py b/titus/genpy.py
index e0e285b..ce9397a 100644
--- a/titus/genpy.py
+++ b/titus/genpy.py
@@ -37,11 +37,13 @@ import titus.P as P
 import titus.reader
 import titus.signature
 import titus.util
+from titus.util import bytesToString
 from titus.util import DynamicScope
 import titus.version
 
 from titus.pfaast import EngineConfig
 from titus.pfaast import Cell as AstCell
+from titus.pfaast import CellPoolSource
 from titus.pfaast import Pool as AstPool
 from titus.pfaast import FcnDef
 from titus.pfaast import FcnRef
@@ -498,6 +500,20 @@ class ExecutionState(object):
         if self.timeout > 0 and (time.time() - self.startTime) * 1000 > self.timeout:
             raise PFATimeoutException("exceeded timeout of {0} milliseconds".format(self.timeout))
 
+class SnapshotCell(AstCell):
+    """A cell whose ``init`` is the in-memory value of a running engine, in which union values are not necessarily tagged."""
+
+    @property
+    def initJsonNode(self):
+        return titus.datatype.jsonEncoder(self.avroType, json.loads(self.init))
+
+class SnapshotPool(AstPool):
+    """A pool whose ``init`` holds in-memory values of a running engine, in which union values are not necessarily tagged."""
+
+    @property
+    def initJsonNode(self):
+        return dict((k, titus.datatype.jsonEncoder(self.avroType, json.loads(v))) for k, v in list(self.init.items()))
+
 class SharedState(object):
     """Represents the state of all shared cells and pools at runtime."""
 
@@ -1641,8 +1657,8 @@ class PFAEngine(object):
         Note that you can call ``toJson`` on the ``EngineConfig`` to get a string that can be written to a PFA file.
         """
 
-        newCells = dict((k, AstCell(self.config.cells[k].avroPlaceholder, json.dumps(v.value), v.shared, v.rollback, v.source)) for k, v in list(self.cells.items()))
-        newPools = dict((k, AstPool(self.config.pools[k].avroPlaceholder, dict((kk, json.dumps(vv)) for kk, vv in list(v.value.items())), v.shared, v.rollback, v.source)) for k, v in list(self.pools.items()))
+        newCells = dict((k, SnapshotCell(c.avroPlaceholder, json.dumps(self.cells[k].value, default=bytesToString), c.shared, c.rollback, CellPoolSource.EMBEDDED)) for k, c in list(self.config.cells.items()))
+        newPools = dict((k, SnapshotPool(c.avroPlaceholder, dict((kk, json.dumps(vv, default=bytesToString)) for kk, vv in list(self.pools[k].value.items())), c.shared, c.rollback, CellPoolSource.EMBEDDED)) for k, c in list(self.config.pools.items()))
 
         return EngineConfig(
             self.config.name,
-- 
2.43.0


From 2b1faab6425c3fc08690689d727d6cec4d817999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:18 +0000
Subject: [PATCH 27/61] fix: documents with external cells were rendered with
 embedded data marked as external

---
 titus/pfaast.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/titus/pfaast.py b/titus/pfaast.py
index 9aa9c9c..fb81c1e 100644
--- a/titus/pfaast.py
+++ b/titus/pfaast.py
@@ -1199,7 +1199,7 @@ class Cell(Ast):
         out["init"] = self.initJsonNode
         out["shared"] = self.shared
         out["rollback"] = self.rollback
-        if self.source != CellPoolSource.EMBEDDED:
+        if self.source != CellPoolSource.EMBEDDED and not callable(self.init):
             out["source"] = self.source
         return out
 
@@ -1299,7 +1299,7 @@ class Pool(Ast):
         out["init"] = self.initJsonNode
         out["shared"] = self.shared
         out["rollback"] = self.rollback
-        if self.source != CellPoolSource.EMBEDDED:
+        if self.source != CellPoolSource.EMBEDDED and not callable(self.init):
             out["source"] = self.source
         return out
             
-- 
2.43.0


From 6347b8f5e1db0cd319c594b7078cb75a73678daf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:54 +0000
Subject: [PATCH 28/61] fix: pools could not have an external source and Avro
 sources could not be read

---
 titus/pfaast.py |  2 +-
 titus/reader.py | 36 +++++++++++++++++++++++++++---------
 2 files changed, 28 insertions(+), 10 deletions(-)

diff --git a/titus/pfaast.py b/titus/pfaast.py
index fb81c1e..f19e473 100644
--- a/titus/pfaast.py
+++ b/titus/pfaast.py
@@ -1231,7 +1231,7 @@ class Pool(Ast):
         if not isinstance(avroPlaceholder, (AvroPlaceholder, AvroType)):
             raise PFASyntaxException("\"avroPlaceholder\" must be an AvroPlaceholder or AvroType", pos)
 
-        if not isinstance(init, dict) or not all(isinstance(x, str) or x is None for x in list(init.values())):
+        if not callable(init) and (not isinstance(init, dict) or not all(isinstance(x, str) or x is None for x in list(init.values()))):
             raise PFASyntaxException("\"init\" must be a string or callable", pos)
 
         if not isinstance(shared, bool):
diff --git a/titus/reader.py b/titus/reader.py
index 881e38a..ad662b8 100644
--- a/titus/reader.py
+++ b/titus/reader.py
@@ -895,16 +895,23 @@ def _readCell(data, dot, avroTypeBuilder):
             raise PFASyntaxException("wrong set of fields for a cell: " + ", ".join(keys), pos(dot, at))
         else:
             if _source == "avro":
-                url = json.loads(_init)
+                url = json.loads(_init) if isinstance(_init, str) else None
                 if not isinstance(url, str):
                     raise PFASyntaxException("source: avro requires init to be a string", pos(dot, at))
                 def getit(avroType):
-                    reader = DataFileReader(urllib.request.urlopen(url), DatumReader())
-                    return reader.read()
+                    if re.match("^[a-zA-Z][a-zA-Z0-9\+\-\.]*://", url) is not None:
+                        stream = io.BytesIO(urllib.request.urlopen(url).read())
+                    else:
+                        stream = open(url, "rb")
+                    reader = DataFileReader(stream, DatumReader())
+                    try:
+                        return json.dumps(titus.datatype.jsonEncoder(avroType, next(reader)))
+                    finally:
+                        reader.close()
                 _init = getit
 
             elif _source == "json":
-                url = json.loads(_init)
+                url = json.loads(_init) if isinstance(_init, str) else None
                 if not isinstance(url, str):
                     raise PFASyntaxException("source: json requires init to be a string", pos(dot, at))
                 def getit(avroType):
@@ -949,7 +956,11 @@ def _readPool(data, dot, avroTypeBuilder):
         keys = set(x for x in list(data.keys()) if x != "@")
         for key in keys:
             if key == "type": _avroType = _readAvroPlaceholder(data[key], dot + " -> " + key, avroTypeBuilder)
-            elif key == "init": _init = _readJsonToStringMap(data[key], dot + " -> " + key)
+            elif key == "init":
+                if data.get("source", "embedded") == "embedded":
+                    _init = _readJsonToStringMap(data[key], dot + " -> " + key)
+                else:
+                    _init = _readJsonToString(data[key], dot + " -> " + key)
             elif key == "shared": _shared = _readBoolean(data[key], dot + " -> " + key)
             elif key == "rollback": _rollback = _readBoolean(data[key], dot + " -> " + key)
             elif key == "source": _source = _readString(data[key], dot + " -> " + key)
@@ -958,16 +969,23 @@ def _readPool(data, dot, avroTypeBuilder):
             raise PFASyntaxException("wrong set of fields for a pool: " + ", ".join(keys), pos(dot, at))
         else:
             if _source == "avro":
-                url = json.loads(_init)
+                url = json.loads(_init) if isinstance(_init, str) else None
                 if not isinstance(url, str):
                     raise PFASyntaxException("source: avro requires init to be a string", pos(dot, at))
                 def getit(avroType):
-                    reader = DataFileReader(urllib.request.urlopen(url), DatumReader())
-                    return reader.read()
+                    if re.match("^[a-zA-Z][a-zA-Z0-9\+\-\.]*://", url) is not None:
+                        stream = io.BytesIO(urllib.request.urlopen(url).read())
+                    else:
+                        stream = open(url, "rb")
+                    reader = DataFileReader(stream, DatumReader())
+                    try:
+                        return json.dumps(titus.datatype.jsonEncoder(avroType, next(reader)))
+                    finally:
+                        reader.close()
                 _init = getit
 
             elif _source == "json":
-                url = json.loads(_init)
+                url = json.loads(_init) if isinstance(_init, str) else None
                 if not isinstance(url, str):
                     raise PFASyntaxException("source: json requires init to be a string", pos(dot, at))
                 def getit(avroType):
-- 
2.43.0


From 6dd975b1bb6756852c53878e2c264984be28eb10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:08 +0000
Subject: [PATCH 29/61] fix: unions with types in namespaces used the wrong tag
 and untagged values were compared as the wrong type

---
 titus/datatype.py | 55 ++++++++++++++++++++---------------------------
 titus/genpy.py    |  4 ++--
 2 files changed, 25 insertions(+), 34 deletions(-)

diff --git a/titus/datatype.py b/titus/datatype.py
index 551007d..479089f 100644
--- a/titus/datatype.py
+++ b/titus/datatype.py
@@ -169,9 +169,14 @@ class AvroType(Type):
 
     @property
     def name(self):
-        """Return "name" of this type, which is used as a key in tagged unions."""
+        """Return "name" of this type, without namespace."""
         return None
 
+    @property
+    def fullName(self):
+        """Return full name of this type, which is used as a key in tagged unions."""
+        return self.name
+
     def __eq__(self, other):
         """Return ``True`` if the two types are equal."""
         if isinstance(other, AvroType):
@@ -932,7 +937,7 @@ def jsonDecoder(avroType, value):
         if isinstance(value, dict) and len(value) == 1:
             tag, = list(value.keys())
             val, = list(value.values())
-            types = dict((x.name, x) for x in avroType.types)
+            types = dict((x.fullName, x) for x in avroType.types)
             if tag in types:
                 return {tag: jsonDecoder(types[tag], val)}
         elif value is None and "null" in [x.name for x in avroType.types]:
@@ -994,7 +999,7 @@ def jsonEncoder(avroType, value, tagged=True):
         if isinstance(value, dict) and len(value) == 1:
             (tag, val), = list(value.items())
             for t in avroType.types:
-                if t.name != tag:
+                if t.fullName != tag:
                     continue
                 try:
                     out = jsonEncoder(t, val, tagged)
@@ -1002,7 +1007,7 @@ def jsonEncoder(avroType, value, tagged=True):
                     pass
                 else:
                     if tagged:
-                        return {t.name: out}
+                        return {t.fullName: out}
                     else:
                         return out
         for t in avroType.types:
@@ -1012,7 +1017,7 @@ def jsonEncoder(avroType, value, tagged=True):
                 pass
             else:
                 if tagged:
-                    return {t.name: out}
+                    return {t.fullName: out}
                 else:
                     return out
     raise titus.errors.AvroException("{0} does not match schema {1}".format(json.dumps(value, default=repr), ts(avroType)))
@@ -1101,36 +1106,22 @@ def compare(avroType, x, y):
                     return comparison
         return 0
     elif isinstance(avroType, AvroUnion):
-        if isinstance(x, dict) and len(x) == 1:
-            (xtag, x), = list(x.items())
-            xtypei, xtype = [(ti, t) for ti, t in enumerate(avroType.types) if t.name == xtag][0]
-        else:
-            xtypei = None
-            for ti, t in enumerate(avroType.types):
-                try:
-                    jsonEncoder(t, x)
-                except titus.errors.AvroException:
-                    pass
-                else:
-                    xtypei = ti
-                    xtype = t
-            if xtypei is None:
-                raise titus.errors.AvroException()
-        if isinstance(y, dict) and len(y) == 1:
-            (ytag, y), = list(y.items())
-            ytypei, ytype = [(ti, t) for ti, t in enumerate(avroType.types) if t.name == ytag][0]
-        else:
-            ytypei = None
+        def branch(z):
+            if isinstance(z, dict) and len(z) == 1:
+                (tag, value), = list(z.items())
+                for ti, t in enumerate(avroType.types):
+                    if t.fullName == tag:
+                        return ti, t, value
             for ti, t in enumerate(avroType.types):
                 try:
-                    jsonEncoder(t, y)
+                    jsonEncoder(t, z)
                 except titus.errors.AvroException:
                     pass
                 else:
-                    ytypei = ti
-                    ytype = t
-            if ytypei is None:
-                raise titus.errors.AvroException()
+                    return ti, t, z
+            raise titus.errors.AvroException("{0} does not match schema {1}".format(json.dumps(z, default=repr), ts(avroType)))
+        xtypei, xtype, x = branch(x)
+        ytypei, ytype, y = branch(y)
         if xtypei == ytypei:
             return compare(xtype, x, y)
         else:
@@ -1301,7 +1292,7 @@ def checkData(data, avroType):
             tag, = list(data.keys())
             value, = list(data.values())
             for tpe in avroType.types:
-                if tpe.name == tag:
+                if tpe.fullName == tag:
                     if tag == "null":
                         return checkData(value, tpe)
                     else:
@@ -1317,7 +1308,7 @@ def checkData(data, avroType):
                 if tpe.name == "null":
                     return newData
                 else:
-                    return {tpe.name: newData}
+                    return {tpe.fullName: newData}
         raise TypeError("expecting {0}, found {1}".format(ts(avroType), data))
 
     return data
diff --git a/titus/genpy.py b/titus/genpy.py
index ce9397a..b2b82c0 100644
--- a/titus/genpy.py
+++ b/titus/genpy.py
@@ -431,7 +431,7 @@ class GeneratePython(titus.pfaast.Task):
             if isinstance(context.retType, titus.datatype.AvroUnion) and not isinstance(context.originalType, titus.datatype.AvroUnion):
                 for t in context.retType.types:
                     if t.accepts(context.originalType):
-                        return "wrapAsUnion({}, {})".format(context.expr, repr(t.name))
+                        return "wrapAsUnion({}, {})".format(context.expr, repr(t.fullName))
                 raise Exception   # type-checking should have prevented this
             else:
                 return context.expr
@@ -995,7 +995,7 @@ def cast(state, scope, expr, fromType, cases, partial, parser):
             tag, = list(expr.keys())
             value, = list(expr.values())
 
-            if not ((tag == toType.name) or \
+            if not ((tag == toType.fullName) or \
                     (tag == "int" and toType.name in ("long", "float", "double")) or \
                     (tag == "long" and toType.name in ("float", "double")) or \
                     (tag == "float" and toType.name == "double")):
-- 
2.43.0


From abb03ac1aed4d1badecf21d0282f6f45df70c828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:46 +0000
Subject: [PATCH 30/61] fix: cast cases of map type were taken for arrays

---
 titus/datatype.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/titus/datatype.py b/titus/datatype.py
index 479089f..19c8d19 100644
--- a/titus/datatype.py
+++ b/titus/datatype.py
@@ -807,7 +807,7 @@ class ForwardDeclarationParser(object):
             elif description.get("type") == "array" and "items" in description:
                 return AvroArray(self.getAvroType(description["items"]))
             elif description.get("type") == "map" and "values" in description:
-                return AvroArray(self.getAvroType(description["values"]))
+                return AvroMap(self.getAvroType(description["values"]))
             elif description.get("type") in ("fixed", "enum", "record"):
                 if self.names.has_name(description.get("name"), description.get("namespace")):
                     return schemaToAvroType(self.names.get_name(description.get("name"), description.get("namespace")))
-- 
2.43.0


From 62da049c5a31bfd65ed005225e1802522cbea2f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:40 +0000
Subject: [PATCH 31/61] fix: input data that does not fit its declared type was
 accepted

---
 titus/datatype.py | 42 ++++++++++++++----------------------------
 1 file changed, 14 insertions(+), 28 deletions(-)

diff --git a/titus/datatype.py b/titus/datatype.py
index 19c8d19..a6aa55b 100644
--- a/titus/datatype.py
+++ b/titus/datatype.py
@@ -1183,30 +1183,18 @@ def checkData(data, avroType):
         else:
             raise TypeError("expecting {0}, found {1}".format(ts(avroType), data))
 
-    elif isinstance(avroType, AvroInt):
+    elif isinstance(avroType, (AvroInt, AvroLong)):
         if isinstance(data, str):
             try:
                 data = int(data)
             except ValueError:
                 raise TypeError("expecting {0}, found {1}".format(ts(avroType), data))
-        elif isinstance(data, integerTypes):
+        elif isinstance(data, integerTypes) or (isinstance(data, int) and not isinstance(data, bool)):
             data = int(data)
-        elif isinstance(data, int):
-            return data
         else:
             raise TypeError("expecting {0}, found {1}".format(ts(avroType), data))
-
-    elif isinstance(avroType, AvroLong):
-        if isinstance(data, str):
-            try:
-                data = int(data)
-            except ValueError:
-                raise TypeError("expecting {0}, found {1}".format(ts(avroType), data))
-        elif isinstance(data, integerTypes):
-            data = int(data)
-        elif isinstance(data, int):
-            return data
-        else:
+        bits = 31 if isinstance(avroType, AvroInt) else 63
+        if not (-2**bits <= data < 2**bits):
             raise TypeError("expecting {0}, found {1}".format(ts(avroType), data))
 
     elif isinstance(avroType, AvroFloat):
@@ -1217,7 +1205,7 @@ def checkData(data, avroType):
                 raise TypeError("expecting {0}, found {1}".format(ts(avroType), data))
         elif isinstance(data, floatTypes):
             data = float(data)
-        elif isinstance(data, int):
+        elif isinstance(data, int) and not isinstance(data, bool):
             data = float(data)
         elif isinstance(data, float):
             return data
@@ -1232,7 +1220,7 @@ def checkData(data, avroType):
                 raise TypeError("expecting {0}, found {1}".format(ts(avroType), data))
         elif isinstance(data, floatTypes):
             return float(data)
-        elif isinstance(data, int):
+        elif isinstance(data, int) and not isinstance(data, bool):
             return float(data)
         elif isinstance(data, float):
             return data
@@ -1240,21 +1228,19 @@ def checkData(data, avroType):
             raise TypeError("expecting {0}, found {1}".format(ts(avroType), data))
 
     elif isinstance(avroType, (AvroBytes, AvroFixed)):
-        if isinstance(data, bytes):
-            return data
-        elif isinstance(data, str):
-            return stringToBytes(data)
-        else:
+        if isinstance(data, str):
+            data = stringToBytes(data)
+        if not isinstance(data, bytes) or (isinstance(avroType, AvroFixed) and len(data) != avroType.size):
             raise TypeError("expecting {0}, found {1}".format(ts(avroType), data))
 
     elif isinstance(avroType, (AvroString, AvroEnum)):
-        if isinstance(data, str):
-            return data
-        else:
+        if not isinstance(data, str):
             raise TypeError("expecting {0}, found {1}".format(ts(avroType), data))
+        if isinstance(avroType, AvroEnum) and data not in avroType.symbols:
+            raise titus.errors.AvroException("{0} does not match schema {1}".format(json.dumps(data), ts(avroType)))
 
     elif isinstance(avroType, AvroArray):
-        if hasattr(data, "__iter__"):
+        if hasattr(data, "__iter__") and not isinstance(data, (str, bytes, dict)):
             return [checkData(x, avroType.items) for x in data]
         else:
             raise TypeError("expecting {0}, found {1}".format(ts(avroType), data))
@@ -1302,7 +1288,7 @@ def checkData(data, avroType):
         for tpe in avroType.types:
             try:
                 newData = checkData(data, tpe)
-            except TypeError:
+            except (TypeError, titus.errors.AvroException):
                 pass
             else:
                 if tpe.name == "null":
-- 
2.43.0


From ad1bf60dfb4fca0973471c6bfe64f0a56b5d790e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:23 +0000
Subject: [PATCH 32/61] fix: a try whose body has type null could not be
 compiled

---
 titus/pfaast.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/titus/pfaast.py b/titus/pfaast.py
index f19e473..c63f9f7 100644
--- a/titus/pfaast.py
+++ b/titus/pfaast.py
@@ -6168,6 +6168,8 @@ class Try(Expression):
         if isinstance(exprType, ExceptionType):
             exprType = AvroNull()
             inferredType = AvroNull()
+        elif isinstance(exprType, AvroNull):
+            inferredType = exprType
         elif isinstance(exprType, AvroUnion):
             if AvroNull() in exprType.types:
                 inferredType = exprType
-- 
2.43.0


From 1b6090b52691db14e95316b73e261780e9eff183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:03 +0000
Subject: [PATCH 33/61] fix: a.mode failed on bytes and fixed values

---
 titus/lib/array.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/titus/lib/array.py b/titus/lib/array.py
index b2fbde9..3647982 100644
--- a/titus/lib/array.py
+++ b/titus/lib/array.py
@@ -777,7 +777,7 @@ class Mode(LibFcn):
             counter = {}
             lookup = {}
             for x in a:
-                xx = json.dumps(x)
+                xx = json.dumps(x, default=repr)
                 if xx not in counter:
                     counter[xx] = 0
                     lookup[xx] = x
-- 
2.43.0


From 5ed5e2ec28d60669dcf808a3f92fba6a6fb0c99b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:49 +0000
Subject: [PATCH 34/61] fix: bytes testers failed on bytes made by other
 functions and fromBase64 on wrong padding

---
 titus/lib/bytes.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/titus/lib/bytes.py b/titus/lib/bytes.py
index 92799e8..6c52dd8 100644
--- a/titus/lib/bytes.py
+++ b/titus/lib/bytes.py
@@ -18,6 +18,7 @@
 # limitations under the License.
 
 import base64
+import binascii
 import codecs
 import re
 
@@ -82,6 +83,8 @@ class Tester(LibFcn):
     codec = None
     def __call__(self, state, scope, pos, paramTypes, x):
         if paramTypes[0] == "bytes" or paramTypes[0] == {"type": "bytes"}:
+            if isinstance(x, str):
+                x = stringToBytes(x)
             try:
                 codecs.decode(x, self.codec, "strict")
             except UnicodeDecodeError:
@@ -251,6 +254,6 @@ class FromBase64(LibFcn):
                 raise TypeError
             out = base64.b64decode(s)
             return bytesToString(out)
-        except TypeError:
+        except (TypeError, binascii.Error):
             raise PFARuntimeException("invalid base64", self.errcodeBase + 0, self.name, pos)
 provide(FromBase64())
-- 
2.43.0


From e781bc4b4bc2a3173b4d8f87c56d9149bcdd392b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:30 +0000
Subject: [PATCH 35/61] fix: function types failed on other types and unions
 refused equal names in different namespaces

---
 titus/datatype.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/titus/datatype.py b/titus/datatype.py
index a6aa55b..cf743bd 100644
--- a/titus/datatype.py
+++ b/titus/datatype.py
@@ -50,7 +50,7 @@ class FcnType(Type):
         return self._ret
 
     def accepts(self, other):
-        if isinstance(self, FcnType):
+        if isinstance(other, FcnType):
             return len(self.params) == len(other.params) and \
                    all(y.accepts(x) for x, y in zip(self.params, other.params)) and \
                    self.ret.accepts(other.ret)
@@ -561,7 +561,7 @@ class AvroUnion(AvroType):
         :type types: list of titus.datatype.AvroType
         :param types: possible types for this union in the order of their resolution
         """
-        names = set([x.name for x in types])
+        names = set([x.fullName for x in types])
         if len(types) != len(names):
             raise titus.errors.AvroException("duplicate in union: " + ", ".join(map(ts, types)))
         if "union" in names:
-- 
2.43.0


From 8739b5a0ffb4988eb416858b6af61c647e27ebea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:37 +0000
Subject: [PATCH 36/61] fix: signatures matched enum and fixed wildcards
 against any type and functions of any arity

---
 titus/signature.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/titus/signature.py b/titus/signature.py
index 41f62e0..cbdea84 100644
--- a/titus/signature.py
+++ b/titus/signature.py
@@ -517,7 +517,8 @@ class Sig(Signature):
                     return False
 
         elif isinstance(pat, P.Fcn) and isinstance(arg, FcnType):
-            return all(self.check(p, a, labelData, strict, True) for p, a in zip(pat.params, arg.params)) and \
+            return len(pat.params) == len(arg.params) and \
+                   all(self.check(p, a, labelData, strict, True) for p, a in zip(pat.params, arg.params)) and \
                    self.check(pat.ret, arg.ret, labelData, strict, False)
 
         elif isinstance(pat, P.Wildcard):
@@ -541,13 +542,13 @@ class Sig(Signature):
             else:
                 return False
 
-        elif isinstance(pat, P.WildEnum):
+        elif isinstance(pat, P.WildEnum) and isinstance(arg, AvroEnum):
             if not pat.label in labelData:
                 labelData[pat.label] = LabelData()
             labelData[pat.label].add(arg)
             return True
 
-        elif isinstance(pat, P.WildFixed):
+        elif isinstance(pat, P.WildFixed) and isinstance(arg, AvroFixed):
             if not pat.label in labelData:
                 labelData[pat.label] = LabelData()
             labelData[pat.label].add(arg)
@@ -750,7 +751,7 @@ def toText(p, alreadyLabeled=None):
         return p.label
     elif isinstance(p, P.Wildcard):
         alreadyLabeled.add(p.label)
-        if len(p.oneOf) == 0:
+        if not p.oneOf:
             return "any " + p.label
         else:
             return "any " + p.label + " of {" + ", ".join(toTextType(x) for x in p.oneOf) + "}"
@@ -762,7 +763,7 @@ def toText(p, alreadyLabeled=None):
         return "any fixed " + p.label
     elif isinstance(p, P.WildRecord):
         alreadyLabeled.add(p.label)
-        return "any record " + p.label + ("" if len(p.minimalFields) == 0 else " with fields {" + ", ".join(n + ": " + toText(f, alreadyLabeled) for n, f in list(p.minimalFields.items())) + "}")
+        return "any record " + p.label + ("" if not p.minimalFields else " with fields {" + ", ".join(n + ": " + toText(f, alreadyLabeled) for n, f in list(p.minimalFields.items())) + "}")
     elif isinstance(p, P.EnumFields):
         alreadyLabeled.add(p.label)
         return "enum " + p.label + " of fields of " + p.wildRecord
-- 
2.43.0


From 4ebbb4791b24d59cf34621d0be8f36c17799c574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:25 +0000
Subject: [PATCH 37/61] fix: resolving a call failed on types that have no
 common type

---
 titus/signature.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/titus/signature.py b/titus/signature.py
index cbdea84..fca8e38 100644
--- a/titus/signature.py
+++ b/titus/signature.py
@@ -268,16 +268,26 @@ class LabelData(object):
 
             countFixed = 0
             countEnum = 0
+            countArray = 0
+            countMap = 0
             for t in types:
                 if isinstance(t, AvroFixed):
                     countFixed += 1
                 if isinstance(t, AvroEnum):
                     countEnum += 1
+                if isinstance(t, AvroArray):
+                    countArray += 1
+                if isinstance(t, AvroMap):
+                    countMap += 1
 
             if countFixed > 1:
                 raise IncompatibleTypes("incompatible fixed types")
             if countEnum > 1:
                 raise IncompatibleTypes("incompatible enum types")
+            if countArray > 1:
+                raise IncompatibleTypes("incompatible array types")
+            if countMap > 1:
+                raise IncompatibleTypes("incompatible map types")
 
             return AvroUnion(types)
 
-- 
2.43.0


From d59d3ea35dc7f06cfe2528403a52bc496e87d412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:03 +0000
Subject: [PATCH 38/61] fix: failed attempts to match a union influenced the
 types of a call

---
 titus/signature.py | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/titus/signature.py b/titus/signature.py
index fca8e38..6c40866 100644
--- a/titus/signature.py
+++ b/titus/signature.py
@@ -456,8 +456,7 @@ class Sig(Signature):
             return self.check(pat.values, arg.values, labelData, strict, reversed)
         elif isinstance(pat, P.Union) and isinstance(arg, AvroUnion):
             found = False
-            originalLabelData = dict(labelData)
-            labelData2 = dict(labelData)
+            labelData2 = self.copyLabels(labelData)
             atypesPermutations = itertools.permutations(arg.types)
 
             atypesPermutations_isEmpty = False
@@ -472,7 +471,7 @@ class Sig(Signature):
                     for a in nextPermutation:
                         foundone = False
                         for i, p in list(available.items()):
-                            if self.check(p, a, labelData2, True, reversed):
+                            if self.attempt(p, a, labelData2, True, reversed):
                                 del available[i]
                                 foundone = True
                                 break
@@ -485,13 +484,13 @@ class Sig(Signature):
                         found = True
 
                     if not found:
-                        labelData2 = dict(originalLabelData)
+                        labelData2 = self.copyLabels(labelData)
 
             labelData.update(labelData2)
             return found
             
         elif isinstance(pat, P.Union) and isinstance(arg, AvroType):
-            return any(self.check(p, arg, labelData, strict, reversed) for p in pat.types)
+            return any(self.attempt(p, arg, labelData, strict, reversed) for p in pat.types)
 
         elif isinstance(pat, P.Fixed) and isinstance(arg, AvroFixed):
             if pat.fullName is not None:
@@ -574,6 +573,24 @@ class Sig(Signature):
         else:
             return False
 
+    def copyLabels(self, labelData):
+        """Copy label associations so that a match can be tried without consequences."""
+        out = {}
+        for label, data in list(labelData.items()):
+            out[label] = LabelData()
+            out[label].members = list(data.members)
+            out[label].expectedFields = data.expectedFields
+        return out
+
+    def attempt(self, pat, arg, labelData, strict, reversed):
+        """Like ``check``, but leaves ``labelData`` as it was if ``arg`` does not match ``pat``."""
+        trial = self.copyLabels(labelData)
+        if self.check(pat, arg, trial, strict, reversed):
+            labelData.update(trial)
+            return True
+        else:
+            return False
+
     def assign(self, pat, arg, assignments):
         """Apply the label assignments (e.g. "A" matched to "int", "B" matched to "string", etc.) to each parameter of the signature.
 
-- 
2.43.0


From e278282b2ce92a73e33601c3009f731cd995e9b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:28 +0000
Subject: [PATCH 39/61] fix: functions passed to number-only parameters raised
 TypeError

---
 titus/datatype.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/titus/datatype.py b/titus/datatype.py
index cf743bd..52b8515 100644
--- a/titus/datatype.py
+++ b/titus/datatype.py
@@ -63,6 +63,9 @@ class FcnType(Type):
         else:
             return False
 
+    def __hash__(self):
+        return hash((tuple(self.params), self.ret))
+
     def __repr__(self):
         return '{{"type": "function", "params": [{params}], "ret": {ret}}}'.format(
             params=",".join(repr(x) for x in self.params),
-- 
2.43.0


From 7ecdcc77bbc9a477ee154a3dc496d47f7b04e874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:10 +0000
Subject: [PATCH 40/61] fix: union values tagged with a narrower number type
 did not match the wider union

---
 titus/datatype.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/titus/datatype.py b/titus/datatype.py
index 52b8515..d760525 100644
--- a/titus/datatype.py
+++ b/titus/datatype.py
@@ -1023,6 +1023,8 @@ def jsonEncoder(avroType, value, tagged=True):
                     return {t.fullName: out}
                 else:
                     return out
+        if isinstance(value, dict) and len(value) == 1 and tag in ("int", "long", "float"):
+            return jsonEncoder(avroType, val, tagged)    # a narrower number in a union that has only the wider type
     raise titus.errors.AvroException("{0} does not match schema {1}".format(json.dumps(value, default=repr), ts(avroType)))
 
 def compare(avroType, x, y):
@@ -1122,6 +1124,8 @@ def compare(avroType, x, y):
                     pass
                 else:
                     return ti, t, z
+            if isinstance(z, dict) and len(z) == 1 and tag in ("int", "long", "float"):
+                return branch(value)    # a narrower number in a union that has only the wider type
             raise titus.errors.AvroException("{0} does not match schema {1}".format(json.dumps(z, default=repr), ts(avroType)))
         xtypei, xtype, x = branch(x)
         ytypei, ytype, y = branch(y)
-- 
2.43.0


From 846fbbbbace2faaefcbc031418a5b05c6f03f529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:25 +0000
Subject: [PATCH 41/61] fix: embedded bytes and fixed values with characters
 that are not bytes were accepted

---
 titus/datatype.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/titus/datatype.py b/titus/datatype.py
index d760525..09e8952 100644
--- a/titus/datatype.py
+++ b/titus/datatype.py
@@ -905,10 +905,10 @@ def jsonDecoder(avroType, value):
         if isinstance(value, (int, float)) and not isinstance(value, bool):
             return float(value)
     elif isinstance(avroType, AvroBytes):
-        if isinstance(value, str):
+        if isinstance(value, str) and all(ord(x) < 256 for x in value):
             return value
     elif isinstance(avroType, AvroFixed):
-        if isinstance(value, str):
+        if isinstance(value, str) and all(ord(x) < 256 for x in value):
             if len(value) == avroType.size:
                 return value
     elif isinstance(avroType, AvroString):
-- 
2.43.0


From 86823d7ba7f357d24be8e0d9279b681ebc7cb95e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:06 +0000
Subject: [PATCH 42/61] fix: an embedded null written with its tag was not
 decoded as null

---
 titus/datatype.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/titus/datatype.py b/titus/datatype.py
index 09e8952..4454bfa 100644
--- a/titus/datatype.py
+++ b/titus/datatype.py
@@ -941,7 +941,9 @@ def jsonDecoder(avroType, value):
             tag, = list(value.keys())
             val, = list(value.values())
             types = dict((x.fullName, x) for x in avroType.types)
-            if tag in types:
+            if tag == "null" and tag in types:
+                return jsonDecoder(types[tag], val)
+            elif tag in types:
                 return {tag: jsonDecoder(types[tag], val)}
         elif value is None and "null" in [x.name for x in avroType.types]:
             return None
-- 
2.43.0


From ae5653abd680dc74e7f9225481cfdd759cad8376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:50 +0000
Subject: [PATCH 43/61] fix: empty lists and strings were accepted as maps in
 input data

---
 titus/datatype.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/titus/datatype.py b/titus/datatype.py
index 4454bfa..2466d0d 100644
--- a/titus/datatype.py
+++ b/titus/datatype.py
@@ -1255,7 +1255,7 @@ def checkData(data, avroType):
             raise TypeError("expecting {0}, found {1}".format(ts(avroType), data))
 
     elif isinstance(avroType, AvroMap):
-        if hasattr(data, "__iter__") and hasattr(data, "__getitem__"):
+        if hasattr(data, "__iter__") and hasattr(data, "__getitem__") and not isinstance(data, (str, bytes, list, tuple)):
             newData = {}
             for key in data:
                 value = checkData(data[key], avroType.values)
-- 
2.43.0


From 117d5092b72847e4cad775152c5166e656f63fe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:39 +0000
Subject: [PATCH 44/61] fix: fill arguments of functions that update cells and
 pools were not checked for deadlock

---
 titus/genpy.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/titus/genpy.py b/titus/genpy.py
index b2b82c0..f380136 100644
--- a/titus/genpy.py
+++ b/titus/genpy.py
@@ -1379,6 +1379,15 @@ def checkForDeadlock(engineConfig, engine):
                 x.collect(SideEffectFunction())
     engineConfig.collect(WithFcnDef())
 
+    class WithFcnRefFill(object):
+        def isDefinedAt(self, ast):
+            return isinstance(ast, (CellTo, PoolTo)) and isinstance(ast.to, FcnRefFill)
+        def __call__(self, slotTo):
+            for x in slotTo.to.fill.values():   # evaluated every time the updator is called
+                x.collect(CellToOrPoolTo())
+                x.collect(SideEffectFunction())
+    engineConfig.collect(WithFcnRefFill())
+
 class PFAEngine(object):
     """Base class for a Titus scoring engine.
 
-- 
2.43.0


From 30cbc9706af492135e49fa8ed2c1dfdfe38c4bcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:24 +0000
Subject: [PATCH 45/61] fix: malformed JSON structures crashed the reader
 instead of being syntax errors

---
 titus/reader.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/titus/reader.py b/titus/reader.py
index ad662b8..a4ecfce 100644
--- a/titus/reader.py
+++ b/titus/reader.py
@@ -292,11 +292,10 @@ def _stripAtSigns(data):
         return data
 
 def _readEngineConfig(data, avroTypeBuilder):
-    at = data.get("@")
-
     if not isinstance(data, dict):
-        raise PFASyntaxException("PFA engine must be a JSON object, not " + _trunc(repr(data)), at)
+        raise PFASyntaxException("PFA engine must be a JSON object, not " + _trunc(repr(data)), None)
 
+    at = data.get("@")
     keys = set(x for x in list(data.keys()) if x != "@")
 
     _method = Method.MAP
@@ -532,6 +531,8 @@ def _readCastCase(data, dot, avroTypeBuilder):
                     _body = [_readExpression(data[key], dot + " -> " + key, avroTypeBuilder)]
             else:
                 raise PFASyntaxException("unexpected field in cast-case: {0}".format(key), pos(dot, at))
+    else:
+        raise PFASyntaxException("expected cast-case, not " + _trunc(repr(data)), dot)
 
     if "named" in keys and not validSymbolName(_named):
         raise PFASyntaxException("\"{0}\" is not a valid symbol name".format(_named), pos(dot, at))
@@ -818,7 +819,7 @@ def _readFcnDefMap(data, dot, avroTypeBuilder):
                 raise PFASyntaxException("\"{0}\" is not a valid function name".format(k), pos(dot, at))
         return dict((k, _readFcnDef(v, dot + " -> " + k, avroTypeBuilder)) for k, v in list(data.items()) if k != "@")
     else:
-        raise PFASyntaxException("expected map of function definitions, not " + _trunc(repr(data)), pos(dot, at))
+        raise PFASyntaxException("expected map of function definitions, not " + _trunc(repr(data)), dot)
 
 def _readFcnDef(data, dot, avroTypeBuilder):
     if isinstance(data, dict):
@@ -842,7 +843,7 @@ def _readFcnDef(data, dot, avroTypeBuilder):
         else:
             return FcnDef(_params, _ret, _body, pos(dot, at))
     else:
-        raise PFASyntaxException("expected function definition, not " + _trunc(repr(data)), pos(dot, at))
+        raise PFASyntaxException("expected function definition, not " + _trunc(repr(data)), dot)
 
 def _readParams(data, dot, avroTypeBuilder):
     if isinstance(data, (list, tuple)):
@@ -858,12 +859,12 @@ def _readParam(data, dot, avroTypeBuilder):
             raise PFASyntaxException("function parameter name-type map should have only one pair", pos(dot, at))
         n = list(keys)[0]
         if not validSymbolName(n):
-            raise PFASyntaxException("\"{0}\" is not a valid symbol name".format(n))
+            raise PFASyntaxException("\"{0}\" is not a valid symbol name".format(n), pos(dot, at))
 
         t = _readAvroPlaceholder(data[n], dot + " -> " + n, avroTypeBuilder)
         return {n: t}
     else:
-        raise PFASyntaxException("expected function parameter name-type singleton map, not " + _trunc(repr(data)), pos(dot, at))
+        raise PFASyntaxException("expected function parameter name-type singleton map, not " + _trunc(repr(data)), dot)
 
 def _readCells(data, dot, avroTypeBuilder):
     if isinstance(data, dict):
@@ -873,7 +874,7 @@ def _readCells(data, dot, avroTypeBuilder):
                 raise PFASyntaxException("\"{0}\" is not a valid symbol name".format(k), pos(dot, at))
         return dict((k, _readCell(data[k], dot, avroTypeBuilder)) for k, v in list(data.items()) if k != "@")
     else:
-        raise PFASyntaxException("expected map of cells, not " + _trunc(repr(data)), pos(dot, at))
+        raise PFASyntaxException("expected map of cells, not " + _trunc(repr(data)), dot)
 
 def _readCell(data, dot, avroTypeBuilder):
     if isinstance(data, dict):
@@ -1010,4 +1011,4 @@ def _readPool(data, dot, avroTypeBuilder):
 
             return Pool(_avroType, _init, _shared, _rollback, _source, pos(dot, at))
     else:
-        raise PFASyntaxException("expected pool, not " + _trunc(repr(data)), pos(dot, at))
+        raise PFASyntaxException("expected pool, not " + _trunc(repr(data)), dot)
-- 
2.43.0


From cdbae0c035248083a31758efeb567bb1a98db1ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:19 +0000
Subject: [PATCH 46/61] fix: invalid names in foreach, forkey, forval and fcn
 crashed the reader

---
 titus/reader.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/titus/reader.py b/titus/reader.py
index a4ecfce..4362427 100644
--- a/titus/reader.py
+++ b/titus/reader.py
@@ -725,13 +725,13 @@ def _readArgument(data, dot, avroTypeBuilder):
                     _callArgs = [_readArgument(data[key], dot + " -> " + key, avroTypeBuilder)]
 
         if "foreach" in keys and not validSymbolName(_foreach):
-            raise PFASyntaxException("\"{0}\" is not a valid symbol name".format(data[keys]), pos(dot, at))
+            raise PFASyntaxException("\"{0}\" is not a valid symbol name".format(_foreach), pos(dot, at))
         if "forkey" in keys and not validSymbolName(_forkey):
-            raise PFASyntaxException("\"{0}\" is not a valid symbol name".format(data[keys]), pos(dot, at))
+            raise PFASyntaxException("\"{0}\" is not a valid symbol name".format(_forkey), pos(dot, at))
         if "forval" in keys and not validSymbolName(_forval):
-            raise PFASyntaxException("\"{0}\" is not a valid symbol name".format(data[keys]), pos(dot, at))
+            raise PFASyntaxException("\"{0}\" is not a valid symbol name".format(_forval), pos(dot, at))
         if "fcn" in keys and not validFunctionName(_fcnref):
-            raise PFASyntaxException("\"{0}\" is not a valid function name".format(data[keys]), pos(dot, at))
+            raise PFASyntaxException("\"{0}\" is not a valid function name".format(_fcnref), pos(dot, at))
 
         if keys == set(["int"]):                             return LiteralInt(_int, pos(dot, at))
         elif keys == set(["long"]):                          return LiteralLong(_long, pos(dot, at))
-- 
2.43.0


From 613577ed98dbfcc47d8addb8e074e87c2f08f032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:07 +0000
Subject: [PATCH 47/61] fix: cond clauses that are not if expressions crashed
 the reader

---
 titus/reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/titus/reader.py b/titus/reader.py
index 4362427..f0bbe28 100644
--- a/titus/reader.py
+++ b/titus/reader.py
@@ -670,7 +670,7 @@ def _readArgument(data, dot, avroTypeBuilder):
 
             elif key == "cond":
                 _cond = _readExpressionArray(data[key], dot + " -> " + key, avroTypeBuilder)
-                if any(x.elseClause is not None for x in _cond):
+                if not all(isinstance(x, If) and x.elseClause is None for x in _cond):
                     raise PFASyntaxException("cond expression must only contain else-less if expressions", pos(dot, at))
 
             elif key == "cases": _cases = _readCastCaseArray(data[key], dot + " -> " + key, avroTypeBuilder)
-- 
2.43.0


From f6bb6484a0cc1736cb15b657c32b80889dbc7b9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:57 +0000
Subject: [PATCH 48/61] fix: a lone del field crashed the reader instead of
 being an unrecognized form

---
 titus/reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/titus/reader.py b/titus/reader.py
index f0bbe28..24bebaa 100644
--- a/titus/reader.py
+++ b/titus/reader.py
@@ -800,7 +800,7 @@ def _readArgument(data, dot, avroTypeBuilder):
         elif keys == set(["call", "args"]):                  return CallUserFcn(_callwith, _callwithargs, pos(dot, at))
 
         elif len(keys) == 1 and list(keys)[0] not in \
-             set(["args", "as", "attr", "base64", "call", "cases", "cast", "cell", "code", "cond", "do", "doc", "double", "else",
+             set(["args", "as", "attr", "base64", "call", "cases", "cast", "cell", "code", "cond", "del", "do", "doc", "double", "else",
                   "error", "fcn", "fill", "filter", "float", "for", "foreach", "forkey", "format", "forval", "if", "ifnotnull", "in", "init",
                   "int", "let", "log", "long", "namespace", "new", "pack", "params", "partial", "path", "pool", "ret", "seq",
                   "set", "step", "string", "then", "to", "try", "type", "unpack", "until", "upcast", "value", "while"]):
-- 
2.43.0


From d2dbf3437f4b292fdcce72f4b5b06e83ee933a5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:43 +0000
Subject: [PATCH 49/61] fix: a pack that is not an array of pairs was not
 refused by the reader

---
 titus/reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/titus/reader.py b/titus/reader.py
index 24bebaa..cdaea52 100644
--- a/titus/reader.py
+++ b/titus/reader.py
@@ -439,7 +439,7 @@ def _readStringExpressionPairs(data, dot, avroTypeBuilder):
             out.extend(list(pair.items()))
         return out
     else:
-        return PFASyntaxException("expected array of {string: expression} pairs, found " + _trunc(repr(data)), dot)
+        raise PFASyntaxException("expected array of {string: expression} pairs, found " + _trunc(repr(data)), dot)
 
 def _readStringPairs(data, dot):
     if isinstance(data, (list, tuple)):
-- 
2.43.0


From 10c68426e884c299a830dbf2558c32582ef0183a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:29 +0000
Subject: [PATCH 50/61] fix: booleans were read as numbers in number literals,
 error codes, filters, versions and seeds

---
 titus/reader.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/titus/reader.py b/titus/reader.py
index cdaea52..0b86a98 100644
--- a/titus/reader.py
+++ b/titus/reader.py
@@ -396,7 +396,7 @@ def _readBoolean(data, dot):
         raise PFASyntaxException("expected boolean, not " + _trunc(repr(data)), dot)
 
 def _readInt(data, dot):
-    if isinstance(data, int):
+    if isinstance(data, int) and not isinstance(data, bool):
         if -2147483648 <= data <= 2147483647:
             return data
         else:
@@ -405,7 +405,7 @@ def _readInt(data, dot):
         raise PFASyntaxException("expected int, not " + _trunc(repr(data)), dot)
 
 def _readLong(data, dot):
-    if isinstance(data, int):
+    if isinstance(data, int) and not isinstance(data, bool):
         if -9223372036854775808 <= data <= 9223372036854775807:
             return data
         else:
@@ -414,13 +414,13 @@ def _readLong(data, dot):
         raise PFASyntaxException("expected long, not " + _trunc(repr(data)), dot)
 
 def _readFloat(data, dot):
-    if isinstance(data, (int, float)):
+    if isinstance(data, (int, float)) and not isinstance(data, bool):
         return float(data)
     else:
         raise PFASyntaxException("expected float, not " + _trunc(repr(data)), dot)
 
 def _readDouble(data, dot):
-    if isinstance(data, (int, float)):
+    if isinstance(data, (int, float)) and not isinstance(data, bool):
         return float(data)
     else:
         raise PFASyntaxException("expected double, not " + _trunc(repr(data)), dot)
@@ -486,7 +486,7 @@ def _readString(data, dot):
         raise PFASyntaxException("expected string, not " + _trunc(repr(data)), dot)
 
 def _readStringOrInt(data, dot):
-    if isinstance(data, (str, int)):
+    if isinstance(data, (str, int)) and not isinstance(data, bool):
         return data
     else:
         raise PFASyntaxException("expected string or int, not " + _trunc(repr(data)), dot)
-- 
2.43.0


From eff5735530699357bce2cce041d1f33048768ce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:12 +0000
Subject: [PATCH 51/61] fix: invalid base64 literals crashed the reader

---
 titus/reader.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/titus/reader.py b/titus/reader.py
index 0b86a98..cfa8e22 100644
--- a/titus/reader.py
+++ b/titus/reader.py
@@ -493,7 +493,10 @@ def _readStringOrInt(data, dot):
 
 def _readBase64(data, dot):
     if isinstance(data, str):
-        return bytesToString(base64.b64decode(data))
+        try:
+            return bytesToString(base64.b64decode(data))
+        except ValueError as err:
+            raise PFASyntaxException("expected base64 data, not {0} ({1})".format(_trunc(repr(data)), str(err)), dot)
     else:
         raise PFASyntaxException("expected base64 data, not " + _trunc(repr(data)), dot)
 
-- 
2.43.0


From c9cd686d25043d7a36380c24c89236215bf5bff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:10 +0000
Subject: [PATCH 52/61] fix: an empty try crashed the compiler instead of being
 a syntax error

---
 titus/pfaast.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/titus/pfaast.py b/titus/pfaast.py
index c63f9f7..a48e330 100644
--- a/titus/pfaast.py
+++ b/titus/pfaast.py
@@ -6110,6 +6110,9 @@ class Try(Expression):
         if not isinstance(exprs, (list, tuple)) or not all(isinstance(x, Expression) for x in exprs):
             raise PFASyntaxException("\"exprs\" must be a list of Expressions", pos)
 
+        if len(exprs) < 1:
+            raise PFASyntaxException("\"try\" must contain at least one expression", pos)
+
         if (not isinstance(filter, (list, tuple)) or not all(isinstance(x, (str, int)) for x in filter)) and not filter is None:
             raise PFASyntaxException("\"filter\" must be a list of strings and integers or None", pos)
 
-- 
2.43.0


From bc64ecd1cb0fa736d79dfe128232b4005437b2b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:44 +0000
Subject: [PATCH 53/61] fix: engine names that are not Python identifiers could
 not be compiled

---
 titus/genpy.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/titus/genpy.py b/titus/genpy.py
index f380136..82717e1 100644
--- a/titus/genpy.py
+++ b/titus/genpy.py
@@ -20,6 +20,7 @@
 import base64
 import json
 import math
+import re
 import threading
 import time
 import random
@@ -180,7 +181,7 @@ class GeneratePython(titus.pfaast.Task):
             for fname, fctx in context.fcns:
                 callGraph[fname] = fctx.calls
 
-            out = ["class PFA_" + name + """(PFAEngine):
+            out = ["class PFA_" + re.sub("[^A-Za-z0-9_]", "_", name) + """(PFAEngine):
     def __init__(self, cells, pools, config, options, log, emit, zero, instance, rand):
         self.actionsStarted = 0
         self.actionsFinished = 0
-- 
2.43.0


From f4c2d24f600e22d794b6af735e014d6aae2b2741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:25 +0000
Subject: [PATCH 54/61] fix: names ending in a line break were valid

---
 titus/pfaast.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/titus/pfaast.py b/titus/pfaast.py
index a48e330..82036ea 100644
--- a/titus/pfaast.py
+++ b/titus/pfaast.py
@@ -112,7 +112,7 @@ def validSymbolName(test):
     :rtype: bool
     :return: ``True`` if valid; ``False`` otherwise
     """
-    return re.match("^[A-Za-z_][A-Za-z0-9_]*$", test) is not None
+    return re.match("^[A-Za-z_][A-Za-z0-9_]*\\Z", test) is not None
 
 class SymbolTable(object):
     """Represents the symbols (variables) and their data types in a lexical scope."""
@@ -311,7 +311,7 @@ def validFunctionName(test):
     :rtype: bool
     :return: ``True`` if valid; ``False`` otherwise
     """
-    return re.match("^[A-Za-z_]([A-Za-z0-9_]|\\.[A-Za-z][A-Za-z0-9_]*)*$", test) is not None
+    return re.match("^[A-Za-z_]([A-Za-z0-9_]|\\.[A-Za-z][A-Za-z0-9_]*)*\\Z", test) is not None
 
 class UserFcn(Fcn):
     """Represents a user-defined function."""
-- 
2.43.0


From fffe22dafa5d6342910afa11dfd18d71e1ada4b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:05 +0000
Subject: [PATCH 55/61] fix: a schema whose type is an object or array crashed
 the type parser

---
 titus/datatype.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/titus/datatype.py b/titus/datatype.py
index 2466d0d..c6e98d2 100644
--- a/titus/datatype.py
+++ b/titus/datatype.py
@@ -737,7 +737,7 @@ class ForwardDeclarationParser(object):
 
                         try:
                             gotit = avro.schema.SchemaFromJSONData(obj, self.names)
-                        except avro.schema.SchemaParseException as err:
+                        except (avro.schema.SchemaParseException, TypeError) as err:    # the parser hashes whatever stands in place of a type's kind
                             self.names = avro.schema.Names(names = oldnames)
                             errorMessages[jsonString] = str(err)
                         else:
-- 
2.43.0


From 2e309440f835cc73e0b469aa69e9b2a01a0eddbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:42 +0000
Subject: [PATCH 56/61] fix: names like inf and nan in YAML were read as
 numbers

---
 titus/reader.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/titus/reader.py b/titus/reader.py
index cfa8e22..610982d 100644
--- a/titus/reader.py
+++ b/titus/reader.py
@@ -136,6 +136,8 @@ def yamlToAst(yamlInput):
                         return False
                     elif event.value in ("null", "Null", "NULL"):
                         return None
+                    elif event.value.lstrip("+-").lower() in ("nan", "inf", "infinity"):
+                        return event.value    # names, which float() would accept
                     else:
                         try:
                             return int(event.value)
-- 
2.43.0


From af6176c3c78fbeaf238598236fd920e7a2e5afa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:02 +0000
Subject: [PATCH 57/61] fix: a reference to emit can be passed as a function
 argument

---
 titus/genpy.py  | 3 +++
 titus/pfaast.py | 1 +
 2 files changed, 4 insertions(+)

diff --git a/titus/genpy.py b/titus/genpy.py
index 82717e1..a2f62c5 100644
--- a/titus/genpy.py
+++ b/titus/genpy.py
@@ -1336,6 +1336,9 @@ class FakeEmitForExecution(titus.fcn.Fcn):
     def __init__(self, engine):
         self.engine = engine
 
+    def __call__(self, state, scope, pos, paramTypes, x):
+        return self.engine.emit(x)
+
 def genericEmit(x):
     """Generic emit function for use in PFAEngine.emit.
 
diff --git a/titus/pfaast.py b/titus/pfaast.py
index 82036ea..72dca66 100644
--- a/titus/pfaast.py
+++ b/titus/pfaast.py
@@ -349,6 +349,7 @@ class EmitFcn(Fcn):
         """:type outputType: titus.datatype.AvroType
         :param outputType: output type of the PFA document, which is also the signature of the ``emit`` function
         """
+        self.name = "emit"
         self.sig = Sig([{"output": P.fromType(outputType)}], P.Null())
 
     def genpy(self, paramTypes, args, pos=None):
-- 
2.43.0


From 3056820eafe1eeed624a51f8e31b3e37343b5a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:02 +0000
Subject: [PATCH 58/61] fix: chain.engine passes its arguments to the engine
 factory in order

---
 titus/producer/chain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/titus/producer/chain.py b/titus/producer/chain.py
index 9fc1ac0..b9ac7a2 100644
--- a/titus/producer/chain.py
+++ b/titus/producer/chain.py
@@ -166,7 +166,7 @@ def engine(pfas, name=None, randseed=None, doc=None, version=None, metadata={},
     :rtype: titus.genpy.EngineConfig
     :return: a PFA document representing the chained workflow
     """
-    return PFAEngine.fromAst(ast(pfas, False, name, randseed, doc, version, metadata, options, tryYaml, verbose), options, sharedState, multiplicity, style, debug)
+    return PFAEngine.fromAst(ast(pfas, False, name, randseed, doc, version, metadata, options, tryYaml, verbose), None, None, sharedState, multiplicity, style, debug)
 
 def ast(pfas, check=True, name=None, randseed=None, doc=None, version=None, metadata={}, options={}, tryYaml=False, verbose=False):
     """Create a single PFA from a chained workflow, returning the result as an abstract syntax tree.
-- 
2.43.0


From 76928195cbd1494b7e9be268d733e4d8ae2583a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:02 +0000
Subject: [PATCH 59/61] fix: chained documents keep the types, data, scopes,
 pools and functions of every step apart

---
 titus/producer/chain.py | 140 ++++++++++++++++++++++++++--------------
 1 file changed, 90 insertions(+), 50 deletions(-)

diff --git a/titus/producer/chain.py b/titus/producer/chain.py
index b9ac7a2..413d137 100644
--- a/titus/producer/chain.py
+++ b/titus/producer/chain.py
@@ -46,8 +46,6 @@ from titus.datatype import AvroRecord
 from titus.datatype import AvroUnion
 from titus.datatype import AvroField
 from titus.datatype import AvroTypeBuilder
-from titus.datatype import jsonDecoder
-from titus.datatype import jsonEncoder
 
 from titus.pfaast import Method
 from titus.pfaast import EngineConfig
@@ -69,6 +67,7 @@ from titus.pfaast import CellGet
 from titus.pfaast import CellTo
 from titus.pfaast import PoolGet
 from titus.pfaast import PoolTo
+from titus.pfaast import PoolDel
 from titus.pfaast import CastCase
 from titus.pfaast import Upcast
 
@@ -319,20 +318,18 @@ def ast(pfas, check=True, name=None, randseed=None, doc=None, version=None, meta
         elif isinstance(first, AvroMap) and isinstance(second, AvroMap):
             return chainPair(i, first.values, second.values, memo)
         elif isinstance(first, AvroRecord) and isinstance(second, AvroRecord):
-            if first.fullName not in memo:
-                memo.add(first.fullName)
-                if len(first.fields) != len(second.fields):
-                    return False
-                for f1, f2 in zip(first.fields, second.fields):
-                    if f1.name != f2.name:
-                        return False
-                    elif not chainPair(i, f1.avroType, f2.avroType, memo):
-                        return False
-                originalNameToNewName[i + 1][second.fullName] = originalNameToNewName[i][first.fullName]
+            if (first.fullName, second.fullName) in memo:
                 return True
+            memo.add((first.fullName, second.fullName))
+            if len(first.fields) != len(second.fields) or \
+               not all(f1.name == f2.name and chainPair(i, f1.avroType, f2.avroType, memo) for f1, f2 in zip(first.fields, second.fields)):
+                memo.discard((first.fullName, second.fullName))
+                return False
+            originalNameToNewName[i + 1][second.fullName] = originalNameToNewName[i][first.fullName]
+            return True
         elif isinstance(first, AvroUnion) and isinstance(second, AvroUnion):
-            for yt in second.types:
-                if not any(chainPair(i, xt, yt, memo) for xt in first.types):
+            for xt in first.types:
+                if not any(chainPair(i, xt, yt, memo) for yt in second.types):
                     return False
             return True
         else:
@@ -343,37 +340,86 @@ def ast(pfas, check=True, name=None, randseed=None, doc=None, version=None, meta
         if not chainPair(i, first, second, set()):
             raise PFAChainError("output of engine {0}: {1} not compatible with input of engine {2}: {3}".format(i + 1, ts(first), i + 2, ts(second)))
 
-    def rename(i, avroType, memo):
+    # each (new) type name is defined once and referred to by name everywhere else
+    definitions = {}
+    def alreadyDefined(newName, avroType, content):
+        definition = (avroType.__class__, content)
+        if newName not in definitions:
+            definitions[newName] = definition
+            return False
+        elif definitions[newName] == definition:
+            return True
+        else:
+            raise PFAChainError("type name \"{0}\" would refer to different types in the chained engine, one of which is {1}".format(newName, ts(avroType)))
+
+    def reference(i, avroType):
         if isinstance(avroType, AvroArray):
-            return {"type": "array", "items": rename(i, avroType.items, memo)}
+            return {"type": "array", "items": reference(i, avroType.items)}
         elif isinstance(avroType, AvroMap):
-            return {"type": "map", "values": rename(i, avroType.values, memo)}
+            return {"type": "map", "values": reference(i, avroType.values)}
         elif isinstance(avroType, AvroUnion):
-            return [rename(i, t, memo) for t in avroType.types]
+            return [reference(i, t) for t in avroType.types]
+        elif isinstance(avroType, (AvroFixed, AvroEnum, AvroRecord)):
+            return originalNameToNewName[i][avroType.fullName]
+        else:
+            return avroType.name
+
+    # embedded data identify union members by type name, so they have to be renamed, too
+    def renameData(i, avroType, value):
+        if isinstance(avroType, AvroArray) and isinstance(value, (list, tuple)):
+            return [renameData(i, avroType.items, x) for x in value]
+        elif isinstance(avroType, AvroMap) and isinstance(value, dict):
+            return dict((k, renameData(i, avroType.values, v)) for k, v in list(value.items()))
+        elif isinstance(avroType, AvroRecord) and isinstance(value, dict):
+            return dict((f.name, renameData(i, f.avroType, value[f.name])) for f in avroType.fields if f.name in value)
+        elif isinstance(avroType, AvroUnion) and isinstance(value, dict) and len(value) == 1:
+            (tag, x), = list(value.items())
+            for t in avroType.types:
+                if isinstance(t, (AvroFixed, AvroEnum, AvroRecord)):
+                    if tag == t.fullName:
+                        return {originalNameToNewName[i][t.fullName]: renameData(i, t, x)}
+                elif tag == t.name:
+                    return {tag: renameData(i, t, x)}
+            return value
+        else:
+            return value
+
+    def rename(i, avroType):
+        if isinstance(avroType, AvroArray):
+            return {"type": "array", "items": rename(i, avroType.items)}
+        elif isinstance(avroType, AvroMap):
+            return {"type": "map", "values": rename(i, avroType.values)}
+        elif isinstance(avroType, AvroUnion):
+            return [rename(i, t) for t in avroType.types]
         elif isinstance(avroType, AvroFixed):
-            ns, n = split(originalNameToNewName[i][avroType.fullName])
+            newName = originalNameToNewName[i][avroType.fullName]
+            if alreadyDefined(newName, avroType, avroType.size):
+                return newName
+            ns, n = split(newName)
             out = {"type": "fixed", "name": n, "size": avroType.size}
             if ns is not None:
                 out["namespace"] = ns
             return out
         elif isinstance(avroType, AvroEnum):
-            ns, n = split(originalNameToNewName[i][avroType.fullName])
+            newName = originalNameToNewName[i][avroType.fullName]
+            if alreadyDefined(newName, avroType, avroType.symbols):
+                return newName
+            ns, n = split(newName)
             out = {"type": "enum", "name": n, "symbols": avroType.symbols}
             if ns is not None:
                 out["namespace"] = ns
             return out
         elif isinstance(avroType, AvroRecord):
             newName = originalNameToNewName[i][avroType.fullName]
-            if newName in memo:
-                return memo[newName]
+            if alreadyDefined(newName, avroType, [(f.name, reference(i, f.avroType)) for f in avroType.fields]):
+                return newName
             else:
                 ns, n = split(newName)
                 out = {"type": "record", "name": n, "fields": []}
                 if ns is not None:
                     out["namespace"] = ns
-                memo[newName] = join(ns, n)
                 for f in avroType.fields:
-                    newf = {"name": f.name, "type": rename(i, f.avroType, memo)}
+                    newf = {"name": f.name, "type": rename(i, f.avroType)}
                     if f.default is not None:
                         newf["default"] = f.default
                     if f.order is not None:
@@ -386,7 +432,7 @@ def ast(pfas, check=True, name=None, randseed=None, doc=None, version=None, meta
     avroTypeBuilder = AvroTypeBuilder()
     memo = {}
     def newPlaceholder(i, oldAvroType):
-        newAvroType = rename(i, oldAvroType, {})
+        newAvroType = rename(i, oldAvroType)
         return avroTypeBuilder.makePlaceholder(jsonlib.dumps(newAvroType), memo)
             
     # combined name, if not explicitly set
@@ -417,7 +463,7 @@ def ast(pfas, check=True, name=None, randseed=None, doc=None, version=None, meta
              "actionsStarted": Cell(newPlaceholder(0, AvroLong()), jsonlib.dumps(0), False, False, CellPoolSource.EMBEDDED),
              "actionsFinished": Cell(newPlaceholder(0, AvroLong()), jsonlib.dumps(0), False, False, CellPoolSource.EMBEDDED)}
     if version is not None:
-        cells["version"] = Cell(newPlaceholder(0, AvroInt()), 0, False, False, CellPoolSource.EMBEDDED)
+        cells["version"] = Cell(newPlaceholder(0, AvroInt()), jsonlib.dumps(0), False, False, CellPoolSource.EMBEDDED)
     pools = {}
 
     if verbose: sys.stderr.write(time.asctime() + " Converting scoring engine algorithm\n")
@@ -447,15 +493,17 @@ def ast(pfas, check=True, name=None, randseed=None, doc=None, version=None, meta
             nextActionFcnName = None
 
         # this is a closure; it must be defined in the loop to pick up free variables
-        lazyFcnReplacer = None
         def genericReplacer(expr, self):
             if isinstance(expr, FcnDef):
                 return FcnDef([{list(t.keys())[0]: newPlaceholder(i, list(t.values())[0])} for t in expr.params],
                               newPlaceholder(i, expr.ret),
-                              [x.replace(lazyFcnReplacer) for x in expr.body],     # this is the one place where we should pass down fcnReplacer rather than self
+                              [x.replace(self) for x in expr.body],
                               expr.pos)
             elif isinstance(expr, FcnRef):
-                return FcnRef(prefixFcnRef(i, pfa, expr.name), expr.pos)
+                if pfa.method == Method.EMIT and i + 1 < len(pfas) and expr.name == "emit":
+                    return FcnRef("u." + nextActionFcnName, expr.pos)
+                else:
+                    return FcnRef(prefixFcnRef(i, pfa, expr.name), expr.pos)
             elif isinstance(expr, FcnRefFill):
                 return FcnRefFill(prefixFcnRef(i, pfa, expr.name),
                                   dict((k, v.replace(self)) for k, v in list(expr.fill.items())),
@@ -475,7 +523,7 @@ def ast(pfas, check=True, name=None, randseed=None, doc=None, version=None, meta
                                 expr.pos)
             elif isinstance(expr, Literal):
                 return Literal(newPlaceholder(i, expr.avroType),
-                               expr.value,
+                               jsonlib.dumps(renameData(i, expr.avroType, jsonlib.loads(expr.value))),
                                expr.pos)
             elif isinstance(expr, NewObject):
                 return NewObject(dict((k, v.replace(self)) for k, v in list(expr.fields.items())),
@@ -504,6 +552,10 @@ def ast(pfas, check=True, name=None, randseed=None, doc=None, version=None, meta
                               expr.to.replace(self),
                               expr.init.replace(self),
                               expr.pos)
+            elif isinstance(expr, PoolDel):
+                return PoolDel(prefixPool(i, pfa, expr.pool),
+                               expr.dell.replace(self),
+                               expr.pos)
             elif isinstance(expr, CastCase):
                 return CastCase(newPlaceholder(i, expr.avroType),
                                 expr.named,
@@ -513,14 +565,12 @@ def ast(pfas, check=True, name=None, randseed=None, doc=None, version=None, meta
                 return Upcast(expr.expr.replace(self),
                               newPlaceholder(i, expr.avroType),
                               expr.pos)
-        genericReplacer.isDefinedAt = lambda x: isinstance(x, (FcnDef, FcnRef, FcnRefFill, CallUserFcn, Call, Literal, NewObject, CellGet, CellTo, PoolGet, PoolTo, CastCase, Upcast))
+        genericReplacer.isDefinedAt = lambda x: isinstance(x, (FcnDef, FcnRef, FcnRefFill, CallUserFcn, Call, Literal, NewObject, NewArray, CellGet, CellTo, PoolGet, PoolTo, PoolDel, CastCase, Upcast))
 
         def fcnReplacer(expr):
             return genericReplacer(expr, fcnReplacer)
         fcnReplacer.isDefinedAt = genericReplacer.isDefinedAt
 
-        lazyFcnReplacer = fcnReplacer
-
         # add statements to begin
         def beginReplacer(expr):
             if isinstance(expr, Ref):
@@ -531,7 +581,8 @@ def ast(pfas, check=True, name=None, randseed=None, doc=None, version=None, meta
             else:
                 return genericReplacer(expr, beginReplacer)
         beginReplacer.isDefinedAt = lambda x: isinstance(x, Ref) or genericReplacer.isDefinedAt(x)
-        begin.extend([x.replace(beginReplacer) for x in pfa.begin])
+        if len(pfa.begin) > 0:
+            begin.append(Do([x.replace(beginReplacer) for x in pfa.begin]))
 
         # add statements to end
         def endReplacer(expr):
@@ -543,7 +594,8 @@ def ast(pfas, check=True, name=None, randseed=None, doc=None, version=None, meta
             else:
                 return genericReplacer(expr, endReplacer)
         endReplacer.isDefinedAt = lambda x: isinstance(x, Ref) or genericReplacer.isDefinedAt(x)
-        end.extend([x.replace(endReplacer) for x in pfa.end])
+        if len(pfa.end) > 0:
+            end.append(Do([x.replace(endReplacer) for x in pfa.end]))
 
         # convert the action into a user function
         def actionReplacer(expr):
@@ -584,7 +636,7 @@ def ast(pfas, check=True, name=None, randseed=None, doc=None, version=None, meta
         # convert all of the user functions into user functions
         for fcnName, fcnDef in list(pfa.fcns.items()):
             # note: some of these user-defined functions may call emit; if so, they'll call the right emit
-            fcns[prefixFcnDef(i, pfa, fcnName)] = FcnDef([{list(t.keys())[0]: newPlaceholder(i, list(t.values())[0])} for t in fcnDef.paramsPlaceholder],
+            fcns[prefixFcnDef(i, pfa, fcnName)] = FcnDef([{list(t.keys())[0]: newPlaceholder(i, list(t.values())[0])} for t in fcnDef.params],
                                                          newPlaceholder(i, fcnDef.ret),
                                                          [x.replace(fcnReplacer) for x in fcnDef.body],
                                                          fcnDef.pos)
@@ -597,24 +649,12 @@ def ast(pfas, check=True, name=None, randseed=None, doc=None, version=None, meta
             if verbose: sys.stderr.write(time.asctime() + "         cell {0}\n".format(cellName))
             newCell = Cell(newPlaceholder(i, cell.avroType), cell.init, cell.shared, cell.rollback, cell.source, cell.pos)
             cells[prefixCell(i, pfa, cellName)] = newCell
-            if cell.source == "embedded":
-                def converter(avroType):
-                    original = jsonDecoder(cell.avroType, jsonlib.loads(cell.init))
-                    return jsonlib.dumps(jsonEncoder(avroType, original))
-                newCell.converter = converter
-                
     for i, pfa in enumerate(pfas):
         if verbose and len(pfa.pools) > 0: sys.stderr.write(time.asctime() + "     step {0}:\n".format(i + 1))
         for poolName, pool in list(pfa.pools.items()):
             if verbose: sys.stderr.write(time.asctime() + "         pool {0}\n".format(poolName))
             newPool = Pool(newPlaceholder(i, pool.avroType), pool.init, pool.shared, pool.rollback, pool.source, pool.pos)
             pools[prefixPool(i, pfa, poolName)] = newPool
-            if pool.source == "embedded":
-                def converter(avroType):
-                    original = jsonDecoder(pool.avroType, jsonlib.loads(pool.init))
-                    return jsonlib.dumps(jsonEncoder(avroType, original))
-                newPool.converter = converter
-                
     # make sure all the types work together
     if verbose: sys.stderr.write(time.asctime() + " Resolving all types\n")
     avroTypeBuilder.resolveTypes()
@@ -627,7 +667,7 @@ def ast(pfas, check=True, name=None, randseed=None, doc=None, version=None, meta
             if verbose: sys.stderr.write(time.asctime() + "         cell {0}\n".format(cellName))
             if cell.source == "embedded":
                 newCell = cells[prefixCell(i, pfa, cellName)]
-                newCell.init = newCell.converter(newCell.avroType)
+                newCell.init = jsonlib.dumps(renameData(i, cell.avroType, jsonlib.loads(cell.init)))
 
     for i, pfa in enumerate(pfas):
         if verbose and len(pfa.pools) > 0: sys.stderr.write(time.asctime() + "     step {0}:\n".format(i + 1))
@@ -635,7 +675,7 @@ def ast(pfas, check=True, name=None, randseed=None, doc=None, version=None, meta
             if verbose: sys.stderr.write(time.asctime() + "         pool {0}\n".format(poolName))
             if pool.source == "embedded":
                 newPool = pools[prefixPool(i, pfa, poolName)]
-                newPool.init = newPool.converter(newPool.avroType)
+                newPool.init = dict((k, jsonlib.dumps(renameData(i, pool.avroType, jsonlib.loads(v)))) for k, v in list(pool.init.items()))
 
     # randseed, doc, version, metadata, and options need to be explicitly set
 
-- 
2.43.0


From 2584103faccd2587b8a200618acdfcb34074966d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:52 +0000
Subject: [PATCH 60/61] fix: PrettyPFA: subtraction of a number without a
 space, Windows line ends, syntax errors on the last line

---
 titus/prettypfa.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/titus/prettypfa.py b/titus/prettypfa.py
index dbe7ff3..1b39cd1 100644
--- a/titus/prettypfa.py
+++ b/titus/prettypfa.py
@@ -1256,7 +1256,7 @@ class Parser(object):
             def t_SECTION_HEADER(t):
                 r"(\r\n?|\n)+[a-z]+:"
                 t.lexer.lineno += len(re.findall(r"(\r\n?|\n)", t.value))
-                t.value = Token("SECTION_HEADER", t.value.lstrip("\n")[:-1], t.lexer.lineno)
+                t.value = Token("SECTION_HEADER", t.value.lstrip("\r\n")[:-1], t.lexer.lineno)
                 return t
 
         def t_DOTNAME(t):
@@ -1269,7 +1269,7 @@ class Parser(object):
             return t
 
         def t_NUMBER(t):
-            r"-?(0|[1-9][0-9]*)(\.[0-9]*)?([eE][-+]?[0-9]+)?"
+            r"(0|[1-9][0-9]*)(\.[0-9]*)?([eE][-+]?[0-9]+)?"
             try:
                 t.value = Token("NUMBER", int(t.value), t.lexer.lineno)
             except ValueError:
@@ -1447,7 +1447,7 @@ class Parser(object):
             if len(lines) < 2:
                 raise PrettyPfaException("Tokenizing syntax error: \"{0}\" at PrettyPFA line {1}: {2}".format(t.value[0], lineno, self.text))
             else:
-                offendingLine = "\n".join(insertArrow(lines[(lineno - 1):(lineno + 2)], 1))
+                offendingLine = "\n".join(insertArrow(lines[max(0, lineno - 2):(lineno + 1)], min(1, lineno - 1)))
                 raise PrettyPfaException("Tokenizing syntax error: \"{0}\" at PrettyPFA line {1}:\n{2}".format(t.value[0], lineno, offendingLine))
 
         self.lexer = lex.lex()
@@ -1647,7 +1647,10 @@ class Parser(object):
         def p_expression_uminus(p):
             r'''expression : MINUS expression %prec UMINUS'''
             op, expr = p[1:]
-            p[0] = MiniCall("u-", [expr], op.lineno, op.lineno)
+            if isinstance(expr, MiniNumber):
+                p[0] = MiniNumber(-expr.value, op.lineno)
+            else:
+                p[0] = MiniCall("u-", [expr], op.lineno, op.lineno)
 
         def p_expression_bitnot(p):
             r'''expression : BITNOT expression'''
@@ -1790,18 +1793,19 @@ class Parser(object):
                 r'''cellpool : DOTNAME LPAREN arguments RPAREN "=" block
                              | DOTNAME LPAREN arguments RPAREN "=" bracketedargs
                              | DOTNAME LPAREN arguments RPAREN "=" NUMBER
+                             | DOTNAME LPAREN arguments RPAREN "=" MINUS NUMBER
                              | DOTNAME LPAREN arguments RPAREN "=" STRING
                              | DOTNAME LPAREN arguments RPAREN "=" RAWSTRING
                              | DOTNAME LPAREN arguments RPAREN "=" DOTNAME
                              | DOTNAME LPAREN arguments RPAREN "=" REPLACEMENT'''
                 name = p[1].v
-                token = p[6]
+                token = p[len(p) - 1]
                 if isinstance(token, (Subs, ResolvedSubs)):
                     init = token
                     high = token.lineno
                 elif isinstance(token, Token):
                     if token.t == "NUMBER":
-                        init = MiniNumber(token.v, token.lineno)
+                        init = MiniNumber(token.v if len(p) == 7 else -token.v, token.lineno)
                     elif token.t == "STRING":
                         init = MiniString(token.v, token.lineno)
                     elif token.t == "RAWSTRING":
@@ -2102,7 +2106,7 @@ class Parser(object):
                 if len(lines) < 2:
                     raise PrettyPfaException("Parsing syntax error on line {0}: {1}".format(p.lineno, self.text))
                 else:
-                    offendingLine = "\n".join(insertArrow(lines[(lineno - 1):(lineno + 2)], 1))
+                    offendingLine = "\n".join(insertArrow(lines[max(0, lineno - 2):(lineno + 1)], min(1, lineno - 1)))
                     raise PrettyPfaException("Parsing syntax error on line {0}:\n{1}".format(p.lineno, offendingLine))
 
         self.yacc = yacc.yacc(debug=False, write_tables=False)
-- 
2.43.0


From 9da2f52fde4121c02ca221d06550ebdc4a9e8dd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:57 +0000
Subject: [PATCH 61/61] fix: PrettyPFA: an index binds tighter than the
 operators before it

---
 titus/prettypfa.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/titus/prettypfa.py b/titus/prettypfa.py
index 1b39cd1..31a78bf 100644
--- a/titus/prettypfa.py
+++ b/titus/prettypfa.py
@@ -1633,7 +1633,8 @@ class Parser(object):
                       ("left", "PLUS", "MINUS"),
                       ("left", "TIMES", "FDIV", "IDIV", "MOD", "REM"),
                       ("right", "UMINUS", "BITNOT"),
-                      ("left", "POW")]
+                      ("left", "POW"),
+                      ("left", "LBRACKET")]
 
         def p_expression_replacement(p):
             r'''expression : REPLACEMENT'''
-- 
2.43.0

