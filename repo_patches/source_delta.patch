From 3684d06e9f8baa43e934b3c6b84836b72eaa5b42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:53 +0000
Subject: [PATCH 01/64] fix: order NaN consistently when comparing floats, as
 for doubles

---
 titus/datatype.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/titus/datatype.py b/titus/datatype.py
index 34f3989..a02cca9 100644
--- a/titus/datatype.py
+++ b/titus/datatype.py
@@ -1051,7 +1051,6 @@ def compare(avroType, x, y):
     elif isinstance(avroType, AvroLong) and isinstance(x, int) and x is not True and x is not False and isinstance(y, int) and y is not True and y is not False:
         return (x > y) - (x < y)
     elif isinstance(avroType, AvroFloat) and isinstance(x, (int, float)) and x is not True and x is not False and isinstance(y, (int, float)) and y is not True and y is not False:
-        return (x > y) - (x < y)
         if math.isnan(x):
             if math.isnan(y):
                 return 0
-- 
2.43.0


From 47afb3c312b9de2802faaa6593f4928126ec5f2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:51 +0000
Subject: [PATCH 02/64] fix: compare and JSON-encode bytes and fixed values
 that arrive as Python bytes

---
 titus/datatype.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/titus/datatype.py b/titus/datatype.py
index a02cca9..333f28a 100644
--- a/titus/datatype.py
+++ b/titus/datatype.py
@@ -25,7 +25,7 @@ import avro.schema
 
 import titus.errors
 import titus.util
-from titus.util import ts, stringToBytes
+from titus.util import ts, stringToBytes, bytesToString
 
 ######################################################### the most general types
 
@@ -977,11 +977,11 @@ def jsonEncoder(avroType, value, tagged=True):
         return float(value)
     elif isinstance(avroType, AvroDouble) and isinstance(value, (int, float)) and value is not True and value is not False:
         return float(value)
-    elif isinstance(avroType, AvroBytes) and isinstance(value, str):
-        return value
-    elif isinstance(avroType, AvroFixed) and isinstance(value, str):
+    elif isinstance(avroType, AvroBytes) and isinstance(value, (str, bytes)):
+        return bytesToString(value) if isinstance(value, bytes) else value
+    elif isinstance(avroType, AvroFixed) and isinstance(value, (str, bytes)):
         if len(value) == avroType.size:
-            return value
+            return bytesToString(value) if isinstance(value, bytes) else value
     elif isinstance(avroType, AvroString) and isinstance(value, str):
         return value
     elif isinstance(avroType, AvroEnum) and isinstance(value, str) and value in avroType.symbols:
@@ -1072,9 +1072,13 @@ def compare(avroType, x, y):
                 return -1
             else:
                 return (x > y) - (x < y)
-    elif isinstance(avroType, AvroBytes) and isinstance(x, str) and isinstance(y, str):
+    elif isinstance(avroType, AvroBytes) and isinstance(x, (str, bytes)) and isinstance(y, (str, bytes)):
+        x = bytesToString(x) if isinstance(x, bytes) else x
+        y = bytesToString(y) if isinstance(y, bytes) else y
         return (x > y) - (x < y)
-    elif isinstance(avroType, AvroFixed) and isinstance(x, str) and isinstance(y, str):
+    elif isinstance(avroType, AvroFixed) and isinstance(x, (str, bytes)) and isinstance(y, (str, bytes)):
+        x = bytesToString(x) if isinstance(x, bytes) else x
+        y = bytesToString(y) if isinstance(y, bytes) else y
         return (x > y) - (x < y)
     elif isinstance(avroType, AvroString) and isinstance(x, str) and isinstance(y, str):
         return (x > y) - (x < y)
-- 
2.43.0


From 5e07b7b206fa0990d035107eb9b808776575feff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:51 +0000
Subject: [PATCH 03/64] fix: integer division of longs is exact

---
 titus/lib/core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/titus/lib/core.py b/titus/lib/core.py
index f1c0c2c..8ab8e33 100644
--- a/titus/lib/core.py
+++ b/titus/lib/core.py
@@ -99,7 +99,8 @@ class FloorDivide(LibFcn):
         if y == 0:
             raise PFARuntimeException("integer division by zero", self.errcodeBase + 0, self.name, pos)
         else:
-            return int(x / float(y))
+            out = abs(x) // abs(y)
+            return out if (x < 0) == (y < 0) else -out
 provide(FloorDivide())
 
 class Negative(LibFcn):
-- 
2.43.0


From 3d8456f3f6c46439a4da164178d51351fca480f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:51 +0000
Subject: [PATCH 04/64] fix: floating point remainder does not lose a small
 dividend

---
 titus/lib/core.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/titus/lib/core.py b/titus/lib/core.py
index 8ab8e33..85d3010 100644
--- a/titus/lib/core.py
+++ b/titus/lib/core.py
@@ -138,6 +138,8 @@ class Remainder(LibFcn):
         else:
             if not math.isnan(x) and not math.isinf(x) and math.isinf(y):
                 return x
+            elif isinstance(x, float) or isinstance(y, float):
+                return float("nan") if math.isinf(x) else math.fmod(x, y)
             else:
                 out = x % y
                 if x < 0 and out > 0:
-- 
2.43.0


From e1b58f6b24398b56cbd9bf13dd2f00f3f85c9eaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:17 +0000
Subject: [PATCH 05/64] fix: m.exp, m.expm1, m.cosh, m.sinh, m.hypot overflow
 to infinity; m.expm1 and m.ln1p are accurate near zero

---
 titus/lib/pfamath.py | 35 +++++++++++++++++++++--------------
 1 file changed, 21 insertions(+), 14 deletions(-)

diff --git a/titus/lib/pfamath.py b/titus/lib/pfamath.py
index b9e051d..a7ddc62 100644
--- a/titus/lib/pfamath.py
+++ b/titus/lib/pfamath.py
@@ -146,30 +146,33 @@ class CosH(LibFcn):
     name = prefix + "cosh"
     sig = Sig([{"x": P.Double()}], P.Double())
     errcodeBase = 27100
-    def genpy(self, paramTypes, args, pos):
-        return "math.cosh({0})".format(*args)
     def __call__(self, state, scope, pos, paramTypes, x):
-        return math.cosh(x)
+        try:
+            return math.cosh(x)
+        except OverflowError:
+            return float("inf")
 provide(CosH())
 
 class Exp(LibFcn):
     name = prefix + "exp"
     sig = Sig([{"x": P.Double()}], P.Double())
     errcodeBase = 27110
-    def genpy(self, paramTypes, args, pos):
-        return "math.exp({0})".format(*args)
     def __call__(self, state, scope, pos, paramTypes, x):
-        return math.exp(x)
+        try:
+            return math.exp(x)
+        except OverflowError:
+            return float("inf")
 provide(Exp())
 
 class ExpM1(LibFcn):
     name = prefix + "expm1"
     sig = Sig([{"x": P.Double()}], P.Double())
     errcodeBase = 27120
-    def genpy(self, paramTypes, args, pos):
-        return "(math.exp({0}) - 1.0)".format(*args)
     def __call__(self, state, scope, pos, paramTypes, x):
-        return math.exp(x) - 1.0
+        try:
+            return math.expm1(x)
+        except OverflowError:
+            return float("inf")
 provide(ExpM1())
 
 class Floor(LibFcn):
@@ -193,7 +196,10 @@ class Hypot(LibFcn):
         if math.isinf(x) or math.isinf(y):
             return float("inf")
         else:
-            return math.sqrt(x**2 + y**2)
+            try:
+                return math.hypot(x, y)
+            except OverflowError:
+                return float("inf")
 provide(Hypot())
 
 class Ln(LibFcn):
@@ -256,7 +262,7 @@ class Ln1p(LibFcn):
         elif x == -1.0:
             return float("-inf")
         else:
-            return math.log(1 + x)
+            return math.log1p(x)
 provide(Ln1p())
 
 class Round(LibFcn):
@@ -322,10 +328,11 @@ class SinH(LibFcn):
     name = prefix + "sinh"
     sig = Sig([{"x": P.Double()}], P.Double())
     errcodeBase = 27230
-    def genpy(self, paramTypes, args, pos):
-        return "math.sinh({0})".format(*args)
     def __call__(self, state, scope, pos, paramTypes, x):
-        return math.sinh(x)
+        try:
+            return math.sinh(x)
+        except OverflowError:
+            return math.copysign(float("inf"), x)
 provide(SinH())
 
 class Sqrt(LibFcn):
-- 
2.43.0


From e5e8192bac82f0dc5e864e3a4cd04f9e91b6d74a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:17 +0000
Subject: [PATCH 06/64] fix: link functions do not overflow for large arguments

---
 titus/lib/link.py | 26 ++++++++++++--------------
 1 file changed, 12 insertions(+), 14 deletions(-)

diff --git a/titus/lib/link.py b/titus/lib/link.py
index 5fb1311..3cbb74a 100644
--- a/titus/lib/link.py
+++ b/titus/lib/link.py
@@ -48,25 +48,23 @@ class SoftMax(LibFcn):
             raise PFARuntimeException("empty input", self.errcodeBase + 0, self.name, pos)
         if paramTypes[0]["type"] == "map":
             xx = x.copy()
-            tmp = list(map(abs, list(xx.values())))
-            if list(xx.values())[tmp.index(max(tmp))] >= 0:
-                m = max(xx.values())
-            else:
-                m = min(xx.values())
+            m = max(xx.values())
             denom = sum([math.exp(v - m) for v in list(x.values())])
             for key in list(x.keys()):
                 xx[key] = float(math.exp(xx[key] - m)/denom)
             return xx
         else:
-            tmp = list(map(abs, x))
-            if x[tmp.index(max(tmp))] >= 0:
-                m = max(x)
-            else:
-                m = min(x)
+            m = max(x)
             denom = sum([math.exp(v - m) for v in x])
             return [float(math.exp(val - m)/denom) for val in x]
 provide(SoftMax())
 
+def exp(x):
+    try:
+        return math.exp(x)
+    except OverflowError:
+        return float("inf")
+
 def unwrapForNorm(x, func):
     if isinstance(x, dict):
         xx = x.copy()
@@ -88,7 +86,7 @@ class Logit(LibFcn):
                  Sig([{"x": P.Double()}], P.Double())])
     errcodeBase = 25010
     def __call__(self, state, scope, pos, paramTypes, x):
-        return unwrapForNorm(x, lambda y: 1./(1. + math.exp(-y)))
+        return unwrapForNorm(x, lambda y: 1./(1. + exp(-y)))
 provide(Logit())
 
 class Probit(LibFcn):
@@ -108,7 +106,7 @@ class CLoglog(LibFcn):
                  Sig([{"x": P.Double()}], P.Double())])
     errcodeBase = 25030
     def __call__(self, state, scope, pos, paramTypes, x):
-        return unwrapForNorm(x, lambda y: 1. - math.exp(-math.exp(y)))
+        return unwrapForNorm(x, lambda y: 1. - exp(-exp(y)))
 provide(CLoglog())
 
 class LogLog(LibFcn):
@@ -118,7 +116,7 @@ class LogLog(LibFcn):
                  Sig([{"x": P.Double()}], P.Double())])
     errcodeBase = 25040
     def __call__(self, state, scope, pos, paramTypes, x):
-        return unwrapForNorm(x, lambda y: math.exp(-math.exp(y)))
+        return unwrapForNorm(x, lambda y: exp(-exp(y)))
 provide(LogLog())
 
 class Cauchit(LibFcn):
@@ -138,7 +136,7 @@ class Softplus(LibFcn):
                  Sig([{"x": P.Double()}], P.Double())])
     errcodeBase = 25060
     def __call__(self, state, scope, pos, paramTypes, x):
-        return unwrapForNorm(x, lambda y: math.log(1.0 + math.exp(y)))
+        return unwrapForNorm(x, lambda y: y + math.log(1.0 + math.exp(-y)) if y > 0.0 else math.log(1.0 + math.exp(y)))
 provide(Softplus())
 
 class ReLu(LibFcn):
-- 
2.43.0


From 1e419afd7d290d78b650510be7a27dc8342287e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:25 +0000
Subject: [PATCH 07/64] fix: m.kernel.rbf does not raise OverflowError

---
 titus/lib/kernel.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/titus/lib/kernel.py b/titus/lib/kernel.py
index 5eea3c0..c26a4c5 100644
--- a/titus/lib/kernel.py
+++ b/titus/lib/kernel.py
@@ -53,8 +53,11 @@ class RBF(LibFcn):
     def __call__(self, state, scope, pos, paramTypes, x, y, gamma):
         if len(x) != len(y):
             raise PFARuntimeException("arrays must have same length", self.errcodeBase + 0, self.name, pos)
-        diff = [abs(i - j)**2 for i,j in zip(x,y)]
-        return math.exp(-gamma*sum(diff))
+        diff = [(i - j)*(i - j) for i,j in zip(x,y)]
+        try:
+            return math.exp(-gamma*sum(diff))
+        except OverflowError:
+            return float("inf")
 provide(RBF())
 
 class Linear(LibFcn):
-- 
2.43.0


From 119781d9caf6d57389ae284b620e2003ebf71571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:15 +0000
Subject: [PATCH 08/64] fix: library functions and emit work when passed by
 reference

---
 titus/genpy.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/titus/genpy.py b/titus/genpy.py
index 7049804..eec9ca3 100644
--- a/titus/genpy.py
+++ b/titus/genpy.py
@@ -309,19 +309,29 @@ class GeneratePython(titus.pfaast.Task):
             return "labeledFcn(lambda state, scope: do(" + ", ".join(context.exprs) + "), [" + ", ".join(map(repr, context.paramNames)) + "])"
 
         elif isinstance(context, FcnRef.Context):
-            return "self.f[" + repr(context.fcn.name) + "]"
+            if isinstance(context.fcn, titus.pfaast.UserFcn):
+                return "self.f[" + repr(context.fcn.name) + "]"
+            reducedArgs = ["$" + str(x) for x in range(len(context.fcnType.params))]
+            args = ["scope.get(" + repr(x) + ")" for x in reducedArgs]
+            return "labeledFcn(lambda state, scope: " + context.fcn.genpy(context.fcnType.params + [context.fcnType.ret], args, None) + ", " + repr(reducedArgs) + ")"
 
         elif isinstance(context, FcnRefFill.Context):
             reducedArgs = ["\"$" + str(x) + "\"" for x in range(len(context.fcnType.params))]
             j = 0
             args = []
+            paramTypes = []
             for name in context.originalParamNames:
                 if name in context.argTypeResult:
                     args.append(context.argTypeResult[name][1])
+                    paramTypes.append(context.argTypeResult[name][0])
                 else:
                     args.append("scope.get(\"$" + str(j) + "\")")
+                    paramTypes.append(context.fcnType.params[j])
                     j += 1
 
+            if not isinstance(context.fcn, titus.pfaast.UserFcn):
+                return "labeledFcn(lambda state, scope: " + context.fcn.genpy(paramTypes + [context.fcnType.ret], args, None) + ", [" + ", ".join(reducedArgs) + "])"
+
             return "labeledFcn(lambda state, scope: call(state, DynamicScope(scope), self.f[" + repr(context.fcn.name) + "], [" + ", ".join(args) + "]), [" + ", ".join(reducedArgs) + "])"
 
         elif isinstance(context, CallUserFcn.Context):
-- 
2.43.0


From 2029883e242a2633483b1777311e13db6fc97031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:30 +0000
Subject: [PATCH 09/64] fix: references to multi-signature functions are
 rejected with a semantic error, not a NameError

---
 titus/pfaast.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/titus/pfaast.py b/titus/pfaast.py
index f3159b1..102d7c1 100644
--- a/titus/pfaast.py
+++ b/titus/pfaast.py
@@ -62,6 +62,7 @@ from titus.fcn import Fcn
 from titus.signature import IncompatibleTypes
 from titus.signature import LabelData
 from titus.signature import Sig
+from titus.signature import Sigs
 from titus.signature import PFAVersion
 from titus.datatype import *
 import titus.options
-- 
2.43.0


From db92d3ac603f41a467a7da12a36719a0b8c68b50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:05 +0000
Subject: [PATCH 10/64] fix: regular expression functions terminate when the
 pattern matches the empty string

---
 titus/lib/regex.py | 41 +++++++++++++++++++++++++----------------
 1 file changed, 25 insertions(+), 16 deletions(-)

diff --git a/titus/lib/regex.py b/titus/lib/regex.py
index c016340..dd99664 100644
--- a/titus/lib/regex.py
+++ b/titus/lib/regex.py
@@ -86,7 +86,7 @@ class Regexer(object):
     Regmatch_t = None
     libc = None
 
-    def __init__(self, haystack, pattern, code, name, pos):
+    def __init__(self, haystack, pattern, code, name, pos, isString=False):
         if Regexer.firstTime:
             # get clib regex specs for the wrapper
             Regexer.clibSpecs = RegexSpecs()
@@ -113,6 +113,7 @@ class Regexer(object):
 
         # haystack and pattern come in as type(haystack) == unicode
         self.haystack = haystack
+        self.isString = isString
         # keep track of haystack unicode indexes
         self.haystack_indices = utf8ByteIndexes(str(haystack))
         # compile pattern into regex_t object
@@ -129,14 +130,22 @@ class Regexer(object):
         self.numGroups = int(self.regex_t.re_nsub) + 1
         self.groupArray = (Regexer.Regmatch_t * self.numGroups)()
         self.indexOffset = 0
+        self.emptyMatchAt = None
 
     def search(self, start):
+        if start == self.emptyMatchAt:
+            # the previous match was empty: step over one character to avoid finding it again
+            start += 1
+            while self.isString and start < len(self.haystack) and (self.haystack[start] & 0xc0) == 0x80:
+                start += 1
         ex = Regexer.libc.regexec(ctypes.byref(self.regex_t), self.haystack[start:],
                           self.numGroups, self.groupArray, 0)
         self.indexOffset = start
         if (ex != 0) or (start >= len(self.haystack)):
             return False
         else:
+            if self.groupArray[0].rm_so == self.groupArray[0].rm_co:
+                self.emptyMatchAt = self.indexOffset + int(self.groupArray[0].rm_co)
             return True
 
     def groupsFound(self):
@@ -202,7 +211,7 @@ class Index(LibFcn):
     errcodeBase = 35000
     def __call__(self, state, scope, pos, paramTypes, haystack, pattern):
         haystack, pattern, to = convert(haystack, pattern, paramTypes[0])
-        re = Regexer(haystack, pattern, self.errcodeBase + 0, self.name, pos)
+        re = Regexer(haystack, pattern, self.errcodeBase + 0, self.name, pos, paramTypes[0] == "string")
         if re.search(0):
             region = re.getRegion()
             out = [region.beg[0], region.end[0]]
@@ -220,7 +229,7 @@ class Contains(LibFcn):
     errcodeBase = 35010
     def __call__(self, state, scope, pos, paramTypes, haystack, pattern):
         haystack, pattern, to = convert(haystack, pattern, paramTypes[0])
-        re = Regexer(haystack, pattern, self.errcodeBase + 0, self.name, pos)
+        re = Regexer(haystack, pattern, self.errcodeBase + 0, self.name, pos, paramTypes[0] == "string")
         out = re.search(0)
         re.free()
         return out
@@ -234,7 +243,7 @@ class Count(LibFcn):
     errcodeBase = 35020
     def __call__(self, state, scope, pos, paramTypes, haystack, pattern):
         haystack, pattern, to = convert(haystack, pattern, paramTypes[0])
-        re = Regexer(haystack, pattern, self.errcodeBase + 0, self.name, pos)
+        re = Regexer(haystack, pattern, self.errcodeBase + 0, self.name, pos, paramTypes[0] == "string")
         total = 0
         found = re.search(0)
         region = re.getRegion()
@@ -256,7 +265,7 @@ class RIndex(LibFcn):
     errcodeBase = 35030
     def __call__(self, state, scope, pos, paramTypes, haystack, pattern):
         haystack, pattern, to = convert(haystack, pattern, paramTypes[0])
-        re = Regexer(haystack, pattern, self.errcodeBase + 0, self.name, pos)
+        re = Regexer(haystack, pattern, self.errcodeBase + 0, self.name, pos, paramTypes[0] == "string")
         found = re.search(0)
         region = re.getRegion()
         start = 0
@@ -280,7 +289,7 @@ class Groups(LibFcn):
     errcodeBase = 35040
     def __call__(self, state, scope, pos, paramTypes, haystack, pattern):
         haystack, pattern, to = convert(haystack, pattern, paramTypes[0])
-        re = Regexer(haystack, pattern, self.errcodeBase + 0, self.name, pos)
+        re = Regexer(haystack, pattern, self.errcodeBase + 0, self.name, pos, paramTypes[0] == "string")
         found = re.search(0)
         region = re.getRegion()
         start = region.end[0]
@@ -302,7 +311,7 @@ class IndexAll(LibFcn):
     errcodeBase = 35050
     def __call__(self, state, scope, pos, paramTypes, haystack, pattern):
         haystack, pattern, to = convert(haystack, pattern, paramTypes[0])
-        re = Regexer(haystack, pattern, self.errcodeBase + 0, self.name, pos)
+        re = Regexer(haystack, pattern, self.errcodeBase + 0, self.name, pos, paramTypes[0] == "string")
         found = re.search(0)
         region = re.getRegion()
         start = region.end[0]
@@ -327,7 +336,7 @@ class FindAll(LibFcn):
     errcodeBase = 35060
     def __call__(self, state, scope, pos, paramTypes, haystack, pattern):
         haystack, pattern, to = convert(haystack, pattern, paramTypes[0])
-        re = Regexer(haystack, pattern, self.errcodeBase + 0, self.name, pos)
+        re = Regexer(haystack, pattern, self.errcodeBase + 0, self.name, pos, paramTypes[0] == "string")
         found = re.search(0)
         region = re.getRegion()
         start = region.end[0]
@@ -352,7 +361,7 @@ class FindFirst(LibFcn):
     errcodeBase = 35070
     def __call__(self, state, scope, pos, paramTypes, haystack, pattern):
         haystack, pattern, to = convert(haystack, pattern, paramTypes[0])
-        re = Regexer(haystack, pattern, self.errcodeBase + 0, self.name, pos)
+        re = Regexer(haystack, pattern, self.errcodeBase + 0, self.name, pos, paramTypes[0] == "string")
         found = re.search(0)
         if found:
             region = re.getRegion()
@@ -374,7 +383,7 @@ class FindGroupsFirst(LibFcn):
     errcodeBase = 35080
     def __call__(self, state, scope, pos, paramTypes, haystack, pattern):
         haystack, pattern, to = convert(haystack, pattern, paramTypes[0])
-        re = Regexer(haystack, pattern, self.errcodeBase + 0, self.name, pos)
+        re = Regexer(haystack, pattern, self.errcodeBase + 0, self.name, pos, paramTypes[0] == "string")
         start = 0
         found = re.search(start)
         out = []
@@ -396,7 +405,7 @@ class FindGroupsAll(LibFcn):
     errcodeBase = 35090
     def __call__(self, state, scope, pos, paramTypes, haystack, pattern):
         haystack, pattern, to = convert(haystack, pattern, paramTypes[0])
-        re = Regexer(haystack, pattern, self.errcodeBase + 0, self.name, pos)
+        re = Regexer(haystack, pattern, self.errcodeBase + 0, self.name, pos, paramTypes[0] == "string")
         start = 0
         found = re.search(start)
         region = re.getRegion()
@@ -424,7 +433,7 @@ class GroupsAll(LibFcn):
     errcodeBase = 35100
     def __call__(self, state, scope, pos, paramTypes, haystack, pattern):
         haystack, pattern, to = convert(haystack, pattern, paramTypes[0])
-        re = Regexer(haystack, pattern, self.errcodeBase + 0, self.name, pos)
+        re = Regexer(haystack, pattern, self.errcodeBase + 0, self.name, pos, paramTypes[0] == "string")
         start = 0
         found = re.search(start)
         region = re.getRegion()
@@ -454,7 +463,7 @@ class ReplaceFirst(LibFcn):
         haystack, pattern, to = convert(haystack, pattern, paramTypes[0])
         if isinstance(replacement, bytes):
             replacement = bytesToString(replacement)      
-        re = Regexer(haystack, pattern, self.errcodeBase + 0, self.name, pos)
+        re = Regexer(haystack, pattern, self.errcodeBase + 0, self.name, pos, paramTypes[0] == "string")
         found = re.search(0)
         region = re.getRegion()
         if found:
@@ -475,7 +484,7 @@ class ReplaceLast(LibFcn):
         haystack, pattern, to = convert(haystack, pattern, paramTypes[0])
         if isinstance(replacement, bytes):
             replacement = bytesToString(replacement)
-        re = Regexer(haystack, pattern, self.errcodeBase + 0, self.name, pos)
+        re = Regexer(haystack, pattern, self.errcodeBase + 0, self.name, pos, paramTypes[0] == "string")
         found = re.search(0)
         region = re.getRegion()
         start = 0
@@ -499,7 +508,7 @@ class Split(LibFcn):
     errcodeBase = 35130
     def __call__(self, state, scope, pos, paramTypes, haystack, pattern):
         haystack, pattern, to = convert(haystack, pattern, paramTypes[0])
-        re = Regexer(haystack, pattern, self.errcodeBase + 0, self.name, pos)
+        re = Regexer(haystack, pattern, self.errcodeBase + 0, self.name, pos, paramTypes[0] == "string")
         out = []
         start = 0
         found = re.search(start)
@@ -540,7 +549,7 @@ class ReplaceAll(LibFcn):
         haystack, pattern, to = convert(haystack, pattern, paramTypes[0])
         if isinstance(replacement, bytes):
             replacement = bytesToString(replacement)
-        re = Regexer(haystack, pattern, self.errcodeBase + 0, self.name, pos)
+        re = Regexer(haystack, pattern, self.errcodeBase + 0, self.name, pos, paramTypes[0] == "string")
         found = re.search(0)
         region = re.getRegion()
         beg = 0
-- 
2.43.0


From 544816f1fdb6ac1daa5b4bcbb7d52d1fd53d4c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:08 +0000
Subject: [PATCH 11/64] fix: regular expression searches see null bytes and do
 not re-anchor after the first match

---
 titus/lib/regex.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/titus/lib/regex.py b/titus/lib/regex.py
index dd99664..dc34f0e 100644
--- a/titus/lib/regex.py
+++ b/titus/lib/regex.py
@@ -63,6 +63,7 @@ class RegexSpecs(object):
     def _darwinSpecs(self):
         self.multilineFlag = 1
         self.posixExtendedSyntaxFlag = 1
+        self.startEndFlag = 4
         self.numNullPointersBefore_re_nsub = 1
         self.numNullPointersAfter_re_nsub = 2
         self.field_re_nsub = ("re_nsub", ctypes.c_size_t)
@@ -72,6 +73,7 @@ class RegexSpecs(object):
     def _linuxSpecs(self):
         self.multilineFlag = 1
         self.posixExtendedSyntaxFlag = 1
+        self.startEndFlag = 4
         self.numNullPointersBefore_re_nsub = 6
         self.numNullPointersAfter_re_nsub = 1
         self.field_re_nsub = ("re_nsub", ctypes.c_size_t)
@@ -138,9 +140,11 @@ class Regexer(object):
             start += 1
             while self.isString and start < len(self.haystack) and (self.haystack[start] & 0xc0) == 0x80:
                 start += 1
-        ex = Regexer.libc.regexec(ctypes.byref(self.regex_t), self.haystack[start:],
-                          self.numGroups, self.groupArray, 0)
-        self.indexOffset = start
+        # REG_STARTEND: match the given range, which may contain null bytes and is not the beginning of a line if start > 0
+        self.groupArray[0].rm_so = start
+        self.groupArray[0].rm_co = len(self.haystack)
+        ex = Regexer.libc.regexec(ctypes.byref(self.regex_t), self.haystack,
+                          self.numGroups, self.groupArray, Regexer.clibSpecs.startEndFlag)
         if (ex != 0) or (start >= len(self.haystack)):
             return False
         else:
-- 
2.43.0


From 097aaa039914766cdb7ad42677c9463ed133178f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:08 +0000
Subject: [PATCH 12/64] fix: a.median and a.ntile interpolate doubles however
 the module was loaded

---
 titus/lib/array.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/titus/lib/array.py b/titus/lib/array.py
index d98ae0e..7747f8b 100644
--- a/titus/lib/array.py
+++ b/titus/lib/array.py
@@ -760,7 +760,7 @@ class Median(LibFcn):
 
         if len(sa) % 2:
             return sa[half]
-        if (dataType is "float") or (dataType is "double"):
+        if (dataType == "float") or (dataType == "double"):
             return (sa[half - 1] + sa[half])/2.0
         else:
             return sa[half - 1]
@@ -807,7 +807,7 @@ class NTile(LibFcn):
         k = (len(a) - 1.0)*p
         f = math.floor(k)
         dataType = paramTypes[-1]
-        if (dataType is "float") or (dataType is "double"):
+        if (dataType == "float") or (dataType == "double"):
             c = math.ceil(k)
             if f == c:
                 return sa[int(k)]
-- 
2.43.0


From 7a54212b5a80e02464f25f774b6489225080d8cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:03 +0000
Subject: [PATCH 13/64] fix: regular expression positions in strings count
 characters, not UTF-8 bytes

---
 titus/lib/regex.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/titus/lib/regex.py b/titus/lib/regex.py
index dc34f0e..904f3df 100644
--- a/titus/lib/regex.py
+++ b/titus/lib/regex.py
@@ -160,6 +160,13 @@ class Regexer(object):
                 numFound += 1
         return numFound
 
+    def position(self, byteIndex):
+        # positions in strings are numbers of characters, not UTF-8 bytes
+        if self.isString:
+            return len(self.haystack[:byteIndex].decode("utf-8"))
+        else:
+            return byteIndex
+
     def getRegion(self):
         return Region(self.groupArray, self.indexOffset)
 
@@ -218,7 +225,7 @@ class Index(LibFcn):
         re = Regexer(haystack, pattern, self.errcodeBase + 0, self.name, pos, paramTypes[0] == "string")
         if re.search(0):
             region = re.getRegion()
-            out = [region.beg[0], region.end[0]]
+            out = [re.position(region.beg[0]), re.position(region.end[0])]
         else:
             out = []
         re.free()
@@ -278,7 +285,7 @@ class RIndex(LibFcn):
                 region = re.getRegion()
                 start = region.end[0]
                 found = re.search(start)
-            out = [region.beg[0], region.end[0]]
+            out = [re.position(region.beg[0]), re.position(region.end[0])]
         else:
             out = []
         re.free()
@@ -300,7 +307,7 @@ class Groups(LibFcn):
         out = []
         if found:
             for i in range(0, re.groupsFound()):
-                out.append([region.beg[i], region.end[i]])
+                out.append([re.position(region.beg[i]), re.position(region.end[i])])
         else:
             out = []
         re.free()
@@ -325,7 +332,7 @@ class IndexAll(LibFcn):
                 region = re.getRegion()
                 start = region.end[0]
                 found = re.search(start)
-                out.append([region.beg[0], region.end[0]])
+                out.append([re.position(region.beg[0]), re.position(region.end[0])])
         else:
             out = []
         re.free()
@@ -447,7 +454,7 @@ class GroupsAll(LibFcn):
                 region = re.getRegion()
                 groupList = []
                 for i in range(0, re.groupsFound()):
-                    groupList.append([region.beg[i], region.end[i]])
+                    groupList.append([re.position(region.beg[i]), re.position(region.end[i])])
                 out.append(groupList)
                 start = region.end[0]
                 found = re.search(start)
-- 
2.43.0


From 2591acc296ba7c179a0d6b9d0a30d0577b3d321b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:00 +0000
Subject: [PATCH 14/64] fix: values of unions of namespaced types are tagged by
 full name, as documented

---
 titus/datatype.py | 22 ++++++++++++++--------
 titus/genpy.py    |  4 ++--
 2 files changed, 16 insertions(+), 10 deletions(-)

diff --git a/titus/datatype.py b/titus/datatype.py
index 333f28a..25df9d0 100644
--- a/titus/datatype.py
+++ b/titus/datatype.py
@@ -297,6 +297,11 @@ class AvroType(Type):
     @property
     def avroType(self): return self
 
+    @property
+    def fullName(self):
+        """Name with namespace (if it has one), which is used as a key in tagged unions."""
+        return self.name
+
     def __repr__(self):
         return str(self.schema)
 
@@ -944,8 +949,9 @@ def jsonDecoder(avroType, value):
             tag, = list(value.keys())
             val, = list(value.values())
             types = dict((x.name, x) for x in avroType.types)
+            types.update((x.fullName, x) for x in avroType.types)
             if tag in types:
-                return {tag: jsonDecoder(types[tag], val)}
+                return {types[tag].fullName: jsonDecoder(types[tag], val)}
         elif value is None and "null" in [x.name for x in avroType.types]:
             return None
     else:
@@ -1012,7 +1018,7 @@ def jsonEncoder(avroType, value, tagged=True):
                     pass
                 else:
                     if tagged:
-                        return {t.name: out}
+                        return {t.fullName: out}
                     else:
                         return out
         for t in avroType.types:
@@ -1022,7 +1028,7 @@ def jsonEncoder(avroType, value, tagged=True):
                 pass
             else:
                 if tagged:
-                    return {t.name: out}
+                    return {t.fullName: out}
                 else:
                     return out
     raise titus.errors.AvroException("{0} does not match schema {1}".format(json.dumps(value), ts(avroType)))
@@ -1117,7 +1123,7 @@ def compare(avroType, x, y):
     elif isinstance(avroType, AvroUnion):
         if isinstance(x, dict) and len(x) == 1:
             (xtag, x), = list(x.items())
-            xtypei, xtype = [(ti, t) for ti, t in enumerate(avroType.types) if t.name == xtag][0]
+            xtypei, xtype = [(ti, t) for ti, t in enumerate(avroType.types) if xtag in (t.fullName, t.name)][0]
         else:
             xtypei = None
             for ti, t in enumerate(avroType.types):
@@ -1132,7 +1138,7 @@ def compare(avroType, x, y):
                 raise titus.errors.AvroException()
         if isinstance(y, dict) and len(y) == 1:
             (ytag, y), = list(y.items())
-            ytypei, ytype = [(ti, t) for ti, t in enumerate(avroType.types) if t.name == ytag][0]
+            ytypei, ytype = [(ti, t) for ti, t in enumerate(avroType.types) if ytag in (t.fullName, t.name)][0]
         else:
             ytypei = None
             for ti, t in enumerate(avroType.types):
@@ -1315,11 +1321,11 @@ def checkData(data, avroType):
             tag, = list(data.keys())
             value, = list(data.values())
             for tpe in avroType.types:
-                if tpe.name == tag:
+                if tag in (tpe.fullName, tpe.name):
                     if tag == "null":
                         return checkData(value, tpe)
                     else:
-                        return {tag: checkData(value, tpe)}
+                        return {tpe.fullName: checkData(value, tpe)}
             raise TypeError("expecting {0}, found {1}".format(ts(avroType), data))
 
         for tpe in avroType.types:
@@ -1331,7 +1337,7 @@ def checkData(data, avroType):
                 if tpe.name == "null":
                     return newData
                 else:
-                    return {tpe.name: newData}
+                    return {tpe.fullName: newData}
         raise TypeError("expecting {0}, found {1}".format(ts(avroType), data))
 
     return data
diff --git a/titus/genpy.py b/titus/genpy.py
index eec9ca3..c6c7449 100644
--- a/titus/genpy.py
+++ b/titus/genpy.py
@@ -443,7 +443,7 @@ class GeneratePython(titus.pfaast.Task):
             if isinstance(context.retType, titus.datatype.AvroUnion) and not isinstance(context.originalType, titus.datatype.AvroUnion):
                 for t in context.retType.types:
                     if t.accepts(context.originalType):
-                        return "wrapAsUnion({}, {})".format(context.expr, repr(t.name))
+                        return "wrapAsUnion({}, {})".format(context.expr, repr(t.fullName))
                 raise Exception   # type-checking should have prevented this
             else:
                 return context.expr
@@ -985,7 +985,7 @@ def cast(state, scope, expr, fromType, cases, partial, parser):
             tag, = list(expr.keys())
             value, = list(expr.values())
 
-            if not ((tag == toType.name) or \
+            if not ((tag == toType.fullName) or \
                     (tag == "int" and toType.name in ("long", "float", "double")) or \
                     (tag == "long" and toType.name in ("float", "double")) or \
                     (tag == "float" and toType.name == "double")):
-- 
2.43.0


From 8ac775cbc2f0ae1f8e80903ca043dff8f339e4e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:22 +0000
Subject: [PATCH 15/64] fix: jsonEncoder encodes a tagged union value as the
 type named by its tag

---
 titus/datatype.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/titus/datatype.py b/titus/datatype.py
index 25df9d0..a7ddaf4 100644
--- a/titus/datatype.py
+++ b/titus/datatype.py
@@ -942,7 +942,7 @@ def jsonDecoder(avroType, value):
                 elif isinstance(field.avroType, AvroNull):
                     out[field.name] = None
                 else:
-                    raise titus.errors.AvroException("{0} does not match schema {1}".format(json.dumps(value), ts(avroType)))
+                    raise titus.errors.AvroException("{0} does not match schema {1}".format(json.dumps(value, default=str), ts(avroType)))
             return out
     elif isinstance(avroType, AvroUnion):
         if isinstance(value, dict) and len(value) == 1:
@@ -956,7 +956,7 @@ def jsonDecoder(avroType, value):
             return None
     else:
         raise Exception
-    raise titus.errors.AvroException("{0} does not match schema {1}".format(json.dumps(value), ts(avroType)))
+    raise titus.errors.AvroException("{0} does not match schema {1}".format(json.dumps(value, default=str), ts(avroType)))
 
 def jsonEncoder(avroType, value, tagged=True):
     """Encode an object as JSON, given titus.datatype.AvroType.
@@ -1004,14 +1004,15 @@ def jsonEncoder(avroType, value, tagged=True):
             elif field.default is not None:
                 pass
             else:
-                raise titus.errors.AvroException("{0} does not match schema {1}".format(json.dumps(value), ts(avroType)))
+                raise titus.errors.AvroException("{0} does not match schema {1}".format(json.dumps(value, default=str), ts(avroType)))
         return out
     elif isinstance(avroType, AvroUnion) and any(isinstance(t, AvroNull) for t in avroType.types) and value is None:
         return None
     elif isinstance(avroType, AvroUnion):
         if isinstance(value, dict) and len(value) == 1:
-            val, = list(value.values())
-            for t in avroType.types:
+            (tag, val), = list(value.items())
+            # the type named by the tag comes first
+            for t in sorted(avroType.types, key=lambda t: tag not in (t.fullName, t.name)):
                 try:
                     out = jsonEncoder(t, val, tagged)
                 except titus.errors.AvroException:
@@ -1031,7 +1032,7 @@ def jsonEncoder(avroType, value, tagged=True):
                     return {t.fullName: out}
                 else:
                     return out
-    raise titus.errors.AvroException("{0} does not match schema {1}".format(json.dumps(value), ts(avroType)))
+    raise titus.errors.AvroException("{0} does not match schema {1}".format(json.dumps(value, default=str), ts(avroType)))
 
 def compare(avroType, x, y):
     """Returns -1, 0, or 1 depending on whether x is less than, equal to, or greater than y, according to the schema.
-- 
2.43.0


From 44c7cb789a964cf0d237e86bd729d7b506ab6b6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:51 +0000
Subject: [PATCH 16/64] fix: casts accept bytes and fixed values that arrive as
 Python bytes

---
 titus/datatype.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/titus/datatype.py b/titus/datatype.py
index a7ddaf4..8afee05 100644
--- a/titus/datatype.py
+++ b/titus/datatype.py
@@ -913,10 +913,10 @@ def jsonDecoder(avroType, value):
         except (ValueError, TypeError):
             pass
     elif isinstance(avroType, AvroBytes):
-        if isinstance(value, str):
+        if isinstance(value, (str, bytes)):
             return value
     elif isinstance(avroType, AvroFixed):
-        if isinstance(value, str):
+        if isinstance(value, (str, bytes)):
             if len(value) == avroType.size:
                 return value
     elif isinstance(avroType, AvroString):
-- 
2.43.0


From 273e833e26395a201a42eebb0aa7b4e7bbc7f3fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:51 +0000
Subject: [PATCH 17/64] fix: cast.avro untags unions inside containers and
 accepts bytes made by other functions

---
 titus/lib/cast.py | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/titus/lib/cast.py b/titus/lib/cast.py
index 5910d7d..ffcdd7a 100644
--- a/titus/lib/cast.py
+++ b/titus/lib/cast.py
@@ -24,7 +24,7 @@ import json
 import avro.schema
 from avro.io import BinaryEncoder, DatumWriter
 
-from titus.util import untagUnion, bytesToString
+from titus.util import bytesToString, stringToBytes
 from titus.datatype import schemaToAvroType
 from titus.datatype import jsonNodeToAvroType
 from titus.fcn import Fcn
@@ -269,13 +269,33 @@ provide(FanoutDouble())
 
 #################################################################### serialize
 
+def avroDatum(x, avroType):
+    # what avro's DatumWriter expects: no union tags, bytes and fixed as bytes
+    if isinstance(avroType, AvroUnion):
+        if isinstance(x, dict) and len(x) == 1:
+            (tag, value), = list(x.items())
+            for t in avroType.types:
+                if tag in (t.fullName, t.name):
+                    return avroDatum(value, t)
+        return x
+    elif isinstance(avroType, (AvroBytes, AvroFixed)):
+        return stringToBytes(x) if isinstance(x, str) else x
+    elif isinstance(avroType, AvroArray):
+        return [avroDatum(y, avroType.items) for y in x]
+    elif isinstance(avroType, AvroMap):
+        return dict((k, avroDatum(v, avroType.values)) for k, v in list(x.items()))
+    elif isinstance(avroType, AvroRecord):
+        return dict((f.name, avroDatum(x[f.name], f.avroType)) for f in avroType.fields)
+    else:
+        return x
+
 class CastAvro(LibFcn):
     name = prefix + "avro"
     sig = Sig([{"x": P.Wildcard("A")}], P.Bytes())
     errcodeBase = 17110
     def __call__(self, state, scope, pos, paramTypes, x):
         schema = avro.schema.Parse(json.dumps(paramTypes[0]))
-        x = untagUnion(x, paramTypes[0])
+        x = avroDatum(x, jsonNodeToAvroType(paramTypes[0]))
         bytes_io = io.BytesIO()
         writer = DatumWriter(schema)
         writer.write(x, BinaryEncoder(bytes_io))
-- 
2.43.0


From f1da7da18ce300b1e6cdb407f0321cfb22f128ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:51 +0000
Subject: [PATCH 18/64] fix: malformed base64 is a PFA error and encoding tests
 accept bytes made by other functions

---
 titus/lib/bytes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/titus/lib/bytes.py b/titus/lib/bytes.py
index 92799e8..9c0d4b4 100644
--- a/titus/lib/bytes.py
+++ b/titus/lib/bytes.py
@@ -83,7 +83,7 @@ class Tester(LibFcn):
     def __call__(self, state, scope, pos, paramTypes, x):
         if paramTypes[0] == "bytes" or paramTypes[0] == {"type": "bytes"}:
             try:
-                codecs.decode(x, self.codec, "strict")
+                codecs.decode(stringToBytes(x) if isinstance(x, str) else x, self.codec, "strict")
             except UnicodeDecodeError:
                 return False
             else:
@@ -251,6 +251,6 @@ class FromBase64(LibFcn):
                 raise TypeError
             out = base64.b64decode(s)
             return bytesToString(out)
-        except TypeError:
+        except (TypeError, ValueError):
             raise PFARuntimeException("invalid base64", self.errcodeBase + 0, self.name, pos)
 provide(FromBase64())
-- 
2.43.0


From f5876b9ed45dd4dd8e23e97892291c5ae9ad064c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:25 +0000
Subject: [PATCH 19/64] fix: rounding to integers is exact for
 0.49999999999999994 and large doubles

---
 titus/lib/cast.py    |  6 +++---
 titus/lib/pfamath.py |  3 ++-
 titus/util.py        | 16 ++++++++++++++++
 3 files changed, 21 insertions(+), 4 deletions(-)

diff --git a/titus/lib/cast.py b/titus/lib/cast.py
index ffcdd7a..2f2598c 100644
--- a/titus/lib/cast.py
+++ b/titus/lib/cast.py
@@ -24,7 +24,7 @@ import json
 import avro.schema
 from avro.io import BinaryEncoder, DatumWriter
 
-from titus.util import bytesToString, stringToBytes
+from titus.util import bytesToString, roundHalfUp, stringToBytes
 from titus.datatype import schemaToAvroType
 from titus.datatype import jsonNodeToAvroType
 from titus.fcn import Fcn
@@ -102,7 +102,7 @@ class ToInt(LibFcn):
                 if math.isnan(x):
                     raise OverflowError
                 else:
-                    out = int(math.floor(x + 0.5))
+                    out = roundHalfUp(x)
             else:
                 out = x
             if INT_MIN_VALUE <= out <= INT_MAX_VALUE:
@@ -126,7 +126,7 @@ class ToLong(LibFcn):
                 if math.isnan(x):
                     raise OverflowError
                 else:
-                    out = int(math.floor(x + 0.5))
+                    out = roundHalfUp(x)
             else:
                 out = x
             if LONG_MIN_VALUE <= out <= LONG_MAX_VALUE:
diff --git a/titus/lib/pfamath.py b/titus/lib/pfamath.py
index a7ddc62..d20ac9d 100644
--- a/titus/lib/pfamath.py
+++ b/titus/lib/pfamath.py
@@ -26,6 +26,7 @@ from titus.signature import Sigs
 from titus.datatype import *
 from titus.errors import *
 from titus.lib.core import checkForOverflow
+from titus.util import roundHalfUp
 import titus.P as P
 
 provides = {}
@@ -275,7 +276,7 @@ class Round(LibFcn):
         if math.isinf(x) or math.isnan(x):
             out = x
         else:
-            out = math.floor(x + 0.5)
+            out = roundHalfUp(x)
         return int(checkForOverflow(paramTypes[-1], out, self.errcodeBase + 0, self.errcodeBase + 1, self.name, pos))
 provide(Round())
 
diff --git a/titus/util.py b/titus/util.py
index f249227..192a819 100644
--- a/titus/util.py
+++ b/titus/util.py
@@ -18,6 +18,7 @@
 # limitations under the License.
 
 import inspect
+import math
 import sys
 
 TYPE_ERRORS_IN_PRETTYPFA = True
@@ -415,6 +416,21 @@ def bytesToString(value):
     except:
         raise TypeError("value is not of type bytes")
 
+def roundHalfUp(value):
+    """Round a finite number to the nearest integer, with halves rounded up.
+
+    Unlike ``math.floor(value + 0.5)``, this is exact: the sum can round up to the next integer.
+
+    :type value: number
+    :param value: finite number to round
+    :rtype: integer
+    :return: the nearest integer
+    """
+    out = int(math.floor(value))
+    if value - out >= 0.5:
+        out += 1
+    return out
+
 def stringToBytes(value):
     """Coverts value in string to corresponding bytes representation.
 
-- 
2.43.0


From d9e18b76be2bdae739b538d8508d89fabedb6f70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:14 +0000
Subject: [PATCH 20/64] fix: negative array indexes in attr, cell and pool
 paths are array index errors

---
 titus/genpy.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/titus/genpy.py b/titus/genpy.py
index c6c7449..3823d07 100644
--- a/titus/genpy.py
+++ b/titus/genpy.py
@@ -652,6 +652,8 @@ def get(obj, path, arrayErrCode, mapErrCode, fcnName, pos):
 
     while len(path) > 0:
         head, tail = path[0], path[1:]
+        if isinstance(obj, (list, tuple)) and head < 0:
+            raise PFARuntimeException("array index not found", arrayErrCode, fcnName, pos)
         try:
             obj = obj[head]
         except (KeyError, IndexError):
-- 
2.43.0


From 21c51eaacbe3b82f4194f0e7f7185af9a9ae483d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:22 +0000
Subject: [PATCH 21/64] fix: attr-to, cell-to and pool-to no longer ignore a
 missing array index or map key

---
 titus/genpy.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/titus/genpy.py b/titus/genpy.py
index 3823d07..933f256 100644
--- a/titus/genpy.py
+++ b/titus/genpy.py
@@ -694,8 +694,11 @@ def update(state, scope, obj, path, to, arrayErrCode, mapErrCode, fcnName, pos):
         head, tail = path[0], path[1:]
 
         if isinstance(obj, dict):
-            if len(tail) > 0 and head not in obj:
-                raise PFARuntimeException("map key not found", mapErrCode, fcnName, pos)
+            if head not in obj:
+                if len(tail) > 0 or callable(to):
+                    raise PFARuntimeException("map key not found", mapErrCode, fcnName, pos)
+                obj = dict(obj, **{head: None})
+
             out = {}
             for k, v in list(obj.items()):
                 if k == head:
@@ -705,7 +708,7 @@ def update(state, scope, obj, path, to, arrayErrCode, mapErrCode, fcnName, pos):
             return out
 
         elif isinstance(obj, (list, tuple)):
-            if (len(tail) > 0 and head >= len(obj)) or head < 0:
+            if head >= len(obj) or head < 0:
                 raise PFARuntimeException("array index not found", arrayErrCode, fcnName, pos)
             out = []
             for i, x in enumerate(obj):
-- 
2.43.0


From 85bdf12cfe02940c147f26403b2f2fff1a866636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:35 +0000
Subject: [PATCH 22/64] fix: set assigns variables of several scopes in one
 expression

---
 titus/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/titus/util.py b/titus/util.py
index 192a819..6574fc7 100644
--- a/titus/util.py
+++ b/titus/util.py
@@ -149,7 +149,7 @@ class DynamicScope(object):
             if symbol in self.symbols:
                 self.symbols[symbol] = value
             elif self.parent is not None:
-                self.parent.set(nameExpr)
+                self.parent.set({symbol: value})
             else:
                 raise RuntimeError()
 
-- 
2.43.0


From 33c6e709e5271c56d9f1bf889527effa77b7190c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:21 +0000
Subject: [PATCH 23/64] fix: failed updates of shared cells and pools release
 their lock and leave no trace; pool-del of a shared pool takes the item's
 lock

---
 titus/genpy.py | 51 ++++++++++++++++++++++++--------------------------
 1 file changed, 24 insertions(+), 27 deletions(-)

diff --git a/titus/genpy.py b/titus/genpy.py
index 933f256..4b78c72 100644
--- a/titus/genpy.py
+++ b/titus/genpy.py
@@ -295,11 +295,7 @@ class GeneratePython(titus.pfaast.Task):
 
             out.append("""
     def pooldel(self, name, item):
-        p = self.pools[name]
-        try:
-            del p.value[item]
-        except KeyError:
-            pass
+        self.pools[name].delete(item)
         return None
 """)
 
@@ -548,10 +544,9 @@ class Cell(PersistentStorageItem):
     def update(self, state, scope, path, to, arrayErrCode, mapErrCode, fcnName, pos):
         result = None
         if self.shared:
-            self.lock.acquire()
-            self.value = update(state, scope, self.value, path, to, arrayErrCode, mapErrCode, fcnName, pos)
-            result = self.value
-            self.lock.release()
+            with self.lock:
+                self.value = update(state, scope, self.value, path, to, arrayErrCode, mapErrCode, fcnName, pos)
+                result = self.value
         else:
             self.value = update(state, scope, self.value, path, to, arrayErrCode, mapErrCode, fcnName, pos)
             result = self.value
@@ -586,29 +581,31 @@ class Pool(PersistentStorageItem):
         head, tail = path[0], path[1:]
 
         if self.shared:
-            self.locklock.acquire()
-            if head in self.locks:
-                self.locks[head].acquire()
-            else:
-                self.locks[head] = threading.Lock()
-                self.locks[head].acquire()
-            self.locklock.release()
-
-            if head not in self.value:
-                self.value[head] = init
-            self.value[head] = update(state, scope, self.value[head], tail, to, arrayErrCode, mapErrCode, fcnName, pos)
-
-            result = self.value[head]
-            self.locks[head].release()
+            with self.lockOf(head):
+                result = update(state, scope, self.value.get(head, init), tail, to, arrayErrCode, mapErrCode, fcnName, pos)
+                self.value[head] = result
 
         else:
-            if head not in self.value:
-                self.value[head] = init
-            self.value[head] = update(state, scope, self.value[head], tail, to, arrayErrCode, mapErrCode, fcnName, pos)
-            result = self.value[head]
+            result = update(state, scope, self.value.get(head, init), tail, to, arrayErrCode, mapErrCode, fcnName, pos)
+            self.value[head] = result
 
         return result
 
+    def lockOf(self, item):
+        """The lock that serializes changes to one item of a shared pool."""
+        with self.locklock:
+            if item not in self.locks:
+                self.locks[item] = threading.Lock()
+            return self.locks[item]
+
+    def delete(self, item):
+        """Remove an item from the pool; do nothing if it is not there."""
+        if self.shared:
+            with self.lockOf(item):
+                self.value.pop(item, None)
+        else:
+            self.value.pop(item, None)
+
     def maybeSaveBackup(self):
         if self.rollback:
             self.oldvalue = dict(self.value)
-- 
2.43.0


From 3c2cec47fe4e0def30d5b20b42b99838ff6bfabf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:17 +0000
Subject: [PATCH 24/64] fix: timeouts apply to each method: timeout.begin,
 timeout.action, timeout.end, and merge

---
 titus/genpy.py   | 6 ++++--
 titus/options.py | 8 ++++----
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/titus/genpy.py b/titus/genpy.py
index 4b78c72..23d055e 100644
--- a/titus/genpy.py
+++ b/titus/genpy.py
@@ -207,7 +207,7 @@ class GeneratePython(titus.pfaast.Task):
             if len(begin) > 0:
                 out.append("""
     def begin(self):
-        state = ExecutionState(self.options, self.rand, 'action', self.parser)
+        state = ExecutionState(self.options, self.rand, 'begin', self.parser)
         scope = DynamicScope(None)
         scope.let({'name': self.config.name, 'instance': self.instance, 'metadata': self.config.metadata})
         if self.config.version is not None:
@@ -281,7 +281,7 @@ class GeneratePython(titus.pfaast.Task):
                 
                 out.append("""
     def end(self):
-        state = ExecutionState(self.options, self.rand, 'action', self.parser)
+        state = ExecutionState(self.options, self.rand, 'end', self.parser)
         scope = DynamicScope(None)
         scope.let({'name': self.config.name, 'instance': self.instance, 'metadata': self.config.metadata, 'actionsStarted': self.actionsStarted, 'actionsFinished': self.actionsFinished})
         if self.config.version is not None:
@@ -501,6 +501,8 @@ class ExecutionState(object):
             self.timeout = options.timeout_action
         elif routine == "end":
             self.timeout = options.timeout_end
+        else:
+            self.timeout = options.timeout
 
         self.startTime = time.time()
 
diff --git a/titus/options.py b/titus/options.py
index 38030e9..c947b44 100644
--- a/titus/options.py
+++ b/titus/options.py
@@ -37,12 +37,12 @@ class EngineOptions(object):
             out = combinedOptions.get(name, default)
             try:
                 return int(out)
-            except ValueError:
+            except (ValueError, TypeError, OverflowError):
                 raise PFAInitializationException(name + " must be an integral number")
 
         self.timeout = longOpt("timeout", -1)
-        self.timeout_begin = longOpt("timeout", self.timeout)
-        self.timeout_action = longOpt("timeout", self.timeout)
-        self.timeout_end = longOpt("timeout", self.timeout)
+        self.timeout_begin = longOpt("timeout.begin", self.timeout)
+        self.timeout_action = longOpt("timeout.action", self.timeout)
+        self.timeout_end = longOpt("timeout.end", self.timeout)
 
         # ...
-- 
2.43.0


From e21787747c43c50aa3897738050f9a63043ed70a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:27 +0000
Subject: [PATCH 25/64] fix: try does not swallow timeouts, and its filter lets
 other exceptions through unchanged

---
 titus/genpy.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/titus/genpy.py b/titus/genpy.py
index 23d055e..d4ec9d9 100644
--- a/titus/genpy.py
+++ b/titus/genpy.py
@@ -1307,11 +1307,13 @@ def tryCatch(state, scope, exprs, filter):
     """
     try:
         return exprs(state, scope)
+    except PFATimeoutException:
+        raise
     except Exception as err:
-        if filter is None or err.message in filter or err.code in filter:
+        if filter is None or getattr(err, "message", None) in filter or (getattr(err, "code", None) is not None and err.code in filter):
             return None
         else:
-            raise err
+            raise
 
 def genericLog(message, namespace):
     """Generic log function for use in PFAEngine.log.
-- 
2.43.0


From 40f87955386e6db23b1af95f780dd981ccdc003f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:33 +0000
Subject: [PATCH 26/64] fix: cast-case matches values by their type, not by
 what can be converted

---
 titus/genpy.py | 53 ++++++++++++++++++++++++++++++++++++++++++++------
 1 file changed, 47 insertions(+), 6 deletions(-)

diff --git a/titus/genpy.py b/titus/genpy.py
index d4ec9d9..97bd461 100644
--- a/titus/genpy.py
+++ b/titus/genpy.py
@@ -19,6 +19,7 @@
 
 import base64
 import json
+import numbers
 import math
 import threading
 import time
@@ -959,6 +960,48 @@ def doForkeyval(state, scope, forkey, forval, mapping, loopBody):
         loopBody(state, bodyScope)
     return None
         
+def hasType(value, avroType):
+    """Determine whether a runtime value belongs to a given type (union values may or may not be tagged).
+
+    :type value: dicts, lists, strings, numbers, ``True``, ``False``, ``None``
+    :param value: the runtime value
+    :type avroType: titus.datatype.AvroType
+    :param avroType: type to test
+    :rtype: bool
+    :return: ``True`` if the value is in the type; ``False`` otherwise
+    """
+
+    if isinstance(avroType, titus.datatype.AvroNull):
+        return value is None
+    elif isinstance(avroType, titus.datatype.AvroBoolean):
+        return value is True or value is False
+    elif isinstance(avroType, (titus.datatype.AvroInt, titus.datatype.AvroLong)):
+        return isinstance(value, numbers.Integral) and not isinstance(value, bool)
+    elif isinstance(avroType, (titus.datatype.AvroFloat, titus.datatype.AvroDouble)):
+        return isinstance(value, numbers.Real) and not isinstance(value, bool)
+    elif isinstance(avroType, titus.datatype.AvroBytes):
+        return isinstance(value, (str, bytes))
+    elif isinstance(avroType, titus.datatype.AvroFixed):
+        return isinstance(value, (str, bytes)) and len(value) == avroType.size
+    elif isinstance(avroType, titus.datatype.AvroString):
+        return isinstance(value, str)
+    elif isinstance(avroType, titus.datatype.AvroEnum):
+        return isinstance(value, str) and value in avroType.symbols
+    elif isinstance(avroType, titus.datatype.AvroArray):
+        return isinstance(value, (list, tuple)) and all(hasType(x, avroType.items) for x in value)
+    elif isinstance(avroType, titus.datatype.AvroMap):
+        return isinstance(value, dict) and all(hasType(x, avroType.values) for x in value.values())
+    elif isinstance(avroType, titus.datatype.AvroRecord):
+        return isinstance(value, dict) and all(f.name in value and hasType(value[f.name], f.avroType) for f in avroType.fields)
+    elif isinstance(avroType, titus.datatype.AvroUnion):
+        if isinstance(value, dict) and len(value) == 1:
+            (tag, untagged), = value.items()
+            if any(tag in (x.name, x.fullName) and hasType(untagged, x) for x in avroType.types):
+                return True
+        return any(hasType(value, x) for x in avroType.types)
+    else:
+        return False
+
 def cast(state, scope, expr, fromType, cases, partial, parser):
     """Helper function for type-safe casting as an expression.
 
@@ -998,13 +1041,11 @@ def cast(state, scope, expr, fromType, cases, partial, parser):
         else:
             value = expr
 
-        try:
-            castValue = titus.datatype.jsonDecoder(toType, value)
-        except (AvroException, TypeError):
-            pass
-        else:
+        if hasType(value, toType):
+            if isinstance(toType, (titus.datatype.AvroFloat, titus.datatype.AvroDouble)):
+                value = float(value)
             clauseScope = DynamicScope(scope)
-            clauseScope.let({name: castValue})
+            clauseScope.let({name: value})
             out = clause(state, clauseScope)
 
             if partial:
-- 
2.43.0


From 69ccb52644c4d979c872848787d723974b9025dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:27 +0000
Subject: [PATCH 27/64] fix: pack and unpack formats must match as a whole

---
 titus/pfaast.py | 36 ++++++++++++++++++------------------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/titus/pfaast.py b/titus/pfaast.py
index 102d7c1..53299fc 100644
--- a/titus/pfaast.py
+++ b/titus/pfaast.py
@@ -5669,28 +5669,28 @@ class BinaryFormatter(object):
         :return: format declarer
         """
 
-        if re.match(BinaryFormatter.formatPad, f):             return BinaryFormatter.DeclarePad(value)
-        elif re.match(BinaryFormatter.formatBoolean, f):       return BinaryFormatter.DeclareBoolean(value)
-        elif re.match(BinaryFormatter.formatByte, f):          return BinaryFormatter.DeclareByte(value, False)
-        elif re.match(BinaryFormatter.formatUnsignedByte, f):  return BinaryFormatter.DeclareByte(value, True)
-        elif re.match(BinaryFormatter.formatShort, f):         return BinaryFormatter.DeclareShort(value, "<" in f or "little" in f, False)
-        elif re.match(BinaryFormatter.formatUnsignedShort, f): return BinaryFormatter.DeclareShort(value, "<" in f or "little" in f, True)
-        elif re.match(BinaryFormatter.formatInt, f):           return BinaryFormatter.DeclareInt(value, "<" in f or "little" in f, False)
-        elif re.match(BinaryFormatter.formatUnsignedInt, f):   return BinaryFormatter.DeclareInt(value, "<" in f or "little" in f, True)
-        elif re.match(BinaryFormatter.formatLong, f):          return BinaryFormatter.DeclareLong(value, "<" in f or "little" in f, False)
-        elif re.match(BinaryFormatter.formatUnsignedLong, f):  return BinaryFormatter.DeclareLong(value, "<" in f or "little" in f, True)
-        elif re.match(BinaryFormatter.formatFloat, f):         return BinaryFormatter.DeclareFloat(value, "<" in f or "little" in f)
-        elif re.match(BinaryFormatter.formatDouble, f):        return BinaryFormatter.DeclareDouble(value, "<" in f or "little" in f)
-        elif re.match(BinaryFormatter.formatRawSize, f):       return BinaryFormatter.DeclareRawSize(value, int(re.match(BinaryFormatter.formatRawSize, f).group(1)))
-        elif re.match(BinaryFormatter.formatToNull, f):        return BinaryFormatter.DeclareToNull(value)
-        elif re.match(BinaryFormatter.formatPrefixed, f):      return BinaryFormatter.DeclarePrefixed(value)
-        elif re.match(BinaryFormatter.formatRaw, f):
+        if re.fullmatch(BinaryFormatter.formatPad, f):             return BinaryFormatter.DeclarePad(value)
+        elif re.fullmatch(BinaryFormatter.formatBoolean, f):       return BinaryFormatter.DeclareBoolean(value)
+        elif re.fullmatch(BinaryFormatter.formatByte, f):          return BinaryFormatter.DeclareByte(value, False)
+        elif re.fullmatch(BinaryFormatter.formatUnsignedByte, f):  return BinaryFormatter.DeclareByte(value, True)
+        elif re.fullmatch(BinaryFormatter.formatShort, f):         return BinaryFormatter.DeclareShort(value, "<" in f or "little" in f, False)
+        elif re.fullmatch(BinaryFormatter.formatUnsignedShort, f): return BinaryFormatter.DeclareShort(value, "<" in f or "little" in f, True)
+        elif re.fullmatch(BinaryFormatter.formatInt, f):           return BinaryFormatter.DeclareInt(value, "<" in f or "little" in f, False)
+        elif re.fullmatch(BinaryFormatter.formatUnsignedInt, f):   return BinaryFormatter.DeclareInt(value, "<" in f or "little" in f, True)
+        elif re.fullmatch(BinaryFormatter.formatLong, f):          return BinaryFormatter.DeclareLong(value, "<" in f or "little" in f, False)
+        elif re.fullmatch(BinaryFormatter.formatUnsignedLong, f):  return BinaryFormatter.DeclareLong(value, "<" in f or "little" in f, True)
+        elif re.fullmatch(BinaryFormatter.formatFloat, f):         return BinaryFormatter.DeclareFloat(value, "<" in f or "little" in f)
+        elif re.fullmatch(BinaryFormatter.formatDouble, f):        return BinaryFormatter.DeclareDouble(value, "<" in f or "little" in f)
+        elif re.fullmatch(BinaryFormatter.formatRawSize, f):       return BinaryFormatter.DeclareRawSize(value, int(re.fullmatch(BinaryFormatter.formatRawSize, f).group(1)))
+        elif re.fullmatch(BinaryFormatter.formatToNull, f):        return BinaryFormatter.DeclareToNull(value)
+        elif re.fullmatch(BinaryFormatter.formatPrefixed, f):      return BinaryFormatter.DeclarePrefixed(value)
+        elif re.fullmatch(BinaryFormatter.formatRaw, f):
             if output:
                 return BinaryFormatter.DeclareRaw(value)
             else:
-                raise PFASemanticException("cannot read from unsized \"raw\" in binary formatter", self.pos)
+                raise PFASemanticException("cannot read from unsized \"raw\" in binary formatter", pos)
         else:
-            raise PFASemanticException("unrecognized formatter \"{0}\" found in unpack's \"format\"".format(f), self.pos)
+            raise PFASemanticException("unrecognized formatter \"{0}\" found in unpack's \"format\"".format(f), pos)
 
 @titus.util.case
 class Pack(Expression):
-- 
2.43.0


From 3fdcbe4bf283e9b059ae7a0b5ca4a65ab3f68e9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:23 +0000
Subject: [PATCH 28/64] fix: unpack accepts bytes made by other functions;
 unsigned longs unpack as doubles

---
 titus/genpy.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/titus/genpy.py b/titus/genpy.py
index 97bd461..543e814 100644
--- a/titus/genpy.py
+++ b/titus/genpy.py
@@ -1258,6 +1258,8 @@ def unpackOne(byte_s, scope, s, f, l):
         if len(this) != l:
             raise MisalignedPacking()
         value, = struct.unpack(f, this)
+        if "Q" in f:
+            value = float(value)
         scope.let({s: value})
 
     return that
@@ -1278,6 +1280,8 @@ def unpack(state, scope, byte_s, format, thenClause):
     :return: nothing
     """
 
+    if isinstance(byte_s, str):
+        byte_s = titus.util.stringToBytes(byte_s)
     thenScope = DynamicScope(scope)
     try:
         for s, f, l in format:
@@ -1306,6 +1310,8 @@ def unpackElse(state, scope, byte_s, format, thenClause, elseClause):
     :return: if there was no titus.genpy.MisalignedPacking exception, returns result of ``thenClause``, otherwise, returns result of ``elseClause``
     """
 
+    if isinstance(byte_s, str):
+        byte_s = titus.util.stringToBytes(byte_s)
     thenScope = DynamicScope(scope)
     try:
         for s, f, l in format:
-- 
2.43.0


From 55a051a082ae144d51876191bb9fcf990b4544d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:40 +0000
Subject: [PATCH 29/64] fix: input data are checked for ranges, enum symbols,
 fixed sizes and container kinds

---
 titus/datatype.py | 45 +++++++++++++++++++++++++++------------------
 1 file changed, 27 insertions(+), 18 deletions(-)

diff --git a/titus/datatype.py b/titus/datatype.py
index 8afee05..ff3dff2 100644
--- a/titus/datatype.py
+++ b/titus/datatype.py
@@ -1221,9 +1221,9 @@ def checkData(data, avroType):
                 raise TypeError("expecting {0}, found {1}".format(ts(avroType), data))
         elif isinstance(data, integerTypes):
             data = int(data)
-        elif isinstance(data, int):
-            return data
-        else:
+        elif not isinstance(data, int) or isinstance(data, bool):
+            raise TypeError("expecting {0}, found {1}".format(ts(avroType), data))
+        if not -2**31 <= data < 2**31:
             raise TypeError("expecting {0}, found {1}".format(ts(avroType), data))
 
     elif isinstance(avroType, AvroLong):
@@ -1234,9 +1234,9 @@ def checkData(data, avroType):
                 raise TypeError("expecting {0}, found {1}".format(ts(avroType), data))
         elif isinstance(data, integerTypes):
             data = int(data)
-        elif isinstance(data, int):
-            return data
-        else:
+        elif not isinstance(data, int) or isinstance(data, bool):
+            raise TypeError("expecting {0}, found {1}".format(ts(avroType), data))
+        if not -2**63 <= data < 2**63:
             raise TypeError("expecting {0}, found {1}".format(ts(avroType), data))
 
     elif isinstance(avroType, AvroFloat):
@@ -1247,7 +1247,7 @@ def checkData(data, avroType):
                 raise TypeError("expecting {0}, found {1}".format(ts(avroType), data))
         elif isinstance(data, floatTypes):
             data = float(data)
-        elif isinstance(data, int):
+        elif isinstance(data, int) and not isinstance(data, bool):
             data = float(data)
         elif isinstance(data, float):
             return data
@@ -1262,7 +1262,7 @@ def checkData(data, avroType):
                 raise TypeError("expecting {0}, found {1}".format(ts(avroType), data))
         elif isinstance(data, floatTypes):
             return float(data)
-        elif isinstance(data, int):
+        elif isinstance(data, int) and not isinstance(data, bool):
             return float(data)
         elif isinstance(data, float):
             return data
@@ -1270,27 +1270,36 @@ def checkData(data, avroType):
             raise TypeError("expecting {0}, found {1}".format(ts(avroType), data))
 
     elif isinstance(avroType, (AvroBytes, AvroFixed)):
-        if isinstance(data, bytes):
-            return data
-        elif isinstance(data, str):
-            return stringToBytes(data)
-        else:
+        if isinstance(data, str):
+            try:
+                data = stringToBytes(data)
+            except UnicodeEncodeError:
+                raise TypeError("expecting {0}, found {1}".format(ts(avroType), data))
+        if not isinstance(data, bytes) or (isinstance(avroType, AvroFixed) and len(data) != avroType.size):
             raise TypeError("expecting {0}, found {1}".format(ts(avroType), data))
 
-    elif isinstance(avroType, (AvroString, AvroEnum)):
+    elif isinstance(avroType, AvroString):
         if isinstance(data, str):
             return data
         else:
             raise TypeError("expecting {0}, found {1}".format(ts(avroType), data))
 
+    elif isinstance(avroType, AvroEnum):
+        if not isinstance(data, str):
+            raise TypeError("expecting {0}, found {1}".format(ts(avroType), data))
+        elif data in avroType.symbols:
+            return data
+        else:
+            raise titus.errors.AvroException("{0} does not match schema {1}".format(json.dumps(data), ts(avroType)))
+
     elif isinstance(avroType, AvroArray):
-        if hasattr(data, "__iter__"):
+        if hasattr(data, "__iter__") and not isinstance(data, (str, bytes, dict)):
             return [checkData(x, avroType.items) for x in data]
         else:
             raise TypeError("expecting {0}, found {1}".format(ts(avroType), data))
 
     elif isinstance(avroType, AvroMap):
-        if hasattr(data, "__iter__") and hasattr(data, "__getitem__"):
+        if hasattr(data, "__iter__") and hasattr(data, "__getitem__") and not isinstance(data, (str, bytes, list, tuple)):
             newData = {}
             for key in data:
                 value = checkData(data[key], avroType.values)
@@ -1305,7 +1314,7 @@ def checkData(data, avroType):
             raise TypeError("expecting {0}, found {1}".format(ts(avroType), data))
 
     elif isinstance(avroType, AvroRecord):
-        if hasattr(data, "__iter__") and hasattr(data, "__getitem__"):
+        if hasattr(data, "__iter__") and hasattr(data, "__getitem__") and not isinstance(data, (str, bytes, list, tuple)):
             newData = {}
             for field in avroType.fields:
                 try:
@@ -1332,7 +1341,7 @@ def checkData(data, avroType):
         for tpe in avroType.types:
             try:
                 newData = checkData(data, tpe)
-            except TypeError:
+            except (TypeError, titus.errors.AvroException):
                 pass
             else:
                 if tpe.name == "null":
-- 
2.43.0


From b2f1044abd544a4deb56609be20da5c1f4eb0444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:30 +0000
Subject: [PATCH 30/64] fix: getAvroType of a map type returns a map type

---
 titus/datatype.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/titus/datatype.py b/titus/datatype.py
index ff3dff2..f387ea0 100644
--- a/titus/datatype.py
+++ b/titus/datatype.py
@@ -807,7 +807,7 @@ class ForwardDeclarationParser(object):
             elif description.get("type") == "array" and "items" in description:
                 return AvroArray(self.getAvroType(description["items"]))
             elif description.get("type") == "map" and "values" in description:
-                return AvroArray(self.getAvroType(description["values"]))
+                return AvroMap(self.getAvroType(description["values"]))
             elif description.get("type") in ("fixed", "enum", "record"):
                 if self.names.has_name(description.get("name"), description.get("namespace")):
                     return schemaToAvroType(self.names.get_name(description.get("name"), description.get("namespace")))
-- 
2.43.0


From e41d588a1dfb022e1511147d4e2666f2d5a4098b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:48 +0000
Subject: [PATCH 31/64] fix: snapshots hold bytes values, foreign shared state
 and loaded models

---
 titus/genpy.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/titus/genpy.py b/titus/genpy.py
index 543e814..8bcae2c 100644
--- a/titus/genpy.py
+++ b/titus/genpy.py
@@ -43,6 +43,7 @@ import titus.version
 
 from titus.pfaast import EngineConfig
 from titus.pfaast import Cell as AstCell
+from titus.pfaast import CellPoolSource
 from titus.pfaast import Pool as AstPool
 from titus.pfaast import FcnDef
 from titus.pfaast import FcnRef
@@ -1698,8 +1699,15 @@ class PFAEngine(object):
         Note that you can call ``toJson`` on the ``EngineConfig`` to get a string that can be written to a PFA file.
         """
 
-        newCells = dict((k, AstCell(self.config.cells[k].avroPlaceholder, json.dumps(v.value), v.shared, v.rollback, v.source)) for k, v in list(self.cells.items()))
-        newPools = dict((k, AstPool(self.config.pools[k].avroPlaceholder, dict((kk, json.dumps(vv)) for kk, vv in list(v.value.items())), v.shared, v.rollback, v.source)) for k, v in list(self.pools.items()))
+        newCells = {}
+        for name, cell in list(self.config.cells.items()):
+            init = json.dumps(self.cells[name].value, default=titus.util.bytesToString)
+            newCells[name] = AstCell(cell.avroPlaceholder, init, cell.shared, cell.rollback, CellPoolSource.EMBEDDED)
+
+        newPools = {}
+        for name, pool in list(self.config.pools.items()):
+            init = dict((item, json.dumps(value, default=titus.util.bytesToString)) for item, value in list(self.pools[name].value.items()))
+            newPools[name] = AstPool(pool.avroPlaceholder, init, pool.shared, pool.rollback, CellPoolSource.EMBEDDED)
 
         return EngineConfig(
             self.config.name,
-- 
2.43.0


From 4f485504ff9302397b279dc85584c7ef2db97699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:41 +0000
Subject: [PATCH 32/64] fix: collect and replace reach the merge section of a
 document

---
 titus/pfaast.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/titus/pfaast.py b/titus/pfaast.py
index 53299fc..3b7035e 100644
--- a/titus/pfaast.py
+++ b/titus/pfaast.py
@@ -846,6 +846,7 @@ class EngineConfig(Ast):
                titus.util.flatten(x.collect(pf) for x in self.action) + \
                titus.util.flatten(x.collect(pf) for x in self.end) + \
                titus.util.flatten(x.collect(pf) for x in list(self.fcns.values())) + \
+               (titus.util.flatten(x.collect(pf) for x in self.merge) if self.merge is not None else []) + \
                titus.util.flatten(x.collect(pf) for x in list(self.cells.values())) + \
                titus.util.flatten(x.collect(pf) for x in list(self.pools.values()))
 
@@ -871,7 +872,7 @@ class EngineConfig(Ast):
                                 [x.replace(pf) for x in self.end],
                                 dict((k, v.replace(pf)) for k, v in list(self.fcns.items())),
                                 self.zero,
-                                self.merge,
+                                [x.replace(pf) for x in self.merge] if self.merge is not None else None,
                                 dict((k, v.replace(pf)) for k, v in list(self.cells.items())),
                                 dict((k, v.replace(pf)) for k, v in list(self.pools.items())),
                                 self.randseed,
-- 
2.43.0


From 8103f6ba58e9d2a6ffeec5fb3943e33a55061242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:31 +0000
Subject: [PATCH 33/64] fix: YAML aliases are resolved; words like nan and
 infinity are not numbers

---
 titus/reader.py | 57 ++++++++++++++++++++++++++++++++-----------------
 1 file changed, 37 insertions(+), 20 deletions(-)

diff --git a/titus/reader.py b/titus/reader.py
index 881e38a..2e3a39f 100644
--- a/titus/reader.py
+++ b/titus/reader.py
@@ -122,35 +122,52 @@ def yamlToAst(yamlInput):
     """
     import yaml
 
+    anchors = {}
+
+    def anchored(event, value):
+        if event.anchor is not None:
+            anchors[event.anchor] = value
+        return value
+
+    def scalar(event):
+        if not event.implicit[0]:
+            return event.value
+        elif event.value in ("yes", "Yes", "YES", "true", "True", "TRUE", "on", "On", "ON"):
+            return True
+        elif event.value in ("no", "No", "NO", "false", "False", "FALSE", "off", "Off", "OFF"):
+            return False
+        elif event.value in ("null", "Null", "NULL"):
+            return None
+        else:
+            try:
+                return int(event.value)
+            except ValueError:
+                try:
+                    out = float(event.value)
+                except ValueError:
+                    return event.value
+                # Python would also read words like "nan" and "infinity" as numbers
+                return out if re.search("[0-9]", event.value) is not None else event.value
+
     def read(parser):
         try:
             while True:
                 event = next(parser)
-        
-                if isinstance(event, yaml.ScalarEvent):
-                    if not event.implicit[0]:
-                        return event.value
-                    elif event.value in ("yes", "Yes", "YES", "true", "True", "TRUE", "on", "On", "ON"):
-                        return True
-                    elif event.value in ("no", "No", "NO", "false", "False", "FALSE", "off", "Off", "OFF"):
-                        return False
-                    elif event.value in ("null", "Null", "NULL"):
-                        return None
-                    else:
-                        try:
-                            return int(event.value)
-                        except ValueError:
-                            try:
-                                return float(event.value)
-                            except ValueError:
-                                return event.value
+
+                if isinstance(event, yaml.AliasEvent):
+                    if event.anchor not in anchors:
+                        raise PFASyntaxException("undefined YAML alias \"{0}\"".format(event.anchor), "line {0}".format(event.end_mark.line))
+                    return anchors[event.anchor]
+
+                elif isinstance(event, yaml.ScalarEvent):
+                    return anchored(event, scalar(event))
 
                 elif isinstance(event, yaml.SequenceStartEvent):
                     out = []
                     while True:
                         item = read(parser)
                         if isinstance(item, yaml.SequenceEndEvent):
-                            return out
+                            return anchored(event, out)
                         elif isinstance(item, yaml.events.Event):
                             raise PFASyntaxException("malformed YAML", "line {0}".format(event.end_mark.line))
                         else:
@@ -168,7 +185,7 @@ def yamlToAst(yamlInput):
                             else:
                                 out["@"] = "YAML lines {0}-{1}".format(startLine, endLine)
 
-                            return out
+                            return anchored(event, out)
 
                         elif isinstance(key, yaml.events.Event):
                             raise PFASyntaxException("malformed YAML", "line {0}".format(event.end_mark.line))
-- 
2.43.0


From 4f1ba25b6bbe227b0fadc806b7448eafef776661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:39 +0000
Subject: [PATCH 34/64] fix: subscripts bind tighter than operators in
 PrettyPFA

---
 titus/prettypfa.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/titus/prettypfa.py b/titus/prettypfa.py
index dbe7ff3..fa5d55f 100644
--- a/titus/prettypfa.py
+++ b/titus/prettypfa.py
@@ -1633,7 +1633,8 @@ class Parser(object):
                       ("left", "PLUS", "MINUS"),
                       ("left", "TIMES", "FDIV", "IDIV", "MOD", "REM"),
                       ("right", "UMINUS", "BITNOT"),
-                      ("left", "POW")]
+                      ("left", "POW"),
+                      ("left", "LBRACKET")]
 
         def p_expression_replacement(p):
             r'''expression : REPLACEMENT'''
-- 
2.43.0


From 51f6758a2a60f14017a5328c661c4a94db59a062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:55 +0000
Subject: [PATCH 35/64] fix: PrettyPFA reads CRLF text, quoted names and long
 literals and reports errors as PrettyPfaException

---
 titus/prettypfa.py | 44 +++++++++++++++++++++++++++++++++-----------
 1 file changed, 33 insertions(+), 11 deletions(-)

diff --git a/titus/prettypfa.py b/titus/prettypfa.py
index fa5d55f..958378e 100644
--- a/titus/prettypfa.py
+++ b/titus/prettypfa.py
@@ -197,6 +197,19 @@ class Section(object):
     def pools(self, state):
         return dict(x.asPool(state) for x in self.content)
 
+    def engineName(self):
+        if isinstance(self.content, (list, tuple)):
+            if len(self.content) == 1:
+                self.content, = self.content
+            else:
+                raise PrettyPfaException("Only one item allowed in name section")
+        if isinstance(self.content, MiniString):
+            return self.content.value
+        elif isinstance(self.content, MiniDotName):
+            return self.content.name
+        else:
+            raise PrettyPfaException("name must be a string at PrettyPFA line {0}".format(self.lineno))
+
     def method(self):
         if isinstance(self.content, (list, tuple)):
             if len(self.content) == 1:
@@ -495,7 +508,12 @@ class MiniNumber(MiniAst):
         return "MiniNumber({0})".format(repr(self.value))
     def asExpr(self, state):
         if isinstance(self.value, int):
-            return LiteralInt(self.value, self.pos)
+            if -2147483648 <= self.value <= 2147483647:
+                return LiteralInt(self.value, self.pos)
+            elif -9223372036854775808 <= self.value <= 9223372036854775807:
+                return LiteralLong(self.value, self.pos)
+            else:
+                raise PrettyPfaException("integer out of range: {0} at {1}".format(self.value, self.pos))
         else:
             return LiteralDouble(self.value, self.pos)
     def asJson(self):
@@ -640,7 +658,7 @@ class MiniCall(MiniAst):
             elif len(params) == 1:
                 if params[0].name != "code":
                     raise PrettyPfaException("error function has only 1 optional parameter, \"code\", not {0}, at {1}".format(params[0].name, self.pos))
-                if not isinstance(params[0].typeExpr, MiniNumber) and not isinstance(params[0].typeExpr.value, int):
+                if not isinstance(params[0].typeExpr, MiniNumber) or not isinstance(params[0].typeExpr.value, int):
                     raise PrettyPfaException("error function has optional parameter \"code\" must be an integer, not {0}, at {1}".format(params[0].typeExpr, self.pos))
                 code = params[0].typeExpr.value
             else:
@@ -715,7 +733,7 @@ class MiniCall(MiniAst):
             if len(self.args) == 2:
                 if isinstance(self.args[1], MiniDotName):
                     namespace, name = split(self.args[1].name)
-                elif isinstance(self.args[1], MiniDotName):
+                elif isinstance(self.args[1], ResolvedSubs):
                     namespace, name = split(self.args[1].value)
                 else:
                     raise PrettyPfaException("fixed type second argument should be an identifier, not \"{0}\", at {1}".format(type(self.args[1]), self.pos))
@@ -1239,9 +1257,10 @@ class Parser(object):
 
         literals = [",", ";", ":", "=", "@"]
 
-        def insertArrow(lines, which):
-            lines[which] = lines[which] + "     <----"
-            return lines
+        def context(lines, lineno):
+            which = min(max(lineno - 1, 0), len(lines) - 1)
+            start = max(which - 1, 0)
+            return "\n".join(line + "     <----" if i == which else line for i, line in enumerate(lines[start:(which + 2)], start))
 
         def t_COMMENT(t):
             r"//.*"
@@ -1256,7 +1275,7 @@ class Parser(object):
             def t_SECTION_HEADER(t):
                 r"(\r\n?|\n)+[a-z]+:"
                 t.lexer.lineno += len(re.findall(r"(\r\n?|\n)", t.value))
-                t.value = Token("SECTION_HEADER", t.value.lstrip("\n")[:-1], t.lexer.lineno)
+                t.value = Token("SECTION_HEADER", t.value.lstrip("\r\n")[:-1], t.lexer.lineno)
                 return t
 
         def t_DOTNAME(t):
@@ -1278,7 +1297,10 @@ class Parser(object):
 
         def t_STRING(t):
             r'\"([^\\\n]|(\\.))*?\"'
-            t.value = Token("STRING", pythonast.literal_eval(t.value), t.lexer.lineno)
+            try:
+                t.value = Token("STRING", pythonast.literal_eval(t.value), t.lexer.lineno)
+            except (SyntaxError, ValueError):
+                raise PrettyPfaException("Malformed string literal {0} at PrettyPFA line {1}".format(t.value, t.lexer.lineno))
             return t
 
         def t_RAWSTRING(t):
@@ -1447,7 +1469,7 @@ class Parser(object):
             if len(lines) < 2:
                 raise PrettyPfaException("Tokenizing syntax error: \"{0}\" at PrettyPFA line {1}: {2}".format(t.value[0], lineno, self.text))
             else:
-                offendingLine = "\n".join(insertArrow(lines[(lineno - 1):(lineno + 2)], 1))
+                offendingLine = context(lines, lineno)
                 raise PrettyPfaException("Tokenizing syntax error: \"{0}\" at PrettyPFA line {1}:\n{2}".format(t.value[0], lineno, offendingLine))
 
         self.lexer = lex.lex()
@@ -1478,7 +1500,7 @@ class Parser(object):
                 _options = {}
 
                 if "name" in keys:
-                    _name = sectionDict["name"].content.name
+                    _name = sectionDict["name"].engineName()
                 else:
                     _name = titus.util.uniqueEngineName()
 
@@ -2103,7 +2125,7 @@ class Parser(object):
                 if len(lines) < 2:
                     raise PrettyPfaException("Parsing syntax error on line {0}: {1}".format(p.lineno, self.text))
                 else:
-                    offendingLine = "\n".join(insertArrow(lines[(lineno - 1):(lineno + 2)], 1))
+                    offendingLine = context(lines, lineno)
                     raise PrettyPfaException("Parsing syntax error on line {0}:\n{1}".format(p.lineno, offendingLine))
 
         self.yacc = yacc.yacc(debug=False, write_tables=False)
-- 
2.43.0


From 8d138f63a372ef686c8d258fba05d6f4fef3af40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:53 +0000
Subject: [PATCH 36/64] fix: PrettyPFA substitutions can be filled in after
 parsing and see the document's cells and functions

---
 titus/pfaast.py    | 92 +++++++++++++++++++++++-----------------------
 titus/prettypfa.py | 41 +++++++++++++--------
 2 files changed, 72 insertions(+), 61 deletions(-)

diff --git a/titus/pfaast.py b/titus/pfaast.py
index 3b7035e..4da474f 100644
--- a/titus/pfaast.py
+++ b/titus/pfaast.py
@@ -608,52 +608,6 @@ class Ast(object):
         else:
             return OrderedDict()
 
-class Subs(Ast):
-    """Represents an unresolved substitution in the abstract syntax tree.
-
-    PrettyPFA can make substitutions with ``<<French quotes>>``.
-
-    A PFA document is not valid if it contains any unresolved substitutions.
-    """
-
-    def __init__(self, name, lineno=None):
-        """:type name: string
-        :param name: key for substitution
-        :type lineno: integer or ``None``
-        :param lineno: line number
-        """
-        self.name = name
-        self.pos = "Substitution at line " + str(lineno)
-        self.lineno = lineno
-        self.low = lineno
-        self.high = lineno
-        self.context = None
-
-    def asExpr(self, state):
-        """Mini-AST method for representing as an expression."""
-        self.context = "expr"
-        return self
-
-    def asType(self, state):
-        """Mini-AST method for representing as a type."""
-        self.context = "type"
-        return self
-
-    def walk(self, task, version):
-        """Raises a syntax exception because unresolved substitutions are not allowed in valid PFA."""
-        raise PFASyntaxException("Unresolved substitution \"{0}\"".format(self.name), self.pos)
-
-    def toJson(self, lineNumbers=True):
-        """Raises a syntax exception because unresolved substitutions are not allowed in valid PFA."""
-        raise PFASyntaxException("Unresolved substitution \"{0}\"".format(self.name), self.pos)
-
-    def jsonNode(self, lineNumbers, memo):
-        """Inserts ``self`` into the Pythonized JSON, which would make it unserializable."""
-        return self
-
-    def __repr__(self):
-        return "<<" + self.name + ">>"
-        
 class Method(object):
     """PFA execution method may be "map", "emit", or "fold"."""
     MAP = "map"
@@ -1316,6 +1270,52 @@ class Expression(Argument):
     """Trait for all PFA expressions, which resolve to Avro-typed values."""
     pass
 
+class Subs(Expression):
+    """Represents an unresolved substitution in the abstract syntax tree.
+
+    PrettyPFA can make substitutions with ``<<French quotes>>``.
+
+    A PFA document is not valid if it contains any unresolved substitutions.
+    """
+
+    def __init__(self, name, lineno=None):
+        """:type name: string
+        :param name: key for substitution
+        :type lineno: integer or ``None``
+        :param lineno: line number
+        """
+        self.name = name
+        self.pos = "Substitution at line " + str(lineno)
+        self.lineno = lineno
+        self.low = lineno
+        self.high = lineno
+        self.context = None
+
+    def asExpr(self, state):
+        """Mini-AST method for representing as an expression."""
+        self.context = "expr"
+        return self
+
+    def asType(self, state):
+        """Mini-AST method for representing as a type."""
+        self.context = "type"
+        return self
+
+    def walk(self, task, version):
+        """Raises a syntax exception because unresolved substitutions are not allowed in valid PFA."""
+        raise PFASyntaxException("Unresolved substitution \"{0}\"".format(self.name), self.pos)
+
+    def toJson(self, lineNumbers=True):
+        """Raises a syntax exception because unresolved substitutions are not allowed in valid PFA."""
+        raise PFASyntaxException("Unresolved substitution \"{0}\"".format(self.name), self.pos)
+
+    def jsonNode(self, lineNumbers, memo):
+        """Inserts ``self`` into the Pythonized JSON, which would make it unserializable."""
+        return self
+
+    def __repr__(self):
+        return "<<" + self.name + ">>"
+
 class LiteralValue(Expression):
     """Trait for all PFA literal values, which are known constants at compile-time."""
     pass
diff --git a/titus/prettypfa.py b/titus/prettypfa.py
index 958378e..97ed6de 100644
--- a/titus/prettypfa.py
+++ b/titus/prettypfa.py
@@ -347,7 +347,10 @@ class ResolvedSubs(Token, MiniAst):
         if isinstance(self.value, Ast):
             return self.value
         elif isinstance(self.value, str):
-            return ppfa(self.value)
+            exprs = _parseExpressions(self.value, {}, state)
+            if len(exprs) != 1:
+                raise PrettyPfaException("substitution for {0} must be a single expression at {1}".format(self.name, self.pos))
+            return exprs[0]
         else:
             return pfa(self.value)
     def asType(self, state):
@@ -2131,13 +2134,15 @@ class Parser(object):
         self.yacc = yacc.yacc(debug=False, write_tables=False)
         self.initialized = True
 
-    def parse(self, text, subs):
+    def parse(self, text, subs, state=None):
         """Parse the given text, returning a PFA abstract syntax tree.
 
         :type text: string
         :param text: command line to parse
         :type subs: dict of substitutions
         :param subs: substitutions to apply to any strings in ``<<French quotes>>``
+        :type state: InterpretationState or ``None``
+        :param state: types, functions, cells, and pools of the document in which an expression is embedded
         :rtype: titus.pfaast.EngineConfig or titus.pfaast.Expression
         :return: parsed text as an abstract syntax tree
         """
@@ -2149,12 +2154,15 @@ class Parser(object):
         if self.wholeDocument:
             return out
         else:
-            state = InterpretationState()
+            embedded = state is not None
+            if not embedded:
+                state = InterpretationState()
             if isinstance(out, (list, tuple)):
                 out2 = [x.asExpr(state) for x in out]
             else:
                 out2 = out.asExpr(state)
-            state.avroTypeBuilder.resolveTypes()
+            if not embedded:
+                state.avroTypeBuilder.resolveTypes()
             return out2
 
 ###
@@ -2288,6 +2296,19 @@ def engine(text, options=None, version=None, sharedState=None, multiplicity=1, s
 
 exprParser = Parser(False)
 
+def _parseExpressions(text, subs, state=None):
+    """Parse a string of PrettyPFA expressions, possibly as a part of a document with a given ``state``."""
+    if not exprParser.initialized:
+        try:
+            import ply.lex as lex
+            import ply.yacc as yacc
+        except ImportError:
+            raise ImportError("ply (used to parse the PrettyPFA) is not available on your system")
+        else:
+            exprParser.initialize(lex, yacc)
+
+    return exprParser.parse(text, subs, state)
+
 def ppfas(text, subs={}, **subs2):
     """Parse a string of several PrettyPFA expressions (delimited by semicolons) as a list of PFA abstract syntax trees.
 
@@ -2302,17 +2323,7 @@ def ppfas(text, subs={}, **subs2):
     """
 
     subs2.update(subs)
-
-    if not exprParser.initialized:
-        try:
-            import ply.lex as lex
-            import ply.yacc as yacc
-        except ImportError:
-            raise ImportError("ply (used to parse the PrettyPFA) is not available on your system")
-        else:
-            exprParser.initialize(lex, yacc)
-
-    return exprParser.parse(text, subs2)
+    return _parseExpressions(text, subs2)
 
 def ppfa(text, subs={}, **subs2):
     """Parse a string of a single PrettyPFA expression as a PFA abstract syntax trees.
-- 
2.43.0


From e4657ad93daca4c4573e0046245b1e1b1e768e7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:56 +0000
Subject: [PATCH 37/64] fix: a.mode on bytes, a.geomean of a negative product,
 a.logsumexp of infinities, sets without duplicates

---
 titus/lib/array.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/titus/lib/array.py b/titus/lib/array.py
index 7747f8b..35e4abc 100644
--- a/titus/lib/array.py
+++ b/titus/lib/array.py
@@ -744,7 +744,10 @@ class GeoMean(LibFcn):
         if len(a) == 0:
             return float("nan")
         else:
-            return reduce(lambda a, b: a * b, a, 1.0)**(1.0/len(a))
+            product = reduce(lambda a, b: a * b, a, 1.0)
+            if product < 0.0 and len(a) > 1:
+                return float("nan")
+            return product**(1.0/len(a))
 provide(GeoMean())
 
 class Median(LibFcn):
@@ -776,8 +779,9 @@ class Mode(LibFcn):
         else:
             counter = {}
             lookup = {}
+            itemType = jsonNodeToAvroType(paramTypes[0]).items
             for x in a:
-                xx = json.dumps(x)
+                xx = json.dumps(jsonEncoder(itemType, x), sort_keys=True)
                 if xx not in counter:
                     counter[xx] = 0
                     lookup[xx] = x
@@ -865,11 +869,8 @@ class Intersection(LibFcn):
     def __call__(self, state, scope, pos, paramTypes, a, b):
         out = []
         for ai in a:
-            if ai in b:
+            if ai in b and ai not in out:
                 out.append(ai)
-        for bi in b:
-            if bi in a:
-                out.append(bi)
         return out
 provide(Intersection())
 
@@ -880,7 +881,7 @@ class Diff(LibFcn):
     def __call__(self, state, scope, pos, paramTypes, a, b):
         out = []
         for ai in a:
-            if ai not in b:
+            if ai not in b and ai not in out:
                 out.append(ai)
         return out
 provide(Diff())
@@ -892,10 +893,10 @@ class SymDiff(LibFcn):
     def __call__(self, state, scope, pos, paramTypes, a, b):
         out = []
         for ai in a:
-            if ai not in b:
+            if ai not in b and ai not in out:
                 out.append(ai)
         for bi in b:
-            if bi not in a:
+            if bi not in a and bi not in out:
                 out.append(bi)
         return out
 provide(SymDiff())
@@ -1226,6 +1227,8 @@ class Logsumexp(LibFcn):
             return float("nan")
         else:
             dmax = max(datum)
+            if math.isinf(dmax) and not any(math.isnan(v) for v in datum):
+                return dmax
             res = 0.0
             for v in datum:
                 res += math.exp(v - dmax)
-- 
2.43.0


From f4aed5ab0b95f7e5c74cbd459ecd1d8dd52f49df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:56 +0000
Subject: [PATCH 38/64] fix: references to generic functions and invalid names
 are rejected with PFA exceptions

---
 titus/P.py      | 7 ++++---
 titus/reader.py | 8 ++++----
 2 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/titus/P.py b/titus/P.py
index 5e534aa..6466fa1 100644
--- a/titus/P.py
+++ b/titus/P.py
@@ -17,6 +17,7 @@
 # See the License for the specific language governing permissions and
 # limitations under the License.
 
+import titus.signature
 from titus.datatype import Type
 from titus.datatype import FcnType
 from titus.datatype import ExceptionType
@@ -358,9 +359,9 @@ def toType(pat):
     elif isinstance(pat, Record):
         return AvroRecord([AvroField(k, toType(v)) for k, v in list(pat.fields.items())])
 
-    elif isinstance(pat, Fcn): return FcnType([toType(x) for x in pat.params()], toType(pat.ret()))
+    elif isinstance(pat, Fcn): return FcnType([toType(x) for x in pat.params], toType(pat.ret))
 
-    else: raise Exception
+    else: raise titus.signature.IncompatibleTypes("generic pattern does not correspond to one type")
 
 def fromType(t, memo=None):
     """Convert a type to a pattern.
@@ -403,7 +404,7 @@ def fromType(t, memo=None):
         else:
             return Record(dict((f.name, fromType(f.avroType, memo.union(set([t.name])))) for f in t.fields), t.name)
     elif isinstance(t, FcnType): return Fcn([fromType(x, memo) for x in t.params()], fromType(t.ret(), memo))
-    elif isinstance(t, ExceptionType): raise IncompatibleTypes("exception type cannot be used in argument patterns")
+    elif isinstance(t, ExceptionType): raise titus.signature.IncompatibleTypes("exception type cannot be used in argument patterns")
 
 def mustBeAvro(t):
     """Raise a ``TypeError`` if a given titus.datatype.Type is not a titus.datatype.AvroType; otherwise, pass through.
diff --git a/titus/reader.py b/titus/reader.py
index 2e3a39f..55c99ee 100644
--- a/titus/reader.py
+++ b/titus/reader.py
@@ -741,13 +741,13 @@ def _readArgument(data, dot, avroTypeBuilder):
                     _callArgs = [_readArgument(data[key], dot + " -> " + key, avroTypeBuilder)]
 
         if "foreach" in keys and not validSymbolName(_foreach):
-            raise PFASyntaxException("\"{0}\" is not a valid symbol name".format(data[keys]), pos(dot, at))
+            raise PFASyntaxException("\"{0}\" is not a valid symbol name".format(_foreach), pos(dot, at))
         if "forkey" in keys and not validSymbolName(_forkey):
-            raise PFASyntaxException("\"{0}\" is not a valid symbol name".format(data[keys]), pos(dot, at))
+            raise PFASyntaxException("\"{0}\" is not a valid symbol name".format(_forkey), pos(dot, at))
         if "forval" in keys and not validSymbolName(_forval):
-            raise PFASyntaxException("\"{0}\" is not a valid symbol name".format(data[keys]), pos(dot, at))
+            raise PFASyntaxException("\"{0}\" is not a valid symbol name".format(_forval), pos(dot, at))
         if "fcn" in keys and not validFunctionName(_fcnref):
-            raise PFASyntaxException("\"{0}\" is not a valid function name".format(data[keys]), pos(dot, at))
+            raise PFASyntaxException("\"{0}\" is not a valid function name".format(_fcnref), pos(dot, at))
 
         if keys == set(["int"]):                             return LiteralInt(_int, pos(dot, at))
         elif keys == set(["long"]):                          return LiteralLong(_long, pos(dot, at))
-- 
2.43.0


From c44c3df16d2b3ee61679d9f3cb84caf3876646b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:40 +0000
Subject: [PATCH 39/64] fix: map set functions on bytes and fixed; map.zipmap
 of maps with keys in another order

---
 titus/lib/map.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/titus/lib/map.py b/titus/lib/map.py
index ce02b54..8bbed36 100644
--- a/titus/lib/map.py
+++ b/titus/lib/map.py
@@ -29,6 +29,7 @@ from titus.fcn import LibFcn
 from titus.signature import Sig
 from titus.signature import Sigs
 from titus.datatype import *
+from titus.lib.cast import avroDatum
 from titus.util import callfcn
 from titus.errors import PFARuntimeException
 import titus.P as P
@@ -41,7 +42,7 @@ prefix = "map."
 
 class ObjKey(object):
     def toKey(self, x, avroType):
-        x = jsonEncoder(avroType, x, False)
+        x = avroDatum(jsonEncoder(avroType, x), avroType)
         bytes = io.BytesIO()
         writer = DatumWriter(avroType.schema)
         writer.write(x, BinaryEncoder(bytes))
@@ -504,7 +505,7 @@ class ZipMap(LibFcn):
         maps = args[:-1]
         keys = list(maps[0].keys())
         for m in maps:
-            if keys != list(m.keys()):
+            if set(keys) != set(m.keys()):
                 raise PFARuntimeException("misaligned maps", self.errcodeBase + 0, self.name, pos)
         out = {}
         for k in keys:
@@ -523,7 +524,7 @@ class ZipMapWithKey(LibFcn):
         maps = args[:-1]
         keys = list(maps[0].keys())
         for m in maps:
-            if keys != list(m.keys()):
+            if set(keys) != set(m.keys()):
                 raise PFARuntimeException("misaligned maps", self.errcodeBase + 0, self.name, pos)
         out = {}
         for k in keys:
-- 
2.43.0


From 67c1fdabbd041122eac5d7ee5de3357cc616d7b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:34 +0000
Subject: [PATCH 40/64] fix: time.isWorkHours on weekends, makeTimestamp is a
 double, out-of-range local times

---
 titus/lib/pfatime.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/titus/lib/pfatime.py b/titus/lib/pfatime.py
index 0aa4859..1c58e87 100644
--- a/titus/lib/pfatime.py
+++ b/titus/lib/pfatime.py
@@ -55,6 +55,8 @@ def tz(dt, zone, code, name, pos):
             return dt.astimezone(pytz().timezone(zone))
         except pytz().exceptions.UnknownTimeZoneError:
             raise PFARuntimeException("unrecognized timezone string", code, name, pos)
+        except OverflowError:
+            raise PFARuntimeException("timestamp out of range", code + 1, name, pos)
 
 def tscheck(ts, code, name, pos):
     if math.isnan(ts) or ts < -62135596800 or ts > 253402300799:
@@ -127,7 +129,7 @@ provide(SecondOfMinute())
 
 class MakeTimestamp(LibFcn):
     name = prefix + "makeTimestamp"
-    sig = Sig([{"year": P.Int()}, {"month": P.Int()}, {"day": P.Int()}, {"hour": P.Int()}, {"minute": P.Int()}, {"second": P.Int()}, {"millisecond": P.Int()}, {"zone": P.String()}], P.Int())
+    sig = Sig([{"year": P.Int()}, {"month": P.Int()}, {"day": P.Int()}, {"hour": P.Int()}, {"minute": P.Int()}, {"second": P.Int()}, {"millisecond": P.Int()}, {"zone": P.String()}], P.Double())
     epoch = datetime.datetime(1970, 1, 1, 0, 0, 0, 0, UTC())
     errcodeBase = 40080
     def __call__(self, state, scope, pos, paramTypes, year, month, day, hour, minute, second, millisecond, zone):
@@ -137,12 +139,11 @@ class MakeTimestamp(LibFcn):
                 dt = datetime.datetime(year, month, day, hour, minute, second, microsecond, UTC())
             else:
                 dt = pytz().timezone(zone).localize(datetime.datetime(year, month, day, hour, minute, second, microsecond))
+            return (dt.astimezone(UTC()) - self.epoch).total_seconds()
         except pytz().exceptions.UnknownTimeZoneError:
             raise PFARuntimeException("unrecognized timezone string", self.errcodeBase + 0, self.name, pos)
-        except ValueError:
+        except (ValueError, OverflowError):
             raise PFARuntimeException("timestamp undefined for given parameters", self.errcodeBase + 1, self.name, pos)
-        else:
-            return (dt.astimezone(UTC()) - self.epoch).total_seconds()
 provide(MakeTimestamp())
 
 class IsSecondOfMinute(LibFcn):
@@ -239,5 +240,5 @@ class IsWorkHours(LibFcn):
         dt = tz(datetime.datetime.fromtimestamp(tscheck(ts, self.errcodeBase + 1, self.name, pos), UTC()), zone, self.errcodeBase + 0, self.name, pos)
         day = dt.weekday()
         hour = dt.hour
-        return (day != 5 or day != 6) and (hour >= 9 and hour < 17)
+        return (day != 5 and day != 6) and (hour >= 9 and hour < 17)
 provide(IsWorkHours())
-- 
2.43.0


From a00f037ba0534f8314bc0ed3045272f15df378bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:04 +0000
Subject: [PATCH 41/64] fix: la on ragged or sparse matrices and singular
 inverses, orthogonal eigenBasis, overflow in metric and interp

---
 titus/lib/interp.py | 12 +++++++++---
 titus/lib/la.py     | 31 +++++++++++++++++++++++--------
 titus/lib/metric.py | 23 ++++++++++++-----------
 3 files changed, 44 insertions(+), 22 deletions(-)

diff --git a/titus/lib/interp.py b/titus/lib/interp.py
index 37a7fe7..847519e 100644
--- a/titus/lib/interp.py
+++ b/titus/lib/interp.py
@@ -54,7 +54,10 @@ class Bin(LibFcn):
             if math.isnan(x) or x < low or x >= high:
                 raise PFARuntimeException("x out of range", self.errcodeBase + 2, self.name, pos)
 
-            out = int(math.floor(numbins * div((x - low), (high - low))))
+            out = numbins * div((x - low), (high - low))
+            if math.isnan(out) or math.isinf(out):
+                raise PFARuntimeException("x out of range", self.errcodeBase + 2, self.name, pos)
+            out = int(math.floor(out))
 
             if out < 0 or out >= numbins:
                 raise PFARuntimeException("x out of range", self.errcodeBase + 2, self.name, pos)
@@ -68,7 +71,10 @@ class Bin(LibFcn):
             if math.isnan(x) or math.isinf(x):
                 raise PFARuntimeException("x out of range", self.errcodeBase + 2, self.name, pos)
             else:
-                return int(math.floor(div((x - origin), width)))
+                out = div((x - origin), width)
+                if not -2**31 <= out < 2**31:
+                    raise PFARuntimeException("x out of range", self.errcodeBase + 2, self.name, pos)
+                return int(math.floor(out))
 provide(Bin())
     
 class Nearest(LibFcn):
@@ -99,7 +105,7 @@ class Nearest(LibFcn):
                 x = item["x"]
                 if len(x) != len(datum):
                     raise PFARuntimeException("inconsistent dimensionality", self.errcodeBase + 1, self.name, pos)
-                d = sum((x0i - xi)**2 for x0i, xi in zip(datum, x))
+                d = sum((x0i - xi)*(x0i - xi) for x0i, xi in zip(datum, x))
                 if one is None or d < oned:
                     one = item
                     oned = d
diff --git a/titus/lib/la.py b/titus/lib/la.py
index 4e1a0dc..0ece9a3 100644
--- a/titus/lib/la.py
+++ b/titus/lib/la.py
@@ -77,7 +77,7 @@ def raggedArray(x):
     return max(collens) != min(collens)
 
 def raggedMap(x):
-    return len(set(len(xi) for xi in list(x.values()))) != 1
+    return len(set(frozenset(xi.keys()) for xi in list(x.values()))) != 1
 
 class MapApply(LibFcn):
     name = prefix + "map"
@@ -207,8 +207,11 @@ class Dot(LibFcn):
                 # array matrix-matrix case
                 bad = any(any(math.isnan(z) or math.isinf(z) for z in row) for row in x) or \
                       any(any(math.isnan(z) or math.isinf(z) for z in row) for row in y)
-                xmat = arraysToMatrix(x)
-                ymat = arraysToMatrix(y)
+                try:
+                    xmat = arraysToMatrix(x)
+                    ymat = arraysToMatrix(y)
+                except ValueError:
+                    raise PFARuntimeException("misaligned matrices", self.errcodeBase + 0, self.name, pos)
                 if xmat.shape[0] == 0 or xmat.shape[1] == 0 or ymat.shape[0] == 0 or ymat.shape[1] == 0:
                     raise PFARuntimeException("too few rows/cols", self.errcodeBase + 1, self.name, pos)
                 try:
@@ -221,7 +224,10 @@ class Dot(LibFcn):
                 # array matrix-vector case
                 bad = any(any(math.isnan(z) or math.isinf(z) for z in row) for row in x) or \
                       any(math.isnan(z) or math.isinf(z) for z in y)
-                xmat = arraysToMatrix(x)
+                try:
+                    xmat = arraysToMatrix(x)
+                except ValueError:
+                    raise PFARuntimeException("misaligned matrices", self.errcodeBase + 0, self.name, pos)
                 ymat = arrayToRowVector(y)
                 if xmat.shape[0] == 0 or xmat.shape[1] == 0 or ymat.shape[0] == 0 or ymat.shape[1] == 0:
                     raise PFARuntimeException("too few rows/cols", self.errcodeBase + 1, self.name, pos)
@@ -294,6 +300,15 @@ class Inverse(LibFcn):
     sig = Sigs([Sig([{"x": P.Array(P.Array(P.Double()))}], P.Array(P.Array(P.Double()))),
                 Sig([{"x": P.Map(P.Map(P.Double()))}], P.Map(P.Map(P.Double())))])
     errcodeBase = 24070
+    def calculate(self, x):
+        try:
+            return x.I
+        except np().linalg.LinAlgError:
+            if np().isfinite(x).all():
+                return np().linalg.pinv(x)
+            else:
+                return np().full_like(x.T, float("nan"))
+
     def __call__(self, state, scope, pos, paramTypes, x):
         if isinstance(x, (list, tuple)) and all(isinstance(xi, (list, tuple)) for xi in x):
             rows = len(x)
@@ -304,7 +319,7 @@ class Inverse(LibFcn):
                 raise PFARuntimeException("too few rows/cols", self.errcodeBase + 0, self.name, pos)
             if raggedArray(x):
                 raise PFARuntimeException("ragged columns", self.errcodeBase + 1, self.name, pos)
-            return matrixToArrays(arraysToMatrix(x).I)
+            return matrixToArrays(self.calculate(arraysToMatrix(x)))
 
         elif isinstance(x, dict) and all(isinstance(x[i], dict) for i in list(x.keys())):
             rows = list(rowKeys(x))
@@ -312,7 +327,7 @@ class Inverse(LibFcn):
             if len(rows) < 1 or len(cols) < 1:
                 raise PFARuntimeException("too few rows/cols", self.errcodeBase + 0, self.name, pos)
             xmat = mapsToMatrix(x, rows, cols)
-            return matrixToMaps(xmat.I, cols, rows)
+            return matrixToMaps(self.calculate(xmat), cols, rows)
 
 provide(Inverse())
 
@@ -334,7 +349,7 @@ class Trace(LibFcn):
 
         elif isinstance(x, dict) and all(isinstance(x[i], dict) for i in list(x.keys())):
             keys = rowKeys(x).intersection(colKeys(x))
-            return sum(x[i][i] for i in keys)
+            return sum(x[i].get(i, 0.0) for i in keys)
 
 provide(Trace())
 
@@ -417,7 +432,7 @@ class EigenBasis(LibFcn):
     def calculate(self, x, size):
         symm = (x + x.T) * 0.5
 
-        evals, evects = np().linalg.eig(symm)
+        evals, evects = np().linalg.eigh(symm)
         evects = np().array(evects)
         evects2 = [evects[:,i] * (-1.0 if evects[0,i] < 0.0 else 1.0) for i in range(size)]
 
diff --git a/titus/lib/metric.py b/titus/lib/metric.py
index 71aa073..de1c979 100644
--- a/titus/lib/metric.py
+++ b/titus/lib/metric.py
@@ -28,6 +28,7 @@ from titus.datatype import *
 from titus.errors import *
 from titus.util import callfcn
 from titus.util import div
+from titus.util import untagUnion
 from titus.lib.core import powLikeJava
 import titus.P as P
 
@@ -44,7 +45,7 @@ class SimpleEuclidean(LibFcn):
     def __call__(self, state, scope, pos, paramTypes, x, y):
         if len(x) != len(y):
             raise PFARuntimeException("dimensions of vectors do not match", self.errcodeBase + 0, self.name, pos)
-        return math.sqrt(sum(((xi - yi)**2 for xi, yi in zip(x, y))))
+        return math.sqrt(sum(((xi - yi)*(xi - yi) for xi, yi in zip(x, y))))
 provide(SimpleEuclidean())
 
 class AbsDiff(LibFcn):
@@ -60,7 +61,7 @@ class GaussianSimilarity(LibFcn):
     sig = Sig([{"x": P.Double()}, {"y": P.Double()}, {"sigma": P.Double()}], P.Double())
     errcodeBase = 28020
     def __call__(self, state, scope, pos, paramTypes, x, y, sigma):
-        return math.exp(div(-math.log(2) * (x - y)**2, sigma**2))
+        return math.exp(div(-math.log(2) * (x - y)*(x - y), sigma*sigma))
 provide(GaussianSimilarity())
 
 class MetricWithMissingValues(LibFcn):
@@ -78,9 +79,9 @@ class MetricWithMissingValues(LibFcn):
             yi = y[i]
             if xi is not None and yi is not None:
                 if isinstance(paramTypes[1]["items"], (tuple, list)):
-                    xi, = list(xi.values())
+                    xi = untagUnion(xi, paramTypes[1]["items"])
                 if isinstance(paramTypes[2]["items"], (tuple, list)):
-                    yi, = list(yi.values())
+                    yi = untagUnion(yi, paramTypes[2]["items"])
                 tally = self.increment(tally, callfcn(state, scope, similarity, [xi, yi]))
                 denom += missingWeight[i]
             numer += missingWeight[i]
@@ -97,9 +98,9 @@ class Euclidean(MetricWithMissingValues):
         ])
     errcodeBase = 28030
     def increment(self, tally, x):
-        return tally + x**2
+        return tally + x*x
     def finalize(self, x):
-        return math.sqrt(x)
+        return math.sqrt(x) if not x < 0.0 else float("nan")
 provide(Euclidean())
 
 class SquaredEuclidean(MetricWithMissingValues):
@@ -110,7 +111,7 @@ class SquaredEuclidean(MetricWithMissingValues):
         ])
     errcodeBase = 28040
     def increment(self, tally, x):
-        return tally + x**2
+        return tally + x*x
     def finalize(self, x):
         return x
 provide(SquaredEuclidean())
@@ -165,9 +166,9 @@ class Minkowski(LibFcn):
                 yi = y[i]
                 if xi is not None and yi is not None:
                     if isinstance(paramTypes[1]["items"], (tuple, list)):
-                        xi, = list(xi.values())
+                        xi = untagUnion(xi, paramTypes[1]["items"])
                     if isinstance(paramTypes[2]["items"], (tuple, list)):
-                        yi, = list(yi.values())
+                        yi = untagUnion(yi, paramTypes[2]["items"])
                     z = callfcn(state, scope, similarity, [xi, yi])
                     if z > tally:
                         tally = z
@@ -183,9 +184,9 @@ class Minkowski(LibFcn):
                 yi = y[i]
                 if xi is not None and yi is not None:
                     if isinstance(paramTypes[1]["items"], (tuple, list)):
-                        xi, = list(xi.values())
+                        xi = untagUnion(xi, paramTypes[1]["items"])
                     if isinstance(paramTypes[2]["items"], (tuple, list)):
-                        yi, = list(yi.values())
+                        yi = untagUnion(yi, paramTypes[2]["items"])
                     tally += powLikeJava(callfcn(state, scope, similarity, [xi, yi]), p)
                     denom += missingWeight[i]
                 numer += missingWeight[i]
-- 
2.43.0


From 4b842305cf0ed1424884d3848ff58a196a5d3621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:41 +0000
Subject: [PATCH 42/64] fix: PrettyPFA may be parsed in several threads at once

---
 titus/prettypfa.py | 69 +++++++++++++++++++++++++---------------------
 1 file changed, 37 insertions(+), 32 deletions(-)

diff --git a/titus/prettypfa.py b/titus/prettypfa.py
index 97ed6de..03a1911 100644
--- a/titus/prettypfa.py
+++ b/titus/prettypfa.py
@@ -21,6 +21,7 @@ import ast as pythonast
 import base64
 import json as jsonlib
 import re
+import threading
 from collections import OrderedDict
 
 from titus.pfaast import Subs
@@ -1219,6 +1220,7 @@ class Parser(object):
         """
         self.initialized = False
         self.wholeDocument = wholeDocument
+        self.lock = threading.RLock()      # the ply lexer and parser hold the state of one parse
 
     def initialize(self, lex, yacc):
         """Initialize the ``Parser`` by passing it the appropriate ply modules.
@@ -2147,23 +2149,24 @@ class Parser(object):
         :return: parsed text as an abstract syntax tree
         """
 
-        self.lexer.lineno = 1
-        self.text = text
-        self.subs = subs
-        out = self.yacc.parse(text, lexer=self.lexer)
-        if self.wholeDocument:
-            return out
-        else:
-            embedded = state is not None
-            if not embedded:
-                state = InterpretationState()
-            if isinstance(out, (list, tuple)):
-                out2 = [x.asExpr(state) for x in out]
+        with self.lock:
+            self.lexer.lineno = 1
+            self.text = text
+            self.subs = subs
+            out = self.yacc.parse(text, lexer=self.lexer)
+            if self.wholeDocument:
+                return out
             else:
-                out2 = out.asExpr(state)
-            if not embedded:
-                state.avroTypeBuilder.resolveTypes()
-            return out2
+                embedded = state is not None
+                if not embedded:
+                    state = InterpretationState()
+                if isinstance(out, (list, tuple)):
+                    out2 = [x.asExpr(state) for x in out]
+                else:
+                    out2 = out.asExpr(state)
+                if not embedded:
+                    state.avroTypeBuilder.resolveTypes()
+                return out2
 
 ###
 
@@ -2209,14 +2212,15 @@ def ast(text, check=True, version=None, subs={}, **subs2):
 
     subs2.update(subs)
 
-    if not parser.initialized:
-        try:
-            import ply.lex as lex
-            import ply.yacc as yacc
-        except ImportError:
-            raise ImportError("ply (used to parse the PrettyPFA) is not available on your system")
-        else:
-            parser.initialize(lex, yacc)
+    with parser.lock:
+        if not parser.initialized:
+            try:
+                import ply.lex as lex
+                import ply.yacc as yacc
+            except ImportError:
+                raise ImportError("ply (used to parse the PrettyPFA) is not available on your system")
+            else:
+                parser.initialize(lex, yacc)
 
     out = parser.parse(text, subs2)
 
@@ -2298,14 +2302,15 @@ exprParser = Parser(False)
 
 def _parseExpressions(text, subs, state=None):
     """Parse a string of PrettyPFA expressions, possibly as a part of a document with a given ``state``."""
-    if not exprParser.initialized:
-        try:
-            import ply.lex as lex
-            import ply.yacc as yacc
-        except ImportError:
-            raise ImportError("ply (used to parse the PrettyPFA) is not available on your system")
-        else:
-            exprParser.initialize(lex, yacc)
+    with exprParser.lock:
+        if not exprParser.initialized:
+            try:
+                import ply.lex as lex
+                import ply.yacc as yacc
+            except ImportError:
+                raise ImportError("ply (used to parse the PrettyPFA) is not available on your system")
+            else:
+                exprParser.initialize(lex, yacc)
 
     return exprParser.parse(text, subs, state)
 
-- 
2.43.0


From 72778a27a3049e65e045c1886886fc47439cfc70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:12 +0000
Subject: [PATCH 43/64] fix: score distributions of classification trees are
 fractions, not counts

---
 titus/producer/cart.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/titus/producer/cart.py b/titus/producer/cart.py
index 4de8447..76238d1 100644
--- a/titus/producer/cart.py
+++ b/titus/producer/cart.py
@@ -769,7 +769,7 @@ class TreeNode(object):
         if predictandDistribution:
             if self.predictand.tpe != str:
                 raise TypeError("predictandDistribution can only be used if the predictand is a string (classification trees)")
-            out["fields"].append({"name": "scoreDistribution", "type": {"type": "map", "values": "int"}})
+            out["fields"].append({"name": "scoreDistribution", "type": {"type": "map", "values": "double"}})
 
         if predictandUnique:
             out["fields"].append({"name": "scoreValues", "type": {"type": "array", "items": scoreType}})
-- 
2.43.0


From 228ea7d0061fc014d25346dc3c6a618425ec2782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:58 +0000
Subject: [PATCH 44/64] fix: data in unions, JSON and Avro files keep their
 values and types

---
 titus/datatype.py | 150 ++++++++++++++++++++++++++++------------------
 titus/genpy.py    |   2 +-
 titus/lib/cast.py |  23 +------
 titus/lib/map.py  |   4 +-
 4 files changed, 95 insertions(+), 84 deletions(-)

diff --git a/titus/datatype.py b/titus/datatype.py
index f387ea0..4cebfba 100644
--- a/titus/datatype.py
+++ b/titus/datatype.py
@@ -892,25 +892,18 @@ def jsonDecoder(avroType, value):
     elif isinstance(avroType, AvroBoolean):
         if value is True or value is False:
             return value
-    elif isinstance(avroType, AvroInt):
-        try:
-            return int(value)
-        except (ValueError, TypeError):
-            pass
-    elif isinstance(avroType, AvroLong):
-        try:
-            return int(value)
-        except (ValueError, TypeError):
-            pass
-    elif isinstance(avroType, AvroFloat):
+    elif isinstance(avroType, (AvroInt, AvroLong)):
+        bits = 31 if isinstance(avroType, AvroInt) else 63
         try:
-            return float(value)
-        except (ValueError, TypeError):
+            if not isinstance(value, bool) and -2**bits <= int(value) < 2**bits and (isinstance(value, str) or int(value) == value):
+                return int(value)
+        except (ValueError, TypeError, OverflowError):
             pass
-    elif isinstance(avroType, AvroDouble):
+    elif isinstance(avroType, (AvroFloat, AvroDouble)):
         try:
-            return float(value)
-        except (ValueError, TypeError):
+            if not isinstance(value, bool):
+                return float(value)
+        except (ValueError, TypeError, OverflowError):
             pass
     elif isinstance(avroType, AvroBytes):
         if isinstance(value, (str, bytes)):
@@ -937,8 +930,13 @@ def jsonDecoder(avroType, value):
             for field in avroType.fields:
                 if field.name in value:
                     out[field.name] = jsonDecoder(field.avroType, value[field.name])
-                elif field.default is not None:
-                    out[field.name] = jsonDecoder(field.avroType, field.default)
+                elif field.schema.has_default:
+                    # the default of a union is an untagged value of its first type
+                    if isinstance(field.avroType, AvroUnion) and field.default is not None:
+                        first = field.avroType.types[0]
+                        out[field.name] = {first.fullName: jsonDecoder(first, field.default)}
+                    else:
+                        out[field.name] = jsonDecoder(field.avroType, field.default)
                 elif isinstance(field.avroType, AvroNull):
                     out[field.name] = None
                 else:
@@ -1001,7 +999,7 @@ def jsonEncoder(avroType, value, tagged=True):
         for field in avroType.fields:
             if field.name in value:
                 out[field.name] = jsonEncoder(field.avroType, value[field.name], tagged)
-            elif field.default is not None:
+            elif field.schema.has_default:
                 pass
             else:
                 raise titus.errors.AvroException("{0} does not match schema {1}".format(json.dumps(value, default=str), ts(avroType)))
@@ -1011,8 +1009,7 @@ def jsonEncoder(avroType, value, tagged=True):
     elif isinstance(avroType, AvroUnion):
         if isinstance(value, dict) and len(value) == 1:
             (tag, val), = list(value.items())
-            # the type named by the tag comes first
-            for t in sorted(avroType.types, key=lambda t: tag not in (t.fullName, t.name)):
+            for t in [t for t in avroType.types if tag in (t.fullName, t.name)]:
                 try:
                     out = jsonEncoder(t, val, tagged)
                 except titus.errors.AvroException:
@@ -1022,7 +1019,7 @@ def jsonEncoder(avroType, value, tagged=True):
                         return {t.fullName: out}
                     else:
                         return out
-        for t in avroType.types:
+        for t in naturalFirst(value, avroType.types):
             try:
                 out = jsonEncoder(t, value, tagged)
             except titus.errors.AvroException:
@@ -1034,6 +1031,51 @@ def jsonEncoder(avroType, value, tagged=True):
                     return out
     raise titus.errors.AvroException("{0} does not match schema {1}".format(json.dumps(value, default=str), ts(avroType)))
 
+def unionBranch(avroType, value):
+    """Find the type of a union that a value has.
+
+    :type avroType: titus.datatype.AvroUnion
+    :param avroType: type of this object
+    :type value: dicts, lists, strings, numbers, ``True``, ``False``, ``None``
+    :param value: tagged or untagged value of this union
+    :rtype: (integer, value)
+    :return: index of the type in the union and the value without its tag
+    """
+
+    def matches(t, v):
+        try:
+            jsonEncoder(t, v)
+        except titus.errors.AvroException:
+            return False
+        else:
+            return True
+
+    if isinstance(value, dict) and len(value) == 1:
+        (tag, untagged), = list(value.items())
+        for index, t in enumerate(avroType.types):
+            if tag in (t.fullName, t.name) and matches(t, untagged):
+                return index, untagged
+    for t in naturalFirst(value, avroType.types):
+        if matches(t, value):
+            return avroType.types.index(t), value
+    raise titus.errors.AvroException("{0} does not match schema {1}".format(json.dumps(value, default=str), ts(avroType)))
+
+class DatumWriter(avro.io.DatumWriter):
+    """Writes values as a PFAEngine represents them: unions are tagged by the type to write, bytes and fixed may be strings."""
+
+    def write(self, datum, encoder):
+        self.write_data(self.writer_schema, datum, encoder)
+
+    def write_data(self, writer_schema, datum, encoder):
+        if writer_schema.type in ("bytes", "fixed") and isinstance(datum, str):
+            datum = stringToBytes(datum)
+        avro.io.DatumWriter.write_data(self, writer_schema, datum, encoder)
+
+    def write_union(self, writer_schema, datum, encoder):
+        index, datum = unionBranch(schemaToAvroType(writer_schema), datum)
+        encoder.write_long(index)
+        self.write_data(writer_schema.schemas[index], datum, encoder)
+
 def compare(avroType, x, y):
     """Returns -1, 0, or 1 depending on whether x is less than, equal to, or greater than y, according to the schema.
 
@@ -1122,36 +1164,9 @@ def compare(avroType, x, y):
                     return comparison
         return 0
     elif isinstance(avroType, AvroUnion):
-        if isinstance(x, dict) and len(x) == 1:
-            (xtag, x), = list(x.items())
-            xtypei, xtype = [(ti, t) for ti, t in enumerate(avroType.types) if xtag in (t.fullName, t.name)][0]
-        else:
-            xtypei = None
-            for ti, t in enumerate(avroType.types):
-                try:
-                    jsonEncoder(t, x)
-                except titus.errors.AvroException:
-                    pass
-                else:
-                    xtypei = ti
-                    xtype = t
-            if xtypei is None:
-                raise titus.errors.AvroException()
-        if isinstance(y, dict) and len(y) == 1:
-            (ytag, y), = list(y.items())
-            ytypei, ytype = [(ti, t) for ti, t in enumerate(avroType.types) if ytag in (t.fullName, t.name)][0]
-        else:
-            ytypei = None
-            for ti, t in enumerate(avroType.types):
-                try:
-                    jsonEncoder(t, y)
-                except titus.errors.AvroException:
-                    pass
-                else:
-                    ytypei = ti
-                    ytype = t
-            if ytypei is None:
-                raise titus.errors.AvroException()
+        xtypei, x = unionBranch(avroType, x)
+        xtype = avroType.types[xtypei]
+        ytypei, y = unionBranch(avroType, y)
         if xtypei == ytypei:
             return compare(xtype, x, y)
         else:
@@ -1165,6 +1180,18 @@ def compare(avroType, x, y):
     else:
         raise titus.errors.AvroException("{0} or {1} does not match schema {2}".format(json.dumps(x), json.dumps(y), ts(avroType)))
 
+def naturalFirst(value, types):
+    """Order the types of a union so that one that takes an untagged value as it is comes before one that would convert it."""
+    if isinstance(value, str):
+        natural = (AvroString, AvroEnum)
+    elif isinstance(value, bytes):
+        natural = (AvroBytes, AvroFixed)
+    elif isinstance(value, (int,) + integerTypes):
+        natural = (AvroInt, AvroLong)
+    else:
+        natural = ()
+    return sorted(types, key=lambda t: not isinstance(t, natural))
+
 ########################### check data value against type
 
 try:
@@ -1185,10 +1212,12 @@ try:
                    (numpy.float_,
                     numpy.float16,
                     numpy.float32)
+    arrayTypes   = (numpy.ndarray,)
 except ImportError:
     booleanTypes = ()
     integerTypes = ()
     floatTypes   = ()
+    arrayTypes   = ()
 
 def checkData(data, avroType):
     """Return ``True`` if ``data`` satisfies ``avroType`` and can be used in PFAEngine.action."""
@@ -1248,7 +1277,10 @@ def checkData(data, avroType):
         elif isinstance(data, floatTypes):
             data = float(data)
         elif isinstance(data, int) and not isinstance(data, bool):
-            data = float(data)
+            try:
+                data = float(data)
+            except OverflowError:
+                raise TypeError("expecting {0}, found {1}".format(ts(avroType), data))
         elif isinstance(data, float):
             return data
         else:
@@ -1263,7 +1295,10 @@ def checkData(data, avroType):
         elif isinstance(data, floatTypes):
             return float(data)
         elif isinstance(data, int) and not isinstance(data, bool):
-            return float(data)
+            try:
+                return float(data)
+            except OverflowError:
+                raise TypeError("expecting {0}, found {1}".format(ts(avroType), data))
         elif isinstance(data, float):
             return data
         else:
@@ -1299,7 +1334,7 @@ def checkData(data, avroType):
             raise TypeError("expecting {0}, found {1}".format(ts(avroType), data))
 
     elif isinstance(avroType, AvroMap):
-        if hasattr(data, "__iter__") and hasattr(data, "__getitem__") and not isinstance(data, (str, bytes, list, tuple)):
+        if hasattr(data, "__iter__") and hasattr(data, "__getitem__") and not isinstance(data, (str, bytes, list, tuple) + arrayTypes):
             newData = {}
             for key in data:
                 value = checkData(data[key], avroType.values)
@@ -1314,7 +1349,7 @@ def checkData(data, avroType):
             raise TypeError("expecting {0}, found {1}".format(ts(avroType), data))
 
     elif isinstance(avroType, AvroRecord):
-        if hasattr(data, "__iter__") and hasattr(data, "__getitem__") and not isinstance(data, (str, bytes, list, tuple)):
+        if hasattr(data, "__iter__") and hasattr(data, "__getitem__") and not isinstance(data, (str, bytes, list, tuple) + arrayTypes):
             newData = {}
             for field in avroType.fields:
                 try:
@@ -1336,9 +1371,8 @@ def checkData(data, avroType):
                         return checkData(value, tpe)
                     else:
                         return {tpe.fullName: checkData(value, tpe)}
-            raise TypeError("expecting {0}, found {1}".format(ts(avroType), data))
 
-        for tpe in avroType.types:
+        for tpe in naturalFirst(data, avroType.types):
             try:
                 newData = checkData(data, tpe)
             except (TypeError, titus.errors.AvroException):
diff --git a/titus/genpy.py b/titus/genpy.py
index 8bcae2c..4558bd5 100644
--- a/titus/genpy.py
+++ b/titus/genpy.py
@@ -1843,7 +1843,7 @@ class PFAEngine(object):
         :return: an output stream with an ``append`` method for appending output data objects
         """
 
-        return DataFileWriter(open(fileName, "w"), DatumWriter(), self.config.output.schema)
+        return DataFileWriter(open(fileName, "wb"), titus.datatype.DatumWriter(), self.config.output.schema)
 
 class FastAvroCorrector(object):
     """The fastavro library reads Avro strings as non-Unicode and doesn't tag unions. This wrapper class corrects it."""
diff --git a/titus/lib/cast.py b/titus/lib/cast.py
index 2f2598c..6b378dc 100644
--- a/titus/lib/cast.py
+++ b/titus/lib/cast.py
@@ -22,7 +22,7 @@ import io
 import json
 
 import avro.schema
-from avro.io import BinaryEncoder, DatumWriter
+from avro.io import BinaryEncoder
 
 from titus.util import bytesToString, roundHalfUp, stringToBytes
 from titus.datatype import schemaToAvroType
@@ -269,33 +269,12 @@ provide(FanoutDouble())
 
 #################################################################### serialize
 
-def avroDatum(x, avroType):
-    # what avro's DatumWriter expects: no union tags, bytes and fixed as bytes
-    if isinstance(avroType, AvroUnion):
-        if isinstance(x, dict) and len(x) == 1:
-            (tag, value), = list(x.items())
-            for t in avroType.types:
-                if tag in (t.fullName, t.name):
-                    return avroDatum(value, t)
-        return x
-    elif isinstance(avroType, (AvroBytes, AvroFixed)):
-        return stringToBytes(x) if isinstance(x, str) else x
-    elif isinstance(avroType, AvroArray):
-        return [avroDatum(y, avroType.items) for y in x]
-    elif isinstance(avroType, AvroMap):
-        return dict((k, avroDatum(v, avroType.values)) for k, v in list(x.items()))
-    elif isinstance(avroType, AvroRecord):
-        return dict((f.name, avroDatum(x[f.name], f.avroType)) for f in avroType.fields)
-    else:
-        return x
-
 class CastAvro(LibFcn):
     name = prefix + "avro"
     sig = Sig([{"x": P.Wildcard("A")}], P.Bytes())
     errcodeBase = 17110
     def __call__(self, state, scope, pos, paramTypes, x):
         schema = avro.schema.Parse(json.dumps(paramTypes[0]))
-        x = avroDatum(x, jsonNodeToAvroType(paramTypes[0]))
         bytes_io = io.BytesIO()
         writer = DatumWriter(schema)
         writer.write(x, BinaryEncoder(bytes_io))
diff --git a/titus/lib/map.py b/titus/lib/map.py
index 8bbed36..55c011f 100644
--- a/titus/lib/map.py
+++ b/titus/lib/map.py
@@ -22,14 +22,13 @@ import io
 import json
 
 import avro.schema
-from avro.io import BinaryEncoder, BinaryDecoder, DatumReader, DatumWriter
+from avro.io import BinaryEncoder, BinaryDecoder, DatumReader
 
 from titus.fcn import Fcn
 from titus.fcn import LibFcn
 from titus.signature import Sig
 from titus.signature import Sigs
 from titus.datatype import *
-from titus.lib.cast import avroDatum
 from titus.util import callfcn
 from titus.errors import PFARuntimeException
 import titus.P as P
@@ -42,7 +41,6 @@ prefix = "map."
 
 class ObjKey(object):
     def toKey(self, x, avroType):
-        x = avroDatum(jsonEncoder(avroType, x), avroType)
         bytes = io.BytesIO()
         writer = DatumWriter(avroType.schema)
         writer.write(x, BinaryEncoder(bytes))
-- 
2.43.0


From 3128f9213d297a6cee08358ea29a60d85ef39378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:20 +0000
Subject: [PATCH 45/64] fix: ill-formed and ill-typed documents are refused as
 such, and only those

---
 titus/datatype.py  | 46 +++++++++++++++++++----------------
 titus/errors.py    |  4 ++--
 titus/genpy.py     |  6 +++--
 titus/pfaast.py    | 16 ++++++++++---
 titus/prettypfa.py | 23 ++++++++++++++----
 titus/reader.py    | 60 ++++++++++++++++++++++++++++++----------------
 titus/signature.py | 17 +++++++++----
 7 files changed, 116 insertions(+), 56 deletions(-)

diff --git a/titus/datatype.py b/titus/datatype.py
index 4cebfba..d09367a 100644
--- a/titus/datatype.py
+++ b/titus/datatype.py
@@ -726,19 +726,24 @@ class ForwardDeclarationParser(object):
                 if jsonString not in schemae:
                     obj = json.loads(jsonString)
 
-                    if isinstance(obj, str) and self.names.has_name(obj, None):
-                        gotit = self.names.get_name(obj, None)
-                        schemae[jsonString] = gotit
-                    else:
-                        oldnames = dict(self.names.names)
+                    oldnames = dict(self.names.names)
 
-                        try:
-                            gotit = avro.schema.SchemaFromJSONData(obj, self.names)
-                        except avro.schema.SchemaParseException as err:
-                            self.names = avro.schema.Names(names = oldnames)
-                            errorMessages[jsonString] = str(err)
+                    # Avro's parser raises all kinds of exceptions when a schema is malformed
+                    try:
+                        if isinstance(obj, str) and self.names.has_name(obj, None):
+                            gotit = self.names.get_name(obj, None)
                         else:
-                            schemae[jsonString] = gotit
+                            gotit = avro.schema.SchemaFromJSONData(obj, self.names)
+                    except avro.schema.SchemaParseException as err:
+                        self.names = avro.schema.Names(names = oldnames)
+                        errorMessages[jsonString] = str(err)
+                    except avro.schema.AvroException:
+                        raise
+                    except Exception as err:
+                        self.names = avro.schema.Names(names = oldnames)
+                        errorMessages[jsonString] = str(err)
+                    else:
+                        schemae[jsonString] = gotit
 
             unresolved = [x for x in jsonStrings if x not in schemae]
             unresolvedSize = len(unresolved)
@@ -788,21 +793,21 @@ class ForwardDeclarationParser(object):
                 else:
                     return self.getAvroType(obj)
         elif isinstance(description, dict):
-            if description == {"type": "null"}:
+            if description.get("type") == "null":
                 return AvroNull()
-            elif description == {"type": "boolean"}:
+            elif description.get("type") == "boolean":
                 return AvroBoolean()
-            elif description == {"type": "int"}:
+            elif description.get("type") == "int":
                 return AvroInt()
-            elif description == {"type": "long"}:
+            elif description.get("type") == "long":
                 return AvroLong()
-            elif description == {"type": "float"}:
+            elif description.get("type") == "float":
                 return AvroFloat()
-            elif description == {"type": "double"}:
+            elif description.get("type") == "double":
                 return AvroDouble()
-            elif description == {"type": "bytes"}:
+            elif description.get("type") == "bytes":
                 return AvroBytes()
-            elif description == {"type": "string"}:
+            elif description.get("type") == "string":
                 return AvroString()
             elif description.get("type") == "array" and "items" in description:
                 return AvroArray(self.getAvroType(description["items"]))
@@ -949,7 +954,8 @@ def jsonDecoder(avroType, value):
             types = dict((x.name, x) for x in avroType.types)
             types.update((x.fullName, x) for x in avroType.types)
             if tag in types:
-                return {types[tag].fullName: jsonDecoder(types[tag], val)}
+                decoded = jsonDecoder(types[tag], val)
+                return None if isinstance(types[tag], AvroNull) else {types[tag].fullName: decoded}
         elif value is None and "null" in [x.name for x in avroType.types]:
             return None
     else:
diff --git a/titus/errors.py b/titus/errors.py
index d8f1058..da7a17d 100644
--- a/titus/errors.py
+++ b/titus/errors.py
@@ -45,7 +45,7 @@ class PFASyntaxException(PFAException):
         if pos is None or pos == "":
             super(PFASyntaxException, self).__init__("PFA syntax error: " + message)
         else:
-            super(PFASyntaxException, self).__init__("PFA syntax error " + pos + ": " + message)
+            super(PFASyntaxException, self).__init__("PFA syntax error " + str(pos) + ": " + message)
 
 class PFASemanticException(PFAException):
     """Exception for PFA semantic errors (higher-level PFA rules are broken, such as type mismatches)."""
@@ -59,7 +59,7 @@ class PFASemanticException(PFAException):
         if pos is None or pos == "":
             super(PFASemanticException, self).__init__("PFA semantic error: " + message)
         else:
-            super(PFASemanticException, self).__init__("PFA semantic error " + pos + ": " + message)
+            super(PFASemanticException, self).__init__("PFA semantic error " + str(pos) + ": " + message)
 
 class PFAInitializationException(PFAException):
     """Exception for PFA errors encountered during initialization (when cells/pools are being interpreted, almost ready to start evaluating)."""
diff --git a/titus/genpy.py b/titus/genpy.py
index 4558bd5..29b280e 100644
--- a/titus/genpy.py
+++ b/titus/genpy.py
@@ -448,9 +448,9 @@ class GeneratePython(titus.pfaast.Task):
 
         elif isinstance(context, IfNotNull.Context):
             if context.elseClause is None:
-                return "ifNotNull(state, scope, {" + ", ".join(repr(n) + ": " + e for n, t, e in context.symbolTypeResult) + "}, {" + ", ".join(repr(n) + ": '" + repr(t) + "'" for n, t, e in context.symbolTypeResult) + "}, lambda state, scope: do(" + ", ".join(context.thenClause) + "))"
+                return "ifNotNull(state, scope, {" + ", ".join(repr(n) + ": " + e for n, t, e in context.symbolTypeResult) + "}, {" + ", ".join(repr(n) + ": " + repr(repr(t)) for n, t, e in context.symbolTypeResult) + "}, lambda state, scope: do(" + ", ".join(context.thenClause) + "))"
             else:
-                return "ifNotNullElse(state, scope, {" + ", ".join(repr(n) + ": " + e for n, t, e in context.symbolTypeResult) + "}, {" + ", ".join(repr(n) + ": '" + repr(t) + "'" for n, t, e in context.symbolTypeResult) + "}, lambda state, scope: do(" + ", ".join(context.thenClause) + "), lambda state, scope: do(" + ", ".join(context.elseClause) + "))"
+                return "ifNotNullElse(state, scope, {" + ", ".join(repr(n) + ": " + e for n, t, e in context.symbolTypeResult) + "}, {" + ", ".join(repr(n) + ": " + repr(repr(t)) for n, t, e in context.symbolTypeResult) + "}, lambda state, scope: do(" + ", ".join(context.thenClause) + "), lambda state, scope: do(" + ", ".join(context.elseClause) + "))"
 
         elif isinstance(context, Pack.Context):
             return "pack(state, scope, [" + ", ".join("(" + str(d.value) + ", " + str(d) + ")" for d in context.exprsDeclareRes) + "], " + repr(context.pos) + ")"
@@ -1563,6 +1563,8 @@ class PFAEngine(object):
                    "math": math,
                    }
 
+        # non-finite literals and properties of types appear under these names
+        sandbox.update({"nan": float("nan"), "inf": float("inf"), "NaN": float("nan"), "Infinity": float("inf"), "null": None, "true": True, "false": False})
         exec(code, sandbox)
         cls = [x for x in list(sandbox.values()) if getattr(x, "__bases__", None) == (PFAEngine,)][0]
         cls.parser = context.parser
diff --git a/titus/pfaast.py b/titus/pfaast.py
index 4da474f..2c33a5e 100644
--- a/titus/pfaast.py
+++ b/titus/pfaast.py
@@ -113,7 +113,7 @@ def validSymbolName(test):
     :rtype: bool
     :return: ``True`` if valid; ``False`` otherwise
     """
-    return re.match("^[A-Za-z_][A-Za-z0-9_]*$", test) is not None
+    return re.match("^[A-Za-z_][A-Za-z0-9_]*\\Z", test) is not None
 
 class SymbolTable(object):
     """Represents the symbols (variables) and their data types in a lexical scope."""
@@ -312,7 +312,7 @@ def validFunctionName(test):
     :rtype: bool
     :return: ``True`` if valid; ``False`` otherwise
     """
-    return re.match("^[A-Za-z_]([A-Za-z0-9_]|\\.[A-Za-z][A-Za-z0-9_]*)*$", test) is not None
+    return re.match("^[A-Za-z_]([A-Za-z0-9_]|\\.[A-Za-z][A-Za-z0-9_]*)*\\Z", test) is not None
 
 class UserFcn(Fcn):
     """Represents a user-defined function."""
@@ -680,6 +680,9 @@ class EngineConfig(Ast):
         if not isinstance(name, str):
             raise PFASyntaxException("\"name\" must be a string", pos)
 
+        if not validSymbolName(name):
+            raise PFASyntaxException("\"{0}\" is not a valid engine name".format(name), pos)
+
         if method not in (Method.MAP, Method.EMIT, Method.FOLD):
             raise PFASyntaxException("\"method\" must be \"map\", \"emit\", or \"fold\"", pos)
 
@@ -1737,6 +1740,10 @@ class FcnRefFill(Argument):
         except IncompatibleTypes:
             raise PFASemanticException("only one-signature functions without constraints can be referenced (wrap \"{0}\" in a function definition with the desired signature)".format(self.name), self.pos)
 
+        argTypes = [argTypeResult[n][0] if n in argTypeResult else P.toType(p[n]) for n, p in zip(originalParamNames, params)]
+        if fcnsig.accepts(argTypes, version) is None:
+            raise PFASemanticException("parameters of function \"{0}\" do not accept [{1}]".format(self.name, ",".join(map(ts, argTypes))), self.pos)
+
         context = self.Context(fcnType, calls, fcn, originalParamNames, argTypeResult)
         return context, task(context, engineOptions)
 
@@ -6107,6 +6114,9 @@ class Try(Expression):
         if not isinstance(exprs, (list, tuple)) or not all(isinstance(x, Expression) for x in exprs):
             raise PFASyntaxException("\"exprs\" must be a list of Expressions", pos)
 
+        if len(exprs) < 1:
+            raise PFASyntaxException("\"try\" must contain at least one expression", pos)
+
         if (not isinstance(filter, (list, tuple)) or not all(isinstance(x, (str, int)) for x in filter)) and not filter is None:
             raise PFASyntaxException("\"filter\" must be a list of strings and integers or None", pos)
 
@@ -6162,7 +6172,7 @@ class Try(Expression):
         results = [x.walk(task, scope, functionTable, engineOptions, version) for x in self.exprs]
 
         exprType = results[-1][0].retType
-        if isinstance(exprType, ExceptionType):
+        if isinstance(exprType, (ExceptionType, AvroNull)):
             exprType = AvroNull()
             inferredType = AvroNull()
         elif isinstance(exprType, AvroUnion):
diff --git a/titus/prettypfa.py b/titus/prettypfa.py
index 03a1911..4a2ffe3 100644
--- a/titus/prettypfa.py
+++ b/titus/prettypfa.py
@@ -85,6 +85,9 @@ from titus.pfaast import Error
 from titus.pfaast import Try
 from titus.pfaast import Log
 from titus.datatype import AvroTypeBuilder
+from titus.datatype import jsonDecoder
+from titus.datatype import jsonToAvroType
+from titus.errors import AvroException
 from titus.errors import PFASyntaxException
 from titus.errors import PrettyPfaException
 from titus.genpy import PFAEngine
@@ -147,6 +150,8 @@ class Section(object):
                 self.content = content.args
             elif not isinstance(content, (list, tuple)):
                 self.content = [content]
+        elif name in ("fcns", "cells", "pools") and not isinstance(content, (list, tuple)):
+            self.content = [content]
         elif name == "fcns":
             pass
         elif name == "zero":
@@ -325,7 +330,7 @@ class MiniAst(object):
         raise PrettyPfaException("{0} ({1}) is not a type specification at {2}".format(self, type(self), self.pos))
     def asJson(self):
         raise PrettyPfaException("{0} ({1}) is not JSON at {2}".format(self, type(self), self.pos))
-    def asFcn(self):
+    def asFcn(self, state):
         raise PrettyPfaException("{0} ({1}) is not a function definition at {2}".format(self, type(self), self.pos))
     def asCell(self, state):
         raise PrettyPfaException("{0} ({1}) is not a cell definition at {2}".format(self, type(self), self.pos))
@@ -553,12 +558,23 @@ class MiniCall(MiniAst):
     def __repr__(self):
         return "MiniCall({0}, [{1}])".format(self.name, ", ".join(map(repr, self.args)))
 
+    def decodeBase64(self, value):
+        try:
+            return bytesToString(base64.b64decode(value))
+        except (TypeError, ValueError) as err:
+            raise PrettyPfaException("{0} is not base64 encoded ({1}) at {2}".format(repr(value), err, self.pos))
+
     def asExpr(self, state):
         if self.name == "json":
             if len(self.args) != 2:
                 raise PrettyPfaException("json function must have 2 arguments, not {0}, at {1}".format(len(self.args), self.pos))
             td = self.args[0].asType(state)
             v = self.args[1].asJson()
+            if td in ("null", "int", "long", "float", "double", "string"):
+                try:
+                    jsonDecoder(jsonToAvroType(jsonlib.dumps(td)), v)
+                except AvroException as err:
+                    raise PrettyPfaException("{0} at {1}".format(err, self.pos))
             if td == "null":
                 return LiteralNull(self.pos)
             elif td == "int":
@@ -572,7 +588,7 @@ class MiniCall(MiniAst):
             elif td == "string":
                 return LiteralString(v, self.pos)
             elif td == "bytes":
-                return LiteralBase64(bytesToString(base64.b64decode(v)), self.pos)
+                return LiteralBase64(self.decodeBase64(v), self.pos)
             else:
                 return Literal(state.avroTypeBuilder.makePlaceholder(jsonlib.dumps(td), state.avroTypeMemo), jsonlib.dumps(v), self.pos)
 
@@ -604,8 +620,7 @@ class MiniCall(MiniAst):
         elif self.name == "bytes":
             if len(self.args) != 1:
                 raise PrettyPfaException("bytes function must have 1 argument, not {0}, at {1}".format(len(self.args), self.pos))
-            b64decodedString = bytesToString(base64.b64decode(self.args[0].asJson()))
-            return LiteralBase64(b64decodedString, self.pos)
+            return LiteralBase64(self.decodeBase64(self.args[0].asJson()), self.pos)
 
         elif self.name == "do":
             return Do([x.asExpr(state) for x in self.args])
diff --git a/titus/reader.py b/titus/reader.py
index 55c99ee..cb69ed6 100644
--- a/titus/reader.py
+++ b/titus/reader.py
@@ -207,6 +207,8 @@ def yamlToAst(yamlInput):
     obj = read(yaml.parse(yamlInput, Loader=yaml.SafeLoader))
     if isinstance(obj, yaml.events.Event):
         raise PFASyntaxException("YAML document does not contain any elements that map to JSON", "")
+    if not isinstance(obj, dict):
+        raise PFASyntaxException("PFA engine must be an object, not {0}".format(obj), "")
 
     return jsonToAst(obj)
 
@@ -309,10 +311,10 @@ def _stripAtSigns(data):
         return data
 
 def _readEngineConfig(data, avroTypeBuilder):
-    at = data.get("@")
-
     if not isinstance(data, dict):
-        raise PFASyntaxException("PFA engine must be a JSON object, not " + _trunc(repr(data)), at)
+        raise PFASyntaxException("PFA engine must be a JSON object, not " + _trunc(repr(data)), "")
+
+    at = data.get("@")
 
     keys = set(x for x in list(data.keys()) if x != "@")
 
@@ -414,7 +416,7 @@ def _readBoolean(data, dot):
         raise PFASyntaxException("expected boolean, not " + _trunc(repr(data)), dot)
 
 def _readInt(data, dot):
-    if isinstance(data, int):
+    if isinstance(data, int) and not isinstance(data, bool):
         if -2147483648 <= data <= 2147483647:
             return data
         else:
@@ -423,7 +425,7 @@ def _readInt(data, dot):
         raise PFASyntaxException("expected int, not " + _trunc(repr(data)), dot)
 
 def _readLong(data, dot):
-    if isinstance(data, int):
+    if isinstance(data, int) and not isinstance(data, bool):
         if -9223372036854775808 <= data <= 9223372036854775807:
             return data
         else:
@@ -432,14 +434,20 @@ def _readLong(data, dot):
         raise PFASyntaxException("expected long, not " + _trunc(repr(data)), dot)
 
 def _readFloat(data, dot):
-    if isinstance(data, (int, float)):
-        return float(data)
+    if isinstance(data, (int, float)) and not isinstance(data, bool):
+        try:
+            return float(data)
+        except OverflowError:
+            raise PFASyntaxException("float out of range: {0}".format(data), dot)
     else:
         raise PFASyntaxException("expected float, not " + _trunc(repr(data)), dot)
 
 def _readDouble(data, dot):
-    if isinstance(data, (int, float)):
-        return float(data)
+    if isinstance(data, (int, float)) and not isinstance(data, bool):
+        try:
+            return float(data)
+        except OverflowError:
+            raise PFASyntaxException("double out of range: {0}".format(data), dot)
     else:
         raise PFASyntaxException("expected double, not " + _trunc(repr(data)), dot)
 
@@ -457,7 +465,7 @@ def _readStringExpressionPairs(data, dot, avroTypeBuilder):
             out.extend(list(pair.items()))
         return out
     else:
-        return PFASyntaxException("expected array of {string: expression} pairs, found " + _trunc(repr(data)), dot)
+        raise PFASyntaxException("expected array of {string: expression} pairs, found " + _trunc(repr(data)), dot)
 
 def _readStringPairs(data, dot):
     if isinstance(data, (list, tuple)):
@@ -504,14 +512,17 @@ def _readString(data, dot):
         raise PFASyntaxException("expected string, not " + _trunc(repr(data)), dot)
 
 def _readStringOrInt(data, dot):
-    if isinstance(data, (str, int)):
+    if isinstance(data, (str, int)) and not isinstance(data, bool):
         return data
     else:
         raise PFASyntaxException("expected string or int, not " + _trunc(repr(data)), dot)
 
 def _readBase64(data, dot):
     if isinstance(data, str):
-        return bytesToString(base64.b64decode(data))
+        try:
+            return bytesToString(base64.b64decode(data))
+        except ValueError:
+            raise PFASyntaxException("expected base64 data, not " + _trunc(repr(data)), dot)
     else:
         raise PFASyntaxException("expected base64 data, not " + _trunc(repr(data)), dot)
 
@@ -550,6 +561,9 @@ def _readCastCase(data, dot, avroTypeBuilder):
             else:
                 raise PFASyntaxException("unexpected field in cast-case: {0}".format(key), pos(dot, at))
 
+    else:
+        raise PFASyntaxException("expected cast-case, not " + _trunc(repr(data)), dot)
+
     if "named" in keys and not validSymbolName(_named):
         raise PFASyntaxException("\"{0}\" is not a valid symbol name".format(_named), pos(dot, at))
 
@@ -557,7 +571,7 @@ def _readCastCase(data, dot, avroTypeBuilder):
     if (keys != required):
         raise PFASyntaxException("wrong set of fields for a cast-case: \"{0}\"".format(", ".join(keys)), pos(dot, at))
     else:
-        return CastCase(_as, _named, _body)
+        return CastCase(_as, _named, _body, pos(dot, at))
 
 def _readExpression(data, dot, avroTypeBuilder):
     out = _readArgument(data, dot, avroTypeBuilder)
@@ -606,6 +620,8 @@ def _readArgument(data, dot, avroTypeBuilder):
                 except ValueError:
                     rest[i] = LiteralString(rest[i], dot)
                 else:
+                    if not -2147483648 <= asint <= 2147483647:
+                        raise PFASyntaxException("integer out of range: " + rest[i], dot)
                     rest[i] = LiteralInt(asint, dot)
             return AttrGet(Ref(ref), rest, dot)
         elif validSymbolName(data):
@@ -686,7 +702,7 @@ def _readArgument(data, dot, avroTypeBuilder):
 
             elif key == "cond":
                 _cond = _readExpressionArray(data[key], dot + " -> " + key, avroTypeBuilder)
-                if any(x.elseClause is not None for x in _cond):
+                if any(not isinstance(x, If) or x.elseClause is not None for x in _cond):
                     raise PFASyntaxException("cond expression must only contain else-less if expressions", pos(dot, at))
 
             elif key == "cases": _cases = _readCastCaseArray(data[key], dot + " -> " + key, avroTypeBuilder)
@@ -816,7 +832,7 @@ def _readArgument(data, dot, avroTypeBuilder):
         elif keys == set(["call", "args"]):                  return CallUserFcn(_callwith, _callwithargs, pos(dot, at))
 
         elif len(keys) == 1 and list(keys)[0] not in \
-             set(["args", "as", "attr", "base64", "call", "cases", "cast", "cell", "code", "cond", "do", "doc", "double", "else",
+             set(["args", "as", "attr", "base64", "call", "cases", "cast", "cell", "code", "cond", "del", "do", "doc", "double", "else",
                   "error", "fcn", "fill", "filter", "float", "for", "foreach", "forkey", "format", "forval", "if", "ifnotnull", "in", "init",
                   "int", "let", "log", "long", "namespace", "new", "pack", "params", "partial", "path", "pool", "ret", "seq",
                   "set", "step", "string", "then", "to", "try", "type", "unpack", "until", "upcast", "value", "while"]):
@@ -835,7 +851,7 @@ def _readFcnDefMap(data, dot, avroTypeBuilder):
                 raise PFASyntaxException("\"{0}\" is not a valid function name".format(k), pos(dot, at))
         return dict((k, _readFcnDef(v, dot + " -> " + k, avroTypeBuilder)) for k, v in list(data.items()) if k != "@")
     else:
-        raise PFASyntaxException("expected map of function definitions, not " + _trunc(repr(data)), pos(dot, at))
+        raise PFASyntaxException("expected map of function definitions, not " + _trunc(repr(data)), dot)
 
 def _readFcnDef(data, dot, avroTypeBuilder):
     if isinstance(data, dict):
@@ -859,7 +875,7 @@ def _readFcnDef(data, dot, avroTypeBuilder):
         else:
             return FcnDef(_params, _ret, _body, pos(dot, at))
     else:
-        raise PFASyntaxException("expected function definition, not " + _trunc(repr(data)), pos(dot, at))
+        raise PFASyntaxException("expected function definition, not " + _trunc(repr(data)), dot)
 
 def _readParams(data, dot, avroTypeBuilder):
     if isinstance(data, (list, tuple)):
@@ -875,12 +891,12 @@ def _readParam(data, dot, avroTypeBuilder):
             raise PFASyntaxException("function parameter name-type map should have only one pair", pos(dot, at))
         n = list(keys)[0]
         if not validSymbolName(n):
-            raise PFASyntaxException("\"{0}\" is not a valid symbol name".format(n))
+            raise PFASyntaxException("\"{0}\" is not a valid symbol name".format(n), pos(dot, at))
 
         t = _readAvroPlaceholder(data[n], dot + " -> " + n, avroTypeBuilder)
         return {n: t}
     else:
-        raise PFASyntaxException("expected function parameter name-type singleton map, not " + _trunc(repr(data)), pos(dot, at))
+        raise PFASyntaxException("expected function parameter name-type singleton map, not " + _trunc(repr(data)), dot)
 
 def _readCells(data, dot, avroTypeBuilder):
     if isinstance(data, dict):
@@ -890,7 +906,7 @@ def _readCells(data, dot, avroTypeBuilder):
                 raise PFASyntaxException("\"{0}\" is not a valid symbol name".format(k), pos(dot, at))
         return dict((k, _readCell(data[k], dot, avroTypeBuilder)) for k, v in list(data.items()) if k != "@")
     else:
-        raise PFASyntaxException("expected map of cells, not " + _trunc(repr(data)), pos(dot, at))
+        raise PFASyntaxException("expected map of cells, not " + _trunc(repr(data)), dot)
 
 def _readCell(data, dot, avroTypeBuilder):
     if isinstance(data, dict):
@@ -970,6 +986,8 @@ def _readPool(data, dot, avroTypeBuilder):
             elif key == "shared": _shared = _readBoolean(data[key], dot + " -> " + key)
             elif key == "rollback": _rollback = _readBoolean(data[key], dot + " -> " + key)
             elif key == "source": _source = _readString(data[key], dot + " -> " + key)
+            else:
+                raise PFASyntaxException("unexpected pool property: \"{0}\"".format(key), pos(dot, at))
 
         if ("type" not in keys) or (not keys.issubset(set(["type", "init", "shared", "rollback", "source"]))):
             raise PFASyntaxException("wrong set of fields for a pool: " + ", ".join(keys), pos(dot, at))
@@ -1009,4 +1027,4 @@ def _readPool(data, dot, avroTypeBuilder):
 
             return Pool(_avroType, _init, _shared, _rollback, _source, pos(dot, at))
     else:
-        raise PFASyntaxException("expected pool, not " + _trunc(repr(data)), pos(dot, at))
+        raise PFASyntaxException("expected pool, not " + _trunc(repr(data)), dot)
diff --git a/titus/signature.py b/titus/signature.py
index 41f62e0..080d61f 100644
--- a/titus/signature.py
+++ b/titus/signature.py
@@ -286,6 +286,7 @@ class LabelData(object):
 
     def __init__(self):
         self.members = []
+        self.oneOf = None
         self.expectedFields = None
 
     def add(self, t):
@@ -293,6 +294,8 @@ class LabelData(object):
 
     def determineAssignment(self):
         out = LabelData.broadestType(self.members)
+        if self.oneOf is not None and out not in self.oneOf:
+            raise IncompatibleTypes("assigned type is not one of those the wildcard is restricted to")
         if self.expectedFields is not None:
             if isinstance(out, AvroRecord):
                 if self.expectedFields != tuple(x.name for x in out.fields):
@@ -517,14 +520,17 @@ class Sig(Signature):
                     return False
 
         elif isinstance(pat, P.Fcn) and isinstance(arg, FcnType):
-            return all(self.check(p, a, labelData, strict, True) for p, a in zip(pat.params, arg.params)) and \
+            return len(pat.params) == len(arg.params) and \
+                   all(self.check(p, a, labelData, strict, True) for p, a in zip(pat.params, arg.params)) and \
                    self.check(pat.ret, arg.ret, labelData, strict, False)
 
-        elif isinstance(pat, P.Wildcard):
+        elif isinstance(pat, P.Wildcard) and isinstance(arg, AvroType):
             if pat.oneOf is None or arg in pat.oneOf:
                 if not pat.label in labelData:
                     labelData[pat.label] = LabelData()
                 labelData[pat.label].add(arg)
+                if pat.oneOf is not None:
+                    labelData[pat.label].oneOf = pat.oneOf
                 return True
             else:
                 return False
@@ -541,13 +547,13 @@ class Sig(Signature):
             else:
                 return False
 
-        elif isinstance(pat, P.WildEnum):
+        elif isinstance(pat, P.WildEnum) and isinstance(arg, AvroEnum):
             if not pat.label in labelData:
                 labelData[pat.label] = LabelData()
             labelData[pat.label].add(arg)
             return True
 
-        elif isinstance(pat, P.WildFixed):
+        elif isinstance(pat, P.WildFixed) and isinstance(arg, AvroFixed):
             if not pat.label in labelData:
                 labelData[pat.label] = LabelData()
             labelData[pat.label].add(arg)
@@ -612,6 +618,9 @@ class Sig(Signature):
             return arg
 
         elif isinstance(pat, P.Fcn) and isinstance(arg, FcnType):
+            for p, a in zip(pat.params, arg.params):
+                if not a.accepts(self.assignRet(p, assignments)):
+                    raise IncompatibleTypes("function argument does not accept the values it would be called with")
             return arg
 
         elif isinstance(pat, P.Wildcard):
-- 
2.43.0


From b867d981c4ff7a567b1e00764cff584f08d1a0a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:11 +0000
Subject: [PATCH 46/64] fix: types keep their null defaults and documentation
 when written as JSON

---
 titus/datatype.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/titus/datatype.py b/titus/datatype.py
index d09367a..b4df29e 100644
--- a/titus/datatype.py
+++ b/titus/datatype.py
@@ -466,6 +466,8 @@ class AvroEnum(AvroIdentifier, AvroCompiled):
         else:
             memo.add(self.fullName)
             out = {"type": "enum", "symbols": self.symbols}
+            if self.schema.doc is not None:
+                out["doc"] = self.schema.doc
             if self.namespace is not None and self.namespace != "":
                 out["name"] = self.name
                 out["namespace"] = self.namespace
@@ -548,6 +550,8 @@ class AvroRecord(AvroContainer, AvroMapping, AvroCompiled):
                 out["namespace"] = self.namespace
             else:
                 out["name"] = self.name
+            if self.schema.doc is not None:
+                out["doc"] = self.schema.doc
             out["fields"] = []
             for field in self.fields:
                 out["fields"].append(field.jsonNode(memo))
@@ -626,10 +630,12 @@ class AvroField(object):
     def jsonNode(self, memo):
         """Get the field as a Python-encoded JSON node."""
         out = {"name": self.name, "type": self.avroType.jsonNode(memo)}
-        if self.default is not None:
+        if self.schema.has_default:
             out["default"] = self.default
         if self.order is not None:
             out["order"] = self.order
+        if self.schema.doc is not None:
+            out["doc"] = self.schema.doc
         return out
 
 ########################### resolving types out of order in streaming input
-- 
2.43.0


From 396b1fee2ac0af6ca61c2d615d6d7acd175c959a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:03 +0000
Subject: [PATCH 47/64] fix: types: unions are not taken for their members,
 least common types keep every alternative, and mismatches are refused instead
 of crashing

---
 titus/datatype.py  |  9 +++------
 titus/signature.py | 25 ++++++++++++++++---------
 2 files changed, 19 insertions(+), 15 deletions(-)

diff --git a/titus/datatype.py b/titus/datatype.py
index b4df29e..dc473aa 100644
--- a/titus/datatype.py
+++ b/titus/datatype.py
@@ -50,7 +50,7 @@ class FcnType(Type):
         return self._ret
 
     def accepts(self, other):
-        if isinstance(self, FcnType):
+        if isinstance(other, FcnType):
             return len(self.params) == len(other.params) and \
                    all(y.accepts(x) for x, y in zip(self.params, other.params)) and \
                    self.ret.accepts(other.ret)
@@ -187,7 +187,7 @@ class AvroType(Type):
 
     def _recordFieldsOkay(self, other, memo, checkRecord):
         for xf in self.fields:
-            if xf.default is None:
+            if not xf.schema.has_default:
                 if not any(xf.name == yf.name and xf.avroType.accepts(yf.avroType, memo, checkRecord) for yf in other.fields):
                     return False
             else:
@@ -280,9 +280,6 @@ class AvroType(Type):
         elif isinstance(self, AvroUnion):
             return any(xt.accepts(other, memo, checkRecord) for xt in self.types)
 
-        elif isinstance(other, AvroUnion):
-            return all(self.accepts(yt, memo, checkRecord) for yt in other.types)
-
         else:
             return False
 
@@ -565,7 +562,7 @@ class AvroUnion(AvroType):
         :type types: list of titus.datatype.AvroType
         :param types: possible types for this union in the order of their resolution
         """
-        names = set([x.name for x in types])
+        names = set([x.fullName for x in types])
         if len(types) != len(names):
             raise titus.errors.AvroException("duplicate in union: " + ", ".join(map(ts, types)))
         if "union" in names:
diff --git a/titus/signature.py b/titus/signature.py
index 080d61f..d45b608 100644
--- a/titus/signature.py
+++ b/titus/signature.py
@@ -21,6 +21,7 @@ from collections import OrderedDict
 import itertools
 
 import titus.P as P
+from titus.errors import AvroException
 from titus.datatype import Type
 from titus.datatype import FcnType
 from titus.datatype import ExceptionType
@@ -184,10 +185,7 @@ class LabelData(object):
                 for y in out:
                     if candidate.accepts(y): break
                     i += 1
-                if i == len(out):
-                    out.append(candidate)
-                else:
-                    out[i] = candidate
+                out = out[:i] + [candidate] + [y for y in out[i:] if not candidate.accepts(y)]
         return out
 
     @staticmethod
@@ -203,9 +201,12 @@ class LabelData(object):
         realCandidates = [x for x in candidates if not isinstance(x, ExceptionType)]
 
         if len(candidates) == 0:
-            return ValueError("empty list of types")
+            raise IncompatibleTypes("empty list of types")
         elif len(realCandidates) == 0:
-            return ValueError("list of types consists only of exception type")
+            return AvroNull()
+
+        elif all(x == realCandidates[0] for x in realCandidates[1:]):
+            return realCandidates[0]
 
         elif all(isinstance(x, AvroNull) for x in realCandidates):
             return realCandidates[0]
@@ -279,7 +280,10 @@ class LabelData(object):
             if countEnum > 1:
                 raise IncompatibleTypes("incompatible enum types")
 
-            return AvroUnion(types)
+            try:
+                return AvroUnion(types)
+            except AvroException as err:
+                raise IncompatibleTypes(str(err))
 
         else:
             raise IncompatibleTypes("incompatible function/non-function types: " + " ".join(map(repr, realCandidates)))
@@ -648,7 +652,10 @@ class Sig(Signature):
         :return: resolved type for the return value of the signature
         """
 
-        if isinstance(pat, P.Null):
+        if isinstance(pat, (P.Wildcard, P.WildRecord, P.WildEnum, P.WildFixed, P.EnumFields)) and pat.label not in assignments:
+            raise IncompatibleTypes("no argument determines the type of " + pat.label)
+
+        elif isinstance(pat, P.Null):
             return AvroNull()
         elif isinstance(pat, P.Boolean):
             return AvroBoolean()
@@ -759,7 +766,7 @@ def toText(p, alreadyLabeled=None):
         return p.label
     elif isinstance(p, P.Wildcard):
         alreadyLabeled.add(p.label)
-        if len(p.oneOf) == 0:
+        if p.oneOf is None or len(p.oneOf) == 0:
             return "any " + p.label
         else:
             return "any " + p.label + " of {" + ", ".join(toTextType(x) for x in p.oneOf) + "}"
-- 
2.43.0


From 914586500ec6f847a90944e9af91e632551aaeb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:32 +0000
Subject: [PATCH 48/64] fix: call graphs include every call, and updaters that
 would change other state or deadlock are refused

---
 titus/genpy.py  | 9 +++++----
 titus/pfaast.py | 5 ++++-
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/titus/genpy.py b/titus/genpy.py
index 29b280e..8ba166e 100644
--- a/titus/genpy.py
+++ b/titus/genpy.py
@@ -1402,21 +1402,22 @@ def checkForDeadlock(engineConfig, engine):
 
     class CellToOrPoolTo(object):
         def isDefinedAt(self, ast):
-            return isinstance(ast, (CellTo, PoolTo))
+            return isinstance(ast, (CellTo, PoolTo, PoolDel))
         def __call__(self, slotTo):
             raise PFAInitializationException("inline function in cell-to or pool-to invokes a " + slotTo.desc)
 
     class SideEffectFunction(object):
         def isDefinedAt(self, ast):
-            return isinstance(ast, Call) and engine.hasSideEffects(ast.name)
+            return isinstance(ast, (Call, FcnRef, FcnRefFill)) and engine.hasSideEffects(ast.name)
         def __call__(self, call):
             raise PFAInitializationException("inline function in cell-to or pool-to invokes function \"{0}\", which has side-effects".format(call.name))
 
     class WithFcnDef(object):
         def isDefinedAt(self, ast):
-            return isinstance(ast, (CellTo, PoolTo)) and isinstance(ast.to, FcnDef)
+            return isinstance(ast, (CellTo, PoolTo)) and isinstance(ast.to, (FcnDef, FcnRefFill))
         def __call__(self, slotTo):
-            for x in slotTo.to.body:
+            # the arguments of a partially applied function are evaluated when it is called
+            for x in (slotTo.to.body if isinstance(slotTo.to, FcnDef) else slotTo.to.fill.values()):
                 x.collect(CellToOrPoolTo())
                 x.collect(SideEffectFunction())
     engineConfig.collect(WithFcnDef())
diff --git a/titus/pfaast.py b/titus/pfaast.py
index 2c33a5e..0fd11a3 100644
--- a/titus/pfaast.py
+++ b/titus/pfaast.py
@@ -1848,7 +1848,7 @@ class CallUserFcn(Expression):
         scope = symbolTable.newScope(True, True)
         argResults = [x.walk(task, scope, functionTable, engineOptions, version) for x in self.args]
 
-        calls = set("u." + x for x in fcnNames)
+        calls = nameContext.calls.union("u." + x for x in fcnNames)
         argTypes = []
         for ctx, res in argResults:
             if isinstance(ctx, ExpressionContext):
@@ -3270,6 +3270,7 @@ class AttrGet(Expression, HasPath):
             raise PFASemanticException("expression is not an array, map, or record", self.pos)
 
         retType, calls, pathResult = self.walkPath(exprContext.retType, task, symbolTable, functionTable, engineOptions, version)
+        calls = calls.union(exprContext.calls)
         context = self.Context(retType, calls.union(set([self.desc])), exprResult, exprContext.retType, pathResult, self.pos)
         return context, task(context, engineOptions)
 
@@ -3382,6 +3383,7 @@ class AttrTo(Expression, HasPath):
             raise PFASemanticException("expression is not an array, map, or record", self.pos)
 
         setType, calls, pathResult = self.walkPath(exprContext.retType, task, symbolTable, functionTable, engineOptions, version)
+        calls = calls.union(exprContext.calls)
 
         toContext, toResult = self.to.walk(task, symbolTable, functionTable, engineOptions, version)
 
@@ -3862,6 +3864,7 @@ class PoolTo(Expression, HasPath):
 
         if not poolType.accepts(initContext.retType):
             raise PFASemanticException("pool has type {0} but attempting to init with type {1}".format(ts(poolType), ts(initContext.retType)), self.pos)
+        calls = calls.union(initContext.calls)
 
         if isinstance(toContext, ExpressionContext):
             if not setType.accepts(toContext.retType):
-- 
2.43.0


From 9d7953e9521737abc1b2f9de0edd84f89076cfa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:49 +0000
Subject: [PATCH 49/64] fix: cells and pools can be loaded from external JSON
 and Avro files, and documents keep pointing at them

---
 titus/pfaast.py    | 38 +++++++++++++++++++++++++++++----
 titus/prettypfa.py | 22 +++++++++++++++-----
 titus/reader.py    | 52 ++++++++++------------------------------------
 3 files changed, 62 insertions(+), 50 deletions(-)

diff --git a/titus/pfaast.py b/titus/pfaast.py
index 0fd11a3..26737a4 100644
--- a/titus/pfaast.py
+++ b/titus/pfaast.py
@@ -18,10 +18,15 @@
 # limitations under the License.
 
 import base64
+import io
 import json
 import re
+import urllib.request
 from collections import OrderedDict
 
+from avro.datafile import DataFileReader
+from avro.io import DatumReader
+
 import titus.lib.core
 import titus.lib.pfamath
 import titus.lib.spec
@@ -1064,6 +1069,31 @@ class CellPoolSource(object):
     JSON = "json"
     AVRO = "avro"
 
+class ExternalInit(object):
+    """Initial value of a cell or pool (any callable from type to serialized JSON would do) that is read from a JSON or Avro file."""
+
+    def __init__(self, source, url):
+        """:type source: titus.pfaast.CellPoolSource string
+        :param source: format of the file
+        :type url: string
+        :param url: URL or file name
+        """
+        self.source = source
+        self.url = url
+
+    def __call__(self, avroType):
+        if re.match(r"^[a-zA-Z][a-zA-Z0-9\+\-\.]*://", self.url) is not None:
+            with urllib.request.urlopen(self.url) as f:
+                content = f.read()
+        else:
+            with open(self.url, "rb") as f:
+                content = f.read()
+        if self.source == CellPoolSource.AVRO:
+            value = next(DataFileReader(io.BytesIO(content), DatumReader()))
+            return json.dumps(jsonEncoder(avroType, checkData(value, avroType)))
+        else:
+            return content.decode("utf-8")
+
 @titus.util.case
 class Cell(Ast):
     """Abstract syntax tree for a ``cell`` definition."""
@@ -1154,7 +1184,7 @@ class Cell(Ast):
         """
         out = self.startDict(lineNumbers)
         out["type"] = self.avroPlaceholder.jsonNode(memo)
-        out["init"] = self.initJsonNode
+        out["init"] = self.init.url if isinstance(self.init, ExternalInit) else self.initJsonNode
         out["shared"] = self.shared
         out["rollback"] = self.rollback
         if self.source != CellPoolSource.EMBEDDED:
@@ -1189,8 +1219,8 @@ class Pool(Ast):
         if not isinstance(avroPlaceholder, (AvroPlaceholder, AvroType)):
             raise PFASyntaxException("\"avroPlaceholder\" must be an AvroPlaceholder or AvroType", pos)
 
-        if not isinstance(init, dict) or not all(isinstance(x, str) or x is None for x in list(init.values())):
-            raise PFASyntaxException("\"init\" must be a string or callable", pos)
+        if not callable(init) and (not isinstance(init, dict) or not all(isinstance(x, str) or x is None for x in list(init.values()))):
+            raise PFASyntaxException("\"init\" must be a dictionary of strings or callable", pos)
 
         if not isinstance(shared, bool):
             raise PFASyntaxException("\"shared\" must be boolean", pos)
@@ -1254,7 +1284,7 @@ class Pool(Ast):
         """
         out = self.startDict(lineNumbers)
         out["type"] = self.avroPlaceholder.jsonNode(memo)
-        out["init"] = self.initJsonNode
+        out["init"] = self.init.url if isinstance(self.init, ExternalInit) else self.initJsonNode
         out["shared"] = self.shared
         out["rollback"] = self.rollback
         if self.source != CellPoolSource.EMBEDDED:
diff --git a/titus/prettypfa.py b/titus/prettypfa.py
index 4a2ffe3..0570abb 100644
--- a/titus/prettypfa.py
+++ b/titus/prettypfa.py
@@ -32,6 +32,7 @@ from titus.pfaast import Method
 from titus.pfaast import EngineConfig
 from titus.pfaast import Cell
 from titus.pfaast import Pool
+from titus.pfaast import ExternalInit
 from titus.pfaast import Argument
 from titus.pfaast import Expression
 from titus.pfaast import LiteralValue
@@ -904,19 +905,28 @@ class MiniCellPool(MiniAst):
         super(MiniCellPool, self).__init__(low, high)
     def __repr__(self):
         return "MiniCellPool({0}, {1}, {2}, {3}, {4}, {5})".format(self.name, self.objType, self.init, self.shared, self.rollback, self.source)
+    def externalInit(self):
+        url = self.init.asJson()
+        if not isinstance(url, str):
+            raise PrettyPfaException("source: {0} requires init to be a string, not {1}, at {2}".format(self.source, url, self.pos))
+        return ExternalInit(self.source, url)
     def asCell(self, state):
         return (self.name, Cell(state.avroTypeBuilder.makePlaceholder(jsonlib.dumps(self.objType.asType(state)), state.avroTypeMemo),
-                                jsonlib.dumps(self.init.asJson()),
+                                self.externalInit() if self.source in ("json", "avro") else jsonlib.dumps(self.init.asJson()),
                                 self.shared,
                                 self.rollback,
                                 self.source,
                                 self.pos))
     def asPool(self, state):
-        init = self.init.asJson()
-        if not isinstance(init, dict):
-            raise PrettyPfaException("pool's init must be a JSON object, not {0}, at {1}".format(init, self.pos))
+        if self.source in ("json", "avro"):
+            init = self.externalInit()
+        else:
+            init = self.init.asJson()
+            if not isinstance(init, dict):
+                raise PrettyPfaException("pool's init must be a JSON object, not {0}, at {1}".format(init, self.pos))
+            init = dict((k, jsonlib.dumps(v)) for k, v in list(init.items()))
         return (self.name, Pool(state.avroTypeBuilder.makePlaceholder(jsonlib.dumps(self.objType.asType(state)), state.avroTypeMemo),
-                                dict((k, jsonlib.dumps(v)) for k, v in list(init.items())),
+                                init,
                                 self.shared,
                                 self.rollback,
                                 self.source,
@@ -1884,6 +1894,8 @@ class Parser(object):
                                 source = param.typeExpr.value
                             else:
                                 raise PrettyPfaException("cell/pool parameter \"source\" must be a string, not {0}, at {1}".format(param.typeExpr, param.pos))
+                            if source not in ("embedded", "json", "avro"):
+                                raise PrettyPfaException("unrecognized source type \"{0}\", at {1}".format(source, param.pos))
                         elif param.name == "type":
                             objType = param.typeExpr
                         else:
diff --git a/titus/reader.py b/titus/reader.py
index cb69ed6..05365dc 100644
--- a/titus/reader.py
+++ b/titus/reader.py
@@ -19,13 +19,9 @@
 
 import json
 import base64
-import urllib.request, urllib.parse, urllib.error
 import io
 import re
 
-from avro.datafile import DataFileReader
-from avro.io import DatumReader
-
 import titus.util
 from titus.util import pos, bytesToString
 
@@ -36,6 +32,7 @@ from titus.pfaast import Method
 from titus.pfaast import EngineConfig
 from titus.pfaast import Cell
 from titus.pfaast import Pool
+from titus.pfaast import ExternalInit
 from titus.pfaast import Argument
 from titus.pfaast import Expression
 from titus.pfaast import LiteralValue
@@ -927,26 +924,12 @@ def _readCell(data, dot, avroTypeBuilder):
         if ("type" not in keys) or ("init" not in keys) or (not keys.issubset(set(["type", "init", "shared", "rollback", "source"]))):
             raise PFASyntaxException("wrong set of fields for a cell: " + ", ".join(keys), pos(dot, at))
         else:
-            if _source == "avro":
+            if _source in ("avro", "json"):
                 url = json.loads(_init)
                 if not isinstance(url, str):
-                    raise PFASyntaxException("source: avro requires init to be a string", pos(dot, at))
-                def getit(avroType):
-                    reader = DataFileReader(urllib.request.urlopen(url), DatumReader())
-                    return reader.read()
-                _init = getit
+                    raise PFASyntaxException("source: {0} requires init to be a string".format(_source), pos(dot, at))
+                _init = ExternalInit(_source, url)
 
-            elif _source == "json":
-                url = json.loads(_init)
-                if not isinstance(url, str):
-                    raise PFASyntaxException("source: json requires init to be a string", pos(dot, at))
-                def getit(avroType):
-                    if re.match("^[a-zA-Z][a-zA-Z0-9\+\-\.]*://", url) is not None:
-                        return urllib.request.urlopen(url).read()
-                    else:
-                        return open(url).read()
-                _init = getit
-                
             elif _source == "embedded":
                 pass
                 # # which is the equivalent of...
@@ -982,7 +965,7 @@ def _readPool(data, dot, avroTypeBuilder):
         keys = set(x for x in list(data.keys()) if x != "@")
         for key in keys:
             if key == "type": _avroType = _readAvroPlaceholder(data[key], dot + " -> " + key, avroTypeBuilder)
-            elif key == "init": _init = _readJsonToStringMap(data[key], dot + " -> " + key)
+            elif key == "init": pass    # how to read it depends on the source
             elif key == "shared": _shared = _readBoolean(data[key], dot + " -> " + key)
             elif key == "rollback": _rollback = _readBoolean(data[key], dot + " -> " + key)
             elif key == "source": _source = _readString(data[key], dot + " -> " + key)
@@ -992,28 +975,15 @@ def _readPool(data, dot, avroTypeBuilder):
         if ("type" not in keys) or (not keys.issubset(set(["type", "init", "shared", "rollback", "source"]))):
             raise PFASyntaxException("wrong set of fields for a pool: " + ", ".join(keys), pos(dot, at))
         else:
-            if _source == "avro":
-                url = json.loads(_init)
+            if _source in ("avro", "json"):
+                url = data.get("init")
                 if not isinstance(url, str):
-                    raise PFASyntaxException("source: avro requires init to be a string", pos(dot, at))
-                def getit(avroType):
-                    reader = DataFileReader(urllib.request.urlopen(url), DatumReader())
-                    return reader.read()
-                _init = getit
+                    raise PFASyntaxException("source: {0} requires init to be a string".format(_source), pos(dot, at))
+                _init = ExternalInit(_source, url)
 
-            elif _source == "json":
-                url = json.loads(_init)
-                if not isinstance(url, str):
-                    raise PFASyntaxException("source: json requires init to be a string", pos(dot, at))
-                def getit(avroType):
-                    if re.match("^[a-zA-Z][a-zA-Z0-9\+\-\.]*://", url) is not None:
-                        return urllib.request.urlopen(url).read()
-                    else:
-                        return open(url).read()
-                _init = getit
-                
             elif _source == "embedded":
-                pass
+                if "init" in keys:
+                    _init = _readJsonToStringMap(data["init"], dot + " -> init")
                 # # which is the equivalent of...
                 # value = {}
                 # for k, v in _init.items():
-- 
2.43.0


From 62fcd49b451e1a0fde44db5f842e3d0c69a3bcf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:44 +0000
Subject: [PATCH 50/64] fix: random strings hold no surrogates, histograms
 always select an item, and negative sample sizes do not crash

---
 titus/lib/rand.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/titus/lib/rand.py b/titus/lib/rand.py
index 892823d..8e5dea6 100644
--- a/titus/lib/rand.py
+++ b/titus/lib/rand.py
@@ -114,7 +114,7 @@ class RandomSample(LibFcn):
             raise PFARuntimeException("population must not be empty", self.errcodeBase + 0, self.name, pos)
         if len(population) < size:
             raise PFARuntimeException("population smaller than requested subsample", self.errcodeBase + 1, self.name, pos)
-        return state.rand.sample(population, size)
+        return state.rand.sample(population, max(size, 0))
 provide(RandomSample())
         
 ########################################################### deviates from a histogram
@@ -133,12 +133,16 @@ class RandomHistogram(LibFcn):
                 raise PFARuntimeException("distribution must be non-negative", self.errcodeBase + 2, self.name, pos)
             cumulativeSum.append(cumulativeSum[-1] + x)
         total = cumulativeSum[-1]
+        if math.isinf(total):
+            raise PFARuntimeException("distribution must be finite", self.errcodeBase + 1, self.name, pos)
         if total == 0.0:
             raise PFARuntimeException("distribution must be non-empty", self.errcodeBase + 0, self.name, pos)
         position = rand.uniform(0.0, total)
         for i, y in enumerate(cumulativeSum):
             if position < y:
                 return i - 1
+        # position may have been rounded up to the total
+        return max(i for i, x in enumerate(distribution) if x > 0.0)
     def __call__(self, state, scope, pos, paramTypes, distribution):
         if isinstance(paramTypes[-1], dict) and paramTypes[-1].get("type") == "record":
             probs = [x["prob"] for x in distribution]
@@ -159,7 +163,7 @@ class RandomString(LibFcn):
     def __call__(self, state, scope, pos, paramTypes, size, *args):
         if size <= 0: raise PFARuntimeException("size must be positive", self.errcodeBase + 0, self.name, pos)
         if len(args) == 0:
-            return "".join(chr(state.rand.randint(1, 0xD800)) for x in range(size))
+            return "".join(chr(state.rand.randint(1, 0xD800 - 1)) for x in range(size))
         elif len(args) == 1:
             if len(args[0]) == 0:
                 raise PFARuntimeException("population must be non-empty", self.errcodeBase + 3, self.name, pos)
-- 
2.43.0


From 7e752b44566029047ce733ef614a81e0ff926080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:57 +0000
Subject: [PATCH 51/64] fix: probability distributions at the edges of their
 support, with large parameters and extreme probabilities

---
 titus/lib/prob/dist.py | 111 ++++++++++++++++++-----------------------
 titus/lib/spec.py      |  45 +++++++++++------
 2 files changed, 78 insertions(+), 78 deletions(-)

diff --git a/titus/lib/prob/dist.py b/titus/lib/prob/dist.py
index 6dd22e6..d9e2d12 100644
--- a/titus/lib/prob/dist.py
+++ b/titus/lib/prob/dist.py
@@ -33,7 +33,7 @@ from titus.lib.spec import incompleteBetaFunction
 from titus.lib.spec import inverseIncompleteBetaFunction
 from titus.lib.spec import regularizedGammaQ
 from titus.lib.spec import regularizedGammaP
-from titus.lib.spec import nChooseK
+from titus.lib.spec import logNChooseK
 
 provides = {}
 def provide(fcn):
@@ -597,7 +597,7 @@ class BinomialPDF(LibFcn):
             raise PFARuntimeException("invalid input", self.errcodeBase + 1, self.name, pos)
         elif x < 0:
             return 0.0
-        elif x >= size:
+        elif x > size:
             return 0.0
         else:
             return BinomialDistribution(size, prob, self.errcodeBase + 0, self.name, pos).PDF(x)
@@ -839,12 +839,10 @@ class NegativeBinomialCDF(LibFcn):
             raise PFARuntimeException("invalid parameterization", self.errcodeBase + 0, self.name, pos)
         elif math.isinf(x) or math.isnan(x):
             raise PFARuntimeException("invalid input", self.errcodeBase + 1, self.name, pos)
-        elif x == 0 and size == 0:
-            return 1.0
-        elif size == 0:
-            return 0.0
         elif x < 0:
             return 0.0
+        elif size == 0:
+            return 1.0
         else:
             return NegativeBinomialDistribution(size, prob, self.errcodeBase + 0, self.name, pos).CDF(x)
 provide(NegativeBinomialCDF())
@@ -1130,20 +1128,22 @@ class GammaDistribution(object):
         elif (p == 0.0):
             return 0.0
         else:
+            # Newton's method, falling back on bisection wherever a step leaves the bracket
+            low, high = 0.0, float("inf")
             y = self.alpha*self.beta
-            y_old = y
-            for i in range(0,100):
-                h = (self.CDF(y_old) - p)/self.PDF(y_old)
-                if y_old - h <= 0.0:
-                    y_new = y_old / 2.0
+            for i in range(0, 2000):
+                diff = self.CDF(y) - p
+                if diff > 0.0:
+                    high = y
                 else:
-                    y_new = y_old - h
-                if abs(y_new) <= self.epsilon:
-                    y_new = y_old/10.0
-                    h = y_old - y_new
-                if abs(h) < math.sqrt(self.epsilon):
+                    low = y
+                slope = self.PDF(y) if y > 0.0 else 0.0
+                y_new = y - diff/slope if slope > 0.0 else low
+                if not (low < y_new < high):
+                    y_new = (low + high)/2.0 if high < float("inf") else 2.0*y
+                if abs(y_new - y) <= self.epsilon*abs(y):
                     break
-                y_old = y_new
+                y = y_new
             return y_new
 
 ################### Beta
@@ -1251,11 +1251,12 @@ class FDistribution(object):
         elif (x == 0) and (self.d1 == 2.0):
             return 1.0
         else:
-            num_arg1 = pow(self.d1/self.d2, self.d1/2.0)
-            num_arg2 = pow(x, (self.d1/2.0)-1.0)
-            den_arg1 = math.exp(logBetaFunction(self.d1/2.0, self.d2/2.0))
-            den_arg2 = pow((1.0 + (self.d1*x)/self.d2), (self.d1 + self.d2)/2.0)
-            return (num_arg1*num_arg2)/(den_arg1*den_arg2)
+            # in logarithms, so that large degrees of freedom do not overflow
+            num_arg1 = (self.d1/2.0)*math.log(self.d1/self.d2)
+            num_arg2 = ((self.d1/2.0)-1.0)*math.log(x)
+            den_arg1 = logBetaFunction(self.d1/2.0, self.d2/2.0)
+            den_arg2 = ((self.d1 + self.d2)/2.0)*math.log1p((self.d1*x)/self.d2)
+            return math.exp(num_arg1 + num_arg2 - den_arg1 - den_arg2)
 
     def CDF(self,x):
         if math.isnan(x):
@@ -1444,13 +1445,12 @@ class BinomialDistribution(object):
         if x < 0.0:
             return 0.0
         else:
-            if x == 0:
-                nchoosek = 1.0
-            elif (x < 0) or (x > self.n):
-                nchoosek = 0.0
+            if x > self.n:
+                return 0.0
+            elif (self.prob == 0.0) or (self.prob == 1.0):
+                return pow(self.prob, x) * pow(1.0 - self.prob, self.n - x)
             else:
-                nchoosek = nChooseK(self.n, x)
-            return nchoosek * pow(self.prob, x) * pow(1.0 - self.prob, self.n - x)
+                return math.exp(logNChooseK(self.n, x) + x*math.log(self.prob) + (self.n - x)*math.log1p(-self.prob))
 
     def CDF(self, x):
         if math.isnan(x):
@@ -1477,7 +1477,7 @@ class BinomialDistribution(object):
             # step through CDFs until we find the right one
             x = 0
             p0 = 0.0
-            while (p0 < p):
+            while (p0 < p) and (x <= self.n):
                 p0 = p0 + self.PDF(x)
                 x += 1
             return x - 1
@@ -1555,7 +1555,7 @@ class GeometricDistribution(object):
             if self.prob == 1.0:
                 return 0.0
             else:
-                return math.floor(math.log(1.0 - p)/math.log(1.0 - self.prob))
+                return math.floor(math.log1p(-p)/math.log1p(-self.prob))
         else:
             return 0.0
 
@@ -1572,29 +1572,13 @@ class HypergeometricDistribution(object):
             raise PFARuntimeException("invalid parameterization", self.errcodeBase + 0, self.name, self.pos)
 
     def PDF(self, x): # x is number of white balls drawn
-        # compute nchoosek(n_white,x)
-        if x == 0:
-            nchoosek1 = 1.0
-        elif (x < 0) or (x >= self.n_white):
-            nchoosek1 = 0.0
-        else:
-            nchoosek1 = nChooseK(self.n_white, x)
-        # compute nchoosek(n_black, n_drawn - x)
-        if (self.n_drawn - x == 0):
-            nchoosek2 = 1.0
+        if (x < 0) or (x > self.n_white):
+            return 0.0
         elif (self.n_drawn - x < 0) or (self.n_drawn - x > self.n_black):
-            nchoosek2 = 0.0
-        else:
-            nchoosek2 = nChooseK(self.n_black, self.n_drawn - x)
-        # compute nchoosek(n_white + n_black, n_drawn)
-        if self.n_drawn == 0:
-            nchoosek3 = 1.0
-        elif (self.n_drawn < 0) or (self.n_drawn > self.n_white + self.n_black):
-            nchoosek3 = 0.0
+            return 0.0
         else:
-            nchoosek3 = nChooseK(self.n_white + self.n_black, self.n_drawn)
-        # compute
-        return nchoosek1 * nchoosek2 / nchoosek3
+            return math.exp(logNChooseK(self.n_white, x) + logNChooseK(self.n_black, self.n_drawn - x) \
+                            - logNChooseK(self.n_white + self.n_black, self.n_drawn))
 
     def CDF(self, x):
         if (x > self.n_white):
@@ -1616,7 +1600,7 @@ class HypergeometricDistribution(object):
             # step through CDFs until we find the right one
             x = 0
             p0 = 0.0
-            while (p0 <= p):
+            while (p0 <= p) and (x <= self.n_drawn):
                 p0 = p0 + self.PDF(x)
                 x += 1
             return x - 1
@@ -1644,8 +1628,11 @@ class WeibullDistribution(object):
                 return 0.0
         elif x >= 0.0:
             term1 = (self.a/self.b)
-            term2 = pow(x/self.b, self.a - 1.0)
-            term3 = math.exp(-pow(x/self.b, self.a))
+            try:
+                term2 = pow(x/self.b, self.a - 1.0)
+                term3 = math.exp(-pow(x/self.b, self.a))
+            except OverflowError:
+                return 0.0
             return term1 * term2 * term3
 
         else:
@@ -1655,7 +1642,10 @@ class WeibullDistribution(object):
         if math.isnan(x):
             return float("nan")
         elif x >= 0.0:
-            return 1.0 - math.exp(-pow(x/self.b, self.a))
+            try:
+                return 1.0 - math.exp(-pow(x/self.b, self.a))
+            except OverflowError:
+                return 1.0
         else:
             return 0.0
 
@@ -1693,13 +1683,7 @@ class NegativeBinomialDistribution(object):
         elif (self.prob == 1.0) and (x == 0.0):
             return 1.0
         elif (x >= 0.0):
-            if x == 0:
-                val = 1.0
-            elif x < 0:
-                val = 0.0
-            else:
-                val = nChooseK(self.n + x - 1.0, x)
-            return val * pow(1.0 - self.prob, x) * pow(self.prob, self.n)
+            return math.exp(logNChooseK(self.n + x - 1.0, x) + x*math.log1p(-self.prob) + self.n*math.log(self.prob))
         else:
             return 0.0
 
@@ -1754,6 +1738,9 @@ class NegativeBinomialDistribution(object):
                 x = 0.0
                 s = 0.0
                 while (s <= p):
+                    s_old = s
                     s = s + self.PDF(x)
+                    if (s == s_old) and (x > mu):
+                        break          # the rest of the tail is too small to count
                     x += 1
                 return x - 1
diff --git a/titus/lib/spec.py b/titus/lib/spec.py
index a5a799b..da16b8c 100644
--- a/titus/lib/spec.py
+++ b/titus/lib/spec.py
@@ -138,6 +138,10 @@ def logBetaFunction(a, b):
 
 # numerical recipes in C
 def incompleteBetaFunction(x,a,b):
+    if x <= 0.0:
+        return 0.0
+    if x >= 1.0:
+        return 1.0
     try:
         lbeta = math.lgamma(a + b) - math.lgamma(a) - math.lgamma(b) \
                 + a * math.log(x) + b * math.log(1.0 - x)
@@ -152,7 +156,7 @@ def incompleteBetaFunction(x,a,b):
 def inverseIncompleteBetaFunction(p, a, b):
     a1 = a - 1.0
     b1 = b - 1.0
-    ERROR = 1.0e-10
+    ERROR = 1.0e-15
 
     if (p <= 0.0):
         return 0.0
@@ -182,21 +186,23 @@ def inverseIncompleteBetaFunction(p, a, b):
         else:
             x = 1.0 - math.pow(b*w*(1.0-p), 1.0/b)
     afac = -math.lgamma(a)-math.lgamma(b)+math.lgamma(a+b)
-    j = 0
-    for i in range(10):
+    low, high = 0.0, 1.0
+    for i in range(2000):
         if (x == 0.0) or (x == 1.0):
             return x;
         err = incompleteBetaFunction(x,a,b) - p
-
+        if err > 0.0:
+            high = x
+        else:
+            low = x
+        # Newton's method, falling back on bisection wherever a step leaves the bracket
         t = math.exp(a1*math.log(x)+b1*math.log(1.0-x) + afac)
-        u = err/t
-        t = u/(1.0-0.5*min(1.0,u*(a1/x - b1/(1.0-x))))
-        x -= t
-        if (x <= 0.0):
-            x = 0.5*(x + t)
-        if (x >= 1.0):
-            x = 0.5*(x + t + 1.0)
-        if (math.fabs(t) < ERROR*x) and (j > 0):
+        xnew = x - err/t if t > 0.0 else low
+        if not (low < xnew < high):
+            xnew = 0.5*(low + high)
+        t = xnew - x
+        x = xnew
+        if (math.fabs(t) < ERROR*x):
             break
     return x
 
@@ -232,7 +238,9 @@ def contFractionBeta(a,b,x, maxIter = 1000, epsilon=1e-15):
 def regularizedGammaP(a, x):
     if (x < 0.0) or (a <= 0.0):
         raise Exception
-    maxIter = 1000
+    if x > a + 1.0:
+        return 1.0 - gcf(a, x)[0]
+    maxIter = 100000
     epsilon = 1e-15
     n  = 0.0
     an = 1.0/a
@@ -263,7 +271,7 @@ def regularizedGammaQ(a, x):
 
 # http://www.johnkerl.org/python/sp_funcs_m.py.txt
 # used by incompleteGamma
-def gser(a, x, itmax=700, eps=3.0e-7):
+def gser(a, x, itmax=100000, eps=1e-15):
     """Series approximation to the incomplete gamma function."""
     gln = math.lgamma(a)
     if (x < 0.0):
@@ -285,7 +293,7 @@ def gser(a, x, itmax=700, eps=3.0e-7):
 
 # http://www.johnkerl.org/python/sp_funcs_m.py.txt
 # used by incompleteGamma
-def gcf(a, x, itmax=200, eps=3.0e-7):
+def gcf(a, x, itmax=100000, eps=1e-15):
     """Continued fraction approximation of the incomplete gamma function."""
     gln = math.lgamma(a)
     gold = 0.0
@@ -306,12 +314,17 @@ def gcf(a, x, itmax=200, eps=3.0e-7):
         if (a1 != 0.0):
             fac = 1.0 / a1
             g = b1*fac
-            if (abs((g-gold)/g) < eps):
+            if (abs(g-gold) <= eps*abs(g)):
                 return (g*math.exp(-x+a*math.log(x)-gln), gln)
             gold = g
         n = n + 1
     raise Exception
 
+def logNChooseK(n, k):
+    if k == 0:
+        return 0.0
+    return math.lgamma(n + 1.0) - math.lgamma(k + 1.0) - math.lgamma(n - k + 1.0)
+
 def nChooseK(n, k):
     # is n an integer?
     nInt = (math.floor(n) == n)
-- 
2.43.0


From fa6fbf3eb217acaa893c7240fd7ef9a6b0df1b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:41 +0000
Subject: [PATCH 52/64] fix: the gamma distribution of zero shape or scale has
 no mass below zero

---
 titus/lib/prob/dist.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/titus/lib/prob/dist.py b/titus/lib/prob/dist.py
index d9e2d12..880e6c1 100644
--- a/titus/lib/prob/dist.py
+++ b/titus/lib/prob/dist.py
@@ -334,7 +334,7 @@ class GammaCDF(LibFcn):
         elif math.isinf(x) or math.isnan(x):
             raise PFARuntimeException("invalid input", self.errcodeBase + 1, self.name, pos)
         elif shape == 0 or scale == 0:
-            if x != 0:
+            if x > 0:
                 return 1.0
             else:
                 return 0.0
-- 
2.43.0


From 970fab4b863b7de27ff6ea3bfe4d94fd089e52ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:35 +0000
Subject: [PATCH 53/64] fix: statistics functions handle ties, bin edges, empty
 histograms and degenerate states

---
 titus/lib/stat/change.py  |  5 +++--
 titus/lib/stat/pfatest.py | 20 ++++++++++++++------
 titus/lib/stat/sample.py  | 14 ++++++--------
 3 files changed, 23 insertions(+), 16 deletions(-)

diff --git a/titus/lib/stat/change.py b/titus/lib/stat/change.py
index ba0ad2b..15418c5 100644
--- a/titus/lib/stat/change.py
+++ b/titus/lib/stat/change.py
@@ -78,8 +78,9 @@ class ZValue(LibFcn):
         else:
             unbiased, = args
             count = meanVariance["count"]
-            if count / (count - 1.0) >= 0.0:
-                correction = math.sqrt((count) / (count - 1.0))
+            ratio = div(count, count - 1.0)
+            if ratio >= 0.0:
+                correction = math.sqrt(ratio)
             else:
                 correction = float("nan")
             if unbiased:
diff --git a/titus/lib/stat/pfatest.py b/titus/lib/stat/pfatest.py
index c96a257..83be792 100644
--- a/titus/lib/stat/pfatest.py
+++ b/titus/lib/stat/pfatest.py
@@ -58,15 +58,20 @@ class KSTwoSample(LibFcn):
             while ((j1 < n1) and (j2 < n2)):
                 d1 = x[j1]
                 d2 = y[j2]
+                # pass all equal values before comparing the distributions
                 if d1 <= d2:
-                    j1 += 1
+                    while j1 < n1 and x[j1] == d1:
+                        j1 += 1
                     fn1 = float(j1)/n1
                 if d2 <= d1:
-                    j2 += 1
+                    while j2 < n2 and y[j2] == d2:
+                        j2 += 1
                     fn2 = float(j2)/n2
                 dt = abs(fn2 - fn1)
                 if dt > d:
                     d = dt
+            if d == 0.0:
+                return 1.0
             en = math.sqrt((n1 * n2)/float(n1 + n2))
             stat = (en + 0.12 + 0.11/en)*d
             return 1.0 - kolomogorov_cdf(stat)
@@ -166,7 +171,10 @@ class Mahalanobis(LibFcn):
                         C[i,j] = float(covariance[k1][k2])
             except:
                 raise PFARuntimeException("misaligned covariance", self.errcodeBase + 2, self.name, pos)
-        resultSquared = float(np().linalg.solve(C, x).T.dot(x))
+        try:
+            resultSquared = float(np().linalg.solve(C, x).T.dot(x))
+        except np().linalg.LinAlgError:     # singular covariance
+            return float("nan")
         if resultSquared < 0:
             return float("nan")
         else:
@@ -181,12 +189,12 @@ class UpdateChi2(LibFcn):
                 Sig([{"pull": P.Map(P.Double())}, {"state": P.WildRecord("A", {"chi2": P.Double(), "dof": P.Int()})}], P.Wildcard("A"))])
     errcodeBase = 38040
     def __call__(self, state, scope, pos, paramTypes, pull, state_):
-        if isinstance(pull, float):
+        if isinstance(pull, (int, float)):
             return dict(state_, chi2=(state_["chi2"] + pull*pull), dof=(state_["dof"] + 1))
         elif isinstance(pull, (tuple, list)):
-            return dict(state_, chi2=(state_["chi2"] + sum([y**2 for y in pull])), dof=(state_["dof"] + 1))
+            return dict(state_, chi2=(state_["chi2"] + sum([y*y for y in pull])), dof=(state_["dof"] + 1))
         else:
-            return dict(state_, chi2=(state_["chi2"] + sum([y**2 for y in list(pull.values())])), dof=(state_["dof"] + 1))
+            return dict(state_, chi2=(state_["chi2"] + sum([y*y for y in list(pull.values())])), dof=(state_["dof"] + 1))
 provide(UpdateChi2())
 
 class ReducedChi2(LibFcn):
diff --git a/titus/lib/stat/sample.py b/titus/lib/stat/sample.py
index ad73f7a..5e49574 100644
--- a/titus/lib/stat/sample.py
+++ b/titus/lib/stat/sample.py
@@ -518,7 +518,7 @@ class FillHistogram(LibFcn):
                         else:
                             index = INT_MIN_VALUE
                     else:
-                        index = int(indexFloat)
+                        index = min(int(indexFloat), numbins - 1)   # x just below high may round up
                 newValues = list(values)
                 newValues[index] = newValues[index] + w
             else:
@@ -531,6 +531,8 @@ class FillHistogram(LibFcn):
 
             if binsize <= 0.0 or math.isnan(binsize) or math.isinf(binsize):
                 raise PFARuntimeException("bad histogram scale", self.errcodeBase + 2, self.name, pos)
+            if math.isnan(low) or math.isinf(low):
+                raise PFARuntimeException("bad histogram range", self.errcodeBase + 1, self.name, pos)
 
             if hasInfflow and math.isinf(x):
                 underflow, overflow, nanflow, infflow = False, False, False, True
@@ -544,11 +546,7 @@ class FillHistogram(LibFcn):
                 underflow, overflow, nanflow, infflow = False, False, False, False
                 
             if not underflow and not overflow and not nanflow and not infflow:
-                currentHigh = low + binsize * len(values)
-                try:
-                    index = int(math.floor((x - low) / (currentHigh - low) * len(values)))
-                except ZeroDivisionError:
-                    index = 0
+                index = int(math.floor((x - low) / binsize))
                 if index < len(values):
                     newValues = list(values)
                     newValues[index] = newValues[index] + w
@@ -674,11 +672,11 @@ class FillHistogram2d(LibFcn):
 
         if not underunderflow and not undermidflow and not underoverflow and not midunderflow and not midoverflow and not overunderflow and not overmidflow and not overoverflow and not nanflow and not infflow:
             try:
-                xindex = int(math.floor((x - xlow) / (xhigh - xlow) * xnumbins))
+                xindex = min(int(math.floor((x - xlow) / (xhigh - xlow) * xnumbins)), xnumbins - 1)
             except ZeroDivisionError:
                 xindex = 0
             try:
-                yindex = int(math.floor((y - ylow) / (yhigh - ylow) * ynumbins))
+                yindex = min(int(math.floor((y - ylow) / (yhigh - ylow) * ynumbins)), ynumbins - 1)
             except ZeroDivisionError:
                 yindex = 0
             newValues = [list(x) for x in values]
-- 
2.43.0


From 8b74b2edd4c319550b5e910ba6888bb08f0ab537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:35 +0000
Subject: [PATCH 54/64] fix: decision trees compare values by their types and
 recognise namespaced and untagged nodes

---
 titus/lib/model/tree.py | 111 +++++++++++++++++++---------------------
 titus/signature.py      |   3 ++
 2 files changed, 57 insertions(+), 57 deletions(-)

diff --git a/titus/lib/model/tree.py b/titus/lib/model/tree.py
index 6022d22..c5da248 100644
--- a/titus/lib/model/tree.py
+++ b/titus/lib/model/tree.py
@@ -22,6 +22,7 @@ from titus.fcn import LibFcn
 from titus.signature import Sig
 from titus.signature import Sigs
 from titus.datatype import *
+from titus.datatype import unionBranch
 from titus.errors import *
 from titus.util import callfcn
 import titus.P as P
@@ -34,28 +35,40 @@ prefix = "model.tree."
 
 #################################################################### 
 
+def branch(avroType, value):
+    """Type of the value and the value without a tag (if the type is a union)."""
+    if isinstance(avroType, AvroUnion):
+        if isinstance(value, dict) and len(value) == 1 and not any(isinstance(x, AvroMap) or (isinstance(x, AvroRecord) and len(x.fields) < 2) for x in avroType.types):
+            # only a tag can look like this, so there's no need to search through the whole value
+            (tag, untagged), = list(value.items())
+            for x in avroType.types:
+                if tag in (x.fullName, x.name):
+                    return x, untagged
+        index, value = unionBranch(avroType, value)
+        avroType = avroType.types[index]
+    return avroType, value
+
+def nextNode(parser, treeNodeType, arm, node):
+    """Follow one arm of a tree node: (True, the next node) or (False, the score)."""
+    treeNodeType = parser.getAvroType(treeNodeType)
+    armType, node = branch(treeNodeType.field(arm).avroType, node[arm])
+    return isinstance(armType, AvroRecord) and armType.fullName == treeNodeType.fullName, node
+
 def simpleComparison(paramTypes, datum, comparison, missingOperators, parser, code1, code2, fcnName, pos):
     field = comparison["field"]
-    fieldValue = datum[field]
     operator = comparison["operator"]
     value = comparison["value"]
 
-    fieldValueType = [x for x in paramTypes[0]["fields"] if x["name"] == field][0]["type"]
-    valueType = [x for x in paramTypes[1]["fields"] if x["name"] == "value"][0]["type"]
-
-    if not missingOperators:
-        if isinstance(fieldValueType, (list, tuple)):
-            withoutNull = [x for x in fieldValueType if x != "null" and x != {"type": "null"}]
-            if len(withoutNull) == 1:
-                fieldValueType = withoutNull[0]
-            else:
-                fieldValueType = withoutNull
+    fieldValueType = parser.getAvroType(paramTypes[0]).field(field).avroType
+    valueType = parser.getAvroType(paramTypes[1]).field("value").avroType
+    fieldBranch, fieldValue = branch(fieldValueType, datum[field])
 
-            if isinstance(fieldValue, dict) and len(fieldValue) == 1 and any(parser.getAvroType(x).name == list(fieldValue.keys())[0] for x in withoutNull):
-                fieldValue, = list(fieldValue.values())
-        
-    fieldValueType = parser.getAvroType(fieldValueType)
-    valueType = parser.getAvroType(valueType)
+    if not missingOperators and isinstance(fieldValueType, AvroUnion):
+        withoutNull = [x for x in fieldValueType.types if not isinstance(x, AvroNull)]
+        if len(withoutNull) == 1:
+            fieldValueType = withoutNull[0]
+        else:
+            fieldValueType = AvroUnion(withoutNull)
 
     if operator == "alwaysTrue":
         return True
@@ -74,14 +87,16 @@ def simpleComparison(paramTypes, datum, comparison, missingOperators, parser, co
         else:
             raise PFARuntimeException("bad value type", code1, fcnName, pos)
 
-        if isinstance(value, dict) and len(value) == 1 and list(value.keys()) == ["array"]:
-            value, = list(value.values())
-
         if not missingOperators:
             if fieldValue is None:
                 return None
 
-        containedInList = (fieldValue in value)
+        valueType, value = branch(valueType, value)
+        if not isinstance(valueType, AvroArray):
+            raise PFARuntimeException("bad value type", code1, fcnName, pos)
+
+        items = [branch(valueType.items, x) for x in value]
+        containedInList = any(itemType.accepts(fieldBranch) and fieldValue == item for itemType, item in items)
         if operator == "in":
             return containedInList
         else:
@@ -99,9 +114,8 @@ def simpleComparison(paramTypes, datum, comparison, missingOperators, parser, co
             return None
 
         if isinstance(fieldValueType, (AvroInt, AvroLong, AvroFloat, AvroDouble)):
-            if isinstance(value, dict) and (list(value.keys()) == ["int"] or list(value.keys()) == ["long"] or list(value.keys()) == ["float"] or list(value.keys()) == ["double"]):
-                value, = list(value.values())
-            if not isinstance(value, (int, float)):
+            valueType, value = branch(valueType, value)
+            if not isinstance(valueType, (AvroInt, AvroLong, AvroFloat, AvroDouble)):
                 raise PFARuntimeException("bad value type", code1, fcnName, pos)
 
             if operator == "<=":
@@ -120,6 +134,9 @@ def simpleComparison(paramTypes, datum, comparison, missingOperators, parser, co
                 raise PFARuntimeException("invalid comparison operator", code2, fcnName, pos)
 
         else:
+            if isinstance(valueType, AvroUnion) and any(x.fullName == fieldBranch.fullName for x in valueType.types) and fieldValue is not None:
+                fieldValue = {fieldBranch.fullName: fieldValue}
+
             if operator == "<=":
                 return compare(valueType, fieldValue, value) <= 0
             elif operator == "<":
@@ -205,20 +222,13 @@ class SimpleWalk(LibFcn):
     sig = Sig([{"datum": P.WildRecord("D", {})}, {"treeNode": P.WildRecord("T", {"pass": P.Union([P.WildRecord("T", {}), P.Wildcard("S")]), "fail": P.Union([P.WildRecord("T", {}), P.Wildcard("S")])})}, {"test": P.Fcn([P.WildRecord("D", {}), P.WildRecord("T", {})], P.Boolean())}], P.Wildcard("S"))
     errcodeBase = 32040
     def __call__(self, state, scope, pos, paramTypes, datum, treeNode, test):
-        treeNodeTypeName = paramTypes[1]["name"]
         node = treeNode
-        while True:
+        more = True
+        while more:
             if callfcn(state, scope, test, [datum, node]):
-                union = node["pass"]
+                more, node = nextNode(state.parser, paramTypes[1], "pass", node)
             else:
-                union = node["fail"]
-            if union is None:
-                node = None
-                break
-            else:
-                (utype, node), = list(union.items())
-                if utype != treeNodeTypeName:
-                    break
+                more, node = nextNode(state.parser, paramTypes[1], "fail", node)
         return node
 provide(SimpleWalk())
 
@@ -227,23 +237,17 @@ class MissingWalk(LibFcn):
     sig = Sig([{"datum": P.WildRecord("D", {})}, {"treeNode": P.WildRecord("T", {"pass": P.Union([P.WildRecord("T", {}), P.Wildcard("S")]), "fail": P.Union([P.WildRecord("T", {}), P.Wildcard("S")]), "missing": P.Union([P.WildRecord("T", {}), P.Wildcard("S")])})}, {"test": P.Fcn([P.WildRecord("D", {}), P.WildRecord("T", {})], P.Union([P.Null(), P.Boolean()]))}], P.Wildcard("S"))
     errcodeBase = 32050
     def __call__(self, state, scope, pos, paramTypes, datum, treeNode, test):
-        treeNodeTypeName = paramTypes[1]["name"]
         node = treeNode
-        while True:
+        more = True
+        while more:
             result = callfcn(state, scope, test, [datum, node])
             if result is True or result == {"boolean": True}:
-                union = node["pass"]
+                arm = "pass"
             elif result is False or result == {"boolean": False}:
-                union = node["fail"]
+                arm = "fail"
             elif result is None:
-                union = node["missing"]
-            if union is None:
-                node = None
-                break
-            else:
-                (utype, node), = list(union.items())
-                if utype != treeNodeTypeName:
-                    break
+                arm = "missing"
+            more, node = nextNode(state.parser, paramTypes[1], arm, node)
         return node
 provide(MissingWalk())
 
@@ -252,19 +256,12 @@ class SimpleTree(LibFcn):
     sig = Sig([{"datum": P.WildRecord("D", {})}, {"treeNode": P.WildRecord("T", {"field": P.EnumFields("F", "D"), "operator": P.String(), "value": P.Wildcard("V"), "pass": P.Union([P.WildRecord("T", {}), P.Wildcard("S")]), "fail": P.Union([P.WildRecord("T", {}), P.Wildcard("S")])})}], P.Wildcard("S"))
     errcodeBase = 32060
     def __call__(self, state, scope, pos, paramTypes, datum, treeNode):
-        treeNodeTypeName = paramTypes[1]["name"]
         node = treeNode
-        while True:
+        more = True
+        while more:
             if simpleComparison(paramTypes, datum, node, True, state.parser, self.errcodeBase + 1, self.errcodeBase + 0, self.name, pos):
-                union = node["pass"]
-            else:
-                union = node["fail"]
-            if union is None:
-                node = None
-                break
+                more, node = nextNode(state.parser, paramTypes[1], "pass", node)
             else:
-                (utype, node), = list(union.items())
-                if utype != treeNodeTypeName:
-                    break
+                more, node = nextNode(state.parser, paramTypes[1], "fail", node)
         return node
 provide(SimpleTree())
diff --git a/titus/signature.py b/titus/signature.py
index d45b608..e5c6887 100644
--- a/titus/signature.py
+++ b/titus/signature.py
@@ -469,6 +469,9 @@ class Sig(Signature):
                     for a in nextPermutation:
                         foundone = False
                         for i, p in list(available.items()):
+                            # a label that already stands for one record can't stand for another
+                            if isinstance(p, P.WildRecord) and p.label in labelData2 and any(isinstance(x, AvroRecord) and isinstance(a, AvroRecord) and x.fullName != a.fullName for x in labelData2[p.label].members):
+                                continue
                             if self.check(p, a, labelData2, True, reversed):
                                 del available[i]
                                 foundone = True
-- 
2.43.0


From 733a78f9e1351c60c4c2d89ba7e6ba47439c3480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:26 +0000
Subject: [PATCH 55/64] fix: neighbor means of zero weight and balls of
 mismatched dimension

---
 titus/lib/model/neighbor.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/titus/lib/model/neighbor.py b/titus/lib/model/neighbor.py
index 5a6865e..603222f 100644
--- a/titus/lib/model/neighbor.py
+++ b/titus/lib/model/neighbor.py
@@ -68,7 +68,7 @@ class Mean(LibFcn):
                 denom[i] += w
 
         for i in range(dimensions):
-            numer[i] /= denom[i]
+            numer[i] = div(numer[i], denom[i])
         return numer
 provide(Mean())
 
@@ -112,6 +112,9 @@ class BallR(LibFcn):
             metric, = args
             distances = [callfcn(state, scope, metric, [datum, x]) for x in codebook]
         else:
+            for x in codebook:
+                if len(x) != len(datum):
+                    raise PFARuntimeException("inconsistent dimensionality", self.errcodeBase + 0, self.name, pos)
             distances = [math.sqrt(sum((di - xi)**2 for di, xi in zip(datum, x))) for x in codebook]
         return [x for x, d in zip(codebook, distances) if d < r]
 provide(BallR())
-- 
2.43.0


From 02d1a7d9130abe3927050f571006ef3af1439a83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:25 +0000
Subject: [PATCH 56/64] fix: regression and naive Bayes functions use the given
 weights and normalize models

---
 titus/lib/model/naive.py |  2 +-
 titus/lib/model/reg.py   | 47 ++++++++++++++++++++--------------------
 2 files changed, 25 insertions(+), 24 deletions(-)

diff --git a/titus/lib/model/naive.py b/titus/lib/model/naive.py
index c26620f..71fe8d0 100644
--- a/titus/lib/model/naive.py
+++ b/titus/lib/model/naive.py
@@ -103,7 +103,7 @@ class Multinomial(LibFcn):
             raise PFARuntimeException("datum and classModel misaligned", self.errcodeBase + 0, self.name, pos)
         for d in datumkeys:
             p = classModel[d]/normalizing + tiny
-            ll += datum[d]*math.log(classModel[d])
+            ll += datum[d]*math.log(p)
         return ll
 
     def __call__(self, state, scope, pos, paramTypes, datum, classModel):
diff --git a/titus/lib/model/reg.py b/titus/lib/model/reg.py
index 5e2a878..92086d3 100644
--- a/titus/lib/model/reg.py
+++ b/titus/lib/model/reg.py
@@ -143,7 +143,7 @@ class LinearVariance(LibFcn):
         else:
             datum = dict(list(datum.items()) + [("", 1.0)])
             covar = model["covar"]
-            keys = list(set(list(datum.keys()) + sum(flatten([[list(x.keys()) for x in list(row.values())] for row in list(covar.values())]), [])))
+            keys = list(set(list(datum.keys()) + [k for row in list(covar.values()) for x in list(row.values()) for k in list(x.keys())]))
             x = np().matrix([[datum.get(k, 0.0) for k in keys]])
             out = {}
             for depkey, row in list(covar.items()):
@@ -191,6 +191,7 @@ class GaussianProcess(LibFcn):
                 raise PFARuntimeException("krigingWeight is not finite", self.errcodeBase + 7, self.name, pos)
         else:
             beta = krigingWeight
+        return beta
 
     def getnoutputs(self, x, table, paramTypes, pos):
         if isinstance(paramTypes[-1], dict) and paramTypes[-1].get("type") == "array":
@@ -331,7 +332,7 @@ class GaussianProcess(LibFcn):
 
         try:
             C = np().linalg.cholesky(R)
-        except numpy.linalg.linalg.LinAlgError:
+        except np().linalg.LinAlgError:
             raise PFARuntimeException("matrix of kernel results is not positive definite", self.errcodeBase + 8, self.name, pos)
 
         F = np().array([[1.0]] * len(X))
@@ -342,7 +343,10 @@ class GaussianProcess(LibFcn):
 
         # beta can be computed from universal Kriging or a given
         if beta is None:
-            beta = np().linalg.solve(G, np().dot(Q.T, Yt))
+            try:
+                beta = np().linalg.solve(G, np().dot(Q.T, Yt))
+            except np().linalg.LinAlgError:
+                raise PFARuntimeException("matrix of kernel results is not positive definite", self.errcodeBase + 8, self.name, pos)
         else:
             beta = np().array([beta])
 
@@ -395,11 +399,9 @@ class Residual(LibFcn):
             return result
 
         elif isinstance(observation, (tuple, list)):
-            try:
-                result = [float(o - p) for o, p in zip(observation, prediction)]
-            except:
+            if len(observation) != len(prediction):
                 raise PFARuntimeException("misaligned prediction", self.errcodeBase + 0, self.name, pos)
-            return result
+            return [float(o - p) for o, p in zip(observation, prediction)]
 
         else:
             return float(observation - prediction)
@@ -428,21 +430,18 @@ class Pull(LibFcn):
                     u = uncertainty[k]
                 except KeyError:
                     raise PFARuntimeException("misaligned uncertainty", self.errcodeBase + 1, self.name, pos)
-                try:
-                    result[k] = (o - p) / u
-                except ZeroDivisionError:
-                    result[k] = float("nan")
+                result[k] = div(o - p, u)
             return result
 
         elif isinstance(observation, (tuple, list)):
             if len(observation) != len(prediction):
                 raise PFARuntimeException("misaligned prediction", self.errcodeBase + 0, self.name, pos)
             if len(observation) != len(uncertainty):
-                raise PFARuntimeException("misaligned prediction", self.errcodeBase + 0, self.name, pos)
-            return [float((o - p)/u) for o, p, u in zip(observation, prediction, uncertainty)]
+                raise PFARuntimeException("misaligned uncertainty", self.errcodeBase + 1, self.name, pos)
+            return [float(div(o - p, u)) for o, p, u in zip(observation, prediction, uncertainty)]
 
         else:
-            return float((observation - prediction)/uncertainty)
+            return float(div(observation - prediction, uncertainty))
 
 provide(Pull())
 
@@ -457,7 +456,7 @@ class Mahalanobis(LibFcn):
                 raise PFARuntimeException("too few rows/cols", self.errcodeBase + 0, self.name, pos)
             if (len(observation) != len(prediction)):
                 raise PFARuntimeException("misaligned prediction", self.errcodeBase + 1, self.name, pos)
-            if (not all(len(i)==len(covariance[0]) for i in covariance)) and (len(covariance) != len(covariance[0])):
+            if len(covariance) != len(observation) or not all(len(i) == len(observation) for i in covariance):
                 raise PFARuntimeException("misaligned covariance", self.errcodeBase + 2, self.name, pos)
             x = np().array([(o - p) for o, p in zip(observation, prediction)])
             C = np().array(covariance)
@@ -479,7 +478,11 @@ class Mahalanobis(LibFcn):
                         C[i,j] = float(covariance[k1][k2])
             except:
                 raise PFARuntimeException("misaligned covariance", self.errcodeBase + 2, self.name, pos)
-        return float(np().sqrt(np().linalg.solve(C, x).T.dot(x)))
+        try:
+            squared = float(np().linalg.solve(C, x).T.dot(x))
+        except np().linalg.LinAlgError:     # singular covariance
+            return float("nan")
+        return math.sqrt(squared) if squared >= 0 else float("nan")
 provide(Mahalanobis())
 
 
@@ -490,24 +493,22 @@ class UpdateChi2(LibFcn):
                 Sig([{"pull": P.Map(P.Double())}, {"state_": P.WildRecord("A", {"chi2": P.Double(), "DOF": P.Int()})}], P.Wildcard("A"), Lifespan(None, PFAVersion(0, 7, 2), PFAVersion(0, 9, 0), "use test.updateChi2 instead"))])
     errcodeBase = 31050
     def __call__(self, state, scope, pos, paramTypes, pull, state_):
-        if isinstance(pull, float):
+        if isinstance(pull, (int, float)):
             return update(pull*pull, state_)
         elif isinstance(pull, (tuple, list)):
-            return update(sum([y**2 for y in pull]), state_)
+            return update(sum([y*y for y in pull]), state_)
         else:
-            return update(sum([y**2 for y in list(pull.values())]), state_)
+            return update(sum([y*y for y in list(pull.values())]), state_)
 provide(UpdateChi2())
 def update(x, state_):
-    state_["chi2"] = float(state_["chi2"] + x)
-    state_["DOF"]  = float(state_["DOF"] + 1)
-    return state_
+    return dict(state_, chi2=float(state_["chi2"] + x), DOF=(state_["DOF"] + 1))
 
 class ReducedChi2(LibFcn):
     name = prefix + "reducedChi2"
     sig = Sig([{"state_": P.WildRecord("A", {"chi2": P.Double(), "DOF": P.Int()})}], P.Double(), Lifespan(None, PFAVersion(0, 7, 2), PFAVersion(0, 9, 0), "use test.reducedChi2 instead"))
     errcodeBase = 31060
     def __call__(self, state, scope, pos, paramTypes, state_):
-        return float(state_["chi2"]/state_["DOF"])
+        return float(div(state_["chi2"], state_["DOF"]))
 provide(ReducedChi2())
 
 class Chi2Prob(LibFcn):
-- 
2.43.0


From 1693a28830749cbfb098f87568d0a9e4533177a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:16 +0000
Subject: [PATCH 57/64] fix: chained documents keep scopes, names, values and
 effects of their steps

---
 titus/producer/chain.py | 255 +++++++++++++++++++++++-----------------
 1 file changed, 150 insertions(+), 105 deletions(-)

diff --git a/titus/producer/chain.py b/titus/producer/chain.py
index 9fc1ac0..24145c2 100644
--- a/titus/producer/chain.py
+++ b/titus/producer/chain.py
@@ -25,6 +25,7 @@ import avro.schema
 
 import titus.pfaast
 import titus.reader
+import titus.util
 from titus.util import ts
 
 from titus.genpy import PFAEngine
@@ -65,10 +66,12 @@ from titus.pfaast import Literal
 from titus.pfaast import NewObject
 from titus.pfaast import NewArray
 from titus.pfaast import Do
+from titus.pfaast import Let
 from titus.pfaast import CellGet
 from titus.pfaast import CellTo
 from titus.pfaast import PoolGet
 from titus.pfaast import PoolTo
+from titus.pfaast import PoolDel
 from titus.pfaast import CastCase
 from titus.pfaast import Upcast
 
@@ -166,7 +169,7 @@ def engine(pfas, name=None, randseed=None, doc=None, version=None, metadata={},
     :rtype: titus.genpy.EngineConfig
     :return: a PFA document representing the chained workflow
     """
-    return PFAEngine.fromAst(ast(pfas, False, name, randseed, doc, version, metadata, options, tryYaml, verbose), options, sharedState, multiplicity, style, debug)
+    return PFAEngine.fromAst(ast(pfas, False, name, randseed, doc, version, metadata, options, tryYaml, verbose), options, sharedState=sharedState, multiplicity=multiplicity, style=style, debug=debug)
 
 def ast(pfas, check=True, name=None, randseed=None, doc=None, version=None, metadata={}, options={}, tryYaml=False, verbose=False):
     """Create a single PFA from a chained workflow, returning the result as an abstract syntax tree.
@@ -285,7 +288,8 @@ def ast(pfas, check=True, name=None, randseed=None, doc=None, version=None, meta
 
     # ensure that chained types match and will be given the same names
     if verbose: sys.stderr.write(time.asctime() + " Verifying that input/output schemas match along the chain\n")
-    def chainPair(i, first, second, memo):
+    samePairs = []
+    def chainPair(i, first, second, memo, newNames):
         if isinstance(first, AvroNull) and isinstance(second, AvroNull):
             return True
         elif isinstance(first, AvroBoolean) and isinstance(second, AvroBoolean):
@@ -302,7 +306,7 @@ def ast(pfas, check=True, name=None, randseed=None, doc=None, version=None, meta
             return True
         elif isinstance(first, AvroFixed) and isinstance(second, AvroFixed):
             if first.size == second.size:
-                originalNameToNewName[i + 1][second.fullName] = originalNameToNewName[i][first.fullName]
+                newNames[second.fullName] = first.fullName
                 return True
             else:
                 return False
@@ -310,29 +314,38 @@ def ast(pfas, check=True, name=None, randseed=None, doc=None, version=None, meta
             return True
         elif isinstance(first, AvroEnum) and isinstance(second, AvroEnum):
             if first.symbols == second.symbols:
-                originalNameToNewName[i + 1][second.fullName] = originalNameToNewName[i][first.fullName]
+                newNames[second.fullName] = first.fullName
                 return True
             else:
                 return False
         elif isinstance(first, AvroArray) and isinstance(second, AvroArray):
-            return chainPair(i, first.items, second.items, memo)
+            return chainPair(i, first.items, second.items, memo, newNames)
         elif isinstance(first, AvroMap) and isinstance(second, AvroMap):
-            return chainPair(i, first.values, second.values, memo)
+            return chainPair(i, first.values, second.values, memo, newNames)
         elif isinstance(first, AvroRecord) and isinstance(second, AvroRecord):
-            if first.fullName not in memo:
-                memo.add(first.fullName)
+            if (first.fullName, second.fullName) in memo:
+                return True      # already verified, or about to be (recursively defined types)
+            else:
+                memo.add((first.fullName, second.fullName))
                 if len(first.fields) != len(second.fields):
                     return False
                 for f1, f2 in zip(first.fields, second.fields):
                     if f1.name != f2.name:
                         return False
-                    elif not chainPair(i, f1.avroType, f2.avroType, memo):
+                    elif not chainPair(i, f1.avroType, f2.avroType, memo, newNames):
                         return False
-                originalNameToNewName[i + 1][second.fullName] = originalNameToNewName[i][first.fullName]
+                newNames[second.fullName] = first.fullName
                 return True
         elif isinstance(first, AvroUnion) and isinstance(second, AvroUnion):
             for yt in second.types:
-                if not any(chainPair(i, xt, yt, memo) for xt in first.types):
+                for xt in sorted(first.types, key=lambda x: x.fullName != yt.fullName):
+                    # an unsuccessful attempt must not leave anything behind
+                    tryMemo, tryNames = set(memo), dict(newNames)
+                    if chainPair(i, xt, yt, tryMemo, tryNames):
+                        memo.update(tryMemo)
+                        newNames.update(tryNames)
+                        break
+                else:
                     return False
             return True
         else:
@@ -340,41 +353,86 @@ def ast(pfas, check=True, name=None, randseed=None, doc=None, version=None, meta
     for i in range(len(pfas) - 1):
         first = pfas[i].output
         second = pfas[i + 1].input
-        if not chainPair(i, first, second, set()):
+        newNames = {}
+        if not chainPair(i, first, second, set(), newNames):
             raise PFAChainError("output of engine {0}: {1} not compatible with input of engine {2}: {3}".format(i + 1, ts(first), i + 2, ts(second)))
-
-    def rename(i, avroType, memo):
+        samePairs.extend(((i, x), (i + 1, y)) for y, x in list(newNames.items()))
+
+    # types passed along the chain have one name: that of the input or the output if they appear there
+    sameType = dict(((i, t), (i, t)) for i in originalNameToNewName for t in originalNameToNewName[i])
+    def representative(x):
+        while sameType[x] != x:
+            x = sameType[x]
+        return x
+    for x, y in samePairs:
+        sameType[representative(y)] = representative(x)
+    groups = {}
+    for x in sorted(sameType):
+        groups.setdefault(representative(x), []).append(x)
+    for group in list(groups.values()):
+        unchanged = [t for i, t in group if originalNameToNewName[i][t] == t]
+        i, t = group[0]
+        newName = unchanged[0] if len(unchanged) > 0 else originalNameToNewName[i][t]
+        for i, t in group:
+            originalNameToNewName[i][t] = newName
+
+    # the first time that a type is encountered, it is declared; after that, it is referred to by name
+    declared = {}
+    def declare(newName, out):
+        ns, n = split(newName)
+        out["name"] = n
+        if ns is not None:
+            out["namespace"] = ns
+        return out
+
+    def describe(i, avroType):
+        # a declaration in which all named types are represented by their new names
         if isinstance(avroType, AvroArray):
-            return {"type": "array", "items": rename(i, avroType.items, memo)}
+            return {"type": "array", "items": describe(i, avroType.items)}
         elif isinstance(avroType, AvroMap):
-            return {"type": "map", "values": rename(i, avroType.values, memo)}
+            return {"type": "map", "values": describe(i, avroType.values)}
         elif isinstance(avroType, AvroUnion):
-            return [rename(i, t, memo) for t in avroType.types]
-        elif isinstance(avroType, AvroFixed):
-            ns, n = split(originalNameToNewName[i][avroType.fullName])
-            out = {"type": "fixed", "name": n, "size": avroType.size}
-            if ns is not None:
-                out["namespace"] = ns
-            return out
+            return [describe(i, t) for t in avroType.types]
+        elif isinstance(avroType, (AvroFixed, AvroEnum, AvroRecord)):
+            return originalNameToNewName[i][avroType.fullName]
+        else:
+            return avroType.name
+
+    def alreadyDeclared(i, newName, avroType):
+        if isinstance(avroType, AvroFixed):
+            description = ("fixed", avroType.size)
         elif isinstance(avroType, AvroEnum):
-            ns, n = split(originalNameToNewName[i][avroType.fullName])
-            out = {"type": "enum", "name": n, "symbols": avroType.symbols}
-            if ns is not None:
-                out["namespace"] = ns
-            return out
-        elif isinstance(avroType, AvroRecord):
+            description = ("enum", avroType.symbols)
+        else:
+            description = ("record", [(f.name, describe(i, f.avroType)) for f in avroType.fields])
+        if newName not in declared:
+            declared[newName] = description
+            return False
+        elif declared[newName] == description:
+            return True
+        else:
+            raise PFAChainError("type name \"{0}\" is used for two different types: {1} and {2}".format(newName, declared[newName], description))
+
+    def rename(i, avroType):
+        if isinstance(avroType, AvroArray):
+            return {"type": "array", "items": rename(i, avroType.items)}
+        elif isinstance(avroType, AvroMap):
+            return {"type": "map", "values": rename(i, avroType.values)}
+        elif isinstance(avroType, AvroUnion):
+            return [rename(i, t) for t in avroType.types]
+        elif isinstance(avroType, (AvroFixed, AvroEnum, AvroRecord)):
             newName = originalNameToNewName[i][avroType.fullName]
-            if newName in memo:
-                return memo[newName]
+            if alreadyDeclared(i, newName, avroType):
+                return newName
+            elif isinstance(avroType, AvroFixed):
+                return declare(newName, {"type": "fixed", "size": avroType.size})
+            elif isinstance(avroType, AvroEnum):
+                return declare(newName, {"type": "enum", "symbols": avroType.symbols})
             else:
-                ns, n = split(newName)
-                out = {"type": "record", "name": n, "fields": []}
-                if ns is not None:
-                    out["namespace"] = ns
-                memo[newName] = join(ns, n)
+                out = declare(newName, {"type": "record", "fields": []})
                 for f in avroType.fields:
-                    newf = {"name": f.name, "type": rename(i, f.avroType, memo)}
-                    if f.default is not None:
+                    newf = {"name": f.name, "type": rename(i, f.avroType)}
+                    if f.schema.has_default:
                         newf["default"] = f.default
                     if f.order is not None:
                         newf["order"] = f.order
@@ -384,10 +442,26 @@ def ast(pfas, check=True, name=None, randseed=None, doc=None, version=None, meta
             return jsonlib.loads(repr(avroType))
 
     avroTypeBuilder = AvroTypeBuilder()
-    memo = {}
     def newPlaceholder(i, oldAvroType):
-        newAvroType = rename(i, oldAvroType, {})
-        return avroTypeBuilder.makePlaceholder(jsonlib.dumps(newAvroType), memo)
+        return avroTypeBuilder.makePlaceholder(jsonlib.dumps(rename(i, oldAvroType)))
+
+    # embedded values refer to types by name in the tags of their unions
+    def renameTags(i, avroType, value):
+        if isinstance(avroType, AvroArray):
+            return [renameTags(i, avroType.items, x) for x in value]
+        elif isinstance(avroType, AvroMap):
+            return dict((k, renameTags(i, avroType.values, v)) for k, v in list(value.items()))
+        elif isinstance(avroType, AvroRecord):
+            return dict((f.name, renameTags(i, f.avroType, value[f.name])) for f in avroType.fields)
+        elif isinstance(avroType, AvroUnion) and value is not None:
+            (tag, x), = list(value.items())
+            t, = [t for t in avroType.types if t.fullName == tag]
+            return {originalNameToNewName[i].get(tag, tag): renameTags(i, t, x)}
+        else:
+            return value
+
+    def newJson(i, avroType, value):
+        return jsonlib.dumps(renameTags(i, avroType, jsonDecoder(avroType, value)))
             
     # combined name, if not explicitly set
     if name is None:
@@ -417,7 +491,7 @@ def ast(pfas, check=True, name=None, randseed=None, doc=None, version=None, meta
              "actionsStarted": Cell(newPlaceholder(0, AvroLong()), jsonlib.dumps(0), False, False, CellPoolSource.EMBEDDED),
              "actionsFinished": Cell(newPlaceholder(0, AvroLong()), jsonlib.dumps(0), False, False, CellPoolSource.EMBEDDED)}
     if version is not None:
-        cells["version"] = Cell(newPlaceholder(0, AvroInt()), 0, False, False, CellPoolSource.EMBEDDED)
+        cells["version"] = Cell(newPlaceholder(0, AvroInt()), jsonlib.dumps(version), False, False, CellPoolSource.EMBEDDED)
     pools = {}
 
     if verbose: sys.stderr.write(time.asctime() + " Converting scoring engine algorithm\n")
@@ -437,6 +511,20 @@ def ast(pfas, check=True, name=None, randseed=None, doc=None, version=None, meta
     end = [CellTo("actionsStarted", [], Ref("actionsStarted")),
            CellTo("actionsFinished", [], Ref("actionsFinished"))]
 
+    # the predefined symbols of a step (in the chain, they are model parameters) belong to a scope around the scope of the step
+    def withPredefined(symbols, body):
+        def isReference(x):
+            return isinstance(x, Ref)
+        def getName(x):
+            return x.name
+        getName.isDefinedAt = isReference
+        used = set(titus.util.flatten(x.collect(getName) for x in body))
+        symbols = [x for x in list(symbols) + (["version"] if version is not None else []) if x in used]
+        if len(symbols) > 0:
+            return [Let(dict((x, CellGet(x, [])) for x in symbols)), Do(body)]
+        else:
+            return [Do(body)]
+
     for i, pfa in enumerate(pfas):
         if verbose: sys.stderr.write(time.asctime() + "     step {0}: {1}\n".format(i + 1, pfa.name))
 
@@ -455,7 +543,10 @@ def ast(pfas, check=True, name=None, randseed=None, doc=None, version=None, meta
                               [x.replace(lazyFcnReplacer) for x in expr.body],     # this is the one place where we should pass down fcnReplacer rather than self
                               expr.pos)
             elif isinstance(expr, FcnRef):
-                return FcnRef(prefixFcnRef(i, pfa, expr.name), expr.pos)
+                if pfa.method == Method.EMIT and i + 1 < len(pfas) and expr.name == "emit":
+                    return FcnRef("u." + nextActionFcnName, expr.pos)
+                else:
+                    return FcnRef(prefixFcnRef(i, pfa, expr.name), expr.pos)
             elif isinstance(expr, FcnRefFill):
                 return FcnRefFill(prefixFcnRef(i, pfa, expr.name),
                                   dict((k, v.replace(self)) for k, v in list(expr.fill.items())),
@@ -475,7 +566,7 @@ def ast(pfas, check=True, name=None, randseed=None, doc=None, version=None, meta
                                 expr.pos)
             elif isinstance(expr, Literal):
                 return Literal(newPlaceholder(i, expr.avroType),
-                               expr.value,
+                               newJson(i, expr.avroType, jsonlib.loads(expr.value)),
                                expr.pos)
             elif isinstance(expr, NewObject):
                 return NewObject(dict((k, v.replace(self)) for k, v in list(expr.fields.items())),
@@ -504,6 +595,10 @@ def ast(pfas, check=True, name=None, randseed=None, doc=None, version=None, meta
                               expr.to.replace(self),
                               expr.init.replace(self),
                               expr.pos)
+            elif isinstance(expr, PoolDel):
+                return PoolDel(prefixPool(i, pfa, expr.pool),
+                               expr.dell.replace(self),
+                               expr.pos)
             elif isinstance(expr, CastCase):
                 return CastCase(newPlaceholder(i, expr.avroType),
                                 expr.named,
@@ -513,7 +608,7 @@ def ast(pfas, check=True, name=None, randseed=None, doc=None, version=None, meta
                 return Upcast(expr.expr.replace(self),
                               newPlaceholder(i, expr.avroType),
                               expr.pos)
-        genericReplacer.isDefinedAt = lambda x: isinstance(x, (FcnDef, FcnRef, FcnRefFill, CallUserFcn, Call, Literal, NewObject, CellGet, CellTo, PoolGet, PoolTo, CastCase, Upcast))
+        genericReplacer.isDefinedAt = lambda x: isinstance(x, (FcnDef, FcnRef, FcnRefFill, CallUserFcn, Call, Literal, NewObject, NewArray, CellGet, CellTo, PoolGet, PoolTo, PoolDel, CastCase, Upcast))
 
         def fcnReplacer(expr):
             return genericReplacer(expr, fcnReplacer)
@@ -522,41 +617,15 @@ def ast(pfas, check=True, name=None, randseed=None, doc=None, version=None, meta
         lazyFcnReplacer = fcnReplacer
 
         # add statements to begin
-        def beginReplacer(expr):
-            if isinstance(expr, Ref):
-                if expr.name in ("name", "instance", "metadata") or (version is not None and expr.name == "version"):
-                    return CellGet(expr.name, [], expr.pos)
-                else:
-                    return expr
-            else:
-                return genericReplacer(expr, beginReplacer)
-        beginReplacer.isDefinedAt = lambda x: isinstance(x, Ref) or genericReplacer.isDefinedAt(x)
-        begin.extend([x.replace(beginReplacer) for x in pfa.begin])
+        if len(pfa.begin) > 0:
+            begin.append(Do([x.replace(fcnReplacer) for x in pfa.begin]))
 
         # add statements to end
-        def endReplacer(expr):
-            if isinstance(expr, Ref):
-                if expr.name in ("name", "instance", "metadata", "actionsStarted", "actionsFinished") or (version is not None and expr.name == "version"):
-                    return CellGet(expr.name, [], expr.pos)
-                else:
-                    return expr
-            else:
-                return genericReplacer(expr, endReplacer)
-        endReplacer.isDefinedAt = lambda x: isinstance(x, Ref) or genericReplacer.isDefinedAt(x)
-        end.extend([x.replace(endReplacer) for x in pfa.end])
+        if len(pfa.end) > 0:
+            end.append(Do([x.replace(fcnReplacer) for x in pfa.end]))
 
         # convert the action into a user function
-        def actionReplacer(expr):
-            if isinstance(expr, Ref):
-                if expr.name in ("name", "instance", "metadata", "actionsStarted", "actionsFinished") or (version is not None and expr.name == "version"):
-                    return CellGet(expr.name, [], expr.pos)
-                else:
-                    return expr
-            else:
-                return genericReplacer(expr, actionReplacer)
-        actionReplacer.isDefinedAt = lambda x: isinstance(x, Ref) or genericReplacer.isDefinedAt(x)
-
-        body = [x.replace(actionReplacer) for x in pfa.action]
+        body = withPredefined(("name", "instance", "metadata", "actionsStarted", "actionsFinished"), [x.replace(fcnReplacer) for x in pfa.action])
 
         if method == Method.MAP:
             # if the overall method is MAP, then we know that all of the individual engines are MAP
@@ -584,7 +653,7 @@ def ast(pfas, check=True, name=None, randseed=None, doc=None, version=None, meta
         # convert all of the user functions into user functions
         for fcnName, fcnDef in list(pfa.fcns.items()):
             # note: some of these user-defined functions may call emit; if so, they'll call the right emit
-            fcns[prefixFcnDef(i, pfa, fcnName)] = FcnDef([{list(t.keys())[0]: newPlaceholder(i, list(t.values())[0])} for t in fcnDef.paramsPlaceholder],
+            fcns[prefixFcnDef(i, pfa, fcnName)] = FcnDef([{list(t.keys())[0]: newPlaceholder(i, list(t.values())[0])} for t in fcnDef.params],
                                                          newPlaceholder(i, fcnDef.ret),
                                                          [x.replace(fcnReplacer) for x in fcnDef.body],
                                                          fcnDef.pos)
@@ -598,11 +667,8 @@ def ast(pfas, check=True, name=None, randseed=None, doc=None, version=None, meta
             newCell = Cell(newPlaceholder(i, cell.avroType), cell.init, cell.shared, cell.rollback, cell.source, cell.pos)
             cells[prefixCell(i, pfa, cellName)] = newCell
             if cell.source == "embedded":
-                def converter(avroType):
-                    original = jsonDecoder(cell.avroType, jsonlib.loads(cell.init))
-                    return jsonlib.dumps(jsonEncoder(avroType, original))
-                newCell.converter = converter
-                
+                newCell.init = newJson(i, cell.avroType, cell.initJsonNode)
+
     for i, pfa in enumerate(pfas):
         if verbose and len(pfa.pools) > 0: sys.stderr.write(time.asctime() + "     step {0}:\n".format(i + 1))
         for poolName, pool in list(pfa.pools.items()):
@@ -610,33 +676,12 @@ def ast(pfas, check=True, name=None, randseed=None, doc=None, version=None, meta
             newPool = Pool(newPlaceholder(i, pool.avroType), pool.init, pool.shared, pool.rollback, pool.source, pool.pos)
             pools[prefixPool(i, pfa, poolName)] = newPool
             if pool.source == "embedded":
-                def converter(avroType):
-                    original = jsonDecoder(pool.avroType, jsonlib.loads(pool.init))
-                    return jsonlib.dumps(jsonEncoder(avroType, original))
-                newPool.converter = converter
-                
+                newPool.init = dict((k, newJson(i, pool.avroType, v)) for k, v in list(pool.initJsonNode.items()))
+
     # make sure all the types work together
     if verbose: sys.stderr.write(time.asctime() + " Resolving all types\n")
     avroTypeBuilder.resolveTypes()
 
-    if verbose: sys.stderr.write(time.asctime() + " Converting the model parameters themselves\n")
-
-    for i, pfa in enumerate(pfas):
-        if verbose and len(pfa.cells) > 0: sys.stderr.write(time.asctime() + "     step {0}:\n".format(i + 1))
-        for cellName, cell in list(pfa.cells.items()):
-            if verbose: sys.stderr.write(time.asctime() + "         cell {0}\n".format(cellName))
-            if cell.source == "embedded":
-                newCell = cells[prefixCell(i, pfa, cellName)]
-                newCell.init = newCell.converter(newCell.avroType)
-
-    for i, pfa in enumerate(pfas):
-        if verbose and len(pfa.pools) > 0: sys.stderr.write(time.asctime() + "     step {0}:\n".format(i + 1))
-        for poolName, pool in list(pfa.pools.items()):
-            if verbose: sys.stderr.write(time.asctime() + "         pool {0}\n".format(poolName))
-            if pool.source == "embedded":
-                newPool = pools[prefixPool(i, pfa, poolName)]
-                newPool.init = newPool.converter(newPool.avroType)
-
     # randseed, doc, version, metadata, and options need to be explicitly set
 
     # return a (possibly checked) AST
-- 
2.43.0


From 67bc6d77549cd18b111c9753c7ff1f885f7537ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:29 +0000
Subject: [PATCH 58/64] fix: the emit function can be passed as an argument in
 PrettyPFA

---
 titus/prettypfa.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/titus/prettypfa.py b/titus/prettypfa.py
index 0570abb..12e6898 100644
--- a/titus/prettypfa.py
+++ b/titus/prettypfa.py
@@ -1555,6 +1555,8 @@ class Parser(object):
                     for x in sectionDict["fcns"].content:
                         if isinstance(x, MiniNamedFcnDef):
                             state.functionNames.add("u." + x.name)
+                if _method == Method.EMIT:
+                    state.functionNames.add("emit")
                 state.cellNames = set(_cells.keys())
                 state.poolNames = set(_pools.keys())
 
-- 
2.43.0


From 5e7f629b9ebe276d34d659bf69674c7558fcf401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:29 +0000
Subject: [PATCH 59/64] fix: cart splits follow their documentation: only
 realizable splits, right categorical gains, typed documents

---
 titus/producer/cart.py | 72 +++++++++++++++++++++++++++++-------------
 1 file changed, 50 insertions(+), 22 deletions(-)

diff --git a/titus/producer/cart.py b/titus/producer/cart.py
index 76238d1..5097736 100644
--- a/titus/producer/cart.py
+++ b/titus/producer/cart.py
@@ -27,6 +27,7 @@ import numpy
 
 from titus.signature import LabelData
 from titus.datatype import ForwardDeclarationParser
+from titus.datatype import AvroNumber
 from titus.datatype import AvroUnion
 import titus.prettypfa
 
@@ -270,7 +271,7 @@ class TreeNode(object):
         if self.predictand.tpe == numbers.Real:
             return len(self.predictandUnique) > 1
         elif self.predictand.tpe == str:
-            return numpy.count_nonzero(self.predictandDistribution) > 0
+            return numpy.count_nonzero(self.predictandDistribution) > 1
         else:
             raise RuntimeError
 
@@ -307,6 +308,10 @@ class TreeNode(object):
                 else:
                     raise RuntimeError
 
+                # all data have the same value in this field
+                if split is None:
+                    continue
+
                 # the gainTerm functions don't include this constant (n-times-variance of the unsplit node)
                 gainTerm += self.nTimesVariance
 
@@ -339,6 +344,10 @@ class TreeNode(object):
                 else:
                     raise RuntimeError
 
+                # all data have the same value in this field
+                if split is None:
+                    continue
+
                 # the gainTerm functions don't include this constant (entropy of the unsplit node)
                 gainTerm += self.entropy
 
@@ -352,6 +361,10 @@ class TreeNode(object):
         else:
             raise RuntimeError
 
+        # no field can separate these data
+        if self.field is None:
+            return
+
         # construct a new dataset by splitting the best field, best split
         if self.field.tpe == numbers.Real:
             passSelection = self.field.data <= self.split
@@ -387,7 +400,7 @@ class TreeNode(object):
         
         # for normalizing
         numInSelection = numpy.arange(1, self.datasetSize + 1, dtype=numpy.dtype(float))
-        numNotInSelection = numpy.arange(self.datasetSize, 0, -1, dtype=numpy.dtype(float))
+        numNotInSelection = numpy.arange(self.datasetSize - 1, -1, -1, dtype=numpy.dtype(float))
 
         # sum over the values array using Numpy iteration
         selectionEntropy = numpy.zeros(self.datasetSize, dtype=numpy.dtype(float))
@@ -417,8 +430,13 @@ class TreeNode(object):
             antiSelectionEntropy -= selectionEntropyTerm
 
         # calculate gain for all possible index splits
-        # (even if some are not unique--- it's faster to just have Numpy scan over them than to try to skip them)
         gains = -(numInSelection/self.datasetSize)*selectionEntropy - (numNotInSelection/self.datasetSize)*antiSelectionEntropy
+        gains = gains[:-1]
+
+        # a cut cannot separate equal values of the predictor
+        gains[values[:-1] == values[1:]] = -numpy.inf
+        if not numpy.isfinite(gains).any():
+            return None, None
 
         # find the highest gain, preferring larger indexes if there's a tie
         # (that's why we reverse the order of the list with [::-1] and then correct for the index for the reversal)
@@ -427,11 +445,9 @@ class TreeNode(object):
 
         # for niceness, put the cut between the best index (assuming the cut is "<=") and the next one,
         # so that the cut could equivalently be "<"
-        # (the next higher should be exactly one higher because we picked the larger indexes in a tie above)
-        nextHigher = maxGainIndex
-        while nextHigher < self.datasetSize - 1 and values[nextHigher] == values[maxGainIndex]:
-            nextHigher += 1
-        cutValue = (values[maxGainIndex] + values[nextHigher]) / 2.0
+        cutValue = (values[maxGainIndex] + values[maxGainIndex + 1]) / 2.0
+        if cutValue >= values[maxGainIndex + 1]:
+            cutValue = values[maxGainIndex]
 
         return gainTerm, cutValue
 
@@ -471,6 +487,10 @@ class TreeNode(object):
         remainingPredictorCategories = [i for i in range(numPredictorCategories) if numMarginal[i] > 0]
         remainingPredictandCategories = numpy.array([i for i in range(numPredictandCategories) if self.predictandDistribution[i] > 0])
 
+        # a single category cannot be split
+        if len(remainingPredictorCategories) < 2:
+            return None, None
+
         # we will iterate over (N choose k) for all k from 1 to the highest informative k (half of N, rounding up)
         # or a user-supplied maxSubsetSize (to avoid very long calculations)
         maxInformativeSubset = int(math.ceil(len(remainingPredictorCategories) / 2.0))
@@ -547,9 +567,13 @@ class TreeNode(object):
         nTimesVarianceInAntiselection = sumxxantisel[:-1] - (sumxantisel[:-1]**2/sum1antisel[:-1])
 
         # calculate gain for all possible index splits
-        # (even if some are not unique--- it's faster to just have Numpy scan over them than to try to skip them)
         gains = -nTimesVarianceInSelection - nTimesVarianceInAntiselection
 
+        # a cut cannot separate equal values of the predictor
+        gains[values[:-1] == values[1:]] = -numpy.inf
+        if not numpy.isfinite(gains).any():
+            return None, None
+
         # find the highest gain, preferring larger indexes if there's a tie
         # (that's why we reverse the order of the list with [::-1] and then correct for the index for the reversal)
         maxGainIndex = len(gains) - 1 - numpy.argmax(gains[::-1])
@@ -557,11 +581,9 @@ class TreeNode(object):
 
         # for niceness, put the cut between the best index (assuming the cut is "<=") and the next one,
         # so that the cut could equivalently be "<"
-        # (the next higher should be exactly one higher because we picked the larger indexes in a tie above)
-        nextHigher = maxGainIndex
-        while nextHigher < self.datasetSize - 1 and values[nextHigher] == values[maxGainIndex]:
-            nextHigher += 1
-        cutValue = (values[maxGainIndex] + values[nextHigher]) / 2.0
+        cutValue = (values[maxGainIndex] + values[maxGainIndex + 1]) / 2.0
+        if cutValue >= values[maxGainIndex + 1]:
+            cutValue = values[maxGainIndex]
 
         return gainTerm, cutValue
 
@@ -582,6 +604,10 @@ class TreeNode(object):
         except TypeError:
             fieldUniques = numpy.unique1d(field.data)
 
+        # a single category cannot be split
+        if len(fieldUniques) < 2:
+            return None, None
+
         # compute a partial sum for each unique value
         sum1 = numpy.empty(len(fieldUniques), dtype=numpy.dtype(float))
         sumx = numpy.empty(len(fieldUniques), dtype=numpy.dtype(float))
@@ -630,7 +656,7 @@ class TreeNode(object):
                 # find the best one
                 if bestGainTerm is None or gainTerm > bestGainTerm:
                     bestGainTerm = gainTerm
-                    bestCombination = categorySet
+                    bestCombination = tuple(fieldUniques[selection])
 
         return bestGainTerm, bestCombination
 
@@ -695,7 +721,8 @@ class TreeNode(object):
                 if self.dataset.fields[fieldIndex].tpe == numbers.Real:
                     if field["type"] not in ("int", "long", "float", "double"):
                         raise TypeError("dataType field \"{0}\" must be a numeric type, since this was a numeric type in the dataset training".format(field["name"]))
-                    dataFieldTypes.append(field["type"])
+                    # cuts lie between the values, so they need not be integers
+                    dataFieldTypes.append("double" if field["type"] in ("int", "long") else field["type"])
                 elif self.dataset.fields[fieldIndex].tpe == str:
                     if field["type"] != "string":
                         raise TypeError("dataType field \"{0}\" must be a string, since this was a string in the dataset training".format(field["name"]))
@@ -847,11 +874,12 @@ class TreeNode(object):
             if valueType is None:
                 valueType = self.pfaValueType(dataType)
             if isinstance(valueType, AvroUnion):
-                specificType, = [x["type"] for x in dataType["fields"] if x["name"] == fieldName]
-                if operator == "in" or operator == "notIn":
-                    specificType = {"type": "array", "items": specificType}
-                if isinstance(specificType, dict):
-                    specificType = specificType["type"]
+                if operator == "<=":
+                    specificType, = [x.name for x in valueType.types if isinstance(x, AvroNumber)]
+                elif operator == "in":
+                    specificType = "array"
+                else:
+                    specificType = "string"
                 value = {specificType: value}
             
             passBranch = self.passBranch.pfaValue(dataType, treeTypeName, nodeScores, datasetSize, predictandDistribution, predictandUnique, entropy, nTimesVariance, gain, valueType)
@@ -948,6 +976,6 @@ cells:
   tree(<<treeType>>) = <<treeValue>>
 action:
   model.tree.simpleWalk(<<preprocess>>, tree,
-    fcn(d: <<dataTypeName>>, t: <<treeTypeName>> -> boolean)
+    fcn(d: <<dataType>>, t: <<treeTypeName>> -> boolean)
       model.tree.simpleTest(d, t))
 ''', **vars())
-- 
2.43.0


From 4b09050bf7ec632e7da51999836e9a32fae9e65f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:24 +0000
Subject: [PATCH 60/64] fix: k-means metrics, weights, stopping conditions and
 document names

---
 titus/producer/kmeans.py | 31 ++++++++++++-------------------
 1 file changed, 12 insertions(+), 19 deletions(-)

diff --git a/titus/producer/kmeans.py b/titus/producer/kmeans.py
index eb78321..316a89f 100644
--- a/titus/producer/kmeans.py
+++ b/titus/producer/kmeans.py
@@ -85,8 +85,6 @@ class SquaredEuclidean(Metric):
         self.calculate = lambda dataset, cluster: numpy.sum(numpy.square(similarity.calculate(dataset, cluster)), axis=1)
         self.similarity = similarity
     def pfa(self, x, y):
-        x = "metricX"
-        y = "metricY"
         return {"metric.squaredEuclidean": [self.similarity.pfa(), x, y]}
 
 class Chebyshev(Metric):
@@ -95,8 +93,6 @@ class Chebyshev(Metric):
         self.calculate = lambda dataset, cluster: numpy.max(similarity.calculate(dataset, cluster), axis=1)
         self.similarity = similarity
     def pfa(self, x, y):
-        x = "metricX"
-        y = "metricY"
         return {"metric.chebyshev": [self.similarity.pfa(), x, y]}
 
 class Taxicab(Metric):
@@ -105,19 +101,15 @@ class Taxicab(Metric):
         self.calculate = lambda dataset, cluster: numpy.sum(similarity.calculate(dataset, cluster), axis=1)
         self.similarity = similarity
     def pfa(self, x, y):
-        x = "metricX"
-        y = "metricY"
         return {"metric.taxicab": [self.similarity.pfa(), x, y]}
 
 class Minkowski(Metric):
     """Minkowski metric for Numpy and PFA."""
     def __init__(self, similarity, p):
-        self.calculate = lambda dataset, cluster: numpy.pow(numpy.sum(numpy.pow(similarity.calculate(dataset, cluster), p), axis=1), 1.0/p)
+        self.calculate = lambda dataset, cluster: numpy.power(numpy.sum(numpy.power(similarity.calculate(dataset, cluster), p), axis=1), 1.0/p)
         self.similarity = similarity
         self.p = p
     def pfa(self, x, y):
-        x = "metricX"
-        y = "metricY"
         return {"metric.minkowski": [self.similarity.pfa(), x, y, self.p]}
 
 ### stopping conditions are functions that take iterationNumber (int),
@@ -201,7 +193,7 @@ def clusterJumped():
     :rtype: callable that takes iterationNumber, corrections, values, datasetSize as arguments
     :return: stopping condition function
     """
-    return lambda iterationNumber, corrections, values, datasetSize: all(x is not None for x in corrections)
+    return lambda iterationNumber, corrections, values, datasetSize: any(x is None for x in corrections)
 
 def maxIterations(number):
     """Generates a stopping condition that stops after a given number of iterations have passed.
@@ -259,7 +251,7 @@ def moving():
     :rtype: callable that takes iterationNumber, corrections, values, datasetSize as arguments
     :return: stopping condition function
     """
-    return whileall(clusterJumped(), allChange(1e-15))
+    return whileany(clusterJumped(), allChange(1e-15))
 
 ### the KMeans class
 
@@ -320,7 +312,7 @@ class KMeans(object):
         :return: a *copy* of a random point
         """
         # make sure to copy it, so there are no hidden connections between dataset and clusters
-        return self.uniques[random.randint(0, self.uniques.shape[0] - 1),:].copy()
+        return self.uniques[random.randint(0, self.uniques.shape[0] - 1),:].astype(numpy.dtype(float))
 
     def newCluster(self):
         """Pick a random point from the dataset and ensure that it is different from all other cluster centers.
@@ -404,10 +396,6 @@ class KMeans(object):
             selection = (indexOfClosestCluster == clusterIndex)
             residuals = (dataset - cluster)[selection]
 
-            # weights scale the residuals
-            if weights is not None:
-                residuals *= weights[selection]
-
             if self.minPointsInCluster is not None and numpy.sum(selection) < self.minPointsInCluster:
                 # too few points in this cluster; jump to a new random point
                 self.clusters[clusterIndex] = self.newCluster()
@@ -417,7 +405,12 @@ class KMeans(object):
             else:
                 # compute the mean of the displacements of points associated with this cluster
                 # (note that the similarity metric used here is the trivial one, possibly different from the classification metric)
-                correction = residuals.mean(axis=0)
+                # weights scale the displacements
+                if weights is None:
+                    correction = residuals.mean(axis=0)
+                else:
+                    scale = weights[selection]
+                    correction = (residuals * scale[:, numpy.newaxis]).sum(axis=0) / scale.sum()
                 numpy.add(cluster, correction, cluster)
 
                 if not numpy.isfinite(cluster).all():
@@ -462,7 +455,7 @@ class KMeans(object):
         else:
             maxPointsForClustering = self.maxPointsForClustering
 
-        trialSizes = [base**x for x in range(int(math.log(maxPointsForClustering, base)) + 1) if base**x > minPointsInCluster]
+        trialSizes = [base**x for x in range(int(math.log(maxPointsForClustering, base)) + 2) if minPointsInCluster < base**x <= maxPointsForClustering]
 
         for trialSize in trialSizes:
             dataset, weights = self.randomSubset(trialSize)
@@ -590,7 +583,7 @@ class KMeans(object):
 
         if populations:
             populationsField = '''
-    populations: int,
+    population: int,
 '''
         else:
             populationsField = ""
-- 
2.43.0


From 78f0cc0fd3e5051761877eb3654f7acc3363930c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:19 +0000
Subject: [PATCH 61/64] fix: Python to PFA conversion works on Python 3 and
 refuses what it cannot convert

---
 titus/producer/expression.py | 37 +++++++++++++++++++++++++-----------
 1 file changed, 26 insertions(+), 11 deletions(-)

diff --git a/titus/producer/expression.py b/titus/producer/expression.py
index d62ed73..66ec1c0 100644
--- a/titus/producer/expression.py
+++ b/titus/producer/expression.py
@@ -131,7 +131,7 @@ def _statement(stmt, state):
             state["symbols"].add(name)
             return _form(state, stmt.lineno, {letset: {name: expr}})
 
-        elif len(stmt.targets) == 1 and isinstance(stmt.targets[0], ast.Tuple) and all(isinstance(x, ast.Name) for x in stmt.targets[0].elts) and isinstance(stmt.value, ast.Tuple):
+        elif len(stmt.targets) == 1 and isinstance(stmt.targets[0], ast.Tuple) and all(isinstance(x, ast.Name) for x in stmt.targets[0].elts) and isinstance(stmt.value, ast.Tuple) and len(stmt.targets[0].elts) == len(stmt.value.elts):
             out = OrderedDict()
             lets = 0
             sets = 0
@@ -150,10 +150,10 @@ def _statement(stmt, state):
                 raise PythonToPfaException("cannot declare {0} symbols and reassign {1} in the same statement (source line {2})".format(lets, sets, stmt.lineno))
             return _form(state, stmt.lineno, {letset: out})
 
-    elif isinstance(stmt, ast.Print):
-        return _form(state, stmt.lineno, {"log": [_expression(x, state) for x in stmt.values]})
+    elif isinstance(stmt, ast.Expr) and isinstance(stmt.value, ast.Call) and isinstance(stmt.value.func, ast.Name) and stmt.value.func.id == "print" and len(stmt.value.keywords) == 0:
+        return _form(state, stmt.lineno, {"log": [_expression(x, state) for x in stmt.value.args]})
 
-    elif isinstance(stmt, ast.For):
+    elif isinstance(stmt, ast.For) and len(stmt.orelse) == 0:
         if isinstance(stmt.target, ast.Name):
             newvar = stmt.target.id
             array = _expression(stmt.iter, _newscope(state))
@@ -167,7 +167,7 @@ def _statement(stmt, state):
             body = _statements(stmt.body, _newscope(state, [keyvar, valvar]))
             return _form(state, stmt.lineno, OrderedDict([("forkey", keyvar), ("forval", valvar), ("in", mapping), ("do", body)]))
             
-    elif isinstance(stmt, ast.While):
+    elif isinstance(stmt, ast.While) and len(stmt.orelse) == 0:
         test = _expression(stmt.test, _newscope(state))
         body = _statements(stmt.body, _newscope(state))
         return _form(state, stmt.lineno, OrderedDict([("while", test), ("do", body)]))
@@ -186,8 +186,8 @@ def _statement(stmt, state):
             return _form(state, stmt.lineno, OrderedDict([("cond", chain)]))
 
     elif isinstance(stmt, ast.Raise):
-        if isinstance(stmt.type, ast.Str):
-            return _form(state, stmt.lineno, {"error": stmt.type.s})
+        if isinstance(stmt.exc, ast.Str) and stmt.cause is None:
+            return _form(state, stmt.lineno, {"error": stmt.exc.s})
 
     elif isinstance(stmt, ast.Expr):
         return _expression(stmt.value, state)
@@ -252,6 +252,8 @@ def _expression(expr, state):
             op = "&"
         elif isinstance(expr.op, ast.FloorDiv):
             op = "//"
+        else:
+            raise PythonToPfaException("Python AST node {0} (source line {1}) does not have a PFA equivalent".format(ast.dump(expr), expr.lineno))
         return _form(state, expr.lineno, {op: [_expression(expr.left, _newscope(state)), _expression(expr.right, _newscope(state))]})
 
     elif isinstance(expr, ast.UnaryOp):
@@ -283,7 +285,7 @@ def _expression(expr, state):
             elif isinstance(x, ast.Gt): return ">"
             elif isinstance(x, ast.GtE): return ">="
             else:
-                raise PythonToPfaException("Python AST node {0} (source line {1}) does not have a PFA equivalent".format(ast.dump(x), x.lineno))
+                raise PythonToPfaException("Python AST node {0} (source line {1}) does not have a PFA equivalent".format(ast.dump(x), expr.lineno))
 
         ops = list(reversed(expr.ops))
         cmps = list(reversed(expr.comparators))
@@ -308,7 +310,7 @@ def _expression(expr, state):
                 raise PythonToPfaException("Python AST node {0} (source line {1}) does not have a PFA equivalent".format(ast.dump(x), x.lineno))
 
         specialForms = ["Int", "Long", "Float", "Double", "String", "Base64", "Type", "Value", "New", "Do", "Let", "Set", "Attr", "Path", "To", "Cell", "Pool", "Init", "If", "Then", "Else", "Cond", "While", "Until", "For", "Step", "Foreach", "In", "Forkey", "Forval", "Cast", "Cases", "Partial", "Upcast", "As", "Ifnotnull", "Doc", "Error", "Log", "Namespace", "Params", "Ret", "Fcn"]
-        coreLibrary = {"Plus": "+", "Minus": "-", "Times": "*", "Divide": "/", "FloorDivide": "//", "Negative": "U-", "Modulo": "%", "Remainder": "%%", "Pow": "**", "Comparison": "cmp", "Equal": "==", "GreaterOrEqual": ">=", "GreaterThan": ">", "NotEqual": "!=", "LessThan": "<", "LessOrEqual": "<=", "Max": "max", "Min": "min", "And": "&&", "Or": "||", "XOr": "^^", "Not": "!", "BitwiseAnd": "&", "BitwiseOr": "|", "BitwiseXOr": "^", "BitwiseNot": "~"}
+        coreLibrary = {"Plus": "+", "Minus": "-", "Times": "*", "Divide": "/", "FloorDivide": "//", "Negative": "u-", "Modulo": "%", "Remainder": "%%", "Pow": "**", "Comparison": "cmp", "Equal": "==", "GreaterOrEqual": ">=", "GreaterThan": ">", "NotEqual": "!=", "LessThan": "<", "LessOrEqual": "<=", "Max": "max", "Min": "min", "And": "&&", "Or": "||", "XOr": "^^", "Not": "!", "BitwiseAnd": "&", "BitwiseOr": "|", "BitwiseXOr": "^", "BitwiseNot": "~"}
 
         name = unfold(expr.func)
         if name in specialForms:
@@ -338,6 +340,9 @@ def _expression(expr, state):
     elif isinstance(expr, ast.Str):
         return {"string": expr.s}
 
+    elif isinstance(expr, ast.NameConstant):
+        return expr.value
+
     elif isinstance(expr, ast.Attribute):
         return _unfold(expr, [], state)
 
@@ -369,10 +374,14 @@ def _unfold(x, path, state):
         path.insert(0, {"string": x.attr})
         return _unfold(x.value, path, state)
 
-    elif isinstance(x, ast.Subscript) and isinstance(x.slice, ast.Index):
-        path.insert(0, _expression(x.slice.value, state))
+    elif isinstance(x, ast.Subscript) and not isinstance(x.slice, (ast.Slice, ast.ExtSlice, ast.Tuple)):
+        # before Python 3.9, the expression is wrapped in an ast.Index
+        path.insert(0, _expression(x.slice.value if isinstance(x.slice, ast.Index) else x.slice, state))
         return _unfold(x.value, path, state)
 
+    elif isinstance(x, ast.Subscript):
+        raise PythonToPfaException("Python AST node {0} (source line {1}) does not have a PFA equivalent".format(ast.dump(x), x.lineno))
+
     else:
         if isinstance(x, ast.Name) and x.id in state["cells"]:
             return _form(state, x.lineno, OrderedDict([("cell", x.id), ("path", path)]))
@@ -396,6 +405,12 @@ def _literal(expr, state):
     elif isinstance(expr, ast.Num):
         return expr.n
 
+    elif isinstance(expr, ast.UnaryOp) and isinstance(expr.op, ast.USub) and isinstance(expr.operand, ast.Num):
+        return -expr.operand.n
+
+    elif isinstance(expr, ast.NameConstant):
+        return expr.value
+
     elif isinstance(expr, ast.Str):
         return expr.s
 
-- 
2.43.0


From 975d926e7e575949e0702762ecadfe7c20ddbb66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:22 +0000
Subject: [PATCH 62/64] fix: transformation: remainder, rounding, null
 literals, literal strings and record names

---
 titus/producer/transformation.py | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/titus/producer/transformation.py b/titus/producer/transformation.py
index fe9b6a6..8ed0861 100644
--- a/titus/producer/transformation.py
+++ b/titus/producer/transformation.py
@@ -53,7 +53,7 @@ class Transformation(object):
         "u-": "numpy.negative",
         "**": "numpy.power",
         "%": "numpy.mod",
-        "%%": "numpy.remainder",
+        "%%": "numpy.fmod",
         
         "==": "numpy.equal",
         "!=": "numpy.not_equal",
@@ -81,7 +81,7 @@ class Transformation(object):
         "m.hypot": "numpy.hypot",
         "m.ln": "numpy.log",
         "m.log10": "numpy.log10",
-        "m.round": "numpy.round",
+        "m.round": "roundHalfUp",
         "m.rint": "numpy.rint",
         "m.sin": "numpy.sin",
         "m.sinh": "numpy.sinh",
@@ -90,7 +90,8 @@ class Transformation(object):
         "m.tanh": "numpy.tanh",
         }
 
-    namespace = {"math": math, "numpy": numpy}
+    # numpy.round rounds halves to even; m.round rounds them up
+    namespace = {"math": math, "numpy": numpy, "roundHalfUp": lambda x: numpy.floor(x) + (x - numpy.floor(x) >= 0.5)}
 
     @staticmethod
     def findFields(x):
@@ -102,7 +103,10 @@ class Transformation(object):
         :return: all symbols found
         """
 
-        if isinstance(x, dict):
+        if isinstance(x, dict) and set(x.keys()).difference(set(["@"])) == set(["string"]):
+            # a literal string, not a symbol
+            return []
+        elif isinstance(x, dict):
             return sum((Transformation.findFields(v) for k, v in list(x.items()) if k != "@"), [])
         elif isinstance(x, (list, tuple)):
             return sum((Transformation.findFields(xi) for xi in x), [])
@@ -123,7 +127,10 @@ class Transformation(object):
         :return: the PFA with replacements
         """
 
-        if isinstance(x, dict):
+        if isinstance(x, dict) and set(x.keys()).difference(set(["@"])) == set(["string"]):
+            # a literal string, not a symbol
+            return x
+        elif isinstance(x, dict):
             return dict((k, Transformation.replace(v, subs)) for k, v in list(x.items()))
         elif isinstance(x, (list, tuple)):
             return [Transformation.replace(xi, subs) for xi in x]
@@ -152,7 +159,7 @@ class Transformation(object):
         elif isinstance(ast, Ref):
             return ast.name
         elif isinstance(ast, LiteralNull):
-            return float("nan")
+            return "numpy.nan"
         elif isinstance(ast, (LiteralBoolean, LiteralInt, LiteralLong, LiteralFloat, LiteralDouble, LiteralString)):
             return repr(ast.value)
         else:
@@ -290,7 +297,7 @@ class Transformation(object):
                     "new": dict((k, Transformation.replace(v, subs2)) for k, v in list(self.pfas.items()))}
 
         elif isinstance(avroType, AvroRecord):
-            return {"type": avroType.name,
+            return {"type": avroType.fullName,
                     "new": dict((k, Transformation.replace(v, subs2)) for k, v in list(self.pfas.items()))}
         elif isinstance(avroType, dict) and avroType["type"] == "record" or isinstance(avroType, str):
             return {"type": avroType,
-- 
2.43.0


From e85a7de908f7351fa0e8375adefa02531267a1c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:22 +0000
Subject: [PATCH 63/64] fix: tools: booleans are not numbers, groups of
 literals, copies are copies, replacing all matches sees the original document

---
 titus/producer/tools.py | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/titus/producer/tools.py b/titus/producer/tools.py
index f60acd1..2db2957 100644
--- a/titus/producer/tools.py
+++ b/titus/producer/tools.py
@@ -61,13 +61,13 @@ def assigned(expr, index, to):
 
 def assignAt(pattern, expr, to):
     """Destructively (in-place) replace subexpressions that match a regular expression pattern."""
-    for i in indexes(pattern, expr):
+    for i in list(indexes(pattern, expr)):   # all matches before any change
         assign(expr, i, to)
 
 def assignedAt(pattern, expr, to):
     """Return a copy of expr with replaced subexpressions at points that match a regular expression pattern."""
     expr = copy.deepcopy(expr)
-    for i in indexes(pattern, expr):
+    for i in list(indexes(pattern, expr)):   # all matches before any change
         assign(expr, i, to)
     return expr
 
@@ -138,14 +138,14 @@ def getmatch(pattern, haystack):
                 return None
         return out
 
-    elif isinstance(pattern, (str, int, float)):
-        if pattern == haystack:
+    elif isinstance(pattern, bool) or pattern is None:
+        if pattern is haystack:
             return Match(haystack, haystack)
         else:
             return None
 
-    elif pattern in (True, False, None):
-        if pattern is haystack:
+    elif isinstance(pattern, (str, int, float)):
+        if pattern == haystack and not isinstance(haystack, bool):
             return Match(haystack, haystack)
         else:
             return None
@@ -165,7 +165,7 @@ class Group(Matcher):
     def __repr__(self):
         return "Group(" + repr(self.name) + "=" + repr(self.matcher) + ")"
     def getmatch(self, haystack):
-        m = self.matcher.getmatch(haystack)
+        m = getmatch(self.matcher, haystack)
         if m is not None:
             m.groups[self.name] = m.modified
             return m
@@ -240,8 +240,8 @@ class End(Matcher):
                 out.groups.update(m.groups)
             else:
                 return None
-        out.original = haystack[:(len(haystack) - len(self.array))] + out.original
-        out.modified = haystack[:(len(haystack) - len(self.array))] + out.modified
+        out.original = list(haystack[:(len(haystack) - len(self.array))]) + out.original
+        out.modified = list(haystack[:(len(haystack) - len(self.array))]) + out.modified
         return out
 
 class Or(Matcher):
@@ -286,7 +286,7 @@ class Approx(Matcher):
     def __repr__(self):
         return "Approx(" + repr(self.central) + ", " + repr(self.error) + ")"
     def getmatch(self, haystack):
-        if not isinstance(haystack, (int, float)) or abs(haystack - self.central) > self.error:
+        if not isinstance(haystack, (int, float)) or isinstance(haystack, bool) or abs(haystack - self.central) > self.error:
             return None
         else:
             return Match(haystack, haystack)
@@ -298,7 +298,7 @@ class LT(Matcher):
     def __repr__(self):
         return "LT(" + repr(self.value) + ")"
     def getmatch(self, haystack):
-        if not isinstance(haystack, (int, float)) or haystack >= self.value:
+        if not isinstance(haystack, (int, float)) or isinstance(haystack, bool) or haystack >= self.value:
             return None
         else:
             return Match(haystack, haystack)
@@ -310,7 +310,7 @@ class LE(Matcher):
     def __repr__(self):
         return "LE(" + repr(self.value) + ")"
     def getmatch(self, haystack):
-        if not isinstance(haystack, (int, float)) or haystack > self.value:
+        if not isinstance(haystack, (int, float)) or isinstance(haystack, bool) or haystack > self.value:
             return None
         else:
             return Match(haystack, haystack)
@@ -322,7 +322,7 @@ class GT(Matcher):
     def __repr__(self):
         return "GT(" + repr(self.value) + ")"
     def getmatch(self, haystack):
-        if not isinstance(haystack, (int, float)) or haystack <= self.value:
+        if not isinstance(haystack, (int, float)) or isinstance(haystack, bool) or haystack <= self.value:
             return None
         else:
             return Match(haystack, haystack)
@@ -334,7 +334,7 @@ class GE(Matcher):
     def __repr__(self):
         return "GE(" + repr(self.value) + ")"
     def getmatch(self, haystack):
-        if not isinstance(haystack, (int, float)) or haystack < self.value:
+        if not isinstance(haystack, (int, float)) or isinstance(haystack, bool) or haystack < self.value:
             return None
         else:
             return Match(haystack, haystack)
@@ -444,7 +444,7 @@ def findCopy(pattern, haystack):
     if x is None:
         return None
     else:
-        return x[1].original   # "original" is a copy that is identical to the original (see Match class)
+        return copy.deepcopy(x[1].original)   # "original" is a copy that is identical to the original (see Match class)
 
 def findAllRef(pattern, haystack):
     """Create a generator to yield references to matching subexpressions within the original structure (for in-place modifications)."""
@@ -454,7 +454,7 @@ def findAllRef(pattern, haystack):
 def findAllCopy(pattern, haystack):
     """Create a generator to yield copies of the matching subexpressions."""
     for x in search(pattern, haystack):
-        yield x[1].original   # "original" is a copy that is identical to the original (see Match class)
+        yield copy.deepcopy(x[1].original)   # "original" is a copy that is identical to the original (see Match class)
 
 ############################################## the look function presents a JSON object in an analyzable way
 
-- 
2.43.0


From ae5c94cfe99194481b2bcc532fa465b78325151b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:35 +0000
Subject: [PATCH 64/64] fix: la.eigenBasis converges for matrices of extreme
 magnitude

---
 titus/lib/la.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/titus/lib/la.py b/titus/lib/la.py
index 0ece9a3..1a99d8c 100644
--- a/titus/lib/la.py
+++ b/titus/lib/la.py
@@ -430,9 +430,14 @@ class EigenBasis(LibFcn):
 
     errcodeBase = 24110
     def calculate(self, x, size):
+        # scaled by a power of two (exactly), since eigh does not converge for some matrices of extreme magnitude
+        biggest = abs(x).max()
+        scale = 2.0**(math.frexp(biggest)[1] - 1) if biggest > 0.0 else 1.0
+        x = x / scale
         symm = (x + x.T) * 0.5
 
         evals, evects = np().linalg.eigh(symm)
+        evals = evals * scale
         evects = np().array(evects)
         evects2 = [evects[:,i] * (-1.0 if evects[0,i] < 0.0 else 1.0) for i in range(size)]
 
-- 
2.43.0

