From 261dea5b6761d5181959e0e61c288d8df21ad36c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:55 +0000
Subject: [PATCH 01/55] fix: bin axis put +inf and very large values in the
 underflow bin

---
 histbook/calc/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/histbook/calc/__init__.py b/histbook/calc/__init__.py
index 12fb2eb..da5936d 100644
--- a/histbook/calc/__init__.py
+++ b/histbook/calc/__init__.py
@@ -223,8 +223,9 @@ def histbook_bin(underflow, overflow, nanflow, closedlow):
             numpy.ceil(indexes, indexes)
             numpy.add(indexes, shift - 1, indexes)
 
-        out = numpy.ma.array(indexes, dtype=INDEXTYPE)
         with numpy.errstate(invalid="ignore"):
+            # limit to one beyond the valid range before casting: out-of-range casts are not overflows
+            out = numpy.ma.array(numpy.clip(indexes, -1, shift + numbins), dtype=INDEXTYPE)
             if underflow:
                 numpy.maximum(out, 0, out)
             else:
-- 
2.43.0


From 4b4d562b32999891edfc746f4015c71247b7a42f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:13 +0000
Subject: [PATCH 02/55] fix: bin axis with no finite bins (the result of a
 selection) could not be filled

---
 histbook/calc/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/histbook/calc/__init__.py b/histbook/calc/__init__.py
index da5936d..14e1a89 100644
--- a/histbook/calc/__init__.py
+++ b/histbook/calc/__init__.py
@@ -213,7 +213,8 @@ def histbook_bin(underflow, overflow, nanflow, closedlow):
 
     def bin(values, numbins, low, high):
         indexes = values - float(low)
-        numpy.multiply(indexes, float(numbins) / float(high - low), indexes)
+        if numbins > 0:       # zero-width axes only have flow bins (see bin._select)
+            numpy.multiply(indexes, float(numbins) / float(high - low), indexes)
 
         if closedlow:
             numpy.floor(indexes, indexes)
-- 
2.43.0


From 229b7f228a7575ddda18a3336cfa510c5549a64e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:16 +0000
Subject: [PATCH 03/55] fix: intbin axis put values beyond the int32 range in
 the wrong bins

---
 histbook/calc/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/histbook/calc/__init__.py b/histbook/calc/__init__.py
index 14e1a89..9f1e8f2 100644
--- a/histbook/calc/__init__.py
+++ b/histbook/calc/__init__.py
@@ -264,7 +264,8 @@ def histbook_intbin(underflow, overflow):
         shift = 0
 
     def intbin(values, min, max):
-        indexes = numpy.ma.array((values + (shift - min)), dtype=INDEXTYPE)
+        # limit to one beyond the valid range before casting: out-of-range casts wrap around
+        indexes = numpy.ma.array(numpy.clip(values, min - 1, max + 1) + (shift - min), dtype=INDEXTYPE)
 
         if underflow:
             numpy.maximum(indexes, 0, indexes)
-- 
2.43.0


From 2b9c4831256942d2bfddc842f6b2582df228e24f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:52 +0000
Subject: [PATCH 04/55] fix: filling a profile together with an axis that drops
 entries raised or misaligned values

---
 histbook/hist.py | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/histbook/hist.py b/histbook/hist.py
index 3178c92..a9b4761 100644
--- a/histbook/hist.py
+++ b/histbook/hist.py
@@ -421,15 +421,19 @@ class Hist(histbook.fill.Fillable, histbook.proj.Projectable, histbook.export.Ex
                 weight2[selection] = 0.0
 
         def fillblock(content, indexes, axissumx, axissumx2, weight, weight2):
+            if indexes is not None:
+                selection = numpy.ma.getmask(indexes)
+                if selection is not numpy.ma.nomask:
+                    selection = numpy.bitwise_not(selection)
+                    axissumx = [x[selection] for x in axissumx]
+                    axissumx2 = [x[selection] for x in axissumx2]
+                    if weight2 is not None:
+                        weight = weight[selection]
+                        weight2 = weight2[selection]
+
             for sumx, sumx2, axis in zip(axissumx, axissumx2, self._profile):
                 if indexes is None:
                     indexes = numpy.ma.zeros(len(sumx), dtype=histbook.calc.INDEXTYPE)
-                if weight2 is not None:
-                    selection = numpy.ma.getmask(indexes)
-                    if selection is not numpy.ma.nomask:
-                        selection = numpy.bitwise_not(selection)
-                        weight = weight[selection]
-                        weight2 = weight2[selection]
                 numpy.add.at(content.reshape((-1, self._shape[-1]))[:, axis._sumwxindex], indexes.compressed(), sumx * weight)
                 numpy.add.at(content.reshape((-1, self._shape[-1]))[:, axis._sumwx2index], indexes.compressed(), sumx2 * weight)
 
@@ -441,11 +445,6 @@ class Hist(histbook.fill.Fillable, histbook.proj.Projectable, histbook.export.Ex
             else:
                 if indexes is None:
                     indexes = numpy.ma.zeros(len(weight), dtype=histbook.calc.INDEXTYPE)
-                selection = numpy.ma.getmask(indexes)
-                if selection is not numpy.ma.nomask:
-                    selection = numpy.bitwise_not(selection)
-                    weight = weight[selection]
-                    weight2 = weight2[selection]
                 numpy.add.at(content.reshape((-1, self._shape[-1]))[:, self._sumwindex], indexes.compressed(), weight)
                 numpy.add.at(content.reshape((-1, self._shape[-1]))[:, self._sumw2index], indexes.compressed(), weight2)
 
-- 
2.43.0


From 89dba85768505b96dc7bd636cbd91552b18233a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:57 +0000
Subject: [PATCH 05/55] fix: cancelling more than one common factor in a ratio
 removed the wrong factors

---
 histbook/expr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/histbook/expr.py b/histbook/expr.py
index 8b864ea..10ebe2a 100644
--- a/histbook/expr.py
+++ b/histbook/expr.py
@@ -723,7 +723,7 @@ class RingAlgebraAddLike(RingAlgebra):
             pos, neg = list(x.pos), []
             for y in x.neg:
                 try:
-                    i = x.pos.index(y)
+                    i = pos.index(y)
                 except ValueError:
                     neg.append(y)
                 else:
-- 
2.43.0


From 8ce35f6822deb94f340af2f83a7c335eb2042418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:00 +0000
Subject: [PATCH 06/55] fix: product of two sums lost the product of their
 constant terms

---
 histbook/expr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/histbook/expr.py b/histbook/expr.py
index 10ebe2a..7197b7c 100644
--- a/histbook/expr.py
+++ b/histbook/expr.py
@@ -789,7 +789,7 @@ class RingAlgebraAddLike(RingAlgebra):
         pos += [op.subop.combine(x, y) for x, y in itertools.product(left.neg, right.neg)]
         neg += [op.subop.combine(x, y) for x, y in itertools.product(left.neg, right.pos)]
 
-        return op.collect(op(op.identity, tuple(pos), tuple(neg)))
+        return op.collect(op(op.subop.calcval(left.const, right.const), tuple(pos), tuple(neg)))
 
     def simplify(self):
         out = self.__class__(self.const, self.pos, self.neg)
-- 
2.43.0


From d844e87ada62a1f54eca50e3e37d40cd56244c85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:04 +0000
Subject: [PATCH 07/55] fix: constants joined by //, %, ** or ^ raised KeyError

---
 histbook/expr.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/histbook/expr.py b/histbook/expr.py
index 7197b7c..383898c 100644
--- a/histbook/expr.py
+++ b/histbook/expr.py
@@ -229,15 +229,15 @@ class Expr(object):
                 raise ExpressionError("only unary operators supported: 'not', '-', '+', and '~': {0}".format(histbook.util.astunparse.tostring(node).strip()))
 
             elif isinstance(node, ast.BinOp):
-                if   isinstance(node.op, ast.Add):      fcn = "+"
-                elif isinstance(node.op, ast.Sub):      fcn = "-"
-                elif isinstance(node.op, ast.Mult):     fcn = "*"
-                elif isinstance(node.op, ast.Div):      fcn = "/"
+                if   isinstance(node.op, ast.Add):      op = fcn = "+"
+                elif isinstance(node.op, ast.Sub):      op = fcn = "-"
+                elif isinstance(node.op, ast.Mult):     op = fcn = "*"
+                elif isinstance(node.op, ast.Div):      op = fcn = "/"
                 elif isinstance(node.op, ast.FloorDiv): op, fcn = "//", "numpy.floor_divide"
                 elif isinstance(node.op, ast.Mod):      op, fcn = "%",  "fmod"
                 elif isinstance(node.op, ast.Pow):      op, fcn = "**", "pow"
-                elif isinstance(node.op, ast.BitOr):    fcn = "|"
-                elif isinstance(node.op, ast.BitAnd):   fcn = "&"
+                elif isinstance(node.op, ast.BitOr):    op = fcn = "|"
+                elif isinstance(node.op, ast.BitAnd):   op = fcn = "&"
                 elif isinstance(node.op, ast.BitXor):   op, fcn = "^",  "xor"
                 else:
                     raise ExpressionError("only binary operators supported: '+', '-', '*', '/', '//', '%', '**', '|', '&', and '^': {0}".format(histbook.util.astunparse.tostring(node).strip()))
@@ -246,7 +246,7 @@ class Expr(object):
                 right = recurse(node.right)
 
                 if isinstance(left, Const) and isinstance(right, Const):
-                    return Const(calculate[fcn](left.value, right.value))
+                    return Const(calculate[op](left.value, right.value))
 
                 if fcn == "+":
                     return PlusMinus.combine(left, right).simplify()
-- 
2.43.0


From fe93ff7e4365343f211d9e8bf7438e8ad42cc376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:07 +0000
Subject: [PATCH 08/55] fix: unsupported syntax in an expression was silently
 accepted

---
 histbook/expr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/histbook/expr.py b/histbook/expr.py
index 383898c..22f6d96 100644
--- a/histbook/expr.py
+++ b/histbook/expr.py
@@ -321,7 +321,7 @@ class Expr(object):
                 return Call(fcn, *(recurse(x, relations=(i == 0 and fcn == "where")) for i, x in enumerate(node.args)))
 
             else:
-                ExpressionError("unhandled syntax in expression: {0}".format(histbook.util.astunparse.tostring(node).strip()))
+                raise ExpressionError("unhandled syntax in expression: {0}".format(histbook.util.astunparse.tostring(node).strip()))
 
         return recurse(pyast, relations=True)
         
-- 
2.43.0


From a6b9784c77ee7b6d4da2fe36e148221c5ecc2457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:43 +0000
Subject: [PATCH 09/55] fix: negated boolean field (not p) was evaluated as p

---
 histbook/instr.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/histbook/instr.py b/histbook/instr.py
index 15ab458..0e4b4c5 100644
--- a/histbook/instr.py
+++ b/histbook/instr.py
@@ -159,7 +159,10 @@ def totree(expr):
 
         return histbook.expr.Call(fcn, left, right)
 
-    if isinstance(expr, (histbook.expr.Const, histbook.expr.Name, histbook.expr.Predicate)):
+    if isinstance(expr, histbook.expr.Predicate) and not expr.positive:
+        return histbook.expr.Call("numpy.logical_not", expr.negate())
+
+    elif isinstance(expr, (histbook.expr.Const, histbook.expr.Name, histbook.expr.Predicate)):
         return expr
 
     elif isinstance(expr, histbook.expr.Call):
-- 
2.43.0


From 5294c71772759806e5f93a4cdda641ae74870326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:46 +0000
Subject: [PATCH 10/55] fix: set membership (x in {...}) was always false when
 evaluated

---
 histbook/calc/__init__.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/histbook/calc/__init__.py b/histbook/calc/__init__.py
index 9f1e8f2..3d6cf31 100644
--- a/histbook/calc/__init__.py
+++ b/histbook/calc/__init__.py
@@ -44,9 +44,10 @@ library["numpy.not_equal"] = numpy.not_equal
 library["numpy.less"] = numpy.less
 library["numpy.less_equal"] = numpy.less_equal
 try:
-    library["numpy.isin"] = numpy.isin
+    _isin = numpy.isin
 except AttributeError:
-    library["numpy.isin"] = numpy.in1d
+    _isin = numpy.in1d
+library["numpy.isin"] = lambda values, container: _isin(values, list(container))    # Numpy doesn't iterate over sets
 library["numpy.logical_or"] = numpy.logical_or
 library["numpy.logical_and"] = numpy.logical_and
 library["numpy.logical_not"] = numpy.logical_not
-- 
2.43.0


From cc299c66f173a7d697b11614a36a93cbe47661c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:49 +0000
Subject: [PATCH 11/55] fix: //, ^ and round were accepted in expressions but
 could not be evaluated

---
 histbook/calc/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/histbook/calc/__init__.py b/histbook/calc/__init__.py
index 3d6cf31..ada05a9 100644
--- a/histbook/calc/__init__.py
+++ b/histbook/calc/__init__.py
@@ -39,6 +39,7 @@ library["numpy.add"] = numpy.add
 library["numpy.subtract"] = numpy.subtract
 library["numpy.multiply"] = numpy.multiply
 library["numpy.true_divide"] = numpy.true_divide
+library["numpy.floor_divide"] = numpy.floor_divide
 library["numpy.equal"] = numpy.equal
 library["numpy.not_equal"] = numpy.not_equal
 library["numpy.less"] = numpy.less
@@ -95,6 +96,7 @@ library["pow"] = numpy.power
 library["rad2deg"] = numpy.rad2deg
 library["mod"] = numpy.remainder;         library["fmod"] = numpy.remainder
 library["rint"] = numpy.rint
+library["round"] = numpy.round
 library["sign"] = numpy.sign
 library["sinh"] = numpy.sinh
 library["sin"] = numpy.sin
@@ -102,6 +104,7 @@ library["sqrt"] = numpy.sqrt
 library["tanh"] = numpy.tanh
 library["tan"] = numpy.tan
 library["trunc"] = numpy.trunc
+library["xor"] = numpy.bitwise_xor
 
 def vectorized_erf(complement):
     a1 =  0.254829592
-- 
2.43.0


From af48f2e85f77fb746563d5f658c6a452c0f4129a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:52 +0000
Subject: [PATCH 12/55] fix: max/min of three fields ignored the third and
 overwrote the user's array

---
 histbook/calc/__init__.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/histbook/calc/__init__.py b/histbook/calc/__init__.py
index ada05a9..d9b5b71 100644
--- a/histbook/calc/__init__.py
+++ b/histbook/calc/__init__.py
@@ -28,6 +28,8 @@
 # OR TORT (INCLUDING NEGLIGENCE OR OTHERWISE) ARISING IN ANY WAY OUT OF THE USE
 # OF THIS SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
 
+import functools
+
 import histbook.expr
 
 import numpy
@@ -90,8 +92,8 @@ library["log2"] = numpy.log2
 library["logaddexp2"] = numpy.logaddexp2
 library["logaddexp"] = numpy.logaddexp
 library["log"] = numpy.log
-library["max"] = numpy.maximum;           library["fmax"] = numpy.maximum
-library["min"] = numpy.minimum;           library["fmin"] = numpy.minimum
+library["max"] = lambda *values: functools.reduce(numpy.maximum, values);           library["fmax"] = numpy.maximum
+library["min"] = lambda *values: functools.reduce(numpy.minimum, values);           library["fmin"] = numpy.minimum
 library["pow"] = numpy.power
 library["rad2deg"] = numpy.rad2deg
 library["mod"] = numpy.remainder;         library["fmod"] = numpy.remainder
-- 
2.43.0


From b65087b2836e29a5a81fb3e978840cf8363d6307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:56 +0000
Subject: [PATCH 13/55] fix: missing return in the ordering of broadcast
 constants

---
 histbook/expr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/histbook/expr.py b/histbook/expr.py
index 22f6d96..05e8768 100644
--- a/histbook/expr.py
+++ b/histbook/expr.py
@@ -579,7 +579,7 @@ class BroadcastConst(Name):
                     else:
                         return type(self.value).__name__ < type(other.value).__name__
                 else:
-                    self.name < other.name
+                    return self.name < other.name
             else:
                 return type(self.name).__name__ < type(other.name).__name__
         else:
-- 
2.43.0


From a613db6a13b0a1db907cc790eb1a8be560900819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:07:00 +0000
Subject: [PATCH 14/55] fix: set constants had no total order, so equivalent
 expressions could compare as different

---
 histbook/expr.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/histbook/expr.py b/histbook/expr.py
index 05e8768..a36c696 100644
--- a/histbook/expr.py
+++ b/histbook/expr.py
@@ -506,7 +506,9 @@ class Const(Expr):
 
     def __lt__(self, other):
         if self.__class__.__name__ == other.__class__.__name__:
-            if type(self.value).__name__ == type(other.value).__name__:
+            if isinstance(self.value, set) and isinstance(other.value, set):
+                return sorted(self.value) < sorted(other.value)    # sets are only partially ordered by <
+            elif type(self.value).__name__ == type(other.value).__name__:
                 return self.value < other.value
             else:
                 return type(self.value).__name__ < type(other.value).__name__
-- 
2.43.0


From 55c0ba9399f34e7d803aa42923f5eb8c52bc1af7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:07:49 +0000
Subject: [PATCH 15/55] fix: expressions with a function of constants, such as
 sqrt(4), were never evaluated

---
 histbook/fill.py  | 7 +++++--
 histbook/instr.py | 2 ++
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/histbook/fill.py b/histbook/fill.py
index 2b67ecd..bd0dd69 100644
--- a/histbook/fill.py
+++ b/histbook/fill.py
@@ -54,7 +54,7 @@ class Fillable(object):
             fields = histbook.instr.sources(goals, table)
 
             self._instructions = self._streamline(0, list(histbook.instr.instructions(fields, goals)))
-            self._fields = sorted(x.goal.value for x in fields)
+            self._fields = sorted(set(x.goal.value for x in fields if isinstance(x.goal, (histbook.expr.Name, histbook.expr.Predicate)) and not isinstance(x.goal, histbook.expr.BroadcastConst)))
 
         return self._fields
 
@@ -146,7 +146,10 @@ class Fillable(object):
                 symbols[instruction.name] = array
 
             elif isinstance(instruction, histbook.instr.Assign):
-                symbols[instruction.name] = histbook.calc.calculate(instruction.expr, symbols)
+                array = histbook.calc.calculate(instruction.expr, symbols)
+                if all(isinstance(x, histbook.expr.Const) for x in instruction.expr.args):      # function of constants only
+                    array = full(length, array)
+                symbols[instruction.name] = array
 
             elif isinstance(instruction, histbook.instr.Export):
                 data = symbols[instruction.name]
diff --git a/histbook/instr.py b/histbook/instr.py
index 0e4b4c5..c6dc6c1 100644
--- a/histbook/instr.py
+++ b/histbook/instr.py
@@ -105,6 +105,8 @@ class CallGraphNode(object):
                 if not isinstance(arg, histbook.expr.Const):
                     node = table[CallGraphNode(arg)]
                     out.update(node.sources(table))
+            if len(self.requires) == 0:      # function of constants only
+                out.add(self)
             return out
 
         else:
-- 
2.43.0


From 5c93fa68e1c66c405af70c90191edd42eb76e65b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:07:52 +0000
Subject: [PATCH 16/55] fix: SystematicsBook could not be filled

---
 histbook/book.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/histbook/book.py b/histbook/book.py
index 830e0bc..3da3c9d 100644
--- a/histbook/book.py
+++ b/histbook/book.py
@@ -637,6 +637,7 @@ class SystematicsBook(Book):
         return super(SystematicsBook, self).__str__(indent=indent, first=first)
 
     def _changed(self):
+        super(SystematicsBook, self)._changed()
         self.assertcompatible()
         if not all(x.has("systematic") for x in self.itervalues(recursive=True, onlyhist=True)):
             raise ValueError("all histograms in a SystematicsBook must have a 'systematic' attachment")
-- 
2.43.0


From 9100353fd787fa1af1d5e29c767bb27d4f9af4df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:07:55 +0000
Subject: [PATCH 17/55] fix: filling an empty Book raised TypeError

---
 histbook/book.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/histbook/book.py b/histbook/book.py
index 3da3c9d..e14b111 100644
--- a/histbook/book.py
+++ b/histbook/book.py
@@ -527,7 +527,7 @@ class Book(GenericBook, histbook.fill.Fillable):
 
     @property
     def _goals(self):
-        return functools.reduce(set.union, (x._goals for x in self.itervalues(recursive=True, onlyhist=True)))
+        return functools.reduce(set.union, (x._goals for x in self.itervalues(recursive=True, onlyhist=True)), set())
 
     def _streamline(self, i, instructions):
         self._destination = []
-- 
2.43.0


From 7ea13e60f97ce8d8f5b5c8923745a7890d6caf3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:07:59 +0000
Subject: [PATCH 18/55] fix: deleting a wildcard pattern from a book attempted
 to delete everything

---
 histbook/book.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/histbook/book.py b/histbook/book.py
index e14b111..4a327ab 100644
--- a/histbook/book.py
+++ b/histbook/book.py
@@ -281,8 +281,9 @@ class GenericBook(collections.MutableMapping):
             raise TypeError("keys of a {0} must be strings".format(self.__class__.__name__))
 
         if "*" in name or "?" in name or "[" in name:
-            for n in self.allkeys():
-                self._del(n, "")
+            for n in [n for n in self.allkeys() if fnmatch.fnmatchcase(n, name)]:
+                if n in self:        # may already be gone with a book that contains it
+                    self._del(n, "")
         else:
             self._del(name, "")
 
-- 
2.43.0


From 42665555b4c5161ffb0032dc50ba131b9f0986e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:44 +0000
Subject: [PATCH 19/55] fix: projecting or dropping axes corrupted later fills
 of the original histogram

---
 histbook/hist.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/histbook/hist.py b/histbook/hist.py
index a9b4761..34eb7d1 100644
--- a/histbook/hist.py
+++ b/histbook/hist.py
@@ -155,13 +155,14 @@ class Hist(histbook.fill.Fillable, histbook.proj.Projectable, histbook.export.Ex
 
         newaxis = []
         for old in axis:
-            if isinstance(old, histbook.axis._nullaxis) or hasattr(old, "_parsed"):
-                newaxis.append(old)
+            new = old.copy()      # axis objects hold index positions, so they can't be shared among histograms
+            if isinstance(old, histbook.axis._nullaxis):
+                pass
+            elif hasattr(old, "_parsed"):
+                new._parsed = old._parsed
             else:
-                expr = histbook.expr.Expr.parse(old._expr, defs=defs)
-                new = old.copy()
-                new._parsed = expr
-                newaxis.append(new)
+                new._parsed = histbook.expr.Expr.parse(old._expr, defs=defs)
+            newaxis.append(new)
 
         self._goals = set()
         self._destination = [[]]
-- 
2.43.0


From 330611324538719621940f9bbb3f298ae036cc6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:09:15 +0000
Subject: [PATCH 20/55] fix: copy-on-fill histograms were not independent when
 filled in a Book, updated in place, or when the original was filled

---
 histbook/hist.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/histbook/hist.py b/histbook/hist.py
index 34eb7d1..874226c 100644
--- a/histbook/hist.py
+++ b/histbook/hist.py
@@ -85,8 +85,8 @@ class Hist(histbook.fill.Fillable, histbook.proj.Projectable, histbook.export.Ex
     def copyonfill(self):
         """Return a copy of the histogram whose content is copied if filled."""
         out = Hist(*(self._group + self._fixed + self._profile), weight=self._weightoriginal, filter=self._filteroriginal, defs=dict(self._defs), attachment=dict(self._attachment))
-        out._copyonfill = True
         out._content = self._content
+        self._copyonfill = out._copyonfill = True
         return out
 
     def clear(self):
@@ -348,10 +348,6 @@ class Hist(histbook.fill.Fillable, histbook.proj.Projectable, histbook.export.Ex
         **more : Numpy arrays or numbers
             more field values
         """
-        if self._copyonfill:
-            self._content = Hist._copycontent(self._content)
-            self._copyonfill = False
-
         if histbook.calc.spark.isspark(arrays, more):
             # pyspark.DataFrame
             wait = histbook.calc.spark.fillspark(self, arrays)
@@ -377,7 +373,13 @@ class Hist(histbook.fill.Fillable, histbook.proj.Projectable, histbook.export.Ex
             length = self._fill(arrays)
             self._postfill(arrays, length)
 
+    def _unshare(self):
+        if self._copyonfill:
+            self._content = Hist._copycontent(self._content)
+            self._copyonfill = False
+
     def _prefill(self):
+        self._unshare()
         if self._content is None:
             if len(self._group) == 0:
                 self._content = numpy.zeros(self._shape, dtype=self.COUNTTYPE)
@@ -550,6 +552,8 @@ class Hist(histbook.fill.Fillable, histbook.proj.Projectable, histbook.export.Ex
                 if n not in selfcontent:
                     selfcontent[n] = Hist._copycontent(othercontent[n])
 
+        self._unshare()
+
         if other._content is None:
             pass
 
@@ -593,6 +597,7 @@ class Hist(histbook.fill.Fillable, histbook.proj.Projectable, histbook.export.Ex
             else:
                 content *= value
 
+        self._unshare()
         recurse(self._content)
         return self
 
-- 
2.43.0


From f0aaada609e524ce1b5674b7c089d3b54c828447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:09:18 +0000
Subject: [PATCH 21/55] fix: sums and multiples of histograms and books shared
 bin contents and state with their operands

---
 histbook/book.py |  6 +++---
 histbook/hist.py | 10 ++++------
 2 files changed, 7 insertions(+), 9 deletions(-)

diff --git a/histbook/book.py b/histbook/book.py
index 4a327ab..f9f46ea 100644
--- a/histbook/book.py
+++ b/histbook/book.py
@@ -446,10 +446,10 @@ class GenericBook(collections.MutableMapping):
             if n in other:
                 content[n] = x + other[n]
             else:
-                content[n] = x
+                content[n] = x.copy()
         for n, x in other.iteritems():
             if n not in self:
-                content[n] = x
+                content[n] = x.copy()
 
         attachment = dict(self._attachment)
         attachment.update(other._attachment)
@@ -461,7 +461,7 @@ class GenericBook(collections.MutableMapping):
         
         for n, x in other.iteritems():
             if n not in self:
-                self[n] = x
+                self[n] = x.copy()
             else:
                 self[n] += x
         return self
diff --git a/histbook/hist.py b/histbook/hist.py
index 874226c..20b1668 100644
--- a/histbook/hist.py
+++ b/histbook/hist.py
@@ -522,14 +522,13 @@ class Hist(histbook.fill.Fillable, histbook.proj.Projectable, histbook.export.Ex
                     if n in othercontent:
                         out[n] = add(selfcontent[n], othercontent[n])
                     else:
-                        out[n] = selfcontent[n]
+                        out[n] = Hist._copycontent(selfcontent[n])
                 for n in othercontent:
                     if n not in selfcontent:
-                        out[n] = othercontent[n]
+                        out[n] = Hist._copycontent(othercontent[n])
                 return out
 
-        out = self.__class__.__new__(self.__class__)
-        out.__dict__.update(self.__dict__)
+        out = self.cleared()
         out._content = add(self._content, other._content)
         return out
 
@@ -578,8 +577,7 @@ class Hist(histbook.fill.Fillable, histbook.proj.Projectable, histbook.export.Ex
             else:
                 return content * value
 
-        out = self.__class__.__new__(self.__class__)
-        out.__dict__.update(self.__dict__)
+        out = self.cleared()
         out._content = recurse(self._content)
         return out
 
-- 
2.43.0


From 0750e941ab48b070a8ed4601aa795bcc25ca53de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:09:21 +0000
Subject: [PATCH 22/55] fix: adding a weighted and an unweighted histogram
 silently mixed counts and squared weights

---
 histbook/hist.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/histbook/hist.py b/histbook/hist.py
index 20b1668..3cf863a 100644
--- a/histbook/hist.py
+++ b/histbook/hist.py
@@ -501,6 +501,8 @@ class Hist(histbook.fill.Fillable, histbook.proj.Projectable, histbook.export.Ex
 
         if self._group + self._fixed + self._profile != other._group + other._fixed + other._profile:
             raise TypeError("histograms can only be added to other histograms with the same axis specifications")
+        if self._shape != other._shape:
+            raise TypeError("weighted histograms can only be added to other weighted histograms")
 
         def add(selfcontent, othercontent):
             if selfcontent is None and othercontent is None:
@@ -538,6 +540,8 @@ class Hist(histbook.fill.Fillable, histbook.proj.Projectable, histbook.export.Ex
 
         if self._group + self._fixed + self._profile != other._group + other._fixed + other._profile:
             raise TypeError("histograms can only be added to other histograms with the same axis specifications")
+        if self._shape != other._shape:
+            raise TypeError("weighted histograms can only be added to other weighted histograms")
 
         def add(selfcontent, othercontent):
             assert isinstance(selfcontent, dict) and isinstance(othercontent, dict)
-- 
2.43.0


From acfd3d250e7b2555fda133c0d361f377f45953ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:09:25 +0000
Subject: [PATCH 23/55] fix: multiplying a histogram that has not been filled
 raised TypeError

---
 histbook/hist.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/histbook/hist.py b/histbook/hist.py
index 3cf863a..fb5b96e 100644
--- a/histbook/hist.py
+++ b/histbook/hist.py
@@ -578,6 +578,8 @@ class Hist(histbook.fill.Fillable, histbook.proj.Projectable, histbook.export.Ex
         def recurse(content):
             if isinstance(content, dict):
                 return dict((n, recurse(x)) for n, x in content.items())
+            elif content is None:
+                return None
             else:
                 return content * value
 
@@ -596,7 +598,7 @@ class Hist(histbook.fill.Fillable, histbook.proj.Projectable, histbook.export.Ex
             if isinstance(content, dict):
                 for x in content.values():
                     recurse(x)
-            else:
+            elif content is not None:
                 content *= value
 
         self._unshare()
-- 
2.43.0


From 0914b227cfe9a0f767637b8cf608f15c65790294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:09:59 +0000
Subject: [PATCH 24/55] fix: projecting out a group axis gave malformed
 contents unless the number of groups was a power of two

---
 histbook/proj.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/histbook/proj.py b/histbook/proj.py
index 6063808..08e02d7 100644
--- a/histbook/proj.py
+++ b/histbook/proj.py
@@ -261,14 +261,10 @@ class Projectable(object):
             assert len(values) != 0
             left = values[:len(values) // 2]
             right = values[len(values) // 2:]
-            if len(left) == 0:
-                return right
-            elif len(right) == 0:
-                return left
-            elif len(left) == 1 and len(right) == 1:
-                return addany(left[0], right[0])
+            if len(values) == 1:
+                return values[0]
             else:
-                return addall([addall(left)] + [addall(right)])
+                return addany(addall(left), addall(right))
             
         def projcontent(j, content):
             if j < len(self._group):
-- 
2.43.0


From dd058220b3e65ceb28f2daffcb097e9681688d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:10:03 +0000
Subject: [PATCH 25/55] fix: dropping a profile kept the wrong columns for the
 remaining profiles and for filtered histograms

---
 histbook/proj.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/histbook/proj.py b/histbook/proj.py
index 08e02d7..2017a5b 100644
--- a/histbook/proj.py
+++ b/histbook/proj.py
@@ -201,13 +201,14 @@ class Projectable(object):
         
         axis = []
         index = []
-        for i, prof in enumerate(self._profile):
+        for prof in self._profile:
             if prof not in profile:
                 axis.append(prof)
-                index.append(i)
+                index.append(prof._sumwxindex)
+                index.append(prof._sumwx2index)
 
         index.append(self._sumwindex)
-        if self._weightoriginal is not None:
+        if self._weightparsed is not None:
             index.append(self._sumw2index)
 
         slc = (slice(None),) * (len(self._shape) - 1) + (index,)
-- 
2.43.0


From a6a52d5b0b65320ad723181c606ea8a062ea32ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:10:06 +0000
Subject: [PATCH 26/55] fix: fraction raised IndexError for histograms without
 profiles

---
 histbook/proj.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/histbook/proj.py b/histbook/proj.py
index 2017a5b..226affa 100644
--- a/histbook/proj.py
+++ b/histbook/proj.py
@@ -679,7 +679,7 @@ class Projectable(object):
                 cutindex.append(self._fixed.index(c))
         cut = [self._fixed[i] for i in cutindex]
 
-        noprofiles = self.drop(*self._profile)
+        noprofiles = self.drop(*self._profile) if len(self._profile) > 0 else self
         denomhist = noprofiles.project(*[x for x in self._group + self._fixed if x not in cut])
         cuthist = []
         for c in cut:
-- 
2.43.0


From 0968c349b87b82fc8695c17fd41608088759d668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:10:10 +0000
Subject: [PATCH 27/55] fix: fraction errors were a factor of sqrt(2) too small
 without SciPy

---
 histbook/proj.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/histbook/proj.py b/histbook/proj.py
index 226affa..07553e4 100644
--- a/histbook/proj.py
+++ b/histbook/proj.py
@@ -712,7 +712,7 @@ class Projectable(object):
                 a7 = math.pi**3 * 127.0/40320.0
                 a9 = math.pi**4 * 4369.0/5806080.0
                 a11 = math.pi**5 * 34807.0/182476800.0
-                return 0.5*math.sqrt(math.pi)*(level + a3*level**3 + a5*level**5 + a7*level**7 + a9*level**9 + a11*level**11)
+                return math.sqrt(2)*0.5*math.sqrt(math.pi)*(level + a3*level**3 + a5*level**5 + a7*level**7 + a9*level**9 + a11*level**11)
             else:
                 return float(erfinv(level) * math.sqrt(2))
 
-- 
2.43.0


From f877b9061e1dc67df4ebde190e113aa92e11e997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:10:14 +0000
Subject: [PATCH 28/55] fix: selecting groups with three or more terms recursed
 forever, and selected groups shared contents with the original

---
 histbook/proj.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/histbook/proj.py b/histbook/proj.py
index 07553e4..b0f1945 100644
--- a/histbook/proj.py
+++ b/histbook/proj.py
@@ -407,7 +407,7 @@ class Projectable(object):
                             andslice = slice1
                         else:
                             slice2 = andslice
-                            andslice = lambda x: slice1(x) and slice2(x)
+                            andslice = lambda x, slice1=slice1, slice2=slice2: slice1(x) and slice2(x)
 
                     if not good:
                         break
@@ -416,7 +416,7 @@ class Projectable(object):
                     else:
                         slice1 = andslice
                         slice2 = orslice
-                        orslice = lambda x: slice1(x) or slice2(x)
+                        orslice = lambda x, slice1=slice1, slice2=slice2: slice1(x) or slice2(x)
 
                 if good:
                     return axis, axis, orslice, None, None, None
@@ -463,7 +463,7 @@ class Projectable(object):
 
             if isinstance(allaxis[i], (histbook.axis.groupby, histbook.axis.groupbin)):
                 if allaxis[i] is cutaxis:
-                    return dict((n, x) for n, x in content.items() if cutslice(n))
+                    return dict((n, self._copycontent(x)) for n, x in content.items() if cutslice(n))
                 else:
                     return dict((n, cutcontent(i + 1, x)) for n, x in content.items())
 
-- 
2.43.0


From 572f710eec77e699feaab641b415c53c7058d634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:10:51 +0000
Subject: [PATCH 29/55] fix: projecting out a group axis raised AssertionError
 when it has no groups yet

---
 histbook/proj.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/histbook/proj.py b/histbook/proj.py
index b0f1945..200fb54 100644
--- a/histbook/proj.py
+++ b/histbook/proj.py
@@ -271,6 +271,8 @@ class Projectable(object):
             if j < len(self._group):
                 if allaxis[j] in axis:
                     return dict((n, projcontent(j + 1, x)) for n, x in content.items())
+                elif len(content) == 0:
+                    return {} if any(x in axis for x in self._group[j + 1:]) else numpy.zeros(out._shape, dtype=self.COUNTTYPE)
                 else:
                     return addall([projcontent(j + 1, x) for x in content.values()])
             else:
-- 
2.43.0


From fd322501415da2cc03f39e704f3cb8561dcadd1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:10:55 +0000
Subject: [PATCH 30/55] fix: selecting only NaN values left an axis that does
 not match its contents

---
 histbook/axis.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/histbook/axis.py b/histbook/axis.py
index edb672f..ebb6775 100644
--- a/histbook/axis.py
+++ b/histbook/axis.py
@@ -714,7 +714,10 @@ class bin(FixedAxis, _RebinFactor, _RebinSplit):
         elif isinstance(value, (numbers.Real, numpy.floating, numpy.integer)) and numpy.isnan(value) and cmp == "==":
             out = self.__class__.__new__(self.__class__)
             out.__dict__.update(self.__dict__)
-            out._nanflow = False
+            out._numbins = 0
+            out._high = self._low
+            out._underflow = False
+            out._overflow = False
             out._checktot()
             return out, slice(self._numbins + (1 if self._underflow else 0) + (1 if self._overflow else 0), self._numbins + (1 if self._underflow else 0) + (1 if self._overflow else 0) + 1), None, False
 
@@ -1235,7 +1238,9 @@ class split(FixedAxis, _RebinFactor, _RebinSplit):
         elif isinstance(value, (numbers.Real, numpy.floating, numpy.integer)) and numpy.isnan(value) and cmp == "==":
             out = self.__class__.__new__(self.__class__)
             out.__dict__.update(self.__dict__)
-            out._nanflow = False
+            out._edges = self._edges[:1]
+            out._underflow = False
+            out._overflow = False
             out._checktot()
             return out, slice(len(self._edges) - 1 + (1 if self._underflow else 0) + (1 if self._overflow else 0), len(self._edges) - 1 + (1 if self._underflow else 0) + (1 if self._overflow else 0) + 1), None, False
 
-- 
2.43.0


From a87a61304ac6c626bc9910fd2fe3ee1d8a93bb25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:10:59 +0000
Subject: [PATCH 31/55] fix: selecting an intbin axis up to infinity raised
 AttributeError

---
 histbook/axis.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/histbook/axis.py b/histbook/axis.py
index ebb6775..f9e09fc 100644
--- a/histbook/axis.py
+++ b/histbook/axis.py
@@ -920,28 +920,28 @@ class intbin(FixedAxis, _RebinFactor, _RebinSplit):
             out.__dict__.update(self.__dict__)
             out._nanflow = False
             out._checktot()
-            return out, slice(0, self._numbins + (1 if self._underflow else 0) + (1 if self._overflow else 0)), None, False
+            return out, slice(0, self.numbins + (1 if self._underflow else 0) + (1 if self._overflow else 0)), None, False
 
         elif value == float("-inf") and cmp == ">":
             out = self.__class__.__new__(self.__class__)
             out.__dict__.update(self.__dict__)
             out._nanflow = False
             out._checktot()
-            return out, slice(0, self._numbins + (1 if self._underflow else 0) + (1 if self._overflow else 0)), None, False
+            return out, slice(0, self.numbins + (1 if self._underflow else 0) + (1 if self._overflow else 0)), None, False
 
         elif value == float("inf") and cmp == "<=":
             out = self.__class__.__new__(self.__class__)
             out.__dict__.update(self.__dict__)
             out._nanflow = False
             out._checktot()
-            return out, slice(0, self._numbins + (1 if self._underflow else 0) + (1 if self._overflow else 0)), None, False
+            return out, slice(0, self.numbins + (1 if self._underflow else 0) + (1 if self._overflow else 0)), None, False
 
         elif value == float("inf") and cmp == "<":
             out = self.__class__.__new__(self.__class__)
             out.__dict__.update(self.__dict__)
             out._nanflow = False
             out._checktot()
-            return out, slice(0, self._numbins + (1 if self._underflow else 0) + (1 if self._overflow else 0)), None, False
+            return out, slice(0, self.numbins + (1 if self._underflow else 0) + (1 if self._overflow else 0)), None, False
 
         elif isinstance(value, (numbers.Real, numpy.floating, numpy.integer)):
             if value + tolerance < self._min:
-- 
2.43.0


From 2d39858c5875472d15179e62623a4f545ab97a6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:11:03 +0000
Subject: [PATCH 32/55] fix: groupbin axis with NaN entries could not be listed
 or selected

---
 histbook/axis.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/histbook/axis.py b/histbook/axis.py
index f9e09fc..4cd8511 100644
--- a/histbook/axis.py
+++ b/histbook/axis.py
@@ -500,13 +500,13 @@ class groupbin(GroupAxis, _RebinFactor):
             close = round((value - float(self._origin)) / float(self._binwidth)) * float(self._binwidth) + float(self._origin)
             if abs(value - close) < tolerance:
                 if self._closedlow and cmp == "<":
-                    return self, lambda x: x < close, close, False
+                    return self, lambda x: x != "NaN" and x < close, close, False
                 elif self._closedlow and cmp == ">=":
-                    return self, lambda x: x >= close, close, False
+                    return self, lambda x: x != "NaN" and x >= close, close, False
                 elif not self._closedlow and cmp == ">":
-                    return self, lambda x: x >= close, close, False
+                    return self, lambda x: x != "NaN" and x >= close, close, False
                 elif not self._closedlow and cmp == "<=":
-                    return self, lambda x: x < close, close, False
+                    return self, lambda x: x != "NaN" and x < close, close, False
                 else:
                     return None, None, close, True
             else:
@@ -522,7 +522,7 @@ class groupbin(GroupAxis, _RebinFactor):
         """Returns (key, value) pairs of the content."""
         if not isinstance(content, dict):
             raise TypeError("groupbin content must be a dict")
-        return [IntervalPair((Interval(n, n + float(self._binwidth), closedlow=self._closedlow, closedhigh=(not self._closedlow)), content[n])) for n in sorted(content)]
+        return [IntervalPair((Interval(n, n + float(self._binwidth), closedlow=self._closedlow, closedhigh=(not self._closedlow)), content[n])) for n in sorted(n for n in content if n != "NaN")] + [IntervalPair((IntervalNaN(), content[n])) for n in content if n == "NaN"]
 
 class bin(FixedAxis, _RebinFactor, _RebinSplit):
     """
-- 
2.43.0


From 15323468aff44d0acb9ddd804ec02d556eabb58c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:11:55 +0000
Subject: [PATCH 33/55] fix: rebinby did not work for any kind of axis

---
 histbook/axis.py | 39 ++++++++++++++++++++-------------------
 histbook/proj.py |  4 ++--
 2 files changed, 22 insertions(+), 21 deletions(-)

diff --git a/histbook/axis.py b/histbook/axis.py
index 4cd8511..69030bf 100644
--- a/histbook/axis.py
+++ b/histbook/axis.py
@@ -430,33 +430,34 @@ class groupbin(GroupAxis, _RebinFactor):
     def _rebinfactor(self, factor, content, index):
         assert factor > 0
 
-        newaxis = groupbin(self._expr, float(self._binwidth) / float(factor), origin=self._origin, nanflow=self._nanflow, closedlow=self._closedlow)
+        newaxis = groupbin(self._expr, float(self._binwidth) * float(factor), origin=self._origin, nanflow=self._nanflow, closedlow=self._closedlow)
         if hasattr(self, "_original"):
             newaxis._original = self._original
         if hasattr(self, "_parsed"):
             newaxis._parsed = self._parsed
 
+        def combine(left, right):
+            if isinstance(left, dict):
+                out = dict(left)
+                for n, x in right.items():
+                    out[n] = combine(out[n], x) if n in out else x
+                return out
+            else:
+                return left + right
+
         def recurse(j, content):
             if j == index:
                 out = {}
                 for n, x in content.items():
-                    if n == "NaN":
-                        out[n] = recurse(j + 1, x)
+                    if n != "NaN" and not numpy.isinf(n):
+                        # keys are low edges, whether closedlow or not
+                        oldindex = int(round((n - float(self._origin)) / float(self._binwidth)))
+                        n = (oldindex // int(factor)) * float(newaxis._binwidth) + float(newaxis._origin)
 
+                    if n not in out:
+                        out[n] = recurse(j + 1, x)
                     else:
-                        index = (n - float(self._origin)) / float(self._binwidth)
-                        if self._closedlow:
-                            index = int(numpy.floor(index))
-                        else:
-                            index = int(numpy.ceil(index)) - 1
-
-                        index = index // int(factor)
-
-                        n = index * float(newindex._binwidth) + float(newaxis._origin)
-                        if n not in out:
-                            out[n] = recurse(j + 1, x)
-                        else:
-                            out[n] += recurse(j + 1, x)
+                        out[n] = combine(out[n], recurse(j + 1, x))
 
                 return out
                         
@@ -464,7 +465,7 @@ class groupbin(GroupAxis, _RebinFactor):
                 return dict((n, recurse(j + 1, x)) for n, x in content.items())
 
             else:
-                return content
+                return content.copy()
 
         if content is None:
             return newaxis, None
@@ -912,7 +913,7 @@ class intbin(FixedAxis, _RebinFactor, _RebinSplit):
         return self.bin()._rebinsplit(edges, content, index)
 
     def _rebinfactor(self, factor, content, index):
-        return self.bin()._rebinfactor(edges, content, index)
+        return self.bin()._rebinfactor(factor, content, index)
 
     def _select(self, cmp, value, tolerance):
         if value == float("-inf") and cmp == ">=":
@@ -1211,7 +1212,7 @@ class split(FixedAxis, _RebinFactor, _RebinSplit):
 
     def _rebinfactor(self, factor, content, index):
         assert factor > 0
-        return self._rebinsplit(self.edges[0:-1:factor] + self.edges[-1], content, index)
+        return self._rebinsplit(self.edges[0:-1:factor] + self.edges[-1:], content, index)
 
     def _select(self, cmp, value, tolerance):
         if value == float("-inf") and cmp == ">=":
diff --git a/histbook/proj.py b/histbook/proj.py
index 200fb54..7cd7d6c 100644
--- a/histbook/proj.py
+++ b/histbook/proj.py
@@ -169,9 +169,9 @@ class Projectable(object):
             raise IndexError("no such rebinnable axis: {0}".format(axis))
 
         if isinstance(axis, histbook.axis.GroupAxis):
-            newaxis, newcontent = axis._rebinsplit(factor, self._content, index)
+            newaxis, newcontent = axis._rebinfactor(factor, self._content, index)
         else:
-            newaxis, newcontent = axis._rebinsplit(factor, self._content, index - len(self._group))
+            newaxis, newcontent = axis._rebinfactor(factor, self._content, index - len(self._group))
 
         outaxis = [newaxis if i == index else x for i, x in enumerate(self._group + self._fixed + self._profile)]
         out = self.__class__(*outaxis, weight=self._weightoriginal, filter=self._filteroriginal, defs=dict(self._defs), attachment=dict(self._attachment))
-- 
2.43.0


From b10c795fc5884428156c585a3b59e3acbb7a77e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:12:22 +0000
Subject: [PATCH 34/55] fix: rebin and rebinby did not accept axis index
 positions

---
 histbook/proj.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/histbook/proj.py b/histbook/proj.py
index 7cd7d6c..2cf3446 100644
--- a/histbook/proj.py
+++ b/histbook/proj.py
@@ -110,6 +110,8 @@ class Projectable(object):
         :py:class:`Hist <histbook.hist.Hist>`
             a rebinned histogram.
         """
+        if isinstance(axis, (numbers.Integral, numpy.integer)):
+            axis = self.axis[axis]
         if not isinstance(axis, histbook.axis.Axis):
             expr = histbook.expr.Expr.parse(axis, defs=self._defs)
             for x in self._group + self._fixed:
@@ -154,6 +156,8 @@ class Projectable(object):
         if not isinstance(factor, (numbers.Integral, numpy.integer)) or factor <= 0:
             raise TypeError("factor must be a positive integer")
 
+        if isinstance(axis, (numbers.Integral, numpy.integer)):
+            axis = self.axis[axis]
         if not isinstance(axis, histbook.axis.Axis):
             expr = histbook.expr.Expr.parse(axis, defs=self._defs)
             for x in self._group + self._fixed:
-- 
2.43.0


From 88087878cf32f94edd69f9f18b8e58b8e03be1cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:12:26 +0000
Subject: [PATCH 35/55] fix: groupbin histograms did not survive a JSON round
 trip

---
 histbook/hist.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/histbook/hist.py b/histbook/hist.py
index fb5b96e..9212d4b 100644
--- a/histbook/hist.py
+++ b/histbook/hist.py
@@ -718,16 +718,20 @@ class Hist(histbook.fill.Fillable, histbook.proj.Projectable, histbook.export.Ex
     @staticmethod
     def fromjson(obj):
         assert obj["type"] == "Hist"
-        def recurse(node):
+        def key(j, n):
+            # JSON object keys are strings, but groupbin keys are numbers (except for NaN)
+            return float(n) if isinstance(out._group[j], histbook.axis.groupbin) and n != "NaN" else n
+
+        def recurse(j, node):
             if node is None:
                 return None
             elif isinstance(node, dict):
-                return dict((n, recurse(x)) for n, x in node.items())
+                return dict((key(j, n), recurse(j + 1, x)) for n, x in node.items())
             else:
                 return numpy.array(node, dtype=Hist.COUNTTYPE)
 
         out = Hist(*[histbook.axis.Axis.fromjson(x) for x in obj["axis"]], weight=obj.get("weight", None), filter=obj.get("filter", None), defs=obj.get("defs", None), attachment=obj.get("attachment", None))
-        out._content = recurse(obj.get("content", None))
+        out._content = recurse(0, obj.get("content", None))
         return out
 
     def __getstate__(self):
-- 
2.43.0


From 114ad883840a1032b631b8fbd7a92783f9f2664b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:12:57 +0000
Subject: [PATCH 36/55] fix: togroup could not be called

---
 histbook/hist.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/histbook/hist.py b/histbook/hist.py
index 9212d4b..2adc11b 100644
--- a/histbook/hist.py
+++ b/histbook/hist.py
@@ -657,7 +657,7 @@ class Hist(histbook.fill.Fillable, histbook.proj.Projectable, histbook.export.Ex
             out._content[n] = cls._copycontent(x._content)
         return out
 
-    def togroup(**hists):
+    def togroup(self, **hists):
         u"""
         Add histograms to the :py:class:`groupby <histbook.axis.groupby>` that is the first axis.
 
@@ -677,6 +677,8 @@ class Hist(histbook.fill.Fillable, histbook.proj.Projectable, histbook.export.Ex
         for x in hists.values():
             if self._group[1:] + self._fixed + self._profile != x._group + x._fixed + x._profile:
                 raise TypeError("histograms can only be grouped with the same axis specifications")
+            if self._shape != x._shape:
+                raise TypeError("histograms can only be grouped with the same weight specifications")
 
         def add(selfcontent, othercontent):
             assert isinstance(selfcontent, dict) and isinstance(othercontent, dict)
@@ -690,11 +692,10 @@ class Hist(histbook.fill.Fillable, histbook.proj.Projectable, histbook.export.Ex
                 if n not in selfcontent:
                     selfcontent[n] = Hist._copycontent(othercontent[n])
 
+        self._prefill()
         for n, x in hists.items():
-            if n in self._content:
-                add(self._content[n], other._content)
-            else:
-                self._content[n] = Hist._copycontent(other._content)
+            if x._content is not None:
+                add(self._content, {n: x._content})
 
     def tojson(self):
         out = {"type": "Hist", "axis": [x.tojson() for x in self._group + self._fixed + self._profile]}
-- 
2.43.0


From e22e2525d1a993a3051fe5a836854206b30624b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:00 +0000
Subject: [PATCH 37/55] fix: grouping filtered, unfilled, or differently
 weighted histograms made contents that do not match their axes

---
 histbook/hist.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/histbook/hist.py b/histbook/hist.py
index 2adc11b..a55cb94 100644
--- a/histbook/hist.py
+++ b/histbook/hist.py
@@ -638,14 +638,14 @@ class Hist(histbook.fill.Fillable, histbook.proj.Projectable, histbook.export.Ex
         if histbook.axis.groupby(by) in axis:
             raise ValueError("groupby({0}) already exists in these histograms; use hist.togroup(other) to add to a group".format(repr(by)))
 
-        weight = None
+        weight = hist._weightoriginal
         for x in hists.values():
-            if weight is None:
-                weight = x._weightoriginal
-            elif x._weightoriginal is None:
+            if x._shape != hist._shape:
                 raise TypeError("histograms can only be grouped with the same weight specifications")
             elif weight != x._weightoriginal:
                 weight = 1.0
+        if weight is None and hist._weightparsed is not None:
+            weight = 1.0       # filtered, and therefore has sum of squared weights
                 
         defs = {}
         for x in hists.values():
@@ -654,6 +654,9 @@ class Hist(histbook.fill.Fillable, histbook.proj.Projectable, histbook.export.Ex
         out = cls(*((histbook.axis.groupby(by),) + hist._group + hist._fixed + hist._profile), weight=weight, filter=None, defs=dict(defs), attachment=None)
         out._content = {}
         for n, x in hists.items():
+            if x._content is None:
+                x = x.cleared()
+                x._prefill()
             out._content[n] = cls._copycontent(x._content)
         return out
 
-- 
2.43.0


From 536c6cc5a59fe43b94f10e0397a1aec8e20d4f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:03 +0000
Subject: [PATCH 38/55] fix: changes to a nested book were ignored or corrupted
 the next fill of the outer book

---
 histbook/book.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/histbook/book.py b/histbook/book.py
index f9f46ea..08745e7 100644
--- a/histbook/book.py
+++ b/histbook/book.py
@@ -526,6 +526,16 @@ class Book(GenericBook, histbook.fill.Fillable):
     def _changed(self):
         self._fields = None
 
+    @property
+    def fields(self):
+        """Names of fields that must be provided in the ``fill`` method."""
+        # books in this book may have been changed without notifying this book
+        hists = list(self.itervalues(recursive=True, onlyhist=True))
+        if self._fields is None or len(hists) != len(self._filled) or any(x is not y for x, y in zip(hists, self._filled)):
+            self._fields = None
+            self._filled = hists
+        return super(Book, self).fields
+
     @property
     def _goals(self):
         return functools.reduce(set.union, (x._goals for x in self.itervalues(recursive=True, onlyhist=True)), set())
-- 
2.43.0


From efa2f12e772116a05b43a4fff7b58255dffbfa34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:43 +0000
Subject: [PATCH 39/55] fix: normalized table applied the widths of a split
 axis to the wrong dimension

---
 histbook/proj.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/histbook/proj.py b/histbook/proj.py
index 2cf3446..5d4342c 100644
--- a/histbook/proj.py
+++ b/histbook/proj.py
@@ -561,7 +561,7 @@ class Projectable(object):
 
             for i, axis in enumerate(self._fixed):
                 if callable(axis.binwidth):
-                    binwidth = numpy.array([axis.binwidth(k) for k in range(axis.numbins)])
+                    binwidth = numpy.array([axis.binwidth(k) for k in range(axis.numbins)]).reshape((-1,) + (1,)*(len(self._fixed) - i - 1))
                 else:
                     binwidth = axis.binwidth
 
-- 
2.43.0


From ea48f3f0bf51038751bbfbf0f8586f723c04ef65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:46 +0000
Subject: [PATCH 40/55] fix: filling a Book from a Spark DataFrame used an
 undefined name

---
 histbook/book.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/histbook/book.py b/histbook/book.py
index 08745e7..51faa21 100644
--- a/histbook/book.py
+++ b/histbook/book.py
@@ -32,6 +32,7 @@ import collections
 import fnmatch
 import functools
 import sys
+import threading
 
 import numpy
 
-- 
2.43.0


From 528524cf5946d6d7ad64692efd0310109cd0e722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:23:40 +0000
Subject: [PATCH 41/55] fix: intbin axis wrapped around for data with a small
 integer type

---
 histbook/calc/__init__.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/histbook/calc/__init__.py b/histbook/calc/__init__.py
index d9b5b71..327054e 100644
--- a/histbook/calc/__init__.py
+++ b/histbook/calc/__init__.py
@@ -270,8 +270,9 @@ def histbook_intbin(underflow, overflow):
         shift = 0
 
     def intbin(values, min, max):
-        # limit to one beyond the valid range before casting: out-of-range casts wrap around
-        indexes = numpy.ma.array(numpy.clip(values, min - 1, max + 1) + (shift - min), dtype=INDEXTYPE)
+        # limit to one beyond the valid range before casting: out-of-range casts wrap around (so do small integer types)
+        limited = numpy.clip(values, min - 1, max + 1).astype(numpy.result_type(values.dtype, numpy.int64))
+        indexes = numpy.ma.array(limited + (shift - min), dtype=INDEXTYPE)
 
         if underflow:
             numpy.maximum(indexes, 0, indexes)
-- 
2.43.0


From 1a722ad66d47cafa5fc56dc6be8408d58ab5f059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:34:08 +0000
Subject: [PATCH 42/55] fix: reject keyword arguments in expressions instead of
 ignoring them

---
 histbook/expr.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/histbook/expr.py b/histbook/expr.py
index a36c696..1675a24 100644
--- a/histbook/expr.py
+++ b/histbook/expr.py
@@ -318,6 +318,9 @@ class Expr(object):
                 if fcn is None:
                     raise ExpressionError("unhandled function in expression: {0}".format(histbook.util.astunparse.tostring(node).strip()))
 
+                if len(node.keywords) != 0:
+                    raise ExpressionError("functions in expressions may not have keyword arguments: {0}".format(histbook.util.astunparse.tostring(node).strip()))
+
                 return Call(fcn, *(recurse(x, relations=(i == 0 and fcn == "where")) for i, x in enumerate(node.args)))
 
             else:
-- 
2.43.0


From 7732f034f2e9bc71f4181f1c2824d00acc44dd96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:38:12 +0000
Subject: [PATCH 43/55] fix: error of a profile whose values are all equal is
 zero, not NaN from rounding

---
 histbook/proj.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/histbook/proj.py b/histbook/proj.py
index 5d4342c..69d7d5c 100644
--- a/histbook/proj.py
+++ b/histbook/proj.py
@@ -611,7 +611,7 @@ class Projectable(object):
                 out[good, outindex] = content[good, prof._sumwxindex] / sumw
                 outindex += 1
                 if error:
-                    out[good, outindex] = numpy.sqrt(((content[good, prof._sumwx2index] / sumw) - numpy.square(out[good, outindex - 1])) / effcnt)
+                    out[good, outindex] = numpy.sqrt(numpy.maximum((content[good, prof._sumwx2index] / sumw) - numpy.square(out[good, outindex - 1]), 0.0) / effcnt)
                     outindex += 1
 
             if recarray:
-- 
2.43.0


From 4da865d8e92f6cf71a5b3fb91e5c1ed136cff5cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:43:23 +0000
Subject: [PATCH 44/55] fix: selecting on a regular axis whose finite bins were
 all selected away no longer divides by zero

---
 histbook/axis.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/histbook/axis.py b/histbook/axis.py
index 69030bf..3bd9354 100644
--- a/histbook/axis.py
+++ b/histbook/axis.py
@@ -723,9 +723,12 @@ class bin(FixedAxis, _RebinFactor, _RebinSplit):
             return out, slice(self._numbins + (1 if self._underflow else 0) + (1 if self._overflow else 0), self._numbins + (1 if self._underflow else 0) + (1 if self._overflow else 0) + 1), None, False
 
         elif isinstance(value, (numbers.Real, numpy.floating, numpy.integer)):
-            scale = float(self._numbins) / float(self._high - self._low)
-            edgenum = int(round((value - float(self._low)) * scale))
-            close = min(self._numbins, max(0, edgenum)) / scale + float(self._low)
+            if self._numbins == 0:       # only flow bins left; they meet at one edge
+                edgenum, close = 0, float(self._low)
+            else:
+                scale = float(self._numbins) / float(self._high - self._low)
+                edgenum = int(round((value - float(self._low)) * scale))
+                close = min(self._numbins, max(0, edgenum)) / scale + float(self._low)
 
             if abs(value - close) < tolerance:
                 out = self.__class__.__new__(self.__class__)
-- 
2.43.0


From 8b8b21e22887e05ab55bb9f52bd03845397db9fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:14:20 +0000
Subject: [PATCH 45/55] fix: selecting on a regular axis whose bins are
 narrower than the tolerance keeps contents and bins in step

---
 histbook/axis.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/histbook/axis.py b/histbook/axis.py
index 3bd9354..c25f90c 100644
--- a/histbook/axis.py
+++ b/histbook/axis.py
@@ -727,8 +727,8 @@ class bin(FixedAxis, _RebinFactor, _RebinSplit):
                 edgenum, close = 0, float(self._low)
             else:
                 scale = float(self._numbins) / float(self._high - self._low)
-                edgenum = int(round((value - float(self._low)) * scale))
-                close = min(self._numbins, max(0, edgenum)) / scale + float(self._low)
+                edgenum = min(self._numbins, max(0, int(round((value - float(self._low)) * scale))))
+                close = edgenum / scale + float(self._low)
 
             if abs(value - close) < tolerance:
                 out = self.__class__.__new__(self.__class__)
-- 
2.43.0


From f571dc364a85573b43ef6bdee88f7d325872136a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:14:20 +0000
Subject: [PATCH 46/55] fix: select that no axis can do is refused with
 ValueError also when the axis has no closed side

---
 histbook/proj.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/histbook/proj.py b/histbook/proj.py
index 69d7d5c..b9353f7 100644
--- a/histbook/proj.py
+++ b/histbook/proj.py
@@ -430,7 +430,7 @@ class Projectable(object):
             if isinstance(axis, histbook.axis.cut) and expr == axis._parsed:
                 newaxis, cutslice, close, wrongcmp = axis._select("==", True, tolerance)
                 if newaxis is not None:
-                    return axis, newaxis, cutslice, closest, wrongcmpaxis, closestaxis
+                    return axis, newaxis, cutslice, closest, closestaxis, wrongcmpaxis
 
             if cutexpr == axis._parsed:
                 newaxis, cutslice, close, wrongcmp = axis._select(cutcmp, cutvalue, tolerance)
@@ -443,16 +443,16 @@ class Projectable(object):
                     if wrongcmp:
                         wrongcmpaxis = axis
 
-            return cutaxis, newaxis, cutslice, closest, wrongcmpaxis, closestaxis
+            return cutaxis, newaxis, cutslice, closest, closestaxis, wrongcmpaxis
 
-        cutaxis, newaxis, cutslice, closest, wrongcmpaxis, closestaxis = None, None, None, None, None, None
+        cutaxis, newaxis, cutslice, closest, closestaxis, wrongcmpaxis = None, None, None, None, None, None
         for axis in allaxis:
-            cutaxis, newaxis, cutslice, closest, wrongcmpaxis, closestaxis = logical(cutexpr, cutcmp, cutvalue, axis, cutaxis, newaxis, cutslice, closest, wrongcmpaxis, closestaxis)
+            cutaxis, newaxis, cutslice, closest, closestaxis, wrongcmpaxis = logical(cutexpr, cutcmp, cutvalue, axis, cutaxis, newaxis, cutslice, closest, closestaxis, wrongcmpaxis)
             if cutaxis is not None:
                 break
         else:
             if wrongcmpaxis is not None:
-                raise ValueError("no axis can select {0} (axis {1} has the wrong inequality; low edges are {2})".format(repr(str(expr)), wrongcmpaxis, "closed" if wrongcmpaxis.closedlow else "open"))
+                raise ValueError("no axis can select {0} (axis {1} has the wrong inequality{2})".format(repr(str(expr)), wrongcmpaxis, "; low edges are {0}".format("closed" if wrongcmpaxis.closedlow else "open") if hasattr(wrongcmpaxis, "closedlow") else ""))
             elif closestaxis is not None:
                 raise ValueError("no axis can select {0} (axis {1} has an edge at {2})".format(repr(str(expr)), closestaxis, repr(closest)))
             else:
-- 
2.43.0


From c47bbe406dc4baf26a36461559bc7d57628864d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:00:37 +0000
Subject: [PATCH 47/55] fix: an unpickled book of histograms can be filled
 again (its fill plan was that of the original)

---
 histbook/book.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/histbook/book.py b/histbook/book.py
index 51faa21..ccfb2d0 100644
--- a/histbook/book.py
+++ b/histbook/book.py
@@ -527,6 +527,15 @@ class Book(GenericBook, histbook.fill.Fillable):
     def _changed(self):
         self._fields = None
 
+    def __getstate__(self):
+        # the compiled fill plan belongs to the histograms of this process; it is rebuilt for the unpickled ones
+        return {"_content": self._content, "_attachment": self._attachment}
+
+    def __setstate__(self, state):
+        self._content = state["_content"]
+        self._attachment = state["_attachment"]
+        self._fields = None
+
     @property
     def fields(self):
         """Names of fields that must be provided in the ``fill`` method."""
-- 
2.43.0


From a1eba35dd06ab8cda2dcca321ab5713a744f5512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:10:43 +0000
Subject: [PATCH 48/55] fix: gamma, lgamma and factorial accept constants as
 well as arrays

---
 histbook/calc/__init__.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/histbook/calc/__init__.py b/histbook/calc/__init__.py
index 327054e..14483a0 100644
--- a/histbook/calc/__init__.py
+++ b/histbook/calc/__init__.py
@@ -136,10 +136,10 @@ def vectorized_gamma(logarithm):
         x = values - 1.0
         tmp = x + 5.5
         tmp = (x + 0.5)*numpy.log(tmp) - tmp
-        ser = numpy.ones(len(values), dtype=numpy.dtype(numpy.float64))
+        ser = 1.0
         for cof in cofs:
-            numpy.add(x, 1.0, x)
-            numpy.add(ser, cof/x, ser)
+            x = x + 1.0
+            ser = ser + cof/x
         return tmp + numpy.log(stp*ser)
     if logarithm:
         return lgamma
-- 
2.43.0


From 5b1ebbda8ab9c426b0ecccaf6fe770c41ea6da5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:44:29 +0000
Subject: [PATCH 49/55] fix: error bars of combined plots drew the rows of the
 other plots too

---
 histbook/vega.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/histbook/vega.py b/histbook/vega.py
index 8b37bbe..975472c 100644
--- a/histbook/vega.py
+++ b/histbook/vega.py
@@ -1040,7 +1040,7 @@ class beside(Combination):
                 if len(marks) == 1:
                     tofill.append(plotable._options({"mark": marks[0], "encoding": encodings[0], "transform": transforms[0] + thislayer}, config=False))
                 else:
-                    tofill.append({"layer": [plotable._options({"mark": m, "encoding": e, "transform": t}, config=False) for m, e, t in zip(marks, encodings, transforms)]})
+                    tofill.append({"layer": [plotable._options({"mark": m, "encoding": e, "transform": t + thislayer}, config=False) for m, e, t in zip(marks, encodings, transforms)]})
                 i += 1
 
         return i
@@ -1081,7 +1081,7 @@ class below(Combination):
                 if len(marks) == 1:
                     tofill.append(plotable._options({"mark": marks[0], "encoding": encodings[0], "transform": transforms[0] + thislayer}, config=False))
                 else:
-                    tofill.append({"layer": [plotable._options({"mark": m, "encoding": e, "transform": t}, config=False) for m, e, t in zip(marks, encodings, transforms)]})
+                    tofill.append({"layer": [plotable._options({"mark": m, "encoding": e, "transform": t + thislayer}, config=False) for m, e, t in zip(marks, encodings, transforms)]})
                 i += 1
 
         return i
@@ -1123,7 +1123,7 @@ class grid(Combination):
                     tofill[-1]["hconcat"].append(plotable._options({"mark": marks[0], "encoding": encodings[0], "transform": transforms[0] + thislayer}, config=False))
 
                 else:
-                    tofill[-1]["hconcat"].append({"layer": [plotable._options({"mark": m, "encoding": e, "transform": t}, config=False) for m, e, t in zip(marks, encodings, transforms)]})
+                    tofill[-1]["hconcat"].append({"layer": [plotable._options({"mark": m, "encoding": e, "transform": t + thislayer}, config=False) for m, e, t in zip(marks, encodings, transforms)]})
 
                 i += 1
 
-- 
2.43.0


From 3a3fa68e6c8976e00433718c2fb44f0268755e2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:45:02 +0000
Subject: [PATCH 50/55] fix: ROOT histograms of split axes had equally wide
 bins, and integer axes could not be exported

---
 histbook/export.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/histbook/export.py b/histbook/export.py
index fe38c83..86bcd60 100644
--- a/histbook/export.py
+++ b/histbook/export.py
@@ -252,9 +252,15 @@ class Exportable(object):
 
         elif len(binaxis) == 1:
             xaxis = binaxis[0]
+            if isinstance(xaxis, histbook.axis.intbin):
+                xaxis = xaxis.bin()
+            if isinstance(xaxis, histbook.axis.split):
+                binning = (xaxis.numbins, numpy.array(xaxis.edges, dtype=numpy.float64))
+            else:
+                binning = (xaxis.numbins, xaxis.low, xaxis.high)
 
             if profile is None:
-                out = ROOT.TH1D(name, title, xaxis.numbins, xaxis.low, xaxis.high)
+                out = ROOT.TH1D(name, title, *binning)
 
                 entries = numpy.zeros(xaxis.numbins + 2, dtype=numpy.float64)
                 entries[(0 if xaxis.underflow else 1) : (None if xaxis.overflow else -1)] = content["count()"][: (-1 if xaxis.nanflow else None)]
@@ -267,7 +273,7 @@ class Exportable(object):
                     out.SetError(errors)
 
             else:
-                out = ROOT.TProfile(name, title, xaxis.numbins, xaxis.low, xaxis.high)
+                out = ROOT.TProfile(name, title, *binning)
 
                 entries = numpy.zeros(xaxis.numbins + 2, dtype=numpy.float64)
                 entries[(0 if xaxis.underflow else 1) : (None if xaxis.overflow else -1)] = content[content.dtype.names[0]][: (-1 if xaxis.nanflow else None)]
-- 
2.43.0


From 34cc05b0ebd8ab91c9a9c6defbd7a9f3af8bc36e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:45:23 +0000
Subject: [PATCH 51/55] fix: colours of overlaid and stacked cut and integer
 axes were declared for other labels than the data's

---
 histbook/vega.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/histbook/vega.py b/histbook/vega.py
index 975472c..369414c 100644
--- a/histbook/vega.py
+++ b/histbook/vega.py
@@ -515,6 +515,13 @@ class Plotable1d(PlotableFrontends):
     def _last(self):
         return self._chain[-1]
 
+    @staticmethod
+    def _label(key):
+        if isinstance(key, (bool, numpy.bool_)):
+            return "pass" if key else "fail"
+        else:
+            return str(key)
+
     def _data(self, prefix, varname):
         error = self._last.error
         baseline = isinstance(self._last, (StepChannel, AreaChannel))
@@ -560,10 +567,11 @@ class Plotable1d(PlotableFrontends):
                 axis = projectedorder[j]
                 if axis not in domains:
                     domains[axis] = set()
-                domains[axis].update(axis.keys(content))
+                domain = domains[axis]
 
                 if isinstance(axis, histbook.axis.intbin):
                     axis = axis.bin()
+                domain.update(axis.keys(content))
 
                 for i, (n, x) in enumerate(axis.items(content)):
                     if isinstance(n, histbook.axis.Interval):
@@ -653,12 +661,12 @@ class Plotable1d(PlotableFrontends):
                     "y": {"field": varname + str(len(axis)), "type": "quantitative", "axis": {"title": ytitle}}}
         for channel in self._chain[:-1]:
             if isinstance(channel, OverlayChannel):
-                overlayorder = [str(x) for x in sorted(domains[channel.axis])]
+                overlayorder = [self._label(x) for x in sorted(domains[channel.axis])]
                 encoding["color"] = {"field": varname + str(axis.index(channel.axis)), "type": "nominal", "legend": {"title": channel.axis.expr}, "scale": {"domain": overlayorder}}
 
             elif isinstance(channel, StackChannel):
                 if channel.order is None:
-                    stackorder = [str(x) for x in sorted(domains[channel.axis])]
+                    stackorder = [self._label(x) for x in sorted(domains[channel.axis])]
                 else:
                     stackorder = channel.order
                 encoding["color"] = {"field": varname + str(axis.index(channel.axis)), "type": "nominal", "legend": {"title": channel.axis.expr}, "scale": {"domain": list(reversed(stackorder))}}
@@ -794,10 +802,11 @@ class Plotable2d(PlotableFrontends):
                 axis = projectedorder[j]
                 if axis not in domains:
                     domains[axis] = set()
-                domains[axis].update(axis.keys(content))
+                domain = domains[axis]
 
                 if isinstance(axis, histbook.axis.intbin):
                     axis = axis.bin()
+                domain.update(axis.keys(content))
 
                 for i, (n, x) in enumerate(axis.items(content)):
                     if isinstance(n, histbook.axis.Interval):
-- 
2.43.0


From 3eca488caa5cf3ce86520220220ae0c5278cee8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:45:23 +0000
Subject: [PATCH 52/55] fix: heatmaps with an integer vertical axis raised
 AttributeError

---
 histbook/vega.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/histbook/vega.py b/histbook/vega.py
index 369414c..a004c66 100644
--- a/histbook/vega.py
+++ b/histbook/vega.py
@@ -843,7 +843,7 @@ class Plotable2d(PlotableFrontends):
             ybin = {"extent": [self._last.yaxis.low, self._last.yaxis.high], "minstep": self._last.yaxis.binwidth, "maxbins": self._last.yaxis.numbins + 1, "nice": False}
         elif isinstance(self._last.yaxis, histbook.axis.intbin):
             ytype = "quantitative"
-            ybin = {"extent": [self._last.yaxis.min - 0.5, self._last.yaxis.may + 0.5], "minstep": self._last.yaxis.binwidth, "maxbins": self._last.yaxis.numbins + 1, "nice": False}
+            ybin = {"extent": [self._last.yaxis.min - 0.5, self._last.yaxis.max + 0.5], "minstep": self._last.yaxis.binwidth, "maxbins": self._last.yaxis.numbins + 1, "nice": False}
         elif isinstance(self._last.yaxis, histbook.axis.split):
             raise NotImplementedError("Vega-Lite doesn't support heatmaps of explicit axis splitting (yet?)")
         else:
-- 
2.43.0


From 3287c38c4239b73f4455aeb80972d7ca735bf800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:45:50 +0000
Subject: [PATCH 53/55] fix: plots of histograms without groups yet raised
 KeyError for their colours

---
 histbook/vega.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/histbook/vega.py b/histbook/vega.py
index a004c66..6ae273b 100644
--- a/histbook/vega.py
+++ b/histbook/vega.py
@@ -548,7 +548,7 @@ class Plotable1d(PlotableFrontends):
         lastj = projectedorder.index(self._last.axis)
 
         data = []
-        domains = {}
+        domains = dict((x, set()) for x in projectedorder)
         if error and baseline:
             shifts = {}
 
@@ -565,8 +565,6 @@ class Plotable1d(PlotableFrontends):
 
             else:
                 axis = projectedorder[j]
-                if axis not in domains:
-                    domains[axis] = set()
                 domain = domains[axis]
 
                 if isinstance(axis, histbook.axis.intbin):
@@ -655,7 +653,7 @@ class Plotable1d(PlotableFrontends):
             elif len(values) > 1:
                 return "if(datum.{0} === {1}, {2}, {3})".format(var, repr(values[0]), i, makeorder(i + 1, var, values[1:]))
             else:
-                raise AssertionError(values)
+                return str(i)
 
         encoding = {"x": {"field": varname + str(axis.index(self._last.axis)), "type": xtype, "scale": {"zero": False}, "axis": {"title": xtitle}},
                     "y": {"field": varname + str(len(axis)), "type": "quantitative", "axis": {"title": ytitle}}}
@@ -788,7 +786,7 @@ class Plotable2d(PlotableFrontends):
         lastj = (projectedorder.index(self._last.xaxis), projectedorder.index(self._last.yaxis))
         
         data = []
-        domains = {}
+        domains = dict((x, set()) for x in projectedorder)
 
         def recurse(j, content, row):
             if j == len(projectedorder):
@@ -800,8 +798,6 @@ class Plotable2d(PlotableFrontends):
 
             else:
                 axis = projectedorder[j]
-                if axis not in domains:
-                    domains[axis] = set()
                 domain = domains[axis]
 
                 if isinstance(axis, histbook.axis.intbin):
-- 
2.43.0


From 52b19231bdb77a97bb232c15c616273b6c2ffdb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:47:06 +0000
Subject: [PATCH 54/55] fix: Pandas export of fractions over all the fixed axes
 lost its numbers

---
 histbook/export.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/histbook/export.py b/histbook/export.py
index 86bcd60..9146ba6 100644
--- a/histbook/export.py
+++ b/histbook/export.py
@@ -73,7 +73,7 @@ class Exportable(object):
 
         def index(j, content, key):
             if j == len(allaxis):
-                if len(self._fixed) == 0:
+                if content is not None:
                     arrays.append(numpy.array([content]))
 
                 for j, k in enumerate(key):
-- 
2.43.0


From 8f05841ab175bc4a974ddcbd7b99bf8ce5a326c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:48:29 +0000
Subject: [PATCH 55/55] fix: Pandas export of groupbin axes with NaN entries
 raised TypeError

---
 histbook/export.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/histbook/export.py b/histbook/export.py
index 9146ba6..d878535 100644
--- a/histbook/export.py
+++ b/histbook/export.py
@@ -89,7 +89,7 @@ class Exportable(object):
 
                 elif isinstance(axis, histbook.axis.groupbin):
                     closed = "left" if axis.closedlow else "right"
-                    for n in sorted(content):
+                    for n in sorted(content, key=lambda n: (n == "NaN", n)):
                         if n == "NaN":
                             index(j + 1, content[n], key + ("{NaN}",))
                         else:
-- 
2.43.0

