From d962e2698f0fa0a935d3e61229f71b487e70a11c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:58 +0000
Subject: [PATCH 01/54] fix: prp-key compares all the keys, the last one
 included

---
 owlrl/OWLRL.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/owlrl/OWLRL.py b/owlrl/OWLRL.py
index 33f1b63..0abd84a 100755
--- a/owlrl/OWLRL.py
+++ b/owlrl/OWLRL.py
@@ -610,7 +610,7 @@ class OWLRL_Semantics(Core):
                             # 'calculate' the keys for the y values and see if there is a match
                             for vals in valueList:
                                 same = True
-                                for i in range(0, len(pis) - 1):
+                                for i in range(0, len(pis)):
                                     if (y, pis[i], vals[i]) not in self.graph:
                                         same = False
                                         # No use going with this property line
-- 
2.43.0


From b48967bbfd195ec031dca02c36c6c70f20acc51f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:58 +0000
Subject: [PATCH 02/54] fix: eq-diff2/eq-diff3 also compare the last member of
 an AllDifferent list

---
 owlrl/OWLRL.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/owlrl/OWLRL.py b/owlrl/OWLRL.py
index 0abd84a..e7fff4b 100755
--- a/owlrl/OWLRL.py
+++ b/owlrl/OWLRL.py
@@ -424,7 +424,7 @@ class OWLRL_Semantics(Core):
                 zis = self._list(y)
                 for i in range(0, len(zis) - 1):
                     zi = zis[i]
-                    for j in range(i + 1, len(zis) - 1):
+                    for j in range(i + 1, len(zis)):
                         zj = zis[j]
                         if (
                             (zi, OWL.sameAs, zj) in self.graph
-- 
2.43.0


From 61e8ae59faaaa9c4cd8a472fd659d4d7966c061d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:58 +0000
Subject: [PATCH 03/54] fix: prp-adp also compares the last member of an
 AllDisjointProperties list

---
 owlrl/OWLRL.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/owlrl/OWLRL.py b/owlrl/OWLRL.py
index e7fff4b..f288010 100755
--- a/owlrl/OWLRL.py
+++ b/owlrl/OWLRL.py
@@ -520,7 +520,7 @@ class OWLRL_Semantics(Core):
                     pis = self._list(y)
                     for i in range(0, len(pis) - 1):
                         pi = pis[i]
-                        for j in range(i + 1, len(pis) - 1):
+                        for j in range(i + 1, len(pis)):
                             pj = pis[j]
                             for x, y in self.graph.subject_objects(pi):
                                 if (x, pj, y) in self.graph:
-- 
2.43.0


From b4584f7f65e51ced7d16c3323c0de0018ba1fe9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:58 +0000
Subject: [PATCH 04/54] fix: cls-com error message names the element, not the
 class

---
 owlrl/OWLRL.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/owlrl/OWLRL.py b/owlrl/OWLRL.py
index f288010..e465efb 100755
--- a/owlrl/OWLRL.py
+++ b/owlrl/OWLRL.py
@@ -687,7 +687,7 @@ class OWLRL_Semantics(Core):
                 if (x1, RDF.type, c2) in self.graph:
                     self.add_error(
                         "Violation of complementarity for classes %s and %s on element %s"
-                        % (c1, c2, x)
+                        % (c1, c2, x1)
                     )
 
         # RULES cls-svf1 and cls=svf2
-- 
2.43.0


From 09471fd67f66748b9a0253ee4caaa228866a45eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:50 +0000
Subject: [PATCH 05/54] fix: a max (qualified) cardinality that is not a number
 does not break the closure

---
 owlrl/OWLRL.py | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/owlrl/OWLRL.py b/owlrl/OWLRL.py
index e465efb..e4b9db6 100755
--- a/owlrl/OWLRL.py
+++ b/owlrl/OWLRL.py
@@ -32,6 +32,7 @@ __contact__ = "Ivan Herman, ivan@w3.org"
 __license__ = "W3C® SOFTWARE NOTICE AND LICENSE, http://www.w3.org/Consortium/Legal/2002/copyright-software-20021231"
 
 from collections import defaultdict
+from decimal import Decimal
 from typing import Union
 
 import rdflib
@@ -124,6 +125,19 @@ class OWLRL_Semantics(Core):
         """
         return [ch for ch in self.graph.items(l)]
 
+    @staticmethod
+    def _cardinality(x):
+        """
+        Value of a cardinality restriction.
+
+        @param x: RDFLib resource, the object of (the qualified) max cardinality
+        @return: the value, None if the resource is not a literal with a (comparable) value
+        """
+        value = x.value if isinstance(x, rdflib.Literal) else None
+        if isinstance(value, Decimal) and not value.is_finite():
+            return None
+        return value
+
     def post_process(self):
         """
         Remove triples with Bnode predicates. The Bnodes in the graph are collected in the first cycle run.
@@ -733,7 +747,8 @@ class OWLRL_Semantics(Core):
             # The construct should lead to an integer. Something may go wrong along the line
             # leading to an exception...
             xx = c
-            if x.value == 0:
+            cardinality = self._cardinality(x)
+            if cardinality == 0:
                 # RULE cls-maxc1
                 for pp in self.graph.objects(xx, OWL.onProperty):
                     for u, y in self.graph.subject_objects(pp):
@@ -743,7 +758,7 @@ class OWLRL_Semantics(Core):
                                 "Erroneous usage of maximum cardinality with %s and %s"
                                 % (xx, y)
                             )
-            elif x.value == 1:
+            elif cardinality == 1:
                 # RULE cls-maxc2
                 for pp in self.graph.objects(xx, OWL.onProperty):
                     for u, y1 in self.graph.subject_objects(pp):
@@ -760,7 +775,8 @@ class OWLRL_Semantics(Core):
             # The construct should lead to an integer. Something may go wrong along the line
             # leading to an exception...
             xx = c
-            if x.value == 0:
+            cardinality = self._cardinality(x)
+            if cardinality == 0:
                 # RULES cls-maxqc1 and cls-maxqc2 folded in one
                 for pp in self.graph.objects(xx, OWL.onProperty):
                     for cc in self.graph.objects(xx, OWL.onClass):
@@ -773,7 +789,7 @@ class OWLRL_Semantics(Core):
                                     "Erroneous usage of maximum qualified cardinality with %s, %s and %s"
                                     % (xx, cc, y)
                                 )
-            elif x.value == 1:
+            elif cardinality == 1:
                 # RULE cls-maxqc3 and cls-maxqc4 folded in one
                 for pp in self.graph.objects(xx, OWL.onProperty):
                     for cc in self.graph.objects(xx, OWL.onClass):
-- 
2.43.0


From 3788fbe68cd5b4a4bc8287ab76d95ec00ccb7489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:50 +0000
Subject: [PATCH 06/54] fix: a circular rdf:List does not break the closure

---
 owlrl/OWLRL.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/owlrl/OWLRL.py b/owlrl/OWLRL.py
index e4b9db6..1a29cca 100755
--- a/owlrl/OWLRL.py
+++ b/owlrl/OWLRL.py
@@ -123,7 +123,14 @@ class OWLRL_Semantics(Core):
         @param l: RDFLib resource, should be the head of an rdf:List
         @return: array of resources
         """
-        return [ch for ch in self.graph.items(l)]
+        retval = []
+        try:
+            for ch in self.graph.items(l):
+                retval.append(ch)
+        except ValueError:
+            # RDFLib has found a cell for the second time: the list is circular, its members end here
+            pass
+        return retval
 
     @staticmethod
     def _cardinality(x):
-- 
2.43.0


From d620e79a4f22e9cc81766830ce93360dd46983da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:45 +0000
Subject: [PATCH 07/54] fix: xsd:decimal accepts exactly its lexical forms,
 with ValueError for all the others

---
 owlrl/DatatypeHandling.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/owlrl/DatatypeHandling.py b/owlrl/DatatypeHandling.py
index 19b3531..0186ea7 100755
--- a/owlrl/DatatypeHandling.py
+++ b/owlrl/DatatypeHandling.py
@@ -125,8 +125,8 @@ def _strToDecimal(v):
     @raise ValueError: invalid decimal value
     """
     # check whether the lexical form of 'v' is o.k.
-    if v.find("E") != -1 or v.find("e") != -1:
-        # this is an invalid lexical form, though would be accepted by Python
+    if re.fullmatch(r"[+-]?([0-9]+(\.[0-9]*)?|\.[0-9]+)", v) is None:
+        # this is an invalid lexical form, though some would be accepted by Python
         raise ValueError("Invalid decimal literal value %s" % v)
     else:
         return Decimal(v)
-- 
2.43.0


From 24a80d3813950438cd1e598080cdf8d372205940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:45 +0000
Subject: [PATCH 08/54] fix: integer datatypes do not accept underscores and
 other Python-only forms

---
 owlrl/DatatypeHandling.py | 37 ++++++++++++++++++++++++-------------
 1 file changed, 24 insertions(+), 13 deletions(-)

diff --git a/owlrl/DatatypeHandling.py b/owlrl/DatatypeHandling.py
index 0186ea7..fe5ba7d 100755
--- a/owlrl/DatatypeHandling.py
+++ b/owlrl/DatatypeHandling.py
@@ -243,6 +243,17 @@ _limits_nonNegativeInteger = [-1, None]
 _limits_negativeInteger = [None, 0]
 
 
+def _strToInteger(v):
+    """Python's own conversion is too lax, because it also accepts underscores, white spaces, etc.
+    @param v: the literal string to be converted
+    @return int
+    @raise ValueError: invalid value
+    """
+    if re.fullmatch(r"[+-]?[0-9]+", v) is None:
+        raise ValueError("Invalid integer literal value %s" % v)
+    return int(v)
+
+
 # noinspection PyPep8Naming,PyBroadException
 def _strToBoundNumeral(v, interval, conversion):
     """Test (and convert) a generic numerical type, with a check against a lower and upper limit.
@@ -646,27 +657,27 @@ AltXSDToPYTHON = {
     XSD.base64Binary: _strToBase64Binary,
     XSD.double: _strToDouble,
     XSD.float: _strToFloat,
-    XSD.byte: lambda v: _strToBoundNumeral(v, _limits_byte, int),
-    XSD.int: lambda v: _strToBoundNumeral(v, _limits_int, int),
-    XSD.long: lambda v: _strToBoundNumeral(v, _limits_long, int),
-    XSD.positiveInteger: lambda v: _strToBoundNumeral(v, _limits_positiveInteger, int),
+    XSD.byte: lambda v: _strToBoundNumeral(v, _limits_byte, _strToInteger),
+    XSD.int: lambda v: _strToBoundNumeral(v, _limits_int, _strToInteger),
+    XSD.long: lambda v: _strToBoundNumeral(v, _limits_long, _strToInteger),
+    XSD.positiveInteger: lambda v: _strToBoundNumeral(v, _limits_positiveInteger, _strToInteger),
     XSD.nonPositiveInteger: lambda v: _strToBoundNumeral(
-        v, _limits_nonPositiveInteger, int
+        v, _limits_nonPositiveInteger, _strToInteger
     ),
-    XSD.negativeInteger: lambda v: _strToBoundNumeral(v, _limits_negativeInteger, int),
+    XSD.negativeInteger: lambda v: _strToBoundNumeral(v, _limits_negativeInteger, _strToInteger),
     XSD.nonNegativeInteger: lambda v: _strToBoundNumeral(
-        v, _limits_nonNegativeInteger, int
+        v, _limits_nonNegativeInteger, _strToInteger
     ),
-    XSD.short: lambda v: _strToBoundNumeral(v, _limits_short, int),
-    XSD.unsignedByte: lambda v: _strToBoundNumeral(v, _limits_unsignedByte, int),
-    XSD.unsignedShort: lambda v: _strToBoundNumeral(v, _limits_unsignedShort, int),
-    XSD.unsignedInt: lambda v: _strToBoundNumeral(v, _limits_unsignedInt, int),
-    XSD.unsignedLong: lambda v: _strToBoundNumeral(v, _limits_unsignedLong, int),
+    XSD.short: lambda v: _strToBoundNumeral(v, _limits_short, _strToInteger),
+    XSD.unsignedByte: lambda v: _strToBoundNumeral(v, _limits_unsignedByte, _strToInteger),
+    XSD.unsignedShort: lambda v: _strToBoundNumeral(v, _limits_unsignedShort, _strToInteger),
+    XSD.unsignedInt: lambda v: _strToBoundNumeral(v, _limits_unsignedInt, _strToInteger),
+    XSD.unsignedLong: lambda v: _strToBoundNumeral(v, _limits_unsignedLong, _strToInteger),
     XSD.hexBinary: _strToHexBinary,
     XSD.dateTime: lambda v: _strToDateTimeAndStamp(v, False),
     XSD.dateTimeStamp: lambda v: _strToDateTimeAndStamp(v, True),
     RDF.XMLLiteral: _strToXMLLiteral,
-    XSD.integer: int,
+    XSD.integer: _strToInteger,
     XSD.string: lambda v: v,
     RDF.HTML: lambda v: v,
     XSD.normalizedString: lambda v: _strToVal_Regexp(v, _re_token),
-- 
2.43.0


From b0d4f341745413058c6f2012648f03899385c9e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:45 +0000
Subject: [PATCH 09/54] fix: xsd:boolean is case sensitive

---
 owlrl/DatatypeHandling.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/owlrl/DatatypeHandling.py b/owlrl/DatatypeHandling.py
index fe5ba7d..c889ebb 100755
--- a/owlrl/DatatypeHandling.py
+++ b/owlrl/DatatypeHandling.py
@@ -105,9 +105,9 @@ def _strToBool(v):
     @return corresponding boolean value
     @raise ValueError: invalid boolean values
     """
-    if v.lower() == "true" or v.lower() == "1":
+    if v == "true" or v == "1":
         return True
-    elif v.lower() == "false" or v.lower() == "0":
+    elif v == "false" or v == "0":
         return False
     else:
         raise ValueError("Invalid boolean literal value %s" % v)
-- 
2.43.0


From df58154b93ad0f0edbefbec9afb90af44769cefe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:45 +0000
Subject: [PATCH 10/54] fix: xsd:double and xsd:float accept 0, INF, -INF and
 NaN, and only their own lexical forms

---
 owlrl/DatatypeHandling.py | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/owlrl/DatatypeHandling.py b/owlrl/DatatypeHandling.py
index c889ebb..de16678 100755
--- a/owlrl/DatatypeHandling.py
+++ b/owlrl/DatatypeHandling.py
@@ -274,6 +274,20 @@ def _strToBoundNumeral(v, interval, conversion):
 
 
 # Double and float ##################################################
+# noinspection PyPep8Naming
+def _strToDecimalOrSpecial(v):
+    """Convert the lexical form of a double or float, including the special values, into a Decimal.
+    @param v: the literal string defined as a double or a float
+    @return Decimal
+    @raise ValueError: invalid value
+    """
+    if v in ("INF", "+INF", "-INF", "NaN"):
+        return Decimal(v)
+    if re.fullmatch(r"[+-]?([0-9]+(\.[0-9]*)?|\.[0-9]+)([Ee][+-]?[0-9]+)?", v) is None:
+        raise ValueError("Invalid double or float %s" % v)
+    return Decimal(v)
+
+
 # noinspection PyPep8Naming
 def _strToDouble(v):
     """Test and convert a double value into a Decimal or float. Raises an exception if the number is outside the
@@ -286,10 +300,10 @@ def _strToDouble(v):
     @raise ValueError: invalid value
     """
     try:
-        value = Decimal(v)
+        value = _strToDecimalOrSpecial(v)
         upper = Decimal("1.0E+310")
         lower = Decimal("1.0E-330")
-        if lower < abs(value) < upper:
+        if not value.is_finite() or value == 0 or lower < abs(value) < upper:
             # bingo
             return value
         else:
@@ -309,10 +323,10 @@ def _strToFloat(v):
     @raise ValueError: invalid value
     """
     try:
-        value = Decimal(v)
+        value = _strToDecimalOrSpecial(v)
         upper = Decimal("1.0E+40")
         lower = Decimal("1.0E-50")
-        if lower < abs(value) < upper:
+        if not value.is_finite() or value == 0 or lower < abs(value) < upper:
             # bingo
             return value
         else:
-- 
2.43.0


From 04ab2c28742f9f5f2f624eca274be6f69983f981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:45 +0000
Subject: [PATCH 11/54] fix: xsd:hexBinary is checked, and converted to bytes

---
 owlrl/DatatypeHandling.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/owlrl/DatatypeHandling.py b/owlrl/DatatypeHandling.py
index de16678..a7ba484 100755
--- a/owlrl/DatatypeHandling.py
+++ b/owlrl/DatatypeHandling.py
@@ -339,16 +339,15 @@ def _strToFloat(v):
 # hexa ##################################################
 # noinspection PyPep8Naming
 def _strToHexBinary(v):
-    """Test (and convert) hexa integer values. The number of characters should be even.
+    """Test (and convert) hexa binary values. The number of characters should be even.
     @param v: the literal string defined as a hexa number
-    @return long value
+    @return the decoded (binary) content
     @raise ValueError: invalid value
     """
-    # first of all, the number of characters must be even according to the xsd spec:
-    length = len(v)
-    if (length / 2) * 2 != length:
+    # the number of characters must be even according to the xsd spec:
+    if re.fullmatch(r"([0-9a-fA-F]{2})*", v) is None:
         raise ValueError("Invalid hex binary number %s" % v)
-    return int(v, 16)
+    return bytes.fromhex(v)
 
 
 # Datetime, date timestamp, etc ################################
-- 
2.43.0


From 913423a7a541a9c3010edfbb8ceaa7ef029d8e0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:45 +0000
Subject: [PATCH 12/54] fix: xsd:base64Binary accepts the empty string and
 refuses misplaced padding

---
 owlrl/DatatypeHandling.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/owlrl/DatatypeHandling.py b/owlrl/DatatypeHandling.py
index a7ba484..1daf6a7 100755
--- a/owlrl/DatatypeHandling.py
+++ b/owlrl/DatatypeHandling.py
@@ -175,6 +175,16 @@ def _strToAnyURI(v):
 
 
 # Base64Binary ##################################################
+# lexical space, as defined by XML Schema
+_re_base64 = re.compile(
+    r"(([A-Za-z0-9+/] ?){4})*"
+    r"(([A-Za-z0-9+/] ?){3}[A-Za-z0-9+/]"
+    r"|([A-Za-z0-9+/] ?){2}[AEIMQUYcgkosw048] ?="
+    r"|[A-Za-z0-9+/] ?[AQgw] ?= ?=)"
+    r"|"
+)
+
+
 # noinspection PyPep8Naming
 def _strToBase64Binary(v):
     """Rudimentary test for the base64Binary value. The problem is that the built-in b64 module functions ignore the
@@ -185,13 +195,9 @@ def _strToBase64Binary(v):
     """
     import base64
 
-    if v.replace("=", "x").replace("+", "y").replace("/", "z").isalnum():
-        try:
-            return base64.standard_b64decode(v)
-        except:
-            raise ValueError("Invalid Base64Binary %s" % v)
-    else:
+    if _re_base64.fullmatch(v) is None:
         raise ValueError("Invalid Base64Binary %s" % v)
+    return base64.standard_b64decode(v.replace(" ", ""))
 
 
 # Numerical types ##################################################
-- 
2.43.0


From 599e1bafff74153a3f77b0553ff692c8cf259eda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:45 +0000
Subject: [PATCH 13/54] fix: the empty string is a valid xsd:normalizedString

---
 owlrl/DatatypeHandling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/owlrl/DatatypeHandling.py b/owlrl/DatatypeHandling.py
index 1daf6a7..0cdaf1a 100755
--- a/owlrl/DatatypeHandling.py
+++ b/owlrl/DatatypeHandling.py
@@ -609,7 +609,7 @@ def _strToVal_Regexp(v, regexp, flag=0, excludeStart=[]):
 
 
 # Disallowed characters in a token or a normalized string, as a regexp
-_re_token = "[^\n\t\r]+"
+_re_token = "[^\n\t\r]*"
 
 
 # noinspection PyPep8Naming
-- 
2.43.0


From 50c89ec8063b77439d19d8b370ee3956aaad2865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:45 +0000
Subject: [PATCH 14/54] fix: only the space character is restricted in an
 xsd:token, not all Unicode spaces

---
 owlrl/DatatypeHandling.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/owlrl/DatatypeHandling.py b/owlrl/DatatypeHandling.py
index 0cdaf1a..4ba450f 100755
--- a/owlrl/DatatypeHandling.py
+++ b/owlrl/DatatypeHandling.py
@@ -623,10 +623,8 @@ def _strToToken(v):
         return v
     # filter out the case when there are new lines and similar (if there is a problem, an exception is raised)
     _strToVal_Regexp(v, _re_token)
-    v1 = " ".join(v.strip().split())
-    # normalize the string, and see if the result is the same:
-    if len(v1) == len(v):
-        # no characters lost, ie, no unnecessary spaces
+    if not (v.startswith(" ") or v.endswith(" ") or "  " in v):
+        # no unnecessary spaces
         return v
     else:
         raise ValueError("Invalid literal %s" % v)
-- 
2.43.0


From b491e409ed2c96172d27ab2a8e8f652091d9c719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:45 +0000
Subject: [PATCH 15/54] fix: rdf:PlainLiteral may contain line breaks

---
 owlrl/DatatypeHandling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/owlrl/DatatypeHandling.py b/owlrl/DatatypeHandling.py
index 4ba450f..b53c864 100755
--- a/owlrl/DatatypeHandling.py
+++ b/owlrl/DatatypeHandling.py
@@ -640,7 +640,7 @@ def _strToPlainLiteral(v):
     """
     reg = "(.*)@([^@]*)"
     # a plain literal must match this regexp!
-    match = re.match(reg, v)
+    match = re.fullmatch(reg, v, re.DOTALL)
     if match is None:
         raise ValueError("Invalid plain literal %s" % v)
     else:
-- 
2.43.0


From 07d0af1548cf9b99c02f86c3df05274197b0edb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:45 +0000
Subject: [PATCH 16/54] fix: an xsd:anyURI may consist of a query only

---
 owlrl/DatatypeHandling.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/owlrl/DatatypeHandling.py b/owlrl/DatatypeHandling.py
index b53c864..8fee858 100755
--- a/owlrl/DatatypeHandling.py
+++ b/owlrl/DatatypeHandling.py
@@ -155,7 +155,7 @@ def _strToAnyURI(v):
         return v
     else:
         # this is meant to be a relative URI.
-        # If I am correct, that cannot begin with one or more "?" or ":" characters
+        # If I am correct, that cannot begin with one or more ":" characters
         # all others are o.k.
         # if it begins with a % then it should be followed by two hexa characters,
         # otherwise it is also a bug
@@ -168,7 +168,7 @@ def _strToAnyURI(v):
                 return v
             else:
                 raise ValueError("Invalid IRI %s" % v)
-        elif v[0] == "?" or v[0] == ":":
+        elif v[0] == ":":
             raise ValueError("Invalid IRI %s" % v)
         else:
             return v
-- 
2.43.0


From 90bf014f607fc6c591239580e47c5a4957c6b966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:45 +0000
Subject: [PATCH 17/54] fix: rdf:XMLLiteral is any well-formed XML content, not
 only a single element

---
 owlrl/DatatypeHandling.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/owlrl/DatatypeHandling.py b/owlrl/DatatypeHandling.py
index 8fee858..6441477 100755
--- a/owlrl/DatatypeHandling.py
+++ b/owlrl/DatatypeHandling.py
@@ -560,8 +560,9 @@ def _strToXMLLiteral(v):
     import xml.dom.minidom
 
     try:
-        dom = xml.dom.minidom.parseString(v)
-        return dom.toxml()
+        # the lexical form is the content of an element
+        dom = xml.dom.minidom.parseString("<x>%s</x>" % v)
+        return "".join(node.toxml() for node in dom.documentElement.childNodes)
     except:
         raise ValueError("Invalid XML Literal %s" % v)
 
-- 
2.43.0


From 4a4bea2944fec58d22786990a6cf6687946f60a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:21 +0000
Subject: [PATCH 18/54] fix: an empty date or time is an invalid literal, not
 an IndexError

---
 owlrl/DatatypeHandling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/owlrl/DatatypeHandling.py b/owlrl/DatatypeHandling.py
index 6441477..c4af89b 100755
--- a/owlrl/DatatypeHandling.py
+++ b/owlrl/DatatypeHandling.py
@@ -78,7 +78,7 @@ def _returnTimeZone(incoming_v):
     @return (v,timezone) tuple; 'v' is the input string with the timezone info cut off, 'timezone' is a L{_namelessTZ}
     instance or None
     """
-    if incoming_v[-1] == "Z":
+    if incoming_v.endswith("Z"):
         v = incoming_v[:-1]
         tzone = _namelessTZ(0, 0)
     else:
-- 
2.43.0


From 3c4cca3bf6b3222089b97ddbd06486d15fc283bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:21 +0000
Subject: [PATCH 19/54] fix: time zones west of Greenwich are not off by an
 hour, and out of range ones are refused

---
 owlrl/DatatypeHandling.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/owlrl/DatatypeHandling.py b/owlrl/DatatypeHandling.py
index c4af89b..efefcde 100755
--- a/owlrl/DatatypeHandling.py
+++ b/owlrl/DatatypeHandling.py
@@ -77,21 +77,24 @@ def _returnTimeZone(incoming_v):
     @param incoming_v: the time/date string
     @return (v,timezone) tuple; 'v' is the input string with the timezone info cut off, 'timezone' is a L{_namelessTZ}
     instance or None
+    @raise ValueError: invalid timezone
     """
     if incoming_v.endswith("Z"):
         v = incoming_v[:-1]
         tzone = _namelessTZ(0, 0)
     else:
         pattern = r".*(\+|-)([0-9][0-9]):([0-9][0-9])"
-        match = re.match(pattern, incoming_v)
+        match = re.fullmatch(pattern, incoming_v)
         if match is None:
             v = incoming_v
             tzone = None
         else:
             hours = int(match.groups()[1])
-            if match.groups()[0] == "-":
-                hours = -hours - 1
             minutes = int(match.groups()[2])
+            if minutes > 59 or hours * 60 + minutes > 14 * 60:
+                raise ValueError("Invalid timezone %s" % incoming_v)
+            if match.groups()[0] == "-":
+                hours, minutes = -hours, -minutes
             v = incoming_v[:-6]
             tzone = _namelessTZ(hours, minutes)
     return v, tzone
-- 
2.43.0


From 7390985804d1ab28142c3dd296f1eb46021b4507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:21 +0000
Subject: [PATCH 20/54] fix: fractions of a second are fractions, not a number
 of microseconds

---
 owlrl/DatatypeHandling.py | 26 ++++++++++----------------
 1 file changed, 10 insertions(+), 16 deletions(-)

diff --git a/owlrl/DatatypeHandling.py b/owlrl/DatatypeHandling.py
index efefcde..c335c1a 100755
--- a/owlrl/DatatypeHandling.py
+++ b/owlrl/DatatypeHandling.py
@@ -380,15 +380,12 @@ def _strToDateTimeAndStamp(incoming_v, timezone_required=False):
     # The microseconds should be handled here...
     final_v = v
     milliseconds = 0
-    milpattern = r"(.*)(\.)([0-9]*)"
-    match = re.match(milpattern, v)
+    milpattern = r"(.*)(\.)([0-9]+)"
+    match = re.fullmatch(milpattern, v)
     if match is not None:
-        # we have a millisecond portion...
-        try:
-            final_v = match.groups()[0]
-            milliseconds = int(match.groups()[2])
-        except:
-            raise ValueError("Invalid datetime %s" % incoming_v)
+        # we have a fraction of the second; Python can handle it up to a microsecond
+        final_v = match.groups()[0]
+        milliseconds = int(match.groups()[2][:6].ljust(6, "0"))
     #
     # By now, the pattern should be clear
     # This may raise an exception...
@@ -434,15 +431,12 @@ def _strToTime(incoming_v):
     # The microseconds should be handled here...
     final_v = v
     milliseconds = 0
-    milpattern = r"(.*)(\.)([0-9]*)"
-    match = re.match(milpattern, v)
+    milpattern = r"(.*)(\.)([0-9]+)"
+    match = re.fullmatch(milpattern, v)
     if match is not None:
-        # we have a millisecond portion...
-        try:
-            final_v = match.groups()[0]
-            milliseconds = int(match.groups()[2])
-        except:
-            raise ValueError("Invalid datetime %s" % incoming_v)
+        # we have a fraction of the second; Python can handle it up to a microsecond
+        final_v = match.groups()[0]
+        milliseconds = int(match.groups()[2][:6].ljust(6, "0"))
     #
     # By now, the pattern should be clear
     # This may raise an exception...
-- 
2.43.0


From dc8f63d8f515dbcd845a2ce97f2f3bc161b2cf93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:21 +0000
Subject: [PATCH 21/54] fix: the fields of a date or time must have all their
 digits

---
 owlrl/DatatypeHandling.py | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/owlrl/DatatypeHandling.py b/owlrl/DatatypeHandling.py
index c335c1a..5e75910 100755
--- a/owlrl/DatatypeHandling.py
+++ b/owlrl/DatatypeHandling.py
@@ -100,6 +100,21 @@ def _returnTimeZone(incoming_v):
     return v, tzone
 
 
+# noinspection PyPep8Naming
+def _strptime(v, fmt):
+    """Same as C{time.strptime}, except that all the fields must have their full length, with ASCII digits only.
+    @param v: the date/time string
+    @param fmt: the format
+    @return C{time.struct_time} instance
+    @raise ValueError: invalid date/time
+    """
+    pattern = fmt.replace("%Y", "[0-9]{4}")
+    pattern = re.sub("%[mdHMS]", "[0-9]{2}", pattern)
+    if re.fullmatch(pattern, v) is None:
+        raise ValueError("Invalid date or time %s" % v)
+    return time.strptime(v, fmt)
+
+
 # Booleans ##################################################
 # noinspection PyPep8Naming
 def _strToBool(v):
@@ -390,7 +405,7 @@ def _strToDateTimeAndStamp(incoming_v, timezone_required=False):
     # By now, the pattern should be clear
     # This may raise an exception...
     try:
-        tstr = time.strptime(final_v, "%Y-%m-%dT%H:%M:%S")
+        tstr = _strptime(final_v, "%Y-%m-%dT%H:%M:%S")
         if tzone is not None:
             return datetime.datetime(
                 tstr.tm_year,
@@ -441,7 +456,7 @@ def _strToTime(incoming_v):
     # By now, the pattern should be clear
     # This may raise an exception...
     try:
-        tstr = time.strptime(final_v, "%H:%M:%S")
+        tstr = _strptime(final_v, "%H:%M:%S")
         if tzone is not None:
             return datetime.time(
                 tstr.tm_hour, tstr.tm_min, tstr.tm_sec, milliseconds, tzone
@@ -466,7 +481,7 @@ def _strToDate(incoming_v):
 
     # This may raise an exception...
     try:
-        tstr = time.strptime(final_v, "%Y-%m-%d")
+        tstr = _strptime(final_v, "%Y-%m-%d")
         return datetime.date(tstr.tm_year, tstr.tm_mon, tstr.tm_mday)
     except:
         raise ValueError("Invalid date %s" % incoming_v)
-- 
2.43.0


From dd2f6731772c97a31843dc20d8e02725aa972092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:35 +0000
Subject: [PATCH 22/54] fix: gMonthDay, gDay and gMonth have leading dashes,
 and the g types may have a time zone

---
 owlrl/DatatypeHandling.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/owlrl/DatatypeHandling.py b/owlrl/DatatypeHandling.py
index 5e75910..00e4360 100755
--- a/owlrl/DatatypeHandling.py
+++ b/owlrl/DatatypeHandling.py
@@ -499,7 +499,7 @@ def _strTogYearMonth(v):
     @raise ValueError: invalid value
     """
     try:
-        time.strptime(v + "-01", "%Y-%m-%d")
+        _strptime(_returnTimeZone(v)[0] + "-01", "%Y-%m-%d")
         return v
     except:
         raise ValueError("Invalid gYearMonth %s" % v)
@@ -513,7 +513,7 @@ def _strTogYear(v):
     @raise ValueError: invalid value
     """
     try:
-        time.strptime(v + "-01-01", "%Y-%m-%d")
+        _strptime(_returnTimeZone(v)[0] + "-01-01", "%Y-%m-%d")
         return v
     except:
         raise ValueError("Invalid gYear %s" % v)
@@ -527,7 +527,7 @@ def _strTogMonthDay(v):
     @raise ValueError: invalid value
     """
     try:
-        time.strptime("2008-" + v, "%Y-%m-%d")
+        _strptime("2008" + _returnTimeZone(v)[0], "%Y--%m-%d")
         return v
     except:
         raise ValueError("Invalid gMonthDay %s" % v)
@@ -541,7 +541,7 @@ def _strTogDay(v):
     @raise ValueError: invalid value
     """
     try:
-        time.strptime("2001-01-" + v, "%Y-%m-%d")
+        _strptime("2001-01" + _returnTimeZone(v)[0], "%Y-%m---%d")
         return v
     except:
         raise ValueError("Invalid gDay %s" % v)
@@ -555,7 +555,7 @@ def _strTogMonth(v):
     @raise ValueError: invalid value
     """
     try:
-        time.strptime("2001-" + v + "-01", "%Y-%m-%d")
+        _strptime("2001" + _returnTimeZone(v)[0], "%Y--%m")
         return v
     except:
         raise ValueError("Invalid gMonth %s" % v)
-- 
2.43.0


From 4f177edbe40111037fb9c700d7da79533bd3cf6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:35 +0000
Subject: [PATCH 23/54] fix: xsd:NMTOKEN is derived from xsd:token, not from
 xsd:Name

---
 owlrl/XsdDatatypes.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/owlrl/XsdDatatypes.py b/owlrl/XsdDatatypes.py
index adb4a9a..d881af3 100755
--- a/owlrl/XsdDatatypes.py
+++ b/owlrl/XsdDatatypes.py
@@ -145,7 +145,6 @@ _Common_Datatype_Subsumptions = {
         XSD.string,
     ],
     XSD.NMTOKEN: [
-        XSD.Name,
         XSD.token,
         XSD.normalizedString,
         XSD.string,
-- 
2.43.0


From 818e53162b638fd4bfe75f8157348c144f24b516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:05 +0000
Subject: [PATCH 24/54] fix: container axioms are added for exactly the rdf:_n
 predicates of the graph

---
 owlrl/Closure.py     | 26 ++++++++++++--------------
 owlrl/RDFSClosure.py |  2 +-
 2 files changed, 13 insertions(+), 15 deletions(-)

diff --git a/owlrl/Closure.py b/owlrl/Closure.py
index 6cfd747..896992d 100755
--- a/owlrl/Closure.py
+++ b/owlrl/Closure.py
@@ -27,6 +27,7 @@ __license__ = "W3C® SOFTWARE NOTICE AND LICENSE, http://www.w3.org/Consortium/L
 
 from typing import Union
 
+import re
 import rdflib
 from rdflib.namespace import RDF
 from rdflib import BNode, Literal, Graph, Dataset
@@ -70,6 +71,9 @@ class Core:
     :var IMaxNum: Maximal index of :code:`rdf:_i` occurrence in the graph.
     :type IMaxNum: int
 
+    :var container_indices: All indices of the :code:`rdf:_i` predicates occurring in the graph.
+    :type container_indices: set of int
+
     :var graph: The real graph.
     :type graph: :class:`rdflib.Graph`
 
@@ -108,24 +112,18 @@ class Core:
         """
         self._debug = debugGlobal
 
-        # Calculate the maximum 'n' value for the '_i' type predicates (see Horst's paper)
-        n = 1
-        maxnum = 0
-        cont = True
-        while cont:
-            cont = False
-            predicate = RDF[("_%d" % n)]
-            for (s, p, o) in graph.triples((None, predicate, None)):
-                # there is at least one if we got here
-                maxnum = n
-                n += 1
-                cont = True
-        self.IMaxNum = maxnum
-
         self.graph = graph
         if isinstance(self.graph, (Dataset, ConjunctiveGraph)):
             self.graph.default_union = True
 
+        # Collect the 'n' values of the '_n' type predicates in use (see Horst's paper)
+        self.container_indices = set()
+        for predicate in self.graph.predicates(unique=True):
+            match = re.fullmatch(str(RDF) + "_([1-9][0-9]*)", predicate)
+            if match is not None:
+                self.container_indices.add(int(match.group(1)))
+        self.IMaxNum = max(self.container_indices, default=0)
+
         if destination is None:
             if isinstance(graph, (Dataset, ConjunctiveGraph)):
                 self.destination = graph.default_context
diff --git a/owlrl/RDFSClosure.py b/owlrl/RDFSClosure.py
index c3020b8..d825275 100755
--- a/owlrl/RDFSClosure.py
+++ b/owlrl/RDFSClosure.py
@@ -90,7 +90,7 @@ class RDFS_Semantics(Core):
         """
         for t in RDFS_Axiomatic_Triples:
             self.destination.add(t)
-        for i in range(1, self.IMaxNum + 1):
+        for i in self.container_indices:
             ci = RDF[("_%d" % i)]
             self.destination.add((ci, RDF.type, RDF.Property))
             self.destination.add((ci, RDFS.domain, RDFS.Resource))
-- 
2.43.0


From a5a36fe08601a8c74eb9ad69477ef25370474768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:05 +0000
Subject: [PATCH 25/54] fix: the error message on a destination with another
 store says what is wrong

---
 owlrl/Closure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/owlrl/Closure.py b/owlrl/Closure.py
index 896992d..140ffad 100755
--- a/owlrl/Closure.py
+++ b/owlrl/Closure.py
@@ -139,7 +139,7 @@ class Core:
                 source_store = self.graph.store
                 dest_store = destination.store
                 if source_store is not dest_store:
-                    raise ValueError("The source and destination graphs share the same backing store")
+                    raise ValueError("The source and destination graphs do not share the same backing store")
                 self.destination = destination
 
         self.axioms = axioms
-- 
2.43.0


From 4d49ed8d86e87260ea02c918926810fb81a521df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:05 +0000
Subject: [PATCH 26/54] fix: rdfs4a and rdfs4b also apply to the triples
 inferred in later cycles

---
 owlrl/RDFSClosure.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/owlrl/RDFSClosure.py b/owlrl/RDFSClosure.py
index d825275..8c31398 100755
--- a/owlrl/RDFSClosure.py
+++ b/owlrl/RDFSClosure.py
@@ -157,11 +157,9 @@ class RDFS_Semantics(Core):
         # rdf1
         self.store_triple((p, RDF.type, RDF.Property))
         # rdfs4a
-        if cycle_num == 1:
-            self.store_triple((s, RDF.type, RDFS.Resource))
+        self.store_triple((s, RDF.type, RDFS.Resource))
         # rdfs4b
-        if cycle_num == 1:
-            self.store_triple((o, RDF.type, RDFS.Resource))
+        self.store_triple((o, RDF.type, RDFS.Resource))
         if p == RDFS.domain:
             # rdfs2
             for uuu, Y, yyy in self.graph.triples((None, s, None)):
-- 
2.43.0


From 9c2c00c4feeedb3840b26389764fe078aae84bbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:05 +0000
Subject: [PATCH 27/54] fix: literals of different languages or kinds of value
 are not the same

---
 owlrl/RDFSClosure.py | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/owlrl/RDFSClosure.py b/owlrl/RDFSClosure.py
index 8c31398..fffaa60 100755
--- a/owlrl/RDFSClosure.py
+++ b/owlrl/RDFSClosure.py
@@ -31,10 +31,11 @@ from typing import Union
 
 import rdflib
 from rdflib import Literal, Graph
-from rdflib.namespace import RDF, RDFS
+from rdflib.namespace import RDF, RDFS, XSD
 from itertools import product
 from owlrl.Closure import Core
 from owlrl.AxiomaticTriples import RDFS_Axiomatic_Triples, RDFS_D_Axiomatic_Triples
+from owlrl.XsdDatatypes import RDFS_Datatype_Subsumptions
 
 
 ######################################################################################################
@@ -109,10 +110,25 @@ class RDFS_Semantics(Core):
         for t in RDFS_D_Axiomatic_Triples:
             self.destination.add(t)
 
+    @staticmethod
+    def _primitive_datatype(lt):
+        if lt.datatype is None:
+            return XSD.string
+        return RDFS_Datatype_Subsumptions.get(lt.datatype, [lt.datatype])[-1]
+
     @staticmethod
     def _literals_same_as(lt1, lt2):
+        # values of different primitive datatypes, or with different languages, are never the same
+        if lt1.language != lt2.language:
+            return False
+        if RDFS_Semantics._primitive_datatype(lt1) != RDFS_Semantics._primitive_datatype(lt2):
+            return False
         if lt1.value is not None and lt2.value is not None:
-            return lt1.value == lt2.value
+            try:
+                return lt1.value == lt2.value
+            except ArithmeticError:
+                # the value is a signaling NaN
+                return False
         elif lt1.datatype is not None and lt2.datatype is not None:
             return lt1.__eq__(lt2)
         return False
-- 
2.43.0


From 7fb39537c590123f340f3038bb8bc52116fae38f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:31 +0000
Subject: [PATCH 28/54] fix: restoring RDFLib's conversions also drops those
 RDFLib does not have

---
 owlrl/DatatypeHandling.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/owlrl/DatatypeHandling.py b/owlrl/DatatypeHandling.py
index 00e4360..14467a7 100755
--- a/owlrl/DatatypeHandling.py
+++ b/owlrl/DatatypeHandling.py
@@ -736,6 +736,9 @@ def use_RDFLib_lexical_conversions():
     """
     Restore the original (ie, RDFLib) set of lexical conversion routines.
     """
+    for datatype in AltXSDToPYTHON:
+        if datatype not in XSDToPython:
+            _toPythonMapping.pop(datatype, None)
     _toPythonMapping.update(XSDToPython)
 
 
-- 
2.43.0


From 57b4879eb77f31172b743a49557ffb8613376993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:31 +0000
Subject: [PATCH 29/54] fix: an expansion, even a failed one, leaves no trace
 in the conversions and datatype registries

---
 owlrl/DatatypeHandling.py | 21 +++++++++++++++++++++
 owlrl/__init__.py         | 30 ++++++++++++++++--------------
 2 files changed, 37 insertions(+), 14 deletions(-)

diff --git a/owlrl/DatatypeHandling.py b/owlrl/DatatypeHandling.py
index 14467a7..c699a51 100755
--- a/owlrl/DatatypeHandling.py
+++ b/owlrl/DatatypeHandling.py
@@ -41,6 +41,8 @@ from rdflib.term import XSDToPython, Literal, _toPythonMapping
 import datetime, time, re
 from decimal import Decimal
 
+from .XsdDatatypes import OWL_RL_Datatypes, OWL_Datatype_Subsumptions
+
 
 # noinspection PyMissingConstructor,PyPep8Naming
 class _namelessTZ(datetime.tzinfo):
@@ -742,6 +744,25 @@ def use_RDFLib_lexical_conversions():
     _toPythonMapping.update(XSDToPython)
 
 
+def save_datatypes():
+    """
+    Save the current state of the lexical conversions (both of this module and of RDFLib) and of the registered datatypes.
+
+    :return: Function, without arguments, to restore what has been saved.
+    """
+    tables = [_toPythonMapping, AltXSDToPYTHON, OWL_Datatype_Subsumptions]
+    saved_tables = [dict(table) for table in tables]
+    saved_datatypes = list(OWL_RL_Datatypes)
+
+    def restore():
+        for table, saved in zip(tables, saved_tables):
+            table.clear()
+            table.update(saved)
+        OWL_RL_Datatypes[:] = saved_datatypes
+
+    return restore
+
+
 #######################################################################################
 # This module can pretty much tested individually...
 
diff --git a/owlrl/__init__.py b/owlrl/__init__.py
index 8f86445..5cc56e0 100755
--- a/owlrl/__init__.py
+++ b/owlrl/__init__.py
@@ -395,20 +395,22 @@ class DeductiveClosure:
         :param destination: The RDF graph to which the results are written. If not specified, the graph is modified in-place.
         :type destination: :class:`rdflib.Graph`
         """
-        if (not DeductiveClosure.improved_datatype_generic) and self.improved_datatypes:
-            DatatypeHandling.use_Alt_lexical_conversions()
-
-        if self.closure_class is not None:
-            self.closure_class(
-                graph,
-                self.axiomatic_triples,
-                self.datatype_axioms,
-                rdfs=self.rdfs_closure,
-                destination=destination
-            ).closure()
-
-        if (not DeductiveClosure.improved_datatype_generic) and self.improved_datatypes:
-            DatatypeHandling.use_RDFLib_lexical_conversions()
+        # The conversions and the datatypes are global; both may be changed by the closure class, too
+        restore_datatypes = DatatypeHandling.save_datatypes()
+        try:
+            if (not DeductiveClosure.improved_datatype_generic) and self.improved_datatypes:
+                DatatypeHandling.use_Alt_lexical_conversions()
+
+            if self.closure_class is not None:
+                self.closure_class(
+                    graph,
+                    self.axiomatic_triples,
+                    self.datatype_axioms,
+                    rdfs=self.rdfs_closure,
+                    destination=destination
+                ).closure()
+        finally:
+            restore_datatypes()
 
     @staticmethod
     def use_improved_datatypes_conversions():
-- 
2.43.0


From 9e945bb2378fce4b6f1cb8bcd6285de39d2161b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:49 +0000
Subject: [PATCH 30/54] fix: an owl:rational has one slash at most

---
 owlrl/OWLRLExtras.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/owlrl/OWLRLExtras.py b/owlrl/OWLRLExtras.py
index 64c3734..33f94eb 100755
--- a/owlrl/OWLRLExtras.py
+++ b/owlrl/OWLRLExtras.py
@@ -75,12 +75,8 @@ def _strToRational(v):
     @raise ValueError: invalid rational string literal
     """
     try:
-        r = v.split("/")
-        if len(r) == 2:
-            n_str = r[0]
-            d_str = r[1]
-        else:
-            n_str = r[0]
+        n_str, slash, d_str = v.partition("/")
+        if not slash:
             d_str = "1"
         if d_str.strip()[0] == "+":
             raise ValueError("Invalid Rational literal value %s" % v)
-- 
2.43.0


From 62123a4b95826f53a91ff98032543f6d0d1ca3eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:49 +0000
Subject: [PATCH 31/54] fix: allValuesFrom checks literals against the facets
 of a restricted datatype

---
 owlrl/OWLRLExtras.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/owlrl/OWLRLExtras.py b/owlrl/OWLRLExtras.py
index 33f94eb..6e6df93 100755
--- a/owlrl/OWLRLExtras.py
+++ b/owlrl/OWLRLExtras.py
@@ -197,10 +197,8 @@ class OWLRL_Extension(RDFS_OWLRL_Semantics):
             for rt in self.restricted_datatypes:
                 if rt.datatype == t:
                     # bingo
-                    if v in self.literal_proxies.bnode_to_lit:
-                        return rt.checkValue(
-                            self.literal_proxies.bnode_to_lit[v].lit.toPython()
-                        )
+                    if isinstance(v, rdflib.Literal):
+                        return rt.checkValue(rt.converter(str(v)))
                     else:
                         return True
             # if we got here, no restriction applies
-- 
2.43.0


From 96e4446b67d41f76d68113d18b2b9691073025dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:49 +0000
Subject: [PATCH 32/54] fix: facets are compared with values obtained by the
 same conversion as their own

---
 owlrl/OWLRLExtras.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/owlrl/OWLRLExtras.py b/owlrl/OWLRLExtras.py
index 6e6df93..8c93801 100755
--- a/owlrl/OWLRLExtras.py
+++ b/owlrl/OWLRLExtras.py
@@ -170,7 +170,7 @@ class OWLRL_Extension(RDFS_OWLRL_Semantics):
                 if (lt, RDF.type, base_type) in self.graph:
                     try:
                         # the conversion or the check may go wrong and raise an exception; then simply move on
-                        if rt.checkValue(lt.toPython()):
+                        if rt.checkValue(rt.converter(str(lt))):
                             # yep, this is also of type 'rt'
                             self.store_triple((lt, RDF.type, rt.datatype))
                     except:
-- 
2.43.0


From ba9ce6c17097f0c841fe460e909b8f144f63e630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:49 +0000
Subject: [PATCH 33/54] fix: an xsd:pattern has to match the whole value

---
 owlrl/RestrictedDatatype.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/owlrl/RestrictedDatatype.py b/owlrl/RestrictedDatatype.py
index ac45d78..af15aa7 100644
--- a/owlrl/RestrictedDatatype.py
+++ b/owlrl/RestrictedDatatype.py
@@ -541,7 +541,7 @@ class RestrictedDatatype(RestrictedDatatypeCore):
         else:
             val = value
         for p in self.pattern:
-            if p.match(val) is None:
+            if p.fullmatch(val) is None:
                 return False
         return True
 
-- 
2.43.0


From b2224daebcf6e348d690531e03339d8e3a111029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:49 +0000
Subject: [PATCH 34/54] fix: facets of xsd:int, xsd:token and patterns of
 rdf:PlainLiteral are taken into account

---
 owlrl/RestrictedDatatype.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/owlrl/RestrictedDatatype.py b/owlrl/RestrictedDatatype.py
index af15aa7..eedfe1a 100644
--- a/owlrl/RestrictedDatatype.py
+++ b/owlrl/RestrictedDatatype.py
@@ -83,6 +83,7 @@ Datatypes_per_facets = {
         XSD.positiveInteger,
         XSD.negativeInteger,
         XSD.long,
+        XSD.int,
         XSD.short,
         XSD.byte,
         XSD.unsignedLong,
@@ -100,6 +101,7 @@ Datatypes_per_facets = {
     LENGTH_AND_PATTERN: [
         XSD.anyURI,
         XSD.string,
+        XSD.token,
         XSD.NMTOKEN,
         XSD.Name,
         XSD.NCName,
@@ -419,6 +421,7 @@ class RestrictedDatatype(RestrictedDatatypeCore):
                 RestrictedDatatype._check_min_length,
                 RestrictedDatatype._check_max_length,
                 RestrictedDatatype._check_length,
+                RestrictedDatatype._check_pattern,
                 RestrictedDatatype._check_lang_range,
             ],
         }
-- 
2.43.0


From f6a5be0951e587c8bdf7f68be92bed7b4677849c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:33 +0000
Subject: [PATCH 35/54] fix: datatype subsumption is transitive, e.g. integers
 are rationals in the extension

---
 owlrl/OWLRL.py | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/owlrl/OWLRL.py b/owlrl/OWLRL.py
index 1a29cca..b1cd7b4 100755
--- a/owlrl/OWLRL.py
+++ b/owlrl/OWLRL.py
@@ -172,6 +172,23 @@ class OWLRL_Semantics(Core):
         for t in OWLRL_D_Axiomatic_Triples:
             self.destination.add(t)
 
+    @staticmethod
+    def _datatype_subsumptions(dt):
+        """
+        All the datatypes that contain a datatype, directly or indirectly (extensions may register the direct ones only).
+
+        @param dt: a datatype
+        @return: array of datatypes
+        """
+        retval = []
+        to_be_checked = [dt]
+        while to_be_checked:
+            for new_dt in OWL_Datatype_Subsumptions.get(to_be_checked.pop(), []):
+                if new_dt not in retval:
+                    retval.append(new_dt)
+                    to_be_checked.append(new_dt)
+        return retval
+
     def restriction_typing_check(self, v, t):
         """
         Helping method to check whether a type statement is in line with a possible
@@ -210,11 +227,10 @@ class OWLRL_Semantics(Core):
 
         # noinspection PyShadowingNames
         def _handle_subsumptions(r, dt):
-            if dt in OWL_Datatype_Subsumptions:
-                for new_dt in OWL_Datatype_Subsumptions[dt]:
-                    self.store_triple((r, RDF.type, new_dt))
-                    self.store_triple((new_dt, RDF.type, RDFS.Datatype))
-                    used_datatypes.add(new_dt)
+            for new_dt in self._datatype_subsumptions(dt):
+                self.store_triple((r, RDF.type, new_dt))
+                self.store_triple((new_dt, RDF.type, RDFS.Datatype))
+                used_datatypes.add(new_dt)
 
         # explicit object->datatype relationships: those that came from an object being typed as a datatype
         # or a sameAs. The values are arrays of datatypes to which the resource belong
-- 
2.43.0


From 1ac38c42fcc4ec81c7eec9c903d80f4095e86a94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:33 +0000
Subject: [PATCH 36/54] fix: datatype subsumption and disjointness also apply
 to inferred datatype memberships

---
 owlrl/OWLRL.py | 30 +++++++++++++++++++++++++++++-
 1 file changed, 29 insertions(+), 1 deletion(-)

diff --git a/owlrl/OWLRL.py b/owlrl/OWLRL.py
index b1cd7b4..15fafbd 100755
--- a/owlrl/OWLRL.py
+++ b/owlrl/OWLRL.py
@@ -115,6 +115,8 @@ class OWLRL_Semantics(Core):
         """
         Core.__init__(self, graph, axioms, daxioms, rdfs=rdfs, destination=destination)
         self.bnodes = []
+        # datatypes in use by the graph, as found so far
+        self.used_datatypes = set()
 
     def _list(self, l):
         """
@@ -324,11 +326,36 @@ class OWLRL_Semantics(Core):
         # Last step: add the datatype disjointness relationships. This is done only for
         #  - 'top' level datatypes
         #  - used in the graph
+        self._use_datatypes(used_datatypes)
+
+    def _use_datatypes(self, datatypes):
+        """
+        Add the disjointness relationships of the datatypes in use.
+
+        @param datatypes: set of datatypes found to be in use
+        """
+        if datatypes <= self.used_datatypes:
+            return
+        self.used_datatypes |= datatypes
         for t in OWLRL_Datatypes_Disjointness:
             (l, pred, r) = t
-            if l in used_datatypes and r in used_datatypes:
+            if l in self.used_datatypes and r in self.used_datatypes:
                 self.store_triple(t)
 
+    def _datatypes(self, triple, cycle_num):
+        """
+        Subsumption and disjointness for those resources that are found to belong to a datatype by the other rules only.
+        @param triple: triple to work on
+        @param cycle_num: which cycle are we in, starting with 1. Can be used for some optimization.
+        """
+        r, p, dt = triple
+        if p == RDF.type and dt in OWL_RL_Datatypes:
+            subsumptions = self._datatype_subsumptions(dt)
+            for new_dt in subsumptions:
+                self.store_triple((r, RDF.type, new_dt))
+                self.store_triple((new_dt, RDF.type, RDFS.Datatype))
+            self._use_datatypes({dt}.union(subsumptions))
+
     def _one_time_rules_misc(self):
         """
         Rules executed: cls-thing, cls-nothing, prp-ap.
@@ -373,6 +400,7 @@ class OWLRL_Semantics(Core):
         self._classes(t, cycle_num)
         self._class_axioms(t, cycle_num)
         self._schema_vocabulary(t, cycle_num)
+        self._datatypes(t, cycle_num)
 
     def _property_chain(self, p, x):
         """
-- 
2.43.0


From b75ec7446d05e5dde81dd67e610e039c640bdc8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:33 +0000
Subject: [PATCH 37/54] fix: facets are also checked for literals that are
 inferred to be of the base datatype

---
 owlrl/OWLRLExtras.py | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/owlrl/OWLRLExtras.py b/owlrl/OWLRLExtras.py
index 8c93801..95a3499 100755
--- a/owlrl/OWLRLExtras.py
+++ b/owlrl/OWLRLExtras.py
@@ -168,13 +168,19 @@ class OWLRL_Extension(RDFS_OWLRL_Semantics):
                 # into account the subsumption datatypes, that have been taken
                 # care of by the 'regular' OWL RL process
                 if (lt, RDF.type, base_type) in self.graph:
-                    try:
-                        # the conversion or the check may go wrong and raise an exception; then simply move on
-                        if rt.checkValue(rt.converter(str(lt))):
-                            # yep, this is also of type 'rt'
-                            self.store_triple((lt, RDF.type, rt.datatype))
-                    except:
-                        continue
+                    self._subsume_restricted_datatype(rt, lt)
+
+    def _subsume_restricted_datatype(self, rt, lt):
+        """
+        Tag a literal, known to be of the base type, with the restricted datatype if its value abides to the restrictions.
+        """
+        try:
+            # the conversion or the check may go wrong and raise an exception; then simply move on
+            if rt.checkValue(rt.converter(str(lt))):
+                # yep, this is also of type 'rt'
+                self.store_triple((lt, RDF.type, rt.datatype))
+        except:
+            pass
 
     def restriction_typing_check(self, v, t):
         """
@@ -240,6 +246,10 @@ class OWLRL_Extension(RDFS_OWLRL_Semantics):
         """
         RDFS_OWLRL_Semantics.rules(self, t, cycle_num)
         z, q, x = t
+        if q == RDF.type and isinstance(z, rdflib.Literal):
+            for rt in self.restricted_datatypes:
+                if rt.base_type == x:
+                    self._subsume_restricted_datatype(rt, z)
         if q == OWL.hasSelf:
             for p in self.graph.objects(z, OWL.onProperty):
                 for y in self.graph.subjects(RDF.type, z):
-- 
2.43.0


From d6eb32546065b35d34b134c58684c052d207d175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:06 +0000
Subject: [PATCH 38/54] fix: convert_graph knows both names of the RDF/XML
 syntax

---
 owlrl/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/owlrl/__init__.py b/owlrl/__init__.py
index 5cc56e0..da18c5e 100755
--- a/owlrl/__init__.py
+++ b/owlrl/__init__.py
@@ -211,7 +211,7 @@ def __parse_input(iformat, inp, graph):
         format = "turtle"
     elif iformat == RDFA:
         format = "rdfa1.1"
-    elif iformat == RDFXML:
+    elif iformat == RDFXML or iformat == "rdfxml":
         format = "xml"
     elif iformat == JSON:
         format = "json-ld"
@@ -588,7 +588,7 @@ def convert_graph(options, closureClass=None):
         datatype_axioms=daxioms,
     ).expand(graph)
 
-    if options.format == "rdfxml":
+    if options.format == RDFXML or options.format == "rdfxml":
         return graph.serialize(format="pretty-xml")
     elif options.format == "json":
         return graph.serialize(format="json-ld")
-- 
2.43.0


From ad55719747d263a24a4353454f2e7d8ae492e86e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:06 +0000
Subject: [PATCH 39/54] fix: convert_graph serializes standard RDF triples only

---
 owlrl/__init__.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/owlrl/__init__.py b/owlrl/__init__.py
index da18c5e..f97d88b 100755
--- a/owlrl/__init__.py
+++ b/owlrl/__init__.py
@@ -169,7 +169,7 @@ from typing import Union
 
 # noinspection PyPackageRequirements,PyPackageRequirements,PyPackageRequirements
 import rdflib
-from rdflib import Graph, Literal
+from rdflib import Graph, Literal, URIRef
 
 from . import DatatypeHandling, Closure
 from .OWLRLExtras import OWLRL_Extension, OWLRL_Extension_Trimming
@@ -588,6 +588,11 @@ def convert_graph(options, closureClass=None):
         datatype_axioms=daxioms,
     ).expand(graph)
 
+    # Generalized triples, eg, with literals as subjects, cannot be serialized in RDF
+    for (s, p, o) in list(graph):
+        if isinstance(s, Literal) or not isinstance(p, URIRef):
+            graph.remove((s, p, o))
+
     if options.format == RDFXML or options.format == "rdfxml":
         return graph.serialize(format="pretty-xml")
     elif options.format == "json":
-- 
2.43.0


From b0a5193674135de3ffe99f2c06e1c5ffe7f2cc05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:06 +0000
Subject: [PATCH 40/54] fix: circular owl:imports are interpreted once

---
 owlrl/__init__.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/owlrl/__init__.py b/owlrl/__init__.py
index f97d88b..3ef8a3b 100755
--- a/owlrl/__init__.py
+++ b/owlrl/__init__.py
@@ -243,6 +243,7 @@ def interpret_owl_imports(iformat, graph):
     :param graph: The RDFLib Graph instance to parse into.
     :type graph: :class:`RDFLib.Graph`
     """
+    imported = set()
     while True:
         # 1. collect the import statements:
         all_imports = [t for t in graph.triples((None, OWL.imports, None))]
@@ -254,6 +255,10 @@ def interpret_owl_imports(iformat, graph):
             graph.remove(t)
         # 3. get all the imported vocabularies and import them
         for (s, p, uri) in all_imports:
+            # what has been imported should not be imported again (imports may be circular)
+            if str(uri) in imported:
+                continue
+            imported.add(str(uri))
             # this is not 100% kosher. The expected object for an import statement is a URI. However,
             # on local usage, a string would also make sense, so I do that one, too
             if isinstance(uri, Literal):
-- 
2.43.0


From b9b3c85c55124f8bb75acc1df7e68ddfce94d604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:13 +0000
Subject: [PATCH 41/54] fix: the error page of the CGI script works again, and
 escapes what comes from the user

---
 scripts/RDFConvertService | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/scripts/RDFConvertService b/scripts/RDFConvertService
index 1e6ca66..c158c16 100755
--- a/scripts/RDFConvertService
+++ b/scripts/RDFConvertService
@@ -17,6 +17,7 @@ import os
 import sys
 import cgi
 import cgitb
+import html
 # prevent accidentally importing `scripts/owlrl` file when calling
 # `from owlrl import ...` below.
 HERE_DIR = os.path.abspath(os.path.dirname(__file__))
@@ -97,24 +98,24 @@ class Options:
         if len(self.sources) == 0:
             print("none")
         elif len(self.sources) == 1:
-            print(cgi.escape(self.sources[0]))
+            print(html.escape(self.sources[0]))
         else:
-            print(cgi.escape(self.sources[0]), ", ", cgi.escape(self.sources[1]))
+            print(html.escape(self.sources[0]), ", ", html.escape(self.sources[1]))
         print('</dd>')
         
         print('<dt>Input format:</dt>')
-        print('<dd>%s</dd>' % self.iformat)
-        print('<dt>Output format:</dt><dd>%s</dd>' % self.format)
-        print('<dt>OWL 2 RL Processing:</dt><dd>%s</dd>' % self.owlClosure)
-        print('<dt>RDFS Processing:</dt><dd>%s</dd>' % self.rdfsClosure)
-        print('<dt>Extra OWL Processing:</dt><dd>%s</dd>' % self.owlExtras)
-        print('<dt>Axiomatic triples added:</dt><dd>%s</dd>' % self.axioms)
-        print('<dt>Datatype Axiomatic triples added:</dt><dd>%s</dd>' % self.daxioms)
+        print('<dd>%s</dd>' % html.escape(self.iformat))
+        print('<dt>Output format:</dt><dd>%s</dd>' % html.escape(self.format))
+        print('<dt>OWL 2 RL Processing:</dt><dd>%s</dd>' % html.escape(self.owlClosure))
+        print('<dt>RDFS Processing:</dt><dd>%s</dd>' % html.escape(self.rdfsClosure))
+        print('<dt>Extra OWL Processing:</dt><dd>%s</dd>' % html.escape(self.owlExtras))
+        print('<dt>Axiomatic triples added:</dt><dd>%s</dd>' % html.escape(self.axioms))
+        print('<dt>Datatype Axiomatic triples added:</dt><dd>%s</dd>' % html.escape(self.daxioms))
         if self.text is not None:
             print('<dt>Turtle code added to the graph:</dt>')
         print('<dl>')
         if self.text is not None:
-            print(cgi.escape(self.text).replace('\n', '<br/>'))
+            print(html.escape(self.text).replace('\n', '<br/>'))
 
 # ---------------------------------------------------------------------------------------------------------------------
 
@@ -139,7 +140,7 @@ except:
     print("<title>Error in RDF Closure processing</title>")
     print("</head><body>")
     print("<h1>Error in RDF Closure processing:</h1>")
-    print("<pre>%s</pre>" % value)
+    print("<pre>%s</pre>" % html.escape(str(value)))
     print("<h1>For reference, the input arguments were:</h1>")
     options.to_html()
     print("</body>")
-- 
2.43.0


From 9354dd0f0a71af980686fd29d2bcb619daa63605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:13 +0000
Subject: [PATCH 42/54] fix: the CGI script returns the content type of what it
 returns

---
 scripts/RDFConvertService | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/scripts/RDFConvertService b/scripts/RDFConvertService
index c158c16..a094c72 100755
--- a/scripts/RDFConvertService
+++ b/scripts/RDFConvertService
@@ -35,7 +35,7 @@ if 'owlrl' in parent_dir_list:
 __version__ = "4.0"
 cgitb.enable()
 form = cgi.FieldStorage()
-from owlrl import convert_graph, RDFXML, TURTLE, AUTO
+from owlrl import convert_graph, RDFXML, TURTLE, JSON, AUTO
 
 # ---------------------------------------------------------------------------------------------------------------------
 
@@ -126,8 +126,13 @@ try:
     retval = convert_graph(options)
     if options.format == TURTLE:
         print('Content-Type: text/turtle; charset=utf-8')
-    else:
+    elif options.format == JSON:
+        print('Content-Type: application/ld+json; charset=utf-8')
+    elif options.format in (RDFXML, "rdfxml"):
         print('Content-Type: application/rdf+xml; charset=utf-8')
+    else:
+        # this is the default syntax
+        print('Content-Type: text/turtle; charset=utf-8')
     print()
     print(retval)
 except:
-- 
2.43.0


From 2cdbef9f55ba6427fdfaed52fd78415d4b32e383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:26 +0000
Subject: [PATCH 43/54] fix: a repeated form field does not break the CGI
 script

---
 scripts/RDFConvertService | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/scripts/RDFConvertService b/scripts/RDFConvertService
index a094c72..e771d0f 100755
--- a/scripts/RDFConvertService
+++ b/scripts/RDFConvertService
@@ -53,20 +53,20 @@ class Options:
         self.format = TURTLE
 
         if "source_1" in list(frm.keys()):
-            self.sources.append(frm["source_1"].value)
+            self.sources.append(frm.getfirst("source_1"))
         if "source_2" in list(frm.keys()):
-            self.sources.append(frm["source_2"].value)
+            self.sources.append(frm.getfirst("source_2"))
         
         if "text" in list(frm.keys()):
-            self.text = frm["text"].value
+            self.text = frm.getfirst("text")
         if "format" in list(frm.keys()):
-            self.format = frm["format"].value
+            self.format = frm.getfirst("format")
         if "iformat" in list(frm.keys()):
-            v = frm["iformat"].value
+            v = frm.getfirst("iformat")
             if v == "xml" or v == "turtle":
                 self.iformat = v
             
-        if "fullClosure" in list(frm.keys()) and frm["fullClosure"].value == "yes":
+        if "fullClosure" in list(frm.keys()) and frm.getfirst("fullClosure") == "yes":
             self.owlClosure = "yes"
             self.rdfsClosure = "yes"
             self.axioms = "no"
@@ -74,21 +74,21 @@ class Options:
             self.owlExtras = "no"
         else:
             if "owlClosure" in list(frm.keys()):
-                self.owlClosure = frm["owlClosure"].value
+                self.owlClosure = frm.getfirst("owlClosure")
             if "rdfsClosure" in list(frm.keys()):
-                self.rdfsClosure = frm["rdfsClosure"].value
+                self.rdfsClosure = frm.getfirst("rdfsClosure")
             if "owlExtras" in list(frm.keys()):
-                self.owlExtras = frm["owlExtras"].value
+                self.owlExtras = frm.getfirst("owlExtras")
             if "axioms" in list(frm.keys()):
-                self.axioms = frm["axioms"].value
+                self.axioms = frm.getfirst("axioms")
             if "daxioms" in list(frm.keys()):
-                self.daxioms = frm["daxioms"].value
+                self.daxioms = frm.getfirst("daxioms")
 
         # this one is for backward compatibility...
         if "uri" in list(frm.keys()):
-            self.sources.append(frm["uri"].value)
+            self.sources.append(frm.getfirst("uri"))
         if "source" in list(frm.keys()):
-            self.sources.append(frm["source"].value)
+            self.sources.append(frm.getfirst("source"))
         
     def to_html(self):
         print('<dl>')
-- 
2.43.0


From fae1d9a703602a8f6da1cd7b2c1241d5f04e1e05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:41 +0000
Subject: [PATCH 44/54] fix: the maximal option of the owlrl script also
 switches RDFS on, as documented

---
 scripts/owlrl | 1 +
 1 file changed, 1 insertion(+)

diff --git a/scripts/owlrl b/scripts/owlrl
index fa8be8c..e25bf53 100755
--- a/scripts/owlrl
+++ b/scripts/owlrl
@@ -83,6 +83,7 @@ def main():
         options.sources = ["-"]
 
     if options.maximal == "yes":
+        options.rdfsClosure = "yes"
         options.trimming = "yes"
         options.owlClosure = "yes"
         options.owlExtras = "yes"
-- 
2.43.0


From c20394303f5400dcd9ca8413e13d468e86cd337f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:18 +0000
Subject: [PATCH 45/54] fix: a resource that is sameAs a typed one is not made
 a datatype

---
 owlrl/OWLRL.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/owlrl/OWLRL.py b/owlrl/OWLRL.py
index 15fafbd..3718588 100755
--- a/owlrl/OWLRL.py
+++ b/owlrl/OWLRL.py
@@ -292,9 +292,11 @@ class OWLRL_Semantics(Core):
             # note that s in implicit would mean that the original graph has
             # a literal in subject position which is not allowed at the moment, so I do not bother
             if o in explicit:
-                _append_to_explicit(s, o)
+                for dt in list(explicit[o]):
+                    _append_to_explicit(s, dt)
             if s in explicit:
-                _append_to_explicit(o, s)
+                for dt in list(explicit[s]):
+                    _append_to_explicit(o, dt)
 
         # what we have now:
         # explicit+implicit contains all the resources of type datatype;
-- 
2.43.0


From 4775768f3d04ce37a3cb3af4109a1246f3174b62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:18 +0000
Subject: [PATCH 46/54] fix: AllDifferent is violated whichever of the names of
 equal members is read from the list

---
 owlrl/OWLRL.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/owlrl/OWLRL.py b/owlrl/OWLRL.py
index 3718588..af7a7e6 100755
--- a/owlrl/OWLRL.py
+++ b/owlrl/OWLRL.py
@@ -493,10 +493,11 @@ class OWLRL_Semantics(Core):
                     zi = zis[i]
                     for j in range(i + 1, len(zis)):
                         zj = zis[j]
-                        if (
-                            (zi, OWL.sameAs, zj) in self.graph
-                            or (zj, OWL.sameAs, zi) in self.graph
-                        ) and zi != zj:
+                        if (zi, OWL.sameAs, zj) in self.graph or (
+                            zj,
+                            OWL.sameAs,
+                            zi,
+                        ) in self.graph:
                             self.add_error(
                                 "'sameAs' and 'AllDifferent' cannot be used on the same subject-object "
                                 "pair: (%s, %s)" % (zi, zj)
-- 
2.43.0


From 011fcc68945fedc14a0d01b396e3428cb4b4a3e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:33 +0000
Subject: [PATCH 47/54] fix: hierarchy rules also conclude the reflexive
 triples other rules build on

---
 owlrl/OWLRL.py | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/owlrl/OWLRL.py b/owlrl/OWLRL.py
index af7a7e6..d9c3d47 100755
--- a/owlrl/OWLRL.py
+++ b/owlrl/OWLRL.py
@@ -950,18 +950,16 @@ class OWLRL_Semantics(Core):
         elif p == RDFS.subClassOf:
             c1, c2 = s, o
             # RULE scm-sco
-            # Optimize out the trivial identity case (set elsewhere already)
+            # Optimize out the trivial identity case
             if c1 != c2:
                 for c3 in self.graph.objects(c2, RDFS.subClassOf):
-                    # Another axiom already sets that...
-                    if c1 != c3:
-                        self.store_triple((c1, RDFS.subClassOf, c3))
+                    self.store_triple((c1, RDFS.subClassOf, c3))
             # RULE scm-eqc2
             if (c2, RDFS.subClassOf, c1) in self.graph:
                 self.store_triple((c1, OWL.equivalentClass, c2))
 
         # RULE scm-eqc
-        elif p == OWL.equivalentClass and s != o:
+        elif p == OWL.equivalentClass:
             c1, c2 = s, o
             self.store_triple((c1, RDFS.subClassOf, c2))
             self.store_triple((c2, RDFS.subClassOf, c1))
@@ -977,22 +975,20 @@ class OWLRL_Semantics(Core):
 
         # RULE scm-spo
         # RULE scm-eqp2
-        elif p == RDFS.subPropertyOf and s != o:
+        elif p == RDFS.subPropertyOf:
             p1, p2 = s, o
-            # Optimize out the trivial identity case (set elsewhere already)
             # RULE scm-spo
+            # Optimize out the trivial identity case
             if p1 != p2:
                 for p3 in self.graph.objects(p2, RDFS.subPropertyOf):
-                    if p1 != p3:
-                        self.store_triple((p1, RDFS.subPropertyOf, p3))
+                    self.store_triple((p1, RDFS.subPropertyOf, p3))
 
             # RULE scm-eqp2
             if (p2, RDFS.subPropertyOf, p1) in self.graph:
                 self.store_triple((p1, OWL.equivalentProperty, p2))
 
         # RULE scm-eqp
-        # Optimize out the trivial identity case (set elsewhere already)
-        elif p == OWL.equivalentProperty and s != o:
+        elif p == OWL.equivalentProperty:
             p1, p2 = s, o
             self.store_triple((p1, RDFS.subPropertyOf, p2))
             self.store_triple((p2, RDFS.subPropertyOf, p1))
-- 
2.43.0


From bcd6734b6a94ad79a047f50bc1d08102dde8baee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:33 +0000
Subject: [PATCH 48/54] fix: the datatype axioms also declare negativeInteger
 and nonNegativeInteger

---
 owlrl/AxiomaticTriples.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/owlrl/AxiomaticTriples.py b/owlrl/AxiomaticTriples.py
index 5eeec22..0f71844 100755
--- a/owlrl/AxiomaticTriples.py
+++ b/owlrl/AxiomaticTriples.py
@@ -142,9 +142,9 @@ RDFS_D_Axiomatic_Triples_types = [
     (XSD.integer, RDF.type, RDFS.Datatype),
     (XSD.decimal, RDF.type, RDFS.Datatype),
     (XSD.nonPositiveInteger, RDF.type, RDFS.Datatype),
-    (XSD.nonPositiveInteger, RDF.type, RDFS.Datatype),
-    (XSD.positiveInteger, RDF.type, RDFS.Datatype),
+    (XSD.negativeInteger, RDF.type, RDFS.Datatype),
     (XSD.positiveInteger, RDF.type, RDFS.Datatype),
+    (XSD.nonNegativeInteger, RDF.type, RDFS.Datatype),
     (XSD.long, RDF.type, RDFS.Datatype),
     (XSD.int, RDF.type, RDFS.Datatype),
     (XSD.short, RDF.type, RDFS.Datatype),
-- 
2.43.0


From 0f1a4c3128b96a793eeb5dbbd7c188ef4e968b00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:30 +0000
Subject: [PATCH 49/54] fix: restrictions by length, pattern or language range
 are not refused

---
 owlrl/RestrictedDatatype.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/owlrl/RestrictedDatatype.py b/owlrl/RestrictedDatatype.py
index eedfe1a..c86b0d7 100644
--- a/owlrl/RestrictedDatatype.py
+++ b/owlrl/RestrictedDatatype.py
@@ -57,11 +57,14 @@ __license__ = "W3C® SOFTWARE NOTICE AND LICENSE, http://www.w3.org/Consortium/L
 import re
 
 from rdflib.namespace import OWL, RDF, RDFS, XSD
-from rdflib import Literal as rdflibLiteral
+from rdflib import Literal as rdflibLiteral, URIRef
 
 from .DatatypeHandling import AltXSDToPYTHON
 from functools import reduce
 
+# The language range facet is not part of RDFLib's (closed) namespace for RDF
+LANG_RANGE = URIRef(str(RDF) + "langRange")
+
 # Constant for datatypes using min, max (inclusive and exclusive):
 MIN_MAX = 0
 # Constant for datatypes using length, minLength, and maxLength (and nothing else)
@@ -383,7 +386,7 @@ class RestrictedDatatype(RestrictedDatatypeCore):
                 self.maxExclusive is None or value < self.maxExclusive
             ):
                 self.maxExclusive = value
-            elif facet == RDF.langRange:
+            elif facet == LANG_RANGE:
                 self.langRange.append(value)
             elif facet == XSD.length:
                 self.length = value
-- 
2.43.0


From 20e8e8a86d2e6c7f67b3444ead01e3c570d6993c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:31 +0000
Subject: [PATCH 50/54] fix: the RDF/XML output of convert_graph is complete

RDFLib's pretty-xml serializer drops statements on lists and blank nodes, and fails on
blank nodes as types.
---
 owlrl/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/owlrl/__init__.py b/owlrl/__init__.py
index 3ef8a3b..7fa0cba 100755
--- a/owlrl/__init__.py
+++ b/owlrl/__init__.py
@@ -599,7 +599,7 @@ def convert_graph(options, closureClass=None):
             graph.remove((s, p, o))
 
     if options.format == RDFXML or options.format == "rdfxml":
-        return graph.serialize(format="pretty-xml")
+        return graph.serialize(format="xml")
     elif options.format == "json":
         return graph.serialize(format="json-ld")
     else:
-- 
2.43.0


From de8bddfe03167e08b14765f87a6af80dcfc86335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:06 +0000
Subject: [PATCH 51/54] fix: empty source fields of the CGI form are ignored in
 multipart requests, too

---
 scripts/RDFConvertService | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/scripts/RDFConvertService b/scripts/RDFConvertService
index e771d0f..c4cec37 100755
--- a/scripts/RDFConvertService
+++ b/scripts/RDFConvertService
@@ -52,9 +52,9 @@ class Options:
         self.text = None
         self.format = TURTLE
 
-        if "source_1" in list(frm.keys()):
+        if frm.getfirst("source_1"):
             self.sources.append(frm.getfirst("source_1"))
-        if "source_2" in list(frm.keys()):
+        if frm.getfirst("source_2"):
             self.sources.append(frm.getfirst("source_2"))
         
         if "text" in list(frm.keys()):
@@ -85,9 +85,9 @@ class Options:
                 self.daxioms = frm.getfirst("daxioms")
 
         # this one is for backward compatibility...
-        if "uri" in list(frm.keys()):
+        if frm.getfirst("uri"):
             self.sources.append(frm.getfirst("uri"))
-        if "source" in list(frm.keys()):
+        if frm.getfirst("source"):
             self.sources.append(frm.getfirst("source"))
         
     def to_html(self):
-- 
2.43.0


From 4154506db992c9576b95c5d798eaea9abc92d9d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:20 +0000
Subject: [PATCH 52/54] fix: an incomplete list is not taken for a shorter one

The rules of OWL 2 RL hold for complete lists. Parts of a list may only be inferred in a later cycle (or be missing
altogether); what the shorter list would entail is not entailed, and would not follow from a larger graph either.
---
 owlrl/OWLRL.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/owlrl/OWLRL.py b/owlrl/OWLRL.py
index d9c3d47..9bece57 100755
--- a/owlrl/OWLRL.py
+++ b/owlrl/OWLRL.py
@@ -123,15 +123,19 @@ class OWLRL_Semantics(Core):
         Shorthand to get a list of values (ie, from an rdf:List structure) starting at a head
 
         @param l: RDFLib resource, should be the head of an rdf:List
-        @return: array of resources
+        @return: array of resources (empty if this is not a complete list)
         """
         retval = []
-        try:
-            for ch in self.graph.items(l):
-                retval.append(ch)
-        except ValueError:
-            # RDFLib has found a cell for the second time: the list is circular, its members end here
-            pass
+        cells = set()
+        while l != RDF.nil:
+            first, rest = self.graph.value(l, RDF.first), self.graph.value(l, RDF.rest)
+            if first is None or rest is None or l in cells:
+                # Incomplete (parts of it may still have to be inferred) or circular. The rules hold for lists, taking
+                # this for a shorter one would lead to conclusions that are not entailed
+                return []
+            cells.add(l)
+            retval.append(first)
+            l = rest
         return retval
 
     @staticmethod
-- 
2.43.0


From c0c299aec512f39e55fde647ed887fde089e6f2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:52 +0000
Subject: [PATCH 53/54] fix: a boolean is not the cardinality 0 or 1

---
 owlrl/OWLRL.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/owlrl/OWLRL.py b/owlrl/OWLRL.py
index 9bece57..ae9e2cf 100755
--- a/owlrl/OWLRL.py
+++ b/owlrl/OWLRL.py
@@ -147,7 +147,8 @@ class OWLRL_Semantics(Core):
         @return: the value, None if the resource is not a literal with a (comparable) value
         """
         value = x.value if isinstance(x, rdflib.Literal) else None
-        if isinstance(value, Decimal) and not value.is_finite():
+        if isinstance(value, bool) or isinstance(value, Decimal) and not value.is_finite():
+            # 'true' is not the number 1, even if they are equal in Python
             return None
         return value
 
-- 
2.43.0


From be70be73eb6f732601e17d22472ded032d762e40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:53:22 +0000
Subject: [PATCH 54/54] fix: a literal that cannot be compared with a facet of
 its datatype is an error, not a crash

---
 owlrl/RestrictedDatatype.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/owlrl/RestrictedDatatype.py b/owlrl/RestrictedDatatype.py
index c86b0d7..83bdde4 100644
--- a/owlrl/RestrictedDatatype.py
+++ b/owlrl/RestrictedDatatype.py
@@ -147,7 +147,12 @@ def _lit_to_value(dt, v):
     for cat in Datatypes_per_facets:
         if dt.base_type in Datatypes_per_facets[cat]:
             # yep, this is to be checked.
-            if not dt.checkValue(value):
+            try:
+                fits = dt.checkValue(value)
+            except Exception:
+                # the value cannot even be compared with the value of a facet
+                fits = False
+            if not fits:
                 raise ValueError(
                     "Literal value %s does not fit the faceted datatype %s" % (v, dt)
                 )
-- 
2.43.0

