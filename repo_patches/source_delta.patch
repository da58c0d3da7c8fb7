From b9617f2c98b34db902f9246b4f820113db303d44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:12 +0000
Subject: [PATCH 01/51] fix: eq-diff2/eq-diff3 must consider the last member of
 the AllDifferent list

---
 owlrl/OWLRL.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/owlrl/OWLRL.py b/owlrl/OWLRL.py
index 33f1b63..73dea10 100755
--- a/owlrl/OWLRL.py
+++ b/owlrl/OWLRL.py
@@ -424,7 +424,7 @@ class OWLRL_Semantics(Core):
                 zis = self._list(y)
                 for i in range(0, len(zis) - 1):
                     zi = zis[i]
-                    for j in range(i + 1, len(zis) - 1):
+                    for j in range(i + 1, len(zis)):
                         zj = zis[j]
                         if (
                             (zi, OWL.sameAs, zj) in self.graph
-- 
2.43.0


From 55043ce578039a86b5729af64326f76182875df8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:12 +0000
Subject: [PATCH 02/51] fix: prp-adp must consider the last property of the
 AllDisjointProperties list

---
 owlrl/OWLRL.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/owlrl/OWLRL.py b/owlrl/OWLRL.py
index 73dea10..751ac8e 100755
--- a/owlrl/OWLRL.py
+++ b/owlrl/OWLRL.py
@@ -520,7 +520,7 @@ class OWLRL_Semantics(Core):
                     pis = self._list(y)
                     for i in range(0, len(pis) - 1):
                         pi = pis[i]
-                        for j in range(i + 1, len(pis) - 1):
+                        for j in range(i + 1, len(pis)):
                             pj = pis[j]
                             for x, y in self.graph.subject_objects(pi):
                                 if (x, pj, y) in self.graph:
-- 
2.43.0


From e95fe13d589092f5d9d719d3b84c20e50f9289e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:12 +0000
Subject: [PATCH 03/51] fix: prp-key must compare every key property, including
 the last one

---
 owlrl/OWLRL.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/owlrl/OWLRL.py b/owlrl/OWLRL.py
index 751ac8e..f288010 100755
--- a/owlrl/OWLRL.py
+++ b/owlrl/OWLRL.py
@@ -610,7 +610,7 @@ class OWLRL_Semantics(Core):
                             # 'calculate' the keys for the y values and see if there is a match
                             for vals in valueList:
                                 same = True
-                                for i in range(0, len(pis) - 1):
+                                for i in range(0, len(pis)):
                                     if (y, pis[i], vals[i]) not in self.graph:
                                         same = False
                                         # No use going with this property line
-- 
2.43.0


From e178dee8b0ba5e6b25a84a14e9678db80795cbd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:12 +0000
Subject: [PATCH 04/51] fix: a maximum cardinality that is not a literal must
 not abort the closure

---
 owlrl/OWLRL.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/owlrl/OWLRL.py b/owlrl/OWLRL.py
index f288010..08b2246 100755
--- a/owlrl/OWLRL.py
+++ b/owlrl/OWLRL.py
@@ -35,7 +35,7 @@ from collections import defaultdict
 from typing import Union
 
 import rdflib
-from rdflib import BNode, Graph
+from rdflib import BNode, Graph, Literal
 from rdflib.namespace import OWL, RDF, RDFS
 
 from owlrl.Closure import Core
@@ -726,7 +726,7 @@ class OWLRL_Semantics(Core):
                     self.store_triple((u, RDF.type, xx))
 
         # RULES cls-maxc1 and cls-maxc1
-        elif p == OWL.maxCardinality:
+        elif p == OWL.maxCardinality and isinstance(x, Literal):
             # This one is a bit complicated, because the literals have been
             # exchanged against bnodes...
             #
@@ -753,7 +753,7 @@ class OWLRL_Semantics(Core):
                                     self.store_triple((y1, OWL.sameAs, y2))
 
         # RULES cls-maxqc1, cls-maxqc2, cls-maxqc3, cls-maxqc4
-        elif p == OWL.maxQualifiedCardinality:
+        elif p == OWL.maxQualifiedCardinality and isinstance(x, Literal):
             # This one is a bit complicated, because the literals have been
             # exchanged against bnodes...
             #
-- 
2.43.0


From 246e61ec91016a866beef6bda83da135e099c867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:12 +0000
Subject: [PATCH 05/51] fix: sameAs must carry over the datatypes of a
 resource, not the resource itself as a datatype

---
 owlrl/OWLRL.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/owlrl/OWLRL.py b/owlrl/OWLRL.py
index 08b2246..c8ea3a0 100755
--- a/owlrl/OWLRL.py
+++ b/owlrl/OWLRL.py
@@ -185,7 +185,7 @@ class OWLRL_Semantics(Core):
 
         # noinspection PyShadowingNames
         def _append_to_explicit(s, o):
-            explicit[s].add(o)
+            explicit[s].update(explicit[o])
 
         # noinspection PyShadowingNames
         def _handle_subsumptions(r, dt):
-- 
2.43.0


From ca66e3bdcd810544d687d4bb0d48b5d255fdbaa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:12 +0000
Subject: [PATCH 06/51] fix: cls-com error message must name the offending
 individual

---
 owlrl/OWLRL.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/owlrl/OWLRL.py b/owlrl/OWLRL.py
index c8ea3a0..3e3992c 100755
--- a/owlrl/OWLRL.py
+++ b/owlrl/OWLRL.py
@@ -687,7 +687,7 @@ class OWLRL_Semantics(Core):
                 if (x1, RDF.type, c2) in self.graph:
                     self.add_error(
                         "Violation of complementarity for classes %s and %s on element %s"
-                        % (c1, c2, x)
+                        % (c1, c2, x1)
                     )
 
         # RULES cls-svf1 and cls=svf2
-- 
2.43.0


From 2544225b50672518083e24fbe7603bc8a159c157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:58 +0000
Subject: [PATCH 07/51] fix: a malformed xsd:decimal must raise ValueError
 rather than decimal.InvalidOperation

---
 owlrl/DatatypeHandling.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/owlrl/DatatypeHandling.py b/owlrl/DatatypeHandling.py
index 19b3531..4b59e99 100755
--- a/owlrl/DatatypeHandling.py
+++ b/owlrl/DatatypeHandling.py
@@ -39,7 +39,7 @@ from rdflib.namespace import RDF, XSD
 from rdflib.term import XSDToPython, Literal, _toPythonMapping
 
 import datetime, time, re
-from decimal import Decimal
+from decimal import Decimal, InvalidOperation
 
 
 # noinspection PyMissingConstructor,PyPep8Naming
@@ -128,8 +128,10 @@ def _strToDecimal(v):
     if v.find("E") != -1 or v.find("e") != -1:
         # this is an invalid lexical form, though would be accepted by Python
         raise ValueError("Invalid decimal literal value %s" % v)
-    else:
+    try:
         return Decimal(v)
+    except InvalidOperation:
+        raise ValueError("Invalid decimal literal value %s" % v)
 
 
 # ANY URIS ##################################################
-- 
2.43.0


From 40dd86621b39391954ed755d983a4fc7cc382739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:58 +0000
Subject: [PATCH 08/51] fix: an empty date or time literal must raise
 ValueError rather than IndexError

---
 owlrl/DatatypeHandling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/owlrl/DatatypeHandling.py b/owlrl/DatatypeHandling.py
index 4b59e99..b34cbb3 100755
--- a/owlrl/DatatypeHandling.py
+++ b/owlrl/DatatypeHandling.py
@@ -78,7 +78,7 @@ def _returnTimeZone(incoming_v):
     @return (v,timezone) tuple; 'v' is the input string with the timezone info cut off, 'timezone' is a L{_namelessTZ}
     instance or None
     """
-    if incoming_v[-1] == "Z":
+    if incoming_v[-1:] == "Z":
         v = incoming_v[:-1]
         tzone = _namelessTZ(0, 0)
     else:
-- 
2.43.0


From 2eebe426d26f61a48a5ef7449e481e3c4ee36abb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:58 +0000
Subject: [PATCH 09/51] fix: negative timezone offsets must apply the sign to
 both the hours and the minutes

---
 owlrl/DatatypeHandling.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/owlrl/DatatypeHandling.py b/owlrl/DatatypeHandling.py
index b34cbb3..1caa369 100755
--- a/owlrl/DatatypeHandling.py
+++ b/owlrl/DatatypeHandling.py
@@ -89,9 +89,10 @@ def _returnTimeZone(incoming_v):
             tzone = None
         else:
             hours = int(match.groups()[1])
-            if match.groups()[0] == "-":
-                hours = -hours - 1
             minutes = int(match.groups()[2])
+            if match.groups()[0] == "-":
+                hours = -hours
+                minutes = -minutes
             v = incoming_v[:-6]
             tzone = _namelessTZ(hours, minutes)
     return v, tzone
-- 
2.43.0


From 50f54a3b86ca9135ba2136112a03a847ff3d8cb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:58 +0000
Subject: [PATCH 10/51] fix: fractional seconds must be scaled to microseconds

---
 owlrl/DatatypeHandling.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/owlrl/DatatypeHandling.py b/owlrl/DatatypeHandling.py
index 1caa369..ebc2971 100755
--- a/owlrl/DatatypeHandling.py
+++ b/owlrl/DatatypeHandling.py
@@ -356,7 +356,7 @@ def _strToDateTimeAndStamp(incoming_v, timezone_required=False):
         # we have a millisecond portion...
         try:
             final_v = match.groups()[0]
-            milliseconds = int(match.groups()[2])
+            milliseconds = int(match.groups()[2][:6].ljust(6, "0"))
         except:
             raise ValueError("Invalid datetime %s" % incoming_v)
     #
@@ -410,7 +410,7 @@ def _strToTime(incoming_v):
         # we have a millisecond portion...
         try:
             final_v = match.groups()[0]
-            milliseconds = int(match.groups()[2])
+            milliseconds = int(match.groups()[2][:6].ljust(6, "0"))
         except:
             raise ValueError("Invalid datetime %s" % incoming_v)
     #
-- 
2.43.0


From 765226d1098828e0261942d0a7717a89f9227b7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:58 +0000
Subject: [PATCH 11/51] fix: zero, infinity and NaN are valid xsd:double and
 xsd:float values

---
 owlrl/DatatypeHandling.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/owlrl/DatatypeHandling.py b/owlrl/DatatypeHandling.py
index ebc2971..41efce8 100755
--- a/owlrl/DatatypeHandling.py
+++ b/owlrl/DatatypeHandling.py
@@ -277,11 +277,13 @@ def _strToDouble(v):
     @return Decimal
     @raise ValueError: invalid value
     """
+    if v in ("INF", "-INF", "NaN"):
+        return Decimal(v)
     try:
         value = Decimal(v)
         upper = Decimal("1.0E+310")
         lower = Decimal("1.0E-330")
-        if lower < abs(value) < upper:
+        if value == 0 or lower < abs(value) < upper:
             # bingo
             return value
         else:
@@ -300,11 +302,13 @@ def _strToFloat(v):
     @return Decimal if the local python version is >= 2.4, float otherwise
     @raise ValueError: invalid value
     """
+    if v in ("INF", "-INF", "NaN"):
+        return Decimal(v)
     try:
         value = Decimal(v)
         upper = Decimal("1.0E+40")
         lower = Decimal("1.0E-50")
-        if lower < abs(value) < upper:
+        if value == 0 or lower < abs(value) < upper:
             # bingo
             return value
         else:
-- 
2.43.0


From 1e77dbf23564d50e5e2ad7f968520674779ac883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:58 +0000
Subject: [PATCH 12/51] fix: an xsd:hexBinary with an odd number of characters
 must be rejected

---
 owlrl/DatatypeHandling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/owlrl/DatatypeHandling.py b/owlrl/DatatypeHandling.py
index 41efce8..aedea01 100755
--- a/owlrl/DatatypeHandling.py
+++ b/owlrl/DatatypeHandling.py
@@ -328,7 +328,7 @@ def _strToHexBinary(v):
     """
     # first of all, the number of characters must be even according to the xsd spec:
     length = len(v)
-    if (length / 2) * 2 != length:
+    if (length // 2) * 2 != length:
         raise ValueError("Invalid hex binary number %s" % v)
     return int(v, 16)
 
-- 
2.43.0


From 38ff4ace5afe00e858280257270be7ce81443b1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:58 +0000
Subject: [PATCH 13/51] fix: only true, false, 1 and 0 are valid xsd:boolean
 values

---
 owlrl/DatatypeHandling.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/owlrl/DatatypeHandling.py b/owlrl/DatatypeHandling.py
index aedea01..2bc45d6 100755
--- a/owlrl/DatatypeHandling.py
+++ b/owlrl/DatatypeHandling.py
@@ -106,9 +106,9 @@ def _strToBool(v):
     @return corresponding boolean value
     @raise ValueError: invalid boolean values
     """
-    if v.lower() == "true" or v.lower() == "1":
+    if v == "true" or v == "1":
         return True
-    elif v.lower() == "false" or v.lower() == "0":
+    elif v == "false" or v == "0":
         return False
     else:
         raise ValueError("Invalid boolean literal value %s" % v)
-- 
2.43.0


From de27da5c8dde3e09cf21870dafe26d96406fb7d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:58 +0000
Subject: [PATCH 14/51] fix: the empty string is a valid xsd:normalizedString

---
 owlrl/DatatypeHandling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/owlrl/DatatypeHandling.py b/owlrl/DatatypeHandling.py
index 2bc45d6..2befebd 100755
--- a/owlrl/DatatypeHandling.py
+++ b/owlrl/DatatypeHandling.py
@@ -676,7 +676,7 @@ AltXSDToPYTHON = {
     XSD.integer: int,
     XSD.string: lambda v: v,
     RDF.HTML: lambda v: v,
-    XSD.normalizedString: lambda v: _strToVal_Regexp(v, _re_token),
+    XSD.normalizedString: lambda v: _strToVal_Regexp(v, _re_token) if v else v,
     # These are RDFS specific...
     XSD.time: _strToTime,
     XSD.date: _strToDate,
-- 
2.43.0


From 2315b03c3e896af35a529a3621cc7b8b3a403239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:58 +0000
Subject: [PATCH 15/51] fix: use_RDFLib_lexical_conversions must also withdraw
 the conversions unknown to RDFLib

---
 owlrl/DatatypeHandling.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/owlrl/DatatypeHandling.py b/owlrl/DatatypeHandling.py
index 2befebd..803c3b4 100755
--- a/owlrl/DatatypeHandling.py
+++ b/owlrl/DatatypeHandling.py
@@ -702,6 +702,9 @@ def use_RDFLib_lexical_conversions():
     """
     Restore the original (ie, RDFLib) set of lexical conversion routines.
     """
+    for datatype in AltXSDToPYTHON:
+        if datatype not in XSDToPython:
+            _toPythonMapping.pop(datatype, None)
     _toPythonMapping.update(XSDToPython)
 
 
-- 
2.43.0


From 39c52ec484a04e4ed82aa25f3a95489398f8bed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:58 +0000
Subject: [PATCH 16/51] fix: xsd:NMTOKEN is not a subtype of xsd:Name

---
 owlrl/XsdDatatypes.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/owlrl/XsdDatatypes.py b/owlrl/XsdDatatypes.py
index adb4a9a..d881af3 100755
--- a/owlrl/XsdDatatypes.py
+++ b/owlrl/XsdDatatypes.py
@@ -145,7 +145,6 @@ _Common_Datatype_Subsumptions = {
         XSD.string,
     ],
     XSD.NMTOKEN: [
-        XSD.Name,
         XSD.token,
         XSD.normalizedString,
         XSD.string,
-- 
2.43.0


From bcdf7e8e8c0ce88c2831e31c9c793862dd272f78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:58 +0000
Subject: [PATCH 17/51] fix: the datatype axioms must type
 xsd:nonNegativeInteger and xsd:negativeInteger

---
 owlrl/AxiomaticTriples.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/owlrl/AxiomaticTriples.py b/owlrl/AxiomaticTriples.py
index 5eeec22..40e00a4 100755
--- a/owlrl/AxiomaticTriples.py
+++ b/owlrl/AxiomaticTriples.py
@@ -141,10 +141,10 @@ RDFS_D_Axiomatic_Triples_subclasses = [
 RDFS_D_Axiomatic_Triples_types = [
     (XSD.integer, RDF.type, RDFS.Datatype),
     (XSD.decimal, RDF.type, RDFS.Datatype),
+    (XSD.nonNegativeInteger, RDF.type, RDFS.Datatype),
     (XSD.nonPositiveInteger, RDF.type, RDFS.Datatype),
-    (XSD.nonPositiveInteger, RDF.type, RDFS.Datatype),
-    (XSD.positiveInteger, RDF.type, RDFS.Datatype),
     (XSD.positiveInteger, RDF.type, RDFS.Datatype),
+    (XSD.negativeInteger, RDF.type, RDFS.Datatype),
     (XSD.long, RDF.type, RDFS.Datatype),
     (XSD.int, RDF.type, RDFS.Datatype),
     (XSD.short, RDF.type, RDFS.Datatype),
-- 
2.43.0


From 812c40e652765c837dc5203a73b9bc7a67a2116a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:58 +0000
Subject: [PATCH 18/51] fix: owl:Class is a domain, not a range, of owl:unionOf

---
 owlrl/AxiomaticTriples.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/owlrl/AxiomaticTriples.py b/owlrl/AxiomaticTriples.py
index 40e00a4..3058a28 100755
--- a/owlrl/AxiomaticTriples.py
+++ b/owlrl/AxiomaticTriples.py
@@ -451,7 +451,7 @@ _OWL_axiomatic_triples_Properties = [
     (OWL.onDatatype, RDFS.range, OWL.DataRange),
     (OWL.oneOf, RDFS.domain, OWL.Class),
     (OWL.someValuesFrom, RDFS.range, OWL.Class),
-    (OWL.unionOf, RDFS.range, OWL.Class),
+    (OWL.unionOf, RDFS.domain, OWL.Class),
     #    (OWL.withRestrictions, RDFS.domain, OWL.DataRange)
 ]
 
-- 
2.43.0


From 6d665ca899e2fc8317cb764ea1eb58b7cfbdc63c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:02 +0000
Subject: [PATCH 19/51] fix: the value of an xsd:hexBinary is a sequence of
 octets, so that its length can be restricted

---
 owlrl/DatatypeHandling.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/owlrl/DatatypeHandling.py b/owlrl/DatatypeHandling.py
index 803c3b4..1fa408a 100755
--- a/owlrl/DatatypeHandling.py
+++ b/owlrl/DatatypeHandling.py
@@ -38,7 +38,7 @@ from rdflib.namespace import RDF, XSD
 
 from rdflib.term import XSDToPython, Literal, _toPythonMapping
 
-import datetime, time, re
+import binascii, datetime, time, re
 from decimal import Decimal, InvalidOperation
 
 
@@ -323,14 +323,14 @@ def _strToFloat(v):
 def _strToHexBinary(v):
     """Test (and convert) hexa integer values. The number of characters should be even.
     @param v: the literal string defined as a hexa number
-    @return long value
+    @return bytes value
     @raise ValueError: invalid value
     """
     # first of all, the number of characters must be even according to the xsd spec:
     length = len(v)
     if (length // 2) * 2 != length:
         raise ValueError("Invalid hex binary number %s" % v)
-    return int(v, 16)
+    return binascii.unhexlify(v)
 
 
 # Datetime, date timestamp, etc ################################
-- 
2.43.0


From 427a3947b4ca30c88e6b36848675f1d31097aefe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:02 +0000
Subject: [PATCH 20/51] fix: the closed RDF namespace of rdflib has no
 langRange, so length and pattern restrictions were all dropped

---
 owlrl/RestrictedDatatype.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/owlrl/RestrictedDatatype.py b/owlrl/RestrictedDatatype.py
index ac45d78..ebde76a 100644
--- a/owlrl/RestrictedDatatype.py
+++ b/owlrl/RestrictedDatatype.py
@@ -58,10 +58,14 @@ import re
 
 from rdflib.namespace import OWL, RDF, RDFS, XSD
 from rdflib import Literal as rdflibLiteral
+from rdflib import URIRef
 
 from .DatatypeHandling import AltXSDToPYTHON
 from functools import reduce
 
+# The langRange facet: rdflib's RDF namespace is closed and does not include this term
+RDF_langRange = URIRef("http://www.w3.org/1999/02/22-rdf-syntax-ns#langRange")
+
 # Constant for datatypes using min, max (inclusive and exclusive):
 MIN_MAX = 0
 # Constant for datatypes using length, minLength, and maxLength (and nothing else)
@@ -381,7 +385,7 @@ class RestrictedDatatype(RestrictedDatatypeCore):
                 self.maxExclusive is None or value < self.maxExclusive
             ):
                 self.maxExclusive = value
-            elif facet == RDF.langRange:
+            elif facet == RDF_langRange:
                 self.langRange.append(value)
             elif facet == XSD.length:
                 self.length = value
-- 
2.43.0


From bc00beae2a41a9ce71ea22fdfe53f6d35ca347ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:02 +0000
Subject: [PATCH 21/51] fix: pattern facets must be enforced on
 rdf:PlainLiteral restrictions

---
 owlrl/RestrictedDatatype.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/owlrl/RestrictedDatatype.py b/owlrl/RestrictedDatatype.py
index ebde76a..0d09c1b 100644
--- a/owlrl/RestrictedDatatype.py
+++ b/owlrl/RestrictedDatatype.py
@@ -423,6 +423,7 @@ class RestrictedDatatype(RestrictedDatatypeCore):
                 RestrictedDatatype._check_min_length,
                 RestrictedDatatype._check_max_length,
                 RestrictedDatatype._check_length,
+                RestrictedDatatype._check_pattern,
                 RestrictedDatatype._check_lang_range,
             ],
         }
-- 
2.43.0


From 87b0c10762fc3e2cfc529a7510ae98e0f2876e72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:02 +0000
Subject: [PATCH 22/51] fix: a pattern facet must match the whole value

---
 owlrl/RestrictedDatatype.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/owlrl/RestrictedDatatype.py b/owlrl/RestrictedDatatype.py
index 0d09c1b..b440a7b 100644
--- a/owlrl/RestrictedDatatype.py
+++ b/owlrl/RestrictedDatatype.py
@@ -546,7 +546,7 @@ class RestrictedDatatype(RestrictedDatatypeCore):
         else:
             val = value
         for p in self.pattern:
-            if p.match(val) is None:
+            if p.fullmatch(val) is None:
                 return False
         return True
 
-- 
2.43.0


From effdf3457eae58ae9a10ea1fca6cfe1bbf21cd14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:02 +0000
Subject: [PATCH 23/51] fix: xsd:int and xsd:token can be restricted by facets

---
 owlrl/RestrictedDatatype.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/owlrl/RestrictedDatatype.py b/owlrl/RestrictedDatatype.py
index b440a7b..118b97b 100644
--- a/owlrl/RestrictedDatatype.py
+++ b/owlrl/RestrictedDatatype.py
@@ -87,6 +87,7 @@ Datatypes_per_facets = {
         XSD.positiveInteger,
         XSD.negativeInteger,
         XSD.long,
+        XSD.int,
         XSD.short,
         XSD.byte,
         XSD.unsignedLong,
@@ -104,6 +105,7 @@ Datatypes_per_facets = {
     LENGTH_AND_PATTERN: [
         XSD.anyURI,
         XSD.string,
+        XSD.token,
         XSD.NMTOKEN,
         XSD.Name,
         XSD.NCName,
-- 
2.43.0


From 2c6bd81e4a492359f2bcc6ff844a44cd52cf012f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:02 +0000
Subject: [PATCH 24/51] fix: a value that cannot be compared with a facet must
 raise ValueError

---
 owlrl/RestrictedDatatype.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/owlrl/RestrictedDatatype.py b/owlrl/RestrictedDatatype.py
index 118b97b..2e81087 100644
--- a/owlrl/RestrictedDatatype.py
+++ b/owlrl/RestrictedDatatype.py
@@ -148,7 +148,12 @@ def _lit_to_value(dt, v):
     for cat in Datatypes_per_facets:
         if dt.base_type in Datatypes_per_facets[cat]:
             # yep, this is to be checked.
-            if not dt.checkValue(value):
+            try:
+                valid = dt.checkValue(value)
+            except Exception:
+                # eg, the facet and the value cannot be compared with one another
+                valid = False
+            if not valid:
                 raise ValueError(
                     "Literal value %s does not fit the faceted datatype %s" % (v, dt)
                 )
-- 
2.43.0


From cc56ca20ef93a9e3df9031c03a83e3fb70dfd938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:02 +0000
Subject: [PATCH 25/51] fix: a literal without a language tag does not match
 any language range

---
 owlrl/RestrictedDatatype.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/owlrl/RestrictedDatatype.py b/owlrl/RestrictedDatatype.py
index 2e81087..4f3f414 100644
--- a/owlrl/RestrictedDatatype.py
+++ b/owlrl/RestrictedDatatype.py
@@ -568,6 +568,6 @@ class RestrictedDatatype(RestrictedDatatypeCore):
         else:
             return False
         for r in self.langRange:
-            if not _lang_range_check(r, lang):
+            if lang is None or not _lang_range_check(r, lang):
                 return False
         return True
-- 
2.43.0


From e90352ee2270e8fa08d589df09a9ad9cb2fbda0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:02 +0000
Subject: [PATCH 26/51] fix: the allValuesFrom check on restricted datatypes
 relied on the removed literal proxies

---
 owlrl/OWLRLExtras.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/owlrl/OWLRLExtras.py b/owlrl/OWLRLExtras.py
index 64c3734..53ef727 100755
--- a/owlrl/OWLRLExtras.py
+++ b/owlrl/OWLRLExtras.py
@@ -201,10 +201,8 @@ class OWLRL_Extension(RDFS_OWLRL_Semantics):
             for rt in self.restricted_datatypes:
                 if rt.datatype == t:
                     # bingo
-                    if v in self.literal_proxies.bnode_to_lit:
-                        return rt.checkValue(
-                            self.literal_proxies.bnode_to_lit[v].lit.toPython()
-                        )
+                    if isinstance(v, rdflib.Literal):
+                        return rt.checkValue(rt.converter(str(v)))
                     else:
                         return True
             # if we got here, no restriction applies
-- 
2.43.0


From 263a122bf2ce1e111816a622d9f7a6bf21b7b9d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:02 +0000
Subject: [PATCH 27/51] fix: facets must be checked on the value given by the
 conversion of the base datatype

---
 owlrl/OWLRLExtras.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/owlrl/OWLRLExtras.py b/owlrl/OWLRLExtras.py
index 53ef727..da61111 100755
--- a/owlrl/OWLRLExtras.py
+++ b/owlrl/OWLRLExtras.py
@@ -174,7 +174,7 @@ class OWLRL_Extension(RDFS_OWLRL_Semantics):
                 if (lt, RDF.type, base_type) in self.graph:
                     try:
                         # the conversion or the check may go wrong and raise an exception; then simply move on
-                        if rt.checkValue(lt.toPython()):
+                        if rt.checkValue(rt.converter(str(lt))):
                             # yep, this is also of type 'rt'
                             self.store_triple((lt, RDF.type, rt.datatype))
                     except:
-- 
2.43.0


From a2b30d7188c8130d3a1924e27700e4e7831005ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:01 +0000
Subject: [PATCH 28/51] fix: source and destination graphs must share the same
 store, say so in the error

---
 owlrl/Closure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/owlrl/Closure.py b/owlrl/Closure.py
index 6cfd747..76b2797 100755
--- a/owlrl/Closure.py
+++ b/owlrl/Closure.py
@@ -141,7 +141,7 @@ class Core:
                 source_store = self.graph.store
                 dest_store = destination.store
                 if source_store is not dest_store:
-                    raise ValueError("The source and destination graphs share the same backing store")
+                    raise ValueError("The source and destination graphs must share the same backing store")
                 self.destination = destination
 
         self.axioms = axioms
-- 
2.43.0


From af4cdaca637988cafe0997100c6d9fef2fee48d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:01 +0000
Subject: [PATCH 29/51] fix: rdfs4a and rdfs4b must also apply to the triples
 derived after the first cycle

---
 owlrl/RDFSClosure.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/owlrl/RDFSClosure.py b/owlrl/RDFSClosure.py
index c3020b8..5bfc2f6 100755
--- a/owlrl/RDFSClosure.py
+++ b/owlrl/RDFSClosure.py
@@ -157,11 +157,9 @@ class RDFS_Semantics(Core):
         # rdf1
         self.store_triple((p, RDF.type, RDF.Property))
         # rdfs4a
-        if cycle_num == 1:
-            self.store_triple((s, RDF.type, RDFS.Resource))
+        self.store_triple((s, RDF.type, RDFS.Resource))
         # rdfs4b
-        if cycle_num == 1:
-            self.store_triple((o, RDF.type, RDFS.Resource))
+        self.store_triple((o, RDF.type, RDFS.Resource))
         if p == RDFS.domain:
             # rdfs2
             for uuu, Y, yyy in self.graph.triples((None, s, None)):
-- 
2.43.0


From f5934fa1f88ae56b3e5d872a357d7f96a468ccd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:01 +0000
Subject: [PATCH 30/51] fix: the post-processing must not remove triples from
 the source graph if the destination is a separate one

---
 owlrl/Closure.py | 3 +++
 owlrl/OWLRL.py   | 3 ++-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/owlrl/Closure.py b/owlrl/Closure.py
index 76b2797..e40f368 100755
--- a/owlrl/Closure.py
+++ b/owlrl/Closure.py
@@ -126,6 +126,9 @@ class Core:
         if isinstance(self.graph, (Dataset, ConjunctiveGraph)):
             self.graph.default_union = True
 
+        # whether the source graph itself is to be expanded
+        self.in_place = destination is None
+
         if destination is None:
             if isinstance(graph, (Dataset, ConjunctiveGraph)):
                 self.destination = graph.default_context
diff --git a/owlrl/OWLRL.py b/owlrl/OWLRL.py
index 3e3992c..129a452 100755
--- a/owlrl/OWLRL.py
+++ b/owlrl/OWLRL.py
@@ -135,7 +135,8 @@ class OWLRL_Semantics(Core):
                     to_be_removed.append(t)
         for t in to_be_removed:
             self.destination.remove(t)
-            self.graph.remove(t)
+            if self.in_place:
+                self.graph.remove(t)
 
     def add_axioms(self):
         """
-- 
2.43.0


From 1cb8586408e8248a7e77734c7fa010b9f376990d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:02 +0000
Subject: [PATCH 31/51] fix: IMaxNum must be the maximal index of the rdf:_i
 predicates of the graph

---
 owlrl/Closure.py | 23 +++++++++--------------
 1 file changed, 9 insertions(+), 14 deletions(-)

diff --git a/owlrl/Closure.py b/owlrl/Closure.py
index e40f368..afb617b 100755
--- a/owlrl/Closure.py
+++ b/owlrl/Closure.py
@@ -25,6 +25,7 @@ __author__ = "Ivan Herman"
 __contact__ = "Ivan Herman, ivan@w3.org"
 __license__ = "W3C® SOFTWARE NOTICE AND LICENSE, http://www.w3.org/Consortium/Legal/2002/copyright-software-20021231"
 
+import re
 from typing import Union
 
 import rdflib
@@ -108,24 +109,18 @@ class Core:
         """
         self._debug = debugGlobal
 
-        # Calculate the maximum 'n' value for the '_i' type predicates (see Horst's paper)
-        n = 1
-        maxnum = 0
-        cont = True
-        while cont:
-            cont = False
-            predicate = RDF[("_%d" % n)]
-            for (s, p, o) in graph.triples((None, predicate, None)):
-                # there is at least one if we got here
-                maxnum = n
-                n += 1
-                cont = True
-        self.IMaxNum = maxnum
-
         self.graph = graph
         if isinstance(self.graph, (Dataset, ConjunctiveGraph)):
             self.graph.default_union = True
 
+        # Calculate the maximum 'n' value for the '_i' type predicates (see Horst's paper)
+        maxnum = 0
+        for p in set(self.graph.predicates()):
+            match = re.fullmatch(re.escape(str(RDF)) + "_([1-9][0-9]*)", p)
+            if match is not None:
+                maxnum = max(maxnum, int(match.group(1)))
+        self.IMaxNum = maxnum
+
         # whether the source graph itself is to be expanded
         self.in_place = destination is None
 
-- 
2.43.0


From 4b975ab73c7ab604d97cbbf8686c95fa1fa1fb73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:02 +0000
Subject: [PATCH 32/51] fix: expand must leave the process-wide datatype tables
 as it found them, even in case of an error

---
 owlrl/__init__.py | 42 ++++++++++++++++++++++++++++--------------
 1 file changed, 28 insertions(+), 14 deletions(-)

diff --git a/owlrl/__init__.py b/owlrl/__init__.py
index 8f86445..d61e4fd 100755
--- a/owlrl/__init__.py
+++ b/owlrl/__init__.py
@@ -176,7 +176,9 @@ from .OWLRLExtras import OWLRL_Extension, OWLRL_Extension_Trimming
 from .OWLRL import OWLRL_Semantics
 from .RDFSClosure import RDFS_Semantics
 from .CombinedClosure import RDFS_OWLRL_Semantics
+from .XsdDatatypes import OWL_RL_Datatypes, OWL_Datatype_Subsumptions
 from rdflib.namespace import OWL
+from rdflib.term import _toPythonMapping
 
 RDFXML = "xml"
 TURTLE = "turtle"
@@ -395,20 +397,32 @@ class DeductiveClosure:
         :param destination: The RDF graph to which the results are written. If not specified, the graph is modified in-place.
         :type destination: :class:`rdflib.Graph`
         """
-        if (not DeductiveClosure.improved_datatype_generic) and self.improved_datatypes:
-            DatatypeHandling.use_Alt_lexical_conversions()
-
-        if self.closure_class is not None:
-            self.closure_class(
-                graph,
-                self.axiomatic_triples,
-                self.datatype_axioms,
-                rdfs=self.rdfs_closure,
-                destination=destination
-            ).closure()
-
-        if (not DeductiveClosure.improved_datatype_generic) and self.improved_datatypes:
-            DatatypeHandling.use_RDFLib_lexical_conversions()
+        # The closure classes may register the datatypes defined in the graph; these must not outlive the expansion
+        conversions = dict(_toPythonMapping)
+        improved_conversions = dict(DatatypeHandling.AltXSDToPYTHON)
+        datatypes = list(OWL_RL_Datatypes)
+        subsumptions = dict(OWL_Datatype_Subsumptions)
+
+        try:
+            if (not DeductiveClosure.improved_datatype_generic) and self.improved_datatypes:
+                DatatypeHandling.use_Alt_lexical_conversions()
+
+            if self.closure_class is not None:
+                self.closure_class(
+                    graph,
+                    self.axiomatic_triples,
+                    self.datatype_axioms,
+                    rdfs=self.rdfs_closure,
+                    destination=destination
+                ).closure()
+        finally:
+            _toPythonMapping.clear()
+            _toPythonMapping.update(conversions)
+            DatatypeHandling.AltXSDToPYTHON.clear()
+            DatatypeHandling.AltXSDToPYTHON.update(improved_conversions)
+            OWL_RL_Datatypes[:] = datatypes
+            OWL_Datatype_Subsumptions.clear()
+            OWL_Datatype_Subsumptions.update(subsumptions)
 
     @staticmethod
     def use_improved_datatypes_conversions():
-- 
2.43.0


From 09ea775c7f0820692cda54dff5bced33a3b2d008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:02 +0000
Subject: [PATCH 33/51] fix: cyclic owl:imports statements must not be followed
 for ever

---
 owlrl/__init__.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/owlrl/__init__.py b/owlrl/__init__.py
index d61e4fd..45f220b 100755
--- a/owlrl/__init__.py
+++ b/owlrl/__init__.py
@@ -245,6 +245,7 @@ def interpret_owl_imports(iformat, graph):
     :param graph: The RDFLib Graph instance to parse into.
     :type graph: :class:`RDFLib.Graph`
     """
+    imported = set()
     while True:
         # 1. collect the import statements:
         all_imports = [t for t in graph.triples((None, OWL.imports, None))]
@@ -256,6 +257,10 @@ def interpret_owl_imports(iformat, graph):
             graph.remove(t)
         # 3. get all the imported vocabularies and import them
         for (s, p, uri) in all_imports:
+            # the same vocabulary may be imported several times, possibly by itself
+            if str(uri) in imported:
+                continue
+            imported.add(str(uri))
             # this is not 100% kosher. The expected object for an import statement is a URI. However,
             # on local usage, a string would also make sense, so I do that one, too
             if isinstance(uri, Literal):
-- 
2.43.0


From 10729cb628a8b979a8051a5385e4ddbc09ae3e33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:02 +0000
Subject: [PATCH 34/51] fix: the RDFXML constant, as used by the command line,
 must select RDF/XML as an output format

---
 owlrl/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/owlrl/__init__.py b/owlrl/__init__.py
index 45f220b..c15c595 100755
--- a/owlrl/__init__.py
+++ b/owlrl/__init__.py
@@ -605,7 +605,7 @@ def convert_graph(options, closureClass=None):
         datatype_axioms=daxioms,
     ).expand(graph)
 
-    if options.format == "rdfxml":
+    if options.format == "rdfxml" or options.format == RDFXML:
         return graph.serialize(format="pretty-xml")
     elif options.format == "json":
         return graph.serialize(format="json-ld")
-- 
2.43.0


From 7d3d6993b1235a3dc4e85ffe788ea8c7a518f56d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:02 +0000
Subject: [PATCH 35/51] fix: --maximal must switch RDFS on

---
 scripts/owlrl | 1 +
 1 file changed, 1 insertion(+)

diff --git a/scripts/owlrl b/scripts/owlrl
index fa8be8c..270ebc4 100755
--- a/scripts/owlrl
+++ b/scripts/owlrl
@@ -85,6 +85,7 @@ def main():
     if options.maximal == "yes":
         options.trimming = "yes"
         options.owlClosure = "yes"
+        options.rdfsClosure = "yes"
         options.owlExtras = "yes"
             
     print(convert_graph(options))
-- 
2.43.0


From 3ba3b44fc58d2252fc2ef8a1d3b97ec7f524ba6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:29 +0000
Subject: [PATCH 36/51] fix: accept the spelling of infinity and NaN that
 rdflib gives to normalized xsd:double and xsd:float literals

---
 owlrl/DatatypeHandling.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/owlrl/DatatypeHandling.py b/owlrl/DatatypeHandling.py
index 1fa408a..c105a82 100755
--- a/owlrl/DatatypeHandling.py
+++ b/owlrl/DatatypeHandling.py
@@ -277,7 +277,8 @@ def _strToDouble(v):
     @return Decimal
     @raise ValueError: invalid value
     """
-    if v in ("INF", "-INF", "NaN"):
+    # (the lexical forms are INF, -INF, and NaN but RDFLib turns these into lower case)
+    if v.lower() in ("inf", "-inf", "nan"):
         return Decimal(v)
     try:
         value = Decimal(v)
@@ -302,7 +303,8 @@ def _strToFloat(v):
     @return Decimal if the local python version is >= 2.4, float otherwise
     @raise ValueError: invalid value
     """
-    if v in ("INF", "-INF", "NaN"):
+    # (the lexical forms are INF, -INF, and NaN but RDFLib turns these into lower case)
+    if v.lower() in ("inf", "-inf", "nan"):
         return Decimal(v)
     try:
         value = Decimal(v)
-- 
2.43.0


From 5750822686cd1249ef493b958e796dc95e078a7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:29 +0000
Subject: [PATCH 37/51] fix: the CGI error page must escape everything that
 comes from the request (and cgi.escape is no more)

---
 scripts/RDFConvertService | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/scripts/RDFConvertService b/scripts/RDFConvertService
index 1e6ca66..c158c16 100755
--- a/scripts/RDFConvertService
+++ b/scripts/RDFConvertService
@@ -17,6 +17,7 @@ import os
 import sys
 import cgi
 import cgitb
+import html
 # prevent accidentally importing `scripts/owlrl` file when calling
 # `from owlrl import ...` below.
 HERE_DIR = os.path.abspath(os.path.dirname(__file__))
@@ -97,24 +98,24 @@ class Options:
         if len(self.sources) == 0:
             print("none")
         elif len(self.sources) == 1:
-            print(cgi.escape(self.sources[0]))
+            print(html.escape(self.sources[0]))
         else:
-            print(cgi.escape(self.sources[0]), ", ", cgi.escape(self.sources[1]))
+            print(html.escape(self.sources[0]), ", ", html.escape(self.sources[1]))
         print('</dd>')
         
         print('<dt>Input format:</dt>')
-        print('<dd>%s</dd>' % self.iformat)
-        print('<dt>Output format:</dt><dd>%s</dd>' % self.format)
-        print('<dt>OWL 2 RL Processing:</dt><dd>%s</dd>' % self.owlClosure)
-        print('<dt>RDFS Processing:</dt><dd>%s</dd>' % self.rdfsClosure)
-        print('<dt>Extra OWL Processing:</dt><dd>%s</dd>' % self.owlExtras)
-        print('<dt>Axiomatic triples added:</dt><dd>%s</dd>' % self.axioms)
-        print('<dt>Datatype Axiomatic triples added:</dt><dd>%s</dd>' % self.daxioms)
+        print('<dd>%s</dd>' % html.escape(self.iformat))
+        print('<dt>Output format:</dt><dd>%s</dd>' % html.escape(self.format))
+        print('<dt>OWL 2 RL Processing:</dt><dd>%s</dd>' % html.escape(self.owlClosure))
+        print('<dt>RDFS Processing:</dt><dd>%s</dd>' % html.escape(self.rdfsClosure))
+        print('<dt>Extra OWL Processing:</dt><dd>%s</dd>' % html.escape(self.owlExtras))
+        print('<dt>Axiomatic triples added:</dt><dd>%s</dd>' % html.escape(self.axioms))
+        print('<dt>Datatype Axiomatic triples added:</dt><dd>%s</dd>' % html.escape(self.daxioms))
         if self.text is not None:
             print('<dt>Turtle code added to the graph:</dt>')
         print('<dl>')
         if self.text is not None:
-            print(cgi.escape(self.text).replace('\n', '<br/>'))
+            print(html.escape(self.text).replace('\n', '<br/>'))
 
 # ---------------------------------------------------------------------------------------------------------------------
 
@@ -139,7 +140,7 @@ except:
     print("<title>Error in RDF Closure processing</title>")
     print("</head><body>")
     print("<h1>Error in RDF Closure processing:</h1>")
-    print("<pre>%s</pre>" % value)
+    print("<pre>%s</pre>" % html.escape(str(value)))
     print("<h1>For reference, the input arguments were:</h1>")
     options.to_html()
     print("</body>")
-- 
2.43.0


From cdd90645d702c7af8db9457f3445a5c98737e90b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:29 +0000
Subject: [PATCH 38/51] fix: the CGI Content-Type must be that of the
 serialization returned by convert_graph

---
 scripts/RDFConvertService | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/scripts/RDFConvertService b/scripts/RDFConvertService
index c158c16..81a70a2 100755
--- a/scripts/RDFConvertService
+++ b/scripts/RDFConvertService
@@ -35,7 +35,7 @@ if 'owlrl' in parent_dir_list:
 __version__ = "4.0"
 cgitb.enable()
 form = cgi.FieldStorage()
-from owlrl import convert_graph, RDFXML, TURTLE, AUTO
+from owlrl import convert_graph, RDFXML, TURTLE, JSON, AUTO
 
 # ---------------------------------------------------------------------------------------------------------------------
 
@@ -124,10 +124,12 @@ options = Options(form)
 
 try:
     retval = convert_graph(options)
-    if options.format == TURTLE:
-        print('Content-Type: text/turtle; charset=utf-8')
-    else:
+    if options.format == "rdfxml" or options.format == RDFXML:
         print('Content-Type: application/rdf+xml; charset=utf-8')
+    elif options.format == JSON:
+        print('Content-Type: application/ld+json; charset=utf-8')
+    else:
+        print('Content-Type: text/turtle; charset=utf-8')
     print()
     print(retval)
 except:
-- 
2.43.0


From 52abffb1c36286f71d89c9a1080b16d4371d9fc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:47 +0000
Subject: [PATCH 39/51] fix: rdf:PlainLiteral and rdf:XMLLiteral are disjoint
 datatypes

---
 owlrl/AxiomaticTriples.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/owlrl/AxiomaticTriples.py b/owlrl/AxiomaticTriples.py
index 3058a28..dc2598b 100755
--- a/owlrl/AxiomaticTriples.py
+++ b/owlrl/AxiomaticTriples.py
@@ -557,6 +557,7 @@ OWLRL_Datatypes_Disjointness = [
     (XSD.hexBinary, OWL.disjointWith, RDF.PlainLiteral),
     (XSD.hexBinary, OWL.disjointWith, RDF.XMLLiteral),
     (XSD.string, OWL.disjointWith, RDF.XMLLiteral),
+    (RDF.PlainLiteral, OWL.disjointWith, RDF.XMLLiteral),
 ]
 
 # OWL RL D Axiomatic triples: combination of the RDFS ones, plus some extra statements on ranges and domains, plus
-- 
2.43.0


From 77cc31c4bb8b3f661dcdab3fce5d5d26b0e50454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:47:58 +0000
Subject: [PATCH 40/51] fix: the domain of owl:hasSelf is owl:Restriction;
 restrictions were inferred to be properties

---
 owlrl/OWLRLExtras.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/owlrl/OWLRLExtras.py b/owlrl/OWLRLExtras.py
index da61111..1153dfd 100755
--- a/owlrl/OWLRLExtras.py
+++ b/owlrl/OWLRLExtras.py
@@ -116,7 +116,7 @@ class OWLRL_Extension(RDFS_OWLRL_Semantics):
 
     extra_axioms = [
         (OWL.hasSelf, RDF.type, RDF.Property),
-        (OWL.hasSelf, RDFS.domain, RDF.Property),
+        (OWL.hasSelf, RDFS.domain, OWL.Restriction),
     ]
 
     def __init__(self, graph: Graph, axioms, daxioms, rdfs: bool = False, destination: Union[None, Graph] = None):
-- 
2.43.0


From 0dc65441a0b82d9daf127588b484dd23ba4daa57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:42:00 +0000
Subject: [PATCH 41/51] fix: two different xsd:length facets exclude every
 value, the last one must not prevail

---
 owlrl/RestrictedDatatype.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/owlrl/RestrictedDatatype.py b/owlrl/RestrictedDatatype.py
index 4f3f414..ac6ce36 100644
--- a/owlrl/RestrictedDatatype.py
+++ b/owlrl/RestrictedDatatype.py
@@ -395,7 +395,11 @@ class RestrictedDatatype(RestrictedDatatypeCore):
             elif facet == RDF_langRange:
                 self.langRange.append(value)
             elif facet == XSD.length:
-                self.length = value
+                if self.length is None or self.length == value:
+                    self.length = value
+                else:
+                    # two different lengths: there is no such value
+                    self.length = -1
             elif facet == XSD.maxLength and (
                 self.maxLength is None or value < self.maxLength
             ):
-- 
2.43.0


From b04030184e9086f8bb89b86083dcc7cb990c7455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:46:39 +0000
Subject: [PATCH 42/51] fix: infinity and NaN are no xsd:decimal values

---
 owlrl/DatatypeHandling.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/owlrl/DatatypeHandling.py b/owlrl/DatatypeHandling.py
index c105a82..f5d9dfa 100755
--- a/owlrl/DatatypeHandling.py
+++ b/owlrl/DatatypeHandling.py
@@ -130,9 +130,12 @@ def _strToDecimal(v):
         # this is an invalid lexical form, though would be accepted by Python
         raise ValueError("Invalid decimal literal value %s" % v)
     try:
-        return Decimal(v)
+        value = Decimal(v)
     except InvalidOperation:
         raise ValueError("Invalid decimal literal value %s" % v)
+    if not value.is_finite():
+        raise ValueError("Invalid decimal literal value %s" % v)
+    return value
 
 
 # ANY URIS ##################################################
-- 
2.43.0


From 43e4dae280476a8a97bd9b022ca81a57cce79116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:46:40 +0000
Subject: [PATCH 43/51] fix: an rdf:PlainLiteral may contain newlines

---
 owlrl/DatatypeHandling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/owlrl/DatatypeHandling.py b/owlrl/DatatypeHandling.py
index f5d9dfa..6b38449 100755
--- a/owlrl/DatatypeHandling.py
+++ b/owlrl/DatatypeHandling.py
@@ -624,7 +624,7 @@ def _strToPlainLiteral(v):
     """
     reg = "(.*)@([^@]*)"
     # a plain literal must match this regexp!
-    match = re.match(reg, v)
+    match = re.match(reg, v, re.DOTALL)
     if match is None:
         raise ValueError("Invalid plain literal %s" % v)
     else:
-- 
2.43.0


From 1dca986cc4e6826ccdbc0f1bb19e87d89f9ce044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:46:42 +0000
Subject: [PATCH 44/51] fix: nothing may follow the fractional seconds of a
 date or time, and there must be digits

---
 owlrl/DatatypeHandling.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/owlrl/DatatypeHandling.py b/owlrl/DatatypeHandling.py
index 6b38449..69ee9d1 100755
--- a/owlrl/DatatypeHandling.py
+++ b/owlrl/DatatypeHandling.py
@@ -359,8 +359,8 @@ def _strToDateTimeAndStamp(incoming_v, timezone_required=False):
     # The microseconds should be handled here...
     final_v = v
     milliseconds = 0
-    milpattern = r"(.*)(\.)([0-9]*)"
-    match = re.match(milpattern, v)
+    milpattern = r"(.*)(\.)([0-9]+)"
+    match = re.fullmatch(milpattern, v)
     if match is not None:
         # we have a millisecond portion...
         try:
@@ -413,8 +413,8 @@ def _strToTime(incoming_v):
     # The microseconds should be handled here...
     final_v = v
     milliseconds = 0
-    milpattern = r"(.*)(\.)([0-9]*)"
-    match = re.match(milpattern, v)
+    milpattern = r"(.*)(\.)([0-9]+)"
+    match = re.fullmatch(milpattern, v)
     if match is not None:
         # we have a millisecond portion...
         try:
-- 
2.43.0


From f50fda16a965d88f2631694b5c9cfa826d273391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:46:44 +0000
Subject: [PATCH 45/51] fix: timezone offsets must be in the range that XSD
 allows

---
 owlrl/DatatypeHandling.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/owlrl/DatatypeHandling.py b/owlrl/DatatypeHandling.py
index 69ee9d1..b67e8b4 100755
--- a/owlrl/DatatypeHandling.py
+++ b/owlrl/DatatypeHandling.py
@@ -90,6 +90,8 @@ def _returnTimeZone(incoming_v):
         else:
             hours = int(match.groups()[1])
             minutes = int(match.groups()[2])
+            if minutes > 59 or hours * 60 + minutes > 14 * 60:
+                raise ValueError("Invalid timezone %s" % incoming_v)
             if match.groups()[0] == "-":
                 hours = -hours
                 minutes = -minutes
-- 
2.43.0


From 10dc04251fedd91162e599b7b6da322e2c5e15db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:46:45 +0000
Subject: [PATCH 46/51] fix: the empty string is a valid xsd:base64Binary

---
 owlrl/DatatypeHandling.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/owlrl/DatatypeHandling.py b/owlrl/DatatypeHandling.py
index b67e8b4..48e23f7 100755
--- a/owlrl/DatatypeHandling.py
+++ b/owlrl/DatatypeHandling.py
@@ -193,6 +193,8 @@ def _strToBase64Binary(v):
     """
     import base64
 
+    if v == "":
+        return b""
     if v.replace("=", "x").replace("+", "y").replace("/", "z").isalnum():
         try:
             return base64.standard_b64decode(v)
-- 
2.43.0


From 08e2ae2a692b76e7bc59b0d407588dd9b9789040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:46:46 +0000
Subject: [PATCH 47/51] fix: xsd:gMonthDay, gDay and gMonth start with hyphens,
 and the g datatypes may have a timezone

---
 owlrl/DatatypeHandling.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/owlrl/DatatypeHandling.py b/owlrl/DatatypeHandling.py
index 48e23f7..01174d3 100755
--- a/owlrl/DatatypeHandling.py
+++ b/owlrl/DatatypeHandling.py
@@ -473,7 +473,7 @@ def _strTogYearMonth(v):
     @raise ValueError: invalid value
     """
     try:
-        time.strptime(v + "-01", "%Y-%m-%d")
+        time.strptime(_returnTimeZone(v)[0] + "-01", "%Y-%m-%d")
         return v
     except:
         raise ValueError("Invalid gYearMonth %s" % v)
@@ -487,7 +487,7 @@ def _strTogYear(v):
     @raise ValueError: invalid value
     """
     try:
-        time.strptime(v + "-01-01", "%Y-%m-%d")
+        time.strptime(_returnTimeZone(v)[0] + "-01-01", "%Y-%m-%d")
         return v
     except:
         raise ValueError("Invalid gYear %s" % v)
@@ -501,7 +501,7 @@ def _strTogMonthDay(v):
     @raise ValueError: invalid value
     """
     try:
-        time.strptime("2008-" + v, "%Y-%m-%d")
+        time.strptime("2008" + _returnTimeZone(v)[0], "%Y--%m-%d")
         return v
     except:
         raise ValueError("Invalid gMonthDay %s" % v)
@@ -515,7 +515,7 @@ def _strTogDay(v):
     @raise ValueError: invalid value
     """
     try:
-        time.strptime("2001-01-" + v, "%Y-%m-%d")
+        time.strptime("2001-01" + _returnTimeZone(v)[0], "%Y-%m---%d")
         return v
     except:
         raise ValueError("Invalid gDay %s" % v)
@@ -529,7 +529,7 @@ def _strTogMonth(v):
     @raise ValueError: invalid value
     """
     try:
-        time.strptime("2001-" + v + "-01", "%Y-%m-%d")
+        time.strptime("2001" + _returnTimeZone(v)[0] + "-01", "%Y--%m-%d")
         return v
     except:
         raise ValueError("Invalid gMonth %s" % v)
-- 
2.43.0


From 368a505d935a7033edffa9b7084fcca61b8f2def Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:46:48 +0000
Subject: [PATCH 48/51] fix: the lexical form of an rdf:XMLLiteral is XML
 content, not necessarily one single element

---
 owlrl/DatatypeHandling.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/owlrl/DatatypeHandling.py b/owlrl/DatatypeHandling.py
index 01174d3..0750ad7 100755
--- a/owlrl/DatatypeHandling.py
+++ b/owlrl/DatatypeHandling.py
@@ -546,8 +546,8 @@ def _strToXMLLiteral(v):
     import xml.dom.minidom
 
     try:
-        dom = xml.dom.minidom.parseString(v)
-        return dom.toxml()
+        dom = xml.dom.minidom.parseString("<content>%s</content>" % v)
+        return "".join(node.toxml() for node in dom.documentElement.childNodes)
     except:
         raise ValueError("Invalid XML Literal %s" % v)
 
-- 
2.43.0


From c2b7554ffb88bb97406e9052bc292311512016ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:40:07 +0000
Subject: [PATCH 49/51] fix: a circular rdf:List must not abort the closure

---
 owlrl/OWLRL.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/owlrl/OWLRL.py b/owlrl/OWLRL.py
index 129a452..f32646b 100755
--- a/owlrl/OWLRL.py
+++ b/owlrl/OWLRL.py
@@ -120,9 +120,13 @@ class OWLRL_Semantics(Core):
         Shorthand to get a list of values (ie, from an rdf:List structure) starting at a head
 
         @param l: RDFLib resource, should be the head of an rdf:List
-        @return: array of resources
+        @return: array of resources; empty, if l is a list that contains itself
         """
-        return [ch for ch in self.graph.items(l)]
+        try:
+            return [ch for ch in self.graph.items(l)]
+        except ValueError:
+            # RDFLib raises this exception on a circular list
+            return []
 
     def post_process(self):
         """
-- 
2.43.0


From 8df2634c8432b797e6ebcb05818922504ea839ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:26:47 +0000
Subject: [PATCH 50/51] fix: digit separators and non-ASCII digits are not
 lexical forms of the XSD numerals

---
 owlrl/DatatypeHandling.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/owlrl/DatatypeHandling.py b/owlrl/DatatypeHandling.py
index 0750ad7..0583162 100755
--- a/owlrl/DatatypeHandling.py
+++ b/owlrl/DatatypeHandling.py
@@ -128,7 +128,7 @@ def _strToDecimal(v):
     @raise ValueError: invalid decimal value
     """
     # check whether the lexical form of 'v' is o.k.
-    if v.find("E") != -1 or v.find("e") != -1:
+    if v.find("E") != -1 or v.find("e") != -1 or v.find("_") != -1 or not v.isascii():
         # this is an invalid lexical form, though would be accepted by Python
         raise ValueError("Invalid decimal literal value %s" % v)
     try:
@@ -253,6 +253,10 @@ _limits_nonNegativeInteger = [-1, None]
 _limits_negativeInteger = [None, 0]
 
 
+# limits for integer
+_limits_integer = [None, None]
+
+
 # noinspection PyPep8Naming,PyBroadException
 def _strToBoundNumeral(v, interval, conversion):
     """Test (and convert) a generic numerical type, with a check against a lower and upper limit.
@@ -262,6 +266,9 @@ def _strToBoundNumeral(v, interval, conversion):
     @raise ValueError: invalid value
     """
     try:
+        # the digit separators and the non-ASCII digits of Python are not part of the lexical forms of XSD
+        if "_" in v or not v.isascii():
+            raise ValueError("Invalid numerical value %s" % v)
         i = conversion(v)
         if (interval[0] is None or interval[0] < i) and (
             interval[1] is None or i < interval[1]
@@ -288,6 +295,9 @@ def _strToDouble(v):
     if v.lower() in ("inf", "-inf", "nan"):
         return Decimal(v)
     try:
+        if "_" in v or not v.isascii():
+            # accepted by Python, but not a lexical form of XSD
+            raise ValueError("Invalid numerical value %s" % v)
         value = Decimal(v)
         upper = Decimal("1.0E+310")
         lower = Decimal("1.0E-330")
@@ -314,6 +324,9 @@ def _strToFloat(v):
     if v.lower() in ("inf", "-inf", "nan"):
         return Decimal(v)
     try:
+        if "_" in v or not v.isascii():
+            # accepted by Python, but not a lexical form of XSD
+            raise ValueError("Invalid numerical value %s" % v)
         value = Decimal(v)
         upper = Decimal("1.0E+40")
         lower = Decimal("1.0E-50")
@@ -682,7 +695,7 @@ AltXSDToPYTHON = {
     XSD.dateTime: lambda v: _strToDateTimeAndStamp(v, False),
     XSD.dateTimeStamp: lambda v: _strToDateTimeAndStamp(v, True),
     RDF.XMLLiteral: _strToXMLLiteral,
-    XSD.integer: int,
+    XSD.integer: lambda v: _strToBoundNumeral(v, _limits_integer, int),
     XSD.string: lambda v: v,
     RDF.HTML: lambda v: v,
     XSD.normalizedString: lambda v: _strToVal_Regexp(v, _re_token) if v else v,
-- 
2.43.0


From 726f84da67f00a09800a12b3a1af3321afaa8ccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:26:47 +0000
Subject: [PATCH 51/51] fix: an owl:rational with more than one slash is
 ill-formed

---
 owlrl/OWLRLExtras.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/owlrl/OWLRLExtras.py b/owlrl/OWLRLExtras.py
index 1153dfd..cdf5ce8 100755
--- a/owlrl/OWLRLExtras.py
+++ b/owlrl/OWLRLExtras.py
@@ -79,9 +79,11 @@ def _strToRational(v):
         if len(r) == 2:
             n_str = r[0]
             d_str = r[1]
-        else:
+        elif len(r) == 1:
             n_str = r[0]
             d_str = "1"
+        else:
+            raise ValueError("Invalid Rational literal value %s" % v)
         if d_str.strip()[0] == "+":
             raise ValueError("Invalid Rational literal value %s" % v)
         else:
-- 
2.43.0

