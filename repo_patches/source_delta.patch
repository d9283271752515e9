From d6885d68f973edc0bce0aae63ca60b162d511e3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:11 +0000
Subject: [PATCH 01/13] fix: int_e_IEZ_poly must not accumulate exponents
 across sub-terms

The running key tuples were rebound inside the loop over the terms of the
inner integral, so the third and later terms inherited the exponents of the
earlier ones.
---
 src/ajdmom/ito_cond_mom.py | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/src/ajdmom/ito_cond_mom.py b/src/ajdmom/ito_cond_mom.py
index 790585c..a738b17 100644
--- a/src/ajdmom/ito_cond_mom.py
+++ b/src/ajdmom/ito_cond_mom.py
@@ -455,17 +455,11 @@ def int_e_IEZ_poly(coef, m, poly):
             key1 = (kk[0], kk[1], kk[2] + k[2], k[3], k[4], k[5])
             # key2
             if len(k6) == 1:  # 1 summation  inside
-                k6 = (k6[0] + kk[3],)
-                k7 = (k7[0] + kk[4],)
-                key2 = (k6, k7, (), ())
+                key2 = ((k6[0] + kk[3],), (k7[0] + kk[4],), (), ())
             else:  # 2 summations inside or more
-                k8 = list(k8)
-                k8[-1] += kk[3]
-                k8 = tuple(k8)
-                k9 = list(k9)
-                k9[-1] += kk[4]
-                k9 = tuple(k9)
-                key2 = (k6, k7, k8, k9)
+                k8_new = k8[:-1] + (k8[-1] + kk[3],)
+                k9_new = k9[:-1] + (k9[-1] + kk[4],)
+                key2 = (k6, k7, k8_new, k9_new)
             poln.add_keyval(key1 + key2, coef * poly[k] * poly_sub[kk])
     return poln
 
-- 
2.43.0


From b93a08e72247691fe66ccaa3a50032c129bec8f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:11 +0000
Subject: [PATCH 02/13] fix: recursive_IEI_IEII sums every applicable recursion
 group

The groups of the recursive equation are additive, not alternatives.
---
 src/ajdmom/itos_mom.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/ajdmom/itos_mom.py b/src/ajdmom/itos_mom.py
index b50b491..34408c6 100644
--- a/src/ajdmom/itos_mom.py
+++ b/src/ajdmom/itos_mom.py
@@ -515,39 +515,39 @@ def recursive_IEI_IEII(n4, n5, n6, n7, n8, IEI_IEII):
         poly.merge(coef_poly(c, int_mIEI_IEII(1, 1, n4 - 2, n5, n6, n7, n8, IEI_IEII), 2))
         poly.merge(coef_poly(c, int_mIEI_IEII(1, 2, n4 - 2, n5, n6, n7, n8, IEI_IEII), 3))
         poly.merge(coef_poly(c, int_mIEI_IEII(1, 1, n4 - 1, n5, n6, n7, n8, IEI_IEII), 4))
-    elif n4 >= 0 and n5 >= 2 and n6 >= 0 and n7 >= 0 and n8 >= 0:
+    if n4 >= 0 and n5 >= 2 and n6 >= 0 and n7 >= 0 and n8 >= 0:
         c = Frac(n5 * (n5 - 1), 2)
         poly.merge(coef_poly(c, int_mIEI_IEII(1, -1, n4, n5 - 2, n6, n7, n8, IEI_IEII), 1))
         poly.merge(coef_poly(c, int_mIEI_IEII(1, -1, n4, n5 - 2, n6, n7, n8, IEI_IEII), 2))
         poly.merge(coef_poly(c, int_mIEI_IEII(1, 0, n4, n5 - 2, n6, n7, n8, IEI_IEII), 3))
         poly.merge(coef_poly(c, int_mIEI_IEII(1, -1, n4 + 1, n5 - 2, n6, n7, n8, IEI_IEII), 4))
-    elif n4 >= 1 and n5 >= 1 and n6 >= 0 and n7 >= 0 and n8 >= 0:
+    if n4 >= 1 and n5 >= 1 and n6 >= 0 and n7 >= 0 and n8 >= 0:
         c = n4 * n5
         poly.merge(coef_poly(c, int_mIEI_IEII(1, 0, n4 - 1, n5 - 1, n6, n7, n8, IEI_IEII), 1))
         poly.merge(coef_poly(c, int_mIEI_IEII(1, 0, n4 - 1, n5 - 1, n6, n7, n8, IEI_IEII), 2))
         poly.merge(coef_poly(c, int_mIEI_IEII(1, 1, n4 - 1, n5 - 1, n6, n7, n8, IEI_IEII), 3))
         poly.merge(coef_poly(c, int_mIEI_IEII(1, 0, n4, n5 - 1, n6, n7, n8, IEI_IEII), 4))
     #
-    elif n4 >= 0 and n5 >= 0 and n6 >= 2 and n7 >= 0 and n8 >= 0:
+    if n4 >= 0 and n5 >= 0 and n6 >= 2 and n7 >= 0 and n8 >= 0:
         c = Frac(n6 * (n6 - 1), 2)
         poly.merge(coef_poly(c, int_mIEI_IEII(2, 1, n4, n5, n6 - 2, n7, n8, IEI_IEII), 5))
         poly.merge(coef_poly(c, int_mIEI_IEII(2, 1, n4, n5, n6 - 2, n7, n8, IEI_IEII), 6))
         poly.merge(coef_poly(c, int_mIEI_IEII(2, 2, n4, n5, n6 - 2, n7, n8, IEI_IEII), 7))
         poly.merge(coef_poly(c, int_mIEI_IEII(2, 1, n4, n5, n6 - 1, n7, n8, IEI_IEII), 8))
-    elif n4 >= 0 and n5 >= 0 and n6 >= 0 and n7 >= 2 and n8 >= 0:
+    if n4 >= 0 and n5 >= 0 and n6 >= 0 and n7 >= 2 and n8 >= 0:
         c = Frac(n7 * (n7 - 1), 2)
         poly.merge(coef_poly(c, int_mIEI_IEII(2, -1, n4, n5, n6, n7 - 2, n8, IEI_IEII), 5))
         poly.merge(coef_poly(c, int_mIEI_IEII(2, -1, n4, n5, n6, n7 - 2, n8, IEI_IEII), 6))
         poly.merge(coef_poly(c, int_mIEI_IEII(2, 0, n4, n5, n6, n7 - 2, n8, IEI_IEII), 7))
         poly.merge(coef_poly(c, int_mIEI_IEII(2, -1, n4, n5, n6 + 1, n7 - 2, n8, IEI_IEII), 8))
-    elif n4 >= 0 and n5 >= 0 and n6 >= 1 and n7 >= 1 and n8 >= 0:
+    if n4 >= 0 and n5 >= 0 and n6 >= 1 and n7 >= 1 and n8 >= 0:
         c = n6 * n7
         poly.merge(coef_poly(c, int_mIEI_IEII(2, 0, n4, n5, n6 - 1, n7 - 1, n8, IEI_IEII), 5))
         poly.merge(coef_poly(c, int_mIEI_IEII(2, 0, n4, n5, n6 - 1, n7 - 1, n8, IEI_IEII), 6))
         poly.merge(coef_poly(c, int_mIEI_IEII(2, 1, n4, n5, n6 - 1, n7 - 1, n8, IEI_IEII), 7))
         poly.merge(coef_poly(c, int_mIEI_IEII(2, 0, n4, n5, n6, n7 - 1, n8, IEI_IEII), 8))
     #
-    elif n4 >= 0 and n5 >= 0 and n6 >= 0 and n7 >= 0 and n8 >= 2:
+    if n4 >= 0 and n5 >= 0 and n6 >= 0 and n7 >= 0 and n8 >= 2:
         c = Frac(n8 * (n8 - 1), 2)
         poly.merge(coef_poly(c, int_mIEI_IEII(1, -1, n4, n5, n6, n7, n8 - 2, IEI_IEII), 1))
         poly.merge(coef_poly(c, int_mIEI_IEII(1, -1, n4, n5, n6, n7, n8 - 2, IEI_IEII), 2))
-- 
2.43.0


From 274975fe622cfb73451323a4823782580003aaed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:11 +0000
Subject: [PATCH 03/13] fix: int_et treats only n1 = n2 = 0 as the zero
 exponent

n1*k1+n2*k2 does not vanish for e.g. (n1, n2) = (1, -1).
---
 src/ajdmom/itos_mom.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ajdmom/itos_mom.py b/src/ajdmom/itos_mom.py
index 34408c6..47465a6 100644
--- a/src/ajdmom/itos_mom.py
+++ b/src/ajdmom/itos_mom.py
@@ -299,15 +299,15 @@ def int_et(n1, n2, m):
     kf = ['(n1*k1+n2*k2)^{-}', 'e^{(n1*k1+n2*k2)[t-(n-1)h]}', '[t-(n-1)h]']
     poly.set_keyfor(kf)
     #
-    if n1 + n2 == 0 and m == 0:
+    if n1 == 0 and n2 == 0 and m == 0:
         key = ((0, 0, 0), (0, 0), 1)
         val = 1
         poly.add_keyval(key, val)
-    elif n1 + n2 == 0 and m != 0:
+    elif n1 == 0 and n2 == 0 and m != 0:
         key = ((0, 0, 0), (0, 0), m + 1)
         val = Frac(1, m + 1)
         poly.add_keyval(key, val)
-    elif n1 + n2 != 0 and m == 0:
+    elif m == 0:
         key = ((n1, n2, 1), (n1, n2), 0)
         val = 1
         poly.add_keyval(key, val)
-- 
2.43.0


From 1ddfe5683ceb5c5102e200d9a7834d791409338a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:11 +0000
Subject: [PATCH 04/13] fix: moment_IEI_IEII raises ValueError (not NameError)
 on negative orders

---
 src/ajdmom/itos_mom.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ajdmom/itos_mom.py b/src/ajdmom/itos_mom.py
index 47465a6..f03e6b6 100644
--- a/src/ajdmom/itos_mom.py
+++ b/src/ajdmom/itos_mom.py
@@ -583,7 +583,7 @@ def moment_IEI_IEII(n4, n5, n6, n7, n8, return_all=False):
     :rtype: Poly or dict of Poly
     """
     if n4 + n5 + n6 + n7 + n8 < 0:
-        raise ValueError(f'moment_IEI_IEII({n_4},{n_5},{n_6},{n_7},{n_8}) is called')
+        raise ValueError(f'moment_IEI_IEII({n4},{n5},{n6},{n7},{n8}) is called')
     #
     IEI_IEII = {}
     kf = ('(n_1m*k1+n_2m*k2)^{-i_m},...,(n_11*k1+n_21*k2)^{-i_1}',
-- 
2.43.0


From bbe206f9bf201d07888b36a00339efe3eb7d09f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:11 +0000
Subject: [PATCH 05/13] fix: constant polys of ito_mom.moment_IEII match their
 7-entry keyfor

---
 src/ajdmom/ito_mom.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ajdmom/ito_mom.py b/src/ajdmom/ito_mom.py
index 56e03a4..0b40b6a 100644
--- a/src/ajdmom/ito_mom.py
+++ b/src/ajdmom/ito_mom.py
@@ -373,9 +373,9 @@ def moment_IEII(n3, n4, n5):
     #
     # special poly constants, analog to 0 and 1
     #
-    P0 = Poly({(0, 0, 0, 0, 0, 0, 0, 0): Frac(0, 1)})
+    P0 = Poly({(0, 0, 0, 0, 0, 0, 0): Frac(0, 1)})
     P0.set_keyfor(kf)
-    P1 = Poly({(0, 0, 0, 0, 0, 0, 0, 0): Frac(1, 1)})
+    P1 = Poly({(0, 0, 0, 0, 0, 0, 0): Frac(1, 1)})
     P1.set_keyfor(kf)
     #
     # n3 + n4 + n5 = 0: special case
-- 
2.43.0


From 8154f5a27c42677ba57c926e49dcf1d4d9afc597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:54 +0000
Subject: [PATCH 06/13] fix: write_to_csv writes a title for an empty poly
 keyed by l_{1:n}

It raised UnboundLocalError because no sub-key fixes the number of columns.
---
 src/ajdmom/poly.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ajdmom/poly.py b/src/ajdmom/poly.py
index 751155e..0f8f227 100644
--- a/src/ajdmom/poly.py
+++ b/src/ajdmom/poly.py
@@ -301,6 +301,7 @@ class Poly(UserDict):
             else:
                 i += 1
         # find one sub-key corresponding to 'l_{1:n}'
+        l = ()
         for k in self.keys():
             l = k[i]
             break
-- 
2.43.0


From a2857d95f421b02d0ef4e8de12c888da899b4385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:54 +0000
Subject: [PATCH 07/13] fix: write_to_csv title has exactly one name per column

An empty part of the title (no l sub-keys, or nothing after them) left a
spurious empty column, so the title and the rows did not line up.
---
 src/ajdmom/poly.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/ajdmom/poly.py b/src/ajdmom/poly.py
index 0f8f227..0f731ff 100644
--- a/src/ajdmom/poly.py
+++ b/src/ajdmom/poly.py
@@ -321,8 +321,8 @@ class Poly(UserDict):
         if 'p_{2:n}' not in self.keyfor:
             sub1 = ['l' + str(j) for j in range(1, len(l) + 1)]
             sub2 = ['o' + str(j) for j in range(2, len(l) + 1)]
-            title = ','.join(self.keyfor[:i]) + ',' + ','.join(sub1 + sub2) + ','
-            title += ','.join(self.keyfor[i + 2:]) + ',num,den\n'
+            names = list(self.keyfor[:i]) + sub1 + sub2 + list(self.keyfor[i + 2:])
+            title = ','.join(names) + ',num,den\n'
             with open(filename, 'w', encoding='utf-8') as f:
                 f.write(title)
                 for k, v in self.items():
@@ -337,8 +337,9 @@ class Poly(UserDict):
             sub2 = ['o' + str(j) for j in range(1, len(l) + 1)]
             sub3 = ['p' + str(j) for j in range(2, len(l) + 1)]
             sub4 = ['q' + str(j) for j in range(2, len(l) + 1)]
-            title = ','.join(self.keyfor[:i]) + ',' + ','.join(sub1 + sub2 + sub3 + sub4) + ','
-            title += ','.join(self.keyfor[i + 4:]) + ',num,den\n'
+            names = list(self.keyfor[:i]) + sub1 + sub2 + sub3 + sub4
+            names += list(self.keyfor[i + 4:])
+            title = ','.join(names) + ',num,den\n'
             with open(filename, 'w', encoding='utf-8') as f:
                 f.write(title)
                 for k, v in self.items():
-- 
2.43.0


From 2f7c1bd020eef1780ece162852b6716d5ef7438b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:10 +0000
Subject: [PATCH 08/13] fix: write_to_csv quotes fields which contain commas

Keys with tuple entries (two-factor models, J_{1:n}) and the first two-factor
keyfor name contain commas, so rows and title did not have the same columns.
---
 src/ajdmom/poly.py | 34 ++++++++++++++++------------------
 1 file changed, 16 insertions(+), 18 deletions(-)

diff --git a/src/ajdmom/poly.py b/src/ajdmom/poly.py
index 0f731ff..cb8d260 100644
--- a/src/ajdmom/poly.py
+++ b/src/ajdmom/poly.py
@@ -55,6 +55,7 @@ Note that :py:meth:`~ajdmom.poly.Poly.merge` (in-place) is different from
 the magic method :code:`__add__()` (not-in-place). The former changes the
 original poly, while the latter does not.
 """
+import csv
 from collections import UserDict
 
 
@@ -282,13 +283,12 @@ class Poly(UserDict):
         # for cases without 'l_{1:n}',...: mdl_1fsv, mdl_1fsvj, mdl_2fsv, mdl_2fsvj
         #
         if 'l_{1:n}' not in self.keyfor:
-            title = ','.join(self.keyfor) + ',num,den\n'
-            with open(filename, 'w', encoding='utf-8') as f:
-                f.write(title)
+            with open(filename, 'w', encoding='utf-8', newline='') as f:
+                # csv.writer quotes the fields which contain a comma
+                writer = csv.writer(f, lineterminator='\n')
+                writer.writerow(list(self.keyfor) + ['num', 'den'])
                 for k, v in self.items():
-                    num, den = v.numerator, v.denominator
-                    row = ','.join([str(s) for s in k]) + f',{str(num)},{str(den)}\n'
-                    f.write(row)
+                    writer.writerow(list(k) + [v.numerator, v.denominator])
             print(f"complete the writing of {filename}.")
             return
         #
@@ -322,13 +322,12 @@ class Poly(UserDict):
             sub1 = ['l' + str(j) for j in range(1, len(l) + 1)]
             sub2 = ['o' + str(j) for j in range(2, len(l) + 1)]
             names = list(self.keyfor[:i]) + sub1 + sub2 + list(self.keyfor[i + 2:])
-            title = ','.join(names) + ',num,den\n'
-            with open(filename, 'w', encoding='utf-8') as f:
-                f.write(title)
+            with open(filename, 'w', encoding='utf-8', newline='') as f:
+                writer = csv.writer(f, lineterminator='\n')
+                writer.writerow(names + ['num', 'den'])
                 for k, v in self.items():
-                    row = ','.join([str(s) for s in k[:i] + k[i] + k[i + 1] + k[i + 2:]])
-                    row += f',{v.numerator},{v.denominator}\n'
-                    f.write(row)
+                    row = k[:i] + k[i] + k[i + 1] + k[i + 2:]
+                    writer.writerow(list(row) + [v.numerator, v.denominator])
         #
         # for cases 'l_{1:n}', 'o_{1:n}', 'p_{2:n}', 'q_{2:n}': mdl_svvj, mdl_svij, mdl_svcj
         #
@@ -339,13 +338,12 @@ class Poly(UserDict):
             sub4 = ['q' + str(j) for j in range(2, len(l) + 1)]
             names = list(self.keyfor[:i]) + sub1 + sub2 + sub3 + sub4
             names += list(self.keyfor[i + 4:])
-            title = ','.join(names) + ',num,den\n'
-            with open(filename, 'w', encoding='utf-8') as f:
-                f.write(title)
+            with open(filename, 'w', encoding='utf-8', newline='') as f:
+                writer = csv.writer(f, lineterminator='\n')
+                writer.writerow(names + ['num', 'den'])
                 for k, v in self.items():
-                    row = ','.join([str(s) for s in k[:i] + k[i] + k[i + 1] + k[i + 2] + k[i + 3] + k[i + 4:]])
-                    row += f',{v.numerator},{v.denominator}\n'
-                    f.write(row)
+                    row = k[:i] + k[i] + k[i + 1] + k[i + 2] + k[i + 3] + k[i + 4:]
+                    writer.writerow(list(row) + [v.numerator, v.denominator])
         print(f"complete the writing of {filename}.")
 
 
-- 
2.43.0


From 9e2da2a74b5eb4f95bbe5834e69c69542583e25e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:10 +0000
Subject: [PATCH 09/13] fix: moment_ie(2) carries its keyfor

---
 src/ajdmom/mdl_srjd/cond_ie_iez_cmom.py | 1 +
 src/ajdmom/mdl_srjd/cond_ie_iez_mom.py  | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/ajdmom/mdl_srjd/cond_ie_iez_cmom.py b/src/ajdmom/mdl_srjd/cond_ie_iez_cmom.py
index 88b0d4d..7ae60a4 100644
--- a/src/ajdmom/mdl_srjd/cond_ie_iez_cmom.py
+++ b/src/ajdmom/mdl_srjd/cond_ie_iez_cmom.py
@@ -92,6 +92,7 @@ def moment_ie(n):
         (2, 1, 0, 1, 0, 0, 0): Fraction(1, 2),
         (0, 1, 0, 1, 0, 0, 0): Fraction(-1, 2)
     })
+    P2.set_keyfor(kf)
     IE[2] = P2
     #
     if n <= 2:
diff --git a/src/ajdmom/mdl_srjd/cond_ie_iez_mom.py b/src/ajdmom/mdl_srjd/cond_ie_iez_mom.py
index 40e4e79..2ed6f02 100644
--- a/src/ajdmom/mdl_srjd/cond_ie_iez_mom.py
+++ b/src/ajdmom/mdl_srjd/cond_ie_iez_mom.py
@@ -95,6 +95,7 @@ def moment_ie(n):
         (1, 2, 0, 0, 0, 1, 1): Fraction(-1, 1),
         (0, 2, 0, 0, 0, 1, 1): Fraction(1, 2)
     })
+    P2.set_keyfor(kf)
     IE[2] = P2
     #
     if n <= 2:
-- 
2.43.0


From faee3c9755c8549a29d7902b41a5320c6bad1446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:10 +0000
Subject: [PATCH 10/13] fix: iez_cmom.cm passes par to poly2num

---
 src/ajdmom/mdl_srjd/iez_cmom.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ajdmom/mdl_srjd/iez_cmom.py b/src/ajdmom/mdl_srjd/iez_cmom.py
index 2f9c6b6..2e94fc1 100644
--- a/src/ajdmom/mdl_srjd/iez_cmom.py
+++ b/src/ajdmom/mdl_srjd/iez_cmom.py
@@ -40,7 +40,7 @@ def cmoment_IEZ(n):
 
 def cm(n, par):
     cmoment = cmoment_IEZ(n)
-    value = poly2num(cmoment)
+    value = poly2num(cmoment, par)
     return value
 
 
-- 
2.43.0


From 1e1876a6d605b3ec344569512c6fe5e23370d31e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:10 +0000
Subject: [PATCH 11/13] fix: 0-th SVCJ conditional moment has a key matching
 its keyfor

---
 src/ajdmom/mdl_svcj/cond2_mom.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ajdmom/mdl_svcj/cond2_mom.py b/src/ajdmom/mdl_svcj/cond2_mom.py
index 0004178..3782344 100644
--- a/src/ajdmom/mdl_svcj/cond2_mom.py
+++ b/src/ajdmom/mdl_svcj/cond2_mom.py
@@ -165,7 +165,8 @@ def moments_y_to(l, J):
     #
     # special case: 0-th moment
     #
-    P1 = Poly({(0, 0, 0, 0, 0, 0, 0, 0, (), (), (), (), 0, 0, 0, 0): Frac(1, 1)})
+    J0 = tuple(0 for i in range(len(J)))
+    P1 = Poly({(0, 0, 0, 0, 0, 0, 0, 0, (), (), (), (), 0, 0, 0, 0, 0, 0, J0): Frac(1, 1)})
     P1.set_keyfor(kf)
     moms.append(P1)  # equiv to constant 1
     #
-- 
2.43.0


From 0a08090a74120bcbfb02e46ebb3f39eb77202212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:20 +0000
Subject: [PATCH 12/13] fix: classify handles an empty poly and skipped
 summation levels

---
 src/ajdmom/mdl_svvj/cond2_cmom.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ajdmom/mdl_svvj/cond2_cmom.py b/src/ajdmom/mdl_svvj/cond2_cmom.py
index be995dc..d264de4 100644
--- a/src/ajdmom/mdl_svvj/cond2_cmom.py
+++ b/src/ajdmom/mdl_svvj/cond2_cmom.py
@@ -205,6 +205,7 @@ def classify(poly):
     for k in poly:
         if len(k[6]) not in N_sum: N_sum.append(len(k[6]))
     N_sum = sorted(N_sum)  # 0,1,2,...
+    if len(N_sum) == 0: return []  # no term at all
     #
     # excludes l_{1:n}, o_{1:n}, p_{2:n}, q_{2:n}
     kf0 = poly.keyfor[:6] + poly.keyfor[10:]
@@ -216,7 +217,7 @@ def classify(poly):
     #
     # classify
     for k, v in poly.items():
-        subpoly = subpolys[len(k[6])]
+        subpoly = subpolys[N_sum.index(len(k[6]))]
         subpoly[k[0:6] + k[10:] if len(k[6]) == 0 else k] = v
         # exclude the empty subkey (),(),(),()
     return subpolys
-- 
2.43.0


From 930792b2abbf589b4d7c3b29d6eb754597927f8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:10 +0000
Subject: [PATCH 13/13] fix: rSRD returns the state when no time passes

---
 src/ajdmom/mdl_srjd/euler.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ajdmom/mdl_srjd/euler.py b/src/ajdmom/mdl_srjd/euler.py
index c9d4837..6380989 100644
--- a/src/ajdmom/mdl_srjd/euler.py
+++ b/src/ajdmom/mdl_srjd/euler.py
@@ -21,6 +21,7 @@ def rSRD(v0, tau, k, theta, sigma):
     :return: next sample
     :rtype: float
     """
+    if tau == 0: return v0  # jumps at time 0 or at the same time
     d = 4 * theta * k / (sigma ** 2)  # degrees of freedom
     c = (sigma ** 2) * (1 - math.exp(-k * tau)) / (4 * k)  # leading constant
     lmbd = v0 * math.exp(-k * tau) / c  # non-centrality parameter
-- 
2.43.0

