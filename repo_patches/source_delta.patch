From ab873c62c273691218b0fb394fbfa43dade0ab57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:26:22 +0000
Subject: [PATCH 01/10] fix: keep imaginary parts when converting to spin
 orbitals

The conversions filled real arrays, so complex amplitudes, Fock matrices
and integrals lost their imaginary parts.
---
 cqcpy/spin_utils.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/cqcpy/spin_utils.py b/cqcpy/spin_utils.py
index 1fe7504..125041b 100644
--- a/cqcpy/spin_utils.py
+++ b/cqcpy/spin_utils.py
@@ -7,19 +7,23 @@ from cqcpy.ov_blocks import two_e_blocks_full
 def F_to_spin(Faa, Fbb, noa, nva, nob, nvb):
     no = noa + nob
     nv = nva + nvb
-    Foo = numpy.zeros((no, no))
+    Foo = numpy.zeros(
+        (no, no), dtype=numpy.result_type(float, Faa.oo, Fbb.oo))
     Foo[:noa, :noa] = Faa.oo
     Foo[noa:, noa:] = Fbb.oo
 
-    Fov = numpy.zeros((no, nv))
+    Fov = numpy.zeros(
+        (no, nv), dtype=numpy.result_type(float, Faa.ov, Fbb.ov))
     Fov[:noa, :nva] = Faa.ov
     Fov[noa:, nva:] = Fbb.ov
 
-    Fvo = numpy.zeros((nv, no))
+    Fvo = numpy.zeros(
+        (nv, no), dtype=numpy.result_type(float, Faa.vo, Fbb.vo))
     Fvo[:nva, :noa] = Faa.vo
     Fvo[nva:, noa:] = Fbb.vo
 
-    Fvv = numpy.zeros((nv, nv))
+    Fvv = numpy.zeros(
+        (nv, nv), dtype=numpy.result_type(float, Faa.vv, Fbb.vv))
     Fvv[:nva, :nva] = Faa.vv
     Fvv[nva:, nva:] = Fbb.vv
 
@@ -48,7 +52,7 @@ def F_to_spatial(F, noa, nva, nob, nvb):
 def T1_to_spin(Ta, Tb, noa, nva, nob, nvb):
     no = noa + nob
     nv = nva + nvb
-    T = numpy.zeros((nv, no))
+    T = numpy.zeros((nv, no), dtype=numpy.result_type(float, Ta, Tb))
     T[:nva, :noa] = Ta.copy()
     T[nva:, noa:] = Tb.copy()
     return T
@@ -87,7 +91,8 @@ def T1_to_spatial(T, noa, nva, nob, nvb):
 def T2_to_spin(Taa, Tab, Tbb, noa, nva, nob, nvb):
     no = noa + nob
     nv = nva + nvb
-    T = numpy.zeros((nv, nv, no, no))
+    T = numpy.zeros(
+        (nv, nv, no, no), dtype=numpy.result_type(float, Taa, Tab, Tbb))
     T[:nva, :nva, :noa, :noa] = Taa.copy()  # aaaa
     T[nva:, nva:, noa:, noa:] = Tbb.copy()  # bbbb
     T[:nva, nva:, :noa, noa:] = Tab.copy()  # abab
@@ -123,7 +128,8 @@ def int_to_spin_block(aaaa, bbbb, abab, baba, abba, baab,
     n2 = na2 + nb2
     n3 = na3 + nb3
     n4 = na4 + nb4
-    I = numpy.zeros((n1, n2, n3, n4))
+    dtype = numpy.result_type(float, aaaa, bbbb, abab, baba, abba, baab)
+    I = numpy.zeros((n1, n2, n3, n4), dtype=dtype)
     I[:na1, :na2, :na3, :na4] = aaaa  # aaaa
     I[na1:, na2:, na3:, na4:] = bbbb  # bbbb
     I[:na1, na2:, :na3, na4:] = abab  # abab
-- 
2.43.0


From 0650c044487c44e192160d5ca44dd7fa23f1551a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:33:32 +0000
Subject: [PATCH 02/10] fix: let Dstring.excite act with the number operator

Exciting an occupied orbital onto itself returned (None, None), because the
target orbital was already occupied.  The branch for i == a was unreachable.
---
 cqcpy/ci_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cqcpy/ci_utils.py b/cqcpy/ci_utils.py
index e0b233a..8996c35 100644
--- a/cqcpy/ci_utils.py
+++ b/cqcpy/ci_utils.py
@@ -10,7 +10,7 @@ class Dstring(object):
     def excite(self, i, a):
         if self.occ[i] != 1:
             return (None, None)
-        if self.occ[a] != 0:
+        if i != a and self.occ[a] != 0:
             return (None, None)
 
         if i == a:
-- 
2.43.0


From a37bbb5610f120c472b9e564774079bfced0cb77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:33:32 +0000
Subject: [PATCH 03/10] fix: loop over occupied orbitals in q_strings

The two outer loops ran over the occupation numbers instead of the indices
of the occupied orbitals, so most quadruple excitations were missing.
---
 cqcpy/ci_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cqcpy/ci_utils.py b/cqcpy/ci_utils.py
index 8996c35..50e25da 100644
--- a/cqcpy/ci_utils.py
+++ b/cqcpy/ci_utils.py
@@ -140,9 +140,9 @@ def q_strings(n, nocc, occ=None):
     ivir = [i for i, x in enumerate(vir) if x > 0]
     ref = Dstring(n, occ)
     dlist = []
-    for i in occ:
+    for i in iocc:
         for a in ivir:
-            for j in occ:
+            for j in iocc:
                 if j <= i:
                     continue
                 for b in ivir:
-- 
2.43.0


From 783c5a2bafd2fbcdc715b7fb0f0c46244e32abec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:33:32 +0000
Subject: [PATCH 04/10] fix: add the constant to diagonal elements in
 gci_matrixel

ci_matrixel adds the constant to the diagonal, gci_matrixel ignored it.
---
 cqcpy/ci_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cqcpy/ci_utils.py b/cqcpy/ci_utils.py
index 50e25da..56c2853 100644
--- a/cqcpy/ci_utils.py
+++ b/cqcpy/ci_utils.py
@@ -1279,7 +1279,7 @@ def gci_matrixel(bra, ket, h, I, const):
         Hel = numpy.einsum('ii,i->', h, p)
         Hel += 0.5*numpy.einsum('ijij,i,j->', I, p, p)
         Hel -= 0.5*numpy.einsum('ijji,i,j->', I, p, p)
-        return Hel
+        return Hel + const
     elif ddd == 1:
         o = numpy.nonzero(ao)[0][0]
         v = numpy.nonzero(av)[0][0]
-- 
2.43.0


From 2bd475315a06c63a9e8bb48e8a6b5509d2d0a6e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:33:32 +0000
Subject: [PATCH 05/10] fix: sign of doubly excited elements in gci_matrixel

The phase of each excitation was computed from the bra alone.  The second
excitation sees an extra sign when the two orbital ranges are disjoint.
---
 cqcpy/ci_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cqcpy/ci_utils.py b/cqcpy/ci_utils.py
index 56c2853..11e98c3 100644
--- a/cqcpy/ci_utils.py
+++ b/cqcpy/ci_utils.py
@@ -1303,9 +1303,10 @@ def gci_matrixel(bra, ket, h, I, const):
         j1, j2 = min(o2, v2), max(o2, v2)
         sign1 = 1.0 if b[i1 + 1:i2].sum() % 2 == 0 else -1.0
         sign2 = 1.0 if b[j1 + 1:j2].sum() % 2 == 0 else -1.0
+        sign = -sign1*sign2 if (v2 < o1 or o2 < v1) else sign1*sign2
         # from Ha
         Hel = I[v1, v2, o1, o2] - I[v1, v2, o2, o1]
-        return sign1*sign2*Hel
+        return sign*Hel
     else:
         return 0.0
 
-- 
2.43.0


From 12a25358c035e7fd4d1895658db4b931c55a7dff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:35:06 +0000
Subject: [PATCH 06/10] fix: default occupation in gmakeCfromT

The default occupation covered only half of the spin orbitals, so every call
without an explicit occupation failed an assertion.  Use the reference of the
determinant basis, as the basis functions do.
---
 cqcpy/ci_utils.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cqcpy/ci_utils.py b/cqcpy/ci_utils.py
index 11e98c3..90ce595 100644
--- a/cqcpy/ci_utils.py
+++ b/cqcpy/ci_utils.py
@@ -431,7 +431,11 @@ def gmakeCfromT(no, nv, T1, T2, order=2, occ=None):
         raise Exception("Higher than 4th order is not supported")
 
     if occ is None:
-        occ = [1 if i < no else 0 for i in range(nmo//2)]
+        nb = no//2
+        na = no - nb
+        occa = [1 if i < na else 0 for i in range(nmo//2)]
+        occb = [1 if i < nb else 0 for i in range(nmo//2)]
+        occ = occa + occb
     vir = [1 if x == 0 else 0 for x in occ]
     iocc = [i for i, x in enumerate(occ) if x > 0]
     ivir = [i for i, x in enumerate(vir) if x > 0]
-- 
2.43.0


From 33c3a00fb98e6aedeab742f07e7d1ee4b4223d45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:35:06 +0000
Subject: [PATCH 07/10] fix: include T1b^2*T2aa in makeCfromT

Quadruple excitations with two electrons of each spin lacked the product of
two beta singles with an alpha-alpha double.
---
 cqcpy/ci_utils.py | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/cqcpy/ci_utils.py b/cqcpy/ci_utils.py
index 90ce595..d714924 100644
--- a/cqcpy/ci_utils.py
+++ b/cqcpy/ci_utils.py
@@ -1121,6 +1121,28 @@ def makeCfromT(noa, nva, nob, nvb, T1a, T1b, T2aa, T2ab, T2bb, order=2):
                                         if bstr is not None and astr is not None:
                                             idx = basis.index((astr, bstr))
                                             C[idx] += sa*s1*s2*s3*T1a[a, i]*T1b[b, j]*T2bb[c, d, k, l]
+        # loop over T1b^2*T2aa
+        for i in range(nob):
+            for j in range(nob):
+                for k in range(noa):
+                    for l in range(k+1, noa):
+                        for a in range(nvb):
+                            for b in range(nvb):
+                                for c in range(nva):
+                                    for d in range(c+1, nva):
+                                        sb1, bstr = refb.excite(i, a + nob)
+                                        if bstr is None:
+                                            continue
+                                        sb2, bstr = bstr.excite(j, b + nob)
+                                        if bstr is None:
+                                            continue
+                                        sa1, astr = refa.excite(k, c + noa)
+                                        if astr is None:
+                                            continue
+                                        sa2, astr = astr.excite(l, d + noa)
+                                        if bstr is not None and astr is not None:
+                                            idx = basis.index((astr, bstr))
+                                            C[idx] += sa1*sa2*sb1*sb2*T1b[a, i]*T1b[b, j]*T2aa[c, d, k, l]/2.0
         # loop over T1b^2*T2ab
         for i in range(nob):
             for j in range(nob):
-- 
2.43.0


From 6b0b3d63277c6df8397a7b7e53cfaeb6b2d199fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:41:18 +0000
Subject: [PATCH 08/10] fix: use the second orbital set in get_chem_anti

The first set of coefficients was passed in the second slot as well.
---
 cqcpy/integrals.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cqcpy/integrals.py b/cqcpy/integrals.py
index c115f61..c2b7918 100644
--- a/cqcpy/integrals.py
+++ b/cqcpy/integrals.py
@@ -22,7 +22,7 @@ def get_chem(mol, o1, o2, o3, o4, anti=False):
 def get_chem_anti(mol, o1, o2, o3, o4):
     """Get antisymmetrized ERIs in chemist's notation for given
     orbital Coeffs."""
-    return get_chem(mol, o1, o1, o3, o4, anti=True)
+    return get_chem(mol, o1, o2, o3, o4, anti=True)
 
 
 def get_phys(mol, o1, o2, o3, o4, anti=False):
-- 
2.43.0


From c719843993983c872ff6c575e4564ab34a7045dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:56:05 +0000
Subject: [PATCH 09/10] fix: keep the imaginary part of denominators in
 D2_to_spin

The spin-orbital denominator array was always allocated as real, so complex
denominators lost their imaginary parts.  The array now has the common type
of the three input blocks, as in the amplitude conversions.
---
 cqcpy/spin_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cqcpy/spin_utils.py b/cqcpy/spin_utils.py
index 125041b..1ac4fa7 100644
--- a/cqcpy/spin_utils.py
+++ b/cqcpy/spin_utils.py
@@ -105,7 +105,8 @@ def T2_to_spin(Taa, Tab, Tbb, noa, nva, nob, nvb):
 def D2_to_spin(Daa, Dab, Dbb, noa, nva, nob, nvb):
     no = noa + nob
     nv = nva + nvb
-    D = numpy.zeros((nv, nv, no, no))
+    D = numpy.zeros(
+        (nv, nv, no, no), dtype=numpy.result_type(float, Daa, Dab, Dbb))
     D[:nva, :nva, :noa, :noa] = Daa.copy()  # aaaa
     D[nva:, nva:, noa:, noa:] = Dbb.copy()  # bbbb
     D[:nva, nva:, :noa, noa:] = Dab.copy()  # abab
-- 
2.43.0


From 5c19fea3b7ba8d343331c77793f437244b175729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:51:26 +0000
Subject: [PATCH 10/10] fix: Apply the prefactor in the Stanton form of the
 Lambda equations

The routine accepts a prefactor for the terms it adds to the caller's
arrays, but ignored it.
---
 cqcpy/cc_equations.py | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/cqcpy/cc_equations.py b/cqcpy/cc_equations.py
index 5d6ed1e..6d29090 100644
--- a/cqcpy/cc_equations.py
+++ b/cqcpy/cc_equations.py
@@ -1161,31 +1161,32 @@ def _Lambda_Stanton(L1, L2, F, I, L1old, L2old, T1old, T2old, fac=1.0):
     Gvv = -0.5*einsum('mnaf,efmn->ae', L2old, T2old)
     Goo = 0.5*einsum('inef,efmn->mi', L2old, T2old)
 
-    L1 += einsum('ie,ea->ia', L1old, F1vv)
-    L1 -= einsum('ma,im->ia', L1old, F1oo)
-    L1 += einsum('me,ieam->ia', L1old, W1ovvo)
-    L1 += 0.5*einsum('imef,efam->ia', L2old, W1vvvo)
-    L1 -= 0.5*einsum('mnae,iemn->ia', L2old, W1ovoo)
-    L1 -= einsum('ef,eifa->ia', Gvv, W1vovv)
-    L1 -= einsum('mn,mina->ia', Goo, W1ooov)
+    L1 += fac*einsum('ie,ea->ia', L1old, F1vv)
+    L1 -= fac*einsum('ma,im->ia', L1old, F1oo)
+    L1 += fac*einsum('me,ieam->ia', L1old, W1ovvo)
+    L1 += fac*0.5*einsum('imef,efam->ia', L2old, W1vvvo)
+    L1 -= fac*0.5*einsum('mnae,iemn->ia', L2old, W1ovoo)
+    L1 -= fac*einsum('ef,eifa->ia', Gvv, W1vovv)
+    L1 -= fac*einsum('mn,mina->ia', Goo, W1ooov)
 
-    L2 += 0.5*einsum('mnab,ijmn->ijab', L2old, W1oooo)
-    L2 += 0.5*einsum('ijef,efab->ijab', L2old, W1vvvv)
+    L2 += fac*0.5*einsum('mnab,ijmn->ijab', L2old, W1oooo)
+    L2 += fac*0.5*einsum('ijef,efab->ijab', L2old, W1vvvv)
 
     tempijab = einsum('ia,jb->ijab', L1old, F1ov)
     tempijab += einsum('imae,jebm->ijab', L2old, W1ovvo)
-    L2 += tempijab - tempijab.transpose((0, 1, 3, 2)) \
-        - tempijab.transpose((1, 0, 2, 3)) + tempijab.transpose((1, 0, 3, 2))
+    L2 += fac*(
+        tempijab - tempijab.transpose((0, 1, 3, 2))
+        - tempijab.transpose((1, 0, 2, 3)) + tempijab.transpose((1, 0, 3, 2)))
 
     tempij = -einsum('imab,jm->ijab', L2old, F1oo)
     tempij += einsum('ie,ejab->ijab', L1old, W1vovv)
     tempij -= einsum('imab,mj->ijab', I.oovv, Goo)
-    L2 += tempij - tempij.transpose((1, 0, 2, 3))
+    L2 += fac*(tempij - tempij.transpose((1, 0, 2, 3)))
 
     tempab = einsum('ijae,eb->ijab', L2old, F1vv)
     tempab -= einsum('ma,ijmb->ijab', L1old, W1ooov)
     tempab += einsum('ijae,be->ijab', I.oovv, Gvv)
-    L2 += tempab - tempab.transpose((0, 1, 3, 2))
+    L2 += fac*(tempab - tempab.transpose((0, 1, 3, 2)))
 
 
 def _Lambda_opt(L1, L2, F, I, L1old, L2old, T1old, T2old, fac=1.0):
-- 
2.43.0

