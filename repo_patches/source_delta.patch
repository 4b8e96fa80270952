From 886e02257b02267cbc0dca18f6c17b5a30ab86ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:46 +0000
Subject: [PATCH 01/23] fix: count lattice parameters with len(), numpy 1.23
 removed alen

---
 structrans/crystallography/bravais_lattice.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/structrans/crystallography/bravais_lattice.py b/structrans/crystallography/bravais_lattice.py
index b4756bb..9670303 100644
--- a/structrans/crystallography/bravais_lattice.py
+++ b/structrans/crystallography/bravais_lattice.py
@@ -33,14 +33,14 @@ class BravaisLattice(Lattice):
             if not latID in range(1, 15):
                 raise ValueError('3D Bravais lattice ID must between 1 and 14')
             pramlen = [1, 1, 1, 2, 2, 2, 2, 3, 3, 3, 3, 4, 4, 6] 
-            if not np.alen(latParam) == pramlen[latID - 1]:
+            if not len(latParam) == pramlen[latID - 1]:
                 raise ValueError('the number of lattice parameters does not match the type of Bravais lattice.')
             E, C = BravaisLattice.__primitiveBase3D__(latID, latParam)
         if dim == 2:
             if not latID in range(1, 6):
                 raise ValueError('2D Bravais lattice ID must be between 1 and 5.')
             pramlen = [1, 2, 2, 1, 3] 
-            if not np.alen(latParam) == pramlen[latID-1]:
+            if not len(latParam) == pramlen[latID-1]:
                 raise ValueError('the number of lattice parameters does not match the type of Bravais lattice.')
             E, C = BravaisLattice.__primitiveBase2D__(latID, latParam)
 
-- 
2.43.0


From d39fb37a6c9b50ee93a426cfb0ac6cccd146668f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:48 +0000
Subject: [PATCH 02/23] fix: publish a lattice's symmetry group only when it is
 complete

Laue_group() and point_group() cached the cubic candidate before trying the
hexagonal one, so an interrupt or another thread in between saw a hexagonal
lattice with 4 instead of 12 rotations, for good in the case of an interrupt.
---
 structrans/crystallography/lattice.py | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/structrans/crystallography/lattice.py b/structrans/crystallography/lattice.py
index 351b0a1..676d342 100644
--- a/structrans/crystallography/lattice.py
+++ b/structrans/crystallography/lattice.py
@@ -93,17 +93,19 @@ class Lattice():
         if not self.dimension() in [2, 3]:
             raise AttributeError('Laue groups for other than 2D and 3D lattices are not implemented yet.')
         if self.__LaueGroup is None and self.dimension() == 3:
-            self.__LaueGroup = MatrixGroup(np.array([Q for Q in CUBIC_LAUE_GROUP.matrices() if self.inpointgroup(Q)]))
-            if self.__LaueGroup.order() == 4:
+            group = MatrixGroup(np.array([Q for Q in CUBIC_LAUE_GROUP.matrices() if self.inpointgroup(Q)]))
+            if group.order() == 4:
                 hexgroup = MatrixGroup(np.array([Q for Q in HEX_LAUE_GROUP.matrices() if self.inpointgroup(Q)]))
-                if hexgroup.order() > self.__LaueGroup.order():
-                    self.__LaueGroup = hexgroup
+                if hexgroup.order() > group.order():
+                    group = hexgroup
+            self.__LaueGroup = group
         if self.__LaueGroup is None and self.dimension() == 2:
-            self.__LaueGroup = MatrixGroup(np.array([Q for Q in SQUARE_GROUP.matrices() if self.inpointgroup(Q)]))
-            if self.__LaueGroup.order() == 2:
+            group = MatrixGroup(np.array([Q for Q in SQUARE_GROUP.matrices() if self.inpointgroup(Q)]))
+            if group.order() == 2:
                 hexGroup = MatrixGroup(np.array([Q for Q in HEX2D_GROUP.matrices() if self.inpointgroup(Q)]))
-                if hexGroup.order() > self.__LaueGroup.order():
-                    self.__LaueGroup = hexGroup
+                if hexGroup.order() > group.order():
+                    group = hexGroup
+            self.__LaueGroup = group
         return self.__LaueGroup
 
     def getLauegroup(self):
@@ -122,11 +124,12 @@ class Lattice():
             lg = np.array(self.Laue_group().matrices())
             self.__pointGroup = MatrixGroup(np.append(lg, -lg, axis=0))
         elif self.__pointGroup is None and self.__N == 2:
-            self.__pointGroup = MatrixGroup(np.array([Q for Q in SQUARE_EXT_GROUP.matrices() if self.inpointgroup(Q)]))
-            if self.__pointGroup.order() == 4:
+            group = MatrixGroup(np.array([Q for Q in SQUARE_EXT_GROUP.matrices() if self.inpointgroup(Q)]))
+            if group.order() == 4:
                 hexGroup = MatrixGroup(np.array([Q for Q in HEX2D_EXT_GROUP.matrices() if self.inpointgroup(Q)]))
-                if hexGroup.order() > self.__pointGroup.order():
-                    self.__pointGroup = hexGroup
+                if hexGroup.order() > group.order():
+                    group = hexGroup
+            self.__pointGroup = group
         return self.__pointGroup
 
     def getpointgroup(self):
-- 
2.43.0


From 1669e64016baddb0ea3f813266058ea46ac50a06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:48 +0000
Subject: [PATCH 03/23] fix: do not report running out of memory as 'not in the
 group'

inpointgroup() and inlatticegroup() answered False when any exception, such as
MemoryError, was raised while converting the argument.
---
 structrans/crystallography/lattice.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/structrans/crystallography/lattice.py b/structrans/crystallography/lattice.py
index 676d342..3acd350 100644
--- a/structrans/crystallography/lattice.py
+++ b/structrans/crystallography/lattice.py
@@ -58,7 +58,7 @@ class Lattice():
         # if Q is not an orthogonal matrix, return false
         try:
             Q = np.array(Q)
-        except Exception:
+        except (TypeError, ValueError):
             return False
         if not _in_O3(Q):
             return False
@@ -74,7 +74,7 @@ class Lattice():
         # if Q is not an orthogonal matrix, return false
         try:
             M = np.array(M)
-        except Exception:
+        except (TypeError, ValueError):
             return False
         M_int = np.rint(M)
         if not np.allclose(M, M_int, atol=1E-8):
-- 
2.43.0


From 063942c459a29dccadfbcbd086400c125b2779dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:48 +0000
Subject: [PATCH 04/23] fix: store a martensite's operation indices before its
 variant list

getLaueidx() returned None when it overlapped, or came after an interrupt of,
the first variant computation between the two assignments.
---
 structrans/marttrans/martensite.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/structrans/marttrans/martensite.py b/structrans/marttrans/martensite.py
index bde6f1a..64fd83e 100644
--- a/structrans/marttrans/martensite.py
+++ b/structrans/marttrans/martensite.py
@@ -165,8 +165,9 @@ class Martensite():
                     ulist.append(V)
                     idx.append([i])
 
-            self.__Ulist = np.array(ulist)
+            # the variant list guards the computation, so it goes last
             self.__Laueidx = np.array(idx)
+            self.__Ulist = np.array(ulist)
 
 #     def getLaueIdx(self, *args):
 #         if self._laueIdx == None:
-- 
2.43.0


From 8f0b4de630e31ec745c70bb8c64bbb25feaa871f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:48 +0000
Subject: [PATCH 05/23] fix: publish a twin system's table and pairs only when
 they are complete

Other threads, and all later queries after an interrupt, saw a partial table.
---
 structrans/marttrans/twin.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/structrans/marttrans/twin.py b/structrans/marttrans/twin.py
index 5cc9bb8..2592a60 100644
--- a/structrans/marttrans/twin.py
+++ b/structrans/marttrans/twin.py
@@ -56,14 +56,17 @@ class TwinSystem():
         get all twinnable variant pairs, in terms of indices in ``Ulist``
         """
         if self.__twintable is None:
-            self.__twintable = []
-            self.__twinpairs = []
+            twintable = []
+            twinpairs = []
             for i in xrange(self.__N - 1):
                 for j in xrange(i + 1, self.__N):
                     tp = TwinPair(self.__Ulist[i], self.__Ulist[j], skipcheck=True)
                     if tp.istwinnable():
-                        self.__twintable.append((i, j))
-                        self.__twinpairs.append(tp)
+                        twintable.append((i, j))
+                        twinpairs.append(tp)
+            # the table guards the computation, so it goes last
+            self.__twinpairs = twinpairs
+            self.__twintable = twintable
         return np.array(self.__twintable)
 
     def getTwinpairs(self):
-- 
2.43.0


From 4d934efdac26269cb50eef245d41419de2b31f10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:48 +0000
Subject: [PATCH 06/23] fix: isconventional() answers for the group it is asked
 about

The answer for the first group was cached and returned for every other group.
---
 structrans/marttrans/twin.py | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/structrans/marttrans/twin.py b/structrans/marttrans/twin.py
index 2592a60..517adba 100644
--- a/structrans/marttrans/twin.py
+++ b/structrans/marttrans/twin.py
@@ -153,7 +153,6 @@ class TwinPair():
         self.__e, self.__v = util.utils.sort_eig(self.__C)
 
         self.__twinnable = self.istwinnable()
-        self.__conventional = None
         self.__ax = None
         self.__XI = None
         self.__XII = None
@@ -195,17 +194,13 @@ class TwinPair():
         lauegroup is a MatrixGroup.
         :return:  if the twin pair is conventionally twinned
         """
-        if self.__conventional is None:
-            if not self.__twinnable:
-                return False
-            twofold = CUBIC_LAUE_GROUP.matrices()[1:10] if len(lauegroup) == 0 else lauegroup[0].matrices()
-            conventional = False
-            for Q in twofold:
-                if np.max(np.abs(Q.dot(self.__Ui).dot(Q.T) - self.__Uj)) < SMALL:
-                    conventional = True
-                    break
-            self.__conventional = conventional
-        return self.__conventional
+        if not self.__twinnable:
+            return False
+        twofold = CUBIC_LAUE_GROUP.matrices()[1:10] if len(lauegroup) == 0 else lauegroup[0].matrices()
+        for Q in twofold:
+            if np.max(np.abs(Q.dot(self.__Ui).dot(Q.T) - self.__Uj)) < SMALL:
+                return True
+        return False
 
     def ax(self):
         """
-- 
2.43.0


From 201b8c1e61e6baf9c6ef7f17e9c4013ddace9f2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:48 +0000
Subject: [PATCH 07/23] fix: twin parameters of pairs with a two-fold axis

The axis, an array, was compared with None, so twinparam() always raised.
---
 structrans/marttrans/twin.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structrans/marttrans/twin.py b/structrans/marttrans/twin.py
index 517adba..8764c5d 100644
--- a/structrans/marttrans/twin.py
+++ b/structrans/marttrans/twin.py
@@ -394,7 +394,7 @@ def _solvetwin(U, Uj, e):
     """
     find the two solutions to the twinning equation
     """
-    if not e == None:
+    if e is not None:
         ehat = e/la.norm(e)
         Uinv = la.inv(U)
         R180 = -np.eye(3) + 2*np.outer(ehat, ehat)
-- 
2.43.0


From 3750fec900597de2288fd64753a22eec6af04fa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:28 +0000
Subject: [PATCH 08/23] fix: a lattice keeps its own copy of the base matrix

Overwriting the array passed to Lattice() changed the lattice.
---
 structrans/crystallography/lattice.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/structrans/crystallography/lattice.py b/structrans/crystallography/lattice.py
index 3acd350..5fc10a2 100644
--- a/structrans/crystallography/lattice.py
+++ b/structrans/crystallography/lattice.py
@@ -13,8 +13,7 @@ class Lattice():
     def __init__(self, E):
         # check if E is a square matrix
         try:
-            if not isinstance(E, np.ndarray):
-                E = np.array(E)
+            E = np.array(E)
             if not _is_square_mat(E):
                 raise ValueError('Base is not a square matrix')
             if la.det(E)**2 <= 0.0:
-- 
2.43.0


From ef2a90a5c4f7a2a70ab28bd858f19aa259904249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:28 +0000
Subject: [PATCH 09/23] fix: a matrix group keeps its own copy of its matrices

Overwriting the list or array passed to MatrixGroup() changed the group.
---
 structrans/crystallography/matrix_group.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structrans/crystallography/matrix_group.py b/structrans/crystallography/matrix_group.py
index 64e0d4b..e9a9fda 100644
--- a/structrans/crystallography/matrix_group.py
+++ b/structrans/crystallography/matrix_group.py
@@ -74,7 +74,7 @@ class MatrixGroup():
         # self.__mtable = self.isgroup(matrices)
         # if self.__mtable is False:
         #     raise ValueError("input does not form a group")
-        self.__mats = matrices
+        self.__mats = [np.array(m) for m in matrices]
 
 
     def matrices(self):
-- 
2.43.0


From b32de34b4a0e5da89832a2bcb88e350b8af6d79d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:28 +0000
Subject: [PATCH 10/23] fix: a Bravais lattice does not share its parameter and
 conversion arrays

Overwriting the parameter array passed in, or what lat_param() or
conventional_trans() returned, changed later answers of the lattice.
---
 structrans/crystallography/bravais_lattice.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/structrans/crystallography/bravais_lattice.py b/structrans/crystallography/bravais_lattice.py
index 9670303..d1fa5a8 100644
--- a/structrans/crystallography/bravais_lattice.py
+++ b/structrans/crystallography/bravais_lattice.py
@@ -16,11 +16,10 @@ class BravaisLattice(Lattice):
         Constructor
         '''
         try:
-            if not isinstance(latParam, np.ndarray):
-                if isinstance(latParam, list):
-                    latParam = np.array(latParam)
-                else:
-                    latParam = np.array([latParam])
+            if isinstance(latParam, (list, np.ndarray)):
+                latParam = np.array(latParam)
+            else:
+                latParam = np.array([latParam])
             if len(latParam.shape) > 1:
                 raise ValueError('lattice parameters is not a 1D list nor single value')
             elif any(latParam <= 0):
@@ -295,7 +294,7 @@ class BravaisLattice(Lattice):
         '''
         get the lattice parameters
         '''
-        return self.__latParam
+        return self.__latParam.copy()
 
     def getLatParam(self):
         warn("getLatParam() is deprecated, please use lat_param() instead.", DeprecationWarning)
@@ -308,7 +307,7 @@ class BravaisLattice(Lattice):
         - conv_base = prim_base * **cnvr_mat**
         - prim_idx = **cnvr_mat** * conv_idx
         '''
-        return self.__C
+        return self.__C.copy()
 
     def getConventionalTrans(self):
         warn("getConventionalTrans() is deprecated, please use conventional_trans() instead.", DeprecationWarning)
-- 
2.43.0


From 44e55904e0aa59130b7a68ab9edb14eeea8f291b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:28 +0000
Subject: [PATCH 11/23] fix: a martensite does not share its arrays with the
 caller

Overwriting the stretch tensor passed in, or what getvariants(), getvariant()
or getLaueidx() returned, changed later answers.
---
 structrans/marttrans/martensite.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/structrans/marttrans/martensite.py b/structrans/marttrans/martensite.py
index 64fd83e..6c14e83 100644
--- a/structrans/marttrans/martensite.py
+++ b/structrans/marttrans/martensite.py
@@ -15,7 +15,7 @@ class Martensite():
     """
     
     def __init__(self, *args):
-        self.__U = args[0] if len(args) > 0 else None
+        self.__U = np.array(args[0]) if len(args) > 0 and args[0] is not None else None
         self.__Laue = args[1] if len(args) > 1 else CUBIC_LAUE_GROUP
         self.__Ulist = None
         self.__Laueidx = None
@@ -102,7 +102,7 @@ class Martensite():
         """
         if self.__Ulist is None:
             self.calcvariants()
-        return self.__Ulist
+        return self.__Ulist.copy()
 
     def getvariant(self, n):
         """
@@ -113,7 +113,7 @@ class Martensite():
         """
         if self.__Ulist is None:
             self.calcvariants()
-        return self.__Ulist[n - 1]
+        return self.__Ulist[n - 1].copy()
 
     def isreversible(self):
         """
@@ -135,7 +135,7 @@ class Martensite():
     def getLaueidx(self):
         if self.__Laueidx is None:
             self.calcvariants()
-        return self.__Laueidx
+        return self.__Laueidx.copy()
 
     def calcvariants(self):
         """
-- 
2.43.0


From 20dcbf30dd956fe5b4fb67a5fb0cc1b8845bae3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:28 +0000
Subject: [PATCH 12/23] fix: twin systems and pairs do not share their arrays
 with the caller

Overwriting the tensors passed to TwinPair(), or what ax(), twinparam() or
getTwinpairs() returned, changed later answers.
---
 structrans/marttrans/twin.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/structrans/marttrans/twin.py b/structrans/marttrans/twin.py
index 8764c5d..3ddab74 100644
--- a/structrans/marttrans/twin.py
+++ b/structrans/marttrans/twin.py
@@ -1,4 +1,5 @@
 from ..general_imports import *
+import copy
 import math
 
 from .. import util
@@ -89,7 +90,7 @@ class TwinSystem():
         """
         if self.__twinpairs is None:
             self.TwinTable()
-        return self.__twinpairs
+        return list(self.__twinpairs)
 
     def getConventional(self):
         """
@@ -145,8 +146,8 @@ class TwinPair():
         if not skipcheck and (not util.utils.pos_def_sym(Ui) or not util.utils.pos_def_sym(Uj)):
             raise ValueError("Ui or Uj is not a 3 x 3 positive definite symmetric matrix")
 
-        self.__Ui = Ui
-        self.__Uj = Uj
+        self.__Ui = np.array(Ui)
+        self.__Uj = np.array(Uj)
 
         Uiinv = la.inv(Ui)
         self.__C = np.dot(Uiinv.dot(Uj), Uj.dot(Uiinv))
@@ -226,7 +227,7 @@ class TwinPair():
                     e = del1 * self.__Ui.dot(self.__v[0]) + del3 * self.__Ui.dot(self.__v[2])
                     ehat.append(e/la.norm(e))
             self.__ax = ehat
-        return self.__ax
+        return [e.copy() for e in self.__ax]
 
 
     def iscompound(self):
@@ -304,7 +305,7 @@ class TwinPair():
             else:
                 self.__twinparam = _solvetwin(self.__Ui, self.__Uj, None)
 
-        return self.__twinparam
+        return copy.deepcopy(self.__twinparam)
 
     def iscompatible(self, twintype="C"):
         """
-- 
2.43.0


From a61d8e90c524b6e01beee85a5edefd2d9c404738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:58:43 +0000
Subject: [PATCH 13/23] fix: LLL reduces integer bases instead of raising a
 casting error

---
 structrans/crystallography/lattice_reduction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structrans/crystallography/lattice_reduction.py b/structrans/crystallography/lattice_reduction.py
index 15c85b2..bb871bc 100644
--- a/structrans/crystallography/lattice_reduction.py
+++ b/structrans/crystallography/lattice_reduction.py
@@ -54,7 +54,7 @@ def LLL(E):
 
     Niter = 0
 
-    B = E.copy()
+    B = np.array(E, dtype='float')
     while Niter < 1000 and swap:
         B = Gauss_reduction(B).copy()
         swap, i = swapping(B)
-- 
2.43.0


From a3e3cac3b14d45cd49cdc8fe0cff39911fd0d6f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:58:43 +0000
Subject: [PATCH 14/23] fix: reduce_hnfs works without a print function, as
 reduce_hnfs_par calls it

---
 structrans/marttrans/lat_cor/main_hnf.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/structrans/marttrans/lat_cor/main_hnf.py b/structrans/marttrans/lat_cor/main_hnf.py
index 925f120..5a652b8 100644
--- a/structrans/marttrans/lat_cor/main_hnf.py
+++ b/structrans/marttrans/lat_cor/main_hnf.py
@@ -19,7 +19,8 @@ def reduce_hnfs(args):
     """
     hnfs = args[0]
     lg = args[1]
-    lprint = args[2] # if len(args) > 2 else print
+    # workers of reduce_hnfs_par are not given a print function
+    lprint = args[2] if len(args) > 2 else logger.info
     lprint("Reducing {:d} HNFs ...".format(len(hnfs)))
     rhnfs = {}
     for i, h in enumerate(hnfs):
-- 
2.43.0


From 7cbaec7b8c6920555aa891c6afd5b49b08823869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:58:43 +0000
Subject: [PATCH 15/23] fix: merging keeps solutions while there are fewer than
 requested

---
 structrans/marttrans/lat_cor/main_hnf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structrans/marttrans/lat_cor/main_hnf.py b/structrans/marttrans/lat_cor/main_hnf.py
index 5a652b8..37342e5 100644
--- a/structrans/marttrans/lat_cor/main_hnf.py
+++ b/structrans/marttrans/lat_cor/main_hnf.py
@@ -226,7 +226,7 @@ def lat_cor(ibrava, pbrava, ibravm, pbravm, **kwargs):
                 add_sol(sols, s)
         else:
             for s in xrange(len(new)):
-                if new[s]['d'] <= sols[-1]['d']:
+                if len(sols) < nsol or new[s]['d'] <= sols[-1]['d']:
                     add_sol(sols, new[s])
                 else:
                     return
-- 
2.43.0


From b3008b2a5bbda194f34968249ac7bda726d47254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:58:43 +0000
Subject: [PATCH 16/23] fix: fall back to an integer, positive sublattice size

---
 structrans/marttrans/lat_cor/main_hnf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structrans/marttrans/lat_cor/main_hnf.py b/structrans/marttrans/lat_cor/main_hnf.py
index 37342e5..3e30646 100644
--- a/structrans/marttrans/lat_cor/main_hnf.py
+++ b/structrans/marttrans/lat_cor/main_hnf.py
@@ -136,7 +136,7 @@ def lat_cor(ibrava, pbrava, ibravm, pbravm, **kwargs):
         math.floor((1+vol_th)*r)+1,   # upper bound
         dtype='int')
     if len(vf) == 0:
-        vf = (np.round(r),)     
+        vf = (max(1, int(np.round(r))),)
 
     hnfs = [h for i in vf for h in HermiteNormalForms(i, dim)]
 
-- 
2.43.0


From 7dbe0565bfae2db1d647a9332ca56479f24287e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:05:30 +0000
Subject: [PATCH 17/23] fix: a resumed candidate enumeration visits all of the
 negative half

---
 structrans/marttrans/lat_cor/main_direct.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/structrans/marttrans/lat_cor/main_direct.py b/structrans/marttrans/lat_cor/main_direct.py
index 7c16a6c..7bf0a84 100644
--- a/structrans/marttrans/lat_cor/main_direct.py
+++ b/structrans/marttrans/lat_cor/main_direct.py
@@ -34,7 +34,8 @@ def vec_generator(maxlen, dim, x0=None):
                 v[1:] = subvec[:]
                 yield v
             if firstDigit > 0:
-                g = vec_generator(np.sqrt(max(0, maxlen**2 - firstDigit**2)), dim - 1, xs)
+                # only the positive half continues from x0, the negative half starts afresh
+                g = vec_generator(np.sqrt(max(0, maxlen**2 - firstDigit**2)), dim - 1)
                 for subvec in g:
                     v = [-firstDigit] * dim
                     v[1:] = subvec[:]
-- 
2.43.0


From 47bea5ce432628881907318c95ffdf49f953e593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:22 +0000
Subject: [PATCH 18/23] fix: the direct search ends normally when the last
 batch improves the solutions

---
 structrans/marttrans/lat_cor/main_direct.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/structrans/marttrans/lat_cor/main_direct.py b/structrans/marttrans/lat_cor/main_direct.py
index 7bf0a84..5d2aafc 100644
--- a/structrans/marttrans/lat_cor/main_direct.py
+++ b/structrans/marttrans/lat_cor/main_direct.py
@@ -222,7 +222,10 @@ def lat_cor(brava, pa, bravm, pm, **kwargs):
             updated, SOLS, EXT_SOLS, DMAX = update_sol(ary, SOLS, EXT_SOLS, DMAX)
             if updated:
                 maxRadius = rmax(DMAX)
-                checkpoint = np.array(next(g))
+                checkpoint = next(g, None)
+                if checkpoint is None:
+                    # the last batch held the last candidates
+                    updated = False
                 break
             else:
                 ary = np.array(list(itertools.islice(g, slice_sz)))
-- 
2.43.0


From da3b72fc5a3d13dc257816d17bb3a837cc0d55c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:22 +0000
Subject: [PATCH 19/23] fix: the direct search finds starting points when there
 are few next to L0

---
 structrans/marttrans/lat_cor/main_direct.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/structrans/marttrans/lat_cor/main_direct.py b/structrans/marttrans/lat_cor/main_direct.py
index 5d2aafc..493a403 100644
--- a/structrans/marttrans/lat_cor/main_direct.py
+++ b/structrans/marttrans/lat_cor/main_direct.py
@@ -196,8 +196,12 @@ def lat_cor(brava, pa, bravm, pm, **kwargs):
         shift = np.random.random_integers(-1, 1, (dim, dim))
         L = L0 + shift
         l = L.reshape(dim**2)
+        nfail = 0
         while tuple(l) in EXT_SOLS or not (1 - vol_th < la.det(L0 + shift) < 1 + vol_th):
-            shift = np.random.random_integers(-1, 1, (dim, dim))
+            # look further away when the 3^(dim*dim) neighbours of L0 do not have enough starting points
+            nfail += 1
+            width = 1 + nfail // 3**(dim**2)
+            shift = np.random.random_integers(-width, width, (dim, dim))
             L = L0 + shift
             l = L.reshape(dim**2)
         sol = {'l': l, 'd': dist(l)}
-- 
2.43.0


From 32affd744d6f406c4a582f11db7a1593eaccd9a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:34:42 +0000
Subject: [PATCH 20/23] fix: sublattice optimisations keep their state to
 themselves

---
 structrans/marttrans/lat_cor/lat_opt.py | 23 ++++++-----------------
 1 file changed, 6 insertions(+), 17 deletions(-)

diff --git a/structrans/marttrans/lat_cor/lat_opt.py b/structrans/marttrans/lat_cor/lat_opt.py
index 0f25afb..1d7096e 100644
--- a/structrans/marttrans/lat_cor/lat_opt.py
+++ b/structrans/marttrans/lat_cor/lat_opt.py
@@ -14,8 +14,8 @@ logger = logging.getLogger(__name__)
 def lat_opt_unpack(args):
     import multiprocessing
     logger = multiprocessing.get_logger()
-    args[2]['ihnf'] = args[3]
-    return args[3], lat_opt(args[0], args[1], **(args[2]))
+    # the options may be shared with other problems
+    return args[3], lat_opt(args[0], args[1], **dict(args[2], ihnf=args[3]))
 
 def lat_opt(E1, E2r, **kwargs):
     '''
@@ -52,7 +52,6 @@ def lat_opt(E1, E2r, **kwargs):
 
     # read kwargs
     nsol = kwargs['nsol'] if 'nsol' in kwargs else 1
-    global miniter, maxiter
     maxiter = kwargs['maxiter'] if 'maxiter' in kwargs else maxiter_by_nsol(nsol)
     miniter = kwargs['miniter'] if 'miniter' in kwargs else 3
     disp = kwargs['disp'] if 'disp' in kwargs else 1
@@ -72,7 +71,6 @@ def lat_opt(E1, E2r, **kwargs):
 
     # get dimension of the problem
     dim = len(E1)
-    SLNode.dim = dim
 
     # start timer
     t_start = timer()
@@ -116,15 +114,10 @@ def lat_opt(E1, E2r, **kwargs):
     ==============
     '''
     # initialization
-    global dopt, lopt, depth
     dopt = []
     lopt = []
     depth = 0
 
-    # DEBUG
-    global nlocmin
-    nlocmin = 0
-
     # # look for new minnode
     # minnode_changed = True
 
@@ -136,7 +129,6 @@ def lat_opt(E1, E2r, **kwargs):
             EXT_SOLS[c.tostring()] = True
 
     def truncate_sols():
-        global dopt, lopt
         # delete last one as long as it is not the same as the supposed tail
         while len(dopt) > nsol and dopt[-1] > dopt[nsol - 1]:
             dopt.pop(-1)
@@ -144,7 +136,6 @@ def lat_opt(E1, E2r, **kwargs):
 
     # update strategy
     def update_solutions(tree):
-        global dopt, lopt
         # otherwise, update existing solutions
         if len(dopt) > 0 and tree.elem.tostring() not in EXT_SOLS:
             for i, d in enumerate(dopt):
@@ -170,10 +161,8 @@ def lat_opt(E1, E2r, **kwargs):
     def bfs(source):
         """
         breath first search of solutions
-        :return: new starting point or None
+        :return: new starting point or None, and the depth reached
         """
-        global dopt, lopt, depth, miniter, maxiter
-
         EXPLORED = {}
         # bfs search from minnode
         EXPLORED[source.elem.tostring()] = True
@@ -208,7 +197,7 @@ def lat_opt(E1, E2r, **kwargs):
                             if potential_newstart.elem_dist < source.elem_dist:
                                 # a new starting point
                                 del EXPLORED
-                                return potential_newstart
+                                return potential_newstart, depth
 
                         # try to update the solution if the node element is closer than the last solution
                         if update_solutions(t):
@@ -221,7 +210,7 @@ def lat_opt(E1, E2r, **kwargs):
 
         # all done
         del EXPLORED
-        return None
+        return None, depth
 
     logger.debug("starting point: {:s}".format(str(lo.flatten())))
     new_start = SLNode(lo, SLNODE_CACHE)
@@ -233,7 +222,7 @@ def lat_opt(E1, E2r, **kwargs):
         # DEBUG
         nrestart += 1
         # BFS
-        new_start = bfs(minnode)
+        new_start, depth = bfs(minnode)
 
     DFS_CACHE = {'counter': 0}
     SLNODE_CACHE = {'dist': dist, 'lg1': LG1, 'lg2': SOLG2}
-- 
2.43.0


From a2d351099ee1c4149615771e6c8b7f5e0c325f9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:14 +0000
Subject: [PATCH 21/23] fix: each search logs to its own log file, and only
 while it runs

---
 structrans/marttrans/lat_cor/lat_opt.py     | 13 ++++----
 structrans/marttrans/lat_cor/main_direct.py | 15 ++++------
 structrans/marttrans/lat_cor/search_log.py  | 33 +++++++++++++++++++++
 3 files changed, 44 insertions(+), 17 deletions(-)
 create mode 100644 structrans/marttrans/lat_cor/search_log.py

diff --git a/structrans/marttrans/lat_cor/lat_opt.py b/structrans/marttrans/lat_cor/lat_opt.py
index 1d7096e..153a31b 100644
--- a/structrans/marttrans/lat_cor/lat_opt.py
+++ b/structrans/marttrans/lat_cor/lat_opt.py
@@ -6,6 +6,7 @@ from timeit import default_timer as timer
 from structrans.crystallography import Lattice, LLL
 from structrans.marttrans.lat_cor.dist import Eric_dist, strain_dist, Cauchy_dist
 from structrans.marttrans.lat_cor.dfs import dfs
+from structrans.marttrans.lat_cor.search_log import search_log
 from structrans.marttrans.lat_cor.slnode import SLNode
 
 # create logger
@@ -31,7 +32,11 @@ def lat_opt(E1, E2r, **kwargs):
      - maxiter: maximum iteration depth, default is 3
      - ihnf: number of the HNF
     '''
+    with search_log(logger, kwargs, mode='a', fmt=' %(message)s') as log:
+        return _lat_opt(log, E1, E2r, **kwargs)
 
+
+def _lat_opt(logger, E1, E2r, **kwargs):
     '''
     ===========
     Preparation
@@ -55,14 +60,6 @@ def lat_opt(E1, E2r, **kwargs):
     maxiter = kwargs['maxiter'] if 'maxiter' in kwargs else maxiter_by_nsol(nsol)
     miniter = kwargs['miniter'] if 'miniter' in kwargs else 3
     disp = kwargs['disp'] if 'disp' in kwargs else 1
-    if 'logfile' in kwargs:
-        logging.basicConfig(level=logging.INFO)
-        logger.propagate = False
-        logfile = kwargs['logfile']
-        fhdlr = logging.FileHandler(logfile, mode='a')
-        fhdlr.setLevel(kwargs['loglevel'] if 'loglevel' in kwargs else logging.INFO)
-        fhdlr.setFormatter(logging.Formatter(' %(message)s'))
-        logger.addHandler(fhdlr)
 
     if 'ihnf' in kwargs:
         logger.info("Processing the HNF No. {:d}".format(kwargs['ihnf'] + 1))
diff --git a/structrans/marttrans/lat_cor/main_direct.py b/structrans/marttrans/lat_cor/main_direct.py
index 493a403..77ce8a4 100644
--- a/structrans/marttrans/lat_cor/main_direct.py
+++ b/structrans/marttrans/lat_cor/main_direct.py
@@ -6,6 +6,7 @@ import itertools
 from structrans import BravaisLattice
 from structrans.marttrans.lat_cor.quartic_opt import quart_min
 from structrans.marttrans.lat_cor.dist import Cauchy_dist, Cauchy_dist_vec
+from structrans.marttrans.lat_cor.search_log import search_log
 
 # create logger
 logger = logging.getLogger(__name__)
@@ -60,7 +61,11 @@ def lat_cor(brava, pa, bravm, pm, **kwargs):
      - logfile: name of the logfile
      - loglevel: level of the logging
     """
-    
+    with search_log(logger, kwargs, mode='w', fmt='%(message)s') as log:
+        return _lat_cor(log, brava, pa, bravm, pm, **kwargs)
+
+
+def _lat_cor(logger, brava, pa, bravm, pm, **kwargs):
     ''' 
     ===========
     Preparation
@@ -89,14 +94,6 @@ def lat_cor(brava, pa, bravm, pm, **kwargs):
         elif lev >= 2:
             logger.debug(msg)
 
-    # setup logging
-    loglevel =readkw('loglevel', logging.INFO)
-    if 'logfile' in kwargs:
-        # FORMAT = '[%(levelname)s] %(asctime)-15s %(name)s: %(message)s'
-        FORMAT = '%(message)s'
-        logfile = readkw('logfile', 'untitled.log')
-        logging.basicConfig(filename=logfile, filemode='w', level=loglevel, format=FORMAT)
-
     ''' 
     ====================
     Preparation - finish
diff --git a/structrans/marttrans/lat_cor/search_log.py b/structrans/marttrans/lat_cor/search_log.py
new file mode 100644
index 0000000..a23f361
--- /dev/null
+++ b/structrans/marttrans/lat_cor/search_log.py
@@ -0,0 +1,33 @@
+from __future__ import absolute_import
+from structrans.general_imports import *
+
+from contextlib import contextmanager
+
+
+@contextmanager
+def search_log(logger, kwargs, mode, fmt):
+    """
+    the logger of a single search: a search that is given a log file logs to that file only,
+    and only for as long as it runs; all the others log to the logger of the module
+
+    :param logger: logger of the module
+    :param kwargs: keyword arguments of the search, "logfile" and "loglevel" are used
+    :param mode: mode to open the log file
+    :param fmt: format of the lines in the log file
+    """
+    if 'logfile' not in kwargs:
+        yield logger
+        return
+    loglevel = kwargs['loglevel'] if 'loglevel' in kwargs else logging.INFO
+    handler = logging.FileHandler(kwargs['logfile'], mode=mode)
+    handler.setFormatter(logging.Formatter(fmt))
+    filelogger = logging.Logger(logger.name, loglevel)
+    filelogger.addHandler(handler)
+    try:
+        yield filelogger
+    finally:
+        try:
+            handler.close()
+        except (IOError, OSError):
+            # as for any other error of the log device, the search goes on
+            pass
-- 
2.43.0


From 67adc3170ead8bcda8fa07435f1ae00a2992d3a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:37 +0000
Subject: [PATCH 22/23] fix: angles given in "deg" are degrees whichever string
 object names the unit

---
 structrans/util/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/structrans/util/utils.py b/structrans/util/utils.py
index c346d3f..d38aac2 100644
--- a/structrans/util/utils.py
+++ b/structrans/util/utils.py
@@ -59,7 +59,7 @@ def Euler(angles, order="ZXZ", unit="deg"):
         if a not in "XYZxyz":
             raise ValueError("unknown rotation axis {:s}", a)
         else:
-            angle = radians(angles[i]) if unit is "deg" else angles[i]
+            angle = radians(angles[i]) if unit == "deg" else angles[i]
             R = canonical_rotation[a.upper()](angle).dot(R)
     return R
 
@@ -71,7 +71,7 @@ def rotation(angle, axis, unit="deg"):
 
     a = axis if isinstance(axis, np.ndarray) else np.array(axis)
     z = a/la.norm(a)
-    t = radians(angle) if unit is "deg" else angle
+    t = radians(angle) if unit == "deg" else angle
     if z.dot(np.array([1, 0, 0])) < 0.9:
         # z is not parallel to e1
         z1 = np.cross(z, np.array([1, 0, 0]))
-- 
2.43.0


From f712d5c141bab164c2aa914b2f4b0d5d8160054f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:35:33 +0000
Subject: [PATCH 23/23] fix: the candidate enumeration keeps vectors that have
 exactly the maximum length

---
 structrans/marttrans/lat_cor/main_direct.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/structrans/marttrans/lat_cor/main_direct.py b/structrans/marttrans/lat_cor/main_direct.py
index 77ce8a4..bd7f8e4 100644
--- a/structrans/marttrans/lat_cor/main_direct.py
+++ b/structrans/marttrans/lat_cor/main_direct.py
@@ -16,11 +16,19 @@ def vec_generator(maxlen, dim, x0=None):
     """
     generate dim-dimensional vectors with maximum length maxlen
     """
+    # the remaining squared length stays exact, its square root would not
+    return _vec_generator(maxlen * abs(maxlen), dim, x0)
+
+
+def _vec_generator(maxsq, dim, x0=None):
+    """
+    generate dim-dimensional vectors with maximum squared length maxsq
+    """
     if x0 is None:
         x0 = [0] * dim
     if dim == 1:
         n = x0[0]
-        while n <= maxlen:
+        while n**2 <= maxsq:
             yield [n]
             if n > 0:
                 yield [-n]
@@ -28,15 +36,15 @@ def vec_generator(maxlen, dim, x0=None):
     else:
         firstDigit = x0[0]
         xs = x0[1:]
-        while firstDigit <= maxlen:
-            g = vec_generator(np.sqrt(max(0, maxlen**2 - firstDigit**2)), dim - 1, xs)
+        while firstDigit**2 <= maxsq:
+            g = _vec_generator(maxsq - firstDigit**2, dim - 1, xs)
             for subvec in g:
                 v = [firstDigit] * dim
                 v[1:] = subvec[:]
                 yield v
             if firstDigit > 0:
                 # only the positive half continues from x0, the negative half starts afresh
-                g = vec_generator(np.sqrt(max(0, maxlen**2 - firstDigit**2)), dim - 1)
+                g = _vec_generator(maxsq - firstDigit**2, dim - 1)
                 for subvec in g:
                     v = [-firstDigit] * dim
                     v[1:] = subvec[:]
-- 
2.43.0

