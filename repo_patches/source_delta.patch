From 2610392160ef4725886afef7b119b1ac8b85eb95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:37 +0000
Subject: [PATCH 01/29] fix: RK53 row sum of A does not match c

The third stage is at c=3/16, and its only coefficient was 3/13.
---
 qmat/qcoeff/butcher.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qmat/qcoeff/butcher.py b/qmat/qcoeff/butcher.py
index 9d46bdb..616e964 100644
--- a/qmat/qcoeff/butcher.py
+++ b/qmat/qcoeff/butcher.py
@@ -215,7 +215,7 @@ class RK53(RK):
     aliases = ["ERK53"]
     A = [[0, 0, 0, 0, 0],
          [1/7, 0, 0, 0, 0],
-         [0, 3/13, 0, 0, 0],
+         [0, 3/16, 0, 0, 0],
          [0, 0, 1/3, 0, 0],
          [0, 0, 0, 2/3, 0]]
     b = [1/4, 0, 0, 0, 3/4]
-- 
2.43.0


From c63ef3de32aee3fd2c9038593842bb699415a341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:37 +0000
Subject: [PATCH 02/29] fix: barycentric weights follow the order of the
 interpolation points

Without duplicates, the weights were those of the sorted points while the
matrices use the points as given (wrong e.g for EDIRK43().hCoeffs).
---
 qmat/lagrange.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qmat/lagrange.py b/qmat/lagrange.py
index ab84845..ffe3583 100644
--- a/qmat/lagrange.py
+++ b/qmat/lagrange.py
@@ -175,7 +175,7 @@ class LagrangeApproximation(object):
             self.points = self.uniquePoints = points
             self._handleDuplicates = self._passThrough
 
-        points = uniques  # require unique points for weight computation
+        points = self.uniquePoints  # require unique points for weight computation
 
         diffs = points[:, None] - points[None, :]
         diffs[np.diag_indices_from(diffs)] = 1
-- 
2.43.0


From bbb50af6baf636bc529d3ff0db63ee0fb803d7ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:37 +0000
Subject: [PATCH 03/29] fix: AUTO switches to STABLE weights also on overflow
 and underflow

Overflowed products gave zero weights (hence NaN or garbage matrices),
without the documented fallback being triggered.
---
 qmat/lagrange.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qmat/lagrange.py b/qmat/lagrange.py
index ffe3583..7cf5604 100644
--- a/qmat/lagrange.py
+++ b/qmat/lagrange.py
@@ -211,7 +211,7 @@ class LagrangeApproximation(object):
             return invProd
 
         if weightComputation == 'AUTO':
-            with np.errstate(divide='raise', over='ignore'):
+            with np.errstate(divide='raise', over='raise', under='raise'):
                 try:
                     invProd = analytic(diffs)
                 except FloatingPointError:
-- 
2.43.0


From 79e262abf03b4b7bb04e01179568a620a29c6ccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:37 +0000
Subject: [PATCH 04/29] fix: CHEBFUN weights for a single interpolation point

---
 qmat/lagrange.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qmat/lagrange.py b/qmat/lagrange.py
index 7cf5604..4a1a858 100644
--- a/qmat/lagrange.py
+++ b/qmat/lagrange.py
@@ -202,7 +202,8 @@ class LagrangeApproximation(object):
 
         def chebfun(diffs):
             # Implementation used in chebfun
-            diffs *= 4 / (points.max() - points.min())
+            if points.size > 1:
+                diffs *= 4 / (points.max() - points.min())
             sign = np.sign(diffs).prod(axis=1)
             vv = np.exp(np.log(np.abs(diffs)).sum(axis=1))
             invProd = (sign * vv)
-- 
2.43.0


From 34eba5f28047d60ddef308476cdf861230d1bf27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:37 +0000
Subject: [PATCH 05/29] fix: genQDeltaCoeffs extended the list given by the
 caller

---
 qmat/qdelta/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qmat/qdelta/__init__.py b/qmat/qdelta/__init__.py
index 6aebf15..61286be 100644
--- a/qmat/qdelta/__init__.py
+++ b/qmat/qdelta/__init__.py
@@ -274,7 +274,7 @@ def genQDeltaCoeffs(qDeltaType, nSweeps=None, form="Z2N", dTau=False, **params):
             # complete with additional sweeps
             assert nSweeps >= len(qDeltaType), \
                 f"nSweeps ({nSweeps}) is lower than list length for qDeltaType ({qDeltaType})"
-            qDeltaType += [qDeltaType[-1]]*(nSweeps-len(qDeltaType))
+            qDeltaType = qDeltaType + [qDeltaType[-1]]*(nSweeps-len(qDeltaType))
         else:
             raise ValueError(f"bad value of nSweep {nSweeps}")
     else:
-- 
2.43.0


From 415afb0a85b2069e76566f17dabf8f7017e6f452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:37 +0000
Subject: [PATCH 06/29] fix: QDeltaGenerator.genCoeffs returned its cached
 matrix without copy

Modifying the result in place corrupted all later results of the generator.
---
 qmat/qdelta/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qmat/qdelta/__init__.py b/qmat/qdelta/__init__.py
index 61286be..7114cf7 100644
--- a/qmat/qdelta/__init__.py
+++ b/qmat/qdelta/__init__.py
@@ -196,7 +196,7 @@ class QDeltaGenerator(object):
             If `dTau=True`, returns a tuple `(QDelta, dTau)`.
         """
         if form == "Z2N":
-            gen = lambda k, copy=False: self.getQDelta(k, copy)
+            gen = lambda k, copy=True: self.getQDelta(k, copy)
         elif form == "N2N":
             gen = lambda k, copy=None: self.getSDelta(k)
         else:
-- 
2.43.0


From d1ba81ab9e82536f12b01d6529c4314dd5d5610e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:37 +0000
Subject: [PATCH 07/29] fix: RK generators shared the class-level coefficients

Modifying in place e.g the coefficients given by genQCoeffs changed the
scheme for the whole process.
---
 qmat/qcoeff/butcher.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/qmat/qcoeff/butcher.py b/qmat/qcoeff/butcher.py
index 616e964..f806568 100644
--- a/qmat/qcoeff/butcher.py
+++ b/qmat/qcoeff/butcher.py
@@ -45,6 +45,12 @@ class RK(QGenerator):
     """:math:`b_2` coefficients for the embedded methods"""
 
     def __init__(self, padding=None):
+        # Instance copies, such that coefficients of the class are never modified
+        for name in ["A", "b", "c", "b2"]:
+            coeffs = getattr(self, name)
+            if coeffs is not None:
+                setattr(self, name, np.array(coeffs, dtype=float))
+
         if padding:
             assert padding in ["LEFT", "RIGHT", "BOTH"], "padding choices can only be LEFT, RIGHT or BOTH"
 
-- 
2.43.0


From 0dc2d76ff323c1bddd993027496cc268f344a75a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:37 +0000
Subject: [PATCH 08/29] fix: QGenerator.genCoeffs returned internal arrays of
 the generator

Modifying the result in place changed the generator's coefficients.
---
 qmat/qcoeff/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qmat/qcoeff/__init__.py b/qmat/qcoeff/__init__.py
index dc58760..2c66db2 100644
--- a/qmat/qcoeff/__init__.py
+++ b/qmat/qcoeff/__init__.py
@@ -117,7 +117,7 @@ class QGenerator(object):
             mat = self.S
         else:
             raise ValueError(f"form must be Z2N or N2N, not {form}")
-        out = [self.nodes, self.weights, mat]
+        out = [np.array(coeffs) for coeffs in (self.nodes, self.weights, mat)]
         if embedded:
             out[1] = np.vstack([out[1], self.weightsEmbedded])
         if hCoeffs:
-- 
2.43.0


From 08177408aa030d82f6bd44caa1ff2c909152f841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:37 +0000
Subject: [PATCH 09/29] fix: BEPAR and TRAPAR with tLeft different from zero

tLeft was removed from all entries of the matrix, and not halved for TRAPAR.
---
 qmat/qdelta/timestepping.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/qmat/qdelta/timestepping.py b/qmat/qdelta/timestepping.py
index 5b64d15..fa808d0 100644
--- a/qmat/qdelta/timestepping.py
+++ b/qmat/qdelta/timestepping.py
@@ -118,7 +118,7 @@ class BEPAR(TimeStepping):
     aliases = ["IEpar"]
 
     def computeQDelta(self, k=None):
-        return np.diag(self.nodes) - self.tLeft
+        return np.diag(self.nodes - self.tLeft)
 
 
 @register
@@ -126,11 +126,11 @@ class TRAPAR(TimeStepping):
     """Approximation based on parallel Trapezoidal Rule from zero to nodes"""
 
     def computeQDelta(self, k=None):
-        return np.diag(self.nodes/2) - self.tLeft
+        return np.diag(self.nodes - self.tLeft)/2.0
 
     @property
     def dTau(self)->np.ndarray:
-        return self.nodes/2.0 - self.tLeft
+        return (self.nodes - self.tLeft)/2.0
 
 
 @register
-- 
2.43.0


From 82cb4b9a2472199b02254bd1b69860fb33325f5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:37 +0000
Subject: [PATCH 10/29] fix: SOE ignored tLeft

---
 qmat/qdelta/timestepping.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qmat/qdelta/timestepping.py b/qmat/qdelta/timestepping.py
index fa808d0..9b51cc6 100644
--- a/qmat/qdelta/timestepping.py
+++ b/qmat/qdelta/timestepping.py
@@ -141,7 +141,7 @@ class SOE(TimeStepping):
 
     def computeQDelta(self, k=None):
         QDelta, M = self.zeros, self.nodes.size
-        times = [0] + self.nodes.tolist()
+        times = [self.tLeft] + self.nodes.tolist()
         alpha = [
             LagrangeApproximation(times[i:i+3]).getDerivativeMatrix()[1]
             for i in range(M-1)
-- 
2.43.0


From 6b41b83942eb01d799d29dd5933270441e5bf966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:37 +0000
Subject: [PATCH 11/29] fix: time-stepping QDelta from a QGenerator use its
 left boundary

---
 qmat/qdelta/timestepping.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qmat/qdelta/timestepping.py b/qmat/qdelta/timestepping.py
index 9b51cc6..bb12e3f 100644
--- a/qmat/qdelta/timestepping.py
+++ b/qmat/qdelta/timestepping.py
@@ -58,7 +58,7 @@ class TimeStepping(QDeltaGenerator):
         required to instantiate the :math:`Q_\Delta`-generator
         """
         assert isinstance(qGen, QGenerator), "qGen parameter must be a QGenerator object"
-        return {"nodes": qGen.nodes}
+        return {"nodes": qGen.nodes, "tLeft": getattr(qGen, "tLeft", 0)}
 
     @property
     def size(self)->int:
-- 
2.43.0


From 7649a6af7574bd75cad96dd6ee260a942c8ca4a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:37 +0000
Subject: [PATCH 12/29] fix: time-stepping QDelta truncated fractional tLeft
 with integer nodes

---
 qmat/qdelta/timestepping.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qmat/qdelta/timestepping.py b/qmat/qdelta/timestepping.py
index bb12e3f..c7f935e 100644
--- a/qmat/qdelta/timestepping.py
+++ b/qmat/qdelta/timestepping.py
@@ -37,7 +37,7 @@ class TimeStepping(QDeltaGenerator):
         Additional parameters given in a generic call, ignored by this class.
     """
     def __init__(self, nodes, tLeft=0, **kwargs):
-        nodes = np.asarray(nodes)
+        nodes = np.asarray(nodes, dtype=float)
         deltas = nodes.copy()
         deltas[0] = nodes[0] - tLeft
         deltas[1:] = np.ediff1d(nodes)
-- 
2.43.0


From 330f652172010eaaf9ece6cbc82a03484cb72e73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:37 +0000
Subject: [PATCH 13/29] fix: Collocation hCoeffs and rightIsNode use tRight for
 the right boundary

---
 qmat/qcoeff/collocation.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/qmat/qcoeff/collocation.py b/qmat/qcoeff/collocation.py
index ff7dcee..5909513 100644
--- a/qmat/qcoeff/collocation.py
+++ b/qmat/qcoeff/collocation.py
@@ -89,9 +89,12 @@ class Collocation(QGenerator):
                  for i in range(nodes.shape[0])]
         return self.approx.getIntegrationMatrix(pInts)
 
+    @property
+    def rightIsNode(self)->bool: return self._nodes[-1] == self.tRight
+
     @property
     def hCoeffs(self)->np.ndarray:
-        return self.approx.getInterpolationMatrix([1]).ravel()
+        return self.approx.getInterpolationMatrix([self.tRight]).ravel()
 
     @property
     def order(self)->int:
-- 
2.43.0


From 4314be22a3b5545a6aa63e6d9d8238e6493c291f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:37 +0000
Subject: [PATCH 14/29] fix: Collocation moved nodes close to the interval
 bounds onto the bounds

This happened also for quadrature types not including the bound, e.g for
many GAUSS nodes, or a small interval far from zero.
---
 qmat/qcoeff/collocation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qmat/qcoeff/collocation.py b/qmat/qcoeff/collocation.py
index 5909513..82345dd 100644
--- a/qmat/qcoeff/collocation.py
+++ b/qmat/qcoeff/collocation.py
@@ -56,8 +56,8 @@ class Collocation(QGenerator):
         nodes += tLeft
         self.tLeft, self.tRight = tLeft, tRight
         # Safety when bound should be included ...
-        if np.allclose(tLeft, nodes[0]): nodes[0] = tLeft
-        if np.allclose(tRight, nodes[-1]): nodes[-1] = tRight
+        if quadType in ["LOBATTO", "RADAU-LEFT"]: nodes[0] = tLeft
+        if quadType in ["LOBATTO", "RADAU-RIGHT"]: nodes[-1] = tRight
         self._nodes = nodes
 
         # Lagrange approximation based on nodes
-- 
2.43.0


From 479011c386da8c6de64bffd032bf681e1d64bc21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:37 +0000
Subject: [PATCH 15/29] fix: padding of RK schemes ignored the embedded weights

---
 qmat/qcoeff/butcher.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/qmat/qcoeff/butcher.py b/qmat/qcoeff/butcher.py
index f806568..dd27579 100644
--- a/qmat/qcoeff/butcher.py
+++ b/qmat/qcoeff/butcher.py
@@ -57,6 +57,8 @@ class RK(QGenerator):
             if padding in ["LEFT", "BOTH"]:
                 self.c = np.array([0] + self.c.tolist())
                 self.b = np.array([0] + self.b.tolist())
+                if self.b2 is not None:
+                    self.b2 = np.array([0] + self.b2.tolist())
 
                 newA = np.zeros((self.nNodes, self.nNodes))
                 newA[1:, 1:] = self.A
@@ -65,6 +67,8 @@ class RK(QGenerator):
             if padding in ["RIGHT", "BOTH"]:
                 self.c = np.array(self.c.tolist() + [1])
                 self.b = np.array(self.b.tolist() + [0])
+                if self.b2 is not None:
+                    self.b2 = np.array(self.b2.tolist() + [0])
 
                 newA = np.zeros((self.nNodes, self.nNodes))
                 newA[:-1, :-1] = self.A
-- 
2.43.0


From 903f366289cbc415500a6d4778b8d3c655506ecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:53 +0000
Subject: [PATCH 16/29] fix: LU QDelta lost the row permutation of the pivoted
 LU factorization

For some Q (e.g EQUID nodes), partial pivoting does permute rows, and the
U factor alone gives a divergent approximation in the stiff limit.
---
 qmat/qdelta/algebraic.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/qmat/qdelta/algebraic.py b/qmat/qdelta/algebraic.py
index a9fd10d..5e60bf8 100644
--- a/qmat/qdelta/algebraic.py
+++ b/qmat/qdelta/algebraic.py
@@ -46,8 +46,15 @@ class LU(QDeltaGenerator):
     """LU approximation from `[Weiser, 2014] <https://link.springer.com/article/10.1007/s10543-014-0540-y>`_"""
 
     def computeQDelta(self, k=None):
-        _, _, U = spl.lu(self.Q.T)
-        return U.T
+        # Elimination without pivoting : a row permutation would be lost in U
+        U = self.Q.T.copy()
+        for i in range(self.size-1):
+            if not np.any(U[i+1:, i]): continue
+            if U[i, i] == 0:  # no LU factorization without pivoting
+                _, _, U = spl.lu(self.Q.T)
+                break
+            U[i+1:] -= np.outer(U[i+1:, i]/U[i, i], U[i])
+        return np.tril(U.T)
 
 
 @register
-- 
2.43.0


From 2897fe12ab9a84175a3bc1a490d1690bee40495c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:53 +0000
Subject: [PATCH 17/29] fix: sparse interpolation reused the weights of a
 different stencil

np.allclose considers as equal any points smaller than 1e-8, and points with
relative difference up to 1e-5.
---
 qmat/lagrange.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qmat/lagrange.py b/qmat/lagrange.py
index 4a1a858..a65ff01 100644
--- a/qmat/lagrange.py
+++ b/qmat/lagrange.py
@@ -585,7 +585,7 @@ def getSparseInterpolationMatrix(inPoints, outPoints, order, gridPeriod=-1):
             closestPointsIdx = np.sort(np.argsort(np.abs(inPoints - outPoints[i]))[:order])
             closestPoints = inPoints[closestPointsIdx] - outPoints[i]
 
-        if lastClosestPoints is not None and len(closestPoints) == len(lastClosestPoints) and np.allclose(closestPoints, lastClosestPoints):
+        if lastClosestPoints is not None and len(closestPoints) == len(lastClosestPoints) and np.array_equal(closestPoints, lastClosestPoints):
             interpolationLine = lastInterpolationLine
         else:
             interpolator = LagrangeApproximation(points = closestPoints)
-- 
2.43.0


From ce58b1360a478412568b8406708d41d7923ed7ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:53 +0000
Subject: [PATCH 18/29] fix: failing class registration left some of its names
 registered

---
 qmat/utils/__init__.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/qmat/utils/__init__.py b/qmat/utils/__init__.py
index 5082079..76783ba 100644
--- a/qmat/utils/__init__.py
+++ b/qmat/utils/__init__.py
@@ -46,13 +46,15 @@ def storeAlias(cls, dico, alias):
 
 def storeClass(cls, dico):
     """Store a class into a dictionary"""
-    storeAlias(cls, dico, cls.__name__)
     aliases = getattr(cls, "aliases", None)
     if aliases:
         assert isinstance(aliases, list), \
             f"aliases must be a list in class {cls.__name__}"
-        for alias in aliases:
-            storeAlias(cls, dico, alias)
+    stored = {}  # check all names before modifying the dictionary
+    for alias in [cls.__name__] + (aliases or []):
+        assert alias not in dico, f"{alias} alias already registered in {dico}"
+        storeAlias(cls, stored, alias)
+    dico.update(stored)
 
 
 def importAll(localVars, __all__, __path__, __name__, __import__):
-- 
2.43.0


From b5a86748f22fb7cc973dcb1c2dcde00d66fd31a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:53 +0000
Subject: [PATCH 19/29] fix: registerRK kept in RK_SCHEMES schemes that were
 not registered

---
 qmat/qcoeff/butcher.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/qmat/qcoeff/butcher.py b/qmat/qcoeff/butcher.py
index dd27579..9246005 100644
--- a/qmat/qcoeff/butcher.py
+++ b/qmat/qcoeff/butcher.py
@@ -129,7 +129,13 @@ def checkAndStore(cls:RK) -> RK:
 
 def registerRK(cls:RK)->RK:
     """Class decorator registering a RK method in `qmat`"""
-    return register(checkAndStore(cls))
+    stored = dict(RK_SCHEMES)
+    try:
+        return register(checkAndStore(cls))
+    except Exception:  # don't keep a scheme that could not be registered
+        RK_SCHEMES.clear()
+        RK_SCHEMES.update(stored)
+        raise
 
 
 # -----------------------------------------------------------------------------
-- 
2.43.0


From 6c13d3976aab986636cbc67282d3e1e9e0a3273b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:30 +0000
Subject: [PATCH 20/29] fix: AUTO switches to STABLE weights also close to
 overflow and underflow

The weights did not overflow themselves, but their products with the inverse
differences did (e.g 32 LEGENDRE nodes on [0, 1e-9]), which gave NaN.
---
 qmat/lagrange.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/qmat/lagrange.py b/qmat/lagrange.py
index a65ff01..34db6ce 100644
--- a/qmat/lagrange.py
+++ b/qmat/lagrange.py
@@ -215,6 +215,8 @@ class LagrangeApproximation(object):
             with np.errstate(divide='raise', over='raise', under='raise'):
                 try:
                     invProd = analytic(diffs)
+                    if np.any(np.abs(np.log10(np.abs(invProd))) > 150):
+                        raise FloatingPointError("weights close to overflow or underflow")
                 except FloatingPointError:
                     invProd = logScale(diffs)
         elif weightComputation == 'FAST':
-- 
2.43.0


From fd93df0a1f3805e329f8cf045adc892982cbb6d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:55 +0000
Subject: [PATCH 21/29] fix: periodic sparse interpolation with points outside
 of [0, gridPeriod)

Only the direct neighbour images of the input points were considered, while the
output points were moved into [0, gridPeriod) : the stencil was then not around
the output point, up to extrapolating from several periods away.
---
 qmat/lagrange.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/qmat/lagrange.py b/qmat/lagrange.py
index 34db6ce..b0d5306 100644
--- a/qmat/lagrange.py
+++ b/qmat/lagrange.py
@@ -574,9 +574,9 @@ def getSparseInterpolationMatrix(inPoints, outPoints, order, gridPeriod=-1):
 
     for i in range(len(outPoints)):
         if gridPeriod > 0:
-            pathL = (inPoints - gridPeriod - outPoints[i] % gridPeriod)
-            pathR = (inPoints + gridPeriod - outPoints[i] % gridPeriod)
-            pathC = (inPoints - outPoints[i] % gridPeriod)
+            pathC = (inPoints % gridPeriod - outPoints[i] % gridPeriod)
+            pathL = pathC - gridPeriod
+            pathR = pathC + gridPeriod
             path = np.append(np.append(pathR, pathL), pathC)
             dist = np.abs(path)
             _closestPointsIdx = np.sort(np.argsort(dist)[:order])
-- 
2.43.0


From 2cdf17c73e2a058b2a13dd350d98f52c6da028ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:01 +0000
Subject: [PATCH 22/29] fix: MIN_SR_S solver does not touch the process wide
 warning filters

---
 qmat/qdelta/diag.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/qmat/qdelta/diag.py b/qmat/qdelta/diag.py
index 7355aed..51a9087 100644
--- a/qmat/qdelta/diag.py
+++ b/qmat/qdelta/diag.py
@@ -18,7 +18,6 @@ Examples
 >>> minSRFLEX = MIN_SR_FLEX(coll.nNodes, coll.nodeType, coll.quadType)
 >>> QD1, QD2, QD3 = minSRFLEX.genCoeffs(k=[1,2,3])
 """
-import warnings
 import numpy as np
 import scipy.optimize as spo
 
@@ -242,9 +241,10 @@ class MIN_SR_S(QDeltaGenerator):
             else:
                 coeffs0 = a * nodesM**b / M
 
-            with warnings.catch_warnings():
-                warnings.simplefilter("ignore")
-                coeffs = spo.fsolve(nilpotency, coeffs0, xtol=1e-15)
+            # full output => no convergence warning from scipy, without changing
+            # the warning filters, which are shared by all threads
+            with np.errstate(all="ignore"):
+                coeffs = spo.fsolve(nilpotency, coeffs0, xtol=1e-15, full_output=True)[0]
 
         # Handle first node equal to zero
         if quadType in ['LOBATTO', 'RADAU-LEFT']:
-- 
2.43.0


From e1238fa65b99b7d73a864ef1c015fad717de2529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:17 +0000
Subject: [PATCH 23/29] fix: getExtrapolationMatrix does not overflow with
 integer nodes or times

---
 qmat/utils/num.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/qmat/utils/num.py b/qmat/utils/num.py
index bbc6a94..df44905 100644
--- a/qmat/utils/num.py
+++ b/qmat/utils/num.py
@@ -107,7 +107,8 @@ def getExtrapolationMatrix(nodes, times, pOrder=None):
         Extrapolation matrix, that can be used on any node values.
     """
     if pOrder is None: pOrder = np.size(nodes)-1
-    X = np.vander(nodes, N=pOrder+1, increasing=True)
-    T = np.vander(times, N=pOrder+1, increasing=True)
+    # float conversion, as powers of integers could overflow
+    X = np.vander(np.asarray(nodes, dtype=float), N=pOrder+1, increasing=True)
+    T = np.vander(np.asarray(times, dtype=float), N=pOrder+1, increasing=True)
     P = T @ np.linalg.solve(X.T @ X, X.T)
     return P
\ No newline at end of file
-- 
2.43.0


From e6a2d9340bce456c3d6c958c1f9d7c2b9a9423a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:50:21 +0000
Subject: [PATCH 24/29] fix: getClasses does not fail when classes are
 registered from another thread

---
 qmat/utils/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qmat/utils/__init__.py b/qmat/utils/__init__.py
index 76783ba..a746e6b 100644
--- a/qmat/utils/__init__.py
+++ b/qmat/utils/__init__.py
@@ -72,7 +72,7 @@ def getClasses(dico, module=None):
         check = lambda cls: True
     else:
         check = lambda cls: cls.__module__.endswith("."+module)
-    for key, cls in dico.items():
+    for key, cls in list(dico.items()):  # copy, classes may be registered in the meantime
         if cls not in classes.values() and check(cls):
             classes[key] = cls
     return classes
-- 
2.43.0


From 424eae7667292f1fe25356e1bd3a74af717089ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:50 +0000
Subject: [PATCH 25/29] fix: getIntegrationMatrix does not overflow with
 integer intervals

---
 qmat/lagrange.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qmat/lagrange.py b/qmat/lagrange.py
index b0d5306..ce65eb4 100644
--- a/qmat/lagrange.py
+++ b/qmat/lagrange.py
@@ -404,7 +404,8 @@ class LagrangeApproximation(object):
             The integration matrix, with :math:`M` rows (number of intervals)
             and :math:`n` columns.
         """
-        intervals = np.array(intervals)
+        # float conversion, as differences and sums of integers could overflow
+        intervals = np.array(intervals, dtype=float)
         assert intervals.ndim == 2, "intervals is not a 2D array"
         assert intervals.shape[1] == 2, "intervals must contains only pairs"
 
-- 
2.43.0


From a75777dbd3b66b381633c8e7bac8a161193212ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:50 +0000
Subject: [PATCH 26/29] fix: getSparseInterpolationMatrix does not overflow
 with integer points

---
 qmat/lagrange.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/qmat/lagrange.py b/qmat/lagrange.py
index ce65eb4..af29300 100644
--- a/qmat/lagrange.py
+++ b/qmat/lagrange.py
@@ -567,6 +567,10 @@ def getSparseInterpolationMatrix(inPoints, outPoints, order, gridPeriod=-1):
     """
     import scipy.sparse as sp
 
+    # float conversion, as differences of (unsigned) integers could overflow
+    inPoints = np.asarray(inPoints, dtype=float)
+    outPoints = np.asarray(outPoints, dtype=float)
+
     assert order <= len(inPoints), f'Cannot interpolate {len(inPoints)} to order {order}! Please reduce order'
 
     A = sp.lil_matrix((len(outPoints), len(inPoints)))
-- 
2.43.0


From 57c2c4449f09e125f83c469a29475e64b382d7f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:50 +0000
Subject: [PATCH 27/29] fix: Collocation does not overflow with integer
 interval ends

---
 qmat/qcoeff/collocation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qmat/qcoeff/collocation.py b/qmat/qcoeff/collocation.py
index 82345dd..6571896 100644
--- a/qmat/qcoeff/collocation.py
+++ b/qmat/qcoeff/collocation.py
@@ -52,7 +52,7 @@ class Collocation(QGenerator):
         nodes += 1
         nodes /= 2
         # Scale to [tLeft, tRight]
-        nodes *= (tRight-tLeft)
+        nodes *= (tRight-float(tLeft))  # float, as a difference of integers could overflow
         nodes += tLeft
         self.tLeft, self.tRight = tLeft, tRight
         # Safety when bound should be included ...
-- 
2.43.0


From fa3439b7cbd436ea3abb8df44640682720831910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:04:27 +0000
Subject: [PATCH 28/29] fix: interpolation next to a point does not overflow in
 getInterpolationMatrix

---
 qmat/lagrange.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/qmat/lagrange.py b/qmat/lagrange.py
index af29300..f70fdcc 100644
--- a/qmat/lagrange.py
+++ b/qmat/lagrange.py
@@ -347,6 +347,9 @@ class LagrangeApproximation(object):
         # Replace iDiff by one on those lines to get a simple copy of the value
         iDiff[i, :] = concom[i, :]
 
+        # Scale each line, such that the product with weights does not overflow or underflow
+        iDiff /= np.abs(iDiff).max(axis=-1)[:, None]
+
         # Compute interpolation matrix using weights
         P = iDiff * self.weights
         P /= P.sum(axis=-1)[:, None]
-- 
2.43.0


From 26f7ed0c06e5131234992129b238f89ac92b4a9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:44:01 +0000
Subject: [PATCH 29/29] fix: solveDahlquistSDC gave wrong solutions when
 Q-QDelta overflowed with integer matrices

---
 qmat/utils/sdc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qmat/utils/sdc.py b/qmat/utils/sdc.py
index 2027b1a..f35a21d 100644
--- a/qmat/utils/sdc.py
+++ b/qmat/utils/sdc.py
@@ -42,7 +42,7 @@ def solveDahlquistSDC(lam, u0, tEnd, nSteps:int, nSweeps:int, Q:np.ndarray, QDel
     dt = tEnd/nSteps
     times = np.linspace(0, tEnd, nSteps+1)
 
-    QDelta = np.asarray(QDelta)
+    QDelta = np.asarray(QDelta) + 0.  # not integer, as Q-QDelta could overflow
     if QDelta.ndim == 3:
         assert QDelta.shape == (nSweeps, nNodes, nNodes), "inconsistent shape for QDelta"
     else:
-- 
2.43.0

