From cbf6e78af233af6256873638749335c561c4f880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:14 +0000
Subject: [PATCH 01/44] fix: divide counts by row totals so that staying
 probabilities of 1 are exact

---
 giddy/markov.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/giddy/markov.py b/giddy/markov.py
index 858e550..c35cb18 100644
--- a/giddy/markov.py
+++ b/giddy/markov.py
@@ -228,7 +228,7 @@ class Markov:
                     transitions[row, col] += sum(ending == j)
         self.transitions = transitions
         row_sum = transitions.sum(axis=1)
-        self.p = np.dot(np.diag(1 / (row_sum + (row_sum == 0))), transitions)
+        self.p = transitions / (row_sum + (row_sum == 0))[:, np.newaxis]
 
         if fill_empty_classes:
             self.p = fill_empty_diagonals(self.p)
@@ -977,8 +977,7 @@ class Spatial_Markov:
         for i, mat in enumerate(T):
             row_sum = mat.sum(axis=1)
             row_sum = row_sum + (row_sum == 0)
-            p_i = np.array(np.diag(1.0 / row_sum)).dot(np.array(mat))
-            P[i] = p_i
+            P[i] = mat / row_sum[:, np.newaxis]
 
         if fill_empty_classes:
             P = fill_empty_diagonals(P)
-- 
2.43.0


From bbe05d0e1f547dcb85fcc26e3d3a6bcc0294231a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:14 +0000
Subject: [PATCH 02/44] fix: mfpt of reducible chains follows from reachability

Several closed classes with more than one state made the linear system
singular: mfpt raised LinAlgError or reported finite values for unreachable
states.
---
 giddy/ergodic.py | 47 ++++++++++++++++-------------------------------
 1 file changed, 16 insertions(+), 31 deletions(-)

diff --git a/giddy/ergodic.py b/giddy/ergodic.py
index b92ad27..3d70946 100644
--- a/giddy/ergodic.py
+++ b/giddy/ergodic.py
@@ -323,37 +323,22 @@ rows to be 1 to make sure the matrix is stochastic.
         k = P.shape[0]
         mfpt_all = np.zeros((k, k))
         for desti in range(k):
-            b = np.ones(k - 1)
-            p_sub = np.delete(np.delete(P, desti, 0), desti, 1)
-            p_calc = np.eye(k - 1) - p_sub
-            m = np.full(k - 1, np.inf)
-            row0 = (p_calc != 0).sum(axis=1)
-            none0 = np.arange(k - 1)
-            try:
-                m[none0] = np.linalg.solve(p_calc, b)
-            except np.linalg.LinAlgError as err:
-                if "Singular matrix" in str(err) and (row0 == 0).sum() > 0:
-                    index0 = set(np.argwhere(row0 == 0).flatten())
-                    x = (p_calc[:, list(index0)] != 0).sum(axis=1)
-                    setx = set(np.argwhere(x).flatten())
-                    while not setx.issubset(index0):
-                        index0 = index0.union(setx)
-                        x = (p_calc[:, list(index0)] != 0).sum(axis=1)
-                        setx = set(np.argwhere(x).flatten())
-                    none0 = np.asarray(list(set(none0).difference(index0)))
-                    if len(none0) >= 1:
-                        p_calc = p_calc[none0, :][:, none0]
-                        b = b[none0]
-                        m[none0] = np.linalg.solve(p_calc, b)
-            recc = (
-                np.nan_to_num(
-                    (np.delete(P, desti, 1)[desti] * m), 0, posinf=np.inf
-                ).sum()
-                + 1
-            )
-            mfpt_all[:, desti] = np.insert(m, desti, recc)
-            mfpt_all = np.where(mfpt_all < -1e16, np.inf, mfpt_all)
-            mfpt_all = np.where(mfpt_all > 1e16, np.inf, mfpt_all)
+            # reach[i, j]: the chain stopped in desti can get from i to j
+            reach = P > 0
+            reach[desti] = False
+            reach = reach | np.eye(k, dtype=bool)
+            for _ in range(int(k).bit_length()):
+                reach = reach @ reach
+            # only states that cannot get lost on the way have a finite value
+            none0 = ~(reach @ ~reach[:, desti])
+            none0[desti] = False
+            p_calc = np.eye(none0.sum()) - P[none0][:, none0]
+            m = np.full(k, np.inf)
+            m[none0] = np.linalg.solve(p_calc, np.ones(none0.sum()))
+            nexts = P[desti] > 0
+            nexts[desti] = False
+            m[desti] = (P[desti, nexts] * m[nexts]).sum() + 1
+            mfpt_all[:, desti] = m
     return mfpt_all
 
 
-- 
2.43.0


From e72ba1a293da7bab107dc9d35782d8bc75321d29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:14 +0000
Subject: [PATCH 03/44] fix: mfpt of integer transition matrices

---
 giddy/ergodic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/giddy/ergodic.py b/giddy/ergodic.py
index 3d70946..98a7b72 100644
--- a/giddy/ergodic.py
+++ b/giddy/ergodic.py
@@ -204,7 +204,7 @@ def _mfpt_ergodic(P):
 
     P = np.asarray(P)
     k = P.shape[0]
-    A = np.zeros_like(P)
+    A = np.zeros(P.shape)
     ss = _steady_state_ergodic(P)
     for j in range(k):
         A[:, j] = ss
-- 
2.43.0


From 9941696b220128a5154a2fd80c92a0c78d474a7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:14 +0000
Subject: [PATCH 04/44] fix: steady_state is one vector whenever there is one
 recurrent class

---
 giddy/ergodic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/giddy/ergodic.py b/giddy/ergodic.py
index 98a7b72..7b97b27 100644
--- a/giddy/ergodic.py
+++ b/giddy/ergodic.py
@@ -145,7 +145,7 @@ rows to be 1 to make sure the matrix is stochastic.
                 "sure the matrix is stochastic." % rows0
             )
     mc = qe.MarkovChain(P)
-    num_classes = mc.num_communication_classes
+    num_classes = mc.num_recurrent_classes
     if num_classes == 1:
         return mc.stationary_distributions[0]
     else:
-- 
2.43.0


From 7b2d73c8b8f77e127bb818aaea68cfe91270fdd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:14 +0000
Subject: [PATCH 05/44] fix: kullback uses the row totals of each stratum

---
 giddy/markov.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/giddy/markov.py b/giddy/markov.py
index c35cb18..f3ada00 100644
--- a/giddy/markov.py
+++ b/giddy/markov.py
@@ -1627,7 +1627,7 @@ def kullback(F):
     FdJd1 = FdJd + (FdJd == 0)
     T3 = 2 * (FdJd * np.log(FdJd1)).sum()
 
-    FIJd = F[:, :].sum(axis=1)
+    FIJd = F[:, :].sum(axis=2)
     FIJd1 = FIJd + (FIJd == 0)
     T4 = 2 * (FIJd * np.log(FIJd1)).sum()
 
-- 
2.43.0


From cfb726bf2eb0a8bf940703dc1c87c86c42271b43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:14 +0000
Subject: [PATCH 06/44] fix: homogeneity of integer transition counts

---
 giddy/markov.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/giddy/markov.py b/giddy/markov.py
index f3ada00..1ac452c 100644
--- a/giddy/markov.py
+++ b/giddy/markov.py
@@ -1778,7 +1778,7 @@ class Homogeneity_Results:
 
     def _homogeneity(self, transition_matrices):
         # form null transition probability matrix
-        M = np.array(transition_matrices)
+        M = np.array(transition_matrices, dtype=float)
         m, r, k = M.shape
         self.k = k
         B = np.zeros((r, m))
-- 
2.43.0


From 21b0f378f393a6017f26577eed11e18c60f4954a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:14 +0000
Subject: [PATCH 07/44] fix: classes without transitions add no degrees of
 freedom

---
 giddy/markov.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/giddy/markov.py b/giddy/markov.py
index 1ac452c..a3dbb34 100644
--- a/giddy/markov.py
+++ b/giddy/markov.py
@@ -1821,7 +1821,7 @@ class Homogeneity_Results:
         # b_i is the number of regimes that have non-zero observations in row i
         # A_i is the number of non-zero elements in row i of the aggregated
         # transition matrix
-        self.dof = int(((b_i - 1) * (A_i - 1)).sum())
+        self.dof = int(((b_i - 1) * (A_i - 1))[b_i > 0].sum())
         self.Q = Q
         self.Q_p_value = 1 - stats.chi2.cdf(self.Q, self.dof)
         self.LR = LR * 2.0
-- 
2.43.0


From 2d31c1ece5281186dd4795778966f3b08ba4c70d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:14 +0000
Subject: [PATCH 08/44] fix: Spatial_Markov permutations sum over all lag
 classes

---
 giddy/markov.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/giddy/markov.py b/giddy/markov.py
index a3dbb34..01062fe 100644
--- a/giddy/markov.py
+++ b/giddy/markov.py
@@ -842,7 +842,7 @@ class Spatial_Markov:
             x2_realizations = np.zeros((permutations, 1))
             for perm in range(permutations):
                 T, P = self._calc(nrp(y), w)
-                x2 = [chi2(T[i], self.transitions)[0] for i in range(self.k)]
+                x2 = [chi2(T[i], self.transitions)[0] for i in range(self.m)]
                 x2s = sum(x2)
                 x2_realizations[perm] = x2s
                 if x2s >= self.x2:
-- 
2.43.0


From 707ae8ed644659dc186aa7821637cdb14732c148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:14 +0000
Subject: [PATCH 09/44] fix: Spatial_Markov.summary names all lag classes

---
 giddy/markov.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/giddy/markov.py b/giddy/markov.py
index 01062fe..7bf041a 100644
--- a/giddy/markov.py
+++ b/giddy/markov.py
@@ -1042,7 +1042,7 @@ class Spatial_Markov:
         """
 
         class_names = ["C%d" % i for i in range(self.k)]
-        regime_names = ["LAG%d" % i for i in range(self.k)]
+        regime_names = ["LAG%d" % i for i in range(self.m)]
         ht = homogeneity(self.T, class_names=class_names, regime_names=regime_names)
         title = "Spatial Markov Test"
         if self.variable_name:
-- 
2.43.0


From 83afdb24eec8ef5bce8dd1550bf43127302a6681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:11 +0000
Subject: [PATCH 10/44] fix: permutations leave the observed lag classes of
 Spatial_Markov in place

---
 giddy/markov.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/giddy/markov.py b/giddy/markov.py
index 7bf041a..e461e5e 100644
--- a/giddy/markov.py
+++ b/giddy/markov.py
@@ -840,6 +840,7 @@ class Spatial_Markov:
             nrp = np.random.permutation
             counter = 0
             x2_realizations = np.zeros((permutations, 1))
+            lclass_ids = self.lclass_ids
             for perm in range(permutations):
                 T, P = self._calc(nrp(y), w)
                 x2 = [chi2(T[i], self.transitions)[0] for i in range(self.m)]
@@ -847,6 +848,7 @@ class Spatial_Markov:
                 x2_realizations[perm] = x2s
                 if x2s >= self.x2:
                     counter += 1
+            self.lclass_ids = lclass_ids
             self.x2_rpvalue = (counter + 1.0) / (permutations + 1.0)
             self.x2_realizations = x2_realizations
 
-- 
2.43.0


From 15d14425d322af0cb2714b51d843f5cb8aee63e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:11 +0000
Subject: [PATCH 11/44] fix: discrete Spatial_Markov permutations use the
 permuted categories

The categorical lag was always taken from the observed class ids, so every
realization repeated the observed statistic.
---
 giddy/markov.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/giddy/markov.py b/giddy/markov.py
index e461e5e..b9650b2 100644
--- a/giddy/markov.py
+++ b/giddy/markov.py
@@ -958,7 +958,8 @@ class Spatial_Markov:
 
         """
         if self.discrete:
-            self.lclass_ids = weights.lag_categorical(w, self.class_ids, ties="tryself")
+            class_ids = np.searchsorted(self.classes, y)
+            self.lclass_ids = weights.lag_categorical(w, class_ids, ties="tryself")
         else:
             ly = weights.lag_spatial(w, y)
             self.lclass_ids, self.lag_cutoffs, self.m = self._maybe_classify(
-- 
2.43.0


From b54fee70b7a3048914d9e8f772fb4dd68f93b928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:11 +0000
Subject: [PATCH 12/44] fix: Spatial_Markov overall transitions cover value
 classes that stay empty

With cutoffs (or per-period quantiles) that leave a class empty the overall
matrix was smaller than the conditional ones and every comparison failed.
---
 giddy/markov.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/giddy/markov.py b/giddy/markov.py
index b9650b2..765601b 100644
--- a/giddy/markov.py
+++ b/giddy/markov.py
@@ -830,7 +830,10 @@ class Spatial_Markov:
             self.classes = np.arange(self.k)
 
         classic = Markov(
-            self.class_ids, fill_empty_classes=fill_empty_classes, summary=False
+            self.class_ids,
+            classes=np.arange(self.k),
+            fill_empty_classes=fill_empty_classes,
+            summary=False,
         )
         self.p = classic.p
         self.transitions = classic.transitions
-- 
2.43.0


From 11d965302f143d7ab076e866ef7453550bb34b89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:11 +0000
Subject: [PATCH 13/44] fix: Spatial_Markov.S with different numbers of steady
 states per lag class

---
 giddy/markov.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/giddy/markov.py b/giddy/markov.py
index 765601b..85da800 100644
--- a/giddy/markov.py
+++ b/giddy/markov.py
@@ -867,8 +867,12 @@ class Spatial_Markov:
             _S = []
             for p in self.P:
                 _S.append(steady_state(p))
-            # if np.array(_S).dtype is np.dtype('O'):
-            self._S = np.asarray(_S, dtype=object)
+            if len({ss.shape for ss in _S}) == 1:
+                self._S = np.asarray(_S, dtype=object)
+            else:
+                self._S = np.empty(len(_S), dtype=object)
+                for i, ss in enumerate(_S):
+                    self._S[i] = ss
         return self._S
 
     @property
-- 
2.43.0


From 9debcaa25e22eece52a88dec15be54c0cf35a6b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:46 +0000
Subject: [PATCH 14/44] fix: LISA_Markov expected transitions follow the GeoDa
 quadrant labels

---
 giddy/markov.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/giddy/markov.py b/giddy/markov.py
index 85da800..191616d 100644
--- a/giddy/markov.py
+++ b/giddy/markov.py
@@ -1429,6 +1429,8 @@ class LISA_Markov(Markov):
         markov_y = Markov(rc, summary=False)
         markov_ylag = Markov(rlagc, summary=False)
         A = np.array([[1, 0, 0, 0], [0, 0, 1, 0], [0, 0, 0, 1], [0, 1, 0, 0]])
+        if geoda_quads:  # GeoDa exchanges the labels of quadrants 2 and 3
+            A = A[[0, 2, 1, 3]]
 
         kp = A.dot(np.kron(markov_y.p, markov_ylag.p)).dot(A.T)
         trans = self.transitions.sum(axis=1)
-- 
2.43.0


From 87014bcec4b9a05b5aa87c871f69cd1d5544c112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:46 +0000
Subject: [PATCH 15/44] fix: LISA_Markov of panels where a marginal state never
 occurs

---
 giddy/markov.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/giddy/markov.py b/giddy/markov.py
index 191616d..59e84e2 100644
--- a/giddy/markov.py
+++ b/giddy/markov.py
@@ -1426,8 +1426,9 @@ class LISA_Markov(Markov):
         rlag = ylag / ybar
         rc = r < 1.0
         rlagc = rlag < 1.0
-        markov_y = Markov(rc, summary=False)
-        markov_ylag = Markov(rlagc, summary=False)
+        states = np.array([False, True])  # no guarantee both states are visited
+        markov_y = Markov(rc, states, summary=False)
+        markov_ylag = Markov(rlagc, states, summary=False)
         A = np.array([[1, 0, 0, 0], [0, 0, 1, 0], [0, 0, 0, 1], [0, 1, 0, 0]])
         if geoda_quads:  # GeoDa exchanges the labels of quadrants 2 and 3
             A = A[[0, 2, 1, 3]]
-- 
2.43.0


From 7ea7502427f4a7d0c9ad091f5e6a9c13450cfda2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:46 +0000
Subject: [PATCH 16/44] fix: LISA_Markov leaves the transformation of the
 weights as it was

---
 giddy/markov.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/giddy/markov.py b/giddy/markov.py
index 59e84e2..4f324c3 100644
--- a/giddy/markov.py
+++ b/giddy/markov.py
@@ -1385,6 +1385,7 @@ class LISA_Markov(Markov):
         self, y, w, permutations=0, significance_level=0.05, geoda_quads=False
     ):
         y = y.transpose()
+        transform = w.transform  # Moran_Local row-standardizes w in place
         pml = Moran_Local
         gq = geoda_quads
         ml = [pml(yi, w, permutations=permutations, geoda_quads=gq) for yi in y]
@@ -1423,6 +1424,7 @@ class LISA_Markov(Markov):
         ybar = y.mean(axis=0)
         r = y / ybar
         ylag = np.array([weights.lag_spatial(w, yt) for yt in y])
+        w.transform = transform
         rlag = ylag / ybar
         rc = r < 1.0
         rlagc = rlag < 1.0
-- 
2.43.0


From b18b7ffe2137274178ec444403aeba375d89a506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:46 +0000
Subject: [PATCH 17/44] fix: LISA_Markov.spillover reports the clusters of the
 last period

---
 giddy/markov.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/giddy/markov.py b/giddy/markov.py
index 4f324c3..012aba7 100644
--- a/giddy/markov.py
+++ b/giddy/markov.py
@@ -1558,6 +1558,10 @@ class LISA_Markov(Markov):
                     for i in component:
                         ii = self.w.id2i[i]
                         components[ii, t] = c + 1
+                if t == k - 2:  # the last period is never a starting period
+                    for c, component in enumerate(components2):
+                        for i in component:
+                            components[self.w.id2i[i], k - 1] = c + 1
             results = {}
             results["components"] = components
             results["spill_over"] = spill_over
-- 
2.43.0


From 4a01d60f46fa8737b7646e819a0766ccf1772846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:46 +0000
Subject: [PATCH 18/44] fix: connected components of any size

The recursive search exceeded the recursion limit for components of about a
thousand nodes.
---
 giddy/components.py | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/giddy/components.py b/giddy/components.py
index 065f45f..b0d4609 100644
--- a/giddy/components.py
+++ b/giddy/components.py
@@ -147,16 +147,14 @@ class Graph:
             return components
 
     def dfs(self, v, visited, threshold, op=lt, first=None):
-        aux = [v]
+        aux = []
         visited.add(v)
-        if first is None:
-            first = v
-        for i in (
-            n
-            for n, w in list(self.edges.get(v, {}).items())
-            if op(w, threshold) and n not in visited
-        ):
-            x, y = self.dfs(i, visited, threshold, op, first)
-            aux.extend(x)
-            visited = visited.union(y)
+        stack = [v]
+        while stack:
+            node = stack.pop()
+            aux.append(node)
+            for n, w in self.edges.get(node, {}).items():
+                if op(w, threshold) and n not in visited:
+                    visited.add(n)
+                    stack.append(n)
         return aux, visited
-- 
2.43.0


From a1f33893f2bed34653795ee3a8fc28ee405f6f7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:46 +0000
Subject: [PATCH 19/44] fix: rank concordance by comparison, not by products of
 differences

Products of differences overflow for narrow integers, wrap around for unsigned
ones and underflow for tiny floats, which changed signs or created ties.
---
 giddy/rank.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/giddy/rank.py b/giddy/rank.py
index 2141baf..3dd9445 100644
--- a/giddy/rank.py
+++ b/giddy/rank.py
@@ -386,8 +386,8 @@ class SpatialTau:
                     ijs[(i, j)] = (i, j)
                     xj = x[j]
                     yj = y[j]
-                    dx = xi - xj
-                    dy = yi - yj
+                    dx = int(xi > xj) - int(xi < xj)
+                    dy = int(yi > yj) - int(yi < yj)
                     dxdy = dx * dy
                     if dxdy != 0:
                         n1 += 1
@@ -483,8 +483,11 @@ class Tau_Local:
         xx = x.reshape(self.n, 1)
         yy = y.reshape(self.n, 1)
 
-        C = (xx - xx.T) * (yy - yy.T)
-        self.S = -1 * (C < 0) + 1 * (C > 0)
+        # compare rather than subtract: differences and products of them can
+        # overflow, wrap around or underflow
+        sx = 1 * (xx > xx.T) - 1 * (xx < xx.T)
+        sy = 1 * (yy > yy.T) - 1 * (yy < yy.T)
+        self.S = sx * sy
 
         self.tau = self.S.sum() * 1.0 / (self.n * (self.n - 1))
         si = self.S.sum(axis=1)
@@ -630,8 +633,8 @@ class Tau_Local_Neighbor:
             self.tau_ln_pvalues = tau_ln_pvalues
 
     def _calc_r(self, xi, yi, xj, yj, w):
-        dx = xi - xj
-        dy = yi - yj
+        dx = int(xi > xj) - int(xi < xj)
+        dy = int(yi > yj) - int(yi < yj)
         dxdy = dx * dy
         if dxdy != 0:
             if dxdy > 0.0:
-- 
2.43.0


From 014125a2235278676787ad3ba4933e8919667c53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:46 +0000
Subject: [PATCH 20/44] fix: Tau_Local_Neighbor permutations keep the type of x

---
 giddy/rank.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/giddy/rank.py b/giddy/rank.py
index 3dd9445..5df9a43 100644
--- a/giddy/rank.py
+++ b/giddy/rank.py
@@ -614,7 +614,7 @@ class Tau_Local_Neighbor:
             for i in range(self.n):
                 obs_i = self.tau_ln[i]  # observed value i LIMA statistic
                 yr = np.zeros_like(y)
-                xr = np.zeros_like(y)
+                xr = np.zeros_like(x)
                 rids = np.arange(self.n)
                 rids = np.delete(rids, i)
                 for j in range(permutations):
-- 
2.43.0


From 5f0d622e38d2cece80d84a3c2c60528dd6834787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:46 +0000
Subject: [PATCH 21/44] fix: SpatialTau permutations accept lists

---
 giddy/rank.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/giddy/rank.py b/giddy/rank.py
index 5df9a43..dbbc065 100644
--- a/giddy/rank.py
+++ b/giddy/rank.py
@@ -351,6 +351,8 @@ class SpatialTau:
     """
 
     def __init__(self, x, y, w, permutations=0):
+        x = np.asarray(x)
+        y = np.asarray(y)
         w.transform = "b"
         self.n = len(x)
         res = Tau(x, y)
-- 
2.43.0


From 4905e734a516651ee79f2c1680dac97649ddff0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:15 +0000
Subject: [PATCH 22/44] fix: rank statistics find units by their position, not
 by their id

SpatialTau, Tau_Local_Neighbor and Tau_Local_Neighborhood indexed the data by
the ids of the weights: string ids failed, reordered ones took other units'
values.
---
 giddy/rank.py | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/giddy/rank.py b/giddy/rank.py
index dbbc065..706d5d9 100644
--- a/giddy/rank.py
+++ b/giddy/rank.py
@@ -380,10 +380,11 @@ class SpatialTau:
     def _calc(self, x, y, w):
         n1 = n2 = iS = gc = 0
         ijs = {}
-        for i in w.id_order:
+        for i, id_i in enumerate(w.id_order):
             xi = x[i]
             yi = y[i]
-            for j in w.neighbors[i]:
+            for id_j in w.neighbors[id_i]:
+                j = w.id2i[id_j]
                 if i < j:
                     ijs[(i, j)] = (i, j)
                     xj = x[j]
@@ -649,19 +650,20 @@ class Tau_Local_Neighbor:
     def _calc(self, x, y, w, i=None):
         if i is not None:
             iS_local = 0
-            for j in w.neighbors[i]:
+            id_i = w.id_order[i]
+            for j in (w.id2i[id_j] for id_j in w.neighbors[id_i]):
                 iS_local += self._calc_r(x[i], y[i], x[j], y[j], w)
-            tau_ln = iS_local * 1.0 / w.cardinalities[i]
+            tau_ln = iS_local * 1.0 / w.cardinalities[id_i]
             return tau_ln
         else:
             tau_ln = np.zeros(self.n)
             tau_ln_weights = np.zeros(self.n)
-            for i in w.id_order:
+            for i, id_i in enumerate(w.id_order):
                 iS_local = 0
-                for j in w.neighbors[i]:
+                for j in (w.id2i[id_j] for id_j in w.neighbors[id_i]):
                     iS_local += self._calc_r(x[i], y[i], x[j], y[j], w)
-                tau_ln[i] = iS_local * 1.0 / w.cardinalities[i]
-                tau_ln_weights[i] = w.cardinalities[i] * 1.0 / w.s0
+                tau_ln[i] = iS_local * 1.0 / w.cardinalities[id_i]
+                tau_ln_weights[i] = w.cardinalities[id_i] * 1.0 / w.s0
             return tau_ln, tau_ln_weights
 
 
@@ -762,9 +764,9 @@ class Tau_Local_Neighborhood:
 
         w.transform = "b"
         tau_lnhood = np.zeros(self.n)
-        for i in range(self.n):
+        for i, id_i in enumerate(w.id_order):
             neighbors_i = [i]
-            neighbors_i.extend(w.neighbors[i])
+            neighbors_i.extend(w.id2i[id_j] for id_j in w.neighbors[id_i])
             n_i = len(neighbors_i)
             sh_i = self.S[neighbors_i, :][:, neighbors_i]
             # Neighborhood set LIMA
@@ -778,7 +780,7 @@ class Tau_Local_Neighborhood:
         if permutations > 0:
             tau_lnhood_sim = np.zeros((self.n, permutations))
             tau_lnhood_pvalues = np.zeros(self.n)
-            for i in range(self.n):
+            for i, id_i in enumerate(w.id_order):
                 obs_i = self.tau_lnhood[i]
                 rids = list(range(self.n))
                 rids.remove(i)
@@ -786,7 +788,7 @@ class Tau_Local_Neighborhood:
                 for j in range(permutations):
                     np.random.shuffle(rids)
                     neighbors_i = [i]
-                    neighbors_i.extend(rids[: len(w.neighbors[i])])
+                    neighbors_i.extend(rids[: len(w.neighbors[id_i])])
                     n_i = len(neighbors_i)
                     neighbors_i_second = neighbors_i
                     sh_i = self.S[neighbors_i, :][:, neighbors_i_second]
-- 
2.43.0


From 43bb43024e56c86e14971b0ac0439636e5eb0c81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:15 +0000
Subject: [PATCH 23/44] fix: rank statistics leave the transformation of the
 weights as it was

---
 giddy/rank.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/giddy/rank.py b/giddy/rank.py
index 706d5d9..e1e5ae9 100644
--- a/giddy/rank.py
+++ b/giddy/rank.py
@@ -353,6 +353,7 @@ class SpatialTau:
     def __init__(self, x, y, w, permutations=0):
         x = np.asarray(x)
         y = np.asarray(y)
+        transform = w.transform
         w.transform = "b"
         self.n = len(x)
         res = Tau(x, y)
@@ -376,6 +377,7 @@ class SpatialTau:
                 taus[r] = self._calc(x[rids], y[rids], w)[0]
             self.taus = taus
             self.tau_spatial_psim = pseudop(taus, self.tau_spatial, permutations)
+        w.transform = transform
 
     def _calc(self, x, y, w):
         n1 = n2 = iS = gc = 0
@@ -604,6 +606,7 @@ class Tau_Local_Neighbor:
         y = np.asarray(y)
         self.n = len(x)
 
+        transform = w.transform
         w.transform = "b"
         self.tau_ln, self.tau_ln_weights = self._calc(x, y, w)
 
@@ -634,6 +637,7 @@ class Tau_Local_Neighbor:
                 )
             self.tau_ln_sim = tau_ln_sim
             self.tau_ln_pvalues = tau_ln_pvalues
+        w.transform = transform
 
     def _calc_r(self, xi, yi, xj, yj, w):
         dx = int(xi > xj) - int(xi < xj)
@@ -762,7 +766,6 @@ class Tau_Local_Neighborhood:
         self.S = res.S
         self.tau_local = res.tau_local
 
-        w.transform = "b"
         tau_lnhood = np.zeros(self.n)
         for i, id_i in enumerate(w.id_order):
             neighbors_i = [i]
-- 
2.43.0


From 997b8f5b88bf3ebe2468894729db4a5d5d2c72e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:15 +0000
Subject: [PATCH 24/44] fix: Theta does not add attributes to the numpy module

---
 giddy/rank.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/giddy/rank.py b/giddy/rank.py
index e1e5ae9..47fecb0 100644
--- a/giddy/rank.py
+++ b/giddy/rank.py
@@ -103,8 +103,8 @@ class Theta:
         self.theta = self._calc(regime)
         self.permutations = permutations
         if permutations:
-            np.perm = np.random.permutation
-            sim = np.array([self._calc(np.perm(regime)) for i in range(permutations)])
+            nrp = np.random.permutation
+            sim = np.array([self._calc(nrp(regime)) for i in range(permutations)])
             self.theta.shape = (1, len(self.theta))
             sim = np.concatenate((self.theta, sim))
             self.sim = sim
-- 
2.43.0


From 1d7718e45c1bcfe8babbd2b6e647b5572f958071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:16 +0000
Subject: [PATCH 25/44] fix: Rose has exactly k sectors that end at a full turn

Rounding in arange gave k + 2 cuts for some k and a last cut below a full turn
for others, losing vectors.
---
 giddy/directional.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/giddy/directional.py b/giddy/directional.py
index 0a76da8..2894de2 100644
--- a/giddy/directional.py
+++ b/giddy/directional.py
@@ -212,7 +212,7 @@ class Rose:
         self.w = w
         self.k = k
         self.sw = 2 * np.pi / self.k
-        self.cuts = np.arange(0.0, 2 * np.pi + self.sw, self.sw)
+        self.cuts = np.linspace(0.0, 2 * np.pi, self.k + 1)
         observed = self._calc(Y, w, k)
         self.theta = observed["theta"]
         self.bins = observed["bins"]
-- 
2.43.0


From 1315ca92a071271bae0dec9582560082eec74273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:23 +0000
Subject: [PATCH 26/44] fix: Rose.permute leaves the observed values and lags
 in place

---
 giddy/directional.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/giddy/directional.py b/giddy/directional.py
index 2894de2..58cc976 100644
--- a/giddy/directional.py
+++ b/giddy/directional.py
@@ -219,6 +219,7 @@ class Rose:
         self.counts = observed["counts"]
         self.r = observed["r"]
         self.lag = observed["lag"]
+        self.wY = observed["lag"]
         self._dx = observed["dx"]
         self._dy = observed["dy"]
 
@@ -239,7 +240,7 @@ class Rose:
             that the focal unit and its lag move in opposite directions over
             the interval.
         """
-        rY = self.Y.copy()
+        rY = self._rY.copy()
         idxs = np.arange(len(rY))
         counts = np.zeros((permutations, len(self.counts)))
         for m in range(permutations):
@@ -303,8 +304,7 @@ class Rose:
         wY = weights.lag_spatial(w, Y)
         dx = Y[:, -1] - Y[:, 0]
         dy = wY[:, -1] - wY[:, 0]
-        self.wY = wY
-        self.Y = Y
+        self._rY = Y  # a further call of permute continues from here
         r = np.sqrt(dx * dx + dy * dy)
         theta = np.arctan2(dy, dx)
         neg = theta < 0.0
-- 
2.43.0


From 70c864456c3c27c381adabbe6d725f45cb1dc3dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:23 +0000
Subject: [PATCH 27/44] fix: Rose.permute accepts the documented alternative
 two-sided

---
 giddy/directional.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/giddy/directional.py b/giddy/directional.py
index 58cc976..5987dcc 100644
--- a/giddy/directional.py
+++ b/giddy/directional.py
@@ -275,7 +275,7 @@ class Rose:
         # depending on the problem at hand.
 
         alt = alternative.upper()
-        if alt == "TWO.SIDED":
+        if alt in ("TWO-SIDED", "TWO.SIDED"):
             P = (self.larger_perm + 1) / (permutations + 1.0)
             mask = P < 0.5
             self.p = mask * 2 * P + (1 - mask) * 2 * (1 - P)
-- 
2.43.0


From e56668846590ff0fc22637d0c81500aa0fe13ad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:03 +0000
Subject: [PATCH 28/44] fix: tick labels of the dynamic LISA heatmap follow the
 quadrant codes

---
 giddy/plotting.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/giddy/plotting.py b/giddy/plotting.py
index e06bfc5..5da44c5 100644
--- a/giddy/plotting.py
+++ b/giddy/plotting.py
@@ -167,8 +167,8 @@ def _dynamic_lisa_heatmap(moran_locy, moran_locx, p, ax, **kwargs):
     square = kwargs.pop("square", True)
 
     # set name for tick labels
-    xticklabels = kwargs.pop("xticklabels", ["ns", "HH", "HL", "LH", "LL"])
-    yticklabels = kwargs.pop("yticklabels", ["ns", "HH", "HL", "LH", "LL"])
+    xticklabels = kwargs.pop("xticklabels", ["ns", "HH", "LH", "LL", "HL"])
+    yticklabels = kwargs.pop("yticklabels", ["ns", "HH", "LH", "LL", "HL"])
 
     ax = sns.heatmap(
         heatmap_data,
-- 
2.43.0


From 509cf9831cb8d17a956ce20be86695f3b6614c13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:03 +0000
Subject: [PATCH 29/44] fix: dynamic_lisa_rose restores the plotting style when
 it is refused

---
 giddy/plotting.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/giddy/plotting.py b/giddy/plotting.py
index 5da44c5..416a3e2 100644
--- a/giddy/plotting.py
+++ b/giddy/plotting.py
@@ -188,6 +188,7 @@ def _dynamic_lisa_heatmap(moran_locy, moran_locx, p, ax, **kwargs):
     return fig, ax
 
 
+@mpl.rc_context()
 def dynamic_lisa_rose(rose, attribute=None, ax=None, **kwargs):
     """
     Plot dynamic LISA values in a rose diagram.
-- 
2.43.0


From 40c4bb9d1f264a3a75d48bad8302683204f6dae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:03 +0000
Subject: [PATCH 30/44] fix: LISA plots leave the transformation of the weights
 as it was

Moran_Local row-standardizes the weights in place, so that permutations
requested after a plot used other lags than the observed ones.
---
 giddy/plotting.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/giddy/plotting.py b/giddy/plotting.py
index 416a3e2..910b764 100644
--- a/giddy/plotting.py
+++ b/giddy/plotting.py
@@ -62,10 +62,12 @@ def _moran_loc_from_rose_calc(rose):
     Calculate esda.moran.Moran_Local values from giddy.rose object
     """
     old_state = np.random.get_state()
+    transform = rose.w.transform
     moran_locy = Moran_Local(rose.Y[:, 0], rose.w)
     np.random.set_state(old_state)
     moran_locx = Moran_Local(rose.Y[:, 1], rose.w)
     np.random.set_state(old_state)
+    rose.w.transform = transform
     return moran_locy, moran_locx
 
 
-- 
2.43.0


From e6bd7740cb185804df3c05f9529b41a4dca2a277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:03 +0000
Subject: [PATCH 31/44] fix: sequences over more than ten classes are told
 apart

Without a separator 1,0 and 10 were the same sequence: KeyError.
---
 giddy/sequence.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/giddy/sequence.py b/giddy/sequence.py
index 045f6cd..8ca30a8 100644
--- a/giddy/sequence.py
+++ b/giddy/sequence.py
@@ -336,7 +336,7 @@ class Sequence:
         """
         y_str = []
         for i in y_int:
-            y_str.append("".join(list(map(str, i))))
+            y_str.append("-".join(list(map(str, i))))
 
         moves_str, unique_indices = np.unique(y_str, axis=0, return_index=True)
         moves_int = y_int[unique_indices]
-- 
2.43.0


From a542a751fc010837efbae88fb92edec7139c3679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:03 +0000
Subject: [PATCH 32/44] fix: Sequence accepts lists of varying lengths

---
 giddy/sequence.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/giddy/sequence.py b/giddy/sequence.py
index 8ca30a8..5c4a4d4 100644
--- a/giddy/sequence.py
+++ b/giddy/sequence.py
@@ -177,7 +177,10 @@ class Sequence:
     """  # noqa E501
 
     def __init__(self, y, subs_mat=None, dist_type=None, indel=None, cluster_type=None):
-        y = np.asarray(y)
+        try:
+            y = np.asarray(y)
+        except ValueError:  # sequences of varying lengths
+            y = np.asarray(y, dtype=object)
         merged = list(itertools.chain.from_iterable(y))
         self.classes = np.unique(merged)
         self.k = len(self.classes)
-- 
2.43.0


From 3f48b03f1ae6469a8ad17d8b8880455448e5c572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:03 +0000
Subject: [PATCH 33/44] fix: the homogeneity report uses the title it was
 created with

---
 giddy/markov.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/giddy/markov.py b/giddy/markov.py
index 012aba7..ddfe89d 100644
--- a/giddy/markov.py
+++ b/giddy/markov.py
@@ -1855,7 +1855,9 @@ class Homogeneity_Results:
         self.p_h0 = p_ij
         self.p_h1 = p_ijm
 
-    def summary(self, file_name=None, title="Markov Homogeneity Test"):
+    def summary(self, file_name=None, title=None):
+        if title is None:
+            title = self.title
         regime_names = ["%d" % i for i in range(self.m)]
         if self.regime_names:
             regime_names = self.regime_names
-- 
2.43.0


From 00f161f4d2a94defdfa210c9f2992cb25d3759bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:03 +0000
Subject: [PATCH 34/44] fix: the homogeneity report accepts regime names that
 are not strings

---
 giddy/markov.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/giddy/markov.py b/giddy/markov.py
index ddfe89d..a1f70c9 100644
--- a/giddy/markov.py
+++ b/giddy/markov.py
@@ -1860,7 +1860,7 @@ class Homogeneity_Results:
             title = self.title
         regime_names = ["%d" % i for i in range(self.m)]
         if self.regime_names:
-            regime_names = self.regime_names
+            regime_names = [str(regime) for regime in self.regime_names]
         cols = ["P(%s)" % str(regime) for regime in regime_names]
         if not self.class_names:
             self.class_names = list(range(self.k))
-- 
2.43.0


From ed149dc54968c0835f7de4fdff66cbb8897916d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:03 +0000
Subject: [PATCH 35/44] fix: number clusters in a reproducible order

---
 giddy/components.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/giddy/components.py b/giddy/components.py
index b0d4609..84ff144 100644
--- a/giddy/components.py
+++ b/giddy/components.py
@@ -126,14 +126,14 @@ class Graph:
             print(warn)
             return None
         else:
-            nodes = set(self.nodes)
+            # in the order of the edges, as the order of a set is not reproducible
+            nodes = list(self.edges) + [n for n in self.nodes if n not in self.edges]
             components, visited = [], set()
-            while len(nodes) > 0:
-                connected, visited = self.dfs(nodes.pop(), visited, threshold, op)
+            for node in nodes:
+                if node in visited:
+                    continue
+                connected, visited = self.dfs(node, visited, threshold, op)
                 connected = set(connected)
-                for node in connected:
-                    if node in nodes:
-                        nodes.remove(node)
                 subgraph = Graph()
                 subgraph.nodes = connected
                 subgraph.no_link = self.no_link
-- 
2.43.0


From 565fa511b9a8ea12b5824af19d7abb008ffc46b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:53 +0000
Subject: [PATCH 36/44] fix: own changes of a rose diagram survive small
 integer types

---
 giddy/directional.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/giddy/directional.py b/giddy/directional.py
index 5987dcc..77eeae3 100644
--- a/giddy/directional.py
+++ b/giddy/directional.py
@@ -302,7 +302,7 @@ class Rose:
 
     def _calc(self, Y, w, k):
         wY = weights.lag_spatial(w, Y)
-        dx = Y[:, -1] - Y[:, 0]
+        dx = 1.0 * Y[:, -1] - Y[:, 0]  # changes of integers may exceed their type
         dy = wY[:, -1] - wY[:, 0]
         self._rY = Y  # a further call of permute continues from here
         r = np.sqrt(dx * dx + dy * dy)
-- 
2.43.0


From 158a1aae880c59b9f2eb5054297c6fc669913250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:29 +0000
Subject: [PATCH 37/44] fix: the neighbour local tau leaves the weights alone
 when it fails

---
 giddy/rank.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/giddy/rank.py b/giddy/rank.py
index 47fecb0..27f0508 100644
--- a/giddy/rank.py
+++ b/giddy/rank.py
@@ -606,8 +606,6 @@ class Tau_Local_Neighbor:
         y = np.asarray(y)
         self.n = len(x)
 
-        transform = w.transform
-        w.transform = "b"
         self.tau_ln, self.tau_ln_weights = self._calc(x, y, w)
 
         concor_sign = np.ones(self.n)
@@ -637,7 +635,6 @@ class Tau_Local_Neighbor:
                 )
             self.tau_ln_sim = tau_ln_sim
             self.tau_ln_pvalues = tau_ln_pvalues
-        w.transform = transform
 
     def _calc_r(self, xi, yi, xj, yj, w):
         dx = int(xi > xj) - int(xi < xj)
@@ -662,12 +659,13 @@ class Tau_Local_Neighbor:
         else:
             tau_ln = np.zeros(self.n)
             tau_ln_weights = np.zeros(self.n)
+            s0 = sum(w.cardinalities.values())
             for i, id_i in enumerate(w.id_order):
                 iS_local = 0
                 for j in (w.id2i[id_j] for id_j in w.neighbors[id_i]):
                     iS_local += self._calc_r(x[i], y[i], x[j], y[j], w)
                 tau_ln[i] = iS_local * 1.0 / w.cardinalities[id_i]
-                tau_ln_weights[i] = w.cardinalities[id_i] * 1.0 / w.s0
+                tau_ln_weights[i] = w.cardinalities[id_i] * 1.0 / s0
             return tau_ln, tau_ln_weights
 
 
-- 
2.43.0


From b2e69df0626fb8b0e7788d03715581ad81e6425c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:15 +0000
Subject: [PATCH 38/44] fix: Kullback's test keeps its precision with small
 integer types

---
 giddy/markov.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/giddy/markov.py b/giddy/markov.py
index a1f70c9..1079169 100644
--- a/giddy/markov.py
+++ b/giddy/markov.py
@@ -1632,6 +1632,7 @@ def kullback(F):
 
     """
 
+    F = np.asarray(F, dtype=float)  # logarithms of small integers are half precision
     F1 = F == 0
     F1 = F + F1
     FLF = F * np.log(F1)
-- 
2.43.0


From f975dd0b05e65d65efd8178ca1785cc764f1be13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:29 +0000
Subject: [PATCH 39/44] fix: first passage times keep their precision with
 rarely visited states

---
 giddy/ergodic.py | 14 ++------------
 1 file changed, 2 insertions(+), 12 deletions(-)

diff --git a/giddy/ergodic.py b/giddy/ergodic.py
index 7b97b27..bc91c68 100644
--- a/giddy/ergodic.py
+++ b/giddy/ergodic.py
@@ -51,18 +51,8 @@ def _steady_state_ergodic(P):
 
     """
 
-    v, d = la.eig(np.transpose(P))
-    d = np.array(d)
-
-    # for a regular P maximum eigenvalue will be 1
-    mv = max(v)
-    # find its position
-    i = v.tolist().index(mv)
-
-    row = abs(d[:, i])
-
-    # normalize eigenvector corresponding to the eigenvalue 1
-    return row / sum(row)
+    # an eigenvector is only accurate relative to its largest element
+    return qe.markov.gth_solve(P)
 
 
 def steady_state(P, fill_empty_classes=False):
-- 
2.43.0


From fa291d71ee8b1599e009575e70321de1bc47ab81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:40 +0000
Subject: [PATCH 40/44] fix: accept names given as an array or index in the
 homogeneity results

---
 giddy/markov.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/giddy/markov.py b/giddy/markov.py
index 1079169..2c99770 100644
--- a/giddy/markov.py
+++ b/giddy/markov.py
@@ -1792,8 +1792,8 @@ class Homogeneity_Results:
         title="Markov Homogeneity Test",
     ):
         self._homogeneity(transition_matrices)
-        self.regime_names = regime_names
-        self.class_names = class_names
+        self.regime_names = [] if regime_names is None else list(regime_names)
+        self.class_names = [] if class_names is None else list(class_names)
         self.title = title
 
     def _homogeneity(self, transition_matrices):
-- 
2.43.0


From 89adc83d0e03a69380f995b6562e5fec9078240f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:40 +0000
Subject: [PATCH 41/44] fix: Theta with regimes given as a list or tuple of
 labels

---
 giddy/rank.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/giddy/rank.py b/giddy/rank.py
index 27f0508..dbc5cfc 100644
--- a/giddy/rank.py
+++ b/giddy/rank.py
@@ -90,6 +90,7 @@ class Theta:
     """
 
     def __init__(self, y, regime, permutations=999):
+        regime = np.asarray(regime)
         ranks = rankdata(y, axis=0)
         self.ranks = ranks
         n, k = y.shape
-- 
2.43.0


From 4a9745cdbcc1e2a4c577c02c905ce101f3593b5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:40 +0000
Subject: [PATCH 42/44] fix: print the heatmap counts as whole numbers

---
 giddy/plotting.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/giddy/plotting.py b/giddy/plotting.py
index 910b764..ca5e9e6 100644
--- a/giddy/plotting.py
+++ b/giddy/plotting.py
@@ -163,6 +163,9 @@ def _dynamic_lisa_heatmap(moran_locy, moran_locx, p, ax, **kwargs):
     heatmap_data, diagonal_mask = _dynamic_lisa_heatmap_data(moran_locy, moran_locx, p)
     # set default plot style
     annot = kwargs.pop("annot", True)
+    if annot is True:
+        # the counts themselves, not rounded to two digits
+        kwargs.setdefault("fmt", "d")
     cmap = kwargs.pop("cmap", "YlGnBu")
     mask = kwargs.pop("mask", diagonal_mask)
     cbar = kwargs.pop("cbar", False)
-- 
2.43.0


From 29196cb034adf119b432f1492505faf38e4bc39b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:13 +0000
Subject: [PATCH 43/44] fix: Theta keeps distinct large integers apart

---
 giddy/rank.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/giddy/rank.py b/giddy/rank.py
index dbc5cfc..9441293 100644
--- a/giddy/rank.py
+++ b/giddy/rank.py
@@ -91,7 +91,10 @@ class Theta:
 
     def __init__(self, y, regime, permutations=999):
         regime = np.asarray(regime)
-        ranks = rankdata(y, axis=0)
+        # rank the order of the values: rankdata looks for ties in double
+        # precision, in which large integers coincide
+        order = [np.unique(col, return_inverse=True)[1] for col in np.asarray(y).T]
+        ranks = rankdata(np.transpose(order), axis=0)
         self.ranks = ranks
         n, k = y.shape
         ranks_d = ranks[:, list(range(1, k))] - ranks[:, list(range(k - 1))]
-- 
2.43.0


From 0b2115c2512f38db25a3e24eeacf09b755a5efe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:13 +0000
Subject: [PATCH 44/44] fix: LISA_Markov independence test with negative or
 zero averages

---
 giddy/markov.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/giddy/markov.py b/giddy/markov.py
index 2c99770..e0428b6 100644
--- a/giddy/markov.py
+++ b/giddy/markov.py
@@ -1422,12 +1422,10 @@ class LISA_Markov(Markov):
         # null of own and lag moves being independent
 
         ybar = y.mean(axis=0)
-        r = y / ybar
         ylag = np.array([weights.lag_spatial(w, yt) for yt in y])
         w.transform = transform
-        rlag = ylag / ybar
-        rc = r < 1.0
-        rlagc = rlag < 1.0
+        rc = y < ybar
+        rlagc = ylag < ybar
         states = np.array([False, True])  # no guarantee both states are visited
         markov_y = Markov(rc, states, summary=False)
         markov_ylag = Markov(rlagc, states, summary=False)
-- 
2.43.0

