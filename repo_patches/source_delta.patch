From 662d24073eb55e88cae7f5b8b9efa7d3fdcce0bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:11 +0000
Subject: [PATCH 01/29] fix: RBF training objective fails with numpy >= 1.24
 (np.max of a ragged list)

---
 active_subspaces/utils/response_surfaces.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/active_subspaces/utils/response_surfaces.py b/active_subspaces/utils/response_surfaces.py
index b720b5d..77f5ef9 100644
--- a/active_subspaces/utils/response_surfaces.py
+++ b/active_subspaces/utils/response_surfaces.py
@@ -381,7 +381,7 @@ def _rbf_objective(log10g, X, f, v, N, e):
     res = f - np.dot(B, beta)
 
     # variance
-    sig2 = np.max([np.dot(res.T, np.linalg.solve(K, res))/M, 5*np.finfo(float).eps])
+    sig2 = np.maximum(np.dot(res.T, np.linalg.solve(K, res))[0,0]/M, 5*np.finfo(float).eps)
     
 
     r = np.sum(np.log(np.diag(L))) + M*np.log(sig2)
-- 
2.43.0


From d42d20db94b992dc478682b3976689b2e0c1c447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:11 +0000
Subject: [PATCH 02/29] fix: pass one-dimensional starting points to
 scipy.optimize.minimize

---
 active_subspaces/optimizers.py    | 4 ++--
 active_subspaces/utils/designs.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/active_subspaces/optimizers.py b/active_subspaces/optimizers.py
index d91df65..1d0cd1c 100644
--- a/active_subspaces/optimizers.py
+++ b/active_subspaces/optimizers.py
@@ -331,7 +331,7 @@ def zonotope_minimize(avfun, avdom, avdfun):
     minf = 1e100
     minres = []
     for i in range(10):
-        y0 = np.random.normal(size=(1, n))
+        y0 = np.random.normal(size=(n, ))
         cons = avdom.constraints
         result = scopt.minimize(avfun, y0, constraints=cons, method='SLSQP', \
                             jac=avdfun, options=opts)
@@ -387,7 +387,7 @@ def unbounded_minimize(avfun, avdom, avdfun):
     minf = 1e100
     minres = []
     for i in range(10):
-        y0 = np.random.normal(size=(1, n))
+        y0 = np.random.normal(size=(n, ))
         result = scopt.minimize(avfun, y0, method=method, jac=avdfun, options=opts)
         if not result.success:
             raise Exception('{} failed with message: {}.'.format(method, result.message))
diff --git a/active_subspaces/utils/designs.py b/active_subspaces/utils/designs.py
index 8430b28..7bd0fb1 100644
--- a/active_subspaces/utils/designs.py
+++ b/active_subspaces/utils/designs.py
@@ -74,7 +74,7 @@ def maximin_design(vert, N):
     minres = []
 
     for i in range(3):
-        y0 = np.random.normal(size=(N, n))
+        y0 = np.random.normal(size=(N*n, ))
         res = minimize(_maximin_design_obj, y0, args=(vert, ), jac=_maximin_design_grad, constraints=cons,
                         method='SLSQP', options={'disp':False, 'maxiter':1e2, 'ftol':1e-4})
         if not res.success:
-- 
2.43.0


From a78ade1c996f33f552c5bca0d71299e0c7fecdad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:44 +0000
Subject: [PATCH 03/29] fix: qphd_subspace compares the function np.amin, not
 the data, with -1

---
 active_subspaces/subspaces.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/active_subspaces/subspaces.py b/active_subspaces/subspaces.py
index 2cdfe70..002cab3 100644
--- a/active_subspaces/subspaces.py
+++ b/active_subspaces/subspaces.py
@@ -273,7 +273,7 @@ def qphd_subspace(X, f, weights):
     X, f, M, m = process_inputs_outputs(X, f)
     
     # check if the points are uniform or Gaussian, set 2nd moment
-    if np.amax(X) > 1.0 or np.amin < -1.0:
+    if np.amax(X) > 1.0 or np.amin(X) < -1.0:
         gamma = 1.0
     else:
         gamma = 1.0 / 3.0
-- 
2.43.0


From 141cf0a60288ffda30d32501f5fee035589a1220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:44 +0000
Subject: [PATCH 04/29] fix: random_walk_z scrambles its samples (reshape
 instead of transpose)

---
 active_subspaces/domains.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/active_subspaces/domains.py b/active_subspaces/domains.py
index fda1fe8..d81867d 100644
--- a/active_subspaces/domains.py
+++ b/active_subspaces/domains.py
@@ -741,7 +741,7 @@ def random_walk_z(N, y, W1, W2):
             z0 = zc
         Z[:,i] = z0.reshape((z0.shape[0], ))
 
-    return Z.reshape((N, m-n))
+    return Z.T
 
 def _rotate_x(Y, Z, W):
     """A convenience function for rotating subspace coordinates to x space.
-- 
2.43.0


From f3a7404a147e0adf9ec1dbe74956997ccfff59d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:44 +0000
Subject: [PATCH 05/29] fix: maximin_design constrains the design to the
 polytope, not to its mirror image

---
 active_subspaces/utils/designs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/active_subspaces/utils/designs.py b/active_subspaces/utils/designs.py
index 7bd0fb1..52cca98 100644
--- a/active_subspaces/utils/designs.py
+++ b/active_subspaces/utils/designs.py
@@ -63,8 +63,8 @@ def maximin_design(vert, N):
     A = np.kron(np.eye(N), C.equations[:,:n])
     b = np.kron(np.ones(N), C.equations[:,n])
     cons = ({'type':'ineq',
-                'fun' : lambda x: np.dot(A, x) - b,
-                'jac' : lambda x: A})
+                'fun' : lambda x: -np.dot(A, x) - b,
+                'jac' : lambda x: -A})
 
     # some tricks for the globalization
     curr_state = np.random.get_state()
-- 
2.43.0


From 793130612572174361f7b67f8ed4341bc0934e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:44 +0000
Subject: [PATCH 06/29] fix: UnboundedMinVariableMap minimizes the quadratic
 model (sign of the linear term)

---
 active_subspaces/optimizers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/active_subspaces/optimizers.py b/active_subspaces/optimizers.py
index 1d0cd1c..5c35a6f 100644
--- a/active_subspaces/optimizers.py
+++ b/active_subspaces/optimizers.py
@@ -160,7 +160,7 @@ class UnboundedMinVariableMap(MinVariableMap):
         Zlist = []
         for y in Y:
             c = self._bz.reshape((m-n, 1)) + np.dot(self._zAy, y).reshape((m-n, 1))
-            z = np.linalg.solve(self._zAz, c)
+            z = np.linalg.solve(self._zAz, -c)
             Zlist.append(z)
         return np.array(Zlist).reshape((NY, m-n, N))
 
-- 
2.43.0


From ae19f232a26a54dbff704f0cdf7fcc60d0234e6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:44 +0000
Subject: [PATCH 07/29] fix: BoundedMinVariableMap minimizes the quadratic
 model (the Hessian term needs 1/2)

---
 active_subspaces/optimizers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/active_subspaces/optimizers.py b/active_subspaces/optimizers.py
index 5c35a6f..116fd7a 100644
--- a/active_subspaces/optimizers.py
+++ b/active_subspaces/optimizers.py
@@ -113,7 +113,7 @@ class BoundedMinVariableMap(MinVariableMap):
                 -1-np.dot(W1, y).reshape((m, 1)),
                 -1+np.dot(W1, y).reshape((m, 1))
                 ))
-            z = qps.quadratic_program_ineq(c, self._zAz, A_ineq, b_ineq)
+            z = qps.quadratic_program_ineq(c, 0.5*self._zAz, A_ineq, b_ineq)
             Zlist.append(z)
         Z = np.array(Zlist).reshape((NY, m-n, N))
         return Z
-- 
2.43.0


From 0fa85aa2c3c171ce0d8fec976ff309eed3851217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:44 +0000
Subject: [PATCH 08/29] fix: local_linear_gradients uses the p nearest points
 (the mask was in unsorted order)

---
 active_subspaces/gradients.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/active_subspaces/gradients.py b/active_subspaces/gradients.py
index a137f70..20c6b3c 100644
--- a/active_subspaces/gradients.py
+++ b/active_subspaces/gradients.py
@@ -55,7 +55,6 @@ def local_linear_gradients(X, f, p=None, weights=None):
         x = X[ii,:]
         D2 = np.sum((X - x)**2, axis=1)
         ind = np.argsort(D2)
-        ind = ind[D2 != 0]
         A = np.hstack((np.ones((p,1)), X[ind[:p],:])) * np.sqrt(weights[ii])
         b = f[ind[:p]] * np.sqrt(weights[ii])
         u = np.linalg.lstsq(A, b)[0]
-- 
2.43.0


From 8c8f35b77660b276513af29c633091ce6d3f90e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:44 +0000
Subject: [PATCH 09/29] fix: jacobi_matrix of two rows of coefficients is
 1-by-1

---
 active_subspaces/utils/quadrature.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/active_subspaces/utils/quadrature.py b/active_subspaces/utils/quadrature.py
index 35a8ca4..bb493dd 100644
--- a/active_subspaces/utils/quadrature.py
+++ b/active_subspaces/utils/quadrature.py
@@ -134,6 +134,8 @@ def jacobi_matrix(ab):
     n = ab.shape[0] - 1
     if n == 0:
         return ab[0,0]
+    elif n == 1:
+        return np.array([[ab[0,0]]])
     else:
         J = np.zeros((n, n))
         J[0,0] = ab[0,0]
-- 
2.43.0


From 54567fd57e0cb8fb171f4c50b20a067a15990156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:44 +0000
Subject: [PATCH 10/29] fix: hit_and_run_z leaves the polytope when a
 constraint is nearly active

---
 active_subspaces/domains.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/active_subspaces/domains.py b/active_subspaces/domains.py
index d81867d..dba0903 100644
--- a/active_subspaces/domains.py
+++ b/active_subspaces/domains.py
@@ -602,11 +602,11 @@ def hit_and_run_z(N, y, W1, W2):
         f, g = b - np.dot(A,z0), np.dot(A, d)
 
         # find an upper bound on the step
-        min_ind = np.logical_and(g<=0, f < -np.sqrt(np.finfo(np.float).eps))
+        min_ind = g<0
         eps_max = np.amin(f[min_ind]/g[min_ind])
 
         # find a lower bound on the step
-        max_ind = np.logical_and(g>0, f < -np.sqrt(np.finfo(np.float).eps))
+        max_ind = g>0
         eps_min = np.amax(f[max_ind]/g[max_ind])
 
         # randomly sample eps
-- 
2.43.0


From 356a2b46473381e9270d9358c32374f93ba6bbe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:26 +0000
Subject: [PATCH 11/29] fix: condition the RBF matrix in the training objective
 as train does

---
 active_subspaces/utils/response_surfaces.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/active_subspaces/utils/response_surfaces.py b/active_subspaces/utils/response_surfaces.py
index 77f5ef9..1661c2c 100644
--- a/active_subspaces/utils/response_surfaces.py
+++ b/active_subspaces/utils/response_surfaces.py
@@ -366,6 +366,9 @@ def _rbf_objective(log10g, X, f, v, N, e):
         if v is None:
             v = g*np.sum(e[m:])*np.ones(f.shape)
 
+    # ensure conditioning
+    v = np.amax([v.reshape(f.shape), 1e-6*np.ones(f.shape)], axis=0)
+
     # covariance matrix
     K = exponential_squared(X, X, 1.0, ell)
     K += np.diag(v.reshape((M,)))
-- 
2.43.0


From 71d8cb0a9d8dd39de59ee6df90327820e80fa381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:26 +0000
Subject: [PATCH 12/29] fix: points per dimension of the tensor rule when N is
 a perfect power (rounding)

---
 active_subspaces/integrals.py         | 2 +-
 active_subspaces/response_surfaces.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/active_subspaces/integrals.py b/active_subspaces/integrals.py
index 9c23709..2327574 100644
--- a/active_subspaces/integrals.py
+++ b/active_subspaces/integrals.py
@@ -201,7 +201,7 @@ def av_quadrature_rule(avmap, N):
     m, n = avmap.domain.subspaces.W1.shape
 
     if isinstance(avmap.domain, UnboundedActiveVariableDomain):
-        NN = [int(np.floor(np.power(N, 1.0/n))) for i in range(n)]
+        NN = [int(np.floor(np.round(np.power(N, 1.0/n), 8))) for i in range(n)]
         Yp, Yw = gq.gauss_hermite(NN)
 
     elif isinstance(avmap.domain, BoundedActiveVariableDomain):
diff --git a/active_subspaces/response_surfaces.py b/active_subspaces/response_surfaces.py
index b7e3e56..fac4195 100644
--- a/active_subspaces/response_surfaces.py
+++ b/active_subspaces/response_surfaces.py
@@ -279,7 +279,7 @@ def av_design(avmap, N, NMC=10):
     m, n = avmap.domain.subspaces.W1.shape
 
     if isinstance(avmap.domain, UnboundedActiveVariableDomain):
-        NN = [int(np.floor(np.power(N, 1.0/n))) for i in range(n)]
+        NN = [int(np.floor(np.round(np.power(N, 1.0/n), 8))) for i in range(n)]
         Y = dn.gauss_hermite_design(NN)
 
     elif isinstance(avmap.domain, BoundedActiveVariableDomain):
-- 
2.43.0


From 063e61aa500f497f5e99ec6322399320f0eaf78e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:43 +0000
Subject: [PATCH 13/29] fix: sample_z fails at the boundary of the domain when
 there are no inactive variables

---
 active_subspaces/domains.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/active_subspaces/domains.py b/active_subspaces/domains.py
index dba0903..d0cfdf6 100644
--- a/active_subspaces/domains.py
+++ b/active_subspaces/domains.py
@@ -562,6 +562,10 @@ def hit_and_run_z(N, y, W1, W2):
     """
     m, n = W1.shape
 
+    # no inactive variables to sample
+    if m == n:
+        return np.zeros((N, 0))
+
     # get an initial feasible point using the Chebyshev center. huge props to
     # David Gleich for showing me the Chebyshev center.
     s = np.dot(W1, y).reshape((m, 1))
-- 
2.43.0


From 904b7325445ea13a8dbef0d193ca7b337ebe5a2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:05:43 +0000
Subject: [PATCH 14/29] fix: BoundedMinVariableMap fails when there are no
 inactive variables

---
 active_subspaces/optimizers.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/active_subspaces/optimizers.py b/active_subspaces/optimizers.py
index 116fd7a..d354b79 100644
--- a/active_subspaces/optimizers.py
+++ b/active_subspaces/optimizers.py
@@ -103,6 +103,11 @@ class BoundedMinVariableMap(MinVariableMap):
         W1, W2 = self.domain.subspaces.W1, self.domain.subspaces.W2
         m, n = W1.shape
         NY = Y.shape[0]
+
+        # no inactive variables to choose
+        if m == n:
+            return np.zeros((NY, 0, N))
+
         qps = QPSolver()
 
         Zlist = []
-- 
2.43.0


From 18a10d7edc948a5635a08a2a6b955e87cf959c19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:28 +0000
Subject: [PATCH 15/29] fix: gradient of the quadratic program's objective for
 a non-symmetric Q

---
 active_subspaces/utils/qp_solver.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/active_subspaces/utils/qp_solver.py b/active_subspaces/utils/qp_solver.py
index 9ab00ca..c7d88ab 100644
--- a/active_subspaces/utils/qp_solver.py
+++ b/active_subspaces/utils/qp_solver.py
@@ -234,7 +234,7 @@ def _scipy_quadratic_program_bnd(c, Q, lb, ub):
         return f[0]
 
     def jac(x):
-        j = c.T + 2.0*np.dot(x, Q)
+        j = c.T + np.dot(x, Q + Q.T)
         return j[0]
 
     # make bounds
@@ -267,7 +267,7 @@ def _scipy_quadratic_program_ineq(c, Q, A, b):
         return f[0]
 
     def jac(x):
-        j = c.T + 2.0*np.dot(x, Q)
+        j = c.T + np.dot(x, Q + Q.T)
         return j[0]
 
     # inequality constraints
-- 
2.43.0


From 58ccc2c6c32060050b0047259a1861a709c0c1c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:57 +0000
Subject: [PATCH 16/29] fix: scatter plots are hidden under a second set of
 axes (plt.axes() does not return the current axes)

---
 active_subspaces/utils/plotters.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/active_subspaces/utils/plotters.py b/active_subspaces/utils/plotters.py
index 4c04d1b..3edc021 100644
--- a/active_subspaces/utils/plotters.py
+++ b/active_subspaces/utils/plotters.py
@@ -382,7 +382,7 @@ def sufficient_summary(y, f, out_label=None, opts=None):
         ymin = 1.1*np.amin([np.amin(y1), np.amin(y2)])
         ymax = 1.1*np.amax([np.amax(y1), np.amax(y2)])
         plt.axis([ymin, ymax, ymin, ymax])
-        plt.axes().set_aspect('equal')
+        plt.gca().set_aspect('equal')
         plt.grid(True)
         plt.title(out_label)
         plt.colorbar()
@@ -472,7 +472,7 @@ def zonotope_2d_plot(vertices, design=None, y=None, f=None, out_label=None, opts
 
     if y is not None:
         plt.scatter(y[:,0], y[:,1], c=f, s=100.0, vmin=np.min(f), vmax=np.max(f))
-        plt.axes().set_aspect('equal')
+        plt.gca().set_aspect('equal')
         plt.title(out_label)
         plt.colorbar()
 
-- 
2.43.0


From 9e6fce8bed072ad6c059e76ef262d63c6d84e357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:15 +0000
Subject: [PATCH 17/29] fix: unique_rows fails for arrays that are not
 C-contiguous

---
 active_subspaces/domains.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/active_subspaces/domains.py b/active_subspaces/domains.py
index d0cfdf6..ab4a1a6 100644
--- a/active_subspaces/domains.py
+++ b/active_subspaces/domains.py
@@ -417,6 +417,7 @@ def unique_rows(S):
     -----
     http://stackoverflow.com/questions/16970982/find-unique-rows-in-numpy-array
     """
+    S = np.ascontiguousarray(S)
     T = S.view(np.dtype((np.void, S.dtype.itemsize * S.shape[1])))
     return np.unique(T).view(S.dtype).reshape(-1, S.shape[1])
 
-- 
2.43.0


From 3009675be0e465af2f2e17549beb3a15eb71e85b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:54 +0000
Subject: [PATCH 18/29] fix: maximin_design may leave points outside the
 polytope, by the tolerance of SLSQP, where av_design finds no simulation
 inputs

---
 active_subspaces/utils/designs.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/active_subspaces/utils/designs.py b/active_subspaces/utils/designs.py
index 52cca98..7f79f10 100644
--- a/active_subspaces/utils/designs.py
+++ b/active_subspaces/utils/designs.py
@@ -85,6 +85,14 @@ def maximin_design(vert, N):
 
     np.random.set_state(curr_state)
     design = minres.x.reshape((N, n))
+
+    # SLSQP meets the constraints up to its tolerance. Points left outside move
+    # back to the polytope along the ray from its center.
+    center = np.mean(vert, axis=0)
+    A, b = C.equations[:,:n], C.equations[:,n]
+    t = np.amax(np.dot(design - center, A.T) / (-b - np.dot(A, center)), axis=1)
+    out = t > 1.0
+    design[out,:] = center + (design[out,:] - center) / t[out].reshape((-1, 1))
     return design
 
 def gauss_hermite_design(N):
-- 
2.43.0


From 8dea3dd1d79e72d45998510bfeb68624789a388f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:58 +0000
Subject: [PATCH 19/29] fix: quadratic programs are solved wrongly, or not at
 all, unless the objective is of order one

---
 active_subspaces/utils/qp_solver.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/active_subspaces/utils/qp_solver.py b/active_subspaces/utils/qp_solver.py
index c7d88ab..ac146b6 100644
--- a/active_subspaces/utils/qp_solver.py
+++ b/active_subspaces/utils/qp_solver.py
@@ -228,14 +228,17 @@ def _scipy_linear_program_ineq(c, A, b):
 
 def _scipy_quadratic_program_bnd(c, Q, lb, ub):
 
+    # the stopping criteria of the optimizer are absolute, so scale the objective
+    scale = float(max(np.amax(np.abs(c)), np.amax(np.abs(Q)))) or 1.0
+
     # define the objective and gradient
     def fun(x):
         f = np.dot(x, c) + np.dot(x, np.dot(Q, x.T))
-        return f[0]
+        return f[0] / scale
 
     def jac(x):
         j = c.T + np.dot(x, Q + Q.T)
-        return j[0]
+        return j[0] / scale
 
     # make bounds
     bounds = []
@@ -243,8 +246,8 @@ def _scipy_quadratic_program_bnd(c, Q, lb, ub):
         bounds.append((lb[i,0],ub[i,0]))
 
     x0 = np.zeros((c.size,))
-    res = minimize(fun, x0, method='L-BFGS-B', jac=jac,
-                    bounds=bounds, options={"disp": False})
+    res = minimize(fun, x0, method='L-BFGS-B', jac=jac, bounds=bounds,
+                    options={"disp": False, "ftol": 1e-12, "gtol": 1e-8})
 
     if res.success:
         xstar = res.x
@@ -261,14 +264,17 @@ def _scipy_quadratic_program_ineq(c, Q, A, b):
 
     b = b.reshape((b.size,))
 
+    # the stopping criteria of the optimizer are absolute, so scale the objective
+    scale = float(max(np.amax(np.abs(c)), np.amax(np.abs(Q)))) or 1.0
+
     # define the objective and gradient
     def fun(x):
         f = np.dot(x, c) + np.dot(x, np.dot(Q, x.T))
-        return f[0]
+        return f[0] / scale
 
     def jac(x):
         j = c.T + np.dot(x, Q + Q.T)
-        return j[0]
+        return j[0] / scale
 
     # inequality constraints
     cons = ({'type':'ineq',
@@ -276,8 +282,8 @@ def _scipy_quadratic_program_ineq(c, Q, A, b):
             'jac' : lambda x: A})
 
     x0 = np.zeros((c.size,))
-    res = minimize(fun, x0, method='SLSQP', jac=jac,
-                    constraints=cons, options={"disp": False})
+    res = minimize(fun, x0, method='SLSQP', jac=jac, constraints=cons,
+                    options={"disp": False, "ftol": 1e-8, "maxiter": 1000})
 
     if res.success:
         xstar = res.x
-- 
2.43.0


From 5425c6e33d4fb646a1f45e73eb37ee9f7a28c6b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:13 +0000
Subject: [PATCH 20/29] fix: a minimisation or a maximin design that fails
 leaves numpy's generator seeded

---
 active_subspaces/optimizers.py    | 12 ++++++------
 active_subspaces/utils/designs.py |  6 +++---
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/active_subspaces/optimizers.py b/active_subspaces/optimizers.py
index d354b79..b9aa455 100644
--- a/active_subspaces/optimizers.py
+++ b/active_subspaces/optimizers.py
@@ -333,10 +333,11 @@ def zonotope_minimize(avfun, avdom, avdfun):
     # a bit of globalization
     curr_state = np.random.get_state()
     np.random.seed(42)
+    Y0 = np.random.normal(size=(10, n))
+    np.random.set_state(curr_state)
     minf = 1e100
     minres = []
-    for i in range(10):
-        y0 = np.random.normal(size=(n, ))
+    for y0 in Y0:
         cons = avdom.constraints
         result = scopt.minimize(avfun, y0, constraints=cons, method='SLSQP', \
                             jac=avdfun, options=opts)
@@ -346,7 +347,6 @@ def zonotope_minimize(avfun, avdom, avdfun):
             minf = result.fun
             minres = result
 
-    np.random.set_state(curr_state)
     ystar, fstar = minres.x, minres.fun
     return ystar, fstar
 
@@ -389,16 +389,16 @@ def unbounded_minimize(avfun, avdom, avdfun):
     # some tricks for globalization
     curr_state = np.random.get_state()
     np.random.seed(42)
+    Y0 = np.random.normal(size=(10, n))
+    np.random.set_state(curr_state)
     minf = 1e100
     minres = []
-    for i in range(10):
-        y0 = np.random.normal(size=(n, ))
+    for y0 in Y0:
         result = scopt.minimize(avfun, y0, method=method, jac=avdfun, options=opts)
         if not result.success:
             raise Exception('{} failed with message: {}.'.format(method, result.message))
         if result.fun < minf:
             minf = result.fun
             minres = result
-    np.random.set_state(curr_state)
     ystar, fstar = minres.x, minres.fun
     return ystar, fstar
diff --git a/active_subspaces/utils/designs.py b/active_subspaces/utils/designs.py
index 7f79f10..fac84ae 100644
--- a/active_subspaces/utils/designs.py
+++ b/active_subspaces/utils/designs.py
@@ -70,11 +70,12 @@ def maximin_design(vert, N):
     curr_state = np.random.get_state()
 
     np.random.seed(42)
+    Y0 = np.random.normal(size=(3, N*n))
+    np.random.set_state(curr_state)
     minf = 1e10
     minres = []
 
-    for i in range(3):
-        y0 = np.random.normal(size=(N*n, ))
+    for y0 in Y0:
         res = minimize(_maximin_design_obj, y0, args=(vert, ), jac=_maximin_design_grad, constraints=cons,
                         method='SLSQP', options={'disp':False, 'maxiter':1e2, 'ftol':1e-4})
         if not res.success:
@@ -83,7 +84,6 @@ def maximin_design(vert, N):
             minf = res.fun
             minres = res
 
-    np.random.set_state(curr_state)
     design = minres.x.reshape((N, n))
 
     # SLSQP meets the constraints up to its tolerance. Points left outside move
-- 
2.43.0


From f6063b5870e074e5bab29a6c54ecb59f4279ea9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:52 +0000
Subject: [PATCH 21/29] fix: minimisers depend on the units of the response (a
 response of order 1e-6 is not minimised, one of order 1e6 fails)

---
 active_subspaces/optimizers.py | 34 +++++++++++++++++++++++++++++-----
 1 file changed, 29 insertions(+), 5 deletions(-)

diff --git a/active_subspaces/optimizers.py b/active_subspaces/optimizers.py
index b9aa455..6a8184c 100644
--- a/active_subspaces/optimizers.py
+++ b/active_subspaces/optimizers.py
@@ -335,19 +335,21 @@ def zonotope_minimize(avfun, avdom, avdfun):
     np.random.seed(42)
     Y0 = np.random.normal(size=(10, n))
     np.random.set_state(curr_state)
+    scale = _scale(avfun, Y0)
+    fun, jac = _scaled(avfun, scale), _scaled(avdfun, scale)
     minf = 1e100
     minres = []
     for y0 in Y0:
         cons = avdom.constraints
-        result = scopt.minimize(avfun, y0, constraints=cons, method='SLSQP', \
-                            jac=avdfun, options=opts)
+        result = scopt.minimize(fun, y0, constraints=cons, method='SLSQP', \
+                            jac=jac, options=opts)
         if not result.success:
             raise Exception('SLSQP failed with message: {}.'.format(result.message))
         if result.fun < minf:
             minf = result.fun
             minres = result
 
-    ystar, fstar = minres.x, minres.fun
+    ystar, fstar = minres.x, minres.fun*scale
     return ystar, fstar
 
 def unbounded_minimize(avfun, avdom, avdfun):
@@ -391,14 +393,36 @@ def unbounded_minimize(avfun, avdom, avdfun):
     np.random.seed(42)
     Y0 = np.random.normal(size=(10, n))
     np.random.set_state(curr_state)
+    # do not loosen the tolerances of functions that grow fast
+    scale = min(_scale(avfun, Y0), 1.0)
+    fun, jac = _scaled(avfun, scale), _scaled(avdfun, scale)
     minf = 1e100
     minres = []
     for y0 in Y0:
-        result = scopt.minimize(avfun, y0, method=method, jac=avdfun, options=opts)
+        result = scopt.minimize(fun, y0, method=method, jac=jac, options=opts)
         if not result.success:
             raise Exception('{} failed with message: {}.'.format(method, result.message))
         if result.fun < minf:
             minf = result.fun
             minres = result
-    ystar, fstar = minres.x, minres.fun
+    ystar, fstar = minres.x, minres.fun*scale
     return ystar, fstar
+
+def _scale(avfun, Y0):
+    """Range of a function over the starting points of the optimizers.
+
+    The stopping criteria of the optimizers are absolute, so the function is
+    divided by its range. Otherwise its minimizer would depend on its units.
+    The range of a function that is constant up to rounding is not used.
+    """
+    f = np.array([avfun(y0) for y0 in Y0], dtype=float)
+    scale = float(np.ptp(f))
+    if not 1e-6*np.amax(np.abs(f)) < scale < np.inf:
+        scale = 1.0
+    return scale
+
+def _scaled(fun, scale):
+    """Divide the values of a function, or None, by a constant."""
+    if fun is None:
+        return None
+    return lambda y: fun(y)/scale
-- 
2.43.0


From b07cb43f24d804f3e1d6e3ff445b020537313180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:37 +0000
Subject: [PATCH 22/29] fix: the summary plot cuts off active variables that
 all have the same sign

---
 active_subspaces/utils/plotters.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/active_subspaces/utils/plotters.py b/active_subspaces/utils/plotters.py
index 3edc021..e875655 100644
--- a/active_subspaces/utils/plotters.py
+++ b/active_subspaces/utils/plotters.py
@@ -379,8 +379,9 @@ def sufficient_summary(y, f, out_label=None, opts=None):
         plt.scatter(y1, y2, c=f, s=150.0, vmin=np.min(f), vmax=np.max(f))
         plt.xlabel('Active variable 1')
         plt.ylabel('Active variable 2')
-        ymin = 1.1*np.amin([np.amin(y1), np.amin(y2)])
-        ymax = 1.1*np.amax([np.amax(y1), np.amax(y2)])
+        ymin = np.amin([np.amin(y1), np.amin(y2)])
+        ymax = np.amax([np.amax(y1), np.amax(y2)])
+        ymin, ymax = ymin - 0.1*np.abs(ymin), ymax + 0.1*np.abs(ymax)
         plt.axis([ymin, ymax, ymin, ymax])
         plt.gca().set_aspect('equal')
         plt.grid(True)
-- 
2.43.0


From facd5cf6b9b201c014f66d7d5994fbf6dd139f74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:08 +0000
Subject: [PATCH 23/29] fix: zonotope_2d_plot saves a blank figure where
 showing a figure closes it

---
 active_subspaces/utils/plotters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/active_subspaces/utils/plotters.py b/active_subspaces/utils/plotters.py
index e875655..4123c5f 100644
--- a/active_subspaces/utils/plotters.py
+++ b/active_subspaces/utils/plotters.py
@@ -480,10 +480,10 @@ def zonotope_2d_plot(vertices, design=None, y=None, f=None, out_label=None, opts
     plt.axis([1.1*xmin,1.1*xmax,1.1*xmin,1.1*xmax])
     plt.xlabel('Active variable 1')
     plt.ylabel('Active variable 2')
-    show_plot(plt)
     if opts['savefigs']:
         figname = 'figs/zonotope_2d_' + out_label + opts['figtype']
         plt.savefig(figname, dpi=300, bbox_inches='tight', pad_inches=0.0)
+    show_plot(plt)
 
 def show_plot(plot, opts=None):
     plot.show()
-- 
2.43.0


From ce8b607d78ac906a61d069cbc73420eb155435c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:03 +0000
Subject: [PATCH 24/29] fix: a compute that raises (unknown partition type,
 partition type without bootstrap) leaves new eigenpairs with the old
 partition

---
 active_subspaces/subspaces.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/active_subspaces/subspaces.py b/active_subspaces/subspaces.py
index 002cab3..bcc258c 100644
--- a/active_subspaces/subspaces.py
+++ b/active_subspaces/subspaces.py
@@ -131,8 +131,6 @@ class Subspaces():
             ssmethod = None
             raise Exception('Unrecognized subspace type: {}'.format(sstype))
         
-        self.eigenvals, self.eigenvecs = e, W    
-        
         # Compute bootstrap ranges and partition
         if nboot > 0:
             e_br, sub_br, li_F = _bootstrap_ranges(e, W, X, f, df, weights, ssmethod, nboot)
@@ -142,8 +140,6 @@ class Subspaces():
             
             e_br, sub_br = None, None
             
-        self.e_br, self.sub_br = e_br, sub_br
-        
         # Compute the partition
         if ptype == 'EVG':
             n = eig_partition(e)[0]
@@ -155,6 +151,9 @@ class Subspaces():
         else:
             raise Exception('Unrecognized partition type: {}'.format(ptype))
         
+        # store the results only now, so that a call that raises changes nothing
+        self.eigenvals, self.eigenvecs = e, W
+        self.e_br, self.sub_br = e_br, sub_br
         self.partition(n)
 
 
-- 
2.43.0


From 2404d27a6f856385448c82ca3f76b164200b0074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:14 +0000
Subject: [PATCH 25/29] fix: nzv is off by one for large m (rounding of the
 binomial coefficients)

---
 active_subspaces/domains.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/active_subspaces/domains.py b/active_subspaces/domains.py
index ab4a1a6..4a1e498 100644
--- a/active_subspaces/domains.py
+++ b/active_subspaces/domains.py
@@ -365,7 +365,7 @@ def nzv(m, n):
     # number of zonotope vertices
     N = 0
     for i in range(n):
-        N = N + comb(m-1,i)
+        N = N + comb(m-1, i, exact=True)
     N = 2*N
     return int(N)
 
-- 
2.43.0


From 32e3191df72f3e7f42d550fd90cf024d61fcc58b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:14 +0000
Subject: [PATCH 26/29] fix: unique_rows returns rows twice that differ only in
 the sign of a zero

---
 active_subspaces/domains.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/active_subspaces/domains.py b/active_subspaces/domains.py
index 4a1e498..f8b2cfd 100644
--- a/active_subspaces/domains.py
+++ b/active_subspaces/domains.py
@@ -417,7 +417,8 @@ def unique_rows(S):
     -----
     http://stackoverflow.com/questions/16970982/find-unique-rows-in-numpy-array
     """
-    S = np.ascontiguousarray(S)
+    # rows are compared bit by bit, so turn -0.0 into 0.0
+    S = np.ascontiguousarray(S + np.zeros(1, dtype=S.dtype))
     T = S.view(np.dtype((np.void, S.dtype.itemsize * S.shape[1])))
     return np.unique(T).view(S.dtype).reshape(-1, S.shape[1])
 
-- 
2.43.0


From eb0af71b26d46e034dc91f6606db7d37a30049bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:14 +0000
Subject: [PATCH 27/29] fix: zonotope vertices and interval endpoints when
 inputs do not matter or matter alike (zero or parallel rows of W1)

---
 active_subspaces/domains.py | 56 +++++++++++++++++++++++++++++++++++--
 1 file changed, 53 insertions(+), 3 deletions(-)

diff --git a/active_subspaces/domains.py b/active_subspaces/domains.py
index f8b2cfd..41a4474 100644
--- a/active_subspaces/domains.py
+++ b/active_subspaces/domains.py
@@ -389,13 +389,16 @@ def interval_endpoints(W1):
     """
 
     m = W1.shape[0]
-    y0 = np.dot(W1.T, np.sign(W1))[0]
+    # either sign gives a corner where W1 is zero
+    s = np.sign(W1)
+    s[s==0] = 1
+    y0 = np.dot(W1.T, s)[0]
     if y0 < -y0:
         yl, yu = y0, -y0
-        xl, xu = np.sign(W1), -np.sign(W1)
+        xl, xu = s, -s
     else:
         yl, yu = -y0, y0
-        xl, xu = -np.sign(W1), np.sign(W1)
+        xl, xu = -s, s
     Y = np.array([yl, yu]).reshape((2,1))
     X = np.vstack((xl.reshape((1, m)), xu.reshape((1, m))))
     return Y, X
@@ -422,6 +425,44 @@ def unique_rows(S):
     T = S.view(np.dtype((np.void, S.dtype.itemsize * S.shape[1])))
     return np.unique(T).view(S.dtype).reshape(-1, S.shape[1])
 
+def _distinct_rows(W1, tol=1e-10):
+    """Find the rows of `W1` that are neither zero nor parallel to an earlier row.
+    
+    Parameters
+    ----------
+    W1 : ndarray
+        m-by-n matrix
+    tol : float, optional
+        tolerance for parallel rows (default 1e-10)
+        
+    Returns
+    -------
+    rows : ndarray
+        indices of the distinct rows
+    group : ndarray
+        for each row, the position in `rows` of the row it is parallel to; the
+        length of `rows` for a zero row
+    sgn : ndarray
+        for each row, -1 if it points in the opposite direction and 1 otherwise
+    """
+    m = W1.shape[0]
+    rows, group, sgn = [], -np.ones(m, dtype=int), np.ones(m)
+    norms = np.sqrt(np.sum(W1**2, axis=1))
+    zero = norms == 0
+    for i in range(m):
+        if zero[i]:
+            continue
+        for k, j in enumerate(rows):
+            c = np.sign(np.dot(W1[i,:], W1[j,:]))
+            if np.linalg.norm(W1[i,:]/norms[i] - c*W1[j,:]/norms[j]) <= tol:
+                group[i], sgn[i] = k, c
+                break
+        if group[i] < 0:
+            group[i] = len(rows)
+            rows.append(i)
+    group[zero] = len(rows)
+    return np.array(rows), group, sgn
+
 def zonotope_vertices(W1, Nsamples=10000, maxcount=100000):
     """Compute the vertices of the zonotope.
 
@@ -445,6 +486,15 @@ def zonotope_vertices(W1, Nsamples=10000, maxcount=100000):
     """
 
     m, n = W1.shape
+    
+    # inputs that do not matter (zero rows) or matter alike (parallel rows) add
+    # no vertices: find the vertices for the distinct rows first
+    rows, group, sgn = _distinct_rows(W1)
+    if rows.size < m:
+        X0 = zonotope_vertices(W1[rows,:], Nsamples, maxcount)[1]
+        X = np.hstack((X0, np.ones((X0.shape[0], 1))))[:,group]*sgn
+        return np.dot(X, W1), X
+    
     totalverts = nzv(m,n)
     
     # make sure they're ints
-- 
2.43.0


From cccf18ed92fd5bfd3c96b59f46f5f86cc39718a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:14 +0000
Subject: [PATCH 28/29] fix: maximin designs collapse for polytopes that are
 small or away from the origin

---
 active_subspaces/utils/designs.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/active_subspaces/utils/designs.py b/active_subspaces/utils/designs.py
index fac84ae..1b8e1e2 100644
--- a/active_subspaces/utils/designs.py
+++ b/active_subspaces/utils/designs.py
@@ -59,6 +59,12 @@ def maximin_design(vert, N):
     minimization and use the design with the lowest objective value.
     """
     n = vert.shape[1]
+    
+    # shift and scale the polytope, since the starting points below and the
+    # tolerances of SLSQP are made for a polytope of this size around the origin
+    center = np.mean(vert, axis=0)
+    scale = np.sqrt(np.mean(np.sum((vert - center)**2, axis=1))) / 3.0
+    vert = (vert - center) / scale
     C = ConvexHull(vert)
     A = np.kron(np.eye(N), C.equations[:,:n])
     b = np.kron(np.ones(N), C.equations[:,n])
@@ -87,12 +93,12 @@ def maximin_design(vert, N):
     design = minres.x.reshape((N, n))
 
     # SLSQP meets the constraints up to its tolerance. Points left outside move
-    # back to the polytope along the ray from its center.
-    center = np.mean(vert, axis=0)
-    A, b = C.equations[:,:n], C.equations[:,n]
-    t = np.amax(np.dot(design - center, A.T) / (-b - np.dot(A, center)), axis=1)
+    # back to the polytope along the ray from its center, the origin.
+    t = np.amax(np.dot(design, C.equations[:,:n].T) / -C.equations[:,n], axis=1)
     out = t > 1.0
-    design[out,:] = center + (design[out,:] - center) / t[out].reshape((-1, 1))
+    design[out,:] = design[out,:] / t[out].reshape((-1, 1))
+    
+    design = center + scale*design
     return design
 
 def gauss_hermite_design(N):
-- 
2.43.0


From 4ea4a8315c3125d643263dd2712bd86bb7648189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:18 +0000
Subject: [PATCH 29/29] fix: rows of W1 that are parallel or zero up to
 rounding (finite differences) also stop the vertex search

---
 active_subspaces/domains.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/active_subspaces/domains.py b/active_subspaces/domains.py
index 41a4474..9d60e13 100644
--- a/active_subspaces/domains.py
+++ b/active_subspaces/domains.py
@@ -425,7 +425,7 @@ def unique_rows(S):
     T = S.view(np.dtype((np.void, S.dtype.itemsize * S.shape[1])))
     return np.unique(T).view(S.dtype).reshape(-1, S.shape[1])
 
-def _distinct_rows(W1, tol=1e-10):
+def _distinct_rows(W1, tol=1e-7):
     """Find the rows of `W1` that are neither zero nor parallel to an earlier row.
     
     Parameters
@@ -433,7 +433,7 @@ def _distinct_rows(W1, tol=1e-10):
     W1 : ndarray
         m-by-n matrix
     tol : float, optional
-        tolerance for parallel rows (default 1e-10)
+        tolerance for parallel rows (default 1e-7)
         
     Returns
     -------
@@ -448,7 +448,7 @@ def _distinct_rows(W1, tol=1e-10):
     m = W1.shape[0]
     rows, group, sgn = [], -np.ones(m, dtype=int), np.ones(m)
     norms = np.sqrt(np.sum(W1**2, axis=1))
-    zero = norms == 0
+    zero = norms <= 1e-14*np.amax(norms)
     for i in range(m):
         if zero[i]:
             continue
-- 
2.43.0

