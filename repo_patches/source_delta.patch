From de1bebb2d3e290f18276f01f657e0b897ec48e9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:31 +0000
Subject: [PATCH 01/21] fix: complex projective coordinates ignored the cocycle
 on small inputs

The jitted assembly read the accumulator through its closure, which numba
freezes at compile time (all zeros) for arrays up to 1 MB.
---
 dreimac/complexprojectivecoords.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dreimac/complexprojectivecoords.py b/dreimac/complexprojectivecoords.py
index 936fa83..5a30a78 100644
--- a/dreimac/complexprojectivecoords.py
+++ b/dreimac/complexprojectivecoords.py
@@ -298,7 +298,7 @@ def _sparse_integrate(
                 class_map[b, i] += nu[i, ball_indx[b]]
                 for t in range(n_landmarks):
                     class_map[b, i] += varphi[t, b] * eta[i, ball_indx[b], t]
-        return np.exp(2 * np.pi * 1j * class_map0) * np.sqrt(varphi.T)
+        return np.exp(2 * np.pi * 1j * class_map) * np.sqrt(varphi.T)
 
     return _assemble(
         class_map0,
-- 
2.43.0


From 0bbc908d99babdcec6fb23a31fdc312293250292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:31 +0000
Subject: [PATCH 02/21] fix: LensCoords used np.complex_, which numpy 2 removed

---
 dreimac/lenscoords.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dreimac/lenscoords.py b/dreimac/lenscoords.py
index c8a3736..5f70276 100644
--- a/dreimac/lenscoords.py
+++ b/dreimac/lenscoords.py
@@ -93,7 +93,7 @@ class LensCoords(EMCoords):
 
         root_of_unity = np.exp(2 * np.pi * 1j / self._prime)
 
-        cocycle_matrix = np.ones( (n_landmarks, n_landmarks), np.complex_ )
+        cocycle_matrix = np.ones( (n_landmarks, n_landmarks), complex )
         cocycle_matrix[cocycle[:, 0], cocycle[:, 1]] = root_of_unity ** cocycle[:, 2]
         cocycle_matrix[cocycle[:, 1], cocycle[:, 0]] = (1 / root_of_unity) ** cocycle[:, 2]
 
-- 
2.43.0


From 5410e9cc60a1f083b5100349589d23d602e4a95e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:31 +0000
Subject: [PATCH 03/21] fix: Gram-Schmidt in the lattice reduction projected
 onto the input vectors

For three or more vectors the result was not orthogonal, so the basis returned
by LLL was not guaranteed to be reduced.
---
 dreimac/toroidalcoords.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/dreimac/toroidalcoords.py b/dreimac/toroidalcoords.py
index 77e7438..512ca8a 100644
--- a/dreimac/toroidalcoords.py
+++ b/dreimac/toroidalcoords.py
@@ -390,8 +390,7 @@ def _gram_schmidt(B):
     for i in range(1, n):
         Ai = B[:, i]
         for j in range(0, i):
-            Aj = B[:, j]
-            # t = np.dot(B[i],B[j])
+            Aj = A[:, j]
             Ai = Ai - proj(Aj, Ai)
         A[:, i] = Ai
     return A
-- 
2.43.0


From 6fb5133b269482da51cfb8d167427cdca9d7a516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:31 +0000
Subject: [PATCH 04/21] fix: toroidal coordinates raised when two classes
 needed their integer lift fixed

The truth value of a sparse array with more than one element is an error.
---
 dreimac/toroidalcoords.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/dreimac/toroidalcoords.py b/dreimac/toroidalcoords.py
index 512ca8a..93ff9f5 100644
--- a/dreimac/toroidalcoords.py
+++ b/dreimac/toroidalcoords.py
@@ -136,9 +136,10 @@ class ToroidalCoords(EMCoords):
                 if is_cocycle:
                     fixed_cocycles.append(cocycle_as_vector)
                 else:
-                    delta1 = delta1 or CohomologyUtils.make_delta1_compact(
-                        dist_land_land, rips_threshold, self._cns_lookup_table
-                    )
+                    if delta1 is None:
+                        delta1 = CohomologyUtils.make_delta1_compact(
+                            dist_land_land, rips_threshold, self._cns_lookup_table
+                        )
 
                     d1cocycle = delta1 @ cocycle_as_vector.T
 
-- 
2.43.0


From e5521e40e1dcff6671cb515421d5a2c7f83ffded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:31 +0000
Subject: [PATCH 05/21] fix: the partition of unity was truncated for integer
 distance matrices

---
 dreimac/emcoords.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dreimac/emcoords.py b/dreimac/emcoords.py
index ea480a7..654c5a1 100644
--- a/dreimac/emcoords.py
+++ b/dreimac/emcoords.py
@@ -171,7 +171,7 @@ class EMCoords(object):
         """
         dist_land_data = self._dist_land_data
         U = dist_land_data < r_cover
-        phi = np.zeros_like(dist_land_data)
+        phi = np.zeros_like(dist_land_data, dtype=float)
         phi[U] = partunity_fn(dist_land_data[U], r_cover)
         # Compute the partition of unity
         # varphi_j(b) = phi_j(b)/(phi_1(b) + ... + phi_{n_landmarks}(b))
-- 
2.43.0


From 1b46b48e66185170fd276f33e9e11df39a48cdf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:51 +0000
Subject: [PATCH 06/21] fix: rotmat returned NaN for nearly parallel vectors
 and the identity for opposite ones

1 - lam**2 can round below zero, and cancels badly; its square root is the norm of
the component of a orthogonal to b, which is already at hand.
---
 dreimac/utils.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/dreimac/utils.py b/dreimac/utils.py
index f89a935..1d8b60e 100644
--- a/dreimac/utils.py
+++ b/dreimac/utils.py
@@ -1551,14 +1551,20 @@ class ProjectiveMapUtils:
         b = b / np.sqrt(np.sum(b**2))
 
         c = a - np.sum(b * a) * b
-        # If a numerically coincides with b, don't rotate at all
-        if np.sqrt(np.sum(c**2)) < 1e-15:
-            return np.eye(d)
+        lam = np.sum(b * a)
+        beta = np.sqrt(np.sum(c**2))
+        if beta < 1e-15:
+            # If a numerically coincides with b, don't rotate at all
+            if lam > 0 or d == 1:
+                return np.eye(d)
+            # If a is opposite to b, rotate by pi in any plane containing b
+            c = np.zeros(d)
+            c[np.argmin(np.abs(b))] = 1
 
         # Otherwise, compute rotation matrix
         c = c / np.sqrt(np.sum(c**2))
-        lam = np.sum(b * a)
-        beta = np.sqrt(1 - np.abs(lam) ** 2)
+        c = c - np.sum(b * c) * b
+        c = c / np.sqrt(np.sum(c**2))
         rot = (
             np.eye(d)
             - (1 - lam) * (c[:, None].dot(c[None, :]))
-- 
2.43.0


From 59d001d4ab818128df5f3bcc7c13c9d134e0b7e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:51 +0000
Subject: [PATCH 07/21] fix: lens_3D_to_disk_3D returned NaN for points whose
 second coordinate has modulus 1

The modulus can round to slightly more than 1.
---
 dreimac/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dreimac/utils.py b/dreimac/utils.py
index 1d8b60e..96e4188 100644
--- a/dreimac/utils.py
+++ b/dreimac/utils.py
@@ -1616,7 +1616,7 @@ class LensMapUtils:
             x, y, z = (
                 r * np.cos(phi),
                 r * np.sin(phi),
-                (q / np.pi) * (theta - np.pi / q) * np.sqrt(1 - r**2),
+                (q / np.pi) * (theta - np.pi / q) * np.sqrt(max(0, 1 - r**2)),
             )
             return [x, y, z]
 
-- 
2.43.0


From 00edc7c36f7cfdb92ee84439829012dc7228f5e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:51 +0000
Subject: [PATCH 08/21] fix: moving_dot ignored its dim parameter

---
 dreimac/utils.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/dreimac/utils.py b/dreimac/utils.py
index 96e4188..65c0a7a 100644
--- a/dreimac/utils.py
+++ b/dreimac/utils.py
@@ -874,7 +874,6 @@ class GeometryExamples:
             kernel = np.outer(gauss_x, gauss_y)
             return kernel
 
-        dim = 10
         P = np.zeros((sqrt_num_images**2, dim * dim))
         bound = 15
         xs = bound * np.power(np.linspace(-1, 1, sqrt_num_images), 3)
-- 
2.43.0


From e7aa80c532914c1a9ab40d64346b55498c4a0640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:51 +0000
Subject: [PATCH 09/21] fix: the Moore space distance matrix was not symmetric

---
 dreimac/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dreimac/utils.py b/dreimac/utils.py
index 65c0a7a..33ee1f2 100644
--- a/dreimac/utils.py
+++ b/dreimac/utils.py
@@ -1226,6 +1226,8 @@ class GeometryExamples:
                     )
 
         _fill_dist_mat(X, dist_mat, R, prime)
+        # the path through the boundary depends on the direction in which it is taken
+        dist_mat = np.minimum(dist_mat, dist_mat.T)
         return dist_mat, X
 
 
-- 
2.43.0


From 6f6f42fdd0cb9452cdcfcf22977c2de85f2938b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:20 +0000
Subject: [PATCH 10/21] fix: one uncovered point spoiled the projective and
 lens coordinates of all points

The NaN row of an uncovered point made the eigendecomposition fail, so every
point was projected onto the first few landmarks instead of the principal
components.
---
 dreimac/utils.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/dreimac/utils.py b/dreimac/utils.py
index 33ee1f2..5760087 100644
--- a/dreimac/utils.py
+++ b/dreimac/utils.py
@@ -741,9 +741,14 @@ class EquivariantPCA:
         variance = np.zeros(X.shape[0] - 1)
         n_dim = class_map.shape[1]
 
+        def _without_undefined_points(X):
+            # e.g., points not covered by any landmark, which must not affect the rest
+            return X[:, ~np.isnan(X).any(axis=0)]
+
         def _one_step_linear_reduction(X, dims_to_keep):
             try:
-                _, U = np.linalg.eigh(X.dot(np.conjugate(X).T))
+                Z = _without_undefined_points(X)
+                _, U = np.linalg.eigh(Z.dot(np.conjugate(Z).T))
                 U = np.fliplr(U)
             except:
                 U = np.eye(X.shape[0])
@@ -776,13 +781,14 @@ class EquivariantPCA:
                 if i == n_dim - proj_dim - 1:
                     XRet = X
                 try:
-                    _, U = np.linalg.eigh(X.dot(np.conjugate(X).T))
+                    Z = _without_undefined_points(X)
+                    _, U = np.linalg.eigh(Z.dot(np.conjugate(Z).T))
                     U = np.fliplr(U)
                     # U, _, _ = np.linalg.svd(X)
                 except:
                     U = np.eye(X.shape[0])
                 variance[-i - 1] = np.mean(
-                    (np.pi / 2 - np.real(np.arccos(np.abs(U[:, -1][None, :].dot(X)))))
+                    (np.pi / 2 - np.real(np.arccos(np.abs(U[:, -1][None, :].dot(Z)))))
                     ** 2
                 )
                 Y = (np.conjugate(U).T).dot(X)
-- 
2.43.0


From 5edd7fb43142d6594aa66f9264204b91cf279efe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:20 +0000
Subject: [PATCH 11/21] fix: variance of the last principal component of
 complex data was not conjugated

---
 dreimac/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dreimac/utils.py b/dreimac/utils.py
index 5760087..8abab20 100644
--- a/dreimac/utils.py
+++ b/dreimac/utils.py
@@ -788,7 +788,7 @@ class EquivariantPCA:
                 except:
                     U = np.eye(X.shape[0])
                 variance[-i - 1] = np.mean(
-                    (np.pi / 2 - np.real(np.arccos(np.abs(U[:, -1][None, :].dot(Z)))))
+                    (np.pi / 2 - np.real(np.arccos(np.abs(np.conjugate(U[:, -1])[None, :].dot(Z)))))
                     ** 2
                 )
                 Y = (np.conjugate(U).T).dot(X)
-- 
2.43.0


From 77608fab6998459135b802fbfc05244ecf2c2249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:20 +0000
Subject: [PATCH 12/21] fix: one-by-one dimensionality reduction failed for the
 extreme target dimensions

The other two modes accept a single coordinate (e.g. complex_dim=1 in lens
coordinates) and a target at least as large as the data.
---
 dreimac/utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dreimac/utils.py b/dreimac/utils.py
index 8abab20..c315c60 100644
--- a/dreimac/utils.py
+++ b/dreimac/utils.py
@@ -796,6 +796,9 @@ class EquivariantPCA:
                 Y = Y[0:-1, :]
                 # X = Y / np.sqrt(1 - np.abs(y) ** 2)[None, :]
                 X = Y / np.linalg.norm(Y, axis=0)[None, :]
+            if XRet is None:
+                # the target has a single coordinate, or as many as the data
+                XRet = X if proj_dim == 0 else class_map.T
             if verbose:
                 print("Elapsed time ppca: %.3g" % (time.time() - tic))
 
-- 
2.43.0


From 1beb4656e2c0f24a699ed528d25555c1c598fd01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:20 +0000
Subject: [PATCH 13/21] fix: get_coordinates modified the stored representative
 cocycles

Afterwards get_representative_cocycle returned values outside the finite field.
---
 dreimac/complexprojectivecoords.py | 2 +-
 dreimac/toroidalcoords.py          | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/dreimac/complexprojectivecoords.py b/dreimac/complexprojectivecoords.py
index 5a30a78..1974135 100644
--- a/dreimac/complexprojectivecoords.py
+++ b/dreimac/complexprojectivecoords.py
@@ -105,7 +105,7 @@ class ComplexProjectiveCoords(EMCoords):
 
         # lift to integer cocycles
         integer_cocycle = CohomologyUtils.lift_to_integer_cocycle(
-            cocycle, prime=self._prime
+            cocycle.copy(), prime=self._prime
         )
 
         # go from sparse to dense representation of cocycles
diff --git a/dreimac/toroidalcoords.py b/dreimac/toroidalcoords.py
index 93ff9f5..7edd5d7 100644
--- a/dreimac/toroidalcoords.py
+++ b/dreimac/toroidalcoords.py
@@ -96,7 +96,7 @@ class ToroidalCoords(EMCoords):
 
         # lift to integer cocycles
         integer_cocycles = [
-            CohomologyUtils.lift_to_integer_cocycle(cocycle, prime=self._prime)
+            CohomologyUtils.lift_to_integer_cocycle(cocycle.copy(), prime=self._prime)
             for cocycle in cocycles
         ]
 
-- 
2.43.0


From 12169938f88e05a5fed9db9a1a48a8a750ee477a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:20 +0000
Subject: [PATCH 14/21] fix: landmark_geodesic_distance did not return a
 permutation for repeated points

---
 dreimac/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dreimac/utils.py b/dreimac/utils.py
index c315c60..94a2d99 100644
--- a/dreimac/utils.py
+++ b/dreimac/utils.py
@@ -207,6 +207,7 @@ class GeometryUtils:
         ds = shortest_path(kneighbors_graph, indices=0, directed=False)
         D = np.zeros((n_landmarks, n_points))
         D[0, :] = ds
+        ds[0] = -1  # a point is chosen at most once, also if there are duplicates
         for i in range(1, n_landmarks):
             idx = np.argmax(ds)
             perm[i] = idx
@@ -214,6 +215,7 @@ class GeometryUtils:
             thisds = shortest_path(kneighbors_graph, indices=idx, directed=False)
             D[i, :] = thisds
             ds = np.minimum(ds, thisds)
+            ds[idx] = -1
 
         perm_rest_points = np.setdiff1d(
             np.arange(0, n_points, dtype=int), perm, assume_unique=True
-- 
2.43.0


From 21efae7aa429282dee42621a95d07712b0fac4cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:20 +0000
Subject: [PATCH 15/21] fix: circle_to_3dnorthpole modified its argument

---
 dreimac/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dreimac/utils.py b/dreimac/utils.py
index 94a2d99..0900051 100644
--- a/dreimac/utils.py
+++ b/dreimac/utils.py
@@ -1465,7 +1465,7 @@ class ProjectiveMapUtils:
         """
         magSqr = np.sum(x**2)
         if magSqr > 1:
-            x /= np.sqrt(magSqr)
+            x = x / np.sqrt(magSqr)
             magSqr = 1
         u = np.zeros(3)
         u[0:2] = x
-- 
2.43.0


From 49b8d2d317c5be8349dd391b0483e258d0a50808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:42 +0000
Subject: [PATCH 16/21] fix: correcting the integer lift in complex projective
 coordinates raised NameError

---
 dreimac/complexprojectivecoords.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dreimac/complexprojectivecoords.py b/dreimac/complexprojectivecoords.py
index 1974135..ca142ca 100644
--- a/dreimac/complexprojectivecoords.py
+++ b/dreimac/complexprojectivecoords.py
@@ -1,4 +1,5 @@
 import numpy as np
+import scipy
 from numba import jit
 import scipy.sparse as sparse
 from scipy.sparse.linalg import lsqr
-- 
2.43.0


From 7698e7588e4a3b67c4595b0e103c36d089d46e80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:23 +0000
Subject: [PATCH 17/21] fix: variance of a principal component was NaN for
 points lying on it

---
 dreimac/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dreimac/utils.py b/dreimac/utils.py
index 0900051..ad28e5e 100644
--- a/dreimac/utils.py
+++ b/dreimac/utils.py
@@ -790,7 +790,7 @@ class EquivariantPCA:
                 except:
                     U = np.eye(X.shape[0])
                 variance[-i - 1] = np.mean(
-                    (np.pi / 2 - np.real(np.arccos(np.abs(np.conjugate(U[:, -1])[None, :].dot(Z)))))
+                    (np.pi / 2 - np.arccos(np.minimum(np.abs(np.conjugate(U[:, -1])[None, :].dot(Z)), 1)))
                     ** 2
                 )
                 Y = (np.conjugate(U).T).dot(X)
-- 
2.43.0


From 8b8ccac53952ffab51f681e6cc95649c8f1aae01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:24 +0000
Subject: [PATCH 18/21] fix: error about a missing integral lift named the
 position in the list instead of the class

---
 dreimac/toroidalcoords.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dreimac/toroidalcoords.py b/dreimac/toroidalcoords.py
index 7edd5d7..e97882b 100644
--- a/dreimac/toroidalcoords.py
+++ b/dreimac/toroidalcoords.py
@@ -161,7 +161,7 @@ class ToroidalCoords(EMCoords):
                     if not optimizer_solution["success"]:
                         raise Exception(
                             "The cohomology class at index "
-                            + str(class_idx)
+                            + str(cocycle_idxs[class_idx])
                             + " does not have an integral lift."
                         )
                     else:
-- 
2.43.0


From bb174b2b057310c4d4228f6bcb6e02e1702718e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:43 +0000
Subject: [PATCH 19/21] fix: reported Gram matrix of toroidal coordinates was
 not the one of the coordinates

The reduced basis vectors are the columns, so their inner products are B^T B.
---
 dreimac/toroidalcoords.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dreimac/toroidalcoords.py b/dreimac/toroidalcoords.py
index e97882b..81ddee7 100644
--- a/dreimac/toroidalcoords.py
+++ b/dreimac/toroidalcoords.py
@@ -215,7 +215,7 @@ class ToroidalCoords(EMCoords):
             ) = _reduce_circular_coordinates(circ_coords, gram_mat)
 
             self._original_gram_matrix = gram_mat
-            self._gram_matrix = decorrelated_vectors @ decorrelated_vectors.T
+            self._gram_matrix = decorrelated_vectors.T @ decorrelated_vectors
             self._change_basis = change_basis
 
         return circ_coords
-- 
2.43.0


From 12c94f2df51330e798e5e0f0475a27eb0f9a687b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:34 +0000
Subject: [PATCH 20/21] fix: lens_3D_to_disk_3D was off by one sector for some
 points when q >= 17

(arg_z - theta) / (2 pi / q) is an integer up to rounding; taking the floor
gave the previous one when it rounded down.
---
 dreimac/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dreimac/utils.py b/dreimac/utils.py
index ad28e5e..fc44f12 100644
--- a/dreimac/utils.py
+++ b/dreimac/utils.py
@@ -1620,7 +1620,7 @@ class LensMapUtils:
             arg_z = np.mod(np.angle(p1), 2 * np.pi)
             theta = np.mod(arg_z, 2 * np.pi / q)
 
-            k = np.floor((arg_z - theta) / (2 * np.pi / q))
+            k = np.rint((arg_z - theta) / (2 * np.pi / q))
 
             phi = np.mod(np.angle(p2), 2 * np.pi) - 2 * k * np.pi / q
 
-- 
2.43.0


From 830d8f469e4469b6ddfc5db831005a6db467af95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:50 +0000
Subject: [PATCH 21/21] fix: exponential bump function overflowed for distance
 matrices of small integer types

---
 dreimac/emcoords.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dreimac/emcoords.py b/dreimac/emcoords.py
index 654c5a1..c8349c9 100644
--- a/dreimac/emcoords.py
+++ b/dreimac/emcoords.py
@@ -172,7 +172,7 @@ class EMCoords(object):
         dist_land_data = self._dist_land_data
         U = dist_land_data < r_cover
         phi = np.zeros_like(dist_land_data, dtype=float)
-        phi[U] = partunity_fn(dist_land_data[U], r_cover)
+        phi[U] = partunity_fn(dist_land_data[U].astype(float), r_cover)
         # Compute the partition of unity
         # varphi_j(b) = phi_j(b)/(phi_1(b) + ... + phi_{n_landmarks}(b))
         denom = np.sum(phi, 0)
-- 
2.43.0

