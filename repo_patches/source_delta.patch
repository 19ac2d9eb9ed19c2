From defbf7f80e71a6b2a68dc5c035d11acddb9d5a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:22:54 +0000
Subject: [PATCH 01/20] fix: image_kernel must not overwrite the death of dead
 image bars

When a kernel generator got a new pivot, the death radius of the image
bar on that column was set to the current radius even if that bar was
already dead, which prolonged it. E.g. over Z/5, A=[2,3),[1,3),[1,4),
B=[0,2) and F=[0 2 2] gave the image bar [1,3) instead of [1,2).
---
 src/permaviss/persistence_algebra/image_kernel.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/permaviss/persistence_algebra/image_kernel.py b/src/permaviss/persistence_algebra/image_kernel.py
index 5e27f46..a6bb42d 100644
--- a/src/permaviss/persistence_algebra/image_kernel.py
+++ b/src/permaviss/persistence_algebra/image_kernel.py
@@ -178,7 +178,6 @@ def image_kernel(A, B, F, p, start_index=0, prev_basis=None):
                         pivots_Ker[:col_idx], p)
                     if pivots_Ker[col_idx] != -1:
                         new_pivots.append(pivots_Ker[col_idx])
-                        Im_barcode[pivots_Ker[col_idx], 1] = rad
                         cycle_coord = Ker_coordinates[:, col_idx]
                         new_coord_Im = multiply_mod_p(
                             F[:, active_A],
-- 
2.43.0


From dede27a95b7f23ed80bdcfecbf903e3dfe236f43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:22:54 +0000
Subject: [PATCH 02/20] fix: image_kernel preimages kept stale coordinates

The preimage column was only overwritten on the active rows, so that
coefficients of dead generators were left behind and F * PreIm was no
longer the image generator.
---
 src/permaviss/persistence_algebra/image_kernel.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/permaviss/persistence_algebra/image_kernel.py b/src/permaviss/persistence_algebra/image_kernel.py
index a6bb42d..e58ce9f 100644
--- a/src/permaviss/persistence_algebra/image_kernel.py
+++ b/src/permaviss/persistence_algebra/image_kernel.py
@@ -189,8 +189,9 @@ def image_kernel(A, B, F, p, start_index=0, prev_basis=None):
                                 :, pivots_Ker[col_idx]] = new_coord_Im
                             Im_barcode[pivots_Ker[col_idx], 1] = rad
                             pivots_Im[pivots_Ker[col_idx]] = int(-1)
-                            T[:, pivots_Ker[col_idx]][
-                                active_A] = cycle_coord[active_A]
+                            T[:, pivots_Ker[col_idx]] = 0
+                            T[active_A, pivots_Ker[
+                                col_idx]] = cycle_coord[active_A]
                         # end if else
                     else:
                         Ker_barcode[col_idx, 1] = rad
-- 
2.43.0


From 14fb41c8f29a4c4a801c45a42b80a2de1ea0d7b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:22:54 +0000
Subject: [PATCH 03/20] fix: quotient generators must not contain the submodule
 generators

Only columns that died had the relative generators removed. Columns that
stayed alive kept multiples of generators of the submodule, also of those
born later or already dead, and so were not cycles in
module_persistence_homology.
---
 src/permaviss/persistence_algebra/image_kernel.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/permaviss/persistence_algebra/image_kernel.py b/src/permaviss/persistence_algebra/image_kernel.py
index e58ce9f..6bd2670 100644
--- a/src/permaviss/persistence_algebra/image_kernel.py
+++ b/src/permaviss/persistence_algebra/image_kernel.py
@@ -227,14 +227,15 @@ def image_kernel(A, B, F, p, start_index=0, prev_basis=None):
                         Ker_coordinates[:, kernel_dim] = T[:, col_idx]
                         pivots_Ker[kernel_dim] = int(col_idx)
                         kernel_dim += 1
-                    if start_index > 0:
-                        T[:, col_idx][:start_index] *= 0
-                        Im_coordinates[:, col_idx] = multiply_mod_p(
-                            F, np.transpose([T[:, col_idx]]), p)[:, 0]
                 # end if else
             # end if
         # end for
     # end for
+    # Generators of the submodule are only used to perform the quotient, do
+    # not leave them in the coordinates of the quotient generators.
+    if start_index > 0:
+        T[:start_index, start_index:] = 0
+        Im_coordinates = multiply_mod_p(F, T, p)
     # Kill bars that might be still alive
     for col_idx, piv in enumerate(pivots_Im):
         if piv != -1:
-- 
2.43.0


From 73857871f7dfa2392955fc4ebeb5502876d677ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:22:54 +0000
Subject: [PATCH 04/20] fix: take the quotient by the image when the codomain
 is zero

With Base[d-1] zero, module_persistence_homology returned all of Base[d]
as its homology, ignoring the image of the next differential.
---
 .../persistence_algebra/module_persistence_homology.py      | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/permaviss/persistence_algebra/module_persistence_homology.py b/src/permaviss/persistence_algebra/module_persistence_homology.py
index 8326975..ad9ee1d 100644
--- a/src/permaviss/persistence_algebra/module_persistence_homology.py
+++ b/src/permaviss/persistence_algebra/module_persistence_homology.py
@@ -102,7 +102,11 @@ def module_persistence_homology(D, Base, p):
             Hom[d] = barcode_basis([], Base[d])
         elif Base[d-1].dim == 0:
             Im[d-1] = Base[d-1]
-            Hom[d] = Base[d]
+            # the differential is zero, so all of Base[d] lies in the kernel
+            Ker = barcode_basis(
+                Base[d].barcode, Base[d], np.identity(Base[d].dim))
+            Ker.sort()
+            Hom[d] = quotient(Ker, Im[d], p)
         else:
             # compute barcode bases for image and kernel
             Im[d - 1], Ker, PreIm[d] = image_kernel(
-- 
2.43.0


From 49f01619396f1480e1d462ba21cbbde50920783b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:22:54 +0000
Subject: [PATCH 05/20] fix: keep dimensions aligned when a diagonal is empty

If there were no classes in some dimension, persistent_homology skipped
that entry and the next dimensions were shifted. E.g. the octahedron had
its 2-dimensional class in persistent_homology[1].
---
 src/permaviss/spectral_sequence/MV_spectral_seq.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/permaviss/spectral_sequence/MV_spectral_seq.py b/src/permaviss/spectral_sequence/MV_spectral_seq.py
index 2455bc3..35400b7 100755
--- a/src/permaviss/spectral_sequence/MV_spectral_seq.py
+++ b/src/permaviss/spectral_sequence/MV_spectral_seq.py
@@ -274,7 +274,10 @@ def create_MV_ss(point_cloud, max_r, max_dim, max_div, overlap, p):
             PH, _ = image_kernel(
                 diagonal_basis, direct_sum_basis, diag_diff, MV_ss.p)
             MV_ss.persistent_homology.append(PH)
-        # end if
+        else:
+            # keep the position of each dimension when there are no classes
+            MV_ss.persistent_homology.append(barcode_basis([]))
+        # end if else
     # end for
     print("Total PerMaViss time:{}".format(time.time()-start))
     return MV_ss
-- 
2.43.0


From 8392ae9de1987a18905d8cd4fbfb4f2d5320d324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:22:54 +0000
Subject: [PATCH 06/20] fix: compute vertical lifts on covers without homology
 classes

A cover with trivial homology but nontrivial boundaries was skipped when
lifting the Cech differential, so that the lift was missing and total
complex representatives were wrong.
---
 src/permaviss/spectral_sequence/spectral_sequence_class.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/permaviss/spectral_sequence/spectral_sequence_class.py b/src/permaviss/spectral_sequence/spectral_sequence_class.py
index 1209417..db75ae2 100644
--- a/src/permaviss/spectral_sequence/spectral_sequence_class.py
+++ b/src/permaviss/spectral_sequence/spectral_sequence_class.py
@@ -535,7 +535,8 @@ class spectral_sequence(object):
         prev = self.cycle_dimensions[n_dim][deg][nerve_spx_index-1]
         next = self.cycle_dimensions[n_dim][deg][nerve_spx_index]
         # if trivial cover skip
-        if prev == next:
+        if prev == next and (
+                self.Im[0][n_dim][nerve_spx_index][deg].dim == 0):
             return
         # CECH DIFFERENTIAL
         generators, local_chains = self.cech_diff_local(
-- 
2.43.0


From 342089862bfe3438662b2393f0c43a2274020c38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:22:54 +0000
Subject: [PATCH 07/20] fix: lift_to_page dropped images when there is no
 homology left

If all classes in some position are killed by a differential, chains can
still be nonzero multiples of the image. These coefficients were lost and
compute_higher_representatives raised a ValueError.
---
 .../spectral_sequence/spectral_sequence_class.py          | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/permaviss/spectral_sequence/spectral_sequence_class.py b/src/permaviss/spectral_sequence/spectral_sequence_class.py
index db75ae2..5132393 100644
--- a/src/permaviss/spectral_sequence/spectral_sequence_class.py
+++ b/src/permaviss/spectral_sequence/spectral_sequence_class.py
@@ -385,6 +385,9 @@ class spectral_sequence(object):
                 else:
                     Im_Hom = Hom.coordinates
                     barcode_col = Hom.barcode
+            elif Im.dim > 0:
+                Im_Hom = Im.coordinates
+                barcode_col = Im.barcode
             else:
                 Betas = np.array([])
                 Gammas = np.array([])
@@ -395,7 +398,10 @@ class spectral_sequence(object):
             barcode_col = np.append(barcode_col, Beta_barcode, axis=0)
             A = np.append(Im_Hom, Betas, axis=1)
             # barcodes of rows
-            barcode_row = self.Hom[k][n_dim][deg].prev_basis.barcode
+            if Hom.dim > 0:
+                barcode_row = Hom.prev_basis.barcode
+            else:
+                barcode_row = Im.prev_basis.barcode
             # gaussian reduction on matrix between persistence modules
             # order here barcode_row
             rows_basis = barcode_basis(barcode_row)
-- 
2.43.0


From dbc37c0b6dc715f94bd46f204fd5ce6e142b4928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:22:54 +0000
Subject: [PATCH 08/20] fix: sort barcodes by their exact endpoints

Endpoints were rounded to 7 decimals before sorting, so bars with almost
equal births could come in the wrong order and a class was reduced with a
later one. Regular polygons made create_MV_ss raise a RuntimeError or
return wrong bars, and so did data of a scale close to 1e-7.
---
 src/permaviss/persistence_algebra/barcode_bases.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/permaviss/persistence_algebra/barcode_bases.py b/src/permaviss/persistence_algebra/barcode_bases.py
index 65ebb7a..e9ad4b3 100644
--- a/src/permaviss/persistence_algebra/barcode_bases.py
+++ b/src/permaviss/persistence_algebra/barcode_bases.py
@@ -173,16 +173,16 @@ class barcode_basis(object):
 
         return ""
 
-    def sort(self, precision=7, send_order=False):
+    def sort(self, precision=None, send_order=False):
         """Sorts a barcode basis according to the standard barcode order.
 
         That is, from smaller birth radius to bigger, and from
         bigger death radius to smaller. A precision up to n zeros is an
-        optional argument.
+        optional argument, by default the endpoints are compared exactly.
 
         Parameters
         ----------
-        precision : int, default is 7
+        precision : int or None, default is None
             Number of zeros of precision.
         send_order : bool, default is False
             Whether we want to generate a :obj:`Numpy Array` storing
@@ -218,7 +218,9 @@ class barcode_basis(object):
 
         """
 
-        aux_bars = np.around(self.barcode, decimals=precision)
+        aux_bars = self.barcode
+        if precision is not None:
+            aux_bars = np.around(self.barcode, decimals=precision)
         order = np.lexsort((-aux_bars[:, 1], aux_bars[:, 0]))
         if self.prev_basis is not None:
             self.coordinates = self.coordinates[:, order]
-- 
2.43.0


From 15ef508722dd10b12f26209ab8cb4238bfb883d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:22:54 +0000
Subject: [PATCH 09/20] fix: inv_mod_p raised a ValueError on negative integers

E.g. inv_mod_p(-1, 5) claimed that 5 is not a prime number.
---
 src/permaviss/gauss_mod_p/arithmetic_mod_p.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/permaviss/gauss_mod_p/arithmetic_mod_p.py b/src/permaviss/gauss_mod_p/arithmetic_mod_p.py
index 9492425..b66f23a 100644
--- a/src/permaviss/gauss_mod_p/arithmetic_mod_p.py
+++ b/src/permaviss/gauss_mod_p/arithmetic_mod_p.py
@@ -71,6 +71,8 @@ def inv_mod_p(a, p):
         print("cannot invert 0!")
         raise ValueError
 
+    # work with the representative of a in 1, ..., p - 1
+    a = a % p
     x0, x1 = 0, 1
     y0, y1 = 1, 0
     b = p
-- 
2.43.0


From dc9464824b4f048f6239b31aef5b347012150b13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:22:54 +0000
Subject: [PATCH 10/20] fix: gauss_col must work on the residues of the given
 entries

Nonzero multiples of p were taken as pivots and raised a ValueError, so
that solve_mod_p reported solvable equations as not having a solution.
---
 src/permaviss/gauss_mod_p/gauss_mod_p.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/permaviss/gauss_mod_p/gauss_mod_p.py b/src/permaviss/gauss_mod_p/gauss_mod_p.py
index 600977c..97e069e 100644
--- a/src/permaviss/gauss_mod_p/gauss_mod_p.py
+++ b/src/permaviss/gauss_mod_p/gauss_mod_p.py
@@ -65,7 +65,7 @@ def gauss_col(A, p):
     N = np.size(A, 1)
     # copy of matrix to be reduced
     # The matrix is transposed for more computational efficiency
-    R = np.copy(np.transpose(A))
+    R = np.copy(np.transpose(A)) % p
     T = np.identity(N)
     # iterate over all columns
     for j in range(N):
-- 
2.43.0


From 394bf6b254758cbdf1cab952e4147857e33a9540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:22:54 +0000
Subject: [PATCH 11/20] fix: image_kernel hit the recursion limit for large
 primes

Columns were reduced by adding the pivot column up to p - 1 times, with a
recursive call each. Subtract the right multiple at once and iterate, e.g.
p=1009 raised a RecursionError already for F=[1 1].
---
 .../persistence_algebra/image_kernel.py       | 27 +++++++++----------
 1 file changed, 12 insertions(+), 15 deletions(-)

diff --git a/src/permaviss/persistence_algebra/image_kernel.py b/src/permaviss/persistence_algebra/image_kernel.py
index 6bd2670..80045c7 100644
--- a/src/permaviss/persistence_algebra/image_kernel.py
+++ b/src/permaviss/persistence_algebra/image_kernel.py
@@ -272,21 +272,18 @@ def image_kernel(A, B, F, p, start_index=0, prev_basis=None):
 
 def pivot_check_reduce(M, active_rows, col_idx, pivots_prev, p, T=None):
     new_pivot = index_pivot(M[active_rows, col_idx] % p)
-    if new_pivot != -1:
+    while new_pivot != -1:
         new_pivot = int(active_rows[new_pivot])
-        if (new_pivot != -1) and (new_pivot in pivots_prev):
-            prev_idx = list(pivots_prev).index(new_pivot)
-            M[:, col_idx] = add_mod_c(
-                inv_mod_p(M[new_pivot, prev_idx], p) * M[:, prev_idx],
-                M[:, col_idx], p)
-            if np.any(T):
-                T[:, col_idx] = add_mod_c(
-                    inv_mod_p(M[new_pivot, prev_idx], p) * T[:, prev_idx],
-                    T[:, col_idx], p)
-            # end if not None
-            new_pivot = pivot_check_reduce(
-                M, active_rows, col_idx, pivots_prev, p, T)
-        # end if
-    # end if
+        if new_pivot not in pivots_prev:
+            break
+        prev_idx = list(pivots_prev).index(new_pivot)
+        # multiple of the previous column that cancels the pivot
+        q = -M[new_pivot, col_idx] * inv_mod_p(M[new_pivot, prev_idx], p) % p
+        M[:, col_idx] = add_mod_c(q * M[:, prev_idx], M[:, col_idx], p)
+        if np.any(T):
+            T[:, col_idx] = add_mod_c(q * T[:, prev_idx], T[:, col_idx], p)
+        # end if not None
+        new_pivot = index_pivot(M[active_rows, col_idx] % p)
+    # end while
     return int(new_pivot)
 # end def
-- 
2.43.0


From b180714cb19b0bd14e61acdc6dfd7e13c99a734f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:22:54 +0000
Subject: [PATCH 12/20] fix: cover point clouds with no extent along some
 dimension

A point cloud contained in a coordinate hyperplane got no hypercubes at
all, losing every point, and coinciding points raised a ValueError.
---
 src/permaviss/covers/cubical_cover.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/permaviss/covers/cubical_cover.py b/src/permaviss/covers/cubical_cover.py
index 159c4ae..ab1f6db 100755
--- a/src/permaviss/covers/cubical_cover.py
+++ b/src/permaviss/covers/cubical_cover.py
@@ -120,11 +120,15 @@ def generate_cover(max_div, overlap, point_cloud):
     # Find the largest coordinate difference between min_corner and max_corner
     max_length = np.amax(np.absolute(max_corner - min_corner))
     side = max_length / max_div  # side of division hypercubes
+    if side == 0:
+        side = 1.  # all points coincide, a single hypercube is enough
     number_hypercubes = 1
     div = []  # list containing no of divisions per dimension
     pos = []  # list containing current position
     for d in range(dim):
-        div.append(math.ceil((max_corner[d] - min_corner[d]) / side))
+        # at least one division, also when there is no extent along d
+        div.append(max(
+            1, math.ceil((max_corner[d] - min_corner[d]) / side)))
         number_hypercubes *= div[d]  # compute total number of hypercubes
         pos.append(0)  # initialize position list to zero
 
-- 
2.43.0


From e0be7debfa045ddf46c92d6243dcebc06b12967a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:22:54 +0000
Subject: [PATCH 13/20] fix: hypercube corners of integer point clouds were
 truncated

The corners were stored as integers if the coordinates were integers, so
that points were missing from the hypercubes.
---
 src/permaviss/covers/cubical_cover.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/permaviss/covers/cubical_cover.py b/src/permaviss/covers/cubical_cover.py
index ab1f6db..f37e26e 100755
--- a/src/permaviss/covers/cubical_cover.py
+++ b/src/permaviss/covers/cubical_cover.py
@@ -147,9 +147,9 @@ def generate_cover(max_div, overlap, point_cloud):
 
     for i in range(number_hypercubes):
         # Find two corners and center point of small hypercube
-        lcor = np.copy(min_corner)      # lower corner
-        ucor = np.copy(min_corner)      # upper corner
-        center = np.copy(min_corner)    # center point
+        lcor = np.array(min_corner, dtype=float)  # lower corner
+        ucor = np.array(min_corner, dtype=float)  # upper corner
+        center = np.array(min_corner, dtype=float)  # center point
         for d in range(dim):
             lcor[d] += side * pos[d]
             ucor[d] += side * pos[d]
-- 
2.43.0


From cd6f85be1175af41afa5945c99b19ae844f6d865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:22:54 +0000
Subject: [PATCH 14/20] fix: random_sphere ignored the given radius

Points were always normalised to the unit sphere.
---
 src/permaviss/sample_point_clouds/examples.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/permaviss/sample_point_clouds/examples.py b/src/permaviss/sample_point_clouds/examples.py
index 9c8265f..46169a8 100755
--- a/src/permaviss/sample_point_clouds/examples.py
+++ b/src/permaviss/sample_point_clouds/examples.py
@@ -167,7 +167,7 @@ def random_sphere(no_points, radius, dim):
         v = np.array(point)
         norm = np.linalg.norm(v)
         for d in range(dim):
-            point[d] = point[d] / norm
+            point[d] = radius * point[d] / norm
 
         point_cloud.append(point)
 
-- 
2.43.0


From 5eb1a5d63e31275649777376cd4de89c25b1350f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:03:35 +0000
Subject: [PATCH 15/20] fix: image_kernel did not end on some broken bases

When a generator of a broken basis dies, the coordinates of the columns
change and so do their pivots; only some of the pivots were updated, so that
the reduction could go on forever.
---
 src/permaviss/persistence_algebra/image_kernel.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/permaviss/persistence_algebra/image_kernel.py b/src/permaviss/persistence_algebra/image_kernel.py
index 80045c7..eeef3d2 100644
--- a/src/permaviss/persistence_algebra/image_kernel.py
+++ b/src/permaviss/persistence_algebra/image_kernel.py
@@ -211,7 +211,10 @@ def image_kernel(A, B, F, p, start_index=0, prev_basis=None):
         # end if else
         new_pivots = []
         for col_idx, piv in enumerate(np.copy(pivots_Im)):
-            if (piv >= 0 and Im_coordinates[piv, col_idx] % p == 0) or (
+            # coordinates in a broken basis change when generators die, which
+            # might move the pivots of all the columns
+            if (piv >= 0 and (B.broken_basis or Im_coordinates[
+                    piv, col_idx] % p == 0)) or (
                     piv in dying_B) or (piv in new_pivots) or (col_idx in birth_A):
                 pivots_Im[col_idx] = pivot_check_reduce(
                     Im_coordinates, active_B, col_idx, pivots_Im[:col_idx],
-- 
2.43.0


From 97eb4755c49e4e329938b90fa68da82f53c32ff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:23:46 +0000
Subject: [PATCH 16/20] fix: extension subtracted homologous chains in place of
 boundaries

---
 .../spectral_sequence_class.py                | 36 ++++++++++---------
 1 file changed, 19 insertions(+), 17 deletions(-)

diff --git a/src/permaviss/spectral_sequence/spectral_sequence_class.py b/src/permaviss/spectral_sequence/spectral_sequence_class.py
index 5132393..61e2631 100644
--- a/src/permaviss/spectral_sequence/spectral_sequence_class.py
+++ b/src/permaviss/spectral_sequence/spectral_sequence_class.py
@@ -1131,35 +1131,37 @@ class spectral_sequence(object):
                     raise(RuntimeError)
                 # MODIFY TOTAL COMPLEX REPS using GAMMAS
                 if np.any(Gammas):
-                    # compute coefficients of Gammas in 1st page
-                    image_classes = np.matmul(
-                        self.Im[target_page-1][Sn_dim][Sdeg].coordinates,
-                        -Gammas.T)
-                    # look for bars that might be already zero
+                    # add total complex boundaries of preimages, so that the
+                    # modified chains are still part of a total cycle
+                    Tn_dim = Sn_dim + target_page - 1
+                    Tdeg = Sdeg - target_page + 2
+                    preimage_coefficients = np.matmul(
+                        self.PreIm[target_page - 1][Tn_dim][Tdeg], -Gammas.T
+                    ) % self.p
                     if target_page == 2:
-                        # obtain coefficients for gammas
-                        image_chains = local_chains(
-                            self.nerve_spx_number[Sn_dim])
+                        # preimages are given in terms of local coordinates
+                        preimage_chains = local_chains(
+                            self.nerve_spx_number[Tn_dim])
                         prev = 0
                         for nerv_idx, next in enumerate(self.cycle_dimensions[
-                                Sn_dim][Sdeg]):
+                                Tn_dim][Tdeg][:-1]):
                             if prev < next:
-                                image_chains.add_entry(
+                                preimage_chains.add_entry(
                                     nerv_idx, range(np.size(Gammas, 0)),
                                     np.matmul(
-                                        image_classes[prev:next].T,
-                                        self.Hom[0][Sn_dim][nerv_idx][
-                                            Sdeg].coordinates.T)
+                                        preimage_coefficients[prev:next].T,
+                                        self.Hom[0][Tn_dim][nerv_idx][
+                                            Tdeg].coordinates.T)
                                 )
                             prev = next
                         # end for
                     else:
-                        image_chains = local_chains.sums(
-                            self.Hom_reps[target_page-2][Sn_dim][Sdeg][0],
-                            image_classes.T
+                        preimage_chains = local_chains.sums(
+                            self.Hom_reps[target_page-2][Tn_dim][Tdeg][-1],
+                            preimage_coefficients.T
                         )
                     # end else
-                    chains += image_chains
+                    chains += self.cech_diff(Sn_dim, Sdeg, preimage_chains)
                 # end if
             # end for
             # lift to first page
-- 
2.43.0


From 3c43e98953c96a656760156cfebb8b812e9ed53a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:41:31 +0000
Subject: [PATCH 17/20] fix: persistent_homology refused complexes with
 simplices entering at max_rad

---
 src/permaviss/persistence_algebra/PH_classic.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/permaviss/persistence_algebra/PH_classic.py b/src/permaviss/persistence_algebra/PH_classic.py
index eb11f35..b7d9cb9 100644
--- a/src/permaviss/persistence_algebra/PH_classic.py
+++ b/src/permaviss/persistence_algebra/PH_classic.py
@@ -248,6 +248,10 @@ def persistent_homology(D, R, max_rad, p):
         basis = barcode_basis(barcode_simplices)
         if d == 0:
             basis.dim = D[0]
+        else:
+            # coordinates are indexed by all simplices, also by the ones that
+            # enter at max_rad
+            basis.dim = len(R[d])
         # end if
         if np.size(Hom_bars[d], 0) > 0:
             Hom.append(barcode_basis(Hom_bars[d], basis, Hom_coord[d]))
-- 
2.43.0


From 4e94d65bea7cc22a40b463fdc9efc510ef4777fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:34 +0000
Subject: [PATCH 18/20] fix: quotient generators that had been reduced did not
 vanish at the end of their bar

---
 src/permaviss/persistence_algebra/image_kernel.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/permaviss/persistence_algebra/image_kernel.py b/src/permaviss/persistence_algebra/image_kernel.py
index eeef3d2..58a0d9e 100644
--- a/src/permaviss/persistence_algebra/image_kernel.py
+++ b/src/permaviss/persistence_algebra/image_kernel.py
@@ -198,7 +198,7 @@ def image_kernel(A, B, F, p, start_index=0, prev_basis=None):
                     # end if else
                 # end if
             # end for
-        else:
+        elif B.broken_basis:
             for col_idx in dying_A:
                 if (col_idx >= start_index) and (pivots_Im[col_idx] != -1):
                     Im_barcode[col_idx, 1] = rad
@@ -206,8 +206,7 @@ def image_kernel(A, B, F, p, start_index=0, prev_basis=None):
                 # end if
             # end for
             # update broken barcodes
-            if B.broken_basis:
-                Im_coordinates = B.update_broken(Im_coordinates, rad, p)
+            Im_coordinates = B.update_broken(Im_coordinates, rad, p)
         # end if else
         new_pivots = []
         for col_idx, piv in enumerate(np.copy(pivots_Im)):
-- 
2.43.0


From a78a2554036fd896df889e4d43facc3a9f330e7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:34 +0000
Subject: [PATCH 19/20] fix: representatives lifted from later pages used the
 wrong page and sums

---
 src/permaviss/spectral_sequence/spectral_sequence_class.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/permaviss/spectral_sequence/spectral_sequence_class.py b/src/permaviss/spectral_sequence/spectral_sequence_class.py
index 61e2631..fa4701e 100644
--- a/src/permaviss/spectral_sequence/spectral_sequence_class.py
+++ b/src/permaviss/spectral_sequence/spectral_sequence_class.py
@@ -1017,9 +1017,10 @@ class spectral_sequence(object):
                     prev = next
                 # end for
             elif np.any(Gammas):
-                for chains in self.Hom_reps[target_page][Tn_dim][Tdeg]:
+                # preimages are given in terms of page target_page - 1 classes
+                for chains in self.Hom_reps[target_page - 2][Tn_dim][Tdeg]:
                     preimage_reps.append(local_chains.sums(
-                        chains, preimage_coefficients))
+                        chains, preimage_coefficients.T % self.p))
                 # add preimage reps to current tot_complex reps
                 for idx, chains in enumerate(preimage_reps):
                     total_complex_reps[
-- 
2.43.0


From 3693c3d78ff55b3a619908e6a6eec4a57735cb86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:13:01 +0000
Subject: [PATCH 20/20] fix: chains grew beyond exact arithmetic for large
 primes

Products of coordinates were carried unreduced from page to page, so that
already for p = 65537 they left the range where floats are exact and
create_MV_ss raised ValueError or RuntimeError.
---
 .../spectral_sequence/local_chains_class.py          |  3 ++-
 .../spectral_sequence/spectral_sequence_class.py     | 12 ++++++------
 2 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/permaviss/spectral_sequence/local_chains_class.py b/src/permaviss/spectral_sequence/local_chains_class.py
index 44faadc..ed2111b 100644
--- a/src/permaviss/spectral_sequence/local_chains_class.py
+++ b/src/permaviss/spectral_sequence/local_chains_class.py
@@ -170,7 +170,8 @@ class local_chains(object):
             if len(ref) > 0:
                 new_ref.append(np.array(range(no_sums)).astype(int))
                 new_coord.append(np.matmul(
-                    chains.coord[local_idx].T, (coord_sums.T)[ref]).T)
+                    chains.coord[local_idx].T, (coord_sums.T)[ref]).T
+                    % local_chains.p)
             else:
                 new_ref.append([])
                 new_coord.append([])
diff --git a/src/permaviss/spectral_sequence/spectral_sequence_class.py b/src/permaviss/spectral_sequence/spectral_sequence_class.py
index fa4701e..dec8cbb 100644
--- a/src/permaviss/spectral_sequence/spectral_sequence_class.py
+++ b/src/permaviss/spectral_sequence/spectral_sequence_class.py
@@ -837,7 +837,7 @@ class spectral_sequence(object):
                 lift_chains.add_entry(
                     nerve_spx_index, start_chains.ref[nerve_spx_index],
                     (np.matmul(self.PreIm[
-                        0][n_dim][nerve_spx_index][deg+1], gammas)).T)
+                        0][n_dim][nerve_spx_index][deg+1], gammas)).T % self.p)
             # end if
             prev = next
         # end for
@@ -926,7 +926,7 @@ class spectral_sequence(object):
                     nerv_idx, range(self.Hom[1][n_dim][deg].dim),
                     np.matmul(self.Hom[0][n_dim][
                         nerv_idx][deg].coordinates, coordinates_hom[prev:next]
-                        ).T)
+                        ).T % self.p)
             # end if
             prev = next
         # end for
@@ -996,7 +996,7 @@ class spectral_sequence(object):
             # obtain preimage_coefficients from expressions in -Gammas
             preimage_coefficients = np.matmul(
                 self.PreIm[target_page - 1][Tn_dim][Tdeg], -Gammas.T
-            )
+            ) % self.p
             # case of target_page is special due to local coordinates
             if np.any(Gammas) and target_page == 2:
                 prev = 0
@@ -1005,7 +1005,7 @@ class spectral_sequence(object):
                     if prev < next:
                         local_preimage = (np.matmul(
                             self.Hom[0][Sn_dim + 1][spx_idx][Sdeg].coordinates,
-                            preimage_coefficients[prev:next])).T
+                            preimage_coefficients[prev:next])).T % self.p
                         # if non empby, add
                         if len(total_complex_reps[-1].ref[spx_idx]) > 0:
                             total_complex_reps[-1].coord[
@@ -1020,7 +1020,7 @@ class spectral_sequence(object):
                 # preimages are given in terms of page target_page - 1 classes
                 for chains in self.Hom_reps[target_page - 2][Tn_dim][Tdeg]:
                     preimage_reps.append(local_chains.sums(
-                        chains, preimage_coefficients.T % self.p))
+                        chains, preimage_coefficients.T))
                 # add preimage reps to current tot_complex reps
                 for idx, chains in enumerate(preimage_reps):
                     total_complex_reps[
@@ -1152,7 +1152,7 @@ class spectral_sequence(object):
                                     np.matmul(
                                         preimage_coefficients[prev:next].T,
                                         self.Hom[0][Tn_dim][nerv_idx][
-                                            Tdeg].coordinates.T)
+                                            Tdeg].coordinates.T) % self.p
                                 )
                             prev = next
                         # end for
-- 
2.43.0

