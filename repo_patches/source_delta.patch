From 7b665708b3a569be9c78c002e1e2f1515cfa86cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:30 +0000
Subject: [PATCH 01/17] fix: do not move the death of an image bar that is
 already dead

When the pivot of a kernel generator moved, image_kernel overwrote the death
radius of the corresponding image bar even if that bar had died before.
---
 src/permaviss/persistence_algebra/image_kernel.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/permaviss/persistence_algebra/image_kernel.py b/src/permaviss/persistence_algebra/image_kernel.py
index 5e27f46..a6bb42d 100644
--- a/src/permaviss/persistence_algebra/image_kernel.py
+++ b/src/permaviss/persistence_algebra/image_kernel.py
@@ -178,7 +178,6 @@ def image_kernel(A, B, F, p, start_index=0, prev_basis=None):
                         pivots_Ker[:col_idx], p)
                     if pivots_Ker[col_idx] != -1:
                         new_pivots.append(pivots_Ker[col_idx])
-                        Im_barcode[pivots_Ker[col_idx], 1] = rad
                         cycle_coord = Ker_coordinates[:, col_idx]
                         new_coord_Im = multiply_mod_p(
                             F[:, active_A],
-- 
2.43.0


From 48f7571c29593299c6795ce0722c94fa3b082551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:30 +0000
Subject: [PATCH 02/17] fix: clear stale entries of the preimage when a kernel
 cycle replaces it

image_kernel only overwrote the active entries, so PreIm did not generate the
corresponding image bar.
---
 src/permaviss/persistence_algebra/image_kernel.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/permaviss/persistence_algebra/image_kernel.py b/src/permaviss/persistence_algebra/image_kernel.py
index a6bb42d..6b7e022 100644
--- a/src/permaviss/persistence_algebra/image_kernel.py
+++ b/src/permaviss/persistence_algebra/image_kernel.py
@@ -189,6 +189,7 @@ def image_kernel(A, B, F, p, start_index=0, prev_basis=None):
                                 :, pivots_Ker[col_idx]] = new_coord_Im
                             Im_barcode[pivots_Ker[col_idx], 1] = rad
                             pivots_Im[pivots_Ker[col_idx]] = int(-1)
+                            T[:, pivots_Ker[col_idx]] = 0
                             T[:, pivots_Ker[col_idx]][
                                 active_A] = cycle_coord[active_A]
                         # end if else
-- 
2.43.0


From c2e6fb5167b0bddad51588b74a21f6122ba801af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:30 +0000
Subject: [PATCH 03/17] fix: representatives of relative image bars dying with
 their generator

When a generator of the domain dies, the relative image bar that dies with it
was represented by the partially reduced column. This might involve relative
generators that are not born yet, or be still alive.
---
 src/permaviss/persistence_algebra/image_kernel.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/permaviss/persistence_algebra/image_kernel.py b/src/permaviss/persistence_algebra/image_kernel.py
index 6b7e022..d46d091 100644
--- a/src/permaviss/persistence_algebra/image_kernel.py
+++ b/src/permaviss/persistence_algebra/image_kernel.py
@@ -203,6 +203,15 @@ def image_kernel(A, B, F, p, start_index=0, prev_basis=None):
                 if (col_idx >= start_index) and (pivots_Im[col_idx] != -1):
                     Im_barcode[col_idx, 1] = rad
                     pivots_Im[col_idx] = int(-1)
+                    if start_index > 0:
+                        T[:start_index, col_idx] = 0
+                        Im_coordinates[:, col_idx] = multiply_mod_p(
+                            F, np.transpose([T[:, col_idx]]), p)[:, 0]
+                        # if this is still alive, the generator of A that
+                        # vanishes at rad represents the bar instead
+                        if np.any(Im_coordinates[active_B, col_idx]):
+                            T[:, col_idx] = np.identity(A.dim)[:, col_idx]
+                            Im_coordinates[:, col_idx] = F[:, col_idx] % p
                 # end if
             # end for
             # update broken barcodes
-- 
2.43.0


From cc41456e5fd48667db2eb4d1c491d6239b9487aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:30 +0000
Subject: [PATCH 04/17] fix: cancel a pivot with a single column addition in
 image_kernel

pivot_check_reduce recursed up to p - 1 times for each pivot, so that
image_kernel raised RecursionError for large primes.
---
 src/permaviss/persistence_algebra/image_kernel.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/permaviss/persistence_algebra/image_kernel.py b/src/permaviss/persistence_algebra/image_kernel.py
index d46d091..38ab2bf 100644
--- a/src/permaviss/persistence_algebra/image_kernel.py
+++ b/src/permaviss/persistence_algebra/image_kernel.py
@@ -284,13 +284,14 @@ def pivot_check_reduce(M, active_rows, col_idx, pivots_prev, p, T=None):
         new_pivot = int(active_rows[new_pivot])
         if (new_pivot != -1) and (new_pivot in pivots_prev):
             prev_idx = list(pivots_prev).index(new_pivot)
+            # coefficient that cancels the pivot in a single addition
+            coef = (-M[new_pivot, col_idx] * inv_mod_p(
+                M[new_pivot, prev_idx] % p, p)) % p
             M[:, col_idx] = add_mod_c(
-                inv_mod_p(M[new_pivot, prev_idx], p) * M[:, prev_idx],
-                M[:, col_idx], p)
+                coef * M[:, prev_idx], M[:, col_idx], p)
             if np.any(T):
                 T[:, col_idx] = add_mod_c(
-                    inv_mod_p(M[new_pivot, prev_idx], p) * T[:, prev_idx],
-                    T[:, col_idx], p)
+                    coef * T[:, prev_idx], T[:, col_idx], p)
             # end if not None
             new_pivot = pivot_check_reduce(
                 M, active_rows, col_idx, pivots_prev, p, T)
-- 
2.43.0


From dd31f5fddae6ad04a437ee05858867554784858a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:30 +0000
Subject: [PATCH 05/17] fix: recompute pivots that broken differentials have
 moved

Updating by broken differentials might create a new pivot even when the entry
at the old one does not vanish. Using the old pivot led to RecursionError.
---
 src/permaviss/persistence_algebra/image_kernel.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/permaviss/persistence_algebra/image_kernel.py b/src/permaviss/persistence_algebra/image_kernel.py
index 38ab2bf..be3498a 100644
--- a/src/permaviss/persistence_algebra/image_kernel.py
+++ b/src/permaviss/persistence_algebra/image_kernel.py
@@ -220,8 +220,11 @@ def image_kernel(A, B, F, p, start_index=0, prev_basis=None):
         # end if else
         new_pivots = []
         for col_idx, piv in enumerate(np.copy(pivots_Im)):
-            if (piv >= 0 and Im_coordinates[piv, col_idx] % p == 0) or (
-                    piv in dying_B) or (piv in new_pivots) or (col_idx in birth_A):
+            # broken differentials might have moved the pivot
+            top = index_pivot(Im_coordinates[active_B, col_idx] % p)
+            moved = piv >= 0 and (top == -1 or active_B[top] != piv)
+            if moved or (piv in dying_B) or (piv in new_pivots) or (
+                    col_idx in birth_A):
                 pivots_Im[col_idx] = pivot_check_reduce(
                     Im_coordinates, active_B, col_idx, pivots_Im[:col_idx],
                     p, T)
-- 
2.43.0


From c9b444cfd36d29da6c5a1e954d6d4f0f31de6241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:30 +0000
Subject: [PATCH 06/17] fix: quotient by the image when the next module of the
 chain is trivial

module_persistence_homology returned the whole module, without coordinates,
instead of its quotient by the image of the previous differential.
---
 .../persistence_algebra/module_persistence_homology.py      | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/permaviss/persistence_algebra/module_persistence_homology.py b/src/permaviss/persistence_algebra/module_persistence_homology.py
index 8326975..b7eca08 100644
--- a/src/permaviss/persistence_algebra/module_persistence_homology.py
+++ b/src/permaviss/persistence_algebra/module_persistence_homology.py
@@ -102,7 +102,11 @@ def module_persistence_homology(D, Base, p):
             Hom[d] = barcode_basis([], Base[d])
         elif Base[d-1].dim == 0:
             Im[d-1] = Base[d-1]
-            Hom[d] = Base[d]
+            # All the generators from Base[d] lie in the kernel
+            Ker = barcode_basis(
+                Base[d].barcode, Base[d], np.identity(Base[d].dim))
+            Ker.sort()
+            Hom[d] = quotient(Ker, Im[d], p)
         else:
             # compute barcode bases for image and kernel
             Im[d - 1], Ker, PreIm[d] = image_kernel(
-- 
2.43.0


From 14fb61656114775d303a7a36954bf3e6ab3e1e84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:30 +0000
Subject: [PATCH 07/17] fix: cover point clouds which are flat along some
 coordinate

The number of divisions was zero, so there were no hypercubes at all.
---
 src/permaviss/covers/cubical_cover.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/permaviss/covers/cubical_cover.py b/src/permaviss/covers/cubical_cover.py
index 159c4ae..d95206a 100755
--- a/src/permaviss/covers/cubical_cover.py
+++ b/src/permaviss/covers/cubical_cover.py
@@ -124,7 +124,11 @@ def generate_cover(max_div, overlap, point_cloud):
     div = []  # list containing no of divisions per dimension
     pos = []  # list containing current position
     for d in range(dim):
-        div.append(math.ceil((max_corner[d] - min_corner[d]) / side))
+        # a coordinate with no extent still needs one hypercube
+        if max_corner[d] > min_corner[d]:
+            div.append(math.ceil((max_corner[d] - min_corner[d]) / side))
+        else:
+            div.append(1)
         number_hypercubes *= div[d]  # compute total number of hypercubes
         pos.append(0)  # initialize position list to zero
 
-- 
2.43.0


From 82a4922a861de0f8f0842cd42423629502d83640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:30 +0000
Subject: [PATCH 08/17] fix: do not truncate hypercube corners on integer point
 clouds

For an integer array the corners were rounded towards zero, leaving points out
of the cover.
---
 src/permaviss/covers/cubical_cover.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/permaviss/covers/cubical_cover.py b/src/permaviss/covers/cubical_cover.py
index d95206a..3e2ab49 100755
--- a/src/permaviss/covers/cubical_cover.py
+++ b/src/permaviss/covers/cubical_cover.py
@@ -117,6 +117,8 @@ def generate_cover(max_div, overlap, point_cloud):
     dim = np.size(point_cloud, 1)
     # Find the 'corners' of the dataset
     min_corner, max_corner = corners_hypercube(point_cloud)
+    # corners of hypercubes need not have integer coordinates
+    min_corner = min_corner.astype(float)
     # Find the largest coordinate difference between min_corner and max_corner
     max_length = np.amax(np.absolute(max_corner - min_corner))
     side = max_length / max_div  # side of division hypercubes
-- 
2.43.0


From 03f48b1d5c8458caaaac923fa4b461770680e42d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:30 +0000
Subject: [PATCH 09/17] fix: keep an empty entry for degrees with no persistent
 homology

The i entry of persistent_homology is documented to be the i dimensional
persistent homology, but trivial degrees were skipped.
---
 src/permaviss/spectral_sequence/MV_spectral_seq.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/permaviss/spectral_sequence/MV_spectral_seq.py b/src/permaviss/spectral_sequence/MV_spectral_seq.py
index 2455bc3..8e1ad39 100755
--- a/src/permaviss/spectral_sequence/MV_spectral_seq.py
+++ b/src/permaviss/spectral_sequence/MV_spectral_seq.py
@@ -274,6 +274,8 @@ def create_MV_ss(point_cloud, max_r, max_dim, max_div, overlap, p):
             PH, _ = image_kernel(
                 diagonal_basis, direct_sum_basis, diag_diff, MV_ss.p)
             MV_ss.persistent_homology.append(PH)
+        else:
+            MV_ss.persistent_homology.append(barcode_basis([]))
         # end if
     # end for
     print("Total PerMaViss time:{}".format(time.time()-start))
-- 
2.43.0


From facde90e385f387a2ebe7fe6047195e22bec1286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:30 +0000
Subject: [PATCH 10/17] fix: random_sphere takes the given radius into account

---
 src/permaviss/sample_point_clouds/examples.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/permaviss/sample_point_clouds/examples.py b/src/permaviss/sample_point_clouds/examples.py
index 9c8265f..46169a8 100755
--- a/src/permaviss/sample_point_clouds/examples.py
+++ b/src/permaviss/sample_point_clouds/examples.py
@@ -167,7 +167,7 @@ def random_sphere(no_points, radius, dim):
         v = np.array(point)
         norm = np.linalg.norm(v)
         for d in range(dim):
-            point[d] = point[d] / norm
+            point[d] = radius * point[d] / norm
 
         point_cloud.append(point)
 
-- 
2.43.0


From 6bec303a294b71094a0a6b7d2586a55058a1c337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:30 +0000
Subject: [PATCH 11/17] fix: inverses of negative integers mod p

inv_mod_p(-1, 5) raised ValueError claiming that 5 is not prime.
---
 src/permaviss/gauss_mod_p/arithmetic_mod_p.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/permaviss/gauss_mod_p/arithmetic_mod_p.py b/src/permaviss/gauss_mod_p/arithmetic_mod_p.py
index 9492425..945221f 100644
--- a/src/permaviss/gauss_mod_p/arithmetic_mod_p.py
+++ b/src/permaviss/gauss_mod_p/arithmetic_mod_p.py
@@ -71,6 +71,7 @@ def inv_mod_p(a, p):
         print("cannot invert 0!")
         raise ValueError
 
+    a = a % p
     x0, x1 = 0, 1
     y0, y1 = 1, 0
     b = p
-- 
2.43.0


From 77c9ae85bc9a17e80dc64b58834269941e1130a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:30 +0000
Subject: [PATCH 12/17] fix: sort barcodes exactly by default

All the other comparisons of radii are exact. Sorting up to 7 decimals led to
wrong barcodes and RuntimeError for nearly equal radii, such as those from
regular polygons.
---
 src/permaviss/persistence_algebra/barcode_bases.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/permaviss/persistence_algebra/barcode_bases.py b/src/permaviss/persistence_algebra/barcode_bases.py
index 65ebb7a..11a0096 100644
--- a/src/permaviss/persistence_algebra/barcode_bases.py
+++ b/src/permaviss/persistence_algebra/barcode_bases.py
@@ -173,16 +173,16 @@ class barcode_basis(object):
 
         return ""
 
-    def sort(self, precision=7, send_order=False):
+    def sort(self, precision=None, send_order=False):
         """Sorts a barcode basis according to the standard barcode order.
 
         That is, from smaller birth radius to bigger, and from
-        bigger death radius to smaller. A precision up to n zeros is an
-        optional argument.
+        bigger death radius to smaller. The order is exact unless a precision
+        up to n zeros is given as an optional argument.
 
         Parameters
         ----------
-        precision : int, default is 7
+        precision : None or int, default is None
             Number of zeros of precision.
         send_order : bool, default is False
             Whether we want to generate a :obj:`Numpy Array` storing
@@ -218,7 +218,10 @@ class barcode_basis(object):
 
         """
 
-        aux_bars = np.around(self.barcode, decimals=precision)
+        aux_bars = self.barcode
+        if precision is not None:
+            aux_bars = np.around(self.barcode, decimals=precision)
+
         order = np.lexsort((-aux_bars[:, 1], aux_bars[:, 0]))
         if self.prev_basis is not None:
             self.coordinates = self.coordinates[:, order]
-- 
2.43.0


From d385b895445d06818c3740c70dff8fc9b966ada3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:30 +0000
Subject: [PATCH 13/17] fix: lift by the vertical differential on covers with
 no homology

A cover with no local homology might still have boundaries, and images of the
Cech differential need to be lifted there too.
---
 src/permaviss/spectral_sequence/spectral_sequence_class.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/permaviss/spectral_sequence/spectral_sequence_class.py b/src/permaviss/spectral_sequence/spectral_sequence_class.py
index 1209417..c551bc6 100644
--- a/src/permaviss/spectral_sequence/spectral_sequence_class.py
+++ b/src/permaviss/spectral_sequence/spectral_sequence_class.py
@@ -535,7 +535,7 @@ class spectral_sequence(object):
         prev = self.cycle_dimensions[n_dim][deg][nerve_spx_index-1]
         next = self.cycle_dimensions[n_dim][deg][nerve_spx_index]
         # if trivial cover skip
-        if prev == next:
+        if prev == next and self.Im[0][n_dim][nerve_spx_index][deg].dim == 0:
             return
         # CECH DIFFERENTIAL
         generators, local_chains = self.cech_diff_local(
-- 
2.43.0


From dc2b8d2381de9abad4edbc178b4b51f893d28a09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:30 +0000
Subject: [PATCH 14/17] fix: lift to a page where only images are nontrivial

Coefficients of images were dropped when the homology was trivial, and the
extension problem ended in RuntimeError.
---
 src/permaviss/spectral_sequence/spectral_sequence_class.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/permaviss/spectral_sequence/spectral_sequence_class.py b/src/permaviss/spectral_sequence/spectral_sequence_class.py
index c551bc6..9daa227 100644
--- a/src/permaviss/spectral_sequence/spectral_sequence_class.py
+++ b/src/permaviss/spectral_sequence/spectral_sequence_class.py
@@ -385,6 +385,9 @@ class spectral_sequence(object):
                 else:
                     Im_Hom = Hom.coordinates
                     barcode_col = Hom.barcode
+            elif Im.dim > 0:
+                Im_Hom = Im.coordinates
+                barcode_col = Im.barcode
             else:
                 Betas = np.array([])
                 Gammas = np.array([])
-- 
2.43.0


From 9cd1938e60fa4579edffc4bd5e00a6b0483d4bab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:30 +0000
Subject: [PATCH 15/17] fix: subtract total boundaries when solving the
 extension problem

Chains were modified by representatives of image classes, which are only
boundaries up to terms on the next column. These terms were missing, and led
to RuntimeError later on. Use the Cech differential of the preimages instead.
---
 .../spectral_sequence_class.py                | 36 ++++++++++---------
 1 file changed, 20 insertions(+), 16 deletions(-)

diff --git a/src/permaviss/spectral_sequence/spectral_sequence_class.py b/src/permaviss/spectral_sequence/spectral_sequence_class.py
index 9daa227..b6db760 100644
--- a/src/permaviss/spectral_sequence/spectral_sequence_class.py
+++ b/src/permaviss/spectral_sequence/spectral_sequence_class.py
@@ -1127,34 +1127,38 @@ class spectral_sequence(object):
                     raise(RuntimeError)
                 # MODIFY TOTAL COMPLEX REPS using GAMMAS
                 if np.any(Gammas):
-                    # compute coefficients of Gammas in 1st page
-                    image_classes = np.matmul(
-                        self.Im[target_page-1][Sn_dim][Sdeg].coordinates,
-                        -Gammas.T)
-                    # look for bars that might be already zero
+                    # preimages of Gammas by target_page - 1 differential
+                    Tn_dim = Sn_dim + target_page - 1
+                    Tdeg = Sdeg - target_page + 2
+                    preimage_coefficients = np.matmul(
+                        self.PreIm[target_page-1][Tn_dim][Tdeg], -Gammas.T)
                     if target_page == 2:
-                        # obtain coefficients for gammas
-                        image_chains = local_chains(
-                            self.nerve_spx_number[Sn_dim])
+                        # obtain chains from local coordinates
+                        preimage_chains = local_chains(
+                            self.nerve_spx_number[Tn_dim])
                         prev = 0
                         for nerv_idx, next in enumerate(self.cycle_dimensions[
-                                Sn_dim][Sdeg]):
+                                Tn_dim][Tdeg][:-1]):
                             if prev < next:
-                                image_chains.add_entry(
+                                preimage_chains.add_entry(
                                     nerv_idx, range(np.size(Gammas, 0)),
                                     np.matmul(
-                                        image_classes[prev:next].T,
-                                        self.Hom[0][Sn_dim][nerv_idx][
-                                            Sdeg].coordinates.T)
+                                        preimage_coefficients[prev:next].T,
+                                        self.Hom[0][Tn_dim][nerv_idx][
+                                            Tdeg].coordinates.T)
                                 )
                             prev = next
                         # end for
                     else:
-                        image_chains = local_chains.sums(
-                            self.Hom_reps[target_page-2][Sn_dim][Sdeg][0],
-                            image_classes.T
+                        preimage_chains = local_chains.sums(
+                            self.Hom_reps[target_page-2][Tn_dim][Tdeg][
+                                target_page-2],
+                            preimage_coefficients.T
                         )
                     # end else
+                    # add total complex boundary of the preimages
+                    image_chains = self.cech_diff(
+                        Sn_dim, Sdeg, preimage_chains)
                     chains += image_chains
                 # end if
             # end for
-- 
2.43.0


From 2d3eb75ef6f0aefc7678de7c90e9b2324d15a409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:30 +0000
Subject: [PATCH 16/17] fix: interleaved spectral sequences with different
 primes

The prime of local_chains is a class attribute, so constructing another spectral
sequence before solving the extension problem led to using its prime.
---
 src/permaviss/spectral_sequence/spectral_sequence_class.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/permaviss/spectral_sequence/spectral_sequence_class.py b/src/permaviss/spectral_sequence/spectral_sequence_class.py
index b6db760..7a8c9b9 100644
--- a/src/permaviss/spectral_sequence/spectral_sequence_class.py
+++ b/src/permaviss/spectral_sequence/spectral_sequence_class.py
@@ -1167,6 +1167,7 @@ class spectral_sequence(object):
                                                      death_radii)
 
             # correct sign of lift_coord and trivialise references
+            lift_coord.p = self.p
             lift_coord.minus()
             # end for
             # if lift to first page is nonzero, raise an error
-- 
2.43.0


From a814b1fa09068505f446d8df0ad8a8cc1dc15d3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:07:24 +0000
Subject: [PATCH 17/17] fix: lift representatives through earlier pages with
 the right preimages

When a class of the fourth or a later page has to be corrected by images of a
higher differential, compute_higher_representatives looked up the preimages
one page too far (where they are not computed yet) and passed their
coefficients by columns. create_MV_ss ended in RuntimeError.
---
 src/permaviss/spectral_sequence/spectral_sequence_class.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/permaviss/spectral_sequence/spectral_sequence_class.py b/src/permaviss/spectral_sequence/spectral_sequence_class.py
index 7a8c9b9..61c7116 100644
--- a/src/permaviss/spectral_sequence/spectral_sequence_class.py
+++ b/src/permaviss/spectral_sequence/spectral_sequence_class.py
@@ -1013,9 +1013,9 @@ class spectral_sequence(object):
                     prev = next
                 # end for
             elif np.any(Gammas):
-                for chains in self.Hom_reps[target_page][Tn_dim][Tdeg]:
+                for chains in self.Hom_reps[target_page - 2][Tn_dim][Tdeg]:
                     preimage_reps.append(local_chains.sums(
-                        chains, preimage_coefficients))
+                        chains, preimage_coefficients.T))
                 # add preimage reps to current tot_complex reps
                 for idx, chains in enumerate(preimage_reps):
                     total_complex_reps[
-- 
2.43.0

