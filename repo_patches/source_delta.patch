From df13329cffce241f77b8beb6799e26b0230ef181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:13 +0000
Subject: [PATCH 01/27] fix: any_overlap used a MaskGroup attribute which does
 not exist

---
 graphicle/select.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/graphicle/select.py b/graphicle/select.py
index fd03252..121224a 100644
--- a/graphicle/select.py
+++ b/graphicle/select.py
@@ -938,10 +938,8 @@ def any_overlap(masks: gcl.MaskGroup[MaskType]) -> bool:
         ``True`` if at least two ``MaskArrays`` in ``masks`` have at
         least one ``True`` element in the same location.
     """
-    combos = it.combinations(masks.dict.values(), 2)
-    pair_checks = map(np.bitwise_and, *zip(*combos))
-    overlaps: bool = np.bitwise_or.reduce(tuple(pair_checks), axis=None)
-    return overlaps
+    combos = it.combinations((mask.data for mask in masks.values()), 2)
+    return any(np.any(np.bitwise_and(*pair)) for pair in combos)
 
 
 def centroid_prune(
-- 
2.43.0


From b870e75a2a2106c3c62bc2ce294c238d0e9df466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:13 +0000
Subject: [PATCH 02/27] fix: np.in1d no longer exists in numpy, use np.isin

---
 graphicle/data.py   | 4 ++--
 graphicle/select.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/graphicle/data.py b/graphicle/data.py
index e35b554..d358d93 100644
--- a/graphicle/data.py
+++ b/graphicle/data.py
@@ -2545,7 +2545,7 @@ class AdjacencyList(base.AdjacencyBase):
         """
         in_degree = self._sparse_unsigned.sum(axis=0)
         zero_idxs = np.flatnonzero(in_degree == 0)
-        root_mask = np.in1d(self._sparse_unsigned.row, zero_idxs)
+        root_mask = np.isin(self._sparse_unsigned.row, zero_idxs)
         return MaskArray(root_mask)
 
     @property
@@ -2556,7 +2556,7 @@ class AdjacencyList(base.AdjacencyBase):
         """
         out_degree = self._sparse_unsigned.sum(axis=1)
         zero_idxs = np.flatnonzero(out_degree == 0)
-        leaf_mask = np.in1d(self._sparse_unsigned.col, zero_idxs)
+        leaf_mask = np.isin(self._sparse_unsigned.col, zero_idxs)
         return MaskArray(leaf_mask)
 
     @property
diff --git a/graphicle/select.py b/graphicle/select.py
index 121224a..5a28bc9 100644
--- a/graphicle/select.py
+++ b/graphicle/select.py
@@ -416,7 +416,7 @@ def _partition_vertex(
     hadron_pmu = pmu[final_from_vtx]
     dist = dist_strat(parton_pmu, hadron_pmu)
     alloc = np.argmin(dist, axis=0)
-    final_from_hard = np.in1d(alloc, np.flatnonzero(mask[pcls_in]))
+    final_from_hard = np.isin(alloc, np.flatnonzero(mask[pcls_in]))
     mask.data[final_from_vtx] = final_from_hard
     return mask
 
-- 
2.43.0


From cf355e737fec009bbb1e53419008109ab2dd60bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:13 +0000
Subject: [PATCH 03/27] fix: AdjacencyList copies and slices dropped the edge
 weights

---
 graphicle/data.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/graphicle/data.py b/graphicle/data.py
index d358d93..4372ec4 100644
--- a/graphicle/data.py
+++ b/graphicle/data.py
@@ -2477,11 +2477,14 @@ class AdjacencyList(base.AdjacencyBase):
     def __getitem__(self, key) -> "AdjacencyList":
         if isinstance(key, base.MaskBase):
             key = key.data
-        return self.__class__(self._data[key].reshape(-1, 2))
+        weights = self.weights
+        if weights.size > 0:
+            weights = weights[key]
+        return self.__class__(self._data[key].reshape(-1, 2), weights)
 
     def copy(self) -> "AdjacencyList":
         """Copies the underlying data into a new AdjacencyList instance."""
-        return self.__class__(self._data.copy())
+        return self.__class__(self._data.copy(), self.weights.copy())
 
     @fn.cached_property
     def _edge_relabel(self) -> base.IntVector:
-- 
2.43.0


From 28bb5709ea75ba8ed9ea43f4cd5281c4c1603606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:13 +0000
Subject: [PATCH 04/27] fix: from_lhe_event overwrote the status codes of the
 passed event

---
 graphicle/data.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/graphicle/data.py b/graphicle/data.py
index 4372ec4..92ebfd7 100644
--- a/graphicle/data.py
+++ b/graphicle/data.py
@@ -2331,6 +2331,7 @@ class ParticleSet(base.ParticleBase):
         """
         props = ("pdg", "pmu", "color", "helicity", "status")
         pcls = cls.from_numpy(**{name: getattr(event, name) for name in props})
+        pcls.status = pcls.status.copy()  # may be a view on event.status
         pcls.final = MaskArray(np.zeros(len(pcls), dtype=np.bool_))
         status_map = {-1: -21, 1: -23, -2: -22, 2: -22, 3: -22, -9: -12}
         for old_code, new_code in status_map.items():
-- 
2.43.0


From 353020f1281af69211bf291a7ddf427daf78f854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:13 +0000
Subject: [PATCH 05/27] fix: arg_closest overwrote the cached rapidity array of
 the candidates

---
 graphicle/calculate.py | 4 +---
 graphicle/select.py    | 1 -
 2 files changed, 1 insertion(+), 4 deletions(-)

diff --git a/graphicle/calculate.py b/graphicle/calculate.py
index d13c1d1..9ba8891 100644
--- a/graphicle/calculate.py
+++ b/graphicle/calculate.py
@@ -924,9 +924,7 @@ def _assignment_cost(
     xy_pol_2: base.ComplexVector,
 ) -> base.DoubleVector:
     dist_matrix = _delta_R(rapidity_1, rapidity_2, xy_pol_1, xy_pol_2)
-    pt_2 = rapidity_2  # recycle memory buffer for transverse momenta
-    for pol_idx, pol_val in enumerate(xy_pol_2):
-        pt_2[pol_idx] = abs(pol_val)
+    pt_2 = np.abs(xy_pol_2)
     var_pt_recip = 1.0 / np.var(pt_2)
     num_partons = dist_matrix.shape[0]
     for parton_idx in nb.prange(num_partons):
diff --git a/graphicle/select.py b/graphicle/select.py
index 5a28bc9..5ea4dcc 100644
--- a/graphicle/select.py
+++ b/graphicle/select.py
@@ -1227,7 +1227,6 @@ def arg_closest(
             focus._xy_pol,
             candidate._xy_pol,
         )
-    del candidate.rapidity  # inplace operation above invalidates cache
     _, idxs = opt.linear_sum_assignment(cost_matrix)
     return idxs.tolist()
 
-- 
2.43.0


From 56d460f49d1b742dd15d7c93c337b8e4ccd56372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:13 +0000
Subject: [PATCH 06/27] fix: arg_closest raised ZeroDivisionError for
 candidates without variance

---
 graphicle/calculate.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/graphicle/calculate.py b/graphicle/calculate.py
index 9ba8891..cc3d5e6 100644
--- a/graphicle/calculate.py
+++ b/graphicle/calculate.py
@@ -925,12 +925,14 @@ def _assignment_cost(
 ) -> base.DoubleVector:
     dist_matrix = _delta_R(rapidity_1, rapidity_2, xy_pol_1, xy_pol_2)
     pt_2 = np.abs(xy_pol_2)
-    var_pt_recip = 1.0 / np.var(pt_2)
+    var_pt = np.var(pt_2)
+    var_pt_recip = 1.0 / var_pt if var_pt > 0.0 else 0.0
     num_partons = dist_matrix.shape[0]
     for parton_idx in nb.prange(num_partons):
         row = dist_matrix[parton_idx, :]
         pt_1_val = abs(xy_pol_1[parton_idx])
-        var_dR_recip = 1.0 / np.var(row)
+        var_dR = np.var(row)
+        var_dR_recip = 1.0 / var_dR if var_dR > 0.0 else 0.0
         for jet_idx, (dR_val, pt_2_val) in enumerate(zip(row, pt_2)):
             dpt = pt_1_val - pt_2_val
             dR_cost = math.expm1(-0.5 * var_dR_recip * dR_val * dR_val)
-- 
2.43.0


From 1b128c69b5f8fe7ecd3cd55a47f1c9aa1b5f82a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:13 +0000
Subject: [PATCH 07/27] fix: event shapes raised ZeroDivisionError for
 particles without momentum

---
 graphicle/calculate.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/graphicle/calculate.py b/graphicle/calculate.py
index cc3d5e6..6071923 100644
--- a/graphicle/calculate.py
+++ b/graphicle/calculate.py
@@ -432,6 +432,8 @@ def aggregate_momenta(
 @nb.njit("float64(float64, float64, float64)", cache=True)
 def _three_norm(x: float, y: float, z: float) -> float:
     max_component = max(abs(x), abs(y), abs(z))
+    if max_component == 0.0:
+        return 0.0
     max_recip = 1.0 / max_component
     x *= max_recip
     y *= max_recip
@@ -672,6 +674,8 @@ def _spherocity_with_grad(
         cross_y = z * ax_x - x * ax_z
         cross_z = x * ax_y - y * ax_x
         cross_norm = _three_norm(cross_x, cross_y, cross_z)
+        if cross_norm == 0.0:
+            continue  # no contribution when parallel to the axis
         cross_norm_sum += cross_norm
         # accumulate gradient contributions
         x_sq, y_sq = x * x, y * y
@@ -806,6 +810,8 @@ def _c_parameter(momenta: base.VoidVector) -> float:
             x_j, y_j, z_j = pmu_j["x"], pmu_j["y"], pmu_j["z"]
             norm_j = _three_norm(x_j, y_j, z_j)
             norm_prod = norm_i * norm_j
+            if norm_prod == 0.0:
+                continue
             i_dot_j = (x_i * x_j) + (y_i * y_j) + (z_i * z_j)
             output += 2.0 * (norm_prod - (i_dot_j * i_dot_j / norm_prod))
     return 1.5 * output / (norm_sum * norm_sum)
-- 
2.43.0


From e88c86439f9b23f95053ec2a3707e8693f8f8d91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:13 +0000
Subject: [PATCH 08/27] fix: single element ColorArray and AdjacencyList
 reported a length of two

---
 graphicle/data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphicle/data.py b/graphicle/data.py
index 92ebfd7..d1a6149 100644
--- a/graphicle/data.py
+++ b/graphicle/data.py
@@ -439,7 +439,7 @@ def _array_field(dtype: npt.DTypeLike, num_cols: int = 1):
         not_empty = array.shape[0] != 0
         if not_empty and (cols != num_cols):
             raise ValueError(f"Number of columns must be equal to {num_cols}")
-        return array
+        return array.reshape(-1, num_cols) if num_cols > 1 else array
 
     return field(
         default=Factory(
-- 
2.43.0


From 851136468b958140bd4f63db70d3cd26d3ce0298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:13 +0000
Subject: [PATCH 09/27] fix: structured color data was read by position instead
 of field name

---
 graphicle/data.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/graphicle/data.py b/graphicle/data.py
index d1a6149..2e270c0 100644
--- a/graphicle/data.py
+++ b/graphicle/data.py
@@ -119,6 +119,7 @@ _MOMENTUM_MAP = _map_invert(
 _MOMENTUM_ORDER = tuple("xyze")
 _EDGE_MAP = _map_invert({"src": {"in", "src"}, "dst": {"out", "dst"}})
 _EDGE_ORDER = ("src", "dst")
+_COLOR_ORDER = ("color", "anticolor")
 
 
 class MomentumElement(ty.NamedTuple):
@@ -428,6 +429,8 @@ def _array_field(dtype: npt.DTypeLike, num_cols: int = 1):
                 values = _reorder_pmu(values)
             elif (num_cols == 2) and (set(_EDGE_MAP.keys()) & set(names)):
                 values = _reorder_edges(values)
+            elif (num_cols == 2) and (set(names) == set(_COLOR_ORDER)):
+                values = values[list(_COLOR_ORDER)]
             values = rfn.structured_to_unstructured(values)
         array = np.asarray(values, dtype=dtype)
         shape = array.shape
-- 
2.43.0


From 1dc6e766816ea13bd7c92ca23194ddd666c3b721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:13 +0000
Subject: [PATCH 10/27] fix: PdgArray.mask ignored negative targets when not
 sign sensitive

---
 graphicle/data.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/graphicle/data.py b/graphicle/data.py
index 2e270c0..fcfa8d4 100644
--- a/graphicle/data.py
+++ b/graphicle/data.py
@@ -1228,6 +1228,7 @@ class PdgArray(base.ArrayBase):
         data = self.data
         if sign_sensitive is False:
             data = np.abs(data, dtype=_types.int)
+            target = np.abs(target)
         return MaskArray(
             np.isin(data, target, assume_unique=False, invert=blacklist)
         )
-- 
2.43.0


From 2b2c1ca5d0ac0e6005fe21034681ff07c0a641e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:13 +0000
Subject: [PATCH 11/27] fix: knn_adj gave outward edges by column, and failed
 for k = n - 1

---
 graphicle/matrix.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/graphicle/matrix.py b/graphicle/matrix.py
index 6f57f35..96af907 100644
--- a/graphicle/matrix.py
+++ b/graphicle/matrix.py
@@ -130,11 +130,11 @@ def knn_adj(
     If weighted is ``False``, the returned adjacency matrix will be
     boolean.
     """
-    axis = 0  # calculate everything row-wise
+    axis = 1  # calculate everything row-wise
     if self_loop is False:
         k = k + 1  # for when we get rid of self-neighbours
-    knn_idxs = np.argpartition(matrix, kth=k, axis=axis)
-    near = knn_idxs[:k]
+    knn_idxs = np.argpartition(matrix, kth=k - 1, axis=axis)
+    near = knn_idxs[:, :k]
     edge_weights = 1
     if weighted is True:
         if dtype is None:
-- 
2.43.0


From 33f43065b4393480c6f72bef2dbcf6f79d8289a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:13 +0000
Subject: [PATCH 12/27] fix: inclination angle of an axis was measured from the
 transverse plane

---
 graphicle/transform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphicle/transform.py b/graphicle/transform.py
index b812f31..a27bac9 100644
--- a/graphicle/transform.py
+++ b/graphicle/transform.py
@@ -49,7 +49,7 @@ def _angles_to_axis(angles: SphericalAngle) -> SphericalAxis:
 def _axis_to_angles(axis: SphericalAxis) -> SphericalAngle:
     phi_polar = complex(axis.x, axis.y)
     pt, phi = cmath.polar(phi_polar)
-    theta_polar = complex(pt, axis.z)
+    theta_polar = complex(axis.z, pt)
     theta = cmath.phase(theta_polar)
     return SphericalAngle(theta=theta, phi=phi)
 
-- 
2.43.0


From a4878c2f81edc72e9dae75298f916165fd0deaac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:13 +0000
Subject: [PATCH 13/27] fix: from_spherical_uniform momenta were not uniform
 over the sphere

---
 graphicle/data.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/graphicle/data.py b/graphicle/data.py
index fcfa8d4..282962c 100644
--- a/graphicle/data.py
+++ b/graphicle/data.py
@@ -1412,7 +1412,7 @@ class MomentumArray(base.ArrayBase):
         theta_polar = p_mag * np.exp(
             1.0j * np.arccos(1.0 - 2.0 * rng.random(size, dtype=np.float64))
         )
-        phi_polar = theta_polar.real * np.exp(
+        phi_polar = theta_polar.imag * np.exp(
             1.0j * rng.uniform(-np.pi, np.pi, size)
         )
         return cls(
@@ -1420,7 +1420,7 @@ class MomentumArray(base.ArrayBase):
                 [
                     phi_polar.real.reshape(-1, 1),
                     phi_polar.imag.reshape(-1, 1),
-                    theta_polar.imag.reshape(-1, 1),
+                    theta_polar.real.reshape(-1, 1),
                     energy.reshape(-1, 1),
                 ]
             )
-- 
2.43.0


From 18575621edf64feeaeb01e220ecbc88f068a5aac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:13 +0000
Subject: [PATCH 14/27] fix: hard_descendants marked the wrong partons when
 given a target

---
 graphicle/select.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/graphicle/select.py b/graphicle/select.py
index 5ea4dcc..a2d9d63 100644
--- a/graphicle/select.py
+++ b/graphicle/select.py
@@ -686,6 +686,7 @@ def hard_descendants(
     hard_mask = graph.hard_mask
     del hard_mask["incoming"]
     hard_graph = graph[hard_mask]
+    hard_idxs = np.flatnonzero(hard_mask)
     if target is not None:
         target_pdgs = set(target) if sign_sensitive else set(map(abs, target))
         target_mask = hard_graph.pdg.mask(
@@ -704,11 +705,12 @@ def hard_descendants(
             missing_str = ", ".join(map(str, missing_pdgs))
             raise ValueError(f"Missing PDGs in hard process: {missing_str}.")
         hard_graph = hard_graph[target_mask]
+        hard_idxs = hard_idxs[target_mask.data]
     pdg_keys = _pdgs_to_keys(hard_graph.pdg)
     pcl_out_vtxs = map(int, hard_graph.edges["dst"])
     descs = map(vertex_descendants, it.repeat(graph.adj), pcl_out_vtxs)
     group = gcl.MaskGroup(cl.OrderedDict(zip(pdg_keys, descs)), agg_op="or")
-    for key, idx in zip(pdg_keys, np.flatnonzero(hard_mask)):
+    for key, idx in zip(pdg_keys, hard_idxs):
         group[key][idx] = True
     return group
 
-- 
2.43.0


From 30719ac833195aaa1a4cf906858bbf59367dedd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:13 +0000
Subject: [PATCH 15/27] fix: comparing adjacency lists, or against structured
 arrays, raised

---
 graphicle/data.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/graphicle/data.py b/graphicle/data.py
index 282962c..0e14b85 100644
--- a/graphicle/data.py
+++ b/graphicle/data.py
@@ -243,10 +243,10 @@ def _array_eq_prep(
     """
     other_data = other
     dtype = instance.data.dtype
-    if isinstance(other, base.ArrayBase):
+    if isinstance(other, (base.ArrayBase, base.AdjacencyBase)):
         other_data = other.data
     elif (dtype.type == np.void) and not (
-        isinstance(other, np.ndarray) and (other.dtype == np.void)
+        isinstance(other, np.ndarray) and (other.dtype.type == np.void)
     ):
         dt_set = set(map(op.itemgetter(1), dtype.descr))
         assert len(dt_set) == 1
-- 
2.43.0


From 198520137d07df4d468db42da13ae08a9c1be174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:13 +0000
Subject: [PATCH 16/27] fix: monte_carlo_tag inverted the blacklist when given
 an empty whitelist

---
 graphicle/select.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/graphicle/select.py b/graphicle/select.py
index a2d9d63..17a87a1 100644
--- a/graphicle/select.py
+++ b/graphicle/select.py
@@ -1360,9 +1360,10 @@ def monte_carlo_tag(
     portion_mask = particles.status.hard_mask[portions].data
     hard_pmu = particles.pmu[portion_mask]
     hard_pdg = particles.pdg[portion_mask]
-    if blacklist and whitelist:
+    if (blacklist is not None) and (whitelist is not None):
         raise ValueError("Cannot simultaneously blacklist and whitelist.")
-    if list_ := (blacklist or whitelist):
+    list_ = blacklist if whitelist is None else whitelist
+    if list_ is not None:
         hard_pdg_ = hard_pdg
         if not sign_sensitive:
             hard_pdg_ = np.abs(hard_pdg_)
-- 
2.43.0


From 8737aed8f803219c7dcb29df0eeb791cf43be663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:13 +0000
Subject: [PATCH 17/27] fix: color_singlets gave inverted results in a hash
 dependent order

---
 graphicle/select.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphicle/select.py b/graphicle/select.py
index 17a87a1..d184b39 100644
--- a/graphicle/select.py
+++ b/graphicle/select.py
@@ -1059,7 +1059,7 @@ def color_singlets(
             singlets.append(names)
     if invert is True:
         members = set(it.chain.from_iterable(singlets))
-        outcasts = set(keys).symmetric_difference(members)
+        outcasts = it.filterfalse(members.__contains__, keys)
         return list(zip(outcasts))
     return singlets
 
-- 
2.43.0


From b3ea54c152e8a39c6dc9e1129adb6341464bee9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:13 +0000
Subject: [PATCH 18/27] fix: composite objects did not compare the data they
 contain

---
 graphicle/data.py | 34 +++++++++++++++++++++++++++-------
 1 file changed, 27 insertions(+), 7 deletions(-)

diff --git a/graphicle/data.py b/graphicle/data.py
index 0e14b85..90b977d 100644
--- a/graphicle/data.py
+++ b/graphicle/data.py
@@ -2195,6 +2195,12 @@ def _composite_copy(instance: CompositeGeneric) -> CompositeGeneric:
     return instance.__class__(**dict(zip(names, copies)))
 
 
+def _adj_equal(adj_1: "AdjacencyList", adj_2: "AdjacencyList") -> bool:
+    return np.array_equal(adj_1, adj_2) and np.array_equal(
+        adj_1.weights, adj_2.weights
+    )
+
+
 class ParticleSetSerialized(tyx.TypedDict, total=False):
     """Typed dictionary format of a serialized ParticleSet instance.
 
@@ -2250,12 +2256,24 @@ class ParticleSet(base.ParticleBase):
         Boolean array indicating final state in particle set.
     """
 
-    pdg: PdgArray = field(default=Factory(PdgArray))
-    pmu: MomentumArray = field(default=Factory(MomentumArray))
-    color: ColorArray = field(default=Factory(ColorArray))
-    helicity: HelicityArray = field(default=Factory(HelicityArray))
-    status: StatusArray = field(default=Factory(StatusArray))
-    final: MaskArray = field(default=Factory(MaskArray))
+    pdg: PdgArray = field(
+        default=Factory(PdgArray), eq=cmp_using(np.array_equal)
+    )
+    pmu: MomentumArray = field(
+        default=Factory(MomentumArray), eq=cmp_using(np.array_equal)
+    )
+    color: ColorArray = field(
+        default=Factory(ColorArray), eq=cmp_using(np.array_equal)
+    )
+    helicity: HelicityArray = field(
+        default=Factory(HelicityArray), eq=cmp_using(np.array_equal)
+    )
+    status: StatusArray = field(
+        default=Factory(StatusArray), eq=cmp_using(np.array_equal)
+    )
+    final: MaskArray = field(
+        default=Factory(MaskArray), eq=cmp_using(np.array_equal)
+    )
 
     def __getitem__(self, key) -> "ParticleSet":
         return _composite_getitem(self, key)
@@ -2713,7 +2731,9 @@ class Graphicle:
     """
 
     particles: ParticleSet = field(default=Factory(ParticleSet))
-    adj: AdjacencyList = field(default=Factory(AdjacencyList))
+    adj: AdjacencyList = field(
+        default=Factory(AdjacencyList), eq=cmp_using(_adj_equal)
+    )
 
     def __getitem__(self, key) -> "Graphicle":
         return _composite_getitem(self, key)
-- 
2.43.0


From 2e64e3c886b1e4e4832d2dd36214c8512929e55f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:13 +0000
Subject: [PATCH 19/27] fix: momenta kept stale cached quantities after their
 data was replaced

---
 graphicle/data.py | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/graphicle/data.py b/graphicle/data.py
index 90b977d..9af46a6 100644
--- a/graphicle/data.py
+++ b/graphicle/data.py
@@ -212,6 +212,10 @@ def _array_ufunc(
         if not isinstance(x, instance._HANDLED_TYPES + (class_type,)):
             return NotImplemented
 
+    # In place operations invalidate quantities cached from the data.
+    for x in inputs[:1] if method == "at" else out:
+        if isinstance(x, MomentumArray):
+            x._clear_cache()
     # Defer to the implementation of the ufunc on unwrapped values.
     inputs = tuple(x._data if isinstance(x, class_type) else x for x in inputs)
     if out:
@@ -1446,6 +1450,24 @@ class MomentumArray(base.ArrayBase):
     @data.setter
     def data(self, values: npt.ArrayLike) -> None:
         self._data = values  # type: ignore
+        self._clear_cache()
+
+    def _clear_cache(self) -> None:
+        """Discards all of the quantities cached from the data."""
+        for name in (
+            "_zt_pol",
+            "_spatial_mag",
+            "eta",
+            "rapidity",
+            "phi",
+            "theta",
+            "mass",
+            "mass_t",
+        ):
+            try:
+                delattr(self, name)
+            except AttributeError:
+                pass
 
     @classmethod
     def __array_wrap__(cls, array: base.AnyVector) -> "MomentumArray":
-- 
2.43.0


From 8935340b1fd6e2b32fe2a378321711da1d5847de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:13 +0000
Subject: [PATCH 20/27] fix: reductions over the last axis were wrapped when
 given as negative

---
 graphicle/data.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/graphicle/data.py b/graphicle/data.py
index 9af46a6..5d8be52 100644
--- a/graphicle/data.py
+++ b/graphicle/data.py
@@ -234,7 +234,10 @@ def _array_ufunc(
         return MaskArray(result)
     else:
         # one return value
-        if not result.shape or kwargs.get("axis", None) == 1:
+        axis = kwargs.get("axis", None)
+        if not result.shape or axis == 1:
+            return result
+        if axis == -1 and instance._data.ndim == 2:
             return result
         return class_type(result)
 
-- 
2.43.0


From 039c9e8a286f285a7bd7cce700fc0af53a242d05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:05 +0000
Subject: [PATCH 21/27] fix: rapidity had the wrong sign for negative energies

---
 graphicle/calculate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphicle/calculate.py b/graphicle/calculate.py
index 6071923..b10d19f 100644
--- a/graphicle/calculate.py
+++ b/graphicle/calculate.py
@@ -217,7 +217,7 @@ def _rapidity(
             rap_val = 0.5 * math.log((e_val + z_val_abs) / diff)
         else:
             rap_val = math.inf
-        rap[idx] = math.copysign(rap_val, z_val)
+        rap[idx] = math.copysign(1.0, z_val) * rap_val
     return rap
 
 
-- 
2.43.0


From ddd63335707caa95394be45ce5c14462f85bf83f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:40 +0000
Subject: [PATCH 22/27] fix: inclination gradient of the spherocity objective
 used x*y for x*z

---
 graphicle/calculate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphicle/calculate.py b/graphicle/calculate.py
index b10d19f..bda7419 100644
--- a/graphicle/calculate.py
+++ b/graphicle/calculate.py
@@ -687,7 +687,7 @@ def _spherocity_with_grad(
             - sin_2theta * ((y * z * cos_phi) - (x * z * sin_phi))
         )
         grad_theta_sum += cross_norm_recip * (
-            -2.0 * cos_2theta * ((x * y * cos_phi) + (y * z * sin_phi))
+            -2.0 * cos_2theta * ((x * z * cos_phi) + (y * z * sin_phi))
             - 0.5
             * sin_2theta
             * (
-- 
2.43.0


From 179550225f980f2f39601ee59d368d616a79b424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:51 +0000
Subject: [PATCH 23/27] fix: comparing a MaskArray with a MaskGroup raised
 TypeError

---
 graphicle/data.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/graphicle/data.py b/graphicle/data.py
index 5d8be52..8d11013 100644
--- a/graphicle/data.py
+++ b/graphicle/data.py
@@ -610,6 +610,11 @@ def _mask_compat(*masks: base.MaskLike) -> bool:
     return True
 
 
+def _mask_data(mask: base.MaskLike) -> base.BoolVector:
+    """Boolean array of a mask, aggregating over mask groups."""
+    return mask.data if isinstance(mask, base.MaskBase) else mask
+
+
 def _mask_eq(mask1: base.MaskLike, mask2: base.MaskLike) -> MaskArray:
     """Provides a boolean comparison ``==`` operation for ``MaskBase``
     objects against other masks (including numpy boolean arrays).
@@ -628,7 +633,7 @@ def _mask_eq(mask1: base.MaskLike, mask2: base.MaskLike) -> MaskArray:
     shape1, shape2 = np.shape(mask1), np.shape(mask2)
     if shape1 != shape2:
         raise ValueError(f"Incompatible mask shapes {shape1} and {shape2}.")
-    return MaskArray(np.equal(mask1, mask2))
+    return MaskArray(np.equal(_mask_data(mask1), _mask_data(mask2)))
 
 
 def _mask_neq(mask1: base.MaskLike, mask2: base.MaskLike) -> MaskArray:
@@ -649,7 +654,7 @@ def _mask_neq(mask1: base.MaskLike, mask2: base.MaskLike) -> MaskArray:
     shape1, shape2 = np.shape(mask1), np.shape(mask2)
     if shape1 != shape2:
         raise ValueError(f"Incompatible mask shapes {shape1} and {shape2}.")
-    return MaskArray(np.not_equal(mask1, mask2))
+    return MaskArray(np.not_equal(_mask_data(mask1), _mask_data(mask2)))
 
 
 _IN_MASK_DICT = ty.Mapping[
-- 
2.43.0


From 337cd87a1078f829c11d9ab0933ba2c7d80f046a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:28 +0000
Subject: [PATCH 24/27] fix: leaf_masks reported latent masks at the top level
 as leaves

---
 graphicle/select.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/graphicle/select.py b/graphicle/select.py
index d184b39..009f646 100644
--- a/graphicle/select.py
+++ b/graphicle/select.py
@@ -917,6 +917,8 @@ def leaf_masks(mask_tree: gcl.MaskGroup) -> gcl.MaskGroup[gcl.MaskArray]:
     """
     mask_group = gcl.MaskGroup(agg_op=mask_tree.agg_op)
     for name, branch in mask_tree.items():
+        if name == "latent":
+            continue
         mask_group.update(dict(_leaf_mask_iter(name, branch)))  # type: ignore
     return mask_group
 
-- 
2.43.0


From 97073fad786e64756a3e3539e553b03a395e5c96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:28 +0000
Subject: [PATCH 25/27] fix: reductions over components were wrapped when the
 axis was a tuple

---
 graphicle/data.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/graphicle/data.py b/graphicle/data.py
index 8d11013..98b461c 100644
--- a/graphicle/data.py
+++ b/graphicle/data.py
@@ -235,6 +235,8 @@ def _array_ufunc(
     else:
         # one return value
         axis = kwargs.get("axis", None)
+        if isinstance(axis, tuple) and len(axis) == 1:
+            (axis,) = axis
         if not result.shape or axis == 1:
             return result
         if axis == -1 and instance._data.ndim == 2:
-- 
2.43.0


From a46d57a86a7a8a84bf9ac296fd7360bfac3910b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:28 +0000
Subject: [PATCH 26/27] fix: adjacency lists kept stale cached quantities after
 in place operations

---
 graphicle/data.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/graphicle/data.py b/graphicle/data.py
index 98b461c..869f119 100644
--- a/graphicle/data.py
+++ b/graphicle/data.py
@@ -214,7 +214,7 @@ def _array_ufunc(
 
     # In place operations invalidate quantities cached from the data.
     for x in inputs[:1] if method == "at" else out:
-        if isinstance(x, MomentumArray):
+        if isinstance(x, (MomentumArray, AdjacencyList)):
             x._clear_cache()
     # Defer to the implementation of the ufunc on unwrapped values.
     inputs = tuple(x._data if isinstance(x, class_type) else x for x in inputs)
@@ -2541,6 +2541,19 @@ class AdjacencyList(base.AdjacencyBase):
         """Copies the underlying data into a new AdjacencyList instance."""
         return self.__class__(self._data.copy(), self.weights.copy())
 
+    def _clear_cache(self) -> None:
+        """Discards all of the quantities cached from the data."""
+        for name in (
+            "_edge_relabel",
+            "_sparse_signed",
+            "_sparse_unsigned",
+            "_sparse_csr",
+        ):
+            try:
+                delattr(self, name)
+            except AttributeError:
+                pass
+
     @fn.cached_property
     def _edge_relabel(self) -> base.IntVector:
         _, inv = np.unique(self._data, return_inverse=True)
-- 
2.43.0


From 962e98f3e6efc85c3b081f7b592bf131d24a1dfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:44:55 +0000
Subject: [PATCH 27/27] fix: shift_eta ended at the wrong pseudorapidity for
 momenta with mass

---
 graphicle/data.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/graphicle/data.py b/graphicle/data.py
index 869f119..ad8a957 100644
--- a/graphicle/data.py
+++ b/graphicle/data.py
@@ -1735,8 +1735,13 @@ class MomentumArray(base.ArrayBase):
             if math.isclose(eta_mid, target, rel_tol=0.0, abs_tol=abs_tol):
                 converged = True
                 break
-            rap_mid, _ = calculate.resultant_coords(pmu, pseudo=False)
-            correction = target - rap_mid
+            # differences in rapidity differ from those in pseudorapidity,
+            # if the resultant momentum has mass
+            pmu_sum: "MomentumArray" = np.sum(pmu, axis=0)
+            ratio = (pmu_sum.pt / pmu_sum.mass_t).item()
+            correction = math.asinh(ratio * math.sinh(target)) - math.asinh(
+                ratio * math.sinh(eta_mid)
+            )
             pmu = pmu.shift_rapidity(correction)
             eta_mid, _ = calculate.resultant_coords(pmu, pseudo=True)
         if converged is not True:
-- 
2.43.0

