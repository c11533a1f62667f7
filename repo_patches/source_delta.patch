From b0e24fce325dc502e9f4bab0e51123f271bb282f Mon Sep 17 00:00:00 2001
From: verifier <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:50 +0000
Subject: [PATCH 01/37] fix: use np.isin, np.in1d was removed from numpy 2

---
 graphicle/data.py   | 4 ++--
 graphicle/select.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/graphicle/data.py b/graphicle/data.py
index e35b554..d358d93 100644
--- a/graphicle/data.py
+++ b/graphicle/data.py
@@ -2545,7 +2545,7 @@ class AdjacencyList(base.AdjacencyBase):
         """
         in_degree = self._sparse_unsigned.sum(axis=0)
         zero_idxs = np.flatnonzero(in_degree == 0)
-        root_mask = np.in1d(self._sparse_unsigned.row, zero_idxs)
+        root_mask = np.isin(self._sparse_unsigned.row, zero_idxs)
         return MaskArray(root_mask)
 
     @property
@@ -2556,7 +2556,7 @@ class AdjacencyList(base.AdjacencyBase):
         """
         out_degree = self._sparse_unsigned.sum(axis=1)
         zero_idxs = np.flatnonzero(out_degree == 0)
-        leaf_mask = np.in1d(self._sparse_unsigned.col, zero_idxs)
+        leaf_mask = np.isin(self._sparse_unsigned.col, zero_idxs)
         return MaskArray(leaf_mask)
 
     @property
diff --git a/graphicle/select.py b/graphicle/select.py
index fd03252..c2a8a3f 100644
--- a/graphicle/select.py
+++ b/graphicle/select.py
@@ -416,7 +416,7 @@ def _partition_vertex(
     hadron_pmu = pmu[final_from_vtx]
     dist = dist_strat(parton_pmu, hadron_pmu)
     alloc = np.argmin(dist, axis=0)
-    final_from_hard = np.in1d(alloc, np.flatnonzero(mask[pcls_in]))
+    final_from_hard = np.isin(alloc, np.flatnonzero(mask[pcls_in]))
     mask.data[final_from_vtx] = final_from_hard
     return mask
 
-- 
2.43.0


From 145070c4f87868632d412672a7454b7bf7b416c0 Mon Sep 17 00:00:00 2001
From: verifier <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:50 +0000
Subject: [PATCH 02/37] fix: any_overlap used an attribute MaskGroup does not
 have

---
 graphicle/select.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/graphicle/select.py b/graphicle/select.py
index c2a8a3f..b7bcc72 100644
--- a/graphicle/select.py
+++ b/graphicle/select.py
@@ -938,10 +938,9 @@ def any_overlap(masks: gcl.MaskGroup[MaskType]) -> bool:
         ``True`` if at least two ``MaskArrays`` in ``masks`` have at
         least one ``True`` element in the same location.
     """
-    combos = it.combinations(masks.dict.values(), 2)
-    pair_checks = map(np.bitwise_and, *zip(*combos))
-    overlaps: bool = np.bitwise_or.reduce(tuple(pair_checks), axis=None)
-    return overlaps
+    data = map(op.attrgetter("data"), masks.values())
+    combos = it.combinations(data, 2)
+    return any(bool(np.any(mask_1 & mask_2)) for mask_1, mask_2 in combos)
 
 
 def centroid_prune(
-- 
2.43.0


From 3397075f642a88f674dd9a9cc656bab4e02eda37 Mon Sep 17 00:00:00 2001
From: verifier <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:50 +0000
Subject: [PATCH 03/37] fix: hard_descendants marked the wrong hard partons
 when given a target

---
 graphicle/select.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/graphicle/select.py b/graphicle/select.py
index b7bcc72..d41a65e 100644
--- a/graphicle/select.py
+++ b/graphicle/select.py
@@ -686,6 +686,7 @@ def hard_descendants(
     hard_mask = graph.hard_mask
     del hard_mask["incoming"]
     hard_graph = graph[hard_mask]
+    hard_idxs = np.flatnonzero(hard_mask)
     if target is not None:
         target_pdgs = set(target) if sign_sensitive else set(map(abs, target))
         target_mask = hard_graph.pdg.mask(
@@ -704,11 +705,12 @@ def hard_descendants(
             missing_str = ", ".join(map(str, missing_pdgs))
             raise ValueError(f"Missing PDGs in hard process: {missing_str}.")
         hard_graph = hard_graph[target_mask]
+        hard_idxs = hard_idxs[target_mask.data]
     pdg_keys = _pdgs_to_keys(hard_graph.pdg)
     pcl_out_vtxs = map(int, hard_graph.edges["dst"])
     descs = map(vertex_descendants, it.repeat(graph.adj), pcl_out_vtxs)
     group = gcl.MaskGroup(cl.OrderedDict(zip(pdg_keys, descs)), agg_op="or")
-    for key, idx in zip(pdg_keys, np.flatnonzero(hard_mask)):
+    for key, idx in zip(pdg_keys, hard_idxs):
         group[key][idx] = True
     return group
 
-- 
2.43.0


From 68131e4b02522fb0183b292c833ec3197c4de1a5 Mon Sep 17 00:00:00 2001
From: verifier <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:50 +0000
Subject: [PATCH 04/37] fix: hierarchy leaf masks included the parent of the
 parton

---
 graphicle/select.py | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/graphicle/select.py b/graphicle/select.py
index d41a65e..f0d7320 100644
--- a/graphicle/select.py
+++ b/graphicle/select.py
@@ -867,12 +867,7 @@ def _make_tree(
                     branch[parton].data != desc[parton].data
                 )
             else:
-                mask = desc[parton]
-                in_edge = adj.edges["src"][mask][0]
-                initial_parton_mask = adj.edges["dst"] == in_edge
-                if np.sum(initial_parton_mask) == 1:
-                    mask.data[initial_parton_mask] = True
-                branch[parton] = mask
+                branch[parton] = desc[parton]
     return branch
 
 
-- 
2.43.0


From 200bbba0e7209b38f99e85b9e8a103f7a55ce28c Mon Sep 17 00:00:00 2001
From: verifier <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:50 +0000
Subject: [PATCH 05/37] fix: PdgArray.mask ignored negative targets when not
 sign sensitive

---
 graphicle/data.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/graphicle/data.py b/graphicle/data.py
index d358d93..0d0d59c 100644
--- a/graphicle/data.py
+++ b/graphicle/data.py
@@ -1225,6 +1225,7 @@ class PdgArray(base.ArrayBase):
         data = self.data
         if sign_sensitive is False:
             data = np.abs(data, dtype=_types.int)
+            target = np.abs(target)
         return MaskArray(
             np.isin(data, target, assume_unique=False, invert=blacklist)
         )
-- 
2.43.0


From 76fab388aab65351d70e4b5959cc15d14d2fbe90 Mon Sep 17 00:00:00 2001
From: verifier <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:50 +0000
Subject: [PATCH 06/37] fix: a ColorArray of one element had the wrong shape

---
 graphicle/data.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/graphicle/data.py b/graphicle/data.py
index 0d0d59c..391ce49 100644
--- a/graphicle/data.py
+++ b/graphicle/data.py
@@ -1833,6 +1833,7 @@ class ColorArray(base.ArrayBase):
     _HANDLED_TYPES: ty.Tuple[ty.Type, ...] = field(init=False, repr=False)
 
     def __attrs_post_init__(self):
+        self._data = self._data.reshape(-1, 2)
         self.dtype = np.dtype(
             list(zip(("color", "anticolor"), it.repeat("<i4")))
         )
-- 
2.43.0


From b547688120e1ac078646c73c5dd663a76d97a0ed Mon Sep 17 00:00:00 2001
From: verifier <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:50 +0000
Subject: [PATCH 07/37] fix: == and != rejected adjacency lists and structured
 arrays

---
 graphicle/data.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/graphicle/data.py b/graphicle/data.py
index 391ce49..24df587 100644
--- a/graphicle/data.py
+++ b/graphicle/data.py
@@ -242,10 +242,10 @@ def _array_eq_prep(
     """
     other_data = other
     dtype = instance.data.dtype
-    if isinstance(other, base.ArrayBase):
+    if isinstance(other, (base.ArrayBase, base.AdjacencyBase)):
         other_data = other.data
     elif (dtype.type == np.void) and not (
-        isinstance(other, np.ndarray) and (other.dtype == np.void)
+        isinstance(other, np.ndarray) and (other.dtype.type == np.void)
     ):
         dt_set = set(map(op.itemgetter(1), dtype.descr))
         assert len(dt_set) == 1
-- 
2.43.0


From 3d302027da71d3e071947107ff680ecb79c50453 Mon Sep 17 00:00:00 2001
From: verifier <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:51 +0000
Subject: [PATCH 08/37] fix: selecting from or copying an AdjacencyList lost
 its weights

---
 graphicle/data.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/graphicle/data.py b/graphicle/data.py
index 24df587..ca9ece9 100644
--- a/graphicle/data.py
+++ b/graphicle/data.py
@@ -2479,11 +2479,14 @@ class AdjacencyList(base.AdjacencyBase):
     def __getitem__(self, key) -> "AdjacencyList":
         if isinstance(key, base.MaskBase):
             key = key.data
-        return self.__class__(self._data[key].reshape(-1, 2))
+        data = self._data[key].reshape(-1, 2)
+        if self.weights.size > 0:
+            return self.__class__(data, self.weights[key])
+        return self.__class__(data)
 
     def copy(self) -> "AdjacencyList":
         """Copies the underlying data into a new AdjacencyList instance."""
-        return self.__class__(self._data.copy())
+        return self.__class__(self._data.copy(), self.weights.copy())
 
     @fn.cached_property
     def _edge_relabel(self) -> base.IntVector:
-- 
2.43.0


From cc6d1c22f743ba31081e72773bbca24e1b812770 Mon Sep 17 00:00:00 2001
From: verifier <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:51 +0000
Subject: [PATCH 09/37] fix: from_spherical_uniform momenta were not uniform
 over the sphere

---
 graphicle/data.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/graphicle/data.py b/graphicle/data.py
index ca9ece9..bf556dc 100644
--- a/graphicle/data.py
+++ b/graphicle/data.py
@@ -1409,7 +1409,7 @@ class MomentumArray(base.ArrayBase):
         theta_polar = p_mag * np.exp(
             1.0j * np.arccos(1.0 - 2.0 * rng.random(size, dtype=np.float64))
         )
-        phi_polar = theta_polar.real * np.exp(
+        phi_polar = theta_polar.imag * np.exp(
             1.0j * rng.uniform(-np.pi, np.pi, size)
         )
         return cls(
@@ -1417,7 +1417,7 @@ class MomentumArray(base.ArrayBase):
                 [
                     phi_polar.real.reshape(-1, 1),
                     phi_polar.imag.reshape(-1, 1),
-                    theta_polar.imag.reshape(-1, 1),
+                    theta_polar.real.reshape(-1, 1),
                     energy.reshape(-1, 1),
                 ]
             )
-- 
2.43.0


From 09e64587b133b8ed067c11b1a87b59bfc841e5df Mon Sep 17 00:00:00 2001
From: verifier <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:51 +0000
Subject: [PATCH 10/37] fix: soft_hard_axis returned the elevation in place of
 the inclination

---
 graphicle/transform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphicle/transform.py b/graphicle/transform.py
index b812f31..a27bac9 100644
--- a/graphicle/transform.py
+++ b/graphicle/transform.py
@@ -49,7 +49,7 @@ def _angles_to_axis(angles: SphericalAngle) -> SphericalAxis:
 def _axis_to_angles(axis: SphericalAxis) -> SphericalAngle:
     phi_polar = complex(axis.x, axis.y)
     pt, phi = cmath.polar(phi_polar)
-    theta_polar = complex(pt, axis.z)
+    theta_polar = complex(axis.z, pt)
     theta = cmath.phase(theta_polar)
     return SphericalAngle(theta=theta, phi=phi)
 
-- 
2.43.0


From 5ff81cece430939d7368527ee3d33dffc8e51215 Mon Sep 17 00:00:00 2001
From: verifier <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:51 +0000
Subject: [PATCH 11/37] fix: knn_adj gave edges along the wrong axis and
 refused k = n - 1

---
 graphicle/matrix.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/graphicle/matrix.py b/graphicle/matrix.py
index 6f57f35..c4a1fc0 100644
--- a/graphicle/matrix.py
+++ b/graphicle/matrix.py
@@ -130,11 +130,11 @@ def knn_adj(
     If weighted is ``False``, the returned adjacency matrix will be
     boolean.
     """
-    axis = 0  # calculate everything row-wise
+    axis = 1  # calculate everything row-wise
     if self_loop is False:
         k = k + 1  # for when we get rid of self-neighbours
-    knn_idxs = np.argpartition(matrix, kth=k, axis=axis)
-    near = knn_idxs[:k]
+    knn_idxs = np.argpartition(matrix, kth=(k - 1), axis=axis)
+    near = knn_idxs[:, :k]
     edge_weights = 1
     if weighted is True:
         if dtype is None:
-- 
2.43.0


From 064e63a737a5b66492bfb3e341cfd20a871c38ea Mon Sep 17 00:00:00 2001
From: verifier <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:51 +0000
Subject: [PATCH 12/37] fix: arg_closest divided by zero when candidates had no
 variance

---
 graphicle/calculate.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/graphicle/calculate.py b/graphicle/calculate.py
index d13c1d1..93646de 100644
--- a/graphicle/calculate.py
+++ b/graphicle/calculate.py
@@ -927,12 +927,14 @@ def _assignment_cost(
     pt_2 = rapidity_2  # recycle memory buffer for transverse momenta
     for pol_idx, pol_val in enumerate(xy_pol_2):
         pt_2[pol_idx] = abs(pol_val)
-    var_pt_recip = 1.0 / np.var(pt_2)
+    var_pt = np.var(pt_2)
+    var_pt_recip = 1.0 / var_pt if var_pt > 0.0 else 0.0
     num_partons = dist_matrix.shape[0]
     for parton_idx in nb.prange(num_partons):
         row = dist_matrix[parton_idx, :]
         pt_1_val = abs(xy_pol_1[parton_idx])
-        var_dR_recip = 1.0 / np.var(row)
+        var_dR = np.var(row)
+        var_dR_recip = 1.0 / var_dR if var_dR > 0.0 else 0.0
         for jet_idx, (dR_val, pt_2_val) in enumerate(zip(row, pt_2)):
             dpt = pt_1_val - pt_2_val
             dR_cost = math.expm1(-0.5 * var_dR_recip * dR_val * dR_val)
-- 
2.43.0


From 9a2683bb40b70fc8f4682692fc361009b98f865d Mon Sep 17 00:00:00 2001
From: verifier <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:51 +0000
Subject: [PATCH 13/37] fix: from_lhe_event overwrote the status codes of the
 event

---
 graphicle/data.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/graphicle/data.py b/graphicle/data.py
index bf556dc..e8d6d0d 100644
--- a/graphicle/data.py
+++ b/graphicle/data.py
@@ -2333,6 +2333,7 @@ class ParticleSet(base.ParticleBase):
         """
         props = ("pdg", "pmu", "color", "helicity", "status")
         pcls = cls.from_numpy(**{name: getattr(event, name) for name in props})
+        pcls.status = pcls.status.copy()
         pcls.final = MaskArray(np.zeros(len(pcls), dtype=np.bool_))
         status_map = {-1: -21, 1: -23, -2: -22, 2: -22, 3: -22, -9: -12}
         for old_code, new_code in status_map.items():
-- 
2.43.0


From a87de27e2bcd2e321dcc7fffc0c522a302d13aa2 Mon Sep 17 00:00:00 2001
From: verifier <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:47 +0000
Subject: [PATCH 14/37] fix: shift_eta never converged when the resultant was
 massive

---
 graphicle/data.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/graphicle/data.py b/graphicle/data.py
index e8d6d0d..dec4c42 100644
--- a/graphicle/data.py
+++ b/graphicle/data.py
@@ -1700,8 +1700,12 @@ class MomentumArray(base.ArrayBase):
             if math.isclose(eta_mid, target, rel_tol=0.0, abs_tol=abs_tol):
                 converged = True
                 break
+            # rapidity of the resultant when its pseudorapidity is target
+            pmu_sum = np.sum(pmu, axis=0)
+            pt_ratio = (pmu_sum.pt / pmu_sum.mass_t).item()
+            rap_target = np.arcsinh(pt_ratio * np.sinh(target)).item()
             rap_mid, _ = calculate.resultant_coords(pmu, pseudo=False)
-            correction = target - rap_mid
+            correction = rap_target - rap_mid
             pmu = pmu.shift_rapidity(correction)
             eta_mid, _ = calculate.resultant_coords(pmu, pseudo=True)
         if converged is not True:
-- 
2.43.0


From edac231a078c8a7c83fd2c1664a49b01af3b3220 Mon Sep 17 00:00:00 2001
From: verifier <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:47 +0000
Subject: [PATCH 15/37] fix: setting MomentumArray.data left stale cached
 quantities

---
 graphicle/data.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/graphicle/data.py b/graphicle/data.py
index dec4c42..fec11b9 100644
--- a/graphicle/data.py
+++ b/graphicle/data.py
@@ -1443,6 +1443,22 @@ class MomentumArray(base.ArrayBase):
     @data.setter
     def data(self, values: npt.ArrayLike) -> None:
         self._data = values  # type: ignore
+        self._data = self._data.reshape(-1, 4)
+        # quantities cached from the replaced data are no longer valid
+        for name in (
+            "_zt_pol",
+            "_spatial_mag",
+            "eta",
+            "rapidity",
+            "phi",
+            "theta",
+            "mass",
+            "mass_t",
+        ):
+            try:
+                delattr(self, name)
+            except AttributeError:
+                continue
 
     @classmethod
     def __array_wrap__(cls, array: base.AnyVector) -> "MomentumArray":
-- 
2.43.0


From a52b0a55225c23c61f44261670a1043c3908123f Mon Sep 17 00:00:00 2001
From: verifier <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:47 +0000
Subject: [PATCH 16/37] fix: setting ColorArray.data to one pair gave the wrong
 shape

---
 graphicle/data.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/graphicle/data.py b/graphicle/data.py
index fec11b9..c0a2627 100644
--- a/graphicle/data.py
+++ b/graphicle/data.py
@@ -1890,6 +1890,7 @@ class ColorArray(base.ArrayBase):
     @data.setter
     def data(self, values: npt.ArrayLike) -> None:
         self._data = values  # type: ignore
+        self._data = self._data.reshape(-1, 2)
 
     @property
     def color(self) -> base.IntVector:
-- 
2.43.0


From 54d3edf64f4988776a8c05feffc5a1da37192b78 Mon Sep 17 00:00:00 2001
From: verifier <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:47 +0000
Subject: [PATCH 17/37] fix: event shapes divided by zero for a particle at
 rest

---
 graphicle/calculate.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/graphicle/calculate.py b/graphicle/calculate.py
index 93646de..5580140 100644
--- a/graphicle/calculate.py
+++ b/graphicle/calculate.py
@@ -432,6 +432,8 @@ def aggregate_momenta(
 @nb.njit("float64(float64, float64, float64)", cache=True)
 def _three_norm(x: float, y: float, z: float) -> float:
     max_component = max(abs(x), abs(y), abs(z))
+    if max_component == 0.0:
+        return 0.0
     max_recip = 1.0 / max_component
     x *= max_recip
     y *= max_recip
@@ -672,6 +674,8 @@ def _spherocity_with_grad(
         cross_y = z * ax_x - x * ax_z
         cross_z = x * ax_y - y * ax_x
         cross_norm = _three_norm(cross_x, cross_y, cross_z)
+        if cross_norm == 0.0:
+            continue
         cross_norm_sum += cross_norm
         # accumulate gradient contributions
         x_sq, y_sq = x * x, y * y
@@ -806,6 +810,8 @@ def _c_parameter(momenta: base.VoidVector) -> float:
             x_j, y_j, z_j = pmu_j["x"], pmu_j["y"], pmu_j["z"]
             norm_j = _three_norm(x_j, y_j, z_j)
             norm_prod = norm_i * norm_j
+            if norm_prod == 0.0:
+                continue
             i_dot_j = (x_i * x_j) + (y_i * y_j) + (z_i * z_j)
             output += 2.0 * (norm_prod - (i_dot_j * i_dot_j / norm_prod))
     return 1.5 * output / (norm_sum * norm_sum)
-- 
2.43.0


From eb04afc61c2710bb53bbdbe7c58f19e83e33fbc6 Mon Sep 17 00:00:00 2001
From: verifier <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:47 +0000
Subject: [PATCH 18/37] fix: structured color data was read by position instead
 of by name

---
 graphicle/data.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/graphicle/data.py b/graphicle/data.py
index c0a2627..b89bbf0 100644
--- a/graphicle/data.py
+++ b/graphicle/data.py
@@ -428,6 +428,8 @@ def _array_field(dtype: npt.DTypeLike, num_cols: int = 1):
                 values = _reorder_pmu(values)
             elif (num_cols == 2) and (set(_EDGE_MAP.keys()) & set(names)):
                 values = _reorder_edges(values)
+            elif (num_cols == 2) and (names == ("anticolor", "color")):
+                values = values[["color", "anticolor"]]
             values = rfn.structured_to_unstructured(values)
         array = np.asarray(values, dtype=dtype)
         shape = array.shape
-- 
2.43.0


From ff7bddf4ead33381438398a0918e5c98d75c2322 Mon Sep 17 00:00:00 2001
From: verifier <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:47 +0000
Subject: [PATCH 19/37] fix: comparing a MaskArray with a MaskGroup raised an
 error

---
 graphicle/data.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/graphicle/data.py b/graphicle/data.py
index b89bbf0..ed5c7e6 100644
--- a/graphicle/data.py
+++ b/graphicle/data.py
@@ -617,6 +617,7 @@ def _mask_eq(mask1: base.MaskLike, mask2: base.MaskLike) -> MaskArray:
         raise ValueError(
             "Bitwise operation supported for graphicle or numpy arrays."
         )
+    mask1, mask2 = np.asarray(mask1), np.asarray(mask2)
     shape1, shape2 = np.shape(mask1), np.shape(mask2)
     if shape1 != shape2:
         raise ValueError(f"Incompatible mask shapes {shape1} and {shape2}.")
@@ -638,6 +639,7 @@ def _mask_neq(mask1: base.MaskLike, mask2: base.MaskLike) -> MaskArray:
         raise ValueError(
             "Bitwise operation supported for graphicle or numpy arrays."
         )
+    mask1, mask2 = np.asarray(mask1), np.asarray(mask2)
     shape1, shape2 = np.shape(mask1), np.shape(mask2)
     if shape1 != shape2:
         raise ValueError(f"Incompatible mask shapes {shape1} and {shape2}.")
-- 
2.43.0


From 01681cf1743afb4f631b69fe564be1dd0d1ea035 Mon Sep 17 00:00:00 2001
From: verifier <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:47 +0000
Subject: [PATCH 20/37] fix: arg_closest overwrote rapidities already handed to
 the caller

---
 graphicle/select.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/graphicle/select.py b/graphicle/select.py
index f0d7320..8e65d84 100644
--- a/graphicle/select.py
+++ b/graphicle/select.py
@@ -1221,11 +1221,10 @@ def arg_closest(
     with gcl.calculate._thread_scope(num_threads):
         cost_matrix = gcl.calculate._assignment_cost(
             focus.rapidity,
-            candidate.rapidity,
+            candidate.rapidity.copy(),  # used as a buffer, overwritten
             focus._xy_pol,
             candidate._xy_pol,
         )
-    del candidate.rapidity  # inplace operation above invalidates cache
     _, idxs = opt.linear_sum_assignment(cost_matrix)
     return idxs.tolist()
 
-- 
2.43.0


From 0c6d7bc24783d2d3f9338cdc19698ee481abe8cf Mon Sep 17 00:00:00 2001
From: verifier <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:47 +0000
Subject: [PATCH 21/37] fix: monte_carlo_tag kept blacklisted partons given an
 empty whitelist

---
 graphicle/select.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphicle/select.py b/graphicle/select.py
index 8e65d84..cb3b790 100644
--- a/graphicle/select.py
+++ b/graphicle/select.py
@@ -1363,7 +1363,7 @@ def monte_carlo_tag(
         if not sign_sensitive:
             hard_pdg_ = np.abs(hard_pdg_)
             list_ = np.abs(list_)
-        hard_mask = np.isin(hard_pdg_, list_, invert=(whitelist is None))
+        hard_mask = np.isin(hard_pdg_, list_, invert=(not whitelist))
         if not np.any(hard_mask):
             raise IndexError("No partons matching filters found.")
         hard_pmu = hard_pmu[hard_mask]
-- 
2.43.0


From dd189930a68f4a20696396c8ca1a2b37bcfeb4ee Mon Sep 17 00:00:00 2001
From: verifier <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:39 +0000
Subject: [PATCH 22/37] fix: hierarchy left out hard partons with no hard
 relatives

---
 graphicle/select.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/graphicle/select.py b/graphicle/select.py
index cb3b790..c330db5 100644
--- a/graphicle/select.py
+++ b/graphicle/select.py
@@ -822,6 +822,9 @@ def hierarchy(
         for key, idx in zip(hard_final_keys, hard_final_idxs):
             desc[key].data[idx] = True
     masks = _make_tree(hard, roots, hard, desc, graph.adj)
+    # partons with neither hard parents nor hard children are at the top
+    for name in it.filterfalse(keys.union(vals).__contains__, names):
+        masks[name] = desc[name]
     return masks
 
 
-- 
2.43.0


From 9c8e2740ffe45e21d9a065e5ae09f1796332f0f1 Mon Sep 17 00:00:00 2001
From: verifier <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:48 +0000
Subject: [PATCH 23/37] fix: an AdjacencyList of one edge had the wrong shape

---
 graphicle/data.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/graphicle/data.py b/graphicle/data.py
index ed5c7e6..a8d8ea6 100644
--- a/graphicle/data.py
+++ b/graphicle/data.py
@@ -2462,6 +2462,7 @@ class AdjacencyList(base.AdjacencyBase):
     _HANDLED_TYPES: ty.Tuple[ty.Type, ...] = field(init=False, repr=False)
 
     def __attrs_post_init__(self):
+        self._data = self._data.reshape(-1, 2)
         self.dtype = np.dtype(list(zip(("src", "dst"), ("<i4",) * 2)))
         self._HANDLED_TYPES = (np.ndarray, nm.Number, cla.Sequence)
 
-- 
2.43.0


From 293ab7b5c466f63878d5063cf73f51745b2f5e06 Mon Sep 17 00:00:00 2001
From: verifier <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:02 +0000
Subject: [PATCH 24/37] fix: arithmetic results which do not fit the column
 were truncated to its type

Row reductions with axis=-1 were also read as momenta.
---
 graphicle/data.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/graphicle/data.py b/graphicle/data.py
index a8d8ea6..530448e 100644
--- a/graphicle/data.py
+++ b/graphicle/data.py
@@ -229,7 +229,10 @@ def _array_ufunc(
         return MaskArray(result)
     else:
         # one return value
-        if not result.shape or kwargs.get("axis", None) == 1:
+        per_row = instance._data.ndim == 2 and kwargs.get("axis") in (1, -1)
+        if not result.shape or per_row:
+            return result
+        if not np.can_cast(result.dtype, instance._data.dtype, "same_kind"):
             return result
         return class_type(result)
 
-- 
2.43.0


From ef5e951d889b0df22f4a137d80c05c44e8198136 Mon Sep 17 00:00:00 2001
From: verifier <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:58 +0000
Subject: [PATCH 25/37] fix: a column of numbers was read as one row of a
 multi-component array

---
 graphicle/data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphicle/data.py b/graphicle/data.py
index 530448e..a39cc24 100644
--- a/graphicle/data.py
+++ b/graphicle/data.py
@@ -437,7 +437,7 @@ def _array_field(dtype: npt.DTypeLike, num_cols: int = 1):
         array = np.asarray(values, dtype=dtype)
         shape = array.shape
         len_shape = len(shape)
-        is_flat = (len_shape == 1) or (len_shape == 0) or (shape[1] == 1)
+        is_flat = len_shape < 2 or (num_cols == 1 and shape[1] == 1)
         if is_flat and (num_cols == 1):
             return array.reshape(-1)
         cols = shape[0] if is_flat else shape[1]
-- 
2.43.0


From e25de4037d48c8902d61fc6c1a1b1c58debf327b Mon Sep 17 00:00:00 2001
From: verifier <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:41 +0000
Subject: [PATCH 26/37] fix: tables of events with edges only had no rows

---
 graphicle/data.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/graphicle/data.py b/graphicle/data.py
index a39cc24..8f8cf7b 100644
--- a/graphicle/data.py
+++ b/graphicle/data.py
@@ -2757,6 +2757,8 @@ class Graphicle:
         if not self.adj:
             return _table_repr(headers, rows, num_rows, html)
         headers = headers + ("src", "dst")
+        if not self.particles:
+            rows = it.repeat(tuple())
         rows = map(lambda row, edge: row + edge, rows, self.adj)
         return _table_repr(headers, rows, num_rows, html)
 
-- 
2.43.0


From e1dfd5f5fbfd23b3f634864a6516a871e4850c7f Mon Sep 17 00:00:00 2001
From: verifier <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:06 +0000
Subject: [PATCH 27/37] fix: quantities cached from a column outlived in-place
 arithmetic on it

---
 graphicle/data.py | 46 +++++++++++++++++++++++++++++++---------------
 1 file changed, 31 insertions(+), 15 deletions(-)

diff --git a/graphicle/data.py b/graphicle/data.py
index 8f8cf7b..8651271 100644
--- a/graphicle/data.py
+++ b/graphicle/data.py
@@ -161,6 +161,17 @@ class VertexPair(ty.NamedTuple):
     dst: int
 
 
+def _drop_cached(instance: ty.Any) -> None:
+    """Drops the quantities an object has cached from its underlying
+    data, as they are no longer valid once the data is modified.
+    """
+    for name in getattr(instance, "_CACHED", ()):
+        try:
+            delattr(instance, name)
+        except AttributeError:
+            continue
+
+
 # from https://numpy.org/doc/stable/reference/generated/numpy.lib.mixins
 # .NDArrayOperatorsMixin.html
 def _array_ufunc(
@@ -211,6 +222,7 @@ def _array_ufunc(
         if not isinstance(x, instance._HANDLED_TYPES + (class_type,)):
             return NotImplemented
 
+    modified = inputs[:1] if method == "at" else out
     # Defer to the implementation of the ufunc on unwrapped values.
     inputs = tuple(x._data if isinstance(x, class_type) else x for x in inputs)
     if out:
@@ -218,6 +230,8 @@ def _array_ufunc(
             x._data if isinstance(x, class_type) else x for x in out
         )
     result = op.methodcaller(method, *inputs, **kwargs)(ufunc)
+    for x in modified:
+        _drop_cached(x)
 
     if type(result) is tuple:
         # multiple return values
@@ -1343,6 +1357,16 @@ class MomentumArray(base.ArrayBase):
     """
 
     # data: base.AnyVector = array_field("pmu")
+    _CACHED = (
+        "_zt_pol",
+        "_spatial_mag",
+        "eta",
+        "rapidity",
+        "phi",
+        "theta",
+        "mass",
+        "mass_t",
+    )
     _data: base.DoubleVector = _array_field("<f8", num_cols=4)
     dtype: np.dtype = field(init=False, repr=False)
     _HANDLED_TYPES: ty.Tuple[ty.Type, ...] = field(init=False, repr=False)
@@ -1451,21 +1475,7 @@ class MomentumArray(base.ArrayBase):
     def data(self, values: npt.ArrayLike) -> None:
         self._data = values  # type: ignore
         self._data = self._data.reshape(-1, 4)
-        # quantities cached from the replaced data are no longer valid
-        for name in (
-            "_zt_pol",
-            "_spatial_mag",
-            "eta",
-            "rapidity",
-            "phi",
-            "theta",
-            "mass",
-            "mass_t",
-        ):
-            try:
-                delattr(self, name)
-            except AttributeError:
-                continue
+        _drop_cached(self)
 
     @classmethod
     def __array_wrap__(cls, array: base.AnyVector) -> "MomentumArray":
@@ -2459,6 +2469,12 @@ class AdjacencyList(base.AdjacencyBase):
         Scalar value embedded on each edge.
     """
 
+    _CACHED = (
+        "_edge_relabel",
+        "_sparse_signed",
+        "_sparse_unsigned",
+        "_sparse_csr",
+    )
     _data: base.IntVector = _array_field("<i4", 2)
     weights: base.DoubleVector = _array_field("<f8")
     dtype: np.dtype = field(init=False, repr=False)
-- 
2.43.0


From 51e8407458f41d04c17f77ecd6022327a8e8a47c Mon Sep 17 00:00:00 2001
From: verifier <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:43 +0000
Subject: [PATCH 28/37] fix: inclination gradient of spherocity used x*y for
 x*z

---
 graphicle/calculate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphicle/calculate.py b/graphicle/calculate.py
index 5580140..b1ccde5 100644
--- a/graphicle/calculate.py
+++ b/graphicle/calculate.py
@@ -687,7 +687,7 @@ def _spherocity_with_grad(
             - sin_2theta * ((y * z * cos_phi) - (x * z * sin_phi))
         )
         grad_theta_sum += cross_norm_recip * (
-            -2.0 * cos_2theta * ((x * y * cos_phi) + (y * z * sin_phi))
+            -2.0 * cos_2theta * ((x * z * cos_phi) + (y * z * sin_phi))
             - 0.5
             * sin_2theta
             * (
-- 
2.43.0


From 39761111dcd66d17c2633078c79985a76156fdaf Mon Sep 17 00:00:00 2001
From: verifier <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:43 +0000
Subject: [PATCH 29/37] fix: thrust and spherocity axes were trapped at the
 edge of the angular box

---
 graphicle/calculate.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/graphicle/calculate.py b/graphicle/calculate.py
index b1ccde5..fd7480f 100644
--- a/graphicle/calculate.py
+++ b/graphicle/calculate.py
@@ -614,7 +614,6 @@ def thrust(
     optim = spo.minimize(
         fun=_thrust_with_grad,
         x0=guess,
-        bounds=(domain, domain),
         method="L-BFGS-B",
         jac=True,
         args=(pmu.data,),
@@ -789,7 +788,7 @@ def spherocity(
     optim = spo.minimize(
         fun=_spherocity_with_grad,
         x0=guess,
-        bounds=(domain, domain),
+        method="L-BFGS-B",
         jac=True,
         args=(pmu.data,),
     )
-- 
2.43.0


From b9ec7cb6ca764aafe05f57952ec6381f4ce0d6b9 Mon Sep 17 00:00:00 2001
From: verifier <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:42 +0000
Subject: [PATCH 30/37] fix: spherocity was not that of the reported axis when
 the line search failed

---
 graphicle/calculate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphicle/calculate.py b/graphicle/calculate.py
index fd7480f..041d90f 100644
--- a/graphicle/calculate.py
+++ b/graphicle/calculate.py
@@ -792,7 +792,7 @@ def spherocity(
         jac=True,
         args=(pmu.data,),
     )
-    sph_val = optim.fun
+    sph_val, _ = _spherocity_with_grad(optim.x, pmu.data)
     if return_axis:
         return sph_val, _angles_to_axis(optim.x)
     return sph_val
-- 
2.43.0


From 6673945286e0c251d4ed9d712f9700b0b873e518 Mon Sep 17 00:00:00 2001
From: verifier <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:51 +0000
Subject: [PATCH 31/37] fix: nearest neighbours lost when others are as near as
 the particle itself

---
 graphicle/matrix.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/graphicle/matrix.py b/graphicle/matrix.py
index c4a1fc0..266d7d5 100644
--- a/graphicle/matrix.py
+++ b/graphicle/matrix.py
@@ -131,9 +131,11 @@ def knn_adj(
     boolean.
     """
     axis = 1  # calculate everything row-wise
+    ranked = matrix
     if self_loop is False:
         k = k + 1  # for when we get rid of self-neighbours
-    knn_idxs = np.argpartition(matrix, kth=(k - 1), axis=axis)
+        ranked = np.where(np.eye(len(matrix), dtype="<?"), -np.inf, matrix)
+    knn_idxs = np.argpartition(ranked, kth=(k - 1), axis=axis)
     near = knn_idxs[:, :k]
     edge_weights = 1
     if weighted is True:
-- 
2.43.0


From 6a90661635c7f9f9559df89dc5e1a5b7ab400d19 Mon Sep 17 00:00:00 2001
From: verifier <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:09 +0000
Subject: [PATCH 32/37] fix: jets could not be clustered with whole powers
 other than -1, 0 and 1

FastJet takes an int after the radius for a recombination scheme, not for
the exponent.
---
 graphicle/select.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphicle/select.py b/graphicle/select.py
index c330db5..f469d14 100644
--- a/graphicle/select.py
+++ b/graphicle/select.py
@@ -144,7 +144,7 @@ def fastjet_clusters(
         algo = fj.kt_algorithm
     else:
         algo = fj.genkt_algorithm
-        extra_param = (p_val,)
+        extra_param = (float(p_val),)
     jet_def = fj.JetDefinition(algo, radius, *extra_param)
     sequence = fj.ClusterSequence(pmu_ak, jet_def)
     jets = sequence.inclusive_jets(pt_cut)
-- 
2.43.0


From 57ac4cd60ad002c5485a4adc7d7be41e9c1996a1 Mon Sep 17 00:00:00 2001
From: verifier <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:55 +0000
Subject: [PATCH 33/37] fix: arrays viewing a column were left dangling when
 its contents were replaced

---
 graphicle/data.py | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/graphicle/data.py b/graphicle/data.py
index 8651271..d867940 100644
--- a/graphicle/data.py
+++ b/graphicle/data.py
@@ -471,6 +471,15 @@ def _array_field(dtype: npt.DTypeLike, num_cols: int = 1):
     )
 
 
+def _array_interface(data: base.AnyVector) -> ty.Dict[str, ty.Any]:
+    """Interface through which numpy views ``data``, keeping the memory
+    of ``data`` alive even if its owner replaces it.
+    """
+    interface = dict(data.__array_interface__)
+    interface["data"] = data
+    return interface
+
+
 def _truthy(data: ty.Union[base.ArrayBase, base.AdjacencyBase]) -> bool:
     """Defines the truthy value of the graphicle data structures."""
     return not (len(data) == 0)
@@ -518,7 +527,7 @@ class MaskArray(base.MaskBase, base.ArrayBase):
 
     @property
     def __array_interface__(self) -> ty.Dict[str, ty.Any]:
-        return self._data.__array_interface__
+        return _array_interface(self._data)
 
     def __array__(self) -> base.BoolVector:
         return self._data
@@ -1162,7 +1171,7 @@ class PdgArray(base.ArrayBase):
 
     @property
     def __array_interface__(self) -> ty.Dict[str, ty.Any]:
-        return self._data.__array_interface__
+        return _array_interface(self._data)
 
     @classmethod
     def __array_wrap__(cls, array: base.IntVector) -> "PdgArray":
@@ -1456,7 +1465,7 @@ class MomentumArray(base.ArrayBase):
 
     @property
     def __array_interface__(self) -> ty.Dict[str, ty.Any]:
-        return self._data.__array_interface__
+        return _array_interface(self._data)
 
     def __array_ufunc__(self, ufunc, method, *inputs, **kwargs):
         return _array_ufunc(self, ufunc, method, *inputs, **kwargs)
@@ -1878,7 +1887,7 @@ class ColorArray(base.ArrayBase):
 
     @property
     def __array_interface__(self) -> ty.Dict[str, ty.Any]:
-        return self._data.__array_interface__
+        return _array_interface(self._data)
 
     def __array_ufunc__(self, ufunc, method, *inputs, **kwargs):
         return _array_ufunc(self, ufunc, method, *inputs, **kwargs)
@@ -1981,7 +1990,7 @@ class HelicityArray(base.ArrayBase):
 
     @property
     def __array_interface__(self) -> ty.Dict[str, ty.Any]:
-        return self._data.__array_interface__
+        return _array_interface(self._data)
 
     def __array_ufunc__(self, ufunc, method, *inputs, **kwargs):
         return _array_ufunc(self, ufunc, method, *inputs, **kwargs)
@@ -2075,7 +2084,7 @@ class StatusArray(base.ArrayBase):
 
     @property
     def __array_interface__(self) -> ty.Dict[str, ty.Any]:
-        return self._data.__array_interface__
+        return _array_interface(self._data)
 
     def __array_ufunc__(self, ufunc, method, *inputs, **kwargs):
         return _array_ufunc(self, ufunc, method, *inputs, **kwargs)
@@ -2487,7 +2496,7 @@ class AdjacencyList(base.AdjacencyBase):
 
     @property
     def __array_interface__(self) -> ty.Dict[str, ty.Any]:
-        return self._data.__array_interface__
+        return _array_interface(self._data)
 
     def __array_ufunc__(self, ufunc, method, *inputs, **kwargs):
         return _array_ufunc(self, ufunc, method, *inputs, **kwargs)
-- 
2.43.0


From 790ffb893f5cf874083f76b33cfb3a4f03acdb18 Mon Sep 17 00:00:00 2001
From: verifier <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:01:36 +0000
Subject: [PATCH 34/37] fix: refuse to compare a column with a record its type
 cannot hold

---
 graphicle/data.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/graphicle/data.py b/graphicle/data.py
index d867940..c270974 100644
--- a/graphicle/data.py
+++ b/graphicle/data.py
@@ -273,7 +273,13 @@ def _array_eq_prep(
                 f"Cannot compare {other} against {instance.__class__.__name__}"
                 ", incompatible shape or type."
             )
-        other_data = np.array(other, dtype=dt_set.pop()).view(dtype)
+        other_data = np.array(other, dtype=dt_set.pop())
+        if np.any((other_data != np.array(other)) & (other_data == other_data)):
+            raise ValueError(
+                f"Cannot compare {other} against {instance.__class__.__name__}"
+                ", values cannot be represented."
+            )
+        other_data = other_data.view(dtype)
     return instance.data, other_data  # type: ignore
 
 
-- 
2.43.0


From 4f3cb5a88aac5f45415a06558d22133970d45602 Mon Sep 17 00:00:00 2001
From: verifier <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:51:23 +0000
Subject: [PATCH 35/37] fix: functions with several results were truncated to
 the type of the column

---
 graphicle/data.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/graphicle/data.py b/graphicle/data.py
index c270974..8bae470 100644
--- a/graphicle/data.py
+++ b/graphicle/data.py
@@ -235,7 +235,12 @@ def _array_ufunc(
 
     if type(result) is tuple:
         # multiple return values
-        return tuple(class_type(x) for x in result)
+        return tuple(
+            class_type(x)
+            if np.can_cast(x.dtype, instance._data.dtype, "same_kind")
+            else x
+            for x in result
+        )
     elif method == "at":
         # no return value
         return None
-- 
2.43.0


From 07affba01ab4cc2a187e97662ed262dd1deca9ef Mon Sep 17 00:00:00 2001
From: verifier <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:15:01 +0000
Subject: [PATCH 36/37] fix: the views of a graph without edges raised an error

---
 graphicle/data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphicle/data.py b/graphicle/data.py
index 8bae470..8ed2862 100644
--- a/graphicle/data.py
+++ b/graphicle/data.py
@@ -2714,7 +2714,7 @@ class AdjacencyList(base.AdjacencyBase):
             are ``"dst"`` indices for ``AdjacencyList.edges``.
         """
         abs_edges = self._edge_relabel
-        size = np.max(abs_edges) + 1
+        size = np.max(abs_edges, initial=-1) + 1
         if data is None:
             data = np.sign(self.data["dst"]) == 1
         return coo_array(
-- 
2.43.0


From c480b49de6c74b823212ec427bb52fe0a2aa5438 Mon Sep 17 00:00:00 2001
From: verifier <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:15:25 +0000
Subject: [PATCH 37/37] fix: vertex searches refused an event without edges

---
 graphicle/select.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/graphicle/select.py b/graphicle/select.py
index f469d14..452f28c 100644
--- a/graphicle/select.py
+++ b/graphicle/select.py
@@ -209,6 +209,8 @@ def find_vertex(
     if pdgs_out is None:
         pdgs_out = set()
     search = {"pdg_in": pdgs_in, "pdg_out": pdgs_out}
+    if len(graph.adj) == 0:
+        return graph.nodes  # no vertices to search
     # construct dataframe
     df = pd.DataFrame(graph.edges)
     df["pdg"] = graph.pdg.data
-- 
2.43.0

