From 59d2550c3b7d9bf953c87268c7b45e3d477053dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:14 +0000
Subject: [PATCH 01/63] fix: closed orifice of circular or other curved shape
 gave NaN area

---
 pipedream_solver/nsuperlink.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pipedream_solver/nsuperlink.py b/pipedream_solver/nsuperlink.py
index 107355e..a43d3ad 100644
--- a/pipedream_solver/nsuperlink.py
+++ b/pipedream_solver/nsuperlink.py
@@ -1861,7 +1861,10 @@ def numba_orifice_geometry(_Ao, h_eo, u_o, _g1_o, _g2_o, _g3_o, _geom_codes_o, n
         g3 = _g3_o[i]
         u = u_o[i]
         h_e = h_eo[i]
-        if geom_code:
+        if u <= 0.:
+            # Closed orifice: zero-sized openings are undefined for some shapes
+            _Ao[i] = 0.
+        elif geom_code:
             if geom_code == 1:
                 _Ao[i] = pipedream_solver.ngeometry.Circular_A_ik(h_e, h_e, g1 * u)
             elif geom_code == 2:
-- 
2.43.0


From f8032f1bb34990151b03844d7b8ad20d2414719c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:19 +0000
Subject: [PATCH 02/63] fix: conduit turned round by the constructor kept its
 end attributes on the wrong ends

---
 pipedream_solver/superlink.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pipedream_solver/superlink.py b/pipedream_solver/superlink.py
index 2abcd7a..a3bbbae 100644
--- a/pipedream_solver/superlink.py
+++ b/pipedream_solver/superlink.py
@@ -308,6 +308,15 @@ class SuperLink():
                 if cond:
                     superlinks.loc[k, 'sj_0'] = sj_1
                     superlinks.loc[k, 'sj_1'] = sj_0
+                    # Attributes of the two ends stay with their superjunctions
+                    for col_u, col_d in (('in_offset', 'out_offset'),
+                                         ('C_uk', 'C_dk'), ('dx_uk', 'dx_dk')):
+                        if (col_u in superlinks.columns) and (col_d in superlinks.columns):
+                            val_u = superlinks.loc[k, col_u]
+                            superlinks.loc[k, col_u] = superlinks.loc[k, col_d]
+                            superlinks.loc[k, col_d] = val_u
+                    if 'Q_0' in superlinks.columns:
+                        superlinks.loc[k, 'Q_0'] *= -1
         # Save copied input tables to class instance
         self.superjunctions = superjunctions
         self.superlinks = superlinks
-- 
2.43.0


From 276424bd94abcc3cb0ac6e990176a9b858cde629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:19 +0000
Subject: [PATCH 03/63] fix: step() without dt failed instead of using the
 model's default time step

---
 pipedream_solver/superlink.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pipedream_solver/superlink.py b/pipedream_solver/superlink.py
index a3bbbae..4a8365a 100644
--- a/pipedream_solver/superlink.py
+++ b/pipedream_solver/superlink.py
@@ -4128,6 +4128,8 @@ class SuperLink():
         """
         if banded is None:
             banded = self.banded
+        if dt is None:
+            dt = self._dt
         self._setup_step(H_bc=H_bc, Q_in=Q_in, Q_0Ik=Q_0Ik, u_o=u_o, u_w=u_w, u_p=u_p, dt=dt,
                          first_time=first_time, implicit=implicit, banded=banded,
                          first_iter=first_iter)
-- 
2.43.0


From 5ddff0778936ceecd994bc3d2897be8efb53670e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:43 +0000
Subject: [PATCH 04/63] fix: bed slope of the downstream end cell was guarded
 by the length of the upstream one

---
 pipedream_solver/superlink.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pipedream_solver/superlink.py b/pipedream_solver/superlink.py
index 4a8365a..8498090 100644
--- a/pipedream_solver/superlink.py
+++ b/pipedream_solver/superlink.py
@@ -739,7 +739,7 @@ class SuperLink():
         self._R_dk = np.copy(self._R_ik[self._i_nk])
         # End slopes
         cond_uk = (self._dx_uk > 0.)
-        cond_dk = (self._dx_uk > 0.)
+        cond_dk = (self._dx_dk > 0.)
         _S_o_uk = np.zeros(self.NK, dtype=np.float64)
         _S_o_dk = np.zeros(self.NK, dtype=np.float64)
         _S_o_uk[cond_uk] = (self._z_inv_uk - self._z_inv_Ik[self._I_1k])[cond_uk] / self._dx_uk[cond_uk]
-- 
2.43.0


From e6b3dd418a6b0b9c3014df7983576de2bb3af287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:27 +0000
Subject: [PATCH 05/63] fix: tabular storage volume integrated depth over area
 with a function SciPy no longer has

---
 pipedream_solver/nsuperlink.py | 2 +-
 pipedream_solver/storage.py    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pipedream_solver/nsuperlink.py b/pipedream_solver/nsuperlink.py
index a43d3ad..0eb2cf3 100644
--- a/pipedream_solver/nsuperlink.py
+++ b/pipedream_solver/nsuperlink.py
@@ -450,7 +450,7 @@ class nSuperLink(SuperLink):
             for name, storage in storages.items():
                 A = storage['A']
                 h = storage['h']
-                V = scipy.integrate.cumtrapz(h, A, initial=0.)
+                V = scipy.integrate.cumulative_trapezoid(A, h, initial=0.)
                 _storage_As.append(A)
                 _storage_Vs.append(V)
                 _storage_hs.append(h)
diff --git a/pipedream_solver/storage.py b/pipedream_solver/storage.py
index 44cd05d..157e008 100644
--- a/pipedream_solver/storage.py
+++ b/pipedream_solver/storage.py
@@ -62,7 +62,7 @@ class Tabular():
     def __init__(self, h, A):
         self.h = np.asarray(h)
         self.A = np.asarray(A)
-        self.V = scipy.integrate.cumtrapz(h, A, initial=0.)
+        self.V = scipy.integrate.cumulative_trapezoid(A, h, initial=0.)
         self.hmax = self.h.max()
         self.hmin = self.h.min()
         self.Amax = self.A.max()
-- 
2.43.0


From e77b28351bdec1135c687c9140b896f432c22682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:45 +0000
Subject: [PATCH 06/63] fix: storage tables listed out of name order were read
 at the wrong offsets, unused tables failed

---
 pipedream_solver/nsuperlink.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pipedream_solver/nsuperlink.py b/pipedream_solver/nsuperlink.py
index 0eb2cf3..a119f17 100644
--- a/pipedream_solver/nsuperlink.py
+++ b/pipedream_solver/nsuperlink.py
@@ -433,13 +433,13 @@ class nSuperLink(SuperLink):
         # All entries must either be function or tabular
         assert (_tabular.sum() + _functional.sum()) == _storage_type.shape[0]
         # Configure tabular storages
-        if storages:
+        if storages and _tabular.any():
             _tabular_storages = _storage_table[_tabular]
             _storage_indices = pd.Series(_tabular_storages.index, _tabular_storages.values)
             unique_storage_names = np.unique(_storage_indices.index.values)
             storage_name_to_ind = pd.Series(np.arange(unique_storage_names.size),
                                             index=unique_storage_names)
-            sj_to_storage_ind = _storage_table.dropna().map(storage_name_to_ind)
+            sj_to_storage_ind = _tabular_storages.map(storage_name_to_ind)
             _storage_inds = []
             _storage_lens = []
             _storage_As = []
@@ -448,6 +448,8 @@ class nSuperLink(SuperLink):
             order = []
             ix = 0
             for name, storage in storages.items():
+                if name not in storage_name_to_ind.index:
+                    continue
                 A = storage['A']
                 h = storage['h']
                 V = scipy.integrate.cumulative_trapezoid(A, h, initial=0.)
@@ -462,8 +464,8 @@ class nSuperLink(SuperLink):
             _storage_hs = np.concatenate([_storage_hs[i] for i in order])
             _storage_As = np.concatenate([_storage_As[i] for i in order])
             _storage_Vs = np.concatenate([_storage_Vs[i] for i in order])
-            _storage_inds = np.asarray(_storage_inds)[order]
             _storage_lens = np.asarray(_storage_lens)[order]
+            _storage_inds = np.cumsum(_storage_lens) - _storage_lens
             _storage_js = sj_to_storage_ind.index.values
             _storage_codes = sj_to_storage_ind.values
         # Export instance variables
-- 
2.43.0


From a532e2460b890b8b9bca66b5f6229a5b61ce9772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:45 +0000
Subject: [PATCH 07/63] fix: tabular storage volume between depth points was
 not the integral of the area

---
 pipedream_solver/nsuperlink.py | 3 ++-
 pipedream_solver/storage.py    | 6 ++++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/pipedream_solver/nsuperlink.py b/pipedream_solver/nsuperlink.py
index a119f17..bf0b1d2 100644
--- a/pipedream_solver/nsuperlink.py
+++ b/pipedream_solver/nsuperlink.py
@@ -2033,7 +2033,8 @@ def numba_compute_tabular_storage_volumes(h_j, V_sj, hs, As, Vs, sjs, sts, inds,
             dx_0 = h_search - h_range[ix - 1]
             dx_1 = h_range[ix] - h_search
             frac = dx_0 / (dx_0 + dx_1)
-            V_sj[sj] = (1 - frac) * V_range[ix - 1] + (frac) * V_range[ix]
+            A_search = (1 - frac) * A_range[ix - 1] + (frac) * A_range[ix]
+            V_sj[sj] = V_range[ix - 1] + dx_0 * (A_range[ix - 1] + A_search) / 2
     return V_sj
 
 @njit(float64(float64, float64, float64, float64, float64, float64, float64))
diff --git a/pipedream_solver/storage.py b/pipedream_solver/storage.py
index 157e008..efb7756 100644
--- a/pipedream_solver/storage.py
+++ b/pipedream_solver/storage.py
@@ -67,7 +67,6 @@ class Tabular():
         self.hmin = self.h.min()
         self.Amax = self.A.max()
         self.A_interpolator = scipy.interpolate.interp1d(self.h, self.A)
-        self.V_interpolator = scipy.interpolate.interp1d(self.h, self.V)
 
     def A_sj(self, h):
         """
@@ -102,6 +101,9 @@ class Tabular():
         _h[_h < hmin] = hmin
         _h[_h > hmax] = hmax
         r = np.maximum(h - _h, 0)
-        V = self.V_interpolator(_h) + (r * Amax)
+        # Area varies linearly between depth points
+        ix = np.maximum(np.searchsorted(self.h, _h) - 1, 0)
+        V = (self.V[ix] + (_h - self.h[ix]) * (self.A[ix] + self.A_interpolator(_h)) / 2
+             + (r * Amax))
         return V
 
-- 
2.43.0


From 2149b8ded55c998e5cd1e1da00183f88ece32621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:04 +0000
Subject: [PATCH 08/63] fix: flow area at conduit ends used the wet/dry
 indicator of the previous step

---
 pipedream_solver/nsuperlink.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pipedream_solver/nsuperlink.py b/pipedream_solver/nsuperlink.py
index bf0b1d2..72b6c19 100644
--- a/pipedream_solver/nsuperlink.py
+++ b/pipedream_solver/nsuperlink.py
@@ -572,6 +572,8 @@ class nSuperLink(SuperLink):
         _transect_codes = self._transect_codes
         _transect_inds = self._transect_inds
         _transect_lens = self._transect_lens
+        # Superjunction head counts only where it is above the invert at this time
+        _theta_uk[:] = (H_j[_J_uk] >= _z_inv_uk)
         # Compute hydraulic geometry for regular geometries
         numba_boundary_geometry(_A_uk, _Pe_uk, _R_uk, _B_uk, _h_Ik, H_j, _z_inv_uk, _theta_uk,
                                 _g1_ik, _g2_ik, _g3_ik, _g4_ik, _g5_ik, _g6_ik, _g7_ik,
@@ -624,6 +626,8 @@ class nSuperLink(SuperLink):
         _transect_codes = self._transect_codes
         _transect_inds = self._transect_inds
         _transect_lens = self._transect_lens
+        # Superjunction head counts only where it is above the invert at this time
+        _theta_dk[:] = (H_j[_J_dk] >= _z_inv_dk)
         # Compute hydraulic geometry for regular geometries
         numba_boundary_geometry(_A_dk, _Pe_dk, _R_dk, _B_dk, _h_Ik, H_j, _z_inv_dk, _theta_dk,
                                 _g1_ik, _g2_ik, _g3_ik, _g4_ik, _g5_ik, _g6_ik, _g7_ik,
-- 
2.43.0


From 6cbfd68661bd22717683a7ae1f59d5cc403216ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:20 +0000
Subject: [PATCH 09/63] fix: bandwidth stopped at the first empty diagonal, so
 the banded solver dropped entries beyond it

---
 pipedream_solver/superlink.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/pipedream_solver/superlink.py b/pipedream_solver/superlink.py
index 8498090..26be93b 100644
--- a/pipedream_solver/superlink.py
+++ b/pipedream_solver/superlink.py
@@ -961,8 +961,6 @@ class SuperLink():
         for k in range(1, len(At)):
             if np.diag(At, k=k).any():
                 bandwidth = k
-            else:
-                break
         self.bandwidth = bandwidth
 
     def _to_banded(self):
-- 
2.43.0


From c42cf0b431bc7fecb96d985b34259ba193fb9fac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:30 +0000
Subject: [PATCH 10/63] fix: weir opened after its crest stood exactly at the
 water level made the system singular

---
 pipedream_solver/nsuperlink.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pipedream_solver/nsuperlink.py b/pipedream_solver/nsuperlink.py
index 72b6c19..b4f53dd 100644
--- a/pipedream_solver/nsuperlink.py
+++ b/pipedream_solver/nsuperlink.py
@@ -2671,6 +2671,9 @@ def gamma_w(Q_w_t, H_w_t, L_w, s_w, Cwr, Cwt):
     """
     num = (Cwr * L_w * H_w_t + Cwt * s_w * H_w_t**2)**2
     den = np.abs(Q_w_t)
+    # Flow at rounding level (head at the crest) counts as no flow; dividing by it
+    # would give a conductance that makes the system of heads singular
+    den[den < 1e-9] = 0.
     result = safe_divide_vec(num, den)
     return result
 
-- 
2.43.0


From 1f38498fb10c8ad1ad557b1dd356f19d580f74c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:45 +0000
Subject: [PATCH 11/63] fix: parabolic channel took its full top width as the
 water surface width at every depth

---
 pipedream_solver/geometry.py  | 11 ++++++++---
 pipedream_solver/ngeometry.py | 12 +++++++++---
 2 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/pipedream_solver/geometry.py b/pipedream_solver/geometry.py
index c5bd306..9b22828 100644
--- a/pipedream_solver/geometry.py
+++ b/pipedream_solver/geometry.py
@@ -533,7 +533,9 @@ class Parabolic():
         y = (h_Ik + h_Ip1k) / 2
         y[y < 0] = 0
         y[y > y_max] = y_max[y > y_max]
-        A = 2 * b * y / 3
+        # Width of the water surface at depth y
+        B = b * np.sqrt(y / y_max)
+        A = 2 * B * y / 3
         return A
 
     @classmethod
@@ -557,8 +559,10 @@ class Parabolic():
         y = (h_Ik + h_Ip1k) / 2
         y[y <= 0] = eps
         y[y > y_max] = y_max[y > y_max]
-        x = 4 * y / b
-        Pe = (b / 2) * (np.sqrt(1 + x**2) + (1 / x) * np.log(x + np.sqrt(1 + x**2)))
+        # Width of the water surface at depth y
+        B = b * np.sqrt(y / y_max)
+        x = 4 * y / B
+        Pe = (B / 2) * (np.sqrt(1 + x**2) + (1 / x) * np.log(x + np.sqrt(1 + x**2)))
         return Pe
 
     @classmethod
@@ -598,6 +602,7 @@ class Parabolic():
         b = g2
         y = (h_Ik + h_Ip1k) / 2
         y[y < 0] = 0
+        y[y > y_max] = y_max[y > y_max]
         B = b * np.sqrt(y / y_max)
         return B
 
diff --git a/pipedream_solver/ngeometry.py b/pipedream_solver/ngeometry.py
index 84ee754..e0e0c93 100644
--- a/pipedream_solver/ngeometry.py
+++ b/pipedream_solver/ngeometry.py
@@ -581,7 +581,9 @@ def Parabolic_A_ik(h_Ik, h_Ip1k, g1, g2):
         y = 0
     if y > y_max:
         y = y_max
-    A = 2 * b * y / 3
+    # Width of the water surface at depth y
+    B = b * np.sqrt(y / y_max)
+    A = 2 * B * y / 3
     return A
 
 @njit(float64(float64, float64, float64, float64),
@@ -608,8 +610,10 @@ def Parabolic_Pe_ik(h_Ik, h_Ip1k, g1, g2):
         y = eps
     if y > y_max:
         y = y_max
-    x = 4 * y / b
-    Pe = (b / 2) * (np.sqrt(1 + x**2) + (1 / x) * np.log(x + np.sqrt(1 + x**2)))
+    # Width of the water surface at depth y
+    B = b * np.sqrt(y / y_max)
+    x = 4 * y / B
+    Pe = (B / 2) * (np.sqrt(1 + x**2) + (1 / x) * np.log(x + np.sqrt(1 + x**2)))
     return Pe
 
 @njit(float64(float64, float64),
@@ -654,6 +658,8 @@ def Parabolic_B_ik(h_Ik, h_Ip1k, g1, g2):
     y = (h_Ik + h_Ip1k) / 2
     if y < 0:
         y = 0
+    if y > y_max:
+        y = y_max
     B = b * np.sqrt(y / y_max)
     return B
 
-- 
2.43.0


From 1db949287d23f5f1f22261a117ee36ec970ea93b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:45 +0000
Subject: [PATCH 12/63] fix: surface width of elliptical channels of unequal
 axes was not that of the ellipse

---
 pipedream_solver/geometry.py  | 3 +--
 pipedream_solver/ngeometry.py | 3 +--
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/pipedream_solver/geometry.py b/pipedream_solver/geometry.py
index 9b22828..4986b9f 100644
--- a/pipedream_solver/geometry.py
+++ b/pipedream_solver/geometry.py
@@ -707,8 +707,7 @@ class Elliptical():
         y[y < 0] = 0
         y[y > y_max] = y_max[y > y_max]
         theta = np.arcsin((y - b) / b)
-        B = 2 * np.cos(theta) * np.sqrt(a**2 * np.cos(theta)**2
-                                        + b**2 * np.sin(theta)**2)
+        B = 2 * a * np.cos(theta)
         return B
 
 
diff --git a/pipedream_solver/ngeometry.py b/pipedream_solver/ngeometry.py
index e0e0c93..2ee1d1b 100644
--- a/pipedream_solver/ngeometry.py
+++ b/pipedream_solver/ngeometry.py
@@ -740,8 +740,7 @@ def Elliptical_B_ik(h_Ik, h_Ip1k, g1, g2):
     if y > y_max:
         y = y_max
     theta = np.arcsin((y - b) / b)
-    B = 2 * np.cos(theta) * np.sqrt(a**2 * np.cos(theta)**2
-                                    + b**2 * np.sin(theta)**2)
+    B = 2 * a * np.cos(theta)
     return B
 
 
-- 
2.43.0


From 6e0dc37444300ad68d2647dea862eda3f4714096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:45 +0000
Subject: [PATCH 13/63] fix: building a model added sample_points to the
 caller's transects

---
 pipedream_solver/nsuperlink.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pipedream_solver/nsuperlink.py b/pipedream_solver/nsuperlink.py
index b4f53dd..c7e2092 100644
--- a/pipedream_solver/nsuperlink.py
+++ b/pipedream_solver/nsuperlink.py
@@ -347,7 +347,7 @@ class nSuperLink(SuperLink):
             for name, transect in transects.items():
                 x = transect['x']
                 y = transect['y']
-                sample_points = transect.setdefault('sample_points', 100)
+                sample_points = transect.get('sample_points', 100)
                 w = np.linspace(0., y.max(), sample_points)
                 A = np.array([pipedream_solver.ngeometry.Transect_A_ik(w_i, x, y) for w_i in w])
                 B = np.array([pipedream_solver.ngeometry.Transect_B_ik(w_i, x, y) for w_i in w])
-- 
2.43.0


From aaa1301365819090c0d705fe9de5e3b237b45997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:45 +0000
Subject: [PATCH 14/63] fix: transects given as lists, as documented, failed

---
 pipedream_solver/nsuperlink.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pipedream_solver/nsuperlink.py b/pipedream_solver/nsuperlink.py
index c7e2092..6b0f31c 100644
--- a/pipedream_solver/nsuperlink.py
+++ b/pipedream_solver/nsuperlink.py
@@ -345,8 +345,8 @@ class nSuperLink(SuperLink):
             order = []
             ix = 0
             for name, transect in transects.items():
-                x = transect['x']
-                y = transect['y']
+                x = np.asarray(transect['x'], dtype=np.float64)
+                y = np.asarray(transect['y'], dtype=np.float64)
                 sample_points = transect.get('sample_points', 100)
                 w = np.linspace(0., y.max(), sample_points)
                 A = np.array([pipedream_solver.ngeometry.Transect_A_ik(w_i, x, y) for w_i in w])
-- 
2.43.0


From b2afa3795deaf0db2c6b331e3b991884c223d3ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:14 +0000
Subject: [PATCH 15/63] fix: metres to inches conversion factor of the soil
 recovery parameters was 39.97

---
 pipedream_solver/infiltration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pipedream_solver/infiltration.py b/pipedream_solver/infiltration.py
index 2b3272a..6390d72 100644
--- a/pipedream_solver/infiltration.py
+++ b/pipedream_solver/infiltration.py
@@ -50,7 +50,7 @@ class GreenAmpt():
         # Maximum soil moisture deficit
         self.theta_dmax = np.copy(self.theta_d)
         # Initialize constant parameters
-        m_to_in = 39.97
+        m_to_in = 39.37
         in_to_m = 0.0254
         s_to_hr = 3600
         hr_to_s = 1 / 3600
-- 
2.43.0


From f4d47a5f1ced936e1133709d5f8c16e9042fd3f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:14 +0000
Subject: [PATCH 16/63] fix: ponded depth grew by the rate of excess rain
 instead of its depth over the time step

---
 pipedream_solver/infiltration.py  | 6 +++---
 pipedream_solver/ninfiltration.py | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pipedream_solver/infiltration.py b/pipedream_solver/infiltration.py
index 6390d72..807bd80 100644
--- a/pipedream_solver/infiltration.py
+++ b/pipedream_solver/infiltration.py
@@ -368,9 +368,9 @@ class GreenAmpt():
         A_s = self.A_s
         self.Q = np.maximum((i - f), 0.) * A_s
 
-    def compute_ponding_depth(self, i):
+    def compute_ponding_depth(self, dt, i):
         f = self.f
-        self.d += (i - f)
+        self.d += (i - f) * dt
         self.d = np.maximum(self.d, 0.)
 
     def step(self, dt, i):
@@ -402,7 +402,7 @@ class GreenAmpt():
         if unsat_case_3.any():
             self.unsaturated_case_3(dt, ia, unsat_case_3)
         self.compute_runoff(i)
-        self.compute_ponding_depth(i)
+        self.compute_ponding_depth(dt, i)
         self.iter_count += 1
         self.t += dt
 
diff --git a/pipedream_solver/ninfiltration.py b/pipedream_solver/ninfiltration.py
index 908b2cf..44c5b41 100644
--- a/pipedream_solver/ninfiltration.py
+++ b/pipedream_solver/ninfiltration.py
@@ -198,7 +198,7 @@ class nGreenAmpt(GreenAmpt):
         if numba_any(unsat_case_3):
             self.unsaturated_case_3(dt, ia, unsat_case_3)
         self.compute_runoff(i)
-        self.compute_ponding_depth(i)
+        self.compute_ponding_depth(dt, i)
         self.iter_count += 1
         self.t += dt
 
-- 
2.43.0


From 504113060f4c31b6bd6b145fdde4d2c5f97c4242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:14 +0000
Subject: [PATCH 17/63] fix: infiltration step overwrote the array assigned as
 ponded depth (e.g. the hydraulic model's depths)

---
 pipedream_solver/infiltration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pipedream_solver/infiltration.py b/pipedream_solver/infiltration.py
index 807bd80..81a167f 100644
--- a/pipedream_solver/infiltration.py
+++ b/pipedream_solver/infiltration.py
@@ -370,7 +370,7 @@ class GreenAmpt():
 
     def compute_ponding_depth(self, dt, i):
         f = self.f
-        self.d += (i - f) * dt
+        self.d = self.d + (i - f) * dt
         self.d = np.maximum(self.d, 0.)
 
     def step(self, dt, i):
-- 
2.43.0


From 9daf6ed427c75856c653103feb610fd6e4d5c3c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:23 +0000
Subject: [PATCH 18/63] fix: infiltration failed when dry soil became saturated
 within one step (zero derivative at the initial guess)

---
 pipedream_solver/infiltration.py  | 2 +-
 pipedream_solver/ninfiltration.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pipedream_solver/infiltration.py b/pipedream_solver/infiltration.py
index 81a167f..de8e6d5 100644
--- a/pipedream_solver/infiltration.py
+++ b/pipedream_solver/infiltration.py
@@ -252,7 +252,7 @@ class GreenAmpt():
             n = sub_dt.size
             F_2 = np.zeros(n, dtype=float)
             for i in range(n):
-                F_2[i] = scipy.optimize.newton(self.integrated_green_ampt, F[cond_2][i],
+                F_2[i] = scipy.optimize.newton(self.integrated_green_ampt, Fs[cond_2][i],
                                                self.derivative_green_ampt,
                                                args=(Fs[cond_2][i], sub_dt[i], Ks[cond_2][i],
                                                      theta_d[cond_2][i], psi_f[cond_2][i]))
diff --git a/pipedream_solver/ninfiltration.py b/pipedream_solver/ninfiltration.py
index 44c5b41..5a7c238 100644
--- a/pipedream_solver/ninfiltration.py
+++ b/pipedream_solver/ninfiltration.py
@@ -106,7 +106,7 @@ class nGreenAmpt(GreenAmpt):
             n = sub_dt.size
             F_2 = np.zeros(n, dtype=float)
             # Run green ampt
-            F_2 = run_green_ampt_newton(F_2, F[cond_2], Fs[cond_2], sub_dt, Ks[cond_2],
+            F_2 = run_green_ampt_newton(F_2, Fs[cond_2], Fs[cond_2], sub_dt, Ks[cond_2],
                                         theta_d[cond_2], psi_f[cond_2], ia[cond_2])
             dF = F_2 - F[cond_2]
             F[cond_2] = F_2
-- 
2.43.0


From 5d626d08c564f38c6cdf798c8036484a6b98bf55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:23 +0000
Subject: [PATCH 19/63] fix: infiltration failed or went negative on soil
 without moisture deficit

---
 pipedream_solver/infiltration.py  | 4 ++++
 pipedream_solver/ninfiltration.py | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/pipedream_solver/infiltration.py b/pipedream_solver/infiltration.py
index de8e6d5..874e59c 100644
--- a/pipedream_solver/infiltration.py
+++ b/pipedream_solver/infiltration.py
@@ -337,6 +337,8 @@ class GreenAmpt():
         psi_s: np.ndarray (float)
             Soil suction head (m)
         """
+        if psi_s * theta_d == 0.:
+            return Ks * dt + F_1 - F_2
         C = Ks * dt + F_1 - psi_s * theta_d * np.log(F_1 + np.abs(psi_s) * theta_d)
         zero = C + psi_s * theta_d * np.log(F_2 + np.abs(psi_s) * theta_d) - F_2
         return zero
@@ -360,6 +362,8 @@ class GreenAmpt():
         psi_s: np.ndarray (float)
             Soil suction head (m)
         """
+        if psi_s * theta_d == 0.:
+            return -1.
         zero = (psi_s * theta_d / (psi_s * theta_d + F_2)) - 1
         return zero
 
diff --git a/pipedream_solver/ninfiltration.py b/pipedream_solver/ninfiltration.py
index 5a7c238..5632733 100644
--- a/pipedream_solver/ninfiltration.py
+++ b/pipedream_solver/ninfiltration.py
@@ -287,6 +287,8 @@ def numba_integrated_green_ampt(F_2, args):
     Ks = args[2]
     theta_d = args[3]
     psi_s = args[4]
+    if psi_s * theta_d == 0.:
+        return Ks * dt + F_1 - F_2
     C = Ks * dt + F_1 - psi_s * theta_d * np.log(F_1 + np.abs(psi_s) * theta_d)
     zero = C + psi_s * theta_d * np.log(F_2 + np.abs(psi_s) * theta_d) - F_2
     return zero
@@ -316,5 +318,7 @@ def numba_derivative_green_ampt(F_2, args):
     Ks = args[2]
     theta_d = args[3]
     psi_s = args[4]
+    if psi_s * theta_d == 0.:
+        return -1.
     zero = (psi_s * theta_d / (psi_s * theta_d + F_2)) - 1
     return zero
-- 
2.43.0


From 9c8d008c8d98ac79936d7ccbcdccc4bb035a686a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:23 +0000
Subject: [PATCH 20/63] fix: soil that became saturated within a step was not
 marked as saturated

---
 pipedream_solver/infiltration.py  | 3 +++
 pipedream_solver/ninfiltration.py | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/pipedream_solver/infiltration.py b/pipedream_solver/infiltration.py
index 874e59c..51b27ad 100644
--- a/pipedream_solver/infiltration.py
+++ b/pipedream_solver/infiltration.py
@@ -262,6 +262,9 @@ class GreenAmpt():
             theta_du[cond_2] = np.minimum(np.maximum(theta_du[cond_2], 0),
                                                 theta_dmax[cond_2])
             f[cond_2] = dF / dt
+            is_saturated = self.is_saturated[case_3]
+            is_saturated[cond_2] = True
+            self.is_saturated[case_3] = is_saturated
         # Export instance variables
         self.F[case_3] = F
         self.f[case_3] = f
diff --git a/pipedream_solver/ninfiltration.py b/pipedream_solver/ninfiltration.py
index 5632733..fb51763 100644
--- a/pipedream_solver/ninfiltration.py
+++ b/pipedream_solver/ninfiltration.py
@@ -114,6 +114,9 @@ class nGreenAmpt(GreenAmpt):
             theta_du[cond_2] = np.minimum(np.maximum(theta_du[cond_2], 0),
                                                 theta_dmax[cond_2])
             f[cond_2] = dF / dt
+            is_saturated = self.is_saturated[case_3]
+            is_saturated[cond_2] = True
+            self.is_saturated[case_3] = is_saturated
         # Export instance variables
         self.F[case_3] = F
         self.f[case_3] = f
-- 
2.43.0


From 0b3c34b9a769bd761639b12765493c7e1f8e503f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:23 +0000
Subject: [PATCH 21/63] fix: saturated soil never drained in the compiled
 infiltration class, capacity was cut off at the available rainfall

---
 pipedream_solver/ninfiltration.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pipedream_solver/ninfiltration.py b/pipedream_solver/ninfiltration.py
index fb51763..09e8634 100644
--- a/pipedream_solver/ninfiltration.py
+++ b/pipedream_solver/ninfiltration.py
@@ -251,7 +251,10 @@ def run_green_ampt_newton(F_2, x0, F_1, dt, Ks, theta_d, psi_f, ia, max_iter=50,
         nargs[4] = psi_f[i]
         if bounded:
             min_F = 0
-            max_F = F_1_i + ia[i] * dt_i
+            # Upper bound from the tangent of the Green-Ampt equation at F_1
+            max_F = F_1_i + Ks[i] * dt_i
+            if F_1_i > 0.:
+                max_F += Ks[i] * dt_i * psi_f[i] * theta_d[i] / F_1_i
             F_est = bounded_newton_raphson(numba_integrated_green_ampt,
                                         numba_derivative_green_ampt,
                                         x_0_i, min_F, max_F,
-- 
2.43.0


From acea4055a8eae2532568e3fa5acb0240ea93f3f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:23 +0000
Subject: [PATCH 22/63] fix: cumulative infiltration became negative in dry
 weather

---
 pipedream_solver/infiltration.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pipedream_solver/infiltration.py b/pipedream_solver/infiltration.py
index 51b27ad..00a66ca 100644
--- a/pipedream_solver/infiltration.py
+++ b/pipedream_solver/infiltration.py
@@ -142,6 +142,7 @@ class GreenAmpt():
         theta_du += d_theta
         theta_du[:] = np.minimum(np.maximum(theta_du, 0), theta_dmax)
         F -= d_theta * Lu
+        F[:] = np.maximum(F, 0.)
         # If min recovery time has expired, mark beginning of new rainfall event
         cond = (T <= 0)
         if cond.any():
-- 
2.43.0


From 66ddf149a10a14f593144ea2918d3d30d1946a41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:25 +0000
Subject: [PATCH 23/63] fix: simulation ignored its start time, the clock
 stayed at the model's

---
 pipedream_solver/simulation.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pipedream_solver/simulation.py b/pipedream_solver/simulation.py
index a0af8b1..e1281c9 100644
--- a/pipedream_solver/simulation.py
+++ b/pipedream_solver/simulation.py
@@ -156,6 +156,7 @@ class Simulation():
                 self.t_start = model.t
         else:
             self.t_start = t_start
+            self.model.t = self.t_start
         if t_end is None:
             if any_inputs:
                 self.t_end = max(i.index.max() for i in self.inputs if i is not None)
-- 
2.43.0


From 8d5c0447f1a7fb40523a58a72fd7f4dc3759c8d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:25 +0000
Subject: [PATCH 24/63] fix: retried steps used the default tolerance and norm
 instead of the caller's

---
 pipedream_solver/simulation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pipedream_solver/simulation.py b/pipedream_solver/simulation.py
index e1281c9..43fc427 100644
--- a/pipedream_solver/simulation.py
+++ b/pipedream_solver/simulation.py
@@ -570,7 +570,8 @@ class Simulation():
                 self.dts.popleft()
                 self.errs.popleft()
                 self.load_state(initial_state)
-                self.step(dt=dt, subdivisions=subdivisions, retries=retries-1, **kwargs)
+                self.step(dt=dt, subdivisions=subdivisions, retries=retries-1, tol=tol,
+                          norm=norm, coeffs=coeffs, safety_factor=safety_factor, **kwargs)
         assert np.isfinite(self.model.H_j).all()
         self._iter_count += 1
 
-- 
2.43.0


From 477972db459bb90cd58384350b652d5d40d0cdc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:26 +0000
Subject: [PATCH 25/63] fix: truncation errors of opposite sign cancelled, and
 heads below the datum gave meaningless scales

---
 pipedream_solver/simulation.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/pipedream_solver/simulation.py b/pipedream_solver/simulation.py
index 43fc427..b7ef459 100644
--- a/pipedream_solver/simulation.py
+++ b/pipedream_solver/simulation.py
@@ -327,17 +327,16 @@ class Simulation():
             rtol = self.rtol
         current_state = self.model.H_j
         previous_state = self.model.states['H_j']
-        # TODO: This should probably be absolute value
-        max_state = np.maximum(current_state, previous_state)
+        max_state = np.maximum(np.abs(current_state), np.abs(previous_state))
         scaled_err = err / (atol + max_state * rtol)
         return scaled_err
 
     def _normed_error(self, scaled_err, norm=2):
         n = scaled_err.size
         if (norm == 0):
-            normed_err = (scaled_err > 0).astype(int).sum() / n
+            normed_err = (scaled_err != 0).astype(int).sum() / n
         elif (norm == 1):
-            normed_err = scaled_err.sum() / n
+            normed_err = np.abs(scaled_err).sum() / n
         elif (norm == 2):
             normed_err = np.sqrt((scaled_err**2).sum() / n)
         # TODO: should check for inf too
-- 
2.43.0


From bcc2595060f334c1611ae1a70829afa6b1384b41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:26 +0000
Subject: [PATCH 26/63] fix: initial record of a simulation held the state
 before the model's last step

---
 pipedream_solver/simulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pipedream_solver/simulation.py b/pipedream_solver/simulation.py
index b7ef459..7c088bb 100644
--- a/pipedream_solver/simulation.py
+++ b/pipedream_solver/simulation.py
@@ -230,7 +230,7 @@ class Simulation():
             if state in self.model.states:
                 setattr(self.states, state, {})
                 getattr(self.states, state).update({float(model.t) :
-                                                    np.copy(model.states[state])})
+                                                    np.copy(getattr(model, state))})
 
     def __enter__(self):
         return self
-- 
2.43.0


From ada8734a797e7dd59d19a10ede1dd13ebedac0e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:26 +0000
Subject: [PATCH 27/63] fix: step-size filter failed when a recent step had no
 error estimate

---
 pipedream_solver/simulation.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pipedream_solver/simulation.py b/pipedream_solver/simulation.py
index 7c088bb..6e57628 100644
--- a/pipedream_solver/simulation.py
+++ b/pipedream_solver/simulation.py
@@ -426,6 +426,9 @@ class Simulation():
                 return dts[0]
         if errs is None:
             errs = self.errs
+        # If any step has no error estimate, return current step size
+        if any(err is None for err in errs):
+            return dts[0]
         if min_dt is None:
             min_dt = self.min_dt
         if max_dt is None:
-- 
2.43.0


From 85e8fe603fda0ebc33e1818accfd2b8240cd5c8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:33 +0000
Subject: [PATCH 28/63] fix: square-root Kalman filter failed, took lower for
 upper factors and left out the signal-input matrix

---
 pipedream_solver/utils.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pipedream_solver/utils.py b/pipedream_solver/utils.py
index 60c7314..d2742de 100644
--- a/pipedream_solver/utils.py
+++ b/pipedream_solver/utils.py
@@ -162,9 +162,10 @@ def _square_root_kalman_semi_implicit(Z_next, P_x_k_k, A_1, A_2, b, H, C,
     """
     I = np.eye(A_1.shape[0])
     A_1_inv = np.linalg.inv(A_1)
-    Rq = np.linalg.cholesky(Qcov)
-    Rr = np.linalg.cholesky(Rcov)
-    F = np.linalg.cholesky(P_x_k_k)
+    # Upper triangular square roots, such that X = R.T @ R
+    Rq = np.linalg.cholesky(Qcov).T @ C.T
+    Rr = np.linalg.cholesky(Rcov).T
+    F = np.linalg.cholesky(P_x_k_k).T
     
     x_k1_k = A_1_inv @ b
     Fbar = np.linalg.qr(np.vstack((F@A_2.T@A_1_inv.T, Rq)), mode='r')
@@ -177,5 +178,6 @@ def _square_root_kalman_semi_implicit(Z_next, P_x_k_k, A_1, A_2, b, H, C,
     x_hat = x_k1_k + L_x_k1 @ (Z_next - H @ x_k1_k)
     
     P_x_k1_k1 = Fhat.T@Fhat
+    P_zz = G.T@G
     b_hat = A_1 @ x_hat
-    return b_hat, P_x_k1_k1
+    return b_hat, P_x_k1_k1, P_zz
-- 
2.43.0


From 9332683e53590163a40aeb65705b604a2df256b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:33 +0000
Subject: [PATCH 29/63] fix: 1 x 1 covariance and observation matrices were
 turned into vectors

---
 pipedream_solver/simulation.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pipedream_solver/simulation.py b/pipedream_solver/simulation.py
index 6e57628..f453683 100644
--- a/pipedream_solver/simulation.py
+++ b/pipedream_solver/simulation.py
@@ -169,7 +169,7 @@ class Simulation():
             self.Rcov = np.zeros((model.M, model.M))
         elif np.isscalar(Rcov):
             self.Rcov = Rcov * np.eye(model.M)
-        elif (Rcov.shape[0] == Rcov.size):
+        elif (Rcov.ndim == 1):
             assert isinstance(Rcov, np.ndarray)
             self.Rcov = np.diag(Rcov)
         else:
@@ -179,7 +179,7 @@ class Simulation():
             self.Qcov = np.zeros((model.M, model.M))
         elif np.isscalar(Qcov):
             self.Qcov = Qcov * np.eye(model.M)
-        elif (Qcov.shape[0] == Qcov.size):
+        elif (Qcov.ndim == 1):
             assert isinstance(Qcov, np.ndarray)
             self.Qcov = np.diag(Qcov)
         else:
@@ -189,7 +189,7 @@ class Simulation():
             self.C = np.eye(model.M)
         elif np.isscalar(C):
             self.C = C * np.eye(model.M)
-        elif (C.shape[0] == C.size):
+        elif (C.ndim == 1):
             assert isinstance(C, np.ndarray)
             self.C = np.diag(C)
         else:
@@ -199,7 +199,7 @@ class Simulation():
             self.H = np.eye(model.M)
         elif np.isscalar(H):
             self.H = H * np.eye(model.M)
-        elif (H.shape[0] == H.size):
+        elif (H.ndim == 1):
             assert isinstance(H, np.ndarray)
             self.H = np.diag(H)
         else:
-- 
2.43.0


From 8474b9e21e7a0923a4968058654a4b2bcbd9812d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:30 +0000
Subject: [PATCH 30/63] fix: repositioning looked up the start of a superlink
 with the global index inside its own junctions

---
 pipedream_solver/nsuperlink.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pipedream_solver/nsuperlink.py b/pipedream_solver/nsuperlink.py
index 6b0f31c..bc010c4 100644
--- a/pipedream_solver/nsuperlink.py
+++ b/pipedream_solver/nsuperlink.py
@@ -3180,10 +3180,10 @@ def numba_reposition_junctions(_x_Ik, _z_inv_Ik, _h_Ik, _dx_ik, _Q_ik, _H_dk,
             _h_I = _h_Ik[_I_1:_I_end]
             _dx_i = _dx_ik[_i_1:_i_end]
             # Move junction if downstream head is within range
+            _x0 = _x_I[0]
             move_junction = (_H_d > _z_inv_Np1) & (_H_d < _z_inv_1)
             if move_junction:
                 z_m = _H_d
-                _x0 = _x_I[_I_1]
                 x_m = (_H_d - _b0[k]) / _m[k] + _x0
             else:
                 z_m = _zc[k]
-- 
2.43.0


From 4a423f0df522f4398b940ee8656ce143e0b090c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:30 +0000
Subject: [PATCH 31/63] fix: mobile junction returned to the centre measured
 without the upstream end cell

---
 pipedream_solver/nsuperlink.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pipedream_solver/nsuperlink.py b/pipedream_solver/nsuperlink.py
index bc010c4..0befc33 100644
--- a/pipedream_solver/nsuperlink.py
+++ b/pipedream_solver/nsuperlink.py
@@ -3187,7 +3187,7 @@ def numba_reposition_junctions(_x_Ik, _z_inv_Ik, _h_Ik, _dx_ik, _Q_ik, _H_dk,
                 x_m = (_H_d - _b0[k]) / _m[k] + _x0
             else:
                 z_m = _zc[k]
-                x_m = _xc[k]
+                x_m = _xc[k] + _x0
             # Determine new x-position of junction
             c = np.searchsorted(_x_I, x_m)
             cm1 = c - 1
-- 
2.43.0


From 81cf160d2131f7ee31c727d3705ee3d9af507266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:26 +0000
Subject: [PATCH 32/63] fix: flows were handed to the wrong links when a mobile
 junction moved upstream past a fixed one

---
 pipedream_solver/nsuperlink.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pipedream_solver/nsuperlink.py b/pipedream_solver/nsuperlink.py
index 0befc33..29ad072 100644
--- a/pipedream_solver/nsuperlink.py
+++ b/pipedream_solver/nsuperlink.py
@@ -3216,7 +3216,11 @@ def numba_reposition_junctions(_x_Ik, _z_inv_Ik, _h_Ik, _dx_ik, _Q_ik, _H_dk,
             # If position has shifted interpolate flow
             if shifted:
                 ix = np.arange(nlinks)
-                ix[pos_prev] = pos_next
+                if pos_next > pos_prev:
+                    ix[pos_prev] = pos_next
+                else:
+                    # Moving upstream splits the link that precedes the new position
+                    ix[pos_prev] = pos_next - 1
                 ix.sort()
                 _Q_i = _Q_ik[_i_1:_i_end]
                 _Q_i[pos_prev - 1] = (1 - r) * _Q_i[pos_prev - 1] + r * _Q_i[pos_prev]
-- 
2.43.0


From 3a94b77d033f4598ffb8cf67656ae24364fe8eea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:42 +0000
Subject: [PATCH 33/63] fix: mobile junction placed on a fixed one left a link
 of zero length

---
 pipedream_solver/nsuperlink.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pipedream_solver/nsuperlink.py b/pipedream_solver/nsuperlink.py
index 29ad072..78df367 100644
--- a/pipedream_solver/nsuperlink.py
+++ b/pipedream_solver/nsuperlink.py
@@ -3188,6 +3188,11 @@ def numba_reposition_junctions(_x_Ik, _z_inv_Ik, _h_Ik, _dx_ik, _Q_ik, _H_dk,
             else:
                 z_m = _zc[k]
                 x_m = _xc[k] + _x0
+            # Mobile junction cannot share its position with a fixed junction
+            for I in range(njunctions):
+                if (I != pos_prev) and (abs(x_m - _x_I[I]) < 1e-6 * (_x_I[-1] - _x0)):
+                    z_m = _zc[k]
+                    x_m = _xc[k] + _x0
             # Determine new x-position of junction
             c = np.searchsorted(_x_I, x_m)
             cm1 = c - 1
-- 
2.43.0


From 7fe610e3e8ece499a4330b81fabc351ba4fa7fb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:33 +0000
Subject: [PATCH 34/63] fix: saved states kept only the positions of mobile
 junctions, not their inverts and link lengths

---
 pipedream_solver/superlink.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pipedream_solver/superlink.py b/pipedream_solver/superlink.py
index 26be93b..6c35560 100644
--- a/pipedream_solver/superlink.py
+++ b/pipedream_solver/superlink.py
@@ -3933,6 +3933,10 @@ class SuperLink():
         self.states['A_dk'] = np.copy(self.A_dk)
         self.states['A_sj'] = np.copy(self.A_sj)
         self.states['V_j'] = np.copy(self.V_j)
+        if self.mobile_elements:
+            self.states['_z_inv_Ik'] = np.copy(self._z_inv_Ik)
+            self.states['_dx_ik'] = np.copy(self._dx_ik)
+            self.states['_elem_pos'] = np.copy(self._elem_pos)
 
     def load_state(self, states={}, exclude_states=set(),
                    compute_hydraulic_geometries=True):
-- 
2.43.0


From 78405cddf060c19edf7dfc091162e0b937492f41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:37 +0000
Subject: [PATCH 35/63] fix: least-squares method used the wrong equations when
 superlinks have different numbers of links

---
 pipedream_solver/superlink.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pipedream_solver/superlink.py b/pipedream_solver/superlink.py
index 6c35560..6ac13c9 100644
--- a/pipedream_solver/superlink.py
+++ b/pipedream_solver/superlink.py
@@ -662,7 +662,7 @@ class SuperLink():
         self._I_1k = self.start_nodes
         self._I_2k = self.forward_I_I[self._I_1k]
         self._i_1k = self.forward_I_i[self._I_1k]
-        self._k_1k = np.cumsum(self.nk - 1) - (self.nk[0] - 1)
+        self._k_1k = np.cumsum(self.nk - 1) - (self.nk - 1)
         self._T_ik = np.zeros(self._ik.size)
         self._U_Ik = np.zeros(self._I.size)
         self._V_Ik = np.zeros(self._I.size)
-- 
2.43.0


From 26fb781d1b607e87ef51beb08e1b2fec8aa59388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:22 +0000
Subject: [PATCH 36/63] fix: superlinks with tabulated internals were attached
 back to front when tabulated from their lower end

---
 pipedream_solver/superlink.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pipedream_solver/superlink.py b/pipedream_solver/superlink.py
index 6ac13c9..d0d2c8d 100644
--- a/pipedream_solver/superlink.py
+++ b/pipedream_solver/superlink.py
@@ -296,7 +296,8 @@ class SuperLink():
         # TODO: Ensure index is int
         # TODO: This needs to be done for orifices/weirs/pumps as well
         # Ensure nominal direction of superlinks is correct
-        if (superlinks is not None) and (superjunctions is not None):
+        # (tabulated links and junctions already follow the direction of their superlink)
+        if (superlinks is not None) and ((links is None) or (junctions is None)):
             for k in superlinks.index.values:
                 sj_0 = superlinks.loc[k, 'sj_0']
                 sj_1 = superlinks.loc[k, 'sj_1']
-- 
2.43.0


From 020097a0bd7f53629cacd29518e961bfef907f61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:47 +0000
Subject: [PATCH 37/63] fix: internal depths lost all precision for flow
 against the direction of solution at short time steps

---
 pipedream_solver/nsuperlink.py | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/pipedream_solver/nsuperlink.py b/pipedream_solver/nsuperlink.py
index 78df367..debc3bf 100644
--- a/pipedream_solver/nsuperlink.py
+++ b/pipedream_solver/nsuperlink.py
@@ -1414,7 +1414,7 @@ class nSuperLink(SuperLink):
         min_depth = self.min_depth          # Minimum allowable water depth
         max_depth_k = self.max_depth_k
         # Solve internals
-        numba_solve_internals(_h_Ik, _Q_ik, _h_uk, _h_dk, _U_Ik, _V_Ik, _W_Ik,
+        numba_solve_internals(_h_Ik, _Q_ik, _h_uk, _h_dk, _D_Ik, _E_Ik, _U_Ik, _V_Ik, _W_Ik,
                               _X_Ik, _Y_Ik, _Z_Ik, _i_1k, _I_1k, nk, NK,
                               min_depth, max_depth_k, first_link_backwards=True)
         # TODO: Temporary
@@ -1453,7 +1453,7 @@ class nSuperLink(SuperLink):
         min_depth = self.min_depth          # Minimum allowable water depth
         max_depth_k = self.max_depth_k
         # Solve internals
-        numba_solve_internals(_h_Ik, _Q_ik, _h_uk, _h_dk, _U_Ik, _V_Ik, _W_Ik,
+        numba_solve_internals(_h_Ik, _Q_ik, _h_uk, _h_dk, _D_Ik, _E_Ik, _U_Ik, _V_Ik, _W_Ik,
                               _X_Ik, _Y_Ik, _Z_Ik, _i_1k, _I_1k, nk, NK,
                               min_depth, max_depth_k, first_link_backwards=False)
         # Ensure non-negative depths?
@@ -2201,19 +2201,22 @@ def Q_i_b(h_Ik, h_Np1k, X_Ik, Y_Ik, Z_Ik):
     t_2 = Z_Ik * h_Np1k
     return t_0 + t_1 + t_2
 
-@njit(float64(float64, float64, float64, float64, float64),
+@njit(float64(float64, float64, float64, float64, float64, float64, float64, float64, float64,
+              float64),
       cache=True)
-def h_i_b(Q_ik, h_Np1k, X_Ik, Y_Ik, Z_Ik):
-    num = Q_ik - Y_Ik - Z_Ik * h_Np1k
-    den = X_Ik
+def h_i(h_1k, h_Np1k, D_Ik, E_Ik, U_Im1k, V_Im1k, W_Im1k, X_Ik, Y_Ik, Z_Ik):
+    # Continuity at junction Ik, with flow entering given by the forward recurrence,
+    # and flow leaving given by the backward recurrence
+    num = D_Ik + V_Im1k + W_Im1k * h_1k - Y_Ik - Z_Ik * h_Np1k
+    den = E_Ik + X_Ik - U_Im1k
     result = safe_divide(num, den)
     return result
 
 @njit(int64(float64[:], float64[:], float64[:], float64[:], float64[:], float64[:], float64[:],
-            float64[:], float64[:], float64[:], int64[:], int64[:], int64[:], int64,
+            float64[:], float64[:], float64[:], float64[:], float64[:], int64[:], int64[:], int64[:], int64,
             float64, float64[:], boolean),
       cache=True)
-def numba_solve_internals(_h_Ik, _Q_ik, _h_uk, _h_dk, _U_Ik, _V_Ik, _W_Ik,
+def numba_solve_internals(_h_Ik, _Q_ik, _h_uk, _h_dk, _D_Ik, _E_Ik, _U_Ik, _V_Ik, _W_Ik,
                           _X_Ik, _Y_Ik, _Z_Ik, _i_1k, _I_1k, nk, NK,
                           min_depth, max_depth_k, first_link_backwards=True):
     for k in range(NK):
@@ -2233,10 +2236,12 @@ def numba_solve_internals(_h_Ik, _Q_ik, _h_uk, _h_dk, _U_Ik, _V_Ik, _W_Ik,
         # Compute internal depths and flows (except first link flow)
         for j in range(n - 1):
             I = I_N - j
+            Im1 = I - 1
             Ip1 = I + 1
             i = i_n - j
             _Q_ik[i] = Q_i_f(_h_Ik[Ip1], _h_1k, _U_Ik[I], _V_Ik[I], _W_Ik[I])
-            _h_Ik[I] = h_i_b(_Q_ik[i], _h_Np1k, _X_Ik[I], _Y_Ik[I], _Z_Ik[I])
+            _h_Ik[I] = h_i(_h_1k, _h_Np1k, _D_Ik[I], _E_Ik[I], _U_Ik[Im1], _V_Ik[Im1],
+                           _W_Ik[Im1], _X_Ik[I], _Y_Ik[I], _Z_Ik[I])
             if _h_Ik[I] < min_depth:
                 _h_Ik[I] = min_depth
             if _h_Ik[I] > max_depth:
-- 
2.43.0


From 7962293280805841c187d1b3e1d9f0b0b07e89d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:43 +0000
Subject: [PATCH 38/63] fix: keep a copy of the inflows of the last step, not
 the caller's arrays

---
 pipedream_solver/superlink.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pipedream_solver/superlink.py b/pipedream_solver/superlink.py
index d0d2c8d..7c70ecc 100644
--- a/pipedream_solver/superlink.py
+++ b/pipedream_solver/superlink.py
@@ -4030,8 +4030,8 @@ class SuperLink():
             self.save_state()
         if dt is None:
             dt = self._dt
-        self._Q_in = Q_in
-        self._Q_0Ik = Q_0Ik
+        self._Q_in = None if Q_in is None else np.array(Q_in)
+        self._Q_0Ik = None if Q_0Ik is None else np.array(Q_0Ik)
         if not implicit:
             raise NotImplementedError
         # Compute all hydraulic geometries
-- 
2.43.0


From aad2cb43ce105c4a1fedeea4958d9ffa8a1143ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:43 +0000
Subject: [PATCH 39/63] fix: a simulation keeps copies of the covariance and
 observation matrices

---
 pipedream_solver/simulation.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pipedream_solver/simulation.py b/pipedream_solver/simulation.py
index f453683..fc3f26c 100644
--- a/pipedream_solver/simulation.py
+++ b/pipedream_solver/simulation.py
@@ -174,7 +174,7 @@ class Simulation():
             self.Rcov = np.diag(Rcov)
         else:
             assert isinstance(Rcov, np.ndarray)
-            self.Rcov = Rcov
+            self.Rcov = Rcov.copy()
         if Qcov is None:
             self.Qcov = np.zeros((model.M, model.M))
         elif np.isscalar(Qcov):
@@ -184,7 +184,7 @@ class Simulation():
             self.Qcov = np.diag(Qcov)
         else:
             assert isinstance(Qcov, np.ndarray)
-            self.Qcov = Qcov
+            self.Qcov = Qcov.copy()
         if C is None:
             self.C = np.eye(model.M)
         elif np.isscalar(C):
@@ -194,7 +194,7 @@ class Simulation():
             self.C = np.diag(C)
         else:
             assert isinstance(C, np.ndarray)
-            self.C = C
+            self.C = C.copy()
         if H is None:
             self.H = np.eye(model.M)
         elif np.isscalar(H):
@@ -204,7 +204,7 @@ class Simulation():
             self.H = np.diag(H)
         else:
             assert isinstance(H, np.ndarray)
-            self.H = H
+            self.H = H.copy()
         if Pxx is None:
             self.P_x_k_k = self.C @ self.Qcov @ self.C.T
         else: 
-- 
2.43.0


From 85ce3e6da50426d4bb85323dd6541fa97a9908b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:40 +0000
Subject: [PATCH 40/63] fix: a water quality step without dt used None as the
 time step

---
 pipedream_solver/nquality.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pipedream_solver/nquality.py b/pipedream_solver/nquality.py
index 0818254..83dbac4 100644
--- a/pipedream_solver/nquality.py
+++ b/pipedream_solver/nquality.py
@@ -977,9 +977,9 @@ class QualityBuilder():
         --------
         None
         """
-        self.import_hydraulic_states(_dt=dt)
         if dt is None:
             dt = self._dt
+        self.import_hydraulic_states(_dt=dt)
         if Q_0j is None:
             Q_0j = self.hydraulics._Q_in
         if Q_0Ik is None:
-- 
2.43.0


From 2f94415e209f768637a1e68696cc5549edbcbace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:41 +0000
Subject: [PATCH 41/63] fix: water quality used the shape of the first link and
 ignored inlet and outlet offsets

---
 pipedream_solver/nquality.py | 182 ++++++++++++-----------------------
 1 file changed, 60 insertions(+), 122 deletions(-)

diff --git a/pipedream_solver/nquality.py b/pipedream_solver/nquality.py
index 83dbac4..4e7b635 100644
--- a/pipedream_solver/nquality.py
+++ b/pipedream_solver/nquality.py
@@ -4,6 +4,7 @@ from numba import njit
 import scipy.linalg
 import scipy.sparse
 import scipy.sparse.linalg
+import pipedream_solver.ngeometry
 #test
 class QualityBuilder():
     """
@@ -257,27 +258,32 @@ class QualityBuilder():
         self._Ip1k = self.hydraulics._Ip1k
         # Calculate the cross-sectional area of links
         Ix_ik = np.arange(len(self._dx_ik_next))
-        self._A_ik_next = geometry_WQ1(Ix_ik, self.hydraulics._geom_codes, self.hydraulics._g1_ik, self._h_Ik_next, self._Ik, self._Ip1k, self._B_ik)
-        self._A_ik_prev = self.hydraulics._A_ik
+        _geom_codes = self.hydraulics._geom_codes
+        _g1_ik = self.hydraulics._g1_ik
+        _g2_ik = self.hydraulics._g2_ik
+        self._A_ik_next = geometry_WQ1(np.zeros(len(Ix_ik)), _geom_codes, _g1_ik, _g2_ik,
+                                       self._h_Ik_next, self._Ik, self._Ip1k)
+        self._A_ik_prev = geometry_WQ1(np.zeros(len(Ix_ik)), _geom_codes, _g1_ik, _g2_ik,
+                                       self._h_Ik_prev, self._Ik, self._Ip1k)
         self._Q_ik_up_next, self._Q_ik_dn_next = Q_ik_up_dn(Ix_ik, self._Ik, self._Ip1k, _dt, self._Q_ik_next, self._B_ik, self._dx_ik_next, self._h_Ik_next, self._h_Ik_prev)
-        _J_uk = self._J_uk
-        _J_dk = self._J_dk
-        self._Q_uk_up_next = np.zeros(len(self.nk))
-        self._Q_uk_dn_next = np.zeros(len(self.nk))
-        self._Q_dk_up_next = np.zeros(len(self.nk))
-        self._Q_dk_dn_next = np.zeros(len(self.nk))
-        self._A_uk_next = np.zeros(len(self.nk))
-        self._A_dk_next = np.zeros(len(self.nk))
-        self._A_uk_prev = np.zeros(len(self.nk))
-        self._A_dk_prev = np.zeros(len(self.nk))
-        _I_1k = self._I_1k
-        _I_Np1k = self._I_Np1k
-        self._Q_uk_up_next, self._Q_uk_dn_next, self._Q_dk_up_next, self._Q_dk_dn_next, self._A_uk_next, self._A_uk_prev, self._A_dk_next, self._A_dk_prev = geometry_WQ2(_I_1k,
-               _I_Np1k, _J_uk, _J_dk, self._Q_uk_next, self._B_uk, self._dx_uk, self._h_Ik_next, self._h_Ik_prev,_dt, 
-               self.hydraulics._geom_codes, self.hydraulics._g1_ik, self._H_j_next, self._z_inv_j, self._H_j_prev, self._Q_dk_next, self._B_dk, self._dx_dk,
-               self._Q_uk_up_next, self._Q_uk_dn_next, self._Q_dk_up_next, self._Q_dk_dn_next,
-               self._A_uk_next, self._A_dk_next, self._A_uk_prev, self._A_dk_prev)
-        
+        # Calculate the cross-sectional area and flows at the ends of superlinks
+        self._A_uk_next = geometry_WQ2(np.zeros(self.NK), _geom_codes, _g1_ik, _g2_ik,
+                                       self._h_Ik_next, self._H_j_next, self.hydraulics._z_inv_uk,
+                                       self._i_1k, self._I_1k, self._J_uk)
+        self._A_uk_prev = geometry_WQ2(np.zeros(self.NK), _geom_codes, _g1_ik, _g2_ik,
+                                       self._h_Ik_prev, self._H_j_prev, self.hydraulics._z_inv_uk,
+                                       self._i_1k, self._I_1k, self._J_uk)
+        self._A_dk_next = geometry_WQ2(np.zeros(self.NK), _geom_codes, _g1_ik, _g2_ik,
+                                       self._h_Ik_next, self._H_j_next, self.hydraulics._z_inv_dk,
+                                       self._i_nk, self._I_Np1k, self._J_dk)
+        self._A_dk_prev = geometry_WQ2(np.zeros(self.NK), _geom_codes, _g1_ik, _g2_ik,
+                                       self._h_Ik_prev, self._H_j_prev, self.hydraulics._z_inv_dk,
+                                       self._i_nk, self._I_Np1k, self._J_dk)
+        self._Q_uk_up_next, self._Q_uk_dn_next, self._Q_dk_up_next, self._Q_dk_dn_next = Q_bk_up_dn(
+            _dt, self._Q_uk_next, self._Q_dk_next, self._B_uk, self._B_dk, self._dx_uk, self._dx_dk,
+            self.hydraulics._theta_uk, self.hydraulics._theta_dk, self._h_Ik_next, self._h_Ik_prev,
+            self._H_j_next, self._H_j_prev, self._I_1k, self._I_Np1k, self._J_uk, self._J_dk)
+
     @property
     def c_j(self):
         return self._c_j
@@ -1645,112 +1651,44 @@ def c_I_b(c_ik, c_Np1k, X_Ik, Y_Ik, Z_Ik):
     return result
 
 @njit
-def geometry_WQ1(Ix_ik, _geom_codes, _g1_ik, _h_Ik_next, _Ik, _Ip1k, _B_ik):
-    if _geom_codes[0] ==1:
-        d = _g1_ik
-        y = 0.5*(_h_Ik_next[_Ik] + _h_Ik_next[_Ip1k])
-        y[y < 0] = 0
-        y[y > d] = d[y > d]
-        r = d / 2
-        phi = y / r
-        phi[phi < 0] = 0
-        phi[phi > 2] = 2
-        theta = np.arccos(1 - phi)
-        _A_ik_next = r**2 * (theta - np.cos(theta) * np.sin(theta))
-    elif _geom_codes[0] ==3:
-        _A_ik_next = _B_ik[Ix_ik]*0.5*(_h_Ik_next[_Ik] + _h_Ik_next[_Ip1k])
+def link_area_WQ(geom_code, h_0, h_1, g1, g2):
+    if geom_code == 1:
+        area = pipedream_solver.ngeometry.Circular_A_ik(h_0, h_1, g1)
+    elif geom_code == 3:
+        area = pipedream_solver.ngeometry.Rect_Open_A_ik(h_0, h_1, g1, g2)
     else:
-        raise ValueError('Geometries of conduit should be [circular] or [rect_open] in this version of WQ solver.')    
+        raise ValueError('Geometries of conduit should be [circular] or [rect_open] in this version of WQ solver.')
+    return area
+
+@njit
+def geometry_WQ1(_A_ik_next, _geom_codes, _g1_ik, _g2_ik, _h_Ik_next, _Ik, _Ip1k):
+    for i in range(len(_A_ik_next)):
+        _A_ik_next[i] = link_area_WQ(_geom_codes[i], _h_Ik_next[_Ik[i]], _h_Ik_next[_Ip1k[i]],
+                                     _g1_ik[i], _g2_ik[i])
     return _A_ik_next
+
 @njit
-def geometry_WQ2(_I_1k, _I_Np1k, _J_uk, _J_dk, _Q_uk_next, _B_uk, _dx_uk, 
-                 _h_Ik_next, _h_Ik_prev, _dt, _geom_codes, _g1_ik, _H_j_next, _z_inv_j, _H_j_prev, _Q_dk_next,
-                 _B_dk, _dx_dk, _Q_uk_up_next, _Q_uk_dn_next, _Q_dk_up_next, _Q_dk_dn_next,
-                 _A_uk_next, _A_dk_next, _A_uk_prev, _A_dk_prev):
-    
-    n = len(_I_1k)
-    for k in range(n):
-        _Q_uk_up_next[k] = (_Q_uk_next[k] + (0.5*_B_uk[k]*_dx_uk[k])
-                                *(_H_j_next[_J_uk[k]] - _H_j_prev[_J_uk[k]])/_dt)
-        _Q_uk_dn_next[k] = (_Q_uk_next[k] - (0.5*_B_uk[k]*_dx_uk[k])
-                                *(_h_Ik_next[_I_1k[k]] - _h_Ik_prev[_I_1k[k]])/_dt)
-        # Calculate the cross-sectional area of upstream boundary links
-        if _geom_codes[0] ==1:
-            d = _g1_ik[k]
-            y = 0.5*(_H_j_next[_J_uk[k]] - _z_inv_j[_J_uk[k]] + _h_Ik_next[_I_1k[k]])
-            if y < 0:
-                y = 0.0
-            elif y > d:
-                y = d
-            r = d / 2
-            phi = y / r
-            if phi < 0:
-                phi = 0
-            elif phi > 2:
-                phi = 2
-            theta = np.arccos(1 - phi)
-            _A_uk_next[k] = r**2 * (theta - np.cos(theta) * np.sin(theta))
-            
-            y = 0.5*(_H_j_prev[_J_uk[k]] - _z_inv_j[_J_uk[k]] + _h_Ik_prev[_I_1k[k]])
-            if y < 0:
-                y = 0.0
-            elif y > d:
-                y = d
-            r = d / 2
-            phi = y / r
-            if phi < 0:
-                phi = 0
-            elif phi > 2:
-                phi = 2
-            theta = np.arccos(1 - phi)
-            _A_uk_prev[k] = r**2 * (theta - np.cos(theta) * np.sin(theta))
-        elif _geom_codes[0] ==3:
-            _A_uk_next[k] = (_B_uk[k]*0.5*(_H_j_next[_J_uk[k]] - _z_inv_j[_J_uk[k]] + _h_Ik_next[_I_1k[k]]))
-            _A_uk_prev[k] = (_B_uk[k]*0.5*(_H_j_prev[_J_uk[k]] - _z_inv_j[_J_uk[k]] + _h_Ik_prev[_I_1k[k]]))
-        else:
-            raise ValueError('Geometries of conduit should be [circular] or [rect_open] in this version of WQ solver.')
-            
-        _Q_dk_up_next[k] = (_Q_dk_next[k] + (0.5*_B_dk[k]*_dx_dk[k])
-                              *(_h_Ik_next[_I_Np1k[k]] - _h_Ik_prev[_I_Np1k[k]])/_dt)
-        _Q_dk_dn_next[k] = (_Q_dk_next[k] - (0.5*_B_dk[k]*_dx_dk[k])
-                                *(_H_j_next[_J_dk[k]] - _H_j_prev[_J_dk[k]])/_dt)
-        
-        # Calculate the cross-sectional area of downstream boundary links
-        if _geom_codes[0] ==1:
-            d = _g1_ik[k]
-            y = 0.5*(_H_j_next[_J_dk[k]] - _z_inv_j[_J_dk[k]] + _h_Ik_next[_I_Np1k[k]])
-            if y < 0:
-                y = 0.0
-            elif y > d:
-                y = d
-            r = d / 2
-            phi = y / r
-            if phi < 0:
-                phi = 0
-            elif phi > 2:
-                phi = 2
-            theta = np.arccos(1 - phi)
-            _A_dk_next[k] = r**2 * (theta - np.cos(theta) * np.sin(theta))
-            y = 0.5*(_H_j_prev[_J_dk[k]] - _z_inv_j[_J_dk[k]] + _h_Ik_prev[_I_Np1k[k]])
-            if y < 0:
-                y = 0.0
-            elif y > d:
-                y = d
-            r = d / 2
-            phi = y / r
-            if phi < 0:
-                phi = 0
-            elif phi > 2:
-                phi = 2
-            theta = np.arccos(1 - phi)
-            _A_dk_prev[k] = r**2 * (theta - np.cos(theta) * np.sin(theta))
-        elif _geom_codes[0] ==3:
-            _A_dk_next[k] = (_B_dk[k]*0.5*(_H_j_next[_J_dk[k]] - _z_inv_j[_J_dk[k]] + _h_Ik_next[_I_Np1k[k]]))
-            _A_dk_prev[k] = (_B_dk[k]*0.5*(_H_j_prev[_J_dk[k]] - _z_inv_j[_J_dk[k]] + _h_Ik_prev[_I_Np1k[k]]))
-        else:
-            raise ValueError('Geometries of conduit should be [circular] or [rect_open] in this version of WQ solver.')
+def geometry_WQ2(_A_bk_next, _geom_codes, _g1_ik, _g2_ik, _h_Ik_next, _H_j_next, _z_inv_bk,
+                 _i_bk, _I_bk, _J_bk):
+    # Cross-sectional area between the end of each superlink and its superjunction
+    for k in range(len(_A_bk_next)):
+        i = _i_bk[k]
+        h_j = max(_H_j_next[_J_bk[k]] - _z_inv_bk[k], 0.)
+        _A_bk_next[k] = link_area_WQ(_geom_codes[i], _h_Ik_next[_I_bk[k]], h_j,
+                                     _g1_ik[i], _g2_ik[i])
+    return _A_bk_next
 
-    return _Q_uk_up_next, _Q_uk_dn_next, _Q_dk_up_next, _Q_dk_dn_next, _A_uk_next, _A_uk_prev, _A_dk_next, _A_dk_prev
+@njit
+def Q_bk_up_dn(_dt, _Q_uk_next, _Q_dk_next, _B_uk, _B_dk, _dx_uk, _dx_dk, _theta_uk, _theta_dk,
+               _h_Ik_next, _h_Ik_prev, _H_j_next, _H_j_prev, _I_1k, _I_Np1k, _J_uk, _J_dk):
+    _E_uk = 0.5 * _B_uk * _dx_uk / _dt
+    _E_dk = 0.5 * _B_dk * _dx_dk / _dt
+    # A superjunction below the invert of a superlink does not store water in its end
+    _Q_uk_up_next = _Q_uk_next + _E_uk * _theta_uk * (_H_j_next[_J_uk] - _H_j_prev[_J_uk])
+    _Q_uk_dn_next = _Q_uk_next - _E_uk * (_h_Ik_next[_I_1k] - _h_Ik_prev[_I_1k])
+    _Q_dk_up_next = _Q_dk_next + _E_dk * (_h_Ik_next[_I_Np1k] - _h_Ik_prev[_I_Np1k])
+    _Q_dk_dn_next = _Q_dk_next - _E_dk * _theta_dk * (_H_j_next[_J_dk] - _H_j_prev[_J_dk])
+    return _Q_uk_up_next, _Q_uk_dn_next, _Q_dk_up_next, _Q_dk_dn_next
 
 @njit
 def Q_ik_up_dn(Ix_ik, _Ik, _Ip1k, _dt, _Q_ik_next, _B_ik, _dx_ik_next, _h_Ik_next, _h_Ik_prev):
-- 
2.43.0


From e3c52f870f6a5490c2b8bf0884b9abbc77c7db7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:23 +0000
Subject: [PATCH 42/63] fix: water quality took the volume of every
 superjunction as its surface area times depth

---
 pipedream_solver/nquality.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pipedream_solver/nquality.py b/pipedream_solver/nquality.py
index 4e7b635..1381f67 100644
--- a/pipedream_solver/nquality.py
+++ b/pipedream_solver/nquality.py
@@ -249,8 +249,10 @@ class QualityBuilder():
         self._dx_ik_next = self.hydraulics._dx_ik
         self._A_sj = self.hydraulics._A_sj
         self._z_inv_j = self.hydraulics.z_inv_j  #★★★
-        self._V_j_next = self._A_sj*(self._H_j_next - self._z_inv_j)
-        self._V_j_prev = self._A_sj*(self._H_j_prev - self._z_inv_j)
+        # The volume stored at the start of the hydraulic step changes with the surface area
+        # the step was solved with
+        self._V_j_prev = self.hydraulics._V_sj
+        self._V_j_next = np.maximum(self._V_j_prev + self._A_sj*(self._H_j_next - self._H_j_prev), 0.)
         self._B_uk = self.hydraulics._B_uk
         self._B_dk = self.hydraulics._B_dk
         self._B_ik = self.hydraulics._B_ik
-- 
2.43.0


From 8cdf388db0a12931a4b841786fbd4c3f43c588f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:49 +0000
Subject: [PATCH 43/63] fix: water quality stored a different mass than it
 carried over to the next step

---
 pipedream_solver/nquality.py | 97 ++++++++++++++++++------------------
 1 file changed, 49 insertions(+), 48 deletions(-)

diff --git a/pipedream_solver/nquality.py b/pipedream_solver/nquality.py
index 1381f67..d297c0b 100644
--- a/pipedream_solver/nquality.py
+++ b/pipedream_solver/nquality.py
@@ -253,6 +253,8 @@ class QualityBuilder():
         # the step was solved with
         self._V_j_prev = self.hydraulics._V_sj
         self._V_j_next = np.maximum(self._V_j_prev + self._A_sj*(self._H_j_next - self._H_j_prev), 0.)
+        # A superjunction that stores nothing and receives nothing keeps its concentration
+        self._V_j_prev = np.maximum(self._V_j_prev, 1e-9)
         self._B_uk = self.hydraulics._B_uk
         self._B_dk = self.hydraulics._B_dk
         self._B_ik = self.hydraulics._B_ik
@@ -387,19 +389,19 @@ class QualityBuilder():
         _beta_ik = beta_ik(_dt, _D_ik, _A_ik_next, _A_ik_prev, _dx_ik_next, _K_ik,
                            _Q_ik_up_next, _Q_ik_dn_next, _omega_ik_up, _omega_ik_dn)
         _chi_ik = chi_ik(_Q_ik_dn_next, _omega_ik_dn, _dx_ik_next, _D_ik, _A_ik_next)
-        _gamma_ik = gamma_ik(_dt, _c_ik, _A_ik_next, _dx_ik_next)
+        _gamma_ik = gamma_ik(_dt, _c_ik, _A_ik_prev, _dx_ik_next)
         # Compute link coefficients for upstream boundary
         _alpha_uk = alpha_ik(_Q_uk_up_next, _omega_uk_up, _dx_uk, _D_uk, _A_uk_next)
         _beta_uk = beta_ik(_dt, _D_uk, _A_uk_next, _A_uk_prev, _dx_uk, 0, _Q_uk_up_next, _Q_uk_dn_next,
                            _omega_uk_up, _omega_uk_dn)
         _chi_uk = chi_ik(_Q_uk_dn_next, _omega_uk_dn, _dx_uk, _D_uk, _A_uk_next)
-        _gamma_uk = gamma_ik(_dt, _c_uk, _A_uk_next, _dx_uk)
+        _gamma_uk = gamma_ik(_dt, _c_uk, _A_uk_prev, _dx_uk)
         # Compute link coefficients for downstream boundary
         _alpha_dk = alpha_ik(_Q_dk_up_next, _omega_dk_up, _dx_dk, _D_dk, _A_dk_next)
         _beta_dk = beta_ik(_dt, _D_dk, _A_dk_next, _A_dk_prev, _dx_dk, 0, _Q_dk_up_next, _Q_dk_dn_next,
                            _omega_dk_up, _omega_dk_dn)
         _chi_dk = chi_ik(_Q_dk_dn_next, _omega_dk_dn, _dx_dk, _D_dk, _A_dk_next)
-        _gamma_dk = gamma_ik(_dt, _c_dk, _A_dk_next, _dx_dk)
+        _gamma_dk = gamma_ik(_dt, _c_dk, _A_dk_prev, _dx_dk)
         # Export to instance variables
         self._alpha_ik = _alpha_ik
         self._beta_ik = _beta_ik
@@ -687,9 +689,11 @@ class QualityBuilder():
             c_bc = self._c_j
         # If no flow input specified, assume zero external inflow
         if _Q_0j is None:
-            _Q_0j = 0
+            _Q_0j = 0.
         if _c_0j is None:
-            _c_0j = 0
+            _c_0j = 0.
+        # A withdrawal leaves at the concentration of the superjunction
+        _Q_0j = np.maximum(np.zeros(M), _Q_0j)
         # If no control input signal specified assume zero input
         if u is None:
             u = 0
@@ -703,7 +707,7 @@ class QualityBuilder():
         _omega_dk_dn = (_Q_dk_dn_next >= 0).astype(np.float64)
         numba_create_A_matrix(A, _F_jj, bc, _J_uk, _J_dk, _rho_uk, _rho_dk, _tau_uk, _tau_dk,
                               _Q_uk_up_next, _Q_dk_dn_next, _omega_uk_up, _omega_dk_dn, _V_j_next, _V_j_prev,
-                              _H_j_next, _dt, _K_j, _D_uk, _D_dk, _A_uk_next, _A_dk_next,
+                              _Q_0j, _dt, _K_j, _D_uk, _D_dk, _A_uk_next, _A_dk_next,
                               _dx_uk, _dx_dk, M, NK)
         # Create D vector
         numba_add_at(D, _J_uk, (-_Q_uk_up_next * (1 - _omega_uk_up)
@@ -731,8 +735,7 @@ class QualityBuilder():
                                     _Q_p_next, M, n_p)
         b.fill(0)
         # TODO: Change to _c_j_prev
-        b = (_V_j_next * _c_j / _dt) + (_Q_0j * _c_0j) + D
-        
+        b = (_V_j_prev * _c_j / _dt) + (_Q_0j * _c_0j) + D
         # Ensure boundary condition is specified
         b[bc] = c_bc[bc]
         # Export instance variables
@@ -1022,8 +1025,7 @@ class QualityBuilder():
         H_k[0,Observation_point] = 1 
         N_process_sigma = self.N_process_sigma
         N_measure_sigma = self.N_measure_sigma
-        A_sj_k = self.hydraulics.A_sj
-        H_j_k_next = self._H_j_next - self._z_inv_j
+        _V_j_prev = self._V_j_prev
         # Add measurement noise and calculate the covariance
         Noise_measurement = N_measure_sigma*np.random.randn()
         Z = _c_j[Observation_point] + Noise_measurement
@@ -1031,7 +1033,7 @@ class QualityBuilder():
         Q_cov = (N_process_sigma**2)*np.eye(_M, _M)
         # Define the matrices : A, B, C
         I_k = np.arange(0, _M, 1)
-        A1_k[I_k,I_k] = A_sj_k*H_j_k_next/_dt
+        A1_k[I_k,I_k] = _V_j_prev/_dt
         Bu_k = self.b - A1_k @ _c_j_prev_kf    # All external inputs : Bu(t) = b - A1x[t]  where x[t]=c_j[t]
         A_inv = np.linalg.inv(self.A_L_kf)
         A_k = A_inv @ A1_k
@@ -1063,8 +1065,7 @@ class QualityBuilder():
         H_k[0,Observation_point] = 1 
         N_process_sigma = self.N_process_sigma
         N_measure_sigma = self.N_measure_sigma
-        A_sj_k = self.hydraulics.A_sj
-        H_j_k_next = self._H_j_next - self._z_inv_j
+        _V_j_prev = self._V_j_prev
         # covariance matrices
         R_cov = (N_measure_sigma**2)*np.ones((1,1))
         if process_correlation == 0:
@@ -1073,8 +1074,8 @@ class QualityBuilder():
             Q_cov = (N_process_sigma**2)*np.ones((_M, _M))
         # Define the matrices : A, B, C
         I_k = np.arange(0, _M, 1)
-        A1_k[I_k,I_k] = A_sj_k*H_j_k_next/_dt
-        self.x_hat, self.P_k, self.A_k, self.B_k = KF_WQ2(A1_k, I_k, A_sj_k, H_j_k_next, _dt, self.b, _c_j_prev_kf, x_hat, P_k, H_k, K_k, self.A_L_kf, Q_cov, R_cov, measure)
+        A1_k[I_k,I_k] = _V_j_prev/_dt
+        self.x_hat, self.P_k, self.A_k, self.B_k = KF_WQ2(A1_k, I_k, _dt, self.b, _c_j_prev_kf, x_hat, P_k, H_k, K_k, self.A_L_kf, Q_cov, R_cov, measure)
         self._c_j = self.x_hat
         self._c_j_prev_kf = self.x_hat
         
@@ -1084,10 +1085,9 @@ class QualityBuilder():
         _M = self.M
         A1_k = self.A1_k
         _c_j_prev_kf = self._c_j_prev_kf
-        A_sj_k = self.hydraulics.A_sj
-        H_j_k_next = self._H_j_next - self._z_inv_j
+        _V_j_prev = self._V_j_prev
         I_k = np.arange(0, _M, 1)
-        A1_k[I_k,I_k] = A_sj_k*H_j_k_next/_dt
+        A1_k[I_k,I_k] = _V_j_prev/_dt
         Bu_k = self.b - A1_k @ _c_j_prev_kf    # All external inputs : Bu(t) = b - A1x[t]  where x[t]=c_j[t]
         A_inv = np.linalg.inv(self.A_L_kf)
         A_k = A_inv @ A1_k
@@ -1118,12 +1118,13 @@ def alpha_ik(Q_ik_up, omega_ik_up, dx_ik, D_ik, A_ik):
 
 @njit
 def beta_ik(dt, D_ik, A_ik, A_ik_prev, dx_ik, K_ik, Q_ik_up, Q_ik_dn, omega_ik_up, omega_ik_dn):
-    t_0 = Q_ik_dn * omega_ik_dn
-    t_1 = - Q_ik_up * (1 - omega_ik_up)
+    # Flow entering through either end displaces what was stored
+    t_0 = Q_ik_up * omega_ik_up
+    t_1 = - Q_ik_dn * (1 - omega_ik_dn)
     # TODO: Check if this is 4 or 8
     t_2 = 4 * D_ik * A_ik / dx_ik
     t_3 = K_ik * dx_ik * A_ik
-    t_4 = dx_ik * (2 * A_ik - A_ik_prev) / dt
+    t_4 = dx_ik * A_ik_prev / dt
     return t_0 + t_1 + t_2 + t_3 + t_4
 
 @njit
@@ -1134,8 +1135,8 @@ def chi_ik(Q_ik_dn, omega_ik_dn, dx_ik, D_ik, A_ik):
     return t_0 + t_1
 
 @njit
-def gamma_ik(dt, c_ik_prev, A_ik, dx_ik):
-    t_0 = c_ik_prev * A_ik * dx_ik / dt
+def gamma_ik(dt, c_ik_prev, A_ik_prev, dx_ik):
+    t_0 = c_ik_prev * A_ik_prev * dx_ik / dt
     return t_0
 
 @njit
@@ -1145,16 +1146,18 @@ def kappa_Ik(Q_im1k_dn_next, omega_dn_im1k, D_Ik, A_Ik, dx_im1k):
     return t_0 + t_1
 
 @njit
-def lambda_Ik(A_SIk, h_Ik_next, h_Ik_prev, Q_ik_up_next, Q_im1k_dn_next, omega_ik_up, omega_im1k_dn, dt,
+def lambda_Ik(Q_0_Ik, A_SIk, h_Ik_next, h_Ik_prev, Q_ik_up_next, Q_im1k_dn_next, omega_ik_up, omega_im1k_dn, dt,
               K_Ik, D_ik, D_im1k, A_ik, A_im1k, dx_ik, dx_im1k):
     t_0 = A_SIk * h_Ik_next * K_Ik
-    t_1 = omega_ik_up * Q_ik_up_next
-    t_2 = - (1 - omega_im1k_dn) * Q_im1k_dn_next
+    # Flow entering from either side or from outside displaces what was stored
+    t_1 = omega_im1k_dn * Q_im1k_dn_next
+    t_2 = - (1 - omega_ik_up) * Q_ik_up_next
     # TODO: Check if this is 4 or 2
     t_3 = 2 * D_im1k * A_im1k / dx_im1k
     t_4 = 2 * D_ik * A_ik / dx_ik
-    t_5 = A_SIk * (2 * h_Ik_next - h_Ik_prev) / dt
-    return t_0 + t_1 + t_2 + t_3 + t_4 + t_5
+    t_5 = A_SIk * h_Ik_prev / dt
+    t_6 = max(Q_0_Ik, 0.)
+    return t_0 + t_1 + t_2 + t_3 + t_4 + t_5 + t_6
 
 @njit
 def mu_Ik(Q_ik_up_next, omega_ik_up, D_Ik, A_Ik, dx_ik):
@@ -1163,9 +1166,10 @@ def mu_Ik(Q_ik_up_next, omega_ik_up, D_Ik, A_Ik, dx_ik):
     return t_0 + t_1
 
 @njit
-def eta_Ik(c_0_Ik, Q_0_Ik, A_SIk, h_Ik_next, c_Ik_prev, dt):
-    t_0 = c_0_Ik * Q_0_Ik
-    t_1 = A_SIk * h_Ik_next * c_Ik_prev / dt
+def eta_Ik(c_0_Ik, Q_0_Ik, A_SIk, h_Ik_prev, c_Ik_prev, dt):
+    # A withdrawal leaves at the concentration of the junction
+    t_0 = c_0_Ik * max(Q_0_Ik, 0.)
+    t_1 = A_SIk * h_Ik_prev * c_Ik_prev / dt
     return t_0 + t_1
 
 @njit
@@ -1396,36 +1400,36 @@ def numba_node_coeffs(_kappa_Ik, _lambda_Ik, _mu_Ik, _eta_Ik, _Q_ik_up_next, _Q_
             i = _forward_I_i[I]
             k = _kI[I]
             _kappa_Ik[I] = kappa_Ik(_Q_uk_dn_next[k], _omega_uk_dn[k], _D_uk[k], _A_uk_next[k], _dx_uk[k])
-            _lambda_Ik[I] = lambda_Ik(_A_SIk[I], _h_Ik_next[I], _h_Ik_prev[I], _Q_ik_up_next[i],
+            _lambda_Ik[I] = lambda_Ik(_Q_0Ik[I], _A_SIk[I], _h_Ik_next[I], _h_Ik_prev[I], _Q_ik_up_next[i],
                                       _Q_uk_dn_next[k], _omega_ik_up[i], _omega_uk_dn[k], _dt, _K_Ik[I],
                                       _D_ik[i], _D_uk[k], _A_ik_next[i], _A_uk_next[k],
                                       _dx_ik_next[i], _dx_uk[k])
             _mu_Ik[I] = mu_Ik(_Q_ik_up_next[i], _omega_ik_up[i], _D_ik[i], _A_ik_next[i], _dx_ik_next[i])
-            _eta_Ik[I] = eta_Ik(_c_0Ik[I], _Q_0Ik[I], _A_SIk[I], _h_Ik_next[I], _c_Ik_prev[I], _dt)
+            _eta_Ik[I] = eta_Ik(_c_0Ik[I], _Q_0Ik[I], _A_SIk[I], _h_Ik_prev[I], _c_Ik_prev[I], _dt)
         elif _is_end[I]:
             im1 = _backward_I_i[I]
             k = _kI[I]
             # TODO: Possible out-of-bounds error
             _kappa_Ik[I] = kappa_Ik(_Q_ik_dn_next[im1], _omega_ik_dn[im1], _D_ik[im1], _A_ik_next[im1],
                                     _dx_ik_next[im1])
-            _lambda_Ik[I] = lambda_Ik(_A_SIk[I], _h_Ik_next[I], _h_Ik_prev[I], _Q_dk_up_next[k],
+            _lambda_Ik[I] = lambda_Ik(_Q_0Ik[I], _A_SIk[I], _h_Ik_next[I], _h_Ik_prev[I], _Q_dk_up_next[k],
                                       _Q_ik_dn_next[im1], _omega_dk_up[k], _omega_ik_dn[im1], _dt, _K_Ik[I],
                                       _D_dk[k], _D_ik[im1], _A_dk_next[k], _A_ik_next[im1],
                                       _dx_dk[k], _dx_ik_next[im1])
             _mu_Ik[I] = mu_Ik(_Q_dk_up_next[k], _omega_dk_up[k], _D_dk[k], _A_dk_next[k], _dx_dk[k])
-            _eta_Ik[I] = eta_Ik(_c_0Ik[I], _Q_0Ik[I], _A_SIk[I], _h_Ik_next[I],
+            _eta_Ik[I] = eta_Ik(_c_0Ik[I], _Q_0Ik[I], _A_SIk[I], _h_Ik_prev[I],
                                 _c_Ik_prev[I], _dt)
         else:
             i = _forward_I_i[I]
             im1 = i - 1
             _kappa_Ik[I] = kappa_Ik(_Q_ik_dn_next[im1], _omega_ik_dn[im1], _D_ik[im1], _A_ik_next[im1],
                                     _dx_ik_next[im1])
-            _lambda_Ik[I] = lambda_Ik(_A_SIk[I], _h_Ik_next[I], _h_Ik_prev[I], _Q_ik_up_next[i],
+            _lambda_Ik[I] = lambda_Ik(_Q_0Ik[I], _A_SIk[I], _h_Ik_next[I], _h_Ik_prev[I], _Q_ik_up_next[i],
                                       _Q_ik_dn_next[im1], _omega_ik_up[i], _omega_ik_dn[im1], _dt,
                                       _K_Ik[I], _D_ik[i], _D_ik[im1], _A_ik_next[i],
                                       _A_ik_next[im1], _dx_ik_next[i], _dx_ik_next[im1])
             _mu_Ik[I] = mu_Ik(_Q_ik_up_next[i], _omega_ik_up[i], _D_ik[i], _A_ik_next[i], _dx_ik_next[i])
-            _eta_Ik[I] = eta_Ik(_c_0Ik[I], _Q_0Ik[I], _A_SIk[I], _h_Ik_next[I], _c_Ik_prev[I], _dt)
+            _eta_Ik[I] = eta_Ik(_c_0Ik[I], _Q_0Ik[I], _A_SIk[I], _h_Ik_prev[I], _c_Ik_prev[I], _dt)
     return 1
 
 @njit
@@ -1527,18 +1531,15 @@ def numba_clear_off_diagonals(A, bc, _J_uk, _J_dk, NK):
 
 @njit(fastmath=False)
 def numba_create_A_matrix(A, _F_jj, bc, _J_uk, _J_dk, _rho_uk, _rho_dk, _tau_uk, _tau_dk,
-                          _Q_uk_up, _Q_dk_dn, _omega_uk_up, _omega_dk_dn, _V_j_next, _V_j_prev, _H_j_next, _dt,
+                          _Q_uk_up, _Q_dk_dn, _omega_uk_up, _omega_dk_dn, _V_j_next, _V_j_prev, _Q_0j, _dt,
                           _K_j, _D_uk, _D_dk, _A_uk_next, _A_dk_next, _dx_uk, _dx_dk, M, NK):
     # TODO: Grouping of Q multiplication changed
-    kuj = (- _Q_uk_up * (_omega_uk_up + (1 - _omega_uk_up) * _rho_uk)
-           + 2 * _D_uk * _A_uk_next * (_rho_uk - 1) / _dx_uk)
-    kdj = (_Q_dk_dn * (_tau_dk * _omega_dk_dn + (1 - _omega_dk_dn))
-           + 2 * _D_dk * _A_dk_next * (_tau_dk - 1) / _dx_dk)
+    # Flow entering from superlinks or from outside displaces what was stored
+    kuj = (- _Q_uk_up * (1 - _omega_uk_up) + 2 * _D_uk * _A_uk_next / _dx_uk) * (_rho_uk - 1)
+    kdj = (_Q_dk_dn * _omega_dk_dn + 2 * _D_dk * _A_dk_next / _dx_dk) * (_tau_dk - 1)
     numba_add_at(_F_jj, _J_uk, -kuj)
     numba_add_at(_F_jj, _J_dk, -kdj)
-    
-    
-    _F_jj += (2 * _V_j_next - _V_j_prev) / _dt + (_K_j * _V_j_next)
+    _F_jj += _V_j_prev / _dt + (_K_j * _V_j_next) + _Q_0j
     # Set diagonal of A matrix
     for i in range(M):
         if bc[i]:
@@ -1560,8 +1561,8 @@ def numba_create_A_matrix(A, _F_jj, bc, _J_uk, _J_dk, _rho_uk, _rho_dk, _tau_uk,
 @njit(fastmath=False)
 def numba_create_OWP_matrix(X, diag, bc, _J_uc, _J_dc, _omega_c, _Q_c, M, NC):
     # Set diagonal
-    numba_add_at(diag, _J_uc, _Q_c * _omega_c)
-    numba_add_at(diag, _J_dc, -_Q_c * (1 - _omega_c))
+    numba_add_at(diag, _J_uc, -_Q_c * (1 - _omega_c))
+    numba_add_at(diag, _J_dc, _Q_c * _omega_c)
     for i in range(M):
         if bc[i]:
             X[i,i] = 0.0
@@ -1701,7 +1702,7 @@ def Q_ik_up_dn(Ix_ik, _Ik, _Ip1k, _dt, _Q_ik_next, _B_ik, _dx_ik_next, _h_Ik_nex
     return _Q_ik_up_next, _Q_ik_dn_next
 
 @njit
-def KF_WQ2(A1_k, I_k, A_sj_k, H_j_k_next, _dt, b, _c_j_prev_kf, x_hat, P_k, H_k, K_k, A_L_kf, Q_cov, R_cov, measure):
+def KF_WQ2(A1_k, I_k, _dt, b, _c_j_prev_kf, x_hat, P_k, H_k, K_k, A_L_kf, Q_cov, R_cov, measure):
     Bu_k = b - A1_k@_c_j_prev_kf    # All external inputs : Bu(t) = b - A1x[t]  where x[t]=c_j[t]
     # calculate the Kalman Filter matrices
     A_inv = np.linalg.inv(A_L_kf)
-- 
2.43.0


From 62f847a88356a394eb64a69b9ca58d055fcd561b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:50 +0000
Subject: [PATCH 44/63] fix: water quality ignored what enters a superlink
 where it does not flow onwards

---
 pipedream_solver/nquality.py | 284 ++++++++++-------------------------
 1 file changed, 76 insertions(+), 208 deletions(-)

diff --git a/pipedream_solver/nquality.py b/pipedream_solver/nquality.py
index d297c0b..b46726c 100644
--- a/pipedream_solver/nquality.py
+++ b/pipedream_solver/nquality.py
@@ -176,12 +176,12 @@ class QualityBuilder():
         self._Y_Ik = np.zeros(self._I.size)
         self._Z_Ik = np.zeros(self._I.size)
         self._W_Ik = np.zeros(self._I.size)
-        self._X_uk = np.zeros(self.NK)
-        self._Y_uk = np.zeros(self.NK)
-        self._Z_uk = np.zeros(self.NK)
-        self._U_dk = np.zeros(self.NK)
-        self._V_dk = np.zeros(self.NK)
-        self._W_dk = np.zeros(self.NK)
+        self._rho_1k = np.zeros(self.NK)
+        self._tau_1k = np.zeros(self.NK)
+        self._zeta_1k = np.zeros(self.NK)
+        self._rho_Np1k = np.zeros(self.NK)
+        self._tau_Np1k = np.zeros(self.NK)
+        self._zeta_Np1k = np.zeros(self.NK)
         self._rho_uk = np.zeros(self.NK)
         self._tau_uk = np.zeros(self.NK)
         self._zeta_uk = np.zeros(self.NK)
@@ -557,13 +557,14 @@ class QualityBuilder():
         _i_1k = self._i_1k                # Index of first link in each superlink
         _I_Nk = self._I_Nk                # Index of penultimate junction in each superlink
         _i_nk = self._i_nk                # Index of last link in each superlink
+        _c_Ik = self._c_Ik
         NK = self.NK
-        _X_uk = self._X_uk
-        _Y_uk = self._Y_uk
-        _Z_uk = self._Z_uk
-        _U_dk = self._U_dk
-        _V_dk = self._V_dk
-        _W_dk = self._W_dk
+        _rho_1k = self._rho_1k
+        _tau_1k = self._tau_1k
+        _zeta_1k = self._zeta_1k
+        _rho_Np1k = self._rho_Np1k
+        _tau_Np1k = self._tau_Np1k
+        _zeta_Np1k = self._zeta_Np1k
         _alpha_uk = self._alpha_uk
         _beta_uk = self._beta_uk
         _chi_uk = self._chi_uk
@@ -578,41 +579,21 @@ class QualityBuilder():
         _rho_dk = self._rho_dk
         _tau_dk = self._tau_dk
         _zeta_dk = self._zeta_dk
-        # Compute boundary coefficients
-        numba_boundary_coefficients(_X_uk, _Y_uk, _Z_uk, _U_dk, _V_dk, _W_dk,
+        # Express concentrations at both ends of the superlink by those of its superjunctions
+        numba_boundary_coefficients(_rho_1k, _tau_1k, _zeta_1k, _rho_Np1k, _tau_Np1k, _zeta_Np1k,
+                                    _rho_uk, _tau_uk, _zeta_uk, _rho_dk, _tau_dk, _zeta_dk,
+                                    _alpha_uk, _beta_uk, _chi_uk, _gamma_uk,
+                                    _alpha_dk, _beta_dk, _chi_dk, _gamma_dk,
                                     _X_Ik, _Y_Ik, _Z_Ik, _U_Ik, _V_Ik, _W_Ik,
-                                    _kappa_Ik, _lambda_Ik, _mu_Ik, _eta_Ik,
+                                    _kappa_Ik, _lambda_Ik, _mu_Ik, _eta_Ik, _c_Ik,
                                     NK, _I_1k, _I_Nk)
-        # Compute boundary advection/diffusion coefficients
-        _theta_uk = theta_uk(_beta_uk, _chi_uk)
-        _sigma_uk = sigma_uk(_alpha_uk, _chi_uk)
-        _xi_uk = xi_uk(_gamma_uk, _chi_uk)
-        _theta_dk = theta_dk(_beta_dk, _alpha_dk)
-        _sigma_dk = sigma_dk(_chi_dk, _alpha_dk)
-        _xi_dk = xi_dk(_gamma_dk, _alpha_dk)
-        # Compute boundary transport coefficients
-        _D_k_star = D_k_star(_X_uk, _U_dk, _W_dk, _Z_uk, _theta_uk, _theta_dk)
-        _rho_uk = rho_uk(_U_dk, _X_uk, _Z_uk, _W_dk, _theta_dk, _sigma_uk, _D_k_star)
-        _tau_uk = tau_uk(_Z_uk, _sigma_dk, _D_k_star)
-        _zeta_uk = zeta_uk(_Z_uk, _V_dk, _U_dk, _Y_uk, _X_uk, _W_dk,
-                             _theta_dk, _xi_uk, _xi_dk, _D_k_star)
-        _rho_dk = rho_dk(_W_dk, _sigma_uk, _D_k_star)
-        _tau_dk = tau_dk(_X_uk, _U_dk, _W_dk, _Z_uk, _theta_uk, _sigma_dk, _D_k_star)
-        _zeta_dk = zeta_dk(_W_dk, _Y_uk, _X_uk, _V_dk, _Z_uk, _U_dk,
-                             _theta_uk, _xi_uk, _xi_dk, _D_k_star)
         # Export instance variables
-        self._X_uk = _X_uk
-        self._Y_uk = _Y_uk
-        self._Z_uk = _Z_uk
-        self._U_dk = _U_dk
-        self._V_dk = _V_dk
-        self._W_dk = _W_dk
-        self._theta_uk = _theta_uk
-        self._sigma_uk = _sigma_uk
-        self._xi_uk = _xi_uk
-        self._theta_dk = _theta_dk
-        self._sigma_dk = _sigma_dk
-        self._xi_dk = _xi_dk
+        self._rho_1k = _rho_1k
+        self._tau_1k = _tau_1k
+        self._zeta_1k = _zeta_1k
+        self._rho_Np1k = _rho_Np1k
+        self._tau_Np1k = _tau_Np1k
+        self._zeta_Np1k = _zeta_Np1k
         self._rho_uk = _rho_uk
         self._tau_uk = _tau_uk
         self._zeta_uk = _zeta_uk
@@ -833,19 +814,19 @@ class QualityBuilder():
         _rho_dk = self._rho_dk
         _tau_dk = self._tau_dk
         _zeta_dk = self._zeta_dk
-        _theta_uk = self._theta_uk
-        _theta_dk = self._theta_dk
-        _sigma_uk = self._sigma_uk
-        _sigma_dk = self._sigma_dk
-        _xi_uk = self._xi_uk
-        _xi_dk = self._xi_dk
+        _rho_1k = self._rho_1k
+        _tau_1k = self._tau_1k
+        _zeta_1k = self._zeta_1k
+        _rho_Np1k = self._rho_Np1k
+        _tau_Np1k = self._tau_Np1k
+        _zeta_Np1k = self._zeta_Np1k
         _c_min = self._c_min
         _c_max = self._c_max
         # Solve for boundary flow concentrations
         _c_uk_next = _rho_uk * _c_j[_J_uk] + _tau_uk * _c_j[_J_dk] + _zeta_uk
         _c_dk_next = _rho_dk * _c_j[_J_uk] + _tau_dk * _c_j[_J_dk] + _zeta_dk
-        _c_1k = _theta_uk * _c_uk_next + _sigma_uk * _c_j[_J_uk] + _xi_uk
-        _c_Np1k = _theta_dk * _c_dk_next + _sigma_dk * _c_j[_J_dk] + _xi_dk
+        _c_1k = _rho_1k * _c_j[_J_uk] + _tau_1k * _c_j[_J_dk] + _zeta_1k
+        _c_Np1k = _rho_Np1k * _c_j[_J_uk] + _tau_Np1k * _c_j[_J_dk] + _zeta_Np1k
         # Enforce non-negative concentration
         _c_uk_next = np.maximum(_c_uk_next, _c_min)
         _c_dk_next = np.maximum(_c_dk_next, _c_min)
@@ -1098,17 +1079,10 @@ class QualityBuilder():
 @njit
 def safe_divide(num, den):
     if (den == 0):
-        return 0
+        return 0.
     else:
         return num / den
 
-@njit
-def safe_divide_vec(num, den):
-    result = np.zeros_like(num)
-    cond = (den != 0)
-    result[cond] = num[cond] / den[cond]
-    return result
-
 @njit
 def alpha_ik(Q_ik_up, omega_ik_up, dx_ik, D_ik, A_ik):
     # Use upwind scheme
@@ -1246,146 +1220,6 @@ def O_ik(beta_ik, chi_ik, kappa_Ip1k, lambda_Ip1k, mu_Ip1k, X_Ip1k):
     t_2 = lambda_Ip1k + mu_Ip1k * X_Ip1k
     return t_0 + safe_divide(t_1, t_2)
 
-@njit
-def X_uk(mu_1k, X_1k, lambda_1k, kappa_1k):
-    t_0 = - mu_1k * X_1k - lambda_1k
-    t_1 = kappa_1k
-    return safe_divide(t_0, t_1)
-
-@njit
-def Y_uk(eta_1k, mu_1k, Y_1k, kappa_1k):
-    t_0 = eta_1k - mu_1k * Y_1k
-    t_1 = kappa_1k
-    return safe_divide(t_0, t_1)
-
-@njit
-def Z_uk(mu_1k, Z_1k, kappa_1k):
-    t_0 = -mu_1k * Z_1k
-    t_1 = kappa_1k
-    return safe_divide(t_0, t_1)
-
-@njit
-def U_dk(kappa_Np1k, U_Nk, lambda_Np1k, mu_Np1k):
-    t_0 = - kappa_Np1k * U_Nk - lambda_Np1k
-    t_1 = mu_Np1k
-    return safe_divide(t_0, t_1)
-
-@njit
-def V_dk(eta_Np1k, kappa_Np1k, V_Nk, mu_Np1k):
-    t_0 = eta_Np1k - kappa_Np1k * V_Nk
-    t_1 = mu_Np1k
-    return safe_divide(t_0, t_1)
-
-@njit
-def W_dk(kappa_Np1k, W_Nk, mu_Np1k):
-    t_0 = - kappa_Np1k * W_Nk
-    t_1 = mu_Np1k
-    return safe_divide(t_0, t_1)
-
-@njit
-def theta_uk(beta_uk, chi_uk):
-    return safe_divide_vec(-beta_uk, chi_uk)
-
-@njit
-def sigma_uk(alpha_uk, chi_uk):
-    return safe_divide_vec(-alpha_uk, chi_uk)
-
-@njit
-def xi_uk(gamma_uk, chi_uk):
-    return safe_divide_vec(gamma_uk, chi_uk)
-
-@njit
-def theta_dk(beta_dk, alpha_dk):
-    return safe_divide_vec(-beta_dk, alpha_dk)
-
-@njit
-def sigma_dk(chi_dk, alpha_dk):
-    return safe_divide_vec(-chi_dk, alpha_dk)
-
-@njit
-def xi_dk(gamma_dk, alpha_dk):
-    return safe_divide_vec(gamma_dk, alpha_dk)
-
-@njit
-def D_k_star(X_uk, U_dk, W_dk, Z_uk, theta_uk, theta_dk):
-    """
-    Compute superlink boundary condition coefficient 'D_k_star'.
-    """
-    t_0 = (1 - X_uk * theta_uk) * (1 - U_dk * theta_dk)
-    t_1 = W_dk * Z_uk * theta_uk * theta_dk
-    result = t_0 - t_1
-    return result
-
-@njit
-def rho_uk(U_dk, X_uk, Z_uk, W_dk, theta_dk, sigma_uk, D_k_star):
-    """
-    Compute superlink boundary condition coefficient 'alpha' for upstream end
-    of superlink k.
-    """
-    num = (1 - U_dk * theta_dk) * X_uk * sigma_uk + Z_uk * theta_dk * W_dk * sigma_uk
-    den = D_k_star
-    result = safe_divide_vec(num, den)
-    return result
-
-@njit
-def tau_uk(Z_uk, sigma_dk, D_k_star):
-    """
-    Compute superlink boundary condition coefficient 'beta' for upstream end
-    of superlink k.
-    """
-    num = Z_uk * sigma_dk
-    den = D_k_star
-    result = safe_divide_vec(num, den)
-    return result
-
-@njit
-def zeta_uk(Z_uk, V_dk, U_dk, Y_uk, X_uk, W_dk, theta_dk, xi_uk, xi_dk, D_k_star):
-    """
-    Compute superlink boundary condition coefficient 'chi' for upstream end
-    of superlink k.
-    """
-    t_0 = (1 - U_dk * theta_dk) * (Y_uk + X_uk * xi_uk + Z_uk * xi_dk)
-    t_1 = Z_uk * theta_dk * (V_dk + U_dk * xi_dk + W_dk * xi_uk)
-    num = t_0 + t_1
-    den = D_k_star
-    result = safe_divide_vec(num, den)
-    return result
-
-@njit
-def rho_dk(W_dk, sigma_uk, D_k_star):
-    """
-    Compute superlink boundary condition coefficient 'alpha' for downstream end
-    of superlink k.
-    """
-    num = W_dk * sigma_uk
-    den = D_k_star
-    result = safe_divide_vec(num, den)
-    return result
-
-@njit
-def tau_dk(X_uk, U_dk, W_dk, Z_uk, theta_uk, sigma_dk, D_k_star):
-    """
-    Compute superlink boundary condition coefficient 'beta' for downstream end
-    of superlink k.
-    """
-    num = W_dk * theta_uk * Z_uk * sigma_dk + (1 - X_uk * theta_uk) * U_dk * sigma_dk
-    den = D_k_star
-    result = safe_divide_vec(num, den)
-    return result
-
-@njit
-def zeta_dk(W_dk, Y_uk, X_uk, V_dk, Z_uk, U_dk, theta_uk, xi_uk, xi_dk, D_k_star):
-    """
-    Compute superlink boundary condition coefficient 'chi' for downstream end
-    of superlink k.
-    """
-    t_0 = W_dk * theta_uk * (Y_uk + X_uk * xi_uk + Z_uk * xi_dk)
-    t_1 = (1 - X_uk * theta_uk) * (V_dk + U_dk * xi_dk + W_dk * xi_uk)
-    num = t_0 + t_1
-    den = D_k_star
-    result = safe_divide_vec(num, den)
-    return result
-
 @njit
 def numba_node_coeffs(_kappa_Ik, _lambda_Ik, _mu_Ik, _eta_Ik, _Q_ik_up_next, _Q_ik_dn_next,
                       _h_Ik_next, _h_Ik_prev, _c_Ik_prev, _c_ik_prev,
@@ -1494,20 +1328,54 @@ def numba_backward_recurrence(_O_ik, _X_Ik, _Y_Ik, _Z_Ik, _alpha_ik, _beta_ik, _
     return 1
 
 @njit
-def numba_boundary_coefficients(_X_uk, _Y_uk, _Z_uk, _U_dk, _V_dk, _W_dk,
+def numba_boundary_coefficients(_rho_1k, _tau_1k, _zeta_1k, _rho_Np1k, _tau_Np1k, _zeta_Np1k,
+                                _rho_uk, _tau_uk, _zeta_uk, _rho_dk, _tau_dk, _zeta_dk,
+                                _alpha_uk, _beta_uk, _chi_uk, _gamma_uk,
+                                _alpha_dk, _beta_dk, _chi_dk, _gamma_dk,
                                 _X_Ik, _Y_Ik, _Z_Ik, _U_Ik, _V_Ik, _W_Ik,
-                                _kappa_Ik, _lambda_Ik, _mu_Ik, _eta_Ik,
+                                _kappa_Ik, _lambda_Ik, _mu_Ik, _eta_Ik, _c_Ik,
                                 NK, _I_1k, _I_Nk):
     for k in range(NK):
         _I_1 = _I_1k[k]
         _I_N = _I_Nk[k]
         _I_Np1 = _I_N + 1
-        _X_uk[k] = X_uk(_mu_Ik[_I_1], _X_Ik[_I_1], _lambda_Ik[_I_1], _kappa_Ik[_I_1])
-        _Y_uk[k] = Y_uk(_eta_Ik[_I_1], _mu_Ik[_I_1], _Y_Ik[_I_1], _kappa_Ik[_I_1])
-        _Z_uk[k] = Z_uk(_mu_Ik[_I_1], _Z_Ik[_I_1], _kappa_Ik[_I_1])
-        _U_dk[k] = U_dk(_kappa_Ik[_I_Np1], _U_Ik[_I_N], _lambda_Ik[_I_Np1], _mu_Ik[_I_Np1])
-        _V_dk[k] = V_dk(_eta_Ik[_I_Np1], _kappa_Ik[_I_Np1], _V_Ik[_I_N], _mu_Ik[_I_Np1])
-        _W_dk[k] = W_dk(_kappa_Ik[_I_Np1], _W_Ik[_I_N], _mu_Ik[_I_Np1])
+        # Concentration at inlet and outlet by those of neighboring junctions and superjunctions
+        _sigma_u = safe_divide(-_alpha_uk[k], _beta_uk[k])
+        _theta_u = safe_divide(-_chi_uk[k], _beta_uk[k])
+        _xi_u = safe_divide(_gamma_uk[k], _beta_uk[k])
+        _theta_d = safe_divide(-_alpha_dk[k], _beta_dk[k])
+        _sigma_d = safe_divide(-_chi_dk[k], _beta_dk[k])
+        _xi_d = safe_divide(_gamma_dk[k], _beta_dk[k])
+        # Continuity of the first junction:
+        # a_11 c_1 + a_12 c_Np1 = b_1 + r_1 c_Ju
+        a_11 = _lambda_Ik[_I_1] + _mu_Ik[_I_1] * _X_Ik[_I_1] + _kappa_Ik[_I_1] * _theta_u
+        a_12 = _mu_Ik[_I_1] * _Z_Ik[_I_1]
+        b_1 = _eta_Ik[_I_1] - _mu_Ik[_I_1] * _Y_Ik[_I_1] - _kappa_Ik[_I_1] * _xi_u
+        r_1 = - _kappa_Ik[_I_1] * _sigma_u
+        # Continuity of the last junction:
+        # a_21 c_1 + a_22 c_Np1 = b_2 + r_2 c_Jd
+        a_21 = _kappa_Ik[_I_Np1] * _W_Ik[_I_N]
+        a_22 = _lambda_Ik[_I_Np1] + _kappa_Ik[_I_Np1] * _U_Ik[_I_N] + _mu_Ik[_I_Np1] * _theta_d
+        b_2 = _eta_Ik[_I_Np1] - _kappa_Ik[_I_Np1] * _V_Ik[_I_N] - _mu_Ik[_I_Np1] * _xi_d
+        r_2 = - _mu_Ik[_I_Np1] * _sigma_d
+        # A junction that stores nothing and receives nothing keeps its concentration
+        if a_11 <= 0.:
+            a_11, a_12, b_1, r_1 = 1., 0., _c_Ik[_I_1], 0.
+        if a_22 <= 0.:
+            a_21, a_22, b_2, r_2 = 0., 1., _c_Ik[_I_Np1], 0.
+        det = a_11 * a_22 - a_12 * a_21
+        _rho_1k[k] = safe_divide(a_22 * r_1, det)
+        _tau_1k[k] = safe_divide(- a_12 * r_2, det)
+        _zeta_1k[k] = safe_divide(a_22 * b_1 - a_12 * b_2, det)
+        _rho_Np1k[k] = safe_divide(- a_21 * r_1, det)
+        _tau_Np1k[k] = safe_divide(a_11 * r_2, det)
+        _zeta_Np1k[k] = safe_divide(a_11 * b_2 - a_21 * b_1, det)
+        _rho_uk[k] = _sigma_u + _theta_u * _rho_1k[k]
+        _tau_uk[k] = _theta_u * _tau_1k[k]
+        _zeta_uk[k] = _xi_u + _theta_u * _zeta_1k[k]
+        _rho_dk[k] = _theta_d * _rho_Np1k[k]
+        _tau_dk[k] = _sigma_d + _theta_d * _tau_Np1k[k]
+        _zeta_dk[k] = _xi_d + _theta_d * _zeta_Np1k[k]
     return 1
 
 @njit(fastmath=False)
-- 
2.43.0


From 9f3e7fe95264a0c83667fa8d29632e2249b3c53e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:50 +0000
Subject: [PATCH 45/63] fix: internal concentrations jumped where flow does not
 leave a junction downstream

---
 pipedream_solver/nquality.py | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/pipedream_solver/nquality.py b/pipedream_solver/nquality.py
index b46726c..1e4b06b 100644
--- a/pipedream_solver/nquality.py
+++ b/pipedream_solver/nquality.py
@@ -865,7 +865,8 @@ class QualityBuilder():
         _c_max = self._c_max
         # Solve internals
         numba_solve_internals(_c_Ik, _c_ik, _c_1k, _c_Np1k, _U_Ik, _V_Ik, _W_Ik,
-                              _X_Ik, _Y_Ik, _Z_Ik, _i_1k, _I_1k, nk, NK,
+                              _X_Ik, _Y_Ik, _Z_Ik, self._kappa_Ik, self._lambda_Ik,
+                              self._mu_Ik, self._eta_Ik, _i_1k, _I_1k, nk, NK,
                               _c_min, _c_max, first_link_backwards=True)
         # TODO: Temporary
         assert np.isfinite(_c_Ik).all()
@@ -902,7 +903,8 @@ class QualityBuilder():
         _c_max = self._c_max
         # Solve internals
         numba_solve_internals(_c_Ik, _c_ik, _c_1k, _c_Np1k, _U_Ik, _V_Ik, _W_Ik,
-                              _X_Ik, _Y_Ik, _Z_Ik, _i_1k, _I_1k, nk, NK,
+                              _X_Ik, _Y_Ik, _Z_Ik, self._kappa_Ik, self._lambda_Ik,
+                              self._mu_Ik, self._eta_Ik, _i_1k, _I_1k, nk, NK,
                               _c_min, _c_max, first_link_backwards=False)
         # TODO: Temporary
         assert np.isfinite(_c_Ik).all()
@@ -1460,8 +1462,8 @@ def numba_create_banded(l, bandwidth, M):
 
 @njit
 def numba_solve_internals(_c_Ik, _c_ik, _c_1k, _c_Np1k, _U_Ik, _V_Ik, _W_Ik,
-                          _X_Ik, _Y_Ik, _Z_Ik, _i_1k, _I_1k, nk, NK,
-                          min_c, max_c, first_link_backwards=True):
+                          _X_Ik, _Y_Ik, _Z_Ik, _kappa_Ik, _lambda_Ik, _mu_Ik, _eta_Ik,
+                          _i_1k, _I_1k, nk, NK, min_c, max_c, first_link_backwards=True):
     for k in range(NK):
         n = nk[k]
         i_1 = _i_1k[k]
@@ -1482,7 +1484,13 @@ def numba_solve_internals(_c_Ik, _c_ik, _c_1k, _c_Np1k, _U_Ik, _V_Ik, _W_Ik,
             Ip1 = I + 1
             i = i_n - j
             _c_ik[i] = c_i_f(_c_Ik[Ip1], _c_1, _U_Ik[I], _V_Ik[I], _W_Ik[I])
-            _c_Ik[I] = c_I_b(_c_ik[i], _c_Np1, _X_Ik[I], _Y_Ik[I], _Z_Ik[I])
+            # Continuity of the junction, where link i - 1 is eliminated
+            num = (_eta_Ik[I] - _kappa_Ik[I] * (_V_Ik[I - 1] + _W_Ik[I - 1] * _c_1)
+                   - _mu_Ik[I] * _c_ik[i])
+            den = _lambda_Ik[I] + _kappa_Ik[I] * _U_Ik[I - 1]
+            # A junction that stores nothing and receives nothing keeps its concentration
+            if den > 0.:
+                _c_Ik[I] = num / den
             if _c_Ik[I] < min_c:
                 _c_Ik[I] = min_c
             if _c_Ik[I] > max_c:
@@ -1514,12 +1522,6 @@ def c_i_b(c_Ik, c_Np1k, X_Ik, Y_Ik, Z_Ik):
     t_2 = Z_Ik * c_Np1k
     return t_0 + t_1 + t_2
 
-@njit
-def c_I_b(c_ik, c_Np1k, X_Ik, Y_Ik, Z_Ik):
-    num = c_ik - Y_Ik - Z_Ik * c_Np1k
-    den = X_Ik
-    result = safe_divide(num, den)
-    return result
 
 @njit
 def link_area_WQ(geom_code, h_0, h_1, g1, g2):
-- 
2.43.0


From 3901cb67f84418892089fb9ad6a16dabfb52a542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:06 +0000
Subject: [PATCH 46/63] fix: a new water quality model repeated the last
 hydraulic step within a microsecond

---
 pipedream_solver/nquality.py | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/pipedream_solver/nquality.py b/pipedream_solver/nquality.py
index 1e4b06b..ff0988a 100644
--- a/pipedream_solver/nquality.py
+++ b/pipedream_solver/nquality.py
@@ -223,8 +223,10 @@ class QualityBuilder():
         self.Observation_point = superlink_params['KF_obs_point'].values[0].astype(np.int32)
         self.N_process_sigma = superlink_params['KF_process_sigma'].values[0].astype(np.float64)
         self.N_measure_sigma = superlink_params['KF_measure_sigma'].values[0].astype(np.float64)
+        self._initial = True
         self.step(dt=1e-6)
-        
+        self._initial = False
+
     # TODO: It might be safer to have these as @properties
     def import_hydraulic_states(self, _dt):
         self._H_j_next = self.hydraulics.H_j
@@ -232,26 +234,33 @@ class QualityBuilder():
         self._Q_ik_next = self.hydraulics.Q_ik
         self._Q_uk_next = self.hydraulics.Q_uk
         self._Q_dk_next = self.hydraulics.Q_dk
-        self._H_j_prev = self.hydraulics.states['H_j']
-        self._h_Ik_prev = self.hydraulics.states['h_Ik']
-        self._Q_ik_prev = self.hydraulics.states['Q_ik']
-        self._Q_uk_prev = self.hydraulics.states['Q_uk']
-        self._Q_dk_prev = self.hydraulics.states['Q_dk']
+        _states = self.hydraulics.states
+        if self._initial:
+            # No time has passed since the current hydraulic states
+            _states = {state : getattr(self.hydraulics, state) for state in _states}
+        self._H_j_prev = _states['H_j']
+        self._h_Ik_prev = _states['h_Ik']
+        self._Q_ik_prev = _states['Q_ik']
+        self._Q_uk_prev = _states['Q_uk']
+        self._Q_dk_prev = _states['Q_dk']
         if self.n_o:
             self._Q_o_next = self.hydraulics.Q_o
-            self._Q_o_prev = self.hydraulics.states['Q_o']
+            self._Q_o_prev = _states['Q_o']
         if self.n_w:
             self._Q_w_next = self.hydraulics.Q_w
-            self._Q_w_prev = self.hydraulics.states['Q_w']
+            self._Q_w_prev = _states['Q_w']
         if self.n_p:
             self._Q_p_next = self.hydraulics.Q_p
-            self._Q_p_prev = self.hydraulics.states['Q_p']
+            self._Q_p_prev = _states['Q_p']
         self._dx_ik_next = self.hydraulics._dx_ik
         self._A_sj = self.hydraulics._A_sj
         self._z_inv_j = self.hydraulics.z_inv_j  #★★★
         # The volume stored at the start of the hydraulic step changes with the surface area
         # the step was solved with
         self._V_j_prev = self.hydraulics._V_sj
+        if self._initial:
+            # Volumes are only computed by a hydraulic step
+            self._V_j_prev = self._A_sj*(self._H_j_next - self._z_inv_j)
         self._V_j_next = np.maximum(self._V_j_prev + self._A_sj*(self._H_j_next - self._H_j_prev), 0.)
         # A superjunction that stores nothing and receives nothing keeps its concentration
         self._V_j_prev = np.maximum(self._V_j_prev, 1e-9)
-- 
2.43.0


From 9c5169c828360e5b5a7a51c71fbb3ef7e9994554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:36 +0000
Subject: [PATCH 47/63] fix: assigning a state kept the caller's array, which
 later steps overwrote

---
 pipedream_solver/nquality.py  | 10 ++++-----
 pipedream_solver/superlink.py | 38 +++++++++++++++++------------------
 2 files changed, 24 insertions(+), 24 deletions(-)

diff --git a/pipedream_solver/nquality.py b/pipedream_solver/nquality.py
index ff0988a..7be0c92 100644
--- a/pipedream_solver/nquality.py
+++ b/pipedream_solver/nquality.py
@@ -303,7 +303,7 @@ class QualityBuilder():
 
     @c_j.setter
     def c_j(self, value):
-        self._c_j = np.asarray(value)
+        self._c_j = np.array(value)
 
     @property
     def c_Ik(self):
@@ -311,7 +311,7 @@ class QualityBuilder():
 
     @c_Ik.setter
     def c_Ik(self, value):
-        self._c_Ik = np.asarray(value)
+        self._c_Ik = np.array(value)
 
     @property
     def c_ik(self):
@@ -319,7 +319,7 @@ class QualityBuilder():
 
     @c_ik.setter
     def c_ik(self, value):
-        self._c_ik = np.asarray(value)
+        self._c_ik = np.array(value)
 
     @property
     def c_uk(self):
@@ -327,7 +327,7 @@ class QualityBuilder():
 
     @c_uk.setter
     def c_uk(self, value):
-        self._c_uk = np.asarray(value)
+        self._c_uk = np.array(value)
 
     @property
     def c_dk(self):
@@ -335,7 +335,7 @@ class QualityBuilder():
 
     @c_dk.setter
     def c_dk(self, value):
-        self._c_dk = np.asarray(value)
+        self._c_dk = np.array(value)
 
     @property
     def _dt(self):
diff --git a/pipedream_solver/superlink.py b/pipedream_solver/superlink.py
index 7c70ecc..01c8267 100644
--- a/pipedream_solver/superlink.py
+++ b/pipedream_solver/superlink.py
@@ -788,7 +788,7 @@ class SuperLink():
 
     @h_Ik.setter
     def h_Ik(self, value):
-        self._h_Ik = np.asarray(value)
+        self._h_Ik = np.array(value)
 
     @property
     def Q_ik(self):
@@ -796,7 +796,7 @@ class SuperLink():
 
     @Q_ik.setter
     def Q_ik(self, value):
-        self._Q_ik = np.asarray(value)
+        self._Q_ik = np.array(value)
 
     @property
     def Q_uk(self):
@@ -804,7 +804,7 @@ class SuperLink():
 
     @Q_uk.setter
     def Q_uk(self, value):
-        self._Q_uk = np.asarray(value)
+        self._Q_uk = np.array(value)
 
     @property
     def Q_dk(self):
@@ -812,7 +812,7 @@ class SuperLink():
 
     @Q_dk.setter
     def Q_dk(self, value):
-        self._Q_dk = np.asarray(value)
+        self._Q_dk = np.array(value)
 
     @property
     def Q_o(self):
@@ -820,7 +820,7 @@ class SuperLink():
 
     @Q_o.setter
     def Q_o(self, value):
-        self._Qo = np.asarray(value)
+        self._Qo = np.array(value)
 
     @property
     def Q_w(self):
@@ -828,7 +828,7 @@ class SuperLink():
 
     @Q_w.setter
     def Q_w(self, value):
-        self._Qw = np.asarray(value)
+        self._Qw = np.array(value)
 
     @property
     def Q_p(self):
@@ -836,7 +836,7 @@ class SuperLink():
 
     @Q_p.setter
     def Q_p(self, value):
-        self._Qp = np.asarray(value)
+        self._Qp = np.array(value)
 
     @property
     def A_ik(self):
@@ -844,7 +844,7 @@ class SuperLink():
 
     @A_ik.setter
     def A_ik(self, value):
-        self._A_ik = np.asarray(value)
+        self._A_ik = np.array(value)
 
     @property
     def A_uk(self):
@@ -852,7 +852,7 @@ class SuperLink():
 
     @A_uk.setter
     def A_uk(self, value):
-        self._A_uk = np.asarray(value)
+        self._A_uk = np.array(value)
 
     @property
     def A_dk(self):
@@ -860,7 +860,7 @@ class SuperLink():
 
     @A_dk.setter
     def A_dk(self, value):
-        self._A_dk = np.asarray(value)
+        self._A_dk = np.array(value)
 
     @property
     def Pe_ik(self):
@@ -868,7 +868,7 @@ class SuperLink():
 
     @Pe_ik.setter
     def Pe_ik(self, value):
-        self._Pe_ik = np.asarray(value)
+        self._Pe_ik = np.array(value)
 
     @property
     def R_ik(self):
@@ -876,7 +876,7 @@ class SuperLink():
 
     @R_ik.setter
     def R_ik(self, value):
-        self._R_ik = np.asarray(value)
+        self._R_ik = np.array(value)
 
     @property
     def B_ik(self):
@@ -884,7 +884,7 @@ class SuperLink():
 
     @B_ik.setter
     def B_ik(self, value):
-        self._B_ik = np.asarray(value)
+        self._B_ik = np.array(value)
 
     @property
     def A_sj(self):
@@ -892,7 +892,7 @@ class SuperLink():
 
     @A_sj.setter
     def A_sj(self, value):
-        self._A_sj = np.asarray(value)
+        self._A_sj = np.array(value)
 
     @property
     def V_j(self):
@@ -900,7 +900,7 @@ class SuperLink():
 
     @V_j.setter
     def V_j(self, value):
-        self._V_sj = np.asarray(value)
+        self._V_sj = np.array(value)
 
     @property
     def z_inv_j(self):
@@ -908,7 +908,7 @@ class SuperLink():
 
     @z_inv_j.setter
     def z_inv_j(self, value):
-        self._z_inv_j = np.asarray(value)
+        self._z_inv_j = np.array(value)
 
     @property
     def z_inv_uk(self):
@@ -916,7 +916,7 @@ class SuperLink():
 
     @z_inv_uk.setter
     def z_inv_uk(self, value):
-        self._z_inv_uk = np.asarray(value)
+        self._z_inv_uk = np.array(value)
 
     @property
     def z_inv_dk(self):
@@ -924,7 +924,7 @@ class SuperLink():
 
     @z_inv_dk.setter
     def z_inv_dk(self, value):
-        self._z_inv_dk = np.asarray(value)
+        self._z_inv_dk = np.array(value)
 
     @property
     def x_Ik(self):
@@ -932,7 +932,7 @@ class SuperLink():
 
     @x_Ik.setter
     def x_Ik(self, value):
-        self._x_Ik = np.asarray(value)
+        self._x_Ik = np.array(value)
 
     @property
     def adjacency_matrix(self, J_u=None, J_d=None, symmetric=True):
-- 
2.43.0


From d0a2c2e6741dd21b0b8ee2a2db3cda86d6826add Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:10 +0000
Subject: [PATCH 48/63] fix: sparse models could not be stepped with compiled
 functions

---
 pipedream_solver/nsuperlink.py | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/pipedream_solver/nsuperlink.py b/pipedream_solver/nsuperlink.py
index debc3bf..56d1b01 100644
--- a/pipedream_solver/nsuperlink.py
+++ b/pipedream_solver/nsuperlink.py
@@ -1226,12 +1226,20 @@ class nSuperLink(SuperLink):
         # Compute upstream/downstream link volume parameters
         _xi_uk = xi_uk(_dx_uk, _B_uk, _theta_uk, _dt)
         _xi_dk = xi_dk(_dx_dk, _B_dk, _theta_dk, _dt)
+        clear_off_diagonals = numba_clear_off_diagonals
+        create_A_matrix = numba_create_A_matrix
+        create_OWP_matrix = numba_create_OWP_matrix
+        if _sparse:
+            # Compiled functions only take dense matrices
+            clear_off_diagonals = getattr(clear_off_diagonals, 'py_func', clear_off_diagonals)
+            create_A_matrix = getattr(create_A_matrix, 'py_func', create_A_matrix)
+            create_OWP_matrix = getattr(create_OWP_matrix, 'py_func', create_OWP_matrix)
         # Clear old data
         _F_jj.fill(0)
         D.fill(0)
-        numba_clear_off_diagonals(A, bc, _J_uk, _J_dk, NK)
+        clear_off_diagonals(A, bc, _J_uk, _J_dk, NK)
         # Create A matrix
-        numba_create_A_matrix(A, _F_jj, bc, _J_uk, _J_dk, _alpha_uk,
+        create_A_matrix(A, _F_jj, bc, _J_uk, _J_dk, _alpha_uk,
                               _alpha_dk, _beta_uk, _beta_dk, _xi_uk, _xi_dk,
                               _A_sj, _dt, M, NK)
         # Create D vector
@@ -1248,9 +1256,9 @@ class nSuperLink(SuperLink):
             _chi_uo = _chi_o
             _chi_do = _chi_o
             _O_diag.fill(0)
-            numba_clear_off_diagonals(O, bc, _J_uo, _J_do, n_o)
+            clear_off_diagonals(O, bc, _J_uo, _J_do, n_o)
             # Set diagonal
-            numba_create_OWP_matrix(O, _O_diag, bc, _J_uo, _J_do, _alpha_uo,
+            create_OWP_matrix(O, _O_diag, bc, _J_uo, _J_do, _alpha_uo,
                                     _alpha_do, _beta_uo, _beta_do, M, n_o)
             # Set right-hand side
             numba_add_at(D, _J_uo, -_chi_uo)
@@ -1263,9 +1271,9 @@ class nSuperLink(SuperLink):
             _chi_uw = _chi_w
             _chi_dw = _chi_w
             _W_diag.fill(0)
-            numba_clear_off_diagonals(W, bc, _J_uw, _J_dw, n_w)
+            clear_off_diagonals(W, bc, _J_uw, _J_dw, n_w)
             # Set diagonal
-            numba_create_OWP_matrix(W, _W_diag, bc, _J_uw, _J_dw, _alpha_uw,
+            create_OWP_matrix(W, _W_diag, bc, _J_uw, _J_dw, _alpha_uw,
                                     _alpha_dw, _beta_uw, _beta_dw, M, n_w)
             # Set right-hand side
             numba_add_at(D, _J_uw, -_chi_uw)
@@ -1278,9 +1286,9 @@ class nSuperLink(SuperLink):
             _chi_up = _chi_p
             _chi_dp = _chi_p
             _P_diag.fill(0)
-            numba_clear_off_diagonals(P, bc, _J_up, _J_dp, n_p)
+            clear_off_diagonals(P, bc, _J_up, _J_dp, n_p)
             # Set diagonal
-            numba_create_OWP_matrix(P, _P_diag, bc, _J_up, _J_dp, _alpha_up,
+            create_OWP_matrix(P, _P_diag, bc, _J_up, _J_dp, _alpha_up,
                                     _alpha_dp, _beta_up, _beta_dp, M, n_p)
             # Set right-hand side
             numba_add_at(D, _J_up, -_chi_up)
@@ -1375,6 +1383,8 @@ class nSuperLink(SuperLink):
         else:
             l = A
             r = b
+        if _sparse:
+            l = l.toarray()
         AB = numba_create_banded(l, bandwidth, M)
         H_j_next = scipy.linalg.solve_banded((bandwidth, bandwidth), AB, r,
                                              check_finite=False, overwrite_ab=True)
-- 
2.43.0


From 3295db6d00f459a6dbab2b31d82567456c59dc8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:20 +0000
Subject: [PATCH 49/63] fix: series of whole numbers could not be interpolated
 by compiled functions

---
 pipedream_solver/simulation.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pipedream_solver/simulation.py b/pipedream_solver/simulation.py
index fc3f26c..acd3c9b 100644
--- a/pipedream_solver/simulation.py
+++ b/pipedream_solver/simulation.py
@@ -586,7 +586,7 @@ class Simulation():
             Q_in = self.Q_in
             # Get superjunction runoff input
             if Q_in is not None:
-                Q_in_index, Q_in_values = Q_in.index.values, Q_in.values
+                Q_in_index, Q_in_values = Q_in.index.values, Q_in.values.astype(np.float64, copy=False)
                 Q_in_next = interpolate_sample(t_next, Q_in_index, Q_in_values,
                                                interpolation_method)
             else:
@@ -597,7 +597,7 @@ class Simulation():
             H_bc = self.H_bc
             # Get head boundary conditions
             if H_bc is not None:
-                H_bc_index, H_bc_values = H_bc.index.values, H_bc.values
+                H_bc_index, H_bc_values = H_bc.index.values, H_bc.values.astype(np.float64, copy=False)
                 H_bc_next = interpolate_sample(t_next, H_bc_index, H_bc_values,
                                                interpolation_method)
             else:
@@ -608,7 +608,7 @@ class Simulation():
             Q_Ik = self.Q_Ik
             # Get junction runoff input
             if Q_Ik is not None:
-                Q_Ik_index, Q_Ik_values = Q_Ik.index.values, Q_Ik.values
+                Q_Ik_index, Q_Ik_values = Q_Ik.index.values, Q_Ik.values.astype(np.float64, copy=False)
                 Q_Ik_next = interpolate_sample(t_next, Q_Ik_index, Q_Ik_values,
                                                interpolation_method)
             else:
-- 
2.43.0


From fd2acaa532ce92f126678e52f4e110bdbc4f5b9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:33 +0000
Subject: [PATCH 50/63] fix: Darcy-Weisbach friction divided by zero in still
 water with compiled functions

---
 pipedream_solver/nsuperlink.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pipedream_solver/nsuperlink.py b/pipedream_solver/nsuperlink.py
index 56d1b01..164a24d 100644
--- a/pipedream_solver/nsuperlink.py
+++ b/pipedream_solver/nsuperlink.py
@@ -2067,7 +2067,10 @@ def friction_slope(Q_ik_t, dx_ik, A_ik, R_ik, n_ik, Sf_method_ik, g=9.81):
             # kinematic viscosity(meter^2/sec), we can consider this is constant.
             nu = 0.0000010034
             Re = (np.abs(Q_ik_t) / A_ik) * 4 * R_ik / nu
-            f = 0.25 / (np.log10(n_ik / (3.7 * 4 * R_ik) + 5.74 / (Re**0.9)))**2
+            if Re > 0:
+                f = 0.25 / (np.log10(n_ik / (3.7 * 4 * R_ik) + 5.74 / (Re**0.9)))**2
+            else:
+                f = 0.
             t_1 = (0.01274 * g * f * np.abs(Q_ik_t) * dx_ik
                    / (A_ik * R_ik))
         else:
-- 
2.43.0


From 47771c5f138abaecd2a7d801110f471a4e606740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:25 +0000
Subject: [PATCH 51/63] fix: water quality Kalman filter started from zero
 concentrations

---
 pipedream_solver/nquality.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pipedream_solver/nquality.py b/pipedream_solver/nquality.py
index 7be0c92..adbfb2e 100644
--- a/pipedream_solver/nquality.py
+++ b/pipedream_solver/nquality.py
@@ -216,7 +216,7 @@ class QualityBuilder():
         self.A_k = np.zeros((self.M, self.M))
         self.B_k = np.zeros((self.M, self.M))
         self.H_k  = np.zeros((1,self.M))
-        self.x_hat = np.zeros(self.M)
+        self.x_hat = self._c_j.copy()
         self.P_k = np.zeros((self.M, self.M))
         self.K_k = np.zeros((self.M, self.M))
         self._c_j_prev_kf = self._c_j
-- 
2.43.0


From 8676e88f4a614183fbebdcecd601643e2f7acffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:18 +0000
Subject: [PATCH 52/63] fix: water quality Kalman filter let the uncertainty of
 prescribed concentrations grow

---
 pipedream_solver/nquality.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pipedream_solver/nquality.py b/pipedream_solver/nquality.py
index adbfb2e..f5a6b78 100644
--- a/pipedream_solver/nquality.py
+++ b/pipedream_solver/nquality.py
@@ -1025,7 +1025,8 @@ class QualityBuilder():
         Q_cov = (N_process_sigma**2)*np.eye(_M, _M)
         # Define the matrices : A, B, C
         I_k = np.arange(0, _M, 1)
-        A1_k[I_k,I_k] = _V_j_prev/_dt
+        # A prescribed concentration does not depend on the previous one
+        A1_k[I_k,I_k] = np.where(self.bc, 0., _V_j_prev/_dt)
         Bu_k = self.b - A1_k @ _c_j_prev_kf    # All external inputs : Bu(t) = b - A1x[t]  where x[t]=c_j[t]
         A_inv = np.linalg.inv(self.A_L_kf)
         A_k = A_inv @ A1_k
@@ -1066,7 +1067,8 @@ class QualityBuilder():
             Q_cov = (N_process_sigma**2)*np.ones((_M, _M))
         # Define the matrices : A, B, C
         I_k = np.arange(0, _M, 1)
-        A1_k[I_k,I_k] = _V_j_prev/_dt
+        # A prescribed concentration does not depend on the previous one
+        A1_k[I_k,I_k] = np.where(self.bc, 0., _V_j_prev/_dt)
         self.x_hat, self.P_k, self.A_k, self.B_k = KF_WQ2(A1_k, I_k, _dt, self.b, _c_j_prev_kf, x_hat, P_k, H_k, K_k, self.A_L_kf, Q_cov, R_cov, measure)
         self._c_j = self.x_hat
         self._c_j_prev_kf = self.x_hat
@@ -1079,7 +1081,8 @@ class QualityBuilder():
         _c_j_prev_kf = self._c_j_prev_kf
         _V_j_prev = self._V_j_prev
         I_k = np.arange(0, _M, 1)
-        A1_k[I_k,I_k] = _V_j_prev/_dt
+        # A prescribed concentration does not depend on the previous one
+        A1_k[I_k,I_k] = np.where(self.bc, 0., _V_j_prev/_dt)
         Bu_k = self.b - A1_k @ _c_j_prev_kf    # All external inputs : Bu(t) = b - A1x[t]  where x[t]=c_j[t]
         A_inv = np.linalg.inv(self.A_L_kf)
         A_k = A_inv @ A1_k
-- 
2.43.0


From 263b7b2f43b0294d6555c01317bf0392cab5d363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:15 +0000
Subject: [PATCH 53/63] fix: friction in the end cells of superlinks (bc_method
 b) had the wrong sign and scale

The terms of the end momentum equation are divided by g*A to express
them as heads; friction was not, and at the inlet it raised the head in
the conduit above the head in the superjunction.
---
 pipedream_solver/nsuperlink.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pipedream_solver/nsuperlink.py b/pipedream_solver/nsuperlink.py
index 164a24d..e1124c9 100644
--- a/pipedream_solver/nsuperlink.py
+++ b/pipedream_solver/nsuperlink.py
@@ -2349,8 +2349,8 @@ def kappa_uk(Q_uk, dx_uk, A_uk, C_uk, R_uk, n_uk, Sf_method_uk, dt, g=9.81):
     t_0 = - dx_uk / g / A_uk / dt
     t_1 = np.zeros(k, dtype=np.float64)
     for n in range(k):
-        t_1[n] = friction_slope(Q_uk[n], dx_uk[n], A_uk[n], R_uk[n],
-                                n_uk[n], Sf_method_uk[n], g)
+        t_1[n] = - friction_slope(Q_uk[n], dx_uk[n], A_uk[n], R_uk[n],
+                                  n_uk[n], Sf_method_uk[n], g) / g / A_uk[n]
     t_2 = - C_uk * np.abs(Q_uk) / 2 / g / A_uk**2
     return t_0 + t_1 + t_2
 
@@ -2365,7 +2365,7 @@ def kappa_dk(Q_dk, dx_dk, A_dk, C_dk, R_dk, n_dk, Sf_method_dk, dt, g=9.81):
     t_1 = np.zeros(k, dtype=np.float64)
     for n in range(k):
         t_1[n] = friction_slope(Q_dk[n], dx_dk[n], A_dk[n], R_dk[n],
-                                n_dk[n], Sf_method_dk[n], g)
+                                n_dk[n], Sf_method_dk[n], g) / g / A_dk[n]
     t_2 = C_dk * np.abs(Q_dk) / 2 / g / A_dk**2
     return t_0 + t_1 + t_2
 
-- 
2.43.0


From 3f52147eeff006e9f8f88b40d8391554d70e483d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:11 +0000
Subject: [PATCH 54/63] fix: C_uk, C_dk, dx_uk or dx_dk given alone stayed with
 the wrong end of superlinks that are turned

Superlinks tabulated from their lower end are turned, and the attributes of
their ends exchanged; this was skipped when only one of the two columns was
given.
---
 pipedream_solver/superlink.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pipedream_solver/superlink.py b/pipedream_solver/superlink.py
index 01c8267..2835e51 100644
--- a/pipedream_solver/superlink.py
+++ b/pipedream_solver/superlink.py
@@ -298,6 +298,11 @@ class SuperLink():
         # Ensure nominal direction of superlinks is correct
         # (tabulated links and junctions already follow the direction of their superlink)
         if (superlinks is not None) and ((links is None) or (junctions is None)):
+            # An attribute given for one end only takes its default value at the other end
+            for cols, default in ((['C_uk', 'C_dk'], 1 / (0.67**2)), (['dx_uk', 'dx_dk'], 0.)):
+                missing = [col for col in cols if not col in superlinks.columns]
+                if len(missing) == 1:
+                    superlinks[missing[0]] = default
             for k in superlinks.index.values:
                 sj_0 = superlinks.loc[k, 'sj_0']
                 sj_1 = superlinks.loc[k, 'sj_1']
-- 
2.43.0


From 8315bf046fccd330d7bca8c1e19b2880b18b03f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:11 +0000
Subject: [PATCH 55/63] fix: water quality model could not be built from the
 documented tables

The Kalman filter settings are not among the required fields.
---
 pipedream_solver/nquality.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/pipedream_solver/nquality.py b/pipedream_solver/nquality.py
index f5a6b78..00d29af 100644
--- a/pipedream_solver/nquality.py
+++ b/pipedream_solver/nquality.py
@@ -220,9 +220,18 @@ class QualityBuilder():
         self.P_k = np.zeros((self.M, self.M))
         self.K_k = np.zeros((self.M, self.M))
         self._c_j_prev_kf = self._c_j
-        self.Observation_point = superlink_params['KF_obs_point'].values[0].astype(np.int32)
-        self.N_process_sigma = superlink_params['KF_process_sigma'].values[0].astype(np.float64)
-        self.N_measure_sigma = superlink_params['KF_measure_sigma'].values[0].astype(np.float64)
+        if 'KF_obs_point' in superlink_params.columns:
+            self.Observation_point = superlink_params['KF_obs_point'].values[0].astype(np.int32)
+        else:
+            self.Observation_point = 0
+        if 'KF_process_sigma' in superlink_params.columns:
+            self.N_process_sigma = superlink_params['KF_process_sigma'].values[0].astype(np.float64)
+        else:
+            self.N_process_sigma = 0.
+        if 'KF_measure_sigma' in superlink_params.columns:
+            self.N_measure_sigma = superlink_params['KF_measure_sigma'].values[0].astype(np.float64)
+        else:
+            self.N_measure_sigma = 0.
         self._initial = True
         self.step(dt=1e-6)
         self._initial = False
-- 
2.43.0


From a320fd910b8033f64e16d701967aec7315e1b238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:07 +0000
Subject: [PATCH 56/63] fix: unnamed superjunctions of permuted models were
 recorded under the names of others

With auto_permute the position in the model was used in place of the index
in the table.
---
 pipedream_solver/superlink.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pipedream_solver/superlink.py b/pipedream_solver/superlink.py
index 2835e51..40b1a97 100644
--- a/pipedream_solver/superlink.py
+++ b/pipedream_solver/superlink.py
@@ -986,6 +986,9 @@ class SuperLink():
         # Find permutation array
         permutations = self._to_banded()
         perm_inv = np.argsort(permutations)
+        # Unnamed superjunctions are called by their index in the table as given
+        if not 'name' in superjunctions.columns:
+            superjunctions['name'] = superjunctions.index.values
         # Permute superjunctions
         # TODO: Should id be permuted, or should it stay constant?
         superjunctions['id'] = perm_inv[superjunctions['id'].values]
-- 
2.43.0


From 2cf08212225398bc2ef14678f25873a28edf80f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:47 +0000
Subject: [PATCH 57/63] fix: place junctions between their superjunctions on
 plots when end lengths are given

---
 pipedream_solver/visualization.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pipedream_solver/visualization.py b/pipedream_solver/visualization.py
index cfe2de6..48bcd66 100644
--- a/pipedream_solver/visualization.py
+++ b/pipedream_solver/visualization.py
@@ -81,7 +81,7 @@ def plot_profile(self, js, ax=None, width=1, superlink_kwargs={}, superjunction_
             k = jk[key]
             _plot_superlink_profile(self, k, ax=ax, x_offset=x_offset, im=im,
                                     superlink_kwargs=superlink_kwargs)
-            x_offset += self._dx_k[k]
+            x_offset += self._dx_uk[k] + self._dx_k[k] + self._dx_dk[k]
             zmin = self._z_inv_Ik[self._kI == k].min()
             hmax = (self._z_inv_Ik[self._kI == k]
                     + self._h_Ik[self._kI == k]).max()
@@ -107,7 +107,8 @@ def plot_network_2d(self, ax=None, superjunction_kwargs={}, junction_kwargs={},
     _map_x_j = self._map_x_j
     _map_y_j = self._map_y_j
     _x_Ik = self._x_Ik
-    _dx_k = self._dx_k
+    # Length of each superlink between its superjunctions
+    _dx_k = self._dx_uk + self._dx_k + self._dx_dk
     _kI = self._kI
     _J_uk = self._J_uk
     _J_dk = self._J_dk
@@ -160,7 +161,8 @@ def plot_network_3d(self, ax=None, superjunction_signal=None, junction_signal=No
     _map_x_j = self._map_x_j
     _map_y_j = self._map_y_j
     _x_Ik = self._x_Ik
-    _dx_k = self._dx_k
+    # Length of each superlink between its superjunctions
+    _dx_k = self._dx_uk + self._dx_k + self._dx_dk
     _kI = self._kI
     _J_uk = self._J_uk
     _J_dk = self._J_dk
-- 
2.43.0


From 042219cfac2140af164f729b81e01ebc849f2042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:07 +0000
Subject: [PATCH 58/63] fix: Kalman filter failed for models that use sparse
 matrices

---
 pipedream_solver/superlink.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pipedream_solver/superlink.py b/pipedream_solver/superlink.py
index 40b1a97..cea8a85 100644
--- a/pipedream_solver/superlink.py
+++ b/pipedream_solver/superlink.py
@@ -3852,6 +3852,8 @@ class SuperLink():
             L = A + O + W + P
         else:
             L = A
+        if self._sparse:
+            L = L.toarray()
         # Fill in A_1 matrix
         A_1[:-1, :-1] = L
         A_1[-1, -1] = 1
@@ -3887,6 +3889,8 @@ class SuperLink():
             A_1 = A + O + W + P
         else:
             A_1 = A
+        if self._sparse:
+            A_1 = A_1.toarray()
         # Get A_2
         A_2 = np.diag(np.where(~bc, _A_sj / _dt, 0))
         return A_1, A_2, b
@@ -3915,6 +3919,8 @@ class SuperLink():
             A_1 = A + O + W + P
         else:
             A_1 = A
+        if self._sparse:
+            A_1 = A_1.toarray()
         # Get A_2
         A_2 = np.diag(np.where(~bc, _A_sj / _dt, 0))
         return A_1, A_2, D, H_j_next, H_j_prev, Q_in
-- 
2.43.0


From 25f8763e243a20cfc1dc2d1ccd8cc9df2c84d165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:44 +0000
Subject: [PATCH 59/63] fix: whole-number junction inflows and control signals
 were rejected or truncated

---
 pipedream_solver/nsuperlink.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pipedream_solver/nsuperlink.py b/pipedream_solver/nsuperlink.py
index e1124c9..c89cf1f 100644
--- a/pipedream_solver/nsuperlink.py
+++ b/pipedream_solver/nsuperlink.py
@@ -664,6 +664,7 @@ class nSuperLink(SuperLink):
         h_e = np.maximum(H_uo - _z_inv_uo - _z_o, H_do - _z_inv_uo - _z_o)
         if u is None:
             u = np.zeros(n_o, dtype=np.float64)
+        u = np.asarray(u, dtype=np.float64)
         # Compute orifice geometries
         numba_orifice_geometry(_Ao, h_e, u, _g1_o, _g2_o, _g3_o, _geom_codes_o, n_o)
         # Export to instance variables
@@ -791,6 +792,7 @@ class nSuperLink(SuperLink):
         # If no nodal input specified, use zero input
         if _Q_0Ik is None:
             _Q_0Ik = np.zeros(_h_Ik_prev.size)
+        _Q_0Ik = np.asarray(_Q_0Ik, dtype=np.float64)
         # Compute E_Ik and D_Ik
         numba_node_coeffs(_D_Ik, _E_Ik, _Q_0Ik, _B_ik, _h_Ik_prev, _dx_ik, _A_SIk,
                           _B_uk, _B_dk, _dx_uk, _dx_dk, _kI,
@@ -1063,6 +1065,7 @@ class nSuperLink(SuperLink):
         # If no input signal, assume orifice is closed
         if u is None:
             u = np.zeros(self.n_o, dtype=np.float64)
+        u = np.asarray(u, dtype=np.float64)
         # Specify orifice heads at previous timestep
         numba_orifice_flow_coefficients(_alpha_o, _beta_o, _chi_o, H_j, _Qo, u, _z_inv_j,
                                         _z_o, _tau_o, _Co, _Ao, _y_max_o, _unidir_o, _J_uo, _J_do)
@@ -1095,6 +1098,7 @@ class nSuperLink(SuperLink):
         # If no input signal, assume weir is closed
         if u is None:
             u = np.zeros(self.n_w, dtype=np.float64)
+        u = np.asarray(u, dtype=np.float64)
         # Compute weir flow coefficients
         numba_weir_flow_coefficients(_Hw, _Qw, _alpha_w, _beta_w, _chi_w, H_j, _z_inv_j, _z_w,
                                      _y_max_w, u, _L_w, _s_w, _Cwr, _Cwt, _J_uw, _J_dw)
@@ -1126,6 +1130,7 @@ class nSuperLink(SuperLink):
         # If no input signal, assume pump is closed
         if u is None:
             u = np.zeros(self.n_p, dtype=np.float64)
+        u = np.asarray(u, dtype=np.float64)
         # Check max/min head differences
         assert (_dHp_min <= _dHp_max).all()
         # Compute pump flow coefficients
@@ -1567,6 +1572,7 @@ class nSuperLink(SuperLink):
         # If no input signal, assume orifice is closed
         if u is None:
             u = np.zeros(self.n_o, dtype=np.float64)
+        u = np.asarray(u, dtype=np.float64)
         # Compute orifice flows
         _Qo_next = numba_solve_orifice_flows(H_j, u, _z_inv_j, _z_o, _tau_o, _y_max_o, _Co, _Ao,
                                              _unidir_o, _J_uo, _J_do, g)
@@ -1597,6 +1603,7 @@ class nSuperLink(SuperLink):
         # If no input signal, assume weir is closed
         if u is None:
             u = np.zeros(self.n_w, dtype=np.float64)
+        u = np.asarray(u, dtype=np.float64)
         # Solve for weir flows
         _Qw_next = numba_solve_weir_flows(_Hw, _Qw, H_j, _z_inv_j, _z_w,
                                           _y_max_w, u, _L_w, _s_w, _Cwr,
@@ -1623,6 +1630,7 @@ class nSuperLink(SuperLink):
         # If no input signal, assume pump is closed
         if u is None:
             u = np.zeros(self.n_p, dtype=np.float64)
+        u = np.asarray(u, dtype=np.float64)
         # Compute pump flows
         _Qp_next = numba_solve_pump_flows(H_j, u, _z_inv_j, _z_p, _dHp_max,
                                           _dHp_min, _a_p, _b_p, _c_p, _J_up, _J_dp)
-- 
2.43.0


From 3ea3058db095a1cd53e53543baf605e5852e4baf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:52 +0000
Subject: [PATCH 60/63] fix: link concentrations from recurrence passed their
 terms in the wrong order

QualityBuilder.link_concentrations_from_recurrence handed the recurrence
coefficients to c_i_b and c_i_f in the place of the concentrations, so neither
estimate matched the concentrations of the links.
---
 pipedream_solver/nquality.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pipedream_solver/nquality.py b/pipedream_solver/nquality.py
index 00d29af..01a0fd6 100644
--- a/pipedream_solver/nquality.py
+++ b/pipedream_solver/nquality.py
@@ -953,12 +953,12 @@ class QualityBuilder():
         _c_1k = _c_Ik[_I_1k]
         _c_Np1k = _c_Ik[_I_Np1k]
         # Compute internal flow estimates in both directions
-        c_ik_b = c_i_b(_X_Ik[~_is_end], _c_Ik[~_is_end],
-                       _Y_Ik[~_is_end], _Z_Ik[~_is_end],
-                       np.repeat(_c_Np1k, nk))
-        c_ik_f = c_i_f(_U_Ik[~_is_end], _c_Ik[~_is_start],
-                       _V_Ik[~_is_end], _W_Ik[~_is_end],
-                       np.repeat(_c_1k, nk))
+        c_ik_b = c_i_b(_c_Ik[~_is_end], np.repeat(_c_Np1k, nk),
+                       _X_Ik[~_is_end], _Y_Ik[~_is_end],
+                       _Z_Ik[~_is_end])
+        c_ik_f = c_i_f(_c_Ik[~_is_start], np.repeat(_c_1k, nk),
+                       _U_Ik[~_is_end], _V_Ik[~_is_end],
+                       _W_Ik[~_is_end])
         return c_ik_b, c_ik_f
 
     def step(self, dt=None, c_bc=None, c_0j=None, Q_0j=None, c_0Ik=None,
-- 
2.43.0


From f4b7c2bfa4fbcb8a1f1c217f3943ceb066f4447e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:36 +0000
Subject: [PATCH 61/63] fix: storage areas beyond a table that narrows jumped
 to its extremes

---
 pipedream_solver/nsuperlink.py | 7 ++++---
 pipedream_solver/storage.py    | 2 +-
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/pipedream_solver/nsuperlink.py b/pipedream_solver/nsuperlink.py
index c89cf1f..4732b60 100644
--- a/pipedream_solver/nsuperlink.py
+++ b/pipedream_solver/nsuperlink.py
@@ -2009,8 +2009,9 @@ def numba_compute_tabular_storage_areas(h_j, A_sj, hs, As, sjs, sts, inds, lens)
         size = lens[st]
         h_range = hs[ind:ind+size]
         A_range = As[ind:ind+size]
-        Amin = A_range.min()
-        Amax = A_range.max()
+        # Beyond the table, areas remain those of its ends
+        Amin = A_range[0]
+        Amax = A_range[-1]
         h_search = h_j[sj]
         ix = np.searchsorted(h_range, h_search)
         # NOTE: np.interp not supported in this version of numba
@@ -2041,7 +2042,7 @@ def numba_compute_tabular_storage_volumes(h_j, V_sj, hs, As, Vs, sjs, sts, inds,
         hmax = h_range.max()
         Vmin = V_range.min()
         Vmax = V_range.max()
-        Amax = A_range.max()
+        Amax = A_range[-1]
         h_search = h_j[sj]
         ix = np.searchsorted(h_range, h_search)
         # NOTE: np.interp not supported in this version of numba
diff --git a/pipedream_solver/storage.py b/pipedream_solver/storage.py
index efb7756..d7a379f 100644
--- a/pipedream_solver/storage.py
+++ b/pipedream_solver/storage.py
@@ -65,7 +65,7 @@ class Tabular():
         self.V = scipy.integrate.cumulative_trapezoid(A, h, initial=0.)
         self.hmax = self.h.max()
         self.hmin = self.h.min()
-        self.Amax = self.A.max()
+        self.Amax = self.A[self.h.argmax()]
         self.A_interpolator = scipy.interpolate.interp1d(self.h, self.A)
 
     def A_sj(self, h):
-- 
2.43.0


From c5c24d2a165dabd234660c9baca9b0cd8b5e2402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:54 +0000
Subject: [PATCH 62/63] fix: water quality lost mass when hydraulic steps were
 iterated

The volumes transport starts a step from were those of the last iterate of the
hydraulic step instead of those stored at its start.
---
 pipedream_solver/nquality.py  | 2 +-
 pipedream_solver/superlink.py | 4 ++++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/pipedream_solver/nquality.py b/pipedream_solver/nquality.py
index 01a0fd6..b93b31e 100644
--- a/pipedream_solver/nquality.py
+++ b/pipedream_solver/nquality.py
@@ -266,7 +266,7 @@ class QualityBuilder():
         self._z_inv_j = self.hydraulics.z_inv_j  #★★★
         # The volume stored at the start of the hydraulic step changes with the surface area
         # the step was solved with
-        self._V_j_prev = self.hydraulics._V_sj
+        self._V_j_prev = self.hydraulics._V_sj_prev
         if self._initial:
             # Volumes are only computed by a hydraulic step
             self._V_j_prev = self._A_sj*(self._H_j_next - self._z_inv_j)
diff --git a/pipedream_solver/superlink.py b/pipedream_solver/superlink.py
index cea8a85..e1dbb30 100644
--- a/pipedream_solver/superlink.py
+++ b/pipedream_solver/superlink.py
@@ -722,6 +722,7 @@ class SuperLink():
         self._k = self.superlinks.index.values.astype(np.int64)
         self._A_sj = np.zeros(self.M, dtype=np.float64)
         self._V_sj = np.zeros(self.M, dtype=np.float64)
+        self._V_sj_prev = np.zeros(self.M, dtype=np.float64)
         self._F_jj = np.zeros(self.M, dtype=np.float64)
         # TODO: Allow initial input to be specified
         self._Q_0j = 0
@@ -4054,6 +4055,9 @@ class SuperLink():
         self.downstream_hydraulic_geometry()
         self.compute_storage_areas()
         self.compute_storage_volumes()
+        if first_iter:
+            # Volumes stored at the start of the step, whatever the number of iterations
+            self._V_sj_prev = np.copy(self._V_sj)
         self.node_velocities()
         if self.orifices is not None:
             self.orifice_hydraulic_geometry(u=u_o)
-- 
2.43.0


From adab50916a6c1e5bc76ad17e46d752eca8c309a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:44 +0000
Subject: [PATCH 63/63] fix: the limit on orifice flow in iterated steps used
 another iterate's volume

An orifice cannot convey more than was stored at its upstream end when the step
started; in iterated steps the limit was taken from the last iterate.
---
 pipedream_solver/nsuperlink.py | 2 +-
 pipedream_solver/superlink.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pipedream_solver/nsuperlink.py b/pipedream_solver/nsuperlink.py
index 4732b60..3475e0a 100644
--- a/pipedream_solver/nsuperlink.py
+++ b/pipedream_solver/nsuperlink.py
@@ -1566,7 +1566,7 @@ class nSuperLink(SuperLink):
         _y_max_o = self._y_max_o      # Maximum height of orifice o
         _Co = self._Co                # Discharge coefficient of orifice o
         _Ao = self._Ao                # Maximum flow area of orifice o
-        _V_sj = self._V_sj
+        _V_sj = self._V_sj_prev       # Volume stored at the start of the step
         _unidir_o = self._unidir_o
         g = 9.81
         # If no input signal, assume orifice is closed
diff --git a/pipedream_solver/superlink.py b/pipedream_solver/superlink.py
index e1dbb30..88aa248 100644
--- a/pipedream_solver/superlink.py
+++ b/pipedream_solver/superlink.py
@@ -3016,7 +3016,7 @@ class SuperLink():
         _Co = self._Co                # Discharge coefficient of orifice o
         _Ao = self._Ao                # Maximum flow area of orifice o
         _tau_o = self._tau_o
-        _V_sj = self._V_sj
+        _V_sj = self._V_sj_prev       # Volume stored at the start of the step
         # If no input signal, assume orifice is closed
         if u is None:
             u = np.zeros(self.n_o, dtype=np.float64)
-- 
2.43.0

