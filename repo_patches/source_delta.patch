From 4800340de4c1e1fe7ba6241fa3ef87c4e182e5c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:16 +0000
Subject: [PATCH 01/39] fix: keep flow axes in icoords when shapes are not
 unified

Cells at position 0 of a flow axis lost that coordinate, so asking a boundary
cell's value by coords was refused.
---
 reservoirflow/grids/regular_cartesian.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/reservoirflow/grids/regular_cartesian.py b/reservoirflow/grids/regular_cartesian.py
index ac7678b..7d20e03 100644
--- a/reservoirflow/grids/regular_cartesian.py
+++ b/reservoirflow/grids/regular_cartesian.py
@@ -741,8 +741,10 @@ class RegularCartesian(Grid):
             msg = "coords are out of range."
             assert utils.helpers.isin(coords, cells_coords), msg
             if not self.unify and self.D <= 2:
-                icoords = tuple(c for c in coords[::-1] if c > 0)
-                assert len(icoords) == self.get_D(), "icoords is not compatible"
+                # keep flow axes only (fshape is (1,) without flow axes):
+                icoords = tuple(
+                    c for c, a in zip(coords[::-1], "zyx") if a in self.get_fdir()
+                ) or (0,)
             else:
                 icoords = tuple(c for c in coords[::-1])
         else:
-- 
2.43.0


From 3770d55c097faad91f6b25b68b48a867aad7fa58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:16 +0000
Subject: [PATCH 02/39] fix: set_prop for a single cell indexes the flat
 property array

Properties are stored flat, so indexing them with reversed coords raised
IndexError for unified shapes and for 2D or 3D grids.
---
 reservoirflow/grids/regular_cartesian.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/reservoirflow/grids/regular_cartesian.py b/reservoirflow/grids/regular_cartesian.py
index 7d20e03..f7ba15d 100644
--- a/reservoirflow/grids/regular_cartesian.py
+++ b/reservoirflow/grids/regular_cartesian.py
@@ -2414,12 +2414,10 @@ class RegularCartesian(Grid):
                 self.__props__[name] = self.get_ones(True, False, False) * value
                 s = "all cells"
             else:
-                if id is not None:
-                    coords = self.get_cell_coords(id, True)
-                if coords is not None:
-                    icoords = self.get_cell_icoords(coords)
-                    self.__props__[name][icoords] = value
-                    s = "cell coords " + str(coords)
+                if id is None:
+                    id = self.get_cell_id(coords, True)
+                self.__props__[name][id] = value
+                s = "cell id " + str(id)
         else:
             msg = (
                 f"Property {name} is unknown or not defined. "
-- 
2.43.0


From 1293e34bcff36a33c1a68f7a45c65c8910565154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:16 +0000
Subject: [PATCH 03/39] fix: remove_boundaries honours points and remove for
 dictionaries

The caller's dictionary was overwritten and both sides were always removed.
---
 reservoirflow/grids/regular_cartesian.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/reservoirflow/grids/regular_cartesian.py b/reservoirflow/grids/regular_cartesian.py
index f7ba15d..270dae0 100644
--- a/reservoirflow/grids/regular_cartesian.py
+++ b/reservoirflow/grids/regular_cartesian.py
@@ -1109,9 +1109,9 @@ class RegularCartesian(Grid):
             return out_data
 
         elif isinstance(in_data, dict):
-            for k, v in in_data.items():
-                in_data[k] = self.remove_boundaries(v, remove="both")
-            return in_data
+            return {
+                k: self.remove_boundaries(v, points, remove) for k, v in in_data.items()
+            }
         else:
             raise ValueError("dtype must be ndarray.")
 
-- 
2.43.0


From d34374054cf043fdd0fb1bf9e0ef183127e616b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:24 +0000
Subject: [PATCH 04/39] fix: a grid without flow axes has no boundary cells

Its only cell was reported both as interior and as boundary cell.
---
 reservoirflow/grids/regular_cartesian.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/reservoirflow/grids/regular_cartesian.py b/reservoirflow/grids/regular_cartesian.py
index 270dae0..e733916 100644
--- a/reservoirflow/grids/regular_cartesian.py
+++ b/reservoirflow/grids/regular_cartesian.py
@@ -1182,7 +1182,7 @@ class RegularCartesian(Grid):
             else:
                 if not self.unify:
                     if self.D == 0:
-                        out_data = in_data
+                        out_data = in_data[:0]
                     elif self.D == 1:
                         out_data = in_data[[0, -1]].flatten()
                     elif self.D == 2:
@@ -1197,7 +1197,7 @@ class RegularCartesian(Grid):
                 else:
                     fdir = self.get_fdir()
                     if fdir == "-":
-                        out_data = in_data
+                        out_data = in_data[:0]
                     elif fdir == "x":
                         out_data = in_data[:, :, [0, -1]]
                     elif fdir == "y":
-- 
2.43.0


From 272865f4eb11c2e803c2dfffae8c09d26a8b4cbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:55 +0000
Subject: [PATCH 05/39] fix: is_isotropic looks at boundary cells as well

---
 reservoirflow/grids/regular_cartesian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reservoirflow/grids/regular_cartesian.py b/reservoirflow/grids/regular_cartesian.py
index e733916..104b4f4 100644
--- a/reservoirflow/grids/regular_cartesian.py
+++ b/reservoirflow/grids/regular_cartesian.py
@@ -2713,7 +2713,7 @@ class RegularCartesian(Grid):
         props = ["kx", "ky", "kz"]
         props = [name for name in props if self.__props__[name] is not None]
         for name in props:
-            prop = self.get_prop(name, False, False)
+            prop = self.get_prop(name, True, False)
             if not np.all(prop == prop[0]):
                 return False
         return True
-- 
2.43.0


From 5124648dd38cda20d852a6dd562c32d024b1a142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:15 +0000
Subject: [PATCH 06/39] fix: zero every wrap-around coupling of the second
 diagonal in 3D

---
 reservoirflow/grids/regular_cartesian.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/reservoirflow/grids/regular_cartesian.py b/reservoirflow/grids/regular_cartesian.py
index 104b4f4..c0f5298 100644
--- a/reservoirflow/grids/regular_cartesian.py
+++ b/reservoirflow/grids/regular_cartesian.py
@@ -2847,14 +2847,13 @@ class RegularCartesian(Grid):
             n3 = self.nx_b * self.ny_b
             n3_ = n3 - self.nx_b
             n4 = n3 * self.nz_b - n3
-            diag_2_zero_ids = n3_ + np.arange(0, self.nx_b, n3)
         else:
             n3 = self.nx * self.ny
             n3_ = n3 - self.nx
             n4 = n3 * self.nz - n3
-            diag_2_zero_ids = n3_ + np.arange(0, self.nx, n3)
         if diag_2 is not None:
-            diag_2[diag_2_zero_ids] = 0
+            # last row of a layer is not adjacent to first row of next layer:
+            diag_2[np.arange(len(diag_2)) % n3 >= n3_] = 0
         k = self.get_cells_k(dir, boundary, False, "array")
         A = self.get_cells_A(dir, boundary, False)
         d = self.get_cells_d(dir, boundary, False)
-- 
2.43.0


From 742c5e012c43c4f8b9f4549ddd4317f7a29aaff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:01 +0000
Subject: [PATCH 07/39] fix: MinMax fitted across columns scales each row by
 its own range

---
 reservoirflow/scalers/minmax.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/reservoirflow/scalers/minmax.py b/reservoirflow/scalers/minmax.py
index 63502ff..893747a 100644
--- a/reservoirflow/scalers/minmax.py
+++ b/reservoirflow/scalers/minmax.py
@@ -61,8 +61,10 @@ class MinMax(Scaler):
                 + "Note that in this case overall min and max are used for scaling."
             )
             raise ValueError(msg)
-        self.vmin = v.min(axis=axis)  #: input minimum value.
-        self.vmax = v.max(axis=axis)  #: input maximum value.
+        # ranges across columns (axis=1) are kept as a column to match rows:
+        keepdims = axis not in (0, None)
+        self.vmin = v.min(axis=axis, keepdims=keepdims)  #: input minimum value.
+        self.vmax = v.max(axis=axis, keepdims=keepdims)  #: input maximum value.
         return self
 
     def transform(self, v):
-- 
2.43.0


From a43994957fb3af276d8501d537c3366ead883514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:43 +0000
Subject: [PATCH 08/39] fix: unfinished components refuse positional arguments
 with NotImplementedError too

The compiler constructs solutions positionally, so selecting an unfinished
method ended in a TypeError about arguments instead of NotImplementedError.
---
 reservoirflow/backends/jax.py                | 2 +-
 reservoirflow/backends/numpy.py              | 2 +-
 reservoirflow/backends/pytorch.py            | 2 +-
 reservoirflow/backends/tensorflow.py         | 2 +-
 reservoirflow/fluids/multi_phase.py          | 2 +-
 reservoirflow/fluids/three_phase.py          | 2 +-
 reservoirflow/fluids/two_phase.py            | 2 +-
 reservoirflow/grids/irregular_cartesian.py   | 2 +-
 reservoirflow/grids/radial.py                | 2 +-
 reservoirflow/models/compositional.py        | 2 +-
 reservoirflow/models/thermal.py              | 2 +-
 reservoirflow/solutions/analytical/d1p2.py   | 2 +-
 reservoirflow/solutions/analytical/d1p3.py   | 2 +-
 reservoirflow/solutions/analytical/d2p1.py   | 2 +-
 reservoirflow/solutions/analytical/d2p2.py   | 2 +-
 reservoirflow/solutions/analytical/d2p3.py   | 2 +-
 reservoirflow/solutions/analytical/d3p1.py   | 2 +-
 reservoirflow/solutions/analytical/d3p2.py   | 2 +-
 reservoirflow/solutions/analytical/d3p3.py   | 2 +-
 reservoirflow/solutions/neurical/deeponet.py | 2 +-
 reservoirflow/solutions/neurical/pinn.py     | 2 +-
 reservoirflow/solutions/numerical/fem.py     | 2 +-
 reservoirflow/solutions/numerical/fvm.py     | 2 +-
 reservoirflow/wells/directional.py           | 2 +-
 reservoirflow/wells/multi_cell.py            | 2 +-
 25 files changed, 25 insertions(+), 25 deletions(-)

diff --git a/reservoirflow/backends/jax.py b/reservoirflow/backends/jax.py
index 016c265..bb31460 100644
--- a/reservoirflow/backends/jax.py
+++ b/reservoirflow/backends/jax.py
@@ -19,7 +19,7 @@ class JAX(Backend):
 
     name = "JAX"
 
-    def __init__(self, **kwargs):
+    def __init__(self, *args, **kwargs):
         raise NotImplementedError("This class is not implemented.")
 
     def transpose(self):
diff --git a/reservoirflow/backends/numpy.py b/reservoirflow/backends/numpy.py
index 60c48c5..34ada52 100644
--- a/reservoirflow/backends/numpy.py
+++ b/reservoirflow/backends/numpy.py
@@ -19,7 +19,7 @@ class NumPy(Backend):
 
     name = "NumPy"
 
-    def __init__(self, **kwargs):
+    def __init__(self, *args, **kwargs):
         raise NotImplementedError("This class is not implemented.")
 
     def transpose(self):
diff --git a/reservoirflow/backends/pytorch.py b/reservoirflow/backends/pytorch.py
index cf29049..f5513c8 100644
--- a/reservoirflow/backends/pytorch.py
+++ b/reservoirflow/backends/pytorch.py
@@ -19,7 +19,7 @@ class PyTorch(Backend):
 
     name = "PyTorch"
 
-    def __init__(self, **kwargs):
+    def __init__(self, *args, **kwargs):
         raise NotImplementedError("This class is not implemented.")
 
     def transpose(self):
diff --git a/reservoirflow/backends/tensorflow.py b/reservoirflow/backends/tensorflow.py
index d32742d..70e5e1c 100644
--- a/reservoirflow/backends/tensorflow.py
+++ b/reservoirflow/backends/tensorflow.py
@@ -19,7 +19,7 @@ class TensorFlow(Backend):
 
     name = "TensorFlow"
 
-    def __init__(self, **kwargs):
+    def __init__(self, *args, **kwargs):
         raise NotImplementedError("This class is not implemented.")
 
     def transpose(self):
diff --git a/reservoirflow/fluids/multi_phase.py b/reservoirflow/fluids/multi_phase.py
index d4964e6..82866ac 100644
--- a/reservoirflow/fluids/multi_phase.py
+++ b/reservoirflow/fluids/multi_phase.py
@@ -20,7 +20,7 @@ class MultiPhase(Fluid):
 
     name = "MultiPhase"
 
-    def __init__(self, **kwargs):
+    def __init__(self, *args, **kwargs):
         raise NotImplementedError("This class is not implemented.")
 
 
diff --git a/reservoirflow/fluids/three_phase.py b/reservoirflow/fluids/three_phase.py
index 58b8f58..9cfd741 100644
--- a/reservoirflow/fluids/three_phase.py
+++ b/reservoirflow/fluids/three_phase.py
@@ -20,7 +20,7 @@ class ThreePhase(Fluid):
 
     name = "ThreePhase"
 
-    def __init__(self, **kwargs):
+    def __init__(self, *args, **kwargs):
         raise NotImplementedError("This class is not implemented.")
 
 
diff --git a/reservoirflow/fluids/two_phase.py b/reservoirflow/fluids/two_phase.py
index 3e1f6f7..d745623 100644
--- a/reservoirflow/fluids/two_phase.py
+++ b/reservoirflow/fluids/two_phase.py
@@ -20,7 +20,7 @@ class TwoPhase(Fluid):
 
     name = "TwoPhase"
 
-    def __init__(self, **kwargs):
+    def __init__(self, *args, **kwargs):
         raise NotImplementedError("This class is not implemented.")
 
 
diff --git a/reservoirflow/grids/irregular_cartesian.py b/reservoirflow/grids/irregular_cartesian.py
index bd9f516..22fc4f7 100644
--- a/reservoirflow/grids/irregular_cartesian.py
+++ b/reservoirflow/grids/irregular_cartesian.py
@@ -15,5 +15,5 @@ class IrregularCartesian(Grid):
 
     name = "IrregularCartesian"
 
-    def __init__(self, **kwargs):
+    def __init__(self, *args, **kwargs):
         raise NotImplementedError("This class is not implemented.")
diff --git a/reservoirflow/grids/radial.py b/reservoirflow/grids/radial.py
index e5ef827..50021e6 100644
--- a/reservoirflow/grids/radial.py
+++ b/reservoirflow/grids/radial.py
@@ -15,5 +15,5 @@ class Radial(Grid):
 
     name = "Radial"
 
-    def __init__(self, **kwargs):
+    def __init__(self, *args, **kwargs):
         raise NotImplementedError("This class is not implemented.")
diff --git a/reservoirflow/models/compositional.py b/reservoirflow/models/compositional.py
index aa14da3..a2ce0cf 100644
--- a/reservoirflow/models/compositional.py
+++ b/reservoirflow/models/compositional.py
@@ -15,5 +15,5 @@ class Compositional(Model):
 
     name = "Compositional"
 
-    def __init__(self, **kwargs):
+    def __init__(self, *args, **kwargs):
         raise NotImplementedError("This class is not implemented.")
diff --git a/reservoirflow/models/thermal.py b/reservoirflow/models/thermal.py
index a1e878a..1033eaf 100644
--- a/reservoirflow/models/thermal.py
+++ b/reservoirflow/models/thermal.py
@@ -15,5 +15,5 @@ class Thermal(Model):
 
     name = "Thermal"
 
-    def __init__(self, **kwargs):
+    def __init__(self, *args, **kwargs):
         raise NotImplementedError("This class is not implemented.")
diff --git a/reservoirflow/solutions/analytical/d1p2.py b/reservoirflow/solutions/analytical/d1p2.py
index 81afead..3022324 100644
--- a/reservoirflow/solutions/analytical/d1p2.py
+++ b/reservoirflow/solutions/analytical/d1p2.py
@@ -17,7 +17,7 @@ class D1P2(Solution):
 
     name = "D1P2"
 
-    def __init__(self, **kwargs):
+    def __init__(self, *args, **kwargs):
         raise NotImplementedError("This class is not implemented.")
 
     def solve(self):
diff --git a/reservoirflow/solutions/analytical/d1p3.py b/reservoirflow/solutions/analytical/d1p3.py
index 1afb6b9..c284609 100644
--- a/reservoirflow/solutions/analytical/d1p3.py
+++ b/reservoirflow/solutions/analytical/d1p3.py
@@ -17,7 +17,7 @@ class D1P3(Solution):
 
     name = "D1P3"
 
-    def __init__(self, **kwargs):
+    def __init__(self, *args, **kwargs):
         raise NotImplementedError("This class is not implemented.")
 
     def solve(self):
diff --git a/reservoirflow/solutions/analytical/d2p1.py b/reservoirflow/solutions/analytical/d2p1.py
index e4337ac..41227de 100644
--- a/reservoirflow/solutions/analytical/d2p1.py
+++ b/reservoirflow/solutions/analytical/d2p1.py
@@ -17,7 +17,7 @@ class D2P1(Solution):
 
     name = "D2P1"
 
-    def __init__(self, **kwargs):
+    def __init__(self, *args, **kwargs):
         raise NotImplementedError("This class is not implemented.")
 
     def solve(self):
diff --git a/reservoirflow/solutions/analytical/d2p2.py b/reservoirflow/solutions/analytical/d2p2.py
index 200e90f..1b8af8d 100644
--- a/reservoirflow/solutions/analytical/d2p2.py
+++ b/reservoirflow/solutions/analytical/d2p2.py
@@ -17,7 +17,7 @@ class D2P2(Solution):
 
     name = "D2P2"
 
-    def __init__(self, **kwargs):
+    def __init__(self, *args, **kwargs):
         raise NotImplementedError("This class is not implemented.")
 
     def solve(self):
diff --git a/reservoirflow/solutions/analytical/d2p3.py b/reservoirflow/solutions/analytical/d2p3.py
index 31ffe42..ebf31c1 100644
--- a/reservoirflow/solutions/analytical/d2p3.py
+++ b/reservoirflow/solutions/analytical/d2p3.py
@@ -17,7 +17,7 @@ class D2P3(Solution):
 
     name = "D2P3"
 
-    def __init__(self, **kwargs):
+    def __init__(self, *args, **kwargs):
         raise NotImplementedError("This class is not implemented.")
 
     def solve(self):
diff --git a/reservoirflow/solutions/analytical/d3p1.py b/reservoirflow/solutions/analytical/d3p1.py
index b942db6..c71fe6f 100644
--- a/reservoirflow/solutions/analytical/d3p1.py
+++ b/reservoirflow/solutions/analytical/d3p1.py
@@ -17,7 +17,7 @@ class D3P1(Solution):
 
     name = "D3P1"
 
-    def __init__(self, **kwargs):
+    def __init__(self, *args, **kwargs):
         raise NotImplementedError("This class is not implemented.")
 
     def solve(self):
diff --git a/reservoirflow/solutions/analytical/d3p2.py b/reservoirflow/solutions/analytical/d3p2.py
index 8d6287a..52e4f95 100644
--- a/reservoirflow/solutions/analytical/d3p2.py
+++ b/reservoirflow/solutions/analytical/d3p2.py
@@ -17,7 +17,7 @@ class D3P2(Solution):
 
     name = "D3P2"
 
-    def __init__(self, **kwargs):
+    def __init__(self, *args, **kwargs):
         raise NotImplementedError("This class is not implemented.")
 
     def solve(self):
diff --git a/reservoirflow/solutions/analytical/d3p3.py b/reservoirflow/solutions/analytical/d3p3.py
index d74e675..60d1bcc 100644
--- a/reservoirflow/solutions/analytical/d3p3.py
+++ b/reservoirflow/solutions/analytical/d3p3.py
@@ -17,7 +17,7 @@ class D3P3(Solution):
 
     name = "D3P3"
 
-    def __init__(self, **kwargs):
+    def __init__(self, *args, **kwargs):
         raise NotImplementedError("This class is not implemented.")
 
     def solve(self):
diff --git a/reservoirflow/solutions/neurical/deeponet.py b/reservoirflow/solutions/neurical/deeponet.py
index 8b1d0f0..4a2f7ef 100644
--- a/reservoirflow/solutions/neurical/deeponet.py
+++ b/reservoirflow/solutions/neurical/deeponet.py
@@ -17,7 +17,7 @@ class DeepONet(Solution):
 
     name = "DeepONet"
 
-    def __init__(self, **kwargs):
+    def __init__(self, *args, **kwargs):
         raise NotImplementedError("This class is not implemented.")
 
     def solve(self):
diff --git a/reservoirflow/solutions/neurical/pinn.py b/reservoirflow/solutions/neurical/pinn.py
index 751ad4f..69dfd89 100644
--- a/reservoirflow/solutions/neurical/pinn.py
+++ b/reservoirflow/solutions/neurical/pinn.py
@@ -17,7 +17,7 @@ class PINN(Solution):
 
     name = "PINN"
 
-    def __init__(self, **kwargs):
+    def __init__(self, *args, **kwargs):
         raise NotImplementedError("This class is not implemented.")
 
     def fit(self):
diff --git a/reservoirflow/solutions/numerical/fem.py b/reservoirflow/solutions/numerical/fem.py
index e7abb2f..6a448e5 100644
--- a/reservoirflow/solutions/numerical/fem.py
+++ b/reservoirflow/solutions/numerical/fem.py
@@ -17,7 +17,7 @@ class FEM(Solution):
 
     name = "FEM"
 
-    def __init__(self, **kwargs):
+    def __init__(self, *args, **kwargs):
         raise NotImplementedError("This class is not implemented.")
 
     def solve(self):
diff --git a/reservoirflow/solutions/numerical/fvm.py b/reservoirflow/solutions/numerical/fvm.py
index 45db40f..913e567 100644
--- a/reservoirflow/solutions/numerical/fvm.py
+++ b/reservoirflow/solutions/numerical/fvm.py
@@ -17,7 +17,7 @@ class FVM(Solution):
 
     name = "FVM"
 
-    def __init__(self, **kwargs):
+    def __init__(self, *args, **kwargs):
         raise NotImplementedError("This class is not implemented.")
 
     def solve(self):
diff --git a/reservoirflow/wells/directional.py b/reservoirflow/wells/directional.py
index d7dac11..6ac1ece 100644
--- a/reservoirflow/wells/directional.py
+++ b/reservoirflow/wells/directional.py
@@ -15,5 +15,5 @@ class Directional(Well):
 
     name = "Directional"
 
-    def __init__(self, **kwargs):
+    def __init__(self, *args, **kwargs):
         raise NotImplementedError("This class is not implemented.")
diff --git a/reservoirflow/wells/multi_cell.py b/reservoirflow/wells/multi_cell.py
index 698413f..76057d5 100644
--- a/reservoirflow/wells/multi_cell.py
+++ b/reservoirflow/wells/multi_cell.py
@@ -15,5 +15,5 @@ class MultiCell(Well):
 
     name = "MultiCell"
 
-    def __init__(self, **kwargs):
+    def __init__(self, *args, **kwargs):
         raise NotImplementedError("This class is not implemented.")
-- 
2.43.0


From d2eccc0328829e53283ffe92627b13c1f83979ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:43 +0000
Subject: [PATCH 09/39] fix: multi-phase analytical method names select their
 own class

---
 reservoirflow/solutions/compiler.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/reservoirflow/solutions/compiler.py b/reservoirflow/solutions/compiler.py
index 0505f1c..a543239 100644
--- a/reservoirflow/solutions/compiler.py
+++ b/reservoirflow/solutions/compiler.py
@@ -15,11 +15,11 @@ METHODS = {
         "d1p2": ["d1p2", "1d2p", "1-dimension-2-phase", "1dimension2phase"],
         "d1p3": ["d1p3", "1d3p", "1-dimension-3-phase", "1dimension3phase"],
         "d2p1": ["d2p1", "2d1p", "2-dimension-1-phase", "2dimension1phase"],
-        "d2p2": ["d2p2", "2d1p", "2-dimension-2-phase", "2dimension2phase"],
-        "d2p3": ["d2p3", "2d1p", "2-dimension-3-phase", "2dimension3phase"],
+        "d2p2": ["d2p2", "2d2p", "2-dimension-2-phase", "2dimension2phase"],
+        "d2p3": ["d2p3", "2d3p", "2-dimension-3-phase", "2dimension3phase"],
         "d3p1": ["d3p1", "3d1p", "3-dimension-1-phase", "3dimension1phase"],
-        "d3p2": ["d3p2", "3d1p", "3-dimension-2-phase", "3dimension2phase"],
-        "d3p3": ["d3p3", "3d1p", "3-dimension-3-phase", "3dimension3phase"],
+        "d3p2": ["d3p2", "3d2p", "3-dimension-2-phase", "3dimension2phase"],
+        "d3p3": ["d3p3", "3d3p", "3-dimension-3-phase", "3dimension3phase"],
     },
     "neurical": {
         "pinn": [
-- 
2.43.0


From 21e1d6053ce766526a29d1fd7812305358e7e925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:00 +0000
Subject: [PATCH 10/39] fix: the abstract grid, fluid, model and well classes
 cannot be instantiated

---
 reservoirflow/fluids/fluid.py | 1 +
 reservoirflow/grids/grid.py   | 1 +
 reservoirflow/models/model.py | 1 +
 reservoirflow/wells/well.py   | 1 +
 4 files changed, 4 insertions(+)

diff --git a/reservoirflow/fluids/fluid.py b/reservoirflow/fluids/fluid.py
index b740c29..d3a1d23 100644
--- a/reservoirflow/fluids/fluid.py
+++ b/reservoirflow/fluids/fluid.py
@@ -19,6 +19,7 @@ class Fluid(ABC, Base):
 
     name = "Fluid"
 
+    @abstractmethod
     def __init__(
         self, 
         unit,
diff --git a/reservoirflow/grids/grid.py b/reservoirflow/grids/grid.py
index c81ec02..9da8d85 100644
--- a/reservoirflow/grids/grid.py
+++ b/reservoirflow/grids/grid.py
@@ -31,6 +31,7 @@ class Grid(ABC, Base):
 
     name = "Grid"
 
+    @abstractmethod
     def __init__(
         self, 
         unit,
diff --git a/reservoirflow/models/model.py b/reservoirflow/models/model.py
index 6552f7e..064cd76 100644
--- a/reservoirflow/models/model.py
+++ b/reservoirflow/models/model.py
@@ -25,6 +25,7 @@ class Model(ABC, Base):
 
     name = "Model"
 
+    @abstractmethod
     def __init__(
         self, 
         unit,
diff --git a/reservoirflow/wells/well.py b/reservoirflow/wells/well.py
index 234340c..4a9fd53 100644
--- a/reservoirflow/wells/well.py
+++ b/reservoirflow/wells/well.py
@@ -19,6 +19,7 @@ class Well(ABC, Base):
 
     name = "Well"
 
+    @abstractmethod
     def __init__(self):
         pass
 
-- 
2.43.0


From 0f25762c436412a75896eeab0ef978d668712dc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:32 +0000
Subject: [PATCH 11/39] fix: unknown scaler or data column names are refused
 before anything changes

set_scalers applied the first entries of a dictionary whose later entry was
refused, get_df refitted the scalers first; 'all' only configured time.
---
 reservoirflow/models/black_oil.py | 39 ++++++++++++++++---------------
 1 file changed, 20 insertions(+), 19 deletions(-)

diff --git a/reservoirflow/models/black_oil.py b/reservoirflow/models/black_oil.py
index c7e002a..6083bb9 100644
--- a/reservoirflow/models/black_oil.py
+++ b/reservoirflow/models/black_oil.py
@@ -910,28 +910,28 @@ class BlackOil(Model):
         }
         # col_vals = sum(col_dict.values(), [])
 
+        names = {
+            "time": "time_scaler",
+            "space": "space_scaler",
+            "pressure": "pressures_scaler",
+            "rate": "rates_scaler",
+        }
+        settings = []
         for column in scalers_dict.keys():
-            scaler_type = scalers_dict[column][0]
-            output_range = scalers_dict[column][1]
-            if column.lower() in col_dict["time"]:
-                self.time_scaler, s_str = create_scaler(scaler_type, output_range)
-                column_str = "time"
-            elif column.lower() in col_dict["space"]:
-                self.space_scaler, s_str = create_scaler(scaler_type, output_range)
-                column_str = "space"
-            elif column.lower() in col_dict["pressure"]:
-                self.pressures_scaler, s_str = create_scaler(scaler_type, output_range)
-                column_str = "pressure"
-            elif column.lower() in col_dict["rate"]:
-                self.rates_scaler, s_str = create_scaler(scaler_type, output_range)
-                column_str = "rate"
-            else:  # if column.lower() not in col_vals:
+            scaler_type, output_range = scalers_dict[column]
+            columns_str = [c for c in col_dict if column.lower() in col_dict[c]]
+            if len(columns_str) == 0:
                 raise ValueError(f"column {column} does not exist.")
+            for column_str in columns_str:
+                scaler, s_str = create_scaler(scaler_type, output_range)
+                settings.append((column_str, scaler, s_str, output_range))
 
-            if scaler_type is None or output_range is None:
+        for column_str, scaler, s_str, output_range in settings:
+            setattr(self, names[column_str], scaler)
+            if s_str is None:
                 self.scalers_dict[column_str] = [None, None]
             else:
-                self.scalers_dict[column_str] = [s_str, scalers_dict[column][1]]
+                self.scalers_dict[column_str] = [s_str, output_range]
 
     def get_df(
         self,
@@ -1012,6 +1012,9 @@ class BlackOil(Model):
             "wells_pressure": ["p", "pressures", "wells", "wells_pressure"],
         }
         col_vals = sum(col_dict.values(), [])
+        for c in columns:
+            if c.lower() not in col_vals:
+                raise ValueError(f"column {c} does not exist.")
 
         df = pd.DataFrame()
 
@@ -1026,8 +1029,6 @@ class BlackOil(Model):
             df = self.__add_xyz(boundary, melt, scale, df)
 
         for c in columns:
-            if c.lower() not in col_vals:
-                raise ValueError(f"column {c} does not exist.")
             if c.lower() in col_dict["time"]:
                 df = self.__add_time(units, melt, boundary, scale, df)
             if c.lower() in col_dict["date"]:
-- 
2.43.0


From 03f0a024b6799b38f8b14e520c32fc8c4823394f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:52 +0000
Subject: [PATCH 12/39] fix: do not remember results that depend on changeable
 settings

Permeability, interface factors, transmissibilities, storage, diffusivity and
flow terms were memoised by object and cell, so they kept their first values
after set_props, set_mu, set_B, set_units or set_boundaries.
---
 reservoirflow/grids/regular_cartesian.py | 6 ------
 reservoirflow/models/black_oil.py        | 4 ----
 reservoirflow/solutions/numerical/fdm.py | 3 ---
 3 files changed, 13 deletions(-)

diff --git a/reservoirflow/grids/regular_cartesian.py b/reservoirflow/grids/regular_cartesian.py
index c0f5298..5b75b9c 100644
--- a/reservoirflow/grids/regular_cartesian.py
+++ b/reservoirflow/grids/regular_cartesian.py
@@ -2526,7 +2526,6 @@ class RegularCartesian(Grid):
 
         return self.get_prop(name, boundary, fshape, fmt)
 
-    @_lru_cache(maxsize=None)
     def get_cell_k(
         self,
         dir,
@@ -2659,7 +2658,6 @@ class RegularCartesian(Grid):
         return self.get_cell_k("z", id, coords)
 
     @property
-    @_lru_cache(maxsize=1)
     def is_homogeneous(self):
         """Returns homogeneity as bool.
 
@@ -2680,7 +2678,6 @@ class RegularCartesian(Grid):
         return True
 
     @property
-    @_lru_cache(maxsize=1)
     def is_heterogeneous(self):
         """Returns heterogeneity as bool.
 
@@ -2695,7 +2692,6 @@ class RegularCartesian(Grid):
         return not self.is_homogeneous
 
     @property
-    @_lru_cache(maxsize=1)
     def is_isotropic(self):
         """Returns isotropic as bool.
 
@@ -2719,7 +2715,6 @@ class RegularCartesian(Grid):
         return True
 
     @property
-    @_lru_cache(maxsize=1)
     def is_anisotropic(self):
         """Returns anisotropic as bool.
 
@@ -2938,7 +2933,6 @@ class RegularCartesian(Grid):
         else:
             return diag
 
-    @_lru_cache(maxsize=None)
     def get_cell_G(
         self,
         id=None,
diff --git a/reservoirflow/models/black_oil.py b/reservoirflow/models/black_oil.py
index 6083bb9..32da9b8 100644
--- a/reservoirflow/models/black_oil.py
+++ b/reservoirflow/models/black_oil.py
@@ -14,7 +14,6 @@ import scipy.sparse as ss
 
 import reservoirflow as rf
 from reservoirflow.models.model import Model
-from reservoirflow.utils.helpers import _lru_cache
 
 
 class BlackOil(Model):
@@ -265,7 +264,6 @@ class BlackOil(Model):
         if self.verbose:
             print("[info] model compressibility (comp) was calculated.")
 
-    @_lru_cache(maxsize=None)
     def get_cell_trans(
         self,
         cell_id=None,
@@ -617,7 +615,6 @@ class BlackOil(Model):
     # Flow Equations:
     # -------------------------------------------------------------------------
 
-    @_lru_cache(maxsize=1)
     def __calc_RHS(self):
         """Calculates flow equation for RHS."""
         if self.comp_type == "incompressible":
@@ -631,7 +628,6 @@ class BlackOil(Model):
             raise ValueError("compressibility type is unknown.")
         return self.RHS
 
-    @_lru_cache(maxsize=1)
     def get_alpha(
         self,
     ):
diff --git a/reservoirflow/solutions/numerical/fdm.py b/reservoirflow/solutions/numerical/fdm.py
index 8d3a161..53e3ced 100644
--- a/reservoirflow/solutions/numerical/fdm.py
+++ b/reservoirflow/solutions/numerical/fdm.py
@@ -19,7 +19,6 @@ from tqdm import tqdm
 
 import reservoirflow as rf
 from reservoirflow.solutions.solution import Solution
-from reservoirflow.utils.helpers import _lru_cache
 
 
 class FDM(Solution):
@@ -58,7 +57,6 @@ class FDM(Solution):
     # Flow Equations: symbolic
     # -------------------------------------------------------------------------
 
-    @_lru_cache(maxsize=None)
     def __calc_n_term(
         self,
         cell_id,
@@ -91,7 +89,6 @@ class FDM(Solution):
         dz = self.model.grid.z[cell_n_id] - self.model.grid.z[cell_id]
         return trans * ((cell_n_p - cell_p) - (self.model.fluid.g * dz))
 
-    @_lru_cache(maxsize=None)
     def __calc_b_term(
         self,
         cell_id,
-- 
2.43.0


From 8ede717c0d204d373bf25a6a147d84e2ed70f668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:33 +0000
Subject: [PATCH 13/39] fix: rebuild a cell's flow terms from the current
 settings each time

The terms of the first equation were kept in the model and shared by all its
solutions, so later wells, boundaries and rates were ignored.
---
 reservoirflow/solutions/numerical/fdm.py | 82 ++++++++++--------------
 1 file changed, 34 insertions(+), 48 deletions(-)

diff --git a/reservoirflow/solutions/numerical/fdm.py b/reservoirflow/solutions/numerical/fdm.py
index 53e3ced..f57645f 100644
--- a/reservoirflow/solutions/numerical/fdm.py
+++ b/reservoirflow/solutions/numerical/fdm.py
@@ -251,60 +251,46 @@ class FDM(Solution):
         # )
         cell_p = eval(f"sym.Symbol('p{cell_id}')")
 
-        if cell_id not in self.model.cells_terms:
-            assert (
-                cell_id in self.model.grid.cells_id
-            ), f"id is out of range {self.model.grid.cells_id}."
-            neighbors = self.model.grid.get_cell_neighbors(
-                id=cell_id, boundary=False, fmt="array"
-            )
-            boundaries = self.model.grid.get_cell_boundaries(id=cell_id, fmt="array")
-            # f_terms: flow terms, a_terms: accumulation terms
-            terms = {"f_terms": [], "a_term": 0}
-            T = self.model.get_cell_trans(cell_id, None, True)
-            if self.model.verbose:
-                print(f"[info] cell id: {cell_id}")
-                print(f"[info]    - Neighbors: {neighbors}")
-                print(f"[info]    - Boundaries: {boundaries}")
-
-            for id_n in neighbors:
-                n_term = self.__calc_n_term(cell_id, id_n, cell_p, T[id_n])
-                terms["f_terms"].append(n_term)
-                if self.model.verbose:
-                    print(f"[info] Neighbor terms: {n_term}")
-
-            for cell_b_id in boundaries:
-                b_term = self.__calc_b_term(cell_id, cell_b_id, cell_p, T[cell_b_id])
-                terms["f_terms"].append(b_term)
-                if self.model.verbose:
-                    print(f"[info] Boundary terms: {b_term}")
+        assert (
+            cell_id in self.model.grid.cells_id
+        ), f"id is out of range {self.model.grid.cells_id}."
+        neighbors = self.model.grid.get_cell_neighbors(
+            id=cell_id, boundary=False, fmt="array"
+        )
+        boundaries = self.model.grid.get_cell_boundaries(id=cell_id, fmt="array")
+        # f_terms: flow terms, a_terms: accumulation terms
+        terms = {"f_terms": [], "a_term": 0}
+        T = self.model.get_cell_trans(cell_id, None, True)
+        if self.model.verbose:
+            print(f"[info] cell id: {cell_id}")
+            print(f"[info]    - Neighbors: {neighbors}")
+            print(f"[info]    - Boundaries: {boundaries}")
 
-            if cell_id in self.model.wells.keys():
-                w_term = self.__calc_w_term(cell_id, cell_p)
-                terms["f_terms"].append(w_term)
-                if self.model.verbose:
-                    print(f"[info] Well terms: {w_term}")
+        for id_n in neighbors:
+            n_term = self.__calc_n_term(cell_id, id_n, cell_p, T[id_n])
+            terms["f_terms"].append(n_term)
+            if self.model.verbose:
+                print(f"[info] Neighbor terms: {n_term}")
 
-            terms["a_term"] = self.__calc_a_term(cell_id, cell_p)
+        for cell_b_id in boundaries:
+            b_term = self.__calc_b_term(cell_id, cell_b_id, cell_p, T[cell_b_id])
+            terms["f_terms"].append(b_term)
             if self.model.verbose:
-                print("[info] Accumulation term:", terms["a_term"])
+                print(f"[info] Boundary terms: {b_term}")
 
-            self.model.cells_terms[cell_id] = terms
+        if cell_id in self.model.wells.keys():
+            w_term = self.__calc_w_term(cell_id, cell_p)
+            terms["f_terms"].append(w_term)
             if self.model.verbose:
-                print("[info] terms:", terms)
+                print(f"[info] Well terms: {w_term}")
 
-        else:
-            terms = self.model.cells_terms[cell_id]
-            if (
-                cell_id in self.model.wells.keys()
-                and self.model.wells[cell_id]["constrain"] == "pwf"
-            ):
-                w_term = self.__calc_w_term(cell_id, cell_p)
-                if self.model.verbose:
-                    print(f"[info] Well terms (updated): {w_term}")
-                terms["f_terms"][-1] = w_term
-            if self.model.comp_type == "compressible":
-                terms["a_term"] = self.__calc_a_term(cell_id, cell_p)
+        terms["a_term"] = self.__calc_a_term(cell_id, cell_p)
+        if self.model.verbose:
+            print("[info] Accumulation term:", terms["a_term"])
+
+        self.model.cells_terms[cell_id] = terms
+        if self.model.verbose:
+            print("[info] terms:", terms)
 
         cell_eq = sym.Eq(sum(terms["f_terms"]), terms["a_term"])
         cell_eq = self.__simplify_eq(cell_eq)
-- 
2.43.0


From f465868af2fef536aaf55069d28159acf57acdc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:16:14 +0000
Subject: [PATCH 14/39] fix: every boundary setter records the condition it
 validated

set_boundary and set_all_boundaries left bdict alone, so what they set was
ignored; synonyms of 'pressure' were not recognised later; a refused dictionary
had already replaced the conditions and stayed shared with the caller.
---
 reservoirflow/models/black_oil.py | 64 +++++++++++++++++++++----------
 1 file changed, 43 insertions(+), 21 deletions(-)

diff --git a/reservoirflow/models/black_oil.py b/reservoirflow/models/black_oil.py
index 32da9b8..fd59be2 100644
--- a/reservoirflow/models/black_oil.py
+++ b/reservoirflow/models/black_oil.py
@@ -548,30 +548,53 @@ class BlackOil(Model):
         # ToDo
         # ----
         # - d is taken at x direction for gradient.
-        cond = cond.lower()
-        if cond in ["rate", "q"]:
+        cond = self.__check_boundary(cell_b_id, cond)
+        if cond == "rate":
             # newtest
             # self.rates[self.get_tstep(), cell_b_id] = v
             self.__set_rate(self.__get_tstep(), cell_b_id, v)
-        elif cond in ["pressure", "press", "p"]:
+        elif cond == "pressure":
             # newtest
             # self.pressures[self.get_tstep(), cell_b_id] = v
             self.__set_pressure(self.__get_tstep(), cell_b_id, v)
-        elif cond in ["gradient", "grad", "g"]:
-            ((cell_id, T),) = self.get_cell_trans(cell_b_id, None, False).items()
-            cell_n = self.grid.get_cell_neighbors(cell_b_id, None, False, "dict")
-            dir = [dir for dir in cell_n if cell_id in cell_n[dir]][0]
-            # newtest
-            # self.rates[self.get_tstep(), cell_b_id] = T * self.grid.d[dir][cell_id] * v
-            self.__set_rate(
-                self.__get_tstep(), cell_b_id, T * self.grid.d[dir][cell_id] * v
-            )
-        else:
-            raise ValueError(f"cond argument {cond} is unknown.")
+        elif cond == "gradient":
+            # cells at edges and corners have no neighbor inside the grid.
+            for cell_id, T in self.get_cell_trans(cell_b_id, None, False).items():
+                cell_n = self.grid.get_cell_neighbors(cell_b_id, None, False, "dict")
+                dir = [dir for dir in cell_n if cell_id in cell_n[dir]][0]
+                # newtest
+                # self.rates[self.get_tstep(), cell_b_id] = T * self.grid.d[dir][cell_id] * v
+                self.__set_rate(
+                    self.__get_tstep(), cell_b_id, T * self.grid.d[dir][cell_id] * v
+                )
+        if cell_b_id in self.bdict and self.bdict[cell_b_id][0] == "pressure":
+            self.bdict_update.remove(cell_b_id)
+        if cond == "pressure":
+            self.bdict_update.append(cell_b_id)
+        self.bdict[cell_b_id] = (cond, v)
 
         if self.verbose:
             print(f"[info] boundary in cell {cell_b_id} was set to constant {cond}.")
 
+    def __check_boundary(self, cell_b_id, cond):
+        """Checks a boundary cell and its condition.
+
+        Returns
+        -------
+        str
+            condition as str in ["rate", "pressure", "gradient"].
+        """
+        boundaries = self.grid.get_boundaries("id", "set")
+        assert cell_b_id in boundaries, f"cell {cell_b_id} is not a boundary cell."
+        if cond.lower() in ["rate", "q"]:
+            return "rate"
+        elif cond.lower() in ["pressure", "press", "p"]:
+            return "pressure"
+        elif cond.lower() in ["gradient", "grad", "g"]:
+            return "gradient"
+        else:
+            raise ValueError(f"cond argument {cond} is unknown.")
+
     def set_boundaries(self, bdict: dict):
         """Set boundary conditions using a dictionary.
 
@@ -582,16 +605,15 @@ class BlackOil(Model):
             id and values are a tuple of cond and value (e.g.
             {0: ("pressure", 4000), 1: ("rate", 0)})
         """
-        self.bdict = bdict
-        boundaries = self.grid.get_boundaries("id", "set")
         for cell_id in bdict:
-            assert cell_id in boundaries, f"cell {cell_id} is not a boundary cell."
             cond, v = bdict[cell_id]
-            self.set_boundary(cell_id, cond, v)
+            self.__check_boundary(cell_id, cond)
 
-        self.bdict_update = [
-            id_b for id_b in self.bdict.keys() if self.bdict[id_b][0] == "pressure"
-        ]
+        self.bdict = {}
+        self.bdict_update = []
+        for cell_id in bdict:
+            cond, v = bdict[cell_id]
+            self.set_boundary(cell_id, cond, v)
 
     def set_all_boundaries(self, cond, v):
         """Set the same boundary condition in all boundaries.
-- 
2.43.0


From bdb2f6b75084131530b6b77f646d7bce976c53d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:16:14 +0000
Subject: [PATCH 15/39] fix: models on one grid do not share their initial
 rates

---
 reservoirflow/models/black_oil.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reservoirflow/models/black_oil.py b/reservoirflow/models/black_oil.py
index fd59be2..e5b08b8 100644
--- a/reservoirflow/models/black_oil.py
+++ b/reservoirflow/models/black_oil.py
@@ -195,7 +195,7 @@ class BlackOil(Model):
     def __get_arrays(self) -> tuple:
         ones = self.grid.get_ones(True, False, False)[np.newaxis]
         pressures = ones * np.nan
-        rates = self.grid.get_zeros(True, False, False)[np.newaxis]
+        rates = self.grid.get_zeros(True, False, False)[np.newaxis].copy()
         return pressures, rates
 
     def get_init_arrays(self) -> tuple:
-- 
2.43.0


From 0909799ab99fa9ff6b8b5ee885b9bf1d6fa34506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:16:14 +0000
Subject: [PATCH 16/39] fix: one time per level whatever the step length (float
 steps gave one too many)

---
 reservoirflow/models/black_oil.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reservoirflow/models/black_oil.py b/reservoirflow/models/black_oil.py
index e5b08b8..939ddbe 100644
--- a/reservoirflow/models/black_oil.py
+++ b/reservoirflow/models/black_oil.py
@@ -794,7 +794,7 @@ class BlackOil(Model):
         return df
 
     def __get_time_vector(self):
-        return np.arange(0, (self.__get_tstep() + 1) * self.dt, self.dt)
+        return np.arange(self.__get_tstep() + 1) * self.dt
 
     def __update_time_scaler(self):
         time = self.__get_time_vector()
-- 
2.43.0


From 21e499ad315cadd0b01428fb52f6dbc66adf44b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:16:14 +0000
Subject: [PATCH 17/39] fix: storage follows later changes of porosity,
 compressibility, fluid and units

---
 reservoirflow/models/black_oil.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/reservoirflow/models/black_oil.py b/reservoirflow/models/black_oil.py
index 939ddbe..ac0d095 100644
--- a/reservoirflow/models/black_oil.py
+++ b/reservoirflow/models/black_oil.py
@@ -97,7 +97,6 @@ class BlackOil(Model):
 
         self.__initialize__(pi, start_date, well)
         self.__calc_comp()
-        self.__calc_RHS()
         self.bdict = {}
         self.bdict_update = []
 
@@ -637,18 +636,18 @@ class BlackOil(Model):
     # Flow Equations:
     # -------------------------------------------------------------------------
 
-    def __calc_RHS(self):
-        """Calculates flow equation for RHS."""
+    @property
+    def RHS(self):
+        """Flow equation RHS based on the current properties."""
         if self.comp_type == "incompressible":
             n = self.grid.get_n(True)
-            self.RHS = np.zeros(n, dtype=self.dtype)
+            return np.zeros(n, dtype=self.dtype)
         elif self.comp_type == "compressible":
             RHS_n = self.grid.V * self.grid.phi * self.comp
             RHS_d = self.factors["volume conversion"] * self.fluid.B * self.dt
-            self.RHS = RHS_n / RHS_d
+            return RHS_n / RHS_d
         else:
             raise ValueError("compressibility type is unknown.")
-        return self.RHS
 
     def get_alpha(
         self,
-- 
2.43.0


From 2681f23f7e62b5cb973f8f7ce53f3a7e96c36db1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:16:14 +0000
Subject: [PATCH 18/39] fix: conditions set after compiling reach the compiled
 solutions' first level

---
 reservoirflow/models/black_oil.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/reservoirflow/models/black_oil.py b/reservoirflow/models/black_oil.py
index ac0d095..895efd9 100644
--- a/reservoirflow/models/black_oil.py
+++ b/reservoirflow/models/black_oil.py
@@ -226,6 +226,8 @@ class BlackOil(Model):
     def __set_pressure(self, tstep, cell_id, value):
         if tstep == 0:
             self.init_pressures[tstep, cell_id] = value
+            for solution in self.solutions.values():
+                solution.pressures[tstep, cell_id] = value
         else:
             assert self.solution is not None, "Model was not compiled."
             if tstep is None:
@@ -246,6 +248,8 @@ class BlackOil(Model):
     def __set_rate(self, tstep, cell_id, value):
         if tstep == 0:
             self.init_rates[tstep, cell_id] = value
+            for solution in self.solutions.values():
+                solution.rates[tstep, cell_id] = value
         else:
             assert self.solution is not None, "Model was not compiled."
             if tstep is None:
-- 
2.43.0


From 5ff68eba0847b6ff087ee3f45e711903ecac2a8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:22:31 +0000
Subject: [PATCH 19/39] fix: a gradient condition adds its flow rate to the
 cell equation, not the gradient

---
 reservoirflow/solutions/numerical/fdm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reservoirflow/solutions/numerical/fdm.py b/reservoirflow/solutions/numerical/fdm.py
index f57645f..94e4e21 100644
--- a/reservoirflow/solutions/numerical/fdm.py
+++ b/reservoirflow/solutions/numerical/fdm.py
@@ -134,7 +134,7 @@ class FDM(Solution):
                 dz = self.model.grid.z[cell_b_id] - self.model.grid.z[cell_id]
                 return trans * 2 * ((v - cell_p) - (self.model.fluid.g * dz))
             else:  # elif cond in ["rate", "q", "gradient", "grad", "g"]:
-                return v
+                return self.rates[self.tstep, cell_b_id]
         else:
             return 0.0
 
-- 
2.43.0


From 48f9a5ac6fb35a14b660f1fc64dd9b08e2d55756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:02 +0000
Subject: [PATCH 20/39] fix: cell equations collect unknowns and known values
 exactly

---
 reservoirflow/solutions/numerical/fdm.py | 19 ++++++-------------
 1 file changed, 6 insertions(+), 13 deletions(-)

diff --git a/reservoirflow/solutions/numerical/fdm.py b/reservoirflow/solutions/numerical/fdm.py
index 94e4e21..f9a0f5d 100644
--- a/reservoirflow/solutions/numerical/fdm.py
+++ b/reservoirflow/solutions/numerical/fdm.py
@@ -207,14 +207,6 @@ class FDM(Solution):
             except:
                 raise ValueError("Initial pressure (pi) must be specified")
 
-    def __simplify_eq(self, cell_eq):
-        if (
-            cell_eq.lhs.as_coefficients_dict()[1] != 0.0
-            or cell_eq.rhs.as_coefficients_dict()[1] != 0.0
-        ):
-            cell_eq = cell_eq.simplify()
-        return cell_eq
-
     def get_cell_eq(self, cell_id):
         """Return cell equation.
 
@@ -292,14 +284,15 @@ class FDM(Solution):
         if self.model.verbose:
             print("[info] terms:", terms)
 
-        cell_eq = sym.Eq(sum(terms["f_terms"]), terms["a_term"])
-        cell_eq = self.__simplify_eq(cell_eq)
-        cell_eq_lhs = cell_eq.lhs.as_coefficients_dict()
+        # unknowns on the left, known values on the right:
+        cell_eq = sym.expand(sum(terms["f_terms"]) - terms["a_term"])
+        cell_eq_lhs = cell_eq.as_coefficients_dict()
+        cell_eq_rhs = -cell_eq_lhs.pop(1, 0)
 
         if self.model.verbose:
-            print(f"[info] Flow equation {cell_id}:", cell_eq)
+            print(f"[info] Flow equation {cell_id}:", cell_eq_lhs, cell_eq_rhs)
 
-        return cell_eq_lhs, cell_eq.rhs
+        return cell_eq_lhs, cell_eq_rhs
 
     def get_cells_eq(self, threading=False):
         """Return flow equations for all internal cells."""
-- 
2.43.0


From 89e2bedcd4b01094b34662df41ad6d082ecaa1be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:02 +0000
Subject: [PATCH 21/39] fix: symbolic matrices start empty at every step

---
 reservoirflow/solutions/numerical/fdm.py | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/reservoirflow/solutions/numerical/fdm.py b/reservoirflow/solutions/numerical/fdm.py
index f9a0f5d..a94d5b0 100644
--- a/reservoirflow/solutions/numerical/fdm.py
+++ b/reservoirflow/solutions/numerical/fdm.py
@@ -369,17 +369,13 @@ class FDM(Solution):
         # - Update only required cells.
         self.cells_eq = self.get_cells_eq(threading)
 
-        if self.tstep == 0 or not hasattr(self, "A") or not hasattr(self, "d"):
-            # second and third conditions allow switching vectorize
-            # True/False after timestep=0.
-            if self.sparse:
-                self.d = ss.lil_matrix((self.model.n, 1), dtype=self.model.dtype)
-                self.A = ss.lil_matrix(
-                    (self.model.n, self.model.n), dtype=self.model.dtype
-                )
-            else:
-                self.d = np.zeros((self.model.n, 1), dtype=self.model.dtype)
-                self.A = np.zeros((self.model.n, self.model.n), dtype=self.model.dtype)
+        # entries of a previous timestep must not remain.
+        if self.sparse:
+            self.d = ss.lil_matrix((self.model.n, 1), dtype=self.model.dtype)
+            self.A = ss.lil_matrix((self.model.n, self.model.n), dtype=self.model.dtype)
+        else:
+            self.d = np.zeros((self.model.n, 1), dtype=self.model.dtype)
+            self.A = np.zeros((self.model.n, self.model.n), dtype=self.model.dtype)
 
         if threading:
             from concurrent.futures import ThreadPoolExecutor
-- 
2.43.0


From 1557ccbf5da1c39a0c320091fab52cf1c94293cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:02 +0000
Subject: [PATCH 22/39] fix: threaded assembly raises workers' errors and works
 for a single cell

---
 reservoirflow/solutions/numerical/fdm.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/reservoirflow/solutions/numerical/fdm.py b/reservoirflow/solutions/numerical/fdm.py
index a94d5b0..0a196a6 100644
--- a/reservoirflow/solutions/numerical/fdm.py
+++ b/reservoirflow/solutions/numerical/fdm.py
@@ -297,7 +297,7 @@ class FDM(Solution):
     def get_cells_eq(self, threading=False):
         """Return flow equations for all internal cells."""
         cells_eq = {}
-        n_threads = self.model.n // 2
+        n_threads = max(1, self.model.n // 2)
         if threading:
             from concurrent.futures import ThreadPoolExecutor
 
@@ -383,7 +383,8 @@ class FDM(Solution):
             with ThreadPoolExecutor(self.model.n) as executor:
                 # from concurrent.futures import ProcessPoolExecutor
                 # with ProcessPoolExecutor(2) as executor:
-                executor.map(self.__update_matrices_symb, self.model.cells_id)
+                # list is needed to raise exceptions of workers.
+                list(executor.map(self.__update_matrices_symb, self.model.cells_id))
         else:
             for cell_id in self.model.cells_id:
                 self.__update_matrices_symb(cell_id)
-- 
2.43.0


From 0c752d76a72f4717a7a441444a8f57c646304347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:29 +0000
Subject: [PATCH 23/39] fix: vectorised assembly matches the cell equations for
 every well, boundary, grid and step

---
 reservoirflow/solutions/numerical/fdm.py | 83 ++++++------------------
 1 file changed, 20 insertions(+), 63 deletions(-)

diff --git a/reservoirflow/solutions/numerical/fdm.py b/reservoirflow/solutions/numerical/fdm.py
index 0a196a6..af67164 100644
--- a/reservoirflow/solutions/numerical/fdm.py
+++ b/reservoirflow/solutions/numerical/fdm.py
@@ -7,7 +7,6 @@ Finite Difference Method (FDM) class.
 
 import time
 import warnings
-from collections import defaultdict
 
 
 import numpy as np
@@ -478,17 +477,11 @@ class FDM(Solution):
         # ----
         # - T for different geometries is still not ready.
 
-        # all 1D in x direction.
         z = self.model.grid.z[self.model.grid.cells_id]
         if not np.all(z == z[0]):
-            z_l = np.append(z[1:], np.nan)
-            z_u = np.append(np.nan, z[:-1])
-            dz_l = self.model.fluid.g * np.nan_to_num(z_l - z)
-            dz_u = self.model.fluid.g * np.nan_to_num(z_u - z)
-            # T = self.T["x"][self.model.grid.cells_id]
-            # T = np.diag(self.get_cells_T(True, False), 1)[self.model.cells_i]
-            T = self.model.get_cells_trans_diag(True, 1)[self.model.cells_id]
-            v = T * dz_l + T * dz_u
+            T = self.model.get_cells_trans(False, self.sparse, True)
+            T_sum = np.asarray(T.sum(axis=1)).flatten()
+            v = self.model.fluid.g * (T @ z - T_sum * z)
             self.d_ += v.reshape(-1, 1)
 
     def get_matrices_vect(self, threading=False):
@@ -506,62 +499,26 @@ class FDM(Solution):
         _type_
             _description_
         """
-        update_z = False
-        if self.tstep == 0 or not hasattr(self, "A_"):
-            # second condition allow switching vectorize True/False after
-            # timestep=0.
-            self.resolve = defaultdict(lambda: False)
-            self.__init_A()
-            self.bdict_v = {}
-            for id_b in self.model.bdict_update:
-                ((id, T),) = self.model.get_cell_trans(id_b, None, False).items()
-                p = eval(f"sym.Symbol('p{id}')")
-                b_term = self.__calc_b_term(id, id_b, p, T)
-                v0, v1 = b_term.as_coefficients_dict().values()
-                self.bdict_v[id_b] = (v0, v1, id)
-                self.A_[self.model.cells_i_dict[id], self.model.cells_i_dict[id]] += v1
-                # self.A_[self.model.cells_i_dict[id], self.model.cells_i_dict[id]] -= T * 2
-
+        # properties, wells and boundaries may change between timesteps.
+        self.__init_A()
         self.__init_d()
 
         for id in self.model.wells.keys():
-            if self.model.wells[id]["constrain"] == "q":
-                w_term = self.__calc_w_term(id, self.pressures[self.tstep, id])
-                self.d_[self.model.cells_i_dict[id], 0] -= w_term
-                update_z = True
-            elif self.model.wells[id]["constrain"] == "pwf":
-                p = eval(f"sym.Symbol('p{id}')")
-                w_term = self.__calc_w_term(id, p)
-                v = w_term.as_coefficients_dict().values()
-                if len(v) == 1:
-                    ((v0),) = v
-                    v1 = 0
-                elif len(v) == 2:
-                    v0, v1 = v
-                else:
-                    raise ValueError("unknown length")
-                self.d_[self.model.cells_i_dict[id], 0] -= v0
-                if not self.resolve[id]:
-                    self.A_[
-                        self.model.cells_i_dict[id], self.model.cells_i_dict[id]
-                    ] += v1
-                    self.resolve[id] = True
-            else:
-                pass  # no constrain
+            i = self.model.cells_i_dict[id]
+            w_term = self.__calc_w_term(id, 0)
+            self.d_[i, 0] -= w_term
+            if self.model.wells[id]["constrain"] != "q":
+                self.A_[i, i] += self.__calc_w_term(id, 1) - w_term
 
         for id_b in self.model.bdict.keys():
-            id = self.model.grid.get_cell_neighbors(id_b, None, False, "list")
-            if len(id) > 0:
-                id = id[0]
+            # cells at edges and corners have no neighbor inside the grid.
+            for id, T in self.model.get_cell_trans(id_b, None, False).items():
+                i = self.model.cells_i_dict[id]
+                self.d_[i, 0] -= self.__calc_b_term(id, id_b, 0, T)
                 if self.model.bdict[id_b][0] == "pressure":
-                    self.d_[self.model.cells_i_dict[id], 0] -= self.bdict_v[id_b][0]
-                else:  # elif self.model.bdict[id_b][0] in ["gradient", "rate"]:
-                    self.d_[self.model.cells_i_dict[id], 0] -= self.rates[
-                        self.tstep, id_b
-                    ]
+                    self.A_[i, i] -= T * 2
 
-        if update_z:
-            self.__update_z()
+        self.__update_z()
 
         return self.A_, self.d_
 
@@ -643,10 +600,10 @@ class FDM(Solution):
 
     def __update_boundaries(self):
         for id_b in self.model.bdict_update:
-            ((id_n, T),) = self.model.get_cell_trans(id_b, None, False).items()
-            p_n = self.pressures[self.tstep, id_n]
-            b_terms = self.__calc_b_term(id_n, id_b, p_n, T)
-            self.rates[self.tstep, id_b] = b_terms
+            for id_n, T in self.model.get_cell_trans(id_b, None, False).items():
+                p_n = self.pressures[self.tstep, id_n]
+                b_terms = self.__calc_b_term(id_n, id_b, p_n, T)
+                self.rates[self.tstep, id_b] = b_terms
 
     def __print_arrays(self, sparse):
         if sparse:
-- 
2.43.0


From b65d879192a75678ae12ae13c300744e578f5cf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:24 +0000
Subject: [PATCH 24/39] fix: wells switch back to their rate, and a re-solved
 step keeps one row and the chosen solver

---
 reservoirflow/solutions/numerical/fdm.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/reservoirflow/solutions/numerical/fdm.py b/reservoirflow/solutions/numerical/fdm.py
index af67164..51c797b 100644
--- a/reservoirflow/solutions/numerical/fdm.py
+++ b/reservoirflow/solutions/numerical/fdm.py
@@ -51,6 +51,8 @@ class FDM(Solution):
         # newtest
         self.ds = self.model.grid.get_zeros(False, False, False)[np.newaxis]
         self.As = np.zeros((1, self.model.n * self.model.n), dtype=self.model.dtype)
+        # last timestep when a well (key) was switched from q to pwf:
+        self.switched = {}
 
     # -------------------------------------------------------------------------
     # Flow Equations: symbolic
@@ -572,14 +574,22 @@ class FDM(Solution):
             else:
                 pwf_est = self.model.wells[id]["pwf"]
 
-            if pwf_est > self.model.wells[id]["pwf_sp"]:
+            # a well switched to pwf in this step is not switched back.
+            switched = self.switched.get(id) == self.tstep
+
+            if pwf_est > self.model.wells[id]["pwf_sp"] and not switched:
+                if self.model.wells[id]["constrain"] != "q":
+                    resolve = True
+
                 self.model.wells[id]["constrain"] = "q"
+                self.model.wells[id]["q"] = self.model.wells[id]["q_sp"]
             else:
                 if (
                     pwf_est < self.model.wells[id]["pwf_sp"]
-                    and self.model.wells[id]["q"] == self.model.wells[id]["q_sp"]
+                    and self.model.wells[id]["constrain"] == "q"
                 ):
                     resolve = True
+                    self.switched[id] = self.tstep
 
                 self.model.wells[id]["constrain"] = "pwf"
                 pwf_est = self.model.wells[id]["pwf_sp"]
@@ -700,7 +710,9 @@ class FDM(Solution):
                 self.rates = self.rates[: self.tstep]
                 self.pressures = self.pressures[: self.tstep]
                 self.tstep -= 1
-                self.solve(threading, vectorize, False, True, False)
+                self.As = self.As[: self.tstep + 1]
+                self.ds = self.ds[: self.tstep + 1]
+                self.solve(threading, vectorize, False, True, False, isolver)
                 if self.model.verbose:
                     print(f"[info] Time step {self.tstep} was resolved.")
 
-- 
2.43.0


From 226d3cc90e32ebb84c9fcd97ccd1158f568f81f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:24 +0000
Subject: [PATCH 25/39] fix: the number of steps counts single solved steps and
 only completed ones

---
 reservoirflow/solutions/numerical/fdm.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/reservoirflow/solutions/numerical/fdm.py b/reservoirflow/solutions/numerical/fdm.py
index 51c797b..0006cb6 100644
--- a/reservoirflow/solutions/numerical/fdm.py
+++ b/reservoirflow/solutions/numerical/fdm.py
@@ -696,6 +696,7 @@ class FDM(Solution):
 
         if update:
             self.tstep += 1
+            self.nsteps = self.tstep + 1
             self.pressures = np.vstack([self.pressures, self.pressures[-1]])
             self.pressures[self.tstep, self.model.grid.cells_id] = pressures
             self.rates = np.vstack([self.rates, self.rates[-1]])
@@ -710,6 +711,7 @@ class FDM(Solution):
                 self.rates = self.rates[: self.tstep]
                 self.pressures = self.pressures[: self.tstep]
                 self.tstep -= 1
+                self.nsteps = self.tstep + 1
                 self.As = self.As[: self.tstep + 1]
                 self.ds = self.ds[: self.tstep + 1]
                 self.solve(threading, vectorize, False, True, False, isolver)
@@ -758,7 +760,6 @@ class FDM(Solution):
         - SciPy: `Iterative Solvers <https://scipy-lectures.org/advanced/scipy_sparse/solvers.html#iterative-solvers>`_.
         """
         start_time = time.time()
-        self.nsteps += nsteps
         self.run_ctime = 0
         if self.model.verbose:
             self.model.verbose = False
-- 
2.43.0


From f154947181e6c2ce64d7eeacf72c0480ae93d63b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:17 +0000
Subject: [PATCH 26/39] fix: the verbose setting suspended by a run is restored
 after an error

---
 reservoirflow/solutions/numerical/fdm.py | 27 ++++++++++++------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/reservoirflow/solutions/numerical/fdm.py b/reservoirflow/solutions/numerical/fdm.py
index 0006cb6..2854053 100644
--- a/reservoirflow/solutions/numerical/fdm.py
+++ b/reservoirflow/solutions/numerical/fdm.py
@@ -775,16 +775,20 @@ class FDM(Solution):
             leave=True,
         )
 
-        for step in pbar:
-            pbar.set_description(f"[step] {step}")
-            self.solve(
-                threading,
-                vectorize,
-                check_MB,
-                True,
-                print_arrays,
-                isolver,
-            )
+        try:
+            for step in pbar:
+                pbar.set_description(f"[step] {step}")
+                self.solve(
+                    threading,
+                    vectorize,
+                    check_MB,
+                    True,
+                    print_arrays,
+                    isolver,
+                )
+        finally:
+            if verbose_restore:
+                self.model.verbose = True
 
         self.run_ctime = round(time.time() - start_time, 2)
         self.ctime += self.run_ctime
@@ -795,9 +799,6 @@ class FDM(Solution):
         if check_MB:
             print(f"[info] Material Balance Error: {self.error}.")
 
-        if verbose_restore:
-            self.model.verbose = True
-
     # -------------------------------------------------------------------------
     # Material Balance:
     # -------------------------------------------------------------------------
-- 
2.43.0


From 98ebd6b4d7548e1ca4c062252e5a5cc0d30b6c6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:17 +0000
Subject: [PATCH 27/39] fix: the analytical solution is evaluated from the
 initial data, also after a run

---
 reservoirflow/solutions/analytical/d1p1.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/reservoirflow/solutions/analytical/d1p1.py b/reservoirflow/solutions/analytical/d1p1.py
index 804a591..942dfc5 100644
--- a/reservoirflow/solutions/analytical/d1p1.py
+++ b/reservoirflow/solutions/analytical/d1p1.py
@@ -40,7 +40,7 @@ class D1P1(Solution):
         tD_values, xD_values = np.meshgrid(tD, xD, indexing="ij")
 
         # Dependent variable: p
-        p = self.pressures
+        p, _ = self.model.get_init_arrays()
         input_range = [0, 1]
         input_scaler = scalers.MinMax(input_range).fit(p, axis=None)
         pDi = input_scaler.transform(self.model.pi)
@@ -149,7 +149,7 @@ class D1P1(Solution):
         tD_values, xD_values = np.meshgrid(tD, xD, indexing="ij")
 
         # Dependent variable: p
-        p = self.pressures
+        p, _ = self.model.get_init_arrays()
         input_range = [0, 1]
         input_scaler = scalers.MinMax(input_range).fit(p, axis=None)
         pDi = input_scaler.transform(self.model.pi)
-- 
2.43.0


From 911d51de3c81f747c201953ad9fd177ec923e739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:33 +0000
Subject: [PATCH 28/39] fix: the analytical run restores the verbose setting
 after an error

---
 reservoirflow/solutions/analytical/d1p1.py | 183 +++++++++++----------
 1 file changed, 92 insertions(+), 91 deletions(-)

diff --git a/reservoirflow/solutions/analytical/d1p1.py b/reservoirflow/solutions/analytical/d1p1.py
index 942dfc5..cee8b9a 100644
--- a/reservoirflow/solutions/analytical/d1p1.py
+++ b/reservoirflow/solutions/analytical/d1p1.py
@@ -107,102 +107,103 @@ class D1P1(Solution):
         else:
             verbose_restore = False
 
-        print(f"[info] Simulation run started: {nsteps} timesteps.")
+        try:
+            print(f"[info] Simulation run started: {nsteps} timesteps.")
+
+            N = 1000
+            N_range = np.arange(1, N + 1)
+            pbar = tqdm(
+                N_range,
+                unit="steps",
+                colour="green",
+                position=0,
+                leave=True,
+            )
 
-        N = 1000
-        N_range = np.arange(1, N + 1)
-        pbar = tqdm(
-            N_range,
-            unit="steps",
-            colour="green",
-            position=0,
-            leave=True,
-        )
-
-        scale=False
-        output_range=[-1, 1]
-        clean=True
+            scale=False
+            output_range=[-1, 1]
+            clean=True
 
         
-        # for step in pbar:
-        #     pbar.set_description(f"[step] {step}")
-            # self.solve(
-            #     threading,
-            #     vectorize,
-            #     check_MB,
-            #     True,
-            #     print_arrays,
-            #     isolver,
-            # )
-            # self.pressures = self.calc_solution(
-            #     N=1000,
-            #     scale=False,
-            #     output_range=[-1, 1],
-            #     clean=True,
-            #     )
+            # for step in pbar:
+            #     pbar.set_description(f"[step] {step}")
+                # self.solve(
+                #     threading,
+                #     vectorize,
+                #     check_MB,
+                #     True,
+                #     print_arrays,
+                #     isolver,
+                # )
+                # self.pressures = self.calc_solution(
+                #     N=1000,
+                #     scale=False,
+                #     output_range=[-1, 1],
+                #     clean=True,
+                #     )
             
-        # Independent variables: t, x
-        t, x = self.model.get_domain(scale=False, boundary=True)
-        L = x.max() - x.min()
-        xD = (x - x.min()) / L
-        tD = self.model.get_alpha() * t / (L**2)
-        tD_values, xD_values = np.meshgrid(tD, xD, indexing="ij")
-
-        # Dependent variable: p
-        p, _ = self.model.get_init_arrays()
-        input_range = [0, 1]
-        input_scaler = scalers.MinMax(input_range).fit(p, axis=None)
-        pDi = input_scaler.transform(self.model.pi)
-        pD0 = input_scaler.transform(p[0, 0])
-        pDn = input_scaler.transform(p[0, -1])
-
-        # Analytical solution:
-        pDi0 = pDi - pD0
-        pDin = pDn - pDi
-        xDpi = np.pi * xD_values
-        tDpi = -np.pi ** 2 * tD_values
-        pDsum = np.zeros_like(xD_values, dtype="double")
+            # Independent variables: t, x
+            t, x = self.model.get_domain(scale=False, boundary=True)
+            L = x.max() - x.min()
+            xD = (x - x.min()) / L
+            tD = self.model.get_alpha() * t / (L**2)
+            tD_values, xD_values = np.meshgrid(tD, xD, indexing="ij")
+
+            # Dependent variable: p
+            p, _ = self.model.get_init_arrays()
+            input_range = [0, 1]
+            input_scaler = scalers.MinMax(input_range).fit(p, axis=None)
+            pDi = input_scaler.transform(self.model.pi)
+            pD0 = input_scaler.transform(p[0, 0])
+            pDn = input_scaler.transform(p[0, -1])
+
+            # Analytical solution:
+            pDi0 = pDi - pD0
+            pDin = pDn - pDi
+            xDpi = np.pi * xD_values
+            tDpi = -np.pi ** 2 * tD_values
+            pDsum = np.zeros_like(xD_values, dtype="double")
         
         
-        for n in pbar:
-            pbar.set_description(f"[step] {n}")
-            pDsum += (
-                (pDi0 / n + pDin * ((-1) ** n) / n)
-                * np.sin(n*xDpi)
-                * np.exp((n**2) * tDpi)
-            )
-        pD = pD0 + (pDn - pD0) * xD_values + 2 / np.pi * pDsum
+            for n in pbar:
+                pbar.set_description(f"[step] {n}")
+                pDsum += (
+                    (pDi0 / n + pDin * ((-1) ** n) / n)
+                    * np.sin(n*xDpi)
+                    * np.exp((n**2) * tDpi)
+                )
+            pD = pD0 + (pDn - pD0) * xD_values + 2 / np.pi * pDsum
         
-        # Remove values out of range:
-        if clean:
-            pD[pD < input_range[0]] = input_range[0]
-            pD[pD > input_range[1]] = input_range[1]
-
-        shape = self.model.get_shape(True)
-        t, x = self.model.get_domain(scale=scale, boundary=True)
-        t_values, x_values = np.meshgrid(t, x, indexing="ij")
-        X = np.stack((t_values, x_values), axis=-1).reshape(*shape, 2)
-
-        if scale:
-            output_scaler = scalers.MinMax(output_range, input_range)
-            p = output_scaler.transform(pD)
-            # xD_values = output_scaler.transform(xD_values)
-            # X = np.stack((tD_values, xD_values), axis=-1).reshape(*shape, 2)
-        else:
-            p = input_scaler.inverse_transform(pD)
-            # t_values, x_values = np.meshgrid(t, x, indexing='ij')
-            # X = np.stack((t_values, x_values), axis=-1).reshape(*shape, 2)
+            # Remove values out of range:
+            if clean:
+                pD[pD < input_range[0]] = input_range[0]
+                pD[pD > input_range[1]] = input_range[1]
+
+            shape = self.model.get_shape(True)
+            t, x = self.model.get_domain(scale=scale, boundary=True)
+            t_values, x_values = np.meshgrid(t, x, indexing="ij")
+            X = np.stack((t_values, x_values), axis=-1).reshape(*shape, 2)
+
+            if scale:
+                output_scaler = scalers.MinMax(output_range, input_range)
+                p = output_scaler.transform(pD)
+                # xD_values = output_scaler.transform(xD_values)
+                # X = np.stack((tD_values, xD_values), axis=-1).reshape(*shape, 2)
+            else:
+                p = input_scaler.inverse_transform(pD)
+                # t_values, x_values = np.meshgrid(t, x, indexing='ij')
+                # X = np.stack((t_values, x_values), axis=-1).reshape(*shape, 2)
             
-        self.pressures = p
-
-        self.run_ctime = round(time.time() - start_time, 2)
-        self.ctime += self.run_ctime
-        print(
-            f"[info] Simulation run of {nsteps} steps",
-            f"finished in {self.run_ctime} seconds.",
-        )
-        # if check_MB:
-            # print(f"[info] Material Balance Error: {self.error}.")
-
-        if verbose_restore:
-            self.model.verbose = True
+            self.pressures = p
+
+            self.run_ctime = round(time.time() - start_time, 2)
+            self.ctime += self.run_ctime
+            print(
+                f"[info] Simulation run of {nsteps} steps",
+                f"finished in {self.run_ctime} seconds.",
+            )
+            # if check_MB:
+                # print(f"[info] Material Balance Error: {self.error}.")
+        finally:
+            if verbose_restore:
+                self.model.verbose = True
-- 
2.43.0


From 8cfa725d94d93d5c47e140a95205a3e9f54fc84d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:41 +0000
Subject: [PATCH 29/39] fix: well objects accept zero values

---
 reservoirflow/wells/single_cell.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/reservoirflow/wells/single_cell.py b/reservoirflow/wells/single_cell.py
index d512343..423de26 100644
--- a/reservoirflow/wells/single_cell.py
+++ b/reservoirflow/wells/single_cell.py
@@ -31,13 +31,13 @@ class SingleCell(Well):
         self.constrain = constrain
 
     def set_props(self, cell_id=None, q=None, s=None, r=None, constrain=None):
-        if cell_id:
+        if cell_id is not None:
             self.set_cell_id(cell_id)
-        if q:
+        if q is not None:
             self.set_q(q)
-        if s:
+        if s is not None:
             self.set_s(s)
-        if r:
+        if r is not None:
             self.set_r(r)
         self.set_constrain(constrain)
 
-- 
2.43.0


From 1546d707486ea8aa4a1889052455ad8c529ed213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:41 +0000
Subject: [PATCH 30/39] fix: well objects are read instead of shared, and well
 pressures have one value per level

---
 reservoirflow/models/black_oil.py | 63 ++++++++++++++++---------------
 1 file changed, 32 insertions(+), 31 deletions(-)

diff --git a/reservoirflow/models/black_oil.py b/reservoirflow/models/black_oil.py
index 895efd9..72fff26 100644
--- a/reservoirflow/models/black_oil.py
+++ b/reservoirflow/models/black_oil.py
@@ -484,34 +484,32 @@ class BlackOil(Model):
             assert (
                 cell_id in self.grid.cells_id
             ), "a well must be placed within the reservoir"
-            self.wells[cell_id] = vars(well)
-        else:
-            assert cell_id is not None, "id must be defined"
-            assert (
-                cell_id in self.grid.cells_id
-            ), "a well must be placed within the reservoir"
-            if cell_id not in self.wells:
-                self.wells[cell_id] = {}
-            if q is not None:
-                self.wells[cell_id]["q"] = q
-                self.wells[cell_id]["q_sp"] = q
-                self.wells[cell_id]["constrain"] = "q"
-            if pwf is not None:
-                self.wells[cell_id]["pwf"] = pwf
-                self.wells[cell_id]["pwf_sp"] = pwf
-                if "q" not in self.wells[cell_id].keys():
-                    self.wells[cell_id]["constrain"] = "pwf"
-                # newtest
-                # self.w_pressures[cell_id].append(self.pressures[self.get_tstep(), cell_id])
-                self.w_pressures[cell_id].append(
-                    self.__get_pressure(self.__get_tstep(), cell_id)
-                )
-            if "constrain" not in self.wells[cell_id].keys():
-                self.wells[cell_id]["constrain"] = None
-            if r is not None:
-                self.wells[cell_id]["r"] = r
-            if s is not None:
-                self.wells[cell_id]["s"] = s
+            q, pwf, r, s = [getattr(well, v, None) for v in ["q", "pwf", "r", "s"]]
+
+        assert cell_id is not None, "id must be defined"
+        assert (
+            cell_id in self.grid.cells_id
+        ), "a well must be placed within the reservoir"
+        if cell_id not in self.wells:
+            self.wells[cell_id] = {}
+        if q is not None:
+            self.wells[cell_id]["q"] = q
+            self.wells[cell_id]["q_sp"] = q
+            self.wells[cell_id]["constrain"] = "q"
+        if pwf is not None:
+            self.wells[cell_id]["pwf"] = pwf
+            self.wells[cell_id]["pwf_sp"] = pwf
+            if "q" not in self.wells[cell_id].keys():
+                self.wells[cell_id]["constrain"] = "pwf"
+            # newtest
+            # self.w_pressures[cell_id].append(self.pressures[self.get_tstep(), cell_id])
+            self.__fill_w_pressures(cell_id)
+        if "constrain" not in self.wells[cell_id].keys():
+            self.wells[cell_id]["constrain"] = None
+        if r is not None:
+            self.wells[cell_id]["r"] = r
+        if s is not None:
+            self.wells[cell_id]["s"] = s
 
         self.wells[cell_id]["r_eq"] = self.__calc_well_r_eq(cell_id)
         self.wells[cell_id]["G"] = self.__calc_well_G(cell_id)
@@ -520,13 +518,16 @@ class BlackOil(Model):
             self.wells[cell_id]["pwf_sp"] = 0
             # newtest
             # self.w_pressures[cell_id].append(self.pressures[self.get_tstep(), cell_id])
-            self.w_pressures[cell_id].append(
-                self.__get_pressure(self.__get_tstep(), cell_id)
-            )
+            self.__fill_w_pressures(cell_id)
 
         if self.verbose:
             print(f"[info] a well in cell {cell_id} was set.")
 
+    def __fill_w_pressures(self, cell_id):
+        """Fills well pressures before the well was set by cell pressures."""
+        for tstep in range(len(self.w_pressures[cell_id]), self.__get_tstep() + 1):
+            self.w_pressures[cell_id].append(self.__get_pressure(tstep, cell_id))
+
     # -------------------------------------------------------------------------
     # Boundaries:
     # -------------------------------------------------------------------------
-- 
2.43.0


From 38a95a1749382f38351f0588b867a9df7f4612b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:04 +0000
Subject: [PATCH 31/39] fix: the matrix history does not share the grid's zeros

---
 reservoirflow/solutions/numerical/fdm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reservoirflow/solutions/numerical/fdm.py b/reservoirflow/solutions/numerical/fdm.py
index 2854053..cc00cd4 100644
--- a/reservoirflow/solutions/numerical/fdm.py
+++ b/reservoirflow/solutions/numerical/fdm.py
@@ -49,7 +49,7 @@ class FDM(Solution):
         """
         super().__init__(model, sparse)
         # newtest
-        self.ds = self.model.grid.get_zeros(False, False, False)[np.newaxis]
+        self.ds = self.model.grid.get_zeros(False, False, False)[np.newaxis].copy()
         self.As = np.zeros((1, self.model.n * self.model.n), dtype=self.model.dtype)
         # last timestep when a well (key) was switched from q to pwf:
         self.switched = {}
-- 
2.43.0


From 953bbb315d7f0b3858c14860d01c1f666caa3d57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:18 +0000
Subject: [PATCH 32/39] fix: fluid gravity follows a change of units

---
 reservoirflow/fluids/single_phase.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/reservoirflow/fluids/single_phase.py b/reservoirflow/fluids/single_phase.py
index cc0d8bb..7c791e4 100644
--- a/reservoirflow/fluids/single_phase.py
+++ b/reservoirflow/fluids/single_phase.py
@@ -89,6 +89,18 @@ class SinglePhase(Fluid):
         super().__init__(unit, dtype, verbose)
         self.set_props(mu, B, rho, comp)
 
+    def set_units(self, unit: str = "field"):
+        """Set object units.
+
+        Parameters
+        ----------
+        unit : str ('field', 'metric', 'lab'), optional
+            unit used in input and output. Fluid gravity is updated.
+        """
+        super().set_units(unit)
+        if hasattr(self, "rho"):
+            self.set_rho(self.rho)
+
     def set_mu(self, mu):
         """Set fluid viscosity.
 
-- 
2.43.0


From ed345e66a95958bdd59254f86e94fc527fba4af7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:37 +0000
Subject: [PATCH 33/39] fix: convert the well radius from inches only for field
 units

---
 reservoirflow/models/black_oil.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/reservoirflow/models/black_oil.py b/reservoirflow/models/black_oil.py
index 72fff26..1ff70f2 100644
--- a/reservoirflow/models/black_oil.py
+++ b/reservoirflow/models/black_oil.py
@@ -395,7 +395,9 @@ class BlackOil(Model):
             * self.grid.d["z"][cell_id]
         )
 
-        G_d = np.log(self.wells[cell_id]["r_eq"] / self.wells[cell_id]["r"] * 12)
+        # well radius is in inches for field units, otherwise in length units.
+        r_conv = 12 if self.unit == "field" else 1
+        G_d = np.log(self.wells[cell_id]["r_eq"] / self.wells[cell_id]["r"] * r_conv)
 
         if "s" in self.wells[cell_id].keys():
             G_d += self.wells[cell_id]["s"]
-- 
2.43.0


From 213a20d69bdc6bd2c499f7cca9086fb98bbcc175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:10 +0000
Subject: [PATCH 34/39] fix: a run of no steps reported a material balance
 error that was never set

---
 reservoirflow/solutions/numerical/fdm.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/reservoirflow/solutions/numerical/fdm.py b/reservoirflow/solutions/numerical/fdm.py
index cc00cd4..f95ea63 100644
--- a/reservoirflow/solutions/numerical/fdm.py
+++ b/reservoirflow/solutions/numerical/fdm.py
@@ -53,6 +53,8 @@ class FDM(Solution):
         self.As = np.zeros((1, self.model.n * self.model.n), dtype=self.model.dtype)
         # last timestep when a well (key) was switched from q to pwf:
         self.switched = {}
+        # material balance error, zero as long as nothing was solved:
+        self.error = 0.0
 
     # -------------------------------------------------------------------------
     # Flow Equations: symbolic
-- 
2.43.0


From e1537332ecd5de07fa9cbfe1804ad5792abcd413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:33 +0000
Subject: [PATCH 35/39] fix: the 1D1P solution returned one row per time level
 and cell instead of one per time level

---
 reservoirflow/solutions/analytical/d1p1.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/reservoirflow/solutions/analytical/d1p1.py b/reservoirflow/solutions/analytical/d1p1.py
index cee8b9a..b5fdbd1 100644
--- a/reservoirflow/solutions/analytical/d1p1.py
+++ b/reservoirflow/solutions/analytical/d1p1.py
@@ -36,8 +36,8 @@ class D1P1(Solution):
         t, x = self.model.get_domain(scale=False, boundary=True)
         L = x.max() - x.min()
         xD = (x - x.min()) / L
-        tD = self.model.get_alpha() * t / (L**2)
-        tD_values, xD_values = np.meshgrid(tD, xD, indexing="ij")
+        t_values, xD_values = np.meshgrid(t, xD, indexing="ij")
+        tD_values = self.model.get_alpha() * t_values / (L**2)
 
         # Dependent variable: p
         p, _ = self.model.get_init_arrays()
@@ -146,8 +146,8 @@ class D1P1(Solution):
             t, x = self.model.get_domain(scale=False, boundary=True)
             L = x.max() - x.min()
             xD = (x - x.min()) / L
-            tD = self.model.get_alpha() * t / (L**2)
-            tD_values, xD_values = np.meshgrid(tD, xD, indexing="ij")
+            t_values, xD_values = np.meshgrid(t, xD, indexing="ij")
+            tD_values = self.model.get_alpha() * t_values / (L**2)
 
             # Dependent variable: p
             p, _ = self.model.get_init_arrays()
-- 
2.43.0


From ea176afd98f2b064a189ac4056e0e706cfda42fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:53 +0000
Subject: [PATCH 36/39] fix: diffusivity used the x permeability in grids
 flowing along y or z

---
 reservoirflow/models/black_oil.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/reservoirflow/models/black_oil.py b/reservoirflow/models/black_oil.py
index 1ff70f2..021c04f 100644
--- a/reservoirflow/models/black_oil.py
+++ b/reservoirflow/models/black_oil.py
@@ -659,7 +659,9 @@ class BlackOil(Model):
     def get_alpha(
         self,
     ):
-        lhs_f = (self.factors["transmissibility conversion"] * self.grid.kx) / (
+        fdir = self.grid.get_fdir() or "x"
+        permeability = self.grid.k[fdir[0]]
+        lhs_f = (self.factors["transmissibility conversion"] * permeability) / (
             self.fluid.mu * self.fluid.B
         )
         rhs_f = (self.grid.phi * self.comp) / (
-- 
2.43.0


From c52b0225d6ec21f66fe4cd63df081ce24100e441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:34 +0000
Subject: [PATCH 37/39] fix: grid order, shape and size were returned through
 attributes that threaded workers overwrite

---
 reservoirflow/grids/regular_cartesian.py | 66 +++++++++++++-----------
 1 file changed, 37 insertions(+), 29 deletions(-)

diff --git a/reservoirflow/grids/regular_cartesian.py b/reservoirflow/grids/regular_cartesian.py
index 5b75b9c..c6c3a30 100644
--- a/reservoirflow/grids/regular_cartesian.py
+++ b/reservoirflow/grids/regular_cartesian.py
@@ -211,15 +211,17 @@ class RegularCartesian(Grid):
                 self.nz_b = self.nz + 2
             else:
                 self.nz_b = self.nz
-            self.shape = (self.nx_b, self.ny_b, self.nz_b)
+            shape = (self.nx_b, self.ny_b, self.nz_b)
         else:
-            self.shape = (self.nx, self.ny, self.nz)
+            shape = (self.nx, self.ny, self.nz)
+
+        self.shape = shape
 
         if self.verbose:
             s = utils.helpers.get_boundary_str(boundary)
-            print(f"[info] shape {s} is {self.shape}.")
+            print(f"[info] shape {s} is {shape}.")
 
-        return self.shape
+        return shape
 
     @_lru_cache(maxsize=2)
     def get_n(self, boundary: bool = True) -> int:
@@ -236,13 +238,15 @@ class RegularCartesian(Grid):
             total number of cells.
         """
         shape = self.get_shape(boundary)
-        self.n = np.prod(shape)
+        n = np.prod(shape)
+
+        self.n = n
 
         if self.verbose:
             s = utils.helpers.get_boundary_str(boundary)
-            print(f"[info] n {s} is {self.n}.")
+            print(f"[info] n {s} is {n}.")
 
-        return self.n
+        return n
 
     @_lru_cache(maxsize=2)
     def get_n_max(self, boundary: bool = True):
@@ -330,52 +334,54 @@ class RegularCartesian(Grid):
         nx, ny, nz = self.get_shape(boundary)
 
         if self.fdir == "xyz":
-            self.fshape = (nz, ny, nx)
+            fshape = (nz, ny, nx)
         else:
             if not self.unify:
                 if self.fdir == "-":
-                    self.fshape = (1,)
+                    fshape = (1,)
                 elif self.fdir == "x":
-                    self.fshape = (nx,)
+                    fshape = (nx,)
                 elif self.fdir == "y":
-                    self.fshape = (ny,)
+                    fshape = (ny,)
                 elif self.fdir == "z":
-                    self.fshape = (nz,)
+                    fshape = (nz,)
                 elif self.fdir == "xy":
-                    self.fshape = (ny, nx)
+                    fshape = (ny, nx)
                 elif self.fdir == "xz":
-                    self.fshape = (nz, nx)
+                    fshape = (nz, nx)
                 elif self.fdir == "yz":
-                    self.fshape = (nz, ny)
+                    fshape = (nz, ny)
                 else:
                     raise ValueError("unknown fdir value.")
             else:
                 if self.fdir == "-":
-                    self.fshape = (1, 1, 1)
+                    fshape = (1, 1, 1)
                 elif self.fdir == "x":
-                    self.fshape = (1, 1, nx)
+                    fshape = (1, 1, nx)
                 elif self.fdir == "y":
-                    self.fshape = (1, ny, 1)
+                    fshape = (1, ny, 1)
                 elif self.fdir == "z":
-                    self.fshape = (nz, 1, 1)
+                    fshape = (nz, 1, 1)
                 elif self.fdir == "xy":
-                    self.fshape = (1, ny, nx)
+                    fshape = (1, ny, nx)
                 elif self.fdir == "xz":
-                    self.fshape = (nz, 1, nx)
+                    fshape = (nz, 1, nx)
                 elif self.fdir == "yz":
-                    self.fshape = (nz, ny, 1)
+                    fshape = (nz, ny, 1)
                 else:
                     raise ValueError("unknown fdir value.")
 
         if points:
-            self.fshape = self.fshape + (3,)
+            fshape = fshape + (3,)
+
+        self.fshape = fshape
 
         if self.verbose:
             s1 = utils.helpers.get_boundary_str(boundary)
             s2 = utils.helpers.get_points_str(points)
-            print(f"[info] fshape {s1}{s2} is {self.fshape}.")
+            print(f"[info] fshape {s1}{s2} is {fshape}.")
 
-        return self.fshape
+        return fshape
 
     @_lru_cache(maxsize=4)
     def get_order(
@@ -402,7 +408,7 @@ class RegularCartesian(Grid):
             gird order as array.
         """
         if type == "natural":
-            self.order = np.arange(self.get_n(True))
+            order = np.arange(self.get_n(True))
         else:
             raise ValueError(
                 "Order type is not supported or unknown. "
@@ -410,17 +416,19 @@ class RegularCartesian(Grid):
             )
 
         if not boundary:
-            self.order = self.remove_boundaries(self.order, False, "both")
+            order = self.remove_boundaries(order, False, "both")
 
         if fshape:
             shape = self.get_fshape(boundary, False)
-            self.order = self.order.reshape(shape)
+            order = order.reshape(shape)
+
+        self.order = order
 
         if self.verbose:
             s1, s2 = utils.helpers.get_verbose_str(boundary, fshape)
             print(f"[info] order was computed ({s1} - {s2}).")
 
-        return self.order
+        return order
 
     @_lru_cache(maxsize=1)
     def get_ones(
-- 
2.43.0


From 41ba121f3daac65a9d5976e4c8ab4eacba84e1d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:21 +0000
Subject: [PATCH 38/39] fix: the flow direction was read from a shape that
 threaded workers overwrite

---
 reservoirflow/grids/regular_cartesian.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/reservoirflow/grids/regular_cartesian.py b/reservoirflow/grids/regular_cartesian.py
index c6c3a30..3e2fe41 100644
--- a/reservoirflow/grids/regular_cartesian.py
+++ b/reservoirflow/grids/regular_cartesian.py
@@ -282,12 +282,12 @@ class RegularCartesian(Grid):
             the grid dimensions that are higher than 1.
         """
         self.get_D()
-        self.get_shape(False)
+        shape = self.get_shape(False)
 
         if self.D == 0:
             self.fdir = "-"
         elif self.D == 1:
-            flow_dir_id = np.argmax(self.shape)
+            flow_dir_id = np.argmax(shape)
             if flow_dir_id == 0:
                 self.fdir = "x"
             elif flow_dir_id == 1:
@@ -295,7 +295,7 @@ class RegularCartesian(Grid):
             elif flow_dir_id == 2:
                 self.fdir = "z"
         elif self.D == 2:
-            flow_dir_id = np.argmin(self.shape)
+            flow_dir_id = np.argmin(shape)
             if flow_dir_id == 2:
                 self.fdir = "xy"
             elif flow_dir_id == 1:
-- 
2.43.0


From e8cddc3f156af8fca2232a761000f805029a70bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:57 +0000
Subject: [PATCH 39/39] fix: a run refused for its number of steps left verbose
 switched off

---
 reservoirflow/solutions/numerical/fdm.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/reservoirflow/solutions/numerical/fdm.py b/reservoirflow/solutions/numerical/fdm.py
index f95ea63..875ec55 100644
--- a/reservoirflow/solutions/numerical/fdm.py
+++ b/reservoirflow/solutions/numerical/fdm.py
@@ -768,16 +768,16 @@ class FDM(Solution):
             verbose_restore = True
         else:
             verbose_restore = False
-        print(f"[info] Simulation run started: {nsteps} timesteps.")
-        pbar = tqdm(
-            range(1, nsteps + 1),
-            unit="steps",
-            colour="green",
-            position=0,
-            leave=True,
-        )
-
         try:
+            print(f"[info] Simulation run started: {nsteps} timesteps.")
+            pbar = tqdm(
+                range(1, nsteps + 1),
+                unit="steps",
+                colour="green",
+                position=0,
+                leave=True,
+            )
+
             for step in pbar:
                 pbar.set_description(f"[step] {step}")
                 self.solve(
-- 
2.43.0

