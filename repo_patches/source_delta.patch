From fac6e17948dbacff6dd579b6396c4ab74afff6c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:42 +0000
Subject: [PATCH 01/16] fix: Neumann vertices are exactly the end points of
 Neumann edges

Vertices in the interior of a fixed side were listed as Neumann vertices.
---
 src/tvemoves_rufbad/domain.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/tvemoves_rufbad/domain.py b/src/tvemoves_rufbad/domain.py
index 35c110b..9c0f798 100644
--- a/src/tvemoves_rufbad/domain.py
+++ b/src/tvemoves_rufbad/domain.py
@@ -510,7 +510,7 @@ class RectangleDomain(Domain):
         )
         boundary = Boundary(boundary_vertices, boundary_edges)
 
-        # 1 / 0 => Neumann, 0 / -1 => Dirichlet
+        # 1 => not fixed, 0 / -1 => Dirichlet
         boundary_vertices_tags = {i: 1 for i in boundary_vertices}
         dirichlet_edges = set()
         neumann_edges = set(boundary_edges)
@@ -542,10 +542,12 @@ class RectangleDomain(Domain):
                             boundary_vertices_tags[i] -= 1
                         dirichlet_edges.update(left_boundary_edges)
                         neumann_edges.difference_update(left_boundary_edges)
+        # A vertex in the interior of a fixed side is not an end point of any Neumann edge.
+        neumann_edge_vertices = {i for edge in neumann_edges for i in edge}
         dirichlet_vertices = []
         neumann_vertices = []
         for i, tag in boundary_vertices_tags.items():
-            if tag >= 0:
+            if i in neumann_edge_vertices:
                 neumann_vertices.append(i)
             if tag <= 0:
                 dirichlet_vertices.append(i)
-- 
2.43.0


From c2273f91d61ec90f177794c2fcec4daa4ba00d82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:02 +0000
Subject: [PATCH 02/16] fix: keep the last grid row and column when scale
 evenly divides the side

0.6 / 0.2 evaluates to 2.9999999999999996, so a third of the rectangle was not meshed.
---
 src/tvemoves_rufbad/domain.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/tvemoves_rufbad/domain.py b/src/tvemoves_rufbad/domain.py
index 9c0f798..af2a6cc 100644
--- a/src/tvemoves_rufbad/domain.py
+++ b/src/tvemoves_rufbad/domain.py
@@ -423,8 +423,10 @@ class RectangleDomain(Domain):
         If `scale` does not evenly divide the width or height of the rectangle (only) the rightmost
         or uppermost edges of the grid might not align exactly with the rectangle boundary.
         """
-        num_horizontal_vertices = int(self.width / scale) + 1
-        num_vertical_vertices = int(self.height / scale) + 1
+        # The offset keeps the last column or row of vertices if `scale` evenly divides the rectangle
+        # but the floating point quotient is slightly too small (e.g. 0.6 / 0.2 < 3).
+        num_horizontal_vertices = int(self.width / scale + 1e-9) + 1
+        num_vertical_vertices = int(self.height / scale + 1e-9) + 1
 
         def pair_to_vertex(i, j):
             # left to right, bottom to top
-- 
2.43.0


From 1e0c7db2b4d2b57bd37ef83221b15b8739d9f4f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:02 +0000
Subject: [PATCH 03/16] fix: orient refined diagonal edges like their coarse
 edge

The edge list and the fine-to-coarse edge maps disagreed on the orientation, so points on
refined diagonal edges could not be transformed to the coarse edge.
---
 src/tvemoves_rufbad/domain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tvemoves_rufbad/domain.py b/src/tvemoves_rufbad/domain.py
index af2a6cc..acaeb21 100644
--- a/src/tvemoves_rufbad/domain.py
+++ b/src/tvemoves_rufbad/domain.py
@@ -825,7 +825,7 @@ def _refine_equilateral_triangle(
             intermediate_grid.append_edge(
                 assure_orientation(
                     diagonal_edge_correct,
-                    (triangle_vertices[(k, l)], triangle_vertices[(k, l + 1)]),
+                    (triangle_vertices[(k, l + 1)], triangle_vertices[(k, l)]),
                 )
             )
 
-- 
2.43.0


From 42bfe51299ea515b13739013dc0bc5b34ce907db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:02 +0000
Subject: [PATCH 04/16] fix: do not reject refined grids of large domains
 because of rounding

The absolute tolerance 1e-15 is below the floating point resolution for coordinates above 4.
---
 src/tvemoves_rufbad/domain.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tvemoves_rufbad/domain.py b/src/tvemoves_rufbad/domain.py
index acaeb21..72602b3 100644
--- a/src/tvemoves_rufbad/domain.py
+++ b/src/tvemoves_rufbad/domain.py
@@ -700,7 +700,8 @@ def _refine_equilateral_triangle(
 
     i1, i2, i3 = triangle
     p1, p2, p3 = grid.triangle_vertices(triangle)
-    eps = 1e-15
+    # allow for rounding errors in the points of an already refined grid
+    eps = 1e-9 * (p1 - p2).norm()
     assert abs(p1[1] - p2[1]) < eps, "First edge of an equilateral triangle must be horizontal"
     assert abs(p2[0] - p3[0]) < eps, "Second edge of an equilateral triangle must be vertical"
 
-- 
2.43.0


From 4e2b9de58ab1607082782f3fc056a43ec2b2a5fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:02 +0000
Subject: [PATCH 05/16] fix: make the tolerance of point location relative to
 the triangle size

With the absolute tolerance the first triangle of a small grid contained every point.
---
 src/tvemoves_rufbad/domain.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tvemoves_rufbad/domain.py b/src/tvemoves_rufbad/domain.py
index 72602b3..0ff56a5 100644
--- a/src/tvemoves_rufbad/domain.py
+++ b/src/tvemoves_rufbad/domain.py
@@ -48,7 +48,8 @@ def _sign(triangle_vertices: TriangleVertices):
 
 def _triangle_contains_point(triangle_vertices: TriangleVertices, p: Vector) -> bool:
     """Determine if a point is contained in a triangle."""
-    eps = 1e-10
+    # relative to the size of the triangle as the signs below scale with its area
+    eps = 1e-10 * abs(_sign(triangle_vertices))
 
     p1, p2, p3 = triangle_vertices
     d1 = _sign((p, p1, p2))
-- 
2.43.0


From 14c043f0fb3c71b2b16ab17515340d1d2bbfbd33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:02 +0000
Subject: [PATCH 06/16] fix: check all three indices of a 3-d tensor

Negative second and third indices were silently accepted.
---
 src/tvemoves_rufbad/tensors.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tvemoves_rufbad/tensors.py b/src/tvemoves_rufbad/tensors.py
index c0d88ff..a8309e6 100644
--- a/src/tvemoves_rufbad/tensors.py
+++ b/src/tvemoves_rufbad/tensors.py
@@ -386,9 +386,9 @@ class Tensor3D:
         i, j, k = index
         if i < 0 or i >= self.shape[0]:
             raise IndexError(f"index {i} is out of bounds for axis 0 with size {self.shape[0]}")
-        if i < 0 or i >= self.shape[0]:
+        if j < 0 or j >= self.shape[1]:
             raise IndexError(f"index {j} is out of bounds for axis 1 with size {self.shape[1]}")
-        if i < 0 or i >= self.shape[0]:
+        if k < 0 or k >= self.shape[2]:
             raise IndexError(f"index {k} is out of bounds for axis 2 with size {self.shape[2]}")
         return self.data[i][j][k]
 
-- 
2.43.0


From 53f278bc824ae1061d7e35638f400c6daad35193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:02 +0000
Subject: [PATCH 07/16] fix: reject scalar products of vectors of different
 sizes

The longer vector was silently truncated.
---
 src/tvemoves_rufbad/tensors.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/tvemoves_rufbad/tensors.py b/src/tvemoves_rufbad/tensors.py
index a8309e6..d4ffd51 100644
--- a/src/tvemoves_rufbad/tensors.py
+++ b/src/tvemoves_rufbad/tensors.py
@@ -70,6 +70,10 @@ class Vector:
 
     def dot(self, other: Vector):
         """Compute the scalar product with another vector."""
+        if self.size != other.size:
+            raise ValueError(
+                f"scalar product of vectors of sizes {self.size} and {other.size} is not defined"
+            )
         return sum(x * y for x, y in zip(self.data, other.data))
 
     def map(self, f: Callable) -> Vector:
-- 
2.43.0


From 31f2b97816e62ca52441218bcfef8a9b58173613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:02 +0000
Subject: [PATCH 08/16] fix: reject fps = 0, which must be positive

It passed the validation and made Simulation divide by zero.
---
 src/tvemoves_rufbad/simulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tvemoves_rufbad/simulation.py b/src/tvemoves_rufbad/simulation.py
index a7ab17d..6cfe32c 100644
--- a/src/tvemoves_rufbad/simulation.py
+++ b/src/tvemoves_rufbad/simulation.py
@@ -182,7 +182,7 @@ class SimulationParams:
                 f"search radius must be positive but {self.search_radius} was provided"
             )
 
-        if self.fps < 0:
+        if self.fps <= 0:
             raise ValueError(f"fps must be positive but {self.fps} was provided")
 
         if self.regularization is not None and self.regularization < 0:
-- 
2.43.0


From 7f6e9ce27eb400f0ef5776cb17e12ab1f154e486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:27 +0000
Subject: [PATCH 09/16] fix: exclude derivatives from the plot limits of
 regularized simulations

The limits were computed from all C1 degrees of freedom instead of the positions only.
---
 src/tvemoves_rufbad/simulation.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/tvemoves_rufbad/simulation.py b/src/tvemoves_rufbad/simulation.py
index 6cfe32c..9b4f019 100644
--- a/src/tvemoves_rufbad/simulation.py
+++ b/src/tvemoves_rufbad/simulation.py
@@ -335,8 +335,10 @@ class Simulation:
     def _append_step(self, y_data: npt.NDArray[np.float64], theta_data: npt.NDArray[np.float64]):
         # Update variables required for plotting
         self._max_temp = max(self._max_temp, np.max(theta_data))
-        x_coords = y_data[:, 0]
-        y_coords = y_data[:, 1]
+        # In the regularized setting only the first degree of freedom is a position.
+        positions = y_data if self.params.regularization is None else y_data[:, :, 0]
+        x_coords = positions[:, 0]
+        y_coords = positions[:, 1]
         self._xlims = (min(self._xlims[0], np.min(x_coords)), max(self._xlims[1], np.max(x_coords)))
         self._ylims = (min(self._ylims[0], np.min(y_coords)), max(self._ylims[1], np.max(y_coords)))
 
-- 
2.43.0


From 23e6a5b02fc3efaed31519615c3e85f868c522f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:46 +0000
Subject: [PATCH 10/16] fix: allow plotting a grid without providing an axis

fig_axis was called without its required limits.
---
 src/tvemoves_rufbad/domain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tvemoves_rufbad/domain.py b/src/tvemoves_rufbad/domain.py
index 0ff56a5..a3e82c5 100644
--- a/src/tvemoves_rufbad/domain.py
+++ b/src/tvemoves_rufbad/domain.py
@@ -152,7 +152,7 @@ class Grid(ABC):
     def plot(self, ax):
         """Returns matplotlib plot of the grid."""
         if ax is None:
-            _, ax = fig_axis()
+            _, ax = fig_axis((-PLOT_BORDER, PLOT_BORDER), (-PLOT_BORDER, PLOT_BORDER))
 
         new_xlim = (-PLOT_BORDER, max(p[0] for p in self.points) + PLOT_BORDER)
         _adjust_xlim(ax, new_xlim)
-- 
2.43.0


From 3da5cb7a033145f3af82af4406aae6c94e839c5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:46 +0000
Subject: [PATCH 11/16] fix: continue from the last recorded step after an
 interrupted run

If the thermal solve of a step failed, the next run started from the deformation of the step
that was never recorded.
---
 src/tvemoves_rufbad/simulation.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/tvemoves_rufbad/simulation.py b/src/tvemoves_rufbad/simulation.py
index 9b4f019..601580b 100644
--- a/src/tvemoves_rufbad/simulation.py
+++ b/src/tvemoves_rufbad/simulation.py
@@ -322,8 +322,10 @@ class Simulation:
         anim.save(filename + ".mp4", fps=30, dpi=300, extra_args=["-vcodec", "libx264"])
 
     def _update_mechanical_step(self):
-        self._mechanical_step.update_prev_y(self._thermal_step.y())
-        self._mechanical_step.update_prev_theta(self._thermal_step.theta())
+        # The thermal model may hold the data of a step that was interrupted before its completion.
+        last_step = self.steps[-1]
+        self._mechanical_step.update_prev_y(last_step._y_data)
+        self._mechanical_step.update_prev_theta(last_step._theta_data)
         self._mechanical_step.update_boundary_traction(self._current_time)
 
     def _update_thermal_step(self):
-- 
2.43.0


From cd36aabc7db342b0e31120140a69b2c6dbf63c56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:15 +0000
Subject: [PATCH 12/16] fix: rotate the coordinates of a cyclically rotated
 fine triangle

---
 src/tvemoves_rufbad/domain.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/tvemoves_rufbad/domain.py b/src/tvemoves_rufbad/domain.py
index a3e82c5..6e50c1b 100644
--- a/src/tvemoves_rufbad/domain.py
+++ b/src/tvemoves_rufbad/domain.py
@@ -345,16 +345,19 @@ class RefinedGrid(Grid):
     def to_coarse_barycentric_point(self, fine_point: BarycentricPoint) -> BarycentricPoint:
         """Transform a barycentric point in the fine mesh to a barycentric point in the coarse mesh"""
         fine_triangle = fine_point.triangle
+        p = fine_point.coordinates
         i1, i2, i3 = fine_triangle
         if (i1, i2, i3) not in self.triangles:
+            # the coordinates need to be rotated together with the vertices
             if (i2, i3, i1) in self.triangles:
                 fine_triangle = (i2, i3, i1)
+                p = BarycentricCoordinates(p.l2, p.l3)
             elif (i3, i1, i2) in self.triangles:
                 fine_triangle = (i3, i1, i2)
+                p = BarycentricCoordinates(p.l3, p.l1)
             else:
                 raise ValueError("triangle does not appear in the grid")
         coarse_triangle = self._coarse_triangle[fine_triangle]
-        p = fine_point.coordinates
         q1, q2, q3 = self._coarse_barycentric_coordinates[fine_triangle]
         coarse_barycentric_coordinates = BarycentricCoordinates(
             p.l1 * q1.l1 + p.l2 * q2.l1 + p.l3 * q3.l1, p.l1 * q1.l2 + p.l2 * q2.l2 + p.l3 * q3.l2
-- 
2.43.0


From 54e8165d6b7a904c54b248488b8440c020a7032b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:45 +0000
Subject: [PATCH 13/16] fix: skip the mechanical problem if all vertices are
 fixed

---
 src/tvemoves_rufbad/mechanical_step.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/tvemoves_rufbad/mechanical_step.py b/src/tvemoves_rufbad/mechanical_step.py
index b65c5eb..331a980 100644
--- a/src/tvemoves_rufbad/mechanical_step.py
+++ b/src/tvemoves_rufbad/mechanical_step.py
@@ -193,6 +193,9 @@ class _MechanicalStep(AbstractMechanicalStep):
         self._grid = grid
 
     def solve(self) -> None:
+        if len(self._model.dirichlet_vertices) == self._num_vertices:
+            # All vertices are fixed. ipopt cannot handle problems without unknowns.
+            return
         self._solver.solve(self._model)
 
     def prev_y(self) -> npt.NDArray[np.float64]:
-- 
2.43.0


From b4bc56ebfa50b1c1d1b5ade9422e17641d5f6d14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:34 +0000
Subject: [PATCH 14/16] fix: pose each condition on fixed sides once in
 regularized simulations

---
 src/tvemoves_rufbad/mechanical_step.py | 28 ++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/src/tvemoves_rufbad/mechanical_step.py b/src/tvemoves_rufbad/mechanical_step.py
index 331a980..8c1d2dc 100644
--- a/src/tvemoves_rufbad/mechanical_step.py
+++ b/src/tvemoves_rufbad/mechanical_step.py
@@ -266,9 +266,10 @@ def _model_regularized(
     m = pyo.ConcreteModel("Mechanical Step with Regularization")
     m.vertices = pyo.RangeSet(len(grid.vertices))
     m.c1_indices = pyo.RangeSet(6)
-    m.dirichlet_edges = pyo.RangeSet(len(grid.dirichlet_boundary.edges))
     m.deformation_indices = m.vertices * m.c1_indices
-    m.dirichlet_constraint_indices = m.dirichlet_edges * m.c1_indices
+    m.dirichlet_constraint_indices = pyo.Set(
+        initialize=_dirichlet_constraint_indices(grid), dimen=2
+    )
     m.refined_vertices = pyo.RangeSet(len(refined_grid.vertices))
 
     initial_y1 = [[p[0], 1, 0, 0, 0, 0] for p in grid.points]
@@ -371,6 +372,29 @@ def _model_regularized(
     return m
 
 
+def _dirichlet_constraint_indices(grid: Grid) -> list[tuple[int, int]]:
+    """Indices (edge, constraint_id) of all Dirichlet constraints that must be posed.
+
+    The values at the Dirichlet vertices are fixed and parallel edges share the conditions on the
+    derivatives in their common vertex. Posing these conditions as well can result in more equations
+    than unknowns, which is rejected by ipopt.
+    """
+    indices = []
+    directions: dict[int, list[Vector]] = {i: [] for i in grid.dirichlet_boundary.vertices}
+    for edge_id, edge in enumerate(grid.dirichlet_boundary.edges, start=1):
+        p, q = grid.edge_vertices(edge)
+        d = q - p
+        for vertex, constraint_ids in zip(edge, ((2, 3), (5, 6))):
+            if any(
+                abs(d[0] * e[1] - d[1] * e[0]) < 1e-6 * (d.normsqr() * e.normsqr()) ** 0.5
+                for e in directions[vertex]
+            ):
+                continue
+            directions[vertex].append(d)
+            indices += [(edge_id, constraint_id) for constraint_id in constraint_ids]
+    return indices
+
+
 def _dirichlet_constraint_regularized(y, edge, edge_vertices, constraint_id, y_component):
     p, q = edge_vertices
     d = q - p
-- 
2.43.0


From 3137f41d7bf54c2b10fe4ae04e81b45eb051014c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:46:18 +0000
Subject: [PATCH 15/16] fix: the time of a simulation stays that of its last
 step when a run is interrupted

---
 src/tvemoves_rufbad/simulation.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/tvemoves_rufbad/simulation.py b/src/tvemoves_rufbad/simulation.py
index 601580b..4392133 100644
--- a/src/tvemoves_rufbad/simulation.py
+++ b/src/tvemoves_rufbad/simulation.py
@@ -262,7 +262,6 @@ class Simulation:
         # Add initial step
         self.steps: list[AbstractStep] = []
         self._tau = 1 / self.params.fps
-        self._current_time = -self._tau
         self._max_temp = 0
         self._xlims = (float("inf"), float("-inf"))
         self._ylims = (float("inf"), float("-inf"))
@@ -282,6 +281,12 @@ class Simulation:
         self._thermal_step.solve()
         self._append_step(self._thermal_step.y(), self._thermal_step.theta())
 
+    @property
+    def _current_time(self) -> float:
+        # Time of the last step. A run might be interrupted at any point, hence we do not store the
+        # time separately from the steps.
+        return (len(self.steps) - 1) * self._tau
+
     def max_temp(self):
         return self._max_temp
 
@@ -352,9 +357,6 @@ class Simulation:
         )
         self.steps.append(step)
 
-        # Update time
-        self._current_time += self._tau
-
     def _run_single_step(self):
         self._update_mechanical_step()
         self._mechanical_step.solve()
-- 
2.43.0


From fbe563193a9a8b5e3328a50281a30176e3829723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:46:18 +0000
Subject: [PATCH 16/16] fix: temperatures that ipopt returns slightly below
 zero no longer stop a simulation

---
 src/tvemoves_rufbad/thermal_step.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/tvemoves_rufbad/thermal_step.py b/src/tvemoves_rufbad/thermal_step.py
index 523e678..5589731 100644
--- a/src/tvemoves_rufbad/thermal_step.py
+++ b/src/tvemoves_rufbad/thermal_step.py
@@ -388,7 +388,8 @@ class _ThermalStep(AbstractThermalStep):
     def theta(self) -> npt.NDArray[np.float64]:
         """Return the current temperature as vector of length N, where N is the number of vertices."""
         m = self._model
-        return np.array([m.theta[i].value for i in m.vertices])
+        # ipopt may violate the bounds by its tolerance
+        return np.array([max(m.theta[i].value, 0.0) for i in m.vertices])
 
     def update_prev_y(self, new_prev_y: npt.NDArray[np.float64]) -> None:
         if new_prev_y.shape != (self._num_vertices, 2):
@@ -508,7 +509,9 @@ class _ThermalStepRegularized(AbstractThermalStep):
         """Return the current temperature as a vector of length N_ref, where N_ref is the number of
         vertices of the refined grid.
         """
-        return np.array([self._model.theta[i].value for i in list(self._model.refined_vertices)])
+        m = self._model
+        # ipopt may violate the bounds by its tolerance
+        return np.array([max(m.theta[i].value, 0.0) for i in m.refined_vertices])
 
     def update_prev_y(self, new_prev_y: npt.NDArray[np.float64]) -> None:
         m = self._model
-- 
2.43.0

