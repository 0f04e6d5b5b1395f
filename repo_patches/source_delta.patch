From f5aa2f6c0ab116c8c59a46a4c8a4caf3cad90de8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:39 +0000
Subject: [PATCH 01/33] fix: mirror padding of an edge-aligned Dirichlet axis
 when another axis has no boundary values

---
 jax_cfd/base/boundaries.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jax_cfd/base/boundaries.py b/jax_cfd/base/boundaries.py
index de47b34..8a0e1cb 100644
--- a/jax_cfd/base/boundaries.py
+++ b/jax_cfd/base/boundaries.py
@@ -253,7 +253,7 @@ class ConstantBoundaryConditions(BoundaryConditions):
             # here we are adding 0 boundary cell with 0 value
             expanded_data = jnp.pad(
                 data, bc_padding, mode='constant', constant_values=(0, 0))
-            padding_values = list(self.bc_values)
+            padding_values = list(self.constant_values)
             padding_values[axis] = [pad / 2 for pad in padding_values[axis]]
             data = 2 * jnp.pad(
                 data,
-- 
2.43.0


From 6316fb90fd8d28d29608f96fec6c5c79e74917ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:11 +0000
Subject: [PATCH 02/33] fix: one-dimensional laplacian matrices on axes with
 two cells

---
 jax_cfd/base/array_utils.py | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/jax_cfd/base/array_utils.py b/jax_cfd/base/array_utils.py
index d40d153..dad065e 100644
--- a/jax_cfd/base/array_utils.py
+++ b/jax_cfd/base/array_utils.py
@@ -169,10 +169,23 @@ def laplacian_matrix(size: int, step: float) -> np.ndarray:
   """Create 1D Laplacian operator matrix, with periodic BC."""
   column = np.zeros(size)
   column[0] = -2 / step**2
-  column[1] = column[-1] = 1 / step**2
+  # on a grid of two cells both neighbors of a cell are the same cell.
+  column[1] += 1 / step**2
+  column[-1] += 1 / step**2
   return scipy.linalg.circulant(column)
 
 
+def _remove_wraparound(laplacians: List[Array], grid: grids.Grid,
+                       axis: int) -> None:
+  """Deletes corner dependencies on the "looped-around" part of a laplacian."""
+  # this should be done irrespective of which side, since one boundary cannot
+  # be periodic while the other is. On a grid of two cells the corners also
+  # hold the coupling between the two cells, which must be preserved.
+  corner = 1 / grid.step[axis]**2 if grid.shape[axis] == 2 else 0.0
+  laplacians[axis][0, -1] = corner
+  laplacians[axis][-1, 0] = corner
+
+
 def _laplacian_boundary_dirichlet_cell_centered(laplacians: List[Array],
                                                 grid: grids.Grid, axis: int,
                                                 side: str) -> None:
@@ -205,11 +218,7 @@ def _laplacian_boundary_dirichlet_cell_centered(laplacians: List[Array],
     laplacians[axis][0, 0] = laplacians[axis][0, 0] - 1 / grid.step[axis]**2
   else:
     laplacians[axis][-1, -1] = laplacians[axis][-1, -1] - 1 / grid.step[axis]**2
-  # deletes corner dependencies on the "looped-around" part.
-  # this should be done irrespective of which side, since one boundary cannot
-  # be periodic while the other is.
-  laplacians[axis][0, -1] = 0.0
-  laplacians[axis][-1, 0] = 0.0
+  _remove_wraparound(laplacians, grid, axis)
   return
 
 
@@ -235,11 +244,7 @@ def _laplacian_boundary_neumann_cell_centered(laplacians: List[Array],
     laplacians[axis][0, 0] = laplacians[axis][0, 0] + 1 / grid.step[axis]**2
   else:
     laplacians[axis][-1, -1] = laplacians[axis][-1, -1] + 1 / grid.step[axis]**2
-  # deletes corner dependencies on the "looped-around" part.
-  # this should be done irrespective of which side, since one boundary cannot
-  # be periodic while the other is.
-  laplacians[axis][0, -1] = 0.0
-  laplacians[axis][-1, 0] = 0.0
+  _remove_wraparound(laplacians, grid, axis)
   return
 
 
-- 
2.43.0


From 4e2d052654359185f20b0ad1d2914329a39c72bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:41 +0000
Subject: [PATCH 03/33] fix: keep the mean of the pressure equation's right
 hand side when a Dirichlet boundary pins the pressure

---
 jax_cfd/base/pressure.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/jax_cfd/base/pressure.py b/jax_cfd/base/pressure.py
index dca8160..29032a2 100644
--- a/jax_cfd/base/pressure.py
+++ b/jax_cfd/base/pressure.py
@@ -55,6 +55,9 @@ def _rhs_transform(
     u' s.t. u = u' + kernel of the laplacian.
   """
   u_data = u.data
+  if any(boundaries.BCType.DIRICHLET in types for types in bc.types):
+    # the solution is pinned to the boundary values, so there is no kernel.
+    return u_data
   for axis in range(u.grid.ndim):
     if bc.types[axis][0] == boundaries.BCType.NEUMANN and bc.types[axis][
         1] == boundaries.BCType.NEUMANN:
-- 
2.43.0


From d8c4692f5d97969e2c924a334640876d2bbd6b90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:13 +0000
Subject: [PATCH 04/33] fix: align the limiter of advect_van_leer with its flux
 for scalars on cell edges

---
 jax_cfd/base/advection.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/jax_cfd/base/advection.py b/jax_cfd/base/advection.py
index f4afd5b..02b9588 100644
--- a/jax_cfd/base/advection.py
+++ b/jax_cfd/base/advection.py
@@ -287,8 +287,10 @@ def advect_van_leer(
   # next, compute van_leer correction.
   for axis, (u, h) in enumerate(zip(aligned_v, c.grid.step)):
     u = u.bc.shift(u.array, int(u.offset[axis] % 1 - u.offset[axis]), axis=axis)
-    # c is put to offset .5 or 1.
-    c_center_arr = c.shift(int(1 - c.offset[ax]), axis=ax)
+    # c is put to offset .5 or 1 along `axis`; along the other axes it stays
+    # aligned with c_left_var, like u and the upwind flux.
+    c_center_arr = c_left_var.shift(
+        int(1 - c_left_var.offset[axis]), axis=axis)
     # if c offset is 1, u offset is .5.
     # if c offset is .5, u offset is 0.
     # u_i is always on the left of c_center_var_i
-- 
2.43.0


From 7453959aff50a39564f007e6c92a784b647feb79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:06 +0000
Subject: [PATCH 05/33] fix: implicit diffusion next to Dirichlet walls on
 several axes

---
 jax_cfd/base/diffusion.py | 103 ++++++++++++--------------------------
 1 file changed, 31 insertions(+), 72 deletions(-)

diff --git a/jax_cfd/base/diffusion.py b/jax_cfd/base/diffusion.py
index eb28919..8483fc4 100644
--- a/jax_cfd/base/diffusion.py
+++ b/jax_cfd/base/diffusion.py
@@ -57,81 +57,31 @@ def stable_time_step(viscosity: float, grid: grids.Grid) -> float:
   return dx ** 2 / (viscosity * 2 ** ndim)
 
 
-def _subtract_linear_part_dirichlet(
-    c_data: Array,
-    grid: grids.Grid,
-    axis: int,
-    offset: Tuple[float, float],
-    bc_values: Tuple[float, float],
-) -> Array:
-  """Transforms c_data such that c_data satisfies dirichlet boundary.
-
-  The function subtracts a linear function from c_data s.t. the returned
-  array has homogeneous dirichlet boundaries. Note that this assumes c_data has
-  constant dirichlet boundary values.
-
-  Args:
-    c_data: right-hand-side of diffusion equation.
-    grid: grid object
-    axis: axis along which to impose boundary transformation
-    offset: offset of the right-hand-side
-    bc_values: boundary values along axis
-
-  Returns:
-    transformed right-hand-side
-  """
-
-  def _update_rhs_along_axis(arr_1d, linear_part):
-    arr_1d = arr_1d - linear_part
-    return arr_1d
-
-  lower_value, upper_value = bc_values
-  y = grid.mesh(offset)[axis][0]
-  one_d_grid = grids.Grid((grid.shape[axis],), domain=(grid.domain[axis],))
-  y_boundary = boundaries.dirichlet_boundary_conditions(ndim=1)
-  y = y_boundary.trim_boundary(grids.GridArray(y, (offset[axis],),
-                                               one_d_grid)).data
-  domain_length = (grid.domain[axis][1] - grid.domain[axis][0])
-  domain_start = grid.domain[axis][0]
-  linear_part = lower_value + (upper_value - lower_value) * (
-      y - domain_start) / domain_length
-  c_data = jnp.apply_along_axis(
-      _update_rhs_along_axis, axis, c_data, linear_part)
-  return c_data
-
-
-def _rhs_transform(
+def _boundary_laplacian(
     u: grids.GridArray,
     bc: boundaries.BoundaryConditions,
+    offset: Tuple[float, ...],
 ) -> Array:
-  """Transforms the RHS of diffusion equation.
+  """Returns the part of the laplacian that depends on boundary values only.
 
-  In case of constant dirichlet boundary conditions for heat equation
-  the linear term is subtracted. See diffusion.solve_fast_diag.
+  Inside the domain, ∇²u = Lu + w, where the matrix L is the laplacian with
+  homogeneous boundary conditions and w does not depend on u. See
+  diffusion.solve_fast_diag.
 
   Args:
-    u: a GridArray that solves ∇²x = ∇²u for x.
+    u: interior values of the solution.
     bc: specifies boundary of u.
+    offset: offset of the solution including its boundary values.
 
   Returns:
-    u' s.t. u = u' + w where u' has 0 dirichlet bc and w is linear.
+    w, with the same shape as u.
   """
   if not isinstance(bc, boundaries.ConstantBoundaryConditions):
     raise NotImplementedError(
         f'transformation cannot be done for this {bc}.')
-  u_data = u.data
-  for axis in range(u.grid.ndim):
-    for i, _ in enumerate(['lower', 'upper']):  # lower and upper boundary
-      if bc.types[axis][i] == boundaries.BCType.DIRICHLET:
-        bc_values = [0., 0.]
-        bc_values[i] = bc.bc_values[axis][i]
-        u_data = _subtract_linear_part_dirichlet(u_data, u.grid, axis, u.offset,
-                                                 bc_values)
-      elif bc.types[axis][i] == boundaries.BCType.NEUMANN:
-        if any(bc.bc_values[axis]):
-          raise NotImplementedError(
-              'transformation is not implemented for inhomogeneous Neumann bc.')
-  return u_data
+  zeros = grids.GridArray(jnp.zeros_like(u.data), u.offset, u.grid)
+  laplacian = fd.laplacian(bc.pad_and_impose_bc(zeros, offset))
+  return bc.trim_boundary(laplacian).data
 
 
 def solve_cg(v: GridVariableVector,
@@ -179,12 +129,12 @@ def solve_fast_diag(
 
   # Compute (1 - ν Δt ∇²)⁻¹ u as u + (1 - ν Δt ∇²)⁻¹ (ν Δt ∇²) u, for less
   # error when ν Δt is small.
-  # If dirichlet bc are supplied: only works for dirichlet bc that are linear
-  # functions on the boundary. Then u = u' + w where u' has 0 dirichlet bc and
-  # w is linear. Then u + (1 - ν Δt ∇²)⁻¹ (ν Δt ∇²) u = u +
-  # (1 - ν Δt ∇²)⁻¹(ν Δt ∇²)u'. The function _rhs_transform subtracts
-  # the linear part s.t. fast_diagonalization solves
-  # u + (1 - ν Δt ∇²)⁻¹ (ν Δt ∇²) u'.
+  # With inhomogeneous boundary conditions, ∇²u = Lu + w inside the domain, where
+  # w depends on the boundary values only. In this case we also have to add
+  # (1 - ν Δt L)⁻¹ (ν Δt w).
+  def boundary_func(x):
+    return (dt * nu) / (1 - (dt * nu) * x)
+
   v_diffused = list()
   if boundaries.has_all_periodic_boundary_conditions(*v):
     circulant = True
@@ -203,10 +153,19 @@ def solve_fast_diag(
         circulant=circulant,
         implementation=implementation)
     u_interior = u.bc.trim_boundary(u.array)
-    u_interior_transformed = _rhs_transform(u_interior, u.bc)
-    u_dt_diffused = grids.GridArray(
-        op(u_interior_transformed), u_interior.offset, u_interior.grid)
-    u_diffused = u_interior + u_dt_diffused
+    u_dt_diffused = op(u_interior.data)
+    if not isinstance(u.bc, boundaries.HomogeneousBoundaryConditions):
+      boundary_op = fast_diagonalization.transform(
+          boundary_func,
+          laplacians,
+          v[0].dtype,
+          hermitian=True,
+          circulant=circulant,
+          implementation=implementation)
+      u_dt_diffused += boundary_op(
+          _boundary_laplacian(u_interior, u.bc, u.offset))
+    u_diffused = u_interior + grids.GridArray(
+        u_dt_diffused, u_interior.offset, u_interior.grid)
     u_diffused = u.bc.pad_and_impose_bc(u_diffused, offset_to_pad_to=u.offset)
     v_diffused.append(u_diffused)
   return tuple(v_diffused)
-- 
2.43.0


From 1a0cbd9e935db9d4c8d9101a7f57a48d50d38a20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:47 +0000
Subject: [PATCH 06/33] fix: implicit diffusion Navier-Stokes uses the
 kinematic viscosity, like the explicit one

---
 jax_cfd/base/equations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jax_cfd/base/equations.py b/jax_cfd/base/equations.py
index af0954e..922eb5b 100644
--- a/jax_cfd/base/equations.py
+++ b/jax_cfd/base/equations.py
@@ -190,6 +190,6 @@ def implicit_diffusion_navier_stokes(
     # Pressure projection to incompressible velocity field
     v = pressure_projection(v, pressure_solve)
     # Solve for implicit diffusion
-    v = diffusion_solve(v, viscosity, dt)
+    v = diffusion_solve(v, viscosity / density, dt)
     return v
   return navier_stokes_step
-- 
2.43.0


From 46a3362d81d73fc4d27135d90549a45692e5c94a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:12 +0000
Subject: [PATCH 07/33] fix: pressure projection of velocities that do not
 respect their wall values

---
 jax_cfd/base/pressure.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/jax_cfd/base/pressure.py b/jax_cfd/base/pressure.py
index 29032a2..ffefada 100644
--- a/jax_cfd/base/pressure.py
+++ b/jax_cfd/base/pressure.py
@@ -188,6 +188,9 @@ def projection(
   """Apply pressure projection to make a velocity field divergence free."""
   grid = grids.consistent_grid(*v)
   pressure_bc = boundaries.get_pressure_bc_from_velocity(v)
+  # The divergence has to be computed from the wall values that the projected
+  # velocity will have, even if `v` does not respect its boundary conditions.
+  v = tuple(u.bc.impose_bc(u.array) for u in v)
 
   q0 = grids.GridArray(jnp.zeros(grid.shape), grid.cell_center, grid)
   q0 = pressure_bc.impose_bc(q0)
-- 
2.43.0


From 38a7747b34f46386381141320a9bacc6a775f14b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:52 +0000
Subject: [PATCH 08/33] fix: implicit diffusion Navier-Stokes returns a
 divergence-free velocity next to walls

---
 jax_cfd/base/equations.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/jax_cfd/base/equations.py b/jax_cfd/base/equations.py
index 922eb5b..cebc60e 100644
--- a/jax_cfd/base/equations.py
+++ b/jax_cfd/base/equations.py
@@ -187,9 +187,10 @@ def implicit_diffusion_navier_stokes(
     v = tuple(
         grids.GridVariable(u.array + dudt * dt, u.bc)
         for u, dudt in zip(v, dvdt))
-    # Pressure projection to incompressible velocity field
-    v = pressure_projection(v, pressure_solve)
     # Solve for implicit diffusion
     v = diffusion_solve(v, viscosity / density, dt)
+    # Pressure projection to incompressible velocity field. This comes last
+    # because next to walls diffusion does not preserve incompressibility.
+    v = pressure_projection(v, pressure_solve)
     return v
   return navier_stokes_step
-- 
2.43.0


From 55d260a35c439dae67459951c4183a1da16a48d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:10 +0000
Subject: [PATCH 09/33] fix: reject low-storage Runge-Kutta schemes with
 mismatched coefficients

---
 jax_cfd/spectral/time_stepping.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jax_cfd/spectral/time_stepping.py b/jax_cfd/spectral/time_stepping.py
index 6a5720b..2528be8 100644
--- a/jax_cfd/spectral/time_stepping.py
+++ b/jax_cfd/spectral/time_stepping.py
@@ -156,7 +156,7 @@ def low_storage_runge_kutta_crank_nicolson(
   G = tree_math.unwrap(equation.implicit_terms)
   G_inv = tree_math.unwrap(equation.implicit_solve, vector_argnums=0)
 
-  if len(alphas) - 1 != len(betas) != len(gammas):
+  if not len(alphas) - 1 == len(betas) == len(gammas):
     raise ValueError("number of RK coefficients does not match")
 
   @tree_math.wrap
-- 
2.43.0


From 840c5de9398de8613b1c4da7d4ea359141abce13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:14 +0000
Subject: [PATCH 10/33] fix: two-thirds rule filter keeps conjugate wavenumbers
 together

---
 jax_cfd/spectral/utils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/jax_cfd/spectral/utils.py b/jax_cfd/spectral/utils.py
index 97a6b49..76a82ca 100644
--- a/jax_cfd/spectral/utils.py
+++ b/jax_cfd/spectral/utils.py
@@ -129,8 +129,10 @@ def brick_wall_filter_2d(grid: grids.Grid):
   """Implements the 2/3 rule."""
   n, m = grid.shape
   filter_ = jnp.zeros((n, m // 2 + 1))
-  filter_ = filter_.at[:int(2 / 3 * n) // 2, :int(2 / 3 * (m // 2 + 1))].set(1)
-  filter_ = filter_.at[-int(2 / 3 * n) // 2:, :int(2 / 3 * (m // 2 + 1))].set(1)
+  # keep wavenumbers smaller than n / 3 in absolute value, of either sign.
+  max_k = (n - 1) // 3
+  filter_ = filter_.at[:max_k + 1, :int(2 / 3 * (m // 2 + 1))].set(1)
+  filter_ = filter_.at[n - max_k:, :int(2 / 3 * (m // 2 + 1))].set(1)
   return filter_
 
 
-- 
2.43.0


From d283963ebc711fab50a6b2ca81edef10c127f9fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:14 +0000
Subject: [PATCH 11/33] fix: NavierStokes2D(smooth=False) does not filter the
 advection term

---
 jax_cfd/spectral/equations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jax_cfd/spectral/equations.py b/jax_cfd/spectral/equations.py
index a8f9b63..999be1a 100644
--- a/jax_cfd/spectral/equations.py
+++ b/jax_cfd/spectral/equations.py
@@ -169,7 +169,7 @@ class NavierStokes2D(time_stepping.ImplicitExplicitODE):
     advection = -(grad_x * vx + grad_y * vy)
     advection_hat = jnp.fft.rfftn(advection)
 
-    if self.smooth is not None:
+    if self.smooth:
       advection_hat *= self.filter_
 
     terms = advection_hat
-- 
2.43.0


From ff69f026de49a3928e3a0d25d0f1908ba772b815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:11 +0000
Subject: [PATCH 12/33] fix: ConstantBoundaryConditions.values returns (None,
 None) along periodic axes

HomogeneousBoundaryConditions stores 0.0 on every axis, so the method
returned arrays of zeros along periodic axes, against its docstring.
---
 jax_cfd/base/boundaries.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jax_cfd/base/boundaries.py b/jax_cfd/base/boundaries.py
index 8a0e1cb..fd5d734 100644
--- a/jax_cfd/base/boundaries.py
+++ b/jax_cfd/base/boundaries.py
@@ -451,7 +451,8 @@ class ConstantBoundaryConditions(BoundaryConditions):
       A tuple of arrays of grid.ndim - 1 dimensions that specify values on the
       boundary. In case of periodic boundaries, returns a tuple(None,None).
     """
-    if None in self.bc_values[axis]:
+    if (self.types[axis][0] == BCType.PERIODIC or
+        None in self.bc_values[axis]):
       return (None, None)
     bc_values = tuple(
         jnp.full(grid.shape[:axis] +
-- 
2.43.0


From e0ee950e9af7779217d59444859800a5d6fa6ffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:11 +0000
Subject: [PATCH 13/33] fix: flux boundary conditions are built from tuples

get_advection_flux_bc_from_velocity_and_scalar stored lists, so the
resulting condition was unhashable and compared unequal to the same
condition built anywhere else.
---
 jax_cfd/base/boundaries.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jax_cfd/base/boundaries.py b/jax_cfd/base/boundaries.py
index fd5d734..d2855e7 100644
--- a/jax_cfd/base/boundaries.py
+++ b/jax_cfd/base/boundaries.py
@@ -817,6 +817,6 @@ def get_advection_flux_bc_from_velocity_and_scalar(
         else:
           raise NotImplementedError(
               f'Flux boundary condition is not implemented for {u.bc, c.bc}')
-      flux_bc_types.append(flux_bc_types_ax)
-      flux_bc_values.append(flux_bc_values_ax)
+      flux_bc_types.append(tuple(flux_bc_types_ax))
+      flux_bc_values.append(tuple(flux_bc_values_ax))
   return ConstantBoundaryConditions(flux_bc_types, flux_bc_values)
-- 
2.43.0


From 2c4388288b78be481910fa7ec1a87ee20e14fdee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:08 +0000
Subject: [PATCH 14/33] fix: downsample_spectral onto grids of odd size

-num_x // 2 rounds away from zero, so one too many negative and one too few
positive wavenumbers were kept.
---
 jax_cfd/base/resize.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jax_cfd/base/resize.py b/jax_cfd/base/resize.py
index ceb3c3c..c1eaf1d 100644
--- a/jax_cfd/base/resize.py
+++ b/jax_cfd/base/resize.py
@@ -231,7 +231,8 @@ def downsample_spectral(_: grids.Grid, destination_grid: grids.Grid,
   input_num_x, _ = signal_hat.shape
 
   downed = jnp.concatenate(
-      [signal_hat[:num_x // 2, :num_y], signal_hat[-num_x // 2:, :num_y]])
+      [signal_hat[:(num_x + 1) // 2, :num_y],
+       signal_hat[input_num_x - num_x // 2:, :num_y]])
 
   scale = (num_x / input_num_x)
   downed *= scale**2
-- 
2.43.0


From ee141b6fc75732a92361552dbc47abd400816061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:34 +0000
Subject: [PATCH 15/33] fix: slice/stack_last_n_state_encoder take the last n
 slices along time_axis

---
 jax_cfd/ml/encoders.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/jax_cfd/ml/encoders.py b/jax_cfd/ml/encoders.py
index c2ca2de..20f3568 100644
--- a/jax_cfd/ml/encoders.py
+++ b/jax_cfd/ml/encoders.py
@@ -101,7 +101,8 @@ def slice_last_n_state_encoder(
   """Generates encoder that returns last `n` data slices along last axis."""
   del grid, dt, physics_specs  # unused.
   def encode_fn(inputs):
-    init_slice = array_utils.slice_along_axis(inputs, 0, slice(-n, None))
+    init_slice = array_utils.slice_along_axis(
+        inputs, time_axis, slice(-n, None))
     return jax.tree.map(lambda x: jnp.moveaxis(x, time_axis, -1), init_slice)
   return encode_fn
 
@@ -117,7 +118,7 @@ def stack_last_n_state_encoder(
   """Generates encoder that stacks last `n` inputs slices along last axis."""
   del grid, dt, physics_specs  # unused.
   def encode_fn(inputs):
-    inputs = array_utils.slice_along_axis(inputs, 0, slice(-n, None))
+    inputs = array_utils.slice_along_axis(inputs, time_axis, slice(-n, None))
     inputs = jax.tree.map(lambda x: jnp.moveaxis(x, time_axis, -1), inputs)
     return array_utils.concat_along_axis(jax.tree.leaves(inputs), axis=-1)
 
-- 
2.43.0


From 9216fe23038ca0c2ae6e6cf7bdea711bb0e0b36a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:59 +0000
Subject: [PATCH 16/33] fix: MirrorConv pads every axis for its own kernel size
 instead of the sum over axes

---
 jax_cfd/ml/layers.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/jax_cfd/ml/layers.py b/jax_cfd/ml/layers.py
index 9c662d7..8e2d6ce 100644
--- a/jax_cfd/ml/layers.py
+++ b/jax_cfd/ml/layers.py
@@ -165,12 +165,11 @@ class MirrorConvGeneral(hk.Module):
       **conv_kwargs: additional arguments passed to `base_convolution`.
     """
     super().__init__(name=name)
-    self._padding = np.zeros(2).astype('int')
+    self._padding = []
     for kernel_size in kernel_shape:
       effective_kernel = kernel_size + (rate - 1) * (kernel_size - 1)
       pad_left = effective_kernel // 2
-      self._padding += np.array([pad_left,
-                                 effective_kernel - pad_left - 1]).astype('int')
+      self._padding.append((pad_left, effective_kernel - pad_left - 1))
     self._tile_layout = tile_layout
     self._conv_module = base_convolution(
         output_channels=output_channels, kernel_shape=kernel_shape,
@@ -178,7 +177,7 @@ class MirrorConvGeneral(hk.Module):
 
   def _expand_var(self, var):
     var = var.bc.pad_all(
-        var, (self._padding,) * var.grid.ndim, mode=boundaries.Padding.MIRROR)
+        var, tuple(self._padding), mode=boundaries.Padding.MIRROR)
     return jnp.expand_dims(var.data, axis=-1)
 
   def __call__(self, inputs):
-- 
2.43.0


From cc0958b1c9cbf15b672a22746eb5d18fd4b2822d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:59 +0000
Subject: [PATCH 17/33] fix: SpatialDerivative rolls inputs along each spatial
 axis, not the flattened array

---
 jax_cfd/ml/layers.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/jax_cfd/ml/layers.py b/jax_cfd/ml/layers.py
index 8e2d6ce..abac456 100644
--- a/jax_cfd/ml/layers.py
+++ b/jax_cfd/ml/layers.py
@@ -624,7 +624,7 @@ class SpatialDerivativeFromLogits:
                        f'size; {logits.shape[-1]} vs. {self.subspace_size}')
 
   def extract_patches(self, inputs):
-    rolled = jnp.roll(inputs, self.roll)
+    rolled = jnp.roll(inputs, self.roll, axis=tuple(range(len(self.roll))))
     patches = layers_util.extract_patches(
         rolled, self.stencil_shape,
         self._extract_patch_method, self.tile_layout)
@@ -746,12 +746,14 @@ class SpatialDerivative:
     # `roll` implementation of `extract_patches`, we can simply add it to the
     # `shifts`. For the `conv` implementation, we may be able to effectively
     # roll the input by adjusting how arrays are padded.
-    rolled = jnp.roll(inputs, self._roll)
+    roll_axes = tuple(range(len(self._roll)))
+    rolled = jnp.roll(inputs, self._roll, axis=roll_axes)
     patches = layers_util.extract_patches(
         rolled, self._stencil_shape,
         self._extract_patch_method, self._tile_layout)
     if auxiliary_inputs is not None:
-      auxiliary_inputs = [jnp.roll(aux, self._roll) for aux in auxiliary_inputs]
+      auxiliary_inputs = [jnp.roll(aux, self._roll, axis=roll_axes)
+                          for aux in auxiliary_inputs]
       rolled = jnp.concatenate([rolled, *auxiliary_inputs], axis=-1)
     coefficients = self._coefficients_module(rolled)
     return layers_util.apply_coefficients(coefficients, patches)
-- 
2.43.0


From 5d91d9c5fcdee3d1db128571c52785b186cb9669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:59 +0000
Subject: [PATCH 18/33] fix: constrain_with_conv works without a tile layout
 and in double precision

---
 jax_cfd/ml/layers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jax_cfd/ml/layers.py b/jax_cfd/ml/layers.py
index abac456..92ae8a2 100644
--- a/jax_cfd/ml/layers.py
+++ b/jax_cfd/ml/layers.py
@@ -673,9 +673,9 @@ def fuse_spatial_derivative_layers(
   tile_layout, = {deriv.tile_layout for deriv in derivatives.values()}
 
   if constrain_with_conv:
-    ndim = len(tile_layout)
+    ndim = all_logits.ndim - 1
     kernel = jnp.expand_dims(
-        joint_nullspace.astype(np.float32), axis=tuple(range(ndim)))
+        joint_nullspace.astype(all_logits.dtype), axis=tuple(range(ndim)))
     all_coefficients = joint_bias + layers_util.periodic_convolution(
         all_logits, kernel, tile_layout=tile_layout, precision=precision)
   else:
-- 
2.43.0


From 02c0fda414397e0c4c2e44d3092522ead4a45c49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:59 +0000
Subject: [PATCH 19/33] fix: FusedLearnedInterpolation returns its input
 unchanged at the same offset

---
 jax_cfd/ml/interpolations.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jax_cfd/ml/interpolations.py b/jax_cfd/ml/interpolations.py
index f984038..1db3458 100644
--- a/jax_cfd/ml/interpolations.py
+++ b/jax_cfd/ml/interpolations.py
@@ -104,11 +104,11 @@ class FusedLearnedInterpolation:
                dt: float,
                tag=None) -> GridVariable:
     del dt  # not used.
+    # TODO(jamieas): Try removing the following line.
+    if c.offset == offset: return c
     # TODO(dkochkov) Add decorator to expand/squeeze channel dim.
     c = grids.GridVariable(
         grids.GridArray(jnp.expand_dims(c.data, -1), c.offset, c.grid), c.bc)
-    # TODO(jamieas): Try removing the following line.
-    if c.offset == offset: return c
     key = (c.offset, offset, tag)
     interpolator = self._interpolators.get(key)
     if interpolator is None:
-- 
2.43.0


From 865fa857c4706336829d429258b91ea8badb2b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:21 +0000
Subject: [PATCH 20/33] fix: polynomial_accuracy_coefficients rejects stencils
 too small for the requested accuracy

---
 jax_cfd/ml/layers_util.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/jax_cfd/ml/layers_util.py b/jax_cfd/ml/layers_util.py
index fe741f0..fedc6e5 100644
--- a/jax_cfd/ml/layers_util.py
+++ b/jax_cfd/ml/layers_util.py
@@ -214,6 +214,10 @@ def polynomial_accuracy_coefficients(
       excess = 0
     else:
       excess = stencil.size - derivative_order - accuracy_order
+      if excess < 0:
+        raise ValueError(f'stencil of size {stencil.size} is too small for '
+                         f'accuracy_order {accuracy_order} of derivative_order '
+                         f'{derivative_order}')
     start = excess // 2
     stop = stencil.size - excess // 2
     slice_ = slice(start, stop)
-- 
2.43.0


From 12fc0d91c5082dc9f5daee187c0c9525c0ac4ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:39 +0000
Subject: [PATCH 21/33] fix: PolynomialConstraint rejects stencils with more
 constraints than coefficients

---
 jax_cfd/ml/layers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jax_cfd/ml/layers.py b/jax_cfd/ml/layers.py
index 92ae8a2..2dc5ea5 100644
--- a/jax_cfd/ml/layers.py
+++ b/jax_cfd/ml/layers.py
@@ -508,7 +508,7 @@ class PolynomialConstraint():
     # https://en.wikipedia.org/wiki/Kernel_(linear_algebra)#Nonhomogeneous_systems_of_linear_equations
     _, _, v = np.linalg.svd(constraint_matrix)
     nullspace_size = constraint_matrix.shape[1] - constraint_matrix.shape[0]
-    if not nullspace_size:
+    if nullspace_size <= 0:
       raise ValueError(
           'there is only one valid solution accurate to this order')
 
-- 
2.43.0


From 0ac5f2a2fc730d4c536c67037eeb25ce54cf96b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:44 +0000
Subject: [PATCH 22/33] fix: default process_fn of
 velocity_corrector_network_w_boundaries accepts the velocity

---
 jax_cfd/ml/networks.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jax_cfd/ml/networks.py b/jax_cfd/ml/networks.py
index f8b2a0d..4c83571 100644
--- a/jax_cfd/ml/networks.py
+++ b/jax_cfd/ml/networks.py
@@ -199,7 +199,7 @@ def velocity_corrector_network_w_boundaries(
     network_offsets: Tuple[Tuple[float, ...], ...],
     num_output_channels: int,
     name: Optional[str] = None,
-    process_fn: Optional[Callable] = _identity,  # pylint: disable=g-bare-generic
+    process_fn: Optional[Callable] = lambda x: x,  # pylint: disable=g-bare-generic
 ):
   """Returns a module that computes corrections to the velocity field."""
   pre_process = functools.partial(
-- 
2.43.0


From 38918ef370e9126b89eb5b5640991ebcca8b7307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:44 +0000
Subject: [PATCH 23/33] fix: local_reduce reduces over the axis on which vmap
 stacks the batch

---
 jax_cfd/ml/metrics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jax_cfd/ml/metrics.py b/jax_cfd/ml/metrics.py
index 0fbea33..cd75ba6 100644
--- a/jax_cfd/ml/metrics.py
+++ b/jax_cfd/ml/metrics.py
@@ -98,7 +98,7 @@ def local_reduce(metric: Callable[..., Array],
   """
   def reduced_metric(*args, **kwargs):
     metric_value = jax.vmap(metric, batch_axis)(*args, **kwargs)
-    return reduction_function(metric_value, batch_axis)
+    return reduction_function(metric_value, 0)  # vmap puts the batch first
   return reduced_metric
 
 
-- 
2.43.0


From ab225251cdaa7f649b43c45285ec7e8c7bfd65ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:44 +0000
Subject: [PATCH 24/33] fix: correlation_single_step reduces over the state
 axes, not the batch

---
 jax_cfd/ml/metrics.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/jax_cfd/ml/metrics.py b/jax_cfd/ml/metrics.py
index cd75ba6..c6e8605 100644
--- a/jax_cfd/ml/metrics.py
+++ b/jax_cfd/ml/metrics.py
@@ -67,9 +67,10 @@ def correlation_single_step(trajectory: Tuple[Array, ...],
   """Computes correlation on the `n`th time slice."""
   trajectory = jnp.stack(arr_utils.slice_along_axis(trajectory, time_axis, n))
   target = jnp.stack(arr_utils.slice_along_axis(target, time_axis, n))
-  state_axes = tuple(axis if axis <= time_axis else axis - 1
-                     for axis in range(trajectory.ndim)
-                     if axis != time_axis and axis != batch_axis)
+  # slicing removed the time axis and stacking added the components in front.
+  batch_axis_stacked = batch_axis + (batch_axis < time_axis)
+  state_axes = tuple(axis for axis in range(trajectory.ndim)
+                     if axis != batch_axis_stacked)
   trajectory_normalized = _normalize(trajectory, state_axes)
   target_normalized = _normalize(target, state_axes)
   return (trajectory_normalized * target_normalized).sum(axis=state_axes).mean()
-- 
2.43.0


From b3a1d46262c17de4afbca3691409782011d9eb35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:54 +0000
Subject: [PATCH 25/33] fix: spatial_autocorrelation labels displacements from
 zero

---
 jax_cfd/data/xarray_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jax_cfd/data/xarray_utils.py b/jax_cfd/data/xarray_utils.py
index 1dc971b..66d4fa6 100644
--- a/jax_cfd/data/xarray_utils.py
+++ b/jax_cfd/data/xarray_utils.py
@@ -225,7 +225,8 @@ def spatial_autocorrelation(array, spatial_axis='x'):
   # we only report the unique half of the autocorrelation.
   num_unique_displacements = spatial_axis_size // 2
   result = full_result.isel({out_axis_name: slice(0, num_unique_displacements)})
-  displacement_coords = array.coords[spatial_axis][:num_unique_displacements]
+  positions = array.coords[spatial_axis].values[:num_unique_displacements]
+  displacement_coords = positions - positions[:1]
   result.coords[out_axis_name] = (out_axis_name, displacement_coords)
   return result
 
-- 
2.43.0


From b993192f6010f298b169a2faad1f99e71929e8a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:54 +0000
Subject: [PATCH 26/33] fix: temporal_autocorrelation labels time differences
 from zero

---
 jax_cfd/data/evaluation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jax_cfd/data/evaluation.py b/jax_cfd/data/evaluation.py
index 9c81d78..d4af47a 100644
--- a/jax_cfd/data/evaluation.py
+++ b/jax_cfd/data/evaluation.py
@@ -199,7 +199,8 @@ def temporal_autocorrelation(array):
   full_result = xarray.Dataset(
       data_vars=dict(t_corr=(['time', 'sample', 'x', 'model'], full_result)),
       coords={
-          'dt': np.array(array.time[slice(None, None, subsample)]),
+          'dt': np.array(array.time[slice(None, None, subsample)]
+                         - array.time[0]),
           'sample': array.sample,
           'x': array.x,
           'model': array.model
-- 
2.43.0


From ef60f48e243562a92002dc9623104232dab282ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:54 +0000
Subject: [PATCH 27/33] fix: compute_summary_dataset averages over the
 requested non_spatial_dims

---
 jax_cfd/data/evaluation.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/jax_cfd/data/evaluation.py b/jax_cfd/data/evaluation.py
index d4af47a..1517250 100644
--- a/jax_cfd/data/evaluation.py
+++ b/jax_cfd/data/evaluation.py
@@ -305,11 +305,13 @@ def compute_summary_dataset(
     custom_summaries = []
 
   mean_summaries = [
-      average(s.sel(model=eval_model_name), ndim).rename(s.name + '_mean')
+      average(s.sel(model=eval_model_name), ndim, non_spatial_dims).rename(
+          s.name + '_mean')
       for s in summaries
   ]
   error_summaries = [
-      average(absolute_error(s, eval_model_name, target_model_name), ndim)
+      average(absolute_error(s, eval_model_name, target_model_name), ndim,
+              non_spatial_dims)
       for s in summaries
   ]
   correlation_summaries = [
@@ -331,7 +333,7 @@ def compute_summary_dataset(
       below_error = below_error_threshold(summary, error_threshold,
                                           eval_model_name, target_model_name)
       below_error.name = f'{name}_within_q={threshold_quantile}'
-      threshold_summaries.append(average(below_error, ndim))
+      threshold_summaries.append(average(below_error, ndim, non_spatial_dims))
 
   all_summaries = (
       mean_summaries + error_summaries + threshold_summaries +
-- 
2.43.0


From c5020820b28d48404bdf601ba4457c381842ba24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:00 +0000
Subject: [PATCH 28/33] fix: TaylorGreen decays at the rate of its wavenumbers
 and is solenoidal for kx != ky

---
 jax_cfd/base/validation_problems.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/jax_cfd/base/validation_problems.py b/jax_cfd/base/validation_problems.py
index bb09b2c..795a4d0 100644
--- a/jax_cfd/base/validation_problems.py
+++ b/jax_cfd/base/validation_problems.py
@@ -85,7 +85,7 @@ class TaylorGreen(Problem):
     if offsets is None:
       offsets = self.grid.cell_faces
 
-    scale = jnp.exp(-2 * self.viscosity * t)
+    scale = jnp.exp(-(self._kx**2 + self._ky**2) * self.viscosity * t)
 
     ux, uy = self.grid.mesh(offsets[0])
     u = grids.GridVariable(
@@ -98,7 +98,8 @@ class TaylorGreen(Problem):
     vx, vy = self.grid.mesh(offsets[1])
     v = grids.GridVariable(
         array=grids.GridArray(
-            data=-scale * jnp.sin(self._kx * vx) * jnp.cos(self._ky * vy),
+            data=-scale * (self._kx / self._ky) * jnp.sin(self._kx * vx)
+            * jnp.cos(self._ky * vy),
             offset=offsets[1],
             grid=self.grid),
         bc=boundaries.periodic_boundary_conditions(self.grid.ndim))
-- 
2.43.0


From ebb81b69a8ac9228743ffe7a46ca3824315fabd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:00 +0000
Subject: [PATCH 29/33] fix: kolmogorov_forcing puts its zero components at the
 requested offsets

---
 jax_cfd/base/forcings.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/jax_cfd/base/forcings.py b/jax_cfd/base/forcings.py
index 7990a83..d27095e 100644
--- a/jax_cfd/base/forcings.py
+++ b/jax_cfd/base/forcings.py
@@ -76,11 +76,11 @@ def kolmogorov_forcing(
     v = scale * grids.GridArray(jnp.sin(k * x), offsets[1], grid)
 
     if grid.ndim == 2:
-      u = grids.GridArray(jnp.zeros_like(v.data), (1, 1/2), grid)
+      u = grids.GridArray(jnp.zeros_like(v.data), offsets[0], grid)
       f = (u, v)
     elif grid.ndim == 3:
-      u = grids.GridArray(jnp.zeros_like(v.data), (1, 1/2, 1/2), grid)
-      w = grids.GridArray(jnp.zeros_like(u.data), (1/2, 1/2, 1), grid)
+      u = grids.GridArray(jnp.zeros_like(v.data), offsets[0], grid)
+      w = grids.GridArray(jnp.zeros_like(u.data), offsets[2], grid)
       f = (u, v, w)
     else:
       raise NotImplementedError
@@ -89,11 +89,11 @@ def kolmogorov_forcing(
     u = scale * grids.GridArray(jnp.sin(k * y), offsets[0], grid)
 
     if grid.ndim == 2:
-      v = grids.GridArray(jnp.zeros_like(u.data), (1/2, 1), grid)
+      v = grids.GridArray(jnp.zeros_like(u.data), offsets[1], grid)
       f = (u, v)
     elif grid.ndim == 3:
-      v = grids.GridArray(jnp.zeros_like(u.data), (1/2, 1, 1/2), grid)
-      w = grids.GridArray(jnp.zeros_like(u.data), (1/2, 1/2, 1), grid)
+      v = grids.GridArray(jnp.zeros_like(u.data), offsets[1], grid)
+      w = grids.GridArray(jnp.zeros_like(u.data), offsets[2], grid)
       f = (u, v, w)
     else:
       raise NotImplementedError
-- 
2.43.0


From 4fa01684b6904515e3a59fbc7f2187cb74e98082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:11 +0000
Subject: [PATCH 30/33] fix: eddy viscosity accelerations are not divided by
 the density

---
 jax_cfd/base/subgrid_models.py | 13 +++++++++----
 jax_cfd/ml/equations.py        |  8 +++++++-
 2 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/jax_cfd/base/subgrid_models.py b/jax_cfd/base/subgrid_models.py
index d2bba37..5c7c361 100644
--- a/jax_cfd/base/subgrid_models.py
+++ b/jax_cfd/base/subgrid_models.py
@@ -185,7 +185,7 @@ def implicit_evm_solve_with_diffusion(
       grids.GridVariable(u_prime, u.bc) for u_prime, u in zip(v_prime, v))
 
 
-def explicit_smagorinsky_navier_stokes(dt, cs, forcing, **kwargs):
+def explicit_smagorinsky_navier_stokes(dt, cs, forcing, *, density, **kwargs):
   """Constructs explicit navier-stokes model with Smagorinsky viscosity term.
 
   Navier-Stokes model that uses explicit time stepping for the eddy viscosity
@@ -195,6 +195,7 @@ def explicit_smagorinsky_navier_stokes(dt, cs, forcing, **kwargs):
     dt: time step to be performed.
     cs: smagorinsky constant.
     forcing: forcing term.
+    density: density of the fluid.
     **kwargs: other keyword arguments to be passed to
       `equations.semi_implicit_navier_stokes`.
 
@@ -206,11 +207,15 @@ def explicit_smagorinsky_navier_stokes(dt, cs, forcing, **kwargs):
       smagorinsky_viscosity, dt=dt, cs=cs)
   smagorinsky_acceleration = functools.partial(
       evm_model, viscosity_fn=viscosity_fn)
+  # The equations divide forcing by density, which must not alter accelerations.
+  smagorinsky_force = lambda v: tuple(
+      density * a for a in smagorinsky_acceleration(v))
   if forcing is None:
-    forcing = smagorinsky_acceleration
+    forcing = smagorinsky_force
   else:
-    forcing = forcings.sum_forcings(forcing, smagorinsky_acceleration)
-  return equations.semi_implicit_navier_stokes(dt=dt, forcing=forcing, **kwargs)
+    forcing = forcings.sum_forcings(forcing, smagorinsky_force)
+  return equations.semi_implicit_navier_stokes(
+      dt=dt, forcing=forcing, density=density, **kwargs)
 
 
 def implicit_smagorinsky_navier_stokes(dt, cs, **kwargs):
diff --git a/jax_cfd/ml/equations.py b/jax_cfd/ml/equations.py
index 159197d..3f1c014 100644
--- a/jax_cfd/ml/equations.py
+++ b/jax_cfd/ml/equations.py
@@ -130,7 +130,13 @@ def modular_navier_stokes_model(
         acceleration_module(grid, dt, physics_specs, v=v)
         for acceleration_module in acceleration_modules
     ]
-    forcing = forcings.sum_forcings(active_forcing_fn, *accelerations)
+    # The equations divide forcing by density, which must not alter accelerations.
+    acceleration_forces = [
+        lambda v, fn=acceleration: jax.tree.map(  # pylint: disable=g-long-lambda
+            lambda a: physics_specs.density * a, fn(v))
+        for acceleration in accelerations
+    ]
+    forcing = forcings.sum_forcings(active_forcing_fn, *acceleration_forces)
     pressure_solve_fn = pressure_module(grid, dt, physics_specs)
     step_fn = equation_solver(
         grid=grid,
-- 
2.43.0


From 858fe20f4ceddd8b5a1e17ee8ea76a8a91fb04e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:55 +0000
Subject: [PATCH 31/33] fix: arrays one interior value short were accepted
 between Dirichlet walls

---
 jax_cfd/base/boundaries.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/jax_cfd/base/boundaries.py b/jax_cfd/base/boundaries.py
index d2855e7..c74de05 100644
--- a/jax_cfd/base/boundaries.py
+++ b/jax_cfd/base/boundaries.py
@@ -118,11 +118,10 @@ class ConstantBoundaryConditions(BoundaryConditions):
       True if u is aligned, and raises error otherwise.
     """
     size_diff = u.shape[axis] - u.grid.shape[axis]
-    if self.types[axis][0] == BCType.DIRICHLET and np.isclose(
-        u.offset[axis], 1):
-      size_diff += 1
     if self.types[axis][1] == BCType.DIRICHLET and np.isclose(
         u.offset[axis], 1):
+      # the first value is inside of the domain, only the last one can be on the
+      # boundary.
       size_diff += 1
     if self.types[axis][0] == BCType.NEUMANN and np.isclose(
         u.offset[axis] % 1, 0):
-- 
2.43.0


From f4a36e023ece1918b97b4752d4b4c2970e8c8d58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:19 +0000
Subject: [PATCH 32/33] fix: the pressure solve discarded resolved modes on
 large domains and kept the null mode on small ones

The default cutoff of the pseudo-inverse was an absolute number, but the
eigenvalues of the Laplacian scale with the inverse square of the grid step.
---
 jax_cfd/base/fast_diagonalization.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/jax_cfd/base/fast_diagonalization.py b/jax_cfd/base/fast_diagonalization.py
index af00a31..f75d95f 100644
--- a/jax_cfd/base/fast_diagonalization.py
+++ b/jax_cfd/base/fast_diagonalization.py
@@ -248,18 +248,19 @@ def pseudoinverse(
     precision: numerical precision for matrix multplication. Only relevant on
       TPUs.
     cutoff: eigenvalues with absolute value smaller than this number are
-      discarded rather than being inverted. By default, uses 10 times floating
-      point epsilon.
+      discarded rather than being inverted. By default, uses the size of the
+      rounding errors of the eigenvalues, which is relative to the largest one.
 
   Returns:
     A function that computes the pseudo-inverse of the indicated operator.
   """
-  if cutoff is None:
-    cutoff = 10 * jnp.finfo(dtype).eps
-
   def func(v):
+    threshold = cutoff
+    if threshold is None:
+      # relative to the operators, whose eigenvalues depend on units of length.
+      threshold = 10 * max(v.shape) * np.finfo(v.dtype).eps * np.max(abs(v))
     with np.errstate(divide='ignore', invalid='ignore'):
-      return np.where(abs(v) > cutoff, 1 / v, 0)
+      return np.where(abs(v) > threshold, 1 / v, 0)
 
   return transform(func, operators, dtype, hermitian=hermitian,
                    circulant=circulant, implementation=implementation,
-- 
2.43.0


From 0b848eecd69389d964c98d4b34d5df1d66a4c451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:43 +0000
Subject: [PATCH 33/33] fix: interior masks counted interior faces as walls on
 domains far from the origin

The comparison of face positions with the walls was relative to the
coordinates, not to the grid step.
---
 jax_cfd/base/grids.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/jax_cfd/base/grids.py b/jax_cfd/base/grids.py
index 3c87f38..bca2028 100644
--- a/jax_cfd/base/grids.py
+++ b/jax_cfd/base/grids.py
@@ -682,8 +682,10 @@ def domain_interior_masks(grid: Grid):
     mesh = grid.mesh(offset)
     mask = 1
     for i, x in enumerate(mesh):
-      lower = (np.invert(np.isclose(x, grid.domain[i][0]))).astype('int')
-      upper = (np.invert(np.isclose(x, grid.domain[i][1]))).astype('int')
+      # compared to the grid step: it may be small next to the coordinates.
+      tol = dict(rtol=0, atol=0.25 * grid.step[i])
+      lower = (np.invert(np.isclose(x, grid.domain[i][0], **tol))).astype('int')
+      upper = (np.invert(np.isclose(x, grid.domain[i][1], **tol))).astype('int')
       mask = mask * upper * lower
     masks.append(mask)
   return tuple(masks)
-- 
2.43.0

