From 04a0e1e851214f83c66134a5aad233a5711326fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:49 +0000
Subject: [PATCH 01/35] fix: mirror padding of edge-aligned Dirichlet data when
 another axis has None values

padding_values was taken from bc_values, where periodic axes may hold None;
jnp.pad rejects None, so the call raised ValueError.
---
 jax_cfd/base/boundaries.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jax_cfd/base/boundaries.py b/jax_cfd/base/boundaries.py
index de47b34..8a0e1cb 100644
--- a/jax_cfd/base/boundaries.py
+++ b/jax_cfd/base/boundaries.py
@@ -253,7 +253,7 @@ class ConstantBoundaryConditions(BoundaryConditions):
             # here we are adding 0 boundary cell with 0 value
             expanded_data = jnp.pad(
                 data, bc_padding, mode='constant', constant_values=(0, 0))
-            padding_values = list(self.bc_values)
+            padding_values = list(self.constant_values)
             padding_values[axis] = [pad / 2 for pad in padding_values[axis]]
             data = 2 * jnp.pad(
                 data,
-- 
2.43.0


From e364d0396d8e0ed64c170bc7dfb6f172aafb1764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:49 +0000
Subject: [PATCH 02/35] fix: Neumann ghost values when padding already padded
 data by zero width

With width 0 the derivative direction was 0, so upper ghost cells that were
trimmed and re-created lost the prescribed gradient.
---
 jax_cfd/base/boundaries.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jax_cfd/base/boundaries.py b/jax_cfd/base/boundaries.py
index 8a0e1cb..05d211d 100644
--- a/jax_cfd/base/boundaries.py
+++ b/jax_cfd/base/boundaries.py
@@ -293,7 +293,7 @@ class ConstantBoundaryConditions(BoundaryConditions):
           raise NotImplementedError(f'Mode {mode} is not implemented yet.')
         # ensures that finite_differences.backward_difference satisfies the
         # boundary condition.
-        derivative_direction = float(width // max(1, abs(width)))
+        derivative_direction = -1.0 if width < 0 else 1.0
         data = (
             jnp.pad(data, full_padding, mode=np_mode) -
             derivative_direction * u.grid.step[axis] *
-- 
2.43.0


From 9291ccf7edec9584657ce4bb514cbaf70dfd28e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:36 +0000
Subject: [PATCH 03/35] fix: advection flux boundary conditions must be
 hashable

The per-axis types and values in the flux direction were lists, so the
resulting boundary condition could not be hashed (unique_boundary_conditions,
jit of a variable carrying it).
---
 jax_cfd/base/boundaries.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jax_cfd/base/boundaries.py b/jax_cfd/base/boundaries.py
index 05d211d..3f09e26 100644
--- a/jax_cfd/base/boundaries.py
+++ b/jax_cfd/base/boundaries.py
@@ -816,6 +816,6 @@ def get_advection_flux_bc_from_velocity_and_scalar(
         else:
           raise NotImplementedError(
               f'Flux boundary condition is not implemented for {u.bc, c.bc}')
-      flux_bc_types.append(flux_bc_types_ax)
-      flux_bc_values.append(flux_bc_values_ax)
+      flux_bc_types.append(tuple(flux_bc_types_ax))
+      flux_bc_values.append(tuple(flux_bc_values_ax))
   return ConstantBoundaryConditions(flux_bc_types, flux_bc_values)
-- 
2.43.0


From 16101e4fd03af8da712fde4a58de5c106f7f45d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:55 +0000
Subject: [PATCH 04/35] fix: van Leer flux correction must use the relocated
 scalar on every axis

---
 jax_cfd/base/advection.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jax_cfd/base/advection.py b/jax_cfd/base/advection.py
index f4afd5b..d41f30b 100644
--- a/jax_cfd/base/advection.py
+++ b/jax_cfd/base/advection.py
@@ -288,7 +288,8 @@ def advect_van_leer(
   for axis, (u, h) in enumerate(zip(aligned_v, c.grid.step)):
     u = u.bc.shift(u.array, int(u.offset[axis] % 1 - u.offset[axis]), axis=axis)
     # c is put to offset .5 or 1.
-    c_center_arr = c.shift(int(1 - c.offset[ax]), axis=ax)
+    c_center_arr = c_left_var.shift(
+        int(1 - c_left_var.offset[axis]), axis=axis)
     # if c offset is 1, u offset is .5.
     # if c offset is .5, u offset is 0.
     # u_i is always on the left of c_center_var_i
-- 
2.43.0


From d5beb1aa3d465b07f1f822c886901b0a5be5138c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:42 +0000
Subject: [PATCH 05/35] fix: 1D Laplacian matrices with two or fewer points
 along an axis

---
 jax_cfd/base/array_utils.py | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/jax_cfd/base/array_utils.py b/jax_cfd/base/array_utils.py
index d40d153..2bf4d7e 100644
--- a/jax_cfd/base/array_utils.py
+++ b/jax_cfd/base/array_utils.py
@@ -169,7 +169,9 @@ def laplacian_matrix(size: int, step: float) -> np.ndarray:
   """Create 1D Laplacian operator matrix, with periodic BC."""
   column = np.zeros(size)
   column[0] = -2 / step**2
-  column[1] = column[-1] = 1 / step**2
+  # with fewer than three points, neighbors coincide and their weights add up
+  column[1 % size] += 1 / step**2
+  column[-1] += 1 / step**2
   return scipy.linalg.circulant(column)
 
 
@@ -205,11 +207,13 @@ def _laplacian_boundary_dirichlet_cell_centered(laplacians: List[Array],
     laplacians[axis][0, 0] = laplacians[axis][0, 0] - 1 / grid.step[axis]**2
   else:
     laplacians[axis][-1, -1] = laplacians[axis][-1, -1] - 1 / grid.step[axis]**2
-  # deletes corner dependencies on the "looped-around" part.
-  # this should be done irrespective of which side, since one boundary cannot
-  # be periodic while the other is.
-  laplacians[axis][0, -1] = 0.0
-  laplacians[axis][-1, 0] = 0.0
+  # deletes corner dependencies on the "looped-around" part of this side.
+  # (both sides are always deleted, since one boundary cannot be periodic while
+  # the other is not.)
+  if side == 'lower':
+    laplacians[axis][0, -1] = laplacians[axis][0, -1] - 1 / grid.step[axis]**2
+  else:
+    laplacians[axis][-1, 0] = laplacians[axis][-1, 0] - 1 / grid.step[axis]**2
   return
 
 
@@ -235,11 +239,13 @@ def _laplacian_boundary_neumann_cell_centered(laplacians: List[Array],
     laplacians[axis][0, 0] = laplacians[axis][0, 0] + 1 / grid.step[axis]**2
   else:
     laplacians[axis][-1, -1] = laplacians[axis][-1, -1] + 1 / grid.step[axis]**2
-  # deletes corner dependencies on the "looped-around" part.
-  # this should be done irrespective of which side, since one boundary cannot
-  # be periodic while the other is.
-  laplacians[axis][0, -1] = 0.0
-  laplacians[axis][-1, 0] = 0.0
+  # deletes corner dependencies on the "looped-around" part of this side.
+  # (both sides are always deleted, since one boundary cannot be periodic while
+  # the other is not.)
+  if side == 'lower':
+    laplacians[axis][0, -1] = laplacians[axis][0, -1] - 1 / grid.step[axis]**2
+  else:
+    laplacians[axis][-1, 0] = laplacians[axis][-1, 0] - 1 / grid.step[axis]**2
   return
 
 
-- 
2.43.0


From e62751ae801a833c597b2009ce3c78872fa83d5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:42 +0000
Subject: [PATCH 06/35] fix: subtract the mean of the pressure right-hand side
 only when the Laplacian is singular

---
 jax_cfd/base/pressure.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/jax_cfd/base/pressure.py b/jax_cfd/base/pressure.py
index dca8160..c1676d9 100644
--- a/jax_cfd/base/pressure.py
+++ b/jax_cfd/base/pressure.py
@@ -55,12 +55,12 @@ def _rhs_transform(
     u' s.t. u = u' + kernel of the laplacian.
   """
   u_data = u.data
-  for axis in range(u.grid.ndim):
-    if bc.types[axis][0] == boundaries.BCType.NEUMANN and bc.types[axis][
-        1] == boundaries.BCType.NEUMANN:
-      # if all sides are neumann, poisson solution has a kernel of constant
-      # functions. We substact the mean to ensure consistency.
-      u_data = u_data - jnp.mean(u_data)
+  types = [bc_type for axis in range(u.grid.ndim) for bc_type in bc.types[axis]]
+  if (boundaries.BCType.NEUMANN in types and
+      boundaries.BCType.DIRICHLET not in types):
+    # if no side is dirichlet, poisson solution has a kernel of constant
+    # functions. We substact the mean to ensure consistency.
+    u_data = u_data - jnp.mean(u_data)
   return u_data
 
 
-- 
2.43.0


From a133bc8c50de0612fdc176b6422cdf50bcf67426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:42 +0000
Subject: [PATCH 07/35] fix: pseudoinverse must discard eigenvalues that are
 zero up to rounding

---
 jax_cfd/base/fast_diagonalization.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/jax_cfd/base/fast_diagonalization.py b/jax_cfd/base/fast_diagonalization.py
index af00a31..6d465ee 100644
--- a/jax_cfd/base/fast_diagonalization.py
+++ b/jax_cfd/base/fast_diagonalization.py
@@ -249,17 +249,19 @@ def pseudoinverse(
       TPUs.
     cutoff: eigenvalues with absolute value smaller than this number are
       discarded rather than being inverted. By default, uses 10 times floating
-      point epsilon.
+      point epsilon, or the rounding error of the computed eigenvalues if that
+      is larger.
 
   Returns:
     A function that computes the pseudo-inverse of the indicated operator.
   """
-  if cutoff is None:
-    cutoff = 10 * jnp.finfo(dtype).eps
-
   def func(v):
+    threshold = cutoff
+    if threshold is None:
+      rounding_error = np.finfo(v.dtype).eps * max(v.shape) * np.max(abs(v))
+      threshold = max(10 * jnp.finfo(dtype).eps, rounding_error)
     with np.errstate(divide='ignore', invalid='ignore'):
-      return np.where(abs(v) > cutoff, 1 / v, 0)
+      return np.where(abs(v) > threshold, 1 / v, 0)
 
   return transform(func, operators, dtype, hermitian=hermitian,
                    circulant=circulant, implementation=implementation,
-- 
2.43.0


From ef204d22ab7bb44f6b6e1122ad30b9c016eaf462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:21 +0000
Subject: [PATCH 08/35] fix: implicit diffusion with inhomogeneous boundary
 values

---
 jax_cfd/base/diffusion.py | 95 ++++-----------------------------------
 1 file changed, 8 insertions(+), 87 deletions(-)

diff --git a/jax_cfd/base/diffusion.py b/jax_cfd/base/diffusion.py
index eb28919..50eacd3 100644
--- a/jax_cfd/base/diffusion.py
+++ b/jax_cfd/base/diffusion.py
@@ -57,83 +57,6 @@ def stable_time_step(viscosity: float, grid: grids.Grid) -> float:
   return dx ** 2 / (viscosity * 2 ** ndim)
 
 
-def _subtract_linear_part_dirichlet(
-    c_data: Array,
-    grid: grids.Grid,
-    axis: int,
-    offset: Tuple[float, float],
-    bc_values: Tuple[float, float],
-) -> Array:
-  """Transforms c_data such that c_data satisfies dirichlet boundary.
-
-  The function subtracts a linear function from c_data s.t. the returned
-  array has homogeneous dirichlet boundaries. Note that this assumes c_data has
-  constant dirichlet boundary values.
-
-  Args:
-    c_data: right-hand-side of diffusion equation.
-    grid: grid object
-    axis: axis along which to impose boundary transformation
-    offset: offset of the right-hand-side
-    bc_values: boundary values along axis
-
-  Returns:
-    transformed right-hand-side
-  """
-
-  def _update_rhs_along_axis(arr_1d, linear_part):
-    arr_1d = arr_1d - linear_part
-    return arr_1d
-
-  lower_value, upper_value = bc_values
-  y = grid.mesh(offset)[axis][0]
-  one_d_grid = grids.Grid((grid.shape[axis],), domain=(grid.domain[axis],))
-  y_boundary = boundaries.dirichlet_boundary_conditions(ndim=1)
-  y = y_boundary.trim_boundary(grids.GridArray(y, (offset[axis],),
-                                               one_d_grid)).data
-  domain_length = (grid.domain[axis][1] - grid.domain[axis][0])
-  domain_start = grid.domain[axis][0]
-  linear_part = lower_value + (upper_value - lower_value) * (
-      y - domain_start) / domain_length
-  c_data = jnp.apply_along_axis(
-      _update_rhs_along_axis, axis, c_data, linear_part)
-  return c_data
-
-
-def _rhs_transform(
-    u: grids.GridArray,
-    bc: boundaries.BoundaryConditions,
-) -> Array:
-  """Transforms the RHS of diffusion equation.
-
-  In case of constant dirichlet boundary conditions for heat equation
-  the linear term is subtracted. See diffusion.solve_fast_diag.
-
-  Args:
-    u: a GridArray that solves ∇²x = ∇²u for x.
-    bc: specifies boundary of u.
-
-  Returns:
-    u' s.t. u = u' + w where u' has 0 dirichlet bc and w is linear.
-  """
-  if not isinstance(bc, boundaries.ConstantBoundaryConditions):
-    raise NotImplementedError(
-        f'transformation cannot be done for this {bc}.')
-  u_data = u.data
-  for axis in range(u.grid.ndim):
-    for i, _ in enumerate(['lower', 'upper']):  # lower and upper boundary
-      if bc.types[axis][i] == boundaries.BCType.DIRICHLET:
-        bc_values = [0., 0.]
-        bc_values[i] = bc.bc_values[axis][i]
-        u_data = _subtract_linear_part_dirichlet(u_data, u.grid, axis, u.offset,
-                                                 bc_values)
-      elif bc.types[axis][i] == boundaries.BCType.NEUMANN:
-        if any(bc.bc_values[axis]):
-          raise NotImplementedError(
-              'transformation is not implemented for inhomogeneous Neumann bc.')
-  return u_data
-
-
 def solve_cg(v: GridVariableVector,
              nu: float,
              dt: float,
@@ -174,17 +97,15 @@ def solve_fast_diag(
   # because this is better conditioned than directly diagonalizing 1 - ν Δt ∇²
   # when ν Δt is small.
   def func(x):
-    dt_nu_x = (dt * nu) * x
-    return dt_nu_x / (1 - dt_nu_x)
+    return (dt * nu) / (1 - (dt * nu) * x)
 
   # Compute (1 - ν Δt ∇²)⁻¹ u as u + (1 - ν Δt ∇²)⁻¹ (ν Δt ∇²) u, for less
   # error when ν Δt is small.
-  # If dirichlet bc are supplied: only works for dirichlet bc that are linear
-  # functions on the boundary. Then u = u' + w where u' has 0 dirichlet bc and
-  # w is linear. Then u + (1 - ν Δt ∇²)⁻¹ (ν Δt ∇²) u = u +
-  # (1 - ν Δt ∇²)⁻¹(ν Δt ∇²)u'. The function _rhs_transform subtracts
-  # the linear part s.t. fast_diagonalization solves
-  # u + (1 - ν Δt ∇²)⁻¹ (ν Δt ∇²) u'.
+  # The Laplacian that acts on u includes the boundary values (with constant
+  # boundary conditions ∇²u = L u + w, where the linear operator L has
+  # homogeneous boundary conditions and w only depends on the boundary values).
+  # The increment d satisfies u + d = u + ν Δt (L (u + d) + w), which means
+  # d = (1 - ν Δt L)⁻¹ ν Δt ∇²u.
   v_diffused = list()
   if boundaries.has_all_periodic_boundary_conditions(*v):
     circulant = True
@@ -203,9 +124,9 @@ def solve_fast_diag(
         circulant=circulant,
         implementation=implementation)
     u_interior = u.bc.trim_boundary(u.array)
-    u_interior_transformed = _rhs_transform(u_interior, u.bc)
+    u_laplacian = u.bc.trim_boundary(fd.laplacian(u.bc.impose_bc(u.array)))
     u_dt_diffused = grids.GridArray(
-        op(u_interior_transformed), u_interior.offset, u_interior.grid)
+        op(u_laplacian.data), u_interior.offset, u_interior.grid)
     u_diffused = u_interior + u_dt_diffused
     u_diffused = u.bc.pad_and_impose_bc(u_diffused, offset_to_pad_to=u.offset)
     v_diffused.append(u_diffused)
-- 
2.43.0


From db5d682a6470cc54fed2727cc3bbc459b8c877c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:52 +0000
Subject: [PATCH 09/35] fix: reject inconsistent low-storage Runge-Kutta
 coefficients

---
 jax_cfd/spectral/time_stepping.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jax_cfd/spectral/time_stepping.py b/jax_cfd/spectral/time_stepping.py
index 6a5720b..2528be8 100644
--- a/jax_cfd/spectral/time_stepping.py
+++ b/jax_cfd/spectral/time_stepping.py
@@ -156,7 +156,7 @@ def low_storage_runge_kutta_crank_nicolson(
   G = tree_math.unwrap(equation.implicit_terms)
   G_inv = tree_math.unwrap(equation.implicit_solve, vector_argnums=0)
 
-  if len(alphas) - 1 != len(betas) != len(gammas):
+  if not len(alphas) - 1 == len(betas) == len(gammas):
     raise ValueError("number of RK coefficients does not match")
 
   @tree_math.wrap
-- 
2.43.0


From 204a3225f5b465b72913a17355a8287008d29700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:19 +0000
Subject: [PATCH 10/35] fix: spectral downsampling to a grid with an odd number
 of rows

---
 jax_cfd/base/resize.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/jax_cfd/base/resize.py b/jax_cfd/base/resize.py
index ceb3c3c..c97d2dc 100644
--- a/jax_cfd/base/resize.py
+++ b/jax_cfd/base/resize.py
@@ -230,8 +230,13 @@ def downsample_spectral(_: grids.Grid, destination_grid: grids.Grid,
 
   input_num_x, _ = signal_hat.shape
 
-  downed = jnp.concatenate(
-      [signal_hat[:num_x // 2, :num_y], signal_hat[-num_x // 2:, :num_y]])
+  # non-negative frequencies come first; there is one more of them if num_x is
+  # odd.
+  num_negative = num_x // 2
+  downed = jnp.concatenate([
+      signal_hat[:num_x - num_negative, :num_y],
+      signal_hat[input_num_x - num_negative:, :num_y]
+  ])
 
   scale = (num_x / input_num_x)
   downed *= scale**2
-- 
2.43.0


From 802e6418e8dda369ddce163859e1956e12f2add2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:04 +0000
Subject: [PATCH 11/35] fix: NavierStokes2D(smooth=False) must not filter the
 advection term

---
 jax_cfd/spectral/equations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jax_cfd/spectral/equations.py b/jax_cfd/spectral/equations.py
index a8f9b63..999be1a 100644
--- a/jax_cfd/spectral/equations.py
+++ b/jax_cfd/spectral/equations.py
@@ -169,7 +169,7 @@ class NavierStokes2D(time_stepping.ImplicitExplicitODE):
     advection = -(grad_x * vx + grad_y * vy)
     advection_hat = jnp.fft.rfftn(advection)
 
-    if self.smooth is not None:
+    if self.smooth:
       advection_hat *= self.filter_
 
     terms = advection_hat
-- 
2.43.0


From 67c1d7aae654db2c203cacf34b8be52f8b807a70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:04 +0000
Subject: [PATCH 12/35] fix: 3/2-rule padding of signals whose length is not a
 multiple of four

---
 jax_cfd/spectral/utils.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/jax_cfd/spectral/utils.py b/jax_cfd/spectral/utils.py
index 97a6b49..0554d41 100644
--- a/jax_cfd/spectral/utils.py
+++ b/jax_cfd/spectral/utils.py
@@ -31,8 +31,8 @@ def truncated_rfft(u: spectral_types.Array) -> spectral_types.Array:
     Downsampled version of `u` in rfft-space.
   """
   uhat = jnp.fft.rfft(u)
-  k, = uhat.shape
-  final_size = int(2 / 3 * k) + 1
+  # number of rfft modes of a signal with 2/3 as many points as `u`.
+  final_size = u.shape[0] // 3 + 1
   return 2 / 3 * uhat[:final_size]
 
 
@@ -47,10 +47,13 @@ def padded_irfft(uhat: spectral_types.Array) -> spectral_types.Array:
     signal `uhat`.
   """
   n, = uhat.shape
-  final_shape = int(3 / 2 * n)
+  # `uhat` represents 2 * (n - 1) points. The number of points after padding is
+  # odd if n is even.
+  num_points = 3 * (n - 1)
+  final_shape = num_points // 2 + 1
   smoothed = jnp.pad(uhat, (0, final_shape - n))
   assert smoothed.shape == (final_shape,), "incorrect padded shape"
-  return 1.5 * jnp.fft.irfft(smoothed)
+  return 1.5 * jnp.fft.irfft(smoothed, num_points)
 
 
 def truncated_fft_2x(u: spectral_types.Array) -> spectral_types.Array:
-- 
2.43.0


From 4d29eee1f155d3b070c415e5e46d450d982dbe30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:01 +0000
Subject: [PATCH 13/35] fix: NavierStokes2D on grids with an odd number of
 points along the last axis

---
 jax_cfd/spectral/equations.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/jax_cfd/spectral/equations.py b/jax_cfd/spectral/equations.py
index 999be1a..3cdb14b 100644
--- a/jax_cfd/spectral/equations.py
+++ b/jax_cfd/spectral/equations.py
@@ -160,11 +160,12 @@ class NavierStokes2D(time_stepping.ImplicitExplicitODE):
   def explicit_terms(self, vorticity_hat):
     velocity_solve = spectral_utils.vorticity_to_velocity(self.grid)
     vxhat, vyhat = velocity_solve(vorticity_hat)
-    vx, vy = jnp.fft.irfftn(vxhat), jnp.fft.irfftn(vyhat)
+    irfftn = lambda x: jnp.fft.irfftn(x, s=self.grid.shape)
+    vx, vy = irfftn(vxhat), irfftn(vyhat)
 
     grad_x_hat = 2j * jnp.pi * self.kx * vorticity_hat
     grad_y_hat = 2j * jnp.pi * self.ky * vorticity_hat
-    grad_x, grad_y = jnp.fft.irfftn(grad_x_hat), jnp.fft.irfftn(grad_y_hat)
+    grad_x, grad_y = irfftn(grad_x_hat), irfftn(grad_y_hat)
 
     advection = -(grad_x * vx + grad_y * vy)
     advection_hat = jnp.fft.rfftn(advection)
-- 
2.43.0


From a7dad83c97c6c35e8b1be8af6858d9f7261f63f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:32 +0000
Subject: [PATCH 14/35] fix: mirror convolutions pad every axis by its own
 kernel width only

---
 jax_cfd/ml/layers.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/jax_cfd/ml/layers.py b/jax_cfd/ml/layers.py
index 9c662d7..ddeb593 100644
--- a/jax_cfd/ml/layers.py
+++ b/jax_cfd/ml/layers.py
@@ -165,12 +165,11 @@ class MirrorConvGeneral(hk.Module):
       **conv_kwargs: additional arguments passed to `base_convolution`.
     """
     super().__init__(name=name)
-    self._padding = np.zeros(2).astype('int')
+    self._padding = []
     for kernel_size in kernel_shape:
       effective_kernel = kernel_size + (rate - 1) * (kernel_size - 1)
       pad_left = effective_kernel // 2
-      self._padding += np.array([pad_left,
-                                 effective_kernel - pad_left - 1]).astype('int')
+      self._padding.append((pad_left, effective_kernel - pad_left - 1))
     self._tile_layout = tile_layout
     self._conv_module = base_convolution(
         output_channels=output_channels, kernel_shape=kernel_shape,
@@ -178,7 +177,7 @@ class MirrorConvGeneral(hk.Module):
 
   def _expand_var(self, var):
     var = var.bc.pad_all(
-        var, (self._padding,) * var.grid.ndim, mode=boundaries.Padding.MIRROR)
+        var, self._padding, mode=boundaries.Padding.MIRROR)
     return jnp.expand_dims(var.data, axis=-1)
 
   def __call__(self, inputs):
-- 
2.43.0


From 2a07405b88ef803c1625a60a734d90323ebdaecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:32 +0000
Subject: [PATCH 15/35] fix: roll learned stencils along each spatial axis, not
 the flattened array

---
 jax_cfd/ml/layers.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/jax_cfd/ml/layers.py b/jax_cfd/ml/layers.py
index ddeb593..2c8f176 100644
--- a/jax_cfd/ml/layers.py
+++ b/jax_cfd/ml/layers.py
@@ -624,7 +624,7 @@ class SpatialDerivativeFromLogits:
                        f'size; {logits.shape[-1]} vs. {self.subspace_size}')
 
   def extract_patches(self, inputs):
-    rolled = jnp.roll(inputs, self.roll)
+    rolled = jnp.roll(inputs, self.roll, axis=tuple(range(len(self.roll))))
     patches = layers_util.extract_patches(
         rolled, self.stencil_shape,
         self._extract_patch_method, self.tile_layout)
@@ -746,12 +746,14 @@ class SpatialDerivative:
     # `roll` implementation of `extract_patches`, we can simply add it to the
     # `shifts`. For the `conv` implementation, we may be able to effectively
     # roll the input by adjusting how arrays are padded.
-    rolled = jnp.roll(inputs, self._roll)
+    axes = tuple(range(len(self._roll)))
+    rolled = jnp.roll(inputs, self._roll, axes)
     patches = layers_util.extract_patches(
         rolled, self._stencil_shape,
         self._extract_patch_method, self._tile_layout)
     if auxiliary_inputs is not None:
-      auxiliary_inputs = [jnp.roll(aux, self._roll) for aux in auxiliary_inputs]
+      auxiliary_inputs = [
+          jnp.roll(aux, self._roll, axes) for aux in auxiliary_inputs]
       rolled = jnp.concatenate([rolled, *auxiliary_inputs], axis=-1)
     coefficients = self._coefficients_module(rolled)
     return layers_util.apply_coefficients(coefficients, patches)
-- 
2.43.0


From 9a442df4876c7d932160b68e64bfef011973ba2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:32 +0000
Subject: [PATCH 16/35] fix: learned interpolation to the same location returns
 the variable unchanged

---
 jax_cfd/ml/interpolations.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jax_cfd/ml/interpolations.py b/jax_cfd/ml/interpolations.py
index f984038..1db3458 100644
--- a/jax_cfd/ml/interpolations.py
+++ b/jax_cfd/ml/interpolations.py
@@ -104,11 +104,11 @@ class FusedLearnedInterpolation:
                dt: float,
                tag=None) -> GridVariable:
     del dt  # not used.
+    # TODO(jamieas): Try removing the following line.
+    if c.offset == offset: return c
     # TODO(dkochkov) Add decorator to expand/squeeze channel dim.
     c = grids.GridVariable(
         grids.GridArray(jnp.expand_dims(c.data, -1), c.offset, c.grid), c.bc)
-    # TODO(jamieas): Try removing the following line.
-    if c.offset == offset: return c
     key = (c.offset, offset, tag)
     interpolator = self._interpolators.get(key)
     if interpolator is None:
-- 
2.43.0


From bac3dc95379af6ce6eb3dfe6c776921142088413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:13 +0000
Subject: [PATCH 17/35] fix: polynomial constraints with redundant conditions
 have a smaller rank, not negative freedom

---
 jax_cfd/ml/layers.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/jax_cfd/ml/layers.py b/jax_cfd/ml/layers.py
index 2c8f176..40b065f 100644
--- a/jax_cfd/ml/layers.py
+++ b/jax_cfd/ml/layers.py
@@ -507,7 +507,12 @@ class PolynomialConstraint():
 
     # https://en.wikipedia.org/wiki/Kernel_(linear_algebra)#Nonhomogeneous_systems_of_linear_equations
     _, _, v = np.linalg.svd(constraint_matrix)
-    nullspace_size = constraint_matrix.shape[1] - constraint_matrix.shape[0]
+    # constraints may be redundant, e.g., along axes with a single point; rows
+    # are normalized so that the rank does not depend on the grid spacing.
+    row_norms = np.linalg.norm(constraint_matrix, axis=1, keepdims=True)
+    rank = np.linalg.matrix_rank(
+        constraint_matrix / np.where(row_norms == 0, 1, row_norms))
+    nullspace_size = constraint_matrix.shape[1] - int(rank)
     if not nullspace_size:
       raise ValueError(
           'there is only one valid solution accurate to this order')
-- 
2.43.0


From 7005295f075b84d7a29b03edda5695505473fe2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:51 +0000
Subject: [PATCH 18/35] fix: correlation metric normalizes every example over
 components and space

---
 jax_cfd/ml/metrics.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/jax_cfd/ml/metrics.py b/jax_cfd/ml/metrics.py
index 0fbea33..65ef52c 100644
--- a/jax_cfd/ml/metrics.py
+++ b/jax_cfd/ml/metrics.py
@@ -67,9 +67,10 @@ def correlation_single_step(trajectory: Tuple[Array, ...],
   """Computes correlation on the `n`th time slice."""
   trajectory = jnp.stack(arr_utils.slice_along_axis(trajectory, time_axis, n))
   target = jnp.stack(arr_utils.slice_along_axis(target, time_axis, n))
-  state_axes = tuple(axis if axis <= time_axis else axis - 1
-                     for axis in range(trajectory.ndim)
-                     if axis != time_axis and axis != batch_axis)
+  # components are stacked along a new leading axis that is part of the state.
+  state_axes = (0,) + tuple(axis + 1 if axis < time_axis else axis
+                            for axis in range(trajectory.ndim)
+                            if axis != time_axis and axis != batch_axis)
   trajectory_normalized = _normalize(trajectory, state_axes)
   target_normalized = _normalize(target, state_axes)
   return (trajectory_normalized * target_normalized).sum(axis=state_axes).mean()
-- 
2.43.0


From 52e444a37a6d62e6d6aab563e1d18cc66bf74323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:51 +0000
Subject: [PATCH 19/35] fix: local_reduce reduces the axis along which vmap
 stacks the metric

---
 jax_cfd/ml/metrics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jax_cfd/ml/metrics.py b/jax_cfd/ml/metrics.py
index 65ef52c..f2d4af8 100644
--- a/jax_cfd/ml/metrics.py
+++ b/jax_cfd/ml/metrics.py
@@ -99,7 +99,7 @@ def local_reduce(metric: Callable[..., Array],
   """
   def reduced_metric(*args, **kwargs):
     metric_value = jax.vmap(metric, batch_axis)(*args, **kwargs)
-    return reduction_function(metric_value, batch_axis)
+    return reduction_function(metric_value, 0)  # vmap puts the batch first
   return reduced_metric
 
 
-- 
2.43.0


From 1f93a63096d9801abb9eb6697fa690b7449ca22c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:51 +0000
Subject: [PATCH 20/35] fix: preprocessing ends with its data instead of
 raising RuntimeError

---
 jax_cfd/ml/train_utils.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/jax_cfd/ml/train_utils.py b/jax_cfd/ml/train_utils.py
index d4f9af5..7b09cd8 100644
--- a/jax_cfd/ml/train_utils.py
+++ b/jax_cfd/ml/train_utils.py
@@ -222,6 +222,5 @@ def preprocess(
     Batch of data from `data_iterator` preprocessed with `preprocess_fn`.
   """
   preprocess_fn = jax.jit(preprocess_fn)
-  while True:
-    rng = next(rng_stream)
-    yield preprocess_fn(next(data_iterator), rng)
+  for rng, batch in zip(rng_stream, data_iterator):
+    yield preprocess_fn(batch, rng)
-- 
2.43.0


From 052a94fcbb741ceb72b58c58c429927016a88d61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:18 +0000
Subject: [PATCH 21/35] fix: Kolmogorov forcing puts its zero components at the
 requested offsets

---
 jax_cfd/base/forcings.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/jax_cfd/base/forcings.py b/jax_cfd/base/forcings.py
index 7990a83..d27095e 100644
--- a/jax_cfd/base/forcings.py
+++ b/jax_cfd/base/forcings.py
@@ -76,11 +76,11 @@ def kolmogorov_forcing(
     v = scale * grids.GridArray(jnp.sin(k * x), offsets[1], grid)
 
     if grid.ndim == 2:
-      u = grids.GridArray(jnp.zeros_like(v.data), (1, 1/2), grid)
+      u = grids.GridArray(jnp.zeros_like(v.data), offsets[0], grid)
       f = (u, v)
     elif grid.ndim == 3:
-      u = grids.GridArray(jnp.zeros_like(v.data), (1, 1/2, 1/2), grid)
-      w = grids.GridArray(jnp.zeros_like(u.data), (1/2, 1/2, 1), grid)
+      u = grids.GridArray(jnp.zeros_like(v.data), offsets[0], grid)
+      w = grids.GridArray(jnp.zeros_like(u.data), offsets[2], grid)
       f = (u, v, w)
     else:
       raise NotImplementedError
@@ -89,11 +89,11 @@ def kolmogorov_forcing(
     u = scale * grids.GridArray(jnp.sin(k * y), offsets[0], grid)
 
     if grid.ndim == 2:
-      v = grids.GridArray(jnp.zeros_like(u.data), (1/2, 1), grid)
+      v = grids.GridArray(jnp.zeros_like(u.data), offsets[1], grid)
       f = (u, v)
     elif grid.ndim == 3:
-      v = grids.GridArray(jnp.zeros_like(u.data), (1/2, 1, 1/2), grid)
-      w = grids.GridArray(jnp.zeros_like(u.data), (1/2, 1/2, 1), grid)
+      v = grids.GridArray(jnp.zeros_like(u.data), offsets[1], grid)
+      w = grids.GridArray(jnp.zeros_like(u.data), offsets[2], grid)
       f = (u, v, w)
     else:
       raise NotImplementedError
-- 
2.43.0


From 9963b085f041ee47dbb535ab0127f6c4d0a7bd8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:18 +0000
Subject: [PATCH 22/35] fix: decay rate of Taylor-Green vortices with more than
 one wave

---
 jax_cfd/base/validation_problems.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jax_cfd/base/validation_problems.py b/jax_cfd/base/validation_problems.py
index bb09b2c..7dfd7e9 100644
--- a/jax_cfd/base/validation_problems.py
+++ b/jax_cfd/base/validation_problems.py
@@ -85,7 +85,7 @@ class TaylorGreen(Problem):
     if offsets is None:
       offsets = self.grid.cell_faces
 
-    scale = jnp.exp(-2 * self.viscosity * t)
+    scale = jnp.exp(-(self._kx**2 + self._ky**2) * self.viscosity * t)
 
     ux, uy = self.grid.mesh(offsets[0])
     u = grids.GridVariable(
-- 
2.43.0


From 0f36efbf9b47ef3f4d9e62f6d6f5ebef84f214d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:10 +0000
Subject: [PATCH 23/35] fix: Taylor-Green vortices decay at viscosity / density

---
 jax_cfd/base/validation_problems.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jax_cfd/base/validation_problems.py b/jax_cfd/base/validation_problems.py
index 7dfd7e9..ff7b213 100644
--- a/jax_cfd/base/validation_problems.py
+++ b/jax_cfd/base/validation_problems.py
@@ -85,7 +85,8 @@ class TaylorGreen(Problem):
     if offsets is None:
       offsets = self.grid.cell_faces
 
-    scale = jnp.exp(-(self._kx**2 + self._ky**2) * self.viscosity * t)
+    nu = self.viscosity / self.density
+    scale = jnp.exp(-(self._kx**2 + self._ky**2) * nu * t)
 
     ux, uy = self.grid.mesh(offsets[0])
     u = grids.GridVariable(
-- 
2.43.0


From 426e3cd36d945cc34e2ac5a01ef0a000f2fd8123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:23 +0000
Subject: [PATCH 24/35] fix: Taylor-Green vortices with different wave numbers
 are divergence free

---
 jax_cfd/base/validation_problems.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/jax_cfd/base/validation_problems.py b/jax_cfd/base/validation_problems.py
index ff7b213..0fa984d 100644
--- a/jax_cfd/base/validation_problems.py
+++ b/jax_cfd/base/validation_problems.py
@@ -88,10 +88,15 @@ class TaylorGreen(Problem):
     nu = self.viscosity / self.density
     scale = jnp.exp(-(self._kx**2 + self._ky**2) * nu * t)
 
+    # Divergence free amplitudes: `kx * u_scale == ky * v_scale`.
+    k_max = max(self._kx, self._ky, key=abs) or 1
+    u_scale = scale * self._ky / k_max
+    v_scale = scale * self._kx / k_max
+
     ux, uy = self.grid.mesh(offsets[0])
     u = grids.GridVariable(
         array=grids.GridArray(
-            data=scale * jnp.cos(self._kx * ux) * jnp.sin(self._ky * uy),
+            data=u_scale * jnp.cos(self._kx * ux) * jnp.sin(self._ky * uy),
             offset=offsets[0],
             grid=self.grid),
         bc=boundaries.periodic_boundary_conditions(self.grid.ndim))
@@ -99,7 +104,7 @@ class TaylorGreen(Problem):
     vx, vy = self.grid.mesh(offsets[1])
     v = grids.GridVariable(
         array=grids.GridArray(
-            data=-scale * jnp.sin(self._kx * vx) * jnp.cos(self._ky * vy),
+            data=-v_scale * jnp.sin(self._kx * vx) * jnp.cos(self._ky * vy),
             offset=offsets[1],
             grid=self.grid),
         bc=boundaries.periodic_boundary_conditions(self.grid.ndim))
-- 
2.43.0


From a3e2e337bedb5bb4e1c0a67dbf8afb8f160898d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:10 +0000
Subject: [PATCH 25/35] fix: implicit diffusion uses the kinematic viscosity

---
 jax_cfd/base/equations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jax_cfd/base/equations.py b/jax_cfd/base/equations.py
index af0954e..922eb5b 100644
--- a/jax_cfd/base/equations.py
+++ b/jax_cfd/base/equations.py
@@ -190,6 +190,6 @@ def implicit_diffusion_navier_stokes(
     # Pressure projection to incompressible velocity field
     v = pressure_projection(v, pressure_solve)
     # Solve for implicit diffusion
-    v = diffusion_solve(v, viscosity, dt)
+    v = diffusion_solve(v, viscosity / density, dt)
     return v
   return navier_stokes_step
-- 
2.43.0


From 9d53caa71c6da03c56f3f8d5e761866b12072ec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:54 +0000
Subject: [PATCH 26/35] fix: pressure projection imposes prescribed wall values
 before the solve

---
 jax_cfd/base/pressure.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/jax_cfd/base/pressure.py b/jax_cfd/base/pressure.py
index c1676d9..fa87971 100644
--- a/jax_cfd/base/pressure.py
+++ b/jax_cfd/base/pressure.py
@@ -185,6 +185,8 @@ def projection(
   """Apply pressure projection to make a velocity field divergence free."""
   grid = grids.consistent_grid(*v)
   pressure_bc = boundaries.get_pressure_bc_from_velocity(v)
+  # Values on a wall are prescribed: they must not enter the divergence.
+  v = tuple(u.impose_bc() for u in v)
 
   q0 = grids.GridArray(jnp.zeros(grid.shape), grid.cell_center, grid)
   q0 = pressure_bc.impose_bc(q0)
-- 
2.43.0


From c275f82818a5bbbac5d7c97774b08c8ccd0d904e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:54 +0000
Subject: [PATCH 27/35] fix: explicit Smagorinsky closure is an acceleration,
 not a force

---
 jax_cfd/base/subgrid_models.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/jax_cfd/base/subgrid_models.py b/jax_cfd/base/subgrid_models.py
index d2bba37..185082d 100644
--- a/jax_cfd/base/subgrid_models.py
+++ b/jax_cfd/base/subgrid_models.py
@@ -206,10 +206,16 @@ def explicit_smagorinsky_navier_stokes(dt, cs, forcing, **kwargs):
       smagorinsky_viscosity, dt=dt, cs=cs)
   smagorinsky_acceleration = functools.partial(
       evm_model, viscosity_fn=viscosity_fn)
+  density = kwargs['density']
+
+  def smagorinsky_forcing(v):
+    # Forcing terms are divided by the density to obtain accelerations.
+    return tuple(density * a for a in smagorinsky_acceleration(v))
+
   if forcing is None:
-    forcing = smagorinsky_acceleration
+    forcing = smagorinsky_forcing
   else:
-    forcing = forcings.sum_forcings(forcing, smagorinsky_acceleration)
+    forcing = forcings.sum_forcings(forcing, smagorinsky_forcing)
   return equations.semi_implicit_navier_stokes(dt=dt, forcing=forcing, **kwargs)
 
 
-- 
2.43.0


From 8eaf3953fd1acc81c425ec39d69dafec7fbb5b60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:54 +0000
Subject: [PATCH 28/35] fix: learned acceleration modules are accelerations,
 not forces

---
 jax_cfd/ml/equations.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/jax_cfd/ml/equations.py b/jax_cfd/ml/equations.py
index 159197d..10b2e81 100644
--- a/jax_cfd/ml/equations.py
+++ b/jax_cfd/ml/equations.py
@@ -130,7 +130,13 @@ def modular_navier_stokes_model(
         acceleration_module(grid, dt, physics_specs, v=v)
         for acceleration_module in acceleration_modules
     ]
-    forcing = forcings.sum_forcings(active_forcing_fn, *accelerations)
+    # Forcing terms are divided by the density to obtain accelerations.
+    acceleration_forcings = [
+        lambda v, fn=acceleration: tuple(physics_specs.density * a
+                                         for a in fn(v))
+        for acceleration in accelerations
+    ]
+    forcing = forcings.sum_forcings(active_forcing_fn, *acceleration_forcings)
     pressure_solve_fn = pressure_module(grid, dt, physics_specs)
     step_fn = equation_solver(
         grid=grid,
-- 
2.43.0


From 476569b0f0c1bb450f242ab05b0c8c4d07c4f013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:54 +0000
Subject: [PATCH 29/35] fix: spatial_autocorrelation accepts labelled arrays
 with current xarray

---
 jax_cfd/data/xarray_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jax_cfd/data/xarray_utils.py b/jax_cfd/data/xarray_utils.py
index 1dc971b..d9ecb4f 100644
--- a/jax_cfd/data/xarray_utils.py
+++ b/jax_cfd/data/xarray_utils.py
@@ -225,7 +225,8 @@ def spatial_autocorrelation(array, spatial_axis='x'):
   # we only report the unique half of the autocorrelation.
   num_unique_displacements = spatial_axis_size // 2
   result = full_result.isel({out_axis_name: slice(0, num_unique_displacements)})
-  displacement_coords = array.coords[spatial_axis][:num_unique_displacements]
+  displacement_coords = array.coords[spatial_axis].values[
+      :num_unique_displacements]
   result.coords[out_axis_name] = (out_axis_name, displacement_coords)
   return result
 
-- 
2.43.0


From bea0dfc43ec6ea049c7242fdb072eecab1884878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:54 +0000
Subject: [PATCH 30/35] fix: spatial_autocorrelation labels displacements from
 zero

---
 jax_cfd/data/xarray_utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/jax_cfd/data/xarray_utils.py b/jax_cfd/data/xarray_utils.py
index d9ecb4f..5a5dd74 100644
--- a/jax_cfd/data/xarray_utils.py
+++ b/jax_cfd/data/xarray_utils.py
@@ -225,7 +225,9 @@ def spatial_autocorrelation(array, spatial_axis='x'):
   # we only report the unique half of the autocorrelation.
   num_unique_displacements = spatial_axis_size // 2
   result = full_result.isel({out_axis_name: slice(0, num_unique_displacements)})
-  displacement_coords = array.coords[spatial_axis].values[
+  # displacements are relative to the first point, whatever its position
+  axis_coords = array.coords[spatial_axis].values
+  displacement_coords = (axis_coords - axis_coords[0])[
       :num_unique_displacements]
   result.coords[out_axis_name] = (out_axis_name, displacement_coords)
   return result
-- 
2.43.0


From 7888e341c17b3a80b20af4bd589ed642a79a4a74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:30 +0000
Subject: [PATCH 31/35] fix: default process function of the velocity corrector
 network takes one argument

---
 jax_cfd/ml/networks.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jax_cfd/ml/networks.py b/jax_cfd/ml/networks.py
index f8b2a0d..4c83571 100644
--- a/jax_cfd/ml/networks.py
+++ b/jax_cfd/ml/networks.py
@@ -199,7 +199,7 @@ def velocity_corrector_network_w_boundaries(
     network_offsets: Tuple[Tuple[float, ...], ...],
     num_output_channels: int,
     name: Optional[str] = None,
-    process_fn: Optional[Callable] = _identity,  # pylint: disable=g-bare-generic
+    process_fn: Optional[Callable] = lambda x: x,  # pylint: disable=g-bare-generic
 ):
   """Returns a module that computes corrections to the velocity field."""
   pre_process = functools.partial(
-- 
2.43.0


From 4c12cc79aef180c138b8a0432217eff535b0f8e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:39 +0000
Subject: [PATCH 32/35] fix: state encoders slice the requested time axis

---
 jax_cfd/ml/encoders.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/jax_cfd/ml/encoders.py b/jax_cfd/ml/encoders.py
index c2ca2de..48f7d4b 100644
--- a/jax_cfd/ml/encoders.py
+++ b/jax_cfd/ml/encoders.py
@@ -101,7 +101,8 @@ def slice_last_n_state_encoder(
   """Generates encoder that returns last `n` data slices along last axis."""
   del grid, dt, physics_specs  # unused.
   def encode_fn(inputs):
-    init_slice = array_utils.slice_along_axis(inputs, 0, slice(-n, None))
+    init_slice = array_utils.slice_along_axis(
+        inputs, time_axis, slice(-n, None))
     return jax.tree.map(lambda x: jnp.moveaxis(x, time_axis, -1), init_slice)
   return encode_fn
 
@@ -117,7 +118,8 @@ def stack_last_n_state_encoder(
   """Generates encoder that stacks last `n` inputs slices along last axis."""
   del grid, dt, physics_specs  # unused.
   def encode_fn(inputs):
-    inputs = array_utils.slice_along_axis(inputs, 0, slice(-n, None))
+    inputs = array_utils.slice_along_axis(
+        inputs, time_axis, slice(-n, None))
     inputs = jax.tree.map(lambda x: jnp.moveaxis(x, time_axis, -1), inputs)
     return array_utils.concat_along_axis(jax.tree.leaves(inputs), axis=-1)
 
-- 
2.43.0


From 6ff9b9145a799f9eff4e51c70d57ba2011d07ef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:39 +0000
Subject: [PATCH 33/35] fix: inverse real transforms keep an odd number of
 columns

---
 jax_cfd/ml/decoders.py    | 4 ++--
 jax_cfd/ml/encoders.py    | 4 ++--
 jax_cfd/ml/equations.py   | 2 +-
 jax_cfd/ml/forcings.py    | 3 ++-
 jax_cfd/spectral/utils.py | 2 +-
 5 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/jax_cfd/ml/decoders.py b/jax_cfd/ml/decoders.py
index 57cfd91..fbc3847 100644
--- a/jax_cfd/ml/decoders.py
+++ b/jax_cfd/ml/decoders.py
@@ -150,7 +150,7 @@ def vorticity_decoder(
     vorticity = jnp.squeeze(vorticity, axis=-1)  # remove channel dim
     vorticity_hat = jnp.fft.rfft2(vorticity)
     uhat, vhat = velocity_solve(vorticity_hat)
-    v = (jnp.fft.irfft2(uhat), jnp.fft.irfft2(vhat))
+    v = tuple(jnp.fft.irfft2(x, s=grid.shape) for x in (uhat, vhat))
     return v
 
   return decode_fn
@@ -167,7 +167,7 @@ def spectral_vorticity_decoder(
   velocity_solve = spectral_utils.vorticity_to_velocity(grid)
   def decode_fn(vorticity_hat):
     uhat, vhat = velocity_solve(vorticity_hat)
-    v = (jnp.fft.irfft2(uhat), jnp.fft.irfft2(vhat))
+    v = tuple(jnp.fft.irfft2(x, s=grid.shape) for x in (uhat, vhat))
     return v
 
   return decode_fn
diff --git a/jax_cfd/ml/encoders.py b/jax_cfd/ml/encoders.py
index 48f7d4b..91a6361 100644
--- a/jax_cfd/ml/encoders.py
+++ b/jax_cfd/ml/encoders.py
@@ -216,7 +216,7 @@ def vorticity_encoder(
     vorticity_hat = 2j * jnp.pi * (vhat * kx - uhat * ky)
     # TODO(dresdner) main difference is that the output is ifft'ed.
     # TODO(dresdner) and also that the output has a channel dim.
-    return jnp.fft.irfft2(vorticity_hat)[..., jnp.newaxis]
+    return jnp.fft.irfft2(vorticity_hat, s=grid.shape)[..., jnp.newaxis]
 
   return encode_fn
 
@@ -231,7 +231,7 @@ def vorticity_velocity_encoder(
   """Maps velocity to [velocity; vorticity]."""
   del dt, physics_specs, data_offsets  # unused.
   slice_last_fn = lambda x: array_utils.slice_along_axis(x, 0, -1)
-  ifft = jnp.fft.irfft2
+  ifft = lambda x: jnp.fft.irfft2(x, s=grid.shape)
 
   def encode_fn(inputs):
     u, v = inputs
diff --git a/jax_cfd/ml/equations.py b/jax_cfd/ml/equations.py
index 10b2e81..1da652a 100644
--- a/jax_cfd/ml/equations.py
+++ b/jax_cfd/ml/equations.py
@@ -80,7 +80,7 @@ def modular_spectral_step_fn(
   if do_filter_step:
     # lambdas don't place nice with gin config.
     def ret(vhat):
-      v = jnp.fft.irfft2(step_fn(vhat))  # TODO(dresdner) unnecessary fft's
+      v = jnp.fft.irfft2(step_fn(vhat), s=grid.shape)  # TODO(dresdner) unnecessary fft's
       return jnp.fft.rfft2(spectral_utils.exponential_filter(v))
   else:
     ret = step_fn
diff --git a/jax_cfd/ml/forcings.py b/jax_cfd/ml/forcings.py
index 1d62eb5..331b899 100644
--- a/jax_cfd/ml/forcings.py
+++ b/jax_cfd/ml/forcings.py
@@ -52,7 +52,8 @@ def vorticity_space_forcing(grid: grids.Grid, forcing_module: ForcingModule):
   forcing_fn = forcing_module(grid, offsets=((0.0, 0.0), (0.0, 0.0)))
   velocity_solve = spectral_utils.vorticity_to_velocity(grid)
   kx, ky = grid.rfft_mesh()
-  fft, ifft = jnp.fft.rfft2, jnp.fft.irfft2
+  fft = jnp.fft.rfft2
+  ifft = lambda x: jnp.fft.irfft2(x, s=grid.shape)
   bc = boundaries.periodic_boundary_conditions(grid.ndim)
   offset = (0.0, 0.0)  # TODO(dresdner) do not hard code
 
diff --git a/jax_cfd/spectral/utils.py b/jax_cfd/spectral/utils.py
index 0554d41..fd3388d 100644
--- a/jax_cfd/spectral/utils.py
+++ b/jax_cfd/spectral/utils.py
@@ -151,7 +151,7 @@ def exponential_filter(signal, alpha=1e-6, order=2):
   kx, ky = jnp.meshgrid(kx, ky, indexing="ij")
   eta = jnp.sqrt(kx**2 + ky**2)
   sigma = jnp.exp(-alpha * eta**(2 * order))
-  return jnp.fft.irfft2(sigma * jnp.fft.rfft2(signal))
+  return jnp.fft.irfft2(sigma * jnp.fft.rfft2(signal), s=signal.shape[-2:])
 
 
 def vorticity_to_velocity(
-- 
2.43.0


From 85cb64731481dd993684c2edf563444de3a3ebf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:39 +0000
Subject: [PATCH 34/35] fix: collocated convection uses the flux boundary
 condition of each direction

---
 jax_cfd/collocated/advection.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/jax_cfd/collocated/advection.py b/jax_cfd/collocated/advection.py
index a235032..ae2210e 100644
--- a/jax_cfd/collocated/advection.py
+++ b/jax_cfd/collocated/advection.py
@@ -58,12 +58,10 @@ def _velocities_to_flux(v: GridVariableVector) -> Tuple[GridVariableVector]:
   flux = [tuple() for _ in range(ndim)]
   for i in range(ndim):
     for j in range(ndim):
-      if i <= j:
-        bc = boundaries.get_advection_flux_bc_from_velocity_and_scalar(
-            v[j], v[i], j)
-        flux[i] += (bc.impose_bc(v[i].array * v[j].array),)
-      else:
-        flux[i] += (flux[j][i],)
+      # the products are symmetric in i and j, the boundary conditions are not.
+      bc = boundaries.get_advection_flux_bc_from_velocity_and_scalar(
+          v[j], v[i], j)
+      flux[i] += (bc.impose_bc(v[i].array * v[j].array),)
   return tuple(flux)
 
 
-- 
2.43.0


From 00c8658f79266be0be4dc5fd28039067888c1dba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:46 +0000
Subject: [PATCH 35/35] fix: Smagorinsky viscosity has a finite gradient at
 zero strain

---
 jax_cfd/base/subgrid_models.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/jax_cfd/base/subgrid_models.py b/jax_cfd/base/subgrid_models.py
index 185082d..0c7d3f1 100644
--- a/jax_cfd/base/subgrid_models.py
+++ b/jax_cfd/base/subgrid_models.py
@@ -17,6 +17,7 @@ import functools
 from typing import Any, Callable, Mapping, Optional
 
 import jax
+import jax.numpy as jnp
 from jax_cfd.base import boundaries
 from jax_cfd.base import equations
 from jax_cfd.base import finite_differences
@@ -26,6 +27,7 @@ from jax_cfd.base import interpolation
 import numpy as np
 
 
+Array = grids.Array
 GridArray = grids.GridArray
 GridArrayVector = grids.GridArrayVector
 GridVariable = grids.GridVariable
@@ -37,6 +39,13 @@ ViscosityFn = Callable[[grids.GridArrayTensor, GridVariableVector],
 # TODO(pnorgaard) Refactor subgrid_models to interpolate, then differentiate
 
 
+@grids.applied
+def _safe_sqrt(x: Array) -> Array:
+  """Square root with gradient zero (instead of NaN) at zero."""
+  is_zero = x == 0
+  return jnp.where(is_zero, 0, jnp.sqrt(jnp.where(is_zero, 1, x)))
+
+
 def smagorinsky_viscosity(
     s_ij: grids.GridArrayTensor,
     v: GridVariableVector,
@@ -89,7 +98,7 @@ def smagorinsky_viscosity(
   centered_s_ij = np.vectorize(interpolate_to_center)(s_ij)
   # geometric average
   cutoff = np.prod(np.array(grid.step))**(1 / grid.ndim)
-  viscosity = (cs * cutoff)**2 * np.sqrt(
+  viscosity = (cs * cutoff)**2 * _safe_sqrt(
       2 * np.trace(centered_s_ij.dot(centered_s_ij)))
   viscosities_dict = {
       offset: wrapped_interp_fn(viscosity, offset, v, dt).data
-- 
2.43.0

