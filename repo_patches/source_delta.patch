From b8b7f29d5297b1c8457de4fd1bc408ed06ac4105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:11 +0000
Subject: [PATCH 01/28] fix: revise both copies of a troubled periodic
 interface

The troubled-interface broadcast treated the first and last interface along a
periodic direction as different interfaces (and the convex variant never wrapped
at all in 1D and 2D), so limited periodic runs were not conservative.
---
 fvhoe/slope_limiting.py | 47 +++++++++++++++++++++--------------------
 1 file changed, 24 insertions(+), 23 deletions(-)

diff --git a/fvhoe/slope_limiting.py b/fvhoe/slope_limiting.py
index a13f12d..712eaf9 100644
--- a/fvhoe/slope_limiting.py
+++ b/fvhoe/slope_limiting.py
@@ -280,29 +280,17 @@ def broadcast_to_troubled_interfaces(
         troubled_z_interfaces = np.zeros((nx, ny, nz + 1))
     if convex:
         xdim, ydim, zdim = "x" in dims, "y" in dims, "z" in dims
-        nx_alloc = trouble.shape[0] + 4 if xdim else 1
-        ny_alloc = trouble.shape[1] + 4 if ydim else 1
-        nz_alloc = trouble.shape[2] + 4 if zdim else 1
-        if using_cupy:
-            alloc_trouble = cp.zeros((nx_alloc, ny_alloc, nz_alloc))
-        else:
-            alloc_trouble = np.zeros((nx_alloc, ny_alloc, nz_alloc))
-        slices = [
-            slice(2, -2) if xdim else slice(None),
-            slice(2, -2) if ydim else slice(None),
-            slice(2, -2) if zdim else slice(None),
-        ]
-        alloc_trouble[tuple(slices)] = trouble
-        # apply periodic boundary conditions
-        if periodic_x and xdim:
-            alloc_trouble[:2, 2:-2, 2:-2] = trouble[-2:, :, :]
-            alloc_trouble[-2:, 2:-2, 2:-2] = trouble[:2, :, :]
-        if periodic_y and ydim:
-            alloc_trouble[2:-2, :2, 2:-2] = trouble[:, -2:, :]
-            alloc_trouble[2:-2, -2:, 2:-2] = trouble[:, :2, :]
-        if periodic_z and zdim:
-            alloc_trouble[2:-2, 2:-2, :2] = trouble[2:-2, 2:-2, -2:]
-            alloc_trouble[2:-2, 2:-2, -2:] = trouble[2:-2, 2:-2, :2]
+        # pad by two cells, wrapping around (including corners) where periodic
+        alloc_trouble = trouble.astype(float)
+        for axis, (active, periodic) in enumerate(
+            [(xdim, periodic_x), (ydim, periodic_y), (zdim, periodic_z)]
+        ):
+            if active:
+                pad_width = [(0, 0), (0, 0), (0, 0)]
+                pad_width[axis] = (2, 2)
+                alloc_trouble = np.pad(
+                    alloc_trouble, pad_width, mode="wrap" if periodic else "constant"
+                )
     # broadcast troubled cells to interfaces
     if convex:
         # convex broadcast
@@ -378,6 +366,19 @@ def broadcast_to_troubled_interfaces(
             troubled_z_interfaces[:, :, :-1] = np.maximum(
                 troubled_z_interfaces[:, :, :-1], trouble
             )
+    # the first and last interfaces along a periodic direction are the same interface
+    if periodic_x:
+        troubled_x_interfaces[[0, -1], :, :] = np.maximum(
+            troubled_x_interfaces[:1, :, :], troubled_x_interfaces[-1:, :, :]
+        )
+    if periodic_y:
+        troubled_y_interfaces[:, [0, -1], :] = np.maximum(
+            troubled_y_interfaces[:, :1, :], troubled_y_interfaces[:, -1:, :]
+        )
+    if periodic_z:
+        troubled_z_interfaces[:, :, [0, -1]] = np.maximum(
+            troubled_z_interfaces[:, :, :1], troubled_z_interfaces[:, :, -1:]
+        )
     troubled_x_interfaces = troubled_x_interfaces[np.newaxis, ...]
     troubled_y_interfaces = troubled_y_interfaces[np.newaxis, ...]
     troubled_z_interfaces = troubled_z_interfaces[np.newaxis, ...]
-- 
2.43.0


From 676ab8951e35e03eb019249466d3787ed3942b5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:11 +0000
Subject: [PATCH 02/28] fix: apply PAD bounds of every variable

The PAD indicator was overwritten by each variable in turn, so only the bounds
of the last one (pressure by default, never density) had an effect.
---
 fvhoe/slope_limiting.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fvhoe/slope_limiting.py b/fvhoe/slope_limiting.py
index 712eaf9..ee436b7 100644
--- a/fvhoe/slope_limiting.py
+++ b/fvhoe/slope_limiting.py
@@ -229,8 +229,8 @@ def detect_troubled_cells(
     PAD_indicator = np.zeros_like(NAD_violation_magnitude)
     if PAD_bounds is not None:
         for var, (lowr, uppr) in PAD_bounds.items():
-            PAD_indicator[...] = (
-                u_candidate_inner[_hs(var)] - lowr
+            PAD_indicator[...] = np.minimum(
+                PAD_indicator, u_candidate_inner[_hs(var)] - lowr
             )  # lower PAD difference
             PAD_indicator[...] = np.minimum(
                 PAD_indicator, uppr - u_candidate_inner[_hs(var)]
-- 
2.43.0


From 8ac417f8111b21c9e5be154d69f21df2e837d2ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:11 +0000
Subject: [PATCH 03/28] fix: count only logged substeps in the first step's
 mean trouble

---
 fvhoe/solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fvhoe/solver.py b/fvhoe/solver.py
index 1d70828..16fc12f 100644
--- a/fvhoe/solver.py
+++ b/fvhoe/solver.py
@@ -397,7 +397,7 @@ class EulerSolver(ODE):
         self.SED = SED
         self.SED_tolerance = SED_tolerance
         self.convex = convex
-        self.trouble_counter = 1
+        self.trouble_counter = 0
 
     def _init_array_allocation(self):
         """
-- 
2.43.0


From ad16ad9fb113bb1e41e609a3f06ec5f1a154de62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:11 +0000
Subject: [PATCH 04/28] fix: log trouble per cell instead of five identical
 copies

Slicing functions index the trouble arrays of a snapshot by (x, y, z); the
leading axis of length five made every trouble plot fail or show wrong cells.
---
 fvhoe/solver.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/fvhoe/solver.py b/fvhoe/solver.py
index 16fc12f..31b6721 100644
--- a/fvhoe/solver.py
+++ b/fvhoe/solver.py
@@ -410,9 +410,9 @@ class EulerSolver(ODE):
         self.am.add("w", np.empty((nvars, nx, ny, nz)))
 
         # limiting
-        self.am.add("mean trouble", np.zeros((5, nx, ny, nz)))
-        self.am.add("mean NAD mag", np.zeros((5, nx, ny, nz)))
-        self.am.add("mean PAD mag", np.zeros((5, nx, ny, nz)))
+        self.am.add("mean trouble", np.zeros((nx, ny, nz)))
+        self.am.add("mean NAD mag", np.zeros((nx, ny, nz)))
+        self.am.add("mean PAD mag", np.zeros((nx, ny, nz)))
 
         # fluxes
         self.am.add("F", np.empty((nvars, nx + 1, ny, nz)))
-- 
2.43.0


From d9cfafa34f20834f5e07d376867110d8f5e65707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:11 +0000
Subject: [PATCH 05/28] fix: pass the hydro state to the free part of the
 double Mach reflection wall

---
 fvhoe/boundary_conditions.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/fvhoe/boundary_conditions.py b/fvhoe/boundary_conditions.py
index 2718ebf..8a2436e 100644
--- a/fvhoe/boundary_conditions.py
+++ b/fvhoe/boundary_conditions.py
@@ -379,7 +379,13 @@ class BoundaryCondition:
                     out_refl = out.copy()
 
                     # set free bc
-                    _set_free_bc(out_free, slab_thickness, axis=i + 1, pos=pos)
+                    _set_free_bc(
+                        hs=self.hydro_state,
+                        u=out_free,
+                        slab_thickness=slab_thickness,
+                        axis=i + 1,
+                        pos=pos,
+                    )
 
                     # set reflective bc
                     _set_symmetric_bc(
-- 
2.43.0


From f0001b422a354e03afe01dc86076edf323e08537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:11 +0000
Subject: [PATCH 06/28] fix: evaluate the second SSPRK2 stage at t + dt

---
 fvhoe/ode.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fvhoe/ode.py b/fvhoe/ode.py
index 69c9f5b..a1475e5 100644
--- a/fvhoe/ode.py
+++ b/fvhoe/ode.py
@@ -261,7 +261,7 @@ class ODE(ABC):
             dt, k0 = self.f(t, u)
             dt = _hit_target(t=t, dt=dt, target=target_time)
             u1 = u + dt * k0
-            _, k1 = self.f(t, u1)
+            _, k1 = self.f(t + dt, u1)
             unext = 0.5 * u + 0.5 * (u1 + dt * k1)
             return dt, unext
 
-- 
2.43.0


From 53c82123cabc32633d16c1527157d8114830c404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:11 +0000
Subject: [PATCH 07/28] fix: skip undefined initial condition functions when
 saving attributes

u0 is NotImplemented for finite volume initial conditions and cannot be written
as JSON, so saving such a run raised a TypeError after the simulation.
---
 fvhoe/solver.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/fvhoe/solver.py b/fvhoe/solver.py
index 31b6721..3d26d66 100644
--- a/fvhoe/solver.py
+++ b/fvhoe/solver.py
@@ -916,6 +916,7 @@ class EulerSolver(ODE):
             # skip functions, arrays, etc
             if (
                 (callable(v) and k != "am")
+                or v is NotImplemented
                 or isinstance(v, np.ndarray)
                 or isinstance(v, cp_ndarray)
                 or k
-- 
2.43.0


From 822ccf352a480d74e58802cd95a3b84391472148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:42 +0000
Subject: [PATCH 08/28] fix: only target downbeats after the current time

A run continued past a downbeat took a negative time-step back to it, T equal to
the current time raised an IndexError and iterables other than lists and arrays
raised a TypeError.
---
 fvhoe/ode.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/fvhoe/ode.py b/fvhoe/ode.py
index a1475e5..cf95f08 100644
--- a/fvhoe/ode.py
+++ b/fvhoe/ode.py
@@ -144,10 +144,9 @@ class ODE(ABC):
         elif isinstance(downbeats, np.ndarray):
             downbeats = downbeats.tolist()
 
-        downbeats = sorted(set([0] + downbeats + [T]))[
-            1:
-        ]  # get unique values and ignore 0
-        target_time = downbeats.pop(0) if exact else None
+        # get unique values after the current time
+        downbeats = sorted({time for time in [*downbeats, T] if time > self.t})
+        target_time = downbeats.pop(0) if exact and downbeats else None
 
         # initial snapshot
         self.snapshot()
-- 
2.43.0


From 8b3ead06cf39721fc750eff2ec6276e6748cf821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:42 +0000
Subject: [PATCH 09/28] fix: apply boundary conditions at the time of the
 Runge-Kutta stage

Time-dependent Dirichlet data were evaluated at the start of the step in every
stage, reducing every integrator to first order at such a boundary.
---
 fvhoe/solver.py | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/fvhoe/solver.py b/fvhoe/solver.py
index 3d26d66..5307c01 100644
--- a/fvhoe/solver.py
+++ b/fvhoe/solver.py
@@ -424,19 +424,22 @@ class EulerSolver(ODE):
         compute the RHS of the Euler equations
         """
         self.f_evaluation_count += 1
-        return self.hydrodynamics(u)
+        return self.hydrodynamics(u, t=t)
 
-    def hydrodynamics(self, u: np.ndarray) -> Tuple[float, np.ndarray]:
+    def hydrodynamics(
+        self, u: np.ndarray, t: float = None
+    ) -> Tuple[float, np.ndarray]:
         """
         compute the Euler equation dynamics from cell-average conserved values u
         args:
             u (array_like) : fv averages of conservative variables. has shape (nvars, nx, ny, nz)
+            t (float) : time at which boundary conditions are applied. if None, the current time is used
         returns:
             dt, dudt (float, array_like) : time-step size, conservative variable dynamics
         """
         # high-order fluxes
         dt, (self.am("F")[...], self.am("G")[...], self.am("H")[...]) = (
-            self.hydrofluxes(u=u, p=self.p, timer_prefix="(high-order) ")
+            self.hydrofluxes(u=u, p=self.p, timer_prefix="(high-order) ", t=t)
         )
 
         if self.a_posteriori_slope_limiting:
@@ -447,6 +450,7 @@ class EulerSolver(ODE):
                 H=self.am("H"),
                 dt=dt,
                 force_trouble=self.force_trouble,
+                t=t,
             )
 
         # compute conservative variable dynamics
@@ -459,6 +463,7 @@ class EulerSolver(ODE):
         p: Tuple[int, int, int],
         slope_limiter: str = None,
         timer_prefix: str = "",
+        t: float = None,
     ) -> Tuple[float, Tuple[np.ndarray, np.ndarray, np.ndarray]]:
         """
         compute the Euler equation fluxes F, G, H with degree p polynomials. optionally apply slope limiting.
@@ -468,6 +473,7 @@ class EulerSolver(ODE):
             p (Tuple[int, int, int]) : polynomial interpolation degree (px, py, pz)
             limiter (str) : None, 'minmod', 'moncen'
             timer_prefix (str) : prefix for timer categories
+            t (float) : time at which boundary conditions are applied. if None, the current time is used
         returns:
             dt, (F, G, H) (tuple) : time-step size and numerical fluxes
                 dt (float) : time-step size
@@ -501,6 +507,7 @@ class EulerSolver(ODE):
                 gw if self.ydim else 0,
                 gw if self.zdim else 0,
             ),
+            t=t,
         )
 
         # time-step size
@@ -658,6 +665,7 @@ class EulerSolver(ODE):
         H: np.ndarray,
         dt: float,
         force_trouble: bool = False,
+        t: float = None,
     ) -> None:
         """
         revise fluxes to prevent oscillations
@@ -668,6 +676,7 @@ class EulerSolver(ODE):
             H (array_like) : z-fluxes. has shape (nvars, nx, ny, nz + 1)
             dt (float) : time-step size
             force_trouble (bool) : all cells are troubled
+            t (float) : time at which boundary conditions are applied. if None, the current time is used
         returns:
             None : revise fluxes in place
         """
@@ -683,8 +692,10 @@ class EulerSolver(ODE):
             3 if self.ydim else 0,
             3 if self.zdim else 0,
         )
-        w = self.interpolate_primitives_from_conservatives(u, p=self.p, gw=gw)
-        w_star = self.interpolate_primitives_from_conservatives(ustar, p=self.p, gw=gw)
+        w = self.interpolate_primitives_from_conservatives(u, p=self.p, gw=gw, t=t)
+        w_star = self.interpolate_primitives_from_conservatives(
+            ustar, p=self.p, gw=gw, t=t
+        )
 
         # detect troubled cells
         self.timer.start("(fallback scheme) troubled cell detection")
@@ -714,6 +725,7 @@ class EulerSolver(ODE):
                 p=(int(self.p[0] > 0), int(self.p[1] > 0), int(self.p[2] > 0)),
                 slope_limiter=self.slope_limiter,
                 timer_prefix="(fallback scheme) ",
+                t=t,
             )
 
             # get mask for troubled interfaces
@@ -756,6 +768,7 @@ class EulerSolver(ODE):
         p: Tuple[int, int, int],
         gw: Tuple[int, int, int] = (0, 0, 0),
         fv_average: bool = True,
+        t: float = None,
     ) -> np.ndarray:
         """
         interpolate finite volume primitives from finite volume conservatives
@@ -765,6 +778,7 @@ class EulerSolver(ODE):
             gw (Tuple[int, int, int]) : how many ghost zones w should have on each side (gx, gy, gz).
                 all values should be at least 0
             fv_average (bool) : whether u is cell-averaged or centroids
+            t (float) : time at which boundary conditions are applied. if None, the current time is used
         returns:
             w (array_like) : primitive variables as finite volume averages or centroids
         """
@@ -781,7 +795,7 @@ class EulerSolver(ODE):
             interp_cost_z = get_stencil_size(p[2])
         gw = (gw[0] + interp_cost_x, gw[1] + interp_cost_y, gw[2] + interp_cost_z)
         self.timer.start("boundary conditions")
-        u_bc = self.bc.apply(u, gw=gw, t=self.t)
+        u_bc = self.bc.apply(u, gw=gw, t=self.t if t is None else t)
         self.timer.stop("boundary conditions")
         u_cell_centers = interpolate_cell_centers(u_bc, p=p)
         w_cell_centers = compute_primitives(hs, u_cell_centers, gamma=self.gamma)
-- 
2.43.0


From 2f21b79115e221a53a66e646233b4a2d81698503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:42 +0000
Subject: [PATCH 10/28] fix: wrap periodic ghost zones wider than the domain

Ghost cells beyond one period were copied from uninitialized memory.
---
 fvhoe/boundary_conditions.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/fvhoe/boundary_conditions.py b/fvhoe/boundary_conditions.py
index 8a2436e..1395886 100644
--- a/fvhoe/boundary_conditions.py
+++ b/fvhoe/boundary_conditions.py
@@ -99,12 +99,19 @@ def _set_periodic_bc(
         None, modifies u in place
     """
     st = slab_thickness
-    outer_l = hs(axis=axis, cut=(0, st))
-    inner_l = hs(axis=axis, cut=(st, 2 * st))
-    outer_r = hs(axis=axis, cut=(-st, 0))
-    inner_r = hs(axis=axis, cut=(-2 * st, -st))
-    u[outer_l] = u[inner_r]
-    u[outer_r] = u[inner_l]
+    n = u.shape[axis] - 2 * st
+
+    # fill outwards from the interior, at most one period at a time
+    l, r = st, st + n
+    while l > 0:
+        width = min(n, l)
+        outer_l = hs(axis=axis, cut=(l - width, l))
+        inner_r = hs(axis=axis, cut=(l - width + n, l + n))
+        outer_r = hs(axis=axis, cut=(r, r + width))
+        inner_l = hs(axis=axis, cut=(r - n, r - n + width))
+        u[outer_l] = u[inner_r]
+        u[outer_r] = u[inner_l]
+        l, r = l - width, r + width
 
 
 def _set_symmetric_bc(
-- 
2.43.0


From 79e8f95bb241a2c50a329920a7beefd31d095221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:42 +0000
Subject: [PATCH 11/28] fix: refuse mirrored ghost zones wider than the domain

Ghost cells beyond the far boundary were copied from uninitialized memory.
---
 fvhoe/boundary_conditions.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/fvhoe/boundary_conditions.py b/fvhoe/boundary_conditions.py
index 1395886..1d1130f 100644
--- a/fvhoe/boundary_conditions.py
+++ b/fvhoe/boundary_conditions.py
@@ -135,6 +135,10 @@ def _set_symmetric_bc(
         None, modifies u in place
     """
     st = slab_thickness
+    if st > u.shape[axis] - 2 * st:
+        raise ValueError(
+            f"Cannot mirror {st} ghost cells from a domain with {u.shape[axis] - 2 * st} cells."
+        )
     flip = hs(axis=axis, cut=(0, 0), step=-1)
     if pos == "l":
         outer = hs(axis=axis, cut=(0, st))
-- 
2.43.0


From e35158c6527215ba0022dddf59b988e163c8b775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:42 +0000
Subject: [PATCH 12/28] fix: refuse undefined boundaries

Ghost cells of a boundary of type None, or of one paired with a periodic
boundary, were left uninitialized.
---
 fvhoe/boundary_conditions.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/fvhoe/boundary_conditions.py b/fvhoe/boundary_conditions.py
index 1d1130f..7b1591e 100644
--- a/fvhoe/boundary_conditions.py
+++ b/fvhoe/boundary_conditions.py
@@ -212,6 +212,12 @@ class BoundaryCondition:
             else:
                 setattr(self, f"{dim}{suffix}", (value, value))
 
+        # periodic boundaries come in pairs
+        for dim in "xyz":
+            l_bc, r_bc = getattr(self, dim)
+            if (l_bc == "periodic") != (r_bc == "periodic"):
+                raise ValueError(f"Periodic boundary in {dim} on one side only.")
+
         # allocate dirichlet arrays
         for dim in "xyz":
             l_value, r_value = getattr(self, f"{dim}_value")
@@ -411,8 +417,6 @@ class BoundaryCondition:
                     # piecewise combination of the two
                     out = np.where(X < 1 / 6, out_free, out_refl)
 
-                case None:
-                    pass
                 case _:
                     raise ValueError(f"Unknown bc type '{bc}'")
 
-- 
2.43.0


From bc8a36f4faaf4c82d8d91232c6958c2a8a9bdea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:42 +0000
Subject: [PATCH 13/28] fix: detect smooth extrema symmetrically

Where the second derivative vanishes the right detector reports smoothness but
the left one did not, so mirrored problems were limited differently.
---
 fvhoe/smooth_extrema_detection.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/fvhoe/smooth_extrema_detection.py b/fvhoe/smooth_extrema_detection.py
index 04c3df8..f00b775 100644
--- a/fvhoe/smooth_extrema_detection.py
+++ b/fvhoe/smooth_extrema_detection.py
@@ -33,9 +33,7 @@ def compute_1d_smooth_extrema_detector(
     # left detector
     vL = dU[slices[0]] - dU[slices[1]]
     alphaL = -np.where(dv < 0, np.where(vL > 0, vL, 0), np.where(vL < 0, vL, 0)) / dv
-    alphaL[...] = (
-        -np.where(dv < 0, np.where(vL > 0, vL, 0), np.where(vL < 0, vL, 0)) / dv
-    )
+    alphaL[...] = np.where(np.abs(dv) <= eps, 1, alphaL)
     alphaL[...] = np.where(alphaL < 1, alphaL, 1)
 
     # right detector
-- 
2.43.0


From 3a62f3878f80aff2085f69c0ec26460a940d7e03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:42 +0000
Subject: [PATCH 14/28] fix: import an existing initial condition in scripting

---
 fvhoe/scripting.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/fvhoe/scripting.py b/fvhoe/scripting.py
index 7630fd2..8d8e8d1 100644
--- a/fvhoe/scripting.py
+++ b/fvhoe/scripting.py
@@ -1,5 +1,5 @@
 from fvhoe.boundary_conditions import BoundaryCondition
-from fvhoe.initial_conditions import kelvin_helmholtz_2d
+from fvhoe.initial_conditions import InitialCondition, KelvinHelmholtz2D
 from fvhoe.solver import EulerSolver
 import matplotlib.pyplot as plt
 import numpy as np
@@ -10,7 +10,7 @@ def EulerSolver_wrapper(
     project_pref: str,
     snapshot_parent_dir: str,
     summary_parent_dir: str = None,
-    ic: callable = kelvin_helmholtz_2d,
+    ic: InitialCondition = KelvinHelmholtz2D(),
     bc: BoundaryCondition = BoundaryCondition(),
     T: float = 1.0,
     integrator: int = -1,
@@ -26,7 +26,7 @@ def EulerSolver_wrapper(
         snapshot_parent_dir (str) : snapshot parent directory
         summary_parent_dir (str) : summary parent directory. used for saving output from snapshot
             helper functions. if None, no snapshot_helper_function is used.
-        ic (callable) : valid EulerSolver initial condition function
+        ic (InitialCondition) : valid EulerSolver initial condition
         bc (BoundaryCondition) : valid EulerSolver boundary condition object
         T (float) : simulation time
         integrator (int) : integrator order. if -1, EulerSolver.run() is used.
-- 
2.43.0


From 79fb538369a323e30791617760642a04adda8c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:42 +0000
Subject: [PATCH 15/28] fix: plot all six fields of 2D runs

---
 fvhoe/solver.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fvhoe/solver.py b/fvhoe/solver.py
index 5307c01..802f5b0 100644
--- a/fvhoe/solver.py
+++ b/fvhoe/solver.py
@@ -1000,7 +1000,7 @@ class EulerSolver(ODE):
             varnames = ["rho", "P", "v", "vx", "vy", "vz"]
             varlabels = [r"$\rho$", r"$P$", r"$v$", r"$v_x$", r"$v_y$", r"$v_z$"]
             for i, j in product([0, 1], [0, 1, 2]):
-                im = self.plot_2d_slice(axs[i, j], param=varnames[i + j], **kwargs)
+                im = self.plot_2d_slice(axs[i, j], param=varnames[3 * i + j], **kwargs)
                 im_ax = fig.add_axes(
                     [
                         axs[i, j].get_position().x0 + axs[i, j].get_position().width,
@@ -1009,7 +1009,7 @@ class EulerSolver(ODE):
                         axs[i, j].get_position().height,
                     ]
                 )
-                fig.colorbar(im, cax=im_ax, label=varlabels[i + j])
+                fig.colorbar(im, cax=im_ax, label=varlabels[3 * i + j])
             return fig, axs
         raise NotImplementedError(
             "Plotting is only implemented for 1D and 2D simulations."
-- 
2.43.0


From e9cd3e03827b3b61b4f5e6cdbeb8ebc273dee4ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:42 +0000
Subject: [PATCH 16/28] fix: accept snapshot lists in plotting functions

---
 fvhoe/visualization.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/fvhoe/visualization.py b/fvhoe/visualization.py
index f99747b..0aba290 100644
--- a/fvhoe/visualization.py
+++ b/fvhoe/visualization.py
@@ -161,7 +161,7 @@ def plot_1d_slice(
     returns:
         None : modifies the input Axes object
     """
-    hs = solver.hydro_state
+    hs = getattr(solver, "hydro_state", HydroState())
     snapshots = get_snapshot_list(solver)
     n, slices = get_indices_from_coordinates(snapshots, t, x, y, z)
 
@@ -238,7 +238,7 @@ def plot_2d_slice(
     returns:
         None : modifies the input Axes object
     """
-    hs = solver.hydro_state
+    hs = getattr(solver, "hydro_state", HydroState())
     snapshots = get_snapshot_list(solver)
     n, slices = get_indices_from_coordinates(snapshots, t, x, y, z)
 
@@ -332,7 +332,7 @@ def sample_circular_average(
         bin_average (array_like) : average of param in each bin
         r_average (array_like) : average radius in each bin
     """
-    hs = solver.hydro_state
+    hs = getattr(solver, "hydro_state", HydroState())
     snapshots = get_snapshot_list(solver)
     n, _ = get_indices_from_coordinates(snapshots, t)
 
-- 
2.43.0


From f86a1f026d8c34e996d990405dcab9e84be15f08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:42 +0000
Subject: [PATCH 17/28] fix: accept overlay_trouble=True

---
 fvhoe/visualization.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/fvhoe/visualization.py b/fvhoe/visualization.py
index 0aba290..c5b74b9 100644
--- a/fvhoe/visualization.py
+++ b/fvhoe/visualization.py
@@ -261,6 +261,8 @@ def plot_2d_slice(
         y_for_plotting[-1],
     )
     # get z data
+    if overlay_trouble is True:
+        overlay_trouble = "all"
     if overlay_trouble:
         trouble_for_plotting = plotting_trouble(
             snapshots[n], mode=overlay_trouble, tol=tol
-- 
2.43.0


From 8114fc45d50148df2ac0de91851ea8dea40b0c9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:42 +0000
Subject: [PATCH 18/28] fix: restore snapshot times when reading snapshots

---
 fvhoe/solver.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/fvhoe/solver.py b/fvhoe/solver.py
index 802f5b0..c2b54aa 100644
--- a/fvhoe/solver.py
+++ b/fvhoe/solver.py
@@ -896,6 +896,7 @@ class EulerSolver(ODE):
         if os.path.exists(self.snapshot_dir):
             with open(os.path.join(self.snapshot_dir, "arrs.pkl"), "rb") as f:
                 self.snapshots = pickle.load(f)
+            self.snapshot_times = [snapshot["t"] for snapshot in self.snapshots]
             print(f"Read from snapshot directory {self.snapshot_dir}")
             return True
         return False
-- 
2.43.0


From 6a524f75a8ee8f2a068d422d7e3113a0232cea8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:00:55 +0000
Subject: [PATCH 19/28] fix: refuse passive scalar names that hide flow
 variables

---
 fvhoe/hydro.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/fvhoe/hydro.py b/fvhoe/hydro.py
index b63f9f2..4084348 100644
--- a/fvhoe/hydro.py
+++ b/fvhoe/hydro.py
@@ -52,6 +52,11 @@ class HydroState:
         if len(self.passive_scalars) != len(set(self.passive_scalars)):
             raise ValueError("Duplicate passive scalar names.")
 
+        # check passive scalars don't hide other variables
+        reserved = {*self.variable_map, "passive_scalars"} & set(self.passive_scalars)
+        if reserved:
+            raise ValueError(f"Reserved passive scalar names: {reserved}")
+
         # add passive scalars to variable map
         if self.passive_scalars:
             for i, scalar in enumerate(self.passive_scalars, start=5):
-- 
2.43.0


From dde246d6bca9ec9af3e38054462e4fdb9d0b6381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:04:03 +0000
Subject: [PATCH 20/28] fix: leave the timer unchanged when a category is
 refused

---
 fvhoe/timer.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/fvhoe/timer.py b/fvhoe/timer.py
index 90de469..247f2ec 100644
--- a/fvhoe/timer.py
+++ b/fvhoe/timer.py
@@ -28,9 +28,11 @@ class Timer:
         """
         if isinstance(cat, str):
             cat = (cat,)
-        for c in cat:
-            if c in self.cats:
+        cat = tuple(cat)
+        for i, c in enumerate(cat):
+            if c in self.cats or c in cat[:i]:
                 raise ValueError(f"Category '{c}' already exists.")
+        for c in cat:
             self.cats = (*self.cats, c)
             self._start_time[c] = None
             self.cum_time[c] = 0.0
-- 
2.43.0


From 41ea6c3100be4b058ddfc31ad6945da46ee3ed70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:10:24 +0000
Subject: [PATCH 21/28] fix: honour progress_bar when running a number of steps

A run of n steps drew a bar even with progress_bar=False.
---
 fvhoe/ode.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fvhoe/ode.py b/fvhoe/ode.py
index cf95f08..42960c2 100644
--- a/fvhoe/ode.py
+++ b/fvhoe/ode.py
@@ -119,7 +119,7 @@ class ODE(ABC):
             self.snapshot()
             self.timer.stop("SNAPSHOTS")
             self.timer.start("TOTAL")
-            for _ in tqdm(range(n)):
+            for _ in tqdm(range(n), disable=not self.print_progress_bar):
                 self.take_step()
             self.timer.stop("TOTAL")
             self.timer.start("SNAPSHOTS")
-- 
2.43.0


From 7667fc0f33c561fba71ea77f3c5e8af722784d6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:20:08 +0000
Subject: [PATCH 22/28] fix: sample HLLC's outer states before the contact

With non-physical face states (negative pressures reached from a valid blast
by high order interpolation) the contact speed can leave the interval
between the outer waves; the left and right sides were then treated
differently and runs lost mirror symmetry. Admissible states are unchanged.
---
 fvhoe/riemann_solvers.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/fvhoe/riemann_solvers.py b/fvhoe/riemann_solvers.py
index 437b2b5..3749edd 100644
--- a/fvhoe/riemann_solvers.py
+++ b/fvhoe/riemann_solvers.py
@@ -144,16 +144,12 @@ def hllc(
 
     # sample godunov state
     r_gdv = np.where(
-        Sl > 0, rhol, np.where(v_star > 0, r_starL, np.where(Sr > 0, r_starR, rhor))
-    )
-    v_gdv = np.where(
-        Sl > 0, vl, np.where(v_star > 0, v_star, np.where(Sr > 0, v_star, vr))
-    )
-    P_gdv = np.where(
-        Sl > 0, Pl, np.where(v_star > 0, P_star, np.where(Sr > 0, P_star, Pr))
+        Sl > 0, rhol, np.where(Sr < 0, rhor, np.where(v_star > 0, r_starL, r_starR))
     )
+    v_gdv = np.where(Sl > 0, vl, np.where(Sr < 0, vr, v_star))
+    P_gdv = np.where(Sl > 0, Pl, np.where(Sr < 0, Pr, P_star))
     E_gdv = np.where(
-        Sl > 0, El, np.where(v_star > 0, E_starL, np.where(Sr > 0, E_starR, Er))
+        Sl > 0, El, np.where(Sr < 0, Er, np.where(v_star > 0, E_starL, E_starR))
     )
 
     # HLLC flux
-- 
2.43.0


From 89e96384d7672b2989598f7f15d1b90c6d50dc75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:28:34 +0000
Subject: [PATCH 23/28] fix: land exactly on target times

t + (target - t) differs from target by one unit in the last place for some
pairs of times: runs ended past T, or took an extra or backward step of that size.
---
 fvhoe/ode.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/fvhoe/ode.py b/fvhoe/ode.py
index 42960c2..34b00f6 100644
--- a/fvhoe/ode.py
+++ b/fvhoe/ode.py
@@ -186,7 +186,9 @@ class ODE(ABC):
         dt, self.am("u")[...] = self.stepper(
             self.t, self.am("u"), target_time=target_time
         )
-        self.t += dt
+        # t + (target_time - t) is not always target_time in floating point
+        hit_target = target_time is not None and dt == target_time - self.t
+        self.t = float(target_time) if hit_target else self.t + dt
         self.timestamps.append(self.t)
         self.step_count += 1
         self.step_helper_function()
-- 
2.43.0


From 1ff14b4ae66d680d22d86f5a23c01b23692c9cbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:52:20 +0000
Subject: [PATCH 24/28] fix: minmod treated differences below 1e-16 as noise,
 so results depended on the units

---
 fvhoe/slope_limiting.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/fvhoe/slope_limiting.py b/fvhoe/slope_limiting.py
index ee436b7..6c7c5d9 100644
--- a/fvhoe/slope_limiting.py
+++ b/fvhoe/slope_limiting.py
@@ -61,13 +61,8 @@ def minmod(du_left: np.ndarray, du_right: np.ndarray) -> np.ndarray:
     returns:
         minmod limited difference
     """
-    ratio = du_right / np.where(
-        du_left > 0,
-        np.where(du_left > 1e-16, du_left, 1e-16),
-        np.where(du_left < -1e-16, du_left, -1e-16),
-    )
-    ratio = np.where(ratio < 1, ratio, 1)
-    return np.where(ratio > 0, ratio, 0) * du_left
+    slope = np.sign(du_left) * np.minimum(np.abs(du_left), np.abs(du_right))
+    return np.where(np.sign(du_left) * np.sign(du_right) > 0, slope, 0)
 
 
 def moncen(du_left: np.ndarray, du_right: np.ndarray) -> np.ndarray:
-- 
2.43.0


From a7689840562167f5115480e8ad38d2edaca3b72e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:27 +0000
Subject: [PATCH 25/28] fix: let a step count override the end time, as
 documented

---
 fvhoe/ode.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fvhoe/ode.py b/fvhoe/ode.py
index 34b00f6..e7b89bb 100644
--- a/fvhoe/ode.py
+++ b/fvhoe/ode.py
@@ -111,7 +111,7 @@ class ODE(ABC):
             snapshot_dir (str) : directory to save snapshots. if None, does not save
             overwrite (bool) : overwrite the snapshot directory if it exists
         """
-        predetermined_step_count = T is None
+        predetermined_step_count = n is not None
 
         # if given n, perform a simple time evolution
         if predetermined_step_count:
-- 
2.43.0


From 395e427afe1c6ef726375574859566fab2c0957c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:27 +0000
Subject: [PATCH 26/28] fix: save settings given as numpy scalars

---
 fvhoe/solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fvhoe/solver.py b/fvhoe/solver.py
index c2b54aa..fdbfb7f 100644
--- a/fvhoe/solver.py
+++ b/fvhoe/solver.py
@@ -960,7 +960,7 @@ class EulerSolver(ODE):
         sorted_keys = sorted(attrs_to_save.keys(), key=lambda x: (x.lower(), x))
         attrs_to_save = {key: attrs_to_save[key] for key in sorted_keys}
         with open(os.path.join(snapshot_dir, "attrs.json"), "w") as f:
-            json.dump(attrs_to_save, f, indent=4)
+            json.dump(attrs_to_save, f, indent=4, default=np.generic.item)
 
         # generate timing report
         with open(os.path.join(snapshot_dir, "timing.txt"), "w") as f:
-- 
2.43.0


From 1b69342c6c7d6ae969f1b39631962953b42b9aed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:27 +0000
Subject: [PATCH 27/28] fix: convert whole-number arrays without truncation

---
 fvhoe/hydro.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/fvhoe/hydro.py b/fvhoe/hydro.py
index 4084348..5d4db70 100644
--- a/fvhoe/hydro.py
+++ b/fvhoe/hydro.py
@@ -157,7 +157,7 @@ def compute_primitives(hs: HydroState, u: np.ndarray, gamma: float) -> np.ndarra
     returns:
         w (array_like) : has variables names ["rho", "vx", "vy", "vz", "P", ...]
     """
-    w = np.empty_like(u)
+    w = np.empty_like(u, dtype=np.result_type(u.dtype, 1.0))
 
     # get slices
     rho = u[hs("rho")]
@@ -184,7 +184,7 @@ def compute_conservatives(hs: HydroState, w: np.ndarray, gamma: float) -> np.nda
     returns:
         u (array_like) : has variables names ["rho", "mx", "my", "mz", "E", ...]
     """
-    u = np.empty_like(w)
+    u = np.empty_like(w, dtype=np.result_type(w.dtype, 1.0))
 
     # get slices
     rho = w[hs("rho")]
@@ -236,7 +236,7 @@ def compute_fluxes(
     returns:
         out (array_like) : fluxes in specified direction, has variables names ["rho", "mx", "my", "mz", "E", ...]
     """
-    out = np.empty_like(w)
+    out = np.empty_like(w, dtype=np.result_type(w.dtype, 1.0))
     v = w[hs("v" + dim)]  # velocity in dim-direction
 
     # assign values
-- 
2.43.0


From ed951315051f2b492a624eb89e21dc0ab756f496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:27 +0000
Subject: [PATCH 28/28] fix: average in whole-number radial bins without
 truncation

---
 fvhoe/visualization.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fvhoe/visualization.py b/fvhoe/visualization.py
index c5b74b9..d00df8d 100644
--- a/fvhoe/visualization.py
+++ b/fvhoe/visualization.py
@@ -351,8 +351,8 @@ def sample_circular_average(
         param_data = get_velocity_magnitude(snapshots[n]["w"])
     else:
         param_data = snapshots[n]["w"][hs(param)]
-    r_average = np.empty_like(radii[:-1])
-    bin_average = np.empty_like(radii[:-1])
+    r_average = np.empty(len(radii) - 1)
+    bin_average = np.empty(len(radii) - 1)
 
     # sample
     for i, (little_r, big_r) in enumerate(zip(radii[:-1], radii[1:])):
-- 
2.43.0

