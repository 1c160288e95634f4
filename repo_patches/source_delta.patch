From cc78d92380bbd79a9c0c75e889e06afe777d8b35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:15 +0000
Subject: [PATCH 01/35] fix: interpolate fractional y index towards the upper
 neighbour

Grid.getPoloidalGrid(i + f) weighted the two neighbouring planes the wrong
way round, returning the position of i + (1 - f).
---
 zoidberg/grid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zoidberg/grid.py b/zoidberg/grid.py
index ea384eb..86968cb 100644
--- a/zoidberg/grid.py
+++ b/zoidberg/grid.py
@@ -104,7 +104,7 @@ class Grid(object):
             _, yup = self.getPoloidalGrid(floor + 1)
             _, ydown = self.getPoloidalGrid(floor)
             fac = yindex - floor
-            return None, ydown + (yup - ydown) * (1 - fac)
+            return None, ydown + (yup - ydown) * fac
 
         if (yindex >= 0) and (yindex < ny):
             # Within index range, so just return
-- 
2.43.0


From c81e277b7cf0924e5acc791963379d90279ea71f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:57 +0000
Subject: [PATCH 02/35] fix: treat every parallel slice in make_maps, not just
 the last

The sub-sample maps were only filled for the last offset, and the boundary
was evaluated at the y position of the last offset for all of them.
---
 zoidberg/zoidberg.py | 108 +++++++++++++++++++++----------------------
 1 file changed, 54 insertions(+), 54 deletions(-)

diff --git a/zoidberg/zoidberg.py b/zoidberg/zoidberg.py
index 7230f3a..5517095 100644
--- a/zoidberg/zoidberg.py
+++ b/zoidberg/zoidberg.py
@@ -221,8 +221,8 @@ def make_maps(
                 1:, ...
             ]
 
-            for parallel_slice, coord, pol_slice in zip(
-                parallel_slices, coords, pol_slices
+            for parallel_slice, coord, pol_slice, y_slice in zip(
+                parallel_slices, coords, pol_slices, y_slices[1:]
             ):
                 # Store the coordinates in real space
                 parallel_slice.R[:, j, :] = coord[:, :, 0]
@@ -247,59 +247,59 @@ def make_maps(
                 parallel_slice.xt_prime[:, j, :] = xind
                 parallel_slice.zt_prime[:, j, :] = zind
 
-            if nsamples == 1:
-                # Only one sample per cell
-                parallel_slice.xt_primes[:, j, :, 0] = xind
-                parallel_slice.zt_primes[:, j, :, 0] = zind
-            elif pol_slice is None:
-                # No slice grid, so hit a boundary
-                # Not calculating intersection R,Z so no need to follow
-                parallel_slice.xt_primes[:, j, :, :] = -1
-                parallel_slice.zt_primes[:, j, :, :] = -1
-            else:
-                # Multiple samples.
-                # Interpolate R and Z to get starting locations
-                from scipy import interpolate
-
-                R = pol.R
-                Z = pol.Z
-                nx, nz = pol.R.shape
-                # Wrap around in Z by adding the arrays
-                Rinterp = interpolate.RegularGridInterpolator(
-                    (np.arange(nx), np.arange(nz + 2) - 1),
-                    np.concatenate((R[:, -1:], R, R[:, 0:1]), axis=-1),
-                    bounds_error=False,
-                    fill_value=None,  # Extrapolates
-                )
-                Zinterp = interpolate.RegularGridInterpolator(
-                    (np.arange(nx), np.arange(nz + 2) - 1),
-                    np.concatenate((Z[:, -1:], Z, Z[:, 0:1]), axis=-1),
-                    bounds_error=False,
-                    fill_value=None,  # Extrapolates
-                )
-
-                # Indices of the cell centers
-                xinds, zinds = np.meshgrid(np.arange(nx), np.arange(nz), indexing="ij")
-
-                for s, xo, zo, w in zip(range(nsamples), xoffsets, zoffsets, weights):
-                    coord = field_tracer.follow_field_lines(
-                        Rinterp((xinds + xo, zinds)),
-                        Zinterp((xinds + zo, zinds)),
-                        [ycoord, y_slice],
-                        rtol=rtol,
-                    )[1, ...]
-                    xcoord = coord[:, :, 0]
-                    zcoord = coord[:, :, 1]
-                    xind, zind = pol_slice.findIndex(xcoord, zcoord)
-
-                    # Check boundary defined by the field
-                    # Note: A fraction of points may hit the boundary
-                    outside = magnetic_field.boundary.outside(xcoord, y_slice, zcoord)
-                    xind[outside] = -1
-                    zind[outside] = -1
+                if nsamples == 1:
+                    # Only one sample per cell
+                    parallel_slice.xt_primes[:, j, :, 0] = xind
+                    parallel_slice.zt_primes[:, j, :, 0] = zind
+                elif pol_slice is None:
+                    # No slice grid, so hit a boundary
+                    # Not calculating intersection R,Z so no need to follow
+                    parallel_slice.xt_primes[:, j, :, :] = -1
+                    parallel_slice.zt_primes[:, j, :, :] = -1
+                else:
+                    # Multiple samples.
+                    # Interpolate R and Z to get starting locations
+                    from scipy import interpolate
+
+                    R = pol.R
+                    Z = pol.Z
+                    nx, nz = pol.R.shape
+                    # Wrap around in Z by adding the arrays
+                    Rinterp = interpolate.RegularGridInterpolator(
+                        (np.arange(nx), np.arange(nz + 2) - 1),
+                        np.concatenate((R[:, -1:], R, R[:, 0:1]), axis=-1),
+                        bounds_error=False,
+                        fill_value=None,  # Extrapolates
+                    )
+                    Zinterp = interpolate.RegularGridInterpolator(
+                        (np.arange(nx), np.arange(nz + 2) - 1),
+                        np.concatenate((Z[:, -1:], Z, Z[:, 0:1]), axis=-1),
+                        bounds_error=False,
+                        fill_value=None,  # Extrapolates
+                    )
 
-                    parallel_slice.xt_primes[:, j, :, s] = xind
-                    parallel_slice.zt_primes[:, j, :, s] = zind
+                    # Indices of the cell centers
+                    xinds, zinds = np.meshgrid(np.arange(nx), np.arange(nz), indexing="ij")
+
+                    for s, xo, zo, w in zip(range(nsamples), xoffsets, zoffsets, weights):
+                        coord = field_tracer.follow_field_lines(
+                            Rinterp((xinds + xo, zinds)),
+                            Zinterp((xinds + zo, zinds)),
+                            [ycoord, y_slice],
+                            rtol=rtol,
+                        )[1, ...]
+                        xcoord = coord[:, :, 0]
+                        zcoord = coord[:, :, 1]
+                        xind, zind = pol_slice.findIndex(xcoord, zcoord)
+
+                        # Check boundary defined by the field
+                        # Note: A fraction of points may hit the boundary
+                        outside = magnetic_field.boundary.outside(xcoord, y_slice, zcoord)
+                        xind[outside] = -1
+                        zind[outside] = -1
+
+                        parallel_slice.xt_primes[:, j, :, s] = xind
+                        parallel_slice.zt_primes[:, j, :, s] = zind
 
             if (not quiet) and (ny > 1):
                 if tqdm:
-- 
2.43.0


From c0db3275c40966b077a60fb458600606343b2881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:57 +0000
Subject: [PATCH 03/35] fix: offset sub-cell samples in both x and z

Samples were spread only along x, using the z offset as a second x offset
for the Z coordinate.
---
 zoidberg/zoidberg.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/zoidberg/zoidberg.py b/zoidberg/zoidberg.py
index 5517095..00ced41 100644
--- a/zoidberg/zoidberg.py
+++ b/zoidberg/zoidberg.py
@@ -283,8 +283,8 @@ def make_maps(
 
                     for s, xo, zo, w in zip(range(nsamples), xoffsets, zoffsets, weights):
                         coord = field_tracer.follow_field_lines(
-                            Rinterp((xinds + xo, zinds)),
-                            Zinterp((xinds + zo, zinds)),
+                            Rinterp((xinds + xo, zinds + zo)),
+                            Zinterp((xinds + xo, zinds + zo)),
                             [ycoord, y_slice],
                             rtol=rtol,
                         )[1, ...]
-- 
2.43.0


From 698665bfa1f11fec994b09c99738210003d40583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:57 +0000
Subject: [PATCH 04/35] fix: sub-cell samples of rectangular grids at the z
 edges

The wrap-around interpolation placed samples of the first and last z cells
of a RectangularPoloidalGrid inside the domain's far side, since its
coordinates are not periodic in z.
---
 zoidberg/zoidberg.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/zoidberg/zoidberg.py b/zoidberg/zoidberg.py
index 00ced41..7333687 100644
--- a/zoidberg/zoidberg.py
+++ b/zoidberg/zoidberg.py
@@ -11,7 +11,7 @@ from . import fieldtracer
 from .diff import field_line_length
 from .field import Slab
 from .grid import Grid
-from .poloidal_grid import StructuredPoloidalGrid
+from .poloidal_grid import RectangularPoloidalGrid, StructuredPoloidalGrid
 
 try:
     from tqdm.auto import tqdm
@@ -282,9 +282,15 @@ def make_maps(
                     xinds, zinds = np.meshgrid(np.arange(nx), np.arange(nz), indexing="ij")
 
                     for s, xo, zo, w in zip(range(nsamples), xoffsets, zoffsets, weights):
+                        if isinstance(pol, RectangularPoloidalGrid):
+                            # R, Z do not wrap around in Z
+                            Rstart, Zstart = pol.getCoordinate(xinds + xo, zinds + zo)
+                        else:
+                            Rstart = Rinterp((xinds + xo, zinds + zo))
+                            Zstart = Zinterp((xinds + xo, zinds + zo))
                         coord = field_tracer.follow_field_lines(
-                            Rinterp((xinds + xo, zinds + zo)),
-                            Zinterp((xinds + xo, zinds + zo)),
+                            Rstart,
+                            Zstart,
                             [ycoord, y_slice],
                             rtol=rtol,
                         )[1, ...]
-- 
2.43.0


From f4c6823e64cf0669c13e542f38e544c3cf529c91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:39 +0000
Subject: [PATCH 05/35] fix: interpolate negative mapped z around the right
 point

int() truncates towards zero, so a mapped z between -1 and 0 (just across
the periodic z boundary) was extrapolated from the wrong base point.
---
 zoidberg/weights.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zoidberg/weights.py b/zoidberg/weights.py
index 031a773..b5b451b 100644
--- a/zoidberg/weights.py
+++ b/zoidberg/weights.py
@@ -449,7 +449,7 @@ def accumulate_interior_stencil(
             continue
 
         x_base = int(mapped_x)
-        z_base = int(mapped_z)
+        z_base = int(np.floor(mapped_z))
 
         weights_x = catmull_rom_weights(mapped_x - x_base)
         weights_z = catmull_rom_weights(mapped_z - z_base)
-- 
2.43.0


From c9df8574b5f4af7f056fc12c35eb870bb174a93b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:49 +0000
Subject: [PATCH 06/35] fix: count a polygon vertex crossing only once

A point vertically below a vertex crossed both adjacent segments, so it
was reported outside although enclosed (or the other way round).
Segments which are steep but not vertical were skipped altogether.
---
 zoidberg/boundary.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/zoidberg/boundary.py b/zoidberg/boundary.py
index 406e5e0..ec749d5 100644
--- a/zoidberg/boundary.py
+++ b/zoidberg/boundary.py
@@ -123,16 +123,18 @@ class PolygonBoundaryXZ(object):
             zp_1 = self.zarr[ip]
 
             # First calculate b = (x_0 - x'_0) / (x'_1 - x'_0)
-            # but check for case where (x'_1 - x'_0) is small
-            if abs(xp_1 - xp_0) < 1e-6:
+            # but check for vertical segments, which are never crossed
+            if xp_1 == xp_0:
                 continue  # Skip this segment
 
             b = (x_0 - xp_0) / (xp_1 - xp_0)
 
             a = (zp_0 - z_0 + b * (zp_1 - zp_0)) / (z_1 - z_0)
 
+            # Include only one end of each segment, so that a vertex
+            # shared by two segments is not counted twice
             intersect = np.logical_and(
-                np.logical_and(b >= 0.0, b <= 1.0), np.logical_and(a >= 0.0, a <= 1.0)
+                (xp_0 <= x_0) != (xp_1 <= x_0), np.logical_and(a >= 0.0, a <= 1.0)
             )
 
             # intersect is now true for those points which intersect this line segment
-- 
2.43.0


From ab8fe5cee3a8b1e45bc4f26d47b60a8b0faa2440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:49 +0000
Subject: [PATCH 07/35] fix: higher derivatives of rectangular grids are zero

Second and mixed derivatives returned the first derivative or the
coordinates themselves.
---
 zoidberg/poloidal_grid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zoidberg/poloidal_grid.py b/zoidberg/poloidal_grid.py
index 7a9fb19..95439c8 100644
--- a/zoidberg/poloidal_grid.py
+++ b/zoidberg/poloidal_grid.py
@@ -185,7 +185,7 @@ class RectangularPoloidalGrid(PoloidalGrid):
 
         shape = xind.shape
 
-        if dx + dz > 2:
+        if dx + dz > 1:
             # Second derivatives and mixed derivatives all zero
             return np.zeros(shape), np.zeros(shape)
 
-- 
2.43.0


From 13f107aa75a94a304f131afecd395d3b9c3c01ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:49 +0000
Subject: [PATCH 08/35] fix: get_metric no longer modifies the metric cached by
 the grid

Each call multiplied the cached g_yy by (B/By)**2 again and left the
field's gyy, B and pressure in what grid.metric() returns.
---
 zoidberg/zoidberg.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/zoidberg/zoidberg.py b/zoidberg/zoidberg.py
index 7333687..4471c36 100644
--- a/zoidberg/zoidberg.py
+++ b/zoidberg/zoidberg.py
@@ -437,8 +437,8 @@ def update_metric_names(metric):
 
 def get_metric(grid, magnetic_field):
     nx, ny, nz = grid.shape
-    # Get metric tensor
-    metric = grid.metric()
+    # Get metric tensor. The grid caches it, so modify only a copy
+    metric = {key: value.copy() for key, value in grid.metric().items()}
 
     # Check if the magnetic field is in cylindrical coordinates
     # If so, we need to change the gyy and g_yy metrics
-- 
2.43.0


From 83002f1f45f84e2cd8f5b319da3b1f6b132764b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:49 +0000
Subject: [PATCH 09/35] fix: FieldTracerReversible modified the start positions
 of the caller

Starting positions given as integers failed, for the same reason.
---
 zoidberg/fieldtracer.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/zoidberg/fieldtracer.py b/zoidberg/fieldtracer.py
index c59d134..51c78b0 100644
--- a/zoidberg/fieldtracer.py
+++ b/zoidberg/fieldtracer.py
@@ -241,9 +241,10 @@ class FieldTracerReversible(object):
 
         result = np.zeros((len(y_values),) + array_shape + (2,))
 
-        # Starting position
-        x_pos = x_values
-        z_pos = z_values
+        # Starting position. These are updated in place, so copy
+        # to leave the arrays of the caller untouched
+        x_pos = np.array(x_values, dtype=float)
+        z_pos = np.array(z_values, dtype=float)
         y_pos = y_values[0]
 
         result[0, ..., 0] = x_pos
-- 
2.43.0


From 1203cdc231aa39559e9befa711751e0088fc000f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:49 +0000
Subject: [PATCH 10/35] fix: trace_poincare sorted the y_slices array of the
 caller in place

---
 zoidberg/fieldtracer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zoidberg/fieldtracer.py b/zoidberg/fieldtracer.py
index 51c78b0..1f4b4de 100644
--- a/zoidberg/fieldtracer.py
+++ b/zoidberg/fieldtracer.py
@@ -369,7 +369,7 @@ def trace_poincare(
                 )
             )
         # Make sure y_slices is monotonically increasing
-        y_slices.sort()
+        y_slices = np.sort(y_slices)
         # If y_slices is given, then nplot is the number of slices
         nplot = len(y_slices)
     else:
-- 
2.43.0


From eba5cfadbef16c34bb5e58a307687096a5699ce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:49 +0000
Subject: [PATCH 11/35] fix: pass the requested rtol on to fusionsc

---
 zoidberg/fieldtracer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zoidberg/fieldtracer.py b/zoidberg/fieldtracer.py
index 1f4b4de..d396b53 100644
--- a/zoidberg/fieldtracer.py
+++ b/zoidberg/fieldtracer.py
@@ -960,7 +960,7 @@ class FusionSCTracer(FieldTracer):
         Z = z_values
         direction = "ccw" if y_values[0] < y_values[1] else "cw"
         pnts = fsc.flt.poincareInPhiPlanes(
-            [X, Y, Z], self.field, y_values[1:], 1, direction=direction, **self.kwargs
+            [X, Y, Z], self.field, y_values[1:], 1, direction=direction, **kwargs
         )
         assert pnts.shape[-1] == 1
         pnts = pnts[..., 0]
-- 
2.43.0


From 41d8f5a5edea236be6e4a6338fd3358d7900e7c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:50 +0000
Subject: [PATCH 12/35] fix: do not transpose the flux read from g-eqdsk files

freeqdsk returns psi indexed by [R, Z], so transposing it swapped R and
Z (and failed if the mesh was not square).
---
 zoidberg/field.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zoidberg/field.py b/zoidberg/field.py
index af68411..42186f6 100644
--- a/zoidberg/field.py
+++ b/zoidberg/field.py
@@ -1237,7 +1237,7 @@ class GEQDSK(MagneticField):
         print("Height: {0} -> {1} m".format(self.zmin, self.zmax))
 
         # Poloidal flux
-        self.psi = np.transpose(data["psi"])
+        self.psi = data["psi"]  # Indexed by [R, Z]
         nr, nz = self.psi.shape
 
         # Normalising factors: psi on axis and boundary
-- 
2.43.0


From e663d451875b9f33fbc05ae39cfd4f5090039721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:50 +0000
Subject: [PATCH 13/35] fix: keep the psi attribute of a GEQDSK field to itself

It was put in the dictionary shared by all magnetic fields, so every
other field reported (and wrote) the flux of the last equilibrium.
---
 zoidberg/field.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/zoidberg/field.py b/zoidberg/field.py
index 42186f6..e35ef00 100644
--- a/zoidberg/field.py
+++ b/zoidberg/field.py
@@ -1259,6 +1259,8 @@ class GEQDSK(MagneticField):
         self.psi_func = interpolate.RectBivariateSpline(self.r, self.z, self.psi)
 
         # Add to the attributes so that it can be written to file
+        # Note: the class attribute is shared between all fields
+        self.attributes = dict(self.attributes)
         self.attributes["psi"] = lambda x, z, phi: self.psi_func(x, z, grid=False)
 
         # Create a normalised psi array
-- 
2.43.0


From 24675d3743518a2f67271987d67f7b9992177bb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:50 +0000
Subject: [PATCH 14/35] fix: read g-eqdsk files without boundary or limiter

freeqdsk returns None in this case.
---
 zoidberg/field.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/zoidberg/field.py b/zoidberg/field.py
index e35ef00..a2064e5 100644
--- a/zoidberg/field.py
+++ b/zoidberg/field.py
@@ -1273,12 +1273,13 @@ class GEQDSK(MagneticField):
 
         rb = data["rbdry"]
         zb = data["zbdry"]
-        core_bndry = boundary.PolygonBoundaryXZ(rb, zb)
+        if rb is not None and len(rb) > 0:
+            core_bndry = boundary.PolygonBoundaryXZ(rb, zb)
 
-        # Get the points outside the boundary
-        rxz, zxz = np.meshgrid(self.r, self.z, indexing="ij")
-        outside = core_bndry.outside(rxz, 0.0, zxz)
-        self.psinorm[outside] = 1.0
+            # Get the points outside the boundary
+            rxz, zxz = np.meshgrid(self.r, self.z, indexing="ij")
+            outside = core_bndry.outside(rxz, 0.0, zxz)
+            self.psinorm[outside] = 1.0
 
         self.psinorm_func = interpolate.RectBivariateSpline(
             self.r, self.z, self.psinorm
@@ -1295,7 +1296,7 @@ class GEQDSK(MagneticField):
         # Set boundary
         rlim = data["rlim"]
         zlim = data["zlim"]
-        if len(rlim) > 0:
+        if rlim is not None and len(rlim) > 0:
             # Create a boundary in X-Z with a polygon representation
             self.boundary = boundary.PolygonBoundaryXZ(rlim, zlim)
 
-- 
2.43.0


From 7bb18abc22088b0bc1d224e62f253bb67d101e9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:50 +0000
Subject: [PATCH 15/35] fix: polygon position between the right points, at the
 right fraction

The fraction was the angle past the last point rather than the fraction
of the angle between the points, and negative angles were truncated
towards zero so that they used the wrong segment.
---
 zoidberg/rzline.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/zoidberg/rzline.py b/zoidberg/rzline.py
index ba88c65..2f45c2d 100644
--- a/zoidberg/rzline.py
+++ b/zoidberg/rzline.py
@@ -175,8 +175,11 @@ class RZline:
             return self.R, self.Z
         n = len(self.R)
         dtheta = 2.0 * np.pi / n
-        ind = np.trunc(theta / dtheta).astype(int) % n
-        rem = np.remainder(theta, dtheta)
+        # Position in index space, and fraction between two points
+        pos = np.asarray(theta) / dtheta
+        ind = np.floor(pos)
+        rem = pos - ind
+        ind = ind.astype(int) % n
         indp = (ind + 1) % n
         return (rem * self.R[indp] + (1.0 - rem) * self.R[ind]), (
             rem * self.Z[indp] + (1.0 - rem) * self.Z[ind]
-- 
2.43.0


From febefe18a8ebbfe507b93c92e1ad1b0e242ccef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:50 +0000
Subject: [PATCH 16/35] fix: insert points at the right place in
 line_from_points_poly

The place was found on an anticlockwise line, but the point was inserted
in the arrays which may be clockwise.
---
 zoidberg/rzline.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/zoidberg/rzline.py b/zoidberg/rzline.py
index 2f45c2d..d7ec2b7 100644
--- a/zoidberg/rzline.py
+++ b/zoidberg/rzline.py
@@ -437,6 +437,9 @@ def line_from_points_poly(rarray, zarray, show=False, spline_order=None):
 
     for i in range(3, npoints):
         line = RZline(rvals[:i], zvals[:i], spline_order=spline_order)
+        # The line might be in the opposite order
+        rvals[:i] = line.R.copy()
+        zvals[:i] = line.Z.copy()
 
         angle = np.linspace(0, 2 * pi, 100)
         r, z = line.position(angle)
-- 
2.43.0


From d22a9edc3c403d255e6992b9bbb92f1bb27310ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:50 +0000
Subject: [PATCH 17/35] fix: finite differences of integer arrays

c4 truncated the result to integers and c2 failed.
---
 zoidberg/diff.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/zoidberg/diff.py b/zoidberg/diff.py
index 9d3bd02..564ae14 100644
--- a/zoidberg/diff.py
+++ b/zoidberg/diff.py
@@ -6,7 +6,7 @@ def c2(f, axis, periodic=False):
         return (np.roll(f, -1, axis=axis) - np.roll(f, 1, axis)) / 2
     sl1 = [slice(None) for _ in f.shape]
     sl2 = [slice(None) for _ in f.shape]
-    out = np.empty_like(f)
+    out = np.empty(f.shape, dtype=np.result_type(f, float))
 
     t = tuple
 
@@ -53,7 +53,7 @@ def c4(f, axis, periodic=False):
 
     t = tuple
 
-    out = np.empty_like(f)
+    out = np.empty(f.shape, dtype=np.result_type(f, float))
     slc = [slice(None) for _ in f.shape]
 
     slc[axis] = slice(2, -2)
-- 
2.43.0


From 860c8df3e785e4abcdcd554d494c112661ae67ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:50 +0000
Subject: [PATCH 18/35] fix: smooth corners at the ends of the arrays like any
 other

The range around a corner was cut at the end of the arrays, and the
point after the range was looked up beyond the end of the arrays.
---
 zoidberg/smooth.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/zoidberg/smooth.py b/zoidberg/smooth.py
index 4ee0dc1..f5c93fb 100644
--- a/zoidberg/smooth.py
+++ b/zoidberg/smooth.py
@@ -28,7 +28,7 @@ def generate_points_tosmooth(bounds, outliers, length):
         return []
     todel = set()
     for dup in outliers:
-        todel.update([x for x in range(dup - bounds, dup + bounds + 1) if x < length])
+        todel.update([x % length for x in range(dup - bounds, dup + bounds + 1)])
     ###
     todel = sorted(list(todel))
     splitedlist = []
@@ -40,6 +40,13 @@ def generate_points_tosmooth(bounds, outliers, length):
             first = index + 1
         last = value
     splitedlist.append(todel[first:])
+    if (
+        len(splitedlist) > 1
+        and splitedlist[0][0] == 0
+        and splitedlist[-1][-1] == length - 1
+    ):
+        # The curve is closed, so these belong together
+        splitedlist[0] = [x - length for x in splitedlist.pop()] + splitedlist[0]
     return splitedlist
 
 
@@ -240,9 +247,7 @@ def gen_newr(r, z, splitedlist, bounds, plot):
         dstart = (X[0] - newr[start_index - 1]) ** 2 + (
             Y[0] - newz[start_index - 1]
         ) ** 2
-        dend = (X[-1] - newr[start_index + len(alist)]) ** 2 + (
-            Y[-1] - newz[start_index + len(alist)]
-        ) ** 2
+        dend = (X[-1] - newr[seconds]) ** 2 + (Y[-1] - newz[seconds]) ** 2
         maxfac = 3
         if not (maxfac**-2 < dstart / dend < maxfac**2):
             print(f"dstart / dend is {dstart / dend} - check has failed")
-- 
2.43.0


From c2444557935543206e0eaed88a4901ac2b6367cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:50 +0000
Subject: [PATCH 19/35] fix: do not use an undefined plt in smooth

---
 zoidberg/smooth.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/zoidberg/smooth.py b/zoidberg/smooth.py
index f5c93fb..dd302eb 100644
--- a/zoidberg/smooth.py
+++ b/zoidberg/smooth.py
@@ -261,6 +261,7 @@ def gen_newr(r, z, splitedlist, bounds, plot):
             newr[start_index : start_index + len(alist)] = X
             newz[start_index : start_index + len(alist)] = Y
         if plot:
+            import matplotlib.pyplot as plt
             from matplotlib.collections import LineCollection
 
             S = np.linspace(0, 1, 1000)
@@ -338,9 +339,10 @@ def smooth(r, z, cutoff=0.75, bounds=10, bounds_find=None, plot=False):
         bounds += 1
         debs += [deb[-1]]
         if bounds > bounds0 * 5:
-            plt.legend()
-            plt.gca().set_aspect("equal")
-            plt.title("failed")
+            if plot:
+                plt.legend()
+                plt.gca().set_aspect("equal")
+                plt.title("failed")
             alldeb.append(debs)
             return
 
-- 
2.43.0


From 0391b5de6f142697af33df885f63010a68f41c23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:42 +0000
Subject: [PATCH 20/35] fix: cache field line traces per request

Different start positions could give the same cache name, as there was
nothing between the arguments (x=[1.0], z=[23.0] and x=[1.02], z=[3.0]),
and the keyword arguments, e.g. rtol, were ignored.
---
 zoidberg/fieldtracer.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/zoidberg/fieldtracer.py b/zoidberg/fieldtracer.py
index d396b53..09a8050 100644
--- a/zoidberg/fieldtracer.py
+++ b/zoidberg/fieldtracer.py
@@ -425,7 +425,12 @@ class CachingFieldTracer:
 
         m = hashlib.md5()
         for arg in args:
-            s = "-".join([str(x) for x in np.array([arg]).ravel()]).encode()
+            # Start with the shape, to avoid that different requests which
+            # only differ in how the numbers are grouped give the same digest
+            arg = np.asarray(arg)
+            if np.issubdtype(arg.dtype, np.number):
+                arg = arg.astype(float)
+            s = "-".join([str(arg.shape)] + [str(x) for x in arg.ravel()]).encode()
             if self.debug:
                 print(s)
             m.update(s)
@@ -435,7 +440,9 @@ class CachingFieldTracer:
         return len(y_values), *x_values.shape, 2
 
     def follow_field_lines(self, x_values, z_values, y_values, **kwargs):
-        fn = self.cachename % self._myhash(x_values, z_values, y_values)
+        fn = self.cachename % self._myhash(
+            x_values, z_values, y_values, *sorted(kwargs.items())
+        )
         try:
             dat = np.loadtxt(fn)
             dat.shape = self._guess_shape(x_values, y_values)
-- 
2.43.0


From 1f232755f593e96d9f1ae2c55270357a77a36584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:42 +0000
Subject: [PATCH 21/35] fix: CachingFieldTracer with scalars and lists

The tracers accept scalars and lists, but the shape was taken from the
x values, and only checked after an unusable cache file was written.
---
 zoidberg/fieldtracer.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/zoidberg/fieldtracer.py b/zoidberg/fieldtracer.py
index 09a8050..4d2a4af 100644
--- a/zoidberg/fieldtracer.py
+++ b/zoidberg/fieldtracer.py
@@ -436,8 +436,10 @@ class CachingFieldTracer:
             m.update(s)
         return m.hexdigest()
 
-    def _guess_shape(self, x_values, y_values):
-        return len(y_values), *x_values.shape, 2
+    def _guess_shape(self, x_values, z_values, y_values):
+        # A scalar is broadcast to the shape of the other array
+        shape = np.broadcast(np.atleast_1d(x_values), np.atleast_1d(z_values)).shape
+        return len(y_values), *shape, 2
 
     def follow_field_lines(self, x_values, z_values, y_values, **kwargs):
         fn = self.cachename % self._myhash(
@@ -445,7 +447,7 @@ class CachingFieldTracer:
         )
         try:
             dat = np.loadtxt(fn)
-            dat.shape = self._guess_shape(x_values, y_values)
+            dat.shape = self._guess_shape(x_values, z_values, y_values)
             return dat
         except FileNotFoundError:
             if self.debug:
@@ -453,12 +455,11 @@ class CachingFieldTracer:
         ret = self.tracer.follow_field_lines(x_values, z_values, y_values, **kwargs)
         shape = ret.shape
         if self.debug:
-            print(f"saving {ret.shape}, {x_values.shape}")
+            print(f"saving {ret.shape}")
+        estimate = self._guess_shape(x_values, z_values, y_values)
+        assert shape == estimate, f"Estimated {estimate} but got {shape}"
         ret.shape = -1, shape[-1]
         np.savetxt(fn, ret)
-        assert shape == self._guess_shape(x_values, y_values), (
-            f"Estimated {self._guess_shape(x_values, y_values)} but got {shape}"
-        )
         ret.shape = shape
         return ret
 
-- 
2.43.0


From 737fd5569832a5742ecbb4a12e115c929eca27f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:42 +0000
Subject: [PATCH 22/35] fix: never leave an incomplete file in the field line
 cache

If writing was interrupted, the incomplete file made all later requests
fail.
---
 zoidberg/fieldtracer.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/zoidberg/fieldtracer.py b/zoidberg/fieldtracer.py
index 4d2a4af..1909c0f 100644
--- a/zoidberg/fieldtracer.py
+++ b/zoidberg/fieldtracer.py
@@ -1,4 +1,5 @@
 import itertools
+import os
 from multiprocessing import Pool
 
 import numpy as np
@@ -459,7 +460,11 @@ class CachingFieldTracer:
         estimate = self._guess_shape(x_values, z_values, y_values)
         assert shape == estimate, f"Estimated {estimate} but got {shape}"
         ret.shape = -1, shape[-1]
-        np.savetxt(fn, ret)
+        # Only a complete file gets the final name
+        root, ext = os.path.splitext(fn)
+        tmp = f"{root}.{os.getpid()}{ext}"
+        np.savetxt(tmp, ret)
+        os.replace(tmp, fn)
         ret.shape = shape
         return ret
 
-- 
2.43.0


From c99ae54e56679ceee4956897d43dab0e57587adb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:14:55 +0000
Subject: [PATCH 23/35] fix: find indices of points near the radial edges

Points whose nearest grid point is on the first or last row, and points
for which a Newton step overshot, were reported to be in the boundary
although they are inside the grid. Now only points which leave the grid
starting from its edge are.
---
 zoidberg/poloidal_grid.py | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/zoidberg/poloidal_grid.py b/zoidberg/poloidal_grid.py
index 95439c8..5c9db96 100644
--- a/zoidberg/poloidal_grid.py
+++ b/zoidberg/poloidal_grid.py
@@ -393,9 +393,6 @@ switch inner and outer boundary.
 
         # Create a mask for the positions
         mask = np.ones(xind.shape)
-        mask[np.logical_or((xind < 0.5), (xind > (nx - 1.5)))] = (
-            0.0  # Set to zero if near the boundary
-        )
 
         if show and plotting_available:
             plt.plot(self.R, self.Z, ".")
@@ -450,16 +447,16 @@ switch inner and outer boundary.
             # (y)     (-dZ/dx   dR/dx ) (dZ) / (dR/dx*dZ/dy - dR/dy*dZ/dx)
             determinant = dRdx * dZdz - dRdz * dZdx
 
+            on_inner = xind <= 0.0
+            on_outer = xind >= nx - 1
             xind -= mask * ((dZdz * dR - dRdz * dZ) / determinant / underrelax)
             zind -= mask * ((dRdx * dZ - dZdx * dR) / determinant / underrelax)
 
-            # Re-check for boundary
-            in_boundary = xind < 0.5
-            mask[in_boundary] = 0.0  # Set to zero if near the boundary
-            xind[in_boundary] = 0.0
-            out_boundary = xind > (nx - 1.5)
-            mask[out_boundary] = 0.0  # Set to zero if near the boundary
-            xind[out_boundary] = nx - 1
+            # Stay on the grid. A single step might overshoot, so only those
+            # points which leave starting from the edge are in the boundary
+            mask[np.logical_and(on_inner, xind < 0.0)] = 0.0
+            mask[np.logical_and(on_outer, xind > nx - 1)] = 0.0
+            xind = np.clip(xind, 0.0, nx - 1)
 
         if show and plotting_available:
             plt.show()
-- 
2.43.0


From 09367a7c4d899e04be4ce765c2b57ba87d482e55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:39:10 +0000
Subject: [PATCH 24/35] fix: Poincare slices at both ends of the period

The oversampled y positions between the slice at yperiod and the one at
0 of the next revolution are all the same, but due to rounding were not
monotonic and the tracing failed.
---
 zoidberg/fieldtracer.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/zoidberg/fieldtracer.py b/zoidberg/fieldtracer.py
index 1909c0f..20314e5 100644
--- a/zoidberg/fieldtracer.py
+++ b/zoidberg/fieldtracer.py
@@ -389,9 +389,10 @@ def trace_poincare(
     y_values_over = np.zeros((nplot * revs * nover - (nover - 1)))
     y_values_over[::nover] = y_values
     for i in range(1, nover):
-        y_values_over[i::nover] = (float(i) / float(nover)) * y_values[1:] + (
-            float(nover - i) / float(nover)
-        ) * y_values[:-1]
+        # Rounding must not break the order if neighbouring values are equal
+        y_values_over[i::nover] = y_values[:-1] + (float(i) / float(nover)) * (
+            y_values[1:] - y_values[:-1]
+        )
 
     # Starting location
     xpos = np.asarray(xpos)
-- 
2.43.0


From 7437cfd46d5af6583f18eb16fcbcbc2764ce2252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:13 +0000
Subject: [PATCH 25/35] fix: refuse incomplete answers of the field line
 service

If fewer lines than asked for were returned, the missing ones were
filled with uninitialised memory.
---
 zoidberg/fieldtracer.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/zoidberg/fieldtracer.py b/zoidberg/fieldtracer.py
index 20314e5..e825bf5 100644
--- a/zoidberg/fieldtracer.py
+++ b/zoidberg/fieldtracer.py
@@ -719,6 +719,10 @@ class FieldTracerWeb:
                 continue
             task.linesPhi.phi = phi - phi0
             res = self.flt.service.trace(p, config, task)
+            if len(res.lines) != len(x_values):
+                raise RuntimeError(
+                    f"Asked for {len(x_values)} field lines but got {len(res.lines)}"
+                )
             for j, curve in enumerate(res.lines):
                 ps = curve.vertices
                 result[i, j, 0] = np.sqrt(ps.x2[-1] ** 2 + ps.x1[-1] ** 2)
-- 
2.43.0


From a99862f2744bc4ac3bd4c3b23c1a40bbaf34d76a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:36:13 +0000
Subject: [PATCH 26/35] fix: volumes of the outermost cells are not
 uninitialised memory

---
 zoidberg/stencil_dagp_fv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zoidberg/stencil_dagp_fv.py b/zoidberg/stencil_dagp_fv.py
index 908eef2..e015ad8 100755
--- a/zoidberg/stencil_dagp_fv.py
+++ b/zoidberg/stencil_dagp_fv.py
@@ -88,7 +88,7 @@ def doit(pols, plot=False, isSlab=False):
     #
     ### Go in a line around the cell
 
-    Ar = np.empty((pols[0].nx, len(pols), pols[0].nz))
+    Ar = np.zeros((pols[0].nx, len(pols), pols[0].nz))
     todo = enumerate(pols)
     if tqdm and len(pols) > 1:
         todo = tqdm(todo, total=len(pols))
-- 
2.43.0


From bb7c3c2eeb9262190f76a8bbed060fe32c17d9bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:36:13 +0000
Subject: [PATCH 27/35] fix: closest angle on a line is below 2pi

---
 zoidberg/rzline.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/zoidberg/rzline.py b/zoidberg/rzline.py
index d7ec2b7..a38c121 100644
--- a/zoidberg/rzline.py
+++ b/zoidberg/rzline.py
@@ -304,7 +304,8 @@ class RZline:
             theta0 = thetas[ind]
             dtheta = thetas[1] - thetas[0]
 
-        return np.remainder(theta0, 2 * np.pi)
+        # Remainder of a tiny negative number rounds to 2pi, so take it twice
+        return np.remainder(np.remainder(theta0, 2 * np.pi), 2 * np.pi)
 
     def plot(self, axis=None, show=True):
         """Plot the RZline, either on the given axis or a new figure
-- 
2.43.0


From e78692131995afcb4cd269e8f0ed2e20fef7043b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:13:45 +0000
Subject: [PATCH 28/35] fix: elliptic grids with few radial but many poloidal
 points

The coarse grid has too few radial points for a cubic spline
---
 zoidberg/poloidal_grid.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/zoidberg/poloidal_grid.py b/zoidberg/poloidal_grid.py
index 5c9db96..17c4f3f 100644
--- a/zoidberg/poloidal_grid.py
+++ b/zoidberg/poloidal_grid.py
@@ -869,10 +869,12 @@ def grid_elliptic(
         R_r = np.concatenate((R_r, np.reshape(R_r[:, 0], (nx_r, 1))), axis=1)
         Z_r = np.concatenate((Z_r, np.reshape(Z_r[:, 0], (nx_r, 1))), axis=1)
 
-        # Now interpolate
-        spl = RectBivariateSpline(x_r, z_r, R_r)
+        # Now interpolate, with the degree limited by the number of points
+        kx = min(3, nx_r - 1)
+        kz = min(3, nz_r)
+        spl = RectBivariateSpline(x_r, z_r, R_r, kx=kx, ky=kz)
         R = spl(xvals, thetavals, grid=True)
-        spl = RectBivariateSpline(x_r, z_r, Z_r)
+        spl = RectBivariateSpline(x_r, z_r, Z_r, kx=kx, ky=kz)
         Z = spl(xvals, thetavals, grid=True)
 
         # Make sure that the inner and outer boundaries are on the
-- 
2.43.0


From fccdb19471314721882ff21d5bee403ff30a2c60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:13:45 +0000
Subject: [PATCH 29/35] fix: smoothed inner angles are not shifted by a point

dx[i] is the step from point i - 1 to point i
---
 zoidberg/poloidal_grid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zoidberg/poloidal_grid.py b/zoidberg/poloidal_grid.py
index 17c4f3f..42ae54c 100644
--- a/zoidberg/poloidal_grid.py
+++ b/zoidberg/poloidal_grid.py
@@ -826,7 +826,7 @@ def grid_elliptic(
         xnew = np.empty_like(x)
         xnew[0] = x[0]
         for i in range(len(x) - 1):
-            xnew[i + 1] = xnew[i] + dxn[i]
+            xnew[i + 1] = xnew[i] + dxn[i + 1]
         return xnew % (np.pi * 2)
 
     if (nx > restrict_size) or (nz > restrict_size):
-- 
2.43.0


From 1e0186426070a5d9ae74748c287e72d8bbeabccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:53 +0000
Subject: [PATCH 30/35] fix: average VMEC fields from the half to the full mesh

---
 zoidberg/field.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/zoidberg/field.py b/zoidberg/field.py
index a2064e5..a5b274c 100644
--- a/zoidberg/field.py
+++ b/zoidberg/field.py
@@ -925,9 +925,10 @@ class VMEC(MagneticField):
 
     def __rolling_average(self, field):
         result = np.zeros_like(field)
-        result[:, 0] = field[:, 1] - 0.5 * field[:, 2]
-        result[:, 2:-2] = 0.5 * (field[:, 2:-2] + field[:, 3:-1])
-        result[:, -1] = 2 * field[:, -2] - field[:, -3]
+        # field is on the half mesh: field[:, k] is between surfaces k - 1 and k
+        result[:, 0] = 1.5 * field[:, 1] - 0.5 * field[:, 2]
+        result[:, 1:-1] = 0.5 * (field[:, 1:-1] + field[:, 2:])
+        result[:, -1] = 1.5 * field[:, -1] - 0.5 * field[:, -2]
         return result
 
     def cfunct(self, field):
-- 
2.43.0


From 81d1fbe2c73760eeebe5a31b30c11424cf11b509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:53 +0000
Subject: [PATCH 31/35] fix: sign of the toroidal mode number of VMEC files

---
 zoidberg/field.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/zoidberg/field.py b/zoidberg/field.py
index a5b274c..0dd9717 100644
--- a/zoidberg/field.py
+++ b/zoidberg/field.py
@@ -986,7 +986,8 @@ class VMEC(MagneticField):
         # Read necessary stuff
         with DataFile(vmec_file, write=False) as f:
             self.xm = f["xm"].T
-            self.xn = f["xn"].T
+            # VMEC uses cos(m u - n v), the transforms cos(m u + n v)
+            self.xn = -f["xn"].T
             ns = int(f["ns"])
             xm_big = np.repeat(self.xm[:, np.newaxis], ns, axis=1)
             xn_big = np.repeat(self.xn[:, np.newaxis], ns, axis=1)
-- 
2.43.0


From e6fe7008619d14a8f396f08306ca18d85aec14a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:53 +0000
Subject: [PATCH 32/35] fix: default z range of the W7-X fields

---
 zoidberg/field.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/zoidberg/field.py b/zoidberg/field.py
index 0dd9717..19b5c66 100644
--- a/zoidberg/field.py
+++ b/zoidberg/field.py
@@ -1341,7 +1341,7 @@ class W7X_vacuum(MagneticField):
         ny=32,
         nz=128,
         x_range=(4.05, 6.55),
-        z_range=(-1.35, 1, 35),
+        z_range=(-1.35, 1.35),
         phimax=2.0 * np.pi,
         configuration=0,
         plot_poincare=False,
@@ -1824,7 +1824,7 @@ class W7X_VMEC(MagneticField):
         ny=32,
         nz=512,
         x_range=[4.05, 6.55],
-        z_range=[-1.35, 1, 35],
+        z_range=[-1.35, 1.35],
         phi_range=[0, 2 * np.pi],
         vmec_id="w7x_ref_171",
     ):
-- 
2.43.0


From 72038e406c359a8d6dd6c42cc0895f207add3bcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:53 +0000
Subject: [PATCH 33/35] fix: W7X_VMEC.field_values used sizes which do not
 exist

---
 zoidberg/field.py | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/zoidberg/field.py b/zoidberg/field.py
index 19b5c66..b36776f 100644
--- a/zoidberg/field.py
+++ b/zoidberg/field.py
@@ -1867,20 +1867,16 @@ class W7X_VMEC(MagneticField):
         pos = vmec.types.Points3D()
 
         # x in Cartesian (real-space)
-        pos.x1 = np.ndarray.flatten(
-            np.ones((self.nx, self.ny, self.nz)) * r * np.cos(phi)
-        )
+        pos.x1 = np.ndarray.flatten(r * np.cos(phi))
         # y in Cartesian (real-space)
-        pos.x2 = np.ndarray.flatten(
-            np.ones((self.nx, self.ny, self.nz)) * r * np.sin(phi)
-        )
+        pos.x2 = np.ndarray.flatten(r * np.sin(phi))
         pos.x3 = np.ndarray.flatten(z)  # z in Cartesian (real-space)
         b = vmec.service.magneticField(str(vmec_id), pos)
 
         ## Reshape to 3d array
-        Bx = np.ndarray.reshape(np.asarray(b.field.x1), (self.nx, self.ny, self.nz))
-        By = np.ndarray.reshape(np.asarray(b.field.x2), (self.nx, self.ny, self.nz))
-        Bz = np.ndarray.reshape(np.asarray(b.field.x3), (self.nx, self.ny, self.nz))
+        Bx = np.ndarray.reshape(np.asarray(b.field.x1), r.shape)
+        By = np.ndarray.reshape(np.asarray(b.field.x2), r.shape)
+        Bz = np.ndarray.reshape(np.asarray(b.field.x3), r.shape)
 
         ## Convert to cylindrical coordinates
         Br = Bx * np.cos(phi) + By * np.sin(phi)
-- 
2.43.0


From 2a3fcdbed42499026c0533a48c9f9dc47b0d5c8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:51:17 +0000
Subject: [PATCH 34/35] fix: findIndex gave -1/nx for points inside coarse,
 strongly shaped grids

---
 zoidberg/poloidal_grid.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/zoidberg/poloidal_grid.py b/zoidberg/poloidal_grid.py
index 42ae54c..88f10fd 100644
--- a/zoidberg/poloidal_grid.py
+++ b/zoidberg/poloidal_grid.py
@@ -393,6 +393,7 @@ switch inner and outer boundary.
 
         # Create a mask for the positions
         mask = np.ones(xind.shape)
+        left_before = np.zeros(xind.shape, dtype=bool)
 
         if show and plotting_available:
             plt.plot(self.R, self.Z, ".")
@@ -453,9 +454,13 @@ switch inner and outer boundary.
             zind -= mask * ((dRdx * dZ - dZdx * dR) / determinant / underrelax)
 
             # Stay on the grid. A single step might overshoot, so only those
-            # points which leave starting from the edge are in the boundary
-            mask[np.logical_and(on_inner, xind < 0.0)] = 0.0
-            mask[np.logical_and(on_outer, xind > nx - 1)] = 0.0
+            # points which leave twice starting from the edge are in the boundary
+            leaving = np.logical_or(
+                np.logical_and(on_inner, xind < 0.0),
+                np.logical_and(on_outer, xind > nx - 1),
+            )
+            mask[np.logical_and(leaving, left_before)] = 0.0
+            left_before = leaving
             xind = np.clip(xind, 0.0, nx - 1)
 
         if show and plotting_available:
-- 
2.43.0


From a7b6b762497ee00f538352fe3938fc1ec7c235f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:47:42 +0000
Subject: [PATCH 35/35] fix: cells at the ends of a non-periodic domain are one
 plane spacing long

The length, volume element and field of the first and last plane were
calculated from half a plane spacing towards the end of the domain, and
calculating the maps failed if a plane lies on the end of the domain.
---
 zoidberg/zoidberg.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/zoidberg/zoidberg.py b/zoidberg/zoidberg.py
index 4471c36..87f00b4 100644
--- a/zoidberg/zoidberg.py
+++ b/zoidberg/zoidberg.py
@@ -339,7 +339,11 @@ def make_maps(
 
             for direction in [-1, +1]:
                 # Get this poloidal grid
-                _, ycoordnext = grid.getPoloidalGrid(j + direction)
+                polnext, ycoordnext = grid.getPoloidalGrid(j + direction)
+                if polnext is None:
+                    # At the ends of the domain the y coordinate is that of the
+                    # boundary, but the cell is still one plane spacing long
+                    ycoordnext = ycoord + direction * grid.metric()["dy"][0, j, 0]
 
                 # Get the next poloidal grid
                 pol_slice = []
-- 
2.43.0

