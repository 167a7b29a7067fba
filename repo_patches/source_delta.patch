From 61ec25aafc19238bf5ef87a6990edddf24a37944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:42 +0000
Subject: [PATCH 1/8] fix: take the NNLS step towards the unconstrained
 solution

The line search stepped away from the least-squares solution of the passive
set, so the algorithm could cycle and return a point which is not optimal.
---
 glass/algorithm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/glass/algorithm.py b/glass/algorithm.py
index 114881f..0df5a18 100644
--- a/glass/algorithm.py
+++ b/glass/algorithm.py
@@ -100,7 +100,7 @@ def nnls(
             t = sq <= 0
             if not xp.any(t):
                 break
-            alpha = -xp.min(xq[t] / (xq[t] - sq[t]))
+            alpha = xp.min(xq[t] / (xq[t] - sq[t]))
             x = xpx.at(x)[q].add(alpha * (sq - xq))
             q = xpx.at(q)[x <= 0].set(False)
         x = xpx.at(x)[q].set(sq)
-- 
2.43.0


From 0cb7d740215a63952fd220f12ca707571b402fa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:43 +0000
Subject: [PATCH 2/8] fix: sample redshifts from the right bin for
 multi-dimensional bin labels

The positions of the sampled redshifts were obtained by sorting bin indices
along the last axis, instead of sorting all of them.
---
 glass/galaxies.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/glass/galaxies.py b/glass/galaxies.py
index 612810c..d60e5ef 100644
--- a/glass/galaxies.py
+++ b/glass/galaxies.py
@@ -172,8 +172,8 @@ def redshifts_from_bins(
     ])
 
     # argsort the runs of redshifts into their intended positions
-    # argsort 1: sort bin_index into runs of the same bin
-    bin_index = xp.argsort(bin_index)
+    # argsort 1: sort flattened bin_index into runs of the same bin
+    bin_index = xp.argsort(xp.reshape(bin_index, (-1,)))
     # argsort 2: invert the sort
     bin_index = xp.argsort(bin_index)
     # apply to runs of redshifts
-- 
2.43.0


From 4b7ed041e084054fe502c45e138b9d8b21d312e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:43 +0000
Subject: [PATCH 3/8] fix: sample positions within pixels using the given
 random generator

positions_from_delta() always sampled the positions of galaxies within pixels
from a fixed-seed generator, whatever generator was passed by the caller, and
repeated the same sequence for every batch and every population.
---
 glass/healpix.py | 32 +++++++++++++++++++++++++++-----
 glass/points.py  | 10 +++++++++-
 2 files changed, 36 insertions(+), 6 deletions(-)

diff --git a/glass/healpix.py b/glass/healpix.py
index 69c2439..34f8c1d 100644
--- a/glass/healpix.py
+++ b/glass/healpix.py
@@ -25,7 +25,13 @@ if TYPE_CHECKING:
     from collections.abc import Sequence
     from types import ModuleType
 
-    from glass._types import ComplexArray, DTypeLike, FloatArray, IntArray
+    from glass._types import (
+        ComplexArray,
+        DTypeLike,
+        FloatArray,
+        IntArray,
+        UnifiedGenerator,
+    )
 
 
 def _get_healpy_datapath() -> str | None:
@@ -395,19 +401,31 @@ def query_strip(
     return xp.asarray(output, dtype=dtype)
 
 
+class _WritableGenerator:
+    """Random number generator which produces writable NumPy arrays."""
+
+    def __init__(self, rng: UnifiedGenerator) -> None:
+        self.rng = rng
+
+    def random(self, size: tuple[int, ...], dtype: DTypeLike) -> FloatArray:
+        """Sample uniform random numbers."""
+        return np.array(self.rng.random(size), dtype=dtype)
+
+
 @numpy_fallback
 def randang(
     nside: int,
     ipix: IntArray,
     *,
     lonlat: bool = False,
+    rng: UnifiedGenerator | None = None,
 ) -> tuple[FloatArray, FloatArray]:
     """
     Sample random spherical coordinates from the given HEALPix pixels.
 
-    ``rng`` is no longer a parameter as we must use the NumPy backend otherwise
-    we run into a ``operand array with iterator write flag set is read-only``
-    error coming from ``_chp.ring2ang_uv(nside, ipix, u, v, u, v)``.
+    The random numbers are converted to writable NumPy arrays, otherwise we run
+    into a ``operand array with iterator write flag set is read-only`` error
+    coming from ``_chp.ring2ang_uv(nside, ipix, u, v, u, v)``.
 
     Parameters
     ----------
@@ -417,17 +435,21 @@ def randang(
         HEALPix pixel number.
     lonlat
         If True, automatically adjust latitudes to be within [-90, 90] range.
+    rng
+        Random number generator. If not given, a default RNG is used.
 
     Returns
     -------
         A tuple ``theta, phi`` of mathematical coordinates.
 
     """
+    if rng is None:
+        rng = glass.rng.default_rng(xp=np)
     theta, phi = healpix.randang(
         nside,
         ipix,
         lonlat=lonlat,
-        rng=glass.rng.default_rng(xp=np),
+        rng=_WritableGenerator(rng),
     )
     return theta, phi
 
diff --git a/glass/points.py b/glass/points.py
index 593c023..f0278e8 100644
--- a/glass/points.py
+++ b/glass/points.py
@@ -353,6 +353,8 @@ def _sample_galaxies_per_pixel(
     dims: tuple[int, ...],
     k: tuple[int, ...],
     n: FloatArray,
+    *,
+    rng: UnifiedGenerator | None = None,
 ) -> Generator[
     tuple[
         FloatArray,
@@ -374,6 +376,8 @@ def _sample_galaxies_per_pixel(
         Indices for the extra dimensions.
     n
         Number density.
+    rng
+        Random number generator. If not given, a default RNG is used.
 
     Yields
     ------
@@ -388,6 +392,9 @@ def _sample_galaxies_per_pixel(
     """
     xp = n.__array_namespace__()
 
+    # get default RNG if not given
+    xrng = glass.rng.Generator(rng=rng, xp=xp)
+
     # total number of points
     count = xp.sum(n)
     # don't go through pixels if there are no points
@@ -428,6 +435,7 @@ def _sample_galaxies_per_pixel(
                 nside,
                 ipix,
                 lonlat=True,
+                rng=xrng,
             )
             # next batch
             start, size = stop, 0
@@ -537,7 +545,7 @@ def positions_from_delta(  # noqa: PLR0913
 
         n = _sample_number_galaxies(n, rng=xrng)
 
-        yield from _sample_galaxies_per_pixel(batch, dims, k, n)
+        yield from _sample_galaxies_per_pixel(batch, dims, k, n, rng=xrng)
 
 
 def uniform_positions(
-- 
2.43.0


From 944c0e199f4515a08c5785d6f0343f9a115f55ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:29 +0000
Subject: [PATCH 4/8] fix: do not search forever for an improved solution
 without a finite step

The line search of the Gaussian angular power spectrum solver never ended when
the current error or the step were not finite.
---
 glass/grf/_solver.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/glass/grf/_solver.py b/glass/grf/_solver.py
index 3f58d0f..076bfe3 100644
--- a/glass/grf/_solver.py
+++ b/glass/grf/_solver.py
@@ -126,6 +126,10 @@ def solve(  # noqa: PLR0912, PLR0913
         if monopole is not None:
             xl[0] = 0
 
+        # there is no improved solution to be found without a finite step
+        if np.isnan(clerr) or not np.all(np.isfinite(xl)):
+            break
+
         # we know the "direction" of the step xl at this point
         # make xl smaller (by half) until we get an improved solution
         while True:
-- 
2.43.0


From a8de7106f9322af25dd9f3af0ec607387f466bb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:29 +0000
Subject: [PATCH 5/8] fix: distribute an empty array of redshifts with any
 array library

---
 glass/shells.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/glass/shells.py b/glass/shells.py
index cea16ac..c581828 100644
--- a/glass/shells.py
+++ b/glass/shells.py
@@ -1100,7 +1100,7 @@ def distribute(
 
     # return empty array if nothing was sampled
     if not out:
-        return xp.empty(shape, dtype=int)
+        return xp.empty(shape, dtype=xp.int64)
 
     # return output in input shape
     return xp.reshape(xp.concat(out), shape)
-- 
2.43.0


From 4e831c798cea13105982d6554c2b5e2c0d0fe78a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:30 +0000
Subject: [PATCH 6/8] fix: integrate uniformly spaced values with any array
 library

---
 glass/_array_api_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/glass/_array_api_utils.py b/glass/_array_api_utils.py
index fa2b7eb..2009eb4 100644
--- a/glass/_array_api_utils.py
+++ b/glass/_array_api_utils.py
@@ -143,7 +143,7 @@ class xp_additions:  # noqa: N801
         # If any other backend use default
         dxp = default_xp(xp.__name__)
         y_dxp = dxp.asarray(y, copy=True)
-        x_dxp = dxp.asarray(x, copy=True)
+        x_dxp = None if x is None else dxp.asarray(x, copy=True)
         result_dxp = dxp.trapezoid(y_dxp, x_dxp, dx=dx, axis=axis)
         return xp.asarray(result_dxp, copy=True)
 
-- 
2.43.0


From 5f9a7df8bded693f56b8e64c7ac72ae880b7cb97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:41 +0000
Subject: [PATCH 7/8] fix: reject lens planes out of order before changing any
 state

A plane at a redshift that is not larger than the previous one (including a
redshift which is not a number) is rejected before the matter field of the
calculation has been initialised.
---
 glass/lensing.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/glass/lensing.py b/glass/lensing.py
index e7004ec..3b41de8 100644
--- a/glass/lensing.py
+++ b/glass/lensing.py
@@ -501,8 +501,6 @@ class MultiPlaneConvergence:
             The window function.
 
         """
-        self._initialise_inputs(delta)
-
         zsrc = w.zeff
         lens_weight = float(uxpx.trapezoid(w.wa, w.za) / uxpx.interp(zsrc, w.za, w.wa))
 
@@ -532,14 +530,14 @@ class MultiPlaneConvergence:
             If the source redshift is not increasing.
 
         """
+        if not zsrc > self.z3:
+            msg = "source redshift must be increasing"
+            raise ValueError(msg)
+
         self._initialise_inputs(delta, zsrc)
 
         xp = array_api_compat.array_namespace(delta, self, zsrc, use_compat=False)
 
-        if zsrc <= self.z3:
-            msg = "source redshift must be increasing"
-            raise ValueError(msg)
-
         # cycle mass plane, ...
         delta2, self.delta3 = self.delta3, delta
 
-- 
2.43.0


From 1553154fa8b303e95af3a6516d43e695e6caa561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:19 +0000
Subject: [PATCH 8/8] fix: keep sampling from semi-definite covariances of
 degenerate fields

---
 glass/fields.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/glass/fields.py b/glass/fields.py
index 677a84a..7219db6 100644
--- a/glass/fields.py
+++ b/glass/fields.py
@@ -156,7 +156,7 @@ def iternorm(cov: Iterable[FloatArray]) -> Iterator[FloatArray]:
                 xp.zeros(n, dtype=atm.dtype),
             )
             # assemble the new row
-            r = xp.concat([-atm, u[..., None, None]], axis=-1)
+            r = xp.concat([-u[..., None, None] * atm, u[..., None, None]], axis=-1)
             # set zero standard deviation to unity to prevent division by zero
             # this should be fine as corresponding entries in r are zero
             s = xp.where(s > 0, s, xp.ones(n, dtype=s.dtype))
-- 
2.43.0

