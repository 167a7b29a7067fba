"""Planted changes (development aid; see mkseed.py)."""
SEEDS = {}


def seed(sid, prop, needs, breaks, edits, demo):
    SEEDS[sid] = {"property": prop, "needs": needs, "breaks": breaks, "edits": edits, "demo": demo}


seed("jax-split-outside-lock", "C04",
     "two threads use one generator, the second advancing it between the first one's read of the key and its lock",
     "Generator.split derives its keys before taking the lock, so that two concurrent calls can hand out the same keys.",
     [("glass/jax.py", """        with self.lock:
            keys = jax.random.split(self.key, 1 + math.prod(shape))
            self.key = keys[0]
""", """        keys = jax.random.split(self.key, 1 + math.prod(shape))
        with self.lock:
            self.key = keys[0]
""")], """
import sys, jax, glass.jax


class Interleave:
    # another thread draws while this one waits for the lock
    def __init__(self, rng):
        self.rng, self.other, self.first = rng, None, True

    def __enter__(self):
        if self.first:
            self.first = False
            self.other = self.rng.split(2)

    def __exit__(self, *exc):
        return False


rng = glass.jax.Generator(1)
lock = Interleave(rng)
rng.lock = lock
mine = rng.split(2)
a = {tuple(x) for x in jax.random.key_data(mine).tolist()}
b = {tuple(x) for x in jax.random.key_data(lock.other).tolist()}
print("keys handed out twice:", len(a & b))
sys.exit(bool(a & b))
""")

seed("solver-initial-view", "C01",
     "an initial guess at least as long as the spectrum together with a fixed monopole",
     "The solver works on a view of the caller's initial guess and writes the monopole into it.",
     [("glass/grf/_solver.py", """        gl = np.zeros(n)
        gl[: initial.shape[0]] = initial[:n]
""", """        gl = np.pad(initial, (0, n - initial.shape[0])) if initial.shape[0] < n else initial[:n]
""")], """
import sys, numpy as np, glass.grf
cl = 0.1 / (1.0 + np.arange(8)) ** 2
t = glass.grf.Lognormal(1.0)
g = glass.grf.solve(cl, t, t, pad=16)[0]
g0 = g.copy()
glass.grf.solve(cl, t, t, pad=16, initial=g, monopole=0.0)
print(g[0], g0[0])
sys.exit(not (g == g0).all())
""")

seed("randang-second-batch", "C02",
     "more than one batch of positions",
     "Positions of every batch after the first come from a new generator with the default seed instead of the caller's.",
     [("glass/points.py", "                lonlat=True,\n                rng=xrng,\n",
       "                lonlat=True,\n                rng=xrng if start == 0 else None,\n")], """
import sys, numpy as np, glass
bad = 0
delta = np.zeros(12 * 16**2)
out = []
for seed in (1, 2):
    rng = np.random.default_rng(seed)
    state = [rng.bit_generator.state["state"]["state"]]
    for lon, lat, n in glass.positions_from_delta(0.0002, delta, batch=1500, rng=rng):
        state.append(rng.bit_generator.state["state"]["state"])
        if len(lon) and state[-1] == state[-2]:
            bad += 1
print("batches that did not use the generator:", bad)
sys.exit(bad > 0)
""")

seed("rejected-plane-moves-delta", "C18",
     "a rejected plane followed by another accepted plane",
     "The matter field is updated before the redshift is checked, so a rejected plane leaks into the recurrence.",
     [("glass/lensing.py", """        if not zsrc > self.z3:
            msg = "source redshift must be increasing"
            raise ValueError(msg)

        self._initialise_inputs(delta, zsrc)

        xp = array_api_compat.array_namespace(delta, self, zsrc, use_compat=False)

        # cycle mass plane, ...
        delta2, self.delta3 = self.delta3, delta
""", """        self._initialise_inputs(delta, zsrc)

        xp = array_api_compat.array_namespace(delta, self, zsrc, use_compat=False)

        # cycle mass plane, ...
        delta2, self.delta3 = self.delta3, delta

        if not zsrc > self.z3:
            msg = "source redshift must be increasing"
            raise ValueError(msg)
""")], """
import sys, numpy as np, glass


class Cosmo:
    h, Omega_m0, hubble_distance = 0.7, 0.3, 3000.0
    def H_over_H0(self, z): return (0.3 * (1 + np.asarray(z))**3 + 0.7)**0.5
    def transverse_comoving_distance(self, z, z2=None):
        return 3000.0 * np.asarray(z) if z2 is None else 3000.0 * (np.asarray(z2) - np.asarray(z))


def run(reject):
    m = glass.MultiPlaneConvergence(Cosmo())
    m.add_plane(np.ones(4), 0.5, 0.1)
    if reject:
        try:
            m.add_plane(np.full(4, 7.0), 0.4, 0.2)
        except ValueError:
            pass
    m.add_plane(np.full(4, 2.0), 1.0, 0.1)
    return m.kappa


a, b = run(False), run(True)
print(a, b)
sys.exit(not np.allclose(a, b))
""")

seed("galaxy-shear-last-element", "C14",
     "a number of galaxies one more than a multiple of 10000",
     "The last galaxy is left uninitialised when it would be alone in the last chunk.",
     [("glass/galaxies.py", "    for i in range(0, size, 10_000):\n", "    for i in range(0, max(size - 1, 1), 10_000):\n")], """
import sys, numpy as np, glass
n = 10001
rng = np.random.default_rng(1)
lon, lat = rng.uniform(-180, 180, n), rng.uniform(-60, 60, n)
npix = 12 * 8**2
k, g1, g2 = np.full(npix, 0.1), np.full(npix, 0.02), np.full(npix, 0.03)
junk = np.full(n, 1e3 + 1e3j); del junk
junk = np.full(n, 1e3); del junk
g = glass.galaxy_shear(lon, lat, np.zeros(n, dtype=complex), k, g1, g2, reduced_shear=False)
print(g[-1])
sys.exit(not np.allclose(g, 0.02 + 0.03j))
""")

seed("nearest-drops-tolerance", "C19",
     "an explicit tolerance for the nearest covariance",
     "cov_nearest no longer hands its tolerance to the iteration.",
     [("glass/algorithm.py", "    return nearcorr(corr, niter=niter, tol=tol) * norm\n", "    return nearcorr(corr, niter=niter) * norm\n")], """
import sys, warnings, numpy as np, glass.algorithm
a = np.array([[1.0, 0.9, -0.9], [0.9, 1.0, 0.9], [-0.9, 0.9, 1.0]])
with warnings.catch_warnings():
    warnings.simplefilter("ignore")
    x = glass.algorithm.cov_nearest(a, tol=0.5)
    y = glass.algorithm.cov_nearest(a, tol=1e-12)
print(abs(x - y).max())
sys.exit(bool((x == y).all()))
""")

seed("shear-needs-deflection", "C20",
     "shear requested without deflection",
     "The filter between potential and deflection is only applied when deflection is requested, which changes the shear.",
     [("glass/lensing.py", """    fl = xp.sqrt(ell * (ell + 1))
    # missing spin-1 pixel window function here
    alm = hp.almxfl(alm, fl)

    # if deflection is requested, compute spin-1 maps and add to output
    if deflection:
""", """    fl = xp.sqrt(ell * (ell + 1))
    # missing spin-1 pixel window function here

    # if deflection is requested, compute spin-1 maps and add to output
    if deflection:
        alm = hp.almxfl(alm, fl)
""")], """
import sys, numpy as np, glass, glass.healpix as hp
# stand-in for the transform that needs data files
import healpy
hp.map2alm = lambda m, lmax=None, pol=True, use_pixel_weights=False: healpy.map2alm(m, lmax=lmax, pol=pol, iter=0)
m = np.random.default_rng(1).standard_normal(12 * 8**2)
(g1,) = glass.from_convergence(m, shear=True, discretized=False)
a, g2 = glass.from_convergence(m, shear=True, deflection=True, discretized=False)
print(abs(g1 - g2).max())
sys.exit(not np.allclose(g1, g2))
""")

seed("strict-interp-period", "C21",
     "interpolation with a period on an array library other than NumPy and JAX",
     "The fallback of the interpolation helper ignores the period.",
     [("glass/_array_api_utils.py", """            left=left,
            right=right,
            period=period,
        )
        return xp.asarray(result_dxp, copy=True)
""", """            left=left,
            right=right,
        )
        return xp.asarray(result_dxp, copy=True)
""")], """
import sys, numpy as np, array_api_strict as s
from glass._array_api_utils import xp_additions as u
x, xq, y = [370.0, -10.0, 725.0], [0.0, 90.0, 180.0, 270.0], [1.0, 2.0, 3.0, 4.0]
r = [np.asarray(u.interp(*(xp.asarray(v) for v in (x, xq, y)), period=360.0)) for xp in (np, s)]
print(r)
sys.exit(not np.allclose(*r))
""")

seed("monopole-not-reported", "C13",
     "a spectrum with zero monopole whose Gaussian spectrum does not converge",
     "Spectra solved with a fixed monopole no longer warn when they have not converged.",
     [("glass/fields.py", "            if info == 0:\n", "            if info == 0 and monopole is None:\n")], """
import sys, warnings, numpy as np, glass, glass.grf
cl = np.array([0.0, 3.0, 1.0, 3.0, 1e-9])
f = [glass.grf.Lognormal(1.0)]
gl, _, info = glass.grf.solve(cl, f[0], f[0], pad=2 * len(cl), monopole=0.0)
with warnings.catch_warnings(record=True) as w:
    warnings.simplefilter("always")
    glass.solve_gaussian_spectra(f, [cl])
n = sum("did not converge" in str(x.message) for x in w)
print("status", info, "warnings", n)
assert info == 0
sys.exit(n == 0)
""")

seed("ncorr-drops-own-spectra", "C11",
     "spectra of at least four fields with a correlation length",
     "Truncation to a correlation length takes the spectra in a different order from the one in which they are stored.",
     [("glass/fields.py", "            cls[i * (i + 1) // 2 + j] if j <= ncorr else xp.asarray([])\n",
       "            cls[i * (i + 1) // 2 + j] if i - j <= ncorr else xp.asarray([])\n")], """
import sys, numpy as np, glass
cls = [np.full(3, float(10 * i + j)) for i in range(4) for j in range(i, -1, -1)]
out = glass.discretized_cls(cls, ncorr=1)
keep = [bool(c.shape[0]) for c in out]
want = [i - j <= 1 for i in range(4) for j in range(i, -1, -1)]
print(keep)
sys.exit(keep != want)
""")

seed("combine-uniform-norm", "C29",
     "windows whose samples are not equally spaced",
     "Combined windows are normalised as if their samples were equally spaced.",
     [("glass/shells.py", "                    shell.wa / uxpx.trapezoid(shell.wa, shell.za),\n",
       "                    shell.wa / uxpx.trapezoid(shell.wa, dx=float(shell.za[1] - shell.za[0])),\n")], """
import sys, numpy as np, glass
w = glass.RadialWindow(np.array([0.0, 1.0, 3.0]), np.array([1.0, 1.0, 1.0]), 1.0)
f = glass.combine(np.array([0.5, 2.0]), np.array([6.0]), [w])
print(f)
sys.exit(not np.allclose(f, 2.0))
""")

seed("restrict-beyond-end", "C29",
     "a function that ends inside a window",
     "A restricted function keeps its last value beyond its end.",
     [("glass/shells.py", "        left=0.0,\n        right=0.0,\n    ) * glass.arraytools.ndinterp(zr, w.za, w.wa)", "        left=0.0,\n    ) * glass.arraytools.ndinterp(zr, w.za, w.wa)")], """
import sys, numpy as np, glass
w = glass.RadialWindow(np.array([0.0, 1.0, 2.0]), np.array([1.0, 1.0, 1.0]), 1.0)
z, f = glass.restrict(np.array([0.0, 0.5, 1.0]), np.array([1.0, 2.0, 3.0]), w)
print(z, f)
sys.exit(bool(f[-1] != 0.0))
""")

seed("distributions-share-norm", "C28",
     "several Gaussian distributions that the grid covers unequally",
     "Several distributions are normalised by the largest of their integrals.",
     [("glass/observations.py", "    nz /= uxpx.trapezoid(nz, z, axis=-1)[..., xp.newaxis]\n", "    nz /= xp.max(uxpx.trapezoid(nz, z, axis=-1))\n")], """
import sys, numpy as np, glass
z = np.linspace(0.0, 2.0, 201)
nz = glass.gaussian_nz(z, np.array([0.0, 1.0]), np.array([0.1, 0.3]))
t = np.trapezoid(nz, z, axis=-1)
print(t)
sys.exit(not np.allclose(t, 1.0))
""")

seed("bins-of-equal-sums", "C28",
     "a distribution on a grid that is not equally spaced",
     "Bins of equal density hold equal sums of samples instead of equal integrals.",
     [("glass/observations.py", "    cuml_nz = glass.arraytools.cumulative_trapezoid(nz, z)\n",
       "    cuml_nz = glass.arraytools.cumulative_trapezoid(nz, xp.linspace(z[0], z[-1], z.shape[0]))\n")], """
import sys, numpy as np, glass
b = glass.equal_dens_zbins(np.array([0.0, 1.0, 3.0]), np.array([1.0, 1.0, 1.0]), 3)
print(b)
sys.exit(not np.allclose([x for x, _ in b], [0.0, 1.0, 2.0]))
""")

seed("shear-pixwin-ratio", "C30",
     "shear maps with pixel windows",
     "Shear is multiplied by the polarisation pixel window instead of its ratio to the temperature one.",
     [("glass/lensing.py", "        pw0, pw2 = hp.pixwin(nside, lmax=lmax, pol=True, xp=xp)\n        fl *= pw2 / pw0\n", "        _, pw2 = hp.pixwin(nside, lmax=lmax, pol=True, xp=xp)\n        fl *= pw2\n")], """
import sys, numpy as np, glass
import glass.lensing
hp = glass.lensing.hp
hp.pixwin = lambda nside, *, lmax=None, pol=False, xp=None: (0.5 * np.ones(lmax + 1), 0.5 * np.ones(lmax + 1))
import healpy
hp.map2alm = lambda m, lmax=None, pol=True, use_pixel_weights=False: healpy.map2alm(m, lmax=lmax, pol=pol, iter=0)
m = np.random.default_rng(1).standard_normal(12 * 4**2)
(g1,) = glass.from_convergence(m, shear=True, discretized=True)
(g2,) = glass.from_convergence(m, shear=True, discretized=False)
print(abs(g1 - g2).max())
sys.exit(not np.allclose(g1, g2))
""")

seed("reduced-shear-phase", "C30",
     "an intrinsic ellipticity that is not aligned with the shear",
     "The reduced shear is combined with the conjugate of the wrong factor, which changes only the phase.",
     [("glass/galaxies.py", "        g = (eps + g) / (1 + xp.conj(g) * eps)\n", "        g = (eps + g) / (1 + g * xp.conj(eps))\n")], """
import sys, numpy as np, glass
one = np.ones(12)
e = glass.galaxy_shear(np.array([10.0]), np.array([5.0]), np.array([0.3j]), 0.0 * one, 0.2 * one, 0.0 * one)
want = (0.3j + 0.2) / (1 + 0.2 * 0.3j)
print(e, want)
sys.exit(not np.allclose(e, want))
""")

seed("resampled-fourth-moment", "C31",
     "shapes of unequal moduli resampled with a given shear variance",
     "The rescaling uses the square of the second moment for the fourth moment.",
     [("glass/shapes.py", "        eve4 = xp.mean(r**4)\n", "        eve4 = vare**2\n")], """
import sys, numpy as np, glass
eps = np.array([0.1, 0.5, 0.7, 0.2j])
e = glass.resample_shapes(eps, varg=0.05, rng=np.random.default_rng(1))
r = abs(eps)
v, f = np.mean(r**2), np.mean(r**4)
g = 0.05
s = np.sqrt((np.sqrt(((1 - 2 * g) * v) ** 2 + 4 * g * f * (v - g)) - (1 - 2 * g) * v) / (2 * g * f))
print(abs(e), s * r)
sys.exit(not np.allclose(abs(e), s * r))
""")

seed("monopole-divided", "C31",
     "positions with the monopole of the density removed",
     "Removing the monopole divides by the mean instead of subtracting it.",
     [("glass/points.py", "        n = n - xp.mean(n, keepdims=True)\n", "        n = (1 + n) / (1 + xp.mean(n, keepdims=True)) - 1\n")], """
import sys, numpy as np, glass
class R(np.random.Generator):
    def poisson(self, lam=1.0, size=None):
        R.lam = np.asarray(lam)
        return super().poisson(lam, size)
d = np.array([1.0] * 6 + [0.0] * 6)
list(glass.positions_from_delta(1e-3, d, remove_monopole=True, rng=R(np.random.PCG64(1))))
r = R.lam / R.lam.mean()
print(r)
sys.exit(not np.allclose(r, [1.5] * 6 + [0.5] * 6))
""")

seed("axis-ratio-cross-term", "C31",
     "any triaxial ellipsoid seen from a general direction",
     "The cross term of the projected axis ratio is half of what it should be.",
     [("glass/shapes.py", "    b2 = 4 * z2m1**2 * cos2_theta * sin2_phi * cos2_phi\n", "    b2 = 2 * z2m1**2 * cos2_theta * sin2_phi * cos2_phi\n")], """
import sys, math, numpy as np, glass
class R(np.random.Generator):
    n = 0
    def uniform(self, low=0.0, high=1.0, size=None):
        R.n += 1
        return np.full(size, 1.0 if R.n == 1 else math.pi / 4)
q = glass.triaxial_axis_ratio(np.array([0.5]), np.array([0.3]), rng=R(np.random.PCG64(1)))
print(q)  # seen along the shortest axis, whatever the angle
sys.exit(not np.allclose(q, 0.5))
""")

seed("distribute-fresh-generator", "C02",
     "more than a thousand redshifts distributed without a generator",
     "Every batch of a thousand redshifts gets a generator of its own, so that all batches use the same random numbers.",
     [("glass/shells.py", """    xrng = glass.rng.Generator(rng=rng, xp=xp)

    # flatten redshifts but store shape
    shape = redshifts.shape
""", """    # flatten redshifts but store shape
    shape = redshifts.shape
"""), ("glass/shells.py", """        # redshift batch
        z = redshifts[start""", """        # redshift batch
        xrng = glass.rng.Generator(rng=rng, xp=xp)
        z = redshifts[start""")], """
import sys, numpy as np, glass
z = np.linspace(0, 1, 11)
ws = [glass.RadialWindow(z, np.ones(11)), glass.RadialWindow(z, np.ones(11))]
i = glass.distribute(np.full(2000, 0.5), ws)
print((i[:1000] == i[1000:]).mean())
sys.exit(bool((i[:1000] == i[1000:]).all()))
""")

seed("bins-in-hash-order", "C03",
     "bins labelled by strings",
     "Redshifts are drawn bin by bin in the order of a set, which depends on the hash seed of the process.",
     [("glass/galaxies.py", """    redshifts = xp.concat([
        _draw_nz(int(k), z, nz_values[nz_keys.index(x)], rng=xrng)
        for x, k in zip(bin_label, bin_count, strict=True)
    ])
""", """    counts = {
        nz_keys[nz_keys.index(x)]: int(k)
        for x, k in zip(bin_label, bin_count, strict=True)
    }
    draws = {x: _draw_nz(counts[x], z, nz_dict[x], rng=xrng) for x in set(counts)}
    redshifts = xp.concat([draws[x] for x in counts])
""")], """
import os, subprocess, sys
code = '''
import numpy as np, glass
z = np.linspace(0, 1, 11)
bins = np.array(["a", "b", "c", "d", "e", "f"])
print(glass.redshifts_from_bins(bins, z, {k: np.ones(11) for k in bins.tolist()}, rng=np.random.default_rng(1)))
'''
out = {subprocess.run([sys.executable, "-c", code], env={**os.environ, "PYTHONHASHSEED": str(h)}, capture_output=True, text=True, check=True).stdout for h in range(1, 6)}
print(len(out))
sys.exit(len(out) != 1)
""")

seed("jax-for-any-library", "C05",
     "arrays of a library other than NumPy, and JAX not installed",
     "A default generator for arrays of any other library than NumPy imports JAX.",
     [("glass/rng.py", """        self.default_dtype = xp.float64

        if rng is None:
            if xp.__name__ == "jax.numpy":
                import glass.jax  # noqa: PLC0415

""", """        self.default_dtype = xp.float64

        if rng is None:
            if xp.__name__ != "numpy":
                import glass.jax  # noqa: PLC0415

            if xp.__name__ == "jax.numpy":
""")], """
import sys


class Missing:
    def find_spec(self, name, path=None, target=None):
        if name.partition(".")[0] == "jax":
            raise ImportError(f"{name} is not installed")


sys.meta_path.insert(0, Missing())
import array_api_strict as xp, glass
try:
    for lon, lat, n in glass.uniform_positions(xp.asarray(1e-5)):
        print(n)
except ImportError as e:
    print(e)
    sys.exit(1)
""")

seed("displace-wraps-radians", "C07",
     "longitudes beyond a full turn",
     "Longitudes beyond a full turn are brought back by subtracting two pi, although they are in degrees.",
     [("glass/points.py", """    return lon + d / math.pi * 180, tp / math.pi * 180
""", """    lon = xp.where(xp.asarray(lon) > 360, lon - 2 * math.pi, lon)

    return lon + d / math.pi * 180, tp / math.pi * 180
""")], """
import sys, numpy as np, glass
a = glass.displace(np.array([400.0]), np.array([10.0]), np.array([0.1 + 0.2j]))[0]
b = glass.displace(np.array([40.0]), np.array([10.0]), np.array([0.1 + 0.2j]))[0]
print(a, b)
sys.exit(not np.allclose((a - b) % 360, 0, atol=1e-6) and not np.allclose((a - b) % 360, 360, atol=1e-6))
""")

seed("effective-skips-negative-weights", "C09",
     "weights of different sign",
     "Pairs of fields whose weights have a negative product are left out of effective spectra.",
     [("glass/fields.py", """            for i1 in range(n)
            for i2 in range(n)
        )
        out =""", """            for i1 in range(n)
            for i2 in range(n)
            if not w1[i1] * w2[i2] < 0
        )
        out =""")], """
import sys, numpy as np, glass
cls = [np.array([1.0, 0.5]), np.array([1.0, 0.5]), np.array([0.5, 0.25])]
a = glass.effective_cls(cls, np.array([1.0, -1.0]))
print(a)
sys.exit(not np.allclose(a, [1.0 + 1.0 - 2 * 0.5, 0.5 + 0.5 - 2 * 0.25]))
""")

seed("triaxiality-drawn-again-once", "C10",
     "a wide distribution of the third axis",
     "Third axes out of range are drawn again only once, so that some stay out of range.",
     [("glass/shapes.py", "    while xp.any(bad := (gam < 0) | (gam > 1)):\n", "    if xp.any(bad := (gam < 0) | (gam > 1)):\n")], """
import sys, numpy as np, glass, glass.shapes
seen = []
f = glass.shapes.triaxial_axis_ratio
glass.shapes.triaxial_axis_ratio = lambda zeta, xi, *a, **k: seen.append(((xi < 0) | (xi > zeta)).sum()) or f(zeta, xi, *a, **k)
glass.ellipticity_ryden04(np.full(1000, -2.0), 0.5, 0.5, 1.0, rng=np.random.default_rng(1))
print(seen)
sys.exit(any(seen))
""")

seed("equal-bounds-accepted", "C12",
     "the lower bound of photometric redshifts equal to the upper one",
     "Bounds that leave no room are accepted, and redshifts are drawn for ever.",
     [("glass/galaxies.py", "    if not xp.all(lower_arr < upper_arr):\n", "    if not xp.all(lower_arr <= upper_arr):\n")], """
import sys, signal, numpy as np, glass
signal.alarm(20)
try:
    glass.gaussian_phz(np.array([0.5, 1.0]), 0.05, lower=0.7, upper=0.7, rng=np.random.default_rng(1))
except ValueError as e:
    print(e)
    sys.exit(0)
sys.exit(1)
""")

seed("large-shift-not-scaled", "C16",
     "a lognormal transformation with a shift larger than one",
     "The lognormal field is only scaled by a shift smaller than one, while correlations are scaled by every shift.",
     [("glass/grf/_transformations.py", """        x = xp.expm1(x - var / 2)
        if self.lamda != 1.0:
""", """        x = xp.expm1(x - var / 2)
        if self.lamda < 1.0:
""")], """
import sys, numpy as np
import glass.grf as g
x = np.array([-0.3, 0.1, 0.7])
one, two = g.Lognormal(1.0)(x, 0.1), g.Lognormal(2.0)(x, 0.1)
print(one, two)
sys.exit(not np.allclose(2 * one, two))
""")

seed("catalog-keeps-old-file", "C17",
     "a catalogue written over an existing one, with a named extension",
     "An existing file is only replaced if the extension is not named; otherwise new rows are appended to the old ones.",
     [("glass/user.py", '    with fitsio.FITS(filename, "rw", clobber=True) as fits:\n', '    with fitsio.FITS(filename, "rw", clobber=ext is None) as fits:\n')], """
import sys, os, tempfile, numpy as np, fitsio, glass
with tempfile.TemporaryDirectory() as d:
    f = os.path.join(d, "out.fits")
    for n in (5, 3):
        with glass.write_catalog(f, ext="CATALOG") as out:
            out.write(RA=np.arange(float(n)))
    rows = fitsio.FITS(f)["CATALOG"].get_nrows()
print(rows)
sys.exit(bool(rows != 3))
""")

seed("coarse-linear-window", "C23",
     "an interval between nodes not larger than the spacing of the sampling",
     "The rising part of a linear window that is shorter than its sampling has no points, so that the window starts at its middle.",
     [("glass/shells.py", """        n = int(max(xp.round((zmid - zmin) / dz), 2)) - 1
        m = int(max(xp.round((zmax - zmid) / dz), 2))
        z = xp.concat(
            (xp.linspace(zmin, zmid, n, endpoint=False), xp.linspace(zmid, zmax, m)),
        )
        w = xp.concat(
            (xp.linspace(""", """        n = int(max(xp.round((zmid - zmin) / dz), 1)) - 1
        m = int(max(xp.round((zmax - zmid) / dz), 2))
        z = xp.concat(
            (xp.linspace(zmin, zmid, n, endpoint=False), xp.linspace(zmid, zmax, m)),
        )
        w = xp.concat(
            (xp.linspace(""")], """
import sys, numpy as np, glass
w, = glass.linear_windows(np.array([0.0, 0.1, 0.3]), dz=0.1)
print(w.za)
sys.exit(bool(w.za[0] != 0.0))
""")

seed("clip-by-largest-of-stack", "C24",
     "a stack of matrices of different magnitude",
     "The eigenvalues of every matrix of a stack are clipped by the largest eigenvalue in the stack.",
     [("glass/algorithm.py", "    w = xp.clip(w, rtol * xp.max(w, axis=-1, keepdims=True), None)\n", "    w = xp.clip(w, rtol * xp.max(w), None)\n")], """
import sys, numpy as np
from glass.algorithm import cov_clip
a = np.stack([np.eye(2), 1e-6 * np.eye(2)])
b = cov_clip(a, rtol=1e-3)
print(b)
sys.exit(not np.allclose(a, b, rtol=1e-9, atol=0))
""")

seed("nnls-keeps-rounding", "C25",
     "a coefficient that leaves the active set with a rounding error",
     "Coefficients that left the active set are not set to zero, so that small negative ones are returned.",
     [("glass/algorithm.py", "        x = xpx.at(x)[q].set(sq)\n        x = xpx.at(x)[~q].set(0)\n", "        x = xpx.at(x)[q].set(sq)\n")], """
import sys, numpy as np
from glass.algorithm import nnls
low = 0.0
for seed in range(3000):
    rng = np.random.default_rng(seed)
    low = min(low, nnls(rng.normal(size=(12, 8)), rng.normal(size=12)).min())
print(low)
sys.exit(bool(low < 0))
""")

seed("stale-covariance-tail", "C26",
     "spectra of different lengths",
     "The part of a row of the covariance beyond a short spectrum keeps the values of the row before.",
     [("glass/fields.py", "            cov = xpx.at(cov)[:n, i].set(cl)\n            cov = xpx.at(cov)[n:, i].set(0.0)\n", "            cov = xpx.at(cov)[:n, i].set(cl)\n")], """
import sys, numpy as np, glass.fields
cls = [np.array([1.0, 1.0, 1.0]), np.array([1.0]), np.array([0.5])]
rows = [c.copy() for c in glass.fields.cls2cov(cls, 3, 2, 1)]
print(rows[1])
sys.exit(not np.array_equal(rows[1][1:, 0], [0, 0]))
""")

seed("monopole-from-initial", "C27",
     "an initial solution given together with a fixed monopole",
     "The monopole is only set in the solution computed by default, not in an initial solution.",
     [("glass/grf/_solver.py", """        gl = corrtocl(glass.grf.icorr(t1, t2, cltocorr(cl)))
    else:
        gl = np.zeros(n)
        gl[: initial.shape[0]] = initial[:n]

    if monopole is not None:
        gl[0] = monopole
""", """        gl = corrtocl(glass.grf.icorr(t1, t2, cltocorr(cl)))
        if monopole is not None:
            gl[0] = monopole
    else:
        gl = np.zeros(n)
        gl[: initial.shape[0]] = initial[:n]
""")], """
import sys, numpy as np, glass.grf as g
cl = 1e-2 / np.arange(1, 33) ** 2
gl, _, _ = g.solve(cl, g.Lognormal(), pad=32, initial=cl, monopole=0.0)
print(gl[0])
sys.exit(bool(gl[0] != 0))
""")

seed("old-shear-window-of-full-maps", "C22",
     "the deprecated function with a limit of multipoles below the default",
     "shear_from_convergence only corrects for the pixel window if all multipoles of the map are used.",
     [("glass/lensing.py", """    # if discretised, factor out spin-0 kernel and apply spin-2 kernel
    if discretized:
        pw0, pw2 = hp.pixwin(nside, lmax=lmax, pol=True, xp=np)
        fl *= pw2 / pw0

    # apply correction to E-modes
    hp.almxfl(alm, fl, inplace=True)
""", """    # if discretised, factor out spin-0 kernel and apply spin-2 kernel
    if discretized and lmax >= 3 * nside - 1:
        pw0, pw2 = hp.pixwin(nside, lmax=lmax, pol=True, xp=np)
        fl *= pw2 / pw0

    # apply correction to E-modes
    hp.almxfl(alm, fl, inplace=True)
""")], """
import sys, warnings, numpy as np, glass
warnings.simplefilter("ignore")
from glass.lensing import shear_from_convergence
import healpy  # its data files need not be installed


def pixwin(nside, pol=False, lmax=None, **kw):
    ell = np.arange((3 * nside - 1 if lmax is None else lmax) + 1)
    t, p = np.exp(-ell / 100), np.exp(-ell / 50)
    return (t, p) if pol else t


healpy.pixwin = pixwin
kappa = np.random.default_rng(1).normal(size=12 * 8 ** 2)
bad = False
for lmax in (None, 16):
    g = shear_from_convergence(kappa, lmax)
    h = glass.from_convergence(kappa, lmax=lmax, shear=True)[0]
    d = abs(g[0] + 1j * g[1] - h).max()
    print(lmax, d)
    bad |= d > 1e-8
sys.exit(bool(bad))
""")

seed("distribute-faint-windows", "C08",
     "windows with very small amplitude",
     "Redshifts where all windows are small in absolute terms count as outside every shell.",
     [("glass/shells.py", "        outside = wnorm == 0\n", "        outside = wnorm < 1e-8\n")], """
import sys, numpy as np, glass
z = np.linspace(0, 1, 11)
out = []
for scale in (1.0, 1e-10):
    shells = [glass.RadialWindow(z, scale * (1 - z), 0.3), glass.RadialWindow(z, scale * z, 0.7)]
    out.append(glass.distribute(np.linspace(0, 1, 20), shells, rng=np.random.default_rng(3)))
print(*out)
sys.exit(not np.array_equal(*out))
""")
