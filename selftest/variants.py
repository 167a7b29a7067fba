VARIANTS = [
    # ---- C01
    ("C01", "glass/lensing.py", "    weights = weights / xp.sum(weights, axis=0)", "    weights /= xp.sum(weights, axis=0)"),
    ("C01", "glass/points.py", "    densities = densities / xp.sum(densities, axis=0)", "    densities /= xp.sum(densities, axis=0)"),
    ("C01", "glass/points.py", "xp.asarray(delta[(*k, ...)], copy=True)", "xp.asarray(delta[(*k, ...)])", "    n = n + 1\n", "    n += 1\n"),
    ("C01", "glass/lensing.py", "            self.kappa2 = xp.zeros_like(delta)\n", "            self.kappa2 = delta\n"),
    ("C01", "glass/fields.py", "        for i, cl in enumerate(cls[begin:end][: nc + 1]):", "        cls.pop\n        for i, cl in enumerate(cls[begin:end][: nc + 1]):\n            cl /= 1"),
    ("C01", "glass/observations.py", "    cuml_nz = glass.arraytools.cumulative_trapezoid(nz, z)\n", "    nz /= nz[-1]\n    cuml_nz = glass.arraytools.cumulative_trapezoid(nz, z)\n"),
    ("C01", "glass/shells.py", "        zeff = uxpx.trapezoid(w * z, z) / uxpx.trapezoid(w, z)\n", "        w *= 1\n        zeff = uxpx.trapezoid(w * z, z) / uxpx.trapezoid(w, z)\n"),
    ("C01", "glass/grf/_solver.py", "    n = cl.shape[0]\n", "    n = cl.shape[0]\n    if monopole is not None: cl[0] = monopole\n"),
    ("C01", "glass/shapes.py", "    zeta = xp.asarray(zeta)\n    xi = xp.asarray(xi)\n", "    zeta = xp.asarray(zeta)\n    xi = xp.asarray(xi)\n    zeta *= zeta\n"),
]
VARIANTS += [
    ("C02", "glass/points.py", "                lonlat=True,\n                rng=xrng,\n", "                lonlat=True,\n"),
    ("C02", "glass/shapes.py", "q = triaxial_axis_ratio(zeta, xi, rng=xrng)", "q = triaxial_axis_ratio(zeta, xi)"),
    ("C02", "glass/galaxies.py", "    return redshifts_from_nz(n, w.za, w.wa, rng=rng, warn=False)", "    return redshifts_from_nz(n, w.za, w.wa, warn=False)"),
    ("C02", "glass/rng.py", "            self.rng = rng\n", "            self.rng = rng if rng.__class__ is not Generator else default_rng(xp=xp)\n"),
    ("C02", "glass/shells.py", "    xrng = glass.rng.Generator(rng=rng, xp=xp)\n", "    xrng = glass.rng.Generator(rng=rng, seed=7, xp=xp)\n"),
    ("C02", "glass/points.py", "        n = _sample_number_galaxies(n, rng=xrng)", "        n = _sample_number_galaxies(n, rng=rng)"),
    ("C02", "glass/fields.py", "    grf = _generate_grf(gls, nside, ncorr=ncorr, rng=rng)", "    grf = _generate_grf(gls, nside, ncorr=ncorr)"),
    ("C02", "glass/shapes.py", "_populate_random_complex_array(xp.count_nonzero(r), rng=xrng)", "_populate_random_complex_array(xp.count_nonzero(r), rng=glass.rng.Generator(xp=xp))"),
    ("C02", "glass/rng.py", "self.rng.standard_normal(size)", "self.rng.random(size)"),
]
PIXW = '''    output = healpy.pixwin(
        nside,'''
VARIANTS += [
    # ---- C03
    ("C03", "glass/healpix.py", "def pixwin(\n", "_PW = {}\n\n\ndef pixwin(\n", "    output = healpy.pixwin(", "    if (nside, lmax, pol) in _PW:\n        return _PW[nside, lmax, pol]\n    _PW[nside, lmax, pol] = output = healpy.pixwin("),
    ("C03", "glass/healpix.py", "def pixwin(\n", "_PW = {}\n\n\ndef pixwin(\n", "    output = healpy.pixwin(", "    _PW.setdefault(nside, 1)\n    output = healpy.pixwin("),
    ("C03", "glass/healpix.py", "def pixwin(\n", "import functools\n\n\n@functools.lru_cache\ndef pixwin(\n"),
    ("C03", "glass/shells.py", "    batch = 1000\n", "    batch = 1000\n    import time\n    batch = 1000 + int(time.time()) % 2\n"),
    ("C03", "glass/shells.py", "    shape = redshifts.shape\n    redshifts = ", "    import numpy as np\n    np.random.seed(1)\n    shape = redshifts.shape\n    redshifts = "),
    ("C03", "glass/rng.py", "            self.rng = rng\n", "            self.rng = rng\n            global SEED\n            SEED = SEED + 1\n"),
    ("C03", "glass/rng.py", "    rng = np.random.default_rng(seed=seed)", "    rng = np.random.default_rng()"),
    ("C03", "glass/grf/_transformations.py", "        xp = x.__array_namespace__()\n        x = xp.expm1(x - var / 2)\n", "        xp = x.__array_namespace__()\n        if not hasattr(self, '_var'):\n            self._var = var\n        x = xp.expm1(x - self._var / 2)\n"),
    ("C03", "glass/galaxies.py", "    nz_keys = list(nz_dict.keys())\n", "    nz_keys = list(set(nz_dict.keys()))\n"),
    ("C03", "glass/fields.py", "    gls = []\n    for i, j, cl in enumerate_spectra(spectra):\n        if cl.shape[0] > 0:\n            # transformation pair\n", "    gls = []\n    warnings.simplefilter('ignore')\n    for i, j, cl in enumerate_spectra(spectra):\n        if cl.shape[0] > 0:\n            # transformation pair\n"),
    ("C03", "glass/algorithm.py", "    for _ in range(niter):\n", "    nearcorr.calls = niter\n    for _ in range(niter):\n"),
    ("C03", "glass/shells.py", "    weight: Callable[[FloatArray], FloatArray] | None = None,\n) -> list[RadialWindow]:\n", "    weight: Callable[[FloatArray], FloatArray] | None = None,\n    _ws: list = [],\n) -> list[RadialWindow]:\n    _ws.append(1)\n"),
    ("C03", "glass/healpix.py", "class Rotator:\n", "class Rotator:\n    _maps = {}\n", "        return healpy.Rotator(", "        self._maps[id(m)] = m\n        return healpy.Rotator("),
    ("C03", "glass/points.py", "def uniform_positions(\n", "_CALLS = []\n\n\ndef uniform_positions(\n", "    ngal_sphere = xrng.poisson(", "    _CALLS.append(1)\n    ngal_sphere = xrng.poisson("),
    ("C03", "glass/shells.py", "def distribute(\n", "_RNG = glass.rng.default_rng(xp=_utils.default_xp())\n\n\ndef distribute(\n", "    xrng = glass.rng.Generator(rng=rng, xp=xp)\n", "    xrng = glass.rng.Generator(rng=rng if rng is not None else _RNG, xp=xp)\n"),
]
VARIANTS += [
    ("C03", "glass/healpix.py", "class Rotator:\n", "class Rotator:\n    _n = 0\n", "        return healpy.Rotator(", "        type(self)._n += 1\n        return healpy.Rotator("),
    ("C03", "glass/healpix.py", "class Rotator:\n", "class Rotator:\n    _n = 0\n", "        return healpy.Rotator(", "        self.__class__._n = m\n        return healpy.Rotator("),
    ("C03", "glass/healpix.py", "class Rotator:\n", "class Rotator:\n    _n = {}\n", "        return healpy.Rotator(", "        self._n[1] = m\n        return healpy.Rotator("),
    ("C03", "glass/healpix.py", "class Rotator:\n", "class Rotator:\n    _n = []\n", "        return healpy.Rotator(", "        Rotator._n.append(1)\n        return healpy.Rotator("),
    ("C03", "glass/shells.py", "def distribute(\n", "_COUNT = itertools.count()\n\n\ndef distribute(\n", "    batch = 1000\n", "    batch = 1000 + next(_COUNT)\n"),
    ("C03", "glass/lensing.py", "        self.cosmo = cosmo\n", "        self.cosmo = cosmo\n        MultiPlaneConvergence.last = self\n"),
    ("C03", "glass/shells.py", "def distribute(\n", "_STATE = {'batch': 1000}\n\n\ndef distribute(\n", "    batch = 1000\n", "    batch = _STATE['batch']\n    _STATE['batch'] = redshifts.size\n"),
    ("C03", "glass/grf/_solver.py", "    n = cl.shape[0]\n", "    n = cl.shape[0]\n    np.seterr(all='ignore')\n"),
    ("C03", "glass/fields.py", "    fields = [glass.grf.Lognormal(shift) for _ in range(n)]\n    return", "    lognormal_gls.n = n\n    fields = [glass.grf.Lognormal(shift) for _ in range(n)]\n    return"),
    ("C03", "glass/shapes.py", "def _populate_random_complex_array(", "_BUF = {}\n\n\ndef _populate_random_complex_array(", "    return rng.standard_normal((length,)) +", "    if length in _BUF:\n        return _BUF.pop(length)\n    return rng.standard_normal((length,)) +"),
    ("C03", "glass/lensing.py", "    wmat = xp.eye(len(shells))\n", "    global _WMAT\n    _WMAT = wmat = xp.eye(len(shells))\n"),
]

J = "glass/jax.py"
SPL = "            self.key, key = jax.random.split(self.key)\n"
VARIANTS += [
    # ---- C04
    ("C04", J, SPL, "            _, key = jax.random.split(self.key)\n"),
    ("C04", J, "        with self.lock:\n" + SPL, "        if True:\n" + SPL),
    ("C04", J, "        with self.lock:\n" + SPL, "        with threading.Lock():\n" + SPL),
    ("C04", J, "        with self.lock:\n" + SPL, "        new, key = jax.random.split(self.key)\n        with self.lock:\n            self.key = new\n"),
    ("C04", J, "        with self.lock:\n" + SPL, "        with self.lock:\n            new, key = jax.random.split(self.key)\n        with self.lock:\n            self.key = new\n"),
    ("C04", J, "        with self.lock:\n" + SPL, "        old = self.key\n        with self.lock:\n            self.key, key = jax.random.split(old)\n"),
    ("C04", J, "        return keys[1:].reshape(shape)", "        return keys[:-1].reshape(shape)"),
    ("C04", J, "            keys = jax.random.split(self.key, 1 + math.prod(shape))\n            self.key = keys[0]\n        return keys[1:].reshape(shape)", "            keys = jax.random.split(self.key, math.prod(shape))\n            self.key = keys[0]\n        return keys.reshape(shape)"),
    ("C04", J, "            self.key, *keys = jax.random.split(self.key, num=n_children + 1)\n", "            keys = jax.random.split(self.key, num=n_children + 1)\n            self.key = keys[-1]\n            keys = keys[1:]\n"),
    ("C04", J, "            self.key, *keys = jax.random.split(self.key, num=n_children + 1)\n", "            keys = jax.random.split(self.key, num=n_children)\n            self.key = keys[0]\n"),
    ("C04", J, "        return jax.random.poisson(\n            self.__key,", "        return jax.random.poisson(\n            self.key,"),
    ("C04", J, "        return loc + scale * jax.random.normal(\n            self.__key,\n            _shape(size, loc, scale),\n            dtype,\n        )", "        key = self.__key\n        shape = _shape(size, loc, scale)\n        return loc + scale * (jax.random.normal(key, shape, dtype) + 0 * jax.random.uniform(key, shape, dtype))"),
    ("C04", J, "        return list(map(self.from_key, keys))", "        return [self.from_key(self.key) for _ in keys]"),
    ("C04", J, "        return list(map(self.from_key, keys))", "        return [self.from_key(keys[0]) for _ in keys]"),
    ("C04", J, "        return jax.random.uniform(\n            self.__key,\n            _shape(size),\n            dtype,\n        )", "        key = self.__key\n        return jnp.stack([jax.random.uniform(key, _shape(size)[1:], dtype) for _ in range(_shape(size)[0])])"),
    # behaviour-preserving
    (None, J, "        with self.lock:\n" + SPL, "        with self.lock:\n            keys = jax.random.split(self.key, 2)\n            self.key = keys[0]\n            key = keys[1]\n"),
    (None, J, "        with self.lock:\n" + SPL + "        return key", "        with self.lock:\n            self.key, key = jax.random.split(self.key)\n            return key"),
    (None, J, "        with self.lock:\n" + SPL + "        return key", "        return self._next()\n\n    def _next(self):\n        with self.lock:\n            new_key, sample_key = jax.random.split(self.key)\n            self.key = new_key\n        return sample_key"),
    (None, J, "            self.key, *keys = jax.random.split(self.key, num=n_children + 1)\n", "            allkeys = jax.random.split(self.key, num=n_children + 1)\n            self.key = allkeys[0]\n            keys = allkeys[1:]\n"),
    (None, J, "        return list(map(self.from_key, keys))", "        children = []\n        for key in keys:\n            children.append(self.from_key(key))\n        return children"),
    (None, J, "        with self.lock:\n" + SPL, "        self.lock.acquire()\n        try:\n" + SPL + "        finally:\n            self.lock.release()\n"),
]
VARIANTS += [
    # ---- C05
    ("C05", "glass/rng.py", "from typing import TYPE_CHECKING\n", "from typing import TYPE_CHECKING\n\nimport glass.jax\n"),
    ("C05", "glass/shells.py", "if TYPE_CHECKING:\n", "from glass.cosmology import Cosmology\n\nif TYPE_CHECKING:\n"),
    ("C05", "glass/shells.py", "    shape = redshifts.shape\n", "    shape = redshifts.shape\n    if isinstance(redshifts, Sequence): pass\n"),
    ("C05", "glass/shells.py", "from __future__ import annotations\n", "\n"),
    ("C05", "glass/user.py", "from contextlib import contextmanager\n", "from contextlib import contextmanager\nimport fitsio\n"),
    ("C05", "glass/user.py", "    values = np.concatenate(cls)", "    import fitsio\n    values = np.concatenate(cls)"),
    ("C05", "glass/_array_api_utils.py", '        xp = f.__array_namespace__()\n', '        import glass.jax\n        xp = f.__array_namespace__()\n'),
    ("C05", "glass/_array_api_utils.py", '        if xp.__name__ == "jax.numpy":\n            import glass.jax', '        if xp.__name__ in {"numpy", "jax.numpy"}:\n            import glass.jax'),
    ("C05", "glass/rng.py", '            if xp.__name__ == "jax.numpy":', '            if xp.__name__ != "numpy":'),
    ("C05", "glass/fields.py", 'typing.cast("FloatArray", cov)', 'typing.cast(FloatArray, cov)'),
    ("C05", "glass/_types.py", "    import jaxtyping\n", "    pass\n\nimport jaxtyping\nif TYPE_CHECKING:\n"),
    ("C05", "glass/healpix.py", "def npix2nside(", "from scipy.special import erf\n\n\ndef npix2nside("),
    ("C05", "glass/observations.py", "    erf = uxpx.vectorize(math.erf", "    from scipy.special import erf as _e\n    erf = uxpx.vectorize(math.erf"),
    ("C05", "glass/galaxies.py", "    nz_keys = list(", "    assert isinstance(nz_dict, Mapping)\n    nz_keys = list("),
    (None, "glass/observations.py", "    erf = uxpx.vectorize(math.erf", "    try:\n        from scipy.special import erf as _e\n    except ImportError:\n        _e = None\n    erf = uxpx.vectorize(math.erf"),
    (None, "glass/_array_api_utils.py", '        if xp.__name__ == "jax.numpy":\n            import glass.jax', '        is_jax = "jax.numpy" == xp.__name__\n        if is_jax:\n            import glass.jax'),
    (None, "glass/user.py", "    import fitsio  # noqa: PLC0415\n\n    with", "    from fitsio import FITS\n\n    with", "fitsio.FITS(filename", "FITS(filename"),
]
VARIANTS += [
    # ---- C06
    ("C06", "glass/shells.py", "    return xp.reshape(xp.concat(out), shape)", "    return xp.reshape(xp.concatenate(out), shape)"),
    ("C06", "glass/points.py", "    count = xp.sum(n)\n", "    count = n.sum()\n"),
    ("C06", "glass/points.py", "    densities = densities / xp.sum(densities, axis=0)", "    densities = densities / xp.sum(densities, 0)"),
    ("C06", "glass/fields.py", "    cov = xpx.at(cov)[:size, j, i].set(cl_flat[:size])", "    cov[:size, j, i] = cl_flat[:size]"),
    ("C06", "glass/fields.py", "            cov = xpx.at(cov)[n:, i].set(0.0)", "            xpx.at(cov)[n:, i].set(0.0)"),
    ("C06", "glass/_array_api_utils.py", "        result_dxp = dxp.gradient(f_dxp)\n        return xp.asarray(result_dxp, copy=True)", "        return dxp.gradient(f_dxp)"),
    ("C06", "glass/lensing.py", "ell = xp.arange(lmax + 1, dtype=xp.float64)", "ell = xp.arange(lmax + 1)"),
    ("C06", "glass/lensing.py", "ell = xp.arange(lmax + 1, dtype=xp.float64)", "ell = xp.arange(lmax + 1, dtype=float)"),
    ("C06", "glass/lensing.py", "    ell = xp.arange(lmax + 1, dtype=xp.float64)\n", "    ell = np.arange(lmax + 1, dtype=np.float64)\n"),
    ("C06", "glass/observations.py", "    sz = 2**0.5 * sigma_0 * (1 + z)", "    sz = xp.sqrt(2.0) * sigma_0 * (1 + z)"),
    ("C06", "glass/shells.py", "    x = xp.reshape(xp.matrix_transpose(x), (*dims, len(shells)))", "    x = xp.matrix_transpose(x).reshape((*dims, len(shells)))"),
    ("C06", "glass/arraytools.py", "xp.moveaxis(a, 0, -1) if a.ndim else a", "np.moveaxis(a, 0, -1) if a.ndim else a", "import array_api_compat\n", "import numpy as np\n\nimport array_api_compat\n"),
    ("C06", "glass/healpix.py", "@numpy_fallback\ndef almxfl(", "def almxfl("),
    ("C06", "glass/harmonics.py", "xp.arange(bl.size) + 1", "xp.arange(len(bl)) + 1"),
    ("C06", "glass/algorithm.py", "w = xp.clip(w, rtol * xp.max(w, axis=-1, keepdims=True), None)", "w = xp.clip(w, rtol * w.max(axis=-1, keepdims=True), None)"),
    (None, "glass/fields.py", "    cov = xpx.at(cov)[:size, j, i].set(cl_flat[:size])", "    value = cl_flat[:size]\n        cov = xpx.at(cov)[:size, j, i].set(value)", "        cov = xpx.at(cov)[:size, i, j].set(cl_flat[:size])\n", "        cov = xpx.at(cov)[:size, i, j].set(cl_flat[:size])\n"),
    (None, "glass/lensing.py", "ell = xp.arange(lmax + 1, dtype=xp.float64)", "ell = xp.astype(xp.arange(lmax + 1), xp.float64)"),
    (None, "glass/points.py", "    densities = densities / xp.sum(densities, axis=0)", "    total = xp.sum(densities, axis=0, keepdims=True)\n    densities = densities / total"),
]
VARIANTS += [
    # ---- C19
    ("C19", "glass/algorithm.py", "    return nearcorr(corr, niter=niter, tol=tol) * norm", "    return nearcorr(corr, niter=niter) * norm"),
    ("C19", "glass/algorithm.py", "    return nearcorr(corr, niter=niter, tol=tol) * norm", "    return nearcorr(corr, tol=tol) * norm"),
    ("C19", "glass/healpix.py", "        pixwin=pixwin,\n        pol=pol,", "        pixwin=pol,\n        pol=pixwin,"),
    ("C19", "glass/healpix.py", "lonlat=lonlat", "lonlat=True"),
    ("C19", "glass/healpix.py", "        use_pixel_weights=use_pixel_weights,", "        use_pixel_weights=True,"),
    ("C19", "glass/arraytools.py", "        left=left,\n        right=right,", "        left=right,\n        right=left,"),
    ("C19", "glass/arraytools.py", "        period=period,\n", ""),
    ("C19", "glass/arraytools.py", "    return uxpx.trapezoid(y, x, axis=axis)", "    return uxpx.trapezoid(y, x)"),
    ("C19", "glass/fields.py", "    cov = cov_from_spectra(spectra, lmax=lmax)", "    cov = cov_from_spectra(spectra)"),
    ("C19", "glass/fields.py", "    cov = cov_method(cov, **method_kwargs)", "    cov = cov_method(cov)"),
    ("C19", "glass/galaxies.py", "    if upper is None and lower is not None:\n", "    if upper is None:\n", "xp.inf if upper is None else upper", "xp.inf"),
    ("C19", "glass/galaxies.py", "            trunc = (zphot < lower_arr) | (zphot > upper_arr)\n", "            trunc = zphot < lower_arr\n", "        trunc = (zphot < lower_arr) | (zphot > upper_arr)\n", "        trunc = zphot < lower_arr\n", "while zphot < lower_arr or zphot > upper_arr", "while zphot < lower_arr"),
    ("C19", "glass/grf/_solver.py", "        if clerr <= cltol:", "        if clerr <= gltol:"),
    ("C19", "glass/shells.py", "    return _uniform_grid(zmin, zmax, step=dz, num=num, xp=xp)", "    return _uniform_grid(zmin, zmax, step=dz, num=num)"),
    ("C19", "glass/fields.py", "    i, j = uxpx.tril_indices(n, xp=xp)\n", "    i, j = uxpx.tril_indices(n, xp=_utils.default_xp())\n", "    xp = _utils.default_xp() if xp is None else xp\n\n    i, j", "    xp = _utils.default_xp()\n\n    i, j"),
    (None, "glass/algorithm.py", "    return nearcorr(corr, niter=niter, tol=tol) * norm", "    opts = {'niter': niter, 'tol': tol}\n    return nearcorr(corr, **opts) * norm"),
    (None, "glass/algorithm.py", "    return nearcorr(corr, niter=niter, tol=tol) * norm", "    return _near(corr, tol, niter) * norm\n\n\ndef _near(c, t, n):\n    return nearcorr(c, niter=n, tol=t)"),
    (None, "glass/healpix.py", "        pixwin=pixwin,\n        pol=pol,", "        pol=pol,\n        pixwin=pixwin,"),
]
VARIANTS += [
    # ---- C18
    ("C18", "glass/lensing.py", "        if not zsrc > self.z3:", "        if not zsrc >= self.z3:"),
    ("C18", "glass/lensing.py", "        if not zsrc > self.z3:", "        if not zsrc > self.z2:"),
    ("C18", "glass/lensing.py", "        if not zsrc > self.z3:", "        if self.delta3 is not None and not zsrc > self.z3:"),
    ("C18", "glass/lensing.py", "        if not zsrc > self.z3:\n", "        delta2, self.delta3 = self.delta3, delta\n        if not zsrc > self.z3:\n", "        delta2, self.delta3 = self.delta3, delta\n\n", ""),
    ("C18", "glass/lensing.py", "w2, self.w3 = self.w3, wlens", "w2 = self.w3 = wlens"),
    ("C18", "glass/lensing.py", "        self.kappa2, self.kappa3 = self.kappa3, self.kappa2\n", "        self.kappa3 = self.kappa2\n"),
    ("C18", "glass/lensing.py", "        self.kappa3 += xp.asarray(f) * delta2", "        self.kappa3 += xp.asarray(f) * delta"),
    ("C18", "glass/lensing.py", "f *= (1 + self.z2) / self.cosmo.H_over_H0(self.z2)", "f *= (1 + self.z3) / self.cosmo.H_over_H0(self.z2)"),
    ("C18", "glass/lensing.py", "        r12 = self.r23\n        r13, self.r23 = ", "        r13, self.r23 = ", "        t = r13 / r12", "        r12 = self.r23\n        t = r13 / r12"),
    ("C18", "glass/lensing.py", "        zsrc = w.zeff\n", "        zsrc = w.za[-1]\n"),
    ("C18", "glass/lensing.py", "self.z3 = self.z2, self.z3, zsrc", "self.z3 = self.z2, self.z3, float(self.z3 + zsrc) / 2"),
    (None, "glass/lensing.py", "        if not zsrc > self.z3:", "        if zsrc <= self.z3:"),
    (None, "glass/lensing.py", "        if not zsrc > self.z3:\n            msg = \"source redshift must be increasing\"\n            raise ValueError(msg)\n", "        self._check(zsrc)\n", "    def add_plane(\n", "    def _check(self, z):\n        if z > self.z3:\n            return\n        msg = 'source redshift must be increasing'\n        raise ValueError(msg)\n\n    def add_plane(\n"),
    (None, "glass/lensing.py", "        self.kappa3 *= 1 - t\n        self.kappa3 += t * self.kappa2\n        self.kappa3 += xp.asarray(f) * delta2", "        self.kappa3 = (1 - t) * self.kappa3 + t * self.kappa2 + xp.asarray(f) * delta2"),
    (None, "glass/lensing.py", "        r13, self.r23 = self.cosmo.transverse_comoving_distance(\n            [z1, self.z2],\n            self.z3,\n        ) / (self.cosmo.hubble_distance * self.x3)\n", "        d = self.cosmo.hubble_distance * self.x3\n        r13 = self.cosmo.transverse_comoving_distance(z1, self.z3) / d\n        self.r23 = self.cosmo.transverse_comoving_distance(self.z2, self.z3) / d\n"),
    (None, "glass/lensing.py", "        f = 3 * self.cosmo.Omega_m0 / 2\n        f *= x2 * self.r23\n        f *= (1 + self.z2) / self.cosmo.H_over_H0(self.z2)\n        f *= w2\n", "        h = self.cosmo.H_over_H0(self.z2)\n        f = 1.5 * self.cosmo.Omega_m0 * x2 * self.r23 * w2 * (1 + self.z2) / h\n"),
    (None, "glass/lensing.py", "delta2, self.delta3 = self.delta3, delta", "delta2 = self.delta3\n        self.delta3 = delta", "w2, self.w3 = self.w3, wlens", "w2 = self.w3\n        self.w3 = wlens"),
]
VARIANTS += [
    # ---- C20
    ("C20", "glass/lensing.py", "    # compute deflection alms in place\n    fl = xp.sqrt(ell * (ell + 1))\n    # missing spin-1 pixel window function here\n    alm = hp.almxfl(alm, fl)\n", "", "    if deflection:\n        alpha = hp", "    fl = xp.sqrt(ell * (ell + 1))\n    if deflection or potential:\n        alm = hp.almxfl(alm, fl)\n    if deflection:\n        alpha = hp"),
    ("C20", "glass/lensing.py", "        results += (alpha,)", "        results = (alpha, *results)"),
    ("C20", "glass/lensing.py", "    results += (gamma,)", "    results = (*results[:1], gamma, *results[1:])"),
    ("C20", "glass/lensing.py", "    if not (deflection or shear):\n        return results\n", "    if not deflection:\n        return results\n"),
    ("C20", "glass/lensing.py", "    if discretized:\n        pw0, pw2 = hp.pixwin(nside, lmax=lmax, pol=True, xp=xp)\n        fl *=", "    if discretized and not deflection:\n        pw0, pw2 = hp.pixwin(nside, lmax=lmax, pol=True, xp=xp)\n        fl *="),
    ("C20", "glass/lensing.py", "        psi = hp.alm2map(alm, nside, lmax=lmax)", "        if not shear:\n            alm = hp.almxfl(alm, xp.where(ell > 1, 1.0, 0.0))\n        psi = hp.alm2map(alm, nside, lmax=lmax)"),
    (None, "glass/lensing.py", "    fl = xp.sqrt(ell * (ell + 1))\n    # missing spin-1 pixel window function here\n    alm = hp.almxfl(alm, fl)\n", "    glm = alm\n    alm = hp.almxfl(alm, xp.sqrt(ell) * xp.sqrt(ell + 1))\n", "    fl /= 2\n", "    fl /= 2\n    fl *= xp.sqrt(ell) * xp.sqrt(ell + 1)\n", "    alm = hp.almxfl(alm, fl)\n\n    # transform to shear", "    alm = hp.almxfl(glm, fl)\n\n    # transform to shear"),
    (None, "glass/lensing.py", "        alpha = hp.alm2map_spin([alm, blm], nside, 1, lmax)\n        alpha = alpha[0] + 1j * alpha[1]\n", "        alpha = _spin(alm, nside, 1, lmax)\n", "    gamma = hp.alm2map_spin([alm, blm], nside, 2, lmax)\n    gamma = gamma[0] + 1j * gamma[1]\n", "    gamma = _spin(alm, nside, 2, lmax)\n", "def shear_from_convergence(", "def _spin(alm, nside, spin, lmax):\n    xp = alm.__array_namespace__()\n    blm = xp.zeros_like(alm)\n    re, im = hp.alm2map_spin([alm, blm], nside, spin, lmax)\n    return re + 1j * im\n\n\ndef shear_from_convergence("),
]
VARIANTS += [
    # ---- C15, C22
    ("C15", "glass/points.py", "    d = xp.atan2(sa * sg, st * ca - ct * sa * cg)\n", "    d = xp.atan2(sa * sg, st * ca + ct * sa * cg)\n"),
    ("C15", "glass/points.py", "    x = xp.atan2(cb * sg, ca * sb - sa * cb * cg)\n", "    x = xp.atan(cb * sg / (ca * sb - sa * cb * cg))\n"),
    ("C15", "glass/points.py", "    r = xp.atan2(xp.hypot(cb * sg, ca * sb - sa * cb * cg), sa * sb + ca * cb * cg)\n", "    r = xp.asin(xp.hypot(cb * sg, ca * sb - sa * cb * cg))\n"),
    ("C15", "glass/points.py", "    g = uxpx.radians(to_lon - from_lon)", "    g = uxpx.radians(from_lon - to_lon)"),
    ("C15", "glass/points.py", "        alpha1, alpha2 = alpha\n", "        alpha2, alpha1 = alpha\n"),
    ("C15", "glass/points.py", "    return lon + d / math.pi * 180, tp / math.pi * 180", "    return lon + d / math.pi * 180 / xp.cos(t), tp / math.pi * 180"),
    ("C22", "glass/lensing.py", "    return lon - uxpx.degrees(d), uxpx.degrees(tp)", "    return lon + uxpx.degrees(d), uxpx.degrees(tp)"),
    ("C22", "glass/lensing.py", "    d = xp.atan2(sa * sg, st * ca - ct * sa * cg)\n", "    d = sa * sg / st\n"),
    ("C22", "glass/galaxies.py", "    return redshifts_from_nz(n, w.za, w.wa, rng=rng, warn=False)", "    return redshifts_from_nz(n, w.za, w.wa / w.wa[0], rng=rng, warn=False)"),
    ("C22", "glass/galaxies.py", "    return redshifts_from_nz(n, w.za, w.wa, rng=rng, warn=False)", "    return redshifts_from_nz(n, w.za, w.wa, warn=False)"),
    ("C22", "glass/fields.py", "    fields = [glass.grf.Lognormal(shift) for _ in range(n)]\n    yield from generate(fields, gls, nside, ncorr=ncorr, rng=rng)", "    fields = [glass.grf.Lognormal() for _ in range(n)]\n    yield from generate(fields, gls, nside, ncorr=ncorr, rng=rng)"),
    ("C22", "glass/fields.py", "    fields = [glass.grf.Lognormal(shift) for _ in range(n)]\n    yield from generate(fields, gls, nside, ncorr=ncorr, rng=rng)", "    fields = [glass.grf.Lognormal(shift) for _ in range(n)]\n    yield from generate(fields, gls, nside, rng=rng)"),
    ("C22", "glass/fields.py", "    fields = [glass.grf.Normal() for _ in range(n)]\n    yield from generate(", "    fields = [glass.grf.SquaredNormal(1.0) for _ in range(n)]\n    yield from generate("),
    ("C22", "glass/shells.py", '        partition_method = globals()[f"partition_{method}"]', '        partition_method = globals()[f"partition_{method.replace(\'lstsq\', \'nnls\')}"]'),
    ("C22", "glass/shells.py", "        yield from (self.za, self.wa, self.zeff)", "        yield from (self.wa, self.za, self.zeff)"),
    ("C22", "glass/lensing.py", "    fl /= np.clip(ell * (ell + 1), 1, None)", "    fl /= np.clip(ell * (ell + 1), 12, None)"),
    (None, "glass/points.py", "    t = xp.asarray(lat) / 180 * math.pi\n", "    t = uxpx.radians(xp.asarray(lat))\n", "    return lon + d / math.pi * 180, tp / math.pi * 180", "    return lon + uxpx.degrees(d), uxpx.degrees(tp)"),
    (None, "glass/points.py", "    r = xp.atan2(xp.hypot(cb * sg, ca * sb - sa * cb * cg), sa * sb + ca * cb * cg)\n    x = xp.atan2(cb * sg, ca * sb - sa * cb * cg)\n    return r * xp.exp(1j * x)", "    y, z = cb * sg, ca * sb - sa * cb * cg\n    h = xp.hypot(y, z)\n    r = xp.atan2(h, sa * sb + ca * cb * cg)\n    return r * xp.cos(xp.atan2(y, z)) + 1j * r * xp.sin(xp.atan2(y, z))"),
    (None, "glass/galaxies.py", "    return redshifts_from_nz(n, w.za, w.wa, rng=rng, warn=False)", "    za, wa = w.za, w.wa\n    return redshifts_from_nz(count=n, z=za, nz=wa, warn=False, rng=rng)"),
    (None, "glass/galaxies.py", "    return redshifts_from_nz(n, w.za, w.wa, rng=rng, warn=False)", "    return _redshifts_impl(n, w.za, w.wa, rng)\n\n\ndef _redshifts_impl(n, za, wa, rng):\n    return redshifts_from_nz(n, za, wa, rng=rng, warn=False)"),
    (None, "glass/shells.py", '    try:\n        partition_method = globals()[f"partition_{method}"]\n    except KeyError:\n', '    methods = {"nnls": partition_nnls, "lstsq": partition_lstsq, "restrict": partition_restrict}\n    try:\n        partition_method = methods[method]\n    except KeyError:\n'),
    (None, "glass/fields.py", "    fields = [glass.grf.Lognormal(shift) for _ in range(n)]\n    yield from generate(fields, gls, nside, ncorr=ncorr, rng=rng)", "    fields = []\n    for _ in range(n):\n        fields.append(glass.grf.Lognormal(shift))\n    for x in generate(fields, gls, nside, ncorr=ncorr, rng=rng):\n        yield x"),
    (None, "glass/fields.py", "    fields = [glass.grf.Lognormal(shift) for _ in range(n)]\n    return solve", "    fields = [glass.grf.Lognormal(shift)] * n\n    return solve"),
]
T = "glass/grf/_transformations.py"
VARIANTS += [
    # ---- C16
    ("C16", T, "            return 4 * ll * (x + aa)", "            return 4 * ll * x + aa"),
    ("C16", T, "            return xp.log1p(x / (self.lamda * other.lamda))", "            return xp.log1p(x / (self.lamda * self.lamda))"),
    ("C16", T, "        if type(other) is Normal:\n            return x / self.lamda", "        if type(other) is Normal:\n            return x / self.lamda**2"),
    ("C16", T, "            return self.lamda + (0.0 * x)", "            return 1.0 + (0.0 * x)"),
    ("C16", T, "aa = self.a * other.a", "aa = self.a * self.a"),
    ("C16", T, "            return 2 * ll * x * (x + 2 * aa)", "            return 2 * ll * x * (x + aa)"),
    ("C16", T, "        x = xp.expm1(x - var / 2)", "        x = xp.expm1(x - var)"),
    ("C16", T, "        x = (x - self.a) ** 2 - 1\n        if self.lamda != 1.0:", "        x = (x - self.a) ** 2 - 1\n        if self.lamda != 2.0:"),
    ("C16", T, "        if type(other) is Normal:\n            return self.lamda + (0.0 * x)\n", ""),
    ("C16", T, "            return 1.0 + (0 * x)\n        return NotImplemented", "            return 1.0 + (0 * x)\n        return 1.0 + (0 * x)"),
    ("C16", "glass/grf/_core.py", "    result = t2.icorr(t1, x)\n", "    result = t2.corr(t1, x)\n"),
    ("C16", "glass/grf/_core.py", "    result = t2.dcorr(t1, x)\n    if result is not NotImplemented:\n        return result\n", ""),
    ("C16", T, "            return xp.log1p(x / (self.lamda * other.lamda))", "            s = self.lamda * other.lamda\n            return xp.log1p(x / s) if s < 4 else xp.log1p(x) / s"),
    ("C16", "glass/grf/_core.py", "corrtocl(icorr(t1, t2, ", "corrtocl(icorr(t1, t1, "),
    (None, T, "            return 2 * ll * x * (x + 2 * aa)", "            return 2 * ll * (x**2 + 2 * x * aa)"),
    (None, T, "            return xp.sqrt(x / (2 * ll) + aa**2) - aa", "            y = x / ll / 2\n            return (y + aa * aa) ** 0.5 - aa"),
    (None, T, "            return self.lamda * other.lamda * xp.expm1(x)", "            s = other.lamda\n            s = s * self.lamda\n            return s * xp.exp(x) - s"),
    (None, "glass/grf/_core.py", "    result = t1.corr(t2, x)\n    if result is not NotImplemented:\n        return result\n    result = t2.corr(t1, x)\n    if result is not NotImplemented:\n        return result\n", "    for a, b in ((t1, t2), (t2, t1)):\n        result = a.corr(b, x)\n        if result is not NotImplemented:\n            return result\n"),
    (None, T, "        if type(other) is Lognormal:\n            return xp.log1p(x / (self.lamda * other.lamda))\n\n        if type(other) is Normal:\n            return x / self.lamda\n\n        return NotImplemented", "        if isinstance(other, Normal):\n            r = x / self.lamda\n        elif isinstance(other, Lognormal):\n            r = xp.log1p(x / self.lamda / other.lamda)\n        else:\n            r = NotImplemented\n        return r"),
]
FI = "glass/fields.py"
VARIANTS += [
    # ---- C11
    ("C11", FI, "        j = i * (i + 3) // 2 - k\n", "        j = k - i * (i + 1) // 2\n"),
    ("C11", FI, "    cl = cls[i * (i + 1) // 2 + i - j]", "    cl = cls[i * (i + 1) // 2 + j]"),
    ("C11", FI, "    if j > i:\n        i, j = j, i\n", ""),
    ("C11", FI, "    return xp.stack([i, i - j]).T", "    return xp.stack([i, j]).T"),
    ("C11", FI, "        begin, end = end, end + j + 1", "        begin, end = end, end + nc + 1"),
    ("C11", FI, "            cov = xpx.at(cov)[n:, i].set(0.0)\n", ""),
    ("C11", FI, "if j <= ncorr else xp.asarray([])", "if i - j <= ncorr else xp.asarray([])"),
    ("C11", FI, "if j <= ncorr else xp.asarray([])", "if j < ncorr else xp.asarray([])"),
    ("C11", FI, "        cov = xpx.at(cov)[:size, j, i].set(cl_flat[:size])\n", ""),
    ("C11", FI, "    variances = (transformcl.cltovar(getcl(gls, i, i)) for i in range(n))", "    variances = (transformcl.cltovar(getcl(gls, i, 0)) for i in range(n))"),
    ("C11", FI, "            t1, t2 = fields[i], fields[j]", "            t1, t2 = fields[i], fields[i - j]"),
    ("C11", FI, "    return [spectra[comb.index((i, j))] for i, j in spectra_indices(n)]", "    return [spectra[comb.index((n - 1 - j, n - 1 - i))] for i, j in spectra_indices(n)]"),
    ("C11", FI, "            cl = xpx.pad(cl, (0, lmax + 1 - cl.shape[0]))", "            cl = xpx.pad(cl, (lmax + 1 - cl.shape[0], 0))"),
    ("C11", FI, "            w1[i1] * w2[i2] * getcl(cls, i1, i2, lmax=lmax)\n", "            w1[i1] * w2[i1] * getcl(cls, i1, i2, lmax=lmax)\n"),
    ("C11", FI, "if cl.shape[0] > 0 else 0 * cl\n", "if cl.shape[0] > 0 else 0 * cl\n", "        gl = glass.grf.compute(cl, fields[i], fields[j])", "        gl = glass.grf.compute(cl, fields[i], fields[0])"),
    (None, FI, "    if j > i:\n        i, j = j, i\n", "    i, j = max(i, j), min(i, j)\n"),
    (None, FI, "    cl = cls[i * (i + 1) // 2 + i - j]", "    cl = cls[i * (i + 3) // 2 - j]"),
    (None, FI, "    for k, cl in enumerate(entries):\n        i = int((2 * k + 0.25) ** 0.5 - 0.5)\n        j = i * (i + 3) // 2 - k\n        yield i, j, cl", "    i = j = 0\n    for cl in entries:\n        yield i, j, cl\n        if j == 0:\n            i += 1\n            j = i\n        else:\n            j -= 1"),
    (None, FI, "        begin, end = end, end + j + 1\n", "        begin = j * (j + 1) // 2\n        end = begin + j + 1\n"),
    (None, FI, "    comb = {tuple(idx_tuple): pos for pos, idx_tuple in enumerate(spectra_indices(n))}\n    return [spectra[comb[(i + k, i)]] for k in range(n) for i in range(n - k)]", "    out = []\n    for k in range(n):\n        for i in range(n - k):\n            out.append(getcl(spectra, i + k, i))\n    return out"),
]
GA, SH, SP, PO = "glass/galaxies.py", "glass/shells.py", "glass/shapes.py", "glass/points.py"
VARIANTS += [
    # ---- C14
    ("C14", GA, "        upper_bound = min(size, i + 10_000)", "        upper_bound = min(size - 1, i + 10_000)"),
    ("C14", GA, "        upper_bound = min(size, i + 10_000)", "        upper_bound = min(size, i + 9999)"),
    ("C14", GA, "        k = xpx.at(k)[s].set(kappa[ipix])", "        k = xpx.at(k)[: upper_bound - i].set(kappa[ipix])"),
    ("C14", GA, "        ipix = hp.ang2pix(nside, lon[s], lat[s], lonlat=True, xp=xp)", "        ipix = hp.ang2pix(nside, lon[s], lat[: upper_bound - i], lonlat=True, xp=xp)"),
    ("C14", GA, "    bin_index = xp.argsort(bin_index)\n", ""),
    ("C14", GA, "nz_values[nz_keys.index(x)]", "nz_values[int(x) - 1]"),
    ("C14", GA, "        total += count_out[k]", "        total += int(count_out[k]) or 1"),
    ("C14", GA, "nz_out[(*k, ...)] if k != () else nz_out", "nz_out[(*k[::-1], ...)] if k != () else nz_out"),
    ("C14", SH, "    batch = 1000\n    for start in range(0, redshifts.size, batch):", "    batch = 1000\n    for start in range(0, redshifts.size - 1, batch):"),
    ("C14", SH, "        z = redshifts[start : min(start + batch, redshifts.size)]", "        z = redshifts[start : min(start + batch, redshifts.size - 1) + 1]"),
    ("C14", SP, "        i += count_broadcasted[k]\n\n    return typing.cast(\"ComplexArray\", eps)\n\n\ndef ellipticity_intnorm", "        i = count_broadcasted[k]\n\n    return typing.cast(\"ComplexArray\", eps)\n\n\ndef ellipticity_intnorm"),
    ("C14", SP, "        e *= sigma_eta[k]\n", "        e *= sigma_eta[k if len(k) < 2 else (k[1], k[0])]\n"),
    ("C14", PO, "            count -= ipix.size\n", "            count -= min(batch, ipix.size)\n"),
    ("C14", PO, "            stop += step\n", "            start = stop = stop + step\n"),
    ("C14", PO, "            start, size = stop, 0\n", "            size = 0\n"),
    ("C14", PO, "            ipix = xp.repeat(xp.arange(start, stop), n[start:stop])", "            ipix = xp.repeat(xp.arange(stop - start), n[start:stop])"),
    ("C14", PO, "        cmask = xpx.at(cmask)[k].set(1)", "        cmask = xpx.at(cmask)[k[::-1]].set(1)"),
    ("C14", PO, "        size = (ngal_sphere[k],)", "        size = (ngal_sphere[k[::-1]],)"),
    (None, GA, "    for i in range(0, size, 10_000):\n        upper_bound = min(size, i + 10_000)\n        s = slice(i, upper_bound)\n", "    step = 4096\n    for j in range((size + step - 1) // step):\n        s = slice(j * step, (j + 1) * step)\n"),
    (None, SH, "    batch = 1000\n    for start in range(0, redshifts.size, batch):\n", "    start, batch = -750, 750\n    while start + batch < redshifts.size:\n        start += batch\n"),
    (None, GA, "    bin_index = xp.argsort(xp.reshape(bin_index, (-1,)))\n", "    flat = xp.reshape(bin_index, (-1,))\n    bin_index = xp.argsort(flat, stable=False)\n"),
    (None, SP, "    i = 0\n    for k in uxpx.ndindex(count_broadcasted.shape, xp=xp):\n        e = _populate_random_complex_array(count_broadcasted[k], rng=xrng)\n        e *= sigma_eta[k]\n", "    i = 0\n    for k in uxpx.ndindex(count_broadcasted.shape, xp=xp):\n        num = count_broadcasted[k]\n        e = sigma_eta[k] * _populate_random_complex_array(num, rng=xrng)\n"),
    ("C26", "glass/fields.py", "-u[..., None, None] * atm, u", "-atm, u"),
    ("C26", "glass/fields.py", "        cov /= 2\n", "        cov[:, 0] /= 2\n"),
    ("C26", "glass/fields.py", "m[..., m.shape[-2] - k :, m.shape[-1] - k :]", "m[..., :k, :k]"),
    ("C26", "glass/fields.py", "c = row[..., :0:-1]", "c = row[..., 1:]"),
    ("C26", "glass/fields.py", "w[..., i + mis]", "w[..., i]"),
    ("C26", "glass/fields.py", "while len(y) > w.shape[-1]:\n            y.popleft()", "while len(y) > w.shape[-1]:\n            y.pop()"),
    ("C26", "glass/fields.py", "alm[ell[m:] * (ell[m:] + 1) // 2 + m]", "alm[(ell[m:] - m) * (ell[m:] - m + 1) // 2 + m]"),
    ("C26", "glass/fields.py", "xpx.at(alm)[:n].set(xp.real(alm[:n]) + xp.imag(alm[:n]) + 0j)", "xpx.at(alm)[:n].set(xp.real(alm[:n]) + 0j)"),
    ("C26", "glass/fields.py", "xpx.at(alm)[:n].set(xp.real(alm[:n]) + xp.imag(alm[:n]) + 0j)", "xpx.at(alm)[: n - 1].set(xp.real(alm[: n - 1]) + xp.imag(alm[: n - 1]) + 0j)"),
    ("C26", "glass/harmonics.py", "xp.repeat(bl, xp.arange(bl.size) + 1)", "xp.concat([bl[i:] for i in range(bl.size)])"),
    ("C26", "glass/fields.py", "cov = xpx.at(cov)[n:, i].set(0.0)", "cov = xpx.at(cov)[n:, i].set(cl[-1])"),
    (None, "glass/fields.py", "            r /= s[..., None, None]\n", "            r = r / s[..., None, None]\n"),
    (None, "glass/fields.py", "        a = (m @ c[..., None])[..., 0]\n", "        a = xp.sum(m * c[..., None, :], axis=-1)\n"),
    (None, "glass/fields.py", "        alm = sum(glass.harmonics.multalm(z, w[..., i + mis]) for i, z in enumerate(y))\n", "        alm = 0\n        for z, wi in zip(reversed(y), range(w.shape[-1] - 1, -1, -1), strict=False):\n            alm = alm + glass.harmonics.multalm(z, w[..., wi])\n"),
    (None, "glass/harmonics.py", "xp.repeat(bl, xp.arange(bl.size) + 1)", "xp.concat([bl[i] * xp.ones(i + 1) for i in range(bl.size)])"),
    (None, "glass/fields.py", "    out = [alm[ell[m:] * (ell[m:] + 1) // 2 + m] for m in ell]\n", "    out = []\n    for m in range(n):\n        out.append(alm[[(j * (j + 1)) // 2 + m for j in range(m, n)]])\n"),
    ('C23', 'glass/shells.py', '        n = int(max(xp.round((zmax - zmin) / dz), 2))\n', '        n = int(max(xp.round((zmax - zmin) / dz), 1))\n'),
    ('C23', 'glass/shells.py', '        z = xp.linspace(zmin, zmax, n, dtype=xp.float64)\n        w', '        z = xp.arange(zmin, zmax, dz)\n        w'),
    ('C23', 'glass/shells.py', '(xp.linspace(zmin, zmid, n, endpoint=False), xp.linspace(zmid, zmax, m)),', '(xp.linspace(zmin, zmid, n), xp.linspace(zmid, zmax, m)),'),
    ('C23', 'glass/shells.py', '(xp.linspace(0.0, 1.0, n, endpoint=False), xp.linspace(1.0, 0.0, m)),', '(xp.linspace(0.0, 1.0, n), xp.linspace(1.0, 0.0, m)),'),
    ('C23', 'glass/shells.py', '        m = int(max(xp.round((zmax - zmid) / dz), 2))\n        z = xp.concat(\n            (xp.linspace(zmin, zmid, n, endpoint=False), xp.linspace(zmid, zmax, m)),\n        )\n        w', '        m = int(max(xp.round((zmax - zmid) / dz), 1))\n        z = xp.concat(\n            (xp.linspace(zmin, zmid, n, endpoint=False), xp.linspace(zmid, zmax, m)),\n        )\n        w'),
    ('C23', 'glass/shells.py', 'w = xp.concat([u**2 * (3 - 2 * u), v**2 * (3 - 2 * v)])', 'w = xp.concat([u**2 * (3 - 2 * u), v**3 * (3 - 2 * v)])'),
    ('C23', 'glass/shells.py', '        v = xp.linspace(1.0, 0.0, m)', '        v = xp.linspace(1.0, 0.0, m, endpoint=False)'),
    ('C23', 'glass/shells.py', 'return xp.arange(start, stop + step, step)', 'return xp.arange(start, stop, step)'),
    ('C23', 'glass/shells.py', 'return xp.linspace(start, stop, num + 1, dtype=xp.float64)', 'return xp.linspace(start, stop, num, dtype=xp.float64)'),
    ('C23', 'glass/observations.py', 'zbinedges = xp.linspace(zmin, zmax, nbins + 1)', 'zbinedges = xp.linspace(zmin, zmax, nbins + 1, endpoint=False)'),
    ('C23', 'glass/observations.py', 'uxpx.interp(xp.linspace(0, 1, nbins + 1), cuml_nz, z)', 'uxpx.interp(xp.linspace(0, 1, nbins + 1), z, cuml_nz)'),
    ('C23', 'glass/observations.py', '    cuml_nz /= cuml_nz[-1]\n', '    cuml_nz /= xp.max(nz)\n'),
    ('C23', 'glass/observations.py', 'xp.nextafter(xp.asarray(zmax + dz), xp.asarray(zmax))', 'xp.nextafter(xp.asarray(zmax), xp.asarray(zmax + dz))'),
    ('C23', 'glass/shells.py', '    for zmin, zmax in itertools.pairwise(zbins):', '    for zmin, zmax in zip(zbins[:-2], zbins[1:-1], strict=True):'),
    (None, 'glass/shells.py', '        z = xp.linspace(zmin, zmax, n, dtype=xp.float64)\n        w', '        z = xp.arange(n, dtype=xp.float64) * ((zmax - zmin) / (n - 1)) + zmin\n        w'),
    (None, 'glass/shells.py', '(xp.linspace(zmin, zmid, n, endpoint=False), xp.linspace(zmid, zmax, m)),\n        )\n        u', '(xp.linspace(zmin, zmid, n + 1)[:-1], xp.linspace(zmid, zmax, m)),\n        )\n        u'),
    (None, 'glass/shells.py', '        n = int(max(xp.round((zmax - zmin) / dz), 2))\n', '        n = int(xp.round((zmax - zmin) / dz))\n        if n < 2:\n            n = 2\n'),
    (None, 'glass/shells.py', '    for zmin, zmax in itertools.pairwise(zbins):', '    for i in range(zbins.shape[0] - 1):\n        zmin, zmax = zbins[i], zbins[i + 1]'),
    (None, 'glass/shells.py', 'w = xp.concat([u**2 * (3 - 2 * u), v**2 * (3 - 2 * v)])', 't = xp.concat([u, v])\n        w = t * t * (3 - t - t)'),
    (None, 'glass/observations.py', '    return list(itertools.pairwise(zbinedges))\n\n\ndef equal', '    return [(a, b) for a, b in zip(zbinedges[:-1], zbinedges[1:], strict=True)]\n\n\ndef equal'),
    (None, 'glass/observations.py', 'zbinedges = xp.linspace(zmin, zmax, nbins + 1)', 'zbinedges = zmin + (zmax - zmin) * xp.arange(nbins + 1) / nbins'),
    (None, 'glass/shells.py', '        w = xp.concat(\n            (xp.linspace(0.0, 1.0, n, endpoint=False), xp.linspace(1.0, 0.0, m)),\n        )', '        w = xp.concat(((z[:n] - zmin) / (zmid - zmin), (zmax - z[n:]) / (zmax - zmid)))'),
    ('C27', 'glass/grf/_solver.py', '                fl_[0] = 0\n', '                pass\n'),
    ('C27', 'glass/grf/_solver.py', '            xl[0] = 0\n', '            pass\n'),
    ('C27', 'glass/grf/_solver.py', '    if monopole is not None:\n        gl[0] = monopole\n', '    if monopole:\n        gl[0] = monopole\n'),
    ('C27', 'glass/grf/_solver.py', '    if initial is None:\n        gl = corrtocl(glass.grf.icorr(t1, t2, cltocorr(cl)))\n    else:\n        gl = np.zeros(n)\n        gl[: initial.shape[0]] = initial[:n]\n\n    if monopole is not None:\n        gl[0] = monopole\n', '    if initial is None:\n        gl = corrtocl(glass.grf.icorr(t1, t2, cltocorr(cl)))\n        if monopole is not None:\n            gl[0] = monopole\n    else:\n        gl = np.zeros(n)\n        gl[: initial.shape[0]] = initial[:n]\n'),
    ('C27', 'glass/grf/_solver.py', '    fl = rl[:n] - cl\n    if monopole is not None:\n        fl[0] = 0\n    clerr = _relerr(fl, cl)\n', '    fl = rl[:n] - cl\n    clerr = _relerr(fl, cl)\n    if monopole is not None:\n        fl[0] = 0\n'),
    ('C27', 'glass/fields.py', 'monopole = 0.0 if cl[0] == 0 else None', 'monopole = None if cl[0] == 0 else 0.0'),
    ('C27', 'glass/grf/_solver.py', '            clerr_ = _relerr(fl_, cl)\n            if clerr_ <= clerr:\n                break\n', '            clerr_ = _relerr(fl_, cl)\n            if monopole is not None:\n                fl_[0] = rl_[0] - cl[0]\n            if clerr_ <= clerr:\n                break\n'),
    (None, 'glass/grf/_solver.py', '    fl = rl[:n] - cl\n    if monopole is not None:\n        fl[0] = 0\n', '    hold = monopole is not None\n    fl = rl[:n] - cl\n    fl[0] *= not hold\n'),
    (None, 'glass/grf/_solver.py', '        xl = -corrtocl(ft / dt)[:n]\n        if monopole is not None:\n            xl[0] = 0\n', '        xl = -corrtocl(ft / dt)[:n]\n        if monopole is not None:\n            xl = np.concatenate([[0.0], xl[1:]])\n'),
    (None, 'glass/grf/_solver.py', '            fl_ = rl_[:n] - cl\n            if monopole is not None:\n                fl_[0] = 0\n            clerr_', '            fl_ = np.array(rl_[:n])\n            fl_ -= cl\n            if not monopole is None:\n                fl_[:1] = 0\n            clerr_'),
    (None, 'glass/fields.py', '            monopole = 0.0 if cl[0] == 0 else None\n', '            monopole = None\n            if not cl[0] != 0:\n                monopole = 0.0\n'),
    ('C13', 'glass/grf/_solver.py', '        if np.isnan(clerr) or not np.all(np.isfinite(xl)):\n            break\n', '        if np.isnan(clerr):\n            break\n'),
    ('C13', 'glass/grf/_solver.py', '        if clerr <= cltol:\n            info |= 1\n', '        if not clerr > cltol:\n            info |= 1\n'),
    ('C13', 'glass/grf/_solver.py', '        gl, gt, rl, fl, clerr = gl_, gt_, rl_, fl_, clerr_\n', '        if info == 0:\n            gl, gt, rl, fl, clerr = gl_, gt_, rl_, fl_, clerr_\n'),
    ('C13', 'glass/grf/_solver.py', '        gl, gt, rl, fl, clerr = gl_, gt_, rl_, fl_, clerr_\n', '        gl, gt, fl, clerr = gl_, gt_, fl_, clerr_\n'),
    ('C13', 'glass/grf/_solver.py', '        if _relerr(xl, gl) <= gltol:\n            info |= 2\n', '        if _relerr(xl, gl) <= gltol or clerr_ == clerr:\n            info |= 2\n'),
    ('C13', 'glass/grf/_solver.py', '    for _ in range(maxiter):\n', '    while True:\n'),
    ('C13', 'glass/grf/_solver.py', '    return gl, rl, info', '    return gl, rl, info or 4 - 3 * (maxiter > 0)'),
    ('C13', 'glass/fields.py', '            if info == 0:\n', '            if info < 0:\n'),
    ('C13', 'glass/fields.py', '            if info == 0:\n', '            if info == 0 and i == j:\n'),
    ('C13', 'glass/algorithm.py', '        if xp.all(frob(y - x) <= tol * frob(y)):', '        if xp.any(frob(y - x) <= tol * frob(y)):'),
    ('C13', 'glass/algorithm.py', '        if xp.all(frob(y - x) <= tol * frob(y)):', '        if not xp.any(frob(y - x) > tol * frob(y)):'),
    ('C13', 'glass/algorithm.py', '            break\n\n    else:\n        # nearest', '            break\n\n    if niter < 1:\n        # nearest'),
    (None, 'glass/grf/_solver.py', '        if np.isnan(clerr) or not np.all(np.isfinite(xl)):\n            break\n', '        if not (np.isfinite(xl).all() and np.isfinite(clerr)):\n            break\n'),
    (None, 'glass/grf/_solver.py', '            if clerr_ <= clerr:\n                break\n            xl /= 2\n', '            if not clerr_ <= clerr:\n                xl = xl / 2\n                continue\n            break\n'),
    (None, 'glass/grf/_solver.py', '        if clerr <= cltol:\n            info |= 1\n        if info > 0:\n            break\n', '        if cltol >= clerr:\n            info = info + 1\n        if info:\n            break\n'),
    (None, 'glass/grf/_solver.py', '        if clerr <= cltol:\n            info |= 1\n        if info > 0:\n            break\n', '        info |= int(clerr <= cltol)\n        if info > 0:\n            break\n'),
    (None, 'glass/fields.py', '            if info == 0:\n', '            converged = bool(info)\n            if not converged:\n'),
    (None, 'glass/algorithm.py', '        if xp.all(frob(y - x) <= tol * frob(y)):\n            break\n', '        done = frob(y - x) <= tol * frob(y)\n        if not xp.any(~done):\n            break\n'),
    ('C24', 'glass/algorithm.py', '    w = xp.clip(w, rtol * xp.max(w, axis=-1, keepdims=True), None)\n', ''),
    ('C24', 'glass/algorithm.py', 'xp.clip(w, rtol * xp.max(w, axis=-1, keepdims=True), None)', 'xp.clip(w, rtol * xp.max(w), None)'),
    ('C24', 'glass/algorithm.py', 'xp.clip(w, rtol * xp.max(w, axis=-1, keepdims=True), None)', 'xp.clip(w, rtol * xp.min(w, axis=-1, keepdims=True), None)'),
    ('C24', 'glass/algorithm.py', 'xp.clip(w, rtol * xp.max(w, axis=-1, keepdims=True), None)', 'xp.abs(w)'),
    ('C24', 'glass/algorithm.py', 'xp.clip(w, rtol * xp.max(w, axis=-1, keepdims=True), None)', 'xp.where(w < rtol * xp.max(w, axis=-1, keepdims=True), 0.0, w)'),
    ('C24', 'glass/algorithm.py', '    return xp.matmul(v, xp.matrix_transpose(v))', '    return xp.matmul(xp.matrix_transpose(v), v)'),
    ('C24', 'glass/algorithm.py', '    v = xp.sqrt(w[..., None, :]) * v', '    v = xp.sqrt(w[..., :, None]) * v'),
    ('C24', 'glass/algorithm.py', '        y = (1 - diag) * x + diag\n', '        y = x\n'),
    ('C24', 'glass/algorithm.py', '        ds = x - r\n', '        ds = x - r\n        if n == 2:\n            y = x\n            break\n'),
    ('C24', 'glass/algorithm.py', '        y = (1 - diag) * x + diag\n\n        # check for convergence\n        if xp.all(frob(y - x) <= tol * frob(y)):\n            break\n', '        y = (1 - diag) * x + diag\n\n        if xp.all(frob(y - x) <= tol * frob(y)):\n            y = x\n            break\n'),
    ('C24', 'glass/algorithm.py', '    if xp.any(diag < 0):', '    if xp.all(diag < 0):'),
    ('C24', 'glass/algorithm.py', '    if xp.any(diag < 0):', '    if xp.sum(diag) < 0:'),
    ('C24', 'glass/algorithm.py', '    corr = cov / xp.where(norm > 0, norm, 1.0)', '    corr = cov / norm'),
    ('C24', 'glass/algorithm.py', '    corr = cov / xp.where(norm > 0, norm, 1.0)', '    norm = xp.where(norm > 0, norm, 1.0)\n    corr = cov / norm'),
    ('C24', 'glass/algorithm.py', '    return nearcorr(corr, niter=niter, tol=tol) * norm', '    return nearcorr(corr, niter=niter, tol=tol) * diag'),
    ('C24', 'glass/algorithm.py', '    norm = norm[..., None, :] * norm[..., :, None]', '    norm = norm[..., None, :] * norm[..., None, :]'),
    ('C24', 'glass/algorithm.py', '    norm = norm[..., None, :] * norm[..., :, None]', '    norm = norm[..., None, :] ** 2'),
    (None, 'glass/algorithm.py', '    w = xp.clip(w, rtol * xp.max(w, axis=-1, keepdims=True), None)\n', '    floor = xp.max(w, axis=-1, keepdims=True) * rtol\n    w = xp.maximum(w, floor)\n'),
    (None, 'glass/algorithm.py', '    # put matrix back together\n    # enforce symmetry\n    v = xp.sqrt(w[..., None, :]) * v\n    return xp.matmul(v, xp.matrix_transpose(v))', '    return (v * w[..., None, :]) @ xp.matrix_transpose(v)'),
    (None, 'glass/algorithm.py', '        y = (1 - diag) * x + diag\n', '        y = xp.where(diag > 0, 1.0, x)\n'),
    (None, 'glass/algorithm.py', '    if xp.any(diag < 0):', '    if not xp.all(diag >= 0):'),
    (None, 'glass/algorithm.py', '    if xp.any(diag < 0):', '    if xp.min(diag) < 0:'),
    (None, 'glass/algorithm.py', '    corr = cov / xp.where(norm > 0, norm, 1.0)', '    safe = xp.where(norm == 0, 1.0, norm)\n    corr = cov / safe'),
    (None, 'glass/algorithm.py', 'xp.clip(w, rtol * xp.max(w, axis=-1, keepdims=True), None)', 'xp.clip(w, rtol * w[..., -1:], None)'),
    (None, 'glass/algorithm.py', '    w = xp.clip(w, rtol * xp.max(w, axis=-1, keepdims=True), None)\n', '    floor = rtol * xp.max(w, axis=-1, keepdims=True)\n    w = xp.where(w < floor, floor, w)\n'),
    (None, 'glass/algorithm.py', '    norm = xp.sqrt(diag)\n    norm = norm[..., None, :] * norm[..., :, None]', '    norm = xp.sqrt(diag[..., None, :] * diag[..., :, None])'),
    (None, 'glass/algorithm.py', '        x = cov_clip(r)', '        w, v = xp.linalg.eigh(r)\n        w = xp.clip(w, n * xp.finfo(w.dtype).eps * xp.max(w, axis=-1, keepdims=True), None)\n        x = xp.matmul(v * w[..., None, :], xp.matrix_transpose(v))'),
    ('C24', 'glass/algorithm.py', '        x = cov_clip(r)', '        w, v = xp.linalg.eigh(r)\n        x = xp.matmul(v * xp.clip(w, 0.0, None)[..., :, None], xp.matrix_transpose(v))'),
    ('C24', 'glass/algorithm.py', '    y = xp.reshape(a, (-1, n, n))', '    y = xp.reshape(a, (-1, n, n))\n    diag0 = xp.linalg.diagonal(y)', ' y = (1 - diag) * x + diag', ' y = (1 - diag) * x + diag * diag0[..., None, :]'),
    ('C25', 'glass/algorithm.py', '            alpha = xp.min(xq[t] / (xq[t] - sq[t]))', '            alpha = xp.max(xq[t] / (xq[t] - sq[t]))'),
    ('C25', 'glass/algorithm.py', '            alpha = xp.min(xq[t] / (xq[t] - sq[t]))', '            alpha = (xq[t] / (xq[t] - sq[t]))[0]'),
    ('C25', 'glass/algorithm.py', '            alpha = xp.min(xq[t] / (xq[t] - sq[t]))', '            alpha = xp.min(xq[t] / (xq[t] + sq[t]))'),
    ('C25', 'glass/algorithm.py', '            alpha = xp.min(xq[t] / (xq[t] - sq[t]))', '            alpha = 0.5'),
    ('C25', 'glass/algorithm.py', '            t = sq <= 0\n            if not xp.any(t):\n                break', '            t = sq <= 0\n            if not xp.all(t):\n                break'),
    ('C25', 'glass/algorithm.py', '            x = xpx.at(x)[q].add(alpha * (sq - xq))', '            x = xpx.at(x)[q].add(alpha * (xq - sq))'),
    ('C25', 'glass/algorithm.py', '            x = xpx.at(x)[q].add(alpha * (sq - xq))', '            x = xpx.at(x)[q].add(alpha * sq)'),
    ('C25', 'glass/algorithm.py', '            q = xpx.at(q)[x <= 0].set(False)', '            q = xpx.at(q)[x < 0].set(False)'),
    ('C25', 'glass/algorithm.py', '        x = xpx.at(x)[~q].set(0)\n', ''),
    ('C25', 'glass/algorithm.py', '        m = int(index[~q][xp.argmax(w[~q])])', '        m = int(index[~q][xp.argmin(w[~q])])'),
    ('C25', 'glass/algorithm.py', '        m = int(index[~q][xp.argmax(w[~q])])', '        m = int(index[~q][-1])'),
    ('C25', 'glass/algorithm.py', '        w = xp.sum((b - a @ x)[..., None] * a, axis=-2)', '        w = xp.sum((a @ x - b)[..., None] * a, axis=-2)'),
    ('C25', 'glass/algorithm.py', '            sq = xp.linalg.solve(aq.T @ aq, b @ aq)', '            sq = xp.linalg.solve(aq.T @ aq, (b - a @ x) @ aq)'),
    ('C25', 'glass/algorithm.py', '        x = xpx.at(x)[q].set(sq)\n        x = xpx.at(x)[~q].set(0)\n', '        x = xpx.at(x)[q].set(sq)\n    x = xpx.at(x)[~q].set(0)\n'),
    ('C25', 'glass/algorithm.py', '            t = sq <= 0\n', '            t = (sq <= 0) & (xq > 0)\n'),
    (None, 'glass/algorithm.py', '            alpha = xp.min(xq[t] / (xq[t] - sq[t]))\n', '            ratio = xq[t] / (xq[t] - sq[t])\n            alpha = ratio[xp.argmin(ratio)]\n'),
    (None, 'glass/algorithm.py', '            alpha = xp.min(xq[t] / (xq[t] - sq[t]))\n', '            alpha = xp.min(xp.where(t, xq / (xq - sq), 1.0))\n'),
    (None, 'glass/algorithm.py', '            x = xpx.at(x)[q].add(alpha * (sq - xq))', '            x = xpx.at(x)[q].set((1 - alpha) * xq + alpha * sq)'),
    (None, 'glass/algorithm.py', '        w = xp.sum((b - a @ x)[..., None] * a, axis=-2)', '        w = a.T @ (b - a @ x)'),
    (None, 'glass/algorithm.py', '        if w[m] <= tol:\n            break', '        if not w[m] > tol:\n            break'),
    (None, 'glass/algorithm.py', '            t = sq <= 0\n            if not xp.any(t):\n                break', '            t = sq <= 0\n            if xp.all(sq > 0):\n                break'),
    (None, 'glass/algorithm.py', '            sq = xp.linalg.solve(aq.T @ aq, b @ aq)', '            lhs = xp.matmul(xp.matrix_transpose(aq), aq)\n            sq = xp.linalg.solve(lhs, aq.T @ b)'),
    ('C21', 'glass/_array_api_utils.py', '        result_dxp = dxp.interp(\n            x_dxp,\n            x_points_dxp,\n            y_points_dxp,\n            left=left,\n            right=right,\n            period=period,\n        )', '        result_dxp = dxp.interp(\n            x_dxp,\n            x_points_dxp,\n            y_points_dxp,\n            left=left,\n            right=right,\n        )'),
    ('C21', 'glass/_array_api_utils.py', 'result_dxp = dxp.trapezoid(y_dxp, x_dxp, dx=dx, axis=axis)', 'result_dxp = dxp.trapezoid(y_dxp, x_dxp, dx=dx)'),
    ('C21', 'glass/_array_api_utils.py', 'return glass.jax.trapezoid(y, x=x, dx=dx, axis=axis)', 'return glass.jax.trapezoid(y, x=x, axis=axis)'),
    ('C21', 'glass/jax.py', 'return jax.scipy.integrate.trapezoid(y, x=x, dx=dx, axis=axis)', 'return jax.scipy.integrate.trapezoid(y, x=x, dx=dx)'),
    ('C21', 'glass/_array_api_utils.py', '        return xp.asarray(dxp.radians(deg_arr))', '        return xp.asarray(dxp.asarray(deg_arr) * (dxp.pi / 360) * 2.001)'),
    (None, 'glass/_array_api_utils.py', '        return xp.asarray(dxp.radians(deg_arr))', '        return xp.asarray(dxp.asarray(deg_arr) * (dxp.pi / 180))'),
    ('C21', 'glass/_array_api_utils.py', '        return xp.asarray(dxp.degrees(rad_arr))', '        return xp.asarray(dxp.radians(rad_arr))'),
    ('C21', 'glass/_array_api_utils.py', '        return tuple(xp.asarray(res, copy=True) for res in result_dxp)', '        return result_dxp'),
    ('C21', 'glass/_array_api_utils.py', '        result_dxp = dxp.einsum(subscripts, *operands_dxp)', '        result_dxp = dxp.einsum(subscripts, *operands_dxp)[0]'),
    ('C21', 'glass/_array_api_utils.py', 'tuple(xp.asarray(arr) for arr in dxp.tril_indices(n, k=k, m=m))', 'tuple(xp.asarray(arr) for arr in dxp.tril_indices(n, k=k))'),
    ('C21', 'glass/_array_api_utils.py', '                return [to_numpy(x) for x in obj]', '                return obj'),
    ('C21', 'glass/_array_api_utils.py', '                return [convert_back(o) for o in obj]', '                return obj'),
    ('C21', 'glass/_array_api_utils.py', '        np_kwargs = {k: to_numpy(v) for k, v in kwargs.items() if k != "xp"}', '        np_kwargs = {k: v for k, v in kwargs.items() if k != "xp"}'),
    (None, 'glass/_array_api_utils.py', '                return tuple(to_numpy(x) for x in obj)', '                items = [to_numpy(x) for x in obj]\n                return tuple(items)'),
    ('C21', 'glass/rng.py', 'return self.xp.asarray(self.rng.normal(loc, scale, size))', 'return self.xp.asarray(self.rng.normal(loc, size=size) * scale)'),
    ('C21', 'glass/rng.py', 'return self.xp.asarray(self.rng.poisson(lam, size))', 'return self.xp.asarray(self.rng.poisson(lam))'),
    ('C21', 'glass/rng.py', 'return self.xp.asarray(self.rng.uniform(low, high, size))', 'return self.xp.asarray(self.rng.uniform(high, low, size))'),
    ('C21', 'glass/jax.py', 'return loc + scale * jax.random.normal(', 'return loc + scale**2 * jax.random.normal('),
    ('C21', 'glass/jax.py', '_shape(size, loc, scale)', '_shape(size)'),
    ('C21', 'glass/jax.py', '        return jax.random.uniform(\n            self.__key,\n            _shape(size),\n            dtype,\n        )', '        return jax.random.uniform(\n            self.__key,\n            _shape(size),\n            dtype,\n            -1.0,\n            1.0,\n        )'),
    (None, 'glass/jax.py', '        return loc + scale * jax.random.normal(\n            self.__key,\n            _shape(size, loc, scale),\n            dtype,\n        )', '        shape = _shape(size, loc, scale)\n        noise = jax.random.normal(self.__key, shape=shape, dtype=dtype)\n        return noise * scale + loc'),
    ('C28', 'glass/observations.py', 'nz = xp.exp(-(((z - mean) / sigma) ** 2) / 2)', 'nz = xp.exp(-(((z - mean) / sigma) ** 2))'),
    ('C28', 'glass/observations.py', '    if norm is not None:\n        nz *= norm', '    if norm is not None:\n        nz *= norm / xp.sum(nz)'),
    ('C28', 'glass/observations.py', 'xp.exp(-alpha / beta * (z / z_mode) ** beta)', 'xp.exp(-beta / alpha * (z / z_mode) ** beta)'),
    ('C28', 'glass/observations.py', 'xp.exp(-alpha / beta * (z / z_mode) ** beta)', 'xp.exp(-alpha / beta * (z / z_mode) ** alpha)'),
    ('C28', 'glass/observations.py', 'binned_nz /= 1 + erf(z / sz)', 'binned_nz /= 1 - erf(z / sz)'),
    ('C28', 'glass/observations.py', 'sz = 2**0.5 * sigma_0 * (1 + z)', 'sz = sigma_0 * (1 + z)'),
    ('C28', 'glass/observations.py', 'cuml_nz /= cuml_nz[-1]', 'cuml_nz /= cuml_nz[-2]'),
    ('C28', 'glass/observations.py', 'zbinedges = xp.linspace(zmin, zmax, nbins + 1)', 'zbinedges = xp.linspace(zmin, zmax, nbins)'),
    ('C28', 'glass/shells.py', 'return 1 / self.cosmo.H_over_H0(z)', 'return 1 / self.cosmo.H_over_H0(z) ** 2'),
    ('C28', 'glass/shells.py', '            self.cosmo.transverse_comoving_distance(z) / self.cosmo.hubble_distance\n        ) ** 2 / self.cosmo.H_over_H0(z)', '            self.cosmo.transverse_comoving_distance(z) / self.cosmo.hubble_distance\n        ) ** 2'),
    ('C28', 'glass/shells.py', 'self.za * self.wa,', 'self.za * self.wa**2,'),
    (None, 'glass/shells.py', 'xp.greater(z, w.za[0])', 'xp.greater_equal(z, w.za[0])'),
    ('C29', 'glass/shells.py', '        right=0.0,\n    ) * glass.arraytools.ndinterp(zr, w.za, w.wa)', '    ) * glass.arraytools.ndinterp(zr, w.za, w.wa)'),
    ('C29', 'glass/shells.py', '    mult = 1 / sumtol', '    mult = sumtol'),
    ('C29', 'glass/shells.py', '    sumtol = max(sumtol, 1e-4)', '    sumtol = min(sumtol, 1e-4)'),
    ('C29', 'glass/shells.py', '    b = b * dz', '    b = b * dz**2'),
    ('C29', 'glass/shells.py', '        parts.append(uxpx.trapezoid(fr, zr, axis=-1))', '        parts.append(uxpx.trapezoid(fr, zr, axis=-1) / uxpx.trapezoid(w.wa, w.za))'),
    ('C29', 'glass/shells.py', 'shell.wa / uxpx.trapezoid(shell.wa, shell.za)', 'shell.wa / xp.sum(shell.wa)'),
    ('C29', 'glass/shells.py', '        index -= 1\n', '        index = xp.abs(index - 1)\n'),
    ('C28', 'glass/shells.py', 'xp.linspace(start, stop, num + 1, dtype=xp.float64)', 'xp.linspace(start, stop, num, dtype=xp.float64)'),
    ('C29', 'glass/arraytools.py', '            x[(x >= x_[0]) & (x <= x_[-1])],', '            x[(x > x_[0]) & (x < x_[-1])],'),
    ('C28', 'glass/arraytools.py', '(f[..., 1:] + f[..., :-1]) * 0.5 * xp.diff(x)', 'f[..., 1:] * xp.diff(x)'),
    ('C31', 'glass/points.py', '    delta_g *= b\n    return xp.expm1(delta_g)', '    delta_g *= b\n    return xp.exp(delta_g)'),
    ('C31', 'glass/points.py', 'densities = densities / xp.sum(densities, axis=0)', 'densities = densities / xp.sum(densities)'),
    ('C31', 'glass/points.py', 'n = n - xp.mean(n, keepdims=True)', 'n = n / (1 + xp.mean(n, keepdims=True))'),
    ('C31', 'glass/points.py', 'n *= ARCMIN2_SPHERE / n.size * ngal[k]', 'n *= ARCMIN2_SPHERE * ngal[k]'),
    ('C31', 'glass/points.py', 'xp.asin(xrng.uniform(-1, 1, size=size))', 'xp.acos(xrng.uniform(-1, 1, size=size))'),
    ('C31', 'glass/points.py', 'ARCMIN2_SPHERE = 60**6 // 100 / math.pi', 'ARCMIN2_SPHERE = 60**6 // 360 / math.pi'),
    ('C30', 'glass/galaxies.py', 'g /= 1 - k\n', 'g /= 1 + k\n'),
    ('C30', 'glass/galaxies.py', '(1 + xp.conj(g) * eps)', '(1 + g * eps)'),
    ('C28', 'glass/galaxies.py', '    cdf /= cdf[-1]\n', '    cdf /= xp.sum(nz)\n'),
    ('C31', 'glass/galaxies.py', 'sigma = xp.add(1, z_arr) * sigma_0_arr', 'sigma = sigma_0_arr'),
    ('C30', 'glass/galaxies.py', 'c1 = 5e-14 / cosmo.h**2', 'c1 = 5e-14 / cosmo.h'),
    ('C30', 'glass/galaxies.py', 'luminosity_dependence = (lbar / l0) ** beta', 'luminosity_dependence = (l0 / lbar) ** beta'),
    ('C31', 'glass/shapes.py', '    a = (1 + z2m1 * sin2_phi) * cos2_theta + x2 * sin2_theta', '    a = (1 + z2m1 * cos2_phi) * cos2_theta + x2 * sin2_theta'),
    ('C31', 'glass/shapes.py', '    x2 = xp.square(xi)', '    x2 = xp.abs(xi)'),
    ('C31', 'glass/shapes.py', '    xi = (1 - gam) * zeta', '    xi = 1 - gam'),
    ('C31', 'glass/shapes.py', '    e *= (1 - q) / (1 + q)', '    e *= 1 - q'),
    ('C31', 'glass/shapes.py', '(8 + 5 * sigma_broadcasted**2)', '(8 + 3 * sigma_broadcasted**2)'),
    ('C31', 'glass/shapes.py', 'xp.divide(xp.tanh(r / 2), r)', 'xp.divide(xp.tanh(r), r)'),
    ('C31', 'glass/shapes.py', '        r *= xp.sqrt(1 - vargamma / vare)', '        r *= 1 - vargamma / vare'),
    ('C31', 'glass/shapes.py', '        eve4 = xp.mean(r**4)', '        eve4 = xp.mean(r**2) ** 2'),
    ('C30', 'glass/lensing.py', '        f = 3 * self.cosmo.Omega_m0 / 2', '        f = 2 * self.cosmo.Omega_m0 / 3'),
    ('C30', 'glass/lensing.py', '        self.kappa3 += t * self.kappa2\n', '        self.kappa3 += self.kappa2\n'),
    ('C30', 'glass/lensing.py', '        f *= w2\n', '        f *= self.w3\n'),
    ('C30', 'glass/lensing.py', '        t = r13 / r12', '        t = r12 / r13'),
    ('C30', 'glass/lensing.py', 'uxpx.trapezoid(w.wa, w.za) / uxpx.interp(zsrc, w.za, w.wa)', 'uxpx.trapezoid(w.wa, w.za)'),
    ('C30', 'glass/lensing.py', '    return xp.matmul(mat.T, weights)', '    return xp.matmul(mat, weights)'),
    ('C30', 'glass/lensing.py', '        lambda a: xp.sqrt((a - 1) * (a + 2)),', '        lambda a: xp.sqrt((a + 1) * (a + 2)),'),
    ('C30', 'glass/lensing.py', '        fl *= pw2 / pw0\n    alm', '        fl *= pw0 / pw2\n    alm'),
    ('C30', 'glass/fields.py', 'cl[:n] * pw[:n] ** 2', 'cl[:n] * pw[:n]'),
    ('C30', 'glass/fields.py', 'cls[i * (i + 1) // 2 + j] if j <= ncorr', 'cls[i * (i + 1) // 2 + j] if j < ncorr'),
    ('C28', 'glass/fields.py', '(8e-3 + z * (2.9e-2', '(8e-3 - z * (2.9e-2'),
    ('C30', 'glass/fields.py', '                cl = cl[: lmax + 1]', '                cl = cl[:lmax]'),
    ('C30', 'glass/harmonics.py', 'xp.arange(bl.size) + 1', 'xp.arange(bl.size)[::-1] + 1'),
    (None, 'glass/observations.py', 'nz = xp.exp(-(((z - mean) / sigma) ** 2) / 2)', 't = (z - mean) / sigma\n    nz = xp.exp(-0.5 * xp.square(t))'),
    (None, 'glass/observations.py', '    nz /= uxpx.trapezoid(nz, z, axis=-1)[..., xp.newaxis]\n', '    total = xp.expand_dims(uxpx.trapezoid(nz, z, axis=-1), axis=-1)\n    nz = nz / total\n'),
    (None, 'glass/observations.py', 'xp.exp(-alpha / beta * (z / z_mode) ** beta)', 'xp.exp(-alpha * xp.pow(z / z_mode, beta) / beta)'),
    (None, 'glass/observations.py', '    binned_nz = erf((z - z_lower) / sz)\n', '    lower, upper = erf((z - z_lower) / sz), erf((z - z_upper) / sz)\n    binned_nz = lower\n', '    binned_nz -= erf((z - z_upper) / sz)\n', '    binned_nz = binned_nz - upper\n'),
    (None, 'glass/observations.py', 'sz = 2**0.5 * sigma_0 * (1 + z)', 'sz = math.sqrt(2.0) * (sigma_0 + sigma_0 * z)'),
    (None, 'glass/observations.py', '    cuml_nz /= cuml_nz[-1]\n    zbinedges = uxpx.interp(xp.linspace(0, 1, nbins + 1), cuml_nz, z)', '    total = cuml_nz[-1]\n    levels = xp.linspace(0, 1, nbins + 1) * total\n    zbinedges = uxpx.interp(levels, cuml_nz, z)'),
    (None, 'glass/observations.py', 'zbinedges = xp.linspace(zmin, zmax, nbins + 1)', 'zbinedges = zmin + (zmax - zmin) * xp.linspace(0.0, 1.0, nbins + 1)'),
    (None, 'glass/shells.py', 'return 1 / self.cosmo.H_over_H0(z)', 'efunc = self.cosmo.H_over_H0(z)\n        return 1.0 / efunc'),
    (None, 'glass/shells.py', '            self.cosmo.transverse_comoving_distance(z) / self.cosmo.hubble_distance\n        ) ** 2 / self.cosmo.H_over_H0(z)', '            self.cosmo.transverse_comoving_distance(z) ** 2\n            / self.cosmo.hubble_distance**2\n            / self.cosmo.H_over_H0(z)\n        )'),
    (None, 'glass/shells.py', '        parts.append(uxpx.trapezoid(fr, zr, axis=-1))', '        dz = zr[1:] - zr[:-1]\n        parts.append(xp.sum(0.5 * (fr[..., 1:] + fr[..., :-1]) * dz, axis=-1))'),
    (None, 'glass/shells.py', '    b = b * dz\n', '    b *= dz\n'),
    (None, 'glass/shells.py', '    mult = 1 / sumtol\n', '    mult = 1.0 / sumtol\n    nshells = len(shells)\n', 'xp.ones((len(shells), 1))', 'xp.ones((nshells, 1))'),
    (None, 'glass/shells.py', 'uxpx.interp(\n                    z,\n                    shell.za,\n                    shell.wa / uxpx.trapezoid(shell.wa, shell.za),\n                    left=0.0,\n                    right=0.0,\n                )', 'uxpx.interp(\n                    z,\n                    shell.za,\n                    shell.wa,\n                    left=0.0,\n                    right=0.0,\n                )\n                / uxpx.trapezoid(shell.wa, shell.za)'),
    (None, 'glass/arraytools.py', '(f[..., 1:] + f[..., :-1]) * 0.5 * xp.diff(x)', '(x[1:] - x[:-1]) * (f[..., :-1] + f[..., 1:]) / 2.0'),
    (None, 'glass/points.py', '    delta_g *= b\n    return xp.expm1(delta_g)', '    return xp.expm1(b * delta_g)'),
    (None, 'glass/points.py', '    delta_g = xp.log1p(delta)\n    delta_g *= b\n    return xp.expm1(delta_g)', '    return (1 + delta) ** b - 1'),
    (None, 'glass/points.py', 'n *= ARCMIN2_SPHERE / n.size * ngal[k]', 'mean_count = ARCMIN2_SPHERE * ngal[k] / n.size\n    n = n * mean_count'),
    (None, 'glass/points.py', 'n = n - xp.mean(n, keepdims=True)', 'n = n - xp.sum(n) / n.size'),
    (None, 'glass/points.py', '    densities = densities / xp.sum(densities, axis=0)\n', '    total = xp.sum(densities, axis=0)\n    densities = densities / total\n'),
    (None, 'glass/points.py', 'uxpx.degrees(xp.asin(xrng.uniform(-1, 1, size=size)))', '180.0 / math.pi * xp.asin(2 * xrng.uniform(0, 1, size=size) - 1)'),
    (None, 'glass/points.py', 'xrng.uniform(-180, 180, size=size)', '360 * xrng.uniform(0, 1, size=size) - 180'),
    (None, 'glass/galaxies.py', '        g = (eps + g) / (1 + xp.conj(g) * eps)', '        numerator = eps + g\n        denominator = 1 + eps * xp.conj(g)\n        g = numerator / denominator'),
    (None, 'glass/galaxies.py', '        g /= 1 - k\n', '        g = g / (1.0 - k)\n'),
    (None, 'glass/galaxies.py', '    sigma = xp.add(1, z_arr) * sigma_0_arr', '    sigma = sigma_0_arr * z_arr + sigma_0_arr'),
    (None, 'glass/galaxies.py', '    c1 = 5e-14 / cosmo.h**2', '    c1 = 5e-14 / (cosmo.h * cosmo.h)'),
    (None, 'glass/galaxies.py', '    return delta * f_nla', '    return f_nla * delta'),
    (None, 'glass/shapes.py', '    c = 1 + z2m1 * cos2_phi\n', '    c = 1 + z2m1 * (1 - sin2_phi)\n'),
    (None, 'glass/shapes.py', '    e *= (1 - q) / (1 + q)', '    e = (1 - q) * e / (1 + q)'),
    (None, 'glass/shapes.py', '        r = xp.hypot(xp.real(e), xp.imag(e))\n', '        r = xp.abs(e)\n'),
    (None, 'glass/shapes.py', '        r *= xp.sqrt(1 - vargamma / vare)', '        r *= xp.sqrt((vare - vargamma) / vare)'),
    (None, 'glass/lensing.py', '        f = 3 * self.cosmo.Omega_m0 / 2\n        f *= x2 * self.r23', '        f = 1.5 * self.cosmo.Omega_m0 * x2 * self.r23'),
    (None, 'glass/lensing.py', '        self.kappa3 *= 1 - t\n        self.kappa3 += t * self.kappa2\n', '        self.kappa3 += t * (self.kappa2 - self.kappa3)\n'),
    (None, 'glass/lensing.py', '    return xp.matmul(mat.T, weights)', '    return xp.tensordot(mat.T, weights, axes=1)'),
    (None, 'glass/lensing.py', '        lambda a: xp.sqrt((a - 1) * (a + 2)),', '        lambda a: xp.sqrt(a**2 + a - 2),'),
    (None, 'glass/fields.py', 'cl[:n] * pw[:n] ** 2', 'cl[:n] * pw[:n] * pw[:n]'),
    (None, 'glass/fields.py', 'return z * (8e-3 + z * (2.9e-2 + z * (-7.9e-3 + z * 6.5e-4)))', 'return 8e-3 * z + 2.9e-2 * z**2 - 7.9e-3 * z**3 + 6.5e-4 * z**4'),
    (None, 'glass/fields.py', '        cl = sum(\n            w1[i1] * w2[i2] * getcl(cls, i1, i2, lmax=lmax)\n            for i1 in range(n)\n            for i2 in range(n)\n        )', '        cl = 0.0\n        for i1 in range(n):\n            for i2 in range(n):\n                cl = cl + w1[i1] * w2[i2] * getcl(cls, i1, i2, lmax=lmax)'),
    (None, 'glass/harmonics.py', 'alm * xp.repeat(bl, xp.arange(bl.size) + 1)', 'xp.repeat(bl, 1 + xp.arange(bl.shape[0])) * alm'),
    (None, 'glass/shapes.py', '    return rng.standard_normal((length,)) + (1j * rng.standard_normal((length,)))', '    imag = rng.standard_normal((length,))\n    return rng.standard_normal((length,)) + 1j * imag'),
    ('C31', 'glass/shapes.py', 'size=q.shape))', 'size=()))'),
    ('C31', 'glass/shapes.py', '    gam = xrng.normal(gamma, sigma_gamma, size=size)', '    gam = xrng.normal(gamma, sigma, size=size)'),
    (None, 'glass/shapes.py', '    return rng.standard_normal((length,)) + (1j * rng.standard_normal((length,)))', '    both = rng.standard_normal((2, length))\n    return both[0] + 1j * both[1]'),
    ('C08', 'glass/galaxies.py', '    cdf /= cdf[-1]\n', '    cdf = cdf / xp.max(nz)\n'),
    ('C08', 'glass/observations.py', '    cuml_nz /= cuml_nz[-1]\n', '    if cuml_nz[-1] > 1:\n        cuml_nz /= cuml_nz[-1]\n'),
    ('C08', 'glass/points.py', 'densities = densities / xp.sum(densities, axis=0)', 'densities = densities / (1e-3 + xp.sum(densities, axis=0))'),
    ('C08', 'glass/points.py', '/ norm\n', '/ xp.sqrt(norm)\n', '    norm = uxpx.trapezoid(w.wa, w.za)', '    xp = w.wa.__array_namespace__()\n    norm = uxpx.trapezoid(w.wa, w.za)'),
    ('C08', 'glass/lensing.py', 'weights = weights / xp.sum(weights, axis=0)', 'weights = weights / xp.sum(weights**2, axis=0)'),
    ('C08', 'glass/lensing.py', 'uxpx.trapezoid(w.wa, w.za) / uxpx.interp(zsrc, w.za, w.wa)', 'uxpx.trapezoid(w.wa, w.za)'),
    ('C08', 'glass/lensing.py', '(self.cosmo.hubble_distance * self.x3)', 'self.x3'),
    ('C08', 'glass/shells.py', '            self.cosmo.transverse_comoving_distance(z) / self.cosmo.hubble_distance\n        ) ** 2 / self', '            self.cosmo.transverse_comoving_distance(z)\n        ) ** 2 / self'),
    ('C08', 'glass/shells.py', '    a /= uxpx.trapezoid(a, zp, axis=-1)[..., None]', '    a /= xp.max(a)'),
    ('C08', 'glass/shells.py', 'shell.wa / uxpx.trapezoid(shell.wa, shell.za)', 'shell.wa'),
    ('C08', 'glass/shells.py', '        weights /= xp.where(outside, xp.ones_like(wnorm), wnorm)[:, xp.newaxis]', '        weights /= xp.where(wnorm < 1, xp.ones_like(wnorm), wnorm)[:, xp.newaxis]'),
    ('C09', 'glass/lensing.py', '        self.kappa3 += xp.asarray(f) * delta2', '        self.kappa3 += xp.asarray(f) * abs(delta2)'),
    ('C09', 'glass/lensing.py', '            self.kappa2 = xp.zeros_like(delta)\n', '            self.kappa2 = xp.ones_like(delta)\n'),
    ('C09', 'glass/lensing.py', '            self.kappa2 = xp.zeros_like(delta)\n', '            self.kappa2 = xp.asarray(delta, copy=True) ** 2\n'),
    ('C09', 'glass/lensing.py', '        alpha = alpha[0] + 1j * alpha[1]', '        alpha = xp.abs(alpha[0] + 1j * alpha[1])'),
    ('C09', 'glass/lensing.py', '    blm = xp.zeros_like(alm)\n', '    blm = alm * xp.conj(alm)\n'),
    ('C09', 'glass/fields.py', '            w1[i1] * w2[i2] * getcl', '            w1[i1] * abs(w2[i2]) * getcl'),
    ('C09', 'glass/fields.py', '            w1[i1] * w2[i2] * getcl(cls, i1, i2, lmax=lmax)', '            w1[i1] * w2[i2] * abs(getcl(cls, i1, i2, lmax=lmax))'),
    ('C09', 'glass/fields.py', 'cl[:n] * pw[:n] ** 2', 'xp.abs(cl[:n]) * pw[:n] ** 2'),
    ('C09', 'glass/harmonics.py', '    return alm * xp.repeat', '    return xp.abs(alm) * xp.repeat'),
    ('C09', 'glass/points.py', '    return b * delta\n', '    return b * delta + (b - 1) * delta**2\n'),
    ('C09', 'glass/shells.py', '        parts.append(uxpx.trapezoid(fr, zr, axis=-1))', '        parts.append(xp.abs(uxpx.trapezoid(fr, zr, axis=-1)))'),
    ('C09', 'glass/shells.py', '    b = b * dz\n', '    b = xp.abs(b * dz)\n'),
    ('C09', 'glass/arraytools.py', '        y *= uxpx.interp(x, *f_)', '        y *= abs(uxpx.interp(x, *f_))'),
    ('C09', 'glass/galaxies.py', '        g += eps\n', '        g = (g + eps) / (1 + xp.conj(g) * eps)\n'),
    ('C09', 'glass/points.py', '        densities = densities * bias\n', '        densities = densities * (1 + bias)\n'),
    ('C09', 'glass/shells.py', '    fr = glass.arraytools.ndinterp(', '    f = xp.where(f > 0, f, xp.zeros_like(f))\n    fr = glass.arraytools.ndinterp('),
    ('C10', 'glass/shapes.py', 'r = xp.abs(e) > 1\n        while', 'r = xp.abs(e) > 1.5\n        while'),
    ('C10', 'glass/shapes.py', '            e = xpx.at(e)[r].multiply(sigma_broadcasted[k])\n            r = xp.abs(e) > 1', '            r = xp.abs(e) > 1\n            e = xpx.at(e)[r].multiply(sigma_broadcasted[k])'),
    ('C10', 'glass/shapes.py', '        while xp.count_nonzero(r) > 0:', '        if xp.count_nonzero(r) > 0:'),
    ('C10', 'glass/shapes.py', '        r = xp.abs(e) > 1\n        while', '        r = xp.abs(xp.real(e)) > 1\n        while'),
    ('C10', 'glass/shapes.py', 'while xp.any(bad := eps > 0):', 'while xp.all((bad := (eps > 0))):'),
    ('C10', 'glass/shapes.py', 'while xp.any(bad := eps > 0):', 'while xp.any((bad := (eps > 1))):'),
    ('C10', 'glass/shapes.py', '(gam < 0) | (gam > 1)', '(gam < 0) & (gam > 1)'),
    ('C10', 'glass/shapes.py', '(gam < 0) | (gam > 1)', '(gam > 1)'),
    ('C10', 'glass/shapes.py', 'xi = (1 - gam) * zeta', 'xi = (1 + gam) * zeta'),
    ('C10', 'glass/shapes.py', 'e *= (1 - q) / (1 + q)', 'e *= (1 + q) / (1 - q)'),
    ('C10', 'glass/galaxies.py', '        while zphot < lower_arr or zphot > upper_arr:', '        while zphot < lower_arr and zphot > upper_arr:'),
    ('C10', 'glass/galaxies.py', '            trunc = (zphot < lower_arr) | (zphot > upper_arr)\n\n    return', '            trunc = trunc & (zphot < lower_arr)\n\n    return'),
    ('C10', 'glass/galaxies.py', '        while xp.count_nonzero(trunc) > 0:', '        if xp.count_nonzero(trunc) > 0:'),
    ('C10', 'glass/galaxies.py', 'xp.where(trunc, xrng.normal(z_arr, sigma), zphot)', 'xp.where(trunc, xp.abs(xrng.normal(z_arr, sigma)), zphot); break'),
    ('C10', 'glass/galaxies.py', '        lower_arr = xp.zeros_like(upper_arr, dtype=xp.float64)', '        lower_arr = xp.full_like(upper_arr, fill_value=-math.inf, dtype=xp.float64)'),
    ('C10', 'glass/points.py', 'n = xp.clip(n, min=0.0)', 'n = xp.clip(n, min=-1.0)'),
    ('C10', 'glass/points.py', 'n = xp.clip(n, min=0.0)', 'n = xp.clip(n, max=0.0)'),
    ('C10', 'glass/points.py', '    n = xp.clip(n, min=0.0)\n', ''),
    ('C10', 'glass/points.py', 'lat = uxpx.degrees(xp.asin(xrng.uniform(-1, 1, size=size)))', 'lat = xrng.uniform(-1, 1, size=size) * 100'),
    ('C10', 'glass/points.py', 'xp.asin(xrng.uniform(-1, 1, size=size))', 'xp.asin(xrng.uniform(-1.5, 1, size=size))'),
    (None, 'glass/shapes.py', '        r = xp.abs(e) > 1\n        while', '        r = ~(xp.abs(e) <= 1)\n        while'),
    (None, 'glass/shapes.py', 'while xp.any(bad := eps > 0):', 'while xp.count_nonzero(bad := (0 < eps)) > 0:'),
    (None, 'glass/shapes.py', '(gam < 0) | (gam > 1)', '(~((gam >= 0) & (gam <= 1)))'),
    (None, 'glass/shapes.py', '    while xp.any(bad := eps > 0):\n        eps =', '    while True:\n        bad = eps > 0\n        if not xp.any(bad):\n            break\n        eps ='),
    (None, 'glass/galaxies.py', '        while zphot < lower_arr or zphot > upper_arr:', '        while not (zphot >= lower_arr and zphot <= upper_arr):'),
    (None, 'glass/galaxies.py', '            trunc = (zphot < lower_arr) | (zphot > upper_arr)\n\n    return', '            trunc = xp.logical_or(zphot > upper_arr, zphot < lower_arr)\n    return'),
    (None, 'glass/galaxies.py', '        while xp.count_nonzero(trunc) > 0:', '        while xp.any(trunc):'),
    (None, 'glass/points.py', 'n = xp.clip(n, min=0.0)', 'n = xp.where(n < 0, xp.zeros_like(n), n)'),
    (None, 'glass/points.py', 'n = xp.clip(n, min=0.0)', 'n = xp.maximum(n, xp.zeros_like(n))'),
    (None, 'glass/points.py', 'lat = uxpx.degrees(xp.asin(xrng.uniform(-1, 1, size=size)))', 'lat = 90 - uxpx.degrees(xp.acos(xrng.uniform(-1, 1, size=size)))'),
    ('C10', 'glass/shapes.py', '            e = xpx.at(e)[r].multiply(sigma_broadcasted[k])\n', '            e = xpx.at(e)[r].multiply(sigma_broadcasted[k] / 2)\n'),
    ('C10', 'glass/shapes.py', 'eps = xpx.at(eps)[bad].set(xrng.normal(mu[bad], sigma[bad]))', 'eps = xpx.at(eps)[bad].set(xrng.normal(mu[bad], sigma[bad]) / 2)'),
    ('C10', 'glass/shapes.py', 'gam = xpx.at(gam)[bad].set(xrng.normal(gamma[bad], sigma_gamma[bad]))', 'gam = xpx.at(gam)[bad].set(xrng.normal(mu[bad], sigma_gamma[bad]))'),
    ('C10', 'glass/galaxies.py', '            zphot = xp.asarray(xrng.normal(z_arr, sigma))\n    else', '            zphot = xp.asarray(xrng.normal(z_arr, sigma_0_arr))\n    else'),
    ('C10', 'glass/galaxies.py', 'xp.where(trunc, xrng.normal(z_arr, sigma), zphot)', 'xp.where(trunc, xrng.normal(z_arr, sigma_0_arr), zphot)'),
    (None, 'glass/galaxies.py', 'xp.where(trunc, xrng.normal(z_arr, sigma), zphot)', 'xp.where(~trunc, zphot, xrng.normal(z_arr, sigma))'),
    (None, 'glass/galaxies.py', 'xp.where(trunc, xrng.normal(z_arr, sigma), zphot)', 'xp.where(trunc, z_arr + sigma * xrng.standard_normal(dims), zphot)'),
    ('C12', 'glass/algorithm.py', '    if a.shape[0] != b.shape[0]:', '    if a.shape[0] < b.shape[0]:'),
    ('C12', 'glass/algorithm.py', '    if m != n:', '    if m < n:'),
    ('C12', 'glass/algorithm.py', '    if xp.any(diag < 0):', '    if xp.all(diag < 0):'),
    ('C12', 'glass/algorithm.py', '    if xp.any(diag < 0):', '    if xp.any(diag[..., :1] < 0):'),
    ('C12', 'glass/fields.py', '    if n * (n + 1) // 2 != triangle_number:', '    if n * (n + 1) // 2 > triangle_number:'),
    ('C12', 'glass/fields.py', '            if row.shape[:-1] != n:', '            if len(row.shape[:-1]) != len(n):'),
    ('C12', 'glass/fields.py', '        if xp.any(s < 0):', '        if xp.any(s < -1):'),
    ('C12', 'glass/fields.py', '            if i == 0 and xp.any(xp.less(cl, 0)):', '            if j == 0 and i == 0 and xp.any(xp.less(cl, 0)):'),
    ('C12', 'glass/fields.py', '            if i == 0 and xp.any(xp.less(cl, 0)):', '            if i == 0 and xp.any(xp.less(cl[:1], 0)):'),
    ('C12', 'glass/fields.py', '    if n == 0:\n        msg = "all gls are empty"', '    if n < 0:\n        msg = "all gls are empty"'),
    ('C12', 'glass/fields.py', '        if not shape or shape[0] != n:', '        if shape and shape[0] != n:'),
    ('C12', 'glass/fields.py', '        if not shape or shape[0] != n:', '        if not shape or n % shape[0]:'),
    ('C12', 'glass/fields.py', '    for i, shape in enumerate((shape1, shape2)):', '    for i, shape in enumerate((shape1, shape1)):'),
    ('C12', 'glass/fields.py', '    if len(gls) != n * (n + 1) // 2:', '    if len(gls) < n * (n + 1) // 2:'),
    ('C12', 'glass/fields.py', '    elif method == "nearest":', '    elif method in ("nearest", ""):'),
    ('C12', 'glass/galaxies.py', '        lower_arr.shape == upper_arr.shape == zphot.shape\n    ):', '        lower_arr.shape == upper_arr.shape\n    ):'),
    ('C12', 'glass/galaxies.py', '    if not xp.all(lower_arr < upper_arr):', '    if not xp.all(lower_arr <= upper_arr):'),
    ('C12', 'glass/galaxies.py', '    if not xp.all(lower_arr < upper_arr):', '    if not xp.any(lower_arr < upper_arr):'),
    ('C12', 'glass/jax.py', '    if bcast_shape and explicit_shape != bcast_shape:', '    if bcast_shape and len(explicit_shape) != len(bcast_shape):'),
    ('C12', 'glass/jax.py', '    if bcast_shape and explicit_shape != bcast_shape:', '    if explicit_shape and bcast_shape and explicit_shape != bcast_shape:'),
    ('C12', 'glass/lensing.py', '    if not shape or shape[0] != len(shells):', '    if not shape or shape[0] < len(shells):'),
    ('C12', 'glass/observations.py', '    if len(galactic) != 2:', '    if len(galactic) < 2:'),
    ('C12', 'glass/observations.py', '    if len(ecliptic) != 2:', '    if len(ecliptic) > 2:'),
    ('C12', 'glass/points.py', '    if not callable(bias_model):', '    if bias_model is None:'),
    ('C12', 'glass/shapes.py', '(sigma_broadcasted < 0.5**0.5)', '(sigma_broadcasted <= 0.5**0.5)'),
    ('C12', 'glass/shapes.py', '    if not xp.all((sigma_broadcasted >= 0) &', '    if not xp.any((sigma_broadcasted >= 0) &'),
    ('C12', 'glass/shapes.py', '    if not xp.all((sigma_broadcasted >= 0) &', '    if not xp.all((sigma_broadcasted >= -1) &'),
    ('C12', 'glass/shapes.py', '    if varg is not None and vargamma is not None:\n        raise', '    if varg is vargamma is not None:\n        raise'),
    ('C12', 'glass/shapes.py', '        if vargamma > vare:', '        if vargamma > 2 * vare:'),
    ('C12', 'glass/shapes.py', '        if varg > vare:', '        if varg**2 > vare:'),
    ('C12', 'glass/shells.py', '    if zbins.shape[0] < 2:', '    if zbins.shape[0] < 1:'),
    ('C12', 'glass/shells.py', '    if z.ndim != 1:', '    if z.ndim > 1:'),
    ('C12', 'glass/shells.py', '    if step is not None and num is None:', '    if step is not None:'),
    ('C12', 'glass/shells.py', '    if step is None and num is not None:\n        return xp.linspace(', '    if num is not None:\n        return xp.linspace('),
    (None, 'glass/algorithm.py', '    if a.ndim != 2:', '    if not a.ndim == 2:'),
    (None, 'glass/fields.py', '        if not shape or shape[0] != n:', '        if not (len(shape) > 0 and shape[0] == n):'),
    (None, 'glass/fields.py', '    if len(gls) != n * (n + 1) // 2:', '    if nfields_from_nspectra(len(gls)) != n:'),
    (None, 'glass/galaxies.py', '    if not xp.all(lower_arr < upper_arr):', '    if xp.any(lower_arr >= upper_arr):'),
    (None, 'glass/shapes.py', '    if not xp.all((sigma_broadcasted >= 0) & (sigma_broadcasted < 0.5**0.5)):', '    if xp.any(sigma_broadcasted < 0) or xp.any(sigma_broadcasted >= 0.5**0.5):'),
    (None, 'glass/shapes.py', '    if varg is not None and vargamma is not None:\n        raise', '    if not (varg is None or vargamma is None):\n        raise'),
    (None, 'glass/shells.py', '    if zbins.shape[0] < 2:', '    if not zbins.shape[0] > 1:'),
    (None, 'glass/observations.py', '    if len(galactic) != 2:', '    if not len(galactic) == 2:'),
    (None, 'glass/jax.py', '    if bcast_shape and explicit_shape != bcast_shape:', '    if len(bcast_shape) > 0 and not explicit_shape == bcast_shape:'),
    (None, 'glass/lensing.py', '    if not shape or shape[0] != len(shells):', '    n_shells = len(shells)\n    if len(shape) == 0 or n_shells != shape[0]:'),
    (None, 'glass/algorithm.py', '    if xp.any(diag < 0):', '    if not xp.all(diag >= 0):'),
    (None, 'glass/fields.py', '            if i == 0 and xp.any(xp.less(cl, 0)):', '            if i == 0 and not xp.all(cl >= 0):'),
    ('C07', 'glass/shapes.py', '    e = xp.exp(1j * xrng.uniform(0, 2 * math.pi, size=q.shape))', '    e = xp.exp(1j * xrng.uniform(0, 360, size=q.shape))'),
    ('C07', 'glass/shapes.py', '    return r * xp.exp(1j * xrng.uniform(0, 2 * xp.pi, size=r.shape))', '    return r * xp.exp(1j * xrng.uniform(0, 360, size=r.shape))'),
    (None, 'glass/shapes.py', '    return r * xp.exp(1j * xrng.uniform(0, 2 * xp.pi, size=r.shape))', '    phi = xrng.uniform(0, 2 * xp.pi, size=r.shape)\n    return r * (xp.cos(phi) + 1j * xp.sin(phi))'),
    ('C07', 'glass/points.py', '    t = xp.asarray(lat) / 180 * math.pi\n', '    t = xp.asarray(lat)\n'),
    ('C07', 'glass/points.py', '    t = xp.asarray(lat) / 180 * math.pi\n', '    t = xp.asarray(lat) / math.pi * 180\n'),
    ('C07', 'glass/points.py', '    return lon + d / math.pi * 180, tp / math.pi * 180', '    return lon + d, tp / math.pi * 180'),
    ('C07', 'glass/points.py', '    return lon + d / math.pi * 180, tp / math.pi * 180', '    return lon + d / math.pi * 180, tp'),
    ('C07', 'glass/points.py', '    b = uxpx.radians(to_lat)\n', '    b = xp.asarray(to_lat)\n'),
    ('C07', 'glass/points.py', '    g = uxpx.radians(to_lon - from_lon)', '    g = uxpx.radians(to_lon) - from_lon'),
    ('C07', 'glass/points.py', '    return r * xp.exp(1j * x)', '    return uxpx.degrees(r) * xp.exp(1j * x)'),
    ('C07', 'glass/points.py', '    return r * xp.exp(1j * x)', '    return r * xp.exp(1j * uxpx.degrees(x))'),
    ('C07', 'glass/points.py', '        lon = xrng.uniform(-180, 180, size=size)', '        lon = xrng.uniform(-math.pi, math.pi, size=size)'),
    ('C07', 'glass/points.py', '        lat = uxpx.degrees(xp.asin(xrng.uniform(-1, 1, size=size)))', '        lat = xp.asin(xrng.uniform(-1, 1, size=size))'),
    ('C07', 'glass/points.py', '                lonlat=True,\n', ''),
    ('C07', 'glass/galaxies.py', 'lon[s], lat[s], lonlat=True, xp=xp)', 'lon[s], lat[s], xp=xp)'),
    ('C07', 'glass/galaxies.py', 'lon[s], lat[s], lonlat=True, xp=xp)', 'uxpx.radians(lon[s]), uxpx.radians(lat[s]), lonlat=True, xp=xp)'),
    ('C07', 'glass/lensing.py', '    t = uxpx.radians(xp.asarray(lat))', '    t = xp.asarray(lat)'),
    ('C07', 'glass/lensing.py', '    return lon - uxpx.degrees(d), uxpx.degrees(tp)', '    return lon - d, uxpx.degrees(tp)'),
    ('C07', 'glass/lensing.py', '    return lon - uxpx.degrees(d), uxpx.degrees(tp)', '    return lon - uxpx.degrees(d), uxpx.radians(tp)'),
    ('C07', 'glass/healpix.py', '        phi,\n        lonlat=lonlat,\n    )\n', '        phi,\n    )\n'),
    ('C07', 'glass/healpix.py', '        ipix,\n        lonlat=lonlat,\n', '        ipix,\n        lonlat=True,\n'),
    ('C07', 'glass/_array_api_utils.py', '            return xp.radians(deg_arr)', '            return xp.degrees(deg_arr)'),
    ('C07', 'glass/_array_api_utils.py', '        return xp.asarray(dxp.degrees(rad_arr))', '        return xp.asarray(dxp.radians(rad_arr))'),
    (None, 'glass/points.py', '    t = xp.asarray(lat) / 180 * math.pi\n', '    t = xp.asarray(lat) * 0.017453292519943295\n'),
    (None, 'glass/points.py', '    t = xp.asarray(lat) / 180 * math.pi\n', '    t = xp.asarray(lat) * (math.pi / 180)\n'),
    (None, 'glass/points.py', '    t = xp.asarray(lat) / 180 * math.pi\n', '    t = uxpx.radians(xp.asarray(lat))\n'),
    (None, 'glass/points.py', '    t = xp.asarray(lat) / 180 * math.pi\n', '    t = xp.asarray(lat) * math.radians(1.0)\n'),
    (None, 'glass/points.py', '    return lon + d / math.pi * 180, tp / math.pi * 180', '    return lon + math.degrees(1) * d, uxpx.degrees(tp)'),
    (None, 'glass/points.py', '        lon = xrng.uniform(-180, 180, size=size)', '        lon = uxpx.degrees(xrng.uniform(-math.pi, math.pi, size=size))'),
    (None, 'glass/points.py', '        lon = xrng.uniform(-180, 180, size=size)', '        lon = 360 * xrng.uniform(-0.5, 0.5, size=size)'),
    (None, 'glass/points.py', '    g = uxpx.radians(to_lon - from_lon)', '    g = uxpx.radians(to_lon) - uxpx.radians(from_lon)'),
    (None, 'glass/points.py', '    g = uxpx.radians(to_lon - from_lon)', '    g = uxpx.radians((to_lon - from_lon + 180) % 360 - 180)'),
    (None, 'glass/galaxies.py', 'lon[s], lat[s], lonlat=True, xp=xp)', 'uxpx.radians(90 - lat[s]), uxpx.radians(lon[s]), lonlat=False, xp=xp)'),
    ('C17', 'glass/user.py', 'for cl in cls[:-1]]', 'for cl in cls[1:]]'),
    ('C17', 'glass/user.py', 'for cl in cls[:-1]]', 'for cl in cls]'),
    ('C17', 'glass/user.py', 'np.savez(filename, values=values, split=split)', 'np.savez(filename, values=values, splits=split)'),
    ('C17', 'glass/user.py', 'np.savez(filename, values=values, split=split)', 'np.savez(filename, values=split, split=values)'),
    ('C17', 'glass/user.py', '    with np.load(filename) as npz:\n        values = npz["values"]\n        split = npz["split"]\n', '    npz = np.load(filename)\n    values = npz["values"]\n    split = npz["split"]\n'),
    ('C17', 'glass/user.py', '    with np.load(filename) as npz:\n        values = npz["values"]\n        split = npz["split"]\n', '    with np.load(filename) as npz:\n        values = npz["values"]\n    split = npz["split"]\n'),
    ('C17', 'glass/user.py', '    return np.split(values, split)', '    return np.split(values, len(split) + 1)'),
    ('C17', 'glass/user.py', '    return np.split(values, split)', '    return np.split(values, split + 1)'),
    ('C17', 'glass/user.py', '    return np.split(values, split)', '    return np.split(values, split)[::-1]'),
    ('C17', 'glass/user.py', 'firstrow=hdu.get_nrows()', 'firstrow=hdu.get_nrows() - 1'),
    ('C17', 'glass/user.py', ', firstrow=hdu.get_nrows()', ''),
    ('C17', 'glass/user.py', 'firstrow=hdu.get_nrows()', 'firstrow=len(data)'),
    ('C17', 'glass/user.py', '            if self.ext is None:\n                self.ext = self.fits[-1].get_extnum()\n', ''),
    ('C17', 'glass/user.py', '                self.ext = self.fits[-1].get_extnum()', '                self.ext = self.fits[-1].get_extname()'),
    ('C17', 'glass/user.py', '        if self.ext is None or self.ext not in self.fits:', '        if self.ext is None or len(self.fits) < 2:', ' firstrow=hdu.get_nrows()', ' firstrow=0'),
    ('C17', 'glass/user.py', '        if columns:\n', '        elif columns:\n', '        if data is not None:\n            self._append(data)\n\n        # if keyword arguments are given, treat them as names and columns\n', '        if data is not None and columns:\n            self._append(data)\n'),
    ('C17', 'glass/user.py', '            names, values = list(columns.keys()), list(columns.values())', '            names, values = sorted(columns), list(columns.values())'),
    ('C17', 'glass/user.py', '            names, values = list(columns.keys()), list(columns.values())', "            names, values = getattr(self, 'names', list(columns)), list(columns.values())\n            self.names = names"),
    ('C17', 'glass/user.py', '        data: FloatArray | None = None,\n        /,\n', '        data: FloatArray | None = None,\n'),
    ('C17', 'glass/user.py', '    with fitsio.FITS(filename, "rw", clobber=True) as fits:\n        fits.write(None)\n        yield _FitsWriter(fits, ext)', '    fits = fitsio.FITS(filename, "rw", clobber=True)\n    fits.write(None)\n    yield _FitsWriter(fits, ext)\n    fits.close()'),
    ('C17', 'glass/user.py', '    with fitsio.FITS(filename, "rw", clobber=True) as fits:\n        fits.write(None)\n        yield _FitsWriter(fits, ext)', '    fits = fitsio.FITS(filename, "rw", clobber=True)\n    fits.write(None)\n    try:\n        yield _FitsWriter(fits, ext)\n    except Exception:\n        fits.close()\n        raise\n    fits.close()'),
    ('C17', 'glass/user.py', '        yield _FitsWriter(fits, ext)', '        try:\n            yield _FitsWriter(fits, ext)\n        except ValueError:\n            pass'),
    ('C17', 'glass/user.py', '        yield _FitsWriter(fits, ext)', '        try:\n            yield _FitsWriter(fits, ext)\n        finally:\n            return'),
    ('C17', 'glass/user.py', 'clobber=True', 'clobber=False'),
    ('C17', 'glass/user.py', 'extname=self.ext)', 'extname=None)'),
    ('C17', 'glass/user.py', '        self.fits = fits\n        self.ext = ext\n', '        _FitsWriter.fits = fits\n        self.ext = ext\n'),
    ('C17', 'glass/user.py', '        self.fits = fits\n        self.ext = ext\n', '        self.fits = fits\n        self.ext = ext\n        _FitsWriter.rows = 0\n', '            hdu.write(data, names=names, firstrow=hdu.get_nrows())', '            hdu.write(data, names=names, firstrow=_FitsWriter.rows)\n        _FitsWriter.rows += len(data[0]) if names else len(data)'),
    (None, 'glass/user.py', '    split = np.cumulative_sum([cl.shape[0] for cl in cls[:-1]])\n', '    split = []\n    n = 0\n    for cl in cls[:-1]:\n        n += cl.size\n        split.append(n)\n'),
    (None, 'glass/user.py', '    split = np.cumulative_sum([cl.shape[0] for cl in cls[:-1]])\n', '    split = np.cumulative_sum([len(cl) for cl in cls])[:-1]\n'),
    (None, 'glass/user.py', '    split = np.cumulative_sum([cl.shape[0] for cl in cls[:-1]])\n', '    split = np.cumsum(np.asarray([cl.shape[0] for cl in cls]))[:-1]\n'),
    (None, 'glass/user.py', '    np.savez(filename, values=values, split=split)', '    np.savez(filename, **{"values": values, "split": split})'),
    (None, 'glass/user.py', '    np.savez(filename, values=values, split=split)', '    with open(filename, "wb") as f:\n        np.savez_compressed(f, values=values, split=split)'),
    (None, 'glass/user.py', '        values = npz["values"]\n        split = npz["split"]\n    return np.split(values, split)', '        return np.split(npz["values"], npz["split"])'),
    (None, 'glass/user.py', '    with np.load(filename) as npz:\n        values = npz["values"]\n        split = npz["split"]\n', '    npz = np.load(filename)\n    try:\n        values, split = npz["values"], npz["split"]\n    finally:\n        npz.close()\n'),
    (None, 'glass/user.py', '    return np.split(values, split)', '    bounds = [0, *split.tolist(), values.shape[0]]\n    return [values[a:b] for a, b in zip(bounds, bounds[1:])]'),
    (None, 'glass/user.py', '    split = np.cumulative_sum([cl.shape[0] for cl in cls[:-1]])\n', '    split = np.asarray([cl.shape[0] for cl in cls])\n', '    return np.split(values, split)', '    out, i = [], 0\n    for n in split:\n        out.append(values[i : i + n])\n        i += n\n    return out'),
    (None, 'glass/user.py', '            hdu = self.fits[self.ext]\n            # not using hdu.append here because of incompatibilities\n            hdu.write(data, names=names, firstrow=hdu.get_nrows())', '            self._extend(self.fits[self.ext], data, names)\n\n    @staticmethod\n    def _extend(hdu, data, names) -> None:\n        nrows = hdu.get_nrows()\n        hdu.write(data, names=names, firstrow=nrows)'),
    (None, 'glass/user.py', '            names, values = list(columns.keys()), list(columns.values())\n            self._append(values, names)', '            names, values = zip(*columns.items())\n            self._append(list(values), list(names))'),
    (None, 'glass/user.py', '    with fitsio.FITS(filename, "rw", clobber=True) as fits:\n        fits.write(None)\n        yield _FitsWriter(fits, ext)', '    fits = fitsio.FITS(filename, "rw", clobber=True)\n    try:\n        fits.write(None)\n        yield _FitsWriter(fits, ext)\n    finally:\n        fits.close()'),
    (None, 'glass/user.py', '    with fitsio.FITS(filename, "rw", clobber=True) as fits:\n        fits.write(None)\n        yield _FitsWriter(fits, ext)', '    fits = fitsio.FITS(filename, "rw", clobber=True)\n    try:\n        fits.write(None)\n        yield _FitsWriter(fits, ext)\n    except BaseException:\n        fits.close()\n        raise\n    else:\n        fits.close()'),
    (None, 'glass/user.py', '        self.fits = fits\n        self.ext = ext\n', '        self.fits = fits\n        self.ext = ext\n        self.rows = 0\n', '            hdu.write(data, names=names, firstrow=hdu.get_nrows())', '            hdu.write(data, names=names, firstrow=self.rows)\n        self.rows += len(data[0]) if names else len(data)'),
    (None, 'glass/user.py', '        if self.ext is None or self.ext not in self.fits:\n            self.fits.write_table(data, names=names, extname=self.ext)\n            if self.ext is None:\n                self.ext = self.fits[-1].get_extnum()\n        else:\n            hdu = self.fits[self.ext]\n            # not using hdu.append here because of incompatibilities\n            hdu.write(', '        if len(self.fits) < 2:\n            self.fits.write_table(data, names=names, extname=self.ext)\n        else:\n            hdu = self.fits[-1]\n            hdu.write('),
    (None, 'glass/user.py', 'from contextlib import contextmanager', 'from contextlib import closing, contextmanager', '    with fitsio.FITS(filename, "rw", clobber=True) as fits:', '    with closing(fitsio.FITS(filename, "rw", clobber=True)) as fits:'),
    ('C07', 'glass/points.py', '    return lon + d / math.pi * 180, tp / math.pi * 180\n', '    lon = xp.where(xp.asarray(lon) > 360, lon - 2 * math.pi, lon)\n\n    return lon + d / math.pi * 180, tp / math.pi * 180\n'),
    ('C09', 'glass/fields.py', '            for i1 in range(n)\n            for i2 in range(n)\n        )\n        out =', '            for i1 in range(n)\n            for i2 in range(n)\n            if not w1[i1] * w2[i2] < 0\n        )\n        out ='),
    ('C23', 'glass/shells.py', '        n = int(max(xp.round((zmid - zmin) / dz), 2)) - 1\n        m = int(max(xp.round((zmax - zmid) / dz), 2))\n        z = xp.concat(\n            (xp.linspace(zmin, zmid, n, endpoint=False), xp.linspace(zmid, zmax, m)),\n        )\n        w = xp.concat(\n            (xp.linspace(', '        n = int(max(xp.round((zmid - zmin) / dz), 1)) - 1\n        m = int(max(xp.round((zmax - zmid) / dz), 2))\n        z = xp.concat(\n            (xp.linspace(zmin, zmid, n, endpoint=False), xp.linspace(zmid, zmax, m)),\n        )\n        w = xp.concat(\n            (xp.linspace('),
    ('C08', 'glass/galaxies.py', '    cdf /= cdf[-1]\n', '    cdf /= xp.where(cdf[-1] > 1.0, cdf[-1], xp.ones_like(cdf[-1]))\n'),
    ('C29', 'glass/shells.py', '    b = b * dz\n', '    b = xp.where(xp.abs(b) < 1e-12, xp.zeros_like(b), b * dz)\n'),
    ('C08', 'glass/galaxies.py', '    cdf /= cdf[-1]\n', '    cdf /= cdf[-1] + 1e-10\n'),
    ('C08', 'glass/shells.py', 'outside = wnorm == 0', 'outside = wnorm < 1e-10'),
    ('C29', 'glass/shells.py', '    b = b * dz\n', '    b = xp.where(xp.abs(b) < 1e-12, xp.zeros_like(b), b * dz)\n'),
    ('C22', 'glass/galaxies.py', '    return redshifts_from_nz(n, w.za, w.wa, rng=rng, warn=False)', '    keep = w.wa > 0\n    return redshifts_from_nz(n, w.za[keep], w.wa[keep], rng=rng, warn=False)'),
    ('C22', 'glass/shells.py', '    return partition_method(z, fz, shells)', "    if fz.ndim > 1 and method == 'lstsq':\n        return partition_nnls(z, fz, shells)\n    return partition_method(z, fz, shells)"),
    ('C22', 'glass/shells.py', '    return partition_method(z, fz, shells)', '    return partition_method(z, fz, sorted(shells, key=lambda w: w.zeff))'),
    ('C08', 'glass/points.py', '    densities = densities / xp.sum(densities, axis=0)\n', '    total = xp.sum(densities, axis=0)\n    densities = densities / xp.where(total > 1e-6, total, xp.ones_like(total))\n'),
    ('C07', 'glass/observations.py', '    m *= 1 - hp.query_strip(nside, galactic, dtype=xp.float64, xp=xp)\n    m = hp.Rotator(coord="GC").rotate_map_pixel(m)\n    m *= 1 - hp.query_strip(nside, ecliptic, dtype', '    m *= 1 - hp.query_strip(nside, ecliptic, dtype=xp.float64, xp=xp)\n    m = hp.Rotator(coord="GC").rotate_map_pixel(m)\n    m *= 1 - hp.query_strip(nside, galactic, dtype'),
    ('C07', 'glass/observations.py', 'Rotator(coord="GC")', 'Rotator(coord="CG")'),
    ('C07', 'glass/observations.py', 'Rotator(coord="GC")', 'Rotator(coord="EC")'),
    ('C07', 'glass/observations.py', '    m *= 1 - hp.query_strip(nside, ecliptic, dtype', '    m -= hp.query_strip(nside, ecliptic, dtype'),
    ('C07', 'glass/observations.py', '    m *= 1 - hp.query_strip(nside, ecliptic, dtype', '    m *= hp.query_strip(nside, ecliptic, dtype'),
    ('C07', 'glass/observations.py', 'galactic: tuple[float, float] = (30, 90)', 'galactic: tuple[float, float] = (30, 60)'),
    ('C07', 'glass/healpix.py', '    output[indices] = 1\n', '    output[indices] = 0.5\n'),
    ('C07', 'glass/observations.py', 'coord="CE"', 'coord="EC"'),
    (None, 'glass/observations.py', '    m = xp.ones(hp.nside2npix(nside))\n    m *= 1 - hp.query_strip(nside, galactic, dtype=xp.float64, xp=xp)\n', '    m = 1 - hp.query_strip(nside, galactic, dtype=xp.float64, xp=xp)\n'),
    (None, 'glass/observations.py', '    m = hp.Rotator(coord="GC").rotate_map_pixel(m)\n', '    to_celestial = hp.Rotator(coord=["G", "C"])\n    m = to_celestial.rotate_map_pixel(m)\n'),
    (None, 'glass/observations.py', '    m *= 1 - hp.query_strip(nside, ecliptic, dtype=xp.float64, xp=xp)\n    return hp', '    blocked = hp.query_strip(nside, ecliptic, dtype=xp.float64, xp=xp)\n    m = xp.where(blocked == 1, xp.zeros_like(m), m)\n    return hp'),
    (None, 'glass/lensing.py', '        lens_weight = float(uxpx.trapezoid(w.wa, w.za) / uxpx.interp(zsrc, w.za, w.wa))', '        peak = uxpx.interp(zsrc, w.za, w.wa)\n        total = uxpx.trapezoid(w.wa, w.za)\n        lens_weight = float(total / peak)'),
    (None, 'glass/lensing.py', '        f = 3 * self.cosmo.Omega_m0 / 2\n        f *= x2 * self.r23\n        f *= (1 + self.z2) / self.cosmo.H_over_H0(self.z2)\n        f *= w2', '        f = 1.5 * w2 * self.cosmo.Omega_m0 * x2 * self.r23 * (self.z2 + 1.0) / self.cosmo.H_over_H0(self.z2)'),
    (None, 'glass/galaxies.py', '    cdf /= cdf[-1]\n', '    norm = cdf[-1]\n    if norm != 1.0:\n        cdf = cdf / norm\n'),
    (None, 'glass/observations.py', '    cuml_nz /= cuml_nz[-1]', '    total = cuml_nz[-1]\n    cuml_nz = cuml_nz / total'),
    (None, 'glass/observations.py', '    zbinedges = uxpx.interp(xp.linspace(0, 1, nbins + 1), cuml_nz, z)\n\n    return list(itertools.pairwise(zbinedges))', '    edges = uxpx.interp(xp.linspace(0, 1, nbins + 1), cuml_nz, z)\n    return list(zip(edges[:-1], edges[1:], strict=True))'),
    (None, 'glass/observations.py', '    binned_nz = erf((z - z_lower) / sz)\n    binned_nz -= erf((z - z_upper) / sz)\n    binned_nz /= 1 + erf(z / sz)\n', '    lower = erf((z - z_lower) / sz)\n    upper = erf((z - z_upper) / sz)\n    binned_nz = (lower - upper) / (1 + erf(z / sz))\n'),
    (None, 'glass/shells.py', '        outside = wnorm == 0\n', '        outside = ~(wnorm != 0)\n'),
    (None, 'glass/shells.py', '        pout = xp.where(outside, xp.ones_like(wnorm), xp.zeros_like(wnorm))\n', '        pout = xp.astype(outside, wnorm.dtype)\n'),
    (None, 'glass/shells.py', '        weights /= xp.where(outside, xp.ones_like(wnorm), wnorm)[:, xp.newaxis]\n', '        safe = xp.where(outside, xp.ones_like(wnorm), wnorm)\n        weights = weights / xp.reshape(safe, (-1, 1))\n'),
    (None, 'glass/shells.py', '        wnorm = xp.sum(weights, axis=1)\n\n        # some redshifts may fall outside of the shells\n        outside = wnorm == 0\n', '        wnorm = xp.sum(weights, axis=1)\n\n        # some redshifts may fall outside of the shells\n        outside = xp.all(weights == 0, axis=1)\n'),
    (None, 'glass/shells.py', '        n = int(max(xp.round((zmax - zmin) / dz), 2))\n        z = xp.linspace(zmin, zmax, n, dtype=xp.float64)\n        w = wht(z)\n', '        n = max(int(xp.round((zmax - zmin) / dz)), 2)\n        z = xp.linspace(zmin, zmax, n, dtype=xp.float64)\n        w = wht(z)\n'),
    (None, 'glass/shells.py', '                    shell.wa / uxpx.trapezoid(shell.wa, shell.za),\n                    left=0.0,\n                    right=0.0,\n                )\n', '                    shell.wa,\n                    left=0.0,\n                    right=0.0,\n                ) / uxpx.trapezoid(shell.wa, shell.za)\n'),
    (None, 'glass/galaxies.py', '    bin_index = xp.argsort(xp.reshape(bin_index, (-1,)))\n    # argsort 2: invert the sort\n    bin_index = xp.argsort(bin_index)\n    # apply to runs of redshifts\n    redshifts = redshifts[bin_index]\n', '    order = xp.argsort(xp.reshape(bin_index, (-1,)))\n    redshifts = redshifts[xp.argsort(order)]\n'),
    (None, 'glass/galaxies.py', '    redshifts = xp.concat([\n        _draw_nz(int(k), z, nz_values[nz_keys.index(x)], rng=xrng)\n        for x, k in zip(bin_label, bin_count, strict=True)\n    ])\n', '    runs = []\n    for x, k in zip(bin_label, bin_count, strict=True):\n        nz = nz_values[nz_keys.index(x)]\n        runs.append(_draw_nz(int(k), z, nz, rng=xrng))\n    redshifts = xp.concat(runs)\n'),
    (None, 'glass/galaxies.py', '        g /= 1 - k', '        mu = 1 - k\n        g = g / mu'),
    (None, 'glass/shapes.py', '        vare = xp.mean(r**2)\n        if vargamma > vare:\n', '        vare = xp.mean(r * r)\n        if vare < vargamma:\n'),
    (None, 'glass/points.py', '    n = xp.clip(n, min=0.0)\n', '    n = xp.where(n > 0, n, xp.zeros_like(n))\n'),
    (None, 'glass/points.py', '    if count == 0:\n        return\n', '    if not count > 0:\n        return\n'),
    (None, 'glass/lensing.py', '        t = r13 / r12\n', '        ratio = r13 / r12\n        t = ratio\n'),
    (None, 'glass/shells.py', '        zeff = uxpx.trapezoid(w * z, z) / uxpx.trapezoid(w, z)\n        ws.append(RadialWindow(z, w, float(zeff)))', '        norm = uxpx.trapezoid(w, z)\n        zeff = float(uxpx.trapezoid(z * w, z) / norm)\n        ws.append(RadialWindow(z, w, zeff))'),
    (None, 'glass/algorithm.py', '    corr = cov / xp.where(norm > 0, norm, 1.0)', '    corr = cov / xp.where(norm == 0, 1.0, norm)'),
    ('C08', 'glass/lensing.py', '        lens_weight = float(uxpx.trapezoid(w.wa, w.za) / uxpx.interp(zsrc, w.za, w.wa))', '        peak = uxpx.interp(zsrc, w.za, w.wa)\n        lens_weight = float(uxpx.trapezoid(w.wa, w.za) / (peak if peak > 1e-3 else 1.0))'),
    ('C30', 'glass/lensing.py', '        self.kappa3 += xp.asarray(f) * delta2', '        if float(f) > 1e-10:\n            self.kappa3 += xp.asarray(f) * delta2'),
    ('C08', 'glass/lensing.py', '    weights = weights / xp.sum(weights, axis=0)\n    # combine', '    weights = weights / xp.sum(xp.abs(weights), axis=0)\n    # combine'),
    ('C30', 'glass/galaxies.py', '        g /= 1 - k', '        g /= xp.where(xp.abs(1 - k) < 1e-3, xp.ones_like(k), 1 - k)'),
    ('C28', 'glass/galaxies.py', '    return xp.reshape(redshifts, bins.shape)', '    return xp.clip(xp.reshape(redshifts, bins.shape), z[0], z[-2])'),
    ('C29', 'glass/shells.py', '        wnorm = xp.sum(weights, axis=1)', '        weights = xp.where(weights < 1e-6, xp.zeros_like(weights), weights)\n        wnorm = xp.sum(weights, axis=1)'),
    ('C09', 'glass/points.py', '    return densities\n\n\ndef displace(', '    return xp.clip(densities, 0.0, None)\n\n\ndef displace('),
    ('C22', 'glass/points.py', '    a = xp.hypot(alpha1, alpha2)  # abs(alpha)', '    a = xp.minimum(xp.hypot(alpha1, alpha2), xp.asarray(0.5))  # abs(alpha)'),
    ('C12', 'glass/shapes.py', '    if varg > vare:', '    if varg > 2 * vare:'),
    ('C13', 'glass/grf/_solver.py', '        if clerr <= cltol:\n            info |= 1\n', '        if clerr <= max(cltol, gltol):\n            info |= 1\n'),
    ('C13', 'glass/grf/_solver.py', '        if clerr <= cltol:\n            info |= 1\n', '        if clerr <= 2 * cltol:\n            info |= 1\n'),
    ('C27', 'glass/fields.py', 'monopole = 0.0 if cl[0] == 0 else None', 'monopole = None'),
    (None, 'glass/grf/_solver.py', '        if clerr <= cltol:\n            info |= 1\n', '        if clerr <= float(cltol):\n            info |= 1\n'),
    (None, 'glass/grf/_solver.py', '        if clerr <= cltol:\n            info |= 1\n', '        if not clerr > cltol and not np.isnan(clerr):\n            info |= 1\n'),
    ('C26', 'glass/fields.py', 'alm = sum(glass.harmonics.multalm(z, w[..., i + mis]) for i, z in enumerate(y))', 'alm = sum(glass.harmonics.multalm(z, w[..., i + mis]) for i, z in enumerate(y) if xp.any(w[..., i + mis] > 0))'),
    ('C26', 'glass/fields.py', '        yield t(x, var)', '        yield t(x, var if var > 0 else 1.0)'),
    ('C26', 'glass/fields.py', '        yield t(x, var)', '        yield t(x, 2 * var)'),
    (None, 'glass/fields.py', '        yield t(x, var)', '        field = t(x, var)\n        yield field'),
    (None, 'glass/fields.py', '    variances = (transformcl.cltovar(getcl(gls, i, i)) for i in range(n))\n    grf = _generate_grf(gls, nside, ncorr=ncorr, rng=rng)\n\n    for t, x, var in zip(fields, grf, variances, strict=True):\n        yield t(x, var)', '    grf = _generate_grf(gls, nside, ncorr=ncorr, rng=rng)\n\n    for i, x in enumerate(grf):\n        var = transformcl.cltovar(getcl(gls, i, i))\n        yield fields[i](x, var)'),
    (None, 'glass/fields.py', '        yield t(x, var)', "        if var < 0:\n            raise ValueError('negative variance')\n        yield t(x, var)"),
    ('C24', 'glass/fields.py', '    is_positive_semi_definite: bool = xp.all(xp.linalg.eigvalsh(cov) >= 0)\n', '    is_positive_semi_definite: bool = xp.all(xp.linalg.eigvalsh(cov)[..., -1] >= 0)\n'),
    ('C24', 'glass/fields.py', '    is_positive_semi_definite: bool = xp.all(xp.linalg.eigvalsh(cov) >= 0)\n', '    is_positive_semi_definite: bool = xp.all(xp.linalg.det(cov) >= 0)\n'),
    ('C24', 'glass/fields.py', '    is_positive_semi_definite: bool = xp.all(xp.linalg.eigvalsh(cov) >= 0)\n', '    is_positive_semi_definite: bool = xp.all(xp.linalg.eigvalsh(cov[1:]) >= 0)\n'),
    ('C24', 'glass/fields.py', '    is_positive_semi_definite: bool = xp.all(xp.linalg.eigvalsh(cov) >= 0)\n', '    is_positive_semi_definite: bool = xp.all(xp.linalg.eigvalsh(cov) > 0)\n'),
    ('C24', 'glass/fields.py', '    is_positive_semi_definite: bool = xp.all(xp.linalg.eigvalsh(cov) >= 0)\n', '    is_positive_semi_definite: bool = xp.any(xp.linalg.eigvalsh(cov) >= 0)\n'),
    ('C24', 'glass/fields.py', '    is_positive_semi_definite: bool = xp.all(xp.linalg.eigvalsh(cov) >= 0)\n', '    is_positive_semi_definite: bool = bool(xp.all(xp.linalg.eigvalsh(cov)[:, 0] + xp.linalg.eigvalsh(cov)[:, -1] >= 0))\n'),
    (None, 'glass/fields.py', '    is_positive_semi_definite: bool = xp.all(xp.linalg.eigvalsh(cov) >= 0)\n', '    is_positive_semi_definite: bool = xp.all(xp.linalg.eigvalsh(cov)[..., 0] >= 0)\n'),
    (None, 'glass/fields.py', '    is_positive_semi_definite: bool = xp.all(xp.linalg.eigvalsh(cov) >= 0)\n', '    is_positive_semi_definite: bool = xp.min(xp.linalg.eigvalsh(cov)) >= 0\n'),
    (None, 'glass/fields.py', '    is_positive_semi_definite: bool = xp.all(xp.linalg.eigvalsh(cov) >= 0)\n', '    is_positive_semi_definite: bool = not xp.any(xp.linalg.eigh(cov)[0] < 0)\n'),
    (None, 'glass/fields.py', '    is_positive_semi_definite: bool = xp.all(xp.linalg.eigvalsh(cov) >= 0)\n', '    w, _ = xp.linalg.eigh(cov)\n    is_positive_semi_definite: bool = xp.all(w >= 0)\n'),
    (None, 'glass/fields.py', '    is_positive_semi_definite: bool = xp.all(xp.linalg.eigvalsh(cov) >= 0)\n', '    is_positive_semi_definite: bool = all(xp.all(xp.linalg.eigvalsh(m) >= 0) for m in cov)\n'),
    (None, 'glass/fields.py', '    is_positive_semi_definite: bool = xp.all(xp.linalg.eigvalsh(cov) >= 0)\n', '    is_positive_semi_definite: bool = xp.all(xp.linalg.eigvalsh(cov) >= -1e-12)\n'),
    ('C22', 'glass/fields.py', '    return [glass.grf.Lognormal(shift(shell.zeff)) for shell in shells]', '    return [glass.grf.Lognormal(shift(float(shell.za[-1]))) for shell in shells]'),
    ('C22', 'glass/fields.py', '    return [glass.grf.Lognormal(shift(shell.zeff)) for shell in shells]', '    return [glass.grf.Lognormal(shift(shell.zeff)) for shell in shells[::-1]]'),
    ('C22', 'glass/fields.py', '    return [glass.grf.Lognormal(shift(shell.zeff)) for shell in shells]', '    return [glass.grf.Lognormal(shift(shells[0].zeff)) for shell in shells]'),
    ('C22', 'glass/fields.py', '        shift = lambda _z: 1.0', '        shift = lambda _z: 1.0 + _z'),
    ('C22', 'glass/fields.py', '        shift = lambda _z: 1.0', '        shift = lognormal_shift_hilbert2011'),
    ('C22', 'glass/fields.py', '    return [glass.grf.Normal() for _shell in shells]', '    return [glass.grf.Normal() for _shell in shells[1:]]'),
    (None, 'glass/fields.py', '    return [glass.grf.Normal() for _shell in shells]', '    return [glass.grf.Normal()] * len(shells)'),
    (None, 'glass/fields.py', '    return [glass.grf.Lognormal(shift(shell.zeff)) for shell in shells]', '    return [glass.grf.Lognormal(lam) for lam in map(shift, (shell.zeff for shell in shells))]'),
    (None, 'glass/fields.py', '        shift = lambda _z: 1.0  # noqa: E731\n\n    return [glass.grf.Lognormal(shift(shell.zeff)) for shell in shells]', '        return [glass.grf.Lognormal() for _ in shells]\n\n    fields = []\n    for _za, _wa, z in shells:\n        fields.append(glass.grf.Lognormal(shift(z)))\n    return fields'),
    ('C12', 'glass/fields.py', '            if i == 0 and xp.any(xp.less(cl, 0)):', '            if i == 0 and cl.shape[0] == nl and xp.any(xp.less(cl, 0)):'),
    ('C12', 'glass/fields.py', '            if i == 0 and xp.any(xp.less(cl, 0)):', '            if i == 0 and xp.any(xp.less(cl[1:], 0)):'),
    ('C30', 'glass/fields.py', '        if weights2 is weights1 and j1 != j2:', '        if weights2 is weights1 and j1 < j2 and len(j1) == 1:'),
    ('C30', 'glass/fields.py', '        if weights2 is weights1\n        else itertools', '        if weights2 is weights1 or shape1 == shape2\n        else itertools'),
    ('C30', 'glass/fields.py', '            out = xpx.at(out)[j2 + j1 + (...,)].set(cl)', '            out = xpx.at(out)[j2[::-1] + j1[::-1] + (...,)].set(cl)'),
    ('C30', 'glass/fields.py', '            w1[i1] * w2[i2] * getcl(cls, i1, i2, lmax=lmax)\n            for i1 in range(n)\n            for i2 in range(n)', '            w1[i1] * w2[i2] * getcl(cls, i1, i2, lmax=lmax) * (1 if i1 == i2 else 2)\n            for i1 in range(n)\n            for i2 in range(i1 + 1)'),
    (None, 'glass/fields.py', '            w1[i1] * w2[i2] * getcl(cls, i1, i2, lmax=lmax)\n            for i1 in range(n)\n            for i2 in range(n)', '            (w1[i1] * w2[i2] + (w1[i2] * w2[i1] if i1 != i2 else 0.0)) * getcl(cls, i1, i2, lmax=lmax)\n            for i1 in range(n)\n            for i2 in range(i1 + 1)'),
    (None, 'glass/fields.py', '    pairs = (\n        itertools.combinations_with_replacement(uxpx.ndindex(shape1[1:], xp=xp), 2)\n        if weights2 is weights1\n        else itertools.product(\n            uxpx.ndindex(shape1[1:], xp=xp),\n            uxpx.ndindex(shape2[1:], xp=xp),\n        )\n    )', '    pairs = itertools.product(uxpx.ndindex(shape1[1:], xp=xp), uxpx.ndindex(shape2[1:], xp=xp))'),
    ('C21', 'glass/_array_api_utils.py', '        return tuple(xp.asarray(res, copy=True) for res in result_dxp)', '        return tuple(xp.asarray(res, copy=True) for res in result_dxp[::-1])'),
    ('C21', 'glass/_array_api_utils.py', '        return dxp.ndindex(shape)', '        return dxp.ndindex(shape[::-1])'),
    ('C21', 'glass/_array_api_utils.py', '            elif isinstance(obj, dict):\n                for v in obj.values():\n                    collect_arrays(v)\n', ''),
    ('C21', 'glass/healpix.py', '        inplace=inplace,\n        lmax=lmax,\n        pixwin=pixwin,', '        inplace=inplace,\n        lmax=lmax or None,\n        pixwin=pixwin,'),
    ('C21', 'glass/healpix.py', '        lmax=lmax,\n        pol=pol,\n        use_pixel_weights=use_pixel_weights,', '        lmax=lmax,\n        pol=pol,\n        use_pixel_weights=use_pixel_weights and lmax is None,'),
    ('C21', 'glass/healpix.py', '    indices = healpy.query_strip(nside, *thetas)', '    indices = healpy.query_strip(nside, *sorted(thetas))'),
    ('C21', 'glass/healpix.py', '    output = healpy.pixwin(nside, datapath=_get_healpy_datapath(), lmax=lmax, pol=pol)', '    output = healpy.pixwin(nside, datapath=_get_healpy_datapath(), lmax=lmax or None, pol=pol)'),
    (None, 'glass/_array_api_utils.py', '        return tuple(xp.asarray(res, copy=True) for res in result_dxp)', '        x, resid, rank, sv = result_dxp\n        return xp.asarray(x, copy=True), xp.asarray(resid), xp.asarray(rank), xp.asarray(sv)'),
    (None, 'glass/_array_api_utils.py', '        return dxp.ndindex(shape)', '        return dxp.ndindex(tuple(shape))'),
    (None, 'glass/_array_api_utils.py', '        return dxp.ndindex(shape)', '        return dxp.ndindex(*shape)'),
    (None, 'glass/healpix.py', '    indices = healpy.query_strip(nside, *thetas)', '    lower, upper = thetas\n    indices = healpy.query_strip(nside, lower, upper, inclusive=False)'),
    (None, 'glass/healpix.py', '    return healpy.alm2map(\n        alms,\n        nside,\n        inplace=inplace,\n        lmax=lmax,\n        pixwin=pixwin,\n        pol=pol,\n    )', '    options = {"inplace": inplace, "pixwin": pixwin, "pol": pol}\n    if lmax is not None:\n        options["lmax"] = lmax\n    return healpy.alm2map(alms, nside, **options)'),
    (None, 'glass/healpix.py', '    outputs = healpy.alm2map_spin(alms, nside, spin, lmax)\n    return list(outputs)', '    first, second = healpy.alm2map_spin(alms, nside, spin=spin, lmax=lmax)\n    return [first, second]'),
    ('C23', 'glass/shells.py', 'object.__setattr__(self, "zeff", self._calculate_zeff())', 'pass'),
    ('C23', 'glass/shells.py', 'if math.isnan(self.zeff):', 'if not math.isnan(self.zeff):'),
    ('C23', 'glass/shells.py', 'if math.isnan(self.zeff):', 'if True:'),
    ('C23', 'glass/shells.py', '            ) / uxpx.trapezoid(self.wa, self.za)', '            ) / uxpx.trapezoid(self.za, self.wa)'),
    ('C23', 'glass/shells.py', 'zeff = uxpx.trapezoid(w * z, z) / uxpx.trapezoid(w, z)', 'zeff = (zmin + zmax) / 2'),
    ('C23', 'glass/shells.py', 'zeff = uxpx.trapezoid(w * z, z) / uxpx.trapezoid(w, z)', 'zeff = xp.sum(w * z) / xp.sum(w)'),
    ('C23', 'glass/shells.py', 'n = int(max(xp.round((zmax - zmin) / dz), 2))', 'n = int(max(xp.round((zmax - zmin) * dz), 2))'),
    ('C30', 'glass/galaxies.py', 'reduced_shear: bool = True,', 'reduced_shear: bool = False,'),
    ('C15', 'glass/points.py', 'if xp.isdtype(alpha.dtype, "complex floating"):', 'if xp.isdtype(alpha.dtype, "real floating"):'),
    ('C26', 'glass/fields.py', 'm = m[..., m.shape[-2] - k :, m.shape[-1] - k :]', 'm = m[..., m.shape[-2] - k :, m.shape[1] - k :]'),
    ('C11', 'glass/fields.py', '        if cl.shape[0] > 0:\n            # transformation pair', '        if cl.shape[0] > 1:\n            # transformation pair'),
    ('C29', 'glass/shells.py', 'weights /= xp.where(outside, xp.ones_like(wnorm), wnorm)[:, xp.newaxis]', 'weights /= wnorm[:, xp.newaxis]'),
    ('C29', 'glass/shells.py', 'a = xp.concat([a, mult * xp.ones((len(shells), 1))], axis=-1)', 'a = xp.concat([a, mult], axis=-1)'),
    (None, 'glass/shells.py', '    for zmin, zmax in itertools.pairwise(zbins):\n        n = int(max(xp.round((zmax - zmin) / dz), 2))', '    for k in range(zbins.shape[0] - 1):\n        zmin, zmax = zbins[k], zbins[k + 1]\n        n = max(round(float((zmax - zmin) / dz)), 2)'),
    (None, 'glass/shells.py', 'zeff = uxpx.trapezoid(w * z, z) / uxpx.trapezoid(w, z)', 'zeff = xp.sum((z[1:] - z[:-1]) * (w[1:] * z[1:] + w[:-1] * z[:-1])) / xp.sum((z[1:] - z[:-1]) * (w[1:] + w[:-1]))'),
    ('C24', 'glass/algorithm.py', 'corr = cov / xp.where(norm > 0, norm, 1.0)', 'corr = cov'),
    ('C24', 'glass/algorithm.py', 'return nearcorr(corr, niter=niter, tol=tol) * norm', 'return nearcorr(corr, niter=niter, tol=tol) * xp.sqrt(norm)'),
    ('C24', 'glass/algorithm.py', '    norm = norm[..., None, :] * norm[..., :, None]', '    norm = xp.maximum(norm[..., None, :], norm[..., :, None]) ** 2'),
    (None, 'glass/algorithm.py', '    norm = norm[..., None, :] * norm[..., :, None]', '    norm = xp.sqrt(diag[..., None, :] * diag[..., :, None])'),
    (None, 'glass/algorithm.py', '    corr = cov / xp.where(norm > 0, norm, 1.0)', '    corr = xp.where(norm > 0, cov / xp.where(norm > 0, norm, 1.0), cov)'),
    ('C03', 'glass/grf/_solver.py', 'q = np.divide(dx, x, where=(dx != 0), out=np.zeros_like(dx))', 'q = np.divide(dx, x, where=(dx != 0))'),
    (None, 'glass/grf/_solver.py', 'q = np.divide(dx, x, where=(dx != 0), out=np.zeros_like(dx))', 'ok = dx != 0\n    q = np.where(ok, np.divide(dx, x, where=ok), 0.0)'),
    (None, 'glass/grf/_solver.py', 'q = np.divide(dx, x, where=(dx != 0), out=np.zeros_like(dx))', 'q = np.zeros_like(dx)\n    np.divide(dx, x, where=(dx != 0), out=q)'),
    ('C12', 'glass/fields.py', '    n = len(fields)\n    if len(spectra) != n * (n + 1) // 2:\n        msg = "mismatch between number of fields and spectra"', '    n = len(fields)\n    if len(spectra) != n * (n + 2) // 2:\n        msg = "mismatch between number of fields and spectra"'),
    ('C14', 'glass/points.py', '                stop += 1', '                pass'),
    ('C14', 'glass/points.py', '            count -= ipix.size', '            pass'),
    ('C14', 'glass/points.py', '            start, size = stop, 0', '            size = 0'),
    (None, 'glass/points.py', '            start, size = stop, 0', '            size = 0\n            start = stop'),
    ('C28', 'glass/galaxies.py', '    bin_index = xp.argsort(bin_index)\n', ''),
    ('C28', 'glass/galaxies.py', 'xp.argsort(xp.reshape(bin_index, (-1,)))', 'xp.argsort(xp.reshape(bin_index, (-1,)), descending=True)'),
    (None, 'glass/galaxies.py', '    bin_index = xp.argsort(bin_index)\n    # apply to runs of redshifts\n    redshifts = redshifts[bin_index]\n', '    out = xp.empty(redshifts.shape)\n    out = xpx.at(out)[bin_index].set(redshifts)\n    redshifts = out\n'),
    (None, 'glass/galaxies.py', '        xrng.uniform(0.0, 1.0, size=count),\n        cdf,\n        z,\n', '        1 - xrng.uniform(0.0, 1.0, size=count),\n        1 - xp.flip(cdf),\n        xp.flip(z),\n'),
    ('C12', 'glass/fields.py', 'xp.any(s < 0)', 'xp.all(s < 0)'),
    ('C12', 'glass/fields.py', 'xp.any(s < 0)', 'xp.any(s[0] < 0)'),
    ('C27', 'glass/fields.py', 'monopole = 0.0 if cl[0] == 0 else None', 'monopole = 0.0 if cl[0] <= 1e-12 else None'),
    (None, 'glass/fields.py', 'monopole = 0.0 if cl[0] == 0 else None', 'monopole = None if cl[0] else 0.0'),
    ('C21', 'glass/_array_api_utils.py', 'y_dxp = dxp.asarray(y, copy=True)', 'y_dxp = dxp.asarray(y, copy=True, dtype=dxp.float32)'),
    ('C31', 'glass/shapes.py', '    zeta = xp.asarray(zeta)\n', '    zeta = xp.asarray(zeta, dtype=xp.float32)\n'),
    ('C30', 'glass/galaxies.py', 'g = xp.empty(size, dtype=xp.complex128)', 'g = xp.empty(size, dtype=xp.complex64)'),
    (None, 'glass/points.py', 'cmask = xp.zeros(dims, dtype=xp.int64)', 'cmask = xp.zeros(dims, dtype=xp.int32)'),
]
