"""Documented formulas and the calls they stand for; analysed, never run."""
import math

import numpy as np

import glass.algorithm
import glass.arraytools
import glass.fields
import glass.galaxies
import glass.harmonics
import glass.healpix
import glass.lensing
import glass.observations
import glass.points
import glass.shapes
import glass.shells


# -------------------------------------------------------------------- distributions
def area(y, x):
    total = 0.0
    for k in range(len(x) - 1):
        total = total + (x[k + 1] - x[k]) * (y[k] + y[k + 1]) / 2
    return total


def density(y, z, norm):
    total = area(y, z)
    out = [v / total for v in y]
    return out if norm is None else [v * norm for v in out]


def gaussian(z, mean, sigma, norm):
    return glass.observations.gaussian_nz(z, mean, sigma, norm=norm)


def ref_gaussian(z, mean, sigma, norm):
    return density([np.exp(-0.5 * (x - mean) * (x - mean) / (sigma * sigma)) for x in z], z, norm)


def gaussians(z, mean, sigma, norm):
    return glass.observations.gaussian_nz(z, mean, sigma, norm=norm)


def ref_gaussians(z, mean, sigma, norm):
    return [ref_gaussian(z, m, s, norm) for m, s in zip(mean, sigma)]


def smail(z, mode, alpha, beta, norm):
    return glass.observations.smail_nz(z, mode, alpha, beta, norm=norm)


def ref_smail(z, mode, alpha, beta, norm):
    return density([x**alpha * np.exp(-alpha / beta * (x / mode) ** beta) for x in z], z, norm)


def smails(z, mode, alpha, beta, norm):
    return glass.observations.smail_nz(z, mode, alpha, beta, norm=norm)


def ref_smails(z, mode, alpha, beta, norm):
    return [ref_smail(z, mode[k], alpha[k], beta[k], norm) for k in range(len(mode))]


def tomography(z, nz, sigma, edges):
    return glass.observations.tomo_nz_gausserr(z, nz, sigma, [(edges[k], edges[k + 1]) for k in range(len(edges) - 1)])


def ref_tomography(z, nz, sigma, edges):
    out = []
    for k in range(len(edges) - 1):
        row = []
        for x, n in zip(z, nz):
            s = math.sqrt(2) * sigma * (1 + x)
            row.append(n * (math.erf((x - edges[k]) / s) - math.erf((x - edges[k + 1]) / s)) / (1 + math.erf(x / s)))
        out.append(row)
    return out


# -------------------------------------------------------------------- windows and shells
class Window:
    def __init__(self, za, wa):
        self.za = za
        self.wa = wa


def windows(za, wa, zb, wb):
    return [glass.shells.RadialWindow(za, wa, 0.5), glass.shells.RadialWindow(zb, wb, 1.5)]


def distance_weight(cosmo, z):
    return glass.shells.DistanceWeight(cosmo)(z)


def ref_distance_weight(cosmo, z):
    return 1 / cosmo.H_over_H0(z)


def volume_weight(cosmo, z):
    return glass.shells.VolumeWeight(cosmo)(z)


def ref_volume_weight(cosmo, z):
    d = cosmo.transverse_comoving_distance(z) / cosmo.hubble_distance
    return d * d / cosmo.H_over_H0(z)


def density_weight(cosmo, z):
    return glass.shells.DensityWeight(cosmo)(z)


def ref_density_weight(cosmo, z):
    return cosmo.critical_density0 * cosmo.Omega_m(z) * ref_volume_weight(cosmo, z)


def effective_redshift(za, wa):
    return glass.shells.RadialWindow(za, wa).zeff


def ref_effective_redshift(za, wa):
    return area([x * w for x, w in zip(za, wa)], za) / area(wa, za)


def line(x, xs, ys):
    """Linear interpolation, zero outside."""
    return np.interp(x, xs, ys, left=0.0, right=0.0)


def restricted(z, f, za, wa):
    return glass.shells.restrict(z, f, glass.shells.RadialWindow(za, wa, 0.5))


def ref_restricted(z, f, za, wa):
    zr = np.union1d(za, z[(z > za[0]) & (z < za[-1])])
    return zr, [line(x, z, f) * np.interp(x, za, wa) for x in zr]


def restricted2(z, f, za, wa):
    return glass.shells.restrict(z, f, glass.shells.RadialWindow(za, wa, 0.5))


def ref_restricted2(z, f, za, wa):
    zr = np.union1d(za, z[(z > za[0]) & (z < za[-1])])
    return zr, [[line(x, z, g) * np.interp(x, za, wa) for x in zr] for g in f]


def parts_restrict(z, f, za, wa, zb, wb):
    return glass.shells.partition(z, f, windows(za, wa, zb, wb), method="restrict")


def ref_parts_restrict(z, f, za, wa, zb, wb):
    out = []
    for u, v in ((za, wa), (zb, wb)):
        zr, fr = ref_restricted(z, f, u, v)
        out.append(area(fr, zr))
    return out


def combined(z, x, za, wa, zb, wb):
    return glass.shells.combine(z, x, windows(za, wa, zb, wb))


def ref_combined(z, x, za, wa, zb, wb):
    return [x[0] * line(p, za, wa) / area(wa, za) + x[1] * line(p, zb, wb) / area(wb, zb) for p in z]


def combined2(z, x, za, wa, zb, wb):
    return glass.shells.combine(z, x, windows(za, wa, zb, wb))


def ref_combined2(z, x, za, wa, zb, wb):
    return [[x[0][k] * line(p, za, wa) / area(wa, za) + x[1][k] * line(p, zb, wb) / area(wb, zb) for p in z] for k in range(2)]


def system(z, f, shells, sumtol):
    """Matrix and right-hand side of the documented partition problem."""
    zp = z
    for za, wa in shells:
        zp = np.union1d(zp, za)
    dz = np.gradient(zp)
    n = len(zp)
    tol = max(sumtol, 1e-4)
    rows, rhs = [], []
    ws = [[line(x, za, wa) for x in zp] for za, wa in shells]
    for k in range(n):
        rows.append([w[k] / area(w, zp) * dz[k] for w in ws])
        rhs.append(line(zp[k], z, f) * dz[k])
    rows.append([1 / tol for _ in shells])
    rhs.append(area(f, z) / tol)
    return np.asarray(rows), np.asarray(rhs)


def parts_lstsq(z, f, za, wa, zb, wb):
    return glass.shells.partition(z, f, windows(za, wa, zb, wb), method="lstsq")


def ref_parts_lstsq(z, f, za, wa, zb, wb):
    a, b = system(z, f, ((za, wa), (zb, wb)), 0.01)
    x = np.linalg.lstsq(a, np.asarray([[v] for v in b]), rcond=None)[0]
    return [x[0, 0], x[1, 0]]


def ref_parts_lstsq2(z, f, za, wa, zb, wb):
    a, b = system(z, f[0], ((za, wa), (zb, wb)), 0.01)
    _, d = system(z, f[1], ((za, wa), (zb, wb)), 0.01)
    x = np.linalg.lstsq(a, np.asarray([[b[k], d[k]] for k in range(len(b))]), rcond=None)[0]
    return [[x[0, 0], x[0, 1]], [x[1, 0], x[1, 1]]]


def parts_nnls(z, f, za, wa, zb, wb):
    return glass.shells.partition(z, f, windows(za, wa, zb, wb), method="nnls")


def ref_parts_nnls(z, f, za, wa, zb, wb):
    a, b = system(z, f, ((za, wa), (zb, wb)), 0.01)
    q, r = np.linalg.qr(a)
    x = glass.algorithm.nnls(r, np.asarray([sum(q[i, j] * b[i] for i in range(len(b))) for j in range(2)]))
    return [x[0], x[1]]


def ref_parts_nnls2(z, f, za, wa, zb, wb):
    a, b = system(z, f[0], ((za, wa), (zb, wb)), 0.01)
    _, d = system(z, f[1], ((za, wa), (zb, wb)), 0.01)
    q, r = np.linalg.qr(a)
    x = glass.algorithm.nnls(r, np.asarray([sum(q[i, j] * b[i] for i in range(len(b))) for j in range(2)]))
    y = glass.algorithm.nnls(r, np.asarray([sum(q[i, j] * d[i] for i in range(len(d))) for j in range(2)]))
    return [[x[0], y[0]], [x[1], y[1]]]


def shares(z, za, wa, zb, wb, rng):
    return glass.shells.distribute(z, windows(za, wa, zb, wb), rng=rng)


def ref_shares(z, za, wa, zb, wb, rng):
    p = []
    for x in z:
        u, v = line(x, za, wa), line(x, zb, wb)
        p.append([1.0, 0.0, 0.0] if x < za[0] or x > zb[-1] else [0.0, u / (u + v), v / (u + v)])
    label = rng.multinomial(1, np.asarray(p))
    return [np.argmax(label[k]) - 1 for k in range(len(z))]


# -------------------------------------------------------------------- points
def bias(z, b, za, wa):
    return glass.points.effective_bias(z, b, glass.shells.RadialWindow(za, wa, 0.5))


def ref_bias(z, b, za, wa):
    return ref_product(z, b, za, wa) / area(wa, za)


def product(z, b, za, wa):
    return glass.arraytools.trapezoid_product((z, b), (za, wa))


def ref_product(z, b, za, wa):
    """Integral of a product of two functions over the overlap of their grids."""
    x = np.union1d(z[(z >= za[0]) & (z <= za[-1])], za[(za >= z[0]) & (za <= z[-1])])
    return area([np.interp(p, z, b) * np.interp(p, za, wa) for p in x], x)


def cumulative(f, z):
    return glass.arraytools.cumulative_trapezoid(f, z)


def ref_cumulative(f, z):
    out = [0.0]
    for k in range(len(z) - 1):
        out.append(out[-1] + (f[k] + f[k + 1]) * (z[k + 1] - z[k]) / 2)
    return out


def cumulatives(f, z):
    return glass.arraytools.cumulative_trapezoid(f, z)


def ref_cumulatives(f, z):
    return [ref_cumulative(g, z) for g in f]


def linear(delta, b):
    return glass.points.linear_bias(delta, b)


def ref_linear(delta, b):
    return [b * d for d in delta]


def loglinear(delta, b):
    return glass.points.loglinear_bias(delta, b)


def ref_loglinear(delta, b):
    return [np.exp(b * np.log(1 + d)) - 1 for d in delta]


def weights(n, b):
    return glass.points.position_weights(n, b)


def ref_weights(n, b):
    out = []
    for i in range(2):
        row = []
        for k in range(3):
            row.append(n[i, k] / (n[0, k] + n[1, k]) * (1 if b is None else b[i]))
        out.append(row)
    return out


def ref_weights_full(n, b):
    return [[n[i, k] / (n[0, k] + n[1, k]) * b[i, k] for k in range(3)] for i in range(2)]


ARCMIN2 = 60**6 // 100 / math.pi


def counts(ngal, delta, b, vis, mono, rng):
    return [c for _, _, c in glass.points.positions_from_delta(ngal, delta, b, vis, remove_monopole=mono, rng=rng)]


def ref_counts(ngal, delta, b, vis, mono, rng):
    n = len(delta)
    mean = sum(d if b is None else b * d for d in delta) / n
    lam = []
    for k in range(n):
        d = delta[k] if b is None else b * delta[k]
        x = ARCMIN2 * ngal / n * (1 + d - (mean if mono else 0.0))
        lam.append(x if vis is None else x * vis[k])
    rng.poisson(np.clip(np.asarray(lam), 0.0, None))
    return []


def uniform(ngal, rng):
    return [(lon, lat, c) for lon, lat, c in glass.points.uniform_positions(ngal, rng=rng)]


def ref_uniform(ngal, rng):
    rng.poisson(ARCMIN2 * ngal)
    u = rng.uniform(0.0, 1.0, size=(2,))
    v = rng.uniform(-1.0, 1.0, size=(2,))
    return [([360 * x - 180 for x in u], [np.arcsin(y) * 180 / np.pi for y in v], 2)]


# -------------------------------------------------------------------- galaxies
def sheared(lon, lat, eps, kappa, g1, g2, reduced):
    return glass.galaxies.galaxy_shear(lon, lat, eps, kappa, g1, g2, reduced_shear=reduced)


def ref_sheared(lon, lat, eps, kappa, g1, g2, reduced):
    ipix = glass.healpix.ang2pix(1, lon, lat, lonlat=True)
    out = []
    for k in range(3):
        g = g1[ipix[k]] + 1j * g2[ipix[k]]
        if reduced:
            g = g / (1 - kappa[ipix[k]])
            out.append((eps[k] + g) / (1 + np.conj(g) * eps[k]))
        else:
            out.append(eps[k] + g)
    return out


def sampled(z, nz, rng):
    return glass.galaxies.redshifts_from_nz(2, z, nz, warn=False, rng=rng)


def ref_sampled(z, nz, rng):
    cdf = ref_cumulative(nz, z)
    u = rng.uniform(0.0, 1.0, size=(2,))
    return [np.interp(u[k], np.asarray([c / cdf[-1] for c in cdf]), z) for k in range(2)]


def inverse(z, nz, u):
    cdf = ref_cumulative(nz, z)
    return np.interp(u, np.asarray([c / cdf[-1] for c in cdf]), z)


def sampled_bins(bins, z, n1, n2, rng):
    return glass.galaxies.redshifts_from_bins(bins, z, {4: n2, 1: n1}, rng=rng)


def ref_sampled_bins(bins, z, n1, n2, rng):
    u = rng.uniform(0.0, 1.0, size=(1,))
    v = rng.uniform(0.0, 1.0, size=(1,))
    return [inverse(z, n2, v[0]), inverse(z, n1, u[0])]


def sampled_column(bins, z, n1, n2, rng):
    return glass.galaxies.redshifts_from_bins(bins, z, {1: n1, 4: n2}, rng=rng)


def ref_sampled_column(bins, z, n1, n2, rng):
    u = rng.uniform(0.0, 1.0, size=(1,))
    v = rng.uniform(0.0, 1.0, size=(1,))
    return [[inverse(z, n1, u[0])], [inverse(z, n2, v[0])]]


def sampled_three(bins, z, n1, n2, n3, rng):
    return glass.galaxies.redshifts_from_bins(bins, z, {1: n1, 7: n3, 4: n2}, rng=rng)


def ref_sampled_three(bins, z, n1, n2, n3, rng):
    u, v, w = [rng.uniform(0.0, 1.0, size=(1,)) for _ in range(3)]
    return [inverse(z, n3, w[0]), inverse(z, n1, u[0]), inverse(z, n2, v[0])]


def populations(z, nz, n, rng):
    return glass.galaxies.redshifts_from_nz(n, z, nz, warn=False, rng=rng)


def ref_populations(z, nz, n, rng):
    u = rng.uniform(0.0, 1.0, size=(1,))
    v = rng.uniform(0.0, 1.0, size=(1,))
    return [inverse(z, nz[0], u[0]), inverse(z, nz[1], v[0])]


def photometric(z, sigma, rng):
    return glass.galaxies.gaussian_phz(z, sigma, rng=rng)


def ref_photometric(z, sigma, rng):
    n = rng.standard_normal((2,))
    return [z[k] + (1 + z[k]) * sigma * n[k] for k in range(2)]


def ref_photometrics(z, sigma, rng):
    n = rng.standard_normal((2,))
    return [z[k] + (1 + z[k]) * sigma[k] * n[k] for k in range(2)]


def photometric_scalar(z, sigma, rng):
    return glass.galaxies.gaussian_phz(z, sigma, rng=rng)


def ref_photometric_scalar(z, sigma, rng):
    return z + (1 + z) * sigma * rng.standard_normal(())


def alignment(delta, zeff, a, cosmo, z0, eta, lbar, l0, beta):
    return glass.galaxies._kappa_ia_nla(delta, zeff, a, cosmo, z0=z0, eta=eta, lbar=lbar, l0=l0, beta=beta)


def ref_alignment(delta, zeff, a, cosmo, z0, eta, lbar, l0, beta):
    c1 = 5e-14 / (cosmo.h * cosmo.h)
    f = -a * c1 * cosmo.critical_density0 * cosmo.Omega_m0 / cosmo.growth_factor(zeff)
    return [f * ((1 + zeff) / (1 + z0)) ** eta * (lbar / l0) ** beta * d for d in delta]


def equal_density(z, nz):
    return glass.observations.equal_dens_zbins(z, nz, 3)


def ref_equal_density(z, nz):
    cdf = ref_cumulative(nz, z)
    e = [np.interp(k / 3, np.asarray([c / cdf[-1] for c in cdf]), z) for k in range(4)]
    return [(e[0], e[1]), (e[1], e[2]), (e[2], e[3])]


def bins(zmin, zmax):
    return glass.observations.fixed_zbins(zmin, zmax, nbins=3)


def ref_bins(zmin, zmax):
    e = [zmin + k * (zmax - zmin) / 3 for k in range(4)]
    return [(e[0], e[1]), (e[1], e[2]), (e[2], e[3])]


def redshift_grid(zmin, zmax):
    return glass.shells.redshift_grid(zmin, zmax, num=3)


def ref_redshift_grid(zmin, zmax):
    return [zmin + k * (zmax - zmin) / 3 for k in range(4)]


def distance_grid(cosmo, zmin, zmax):
    return glass.shells.distance_grid(cosmo, zmin, zmax, num=3)


def ref_distance_grid(cosmo, zmin, zmax):
    a, b = cosmo.comoving_distance(zmin), cosmo.comoving_distance(zmax)
    return [cosmo.inv_comoving_distance(a + k * (b - a) / 3) for k in range(4)]


def beamed(alm, bl):
    return glass.harmonics.multalm(alm, bl)


def ref_beamed(alm, bl):
    return [alm[l * (l + 1) // 2 + m] * bl[l] for l in range(len(bl)) for m in range(l + 1)]


# -------------------------------------------------------------------- shapes
def axis_ratio(zeta, xi, rng):
    return glass.shapes.triaxial_axis_ratio(zeta, xi, rng=rng)


def ratio(zeta, xi, ct, ph):
    """Axis ratio of the projection of a triaxial ellipsoid (Binney 1985)."""
    c2, s2 = ct * ct, 1 - ct * ct
    a = (1 - (1 - zeta * zeta) * np.sin(ph) ** 2) * c2 + xi * xi * s2
    b = (1 - zeta * zeta) * ct * 2 * np.sin(ph) * np.cos(ph)
    c = 1 - (1 - zeta * zeta) * np.cos(ph) ** 2
    root = np.sqrt((a - c) ** 2 + b * b)
    return np.sqrt((a + c - root) / (a + c + root))


def ref_axis_ratio(zeta, xi, rng):
    u = rng.uniform(-1.0, 1.0, size=(2,))
    p = rng.uniform(0.0, 2 * np.pi, size=(2,))
    return [ratio(zeta[k], xi[k], u[k], p[k]) for k in range(2)]


def ryden(mu, sigma, gamma, sigma_gamma, rng):
    return glass.shapes.ellipticity_ryden04(mu, sigma, gamma, sigma_gamma, rng=rng)


def ref_ryden(mu, sigma, gamma, sigma_gamma, rng):
    eps = rng.standard_normal((2,))
    gam = rng.standard_normal((2,))
    u = rng.uniform(-1.0, 1.0, size=(2,))
    p = rng.uniform(0.0, 2 * np.pi, size=(2,))
    t = rng.uniform(0.0, 2 * np.pi, size=(2,))
    out = []
    for k in range(2):
        b = 1 - np.exp(mu[k] + sigma[k] * eps[k])
        q = ratio(b, (1 - gamma[k] - sigma_gamma[k] * gam[k]) * b, u[k], p[k])
        out.append((1 - q) / (1 + q) * np.exp(1j * t[k]))
    return out


def gauss_shapes(count, sigma, rng):
    return glass.shapes.ellipticity_gaussian(count, sigma, rng=rng)


def ref_gauss_shapes(count, sigma, rng):
    out = []
    for k in range(len(count)):
        x = rng.standard_normal((count[k],))
        y = rng.standard_normal((count[k],))
        out = out + [sigma[k] * (x[i] + 1j * y[i]) for i in range(count[k])]
    return out


def norm_shapes(count, sigma, rng):
    return glass.shapes.ellipticity_intnorm(count, sigma, rng=rng)


def ref_norm_shapes(count, sigma, rng):
    out = []
    for k in range(len(count)):
        s = sigma[k] * np.sqrt((8 + 5 * sigma[k] * sigma[k]) / (2 - 4 * sigma[k] * sigma[k]))
        x = rng.standard_normal((count[k],))
        y = rng.standard_normal((count[k],))
        for i in range(count[k]):
            u, v = s * x[i], s * y[i]
            r = np.sqrt(u * u + v * v)
            out.append((u + 1j * v) * np.tanh(r / 2) / r)
    return out


def resampled(x, y, varg, vargamma, rng):
    return glass.shapes.resample_shapes(x + 1j * y, varg=varg, vargamma=vargamma, rng=rng)


def ref_resampled(x, y, varg, vargamma, rng):
    n = len(x)
    m2 = sum(x[k] * x[k] + y[k] * y[k] for k in range(n)) / n
    m4 = sum((x[k] * x[k] + y[k] * y[k]) ** 2 for k in range(n)) / n
    f = 1.0
    if vargamma is not None:
        f = np.sqrt(1 - vargamma / m2)
    if varg is not None:
        b = (1 - 2 * varg) * m2
        f = np.sqrt((np.sqrt(b * b + 4 * varg * m4 * (m2 - varg)) - b) / (2 * varg * m4))
    t = rng.uniform(0.0, 2 * np.pi, size=(n,))
    return [f * np.sqrt(x[k] * x[k] + y[k] * y[k]) * np.exp(1j * t[k]) for k in range(n)]


# -------------------------------------------------------------------- lensing and fields
def maps(kappa, lmax, discretized, nside):
    return glass.lensing.from_convergence(kappa, lmax, potential=True, deflection=True, shear=True, discretized=discretized)


def ref_maps(kappa, lmax, discretized, nside):
    n = 3 * nside - 1 if lmax is None else lmax
    alm = glass.healpix.map2alm(kappa, lmax=n)
    ell = [l for m in range(n + 1) for l in range(m, n + 1)]
    pw0, pw2 = glass.healpix.pixwin(nside, lmax=n, pol=True) if discretized else (np.ones(n + 1), np.ones(n + 1))
    psi = [0.0 if l == 0 else -2 * alm[k] / (l * (l + 1)) for k, l in enumerate(ell)]
    alpha = [math.sqrt(l * (l + 1)) * psi[k] for k, l in enumerate(ell)]
    gamma = [math.sqrt((l + 2) * (l + 1) * l * (l - 1)) / 2 * psi[k] * (pw2[l] / pw0[l]) for k, l in enumerate(ell)]
    zero = np.zeros(len(ell))
    p = glass.healpix.alm2map(np.asarray(psi), nside, lmax=n)
    a = glass.healpix.alm2map_spin([np.asarray(alpha), zero], nside, 1, n)
    g = glass.healpix.alm2map_spin([np.asarray(gamma), zero], nside, 2, n)
    return p, a[0] + 1j * a[1], g[0] + 1j * g[1]


def convergence(cosmo, delta, zs, ws):
    mp = glass.lensing.MultiPlaneConvergence(cosmo)
    for d, z, w in zip(delta, zs, ws):
        mp.add_plane(d, z, w)
    return mp.kappa, mp.delta, mp.wlens


def ref_convergence(cosmo, delta, zs, ws):
    """Integral over the line of sight, in a flat universe."""
    n = len(zs) - 1
    xs = [cosmo.transverse_comoving_distance(z) for z in zs]
    out = [0.0, 0.0]
    for i in range(n):
        q = 3 * cosmo.Omega_m0 / 2 * ws[i] * (1 + zs[i]) / cosmo.H_over_H0(zs[i]) * xs[i] * (xs[n] - xs[i]) / xs[n] / cosmo.hubble_distance
        for k in range(2):
            out[k] = out[k] + q * delta[i][k]
    return out, [delta[n][0], delta[n][1]], ws[n]


def windowed(cosmo, delta, za, wa, ze, zb, wb, zf):
    mp = glass.lensing.MultiPlaneConvergence(cosmo)
    for d, w in zip(delta, (glass.shells.RadialWindow(za, wa, ze), glass.shells.RadialWindow(zb, wb, zf))):
        mp.add_window(d, w)
    return mp.kappa, mp.zsrc, mp.wlens


def ref_windowed(cosmo, delta, za, wa, ze, zb, wb, zf):
    ws = [area(wa, za) / np.interp(ze, za, wa), area(wb, zb) / np.interp(zf, zb, wb)]
    return ref_convergence(cosmo, delta, [ze, zf], ws)[0], zf, ws[1]


def matrix(cosmo, za, wa, ze, zb, wb, zf):
    return glass.lensing.multi_plane_matrix([glass.shells.RadialWindow(za, wa, ze), glass.shells.RadialWindow(zb, wb, zf)], cosmo)


def ref_matrix(cosmo, za, wa, ze, zb, wb, zf):
    ws = [area(wa, za) / np.interp(ze, za, wa), area(wb, zb) / np.interp(zf, zb, wb)]
    return [[0.0, 0.0], ref_convergence(cosmo, [[1.0, 0.0], [0.0, 1.0]], [ze, zf], ws)[0]]


def plane_weights(w, shells, cosmo):
    return glass.lensing.multi_plane_weights(w, shells, cosmo)


def ref_plane_weights(w, shells, cosmo):
    mat = glass.lensing.multi_plane_matrix(shells, cosmo)
    n = len(shells)
    return [[sum(mat[j, i] * w[j, k] / sum(w[m, k] for m in range(n)) for j in range(n)) for k in range(2)] for i in range(n)]


def ref_plane_weight(w, shells, cosmo):
    mat = glass.lensing.multi_plane_matrix(shells, cosmo)
    n = len(shells)
    return [sum(mat[j, i] * w[j] / sum(w[m] for m in range(n)) for j in range(n)) for i in range(n)]


def shift(z):
    return glass.fields.lognormal_shift_hilbert2011(z)


def ref_shift(z):
    return 0.00065 * z**4 - 0.0079 * z**3 + 0.029 * z**2 + 0.008 * z


def discretized(a, b, c, lmax, ncorr):
    return glass.fields.discretized_cls([a, b, c], lmax=lmax, ncorr=ncorr, nside=1)


def ref_discretized(a, b, c, lmax, ncorr):
    pw = glass.healpix.pixwin(1, lmax=lmax)
    n = 3 if lmax is None else min(lmax + 1, 3)
    out = [[cl[l] * pw[l] * pw[l] for l in range(n)] for cl in (a, b, c)]
    if ncorr == 0:
        out[2] = np.asarray([])
    return out


def effective(a, b, c, v, w, lmax):
    return glass.fields.effective_cls([a, b, c], v, w, lmax=lmax)


def effective_arrays(a, b, c, v, w, lmax):
    return glass.fields.effective_cls([a, b, c], v, w, lmax=lmax)


def ref_effective_arrays(a, b, c, v, w, lmax):
    """Weights with further axes give arrays of spectra."""
    w = v if w is None else w
    n = 2 if lmax is None else lmax
    out = np.zeros(v.shape[1:] + w.shape[1:] + (n + 1,))
    for i in np.ndindex(v.shape[1:]):
        for j in np.ndindex(w.shape[1:]):
            for l in range(n + 1):
                p, q = v[(0, *i)], v[(1, *i)]
                r, s = w[(0, *j)], w[(1, *j)]
                out[(*i, *j, l)] = p * r * a[l] + (p * s + q * r) * c[l] + q * s * b[l] if l < 3 else 0.0
    return out


def ref_effective(a, b, c, v, w, lmax):
    w = v if w is None else w
    n = 2 if lmax is None else lmax
    return [v[0] * w[0] * a[l] + (v[0] * w[1] + v[1] * w[0]) * c[l] + v[1] * w[1] * b[l] if l < 3 else 0.0 for l in range(n + 1)]


# ------------------------------------------------------- tophat windows
def tophat_means(a, b, c, dz):
    return [w.zeff for w in glass.shells.tophat_windows(np.asarray([0.0, 1.0, 3.0]), dz, lambda z: a + b * z + c * z * z)]


def ref_tophat_means(a, b, c, dz):
    out = []
    for w in glass.shells.tophat_windows(np.asarray([0.0, 1.0, 3.0]), dz, lambda z: a + b * z + c * z * z):
        n = w.za.shape[0]
        num, den = 0, 0
        for k in range(n - 1):
            u, v = w.za[k], w.za[k + 1]
            p, q = a + b * u + c * u * u, a + b * v + c * v * v
            num = num + (p * u + q * v) * (v - u)
            den = den + (p + q) * (v - u)
        out.append(num / den)
    return out


def tophat_spacing(dz):
    return [(w.za[1] - w.za[0]) / dz for w in glass.shells.tophat_windows(np.asarray([0.0, 1.0, 3.0]), dz)]


def sheared_default(lon, lat, eps, kappa, g1, g2, reduced):
    return glass.galaxies.galaxy_shear(lon, lat, eps, kappa, g1, g2)


def window_mean(z, w):
    return glass.shells.RadialWindow(z, w).zeff


def ref_window_mean(z, w):
    num, den = 0, 0
    for k in range(3):
        num = num + (w[k] * z[k] + w[k + 1] * z[k + 1]) * (z[k + 1] - z[k])
        den = den + (w[k] + w[k + 1]) * (z[k + 1] - z[k])
    return num / den


def window_given(z, w):
    return glass.shells.RadialWindow(z, w, 1.5).zeff


def ref_window_given(z, w):
    return 1.5
