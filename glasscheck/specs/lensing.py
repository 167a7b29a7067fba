"""Reference programs for lensing; analysed side by side with the package, never run."""
from glass._array_api_utils import xp_additions as uxpx
from glass.lensing import MultiPlaneConvergence, from_convergence


def planes(cosmo, d1, z1, w1, d2, z2, w2, d3, z3, w3, d4, z4, w4):
    m = MultiPlaneConvergence(cosmo)
    m.add_plane(d1, z1, w1)
    a = (m.zsrc, m.kappa, m.delta, m.wlens)
    m.add_plane(d2, z2, w2)
    b = (m.zsrc, m.kappa, m.delta, m.wlens)
    m.add_plane(d3, z3, w3)
    c = (m.zsrc, m.kappa, m.delta, m.wlens)
    m.add_plane(d4, z4, w4)
    return a, b, c, (m.zsrc, m.kappa, m.delta, m.wlens)


def ref_planes(cosmo, d1, z1, w1, d2, z2, w2, d3, z3, w3, d4, z4, w4):
    h = cosmo.hubble_distance
    om = cosmo.Omega_m0

    def x(z):
        return cosmo.transverse_comoving_distance(z) / h

    def r(a, b):
        return cosmo.transverse_comoving_distance(a, b) / (h * x(b))

    def f(za, zb, w):
        return 3 * om / 2 * x(za) * r(za, zb) * (1 + za) / cosmo.H_over_H0(za) * w

    k1 = 0 * d1
    k2 = f(z1, z2, w1) * d1
    t3 = r(z1, z3) / r(z1, z2)
    k3 = (1 - t3) * k1 + t3 * k2 + f(z2, z3, w2) * d2
    t4 = r(z2, z4) / r(z2, z3)
    k4 = (1 - t4) * k2 + t4 * k3 + f(z3, z4, w3) * d3
    return (z1, k1, d1, w1), (z2, k2, d2, w2), (z3, k3, d3, w3), (z4, k4, d4, w4)


def windows(cosmo, d1, w1, d2, w2):
    m = MultiPlaneConvergence(cosmo)
    m.add_window(d1, w1)
    a = (m.zsrc, m.kappa, m.delta, m.wlens)
    m.add_window(d2, w2)
    return a, (m.zsrc, m.kappa, m.delta, m.wlens)


def ref_windows(cosmo, d1, w1, d2, w2):
    m = MultiPlaneConvergence(cosmo)
    m.add_plane(d1, w1.zeff, uxpx.trapezoid(w1.wa, w1.za) / uxpx.interp(w1.zeff, w1.za, w1.wa))
    a = (m.zsrc, m.kappa, m.delta, m.wlens)
    m.add_plane(d2, w2.zeff, uxpx.trapezoid(w2.wa, w2.za) / uxpx.interp(w2.zeff, w2.za, w2.wa))
    return a, (m.zsrc, m.kappa, m.delta, m.wlens)


def maps(kappa, lmax, discretized):
    (pp,) = from_convergence(kappa, lmax, potential=True, discretized=discretized)
    (dd,) = from_convergence(kappa, lmax, deflection=True, discretized=discretized)
    (ss,) = from_convergence(kappa, lmax, shear=True, discretized=discretized)
    p1, d1 = from_convergence(kappa, lmax, potential=True, deflection=True, discretized=discretized)
    p2, s2 = from_convergence(kappa, lmax, potential=True, shear=True, discretized=discretized)
    d3, s3 = from_convergence(kappa, lmax, deflection=True, shear=True, discretized=discretized)
    return pp, dd, ss, p1, d1, p2, s2, d3, s3


def ref_maps(kappa, lmax, discretized):
    p, d, s = from_convergence(kappa, lmax, potential=True, deflection=True, shear=True, discretized=discretized)
    return p, d, s, p, d, p, s, d, s
