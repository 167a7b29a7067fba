"""Calls with quantities in other units, and the same calls without; analysed, never run."""
import glass.galaxies
import glass.lensing
import glass.observations
import glass.points
import glass.shells


class Units:
    """A cosmology with distances in another unit."""

    def __init__(self, cosmo, k):
        self.cosmo = cosmo
        self.k = k
        self.hubble_distance = k * cosmo.hubble_distance
        self.critical_density0 = cosmo.critical_density0
        self.Omega_m0 = cosmo.Omega_m0

    def H_over_H0(self, z):
        return self.cosmo.H_over_H0(z)

    def Omega_m(self, z):
        return self.cosmo.Omega_m(z)

    def transverse_comoving_distance(self, z, z2=None):
        return self.k * (self.cosmo.transverse_comoving_distance(z) if z2 is None else self.cosmo.transverse_comoving_distance(z, z2))


def windows(za, wa, zb, wb, k, q):
    return [glass.shells.RadialWindow(za, k * wa, 0.5), glass.shells.RadialWindow(zb, q * wb, 1.5)]


# ------------------------------------------------------------------ distributions
def sampled(z, nz, k, rng):
    return glass.galaxies.redshifts_from_nz(2, z, k * nz, warn=False, rng=rng)


def ref_sampled(z, nz, k, rng):
    return glass.galaxies.redshifts_from_nz(2, z, nz, warn=False, rng=rng)


def sampled_window(z, nz, k, rng):
    return glass.galaxies.redshifts(2, glass.shells.RadialWindow(z, k * nz, 1.0), rng=rng)


def ref_sampled_window(z, nz, k, rng):
    return glass.galaxies.redshifts(2, glass.shells.RadialWindow(z, nz, 1.0), rng=rng)


def equal_density(z, nz, k):
    return glass.observations.equal_dens_zbins(z, k * nz, 3)


def ref_equal_density(z, nz, k):
    return glass.observations.equal_dens_zbins(z, nz, 3)


# ------------------------------------------------------------------------ windows
def effective_redshift(z, nz, k):
    return glass.shells.RadialWindow(z, k * nz).zeff


def ref_effective_redshift(z, nz, k):
    return glass.shells.RadialWindow(z, nz).zeff


def bias(z, f, za, wa, k):
    return glass.points.effective_bias(z, f, glass.shells.RadialWindow(za, k * wa, 0.5))


def ref_bias(z, f, za, wa, k):
    return glass.points.effective_bias(z, f, glass.shells.RadialWindow(za, wa, 0.5))


def combined(z, x, za, wa, zb, wb, k, q):
    return glass.shells.combine(z, x, windows(za, wa, zb, wb, k, q))


def ref_combined(z, x, za, wa, zb, wb, k, q):
    return glass.shells.combine(z, x, windows(za, wa, zb, wb, 1, 1))


def shares(z, za, wa, zb, wb, k, rng):
    return glass.shells.distribute(z, windows(za, wa, zb, wb, k, k), rng=rng)


def ref_shares(z, za, wa, zb, wb, k, rng):
    return glass.shells.distribute(z, windows(za, wa, zb, wb, 1, 1), rng=rng)


def parts(z, f, za, wa, zb, wb, k, q, method):
    return glass.shells.partition(z, f, windows(za, wa, zb, wb, k, q), method=method)


def ref_parts(z, f, za, wa, zb, wb, k, q, method):
    return glass.shells.partition(z, f, windows(za, wa, zb, wb, 1, 1), method=method)


# ------------------------------------------------------------------------ weights
def weights(n, b, k):
    return glass.points.position_weights(k * n, b)


def ref_weights(n, b, k):
    return glass.points.position_weights(n, b)


def plane_weights(w, shells, cosmo, k):
    return glass.lensing.multi_plane_weights(k * w, shells, cosmo)


def ref_plane_weights(w, shells, cosmo, k):
    return glass.lensing.multi_plane_weights(w, shells, cosmo)


def matrix(cosmo, za, wa, ze, zb, wb, zf, k, q):
    return glass.lensing.multi_plane_matrix([glass.shells.RadialWindow(za, k * wa, ze), glass.shells.RadialWindow(zb, q * wb, zf)], cosmo)


def ref_matrix(cosmo, za, wa, ze, zb, wb, zf, k, q):
    return glass.lensing.multi_plane_matrix([glass.shells.RadialWindow(za, wa, ze), glass.shells.RadialWindow(zb, wb, zf)], cosmo)


# ---------------------------------------------------------------------- distances
def volume_weight(cosmo, z, k):
    return glass.shells.VolumeWeight(Units(cosmo, k))(z)


def ref_volume_weight(cosmo, z, k):
    return glass.shells.VolumeWeight(cosmo)(z)


def density_weight(cosmo, z, k):
    return glass.shells.DensityWeight(Units(cosmo, k))(z)


def ref_density_weight(cosmo, z, k):
    return glass.shells.DensityWeight(cosmo)(z)


def added(cosmo, delta, zs, ws):
    mp = glass.lensing.MultiPlaneConvergence(cosmo)
    for d, z, w in zip(delta, zs, ws):
        mp.add_plane(d, z, w)
    return mp.kappa


def convergence(cosmo, delta, zs, ws, k):
    return added(Units(cosmo, k), delta, zs, ws)


def ref_convergence(cosmo, delta, zs, ws, k):
    return added(cosmo, delta, zs, ws)


def sampled_bins(bins, z, n1, n2, k, q, rng):
    return glass.galaxies.redshifts_from_bins(bins, z, {1: k * n1, 4: q * n2}, rng=rng)


def ref_sampled_bins(bins, z, n1, n2, k, q, rng):
    return glass.galaxies.redshifts_from_bins(bins, z, {1: n1, 4: n2}, rng=rng)
