"""Functions of angles; analysed, never run."""
import glass.galaxies
import glass.healpix
import glass.lensing
import glass.observations
import glass.points
import glass.shapes
from glass._array_api_utils import xp_additions as uxpx


def displaced(lon, lat, a1, a2):
    return glass.points.displace(lon, lat, a1 + 1j * a2)


def displaced_pair(lon, lat, alpha):
    return glass.points.displace(lon, lat, alpha)


def deflected(lon, lat, a1, a2):
    return glass.lensing.deflect(lon, lat, a1 + 1j * a2)


def deflected_pair(lon, lat, alpha):
    return glass.lensing.deflect(lon, lat, alpha)


def displacement(lon, lat, to_lon, to_lat):
    return glass.points.displacement(lon, lat, to_lon, to_lat)


def uniform(ngal, rng):
    return [(lon, lat) for lon, lat, c in glass.points.uniform_positions(ngal, rng=rng)]


def sampled(ngal, delta, vis, rng):
    return [(lon, lat) for lon, lat, c in glass.points.positions_from_delta(ngal, delta, None, vis, rng=rng)]


def sheared(lon, lat, eps, kappa, g1, g2, reduced):
    return glass.galaxies.galaxy_shear(lon, lat, eps, kappa, g1, g2, reduced_shear=reduced)


def ryden(mu, sigma, gamma, sigma_gamma, rng):
    return glass.shapes.ellipticity_ryden04(mu, sigma, gamma, sigma_gamma, rng=rng)


def to_radians(x):
    return uxpx.radians(x)


def to_degrees(x):
    return uxpx.degrees(x)


def pixels(x, y, lonlat):
    return glass.healpix.ang2pix(4, x, y, lonlat=lonlat)


def pixels_default(x, y):
    return glass.healpix.ang2pix(4, x, y)


def within_pixels(ipix, lonlat, rng):
    return glass.healpix.randang(4, ipix, lonlat=lonlat, rng=rng)


def within_pixels_default(ipix, rng):
    return glass.healpix.randang(4, ipix, rng=rng)


def resampled(x, y, varg, vargamma, rng):
    return glass.shapes.resample_shapes(x + 1j * y, varg=varg, vargamma=vargamma, rng=rng)


def footprint(nside):
    return glass.observations.vmap_galactic_ecliptic(nside)


def stripes(nside, galactic, ecliptic):
    return glass.observations.vmap_galactic_ecliptic(nside, galactic=galactic, ecliptic=ecliptic)
