"""Programs on radial windows and grids; analysed, never run."""
from glass.observations import equal_dens_zbins, fixed_zbins
from glass.shells import cubic_windows, distance_grid, linear_windows, redshift_grid, tophat_windows


def tophat(edges, dz, weight):
    return [(w.za, w.wa, w.zeff) for w in tophat_windows(edges, dz, weight)]


def linear(edges, dz, weight):
    return [(w.za, w.wa, w.zeff) for w in linear_windows(edges, dz, weight)]


def cubic(edges, dz, weight):
    return [(w.za, w.wa, w.zeff) for w in cubic_windows(edges, dz, weight)]


def zgrid_num(zmin, zmax, num):
    return redshift_grid(zmin, zmax, num=num)


def zgrid_step(zmin, zmax, dz):
    return redshift_grid(zmin, zmax, dz=dz)


def xgrid_num(cosmo, zmin, zmax, num):
    return distance_grid(cosmo, zmin, zmax, num=num)


def xgrid_step(cosmo, zmin, zmax, dx):
    return distance_grid(cosmo, zmin, zmax, dx=dx)


def zbins_num(zmin, zmax, nbins):
    return fixed_zbins(zmin, zmax, nbins=nbins)


def zbins_step(zmin, zmax, dz):
    return fixed_zbins(zmin, zmax, dz=dz)


def zbins_dens(z, nz, nbins):
    return equal_dens_zbins(z, nz, nbins)
