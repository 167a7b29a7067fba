"""Programs on sequences of spectra; analysed, never run."""
from glass.fields import (
    cls2cov,
    compute_gaussian_spectra,
    cov_from_spectra,
    discretized_cls,
    effective_cls,
    enumerate_spectra,
    generate,
    getcl,
    glass_to_healpix_spectra,
    healpix_to_glass_spectra,
    nfields_from_nspectra,
    regularized_spectra,
    solve_gaussian_spectra,
    spectra_indices,
)


def enum(cls):
    return [(i, j, cl) for i, j, cl in enumerate_spectra(cls)]


def look(cls, i, j):
    return getcl(cls, i, j)


def look_lmax(cls, i, j, lmax):
    return getcl(cls, i, j, lmax=lmax)


def count(k):
    return nfields_from_nspectra(k)


def disc(cls, ncorr):
    return list(discretized_cls(cls, ncorr=ncorr))


def to_healpix(cls):
    return glass_to_healpix_spectra(cls)


def to_glass(cls):
    return healpix_to_glass_spectra(cls)


def both_ways(cls):
    return healpix_to_glass_spectra(glass_to_healpix_spectra(cls))


def indices(n):
    return [tuple(row) for row in spectra_indices(n)]


def cov(cls, lmax):
    return cov_from_spectra(cls, lmax=lmax)


def rows(cls, nl, nf, nc):
    return list(cls2cov(cls, nl, nf, nc))


def eff1(cls, w1):
    return effective_cls(cls, w1)


def eff2(cls, w1, w2):
    return effective_cls(cls, w1, w2)


def reg(cls, method):
    return regularized_spectra(cls, method=method)


def gauss(fields, cls):
    return list(compute_gaussian_spectra(fields, cls))


def solve(fields, cls):
    return list(solve_gaussian_spectra(fields, cls))


def maps(fields, cls, nside, ncorr, rng):
    return list(generate(fields, cls, nside, ncorr=ncorr, rng=rng))
