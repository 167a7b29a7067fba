"""Programs on sequential sampling of correlated fields; analysed, never run."""
import numpy as np

from glass.fields import generate, iternorm
from glass.grf import Normal
from glass.harmonics import multalm


def row(L, i, k):
    """Variance of field i and its covariances with the k fields before it, of fields with factors L."""
    out = []
    for d in range(k + 1):
        c = 0.0
        if d <= i:
            for m in range(i - d + 1):
                c = c + L[i][m] * L[i - d][m]
        out.append(c)
    return out


def factors(L, k):
    return list(iternorm([np.asarray(row(L, i, k)) for i in range(len(L))]))


def stacked(L, M, k):
    return list(iternorm([np.asarray([row(L, i, k), row(M, i, k)]) for i in range(len(L))]))


def stacked2(L, M, k):
    return list(iternorm([np.asarray([[row(L, i, k), row(M, i, k)]]) for i in range(len(L))]))


def scaled(alm, bl):
    return multalm(alm, bl)


def spectrum(L, i, d, short):
    if short is not None and i == len(L) - 1 and d > 0:
        c = L[i][0] * L[i - d][0][:short]
        for m in range(1, i - d + 1):
            c = c + L[i][m] * L[i - d][m][:short]
    else:
        c = L[i][0] * L[i - d][0]
        for m in range(1, i - d + 1):
            c = c + L[i][m] * L[i - d][m]
    return 2 * c


def maps(L, nside, ncorr, short, rng):
    n = len(L)
    gls = [spectrum(L, i, d, short) for i in range(n) for d in range(i + 1)]
    return list(generate([Normal() for _ in range(n)], gls, nside, ncorr=ncorr, rng=rng))


def transformed(ts, gls, nside, ncorr, rng):
    return list(generate(ts, gls, nside, ncorr=ncorr, rng=rng))
