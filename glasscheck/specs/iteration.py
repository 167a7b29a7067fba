"""Programs on iterative solvers; analysed, never run."""
from glass.algorithm import cov_clip, cov_nearest, nearcorr, nnls
from glass.fields import check_posdef_spectra, regularized_spectra, solve_gaussian_spectra
from glass.grf import solve


def spectrum(cl, t1, t2, pad, initial, cltol, gltol, maxiter, monopole):
    return solve(cl, t1, t2, pad=pad, initial=initial, cltol=cltol, gltol=gltol, maxiter=maxiter, monopole=monopole)


def spectra(fields, cls):
    return list(solve_gaussian_spectra(fields, cls))


def correlation(a, tol, niter):
    return nearcorr(a, tol=tol, niter=niter)


def clip(cov, rtol):
    return cov_clip(cov, rtol)


def nearest(cov, tol, niter):
    return cov_nearest(cov, tol, niter)


def leastsquares(a, b, tol, maxiter):
    return nnls(a, b, tol=tol, maxiter=maxiter)


def clipped(cov, rtol):
    """Every eigenvalue below a fraction of the largest one raised to it."""
    xp = cov.__array_namespace__()
    w, v = xp.linalg.eigh(cov)
    w = xp.maximum(w, rtol * xp.max(w, axis=-1, keepdims=True))
    return xp.sum(v[..., :, None, :] * v[..., None, :, :] * w[..., None, None, :], axis=-1)


def definite(spectra):
    return check_posdef_spectra(spectra)
