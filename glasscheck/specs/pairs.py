"""Programs on pairs of transformations; analysed, never run."""
import numpy as np
import transformcl

from glass.grf import Lognormal, Normal, SquaredNormal, compute, corr, dcorr, icorr


def make(kind, a, lam):
    if kind == "Normal":
        return Normal()
    if kind == "Lognormal":
        return Lognormal(lam)
    return SquaredNormal(a, lam)


def apply(kind1, a1, l1, x, var):
    return make(kind1, a1, l1)(x, var)


def ref_apply_Normal(kind1, a1, l1, x, var):
    return x


def ref_apply_Lognormal(kind1, a1, l1, x, var):
    return l1 * (np.exp(x - var / 2) - 1)


def ref_apply_SquaredNormal(kind1, a1, l1, x, var):
    return l1 * ((x - a1) ** 2 - 1)


def fcorr(kind1, kind2, a1, l1, a2, l2, x):
    return corr(make(kind1, a1, l1), make(kind2, a2, l2), x)


def ficorr(kind1, kind2, a1, l1, a2, l2, x):
    return icorr(make(kind1, a1, l1), make(kind2, a2, l2), x)


def fdcorr(kind1, kind2, a1, l1, a2, l2, x):
    return dcorr(make(kind1, a1, l1), make(kind2, a2, l2), x)


def scorr(kind1, kind2, a1, l1, a2, l2, x):
    return corr(make(kind2, a2, l2), make(kind1, a1, l1), x)


def sicorr(kind1, kind2, a1, l1, a2, l2, x):
    return icorr(make(kind2, a2, l2), make(kind1, a1, l1), x)


def sdcorr(kind1, kind2, a1, l1, a2, l2, x):
    return dcorr(make(kind2, a2, l2), make(kind1, a1, l1), x)


def there_and_back(kind1, kind2, a1, l1, a2, l2, x):
    t1 = make(kind1, a1, l1)
    t2 = make(kind2, a2, l2)
    return icorr(t1, t2, corr(t1, t2, x))


def back_and_there(kind1, kind2, a1, l1, a2, l2, x):
    t1 = make(kind1, a1, l1)
    t2 = make(kind2, a2, l2)
    return corr(t1, t2, icorr(t1, t2, x))


def same(kind1, kind2, a1, l1, a2, l2, x):
    return x


def ref_corr_Normal_Normal(kind1, kind2, a1, l1, a2, l2, x):
    return x


def ref_corr_Lognormal_Normal(kind1, kind2, a1, l1, a2, l2, x):
    return l1 * x


def ref_corr_Normal_Lognormal(kind1, kind2, a1, l1, a2, l2, x):
    return l2 * x


def ref_corr_Lognormal_Lognormal(kind1, kind2, a1, l1, a2, l2, x):
    return l1 * l2 * (np.exp(x) - 1)


def ref_corr_SquaredNormal_SquaredNormal(kind1, kind2, a1, l1, a2, l2, x):
    return l1 * l2 * (2 * x**2 + 4 * a1 * a2 * x)


def gauss(cl, t1, t2):
    return compute(cl, t1, t2)


def ref_gauss(cl, t1, t2):
    return transformcl.corrtocl(icorr(t1, t2, transformcl.cltocorr(cl)))


def gauss_one(cl, t1):
    return compute(cl, t1)


def ref_gauss_one(cl, t1):
    return transformcl.corrtocl(icorr(t1, t1, transformcl.cltocorr(cl)))
