"""Shorthand and sibling functions agree with what they stand for.

Each shorthand and the general function it stands for are evaluated symbolically over the same
arguments in one value graph, with the general function kept as one operation, and must be the same
value up to the identity of freshly created objects: same function, same arguments, same options.
Partitions and sampled redshifts are also compared element by element for arrays of known size.
Displacing and deflecting are compared in exact trigonometric algebra (equal latitudes, opposite
changes in longitude), and the deprecated shear function with the shear of from_convergence in
exact algebra over multipoles (for a generic positive multipole and for multipoles 0 to 3).
"""

import itertools

from ..alg import Alg, EllAlg
from ..closed import ORDERS, agree, loc, two
from ..refs import compare
from .c15 import alg as sphere
from .c29 import nonnegative, solution, triangle
from .c30 import sky

ASSUMPTIONS = ["Array libraries agree on operations of the same name.", "Exact real arithmetic for displacements and filters."]
F, S = "glass.fields:", "glass.shells:"
PRIM = {"glass.galaxies:redshifts_from_nz", S + "partition_nnls", S + "partition_lstsq", S + "partition_restrict",
        F + "solve_gaussian_spectra", F + "generate"}


def notnan(c):
    return False if c.op == "call" and c.data[0].endswith("isnan") else None


def ellok(n, node):
    if n == "leaf":
        return node is not None and node.op in ("param", "const", "nsfn", "ns")
    return not n.startswith(("apply_where", "xpx.", "where", "clip", "cmp", "masked", "phi", "maximum", "max", "min"))


def check(c):
    for run, ref, anchor in [
        ("redshifts", "ref_redshifts", "glass.galaxies:redshifts"),
        ("part_default", "ref_part_nnls", S + "partition"),
        ("part_nnls", "ref_part_nnls", S + "partition"),
        ("part_lstsq", "ref_part_lstsq", S + "partition"),
        ("part_restrict", "ref_part_restrict", S + "partition"),
        ("lognormal_gls", "ref_lognormal_gls", F + "lognormal_gls"),
        ("generate_gaussian", "ref_generate_gaussian", F + "generate_gaussian"),
        ("generate_lognormal", "ref_generate_lognormal", F + "generate_lognormal"),
    ]:
        c.section(compare, c, "shorthand", run, ref, "shorthand calls the general function", run, None,
                  primitives=PRIM, noneargs=("rng", "ncorr"), anchor=anchor, structural=True)
    c.section(compare, c, "shorthand", "unpack", "ref_unpack", "windows unpack in order", "RadialWindow",
              ["za", "wa", "zeff"], alg=lambda a: Alg(assume=a, decide=notnan), anchor=S + "RadialWindow.__iter__")
    for lmax in ("given", "None"):
        for disc in (True, False):
            for ell in (None, 0, 1, 2, 3):
                b = {"discretized": disc, **({"lmax": None} if lmax == "None" else {})}
                c.section(compare, c, "shorthand", "shear", "ref_shear", "deprecated shear is the shear",
                          f"lmax {lmax}, {'' if disc else 'not '}discretized, multipole {'any' if ell is None else ell}", None,
                          alg=lambda a, z=ell: EllAlg(ell=z, assume=a), bind=b, ok=ellok, anchor="glass.lensing:shear_from_convergence")
    for v, s in ((True, ""), (False, "_pair")):
        c.section(compare, c, "sphere", "both" + s, "ref_both" + s, "deflecting is displacing with opposite longitude",
                  "complex displacement" if v else "pair of components", ["longitude", "latitude"], alg=sphere(v),
                  anchor="glass.lensing:deflect")
    c.section(arrays, c)
    c.section(shells, c)
    c.section(limits, c)


def limits(c):
    """The deprecated shear with fewer, as many and more multipoles than the default."""
    for lmax, disc in itertools.product((2, 3, 7, None), (True, False)):
        agree(c, "deprecated shear is the shear", f"nside=2, lmax={lmax}, {'with' if disc else 'without'} pixel windows", "shorthand", "shear", "ref_shear",
              lambda z: {"kappa": z.arr("kappa", (48,)), "lmax": lmax, "discretized": disc}, loc(c, "glass.lensing:shear_from_convergence"), records=sky(2))


def shells(c):
    """One transformation for every shell, in the order of the shells, shifted as at its effective redshift."""
    rule = "one field for every shell"
    for n in (1, 2, 3):
        def bind(z):
            return {k: z.tuple([z.arr(f"{k}{i}") for i in range(n)]) for k in ("zeffs", "x", "var")}
        agree(c, rule, f"Gaussian fields of {n} shells", "shorthand", "gaussian_shells", "ref_gaussian_shells", bind, loc(c, "glass.fields:gaussian_fields"))
        for given in (True, False):
            agree(c, rule, f"lognormal fields of {n} shells, shift {'given' if given else 'not given'}", "shorthand", "lognormal_shells", "ref_lognormal_shells",
                  lambda z: bind(z) | {"a": z.arr("a"), "b": z.arr("b"), "given": z.const(given)}, loc(c, "glass.fields:lognormal_fields"))


def arrays(c):
    """Shorthands for arrays of known size, element by element."""
    rule = "shorthand gives the same elements"
    for method in (None, "nnls", "lstsq", "restrict"):
        for d in ((), (2,)):
            for o in (ORDERS[0], ORDERS[1]):
                for swap in (False, True):
                    def bind(z):
                        return two(z, o) | {"f": z.arr("f", (*d, len(o[0]))), "swap": z.const(swap), "method": z.const(method)}
                    agree(c, rule, f"partition, method {method or 'not given'}, {'two functions' if d else 'one function'}, order {o}, windows {'reversed' if swap else 'in order'}",
                          "shorthand", "named", "ref_named", bind, loc(c, S + "partition"), perms=False,
                          records={"lstsq": solution, "qr": triangle, "nnls": nonnegative}, opaque={"glass.algorithm:nnls"})
    for n in (1, 2):
        for cells in ((0, 0), (0, 1), (1, 0)):
            agree(c, rule, f"{n} redshifts from a window, cells {cells[:n]}", "shorthand", "sampled", "ref_sampled",
                  lambda z: {"n": z.const(n), "za": z.grid("za", range(3)), "wa": z.arr("wa", (3,)), "ze": z.arr("ze")},
                  loc(c, "glass.galaxies:redshifts"), cells=(lambda k, m: cells[k % 2],))
