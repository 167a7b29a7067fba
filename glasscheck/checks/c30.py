"""Lensing and spectra follow the documented formulas.

Planes added one by one are compared with the line-of-sight sum in a flat universe, maps with the
documented factors of every multipole, spectra and weights with the documented sums, and galaxy
shears with the shear in the pixel of every galaxy.
"""

import itertools

from ..closed import COSMOLOGY, case

ASSUMPTIONS = [
    "Numbers are real and exact; expressions are compared at points where no denominator or logarithm vanishes.",
    "Sizes of arrays are those enumerated; contents are arbitrary.",
    "Spherical harmonic transforms are independent quantities of their compared arguments.",
    "In a flat universe, the distance between two redshifts is the difference of their distances.",
]


def check(c):
    for part in (galaxies, maps, spectra):
        c.section(part, c)


def galaxies(c):
    q = "glass.galaxies:"
    for red in (True, False):
        case(c, "galaxy shears", "reduced" if red else "not reduced", q + "galaxy_shear", "sheared",
             lambda z: {k: z.arr(k, (3,)) for k in ("lon", "lat", "eps")} | {k: z.arr(k, (12,)) for k in ("kappa", "g1", "g2")} | {"reduced": red},
             records={"hp.ang2pix": pixels, "hp.npix2nside": lambda it, kw: (it.g.const(1), ())})
    case(c, "galaxy shears", "reduced unless told otherwise", q + "galaxy_shear", "sheared_default",
         lambda z: {k: z.arr(k, (3,)) for k in ("lon", "lat", "eps")} | {k: z.arr(k, (12,)) for k in ("kappa", "g1", "g2")} | {"reduced": True}, ref="ref_sheared",
         records={"hp.ang2pix": pixels, "hp.npix2nside": lambda it, kw: (it.g.const(1), ())})
    case(c, "intrinsic alignment", "NLA model", q + "redshifts", "alignment", lambda z: {"delta": z.arr("delta", (2,))} | {k: z.arr(k) for k in ("zeff", "a", "z0", "eta", "lbar", "l0", "beta")}, **COSMOLOGY)


def pixels(it, kw):
    flag = kw.get("lonlat")
    if flag is not None and flag.op != "const":
        return None, ()
    a, b = kw.get("theta"), kw.get("phi")
    if flag is None or not flag.data:
        half, pi = it.g.const(180.0), it.g.mk("ext", (), "math.pi")
        a, b = (it.binop("/", it.binop("*", x, half), pi) for x in (b, a))
        b = it.binop("-", it.g.const(90.0), b)
    kw["lon"], kw["lat"] = a, b
    return it.carrf((3,), [3, 0, 7]), ("lon", "lat")


def harmonic(it, kw):
    n = kw.get("lmax")
    if n is None or n.op != "const" or not isinstance(n.data, int):
        return None, ()
    return it.result_of("alm", ((n.data + 1) * (n.data + 2) // 2,)), ("maps", "lmax")


def sky(nside):
    """Records of the HEALPix functions for maps of one resolution."""
    npix = 12 * nside**2

    def pixel_window(it, kw):
        n, pol = kw.get("lmax"), kw.get("pol")
        n = 3 * nside - 1 if n is None or n.op == "const" and n.data is None else n.data if n.op == "const" else None
        if not isinstance(n, int):
            return None, ()
        if pol is not None and pol.op == "const" and pol.data:
            return it.g.tuple([it.result_of("temperature", (n + 1,)), it.result_of("polarisation", (n + 1,))]), ("nside",)
        return it.result_of("temperature", (n + 1,)), ("nside",)

    def scalar_map(it, kw):
        return it.result_of("hp.alm2map", (npix,)), ("alms", "nside", "lmax")

    def spin_map(it, kw):
        return it.g.tuple([it.result_of("hp.alm2map_spin", (npix,)), it.g.mk("un", (it.result_of("hp.alm2map_spin", (npix,)),), "-")]), ("alms", "nside", "spin", "lmax")
    return {"hp.map2alm": harmonic, "hp.pixwin": pixel_window, "hp.alm2map": scalar_map, "hp.alm2map_spin": spin_map,
            "hp.get_nside": lambda it, kw: (it.g.const(nside), ()), "hp.npix2nside": lambda it, kw: (it.g.const(nside), ())}


SKY = sky(1)


def planes(it, kw):
    return it.result_of("matrix", (3, 3)), ()


def maps(c):
    q = "glass.lensing:"
    for nside, lmax, disc in [(1, n, d) for n, d in itertools.product((None, 0, 1, 3), (True, False))] + [(2, n, True) for n in (None, 3, 7)]:
        case(c, "lensing maps", f"from convergence, nside={nside}, lmax={lmax}, {'with' if disc else 'without'} pixel windows", q + "from_convergence", "maps",
             lambda z: {"kappa": z.arr("kappa", (12 * nside**2,)), "lmax": lmax, "discretized": disc, "nside": nside}, records=sky(nside))
    for n in (2, 3, 4, 5):
        def bind(z):
            for k in range(n):
                z.ranks[(f"z{k}",)] = k + 1
            return {"delta": z.tuple([z.arr(f"delta{k}", (2,)) for k in range(n)]), "zs": z.tuple([z.arr(f"z{k}") for k in range(n)]),
                    "ws": z.tuple([z.arr(f"w{k}") for k in range(n)])}
        case(c, "lensing planes", f"convergence of {n} planes in a flat universe", q + "MultiPlaneConvergence.add_plane", "convergence", bind,
             **COSMOLOGY, flat={"transverse_comoving_distance"})
    def shells(z):
        z.ranks.update({("ze",): 1, ("zf",): 4})
        return {"za": z.grid("za", (0, 2, 3)), "wa": z.arr("wa", (3,)), "ze": z.arr("ze"), "zb": z.grid("zb", (2, 3, 5)), "wb": z.arr("wb", (3,)), "zf": z.arr("zf")}
    flat = {"transverse_comoving_distance"}
    case(c, "lensing planes", "convergence of windows", q + "MultiPlaneConvergence.add_window", "windowed", lambda z: shells(z) | {"delta": z.tuple([z.arr(f"delta{k}", (2,)) for k in range(2)])},
         **COSMOLOGY, flat=flat)
    case(c, "lensing planes", "matrix of windows", q + "multi_plane_matrix", "matrix", shells, **COSMOLOGY, flat=flat)
    for d, ref in (((), "ref_plane_weight"), ((2,), None)):
        case(c, "lensing weights", f"weights of shape {(3, *d)}", q + "multi_plane_weights", "plane_weights",
             lambda z: {"w": z.arr("w", (3, *d)), "shells": z.tuple([z.arr(f"shell{k}") for k in range(3)])}, ref=ref,
             opaque={"glass.lensing:multi_plane_matrix"}, records={"multi_plane_matrix": planes})


def spectra(c):
    q = "glass.fields:"
    for lmax, ncorr in itertools.product((None, 1, 4), (None, 0, 1)):
        case(c, "spectra", f"discretised spectra, lmax={lmax}, ncorr={ncorr}", q + "discretized_cls", "discretized",
             lambda z: {k: z.arr(k, (3,)) for k in "abc"} | {"lmax": lmax, "ncorr": ncorr}, records=SKY)
    for given, lmax in itertools.product((False, True), (None, 1, 4)):
        case(c, "spectra", f"effective spectra, {'two sets of' if given else 'the same'} weights, lmax={lmax}", q + "effective_cls", "effective",
             lambda z: {k: z.arr(k, (3,)) for k in "abc"} | {"v": z.arr("v", (2,)), "w": z.arr("w", (2,)) if given else z.const(None), "lmax": lmax})
    for v, w, lmax in (((2,), None, None), ((2, 2), None, 1), ((3,), None, 3), ((2,), (2,), 1), ((3,), (2,), None), ((), (2,), 1), ((2, 1), (2,), 3), ((1, 2), (), 1)):
        case(c, "spectra", f"effective spectra, weights of shapes {(2, *v)} and {w if w is None else (2, *w)}, lmax={lmax}", q + "effective_cls", "effective_arrays",
             lambda z: {k: z.arr(k, (3,)) for k in "abc"} | {"v": z.arr("v", (2, *v)), "w": z.const(None) if w is None else z.arr("w", (2, *w)), "lmax": lmax})
    for n in (1, 3, 5):
        case(c, "spectra", f"coefficients up to {n - 1} multiplied", "glass.harmonics:multalm", "beamed", lambda z: {"alm": z.arr("alm", (n * (n + 1) // 2,)), "bl": z.arr("bl", (n,))})
