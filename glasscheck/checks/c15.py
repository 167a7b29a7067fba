"""Displacements on the sphere are undone exactly by computing the displacement.

displace and displacement are evaluated symbolically and composed in one value graph; with exact
trigonometric algebra (sin^2 + cos^2 = 1, angles recovered from their sine and cosine, positive
common factors of the arguments of atan2 cancelled) the composition normalises to the displacement
that was applied, for every longitude, latitude and displacement shorter than half a turn.  The
displaced position is compared with the great circle of the published construction: as far as the
length of the displacement, starting towards its angle measured from north to east, whichever way
displacements are passed (complex numbers or pairs of components).
"""

from ..alg import Alg
from ..refs import compare

ASSUMPTIONS = ["Exact real arithmetic; positions away from the poles and displacements of less than half a turn, "
               "where longitude and direction are defined."]
D = "glass.points:displace"
L = "glass.points:displacement"


def complex_input(v):
    def decide(c):
        if c.op != "call":
            return None
        if c.data[0].endswith(("iscomplexobj", "isrealobj")):
            return v != c.data[0].endswith("isrealobj")
        if c.data[0].endswith("isdtype") and len(c.args) == 2:
            ks = [k.data for k in (c.args[1].args if c.args[1].op == "tuple" else [c.args[1]])]
            known = {"complex floating": v, "real floating": not v, "numeric": True, "bool": False, "integral": False,
                     "signed integer": False, "unsigned integer": False}
            rs = [known.get(k) if isinstance(k, str) else None for k in ks]
            return True if True in rs else None if None in rs else False
        return None
    return decide


def alg(v):
    def mk(a):
        z = Alg(assume=a, real=True, decide=complex_input(v))
        z.ranges = ranges
        return z
    return mk


def ranges(name, args, node):
    """Longitudes, latitudes and displacements that identity testing uses."""
    if node is not None and node.op == "param":
        return {"lon": (-180, 180), "lat": (-85, 85)}.get(node.data[1], (-1.5, 1.5))
    return (-1.5, 1.5)


def check(c):
    for v, s in ((True, ""), (False, "_pair")):
        how = "complex displacement" if v else "pair of components"
        c.section(compare, c, "sphere", "round_trip" + s, "ref_round_trip" + s, "displacement undoes displacing",
                  how, None, alg=alg(v), anchor=L)
        c.section(compare, c, "sphere", "move" + s, "ref_move" + s, "displaced along the great circle", how,
                  ["longitude", "latitude"], alg=alg(v), anchor=D)
