"""Lens planes advance strictly in order and atomically.

1. Guard: in add_plane, evaluated for an arbitrary object, the path condition of every write to
   the object implies that the new redshift exceeds the one the object reports, so no rejected
   plane changes anything.  2. Reported state: with the same arbitrary object, the values X Recurrence: the package
   is driven symbolically through four accepted planes and every reported value is compared, as
   an exact rational function of the planes' redshifts, weights and fields and of the
   cosmology's distances, with the published recurrence (specs/lensing.py).  3. Windows are driven the same
   way: a window is the plane at its effective redshift with its lensing weight.
"""

from ..alg import Alg
from ..facts import Facts
from ..interp import Config, analyse
from ..ir import Graph, deps, show
from ..refs import compare
from ..util import HP, UX

MPC = "glass.lensing:MultiPlaneConvergence"
ASSUMPTIONS = ["The cosmology's distance methods work elementwise on a list of two redshifts.",
               "Comparisons are between real numbers; redshifts that are NaN may be treated either way."]
STATE = ("zsrc", "kappa", "delta", "wlens")


def alg():
    return Alg(fill=True, elementwise={"transverse_comoving_distance", "comoving_distance", "H_over_H0"})


def check(c):
    c.section(guard, c, c.project)
    c.section(recurrence, c)
    c.section(window, c)


def guard(c, p):
    q = MPC + ".add_plane"
    it = analyse(p, q, Config(primitive_prefix=[HP, UX], notnull={"delta", "zsrc"}), graph=Graph())
    c.count(it)
    F = Facts(alg())
    own = [n for n in it.g.nodes if n.op == "attr0"]
    # the stored value the zsrc property reports
    z = analyse(p, MPC + ".zsrc", Config(), graph=it.g)
    Z = z.result
    zsrc = next((n for n in it.g.nodes if n.op == "param" and n.data[1] == "zsrc"), None)
    writes = [e for e in it.events if e.kind in ("attr_write", "attr_init", "global_write")
              or (e.kind == "mutate" and any(n.op == "attr0" for n in deps([e.node]).values()) and e.node.op == "attr0")]
    if zsrc is None or not writes or it.broken or it.gaps:
        c.unk("writes only after acceptance", "MultiPlaneConvergence.add_plane", f"{it.broken or it.gaps[:2] or 'no writes found'}")
        return
    for n in own:
        if n.data == Z.data and n.op == Z.op:
            Z = n
    goal = F.form(it.g.cmp("<", Z, zsrc))
    for e in writes:
        pre = F.pc(e.pc)
        r = F.entails(pre, goal)
        if r is not True:
            r2 = F.entails(pre, goal, nan=False)
            r = True if r2 is True else r2
        name = f"add_plane:{e.info.get('attr', e.kind)}"
        if r is True:
            c.ok("writes only after acceptance", name, show(e.node, 2), e.loc)
        elif r is None or any(n.op in ("unknown", "ucall", "opaque", "exc") for cn, _ in e.pc for n in deps([cn]).values()):
            c.unk("writes only after acceptance", name, "path condition not understood", e.loc)
        else:
            c.bad("writes only after acceptance", name, f"written although the plane is not above the last one ({F.explain(r)})", e.loc)


def leafok(name, node):
    if name == "leaf":
        return node is not None and node.op in ("param", "const")
    return name.startswith(("mcall:('transverse_comoving_distance'", "mcall:('H_over_H0'", "mcall:('comoving_distance'",
                            ".Omega_m0", ".hubble_distance", "sqrt", "list", "tuple", "pow", ".za", ".wa", ".zeff",
                            "trapezoid:", "interp:", "index", "slice"))


def recurrence(c):
    compare(c, "lensing", "planes", "ref_planes", "reported state follows the recurrence", "planes",
            names=[f"plane {i}:{s}" for i in (1, 2, 3, 4) for s in STATE],
            alg=lambda a: alg(), ok=leafok, anchor=MPC + ".add_plane")


def window(c):
    compare(c, "lensing", "windows", "ref_windows", "windows are planes at their effective redshift", "windows",
            names=[f"window {i}:{s}" for i in (1, 2) for s in STATE],
            alg=lambda a: alg(), ok=leafok, anchor=MPC + ".add_window")
