"""Every option a caller sets is honoured.

1. Influence: for every public function and method and for every combination of left-out and
   given optional arguments, flags and named methods, the value-flow graph says which parameters
   reach the results (through data, choices and control of loops) and which reach any effect.
   Each parameter that is documented to matter under a combination (the reviewed table
   influence.json) still does.  2. Wrappers around healpy and healpix hand each parameter on under
   its own name and none is replaced by a fixed value.  3. In calls between functions of the
   package, two options known to both sides are not exchanged.  4. A namespace given as xp is
   used instead of being inferred again from the arguments or replaced by NumPy.
"""

import ast
import json
import pathlib

from ..influence import configs, influence, key, params_of
from ..interp import Config, analyse
from ..ir import show
from ..util import HP, entries, is_protocol, short

ASSUMPTIONS = ["Functions of other libraries are influenced by every argument they are given.",
               "Positional parameters of healpy 1.18 and healpix 2024 functions are those listed in the check."]
TABLE = pathlib.Path(__file__).resolve().parent.parent / "influence.json"

SIGS = {
    "healpy.alm2map": ["alms", "nside", "lmax", "mmax", "pixwin", "fwhm", "sigma", "pol", "inplace", "verbose"],
    "healpy.alm2map_spin": ["alms", "nside", "spin", "lmax", "mmax"],
    "healpy.almxfl": ["alm", "fl", "mmax", "inplace"],
    "healpix.ang2pix": ["nside", "theta", "phi", "nest", "lonlat"],
    "healpix.ang2vec": ["theta", "phi", "lonlat"],
    "healpy.get_nside": ["m"],
    "healpy.map2alm": ["maps", "lmax", "mmax", "iter", "pol", "use_weights", "datapath", "gal_cut", "use_pixel_weights", "verbose"],
    "healpix.npix2nside": ["npix"],
    "healpix.nside2npix": ["nside"],
    "healpy.pixwin": ["nside", "pol", "lmax", "datapath"],
    "healpix.randang": ["nside", "ipix", "nest", "lonlat", "rng"],
}
OWN = {"xp", "dtype", "rng"}


def check(c):
    p = c.project
    table = json.loads(TABLE.read_text())
    for q in entries(p):
        if not is_protocol(p, q):
            c.section(one, c, p, q, table)
    c.section(wrappers, c, p)
    c.section(exchanged, c, p)
    c.section(given_namespace, c, p)


def one(c, p, q, table):
    names, extra = params_of(p, q)
    have = {a.arg for a, _ in names} | set(extra)
    lost = {}
    n = 0
    for cfg in configs(p, q):
        k = f"{q}|{key(cfg)}"
        if k not in table:
            continue
        res, eff, it = influence(p, q, cfg)
        c.count(it)
        want_r, want_e = (set(x) & have for x in table[k])
        for what, want, got in (("the result", want_r, res), ("anything it does", want_e, eff)):
            for x in sorted(want - got):
                if it.broken or it.gaps or any(m.op == "unknown" for m in it.g.nodes):
                    c.unk("influence of parameters", f"{short(q)}:{x}", f"{it.broken or it.gaps[:2]}")
                else:
                    lost.setdefault((x, what), []).append(cfg)
            n += len(want & got)
    fn = p.find_func(q)[2]
    for (x, what), cs in lost.items():
        if (x, "the result") in lost and what != "the result":
            continue
        c.bad("influence of parameters", f"{short(q)}:{x}",
              f"{x} no longer influences {what} when {key(cs[0]) or 'called'} ({len(cs)} combinations)",
              (p.find_func(q)[0].rel, fn.lineno, q.split(":")[1]))
    if n and not lost:
        c.ok("influence of parameters", short(q), f"{n} parameter-combination pairs")


def positional(fn, args, kwargs):
    sig = SIGS.get(fn)
    out = dict(kwargs)
    if sig:
        for s, a in zip(sig, args):
            if a.op == "star":
                break
            out[s] = a
    return out


def wrappers(c, p):
    m = p.modules.get("glass.healpix")
    if m is None:
        return
    for q in entries(p):
        if not q.startswith(HP) or "_Writable" in q or q.endswith("__init__"):
            continue
        names, _ = params_of(p, q)
        mine = {a.arg for a, _ in names}
        it = analyse(p, q, Config())
        c.count(it)
        for e in it.events:
            if e.kind != "extcall":
                continue
            fn = str(e.info["fn"])
            if not fn.startswith(("healpy.", "healpix.")):
                continue
            given = positional(fn, e.info["args"], e.info["kwargs"])
            for k, v in given.items():
                if v.op == "param" and v.data[1] != k and k in mine - OWN:
                    c.bad("wrappers hand on their parameters", f"{short(q)}:{k}", f"{fn} is given {v.data[1]} as {k}", e.loc)
                elif v.op == "const" and k in mine - OWN:
                    c.bad("wrappers hand on their parameters", f"{short(q)}:{k}", f"{fn} is given the fixed value {show(v)} as {k}", e.loc)
                elif v.op == "not" and v.args[0].op == "param" and v.args[0].data[1] == k:
                    c.bad("wrappers hand on their parameters", f"{short(q)}:{k}", f"{fn} is given the opposite of {k}", e.loc)
                elif k in mine:
                    c.ok("wrappers hand on their parameters", f"{short(q)}:{k}", f"{fn}({k}={show(v, 2)})")


def exchanged(c, p):
    n = 0
    for q in entries(p):
        if is_protocol(p, q):
            continue
        names, _ = params_of(p, q)
        mine = {a.arg for a, _ in names}
        opt = {a.arg for a, d in names if d is not None}
        it = analyse(p, q, Config(primitive_prefix=[]))
        for e in it.events:
            if e.kind == "fncall":
                vals, fn = e.info["vals"], e.info["fn"]
            elif e.kind in ("nscall", "extcall", "primcall", "mcall", "ucall"):
                vals, fn = e.info.get("kwargs") or {}, e.info.get("fn") or e.info.get("name")
                if not isinstance(vals, dict):
                    continue
            else:
                continue
            n += 1
            for k, v in vals.items():
                if k and v is not None and v.op == "param" and v.data[0] == q and v.data[1] != k and v.data[1] in vals and k in mine and \
                        (k in opt or v.data[1] in opt):
                    other = vals[v.data[1]]
                    if other is not None and other is not v:
                        c.bad("options are not exchanged", f"{short(q)}:{k}", f"{fn} is given {v.data[1]} as {k}", e.loc)
    c.ok("options are not exchanged", "package", f"{n} calls")


def given_namespace(c, p):
    for q in entries(p):
        if is_protocol(p, q):
            continue
        names, _ = params_of(p, q)
        d = {a.arg: a for a, _ in names}
        if "xp" not in d or q.startswith(("glass._array_api_utils", "glass.rng:", "glass.healpix:")):
            continue
        it = analyse(p, q, Config(notnull={"xp"}, primitive_prefix=[HP]))
        own = q.split(":")[1].split(".")[-1]
        bad = [e for e in it.events if e.kind == "namespace" and e.loc and e.loc[2] == own]
        mk = [e for e in it.events if e.kind == "nscall" and e.info["ns"] == "np" and e.loc and e.loc[2] == own]
        if bad:
            c.bad("a given namespace is used", short(q), "the namespace is inferred although it was given", bad[0].loc)
        elif mk:
            c.bad("a given namespace is used", short(q), f"np.{mk[0].info['name']} is used although a namespace was given", mk[0].loc)
        else:
            c.ok("a given namespace is used", short(q))
