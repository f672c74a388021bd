"""K01: the stiffness matrix is the sum of the Timoshenko beam elements."""
import numpy as np

from ..engine import Out, Space
from ..geo import values
from .. import mech, meshes

ASSUMPTIONS = ["entries compared within 1e-9 relative", "length bounds that leave no element length positive, or "
               "that cross each other, are outside the property"]


def visit(st):
    from fibermat import stiffness
    src, mod, kc, kmin, kmax = st
    out = Out()
    mat, mesh = meshes.build(src)
    mech.set_moduli(mat, mod)
    bd = mech.bounds(mesh, kmin, kmax)
    if bd is not None:
        kw = {k: v for k, v in (("lmin", bd[0]), ("lmax", bd[1])) if v is not None}
        if kc is not None:
            kw["coupling"] = kc
        m0, M0 = mesh.copy(), mat.copy()
        K, u, F, du, dF = stiffness(mat, mesh, **kw)
        ref, n = mech.ref_K(values(mat), mesh, bd[0], bd[1], 1.0 if kc is None else kc)
        if K.shape != (n, n):
            out.fail("shape", "K is %s for %d nodes" % (K.shape, len(mesh)))
        else:
            d = mech.diff(mech.as_dict(K), ref)
            if d:
                out.fail("entry", "K%s = %r instead of %r with %s" % (d[0], d[1], d[2], kw))
        for name, v in (("u", u), ("F", F), ("du", du), ("dF", dF)):
            if np.shape(v) != (n,) or np.any(v):
                out.fail(name, "%s is not the zero vector of size %d" % (name, n))
        if not (m0.equals(mesh) and M0.equals(mat)):
            out.fail("input", "the mat or mesh was modified")
        out.traces = 1
        out.states = len(mech.elements(mesh))
        out.outcome = hash(tuple(sorted((k, round(v, 6)) for k, v in ref.items())))
        out.note = "%d nodes %s" % (len(mesh), kw)
    # transitions: change one parameter away from its default
    if mod == "given":
        for m in mech.MODULI[1:]:
            out.succ.append(("moduli", (src, m, kc, kmin, kmax)))
    if kc is None:
        for c in mech.COUPLING:
            out.succ.append(("coupling", (src, mod, c, kmin, kmax)))
    if kmin == "none":
        for k in mech.LMIN[1:]:
            out.succ.append(("lmin", (src, mod, kc, k, kmax)))
    if kmax == "none":
        for k in mech.LMAX[1:]:
            out.succ.append(("lmax", (src, mod, kc, kmin, k)))
    dev = (mod != "given") + (kc is not None) + (kmin != "none") + (kmax != "none")
    if dev >= BOUND:
        out.succ = []
    return out


BOUND = 2


def spaces(tier):
    global BOUND
    meshes.TIER = tier
    BOUND = 4 if tier == "thorough" else 2
    return [Space("assembly", [(s, "given", None, "none", "none") for s in mech.mesh_states(tier)], visit,
                  "every mesh, departing from the defaults in at most %d parameters" % BOUND)]
