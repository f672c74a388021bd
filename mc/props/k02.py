"""K02: elastic energy is non-negative and blind to rigid motions."""
import numpy as np

from ..engine import Out, Space
from ..geo import frame, values
from .. import mech, meshes

ASSUMPTIONS = ["eigenvalues within 1e-9 of the largest count as zero when testing signs",
               "finite moduli"]


def alone(mat, mesh, k):
    """fiber k and its nodes, as a mat and a mesh of one fiber"""
    m = frame([values(mat)[k]], mat.attrs["size"])
    e = mesh[mesh.fiber.values == k].reset_index(drop=True)
    e["fiber"] = 0
    e["constraint"] = np.arange(len(e))
    e["beam"] = np.roll(np.arange(len(e)), -1)
    e.attrs = dict(mesh.attrs, n=1)
    return type(mat)(m), type(mesh)(e)


def visit(st):
    from fibermat import stiffness
    src, mod, kc, kmin, kmax = st
    out = Out()
    mat, mesh = meshes.build(src)
    mech.set_moduli(mat, mod)
    bd = mech.bounds(mesh, kmin, kmax)
    if bd is not None:
        kw = dict(lmin=bd[0], lmax=bd[1], coupling=kc)
        K = np.asarray(stiffness(mat, mesh, **kw)[0].toarray(), float)
        f = mesh.fiber.values
        s = mesh.s.values.astype(float)
        dof = np.repeat(f, 2)
        big = np.abs(K).max()
        if not np.isfinite(K).all():
            out.fail("finite", "K has non-finite entries with %s" % kw)
            return out
        if np.abs(K - K.T).max() > 1e-12 * big:
            out.fail("symmetry", "K is not symmetric with %s" % kw)
        if (K[dof[:, None] != dof[None, :]] != 0).any():
            out.fail("coupled", "K couples different fibers with %s" % kw)
        for k in np.unique(f):
            B = K[np.ix_(dof == k, dof == k)]
            top = np.abs(B).max()
            # scale rotations by a length to compare like with like
            d = np.ones(len(B))
            d[1::2] = 1.0 / mat.l.loc[k]
            S = B * d[:, None] * d[None, :]
            ev = np.linalg.eigvalsh(S)
            if ev[0] < -1e-9 * max(ev[-1], 1e-300):
                out.fail("negative", "fiber %d has a motion of energy %r (largest %r) with %s" % (k, ev[0], ev[-1], kw))
            t = np.zeros(len(B))
            t[0::2] = 1
            if np.abs(B @ t).max() > 1e-9 * top:
                out.fail("translation", "lifting fiber %d costs %r with %s" % (k, np.abs(B @ t).max(), kw))
            if kc == 1.0 and kmin == "none" and kmax == "none":
                r = np.ones(len(B))
                r[0::2] = s[f == k]
                r /= d
                if np.abs(S @ r).max() > 1e-8 * np.abs(S).max() * np.abs(r).max():
                    out.fail("tilt", "tilting fiber %d rigidly needs a force %r (largest entry %r)" % (k, np.abs(S @ r).max(), np.abs(S).max()))
                if mod != "stiff" and len(ev) > 2 and ev[2] <= 1e-12 * ev[-1]:
                    out.fail("free", "fiber %d has a third motion without energy: %s" % (k, ev[:4]))
        # independence: changing the other fibers leaves a fiber's own block alone
        fs = np.unique(f)
        if len(fs) > 1:
            k = fs[len(fs) // 2]
            mat2 = mat.copy()
            other = mat2.index != k
            for c, v in (("G", 3.0), ("E", 0.5), ("b", 2.0), ("h", 1.5)):
                mat2.loc[other, c] = mat2.loc[other, c] * v
            K2 = stiffness(type(mat)(mat2), mesh, **kw)[0].toarray()
            sel = np.ix_(dof == k, dof == k)
            if not np.allclose(K[sel], K2[sel], rtol=1e-10, atol=0):
                out.fail("dependence", "the stiffness of fiber %d depends on the other fibers" % k)
            # ... and so does taking them away
            for k in fs[[0, -1]] if kmin == kmax == "none" else ():
                m1, e1 = alone(mat, mesh, k)
                K1 = stiffness(m1, e1, coupling=kc)[0].toarray()
                sel = np.ix_(dof == k, dof == k)
                if not np.allclose(K[sel], K1, rtol=1e-9, atol=1e-12 * np.abs(K1).max()):
                    out.fail("alone", "the stiffness of fiber %d is another one when it is alone" % k)
        out.traces = 1 + (len(fs) > 1)
        out.states = len(fs)
        out.outcome = hash(np.round(K / big, 6).tobytes())
        out.note = "%d fibers %s" % (len(fs), kw)
    dev = (mod != "given") + (kc != 1.0) + (kmin != "none") + (kmax != "none")
    if dev < BOUND:
        if mod == "given":
            out.succ += [("moduli", (src, m, kc, kmin, kmax)) for m in mech.MODULI[1:3]]
        if kc == 1.0:
            out.succ += [("coupling", (src, mod, c, kmin, kmax)) for c in mech.COUPLING[1:]]
        if kmin == "none":
            out.succ += [("lmin", (src, mod, kc, k, kmax)) for k in mech.LMIN[1:]]
        if kmax == "none":
            out.succ += [("lmax", (src, mod, kc, kmin, k)) for k in mech.LMAX[1:]]
    return out


BOUND = 2


def spaces(tier):
    global BOUND
    meshes.TIER = tier
    BOUND = 4 if tier == "thorough" else 2
    return [Space("energy", [(s, "given", 1.0, "none", "none") for s in mech.mesh_states(tier, True)], visit,
                  "every mesh, departing from the defaults in at most %d parameters" % BOUND)]
