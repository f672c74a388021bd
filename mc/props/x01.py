"""X01: every recorded compaction state is in equilibrium without penetration."""
import numpy as np

from ..engine import Out, Space
from .. import traj

ASSUMPTIONS = ["elements of positive length; positive coupling",
               "forces within 1e-6 N per unit of plate travel (the solver's own error tolerance), gaps within twice the contact tolerance"]
TOL = 1e-6


def judge(out, tag, mat, mesh, kw, T, t, between):
    """states at pseudo-times t"""
    K, z, h, i, j = traj.reference(mat, mesh, kw)
    _, C, u, f, F, H, Z, rl, mask, err = T.raw
    C = C.tocsr()
    for x in t:
        U, f_, F_, H_, Z_ = (np.asarray(v(x), float) for v in (u, f, F, H, Z))
        at = "%s t=%.6g" % (tag, x)
        if not (np.isfinite(U).all() and np.isfinite(f_).all() and np.isfinite(Z_)):
            out.fail("finite", "%s: a displacement, force or plate position is not finite" % at)
            return
        r = K @ U + C.T @ f_ - F_
        if np.any(F_):
            out.fail("load", "%s: external loads appeared" % at)
        scale = max(np.abs(f_).max(), (abs(K) @ np.abs(U)).max(), 1.0)
        if not np.abs(r).max() <= 2e-6 * max(1.0, T.Z[0] - T.Z[-1]) + 1e-9 * scale:
            out.fail("equilibrium", "%s: unbalanced force %r (largest force %r)" % (at, np.abs(r).max(), scale))
        floor, pair, plate = traj.gaps(z, h, i, j, U, float(Z_))
        for name, g in (("floor", floor), ("pair", pair), ("plate", plate)):
            if not g.min() >= -2 * TOL:
                out.fail(name, "%s: penetration of %r (%s)" % (at, -g.min(), name))
        g = np.stack([floor, pair, plate], axis=1).ravel()
        if len(g) != len(f_):
            out.fail("rows", "%s: %d contact forces for %d contacts" % (at, len(f_), len(g)))
            return
        if between:
            press = np.abs(f_) > 1e-6 * max(np.abs(f_).max(), 1.0)
            bad = press & ~(np.abs(g) <= 3 * TOL)
            if bad.any():
                r = int(np.flatnonzero(bad)[0])
                out.fail("complementarity", "%s: force %r on the open contact %d (%s, gap %r)" % (
                    at, f_[r], r, ("floor", "pair", "plate")[r % 3], g[r]))


def visit(sc):
    out = Out()
    mat, mesh, kw = traj.inputs(sc)
    mat, mesh, T = traj.run(sc)
    if T is None:
        out.note = "element of zero length"
        return out
    m = len(T.rl)
    t = np.linspace(0, 1, m)
    judge(out, "recorded", mat, mesh, kw, T, t, True)
    judge(out, "between", mat, mesh, kw, T, 0.5 * (t[1:] + t[:-1]), True)
    out.states, out.trans = T.n, T.n - 1
    out.traces = 1
    if T.n > 1:
        for size in (2, 7):
            _, _, T2 = traj.run(sc, interp_size=size)
            judge(out, "resampled %d" % size, mat, mesh, kw, T2, np.linspace(0, 1, size), False)
            out.traces += 1
        if T.n > 2:  # a target in the middle of the run
            p = 0.5 * (T.rl[T.n // 2] + T.rl[T.n // 2 - 1])
            _, _, T3 = traj.run(sc, packing=p)
            judge(out, "packing %.3g" % p, mat, mesh, kw, T3, np.linspace(0, 1, len(T3.rl)), True)
            out.traces += 1
    out.outcome = (T.n, round(float(T.rl[-1]), 6))
    out.note = "%d states, stretch %.3f" % (T.n, T.rl[-1])
    return out


def spaces(tier):
    return [Space("compaction", traj.scenarios(tier), visit, "every scenario of pile, connection subset and generated mat with every "
                  "option set; every recorded state and the straight paths in between", label=traj.label)]
