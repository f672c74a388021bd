"""C02: a stacked mat enters the solver without any penetration."""
import numpy as np

from ..engine import Out, Space
from ..geo import pairs_of
from .. import stacks

ASSUMPTIONS = ["horizontal fibers", "within 1e-6 (tolerance of the linear-programming back end)"]


THOROUGH = False


def visit(st):
    from fibermat import Mesh, Stack, constraint
    out = Out()
    src, hist = st
    mat, cur, piles = stacks.build(src)
    for t in hist:
        cur = Stack(mat, cur, threshold=t)
    if len(hist) and len(mat):
        mesh = Mesh(cur)
        C, f, H, df, dH = constraint(mat, mesh)
        H = np.asarray(H, float)
        tol = 1e-6 * max(1.0, mat.z.max())
        C = C.tocsr()
        if (H < -tol).any() or np.isnan(H).any():
            k = int(np.argmin(H))
            cols = C[k].indices
            out.fail("penetration", "constraint %d on nodes %s (fibers %s) is violated by %r" % (
                k, (cols // 2).tolist(), mesh.fiber.values[cols // 2].tolist(), -H[k]))
        up = np.asarray(dH) > 0
        lo = np.zeros(len(H), bool)
        nz = C.getnnz(axis=1)
        s = np.asarray(C.sum(axis=1)).ravel()
        lo = (s < 0) & ~up
        if not lo.any() or not abs(H[lo].min()) <= tol:
            out.fail("floor", "no fiber touches the floor")
        if not up.any() or not abs(H[up].min()) <= tol:
            out.fail("plate", "no fiber touches the plate")
        out.outcome = hash(np.round(H[np.isfinite(H)], 4).tobytes())
        out.traces = 1
        out.states = piles
        out.note = "%d constraints, min %r" % (len(H), H.min())
    big = src[0] == "piles" or src[0] == "gen" and src[1][0] > (50 if THOROUGH else 25) or src[0] == "subset" and src[1] > 3 and not THOROUGH
    if len(hist) < (1 if big else 2):
        for t in (None, 0.0, 1.2, 2.6, 5.0):
            if len(hist) == 0 or t in (None, 1.2):
                out.succ.append(("stack", (src, hist + (t,))))
    return out


def spaces(tier):
    global THOROUGH
    THOROUGH = tier == "thorough"
    init = [(s, ()) for s in stacks.stack_states(tier) if not (s[0] == "gen" and s[1][3] != 0)
            and not (s[0] == "piles" and s[1] == "w3" and tier != "thorough")
            and not (s[0] == "gen" and s[1][0] == 100 and s[2] and tier != "thorough")
            and not (s[0] == "subset" and s[1] == 4 and s[3] and tier != "thorough")]
    return [Space("histories", init, visit, "all histories of up to two stackings over 5 thresholds",
                  label=lambda s: stacks.label(s[0]) + " " + repr(s[1]))]
