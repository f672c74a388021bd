"""S01: stacking drops every fiber to its lowest non-penetrating height."""
import numpy as np

from ..engine import Out, Space
from ..geo import pairs_of, ref_heights, values
from .. import stacks

ASSUMPTIONS = ["heights compared within 1e-6 (feasibility tolerance of the linear-programming back end)"]
TOL = 1e-6


def visit(st):
    from fibermat import Stack
    out = Out()
    mat, net, piles = stacks.build(st)
    h = mat.h.values.astype(float).copy()
    z0 = mat.z.values.copy()
    pairs = pairs_of(net)
    want = ref_heights(h, pairs)
    if len(mat):
        sol = Stack.solve(mat, net)
        x = np.asarray(sol.x)
        if not np.array_equal(mat.z.values, z0):
            out.fail("mutation", "solving alone changed the heights")
        report(out, "solve", x, want, pairs, h)
    Stack(mat, net)
    report(out, "stack", mat.z.values, want, pairs, h)
    # other initial heights, same result
    if len(mat):
        mat.z = -np.arange(len(mat)) * 3.0 + 5
        Stack(mat, net)
        report(out, "restack", mat.z.values, want, pairs, h)
    out.traces = 3 if len(mat) else 1
    out.states = piles
    out.outcome = hash(np.round(want, 3).tobytes())
    out.note = "heights %s..." % np.round(want[:6], 3).tolist()
    return out


def report(out, key, z, want, pairs, h):
    z = np.asarray(z, float)
    bad = np.flatnonzero(~(np.abs(z - want) <= TOL * max(1, want.max() if len(want) else 1)))
    if len(bad):
        k = bad[0]
        out.fail(key, "%d of %d heights wrong, fiber %d at %r instead of %r (thickness %r, above %s)" % (
            len(bad), len(z), k, z[k], want[k], h[k], [i for i, j in pairs if j == k and i < j][:5]))


def spaces(tier):
    return [Space("stacks", stacks.stack_states(tier), visit,
                  "all piles up to 3 (4) fibers over 18 (6) letters; all connection subsets of 3-4 (5) crossing "
                  "fibers; generated mats", label=stacks.label)]
