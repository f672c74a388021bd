"""S03: stacking contact forces carry the weights down to the floor."""
import numpy as np

from ..engine import Out, Space
from ..geo import pairs_of, ref_heights, values
from .. import stacks

ASSUMPTIONS = ["forces are read as documented: marginals of the inequality rows, sign changed",
               "balance within 1e-6 of the total weight"]


def visit(st):
    from fibermat import Stack
    out = Out()
    mat, net, piles = stacks.build(st)
    M = values(mat)
    n = len(M)
    h = M[:, 2]
    pairs = [p for p in pairs_of(net) if p[0] < p[1]]
    C, f, H, hh = Stack.constraint(mat, net)
    C = C.toarray() if hasattr(C, "toarray") else np.asarray(C)
    f = np.asarray(f, float)
    w = M[:, 0] * M[:, 1] * M[:, 2]
    out.traces = 1
    # the linear system: one row per connection, z_A - z_B <= -(h_A + h_B)/2; the objective is the weight
    if C.shape != (len(pairs), n) or np.shape(H) != (len(pairs),) or not np.allclose(hh, h):
        out.fail("shape", "system of shape %s for %d connections of %d fibers" % (C.shape, len(pairs), n))
        return out
    want = sorted((i, j, round(-0.5 * (h[i] + h[j]), 9)) for i, j in pairs)
    got = []
    for row, b in zip(C, np.asarray(H, float)):
        nz = np.flatnonzero(row)
        if len(nz) != 2 or row[nz].sum() != 0 or abs(row[nz[0]]) != 1:
            out.fail("row", "constraint row %s" % row[nz])
            return out
        i, j = (nz[0], nz[1]) if row[nz[0]] > 0 else (nz[1], nz[0])
        got.append((int(i), int(j), round(float(b), 9)))
    if sorted(got) != want:
        out.fail("rows", "constraints %s differ from %s" % (
            sorted(set(got) - set(want))[:3], sorted(set(want) - set(got))[:3]))
        return out
    if n and not (f > 0).all() or n and not np.allclose(f / f[0], w / w[0], rtol=1e-9):
        out.fail("weights", "weights are not proportional to length*width*thickness: %s vs %s" % (f[:4], w[:4]))
        return out
    if n == 0:
        return out
    sol = Stack.solve(mat, net)
    x = np.asarray(sol.x, float)
    lam = -np.asarray(sol.ineqlin.marginals, float)
    tol = 1e-6 * f.sum()
    if len(lam) != len(got):
        out.fail("size", "%d forces for %d connections" % (len(lam), len(got)))
        return out
    if (lam < -tol).any():
        out.fail("adhesive", "negative contact force %r" % lam.min())
    floor = f.copy()
    for (i, j, b), m in zip(got, lam):
        floor[j] -= m   # j rests on i
        floor[i] += m
        if m > tol and x[j] - x[i] + b > 1e-6 * max(1, x.max()):
            out.fail("open", "force %r on the open contact %s-%s" % (m, i, j))
            break
    if (floor < -tol).any():
        k = int(np.argmin(floor))
        out.fail("balance", "fiber %d pushes the floor with %r" % (k, floor[k]))
    air = np.flatnonzero((x > 0.5 * h + 1e-6 * max(1, x.max())) & (np.abs(floor) > tol))
    if len(air):
        out.fail("balance", "fiber %d at height %r is not balanced: %r left" % (air[0], x[air[0]], floor[air[0]]))
    out.states = piles
    out.outcome = hash(np.round(floor / f.sum(), 4).tobytes())
    out.note = "floor reaction %r of weight %r" % (floor.sum(), f.sum())
    return out


def spaces(tier):
    return [Space("stacks", stacks.stack_states(tier), visit, "same stacks as S01", label=stacks.label)]
