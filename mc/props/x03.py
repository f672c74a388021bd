"""X03: compaction advances contact by contact and stops when it should."""
import numpy as np
import scipy.sparse as sps

from ..engine import Out, Space
from .. import traj

ASSUMPTIONS = ["default tolerances (1e-6); systems as accurate as the default solver solves them"]
TOL = 1e-6


def recorder(calls):
    def solve(A, b):
        x = sps.linalg.spsolve(A, b)
        calls.append(np.array(x))
        return x
    return solve


def same(a, b, n):
    """the first n recorded states agree"""
    for name in ("u", "f", "F", "H", "Z", "rl", "mask", "err"):
        x, y = getattr(a, name)[:n], getattr(b, name)[:n]
        if x.shape != y.shape or not np.array_equal(x, y, equal_nan=x.dtype.kind == "f"):
            if x.shape == y.shape and x.dtype.kind == "f" and np.allclose(x, y, rtol=1e-9, atol=1e-9):
                continue
            return name
    return None


def visit(sc):
    from fibermat import constraint, stiffness
    out = Out()
    mat, mesh, kw = traj.inputs(sc)
    calls = []
    mat, mesh, T = traj.run(sc, solve=recorder(calls))
    if T is None:
        return out
    n = T.n
    K, z, h, i, j = traj.reference(mat, mesh, kw)
    nu = K.shape[0]
    # -- start
    Z0 = (z + 0.5 * h).max()
    if T.Z[0] != Z0 or T.rl[0] != 1.0 or np.any(T.u[0]) or np.any(T.f[0]) or np.any(T.err[0]):
        out.fail("start", "the first state is not the mat at rest under its own height")
    m = len(i)
    for name, a, k in (("u", T.u, nu), ("f", T.f, 3 * m), ("F", T.F, nu), ("H", T.H, 3 * m), ("mask", T.mask, nu + 3 * m)):
        if a.shape[1:] != (k,):
            out.fail("shape", "%s has shape %s" % (name, a.shape))
            return out
    G = np.array([np.stack(traj.gaps(z, h, i, j, T.u[k], T.Z[k]), axis=1).ravel() for k in range(n)])
    H0 = np.stack(traj.gaps(z, h, i, j, np.zeros(nu), Z0), axis=1).ravel()
    dH = np.zeros(3 * m)
    dH[2::3] = 1
    for k in range(n):
        if not np.isclose(T.rl[k], T.Z[0] / T.Z[k], rtol=1e-12):
            out.fail("stretch", "state %d: stretch factor %r, plate %r of %r" % (k, T.rl[k], T.Z[k], T.Z[0]))
        want = H0 + dH * (T.Z[k] - Z0)
        # vacuous rows of fiber ends: anything non-negative
        cmp_ = np.isfinite(want)
        if not np.allclose(T.H[k][cmp_], want[cmp_], rtol=1e-9, atol=1e-9) or not (T.H[k][~cmp_] >= 0).all():
            out.fail("bounds", "state %d: upper bounds do not follow the plate" % k)
    for k in range(n - 1):
        if not T.Z[k + 1] < T.Z[k]:
            out.fail("descent", "state %d: the plate does not move down (%r -> %r)" % (k + 1, T.Z[k], T.Z[k + 1]))
        if not T.Z[k + 1] > 0:
            out.fail("floor", "state %d: the plate went through the floor (%r)" % (k + 1, T.Z[k + 1]))
        opened = np.isfinite(G[k]) & (G[k] > TOL)
        shut = opened & (G[k + 1] <= 2 * TOL)
        if not shut.any():
            out.fail("event", "state %d closes no contact" % (k + 1))
        # the active contacts of the step are the contacts closed before it
        act = T.mask[k + 1][nu:].astype(bool)
        sure = ~np.isfinite(G[k]) | (np.abs(G[k] - TOL) > 1e-8)
        want = np.isfinite(G[k]) & (G[k] <= TOL)
        if (act != want)[sure].any():
            r = int(np.flatnonzero((act != want) & sure)[0])
            out.fail("active", "step %d: contact %d %s although its gap is %r" % (k + 1, r, "active" if act[r] else "inactive", G[k][r]))
        if np.abs(T.f[k + 1] - T.f[k])[~act].max(initial=0) > 0:
            out.fail("inactive", "step %d: the force of an inactive contact changes" % (k + 1))
        move = np.abs(G[k + 1] - G[k])[act & want]
        if move.size and move.max() > 2 * TOL * max(1.0, T.Z[k] - T.Z[k + 1]):
            out.fail("straight", "step %d: a closed contact moves by %r" % (k + 1, move.max()))
    # -- stop
    limit, target = traj.ITERMAX, traj.PACKING
    if n - 1 > limit:
        out.fail("itermax", "%d steps, limit %d" % (n - 1, limit))
    if (T.rl[:-1][:n - 1] >= target).any():
        out.fail("overrun", "the run goes on beyond its target")
    P = sps.bmat([[T.K, T.C.T], [T.C, None]]).tocsr()
    done = n - 1 == limit or T.rl[-1] >= target
    if not done:
        # the next step: nothing may be left to close, or the answer of the linear solver was bad
        g = G[n - 1]
        act = np.isfinite(g) & (g <= TOL)
        live = np.r_[np.ones(nu, bool), act] & (np.asarray(abs(P).sum(axis=0)).ravel() > 0)
        A, b = P[np.ix_(live, live)].tocsc(), np.r_[np.zeros(nu), dH][live]
        if len(calls) == n and len(calls[-1]) == len(b):
            x = calls[-1]
        else:
            x = sps.linalg.spsolve(A, b)
        err = np.linalg.norm(A @ x - b)
        if err <= TOL * 0.99:
            dx = np.zeros(P.shape[0])
            dx[live] = x
            v = dH - np.asarray(T.C @ dx[:nu])
            left = np.isfinite(g) & (g > 2 * TOL) & (v > 1e-9)
            if left.any():
                out.fail("stopped early", "state %d: %d contacts could still close (residual %r)" % (n - 1, left.sum(), err))
    if not (T.err <= TOL).all():
        out.fail("accepted", "a step is recorded with a residual of %r" % T.err.max())
    out.states, out.trans, out.traces = n, n - 1, 1
    # -- prefixes: every iteration limit, every target
    if not out.fails and n > 1:
        ks = range(n + 1) if n <= (24 if THOROUGH else 12) else sorted({0, 1, 2, n // 3, n // 2, n - 2, n - 1, n})
        ks = [k for k in ks if k <= limit]
        for k in ks:
            _, _, A = traj.run(sc, itermax=k)
            want = min(k + 1, n)
            bad = same(A, T, want) if A.n == want else "number of states (%d instead of %d)" % (A.n, want)
            if bad:
                out.fail("prefix itermax", "itermax=%d is not a prefix of the run: %s" % (k, bad))
            out.traces += 1
        for k in ks:
            if k >= n:
                continue
            for p, want in ((T.rl[k], k + 1), (T.rl[k] * (1 + 1e-9), min(k + 2, n))) + (((0.5, 1),) if k == 0 else ()):
                if k + 1 < n and T.rl[k + 1] <= p and want == k + 2 and T.rl[k + 1] / T.rl[k] < 1 + 1e-8:
                    continue
                _, _, A = traj.run(sc, packing=float(p))
                bad = same(A, T, want) if A.n == want else "number of states (%d instead of %d)" % (A.n, want)
                if bad:
                    out.fail("prefix packing", "packing=%r is not the prefix of %d states: %s" % (p, want, bad))
                out.traces += 1
    out.outcome = (n, round(float(T.rl[-1]), 6))
    out.note = "%d states, stretch %.3f, %d runs" % (n, T.rl[-1], out.traces)
    return out


THOROUGH = False


def spaces(tier):
    global THOROUGH
    THOROUGH = tier == "thorough"
    sc = traj.scenarios(tier, None if THOROUGH else ("std", "lmax", "soft"))
    if not THOROUGH:
        sc = [s for s in sc if s[0][2] is None or s[1] == "std"]
    return [Space("compaction", sc, visit, "every scenario; every iteration limit and every packing target between the recorded "
                  "stretch factors", label=traj.label)]
