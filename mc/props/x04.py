"""X04: the solution does not depend on how the linear systems are solved."""
import contextlib
import io

import numpy as np
import scipy.sparse as sps
from scipy.sparse.csgraph import reverse_cuthill_mckee

from ..engine import Out, Space
from .. import mech, traj

ASSUMPTIONS = ["states reached while the active system determines the contact forces (condition number of the scaled system "
               "below 1e9)", "agreement within 1e-5 of the largest entry"]


def guarded(f):
    """a refused (singular) system is answered with NaN, as the default solver does"""
    def g(A, b):
        try:
            if not (np.isfinite(A.data).all() and len(b)):
                return np.full(len(b), np.nan)
            return f(A, b)
        except (np.linalg.LinAlgError, RuntimeError):
            return np.full(len(b), np.nan)
    return g


@guarded
def dense(A, b):
    return np.linalg.solve(A.toarray(), b)


@guarded
def splu(A, b):
    return sps.linalg.splu(sps.csc_matrix(A), permc_spec="MMD_AT_PLUS_A").solve(b)


@guarded
def lstsq(A, b):
    d = 1 / np.sqrt(np.maximum(np.abs(A.toarray()).max(axis=1), 1e-300))
    B = A.toarray() * d[:, None] * d
    return d * np.linalg.lstsq(B, d * b, rcond=1e-14)[0]


def complex_(A, b):
    return sps.linalg.spsolve(A, b) + 0j


SOLVERS = dict(dense=dense, splu=splu, lstsq=lstsq, complex=complex_)
PERMS = ("reverse", "roll", "stride", "rcm", "forces first", "identity")


def perm(kind, N, nu, T):
    k = np.arange(N)
    if kind == "reverse":
        return k[::-1].copy()
    if kind == "roll":
        return np.roll(k, N // 3 + 1)
    if kind == "stride":
        a = next(a for a in (7, 11, 13, 17, 19, 23) if np.gcd(a, N) == 1)
        return (k * a + 3) % N
    if kind == "rcm":
        P = sps.bmat([[T.K, T.C.T], [T.C, None]]).tocsr()
        return np.array(reverse_cuthill_mckee(P, symmetric_mode=True))
    if kind == "forces first":
        return np.r_[k[nu:], k[:nu]]
    return k


def compare(A, B, n, whole):
    if whole and A.n != B.n:
        return "%d states instead of %d" % (A.n, B.n)
    if A.n < n:
        return "%d states instead of at least %d" % (A.n, n)
    for name in ("Z", "rl", "u", "f", "H", "F", "mask"):
        a, b = getattr(A, name)[:n], getattr(B, name)[:n]
        if a.shape != b.shape or a.dtype != b.dtype:
            return "%s has shape %s %s instead of %s %s" % (name, a.shape, a.dtype, b.shape, b.dtype)
        if name == "mask":
            if not np.array_equal(a, b):
                return "active sets differ"
            continue
        fin = np.isfinite(b)
        if not np.array_equal(np.isfinite(a), fin):
            return name + " differs in infinite entries"
        if not np.abs(a - b)[fin].max(initial=0) <= 1e-5 * max(np.abs(b[fin]).max(initial=0), 1e-3):
            return "%s differs by %r (largest %r)" % (name, np.abs(a - b)[fin].max(), np.abs(b[fin]).max())
    return None


def order_seen(sc, T, p, last):
    """the systems given to the solver are the active ones, in the requested order"""
    seen = []

    def spy(A, b):
        seen.append((A.toarray(), b.copy()))
        return sps.linalg.spsolve(A, b)
    traj.run(sc, perm=p, solve=spy)
    P = sps.bmat([[T.K, T.C.T], [T.C, None]]).toarray()
    for k in range(min(last - 1, len(seen))):
        m = T.mask[k + 1].astype(bool)
        order = p[m[p]]
        want = P[np.ix_(order, order)]
        A, b = seen[k]
        if A.shape != want.shape or not np.allclose(A, want, rtol=1e-12, atol=0):
            return "step %d: the solver is not given the active system in the requested order" % k
    return None if len(seen) >= last - 1 else "the solver is called %d times for %d steps" % (len(seen), last - 1)


def visit(sc):
    from fibermat import stiffness, constraint
    out = Out()
    mat, mesh, kw = traj.inputs(sc)
    mat, mesh, T = traj.run(sc)
    if T is None:
        return out
    last = traj.ill(T)
    whole = last == T.n and (T.n - 1 == traj.ITERMAX or T.rl[-1] >= traj.PACKING or traj.regular(T, traj.next_mask(T)))
    mat2, mesh2, _ = traj.inputs(sc)
    K, C = stiffness(mat2, mesh2, **kw)[0], constraint(mat2, mesh2, **kw)[0]
    for name, a, b in (("K", T.K, K), ("C", T.C, C)):
        d = mech.diff(mech.as_dict(a), mech.as_dict(b))
        if a.shape != b.shape or d:
            out.fail("model " + name, "the returned %s is not that of the standalone model: %s" % (name, d))
    N, nu = sum(T.C.shape), T.K.shape[0]
    runs = []
    for p in PERMS:
        runs.append(("perm " + p, dict(perm=perm(p, N, nu, T))))
    for s in SOLVERS:
        runs.append(("solver " + s, dict(solve=SOLVERS[s])))
    if SMALL(sc):
        runs.append(("perm reverse+dense", dict(perm=perm("reverse", N, nu, T), solve=dense)))
        runs.append(("verbose", dict(verbose=True)))
    out.traces = 1
    for name, over in runs:
        with contextlib.redirect_stderr(io.StringIO()):
            _, _, A = traj.run(sc, **over)
        bad = compare(A, T, last, whole)
        if bad:
            out.fail(name, "%s: %s" % (name, bad))
        out.traces += 1
    if SMALL(sc):
        for q in ("reverse", "stride"):
            bad = order_seen(sc, T, perm(q, N, nu, T), last)
            if bad:
                out.fail("order", "perm %s: %s" % (q, bad))
            out.traces += 1
    if T.n > 1:
        for size in (2, 3, 11, 50):
            _, _, A = traj.run(sc, interp_size=size)
            t = np.linspace(0, 1, size)
            res = T.raw
            for k, name in ((2, "u"), (3, "f"), (4, "F"), (5, "H"), (6, "Z")):
                a, b = np.asarray(A.raw[k]()), np.asarray(res[k](t))
                with np.errstate(all="ignore"):
                    if a.shape != b.shape or not np.allclose(a, b, rtol=1e-9, atol=1e-9):
                        out.fail("resampled " + name, "interp_size=%d does not sample the same %s" % (size, name))
            for a, b, name in ((A.rl, T.rl, "rlambda"), (A.mask, T.mask, "mask"), (A.err, T.err, "err")):
                if not np.array_equal(a, b):
                    out.fail("resampled " + name, "interp_size=%d changes %s" % (size, name))
            out.traces += 1
    out.states, out.trans = last, last - 1
    out.outcome = (T.n, last, round(float(T.rl[-1]), 6))
    out.note = "%d of %d states compared over %d runs" % (last, T.n, out.traces)
    return out


def SMALL(sc):
    return sc[0][1][0] != "gen"


def spaces(tier):
    sc = traj.scenarios(tier, None if tier == "thorough" else ("std", "lmax", "weak"))
    if tier != "thorough":
        sc = [s for s in sc if (s[0][2] is None or s[1] == "std") and not (s[1] == "weak" and s[0][1][0] == "pile")]
        sc = [s for k, s in enumerate(sc) if not (s[0][1][0] == "pile" and len(s[0][1][1]) == 3 and k % 3)]
    else:  # long weaves: one option set
        sc = [s for k, s in enumerate(sc) if not (s[0][1][0] == "weave" and (s[1] not in ("std", "lmax", "weak") or len(s[0][1][1]) > 4 and (s[1] != "std" or k % 4)))]
    return [Space("compaction", sc, visit, "every scenario with every permutation, solver and resampling of the menu", label=traj.label)]
