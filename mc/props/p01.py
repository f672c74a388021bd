"""P01: the plot of the system shows every contact in its class and reports the error of the step."""
import contextlib
import io
import warnings

import numpy as np
import scipy.sparse as sps

from ..engine import Out, Space
from .. import traj

ASSUMPTIONS = ["contacts whose gap is between 1e-10 and 5e-5 (relative) are not classified", "classes are read from the labelled marker lines of the axes"]
PERMS = ("none", "reverse", "roll", "stride")
NAMES = ("lower", "inner", "upper")


def perm(kind, N):
    k = np.arange(N)
    if kind == "reverse":
        return k[::-1].copy()
    if kind == "roll":
        return np.roll(k, N // 3 + 1)
    if kind == "stride":
        a = next(a for a in (7, 11, 13, 17, 19, 23) if np.gcd(a, N) == 1)
        return (k * a + 3) % N
    return None


def draw(args, **kw):
    """-> (axes used, {label: set of (row, column)}, printed text)"""
    from matplotlib.figure import Figure
    from fibermat import plot_system
    ax = Figure().subplots()
    text = io.StringIO()
    with warnings.catch_warnings(), contextlib.redirect_stdout(text):
        warnings.simplefilter("ignore")
        got = plot_system(*args, ax=ax, **kw)
    layers = {}
    for line in ax.get_lines():
        x, y = np.asarray(line.get_xdata()), np.asarray(line.get_ydata())
        layers.setdefault(line.get_label(), set()).update(zip(np.rint(y).astype(int).tolist(), np.rint(x).astype(int).tolist()))
    return got is ax, layers, text.getvalue()


def entries(A, cancelled=False):
    """positions of the coefficients other than zero (or, cancelled: of those that are zero but for rounding)"""
    A = sps.coo_matrix(A)
    S, B = A.tocsr(), abs(A).tocsr()
    S.sum_duplicates()
    B.sum_duplicates()
    S, B = S.tocoo(), B.tocoo()
    k = (np.abs(S.data) <= 1e-12 * B.data) & (B.data > 0) if cancelled else S.data != 0
    A = S
    return set(zip(A.row[k].tolist(), A.col[k].tolist()))


def visit(st):
    from fibermat import constraint, stiffness
    out = Out()
    sc, k, kind = st[:3]
    tol = st[3] if st[3:] else 1e-6
    opt = dict(tol=tol) if st[3:] else {}
    if sc not in _RUN:
        if len(_RUN) > 20:
            _RUN.clear()
        _RUN[sc] = traj.run(sc)
    mat, mesh, T = _RUN[sc]
    if T is None:
        return out
    kw = dict(traj.OPTS[sc[1]][1])
    K, u, F, du, dF = stiffness(mat, mesh, **kw)
    C, f, H, df, dH = constraint(mat, mesh, **kw)
    if k < T.n:
        u, f, F, H = T.u[k], T.f[k], T.F[k], T.H[k]
    else:  # every fiber lifted
        if k == 99:
            u = u + 0.4
        else:  # a little, and each more than those below
            u = u + 1e-4 * max(1.0, np.abs(H[np.isfinite(H)]).max(initial=0)) * np.repeat(1.0 + mesh.fiber.values, 2)
        u[1::2] = 0
        k = -1
    args = [K, u, F, du, dF, C, f, H, df, dH]
    copy = [a.copy() for a in args]
    nu, nc = K.shape[0], C.shape[0]
    N = nu + nc
    p = perm(kind, N)
    tag = "state %d, order %s" % (k, kind)
    same, layers, text = draw(args, **opt, **({} if p is None else dict(perm=p)))
    out.traces += 1
    for a, b in zip(args, copy):
        a, b = (x.toarray() if sps.issparse(x) else x for x in (a, b))
        if not np.array_equal(a, b):
            out.fail("input", "%s: an argument was modified" % tag)
    if not same:
        out.fail("axes", "%s: the given axes are not returned" % tag)
    # --- classes
    back = np.arange(N) if p is None else p  # drawn position -> unknown
    P = entries(sps.bmat([[K, C.T], [C, None]]))
    drawn = {name: {(int(back[r]), int(back[c])) for r, c in v} for name, v in layers.items()}
    gap = np.asarray(H - C @ u, float)
    closed, open_ = np.abs(gap) <= 1e-10, ~(np.abs(gap) <= 5e-5 * np.maximum(1, np.abs(H)))
    doubt = entries(sps.bmat([[K, C.T], [C, None]]), True)
    want = {"stiffness": entries(K)}
    unsure = {nu + r for r in np.flatnonzero(~closed & ~open_)}
    for c, name in enumerate(NAMES):
        rows = {nu + r for r in np.flatnonzero(closed) if r % 3 == c}
        want[name] = {e for e in P if e[0] in rows or e[1] in rows}
    rows = {nu + r for r in np.flatnonzero(open_)}
    want["inactive"] = {e for e in P if e[0] in rows or e[1] in rows}
    for name, w in want.items():
        g = {e for e in drawn.get(name, ()) if e[0] not in unsure and e[1] not in unsure}
        g, w = g - doubt, w - doubt
        if g != w:
            out.fail("class " + name, "%s: %s entries: unexpected %s, missing %s" % (tag, name, sorted(g - w)[:3], sorted(w - g)[:3]))
    # --- error of the step
    x = np.r_[u, f]
    A = sps.bmat([[K, C.T], [C, None]]).tocsr()
    d = np.r_[F, H] - A @ x
    live = (np.asarray(abs(A).sum(axis=0)).ravel() > 0)
    if not (np.abs(np.abs(d) - tol) < 1e-3 * tol).any():
        m = (d <= tol) & live
        q = np.r_[dF, dH]
        B = A[np.ix_(m, m)]
        for name, answer in (("zero", np.zeros(m.sum())), ("ramp", np.linspace(-1, 1, m.sum()))):
            order = np.flatnonzero(m) if p is None else p[m[p]]

            def stub(S, b, answer=answer):
                return answer.copy()
            _, _, t = draw(args, solve=stub, **opt, **({} if p is None else dict(perm=p)))
            full = np.zeros(N)
            full[order] = answer
            err = float(np.linalg.norm(B @ full[m] - q[m]))
            out.traces += 1
            try:
                got = float(t.split()[-1])
            except (IndexError, ValueError):
                out.fail("printed", "%s: printed %r" % (tag, t))
                continue
            if not abs(got - err) <= 1e-9 * max(1, err):
                out.fail("error", "%s: reported error %r instead of %r (answer %s)" % (tag, got, err, name))
        if not st[3:] and traj.regular(T, m):
            try:
                if not float(text.split()[-1]) <= 1e-6:
                    out.fail("default error", "%s: reported error %r" % (tag, text))
            except (IndexError, ValueError):
                out.fail("printed", "%s: printed %r" % (tag, text))
    out.outcome = (len(P), int(closed.sum()), int(open_.sum()), kind)
    out.note = "%s: %d entries, %d closed contacts" % (tag, len(P), closed.sum())
    out.states = 1
    return out


_RUN = {}


def spaces(tier):
    th = tier == "thorough"
    sc = [s for s in traj.scenarios(tier, ("std", "lmin") if th else ("std",)) if s[0][2] is None]
    if not th:
        sc = [s for k, s in enumerate(sc) if not (s[0][1][0] in ("pile", "weave") and k % 4) and not (s[0][1][0] == "gen" and s[0][1][1][0] > 10)]
    st = []
    for k, s in enumerate(sc):
        for n in (0, 1, 2, 5, 98, 99) if not th else (0, 1, 2, 3, 4, 5, 8, 11, 98, 99):
            for q, p in enumerate(PERMS):
                if th or q == 0 and n in (0, 98, 99) or q == 1 + (k + n) % 3:
                    st.append((s, n, p))
                    if n in (0, 1, 98):
                        st.extend((s, n, p, t) for t in ((1e-2,) if not th else (1e-2, 1e-9)))
    return [Space("plots", st, visit, "every scenario, recorded states and lifted fibers, orders of the unknowns, good and bad answers", label=repr)]
