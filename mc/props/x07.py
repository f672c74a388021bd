"""X07: piles that do not touch each other compact independently under the same plate."""
import itertools

import numpy as np

from ..engine import Out, Space
from ..geo import frame, pairs_of, values
from .. import stacks, traj

ASSUMPTIONS = ["elements of positive length, no length bounds (they depend on every element of the mat)",
               "states reached while the active system determines the contact forces (condition number below 1e9)",
               "agreement within 1e-5 of the largest entry"]
KW = dict(coupling=0.99)


def run(M, size, **kw):
    from fibermat import Mat, Mesh, Net, Stack, solve
    mat = Mat(frame(M, size))
    mesh = Mesh(Stack(mat, Net(mat, periodic=False)))
    if not traj.finite(mesh, KW):
        return None
    T = traj.Traj(solve(mat, mesh, packing=6.0, itermax=80, verbose=False, **KW, **kw))
    f, c = mesh.fiber.values, mesh.constraint.values
    nodes = [(int(f[k]), int(f[c[k]]), 0 if c[k] != k else int(np.sign(mesh.s.values[k]))) for k in range(len(f))]
    rows = [(nodes[k], nodes[c[k]]) for k in range(len(f)) if k <= c[k]]
    return T, nodes, rows, traj.ill(T)


_ALONE = {}


def alone(w):
    if w not in _ALONE:
        M = values(stacks.build(("weave", w))[0])
        _ALONE[w] = M, run(M, 16.0)
    return _ALONE[w]


def visit(st):
    words, mode = st
    out = Out()
    parts = [alone(w) for w in words]
    if any(r is None for _, r in parts):
        out.note = "element of zero length"
        return out
    lab = [(k, p) for k, w in enumerate(words) for p in range(len(w))]
    hard = np.ones(len(words))
    if mode == "hard":  # one pile much stiffer than the others
        hard[0] = 2.0 ** 20
    if mode in ("layers", "hard"):
        lab.sort(key=lambda t: (t[1], -t[0]))
    elif mode == "swapped":
        lab.sort(key=lambda t: (-t[0], t[1]))
    size = 24.0 * len(words)
    M = []
    for k, p in lab:
        row = parts[k][0][p].copy()
        row[3] += 24.0 * (k - 0.5 * (len(words) - 1))
        row[9:] *= hard[k]
        M.append(row)
    new = {kp: n for n, kp in enumerate(lab)}
    T, nodes, rows, last = run(np.array(M), size, **(dict(errtol=1e-2) if mode == "hard" else {}))
    Z = T.Z[:last]
    where = {q: n for n, q in enumerate(nodes)}
    wrow = {q: n for n, q in enumerate(rows)}
    U, F = T.u[:last].reshape(last, -1, 2), T.f[:last].reshape(last, -1, 3)
    used_n, used_r = 0, 0
    for k, (_, (A, an, ar, al)) in enumerate(parts):
        def name(q):
            return new[k, q[0]], new[k, q[1]], q[2]
        try:
            pn = [where[name(q)] for q in an]
            pr = [wrow[name(a), name(b)] for a, b in ar]
        except KeyError as e:
            out.fail("nodes", "pile %d: no node or contact %s" % (k, e))
            return out
        used_n += len(pn)
        used_r += len(pr)
        za = A.Z[:al]
        ua, fa = A.u[:al].reshape(al, -1), A.f[:al].reshape(al, -1) * hard[k]
        for n in range(last):
            if Z[n] < za[-1] - 1e-7:
                break
            t = np.clip(Z[n], za[-1], za[0])
            for what, got, ref in (("displacements", U[n][pn].ravel(), ua), ("contact forces", F[n][pr].ravel(), fa)):
                want = np.array([np.interp(t, za[::-1], c[::-1]) for c in ref.T])
                big = max(np.abs(ref).max(initial=0), 1e-3)
                if not np.abs(got - want).max(initial=0) <= 1e-5 * big:
                    b = int(np.argmax(np.abs(got - want)))
                    out.fail(what, "pile %d of %s, plate at %r: %s %r instead of %r alone" % (k, words, Z[n], what, got[b], want[b]))
                    return out
            out.states += 1
    if used_n != len(nodes) or used_r != len(rows):
        out.fail("nodes", "%d nodes and %d contacts, %d and %d in the separate piles" % (len(nodes), len(rows), used_n, used_r))
    low = max(A.Z[al - 1] for _, (A, _, _, al) in parts)
    if Z[-1] > low + 1e-7 and T.n <= 80:
        out.fail("extent", "the plate stops at %r (%d of %d states), the piles alone stop at %r" % (Z[-1], last, T.n, [float(A.Z[al - 1]) for _, (A, _, _, al) in parts]))
    if abs(T.Z[0] - max(A.Z[0] for _, (A, *_) in parts)) > 1e-6:
        out.fail("plate", "the plate starts at %r" % T.Z[0])
    out.trans, out.traces = last - 1, 1
    out.outcome = (T.n, last, round(float(T.rl[-1]), 5))
    out.note = "%d of %d states" % (last, T.n)
    return out


def spaces(tier):
    th = tier == "thorough"
    x, y = range(3), range(3, 6)
    W = [(0,), (1, 4), (1, 4, 1), (1, 4, 2), (0, 4, 1), (2, 3, 1, 4), (1, 3, 1, 5), (1, 5, 2, 5), (0, 5, 2, 4), (1, 4, 1, 4, 1), (1, 3, 0, 5, 1), (0, 4, 2, 3, 1)]
    if th:
        W += [w for w in itertools.product(x, y, x, y) if w not in W]
    st = [((a, b), m) for a in W for b in W for m in ("blocks", "layers") if th or (len(a) > 2 and len(b) > 1 and (m == "layers" or len(a) + len(b) < 7))]
    st += [(t, m) for t in itertools.product(W[3:6] + W[9:10], repeat=3) for m in (("layers", "swapped") if th else ("layers",))]
    st += [((a, b), "hard") for a in W for b in W if len(b) > 2 and (th or len(a) in (3, 4))]
    return [Space("piles", st, visit, "all pairs out of %d piles, and triples, labelled pile by pile or in layers" % len(W), label=repr)]
