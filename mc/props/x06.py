"""X06: compaction does not depend on units, orientation or names."""
import itertools

import numpy as np

from ..engine import Out, Space
from ..geo import COLS, frame, pairs_of, values
from .. import mech, stacks, traj

ASSUMPTIONS = ["states reached while the active system determines the contact forces (condition number below 1e9)",
               "agreement within 1e-5 of the largest entry", "fibers relabelled without reversing the order of a connected pair",
               "contact tolerance scaled with the lengths"]
TOL = 1e-6
KEY = {}


def base(src, moduli):
    mat, net, _ = stacks.build(src)
    mech.set_moduli(mat, moduli)
    return values(mat), [p for p in pairs_of(net) if p[0] != p[1]], bool(net.attrs["periodic"]), mat.attrs["size"]


def run(M, pairs, periodic, size, kw, order, scale, itermax):
    """compaction of the mat M of which only `pairs` are connected -> Traj, nodes' names, rows' names"""
    from fibermat import Mat, Mesh, Net, Stack, solve
    mat = Mat(frame(M, size))
    net = Net(mat, periodic=periodic)
    keep = {tuple(p) for p in pairs}
    net = Net(net[np.array([a == b or (a, b) in keep for a, b in pairs_of(net)])].reset_index(drop=True))
    stack = Stack(mat, net)
    if order is not None:
        stack = Stack(stack.iloc[order(len(stack))].reset_index(drop=True))
    mesh = Mesh(stack)
    if not traj.finite(mesh, kw):
        return None
    T = traj.Traj(solve(mat, mesh, packing=4.0, itermax=itermax, tol=TOL * scale, errtol=1e-2, verbose=False, **kw))
    f, c, s = mesh.fiber.values, mesh.constraint.values, mesh.s.values
    nodes = [(int(f[k]), int(f[c[k]]), 0 if c[k] != k else int(np.sign(s[k]))) for k in range(len(f))]
    if len(set(nodes)) < len(nodes):
        raise ValueError("nodes cannot be named")
    rows = [(nodes[k], nodes[c[k]]) for k in range(len(f)) if k <= c[k]]
    return T, nodes, rows


class Change:
    """a change of units, orientation or names: how the mat changes, and how the results have to change"""

    def __init__(self, name, mat=None, relabel=None, flip=None, length=1.0, force=1.0, order=None, shift=False):
        self.name, self.mat, self.relabel, self.flip = name, mat, relabel, flip
        self.length, self.force, self.order = length, force, order


def turn(M):
    M = M.copy()
    M[:, [3, 4]] = np.stack([-M[:, 4], M[:, 3]], axis=1)
    M[:, [6, 7]] = np.stack([-M[:, 7], M[:, 6]], axis=1)
    return M


def mirror(M):
    M = M.copy()
    M[:, 3] *= -1
    M[:, 6] *= -1
    return M


def scaled(k):
    def f(M):
        M = M.copy()
        M[:, :6] *= k
        return M
    return f


def harder(k):
    def f(M):
        M = M.copy()
        M[:, 9:] *= k
        return M
    return f


def moved(M):
    M = M.copy()
    M[:, 3] += 0.75
    M[:, 4] -= 1.375
    M[:, 5] += 3.0
    return M


def border(size):
    def f(M):  # centres up to the border of the box, fibers beyond it
        M = M.copy()
        M[:, 3] = np.minimum(M[:, 3] + (size / 2 - M[:, 3].max()), size / 2)
        M[:, 4] = np.maximum(M[:, 4] - (size / 2 + M[:, 4].min()), -size / 2)
        return M
    return f


def flipped(which):
    def f(M):
        M = M.copy()
        M[which(np.arange(len(M))), 6:9] *= -1
        return M
    return f


def extensions(n, pairs, limit):
    """new labels for every order of the fibers that keeps connected pairs in order (at most `limit`)"""
    before = {j: {a for a, b in pairs if b == j} for j in range(n)}
    found = []

    def grow(seq):
        if len(found) >= limit:
            return
        if len(seq) == n:
            found.append(seq)
            return
        for j in range(n - 1, -1, -1):
            if j not in seq and before[j] <= set(seq):
                grow(seq + (j,))
    grow(())
    return [s for s in found if s != tuple(range(n))]


ODD = lambda t: t % 2 == 1
ALL = lambda t: t >= 0


def changes(M, pairs, periodic, size, th):
    c = [Change("moduli x 1024", mat=harder(1024.0), force=1024.0), Change("moduli / 64", mat=harder(1 / 64), force=1 / 64),
         Change("lengths x 32", mat=scaled(32.0), length=32.0, force=32.0 ** 2),
         Change("lengths / 16", mat=scaled(1 / 16), length=1 / 16, force=1 / 256),
         Change("lengths / 8192", mat=scaled(2.0 ** -13), length=2.0 ** -13, force=2.0 ** -26),
         Change("rows reversed", order=lambda m: np.arange(m)[::-1]),
         Change("rows mixed", order=lambda m: np.argsort(np.arange(m) * 7919 % 104729 % (m + 3), kind="stable"))]
    if not periodic:
        c += [Change("quarter turn", mat=turn), Change("mirror", mat=mirror), Change("moved", mat=moved), Change("moved to the border", mat=border(size)),
              Change("all reversed", mat=flipped(ALL), flip=ALL), Change("odd reversed", mat=flipped(ODD), flip=ODD)]
        for e in extensions(len(M), pairs, 24 if th else 3):
            c.append(Change("relabelled %s" % (e,), relabel=e))
    return c


def visit(sc):
    out = Out()
    src, moduli, kw0 = sc
    kw = dict(kw0)
    M, pairs, periodic, size = base(src, moduli)
    itermax = 30 if len(M) > 8 else 60
    ref = run(M, pairs, periodic, size, kw, None, 1.0, itermax)
    if ref is None:
        out.note = "element of zero length"
        return out
    T, nodes, rows = ref
    last = traj.ill(T)
    for ch in changes(M, pairs, periodic, size, THOROUGH):
        M2 = M if ch.mat is None else ch.mat(M)
        new = np.arange(len(M))
        if ch.relabel is not None:
            new = np.argsort(ch.relabel)  # old label -> new label
            M2 = M2[list(ch.relabel)]
        p2 = [(int(new[a]), int(new[b])) for a, b in pairs]
        kw2 = dict(kw)
        for q in ("lmin", "lmax"):
            if kw2.get(q) is not None:
                kw2[q] *= ch.length
        got = run(M2, p2, periodic, size * ch.length * (1 if ch.name != "moved" else 2), kw2, ch.order, ch.length, itermax)
        out.traces += 1
        if got is None:
            out.fail(ch.name, "%s: elements of zero length appeared" % ch.name)
            continue
        T2, nodes2, rows2 = got
        flip = np.zeros(len(M), bool) if ch.flip is None else ch.flip(np.arange(len(M)))

        def name(q):
            a, b, s = q
            return int(new[a]), int(new[b]), -s if flip[a] else s
        where = {q: k for k, q in enumerate(nodes2)}
        wrow = {q: k for k, q in enumerate(rows2)}
        try:
            pn = [where[name(q)] for q in nodes]
            pr = [wrow[name(a), name(b)] for a, b in rows]
        except KeyError as e:
            out.fail(ch.name, "%s: no node or contact %s" % (ch.name, e))
            continue
        if len(nodes2) != len(nodes) or len(rows2) != len(rows):
            out.fail(ch.name, "%s: %d nodes instead of %d" % (ch.name, len(nodes2), len(nodes)))
            continue
        if T2.n < last:
            out.fail(ch.name, "%s: %d states instead of at least %d" % (ch.name, T2.n, last))
            continue
        sign = np.where(flip[[q[0] for q in nodes]], -1.0, 1.0)
        u2 = T2.u[:last].reshape(last, -1, 2)[:, pn]
        f2 = T2.f[:last].reshape(last, -1, 3)[:, pr]
        u1, f1 = T.u[:last].reshape(last, -1, 2), T.f[:last].reshape(last, -1, 3)
        for what, a, b in (("displacements", u2[..., 0], ch.length * u1[..., 0]), ("rotations", u2[..., 1] * sign, u1[..., 1]),
                           ("contact forces", f2, ch.force * f1), ("plate positions", T2.Z[:last], ch.length * T.Z[:last])):
            unit = {"displacements": ch.length, "plate positions": ch.length, "contact forces": ch.force}.get(what, 1.0)
            if not np.abs(a - b).max(initial=0) <= 1e-5 * max(np.abs(b).max(initial=0), 1e-3 * unit):
                k = np.unravel_index(np.argmax(np.abs(a - b)), a.shape)
                out.fail(ch.name + " " + what, "%s: %s differ: %r instead of %r (state %d of %d)" % (ch.name, what, a[k], b[k], k[0], last))
                break
        out.states += last
        out.trans += last - 1
    out.outcome = (T.n, last, round(float(T.rl[-1]), 6))
    out.note = "%d of %d states, %d changes" % (last, T.n, out.traces)
    return out


THOROUGH = False


def spaces(tier):
    global THOROUGH
    THOROUGH = th = tier == "thorough"
    x, y = range(3), range(3, 6)
    src = [("weave", w) for w in ((0,), (1, 4), (1, 4, 2), *itertools.product((1,), (3, 5), x, range(6)), *itertools.product((1,), (3, 5), (0, 2), (4, 5), x))]
    if th:
        src += [("weave", w) for w in stacks.weaves(4) if ("weave", w) not in src] + [("weave", w) for w in itertools.product(x, (3, 4), x, y, x)]
        src += [("pile", (a, b + 6, c + 12)) for a, b, c in itertools.product(range(5), repeat=3) if len({a, b, c}) > 1]
    for n, hp in ((3, 0), (3, 1), (4, 0)) + (((4, 2), (5, 1)) if th else ()):
        allp = list(itertools.combinations(range(n), 2))
        for m in range(1 << len(allp)) if n == 3 or th and n == 4 else (63, 0b110101, 0b011110):
            src.append(("subset", n, tuple(p for k, p in enumerate(allp) if m >> k & 1), hp))
    src += [("gen", g, s) for g in (stacks.GENS[2], stacks.GENS[3], stacks.GENS[4], stacks.GENS[6]) for s in range(4 if th else 1)]
    opts = [("given", (("coupling", 0.99),)), ("given", (("coupling", 0.95), ("lmin", 0.2), ("lmax", 20.0))), ("soft", (("coupling", 0.8),))]
    sc = [(s, m, kw) for s in src for k, (m, kw) in enumerate(opts) if th or k == 0 or s[0] == "subset" or s[0] == "weave" and k == 1 and len(s[1]) == 4 and s[1][1] == 3]
    return [Space("changes", sc, visit, "every scenario under every change of units, orientation, row order and names", label=repr)]
