"""Compaction scenarios and their recorded trajectories (each recorded event is one transition of the active-set
machine; its recorded state is checked)."""
import itertools
import pickle

import numpy as np
import scipy.sparse as sps

from . import mech, meshes, stacks
from .geo import values

# (moduli, solver options)
OPTS = {
    "std": ("given", dict(coupling=0.99)),
    "full": ("given", dict()),
    "weak": ("given", dict(coupling=0.7)),
    "lmin": ("given", dict(coupling=0.99, lmin=0.2)),
    "lmax": ("given", dict(coupling=0.95, lmin=0.1, lmax=20.0)),
    "stiff": ("stiff", dict(coupling=0.99)),
    "soft": ("soft", dict(coupling=0.99)),
}


def sources(tier):
    th = tier == "thorough"
    src = []
    words = [w for k in (1, 2) for w in itertools.product(range(6), repeat=k) if th or k == 1 or w[0] in (0, 4)]
    words += [(a, b + 6, c + 12) for a, b, c in itertools.product(range(5), repeat=3)
              if len({a, b, c}) > 1 and (th or (a + 2 * b + c) % 3 == 0)]
    if th:
        words += [(a, b, c) for a, b, c in itertools.product(range(6), repeat=3)]
        words += [tuple(a + 6 * (k % 3) for k, a in enumerate(w)) for w in itertools.product(range(5), repeat=4)
                  if len(set(w)) > 2]
    for w in words:
        src.append((("mat", ("pile", w), None)))
    x, y = range(3), range(3, 6)
    weave = list(itertools.product((1,), y, x, range(6))) + list(itertools.product((1,), (3, 5), (0, 2), y, x))
    if th:
        weave += stacks.weaves(4) + list(itertools.product(x, y, x, y, x)) + list(itertools.product((1,), y, range(6), range(6), x))
    for w in dict.fromkeys(weave):
        src.append(("mat", ("weave", w), None))
    for n, hp in ((3, 0), (3, 1), (4, 0), (4, 2), (5, 1)) + (((6, 0), (6, 1)) if th else ()):
        allp = list(itertools.combinations(range(n), 2))
        ms = range(1 << len(allp)) if n == 3 or th and n == 4 else ((1 << len(allp)) - 1, 0b110101)
        for m in ms:
            src.append(("mat", ("subset", n, tuple(p for k, p in enumerate(allp) if m >> k & 1), hp), None))
    for n in (2, 3, 5):
        for e in (2.0 ** -7, 2e-5) + ((1e-3, 4e-6) if th else ()):
            src.append(("mat", ("steps", n, e), None))
    for g, seeds in ((stacks.GENS[1], 1), (stacks.GENS[2], 3), (stacks.GENS[3], 3), (stacks.GENS[4], 3),
                     (stacks.GENS[5], 3), (stacks.GENS[6], 3), (stacks.GENS[7], 2)):
        for seed in range(seeds * (3 if th else 1)):
            for t in (None, 2.5):
                src.append(("mat", ("gen", g, seed), t))
    return src


def scenarios(tier, opts=None):
    th = tier == "thorough"
    out = []
    for k, s in enumerate(sources(tier)):
        for o in opts or OPTS:
            small = s[1][0] == "pile" and len(s[1][1]) >= 3 or s[1][0] == "gen" and s[1][1][0] >= 25 or s[1][0] == "weave" and len(s[1][1]) > 4
            if not th and (small and o not in ("std", "lmin") or s[1][0] == "weave" and o in ("weak", "soft", "lmin")):
                continue
            if th and s[1][0] == "weave" and len(s[1][1]) > 4 and o not in ("std", "lmax"):
                continue
            out.append((s, o))
    return out


PACKING, ITERMAX = 5.0, 60


def inputs(sc):
    src, opt = sc
    mat, mesh = meshes.build(src)
    moduli, kw = OPTS[opt]
    mech.set_moduli(mat, moduli)
    return mat, mesh, dict(kw)


class Traj:
    """recorded states of a compaction"""

    def __init__(self, res):
        K, C, u, f, F, H, Z, rl, mask, err = res
        self.K, self.C = K.tocsr(), C.tocsr()
        self.u, self.f, self.F, self.H, self.Z, self.rl, self.mask, self.err = (
            np.asarray(v()) for v in (u, f, F, H, Z, rl, mask, err))
        self.raw = res
        self.n = len(self.rl)
        if self.n == 2 and self.rl[0] == self.rl[1]:  # a single recorded state (interpolation needs two)
            self.n = 1


def finite(mesh, kw):
    """elements of positive length, as such or by a lower bound"""
    return kw.get("lmin") is not None or min(e[3] for e in mech.elements(mesh)) > 0


def run(sc, **over):
    from fibermat import solve
    mat, mesh, kw = inputs(sc)
    if not finite(mesh, kw):
        return mat, mesh, None
    opt = dict(packing=PACKING, itermax=ITERMAX, verbose=False)
    opt.update(kw)
    opt.update(over)
    return mat, mesh, Traj(solve(mat, mesh, **opt))


def reference(mat, mesh, kw):
    """(K, floor/pair/plate inequalities) from the reference models: K sparse; rows as arrays
    (i, j, gap0) meaning  z_j+u_j - z_i-u_i - (h_i+h_j)/2 >= 0, and node-wise floor and plate"""
    M = values(mat)
    Kd, n = mech.ref_K(M, mesh, kw.get("lmin"), kw.get("lmax"), kw.get("coupling", 1.0))
    r, c = zip(*Kd)
    K = sps.csr_matrix((list(Kd.values()), (r, c)), shape=(n, n))
    f = mesh.fiber.values
    h = M[:, 2][f]
    z = mesh.z.values.astype(float)
    con = mesh.constraint.values
    i = np.flatnonzero(np.arange(len(f)) <= con)
    return K, z, h, i, con[i]


def gaps(z, h, i, j, u, Z):
    """floor gaps of the lower nodes, gaps between pairs, plate gaps of the upper nodes"""
    x = z + u[0::2]
    pair = x[j] - x[i] - 0.5 * (h[i] + h[j])
    pair[i == j] = np.inf
    return x[i] - 0.5 * h[i], pair, Z - x[j] - 0.5 * h[j]


def next_mask(T, tol=1e-6):
    """active set of the step after the last recorded state"""
    P = sps.bmat([[T.K, T.C.T], [T.C, None]]).tocsr()
    d = np.r_[T.F[-1], T.H[-1]] - P @ np.r_[T.u[-1], T.f[-1]]
    return (d <= tol) & (np.asarray(abs(P).sum(axis=0)).ravel() > 0)


def regular(T, m, limit=1e9):
    """the active system determines displacements and contact forces"""
    P = sps.bmat([[T.K, T.C.T], [T.C, None]]).tocsr()
    A = P[np.ix_(m, m)].toarray()
    if not A.size or not np.isfinite(A).all():
        return False
    d = 1 / np.sqrt(np.maximum(np.abs(A).max(axis=1), 1e-300))
    sv = np.linalg.svd(A * d[:, None] * d, compute_uv=False)
    return bool(sv[-1] * limit > sv[0])


def ill(T):
    """index of the first recorded state reached with a system that is not regular"""
    last = None
    for k in range(1, T.n):
        m = T.mask[k].astype(bool)
        if last is not None and np.array_equal(m, last):
            continue
        last = m
        if not regular(T, m):
            return k
    return T.n


def label(sc):
    return repr(sc).replace(" ", "")
