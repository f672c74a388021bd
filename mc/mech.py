"""Reference mechanical model: elements and contacts of a mesh, and parameter spaces."""
import itertools
import math

import numpy as np
import scipy.sparse as sps

from . import meshes, stacks
from .geo import gen, hetero, values


def elements(mesh):
    """(node i, node j, fiber, length) for consecutive nodes of each fiber"""
    f = mesh.fiber.values
    s = mesh.s.values.astype(float)
    return [(k, k + 1, int(f[k]), s[k + 1] - s[k]) for k in range(len(f) - 1) if f[k] == f[k + 1]]


def rescale(ls, lmin, lmax):
    lo, hi = min(ls), max(ls)
    a = lo if lmin is None else lmin
    b = hi if lmax is None else lmax
    x0, x1 = min(lo, a), max(hi, b)
    if x0 == x1 or (x0, x1) == (a, b):
        return list(ls)
    return [a + (l - x0) * (b - a) / (x1 - x0) for l in ls]


def ref_K(M, mesh, lmin=None, lmax=None, coupling=1.0):
    el = elements(mesh)
    ls = rescale([e[3] for e in el], lmin, lmax)
    row, col, val = [], [], []
    for (i, j, f, _), l in zip(el, ls):
        b, h, G, E = M[f, 1], M[f, 2], M[f, 9], M[f, 10]
        a = G * b * h / l * (math.pi / 4) / (1 + G / E * (l / h) ** 2)
        r = E / G * h * h
        c = coupling * l / 2
        m = [[1, c, -1, c],
             [c, l * l / 3 + r, -c, l * l / 6 - r],
             [-1, -c, 1, -c],
             [c, l * l / 6 - r, -c, l * l / 3 + r]]
        dof = (2 * i, 2 * i + 1, 2 * j, 2 * j + 1)
        for p in range(4):
            for q in range(4):
                row.append(dof[p])
                col.append(dof[q])
                val.append(a * m[p][q])
    n = 2 * len(mesh)
    K = {}
    for r, c, v in zip(row, col, val):
        K[r, c] = K.get((r, c), 0.0) + v
    return K, n


def as_dict(A):
    A = sps.coo_matrix(A)
    d = {}
    for r, c, v in zip(A.row.tolist(), A.col.tolist(), A.data.tolist()):
        d[r, c] = d.get((r, c), 0.0) + v
    return d


def diff(A, B, rtol=1e-9):
    """first differing entry of two sparse dicts, or None.  Tolerance relative to the largest finite entry of
    the row, so that cancellation is not punished."""
    big = {}
    for d in (A, B):
        for (r, c), v in d.items():
            if math.isfinite(v):
                big[r] = max(big.get(r, 0.0), abs(v))
    for k in set(A) | set(B):
        a, b = A.get(k, 0.0), B.get(k, 0.0)
        if a == b:
            continue
        if not (math.isfinite(a) and math.isfinite(b)) or not abs(a - b) <= rtol * max(abs(a), abs(b)) + 1e-12 * big.get(k[0], 1.0):
            return k, a, b
    return None


COUPLING = (1.0, 0.99, 0.5, 0.0)
LMIN = ("none", "below", "inside", "over")
LMAX = ("none", "above", "inside", "far", "under")


def bounds(mesh, kmin, kmax):
    """-> (lmin, lmax) or None when the combination is degenerate"""
    ls = [e[3] for e in elements(mesh)]
    lo, hi = min(ls), max(ls)
    if lo == hi and "inside" in (kmin, kmax):
        return None
    lmin = {"none": None, "below": 0.5 * lo if lo > 0 else None, "inside": lo + 0.3 * (hi - lo), "over": 1.5 * hi}[kmin]
    lmax = {"none": None, "above": 2 * hi, "inside": lo + 0.7 * (hi - lo), "far": 4 * hi, "under": 0.75 * lo if lo > 0 else None}[kmax]
    if lo <= 0 and lmin is None or not (lo if lmin is None else lmin) < (hi if lmax is None else lmax) and (kmin == "over" or kmax == "under"):
        return None
    return lmin, lmax


def mesh_states(tier, small_only=False):
    """meshes: abstract networks (all words) and stacks"""
    th = tier == "thorough"
    st = []

    def grow(s, d):
        st.append(s)
        if d:
            for _, t in meshes.net_succ(s):
                if list(t[2]) == sorted(t[2]):  # the order of rows does not matter here
                    grow(t, d - 1)
    for n in (1, 2, 3):
        grow(("abs", n, (), 0), 3 if th else 2)
    for g, seeds in ((stacks.GENS[1], 1), (stacks.GENS[2], 2), (stacks.GENS[3], 2), (stacks.GENS[4], 2),
                     (stacks.GENS[5], 1), (stacks.GENS[6], 1), (stacks.GENS[7], 1)):
        for seed in range(seeds * (3 if th else 1)):
            for t in (None, 2.0):
                st.append(("mat", ("gen", g, seed), t))
    for w in ((0,), (0, 2), (0, 8), (2, 7, 16), (4, 9, 2, 12), (0, 1, 2, 3), (13, 8, 0, 2, 7)):
        st.append(("mat", ("pile", w), None))
    for n, m in ((4, 63), (4, 43), (3, 5), (5, 1023)):
        import itertools as it
        allp = list(it.combinations(range(n), 2))
        st.append(("mat", ("subset", n, tuple(p for k, p in enumerate(allp) if m >> k & 1), 1), None))
    st.append(("mat", ("ladder", 17), None))
    for unit in (2.0 ** -12, 2.0 ** 12):
        for n in (2, 5):
            st.append(("mat", ("tall", n, unit), None))
    if th and not small_only:
        st.append(("mat", ("gen", stacks.GENS[11], 0), 5.0))
        st.append(("mat", ("gen", stacks.GENS[12], 1), None))
    return st


MODULI = ("given", "stiff", "soft", "inf")


def set_moduli(mat, kind):
    n = len(mat)
    t = np.arange(n)
    if kind == "stiff":
        mat["E"] = 1e6 * (1.0 + t % 2)
    elif kind == "soft":
        mat["G"] = 40.0 + 10.0 * (t % 3)
        mat["E"] = 2.0 + t % 4
    elif kind == "inf":
        mat["E"] = np.where(t % 2 == 0, np.inf, mat["E"].values)
    return mat


def label(st):
    return repr(st)
