"""Fiber alphabets and the independent reference geometry."""
import itertools
import math

import numpy as np
import pandas as pd

COLS = [*"lbhxyzuvwGE"]


def direction(p, q=0.0):
    return (math.cos(p) * math.cos(q), math.sin(p) * math.cos(q), math.sin(q))


# exact unit vectors (decidable boundary cases)
EX = (1.0, 0.0, 0.0)
EY = (0.0, 1.0, 0.0)
NX = (-1.0, 0.0, 0.0)
NY = (0.0, -1.0, 0.0)


def fiber(x, y, d=EX, l=4.0, z=0.0, b=1.0, h=1.0, G=1.0, E=100.0):
    return (float(l), float(b), float(h), float(x), float(y), float(z), *map(float, d), float(G), float(E))


def frame(fibers, size, **attrs):
    df = pd.DataFrame(np.array(fibers, dtype=float).reshape(-1, 11), columns=COLS)
    df.attrs["n"] = len(df)
    df.attrs["size"] = size
    df.attrs.update(attrs)
    return df


def mat_of(fibers, size, **attrs):
    from fibermat import Mat
    return Mat(frame(fibers, size, **attrs))


# ---------------------------------------------------------------- reference network

def offsets(size, periodic):
    if not periodic:
        return np.zeros((1, 2))
    return np.array([(a * size, b * size) for a in (0, -1, 1) for b in (0, -1, 1)], dtype=float)


def crossing(M, size, periodic, pairs=None):
    """For every pair i<j and every image offset: abscissas of the nearest points of the two axes and the
    slack of each condition.  Returns dict of arrays (pairs P, images K).

    Closed form for unit vectors a, b and r = centre_j + offset - centre_i:
        s_i = (r.a - c r.b)/(1-c^2),  s_j = (c r.a - r.b)/(1-c^2),  c = a.b
    """
    M = np.asarray(M, float)
    n = len(M)
    if pairs is None:
        i, j = np.triu_indices(n, 1)
    else:
        i, j = np.asarray(pairs, int).reshape(-1, 2).T
    off = offsets(size, periodic)
    L = M[:, 0]
    X = M[:, 3:6]
    U = M[:, 6:9]
    c = np.einsum("ij,ij->i", U[i], U[j])[:, None]
    cr = np.cross(U[i], U[j])
    det = np.einsum("ij,ij->i", cr, cr)[:, None]  # = 1 - c^2, accurate near 0
    r = np.repeat((X[j] - X[i])[:, None, :], len(off), axis=1)
    r[:, :, :2] += off[None]
    p = np.einsum("pkd,pd->pk", r, U[i])
    q = np.einsum("pkd,pd->pk", r, U[j])
    with np.errstate(all="ignore"):
        si = (p - c * q) / det
        sj = (c * p - q) / det
    dist = np.hypot(r[:, :, 0], r[:, :, 1])
    mean = 0.5 * (L[i] + L[j])[:, None]
    slack = np.minimum(np.minimum(0.5 * L[i][:, None] - np.abs(si), 0.5 * L[j][:, None] - np.abs(sj)),
                       mean - dist)
    parallel = (det[:, 0] == 0)
    slack[parallel] = -np.inf
    return dict(i=i, j=j, si=si, sj=sj, slack=slack, det=det[:, 0], off=off, r=r)


def ref_network(M, size, periodic, exact=False, eps=1e-9):
    """(must, may): dicts (i, j) -> list of admissible (si, sj, offset).  `must` pairs have to be connected,
    pairs only in `may` lie within eps of a strict limit (never when exact)."""
    R = crossing(M, size, periodic)
    lim = 0.0 if exact else eps
    must, may = {}, {}
    near = R["slack"] > (0.0 if exact else -eps)
    if not exact:  # ill-conditioned: nearly parallel
        near &= True
    for p in np.flatnonzero(near.any(axis=1)):
        key = (int(R["i"][p]), int(R["j"][p]))
        ks = np.flatnonzero(near[p])
        may[key] = [(R["si"][p, k], R["sj"][p, k], tuple(R["off"][k])) for k in ks]
        if (R["slack"][p] > lim).any():
            must[key] = may[key]
    return must, may


def net_rows(net):
    """rows as arrays (A, B, sA, sB, PA (3), PB (3))"""
    ab = net[["A", "B"]].values
    s = net[["sA", "sB"]].values.astype(float)
    pa = net[["xA", "yA", "zA"]].values.astype(float)
    pb = net[["xB", "yB", "zB"]].values.astype(float)
    return ab, s, pa, pb


def pairs_of(net):
    return [(int(a), int(b)) for a, b in net[["A", "B"]].values]


# ---------------------------------------------------------------- reference stacking

def ref_heights(h, pairs):
    """least heights: floor and, for each pair i<j, z_j >= z_i + (h_i+h_j)/2 (labels are a topological order)"""
    n = len(h)
    z = [0.5 * h[k] for k in range(n)]
    below = [[] for _ in range(n)]
    for i, j in pairs:
        if i < j:
            below[j].append(i)
    for j in range(n):
        for i in below[j]:
            z[j] = max(z[j], z[i] + 0.5 * (h[i] + h[j]))
    return np.array(z, float)


# ---------------------------------------------------------------- generated mats

def gen(n, **kw):
    from fibermat import Mat
    return Mat(n, **kw)


def values(mat):
    return mat[COLS].values.astype(float)


def hetero(mat, k=0, dims=True, moduli=True):
    """deterministic, fiber-dependent dimensions and moduli (in-place on a fresh mat)"""
    n = len(mat)
    t = np.arange(n)
    if dims:
        mat["l"] = mat["l"] * (1.0 - 0.11 * ((t + k) % 4))
        mat["b"] = 0.5 + 0.25 * ((t + k) % 3)
        mat["h"] = 0.5 + 0.125 * ((2 * t + k) % 5)
    if moduli:
        mat["G"] = 1.0 + 0.5 * ((t + k) % 3)
        mat["E"] = 50.0 * (1 + (t + 2 * k) % 4)
    return mat


def close(a, b, rtol=1e-9, atol=1e-9):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and np.allclose(a, b, rtol=rtol, atol=atol, equal_nan=True)


def words(alphabet, n):
    return itertools.product(range(alphabet), repeat=n)
