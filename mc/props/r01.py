"""R01: a rendered fiber has the fiber's position, direction and dimensions."""
import itertools
import math

import numpy as np
from scipy.spatial import cKDTree

from ..engine import Out, Space
from ..geo import COLS, EX, EY, direction, fiber, frame, gen, hetero, values
from .. import nets

ASSUMPTIONS = ["geometry within 1e-6 of the largest dimension", "the side of the width axis (left or right) is free",
               "odd numbers of points around the section (which PyVista itself centres on their bounding box): length, volume and number of points only"]

DIRS = ([EX, EY, (-1.0, 0.0, 0.0), (0.0, -1.0, 0.0)] + [direction(p) for p in (0.3, 0.8, 1.2, 1.5707, 2.0, 2.8, -0.4, -1.3, -2.5, 3.1)]
        + [(0.6, 0.8, 0.0), (-0.8, 0.6, 0.0)] + [direction(p, q) for p, q in ((0.2, 0.3), (1.4, -0.5), (2.5, 0.9), (-1.0, -1.2), (1.5707963267948966, 0.4))])
DOM = {
    "dims": ((4.0, 2.0, 1.0), (3.0, 0.5, 1.5), (1.0, 4.0, 0.25), (10.0, 1.0, 1.0)),
    "pos": ((0.0, 0.0, 0.0), (3.0, -2.0, 5.0), (-20.0, 14.0, -0.5)),
    "dir": tuple(range(len(DIRS))),
    "res": (None, (2, 8, 5), (1, 12, 3), (3, 16, 2), (1, 6, 4), (4, 6, 7), (1, 4, 2), (1, 7, 3), (2, 5, 4)),
    "moduli": ((1.0, math.inf), (2.5, 30.0), (math.inf, 7.0)),
    "index": (3, 0, None),
    "norm": (1.0, 5.0, 2.0 ** -7),  # of the direction that is passed
}
NAMES = list(DOM)


def check_fiber(out, tag, pts, X, l, b, h, x, d, res, xyz=None):
    """points of one fiber, in order; xyz the local coordinates if exported"""
    r, t, z = res
    tol = 1e-6 * max(l, b, h, 1.0)
    P = pts - X
    d = np.array(d)
    a = P @ d
    levels = np.unique(np.round(a / tol) * tol)
    want = np.linspace(-0.5 * l, 0.5 * l, z)
    if abs(a.min() + 0.5 * l) > tol or abs(a.max() - 0.5 * l) > tol:
        out.fail("length", "%s: the fiber spans %r..%r along its axis instead of +-%r" % (tag, a.min(), a.max(), 0.5 * l))
        return
    if np.abs(a[:, None] - want[None]).min(axis=1).max() > tol or np.abs(a[:, None] - want[None]).min(axis=0).max() > tol:
        out.fail("sections", "%s: sections at %s instead of %s" % (tag, levels[:6], want[:6]))
    if np.abs(P.mean(axis=0)).max() > 0.5 * max(l, b, h):
        out.fail("centre", "%s: far from its centre" % tag)
    cross = P - a[:, None] * d
    again = cKDTree(np.c_[a, cross]).query_pairs(1e-2 * min(b, h) / (r * t), output_type="ndarray")
    distinct = len(P) - len(np.unique(again[:, 1]))  # points that do not repeat an earlier one
    if distinct != z * (r * t + 1):
        out.fail("resolution", "%s: %d distinct points instead of %d sections of %d rings of %d points and the axis" % (
            tag, distinct, z, r, t))
    if t % 2:
        return
    if abs(d[2]) < 1e-12:
        w = np.array([-d[1], d[0], 0.0])
        v = np.array([0.0, 0.0, 1.0])
        y, zz = cross @ w, cross @ v
        rho = np.hypot(y / (0.5 * b), zz / (0.5 * h))
        ring = np.linspace(0, 1, r + 1)
        if rho.max() > 1 + 1e-6 or np.abs(rho[:, None] - ring[None]).min(axis=1).max() > 1e-6 or (
                np.abs(rho[:, None] - ring[None]).min(axis=0).max() > 1e-6):
            out.fail("section", "%s: points off the elliptic rings of width %r (horizontal) and thickness %r: extents %r, %r" % (
                tag, b, h, 2 * np.abs(y).max(), 2 * np.abs(zz).max()))
        elif t % 4 == 0 and (abs(np.abs(y).max() - 0.5 * b) > tol or abs(np.abs(zz).max() - 0.5 * h) > tol):
            out.fail("extent", "%s: width %r thickness %r" % (tag, 2 * np.abs(y).max(), 2 * np.abs(zz).max()))
    else:
        # some orthonormal axes across the fiber: second moments of the outer ring
        one = cross[np.unique(np.round(P / (10 * tol)), axis=0, return_index=True)[1]]  # the seam is doubled
        S = one.T @ one
        ev = np.sort(np.linalg.eigvalsh(S))
        ratio = sorted([(0.5 * b) ** 2, (0.5 * h) ** 2])
        if ev[0] > 1e-9 * max(ev[2], 1e-300) or abs(ev[1] * ratio[1] - ev[2] * ratio[0]) > 1e-6 * ev[2] * ratio[1]:
            out.fail("section", "%s: the section has second moments %s instead of the ratio %s" % (tag, ev, ratio))
        if np.linalg.norm(cross, axis=1).max() > 0.5 * max(b, h) + tol or (
                t % 4 == 0 and np.linalg.norm(cross, axis=1).max() < 0.5 * max(b, h) - tol):
            out.fail("extent", "%s: section radius %r" % (tag, np.linalg.norm(cross, axis=1).max()))
    if xyz is not None:
        if np.abs(xyz[:, 0] - a).max() > tol:
            out.fail("local", "%s: exported abscissas differ from the geometry by %r" % (tag, np.abs(xyz[:, 0] - a).max()))
        if np.abs(np.linalg.norm(xyz, axis=1) - np.linalg.norm(P, axis=1)).max() > tol:
            out.fail("local", "%s: exported local coordinates are not those of a rigidly placed fiber" % tag)
        if abs(d[2]) < 1e-12 and (np.abs(np.abs(xyz[:, 1]) - np.abs(y)).max() > tol or np.abs(np.abs(xyz[:, 2]) - np.abs(zz)).max() > tol):
            out.fail("local", "%s: exported local width or thickness coordinates differ from the geometry" % tag)


def volume(l, b, h, t):
    return l * b * h / 4 * 0.5 * t * math.sin(2 * math.pi / t)


def visit_fiber(st):
    from fibermat import vtk_fiber
    out = Out()
    p = {k: DOM[k][c] for k, c in zip(NAMES, st)}
    (l, b, h), X, d = p["dims"], np.array(p["pos"]), DIRS[p["dir"]]
    raw = [p["norm"] * c for c in d]
    G, E = p["moduli"]
    kw = {} if p["res"] is None else dict(zip(("r_resolution", "theta_resolution", "z_resolution"), p["res"]))
    res = p["res"] or (1, 8, 20)
    msh = vtk_fiber(l, b, h, *X, *raw, G, E, p["index"], **kw)
    named = vtk_fiber(length=l, width=b, thickness=h, x=X[0], y=X[1], z=X[2], u=raw[0], v=raw[1], w=raw[2], shear=G, tensile=E,
                      index=p["index"], verbose=False, **kw)
    pts = np.asarray(msh.points, float)
    tag = repr(p)
    if len(pts) != len(named.points) or not np.array_equal(np.asarray(named.points, float), pts):
        out.fail("keywords", "%s: keywords give another geometry than positions" % tag)
    names = set(msh.array_names)
    if p["index"] is None:
        if names & {"fiber", "lbh", "xyz", "uvw", "G", "E"}:
            out.fail("fields", "%s: fields %s without a label" % (tag, names))
        xyz = None
    else:
        xyz = np.asarray(msh["xyz"], float)
        n = len(pts)
        for name, want in (("fiber", np.full(n, p["index"])), ("lbh", np.tile([l, b, h], (n, 1))), ("uvw", np.tile(raw, (n, 1))),
                           ("G", np.full(n, G)), ("E", np.full(n, E))):
            a = np.asarray(msh[name], float)
            if a.shape != want.shape or not np.allclose(a, want, rtol=1e-6):
                out.fail("field " + name, "%s: field %s is %s" % (tag, name, a[:1]))
    check_fiber(out, tag, pts, X, l, b, h, X, d, res, xyz)
    v = abs(msh.volume)
    if abs(v - volume(l, b, h, res[1])) > 1e-3 * volume(l, b, h, res[1]):
        out.fail("volume", "%s: volume %r instead of %r" % (tag, v, volume(l, b, h, res[1])))
    out.traces, out.states = 2, len(pts)
    out.outcome = hash(np.round(pts, 6).tobytes())
    out.note = tag
    if sum(map(bool, st)) < BOUND:
        for k in range(len(NAMES)):
            if st[k] == 0 and not any(st[k + 1:]):
                for c in range(1, len(DOM[NAMES[k]])):
                    out.succ.append((("set", NAMES[k], c), st[:k] + (c,) + st[k + 1:]))
    return out


def mat_state(st):
    kind = st[0]
    if kind == "word":
        return nets.build(("word", st[1], True))[0]
    _, n, psi, seed = st
    m = gen(n, size=20.0, length=8.0, psi=psi, seed=seed, tensile=50.0)
    return hetero(m, seed)


def visit_mat(st):
    from fibermat import vtk_mat
    out = Out()
    mat = mat_state(st)
    M = values(mat)
    for res in (None, (2, 8, 3)) if st[0] == "word" else (None, (1, 8, 6), (2, 4, 3)):
        kw = {} if res is None else dict(zip(("r_resolution", "theta_resolution", "z_resolution"), res))
        calls = []

        def func(msh, i):
            calls.append((int(i), msh.n_points))
            msh["mark"] = np.full(msh.n_points, 10.0 * i + 1)
        keep = mat.copy()
        msh = vtk_mat(mat, func, verbose=False, **kw)
        if not keep.equals(mat):
            out.fail("input", "the mat was modified")
        plain = vtk_mat(mat, verbose=False, **kw)
        pts = np.asarray(msh.points, float)
        if pts.shape != plain.points.shape or not np.array_equal(pts, np.asarray(plain.points, float)):
            out.fail("function", "the geometry depends on the user function")
        if [c[0] for c in calls] != list(range(len(mat))):
            out.fail("calls", "the user function ran for %s" % [c[0] for c in calls])
        if not len(mat):
            if len(pts):
                out.fail("empty", "an empty mat has %d points" % len(pts))
            continue
        who = np.asarray(msh["fiber"]).astype(int)
        if np.any(np.diff(who) < 0) or sorted(set(who.tolist())) != list(range(len(mat))) or any(
                (who == i).sum() != n for i, n in calls):
            out.fail("fibers", "fibers %s instead of 0..%d once each, in order" % (sorted(set(who.tolist())), len(mat) - 1))
            continue
        r = res or (1, 8, 20)
        vol = 0.0
        for i in range(len(mat)):
            at = who == i
            l, b, h, x, y, z, u, v, w, G, E = M[i]
            check_fiber(out, "fiber %d res %s" % (i, res), pts[at], M[i, 3:6], l, b, h, None, M[i, 6:9], r,
                        np.asarray(msh["xyz"], float)[at])
            for name, want in (("lbh", M[i, :3]), ("uvw", M[i, 6:9]), ("G", [G]), ("E", [E]), ("mark", [10.0 * i + 1])):
                a = np.asarray(msh[name], float)[at].reshape(at.sum(), -1)
                if a.shape[1] != len(want) or not np.allclose(a, want, rtol=1e-6):
                    out.fail("field " + name, "fiber %d: field %s is %s instead of %s" % (i, name, a[0], want))
            vol += volume(l, b, h, r[1])
        if abs(abs(msh.volume) - vol) > 1e-3 * vol:
            out.fail("volume", "volume %r instead of %r" % (msh.volume, vol))
        out.traces += 2
        out.states += len(mat)
    out.outcome = (len(mat), hash(M.tobytes()))
    out.note = "%d fibers" % len(mat)
    if st[0] == "word" and len(st[1]) < DEPTH:
        out.succ = [(("add", a), ("word", st[1] + (a,))) for a in range(len(nets.LETTERS))]
    return out


BOUND, DEPTH = 3, 2


def spaces(tier):
    global BOUND, DEPTH
    th = tier == "thorough"
    BOUND, DEPTH = (4, 3) if th else (3, 2)
    gens = [("gen", n, psi, seed) for n in (1, 12) + ((40,) if th else ()) for psi in (0.0, 1.0) for seed in range(8 if th else 2)]
    return [Space("fibers", [(0,) * len(NAMES)], visit_fiber, "at most %d parameters away from the defaults" % BOUND),
            Space("mats", [("word", ())] + gens, visit_mat, "all mats of at most %d fibers over %d letters, and generated mats" % (
                DEPTH, len(nets.LETTERS)))]
