"""M01: a generated mat honours every generation parameter."""
import math

import numpy as np

from ..engine import Out, Space
from ..geo import COLS, values

ASSUMPTIONS = ["angles compared within 1e-9 rad"]

DOM = {
    "n": (7, 0, 1, 2, 60),
    "length": (25.0, 1.0, 60.0, 3, 1e-3 * math.pi),
    "width": (1.0, 0.2, 3.0, 2, math.sqrt(2) * 1e-5),
    "thickness": (1.0, 0.1, 2.5, 3, 1e-5 / 3),
    "size": (50.0, 1.0, 1000.0, 20, 1e-2 * math.pi, 1e7 / 3),
    "theta": (math.pi, 0.0, 0.5, 2 * math.pi, 1.0),
    "psi": (0.0, 0.3, math.pi, 1.2),
    "shear": (1.0, 0.01, 250.0, 7, math.pi * 1e9),
    "tensile": (math.inf, 5.0, 1e5, 1e-7 / 3),
    "seed": (0, 1, 12345, 2 ** 32 - 1),
}
EXTRA = dict(periodic=False, pairs=None, threshold=2.5, packing=4.0, itermax=10, lmin=0.1, lmax=3.0, coupling=0.5,
             interp_size=11, verbose=False, tol=1e-3, errtol=1e-2, perm=None)
NAMES = list(DOM)


def check(out, mat, p, how):
    n = p["n"]
    tag = "%s " % how
    if mat.shape != (n, 11) or list(mat.columns) != COLS:
        out.fail(tag + "shape", "shape %s columns %s" % (mat.shape, list(mat.columns)))
        return
    if mat.index.tolist() != list(range(n)):
        out.fail(tag + "labels", "labels %s" % mat.index.tolist()[:5])
    if mat.attrs.get("n") != n or mat.attrs.get("size") != p["size"]:
        out.fail(tag + "attrs", "attributes %s" % mat.attrs)
    M = values(mat)
    for c, k in (("l", "length"), ("b", "width"), ("h", "thickness"), ("G", "shear"), ("E", "tensile")):
        if not np.all(M[:, COLS.index(c)] == p[k]):
            out.fail(tag + c, "%s = %s instead of %r" % (c, M[:3, COLS.index(c)], p[k]))
    X, U = M[:, 3:6], M[:, 6:9]
    if not np.all(np.abs(X[:, :3]) <= 0.5 * p["size"]):
        out.fail(tag + "box", "a centre lies outside the box")
    if np.any(np.diff(X[:, 2]) < 0):
        out.fail(tag + "sorted", "centres are not sorted by height")
    if not np.all(np.abs(np.linalg.norm(U, axis=1) - 1) < 1e-9):
        out.fail(tag + "unit", "a direction is not a unit vector")
    # out-of-plane angle within psi/2; in-plane angle within theta/2 (mod a half turn when cos(q) < 0)
    if not np.all(np.abs(U[:, 2]) <= math.sin(min(0.5 * p["psi"], 0.5 * math.pi)) + 1e-9):
        out.fail(tag + "psi", "out-of-plane angle beyond %r" % (0.5 * p["psi"]))
    hor = np.hypot(U[:, 0], U[:, 1]) > 1e-6
    t = np.abs(np.arctan2(U[hor, 1], U[hor, 0]))
    if not np.all(t <= 0.5 * p["theta"] + 1e-9):
        out.fail(tag + "theta", "in-plane angle %r beyond %r" % (float(t.max()), 0.5 * p["theta"]))
    # every range is actually used (60 uniform draws; the draws are fixed by the seed)
    if n >= 60:
        for c in range(3):
            x = X[:, c] / p["size"]
            if not (x.min() < -0.25 and x.max() > 0.25):
                out.fail(tag + "spread", "coordinate %s only spans %s..%s of the box" % ("xyz"[c], x.min(), x.max()))
        if p["theta"] > 0:
            s = np.arctan2(U[hor, 1], U[hor, 0]) / p["theta"]
            if not (s.min() < -0.25 and s.max() > 0.25):
                out.fail(tag + "theta spread", "in-plane angles only span %s..%s of the range" % (s.min(), s.max()))
        if p["psi"] > 0:
            s = np.arcsin(U[:, 2]) / p["psi"]
            if not (s.min() < -0.25 and s.max() > 0.25):
                out.fail(tag + "psi spread", "out-of-plane angles only span %s..%s of the range" % (s.min(), s.max()))


def visit(st):
    from fibermat import Mat
    out = Out()
    p = {k: DOM[k][c] for k, c in zip(NAMES, st)}
    mat = Mat(**p)
    check(out, mat, p, "keywords")
    pos = Mat(*[p[k] for k in NAMES])
    dflt = Mat(**{k: v for (k, v), c in zip(p.items(), st) if c or k == "n"})
    extra = Mat(**p, **EXTRA)
    init = Mat.init(**p, **EXTRA)
    for name, other in (("positional", pos), ("defaults", dflt), ("extra settings", extra), ("init", init)):
        if not (values(other).tobytes() == values(mat).tobytes() and dict(other.attrs) == dict(mat.attrs)
                and other.index.tolist() == mat.index.tolist()):
            out.fail(name, "another mat than with keywords: %s" % name)
    out.traces = 5
    out.outcome = hash(values(mat).tobytes())
    out.note = "%s" % {k: v for (k, v), c in zip(p.items(), st) if c}
    if sum(map(bool, st)) < BOUND:
        for k in range(len(NAMES)):
            if st[k] == 0 and not any(st[k + 1:]):
                for c in range(1, len(DOM[NAMES[k]])):
                    out.succ.append((("set", NAMES[k], c), st[:k] + (c,) + st[k + 1:]))
    return out


def visit_many(st):
    from fibermat import Mat
    out = Out()
    n, seed = st
    for kw in ({}, dict(size=20, length=3, width=0.25, thickness=2, theta=1, psi=1, shear=3, tensile=10)):
        p = {k: v[0] for k, v in DOM.items()}
        p.update(kw, n=n, seed=seed)
        check(out, Mat(**p), p, "many")
        out.traces += 1
    out.outcome = st
    return out


BOUND = 3


def spaces(tier):
    global BOUND
    BOUND = 4 if tier == "thorough" else 3
    big = (4,) + (0,) * (len(NAMES) - 1)
    many = [(n, seed) for n in (100, 255, 256, 257, 500, 501, 513, 1000, 1001, 1025, 2000, 4097) + ((9999, 16384, 70000) if tier == "thorough" else ())
            for seed in (0, 3)]
    return [Space("many", many, visit_many, "numbers of fibers up to %d" % many[-1][0]), Space("parameters", [(0,) * len(NAMES), big], visit,
                  "at most %d parameters away from the defaults" % BOUND,
                  label=lambda st: repr({k: DOM[k][c] for k, c in zip(NAMES, st) if c}))]
