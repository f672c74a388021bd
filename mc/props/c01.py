"""C01: contact rows say exactly: above the floor, apart, and below the plate."""
import collections

import numpy as np

from ..engine import Out, Space
from ..geo import values
from .. import mech, meshes

ASSUMPTIONS = ["rows are compared as a multiset; rows that can never bind (no unknown and non-negative bound, or "
               "infinite bound) count as vacuous"]

HEIGHTS = ("given", "wavy", "sunk", "scattered")


def set_heights(mesh, kind):
    n = len(mesh)
    t = np.arange(n)
    if kind == "wavy":
        mesh["z"] = mesh.z.values + 0.25 * ((3 * t) % 5)
    elif kind == "sunk":
        mesh["z"] = mesh.z.values - 2.0 - 0.125 * (t % 3)
    elif kind == "scattered":
        mesh["z"] = 10.0 - 0.5 * ((5 * t) % 7)


def rows_of(C, H, dH):
    C = C.tocsr() if hasattr(C, "tocsr") else C
    out = []
    for r in range(C.shape[0]):
        a = {}
        for c, v in zip(C.indices[C.indptr[r]:C.indptr[r + 1]].tolist(), C.data[C.indptr[r]:C.indptr[r + 1]].tolist()):
            a[c] = a.get(c, 0) + v
        a = {c: v for c, v in a.items() if v != 0}
        out.append((tuple(sorted(a.items())), float(H[r]), float(dH[r])))
    return out


def expected(mesh, h):
    f = mesh.fiber.values
    z = mesh.z.values.astype(float)
    con = mesh.constraint.values
    hn = h[f]
    Z = (z + 0.5 * hn).max()
    rows = []
    for i in range(len(f)):
        j = int(con[i])
        if i > j:
            continue
        rows.append((((2 * i, -1),), z[i] - 0.5 * hn[i], 0.0))
        if i != j:
            rows.append((((2 * i, 1), (2 * j, -1)), z[j] - z[i] - 0.5 * (hn[i] + hn[j]), 0.0))
        rows.append((((2 * j, 1),), Z - z[j] - 0.5 * hn[j], 1.0))
    return rows


def match(got, want, tol=1e-9):
    """multiset comparison with tolerance on the bounds"""
    a, b = collections.defaultdict(list), collections.defaultdict(list)
    for k, H, d in got:
        a[k, round(d, 9)].append(H)
    for k, H, d in want:
        b[k, round(d, 9)].append(H)
    for k in set(a) | set(b):
        x, y = sorted(a.get(k, [])), sorted(b.get(k, []))
        if len(x) != len(y) or any(not abs(p - q) <= tol * max(1, abs(q)) for p, q in zip(x, y)):
            return k, x, y
    return None


def visit(st):
    from fibermat import constraint
    src, mod, ht, thick = st
    out = Out()
    mat, mesh = meshes.build(src)
    mech.set_moduli(mat, mod)
    set_heights(mesh, ht)
    if thick:
        mat["h"] = mat.h.values * (1.0 + 0.25 * ((np.arange(len(mat)) * 2) % 3))
    h = mat.h.values.astype(float)
    n = len(mesh)
    npair = int((np.arange(n) <= mesh.constraint.values).sum())
    M0, m0 = mat.copy(), mesh.copy()
    C, f, H, df, dH = constraint(mat, mesh)
    if C.shape != (3 * npair, 2 * n) or any(np.shape(v) != (3 * npair,) for v in (f, H, df, dH)):
        out.fail("shape", "system of shape %s for %d pairs of %d nodes" % (C.shape, npair, n))
        return out
    got = [r for r in rows_of(C, H, dH)]
    vac = [r for r in got if r[1] == np.inf or (not r[0] and r[1] >= 0)]
    got = [r for r in got if r not in vac]
    ends = sum(1 for i in range(n) if mesh.constraint.values[i] == i)
    if len(vac) != ends:
        out.fail("vacuous", "%d vacuous rows for %d fiber ends" % (len(vac), ends))
    d = match(got, expected(mesh, h))
    if d:
        out.fail("rows", "row %s: bounds %s instead of %s" % d)
    if np.any(f) or np.any(df):
        out.fail("forces", "initial forces are not zero")
    # the same mesh again, after other thicknesses were given to the mat
    again, h2 = mat.copy(), h * (1.5 - 0.25 * (np.arange(len(h)) % 2))
    again = type(mat)(again)
    again["h"] = h2
    C2, f2, H2, df2, dH2 = constraint(again, mesh)
    d = match([r for r in rows_of(C2, H2, dH2) if not (r[1] == np.inf or (not r[0] and r[1] >= 0))], expected(mesh, h2))
    if d:
        out.fail("again", "second assembly with other thicknesses, row %s: bounds %s instead of %s" % d)
    if not M0.equals(mat) or not m0.equals(mesh.drop(columns=[c for c in mesh.columns if c not in m0.columns])):
        out.fail("input", "the mat or the mesh columns were modified")
    out.traces = 1
    out.states = len(got)
    out.outcome = hash(tuple(sorted((k, round(b, 6)) for k, b, _ in got)))
    out.note = "%d rows" % len(got)
    if (ht, thick) == ("given", 0):
        out.succ += [("heights", (src, mod, k, thick)) for k in HEIGHTS[1:]]
    if not thick:
        out.succ.append(("thickness", (src, mod, ht, 1)))
    return out


def spaces(tier):
    meshes.TIER = tier
    return [Space("rows", [(s, "given", "given", 0) for s in mech.mesh_states(tier)], visit,
                  "every mesh with every height and thickness pattern")]
