"""R03: a periodic export tiles the plane with copies of the fibers."""
import numpy as np
from scipy.spatial import cKDTree

from ..engine import Out, Space
from ..geo import EX, EY, direction, fiber, mat_of, values
from .. import meshes, stacks
from .r02 import fields, render

ASSUMPTIONS = ["fibers no longer than the box", "PyVista's box clipping and volumes",
               "points cut by the faces of the clipping box are only judged through bounds, volume and distance to their fiber"]

SIZE = 10.0
LETTERS = [fiber(0, 0, EX, 4), fiber(5, 5, direction(0.6), 6, z=2), fiber(-5, 0, EY, 9, z=4), fiber(4.9, -4.8, direction(2.4), 9.5, z=1, b=0.5, h=2.0),
           fiber(-2, 3, direction(-1.1), 3, z=6), fiber(1, -4, (0.6, 0.0, 0.8), 5, z=3), fiber(4.7, 1, EX, 10, z=8)]


def build(st):
    from fibermat import Mesh, Net, Stack
    if st[0] == "word":
        mat = mat_of([LETTERS[k] for k in st[1]], SIZE)
        net = Net(mat)
        return mat, Mesh(net if st[2] == "net" else Stack(mat, net))
    return meshes.build(st)


def visit(st):
    out = Out()
    mat, mesh = build(st)
    M = values(mat)
    X = float(mat.attrs["size"])
    mesh.attrs["periodic"] = True
    plain = meshes_copy(mesh)
    plain.attrs["periodic"] = False
    n = len(mesh)
    cases = [{}]
    if n:
        u, r = fields(mesh, mat, ("wave",))
        cases.append(dict(displacement=0.2 * u, rotation=0.1 * r, force=np.cos(np.arange(n))))
        # sunk below everything, or lifted above
        cases += [dict(displacement=np.full(n, -6.0)), dict(displacement=np.full(n, 4 * X), force=np.sin(np.arange(n)))]
    for kw in cases:
        tag = sorted(kw)
        a = render(mat, mesh, (1, 6, 8), **kw)
        b = render(mat, plain, (1, 6, 8), **kw)
        out.traces += 1
        if not len(mat):
            if a.n_points or b.n_points:
                out.fail("empty", "%s: an empty mat is rendered with %d points" % (tag, a.n_points))
            continue
        P, B = np.asarray(a.points, float), np.asarray(b.points, float)
        tol = 1e-5 * X
        # the non-periodic export is the fibers alone
        ref = render(mat, plain, (1, 6, 8))
        want = np.asarray(ref.points, float)
        if "displacement" in kw:
            want = want + np.asarray(b["displacement"], float)
        if B.shape != want.shape or not np.allclose(B, want, atol=tol) or len(B) != len(mat) * 7 * 8 * 2:
            out.fail("open", "%s: the export without periodicity has %d points for %d fibers" % (tag, len(B), len(mat)))
        if not set(b.array_names) <= set(a.array_names):
            out.fail("fields", "%s: fields %s are lost" % (tag, set(b.array_names) - set(a.array_names)))
            continue
        if np.abs(P[:, :2]).max() > X + tol:
            out.fail("bounds", "%s: the export extends to %r, the box is cut at %r" % (tag, np.abs(P[:, :2]).max(), X))
        if P[:, 2].min() < B[:, 2].min() - tol or P[:, 2].max() > B[:, 2].max() + tol:
            out.fail("vertical", "%s: the heights %r..%r are not those of the fibers" % (tag, P[:, 2].min(), P[:, 2].max()))
        shifts = [(i * X, j * X, 0.0) for i in (-1, 0, 1) for j in (-1, 0, 1)]
        names = [c for c in b.array_names if c != "node"]
        tree = cKDTree(P)
        fa = {c: np.asarray(a[c], float).reshape(len(P), -1) for c in names}
        fb = {c: np.asarray(b[c], float).reshape(len(B), -1) for c in names}
        for sh in shifts:
            Q = B + np.array(sh)
            ins = (np.abs(Q[:, 0]) < X - 10 * tol) & (np.abs(Q[:, 1]) < X - 10 * tol)
            if not ins.any():
                continue
            # fields at the copies: some point of the export at the same place with the same fields
            A1 = np.concatenate([P] + [fa[c] for c in names], axis=1)
            B1 = np.concatenate([Q] + [fb[c] for c in names], axis=1)[ins]
            A1, B1 = np.where(np.isinf(A1), 1e9, A1), np.where(np.isinf(B1), 1e9, B1)
            scale = np.maximum(np.abs(B1).max(axis=0), 1.0)
            d, _ = cKDTree(A1 / scale).query(B1 / scale)
            if d.max() > 1e-4:
                w = int(d.argmax())
                d0, k0 = tree.query(Q[ins][w])
                diff = [c for c in names if not np.allclose(fa[c][k0], fb[c][ins][w], rtol=1e-4, atol=1e-4)]
                out.fail("copy", "%s: the copy shifted by %s misses the point %s of fiber %d (nearest at %r, fields %s)" % (
                    tag, sh, Q[ins][w], int(fb["fiber"][ins][w, 0]), d0, diff))
                break
            out.states += int(ins.sum())
        # nothing else: every point lies on a copy of a fiber (VTK's clipping adds points inside cut cells, whose
        # integer labels are truncated averages: the labels are judged at the vertices, above)
        who = np.round(fa["fiber"][:, 0]).astype(int)
        best = np.full(len(P), np.inf)
        lift = fa["displacement"] if "displacement" in fa else 0 * P
        for row in M:
            for sh in shifts:
                r_ = P - lift - np.array(sh) - row[3:6]
                s_ = np.clip(r_ @ row[6:9], -0.5 * row[0], 0.5 * row[0])
                best = np.minimum(best, np.linalg.norm(r_ - s_[:, None] * row[6:9], axis=1) - 0.5 * max(row[1], row[2]))
        if best.max() > (0.01 * X if "displacement" in kw else 10 * tol):
            out.fail("stray", "%s: a point lies %r off every copy of the fibers" % (tag, best.max()))
        # twice the box in both directions: four times the material
        if "displacement" not in kw and not abs(abs(a.volume) - 4 * abs(b.volume)) <= 1e-3 * 4 * abs(b.volume):
            out.fail("volume", "%s: volume %r instead of four times %r" % (tag, a.volume, b.volume))
        if set(np.unique(who)) != set(range(len(mat))):
            out.fail("labels", "%s: fibers %s" % (tag, np.unique(who)))
    out.outcome = (len(mat), hash(M.tobytes()))
    out.note = "%d fibers, %d nodes" % (len(mat), n)
    if st[0] == "word" and len(st[1]) < DEPTH:
        out.succ = [(("add", k), ("word", st[1] + (k,), st[2])) for k in range(len(LETTERS))]
    return out


def meshes_copy(mesh):
    from fibermat import Mesh
    m = Mesh(mesh)
    m.attrs = dict(mesh.attrs)
    return m


DEPTH = 2


def spaces(tier):
    global DEPTH
    meshes.TIER = tier
    th = tier == "thorough"
    DEPTH = 3 if th else 2
    g = [("mat", ("gen", stacks.GENS[k], s), t) for k in (2, 4, 5) for s in range(4 if th else 1) for t in (None, 2.0)]
    return [Space("copies", [("word", (), "net"), ("word", (), "stack")] + g, visit,
                  "all mats of at most %d fibers over %d letters (inside, across borders and corners, as long as the box, tilted), "
                  "unstacked and stacked, and generated mats" % (DEPTH, len(LETTERS)))]
