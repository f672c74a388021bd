"""R02: rendered fields interpolate the mesh results along each fiber."""
import numpy as np

from ..engine import Out, Space
from ..geo import values
from .. import meshes, stacks

ASSUMPTIONS = ["rendered points may be evaluated up to 1.2e-4 of the fiber half-length away from their abscissa (the code contracts "
               "them by 1e-4)", "force fields without moments"]


def hermite(s, u, r, x, side):
    """(value, slope, curvature) of the piecewise cubic through u with slopes r at abscissa x; at a node the
    element on the given side"""
    if side == "left":
        k = int(np.searchsorted(s, x, "left")) - 1
    else:
        k = int(np.searchsorted(s, x, "right")) - 1
    k = min(max(k, 0), len(s) - 2)
    while s[k + 1] == s[k]:
        k += -1 if side == "left" and k > 0 or k == len(s) - 2 else 1
    l = s[k + 1] - s[k]
    t = (x - s[k]) / l
    a, b, c, d = u[k], u[k + 1], l * r[k], l * r[k + 1]
    v = a * (1 - 3 * t * t + 2 * t ** 3) + b * (3 * t * t - 2 * t ** 3) + c * (t - 2 * t * t + t ** 3) + d * (t ** 3 - t * t)
    p = (a * (6 * t * t - 6 * t) + b * (6 * t - 6 * t * t) + c * (1 - 4 * t + 3 * t * t) + d * (3 * t * t - 2 * t)) / l
    q = (a * (12 * t - 6) + b * (6 - 12 * t) + c * (6 * t - 4) + d * (6 * t - 2)) / l ** 2
    return v, p, q


def agree(got, s, u, r, x, eps):
    """index of the quantity that differs from every admissible evaluation, or None"""
    cand = []
    for y in (x, x - eps, x + eps, x * (1 - 1e-4)):
        y = min(max(y, s[0]), s[-1])
        for side in ("left", "right"):
            cand.append(hermite(s, u, r, y, side))
    C = np.array(cand)
    span = C.max(axis=0) - C.min(axis=0)
    lo, hi = C.min(axis=0), C.max(axis=0)
    for k in range(3):
        tol = 1e-7 * max(1.0, np.abs(C[:, k]).max()) + 0.05 * span[k]
        if not lo[k] - tol <= got[k] <= hi[k] + tol:
            return k, float(got[k]), float(lo[k]), float(hi[k])
    return None


def fields(mesh, mat, kind):
    """nodal displacements and slopes"""
    n = len(mesh)
    s = mesh.s.values.astype(float)
    f = mesh.fiber.values
    if kind[0] == "disp":
        u = np.zeros(n)
        u[kind[1]] = 1.0
        return u, np.zeros(n)
    if kind[0] == "slope":
        r = np.zeros(n)
        r[kind[1]] = 1.0
        return np.zeros(n), r
    if kind[0] == "cubic":
        l = mat.l.values.astype(float)[f]
        x = s / l
        a = 1.0 + 0.5 * f
        return a * (1 - x + 2 * x ** 2 - 3 * x ** 3), a * (-1 + 4 * x - 9 * x ** 2) / l
    if kind[0] == "rigid":
        return 0.3 * s * (1 + f) - 2.0 * f, 0.3 * (1.0 + f)
    t = np.arange(n)
    return np.cos(1.7 * t) * 2, np.sin(0.9 * t + 1)


def render(mat, mesh, res, **kw):
    from fibermat import vtk_mesh
    if res is not None:
        kw.update(zip(("r_resolution", "theta_resolution", "z_resolution"), res))
    return vtk_mesh(mat, mesh, verbose=False, **kw)


def visit(st):
    src, res = st
    out = Out()
    mat, mesh = meshes.build(src)
    mesh.attrs["periodic"] = False
    M = values(mat)
    s = mesh.s.values.astype(float)
    f = mesh.fiber.values
    n = len(mesh)
    keep = (mat.copy(), mesh.copy())
    base = render(mat, mesh, res)
    pts0 = np.asarray(base.points, float)
    who = np.asarray(base["fiber"]).astype(int)
    x = np.asarray(base["xyz"], float)[:, 0]
    if set(base.array_names) & {"displacement", "rotation", "curvature", "force"}:
        out.fail("plain", "fields without being asked for: %s" % base.array_names)
    if sorted(set(who.tolist())) != list(range(len(mat))):
        out.fail("fibers", "fibers %s in the export" % sorted(set(who.tolist())))
        return out
    nodes = {i: np.flatnonzero(f == i) for i in range(len(mat))}
    # one rendered point per (fiber, section): the field depends on the abscissa only
    sect = {}
    for p in range(len(x)):
        sect.setdefault((int(who[p]), round(float(x[p]), 9)), []).append(p)
    dist = np.array([abs(np.diff(s[nodes[i]])).max() for i in nodes])
    small = n <= 14
    kinds = [("cubic",), ("rigid",), ("wave",)]
    kinds += [(a, k) for a in ("disp", "slope") for k in (range(n) if small else (0, 1, n // 2, n - 1))]
    for kind in kinds:
        u, r = fields(mesh, mat, kind)
        kw = dict(displacement=u)
        if kind[0] != "disp":
            kw["rotation"] = r
        msh = render(mat, mesh, res, **kw)
        d = np.asarray(msh["displacement"], float)
        rot, cur = np.asarray(msh["rotation"], float), np.asarray(msh["curvature"], float)
        pts = np.asarray(msh.points, float)
        if d.shape != pts.shape or rot.shape != x.shape or cur.shape != x.shape:
            out.fail("shape", "%s: fields of shape %s %s %s" % (kind, d.shape, rot.shape, cur.shape))
            break
        if np.any(d[:, :2]):
            out.fail("horizontal", "%s: horizontal displacements" % (kind,))
        if not np.allclose(pts - pts0, d, rtol=0, atol=1e-5 * max(1.0, np.abs(d).max())):
            out.fail("moved", "%s: the geometry does not move by the displacement" % (kind,))
        for (i, xi), ps in sect.items():
            at = nodes[i]
            if len({round(float(v), 9) for v in d[ps, 2]}) > 1:
                out.fail("section", "%s: fiber %d at %r: several displacements in one section" % (kind, i, xi))
            p = ps[0]
            # coincident nodes with different values: the field is ambiguous next to them
            ss, uu, rr = s[at], u[at], r[at]
            dup = np.flatnonzero((np.diff(ss) == 0) & ((np.diff(uu) != 0) | (np.diff(rr) != 0)))
            if len(dup) and np.abs(ss[dup] - xi).min() < 1e-3:
                continue
            bad = agree((d[p, 2], rot[p], cur[p]), ss, uu, rr, xi, 1.2e-4 * 0.5 * M[i, 0])
            if bad:
                out.fail(("displacement", "rotation", "curvature")[bad[0]], "%s: fiber %d at abscissa %r: %s is %r instead of %r..%r" % (
                    kind, i, xi, ("displacement", "rotation", "curvature")[bad[0]], *bad[1:]))
                break
            out.states += 1
        out.traces += 1
        if len(out.fails) > 10:
            break
    # forces
    for kind in [("one",), ("wave",)] + [("unit", k) for k in (range(n) if small else (0, n // 2, n - 1))]:
        F = np.ones(n) if kind[0] == "one" else np.cos(1.3 * np.arange(n)) if kind[0] == "wave" else (np.arange(n) == kind[1]) * 1.0
        msh = render(mat, mesh, res, force=F)
        v = np.asarray(msh["force"], float)
        if not np.allclose(np.asarray(msh.points, float), pts0):
            out.fail("force moved", "%s: a force field moves the geometry" % (kind,))
        for (i, xi), ps in sect.items():
            at = nodes[i]
            ss, FF = s[at], F[at]
            k = int(np.abs(ss - xi).argmin())
            got = v[ps]
            if kind[0] == "one" and np.abs(got - 1).max() > 1e-6:
                out.fail("force constant", "a constant force field is rendered as %r" % got[0])
            if kind[0] == "unit" and kind[1] not in at and np.abs(got).max() > 1e-9:
                out.fail("force leak", "a force on node %d (fiber %d) shows on fiber %d" % (kind[1], f[kind[1]], i))
            eps = 1.2e-4 * 0.5 * M[i, 0]
            el = [b - a for a, b in zip(ss, ss[1:]) if b > a]
            if abs(ss[k] - xi) < 1e-6 and (ss == ss[k]).sum() == 1:
                tol = 1e-6 + 3 * eps / min(el) * 2
                if tol < 0.5 and np.abs(got - FF[k]).max() > tol:
                    out.fail("force node", "%s: force %r at node %d (value %r)" % (kind, got[0], at[k], FF[k]))
        out.traces += 1
        if len(out.fails) > 10:
            break
    # both at once, and twice
    u, r = fields(mesh, mat, ("wave",))
    a = render(mat, mesh, res, displacement=u, rotation=r, force=u)
    b = render(mat, mesh, res, displacement=u, rotation=r)
    c = render(mat, mesh, res, force=u)
    if not (np.array_equal(a.points, b.points) and np.array_equal(a["displacement"], b["displacement"]) and np.array_equal(a["force"], c["force"])):
        out.fail("together", "displacement and force fields influence each other")
    if not (keep[0].equals(mat) and keep[1].equals(mesh)):
        out.fail("input", "the mat or mesh was modified")
    # the same in another unit of length (a power of two: rounding is the same)
    for unit in (2.0 ** -27, 2.0 ** 17):
        mat_, mesh_ = mat.copy(), mesh.copy()
        mat_.attrs["size"] = mesh_.attrs["size"] = unit * mat.attrs["size"]
        for t in (mat_, mesh_):
            for col in {*"lbhxyzs"} & set(t.columns):
                t[col] = unit * t[col]
        g = render(mat_, mesh_, res, displacement=unit * u, rotation=r, force=u)
        for name, scale in (("displacement", unit), ("rotation", 1.0), ("curvature", 1 / unit), ("force", 1.0)):
            w, v = np.asarray(a[name], float), np.asarray(g[name], float) / scale
            if w.shape != v.shape or not np.allclose(v, w, rtol=1e-5, atol=1e-6 * max(1.0, np.abs(w).max())):
                out.fail("unit", "%s changes with the unit of length (%r): by up to %r" % (
                    name, unit, np.abs(v - w).max() if w.shape == v.shape else "shape"))
        out.traces += 1
    out.traces += 3
    out.outcome = (n, len(sect))
    out.note = "%d nodes, %d sections" % (n, len(sect))
    return out


def states(tier):
    th = tier == "thorough"
    st = []

    def grow(s, d):
        st.append(s)
        if d:
            for _, t in meshes.net_succ(s):
                if list(t[2]) == sorted(t[2]):
                    grow(t, d - 1)
    for n in (1, 2, 3):
        grow(("abs", n, (), 0), 3 if th else 2)
    for w in ((0,), (0, 2), (0, 8), (2, 7, 16), (4, 9, 2, 12), (0, 1, 2, 3), (13, 8, 0, 2, 7)):
        st.append(("mat", ("pile", w), None))
    for k in (12, 30) + ((70,) if th else ()):
        st.append(("mat", ("ladder", k), None))
    for g, seeds in ((stacks.GENS[1], 1), (stacks.GENS[2], 1), (stacks.GENS[3], 1), (stacks.GENS[4], 1), (stacks.GENS[5], 1),
                     (stacks.GENS[6], 1)):
        for seed in range(seeds * (4 if th else 1)):
            for t in (None, 2.0):
                st.append(("mat", ("gen", g, seed), t))
    return st


def spaces(tier):
    meshes.TIER = tier
    return [Space("fields", [(s, r) for s in states(tier) for r in ((1, 4, 9), (1, 4, 14)) + ((None,) if tier == "thorough" else ())],
                  visit, "every mesh: the unit displacement and slope of every node (all fields by linearity), cubic, rigid and mixed fields, "
                  "unit forces")]
