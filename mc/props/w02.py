"""W02: the pipeline gives the same result from a shared settings object as from explicit arguments."""
import contextlib
import io
import itertools
import math
import warnings

import numpy as np

from ..engine import Out, Space
from ..geo import close

ASSUMPTIONS = ["finite moduli and at least one fiber where the mechanical model is involved"]
INF = float("inf")
BASE = dict(n=5, length=9.0, width=1.0, thickness=1.0, size=12.0, theta=1.0, shear=1.0, tensile=100.0, seed=2, periodic=True,
            threshold=None, packing=2.0, itermax=12, tol=1e-6, lmin=0.01, lmax=None, coupling=0.99, interp_size=None, verbose=False)
DOM = dict(n=(1, 8), length=(4.0, 11.5), width=(0.5, 2.0), thickness=(0.5, 2.0), size=(9.5, 30.0), theta=(0.0, 0.3), shear=(3.0, 0.4),
           tensile=(20.0, 5000.0), seed=(0, 7), periodic=(False,), threshold=(0.5, 2.0, 10.0, 0.0), packing=(1.0, 1.5, 4.0), itermax=(1, 3, 10000),
           tol=(1e-3, 1e-8), lmin=(0.5, 1.5), lmax=(1.0, 4.0), coupling=(0.5, 1.0, 0.0), interp_size=(2, 9), verbose=(True,))


def quiet(fn, *a, **kw):
    with warnings.catch_warnings(), contextlib.redirect_stderr(io.StringIO()):
        warnings.simplefilter("ignore")
        return fn(*a, **kw)


def frames(out, what, a, b):
    cols = list(a.columns) == list(b.columns) and len(a) == len(b) and (a.index == b.index).all()
    if not cols or not all(np.array_equal(a[c].values, b[c].values) for c in a.columns):
        out.fail(what, "the %s differs" % what)
        return False
    if type(a) is not type(b) or dict(a.attrs) != dict(b.attrs):
        out.fail(what + "-attrs", "the attributes of the %s differ: %s %s and %s %s" % (what, type(a), dict(a.attrs), type(b), dict(b.attrs)))
        return False
    return True


def arrays(out, what, a, b):
    for k, (x, y) in enumerate(zip(a, b)):
        x, y = (v.toarray() if hasattr(v, "toarray") else np.asarray(v) for v in (x, y))
        if x.shape != y.shape or not close(x, y, rtol=1e-10, atol=1e-12):
            out.fail(what, "part %d of the %s differs (%s, %s)" % (k, what, x.shape, y.shape))
            return False
    return len(a) == len(b)


def visit(st):
    from fibermat import (Mat, Mesh, Net, Stack, constraint, solve, stiffness, vtk_fiber, vtk_mat, vtk_mesh)
    from fibermat.widgets import Settings
    out = Out()
    p = dict(BASE)
    p.update(dict(st))
    if len(st) % 2:
        s = Settings(**p)
    else:  # the same settings, given afterwards
        s = Settings()
        s(**p)
    kw = dict(**s)
    theta = p["theta"] * math.pi
    # --- explicit arguments
    m1 = Mat(p["n"], p["length"], p["width"], p["thickness"], p["size"], theta, 0.0, p["shear"], p["tensile"], p["seed"])
    # --- shared settings
    m2 = Mat(**s)
    if not frames(out, "mat", m1, m2):
        return out
    n1, n2 = Net(m1, p["periodic"]), Net(m2, **s)
    if not frames(out, "network", n1, n2):
        return out
    if bool(n2.attrs.get("periodic")) != p["periodic"]:
        out.fail("periodic", "the network is periodic=%r" % n2.attrs.get("periodic"))
    s1, s2 = Stack(m1, n1, p["threshold"]), Stack(m2, n2, **s)
    if not (frames(out, "stack", s1, s2) and frames(out, "stacked mat", m1, m2)):
        return out
    e1, e2 = Mesh(s1), Mesh(s2, **s)
    if not frames(out, "mesh", e1, e2):
        return out
    mod = dict(lmin=p["lmin"], lmax=p["lmax"], coupling=p["coupling"])
    a1, a2 = stiffness(m1, e1, **mod), stiffness(m2, e2, **s)
    c1, c2 = constraint(m1, e1), constraint(m2, e2, **s)
    arrays(out, "stiffness", a1, a2)
    arrays(out, "constraint", c1, c2)
    sol = dict(packing=p["packing"], itermax=p["itermax"], tol=p["tol"], interp_size=p["interp_size"], verbose=False)
    r1 = quiet(solve, m1, e1, **sol, **mod)
    r2 = quiet(solve, m2, e2, **s)
    arrays(out, "matrices of the solver", (a1[0], c1[0]), r2[:2])
    arrays(out, "matrices of the solver", r1[:2], r2[:2])
    names = "u f F H Z rlambda mask err".split()
    for name, x, y in zip(names, r1[2:], r2[2:]):
        x, y = np.asarray(x(), float), np.asarray(y(), float)
        if x.shape != y.shape or not close(x, y, rtol=1e-7, atol=1e-9 if name != "err" else 1e-7):
            out.fail("trajectory", "%s differs: %s %s" % (name, x.shape, y.shape))
    k = len(np.asarray(r2[7]()))  # rlambda is not resampled
    if len(np.asarray(r2[2]())) != (k if p["interp_size"] is None else p["interp_size"]):
        out.fail("size", "displacements have %d samples" % len(np.asarray(r2[2]())))
    if k > max(p["itermax"] + 1, 2):
        out.fail("itermax", "%d recorded states" % k)
    frames(out, "mesh", e1, e2)
    # --- rendering
    for name, x, y in (("fiber", lambda: vtk_fiber(p["length"], p["width"], p["thickness"], shear=p["shear"], tensile=p["tensile"]),
                        lambda: vtk_fiber(**s)),
                       ("rendered mat", lambda: vtk_mat(m1, verbose=False), lambda: vtk_mat(m2, **kw)),
                       ("rendered mesh", lambda: vtk_mesh(m1, e1, verbose=False), lambda: vtk_mesh(m2, e2, **kw))):
        x, y = quiet(x), quiet(y)
        if sorted(x.array_names) != sorted(y.array_names) or not close(x.points, y.points) or not all(
                close(x[c], y[c]) for c in x.array_names):
            out.fail("render", "the %s differs" % name)
    out.states, out.traces = 10, 2
    out.outcome = (len(m1), len(n1), len(s1), k, round(float(np.abs(a1[0]).sum()), 6), round(float(np.asarray(r1[6]())[-1]), 6))
    out.note = "%d fibers, %d connections, %d states" % (len(m1), len(s1), k)
    return out


OWN = dict(mat=("n", "length", "width", "thickness", "size", "theta", "shear", "tensile", "seed"), net=("periodic",),
           stack=("threshold",), mesh=(), stiffness=("lmin", "lmax", "coupling"), constraint=(),
           solve=("packing", "itermax", "tol", "lmin", "lmax", "coupling", "interp_size", "verbose"),
           vtk_fiber=("length", "width", "thickness", "shear", "tensile"), vtk_mat=("verbose",), vtk_mesh=("verbose",))
ARGS = dict(mat=[dict(n=4, length=9.0, size=12.0, seed=3), dict(n=3, size=12.0, length=30.0, theta=0.1, tensile=50.0, seed=65537)],
            net=[dict(periodic=True), dict(periodic=False)],
            stack=[dict(threshold=t) for t in (None, 0.0, 0.95, 1.0, 1.05, 2.0, 100.0)], mesh=[{}],
            stiffness=[{}, dict(lmin=0.1, coupling=0.5), dict(lmax=2.0)], constraint=[{}],
            solve=[dict(packing=1.3, itermax=6, lmin=0.1, verbose=False), dict(packing=4.0, itermax=3, coupling=0.9, interp_size=4, verbose=False)],
            vtk_fiber=[dict(length=7.0, width=2.0, tensile=3.0)], vtk_mat=[dict(verbose=False)], vtk_mesh=[dict(verbose=False)])
FOREIGN = dict(n=(0, 50), length=(0.5, 500.0), width=(0.01, 50.0), thickness=(0.01, 50.0), size=(1.0, 1000.0), theta=(0.0, 0.5),
               shear=(0.01, 1000.0), tensile=(0.01, 1e6), seed=(0, 77), periodic=(True, False), threshold=(0.0, 0.5, 1000.0),
               packing=(0.0, 1.0, 50.0), itermax=(0, 1, 10 ** 6), tol=(0.0, 1e-10, 0.1), lmin=(0.0, 1e-6, 5.0), lmax=(1e-3, 1e3), coupling=(0.0, 0.1, 1.0),
               interp_size=(2, 50), verbose=(False,))
_WORLD = {}


def stage(name, kw):
    """the arrays a stage returns (and what it leaves in its inputs)"""
    import pickle
    from fibermat import (Mat, Mesh, Net, Stack, constraint, solve, stiffness, vtk_fiber, vtk_mat, vtk_mesh)
    if "w" not in _WORLD:
        mat = Mat(6, length=9.0, size=12.0, tensile=200.0, seed=1)
        net = Net(mat)
        below = pickle.loads(pickle.dumps((mat, net)))
        stack = Stack(mat, net)
        _WORLD["w"] = pickle.dumps(below + (mat, stack, Mesh(stack)))
    mat0, net, mat, stack, mesh = pickle.loads(_WORLD["w"])
    cells = lambda o: [o.values.astype(float), np.array(o.index, float), np.array([hash(repr(sorted(o.attrs.items()))) % 2 ** 40], float)]
    poly = lambda o: [np.asarray(o.points, float)] + [np.asarray(o[c], float) for c in sorted(o.array_names)]
    if name == "mat":
        return cells(Mat(**kw))
    if name == "net":
        return cells(Net(mat0, **kw))
    if name == "stack":
        return cells(Stack(mat0, net, **kw)) + cells(mat0)
    if name == "mesh":
        return cells(Mesh(stack, **kw))
    if name in ("stiffness", "constraint"):
        r = (stiffness if name == "stiffness" else constraint)(mat, mesh, **kw)
        return [x.toarray() if hasattr(x, "toarray") else np.asarray(x, float) for x in r] + cells(mesh)
    if name == "solve":
        r = solve(mat, mesh, **kw)
        return [x.toarray() for x in r[:2]] + [np.asarray(x(), float) for x in r[2:9]]
    if name == "vtk_fiber":
        return poly(vtk_fiber(**kw))
    if name == "vtk_mat":
        return poly(vtk_mat(mat, **kw))
    return poly(vtk_mesh(mat, mesh, **kw))


def stage_visit(st):
    """parameters of the other stages do not change the result of a stage"""
    out = Out()
    name, k, params = st
    own = ARGS[name][k]
    want = quiet(stage, name, dict(own))
    foreign = [[(q, v) for v in FOREIGN[q]] for q in params]
    for extra in itertools.product(*foreign):
        got = quiet(stage, name, dict(own, **dict(extra)))
        out.states += 1
        out.traces += 1
        if len(got) != len(want) or not all(x.shape == y.shape and close(x, y, rtol=1e-9, atol=1e-12) for x, y in zip(got, want)):
            out.fail("stage", "%s%s differs when it is also given %s" % (name, own, dict(extra)))
            break
    out.outcome = st
    return out


def stage_states(th):
    st = []
    for name in OWN:
        rest = [q for q in FOREIGN if q not in OWN[name]]
        for k in range(len(ARGS[name])):
            st += [(name, k, (q,)) for q in rest]
            if th or name in ("net", "stack", "mesh", "constraint"):
                st += [(name, k, c) for c in itertools.combinations(rest, 2) if th or k in (2, 4) and "tol" in c]
    return st


def spaces(tier):
    th = tier == "thorough"
    dep = [(q, v) for q in DOM for v in DOM[q]]
    init = [()] + [(d,) for d in dep]
    pairs = [(a, b) for a, b in itertools.combinations(dep, 2) if a[0] != b[0]]
    init += pairs if th else [pr for pr in pairs if DOM[pr[0][0]][0] == pr[0][1] and DOM[pr[1][0]][-1] == pr[1][1]]
    if th:
        one = [(q, DOM[q][0]) for q in DOM]
        init += [t for t in itertools.combinations(one, 3)]
    return [Space("departures", init, visit, "%d departures of at most %d parameters from the base settings, alternately given to the "
                  "constructor and afterwards" % (len(init), 3 if th else 2)),
            Space("stages", stage_states(th), stage_visit, "every stage with its own arguments and %s of the other stages at extreme values"
                  % ("one or two parameters" if th else "one parameter"))]
