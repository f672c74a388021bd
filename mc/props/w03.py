"""W03: an argument left out means its documented default, whether the others come by name or by position."""
import contextlib
import io
import itertools
import math
import pickle
import warnings

import numpy as np
import scipy.sparse.linalg as spl

from ..engine import Out, Space
from ..geo import EX, close, fiber, mat_of

ASSUMPTIONS = ["positions are those of the public signatures", "progress reports are compared by whether there is one"]
INF = math.inf


def dense(A, b):
    return np.linalg.lstsq(A.toarray(), b, rcond=None)[0]


def zero(A, b):
    return np.zeros(len(b))


def ramp(A, b):
    return np.linspace(1, 2, len(b))


def off(e):
    """a solver whose answer misses the right-hand side by e"""
    def f(A, b):
        b = b.copy()
        b[0] += e
        return spl.spsolve(A, b)
    return f


def mark(msh, i):
    msh["mark"] = np.full(msh.n_points, 2.0 * i + 1)
    return msh


# stage -> (required arguments, [(argument, documented default, another value)] in the order of the signature)
SIG = dict(
    mat=((), [("n", 0, 4), ("length", 25.0, 7.0), ("width", 1.0, 0.5), ("thickness", 1.0, 2.0), ("size", 50.0, 20.0), ("theta", math.pi, 1.0),
              ("psi", 0.0, 0.4), ("shear", 1.0, 3.0), ("tensile", INF, 50.0), ("seed", 0, 9)]),
    net=(("mat",), [("periodic", True, False), ("pairs", None, np.array([[0, 0], [0, 1], [1, 1], [1, 2], [0, 3], [4, 5]]))]),
    stack=(("mat", "net"), [("threshold", None, 1.05)]),
    mesh=(("net",), []),
    stiffness=(("mat", "mesh"), [("lmin", None, 4.0), ("lmax", None, 3.0), ("coupling", 1.0, 0.5)]),
    constraint=(("mat", "mesh"), []),
    solve=(("mat", "mesh"), [("packing", 1.0, 1.4), ("itermax", 1000, 2), ("solve", spl.spsolve, dense), ("perm", None, "reverse"), ("tol", 1e-6, 0.6),
                             ("errtol", 1e-6, 1e-2), ("interp_size", None, 4), ("verbose", True, False)]),
    fiber=((), [("length", 25.0, 7.0), ("width", 1.0, 0.5), ("thickness", 1.0, 2.0), ("x", 0.0, 3.0), ("y", 0.0, -1.0), ("z", 0.0, 2.5), ("u", 1.0, 0.6),
                ("v", 0.0, 0.8), ("w", 0.0, -0.3), ("shear", 1.0, 4.0), ("tensile", INF, 9.0), ("index", None, 6), ("r_resolution", 1, 2),
                ("theta_resolution", 8, 6), ("z_resolution", 20, 5)]),
    vtk_mat=(("mat",), [("func", None, mark), ("verbose", True, False)]),
    vtk_mesh=(("mat", "mesh"), [("displacement", None, "wave"), ("rotation", None, "tilt"), ("force", None, "wave"), ("moment", None, "tilt"),
                                ("verbose", True, False)]),
    interpolate=(("y",), [("size", None, 5)]),
    plot=(("K", "u", "F", "du", "dF", "C", "f", "H", "df", "dH"), [("solve", spl.spsolve, zero), ("perm", None, "reverse"), ("ax", "axes", "axes"),
                                                                     ("tol", 1e-6, 0.6)]),
)
_W = {}


def world(kind):
    """the required arguments of every stage, in a mat where small differences of the defaults show"""
    from fibermat import Mat, Mesh, Net, Stack, constraint, stiffness
    if kind not in _W:
        if kind == "usual" or kind.startswith("unit"):
            u = 1.0 if kind == "usual" else float(kind[4:])
            mat = Mat(6, length=9.0 * u, width=u, thickness=u, size=12.0 * u, tensile=200.0, seed=1)
        elif kind == "steps":  # more contacts with the plate than the default number of steps
            mat = mat_of([fiber(3 * (k % 25) - 36, 3 * (k // 25) - 36, (0.6, 0.0, 0.8), l=2.0, z=0.001 * k + 0.7) for k in range(600)], 80.0)
        else:  # a contact open by a distance next to the tolerance
            mat = mat_of([fiber(0, 0, EX, 6), fiber(0, 0, (0.0, 1.0, 0.0), 6, z=1.0 + 0.5 * (kind == "stack")), fiber(4, 0, EX, 1, z=0.75)], 20.0)
        net = Net(mat, periodic=kind == "usual" or kind.startswith("unit"))
        before = pickle.dumps((mat, net))
        if kind != "steps":
            stack = Stack(mat, net)
        else:
            stack = net
        if kind.startswith("gap"):
            mat.z = mat.z.values + np.array([0.0, float(kind[3:]), 0.0])
            stack = Net(mat, periodic=False)
        mesh = Mesh(stack)
        _W[kind] = before, pickle.dumps((mat, stack, mesh))
    (mat0, net), (mat, stack, mesh) = (pickle.loads(x) for x in _W[kind])
    return mat0, net, mat, stack, mesh


def required(stage, kind):
    from fibermat import constraint, stiffness
    mat0, net, mat, stack, mesh = world(kind)
    w = dict(net=dict(mat=mat0), stack=dict(mat=mat0, net=net), mesh=dict(net=stack), vtk_mat=dict(mat=mat))
    if stage in ("stiffness", "constraint", "solve", "vtk_mesh"):
        return dict(mat=mat, mesh=mesh)
    if stage == "interpolate":
        return dict(y=[[0.0, 1.0, INF], [2.0, -1.0, INF], [7.0, 0.5, INF], [5.0, 0.0, INF]])
    if stage == "plot":
        K, u, F, du, dF = stiffness(mat, mesh, lmin=0.1, coupling=0.9)
        C, f, H, df, dH = constraint(mat, mesh)
        return dict(K=K, u=u, F=F, du=du, dF=dF, C=C, f=f, H=H, df=df, dH=dH)
    return w.get(stage, {})


def special(v, req):
    if isinstance(v, str) and v == "reverse":
        n = 2 * len(req["mesh"]) + 3 * int((req["mesh"].constraint.values >= np.arange(len(req["mesh"]))).sum()) if "mesh" in req else req["K"].shape[0] + req["C"].shape[0]
        return np.arange(n)[::-1].copy()
    if isinstance(v, str) and v in ("wave", "tilt", "none"):
        t = np.arange(len(req["mesh"]))
        return None if v == "none" else np.cos(t) if v == "wave" else 0.1 * np.sin(2 * t)
    if isinstance(v, str) and v == "axes":
        from matplotlib.figure import Figure
        return Figure().subplots()
    return v.copy() if isinstance(v, np.ndarray) else v


def call(stage, args, kw):
    """-> list of arrays"""
    import fibermat as fm
    fn = dict(mat=fm.Mat, net=fm.Net, stack=fm.Stack, mesh=fm.Mesh, stiffness=fm.stiffness, constraint=fm.constraint, solve=fm.solve, fiber=fm.vtk_fiber,
              vtk_mat=fm.vtk_mat, vtk_mesh=fm.vtk_mesh, interpolate=fm.Interpolate, plot=fm.plot_system)[stage]
    err, std = io.StringIO(), io.StringIO()
    with warnings.catch_warnings(), contextlib.redirect_stderr(err), contextlib.redirect_stdout(std):
        warnings.simplefilter("ignore")
        r = fn(*args, **kw)
    if stage in ("mat", "net", "stack", "mesh"):
        res = [r[c].values.astype(float) for c in r.columns] + [np.array(r.index, float), np.array([float(r.attrs.get(a, -1)) for a in ("n", "size", "periodic")])]
    elif stage in ("stiffness", "constraint"):
        res = [x.toarray() if hasattr(x, "toarray") else np.asarray(x, float) for x in r]
    elif stage == "solve":
        res = [np.array([v for x in r[:2] for v in (x.shape[0], abs(x).sum())])] + [np.asarray(x(), float) for x in r[2:]] + [np.asarray(x(0.37), float) for x in r[2:]]
    elif stage == "interpolate":
        res = [np.asarray(r(), float)] + [np.asarray(r(t), float) for t in (0.0, 0.1, 0.37, 0.5, 0.8, 1.0)]
    elif stage == "plot":
        res = []
        for line in r.get_lines():
            res += [np.asarray(line.get_xdata(), float), np.asarray(line.get_ydata(), float)]
        try:
            res.append(np.array([float(std.getvalue().split()[-1])]))
        except (IndexError, ValueError):
            pass
    else:
        res = [np.asarray(r.points, float)] + [np.asarray(r[c], float) for c in sorted(r.array_names)]
    return res + [np.array([float(bool(err.getvalue().strip()))])]


def visit(st):
    out = Out()
    stage, kind, given = st[:3]
    req_names, opts = SIG[stage]
    given = dict(given)
    first = None
    for how in ("names", "explicit", "position", "all by position", "required by name", "required by name, explicit"):
        req = required(stage, kind)
        val = {q: given.get(q, d) for q, d, _ in opts}
        val = {q: special(v, req) for q, v in val.items()}
        names = [q for q, _, _ in opts]
        last = max([k + 1 for k, q in enumerate(names) if q in given], default=0)
        r = list(req.values())
        ax = {"ax": val["ax"]} if stage == "plot" else {}
        if how == "names":
            args, kw = r, dict({q: val[q] for q in names if q in given}, **ax)
        elif how == "explicit":
            args, kw = r, val
        elif how == "position":
            args, kw = r + [val[q] for q in names[:last]], {} if last > 2 else ax
        elif how == "all by position":
            args, kw = r + [val[q] for q in names], {}
        elif how == "required by name":
            args, kw = [], dict(req, **{q: val[q] for q in names if q in given}, **{q: v for q, v in ax.items() if q not in given})
        else:
            args, kw = [], dict(req, **val)
        if how != "names" and kind == "steps" and how != "explicit":
            continue
        got = call(stage, args, kw)
        out.traces += 1
        out.states += 1
        if first is None:
            first = got
        elif len(got) != len(first) or not all(a.shape == b.shape and close(a, b, rtol=1e-9, atol=1e-12) for a, b in zip(got, first)):
            out.fail(how, "%s(%s): %s gives another result than leaving the other arguments out" % (stage, given_label(given), how))
    if not st[3:]:
        out.outcome = (stage, kind, hash(tuple(x.tobytes() for x in first)))
    return out


def given_label(given):
    return ", ".join("%s=%s" % (q, getattr(v, "__name__", "array" if isinstance(v, np.ndarray) else v)) for q, v in dict(given).items())


def states(tier):
    th = tier == "thorough"
    st = []
    for stage, (_, opts) in SIG.items():
        base = [()]
        if stage == "mat":
            base = [("n",)]
            st.append((stage, "usual", ()))
        if stage == "solve":
            base = [("packing",), ("packing", "verbose")]
            st.append((stage, "usual", ()))
        names = [q for q, _, _ in opts]
        oth = {q: v for q, _, v in opts}
        for b in base:
            for k in range(5 if th else 3):
                for g in itertools.combinations([q for q in names if q not in b], k):
                    if stage == "plot" and "ax" in g:
                        continue
                    st.append((stage, "usual", tuple((q, oth[q]) for q in names if q in g + b)))
    # other units of length: a default that is no limit must not become one
    for stage in ("net", "stack", "stiffness", "solve", "vtk_mat", "vtk_mesh", "plot"):
        opts = {q: v for q, _, v in SIG[stage][1]}
        for e in (-12, -6, 6, 12, 20):
            fixed = (("packing", 1.2), ("verbose", False)) if stage == "solve" else ()
            more = {} if stage == "net" else {q: v for q, v in opts.items() if q not in dict(fixed) and q != "ax"} if th else {}
            st.append((stage, "unit%r" % 2.0 ** e, fixed))
            st.extend((stage, "unit%r" % 2.0 ** e, fixed + ((q, v),)) for q, v in more.items())
    # where the default itself decides
    far = (("packing", 1e9), ("solve", zero), ("errtol", INF), ("verbose", False))
    st.append(("solve", "steps", far))
    for g in (1.0005e-6, 0.9995e-6):
        st.append(("solve", "gap%r" % g, (("packing", 1.5), ("verbose", False))))
        st.append(("plot", "gap%r" % g, (("solve", ramp),)))
    for e in (1e-4, 1e-2):
        for more in ((("tol", 0.6),), (("tol", 0.6), ("errtol", 1e-3)), (("errtol", 1e-3),)):
            st.append(("solve", "usual", (("packing", 1.4), ("solve", off(e))) + more))
    for e in (1.0005e-6, 0.9995e-6):
        st.append(("solve", "usual", (("packing", 1.5), ("solve", off(e)), ("verbose", False))))
        st.append(("solve", "stack", (("packing", 1.5), ("solve", off(e)), ("verbose", False))))
    return st


def spaces(tier):
    S = states(tier)
    return [Space("arguments", list(range(len(S))), lambda k: visit(S[k]), "every stage with every set of at most %d arguments given, the others left out, "
                  "spelled out, or given by position; runs longer than the default limit, contacts and errors next to the default tolerances" % (4 if tier == "thorough" else 2),
                  label=lambda k: "%s %s (%s)" % (S[k][0], S[k][1], given_label(S[k][2])))]
