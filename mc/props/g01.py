"""G01: stages leave their inputs alone, can be repeated in any history and do not share state."""
import contextlib
import io
import pickle
import warnings

import numpy as np

from ..engine import Out, Space
from ..geo import EX, EY, fiber, gen, hetero, mat_of
from .. import stacks
from .w01 import debruijn

ASSUMPTIONS = ["one process; results are compared with those of the same stage on unpickled copies of its inputs"]


def make(k):
    if k == "empty":
        return gen(0)
    if k[0] == "grid":  # whole numbers only
        return mat_of([fiber(2 * (i % 2) - 1, i // 2, (EX, EY)[i % 2], l=6 - 2 * (i // 2), z=2 * i, b=1 + i // 2, h=1, G=1 + i, E=100) for i in range(k[1])], 14)
    if k[0] == "pile":
        return stacks.cluster_mat([k[1]], "blocks")[0]
    _, n, size, length, seed = k
    return hetero(gen(n, size=size, length=length, seed=seed, tensile=100.0), seed)


def snap(o):
    """content of an object: class, column names and types, values, labels, attributes"""
    if o is None:
        return None
    return (type(o).__name__, [str(c) for c in o.columns], [str(t) for t in o.dtypes], [o[c].values.copy() for c in o.columns],
            np.array(o.index), pickle.dumps(sorted((str(k), v) for k, v in dict(o.attrs).items())))


def eq(a, b, skip=()):
    """None, or what differs"""
    if a is None or b is None:
        return None if a is b else "existence"
    if a[0] != b[0]:
        return "class"
    ca, cb = ([c for c in x[1] if c not in skip] for x in (a, b))
    if ca != cb:
        return "columns %s and %s" % (a[1], b[1])
    da, db = (dict(zip(x[1], zip(x[2], x[3]))) for x in (a, b))
    for c in ca:
        if da[c][0] != db[c][0] or not np.array_equal(da[c][1], db[c][1]):
            return "column %s" % c
    if not np.array_equal(a[4], b[4]):
        return "labels"
    if a[5] != b[5]:
        return "attributes"
    return None


def arr(x):
    if hasattr(x, "toarray"):
        return x.toarray()
    if hasattr(x, "points"):
        return np.concatenate([np.asarray(x.points, float).ravel()] + [np.asarray(x[c], float).ravel() for c in sorted(x.array_names)])
    if hasattr(x, "t") and callable(x):
        return np.concatenate([np.asarray(x(t), float).ravel() for t in (0.0, 0.31, 0.5, 1.0)])
    return np.asarray(x, float)


def call(op, o):
    """-> (result, list of arrays); `o` maps names to the shared objects"""
    from fibermat import (Mat, Mesh, Net, Stack, constraint, solve, stiffness, vtk_mat, vtk_mesh)
    mat, net, stack, mesh = (o.get(k) for k in ("mat", "net", "stack", "mesh"))
    if op == "net":
        return Net(mat)
    if op == "open":
        return Net(mat, periodic=False)
    if op == "pairs":
        pairs = np.array([(0, k) for k in range(1, len(mat))] + [(k, k) for k in range(len(mat))])
        was = pairs.copy()
        net = Net(mat, pairs=pairs)
        if not np.array_equal(pairs, was):
            raise ValueError("Net changed the pairs it was given")
        return net
    if op == "stack":
        return Stack(mat, net)
    if op == "near":
        return Stack(mat, net, threshold=1.5)
    if op == "mesh":
        return Mesh(stack)
    if op == "flat":
        return Mesh(net)
    if op == "K":
        return stiffness(mat, mesh, lmin=0.1, coupling=0.9)
    if op == "C":
        return constraint(mat, mesh)
    if op == "solve":
        return solve(mat, mesh, packing=1.6, itermax=4, lmin=0.1, verbose=False)
    if op == "vmat":
        return (vtk_mat(mat, verbose=False, z_resolution=3),)
    if op == "vmesh":
        n = len(mesh)
        f = dict(displacement=0.01 * np.arange(n), rotation=np.zeros(n), force=np.cos(np.arange(n))) if n else {}
        return (vtk_mesh(mat, mesh, verbose=False, z_resolution=3, **f),)
    if op == "lp":
        C, f, H, h = Stack.constraint(mat, net)
        sol = Stack.solve(mat, net)
        return (C, f, H, h) + ((sol.x,) if sol is not None else ())
    if op == "check":
        return tuple(np.array(t.check(v)) for t, v in ((Mat, mat), (Net, net), (Stack, stack), (Mesh, mesh)) if v is not None)
    if op == "gen":
        return Mat(4, size=20.0, seed=3)
    raise ValueError(op)


NEEDS = dict(net=("mat",), open=("mat",), pairs=("mat",), stack=("mat", "net"), near=("mat", "net"), mesh=("stack",), flat=("net",),
             K=("mat", "mesh"), C=("mat", "mesh"), solve=("mat", "mesh"), vmat=("mat",), vmesh=("mat", "mesh"), lp=("mat", "net"),
             check=(), gen=(), thin=("mat",), trim=("mesh",), note=("mat", "net"),
             turn=("net",))
EDITS = ("thin", "trim", "note", "turn")  # a user's changes to the objects
GIVES = dict(net="net", open="net", pairs="net", stack="stack", near="stack", mesh="mesh", flat="mesh")
WRITES = dict(stack=("mat", "z"), near=("mat", "z"), C=("mesh", "h"), solve=("mesh", "h"))
OPS = list(NEEDS)


def edit(op, o):
    """-> names of the changed objects"""
    mat, mesh = o["mat"], o.get("mesh")
    if op == "note":  # additional columns and attributes, or away with them
        on = "note" not in mat.columns
        for x in {id(x): x for x in o.values() if x is not None}.values():
            if "note" in x.columns:
                del x["note"], x["remark"], x.attrs["note"]
            if on:
                x.insert(0, "note", np.arange(len(x))[::-1] * 1.5)
                x["remark"] = "r"
                x.attrs["note"] = "n"
        return [k for k in o if o[k] is not None]
    if op == "turn":  # the same network, connections listed the other way round
        from fibermat import Net
        o["net"] = Net(o["net"].iloc[::-1].reset_index(drop=True))
        return []
    if op == "thin":
        mat["h"] = mat["h"].values * (0.5 if len(mat) and mat["h"].max() > 0.75 else 2.0)
        return ["mat"]
    s, f = mesh["s"].values.copy(), mesh["fiber"].values
    for k in set(f.tolist()):  # the inner nodes move to the middle of their fiber, or back
        t = np.flatnonzero(f == k)
        t = t[(s[t] > s[t].min()) & (s[t] < s[t].max())]
        if len(t):
            s[t] *= 0.5 if np.abs(s[t]).max() > 0.125 * mat["l"].max() else 2.0
    mesh["s"] = s
    return ["mesh"]


def quiet(fn, *a):
    with warnings.catch_warnings(), contextlib.redirect_stderr(io.StringIO()):
        warnings.simplefilter("ignore")
        return fn(*a)


def excluded(op, o):
    return op in ("K", "C", "solve") and not len(o["mesh"]) or op == "pairs" and len(o["mat"]) < 2


def digest(res):
    if hasattr(res, "columns"):
        return snap(res)
    return [arr(x) for x in res]


def same_result(a, b):
    if isinstance(a, tuple):
        return eq(a, b)
    if len(a) != len(b):
        return "number of results"
    for k, (x, y) in enumerate(zip(a, b)):
        if x.shape != y.shape or not np.allclose(x, y, rtol=1e-9, atol=1e-12, equal_nan=True):
            return "result %d" % k
    return None


def key(op, o):
    h = [op]
    for k in NEEDS[op] if op != "check" else ("mat", "net", "stack", "mesh"):
        s = snap(o.get(k))
        h.append(None if s is None else (s[0], tuple(s[1]), tuple(v.tobytes() for c, v in zip(s[1], s[3])), s[5]))
    return hash(tuple(h))


class World:
    """shared objects, the results of the stages so far, and the result every (stage, input) has had"""

    def __init__(self, mat):
        self.o = dict(mat=mat)
        self.kept = []  # (what, object, content)
        self.memo = {}
        self.done = []
        self.todo = []  # stages whose results have to be compared with those on copies of the inputs

    def settle(self, out, last=False):
        """only once the history is over, so that a stage cannot depend on these comparisons"""
        for op, copies, kk, where in self.todo[-1:] if last else self.todo:
            why = same_result(self.memo[kk], digest(quiet(call, op, pickle.loads(copies))))
            if why:
                out.fail("repeat", "%s: %s differs from the same stage on copies of its inputs (%s)" % (where, op, why))
                return

    def step(self, op, out):
        if any(self.o.get(k) is None for k in NEEDS[op]):
            return None
        if excluded(op, self.o):
            return None
        o = self.o
        if op in EDITS:
            new = [o[name] for name in edit(op, o)]
            self.kept = [(n, x, snap(x) if any(x is y for y in new) else c) for n, x, c in self.kept]
            self.done.append(op)
            return True
        before = {k: snap(v) for k, v in o.items()}
        kk = key(op, o)
        copies = pickle.dumps(o) if kk not in self.memo else None
        res = quiet(call, op, o)
        self.done.append(op)
        where = "after %s" % " ".join(self.done[-6:])
        if copies is not None:
            self.memo[kk] = digest(res)
            self.todo.append((op, copies, kk, where))
        why = same_result(digest(res), self.memo[kk])
        if why:
            out.fail("repeat", "%s: %s differs from the same stage on the same inputs earlier (%s)" % (where, op, why))
            return False
        w = WRITES.get(op)
        for k, v in o.items():
            why = eq(before[k], snap(v), (w[1],) if w and w[0] == k else ())
            if why:
                out.fail("input", "%s: %s changed the %s (%s)" % (where, op, k, why))
                return False
        if w:  # the documented change, and nothing else
            tgt = o[w[0]]
            if w[1] == "h" and not np.array_equal(tgt["h"].values, o["mat"]["h"].values[tgt["fiber"].values]):
                out.fail("thickness", "%s: the thickness column of the mesh is not that of the fibers" % where)
                return False
            if w[1] == "z" and "z" not in tgt.columns:
                out.fail("heights", "%s: the mat lost its heights" % where)
                return False
        for i, (name, obj, content) in enumerate(self.kept):
            skip = ()
            if w and obj is o[w[0]]:
                skip = (w[1],)
            why = eq(content, snap(obj), skip)
            if why:
                out.fail("shared", "%s: %s changed an earlier result (%s: %s)" % (where, op, name, why))
                return False
            if skip:
                self.kept[i] = (name, obj, snap(obj))
        if hasattr(res, "columns"):
            self.kept = self.kept[-7:] + [(op, res, snap(res))]
            if op in GIVES:
                self.o[GIVES[op]] = res
        return True


def separate(world, out):
    """writing into one object never shows in another (a stack of an empty mat is its network)"""
    if not len(world.o["mat"]):
        return
    objs = [("input mat", world.o["mat"])] + [(n, r) for n, r, _ in world.kept if r is not world.o["mat"]]
    for name, obj in objs:
        before = [snap(x) for _, x in objs]
        keep = {c: obj[c].values.copy() for c in obj.columns}
        attrs = dict(obj.attrs)
        for c in obj.columns:
            v = obj[c].values
            if v.flags.writeable and len(v):
                v[...] = v[::-1].copy() + (1 if v.dtype.kind in "fiu" else "w")
        obj.attrs["verif_probe"] = 1
        for (n2, x), was in zip(objs, before):
            if x is not obj:
                why = eq(was, snap(x))
                if why:
                    out.fail("separate", "after %s: writing into the result of %s changes that of %s (%s)" % (
                        " ".join(world.done[-8:]), name, n2, why))
                    return
        for c, v in keep.items():
            if obj[c].values.flags.writeable:
                obj[c].values[...] = v
        del obj.attrs["verif_probe"]
        if dict(obj.attrs) != attrs:
            out.fail("separate", "attributes cannot be restored")


def tour_visit(st):
    out = Out()
    k, order, a, b = st
    seq = debruijn(len(OPS), order)
    seq = (seq + seq)[a:b + order - 1]
    w = World(make(k))
    n = 0
    for c in seq:
        r = w.step(OPS[c], out)
        if r is False:
            return out
        n += r is True
    w.settle(out)
    separate(w, out)
    out.states, out.trans, out.traces = n, n, len(w.memo)
    out.outcome = (str(k), len(w.memo), n)
    out.note = "%d calls on %d different inputs" % (n, len(w.memo))
    return out


def words_visit(st):
    """a history on new objects, followed by writes into each object"""
    out = Out()
    k, word = st
    w = World(make(k))
    for op in word:
        if w.step(op, out) is False:
            return out
    w.settle(out, last=True)
    separate(w, out)
    if out.fails:
        return out
    out.states = out.trans = len(word)
    out.traces = len(w.memo)
    out.outcome = (str(k), tuple(word))
    if len(word) < DEPTH:
        have = set(w.o)
        out.succ = [(op, (k, word + (op,))) for op in OPS
                    if set(NEEDS[op]) <= have and not excluded(op, w.o)]
    return out


def edits_visit(st):
    """a stage, a user's change of its input, and every stage again"""
    out = Out()
    k, a, e = st
    first = [op for op in OPS if op != a]
    for rest in [(a,) + tuple(first)] + ([(b,) for b in first] if DEPTH > 3 else []):
        w = World(make(k))
        for op in ("net", "stack", "mesh", a, e) + rest:
            if w.step(op, out) is False:
                return out
            out.states += 1
            out.trans += 1
        w.settle(out)
        out.traces += len(w.memo)
    out.outcome = st
    return out


def defaults_visit(st):
    """objects built without arguments are new objects"""
    from fibermat import Mat, Mesh, Net, Stack
    out = Out()
    for cls in (Mat, Net, Stack, Mesh):
        x = cls()
        was = snap(x)
        x.attrs["n"] = 99
        x.attrs["verif_probe"] = 1
        for c2 in (Mat, Net, Stack, Mesh):
            y = c2()
            if y.attrs["n"] != 0 or "verif_probe" in y.attrs:
                out.fail("defaults", "an empty %s is changed by writing into an empty %s" % (c2.__name__, cls.__name__))
        if eq(was, snap(cls())):
            out.fail("defaults", "two empty %s differ" % cls.__name__)
    out.traces = 4
    out.outcome = 1
    return out


DEPTH = 4


def spaces(tier):
    global DEPTH
    th = tier == "thorough"
    DEPTH = 4 if th else 3
    mats = ["empty", ("gen", 1, 20.0, 9.0, 0), ("gen", 2, 10.0, 9.0, 1), ("gen", 5, 14.0, 12.0, 2), ("pile", (0, 8, 15))]
    order = 3 if th else 2
    n = len(OPS) ** order
    step = 300 if th else 120
    tours = [(k, order, a, a + step) for k in mats[1:] + [("gen", 12, 20.0, 12.0, 3)] for a in range(0, n, step)]
    return [Space("tours", tours, tour_visit, "histories on shared objects in which every word of %d out of %d stage calls occurs" % (order, len(OPS))),
            Space("words", [(k, ()) for k in ((mats[0], mats[3], mats[4]) if th else (mats[0], mats[2]))], words_visit,
                  "every executable history of at most %d stage calls on new objects" % DEPTH),
            Space("edits", [(k, a, e) for k in (mats if th else mats[3:4]) for a in OPS for e in EDITS], edits_visit,
                  "a stage, a change of the mat or of the mesh by its user, and every stage again"),
            Space("defaults", [0], defaults_visit, "the four empty objects")]
