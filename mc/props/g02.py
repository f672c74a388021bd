"""G02: tables survive any sequence of rebuilding operations."""
import copy
import io
import pickle

import numpy as np
import pandas as pd

from ..engine import Out, Space
from ..geo import close
from .. import stacks
from .g01 import arr, eq, make, quiet, snap

ASSUMPTIONS = ["file round trips use formats that keep every digit"]
EXTRA_COL, EXTRA_ATTR = "note", "comment"


def csv(df):
    text = df.to_csv(float_format="%.17g")
    d = pd.read_csv(io.StringIO(text), index_col=0, float_precision="round_trip")
    d.index = d.index.astype(int) if len(d) else pd.RangeIndex(0)
    for c in df.columns:
        if len(d) == 0 or d[c].dtype != df[c].dtype and df[c].dtype.kind in "if":
            d[c] = d[c].astype(df[c].dtype)
    d.attrs = dict(df.attrs)
    return d


def keep(d, df):
    d.attrs = dict(df.attrs)
    return d


def whole(df):
    """the columns that hold whole numbers only, as integers (as a file without decimals is read)"""
    d = pd.DataFrame({c: (np.rint(v).astype(int) if v.dtype.kind == "f" and np.isfinite(v).all() and (v == np.rint(v)).all() else v.copy())
                      for c, v in ((c, df[c].values) for c in df.columns)})
    return keep(d, df)


def numbers(snapshot):
    """the same content, whatever the type of its numbers"""
    kind = ["number" if v.dtype.kind in "if" else t for t, v in zip(snapshot[2], snapshot[3])]
    return snapshot[:2] + (kind,) + snapshot[3:]


OPS = dict(
    whole=whole,
    rebuild=lambda df: df,
    plain=lambda df: keep(pd.DataFrame({c: df[c].values.copy() for c in df.columns}), df),
    values=lambda df: keep(pd.DataFrame({c: list(df[c].values) for c in df.columns}).astype({c: df[c].dtype for c in df.columns}), df),
    copy=lambda df: df.copy(),
    deepcopy=lambda df: copy.deepcopy(df),
    pickle=lambda df: pickle.loads(pickle.dumps(df)),
    csv=csv,
    slice=lambda df: df.iloc[:],
    take=lambda df: df[np.ones(len(df), dtype=bool)],
    halves=lambda df: keep(pd.concat([pd.DataFrame(df).iloc[:len(df) // 2], pd.DataFrame(df).iloc[len(df) // 2:]]), df),
    columns=lambda df: df[list(df.columns)[::-1]],
    relabel=lambda df: df.reset_index(drop=True),
    index=lambda df: keep(pd.DataFrame(df).set_axis(pd.Index(np.arange(len(df))), axis=0), df),
    fortran=lambda df: keep(pd.DataFrame({c: np.asfortranarray(np.repeat(df[c].values, 2))[::2] for c in df.columns}), df),
    extracol=lambda df: keep(df.assign(**{EXTRA_COL: np.arange(len(df)) * 0.5}), df),
    textcol=lambda df: keep(df.assign(**{EXTRA_COL: ["x%d" % k for k in range(len(df))]}), df),
    extraattr=lambda df: keep(df.copy(), type("A", (), dict(attrs=dict(df.attrs, **{EXTRA_ATTR: "glass"})))),
)


def objects(k):
    from fibermat import Mesh, Net, Stack
    mat = make(k)
    first = mat.copy()
    first.attrs = dict(mat.attrs)
    first = type(mat)(first)
    net = Net(mat)
    stack = Stack(mat, net)
    near = Stack(mat, net, threshold=1.2)
    mesh = Mesh(near)
    return dict(loose=first, mat=mat, net=net, stack=near, mesh=mesh, full=stack)


def later(kind, x, o):
    """results of the later stages with x in place of the original object"""
    from fibermat import Mesh, Net, Stack, constraint, solve, stiffness, vtk_mat, vtk_mesh
    res = []
    mat, net, stack, mesh = o["mat"], o["net"], o["stack"], o["mesh"]
    if kind in ("loose", "mat"):
        n = Net(x)
        y = type(x)(pickle.loads(pickle.dumps(x)))
        s = Stack(y, n)
        res += [n, s, Mesh(s), (vtk_mat(x, verbose=False, z_resolution=3),)]
        res.append((np.asarray(y.z.values),))
        if kind == "mat" and len(x):
            res += [stiffness(x, copy_of(mesh), lmin=0.1), constraint(x, copy_of(mesh))]
            res.append((vtk_mesh(x, mesh, verbose=False, z_resolution=3),))
    if kind in ("net", "stack", "full"):
        m = copy_of(mat)
        s = Stack(m, x, threshold=1.0)
        res += [s, Mesh(x), Mesh(s), (m.z.values,)]
    if kind == "mesh" and len(x):
        m = type(x)(pickle.loads(pickle.dumps(x)))
        res += [stiffness(mat, m, lmin=0.1, coupling=0.9), constraint(mat, m)]
        res.append(solve(mat, m, packing=1.5, itermax=3, lmin=0.1, verbose=False))
        n = len(m)
        res.append((vtk_mesh(mat, m, 0.01 * np.arange(n), np.zeros(n), np.cos(np.arange(n)), verbose=False, z_resolution=3),))
    return res


def copy_of(x):
    return type(x)(pickle.loads(pickle.dumps(x)))


def compare_later(a, b, loose=False):
    for k, (x, y) in enumerate(zip(a, b)):
        if hasattr(x, "columns"):
            x, y = strip(x), strip(y)
            if not set(x.columns) <= set(y.columns):
                return "stage result %d: columns" % k
            x, y = canon(x), canon(y)
            if loose:
                x, y = numbers(x), numbers(y)
            why = eq(x, y, (EXTRA_COL,))  # a stack of an empty mat keeps the extra columns of its network
            if why:
                return "stage result %d: %s" % (k, why)
        else:
            for i, (p, q) in enumerate(zip(x, y)):
                p, q = arr(p), arr(q)
                if p.shape != q.shape or not close(p, q):
                    return "stage result %d, part %d" % (k, i)
    return None if len(a) == len(b) else "number of results"


def strip(x):
    d = type(x)(pickle.loads(pickle.dumps(x)))
    d.attrs = {k: v for k, v in dict(x.attrs).items() if k != EXTRA_ATTR}
    return d


_REF = {}


def reference(k, kind):
    if (k, kind) not in _REF:
        o = objects(k)
        _REF[k, kind] = (o, quiet(later, kind, o[kind], o))
    o, ref = _REF[k, kind]
    return pickle.loads(pickle.dumps(o)), ref


def canon(x):
    """content with the columns in a fixed order (the order of the columns is free)"""
    s = snap(x)
    order = np.argsort(s[1])
    return (s[0], [s[1][i] for i in order], [s[2][i] for i in order], [s[3][i] for i in order], s[4], s[5])


def visit(st):
    from fibermat import Mat, Mesh, Net, Stack
    out = Out()
    k, kind, word = st
    o, ref = reference(k, kind)
    x0 = o[kind]
    classes = dict(loose=[Mat], mat=[Mat], net=[Net, Stack], stack=[Stack, Net], full=[Stack, Net], mesh=[Mesh])[kind]
    for cls in classes:
        x = cls(x0)
        want_cols, want_attrs = set(x0.columns), dict(x0.attrs)
        for op in word:
            x = cls(OPS[op](x))
            if op in ("extracol", "textcol"):
                want_cols = want_cols | {EXTRA_COL}
            if op == "extraattr":
                want_attrs = dict(want_attrs, **{EXTRA_ATTR: "glass"})
            if type(x) is not cls:
                out.fail("class", "%s gives a %s" % (op, type(x).__name__))
            if not cls.check(x):
                out.fail("check", "the rebuilt table is not accepted")
        if set(x.columns) != want_cols:
            out.fail("columns", "columns %s instead of %s" % (list(x.columns), sorted(want_cols)))
        if dict(x.attrs) != want_attrs:
            out.fail("attributes", "attributes %s instead of %s" % (dict(x.attrs), want_attrs))
        for c in x0.columns:
            if c in x.columns and not (np.array_equal(x[c].values, x0[c].values) and (x[c].dtype == x0[c].dtype or "whole" in word and x[c].dtype.kind in "if")):
                out.fail("content", "column %s changed" % c)
        if not np.array_equal(x.index, x0.index):
            out.fail("labels", "labels changed")
        if out.fails:
            return out
        res = quiet(later, kind, x, o)
        why = compare_later(ref, res, "whole" in word)
        if why:
            out.fail("later", "%s rebuilt as %s by %s: %s differs" % (kind, cls.__name__, " ".join(word), why))
        out.traces += 1
        out.states += 1
    out.outcome = (str(k), kind, tuple(word))
    out.note = "%d rows" % len(x0)
    if len(word) < (1 if QUICK and k[1] != 5 else DEPTH):
        out.succ = [(op, (k, kind, word + (op,))) for op in (SECOND if QUICK and word else OPS) if not (op in ("extracol", "textcol") and EXTRA_COL in x.columns)]
    return out


DEPTH = 2
QUICK = False
SECOND = ("rebuild", "whole", "plain", "csv", "halves", "columns", "extraattr")


def spaces(tier):
    global DEPTH, QUICK
    QUICK = tier != "thorough"
    th = tier == "thorough"
    DEPTH = 2
    mats = ["empty", ("gen", 1, 20.0, 9.0, 0), ("gen", 5, 14.0, 12.0, 2), ("grid", 4)] + ([("pile", (0, 8, 15)), ("gen", 12, 20.0, 12.0, 3)] if th else [])
    return [Space("words", [(k, kind, ()) for k in mats for kind in ("loose", "mat", "net", "stack", "full", "mesh")], visit,
                  "every word of at most %d out of %d rebuilding operations on the objects of every stage%s" % (
                      DEPTH, len(OPS), " (second operation out of %d, for one mat)" % len(SECOND) if QUICK else ""))]
