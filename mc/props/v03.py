"""V03: a mesh is accepted exactly when it is well-formed."""
import numpy as np

from ..engine import Out, Space
from ..geo import gen
from .. import meshes, tables

ASSUMPTIONS = ["numeric columns without NaN; integer labels are int64 (numpy's default)"]
COLS = ["fiber", "s", "x", "y", "z", "beam", "constraint"]
_B = {}
# connections per base: (fibers, connection letters of meshes.CONN); "tie" has coincident nodes
BASES = {"none": (0, ()), "one": (1, ()), "two": (2, (0,)), "tie": (2, (0, 1)), "three": (3, (3, 6))}


def base(name):
    if name not in _B and name not in BASES:
        from fibermat import Mesh, Net
        _B[name] = tables.plain(Mesh(Net(gen(name, size=30.0, length=12.0, seed=0), periodic=False)))
    if name not in _B:
        from fibermat import Mesh, Net, Mat
        n, w = BASES[name]
        _B[name] = tables.plain(Mesh(meshes.build_net(("abs", n, w, 0))) if n else Mesh(Net(Mat(0))))
    return _B[name]


EDITS = ([("drop", c) for c in COLS] + [("rename", c) for c in ("fiber", "s", "constraint")]
         + [("delattr", a) for a in ("n", "size", "periodic")] + [("addattr", "n", 1), ("addattr", "n", -1)]
         + [("cell", "fiber", r, v) for r in (0, 1, 3, -1) for v in (-1, 0, 1, 2, 3)]
         + [("cell", "beam", r, v) for r in (0, 2, -1) for v in (-1, 0, 1, 2, 3, 100)]
         + [("cell", "constraint", r, v) for r in (0, 1, 2, -1, -2) for v in (-1, 0, 1, 2, 3, 4, 100)]
         + [("exchange", c, a, b) for c in ("constraint", "beam", "s") for a, b in ((0, 1), (1, 2), (0, -1), (1, -2), (3, 4))]
         + [("cell", "s", r, v) for r in (0, 1, -1) for v in (-1e9, 0.0, 1e9)]
         + [("equal", "s", a, b) for a, b in ((0, 1), (1, 2), (3, 4), (3, -1))]
         + [("cell", c, r, 1e9) for c in "xyz" for r in (0, -1)]
         + [("float", c) for c in ("fiber", "beam", "constraint")] + [("int", "x"), ("as", ("fiber",), "bool"), ("as", ("beam",), "object"), ("as", ("constraint",), "object"), ("link", 0, -1), ("link", 1, -2), ("link", 1, 1),
                                                                      ("unlink",), ("rebeam",), ("single",)]
         + [("ends", a, b, i, j) for a, b in ((0, 0), (-1, -1), (0, -1), (-1, 0)) for i, j in ((0, -1), (0, 1), (0, 0)) if (a, i) != (b, j)]
         + tables.COMMON)


def apply(df, m):
    if m[0] == "link":  # reciprocal pairing of two nodes, their former partners become free
        tables.need(df, ["constraint"], m[1])
        tables.need(df, ["constraint"], m[2])
        c = df.constraint.values.copy()
        n = len(c)
        a, b = m[1] % n, m[2] % n
        for k in (a, b):
            if 0 <= c[k] < n:
                c[int(c[k])] = int(c[k])
        c[a], c[b] = b, a
        df["constraint"] = c
        return df
    if m[0] == "ends":  # pairing of end nodes (first or last) of two fibers, or of one
        tables.need(df, ["fiber", "constraint"])
        f, c = df.fiber.values, df.constraint.values.copy()
        ids = sorted(set(f.tolist()))
        if not ids or m[4] >= len(ids):
            raise tables.Skip
        a, b = np.flatnonzero(f == ids[m[3]])[m[1]], np.flatnonzero(f == ids[m[4]])[m[2]]
        c[a], c[b] = b, a
        df["constraint"] = c
        return df
    if m[0] == "unlink":  # every node free
        tables.need(df, ["constraint"])
        df["constraint"] = np.arange(len(df))
        return df
    if m[0] == "equal":
        tables.need(df, [m[1]], m[2])
        tables.need(df, [m[1]], m[3])
        v = df[m[1]].values.copy()
        v[m[2]] = v[m[3]]
        df[m[1]] = v
        return df
    if m[0] == "rebeam":  # beams recomputed from the fiber column
        tables.need(df, ["fiber", "beam"])
        f = df.fiber.values
        b = np.arange(len(df))
        for k in set(f.tolist()):
            at = np.flatnonzero(f == k)
            b[at] = np.roll(at, -1)
        df["beam"] = b
        return df
    if m[0] == "single":  # a fiber with one node
        tables.need(df, COLS)
        if not len(df) or "n" not in df.attrs:
            raise tables.Skip
        n = len(df)
        df.loc[n] = [df.attrs["n"], 0.0, 0.0, 0.0, 0.0, n, n] + [0.0] * (len(df.columns) - 7) if list(df.columns[:7]) == COLS else df.iloc[-1]
        for c in ("fiber", "beam", "constraint"):
            df[c] = df[c].astype(int)
        df.attrs["n"] += 1
        return df
    return None


def far(n):
    """edits of rows anywhere in a large table"""
    m = len(base(n))
    rows = sorted({2, 15, 16, 31, 32, 63, 64, 65, 99, 100, 127, 128, 129, 255, 256, m // 2, m - 2, m - 1} & set(range(m)))
    return ([("cell", c, r, v) for r in rows for c, v in (("fiber", -1), ("fiber", 0), ("fiber", n), ("beam", -1), ("beam", m), ("beam", m - 1), ("constraint", m),
                                                          ("constraint", -1), ("constraint", 0), ("constraint", r), ("s", -1e9), ("s", 1e9), ("x", 1e9))]
            + [("add", c, r, 1) for r in rows for c in ("fiber", "beam", "constraint")]
            + [("exchange", c, r, r - 1) for r in rows for c in ("constraint", "beam", "s")]
            + [("link", a, b) for a, b in zip(rows, rows[1:])] + [("equal", "s", a, a - 1) for a in rows]
            + [("ends", p, q, i, j) for p, q in ((0, 0), (-1, -1), (0, -1)) for i, j in ((0, n - 1), (n // 2, n - 1), (n - 1, n - 1), (n // 2, n // 2))
               if (p, i) != (q, j)])


LARGE = dict(quick=(20, 60), thorough=(20, 60, 150))


def violated(df):
    bad = set()
    if not all(c in df.columns for c in COLS):
        bad.add(KeyError)
    for a in ("n", "size", "periodic"):
        if a not in df.attrs:
            bad.add(AttributeError)
    if not tables.labels_ok(df):
        bad.add(IndexError)
    m = len(df)
    col = {c: df[c].tolist() for c in COLS if c in df.columns}
    for c in ("fiber", "beam", "constraint"):
        if c in col and df[c].dtype.kind != "i":
            bad.add(TypeError)
    if "fiber" in col:
        f = col["fiber"]
        if any(v < 0 or "n" in df.attrs and v >= df.attrs["n"] for v in f):
            bad.add(ValueError)
        if any(a > b for a, b in zip(f, f[1:])):
            bad.add(ValueError)
        if "s" in col and any(f[k] == f[k + 1] and col["s"][k] > col["s"][k + 1] for k in range(m - 1)):
            bad.add(ValueError)
        where = {}
        for k, v in enumerate(f):
            where.setdefault(v, []).append(k)
        if "beam" in col:
            for at in where.values():
                if any(col["beam"][p] != q for p, q in zip(at, at[1:] + at[:1])):
                    bad.add(ValueError)
        if "constraint" in col:
            for at in where.values():
                if col["constraint"][at[0]] != at[0] or col["constraint"][at[-1]] != at[-1]:
                    bad.add(ValueError)
    for c in ("beam", "constraint"):
        if c in col and any(not 0 <= v < m for v in col[c]):
            bad.add(ValueError)
    if "constraint" in col:
        c = col["constraint"]
        if any(0 <= v < m and c[int(v)] != k for k, v in enumerate(c)):
            bad.add(ValueError)
    return bad


def spaces(tier):
    from fibermat import Mesh
    ck = tables.Checker([Mesh], base, EDITS, violated, apply)
    ck.ordered = tier != "thorough"

    def visit(st):
        return ck.visit(st, 2)

    def none(st):
        out = Out()
        for v in (Mesh.check(None), Mesh().check(), Mesh.check(Mesh())):
            if v is not True:
                out.fail("empty", "the empty mesh is not valid")
        out.traces = 3
        return out
    names = list(BASES) if tier == "thorough" else ["none", "one", "tie", "three"]
    sp = [Space("edits", [(n, ()) for n in names], visit,
                "all words of at most 2 edits out of %d, on meshes of 0 to 3 fibers" % len(EDITS), label=ck.label),
          tables.large_space(tables.Checker([Mesh], base, EDITS, violated, apply), far, LARGE[tier]),
          Space("empty", ["empty"], none, "the empty mesh")]
    if tier == "thorough":
        sub = [m for k, m in enumerate(EDITS) if m[0] not in ("rename", "cell", "exchange") or k % 5 == 0]
        c3 = tables.Checker([Mesh], base, sub, violated, apply)
        sp.append(Space("edits3", [(n, ()) for n in ("tie", "three")], lambda st: c3.visit(st, 3),
                        "all sets of at most 3 edits out of %d" % len(sub), label=c3.label))
    return sp
