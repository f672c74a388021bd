"""V02: a network (or stacked network) is accepted exactly when it is well-formed."""
import itertools

import numpy as np

from ..engine import Out, Space
from ..geo import EX, EY, fiber, gen, mat_of
from .. import tables

ASSUMPTIONS = ["numeric columns without NaN; integer labels are int64 (numpy's default)"]
COLS = ["A", "B", "sA", "sB", "xA", "yA", "zA", "xB", "yB", "zB"]
_B = {}


def base(name):
    if name not in _B and name > 4:
        from fibermat import Net
        _B[name] = tables.plain(Net(gen(name, size=30.0, length=12.0, seed=0), periodic=False))
    if name not in _B:
        from fibermat import Net
        F = [fiber(0, 0, EX, 6), fiber(1, 0, EY, 6, z=1), fiber(-1, 0, (0.8, 0.6, 0.0), 6, z=2), fiber(3, 3, EX, 1, z=3)]
        _B[name] = tables.plain(Net(mat_of(F[:name], 8.0), periodic=False))
    return _B[name]


# (edits are applied in this order: the copied cells come first, so that one of them can differ again afterwards)
EDITS = ([("copy", a, b) for a, b in ((0, 1), (1, 0), (2, 0), (-1, 1), (-1, 2), (1, -1))] + [("drop", c) for c in COLS] + [("rename", c) for c in ("A", "sB", "zB")]
         + [("delattr", a) for a in ("n", "size", "periodic")] + [("addattr", "n", 1), ("addattr", "n", -1), ("addattr", "n", 5)]
         + [("setattr", "size", 1.0), ("setattr", "periodic", True)]
         + [("cell", c, r, v) for c in "AB" for r in (0, 1, -1) for v in (-1, 0, 1, 4)]
         + [("add", c, r, v) for c in "AB" for r in (1, -1) for v in (1, -1)]
         + [("cell", c, r, v) for c in ("sA", "sB", "xA", "zB") for r in (0, -1) for v in (-1e9, 0.0)]
         + [("add", c, r, 2.0 ** -30) for c in ("sA", "sB", "zA") for r in (0, -1)]
         + [("float", "A"), ("float", "B"), ("int", "sA"), ("as", "AB", "bool"), ("as", "B", "bool"), ("as", "AB", "object"), ("swapAB", 0), ("swapAB", 1), ("swapAB", -1), ("sort",)]
         + tables.COMMON)


def apply(df, m):
    if m[0] == "swapAB":
        tables.need(df, COLS[:4], m[1])
        a, b = df.A.values.copy(), df.B.values.copy()
        a[m[1]], b[m[1]] = b[m[1]], a[m[1]]
        df["A"], df["B"] = a, b
        return df
    if m[0] == "copy":  # the four key cells of a row onto another row
        tables.need(df, COLS[:4], m[1])
        tables.need(df, COLS[:4], m[2])
        for c in COLS[:4]:
            v = df[c].values.copy()
            v[m[2]] = v[m[1]]
            df[c] = v
        return df
    if m[0] == "sort":
        tables.need(df, ["sA"])
        order = np.argsort(df.sA.values, kind="stable")
        return tables.take(df, order)
    return None


def far(n):
    """edits of rows anywhere in a large table"""
    m = len(base(n))
    rows = sorted({2, 15, 16, 31, 32, 63, 64, 65, 99, 100, 127, 128, 129, 255, 256, m // 2, m - 2, m - 1} & set(range(m)))
    return ([("cell", c, r, v) for r in rows for c, v in (("A", -1), ("B", n), ("A", 0), ("B", n - 1), ("sA", -1e9), ("zB", 1e9))]
            + [("add", c, r, 1) for r in rows for c in "AB"]
            + [("swapAB", r) for r in rows] + [("copy", a, b) for a, b in itertools.permutations([0] + rows[1::3] + [m - 1], 2)])


LARGE = dict(quick=(20, 60), thorough=(20, 60, 150))


def violated(df):
    bad = set()
    if not all(c in df.columns for c in COLS):
        bad.add(KeyError)
    for a in ("n", "size", "periodic"):
        if a not in df.attrs:
            bad.add(AttributeError)
    if not tables.labels_ok(df):
        bad.add(IndexError)
    keys = []
    for c in "AB":
        if c in df.columns and df[c].dtype.kind != "i":
            bad.add(TypeError)
    for r in df.to_dict("records"):
        for c in "AB":
            if c in r and (r[c] < 0 or "n" in df.attrs and r[c] >= df.attrs["n"]):
                bad.add(ValueError)
        if "A" in r and "B" in r and r["A"] > r["B"]:
            bad.add(ValueError)
        if all(c in r for c in COLS[:4]):
            keys.append(tuple(r[c] for c in COLS[:4]))
    if len(set(keys)) < len(keys):
        bad.add(ValueError)
    return bad


def spaces(tier):
    from fibermat import Net, Stack
    ck = tables.Checker([Net, Stack], base, EDITS, violated, apply)
    ck.ordered = tier != "thorough"

    def visit(st):
        return ck.visit(st, 2)

    def none(st):
        out = Out()
        for v in (Net.check(None), Stack.check(None), Net().check(), Stack().check(), Net.check(Net()), Stack.check(Stack())):
            if v is not True:
                out.fail("empty", "the empty network is not valid")
        out.traces = 6
        return out
    sp = [Space("edits", [(n, ()) for n in ((0, 1, 2, 4) if tier == "thorough" else (0, 1, 4))], visit,
                "all words of at most 2 edits out of %d, on networks of 0 to 4 fibers" % len(EDITS), label=ck.label),
          tables.large_space(tables.Checker([Net, Stack], base, EDITS, violated, apply), far, LARGE[tier]),
          Space("empty", ["empty"], none, "the empty network and stack")]
    if tier == "thorough":
        sub = [m for k, m in enumerate(EDITS) if m[0] not in ("rename", "cell", "add") or k % 4 == 0]
        c3 = tables.Checker([Net, Stack], base, sub, violated, apply)
        sp.append(Space("edits3", [(n, ()) for n in (1, 4)], lambda st: c3.visit(st, 3),
                        "all sets of at most 3 edits out of %d" % len(sub), label=c3.label))
    return sp
