"""V01: a mat is accepted exactly when it is well-formed."""
import math

import numpy as np

from ..engine import Out, Space
from ..geo import COLS, EX, EY, direction, fiber, frame
from .. import tables

ASSUMPTIONS = ["values far from the tolerance used for unit vectors (deviation < 1e-9 or > 1e-2)",
               "heights without NaN; labels and counts are integers"]

SIZE = 8.0


def base(name):
    F = [fiber(-4, 4, EX, l=4.0), fiber(1, -2, direction(0.7, 0.4), l=2.0, z=100.0, b=0.5, h=2.0, E=math.inf),
         fiber(4, 0, (0.0, -1.0, 0.0), l=30.0, z=-7.0, G=math.inf)]
    if name > 3:
        F = [fiber(-4 + 8 * ((7 * k) % name) / (name - 1), 4 - 8 * ((11 * k) % name) / (name - 1), direction(0.3 * k, 0.1 * (k % 5)),
                   l=1.0 + k % 7, z=0.5 * k - 3, b=0.5 + k % 3, h=1.0 + k % 2) for k in range(name)]
    return frame(F[:name], SIZE)


def far(n):
    """edits of cells anywhere in a large table"""
    rows = sorted({2, 15, 16, 31, 32, 33, 63, 64, 65, 99, 100, 127, 128, 129, n // 2, n - 2, n - 1} & set(range(n)))
    return [("cell", c, r, v) for r in rows for c, v in (("l", 0.0), ("b", -1.0), ("h", math.nan), ("G", 0.0), ("E", -2.0), ("x", 4.5), ("y", -4.5),
                                                          ("x", 4.0), ("u", 2.0), ("w", -1.0), ("w", math.nan), ("E", math.inf))]


DEFAULT = ([("drop", c) for c in COLS] + [("rename", c) for c in "lxwE"]
           + [("delattr", a) for a in ("n", "size")] + [("addattr", "n", 1), ("addattr", "n", -1)]
           + [("setattr", "size", v) for v in (8.0 - 2 ** -40, 8.0 + 2 ** -40, 4.0, 100.0)]
           + [("cell", c, r, v) for c in "lbh" for r in (0, -1) for v in (0.0, -1.0, 1e-300)]
           + [("cell", c, r, v) for c in "GE" for r in (0, -1) for v in (0.0, -2.0, 1e-300, math.inf)]
           + [("cell", c, r, v) for c in "xy" for r in (0, 1) for v in (-4.0, 4.0, -4.0 - 2 ** -40, 4.0 + 2 ** -40, -5.0, 5.0)]
           + [("cell", c, r, math.nan) for c in "lbhGExyuvw" for r in (0, -1)]
           + [("cell", "z", -1, v) for v in (-1e6, 1e6)]
           + [("cell", c, r, v) for c in "uvw" for r in (0, 1) for v in (0.0, 1.0, -1.0, 2.0)]
           + [("add", c, r, v) for c in "uw" for r in (0, -1) for v in (1e-10, 0.3)]
           + [("scale", c, 1, v) for c in "uvw" for v in (-1.0, 1.5)]
           + [("lengths", 0, -1, p, q) for p, q in ((0.8, math.sqrt(1.36)), (0.8, 1.2), (0.8, 1.25), (-1.0, -1.0), (1.3, 0.7), (1e-3, 1.0))]
         + [("int", c) for c in "lx"] + [("fitn",)] + tables.COMMON)


def apply(df, m):
    if m[0] == "fitn":
        df.attrs["n"] = len(df)
        return df
    if m[0] == "lengths":  # two directions of other lengths, that make up for each other
        tables.need(df, "uvw", m[1])
        if len(df) < 2:
            raise tables.Skip
        for c in "uvw":
            v = np.array(df[c].values, float)
            v[m[1]] *= m[3]
            v[m[2]] *= m[4]
            df[c] = v
        return df
    return None


LARGE = dict(quick=(40, 131), thorough=(40, 131, 520, 1030))


def violated(df):
    bad = set()
    if not all(c in df.columns for c in COLS):
        bad.add(KeyError)
    for a in ("n", "size"):
        if a not in df.attrs:
            bad.add(AttributeError)
    if "n" in df.attrs and df.attrs["n"] != len(df):
        bad.add(ValueError)
    if not tables.labels_ok(df):
        bad.add(IndexError)
    rows = df.to_dict("records")
    for r in rows:
        if any(c in r and not r[c] > 0 for c in "lbhGE"):
            bad.add(ValueError)
        if "size" in df.attrs and any(c in r and not -0.5 * df.attrs["size"] <= r[c] <= 0.5 * df.attrs["size"] for c in "xy"):
            bad.add(ValueError)
        if all(c in r for c in "uvw") and not abs(math.sqrt(r["u"] ** 2 + r["v"] ** 2 + r["w"] ** 2) - 1) <= 1e-4:
            bad.add(ValueError)
    return bad


def spaces(tier):
    from fibermat import Mat
    ck = tables.Checker([Mat], base, DEFAULT, violated, apply)
    ck.ordered = tier != "thorough"

    def visit(st):
        return ck.visit(st, 2)

    def none(st):
        out = Out()
        for v in (Mat.check(None), Mat().check(), Mat.check(Mat())):
            if v is not True:
                out.fail("empty", "the empty mat is not valid")
        out.traces = 3
        return out
    sp = [Space("edits", [(n, ()) for n in (0, 1, 3)], visit,
                "all words of at most 2 edits out of %d, on mats of 0, 1 and 3 fibers" % len(DEFAULT), label=ck.label),
          tables.large_space(tables.Checker([Mat], base, DEFAULT, violated, apply), far, LARGE[tier]),
          Space("empty", ["empty"], none, "the empty mat")]
    if tier == "thorough":
        sub = [m for k, m in enumerate(DEFAULT) if m[0] not in ("rename", "cell", "add", "scale") or k % 5 == 0]
        c3 = tables.Checker([Mat], base, sub, violated, apply)
        sp.append(Space("edits3", [(n, ()) for n in (1, 3)], lambda st: c3.visit(st, 3),
                        "all sets of at most 3 edits out of %d" % len(sub), label=c3.label))
    return sp
