"""Mutation machinery of the validation properties: a state is a base table and a word of edits."""
import copy
import itertools
import pickle

import numpy as np
import pandas as pd

from .engine import Out, Space


def snapshot(df):
    """everything observable of a table"""
    return (type(df).__name__, list(map(repr, df.columns)), list(map(repr, df.index.tolist())),
            [str(t) for t in df.dtypes], [repr(v) for v in df.values.tolist()] if len(df.columns) else [],
            repr(sorted(df.attrs.items(), key=lambda kv: str(kv[0]))))


def plain(df):
    out = pd.DataFrame({c: np.array(df[c].values) for c in df.columns}, index=pd.Index(np.array(df.index)))
    out.attrs = copy.deepcopy(dict(df.attrs))
    return out


class Skip(Exception):
    """the edit does not apply to this table"""


def need(df, cols, row=None):
    for c in cols:
        if c not in df.columns:
            raise Skip
    if row is not None and not -len(df) <= row < len(df):
        raise Skip


def put(df, c, row, v):
    need(df, [c], row)
    a = np.array(df[c].values)
    if isinstance(v, float) and a.dtype.kind != "f":
        a = a.astype(float)
    a[row] = v
    df[c] = a
    return df


def take(df, rows, keep_index=False):
    at = df.attrs
    df = df.iloc[list(rows)].copy()
    if not keep_index:
        df.index = np.arange(len(df))
    df.attrs = at
    return df


def apply_common(df, m):
    """edits that make sense for every kind of table; returns None if not one of them"""
    k = m[0]
    if k == "drop":
        need(df, [m[1]])
        at = df.attrs
        df = df.drop(columns=[m[1]])
        df.attrs = at
    elif k == "rename":
        need(df, [m[1]])
        at = df.attrs
        df = df.rename(columns={m[1]: m[1] + "_"})
        df.attrs = at
    elif k == "columns":  # another order of the columns
        at = df.attrs
        df = df[list(df.columns[::-1])].copy()
        df.attrs = at
    elif k == "extra":
        df["extra"] = np.arange(len(df)) * 1.5 - 1.0
    elif k == "extra_attr":
        df.attrs["comment"] = "some text"
    elif k == "delattr":
        if m[1] not in df.attrs:
            raise Skip
        del df.attrs[m[1]]
    elif k == "setattr":
        df.attrs[m[1]] = m[2]
    elif k == "addattr":
        if m[1] not in df.attrs:
            raise Skip
        df.attrs[m[1]] = df.attrs[m[1]] + m[2]
    elif k == "index":
        n = len(df)
        if n == 0:
            raise Skip
        a = np.arange(n)
        if m[1] == "reverse":
            if n < 2:
                raise Skip
            a = a[::-1].copy()
        elif m[1] == "shift":
            a = a + 1
        elif m[1] == "negative":
            a = a - 1
        elif m[1] == "dup":
            if n < 2:
                raise Skip
            a[-1] = a[-2]
        elif m[1] == "gap":
            a[-1] += 1
        elif m[1] == "swap":
            if n < 2:
                raise Skip
            a[[0, 1]] = a[[1, 0]]
        elif m[1] == "names":
            a = np.array(["f%d" % x for x in a], dtype=object)
        df.index = pd.Index(a)
    elif k == "rows":
        n = len(df)
        if n == 0:
            raise Skip
        if m[1] == "dup_last":
            df = take(df, list(range(n)) + [n - 1])
        elif m[1] == "drop_last":
            df = take(df, range(n - 1))
        elif m[1] == "drop_first":
            df = take(df, range(1, n))
        elif m[1] == "drop_first_keep":
            df = take(df, range(1, n), True)
        elif m[1] == "reverse":
            df = take(df, range(n - 1, -1, -1))
        elif m[1] == "empty":
            df = take(df, [])
    elif k == "cell":
        df = put(df, m[1], m[2], m[3])
    elif k == "scale":
        need(df, [m[1]], m[2])
        df = put(df, m[1], m[2], float(df[m[1]].values[m[2]]) * m[3])
    elif k == "add":
        need(df, [m[1]], m[2])
        df = put(df, m[1], m[2], df[m[1]].values[m[2]] + m[3])
    elif k == "exchange":  # two cells of a column
        need(df, [m[1]], m[2])
        need(df, [m[1]], m[3])
        a = np.array(df[m[1]].values)
        a[[m[2], m[3]]] = a[[m[3], m[2]]]
        df[m[1]] = a
    elif k == "float":
        need(df, [m[1]])
        df[m[1]] = df[m[1]].astype(float)
    elif k == "as":  # labels of another type (the values stay)
        need(df, m[1])
        for c in m[1]:
            df[c] = df[c].astype(m[2])
    elif k == "int":
        need(df, [m[1]])
        df[m[1]] = np.round(df[m[1]].values.astype(float)).astype(int)
    else:
        return None
    return df


COMMON = ([("columns",), ("extra",), ("extra_attr",), ("setattr", "skip_check", True), ("setattr", "skip_check", False),
           ("setattr", "skip_check", np.bool_(True)), ("setattr", "skip_check", 1), ("setattr", "skip_check", None)]
          + [("index", k) for k in ("reverse", "shift", "negative", "dup", "gap", "swap", "names")]
          + [("rows", k) for k in ("dup_last", "drop_last", "drop_first", "drop_first_keep", "reverse", "empty")])


def labels_ok(df):
    ix = df.index.tolist()
    return len(ix) == len(df) and all(type(a) is not str and a == k for k, a in enumerate(ix))


class Checker:
    """cls: class under test; base(name)->DataFrame; edits: list; violated(df)->set of exception classes"""

    def __init__(self, classes, base, edits, violated, apply=None):
        self.classes, self.base, self.edits, self.violated, self.apply = classes, base, edits, violated, apply

    def table(self, st):
        name, word = st
        df = plain(self.base(name))
        for k in word:
            m = self.edits[k]
            out = self.apply(df, m) if self.apply else None
            if out is None:
                out = apply_common(df, m)
            if out is None:
                raise ValueError("unknown edit %r" % (m,))
            df = out
        return df

    def visit(self, st, depth):
        out = Out()
        try:
            df = self.table(st)
        except Skip:
            return out
        skip = bool(df.attrs.get("skip_check", False))
        bad = set() if skip else self.violated(df)
        before = snapshot(df)
        seen = []
        for cls in self.classes:
            obj = None
            for how in ("construct", "check", "method"):
                if how == "method" and obj is None:
                    continue
                try:
                    if how == "construct":
                        obj = cls(df)
                        ok = snapshot(obj)[1:] == before[1:]
                        if not ok:
                            out.fail("%s changed" % cls.__name__, "the new object differs from its table")
                    elif how == "check":
                        if cls.check(df) is not True:
                            out.fail("%s answer" % cls.__name__, "check did not return True")
                    else:
                        if obj.check() is not True:
                            out.fail("%s answer" % cls.__name__, "check did not return True")
                    err = None
                except Exception as e:
                    err = e
                out.traces += 1
                seen.append(type(err).__name__)
                if err is None and bad:
                    out.fail("%s %s accepted" % (cls.__name__, how), "an ill-formed table is accepted (expected %s)" % (
                        sorted(c.__name__ for c in bad)))
                elif err is not None and not bad:
                    out.fail("%s %s refused" % (cls.__name__, how), "a well-formed table is refused: %s: %s" % (
                        type(err).__name__, str(err)[:200]))
                elif err is not None and not isinstance(err, tuple(bad)):
                    out.fail("%s %s class" % (cls.__name__, how), "%s: %s instead of %s" % (
                        type(err).__name__, str(err)[:200], sorted(c.__name__ for c in bad)))
                if snapshot(df) != before:
                    out.fail("%s modified" % cls.__name__, "%s changed the table" % how)
        out.outcome = (tuple(seen), tuple(sorted(c.__name__ for c in bad)))
        out.note = "%s: %s" % ([self.edits[k] for k in st[1]], seen)
        if len(st[1]) < depth:
            lo = st[1][-1] + 1 if st[1] and self.ordered else 0
            for k in range(lo, len(self.edits)):
                if k not in st[1]:
                    out.succ.append((("edit", k), (st[0], st[1] + (k,))))
        return out

    ordered = True

    def label(self, st):
        return "%s+%s" % (st[0], [self.edits[k] for k in st[1]])


def large_space(ck, far, sizes):
    """single edits of large tables: the usual ones and edits of rows anywhere"""
    usual = list(ck.edits)
    ck.edits = usual + sorted({m for n in sizes for m in far(n)}, key=repr)
    own = {n: set(far(n)) for n in sizes}

    def visit(st):
        out = ck.visit(st, 1)
        out.succ = [(e, s) for e, s in out.succ if s[1][0] < len(usual) or ck.edits[s[1][0]] in own[s[0]]]
        return out
    return Space("large", [(n, ()) for n in sizes], visit, "all single edits out of %d, of tables of %s fibers" % (
        len(ck.edits), " and ".join(map(str, sizes))), label=ck.label)
