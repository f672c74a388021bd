"""I01: interpolation returns the recorded values and nothing in between but lines."""
import itertools

import numpy as np

from ..engine import Out, Space

ASSUMPTIONS = ["values within 1e-12 of the reference for each sample; integer results are judged at the sample times only (the very same floating-point times); 'previous' is not judged "
               "within 1e-9 of a sample time other than at the very same floating-point time"]
LET = (0.0, 1.0, -2.5, 7.0, 1e-9)
FORMS = ("scalar", "vector", "matrix", "int", "bool", "list", "mixed", "flags", "limits")
SIZES = (None, 2, 3, 5, 6, 11)


def data(word, form):
    v = np.array([LET[a] for a in word])
    n = len(v)
    if form == "scalar":
        return v
    if form == "list":
        return [np.array([x, 2 * x]) for x in v]
    if form == "mixed":  # an integer, then numbers that need not be
        return [3 * word[0] - 4] + [float(x) + 0.25 for x in v[1:]]
    if form == "flags":  # a truth value, then integers
        return [word[0] > 0] + [3 * a - 4 for a in word[1:]]
    if form == "limits":  # infinite at some of the recorded times only
        k = np.arange(n)
        return np.stack([np.where(k % max(n - 1, 1) == 0, np.inf, v), np.where(k == n // 2, -np.inf, v), np.where(np.array(word) == 1, np.inf, v)], axis=1)
    if form == "vector":
        return np.stack([v, v[::-1], np.full(n, np.inf), np.full(n, 3.0), np.full(n, -np.inf), v ** 2 - v], axis=1)
    if form == "matrix":
        return np.stack([np.stack([v, np.full(n, np.inf)], 1), np.stack([np.full(n, -np.inf), v[::-1] * 3], 1),
                         np.stack([v - 1, 1 - v], 1)], axis=1)
    if form == "int":
        return np.stack([np.array([3 * a - 4 for a in word]), np.array([10 ** a for a in word][::-1])], axis=1)
    if form == "bool":
        return np.stack([v > 0, v <= 0, np.ones(n, bool)], axis=1)


def ref(y, t, kind):
    """value at time t of the polyline (or staircase) through the samples"""
    y = np.asarray(y)
    n = len(y)
    if n == 1:
        return y[0]
    p = t * (n - 1)
    k = min(int(np.floor(p + 1e-12)), n - 1)
    if kind == "previous":
        return y[k]
    if abs(p - round(p)) < 1e-12:
        return y[int(round(p))]
    a, b, w = y[k], y[k + 1], p - k
    with np.errstate(all="ignore"):
        lin = (1 - w) * a + w * b
    return np.where(np.isinf(np.asarray(a, float)) & (a == b), a, lin)


def near(a, b, n=0):
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape:
        return False
    with np.errstate(all="ignore"):
        return bool(np.all((a == b) | (np.abs(a - b) <= 1e-12 * (1 + n) * np.maximum(1.0, np.abs(b)))))


def visit(st, sizes=SIZES, forms=FORMS):
    from fibermat import Interpolate
    out = Out()
    word = st
    out.outcome = word
    n = len(word)
    if n:
        for form, kind, size in itertools.product(forms, ("linear", "previous"), sizes):
            if form == "limits" and kind == "linear":  # (no line leads to infinity)
                continue
            y = data(word, form)
            Y = np.asarray(y)
            keep = Y.copy()
            kw = {} if kind == "linear" else dict(kind=kind)
            f = Interpolate(y, size=size, **kw) if size is not None else Interpolate(y, **kw)
            tag = "%s %s size=%s" % (form, kind, size)
            if f.dtype != Y.dtype:
                out.fail("dtype " + form, "%s: type %s instead of %s" % (tag, f.dtype, Y.dtype))
            exact = Y.dtype.kind in "bi"
            # all samples
            m = size if size is not None else n if n > 1 else 2
            grid = np.linspace(0, 1, m)
            allv = f()
            if not near(f.t, grid):
                out.fail("times " + form, "%s: sample times %s" % (tag, f.t))
            if allv.shape != (m,) + Y.shape[1:] or allv.dtype != Y.dtype:
                out.fail("shape " + form, "%s: all samples have shape %s %s" % (tag, allv.shape, allv.dtype))
                continue
            S = []  # the samples in use
            for k, t in enumerate(grid):
                p = t * (n - 1)
                node = abs(p - round(p)) < 1e-9
                same = n == 1 or not node or t in np.linspace(0, 1, n)
                S.append(allv[k])
                if exact and kind == "linear" and n > 1 and t not in np.linspace(0, 1, n) or kind == "previous" and not same:
                    continue
                w = ref(Y, t, kind)
                if not near(allv[k], w, n):
                    out.fail("samples %s %s" % (form, kind), "%s: sample %d is %s instead of %s" % (tag, k, allv[k], w))
            # calls: nodes one by one and together, and points in between
            for k, t in enumerate(grid):
                if not near(f(t), S[k]) or f(t).dtype != Y.dtype or f(t).shape != Y.shape[1:]:
                    out.fail("node %s %s" % (form, kind), "%s: f(%r) = %s instead of %s" % (tag, t, f(t), S[k]))
            if not near(f(list(grid)), np.array(S)) or not near(f(grid[:, None]), np.array(S)[:, None]):
                out.fail("array " + form, "%s: times given as an array are answered differently" % tag)
            for k in range(m - 1):
                for w in (0.25, 0.5, 0.9):
                    t = (k + w) / (m - 1)
                    want = ref(np.array(S), t, kind)
                    if exact and kind == "linear":
                        continue
                    if not near(f(t), want, n + m):
                        out.fail("between %s %s" % (form, kind), "%s: f(%r) = %s instead of %s" % (tag, t, f(t), want))
            # past the end, the last sample is held
            for t in (1.0 + 1e-9, 1.5, 40):
                if not near(f(t), Y[-1], n) or f(t).dtype != Y.dtype or f(t).shape != Y.shape[1:]:
                    out.fail("past " + form, "%s: f(%r) = %s instead of %s" % (tag, t, f(t), Y[-1]))
            if not np.array_equal(np.asarray(y), keep):
                out.fail("input", "%s: the data was modified" % tag)
            if not near(f(), allv):
                out.fail("repeat", "%s: the second answer differs" % tag)
            out.traces += 1
            out.states += m
            out.trans += m - 1
        out.note = "%s: %d interpolations" % (data(word, "scalar").tolist(), out.traces)
    if n < BOUND and sizes is SIZES:
        for a in range(len(LET) if n < 3 else 3):
            out.succ.append((("record", a), word + (a,)))
    return out


PATTERNS = (lambda k: k % 5, lambda k: (k * k + 3) % 5, lambda k: 1 if k else 3, lambda k: (k // 3) % 4, lambda k: 2)


def visit_long(st):
    n, p = st
    out = visit(tuple(PATTERNS[p](k) for k in range(n)), tuple({None: 0, n - 1: 0, n: 0, n + 1: 0, 2 * n - 1: 0, 11: 0}),
                FORMS if n < 70 else ("scalar", "vector", "int"))
    out.outcome = st
    out.note = "%d interpolations of %d samples" % (out.traces, n)
    return out


BOUND = 4
LONG = tuple(range(5, 21)) + (31, 32, 33, 40, 64, 65, 100, 101, 129)


def spaces(tier):
    global BOUND
    BOUND = 6 if tier == "thorough" else 4
    return [Space("histories", [()], visit, "all sequences of at most %d recorded samples over %d values, as scalars, vectors, matrices, "
                  "integers, booleans and lists, both kinds, %d sizes" % (BOUND, len(LET), len(SIZES))),
            Space("long", [(n, p) for n in LONG + ((300, 1000) if tier == "thorough" else ()) for p in range(len(PATTERNS))], visit_long,
                  "histories of up to %d samples of %d patterns" % (1000 if tier == "thorough" else LONG[-1], len(PATTERNS)))]
