"""S02: a stacked network is the given network at the new heights, thresholded."""
import itertools

import numpy as np

from ..engine import Out, Space
from ..geo import COLS, net_rows, pairs_of, ref_heights, values
from .. import stacks

ASSUMPTIONS = ["horizontal fibers", "vertical gaps within 1e-5 of the threshold are decided only when the heights are exact (multiples of 2^-20 equal to the reference)"]
TOL = 1e-6
THOROUGH = False


class World:
    """reference: network pairs, heights and rows after any sequence of stackings"""

    def __init__(self, mat, net):
        self.M = values(mat)
        ab, s, pa, pb = net_rows(net)
        self.rows = {tuple(map(int, p)): (v, a, b) for p, v, a, b in zip(ab, s, pa, pb)}

    def stack(self, threshold, z=None):
        """z: the heights reported by the code, which decide a gap equal to the threshold when they are exact"""
        h = self.M[:, 2]
        self.M[:, 5] = ref = np.array(ref_heights(h, sorted(self.rows)) if len(h) else [], float)
        if threshold is not None:
            gap = {k: abs(ref[k[1]] - ref[k[0]]) for k in self.rows}
            exact = np.zeros(len(ref), bool) if z is None else (ref == z) & (ref * 2.0 ** 20 % 1 == 0)
            if any(k[0] != k[1] and abs(g - threshold) < 1e-5 and not (exact[k[0]] and exact[k[1]])
                   for k, g in gap.items()):
                return False
            self.rows = {k: v for k, v in self.rows.items() if k[0] == k[1] or gap[k] <= threshold}
        return True


def check(out, world, mat, stack, attrs, periodic, key):
    from fibermat import Stack, Net
    M = values(mat)
    if not isinstance(stack, Stack):
        out.fail(key + "type", "result is a %s" % type(stack).__name__)
    d = np.abs(M - world.M)
    tol = np.full(11, 1e-12)
    tol[5] = TOL * max(1.0, world.M[:, 5].max()) if len(M) else TOL
    if M.shape != world.M.shape or not (d <= tol).all():
        k = np.argwhere(~(d <= tol))[0]
        out.fail(key + "mat", "fiber %d column %s is %r, expected %r" % (k[0], COLS[k[1]], M[k[0], k[1]], world.M[k[0], k[1]]))
        return
    got = pairs_of(stack)
    if sorted(got) != sorted(world.rows):
        a, b = set(got), set(world.rows)
        out.fail(key + "rows", "stacked rows: unexpected %s, missing %s, %d rows for %d pairs" % (
            sorted(a - b)[:3], sorted(b - a)[:3], len(got), len(a)))
        return
    if list(stack.index) != list(range(len(stack))):
        out.fail(key + "labels", "rows are not relabelled from zero")
    ab, s, pa, pb = net_rows(stack)
    for k, p in enumerate(got):
        v, a, b = world.rows[p]
        i, j = p
        same = np.allclose(s[k], v, atol=1e-7) or (i == j and np.allclose(s[k], v[::-1], atol=1e-7))
        if not same or not np.allclose(pa[k, :2], M[i, 3:5] + s[k, 0] * M[i, 6:8], atol=1e-7) \
                or not np.allclose(pb[k, :2], M[j, 3:5] + s[k, 1] * M[j, 6:8], atol=1e-7):
            out.fail(key + "nodes", "row %s has abscissas %s, given %s" % (p, s[k], v))
            break
        if abs(pa[k, 2] - M[i, 5]) > TOL or abs(pb[k, 2] - M[j, 5]) > TOL:
            out.fail(key + "height", "row %s at heights %s, fibers at %s" % (p, (pa[k, 2], pb[k, 2]), (M[i, 5], M[j, 5])))
            break
    at = stack.attrs
    if at.get("n") != attrs["n"] or at.get("size") != attrs["size"] or bool(at.get("periodic")) != periodic:
        out.fail(key + "attrs", "attributes %s" % at)
    if dict(mat.attrs) != attrs:
        out.fail(key + "matattrs", "mat attributes changed from %s to %s" % (attrs, mat.attrs))


def thresholds(mat, net):
    """values separating every pair of consecutive gaps of the stacked network (at most 7), and extremes"""
    w = World(mat, net)
    w.stack(None)
    gaps = sorted({abs(w.M[j, 5] - w.M[i, 5]) for i, j in w.rows if i != j})
    exact = [g for g in gaps if g * 2.0 ** 20 % 1 == 0]
    mids = [0.5 * (a + b) for a, b in zip(gaps, gaps[1:]) if b - a > 1e-4]
    if len(mids) > 5:
        mids = mids[:3] + mids[len(mids) // 2:][:1] + mids[-1:]
    return [None, 0.0] + mids + [1e3, np.inf] + sorted(set(exact[:1] + exact[len(exact) // 2:][:1] + exact[-1:]))


def build(src):
    """a pile set, or one whose network lacks the end rows of some fibers"""
    if src[0] != "ends":
        return stacks.build(src)
    from fibermat import Net
    mat, net, piles = stacks.build(src[1])
    keep = [a != b or (a % 3 in src[2]) for a, b in pairs_of(net)]
    if not src[2]:
        keep = [k and src[1][0] != "tall" for k in keep]  # no row at all
    return mat, Net(net[np.array(keep, bool)].reset_index(drop=True)), piles


def visit(st):
    from fibermat import Stack
    out = Out()
    if st[0] == "then":
        src, hist = st[1], st[2]
    else:
        src, hist = st, ()
    mat, net, piles = build(src)
    attrs = dict(mat.attrs)
    periodic = bool(net.attrs["periodic"])
    w = World(mat, net)
    cur = net
    T = thresholds(mat, net)
    ok = True
    for k in hist:
        before = cur.copy()
        nxt = Stack(mat, cur) if T[k] is None else Stack(mat, cur, threshold=T[k])
        ok = w.stack(T[k], mat.z.values.astype(float))
        if not ok:
            break
        check(out, w, mat, nxt, attrs, periodic, "after %s: " % (tuple(T[i] for i in hist),))
        if not before.equals(cur):
            out.fail("input", "the given network was modified")
        cur = nxt
        out.traces += 1
    out.states = piles
    out.outcome = hash((len(w.rows), tuple(np.round(w.M[:, 5], 3))))
    out.note = "thresholds %s: %d rows" % ([T[k] for k in hist], len(w.rows))
    depth = 2 if src[0] == "gen" and src[1][0] < 50 or src[0] == "subset" and (src[1] == 3 or THOROUGH) else 1
    if ok and len(hist) < depth and not out.fails:
        for k in range(len(T)):
            if len(hist) == 1 and (k in (1,) or k > 3):
                continue
            if src[0] == "ends" and not THOROUGH and k in (1, 3, 4, 5):
                continue
            out.succ.append(("stack", ("then", src, hist + (k,))))
    return out


def spaces(tier):
    init = [s for s in stacks.stack_states(tier) if not (s[0] == "gen" and s[1][3] != 0)]
    global THOROUGH
    THOROUGH = tier == "thorough"
    if not THOROUGH:
        init = [s for s in init if not (s[0] == "piles" and s[1] == "w3") and not (s[0] == "gen" and s[1][0] == 100 and s[2])
                and not (s[0] == "subset" and s[1] == 4 and s[3])]
    def lab(s):
        return "ends %s of " % (s[2],) + stacks.label(s[1]) if s[0] == "ends" else stacks.label(s)

    init += [("ends", s, e) for s in init if s[0] == "subset" and s[1] == 3 or s[0] == "tall" and s[1] < 30
             or s[0] == "gen" and s[1][0] < (50 if THOROUGH else 20) and (THOROUGH or s[2] == 0) for e in ((), (0,), (1, 2))]
    return [Space("histories", init, visit, "all histories of up to two stackings with separating thresholds, from "
                  "every pile set, connection subset and generated mat, and networks given without some end rows",
                  label=lambda s: lab(s[1]) + " " + repr(s[2]) if s[0] == "then" else lab(s))]
