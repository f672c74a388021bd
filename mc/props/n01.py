"""N01: the network connects exactly the fiber pairs that cross."""
import collections
import itertools

import numpy as np

from ..engine import Out, Space
from ..geo import crossing, direction, fiber, mat_of, pairs_of, ref_network, values, EX, EY
from .. import nets

ASSUMPTIONS = ["fibers are not longer than the periodic box", "pairs within 1e-9 of a strict limit are undecided "
               "unless all coordinates are dyadic and directions axis-aligned (then decided exactly)"]


def compare(out, mat, net, size, periodic, exact):
    M = values(mat)
    n = len(M)
    got = pairs_of(net)
    cnt = collections.Counter(got)
    unit = 1.0 if 1 <= size <= 1000 else 2.0 ** round(np.log2(size / 10))  # (exact scaling)
    M[:, [0, 1, 2, 3, 4, 5]] /= unit
    must, may = ref_network(M, size / unit, periodic, exact)
    dup = [p for p, c in cnt.items() if c > 1]
    if dup:
        out.fail("duplicate", "connected more than once: %s" % dup[:3])
    if any(a > b for a, b in got):
        out.fail("order", "rows with A > B: %s" % [p for p in got if p[0] > p[1]][:3])
    selfs = sorted(a for a, b in got if a == b)
    if selfs != list(range(n)):
        out.fail("ends", "end rows of fibers %s instead of each of %d once" % (selfs[:10], n))
    inter = {tuple(sorted(p)) for p in got if p[0] != p[1]}
    missing = sorted(set(must) - inter)
    extra = sorted(inter - set(may))
    if missing:
        out.fail("missing", "%d crossing pairs not connected, e.g. %s %s %s" % (
            len(missing), missing[0], M[missing[0][0]].tolist(), M[missing[0][1]].tolist()))
    if extra:
        out.fail("extra", "%d connections between fibers that do not cross, e.g. %s %s %s" % (
            len(extra), extra[0], M[extra[0][0]].tolist(), M[extra[0][1]].tolist()))
    if list(net.index) != list(range(len(net))):
        out.fail("labels", "rows are not labelled 0..m-1")
    at = net.attrs
    if at.get("n") != n or at.get("size") != size or bool(at.get("periodic")) != periodic:
        out.fail("attrs", "recorded attributes %s" % at)
    out.traces += 1
    out.states += n * (n - 1) // 2
    out.outcome = (n, hash(tuple(sorted(inter))), len(may) - len(must))
    out.note = "n=%d connected=%d undecided=%d" % (n, len(inter), len(may) - len(must))


def visit_mat(st):
    from fibermat import Net
    out = Out()
    mat, size, periodic, exact = nets.build(st)
    compare(out, mat, Net(mat, periodic=periodic), size, periodic, exact)
    return out


def visit_word(tier):
    def visit(st):
        out = visit_mat(st)
        out.succ = nets.word_succ(st, tier)
        return out
    return visit


# -- candidate pairs: every subset of the pairs of a small mat (non-periodic)
TRI = [fiber(0, 0, EX, 6), fiber(1, 1, EY, 6), fiber(-1, 0.5, (0.6, 0.8, 0.0), 6), fiber(0, 3.9, EX, 1)]
ODD = [fiber(0.3, 0.1, (0.6, 0.8, 0.0), 4), fiber(0.1, 0.2, (-0.28, 0.96, 0.0), 4.1), fiber(0.7, -0.4, direction(0.3), 5.3), fiber(0, 3.9, EX, 1)]


def pair_states(tier):
    n = 4 if tier == "thorough" else 3
    allp = [(i, j) for i in range(n) for j in range(i, n)]
    return [("pairs", n, tuple(p for k, p in enumerate(allp) if m >> k & 1), flip)
            for m in range(1, 1 << len(allp)) for flip in (0, 1, 2, 3, 4, 5, 6)]


def visit_pairs(st):
    from fibermat import Net
    _, n, pairs, flip = st
    out = Out()
    mat = mat_of((ODD if flip > 2 else TRI)[:n], 8.0)
    full = Net(mat, periodic=False)
    arr = np.array(pairs)
    if flip == 1:
        arr = arr[:, ::-1].copy()
    elif flip == 2:
        arr = np.vstack([arr[::-1], arr[:1]])
    elif flip == 3:
        arr = np.vstack([arr, arr[:, ::-1]])
    elif flip == 4:
        arr = np.vstack([arr[::-1, ::-1], arr])
    elif flip == 5:
        arr = arr[:, ::-1].copy()
    before = arr.copy()
    net = Net(mat, periodic=False, pairs=arr)
    cols = ["A", "B", "sA", "sB", "xA", "yA", "zA", "xB", "yB", "zB"]
    a = {tuple(r[:2].astype(int)): r for r in full[cols].values if tuple(r[:2].astype(int)) in set(pairs)}
    b = {tuple(r[:2].astype(int)): r for r in net[cols].values}
    if set(a) != set(b) or len(net) != len(b):
        out.fail("restriction", "candidates %s give rows %s instead of %s" % (pairs, sorted(b), sorted(a)))
    elif any(not np.allclose(a[k], b[k], atol=1e-9) for k in a if k[0] != k[1] or flip in (0, 2, 6)):
        out.fail("restriction", "restricting the candidates changes the rows of %s" % (pairs,))
    if not np.array_equal(arr, before):
        out.fail("argument", "the candidate array was modified")
    out.traces += 1
    out.outcome = tuple(sorted(b))
    return out


def spaces(tier):
    return [
        Space("alphabet", nets.net_states(tier), visit_mat,
              "all pairs over the fiber alphabets, label orders and periodicities listed; generated mats"),
        Space("words", nets.word_init(), visit_word(tier), "all fiber sequences up to the word bound"),
        Space("candidates", pair_states(tier), visit_pairs, "all subsets of candidate pairs, 7 presentations"),
    ]
