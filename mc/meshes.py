"""State spaces of networks given row by row, and meshes built from them."""
import itertools
import pickle

import numpy as np
import pandas as pd

from . import stacks
from .geo import EX, EY, direction, fiber, mat_of, pairs_of

COLS = ["A", "B", "sA", "sB", "xA", "yA", "zA", "xB", "yB", "zB"]
_DEPTH = {"quick": 3, "thorough": 4}
TIER = "quick"

# abstract fibers: label -> (length, thickness, width, centre, direction, G, E)
FIB = [
    fiber(0.0, 0.0, EX, l=4.0, z=0.5, b=1.0, h=1.0, G=1.0, E=100.0),
    fiber(1.0, 0.5, EY, l=6.0, z=1.75, b=0.5, h=1.5, G=2.0, E=40.0),
    fiber(-1.0, 1.0, (0.6, 0.8, 0.0), l=5.0, z=2.75, b=2.0, h=0.5, G=0.5, E=300.0),
]
# connection letters: (A, B, sA, sB); abscissas coincide on purpose (0.5 three times on fiber 0)
CONN = [
    (0, 1, 0.5, -1.0), (0, 1, 0.5, 2.0), (0, 1, -1.5, -1.0), (0, 2, 0.5, 0.0), (0, 2, 1.25, 2.0),
    (1, 2, -1.0, 0.0), (1, 2, 2.5, -2.25), (1, 2, 0.0, 2.0),
]


def depth(tier):
    return _DEPTH[tier]


def abstract_init():
    return [("abs", n, (), o) for n in (1, 2, 3) for o in (0, 1, 2)]


def net_succ(st):
    """AddConnection transitions"""
    if st[0] != "abs":
        return []
    _, n, w, o = st
    if len(w) >= _DEPTH[TIER]:
        return []
    last = -1 if o != 2 else -1
    return [(("connect", c), ("abs", n, w + (c,), o)) for c in range(len(CONN))
            if c not in w and CONN[c][1] < n]


def abstract_rows(n, w, o):
    rows = [(k, k, 0.5 * FIB[k][0], -0.5 * FIB[k][0]) for k in range(n)]
    con = [CONN[c] for c in w]
    if o == 0:
        rows = rows + con
    elif o == 1:
        rows = con + rows[::-1]
    else:  # interleaved
        rows = [r for t in itertools.zip_longest(con, rows) for r in t if r is not None]
    return rows


def abstract_mat(n):
    return mat_of(FIB[:n], 20.0)


def build_net(st):
    """-> a valid Net (or Stack) object"""
    from fibermat import Net, Stack
    if st[0] == "abs":
        _, n, w, o = st
        rows = []
        for a, b, sa, sb in abstract_rows(n, w, o):
            A, B = np.array(FIB[a]), np.array(FIB[b])
            rows.append([a, b, sa, sb, *(A[3:6] + sa * A[6:9]), *(B[3:6] + sb * B[6:9])])
        df = pd.DataFrame(np.array(rows).reshape(-1, 10), columns=COLS)
        df[["A", "B"]] = df[["A", "B"]].astype(int)
        df.attrs.update(n=n, size=20.0, periodic=False)
        return Net(df)
    _, src, t = st
    mat, net, _ = stacks.build(src)
    if src[0] == "gen" and t is None:
        return net
    return Stack(mat, net, threshold=t)


_CACHE = {}


def build(st):
    """-> (mat, mesh); built once per process, fresh copies every time"""
    if st not in _CACHE:
        if len(_CACHE) > 2000:
            _CACHE.clear()
        _CACHE[st] = pickle.dumps(_build(st))
    return pickle.loads(_CACHE[st])


def _build(st):
    from fibermat import Mesh, Stack
    if st[0] == "abs":
        return abstract_mat(st[1]), Mesh(build_net(st))
    _, src, t = st
    mat, net, _ = stacks.build(src)
    return mat, Mesh(Stack(mat, net, threshold=t))
