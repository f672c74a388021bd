"""State spaces of (mat, network) shared by the stacking, meshing and mechanical properties."""
import itertools
import math
import pickle

import numpy as np

from .geo import EX, EY, NX, NY, direction, fiber, gen, hetero, mat_of, pairs_of, values

# letters of a cluster (a small pile of fibers in a cell of side 6): direction/position class
CELL = [
    lambda x, y: dict(x=x, y=y - 1, d=EX, l=4.0),
    lambda x, y: dict(x=x, y=y + 1, d=NX, l=4.0),
    lambda x, y: dict(x=x - 1, y=y, d=EY, l=4.0),
    lambda x, y: dict(x=x + 1, y=y, d=NY, l=4.0),
    lambda x, y: dict(x=x, y=y, d=(0.6, 0.8, 0.0), l=5.0),
    lambda x, y: dict(x=x + 2, y=y + 2, d=(0.8, -0.6, 0.0), l=1.0),   # short: crosses little
]
THICK = (1.0, 0.5, 2.0)
DIMS = ((1.0, 1.0), (0.5, 0.75), (2.0, 1.0))  # (width, length factor)


# fibers that cross exactly at their centres, at the centre of one of them, or all at one point
CENTRED = [
    lambda x, y: dict(x=x, y=y, d=EX, l=4.0),
    lambda x, y: dict(x=x, y=y, d=EY, l=4.0),
    lambda x, y: dict(x=x, y=y + 1, d=EX, l=4.0),
    lambda x, y: dict(x=x - 1, y=y, d=NY, l=4.0),
]


EXTREME = (14.0, 2.0 ** -4, 2.0 ** -9)


def letter(a, x, y, z=0.0):
    """a in [0, 18): class a % 6, thickness a // 6; a in [18, 30): centred class (a - 18) % 4, thickness (a - 18) // 4;
    a in [30, 39): class 0, 2 or 4 of an extreme thickness"""
    if a >= 30:
        d = CELL[2 * (a % 3)](x, y)
        return fiber(d["x"], d["y"], d["d"], l=d["l"], z=z, b=1.0, h=EXTREME[(a - 30) // 3], G=1.0, E=100.0)
    d = CELL[a % 6](x, y) if a < 18 else CENTRED[(a - 18) % 4](x, y)
    h = THICK[a // 6 if a < 18 else (a - 18) // 4]
    if a >= 18:
        a = 5 * a % 18
    b, f = DIMS[(a // 6 + a) % 3]
    return fiber(d["x"], d["y"], d["d"], l=d["l"], z=z, b=b, h=h, G=1.0 + 0.25 * (a % 3), E=100.0 * (1 + a % 4))


def cluster_mat(words, mode):
    """one mat holding each word as a separate pile; `mode` decides how labels interleave"""
    m = len(words)
    side = int(math.ceil(math.sqrt(m)))
    size = 6.0 * side + 6.0
    F = []
    for k, w in enumerate(words):
        x = -size / 2 + 6.0 * (k % side) + 5.0
        y = -size / 2 + 6.0 * (k // side) + 5.0
        for pos, a in enumerate(w):
            F.append((pos, k, letter(a, x, y, z=0.3 * ((7 * k + pos) % 11) - 1.0)))
    if mode == "blocks":
        F.sort(key=lambda t: (t[1], t[0]))
    else:  # layers: label order interleaves the piles
        F.sort(key=lambda t: (t[0], (t[1] * 7) % (m + 1), t[1]))
    return mat_of([f for _, _, f in F], size), size


def crossing_mat(n, hp):
    """n mutually crossing fibers, thickness pattern hp"""
    F = []
    for k in range(n):
        p = math.pi * (k + 0.3) / n
        F.append(fiber(0.1 * k - 0.2, 0.07 * k * (-1) ** k, direction(p), l=6.0 + 0.5 * k, h=THICK[(hp + k * (1 + hp)) % 3],
                       b=1.0 + 0.5 * (k % 2), z=float((3 * k) % 5) - 2, G=1.0 + 0.5 * (k % 2), E=100.0 + 50 * k))
    return mat_of(F, 16.0)


GENS = [  # generated mats: (n, size, length, psi, hetero, periodic)
    (0, 50.0, 25.0, 0.0, 0, True), (1, 50.0, 25.0, 0.0, 0, False), (2, 10.0, 9.0, 0.0, 1, True),
    (3, 10.0, 9.0, 0.0, 1, False), (6, 12.0, 9.0, 0.0, 1, True), (10, 15.0, 12.0, 0.0, 1, True),
    (10, 15.0, 12.0, 0.0, 1, False), (25, 20.0, 12.0, 0.0, 1, True), (25, 20.0, 12.0, 0.6, 1, True),
    (50, 50.0, 25.0, 0.0, 0, True), (60, 30.0, 12.0, 0.0, 1, False), (100, 50.0, 25.0, 0.0, 0, True),
    (100, 50.0, 25.0, 0.0, 1, True),
]


def words_upto(n, letters):
    return list(itertools.product(letters, repeat=n))


def stack_states(tier):
    th = tier == "thorough"
    st = []
    # every pile of up to 3 fibers over all 18 letters, and of 4 over 6 classes with a thickness pattern
    W = [w for k in (1, 2) for w in words_upto(k, range(18))]
    W3 = words_upto(3, range(18))
    W4 = [tuple(c + 6 * ((k + s) * (1 + s) % 3) for k, c in enumerate(w))
          for s in range(3 if th else 1) for w in words_upto(4, range(6))]
    if not th:
        W3 = [w for w in W3 if sum(a // 6 == 0 for a in w) <= 1 or len({a // 6 for a in w}) == 1]
    WC = [w for k in (1, 2, 3) for w in words_upto(k, range(18, 30)) if th or k < 3 or sum(a < 22 for a in w) <= 1]
    WE = [w for k in (1, 2, 3) for w in words_upto(k, (0, 2) + tuple(range(30, 39)))
          if max(w) >= 30 and (k < 3 or th or w[0] < 30 and len({(a - 30) // 3 for a in w}) == 3)]
    chunk = 150
    for name, ws in (("w2", W), ("w3", W3), ("w4", W4), ("wc", WC), ("we", WE)):
        for i in range(0, len(ws), chunk):
            for mode in ("blocks", "layers") if th else ("blocks", "layers")[(i // chunk) % 2:][:1]:
                st.append(("piles", name, tuple(ws[i:i + chunk]), mode))
    for n, hps in ((3, range(3)), (4, range(3 if th else 2))) + (((5, (0, 1)),) if th else ()):
        allp = list(itertools.combinations(range(n), 2))
        for m in range(1 << len(allp)):
            for hp in hps:
                st.append(("subset", n, tuple(p for k, p in enumerate(allp) if m >> k & 1), hp))
    for n in (2, 5, 12) + ((30,) if th else ()):  # piles higher than their box is wide, and other units
        for unit in (1.0, 2.0 ** -9, 2.0 ** -12, 2.0 ** 10):
            st.append(("tall", n, unit))
    for g in GENS:
        for seed in range(6 if th else 2):
            st.append(("gen", g, seed))
    return st


WEAVE = (-1.9, 0.2, 1.6)


def weaves(n, first=(0, 1, 2)):
    """words of n letters: three places along x (0-2) or y (3-5), starting along x"""
    return [w for w in itertools.product(range(6), repeat=n) if w[0] in first and any(a > 2 for a in w)]


def label(st):
    if st[0] == "piles":
        return "piles %s %s..%s %s" % (st[1], st[2][0], st[2][-1], st[3])
    return repr(st)


_CACHE = {}


def build(st):
    """-> (mat, net, number of separate piles); built once per process, fresh copies every time"""
    if st not in _CACHE:
        if len(_CACHE) > 500:
            _CACHE.clear()
        _CACHE[st] = pickle.dumps(_build(st))
    return pickle.loads(_CACHE[st])


def _build(st):
    from fibermat import Net
    if st[0] == "piles":
        mat, size = cluster_mat(st[2], st[3])
        return mat, Net(mat, periodic=False), len(st[2])
    if st[0] == "pile":  # a single small pile (for trajectories)
        mat, size = cluster_mat([st[1]], "blocks")
        return mat, Net(mat, periodic=False), 1
    if st[0] == "subset":
        _, n, pairs, hp = st
        mat = crossing_mat(n, hp)
        net = Net(mat, periodic=False)
        keep = [a == b or (a, b) in pairs for a, b in pairs_of(net)]
        net = Net(net[keep].reset_index(drop=True))
        return mat, net, 1
    if st[0] == "weave":  # long fibers along x or y, held up at different places
        F = []
        for k, a in enumerate(st[1]):
            p = WEAVE[a % len(WEAVE)] + 0.07 * k
            c, d = (((0.11 * k - 0.2), p), EX) if a < len(WEAVE) else ((p, 0.13 * k - 0.3), EY)
            F.append(fiber(*c, d, l=6.0 + 0.5 * (k % 2), b=1.0 + 0.5 * (k % 3), h=(0.5, 1.0, 0.75)[(k + a) % 3], z=float(k),
                           G=1.0 + 0.5 * (k % 2), E=100.0 + 60.0 * (a % 3)))
        mat = mat_of(F, 16.0)
        return mat, Net(mat, periodic=False), 1
    if st[0] == "ladder":  # a long fiber with many others on it
        n = st[1]
        F = [fiber(0, 0, EX, l=20.0, h=1.0, E=150.0)] + [fiber(19.0 * (k + 0.5) / n - 9.5 + 0.01 * (k % 3), 0.1 * (k % 5) - 0.2, EY, l=4.0,
                                                               z=1.0 + 0.1 * (k % 4), b=0.2, h=(0.5, 1.0, 0.75)[k % 3]) for k in range(n)]
        mat = mat_of(F, 60.0)
        return mat, Net(mat, periodic=False), 1
    if st[0] == "steps":  # a long fiber with others on it whose thicknesses differ by very little
        _, n, e = st
        F = [fiber(x, 0.1, EY, l=4.0, E=90.0) for x in (-5.0, 5.2)] + [fiber(0, 0, EX, l=12.0, z=1.0)]
        F += [fiber(1.3 * k - 0.65 * (n - 1) + 0.1, 0.2, EY, l=4.0, z=2.0, h=1.0 + e * ((3 * k) % n), E=120.0) for k in range(n)]
        mat = mat_of(F, 30.0)
        return mat, Net(mat, periodic=False), 1
    if st[0] == "tall":
        _, n, u = st
        F = [fiber(0.01 * (k % 3) * u, 0.005 * (k % 4) * u, direction(math.pi * (k + 0.3) / n), l=(1.5 - 0.1 * (k % 2)) * u,
                   b=0.25 * u, h=(1.0, 0.5)[k % 2] * u, z=(k % 4) * u) for k in range(n)]
        mat = mat_of(F, 2.0 * u)
        return mat, Net(mat, periodic=False), 1
    if st[0] == "gen":
        _, (n, size, length, psi, het, periodic), seed = st
        mat = gen(n, length=length, size=size, psi=psi, seed=seed, tensile=200.0)
        if het:
            hetero(mat, seed)
        return mat, Net(mat, periodic=periodic), 1
    raise ValueError(st)
