"""State spaces of mats shared by the network properties."""
import itertools
import math

import numpy as np

from .geo import EX, EY, NX, NY, direction, fiber, frame, gen, hetero, mat_of, values

# -- "alphabet": one mat holds a whole alphabet of fibers, so one state decides all its pairs
POS = (-0.5, -0.43, -0.22, 0.013, 0.27, 0.46, 0.5)
ANG = (0.07, 0.9, 1.49, -0.6, 2.5)
PERM = ("id", "rev", "mix")


def order(n, perm):
    k = np.arange(n)
    if perm == "rev":
        return k[::-1]
    if perm == "mix":
        a = next(a for a in (37, 41, 43, 47, 53) if math.gcd(a, n) == 1)
        return (k * a + 11) % n
    return k


def alphabet(size, lens, tilt, perm):
    F = []
    for k, (x, y, p) in enumerate(itertools.product(POS, POS, ANG[:4] if tilt == 0 else ANG[1:])):
        q = 0.0 if tilt == 0 else (0.35, -0.2, 0.0)[k % 3]
        F.append(fiber(x * size, y * size, direction(p, q), l=lens[(k + k // 7 + k // 49) % len(lens)],
                       z=0.37 * (k % 5) * size / 10, h=1.0 + (k % 2)))
    return [F[i] for i in order(len(F), perm)]


def exact_alphabet(lens, dirs, perm):
    F = []
    for k, (x, y, d) in enumerate(itertools.product((-4, -2, -1, 0, 2, 3, 4), (-4, -3, 0, 1, 2, 4), dirs)):
        F.append(fiber(x, y, (EX, EY, NX, NY)[d], l=lens[(k + k // 5) % len(lens)], z=0.5 * (k % 3)))
    return [F[i] for i in order(len(F), perm)]


# -- "words": every sequence of fibers over a small exact alphabet (box 8)
LETTERS = [
    fiber(0, 0, EX, 4), fiber(0, 0, EY, 4), fiber(2, 0, EY, 4, z=1), fiber(1, 1, NX, 2),
    fiber(4, 0, EX, 4, z=2), fiber(-4, 4, EY, 8), fiber(-3, -3, NY, 4), fiber(3, 3, EX, 8, z=-1),
    fiber(0, 0, (0.6, 0.8, 0.0), 5), fiber(-4, -4, (0.8, -0.6, 0.0), 4),
    fiber(1, 1, (0.0, 0.6, 0.8), 4), fiber(3, -4, (0.6, 0.0, -0.8), 6, z=1),
]
EXACT_LETTERS = 8  # the first letters are axis-aligned with dyadic coordinates


def net_states(tier):
    """list of (kind, ...) descriptors"""
    thorough = tier == "thorough"
    st = []
    for size, lens in ((10.0, (2.0, 4.0, 7.0)), (10.0, (3.0,)), (10.0, (10.0, 1.5)),
                       (25.0, (8.0, 20.0)))[: 4 if thorough else 3]:
        for tilt in (0, 1):
            for perm in PERM if thorough or size == 10.0 and lens != (3.0,) else PERM[:1]:
                for periodic in (True, False):
                    st.append(("alpha", size, lens, tilt, perm, periodic))
    for unit in (2.0 ** -20, 2.0 ** 14):  # the same in microns or kilometres
        for tilt in (0, 1):
            for periodic in (True, False):
                st.append(("alpha", 10.0 * unit, (2.0 * unit, 4.0 * unit, 7.0 * unit), tilt, "mix", periodic))
    for lens in ((2.0,), (4.0, 2.0), (4.0, 8.0, 2.0, 6.0), (8.0,)):
        for dirs in ((0, 1), (0, 1, 2, 3))[: 2 if thorough else 1] + (((2, 1),) if not thorough else ()):
            for perm in PERM:
                for periodic in (True, False):
                    st.append(("exact", lens, dirs, perm, periodic))
    for n, kw in ((2, {}), (5, {}), (20, {}), (40, {}), (80, {}), (160, dict(length=10.0))):
        for seed in range(6 if thorough else 2):
            for size, psi, theta in ((50.0, 0.0, math.pi), (26.0, 0.4, math.pi), (30.0, 0.0, 0.8),
                                     (26.0, 3.0, 6.0)):
                for het in (0, 1):
                    for periodic in (True, False):
                        st.append(("gen", n, tuple(sorted(kw.items())), seed, size, psi, theta, het, periodic))
    st += [("shallow", k0, perm, periodic) for k0 in ((0, 1) if thorough else (0,)) for perm in PERM[:2] for periodic in (True, False)]
    for n in (300, 420) + ((600, 900) if thorough else ()):
        for periodic in (True, False):
            st.append(("gen", n, (("length", 9.0),), 1, 60.0, 0.0 if n < 400 else 0.3, math.pi, n % 2, periodic))
    return st


SHALLOW = (0.0, 0.003, -0.006, 0.02, -0.05, 0.11, math.pi / 2 + 0.004, 2.0, math.pi - 0.01)


def shallow(k0):
    """long fibers that are almost parallel to each other"""
    return [fiber(0.9 * (m % 4) - 1.3, 0.002 * (m % 5) + 0.0007 * k, direction(a, (0.0, 0.004)[k % 2]), l=(14.0, 19.0)[m % 2], z=0.3 * m, h=1.0)
            for k, (a, m) in enumerate(itertools.product(SHALLOW, range(5)), k0)]


def build(st):
    """-> (mat, size, periodic, exact)"""
    kind = st[0]
    if kind == "shallow":
        _, k0, perm, periodic = st
        F = shallow(k0)
        return mat_of([F[i] for i in order(len(F), perm)], 20.0), 20.0, periodic, False
    if kind == "alpha":
        _, size, lens, tilt, perm, periodic = st
        return mat_of(alphabet(size, lens, tilt, perm), size), size, periodic, False
    if kind == "exact":
        _, lens, dirs, perm, periodic = st
        return mat_of(exact_alphabet(lens, dirs, perm), 8.0), 8.0, periodic, True
    if kind == "gen":
        _, n, kw, seed, size, psi, theta, het, periodic = st
        mat = gen(n, seed=seed, size=size, psi=psi, theta=theta, **dict(kw))
        if het:
            hetero(mat, seed)
        return mat, size, periodic, False
    if kind == "word":
        _, w, periodic = st
        return (mat_of([LETTERS[i] for i in w], 8.0), 8.0, periodic, all(i < EXACT_LETTERS for i in w))
    raise ValueError(st)


def word_init():
    return [("word", (), True), ("word", (), False)]


def word_succ(st, tier):
    """AddFiber transitions: all letters up to length 2, then a reduced alphabet"""
    _, w, periodic = st
    depth = 4 if tier == "thorough" else 3
    if len(w) >= depth:
        return []
    if len(w) < 2:
        letters = range(len(LETTERS))
    elif len(w) == 2:
        letters = range(len(LETTERS)) if tier == "thorough" else (0, 2, 4, 5, 8)
    else:
        letters = (0, 2, 5, 8)
    return [(("add", a), ("word", w + (a,), periodic)) for a in letters]
