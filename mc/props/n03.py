"""N03: networks commute with the symmetries of the box (differential, no reference network)."""
import numpy as np

from ..engine import Out, Space
from ..geo import crossing, frame, net_rows, values
from .. import nets

ASSUMPTIONS = ["abscissas are compared where the periodic image of a pair is unique (fibers up to half the box)",
               "pairs within 1e-7 of a strict limit are not compared"]

# symmetric descriptor of a transformation: (perm, flips, 2x2 matrix, mirror of z, scale exponent, shift (in 1/24 S))
GENS = ["cycle", "reverse", "swap01", "flip0", "flipodd", "mirror", "quarter", "transpose", "zmirror", "scale",
        "shrink", "shift_x", "shift_y", "shift_xy"]


def identity(n):
    return (tuple(range(n)), (1,) * n, ((1, 0), (0, 1)), 1, 0, (0, 0))


def mul(a, b):
    return tuple(tuple(sum(a[i][k] * b[k][j] for k in range(2)) for j in range(2)) for i in range(2))


def apply(t, g, periodic):
    perm, flips, R, zm, sc, sh = t
    n = len(perm)
    if g in ("shift_x", "shift_y", "shift_xy") and not periodic:
        return None
    if g == "cycle":
        perm = perm[1:] + perm[:1]
    elif g == "reverse":
        perm = perm[::-1]
    elif g == "swap01":
        perm = (perm[1], perm[0]) + perm[2:]
    elif g == "flip0":
        flips = (-flips[0],) + flips[1:]
    elif g == "flipodd":
        flips = tuple(-f if k % 2 else f for k, f in enumerate(flips))
    elif g in ("mirror", "quarter", "transpose"):
        A = {"mirror": ((-1, 0), (0, 1)), "quarter": ((0, -1), (1, 0)), "transpose": ((0, 1), (1, 0))}[g]
        R = mul(A, R)
        sh = tuple((A[i][0] * sh[0] + A[i][1] * sh[1]) % 24 for i in range(2))
    elif g == "zmirror":
        zm = -zm
    elif g == "scale":
        if sc >= 1:
            return None
        sc += 1
    elif g == "shrink":
        if sc <= -1:
            return None
        sc -= 1
    else:
        d = {"shift_x": (7, 0), "shift_y": (0, 5), "shift_xy": (11, 13)}[g]
        sh = ((sh[0] + d[0]) % 24, (sh[1] + d[1]) % 24)
    return (perm, flips, R, zm, sc, sh)


BASES = {}


def base(b):
    if b not in BASES:
        from fibermat import Net
        kind, size, periodic, seed = b
        if kind in ("half", "long", "tilt"):
            n, L = {"half": (24, 0.5), "long": (14, 0.95), "tilt": (24, 0.5)}[kind]
            mat = nets.gen(n, length=L * size, size=size, seed=seed, psi=2.0 if kind == "tilt" else 0.0)
            mat["l"] = mat["l"] * (1.0 - (0.28 if seed % 2 else 0.13) * (np.arange(n) % 4))
        M = values(mat)
        M[:, 3:5] *= 0.999  # keep the centres off the border
        net = Net(nets.mat_of(M, size), periodic=periodic)
        R = crossing(M, size, periodic)
        near = {(int(i), int(j)) for i, j, s in zip(R["i"], R["j"], np.abs(R["slack"]).min(axis=1)) if s < 1e-7}
        multi = {(int(i), int(j)) for i, j, s in zip(R["i"], R["j"], (R["slack"] > -1e-7).sum(axis=1)) if s > 1}
        ab, s, _, _ = net_rows(net)
        ref = {tuple(map(int, p)): tuple(v) for p, v in zip(ab, s)}
        BASES[b] = (M, ref, near, multi)
    return BASES[b]


def visit(bound):
    def go(st):
        from fibermat import Net
        b, t, depth = st
        _, size, periodic, _ = b
        M, ref, near, multi = base(b)
        perm, flips, R, zm, sc, sh = t
        f = (1.0, 2.0 ** 9, 2.0 ** -21)[sc]
        N = M.copy()
        A = np.array(R, float)
        N[:, 3:5] = M[:, 3:5] @ A.T
        N[:, 6:8] = M[:, 6:8] @ A.T
        N[:, 5] *= zm
        N[:, 8] *= zm
        if periodic and sh != (0, 0):
            N[:, 3:5] += np.array(sh) * size / 24
            N[:, 3:5] = (N[:, 3:5] + size / 2) % size - size / 2
        N[:, 6:9] *= np.array(flips)[:, None]
        N[:, [0, 1, 2, 3, 4, 5]] *= f
        N = N[list(perm)]
        net = Net(nets.mat_of(N, size * f), periodic=periodic)
        ab, s, _, _ = net_rows(net)
        out = Out()
        got = {}
        for (a, c), v in zip(ab, s):
            i, j = perm[a], perm[c]
            v = (v[0] * flips[i] / f, v[1] * flips[j] / f)
            got[(i, j) if i <= j else (j, i)] = v if i <= j else v[::-1]
        lost = sorted(k for k in set(ref) - set(got) if k not in near)
        new = sorted(k for k in set(got) - set(ref) if k not in near)
        if lost or new or len(got) != len(net):
            out.fail("pairs", "transformed mat loses %s and gains %s (base labels)" % (lost[:3], new[:3]))
        bad = [k for k in ref if k in got and k not in near and k not in multi and k[0] != k[1]
               and not np.allclose(ref[k], got[k], atol=1e-7 * size)]
        if bad:
            out.fail("abscissas", "connection %s moves from %s to %s" % (bad[0], ref[bad[0]], got[bad[0]]))
        out.traces = 1
        out.states = len(ref)
        out.outcome = (b, len(got))
        out.note = "%d connections, %d near a limit" % (len(got), len(near))
        if depth < bound:
            for g in GENS:
                t2 = apply(t, g, periodic)
                if t2 is not None:
                    out.succ.append((g, (b, t2, depth + 1), (b, t2)))
        return out
    return go


def spaces(tier):
    th = tier == "thorough"
    bases = [(k, s, p, seed) for k in ("half", "long", "tilt") for s in (20.0,) for p in (True, False)
             for seed in range(8 if th else 4)]
    init = [(b, identity(14 if b[0] == "long" else 24), 0) for b in bases]
    d = 3 if th else 2
    return [Space("symmetries", init, visit(d), "all words of length <= %d over %d generators" % (d, len(GENS)),
                  label=lambda st: "%s %s" % (st[0], st[1][2:]))]
