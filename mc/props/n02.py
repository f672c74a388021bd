"""N02: every connection joins the true nearest points of its two fibers."""
import numpy as np

from ..engine import Out, Space
from ..geo import net_rows, offsets, values
from .. import nets
from .n01 import pair_states, TRI
from ..geo import mat_of

ASSUMPTIONS = ["fibers are not longer than the periodic box", "positions compared within 1e-8 of the box size"]


def geometry(out, mat, net, size, periodic):
    M = values(mat)
    L, X, U = M[:, 0], M[:, 3:6], M[:, 6:9]
    ab, s, pa, pb = net_rows(net)
    tol = 1e-8 * size
    A, B = ab[:, 0], ab[:, 1]
    ea = np.abs(pa - (X[A] + s[:, [0]] * U[A])).max(axis=1) if len(ab) else np.zeros(0)
    eb = np.abs(pb - (X[B] + s[:, [1]] * U[B])).max(axis=1) if len(ab) else np.zeros(0)
    bad = np.flatnonzero(~((ea <= tol) & (eb <= tol)))
    if len(bad):
        k = bad[0]
        out.fail("points", "%d rows whose points are not centre + abscissa*direction, e.g. %s sA,sB=%s PA=%s PB=%s" % (
            len(bad), ab[k].tolist(), s[k].tolist(), pa[k].tolist(), pb[k].tolist()))
    end = A == B
    if end.any():
        half = 0.5 * L[A[end]]
        if not (np.allclose(np.sort(s[end], axis=1), np.c_[-half, half], atol=tol)):
            out.fail("ends", "an end row does not hold the two ends of its fiber")
    con = np.flatnonzero(~end)
    if len(con):
        off = np.c_[offsets(size, periodic), np.zeros(len(offsets(size, periodic)))]
        d = (pb - pa)[con][:, None, :] + off[None]
        ra = np.abs(np.einsum("rkd,rd->rk", d, U[A[con]]))
        rb = np.abs(np.einsum("rkd,rd->rk", d, U[B[con]]))
        c = np.einsum("rd,rd->r", U[A[con]], U[B[con]])
        r = np.maximum(ra, rb).min(axis=1)
        # (rounding of the abscissas grows like 1/sin^2 for nearly parallel fibers, the residual does not)
        bad = con[np.flatnonzero(~(r <= 10 * tol))]
        if len(bad):
            k = bad[0]
            out.fail("nearest", "%d connections do not join nearest points, e.g. %s sA,sB=%s fibers %s %s" % (
                len(bad), ab[k].tolist(), s[k].tolist(), M[ab[k][0]].tolist(), M[ab[k][1]].tolist()))
        inside = (np.abs(s[con, 0]) <= 0.5 * L[A[con]] + tol) & (np.abs(s[con, 1]) <= 0.5 * L[B[con]] + tol)
        if not inside.all():
            k = con[np.flatnonzero(~inside)[0]]
            out.fail("inside", "connection %s outside its fibers: sA,sB=%s" % (ab[k].tolist(), s[k].tolist()))
    out.traces += 1
    out.states += len(ab)
    out.outcome = hash(np.round(s / size, 7).tobytes())
    out.note = "%d rows" % len(ab)


def visit_mat(st):
    from fibermat import Net
    out = Out()
    mat, size, periodic, exact = nets.build(st)
    geometry(out, mat, Net(mat, periodic=periodic), size, periodic)
    return out


def visit_word(tier):
    def visit(st):
        out = visit_mat(st)
        out.succ = nets.word_succ(st, tier)
        return out
    return visit


def visit_pairs(st):
    from fibermat import Net
    _, n, pairs, flip = st
    out = Out()
    arr = np.array(pairs)
    if flip == 1:
        arr = arr[:, ::-1].copy()
    mat = mat_of(TRI[:n], 8.0)
    geometry(out, mat, Net(mat, periodic=False, pairs=arr), 8.0, False)
    return out


def spaces(tier):
    return [
        Space("alphabet", nets.net_states(tier), visit_mat,
              "all pairs over the fiber alphabets, label orders and periodicities listed; generated mats"),
        Space("words", nets.word_init(), visit_word(tier), "all fiber sequences up to the word bound"),
        Space("candidates", [s for s in pair_states(tier) if s[3] < 2], visit_pairs,
              "all subsets of candidate pairs in both orders"),
    ]
