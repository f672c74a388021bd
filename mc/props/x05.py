"""X05: a bad answer from the linear solver is never recorded."""
import warnings

import numpy as np
import scipy.sparse as sps

from ..engine import Out, Space
from .. import traj

ASSUMPTIONS = ["the environment is the linear solver: at each call it gives the good answer or one of the menu",
               "the residual is measured on the system that was handed over"]

# answer(x, A, b, tol) -> answer;  good: the residual stays within the tolerance
BAD = ("nan", "one nan", "inf", "zero", "scaled", "shifted", "other", "rhs", "nan first", "just above")
GOOD = ("exact", "copy", "just below", "list", "complex")
ERRTOL = 1e-6


def toward(x, A, b, res):
    """x moved so that the residual is about `res`"""
    n = len(x)
    d = np.zeros(n)
    d[n // 2] = 1.0
    r = np.linalg.norm(A @ d)
    return x + d * (res / r) if r > 0 else x


def answer(kind, x, A, b, tol):
    x = np.array(x, float)
    if kind == "nan":
        return np.full(len(x), np.nan)
    if kind == "one nan":
        x[-1] = np.nan
        return x
    if kind == "nan first":
        x[0] = np.nan
        return x
    if kind == "inf":
        x[len(x) // 2] = np.inf
        return x
    if kind == "zero":
        return 0 * x
    if kind == "scaled":
        return x * 1.01
    if kind == "shifted":
        return toward(x, A, b, 10.0)
    if kind == "other":
        return x[::-1].copy()
    if kind == "rhs":
        return np.array(b, float)
    if kind == "just above":
        return toward(x, A, b, 3 * tol)
    if kind == "just below":
        return toward(x, A, b, 0.3 * tol)
    if kind == "copy":
        return x.copy()
    if kind == "list":
        return list(x)
    if kind == "complex":
        return x + 0j
    return x


class Env:
    """a linear solver that departs from the good answer at the chosen calls"""

    def __init__(self, plan, tol):
        self.plan, self.tol, self.k, self.log = dict(plan), tol, 0, []

    def __call__(self, A, b):
        x = sps.linalg.spsolve(A, b)
        y = answer(self.plan.get(self.k, "exact"), x, A, b, self.tol)
        with np.errstate(all="ignore"):
            self.log.append((float(np.linalg.norm(A @ np.real(np.asarray(y)) - b)), np.real(np.asarray(y)).copy()))
        self.k += 1
        return y


def visit(st):
    sc, plan, tol = st
    out = Out()
    env = Env(plan, tol)
    with warnings.catch_warnings(record=True):
        mat, mesh, T = traj.run(sc, solve=env, errtol=tol)
    if T is None:
        return out
    log = env.log
    nominal = BASE[sc] if sc in BASE else None
    if nominal is None:
        _, _, nominal = traj.run(sc)
        if len(BASE) > 50:
            BASE.clear()
        BASE[sc] = nominal
    n = T.n
    tag = "%s errtol=%g" % (list(plan), tol)
    # the first call with a bad answer
    first = next((k for k, (e, _) in enumerate(log) if not e <= tol), None)
    if first is not None and n > first + 1:
        out.fail("recorded", "%s: call %d has residual %r, yet %d states are recorded" % (tag, first, log[first][0], n))
    if first is not None and n < first + 1:
        out.fail("lost", "%s: %d states recorded before the bad answer of call %d" % (tag, n, first))
    if first is not None and len(log) > first + 1:
        out.fail("continued", "%s: the run goes on after the bad answer of call %d" % (tag, first))
    for name in ("u", "f", "Z", "rl", "err"):
        if not np.isfinite(getattr(T, name)).all():
            out.fail("finite", "%s: non-finite %s recorded" % (tag, name))
    # errors: those of the answers, within tolerance
    if not (T.err[:n] <= tol).all():
        out.fail("error", "%s: recorded error %r" % (tag, T.err.max()))
    for k in range(1, n):
        if k <= len(log) and not abs(T.err[k] - log[k - 1][0]) <= 1e-3 * tol + 1e-3 * log[k - 1][0]:
            out.fail("error value", "%s: recorded error %r instead of %r" % (tag, T.err[k], log[k - 1][0]))
    # good answers are used: the step is the answer times the travel of the plate
    for k in range(1, n):
        m = np.asarray(T.mask[k], bool)
        if k <= len(log) and m.sum() == len(log[k - 1][1]):
            d = np.r_[T.u[k] - T.u[k - 1], T.f[k] - T.f[k - 1]]
            want = np.zeros(len(d))
            want[m] = log[k - 1][1] * (T.Z[k] - T.Z[k - 1])
            if not np.allclose(d, want, rtol=1e-6, atol=1e-9 * max(1.0, np.abs(np.r_[T.u[k], T.f[k]]).max())):
                out.fail("unused", "%s: the answer of call %d is not the recorded step" % (tag, k - 1))
    # states recorded before any departure are those of the undisturbed run
    dev = min([k for k, a in plan if a not in ("exact", "copy", "list", "complex")], default=len(log))
    p = min(dev + 1, n, nominal.n)
    if plan and (n < min(dev + 1, nominal.n)):
        out.fail("prefix", "%s: only %d states before the departure at call %d" % (tag, n, dev))
    for name in ("u", "f", "F", "H", "Z", "rl", "mask"):
        if not np.array_equal(getattr(T, name)[:p], getattr(nominal, name)[:p]):
            out.fail("prefix", "%s: %s differs before the departure at call %d" % (tag, name, dev))
    if plan and all(a in ("exact", "copy", "list", "complex") for _, a in plan) and n != nominal.n:
        out.fail("benign", "%s: %d states instead of %d" % (tag, n, nominal.n))
    out.traces, out.states, out.trans = 1, n, n - 1
    out.outcome = (first, n)
    out.note = "%s: %d calls, %d states" % (tag, len(log), n)
    # departures: the menu at every later call (after a bad answer there is none)
    if all(a in GOOD for _, a in plan) and len(plan) < (2 if small(sc) else 1):
        start = plan[-1][0] + 1 if plan else 0
        menu = BAD + GOOD[1:] if not plan or THOROUGH else ("nan", "scaled", "just above", "just below")
        for k in range(start, len(log)):
            for a in menu:
                out.succ.append((("answer", k, a), (sc, plan + ((k, a),), tol)))
    return out


BASE = {}
THOROUGH = False


def small(sc):
    src = sc[0][1]
    return src[0] in ("pile", "subset") or src[0] == "weave" and len(src[1]) < 5 and src[1][1] == 4 and THOROUGH or THOROUGH and src[0] == "gen"


def spaces(tier):
    global THOROUGH
    THOROUGH = tier == "thorough"
    sc = [s for s in traj.scenarios(tier, ("std", "lmin", "lmax") if THOROUGH else ("std", "lmin")) if s[0][2] is None]
    pick = []
    for s in sc:
        src = s[0][1]
        if src[0] == "pile" and (s[1] == "std" or not THOROUGH and (len(src[1]) < 2 or sum(src[1]) % 5)):
            continue  # piles have coincident nodes: a lower length bound is needed
        if src[0] == "weave" and (src[1][1] == 5 or src[1][2] == 1 or len(src[1]) > 4) and not (THOROUGH and len(src[1]) < 5):
            continue
        if src[0] != "pile" and s[1] == "lmin" or src[0] == "gen" and src[1][0] > 10:
            continue
        pick.append(s)
    init = [(s, (), tol) for k, s in enumerate(pick) for tol in ((1e-6, 1e-3) if THOROUGH else ((1e-6, 1e-6, 1e-3)[k % 3],))]
    return [Space("answers", init, visit, "every run with at most two departures from the good answer (one on generated mats), out of "
                  "%d bad and %d good ones, at every call" % (len(BAD), len(GOOD)), label=lambda st: traj.label(st[0]) + repr(st[1:]))]
