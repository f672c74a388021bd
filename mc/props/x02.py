"""X02: contact forces never pull."""
import numpy as np

from ..engine import Out, Space
from .. import traj

ASSUMPTIONS = ["states reached while the contact forces are unique (condition number of the scaled active system below 1e9)",
               "forces within 1e-6 of the largest one count as zero"]


def visit(sc):
    out = Out()
    mat, mesh, T = traj.run(sc)
    if T is None:
        return out
    last = traj.ill(T)
    for k in range(1, last):
        f = T.f[k]
        if not np.isfinite(f).all():
            out.fail("finite", "a contact force is not finite")
            break
        top = max(f.max(), 1e-9)
        r = int(f.argmin())
        if f[r] < -1e-6 * top:
            out.fail("pull", "the %s contact %d pulls with %.3g (largest force %.3g) in state %d" % (
                ("floor", "pair", "plate")[r % 3], r // 3, f[r], top, k))
            break
    raw = T.raw[3]
    if last > 1:
        top = max(T.f[:last].max(), 1e-9)
        for k in range(last - 1):  # between two recorded states a force stays between its recorded values
            for s in (0.25, 0.5, 0.75):
                f = np.asarray(raw((k + s) / (T.n - 1)))
                low = np.minimum(T.f[k], T.f[k + 1])
                if not (f >= low - 1e-6 * top).all():
                    r = int((f - low).argmin())
                    out.fail("between", "between states %d and %d contact force %d falls to %.3g, below both recorded values" % (k, k + 1, r, f[r]))
                    break
    out.states, out.trans, out.traces = last, last - 1, 1
    out.outcome = (T.n, last, round(float(T.f[-1].max()), 6))
    out.note = "%d states judged of %d" % (last, T.n)
    return out


def spaces(tier):
    sc = [s for s in traj.scenarios(tier, ("std", "weak", "lmin", "soft")) if s[0][2] is None and s[0][1][0] != "steps"]
    if tier == "thorough":  # the finding of the longer weaves is the same as that of the short ones
        few = {s[0] for s in traj.scenarios("quick")}
        sc = [s for s in sc if s[0][1][0] != "weave" or s[0] in few]
    return [Space("compaction", sc, visit, "every scenario of pile, connection subset and generated mat with every "
                  "option set", label=traj.label)]
