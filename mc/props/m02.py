"""M02: generating a mat depends only on its arguments, whatever ran before."""
import numpy as np

from ..engine import Out, Space
from ..geo import values

ASSUMPTIONS = ["histories of one process; numpy's global generator is the only shared generator known to the code"]

ARGS = [dict(n=6, size=20.0, length=12.0), dict(n=6, size=20.0, length=12.0, seed=1),
        dict(n=9, size=15.0, length=10.0, width=0.5, thickness=0.4, theta=1.0, psi=0.5, shear=2.0, tensile=80.0, seed=3),
        dict(n=0)]
GOLD = None


def snap(mat):
    return (values(mat).tobytes(), repr(sorted(mat.attrs.items())), tuple(mat.index.tolist()), tuple(mat.columns))


def op_gen(k):
    def f(w):
        w["mats"].append((k, _mat(k), None))
    return f


def _mat(k):
    from fibermat import Mat
    return Mat(**ARGS[k])


def op_init(w):
    from fibermat import Mat
    Mat.init(**ARGS[2])


def op_seed(w):
    np.random.seed(99)


def op_draw(w):
    np.random.rand(5)
    np.random.normal(size=3)  # (an odd number: the generator keeps one more)
    np.random.shuffle(np.arange(4))


def op_state(w):
    np.random.set_state(np.random.RandomState(5).get_state())


def last(w):
    return w["mats"][-1][1] if w["mats"] else _mat(0)


def op_net(w):
    from fibermat import Net, Stack
    m = last(w).copy()
    m = type(last(w))(m)
    m.attrs = dict(m.attrs)
    net = Net(m)
    Stack(m, net, threshold=1.0)


def op_solve(w):
    from fibermat import Mat, Net, Stack, Mesh, solve
    m = Mat(5, length=9.0, size=10.0, tensile=50.0, seed=4)
    mesh = Mesh(Stack(m, Net(m)))
    solve(m, mesh, packing=1.5, itermax=3, verbose=False, lmin=0.1)


def op_edit(w):  # the user changes a mat he was given
    if not w["mats"]:
        return
    k, m, _ = w["mats"][-1]
    if len(m):
        m["z"] = m["z"].values * 0.0 + 1.0
        m.loc[0, "l"] = 3.0
    m.attrs["size"] = 1000.0
    m.attrs["skip_check"] = True
    w["mats"][-1] = (k, m, snap(m))


def op_settings(w):
    from fibermat import Mat
    from fibermat.widgets import Settings
    s = Settings(n=4, seed=None, tensile=3.0)
    s["seed"] = 8
    Mat(**s)


def op_noseed(w):
    from fibermat import Mat
    Mat(4, seed=None)


def op_bad(w):  # a refused request
    from fibermat import Mat
    for kw in (dict(n=3, length=-1.0), dict(n=2, thickness=0.0, seed=9)):
        try:
            Mat(**kw)
        except ValueError:
            pass


def op_render(w):
    from fibermat import vtk_mat
    m = _mat(1)
    vtk_mat(m, verbose=False)


OPS = [("gen0", op_gen(0)), ("gen1", op_gen(1)), ("gen2", op_gen(2)), ("gen3", op_gen(3)), ("init2", op_init), ("edit", op_edit),
       ("np.seed", op_seed), ("np.draw", op_draw), ("np.set_state", op_state), ("net+stack", op_net), ("solve", op_solve),
       ("settings", op_settings), ("noseed", op_noseed), ("refused", op_bad), ("render", op_render)]


def visit(hist):
    out = Out()
    w = dict(mats=[])
    for k in hist:
        before = [(k2, m, s or GOLD[k2]) for k2, m, s in w["mats"]]
        OPS[k][1](w)
        for n, (k2, m, s) in enumerate(before):
            if OPS[k][0] == "edit" and n == len(before) - 1:
                continue
            if snap(m) != s:
                out.fail("changed", "a mat handed out earlier was changed by %s" % OPS[k][0])
    for k2, m, s in w["mats"]:
        if s is None and snap(m) != GOLD[k2]:
            out.fail("history", "Mat(%s) differs from the first one" % ARGS[k2])
    state = np.random.get_state()
    out.outcome = hash((state[1].tobytes(), state[2])) if "noseed" not in [OPS[k][0] for k in hist] else 0
    for k2 in range(len(ARGS)):
        m = _mat(k2)
        if snap(m) != GOLD[k2]:
            out.fail("after %d" % k2, "Mat(%s) differs from the first one after %s" % (ARGS[k2], [OPS[k][0] for k in hist]))
    out.traces = len(hist) + len(ARGS)
    out.note = [OPS[k][0] for k in hist]
    if len(hist) < BOUND and not out.fails:
        for k in range(len(OPS)):
            if len(hist) >= 2 and sum(OPS[a][0] in SLOW for a in hist + (k,)) > MAXSLOW:
                continue
            out.succ.append((OPS[k][0], hist + (k,)))
    return out


def visit_seeds(seed):
    """different seeds, different mats"""
    from fibermat import Mat
    out = Out()
    S = FAR if seed is None else range(seed, seed + 32)
    for n in (1, 5):
        a = {}
        for s in S:
            other = a.setdefault(snap(Mat(n, seed=s))[0], s)
            if other != s:
                out.fail("seeds", "seeds %d and %d give the same mat of %d fibers" % (other, s, n))
    out.states, out.traces, out.outcome = 2 * len(S), 2 * len(S), hash(tuple(a))
    return out


FAR = sorted({0, 1, 2, 7, 10 ** 3, 10 ** 6, 10 ** 9} | {2 ** k + d for k in range(2, 33) for d in (-1, 0, 1) if 2 ** k + d < 2 ** 32})

BOUND = 2
SLOW, MAXSLOW = ("net+stack", "solve", "settings", "render"), 0



def spaces(tier):
    global BOUND, GOLD, MAXSLOW
    MAXSLOW = 1 if tier == "thorough" else 0
    BOUND = 4 if tier == "thorough" else 3
    GOLD = [snap(_mat(k)) for k in range(len(ARGS))]
    return [Space("histories", [()], visit, "all histories of at most %d calls out of %d (beyond 2 calls, at most %d of them a pipeline, settings or "
                  "export call)" % (BOUND, len(OPS), MAXSLOW),
                  label=lambda h: repr([OPS[k][0] for k in h])),
            Space("seeds", [None] + list(range(0, 1024 if tier == "thorough" else 128, 31)), visit_seeds,
                  "consecutive seeds, and seeds next to every power of two")]
