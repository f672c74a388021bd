"""V04: every stage refuses an ill-formed table and leaves everything as it was."""
import contextlib
import io
import itertools
import pickle
import warnings

import numpy as np
import pandas as pd

from ..engine import Out, Space
from .. import meshes, tables
from . import v01, v02, v03

ASSUMPTIONS = v01.ASSUMPTIONS + ["the other tables given to the stage are well-formed, and tables that do not belong together are not judged"]

# stage -> tables it takes
STAGES = {"Net": ("mat",), "Net open": ("mat",), "Net pairs": ("mat",), "Net.init": ("mat",), "Stack": ("mat", "net"), "Stack.init": ("mat", "net"), "Stack.solve": ("mat", "net"),
          "Stack.constraint": ("mat", "net"), "Stack threshold": ("mat", "net"), "Mesh": ("net",), "Mesh.init": ("net",), "Mesh of stack": ("stack",),
          "stiffness": ("mat", "mesh"), "constraint": ("mat", "mesh"), "solve": ("mat", "mesh"), "vtk_mat": ("mat",), "vtk_mesh": ("mat", "mesh"),
          "vtk_mesh fields": ("mat", "mesh"), "stiffness bounds": ("mat", "mesh"), "vtk_mat func": ("mat",)}
KIND = {"mat": v01, "net": v02, "stack": v02, "mesh": v03}
EDITS = {k: getattr(m, "DEFAULT", getattr(m, "EDITS", None)) for k, m in KIND.items()}
SUB = {k: {e for e, m in enumerate(v) if m[0] not in ("rename", "cell", "add", "scale", "copy", "exchange", "ends") or e % 5 == 0} for k, v in EDITS.items()}
_W = {}


def world(name):
    from fibermat import Mat, Mesh, Net, Stack
    if name not in _W:
        mat = Mat(v01.base(3)) if name == 3 else Mat(5, length=12.0, size=30.0, tensile=50.0, seed=name)
        net = Net(mat, periodic=name != 3)
        net0 = pickle.dumps(net)
        stack = Stack(mat, net)
        mesh = Mesh(stack)
        _W[name] = pickle.dumps((tables.plain(mat), tables.plain(pickle.loads(net0)), tables.plain(stack), tables.plain(mesh)))
    return dict(zip(("mat", "net", "stack", "mesh"), pickle.loads(_W[name])))


def edited(df, kind, word):
    for k in word:
        m = EDITS[kind][k]
        out = KIND[kind].apply(df, m)
        out = tables.apply_common(df, m) if out is None else out
        df = out
    return df


def wrap(kind, df):
    """an object of the library holding an ill-formed table: well-formedness was lost after its construction"""
    from fibermat import Mat, Mesh, Net, Stack
    cls = dict(mat=Mat, net=Net, stack=Stack, mesh=Mesh)[kind]
    given = "skip_check" in df.attrs
    old = df.attrs.get("skip_check")
    df.attrs["skip_check"] = True
    obj = cls(df)
    del obj.attrs["skip_check"]
    if given:
        obj.attrs["skip_check"] = old
    return obj


def call(stage, t):
    import fibermat as fm
    a = [t[k] for k in STAGES[stage]]
    kw = {}
    name = stage.split()[0]
    if name == "solve":
        kw = dict(packing=1.2, verbose=False, lmin=0.1)
    elif name == "vtk_mat":
        kw = dict(verbose=False, z_resolution=3)
        if stage != name:
            kw["func"] = lambda msh, i: msh
    elif name == "vtk_mesh":
        kw = dict(verbose=False, z_resolution=3)
        if stage != name:
            a += [np.zeros(len(t["mesh"])), np.zeros(len(t["mesh"])), np.zeros(len(t["mesh"]))]
    elif stage == "Net open":
        kw = dict(periodic=False)
    elif stage == "Net pairs":
        kw = dict(periodic=False, pairs=np.array([[0, 0], [0, 1], [1, 1]]))
    elif stage == "stiffness bounds":
        kw = dict(lmin=0.1, lmax=50.0, coupling=0.9)
    elif stage == "Stack threshold":
        kw = dict(threshold=2.0)
    fn = fm
    for p in name.split("."):
        fn = getattr(fn, p)
    with warnings.catch_warnings(), contextlib.redirect_stderr(io.StringIO()):
        warnings.simplefilter("ignore")
        return fn(*a, **kw)


def visit(st, depth):
    out = Out()
    base, stage, word = st
    w = dict(word)
    t, bad = world(base), set()
    try:
        for k in w:
            t[k] = edited(t[k], k, w[k])
    except tables.Skip:
        return out
    for k in w:
        if not bool(t[k].attrs.get("skip_check", False)):
            bad |= KIND[k].violated(t[k])
    if len(w) and not bad:
        return extend(out, st, depth)  # (well-formed: acceptance is decided by V01 to V03 and by the properties of the stage)
    for form in ("object", "plain"):
        if form == "plain" and stage in ("Net", "Net open", "Net pairs", "Stack", "Stack.init", "Stack threshold", "Mesh", "Mesh of stack"):
            continue
        x = {k: tables.plain(v) for k, v in t.items()}
        if form == "object":
            x = {k: wrap(k, v) for k, v in x.items()}
        before = {k: tables.snapshot(v) for k, v in x.items()}
        try:
            call(stage, x)
            err = None
        except Exception as e:
            err = e
        out.traces += 1
        out.states += 1
        if not w:
            if err is not None:
                out.fail("%s refused" % stage, "well-formed tables are refused: %s: %s" % (type(err).__name__, str(err)[:200]))
            continue
        if err is None:
            out.fail("%s accepted" % stage, "%s: an ill-formed table is accepted: %s (expected %s)" % (form, names(word), sorted(c.__name__ for c in bad)))
        elif not isinstance(err, tuple(bad)):
            out.fail("%s class" % stage, "%s: %s: %s instead of %s for %s" % (form, type(err).__name__, str(err)[:200], sorted(c.__name__ for c in bad), names(word)))
        for k in x:
            if tables.snapshot(x[k]) != before[k]:
                out.fail("%s modified" % stage, "%s: refusing %s changed the %s" % (form, names(word), k))
    out.outcome = (stage, tuple(sorted(c.__name__ for c in bad)), tuple(w))
    return extend(out, st, depth)


def names(word):
    return "; ".join("%s %s" % (k, [EDITS[k][e] for e in v]) for k, v in word)


def extend(out, st, depth):
    base, stage, word = st
    w = dict(word)
    if sum(map(len, w.values())) < depth:
        for k in STAGES[stage]:
            lo = w[k][-1] + 1 if k in w else 0
            for e in range(lo, len(EDITS[k])):
                if depth > 1 and e not in SUB[k]:
                    continue
                n = dict(w)
                n[k] = n.get(k, ()) + (e,)
                out.succ.append((("edit", k, e), (base, stage, tuple(sorted(n.items())))))
    return out


def spaces(tier):
    bases = (3, 1, 2) if tier == "thorough" else (3, 1)
    sp = [Space("edits", [(b, s, ()) for b in bases for s in STAGES], lambda st: visit(st, 1),
                "every stage with one of its tables spoilt by one edit (%s)" % ", ".join("%d of a %s" % (len(v), k) for k, v in EDITS.items()),
                label=lambda st: "%s %s (%s)" % (st[0], st[1], names(st[2])))]
    if tier == "thorough":
        heads = [s for s in STAGES if s not in ("solve", "vtk_mesh fields", "Stack threshold", "Mesh of stack")]
        sp.append(Space("edits2", [(3, s, ()) for s in heads], lambda st: visit(st, 2), "every stage with its tables spoilt by two edits out of %s" % ", ".join("%d of a %s" % (len(v), k) for k, v in SUB.items()),
                        label=lambda st: "%s %s (%s)" % (st[0], st[1], names(st[2]))))
    return sp
