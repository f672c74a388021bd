"""W01: Settings is a state machine (last value given, on/off) per parameter; every history of assignments, switch
toggles and field edits is replayed on the real widgets."""
import itertools
import math

import numpy as np

from ..engine import Out, Space

ASSUMPTIONS = ["values inside the range of their slider (angle fraction in [0, 1], iteration limit in [1, 1e6], tolerance in [1e-10, 0.1])",
               "fields are edited by the user only while they are enabled; values have the type of their field"]

INF = float("inf")
# parameter -> (kind, values)
PAR = dict(
    n=("plain", (3, 123457)), length=("plain", (25.0, 7.123456789)), width=("plain", (0.25, math.pi)), thickness=("plain", (0.5, 2.0)),
    size=("plain", (10.0, 1000 / 3)), theta=("angle", (0.25, 0.25 * math.pi)), shear=("inf", (2.0, 1 / 3)), tensile=("inf", (2500.0, 1e5 / 7)),
    seed=("none", (-5, 987654321)), periodic=("plain", (False, True)), threshold=("none", (10.0, 1e-4 / 3)), packing=("plain", (4.0, 1.5)),
    itermax=("int", (257, 1000000)), tol=("plain", (1e-4 * math.pi, 1e-9)), lmin=("none", (0.2, 12.3456789)), lmax=("none", (math.e, 40.0)),
    coupling=("plain", (0.99, 0.5)), interp_size=("none", (7, 1201)), verbose=("plain", (False, True)),
)
NAMES = list(PAR)
OFF = dict(inf=INF, none=None)


def same(a, b):
    if a is None or b is None:
        return a is b
    if isinstance(a, bool) or isinstance(b, bool):
        return bool(a) == bool(b) and not isinstance(a, float)
    return a == b or math.isclose(a, b, rel_tol=1e-12)


class Model:
    """the reference: parameter -> [value, on]"""

    def __init__(self, s, given):
        self.v = {}
        for p, (kind, _) in PAR.items():
            x = given.get(p, DEFAULTS[p])
            if kind in OFF:
                on = x != OFF[kind] if kind == "inf" else x is not None
                self.v[p] = [x if on else getattr(s, p).value, on]
            else:
                self.v[p] = [x, True]

    def set(self, p, x):
        kind = PAR[p][0]
        if kind in OFF and (x is None or x == INF):
            self.v[p][1] = False
        else:
            self.v[p] = [x, True]

    def read(self, p):
        kind, (x, on) = PAR[p][0], self.v[p]
        if not on:
            return OFF[kind]
        return x * math.pi if kind == "angle" else x


DEFAULTS = dict(n=0, length=25.0, width=1.0, thickness=1.0, size=50.0, theta=1.0, shear=1.0, tensile=INF, seed=0,
                periodic=True, threshold=None, packing=1.0, itermax=1000, tol=1e-6, lmin=None, lmax=None, coupling=1.0,
                interp_size=None, verbose=True)


def actions(p, short=False):
    kind, (a, b) = PAR[p]
    acts = [("set", p, a), ("call", p, b), ("edit", p, a)]
    if not short:
        acts += [("set", p, b)]
    if kind in OFF:
        acts += [("set", p, OFF[kind]), ("switch", p, True), ("switch", p, False)]
        if not short and kind == "inf":
            acts += [("call", p, np.float64(np.inf))]
    return acts


def act(s, m, a):
    op, p, x = a
    if op == "set":
        s[p] = x
        m.set(p, x)
    elif op == "call":
        s(**{p: x})
        m.set(p, x)
    elif op == "edit":
        if not m.v[p][1]:
            return False
        getattr(s, p).value = x
        m.v[p][0] = x
    elif op == "switch":
        getattr(s, p).switch.value = x
        m.v[p][1] = x
    elif op == "both":  # one call that sets two parameters
        s(**dict([p, x]))
        m.set(*p), m.set(*x)
    return True


def compare(s, m, out, where):
    got = dict(**s)
    if sorted(got) != sorted(NAMES):
        out.fail("names", "%s: settings unpack to %s" % (where, sorted(got)))
        return False
    for p in NAMES:
        want, x = m.read(p), s[p]
        kind = PAR[p][0]
        if not (same(x, want) and same(got[p], want)):
            out.fail("value", "%s: %s reads %r by name and %r unpacked, last given %r" % (where, p, x, got[p], want))
            return False
        if kind == "int" and not (isinstance(x, (int, np.integer)) and isinstance(got[p], (int, np.integer))):
            out.fail("int", "%s: %s is %r, not an integer" % (where, p, x))
            return False
        if kind in OFF and bool(getattr(s, p).disabled) != (not m.v[p][1]):
            out.fail("disabled", "%s: the field of %s is disabled=%r while its switch is %s" % (
                where, p, getattr(s, p).disabled, m.v[p][1]))
            return False
        if kind in OFF and bool(getattr(s, p).switch.value) != m.v[p][1]:
            out.fail("switch", "%s: the switch of %s shows %r" % (where, p, getattr(s, p).switch.value))
            return False
    return True


def run(out, given, word):
    from fibermat.widgets import Settings
    s = Settings(**given)
    m = Model(s, given)
    ok = compare(s, m, out, "after Settings(%s)" % given)
    for k, a in enumerate(word):
        if not ok:
            return None
        act(s, m, a)
        ok = compare(s, m, out, "after %s then %s" % (given, list(word[max(0, k - 5):k + 1])))
    out.states += len(word) + 1
    out.trans += len(word)
    out.traces += 1
    return m if ok else None


def words_visit(st):
    """all histories of a given length that start with a given action"""
    out = Out()
    p, first, depth = st
    acts = actions(p)
    seen = set()
    for rest in itertools.product(acts, repeat=depth - 1):
        m = run(out, {}, (first,) + rest)
        if m is None:
            return out
        seen.add(repr(m.v[p]))
    out.outcome = tuple(sorted(seen))
    out.note = "%d final states of %s" % (len(seen), p)
    return out


def ctor_visit(st):
    out = Out()
    for given in st:
        m = run(out, dict(given), [(("switch", p, x)) for p, _ in given if PAR[p][0] in OFF for x in (True, False, True)])
        if m is None:
            return out
    out.outcome = repr(st)
    return out


def debruijn(k, n):
    """cyclic sequence over range(k) with every word of length n exactly once"""
    a, seq = [0] * k * n, []

    def db(t, p):
        if t > n:
            if n % p == 0:
                seq.extend(a[1:p + 1])
        else:
            a[t] = a[t - p]
            db(t + 1, p)
            for j in range(a[t - p] + 1, k):
                a[t] = j
                db(t + 1, t)
    db(1, 1)
    return seq


_TOUR = {}


def tour(order, names):
    """one history in which every word of `order` actions over the parameters occurs"""
    if (order, names) not in _TOUR:
        A = [a for p in names for a in actions(p, len(names) > 1)]
        if len(names) > 1:
            A += [("both", ("shear", INF), ("lmin", 0.3)), ("both", ("n", 7), ("seed", None))]
        seq = debruijn(len(A), order)
        _TOUR[order, names] = (A, seq + seq[:order - 1])
    return _TOUR[order, names]


def tour_visit(st):
    from fibermat.widgets import Settings
    out = Out()
    order, names, a, b = st
    A, seq = tour(order, names)
    other = Settings()
    s = Settings()
    m = Model(s, {})
    m0 = Model(other, {})
    ok = compare(s, m, out, "new settings")
    for k in range(a, min(b + order - 1, len(seq))):
        if not ok:
            return out
        act(s, m, A[seq[k]])
        ok = compare(s, m, out, "at step %d, after ... %s" % (k, [A[c] for c in seq[max(a, k - 4):k + 1]]))
    if ok:
        compare(other, m0, out, "another settings object")
        if [id(w) for w in s] == [id(w) for w in other] or len(list(s)) != len(NAMES):
            out.fail("display", "the displayed widgets of two settings are the same")
    out.states = out.trans = min(b + order - 1, len(seq)) - a
    out.traces = 1
    out.outcome = repr(sorted(m.v.items()))
    out.note = "steps %d..%d" % (a, b)
    return out


def spaces(tier):
    th = tier == "thorough"
    init = [(p, a, 4 if th else 3) for p in NAMES for a in actions(p)]
    tours = []
    alln = tuple(NAMES)
    for order, names in [(3, alln)] + [(6 if th else 5, (p,)) for p in NAMES] + (
            [(4, pq) for pq in itertools.combinations(NAMES, 2)] if th else []):
        n = len(tour(order, names)[1])
        tours += [(order, names, a, a + 20000) for a in range(0, n, 20000)]
    dep = [(p, x) for p in NAMES for x in PAR[p][1] + ((OFF[PAR[p][0]],) if PAR[p][0] in OFF else ())]
    ct = [((d,),) for d in dep] + [((d, e),) for d, e in itertools.combinations(dep, 2) if d[0] != e[0]]
    if not th:
        ct = ct[:len(dep)] + ct[len(dep)::3]
    ct = [sum(ct[i:i + 8], ()) for i in range(0, len(ct), 8)]
    return [
        Space("tours", tours, tour_visit, "histories in which every word of 3 actions over all parameters occurs, and every word of %d "
              "actions over one parameter%s" % (6 if th else 5, ", and of 4 over two" if th else "")),
        Space("words", init, words_visit, "every history of %d actions of one parameter on a new object" % (4 if th else 3)),
        Space("constructor", ct, ctor_visit, "departures of the constructor from its defaults, followed by switch cycles"),
    ]
