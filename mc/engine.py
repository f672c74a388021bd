"""Explicit-state explorer.

A check is a list of Spaces.  A Space is a finite transition system: `init` states, and for every
state `visit(state)` which runs the *real* library on the behaviour the state stands for, compares it with
the oracle, and returns an Out:

  fails   [(key, message)]   property failures observed in this state (or on its outgoing transitions)
  succ    [(action, state, canon)]  successors; `canon` (default: the state itself) is the key used to merge
  traces  executions of the implementation compared with the reference / oracle
  states  extra configurations decided inside this visit (e.g. all fiber pairs of one mat)
  trans   extra transitions decided inside this visit
  outcome hashable digest of what was observed (to show that the exploration is not vacuous)

The explorer does a breadth-first search with deduplication, level by level, on all cores.  No sampling: a run
visits every state reachable within the space's own bound, or reports how far it got.
"""
import collections
import json
import multiprocessing as mp
import os
import pickle
import re
import signal
import sys
import time
import traceback

from . import env

TIMEOUT = 240  # seconds for one state; the slowest takes < 5 s
FAILFAST = bool(os.environ.get("VERIF_FAILFAST"))  # stop at the first violation


class Out:
    __slots__ = ("fails", "succ", "traces", "states", "trans", "outcome", "note")

    def __init__(self):
        self.fails, self.succ = [], []
        self.traces = self.states = self.trans = 0
        self.outcome = None
        self.note = None

    def fail(self, key, msg):
        self.fails.append((str(key), str(msg)))


class Space:
    """name, initial states, visit function, optional bound description."""

    def __init__(self, name, init, visit, bound="", label=None):
        self.name, self.init, self.visit, self.bound = name, init, visit, bound
        self.label = label or default_label


def default_label(state):
    return json.dumps(state, default=repr, sort_keys=True) if not isinstance(state, str) else state


class Hang(Exception):
    pass


def _alarm(*_):
    raise Hang("no answer within %d s" % TIMEOUT)


_SPACES = None


def _visit(args):
    k, state = args
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(TIMEOUT)
    out = None
    try:
        out = _SPACES[k].visit(state)
    except Exception as e:  # the library raised, or returned something unusable, where it must work
        out = Out()
        last = traceback.extract_tb(e.__traceback__)[-4:]
        out.fail("exception", "%s: %s (%s)" % (type(e).__name__, str(e)[:300], " < ".join(
            "%s:%s:%d" % (os.path.basename(f.filename), f.name, f.lineno) for f in reversed(last))))
    finally:
        signal.alarm(0)
    return out


def _chunk(tasks):
    return [_visit(t) for t in tasks]


class Result:
    def __init__(self):
        self.spaces = []
        self.viol = []     # (space, state, key, msg)
        self.known = []
        self.samples = []


def known_findings(prop):
    path = os.path.join(env.VERIF, "KNOWN_FINDINGS.txt")
    keys = {}
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"known: property=(\S+) key=(\S+)\s*(.*)", line.strip())
            if m and m.group(1) == prop:
                keys[m.group(2)] = m.group(3)
    return keys


def slug(s):
    return re.sub(r"[^A-Za-z0-9_.,:|=+\-/\[\]()]", "_", str(s))


def explore(prop, spaces, nproc=None, progress=False):
    global _SPACES
    _SPACES = spaces
    nproc = nproc or min(8, os.cpu_count() or 1)
    known = known_findings(prop)
    res = Result()
    start = time.time()

    def enough():  # violations are reported in time even if much of the rest hangs
        return res.viol and (FAILFAST or time.time() - start > 240)
    sys.stdout.flush()
    ctx = mp.get_context("fork")
    with ctx.Pool(nproc) as pool:
        pids = {p.pid for p in pool._pool}
        for k, sp in enumerate(spaces):
            t0 = time.time()
            seen = set()
            frontier = []
            for s in sp.init:
                c = repr(s)
                if c not in seen:
                    seen.add(c)
                    frontier.append(s)
            st = collections.Counter(states=len(frontier))
            outcomes = set()
            depth = 0
            while frontier:
                n = len(frontier)
                step = max(1, min(32, n // (nproc * 4)))
                tasks = [[(k, s) for s in frontier[i:i + step]] for i in range(0, n, step)]
                new = []
                it = pool.imap(_chunk, tasks)
                pos = 0
                for ch in tasks:
                    outs = None
                    if enough():
                        pool.terminate()
                        res.spaces.append(dict(space=sp.name, bound=sp.bound, **st))
                        return res
                    while outs is None:
                        try:
                            outs = it.next(timeout=5)
                        except mp.TimeoutError:
                            if enough():
                                break
                            if {p.pid for p in pool._pool} != pids:  # a worker died and was replaced
                                pool.terminate()
                                res.viol.append((sp.name, ch[0][1], "crash",
                                                 "the interpreter died in this or a later state"))
                                res.spaces.append(dict(space=sp.name, bound=sp.bound, **st))
                                return res
                    for (_, s), out in zip(ch, outs or ()):
                        st["visited"] += 1
                        st["traces"] += out.traces
                        st["inner_states"] += out.states
                        st["inner_transitions"] += out.trans
                        if out.outcome is not None:
                            outcomes.add(out.outcome)
                        if len([1 for x in res.samples if x["space"] == sp.name]) < 2 and (
                                out.note is not None or pos == n - 1):
                            res.samples.append(dict(space=sp.name, state=sp.label(s)[:400],
                                                    observed=str(out.note)[:400]))
                        for key, msg in out.fails:
                            full = slug("%s|%s|%s" % (sp.name, sp.label(s), key))
                            if full in known:
                                res.known.append((full, known[full] or msg))
                            else:
                                res.viol.append((sp.name, s, key, msg))
                        for succ in out.succ:
                            a, s2 = succ[0], succ[1]
                            st["transitions"] += 1
                            c = repr(succ[2] if len(succ) > 2 else s2)
                            if c not in seen:
                                seen.add(c)
                                st["states"] += 1
                                new.append(s2)
                        pos += 1
                depth += 1
                frontier = new
                if len(res.viol) > 200:
                    frontier = []
            st["depth"] = depth - 1
            st["outcomes"] = len(outcomes)
            st["wall_s"] = round(time.time() - t0, 2)
            res.spaces.append(dict(space=sp.name, bound=sp.bound, **st))
            if progress:
                print("  %-28s %s" % (sp.name, {a: b for a, b in st.items()}), flush=True)
            if len(res.viol) > 200:
                break
    return res


def run_check(prop, module, tier, seed):
    t0 = time.time()
    spaces = module.spaces(tier)
    res = explore(prop, spaces, progress=True)
    evdir = os.path.join(env.VERIF, "evidence")
    os.makedirs(os.path.join(evdir, "replay"), exist_ok=True)
    tot = collections.Counter()
    for s in res.spaces:
        tot.update({a: b for a, b in s.items() if isinstance(b, int)})
    ev = dict(property=prop, tier=tier, seed=seed, level="model_checking",
              coverage=dict(states=tot["states"] + tot["inner_states"],
                            transitions=tot["transitions"] + tot["inner_transitions"],
                            traces_validated_against_impl=tot["traces"],
                            explorer_states=tot["states"], distinct_outcomes=tot["outcomes"],
                            spaces=res.spaces, samples=res.samples,
                            exhaustive=not res.viol),
              assumptions=list(getattr(module, "ASSUMPTIONS", [])),
              wall_s=round(time.time() - t0, 2), violations=len(res.viol))
    path = os.path.join(evdir, prop + ".json")
    with open(path + ".tmp", "w") as f:
        json.dump(ev, f, indent=1, default=repr)
    os.replace(path + ".tmp", path)
    seen_known = set()
    for key, what in res.known:
        if key not in seen_known:
            seen_known.add(key)
            print("KNOWN-FINDING: property=%s %s %s" % (prop, key, what))
    for i, (space, state, key, msg) in enumerate(res.viol[:5]):
        rp = os.path.join(evdir, "replay", "%s-%d.json" % (prop, i))
        with open(rp, "w") as f:
            json.dump(dict(property=prop, tier=tier, space=space, state=repr(state), key=key, message=msg,
                           pickle=pickle.dumps(state).hex()), f, indent=1)
        print("  %s %s: %s: %s" % (space, default_label(state)[:300], key, msg[:600]))
        print("VIOLATION property=%s replay=%s" % (prop, rp))
    print("%s %s: states=%d transitions=%d traces=%d outcomes=%d known=%d violations=%d %.1fs" % (
        prop, tier, ev["coverage"]["states"], ev["coverage"]["transitions"], tot["traces"],
        tot["outcomes"], len(seen_known), len(res.viol), time.time() - t0))
    return 1 if res.viol else 0


def replay(prop, module, path):
    rec = json.load(open(path))
    global _SPACES
    _SPACES = module.spaces(rec["tier"])
    k = [s.name for s in _SPACES].index(rec["space"])
    out = _visit((k, pickle.loads(bytes.fromhex(rec["pickle"]))))
    for key, msg in out.fails:
        print("%s: %s" % (key, msg))
    print("replayed %s: %d failure(s)" % (path, len(out.fails)))
    return 1 if out.fails else 0
