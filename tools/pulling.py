"""Print the `known:` lines of X02 for the tree in /repo (used by hand to write KNOWN_FINDINGS.txt, never by a check)."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import env, engine
env.load()
from mc.props import x02
env.VERIF = "/nonexistent"
lines = {}
for tier in ("quick", "thorough"):
    sp = x02.spaces(tier)
    import multiprocessing as mp

    def one(s, sp=sp):
        return s, sp[0].visit(s).fails
    with mp.get_context("fork").Pool(8) as pool:
        for s, fails in pool.map(one, sp[0].init, chunksize=8):
            for key, msg in fails:
                lines[engine.slug("%s|%s|%s" % (sp[0].name, sp[0].label(s), key))] = msg
for k in sorted(lines):
    print("known: property=X02 key=%s %s" % (k, lines[k]))
