#!/usr/bin/env python3
"""run.py ID [--tier quick|thorough] [--replay FILE]: run (or replay a violation of) one check."""
import argparse
import importlib
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mc import env, engine  # noqa: E402


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    a = ap.parse_args()
    env.load()
    module = importlib.import_module("mc.props." + a.id.lower())
    if a.replay:
        return engine.replay(a.id, module, a.replay)
    return engine.run_check(a.id, module, a.tier, int(os.environ.get("VERIF_SEED", "1")))


if __name__ == "__main__":
    sys.exit(main())
