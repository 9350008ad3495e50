#!/usr/bin/env python3
"""Decide one property of /repo from its source:  check.py P01"""
import sys, os, importlib
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
from sa.load import Program
from sa import report

def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2: tier = sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    mod = importlib.import_module("rules." + prop.lower())
    prog = Program(report.REPO)
    ctx = report.Ctx(prop, prog, tier, seed)
    ctx.section(mod.run, ctx)
    return report.finish(ctx, mod.TECHNIQUE, mod.EXPLANATION)

if __name__ == "__main__":
    sys.exit(main())
