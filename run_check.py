#!/usr/bin/env python3
"""Runs the check of one property:  run_check.py C01 [--tier thorough]
[--seed N] [--replay FILE] [--scale X]"""
import argparse
import importlib
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
os.chdir(os.path.dirname(os.path.abspath(__file__)))
from pbt import engine, toolchain


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--selftest", action="store_true",
                    help="check that the tools work and lacc builds")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--replay")
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--jobs", type=int)
    ap.add_argument("--survey", type=int, help="development: run N cases, group failures")
    ap.add_argument("--skips", help="development: treat skips matching this as failures")
    ap.add_argument("--first", type=int, default=0)
    ap.add_argument("--budget", type=float, default=20)
    a = ap.parse_args()
    if a.tier not in ("quick", "thorough"):
        a.tier = "quick"
    if a.selftest:
        for f in sorted(os.listdir("checks")):
            if f.startswith("c") and f.endswith(".py"):
                importlib.import_module("checks." + f[:-3])
        ctx = toolchain.Build(["lacc"])
        for tool in (["gcc", "--version"], ["clang", "--version"], ["ld", "--version"],
                     ["as", "--version"], ["objdump", "--version"], ["readelf", "--version"]):
            r = toolchain.run(tool)
            if r.code:
                print("%s does not work" % tool[0])
                return 1
        ctx.cleanup()
        print("ok")
        return 0
    mod = importlib.import_module("checks." + a.property.lower())
    prop = mod.P()
    ctx = toolchain.Build(prop.variants)
    try:
        if a.survey and a.skips:
            import re
            inner = prop.run_batch

            def outer(ctx, cases):
                out = inner(ctx, cases)
                if isinstance(out, engine.Fail):
                    return [engine.OK] * len(cases)
                out = [engine.Fail(o) if isinstance(o, engine.Skip) and re.search(a.skips, o)
                       else engine.OK for o in out or []]
                return out
            prop.run_batch = outer
            prop.batch = 1
        if a.survey:
            return engine.survey(prop, ctx, a.seed, a.survey, a.first, a.budget, a.jobs or 8)
        return engine.main(prop, ctx, a.tier, a.seed, a.replay, a.scale, a.jobs)
    finally:
        ctx.cleanup()


if __name__ == "__main__":
    sys.exit(main())
