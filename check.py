#!/usr/bin/env python3
"""check.py ID [--root DIR] [--thorough]: decide one property of protosym from its source."""
import argparse
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)

from pstatic.ctx import Ctx  # noqa: E402
from pstatic.engine import AnalysisError, Limit, Program  # noqa: E402
from pstatic import rules  # noqa: E402


def run(prop, root, tier="quick", out=None, selftest=True):
    spec = rules.CHECKS[prop]
    try:
        prog = Program(root)
        ctx = Ctx(prop, prog, tier)
        for f in spec["rules"]:
            try:
                f(ctx)
            except Limit as e:
                ctx.und(f.__name__, "budget", "", str(e))
            except AnalysisError:
                raise
            except Exception as e:       # a construct the rule cannot handle: never an alarm
                tb = traceback.extract_tb(e.__traceback__)[-1]
                ctx.und(f.__name__, "internal", f"{tb.filename}:{tb.lineno}", f"{type(e).__name__}: {e}")
        if len(ctx.obs) < spec.get("min", 1) and all(o[0] == "ok" for o in ctx.obs):
            raise AnalysisError(f"only {len(ctx.obs)} obligations found, at least {spec['min']} were confirmed by hand")
    except AnalysisError as e:
        print(f"ANALYSIS-ERROR property={prop}: {e}")
        return 2
    return ctx.finish(explanation=spec["explanation"], assumptions=spec.get("assumptions", ()), replay_dir=out,
                      seed=int(os.environ.get("VERIF_SEED", "1") or 1))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--root", default="/repo")
    ap.add_argument("--out")
    ap.add_argument("--thorough", action="store_true")
    a = ap.parse_args()
    tier = "thorough" if a.thorough or os.environ.get("VERIF_TIER") == "thorough" else "quick"
    props = sorted(rules.CHECKS) if a.prop == "all" else [a.prop]
    worst = 0
    for p in props:
        rc = run(p, a.root, tier, a.out)
        worst = max(worst, rc)
    return worst


if __name__ == "__main__":
    try:
        sys.exit(main())
    except Exception:
        traceback.print_exc()
        print("ANALYSIS-ERROR internal")
        sys.exit(2)
