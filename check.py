#!/usr/bin/env python3
"""check.py <ID>: decide one property of /repo's current source."""
import importlib
import os
import sys
import traceback

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, ROOT)
sys.setrecursionlimit(20000)
sys.dont_write_bytecode = True

from sa.model import Model            # noqa: E402
from sa.report import Ctx, AnchorError, finish   # noqa: E402
import rules                          # noqa: E402


def run(pid, tier="quick", model=None):
    mod = importlib.import_module("rules." + rules.TABLE[pid])
    m = model or Model()
    ctx = Ctx(pid, m, tier, int(os.environ.get("VERIF_SEED", "1") or 1))
    try:
        mod.CHECKS[pid](ctx)
    except AnchorError:
        raise
    except Exception as e:      # noqa
        # what has been decided so far stands; the rest is not decided
        traceback.print_exc()
        ctx.undecided("analysis", "the remaining rules",
                      "internal error: %s" % (str(e) or type(e).__name__))
    if not ctx.oks and not ctx.bad:
        raise AnchorError("no obligation was generated")
    return finish(ctx, ROOT, mod.EXPLAIN[pid], mod.RULES.get(pid, []))


def main():
    args = sys.argv[1:]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in args:
        args.remove("--thorough")
        tier = "thorough"
    if not args:
        args = sorted(rules.TABLE)
    rc = 0
    m = Model()
    for pid in args:
        try:
            r = run(pid, tier, m)
        except AnchorError as e:
            print("ANALYSIS BROKEN: %s: %s" % (pid, e))
            r = 2
        except Exception:       # noqa
            traceback.print_exc()
            print("ANALYSIS BROKEN: %s: internal error" % pid)
            r = 3
        rc = max(rc, r)
    return rc


if __name__ == "__main__":
    sys.exit(main())
