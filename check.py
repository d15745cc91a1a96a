#!/usr/bin/env python3
"""check.py <property> [quick|thorough]: decide one property from /repo's current source."""
import os, sys, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(HERE, "engine"), os.path.join(HERE, "checks")]
sys.setrecursionlimit(20000)


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    import report, registry
    ctx = report.Ctx(prop, tier)
    import machine, time
    machine.DEADLINE[0] = time.time() + (820 if ctx.thorough else 600)
    import build
    try:
        registry.run(prop, ctx)
    except build.BuildError:
        raise
    except Exception as e:
        # an analysis that cannot cope with the code in front of it decides nothing
        traceback.print_exc()
        ctx.undec("the analysis stopped: %s: %s" % (type(e).__name__, str(e)[:300]))
    return ctx.finish()


if __name__ == "__main__":
    try:
        rc = main()
    except Exception:
        traceback.print_exc()
        rc = 3
    sys.stdout.flush()
    os._exit(rc)
