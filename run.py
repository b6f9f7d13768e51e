#!/usr/bin/env python3
"""python3 run.py <property> [quick|thorough]: decides one property on /repo's working tree."""
import os, sys, traceback
import vlib


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    import checks
    ctx = vlib.Ctx(prop, tier, seed)
    try:
        checks.CHECKS[prop](ctx)
        if ctx.traces == 0 and not ctx.violations:
            raise vlib.CheckError("nothing was validated against the implementation")
        ctx.evidence("model_checking")
    except vlib.CheckError as e:
        print("CHECK ERROR:", e)
        if not ctx.violations:
            ctx.cleanup()
            return 2
        ctx.evidence("model_checking")
    except Exception:
        traceback.print_exc()
        if not ctx.violations:
            ctx.cleanup()
            return 2
    for k in ctx.known:
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    for p, _ in ctx.violations:
        print("VIOLATION property=%s replay=%s" % (prop, p))
    if not os.environ.get("VERIF_KEEP"):
        ctx.cleanup()
    else:
        print("kept", ctx.dir)
    print("%s %s: %s (states=%d transitions=%d traces=%d steps=%d, %.1fs)" % (prop, tier,
          "VIOLATED" if ctx.violations else "held", ctx.states, ctx.transitions, ctx.traces, ctx.steps, __import__("time").time() - ctx.t0))
    return 1 if ctx.violations else 0


if __name__ == "__main__":
    sys.exit(main())
