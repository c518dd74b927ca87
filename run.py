#!/usr/bin/env python3
"""run.py <property> [--tier quick|thorough]

Decide one property from /repo's current sources.  Exit 0: held.  Exit 1 and a
VIOLATION line: broken.  Exit 2: the analysis could not give an answer.
"""
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "lib"))
sys.dont_write_bytecode = True


def main():
    t0 = time.time()
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    if tier not in ("quick", "thorough"):
        tier = "quick"
    if len(args) != 1:
        print(__doc__, file=sys.stderr)
        return 2
    prop = args[0]
    import ir
    import report
    import registry
    if prop not in registry.CHECKS:
        print("unknown property %s" % prop, file=sys.stderr)
        return 2
    spec = registry.CHECKS[prop]
    res = report.Result()
    res.stop_on = prop
    try:
        prog = ir.load()
        res.cov["translation_units"] = len(prog.tus)
        res.cov["functions_in_program"] = sum(len(t.functions) for t in prog.tus)
        spec["run"](prog, res, tier)
    except report.Stop:
        pass
    except ir.AnalysisError as e:
        if any(v.prop == prop for v in res.violations):
            return done(report, registry, prop, tier, spec, res, t0)
        print("%s: analysis broken: %s" % (prop, e), file=sys.stderr)
        return 2
    except RecursionError:
        traceback.print_exc()
        return 2
    return done(report, registry, prop, tier, spec, res, t0)


def done(report, registry, prop, tier, spec, res, t0):
    res.rules = spec["rules"]
    res.assumptions = spec.get("assumptions", []) + registry.COMMON
    return report.finish(prop, tier, spec["level"], res, t0, spec["technique"],
                         spec["explanation"])


if __name__ == "__main__":
    sys.exit(main())
