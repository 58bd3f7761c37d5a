"""The scenarios of one check with or without run-time type checking: python -m mc.typed CHECK TIER OUT (FLEE_TYPE_CHECK decides)."""
import importlib
import json
import os
import sys
import traceback

from mc import env, run


def main():
    prop, tier, out = sys.argv[1:4]
    known = [k for k in json.load(open(os.path.join(env.ROOT, "known_findings.json")))["findings"] if k["property"] == prop and k.get("status") == "open"]
    env.setup()
    ctx = run.Ctx(prop, tier)
    ctx.max_violations = 10 ** 9
    ctx.known = {k["key"] for k in known}
    env.quiet()
    try:
        try:
            importlib.import_module("checks." + prop.lower()).check(ctx)
        except (Exception, SystemExit) as ex:
            ctx.report("check", "%s: %s" % (type(ex).__name__, ex), None, traceback.format_exc())
    finally:
        env.loud()
        env.teardown()
    with open(out, "w") as f:
        json.dump(dict(violations=[v for v in ctx.violations if v["key"] not in ctx.known], states=ctx.nstates + len(ctx.states), transitions=ctx.transitions,
                       traces=ctx.traces, evaluations=ctx.evaluations), f, default=repr)


if __name__ == "__main__":
    main()
