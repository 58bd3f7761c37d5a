"""The scenarios of the other checks (every history, input and random outcome of their bounds) once more with run-time type
checking: a scenario in which the code behaves as its reference model without type checking must do so with it.  Scenarios that
fail either way are left to their own property."""
import json
import os
import subprocess
import sys
import time

from mc import env

QUICK = ["C02", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C19", "C20", "C21", "C22", "C24", "C25",
         "C26", "C29", "C31", "C33", "C35"]
THOROUGH = ["C01", "C03", "C18", "C23", "C27", "C28", "C30", "C32", "C34"]


def scenarios(prop, mode, d):
    out = os.path.join(d, "%s-%s.json" % (prop, mode))
    e = {k: v for k, v in os.environ.items() if k != "FLEE_TYPE_CHECK"}
    if mode != "off":
        e["FLEE_TYPE_CHECK"] = mode
    e["PYTHONPATH"] = env.ROOT
    e.pop("VERIF_STOP", None)
    e["VERIF_CASE_LIMIT"] = "150"
    p = subprocess.run([sys.executable, "-W", "ignore", "-m", "mc.typed", prop, "quick", out], env=e, cwd=env.ROOT, capture_output=True, text=True)
    if not os.path.exists(out):
        return None, p.stderr
    return json.load(open(out)), ""


def one(ctx, prop, d, mode):
    on, err = scenarios(prop, mode, d)
    bad = {} if on is None else {v["scenario"]: v for v in on["violations"]}
    if on is not None:
        ctx.nstates += on["states"]
        ctx.transitions += on["transitions"]
        ctx.traces += on["traces"]
        ctx.evaluations += on["evaluations"]
    if on is not None and not bad:
        return
    off, _ = scenarios(prop, "off", d)
    if off is None:
        return
    if on is None:
        ctx.fail("with type checking (FLEE_TYPE_CHECK=%s) the scenarios of %s do not run: %s" % (mode, prop, err[-600:]))
    known = {v["scenario"] for v in off["violations"]}
    new = [v for s, v in sorted(bad.items()) if s not in known]
    if new:
        ctx.fail("with type checking (FLEE_TYPE_CHECK=%s) %d of the scenarios of %s go wrong that are right without it, e.g. %s: %s" % (
            mode, len(new), prop, new[0]["scenario"], new[0]["message"][:700]))


def check(ctx):
    d = os.path.join(os.getcwd(), "typed")
    os.makedirs(d, exist_ok=True)
    props = QUICK + (THOROUGH if ctx.thorough else [])
    for p in props:
        if not ctx.thorough and time.time() - ctx.t0 > 550 or ctx.thorough and ctx.violations:
            ctx.sample("the scenarios of %s were not run" % p)
            continue
        ctx.case("scenarios of %s" % p, one, ctx, p, d, "True" if p in ("C04", "C12") else "true")
    ctx.bounds = dict(batteries=len(props), scenarios="those of the quick tier of %s" % ", ".join(props))
