"""Runs one property's check: python -m mc.run C01 [--tier quick|thorough] [--replay FILE]"""
import argparse
import hashlib
import importlib
import json
import os
import signal
import sys
import time
import traceback

from mc import env

ROOT = env.ROOT


class Violation(Exception):
    def __init__(self, msg, key=None):
        super().__init__(msg)
        self.key = key


STOP_FIRST = bool(os.environ.get("VERIF_STOP"))  # stop at the first violation (used when planting bugs)
CASE_LIMIT = float(os.environ.get("VERIF_CASE_LIMIT", "600"))


class Hang(Exception):
    pass


def _hang(sig, frame):
    raise Hang("no result within %g s" % CASE_LIMIT)


class Ctx:
    """Collects coverage and violations of one check run."""

    def __init__(self, prop, tier, only=None):
        self.prop, self.tier, self.only = prop, tier, only
        self.thorough = tier == "thorough"
        self.states = set()
        self.nstates = 0
        self.transitions = 0
        self.traces = 0
        self.evaluations = 0
        self.samples = []
        self.bounds = {}
        self.violations = []
        self.assumptions = []
        self.max_violations = 1 if STOP_FIRST else 25
        self.known = set()
        self.t0 = time.time()

    # coverage ---------------------------------------------------------------
    def state(self, key):
        """Record a distinct state (hashed); returns True if new."""
        h = hashlib.blake2b(repr(key).encode(), digest_size=8).digest()
        if h in self.states:
            return False
        self.states.add(h)
        return True

    def sample(self, s):
        if len(self.samples) < 6:
            self.samples.append(s if isinstance(s, (str, dict, list)) else repr(s))

    def done(self):
        return len([v for v in self.violations if v["key"] not in self.known]) >= self.max_violations

    # scenario ---------------------------------------------------------------
    def case(self, name, fn, *a, **k):
        """Run one scenario of the exhaustive enumeration. Exceptions are violations."""
        if self.only is not None and name != self.only and not name.startswith("batch "):
            return
        if self.done():
            return
        from mc.chance import HarnessError
        self.evaluations += 1
        batch = name.startswith("batch ")
        if not batch:
            signal.signal(signal.SIGALRM, _hang)
            signal.setitimer(signal.ITIMER_REAL, CASE_LIMIT)
        try:
            fn(*a, **k)
        except Violation as v:
            self.report(name, str(v), v.key)
        except HarnessError as ex:
            self.report(name, "the harness could not follow the code: %r" % ex, None,
                        traceback.format_exc())
        except (Exception, SystemExit) as ex:
            self.report(name, "the code failed with %s: %s" % (type(ex).__name__, ex), None,
                        traceback.format_exc())
        finally:
            if not batch:
                signal.setitimer(signal.ITIMER_REAL, 0)

    def cases(self, items, procs=None):
        """items: [(name, fn, *args)] run as scenarios in forked worker processes; fn(ctx, *args)."""
        import multiprocessing as mp
        if self.only is not None and not any(x[0].startswith("batch ") for x in items):
            items = [x for x in items if x[0] == self.only]
        procs = procs or min(8, os.cpu_count() or 1)
        if len(items) < 2 or procs < 2:
            for x in items:
                self.case(x[0], x[1], self, *x[2:])
            return
        global _JOBS
        _JOBS = (self, items)
        with mp.get_context("fork").Pool(procs) as pool:
            for r in pool.imap_unordered(_job, range(len(items)), chunksize=1):
                self.states |= r["states"]
                self.transitions += r["transitions"]
                self.nstates += r["nstates"]
                self.traces += r["traces"]
                self.evaluations += r["evaluations"]
                for s in r["samples"]:
                    self.sample(s)
                self.violations += r["violations"]
                if STOP_FIRST and self.done():
                    break
        self.violations.sort(key=lambda v: v["scenario"])

    def batches(self, fn, parts):
        """fn(ctx, part, parts) runs ctx.case(...) for its share; shares run in worker processes."""
        self.cases([("batch %d" % i, lambda c, i=i: fn(c, i, parts)) for i in range(parts)])
        self.evaluations -= parts

    def report(self, name, msg, key=None, tb=None):
        if key in self.known and any(v["key"] == key for v in self.violations):
            return
        self.violations.append(dict(property=self.prop, scenario=name, message=msg, key=key or name,
                                    traceback=tb))

    def fail(self, msg, key=None):
        raise Violation(msg, key)

    def expect(self, cond, msg, *a):
        if not cond:
            raise Violation(msg % a if a else msg)

    def eq(self, got, want, what=""):
        if got != want:
            raise Violation("%s: got %r, expected %r" % (what, got, want))

    def close(self, got, want, what="", tol=1e-9):
        if not abs(got - want) <= tol * max(1.0, abs(want)):
            raise Violation("%s: got %r, expected %r" % (what, got, want))

    def same_dist(self, got, want, what="", tol=1e-9):
        keys = set(got) | set(want)
        for k in sorted(keys, key=repr):
            if abs(got.get(k, 0.0) - want.get(k, 0.0)) > tol:
                raise Violation("%s: outcome %r has probability %r, expected %r; all outcomes: got %r, expected %r"
                                % (what, k, got.get(k, 0.0), want.get(k, 0.0), got, want))


_JOBS = None


def _job(i):
    parent, items = _JOBS
    c = Ctx(parent.prop, parent.tier, parent.only)
    c.known = parent.known
    d = os.path.join(env.SCRATCH, "w%d" % os.getpid())
    os.makedirs(d, exist_ok=True)
    os.chdir(d)
    x = items[i]
    c.case(x[0], x[1], c, *x[2:])
    return dict(states=c.states, nstates=c.nstates, transitions=c.transitions, traces=c.traces, evaluations=c.evaluations,
                samples=c.samples, violations=[dict(v, traceback=v["traceback"]) for v in c.violations])


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    a = ap.parse_args()
    only = None
    if a.replay:
        only = json.load(open(a.replay))["scenario"]
    os.makedirs(os.path.join(ROOT, "evidence", "replay"), exist_ok=True)
    known = [k for k in json.load(open(os.path.join(ROOT, "known_findings.json")))["findings"]
             if k["property"] == a.prop and k.get("status") == "open"]
    t0 = time.time()
    env.setup()
    ctx = Ctx(a.prop, a.tier, only)
    ctx.known = {k["key"] for k in known}
    env.quiet()
    try:
        try:
            mod = importlib.import_module("checks." + a.prop.lower())
            mod.check(ctx)
        except Exception as ex:
            ctx.report("check", "check could not run: %s: %s" % (type(ex).__name__, ex), None,
                       traceback.format_exc())
        except SystemExit as ex:
            ctx.report("check", "the code exited", None, traceback.format_exc())
    finally:
        env.loud()
        env.teardown()
    wall = time.time() - t0
    rc = 0
    seen_known = set()
    new = []
    for v in ctx.violations:
        hit = [k for k in known if k["key"] == v["key"]]
        if hit:
            seen_known.add(hit[0]["key"])
        else:
            new.append(v)
    for k in known:
        if k["key"] in seen_known:
            print("KNOWN-FINDING: property=%s %s" % (a.prop, k["what"]))
    for i, v in enumerate(new[:10]):
        path = os.path.join("evidence", "replay", "%s-%d.json" % (a.prop, i))
        with open(os.path.join(ROOT, path), "w") as f:
            json.dump(v, f, indent=1, default=repr)
        print("VIOLATION property=%s replay=%s" % (a.prop, path))
        print("  scenario %s: %s" % (v["scenario"], v["message"][:1500]))
        rc = 1
    cov = dict(states=ctx.nstates + len(ctx.states), transitions=ctx.transitions,
               traces_validated_against_impl=ctx.traces, evaluations=ctx.evaluations,
               samples=ctx.samples or ["(none)"], bounds=ctx.bounds, exhaustive=not new,
               rule=getattr(sys.modules.get("checks." + a.prop.lower()), "__doc__", "") or "")
    ev = dict(property=a.prop, tier=a.tier, seed=int(os.environ.get("VERIF_SEED", "1") or 1),
              level="model_checking", coverage=cov, assumptions=ctx.assumptions, wall_s=round(wall, 3),
              violations=len(new))
    with open(os.path.join(ROOT, "evidence", "%s.json" % a.prop), "w") as f:
        json.dump(ev, f, indent=1, default=repr)
    print("%s %s: %d scenarios, %d states, %d transitions, %d traces, %.1fs, %d violations" % (
        a.prop, a.tier, ctx.evaluations, cov["states"], ctx.transitions, ctx.traces, wall, len(new)))
    sys.exit(rc)


if __name__ == "__main__":
    main()
