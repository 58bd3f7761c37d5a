"""Every interleaving of the file operations of the real coupling code (opening, every partial write, renaming, looking for,
opening and reading files) of two to four coupled simulations over one and two exchanges, with the death and restart of any
of them at any point: what each simulation inserts must be exactly what its partners announced for that exchange."""
import os
import shutil
import time
from mc import env, sched, world as w

NAMES = ["Alpha", "Beta"]


def number(side, inst, t, k):
    """What instance inst of a side has at coupled place k before exchange t."""
    return {"macro": 11, "micro": 24}[side] + 2 * inst + 3 * t + 13 * k


def expected(side, ninst, t, k, directions):
    """What the instances of a side should insert: the rounded mean over the partners that announce the place."""
    other = "micro" if side == "macro" else "macro"
    if "out" not in directions[other][k]:
        return 0
    return int(round(sum(number(other, i, t, k) for i in range(ninst)) / float(ninst)))


def coupled(C, side, inst, ninst, directory, directions):
    m = w.mods()
    e = w.build([dict(name=n, location_type="town") for n in NAMES] + [dict(name="Rest", location_type="town")], [("Alpha", "Rest", 100.0), ("Beta", "Rest", 100.0)])
    c = C.CouplingInterface(e, side, instance_index=inst, num_instances=ninst, coupling_type="file", outputdir=directory, log_exchange_data=False)
    for k, n in enumerate(NAMES):
        c.addCoupledLocation(w.loc(e, n), n, direction=directions[side][k])
    c.setCouplingChannel(outputchannel="out" if side == "micro" else "in", inputchannel="in" if side == "micro" else "out")
    return e, c


def run(ctx, what, parts, ninst, steps, directions, chunks, crash, restart):
    """parts: [(side, instance, role)]; role: both, write (announces only), read (uses what is announced only)."""
    import flee.coupling as C
    w.settings(move_rules=dict(conflict_movechance=0.0, default_movechance=0.0))
    base = os.path.join(env.SCRATCH, "fs%d" % os.getpid())

    def clean():
        if os.path.isdir(base):
            shutil.rmtree(base)
        os.makedirs(os.path.join(base, "file", "coupled"))

    def program(side, inst, role, out):
        def go():
            out.clear()
            e, c = coupled(C, side, inst, ninst, base, directions)
            for t in range(steps):
                for k, n in enumerate(NAMES):
                    w.loc(e, n).numAgents = number(side, inst, t, k)
                if role == "write":
                    c.writeOutputToFile(day=t)
                elif role == "read":
                    got = c.readInputFromFile(t=t)
                    out.append([got.get(n, 0) for n in NAMES])
                else:
                    e.agents = []
                    for l in e.locations:
                        l.numAgents = 0
                    for k, n in enumerate(NAMES):
                        e.insertAgents(w.loc(e, n), number(side, inst, t, k))
                    e.insertAgents(w.loc(e, "Rest"), 2)
                    c.Couple(time=t)
                    out.append([w.loc(e, n).numAgents for n in NAMES])
                    if w.loc(e, "Rest").numAgents != 2 or len(e.agents) != 2 + sum(out[-1]):
                        ctx.fail("%s: %s[%d] has %d agents elsewhere and %d in total after exchange %d" % (what, side, inst, w.loc(e, "Rest").numAgents, len(e.agents), t))
            return True
        return go
    outs = [[] for _ in parts]

    def make():
        for o in outs:
            o.clear()
        return [program(s, i, r, o) for (s, i, r), o in zip(parts, outs)]

    ends = set()

    def judge(r):
        story = " / ".join("%d:%s" % (i, [x for x in l if x[0] not in ("saw",)][-6:]) for i, l in enumerate(r.log))
        for (side, inst, role), o, st in zip(parts, outs, r.state):
            if st != "done" and not r.crashed:
                ctx.fail("%s: %s[%d] waits for ever; %s" % (what, side, inst, story))
            if st == "asleep" and r.crashed and restart and all(s != "dead" for s in r.state):
                ctx.fail("%s: %s[%d] waits for ever although every simulation was restarted; %s" % (what, side, inst, story))
            if role == "write":
                continue
            for t, got in enumerate(o):
                want = [expected(side, ninst, t, k, directions) if role == "read" or "in" in directions[side][k] else 0 for k in range(len(NAMES))]
                if got != want:
                    ctx.fail("%s: %s[%d] received %r in exchange %d, its partners announced %r; died %r; %s" % (what, side, inst, got, t, want, r.crashed, story))
        ends.add((tuple(r.state), tuple(r.crashed), repr(outs)))
    t0 = time.time()
    runs, states = sched.explore(make, base, clean, judge, chunks=chunks, crash=crash, restart=restart)
    if os.environ.get("VERIF_TIMES"):
        print("%6.1f s %7d executions %7d states: %s" % (time.time() - t0, runs, states, what), file=env.REAL_OUT)
    ctx.nstates += states
    ctx.transitions += runs
    ctx.traces += runs
    for x in ends:
        ctx.state((what, x))
    shutil.rmtree(base)


BOTH = dict(macro=["inout", "inout"], micro=["inout", "inout"])
OUTIN = dict(macro=["inout", "out"], micro=["inout", "in"])


def check(ctx):
    import importlib
    importlib.import_module("flee.coupling")  # once, before the workers are forked
    th = ctx.thorough
    items = []
    M0, m0, M1, m1 = ("macro", 0), ("micro", 0), ("macro", 1), ("micro", 1)

    def role(r, *ps):
        return [p + (r,) for p in ps]
    for nm, d in (("both ways", BOTH), ("one place one way", OUTIN)):
        for crash in ((), (0,), (1,)):
            for restart in (False, True) if crash else (False,):
                items.append(("two simulations, %s, one exchange, any partial write%s%s" % (nm, ", simulation %d may die" % crash if crash else "", " and restart" if restart else ""),
                              run, role("both", M0, m0), 1, 1, d, 0, crash, restart))
        items.append(("two simulations, %s, two exchanges" % nm, run, role("both", M0, m0), 1, 2, d, 0 if th else 3, (), False))
        items.append(("two simulations, %s, two exchanges, one may die" % nm, run, role("both", M0, m0), 1, 2, d, 3, (0, 1), False))
        items.append(("two simulations, %s, two exchanges, one may die and restart" % nm, run, role("both", M0, m0), 1, 2, d, 2, (0, 1), True))
        items.append(("two writers and one reader, %s, one exchange, any partial write" % nm, run, role("write", M0, M1) + role("read", m0), 2, 1, d, 0, (), False))
        items.append(("two writers and one reader, %s, one exchange, one may die" % nm, run, role("write", M0, M1) + role("read", m0), 2, 1, d, 3, (0, 1), False))
        items.append(("two writers and one reader, %s, two exchanges" % nm, run, role("write", M0, M1) + role("read", m0), 2, 2, d, 2, (), False))
        items.append(("one writer and two readers, %s" % nm, run, role("write", M0) + role("read", m0, m0), 1, 1, d, 0, (0,), True))
        if th:
            items.append(("two and two simulations, %s, one exchange" % nm, run, role("both", M0, M1, m0) + role("write", m1), 2, 1, d, 1, (), False))
            items.append(("two and two simulations, %s, one exchange, all read" % nm, run, role("both", M0, M1, m0, m1), 2, 1, d, 1, (), False))
            items.append(("two writers and one reader, %s, two exchanges, one may die and restart" % nm, run, role("write", M0, M1) + role("read", m0), 2, 2, d, 2, (0, 1), True))
    ctx.cases([(x[0], lambda c, x=x: x[1](c, x[0], *x[2:])) for x in items])
    ctx.bounds = dict(simulations=4 if th else 3, exchanges=2, deaths=1, partial_writes="every character / 1-3 pieces")
