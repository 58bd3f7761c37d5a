"""Every history of a coupled model up to a depth (agents added, removed or moving between exchanges, every assignment of
directions, intervals, several instances): the saved exchange logs, read as text and through the reader, against the messages
of each exchange; and the combined output of every small set of instance outputs against exact means."""
import csv
import os
import shutil
import threading
import time
from fractions import Fraction as Fr
from itertools import permutations, product
from mc import env, world as w

NAMES = ["Alpha", "Beta"]
DIRS = [None, "in", "out", "inout"]
OPS = {
    "-": lambda e: None,
    "add 2 at Alpha": lambda e: e.insertAgents(w.loc(e, "Alpha"), 2),
    "add at Beta": lambda e: e.insertAgents(w.loc(e, "Beta"), 1),
    "add at Rest": lambda e: e.insertAgents(w.loc(e, "Rest"), 1),
    "clear Alpha": lambda e: e.clearLocationsFromAgents(["Alpha"]),
    "step": lambda e: e.evolve(),
}


def fresh(kind):
    base = os.path.join(env.SCRATCH, "co%d" % os.getpid())
    if os.path.isdir(base):
        shutil.rmtree(base)
    for d in ("coupled", "log_exchange_data", "micro", "macro"):
        os.makedirs(os.path.join(base, kind, d))
    return base


def rows(fn):
    with open(fn, newline="") as f:
        return list(csv.reader(f))


def count(e, n):
    return sum(1 for a in e.agents if w.place(a) == ("loc", n))


def logs(ctx, dirs, alias, interval, log, ninst, side, steps, first):
    import flee.coupling as C
    w.settings(move_rules=dict(conflict_movechance=1.0, default_movechance=0.0, camp_movechance=0.0, max_move_speed=360.0))
    locs = [dict(name="Alpha", location_type="conflict_zone"), dict(name="Beta", location_type="town"), dict(name="Rest", location_type="town")]
    links = [("Alpha", "Beta", 100.0, {"oneway": True}), ("Rest", "Beta", 100.0, {"oneway": True})]
    real = time.sleep
    time.sleep = lambda s: None
    try:
        for hist in product(OPS, repeat=steps - 1):
            hist = (first,) + hist
            what = "%s, directions %r named %r, interval %d, %d instances, operations %r" % (side, dirs, alias, interval, ninst, hist)
            base = fresh("file")
            ms, recs = [], []
            for i in range(ninst):
                e = w.build(locs, links)
                c = C.CouplingInterface(e, side, instance_index=i, num_instances=ninst, coupling_type="file", outputdir=base, log_exchange_data=log)
                for k, n in enumerate(NAMES):
                    if dirs[k]:
                        c.addCoupledLocation(w.loc(e, n), alias[k], direction=dirs[k], interval=interval)
                c.setCouplingChannel(outputchannel="mine", inputchannel="theirs")
                ms.append((e, c))
                recs.append([])
                e.insertAgents(w.loc(e, "Rest"), i)
            for t, op in enumerate(hist):
                for i in range(ninst):
                    with open(os.path.join(base, "file", "coupled", "theirs[%d].%d.csv" % (i, t)), "w") as f:
                        f.write("".join("%s,%d\n" % (alias[k], k + t) for k in range(2)))
                for i, (e, c) in enumerate(ms):
                    OPS[op](e)
                    if i:
                        e.insertAgents(w.loc(e, "Beta"), 1)
                    c.logNewAgents(t, 10 * t + i)
                    tot, there = len(e.agents), [count(e, n) for n in NAMES]
                    c.Couple(time=t)
                    if t % interval == 0:
                        recs[i].append((t, tot, there))
                        # what was announced
                        sent = rows(os.path.join(base, "file", "coupled", "mine[%d].%d.csv" % (i, t)))
                        want = [[alias[k], str(there[k])] for k in range(2) if dirs[k] and "out" in dirs[k]]
                        if sent != want:
                            ctx.fail("%s: day %d: instance %d announces %r, expected %r" % (what, t, i, sent, want))
                    ctx.transitions += 1
                    ctx.state((what, t, i, tot, tuple(there)))
            d = os.path.join(base, "file", "log_exchange_data")
            out = [k for k in range(2) if dirs[k] and "out" in dirs[k]]
            files = {"logTotalAgents": (["total_agents"], lambda i: [[t, n] for t, n, _ in recs[i]]),
                     "logLocationsNumAgents": ([alias[k] for k in out], lambda i: [[t] + [x[k] for k in out] for t, _, x in recs[i]]),
                     "logNewRefugees": (["new_refs"], lambda i: [[t, 10 * t + i] for t in range(steps)])}
            for e, c in ms:
                c.saveExchangeDataToFile()
            for name, (cols, data) in files.items():
                fns = ["%s_%s[%d].csv" % (name, side, i) for i in range(ninst)]
                if name != "logNewRefugees" and not log:
                    if any(os.path.exists(os.path.join(d, fn)) for fn in fns):
                        ctx.fail("%s: %s is written although exchange logging is off" % (what, fns[0]))
                    continue
                for i, fn in enumerate(fns):
                    want = [["day"] + cols] + [[str(x) for x in r] for r in data(i)]
                    got = rows(os.path.join(d, fn))
                    if got != want:
                        ctx.fail("%s: %s contains %r, expected %r" % (what, fn, got, want))
                if not cols:
                    continue
                days, res = ms[0][1].readCSVLogFiles(dirInputFiles=d, inputFileNames=fns, columnHeader=cols)
                if [float(x) for x in days] != [float(r[0]) for r in data(0)]:
                    ctx.fail("%s: days %r read from %s, expected %r" % (what, list(days), fns[0], [r[0] for r in data(0)]))
                if sorted(res) != sorted(cols):
                    ctx.fail("%s: columns %r read from %s, expected %r" % (what, list(res), fns[0], cols))
                for j, col in enumerate(cols):
                    got = [[float(x) for x in s] for s in res[col]]
                    want = [[float(r[j + 1]) for r in data(i)] for i in range(ninst)]
                    if got != want:
                        ctx.fail("%s: column %s of %s reads %r, expected %r" % (what, col, name, got, want))
            ctx.traces += 1
    finally:
        time.sleep = real


def whole(x):
    """Accepted roundings of an exact number to a whole one (a half may go either way)."""
    f = x.numerator // x.denominator
    return {f} if x - f < Fr(1, 2) else {f + 1} if x - f > Fr(1, 2) else {f, f + 1}


COLS = ["C sim", "C data", "C error", "Total error", "refugees in camps (UNHCR)", "total refugees (simulation)", "refugee_debt"]


def combined(ctx, side, kind, tabs, late=()):
    """tabs[i] = [(day, n)]: the output of instance i, all its columns derived from n.  The outputs of the instances in
    'late' arrive, in that order, one at each pause of the waiting instance."""
    import flee.coupling as C
    w.settings()
    base = fresh(kind)

    def row(i, day, n):
        return [n, 7 * n + day, (n + i) / 4.0, n * 0.125, 100 - n, n + 3 * i, i]
    data = []
    for i, tab in enumerate(tabs):
        data.append([(d, row(i, d, n)) for d, n in tab])

    def arrive(i):
        fn = os.path.join(base, kind, side, "out[%d].csv" % i)
        with open(fn + ".part", "w") as f:
            f.write(",".join(["Day"] + COLS) + "\n")
            for d, r in data[i]:
                f.write("%d,%s\n" % (d, ",".join(str(x) for x in r)))
        os.rename(fn + ".part", fn)
    waiting = list(late)
    lock = threading.Lock()

    def pause(s):
        with lock:
            if waiting:
                arrive(waiting.pop(0))
    for i in range(len(tabs)):
        if i not in late:
            arrive(i)
    what = "outputs %r" % (data,) + (", arriving late: %r" % (late,) if late else "")
    e = w.build([dict(name="Alpha", location_type="town")], [])
    real, inst = time.sleep, C.Instance
    time.sleep = pause
    C.Instance = lambda *a, **k: None
    guards = [threading.Timer(3.0 + k, pause, (0,)) for k in range(len(late))]      # should it wait in another way
    try:
        for g in guards:
            g.daemon = True
            g.start()
        for k in range(len(tabs)):
            c = C.CouplingInterface(e, side, instance_index=k, num_instances=len(tabs), coupling_type=kind, outputdir=base)
            c.sumOutputCSVFiles()
    finally:
        time.sleep, C.Instance = real, inst
        for g in guards:
            g.cancel()
    got = rows(os.path.join(base, kind, side, "out.csv"))
    if not got or got[0] != ["Day"] + COLS:
        ctx.fail("%s: the combined output starts with %r" % (what, got[:1]))
    days = sorted({d for t in data for d, _ in t})
    if [float(r[0]) for r in got[1:]] != days:
        ctx.fail("%s: the combined output has the days %r, expected %r" % (what, [r[0] for r in got[1:]], days))
    for r in got[1:]:
        here = [[Fr(x) for x in row_] for t in data for d, row_ in t if d == float(r[0])]
        for j, col in enumerate(COLS):
            m = sum(x[j] for x in here) / len(here)
            if "error" in col.lower():
                ok = abs(float(r[j + 1]) - float(m)) < 1e-9
            else:
                ok = float(r[j + 1]) in whole(m)
            if not ok:
                ctx.fail("%s: day %s: %s is %s, the mean over the instances is %s" % (what, r[0], col, r[j + 1], float(m)))
    for i in range(len(tabs)):
        if rows(os.path.join(base, kind, side, "out[%d].csv" % i))[1:] != [[str(d)] + [str(x) for x in r] for d, r in data[i]]:
            ctx.fail("%s: the output of instance %d was changed" % (what, i))
    ctx.state((side, kind, repr(tabs)))
    ctx.transitions += len(days)
    ctx.traces += 1


def check(ctx):
    T = ctx.thorough
    items = []
    for dirs in product(DIRS, repeat=2):
        if dirs == (None, None):
            continue
        for alias in (("Alpha", "Beta"), ("x", "Alpha")):
            for interval in (1, 2):
                for steps in (1, 2, 3) if not T else (1, 2, 3, 4):
                    if steps > 2 and (alias[0] == "x") != (interval == 2) and not T:
                        continue
                    for ninst in (1, 2):
                        for first in OPS if steps > 1 else ("add at Beta",):
                            log = not (interval == 2 and ninst == 2 and steps == 1)
                            side = ("micro", "macro")[(steps + ninst) % 2]
                            items.append(("logs of %s, %r named %r, interval %d, %d steps, %d instances, first %s%s" % (side, dirs, alias, interval, steps, ninst, first, "" if log else ", not logging"),
                                          logs, dirs, alias, interval, log, ninst, side, steps, first))
    V = (0, 1, 4, 9) if T else (0, 1, 4)
    for side, kind in (("micro", "file"), ("macro", "muscle3")):
        for n in (1, 2, 3):
            for days in (1, 2) if n < 3 or T else (1,):
                for vs in product(product(V, repeat=days), repeat=n):
                    items.append(("combined %s %s %r" % (side, kind, vs), combined, side, kind, [list(enumerate(v)) for v in vs]))
        for tabs in ([[(0, 1), (1, 2)], [(0, 4)]], [[(0, 1), (1, 2), (2, 5)], [(2, 4), (0, 7)]], [[(t, t * t) for t in range(5)]] * 3):
            items.append(("combined %s %s %r" % (side, kind, tabs), combined, side, kind, tabs))

        for n in (1, 2, 3):
            for k in range(1, n + 1):
                for late in permutations(range(n), k):
                    tabs = [[(0, i), (1, 4 * i + 1)] for i in range(n)]
                    items.append(("combined %s %s, arriving late %r" % (side, kind, late), combined, side, kind, tabs, late))

    def batch(c, part, parts):
        for x in items[part::parts]:
            c.case(x[0], x[1], c, *x[2:])
    ctx.batches(batch, 48)
    ctx.bounds = dict(instances=3, days=4 if T else 3, operations=len(OPS), directions=16, intervals=2)
