"""Every small series of registrations written as CSV files and followed day by day by the real spawner, sequential and
parallel, with each combination of the day-zero and sum-from-camps settings, against a debt ledger."""
import os
from itertools import product
from mc import world as w, fakempi

KEY = "day zero sums the total column along with the camps"


def write(total, camps):
    os.makedirs("data", exist_ok=True)

    def series(fn, s):
        with open(os.path.join("data", fn), "w") as f:
            f.write("#Date,count\n")
            for day, v in enumerate(s):
                if v is not None:
                    f.write("2020-01-%02d,%d\n" % (day + 1, v))
    series("total.csv", total)
    with open("data/data_layout.csv", "w") as f:
        f.write("#location,file\ntotal,total.csv\n")
        for n, s in camps.items():
            series("%s.csv" % n, s)
            f.write("%s,%s.csv\n" % (n, n))


def level(s, t):
    """Registrations on day t (piecewise linear)."""
    pts = [(d, v) for d, v in enumerate(s) if v is not None]
    if t <= pts[0][0]:
        return pts[0][1]
    for (d0, v0), (d1, v1) in zip(pts, pts[1:]):
        if t < d1:
            return int(v0 + (v1 - v0) * (t - d0) / (d1 - d0))
    return pts[-1][1]


def follow(ctx, total, camps, insert, sumc, empty, size):
    from flee.datamanager import handle_refugee_data
    write(total, camps)
    rules = dict(insert_day0=insert, sum_from_camps=sumc, empty_camps_on_day0=empty)
    places = [dict(name="Kab", location_type="conflict_zone", pop=1000)] + [
        dict(name=n, location_type="camp", capacity=-1) for n in camps]
    links = [("Kab", n, 100) for n in camps]
    mv = dict(conflict_movechance=0.0, camp_movechance=0.0, idpcamp_movechance=0.0)

    def table():
        return handle_refugee_data.RefugeeTable(csvformat="generic", data_directory="data", start_date="2020-01-01",
                                                data_layout="data_layout.csv", start_empty=empty)
    days = len(total) + 1
    lev = [sum(level(s, t) for s in camps.values()) if sumc else level(total, t) for t in range(days)]
    # the level the table reports on day zero when the total column is added to the camps (known finding)
    lev0 = lev[0] + level(total, 0) if sumc else lev[0]

    def expected(first):
        """(new, raw, debt, agents) per day; first = amount of day zero"""
        out, debt, raw, peak = [], 0, 0, None
        initial = 0
        if insert and not empty:
            initial = sum(level(s, 0) for s in camps.values())
        n = initial
        for t in range(days):
            ch = (0 if empty else first) if t == 0 else lev[t] - lev[t - 1]
            raw += ch
            new = ch - debt
            if insert and t == 0:
                new = 0
            debt = max(0, -new)
            new = max(0, new)
            n += new
            out.append((new, raw, debt, n))
        return out
    want, defective = expected(lev[0]), expected(lev0)

    def drive(m, e, sync=None):
        tb = table()
        sp = m.spawning
        got = []
        for n in camps:
            sp.add_initial_refugees(e, tb, w.loc(e, n))
        for t in range(days):
            r = sp.spawn_daily_displaced(e, t, tb)
            e.evolve()
            here = {}
            for a in e.agents:
                here[a.home_location.name] = here.get(a.home_location.name, 0) + 1
            got.append((tuple(int(x) for x in r) + (e.numAgents(),), here))
        return got
    if size == 0:
        m = w.mods()
        w.settings(spawn_rules=rules, move_rules=mv)
        w.reset_globals()
        per_rank = [drive(m, w.build(places, links))]
    else:
        W = fakempi.World(size)
        W.settings(spawn_rules=rules, move_rules=mv)
        W.build(places, links)
        per_rank = W.each(lambda m, r: drive(m, W.e[r]))
    what = "total %r camps %r insert_day0 %r sum_from_camps %r empty %r processes %d" % (total, camps, insert, sumc, empty, size)
    for r, got in enumerate(per_rank):
        g = [x[0] for x in got]
        if g != want:
            if g == defective:
                ctx.fail("%s: (new, raw, debt, agents) by day %r, expected %r" % (what, g, want), KEY)
            ctx.fail("%s: (new, raw, debt, agents) by day %r, expected %r" % (what, g, want))
    # where they were placed
    homes = {}
    for got in per_rank:
        for n, c in got[-1][1].items():
            homes[n] = homes.get(n, 0) + c
    init = {n: level(s, 0) for n, s in camps.items()} if insert and not empty else {}
    for n in camps:
        if homes.get(n, 0) != init.get(n, 0):
            ctx.fail("%s: %d agents start in camp %s, expected %d" % (what, homes.get(n, 0), n, init.get(n, 0)))
    # the highest level of the data so far
    for t, x in enumerate(want):
        base = lev[0] if empty else 0
        start = init and sum(init.values()) or 0
        if insert and not empty:
            peak = start + max(0, max(lev[:t + 1]) - lev[0])
        elif insert or empty:
            peak = max(lev[:t + 1]) - lev[0]
        else:
            peak = max(lev[:t + 1])
        if x[3] != peak:
            ctx.fail("harness: ledger %r does not reach the peak %r on day %d" % (x, peak, t))
    ctx.state((tuple(total), repr(camps), insert, sumc, empty, size))
    ctx.transitions += days
    ctx.traces += 1


def check(ctx):
    T = ctx.thorough
    items = []

    def add(total, camps, **k):
        for insert, sumc, empty in product((True, False), repeat=3):
            for size in k.get("sizes", (0,)):
                items.append(("%r %r %r %r %r %d" % (total, camps, insert, sumc, empty, size), follow, total, camps, insert, sumc, empty, size))
    V = (0, 2, 3, 5) if T else (0, 2, 5)
    for s in product(V, repeat=5 if T else 4):
        add(s, {"KabKa": s})
    for s in product((0, 1, 4), repeat=3):
        for q in product((0, 2, 3) if T else (0, 3), repeat=3):
            add(tuple(a + b + 1 for a, b in zip(s, q)), {"KabKa": s, "KaKab": q})
    for s in ((0, None, None, 7), (7, None, 1, 9), (3, None, None, 0, 8), (5, 1, None, 6), (None, 4, None, 10), (9, None, 2, None, 12)):
        add(s, {"KabKa": s})
        add((2,) + s[1:], {"KabKa": s, "KaKab": (1, None, 3)})
    for s in ((0, 3, 1, 4), (4, 1, 2, 6), (2, 0, 0, 3), (5, 5, 3, 7)):
        add(s, {"KabKa": s, "KaKab": (1, 2, 0, 2)}, sizes=(1, 2, 3))

    def batch(c, part, parts):
        for x in items[part::parts]:
            c.case(str(x[0]), x[1], c, *x[2:])
    ctx.batches(batch, 48)
    ctx.bounds = dict(series=5 if T else 4, values=len(V), camps=2, processes=3)
