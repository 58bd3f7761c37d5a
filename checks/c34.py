"""The real run scripts (sequential, and parallel on simulated processes) on every small instance of a grid of input files
and settings and every random outcome; the table on standard output is compared, day by day and cell by cell, with the agents
that exist at the end of the day and with an independent model of the registrations, the debt and the journeys."""
import csv
import datetime
import os
from fractions import Fraction as Fr
from itertools import product

import yaml

from mc import script, data, world as w
from mc.chance import Explorer

SPEED = 200.0
LAST = 9
# names in the files: one contained in another
FULL = {"A": "Kab", "B": "Ka", "C": "KabKa", "D": "aKa", "total": "total"}
SHORT = {v: k for k, v in FULL.items()}


def level(s, t):
    (x,) = data.interpolated(s, t) if len(data.interpolated(s, t)) == 1 else ({None},)
    return x


def write(o):
    """Input, validation and settings files of one instance."""
    def put(fn, *rows):
        os.makedirs(os.path.dirname(fn) or ".", exist_ok=True)
        with open(fn, "w") as f:
            f.write("".join(r + "\n" for r in rows))
    put("in/sim_period.csv", "StartDate,%s" % data.date(0), "Length,%d" % o["length"])
    dtype = "idpcamp" if o["idps"] else "camp"
    put("in/locations.csv", "#name,region,country,lat,lon,location_type,conflict_date,population",
        "Kab,r,X,0.0,0.0,%s,0,%d" % ("town" if o["a_town"] else "conflict_zone", 1000 * o["hasten"]), "Ka,r,X,5.0,5.0,town,0,%d" % (1000 * o["hasten"]),
        "KabKa,r,Y,1.0,1.0,camp,0,", "aKa,r,X,6.0,6.0,%s,0," % dtype)
    put("in/routes.csv", "#name1,name2,distance,forced_redirection", "Kab,KabKa,%s" % o["ac"], "Ka,aKa,%s" % o["bd"])
    put("in/closures.csv", "#closure_type,name1,name2,closure_start,closure_end", *(["link,Kab,KabKa,%d,%d" % o["closure"]] if o["closure"] else []))
    if o["conflicts"]:
        put("in/conflicts.csv", "#Day,Kab,Ka", *["%d,%s,%s" % (t, 1.0 if t >= o["a_from"] else 0.0, 1.0 if o["b_from"] is not None and t >= o["b_from"] else 0.0) for t in range(LAST)])
    if o["agents"]:
        put("in/agents.csv", "location,age", *["%s,%d" % (FULL[n], 30 + i) for i, n in enumerate(o["agents"])])
    if o["changes"]:
        put("location_changes.csv", *["%s,%s,%d" % ((FULL[c[0]],) + tuple(c[1:])) for c in o["changes"]])
    if o["corrections"]:
        put("in/registration_corrections.csv", *["%s,%s" % (FULL[n], data.date(d)) for n, d in o["corrections"]])
    for n in ("total", "C", "D"):
        data.write_series("val_%s" % n, o[n])
        os.makedirs("val", exist_ok=True)
        os.replace("val_%s" % n, "val/%s.csv" % n)
    put("val/data_layout.csv", "#name,file", "total,total.csv", *["%s,%s.csv" % (FULL[n], n) for n in o["layout"]])
    rules = dict(insert_day0=o["insert"], empty_camps_on_day0=o["empty"], sum_from_camps=o["sumc"], take_from_population=o["pop"])
    if o["agents"]:
        rules["read_from_agents_csv_file"] = True
    if o["rate"]:
        rules["conflict_driven_spawning"] = dict(spawn_mode="constant", displaced_per_conflict_day=o["rate"])
    y = dict(spawn_rules=rules, move_rules=dict(max_move_speed=SPEED, conflict_movechance=1.0, camp_movechance=0.0, idpcamp_movechance=0.0, default_movechance=1.0),
             optimisations=dict(hasten=o["hasten"]))
    if o["idp_totals"]:
        y["log_levels"] = dict(idp_totals=1)
    put("simsetting.yml" if o["yml"] is None else o["yml"], yaml.safe_dump(y))


BASE = dict(length=4, arg=0, total=((0, 5),), C=((0, 3),), D=((0, 2),), ac=100.0, bd=100.0, closure=None, conflicts=True, a_from=0, b_from=None, a_town=False,
            agents=(), changes=(), corrections=(), layout=("C", "D"), insert=True, empty=False, sumc=False, pop=False, rate=0, hasten=1,
            idps=False, idp_totals=False, yml=None, size=0)


def instance(ctx, what, **k):
    o = dict(BASE)
    o.update(k)
    assert set(o) == set(BASE)
    d = os.path.abspath("i")
    os.makedirs(d, exist_ok=True)
    old = os.getcwd()
    os.chdir(d)
    try:
        for r, _, fs in os.walk("."):
            for f in fs:
                os.remove(os.path.join(r, f))
        write(o)
        one(ctx, what, o)
    finally:
        os.chdir(old)


def one(ctx, what, o):
    days = o["arg"] or o["length"]
    h = o["hasten"]
    camps = ("C", "D")
    ser = {n: [(d, Fr(v, h)) for d, v in o[n]] for n in ("total", "C", "D")}
    for n, d in o["corrections"]:
        # registrations before the correction are raised by a constant ratio
        at = level(ser[n], d)
        later = [(x, v) for x, v in ser[n] if x >= d]
        fac = later[0][1] / at if at else Fr(1)
        assert fac == 1 or d == later[0][0]
    sets = {n: [data.interpolated(ser[n], t) for t in range(days)] for n in ser}
    for n in sets:
        for s in sets[n]:
            if len(s) != 1:
                ctx.fail("harness: undecided level of %s in %r" % (n, o))
    lev = {n: [min(s) for s in sets[n]] for n in sets}
    start = {n: lev[n][0] if o["insert"] and not o["empty"] else 0 for n in camps}
    tot = [lev["C"][t] + lev["D"][t] for t in range(days)] if o["sumc"] else lev["total"]
    # registrations, debt and arrivals
    new, raw, debt = [], [], []
    r = q = 0
    for t in range(days):
        if o["rate"]:
            k = sum(int(o["rate"] * 1.0) for p in ("A", "B") if conflict(o, p, t))
            new.append(k)
            raw.append(0)
            debt.append(0)
            continue
        ch = (0 if o["empty"] else tot[0]) if t == 0 else tot[t] - tot[t - 1]
        r += ch
        x = ch - q
        if o["insert"] and t == 0:
            x = 0
        q = max(0, -x)
        new.append(max(0, x))
        raw.append(r)
        debt.append(q)
    shown = {n: [lev[n][t] - (lev[n][0] if o["empty"] else 0) for t in range(days)] for n in camps}
    legs = {"A": ("C", o["ac"], o["closure"]), "B": ("D", o["bd"], None)}
    args = ["in", "val", str(o["arg"])] + ([] if o["yml"] is None else [o["yml"]])
    late = set()

    def once():
        truth = []

        def watch(rank, e):
            at, homes, days_of = {}, {}, e.time
            for a in e.agents:
                p = w.place(a)
                if p[0] == "loc":
                    n = SHORT[p[1]]
                    at[n] = at.get(n, 0) + 1
                h = SHORT[a.home_location.name]
                homes[h] = homes.get(h, 0) + 1
            truth.append((rank, at, homes, len(e.agents)))
        lines = script.run("run.py" if o["size"] == 0 else "run_par.py", args, o["size"], watch)
        judge(lines, truth)
        return tuple(lines)

    def judge(lines, truth):
        size = max(1, o["size"])
        by = {}
        for rank, *x in truth:
            by.setdefault(rank, []).append(x)
        for rank in range(size):
            if len(by.get(rank, [])) != days:
                ctx.fail("%s: %d days were simulated, %d were asked for" % (what, len(by.get(rank, [])), days))
        if len(lines) != days + 1:
            ctx.fail("%s: the output has %d lines instead of a header and %d days: %r" % (what, len(lines), days, lines))
        rows = list(csv.reader(lines))
        want_head = ["Day", "Date"] + [x for n in camps for x in (FULL[n] + " sim", FULL[n] + " data", FULL[n] + " error")] + [
            "Total error", "refugees in camps (UNHCR)", "total refugees (simulation)", "raw UNHCR refugee count", "refugees in camps (simulation)", "refugee_debt"]
        if o["idp_totals"]:
            want_head.append("total IDPs")
        head = rows[0]
        if head != want_head:
            ctx.fail("%s: the header is %r" % (what, head))
        spawned = {"A": [], "B": []}
        before = {"A": 0, "B": 0}
        extra = {n: o["agents"].count(n) for n in ("A", "B", "C", "D")}
        for t in range(days):
            homes, at, n = {}, {}, 0
            for rank in range(size):
                a, hh, k = by[rank][t]
                n += k
                for x, y in a.items():
                    at[x] = at.get(x, 0) + y
                for x, y in hh.items():
                    homes[x] = homes.get(x, 0) + y
            for p in ("A", "B"):
                k = homes.get(p, 0) - before[p]
                before[p] = homes.get(p, 0)
                spawned[p].append(k)
                fresh = k - (extra[p] if t == 0 else 0)
                if fresh < 0 or fresh and not conflict(o, p, t):
                    ctx.fail("%s: on day %d, %d people flee from %s, which has %sconflict" % (what, t, fresh, p, "" if conflict(o, p, t) else "no "))
                if fresh and t and conflict(o, p, t) and not conflict(o, p, t - 1):
                    late.add(p)
            total = sum(start.values()) + sum(extra.values()) + sum(new[:t + 1])
            if n != total:
                ctx.fail("%s: at the end of day %d there are %d people, the data ask for %d" % (what, t, n, total))
            camp = {}
            for p, (c, dist, clo) in legs.items():
                camp[c] = start[c] + extra[c] + sum(k for d, k in enumerate(spawned[p]) if arrives(o, p, d, dist, clo) <= t)
            for c in camps:
                if at.get(c, 0) != camp[c]:
                    ctx.fail("%s: at the end of day %d there are %d people in camp %s, expected %d (spawned: %r)" % (what, t, at.get(c, 0), c, camp[c], spawned))
            row = rows[t + 1]
            if len(row) != len(head):
                ctx.fail("%s: the row of day %d has %d of %d columns: %r" % (what, t, len(row), len(head), row))
            want = {"Day": t, "total refugees (simulation)": total, "refugees in camps (simulation)": sum(camp.values()),
                    "refugees in camps (UNHCR)": sum(shown[c][t] for c in camps), "raw UNHCR refugee count": raw[t], "refugee_debt": debt[t]}
            err = 0
            for c in camps:
                f = FULL[c]
                want[f + " sim"], want[f + " data"] = camp[c], shown[c][t]
                want[f + " error"] = round(abs(camp[c] / shown[c][t] - 1), 4) if shown[c][t] > 0 else 0.0
                err += abs(camp[c] - shown[c][t])
            want["Total error"] = err / raw[t] if raw[t] > 0 else 0.0
            if o["idp_totals"]:
                want["total IDPs"] = camp["D"] if o["idps"] else 0
            got = dict(zip(head, row))
            if got["Date"] != data.date(t):
                ctx.fail("%s: the date of day %d is %r" % (what, t, got["Date"]))
            for k, v in want.items():
                tol = 1e-9 if k.endswith("rror") else 0
                if k.endswith(" error") and k != "Total error":
                    tol = 1.01e-4
                try:
                    bad = abs(float(got[k]) - v) > tol
                except ValueError:
                    bad = True
                if bad:
                    ctx.fail("%s: day %d: %s is %r, expected %r (row %r)" % (what, t, k, got[k], v, row))
    for p, lines, trace in Explorer().explore(once):
        ctx.state((what, lines))
        ctx.traces += 1
        ctx.transitions += days
    for p, since in (("A", o["a_from"]), ("B", o["b_from"])):
        if since and since < days and new[since] and not o["changes"] and p not in late:
            ctx.fail("%s: nobody flees from %s on day %d, when its conflict begins" % (what, p, since))


def conflict(o, p, t):
    for n, typ, d in sorted(o["changes"], key=lambda c: -c[2]):
        if n == p and d <= t:
            return typ == "conflict_zone"
    since = o["a_from"] if p == "A" else o["b_from"]
    return since is not None and t >= since


def arrives(o, p, d, dist, clo):
    """Day at whose end someone who fled on day d has arrived."""
    if clo and clo[0] <= d < clo[1]:
        d = clo[1]
    return d + -(-int(dist) // int(SPEED)) - 1


def check(ctx):
    T = ctx.thorough
    items = []

    def add(what, sizes=(0,), **k):
        for n in sizes:
            items.append(("%s, %s" % (what, "%d processes" % n if n else "sequential"), instance, dict(k, size=n)))
    # series of registrations
    V = (0, 2, 5)
    ALLS = (0, 1, 2, 3)
    for a, b, c in product(V, repeat=3):
        for i, (ins, emp, sumc) in enumerate(product((True, False), repeat=3)):
            if sumc and not emp and (not ins or a):
                continue  # known finding of C17 and C20: the first day's total
            tot = ((0, a), (1, b), (2, c), (4, 6))
            cs = ((0, max(a - 1, 0)), (2, c), (3, 1))
            add("registrations %r, insert %r empty %r sum %r" % (tot, ins, emp, sumc), sizes=ALLS if T or (a, b, c) in ((5, 2, 5), (0, 5, 2)) else (0,),
                total=tot, C=cs, D=((0, min(a, 1)), (2, b)), insert=ins, empty=emp, sumc=sumc, length=5)
    # journeys and closures
    for ac, bd in product((100.0, 190.0, 300.0, 500.0), repeat=2):
        add("roads of %g and %g km" % (ac, bd), sizes=(3,) if ac == bd else (), total=((0, 2), (1, 4), (3, 4), (4, 5)), ac=ac, bd=bd, b_from=4, length=7)
        add("roads of %g and %g km" % (ac, bd), sizes=(0, 1, 2), total=((0, 2), (3, 5), (4, 5), (5, 6)), ac=ac, bd=bd, b_from=2, length=6, C=((0, 1), (5, 4)), D=((0, 1),))
    for s, e in product(range(0, 4), range(1, 5)):
        if s < e:
            add("road closed from %d to %d" % (s, e), sizes=(0, 2), total=((0, 2), (4, 6)), closure=(s, e), length=6, C=((0, 2),), D=((0, 0), (3, 3)))
    # start of conflicts
    for b in range(1, 4):
        for n in (1, 2, 3, 4):
            add("B in conflict from day %d, %d people" % (b, n), sizes=(0, 1, 2, 3)[:max(1, 5 - n) if n > 1 or T else 4], total=((0, 2), (b - 1, 2 + b), (b, 2 + b + n)), b_from=b, length=b + 2)
        add("conflict-driven, B from day %d" % b, sizes=ALLS, rate=2, b_from=b, length=b + 2, C=((0, 3), (2, 9)))
        add("B becomes a conflict zone on day %d" % b, sizes=(0, 2), total=((0, 2), (b - 1, 3), (b, 4 + b // 3)), changes=(("B", "conflict_zone", b),), length=b + 2)
        add("A becomes a town on day %d" % b, sizes=(0, 2), total=((0, 2), (b + 2, 5 + b)), b_from=0, changes=(("A", "town", b),), length=b + 2)
    for ins, emp in product((True, False), repeat=2):
        add("conflict-driven, insert %r empty %r" % (ins, emp), sizes=ALLS, rate=2, insert=ins, empty=emp, C=((0, 0),), D=((0, 0), (3, 4)))
    add("conflict-driven, camps with people", sizes=ALLS, rate=3, C=((0, 4), (3, 1)), D=((0, 2),), ac=300.0)
    # period and duration
    for length, arg in product((1, 2, 5), (0, 1, 3, 6)):
        add("period of %d days, duration %d" % (length, arg), sizes=(0, 2), total=((0, 1), (5, 6)), length=length, arg=arg, yml="cfg.yml" if arg else None)
    add("a year", sizes=(0, 3), total=((0, 1), (100, 3)), length=9, arg=8, yml="cfg.yml", C=((0, 1), (300, 1)))
    # agents from a file, scaling, IDPs, population
    for ag in ("A", "AB", "AAC", "CD", "DDB"):
        add("agents at %s from a file" % ag, sizes=ALLS, agents=tuple(ag), total=((0, 2), (2, 4)), a_town=False, pop=ag != "CD" and not set(ag) & set("CD"))
        add("agents at %s from a file, day zero from the camps" % ag, sizes=(0, 2), agents=tuple(ag), insert=True, empty=True, total=((0, 2), (2, 4)), ac=300.0)
    for hst in (2, 5, 10):
        add("numbers divided by %d" % hst, sizes=ALLS, hasten=hst, total=((0, 2 * hst + 1), (2, 3 * hst), (3, 5 * hst - 1)), C=((0, hst + 1), (3, 7 * hst)), D=((0, hst - 1), (2, hst + 1)))
    for idps, show in product((True, False), repeat=2):
        add("idp camp %r, idp totals %r" % (idps, show), sizes=(3,), idps=idps, idp_totals=show, b_from=3, total=((0, 4), (1, 5), (2, 6), (3, 7)), D=((0, 2),), C=((0, 2),))
        add("idp camp %r, idp totals %r" % (idps, show), sizes=(0, 1, 2), idps=idps, idp_totals=show, b_from=1, total=((0, 4), (1, 4), (3, 7)), D=((0, 2),), C=((0, 2),))
        add("idp camp %r, idp totals %r, agents" % (idps, show), sizes=ALLS, idps=idps, idp_totals=show, agents=tuple("BDC"), total=((0, 4), (3, 5)))
    for lay in (("C", "D"), ("D", "C")):
        add("layout %r" % (lay,), sizes=(0, 2), layout=lay, total=((0, 4), (3, 6)), C=((0, 1), (3, 2)), D=((0, 3), (3, 9)))
        add("layout %r, population" % (lay,), sizes=(0, 2), layout=lay, pop=True, total=((0, 4), (3, 6)), b_from=1)
    add("no people", sizes=ALLS, total=((0, 0),), C=((0, 0),), D=((0, 0),))
    if T:
        for a, b, c, d in product((0, 1, 3, 4), repeat=4):
            add("registrations %d %d %d %d" % (a, b, c, d), sizes=(0, 2), total=((0, a), (1, b), (2, c), (3, d)), C=((0, b), (2, a)), D=((0, a), (1, d)), b_from=2, length=5, ac=300.0)

    def batch(c, part, parts):
        for x in items[part::parts]:
            c.case(x[0], x[1], c, x[0], **x[2])
    ctx.batches(batch, 48)
    ctx.bounds = dict(camps=2, days=9, processes=3, agents=12, instances=len(items))
