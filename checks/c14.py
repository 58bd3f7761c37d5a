"""Schedules written as CSV files, read by the real readers and followed day by day: every intensity series of two
settlements, every dated conflict zone, one and two location type changes, every flood series; after each daily update
and after each time step the status of every settlement is compared with the files."""
from itertools import product
import os
from mc import world as w

MR = dict(camp_movechance=0.02, idpcamp_movechance=0.1, default_movechance=0.3, conflict_movechance=0.9)
TYPES = ("camp", "idpcamp", "town", "conflict_zone", "forwarding_hub", "marker", "flood_zone")
MC = dict(camp=0.02, idpcamp=0.1, town=0.3, conflict_zone=0.9, forwarding_hub=1.0, marker=1.0, flood_zone=0.3)


# names in the files: one contained in another, at its beginning and at its end
FULL = dict(H="Kabul", A="Kab", B="Ka", C="aKab", D="b")
SHORT = {v: k for k, v in FULL.items()}


def load(rows, extra=(), conflicts=None, changes=None, flood=None, comments=False):
    """rows: (name, type, date, values of extra columns)"""
    m = w.mods()
    rows = [(FULL[r[0]],) + tuple(r[1:]) for r in rows]
    conflicts = conflicts and {FULL[k]: v for k, v in conflicts.items()}
    flood = flood and {FULL[k]: v for k, v in flood.items()}
    changes = None if changes is None else [(FULL[c[0]],) + tuple(c[1:]) for c in changes]
    for f in ("location_changes.csv", "conf.csv", "flood.csv"):
        if os.path.exists(f):
            os.remove(f)
    with open("loc.csv", "w") as f:
        f.write("#name,region,country,lat,lon,location_type,conflict_date,pop%s\n" % "".join("," + x for x in extra))
        for r in rows:
            f.write("%s,r,X,1.0,2.0,%s,%d,10%s\n" % (r[0], r[1], r[2], "".join("," + str(x) for x in r[3:])))
    with open("routes.csv", "w") as f:
        f.write("#name1,name2,distance,forced_redirection\n")
        for r in rows[1:]:
            f.write("%s,%s,100,0\n" % (rows[0][0], r[0]))
    with open("clos.csv", "w") as f:
        f.write("#closure_type,name1,name2,closure_start,closure_end\n")
    m.S.ConflictInputFile = ""
    m.S.FloodLevelInputFile = ""
    if conflicts is not None:
        days = len(next(iter(conflicts.values())))
        with open("conf.csv", "w") as f:
            f.write("#Day,%s\n" % (", ".join(conflicts) if comments else ",".join(conflicts)))
            for t in range(days):
                f.write("%d,%s\n" % (t, ",".join((" %g" if comments else "%g") % s[t] for s in conflicts.values())))
        m.S.ConflictInputFile = "conf.csv"
    if flood is not None:
        days = len(next(iter(flood.values())))
        with open("flood.csv", "w") as f:
            f.write("#Day,%s\n" % ",".join(flood))
            for t in range(days):
                f.write("%d,%s\n" % (t, ",".join("%d" % s[t] for s in flood.values())))
        m.S.FloodLevelInputFile = "flood.csv"
    if changes is not None:
        with open("location_changes.csv", "w") as f:
            f.write("#location name,new location type,date\n")
            for c in changes:
                f.write("%s,%s,%d\n" % c)
                if comments:
                    f.write("\n#%s,town,0\n" % c[0])
    ig = m.IG.InputGeography()
    ig.ReadLocationsFromCSV("loc.csv")
    ig.ReadLinksFromCSV("routes.csv")
    ig.ReadClosuresFromCSV("clos.csv")
    e = m.F.Ecosystem()
    e.print_location_output = False
    e, lm = ig.StoreInputGeographyInEcosystem(e)
    for f in ("location_changes.csv",):
        if os.path.exists(f):
            os.remove(f)
    return e, ig


def status(l):
    return dict(camp=bool(l.camp), idp=bool(l.idpcamp), town=bool(l.town), forward=bool(l.forward), marker=bool(l.marker),
                flood=bool(l.flood_zone), conflict=l.conflict if l.conflict > 0 else 0, movechance=round(l.movechance, 9))


def want_status(typ, intensity):
    return dict(camp=typ in ("camp", "idpcamp"), idp=typ == "idpcamp", town=typ == "town", forward=typ == "forwarding_hub",
                marker=typ == "marker", flood=typ == "flood_zone", conflict=intensity if typ == "conflict_zone" else 0,
                movechance=MC[typ])


def follow(ctx, e, ig, days, ref, what):
    """ref(t, name) -> (type or None (unspecified apart from not being in conflict), intensity)"""
    for t in range(days):
        ig.AddNewConflictZones(e, t)
        for phase in (0, 1):
            for l in e.locations:
                typ, inten = ref(t, SHORT[l.name])
                got = status(l)
                if typ is None:
                    ok = got["conflict"] == 0
                else:
                    want = want_status(typ, inten)
                    ok = got == want
                if not ok:
                    ctx.fail("%s: on day %d (%s the time step) %s is %r, expected %r" % (
                        what, t, ("before", "after")[phase], l.name, got, (typ, inten)))
            if phase == 0:
                e.evolve()
        ctx.transitions += 1
        ctx.state((what, t))
    ctx.traces += 1


def series(ctx, styp, stb, sa, sb, comments):
    w.settings(move_rules=MR)
    a, b = styp, stb
    e, ig = load([("H", "conflict_zone", 0), ("A", a[0], a[1]), ("B", b[0], b[1]), ("C", "town", 0)], (),
                 dict(A=sa, H=(1,) * len(sa), B=sb), comments=comments)

    def init(x):
        if "conflict" in x[0] and x[1] > 0:
            return "town"
        return x[0]

    def ref(t, n):
        if n == "H":
            return "conflict_zone", 1.0
        if n == "C":
            return "town", 0
        s, x = (sa, a) if n == "A" else (sb, b)
        if s[t] > 0:
            return "conflict_zone", s[t]
        if any(v > 0 for v in s[:t]) or x[0] == "conflict_zone":
            return ("town" if x == ("conflict_zone", 0) or any(v > 0 for v in s[:t]) else init(x)), 0
        return init(x), 0
    follow(ctx, e, ig, len(sa), ref, "conflicts file A %r from %r, B %r from %r" % (sa, a, sb, b))


def dated(ctx, da, db, inten):
    w.settings(move_rules=MR)
    extra = ("conflict_intensity",) if inten is not None else ()

    def row(n, t, d):
        return (n, t, d) + ((inten,) if inten is not None else ())
    e, ig = load([row("H", "conflict_zone", 0), row("A", "conflict_zone", da), row("B", "conflict", db), row("C", "camp", 0), row("D", "town", 2)], extra)

    def ref(t, n):
        d = dict(H=0, A=da, B=db).get(n)
        if d is None:
            return dict(C="camp", D="town")[n], 0
        return ("conflict_zone", inten if inten is not None else 1.0) if t >= d else ("town", 0)
    follow(ctx, e, ig, 7, ref, "conflict dates A %d, B %d, intensity %r" % (da, db, inten))


def changes(ctx, start, ch, conf, comments, inten):
    w.settings(move_rules=MR)
    extra = ("conflict_intensity",) if inten is not None else ()
    ex = (inten,) if inten is not None else ()
    cf = dict(B=(0, 0.5, 0, 1, 1, 1)) if conf else None
    e, ig = load([("H", "camp", 0) + ex, ("A", start, 0) + ex, ("B", "town", 0) + ex, ("C", "camp", 0) + ex], extra, cf, ch, comments=comments)

    def ref(t, n):
        if n == "B" and conf:
            v = cf["B"][t]
            return ("conflict_zone", v) if v > 0 else ("town", 0)
        typ = dict(H="camp", A=start, B="town", C="camp")[n]
        for c in sorted(ch, key=lambda c: c[2]):
            if c[0] == n and c[2] <= t:
                typ = c[1]
        return typ, (inten if inten is not None else 1.0)
    follow(ctx, e, ig, 6, ref, "type changes %r of %s conflicts file %r" % (ch, start, conf))


def floods(ctx, fa, fb, fc):
    m = w.mods()
    w.settings(move_rules=dict(MR, flood_rules=dict(max_flood_level=3, flood_movechances=[0.3, 0.4, 0.7, 1.0], flood_loc_weights=[1.0, 0.5, 0.2, 0.1])),
               spawn_rules=dict(take_from_population=True, conflict_zone_spawning_only=False, flood_zone_spawning_only=True,
                                flood_driven_spawning=dict(spawn_mode="constant", displaced_per_flood_day=[0, 1, 1, 1])))
    if not (m.S.spawn_rules["flood_driven_spawning"] and m.S.move_rules["FloodRulesEnabled"]):
        ctx.fail("flood rules not enabled by the configuration")
    e, ig = load([("A", "flood_zone", 0), ("B", "flood_zone", 0), ("C", "town", 0), ("D", "camp", 0)], (), None, None,
                 dict(B=fb, A=fa, C=fc) if fc else dict(B=fb, A=fa))
    for t in range(len(fa)):
        ig.AddNewConflictZones(e, t)
        for phase in (0, 1):
            for l in e.locations:
                s = dict(A=fa, B=fb, C=fc).get(SHORT[l.name])
                want = s[t] if s else 0
                got = l.attributes.get("flood_level", 0)
                if got != want:
                    ctx.fail("flood file A %r B %r C %r: on day %d %s has flood level %r, expected %r" % (fa, fb, fc, t, l.name, got, want))
            if phase == 0:
                e.evolve()
        ctx.transitions += 1
        ctx.state((fa, fb, fc, t))
    ctx.traces += 1


def check(ctx):
    items = []
    L = 5 if ctx.thorough else 4
    starts = (("conflict_zone", 0), ("conflict_zone", 2), ("town", 0), ("camp", 0), ("idpcamp", 0))
    sbs = ((0, 0, 0, 0, 0), (0, 1, 1, 0, 0.5), (1, 0.5, 0.25, 0, 1), (0.5, 0.5, 0, 1, 1))
    for sa in product((0, 0.5, 1), repeat=L):
        for st in starts:
            for sb in sbs:
                items.append((("series", st, sa, sb), series, st, ("town", 0), sa, sb[:L], sum(sa) > 2))
    for st in product(starts, repeat=2):
        for sa in product((0, 0.75), repeat=3):
            for sb in product((0, 0.3, 1), repeat=3):
                items.append((("series two", st, sa, sb), series, st[0], st[1], sa, sb, False))
    for da in range(0, 7):
        for db in range(0, 7):
            for inten in (None, 0.5):
                items.append((("dated", da, db, inten), dated, da, db, inten))
    for start in TYPES:
        for ty in TYPES:
            for d in range(6):
                for conf in (False, True):
                    items.append((("change", start, ty, d, conf), changes, start, (("A", ty, d),), conf, d % 2, 0.25 if d == 3 else None))
            for ty2 in TYPES:
                for d1, d2 in ((0, 1), (1, 3), (2, 3)) if not ctx.thorough else product(range(5), repeat=2):
                    if d1 != d2:
                        items.append((("change2", start, ty, ty2, d1, d2), changes, start, (("A", ty, d1), ("A", ty2, d2)), False, False, None))
                items.append((("change AC", start, ty, ty2), changes, start, (("C", ty, 2), ("A", ty2, 2)), False, False, None))
    fl = list(product(range(4), repeat=3))
    for fa in fl:
        for fb in fl if ctx.thorough else fl[::7]:
            for fc in (None, (0, 2, 1)):
                items.append((("flood", fa, fb, fc), floods, fa, fb, fc))

    def batch(c, part, parts):
        for x in items[part::parts]:
            c.case(str(x[0]), x[1], c, *x[2:])
    ctx.batches(batch, 48)
    ctx.bounds = dict(series_length=L, type_changes=2, days=7)
