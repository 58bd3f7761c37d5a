"""Every schedule of one closure (all kinds, all start and end days of the horizon) and every schedule of two and
(thorough) three closures over a set of kinds and days, followed day by day: the state of every road, camp and
redirection after each day against an independent interpreter of the schedule.  Single schedules also through the
CSV reader."""
from itertools import product, combinations
from mc import env
from mc import world as w
import os

COUNTRY = {"Kab": "Su", "Ka": "Su", "KabKa": "Sud", "KaKab": "SudSud"}
ROADS = (("Kab", "Ka", 300.0, False), ("Ka", "KabKa", 400.0, True), ("Kab", "KabKa", 500.0, False), ("KabKa", "KaKab", 600.0, False), ("Ka", "KaKab", 700.0, False))
KIND = {"Kab": "conflict_zone", "Ka": "town", "KabKa": "camp", "KaKab": "idpcamp"}
MC = dict(camp=0.02, idpcamp=0.1, town=0.3, conflict_zone=0.9)
MR = dict(camp_movechance=0.02, idpcamp_movechance=0.1, default_movechance=0.3, conflict_movechance=0.9)
NAMES = [("country", "Su", "Sud"), ("country", "Sud", "Su"), ("location", "Ka", "-"), ("location", "KabKa", ""), ("link", "Kab", "Ka"), ("link", "KabKa", "Ka"),
         ("camp", "KabKa", ""), ("idpcamp", "KaKab", ""), ("remove_forced_redirection", "Ka", "KabKa"), ("location", "nope", ""),
         ("link", "Kab", "nope"), ("link", "nope", "Kab"), ("camp", "nope", ""), ("country", "Su", "nope"),
         ("remove_forced_redirection", "nope", "KabKa"), ("remove_forced_redirection", "Ka", "nope"),
         ("location", "K", ""), ("link", "Kab", "K"), ("camp", "KabK", ""), ("country", "Su", "SudS")]


class Ref:
    def __init__(self):
        self.open = {}
        self.redir = {}
        for a, b, d, r in ROADS:
            self.open[a, b] = self.open[b, a] = True
            self.redir[a, b], self.redir[b, a] = r, False
        self.kind = dict(KIND)

    def apply(self, typ, a, b, end, two):
        to = bool(end)
        if typ == "country":
            for x, y in self.open:
                c = (COUNTRY[x], COUNTRY[y])
                if c == (a, b) or (two and c == (b, a)):
                    self.open[x, y] = to
        elif typ == "location":
            for x, y in self.open:
                if y == a or (two and x == a):
                    self.open[x, y] = to
        elif typ == "link":
            for x, y in self.open:
                if (x, y) == (a, b) or (two and (y, x) == (a, b)):
                    self.open[x, y] = to
        elif typ in ("camp", "idpcamp"):
            if a in self.kind:
                self.kind[a] = typ if end else "town"
        elif typ == "remove_forced_redirection":
            if (a, b) in self.redir:
                self.redir[a, b] = to

    def day(self, sched, t, two):
        for typ, a, b, s, e in sched:
            if s == t:
                self.apply(typ, a, b, False, two)
            if e == t:
                self.apply(typ, a, b, True, two)


def state(e):
    op, red = {}, {}
    for l in e.locations:
        for k in l.links:
            op.setdefault((l.name, k.endpoint.name), []).append(True)
            red[l.name, k.endpoint.name] = k.forced_redirection
        for k in l.closed_links:
            op.setdefault((l.name, k.endpoint.name), []).append(False)
            red[l.name, k.endpoint.name] = k.forced_redirection
    kinds = {}
    for l in e.locations:
        kinds[l.name] = (bool(l.camp), bool(l.idpcamp), bool(l.town), l.conflict > 0, round(l.movechance, 9))
    return op, red, kinds


def kindstate(k):
    return (k in ("camp", "idpcamp"), k == "idpcamp", k == "town", k == "conflict_zone", MC[k])


def make(m):
    e = w.build([dict(name=n, location_type=KIND[n], country=COUNTRY[n], pop=10) for n in ("Kab", "Ka", "KabKa", "KaKab")], [])
    for a, b, d, r in ROADS:
        e.linkUp(a, b, d, r, {})
    return e


def follow(ctx, e, sched, days, two, what):
    ref = Ref()
    for t in range(days):
        e.enact_border_closures(t, two) if two is False else e.enact_border_closures(t)
        ref.day(sched, t, two)
        for phase in (0, 1):
            op, red, kinds = state(e)
            for k in ref.open:
                if op.get(k) != [ref.open[k]]:
                    ctx.fail("%s: on day %d road %s->%s is %r, expected open: %r" % (what, t, k[0], k[1], op.get(k), ref.open[k]))
                if bool(red[k]) != ref.redir[k]:
                    ctx.fail("%s: on day %d redirection %s->%s is %r" % (what, t, k[0], k[1], red[k]))
            if set(op) != set(ref.open):
                ctx.fail("%s: roads appeared or vanished: %r" % (what, sorted(op)))
            for n in ref.kind:
                if kinds[n] != kindstate(ref.kind[n]):
                    ctx.fail("%s: on day %d %s is (camp, idpcamp, town, conflict, movechance) %r, expected a %s"
                             % (what, t, n, kinds[n], ref.kind[n]))
            if phase == 0:
                e.evolve()
        ctx.transitions += 1
        ctx.state((what, t))
    ctx.traces += 1


def run(ctx, sched, days, two=True):
    m = w.mods()
    w.settings(move_rules=MR)
    e = make(m)
    e.closures = [[w.fresh(c[0]), w.fresh(c[1]) if c[1] else "", w.fresh(c[2]) if c[2] else "", c[3], c[4]] for c in sched]
    follow(ctx, e, sched, days, two, "schedule %r two-way %s" % (sched, two))


def csv(ctx, sched, days, comments):
    m = w.mods()
    w.settings(move_rules=MR)
    d = os.getcwd()
    with open("loc.csv", "w") as f:
        f.write("#name,region,country,lat,lon,location_type,conflict_date,pop\n")
        for n in ("Kab", "Ka", "KabKa", "KaKab"):
            f.write("%s,r,%s,1.0,2.0,%s,0,10\n" % (n, COUNTRY[n], KIND[n]))
    with open("routes.csv", "w") as f:
        f.write("#name1,name2,distance,forced_redirection\n")
        for a, b, x, r in ROADS:
            f.write("%s,%s,%g,0\n" % (a, b, x))
    with open("clos.csv", "w") as f:
        f.write("#closure_type,name1,name2,closure_start,closure_end\n")
        for c in sched:
            if comments:
                f.write("#%s,%s,%s,%d,%d\n\n" % (c[0], c[1], c[2], 0, 1))
            f.write("%s,%s,%s,%d,%d\n" % c)
    ig = m.IG.InputGeography()
    ig.ReadLocationsFromCSV("loc.csv")
    ig.ReadLinksFromCSV("routes.csv")
    ig.ReadClosuresFromCSV("clos.csv")
    e = m.F.Ecosystem()
    e.print_location_output = False
    e, lm = ig.StoreInputGeographyInEcosystem(e)
    for a, b, x, r in ROADS:
        if r:
            e.set_forced_redirection(a, b, True)
    follow(ctx, e, sched, days, True, "schedule file %r" % (sched,))


def check(ctx):
    items = []
    for nm in NAMES:
        for s in range(-1, 5):
            for e in range(-1, 6):
                for two in (True, False):
                    items.append((("single", nm, s, e, two), run, (nm + (s, e),), 7, two))
                if s in (0, 1, 3) and e in (-1, 2, 4):
                    items.append((("csv", nm, s, e), csv, (nm + (s, e),), 6, s == 1))
    tt = ((0, 2), (1, -1), (1, 2), (2, 3), (1, 3), (2, 1)) if not ctx.thorough else tuple(product((0, 1, 2), (-1, 1, 2, 3)))
    ev = [nm + x for nm in NAMES[:9] for x in tt]
    for a in ev:
        for b in ev:
            items.append((("pair", a, b), run, (a, b), 5))
    if ctx.thorough:
        ev3 = [nm + x for nm in NAMES[:9] for x in ((0, 2), (1, -1), (1, 3), (2, 3))]
        for sch in combinations(ev3, 3):
            items.append((("triple",) + sch, run, sch, 5))

    def batch(c, part, parts):
        for x in items[part::parts]:
            c.case(str(x[0]), x[1], c, *x[2:])
    ctx.batches(batch, 48)
    ctx.bounds = dict(closures=3 if ctx.thorough else 2, days=7)
