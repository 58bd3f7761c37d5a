"""Every small table of data points written as CSV, read by the real reader, looked up on every day in and around its range and
differenced day by day, against exact rational interpolation."""
from itertools import combinations, product
from mc import data as dm

KEY = "day zero sums the total column along with the camps"


def lookup(ctx, s, factor):
    o = [(d + 1, v + 5 * factor) for d, v in s]
    t = dm.table([("total", [s]), ("KabKa", [o]), ("Ka", [s]), ("tot", [o])], population_scaledown_factor=factor)
    so = [(d, dm_fr(v, factor)) for d, v in o]
    sc = [(d, dm_fr(v, factor)) for d, v in s]
    own = sc
    for day in range(s[0][0] - 2, s[-1][0] + 4):
        if t.is_interpolated("Ka", day) != (day not in [d for d, _ in s]):
            ctx.fail("series %r: day %d is%s a data point, but is_interpolated gives %r" % (s, day, "" if day in [d for d, _ in s] else " not", t.is_interpolated("Ka", day)))
        for name, sc in (("total", own), ("Ka", own), ("KabKa", so), ("tot", so)):
            g = t.get_field(name, day)
            want = dm.interpolated(sc, day)
            if g not in want:
                ctx.fail("series %r (scaled down by %d) on day %d: %r, expected %r" % (s, factor, day, g, sorted(want)))
            g = t.get_field(name, day, FullInterpolation=False)
            if g != dm.latest(sc, day):
                ctx.fail("series %r (scaled down by %d) on day %d without interpolation: %r, expected %r" % (s, factor, day, g, dm.latest(sc, day)))
        ctx.transitions += 1
    for d, v in own:
        if t.get_field("Ka", d) != int(v):
            ctx.fail("series %r (scaled down by %d): day %d has %r" % (s, factor, d, t.get_field("Ka", d)))
    ctx.state((tuple(s), factor))
    ctx.traces += 1


def dm_fr(v, f):
    from fractions import Fraction
    return Fraction(v, f)


def differences(ctx, rows, sumc, empty, calls):
    """calls: how often each day's difference is asked for (the spawner asks twice)."""
    t = dm.table([(n, [s]) for n, s in rows], start_empty=empty)
    ref = dm.table([(n, [s]) for n, s in rows], sub="plain")
    names = [n for n, _ in rows]
    camps = names[1:]
    days = max(s[-1][0] for _, s in rows) + 3

    def lev(n, day):
        return ref.get_field(n, day)

    def level(day):
        return sum(lev(n, day) for n in camps) if sumc else lev("total", day)
    acc = 0
    off = 0
    what = "%r sum_from_camps %r start_empty %r" % (rows, sumc, empty)
    known = False
    for day in range(days):
        g = [t.get_daily_difference(day, SumFromCamps=sumc) for _ in range(calls)]
        if sumc and t.get_new_refugees(day) != g[0]:
            ctx.fail("%s: day %d: get_new_refugees gives %r, the difference is %r" % (what, day, t.get_new_refugees(day), g[0]))
        if len(set(g)) != 1:
            ctx.fail("%s: day %d differs between calls: %r" % (what, day, g))
        if day == 0 and sumc and not empty and g[0] == level(0) + lev("total", 0) and lev("total", 0) != 0:
            known = True
            off = lev("total", 0)
        acc += g[0]
        want = level(day) - (level(0) if empty else 0) + off
        if acc != want:
            ctx.fail("%s: differences up to day %d add up to %d, the level is %d" % (what, day, acc, want))
        for n in names:
            want = lev(n, day) - (lev(n, 0) if empty else 0)
            if t.get_field(n, day) != want:
                ctx.fail("%s: %s on day %d is %r, expected %r" % (what, n, day, t.get_field(n, day), want))
            if t.get_field(n, day, FullInterpolation=False) != ref.get_field(n, day, FullInterpolation=False) - (lev(n, 0) if empty else 0):
                ctx.fail("%s: %s on day %d without interpolation is %r" % (what, n, day, t.get_field(n, day, FullInterpolation=False)))
        ctx.transitions += 1
    # any later period, asked in any order
    for a in range(1, days):
        for b in (a + 1, days):
            got = sum(t.get_daily_difference(x, SumFromCamps=sumc) for x in range(a, b))
            if got != level(b - 1) - level(a - 1):
                ctx.fail("%s: differences of days %d..%d add up to %d, expected %d" % (what, a, b - 1, got, level(b - 1) - level(a - 1)))
    ctx.state((repr(rows), sumc, empty, calls))
    ctx.traces += 1
    if known:
        ctx.fail("%s: the difference of day 0 is %d, the level is %d" % (what, level(0) + off, level(0)), KEY)


def dates(ctx):
    """Days and dates are converted both ways, over the changes of month and year and leap days."""
    import datetime
    from flee.datamanager import DataTable as T
    for y in (1999, 2000, 2015, 2016, 2019, 2020, 2024, 2100):
        for m, d in ((1, 1), (2, 27), (2, 28), (3, 1), (6, 30), (12, 31)):
            a = datetime.date(y, m, d)
            for n in (0, 1, 2, 3, 28, 29, 30, 31, 59, 60, 365, 366, 367, 1000, 1461):
                for n in (n, -n):
                    b = a + datetime.timedelta(days=n)
                    if T.subtract_dates(date1=b.isoformat(), date2=a.isoformat()) != n:
                        ctx.fail("%s - %s is %r days" % (b, a, T.subtract_dates(date1=b.isoformat(), date2=a.isoformat())))
                    if str(T.steps_to_date(n, a.isoformat())) != b.isoformat():
                        ctx.fail("%d days after %s is %s" % (n, a, T.steps_to_date(n, a.isoformat())))
                    ctx.transitions += 1
            ctx.state((y, m, d))


def reader(ctx, header, comment):
    """Optional header line, comments and blank entries."""
    import os
    from flee.datamanager import DataTable
    s = [(0, 4), (3, 10), (5, 1)]
    dm.write_series("x.csv", s, header, comment)
    got = DataTable.ConvertCsvFileToNumPyTable("x.csv", start_date=dm.START)
    if [tuple(r) for r in got.tolist()] != [(float(d), float(v)) for d, v in s]:
        ctx.fail("file with header %r and comments %r read as %r" % (header, comment, got.tolist()))
    ctx.state((header, comment))


def check(ctx):
    T = ctx.thorough
    items = []
    V = (0, 3, 10, 7)
    D = (-2, 0, 1, 3, 6) if not T else (-3, -1, 0, 1, 3, 6, 10)
    for n in (1, 2, 3, 4):
        for ds in combinations(D, n):
            for vs in product(V if n < 4 or T else (0, 10), repeat=n):
                for f in ((1, 2) if n > 2 else (1, 2, 3, 10)):
                    items.append(("lookup %r %r %d" % (ds, vs, f), lookup, list(zip(ds, vs)), f))
    V = (0, 3, 8)
    D = (-1, 0, 2, 4)
    for n in (1, 2, 3):
        for ds in combinations(D, n):
            for vs in product(V, repeat=n):
                s = list(zip(ds, vs))
                for other in ([(0, 2)], [(-1, 9), (3, 1)], [(1, 0), (2, 6)]):
                    for sumc in (True, False):
                        for empty in (True, False):
                            rows = [("total", other), ("KabKa", s), ("KaKab", [(0, 5), (4, 1)])]
                            items.append(("diff %r %r %r %r" % (s, other, sumc, empty), differences, rows, sumc, empty, 2))
                            if not sumc:
                                items.append(("diff total %r %r %r" % (s, other, empty), differences, [("total", s), ("KabKa", other)], sumc, empty, 1))
    items.append(("dates", dates))
    for h in (True, False, "Date,count", "DateTime,count", "#x"):
        for c in (True, False):
            items.append(("reader %r %r" % (h, c), reader, h, c))

    def batch(c, part, parts):
        for x in items[part::parts]:
            c.case(str(x[0]), x[1], c, *x[2:])
    ctx.batches(batch, 48)
    ctx.bounds = dict(points=4, days="-3..13", values=4)
