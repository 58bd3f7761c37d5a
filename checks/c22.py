"""Every small series with every level-1 correction date (and pairs of them), directly and through the corrections file, and
every period for the maximum, against exact rational references."""
from fractions import Fraction as Fr
from itertools import combinations, product
from mc import data as dm


def corrected(s, base, day):
    """Reference: scaled series (base = day-zero population added back for the ratio)."""
    ds = [d for d, _ in s]
    if day < 0 or day not in ds or ds.index(day) == 0:
        return s, Fr(1)
    i = ds.index(day)
    f = (s[i][1] + base) / (s[i - 1][1] + base)
    return [(d, v * f if j < i else v) for j, (d, v) in enumerate(s)], f


def same(got, want):
    return len(got) == len(want) and all(int(a) == b for (a, _), (b, _) in zip(got, want)) and \
        all(abs(x - float(y)) <= 1e-9 * max(1.0, float(y)) for (_, x), (_, y) in zip(got, want))


def correct(ctx, s, days, how):
    t = dm.table([("total", [s]), ("CC", [s]), ("C", [s]), ("tot", [s])])
    ref = [(d, Fr(v)) for d, v in s]
    if how == "file":
        with open("corr.csv", "w") as f:
            for d in days:
                f.write("C,%s\n" % dm.date(d))
            f.write("\n")
        t.ReadL1Corrections("corr.csv")
        t.ReadL1Corrections("missing.csv")
    for d in days:
        ref, f = corrected(ref, 0, d)
        if how != "file":
            g = t.correctLevel1Registrations(name="C", date=dm.date(d))
            if abs(g - float(f)) > 1e-9 * max(1.0, float(f)):
                ctx.fail("series %r corrected on day %d: factor %r, expected %r" % (s, d, g, float(f)))
    got = [tuple(r) for r in t.data_table[2].tolist()]
    if not same(got, ref):
        ctx.fail("series %r corrected on days %r (%s): %r, expected %r" % (s, days, how, got, [(d, float(v)) for d, v in ref]))
    for k in (0, 1, 3):
        if [tuple(r) for r in t.data_table[k].tolist()] != [(float(d), float(v)) for d, v in s]:
            ctx.fail("series %r corrected on days %r: another column became %r" % (s, days, t.data_table[k].tolist()))
    # dates from the correction on keep their level
    hit = [d for d in days if d >= 0 and d in [x for x, _ in s]]
    if hit:
        for d, v in s:
            if d >= max(hit) and t.get_field("C", d) != int(v):
                ctx.fail("series %r corrected on days %r: day %d reads %r" % (s, days, d, t.get_field("C", d)))
    ctx.state((tuple(s), days, how))
    ctx.transitions += 1
    ctx.traces += 1


def maximum(ctx, s, scale):
    t = dm.table([("total", [[(0, 1)]]), ("CC", [[(0, 5)]]), ("C", [s]), ("DC", [[(0, 9)]])], population_scaledown_factor=scale)
    for days in range(-1, 9):
        g = t.getMaxFromData("C", days)
        inside = [int(v / scale) for d, v in s if d <= days]
        nxt = [int(v / scale) for d, v in s if d > days][:1]
        ok = {max(inside + [0]), max(inside + nxt + [0])}
        if g not in ok:
            ctx.fail("series %r: maximum over %d days is %r, expected %r" % (s, days, g, sorted(ok)))
        ctx.transitions += 1
    ctx.state((tuple(s), scale, "max"))
    ctx.traces += 1


def check(ctx):
    T = ctx.thorough
    items = []
    D = (-2, 0, 1, 4, 6)
    for n in (1, 2, 3, 4):
        for ds in combinations(D, n):
            for vs in product((20, 30, 80) if n < 4 or T else (20, 80), repeat=n):
                s = list(zip(ds, vs))
                for d in (-5, -2, 0, 1, 3, 4, 6, 9):
                    items.append(("corr %r %d" % (s, d), correct, s, (d,), "direct"))
                for d, q in ((1, 4), (4, 1), (6, 4), (0, 6), (4, 3), (4, 4)):
                    items.append(("corr %r %d %d" % (s, d, q), correct, s, (d, q), "file"))
            for vs in product((0, 2, 9, 5) if n < 4 or T else (0, 9, 5), repeat=n):
                items.append(("max %r %r" % (ds, vs), maximum, list(zip(ds, vs)), 1))
            items.append(("max scaled %r" % (ds,), maximum, list(zip(ds, (40, 8, 90, 4))), 4))

    long = list(range(0, 27, 3))
    for vs in ((20, 30, 80, 40, 50, 60, 25, 90, 10), (40, 40, 40, 50, 50, 50, 70, 70, 70)):
        for n in (6, 9):
            s = list(zip(long[:n], vs))
            for d in long[:n] + [4]:
                items.append(("corr long %r %d" % (s, d), correct, s, (d,), "direct"))
            for d, q in product(long[:n], repeat=2):
                items.append(("corr long %r %d %d" % (s, d, q), correct, s, (d, q), "file"))
            items.append(("corr long 3 %r" % (s,), correct, s, tuple(long[1:n:2]), "file"))

    def batch(c, part, parts):
        for x in items[part::parts]:
            c.case(str(x[0]), x[1], c, *x[2:])
    ctx.batches(batch, 48)
    ctx.bounds = dict(points=4, values=4, corrections=2, days="-5..9")
