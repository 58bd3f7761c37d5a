"""Every pair (and selected triples) of small series listed for one camp, read by the real reader, against the sum of the most
recent values on the union of the dates; every listing order."""
from itertools import combinations, permutations, product
from mc import data as dm


def recent(s, day):
    v = 0
    for d, x in s:
        if d <= day:
            v = x
    return v


def merged(series):
    days = sorted({d for s in series for d, _ in s})
    return [(d, sum(recent(s, d) for s in series)) for d in days]


def case(ctx, series, factor=1):
    want = [(float(d), v / factor) for d, v in merged(series)]
    for order in permutations(range(len(series))):
        ss = [series[i] for i in order]
        t = dm.table([("total", [ss[0]]), ("CC", [ss[-1]]), ("C", ss)], population_scaledown_factor=factor)
        got = [tuple(r) for r in t.data_table[2].tolist()]
        if got != want:
            ctx.fail("files %r merge into %r, expected %r" % (ss, got, want))
        for day in range(want and int(want[0][0]) or 0, int(want[-1][0]) + 2):
            g = t.get_field("C", day, FullInterpolation=False)
            if g != int(recent([(d, v) for d, v in want], day)):
                ctx.fail("files %r: level on day %d is %r, expected %r" % (ss, day, g, recent(want, day)))
        for i, k in ((0, 0), (1, -1)):
            if [tuple(r) for r in t.data_table[i].tolist()] != [(float(d), v / factor) for d, v in ss[k]]:
                ctx.fail("files %r for C changed the data of another camp to %r" % (ss, t.data_table[i].tolist()))
        ctx.transitions += 1
    ctx.state((repr(series), factor))
    ctx.traces += 1


def check(ctx):
    T = ctx.thorough
    items = []
    D = (-1, 0, 2, 3, 5) if T else (-1, 0, 2, 5)
    one = []
    for n in (1, 2, 3):
        for ds in combinations(D, n):
            for vs in ([(4, 1, 9), (0, 7, 2), (3, 3, 3)] if T else [(4, 1, 9), (0, 7, 2)]):
                one.append([(d, v) for d, v in zip(ds, vs)])
    for i, a in enumerate(one):
        for b in one:
            bb = [(d, v + 10) for d, v in b]
            items.append(("pair %r %r" % (a, bb), case, [a, bb]))
    for a, b, c in product(one[::5], repeat=3):
        items.append(("triple %r %r %r" % (a, b, c), case, [a, [(d, v + 10) for d, v in b], [(d, v + 100) for d, v in c]]))
    def up(s, k):
        return [(d, v + k) for d, v in s]
    for a, b in product(one[::4], repeat=2):
        # the same file listed more than once counts every time
        items.append(("repeated %r %r" % (a, b), case, [a, up(b, 10), a]))
        items.append(("repeated next %r %r" % (a, b), case, [up(b, 10), a, a]))
    for a, b in product(one[::7], repeat=2):
        items.append(("four %r %r" % (a, b), case, [a, up(b, 10), up(a, 100), up(b, 1000)]))
    items.append(("five", case, [one[0], up(one[3], 10), up(one[7], 100), up(one[9], 1000), up(one[-1], 10000)]))
    for a, b in product(one[::3], repeat=2):
        items.append(("scaled %r %r" % (a, b), case, [a, [(d, v + 10) for d, v in b]], 4))

    def batch(c, part, parts):
        for x in items[part::parts]:
            c.case(str(x[0]), x[1], c, *x[2:])
    ctx.batches(batch, 48)
    ctx.bounds = dict(points=3, files=3, days=7)
