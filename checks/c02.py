"""Journeys over one and two roads on the real ecosystem, for every road length, speed setting, per-road
speed, walking probability, start-on-foot flag and closing/reopening day of the grid.  The exact outcome
distribution of daily positions is compared with a reference traveller."""
from mc import world as w
from mc.chance import distribution
from itertools import permutations, product


def pos(e, a):
    l = a.location
    if hasattr(l, "startpoint"):
        return (l.startpoint.name, l.endpoint.name, round(float(a.distance_travelled_on_link), 6))
    return (l.name,)


class Road:
    def __init__(self, a, b, length, attrs):
        self.a, self.b, self.length = a, b, length
        self.own = float(attrs["max_move_speed"]) if "max_move_speed" in attrs else None
        self.pw = float(attrs.get("walk_probability", 0.0))


def reference(roads, gen, walk, foot, days, events, budget):
    """Distribution over tuples of daily positions.  roads: chain; an agent always moves on at once.
    events: day -> list of ('close'|'reopen', road index), applied before the day's step.
    budget: distance already covered today counts on later legs of the day."""
    out = {}

    def day(t, at, first, prob, hist, closed):
        if t == days:
            out[hist] = out.get(hist, 0.0) + prob
            return
        closed = set(closed)
        for what, i in events.get(t, []):
            (closed.add if what == "close" else closed.discard)(i)
        # at: ('loc', i) before road i, or ('road', i, travelled)
        if at[0] == "loc" and at[1] < len(roads) and at[1] not in closed:
            at = ("road", at[1], 0.0)

        def travel(at, first, prob, moved, speed_used):
            if at[0] != "road":
                name = roads[at[1]].a if at[1] < len(roads) else roads[-1].b
                day(t + 1, at, first, prob, hist + ((name,),), closed)
                return
            r = roads[at[1]]
            base = gen if r.own is None else r.own
            if foot and first:
                base = walk
            opts = [(base, 1 - r.pw), (walk, r.pw)] if base != walk else [(walk, 1.0)]
            for sp, p in opts:
                if p <= 0:
                    continue
                adv = max(0.0, sp - moved) if budget else sp
                d = at[2] + adv
                if d > r.length:
                    m = moved + r.length - at[2]
                    if at[1] in closed:
                        day(t + 1, ("loc", at[1]), False, prob * p, hist + ((r.a,),), closed)
                        continue
                    nxt = at[1] + 1
                    if nxt < len(roads) and nxt not in closed and m < sp:
                        travel(("road", nxt, 0.0), False, prob * p, m, sp)
                    else:
                        travel(("loc", nxt), False, prob * p, m, sp)
                else:
                    day(t + 1, ("road", at[1], d), first, prob * p,
                        hist + ((r.a, r.b, round(d, 6)),), closed)
        travel(at, first, prob, 0.0, 0.0)
    day(0, ("loc", 0), True, 1.0, (), frozenset())
    return out


def run(ctx, lengths, speed, walk, foot, attrs, events, days, reverse=False, how="link"):
    m = w.mods()
    mr = dict(camp_movechance=0.0, start_on_foot=foot)
    if speed is not None:
        mr["max_move_speed"] = speed
    if walk is not None:
        mr["max_walk_speed"] = walk
    w.settings(move_rules=mr)
    names = ("Kab", "Ka", "KabKa", "KaKab")[: len(lengths) + 1]
    locs = [dict(name=n, location_type="forwarding_hub", country="X") for n in names[:-1]] + \
           [dict(name=names[-1], location_type="camp", capacity=-1, country="Y")]
    roads = []

    def go():
        e = w.build(locs, [])
        for i, L in enumerate(lengths):
            a, b = names[i], names[i + 1]
            at = dict(attrs[i])
            if reverse:
                e.linkUp(b, a, float(L), attributes=at)
                keep = w.loc(e, a).links
            else:
                e.linkUp(a, b, float(L), attributes=at)
            w.loc(e, b).links[:] = [k for k in w.loc(e, b).links if k.endpoint.name != a]
        a = w.add(e, "Kab")
        hist = ()
        for t in range(days):
            for what, i in events.get(t, []):
                if how == "link" or len(lengths) > 1:
                    f = e.close_link if what == "close" else e.reopen_link
                    f(w.fresh(names[i]), w.fresh(names[i + 1]), twoway=False)
                elif how == "location":
                    f = e.close_location if what == "close" else e.reopen_location
                    f(w.fresh(names[i + 1]), twoway=False)
                else:
                    f = e.close_border if what == "close" else e.reopen_border
                    f("X", "Y", twoway=False)
            e.evolve()
            p = pos(e, a)
            ctx.expect(bool(a.travelling) == (len(p) == 3), "travelling flag %r at %r", a.travelling, p)
            hist += (p,)
        return hist
    roads = [Road(names[i], names[i + 1], float(L), attrs[i]) for i, L in enumerate(lengths)]
    got, ex = distribution(go)
    ctx.transitions += ex.paths * days
    ctx.traces += ex.paths
    for h in got:
        ctx.state((lengths, speed, walk, foot, str(attrs), str(events), h))
    args = (roads, 360.0 if speed is None else speed, 35.0 if walk is None else walk, foot, days, events)
    want = reference(*args, budget=False)
    alt = reference(*args, budget=True)
    ctx.sample(dict(lengths=lengths, speed=speed, foot=foot, attrs=attrs, events=events, got=list(got)[:1]))
    if len(lengths) > 1 and len(got) == len(alt) and all(abs(got.get(k, 0) - v) < 1e-9 for k, v in alt.items()):
        return
    ctx.same_dist(got, want, "daily positions for roads %r, speed %r, walk %r, on foot %r, attributes %r, events %r"
                  % (lengths, speed, walk, foot, attrs, events))


def star(ctx, ends, length, days):
    """Equally long roads from one town to equal camps: the roads and camps found on each day are those of the camps, each
    equally likely (whatever the camps are called and in whichever order the roads were built)."""
    m = w.mods()
    w.settings(move_rules=dict(camp_movechance=0.0, default_movechance=1.0, max_move_speed=100.0))

    def go():
        e = w.build([dict(name="Ka", location_type="town")] + [dict(name=n, location_type="camp", capacity=-1) for n in ends], [])
        for n in ends:
            e.linkUp("Ka", n, length)
        a = w.add(e, "Ka")
        h = ()
        for _ in range(days):
            e.evolve()
            h += (pos(e, a),)
        return h
    got, ex = distribution(go)
    ctx.transitions += ex.paths * days
    ctx.traces += ex.paths
    want = {}
    for n in ends:
        want[tuple(("Ka", n, 100.0 * (t + 1)) if 100.0 * (t + 1) <= length else (n,) for t in range(days))] = 1.0 / len(ends)
    for h in got:
        ctx.state((ends, length, h))
    ctx.same_dist(got, want, "daily positions with roads of %r km to %r" % (length, ends))


def check(ctx):
    n = 0
    for k in (2, 3, 4):
        for ends in permutations(("K", "KaK", "Kab", "KabKa", "aK"), k):
            for length in (50.0, 250.0):
                if k < 4 or ctx.thorough or length > 50:
                    ctx.case("star %r %r" % (ends, length), star, ctx, ends, length, 3)
    days = 6 if ctx.thorough else 5
    speeds = [(None, None), (100.0, 30.0), (20.0, 50.0)]
    A = [{}, {"max_move_speed": "50"}, {"max_move_speed": 70.0}, {"walk_probability": "0.25"},
         {"walk_probability": 1.0}, {"max_move_speed": "250.0", "walk_probability": "0.5"}]
    for (sp, wk), foot, at in product(speeds, (False, True), A):
        g = sp or 360.0
        v = wk or 35.0
        o = float(at.get("max_move_speed", g))
        ls = sorted({0.0, 1.0, v, v + 0.5, o - 0.5, o, o + 0.5, 2 * o, 2 * o + 1, 3 * v, 2.5 * o, o + v})
        evs = [{}, {1: [("close", 0)]}, {0: [("close", 0)]}, {1: [("close", 0)], 2: [("reopen", 0)]},
               {2: [("close", 0)]}]
        if ctx.thorough:
            evs += [{1: [("close", 0)], 3: [("reopen", 0)]}, {2: [("close", 0)], 3: [("reopen", 0)]},
                    {3: [("close", 0)]}, {1: [("close", 0)], 2: [("reopen", 0)], 3: [("close", 0)]}]
        for L, ev in product(ls, evs):
            if ev and foot and any(x[0] == "reopen" for y in ev.values() for x in y):
                continue
            name = "one road %s" % ((L, sp, wk, foot, at, ev),)
            ctx.case(name, run, ctx, (L,), sp, wk, foot, [at], ev, days, bool(n % 2),
                     ("link", "location", "border")[n % 3])
            n += 1
    # two roads, the settlement in between is passed
    lens = [50.0, 100.0, 100.5, 150.0, 260.0]
    pairs = [({}, {}), ({"max_move_speed": "40"}, {}), ({}, {"max_move_speed": 40.0}), ({}, {"walk_probability": 0.5})]
    for L1, L2, foot, at in product(lens, lens, (False, True), pairs):
        for ev in ({}, {2: [("close", 1)]}, {1: [("close", 0)]}):
            ctx.case("two roads %s" % ((L1, L2, foot, at, ev),), run, ctx, (L1, L2), 100.0, 30.0, foot, at, ev, days)
    ctx.bounds = dict(days=days, roads=2)
